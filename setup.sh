#!/bin/bash
# builds the SSA extractor; checks build it themselves when it is missing
. /opt/vp/env.sh
cd /verif/ssadump && GOFLAGS=-mod=mod go build -o /verif/bin/ssadump .
