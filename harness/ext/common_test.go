// Package verifharness is laid over /repo with "go test -overlay"; it holds the bounded stand-ins and the search for
// failing inputs that accompany the deductive checks. It uses the exported interfaces only and compares the code
// with an independent reference (see ref_test.go).
package verifharness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type stats struct {
	Property    string   `json:"property"`
	Test        string   `json:"test"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	seen        map[string]bool
}

type failure struct {
	Property string `json:"property"`
	Test     string `json:"test"`
	CaseSeed int64  `json:"case_seed"`
	What     string `json:"what"`
	Case     string `json:"case"`
	Panic    string `json:"panic,omitempty"`
}

// C is one case: a random source, a log of what was done, and a way to fail
type C struct {
	*rand.Rand
	log  []string
	sig  strings.Builder
	triv bool
	fast bool
}

type caseFailed struct{ what string }

func (c *C) Logf(f string, a ...interface{}) { c.log = append(c.log, fmt.Sprintf(f, a...)) }
func (c *C) Failf(f string, a ...interface{}) {
	panic(caseFailed{fmt.Sprintf(f, a...)})
}
func (c *C) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		panic(caseFailed{fmt.Sprintf(f, a...)})
	}
}

func envInt(name string, def int64) int64 {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			return v
		}
	}
	return def
}

func budget() time.Duration {
	return time.Duration(envInt("VERIF_BUDGET_MS", 3000)) * time.Millisecond
}

// Run runs cases until the budget is used up. A case that panics or calls Failf is a failure of the property.
func Run(t *testing.T, prop, rule string, maxCases int, f func(c *C)) {
	st := &stats{Property: prop, Test: t.Name(), Rule: rule, seen: map[string]bool{}}
	seed := envInt("VERIF_SEED", 1)
	deadline := time.Now().Add(budget())
	one := func(cs int64) *failure {
		c := &C{Rand: rand.New(rand.NewSource(cs))}
		var fl *failure
		func() {
			defer func() {
				if r := recover(); r != nil {
					fl = &failure{Property: prop, Test: t.Name(), CaseSeed: cs, Case: strings.Join(c.log, "\n")}
					if cf, ok := r.(caseFailed); ok {
						fl.What = cf.what
					} else {
						fl.What = fmt.Sprintf("panic: %v", r)
						fl.Panic = string(debug.Stack())
					}
				}
			}()
			f(c)
		}()
		st.Evaluations++
		s := strings.Join(c.log, "; ")
		if !c.triv && len(c.log) > 0 && !st.seen[s] {
			st.seen[s] = true
			st.Distinct++
			if len(st.Samples) < 3 && len(s) < 600 {
				st.Samples = append(st.Samples, s)
			}
		}
		return fl
	}
	var fl *failure
	if r := os.Getenv("VERIF_REPLAY_SEED"); r != "" {
		cs, _ := strconv.ParseInt(r, 10, 64)
		fl = one(cs)
	} else {
		for i := 0; (maxCases <= 0 || i < maxCases) && fl == nil; i++ {
			if i > 0 && time.Now().After(deadline) {
				break
			}
			fl = one(seed*1000003 + int64(i))
		}
	}
	if out := os.Getenv("VERIF_OUT"); out != "" {
		b, _ := json.Marshal(map[string]interface{}{"stats": st, "failure": fl})
		_ = os.WriteFile(out+"/"+strings.ReplaceAll(t.Name(), "/", "_")+".json", b, 0o644)
	}
	if fl != nil {
		t.Fatalf("property %s: %s\ncase seed %d:\n%s\n%s", prop, fl.What, fl.CaseSeed, fl.Case, fl.Panic)
	}
}
