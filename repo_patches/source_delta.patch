From 90a8f8164661beeb5fe005b761b78fa6df6aa85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 01/20] fix: decode16/decode2 return an error instead of
 panicking when the padding exceeds the data

---
 trie/encode.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trie/encode.go b/trie/encode.go
index 8712103..aa3f5d6 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -52,6 +52,10 @@ func decode16(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*2)
 	ret = unpack16(ret, data[1:])
+	if len(ret) < int(data[0]) {
+		// nothing to cut the excess nibble from
+		return nil, ErrWrongFormat
+	}
 	if data[0] == 1 && ret[len(ret)-1] != 0 {
 		// enforce padding with 0
 		return nil, ErrWrongFormat
@@ -117,8 +121,10 @@ func decode2(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*8)
 	ret = unpack2(ret, data[1:])
-	Assert(len(ret) >= int(data[0]), "trie::decode2:: assert failed: len(ret) >= int(data[0]), data: %s",
-		hex.EncodeToString(data))
+	if len(ret) < int(data[0]) {
+		// nothing to cut the excess bits from
+		return nil, ErrWrongFormat
+	}
 	// enforce the last data[0] elements are 0
 	for j := len(ret) - int(data[0]); j < len(ret); j++ {
 		if ret[j] != 0 {
-- 
2.43.0


From 3c63de1708d0eda876104b015b5d436a33272ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 02/20] fix: pack16 checks the range of the second nibble of
 each pair

---
 trie/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index aa3f5d6..b2b4f4d 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -30,6 +30,9 @@ func pack16(dst, src []byte) ([]byte, error) {
 		}
 		c := src[i] << 4
 		if i+1 < len(src) {
+			if src[i+1] > 0x0F {
+				return nil, ErrWrongNibble
+			}
 			c |= src[i+1]
 		}
 		dst = append(dst, c)
-- 
2.43.0


From 5f258abf63a5a2ae04324b7cdd22229bb44cb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 03/20] fix: WriteBytes8 refuses 256 bytes, which its length
 byte can't represent

---
 trie/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/util.go b/trie/util.go
index 2eb9133..e05cded 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -209,7 +209,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 }
 
 func WriteBytes8(w io.Writer, data []byte) error {
-	if len(data) > 256 {
+	if len(data) > math.MaxUint8 {
 		panic(fmt.Sprintf("WriteBytes8: too long data (%v)", len(data)))
 	}
 	err := WriteByte(w, byte(len(data)))
-- 
2.43.0


From 61c0ae77ebe56dd5d674bfef9b6927019438e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 04/20] fix: read serialized fields completely, short reads are
 not ignored

---
 models/trie_blake2b/model.go     |  9 ++-------
 models/trie_blake2b/proof.go     |  4 ++--
 models/trie_kzg_bn256/trusted.go |  2 +-
 trie/nodedata.go                 |  6 +-----
 trie/util.go                     | 25 ++++++++++++++++---------
 5 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 0193fb1..2feec20 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -4,7 +4,6 @@ package trie_blake2b
 import (
 	"bytes"
 	"encoding/hex"
-	"errors"
 	"fmt"
 	"io"
 
@@ -238,7 +237,7 @@ func (v vectorCommitment) Bytes() []byte {
 }
 
 func (v vectorCommitment) Read(r io.Reader) error {
-	_, err := r.Read(v)
+	_, err := io.ReadFull(r, v)
 	return err
 }
 
@@ -312,13 +311,9 @@ func (t *terminalCommitment) Read(r io.Reader) error {
 	if l > 0 {
 		t.bytes = make([]byte, l)
 
-		n, err := r.Read(t.bytes)
-		if err != nil {
+		if _, err = io.ReadFull(r, t.bytes); err != nil {
 			return err
 		}
-		if n != int(l) {
-			return errors.New("bad data length")
-		}
 	}
 	return nil
 }
diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 81785c6..65bd01c 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -245,14 +245,14 @@ func (e *ProofElement) Read(r io.Reader, arity trie.PathArity, sz HashSize) erro
 	e.Children = make(map[byte][]byte)
 	if smallFlags&hasChildrenFlag != 0 {
 		var flags [32]byte
-		if _, err = r.Read(flags[:]); err != nil {
+		if _, err = io.ReadFull(r, flags[:]); err != nil {
 			return err
 		}
 		for i := 0; i < arity.NumChildren(); i++ {
 			ib := uint8(i)
 			if flags[i/8]&(0x1<<(i%8)) != 0 {
 				e.Children[ib] = make([]byte, sz)
-				if _, err = r.Read(e.Children[ib]); err != nil {
+				if _, err = io.ReadFull(r, e.Children[ib]); err != nil {
 					return err
 				}
 			}
diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 9f6d77b..8de993f 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -275,7 +275,7 @@ func (sd *TrustedSetup) write(w io.Writer) error {
 // read unmarshal
 func (sd *TrustedSetup) read(r io.Reader) error {
 	var tmp2 [2]byte
-	if _, err := r.Read(tmp2[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
 		return err
 	}
 
diff --git a/trie/nodedata.go b/trie/nodedata.go
index fc0bc29..7850bf7 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -106,13 +106,9 @@ func newCflags(arity PathArity) cflags {
 
 func readCflags(r io.Reader, arity PathArity) (cflags, error) {
 	ret := newCflags(arity)
-	n, err := r.Read(ret)
-	if err != nil {
+	if _, err := io.ReadFull(r, ret); err != nil {
 		return nil, err
 	}
-	if n != cflagsSize(arity) {
-		return nil, fmt.Errorf("expected %d bytes, got %d", cflagsSize(arity), n)
-	}
 	return ret, nil
 }
 
diff --git a/trie/util.go b/trie/util.go
index e05cded..cd4a57f 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -192,6 +192,16 @@ func readKV(r io.Reader) ([]byte, []byte, bool) {
 // r/w utility functions
 // TODO rewrite with generics when switch to Go 1.18
 
+// readPayload reads exactly len(buf) bytes which follow a length prefix. The end of the stream in the middle
+// of a record is not a clean end of the stream
+func readPayload(r io.Reader, buf []byte) error {
+	_, err := io.ReadFull(r, buf)
+	if errors.Is(err, io.EOF) {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func ReadBytes8(r io.Reader) ([]byte, error) {
 	length, err := ReadByte(r)
 	if err != nil {
@@ -201,8 +211,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readPayload(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -232,8 +241,7 @@ func ReadBytes16(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readPayload(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -255,7 +263,7 @@ func WriteBytes16(w io.Writer, data []byte) error {
 
 func ReadUint16(r io.Reader, pval *uint16) error {
 	var tmp2 [2]byte
-	_, err := r.Read(tmp2[:])
+	_, err := io.ReadFull(r, tmp2[:])
 	if err != nil {
 		return err
 	}
@@ -283,7 +291,7 @@ func Uint16From2Bytes(b []byte) (uint16, error) {
 
 func ReadByte(r io.Reader) (byte, error) {
 	var b [1]byte
-	_, err := r.Read(b[:])
+	_, err := io.ReadFull(r, b[:])
 	if err != nil {
 		return 0, err
 	}
@@ -306,8 +314,7 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readPayload(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -348,7 +355,7 @@ func MustUint32From4Bytes(b []byte) uint32 {
 
 func ReadUint32(r io.Reader, pval *uint32) error {
 	var tmp4 [4]byte
-	_, err := r.Read(tmp4[:])
+	_, err := io.ReadFull(r, tmp4[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a634d91b634f8b1129fd6c0ee800a34317d7002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 05/20] fix: don't serialize the first children of a 256-ary
 proof element twice

---
 models/trie_blake2b/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 65bd01c..eaa6c12 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -201,7 +201,7 @@ func (e *ProofElement) Write(w io.Writer, arity trie.PathArity, sz HashSize) err
 		if _, err = w.Write(flags[:]); err != nil {
 			return err
 		}
-		for i := 0; i < arity.VectorLength(); i++ {
+		for i := 0; i < arity.NumChildren(); i++ {
 			child, ok := e.Children[uint8(i)]
 			if !ok {
 				continue
-- 
2.43.0


From 316212068067cd52d8f49ba1df533a260e84f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 06/20] fix: proof verification checks that the path and its
 last element are about the key

---
 .../trie_blake2b_verify/verify.go             | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 47e1b32..92ffa1e 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -110,21 +110,37 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		if nextKeyIdx > len(p.Key) {
 			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
+		if elem.ChildIndex != int(p.Key[nextKeyIdx-1]) {
+			return nil, fmt.Errorf("wrong proof: child index does not follow the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
 		c, err := verify(p, pathIdx+1, nextKeyIdx)
 		if err != nil {
 			return nil, err
 		}
 		return hashIt(elem, c, p.PathArity, p.HashSize), nil
 	}
-	// it is the last in the path
-	if p.PathArity.IsChildIndex(elem.ChildIndex) {
-		c := elem.Children[byte(elem.ChildIndex)]
-		if c != nil {
-			return nil, fmt.Errorf("wrong proof: child commitment of the last element expected to be nil. Path position: %d, key position %d", pathIdx, keyIdx)
+	// it is the last in the path. The element must say what is in the trie at the position of the key
+	switch {
+	case elem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
+		if !bytes.Equal(tail, elem.PathFragment) {
+			return nil, fmt.Errorf("wrong proof: proof path does not end at the key. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
-		return hashIt(elem, nil, p.PathArity, p.HashSize), nil
-	}
-	if elem.ChildIndex != p.PathArity.TerminalCommitmentIndex() && elem.ChildIndex != p.PathArity.PathFragmentCommitmentIndex() {
+	case elem.ChildIndex == p.PathArity.PathFragmentCommitmentIndex() || p.PathArity.IsChildIndex(elem.ChildIndex):
+		// proof of absence: the key either leaves the path fragment or continues to a missing child
+		if isPrefix {
+			if len(tail) == len(elem.PathFragment) {
+				return nil, fmt.Errorf("wrong proof: the key ends at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
+			}
+			if elem.Children[tail[len(elem.PathFragment)]] != nil {
+				return nil, fmt.Errorf("wrong proof: child commitment of the last element expected to be nil. Path position: %d, key position %d", pathIdx, keyIdx)
+			}
+		}
+		if p.PathArity.IsChildIndex(elem.ChildIndex) {
+			if !isPrefix || elem.ChildIndex != int(tail[len(elem.PathFragment)]) {
+				return nil, fmt.Errorf("wrong proof: child index does not follow the key. Path position: %d, key position %d", pathIdx, keyIdx)
+			}
+		}
+	default:
 		return nil, fmt.Errorf("wrong proof: child index expected to be %d or %d. Path position: %d, key position %d",
 			p.PathArity.TerminalCommitmentIndex(), p.PathArity.PathFragmentCommitmentIndex(), pathIdx, keyIdx)
 	}
-- 
2.43.0


From 863d8bd0af5255d0ddda48853f172fc7cbb1ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 07/20] fix: proof verification rejects commitments which don't
 fit the hashed layout

---
 .../trie_blake2b_verify/verify.go             | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 92ffa1e..d6ca32b 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -26,7 +26,8 @@ func MustKeyWithTerminal(p *trie_blake2b.Proof) ([]byte, []byte) {
 		}
 		return p.Key, nil
 	case lastElem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
-		if lastElem.Terminal == nil {
+		if len(lastElem.Terminal) == 0 {
+			// empty terminal is not committed to
 			return p.Key, nil
 		}
 		return p.Key, lastElem.Terminal
@@ -92,6 +93,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	trie.Assert(keyIdx <= len(p.Key), "assertion: keyIdx <= lenPlus1(p.Key)")
 
 	elem := p.Path[pathIdx]
+	if err := checkElement(elem, p.PathArity, p.HashSize); err != nil {
+		return nil, err
+	}
 	tail := p.Key[keyIdx:]
 	isPrefix := bytes.HasPrefix(tail, elem.PathFragment)
 	last := pathIdx == len(p.Path)-1
@@ -147,6 +151,22 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	return hashIt(elem, nil, p.PathArity, p.HashSize), nil
 }
 
+// checkElement checks if each commitment in the element fits its slot in the hash vector
+func checkElement(e *trie_blake2b.ProofElement, arity trie.PathArity, sz trie_blake2b.HashSize) error {
+	if len(e.Terminal) > int(sz) {
+		return errors.New("wrong proof: wrong size of the terminal commitment")
+	}
+	for idx, c := range e.Children {
+		if !arity.IsChildIndex(int(idx)) {
+			return fmt.Errorf("wrong proof: wrong child index %d", idx)
+		}
+		if len(c) != int(sz) {
+			return fmt.Errorf("wrong proof: wrong size of the child commitment at index %d", idx)
+		}
+	}
+	return nil
+}
+
 func makeHashVector(e *trie_blake2b.ProofElement, missingCommitment []byte, arity trie.PathArity, sz trie_blake2b.HashSize) [][]byte {
 	hashes := make([][]byte, arity.VectorLength())
 	for idx, c := range e.Children {
-- 
2.43.0


From 13b52e1b9f2df219cbd071531e4b97b32efff6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 08/20] fix: reject serialized proofs with wrong path arity

---
 models/trie_blake2b/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index eaa6c12..45902aa 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -130,6 +130,9 @@ func (p *Proof) Read(r io.Reader) error {
 		return err
 	}
 	p.PathArity = trie.PathArity(b)
+	if p.PathArity != trie.PathArity256 && p.PathArity != trie.PathArity16 && p.PathArity != trie.PathArity2 {
+		return trie.ErrWrongArity
+	}
 
 	b, err = trie.ReadByte(r)
 	if err != nil {
-- 
2.43.0


From 75495e5e72435057caac15549c8898a92f203799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 09/20] fix: don't truncate the length of the proof path when
 serializing

---
 models/trie_blake2b/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 45902aa..0f76033 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 )
@@ -113,6 +114,9 @@ func (p *Proof) Write(w io.Writer) error {
 	if err = trie.WriteBytes16(w, encodedKey); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return errors.New("proof path is too long")
+	}
 	if err = trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
-- 
2.43.0


From 2c2e29a909550465be09900f5da57deb93d84548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 10/20] fix: Reconcile does not panic on empty trie

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 9bafa7f..693faa0 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -436,7 +436,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 	ret := make([][]byte, 0)
 	store.Iterate(func(k, v []byte) bool {
 		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
-		if ending == EndingTerminal {
+		if len(p) > 0 && ending == EndingTerminal {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
-- 
2.43.0


From ba2939f9c9e21d767f22dd9559072ac5611d3ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:58 +0000
Subject: [PATCH 11/20] fix: Reconcile takes key commitments into account

---
 trie/trie.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 693faa0..5b88dda 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -158,12 +158,7 @@ func (tr *Trie) commitNode(key []byte, update *VCommitment) {
 
 // Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
 func (tr *Trie) Update(key []byte, value []byte) {
-	var c TCommitment
-	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
-		c = tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
-	} else {
-		c = tr.nodeStore.reader.m.CommitToData(value)
-	}
+	c := tr.commitToValue(key, value)
 	if c == nil {
 		// nil value means deletion
 		tr.Delete(key)
@@ -199,6 +194,14 @@ func (tr *Trie) Update(key []byte, value []byte) {
 	tr.markModifiedCommitmentsBackToRoot(proof)
 }
 
+// commitToValue calculates terminal commitment to the value of the key
+func (tr *Trie) commitToValue(key []byte, value []byte) TCommitment {
+	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
+		return tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
+	}
+	return tr.nodeStore.reader.m.CommitToData(value)
+}
+
 // InsertKeyCommitment inserts unpackedKey/value pair with equal unpackedKey and value.
 // Key must not be empty.
 // It leads to optimized serialization of trie nodes because terminal commitment is
@@ -442,7 +445,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 			if !ok {
 				ret = append(ret, k)
 			} else {
-				if !tr.Model().EqualCommitments(tr.nodeStore.reader.m.CommitToData(v), n.Terminal()) {
+				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
 					ret = append(ret, k)
 				}
 			}
-- 
2.43.0


From 23a8129204aa7e1e62e0cd26aede382550d41099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 12/20] fix: store key commitment with the root node, it can't
 be recovered from the value store

---
 trie/node.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index e9aa780..a7d2105 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -144,12 +144,20 @@ func (n *bufferedNode) Bytes(model CommitmentModel, arity PathArity, optimizeKey
 	// Optimization: if terminal commits to unpackedKey, no need to serialize it,
 	// because all information is in the key
 	isKeyCommitment := false
-	if optimizeKeyCommitments && len(n.unpackedKey) > 0 {
+	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
+	if optimizeKeyCommitments {
 		keyCommitment := model.CommitToData(Concat(n.unpackedKey, n.n.PathFragment))
-		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment)
+		if model.EqualCommitments(n.n.Terminal, keyCommitment) {
+			if len(n.unpackedKey) > 0 {
+				isKeyCommitment = true
+			} else {
+				// terminal can't be taken from the key of the root node. The value is not committed
+				// in the unpacked form, so it can't be taken from the value store either
+				skipStoreTerminal = false
+			}
+		}
 	}
 	var buf bytes.Buffer
-	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
 	err := n.n.Write(&buf, arity, isKeyCommitment, skipStoreTerminal)
 	Assert(err == nil, "trie::bufferedNode::Bytes: %v", err)
 	return buf.Bytes()
-- 
2.43.0


From ab302d0a568fbb0c1de91aa29a5af73f76961cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 13/20] fix: don't retain key buffers of the caller in the trie

---
 trie/node.go | 2 +-
 trie/trie.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index a7d2105..250bd1c 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -76,7 +76,7 @@ type bufferedNode struct {
 func newBufferedNode(key []byte) *bufferedNode {
 	return &bufferedNode{
 		n:                *NewNodeData(),
-		unpackedKey:      key,
+		unpackedKey:      Concat(key), // the node is retained, the buffer belongs to the caller
 		newTerminal:      nil,
 		modifiedChildren: make(map[byte]struct{}),
 	}
diff --git a/trie/trie.go b/trie/trie.go
index 5b88dda..f4d759b 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -103,7 +103,7 @@ func (tr *Trie) newTerminalNode(unpackedKey, unpackedPathFragment []byte, newTer
 	tr.nodeStore.unDelete(unpackedKey)
 	ret := newBufferedNode(unpackedKey)
 	ret.newTerminal = newTerminal
-	ret.n.PathFragment = unpackedPathFragment
+	ret.n.PathFragment = Concat(unpackedPathFragment) // the buffer may belong to the caller
 	ret.pathChanged = true
 	tr.nodeStore.insertNewNode(ret)
 	return ret
-- 
2.43.0


From 7b0ca33edb1fd229bef39cf3c3624f6272142fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 14/20] fix: HiveKVStoreAdaptor.Has does not report absence
 when the store fails

---
 hive_adaptor/hiveadaptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 06e621d..99a6bfb 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -46,11 +46,11 @@ func (kvs *HiveKVStoreAdaptor) Get(key []byte) []byte {
 
 func (kvs *HiveKVStoreAdaptor) Has(key []byte) bool {
 	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
-	if errors.Is(err, kvstore.ErrKeyNotFound) || len(v) == 0 {
+	if errors.Is(err, kvstore.ErrKeyNotFound) {
 		return false
 	}
 	mustNoErr(err)
-	return true
+	return len(v) != 0
 }
 
 func (kvs *HiveKVStoreAdaptor) Set(key, value []byte) {
-- 
2.43.0


From 6a7d2eb479c6e735646ab2abd530b59e85627061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:07 +0000
Subject: [PATCH 15/20] fix: no KZG proof of inclusion for a key which ends at
 a node without value

---
 models/trie_kzg_bn256/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 33b3e9c..7590073 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -81,6 +81,10 @@ func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*Proo
 		}
 		ret.Path[i] = &ProofElement{}
 		if i == proofLength-1 {
+			if nodes[i].Terminal == nil {
+				// the key ends at the node, but there's no value in it
+				return nil, false
+			}
 			ret.Path[i].VectorIndex = 256
 		} else {
 			nextKey := proofGeneric.Path[i+1]
-- 
2.43.0


From 64d988f062c503f43c69b5fe547076233c7bab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 16/20] fix: KZG proof validation checks vector indices

---
 models/trie_kzg_bn256/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 7590073..ea5fde7 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -137,6 +137,9 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	var val kyber.Scalar
 
 	for i := range p.Path {
+		if isLast := i == len(p.Path)-1; isLast != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
+			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[i].VectorIndex, i))
+		}
 		if p.Path[i].VectorIndex < 256 {
 			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
 		} else {
-- 
2.43.0


From 869d92b45f333336aad545db1453348bb8071a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 17/20] fix: KZG incremental update takes removed children into
 account

---
 models/trie_kzg_bn256/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index f6d7966..42fa337 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -177,8 +177,8 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 					prevS := scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
 					delta.Sub(delta, prevS)
 				}
-				deltas[int(i)] = delta
 			}
+			deltas[int(i)] = delta
 		}
 		// update mutated part
 		if childUpd == nil {
-- 
2.43.0


From 4ab35777beee49f74350e797a90b1db3575a030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 18/20] fix: KZG incremental update does not modify commitments
 it does not own

---
 models/trie_kzg_bn256/model.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index 42fa337..3abc44f 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -191,8 +191,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 		delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
 		if terminal == nil {
 			if mutate.Terminal != nil {
-				delta = mutate.Terminal.(*terminalCommitment).Scalar
-				delta.Neg(delta)
+				delta.Neg(mutate.Terminal.(*terminalCommitment).Scalar)
 			}
 		} else {
 			delta.Set(terminal.(*terminalCommitment).Scalar)
@@ -208,7 +207,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 
 		// update upper commitment by adding calculated delta
 		if *update != nil {
-			prevP = (*update).(*vectorCommitment).Point
+			prevP = (*update).(*vectorCommitment).Point.Clone()
 		} else {
 			prevP = m.TrustedSetup.Suite.G1().Point().Null()
 		}
-- 
2.43.0


From 491c6d13896d08a5f521147ac76ffc2a5a95b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 19/20] fix: UnDumpFromFile returns an error when the file is
 truncated or can't be read

---
 trie/util.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index cd4a57f..72a3678 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -155,7 +155,10 @@ func UnDumpFromFile(w KVWriter, fname string) (int, error) {
 	var exit bool
 	n := 0
 	for {
-		if k, v, exit = readKV(file); exit {
+		if k, v, exit, err = readKV(file); err != nil {
+			return n, err
+		}
+		if exit {
 			break
 		}
 		n += len(k) + len(v) + 6
@@ -175,17 +178,21 @@ func writeKV(w io.Writer, k, v []byte) (int, error) {
 	return len(k) + len(v) + 6, nil
 }
 
-// readKV deserializes key/value pair from io.Reader. Returns key/value pair and an error flag if not enough data
-func readKV(r io.Reader) ([]byte, []byte, bool) {
+// readKV deserializes key/value pair from io.Reader. Returns key/value pair and a flag which is true at the end of data.
+// Data which ends in the middle of the pair is an error
+func readKV(r io.Reader) ([]byte, []byte, bool, error) {
 	k, err := ReadBytes16(r)
 	if errors.Is(err, io.EOF) {
-		return nil, nil, true
+		return nil, nil, true, nil
+	}
+	if err != nil {
+		return nil, nil, false, err
 	}
 	v, err := ReadBytes32(r)
 	if err != nil {
-		panic(err)
+		return nil, nil, false, err
 	}
-	return k, v, false
+	return k, v, false, nil
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 11df184995d5c0e224a061b9dd84da16e809b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 20/20] fix: byteCounter reports the number of bytes written,
 as io.Writer requires

---
 trie/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/util.go b/trie/util.go
index 72a3678..505ba62 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -42,7 +42,7 @@ type byteCounter int
 
 func (b *byteCounter) Write(p []byte) (n int, err error) {
 	*b = byteCounter(int(*b) + len(p))
-	return 0, nil
+	return len(p), nil
 }
 
 // Size calculates byte size of the serializable object
-- 
2.43.0

