package verifharness

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
)

type params struct {
	arity, hs, thr int
	opt            bool
}

func (p params) pa() trie.PathArity { return trie.PathArity(p.arity - 1) }

func (p params) model() *trie_blake2b.CommitmentModel {
	return trie_blake2b.New(p.pa(), trie_blake2b.HashSize(p.hs), p.thr)
}

func randParams(c *C) params {
	p := params{arity: []int{2, 16, 256}[c.Intn(3)], hs: []int{20, 32}[c.Intn(2)], opt: c.Intn(2) == 0}
	p.thr = []int{0, 0, 1, 3, 10000}[c.Intn(5)]
	return p
}

type sys struct {
	c       *C
	p       params
	rm      refModel
	m       *trie_blake2b.CommitmentModel
	ts, vs  trie.KVStore
	tr      *trie.Trie
	kv      map[string][]byte // current logical content
	pend    map[string][]byte // value changes since the last persist
	dirty   bool              // mutations since the last commit
	unsaved bool              // mutations since the last persist
	scrib   bool              // scribble over the buffers passed in
	used    map[string]bool   // all keys ever used
}

func newSys(c *C, p params) *sys {
	s := &sys{c: c, p: p, rm: refModel{p.arity, p.hs, p.opt}, m: p.model(),
		ts: trie.NewInMemoryKVStore(), vs: trie.NewInMemoryKVStore(),
		kv: map[string][]byte{}, pend: map[string][]byte{}, used: map[string]bool{}}
	s.open()
	c.Logf("new arity=%d hash=%d threshold=%d keyopt=%v", p.arity, p.hs, p.thr, p.opt)
	return s
}

func (s *sys) open() { s.tr = trie.New(s.m, s.ts, s.vs, s.p.opt) }

func (c *C) pick(m map[string][]byte) (string, bool) {
	if len(m) == 0 {
		return "", false
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks[c.Intn(len(ks))], true
}

var alphabets = map[int][]byte{
	256: {0, 1, 'a', 'b', 255},
	16:  {0x00, 0x01, 0x10, 0x11, 0x1f, 0xf1},
	2:   {0x00, 0x01, 0x80, 0xff, 0x7f},
}

func (c *C) key(arity int) []byte {
	al := alphabets[arity]
	max := 5
	if arity == 2 {
		max = 3
	}
	n := c.Intn(max)
	if c.Intn(25) == 0 {
		n = 20 + c.Intn(30)
	}
	k := make([]byte, n)
	for i := range k {
		k[i] = al[c.Intn(len(al))]
	}
	return k
}

// someKey returns a key related to what is there
func (s *sys) someKey() []byte {
	c := s.c
	if k, ok := c.pick(s.kv); ok && c.Intn(100) < 70 {
		kb := []byte(k)
		switch c.Intn(5) {
		case 0:
			if len(kb) > 0 {
				return append([]byte{}, kb[:c.Intn(len(kb)+1)]...)
			}
		case 1:
			return append(append([]byte{}, kb...), c.key(s.p.arity)...)
		case 2:
			if len(kb) > 0 {
				r := append([]byte{}, kb...)
				r[c.Intn(len(r))] = alphabets[s.p.arity][c.Intn(len(alphabets[s.p.arity]))]
				return r
			}
		}
		return append([]byte{}, kb...)
	}
	return c.key(s.p.arity)
}

func (s *sys) value(k []byte) []byte {
	c := s.c
	if len(k) > 0 && c.Intn(5) == 0 {
		return append([]byte{}, k...)
	}
	if c.Intn(12) == 0 {
		u := refUnpack(k, s.p.arity)
		if len(u) > 0 {
			return u // the unpacked key as a value, to be told from the key itself
		}
	}
	n := []int{1, 1, 2, 3, 4, s.p.hs - 1, s.p.hs, s.p.hs + 1, 33, 64}[c.Intn(10)]
	v := make([]byte, n)
	if c.Intn(2) == 0 {
		for i := range v {
			v[i] = byte(c.Intn(3) + 1)
		}
	} else {
		c.Read(v)
	}
	if v[n-1] == 0 {
		v[n-1] = 1
	}
	return v
}

// buf returns a copy with spare capacity, as a caller may well pass
func (s *sys) buf(b []byte) []byte {
	r := make([]byte, len(b), len(b)+s.c.Intn(8))
	copy(r, b)
	return r
}

func (s *sys) scribble(bs ...[]byte) {
	if !s.scrib {
		return
	}
	for _, b := range bs {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
	}
}

func (s *sys) update(k, v []byte) {
	s.c.Logf("update %x %x", k, v)
	kb, vb := s.buf(k), s.buf(v)
	s.tr.Update(kb, vb)
	if !s.scrib {
		s.c.Check(bytes.Equal(kb, k) && bytes.Equal(vb, v), "Update modified its arguments")
	}
	s.scribble(kb, vb)
	s.set(k, v)
}

func (s *sys) set(k, v []byte) {
	s.used[string(k)] = true
	if len(v) == 0 {
		delete(s.kv, string(k))
	} else {
		s.kv[string(k)] = append([]byte{}, v...)
	}
	s.pend[string(k)] = append([]byte{}, v...)
	s.dirty, s.unsaved = true, true
}

func (s *sys) del(k []byte) {
	s.c.Logf("delete %x", k)
	kb := s.buf(k)
	s.tr.Delete(kb)
	s.scribble(kb)
	s.set(k, nil)
}

func (s *sys) commit() {
	s.c.Logf("commit")
	s.tr.Commit()
	s.dirty = false
}

func (s *sys) persist() {
	s.commit()
	s.c.Logf("persist")
	s.tr.PersistMutations(s.ts)
	for k, v := range s.pend {
		s.vs.Set([]byte(k), v)
	}
	s.pend = map[string][]byte{}
	s.unsaved = false
}

func (s *sys) randomOp() {
	c := s.c
	switch n := c.Intn(100); {
	case n < 50:
		k := s.someKey()
		if c.Intn(10) == 0 {
			s.update(k, nil)
		} else {
			s.update(k, s.value(k))
		}
	case n < 75:
		s.del(s.someKey())
	case n < 84:
		s.commit()
	case n < 88:
		s.persist()
	case n < 92:
		s.persist()
		c.Logf("clearCache")
		s.tr.ClearCache()
	case n < 95:
		s.persist()
		c.Logf("reopen")
		s.open()
	case n < 97:
		c.Logf("lookups")
		for i := 0; i < 3; i++ {
			s.lookup(s.tr, s.someKey())
		}
	default:
		// delete most of what is there
		for _, k := range s.sortedKeys() {
			if c.Intn(4) != 0 {
				s.del([]byte(k))
			}
		}
	}
}

func (s *sys) sortedKeys() []string {
	r := []string{}
	for k := range s.kv {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// lookup returns the terminal commitment (raw) of the key, nil if absent
func (s *sys) lookup(ns trie.NodeStore, k []byte) []byte {
	kb := refUnpack(k, s.p.arity)
	p := trie.GetProofGeneric(ns, kb)
	if len(p.Path) == 0 || p.Ending != trie.EndingTerminal {
		return nil
	}
	n, ok := ns.GetNode(p.Path[len(p.Path)-1])
	if !ok {
		s.c.Failf("last node of the path of %x does not exist", k)
	}
	if isNil(n.Terminal()) {
		return nil
	}
	return n.Terminal().Bytes()[1:]
}

func isNil(c interface{}) bool { b, _ := trie.CheckNils(c, nil); return b }

func (s *sys) wantTerm(k []byte) []byte {
	v, ok := s.kv[string(k)]
	if !ok {
		return nil
	}
	return refRaw(s.rm.commitTo(k, v), s.p.hs)
}

func (s *sys) checkLookup(ns trie.NodeStore, k []byte, what string) {
	got, want := s.lookup(ns, k), s.wantTerm(k)
	s.c.Check(bytes.Equal(got, want) && (got == nil) == (want == nil), "%s: lookup of %x gives %x, want %x", what, k, got, want)
}

func (s *sys) checkMap(ns trie.NodeStore, what string) {
	for k := range s.used {
		s.checkLookup(ns, []byte(k), what)
	}
	for i := 0; i < 4; i++ {
		s.checkLookup(ns, s.someKey(), what)
	}
}

func (s *sys) root(ns trie.NodeStore) []byte {
	r := trie.RootCommitment(ns)
	if isNil(r) {
		return nil
	}
	return r.Bytes()
}

func (s *sys) ref() *refNode { return s.rm.content(s.kv) }

func (s *sys) checkRoot(ns trie.NodeStore, what string) {
	got, want := s.root(ns), s.rm.commit(s.ref())
	s.c.Check(bytes.Equal(got, want), "%s: root is %x, want %x", what, got, want)
}

// checkNodes compares all nodes with the minimal radix tree. If committed, also the commitments
func (s *sys) checkNodes(ns trie.NodeStore, committed bool, what string) {
	ref := s.ref()
	want := map[string]*refNode{}
	ref.walk(func(n *refNode) { want[string(n.key)] = n })
	// candidates: every prefix of every key ever used
	cand := map[string]bool{"": true}
	for k := range s.used {
		u := refUnpack([]byte(k), s.p.arity)
		for i := 0; i <= len(u); i++ {
			cand[string(u[:i])] = true
		}
	}
	for p := range cand {
		n, ok := ns.GetNode([]byte(p))
		w := want[p]
		if ok != (w != nil) {
			s.c.Failf("%s: node at %x exists: %v, in the minimal tree: %v", what, p, ok, w != nil)
		}
		if !ok {
			continue
		}
		s.c.Check(bytes.Equal(n.Key(), w.key), "%s: node at %x has key %x", what, p, n.Key())
		s.c.Check(bytes.Equal(n.PathFragment(), w.pf), "%s: node at %x has path fragment %x, want %x", what, p, n.PathFragment(), w.pf)
		if isNil(n.Terminal()) {
			s.c.Check(w.value == nil, "%s: node at %x has no terminal", what, p)
		} else {
			s.c.Check(w.value != nil, "%s: node at %x has a terminal", what, p)
			s.c.Check(bytes.Equal(n.Terminal().Bytes()[1:], refRaw(w.value, s.p.hs)), "%s: node at %x has wrong terminal", what, p)
		}
		if !committed {
			continue
		}
		cc := n.ChildCommitments()
		s.c.Check(len(cc) == len(w.children), "%s: node at %x has %d child commitments, want %d", what, p, len(cc), len(w.children))
		for i, ch := range w.children {
			v, ok := cc[i]
			s.c.Check(ok && !isNil(v), "%s: node at %x has no commitment of child %d", what, p, i)
			s.c.Check(bytes.Equal(v.Bytes(), s.rm.commit(ch)), "%s: node at %x has wrong commitment of child %d", what, p, i)
		}
	}
}

// checkStore checks that the trie store has exactly one entry per node
func (s *sys) checkStore(what string) {
	want := map[string]*refNode{}
	s.ref().walk(func(n *refNode) { want[string(refEncode(n.key, s.p.arity))] = n })
	seen := map[string]bool{}
	s.ts.Iterate(func(k, v []byte) bool {
		if want[string(k)] == nil {
			s.c.Failf("%s: orphaned store entry %x", what, k)
		}
		seen[string(k)] = true
		return true
	})
	for k := range want {
		s.c.Check(seen[k], "%s: missing store entry %x", what, k)
	}
}

func describe(kv map[string][]byte) string {
	ks := []string{}
	for k := range kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%x=%x ", k, kv[k])
	}
	return s
}
