package verifharness

import (
	"bytes"
	"testing"

	"github.com/iotaledger/trie.go/trie"
)

const histRule = "seeded random histories of updates, deletes, commits, persists, cache clears and reopenings over short related keys for random arity, hash size, threshold and key option; non-trivial: distinct histories"

func TestC01(t *testing.T) {
	Run(t, "C01", histRule+"; the root is compared with an independent computation", 0, func(c *C) {
		s := newSys(c, randParams(c))
		for i, n := 0, 3+c.Intn(25); i < n; i++ {
			s.randomOp()
			if !s.dirty {
				s.checkRoot(s.tr, "after commit")
			}
		}
		s.commit()
		s.checkRoot(s.tr, "at the end")
		if c.Intn(3) == 0 {
			for _, k := range s.sortedKeys() {
				s.del([]byte(k))
			}
			s.commit()
			s.checkRoot(s.tr, "after deleting everything")
			s.persist()
			s.open()
			s.checkRoot(s.tr, "reopened after deleting everything")
		}
	})
}

func TestC02(t *testing.T) {
	Run(t, "C02", histRule+"; lookups are compared with a map", 0, func(c *C) {
		s := newSys(c, randParams(c))
		for i, n := 0, 3+c.Intn(25); i < n; i++ {
			s.randomOp()
			s.checkMap(s.tr, "trie")
			if !s.unsaved {
				s.checkMap(trie.NewTrieReader(s.m, s.ts, s.vs), "reader")
			}
		}
	})
}

func TestC03(t *testing.T) {
	Run(t, "C03", histRule+"; nodes and store entries are compared with the minimal radix tree", 0, func(c *C) {
		s := newSys(c, randParams(c))
		for i, n := 0, 3+c.Intn(25); i < n; i++ {
			s.randomOp()
			s.checkNodes(s.tr, !s.dirty, "trie")
			if !s.unsaved {
				s.checkStore("after persist")
			}
		}
		s.persist()
		s.checkStore("at the end")
	})
}

func TestC04(t *testing.T) {
	Run(t, "C04", histRule+"; reloaded tries are compared with the reference", 0, func(c *C) {
		s := newSys(c, randParams(c))
		for i, n := 0, 1+c.Intn(8); i < n; i++ {
			for j, m := 0, 1+c.Intn(6); j < m; j++ {
				s.randomOp()
			}
			s.persist()
			s.checkNodes(trie.NewTrieReader(s.m, s.ts, s.vs), true, "reader")
			s.checkRoot(trie.NewTrieReader(s.m, s.ts, s.vs), "reader")
			s.checkNodes(s.tr, true, "same trie")
			switch c.Intn(3) {
			case 0:
				c.Logf("clearCache")
				s.tr.ClearCache()
			case 1:
				c.Logf("reopen")
				s.open()
			}
			if c.Intn(2) == 0 {
				s.checkNodes(s.tr, true, "reloaded trie")
				s.checkRoot(s.tr, "reloaded trie")
			}
		}
	})
}

func TestC12(t *testing.T) {
	Run(t, "C12", histRule+"; a clone and its original evolve separately and are compared with separate references", 0, func(c *C) {
		p := randParams(c)
		s := newSys(c, p)
		for i, n := 0, c.Intn(12); i < n; i++ {
			s.randomOp()
		}
		c.Logf("clone")
		cp := *s
		cp.tr = s.tr.Clone()
		cp.kv, cp.pend, cp.used = map[string][]byte{}, map[string][]byte{}, map[string]bool{}
		for k, v := range s.kv {
			cp.kv[k] = v
		}
		for k, v := range s.pend {
			cp.pend[k] = v
		}
		for k := range s.used {
			cp.used[k] = true
		}
		// separate stores, so that only the tries can influence each other
		cp.ts, cp.vs = trie.NewInMemoryKVStore(), trie.NewInMemoryKVStore()
		two := []*sys{s, &cp}
		cleared := false
		for i, n := 0, 1+c.Intn(14); i < n; i++ {
			x := two[c.Intn(2)]
			if x == s {
				c.Logf("-- original:")
			} else {
				c.Logf("-- clone:")
			}
			switch c.Intn(10) {
			case 0, 1, 2, 3:
				k := x.someKey()
				x.update(k, x.value(k))
			case 4, 5, 6:
				x.del(x.someKey())
			case 7, 8:
				x.commit()
			case 9:
				if !cleared && !s.unsaved && x == s {
					c.Logf("clearCache")
					x.tr.ClearCache()
				}
			}
			for j, y := range two {
				what := []string{"original", "clone"}[j]
				y.checkNodes(y.tr, !y.dirty, what)
				y.checkMap(y.tr, what)
			}
		}
		for j, y := range two {
			y.commit()
			y.checkRoot(y.tr, []string{"original", "clone"}[j])
		}
	})
}

func TestC13(t *testing.T) {
	Run(t, "C13", histRule+"; Reconcile is compared with a direct comparison of two maps", 0, func(c *C) {
		s := newSys(c, randParams(c))
		if c.Intn(3) == 0 {
			store := trie.NewInMemoryKVStore()
			for i, n := 0, c.Intn(10); i < n; i++ {
				k := c.key(s.p.arity)
				v := s.value(k)
				c.Logf("store %x=%x", k, v)
				store.Set(k, v)
			}
			c.Logf("UpdateAll, Reconcile")
			s.tr.UpdateAll(store)
			c.Check(len(s.tr.Reconcile(store)) == 0, "trie built from the store does not reconcile with it")
			store.Iterate(func(k, v []byte) bool { s.set(k, v); return true })
			s.commit()
			c.Check(len(s.tr.Reconcile(store)) == 0, "committed trie built from the store does not reconcile with it")
		}
		for i, n := 0, c.Intn(12); i < n; i++ {
			s.randomOp()
		}
		store := trie.NewInMemoryKVStore()
		want := map[string]bool{}
		put := func(k, v []byte) {
			store.Set(k, v)
			c.Logf("store %x=%x", k, v)
		}
		for _, k := range s.sortedKeys() {
			if c.Intn(4) != 0 {
				put([]byte(k), s.kv[k])
			}
		}
		for i, n := 0, c.Intn(4); i < n; i++ {
			k := s.someKey()
			put(k, s.value(k))
		}
		store.Iterate(func(k, v []byte) bool {
			if !bytes.Equal(refRaw(s.rm.commitTo(k, v), s.p.hs), s.wantTerm(k)) {
				want[string(k)] = true
			}
			return true
		})
		got := s.tr.Reconcile(store)
		gm := map[string]bool{}
		for _, k := range got {
			c.Check(!gm[string(k)], "Reconcile reports %x twice", k)
			gm[string(k)] = true
			c.Check(want[string(k)], "Reconcile reports %x, which the trie confirms", k)
		}
		for k := range want {
			c.Check(gm[k], "Reconcile does not report %x", k)
		}
	})
}

func TestC20(t *testing.T) {
	Run(t, "C20", histRule+"; every buffer passed in is overwritten after the call", 0, func(c *C) {
		s := newSys(c, randParams(c))
		s.scrib = true
		for i, n := 0, 3+c.Intn(20); i < n; i++ {
			s.randomOp()
			if c.Intn(3) == 0 {
				k := s.someKey()
				kb := s.buf(refUnpack(k, s.p.arity))
				c.Logf("node and proof of %x", k)
				s.tr.GetNode(kb)
				trie.GetProofGeneric(s.tr, kb)
				s.scribble(kb)
				kb = s.buf(k)
				s.m.Proof(kb, s.tr)
				s.scribble(kb)
			}
			s.checkNodes(s.tr, !s.dirty, "trie")
		}
		s.persist()
		s.checkRoot(s.tr, "at the end")
		s.checkStore("at the end")
		s.open()
		s.checkNodes(s.tr, true, "reopened")
	})
}

func TestC21(t *testing.T) {
	Run(t, "C21", histRule+"; two thresholds side by side", 0, func(c *C) {
		p := randParams(c)
		p2 := p
		p2.thr = []int{0, 1, 2, 3, 19, 20, 21, 32, 33, 64, 10000}[c.Intn(11)]
		a := newSys(c, p)
		b := newSys(c, p2)
		for i, n := 0, 3+c.Intn(15); i < n; i++ {
			k := a.someKey()
			switch c.Intn(8) {
			case 0, 1, 2, 3:
				v := a.value(k)
				a.update(k, v)
				b.update(k, v)
			case 4, 5:
				a.del(k)
				b.del(k)
			case 6:
				a.commit()
				b.commit()
				c.Check(bytes.Equal(a.root(a.tr), b.root(b.tr)), "roots differ")
			case 7:
				for _, x := range []*sys{a, b} {
					x.persist()
					c.Logf("reopen")
					x.open()
				}
				c.Check(bytes.Equal(a.root(a.tr), b.root(b.tr)), "roots differ after reopening")
				for k := range a.used {
					kb := []byte(k)
					c.Check(bytes.Equal(a.lookup(a.tr, kb), b.lookup(b.tr, kb)), "lookups of %x differ", k)
					c.Check(bytes.Equal(a.m.Proof(kb, a.tr).Bytes(), b.m.Proof(kb, b.tr).Bytes()), "proofs of %x differ", k)
				}
			}
		}
		a.persist()
		b.persist()
		c.Check(bytes.Equal(a.root(a.tr), b.root(b.tr)), "roots differ at the end")
		b.checkRoot(b.tr, "at the end")
		v := a.value([]byte("k"))
		c.Check(b.m.ForceStoreTerminalWithNode(b.m.CommitToData(v)) == (len(v) > p2.thr), "terminal of a value of %d bytes with threshold %d", len(v), p2.thr)
	})
}
