package verifharness

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

var errFault = errors.New("store failure")

// fakeKVS is a kvstore.KVStore that records the keys it is asked for and can fail
type fakeKVS struct {
	kvstore.KVStore
	m           map[string][]byte
	touched     []string
	fail        int // operation number at which an error is returned, counting down; < 0 never
	commitFails int
	flushFails  int
	log         []string
}

func newFake() *fakeKVS { return &fakeKVS{m: map[string][]byte{}, fail: -1} }

func (f *fakeKVS) bad() bool {
	if f.fail < 0 {
		return false
	}
	f.fail--
	return f.fail < 0
}

func (f *fakeKVS) Get(k kvstore.Key) (kvstore.Value, error) {
	f.touched = append(f.touched, string(k))
	if f.bad() {
		return nil, errFault
	}
	v, ok := f.m[string(k)]
	if !ok {
		return nil, fmt.Errorf("wrapped: %w", kvstore.ErrKeyNotFound)
	}
	return append([]byte{}, v...), nil
}

func (f *fakeKVS) Has(k kvstore.Key) (bool, error) {
	f.touched = append(f.touched, string(k))
	if f.bad() {
		return false, errFault
	}
	_, ok := f.m[string(k)]
	return ok, nil
}

func (f *fakeKVS) Set(k kvstore.Key, v kvstore.Value) error {
	f.touched = append(f.touched, string(k))
	if f.bad() {
		return errFault
	}
	f.m[string(k)] = append([]byte{}, v...)
	return nil
}

func (f *fakeKVS) Delete(k kvstore.Key) error {
	f.touched = append(f.touched, string(k))
	if f.bad() {
		return errFault
	}
	delete(f.m, string(k))
	return nil
}

func (f *fakeKVS) Iterate(prefix kvstore.KeyPrefix, fun kvstore.IteratorKeyValueConsumerFunc, _ ...kvstore.IterDirection) error {
	f.touched = append(f.touched, string(prefix))
	ks := []string{}
	for k := range f.m {
		if strings.HasPrefix(k, string(prefix)) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if f.bad() {
			return errFault
		}
		if !fun([]byte(k), append([]byte{}, f.m[k]...)) {
			return nil
		}
	}
	if f.bad() {
		return errFault
	}
	return nil
}

func (f *fakeKVS) Flush() error {
	if f.flushFails > 0 {
		f.flushFails--
		return errFault
	}
	return nil
}

type fakeBatch struct {
	f   *fakeKVS
	ops map[string][]byte
}

func (f *fakeKVS) Batched() (kvstore.BatchedMutations, error) {
	return &fakeBatch{f, map[string][]byte{}}, nil
}
func (b *fakeBatch) Set(k kvstore.Key, v kvstore.Value) error {
	b.ops[string(k)] = append([]byte{}, v...)
	return nil
}
func (b *fakeBatch) Delete(k kvstore.Key) error { b.ops[string(k)] = nil; return nil }
func (b *fakeBatch) Cancel()                    { b.ops = map[string][]byte{} }
func (b *fakeBatch) Commit() error {
	if b.f.commitFails > 0 {
		b.f.commitFails--
		return errFault
	}
	for k, v := range b.ops {
		if v == nil {
			delete(b.f.m, k)
		} else {
			b.f.m[k] = v
		}
	}
	return nil
}

func panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func TestC15(t *testing.T) {
	Run(t, "C15", "random operations through partitions of a fake store with failures are compared with maps", 0, func(c *C) {
		f := newFake()
		prefixes := [][]byte{{}, {'a'}, {'a', 'b'}, {0}, {255}}
		pre := prefixes[c.Intn(len(prefixes))]
		other := prefixes[1+c.Intn(4)]
		pbuf := append([]byte{}, pre...)
		a := hive_adaptor.NewHiveKVStoreAdaptor(f, pbuf)
		o := hive_adaptor.NewHiveKVStoreAdaptor(f, other)
		_ = o
		ref := map[string]string{}
		c.Logf("prefix %x", pre)
		full := map[string]string{}
		for i, n := 0, 1+c.Intn(15); i < n; i++ {
			k := c.key(256)
			v := make([]byte, c.Intn(3))
			c.Read(v)
			f.touched = nil
			if c.Intn(4) == 0 && !bytes.HasPrefix(other, pre) && !bytes.HasPrefix(pre, other) {
				c.Logf("other partition %x: set %x %x", other, k, v)
				o.Set(k, v)
				full[string(other)+string(k)] = string(v)
				f.touched = nil
			} else {
				c.Logf("set %x %x", k, v)
				if c.Intn(8) == 0 {
					f.fail = 0
					c.Check(panics(func() { a.Set(k, v) }) != nil, "failure of Set is ignored")
					f.fail = -1
				} else {
					a.Set(k, v)
					if len(v) > 0 {
						ref[string(k)] = string(v)
					} else {
						delete(ref, string(k))
					}
				}
			}
			q := c.key(256)
			if c.Intn(2) == 0 {
				q = k
			}
			w, ok := ref[string(q)]
			if c.Intn(6) == 0 {
				f.fail = 0
				c.Check(panics(func() { a.Get(q) }) != nil, "failure of Get is ignored")
				f.fail = 0
				c.Check(panics(func() { a.Has(q) }) != nil, "failure of Has is ignored")
				f.fail = c.Intn(len(ref) + 1)
				c.Check(panics(func() { a.Iterate(func(k, v []byte) bool { return true }) }) != nil, "failure of Iterate is ignored")
				f.fail = -1
			}
			g := a.Get(q)
			c.Check(string(g) == w && (g == nil) == !ok, "Get %x gives %x, want %x", q, g, w)
			c.Check(a.Has(q) == ok, "Has %x gives %v", q, !ok)
			seen := map[string]bool{}
			max := -1
			if c.Intn(2) == 0 {
				max = 1 + c.Intn(3)
			}
			a.Iterate(func(k, v []byte) bool {
				w, ok := ref[string(k)]
				c.Check(ok && w == string(v) && !seen[string(k)], "Iterate gives %x=%x", k, v)
				seen[string(k)] = true
				return len(seen) != max
			})
			want := len(ref)
			if max > 0 && max < want {
				want = max
			}
			c.Check(len(seen) == want, "Iterate gives %d pairs, want %d", len(seen), want)
			for _, x := range f.touched {
				c.Check(strings.HasPrefix(x, string(pre)), "key %x outside of the prefix is touched", x)
			}
			for k, v := range full {
				c.Check(string(f.m[k]) == v, "other partition is changed at %x", k)
			}
		}
		// an empty value stored by somebody else is absence
		f.m[string(pre)+"empty"] = []byte{}
		c.Check(a.Get([]byte("empty")) == nil && !a.Has([]byte("empty")), "an empty value is presented as a value")
	})
}

func snap(m map[string][]byte) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%x=%x ", k, m[k])
	}
	return s
}

func TestC16(t *testing.T) {
	Run(t, "C16", "random batched updates with failing commits; the store is compared with the value map and its trie", 0, func(c *C) {
		f := newFake()
		p := randParams(c)
		tp, vp := []byte{1}, []byte{2}
		if c.Intn(3) == 0 {
			tp, vp = []byte("tt"), []byte("v")
		}
		f.m["zzz"] = []byte("unrelated")
		u, err := hive_adaptor.NewHiveBatchedUpdater(f, p.model(), tp, vp, p.opt)
		c.Check(err == nil, "%v", err)
		c.Logf("arity=%d hash=%d threshold=%d keyopt=%v", p.arity, p.hs, p.thr, p.opt)
		s := newSys(c, p) // reference content
		for r, n := 0, 1+c.Intn(4); r < n; r++ {
			before := snap(f.m)
			nu := c.Intn(8)
			for i := 0; i < nu; i++ {
				k := s.someKey()
				v := s.value(k)
				if c.Intn(4) == 0 {
					v = nil
				}
				c.Logf("update %x %x", k, v)
				u.Update(k, v)
				s.set(k, v)
				c.Check(snap(f.m) == before, "the store is changed before the commit")
			}
			for c.Intn(4) == 0 && nu > 0 {
				f.commitFails = 1
				c.Logf("failing commit")
				c.Check(u.Commit() != nil, "failure of the batch is ignored")
				f.commitFails = 0
				c.Check(snap(f.m) == before, "the store is changed by a failed commit")
			}
			c.Logf("commit")
			c.Check(u.Commit() == nil, "commit fails")
			// values
			want := map[string][]byte{"zzz": []byte("unrelated")}
			for k, v := range s.kv {
				want[string(vp)+k] = v
			}
			ts, vs := hive_adaptor.NewHiveKVStoreAdaptor(f, tp), hive_adaptor.NewHiveKVStoreAdaptor(f, vp)
			nodes := map[string]bool{}
			s.ref().walk(func(n *refNode) { nodes[string(refEncode(n.key, p.arity))] = true })
			for k, v := range f.m {
				if strings.HasPrefix(k, string(tp)) {
					c.Check(nodes[k[len(tp):]], "orphaned node entry %x", k)
					delete(nodes, k[len(tp):])
					continue
				}
				c.Check(bytes.Equal(want[k], v), "store has %x=%x, want %x", k, v, want[k])
				delete(want, k)
			}
			c.Check(len(want) == 0 && len(nodes) == 0, "missing entries: %d values, %d nodes", len(want), len(nodes))
			rd := trie.NewTrieReader(p.model(), ts, vs)
			s.checkNodes(rd, true, "stored trie")
			s.checkRoot(rd, "stored trie")
		}
	})
}
