package trie_kzg_bn256

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

// bounded stand-ins and search for failing inputs for the KZG model; laid over the package with "go test -overlay"

type vfC struct {
	*rand.Rand
	log []string
}

type vfFailed struct{ what string }

func (c *vfC) Logf(f string, a ...interface{}) { c.log = append(c.log, fmt.Sprintf(f, a...)) }
func (c *vfC) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		panic(vfFailed{fmt.Sprintf(f, a...)})
	}
}

func vfEnv(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func vfRun(t *testing.T, prop, rule string, f func(c *vfC)) {
	seed := vfEnv("VERIF_SEED", 1)
	deadline := time.Now().Add(time.Duration(vfEnv("VERIF_BUDGET_MS", 3000)) * time.Millisecond)
	evals, distinct, samples, seen := 0, 0, []string{}, map[string]bool{}
	var fl map[string]interface{}
	one := func(cs int64) {
		c := &vfC{Rand: rand.New(rand.NewSource(cs))}
		defer func() {
			evals++
			s := strings.Join(c.log, "; ")
			if !seen[s] {
				seen[s] = true
				distinct++
				if len(samples) < 3 && len(s) < 600 {
					samples = append(samples, s)
				}
			}
			if r := recover(); r != nil {
				fl = map[string]interface{}{"property": prop, "test": t.Name(), "case_seed": cs, "case": strings.Join(c.log, "\n")}
				if x, ok := r.(vfFailed); ok {
					fl["what"] = x.what
				} else {
					fl["what"] = fmt.Sprintf("panic: %v", r)
					fl["panic"] = string(debug.Stack())
				}
			}
		}()
		f(c)
	}
	if r := os.Getenv("VERIF_REPLAY_SEED"); r != "" {
		cs, _ := strconv.ParseInt(r, 10, 64)
		one(cs)
	} else {
		for i := 0; fl == nil && (i == 0 || time.Now().Before(deadline)); i++ {
			one(seed*1000003 + int64(i))
		}
	}
	if out := os.Getenv("VERIF_OUT"); out != "" {
		b, _ := json.Marshal(map[string]interface{}{"stats": map[string]interface{}{"property": prop, "test": t.Name(), "rule": rule,
			"evaluations": evals, "distinct_nontrivial": distinct, "samples": samples}, "failure": fl})
		_ = os.WriteFile(out+"/"+t.Name()+".json", b, 0o644)
	}
	if fl != nil {
		t.Fatalf("property %s: %v\ncase seed %v:\n%v\n%v", prop, fl["what"], fl["case_seed"], fl["case"], fl["panic"])
	}
}

func vfScalar(c *vfC) kyber.Scalar {
	s := Model.Suite.G1().Scalar()
	switch c.Intn(6) {
	case 0:
		return s.Zero()
	case 1:
		return s.SetInt64(int64(c.Intn(3)))
	default:
		b := make([]byte, 32)
		c.Read(b)
		return s.SetBytes(b)
	}
}

// the reference: sum of vect[i]*basis[i], computed without the code under test
func vfCommit(vect []kyber.Scalar) kyber.Point {
	ret := Model.Suite.G1().Point().Null()
	for i, e := range vect {
		if e != nil {
			ret = ret.Clone().Add(ret, Model.Suite.G1().Point().Mul(e, Model.LagrangeBasis[i]))
		}
	}
	return ret
}

func vfVector(c *vfC) []kyber.Scalar {
	vect := make([]kyber.Scalar, 258)
	n := c.Intn(5)
	for i := 0; i < n; i++ {
		vect[[]int{c.Intn(258), 0, 255, 256, 257}[c.Intn(5)]] = vfScalar(c)
	}
	return vect
}

func vfVecStr(v []kyber.Scalar) string {
	s := ""
	for i, x := range v {
		if x != nil {
			s += fmt.Sprintf("%d:%s ", i, x)
		}
	}
	return s
}

type vfTrie struct {
	c      *vfC
	tr     *trie.Trie
	ts     trie.KVStore
	kv     map[string][]byte
	dirty  bool
	unsave bool
}

func vfNew(c *vfC) *vfTrie {
	s := &vfTrie{c: c, ts: trie.NewInMemoryKVStore(), kv: map[string][]byte{}}
	s.tr = trie.New(Model, s.ts, nil)
	return s
}

func (s *vfTrie) key() []byte {
	c := s.c
	ks := []string{}
	for k := range s.kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 0 && c.Intn(3) != 0 {
		k := []byte(ks[c.Intn(len(ks))])
		switch c.Intn(3) {
		case 0:
			return append([]byte{}, k[:c.Intn(len(k)+1)]...)
		case 1:
			return append(append([]byte{}, k...), "ab\x00"[c.Intn(3)])
		}
		return append([]byte{}, k...)
	}
	k := make([]byte, c.Intn(4))
	for i := range k {
		k[i] = "ab\x00\xff"[c.Intn(4)]
	}
	return k
}

func (s *vfTrie) op() {
	c := s.c
	switch n := c.Intn(10); {
	case n < 5:
		k, v := s.key(), []byte{byte(c.Intn(3) + 1), byte(c.Intn(256))}
		c.Logf("update %x %x", k, v)
		s.tr.Update(k, v)
		s.kv[string(k)] = v
		s.dirty, s.unsave = true, true
	case n < 8:
		k := s.key()
		c.Logf("delete %x", k)
		s.tr.Delete(k)
		delete(s.kv, string(k))
		s.dirty, s.unsave = true, true
	default:
		c.Logf("commit")
		s.tr.Commit()
		s.dirty = false
		if c.Intn(2) == 0 {
			c.Logf("persist, clearCache")
			s.tr.PersistMutations(s.ts)
			s.tr.ClearCache()
			s.unsave = false
		}
	}
}

func (s *vfTrie) fresh() *trie.Trie {
	tr := trie.New(Model, trie.NewInMemoryKVStore(), nil)
	ks := []string{}
	for k := range s.kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		tr.Update([]byte(k), s.kv[k])
	}
	tr.Commit()
	return tr
}

func TestC17(t *testing.T) {
	vfRun(t, "C17", "random sparse vectors are committed, opened and verified; inclusion proofs of random tries are validated", func(c *vfC) {
		if c.Intn(2) == 0 {
			vect := vfVector(c)
			c.Logf("vector %s", vfVecStr(vect))
			com := Model.commit(vect)
			c.Check(com.Equal(vfCommit(vect)), "commitment differs from the sum")
			for _, i := range []int{c.Intn(258), []int{0, 255, 256, 257}[c.Intn(4)]} {
				pi := Model.prove(vect, i)
				v := vect[i]
				if v == nil {
					v = Model.ZeroG1
				}
				c.Check(Model.verify(com, pi, v, i), "opening at %d does not verify", i)
				w := Model.Suite.G1().Scalar().Add(v, Model.OneG1)
				c.Check(!Model.verify(com, pi, w, i), "opening at %d verifies with another value", i)
			}
			for i, x := range vect {
				if x == nil {
					continue
				}
				pi := Model.prove(vect, i)
				c.Check(Model.verify(com, pi, x, i), "opening at %d does not verify", i)
				break
			}
			return
		}
		s := vfNew(c)
		for i, n := 0, 2+c.Intn(8); i < n; i++ {
			s.op()
		}
		s.tr.Commit()
		root := trie.RootCommitment(s.tr)
		for j := 0; j < 3; j++ {
			k := s.key()
			c.Logf("proof of %x", k)
			p, ok := Model.ProofOfInclusion(k, s.tr)
			v, present := s.kv[string(k)]
			c.Check(ok == present, "proof of %x produced: %v, present: %v", k, ok, present)
			if !ok {
				c.Check(p == nil, "a proof for the absent key")
				continue
			}
			if j > 0 {
				q, err := ProofOfInclusionFromBytes(p.Bytes())
				c.Check(err == nil && bytes.Equal(q.Bytes(), p.Bytes()), "proof can't be read back: %v", err)
				p = q
			}
			c.Check(bytes.Equal(p.Key, k), "proof is about %x", p.Key)
			err := p.Validate(root)
			c.Check(err == nil, "proof of %x does not validate: %v", k, err)
			err = p.Validate(root, v)
			c.Check(err == nil, "proof of %x does not validate with the value: %v", k, err)
			c.Check(p.Validate(root, append([]byte{1}, v...)) != nil, "proof of %x validates with another value", k)
		}
	})
}

func vfNodeStr(n *trie.NodeData) string {
	is := []int{}
	for i := range n.ChildCommitments {
		is = append(is, int(i))
	}
	sort.Ints(is)
	s := fmt.Sprintf("pf=%x term=%v", n.PathFragment, n.Terminal)
	for _, i := range is {
		s += fmt.Sprintf(" %d:%s", i, n.ChildCommitments[byte(i)])
	}
	return s
}

func TestC18(t *testing.T) {
	vfRun(t, "C18", "random nodes and updates (children added, changed, removed; terminal added, changed, removed) and random trie histories; compared with the sum over the basis and with tries built from scratch", func(c *vfC) {
		if c.Intn(2) == 0 {
			s := vfNew(c)
			for i, n := 0, 2+c.Intn(10); i < n; i++ {
				s.op()
				if !s.dirty {
					a, b := trie.RootCommitment(s.tr), trie.RootCommitment(s.fresh())
					c.Check(equalCommitments(a, b), "root after the history differs from the root of the fresh trie")
				}
			}
			s.tr.Commit()
			c.Check(equalCommitments(trie.RootCommitment(s.tr), trie.RootCommitment(s.fresh())), "root at the end differs from the root of the fresh trie")
			return
		}
		point := func() trie.VCommitment {
			return Model.newVectorCommitment(Model.Suite.G1().Point().Mul(vfScalar(c), nil))
		}
		term := func() trie.TCommitment {
			if c.Intn(3) == 0 {
				return nil
			}
			return &terminalCommitment{vfScalar(c)}
		}
		nd := trie.NewNodeData()
		nd.PathFragment = []byte(strings.Repeat("x", c.Intn(4)))
		nd.Terminal = term()
		for i, n := 0, c.Intn(4); i < n; i++ {
			nd.ChildCommitments[byte(c.Intn(6))] = point()
		}
		upd := map[byte]trie.VCommitment{}
		for i, n := 0, c.Intn(4); i < n; i++ {
			idx := byte(c.Intn(6))
			if _, ok := nd.ChildCommitments[idx]; ok && c.Intn(2) == 0 {
				upd[idx] = nil
			} else {
				upd[idx] = point()
			}
		}
		nt := nd.Terminal
		if c.Intn(2) == 0 {
			nt = term()
		}
		c.Logf("node %s; updates %v; new terminal %v", vfNodeStr(nd), upd, nt)
		want := trie.NewNodeData()
		want.PathFragment, want.Terminal = nd.PathFragment, nt
		for i, v := range nd.ChildCommitments {
			want.ChildCommitments[i] = v
		}
		for i, v := range upd {
			if v == nil {
				delete(want.ChildCommitments, i)
			} else {
				want.ChildCommitments[i] = v
			}
		}
		vect := make([]kyber.Scalar, 258)
		for i, v := range want.ChildCommitments {
			vect[i] = scalarFromPoint(Model.Suite.G1().Scalar(), v.(*vectorCommitment).Point)
		}
		if nt != nil {
			vect[256] = nt.(*terminalCommitment).Scalar
		}
		var vv [258]kyber.Scalar
		makeVector(want, &Model.TrustedSetup, &vv)
		vect[257] = vv[257]
		ref := vfCommit(vect)
		c.Check(Model.calcNodeCommitment(want).Point.Equal(ref), "commitment from scratch differs from the sum")
		prev := Model.calcNodeCommitment(nd)
		var old trie.VCommitment = prev
		prevBytes := prev.Bytes()
		var oldT []byte
		origT := nd.Terminal
		if origT != nil {
			oldT = origT.Bytes()
		}
		res := old
		updStr := fmt.Sprint(upd)
		delta := c.Intn(4) != 0
		Model.UpdateNodeCommitment(nd, upd, delta, nt, &res)
		c.Check(res.(*vectorCommitment).Point.Equal(ref), "updated commitment (incremental: %v) differs from the commitment computed from scratch", delta)
		c.Check(vfNodeStr(nd) == vfNodeStr(want), "node after the update is %s", vfNodeStr(nd))
		c.Check(bytes.Equal(prev.Bytes(), prevBytes), "the previous commitment object is modified")
		c.Check(origT == nil || bytes.Equal(origT.Bytes(), oldT), "the previous terminal is modified")
		c.Check(fmt.Sprint(upd) == updStr, "the child updates are modified")
	})
}
