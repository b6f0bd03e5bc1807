package verifharness

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

func (s *sys) fill(n int) {
	for i := 0; i < n; i++ {
		s.randomOp()
	}
	s.commit()
	if s.c.Intn(3) == 0 {
		s.persist()
		s.open()
	}
}

func TestC07(t *testing.T) {
	Run(t, "C07", histRule+"; honest proofs are validated for present and absent keys", 0, func(c *C) {
		s := newSys(c, randParams(c))
		s.fill(3 + c.Intn(20))
		root := s.root(s.tr)
		try := func(k []byte) {
			c.Logf("proof of %x", k)
			p := s.m.Proof(k, s.tr)
			if c.Intn(2) == 0 {
				var err error
				p, err = trie_blake2b.ProofFromBytes(p.Bytes())
				c.Check(err == nil, "proof can't be read back: %v", err)
			}
			err := trie_blake2b_verify.Validate(p, root)
			c.Check(err == nil, "honest proof of %x does not validate: %v", k, err)
			v, present := s.kv[string(k)]
			c.Check(trie_blake2b_verify.IsProofOfAbsence(p) == !present, "proof of %x (present: %v) is a proof of absence: %v", k, present, !present)
			pk, term := trie_blake2b_verify.MustKeyWithTerminal(p)
			if present {
				c.Check(bytes.Equal(term, s.wantTerm(k)), "proof of %x carries terminal %x, want %x", k, term, s.wantTerm(k))
				c.Check(bytes.Equal(pk, refUnpack(k, s.p.arity)), "proof of %x is about %x", k, pk)
				known := s.p.opt && s.p.arity != 256 && bytes.Equal(k, v) // recorded finding value-of-key-commitment
				err = trie_blake2b_verify.ValidateWithValue(p, root, v)
				c.Check(err == nil || known, "proof of %x does not validate with its value %x: %v", k, v, err)
			} else {
				c.Check(trie_blake2b_verify.ValidateWithValue(p, root, []byte{7}) != nil, "proof of absence of %x validates with a value", k)
			}
		}
		for _, k := range s.sortedKeys() {
			try([]byte(k))
		}
		for i := 0; i < 8; i++ {
			try(s.someKey())
		}
	})
}

func cloneProof(p *trie_blake2b.Proof) *trie_blake2b.Proof {
	r := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: append([]byte{}, p.Key...)}
	for _, e := range p.Path {
		r.Path = append(r.Path, cloneElem(e))
	}
	return r
}

func cloneElem(e *trie_blake2b.ProofElement) *trie_blake2b.ProofElement {
	x := &trie_blake2b.ProofElement{PathFragment: append([]byte{}, e.PathFragment...), Children: map[byte][]byte{}, ChildIndex: e.ChildIndex}
	if e.Terminal != nil {
		x.Terminal = append([]byte{}, e.Terminal...)
	}
	for i, v := range e.Children {
		x.Children[i] = append([]byte{}, v...)
	}
	return x
}

func proofStr(p *trie_blake2b.Proof) string {
	s := fmt.Sprintf("arity=%s hash=%s key=%x", p.PathArity, p.HashSize, p.Key)
	for _, e := range p.Path {
		s += fmt.Sprintf(" [pf=%x term=%x(nil:%v) idx=%d ch=%x]", e.PathFragment, e.Terminal, e.Terminal == nil, e.ChildIndex, e.Children)
	}
	return s
}

// slotStripped tells a node content from another up to the recorded finding about zero padding
func strip0(b []byte) string { return string(bytes.TrimRight(b, "\x00")) }

func TestC08(t *testing.T) {
	Run(t, "C08", histRule+"; proofs are forged by editing honest ones (keys, path, child indices, terminals, children), the verdict of those that validate is compared with the content", 0, func(c *C) {
		s := newSys(c, randParams(c))
		s.fill(3 + c.Intn(15))
		root := s.root(s.tr)
		frag := map[string]string{} // stripped fragment commitment -> fragment, of the real nodes
		s.ref().walk(func(n *refNode) { frag[strip0(refRaw(n.pf, s.p.hs))] = string(n.pf) })
		for i := 0; i < 60; i++ {
			k := s.someKey()
			p := cloneProof(s.m.Proof(k, s.tr))
			if len(p.Path) == 0 {
				continue
			}
			other := cloneProof(s.m.Proof(s.someKey(), s.tr))
			honest := proofStr(p)
			what := ""
			for j, n := 0, 1+c.Intn(3); j < n && len(p.Path) > 0; j++ {
				what += s.forge(p, other) + " "
			}
			forged := proofStr(p)
			var err error
			if err = trie_blake2b_verify.Validate(p, root); err != nil {
				continue
			}
			// the recorded finding about slot padding is out of the scope of this property
			known := false
			for _, e := range p.Path {
				if pf, ok := frag[strip0(refRaw(e.PathFragment, s.p.hs))]; ok && pf != string(e.PathFragment) {
					known = true
				}
			}
			if known {
				continue
			}
			// verdict
			_, term := trie_blake2b_verify.MustKeyWithTerminal(p)
			var want []byte
			for kk := range s.kv {
				if bytes.Equal(refUnpack([]byte(kk), s.p.arity), p.Key) {
					want = s.wantTerm([]byte(kk))
				}
			}
			if strip0(term) != strip0(want) { // a value of zero bytes is hashed like no value: recorded finding
				c.Failf("forged proof validates and claims terminal %x (absent: %v), in the trie %x (absent: %v)\nhonest: %s\nedits: %s\nforged: %s",
					term, term == nil, want, want == nil, honest, what, forged)
			}
		}
	})
}

func (s *sys) forge(p, other *trie_blake2b.Proof) string {
	c := s.c
	e := p.Path[c.Intn(len(p.Path))]
	last := p.Path[len(p.Path)-1]
	ar := s.p.arity
	idx := func() int {
		return []int{ar, ar + 1, ar + 2, c.Intn(ar), -1, 256 + c.Intn(ar+2)}[c.Intn(6)]
	}
	switch c.Intn(14) {
	case 0:
		p.Key = refUnpack(s.someKey(), ar)
		return "key"
	case 1:
		last.ChildIndex = idx()
		return "lastindex"
	case 2:
		e.ChildIndex = idx()
		return "index"
	case 3:
		if len(p.Path) > 1 {
			// cut the path, put the commitment where it belongs
			n := p.Path[len(p.Path)-2]
			var h []byte
			if panics(func() { h = trie_blake2b_verify.CommitmentToTheTerminalNode(p) }) != nil {
				return "-" // an earlier edit made the element unusable
			}
			p.Path = p.Path[:len(p.Path)-1]
			if n.ChildIndex >= 0 && n.ChildIndex < ar {
				n.Children[byte(n.ChildIndex)] = h
			}
			n.ChildIndex = idx()
			return "cut"
		}
	case 4:
		last.Terminal = nil
		return "noterminal"
	case 5:
		last.Terminal = []byte{}
		return "emptyterminal"
	case 6:
		last.Terminal = s.value([]byte{1})
		return "terminal"
	case 7:
		for i := range e.Children {
			if c.Intn(2) == 0 {
				delete(e.Children, i)
			}
		}
		return "dropchildren"
	case 8:
		h := make([]byte, s.p.hs)
		c.Read(h)
		e.Children[byte(c.Intn(ar))] = h
		return "addchild"
	case 9:
		if len(p.Key) > 0 {
			p.Key = p.Key[:c.Intn(len(p.Key)+1)]
		}
		return "cutkey"
	case 10:
		p.Key = append(p.Key, byte(c.Intn(ar)))
		return "extendkey"
	case 11:
		if len(p.Key) > 0 {
			p.Key[c.Intn(len(p.Key))] = byte(c.Intn(ar))
		}
		return "changekey"
	case 12:
		if len(other.Path) > 0 {
			p.Key = append([]byte{}, other.Key...)
			if c.Intn(2) == 0 {
				i := c.Intn(len(p.Path))
				p.Path = append(p.Path[:i:i], cloneElem(other.Path[len(other.Path)-1]))
			}
		}
		return "mix"
	case 13:
		// an empty or oversized child
		e.Children[byte(c.Intn(256))] = make([]byte, []int{0, 1, s.p.hs + 1}[c.Intn(3)])
		return "oddchild"
	}
	return "-"
}

// --- C09

func randNodeData(c *C, p params) (*trie.NodeData, *refNode, refModel) {
	rm := refModel{p.arity, p.hs, p.opt}
	m := p.model()
	nd := trie.NewNodeData()
	rn := &refNode{children: map[byte]*refNode{}}
	if c.Intn(4) != 0 {
		v := make([]byte, 1+c.Intn(40))
		c.Read(v)
		v[len(v)-1] |= 1
		nd.Terminal = m.CommitToData(v)
		rn.value = v
	}
	pf := make([]byte, []int{0, 1, 3, 19, 20, 21, 31, 32, 33, 60}[c.Intn(10)])
	for i := range pf {
		pf[i] = byte(c.Intn(p.arity))
	}
	nd.PathFragment, rn.pf = pf, pf
	n := c.Intn(4)
	if c.Intn(6) == 0 {
		n = p.arity
	}
	for i := 0; i < n; i++ {
		idx := byte(c.Intn(p.arity))
		if c.Intn(3) == 0 {
			idx = []byte{0, 1, byte(p.arity - 1), byte(p.arity / 2)}[c.Intn(4)]
		}
		ch := &refNode{pf: []byte{byte(c.Intn(3)), byte(c.Intn(256))}, value: []byte{byte(1 + c.Intn(255))}, children: map[byte]*refNode{}}
		rn.children[idx] = ch
		vc := m.NewVectorCommitment()
		if err := vc.Read(bytes.NewReader(rm.commit(ch))); err != nil {
			c.Failf("commitment can't be read: %v", err)
		}
		nd.ChildCommitments[idx] = vc
	}
	c.Logf("node pf=%x value=%x children=%d", pf, rn.value, len(rn.children))
	return nd, rn, rm
}

func vbytes(v trie.VCommitment) []byte {
	if isNil(v) {
		return nil
	}
	return v.Bytes()
}

func TestC09(t *testing.T) {
	Run(t, "C09", "random nodes; commitments are compared with an independent layout, and after each single change of the node", 0, func(c *C) {
		p := randParams(c)
		c.Logf("arity=%d hash=%d", p.arity, p.hs)
		m := p.model()
		nd, rn, rm := randNodeData(c, p)
		if rn.value == nil && len(rn.children) == 0 {
			c.Check(isNil(m.CalcNodeCommitment(nd)), "node without content has a commitment")
			return
		}
		want := rm.commit(rn)
		c.Check(bytes.Equal(vbytes(m.CalcNodeCommitment(nd)), want), "CalcNodeCommitment differs from the layout")
		// through UpdateNodeCommitment: from a part of the node
		part := nd.Clone()
		upd := map[byte]trie.VCommitment{}
		for i, v := range nd.ChildCommitments {
			if c.Intn(2) == 0 {
				delete(part.ChildCommitments, i)
				upd[i] = v
			} else if c.Intn(2) == 0 {
				x := m.NewVectorCommitment()
				b := make([]byte, p.hs)
				c.Read(b)
				_ = x.Read(bytes.NewReader(b))
				part.ChildCommitments[i] = x
				upd[i] = v
			}
		}
		for i := 0; i < 2; i++ {
			idx := byte(c.Intn(p.arity))
			if _, ok := nd.ChildCommitments[idx]; !ok {
				if x := m.NewVectorCommitment(); c.Intn(2) == 0 {
					part.ChildCommitments[idx] = x
				}
				upd[idx] = nil
			}
		}
		if c.Intn(2) == 0 {
			part.Terminal = m.CommitToData([]byte{9, 9, 9})
		}
		var res trie.VCommitment
		m.UpdateNodeCommitment(part, upd, false, nd.Terminal, &res)
		c.Check(bytes.Equal(vbytes(res), want), "UpdateNodeCommitment differs from the layout")
		c.Check(len(part.ChildCommitments) == len(nd.ChildCommitments), "UpdateNodeCommitment leaves %d children, want %d", len(part.ChildCommitments), len(nd.ChildCommitments))
		c.Check(m.EqualCommitments(part.Terminal, nd.Terminal), "UpdateNodeCommitment does not set the terminal")
		// the verifier's side
		el := &trie_blake2b.ProofElement{PathFragment: rn.pf, Children: map[byte][]byte{}, ChildIndex: p.arity + 1}
		for i, v := range nd.ChildCommitments {
			el.Children[i] = v.Bytes()
		}
		if rn.value != nil {
			el.Terminal = refRaw(rn.value, p.hs)
		}
		pr := &trie_blake2b.Proof{PathArity: p.pa(), HashSize: trie_blake2b.HashSize(p.hs), Path: []*trie_blake2b.ProofElement{el}}
		c.Check(bytes.Equal(trie_blake2b_verify.CommitmentToTheTerminalNode(pr), want), "the verifier hashes the node differently")
		for i := range el.Children {
			// equality of commitments
			x := m.NewVectorCommitment()
			b := append([]byte{}, el.Children[i]...)
			b[c.Intn(len(b))] ^= 1 << c.Intn(8)
			_ = x.Read(bytes.NewReader(b))
			c.Check(!m.EqualCommitments(x, nd.ChildCommitments[i]), "different commitments are equal")
			y := m.NewVectorCommitment()
			_ = y.Read(bytes.NewReader(el.Children[i]))
			c.Check(m.EqualCommitments(y, nd.ChildCommitments[i]), "equal commitments differ")
			break
		}
		v1 := make([]byte, 1+c.Intn(40))
		c.Read(v1)
		c.Check(bytes.Equal(trie_blake2b.CommitToDataRaw(v1, trie_blake2b.HashSize(p.hs)), refRaw(v1, p.hs)), "CommitToDataRaw of %x", v1)
		v2 := append([]byte{}, v1...)
		v2[c.Intn(len(v2))] ^= 1 << c.Intn(8)
		c.Check(!m.EqualCommitments(m.CommitToData(v1), m.CommitToData(v2)), "commitments to %x and %x are equal", v1, v2)
		c.Check(m.EqualCommitments(m.CommitToData(v1), m.CommitToData(append([]byte{}, v1...))), "commitments to equal data differ")
		c.Check(isNil(m.CommitToData(nil)) && isNil(m.CommitToData([]byte{})), "commitment to no data")
	})
}
