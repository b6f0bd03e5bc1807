package verifharness

import (
	"bytes"
	"fmt"
	"sort"

	"golang.org/x/crypto/blake2b"
)

// ---- independent reference: path symbols, key encoding, radix tree, blake2b commitments

func refUnpack(k []byte, arity int) []byte {
	switch arity {
	case 256:
		return append([]byte{}, k...)
	case 16:
		r := []byte{}
		for _, b := range k {
			r = append(r, b/16, b%16)
		}
		return r
	default:
		r := []byte{}
		for _, b := range k {
			d := 128
			for d > 0 {
				r = append(r, byte((int(b)/d)%2))
				d /= 2
			}
		}
		return r
	}
}

func refEncode(p []byte, arity int) []byte {
	if len(p) == 0 {
		return []byte{}
	}
	switch arity {
	case 256:
		return append([]byte{}, p...)
	case 16:
		r := []byte{byte(len(p) % 2)}
		for i := 0; i < len(p); i += 2 {
			v := int(p[i]) * 16
			if i+1 < len(p) {
				v += int(p[i+1])
			}
			r = append(r, byte(v))
		}
		return r
	default:
		pad := (8 - len(p)%8) % 8
		r := []byte{byte(pad)}
		for i := 0; i < len(p); i += 8 {
			v := 0
			for j := 0; j < 8; j++ {
				v *= 2
				if i+j < len(p) {
					v += int(p[i+j])
				}
			}
			r = append(r, byte(v))
		}
		return r
	}
}

type refNode struct {
	key      []byte // path symbols from the root, without the fragment
	pf       []byte
	value    []byte // nil if none: what the terminal commits to
	rawKey   []byte // the original key if value != nil
	rawValue []byte
	children map[byte]*refNode
}

type refEntry struct {
	path, commitTo, rawKey, rawValue []byte
}

func refBuild(es []refEntry, key []byte) *refNode {
	if len(es) == 0 {
		return nil
	}
	// longest common prefix
	l := len(es[0].path)
	for _, e := range es {
		i := 0
		for i < l && i < len(e.path) && e.path[i] == es[0].path[i] {
			i++
		}
		l = i
	}
	n := &refNode{key: append([]byte{}, key...), pf: append([]byte{}, es[0].path[:l]...), children: map[byte]*refNode{}}
	groups := map[byte][]refEntry{}
	for _, e := range es {
		if len(e.path) == l {
			n.value, n.rawKey, n.rawValue = e.commitTo, e.rawKey, e.rawValue
			continue
		}
		c := e.path[l]
		groups[c] = append(groups[c], refEntry{e.path[l+1:], e.commitTo, e.rawKey, e.rawValue})
	}
	for c, g := range groups {
		ck := append(append(append([]byte{}, key...), n.pf...), c)
		n.children[c] = refBuild(g, ck)
	}
	return n
}

func (n *refNode) walk(f func(n *refNode)) {
	if n == nil {
		return
	}
	f(n)
	for _, c := range n.children {
		c.walk(f)
	}
}

type refModel struct {
	arity int // 2, 16, 256
	hs    int // 20, 32
	opt   bool
}

func (m refModel) content(kv map[string][]byte) *refNode {
	es := []refEntry{}
	keys := []string{}
	for k := range kv {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		es = append(es, refEntry{refUnpack([]byte(k), m.arity), m.commitTo([]byte(k), kv[k]), []byte(k), kv[k]})
	}
	return refBuild(es, nil)
}

func (m refModel) commitTo(k, v []byte) []byte {
	if m.opt && bytes.Equal(k, v) {
		return refUnpack(v, m.arity)
	}
	return v
}

func refHash(data []byte, hs int) []byte {
	if hs == 32 {
		h := blake2b.Sum256(data)
		return h[:]
	}
	h, err := blake2b.New(20, nil)
	if err != nil {
		panic(err)
	}
	h.Write(data)
	return h.Sum(nil)
}

func refRaw(data []byte, hs int) []byte {
	if len(data) <= hs {
		return append([]byte{}, data...)
	}
	return refHash(data, hs)
}

func (m refModel) layout(n *refNode) []byte {
	slot := m.hs + 1
	buf := make([]byte, (m.arity+2)*slot)
	for c, ch := range n.children {
		copy(buf[int(c)*slot:], m.commit(ch))
	}
	if n.value != nil {
		copy(buf[m.arity*slot:], refRaw(n.value, m.hs))
	}
	copy(buf[(m.arity+1)*slot:], refRaw(n.pf, m.hs))
	return buf
}

func (m refModel) commit(n *refNode) []byte {
	if n == nil {
		return nil
	}
	return refHash(m.layout(n), m.hs)
}

func (n *refNode) String() string {
	if n == nil {
		return "<empty>"
	}
	s := ""
	n.walk(func(x *refNode) { s += fmt.Sprintf("(%x|%x|%x|%d)", x.key, x.pf, x.value, len(x.children)) })
	return s
}
