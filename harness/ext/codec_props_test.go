package verifharness

import (
	"bytes"
	"errors"
	"io"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

func TestC05(t *testing.T) {
	Run(t, "C05", "random nodes with every source of the terminal are written and read back", 0, func(c *C) {
		p := randParams(c)
		m := p.model()
		nd, rn, rm := randNodeData(c, p)
		_ = rm
		key := make([]byte, c.Intn(10))
		for i := range key {
			key[i] = byte(c.Intn(p.arity))
		}
		vs := trie.NewInMemoryKVStore()
		fromKey, fromValue := false, false
		if nd.Terminal != nil {
			switch c.Intn(4) {
			case 0:
				if len(key) > 0 {
					fromKey = true
					nd.Terminal = m.CommitToData(trie.Concat(key, nd.PathFragment))
					fromValue = c.Intn(2) == 0
				}
			case 1:
				full := append(append([]byte{}, key...), nd.PathFragment...)
				packed := []byte{}
				if len(full) > 0 {
					packed = refEncode(full, p.arity)
					if p.arity != 256 {
						packed = packed[1:]
					}
				}
				vs.Set(packed, rn.value)
				fromValue = true
			}
		}
		c.Logf("arity=%d hash=%d key=%x fromKey=%v fromValue=%v", p.arity, p.hs, key, fromKey, fromValue)
		before := nd.Clone()
		var buf, buf2 bytes.Buffer
		err := nd.Write(&buf, p.pa(), fromKey, fromValue)
		if nd.Terminal == nil && len(nd.ChildCommitments) == 0 {
			c.Check(err != nil, "a node that commits to nothing is serialized")
			return
		}
		c.Check(err == nil, "can't write: %v", err)
		c.Check(nd.Clone().Write(&buf2, p.pa(), fromKey, fromValue) == nil && bytes.Equal(buf.Bytes(), buf2.Bytes()), "serialization depends on more than the content")
		c.Check(sameNode(m, before, nd), "Write modified the node")
		got, err := trie.NodeDataFromBytes(m, buf.Bytes(), key, p.pa(), vs)
		c.Check(err == nil, "can't read back: %v", err)
		c.Check(sameNode(m, got, nd), "read back %s, written %s", got, nd)
		if nd.Terminal != nil && !fromKey && !fromValue {
			c.Check(bytes.Equal(got.Terminal.Bytes(), nd.Terminal.Bytes()), "terminal bytes differ")
		}
		// exactly the bytes written
		rest := []byte{1, 2, 3}
		rdr := bytes.NewReader(append(append([]byte{}, buf.Bytes()...), rest...))
		n2 := trie.NewNodeData()
		c.Check(n2.Read(&chunked{c, rdr}, m, key, p.pa(), vs) == nil && sameNode(m, n2, nd), "can't read in small pieces")
		c.Check(rdr.Len() == len(rest), "Read left %d bytes, want %d", rdr.Len(), len(rest))
	})
}

func sameNode(m trie.CommitmentModel, a, b *trie.NodeData) bool {
	if !bytes.Equal(a.PathFragment, b.PathFragment) || !m.EqualCommitments(a.Terminal, b.Terminal) || len(a.ChildCommitments) != len(b.ChildCommitments) {
		return false
	}
	for i, v := range a.ChildCommitments {
		w, ok := b.ChildCommitments[i]
		if !ok || !bytes.Equal(vbytes(v), vbytes(w)) {
			return false
		}
	}
	return true
}

// chunked delivers data in small pieces
type chunked struct {
	c *C
	r io.Reader
}

func (x *chunked) Read(p []byte) (int, error) {
	if len(p) > 1 && x.c.Intn(3) != 0 {
		p = p[:1+x.c.Intn(len(p))]
	}
	return x.r.Read(p)
}

func TestC06(t *testing.T) {
	Run(t, "C06", "random byte strings and symbol sequences, valid and invalid, for each arity", 0, func(c *C) {
		ar := []int{2, 16, 256}[c.Intn(3)]
		a := trie.PathArity(ar - 1)
		src := make([]byte, c.Intn(6))
		c.Read(src)
		c.Logf("arity=%d src=%x", ar, src)
		u := trie.UnpackBytes(append([]byte{}, src...), a)
		c.Check(bytes.Equal(u, refUnpack(src, ar)), "unpack of %x is %x", src, u)
		pk, err := trie.PackUnpackedBytes(u, a)
		c.Check(err == nil && bytes.Equal(pk, src), "pack of %x is %x, %v", u, pk, err)
		sym := make([]byte, c.Intn(20))
		for i := range sym {
			sym[i] = byte(c.Intn(ar))
		}
		c.Logf("symbols=%x", sym)
		e, err := trie.EncodeUnpackedBytes(append([]byte{}, sym...), a)
		c.Check(err == nil && bytes.Equal(e, refEncode(sym, ar)), "encoding of %x is %x, %v", sym, e, err)
		d, err := trie.DecodeToUnpackedBytes(e, a)
		c.Check(err == nil && bytes.Equal(d, sym), "decoding of %x is %x, %v", e, d, err)
		if ar < 256 && len(sym) > 0 {
			bad := append([]byte{}, sym...)
			bad[c.Intn(len(bad))] = byte(ar + c.Intn(256-ar))
			c.Logf("bad=%x", bad)
			_, err = trie.EncodeUnpackedBytes(bad, a)
			c.Check(err != nil, "out of range symbols %x are encoded", bad)
			_, err = trie.PackUnpackedBytes(bad, a)
			c.Check(err != nil, "out of range symbols %x are packed", bad)
		}
		raw := make([]byte, c.Intn(4))
		c.Read(raw)
		if len(raw) > 0 && c.Intn(4) != 0 {
			raw[0] %= 10
			if c.Intn(2) == 0 {
				raw[len(raw)-1] &= byte(0xff << c.Intn(9))
			}
		}
		c.Logf("raw=%x", raw)
		d, err = trie.DecodeToUnpackedBytes(append([]byte{}, raw...), a)
		if err == nil {
			// decoded data are symbols, and it was an encoding of them (a single 0 byte encodes nothing too)
			for _, x := range d {
				c.Check(int(x) < ar, "decoding of %x has the symbol %d", raw, x)
			}
			back, err2 := trie.EncodeUnpackedBytes(d, a)
			c.Check(err2 == nil && (bytes.Equal(back, raw) || (len(d) == 0 && bytes.Equal(raw, []byte{0}))), "%x is not an encoding, but decodes to %x", raw, d)
		} else {
			ok := len(raw) == 0 || ar == 256
			c.Check(!ok, "can't decode %x: %v", raw, err)
		}
	})
}

func randProof(c *C) *trie_blake2b.Proof {
	ar := []int{2, 16, 256}[c.Intn(3)]
	hs := []int{20, 32}[c.Intn(2)]
	p := &trie_blake2b.Proof{PathArity: trie.PathArity(ar - 1), HashSize: trie_blake2b.HashSize(hs)}
	syms := func() []byte {
		b := make([]byte, c.Intn(12))
		for i := range b {
			b[i] = byte(c.Intn(ar))
		}
		return b
	}
	p.Key = syms()
	n := c.Intn(4)
	if c.Intn(40) == 0 {
		n = 250 + c.Intn(20)
	}
	p.Path = []*trie_blake2b.ProofElement{}
	for i := 0; i < n; i++ {
		e := &trie_blake2b.ProofElement{PathFragment: syms(), Children: map[byte][]byte{}, ChildIndex: c.Intn(ar + 2)}
		if c.Intn(2) == 0 {
			e.Terminal = make([]byte, c.Intn(hs+1))
			c.Read(e.Terminal)
		}
		nc := c.Intn(4)
		if c.Intn(10) == 0 {
			nc = ar
		}
		for j := 0; j < nc; j++ {
			h := make([]byte, hs)
			c.Read(h)
			e.Children[byte(c.Intn(ar))] = h
		}
		if nc == ar && c.Intn(2) == 0 {
			for j := 0; j < ar; j++ {
				h := make([]byte, hs)
				c.Read(h)
				e.Children[byte(j)] = h
			}
		}
		p.Path = append(p.Path, e)
	}
	return p
}

func TestC10(t *testing.T) {
	Run(t, "C10", "random well-formed proofs and honest proofs of random tries are written and read back", 0, func(c *C) {
		var p *trie_blake2b.Proof
		if c.Intn(3) == 0 {
			s := newSys(c, randParams(c))
			s.fill(3 + c.Intn(10))
			p = s.m.Proof(s.someKey(), s.tr)
		} else {
			p = randProof(c)
		}
		if s := proofStr(p); len(s) < 2000 {
			c.Logf("%s", s)
		} else {
			c.Logf("a proof of %d elements, arity %s", len(p.Path), p.PathArity)
		}
		data := p.Bytes()
		q, err := trie_blake2b.ProofFromBytes(data)
		c.Check(err == nil, "can't read back: %v", err)
		c.Check(proofStr(q) == proofStr(p), "read back %s", proofStr(q))
		c.Check(bytes.Equal(q.Bytes(), data), "serialization of the copy differs")
		rdr := bytes.NewReader(append(append([]byte{}, data...), 9, 9))
		q = &trie_blake2b.Proof{}
		c.Check(q.Read(&chunked{c, rdr}) == nil && proofStr(q) == proofStr(p), "can't read in small pieces")
		c.Check(rdr.Len() == 2, "Read left %d bytes", rdr.Len())
	})
}

func TestC11(t *testing.T) {
	Run(t, "C11", "valid serializations of nodes, commitments and proofs are cut, extended and edited, also random bytes; proofs that can be read are validated", 0, func(c *C) {
		p := randParams(c)
		m := p.model()
		vs := trie.NewInMemoryKVStore()
		kind := c.Intn(4)
		var valid []byte
		read := func(b []byte) error { return nil }
		switch kind {
		case 0:
			nd, _, _ := randNodeData(c, p)
			if nd.Terminal == nil && len(nd.ChildCommitments) == 0 {
				return
			}
			var buf bytes.Buffer
			c.Check(nd.Write(&buf, p.pa(), false, false) == nil, "can't write")
			valid = buf.Bytes()
			key := make([]byte, c.Intn(3))
			read = func(b []byte) error {
				_, err := trie.NodeDataFromBytes(m, b, key, p.pa(), vs)
				if c.Intn(2) == 0 {
					_, _ = trie.NodeDataFromBytes(m, b, key, p.pa(), nil)
				}
				return err
			}
		case 1:
			pr := randProof(c)
			if c.Intn(2) == 0 {
				s := newSys(c, p)
				s.fill(5 + c.Intn(5))
				pr = s.m.Proof(s.someKey(), s.tr)
			}
			valid = pr.Bytes()
			read = func(b []byte) error {
				q, err := trie_blake2b.ProofFromBytes(b)
				if err == nil {
					root := make([]byte, 32)
					_ = trie_blake2b_verify.Validate(q, root)
					if len(q.Path) > 0 && len(q.Path) < 300 {
						// the root that the proof itself gives, so that the verification goes to the end
						_ = trie_blake2b_verify.ValidateWithValue(q, root, []byte{1})
					}
				}
				return err
			}
		case 2:
			h := make([]byte, p.hs)
			c.Read(h)
			valid = h
			s := newSys(c, p)
			read = func(b []byte) error { _, err := s.tr.VectorCommitmentFromBytes(b); return err }
		case 3:
			v := make([]byte, 1+c.Intn(40))
			c.Read(v)
			valid = m.CommitToData(v).Bytes()
			read = func(b []byte) error {
				x := m.NewTerminalCommitment()
				r := bytes.NewReader(b)
				err := x.Read(r)
				if err == nil && r.Len() > 0 {
					err = errors.New("trailing")
				}
				return err
			}
		}
		c.Logf("kind %d arity=%d hash=%d valid=%x", kind, p.arity, p.hs, valid)
		c.Check(read(valid) == nil, "valid data can't be read")
		for i := 0; i < 20; i++ {
			switch c.Intn(4) {
			case 0:
				n := c.Intn(len(valid))
				if len(valid) < 40 || c.Intn(2) == 0 {
					c.Check(read(valid[:n:n]) != nil, "the prefix of %d bytes is read without an error", n)
				}
			case 1:
				b := append(append([]byte{}, valid...), make([]byte, 1+c.Intn(3))...)
				c.Check(read(b) != nil, "trailing bytes are accepted")
			case 2:
				b := append([]byte{}, valid...)
				for j := 0; j < 1+c.Intn(3); j++ {
					pos := c.Intn(len(b))
					if c.Intn(2) == 0 && pos > 8 {
						pos = c.Intn(8)
					}
					b[pos] = byte(c.Intn(256))
				}
				_ = read(b)
			case 3:
				b := make([]byte, c.Intn(30))
				c.Read(b)
				if len(b) > 1 && c.Intn(2) == 0 {
					b[0], b[1] = valid[0], byte(c.Intn(40))
				}
				_ = read(b)
			}
		}
	})
}

type kvp struct{ k, v []byte }

type listIter []kvp

func (l listIter) Iterate(f func(k, v []byte) bool) {
	for _, p := range l {
		if !f(p.k, p.v) {
			return
		}
	}
}

type recorder struct{ l []kvp }

func (r *recorder) Set(k, v []byte) {
	r.l = append(r.l, kvp{append([]byte{}, k...), append([]byte{}, v...)})
}

func randPairs(c *C) []kvp {
	l := []kvp{}
	for i, n := 0, c.Intn(6); i < n; i++ {
		k := make([]byte, []int{0, 1, 2, 5, 255, 256, 300}[c.Intn(7)])
		v := make([]byte, []int{0, 1, 2, 5, 255, 256, 70000}[c.Intn(7)])
		if len(v) == 70000 && c.Intn(5) != 0 {
			v = v[:3]
		}
		c.Read(k)
		c.Read(v)
		l = append(l, kvp{k, v})
		c.Logf("pair of %d and %d bytes", len(k), len(v))
	}
	return l
}

func samePairs(a, b []kvp) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].k, b[i].k) || !bytes.Equal(a[i].v, b[i].v) {
			return false
		}
	}
	return true
}

func TestC14(t *testing.T) {
	dir := t.TempDir()
	Run(t, "C14", "random pairs are written to streams, files and dumps and read back, also cut off", 0, func(c *C) {
		l := randPairs(c)
		var buf bytes.Buffer
		w := trie.NewBinaryStreamWriter(&buf)
		bounds := map[int]int{0: 0}
		for i, p := range l {
			c.Check(w.Write(p.k, p.v) == nil, "can't write")
			bounds[buf.Len()] = i + 1
		}
		n, b := w.Stats()
		c.Check(n == len(l) && b == buf.Len(), "Stats report %d pairs, %d bytes; written %d, %d", n, b, len(l), buf.Len())
		collect := func(it interface {
			Iterate(func(k, v []byte) bool) error
		}, max int) ([]kvp, error) {
			got := []kvp{}
			err := it.Iterate(func(k, v []byte) bool {
				got = append(got, kvp{append([]byte{}, k...), append([]byte{}, v...)})
				return len(got) != max
			})
			return got, err
		}
		got, err := collect(trie.NewBinaryStreamIterator(&chunked{c, bytes.NewReader(buf.Bytes())}), -1)
		c.Check(err == nil && samePairs(got, l), "read back %d pairs of %d, %v", len(got), len(l), err)
		if len(l) > 0 {
			m := 1 + c.Intn(len(l))
			got, err = collect(trie.NewBinaryStreamIterator(bytes.NewReader(buf.Bytes())), m)
			c.Check(err == nil && samePairs(got, l[:m]), "iteration stopped after %d pairs gives %d, %v", m, len(got), err)
		}
		fn := filepath.Join(dir, "dump")
		undump := func(data []byte) ([]kvp, error) {
			c.Check(os.WriteFile(fn+".cut", data, 0o600) == nil, "can't write the file")
			r := &recorder{}
			_, err := trie.UnDumpFromFile(r, fn+".cut")
			return r.l, err
		}
		for i := 0; i < 6; i++ {
			cut := c.Intn(buf.Len() + 1)
			if i > 2 && buf.Len() > 0 {
				// near the boundaries
				for k := range bounds {
					cut = k + c.Intn(9) - 2
				}
				if cut < 0 || cut > buf.Len() {
					cut = 0
				}
			}
			num, clean := bounds[cut]
			got, err = collect(trie.NewBinaryStreamIterator(&chunked{c, bytes.NewReader(buf.Bytes()[:cut])}), -1)
			c.Check((err == nil) == clean, "stream of %d bytes cut at %d: error %v", buf.Len(), cut, err)
			if clean {
				c.Check(samePairs(got, l[:num]), "cut stream gives other pairs")
			} else {
				c.Check(len(got) <= len(l) && samePairs(got, l[:len(got)]), "cut stream gives other pairs")
			}
			rl, err := undump(buf.Bytes()[:cut])
			c.Check((err == nil) == clean, "dump of %d bytes cut at %d: error %v", buf.Len(), cut, err)
			c.Check(len(rl) <= len(l) && samePairs(rl, l[:len(rl)]) && (!clean || len(rl) == num), "cut dump gives other pairs")
		}
		// dump
		nb, err := trie.DumpToFile(listIter(l), fn)
		data, err2 := os.ReadFile(fn)
		c.Check(err == nil && err2 == nil && nb == len(data) && bytes.Equal(data, buf.Bytes()), "dump of %d bytes reports %d, %v", len(data), nb, err)
		r := &recorder{}
		nb, err = trie.UnDumpFromFile(r, fn)
		c.Check(err == nil && nb == len(data) && samePairs(r.l, l), "undump reports %d bytes of %d, %v", nb, len(data), err)
		c.Check(trie.ByteSize(listIter(l)) == buf.Len(), "ByteSize")
		c.Check(trie.NumEntries(listIter(l)) == len(l), "NumEntries")
		// files
		fw, err := trie.CreateKVStreamFile(fn + ".s")
		c.Check(err == nil, "%v", err)
		for _, p := range l {
			c.Check(fw.Write(p.k, p.v) == nil, "can't write")
		}
		n, b = fw.Stats()
		c.Check(fw.Close() == nil && n == len(l) && b == buf.Len(), "file writer stats")
		fi, err := trie.OpenKVStreamFile(fn + ".s")
		c.Check(err == nil, "%v", err)
		got, err = collect(fi, -1)
		_ = fi.Close()
		c.Check(err == nil && samePairs(got, l), "file gives other pairs")
		// a failing writer
		fail := &failWriter{left: c.Intn(buf.Len() + 1)}
		w = trie.NewBinaryStreamWriter(fail)
		for i, p := range l {
			before := fail.left
			err := w.Write(p.k, p.v)
			need := len(p.k) + len(p.v) + 6
			c.Check((err == nil) == (before >= need), "failing writer: pair %d, error %v", i, err)
			if err != nil {
				break
			}
		}
	})
}

type failWriter struct{ left int }

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) > f.left {
		return 0, errors.New("disk full")
	}
	f.left -= len(p)
	return len(p), nil
}

type writable struct{ f func(w io.Writer) error }

func (x writable) Write(w io.Writer) error { return x.f(w) }

func TestC19(t *testing.T) {
	Run(t, "C19", "random values through every writer and reader, in small pieces and cut off", 0, func(c *C) {
		rnd := func(n int) []byte { b := make([]byte, n); c.Read(b); return b }
		b := byte(c.Intn(256))
		u16 := uint16(c.Intn(65536))
		u32 := c.Uint32()
		d8 := rnd([]int{0, 1, 5, 254, 255, 128}[c.Intn(6)])
		n16 := []int{0, 1, 5, 255, 256, 65535, 300}[c.Intn(7)]
		d16 := rnd(n16)
		d32 := rnd([]int{0, 1, 5, 65535, 65536, 70000}[c.Intn(6)])
		c.Logf("byte %d uint16 %d uint32 %d bytes %d %d %d", b, u16, u32, len(d8), len(d16), len(d32))
		type op struct {
			name string
			w    func(w io.Writer) error
			r    func(r io.Reader) (interface{}, error)
			val  interface{}
			size int
		}
		ops := []op{
			{"byte", func(w io.Writer) error { return trie.WriteByte(w, b) }, func(r io.Reader) (interface{}, error) { return trie.ReadByte(r) }, b, 1},
			{"uint16", func(w io.Writer) error { return trie.WriteUint16(w, u16) }, func(r io.Reader) (interface{}, error) { var x uint16; err := trie.ReadUint16(r, &x); return x, err }, u16, 2},
			{"uint32", func(w io.Writer) error { return trie.WriteUint32(w, u32) }, func(r io.Reader) (interface{}, error) { var x uint32; err := trie.ReadUint32(r, &x); return x, err }, u32, 4},
			{"bytes8", func(w io.Writer) error { return trie.WriteBytes8(w, d8) }, func(r io.Reader) (interface{}, error) { x, err := trie.ReadBytes8(r); return x, err }, d8, 1 + len(d8)},
			{"bytes16", func(w io.Writer) error { return trie.WriteBytes16(w, d16) }, func(r io.Reader) (interface{}, error) { x, err := trie.ReadBytes16(r); return x, err }, d16, 2 + len(d16)},
			{"bytes32", func(w io.Writer) error { return trie.WriteBytes32(w, d32) }, func(r io.Reader) (interface{}, error) { x, err := trie.ReadBytes32(r); return x, err }, d32, 4 + len(d32)},
		}
		eq := func(a, b interface{}) bool {
			if x, ok := a.([]byte); ok {
				return bytes.Equal(x, b.([]byte))
			}
			return a == b
		}
		for _, o := range ops {
			var buf bytes.Buffer
			c.Check(o.w(&buf) == nil, "%s: can't write", o.name)
			c.Check(buf.Len() == o.size, "%s: %d bytes written, want %d", o.name, buf.Len(), o.size)
			sz, err := trie.Size(writable{o.w})
			c.Check(err == nil && sz == o.size && trie.MustSize(writable{o.w}) == sz, "%s: Size is %d", o.name, sz)
			c.Check(bytes.Equal(trie.MustBytes(writable{o.w}), buf.Bytes()), "%s: MustBytes", o.name)
			rdr := bytes.NewReader(append(append([]byte{}, buf.Bytes()...), 1, 2, 3))
			v, err := o.r(&chunked{c, rdr})
			c.Check(err == nil && eq(v, o.val), "%s: read back %v, %v", o.name, v, err)
			c.Check(rdr.Len() == 3, "%s: %d bytes left", o.name, rdr.Len())
			cut := c.Intn(o.size)
			_, err = o.r(&chunked{c, bytes.NewReader(buf.Bytes()[:cut])})
			c.Check(err != nil, "%s: cut at %d of %d is read", o.name, cut, o.size)
			c.Check(cut == 0 || !errors.Is(err, io.EOF), "%s: cut at %d of %d is a clean end", o.name, cut, o.size)
			c.Check(o.w(&failWriter{left: c.Intn(o.size)}) != nil, "%s: error of the writer is lost", o.name)
		}
		c.Check(eqU16(u16) && eqU32(u32), "integer conversions")
		for _, n := range []int{0, 1, 3, 5} {
			_, err := trie.Uint16From2Bytes(make([]byte, n))
			c.Check(err != nil, "Uint16From2Bytes accepts %d bytes", n)
			_, err = trie.Uint32From4Bytes(make([]byte, n))
			c.Check(err != nil, "Uint32From4Bytes accepts %d bytes", n)
		}
		refused := func(f func() error) (r bool) {
			defer func() {
				if x := recover(); x != nil {
					r = true
				}
			}()
			return f() != nil
		}
		var buf bytes.Buffer
		c.Check(refused(func() error { return trie.WriteBytes8(&buf, make([]byte, 256+c.Intn(300))) }), "WriteBytes8 accepts too much")
		c.Check(refused(func() error { return trie.WriteBytes16(&buf, make([]byte, math.MaxUint16+1+c.Intn(3))) }), "WriteBytes16 accepts too much")
		got := trie.Concat(d8, b, string(d16[:n16/2]), bb(d32[:len(d32)/2]))
		want := append(append(append(append([]byte{}, d8...), b), d16[:n16/2]...), d32[:len(d32)/2]...)
		c.Check(bytes.Equal(got, want), "Concat")
	})
}

type bb []byte

func (b bb) Bytes() []byte { return b }

func eqU16(u uint16) bool {
	x, err := trie.Uint16From2Bytes(trie.Uint16To2Bytes(u))
	return err == nil && x == u
}

func eqU32(u uint32) bool {
	x, err := trie.Uint32From4Bytes(trie.Uint32To4Bytes(u))
	return err == nil && x == u && trie.MustUint32From4Bytes(trie.Uint32To4Bytes(u)) == u
}

func TestC22(t *testing.T) {
	Run(t, "C22", "random operations on the in-memory store are compared with a map", 0, func(c *C) {
		s := trie.NewInMemoryKVStore()
		ref := map[string]string{}
		for i, n := 0, 1+c.Intn(30); i < n; i++ {
			k := c.key(256)
			v := make([]byte, c.Intn(3))
			c.Read(v)
			if len(v) == 0 && c.Intn(2) == 0 {
				v = nil
			}
			c.Logf("set %x %x", k, v)
			s.Set(append([]byte{}, k...), v)
			if len(v) > 0 {
				ref[string(k)] = string(v)
			} else {
				delete(ref, string(k))
			}
			for j := 0; j < 3; j++ {
				q := c.key(256)
				if j == 0 {
					q = k
				}
				w, ok := ref[string(q)]
				g := s.Get(q)
				c.Check(string(g) == w && (g == nil) == !ok, "Get %x gives %x, want %x", q, g, w)
				c.Check(s.Has(q) == ok, "Has %x", q)
			}
			max := -1
			if c.Intn(2) == 0 {
				max = 1 + c.Intn(4)
			}
			seen := map[string]bool{}
			calls := 0
			s.Iterate(func(k, v []byte) bool {
				calls++
				w, ok := ref[string(k)]
				c.Check(ok && w == string(v), "Iterate gives %x=%x", k, v)
				c.Check(!seen[string(k)], "Iterate gives %x twice", k)
				seen[string(k)] = true
				return calls != max
			})
			want := len(ref)
			if max > 0 && max < want {
				want = max
			}
			c.Check(calls == want, "Iterate makes %d calls, want %d", calls, want)
		}
	})
}
