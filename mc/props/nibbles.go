package props

import (
	"bytes"
	"encoding/hex"
	"strings"

	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
)

func nibblePrograms() []explore.Program {
	return []explore.Program{
		{Name: "short", Bounds: "all nibble sequences of length 0..4 (thorough 0..5)", Body: func(x *explore.X) {
			n := x.Choose(pick(5, 6)(x))
			s := make([]byte, n)
			split := n / 2
			for i := 0; i < split; i++ {
				s[i] = byte(x.Choose(16))
			}
			// The rest is enumerated inside one execution to keep the choice tree small.
			var rec func(i int)
			rec = func(i int) {
				if i == n {
					nibbleOne(x, s)
					return
				}
				for v := byte(0); v < 16; v++ {
					s[i] = v
					rec(i + 1)
				}
			}
			rec(split)
		}},
		{Name: "long", Bounds: "all lengths 0..45 over backgrounds 0, 5, f with every nibble value at every position", Body: func(x *explore.X) {
			n := x.Choose(46)
			bg := []byte{0, 5, 15}[x.Choose(3)]
			s := bytes.Repeat([]byte{bg}, n)
			nibbleOne(x, s)
			for p := 0; p < n; p++ {
				for v := byte(0); v < 16; v++ {
					s[p] = v
					nibbleOne(x, s)
				}
				s[p] = bg
			}
		}},
		{Name: "pairs", Bounds: "all pairs of sequences of length 0..4 over {0,1,15}, of length 0..2 over all nibbles, and sequences of length 38..41 that diverge at each position", Body: nibblePairs},
		{Name: "keys", Bounds: "addresses: every byte value at every position over 3 backgrounds, and all pairs of byte values at adjacent positions (thorough)", Body: func(x *explore.X) {
			bg := []byte{0, 0xff, 0x5a}[x.Choose(3)]
			p := x.Choose(20)
			var k [20]byte
			for i := range k {
				k[i] = bg
			}
			for v := 0; v < 256; v++ {
				k[p] = byte(v)
				if x.Thorough {
					for w := 0; w < 256; w++ {
						k[(p+1)%20] = byte(w)
						keyOne(x, k)
					}
				} else {
					keyOne(x, k)
				}
			}
		}},
	}
}

func hexOf(s []byte) string {
	var b strings.Builder
	for _, v := range s {
		b.WriteByte("0123456789abcdef"[v])
	}
	return b.String()
}

func nibbleOne(x *explore.X, s []byte) {
	h := hexOf(s)
	x.Step()
	padded := h
	if len(padded)%2 == 1 {
		padded += "0"
	}
	want, _ := hex.DecodeString(padded)
	orig := string(s)
	a, b := tree.Nibbles(s).Compress(), wire.Nibbles(s).Compress()
	x.Check(bytes.Equal(a, want), "tree: packing %s gives %x", h, a)
	x.Check(bytes.Equal(b, want), "wire: packing %s gives %x", h, b)
	x.Check(tree.Nibbles(s).String() == h && string(tree.Nibbles(s).HexBytes()) == h, "tree: hex form of %s is %s", h, tree.Nibbles(s).String())
	x.Check(wire.Nibbles(s).String() == h && string(wire.Nibbles(s).HexBytes()) == h, "wire: hex form of %s is %s", h, wire.Nibbles(s).String())
	if len(s) == 40 {
		k, k2 := tree.Nibbles(s).ToKey(), wire.Nibbles(s).ToKey()
		x.Check(hex.EncodeToString(k[:]) == h, "tree: address of path %s is %x", h, k)
		x.Check(hex.EncodeToString(k2[:]) == h, "wire: address of path %s is %x", h, k2)
		x.Check(string(tree.KeyToNibbles(&k)) == orig && string(wire.KeyToNibbles(&k)) == orig, "path of address %x is not %s", k, h)
	}
	x.Check(string(s) == orig, "conversion changed the path")
	if len(s) <= 3 {
		x.OutcomeS(h)
	}
}

func keyOne(x *explore.X, k [20]byte) {
	x.Step()
	orig := k
	h := hex.EncodeToString(k[:])
	a, b := tree.KeyToNibbles(&k), wire.KeyToNibbles(&k)
	x.Check(hexOf(a) == h && a.String() == h, "tree: path of %s is %x", h, []byte(a))
	x.Check(hexOf(b) == h && b.String() == h, "wire: path of %s is %x", h, []byte(b))
	x.Check(a.ToKey() == orig && b.ToKey() == orig, "path of %s does not lead back", h)
	x.Check(bytes.Equal(a.Compress(), orig[:]) && bytes.Equal(b.Compress(), orig[:]), "packed path of %s differs", h)
	k[0] ^= 0xff // the path must not share memory with the address
	x.Check(hexOf(a) == h && hexOf(b) == h && k != orig, "path of %s follows changes of the address", h)
	x.OutcomeS(h)
}

func pairOne(x *explore.X, s, t []byte) {
	x.Step()
	c := 0
	for c < len(s) && c < len(t) && s[c] == t[c] {
		c++
	}
	os, ot := string(s), string(t)
	x.Check(string(tree.Nibbles(s).CommonPrefix(t)) == os[:c], "tree: common prefix of %x and %x is %x", s, t, []byte(tree.Nibbles(s).CommonPrefix(t)))
	x.Check(string(wire.Nibbles(s).CommonPrefix(t)) == os[:c], "wire: common prefix of %x and %x is %x", s, t, []byte(wire.Nibbles(s).CommonPrefix(t)))
	isPrefix := c == len(s)
	x.Check(tree.Nibbles(s).PrefixOf(t) == isPrefix, "tree: %x prefix of %x: want %v", s, t, isPrefix)
	x.Check(wire.Nibbles(s).PrefixOf(t) == isPrefix, "wire: %x prefix of %x: want %v", s, t, isPrefix)
	x.Check(string(s) == os && string(t) == ot, "comparison changed a path")
}

func nibblePairs(x *explore.X) {
	mk := func(alpha []byte, max int) [][]byte {
		out := [][]byte{{}}
		level := out
		for i := 0; i < max; i++ {
			var next [][]byte
			for _, s := range level {
				for _, a := range alpha {
					next = append(next, append(append([]byte{}, s...), a))
				}
			}
			out = append(out, next...)
			level = next
		}
		return out
	}
	switch x.Choose(3) {
	case 0:
		l := mk([]byte{0, 1, 15}, 4)
		s := l[x.Choose(len(l))]
		for _, t := range l {
			pairOne(x, s, t)
		}
		x.OutcomeS(string(s))
	case 1:
		var all []byte
		for i := byte(0); i < 16; i++ {
			all = append(all, i)
		}
		l := mk(all, 2)
		s := l[x.Choose(len(l))]
		for _, t := range l {
			pairOne(x, s, t)
		}
		x.OutcomeS(string(s))
	case 2:
		n := 38 + x.Choose(4)
		m := 38 + x.Choose(4)
		s, t := bytes.Repeat([]byte{7}, n), bytes.Repeat([]byte{7}, m)
		pairOne(x, s, t)
		for p := 0; p < m; p++ {
			t[p] = 8
			pairOne(x, s, t)
			pairOne(x, t, s)
			t[p] = 7
		}
	}
}
