package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"terorie.dev/nimiq/beserial"

	"verif/mc/explore"
)

// A shape is a type to encode; topShape wraps a field that needs a tag.
func wrapped(x *explore.X, fs []field, depth int) *sch {
	f := fs[x.Choose(len(fs))]
	for i := 0; i < depth; i++ {
		f = wrappers[x.Choose(len(wrappers))](f)
	}
	if f.len == 0 && !f.opt && x.Choose(2) == 1 {
		return f.s // as it is
	}
	return str(f)
}

type shapeProgram struct {
	name, bounds string
	tier         int // 0: always, 1: quick for the checks that cost little, else thorough, 2: thorough, for those only
	pick         func(x *explore.X) *sch
}

var shapePrograms = []shapeProgram{
	{"fields", "each of 876 field types (15 element types, arrays, tagged strings and slices, pointers, pointers to pointers, optional or not), in 9 wrappings", 0,
		func(x *explore.X) *sch { return wrapped(x, fieldsAll, 1) }},
	{"pairs", "all pairs of 30 field types in one struct", 0,
		func(x *explore.X) *sch {
			return str(fieldsCore[x.Choose(len(fieldsCore))], fieldsCore[x.Choose(len(fieldsCore))])
		}},
	{"nested", "each of 30 field types in all 81 double wrappings", 0,
		func(x *explore.X) *sch { return wrapped(x, fieldsCore, 2) }},
	{"triples", "all triples of 30 field types in one struct", 1,
		func(x *explore.X) *sch {
			return str(fieldsCore[x.Choose(len(fieldsCore))], fieldsCore[x.Choose(len(fieldsCore))], fieldsCore[x.Choose(len(fieldsCore))])
		}},
	{"deep", "each of 30 field types in all 729 triple wrappings", 1,
		func(x *explore.X) *sch { return wrapped(x, fieldsCore, 3) }},
	{"all nested", "each of 876 field types in all 81 double wrappings", 1,
		func(x *explore.X) *sch { return wrapped(x, fieldsAll, 2) }},
	{"fours", "all sequences of four of 30 field types in one struct", 2,
		func(x *explore.X) *sch {
			return str(fieldsCore[x.Choose(len(fieldsCore))], fieldsCore[x.Choose(len(fieldsCore))], fieldsCore[x.Choose(len(fieldsCore))], fieldsCore[x.Choose(len(fieldsCore))])
		}},
	{"all pairs", "all pairs of 876 field types in one struct", 2,
		func(x *explore.X) *sch {
			return str(fieldsAll[x.Choose(len(fieldsAll))], fieldsAll[x.Choose(len(fieldsAll))])
		}},
	{"deeper", "each of 30 field types in all 6561 fourfold wrappings", 2,
		func(x *explore.X) *sch { return wrapped(x, fieldsCore, 4) }},
	{"all deep", "each of 876 field types in all 729 triple wrappings", 2,
		func(x *explore.X) *sch { return wrapped(x, fieldsAll, 3) }},
}

func shapeCheck(light bool, f func(x *explore.X, s *sch)) (out []explore.Program) {
	for _, p := range shapePrograms {
		p := p
		if p.tier == 2 && !light {
			continue
		}
		out = append(out, explore.Program{Name: p.name, Bounds: p.bounds + "; up to 40 combinations of boundary values each", ThoroughOnly: p.tier == 2 || p.tier == 1 && !light,
			Body: func(x *explore.X) {
				s := p.pick(x)
				x.Note("type %s", s.name)
				f(x, s)
			}})
	}
	return
}

// longShapes are strings, slices, arrays and structs of many lengths.
func longShapes(x *explore.X) (*sch, []*mv) {
	lens := []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511, 1000, 4096, 32767, 32768, 65535, 65536}
	elems := []*sch{sU8, sNB, sU16, sU32, sU64, sI64, sBool, sVar, sSB, sS16, arr(2, sU8), arr(32, sU8), ptr(sU16), str(field{s: sU8}, field{s: sStr, len: 1})}
	n := lens[x.Choose(len(lens))]
	list := func(e *sch) (out []*mv) {
		if n > 1000 && e.bytes != 1 && !x.Thorough && n != 65535 {
			x.Abort() // only bytes that long in the quick tier
		}
		v := values(e, field{}, 6)
		m := &mv{}
		for i := 0; i < n; i++ {
			m.list = append(m.list, v[(i*7+i/5)%len(v)])
		}
		return []*mv{m}
	}
	c := x.Choose(2*len(elems) + 3)
	switch {
	case c < len(elems):
		e := elems[c]
		w := []int{1, 2, 4, 8}[x.Choose(4)]
		if n>>(8*w) != 0 {
			x.Abort()
		}
		var s *sch
		var ms []*mv
		for _, m := range list(e) {
			ms = append(ms, &mv{list: []*mv{{u: 9}, m, {u: 7}}})
		}
		s = str(field{s: sU8}, field{s: slc(e), len: w}, field{s: sU16})
		return s, ms
	case c < 2*len(elems):
		return arr(n, elems[c-len(elems)]), list(elems[c-len(elems)])
	case c < 2*len(elems)+2:
		w := 1 + c - 2*len(elems)
		if n>>(8*w) != 0 {
			x.Abort()
		}
		var ms []*mv
		for _, unit := range []string{"a", "\u00e9", "\u65e5", "\U0001f600", "\x80", "\r\n", "\x00\xff", "\xed\xa0\x80", "e\u0301", "\ufeff", "\ufffd"} {
			b := bytes.Repeat([]byte(unit), n/len(unit)+1)[:n]
			ms = append(ms, &mv{list: []*mv{{b: b}, {u: 7}}})
		}
		return str(field{s: sStr, len: w}, field{s: sU8}), ms
	default:
		if n > 300 {
			x.Abort()
		}
		var fs []field
		m := &mv{}
		for i := 0; i < n; i++ {
			f := fieldsCore[(i*7+i/3)%len(fieldsCore)]
			v := values(f.s, f, 6)
			fs = append(fs, f)
			m.list = append(m.list, v[i%len(v)])
		}
		return str(fs...), []*mv{m}
	}
}

// allNumbers lists values of each number kind: all of up to 16 bits, else all with one byte or two bits set, and their complements.
func allNumbers(x *explore.X) (*sch, []*mv) {
	kinds := []*sch{sU8, sU16, sU32, sU64, sI8, sI16, sI32, sI64, sNB, sN16, sSB, sS16, sBool}
	s := kinds[x.Choose(len(kinds))]
	var us []uint64
	switch {
	case s == sBool:
		us = []uint64{0, 1}
	case s.bytes == 1 || s == sSB:
		for i := 0; i < 256; i++ {
			us = append(us, uint64(i))
		}
	case s.bytes == 2 || s == sS16:
		for i := 0; i < 65536; i++ {
			us = append(us, uint64(i))
		}
	default:
		top := ^uint64(0) >> (64 - 8*uint(s.bytes))
		for i := 0; i < s.bytes; i++ {
			for b := 0; b < 256; b++ {
				us = append(us, uint64(b)<<(8*i), ^(uint64(b)<<(8*i))&top)
			}
		}
		for i := 0; i < 8*s.bytes; i++ {
			for j := 0; j < i; j++ {
				us = append(us, 1<<i|1<<j, ^(uint64(1)<<i|1<<j)&top, (1<<i-1<<j)&top)
			}
			us = append(us, (1<<i)+1, 1<<i-1)
		}
	}
	wrap := x.Choose(3)
	t := []*sch{s, arr(1, s), str(field{s: slc(s), len: 1})}[wrap]
	var ms []*mv
	for _, u := range us {
		m := &mv{u: u}
		for i := 0; i < wrap; i++ {
			m = &mv{list: []*mv{m}}
		}
		ms = append(ms, m)
	}
	return t, ms
}

// extraPrograms runs f on the shapes and values that go beyond shapePrograms.
func extraPrograms(f func(x *explore.X, s *sch, vs []*mv)) []explore.Program {
	return []explore.Program{
		{Name: "long", Bounds: "slices, arrays and strings (of 11 kinds of characters) of 29 lengths from 4 to 65536, 14 element types, and structs of up to 257 fields",
			Body: func(x *explore.X) {
				s, vs := longShapes(x)
				x.Note("type %.300s", s.name)
				f(x, s, vs)
			}},
		{Name: "numbers", Bounds: "all values of the 8 and 16 bit kinds; for 32 and 64 bits all with one byte set, two bits set or one run of ones, and their complements",
			Body: func(x *explore.X) {
				s, vs := allNumbers(x)
				x.Note("type %s", s.name)
				f(x, s, vs)
			}},
	}
}

// damagedLong cuts long encodings and alters their ends.
func damagedLong(x *explore.X, s *sch, vs []*mv) {
	for _, m := range vs {
		good := enc(nil, s, field{}, m)
		decodeAny(x, s, good)
		for _, l := range []int{0, 1, 2, 3, len(good) / 2, len(good) - 3, len(good) - 2, len(good) - 1} {
			if l >= 0 && l < len(good) {
				decodeAny(x, s, good[:l:l])
			}
		}
		decodeAny(x, s, append(append([]byte{}, good...), 0))
		if len(vs) > 1000 { // all numbers: the strings are decoded elsewhere
			continue
		}
		edge := 10
		if len(good) > 2000 && !x.Thorough {
			edge = 2
		}
		d := append([]byte{}, good...)
		for i := 0; i < len(d); i++ {
			if i > edge && i < len(d)-edge {
				continue
			}
			for _, v := range []byte{0, 1, 2, 0xff, d[i] + 1, d[i] - 1} {
				o := d[i]
				d[i] = v
				decodeAny(x, s, d)
				d[i] = o
			}
		}
		x.OutcomeS(fmt.Sprintf("%s %d", s.name, len(good)))
	}
}

func mk(s *sch, m *mv) reflect.Value {
	v := reflect.New(s.typ)
	fill(v.Elem(), s, m)
	return v
}

func roundTrip(x *explore.X, s *sch) { roundTripOf(x, s, values(s, field{}, 40)) }

func roundTripOf(x *explore.X, s *sch, vs []*mv) {
	for i, m := range vs {
		want := enc(nil, s, field{}, m)
		v := mk(s, m)
		got, err := beserial.Marshal(nil, v.Interface())
		x.Step()
		if err != nil || !bytes.Equal(got, want) {
			x.Fail("%s: encoding %+v gives %x, %v; want %x", s.name, v.Elem(), got, err, want)
		}
		buf := append(make([]byte, 0, 64), 9, 8, 7)
		got, err = beserial.Marshal(buf, v.Interface())
		if err != nil || len(got) < 3 || !bytes.Equal(got[:3], []byte{9, 8, 7}) || !bytes.Equal(got[3:], want) || !bytes.Equal(buf, []byte{9, 8, 7}) {
			x.Fail("%s: appending %+v to 090807 gives %x, %v; want %x", s.name, v.Elem(), got, err, want)
		}
		if !same(v.Elem(), s, m) {
			x.Fail("%s: encoding changed the value to %+v", s.name, v.Elem())
		}
		for tail := 0; tail < 3; tail++ {
			in := append(append([]byte{}, want...), []byte{0xff, 0, 1}[:tail]...)
			var d reflect.Value
			if tail == 1 { // into something that already holds a value
				d = mk(s, vs[(i+1)%len(vs)])
			} else {
				d = reflect.New(s.typ)
			}
			n, err := beserial.Unmarshal(in, d.Interface())
			x.Step()
			if err != nil || n != len(want) || !same(d.Elem(), s, m) {
				x.Fail("%s: decoding %x gives %+v, %d bytes, %v; want %+v", s.name, in, d.Elem(), n, err, v.Elem())
			}
			for j := range in {
				in[j] ^= 0xff
			}
			if !same(d.Elem(), s, m) {
				x.Fail("%s: the decoded value changes with the input buffer", s.name)
			}
		}
		x.OutcomeS(s.name + string(want))
	}
}

func announced(x *explore.X, s *sch) { announcedOf(x, s, values(s, field{}, 40)) }

func announcedOf(x *explore.X, s *sch, vs []*mv) {
	for _, m := range vs {
		v := mk(s, m)
		want := len(enc(nil, s, field{}, m))
		n, err := beserial.Size(v.Interface())
		x.Step()
		if err != nil || n != want {
			x.Fail("%s: the size of %+v is given as %d, %v; it encodes to %d bytes", s.name, v.Elem(), n, err, want)
		}
		if b, err := beserial.Marshal(nil, v.Interface()); err != nil || len(b) != n {
			x.Fail("%s: the size of %+v is given as %d, but it encodes to %x, %v", s.name, v.Elem(), n, b, err)
		}
		x.OutcomeS(fmt.Sprint(s.name, want))
	}
}

// decodeAny compares one decoding with the reference parser.
func decodeAny(x *explore.X, s *sch, data []byte) {
	keep := string(data)
	m, rest, ok := parse(data, s, field{})
	v := reflect.New(s.typ)
	n, err := beserial.Unmarshal(data, v.Interface())
	x.Step()
	full := reflect.New(s.typ)
	ferr := beserial.UnmarshalFull(data, full.Interface())
	if string(data) != keep {
		x.Fail("%s: decoding changed its input", s.name)
	}
	if n < 0 || n > len(data) {
		x.Fail("%s: decoding %x reports %d bytes read", s.name, data, n)
	}
	if ok != (err == nil) {
		x.Fail("%s: decoding %x: err=%v, but it is %s", s.name, data, err, map[bool]string{true: "valid", false: "not valid"}[ok])
	}
	if (ferr == nil) != (ok && len(rest) == 0) {
		x.Fail("%s: strict decoding of %x: err=%v, with %d bytes left", s.name, data, ferr, len(rest))
	}
	if !ok {
		return
	}
	if n != len(data)-len(rest) || !same(v.Elem(), s, m) {
		x.Fail("%s: decoding %x gives %+v and reads %d bytes; want %d", s.name, data, v.Elem(), n, len(data)-len(rest))
	}
	re, err := beserial.Marshal(nil, v.Interface())
	if err != nil || !bytes.Equal(re, data[:n]) {
		x.Fail("%s: decoding %x and encoding again gives %x, %v", s.name, data[:n], re, err)
	}
}

func damaged(x *explore.X, s *sch) {
	vs := values(s, field{}, 8)
	for _, m := range vs {
		good := enc(nil, s, field{}, m)
		if len(good) > 64 {
			continue
		}
		for l := range good {
			decodeAny(x, s, good[:l:l])
		}
		decodeAny(x, s, append(append([]byte{}, good...), 0))
		decodeAny(x, s, append(append([]byte{}, good...), 1, 1, 1, 1, 1, 1, 1, 1, 1))
		d := append([]byte{}, good...)
		bytesVals := []byte{0, 1, 2, 3, 4, 0x7f, 0x80, 0xa4, 0xa5, 0xfe, 0xff}
		for i := range d {
			for _, v := range bytesVals {
				d[i] = v
				decodeAny(x, s, d)
				if len(good) <= 12 || x.Thorough {
					for j := i + 1; j < len(d) && j < i+9; j++ {
						for _, w := range []byte{0, 1, 2, 0xff} {
							d[j] = w
							decodeAny(x, s, d)
						}
						d[j] = good[j]
					}
				}
			}
			for v := good[i] - 1; v != good[i]+2; v++ {
				d[i] = v
				decodeAny(x, s, d)
			}
			d[i] = good[i]
		}
		x.OutcomeS(s.name + string(good))
	}
}

// shortStrings decodes all short byte strings.
func shortStrings(x *explore.X) {
	f := fieldsAll[x.Choose(len(fieldsAll))]
	s := str(f)
	x.Note("type %s", s.name)
	decodeAny(x, s, nil)
	for a := 0; a < 256; a++ {
		decodeAny(x, s, []byte{byte(a)})
	}
	alpha := []byte{0, 1, 2, 3, 0x80, 0xff}
	max := 4
	if x.Thorough {
		max = 6
		for a := 0; a < 65536; a++ {
			decodeAny(x, s, []byte{byte(a), byte(a >> 8)})
		}
	}
	for l := 2; l <= max; l++ {
		d := make([]byte, l)
		idx := make([]int, l)
		for {
			for i := range d {
				d[i] = alpha[idx[i]]
			}
			decodeAny(x, s, d)
			i := 0
			for ; i < l; i++ {
				if idx[i]++; idx[i] < len(alpha) {
					break
				}
				idx[i] = 0
			}
			if i == l {
				break
			}
		}
	}
	x.OutcomeS(s.name)
}

// ---------------------------------------------------------------- B04

type unsupportedStruct struct {
	A uint8
	B int
}

var badLeaves = []*sch{bad(new(int)), bad(new(uint)), bad(new(float32)), bad(new(float64)), bad(new(complex128)), bad(new(uintptr)),
	bad(new(map[uint8]uint8)), bad(new(chan uint8)), bad(new(func())), bad(new(interface{})), bad(new(selfFail)), bad(new(unsupportedStruct))}

// encodable tells whether the value has a faithful encoding.
func encodable(s *sch, f field, m *mv) bool {
	switch s.kind {
	case kBad:
		return false
	case kString, kSlice:
		n := len(m.b) + len(m.list)
		if f.len == 0 || f.len < 8 && n>>(8*f.len) != 0 {
			return false
		}
	case kPtr:
		if m.null {
			return f.opt
		}
		return encodable(s.elem, f, m.list[0])
	}
	for i, e := range m.list {
		switch s.kind {
		case kStruct:
			if !encodable(s.fields[i].s, s.fields[i], e) {
				return false
			}
		default:
			if !encodable(s.elem, field{}, e) {
				return false
			}
		}
	}
	return true
}

func faithful(x *explore.X, s *sch, m *mv) {
	v := mk(s, m)
	got, err := beserial.Marshal([]byte{1, 2, 3}, v.Interface())
	x.Step()
	if !encodable(s, field{}, m) {
		if err == nil {
			if len(got) > 60 {
				got = got[:60]
			}
			x.Fail("%s: a value that cannot be represented was encoded as %x", s.name, got)
		}
		return
	}
	if err != nil || !bytes.Equal(got[:3], []byte{1, 2, 3}) || !bytes.Equal(got[3:], enc(nil, s, field{}, m)) {
		x.Fail("%s: encoding gives %x, %v; want %x", s.name, got, err, enc(nil, s, field{}, m))
	}
}

// spots puts a field next to good ones.
var spots = []func(f field) field{
	func(f field) field { return field{s: str(f)} },
	func(f field) field { return field{s: str(field{s: sU8}, f)} },
	func(f field) field { return field{s: str(field{s: sStr, len: 1}, f, field{s: ptr(sU16), opt: true})} },
	func(f field) field { return field{s: ptr(str(f))} },
	func(f field) field { return field{s: ptr(str(f)), opt: true} },
	func(f field) field { return field{s: arr(2, str(f))} },
	func(f field) field { return field{s: slc(str(field{s: sU8}, f)), len: 1} },
	func(f field) field { return field{s: slc(ptr(str(f))), len: 2} },
	func(f field) field { return field{s: ptr(ptr(str(f)))} },
	func(f field) field { return field{s: arr(1, ptr(str(f)))} },
}

func faultPositions(x *explore.X) {
	var fs []field
	for _, b := range badLeaves {
		fs = append(fs, field{s: b}, field{s: b, opt: true}, field{s: arr(2, b)}, field{s: slc(b), len: 1}, field{s: ptr(b)}, field{s: ptr(b), opt: true}, field{s: slc(ptr(b)), len: 4})
	}
	// Missing values and missing length tags.
	missing := len(fs)
	for _, s := range []*sch{sU8, sU64, sVar, sSB, sBool, arr(2, sU8), str(field{s: sU8})} {
		fs = append(fs, field{s: ptr(s)}, field{s: ptr(ptr(s))}, field{s: arr(2, ptr(s))}, field{s: slc(ptr(s)), len: 1}, field{s: ptr(s), opt: true})
	}
	untagged := len(fs)
	for _, s := range []*sch{sStr, slc(sU8), slc(sVar), slc(sU16), arr(1, sStr), slc(slc(sU8)), ptr(sStr), ptr(slc(sU8))} {
		fs = append(fs, field{s: s}, field{s: s, opt: true})
	}
	fs = append(fs, field{s: slc(slc(sU8)), len: 1}, field{s: slc(sStr), len: 2}, field{s: arr(2, slc(sU8)), len: 1})
	fi := x.Choose(len(fs))
	f := fs[fi]
	leaf := f
	d := pick(2, 3)(x)
	for i := 0; i < d; i++ {
		f = spots[x.Choose(len(spots))](f)
		if i == 0 && d > 0 && x.Choose(2) == 0 {
			break
		}
	}
	s := str(f)
	x.Note("type %s", s.name)
	vs := values(s, field{}, 30)
	for _, m := range vs {
		if fi >= missing && fi < untagged {
			// Make each pointer of the leaf type nil in turn.
			for k := 0; ; k++ {
				c := k
				n := withNil(s, field{}, m, leaf.s, &c)
				if c >= 0 {
					break
				}
				faithful(x, s, n)
			}
		}
		faithful(x, s, m)
	}
	x.OutcomeS(s.name)
}

// withNil returns a copy of m in which the k-th pointer is nil; *k becomes negative if there is one.
func withNil(s *sch, f field, m *mv, leaf *sch, k *int) *mv {
	if s.kind == kPtr && !m.null {
		*k--
		if *k == -1 {
			return &mv{null: true}
		}
	}
	n := *m
	n.list = nil
	for i, e := range m.list {
		if s.kind == kStruct {
			n.list = append(n.list, withNil(s.fields[i].s, s.fields[i], e, leaf, k))
		} else {
			n.list = append(n.list, withNil(s.elem, field{}, e, leaf, k))
		}
	}
	return &n
}

func overlong(x *explore.X) {
	w := []int{1, 2, 4, 8}[x.Choose(4)]
	ss := []*sch{sStr, sNStr, slc(sU8), slc(sNB), slc(sU16), slc(sBool), slc(sVar), slc(sSB), slc(str(field{s: sU8})), slc(ptr(sU8)), slc(arr(1, sU8))}
	f := field{s: ss[x.Choose(len(ss))], len: w}
	if x.Bool() {
		f = field{s: ptr(f.s), len: w, opt: x.Bool()}
	}
	n := []int{254, 255, 256, 257, 258, 511, 512, 513, 65534, 65535, 65536, 65537, 65791, 65792, 131072, 131073}[x.Choose(16)]
	base := f.s
	if base.kind == kPtr {
		base = base.elem
	}
	m := &mv{}
	if base.kind == kString {
		m.b = bytes.Repeat([]byte{3}, n)
	} else {
		e := values(base.elem, field{}, 1)[0]
		for i := 0; i < n; i++ {
			m.list = append(m.list, e)
		}
	}
	if f.s.kind == kPtr {
		m = &mv{list: []*mv{m}}
	}
	wrapAs := x.Choose(4)
	fs, ms := f, m
	switch wrapAs {
	case 1:
		fs, ms = field{s: str(field{s: sU8}, f, field{s: sU8})}, &mv{list: []*mv{{u: 1}, m, {u: 2}}}
	case 2:
		fs, ms = field{s: ptr(str(f))}, &mv{list: []*mv{{list: []*mv{m}}}}
	case 3:
		fs, ms = field{s: slc(str(f)), len: 1}, &mv{list: []*mv{{list: []*mv{m}}}}
	}
	s := str(fs)
	x.Note("%d elements in %s", n, s.name)
	faithful(x, s, &mv{list: []*mv{ms}})
	x.OutcomeS(fmt.Sprint(s.name, n))
}

// ---------------------------------------------------------------- B05

func misuse(x *explore.X) {
	type st struct{ A, B uint8 }
	b := []byte{1, 2, 3}
	mp := map[uint8]uint8{1: 2}
	var np *uint8
	var npp **uint8
	var nst *st
	var nv *selfVar
	var nval *selfVal
	var nsb *selfByte
	var nbs *[]byte
	var narr *[3]byte
	var ns *string
	var nif *interface{}
	var nm map[uint8]uint8
	var nf func()
	var nc chan int
	var e error
	vs := []interface{}{nil, e, np, npp, nst, nv, nval, nsb, nbs, narr, ns, nif, nm, nf, nc, []byte(nil), b, mp, 1, uint8(1), "x", true, st{1, 2}, [3]byte{1, 2, 3},
		selfVal{1}, selfVar{}, 1.5, func() {}, make(chan int), struct{}{}, []st{{1, 2}}, reflect.ValueOf(b), namedByte(1), selfU16(1), selfByte(3)}
	v := vs[x.Choose(len(vs))]
	datas := [][]byte{nil, {}, {0}, {1, 2, 3, 4, 5, 6, 7, 8}, bytes.Repeat([]byte{1}, 100)}
	data := datas[x.Choose(len(datas))]
	keep := append([]byte{}, data...)
	before := fmt.Sprintf("%T %v", v, v)
	if reflect.ValueOf(v).Kind() == reflect.Func {
		before = "func"
	}
	try := func(name string, f func() error) {
		err := f()
		x.Step()
		x.Check(err != nil, "%s(%x, %s) reports success", name, data, before)
		_ = err.Error()
		after := fmt.Sprintf("%T %v", v, v)
		if before == "func" {
			after = before
		}
		x.Check(bytes.Equal(keep, data) && before == after, "%s(%x, %s) changed something: %s", name, keep, before, after)
	}
	try("Unmarshal", func() error {
		n, err := beserial.Unmarshal(data, v)
		x.Check(n >= 0 && n <= len(data), "Unmarshal reports %d bytes", n)
		return err
	})
	try("UnmarshalFull", func() error { return beserial.UnmarshalFull(data, v) })
	try("Marshal", func() error { _, err := beserial.Marshal(data, v); return err })
	try("Size", func() error { _, err := beserial.Size(v); return err })
	x.OutcomeS(fmt.Sprintf("%d %T", len(data), v))
}

// wrongKinds decodes into, and encodes from, types with a part that the codec does not support.
func wrongKinds(x *explore.X) {
	var fs []field
	for _, b := range badLeaves {
		fs = append(fs, field{s: b}, field{s: b, opt: true}, field{s: arr(2, b)}, field{s: slc(b), len: 1}, field{s: ptr(b)}, field{s: ptr(b), opt: true}, field{s: slc(ptr(b)), len: 4})
	}
	for _, s := range []*sch{sStr, slc(sU8), slc(sVar), slc(sU16), arr(1, sStr), slc(slc(sU8)), ptr(sStr), ptr(slc(sU8))} { // no length tag
		fs = append(fs, field{s: s}, field{s: s, opt: true})
	}
	fs = append(fs, field{s: slc(slc(sU8)), len: 1}, field{s: slc(sStr), len: 2}, field{s: arr(2, slc(sU8)), len: 1})
	f := fs[x.Choose(len(fs))]
	d := x.Choose(pick(3, 4)(x))
	for i := 0; i < d; i++ {
		f = spots[x.Choose(len(spots))](f)
	}
	s := str(f)
	x.Note("type %s", s.name)
	for _, n := range []int{0, 1, 2, 3, 8, 9, 24, 60} {
		for _, b := range []byte{0, 1, 2, 0x7f, 0x80, 0xff} {
			decodeAny(x, s, bytes.Repeat([]byte{b}, n))
			for _, at := range []int{0, 1, 2, 3} { // a count or flag that is set
				if at < n {
					data := bytes.Repeat([]byte{b}, n)
					data[at] ^= 1
					decodeAny(x, s, data)
				}
			}
		}
	}
	for _, m := range values(s, field{}, 30) {
		faithful(x, s, m)
		_, err := beserial.Marshal(nil, mk(s, m).Interface())
		n, serr := beserial.Size(mk(s, m).Interface())
		if !strings.Contains(s.name, "selfFail") { // fails on its own terms
			x.Check((err == nil) == (serr == nil), "%s: Size gives %d, %v but Marshal gives %v", s.name, n, serr, err)
		}
	}
	x.OutcomeS(s.name)
}

// ---------------------------------------------------------------- B06

// typeWeight adds up the memory sizes of a type and everything in it.
func typeWeight(t reflect.Type, depth int) int {
	w := int(t.Size())
	if depth > 8 {
		return w
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice:
		w += typeWeight(t.Elem(), depth+1)
	case reflect.Array:
		w += typeWeight(t.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			w += typeWeight(t.Field(i).Type, depth+1)
		}
	}
	return w
}

func allocated(f func()) int {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int(b.TotalAlloc - a.TotalAlloc)
}

const allocBase = 32 << 10

// decodeMem checks how much memory a decoding takes.
func decodeMem(x *explore.X, name string, weight int, data []byte, f func(data []byte)) {
	limit := allocBase + len(data)*(256+4*weight) + 16*len(name)
	n := allocated(func() { f(data) })
	x.Step()
	if n > limit { // once more: other goroutines allocate too
		if m := allocated(func() { f(data) }); m < n {
			n = m
		}
	}
	if n > limit {
		if len(data) > 100 {
			data = data[:100]
		}
		x.Fail("%s: decoding %x (%d bytes) allocates %d bytes, more than %d", name, data, len(data), n, limit)
	}
}

var hostile = []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xffff, 1 << 16, 1 << 20, 1<<24 - 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 36, 1<<63 - 1, 1 << 63, 1<<64 - 1}

// overwrite calls f with every hostile number in every width at every position of the data.
func overwrite(data []byte, f func(d []byte)) {
	for i := range data {
		for _, w := range []int{1, 2, 4, 8} {
			if i+w > len(data) {
				break
			}
			hs := append([]uint64{}, hostile...)
			hs = append(hs, uint64(len(data)-i-w), uint64(len(data)-i-w+1))
			for _, h := range hs {
				if w < 8 && h>>(8*w) != 0 {
					continue
				}
				d := append([]byte{}, data...)
				var t [8]byte
				binary.BigEndian.PutUint64(t[:], h)
				copy(d[i:], t[8-w:])
				f(d)
			}
		}
	}
}

func hostileShapes(x *explore.X) {
	fs := fieldsTagged
	nested := fieldsCore
	var s *sch
	if c := x.Choose(len(fs) + len(nested)*len(wrappers)); c < len(fs) {
		s = str(fs[c])
	} else {
		c -= len(fs)
		s = str(wrappers[c%len(wrappers)](nested[c/len(wrappers)]))
	}
	x.Note("type %s", s.name)
	w := typeWeight(s.typ, 0)
	v := values(s, field{}, 6)
	if !x.Thorough {
		v = v[:1]
	}
	for _, m := range v {
		data := enc(nil, s, field{}, m)
		if len(data) > 40 {
			data = data[:40]
		}
		overwrite(data, func(d []byte) {
			decodeMem(x, s.name, w, d, func(d []byte) {
				v := reflect.New(s.typ)
				_, _ = beserial.Unmarshal(d, v.Interface())
			})
		})
	}
	// A length and nothing, or little, behind it.
	if len(s.fields) == 1 && s.fields[0].len > 0 {
		for _, h := range hostile {
			for _, rest := range []int{0, 1, 7, 1000} {
				d := append(encLen(nil, s.fields[0].len, int(h)), make([]byte, rest)...)
				decodeMem(x, s.name, w, d, func(d []byte) {
					v := reflect.New(s.typ)
					_, _ = beserial.Unmarshal(d, v.Interface())
				})
			}
		}
	}
	x.OutcomeS(s.name)
}

func init() {
	register(&explore.Check{ID: "B01", Rule: "every shape of the space is built by reflection; its boundary values are encoded and decoded (fresh, into used values, followed by other bytes) and compared with a schema-driven reference encoder",
		Programs: append(shapeCheck(true, roundTrip), extraPrograms(roundTripOf)...)})
	register(&explore.Check{ID: "B03", Rule: "for every shape, damaged encodings and all short strings are decoded; acceptance, value, consumed count and re-encoding are compared with a schema-driven reference parser",
		Programs: append(append(shapeCheck(false, damaged), extraPrograms(damagedLong)...), explore.Program{Name: "strings", Bounds: "each of 876 field types: all strings of up to one (thorough two) bytes, all strings of up to 4 (thorough 6) bytes over 6 values", Body: shortStrings})})
	register(&explore.Check{ID: "B04", Rule: "values with one fault at each position are encoded; an error must come back, and faithful bytes for the values without fault",
		Programs: []explore.Program{
			{Name: "faults", Bounds: "138 faulty fields (unsupported kinds, failing self-encoding types, missing values, missing tags) in 10 surroundings, up to 2 (thorough 3) deep", Body: faultPositions},
			{Name: "lengths", Bounds: "11 kinds of strings and slices x 4 tag widths x 16 lengths around 2^8 and 2^16 x 4 surroundings, direct and behind pointers", Body: overlong},
		}})
	register(&explore.Check{ID: "B05", Rule: "every kind of wrong argument is passed to encoding and decoding with every data; an error must come back and nothing may change; types that the codec does not support must give an error from where the unsupported part is reached",
		Programs: []explore.Program{{Name: "arguments", Bounds: "35 arguments x 5 data", Body: misuse},
			{Name: "kinds", Bounds: "103 fields of unsupported kinds or without a length tag, in up to 2 (thorough 3) of 10 surroundings, decoded from 150 strings, and encoded", Body: wrongKinds}}})
}
