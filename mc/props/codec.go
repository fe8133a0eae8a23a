package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"terorie.dev/nimiq/beserial"
)

// ---------------------------------------------------------------- element types with names and methods

type namedByte uint8
type namedU16 uint16
type namedString string

// selfVar encodes itself as a count and that many flipped bytes.
type selfVar struct{ B []byte }

func (s *selfVar) MarshalBESerial(b []byte) ([]byte, error) {
	b = append(b, byte(len(s.B)))
	for _, c := range s.B {
		b = append(b, c^0x5a)
	}
	return b, nil
}
func (s *selfVar) SizeBESerial() (int, error) { return 1 + len(s.B), nil }
func (s *selfVar) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 1 || len(b) < 1+int(b[0]) || b[0] > 3 {
		return 0, errors.New("bad selfVar")
	}
	s.B = nil
	for _, c := range b[1 : 1+int(b[0])] {
		s.B = append(s.B, c^0x5a)
	}
	return 1 + int(b[0]), nil
}

// selfU16 is a number that encodes itself, in three bytes.
type selfU16 uint16

func (s *selfU16) MarshalBESerial(b []byte) ([]byte, error) {
	return append(b, 0xa5, byte(*s), byte(*s>>8)), nil
}
func (s *selfU16) SizeBESerial() (int, error) { return 3, nil }
func (s *selfU16) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 3 || b[0] != 0xa5 {
		return 0, errors.New("bad selfU16")
	}
	*s = selfU16(b[1]) | selfU16(b[2])<<8
	return 3, nil
}

// selfByte is a byte that encodes itself, in two bytes.
type selfByte uint8

func (s *selfByte) MarshalBESerial(b []byte) ([]byte, error) {
	return append(b, byte(*s), ^byte(*s)), nil
}
func (s *selfByte) SizeBESerial() (int, error) { return 2, nil }
func (s *selfByte) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 2 || b[0] != ^b[1] {
		return 0, errors.New("bad selfByte")
	}
	*s = selfByte(b[0])
	return 2, nil
}

// selfVal has value receivers where it can, and uses the codec itself.
type selfVal struct{ A uint16 }

func (s selfVal) MarshalBESerial(b []byte) ([]byte, error) {
	c := byte(s.A)
	sub, err := beserial.Marshal(nil, &c)
	return append(b, sub...), err
}
func (s selfVal) SizeBESerial() (int, error) { return 1, nil }
func (s *selfVal) UnmarshalBESerial(b []byte) (int, error) {
	var c byte
	n, err := beserial.Unmarshal(b, &c)
	s.A = uint16(c)
	return n, err
}

var errSelf = errors.New("injected error of a self-encoding type")

// selfFail refuses to encode.
type selfFail struct{ A uint8 }

func (s *selfFail) MarshalBESerial(b []byte) ([]byte, error) { return b, errSelf }
func (s *selfFail) SizeBESerial() (int, error)               { return 1, nil }
func (s *selfFail) UnmarshalBESerial(b []byte) (int, error)  { return 0, errSelf }

// ---------------------------------------------------------------- schemas

type skind int

const (
	kNum skind = iota
	kBool
	kSelfVar
	kSelfU16
	kSelfByte
	kSelfVal
	kString
	kArray
	kSlice
	kStruct
	kPtr
	kBad // cannot be encoded
)

// sch describes a type: how it looks in Go and how it has to be encoded.
type sch struct {
	kind   skind
	name   string
	typ    reflect.Type
	bytes  int // numbers: width
	n      int // arrays: length
	elem   *sch
	fields []field
}

// field is a struct field: a type with the options of its struct tag.
type field struct {
	s   *sch
	len int // width of the length tag, 0 if none
	opt bool
}

func num(v interface{}, w int) *sch {
	t := reflect.TypeOf(v)
	return &sch{kind: kNum, name: t.String(), typ: t, bytes: w}
}

var (
	sU8, sU16, sU32, sU64 = num(uint8(0), 1), num(uint16(0), 2), num(uint32(0), 4), num(uint64(0), 8)
	sI8, sI16, sI32, sI64 = num(int8(0), 1), num(int16(0), 2), num(int32(0), 4), num(int64(0), 8)
	sNB, sN16             = num(namedByte(0), 1), num(namedU16(0), 2)
	sBool                 = &sch{kind: kBool, name: "bool", typ: reflect.TypeOf(false)}
	sVar                  = &sch{kind: kSelfVar, name: "selfVar", typ: reflect.TypeOf(selfVar{})}
	sS16                  = &sch{kind: kSelfU16, name: "selfU16", typ: reflect.TypeOf(selfU16(0))}
	sSB                   = &sch{kind: kSelfByte, name: "selfByte", typ: reflect.TypeOf(selfByte(0))}
	sSV                   = &sch{kind: kSelfVal, name: "selfVal", typ: reflect.TypeOf(selfVal{})}
	sStr                  = &sch{kind: kString, name: "string", typ: reflect.TypeOf("")}
	sNStr                 = &sch{kind: kString, name: "namedString", typ: reflect.TypeOf(namedString(""))}
)

func arr(n int, e *sch) *sch {
	return &sch{kind: kArray, name: fmt.Sprintf("[%d]%s", n, e.name), typ: reflect.ArrayOf(n, e.typ), n: n, elem: e}
}
func slc(e *sch) *sch {
	return &sch{kind: kSlice, name: "[]" + e.name, typ: reflect.SliceOf(e.typ), elem: e}
}
func ptr(e *sch) *sch {
	return &sch{kind: kPtr, name: "*" + e.name, typ: reflect.PtrTo(e.typ), elem: e}
}
func bad(v interface{}) *sch {
	t := reflect.TypeOf(v).Elem()
	return &sch{kind: kBad, name: t.String(), typ: t}
}

func (f field) tag() string {
	var l []string
	if f.len > 0 {
		l = append(l, fmt.Sprintf("len_tag=uint%d", f.len*8))
	}
	if f.opt {
		l = append(l, "optional")
	}
	if len(l) == 2 && f.s.name[len(f.s.name)-1]%2 == 0 { // the order must not matter
		l[0], l[1] = l[1], l[0]
	}
	return strings.Join(l, ",")
}

func str(fs ...field) *sch {
	s := &sch{kind: kStruct, fields: fs}
	var names []string
	var rf []reflect.StructField
	for i, f := range fs {
		st := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.s.typ}
		n := f.s.name
		if t := f.tag(); t != "" {
			st.Tag = reflect.StructTag(`beserial:"` + t + `"`)
			n += " `" + t + "`"
		}
		names = append(names, n)
		rf = append(rf, st)
	}
	s.name = "struct{" + strings.Join(names, "; ") + "}"
	s.typ = reflect.StructOf(rf)
	return s
}

// ---------------------------------------------------------------- model values

// mv is a value of some schema.
type mv struct {
	u    uint64
	b    []byte
	list []*mv
	null bool
}

func enc(b []byte, s *sch, f field, m *mv) []byte {
	switch s.kind {
	case kNum:
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], m.u)
		return append(b, t[8-s.bytes:]...)
	case kBool:
		return append(b, byte(m.u))
	case kSelfVar:
		b = append(b, byte(len(m.b)))
		for _, c := range m.b {
			b = append(b, c^0x5a)
		}
		return b
	case kSelfU16:
		return append(b, 0xa5, byte(m.u), byte(m.u>>8))
	case kSelfByte:
		return append(b, byte(m.u), ^byte(m.u))
	case kSelfVal:
		return append(b, byte(m.u))
	case kString:
		return append(encLen(b, f.len, len(m.b)), m.b...)
	case kSlice:
		b = encLen(b, f.len, len(m.list))
		fallthrough
	case kArray:
		for _, e := range m.list {
			b = enc(b, s.elem, field{}, e)
		}
		return b
	case kStruct:
		for i, f := range s.fields {
			b = enc(b, f.s, f, m.list[i])
		}
		return b
	case kPtr:
		if f.opt {
			if m.null {
				return append(b, 0)
			}
			b = append(b, 1)
		}
		return enc(b, s.elem, f, m.list[0])
	}
	panic("enc")
}

func encLen(b []byte, w, n int) []byte {
	var t [8]byte
	binary.BigEndian.PutUint64(t[:], uint64(n))
	return append(b, t[8-w:]...)
}

// parse reads a value the way the format demands.
func parse(b []byte, s *sch, f field) (m *mv, rest []byte, ok bool) {
	m = &mv{}
	switch s.kind {
	case kNum:
		if len(b) < s.bytes {
			return
		}
		for _, c := range b[:s.bytes] {
			m.u = m.u<<8 | uint64(c)
		}
		return m, b[s.bytes:], true
	case kBool:
		if len(b) < 1 || b[0] > 1 {
			return
		}
		m.u = uint64(b[0])
		return m, b[1:], true
	case kSelfVar:
		if len(b) < 1 || b[0] > 3 || len(b) < int(b[0])+1 {
			return
		}
		for _, c := range b[1 : 1+b[0]] {
			m.b = append(m.b, c^0x5a)
		}
		return m, b[1+b[0]:], true
	case kSelfU16:
		if len(b) < 3 || b[0] != 0xa5 {
			return
		}
		m.u = uint64(b[1]) | uint64(b[2])<<8
		return m, b[3:], true
	case kSelfByte:
		if len(b) < 2 || b[0]^b[1] != 255 {
			return
		}
		m.u = uint64(b[0])
		return m, b[2:], true
	case kSelfVal:
		if len(b) < 1 {
			return
		}
		m.u = uint64(b[0])
		return m, b[1:], true
	case kString, kSlice:
		if f.len == 0 || len(b) < f.len {
			return
		}
		var n uint64
		for _, c := range b[:f.len] {
			n = n<<8 | uint64(c)
		}
		b = b[f.len:]
		if n > uint64(len(b)) { // every element takes at least a byte
			return
		}
		if s.kind == kString {
			m.b = append([]byte{}, b[:n]...)
			return m, b[n:], true
		}
		for ; n > 0; n-- {
			var e *mv
			if e, b, ok = parse(b, s.elem, field{}); !ok {
				return
			}
			m.list = append(m.list, e)
		}
		return m, b, true
	case kArray:
		for i := 0; i < s.n; i++ {
			var e *mv
			if e, b, ok = parse(b, s.elem, field{}); !ok {
				return
			}
			m.list = append(m.list, e)
		}
		return m, b, true
	case kStruct:
		for _, f := range s.fields {
			var e *mv
			if e, b, ok = parse(b, f.s, f); !ok {
				return
			}
			m.list = append(m.list, e)
		}
		return m, b, true
	case kPtr:
		if f.opt {
			if len(b) < 1 || b[0] > 1 {
				return
			}
			if b[0] == 0 {
				m.null = true
				return m, b[1:], true
			}
			b = b[1:]
		}
		e, rest, ok := parse(b, s.elem, f)
		m.list = []*mv{e}
		return m, rest, ok
	}
	return
}

// fill stores a model value in a Go value.
func fill(v reflect.Value, s *sch, m *mv) {
	switch s.kind {
	case kNum, kSelfU16, kSelfByte:
		if v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64 {
			sh := 64 - 8*uint(s.bytes)
			v.SetInt(int64(m.u<<sh) >> sh)
		} else {
			v.SetUint(m.u)
		}
	case kBool:
		v.SetBool(m.u == 1)
	case kSelfVar:
		v.Field(0).SetBytes(append([]byte(nil), m.b...))
	case kSelfVal:
		v.Field(0).SetUint(m.u)
	case kString:
		v.SetString(string(m.b))
	case kSlice:
		v.Set(reflect.MakeSlice(s.typ, len(m.list), len(m.list)+1))
		fallthrough
	case kArray:
		for i, e := range m.list {
			fill(v.Index(i), s.elem, e)
		}
	case kStruct:
		for i, f := range s.fields {
			fill(v.Field(i), f.s, m.list[i])
		}
	case kPtr:
		if m.null {
			v.Set(reflect.Zero(s.typ))
			return
		}
		v.Set(reflect.New(s.elem.typ))
		fill(v.Elem(), s.elem, m.list[0])
	}
}

// same compares a Go value with a model value.
func same(v reflect.Value, s *sch, m *mv) bool {
	switch s.kind {
	case kNum, kSelfU16, kSelfByte:
		if v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64 {
			sh := 64 - 8*uint(s.bytes)
			return v.Int() == int64(m.u<<sh)>>sh
		}
		return v.Uint() == m.u
	case kBool:
		return v.Bool() == (m.u == 1)
	case kSelfVar:
		return bytes.Equal(v.Field(0).Bytes(), m.b)
	case kSelfVal:
		return v.Field(0).Uint() == m.u
	case kString:
		return v.String() == string(m.b)
	case kSlice, kArray:
		if v.Len() != len(m.list) {
			return false
		}
		for i, e := range m.list {
			if !same(v.Index(i), s.elem, e) {
				return false
			}
		}
		return true
	case kStruct:
		for i, f := range s.fields {
			if !same(v.Field(i), f.s, m.list[i]) {
				return false
			}
		}
		return true
	case kPtr:
		if m.null || v.IsNil() {
			return m.null == v.IsNil()
		}
		return same(v.Elem(), s.elem, m.list[0])
	}
	panic("same")
}

// values lists boundary values; at most max of them.
func values(s *sch, f field, max int) (out []*mv) {
	switch s.kind {
	case kNum:
		top := ^uint64(0) >> (64 - 8*uint(s.bytes))
		for _, v := range []uint64{0x0123456789abcdef & top, 0, 1, top, top>>1 + 1, top >> 1} {
			out = append(out, &mv{u: v})
		}
	case kBool:
		out = []*mv{{u: 1}, {u: 0}}
	case kSelfVar:
		out = []*mv{{b: []byte{1, 0x5a}}, {}, {b: []byte{0, 1, 255}}}
	case kSelfU16:
		out = []*mv{{u: 0x1234}, {u: 0}, {u: 0xffff}}
	case kSelfByte, kSelfVal:
		out = []*mv{{u: 0x71}, {u: 0}, {u: 0xff}}
	case kString:
		out = []*mv{{b: []byte("a\x00\xff")}, {b: []byte{}}, {b: []byte{1}}, {b: bytes.Repeat([]byte{7}, 255)}, {b: []byte("h\u00e9\u65e5")}}
		if f.len > 1 {
			out = append(out, &mv{b: bytes.Repeat([]byte{8}, 256)})
		}
	case kSlice:
		e := values(s.elem, field{}, 6)
		for _, n := range []int{2, 0, 1, 3} {
			for sh := 0; sh < 2; sh++ {
				m := &mv{}
				for i := 0; i < n; i++ {
					m.list = append(m.list, e[(i+sh*(1+len(e)/2))%len(e)])
				}
				out = append(out, m)
				if n == 0 {
					break
				}
			}
		}
	case kArray:
		e := values(s.elem, field{}, 6)
		for sh := 0; sh < 3; sh++ {
			m := &mv{}
			for i := 0; i < s.n; i++ {
				m.list = append(m.list, e[(i+sh)%len(e)])
			}
			out = append(out, m)
		}
	case kStruct:
		vs := make([][]*mv, len(s.fields))
		total, longest := 1, 1
		for i, f := range s.fields {
			vs[i] = values(f.s, f, max)
			if total <= max {
				total *= len(vs[i])
			}
			if len(vs[i]) > longest {
				longest = len(vs[i])
			}
		}
		if total > max {
			total = longest
			for i := 0; i < total; i++ {
				m := &mv{}
				for j := range vs {
					m.list = append(m.list, vs[j][(i+j*i/2)%len(vs[j])])
				}
				out = append(out, m)
			}
			break
		}
		for i := 0; i < total; i++ {
			m := &mv{}
			k := i
			for j := range vs {
				m.list = append(m.list, vs[j][k%len(vs[j])])
				k /= len(vs[j])
			}
			out = append(out, m)
		}
	case kBad:
		out = []*mv{{}}
	case kPtr:
		for _, e := range values(s.elem, f, max) {
			out = append(out, &mv{list: []*mv{e}})
		}
		if f.opt {
			if len(out) >= max {
				out = out[:max-1]
			}
			out = append(out, &mv{null: true})
		}
	}
	if len(out) > max {
		out = out[:max]
	}
	return
}

// ---------------------------------------------------------------- shapes

var codecLeaves = []*sch{sU8, sU16, sU32, sU64, sI8, sI16, sI32, sI64, sBool, sNB, sN16, sVar, sS16, sSB, sSV}

// plainFields need no length tag.
func plainFields() (out []field) {
	for _, l := range codecLeaves {
		out = append(out, field{s: l}, field{s: arr(2, l)})
	}
	for _, e := range []*sch{sU8, sNB, sSB, sU16, sBool, sVar} {
		out = append(out, field{s: arr(0, e)}, field{s: arr(1, e)}, field{s: arr(3, e)}, field{s: arr(2, arr(2, e))})
	}
	out = append(out, field{s: str()}, field{s: arr(2, ptr(sU16))}, field{s: arr(2, ptr(ptr(sVar)))})
	return
}

// taggedFields are strings and slices.
func taggedFields() (out []field) {
	elems := append([]*sch{}, codecLeaves...)
	elems = append(elems, arr(1, sU8), arr(2, sU8), arr(2, sSB), arr(2, sNB), arr(2, sS16), ptr(sU16), ptr(sVar), ptr(sSB), ptr(arr(2, sU8)), ptr(ptr(sBool)),
		str(field{s: sU8}), str(field{s: sSB}, field{s: sBool}), str(field{s: sStr, len: 1}), str(field{s: ptr(sU16), opt: true}), ptr(str(field{s: slc(sU8), len: 2})))
	for i, w := range []int{1, 2, 4, 8} {
		out = append(out, field{s: sStr, len: w}, field{s: sNStr, len: w})
		for j, e := range elems {
			if i < 2 || j%3 == i%3 || e == sU8 {
				out = append(out, field{s: slc(e), len: w})
			}
		}
	}
	return
}

var (
	fieldsPlain  = plainFields()
	fieldsTagged = taggedFields()
	fieldsFlat   = append(append([]field{}, fieldsPlain...), fieldsTagged...)
	fieldsAll    = func() []field {
		out := append([]field{}, fieldsFlat...)
		for _, f := range fieldsFlat {
			out = append(out, field{s: f.s, len: f.len, opt: true}, // optional without pointer means nothing
				field{s: ptr(f.s), len: f.len}, field{s: ptr(f.s), len: f.len, opt: true}, field{s: ptr(ptr(f.s)), len: f.len},
				field{s: ptr(ptr(f.s)), len: f.len, opt: true}) // a flag for each pointer
		}
		return out
	}()
	// One of each kind, for combinations.
	fieldsCore = []field{{s: sU8}, {s: sU16}, {s: sI32}, {s: sU64}, {s: sBool}, {s: sNB}, {s: sVar}, {s: sS16}, {s: sSB}, {s: arr(3, sU8)}, {s: arr(2, sNB)}, {s: arr(2, sS16)},
		{s: sStr, len: 1}, {s: sStr, len: 2}, {s: slc(sU8), len: 1}, {s: slc(sU8), len: 4}, {s: slc(sU16), len: 2}, {s: slc(sBool), len: 1}, {s: slc(sVar), len: 1},
		{s: slc(sSB), len: 1}, {s: slc(str(field{s: sU8}, field{s: sStr, len: 1})), len: 1}, {s: slc(ptr(sU16)), len: 8},
		{s: ptr(sU16)}, {s: ptr(sU16), opt: true}, {s: ptr(sVar), opt: true}, {s: ptr(sSB), opt: true}, {s: ptr(slc(sU8)), len: 1, opt: true}, {s: ptr(sStr), len: 2, opt: true},
		{s: str(field{s: sU8}, field{s: ptr(sBool), opt: true})}, {s: ptr(str(field{s: slc(sU16), len: 1})), opt: true}}
)

// wrappers put a field one level deeper.
var wrappers = []func(f field) field{
	func(f field) field { return f },
	func(f field) field { return field{s: str(f)} },
	func(f field) field { return field{s: ptr(str(f))} },
	func(f field) field { return field{s: ptr(str(f)), opt: true} },
	func(f field) field { return field{s: arr(2, str(f))} },
	func(f field) field { return field{s: slc(str(field{s: sU8}, f)), len: 1} },
	func(f field) field { return field{s: ptr(slc(str(f, field{s: sU8}))), len: 2, opt: true} },
	func(f field) field { return field{s: ptr(ptr(str(f, field{s: sU16}))), opt: true} },
	func(f field) field { return field{s: arr(2, ptr(ptr(str(f))))} },
}
