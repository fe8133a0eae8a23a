package props

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/policy"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
	"verif/mc/instr"
	"verif/mc/libx"
	"verif/mc/libx/rt"
	"verif/mc/ref"
)

// ---------------------------------------------------------------- operations

// libRun is an operation on objects of its own, ready to run.
type libRun struct {
	run    func()
	result func() string // what it returned, looked at as late as wanted
	args   []interface{} // arguments it must leave alone
	out    func() []interface{}
}

// libOp makes the operation and its objects.
type libOp struct {
	name string
	mk   func() libRun
}

// libGroup makes operations on one shared object that only look at it.
type libGroup struct {
	name string
	mk   func() []libOp
}

const hexDigits = "0123456789abcdef"

// show appends the exported contents of a value.
//
//go:norace
func show(b []byte, v reflect.Value, depth int) []byte {
	if depth > 12 {
		return append(b, "..."...)
	}
	switch v.Kind() {
	case reflect.Invalid:
		return append(b, "nil"...)
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		if v.Kind() == reflect.Interface {
			b = append(append(b, v.Elem().Type().String()...), ':')
		} else {
			switch x := v.Interface().(type) {
			case error:
				return append(b, x.Error()...)
			case *big.Int:
				return append(b, x.String()...)
			}
		}
		return show(b, v.Elem(), depth+1)
	case reflect.Struct:
		switch x := v.Interface().(type) {
		case error:
			return append(b, x.Error()...)
		case big.Int:
			return append(b, x.String()...)
		}
		b = append(b, '{')
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				b = append(show(b, v.Field(i), depth+1), ' ')
			}
		}
		return append(b, '}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return append(b, "nil"...)
		}
		n := v.Len()
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Kind() == reflect.Slice || v.CanAddr() {
				for _, c := range v.Slice(0, n).Bytes() {
					b = append(b, hexDigits[c>>4], hexDigits[c&15])
				}
				return b
			}
			for i := 0; i < n; i++ {
				c := byte(v.Index(i).Uint())
				b = append(b, hexDigits[c>>4], hexDigits[c&15])
			}
			return b
		}
		b = append(b, '[')
		for i := 0; i < n; i++ {
			b = append(show(b, v.Index(i), depth+1), ' ')
		}
		return append(b, ']')
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, string(show(append(show(nil, k, depth+1), ':'), v.MapIndex(k), depth+1)))
		}
		sort.Strings(l)
		return append(append(append(b, '['), strings.Join(l, " ")...), ']')
	case reflect.Func, reflect.Chan:
		return append(b, '-')
	case reflect.String:
		return append(b, v.String()...)
	case reflect.Bool:
		return strconv.AppendBool(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.AppendUint(b, v.Uint(), 10)
	default:
		return append(b, fmt.Sprint(v)...)
	}
}

func shown(vals ...interface{}) string {
	var b []byte
	for i, v := range vals {
		if i > 0 {
			b = append(b, " | "...)
		}
		b = show(b, reflect.ValueOf(v), 0)
	}
	return string(b)
}

// op0 is an operation that returns what f returns.
func op0(name string, mk func() (f func() []interface{}, args []interface{})) libOp {
	return libOp{name, func() libRun {
		f, args := mk()
		var out []interface{}
		return libRun{func() { out = f() }, func() string { return shown(out...) }, args, func() []interface{} { return out }}
	}}
}

// fn is an operation on a freshly made argument.
func fn[T any](name string, mk func() T, f func(T) []interface{}) libOp {
	return op0(name, func() (func() []interface{}, []interface{}) {
		v := mk()
		return func() []interface{} { return f(v) }, []interface{}{v}
	})
}

func vals(v ...interface{}) []interface{} { return v }

// ---------------------------------------------------------------- codec operations

func marshalOp(name string, v func() interface{}) libOp {
	return fn("encode "+name, v, func(v interface{}) []interface{} {
		b, err := beserial.Marshal(nil, v)
		return vals(b, err)
	})
}

func appendOp(name string, v func() interface{}) libOp {
	return fn("append "+name, v, func(v interface{}) []interface{} {
		b, err := beserial.Marshal(append(make([]byte, 0, 4096), 1, 2, 3), v)
		return vals(b, err)
	})
}

func sizeOp(name string, v func() interface{}) libOp {
	return fn("size of "+name, v, func(v interface{}) []interface{} {
		if r := reflect.ValueOf(v); r.Kind() != reflect.Ptr { // Size wants a pointer
			p := reflect.New(r.Type())
			p.Elem().Set(r)
			v = p.Interface()
		}
		n, err := beserial.Size(v)
		return vals(n, err)
	})
}

func unmarshalOp(name string, data []byte, fresh func() interface{}) libOp {
	return fn("decode "+name, func() []byte { return append([]byte(nil), data...) }, func(b []byte) []interface{} {
		v := fresh()
		n, err := beserial.Unmarshal(b, v)
		return vals(n, err, v)
	})
}

func decodeFullOp(name string, data []byte, fresh func() interface{}) libOp {
	return fn("decode strictly "+name, func() []byte { return append([]byte(nil), data...) }, func(b []byte) []interface{} {
		v := fresh()
		err := beserial.UnmarshalFull(b, v)
		return vals(err, v)
	})
}

func marshalMsgOp(name string, m func() wire.Message) libOp {
	return fn("encode message "+name, m, func(m wire.Message) []interface{} {
		b, err := wire.MarshalMessage(m)
		return vals(b, err)
	})
}

func unmarshalMsgOp(name string, typ uint64, data []byte) libOp {
	return fn("decode message "+name, func() []byte { return append([]byte(nil), data...) }, func(b []byte) []interface{} {
		m, err := wire.UnmarshalMessage(typ, b)
		return vals(m, err)
	})
}

// variants builds the value with every pick in turn deviating, and the first value first.
func variants(build func(d *dev, o *out), alts ...int) (devs []dev) {
	d := dev{}
	build(&d, &out{})
	devs = append(devs, dev{})
	for at := 1; at <= d.n; at++ {
		for _, alt := range alts {
			devs = append(devs, dev{at: at, alt: alt})
		}
	}
	return
}

type codecFamily struct {
	name string
	ops  func(d dev, suffix string) []libOp
	devs []dev
}

var codecFamilies = func() (out_ []codecFamily) {
	for i := range wireTypes {
		t := &wireTypes[i]
		build := func(d dev) (interface{}, []byte) {
			var o out
			v := t.build(&d, &o)
			return v, o.b
		}
		out_ = append(out_, codecFamily{t.name, func(d dev, suffix string) []libOp {
			mk := func() interface{} { v, _ := build(d); return v }
			_, b := build(d)
			n := t.name + suffix
			return []libOp{marshalOp(n, mk), unmarshalOp(n, b, t.fresh), sizeOp(n, mk), appendOp(n, mk), decodeFullOp(n+" cut", b[:len(b)-1], t.fresh)}
		}, variants(func(d *dev, o *out) { t.build(d, o) }, 1, 4)})
	}
	for i := range msgKinds {
		k := &msgKinds[i]
		out_ = append(out_, codecFamily{"message " + k.name, func(d dev, suffix string) []libOp {
			mk := func() wire.Message { d := d; return k.build(&d, &out{}) }
			d2 := d
			var o out
			k.build(&d2, &o)
			n := k.name + suffix
			ops := []libOp{marshalMsgOp(n, mk), unmarshalMsgOp(n, k.typ, o.b), sizeOp("message "+n, func() interface{} { return mk() })}
			if len(o.b) > 0 && d.at == 0 {
				ops = append(ops, unmarshalMsgOp(n+" cut", k.typ, o.b[:len(o.b)-1]), unmarshalMsgOp(n+" and a byte", k.typ, append(o.b[:len(o.b):len(o.b)], 0)))
			}
			return ops
		}, variants(func(d *dev, o *out) { k.build(d, o) }, 1)})
	}
	return
}()

func (d dev) label() string {
	if d.at == 0 {
		return ""
	}
	return fmt.Sprintf(" (field %d: %d)", d.at, d.alt)
}

// Types of user programs, not of the library: codecs that look types up in a cache see more than the wire types.
type (
	userA struct {
		A uint16
		B []byte `beserial:"len_tag=uint8"`
	}
	userB struct {
		A uint16
		B []byte `beserial:"len_tag=uint16"`
	}
	userC struct {
		A *uint16 `beserial:"optional"`
		B []uint8 `beserial:"len_tag=uint16"`
	}
)

// userOwn has an encoding of its own that uses the codec.
type userOwn struct{ A byte }

func (o *userOwn) MarshalBESerial(b []byte) ([]byte, error) {
	long := uint64(o.A)
	var rest struct {
		L [20]byte
		S []byte `beserial:"len_tag=uint8"`
	}
	rest.L[3], rest.S = o.A, []byte{o.A}
	b1, err := beserial.Marshal(nil, &long)
	if err != nil {
		return nil, err
	}
	b2, err := beserial.Marshal(nil, &rest)
	return append(append(b, b1...), b2...), err
}

func (o *userOwn) SizeBESerial() (int, error) { return 30, nil }

func (o *userOwn) UnmarshalBESerial(b []byte) (int, error) {
	var long uint64
	n, err := beserial.Unmarshal(b, &long)
	o.A = byte(long)
	return n, err
}

type userHolder struct {
	A uint32
	O userOwn
	P *userOwn  `beserial:"optional"`
	L []userOwn `beserial:"len_tag=uint8"`
}

// Types of the same name.
func sameName() (vs []interface{}) {
	{
		type header struct {
			A uint16
			B uint32
			C []byte `beserial:"len_tag=uint8"`
		}
		vs = append(vs, &header{1, 2, []byte{3}})
	}
	{
		type header struct {
			A uint32
			B uint32
			C []byte `beserial:"len_tag=uint16"`
		}
		vs = append(vs, &header{1, 2, []byte{3}})
	}
	{
		type header struct {
			B uint32
			A *uint16 `beserial:"optional"`
			C string  `beserial:"len_tag=uint8"`
		}
		vs = append(vs, &header{1, nil, "x"})
	}
	{
		type header struct {
			C [][2]uint16 `beserial:"len_tag=uint8"`
			A int32
		}
		vs = append(vs, &header{[][2]uint16{{1, 2}}, -1})
	}
	type BlockHeader struct{ Version, Height uint32 }
	return append(vs, &BlockHeader{1, 2}, &wire.BlockHeader{Version: 1, Height: 2})
}

func userOps() (ops []libOp) {
	one := uint16(1)
	for _, v := range append(sameName(), []interface{}{&userOwn{9}, &userHolder{1, userOwn{2}, &userOwn{3}, []userOwn{{4}, {5}}}, &userA{1, []byte{2, 3}}, &userB{1, []byte{2, 3}}, &userC{&one, []byte{2, 3}}, &userC{nil, nil},
		&struct {
			A uint16
			B []byte `beserial:"len_tag=uint32"`
		}{1, []byte{2, 3}}}...) {
		v := v
		name := fmt.Sprintf("%T %d %s", v, len(ops)/3, shown(v))
		mk := func() interface{} {
			return deepCopy(reflect.ValueOf(v)).Interface()
		}
		ops = append(ops, marshalOp(name, mk), sizeOp(name, mk),
			unmarshalOp(name, []byte{0, 1, 0, 2, 0, 2, 9, 9, 9, 9}, func() interface{} { return reflect.New(reflect.TypeOf(v).Elem()).Interface() }))
	}
	return
}

// largeOps encode and decode messages of several kilobytes.
func largeOps() (ops []libOp) {
	inv := func(n int) func() wire.Message {
		return func() wire.Message {
			m := &wire.InvMessage{MessageType: wire.MessageInv}
			for i := 0; i < n; i++ {
				m.Vectors = append(m.Vectors, wire.InvVector{Type: uint32(i), Hash: distinctHash(i)})
			}
			return m
		}
	}
	big := &wire.Block{Body: &wire.BlockBody{ExtraData: bytes.Repeat([]byte{7}, 255)}}
	for i := 0; i < 40; i++ {
		t := basicTx(pA, pB.addr, uint64(i), 1)
		big.Body.Txs = append(big.Body.Txs, wire.WrapTx{Tx: toWireTx(&t)})
	}
	for _, n := range []int{60, 1000} {
		m := inv(n)
		b, err := wire.MarshalMessage(m())
		if err != nil {
			panic(err)
		}
		ops = append(ops, marshalMsgOp(fmt.Sprintf("inv of %d", n), m), unmarshalMsgOp(fmt.Sprintf("inv of %d", n), wire.MessageInv, b))
	}
	b, err := beserial.Marshal(nil, big)
	if err != nil {
		panic(err)
	}
	return append(ops, marshalOp("large block", func() interface{} { return deepCopy(reflect.ValueOf(big)).Interface() }),
		unmarshalOp("large block", b, func() interface{} { return new(wire.Block) }),
		unmarshalMsgOp("block, large", wire.MessageBlock, b))
}

// deepCopy copies a value with everything it refers to.
func deepCopy(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			c.Set(reflect.New(v.Type().Elem()))
			c.Elem().Set(deepCopy(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			c.Set(deepCopy(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				c.Index(i).Set(deepCopy(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() {
				c.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	}
	return c
}

// scribble overwrites everything a value refers to, as its owner may: buffers up to their capacity, pointed-to values.
// Errors are left alone, which are package variables often.
func scribble(v reflect.Value, seen map[interface{}]bool) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), seen)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if _, ok := v.Interface().(error); ok {
			return
		}
		type at struct {
			p uintptr
			t reflect.Type
		}
		if seen[at{v.Pointer(), v.Type()}] {
			return
		}
		seen[at{v.Pointer(), v.Type()}] = true
		scribble(v.Elem(), seen)
	case reflect.Struct:
		if !v.CanInterface() {
			return
		}
		switch x := v.Interface().(type) {
		case error:
			return
		case big.Int:
			w := x.Bits()
			w = w[:cap(w)]
			for i := range w {
				w[i] = 0x5a5a5a5a
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), seen)
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(0x5a)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if v.CanSet() {
			v.SetUint(0xa5)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(true)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	}
}

// leaves lists parts of a value that can be changed on their own: of every list the first, a middle and the last element.
func leaves(v reflect.Value, seen map[uintptr]bool, out_ *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			leaves(v.Elem(), seen, out_)
		}
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			if n, ok := v.Interface().(*big.Int); ok {
				if len(n.Bits()) > 0 {
					*out_ = append(*out_, reflect.ValueOf(n.Bits()).Index(0))
				}
				return
			}
			seen[v.Pointer()] = true
			leaves(v.Elem(), seen, out_)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				leaves(v.Field(i), seen, out_)
			}
		}
	case reflect.Slice, reflect.Array:
		n := v.Len()
		for i := 0; i < n; i++ {
			if i == 0 || i == n/2 || i == n-1 {
				leaves(v.Index(i), seen, out_)
			}
		}
		if v.Kind() == reflect.Slice && n > 0 && v.CanSet() {
			*out_ = append(*out_, v)
		}
	default:
		if v.CanSet() {
			*out_ = append(*out_, v)
		}
	}
}

// alter changes a part of a value and returns what changes it back.
func alter(v reflect.Value) func() {
	was := reflect.New(v.Type()).Elem()
	was.Set(v)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(v.Uint() ^ 1)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString(v.String() + "~")
	case reflect.Slice: // the last element is left out
		v.Set(v.Slice(0, v.Len()-1))
	}
	return func() { v.Set(was) }
}

// ---------------------------------------------------------------- the other operations

func keysNear() (ks [][32]byte) {
	for _, at := range []int{-1, 0, 7, 15, 19, 20, 31} {
		k := pA.pub
		if at >= 0 {
			k[at] ^= 1
		}
		ks = append(ks, k)
	}
	return
}

func addrsNear() (as [][20]byte) {
	for _, at := range []int{-1, 0, 3, 7, 9, 15, 19} {
		a := pA.addr
		if at >= 0 {
			a[at] ^= 1
		}
		as = append(as, a)
	}
	return append(as, [20]byte{})
}

func addressOps() (ops []libOp) {
	for _, a := range addrsNear() {
		a := a
		ops = append(ops, fn(fmt.Sprintf("address of %x", a), func() *[20]byte { c := a; return &c }, func(a *[20]byte) []interface{} {
			return vals(address.Encode(a))
		}))
	}
	good := userForm(pA.addr)
	for _, s := range []string{good, strings.ReplaceAll(good, " ", ""), userForm([20]byte{}), good[:2] + "00" + good[4:], good + "0", good[:len(good)-1] + "U", strings.ToLower(good), ""} {
		s := s
		ops = append(ops, fn("address "+s, func() string { return s }, func(s string) []interface{} {
			a, err := address.Decode(s)
			return vals(a, err)
		}))
	}
	return
}

func userForm(a ref.Addr) string {
	data := base32(a)
	s := "NQ" + checkDigits(data) + data
	var parts []string
	for i := 0; i < len(s); i += 4 {
		parts = append(parts, s[i:i+4])
	}
	return strings.Join(parts, " ")
}

func identityOps() (ops []libOp) {
	for _, k := range keysNear() {
		k := k
		mk := func() *[32]byte { c := k; return &c }
		ops = append(ops, fn(fmt.Sprintf("address of key %x", k), mk, func(k *[32]byte) []interface{} { return vals(wire.PublicKeyToAddress(k)) }))
		ops = append(ops, fn(fmt.Sprintf("peer id of key %x", k), func() ed25519.PublicKey { return append(ed25519.PublicKey(nil), k[:]...) },
			func(k ed25519.PublicKey) []interface{} { return vals(wire.GetPeerID(k)) }))
		for depth := 0; depth < 3; depth++ {
			depth := depth
			ops = append(ops, fn(fmt.Sprintf("signer of key %x at depth %d", k, depth), func() *wire.SignatureProof { return proofAt(k, depth, 0) },
				func(p *wire.SignatureProof) []interface{} { return vals(p.SignerAddress()) }))
		}
	}
	for v := 1; v < 4; v++ {
		v := v
		ops = append(ops, fn(fmt.Sprintf("signer with path %d", v), func() *wire.SignatureProof { return proofAt(pA.pub, 2, v) },
			func(p *wire.SignatureProof) []interface{} { return vals(p.SignerAddress()) }))
	}
	return
}

func proofAt(k [32]byte, depth, v int) *wire.SignatureProof {
	p := &wire.SignatureProof{PublicKey: k}
	p.MerklePath.Branches = wire.BitSet{Len: uint8(depth)}
	if depth > 0 {
		p.MerklePath.Branches.Bits = []byte{byte(v&1) << 7}
	}
	for i := 0; i < depth; i++ {
		h := distinctHash(i)
		if v >= 2 && i == depth-1 {
			h[31] ^= byte(v)
		}
		p.MerklePath.Hashes = append(p.MerklePath.Hashes, h)
	}
	return p
}

func nibbleOps() (ops []libOp) {
	for _, a := range addrsNear()[:4] {
		a := a
		ops = append(ops, fn(fmt.Sprintf("nibbles of %x", a), func() *[20]byte { c := a; return &c }, func(a *[20]byte) []interface{} {
			n := tree.KeyToNibbles(a)
			m := wire.KeyToNibbles(a)
			return vals([]byte(n), []byte(m), n.ToKey(), n.Compress(), n[:7].Compress(), m[:7].Compress(), n.HexBytes(), n.String(), m.String(),
				[]byte(n.CommonPrefix(n[:5])), n[:5].PrefixOf(n), m[:5].PrefixOf(m))
		}))
	}
	return
}

func numberOps() (ops []libOp) {
	for _, s := range []string{"1", "80", "1000000000000000000000000000000000000000000000000000000000000000", "ffff0000000000000000000000000000000000000000000000000000", "8000000000000000000000000000000000000000000000000000000000000000"} {
		s := s
		mk := func() *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }
		ops = append(ops,
			fn("compact of "+s, mk, func(n *big.Int) []interface{} { return vals(wire.TargetToCompact(*n)) }),
			fn("difficulty "+s, mk, func(n *big.Int) []interface{} {
				t := wire.DifficultyToTarget(*n)
				return vals(&t, wire.DifficultyToCompact(*n))
			}),
			fn("maximum target beside "+s, mk, func(n *big.Int) []interface{} { return vals(policy.BlockTargetMax.String()) }))
	}
	return
}

func supplyOps() (ops []libOp) {
	for _, h := range []uint32{1, 4999, 5000, 10001} {
		h := h
		ops = append(ops, fn(fmt.Sprintf("supply after %d", h), func() uint32 { return h }, func(h uint32) []interface{} { return vals(policy.SupplyAfter(h)) }))
		ops = append(ops, fn(fmt.Sprintf("subsidy of %d", h), func() uint32 { return h }, func(h uint32) []interface{} { return vals(policy.BlockReward(h)) }))
	}
	ops = append(ops, fn("reward by supply", func() uint64 { return 252_000_000_000_000 }, func(s uint64) []interface{} {
		return vals(policy.BlockRewardBySupply(s, 7), policy.SupplyBetween(s, 1, 9))
	}))
	return
}

func treeKeys() [][20]byte {
	return [][20]byte{pA.addr, divergeAt(pA.addr, 39, (pA.addr[19]+1)&15), divergeAt(pA.addr, 5, (pA.addr[2]+3)&15), {}}
}

// treeOps update and look at a tree of their own: with one to three entries, in several orders.
func treeOps(kind int) (ops []libOp) {
	newStore := func() tree.Store {
		switch kind {
		case 0:
			return tree.NewMemStore()
		case 1:
			return &tree.OverlayStore{Lower: tree.NewMemStore()}
		}
		return newCopyStore()
	}
	keys := treeKeys()
	orders := [][]int{{0, 1}, {1, 0}, {0, 2, 1}, {2, 1, 0}, {3, 0}, {0}}
	for _, o := range orders {
		for v := byte(1); v < 3; v++ {
			o, v := o, v
			ops = append(ops, op0(fmt.Sprintf("tree of kind %d, entries %v, value %d", kind, o, v), func() (func() []interface{}, []interface{}) {
				t := tree.PMTree{Store: newStore()}
				var value [][]byte
				for range o {
					value = append(value, bytes.Repeat([]byte{v}, 9))
				}
				return func() (res []interface{}) {
					for i, k := range o {
						key := keys[k]
						value[i][0] = byte(i)
						res = append(res, t.PutEntry(&key, value[i]), t.Hash())
					}
					for _, k := range keys {
						res = append(res, t.GetEntry(&k))
					}
					if len(o) > 2 {
						key := keys[o[1]]
						res = append(res, t.PutEntry(&key, nil), t.GetEntry(&key), t.Hash())
					}
					if ov, ok := t.Store.(*tree.OverlayStore); ok {
						ov.Flush()
						res = append(res, t.Hash(), (&tree.PMTree{Store: ov.Lower}).Hash())
					}
					return
				}, nil
			}))
		}
	}
	return
}

func libLedger(s ref.State) *accounts.Accounts {
	a := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	for _, k := range sortedAddrs(s) {
		acc := s[k]
		a.PutAccount(&k, toWireAcc(&acc))
	}
	return a
}

func libBlocks() (bs []*ref.Block, names []string) {
	s := initialState()
	add := func(name string, b *ref.Block) { bs, names = append(bs, b), append(names, name) }
	add("empty", buildBlock(s, 1, pM.addr))
	add("basic", buildBlock(s, 1, pM.addr, basicTx(pA, pB.addr, 4, 1)))
	add("basic with another value", buildBlock(s, 1, pM.addr, basicTx(pA, pB.addr, 5, 1)))
	add("overspending", buildBlock(s, 1, pM.addr, basicTx(pA, pB.addr, 4, 1), basicTx(pB, pA.addr, 400, 1)))
	add("vesting", buildBlock(s, 20, pA.addr, extTx(aV, 1, pC.addr, 0, 11, 1, sigProof(pA))))
	add("vesting by another", buildBlock(s, 20, pA.addr, extTx(aV, 1, pC.addr, 0, 11, 1, sigProof(pB))))
	add("redeeming", buildBlock(s, 9, pM.addr, extTx(aH, 2, pA.addr, 0, 3, 0, regularProof(3, 1, hashRoot, pA))))
	add("timeout", buildBlock(s, 12, pM.addr, extTx(aH, 2, pA.addr, 0, 8, 1, timeoutProof(pB))))
	add("creating", buildBlock(s, 5, pM.addr, createTx(pA, aN, 1, 5, 1, vestingData(pC.addr, uint32(3)))))
	add("creating an HTLC", buildBlock(s, 5, pM.addr, createTx(pA, aN, 2, 5, 1, htlcData(pA.addr, pC.addr, 3, hashRoot, 2, 99))))
	return
}

func ledgerAfter(a *accounts.Accounts) (res []interface{}) {
	for _, u := range universe {
		ad := u.addr
		res = append(res, a.GetAccount(&ad))
	}
	return append(res, a.Tree.Hash())
}

func ledgerOps() (ops []libOp) {
	bs, names := libBlocks()
	for i := range bs {
		b := bs[i]
		ops = append(ops, op0("apply block "+names[i], func() (func() []interface{}, []interface{}) {
			a := libLedger(initialState())
			wb := toWireBlock(b)
			return func() []interface{} {
				err := a.Push(wb)
				return append(ledgerAfter(a), err)
			}, vals(wb)
		}))
	}
	ops = append(ops, op0("store accounts", func() (func() []interface{}, []interface{}) {
		s := initialState()
		return func() []interface{} { return ledgerAfter(libLedger(s)) }, nil
	}))
	return
}

func accountsOf() []wire.Account {
	s := initialState()
	a, v, h := s[pA.addr], s[aV], s[aH]
	return []wire.Account{toWireAcc(&a), toWireAcc(&v), toWireAcc(&h)}
}

func accountTxs() []ref.Tx {
	return []ref.Tx{basicTx(pA, pB.addr, 4, 1), basicTx(pA, pB.addr, 5, 1), extTx(aV, 1, pC.addr, 0, 2, 1, sigProof(pA)), extTx(aV, 1, pC.addr, 0, 2, 1, sigProof(pB)),
		extTx(aH, 2, pA.addr, 0, 3, 0, regularProof(3, 1, hashRoot, pA)), extTx(aH, 2, pA.addr, 0, 9, 0, earlyProof(pA, pB)),
		basicTx(pA, pB.addr, 1<<40, 1), extTx(aV, 1, pC.addr, 0, 1<<40, 1, sigProof(pA)), extTx(aV, 1, pC.addr, 0, 1<<41, 1, sigProof(pA)), extTx(aH, 2, pA.addr, 0, 1<<40, 1, sigProof(pA)),
		extTx(aV, 1, pC.addr, 0, 2, 1, nil), extTx(aH, 2, pA.addr, 0, 3, 0, nil), extTx(aH, 2, pA.addr, 0, 3, 0, []byte{9}), extTx(aH, 2, pA.addr, 0, 3, 0, []byte{1, 2}),
		extTx(aH, 2, pA.addr, 0, 3, 0, timeoutProof(pB)), extTx(aH, 2, pA.addr, 0, 3, 0, regularProof(3, 1, hashRoot, pB)), extTx(aH, 2, pA.addr, 0, 3, 0, earlyProof(pB, pB))}
}

func contractOps() (ops []libOp) {
	for i := range accountsOf() {
		for j, t := range accountTxs() {
			if i == 1 && !t.Extended || i == 2 && !t.Extended {
				continue
			}
			i, t := i, t
			ops = append(ops, op0(fmt.Sprintf("account %d transaction %d", i, j), func() (func() []interface{}, []interface{}) {
				a, tx := accountsOf()[i], toWireTx(&t)
				return func() []interface{} {
					n1, err1 := a.ApplyOutgoingTx(tx, 10)
					n2, err2 := a.ApplyIncomingTx(tx, 10)
					return vals(n1, err1, n2, err2, a.Balance(), a.Type(), a.IsEmpty())
				}, vals(a, tx)
			}))
		}
	}
	for k, data := range [][]byte{vestingData(pC.addr, uint32(3)), vestingData(pC.addr, uint32(1), uint32(3), uint64(2)), vestingData(pC.addr, uint32(1), uint32(3), uint64(2), uint64(9)), htlcData(pA.addr, pC.addr, 3, hashRoot, 2, 99), {1}} {
		data := data
		typ := byte(1)
		if k >= 3 {
			typ = 2
		}
		ops = append(ops, op0(fmt.Sprintf("contract from data %d", k), func() (func() []interface{}, []interface{}) {
			ref_ := createTx(pA, aN, typ, 5, 1, data)
			tx := toWireTx(&ref_)
			return func() []interface{} {
				var a wire.Account = new(wire.VestingAccount)
				if typ == 2 {
					a = new(wire.HTLCAccount)
				}
				err := a.Init(tx, 7, 5)
				return vals(a, err)
			}, vals(tx)
		}))
	}
	return
}

func txViews(t wire.Tx) []interface{} {
	s, st := t.GetSender()
	r, rt := t.GetRecipient()
	v, f := t.Amount()
	return vals(t.Type(), v, f, *s, st, *r, rt, t.AsExtendedTx(), t.AsTxContent())
}

func txOps() (ops []libOp) {
	for i, t := range accountTxs() {
		t := t
		ops = append(ops, fn(fmt.Sprintf("views of transaction %d", i), func() wire.Tx { return toWireTx(&t) }, txViews))
	}
	return
}

func walletOps() (ops []libOp) {
	for seed := 0; seed < 3; seed++ {
		s := seedOf(seed)
		ops = append(ops,
			fn(fmt.Sprintf("wallet %d", seed), func() []byte { return append([]byte(nil), s...) }, func(s []byte) []interface{} {
				w := wallet.DeriveBasic(s)
				return vals(w.GetAddress(), w.GetPublicKey(), w.GetAddress())
			}),
			op0(fmt.Sprintf("wallet %d signs", seed), func() (func() []interface{}, []interface{}) {
				w := wallet.DeriveBasic(append([]byte(nil), s...))
				rt := basicTx(pA, pB.addr, 4, 1)
				tx := toWireTx(&rt).(*wire.BasicTx)
				copy(tx.SenderPubKey[:], w.PublicKey)
				re := extTx(aV, 1, pC.addr, 0, 2, 1, nil)
				ext := toWireTx(&re).(*wire.ExtendedTx)
				bad := toWireTx(&rt).(*wire.BasicTx)
				return func() []interface{} {
					return vals(w.SignBasicTx(tx), tx, w.SignExtendedTx(ext), ext, w.SignBasicTx(bad), bad)
				}, nil
			}))
	}
	return
}

func signedPeer(seed int, d dev) (*wire.PeerAddress, ed25519.PrivateKey) {
	priv := ed25519.NewKeyFromSeed(seedOf(seed))
	p := bPeer(&d, &out{})
	copy(p.PublicKey[:], priv.Public().(ed25519.PublicKey))
	return &p, priv
}

func peerOps() (ops []libOp) {
	for seed := 0; seed < 2; seed++ {
		for at := 0; at < 4; at++ {
			seed, d := seed, dev{at: at, alt: 1}
			ops = append(ops, op0(fmt.Sprintf("peer %d signs field %d", seed, at), func() (func() []interface{}, []interface{}) {
				p, priv := signedPeer(seed, d)
				return func() []interface{} {
					p.Sign(priv)
					ok := p.VerifySignature()
					q := *p
					q.Timestamp ^= 1
					return vals(ok, p, q.VerifySignature())
				}, vals([]byte(priv))
			}))
		}
	}
	for i := uint8(0); i < 4; i++ {
		i := i
		ops = append(ops, fn(fmt.Sprintf("scheme %d", i), func() uint8 { return i }, func(i uint8) []interface{} {
			return vals(recovered(func() interface{} { return wire.ProtocolScheme(i) }))
		}))
	}
	return
}

func recovered(f func() interface{}) (out interface{}) {
	defer func() {
		if recover() != nil {
			out = "panic"
		}
	}()
	return f()
}

func genesisOps() (ops []libOp) {
	for _, n := range []string{"test", "nothing"} {
		n := n
		ops = append(ops, fn("genesis "+n, func() string { return n }, func(n string) []interface{} {
			p, err := genesis.OpenProfile(n)
			if err != nil {
				return vals("error")
			}
			a := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
			return vals(p.Config, &p.Block, len(p.Accounts), p.InitAccounts(a), a.Tree.Hash(), p.Accounts[:2])
		}))
	}
	return
}

func codecDefaults() (ops []libOp) {
	for _, f := range codecFamilies {
		ops = append(ops, f.ops(dev{}, "")[:2]...)
	}
	return
}

// pickOps takes every step-th operation.
func pickOps(step int, l []libOp) (out []libOp) {
	for i := 0; i < len(l); i += step {
		out = append(out, l[i])
	}
	return
}

// thinned leaves at most n operations of every family.
func thinned(families [][]libOp, n int) (out [][]libOp) {
	for _, ops := range families {
		out = append(out, pickOps((len(ops)+n-1)/n, ops))
	}
	return
}

func joinOps(ls ...[]libOp) (out []libOp) {
	for _, l := range ls {
		out = append(out, l...)
	}
	return
}

// ---------------------------------------------------------------- shared objects

func on(name string, args []interface{}, f func() []interface{}) libOp {
	return op0(name, func() (func() []interface{}, []interface{}) { return f, args })
}

func sharedGroups() (gs []libGroup) {
	for i := range codecFamilies {
		if i >= len(wireTypes) {
			break
		}
		t := &wireTypes[i]
		gs = append(gs, libGroup{t.name, func() []libOp {
			d, o := dev{}, out{}
			v := t.build(&d, &o)
			args := vals(v, o.b)
			return []libOp{
				on("encode", args, func() []interface{} { b, err := beserial.Marshal(nil, v); return vals(b, err) }),
				on("size", args, func() []interface{} { n, err := beserial.Size(v); return vals(n, err) }),
				on("decode", args, func() []interface{} { w := t.fresh(); n, err := beserial.Unmarshal(o.b, w); return vals(n, err, w) }),
			}
		}})
	}
	for i := range msgKinds {
		k := &msgKinds[i]
		gs = append(gs, libGroup{"message " + k.name, func() []libOp {
			d, o := dev{}, out{}
			m := k.build(&d, &o)
			args := vals(m, o.b)
			return []libOp{
				on("encode", args, func() []interface{} { b, err := wire.MarshalMessage(m); return vals(b, err) }),
				on("decode", args, func() []interface{} { m, err := wire.UnmarshalMessage(k.typ, o.b); return vals(m, err) }),
				on("type", args, func() []interface{} { return vals(m.Type()) }),
			}
		}})
	}
	gs = append(gs,
		libGroup{"decoded block", func() []libOp {
			d, o := dev{}, out{}
			bBlock(&d, &o)
			b := new(wire.Block)
			if err := beserial.UnmarshalFull(o.b, b); err != nil {
				panic(err)
			}
			return []libOp{
				on("encode", vals(b), func() []interface{} { b, err := beserial.Marshal(nil, b); return vals(b, err) }),
				on("size", vals(b), func() []interface{} { n, err := beserial.Size(b); return vals(n, err) }),
				on("interlink", vals(b), func() []interface{} { b, err := beserial.Marshal(nil, &b.Interlink); return vals(b, err) }),
				on("views", vals(b), func() (res []interface{}) {
					for _, t := range b.Body.Txs {
						res = append(res, txViews(t.Tx)...)
					}
					return
				}),
			}
		}},
		libGroup{"address", func() []libOp {
			a := pA.addr
			return []libOp{
				on("encode", vals(&a), func() []interface{} { return vals(address.Encode(&a)) }),
				on("nibbles", vals(&a), func() []interface{} { return vals([]byte(tree.KeyToNibbles(&a)), []byte(wire.KeyToNibbles(&a))) }),
			}
		}},
		libGroup{"path", func() []libOp {
			a := pA.addr
			n, m := tree.KeyToNibbles(&a), wire.KeyToNibbles(&a)
			args := vals([]byte(n), []byte(m))
			return []libOp{
				on("compress", args, func() []interface{} { return vals(n.Compress(), m.Compress(), n[:5].Compress(), m[:5].Compress()) }),
				on("print", args, func() []interface{} { return vals(n.String(), m.String(), n.HexBytes(), m.HexBytes()) }),
				on("compare", args, func() []interface{} {
					return vals([]byte(n.CommonPrefix(n[:9])), []byte(m.CommonPrefix(m[:9])), n[:9].PrefixOf(n), m[:9].PrefixOf(m))
				}),
				on("key", args, func() []interface{} { return vals(n.ToKey(), m.ToKey()) }),
			}
		}},
		libGroup{"proof", func() []libOp {
			p := proofAt(pA.pub, 2, 1)
			k := pA.pub
			return []libOp{
				on("signer", vals(p), func() []interface{} { return vals(p.SignerAddress()) }),
				on("root", vals(p), func() []interface{} { return vals(p.MerklePath.ComputeRoot(k[:])) }),
				on("encode", vals(p), func() []interface{} { b, err := beserial.Marshal(nil, p); return vals(b, err) }),
				on("address", vals(&k), func() []interface{} { return vals(wire.PublicKeyToAddress(&k), wire.GetPeerID(k[:])) }),
			}
		}},
		libGroup{"peer address", func() []libOp {
			p, priv := signedPeer(0, dev{})
			p.Sign(priv)
			return []libOp{
				on("verify", vals(p), func() []interface{} { return vals(p.VerifySignature()) }),
				on("encode", vals(p), func() []interface{} { b, err := beserial.Marshal(nil, p); return vals(b, err) }),
				on("sign another with the key", vals([]byte(priv)), func() []interface{} {
					q, _ := signedPeer(0, dev{})
					q.Sign(priv)
					return vals(q)
				}),
			}
		}})
	for i := range accountsOf() {
		i := i
		gs = append(gs, libGroup{fmt.Sprintf("account of type %d", i), func() (ops []libOp) {
			a := accountsOf()[i]
			txs := accountTxs()
			for j := range txs {
				if i > 0 && !txs[j].Extended {
					continue
				}
				tx := toWireTx(&txs[j])
				ops = append(ops, on(fmt.Sprintf("transaction %d", j), vals(a, tx), func() []interface{} {
					n1, err1 := a.ApplyOutgoingTx(tx, 10)
					n2, err2 := a.ApplyIncomingTx(tx, 10)
					return vals(n1, err1, n2, err2)
				}))
			}
			return append(ops,
				on("look", vals(a), func() []interface{} { return vals(a.Balance(), a.Type(), a.IsEmpty(), wire.AccountEq(a, a)) }),
				on("encode", vals(a), func() []interface{} {
					b, err := (&wire.WrapAccount{Account: a}).MarshalBESerial(nil)
					return vals(b, err)
				}))
		}})
	}
	for i, t := range accountTxs() {
		t := t
		gs = append(gs, libGroup{fmt.Sprintf("transaction %d", i), func() []libOp {
			tx := toWireTx(&t)
			return []libOp{
				on("views", vals(tx), func() []interface{} { return txViews(tx) }),
				on("encode", vals(tx), func() []interface{} { b, err := wire.WrapTx{Tx: tx}.MarshalBESerial(nil); return vals(b, err) }),
				on("size", vals(tx), func() []interface{} { n, err := wire.WrapTx{Tx: tx}.SizeBESerial(); return vals(n, err) }),
			}
		}})
	}
	for kind := 0; kind < 3; kind++ {
		kind := kind
		gs = append(gs, libGroup{fmt.Sprintf("wallet (made in way %d)", kind), func() []libOp {
			w := wallet.DeriveBasic(append([]byte(nil), seedOf(0)...))
			switch kind {
			case 1:
				w = &wallet.Basic{PrivateKey: w.PrivateKey, PublicKey: w.PublicKey}
			case 2:
				w.GetAddress()
			}
			sign := func() []interface{} {
				r := basicTx(pA, pB.addr, 4, 1)
				tx := toWireTx(&r).(*wire.BasicTx)
				copy(tx.SenderPubKey[:], w.PublicKey)
				return vals(w.SignBasicTx(tx), tx)
			}
			return []libOp{
				on("address", vals(w), func() []interface{} { return vals(w.GetAddress()) }),
				on("key", vals(w), func() []interface{} { return vals(w.GetPublicKey()) }),
				on("sign", vals(w), sign),
				on("sign extended", vals(w), func() []interface{} {
					r := extTx(aV, 1, pC.addr, 0, 2, 1, nil)
					tx := toWireTx(&r).(*wire.ExtendedTx)
					return vals(w.SignExtendedTx(tx), tx)
				}),
			}
		}})
	}
	for kind := 0; kind < 3; kind++ {
		kind := kind
		gs = append(gs, libGroup{fmt.Sprintf("tree of kind %d", kind), func() (ops []libOp) {
			lower := tree.NewMemStore()
			var store tree.Store = lower
			if kind == 1 {
				store = &tree.OverlayStore{Lower: lower}
			}
			t := &tree.PMTree{Store: store}
			keys := treeKeys()
			for i := range keys[:3] {
				t.PutEntry(&keys[i], []byte{byte(i), 7})
			}
			if kind == 2 {
				store.(*tree.MemStore).GetNode(nil)
				t = &tree.PMTree{Store: &tree.OverlayStore{Lower: lower}}
			}
			root := t.Store.GetNode(nil).(*tree.Branch)
			for i := range keys {
				i := i
				ops = append(ops, on(fmt.Sprintf("look up %d", i), nil, func() []interface{} { return vals(t.GetEntry(&keys[i])) }))
			}
			ops = append(ops,
				on("root", nil, func() []interface{} { return vals(t.Hash()) }),
				on("nodes", nil, func() []interface{} {
					return vals(t.Store.GetNode(nil), t.Store.GetNode(tree.KeyToNibbles(&keys[0])), root.Hash(), []byte(root.GetPrefix()))
				}))
			for v := 0; v < 3; v++ {
				v := v
				ops = append(ops, on(fmt.Sprintf("update %d of an overlay", v), nil, func() []interface{} {
					o := &tree.PMTree{Store: &tree.OverlayStore{Lower: t.Store}}
					k := keys[v+1]
					val := []byte{9, 9}
					if v == 1 {
						val = nil
					}
					return vals(o.PutEntry(&k, val), o.Hash(), o.GetEntry(&k), o.GetEntry(&keys[0]))
				}))
			}
			return
		}})
	}
	gs = append(gs, libGroup{"ledger", func() (ops []libOp) {
		a := libLedger(initialState())
		for i := range universe[:7] {
			i := i
			ops = append(ops, on("account of "+universe[i].name, nil, func() []interface{} {
				ad := universe[i].addr
				return vals(a.GetAccount(&ad))
			}))
		}
		return append(ops, on("root", nil, func() []interface{} { return vals(a.Tree.Hash()) }))
	}})
	bs, names := libBlocks()
	for i := range bs {
		b := bs[i]
		gs = append(gs, libGroup{"block " + names[i], func() (ops []libOp) {
			wb := toWireBlock(b)
			wb.Header.Version = 1
			for k := 0; k < 2; k++ {
				a := libLedger(initialState())
				ops = append(ops, on(fmt.Sprintf("apply to ledger %d", k), vals(wb), func() []interface{} {
					err := a.Push(wb)
					return append(ledgerAfter(a), err)
				}))
			}
			return append(ops, on("encode", vals(wb), func() []interface{} { b, err := beserial.Marshal(nil, wb); return vals(b, err) }))
		}})
	}
	gs = append(gs, libGroup{"number", func() []libOp {
		n := new(big.Int).Lsh(big.NewInt(0xabcdef), 130)
		return []libOp{
			on("compact", vals(n), func() []interface{} { return vals(wire.TargetToCompact(*n)) }),
			on("target", vals(n), func() []interface{} {
				t := wire.DifficultyToTarget(*n)
				return vals(t.String(), wire.DifficultyToCompact(*n))
			}),
			on("maximum", nil, func() []interface{} { return vals(policy.BlockTargetMax.String()) }),
		}
	}}, libGroup{"genesis profile", func() []libOp {
		p, err := genesis.OpenProfile("test")
		if err != nil {
			panic(err)
		}
		p.Accounts = p.Accounts[:3]
		init := func() []interface{} {
			a := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
			err := p.InitAccounts(a)
			return vals(err, a.Tree.Hash())
		}
		return []libOp{on("initialise", vals(p), init), on("initialise again", vals(p), init)}
	}})
	return
}

// ---------------------------------------------------------------- programs

// execute runs the operations of all threads on fresh package state and compares each with what it gives alone.
func (l *library) execute(x *explore.X, threads [][]libOp, warm []libOp, preempt int) {
	var runs [][]libRun
	var before [][]string
	for _, ops := range threads {
		var rs []libRun
		var bs []string
		for _, o := range ops {
			r := o.mk()
			rs = append(rs, r)
			bs = append(bs, shown(r.args...))
		}
		runs = append(runs, rs)
		before = append(before, bs)
	}
	libx.Reset()
	for _, o := range warm {
		r := o.mk()
		r.run()
	}
	var bodies []func()
	for _, rs := range runs {
		rs := rs
		bodies = append(bodies, func() {
			for i := range rs {
				if i > 0 && libx.Coarse {
					rt.Between()
				}
				rs[i].run()
			}
		})
	}
	if len(bodies) == 1 {
		bodies[0]()
		x.Steps(len(runs[0]))
	} else {
		res := rt.Run(bodies, preempt, x.Tracing(), x.Choose)
		for _, s := range res.Trace {
			x.Note("%s", s)
		}
		x.Steps(res.Points)
		x.Check(res.Failure == "", "threads %s: %s", opNames(threads), res.Failure)
	}
	for t := range runs {
		for i, r := range runs[t] {
			got := r.result()
			want := l.alone(threads[t][i])
			x.Check(got == want, "threads %s: %q gives %s instead of %s", opNames(threads), threads[t][i].name, clip(got), clip(want))
			x.Check(shown(r.args...) == before[t][i], "threads %s: the arguments of %q are changed from %s to %s", opNames(threads), threads[t][i].name, clip(before[t][i]), clip(shown(r.args...)))
		}
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func opNames(threads [][]libOp) string {
	var out []string
	for _, ops := range threads {
		var n []string
		for i := 0; i < len(ops); i++ {
			k := 1
			for i+1 < len(ops) && ops[i+1].name == ops[i].name {
				i++
				k++
			}
			if k > 1 {
				n = append(n, fmt.Sprintf("%d times %s", k, ops[i].name))
			} else {
				n = append(n, ops[i].name)
			}
		}
		out = append(out, "["+strings.Join(n, ", ")+"]")
	}
	return strings.Join(out, " ")
}

// scribbling runs two operations of which the caller then reuses what one got and gave, and both once more.
func scribbling(families [][]libOp) func(x *explore.X) {
	l := newLibrary()
	total := 0
	for _, ops := range families {
		total += len(ops)
		for _, o := range ops {
			l.alone(o)
		}
	}
	return func(x *explore.X) {
		c := x.Choose(total)
		var ops []libOp
		for _, ops = range families {
			if c < len(ops) {
				break
			}
			c -= len(ops)
		}
		a, b := ops[c], ops[x.Choose(len(ops))]
		x.Note("%s; %s; what the first one returned and was given is overwritten; both again", a.name, b.name)
		ra, rb := a.mk(), b.mk()
		libx.Reset()
		ra.run()
		rb.run()
		seen := map[interface{}]bool{}
		for _, v := range append(ra.out(), ra.args...) {
			scribble(reflect.ValueOf(v), seen)
		}
		got := rb.result()
		x.Check(got == l.alone(b), "%q gives %s instead of %s once the owner of the results of %q changes those", b.name, clip(got), clip(l.alone(b)), a.name)
		for _, o := range []libOp{b, a} {
			r := o.mk()
			r.run()
			got := r.result()
			x.Check(got == l.alone(o), "%q gives %s instead of %s after the owner of the results of %q changed those", o.name, clip(got), clip(l.alone(o)), a.name)
		}
		x.Steps(5)
		x.OutcomeS(a.name + b.name)
	}
}

func run(o libOp) (res string) {
	defer func() {
		if recover() != nil {
			res = "panic"
		}
	}()
	r := o.mk()
	r.run()
	return r.result()
}

// editing looks at an object, changes a part of it, looks at it again, changes the part back and looks once more.
func editing() func(x *explore.X) {
	groups := sharedGroups()
	type at struct{ g, op, arg, leaf int }
	known := map[at]string{}
	parts := func(o libOp, arg int) (ls []reflect.Value) {
		leaves(reflect.ValueOf(o.mk().args[arg]), map[uintptr]bool{}, &ls)
		return
	}
	return func(x *explore.X) {
		gi := x.Choose(len(groups))
		g := groups[gi]
		libx.Reset()
		ops := g.mk()
		first, second := x.Choose(len(ops)), x.Choose(len(ops))
		if strings.HasPrefix(ops[first].name, "apply") && first == second {
			x.Abort()
		}
		n := len(ops[second].mk().args)
		if n == 0 {
			x.Abort()
		}
		arg := x.Choose(n)
		ls := parts(ops[second], arg)
		if len(ls) == 0 {
			x.Abort()
		}
		leaf := x.Choose(len(ls))
		want := func(leaf int) string {
			k := at{gi, second, arg, leaf}
			w, ok := known[k]
			if !ok {
				libx.Reset()
				ops := g.mk()
				if leaf >= 0 {
					alter(parts(ops[second], arg)[leaf])
				}
				w = run(ops[second])
				known[k] = w
			}
			return w
		}
		changed, original := want(leaf), want(-1)
		libx.Reset()
		ops = g.mk()
		p := parts(ops[second], arg)[leaf]
		x.Note("on %s: %s, part %d of argument %d changes (%s), %s, it changes back, %s", g.name, ops[first].name, leaf, arg, p.Type(), ops[second].name, ops[second].name)
		run(ops[first])
		undo := alter(p)
		got := run(ops[second])
		x.Check(got == changed, "on %s: after %q and a change of part %d (%s), %q gives %s instead of %s", g.name, ops[first].name, leaf, p.Type(), ops[second].name, clip(got), clip(changed))
		if !strings.HasPrefix(ops[second].name, "apply") {
			undo()
			got = run(ops[second])
			x.Check(got == original, "on %s: after %q, a change of part %d (%s), %q and the change back, %q gives %s instead of %s", g.name, ops[first].name, leaf, p.Type(), ops[second].name, ops[second].name, clip(got), clip(original))
		}
		x.Steps(5)
		x.OutcomeS(fmt.Sprint(gi, first, second, arg, leaf))
	}
}

type library struct {
	known map[string]string
	sync  map[string]int
}

func newLibrary() *library { return &library{map[string]string{}, map[string]int{}} }

// alone is what an operation gives on fresh package state.
func (l *library) alone(o libOp) string {
	if s, ok := l.known[o.name]; ok {
		return s
	}
	r := o.mk()
	libx.Reset()
	r.run()
	s := r.result()
	l.known[o.name] = s
	return s
}

// points says how often the operation can be put aside.
func (l *library) points(o libOp) int {
	if n, ok := l.sync[o.name]; ok {
		return n
	}
	r := o.mk()
	libx.Reset()
	n := rt.Run([]func(){r.run}, 0, false, func(int) int { return 0 }).Points - 1
	l.sync[o.name] = n
	return n
}

// plan chooses the preemption bounds of a program: the number the program asks for, or less for threads that synchronise
// so often that there would be too many schedules.
type plan struct {
	most []int // how many points threads with k+1 preemptions have at most
	all  bool
}

// scheduleCount estimates the work for n threads that can be put aside at p points, at most k times.
func scheduleCount(n, p, k int) float64 {
	s, c := 1.0, 1.0
	for i := 1; i <= k && i <= p; i++ {
		c *= float64(p-i+1) / float64(i) * float64(n-1)
		s += c
	}
	for ; n > 1; n-- {
		s *= float64(n)
	}
	return s * (1 + float64(p)/100)
}

// newPlan takes how many combinations of n threads there are with a number of points.
func newPlan(n int, combinations map[int]int, preempt int, budget float64) *plan {
	var ps []int
	for p := range combinations {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	total := 0.0
	for _, p := range ps {
		total += float64(combinations[p]) * scheduleCount(n, p, 0)
	}
	pl := &plan{all: true}
	for k := 0; k < preempt; k++ {
		most := -1
		for _, p := range ps {
			if k > 0 && p > pl.most[k-1] {
				break
			}
			total += float64(combinations[p]) * (scheduleCount(n, p, k+1) - scheduleCount(n, p, k))
			if total > budget && p > 0 {
				break
			}
			most = p
		}
		pl.most = append(pl.most, most)
		pl.all = pl.all && most == ps[len(ps)-1]
	}
	return pl
}

// preempt is the bound for threads with p points.
func (pl *plan) preempt(p int) int {
	k := 0
	for k < len(pl.most) && p <= pl.most[k] {
		k++
	}
	return k
}

func (pl *plan) describe() string {
	if pl.all {
		return ""
	}
	s := ""
	for k, p := range pl.most {
		s += fmt.Sprintf("; %d or more preemptions only for threads with up to %d synchronisation operations", k+1, p)
	}
	return s
}

// combine calls f for every choice of n of the operations, with their points.
func combine(n int, points []int, once func(i int) bool, f func(p int)) {
	var rec func(n, min, p int)
	rec = func(n, min, p int) {
		if n == 0 {
			f(p)
			return
		}
		for i := min; i < len(points); i++ {
			next := i
			if once(i) {
				next++
			}
			rec(n-1, next, p+points[i])
		}
	}
	rec(n, 0, 0)
}

// budget is about the number of executions a program of C01 may take.
func budget(x *explore.X) float64 {
	if x.Thorough {
		return 5e6
	}
	return 1e6
}

// separate runs threads with operations on objects of their own.
func separate(nThreads, each int, families [][]libOp, preempt func(x *explore.X) int, warm bool) func(x *explore.X) {
	l := newLibrary()
	for _, ops := range families {
		for _, o := range ops {
			l.alone(o)
		}
	}
	var pl *plan
	return func(x *explore.X) {
		if pl == nil {
			counts := map[int]int{}
			for _, ops := range families {
				points := []int{0}
				for i := 0; i < each; i++ {
					var ps []int
					for _, o := range ops {
						for _, p := range points {
							ps = append(ps, p+l.points(o))
						}
					}
					points = ps
				}
				combine(nThreads, points, func(int) bool { return false }, func(p int) { counts[p]++ })
				if warm {
					combine(nThreads, points, func(int) bool { return false }, func(p int) { counts[p]++ })
				}
			}
			pl = newPlan(nThreads, counts, preempt(x), budget(x))
			x.Describe(pl.describe())
		}
		ops := families[0]
		if len(families) > 1 {
			ops = families[x.Choose(len(families))]
		}
		n := 1
		for i := 0; i < each; i++ {
			n *= len(ops)
		}
		min := 0
		var threads [][]libOp
		for t := 0; t < nThreads; t++ {
			c := min + x.Choose(n-min)
			min = c
			var th []libOp
			for i := 0; i < each; i++ {
				th = append(th, ops[c%len(ops)])
				c /= len(ops)
			}
			threads = append(threads, th)
		}
		var w []libOp
		if warm && x.Bool() {
			for _, th := range threads {
				w = append(w, th...)
			}
		}
		x.Note("threads %s, %d operations before", opNames(threads), len(w))
		total := 0
		for _, th := range threads {
			for _, o := range th {
				total += l.points(o)
			}
		}
		l.execute(x, threads, w, pl.preempt(total))
		x.OutcomeS(opNames(threads))
	}
}

// sharing runs threads with operations on one object.
func sharing(nThreads int, preempt func(x *explore.X) int) func(x *explore.X) {
	groups := sharedGroups()
	known := make([]*library, len(groups))
	for i, g := range groups {
		known[i] = newLibrary()
		n := len(g.mk())
		for k := 0; k < n; k++ {
			known[i].alone(g.mk()[k])
		}
	}
	var pl *plan
	return func(x *explore.X) {
		if pl == nil {
			counts := map[int]int{}
			for gi, g := range groups {
				var points []int
				ops := g.mk()
				for i := range ops {
					points = append(points, known[gi].points(g.mk()[i]))
				}
				combine(nThreads, points, func(i int) bool { return strings.HasPrefix(ops[i].name, "apply") }, func(p int) { counts[p]++ })
			}
			pl = newPlan(nThreads, counts, preempt(x), budget(x))
			x.Describe(pl.describe())
		}
		gi := x.Choose(len(groups))
		g := groups[gi]
		libx.Reset()
		ops := g.mk()
		min := 0
		var threads [][]libOp
		for t := 0; t < nThreads; t++ {
			c := min + x.Choose(len(ops)-min)
			if threads = append(threads, ops[c:c+1]); !strings.HasPrefix(ops[c].name, "apply") {
				min = c
			} else {
				min = c + 1 // ledgers are not shared
				if min == len(ops) {
					x.Abort()
				}
			}
		}
		x.Note("shared %s, threads %s", g.name, opNames(threads))
		total := 0
		for _, th := range threads {
			total += known[gi].points(th[0])
		}
		known[gi].execute(x, threads, nil, pl.preempt(total))
		x.OutcomeS(g.name + opNames(threads))
	}
}

// repeating runs one operation many times and then others.
func repeating(families [][]libOp, after []libOp, times func(x *explore.X) int) func(x *explore.X) {
	l := newLibrary()
	var all []libOp
	for _, ops := range append(families, after) {
		all = append(all, ops...)
		for _, o := range ops {
			l.alone(o)
		}
	}
	return func(x *explore.X) {
		o := all[x.Choose(len(all))]
		var seq []libOp
		for i := times(x); i > 0; i-- {
			seq = append(seq, o)
		}
		seq = append(seq, after...)
		x.Note("%d times %s, then %d others", len(seq)-len(after), o.name, len(after))
		l.execute(x, [][]libOp{seq}, nil, 0)
		x.OutcomeS(o.name)
	}
}

// looking runs operations that only look at one object one after the other.
func looking(depth func(x *explore.X) int) func(x *explore.X) {
	groups := sharedGroups()
	known := make([]*library, len(groups))
	for i, g := range groups {
		known[i] = newLibrary()
		n := len(g.mk())
		for k := 0; k < n; k++ {
			known[i].alone(g.mk()[k])
		}
	}
	return func(x *explore.X) {
		gi := x.Choose(len(groups))
		libx.Reset()
		ops := groups[gi].mk()
		var seq []libOp
		used := map[int]bool{}
		for i := depth(x); i > 0; i-- {
			c := x.Choose(len(ops))
			if strings.HasPrefix(ops[c].name, "apply") && used[c] {
				x.Abort() // that ledger is past the block
			}
			used[c] = true
			seq = append(seq, ops[c])
		}
		x.Note("on %s: %s", groups[gi].name, opNames([][]libOp{seq}))
		known[gi].execute(x, [][]libOp{seq}, nil, 0)
		x.OutcomeS(groups[gi].name + opNames([][]libOp{seq}))
	}
}

// sequences runs operations one after the other.
func sequences(families [][]libOp, depth func(x *explore.X) int) func(x *explore.X) {
	l := newLibrary()
	total := 0
	for _, ops := range families {
		total += len(ops)
		for _, o := range ops {
			l.alone(o)
		}
	}
	return func(x *explore.X) {
		c := x.Choose(total)
		var ops []libOp
		for _, ops = range families {
			if c < len(ops) {
				break
			}
			c -= len(ops)
		}
		seq := []libOp{ops[c]}
		for i := depth(x); i > 1; i-- {
			seq = append(seq, ops[x.Choose(len(ops))])
		}
		x.Note("%s", opNames([][]libOp{seq}))
		l.execute(x, [][]libOp{seq}, nil, 0)
		x.OutcomeS(opNames([][]libOp{seq}))
	}
}

// The helper process "genlibrary DIR" writes the overlay of the library to DIR.
func init() {
	children["genlibrary"] = func(args []string) int {
		root := filepath.Join(os.Getenv("MC_ROOT"), "mc")
		if err := instr.LibraryOverlay(root, "/repo", args[0], len(args) > 1); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 1
		}
		return 0
	}
}

func init() {
	if !libx.Linked {
		missing := []explore.Program{{Name: "missing", Bounds: "none", Body: func(x *explore.X) { panic("the library is not linked with its overlay; use check.sh") }}}
		register(&explore.Check{ID: "C01", Programs: missing})
		register(&explore.Check{ID: "C02", Programs: missing})
		return
	}
	lazy := func(mk func() func(x *explore.X)) func(x *explore.X) {
		var body func(x *explore.X)
		return func(x *explore.X) {
			if body == nil {
				body = mk()
			}
			body(x)
		}
	}
	tiers := func(quick, thorough func() func(x *explore.X)) func(x *explore.X) {
		q, t := lazy(quick), lazy(thorough)
		return func(x *explore.X) {
			if x.Thorough {
				t(x)
			} else {
				q(x)
			}
		}
	}
	all := func() []libOp {
		return joinOps(codecDefaults(), largeOps(), userOps(), addressOps(), identityOps(), nibbleOps(), numberOps(), supplyOps(), treeOps(0), pickOps(3, treeOps(1)), pickOps(4, treeOps(2)), ledgerOps(), pickOps(2, contractOps()), txOps(), walletOps(), pickOps(2, peerOps()))
	}
	some := func() []libOp {
		return joinOps(pickOps(9, codecDefaults()), largeOps()[1:2], pickOps(4, userOps()), pickOps(5, addressOps()), pickOps(12, identityOps()), nibbleOps()[:1], numberOps()[:2], pickOps(4, supplyOps()), pickOps(6, treeOps(0)), pickOps(7, treeOps(1)), pickOps(4, ledgerOps()), pickOps(7, contractOps()), txOps()[:1], walletOps()[:2], peerOps()[:1])
	}
	more := func() []libOp { return joinOps(pickOps(3, all()), some()[1:3]) }
	few := func() []libOp {
		return joinOps(pickOps(25, codecDefaults()), userOps()[:1], addressOps()[:1], addressOps()[8:9], identityOps()[:1], supplyOps()[2:3], treeOps(0)[2:3], ledgerOps()[1:2], walletOps()[1:2])
	}
	var kinds [][]libOp
	families := func() [][]libOp {
		if kinds != nil {
			return kinds
		}
		for _, f := range codecFamilies {
			var ops []libOp
			for _, d := range f.devs {
				ops = append(ops, f.ops(d, d.label())...)
			}
			kinds = append(kinds, ops)
		}
		kinds = append(kinds, largeOps(), userOps(), addressOps(), identityOps(), nibbleOps(), numberOps(), supplyOps(), joinOps(treeOps(0), treeOps(1), treeOps(2)), ledgerOps(), contractOps(), txOps(), walletOps(), peerOps(), genesisOps())
		return kinds
	}
	if os.Getenv("MC_VERBOSE") != "" && os.Getenv("MC_PART") == "" {
		fmt.Fprintln(os.Stderr, "operations:", len(all()), len(more()), len(some()), len(few()), "objects:", len(sharedGroups()), "coarse:", libx.Coarse)
	}
	register(&explore.Check{ID: "C01", Processes: true, Rule: "threads run on the library as it is, except that sync and sync/atomic are replaced by a controlled scheduler; every schedule within the bound is executed on package state that is initialised again; Go's race detector, which sees the modelled synchronisation and none of the scheduler's, decides on data races in the library and everything it calls; results are compared with those of the operation alone",
		Programs: []explore.Program{
			{Name: "shared", Serial: true, Bounds: "every two (thorough three) read-only operations on one shared object of 83 kinds; up to 2 (thorough 4) preemptions", Body: tiers(func() func(x *explore.X) { return sharing(2, pick(2, 4)) }, func() func(x *explore.X) { return sharing(3, pick(2, 4)) })},
			{Name: "separate", Serial: true, Bounds: "every two of 290 operations on objects of their own, on fresh and warm package state; up to 2 (thorough 4) preemptions", Body: lazy(func() func(x *explore.X) { return separate(2, 1, [][]libOp{all()}, pick(2, 4), true) })},
			{Name: "kinds", Serial: true, Bounds: "per message, wire type and function: every two of up to 40 (thorough 80) operations on values that differ in one field; up to 2 (thorough 3) preemptions", Body: tiers(func() func(x *explore.X) { return separate(2, 1, thinned(families(), 40), pick(2, 3), false) }, func() func(x *explore.X) { return separate(2, 1, thinned(families(), 80), pick(2, 3), false) })},
			{Name: "three", Serial: true, Bounds: "every three of 53 (thorough 99) operations on objects of their own; up to 2 (thorough 3) preemptions", Body: tiers(func() func(x *explore.X) { return separate(3, 1, [][]libOp{some()}, pick(2, 3), false) }, func() func(x *explore.X) { return separate(3, 1, [][]libOp{more()}, pick(2, 3), false) })},
			{Name: "twice", Serial: true, Bounds: "two threads with two of 12 operations each; up to 2 (thorough 3) preemptions", Body: lazy(func() func(x *explore.X) { return separate(2, 2, [][]libOp{few()}, pick(2, 3), false) })},
		}})
	register(&explore.Check{ID: "C02", Processes: true, Rule: "sequences of operations on objects of their own run on package state that is initialised again; every result, looked at after the last operation, is compared with what the operation gives alone, and the arguments with what they were",
		Programs: []explore.Program{
			{Name: "kinds", Serial: true, Bounds: "per message, wire type and function: every two operations (encode, append, size, decode, decode a truncated form) on values that differ in one field", Body: lazy(func() func(x *explore.X) { return sequences(families(), pick(2, 2)) })},
			{Name: "kinds-three", Serial: true, ThoroughOnly: true, Bounds: "likewise every three, of up to 60 operations per kind", Body: lazy(func() func(x *explore.X) {
				return sequences(thinned(families(), 60), pick(3, 3))
			})},
			{Name: "mixed", Serial: true, Bounds: "every two of 290 operations", Body: lazy(func() func(x *explore.X) { return sequences([][]libOp{all()}, pick(2, 2)) })},
			{Name: "repeats", Serial: true, ExecLimit: 5 * time.Minute, Bounds: "every operation 1100 (thorough 5000) times, followed by 53 others", Body: lazy(func() func(x *explore.X) {
				return repeating(thinned(families(), 40), some(), pick(1100, 5000))
			})},
			{Name: "overwritten", Serial: true, Bounds: "every two of 290 operations, and every two per message, wire type and function on up to 30 (thorough 60) values that differ in one field; the caller overwrites all it got from and gave to the first one, looks at what the second one returned, and runs both again", Body: tiers(func() func(x *explore.X) { return scribbling(append(thinned(families(), 30), all())) }, func() func(x *explore.X) { return scribbling(append(thinned(families(), 60), all())) })},
			{Name: "edited", Serial: true, Bounds: "every two operations that look at one shared object of 83 kinds, every part of the object (of lists the first, a middle and the last element, and the length) changed in between and changed back", Body: lazy(editing)},
			{Name: "looking", Serial: true, Bounds: "every three (thorough five) operations that look at one shared object of 83 kinds", Body: lazy(func() func(x *explore.X) { return looking(pick(3, 5)) })},
			{Name: "three", Serial: true, Bounds: "every three of 99 operations (thorough: of 290)", Body: tiers(func() func(x *explore.X) { return sequences([][]libOp{more()}, pick(3, 3)) }, func() func(x *explore.X) { return sequences([][]libOp{all()}, pick(3, 3)) })},
			{Name: "four", Serial: true, Bounds: "every four of 12 operations (thorough: of 53)", Body: tiers(func() func(x *explore.X) { return sequences([][]libOp{few()}, pick(4, 4)) }, func() func(x *explore.X) { return sequences([][]libOp{some()}, pick(4, 4)) })},
		}})
}
