package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"reflect"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
	"verif/mc/ref"
)

// ---------------------------------------------------------------- building values and their bytes side by side

// dev picks field values: at most left of them deviate from the first alternative.
type dev struct {
	x    *explore.X
	left int
	// without x: the at-th pick (from 1) takes alternative alt, or the last one
	at, alt, n int
	wide       *wideSite
}

func (d *dev) pick(n int) int {
	if d.x == nil {
		d.n++
		if d.n != d.at {
			return 0
		}
		if d.alt >= n {
			return n - 1
		}
		return d.alt
	}
	if d.left == 0 || n < 2 {
		return 0
	}
	c := d.x.Choose(n)
	if c != 0 {
		d.left--
	}
	return c
}

// kind is a byte that decides about what follows.
func (d *dev) kind(alts ...uint8) uint8 { return alts[d.pick(len(alts))] }

func (d *dev) u8(alts ...uint8) uint8 {
	if c := d.wider(256); c >= 0 {
		return uint8(c)
	}
	if alts == nil {
		alts = []uint8{0x31, 0, 1, 0x7f, 0x80, 0xff}
	}
	return alts[d.pick(len(alts))]
}
func (d *dev) u16() uint16 {
	if c := d.wider(wideNumbers(2)); c >= 0 {
		return uint16(wideNumber(2, c, 0x1234))
	}
	return []uint16{0x1234, 0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff}[d.pick(8)]
}
func (d *dev) u32() uint32 {
	if c := d.wider(wideNumbers(4)); c >= 0 {
		return uint32(wideNumber(4, c, 0x12345678))
	}
	return []uint32{0x12345678, 0, 1, 0xff, 0x100, 0xffff, 0x10000, 1<<31 - 1, 1 << 31, 1<<32 - 1}[d.pick(10)]
}
func (d *dev) u64() uint64 {
	if c := d.wider(wideNumbers(8)); c >= 0 {
		return uint64(wideNumber(8, c, 0x0123456789abcdef))
	}
	return []uint64{0x0123456789abcdef, 0, 1, 0xff, 0x100, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[d.pick(10)]
}
func (d *dev) bytes(b []byte) {
	if d.wideFix(b) {
		return
	}
	switch d.pick(5) {
	case 0:
		for i := range b {
			b[i] = byte(i*7 + 3)
		}
	case 1: // zero
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		b[0] = 0x80
	case 4:
		b[len(b)-1] = 1
	}
}
func (d *dev) h32() (h [32]byte) { d.bytes(h[:]); return }
func (d *dev) h20() (h [20]byte) { d.bytes(h[:]); return }
func (d *dev) h64() (h [64]byte) { d.bytes(h[:]); return }

// blob is a byte string of one of the lengths, the first being the default.
func (d *dev) blob(lens ...int) []byte {
	max := 0
	for _, l := range lens {
		if l > max {
			max = l
		}
	}
	if max > 600 {
		max = 600
	}
	if b, ok := d.wideBlob(lens[0], max); ok {
		return b
	}
	n := lens[d.pick(len(lens))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*5 + 1)
	}
	if n > 0 {
		switch d.pick(5) {
		case 1: // all zero
			for i := range b {
				b[i] = 0
			}
		case 2: // zeros around
			b[0], b[n-1] = 0, 0
		case 3: // spaces around, as text might be trimmed
			b[0], b[n-1] = ' ', '\n'
		case 4:
			for i := range b {
				b[i] = 0xff
			}
		}
	}
	return b
}

type out struct{ b []byte }

func (o *out) u8(v uint8)   { o.b = append(o.b, v) }
func (o *out) u16(v uint16) { o.b = binary.BigEndian.AppendUint16(o.b, v) }
func (o *out) u32(v uint32) { o.b = binary.BigEndian.AppendUint32(o.b, v) }
func (o *out) u64(v uint64) { o.b = binary.BigEndian.AppendUint64(o.b, v) }
func (o *out) raw(b []byte) { o.b = append(o.b, b...) }

// ---------------------------------------------------------------- grammars: what is acceptable, independent of the code

// gram takes a value off the front of b.
type gram func(b []byte) ([]byte, bool)

func gFix(n int) gram {
	return func(b []byte) ([]byte, bool) {
		if len(b) < n {
			return nil, false
		}
		return b[n:], true
	}
}
func gSeq(gs ...gram) gram {
	return func(b []byte) ([]byte, bool) {
		ok := true
		for _, g := range gs {
			if b, ok = g(b); !ok {
				return nil, false
			}
		}
		return b, true
	}
}
func gList(w int, e gram) gram {
	return func(b []byte) ([]byte, bool) {
		if len(b) < w {
			return nil, false
		}
		n := 0
		for _, c := range b[:w] {
			n = n<<8 | int(c)
		}
		b = b[w:]
		ok := true
		for ; n > 0; n-- {
			if b, ok = e(b); !ok {
				return nil, false
			}
		}
		return b, true
	}
}
func gOpt(e gram) gram {
	return func(b []byte) ([]byte, bool) {
		if len(b) < 1 || b[0] > 1 {
			return nil, false
		}
		if b[0] == 0 {
			return b[1:], true
		}
		return e(b[1:])
	}
}
func gBool(b []byte) ([]byte, bool) {
	if len(b) < 1 || b[0] > 1 {
		return nil, false
	}
	return b[1:], true
}
func gSwitch(cases map[byte]gram) gram {
	return func(b []byte) ([]byte, bool) {
		if len(b) < 1 || cases[b[0]] == nil {
			return nil, false
		}
		return cases[b[0]](b[1:])
	}
}
func gBits(b []byte) ([]byte, bool) {
	if len(b) < 1 {
		return nil, false
	}
	return gFix((int(b[0]) + 7) / 8)(b[1:])
}
func gMerkle(b []byte) ([]byte, bool) {
	r, ok := gBits(b)
	if !ok {
		return nil, false
	}
	return gFix(32 * int(b[0]))(r)
}
func gInterlink(b []byte) ([]byte, bool) {
	r, ok := gBits(b)
	if !ok {
		return nil, false
	}
	n := 0
	for i := 0; i < int(b[0]); i++ {
		if b[1+i/8]>>(7-i%8)&1 == 0 {
			n++
		}
	}
	return gFix(32 * n)(r)
}

var (
	gByte     = gFix(1)
	gHash     = gFix(33)
	gHeader   = gFix(2 + 4*32 + 16)
	gBasicTx  = gFix(32 + 20 + 8 + 8 + 4 + 1 + 64)
	gContent  = gSeq(gList(2, gByte), gFix(20+1+20+1+8+8+4+1+1))
	gExtTx    = gSeq(gContent, gList(2, gByte))
	gTx       = gSwitch(map[byte]gram{0: gBasicTx, 1: gExtTx})
	gBasicAcc = gFix(8)
	gVesting  = gFix(8 + 20 + 4 + 4 + 8 + 8)
	gHTLC     = gFix(8 + 20 + 20 + 33 + 1 + 4 + 8)
	gAcc      = gSwitch(map[byte]gram{0: gBasicAcc, 1: gVesting, 2: gHTLC})
	gPruned   = gSeq(gFix(20), gAcc)
	gBody     = gSeq(gFix(20), gList(1, gByte), gList(2, gTx), gList(2, gPruned))
	gBlock    = gSeq(gHeader, gInterlink, gOpt(gBody))
	gProof    = gSeq(gFix(32), gMerkle, gFix(64))
	gNet      = gSwitch(map[byte]gram{0: gFix(4), 1: gFix(16), 2: gFix(0), 3: gFix(0)})
	gPeerHead = gSeq(gFix(1+4+8), gNet, gFix(32+1+64))
	gSrv      = gSeq(gList(1, gByte), gFix(2), gBool)
	gInv      = gList(2, gFix(36))
	gStaking  = gSeq(gFix(96), gOpt(gFix(20)), gFix(48))
)

func gPeer(b []byte) ([]byte, bool) {
	if len(b) < 1 {
		return nil, false
	}
	switch b[0] {
	case 0:
		return gPeerHead(b)
	case 1, 4:
		return gSeq(gPeerHead, gSrv)(b)
	}
	return nil, false
}

// ---------------------------------------------------------------- builders

func bPeerHead(d *dev, o *out) (h wire.PeerAddressHeader) {
	h.Protocol = d.kind(1, 0, 4)
	o.u8(h.Protocol)
	h.Services = d.u32()
	o.u32(h.Services)
	h.Timestamp = d.u64()
	o.u64(h.Timestamp)
	h.NetAddress = bNet(d, o)
	h.PublicKey = d.h32()
	o.raw(h.PublicKey[:])
	h.Distance = d.u8()
	o.u8(h.Distance)
	h.Signature = d.h64()
	o.raw(h.Signature[:])
	return
}

func bNet(d *dev, o *out) (n wire.NetAddress) {
	if n, ok := d.wideNet(o); ok {
		return n
	}
	switch d.pick(9) {
	case 0:
		n.Type, n.IP = 0, net.IP{1, 2, 3, 4}
		o.raw([]byte{0, 1, 2, 3, 4})
	case 1: // the form that net.ParseIP returns
		n.Type, n.IP = 0, net.ParseIP("254.253.0.7")
		o.raw([]byte{0, 254, 253, 0, 7})
	case 2:
		n.Type, n.IP = 0, net.IP{0, 0, 0, 0}
		o.raw([]byte{0, 0, 0, 0, 0})
	case 3:
		n.Type, n.IP = 1, net.ParseIP("2001:db8::ff00:42:8329")
		o.raw(append([]byte{1}, n.IP...))
	case 4:
		n.Type, n.IP = 1, net.IP(make([]byte, 16))
		o.raw(make([]byte, 17))
		o.b[len(o.b)-17] = 1
	case 5: // an IPv4 address inside IPv6 stays IPv6
		n.Type, n.IP = 1, net.ParseIP("10.0.0.1").To16()
		o.raw(append([]byte{1}, n.IP...))
	case 6:
		n.Type = 2
		o.u8(2)
	case 7:
		n.Type = 3
		o.u8(3)
	case 8:
		n.Type, n.IP = 0, net.IPv4bcast
		o.raw([]byte{0, 255, 255, 255, 255})
	}
	return
}

func bSrv(d *dev, o *out) *wire.PeerAddressSrv {
	s := &wire.PeerAddressSrv{Host: string(d.blob(9, 0, 1, 254, 255))}
	o.u8(uint8(len(s.Host)))
	o.raw([]byte(s.Host))
	s.Port = d.u16()
	o.u16(s.Port)
	s.TLS = d.pick(2) == 1
	if s.TLS {
		o.u8(1)
	} else {
		o.u8(0)
	}
	return s
}

func bPeer(d *dev, o *out) (p wire.PeerAddress) {
	p.PeerAddressHeader = bPeerHead(d, o)
	if p.Protocol != 0 {
		p.Detail = bSrv(d, o)
	}
	return
}

func bHeader(d *dev, o *out) (h wire.BlockHeader) {
	h.Version = d.u16()
	o.u16(h.Version)
	for _, f := range []*[32]byte{&h.PrevHash, &h.InterlinkHash, &h.BodyHash, &h.AccountsHash} {
		*f = d.h32()
		o.raw(f[:])
	}
	for _, f := range []*uint32{&h.NBits, &h.Height, &h.Timestamp, &h.Nonce} {
		*f = d.u32()
		o.u32(*f)
	}
	return
}

func distinctHash(i int) (h [32]byte) {
	for j := range h {
		h[j] = byte(i + j*3)
	}
	h[0] = byte(i)
	return
}

func bBits(d *dev, o *out) (bs wire.BitSet) {
	n := []int{5, 0, 1, 7, 8, 9, 16, 247, 248, 249, 254, 255}[d.pick(12)]
	bs.Len = uint8(n)
	bs.Bits = make([]byte, (n+7)/8)
	d.bits(bs.Bits)
	o.u8(bs.Len)
	o.raw(bs.Bits)
	return
}

func (d *dev) bits(b []byte) {
	p := d.pick(4)
	for i := range b {
		b[i] = [][]byte{{0xa6, 0x35, 0xff, 0x01}, {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0x80, 0, 1, 0x7f}}[p][i%4]
	}
}

func bInterlink(d *dev, o *out) (il wire.BlockInterlink) {
	il.Repeats = bBits(d, o)
	fillInterlink(&il, o)
	return
}

// fillInterlink adds the hashes that the repeat bits ask for.
func fillInterlink(il *wire.BlockInterlink, o *out) {
	last := -1
	var idx []int
	for i := 0; i < int(il.Repeats.Len); i++ {
		if il.Repeats.Bits[i/8]>>(7-i%8)&1 == 0 {
			last++
			h := distinctHash(last)
			il.Compressed = append(il.Compressed, h)
			o.raw(h[:])
		}
		idx = append(idx, last)
	}
	for _, j := range idx {
		if j < 0 {
			il.Hashes = append(il.Hashes, &il.PrevHash)
		} else {
			il.Hashes = append(il.Hashes, &il.Compressed[j])
		}
	}
}

func bTx(d *dev, o *out) (w wire.WrapTx) {
	if d.pick(2) == 0 {
		o.u8(1)
		w.Tx = bExt(d, o)
	} else {
		o.u8(0)
		w.Tx = bBasic(d, o)
	}
	return
}

func bBasic(d *dev, o *out) *wire.BasicTx {
	t := &wire.BasicTx{}
	t.SenderPubKey = d.h32()
	o.raw(t.SenderPubKey[:])
	t.Recipient = d.h20()
	o.raw(t.Recipient[:])
	t.Value, t.Fee = d.u64(), d.u64()
	o.u64(t.Value)
	o.u64(t.Fee)
	t.ValidityStartHeight = d.u32()
	o.u32(t.ValidityStartHeight)
	t.NetworkID = d.u8()
	o.u8(t.NetworkID)
	t.Signature = d.h64()
	o.raw(t.Signature[:])
	return t
}

func bContent(d *dev, o *out) (t wire.TxContent) {
	t.Data = d.blob(3, 0, 1, 255, 256, 300, 65535)
	o.u16(uint16(len(t.Data)))
	o.raw(t.Data)
	t.Sender = d.h20()
	o.raw(t.Sender[:])
	t.SenderType = d.u8(1, 0, 2, 3, 255)
	o.u8(t.SenderType)
	t.Recipient = d.h20()
	o.raw(t.Recipient[:])
	t.RecipientType = d.u8(2, 0, 1, 3, 255)
	o.u8(t.RecipientType)
	t.Value, t.Fee = d.u64(), d.u64()
	o.u64(t.Value)
	o.u64(t.Fee)
	t.ValidityStartHeight = d.u32()
	o.u32(t.ValidityStartHeight)
	t.NetworkID = d.u8()
	o.u8(t.NetworkID)
	t.Flags = d.u8()
	o.u8(t.Flags)
	return
}

func bExt(d *dev, o *out) *wire.ExtendedTx {
	c := bContent(d, o)
	t := &wire.ExtendedTx{Data: c.Data, Sender: c.Sender, SenderType: c.SenderType, Recipient: c.Recipient, RecipientType: c.RecipientType,
		Value: c.Value, Fee: c.Fee, ValidityStartHeight: c.ValidityStartHeight, NetworkID: c.NetworkID, Flags: c.Flags}
	t.Proof = d.blob(4, 0, 1, 97, 256, 65535)
	o.u16(uint16(len(t.Proof)))
	o.raw(t.Proof)
	return t
}

func bAcc(d *dev, o *out) (w wire.WrapAccount) {
	a := ref.Acc{Kind: d.kind(1, 0, 2)}
	a.Balance = d.u64()
	switch a.Kind {
	case 1:
		a.Owner, a.Start, a.StepBlocks, a.StepAmount, a.Total = d.h20(), d.u32(), d.u32(), d.u64(), d.u64()
	case 2:
		a.Sender, a.Recipient, a.Algo, a.Hash, a.HashCount, a.Timeout, a.Total = d.h20(), d.h20(), d.u8(), d.h32(), d.u8(), d.u32(), d.u64()
	}
	o.raw(a.Encode())
	w.Account = toWireAcc(&a)
	return
}

func bPruned(d *dev, o *out) (p wire.AccountPruned) {
	p.Address = d.h20()
	o.raw(p.Address[:])
	p.Account = bAcc(d, o)
	return
}

func bBody(d *dev, o *out) *wire.BlockBody {
	b := &wire.BlockBody{MinerAddr: d.h20()}
	o.raw(b.MinerAddr[:])
	b.ExtraData = d.blob(2, 0, 1, 254, 255)
	o.u8(uint8(len(b.ExtraData)))
	o.raw(b.ExtraData)
	if l, ok := d.wideList(); ok {
		o.u16(uint16(len(l)))
		for _, c := range l {
			b.Txs = append(b.Txs, bTx(wideElement(c), o))
		}
	} else {
		n := []int{1, 0, 2, 3}[d.pick(4)]
		o.u16(uint16(n))
		for i := 0; i < n; i++ {
			b.Txs = append(b.Txs, bTx(d, o))
		}
	}
	if l, ok := d.wideList(); ok {
		o.u16(uint16(len(l)))
		for _, c := range l {
			b.Pruned = append(b.Pruned, bPruned(wideElement(c), o))
		}
	} else {
		n := []int{1, 0, 2}[d.pick(3)]
		o.u16(uint16(n))
		for i := 0; i < n; i++ {
			b.Pruned = append(b.Pruned, bPruned(d, o))
		}
	}
	return b
}

func bBlock(d *dev, o *out) (b wire.Block) {
	b.Header = bHeader(d, o)
	b.Interlink = bInterlink(d, o)
	if d.pick(2) == 0 {
		o.u8(1)
		b.Body = bBody(d, o)
	} else {
		o.u8(0)
	}
	return
}

func bMerkle(d *dev, o *out) (m wire.MerklePath) {
	m.Branches = bBits(d, o)
	for i := 0; i < int(m.Branches.Len); i++ {
		h := distinctHash(i)
		m.Hashes = append(m.Hashes, h)
		o.raw(h[:])
	}
	return
}

func bProof(d *dev, o *out) (p wire.SignatureProof) {
	p.PublicKey = d.h32()
	o.raw(p.PublicKey[:])
	p.MerklePath = bMerkle(d, o)
	p.Signature = d.h64()
	o.raw(p.Signature[:])
	return
}

// ---------------------------------------------------------------- comparison

// deepEq is equality up to nil versus empty slices and the two forms of an IPv4 address.
func deepEq(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if a.Type() == reflect.TypeOf(net.IP{}) {
		x, y := net.IP(a.Bytes()), net.IP(b.Bytes())
		return len(x) == 0 && len(y) == 0 || x.Equal(y)
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEq(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 && a.Kind() == reflect.Slice {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return a.Uint() == b.Uint()
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		return a.Int() == b.Int()
	}
	panic("deepEq: " + a.Kind().String())
}

func equalVals(a, b interface{}) bool { return deepEq(reflect.ValueOf(a), reflect.ValueOf(b)) }

// ---------------------------------------------------------------- the types and messages

type wireType struct {
	name  string
	build func(d *dev, o *out) interface{} // a pointer
	fresh func() interface{}
	gram  gram
}

var wireTypes = []wireType{
	{"Block", func(d *dev, o *out) interface{} { v := bBlock(d, o); return &v }, func() interface{} { return new(wire.Block) }, gBlock},
	{"BlockHeader", func(d *dev, o *out) interface{} { v := bHeader(d, o); return &v }, func() interface{} { return new(wire.BlockHeader) }, gHeader},
	{"BlockBody", func(d *dev, o *out) interface{} { return bBody(d, o) }, func() interface{} { return new(wire.BlockBody) }, gBody},
	{"BlockInterlink", func(d *dev, o *out) interface{} { v := bInterlink(d, o); return &v }, func() interface{} { return new(wire.BlockInterlink) }, gInterlink},
	{"WrapTx", func(d *dev, o *out) interface{} { v := bTx(d, o); return &v }, func() interface{} { return new(wire.WrapTx) }, gTx},
	{"BasicTx", func(d *dev, o *out) interface{} { return bBasic(d, o) }, func() interface{} { return new(wire.BasicTx) }, gBasicTx},
	{"ExtendedTx", func(d *dev, o *out) interface{} { return bExt(d, o) }, func() interface{} { return new(wire.ExtendedTx) }, gExtTx},
	{"TxContent", func(d *dev, o *out) interface{} { v := bContent(d, o); return &v }, func() interface{} { return new(wire.TxContent) }, gContent},
	{"WrapAccount", func(d *dev, o *out) interface{} { v := bAcc(d, o); return &v }, func() interface{} { return new(wire.WrapAccount) }, gAcc},
	{"AccountPruned", func(d *dev, o *out) interface{} { v := bPruned(d, o); return &v }, func() interface{} { return new(wire.AccountPruned) }, gPruned},
	{"SignatureProof", func(d *dev, o *out) interface{} { v := bProof(d, o); return &v }, func() interface{} { return new(wire.SignatureProof) }, gProof},
	{"MerklePath", func(d *dev, o *out) interface{} { v := bMerkle(d, o); return &v }, func() interface{} { return new(wire.MerklePath) }, gMerkle},
	{"BitSet", func(d *dev, o *out) interface{} { v := bBits(d, o); return &v }, func() interface{} { return new(wire.BitSet) }, gBits},
	{"Hash", func(d *dev, o *out) interface{} {
		v := wire.Hash{Algorithm: d.u8(), Bytes: d.h32()}
		o.u8(v.Algorithm)
		o.raw(v.Bytes[:])
		return &v
	}, func() interface{} { return new(wire.Hash) }, gHash},
	{"NetAddress", func(d *dev, o *out) interface{} { v := bNet(d, o); return &v }, func() interface{} { return new(wire.NetAddress) }, gNet},
	{"PeerAddress", func(d *dev, o *out) interface{} { v := bPeer(d, o); return &v }, func() interface{} { return new(wire.PeerAddress) }, gPeer},
	{"PeerAddressHeader", func(d *dev, o *out) interface{} { v := bPeerHead(d, o); return &v }, func() interface{} { return new(wire.PeerAddressHeader) }, gPeerHead},
	{"PeerAddressSrv", func(d *dev, o *out) interface{} { return bSrv(d, o) }, func() interface{} { return new(wire.PeerAddressSrv) }, gSrv},
	{"StakingTxData", func(d *dev, o *out) interface{} {
		v := new(wire.StakingTxData)
		d.bytes(v.ValidatorKey[:])
		o.raw(v.ValidatorKey[:])
		if d.pick(2) == 0 {
			a := d.h20()
			v.RewardAddress = &a
			o.u8(1)
			o.raw(a[:])
		} else {
			o.u8(0)
		}
		d.bytes(v.ProofOfKnowledge[:])
		o.raw(v.ProofOfKnowledge[:])
		return v
	}, func() interface{} { return new(wire.StakingTxData) }, gStaking},
}

type msgKind struct {
	name  string
	typ   uint64
	build func(d *dev, o *out) wire.Message
	gram  gram
}

func bInv(typ uint64) func(d *dev, o *out) wire.Message {
	return func(d *dev, o *out) wire.Message {
		m := &wire.InvMessage{MessageType: typ}
		if l, ok := d.wideList(); ok {
			o.u16(uint16(len(l)))
			for _, c := range l {
				v := wire.InvVector{Type: 1 + uint32(c%2), Hash: distinctHash(c / 2)}
				o.u32(v.Type)
				o.raw(v.Hash[:])
				m.Vectors = append(m.Vectors, v)
			}
			return m
		}
		n := []int{2, 0, 1, 255, 256, 1000, 65535}[d.pick(7)]
		o.u16(uint16(n))
		for i := 0; i < n; i++ {
			v := wire.InvVector{Type: uint32(i % 3), Hash: distinctHash(i)}
			if i == 0 {
				v.Type, v.Hash = d.u32(), d.h32()
			}
			o.u32(v.Type)
			o.raw(v.Hash[:])
			m.Vectors = append(m.Vectors, v)
		}
		return m
	}
}

func bEmpty(m wire.Message) func(d *dev, o *out) wire.Message {
	return func(d *dev, o *out) wire.Message { return m }
}

var msgKinds = []msgKind{
	{"version", 0, func(d *dev, o *out) wire.Message {
		m := new(wire.VersionMessage)
		m.Version = d.u32()
		o.u32(m.Version)
		m.PeerAddress = bPeer(d, o)
		for _, h := range []*[32]byte{&m.GenesisHash, &m.HeadHash, &m.ChallengeNonce} {
			*h = d.h32()
			o.raw(h[:])
		}
		m.UserAgent = string(d.blob(6, 0, 1, 254, 255))
		o.u8(uint8(len(m.UserAgent)))
		o.raw([]byte(m.UserAgent))
		return m
	}, gSeq(gFix(4), gPeer, gFix(96), gList(1, gByte))},
	{"inv", 1, bInv(1), gInv},
	{"get-data", 2, bInv(2), gInv},
	{"get-header", 3, bInv(3), gInv},
	{"not-found", 4, bInv(4), gInv},
	{"get-blocks", 5, func(d *dev, o *out) wire.Message {
		m := new(wire.GetBlocksMessage)
		if l, ok := d.wideList(); ok {
			o.u16(uint16(len(l)))
			for _, c := range l {
				h := wideHash(c)
				o.raw(h[:])
				m.Locators = append(m.Locators, h)
			}
		} else {
			n := []int{2, 0, 1, 255, 256, 65535}[d.pick(6)]
			o.u16(uint16(n))
			for i := 0; i < n; i++ {
				h := distinctHash(i)
				if i == 0 {
					h = d.h32()
				}
				o.raw(h[:])
				m.Locators = append(m.Locators, h)
			}
		}
		m.MaxInvSize = d.u16()
		o.u16(m.MaxInvSize)
		m.Direction = d.u8(1, 2, 0, 255)
		o.u8(m.Direction)
		return m
	}, gSeq(gList(2, gFix(32)), gFix(3))},
	{"block", 6, func(d *dev, o *out) wire.Message { return &wire.BlockMessage{Block: bBlock(d, o)} }, gBlock},
	{"header", 7, func(d *dev, o *out) wire.Message { return &wire.HeaderMessage{BlockHeader: bHeader(d, o)} }, gHeader},
	{"tx", 8, func(d *dev, o *out) wire.Message { return &wire.TxMessage{Tx: bTx(d, o)} }, gTx},
	{"mempool", 9, bEmpty(wire.MempoolMessage), gFix(0)},
	{"addr", 20, func(d *dev, o *out) wire.Message {
		m := new(wire.AddrMessage)
		if l, ok := d.wideList(); ok {
			o.u16(uint16(len(l)))
			for _, c := range l {
				m.Addresses = append(m.Addresses, bPeer(wideElement(c), o))
			}
			return m
		}
		n := []int{2, 0, 1, 3, 300}[d.pick(5)]
		o.u16(uint16(n))
		for i := 0; i < n; i++ {
			m.Addresses = append(m.Addresses, bPeer(d, o))
		}
		return m
	}, gList(2, gPeer)},
	{"get-addr", 21, func(d *dev, o *out) wire.Message {
		m := &wire.GetAddrMessage{ProtocolMask: d.u8(), ServiceMask: d.u32(), MaxResults: d.u16()}
		o.u8(m.ProtocolMask)
		o.u32(m.ServiceMask)
		o.u16(m.MaxResults)
		return m
	}, gFix(7)},
	{"ping", 22, func(d *dev, o *out) wire.Message {
		m := &wire.BasePingMessage{Nonce: d.u32()}
		o.u32(m.Nonce)
		return m
	}, gFix(4)},
	{"pong", 23, func(d *dev, o *out) wire.Message {
		m := &wire.BasePingMessage{Nonce: d.u32(), Pong: true}
		o.u32(m.Nonce)
		return m
	}, gFix(4)},
	{"get-chain-proof", 40, bEmpty(wire.GetChainProofMessage), gFix(0)},
	{"get-tx-proof", 47, func(d *dev, o *out) wire.Message {
		m := &wire.GetTxProofMessage{BlockHash: d.h32()}
		o.raw(m.BlockHash[:])
		if l, ok := d.wideList(); ok {
			o.u16(uint16(len(l)))
			for _, c := range l {
				h := wideHash(c)
				a := [20]byte(h[:20])
				o.raw(a[:])
				m.Addresses = append(m.Addresses, a)
			}
			return m
		}
		n := []int{2, 0, 1, 255, 256, 65535}[d.pick(6)]
		o.u16(uint16(n))
		for i := 0; i < n; i++ {
			h := distinctHash(i)
			a := [20]byte(h[:20])
			if i == 0 {
				a = d.h20()
			}
			o.raw(a[:])
			m.Addresses = append(m.Addresses, a)
		}
		return m
	}, gSeq(gFix(32), gList(2, gFix(20)))},
	{"get-tx-receipts", 49, func(d *dev, o *out) wire.Message {
		m := &wire.GetTxReceiptsMessage{Address: d.h20(), Offset: d.u32()}
		o.raw(m.Address[:])
		o.u32(m.Offset)
		return m
	}, gFix(24)},
	{"get-head", 60, bEmpty(wire.GetHeadMessage), gFix(0)},
	{"head", 61, func(d *dev, o *out) wire.Message { return &wire.HeadMessage{BlockHeader: bHeader(d, o)} }, gHeader},
	{"verack", 90, func(d *dev, o *out) wire.Message {
		m := &wire.VerAckMessage{PublicKey: d.h32(), Signature: d.h64()}
		o.raw(m.PublicKey[:])
		o.raw(m.Signature[:])
		return m
	}, gFix(96)},
}

func short(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// ---------------------------------------------------------------- W01

func msgRoundTrip(devs func(x *explore.X) int) func(x *explore.X) {
	return func(x *explore.X) {
		k := msgKinds[x.Choose(len(msgKinds))]
		d := &dev{x: x, left: devs(x)}
		if k.name == "block" && d.left > 1 && !x.Thorough {
			d.left = 1 // blocks are taken apart in W02
		}
		var o out
		m := k.build(d, &o)
		checkMessage(x, &k, m, o)
	}
}

func checkMessage(x *explore.X, k *msgKind, m wire.Message, o out) {
	{
		x.Note("%s message %s", k.name, short(o.b))
		want := append(binary.BigEndian.AppendUint64(nil, k.typ), o.b...)
		got, err := wire.MarshalMessage(m)
		x.Step()
		x.Check(err == nil && bytes.Equal(got, want), "%s message encodes as %s, %v; want %s", k.name, short(got), err, short(want))
		x.Check(m.Type() == k.typ, "%s message has type %d", k.name, m.Type())
		back, err := wire.UnmarshalMessage(k.typ, o.b)
		x.Step()
		x.Check(err == nil && equalVals(back, m) && back.Type() == k.typ, "%s message %s decodes as %+v, %v; want %+v", k.name, short(o.b), back, err, m)
		// Encoding must not disturb the message, and the message must not live in the buffer.
		for i := range o.b {
			o.b[i] ^= 0x55
		}
		x.Check(equalVals(back, m), "%s message changes with the buffer it was read from", k.name)
		for i := range o.b {
			o.b[i] ^= 0x55
		}
		again, err := wire.MarshalMessage(back)
		x.Check(err == nil && bytes.Equal(again, want), "%s message encodes as %s, %v after decoding; want %s", k.name, short(again), err, short(want))
		for _, tail := range [][]byte{{0}, {1}, {255, 255}, make([]byte, 40)} {
			if _, err := wire.UnmarshalMessage(k.typ, append(append([]byte{}, o.b...), tail...)); err == nil {
				x.Fail("%s message is accepted with %d bytes behind it", k.name, len(tail))
			}
			x.Step()
		}
		x.Outcome(want)
	}
}

// msgAny decodes arbitrary content and compares acceptance with the grammar.
func msgAny(x *explore.X, k *msgKind, data []byte) {
	m, err := wire.UnmarshalMessage(k.typ, data)
	x.Step()
	rest, ok := k.gram(data)
	ok = ok && len(rest) == 0
	if ok != (err == nil) {
		x.Fail("%s message content %s: err=%v, but it is %s", k.name, short(data), err, map[bool]string{true: "valid", false: "not valid"}[ok])
	}
	if err != nil {
		return
	}
	re, err := wire.MarshalMessage(m)
	if err != nil || !bytes.Equal(re[8:], data) || binary.BigEndian.Uint64(re) != k.typ {
		x.Fail("%s message content %s encodes again as %s, %v", k.name, short(data), short(re), err)
	}
}

func damageBytes(x *explore.X, good []byte, try func(d []byte)) {
	step := 1
	if len(good) > 2000 {
		step = 97
	}
	for l := 0; l < len(good); l += step {
		try(good[:l:l])
	}
	if len(good) > 0 {
		try(good[: len(good)-1 : len(good)-1])
	}
	for _, tail := range []int{1, 2, 32, 64, 300} {
		try(append(append([]byte{}, good...), make([]byte, tail)...))
	}
	d := append([]byte{}, good...)
	for i := 0; i < len(d); i++ {
		if step > 1 && i > 300 && i%step != 0 {
			continue
		}
		for v := 0; v < 256; v++ {
			if !x.Thorough && !(v < 6 || v >= 0x7e && v <= 0x81 || v > 0xf6 || v == int(good[i])+1 || v == int(good[i])-1) {
				continue
			}
			d[i] = byte(v)
			try(d)
		}
		if i+1 < len(d) && (len(d) < 400 || x.Thorough) {
			for _, p := range [][2]byte{{0, 0}, {0, 1}, {1, 0}, {0xff, 0xff}, {0x7f, 0xff}, {0x80, 0}} {
				d[i], d[i+1] = p[0], p[1]
				try(d)
			}
			d[i+1] = good[i+1]
		}
		d[i] = good[i]
	}
}

func msgDamage(x *explore.X) {
	k := &msgKinds[x.Choose(len(msgKinds))]
	d := &dev{x: x, left: 1}
	var o out
	k.build(d, &o)
	if len(o.b) > 1500 && !x.Thorough {
		return
	}
	x.Note("%s message %s", k.name, short(o.b))
	damageBytes(x, o.b, func(b []byte) { msgAny(x, k, b) })
	x.Outcome(o.b)
}

func msgTypes(x *explore.X) {
	ts := []uint64{}
	for i := 0; i < 300; i++ {
		ts = append(ts, uint64(i))
	}
	for _, b := range []uint64{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 62, 1 << 63} {
		for _, k := range msgKinds {
			ts = append(ts, b+k.typ, b*2-1, b*2+k.typ, b+11)
		}
	}
	ts = append(ts, 1<<64-1)
	t := ts[x.Choose(len(ts))]
	known := map[uint64]bool{}
	for _, k := range msgKinds {
		known[k.typ] = true
	}
	for _, k := range msgKinds {
		var o out
		k.build(&dev{x: x, left: 0}, &o)
		m, err := wire.UnmarshalMessage(t, o.b)
		x.Step()
		_, unknown := err.(wire.UnknownMessageError)
		x.Check(unknown == !known[t], "type %d: %v", t, err)
		x.Check(!unknown || m == nil && err.(wire.UnknownMessageError) == wire.UnknownMessageError(t), "type %d: %v, %v", t, m, err)
		if err != nil {
			_ = err.Error()
		}
		if m != nil && err == nil {
			x.Check(m.Type() == t, "a message decoded as type %d has type %d", t, m.Type())
		}
	}
	x.OutcomeS(fmt.Sprint(t))
	x.Note("type %d", t)
}

// ---------------------------------------------------------------- W02

func typeRoundTrip(devs func(x *explore.X) int) func(x *explore.X) {
	return func(x *explore.X) {
		t := wireTypes[x.Choose(len(wireTypes))]
		d := &dev{x: x, left: devs(x)}
		var o out
		v := t.build(d, &o)
		checkType(x, &t, v, o)
	}
}

func checkType(x *explore.X, t *wireType, v interface{}, o out) {
	{
		x.Note("%s %s", t.name, short(o.b))
		got, err := beserial.Marshal([]byte{5, 6}, v)
		x.Step()
		x.Check(err == nil && len(got) >= 2 && got[0] == 5 && got[1] == 6 && bytes.Equal(got[2:], o.b), "%s encodes as %s, %v; want %s", t.name, short(got[2:]), err, short(o.b))
		for _, tail := range []int{0, 1, 70} {
			in := append(append([]byte{}, o.b...), make([]byte, tail)...)
			back := t.fresh()
			n, err := beserial.Unmarshal(in, back)
			x.Step()
			x.Check(err == nil && n == len(o.b) && equalVals(back, v), "%s %s decodes as %+v, %d bytes, %v; want %+v", t.name, short(in), back, n, err, v)
			for i := range in {
				in[i] ^= 0x55
			}
			x.Check(equalVals(back, v), "%s changes with the buffer it was read from", t.name)
			again, err := beserial.Marshal(nil, back)
			x.Check(err == nil && bytes.Equal(again, o.b), "%s encodes as %s, %v after decoding; want %s", t.name, short(again), err, short(o.b))
		}
		x.Outcome(append([]byte(t.name), o.b...))
	}
}

func typeAny(x *explore.X, t *wireType, data []byte) {
	v := t.fresh()
	n, err := beserial.Unmarshal(data, v)
	x.Step()
	rest, ok := t.gram(data)
	if n < 0 || n > len(data) {
		x.Fail("%s: decoding %s reports %d bytes", t.name, short(data), n)
	}
	if ok != (err == nil) || ok && n != len(data)-len(rest) {
		x.Fail("%s: decoding %s: %d bytes, err=%v, but it is %s (%d bytes left)", t.name, short(data), n, err, map[bool]string{true: "valid", false: "not valid"}[ok], len(rest))
	}
	if err != nil {
		return
	}
	re, err := beserial.Marshal(nil, v)
	if err != nil || !bytes.Equal(re, data[:n]) {
		x.Fail("%s: %s encodes again as %s, %v", t.name, short(data[:n]), short(re), err)
	}
}

func typeDamage(x *explore.X) {
	t := &wireTypes[x.Choose(len(wireTypes))]
	d := &dev{x: x, left: 1}
	var o out
	t.build(d, &o)
	if len(o.b) > 1500 && !x.Thorough {
		return
	}
	x.Note("%s %s", t.name, short(o.b))
	damageBytes(x, o.b, func(b []byte) { typeAny(x, t, b) })
	x.Outcome(o.b)
}

// reused decodes one value over another.
func reused(x *explore.X) {
	t := &wireTypes[x.Choose(len(wireTypes))]
	var o1, o2 out
	t.build(&dev{x: x, left: 1}, &o1)
	v2 := t.build(&dev{x: x, left: 1}, &o2)
	if len(o1.b) > 30000 || len(o2.b) > 30000 {
		return
	}
	v := t.fresh()
	if _, err := beserial.Unmarshal(o1.b, v); err != nil {
		x.Fail("%s %s: %v", t.name, short(o1.b), err)
	}
	n, err := beserial.Unmarshal(o2.b, v)
	x.Steps(2)
	x.Check(err == nil && n == len(o2.b) && equalVals(v, v2), "%s %s decoded over %s gives %+v, %d bytes, %v; want %+v", t.name, short(o2.b), short(o1.b), v, n, err, v2)
	re, err := beserial.Marshal(nil, v)
	x.Check(err == nil && bytes.Equal(re, o2.b), "%s %s decoded over %s encodes as %s, %v", t.name, short(o2.b), short(o1.b), short(re), err)
	x.OutcomeS(t.name)
}

// ---------------------------------------------------------------- B02, B06 on wire types

func wireSizes(devs func(x *explore.X) int) func(x *explore.X) {
	return func(x *explore.X) {
		c := x.Choose(len(wireTypes) + len(msgKinds))
		var v interface{}
		var o out
		name := ""
		d := &dev{x: x, left: devs(x)}
		if c < len(wireTypes) {
			v, name = wireTypes[c].build(d, &o), wireTypes[c].name
		} else {
			k := msgKinds[c-len(wireTypes)]
			v, name = k.build(d, &o), k.name+" message"
			if e, ok := v.(wire.EmptyMessage); ok {
				v = &e
			}
		}
		n, err := beserial.Size(v)
		x.Step()
		b, merr := beserial.Marshal(nil, v)
		x.Note("%s of %d bytes", name, len(b))
		x.Check(err == nil && merr == nil && n == len(b) && n == len(o.b), "%s: the size is given as %d, %v; it encodes to %d bytes, %v; want %d", name, n, err, len(b), merr, len(o.b))
		x.OutcomeS(fmt.Sprint(name, n))
	}
}

func hostileWire(x *explore.X) {
	c := x.Choose(len(wireTypes) + len(msgKinds))
	var o out
	name := ""
	var weight int
	var f func(d []byte)
	d := &dev{x: x, left: 0}
	if c < len(wireTypes) {
		t := wireTypes[c]
		v := t.build(d, &o)
		name, weight = t.name, typeWeight(reflect.TypeOf(v), 0)
		f = func(d []byte) { _, _ = beserial.Unmarshal(d, t.fresh()) }
	} else {
		k := msgKinds[c-len(wireTypes)]
		v := k.build(d, &o)
		name, weight = k.name+" message", typeWeight(reflect.TypeOf(v), 0)
		f = func(d []byte) { _, _ = wire.UnmarshalMessage(k.typ, d) }
	}
	x.Note("%s %s", name, short(o.b))
	weight += 600
	overwrite(o.b, func(d []byte) { decodeMem(x, name, weight, d, f) })
	for l := range o.b {
		decodeMem(x, name, weight, o.b[:l], f)
	}
	x.OutcomeS(name)
}

func init() {
	register(&explore.Check{ID: "W01", Rule: "messages of every kind with boundary field values are encoded and decoded and compared with hand-written reference encodings; damaged contents are compared with an independent grammar",
		Programs: []explore.Program{
			{Name: "values", Bounds: "20 message kinds; every field at its boundary values, up to 2 (thorough 3) fields at a time (list lengths up to 65535)", Body: msgRoundTrip(pick(2, 3))},
			{Name: "damage", Bounds: "20 message kinds, every single field deviation: all truncations, 5 extensions, 19 (thorough 256) values of every byte, 6 values of every byte pair", Body: msgDamage},
			{Name: "dense", Bounds: denseBounds("20 message kinds"), Body: denseMessages},
			{Name: "types", Bounds: "type numbers 0..299 and 561 numbers around powers of two that end like known types, with 20 contents", Body: msgTypes},
		}})
	register(&explore.Check{ID: "W02", Rule: "values of every wire type with boundary fields are encoded and decoded and compared with hand-written reference encodings; damaged encodings are compared with an independent grammar",
		Programs: []explore.Program{
			{Name: "values", Bounds: "19 types; every field at its boundary values, up to 2 (thorough 3) fields at a time (lists of 0..3, bit sets of 0..255 bits)", Body: typeRoundTrip(pick(2, 3))},
			{Name: "damage", Bounds: "19 types, every single field deviation: all truncations, 5 extensions, 19 (thorough 256) values of every byte, 6 values of every byte pair", Body: typeDamage},
			{Name: "dense", Bounds: denseBounds("19 types"), Body: denseTypes},
			{Name: "reused", Bounds: "19 types; every pair of values that differ from the default in one field, the second decoded over the first", Body: reused},
		}})
	register(&explore.Check{ID: "B02", Rule: "the announced size of every enumerated value of every shape and wire type is compared with the length of its encoding, from the code and from the reference encoder",
		Programs: append(append(shapeCheck(true, announced), extraPrograms(announcedOf)...), explore.Program{Name: "wire", Bounds: "19 wire types and 20 messages, up to 2 (thorough 3) fields at boundary values at a time", Body: wireSizes(pick(2, 3))})})
	register(&explore.Check{ID: "B06", Rule: "hostile numbers in every width are written over every position of valid encodings; the memory that decoding allocates is measured by the runtime and must stay within 32 KiB plus a type-dependent multiple of the input length",
		Programs: []explore.Program{
			{Name: "shapes", Bounds: "every tagged field type and 30 field types in 9 wrappings: 22 numbers in 4 widths at each of the first 40 positions, and at the front of 0..1000 bytes", Body: hostileShapes, Serial: true},
			{Name: "wire", Bounds: "19 wire types and 20 messages: 22 numbers in 4 widths at each position, all truncations", Body: hostileWire, Serial: true},
		}})
}
