package props

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"fmt"
	"math/big"
	"net"
	"reflect"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/policy"
	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
	"verif/mc/ref"
)

// ---------------------------------------------------------------- W03

// interlink decodes the interlink with the repeat bits followed by tail bytes of something else.
// linkHashes are ways to choose the hashes of an interlink.
var linkHashes = []func(i int) [32]byte{
	distinctHash,
	func(int) [32]byte { return [32]byte{} },
	func(int) [32]byte { return linkPrev },
	func(i int) [32]byte { return distinctHash(i / 2) },
	func(i int) [32]byte { return distinctHash(i % 2) },
}

var linkPrev = [32]byte{0xee, 1, 2, 0xee}

func interlink(x *explore.X, n int, bits []byte, kind int, cuts bool) {
	prev := linkPrev
	b := append([]byte{byte(n)}, bits...)
	var want [][32]byte
	last, fresh, leading := prev, 0, 0
	for i := 0; i < n; i++ {
		if bits[i/8]>>(7-i%8)&1 == 0 {
			last = linkHashes[kind](fresh)
			fresh++
			b = append(b, last[:]...)
		}
		want = append(want, last)
		if fresh == 0 {
			leading++
		}
	}
	x.Note("interlink of %d entries, repeat bits %x, %d hashes of kind %d", n, bits, fresh, kind)
	for _, tail := range []int{0, 1, 40} {
		in := append(append([]byte{}, b...), bytes.Repeat([]byte{0xab}, tail)...)
		orig := append([]byte{}, in...)
		il := wire.BlockInterlink{PrevHash: prev}
		used, err := il.UnmarshalBESerial(in)
		x.Step()
		x.Check(err == nil && used == len(b), "interlink of %d entries with bits %x, then %d bytes: %d of %d bytes read, %v", n, bits, tail, used, len(b), err)
		x.Check(len(il.Hashes) == n, "interlink with bits %x expands to %d hashes instead of %d", bits, len(il.Hashes), n)
		for i, h := range il.Hashes {
			x.Check(h != nil && *h == want[i], "interlink of %d entries with bits %x: entry %d is %x instead of %x", n, bits, i, h, want[i])
		}
		x.Check(bytes.Equal(in, orig), "decoding an interlink changes the input")
		re, err := il.MarshalBESerial([]byte{9})
		size, serr := il.SizeBESerial()
		x.Check(err == nil && bytes.Equal(re[1:], b), "interlink %s re-encodes as %s, %v", short(b), short(re[1:]), err)
		x.Check(serr == nil && size == len(b), "interlink of %d bytes announces %d, %v", len(b), size, serr)
		for i := range in { // the decoded interlink owns its hashes
			in[i] = 0x77
		}
		if leading > 0 { // the beginning stands for the previous block, whenever that becomes known
			il.PrevHash = [32]byte{0xaa, 0xbb}
			for i := 0; i < leading; i++ {
				x.Check(*il.Hashes[i] == il.PrevHash, "interlink of %d entries with bits %x: entry %d does not stand for the previous block", n, bits, i)
			}
			il.PrevHash = prev
		}
		if n > 0 {
			x.Check(*il.Hashes[n-1] == want[n-1], "the last hash of a decoded interlink follows the input buffer")
		}
	}
	if cuts {
		for _, cut := range []int{1, 31, 32, 33, len(b) - 1, len(b)} {
			if cut <= len(b) && cut > 0 {
				var il wire.BlockInterlink
				_, err := il.UnmarshalBESerial(b[: len(b)-cut : len(b)-cut])
				x.Check(err != nil, "interlink of %d entries with bits %x without its last %d bytes is accepted", n, bits, cut)
			}
		}
	}
	// inside a block: what follows is found
	blk := append(make([]byte, 2+4*32+16), b...)
	blk = append(blk, 1)
	body := append(bytes.Repeat([]byte{0x44}, 20), 3, 7, 8, 9, 0, 0, 0, 0)
	blk = append(blk, body...)
	var bl wire.Block
	err := beserial.UnmarshalFull(blk, &bl)
	x.Step()
	x.Check(err == nil && bl.Body != nil && bl.Body.MinerAddr[19] == 0x44 && bytes.Equal(bl.Body.ExtraData, []byte{7, 8, 9}), "block with an interlink of %d entries, bits %x: %v", n, bits, err)
	x.Check(len(bl.Interlink.Hashes) == n, "interlink in a block: %d hashes instead of %d", len(bl.Interlink.Hashes), n)
	zero := [32]byte{}
	for i, h := range bl.Interlink.Hashes {
		w := want[i]
		if i < leading {
			w = zero
		}
		x.Check(*h == w, "interlink of %d entries with bits %x in a block: entry %d is %x instead of %x", n, bits, i, *h, w)
	}
	x.OutcomeS(fmt.Sprint(n, fresh))
}

// ---------------------------------------------------------------- W04

func nodeHash(l, r [32]byte) [32]byte {
	var m [64]byte
	copy(m[:], l[:])
	copy(m[32:], r[:])
	return blake2b.Sum256(m[:])
}

// fold is the reference: bit set means the sibling is on the left.
func fold(leaf []byte, bits []byte, sibs [][32]byte) [32]byte {
	h := blake2b.Sum256(leaf)
	for i, s := range sibs {
		if bits[i/8]&(1<<(7-uint(i)%8)) != 0 {
			h = nodeHash(s, h)
		} else {
			h = nodeHash(h, s)
		}
	}
	return h
}

// computeRoot runs the code and checks that it leaves its arguments alone.
func computeRoot(x *explore.X, leaf []byte, bits []byte, sibs [][32]byte) [32]byte {
	mp := wire.MerklePath{Branches: wire.BitSet{Len: uint8(len(sibs)), Bits: append([]byte{}, bits...)}, Hashes: append([][32]byte{}, sibs...)}
	l := append([]byte{}, leaf...)
	r := mp.ComputeRoot(l)
	x.Step()
	x.Check(bytes.Equal(l, leaf) && bytes.Equal(mp.Branches.Bits, bits) && reflect.DeepEqual(append([][32]byte{}, mp.Hashes...), append([][32]byte{}, sibs...)), "computing a root changes the path or the leaf")
	return r
}

func path(x *explore.X, bits []byte, sibs [][32]byte, leaf []byte, alter bool) {
	n := len(sibs)
	want := fold(leaf, bits, sibs)
	got := computeRoot(x, leaf, bits, sibs)
	x.Note("leaf %x, branches %x, %d levels: root %x", leaf, bits, n, got)
	x.Check(got == want, "path of %d levels with branches %x over leaf %x leads to %x instead of %x", n, bits, leaf, got, want)
	var mp wire.MerklePath
	enc := append([]byte{byte(n)}, bits...)
	for _, s := range sibs {
		enc = append(enc, s[:]...)
	}
	err := beserial.UnmarshalFull(enc, &mp)
	x.Check(err == nil && mp.ComputeRoot(leaf) == want, "decoded path of %d levels with branches %x leads elsewhere (%v)", n, bits, err)
	if len(leaf) == 32 {
		var p wire.SignatureProof
		copy(p.PublicKey[:], leaf)
		p.MerklePath = mp
		a := p.SignerAddress()
		x.Step()
		x.Check(bytes.Equal(a[:], want[:20]), "the signer of a proof of %d levels with branches %x is %x; the root is %x", n, bits, a, want)
		if n == 0 {
			x.Check(wire.PublicKeyToAddress(&p.PublicKey) == a, "the address of a key is not that of its proof")
		}
	}
	if !alter {
		return
	}
	for i := 0; i < n; i++ {
		b2 := append([]byte{}, bits...)
		b2[i/8] ^= 0x80 >> (uint(i) % 8)
		x.Check(computeRoot(x, leaf, b2, sibs) != want, "changing the side of level %d of %d does not change the root", i, n)
		for _, m := range []int{0, 13, 31} {
			s2 := append([][32]byte{}, sibs...)
			s2[i][m] ^= 0x10
			x.Check(computeRoot(x, leaf, bits, s2) != want, "changing byte %d of sibling %d of %d does not change the root", m, i, n)
		}
	}
	for i := range leaf {
		l2 := append([]byte{}, leaf...)
		l2[i] ^= 1
		x.Check(computeRoot(x, l2, bits, sibs) != want, "changing byte %d of the leaf does not change the root of %d levels", i, n)
	}
	x.OutcomeS(fmt.Sprintf("%x", want))
}

// shape enumerates a binary tree with n leaves and returns the paths (bits and siblings, leaf first) and the root.
type leafPath struct {
	leaf int
	bits []bool
	sibs [][32]byte
}

func treeOf(x *explore.X, first, n int) ([32]byte, []leafPath, string) {
	if n == 1 {
		return blake2b.Sum256(leafValue(first)), []leafPath{{leaf: first}}, "."
	}
	k := 1 + x.Choose(n-1)
	l, lp, ls := treeOf(x, first, k)
	r, rp, rs := treeOf(x, first+k, n-k)
	for i := range lp {
		lp[i].bits, lp[i].sibs = append(lp[i].bits, false), append(lp[i].sibs, r)
	}
	for i := range rp {
		rp[i].bits, rp[i].sibs = append(rp[i].bits, true), append(rp[i].sibs, l)
	}
	return nodeHash(l, r), append(lp, rp...), "(" + ls + rs + ")"
}

func leafValue(i int) []byte {
	v := distinctHash(40 + i)
	return v[:]
}

func merkleTrees(x *explore.X) {
	max := 8
	if x.Thorough {
		max = 11
	}
	n := 1 + x.Choose(max)
	root, paths, shape := treeOf(x, 0, n)
	x.Note("tree %s", shape)
	for _, p := range paths {
		bits := make([]byte, (len(p.bits)+7)/8)
		for i, b := range p.bits {
			if b {
				bits[i/8] |= 0x80 >> (uint(i) % 8)
			}
		}
		got := computeRoot(x, leafValue(p.leaf), bits, p.sibs)
		x.Check(got == root, "leaf %d of tree %s proves %x instead of the root %x", p.leaf, shape, got, root)
		for o := 0; o < n; o++ {
			if o != p.leaf {
				x.Check(computeRoot(x, leafValue(o), bits, p.sibs) != root, "leaf %d passes for leaf %d of tree %s", o, p.leaf, shape)
			}
		}
	}
	x.OutcomeS(shape)
}

// ---------------------------------------------------------------- W05

func views(x *explore.X) {
	var o out
	devs := 4
	if x.Thorough {
		devs = 5
	}
	d := &dev{x: x, left: devs}
	var tx wire.Tx
	var want wire.TxContent
	var basic *wire.BasicTx
	typ := wire.TxBasic
	if x.Bool() {
		t := bExt(d, &o)
		typ, tx = wire.TxExtended, t
		want = wire.TxContent{Data: t.Data, Sender: t.Sender, SenderType: t.SenderType, Recipient: t.Recipient, RecipientType: t.RecipientType,
			Value: t.Value, Fee: t.Fee, ValidityStartHeight: t.ValidityStartHeight, NetworkID: t.NetworkID, Flags: t.Flags}
	} else {
		basic = bBasic(d, &o)
		tx = basic
		h := blake2b.Sum256(basic.SenderPubKey[:])
		want = wire.TxContent{Recipient: basic.Recipient, Value: basic.Value, Fee: basic.Fee, ValidityStartHeight: basic.ValidityStartHeight, NetworkID: basic.NetworkID}
		copy(want.Sender[:], h[:])
	}
	if len(o.b) > 2000 {
		x.Note("transaction of %d bytes", len(o.b))
	} else {
		x.Note("transaction type %d: %x", typ, o.b)
	}
	x.Steps(8)
	unchanged := func(what string) {
		b, err := beserial.Marshal(nil, tx)
		x.Check(err == nil && bytes.Equal(b, o.b), "%s changes the transaction %s to %s", what, short(o.b), short(b))
	}
	x.Check(tx.Type() == typ, "the type of transaction %s is %d", short(o.b), tx.Type())
	v, f := tx.Amount()
	x.Check(v == want.Value && f == want.Fee, "transaction %s: amounts %d and %d instead of %d and %d", short(o.b), v, f, want.Value, want.Fee)
	unchanged("asking for the amounts")
	a, t := tx.GetSender()
	x.Check(a != nil && *a == want.Sender && t == want.SenderType, "transaction %s: sender %x of type %d", short(o.b), a, t)
	unchanged("asking for the sender")
	a, t = tx.GetRecipient()
	x.Check(a != nil && *a == want.Recipient && t == want.RecipientType, "transaction %s: recipient %x of type %d", short(o.b), a, t)
	unchanged("asking for the recipient")
	c := tx.AsTxContent()
	x.Check(equalVals(c, want), "transaction %s: content %+v instead of %+v", short(o.b), c, want)
	unchanged("taking the content")
	ext := tx.AsExtendedTx()
	unchanged("taking the extended form")
	x.Check(equalVals(ext.AsTxContent(), want), "transaction %s: content of the extended form %+v instead of %+v", short(o.b), ext.AsTxContent(), want)
	x.Check(ext.Type() == wire.TxExtended, "the extended form is of type %d", ext.Type())
	if basic != nil {
		p, rest, ok := ref.ParseSigProof(ext.Proof)
		x.Check(ok && len(rest) == 0, "transaction %s: the extended form has the proof %x", short(o.b), ext.Proof)
		x.Check(p.PubKey == basic.SenderPubKey && len(p.Hashes) == 0 && p.Sig == basic.Signature && p.Signer() == want.Sender, "transaction %s: the proof of the extended form is %x", short(o.b), ext.Proof)
	} else {
		x.Check(equalVals(&ext, tx), "the extended form of extended transaction %s differs: %+v", short(o.b), ext)
	}
	// a view is a copy: changing it or its neighbour's fields leaves the transaction alone
	ext.Value++
	ext.Sender[0]++
	ext.Flags++
	ext.Proof = nil
	c.Value++
	c.Recipient[3]++
	c.Data = nil
	unchanged("changing the views")
	a, _ = tx.GetSender()
	again := *a
	a2, _ := tx.GetSender()
	x.Check(*a2 == again && again == want.Sender, "the sender changes when asked twice")
	c2 := tx.AsTxContent()
	x.Check(equalVals(c2, want), "the content changes when taken twice")
	x.OutcomeS(string(o.b))
}

// ---------------------------------------------------------------- W06

// compactOf is the reference: the greatest value of the compact form that is not above t.
func compactOf(t *big.Int) uint32 {
	size := (t.BitLen() + 7) / 8
	mant := new(big.Int)
	if size <= 3 {
		mant.Lsh(t, uint(8*(3-size)))
	} else {
		mant.Rsh(t, uint(8*(size-3)))
	}
	m := uint32(mant.Uint64())
	if m&0x800000 != 0 {
		m >>= 8
		size++
	}
	return uint32(size)<<24 | m // zero for zero
}

func denotes(c uint32) *big.Int {
	m := new(big.Int).SetUint64(uint64(c & 0x7fffff))
	s := int(c >> 24)
	if s >= 3 {
		return m.Lsh(m, uint(8*(s-3)))
	}
	return m.Rsh(m, uint(8*(3-s)))
}

func compact(x *explore.X, t *big.Int) uint32 {
	arg := new(big.Int).Set(t)
	c := wire.TargetToCompact(*arg)
	x.Step()
	if t.Sign() == 0 {
		x.Check(c == 0, "target 0 has the compact form %08x", c)
		return c
	}
	x.Check(arg.Cmp(t) == 0, "converting target %x changes it to %x", t, arg)
	v := denotes(c)
	diff := new(big.Int).Sub(t, v)
	keep := 3
	size := (t.BitLen() + 7) / 8
	if t.Bit(8*size-1) == 1 {
		keep = 2
	}
	low := uint(0)
	if size > keep {
		low = uint(8 * (size - keep))
	}
	x.Check(c&0x800000 == 0, "target %x has the compact form %08x with the sign bit", t, c)
	x.Check(diff.Sign() >= 0 && diff.Cmp(new(big.Int).Lsh(big.NewInt(1), low)) < 0, "target %x has the compact form %08x, which stands for %x", t, c, v)
	x.Check(c == compactOf(t), "target %x has the compact form %08x instead of %08x", t, c, compactOf(t))
	return c
}

func compactGrid(x *explore.X) {
	size := 1 + x.Choose(32)
	top := 1 + x.Choose(255)
	var last uint32
	var lastT *big.Int
	mid := []byte{0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff}
	if x.Thorough {
		mid = nil
		for i := 0; i < 256; i++ {
			mid = append(mid, byte(i))
		}
	}
	b := make([]byte, size)
	b[0] = byte(top)
	for i := 0; i < len(mid); i++ {
		for j := 0; j < len(mid); j++ {
			for k := 0; k < 4; k++ {
				if size > 1 {
					b[1] = mid[i]
				}
				if size > 2 {
					b[2] = mid[j]
				}
				for l := 3; l < size; l++ {
					b[l] = []byte{0, 0, 0xff, 0xff}[k]
				}
				if size > 3 {
					b[3] |= []byte{0, 1, 0x7f, 0xff}[k]
				}
				t := new(big.Int).SetBytes(b)
				c := compact(x, t)
				if lastT != nil {
					x.Check(t.Cmp(lastT) < 0 || c >= last, "target %x is not less than %x but has the compact form %08x, less than %08x", t, lastT, c, last)
				}
				last, lastT = c, t
			}
		}
	}
	// against the greatest target of the pattern before
	first := new(big.Int).Lsh(big.NewInt(int64(top)), uint(8*(size-1)))
	below := new(big.Int).Sub(first, big.NewInt(1))
	if below.Sign() > 0 {
		x.Check(compact(x, below) <= compact(x, first), "target %x has a greater compact form than %x", below, first)
	}
	x.Note("targets of %d bytes starting with %02x, last %08x", size, top, last)
	x.OutcomeS(fmt.Sprint(size, top))
}

func difficulty(x *explore.X, d *big.Int) {
	arg := new(big.Int).Set(d)
	t := wire.DifficultyToTarget(*arg)
	x.Step()
	max := new(big.Int).Lsh(big.NewInt(1), 240)
	want := new(big.Int).Quo(max, d)
	x.Check(t.Cmp(want) == 0, "difficulty %s has the target %x instead of %x", d, &t, want)
	x.Check(arg.Cmp(d) == 0 && policy.BlockTargetMax.Cmp(max) == 0, "converting difficulty %s changes it or the maximum target", d)
	c := wire.DifficultyToCompact(*arg)
	x.Check(c == compactOf(want), "difficulty %s has the compact form %08x instead of %08x", d, c, compactOf(want))
	x.Check(arg.Cmp(d) == 0 && policy.BlockTargetMax.Cmp(max) == 0, "converting difficulty %s to its compact form changes it or the maximum target", d)
}

func difficulties(x *explore.X) {
	const per = 2000
	n := 50
	if x.Thorough {
		n = 2000
	}
	c := x.Choose(n + 241)
	if c < n {
		for i := 0; i < per; i++ {
			difficulty(x, big.NewInt(int64(c*per+i+1)))
		}
	} else {
		p := new(big.Int).Lsh(big.NewInt(1), uint(c-n))
		for k := int64(-40); k <= 40; k++ {
			d := new(big.Int).Add(p, big.NewInt(k))
			if d.Sign() > 0 {
				difficulty(x, d)
			}
			d = new(big.Int).Mul(p, big.NewInt(k+41))
			difficulty(x, d)
		}
	}
	x.OutcomeS(fmt.Sprint(c))
}

// ---------------------------------------------------------------- W07

func peerSignatures(x *explore.X) {
	protos := []uint8{4, 0, 1, 2, 3, 0xff}
	services := []uint32{0, 1, 0xff, 0x100, 0x12345678, 1 << 31, 1<<32 - 1}
	stamps := []uint64{1600000000000, 0, 1, 0xff, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	key := byte(x.Choose(2))
	if x.Thorough {
		key = byte(x.Choose(6))
	}
	seed := bytes.Repeat([]byte{key*40 + 1}, 32)
	priv := ed25519.NewKeyFromSeed(seed)
	keep := append([]byte{}, priv...)
	pub := priv.Public().(ed25519.PublicKey)
	pa := wire.PeerAddress{PeerAddressHeader: wire.PeerAddressHeader{
		Protocol: protos[x.Choose(len(protos))], Services: services[x.Choose(len(services))], Timestamp: stamps[x.Choose(len(stamps))],
		NetAddress: wire.NetAddress{Type: wire.NetAddressIPv4, IP: net.IP{1, 2, 3, 4}}, Distance: 3,
	}}
	if pa.Protocol == 4 || pa.Protocol == 1 {
		pa.Detail = &wire.PeerAddressSrv{Host: "a.example", Port: 8443, TLS: true}
	}
	before := pa.PeerAddressHeader
	// a signature from before must not linger
	if x.Bool() {
		other := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{0x99}, 32))
		pa.Sign(other)
		pa.Services ^= 5
		x.Check(!pa.VerifySignature(), "an old signature vouches for changed services")
		pa.Services ^= 5
	}
	pa.Sign(priv)
	x.Step()
	x.Note("protocol %d, services %x, timestamp %d, key %x: signature %x", pa.Protocol, pa.Services, pa.Timestamp, pub, pa.Signature)
	x.Check(bytes.Equal(priv, keep), "signing changes the key")
	x.Check(bytes.Equal(pa.PublicKey[:], pub), "the signed address has the key %x instead of %x", pa.PublicKey, pub)
	x.Check(pa.VerifySignature(), "the signature does not verify: protocol %d, services %x, timestamp %d", pa.Protocol, pa.Services, pa.Timestamp)
	msg := binary.BigEndian.AppendUint32([]byte{pa.Protocol}, pa.Services)
	msg = binary.BigEndian.AppendUint64(msg, pa.Timestamp)
	x.Check(ed25519.Verify(pub, msg, pa.Signature[:]), "the signature is not over protocol, services and timestamp")
	now := pa.PeerAddressHeader
	now.PublicKey, now.Signature = before.PublicKey, before.Signature
	x.Check(reflect.DeepEqual(now, before), "signing changes %+v to %+v", before, now)
	bad := func(what string, bit int) {
		x.Step()
		x.Check(!pa.VerifySignature(), "protocol %d, services %x, timestamp %d: the signature verifies with bit %d of the %s changed", before.Protocol, before.Services, before.Timestamp, bit, what)
	}
	for i := 0; i < 8; i++ {
		pa.Protocol ^= 1 << i
		bad("protocol", i)
		pa.Protocol ^= 1 << i
	}
	for i := 0; i < 32; i++ {
		pa.Services ^= 1 << i
		bad("services", i)
		pa.Services ^= 1 << i
	}
	for i := 0; i < 64; i++ {
		pa.Timestamp ^= 1 << i
		bad("timestamp", i)
		pa.Timestamp ^= 1 << i
	}
	for i := 0; i < 256; i++ {
		pa.PublicKey[i/8] ^= 1 << (i % 8)
		bad("key", i)
		pa.PublicKey[i/8] ^= 1 << (i % 8)
	}
	for i := 0; i < 512; i++ {
		pa.Signature[i/8] ^= 1 << (i % 8)
		bad("signature", i)
		pa.Signature[i/8] ^= 1 << (i % 8)
	}
	if pa.Protocol == 0 || pa.Protocol == 1 || pa.Protocol == 4 {
		b, err := beserial.Marshal(nil, &pa)
		var back wire.PeerAddress
		if err == nil {
			err = beserial.UnmarshalFull(b, &back)
		}
		x.Check(err == nil && back.VerifySignature(), "the signature does not survive the wire: %v", err)
	}
	for _, na := range []wire.NetAddress{{Type: wire.NetAddressIPv4, IP: net.IP{9, 9, 9, 9}}, {Type: wire.NetAddressUnspecified}, {Type: wire.NetAddressIPv6, IP: make(net.IP, 16)}} {
		for _, dist := range []uint8{0, 1, 255} {
			for _, det := range []interface{}{nil, &wire.PeerAddressSrv{}} {
				pa.NetAddress, pa.Distance, pa.Detail = na, dist, det
				x.Check(pa.VerifySignature(), "the signature depends on fields that are not signed (network address %v, distance %d, detail %v)", na, dist, det)
			}
		}
	}
	x.OutcomeS(string(msg))
}

var peerNets = []wire.NetAddress{{}, {Type: wire.NetAddressIPv4, IP: net.IP{1, 2, 3, 4}}, {Type: wire.NetAddressIPv6, IP: net.ParseIP("2001:db8::1")},
	{Type: wire.NetAddressUnspecified}, {Type: wire.NetAddressUnknown}, {Type: wire.NetAddressIPv4, IP: make(net.IP, 4)}}

// peerVerify is the reference.
func peerVerify(pa *wire.PeerAddress) bool {
	msg := binary.BigEndian.AppendUint32([]byte{pa.Protocol}, pa.Services)
	msg = binary.BigEndian.AppendUint64(msg, pa.Timestamp)
	return ed25519.Verify(pa.PublicKey[:], msg, pa.Signature[:])
}

// peerUnsigned varies what is not signed and changes what is.
func peerUnsigned(x *explore.X) {
	priv := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{0x21}, 32))
	other := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{0x22}, 32))
	pa := wire.PeerAddress{PeerAddressHeader: wire.PeerAddressHeader{
		Protocol: []uint8{0, 1, 2, 4, 3, 0xff}[x.Choose(6)], Services: []uint32{0, 0x01020304}[x.Choose(2)], Timestamp: []uint64{0, 1600000000000}[x.Choose(2)],
		NetAddress: peerNets[x.Choose(len(peerNets))], Distance: []uint8{0, 4}[x.Choose(2)],
	}}
	pa.Detail = []interface{}{nil, &wire.PeerAddressSrv{}, &wire.PeerAddressSrv{Host: "a.example", Port: 8443, TLS: true}}[x.Choose(3)]
	x.Note("%+v", pa)
	x.Check(pa.VerifySignature() == peerVerify(&pa), "without key and signature: verifies = %v", pa.VerifySignature())
	pa.Sign(priv)
	x.Check(pa.VerifySignature(), "the signature does not verify: %+v", pa)
	bad := func(what string, bit int) {
		x.Step()
		x.Check(!pa.VerifySignature(), "%+v: verifies with bit %d of the %s changed", pa, bit, what)
	}
	for i := 0; i < 64; i++ {
		if i < 8 {
			pa.Protocol ^= 1 << i
			bad("protocol", i)
			pa.Protocol ^= 1 << i
		}
		if i < 32 {
			pa.Services ^= 1 << i
			bad("services", i)
			pa.Services ^= 1 << i
		}
		pa.Timestamp ^= 1 << i
		bad("timestamp", i)
		pa.Timestamp ^= 1 << i
	}
	for i := 0; i < 256; i++ {
		pa.PublicKey[i/8] ^= 1 << (i % 8)
		bad("key", i)
		pa.PublicKey[i/8] ^= 1 << (i % 8)
	}
	for i := 0; i < 512; i++ {
		pa.Signature[i/8] ^= 1 << (i % 8)
		bad("signature", i)
		pa.Signature[i/8] ^= 1 << (i % 8)
	}
	key, sig := pa.PublicKey, pa.Signature
	pa.Signature = [64]byte{}
	bad("signature (none)", 0)
	pa.Signature, pa.PublicKey = sig, [32]byte{}
	x.Check(pa.VerifySignature() == peerVerify(&pa), "%+v: verifies without key", pa)
	pa.Sign(other)
	x.Check(pa.VerifySignature(), "signing again does not verify: %+v", pa)
	pa.PublicKey = key
	bad("key (another's signature)", 0)
	x.OutcomeS(fmt.Sprint(pa.Protocol, pa.NetAddress))
}

// peerKeys tries keys and signatures that nobody made, and the IDs of keys.
func peerKeys(x *explore.X) {
	priv := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{0x21}, 32))
	pa := wire.PeerAddress{PeerAddressHeader: wire.PeerAddressHeader{Protocol: []uint8{0, 1, 4}[x.Choose(3)], Services: 7, Timestamp: 99}}
	if x.Bool() {
		pa.NetAddress = peerNets[1]
	}
	pa.Sign(priv)
	point := func(first, rest, last byte) (k [32]byte) {
		for i := range k {
			k[i] = rest
		}
		k[0], k[31] = first, last
		return
	}
	keys := [][32]byte{pa.PublicKey, point(0, 0, 0), point(1, 0, 0), point(0, 0, 0x80), point(1, 0, 0x80), point(0xec, 0xff, 0x7f), point(0xff, 0xff, 0xff), point(0xed, 0xff, 0x7f)}
	var sigs [][64]byte
	sigs = append(sigs, pa.Signature, [64]byte{})
	for _, r := range keys[1:7] {
		var s [64]byte
		copy(s[:], r[:])
		sigs = append(sigs, s)
	}
	i, j := x.Choose(len(keys)), x.Choose(len(sigs))
	x.Note("protocol %d, key %x, signature %x", pa.Protocol, keys[i], sigs[j])
	for s := uint32(0); s < 32; s++ { // small-order points fit some messages
		pa.PublicKey, pa.Signature = keys[i], sigs[j]
		x.Step()
		got, want := pa.VerifySignature(), peerVerify(&pa)
		x.Check(got == want, "%+v: verifies = %v", pa, got)
		x.OutcomeS(fmt.Sprint(i, j, got))
		pa.Services++
	}
	for p := 0; p < 32; p++ {
		for _, v := range []byte{1, 0x80, 0xff} {
			k := keys[i]
			k[p] ^= v
			h := blake2b.Sum256(k[:])
			id := wire.GetPeerID(k[:])
			x.Check(bytes.Equal(id[:], h[:16]), "key %x has peer ID %x", k, id)
		}
	}
}

func init() {
	register(&explore.Check{ID: "W03", Rule: "interlinks with enumerated repeat bits over distinct, equal, alternating and zero hashes are decoded, compared entry by entry with an independent expansion, re-encoded, cut short, and decoded inside blocks",
		Programs: []explore.Program{
			{Name: "patterns", Bounds: "every number of entries up to 16 with every repeat-bit and padding-bit pattern, up to 10 (thorough: all) with 5 choices of hashes", Body: func(x *explore.X) {
				n := x.Choose(17)
				bits := make([]byte, (n+7)/8)
				for i := range bits {
					bits[i] = byte(x.Choose(256))
				}
				kind := 0
				if n <= 10 || x.Thorough {
					kind = x.Choose(len(linkHashes))
				}
				interlink(x, n, bits, kind, true)
			}},
			{Name: "lengths", Bounds: "every number of entries up to 255 with no, all and alternating repeats, every single fresh hash, every single repeat, every run of repeats from the beginning; 5 choices of hashes", Body: func(x *explore.X) {
				n := x.Choose(256)
				bits := make([]byte, (n+7)/8)
				set := func(i int, v bool) {
					if v {
						bits[i/8] |= 0x80 >> (uint(i) % 8)
					} else {
						bits[i/8] &^= 0x80 >> (uint(i) % 8)
					}
				}
				all := func(v byte) {
					for i := range bits {
						bits[i] = v
					}
				}
				form := x.Choose(7)
				switch form {
				case 0:
				case 1:
					all(0xff)
				case 2:
					all(0xaa)
				case 3:
					all(0x55)
				case 4: // one repeat
					if n == 0 {
						return
					}
					set(x.Choose(n), true)
				case 5: // one hash
					if n == 0 {
						return
					}
					all(0xff)
					set(x.Choose(n), false)
				case 6:
					if n == 0 {
						return
					}
					k := x.Choose(n)
					for i := 0; i < k; i++ {
						set(i, true)
					}
				}
				kind := 0
				if form < 4 || x.Thorough {
					kind = x.Choose(len(linkHashes))
				}
				interlink(x, n, bits, kind, true)
			}},
		}})
	register(&explore.Check{ID: "W04", Rule: "roots and signer addresses computed from enumerated Merkle paths are compared with an independent fold, with the roots of enumerated trees, and with those of altered paths",
		Programs: []explore.Program{
			{Name: "sides", Bounds: "every number of levels up to 12 with every branch pattern; every side, leaf byte and three bytes of every sibling altered", Body: func(x *explore.X) {
				n := x.Choose(13)
				p := x.Choose(1 << n)
				bits := make([]byte, (n+7)/8)
				var sibs [][32]byte
				for i := 0; i < n; i++ {
					if p>>i&1 == 1 {
						bits[i/8] |= 0x80 >> (uint(i) % 8)
					}
					sibs = append(sibs, distinctHash(i))
				}
				path(x, bits, sibs, leafValue(0), true)
			}},
			{Name: "levels", Bounds: "every number of levels up to 255: all right, all left, each level alone on the other side", Body: func(x *explore.X) {
				n := x.Choose(256)
				bits := make([]byte, (n+7)/8)
				inv := x.Choose(2) == 1
				one := x.Choose(n + 1)
				var sibs [][32]byte
				for i := 0; i < n; i++ {
					if (i == one-1) != inv {
						bits[i/8] |= 0x80 >> (uint(i) % 8)
					}
					sibs = append(sibs, distinctHash(i))
				}
				if !x.Thorough && n > 20 && one > 20 && (one+n)%5 != 0 && one < n-20 {
					path(x, bits, sibs, leafValue(3), false)
					return
				}
				path(x, bits, sibs, leafValue(0), n <= 40 && one <= 1 || one == 0 && n%50 == 5)
			}},
			{Name: "leaves", Bounds: "leaf lengths 0..200, up to 3 levels with every branch and padding pattern, equal and zero siblings", Body: func(x *explore.X) {
				leaf := make([]byte, x.Choose(201))
				for i := range leaf {
					leaf[i] = byte(i * 3)
				}
				n := x.Choose(4)
				kind := x.Choose(3)
				var sibs [][32]byte
				for i := 0; i < n; i++ {
					sibs = append(sibs, [][32]byte{distinctHash(i), {}, blake2b.Sum256(leaf)}[kind])
				}
				var bits []byte
				if n > 0 {
					bits = []byte{byte(x.Choose(256))}
				}
				path(x, bits, sibs, leaf, false)
			}},
			{Name: "trees", Bounds: "every binary tree with up to 8 (thorough 11) leaves: each leaf proves the root, no other leaf in its place does", Body: merkleTrees},
		}})
	register(&explore.Check{ID: "W05", Rule: "transactions with enumerated boundary fields are asked for all their views, which are compared with the fields they were built from",
		Programs: []explore.Program{{Name: "views", Bounds: "both kinds; up to 4 (thorough 5) fields at boundary values at a time (proofs and data up to 65535 bytes)", Body: views}}})
	register(&explore.Check{ID: "W06", Rule: "compact forms of enumerated targets and targets of enumerated difficulties are compared with big-integer arithmetic",
		Programs: []explore.Program{
			{Name: "targets", Bounds: "every length 1..32 and leading byte, 9 (thorough 256) values of the second and third byte, 4 tails; neighbours in order", Body: compactGrid},
			{Name: "small", Bounds: "every target from 0 to 2^24+1000 (thorough) or 2^21", Body: func(x *explore.X) {
				n := 1 << 9
				if x.Thorough {
					n = 1<<12 + 1
				}
				c := x.Choose(n)
				var last uint32
				for i := 0; i < 4096; i++ {
					if v := int64(c*4096 + i); v >= 0 {
						k := compact(x, big.NewInt(v))
						x.Check(k >= last, "target %d has a smaller compact form than the one before", v)
						last = k
					}
				}
				x.OutcomeS(fmt.Sprint(c))
			}},
			{Name: "difficulties", Bounds: "every difficulty up to 100000 (thorough 4 million), 81 neighbours and 81 multiples of every power of two up to 2^240", Body: difficulties},
		}})
	register(&explore.Check{ID: "W07", Rule: "peer addresses with enumerated signed fields are signed, checked with crypto/ed25519 and checked again with every single bit changed",
		Programs: []explore.Program{
			{Name: "bits", Bounds: "2 (thorough 6) keys x 6 protocols x 7 services x 8 timestamps x fresh or signed before; all 872 single-bit changes, 18 changes of unsigned fields", Body: peerSignatures},
			{Name: "unsigned", Bounds: "6 protocols x 2 services x 2 timestamps x 6 network addresses x 2 distances x 3 details: every single bit of the signed fields, key and signature changed, and another key's signature, no signature, no key", Body: peerUnsigned},
			{Name: "keys", Bounds: "8 keys x 8 signatures, among them points of small order, zeros and ones, x 3 headers, compared with crypto/ed25519; peer IDs of keys with every single byte set", Body: peerKeys},
		}})
}
