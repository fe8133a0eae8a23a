package props

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"strings"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
	"verif/mc/ref"
)

func seedOf(i int) []byte {
	s := make([]byte, 32)
	switch i {
	case 0:
		for j := range s {
			s[j] = byte(j + 1)
		}
	case 1: // zero
	case 2:
		for j := range s {
			s[j] = 0xff
		}
	default:
		for j := range s {
			s[j] = byte(i*31 + j*7)
		}
	}
	return s
}

// contentOf is the reference for what is signed.
func contentOf(data []byte, sender [20]byte, st byte, recipient [20]byte, rt byte, value, fee uint64, height uint32, network, flags byte) []byte {
	var o out
	o.u16(uint16(len(data)))
	o.raw(data)
	o.raw(sender[:])
	o.u8(st)
	o.raw(recipient[:])
	o.u8(rt)
	o.u64(value)
	o.u64(fee)
	o.u32(height)
	o.u8(network)
	o.u8(flags)
	return o.b
}

func extContent(t *wire.ExtendedTx) []byte {
	return contentOf(t.Data, t.Sender, t.SenderType, t.Recipient, t.RecipientType, t.Value, t.Fee, t.ValidityStartHeight, t.NetworkID, t.Flags)
}

func basicContent(t *wire.BasicTx) []byte {
	h := blake2b.Sum256(t.SenderPubKey[:])
	var s [20]byte
	copy(s[:], h[:])
	return contentOf(nil, s, 0, t.Recipient, 0, t.Value, t.Fee, t.ValidityStartHeight, t.NetworkID, 0)
}

func signing(devs func(x *explore.X) int, wallets int, flips bool) func(x *explore.X) {
	return func(x *explore.X) {
		seed := seedOf(x.Choose(wallets))
		w := wallet.DeriveBasic(seed)
		priv := ed25519.NewKeyFromSeed(seed)
		pub := priv.Public().(ed25519.PublicKey)
		var o out
		d := &dev{x: x, left: devs(x)}
		var content, sig []byte
		if x.Bool() {
			t := bExt(d, &o)
			content = extContent(t)
			before := *t
			before.Data = append([]byte{}, t.Data...)
			err := w.SignExtendedTx(t)
			x.Step()
			x.Check(err == nil, "signing extended transaction %s: %v", short(o.b), err)
			p, rest, ok := ref.ParseSigProof(t.Proof)
			x.Check(ok && len(rest) == 0 && len(p.Hashes) == 0, "extended transaction %s gets the proof %x", short(o.b), t.Proof)
			x.Check(bytes.Equal(p.PubKey[:], pub), "extended transaction %s: the proof names the key %x instead of %x", short(o.b), p.PubKey, pub)
			sig = p.Sig[:]
			after := *t
			after.Proof, before.Proof = nil, nil
			x.Check(equalVals(after, before), "signing extended transaction %s changes it to %+v", short(o.b), after)
			proof := append([]byte{}, t.Proof...)
			x.Check(w.SignExtendedTx(t) == nil && bytes.Equal(t.Proof, proof), "signing extended transaction %s again gives another proof", short(o.b))
		} else {
			t := bBasic(d, &o)
			copy(t.SenderPubKey[:], pub)
			content = basicContent(t)
			before := *t
			err := w.SignBasicTx(t)
			x.Step()
			x.Check(err == nil, "signing basic transaction %s: %v", short(o.b), err)
			sig = append([]byte{}, t.Signature[:]...)
			after := *t
			after.Signature = before.Signature
			x.Check(after == before, "signing basic transaction %s changes it to %+v", short(o.b), after)
			x.Check(w.SignBasicTx(t) == nil && bytes.Equal(t.Signature[:], sig), "signing basic transaction %s again gives another signature", short(o.b))
			ext := before.AsExtendedTx() // the same content as an extended transaction has the same signature
			x.Check(w.SignExtendedTx(&ext) == nil, "signing the extended form of %s fails", short(o.b))
			p, _, ok := ref.ParseSigProof(ext.Proof)
			x.Check(ok && bytes.Equal(p.Sig[:], sig), "basic transaction %s and its extended form get different signatures", short(o.b))
		}
		x.Note("content %s: signature %x", short(content), sig)
		x.Check(ed25519.Verify(pub, content, sig), "the signature %x does not verify over the content %s", sig, short(content))
		x.OutcomeS(string(sig))
		if !flips {
			return
		}
		n := len(content)
		if n > 300 {
			n = 300
		}
		for i := 0; i < 8*n; i++ {
			content[i/8] ^= 1 << (i % 8)
			x.Check(!ed25519.Verify(pub, content, sig), "the signature verifies with bit %d of the content %s changed", i, short(content))
			content[i/8] ^= 1 << (i % 8)
		}
		for i := 0; i < 512; i++ {
			sig[i/8] ^= 1 << (i % 8)
			x.Check(!ed25519.Verify(pub, content, sig), "the content %s verifies with bit %d of the signature changed", short(content), i)
			sig[i/8] ^= 1 << (i % 8)
		}
		for i := 0; i < 6; i++ {
			other := ed25519.NewKeyFromSeed(seedOf(i)).Public().(ed25519.PublicKey)
			x.Check(bytes.Equal(other, pub) || !ed25519.Verify(other, content, sig), "the signature verifies under another key")
		}
		x.Steps(8*n + 512)
	}
}

// differ checks that transactions that differ in one signed field have different content.
func differ(x *explore.X) {
	var o1, o2 out
	ext := x.Bool()
	build := func(d *dev, o *out) wire.Tx {
		if ext {
			return bExt(d, o)
		}
		return bBasic(d, o)
	}
	a := build(&dev{x: x, left: 1}, &o1)
	b := build(&dev{x: x, left: 1}, &o2)
	ca, cb := a.AsTxContent(), b.AsTxContent()
	ea, err1 := beserial.Marshal(nil, &ca)
	eb, err2 := beserial.Marshal(nil, &cb)
	x.Steps(2)
	x.Check(err1 == nil && err2 == nil, "encoding contents: %v, %v", err1, err2)
	var ra, rb []byte
	if ext {
		ra, rb = extContent(a.(*wire.ExtendedTx)), extContent(b.(*wire.ExtendedTx))
	} else {
		ra, rb = basicContent(a.(*wire.BasicTx)), basicContent(b.(*wire.BasicTx))
	}
	x.Check(bytes.Equal(ea, eb) == bytes.Equal(ra, rb), "transactions %s and %s: same signed content %v, same fields %v", short(o1.b), short(o2.b), bytes.Equal(ea, eb), bytes.Equal(ra, rb))
	x.OutcomeS(string(ea))
}

// ---------------------------------------------------------------- S02

type walletModel struct {
	priv ed25519.PrivateKey
	pub  [32]byte
	addr [20]byte
}

func walletHistory(depth func(x *explore.X) int) func(x *explore.X) {
	type op struct {
		name string
		run  func(x *explore.X, w, other int)
	}
	return func(x *explore.X) {
		var ws []*wallet.Basic
		var ms []walletModel
		for _, s := range []int{0, 3} {
			seed := seedOf(s)
			w := wallet.DeriveBasic(seed)
			m := walletModel{priv: ed25519.NewKeyFromSeed(seed)}
			copy(m.pub[:], m.priv[32:])
			h := blake2b.Sum256(m.pub[:])
			copy(m.addr[:], h[:])
			for i := range seed { // the seed belongs to the caller
				seed[i] = 0x77
			}
			ws, ms = append(ws, w), append(ms, m)
		}
		var past []string
		// transactions signed earlier, which later calls have no business with
		type signed struct {
			tx    *wire.ExtendedTx
			proof []byte
			by    int
		}
		var done []signed
		say := func() string { return strings.Join(past, ", ") }
		content := func(n int) wire.BasicTx {
			return wire.BasicTx{Recipient: [20]byte{9, byte(n)}, Value: uint64(100 + n), Fee: uint64(n), ValidityStartHeight: uint32(n), NetworkID: 42}
		}
		ops := []op{
			{"address", func(x *explore.X, w, _ int) {
				a := ws[w].GetAddress()
				x.Check(a == ms[w].addr, "the address of wallet %d is %x instead of %x after %s", w, a, ms[w].addr, say())
				a[0]++
				x.Check(ws[w].GetAddress() == ms[w].addr, "changing the returned address changes wallet %d", w)
			}},
			{"key", func(x *explore.X, w, _ int) {
				k := ws[w].GetPublicKey()
				x.Check(k == ms[w].pub, "the key of wallet %d is %x instead of %x after %s", w, k, ms[w].pub, say())
				k[5]++
				x.Check(ws[w].GetPublicKey() == ms[w].pub, "changing the returned key changes wallet %d", w)
			}},
			{"sign own", func(x *explore.X, w, _ int) {
				t := content(len(past))
				t.SenderPubKey = ms[w].pub
				err := ws[w].SignBasicTx(&t)
				x.Check(err == nil && ed25519.Verify(ms[w].pub[:], basicContent(&t), t.Signature[:]), "wallet %d signing its own transaction after %s: %v, %x", w, say(), err, t.Signature)
			}},
			{"sign foreign", func(x *explore.X, w, other int) {
				for v := 0; v < 4; v++ {
					t := content(len(past))
					switch v {
					case 0:
						t.SenderPubKey = ms[other].pub
					case 1:
						t.SenderPubKey = ms[w].pub
						t.SenderPubKey[31] ^= 0x80
					case 2:
						t.SenderPubKey = ms[w].pub
						t.SenderPubKey[0] ^= 1
					case 3: // zero
					}
					t.Signature[3] = 0x5a
					before := t
					err := ws[w].SignBasicTx(&t)
					x.Check(err != nil, "wallet %d signs a transaction of %x after %s", w, t.SenderPubKey, say())
					x.Check(t == before, "wallet %d refuses a transaction after %s but changes it to %+v", w, say(), t)
				}
			}},
			{"sign extended", func(x *explore.X, w, _ int) {
				b := content(len(past))
				t := wire.ExtendedTx{Data: []byte{1, 2}, Sender: ms[w].addr, Recipient: b.Recipient, Value: b.Value, Fee: b.Fee, NetworkID: 42}
				err := ws[w].SignExtendedTx(&t)
				p, rest, ok := ref.ParseSigProof(t.Proof)
				x.Check(err == nil && ok && len(rest) == 0, "wallet %d signing an extended transaction after %s: %v, proof %x", w, say(), err, t.Proof)
				x.Check(p.PubKey == ms[w].pub && p.Signer() == ms[w].addr && ed25519.Verify(ms[w].pub[:], extContent(&t), p.Sig[:]), "wallet %d makes the proof %x after %s", w, t.Proof, say())
				var sp wire.SignatureProof
				done = append(done, signed{&t, append([]byte(nil), t.Proof...), w})
				x.Check(beserial.UnmarshalFull(t.Proof, &sp) == nil && sp.SignerAddress() == ms[w].addr, "the proof of wallet %d after %s names another signer", w, say())
			}},
			{"sign a changed copy", func(x *explore.X, w, _ int) { // of the last extended transaction, or of one never signed
				b := content(len(past))
				t := wire.ExtendedTx{Sender: ms[w].addr, Recipient: b.Recipient, Data: []byte{7}}
				if len(done) > 0 {
					t = *done[len(done)-1].tx
				}
				t.Value, t.ValidityStartHeight = b.Value, b.ValidityStartHeight
				err := ws[w].SignExtendedTx(&t)
				p, rest, ok := ref.ParseSigProof(t.Proof)
				x.Check(err == nil && ok && len(rest) == 0 && p.PubKey == ms[w].pub && ed25519.Verify(ms[w].pub[:], extContent(&t), p.Sig[:]), "wallet %d signing a changed copy of a signed transaction after %s: %v, proof %x", w, say(), err, t.Proof)
				done = append(done, signed{&t, append([]byte(nil), t.Proof...), w})
			}},
			{"again", func(x *explore.X, w, _ int) { // a second wallet from the same seed
				s := seedOf([]int{0, 3}[w])
				v := wallet.DeriveBasic(s)
				x.Check(v.GetAddress() == ms[w].addr && v.GetPublicKey() == ms[w].pub, "a wallet derived again has address %x and key %x after %s", v.GetAddress(), v.GetPublicKey(), say())
			}},
		}
		n := depth(x)
		for i := 0; i < n; i++ {
			c := x.Choose(2 * len(ops))
			w := c % 2
			o := ops[c/2]
			x.Step()
			o.run(x, w, 1-w)
			past = append(past, fmt.Sprintf("%s %d", o.name, w))
			for _, d := range done {
				x.Check(bytes.Equal(d.tx.Proof, d.proof), "the proof of a transaction that wallet %d signed earlier changed to %x in %s", d.by, d.tx.Proof, say())
			}
		}
		x.Note("%s", say())
		for w := range ws {
			x.Check(bytes.Equal(ws[w].PrivateKey, ms[w].priv) && bytes.Equal(ws[w].PublicKey, ms[w].pub[:]) && ws[w].GetAddress() == ms[w].addr, "wallet %d is no longer itself after %s", w, say())
		}
		x.OutcomeS(say())
	}
}

func generated(x *explore.X) {
	a, b := wallet.GenerateBasic(), wallet.GenerateBasic()
	x.Check(!bytes.Equal(a.PublicKey, b.PublicKey) && a.GetAddress() != b.GetAddress(), "two generated wallets are the same")
	for _, w := range []*wallet.Basic{a, b} {
		k := w.GetPublicKey()
		h := blake2b.Sum256(k[:])
		ad := w.GetAddress()
		x.Check(bytes.Equal(ad[:], h[:20]), "a generated wallet has address %x and key %x", ad, k)
		again := wallet.DeriveBasic(w.PrivateKey.Seed())
		x.Check(again.GetAddress() == ad, "a wallet derived from a generated one's seed has another address")
		t := wire.BasicTx{SenderPubKey: k, Value: 7}
		x.Check(w.SignBasicTx(&t) == nil && ed25519.Verify(k[:], basicContent(&t), t.Signature[:]), "a generated wallet's signature does not verify")
	}
	x.Steps(10)
	x.OutcomeS("ok")
}

func seeds(x *explore.X) {
	s := make([]byte, 32)
	s[x.Choose(32)] = byte(x.Choose(256))
	w := wallet.DeriveBasic(s)
	priv := ed25519.NewKeyFromSeed(s)
	h := blake2b.Sum256(priv[32:])
	a := w.GetAddress()
	k := w.GetPublicKey()
	x.Steps(3)
	x.Check(bytes.Equal(k[:], priv[32:]) && bytes.Equal(a[:], h[:20]) && bytes.Equal(w.PrivateKey, priv), "seed %x: key %x, address %x", s, k, a)
	x.OutcomeS(string(a[:]))
}

func init() {
	register(&explore.Check{ID: "S01", Rule: "transactions with enumerated boundary fields are signed; the signature is checked with crypto/ed25519 over an independently encoded content, and again with every single bit changed",
		Programs: []explore.Program{
			{Name: "fields", Bounds: "3 wallets, both kinds, up to 2 (thorough 3) fields at boundary values at a time", Body: signing(pick(2, 3), 3, false)},
			{Name: "bits", Bounds: "2 wallets, both kinds, up to one field at boundary values: every bit of the first 300 content bytes and of the signature, six other keys", Body: signing(pick(1, 1), 2, true)},
			{Name: "differ", Bounds: "both kinds, every pair of transactions that differ from the default in up to one field each", Body: differ},
		}})
	register(&explore.Check{ID: "S02", Rule: "sequences of wallet operations over two wallets, each result compared with keys and addresses derived independently",
		Programs: []explore.Program{
			{Name: "histories", Bounds: "2 wallets x 7 operations (address, key, sign own, sign foreign in four ways, sign extended, sign a changed copy, derive again), all sequences of 4 (thorough 5)", Body: walletHistory(pick(4, 5))},
			{Name: "seeds", Bounds: "8192 seeds: every value of every byte", Body: seeds},
			{Name: "generated", Bounds: "two generated wallets", Body: generated},
		}})
}
