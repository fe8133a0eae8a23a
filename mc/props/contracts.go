package props

import (
	"fmt"
	"math/big"

	"golang.org/x/crypto/blake2b"

	"verif/mc/explore"
	"verif/mc/ref"
)

// spend runs one outgoing transaction on an account object and compares with the reference.
// The object passed in must not change, and only the balance may differ in what comes back.
func spend(x *explore.X, a ref.Acc, tx *ref.Tx, height uint32) (ref.Acc, bool) {
	in := toWireAcc(&a)
	wtx := toWireTx(tx)
	out, err := in.ApplyOutgoingTx(wtx, height)
	x.Step()
	want, why := ref.Debit(a, tx, height)
	if x.Tracing() {
		x.Note("%+v at height %d: spend %d+%d with proof %x -> err=%v (reference: %q)", a, height, tx.Value, tx.Fee, tx.Proof, err, why)
	}
	if after, _ := fromWireAcc(in); after != a {
		x.Fail("spending %d+%d at height %d changed the contract object from %+v to %+v", tx.Value, tx.Fee, height, a, after)
	}
	if (err == nil) != (why == ref.Accepted) {
		x.Fail("contract %+v at height %d: spending %d+%d with proof %x gives err=%v, reference %q", a, height, tx.Value, tx.Fee, tx.Proof, err, why)
	}
	if err != nil {
		return a, false
	}
	got, ok := fromWireAcc(out)
	if !ok || got != want {
		x.Fail("contract %+v at height %d: spending %d+%d leaves %+v, want %+v", a, height, tx.Value, tx.Fee, got, want)
	}
	return got, true
}

func dedup64(in ...uint64) (out []uint64) {
	seen := map[uint64]bool{}
	for _, v := range in {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return
}
func dedup32(in ...uint32) (out []uint32) {
	seen := map[uint32]bool{}
	for _, v := range in {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return
}

// splits lists value/fee pairs around what can be spent.
func splits(spendable, balance uint64) (out [][2]uint64) {
	for _, t := range dedup64(0, 1, spendable-1, spendable, spendable+1, balance-1, balance, balance+1, 1<<63, 1<<64-1) {
		out = append(out, [2]uint64{t, 0})
		if t > 0 {
			out = append(out, [2]uint64{t - 1, 1}, [2]uint64{0, t})
		}
	}
	// Sums that wrap around to something small.
	out = append(out, [2]uint64{1<<64 - 1, 1}, [2]uint64{1<<64 - 1, spendable + 1}, [2]uint64{1 << 63, 1 << 63}, [2]uint64{spendable + 1, 1<<64 - 1})
	return
}

// ---------------------------------------------------------------- V01

func vestingGrid(x *explore.X) {
	start := []uint32{0, 1, 5, 1 << 31, 1<<32 - 4, 1<<32 - 1}[x.Choose(6)]
	step := []uint32{0, 1, 2, 3, 1 << 16, 1 << 31, 1<<32 - 1}[x.Choose(7)]
	amount := []uint64{0, 1, 2, 5, 7, 1 << 32, 1 << 63, 1<<64 - 1}[x.Choose(8)]
	total := []uint64{0, 1, 5, 10, 1 << 33, 1 << 63, 1<<64 - 1}[x.Choose(7)]
	balance := dedup64(0, 1, 4, 5, 6, 10, total-1, total, total+1, 1<<63, 1<<64-1)
	extra := []uint32{}
	if x.Thorough {
		for i := uint32(0); i < 24; i++ {
			extra = append(extra, start+i*step, start+i*step-1)
		}
	}
	a := ref.Acc{Kind: ref.Vesting, Owner: pA.addr, Start: start, StepBlocks: step, StepAmount: amount, Total: total}
	tx := extTx(aV, 1, pB.addr, 0, 0, 0, sigProof(pA))
	hs := append([]uint32{1, start - 1, start, start + 1, start + step - 1, start + step, start + step + 1, start + 2*step - 1, start + 2*step,
		start + 3*step, start + 5*step - 1, start + 5*step, 1 << 31, 1<<32 - 2, 1<<32 - 1}, extra...)
	for _, b := range balance {
		a.Balance = b
		for _, h := range dedup32(hs...) {
			if h == 0 {
				continue
			}
			sp := a.Spendable(h).Uint64()
			for _, s := range splits(sp, b) {
				tx.Value, tx.Fee = s[0], s[1]
				after, ok := spend(x, a, &tx, h)
				if ok {
					// The bound itself, without the reference's accounting.
					if h <= start && tx.Value+tx.Fee != 0 {
						x.Fail("%d+%d withdrawn at height %d, not after the start %d", tx.Value, tx.Fee, h, start)
					}
					keepsAtLeast(x, &after, b, h)
					x.OutcomeS(fmt.Sprintf("%d %d", after.Balance, sp))
				}
			}
		}
	}
}

func keepsAtLeast(x *explore.X, a *ref.Acc, before uint64, h uint32) {
	keep := new(big.Int).SetUint64(a.Total)
	if h > a.Start {
		if a.StepBlocks == 0 || a.StepAmount == 0 {
			keep.SetInt64(0)
		} else {
			k := new(big.Int).SetUint64(uint64(h-a.Start) / uint64(a.StepBlocks))
			keep.Sub(keep, k.Mul(k, new(big.Int).SetUint64(a.StepAmount)))
		}
	}
	if a.Balance < before && keep.Sign() > 0 && new(big.Int).SetUint64(a.Balance).Cmp(keep) < 0 {
		x.Fail("the contract keeps %d at height %d, but %d has not vested: %+v", a.Balance, h, keep, *a)
	}
}

// vestingHistory follows a contract over rising heights.
func vestingHistory(blocks bool) func(x *explore.X) {
	return func(x *explore.X) {
		a := ref.Acc{Kind: ref.Vesting, Owner: pA.addr,
			Start: []uint32{0, 1, 3}[x.Choose(3)], StepBlocks: []uint32{0, 1, 2, 3}[x.Choose(4)],
			StepAmount: []uint64{0, 1, 2, 5}[x.Choose(4)], Total: []uint64{4, 5, 7}[x.Choose(3)]}
		a.Balance = a.Total + uint64(x.Choose(3)) - 1
		orig := a
		h := uint32(1)
		var n *node
		if blocks {
			n = newNode(x, ref.State{aV: a, pB.addr: {Balance: 1}})
		}
		d := pick(4, 6)(x)
		if blocks {
			d = pick(2, 4)(x)
		}
		for i := 0; i < d; i++ {
			if x.Visited(fmt.Sprintf("%v %d %d", orig, h, a.Balance), int(d-i)) {
				return
			}
			h += uint32(x.Choose(4))
			tx := extTx(aV, 1, pB.addr, 0, 0, 0, sigProof(pA))
			tx.Value = uint64(x.Choose(9))
			tx.Fee = uint64(x.Choose(2))
			if tx.Value > a.Balance+1 {
				return
			}
			before := a.Balance
			var ok bool
			if !blocks {
				a, ok = spend(x, a, &tx, h)
			} else {
				err, why, detail := n.push(buildBlock(n.ref, h, pM.addr, tx))
				ok = err == nil
				if !x.Fresh() {
					a = n.ref[aV]
					h++
					continue
				}
				x.Check((err == nil) == (why == ref.Accepted), "block with spend %d+%d from %+v at %d: err=%v, reference %q %s", tx.Value, tx.Fee, a, h, err, why, detail)
				n.checkState()
				ad := aV
				got, _ := fromWireAcc(n.accs.GetAccount(&ad))
				if got.Kind == ref.Vesting {
					a = got
				} else if ok {
					a.Balance = 0 // pruned
				}
				h++
			}
			if ok {
				keepsAtLeast(x, &a, before, h)
			}
			x.OutcomeS(fmt.Sprintf("%v %d %d", orig, h, a.Balance))
			if a.Balance == 0 && blocks {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- V02

// ident is somebody who can own a contract: a key, or one leaf of a multi-signature tree.
type ident struct {
	name  string
	proof ref.SigProof
	addr  ref.Addr
}

func keyN(i int) (k [32]byte) {
	for j := range k {
		k[j] = byte(i*7 + j*3 + 1)
	}
	return
}

// treeIdents builds a complete tree over 2^depth keys and returns a proof for each leaf.
func treeIdents(depth, base int) (out []ident) {
	n := 1 << depth
	lvl := make([][32]byte, n)
	for i := range lvl {
		k := keyN(base + i)
		lvl[i] = blake2b.Sum256(k[:])
	}
	var levels [][][32]byte
	for {
		levels = append(levels, lvl)
		if len(lvl) == 1 {
			break
		}
		var up [][32]byte
		for i := 0; i < len(lvl); i += 2 {
			up = append(up, blake2b.Sum256(append(append([]byte{}, lvl[i][:]...), lvl[i+1][:]...)))
		}
		lvl = up
	}
	root := levels[len(levels)-1][0]
	for i := 0; i < n; i++ {
		id := ident{name: fmt.Sprintf("leaf %d of %d", i, n), proof: ref.SigProof{PubKey: keyN(base + i)}}
		copy(id.addr[:], root[:20])
		id.proof.Bits = make([]byte, (depth+7)/8)
		for d, j := 0, i; d < depth; d, j = d+1, j/2 {
			id.proof.Hashes = append(id.proof.Hashes, levels[d][j^1])
			if j&1 == 1 {
				id.proof.Bits[d/8] |= 0x80 >> (d % 8)
			}
		}
		out = append(out, id)
	}
	return
}

func plainIdent(p party) ident {
	return ident{p.name, ref.SigProof{PubKey: p.pub}, p.addr}
}

var identities = func() []ident {
	out := []ident{plainIdent(pA), plainIdent(pB), plainIdent(pC)}
	for d := 1; d <= 3; d++ {
		out = append(out, treeIdents(d, d*20)...)
	}
	// Proofs that lead nowhere in particular: a wrong side, a wrong sibling, a missing level.
	bad := out[5]
	bad.name = "leaf with the wrong side"
	bad.proof.Bits = []byte{bad.proof.Bits[0] ^ 0x80}
	out = append(out, bad)
	bad = out[5]
	bad.name = "leaf without its upper level"
	bad.proof.Hashes = bad.proof.Hashes[:1]
	out = append(out, bad)
	bad = out[5]
	bad.name = "inner node as key"
	bad.proof = ref.SigProof{PubKey: [32]byte(bad.proof.Hashes[1])}
	out = append(out, bad)
	// A key alone and with a path are different signers, whatever the path says.
	for _, p := range []party{pA, pB} {
		for i, bits := range []byte{0, 0x80} {
			id := ident{name: fmt.Sprintf("%s with path %d", p.name, i), proof: ref.SigProof{PubKey: p.pub, Bits: []byte{bits}, Hashes: make([][32]byte, 1)}}
			out = append(out, id)
		}
	}
	bad = out[3]
	bad.name = "leaf without its path"
	bad.proof = ref.SigProof{PubKey: bad.proof.PubKey}
	out = append(out, bad, ident{name: "zero key"})
	for i := range out {
		out[i].addr = out[i].proof.Signer()
	}
	return out
}()

// roles are the addresses that can be named as owner, sender or recipient: somebody's, or nobody's.
var roles = func() (out []ident) {
	for _, i := range owners {
		out = append(out, identities[i])
	}
	out = append(out, identities[len(identities)-1], ident{name: "the zero address"}, ident{name: "the contract itself", addr: aV}, ident{name: "the last address"})
	for i := range out[len(out)-1].addr {
		out[len(out)-1].addr[i] = 0xff
	}
	return
}()

var owners = []int{0, 1, 3, 5, 9} // an identity for each address that can own something

func contractFor(owner, sender, recipient ref.Addr, kind byte) ref.Acc {
	if kind == ref.Vesting {
		return ref.Acc{Kind: ref.Vesting, Balance: 9, Owner: owner, Start: 1, Total: 9}
	}
	return ref.Acc{Kind: ref.HTLC, Balance: 9, Sender: sender, Recipient: recipient, Algo: 3, Hash: hashRoot, HashCount: 2, Timeout: 11, Total: 9}
}

func htlcRegular(algo, depth byte, root [32]byte, sp []byte) []byte {
	b := append([]byte{1, algo, depth}, root[:]...)
	b = append(b, make([]byte, 32)...)
	return append(b, sp...)
}

func signerRoles(x *explore.X) {
	o := roles[x.Choose(len(roles))]
	r := roles[x.Choose(len(roles))]
	p := identities[x.Choose(len(identities))]
	q := identities[x.Choose(len(identities))]
	p1, q1 := p.proof.Encode(), q.proof.Encode()
	v := contractFor(o.addr, ref.Addr{}, ref.Addr{}, ref.Vesting)
	h := contractFor(ref.Addr{}, o.addr, r.addr, ref.HTLC)
	tx := extTx(aV, 1, pC.addr, 0, 3, 1, nil)
	cat := func(l ...[]byte) (b []byte) {
		for _, e := range l {
			b = append(b, e...)
		}
		return
	}
	for i, proof := range [][]byte{
		p1, cat(p1, q1), {}, cat([]byte{1}, p1), cat([]byte{0}, p1),
		htlcRegular(3, 2, hashRoot, p1), htlcRegular(3, 2, hashRoot, cat(p1, q1)), htlcRegular(3, 0, hashRoot, p1), htlcRegular(1, 2, hashRoot, p1),
		cat([]byte{2}, p1, q1), cat([]byte{2}, q1, p1), cat([]byte{2}, p1), cat([]byte{2}, p1, q1, p1),
		cat([]byte{3}, p1), cat([]byte{3}, p1, q1), cat([]byte{4}, p1), cat([]byte{255}, p1, q1),
		p1, htlcRegular(3, 2, hashRoot, p1), cat([]byte{2}, p1, q1), cat([]byte{3}, p1),
	} {
		tx.Value, tx.Fee = 3, 1
		if i >= 17 { // moving nothing takes a signature as well
			tx.Value, tx.Fee = 0, 0
		}
		for _, height := range []uint32{1, 2, 11, 12} {
			tx.Proof = proof
			_, ok1 := spend(x, v, &tx, height)
			_, ok2 := spend(x, h, &tx, height)
			if ok1 && p.addr != o.addr {
				x.Fail("%s spent from a vesting contract of %s", p.name, o.name)
			}
			x.OutcomeS(fmt.Sprint(ok1, ok2, height, o.name, r.name, p.name, q.name))
		}
	}
	x.Note("owner/sender %s, recipient %s, signers %s and %s", o.name, r.name, p.name, q.name)
}

// proofDamage truncates, extends and alters every byte of valid proofs.
func proofDamage(x *explore.X) {
	o := identities[owners[x.Choose(len(owners))]]
	r := identities[owners[x.Choose(len(owners))]]
	form := x.Choose(4)
	op, rp := o.proof.Encode(), r.proof.Encode()
	c := contractFor(o.addr, o.addr, r.addr, ref.HTLC)
	var proof []byte
	heights := []uint32{11}
	switch form {
	case 0:
		c, proof = contractFor(o.addr, ref.Addr{}, ref.Addr{}, ref.Vesting), op
		if r.name != "A" {
			x.Abort()
		}
	case 1:
		proof = htlcRegular(3, 1, hashRoot, rp)
	case 2:
		proof = append(append([]byte{2}, rp...), op...)
	case 3:
		proof = append([]byte{3}, op...)
		heights[0] = 12
	}
	tx := extTx(aV, 1, pC.addr, 0, 3, 1, proof)
	for _, height := range heights {
		if _, ok := spend(x, c, &tx, height); !ok {
			x.Fail("a valid proof %x was rejected", proof)
		}
		for l := range proof {
			tx.Proof = proof[:l]
			if _, ok := spend(x, c, &tx, height); ok {
				x.Fail("a truncated proof was accepted")
			}
		}
		for _, tail := range []int{1, 2, 32, 33, 97, 300} {
			tx.Proof = append(append([]byte{}, proof...), make([]byte, tail)...)
			if _, ok := spend(x, c, &tx, height); ok {
				x.Fail("an over-long proof was accepted")
			}
		}
		m := append([]byte{}, proof...)
		tx.Proof = m
		for i := range proof {
			for v := 0; v < 256; v++ {
				if !x.Thorough && v != int(proof[i])^1 && v != int(proof[i])^0x80 && v != 0 && v != 255 && v != 3 && i > 3 {
					continue
				}
				m[i] = byte(v)
				_, ok := spend(x, c, &tx, height)
				x.OutcomeS(fmt.Sprint(form, i, v, ok))
			}
			m[i] = proof[i]
		}
	}
	x.Note("owner/sender %s, recipient %s, form %d", o.name, r.name, form)
}

// contractInBlocks drives the roles through whole blocks, so that the dispatch is covered too.
func contractInBlocks(x *explore.X) {
	o := roles[x.Choose(len(roles))]
	r := roles[x.Choose(len(roles))]
	p := identities[x.Choose(len(identities))]
	kind := byte(1 + x.Choose(2))
	p1, o1, r1 := p.proof.Encode(), o.proof.Encode(), r.proof.Encode()
	c := contractFor(o.addr, o.addr, r.addr, kind)
	for _, proof := range [][]byte{p1, htlcRegular(3, 1, hashRoot, p1), append(append([]byte{2}, p1...), o1...), append(append([]byte{2}, r1...), p1...), append([]byte{3}, p1...), nil} {
		for _, height := range []uint32{1, 11, 12} {
			for _, v := range []uint64{3, 8, 0} {
				n := newNode(x, ref.State{aV: c, pC.addr: {Balance: 2}})
				fee := uint64(1)
				if v == 0 {
					fee = 0
				}
				b := buildBlock(n.ref, height, pM.addr, extTx(aV, kind, pC.addr, 0, v, fee, proof))
				err, why, detail := n.push(b)
				x.Check((err == nil) == (why == ref.Accepted), "contract %+v, proof %x: %s: err=%v, reference %q %s", c, proof, describeBlock(b), err, why, detail)
				n.checkState()
				x.OutcomeS(fmt.Sprint(why, height, kind, v))
			}
		}
	}
	x.Note("owner/sender %s, recipient %s, signer %s, kind %d", o.name, r.name, p.name, kind)
}

// ---------------------------------------------------------------- V03

func htlcGrid(x *explore.X) {
	timeout := []uint32{0, 1, 10, 1 << 31, 1<<32 - 2, 1<<32 - 1}[x.Choose(6)]
	count := []byte{1, 2, 3, 7, 128, 254, 255}[x.Choose(7)]
	total := []uint64{0, 1, 2, 7, 100, 1<<32 + 5, 1<<56 + 3, 1<<63 - 1, 1<<64 - 1}[x.Choose(9)]
	depth := []byte{0, 1, 2, count / 2, count - 1, count, count + 1, 254, 255}[x.Choose(9)]
	a := ref.Acc{Kind: ref.HTLC, Sender: pB.addr, Recipient: pA.addr, Algo: 3, Hash: hashRoot, HashCount: count, Timeout: timeout, Total: total}
	tx := extTx(aH, 2, pC.addr, 0, 0, 0, nil)
	other := hashRoot
	other[31] ^= 1
	for _, bal := range dedup64(0, 1, 5, total-1, total, total+1, total/2, 1<<64-1) {
		a.Balance = bal
		keep := ref.HTLCKeep(&a, depth)
		sp := uint64(0)
		if d := new(big.Int).Sub(new(big.Int).SetUint64(bal), keep); d.Sign() > 0 {
			sp = d.Uint64()
		}
		for _, h := range dedup32(1, timeout-1, timeout, timeout+1, 1<<31, 1<<32-1) {
			if h == 0 {
				continue
			}
			for pi, proof := range [][]byte{
				regularProof(3, depth, hashRoot, pA), timeoutProof(pB), earlyProof(pA, pB),
				regularProof(3, depth, other, pA), regularProof(1, depth, hashRoot, pA), regularProof(3, depth, hashRoot, pB), timeoutProof(pA), earlyProof(pB, pA),
			} {
				tx.Proof = proof
				sps := splits(sp, bal)
				if pi > 2 {
					sps = [][2]uint64{{0, 0}, {sp, 0}}
				}
				for _, s := range sps {
					tx.Value, tx.Fee = s[0], s[1]
					after, ok := spend(x, a, &tx, h)
					if !ok {
						continue
					}
					if pi > 2 || (pi == 0 && h > timeout) || (pi == 1 && h <= timeout) {
						x.Fail("spent by a closed path: proof %d at height %d, timeout %d", pi, h, timeout)
					}
					if pi == 0 && new(big.Int).SetUint64(after.Balance).Cmp(keep) < 0 {
						x.Fail("%d left of %+v after revealing %d, want at least %d", after.Balance, a, depth, keep)
					}
					x.OutcomeS(fmt.Sprintf("%d %d %d", pi, after.Balance, sp))
				}
			}
		}
	}
	x.Note("timeout %d, count %d, total %d, depth %d", timeout, count, total, depth)
}

// htlcDepths has every depth and every count.
func htlcDepths(x *explore.X) {
	count := byte(1 + x.Choose(255))
	total := []uint64{3, 1000, 1<<64 - 1, 1 << 57}[x.Choose(4)]
	a := ref.Acc{Kind: ref.HTLC, Balance: total, Sender: pB.addr, Recipient: pA.addr, Algo: 1, Hash: hashRoot, HashCount: count, Timeout: 10, Total: total}
	tx := extTx(aH, 2, pC.addr, 0, 0, 0, nil)
	for depth := 0; depth < 256; depth++ {
		tx.Proof = regularProof(1, byte(depth), hashRoot, pA)
		keep := ref.HTLCKeep(&a, byte(depth)).Uint64()
		for _, v := range dedup64(total-keep, total-keep+1) {
			if v > total || v < total-keep {
				continue
			}
			tx.Value = v
			_, ok := spend(x, a, &tx, 10)
			x.Check(ok == (v == total-keep), "count %d, depth %d, total %d: taking %d gives %v", count, depth, total, v, ok)
		}
		x.OutcomeS(fmt.Sprint(count, depth, total, keep))
	}
	x.Note("count %d, total %d", count, total)
}

// htlcAlgorithms has every pair of algorithms and every byte of the hash root.
func htlcAlgorithms(x *explore.X) {
	algo := byte(x.Choose(256))
	a := ref.Acc{Kind: ref.HTLC, Balance: 9, Sender: pB.addr, Recipient: pA.addr, Algo: algo, Hash: hashRoot, HashCount: 2, Timeout: 10, Total: 9}
	tx := extTx(aH, 2, pC.addr, 0, 9, 0, nil)
	for o := 0; o < 256; o++ {
		tx.Proof = regularProof(byte(o), 2, hashRoot, pA)
		_, ok := spend(x, a, &tx, 10)
		x.Check(ok == (byte(o) == algo), "algorithm %d for a contract of algorithm %d: %v", o, algo, ok)
		root := hashRoot
		root[o/8] ^= 1 << (o % 8)
		tx.Proof = regularProof(algo, 2, root, pA)
		_, ok = spend(x, a, &tx, 10)
		x.Check(!ok, "a root with bit %d changed was accepted", o)
	}
	x.Note("algorithm %d", algo)
}

// htlcHistory has sequences of redemptions and recoveries over rising heights.
func htlcHistory(blocks bool) func(x *explore.X) {
	return func(x *explore.X) {
		total := []uint64{5, 6, 9}[x.Choose(3)]
		a := ref.Acc{Kind: ref.HTLC, Sender: pB.addr, Recipient: pA.addr, Algo: 3, Hash: hashRoot,
			HashCount: []byte{1, 2, 3, 4}[x.Choose(4)], Timeout: 3, Total: total}
		a.Balance = total + uint64(x.Choose(3)) - 1
		orig := a
		h := uint32(1)
		var n *node
		if blocks {
			n = newNode(x, ref.State{aV: a, pC.addr: {Balance: 1}})
		}
		d := pick(4, 6)(x)
		if blocks {
			d = pick(2, 4)(x)
		}
		for i := 0; i < d; i++ {
			if x.Visited(fmt.Sprintf("%v %d %d", orig, h, a.Balance), d-i) {
				return
			}
			if !blocks {
				h += uint32(x.Choose(3))
			}
			var proof []byte
			c := x.Choose(8)
			switch c {
			case 0, 1, 2, 3, 4:
				proof = regularProof(3, byte(c), hashRoot, pA)
			case 5:
				proof = timeoutProof(pB)
			case 6:
				proof = earlyProof(pA, pB)
			case 7:
				proof = timeoutProof(pA)
			}
			tx := extTx(aV, 2, pC.addr, 0, uint64(x.Choose(11)), uint64(x.Choose(2)), proof)
			if tx.Value > a.Balance+1 {
				return
			}
			if !blocks {
				a, _ = spend(x, a, &tx, h)
			} else {
				err, why, detail := n.push(buildBlock(n.ref, h, pM.addr, tx))
				if x.Fresh() {
					x.Check((err == nil) == (why == ref.Accepted), "block at %d with %d+%d of %+v, proof %d: err=%v, reference %q %s", h, tx.Value, tx.Fee, a, c, err, why, detail)
					n.checkState()
				}
				a = n.ref[aV]
				h++
				if a.Kind != ref.HTLC {
					return
				}
			}
			x.OutcomeS(fmt.Sprintf("%v %d %d", orig, h, a.Balance))
		}
	}
}

func init() {
	register(&explore.Check{ID: "V01", Rule: "withdrawals around the vested amount at every height of the space, alone and in histories; acceptance and the remaining contract are compared with integer arithmetic",
		Programs: []explore.Program{
			{Name: "grid", Bounds: "6 starts x 7 step lengths x 8 step amounts x 7 totals x 11 balances x 15 (thorough 63) heights x 34 value/fee pairs", Body: vestingGrid},
			{Name: "histories", Bounds: "432 schedules, all histories of 4 (thorough 6) withdrawals of 0..8+0..1 with height gaps 0..3, merged by (height, balance)", Body: vestingHistory(false)},
			{Name: "blocks", Bounds: "432 schedules, all histories of 2 (thorough 4) blocks with a withdrawal of 0..8+0..1, height gaps 1..4, merged by (height, balance)", Body: vestingHistory(true)},
		}})
	register(&explore.Check{ID: "V02", Rule: "every assignment of signers to roles and every damage to valid proofs is tried; acceptance and the remaining contract are compared with the reference",
		Programs: []explore.Program{
			{Name: "roles", Bounds: fmt.Sprintf("%d owners/senders x %d recipients (five somebodies, the zero key, the zero address, the contract itself, the last address) x %d x %d signers (plain keys, leaves of trees of depth 1..3, broken paths, the zero key) x 17 proof forms, 4 of them also to move nothing, x 4 heights, on both contract kinds", len(roles), len(roles), len(identities), len(identities)), Body: signerRoles},
			{Name: "damage", Bounds: "5 x 5 parties, 4 proof forms: all truncations, 6 extensions, 5 (thorough 255) other values of every byte", Body: proofDamage},
			{Name: "blocks", Bounds: fmt.Sprintf("%d x %d parties x %d signers x 2 contract kinds x 6 proof forms x 3 heights x 3 amounts, as blocks", len(roles), len(roles), len(identities)), Body: contractInBlocks},
		}})
	register(&explore.Check{ID: "V03", Rule: "every spend of the space is compared with integer arithmetic on what may leave the contract and with the paths that are open at the height",
		Programs: []explore.Program{
			{Name: "grid", Bounds: "6 timeouts x 7 counts x 9 totals x 9 depths x 8 balances x 6 heights x 8 proofs x up to 34 value/fee pairs", Body: htlcGrid},
			{Name: "depths", Bounds: "all 255 counts x 256 depths x 4 totals, the greatest allowed amount and one more", Body: htlcDepths},
			{Name: "algorithms", Bounds: "all 256 x 256 algorithm pairs and every bit of the hash root", Body: htlcAlgorithms},
			{Name: "histories", Bounds: "36 contracts, all histories of 4 (thorough 6) spends with 8 proofs, amounts 0..10+0..1, height gaps 0..2, merged by (height, balance)", Body: htlcHistory(false)},
			{Name: "blocks", Bounds: "36 contracts, all histories of 2 (thorough 4) blocks with a spend, merged by (height, balance)", Body: htlcHistory(true)},
		}})
}
