package props

import (
	"bytes"
	"fmt"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
	"verif/mc/ref"
)

// ---------------------------------------------------------------- A03

// rejected pushes a block; if it is refused, nothing may have changed, and a following block must work.
func rejected(n *node, b *ref.Block, follow func()) {
	x := n.x
	fresh := x.Fresh()
	var before map[string]string
	var root [32]byte
	if fresh {
		before, root = dumpNodes(n.store.m), n.accs.Tree.Hash()
	}
	err, why, detail := n.push(b)
	if (err == nil) != (why == ref.Accepted) {
		// Whether it should be accepted is another property; what is checked here needs a definite verdict.
		if err == nil {
			x.Abort()
		}
	}
	if err == nil {
		if fresh {
			x.OutcomeS("accepted" + n.ref.Key())
		}
		return
	}
	if fresh {
		if d := diffDump(dumpNodes(n.store.m), before); d != "" {
			x.Fail("%s was rejected (%v; reference: %s) but the stored state changed: %s", describeBlock(b), err, detail, d)
		}
		x.Check(n.accs.Tree.Hash() == root, "%s was rejected (%v) but the root changed", describeBlock(b), err)
		n.checkState()
		x.OutcomeS("rejected " + detail + n.ref.Key())
	}
	follow()
}

// spoil changes a block in one of several ways that make it invalid in different phases.
var spoilers = []func(b *ref.Block){
	func(b *ref.Block) {},
	func(b *ref.Block) { b.Miner = aV },
	func(b *ref.Block) { b.Pruned = append(b.Pruned, ref.Pruned{Addr: aX, Acc: ref.Acc{Kind: 1}}) },
	func(b *ref.Block) { b.Pruned = nil },
	func(b *ref.Block) { b.Height = 0 },
	func(b *ref.Block) { b.NoBody = true },
	func(b *ref.Block) { b.Txs = append(b.Txs, basicTx(pC, pB.addr, 1<<63, 1<<63)) },
	func(b *ref.Block) { b.Txs = append(b.Txs, createTx(pC, pB.addr, 1, 0, 0, []byte{1})) },
	func(b *ref.Block) { b.Txs = append(b.Txs, createTx(pC, pB.addr, 0, 0, 0, nil)) },
	func(b *ref.Block) { b.Txs = append(b.Txs, extTx(pC.addr, 0, aH, 2, 0, 0, nil)) },
	func(b *ref.Block) { b.Txs = append([]ref.Tx{basicTx(pC, aV, 0, 0)}, b.Txs...) },
	func(b *ref.Block) { // the creation data of one of several creations is bad
		b.Txs = append(b.Txs, createTx(pC, aX, 2, 0, 0, htlcData(pA.addr, pB.addr, 1, hashRoot, 0, 1)))
	},
}

func rejectProgram(prefix func(x *explore.X) int, txCount func(x *explore.X) int) func(x *explore.X) {
	return func(x *explore.X) {
		h := []uint32{6, 12}[x.Choose(2)]
		n := newNode(x, initialState())
		for i := prefix(x); i > 0; i-- {
			menu := txMenu(n.ref)
			c := x.Choose(len(menu))
			_, why, _ := n.ref.Apply(buildBlock(n.ref, h, pM.addr, menu[c]), subsidy)
			if why != ref.Accepted {
				return // what is left of this program applies to the state before
			}
			n.push(buildBlock(n.ref, h, pM.addr, menu[c]))
			h++
		}
		if x.Visited(fmt.Sprintf("%d/%s", h, n.ref.Key()), 0) {
			return
		}
		menu := txMenu(n.ref)
		var txs []ref.Tx
		for i := txCount(x); i > 0; i-- {
			txs = append(txs, menu[x.Choose(len(menu))])
		}
		b := buildBlock(n.ref, h, pM.addr, txs...)
		spoilers[x.Choose(len(spoilers))](b)
		rejected(n, b, func() {
			// The next block behaves as if the rejected one had never been.
			menu := txMenu(n.ref)
			for _, c := range []int{0, 4, 9, 14, 16} {
				good := buildBlock(n.ref, h, pM.addr, menu[c])
				if err, why, _ := n.push(good); (err == nil) != (why == ref.Accepted) {
					x.Fail("after a rejected block, %s gives err=%v, want %q", describeBlock(good), err, why)
				}
				n.checkState()
			}
		})
	}
}

// ---------------------------------------------------------------- A05

type variant struct {
	name string
	f    func(l []ref.Pruned) []ref.Pruned
}

func pruneVariants() (out []variant) {
	id := func(l []ref.Pruned) []ref.Pruned { return l }
	out = append(out, variant{"exact", id},
		variant{"reversed", func(l []ref.Pruned) []ref.Pruned {
			var r []ref.Pruned
			for i := len(l) - 1; i >= 0; i-- {
				r = append(r, l[i])
			}
			return r
		}},
		variant{"empty", func(l []ref.Pruned) []ref.Pruned { return nil }})
	add := func(name string, p ref.Pruned) {
		out = append(out, variant{"extra " + name, func(l []ref.Pruned) []ref.Pruned { return append(l, p) }},
			variant{"leading " + name, func(l []ref.Pruned) []ref.Pruned { return append([]ref.Pruned{p}, l...) }})
	}
	v := initialState()[aV]
	z := v
	z.Balance = 0
	h := initialState()[aH]
	hz := h
	hz.Balance = 0
	add("full V", ref.Pruned{Addr: aV, Acc: v})
	add("zeroed V", ref.Pruned{Addr: aV, Acc: z})
	add("full H", ref.Pruned{Addr: aH, Acc: h})
	add("zeroed H", ref.Pruned{Addr: aH, Acc: hz})
	add("nobody", ref.Pruned{Addr: aX, Acc: ref.Acc{}})
	add("nobody's contract", ref.Pruned{Addr: aX, Acc: z})
	add("basic A", ref.Pruned{Addr: pA.addr, Acc: ref.Acc{Balance: 10}})
	add("basic zero A", ref.Pruned{Addr: pA.addr, Acc: ref.Acc{}})
	for i := 0; i < 2; i++ {
		i := i
		at := func(name string, f func(l []ref.Pruned)) {
			out = append(out, variant{fmt.Sprintf("%s of entry %d", name, i), func(l []ref.Pruned) []ref.Pruned {
				if i < len(l) {
					f(l)
				}
				return l
			}})
		}
		out = append(out, variant{fmt.Sprintf("without entry %d", i), func(l []ref.Pruned) []ref.Pruned {
			if i < len(l) {
				l = append(l[:i:i], l[i+1:]...)
			}
			return l
		}}, variant{fmt.Sprintf("entry %d twice", i), func(l []ref.Pruned) []ref.Pruned {
			if i < len(l) {
				l = append(l, l[i])
			}
			return l
		}}, variant{fmt.Sprintf("entry %d twice in a row", i), func(l []ref.Pruned) []ref.Pruned {
			if i < len(l) {
				l = append(l[:i:i], append([]ref.Pruned{l[i]}, l[i:]...)...)
			}
			return l
		}})
		at("address", func(l []ref.Pruned) { l[i].Addr[19] ^= 1 })
		at("balance", func(l []ref.Pruned) { l[i].Acc.Balance++ })
		at("owner", func(l []ref.Pruned) { l[i].Acc.Owner[0] ^= 1 })
		at("owner end", func(l []ref.Pruned) { l[i].Acc.Owner[19] ^= 0x80 })
		at("start", func(l []ref.Pruned) { l[i].Acc.Start++ })
		at("step blocks", func(l []ref.Pruned) { l[i].Acc.StepBlocks += 1 << 31 })
		at("step amount", func(l []ref.Pruned) { l[i].Acc.StepAmount++ })
		at("total", func(l []ref.Pruned) { l[i].Acc.Total ^= 1 << 63 })
		at("sender", func(l []ref.Pruned) { l[i].Acc.Sender[10] ^= 1 })
		at("recipient", func(l []ref.Pruned) { l[i].Acc.Recipient[19] ^= 1 })
		at("algorithm", func(l []ref.Pruned) { l[i].Acc.Algo ^= 1 })
		at("hash", func(l []ref.Pruned) { l[i].Acc.Hash[31] ^= 1 })
		at("hash count", func(l []ref.Pruned) { l[i].Acc.HashCount++ })
		at("timeout", func(l []ref.Pruned) { l[i].Acc.Timeout ^= 1 })
		at("kind basic", func(l []ref.Pruned) { l[i].Acc = ref.Acc{Balance: l[i].Acc.Balance} })
		at("kind vesting", func(l []ref.Pruned) { l[i].Acc.Kind = 1 })
		at("kind HTLC", func(l []ref.Pruned) { l[i].Acc.Kind = 2 })
	}
	out = append(out, variant{"contents swapped", func(l []ref.Pruned) []ref.Pruned {
		if len(l) == 2 {
			l[0].Acc, l[1].Acc = l[1].Acc, l[0].Acc
		}
		return l
	}})
	return
}

// normal drops fields the account kind does not have, as conversion to the real types does.
func normal(a ref.Acc) ref.Acc {
	b, _ := fromWireAcc(toWireAcc(&a))
	return b
}

var allPruneVariants = pruneVariants()

func pruneProgram(x *explore.X) {
	s := initialState()
	s[pC.addr] = ref.Acc{Balance: 4}
	n := newNode(x, s)
	h := uint32(20)
	v, hb := s[aV].Balance, s[aH].Balance
	var txs []ref.Tx
	// What happens to V and to H: nothing, partial, drained at once, drained in two steps.
	one := func(c int, addr ref.Addr, typ byte, bal uint64, proof []byte) {
		switch c {
		case 1:
			txs = append(txs, extTx(addr, typ, pB.addr, 0, bal-2, 1, proof))
		case 2:
			txs = append(txs, extTx(addr, typ, pB.addr, 0, bal-1, 1, proof))
		case 3:
			txs = append(txs, extTx(addr, typ, pB.addr, 0, bal-3, 1, proof), extTx(addr, typ, pC.addr, 0, 2, 0, proof))
		case 4: // the fee takes everything
			txs = append(txs, extTx(addr, typ, pB.addr, 0, 0, bal, proof))
		case 5: // the fee takes the rest, and nothing is sent after that
			txs = append(txs, extTx(addr, typ, pB.addr, 0, bal-3, 1, proof), extTx(addr, typ, pC.addr, 0, 0, 2, proof), extTx(addr, typ, pC.addr, 0, 0, 0, proof))
		}
	}
	cv, ch := x.Choose(6), x.Choose(6)
	first := x.Choose(2)
	if first == 0 {
		one(cv, aV, 1, v, sigProof(pA))
	}
	one(ch, aH, 2, hb, timeoutProof(pB))
	if first == 1 {
		one(cv, aV, 1, v, sigProof(pA))
	}
	switch x.Choose(4) {
	case 1: // a basic account is emptied too
		txs = append(txs, basicTx(pC, pA.addr, 3, 1))
	case 2: // an empty basic account sends nothing
		txs = append(txs, extTx(aX, 0, pB.addr, 0, 0, 0, nil))
	case 3: // an HTLC without funds is created and not spent from
		txs = append(txs, createTx(pC, aX, 2, 0, 0, htlcData(pA.addr, pB.addr, 1, hashRoot, 1, 1)))
	}
	miner := []ref.Addr{pM.addr, aV, aH}[x.Choose(3)]
	b := buildBlock(n.ref, h, miner, txs...)
	vars := allPruneVariants
	vi := x.Choose(len(vars))
	b.Pruned = vars[vi].f(append([]ref.Pruned(nil), b.Pruned...))
	for i := range b.Pruned {
		b.Pruned[i].Acc = normal(b.Pruned[i].Acc)
	}
	x.Note("prune list: %s", vars[vi].name)
	err, why, detail := n.push(b)
	x.Check((err == nil) == (why == ref.Accepted), "prune list %s: %s: err=%v, want %q (%s)", vars[vi].name, describeBlock(b), err, why, detail)
	n.checkState()
	if err == nil {
		// A pruned contract is gone: paying to its address makes it a basic account.
		for _, p := range b.Pruned {
			err, why, _ := n.push(buildBlock(n.ref, h+1, pM.addr, basicTx(pB, p.Addr, 1, 0)))
			x.Check((err == nil) == (why == ref.Accepted), "paying to the pruned %s: err=%v, want %q", addrName(p.Addr), err, why)
			n.checkState()
		}
	}
	x.OutcomeS(vars[vi].name + n.ref.Key())
}

// pruneMany drains n contracts in one block.
func pruneMany(x *explore.X) {
	cnt := []int{3, 16, 17, 255, 256, 257, 300}[x.Choose(7)]
	s := ref.State{pB.addr: {Balance: 1}}
	var txs []ref.Tx
	var addrs []ref.Addr
	for i := 0; i < cnt; i++ {
		var a ref.Addr
		a[0], a[1], a[19] = byte(i), byte(i>>8), byte(i*7)
		s[a] = ref.Acc{Kind: ref.Vesting, Balance: uint64(i + 1), Owner: pA.addr, Start: 1, Total: uint64(i + 1)}
		addrs = append(addrs, a)
		txs = append(txs, extTx(a, 1, pB.addr, 0, uint64(i+1), 0, sigProof(pA)))
	}
	n := newNode(x, s)
	b := buildBlock(n.ref, 9, pM.addr, txs...)
	switch x.Choose(4) {
	case 1:
		b.Pruned = b.Pruned[1:]
	case 2:
		b.Pruned = b.Pruned[:cnt-1]
	case 3:
		b.Pruned[cnt-1].Acc.Total++
	}
	err, why, detail := n.push(b)
	x.Check((err == nil) == (why == ref.Accepted), "pruning %d contracts with %d entries: err=%v, want %q (%s)", cnt, len(b.Pruned), err, why, detail)
	n.checkState()
	x.OutcomeS(fmt.Sprint(cnt, why, len(b.Pruned)))
}

// manyTxs has blocks of many transactions.
func manyTxs(check ledgerCheck) func(x *explore.X) {
	return func(x *explore.X) {
		cnt := []int{4, 16, 17, 255, 256, 257, 600}[x.Choose(7)]
		s := ref.State{pA.addr: {Balance: uint64(cnt) * 3}, pB.addr: {Balance: 2}}
		var txs []ref.Tx
		for i := 0; i < cnt; i++ {
			var a ref.Addr
			a[0], a[3], a[19] = byte(i*31), byte(i>>8), byte(i)
			t := basicTx(pA, a, 2, 1)
			if i%3 == 1 {
				t = extTx(pA.addr, 0, a, 0, 2, 1, sigProof(pA))
			}
			txs = append(txs, t)
		}
		switch x.Choose(4) {
		case 1: // the last one fails
			txs = append(txs, basicTx(pA, pB.addr, 0, 1))
		case 2: // a middle one fails
			txs[cnt/2].Value++
		case 3: // chain through one account
			txs = append(txs, basicTx(pB, pA.addr, 2, 0), basicTx(pC, pB.addr, 0, 0))
		}
		n := newNode(x, s)
		runBlock(n, buildBlock(n.ref, 8, pM.addr, txs...), check)
	}
}

// ---------------------------------------------------------------- A06

var declared = []byte{0, 1, 2, 3, 4, 0xFE, 0xFF}

func typesProgram(x *explore.X) {
	s := initialState()
	n := newNode(x, s)
	senders := []ref.Addr{pA.addr, aV, aH, aX}
	recips := []ref.Addr{pB.addr, aV, aH, aN, pA.addr}
	from := senders[x.Choose(len(senders))]
	fromType := declared[x.Choose(len(declared))]
	to := recips[x.Choose(len(recips))]
	toType := declared[x.Choose(len(declared))]
	flags := []byte{0, 1, 2, 3, 0x80, 0xff}[x.Choose(6)]
	proof := sigProof(pA)
	if from == aH {
		proof = timeoutProof(pB)
	}
	for _, value := range []uint64{0, 1} {
		for _, d := range [][]byte{nil, vestingData(pB.addr, uint32(1)), htlcData(pA.addr, pB.addr, 1, hashRoot, 1, 5)} {
			n = newNode(x, s)
			tx := extTx(from, fromType, to, toType, value, 0, proof)
			tx.Flags, tx.Data = flags, d
			b := buildBlock(n.ref, 20, pM.addr, tx)
			err, why, detail := n.push(b)
			x.Check((err == nil) == (why == ref.Accepted), "%s: err=%v, want %q (%s)", describeBlock(b), err, why, detail)
			n.checkState()
			x.OutcomeS(why + n.ref.Key())
			if err == nil && flags&1 != 0 {
				// The new contract must now be addressed by its own type only.
				for _, tt := range []byte{0, 1, 2} {
					m := newNode(x, n.ref)
					b := buildBlock(m.ref, 21, pM.addr, extTx(to, tt, pB.addr, 0, 0, 0, append([]byte{3}, sigProof(pA)...)))
					err, why, detail := m.push(b)
					x.Check((err == nil) == (why == ref.Accepted), "%s: err=%v, want %q (%s)", describeBlock(b), err, why, detail)
				}
			}
		}
	}
}

func creationData(x *explore.X) {
	typ := []byte{0, 1, 2, 3, 0xff}[x.Choose(5)]
	length := x.Choose(101)
	prev := []uint64{0, 7}[x.Choose(2)]
	value := []uint64{0, 5}[x.Choose(2)]
	fills := [][]byte{bytes.Repeat([]byte{0}, length), bytes.Repeat([]byte{0xff}, length), bytes.Repeat([]byte{1}, length), nil}
	for i := 0; i < length; i++ {
		fills[3] = append(fills[3], byte(i*37+11))
	}
	// Boundary contents of single bytes.
	for i := 0; i < length; i++ {
		for _, v := range []byte{0, 0x80, 0xff} {
			d := append([]byte(nil), fills[3]...)
			d[i] = v
			fills = append(fills, d)
		}
	}
	for _, d := range fills {
		s := ref.State{pA.addr: {Balance: 9}}
		if prev > 0 {
			s[aN] = ref.Acc{Balance: prev}
		}
		n := newNode(x, s)
		b := buildBlock(n.ref, 3, pM.addr, createTx(pA, aN, typ, value, 1, d))
		err, why, detail := n.push(b)
		x.Check((err == nil) == (why == ref.Accepted), "creating type %d with data %x: err=%v, want %q (%s)", typ, d, err, why, detail)
		n.checkState()
		x.OutcomeS(why + n.ref.Key())
	}
	x.Note("creation of type %d with %d contents of %d bytes, value %d on top of %d", typ, len(fills), length, value, prev)
}

// creationTwice has two creations and payments around them in one block.
func creationTwice(x *explore.X) {
	s := ref.State{pA.addr: {Balance: 20}, pB.addr: {Balance: 20}}
	n := newNode(x, s)
	menu := []ref.Tx{
		createTx(pA, aN, 1, 3, 0, vestingData(pA.addr, uint32(2))),
		createTx(pB, aN, 1, 4, 0, vestingData(pB.addr, uint32(1), uint32(2), uint64(1))),
		createTx(pB, aN, 2, 4, 0, htlcData(pA.addr, pB.addr, 1, hashRoot, 1, 5)),
		createTx(pA, pB.addr, 1, 2, 0, vestingData(pA.addr, uint32(2))),
		createTx(pA, pA.addr, 2, 2, 1, htlcData(pA.addr, pB.addr, 1, hashRoot, 1, 5)),
		basicTx(pA, aN, 1, 0), basicTx(pB, pA.addr, 2, 1), basicTx(pA, pB.addr, 2, 1),
		extTx(aN, 1, pA.addr, 0, 1, 0, sigProof(pA)), extTx(aN, 0, pA.addr, 0, 0, 0, nil),
	}
	h := uint32(2)
	for i := 0; i < 2; i++ {
		var txs []ref.Tx
		for j := x.Choose(3 - i); j >= 0; j-- {
			txs = append(txs, menu[x.Choose(len(menu))])
		}
		b := buildBlock(n.ref, h, pM.addr, txs...)
		err, why, detail := n.push(b)
		if x.Fresh() {
			x.Check((err == nil) == (why == ref.Accepted), "%s: err=%v, want %q (%s)", describeBlock(b), err, why, detail)
			n.checkState()
			x.OutcomeS(why + n.ref.Key())
		}
		h++
	}
}

// ---------------------------------------------------------------- A07

// pushBytes decodes a block and applies it to a state with accounts of all kinds; it must return.
func pushBytes(x *explore.X, enc []byte) {
	var blk wire.Block
	if err := beserial.UnmarshalFull(enc, &blk); err != nil {
		return
	}
	n := newNode(x, initialState())
	err := n.accs.Push(&blk)
	x.Step()
	_ = n.accs.Tree.Hash()
	for _, u := range universe {
		a := u.addr
		_ = n.accs.GetAccount(&a)
	}
	if x.Tracing() {
		x.Note("block %x -> %v", enc, err)
	}
	x.OutcomeS(fmt.Sprint(err))
}

func encodeBlock(b *ref.Block) []byte { return b.EncodeBlock(ref.Header{}, &ref.Interlink{}, nil) }

// proofMenu lists complete, truncated and over-long proofs of all kinds.
func proofMenu(all bool) (out [][]byte) {
	multi := ref.SigProof{PubKey: pA.pub, Bits: []byte{0x80, 0x40}, Hashes: make([][32]byte, 9)}
	longest := ref.SigProof{PubKey: pA.pub, Bits: bytes.Repeat([]byte{0xff}, 32), Hashes: make([][32]byte, 255)}
	full := [][]byte{
		sigProof(pA), multi.Encode(), longest.Encode(),
		regularProof(3, 1, hashRoot, pA), regularProof(3, 0, hashRoot, pA), regularProof(3, 255, hashRoot, pA),
		earlyProof(pA, pB), timeoutProof(pB), append([]byte{3}, longest.Encode()...), {}, {0}, {1}, {2}, {3}, {4}, {255},
	}
	out = append(out, full...)
	for _, f := range full[:9] {
		out = append(out, append(append([]byte{}, f...), 0))
		if all {
			for l := range f {
				if l < 330 || l%97 == 0 {
					out = append(out, f[:l])
				}
			}
			for i := range f {
				if i < 200 {
					for _, v := range []byte{0, 1, 7, 8, 9, 0x80, 248, 249, 255} {
						g := append([]byte{}, f...)
						g[i] = v
						out = append(out, g)
					}
				}
			}
		}
	}
	return
}

var proofsShort, proofsAll = proofMenu(false), proofMenu(true)

func crashTypes(x *explore.X) {
	tx := ref.Tx{Extended: true}
	tx.Sender = universe[x.Choose(len(universe))].addr
	tx.SenderType = declared[x.Choose(len(declared))]
	tx.Recipient = []ref.Addr{pA.addr, aV, aH, aN}[x.Choose(4)]
	tx.RecipientType = declared[x.Choose(len(declared))]
	tx.Flags = []byte{0, 1, 2, 0xff}[x.Choose(4)]
	proofs := proofsShort
	for _, value := range []uint64{0, 1, 9, 1<<64 - 1} {
		for _, data := range [][]byte{nil, {1}, vestingData(pA.addr, uint32(0)), htlcData(pA.addr, pB.addr, 0, hashRoot, 0, 0), htlcData(pA.addr, pB.addr, 3, hashRoot, 255, 9), make([]byte, 44), make([]byte, 36)} {
			if tx.Flags&1 == 0 && data != nil {
				continue
			}
			for i, p := range proofs {
				if tx.Flags&1 != 0 && i > 1 {
					break
				}
				tx.Value, tx.Data, tx.Proof = value, data, p
				tx.Fee = value / 3
				b := ref.Block{Height: 11, Miner: pM.addr, Txs: []ref.Tx{tx}}
				pushBytes(x, encodeBlock(&b))
			}
		}
	}
}

func crashProofs(x *explore.X) {
	proofs := proofsAll
	p := proofs[x.Choose(len(proofs))]
	for _, from := range []struct {
		a ref.Addr
		t byte
	}{{pA.addr, 0}, {aV, 1}, {aH, 2}} {
		for _, h := range []uint32{1, 11, 12} {
			for _, v := range []uint64{0, 1} {
				b := ref.Block{Height: h, Miner: pM.addr, Txs: []ref.Tx{extTx(from.a, from.t, pB.addr, 0, v, 0, p)}}
				pushBytes(x, encodeBlock(&b))
			}
		}
	}
}

func crashBlocks(x *explore.X) {
	b := ref.Block{Miner: []ref.Addr{pM.addr, aV, aH, aN, {}}[x.Choose(5)]}
	b.Height = []uint32{0, 1, 2, 11, 12}[x.Choose(5)]
	menu := append(txMenu(initialState()), ref.Tx{}, ref.Tx{Extended: true}, basicTx(pA, aV, 1, 0), basicTx(pA, aH, 0, 0))
	for i := x.Choose(3); i > 0; i-- {
		b.Txs = append(b.Txs, menu[x.Choose(len(menu))])
	}
	accs := []ref.Acc{{}, {Balance: 5}, {Kind: 1}, {Kind: 2}, initialState()[aV], initialState()[aH], {Kind: 1, Balance: 1<<64 - 1}}
	em := initialState().Emptied(&b, subsidy)
	try := func(l []ref.Pruned) {
		b.Pruned = l
		pushBytes(x, encodeBlock(&b))
	}
	try(nil)
	try(em)
	for _, a := range accs {
		for _, ad := range []ref.Addr{aV, aH, pA.addr, aX} {
			e := ref.Pruned{Addr: ad, Acc: a}
			try([]ref.Pruned{e})
			try(append(append([]ref.Pruned{}, em...), e))
			try([]ref.Pruned{e, e})
		}
	}
	b.NoBody = true
	try(nil)
}

// crashMutations changes single bytes of encoded blocks.
func crashMutations(x *explore.X) {
	menu := txMenu(initialState())
	c := x.Choose(len(menu))
	b := buildBlock(initialState(), 11, pM.addr, menu[c], menu[(c+7)%len(menu)])
	enc := encodeBlock(b)
	from := 0
	pos := x.Choose(len(enc)-from) + from
	vals := []int{0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff}
	if x.Thorough {
		vals = vals[:0]
		for v := 0; v < 256; v++ {
			vals = append(vals, v)
		}
	}
	for _, v := range vals {
		if pos >= 138 && pos < 142 && v > 3 {
			continue // heights beyond 2^24 have their own program
		}
		m := append([]byte(nil), enc...)
		m[pos] = byte(v)
		pushBytes(x, m)
	}
	if x.Thorough {
		m := append([]byte(nil), enc[:pos]...)
		pushBytes(x, append(m, 0))
	}
}

func crashHeights(x *explore.X) {
	hs := []uint32{4999, 5000, 5001, 48_692_960, 53_000_000, 60_000_000, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	h := hs[x.Choose(len(hs))]
	b := ref.Block{Height: h, Miner: pM.addr, Txs: txMenu(initialState())[x.Choose(2):1]}
	pushBytes(x, encodeBlock(&b))
	x.Note("height %d", h)
}

// ---------------------------------------------------------------- A08

func accountValues(all bool) (out []ref.Acc) {
	u64 := []uint64{0, 1, 1 << 40, 1<<64 - 1}
	u32 := []uint32{0, 1, 1<<32 - 1}
	ads := []ref.Addr{{}, keyFromHex("0123456789abcdef0123456789abcdef01234567"), keyFromHex("ffffffffffffffffffffffffffffffffffffffff")}
	for _, v := range u64 {
		out = append(out, ref.Acc{Balance: v})
	}
	for _, v := range u64 {
		for _, o := range ads {
			for _, s := range u32 {
				for _, sb := range u32 {
					for _, sa := range u64 {
						for _, t := range u64 {
							out = append(out, ref.Acc{Kind: 1, Balance: v, Owner: o, Start: s, StepBlocks: sb, StepAmount: sa, Total: t})
						}
					}
				}
			}
		}
	}
	for _, v := range u64 {
		for i, s := range ads {
			for _, r := range ads {
				for _, al := range []byte{0, 1, 3, 255} {
					for _, hc := range []byte{0, 1, 255} {
						for _, to := range u32 {
							for _, t := range u64 {
								a := ref.Acc{Kind: 2, Balance: v, Sender: s, Recipient: r, Algo: al, HashCount: hc, Timeout: to, Total: t}
								if i > 0 {
									a.Hash = hashRoot
								}
								out = append(out, a)
							}
						}
					}
				}
			}
		}
	}
	return
}

var allAccountValues = accountValues(true)

// accountEquality decides the comparison that a prune list is judged with.
func accountEquality(x *explore.X) {
	first := x.Choose((len(allAccountValues) + 63) / 64)
	x.Step()
	x.Check(!wire.AccountEq(nil, nil), "no account equals no account")
	same := 0
	for i := first * 64; i < first*64+64 && i < len(allAccountValues); i++ {
		a := toWireAcc(&allAccountValues[i])
		x.Check(!wire.AccountEq(a, nil) && !wire.AccountEq(nil, a), "account %+v equals no account", allAccountValues[i])
		for j := range allAccountValues {
			want := allAccountValues[i] == allAccountValues[j]
			if got := wire.AccountEq(a, allAccounts[j]); got != want {
				x.Fail("accounts %+v and %+v: equal = %v", allAccountValues[i], allAccountValues[j], got)
			}
			if want {
				same++
			}
		}
		x.Check(fromWire(a) == allAccountValues[i], "comparing changed account %+v into %+v", allAccountValues[i], a)
		x.OutcomeS(string(allAccountValues[i].Encode()))
	}
	x.Note("%d pairs equal", same)
}

var allAccounts = func() (out []wire.Account) {
	for i := range allAccountValues {
		out = append(out, toWireAcc(&allAccountValues[i]))
	}
	return
}()

func fromWire(a wire.Account) ref.Acc { r, _ := fromWireAcc(a); return r }

func storedAccounts(x *explore.X) {
	chunk := x.Choose((len(allAccountValues) + 255) / 256)
	for i := chunk * 256; i < len(allAccountValues) && i < chunk*256+256; i++ {
		a := allAccountValues[i]
		n := newNode(x, initialState())
		ad := []ref.Addr{aN, pA.addr}[i%2]
		n.accs.PutAccount(&ad, toWireAcc(&a))
		x.Step()
		n.ref = n.ref.Clone()
		if a.Kind == ref.Basic && a.Balance == 0 {
			delete(n.ref, ad)
		} else {
			n.ref[ad] = a
		}
		n.checkState()
		x.OutcomeS(string(a.Encode()))
	}
	x.Note("account values %d to %d", chunk*256, chunk*256+255)
}

// malformedEntries puts entries that are no account, or no account alone, under an address.
// A lookup must not make an account of them, whatever kind it would be.
func malformedEntries(x *explore.X) {
	bases := []ref.Acc{{Balance: 5}, {Balance: 1 << 63}, {Kind: 1, Balance: 9, Owner: pB.addr, Start: 3, StepBlocks: 2, StepAmount: 1, Total: 9}, initialState()[aH], {Kind: 2}}
	enc := bases[x.Choose(len(bases))].Encode()
	form, at := x.Choose(4), x.Choose(len(enc)+1)
	to := []ref.Addr{aN, pA.addr}[x.Choose(2)]
	try := func(e []byte) {
		if len(e) == 0 {
			return
		}
		n := newNode(x, initialState())
		ad := to
		n.accs.Tree.PutEntry(&ad, append([]byte(nil), e...))
		x.Step()
		var got wire.Account
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			got = n.accs.GetAccount(&ad)
			return
		}()
		want, ok := ref.ParseAcc(e)
		x.Check(panicked == !ok, "the entry %x, an account: %v, is looked up as %+v (panic %v)", e, ok, got, panicked)
		if ok {
			x.Check(fromWire(got) == want, "the entry %x is looked up as %+v", e, got)
		}
		x.OutcomeS(string(e))
	}
	switch form {
	case 0: // cut short
		try(enc[:at])
	case 1: // followed by something
		if at > 8 {
			x.Abort()
		}
		try(append(append([]byte(nil), enc...), make([]byte, at)...))
		if at > 0 {
			try(append(append([]byte(nil), enc...), bytes.Repeat([]byte{0xff}, at)...))
		}
	case 2: // every kind byte
		if at > 0 {
			x.Abort()
		}
		for k := 0; k < 256; k++ {
			enc[0] = byte(k)
			try(enc)
			try(enc[:1])
		}
	case 3: // something before
		try(append(make([]byte, at), enc...))
	}
	x.Note("entry %x, form %d at %d", enc, form, at)
}

func mutate(a wire.Account) {
	switch a := a.(type) {
	case *wire.BasicAccount:
		a.Value += 77
	case *wire.VestingAccount:
		a.Value, a.Owner[3], a.VestingStart, a.VestingTotalAmount = a.Value+77, a.Owner[3]^1, a.VestingStart+1, 3
	case *wire.HTLCAccount:
		a.Value, a.Hash.Bytes[5], a.Timeout, a.Sender[1] = a.Value+77, 9, a.Timeout+1, 4
	}
}

// accountHistories mixes stores, removals, lookups and changes of looked-up objects.
func accountHistories(x *explore.X) {
	n := newNode(x, ref.State{})
	ads := []ref.Addr{pA.addr, divergeAt(pA.addr, 39, (pA.addr[19]+1)&15)}
	vals := []ref.Acc{{}, {Balance: 5}, {Kind: 1, Owner: pB.addr, Start: 3}, initialState()[aH]}
	objs := make([]wire.Account, len(ads))
	objVal := make([]ref.Acc, len(ads))
	d := pick(5, 6)(x)
	for i := 0; i < d; i++ {
		c := x.Choose(2 * (len(vals) + 4))
		k, op := c%2, c/2
		ad := ads[k]
		n.ref = n.ref.Clone()
		x.Step()
		set := func(a ref.Acc) {
			if a.Kind == 0 && a.Balance == 0 {
				delete(n.ref, ads[k])
			} else {
				n.ref[ads[k]] = a
			}
		}
		switch {
		case op < len(vals):
			o := toWireAcc(&vals[op])
			n.accs.PutAccount(&ad, o)
			mutate(o) // the caller's object is not the stored one
			set(vals[op])
			x.Note("store %+v at %d", vals[op], k)
		case op == len(vals):
			n.accs.PutAccount(&ad, nil)
			set(ref.Acc{})
			x.Note("store none at %d", k)
		case op == len(vals)+1:
			objs[k] = n.accs.GetAccount(&ad)
			objVal[k] = n.ref[ads[k]]
			x.Note("look up %d", k)
		case op == len(vals)+2:
			if objs[k] == nil {
				x.Abort()
			}
			mutate(objs[k])
			objVal[k], _ = fromWireAcc(objs[k])
			x.Note("change the object looked up at %d", k)
		case op == len(vals)+3:
			if objs[k] == nil {
				x.Abort()
			}
			o := ads[1-k]
			n.accs.PutAccount(&o, objs[k])
			k = 1 - k
			set(objVal[1-k])
			x.Note("store the object looked up at %d at the other address", 1-k)
		}
		ad = ref.Addr{9} // callers may reuse the address
		if !x.Fresh() {
			continue
		}
		n.checkState()
		for j, o := range objs {
			if o == nil {
				continue
			}
			got, _ := fromWireAcc(o)
			x.Check(got == objVal[j], "the object looked up at %d changed by itself from %+v to %+v", j, objVal[j], got)
		}
		x.OutcomeS(n.ref.Key())
	}
}

func init() {
	register(&explore.Check{ID: "A03", Rule: "every block, valid or spoiled in one of 12 ways, is pushed after every one-transaction block; when it is rejected, the stored nodes, root and accounts must be unchanged and five more blocks must behave as in the reference",
		Programs: []explore.Program{
			{Name: "spoiled2", Bounds: "blocks of two of 26 transactions x 12 spoilers after at most one (thorough: two) accepted block, 2 heights", Body: rejectProgram(pick(1, 2), pick(2, 2))},
			{Name: "spoiled1", Bounds: "blocks of one of 26 transactions x 12 spoilers after two accepted blocks", Body: rejectProgram(pick(2, 3), pick(1, 1))},
			{Name: "spoiled3", Bounds: "blocks of three of 26 transactions x 12 spoilers", ThoroughOnly: true, Body: rejectProgram(pick(0, 0), pick(3, 3))},
			{Name: "many", Bounds: "blocks of 4 to 600 transactions with a failing one", Body: manyTxs(func(n *node, b *ref.Block, before ref.State, _ *bigInt, err error, why, detail string) {
				if err != nil {
					n.checkState()
				}
			})},
		}})
	register(&explore.Check{ID: "A05", Rule: "blocks that leave, reduce or drain two contracts carry every variant of the prune list; acceptance and state are compared with the reference",
		Programs: []explore.Program{
			{Name: "variants", Bounds: "6x6 ways to spend from a vesting contract and an HTLC, 2 orders, 4 bystander transactions, 3 miners, 60 prune list variants", Body: pruneProgram},
			{Name: "many", Bounds: "3 to 300 contracts drained in one block, 4 variants", Body: pruneMany},
			{Name: "equality", Bounds: fmt.Sprintf("all pairs of %d accounts of the three kinds, and none", len(allAccountValues)), Body: accountEquality},
		}})
	register(&explore.Check{ID: "A06", Rule: "all declared types, flags and creation data of the space are pushed as blocks; acceptance and the resulting accounts are compared with the reference",
		Programs: []explore.Program{
			{Name: "types", Bounds: "4 senders x 7 declared types x 5 recipients x 7 declared types x 6 flags x 2 values x 3 data forms", Body: typesProgram},
			{Name: "data", Bounds: "creation data of every length 0..100: four fills and three values of every byte, for 5 types, 2 values, 2 previous balances", Body: creationData},
			{Name: "twice", Bounds: "two blocks of up to three and two of ten creations, payments and spends around one address", Body: creationTwice},
			{Name: "created", Bounds: "contracts with all combinations of boundary parameters (1980 creations, on 2 previous balances), then spent from with 9 proofs at 4 heights in 6 amounts", Body: func(x *explore.X) { createAndSpend(x, true) }},
		}})
	register(&explore.Check{ID: "A07", Rule: "every encoded block of the space that decodes is applied to a state with accounts of all kinds; the application must return, and all lookups after it",
		Programs: []explore.Program{
			{Name: "types", Bounds: "8 senders x 7 types x 4 recipients x 7 types x 4 flags x 4 amounts x proof kinds or creation data", Body: crashTypes},
			{Name: "proofs", Bounds: "all truncations (up to 330 bytes) and 9 values of every byte (up to 200) of 9 proofs, for each sender kind, 3 heights, 2 amounts", Body: crashProofs},
			{Name: "blocks", Bounds: "5 miners x 5 heights x all blocks of up to two of 30 transactions x 86 prune lists", Body: crashBlocks},
			{Name: "mutations", Bounds: "8 (thorough 256) values of every byte of 26 encoded blocks", Body: crashMutations},
			{Name: "created", Bounds: "contracts with all combinations of boundary parameters (1980 creations, on 2 previous balances), then spent from with 9 proofs at 5 heights in 6 amounts", Body: func(x *explore.X) { createAndSpend(x, false) }},
			{Name: "stored", Bounds: "contracts of both kinds with all combinations of boundary parameters in the state, spent from with 9 proofs at 5 heights in 6 amounts", Body: oddStored},
			{Name: "heights", Bounds: "10 heights up to 2^32-1", Body: crashHeights, ExecLimit: 600e9},
		}})
	register(&explore.Check{ID: "A08", Rule: "every account value is stored and read back, and every history of stores, lookups and changes of objects is compared with a map of values",
		Programs: []explore.Program{
			{Name: "values", Bounds: fmt.Sprintf("all combinations of boundary values of all fields of each kind (%d accounts)", len(allAccountValues)), Body: storedAccounts},
			{Name: "malformed", Bounds: "5 encoded accounts cut short at every length, with up to 8 bytes added, up to their length of zeros before, and with every kind byte", Body: malformedEntries},
			{Name: "histories", Bounds: "2 neighbouring addresses, 4 account values; all sequences of 5 (thorough 6) of store, remove, look up, change a looked-up object, store a looked-up object", Body: accountHistories},
		}})
}
