package props

import (
	"fmt"

	"verif/mc/explore"
	"verif/mc/ref"
)

// ---------------------------------------------------------------- coinciding roles

// Amounts of a transaction, as a function of what the sender has left.
var amountModes = []func(bal uint64) (value, fee uint64){
	func(bal uint64) (uint64, uint64) { return 0, 0 },
	func(bal uint64) (uint64, uint64) { return 1, 0 },
	func(bal uint64) (uint64, uint64) { return bal / 2, 1 },
	func(bal uint64) (uint64, uint64) { return bal, 0 },
	func(bal uint64) (uint64, uint64) { return bal - 1, 1 },
	func(bal uint64) (uint64, uint64) { return 0, bal },
	func(bal uint64) (uint64, uint64) { return bal, 1 },
}

// fromTo is a correctly authorised transaction between two addresses of the initial state at height 20.
func fromTo(s ref.State, left map[ref.Addr]uint64, from, to ref.Addr, mode, create int) ref.Tx {
	if _, ok := left[from]; !ok {
		left[from] = s[from].Balance
	}
	value, fee := amountModes[mode](left[from])
	left[from] -= value + fee
	proof := sigProof(pA)
	if s[from].Kind == ref.HTLC {
		proof = timeoutProof(pB)
	}
	tx := extTx(from, s[from].Kind, to, s[to].Kind, value, fee, proof)
	switch create {
	case 1:
		tx.Flags, tx.RecipientType, tx.Data = 1, 1, vestingData(pC.addr, uint32(3))
	case 2:
		tx.Flags, tx.RecipientType, tx.Data = 1, 2, htlcData(pA.addr, pC.addr, 1, hashRoot, 2, 30)
	case 3, 4: // a creation without data
		tx.Flags, tx.RecipientType = 1, byte(create-2)
	case 5, 6: // a creation of nothing
		tx.Flags, tx.RecipientType, tx.Data = 1, []byte{0, 3}[create-5], vestingData(pC.addr, uint32(3))
	}
	for _, p := range []party{pA, pB, pC, pM} {
		if from == p.addr && create == 0 && s[to].Kind == ref.Basic && mode%2 == 0 {
			tx = basicTx(p, to, value, fee)
		}
	}
	return tx
}

// coincide1 has every way in which sender, recipient and miner can coincide.
func coincide1(check ledgerCheck) func(x *explore.X) {
	return func(x *explore.X) {
		s := initialState()
		from := universe[x.Choose(len(universe))].addr
		to := universe[x.Choose(len(universe))].addr
		miner := universe[x.Choose(len(universe))].addr
		for mode := range amountModes {
			for create := 0; create < 7; create++ {
				tx := fromTo(s, map[ref.Addr]uint64{}, from, to, mode, create)
				b := buildBlock(s, 20, miner, tx)
				judge(x, s, b, check)
				if len(b.Pruned) > 0 {
					b.Pruned = nil
					judge(x, s, b, check)
				}
			}
		}
		x.Note("%s to %s, miner %s", addrName(from), addrName(to), addrName(miner))
	}
}

// coincide2 is the same for two transactions over fewer addresses.
func coincide2(check ledgerCheck, creates bool) func(x *explore.X) {
	return func(x *explore.X) {
		s := initialState()
		few := []ref.Addr{pA.addr, pB.addr, aV, aH, aN}
		a, b := few[x.Choose(5)], few[x.Choose(5)]
		c, d := few[x.Choose(5)], few[x.Choose(5)]
		miner := few[x.Choose(5)]
		modes := []int{0, 3, 4, 5}
		if x.Thorough {
			modes = []int{0, 1, 2, 3, 4, 5, 6}
		}
		k := 1
		if creates {
			k = 3
		}
		for _, m1 := range modes {
			for _, m2 := range modes {
				for c1 := 0; c1 < k; c1++ {
					for c2 := 0; c2 < k; c2++ {
						left := map[ref.Addr]uint64{}
						t1 := fromTo(s, left, a, b, m1, c1)
						t2 := fromTo(s, left, c, d, m2, c2)
						judge(x, s, buildBlock(s, 20, miner, t1, t2), check)
					}
				}
			}
		}
		x.Note("%s to %s, %s to %s, miner %s", addrName(a), addrName(b), addrName(c), addrName(d), addrName(miner))
	}
}

func judge(x *explore.X, s ref.State, b *ref.Block, check ledgerCheck) {
	n := newNode(x, s)
	sum := n.storedSum()
	err, why, detail := n.push(b)
	check(n, b, s, sum, err, why, detail)
	x.OutcomeS(why + detail + n.ref.Key())
}

// ---------------------------------------------------------------- contracts with unusual parameters

// oddContracts is a list of creation data with every combination of boundary parameters.
func oddContracts() (out []ref.Tx) {
	u32 := []uint32{0, 1, 3, 1<<32 - 1}
	for _, v := range []uint64{0, 1, 6} {
		add := func(typ byte, data []byte) { out = append(out, createTx(pA, aN, typ, v, 0, data)) }
		for _, sb := range u32 {
			add(1, vestingData(pA.addr, sb))
			for _, st := range u32 {
				for _, sa := range []uint64{0, 1, 6, 1 << 63, 1<<64 - 1} {
					add(1, vestingData(pA.addr, st, sb, sa))
					for _, t := range []uint64{0, 1, 7, 1 << 63, 1<<64 - 1} {
						add(1, vestingData(pA.addr, st, sb, sa, t))
					}
				}
			}
		}
		for _, algo := range []byte{0, 1, 2, 3, 4, 255} {
			for _, count := range []byte{0, 1, 2, 255} {
				for _, timeout := range u32 {
					add(2, htlcData(pB.addr, pA.addr, algo, hashRoot, count, timeout))
				}
			}
		}
		for _, parties := range [][2]ref.Addr{{pA.addr, pA.addr}, {pB.addr, pB.addr}, {{}, pA.addr}, {pB.addr, {}}, {{}, {}}, {aN, aN}, {aN, pA.addr}, {pM.addr, aN}} {
			for _, count := range []byte{1, 2} {
				for _, timeout := range append([]uint32{2}, u32...) {
					add(2, htlcData(parties[0], parties[1], 3, hashRoot, count, timeout))
				}
			}
		}
	}
	return
}

var oddTxs = oddContracts()

// oddProofs are the ways to spend from them.
func oddProofs(algo byte) (out [][]byte) {
	out = append(out, sigProof(pA), timeoutProof(pB), earlyProof(pA, pB))
	for _, d := range []byte{0, 1, 2, 3, 254, 255} {
		out = append(out, regularProof(algo, d, hashRoot, pA))
	}
	return
}

// createAndSpend creates a contract with unusual parameters and spends from it in every way.
func createAndSpend(x *explore.X, withRef bool) {
	per := 8
	chunk := x.Choose((len(oddTxs) + per - 1) / per)
	for i := chunk * per; i < len(oddTxs) && i < (chunk+1)*per; i++ {
		tx := oddTxs[i]
		algo := byte(0)
		if tx.RecipientType == 2 {
			algo = tx.Data[40]
		}
		for _, top := range []uint64{0, 2} { // funds that were there before
			s := ref.State{pA.addr: {Balance: 9}}
			if top > 0 {
				s[aN] = ref.Acc{Balance: top}
			}
			start := newNode(x, s)
			err, why, detail := start.push(buildBlock(s, 2, pM.addr, tx))
			if withRef {
				x.Check((err == nil) == (why == ref.Accepted), "creation with data %x: err=%v, want %q %s", tx.Data, err, why, detail)
				start.checkState()
			}
			if err != nil {
				x.OutcomeS(detail)
				continue
			}
			spendOdd(x, start.accs.GetAccount(&aN).Type(), algo, tx.Value+top, withRef, start.ref, func() *node {
				n := newNode(x, s)
				n.push(buildBlock(s, 2, pM.addr, tx))
				return n
			})
		}
	}
	x.Note("contracts %d to %d", chunk*per, chunk*per+per-1)
}

func spendOdd(x *explore.X, typ, algo byte, bal uint64, withRef bool, s ref.State, mk func() *node) {
	for _, proof := range oddProofs(algo) {
		for _, h := range []uint32{3, 4, 6, 7, 1<<32 - 1} {
			for _, am := range [][2]uint64{{0, 0}, {1, 0}, {bal, 0}, {0, bal}, {bal / 2, 1}, {1<<64 - 1, bal}} {
				n := mk()
				b := &ref.Block{Height: h, Miner: pM.addr, Txs: []ref.Tx{extTx(aN, typ, pB.addr, 0, am[0], am[1], proof)}}
				b.Pruned = n.ref.Emptied(b, lateSubsidy)
				if !withRef {
					// Whatever is decided, a decision has to be made.
					err := n.accs.Push(toWireBlock(b))
					x.Step()
					x.OutcomeS(fmt.Sprint(err, typ, n.accs.GetAccount(&aN).Balance()))
					_ = n.accs.Tree.Hash()
					continue
				}
				if h > 1<<31 {
					continue // the reward at such a height is A07's and P01's business
				}
				err, why, detail := n.push(b)
				x.Check((err == nil) == (why == ref.Accepted), "contract %+v: %s with proof %x: err=%v, want %q %s", n.ref[aN], describeBlock(b), proof, err, why, detail)
				n.checkState()
				x.OutcomeS(why + detail + fmt.Sprint(n.ref[aN].Balance))
			}
		}
	}
}

func lateSubsidy(h uint32) uint64 {
	if h > 1<<20 {
		return 0
	}
	return subsidy(h)
}

// oddStored has contracts with unusual parameters that are in the state from the start.
func oddStored(x *explore.X) {
	var accs []ref.Acc
	kind := byte(1 + x.Choose(2))
	bal := []uint64{0, 1, 9, 1<<64 - 1}[x.Choose(4)]
	for _, t := range []uint64{0, 1, 9, 1 << 63, 1<<64 - 1} {
		if kind == 1 {
			for _, st := range []uint32{0, 2, 1<<32 - 1} {
				for _, sb := range []uint32{0, 1, 1<<32 - 1} {
					for _, sa := range []uint64{0, 1, 1 << 63, 1<<64 - 1} {
						accs = append(accs, ref.Acc{Kind: 1, Balance: bal, Owner: pA.addr, Start: st, StepBlocks: sb, StepAmount: sa, Total: t})
					}
				}
			}
			continue
		}
		for _, algo := range []byte{0, 1, 3, 255} {
			for _, count := range []byte{0, 1, 2, 255} {
				for _, to := range []uint32{0, 5, 1<<32 - 1} {
					accs = append(accs, ref.Acc{Kind: 2, Balance: bal, Sender: pB.addr, Recipient: pA.addr, Algo: algo, Hash: hashRoot, HashCount: count, Timeout: to, Total: t})
				}
			}
		}
	}
	per := 6
	chunk := x.Choose((len(accs) + per - 1) / per)
	for i := chunk * per; i < len(accs) && i < (chunk+1)*per; i++ {
		a := accs[i]
		s := ref.State{pA.addr: {Balance: 9}, aN: a}
		spendOdd(x, a.Kind, a.Algo, bal, false, s, func() *node { return newNode(x, s) })
	}
	x.Note("kind %d with balance %d, parameters %d to %d", kind, bal, chunk*per, chunk*per+per-1)
}
