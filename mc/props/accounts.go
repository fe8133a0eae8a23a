package props

import (
	"errors"
	"fmt"
	"math/big"

	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
	"verif/mc/ref"
)

type bigInt = big.Int

// ledgerCheck is called after every block with what is needed to judge it.
type ledgerCheck func(n *node, b *ref.Block, before ref.State, sum *big.Int, err error, why, detail string)

func checkA01(n *node, b *ref.Block, before ref.State, sum *big.Int, err error, why, detail string) {
	n.x.Check((err == nil) == (why == ref.Accepted), "%s: err=%v, want %q (%s)", describeBlock(b), err, why, detail)
	n.checkState()
}

func checkA02(n *node, b *ref.Block, before ref.State, sum *big.Int, err error, why, detail string) {
	after := n.storedSum()
	want := new(big.Int).Set(sum)
	if err == nil {
		want.Add(want, new(big.Int).SetUint64(subsidy(b.Height)))
	}
	n.x.Check(after.Cmp(want) == 0, "%s (err=%v): all balances together went from %s to %s, want %s (subsidy %d)", describeBlock(b), err, sum, after, want, subsidy(b.Height))
	// Nobody can have gained more than was paid to them.
	for _, u := range universe {
		a := u.addr
		got := n.accs.GetAccount(&a).Balance()
		limit := new(big.Int).SetUint64(before[a].Balance)
		for i := range b.Txs {
			if b.Txs[i].Recipient == a {
				limit.Add(limit, new(big.Int).SetUint64(b.Txs[i].Value))
			}
			if b.Miner == a {
				limit.Add(limit, new(big.Int).SetUint64(b.Txs[i].Fee))
			}
		}
		if b.Miner == a {
			limit.Add(limit, new(big.Int).SetUint64(subsidy(b.Height)))
		}
		n.x.Check(new(big.Int).SetUint64(got).Cmp(limit) <= 0, "%s: balance of %s is %d, more than the %s it had and was paid", describeBlock(b), u.name, got, limit)
	}
}

func runBlock(n *node, b *ref.Block, check ledgerCheck) {
	before := n.ref
	var sum *big.Int
	fresh := n.x.Fresh()
	if fresh {
		sum = n.storedSum()
	}
	err, why, detail := n.push(b)
	if fresh {
		check(n, b, before, sum, err, why, detail)
		n.x.OutcomeS(n.ref.Key())
	}
	if err == nil != (why == ref.Accepted) {
		n.x.Abort() // reported by the execution that got here first
	}
}

var startHeights = []uint32{1, 6, 11, 12}

// seq1 explores sequences of blocks with at most one transaction.
func seq1(depth func(x *explore.X) int, check ledgerCheck) func(x *explore.X) {
	return func(x *explore.X) {
		h := startHeights[x.Choose(len(startHeights))]
		n := newNode(x, initialState())
		d := depth(x)
		for i := 0; i < d; i++ {
			if x.Visited(fmt.Sprintf("%d/%s", h, n.ref.Key()), d-i) {
				return
			}
			menu := txMenu(n.ref)
			var txs []ref.Tx
			if c := x.Choose(len(menu) + 1); c > 0 {
				txs = menu[c-1 : c]
			}
			miner := miners[x.Choose(2)*2] // M or N
			runBlock(n, buildBlock(n.ref, h, miner, txs...), check)
			h++
		}
	}
}

// seq2 explores blocks of several transactions after a prefix of single-transaction blocks.
func seqN(prefix func(x *explore.X) int, txCount int, check ledgerCheck) func(x *explore.X) {
	return func(x *explore.X) {
		h := startHeights[1+x.Choose(3)]
		n := newNode(x, initialState())
		d := prefix(x)
		for i := 0; i < d; i++ {
			if x.Visited(fmt.Sprintf("%d/%s", h, n.ref.Key()), d-i) {
				return
			}
			menu := txMenu(n.ref)
			var txs []ref.Tx
			if c := x.Choose(len(menu) + 1); c > 0 {
				txs = menu[c-1 : c]
			}
			runBlock(n, buildBlock(n.ref, h, miners[0], txs...), check)
			h++
		}
		if x.Visited(fmt.Sprintf("end %d/%s", h, n.ref.Key()), 0) {
			return
		}
		miner := miners[x.Choose(len(miners))]
		menu := txMenu(n.ref)
		var txs []ref.Tx
		for i := 0; i < txCount; i++ {
			txs = append(txs, menu[x.Choose(len(menu))])
		}
		runBlock(n, buildBlock(n.ref, h, miner, txs...), check)
	}
}

// lateBlocks has blocks all along the emission of coins and after it.
func lateBlocks(check ledgerCheck) func(x *explore.X) {
	return func(x *explore.X) {
		schedule()
		hs := []uint32{1, 2, 4998, 4999, 5000, 99_999, 1_000_000, 20_000_000, tailStart - 2, tailStart - 1, tailStart, tailStart + 1, 53_000_000,
			sched.last - 1, sched.last, sched.last + 1, sched.last + 2, 60_000_000, 62_000_000}
		if x.Thorough {
			hs = append(hs, 1<<31-1, 1<<32-2)
		}
		h := hs[x.Choose(len(hs))]
		n := newNode(x, initialState())
		for i := 0; i < 2; i++ {
			menu := txMenu(n.ref)
			var txs []ref.Tx
			if c := x.Choose(len(menu) + 1); c > 0 {
				txs = menu[c-1 : c]
			}
			runBlock(n, buildBlock(n.ref, h, miners[x.Choose(2)*2], txs...), check)
			h++
		}
	}
}

var edge64 = []uint64{0, 1, 2, 7, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 8, 1<<64 - 2, 1<<64 - 1}

// edgeAmounts explores single and paired transactions with boundary amounts.
func edgeAmounts(check ledgerCheck) func(x *explore.X) {
	return func(x *explore.X) {
		kind := x.Choose(4)
		bal := edge64[x.Choose(len(edge64))]
		other := []uint64{0, 1, 1 << 63, 1<<64 - 1}[x.Choose(4)]
		s := ref.State{}
		put := func(a ref.Addr, acc ref.Acc) {
			if acc.Kind != ref.Basic || acc.Balance != 0 {
				s[a] = acc
			}
		}
		put(pB.addr, ref.Acc{Balance: other})
		value := edge64[x.Choose(len(edge64))]
		var fee uint64
		// Fees around the point where value+fee meets the balance or wraps, and boundary values.
		switch c := x.Choose(len(edge64) + 5); {
		case c < len(edge64):
			fee = edge64[c]
		case c == len(edge64):
			fee = bal - value
		case c == len(edge64)+1:
			fee = bal - value + 1
		case c == len(edge64)+2:
			fee = bal - value - 1
		case c == len(edge64)+3:
			fee = -value
		case c == len(edge64)+4:
			fee = bal - 1
		}
		var tx ref.Tx
		from := pA.addr
		switch kind {
		case 0:
			put(pA.addr, ref.Acc{Balance: bal})
			tx = basicTx(pA, pB.addr, value, fee)
		case 1:
			put(pA.addr, ref.Acc{Balance: bal})
			tx = extTx(pA.addr, 0, pB.addr, 0, value, fee, sigProof(pA))
		case 2:
			from = aV
			put(aV, ref.Acc{Kind: ref.Vesting, Balance: bal, Owner: pA.addr, Start: 1, StepBlocks: 1, StepAmount: bal, Total: bal})
			tx = extTx(aV, 1, pB.addr, 0, value, fee, sigProof(pA))
		case 3:
			from = aH
			put(aH, ref.Acc{Kind: ref.HTLC, Balance: bal, Sender: pB.addr, Recipient: pA.addr, Algo: 3, Hash: hashRoot, HashCount: 1, Timeout: 100, Total: bal})
			tx = extTx(aH, 2, pB.addr, 0, value, fee, regularProof(3, 1, hashRoot, pA))
		}
		n := newNode(x, s)
		txs := []ref.Tx{tx}
		switch x.Choose(4) {
		case 1: // the same again
			txs = append(txs, tx)
		case 2: // the rest follows
			t2 := tx
			t2.Value, t2.Fee = s[from].Balance-value-fee, 0
			txs = append(txs, t2)
		case 3: // one unit from the other account goes the other way
			txs = append(txs, basicTx(pB, pA.addr, 1, other-1))
		}
		miner := []ref.Addr{pM.addr, pB.addr, pA.addr}[x.Choose(3)]
		runBlock(n, buildBlock(n.ref, 7, miner, txs...), check)
	}
}

func checkA04(n *node, b *ref.Block, before ref.State, sum *big.Int, err error, why, detail string) {
	var o *wire.OverspendError
	over := errors.As(err, &o)
	switch why {
	case ref.Overspend:
		n.x.Check(over, "%s: err=%v, want an overspend error (%s)", describeBlock(b), err, detail)
	default:
		n.x.Check(!over, "%s: overspend error %v, but the funds suffice (reference: %q %s)", describeBlock(b), err, why, detail)
	}
}

// spendAlone applies one transaction to one account object, outside of any block.
func spendAlone(x *explore.X) {
	kind := x.Choose(3)
	bal := edge64[x.Choose(len(edge64))]
	var a ref.Acc
	tx := ref.Tx{}
	switch kind {
	case 0:
		a = ref.Acc{Balance: bal}
		tx = basicTx(pA, pB.addr, 0, 0)
		if x.Bool() {
			tx = extTx(pA.addr, 0, pB.addr, 0, 0, 0, sigProof(pA))
		}
	case 1:
		total := []uint64{bal, bal / 2, 1<<64 - 1, 0}[x.Choose(4)]
		a = ref.Acc{Kind: ref.Vesting, Balance: bal, Owner: pA.addr, Start: 10, StepBlocks: []uint32{0, 1, 3, 1<<32 - 1}[x.Choose(4)],
			StepAmount: []uint64{0, 1, total / 2, total, 1<<64 - 1}[x.Choose(5)], Total: total}
		tx = extTx(aV, 1, pB.addr, 0, 0, 0, sigProof(pA))
	case 2:
		a = ref.Acc{Kind: ref.HTLC, Balance: bal, Sender: pB.addr, Recipient: pA.addr, Algo: 3, Hash: hashRoot, HashCount: 1, Timeout: 100, Total: bal}
		tx = extTx(aH, 2, pB.addr, 0, 0, 0, regularProof(3, 1, hashRoot, pA))
	}
	height := []uint32{9, 10, 11, 13, 16, 1 << 31, 1<<32 - 1}[x.Choose(7)]
	if kind == 2 {
		height = 50
	}
	sp := a.Spendable(height).Uint64()
	cands := append([]uint64{sp, sp + 1, sp - 1, bal + 1, bal - 1}, edge64...)
	tx.Value = cands[x.Choose(len(cands))]
	fees := append([]uint64{sp - tx.Value, sp - tx.Value + 1, sp - tx.Value - 1, -tx.Value, -tx.Value + 1}, edge64...)
	for _, fee := range fees {
		tx.Fee = fee
		want, why := ref.Debit(a, &tx, height)
		obj := toWireAcc(&a)
		res, err := obj.ApplyOutgoingTx(toWireTx(&tx), height)
		x.Step()
		var o *wire.OverspendError
		x.Check(errors.As(err, &o) == (why == ref.Overspend), "account %+v at height %d, spending %d+%d: err=%v, want %q", a, height, tx.Value, tx.Fee, err, why)
		x.Check((err == nil) == (why == ref.Accepted), "account %+v at height %d, spending %d+%d: err=%v, want %q", a, height, tx.Value, tx.Fee, err, why)
		still, _ := fromWireAcc(obj)
		x.Check(still == a, "spending changed the account object from %+v to %+v", a, still)
		if err == nil {
			got, ok := fromWireAcc(res)
			x.Check(ok && got == want, "account %+v after spending %d+%d is %+v, want %+v", a, tx.Value, tx.Fee, got, want)
		}
		x.OutcomeS(fmt.Sprint(a.Balance, a.Kind, why, tx.Value, tx.Fee))
	}
	x.Note("account %+v at height %d spending %d plus %d fees", a, height, tx.Value, len(fees))
}

func ledgerPrograms(check ledgerCheck) []explore.Program {
	return []explore.Program{
		{Name: "sequences", Bounds: "sequences of 3 (thorough 5) blocks of at most one of 26 transactions, 2 miners, 4 start heights; states merged by ledger contents",
			Body: seq1(pick(3, 5), check)},
		{Name: "pairs", Bounds: "every block of two of 26 transactions, 4 miners, 3 heights, after every block of at most one transaction",
			Body: seqN(pick(1, 2), 2, check)},
		{Name: "triples", Bounds: "every block of three of 26 transactions, 4 miners, 3 heights (thorough: after every block of at most one transaction)",
			Body: seqN(pick(0, 1), 3, check)},
		{Name: "many", Bounds: "blocks of 4 to 600 transactions, valid, with a failing one at the end or in the middle, and chained", Body: manyTxs(check)},
		{Name: "roles", Bounds: "8 senders x 8 recipients x 8 miners x 7 amounts x 7 creation modes (none, either contract, without data, of no contract), with and without the prune list", Body: coincide1(check)},
		{Name: "rolepairs", Bounds: "every assignment of 5 addresses to two senders, two recipients and the miner x 4x4 (thorough: 7x7) amounts x 3x3 creation modes", Body: coincide2(check, true)},
		{Name: "heights", Bounds: "19 heights up to 62 million, around the start and the end of the tail emission and after it (thorough: also 2^31 and 2^32-1), at most one of 26 transactions, 2 miners, 2 blocks in a row", Body: lateBlocks(check), ExecLimit: 600e9},
		{Name: "amounts", Bounds: "each sender kind with 11 boundary balances, values and 16 fees around balance and wrap-around, 4 recipient balances, alone and paired 3 ways, 3 miners",
			Body: edgeAmounts(check)},
	}
}

func init() {
	register(&explore.Check{ID: "A01", Rule: "every block sequence of the programs is pushed to the real accounts; acceptance, all accounts and the root are compared with the reference ledger after each block",
		Programs: ledgerPrograms(checkA01)})
	register(&explore.Check{ID: "A02", Rule: "every block sequence of the programs is pushed; the sum over the stored leaves must grow by exactly the subsidy and nobody may gain more than was paid to them",
		Programs: ledgerPrograms(checkA02)})
	register(&explore.Check{ID: "A04", Rule: "each boundary combination is applied to account objects and in blocks; rejection for lack of funds is compared with big-integer arithmetic",
		Programs: []explore.Program{
			{Name: "objects", Bounds: "account kinds x 11 balances x schedules x heights x 16 values x 16 fees", Body: spendAlone},
			{Name: "blocks", Bounds: "boundary amounts in blocks of one and two transactions (as A01 amounts)", Body: edgeAmounts(checkA04)},
			{Name: "sequences", Bounds: "sequences of 3 (thorough 4) blocks of at most one of 26 transactions", Body: seq1(pick(3, 4), checkA04)},
			{Name: "pairs", Bounds: "blocks of two of 26 transactions after at most one block", Body: seqN(pick(1, 1), 2, checkA04)},
			{Name: "roles", Bounds: "8 senders x 8 recipients x 8 miners x 7 amounts x 7 creation modes (none, either contract, without data, of no contract)", Body: coincide1(checkA04)},
			{Name: "rolepairs", Bounds: "every assignment of 5 addresses to two senders, two recipients and the miner x 4x4 amounts (thorough: 7x7)", Body: coincide2(checkA04, false)},
		}})
}
