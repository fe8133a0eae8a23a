package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
	"verif/mc/ref"
)

// ---------------------------------------------------------------- conversions

func toWireTx(t *ref.Tx) wire.Tx {
	if !t.Extended {
		return &wire.BasicTx{SenderPubKey: t.PubKey, Recipient: t.Recipient, Value: t.Value, Fee: t.Fee,
			ValidityStartHeight: t.ValidityStart, NetworkID: t.NetworkID, Signature: t.Signature}
	}
	return &wire.ExtendedTx{Data: append([]byte(nil), t.Data...), Sender: t.Sender, SenderType: t.SenderType, Recipient: t.Recipient,
		RecipientType: t.RecipientType, Value: t.Value, Fee: t.Fee, ValidityStartHeight: t.ValidityStart,
		NetworkID: t.NetworkID, Flags: t.Flags, Proof: append([]byte(nil), t.Proof...)}
}

func toWireAcc(a *ref.Acc) wire.Account {
	switch a.Kind {
	case ref.Basic:
		return &wire.BasicAccount{Value: a.Balance}
	case ref.Vesting:
		return &wire.VestingAccount{Value: a.Balance, Owner: a.Owner, VestingStart: a.Start, VestingStepBlocks: a.StepBlocks,
			VestingStepAmount: a.StepAmount, VestingTotalAmount: a.Total}
	case ref.HTLC:
		return &wire.HTLCAccount{Value: a.Balance, Sender: a.Sender, Recipient: a.Recipient,
			Hash: wire.Hash{Algorithm: a.Algo, Bytes: a.Hash}, HashCount: a.HashCount, Timeout: a.Timeout, TotalAmount: a.Total}
	}
	panic("kind")
}

func fromWireAcc(a wire.Account) (ref.Acc, bool) {
	switch a := a.(type) {
	case *wire.BasicAccount:
		if a == nil {
			return ref.Acc{}, false
		}
		return ref.Acc{Balance: a.Value}, true
	case *wire.VestingAccount:
		if a == nil {
			return ref.Acc{}, false
		}
		return ref.Acc{Kind: ref.Vesting, Balance: a.Value, Owner: a.Owner, Start: a.VestingStart, StepBlocks: a.VestingStepBlocks,
			StepAmount: a.VestingStepAmount, Total: a.VestingTotalAmount}, true
	case *wire.HTLCAccount:
		if a == nil {
			return ref.Acc{}, false
		}
		return ref.Acc{Kind: ref.HTLC, Balance: a.Value, Sender: a.Sender, Recipient: a.Recipient, Algo: a.Hash.Algorithm,
			Hash: a.Hash.Bytes, HashCount: a.HashCount, Timeout: a.Timeout, Total: a.TotalAmount}, true
	}
	return ref.Acc{}, false
}

func toWireBlock(b *ref.Block) *wire.Block {
	wb := &wire.Block{}
	wb.Header.Height = b.Height
	if b.NoBody {
		return wb
	}
	wb.Body = &wire.BlockBody{MinerAddr: b.Miner}
	for i := range b.Txs {
		wb.Body.Txs = append(wb.Body.Txs, wire.WrapTx{Tx: toWireTx(&b.Txs[i])})
	}
	for i := range b.Pruned {
		wb.Body.Pruned = append(wb.Body.Pruned, wire.AccountPruned{Address: b.Pruned[i].Addr,
			Account: wire.WrapAccount{Account: toWireAcc(&b.Pruned[i].Acc)}})
	}
	return wb
}

var subsidies sync.Map

func subsidy(h uint32) uint64 {
	if v, ok := subsidies.Load(h); ok {
		return v.(uint64)
	}
	v := uint64(0)
	if h < 100_000 {
		v = ref.Subsidy(h)
	} else {
		v = subsidyOf(h)
	}
	subsidies.Store(h, v)
	return v
}

// ---------------------------------------------------------------- the world

type party struct {
	name string
	pub  [32]byte
	addr ref.Addr
}

func newParty(name string, seed byte) party {
	var p party
	p.name = name
	for i := range p.pub {
		p.pub[i] = seed + byte(i)
	}
	h := blake2b.Sum256(p.pub[:])
	copy(p.addr[:], h[:20])
	return p
}

var (
	pA = newParty("A", 1)
	pB = newParty("B", 50)
	pC = newParty("C", 100)
	pM = newParty("M", 150)
	// Contract addresses share long prefixes with the others.
	aV = divergeAt(pA.addr, 39, (pA.addr[19]+1)&15)
	aH = divergeAt(pB.addr, 21, (pB.addr[10]+3)&15)
	aN = divergeAt(aV, 38, (aV[19]>>4+5)&15)
	aX = keyFromHex("00ff00ff")
)

var universe = []struct {
	name string
	addr ref.Addr
}{{"A", pA.addr}, {"B", pB.addr}, {"C", pC.addr}, {"M", pM.addr}, {"V", aV}, {"H", aH}, {"N", aN}, {"X", aX}}

func addrName(a ref.Addr) string {
	for _, u := range universe {
		if u.addr == a {
			return u.name
		}
	}
	return fmt.Sprintf("%x", a[:3])
}

// sigProof is a plain single-key proof.
func sigProof(p party) []byte {
	sp := ref.SigProof{PubKey: p.pub}
	sp.Sig[0], sp.Sig[63] = 0x51, 0x52
	return sp.Encode()
}

var hashRoot = [32]byte{7, 7, 7, 31: 9}

func regularProof(algo, depth byte, root [32]byte, p party) []byte {
	b := []byte{1, algo, depth}
	b = append(b, root[:]...)
	b = append(b, make([]byte, 32)...)
	return append(b, sigProof(p)...)
}
func earlyProof(recipient, sender party) []byte {
	return append(append([]byte{2}, sigProof(recipient)...), sigProof(sender)...)
}
func timeoutProof(p party) []byte { return append([]byte{3}, sigProof(p)...) }

func basicTx(from party, to ref.Addr, value, fee uint64) ref.Tx {
	return ref.Tx{PubKey: from.pub, Sender: from.addr, Recipient: to, Value: value, Fee: fee, ValidityStart: 1, NetworkID: 4}
}
func extTx(from ref.Addr, fromType byte, to ref.Addr, toType byte, value, fee uint64, proof []byte) ref.Tx {
	return ref.Tx{Extended: true, Sender: from, SenderType: fromType, Recipient: to, RecipientType: toType, Value: value, Fee: fee,
		ValidityStart: 1, NetworkID: 4, Proof: proof}
}
func createTx(from party, to ref.Addr, typ byte, value, fee uint64, data []byte) ref.Tx {
	t := extTx(from.addr, 0, to, typ, value, fee, sigProof(from))
	t.Flags, t.Data = 1, data
	return t
}

func vestingData(owner ref.Addr, rest ...interface{}) []byte {
	var b bytes.Buffer
	b.Write(owner[:])
	for _, r := range rest {
		_ = binary.Write(&b, binary.BigEndian, r)
	}
	return b.Bytes()
}
func htlcData(sender, recipient ref.Addr, algo byte, root [32]byte, count byte, timeout uint32) []byte {
	var b bytes.Buffer
	b.Write(sender[:])
	b.Write(recipient[:])
	b.WriteByte(algo)
	b.Write(root[:])
	b.WriteByte(count)
	_ = binary.Write(&b, binary.BigEndian, timeout)
	return b.Bytes()
}

// initialState has accounts of every kind.
func initialState() ref.State {
	return ref.State{
		pA.addr: {Balance: 10},
		pB.addr: {Balance: 5},
		aV:      {Kind: ref.Vesting, Balance: 12, Owner: pA.addr, Start: 5, StepBlocks: 2, StepAmount: 3, Total: 12},
		aH: {Kind: ref.HTLC, Balance: 9, Sender: pB.addr, Recipient: pA.addr, Algo: 3, Hash: hashRoot, HashCount: 3,
			Timeout: 11, Total: 9},
	}
}

// node is the system under test with its reference state.
type node struct {
	x     *explore.X
	store *recStore
	accs  *accounts.Accounts
	ref   ref.State
}

func newNode(x *explore.X, s ref.State) *node {
	st := newRecStore()
	n := &node{x: x, store: st, accs: accounts.NewAccounts(&tree.PMTree{Store: st}), ref: s.Clone()}
	// Always in the same order.
	for _, k := range sortedAddrs(s) {
		a := s[k]
		n.accs.PutAccount(&k, toWireAcc(&a))
	}
	return n
}

func sortedAddrs(s ref.State) []ref.Addr {
	var out []ref.Addr
	for k := range s {
		i := len(out)
		out = append(out, k)
		for i > 0 && bytes.Compare(out[i-1][:], k[:]) > 0 {
			out[i] = out[i-1]
			i--
		}
		out[i] = k
	}
	return out
}

func describeTx(t *ref.Tx) string {
	s := "basic"
	if t.Extended {
		s = fmt.Sprintf("ext[%d->%d flags %d data %d proof %d]", t.SenderType, t.RecipientType, t.Flags, len(t.Data), len(t.Proof))
	}
	return fmt.Sprintf("%s %s->%s %d+%d", s, addrName(t.Sender), addrName(t.Recipient), t.Value, t.Fee)
}

func describeBlock(b *ref.Block) string {
	s := fmt.Sprintf("block %d miner %s", b.Height, addrName(b.Miner))
	if b.NoBody {
		return s + " without body"
	}
	for i := range b.Txs {
		s += " {" + describeTx(&b.Txs[i]) + "}"
	}
	for i := range b.Pruned {
		s += fmt.Sprintf(" pruned %s=%+v", addrName(b.Pruned[i].Addr), b.Pruned[i].Acc)
	}
	return s
}

func describeState(s ref.State) string {
	out := ""
	for _, k := range sortedAddrs(s) {
		out += fmt.Sprintf(" %s=%c%d", addrName(k), "bvh"[s[k].Kind], s[k].Balance)
	}
	return out
}

// rootOf is the reference root of a state.
var rootCache struct {
	sync.Mutex
	m map[string][32]byte
}

func rootOf(s ref.State) [32]byte {
	k := s.Key()
	rootCache.Lock()
	r, ok := rootCache.m[k]
	rootCache.Unlock()
	if ok {
		return r
	}
	r = ref.TrieRoot(s.Entries())
	rootCache.Lock()
	if rootCache.m == nil || len(rootCache.m) > 300000 {
		rootCache.m = map[string][32]byte{}
	}
	rootCache.m[k] = r
	rootCache.Unlock()
	return r
}

// push applies the block to both and returns the error of the code and the reference's reason.
func (n *node) push(b *ref.Block) (err error, why, detail string) {
	next, why, detail := n.ref.Apply(b, subsidy)
	wb := toWireBlock(b)
	err = n.accs.Push(wb)
	n.x.Step()
	if n.x.Tracing() {
		n.x.Note("%s -> err=%v (reference: %s %s)", describeBlock(b), err, why, detail)
	}
	n.ref = next
	return
}

// checkState compares every account and the root with the reference.
func (n *node) checkState() {
	x := n.x
	for _, u := range universe {
		a := u.addr
		acc := n.accs.GetAccount(&a)
		got, ok := fromWireAcc(acc)
		want := n.ref[u.addr]
		x.Check(ok && got == want, "account %s is %+v, want %+v", u.name, got, want)
		x.Check(acc.Balance() == want.Balance && acc.Type() == want.Kind && acc.IsEmpty() == (want.Balance == 0),
			"account %s reports balance %d, type %d, empty %v; want %+v", u.name, acc.Balance(), acc.Type(), acc.IsEmpty(), want)
	}
	for k, want := range n.ref { // addresses outside the fixed universe
		k := k
		got, ok := fromWireAcc(n.accs.GetAccount(&k))
		x.Check(ok && got == want, "account %s is %+v, want %+v", addrName(k), got, want)
	}
	h, want := n.accs.Tree.Hash(), rootOf(n.ref)
	x.Check(h == want, "root is %x, want %x for%s", h, want, describeState(n.ref))
}

// storedSum adds up what the leaves of the store say, without going through the code under test.
func (n *node) storedSum() *big.Int {
	t := new(big.Int)
	for _, nd := range n.store.m {
		if l, ok := nd.(*tree.Leaf); ok {
			if len(l.Value) < 9 {
				n.x.Fail("a stored account has %d bytes", len(l.Value))
			}
			t.Add(t, new(big.Int).SetUint64(binary.BigEndian.Uint64(l.Value[1:9])))
		}
	}
	return t
}

// ---------------------------------------------------------------- menus

// txMenu lists the transactions that are tried in a state.
func txMenu(s ref.State) []ref.Tx {
	bal := func(a ref.Addr) uint64 { return s[a].Balance }
	all := func(a ref.Addr, fee uint64) uint64 {
		if bal(a) < fee {
			return 0
		}
		return bal(a) - fee
	}
	vd := vestingData(pA.addr, uint32(2))
	vd44 := vestingData(pA.addr, uint32(5), uint32(1), uint64(1), uint64(3))
	hd := htlcData(pB.addr, pA.addr, 3, hashRoot, 2, 12)
	m := []ref.Tx{
		basicTx(pA, pB.addr, 3, 1),
		basicTx(pA, pB.addr, all(pA.addr, 1), 1),
		basicTx(pA, pB.addr, bal(pA.addr), 1),
		basicTx(pA, pA.addr, 4, 1),
		basicTx(pB, pA.addr, 5, 0),
		basicTx(pB, pC.addr, 2, 0),
		basicTx(pC, pA.addr, 2, 1),
		extTx(pA.addr, 0, pC.addr, 0, 1, 0, sigProof(pA)),
		basicTx(pM, pB.addr, 1, 1),
		extTx(aV, 1, pB.addr, 0, 2, 1, sigProof(pA)),
		extTx(aV, 1, pA.addr, 0, all(aV, 1), 1, sigProof(pA)),
		extTx(pA.addr, 0, aV, 1, 1, 0, sigProof(pA)),
		extTx(aH, 2, pA.addr, 0, 3, 0, regularProof(3, 1, hashRoot, pA)),
		extTx(aH, 2, pA.addr, 0, all(aH, 2), 2, regularProof(3, 3, hashRoot, pA)),
		extTx(aH, 2, pB.addr, 0, all(aH, 0), 0, timeoutProof(pB)),
		extTx(aH, 2, pC.addr, 0, 2, 1, earlyProof(pA, pB)),
		createTx(pA, aN, 1, 4, 0, vd),
		createTx(pA, aN, 2, 3, 1, hd),
		createTx(pA, pB.addr, 1, 1, 0, vd44),
		createTx(pA, aV, 1, 1, 0, vd),
		extTx(aN, 1, pA.addr, 0, 2, 0, sigProof(pA)),
		basicTx(pA, aN, 1, 0),
		basicTx(pC, pC.addr, 0, 0),
		extTx(pA.addr, 1, pB.addr, 0, 1, 0, sigProof(pA)),
		extTx(aN, 2, pB.addr, 0, all(aN, 0), 0, earlyProof(pA, pB)),
		createTx(pB, aN, 2, 0, 0, hd),
	}
	return m
}

var miners = []ref.Addr{pM.addr, pA.addr, aN, aV}

// build completes a block with the prune list it needs.
func buildBlock(s ref.State, height uint32, miner ref.Addr, txs ...ref.Tx) *ref.Block {
	b := &ref.Block{Height: height, Miner: miner, Txs: txs}
	b.Pruned = s.Emptied(b, subsidy)
	return b
}
