package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	"golang.org/x/crypto/blake2b"
)

// Account kinds.
const (
	Basic   = 0
	Vesting = 1
	HTLC    = 2
)

// Acc is an account of any kind; fields that the kind does not have are zero.
type Acc struct {
	Kind    byte
	Balance uint64
	// vesting
	Owner      [20]byte
	Start      uint32
	StepBlocks uint32
	StepAmount uint64
	Total      uint64 // also HTLC
	// HTLC
	Sender    [20]byte
	Recipient [20]byte
	Algo      byte
	Hash      [32]byte
	HashCount byte
	Timeout   uint32
}

// Addr is an account address.
type Addr = [20]byte

// State maps addresses to accounts; empty basic accounts are left out.
type State map[Addr]Acc

// Tx is a transaction of either format.
type Tx struct {
	Extended      bool
	PubKey        [32]byte // basic only
	Data          []byte
	Sender        Addr
	SenderType    byte
	Recipient     Addr
	RecipientType byte
	Value, Fee    uint64
	ValidityStart uint32
	NetworkID     byte
	Flags         byte
	Proof         []byte
	Signature     [64]byte // basic only
}

// Pruned is an entry of a block's prune list.
type Pruned struct {
	Addr Addr
	Acc  Acc
}

// Block is what matters of a block for the state.
type Block struct {
	Height uint32
	Miner  Addr
	Txs    []Tx
	Pruned []Pruned
	NoBody bool
}

// Kinds of rejection.
const (
	Accepted  = ""
	Overspend = "overspend"
	Invalid   = "invalid"
)

// Encode is the stored form of an account.
func (a Acc) Encode() []byte {
	b := []byte{a.Kind}
	b = binary.BigEndian.AppendUint64(b, a.Balance)
	switch a.Kind {
	case Vesting:
		b = append(b, a.Owner[:]...)
		b = binary.BigEndian.AppendUint32(b, a.Start)
		b = binary.BigEndian.AppendUint32(b, a.StepBlocks)
		b = binary.BigEndian.AppendUint64(b, a.StepAmount)
		b = binary.BigEndian.AppendUint64(b, a.Total)
	case HTLC:
		b = append(b, a.Sender[:]...)
		b = append(b, a.Recipient[:]...)
		b = append(b, a.Algo)
		b = append(b, a.Hash[:]...)
		b = append(b, a.HashCount)
		b = binary.BigEndian.AppendUint32(b, a.Timeout)
		b = binary.BigEndian.AppendUint64(b, a.Total)
	}
	return b
}

// Clone copies the state.
func (s State) Clone() State {
	c := make(State, len(s))
	for k, v := range s {
		c[k] = v
	}
	return c
}

func (s State) put(a Addr, acc Acc) {
	if acc.Kind == Basic && acc.Balance == 0 {
		delete(s, a)
	} else {
		s[a] = acc
	}
}

// Key is a canonical form of the state.
func (s State) Key() string {
	var keys []string
	for a, acc := range s {
		keys = append(keys, string(a[:])+string(acc.Encode()))
	}
	sort.Strings(keys)
	var b bytes.Buffer
	for _, k := range keys {
		b.WriteString(k)
	}
	return b.String()
}

// Entries is the state as stored.
func (s State) Entries() map[Addr][]byte {
	m := make(map[Addr][]byte, len(s))
	for a, acc := range s {
		m[a] = acc.Encode()
	}
	return m
}

// Sum is all the money there is.
func (s State) Sum() *big.Int {
	t := new(big.Int)
	for _, acc := range s {
		t.Add(t, new(big.Int).SetUint64(acc.Balance))
	}
	return t
}

func u(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

var maxU64 = new(big.Int).SetUint64(1<<64 - 1)

// Supply is the emission schedule, computed from the first block; results are cached by the caller.
func Reward(supply uint64, height uint32) uint64 {
	if height == 0 {
		return 0
	}
	rest := uint64(2_100_000_000_000_000) - supply
	if height >= 48_692_960 && rest >= 4000 {
		return 4000
	}
	return rest >> 22
}

// Subsidy is the block reward at a height, by accumulating from the beginning.
func Subsidy(height uint32) uint64 {
	s := uint64(252_000_000_000_000)
	end := height
	if end > 60_000_000 {
		end = 60_000_000 // emission has ended
	}
	for h := uint32(1); h < end; h++ {
		s += Reward(s, h)
	}
	return Reward(s, height)
}

// SigProof is a parsed signature proof.
type SigProof struct {
	PubKey [32]byte
	Bits   []byte
	Hashes [][32]byte
	Sig    [64]byte
}

// Signer is the address the proof stands for.
func (p *SigProof) Signer() (a Addr) {
	h := blake2b.Sum256(p.PubKey[:])
	for i, sib := range p.Hashes {
		var m [64]byte
		if p.Bits[i/8]>>(7-uint(i%8))&1 == 1 {
			copy(m[:], sib[:])
			copy(m[32:], h[:])
		} else {
			copy(m[:], h[:])
			copy(m[32:], sib[:])
		}
		h = blake2b.Sum256(m[:])
	}
	copy(a[:], h[:20])
	return
}

// Encode is the wire form.
func (p *SigProof) Encode() []byte {
	b := append([]byte{}, p.PubKey[:]...)
	b = append(b, byte(len(p.Hashes)))
	b = append(b, p.Bits...)
	for _, h := range p.Hashes {
		b = append(b, h[:]...)
	}
	return append(b, p.Sig[:]...)
}

// ParseSigProof reads a proof and returns what follows it.
func ParseSigProof(b []byte) (p *SigProof, rest []byte, ok bool) {
	p = new(SigProof)
	if len(b) < 33 {
		return nil, nil, false
	}
	copy(p.PubKey[:], b)
	n := int(b[32])
	b = b[33:]
	nb := (n + 7) / 8
	if len(b) < nb+32*n+64 {
		return nil, nil, false
	}
	p.Bits = append([]byte(nil), b[:nb]...)
	b = b[nb:]
	for i := 0; i < n; i++ {
		var h [32]byte
		copy(h[:], b)
		p.Hashes = append(p.Hashes, h)
		b = b[32:]
	}
	copy(p.Sig[:], b)
	return p, b[64:], true
}

func soleSigner(b []byte) (Addr, bool) {
	p, rest, ok := ParseSigProof(b)
	if !ok || len(rest) != 0 {
		return Addr{}, false
	}
	return p.Signer(), true
}

// VestingKeep is what must stay in a vesting contract at a height, counting from its total.
// everything is true if nothing may be withdrawn.
func VestingKeep(a *Acc, height uint32) (keep *big.Int, everything bool) {
	if height <= a.Start {
		return nil, true
	}
	if a.StepBlocks == 0 || a.StepAmount == 0 {
		return new(big.Int), false
	}
	steps := new(big.Int).Div(big.NewInt(int64(height)-int64(a.Start)), big.NewInt(int64(a.StepBlocks)))
	k := new(big.Int).Sub(u(a.Total), steps.Mul(steps, u(a.StepAmount)))
	if k.Sign() < 0 {
		k.SetInt64(0)
	}
	return k, false
}

// Spendable is what can be taken out of the account at a height.
func (a *Acc) Spendable(height uint32) *big.Int {
	b := u(a.Balance)
	if a.Kind != Vesting {
		return b
	}
	keep, everything := VestingKeep(a, height)
	if everything {
		return new(big.Int)
	}
	b.Sub(b, keep)
	if b.Sign() < 0 {
		b.SetInt64(0)
	}
	return b
}

// Debit applies the sender side of a transaction to an account.
func Debit(a Acc, tx *Tx, height uint32) (Acc, string) {
	amount := new(big.Int).Add(u(tx.Value), u(tx.Fee))
	if amount.Cmp(a.Spendable(height)) > 0 {
		return a, Overspend
	}
	left := new(big.Int).Sub(u(a.Balance), amount)
	switch a.Kind {
	case Vesting:
		if s, ok := soleSigner(tx.Proof); !ok || s != a.Owner {
			return a, Invalid
		}
	case HTLC:
		if !htlcAllows(&a, tx.Proof, height, left) {
			return a, Invalid
		}
	}
	a.Balance = left.Uint64()
	return a, Accepted
}

func htlcAllows(a *Acc, proof []byte, height uint32, left *big.Int) bool {
	if len(proof) < 1 {
		return false
	}
	kind, b := proof[0], proof[1:]
	switch kind {
	case 1: // regular transfer
		if height > a.Timeout || len(b) < 66 {
			return false
		}
		algo, depth := b[0], b[1]
		if algo != a.Algo || !bytes.Equal(b[2:34], a.Hash[:]) {
			return false
		}
		if s, ok := soleSigner(b[66:]); !ok || s != a.Recipient {
			return false
		}
		return left.Cmp(HTLCKeep(a, depth)) >= 0
	case 2: // early resolve
		p, rest, ok := ParseSigProof(b)
		if !ok || p.Signer() != a.Recipient {
			return false
		}
		s, ok := soleSigner(rest)
		return ok && s == a.Sender
	case 3: // timeout
		s, ok := soleSigner(b)
		return ok && height > a.Timeout && s == a.Sender
	}
	return false
}

// HTLCKeep is what must stay in an HTLC when depth pre-images are revealed.
func HTLCKeep(a *Acc, depth byte) *big.Int {
	if depth >= a.HashCount {
		return new(big.Int)
	}
	k := new(big.Int).Mul(u(a.Total), big.NewInt(int64(a.HashCount)-int64(depth)))
	return k.Div(k, big.NewInt(int64(a.HashCount)))
}

// Create makes the contract a creation transaction describes.
func Create(tx *Tx, balance uint64) (a Acc, ok bool) {
	d := tx.Data
	a.Balance = balance
	a.Kind = tx.RecipientType
	switch tx.RecipientType {
	case Vesting:
		if len(d) != 24 && len(d) != 36 && len(d) != 44 {
			return a, false
		}
		copy(a.Owner[:], d)
		d = d[20:]
		if len(d) == 4 {
			a.StepBlocks = binary.BigEndian.Uint32(d)
			a.StepAmount, a.Total = tx.Value, tx.Value
			return a, true
		}
		a.Start = binary.BigEndian.Uint32(d)
		a.StepBlocks = binary.BigEndian.Uint32(d[4:])
		a.StepAmount = binary.BigEndian.Uint64(d[8:])
		a.Total = tx.Value
		if len(d) == 24 {
			a.Total = binary.BigEndian.Uint64(d[16:])
		}
		return a, true
	case HTLC:
		if len(d) != 78 {
			return a, false
		}
		copy(a.Sender[:], d)
		copy(a.Recipient[:], d[20:])
		a.Algo = d[40]
		copy(a.Hash[:], d[41:])
		a.HashCount = d[73]
		a.Timeout = binary.BigEndian.Uint32(d[74:])
		a.Total = tx.Value
		return a, a.HashCount != 0
	}
	return a, false
}

const flagCreate = 1

// Apply applies a block. It returns the new state, or why the block is rejected.
func (s State) Apply(b *Block, subsidy func(uint32) uint64) (State, string, string) {
	if b.NoBody || b.Height < 1 {
		return s, Invalid, "no body or height"
	}
	n := s.Clone()
	for i := range b.Txs {
		tx := &b.Txs[i]
		a := n[tx.Sender]
		if tx.SenderType != a.Kind {
			return s, Invalid, fmt.Sprintf("sender type of tx %d", i)
		}
		a, why := Debit(a, tx, b.Height)
		if why != Accepted {
			return s, why, fmt.Sprintf("debit of tx %d", i)
		}
		n.put(tx.Sender, a)
	}
	for i := range b.Txs {
		tx := &b.Txs[i]
		a := n[tx.Recipient]
		if a.Kind != Basic || (tx.Flags&flagCreate == 0 && tx.RecipientType != Basic) {
			return s, Invalid, fmt.Sprintf("credit of tx %d", i)
		}
		sum := new(big.Int).Add(u(a.Balance), u(tx.Value))
		if sum.Cmp(maxU64) > 0 {
			return s, Invalid, fmt.Sprintf("credit of tx %d overflows", i)
		}
		a.Balance = sum.Uint64()
		n.put(tx.Recipient, a)
	}
	for i := range b.Txs {
		tx := &b.Txs[i]
		if tx.Flags&flagCreate == 0 {
			continue
		}
		old := n[tx.Recipient]
		a, ok := Create(tx, old.Balance)
		if !ok || old.Kind != Basic {
			return s, Invalid, fmt.Sprintf("creation of tx %d", i)
		}
		n.put(tx.Recipient, a)
	}
	// Every contract that a transaction spent from and that is empty now has to be quoted, once.
	emptied := map[Addr]Acc{}
	for i := range b.Txs {
		if a := n[b.Txs[i].Sender]; a.Kind != Basic && a.Balance == 0 {
			emptied[b.Txs[i].Sender] = a
		}
	}
	if len(emptied) != len(b.Pruned) {
		return s, Invalid, "prune list length"
	}
	for _, p := range b.Pruned {
		a, ok := emptied[p.Addr]
		if !ok || a != p.Acc {
			return s, Invalid, "prune list entry"
		}
		delete(emptied, p.Addr)
		delete(n, p.Addr)
	}
	miner := n[b.Miner]
	if miner.Kind != Basic {
		return s, Invalid, "miner is a contract"
	}
	sum := new(big.Int).Add(u(miner.Balance), u(subsidy(b.Height)))
	for i := range b.Txs {
		sum.Add(sum, u(b.Txs[i].Fee))
	}
	if sum.Cmp(maxU64) > 0 {
		return s, Invalid, "reward overflows"
	}
	miner.Balance = sum.Uint64()
	n.put(b.Miner, miner)
	return n, Accepted, ""
}

// Emptied lists what a block has to quote as pruned, by what its transactions do (for building valid blocks).
func (s State) Emptied(b *Block, subsidy func(uint32) uint64) []Pruned {
	// Debits and creations decide; run them without prune list.
	n := s.Clone()
	for i := range b.Txs {
		tx := &b.Txs[i]
		a := n[tx.Sender]
		if tx.SenderType != a.Kind {
			return nil
		}
		a, why := Debit(a, tx, b.Height)
		if why != Accepted {
			return nil
		}
		n.put(tx.Sender, a)
	}
	var out []Pruned
	seen := map[Addr]bool{}
	for i := range b.Txs {
		ad := b.Txs[i].Sender
		if a := n[ad]; a.Kind != Basic && a.Balance == 0 && !seen[ad] {
			seen[ad] = true
			out = append(out, Pruned{ad, a})
		}
	}
	return out
}
