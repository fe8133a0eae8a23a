package ref

import "encoding/binary"

// cur takes values off a buffer; ok turns false when it runs out or a value is not acceptable.
type cur struct {
	b  []byte
	ok bool
}

func (c *cur) take(n int) []byte {
	if !c.ok || n > len(c.b) {
		c.ok = false
		return make([]byte, n)
	}
	v := c.b[:n:n]
	c.b = c.b[n:]
	return v
}
func (c *cur) u8() byte    { return c.take(1)[0] }
func (c *cur) u16() uint16 { return binary.BigEndian.Uint16(c.take(2)) }
func (c *cur) u32() uint32 { return binary.BigEndian.Uint32(c.take(4)) }
func (c *cur) u64() uint64 { return binary.BigEndian.Uint64(c.take(8)) }
func (c *cur) h20() (h [20]byte) {
	copy(h[:], c.take(20))
	return
}
func (c *cur) h32() (h [32]byte) {
	copy(h[:], c.take(32))
	return
}

func (c *cur) acc() (a Acc) {
	a.Kind = c.u8()
	a.Balance = c.u64()
	switch a.Kind {
	case Basic:
	case Vesting:
		a.Owner, a.Start, a.StepBlocks, a.StepAmount, a.Total = c.h20(), c.u32(), c.u32(), c.u64(), c.u64()
	case HTLC:
		a.Sender, a.Recipient, a.Algo, a.Hash, a.HashCount, a.Timeout, a.Total = c.h20(), c.h20(), c.u8(), c.h32(), c.u8(), c.u32(), c.u64()
	default:
		c.ok = false
	}
	return
}

func (c *cur) tx() (t Tx) {
	switch c.u8() {
	case 0:
		t.PubKey = c.h32()
		t.Sender = (&SigProof{PubKey: t.PubKey}).Signer()
		t.Recipient, t.Value, t.Fee, t.ValidityStart, t.NetworkID = c.h20(), c.u64(), c.u64(), c.u32(), c.u8()
		copy(t.Signature[:], c.take(64))
	case 1:
		t.Extended = true
		t.Data = c.take(int(c.u16()))
		t.Sender, t.SenderType, t.Recipient, t.RecipientType = c.h20(), c.u8(), c.h20(), c.u8()
		t.Value, t.Fee, t.ValidityStart, t.NetworkID, t.Flags = c.u64(), c.u64(), c.u32(), c.u8(), c.u8()
		t.Proof = c.take(int(c.u16()))
	default:
		c.ok = false
	}
	return
}

// ParseAcc reads an account that fills the buffer.
func ParseAcc(b []byte) (a Acc, ok bool) {
	c := &cur{b, true}
	a = c.acc()
	return a, c.ok && len(c.b) == 0
}

// ParseBlock reads a block that fills the buffer.
func ParseBlock(buf []byte) (b *Block, h Header, ok bool) {
	c := &cur{buf, true}
	b = new(Block)
	h.Version = c.u16()
	h.PrevHash, h.InterlinkHash, h.BodyHash, h.AccountsHash = c.h32(), c.h32(), c.h32(), c.h32()
	h.NBits, h.Height, h.Timestamp, h.Nonce = c.u32(), c.u32(), c.u32(), c.u32()
	b.Height = h.Height
	n := int(c.u8())
	bits := c.take((n + 7) / 8)
	for i := 0; i < n; i++ {
		if bits[i/8]>>(7-uint(i%8))&1 == 0 {
			c.take(32)
		}
	}
	switch c.u8() {
	case 0:
		b.NoBody = true
	case 1:
		b.Miner = c.h20()
		c.take(int(c.u8()))
		for i := int(c.u16()); i > 0 && c.ok; i-- {
			b.Txs = append(b.Txs, c.tx())
		}
		for i := int(c.u16()); i > 0 && c.ok; i-- {
			b.Pruned = append(b.Pruned, Pruned{c.h20(), c.acc()})
		}
	default:
		c.ok = false
	}
	return b, h, c.ok && len(c.b) == 0
}

// ParseAccounts reads a list of genesis accounts that fills the buffer.
func ParseAccounts(buf []byte) (l []Pruned, ok bool) {
	c := &cur{buf, true}
	for i := int(c.u16()); i > 0 && c.ok; i-- {
		l = append(l, Pruned{c.h20(), c.acc()})
	}
	return l, c.ok && len(c.b) == 0
}

// Genesis is the state a profile leads to, or why it is not acceptable.
func Genesis(block, accounts []byte, subsidy func(uint32) uint64) (s State, b *Block, l []Pruned, why string) {
	b, h, ok := ParseBlock(block)
	if !ok {
		return nil, nil, nil, "malformed block"
	}
	if l, ok = ParseAccounts(accounts); !ok {
		return nil, b, nil, "malformed accounts"
	}
	s = State{}
	for _, a := range l {
		s.put(a.Addr, a.Acc)
	}
	s, why, detail := s.Apply(b, subsidy)
	if why != Accepted {
		return nil, b, l, detail
	}
	if TrieRoot(s.Entries()) != h.AccountsHash {
		return nil, b, l, "wrong root"
	}
	return s, b, l, ""
}
