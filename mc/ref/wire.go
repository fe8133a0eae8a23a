package ref

import "encoding/binary"

// Content is the signed content of a transaction.
func (t *Tx) Content() []byte {
	var data []byte
	if t.Extended {
		data = t.Data
	}
	b := binary.BigEndian.AppendUint16(nil, uint16(len(data)))
	b = append(b, data...)
	b = append(b, t.Sender[:]...)
	if t.Extended {
		b = append(b, t.SenderType)
	} else {
		b = append(b, 0)
	}
	b = append(b, t.Recipient[:]...)
	if t.Extended {
		b = append(b, t.RecipientType)
	} else {
		b = append(b, 0)
	}
	b = binary.BigEndian.AppendUint64(b, t.Value)
	b = binary.BigEndian.AppendUint64(b, t.Fee)
	b = binary.BigEndian.AppendUint32(b, t.ValidityStart)
	b = append(b, t.NetworkID)
	if t.Extended {
		return append(b, t.Flags)
	}
	return append(b, 0)
}

// Encode is the wire form of the transaction with its type prefix.
func (t *Tx) Encode() []byte {
	if t.Extended {
		b := append([]byte{1}, t.Content()...)
		b = binary.BigEndian.AppendUint16(b, uint16(len(t.Proof)))
		return append(b, t.Proof...)
	}
	b := append([]byte{0}, t.PubKey[:]...)
	b = append(b, t.Recipient[:]...)
	b = binary.BigEndian.AppendUint64(b, t.Value)
	b = binary.BigEndian.AppendUint64(b, t.Fee)
	b = binary.BigEndian.AppendUint32(b, t.ValidityStart)
	b = append(b, t.NetworkID)
	return append(b, t.Signature[:]...)
}

// Header of a block.
type Header struct {
	Version                                         uint16
	PrevHash, InterlinkHash, BodyHash, AccountsHash [32]byte
	NBits, Height, Timestamp, Nonce                 uint32
}

// Encode is the wire form.
func (h *Header) Encode() []byte {
	b := binary.BigEndian.AppendUint16(nil, h.Version)
	b = append(b, h.PrevHash[:]...)
	b = append(b, h.InterlinkHash[:]...)
	b = append(b, h.BodyHash[:]...)
	b = append(b, h.AccountsHash[:]...)
	for _, v := range []uint32{h.NBits, h.Height, h.Timestamp, h.Nonce} {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	return b
}

// Interlink is a compressed interlink: one hash per unset bit among the first N.
type Interlink struct {
	N      byte
	Bits   []byte
	Hashes [][32]byte
}

// Encode is the wire form.
func (il *Interlink) Encode() []byte {
	b := append([]byte{il.N}, il.Bits...)
	for _, h := range il.Hashes {
		b = append(b, h[:]...)
	}
	return b
}

// EncodeBody is the wire form of the body, without the optional flag.
func (b *Block) EncodeBody(extra []byte) []byte {
	out := append([]byte{}, b.Miner[:]...)
	out = append(out, byte(len(extra)))
	out = append(out, extra...)
	out = binary.BigEndian.AppendUint16(out, uint16(len(b.Txs)))
	for i := range b.Txs {
		out = append(out, b.Txs[i].Encode()...)
	}
	out = binary.BigEndian.AppendUint16(out, uint16(len(b.Pruned)))
	for i := range b.Pruned {
		out = append(out, b.Pruned[i].Addr[:]...)
		out = append(out, b.Pruned[i].Acc.Encode()...)
	}
	return out
}

// EncodeBlock is the wire form of a whole block.
func (b *Block) EncodeBlock(h Header, il *Interlink, extra []byte) []byte {
	h.Height = b.Height
	out := append(h.Encode(), il.Encode()...)
	if b.NoBody {
		return append(out, 0)
	}
	return append(append(out, 1), b.EncodeBody(extra)...)
}
