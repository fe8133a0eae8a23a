package props

import (
	"fmt"
	"net"

	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
)

// A dev with wide set visits the fields in order; the one with the number target takes value number choice from a menu
// that is much longer than the boundary values: every value of small fields, every value of every byte of larger ones.
type wideSite struct {
	target, choice int
	sites          int
	size           int // of the menu at target
}

// wider says which value of a menu with n entries to take, or -1 for the default.
func (d *dev) wider(n int) int {
	if d.wide == nil {
		return -1
	}
	d.wide.sites++
	if d.wide.sites-1 != d.wide.target {
		return -1
	}
	d.wide.size = n
	d.n++
	return d.wide.choice
}

// wideNumber is entry c of the menu for numbers of a width in bytes, which has wideNumbers(width) entries.
func wideNumber(width, c int, base uint64) uint64 {
	switch width {
	case 1, 2:
		return uint64(c)
	}
	if c < 2048 {
		return uint64(c)
	}
	if c -= 2048; c < 256*width {
		shift := uint(c / 256 * 8)
		return base&^(0xff<<shift) | uint64(c%256)<<shift
	}
	c -= 256 * width
	v := uint64(1)<<uint(c/3) + uint64(c%3) - 1
	if width == 4 {
		v &= 1<<32 - 1
	}
	return v
}

func wideNumbers(width int) int {
	switch width {
	case 1:
		return 256
	case 2:
		return 65536
	}
	return 2048 + 256*width + 3*8*width
}

// wideFix changes one byte of b.
func (d *dev) wideFix(b []byte) bool {
	c := d.wider(len(b) * 256)
	if c < 0 {
		return false
	}
	for i := range b {
		b[i] = byte(i*7 + 3)
	}
	b[c/256] = byte(c)
	return true
}

const twoBytes = "\x00\x01\t\n\r !\"%'*+,-./09:;?@AZ[\\_az~\x7f\xff"

// wideBlob gives every string of one byte, of two bytes from twoBytes, every value of every byte of the default length n, and every length
// up to max.
func (d *dev) wideBlob(n, max int) ([]byte, bool) {
	c := d.wider(256 + 1024 + 256*n + max + 1)
	if c < 0 {
		return nil, false
	}
	d.n++
	if c < 256 {
		return []byte{byte(c)}, true
	}
	if c -= 256; c < 1024 {
		return []byte{twoBytes[c/32], twoBytes[c%32]}, true
	}
	if c -= 1024; c >= 256*n {
		n, c = c-256*n, -1
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*5 + 1)
	}
	if c >= 0 {
		b[c/256] = byte(c)
	}
	return b, true
}

// wideNet is an address with any value in one byte, IPv4 in both forms.
func (d *dev) wideNet(o *out) (n wire.NetAddress, ok bool) {
	c := d.wider((4 + 4 + 16) * 256)
	if c < 0 {
		return n, false
	}
	k, v := c/256, byte(c)
	switch {
	case k < 8:
		n.IP = net.IP{1, 2, 3, 4}
		n.IP[k%4] = v
		o.raw(append([]byte{0}, n.IP...))
		if k >= 4 {
			n.IP = n.IP.To16()
		}
	default:
		n.Type, n.IP = 1, append(net.IP{}, net.ParseIP("2001:db8::ff00:42:8329")...)
		n.IP[k-8] = v
		o.raw(append([]byte{1}, n.IP...))
	}
	return n, true
}

// wideList gives every list of up to 4 elements from 4 (named 0 to 3).
func (d *dev) wideList() ([]int, bool) {
	c := d.wider(1 + 4 + 16 + 64 + 256)
	if c < 0 {
		return nil, false
	}
	n := 0
	for size := 1; c >= size; size *= 4 {
		c -= size
		n++
	}
	l := make([]int, n)
	for i := range l {
		l[i] = c % 4
		c /= 4
	}
	return l, true
}

// wideElement is the dev with which element c of a list is built: c chooses one of four values.
func wideElement(c int) *dev {
	return &dev{at: []int{0, 1, 2, 4}[c], alt: 1}
}

// dense explores the long menu of every field of a value.
func dense(build func(d *dev, o *out) interface{}, x *explore.X) (interface{}, *out, string) {
	w := &wideSite{target: -1}
	build(&dev{wide: w}, &out{})
	if w.sites == 0 {
		var o out
		return build(&dev{}, &o), &o, "default"
	}
	w = &wideSite{target: x.Choose(w.sites)}
	build(&dev{wide: w}, &out{})
	w = &wideSite{target: w.target, choice: x.Choose(w.size)}
	var o out
	v := build(&dev{wide: w}, &o)
	return v, &o, fmt.Sprintf("field %d, value %d", w.target, w.choice)
}

// denseForms is dense for every form of a value: picks near the front decide about it.
func denseForms(x *explore.X, build func(d *dev, o *out) interface{}) (interface{}, *out, string) {
	form := func(at, alt int) (func(d *dev, o *out) interface{}, int) {
		b := func(d *dev, o *out) interface{} { d.at, d.alt = at, alt; return build(d, o) }
		w := &wideSite{target: -1}
		b(&dev{wide: w}, &out{})
		return b, w.sites
	}
	b, n := form(0, 0)
	seen := map[int]bool{n: true}
	forms := []func(d *dev, o *out) interface{}{b}
	for at := 1; at < 6; at++ {
		for alt := 1; alt < 3; alt++ {
			if b, n := form(at, alt); !seen[n] {
				seen[n] = true
				forms = append(forms, b)
			}
		}
	}
	return dense(forms[x.Choose(len(forms))], x)
}

func wideHash(c int) (h [32]byte) {
	if c > 0 {
		h = distinctHash(c)
	}
	return
}

func denseBounds(of string) string {
	return of + ", in every form; one field at a time takes every value (8 and 16 bits), every value below 2048, of every byte, and around every power of two (wider numbers), every value of every byte (hashes, keys, addresses), every text of one byte or of two of 32, every byte at every place of a longer one, and every length up to 600; every list of up to 4 of 4 elements"
}

func denseMessages(x *explore.X) {
	k := msgKinds[x.Choose(len(msgKinds))]
	m, o, _ := denseForms(x, func(d *dev, o *out) interface{} { return k.build(d, o) })
	checkMessage(x, &k, m.(wire.Message), *o)
}

func denseTypes(x *explore.X) {
	t := wireTypes[x.Choose(len(wireTypes))]
	v, o, _ := denseForms(x, t.build)
	checkType(x, &t, v, *o)
}
