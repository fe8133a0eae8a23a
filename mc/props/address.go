package props

import (
	"fmt"
	"math/big"
	"strings"

	"terorie.dev/nimiq/address"

	"verif/mc/explore"
)

const alphabet32 = "0123456789ABCDEFGHJKLMNPQRSTUVXY"

// base32 is the reference encoding: five bits at a time, most significant first.
func base32(a [20]byte) string {
	n := new(big.Int).SetBytes(a[:])
	out := make([]byte, 32)
	five := big.NewInt(31)
	for i := 31; i >= 0; i-- {
		out[i] = alphabet32[new(big.Int).And(n, five).Int64()]
		n.Rsh(n, 5)
	}
	return string(out)
}

func unbase32(s string) (a [20]byte, ok bool) {
	if len(s) != 32 {
		return a, false
	}
	n := new(big.Int)
	for i := 0; i < 32; i++ {
		v := strings.IndexByte(alphabet32, s[i])
		if v < 0 {
			return a, false
		}
		n.Lsh(n, 5).Or(n, big.NewInt(int64(v)))
	}
	n.FillBytes(a[:])
	return a, true
}

// mod97 is the IBAN remainder of the compact form: digits count as they are, letters as two digits from 10 on.
func mod97(s string) (int, bool) {
	m := 0
	for _, c := range []byte(s[4:] + s[:4]) {
		switch {
		case c >= '0' && c <= '9':
			m = (m*10 + int(c-'0')) % 97
		case c >= 'A' && c <= 'Z':
			m = (m*100 + int(c-'A') + 10) % 97
		default:
			return 0, false
		}
	}
	return m, true
}

func checkDigits(data string) string {
	m, _ := mod97("NQ00" + data)
	return fmt.Sprintf("%02d", 98-m)
}

func compactForm(a [20]byte) string { d := base32(a); return "NQ" + checkDigits(d) + d }

func spaced(c string) string {
	var g []string
	for i := 0; i < len(c); i += 4 {
		g = append(g, c[i:i+4])
	}
	return strings.Join(g, " ")
}

// valid is the reference decision. Letters as check digits are left open.
func valid(s string) (a [20]byte, ok, open bool) {
	c := strings.ReplaceAll(s, " ", "")
	if len(c) != 36 || c[:2] != "NQ" {
		return a, false, false
	}
	a, dataOK := unbase32(c[4:])
	if !dataOK {
		return a, false, false
	}
	for _, d := range []byte(c[2:4]) {
		if d >= 'A' && d <= 'Z' || d >= 'a' && d <= 'z' {
			open = true
		}
	}
	m, good := mod97(strings.ToUpper(c))
	return a, good && m == 1, open
}

func decodeAddr(x *explore.X, s string) bool {
	want, ok, open := valid(s)
	got, err := address.Decode(s)
	x.Step()
	if open && !ok {
		open = false // a wrong remainder is never accepted
	}
	if open {
		x.Check(err != nil || got == want, "%q decodes to %x instead of %x", s, got, want)
		return err == nil
	}
	x.Check(!ok || err == nil, "the valid address %q is rejected: %v", s, err)
	x.Check(ok || err != nil, "the invalid address %q is accepted as %x", s, got)
	x.Check(!ok || got == want, "%q decodes to %x instead of %x", s, got, want)
	return ok
}

func encodeAddr(x *explore.X, a [20]byte) string {
	arg := a
	s := address.Encode(&arg)
	x.Step()
	want := spaced(compactForm(a))
	x.Check(arg == a, "encoding %x changes it to %x", a, arg)
	x.Check(s == want, "%x encodes as %q instead of %q", a, s, want)
	return s
}

var backgrounds = func() (l [][20]byte) {
	var a [20]byte
	l = append(l, a)
	for i := range a {
		a[i] = 0xff
	}
	l = append(l, a)
	for i := range a {
		a[i] = byte(i*37 + 11)
	}
	l = append(l, a)
	for i := range a {
		a[i] = 0x55
	}
	l = append(l, a)
	for i := range a {
		a[i] = byte(0xc3 ^ i*i*5)
	}
	return append(l, a)
}()

func roundTripAddr(x *explore.X, a [20]byte) {
	s := encodeAddr(x, a)
	got, err := address.Decode(s)
	x.Check(err == nil && got == a, "%x encodes as %q, which decodes to %x, %v", a, s, got, err)
	got, err = address.Decode(strings.ReplaceAll(s, " ", ""))
	x.Check(err == nil && got == a, "%q without spaces decodes to %x, %v", s, got, err)
	x.Steps(2)
}

func bytePatterns(x *explore.X) {
	a := backgrounds[x.Choose(len(backgrounds))]
	p := x.Choose(19)
	a[p] = byte(x.Choose(256))
	for v := 0; v < 256; v++ {
		a[p+1] = byte(v)
		roundTripAddr(x, a)
	}
	x.Note("bytes %d and %d of %x: last %s", p, p+1, a, address.Encode(&a))
	x.OutcomeS(fmt.Sprint(p, a))
}

func farPatterns(x *explore.X) {
	a := backgrounds[x.Choose(len(backgrounds))]
	i := x.Choose(19)
	j := i + 1 + x.Choose(19-i)
	vals := []byte{0, 1, 0x0f, 0x10, 0x1f, 0x20, 0x7f, 0x80, 0xaa, 0xf8, 0xff}
	for _, v := range vals {
		for _, w := range vals {
			a[i], a[j] = v, w
			roundTripAddr(x, a)
		}
	}
	x.OutcomeS(fmt.Sprint(i, j, a))
}

// spaces puts up to three (thorough four) spaces anywhere into the compact and the grouped form.
func spaces(x *explore.X) {
	a := backgrounds[x.Choose(len(backgrounds))]
	s := compactForm(a)
	if x.Bool() {
		s = spaced(s)
	}
	n := 3
	if x.Thorough {
		n = 4
	}
	var put func(s string, from, n int)
	put = func(s string, from, n int) {
		got, err := address.Decode(s)
		x.Step()
		x.Check(err == nil && got == a, "%q decodes to %x, %v instead of %x", s, got, err, a)
		if n == 0 {
			return
		}
		for i := from; i <= len(s); i++ {
			put(s[:i]+" "+s[i:], i+1, n-1)
		}
	}
	put(s, 0, n)
	c := compactForm(a)
	for m := 0; m < 256; m++ { // any of the eight group separators
		t := c[:4]
		for g := 0; g < 8; g++ {
			if m>>g&1 == 1 {
				t += " "
			}
			t += c[4+4*g : 8+4*g]
		}
		got, err := address.Decode(t)
		x.Step()
		x.Check(err == nil && got == a, "%q decodes to %x, %v instead of %x", t, got, err, a)
	}
	for _, k := range []int{1, 2, 100, 5000} {
		for _, t := range []string{strings.Repeat(" ", k) + c, c + strings.Repeat(" ", k), strings.Join(strings.Split(c, ""), strings.Repeat(" ", k))} {
			got, err := address.Decode(t)
			x.Check(err == nil && got == a, "%x with runs of %d spaces decodes to %x, %v", a, k, got, err)
		}
	}
	x.OutcomeS(s)
}

// samples are addresses whose check digits and characters vary.
func sampleAddr(i int) (a [20]byte) {
	if i < len(backgrounds) {
		return backgrounds[i]
	}
	for j := range a {
		a[j] = byte((i*i*7919 + j*(i+3)*101) >> uint(j%5))
	}
	return
}

func samplesN(x *explore.X) int {
	if x.Thorough {
		return 500
	}
	return 100
}

func typos(x *explore.X) {
	a := sampleAddr(x.Choose(samplesN(x)))
	c := compactForm(a)
	group := x.Choose(2) == 1
	form := c
	if group {
		form = spaced(c)
	}
	kind := func(b byte) int {
		switch {
		case b >= '0' && b <= '9':
			return 1
		case b >= 'A' && b <= 'Z':
			return 2
		}
		return 0
	}
	for i := 0; i < len(form); i++ {
		for v := 0; v < 256; v++ {
			t := form[:i] + string([]byte{byte(v)}) + form[i+1:]
			ok := decodeAddr(x, t)
			if k := kind(form[i]); k != 0 && byte(v) != form[i] && k == kind(byte(v)) {
				x.Check(!ok, "%q is accepted, a mistyped %q", t, form)
			}
			decodeAddr(x, form[:i]+string([]byte{byte(v)})+form[i:])
		}
		decodeAddr(x, form[:i]+form[i+1:])
		if i+1 < len(form) {
			decodeAddr(x, form[:i]+string([]byte{form[i+1], form[i]})+form[i+2:])
			decodeAddr(x, form[:i]+form[i+2:])
		}
		decodeAddr(x, form[:i])
		decodeAddr(x, form[i:])
		decodeAddr(x, form+form[i:])
		decodeAddr(x, form[:i]+form)
	}
	for v := 0; v < 256; v++ {
		decodeAddr(x, form+string([]byte{byte(v)}))
	}
	for m := 0; m < 100; m++ {
		decodeAddr(x, fmt.Sprintf("NQ%02d%s", m, c[4:]))
	}
	decodeAddr(x, strings.ToLower(form))
	decodeAddr(x, "nq"+form[2:])
	decodeAddr(x, form[:4]+strings.ToLower(form[4:]))
	x.Note("mistyped %s", form)
	x.OutcomeS(form)
}

func twoTypos(x *explore.X) {
	a := sampleAddr(x.Choose(samplesN(x)/10 + 1))
	c := []byte(compactForm(a))
	i := x.Choose(35)
	j := i + 1 + x.Choose(35-i)
	for _, v := range alphabet32 + "IOWZ" {
		for _, w := range alphabet32 + "I" {
			t := append([]byte{}, c...)
			t[i], t[j] = byte(v), byte(w)
			decodeAddr(x, string(t))
		}
	}
	x.OutcomeS(fmt.Sprint(a, i, j))
}

func countries(x *explore.X) {
	a := sampleAddr(x.Choose(5))
	p := byte(x.Choose(256))
	data := base32(a)
	for q := 0; q < 256; q++ {
		cc := string([]byte{p, byte(q)})
		decodeAddr(x, cc+checkDigits(data)+data)
		if m, ok := mod97(cc + "00" + data); ok { // with check digits that are right for this country
			t := fmt.Sprintf("%s%02d%s", cc, 98-m, data)
			got, err := address.Decode(t)
			x.Step()
			x.Check((err == nil) == (cc == "NQ") && (err != nil || got == a), "%q with the country code %q: %x, %v", t, cc, got, err)
		}
	}
	x.Note("country codes starting with %q", p)
	x.OutcomeS(fmt.Sprint(p, a))
}

func shortAddrs(x *explore.X) {
	al := []byte{'N', 'Q', '0', 'A', ' ', 0xff, 'a'}
	max := 6
	if x.Thorough {
		max = 8
	}
	var b []byte
	n := x.Choose(max + 1)
	for i := 0; i < n; i++ {
		b = append(b, al[x.Choose(len(al))])
	}
	decodeAddr(x, string(b))
	for _, l := range []int{30, 34, 35, 36, 37, 40} { // padded to lengths around the right one
		if len(b) < l {
			decodeAddr(x, string(b)+strings.Repeat("0", l-len(b)))
			decodeAddr(x, "NQ"+strings.Repeat("1", l-len(b))+string(b))
		}
	}
	x.OutcomeS(string(b))
}

func init() {
	register(&explore.Check{ID: "D01", Rule: "enumerated addresses are encoded, compared with an independent Base32 and mod-97 encoding, and decoded again, also with spaces moved around",
		Programs: []explore.Program{
			{Name: "pairs", Bounds: "5 backgrounds, every value of every two adjacent bytes", Body: bytePatterns},
			{Name: "apart", Bounds: "5 backgrounds, 11 x 11 values of every two bytes", Body: farPatterns},
			{Name: "spaces", Bounds: "5 addresses: up to 3 (thorough 4) spaces inserted anywhere into the compact and the grouped form, every subset of the group separators, runs of up to 5000", Body: spaces},
		}})
	register(&explore.Check{ID: "D02", Rule: "enumerated strings near valid addresses are decoded and compared with an independent decision",
		Programs: []explore.Program{
			{Name: "typos", Bounds: "100 (thorough 500) addresses, compact and grouped: every byte replaced and inserted everywhere, deletions, swaps, cuts, all check digits, lower case", Body: typos},
			{Name: "two", Bounds: "11 (thorough 51) addresses: every two characters replaced by any of 36 x 33", Body: twoTypos},
			{Name: "countries", Bounds: "5 addresses: all 65536 country codes with the original and with matching check digits", Body: countries},
			{Name: "short", Bounds: "all strings of up to 6 (thorough 8) characters over 7, alone and filled up to lengths from 30 to 40", Body: shortAddrs},
		}})
}
