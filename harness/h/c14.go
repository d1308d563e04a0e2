package h

import (
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// utf16Ref is the big-endian UTF-16 of a rune.
func utf16Ref(r rune) []byte {
	if r < 0x10000 {
		return []byte{byte(r >> 8), byte(r)}
	}
	v := r - 0x10000
	h, l := 0xd800+v>>10, 0xdc00+v&0x3ff
	return []byte{byte(h >> 8), byte(h), byte(l >> 8), byte(l)}
}

// csChoice is a set of character sets made available, and the option forms
// that do so.
type csChoice struct {
	locking, shift []int
	enc            []tpdu.UDEncodeOption
	dec            []tpdu.UDDecodeOption
}

func symNLI() int { return []int{1, 3, 2, 4, 13, 10}[vp.Choose(vp.Param("languages", 3, 6))] }

func symCharsets() csChoice {
	var c csChoice
	switch vp.Choose(9) {
	case 0:
	case 1:
		a, b := symNLI(), symNLI()
		o := tpdu.WithCharset(a, b)
		c.enc, c.dec = append(c.enc, o), append(c.dec, o)
		c.locking, c.shift = []int{a, b}, []int{a, b}
	case 2:
		a, b := symNLI(), symNLI()
		o, p := tpdu.WithLockingCharset(a), tpdu.WithShiftCharset(b)
		c.enc, c.dec = append(c.enc, o, p), append(c.dec, o, p)
		c.locking, c.shift = []int{a}, []int{b}
	case 3:
		a, b := symNLI(), symNLI()
		o, p := tpdu.WithShiftCharset(b), tpdu.WithCharset(a)
		c.enc, c.dec = append(c.enc, o, p), append(c.dec, o, p)
		c.locking, c.shift = []int{a}, []int{b, a}
	case 4:
		a := symNLI()
		o, p := tpdu.WithCharset(), tpdu.WithLockingCharset(a)
		c.enc, c.dec = append(c.enc, o, p), append(c.dec, o, p)
		c.locking = []int{a}
	case 5:
		c.enc, c.dec = append(c.enc, tpdu.WithAllCharsets), append(c.dec, tpdu.WithAllCharsets)
		for n := 1; n < 14; n++ {
			c.locking, c.shift = append(c.locking, n), append(c.shift, n)
		}
	case 6:
		a, b := symNLI(), symNLI()
		o, p := tpdu.WithLockingCharset(a, b), tpdu.WithShiftCharset(b, a)
		c.enc, c.dec = append(c.enc, o, p), append(c.dec, o, p)
		c.locking, c.shift = []int{a, b}, []int{b, a}
	case 7:
		// those given before all the others are still tried first
		o := tpdu.WithCharset(3)
		if vp.Choose(2) == 0 {
			c.enc, c.dec = append(c.enc, o), append(c.dec, o)
			c.locking, c.shift = []int{3}, []int{3}
		}
		c.enc, c.dec = append(c.enc, tpdu.WithAllCharsets), append(c.dec, tpdu.WithAllCharsets)
		for n := 1; n < 14; n++ {
			c.locking, c.shift = append(c.locking, n), append(c.shift, n)
		}
		if len(c.enc) == 1 {
			c.enc, c.dec = append(c.enc, o), append(c.dec, o)
			c.locking, c.shift = append(c.locking, 3), append(c.shift, 3)
		}
	case 8:
		// three of each, in different orders
		o, p := tpdu.WithShiftCharset(2, 13), tpdu.WithCharset(3)
		c.enc, c.dec = append(c.enc, tpdu.WithLockingCharset(13, 1), o, p), append(c.dec, p, o, tpdu.WithLockingCharset(13, 1))
		c.locking, c.shift = []int{13, 1, 3}, []int{2, 13, 3}
	}
	return c
}

func symText(n int) []rune {
	t := make([]rune, n)
	for i := range t {
		t[i] = vp.Rune()
		// outside the known finding about the Hindi table
		vp.Assume(vp.And(vp.Or(t[i] < 0x901, t[i] > 0x903), vp.Or(t[i] < 0x981, t[i] > 0x983)))
	}
	return t
}

func fits(t []rune, lock, shift int) bool {
	ok := true
	for _, r := range t {
		ok = vp.And(ok, vp.Or(inTable(&lockTables[lock], r), inTable(&shiftTables[shift], r)))
	}
	return ok
}

func contains(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// selectRef is the coding the documentation describes: the default alphabet,
// then the locking tables in order, the shift tables, both of the same
// language, and UCS-2.
func selectRef(t []rune, c csChoice) (lock, shift int, ucs bool) {
	if fits(t, 0, 0) {
		return 0, 0, false
	}
	for _, n := range c.locking {
		if fits(t, n, 0) {
			return n, 0, false
		}
	}
	for _, n := range c.shift {
		if fits(t, 0, n) {
			return 0, n, false
		}
	}
	for _, n := range c.locking {
		if contains(c.shift, n) && fits(t, n, n) {
			return n, n, false
		}
	}
	return 0, 0, true
}

// C14_RoundTrip: any text comes back whatever coding was chosen, and with all
// character sets available to the decoder.
func C14_RoundTrip() {
	c := symCharsets()
	t := symText(vp.Range(0, vp.Param("characters", 1, 2)))
	if vp.Choose(2) == 1 {
		t = append(append([]rune{'Z'}, t...), '€')
	}
	msg := string(t)
	b := []byte(msg)
	ud, udh, alpha := tpdu.EncodeUserData(b, c.enc...)
	sameBytes(b, []byte(msg), "the text is not modified")
	got, err := tpdu.DecodeUserData(ud, udh, alpha, c.dec...)
	vp.Assert(err == nil, "it decodes")
	vp.Assert(vp.EqStr(string(got), msg), "text round trip")
	got, err = tpdu.DecodeUserData(ud, udh, alpha, tpdu.WithAllCharsets)
	vp.Assert(err == nil, "it decodes with every character set")
	vp.Assert(vp.EqStr(string(got), msg), "text round trip with every character set")
}

// C14_Select: the coding is the first in the documented order that has every
// character, the header names it, and the user data is in it.
func C14_Select() {
	c := symCharsets()
	t := symText(1)
	if vp.Choose(2) == 1 {
		t = append(t, []rune{'ş', '∞', 'é', 'অ', '؎'}[vp.Choose(5)])
	}
	msg := string(t)
	ud, udh, alpha := tpdu.EncodeUserData([]byte(msg), c.enc...)
	lock, shift, ucs := selectRef(t, c)
	if ucs {
		vp.Cover("UCS-2")
		vp.Assert(alpha == tpdu.AlphaUCS2, "UCS-2 when no character set has every character")
		vp.Assert(len(udh) == 0, "no header with UCS-2")
		var want []byte
		for _, r := range t {
			if r < 0x10000 {
				want = append(want, byte(r>>8), byte(r))
			} else {
				want = append(want, utf16Ref(r)...)
			}
		}
		sameBytes(ud, want, "UTF-16, big endian")
		return
	}
	vp.Assert(alpha == tpdu.Alpha7Bit, "septets when a character set has every character")
	var want tpdu.UserDataHeader
	if lock != 0 {
		vp.Cover("locking")
		want = append(want, tpdu.InformationElement{ID: 25, Data: []byte{byte(lock)}})
	}
	if shift != 0 {
		vp.Cover("shift")
		want = append(want, tpdu.InformationElement{ID: 24, Data: []byte{byte(shift)}})
	}
	if lock != 0 && shift != 0 {
		vp.Cover("both")
	}
	sameUDH(udh, want, "the header names the character sets")
	kf := false
	vp.Assert(vp.EqStr(string(decodeText(ud, lock, shift, &kf)), msg), "the septets are the text in that coding")
}

// C14_Bytes: text that is not UTF-8 neither fails nor panics, and each broken
// octet reads as the replacement character.
func C14_Bytes() {
	src := vp.Bytes(vp.Range(0, vp.Param("octets", 3, 4)))
	want := ""
	for _, r := range string(src) {
		want += string(r)
	}
	ud, udh, alpha := tpdu.EncodeUserData(src)
	vp.Assert(len(udh) == 0, "no header without character sets")
	got, err := tpdu.DecodeUserData(ud, udh, alpha)
	vp.Assert(err == nil, "it decodes")
	vp.Assert(vp.EqStr(string(got), want), "text round trip")
}

// C14_Repeated: however many character sets are given, and however often, all
// are tried, in order.
func C14_Repeated() {
	m := []int{1, 7, 13, 14, 20}[vp.Choose(5)]
	n := []int{3, 4, 13}[vp.Choose(vp.Param("languages", 3, 3))]
	c := csChoice{locking: make([]int, m), shift: make([]int, m)}
	for i := range c.locking {
		c.locking[i], c.shift[i] = 1+i%2, 1
	}
	c.locking, c.shift = append(c.locking, n), append(c.shift, n)
	switch vp.Choose(3) {
	case 0:
		c.enc = append(c.enc, tpdu.WithLockingCharset(c.locking...), tpdu.WithShiftCharset(c.shift...))
	case 1:
		for i := range c.locking {
			c.enc = append(c.enc, tpdu.WithLockingCharset(c.locking[i]), tpdu.WithShiftCharset(c.shift[i]))
		}
	case 2:
		c.enc = append(c.enc, tpdu.WithShiftCharset(c.shift...))
		c.locking = nil
	}
	b := vp.Byte()
	vp.Assume(b >= 'a' && b <= 'z')
	t := []rune{rune(b), []rune{'É', 'ã', 'অ', '؎', 'ş'}[vp.Choose(5)]}
	if vp.Choose(2) == 1 {
		t = append(t, []rune{'€', '०', '০', 'Á'}[vp.Choose(4)])
	}
	ud, udh, alpha := tpdu.EncodeUserData([]byte(string(t)), c.enc...)
	lock, shift, ucs := selectRef(t, c)
	if ucs {
		vp.Assert(alpha == tpdu.AlphaUCS2 && len(udh) == 0, "UCS-2 when no character set has every character")
		sameBytes(ud, utf16Text2(t), "UTF-16, big endian")
		return
	}
	vp.Assert(alpha == tpdu.Alpha7Bit, "septets when a character set has every character")
	var want tpdu.UserDataHeader
	if lock != 0 {
		want = append(want, tpdu.InformationElement{ID: 25, Data: []byte{byte(lock)}})
	}
	if shift != 0 {
		want = append(want, tpdu.InformationElement{ID: 24, Data: []byte{byte(shift)}})
	}
	sameUDH(udh, want, "the header names the character sets")
	kf := false
	vp.Assert(vp.EqStr(string(decodeText(ud, lock, shift, &kf)), string(t)), "the septets are the text in that coding")
}
