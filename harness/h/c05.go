package h

import (
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// C05_Numeric: every number survives the address field, whose octets are the
// standard's, and decoding reads exactly the field.
func C05_Numeric() {
	n := vp.Range(0, vp.Param("digits", 20, 60))
	a := numAddr(n)
	b, err := a.MarshalBinary()
	vp.Assert(err == nil, "a number marshals without error")
	sameBytes(b, addrRef(a), "address field octets")
	tail := vp.Bytes(vp.Range(0, 2))
	src := append(clone(b), tail...)
	var r tpdu.Address
	used, err := r.UnmarshalBinary(src)
	vp.Assert(err == nil, "the field decodes")
	vp.Assert(used == len(b), "decoding reads exactly the field")
	vp.Assert(r.TOA == a.TOA, "type of address survives")
	vp.Assert(vp.EqStr(r.Addr, a.Addr), "digits survive")
	vp.ObsBytes("field", b)
}

// defaultSeptet is an arbitrary septet of the default alphabet other than the
// escape.
func defaultSeptet() byte {
	s := vp.Byte() & 0x7f
	vp.Assume(s != 0x1b)
	return s
}

// C05_Alpha: an alphanumeric address field holding any characters of the
// default alphabet decodes to their text, which encodes to the same octets.
func C05_Alpha() {
	n := vp.Range(0, vp.Param("characters", 11, 20))
	free := vp.Param("non-ascii positions", 2, 4)
	sep := make([]byte, n)
	for i := range sep {
		if i < free/2 || i >= n-(free-free/2) {
			sep[i] = defaultSeptet()
		} else {
			sep[i] = vp.Byte()
			vp.Assume(sep[i] >= 'a' && sep[i] <= 'z')
		}
	}
	toa := byte(0xd0) | vp.Byte()&0x0f
	src := append([]byte{byte((n*7 + 3) / 4), toa}, packRef(sep, 0)...)
	var r tpdu.Address
	used, err := r.UnmarshalBinary(append(clone(src), vp.Bytes(vp.Range(0, 1))...))
	vp.Assert(err == nil, "the field decodes")
	vp.Assert(used == len(src), "decoding reads exactly the field")
	vp.Assert(r.TOA == toa, "type of address survives")
	want := ""
	for _, s := range sep {
		want += string(baseRune(s))
	}
	vp.Assert(vp.EqStr(r.Addr, want), "the text is that of the characters")
	b, err := r.MarshalBinary()
	vp.Assert(err == nil, "the text marshals")
	sameBytes(b, src, "alphanumeric address round trip")
	vp.ObsBytes("field", b)
}

// C05_AlphaSpare: an alphanumeric address has the characters that fit in the
// semi-octets it is said to have, whatever the bits that are left over.
func C05_AlphaSpare() {
	l := vp.Range(0, vp.Param("semi-octets", 26, 60))
	n := l * 4 / 7
	sep := make([]byte, n)
	at := vp.Choose(2) * (n - 1)
	want := ""
	for i := range sep {
		sep[i] = byte('a' + i%26)
		if i == at {
			sep[i] = defaultSeptet()
		}
		want += string(baseRune(sep[i]))
	}
	o := make([]byte, (l+1)/2)
	copy(o, packRef(sep, 0))
	for i := n * 7; i < len(o)*8; i += 8 - i%8 {
		o[i/8] |= vp.Byte() << uint(i%8)
		vp.Cover("spare bits")
	}
	src := append([]byte{byte(l), 0xd0}, o...)
	var a tpdu.Address
	used, err := a.UnmarshalBinary(src)
	vp.Assert(err == nil, "the field decodes")
	vp.Assert(used == len(src), "decoding reads exactly the field")
	vp.Assert(vp.EqStr(a.Addr, want), "the text is that of the characters, and no more")
}

// C05_AlphaReject: text with a character outside the default alphabet is
// refused rather than altered.
func C05_AlphaReject() {
	r := vp.Rune()
	a := tpdu.Address{TOA: 0xd0, Addr: "ab" + string(r)}
	b, err := a.MarshalBinary()
	in := false
	for s := byte(0); s < 0x80; s++ {
		if s != 0x1b {
			in = vp.Or(in, baseRune(s) == r)
		}
	}
	if err != nil {
		vp.Cover("refused")
		vp.Assert(vp.Not(in), "characters of the default alphabet are not refused")
		vp.Assert(b == nil, "nothing is produced with an error")
		return
	}
	vp.Cover("accepted")
	vp.Assert(in, "a character outside the alphabet is refused")
}

// C05_NumberReject: anything but digits is refused.
func C05_NumberReject() {
	n := vp.Range(1, vp.Param("characters", 6, 12))
	d := vp.Bytes(n)
	ok := true
	for _, c := range d {
		ok = vp.And(ok, vp.Or(vp.And(c >= '0', c <= '9'), vp.Or(vp.Or(c == '*', c == '#'), vp.And(c >= 'a', c <= 'c'))))
	}
	a := tpdu.Address{TOA: 0x91, Addr: string(d)}
	_, err := a.MarshalBinary()
	vp.Assert((err == nil) == ok, "exactly the strings of digits marshal")
}

// C05_Arbitrary: any octets either fail to decode or decode to an address that
// marshals back to the octets read.
func C05_Arbitrary() {
	n := vp.Range(0, vp.Param("octets", 7, 9))
	src := vp.Bytes(n)
	keep := clone(src)
	var a tpdu.Address
	used, err := a.UnmarshalBinary(src)
	sameBytes(src, keep, "the octets passed in are not modified")
	if err != nil {
		vp.Cover("refused")
		return
	}
	vp.Cover("decoded")
	vp.Assert(used >= 2 && used <= n, "what was read is within the octets")
	l := int(src[0])
	vp.Assert(used == 2+(l+1)/2, "the length octet tells what is read")
	vp.Assert(a.TOA == src[1], "type of address")
	if a.TypeOfNumber() != tpdu.TonAlphanumeric {
		vp.Assert(len(a.Addr) == l, "as many digits as the length octet says")
		b, err := a.MarshalBinary()
		vp.Assert(err == nil, "what was decoded marshals")
		vp.Assert(len(b) == used, "same length")
		// fill octets anywhere but after the last digit are tolerated, and skipped
		canon := true
		for i := 2; i < used; i++ {
			canon = vp.And(canon, src[i]&0x0f != 0x0f)
			if i < used-1 || l%2 == 0 {
				canon = vp.And(canon, src[i]>>4 != 0x0f)
			}
		}
		for i := range b {
			vp.Assert(vp.Implies(canon, b[i] == src[i]), "what was decoded marshals to the same octets")
		}
	}
}

// C05_Number: SetNumber and Number are inverse, and touch nothing else.
func C05_Number() {
	n := vp.Range(0, vp.Param("digits", 12, 20))
	d := make([]byte, n)
	for i := range d {
		d[i], _ = symDigit()
	}
	plus := vp.Choose(2) == 1
	s := string(d)
	in := s
	if plus {
		in = "+" + s
	}
	a := tpdu.Address{TOA: vp.Byte(), Addr: "old"}
	toa := a.TOA
	a.SetNumber(in)
	vp.Assert(vp.EqStr(a.Number(), "+"+s), "an international number reads with its plus")
	vp.Assert(vp.EqStr(a.Addr, s), "the address is the digits alone")
	vp.Assert(a.TypeOfNumber() == tpdu.TonInternational && a.NumberingPlan() == tpdu.NpISDN, "international ISDN number")
	vp.Assert(a.TOA&0x80 == toa&0x80, "the extension bit is kept")
	b := tpdu.NewAddress(tpdu.FromNumber(in))
	vp.Assert(b.TOA == 0x91, "a new address has the extension bit set")
	vp.Assert(vp.EqStr(b.Addr, s), "a new address holds the number")
	ton, np := vp.Byte(), vp.Byte()
	c := tpdu.Address{TOA: toa, Addr: s}
	c.SetTypeOfNumber(tpdu.TypeOfNumber(ton))
	vp.Assert(c.TOA == toa&0x8f|ton&7<<4, "setting the type of number changes only its bits")
	c.SetNumberingPlan(tpdu.NumberingPlan(np))
	vp.Assert(c.TOA == toa&0x80|ton&7<<4|np&0x0f, "setting the plan changes only its bits")
	vp.Assert(vp.EqStr(c.Number(), s) || c.TypeOfNumber() == tpdu.TonInternational, "a national number reads as it is")
}

// C05_Names: the type-of-address octet reads as the types and plans that 3GPP TS
// 23.040 Section 9.1.2.5 gives its bits.
func C05_Names() {
	a := tpdu.Address{TOA: vp.Byte()}
	for i, ton := range []tpdu.TypeOfNumber{tpdu.TonUnknown, tpdu.TonInternational, tpdu.TonNational, tpdu.TonNetworkSpecific,
		tpdu.TonSubscriberNumber, tpdu.TonAlphanumeric, tpdu.TonAbbreviated, tpdu.TonExtension} {
		vp.Assert((a.TypeOfNumber() == ton) == (a.TOA>>4&7 == byte(i)), "type of number")
	}
	for _, p := range []struct {
		np   tpdu.NumberingPlan
		bits byte
	}{{tpdu.NpUnknown, 0}, {tpdu.NpISDN, 1}, {tpdu.NpData, 3}, {tpdu.NpTelex, 4}, {tpdu.NpScSpecificA, 5}, {tpdu.NpScSpecificB, 6},
		{tpdu.NpNational, 8}, {tpdu.NpPrivate, 9}, {tpdu.NpErmes, 10}, {tpdu.NpExtension, 15}} {
		vp.Assert((a.NumberingPlan() == p.np) == (a.TOA&15 == p.bits), "numbering plan")
		b := a
		b.SetNumberingPlan(p.np)
		vp.Assert(b.TOA == a.TOA&0xf0|p.bits, "setting the numbering plan")
	}
}

// C05_NumberText: what is no number is not made one: only one plus is taken off.
func C05_NumberText() {
	in := vp.Str(vp.Range(0, vp.Param("characters", 4, 8)))
	want := in
	if len(in) > 0 && in[0] == '+' {
		vp.Cover("plus")
		want = in[1:]
	}
	a := tpdu.Address{TOA: 0x80, Addr: "old"}
	a.SetNumber(in)
	vp.Assert(vp.EqStr(a.Addr, want), "the address is what follows the plus")
	vp.Assert(vp.EqStr(a.Number(), "+"+want), "and reads with one plus")
	b := tpdu.NewAddress(tpdu.FromNumber(in))
	vp.Assert(vp.EqStr(b.Addr, want), "a new address holds what follows the plus")
}

// C05_Long: an address is encoded with its full length, or refused when the
// field has no room to say it.
func C05_Long() {
	c, v := symDigit()
	if vp.Choose(2) == 0 {
		n := vp.Range(21, 258)
		d := filled(n, '1')
		at := vp.Choose(2) * (n - 1)
		d[at] = c
		a := tpdu.Address{TOA: 0x91, Addr: string(d)}
		b, err := a.MarshalBinary()
		if n > 255 {
			vp.Cover("too long")
			vp.Assert(err != nil && b == nil, "more digits than the field can count are refused")
			return
		}
		vp.Assert(err == nil && len(b) == 2+(n+1)/2, "all digits are encoded")
		vp.Assert(int(b[0]) == n, "number of digits")
		o := b[2+at/2]
		vp.Assert(vp.IteByte(at%2 == 0, o&15, o>>4) == v, "a digit is in its place")
		var r tpdu.Address
		used, err := r.UnmarshalBinary(b)
		vp.Assert(err == nil && used == len(b), "it decodes")
		vp.Assert(vp.EqStr(r.Addr, string(d)), "to the same address")
		return
	}
	n := vp.Range(12, 148)
	d := filled(n, 'x')
	at := vp.Choose(2) * (n - 1)
	d[at] = byte(vp.Int('a', 'z'))
	a := tpdu.Address{TOA: 0xd0, Addr: string(d)}
	b, err := a.MarshalBinary()
	if n > 145 {
		vp.Assert(err != nil && b == nil, "more characters than the field can count are refused")
		return
	}
	vp.Assert(err == nil && len(b) == 2+(n*7+7)/8, "all characters are encoded")
	var r tpdu.Address
	used, err := r.UnmarshalBinary(b)
	vp.Assert(err == nil && used == len(b), "it decodes")
	vp.Assert(vp.EqStr(r.Addr, string(d)), "to the same address")
}

// C05_Options: a new address is what its options make it, with the extension
// bit set, and reads with a plus exactly when its number is international.
func C05_Options() {
	want := tpdu.Address{}
	var opts []tpdu.AddressOption
	n := vp.Range(0, vp.Param("options", 3, 5))
	for i := 0; i < n; i++ {
		if vp.Choose(2) == 0 {
			d, _ := symDigit()
			opts = append(opts, tpdu.FromNumber(string([]byte{d, '1'})))
			want.Addr = string([]byte{d, '1'})
			want.TOA = want.TOA&0x80 | 0x11
			continue
		}
		toa := vp.Byte()
		addr := string(filled(vp.Choose(2), '2'))
		opts = append(opts, func(a tpdu.Address) tpdu.Address {
			sameAddr(a, want, "an option is given what those before it made")
			a.TOA, a.Addr = toa, addr
			return a
		})
		// the options are applied one after another
		a := tpdu.NewAddress(opts...)
		want.TOA, want.Addr = toa, addr
		vp.Assert(a.TOA == toa|0x80, "with the extension bit set")
		vp.Assert(vp.EqStr(a.Addr, addr), "the address is the option's")
		opts, want = []tpdu.AddressOption{func(tpdu.Address) tpdu.Address { return tpdu.Address{TOA: toa, Addr: addr} }}, tpdu.Address{TOA: toa, Addr: addr}
	}
	a := tpdu.NewAddress(opts...)
	vp.Assert(a.TOA == want.TOA|0x80, "the type is the options', with the extension bit set")
	vp.Assert(vp.EqStr(a.Addr, want.Addr), "the address is the options'")
	num := want.Addr
	if a.TOA>>4&7 == 1 {
		vp.Cover("international")
		num = "+" + num
	}
	vp.Assert(vp.EqStr(a.Number(), num), "a plus exactly when it is international")
}
