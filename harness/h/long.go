package h

import (
	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"vph/vp"
)

// The harnesses here go on to the sizes that users see, with most of the
// content given and arbitrary content at chosen places.

// C03_Long: numbers of many digits.
func C03_Long() {
	n := vp.Range(17, vp.Param("digits", 90, 300))
	d := filled(n, '7')
	at := []int{0, n / 2, n - 2, n - 1}[vp.Choose(4)]
	var v byte
	d[at], v = symDigit()
	b, err := semioctet.Encode(d)
	vp.Assert(err == nil && len(b) == (n+1)/2, "two digits to an octet")
	for i, o := range b {
		lo, hi := byte(7), byte(7)
		if 2*i+1 == n {
			hi = 15
		}
		if 2*i == at {
			lo = v
		}
		if 2*i+1 == at {
			hi = v
		}
		vp.Assert(o == lo|hi<<4, "low half first, filled at the end")
	}
	got, used, err := semioctet.Decode(make([]byte, n+n%2), b)
	vp.Assert(err == nil && used == len(b), "it decodes")
	sameBytes(got, d, "to the same digits")
}

// C12_Many: messages of many segments.
func C12_Many() {
	alpha := vp.Choose(3)
	segs := []int{9, 17, 128, 254}[vp.Choose(4)]
	c := segTemplate(alpha, []int{0, 8}[vp.Choose(2)])
	if c.t.UDH == nil && segs > vp.Param("segments that are full TPDUs", 17, 254) {
		return
	}
	c.msg = make([]byte, segs*c.multi-2*vp.Choose(2))
	for i := range c.msg {
		c.msg[i] = 'x'
		if alpha == 2 {
			c.msg[i] = byte(i%2) * 'x'
		}
	}
	// a place where the character after or before must be looked at
	k := []int{1, segs / 2, segs - 1}[vp.Choose(3)]
	at := k*c.multi - 2
	c.msg[at], c.msg[at+1] = vp.Byte(), vp.Byte()
	if alpha == 0 {
		c.msg[at] &= 0x7f
		c.msg[at+1] &= 0x7f
	}
	if alpha == 2 && at+3 < len(c.msg) {
		c.msg[at+2] = vp.Byte()
	}
	c.run()
}

// C13_Long: texts of many septets.
func C13_Long() {
	n := []int{40, 160, 9, 153, 255, 300}[vp.Choose(vp.Param("lengths", 2, 6))]
	lock, shift := 0, 0
	if vp.Choose(2) == 1 {
		lock, shift = 13, 3
	}
	src := filled(n, 'x')
	at := []int{0, n - 2, n / 2}[vp.Choose(vp.Param("places", 2, 3))]
	src[at], src[at+1] = vp.Byte(), vp.Byte()
	keep := clone(src)
	opts, eopts := gsmOptions(lock, shift)
	got, err := gsm7.Decode(src, opts...)
	sameBytes(src, keep, "the septets are not modified")
	vp.Assert(err == nil, "decoding does not fail")
	kf := false
	hole = false
	want := string(decodeText(keep, lock, shift, &kf))
	vp.AssertK("KF2", kf, vp.EqStr(string(got), want), "the text is the tables'")
	if hole {
		return
	}
	b, err := gsm7.Encode(got, eopts...)
	vp.Assert(err == nil, "the text encodes")
	again, err := gsm7.Decode(b, opts...)
	vp.Assert(err == nil && vp.EqBytes(again, got), "to septets that decode to it")
}

// C14_Long: texts longer than a TPDU.
func C14_Long() {
	n := []int{70, 160, 161, 400}[vp.Choose(4)]
	t := fill(n)
	at := []int{0, n / 2, n - 1}[vp.Choose(3)]
	t = append(t[:at:at], append(symText(1), t[at:]...)...)
	msg := string(t)
	var opts []tpdu.UDEncodeOption
	var dopts []tpdu.UDDecodeOption
	switch vp.Choose(3) {
	case 1:
		opts = append(opts, tpdu.WithCharset(13, 3))
		dopts = append(dopts, tpdu.WithCharset(13, 3))
	case 2:
		opts = append(opts, tpdu.WithShiftCharset(2))
		dopts = append(dopts, tpdu.WithAllCharsets)
	}
	ud, udh, alpha := tpdu.EncodeUserData([]byte(msg), opts...)
	got, err := tpdu.DecodeUserData(ud, udh, alpha, dopts...)
	vp.Assert(err == nil, "it decodes")
	vp.Assert(vp.EqStr(string(got), msg), "to the same text")
	vp.Assert(alpha == tpdu.Alpha7Bit || alpha == tpdu.AlphaUCS2 && udh == nil && len(ud) == len(utf16Text2(t)), "as septets or UCS-2")
}

func utf16Text2(t []rune) (b []byte) {
	for _, r := range t {
		b = append(b, utf16Ref(r)...)
	}
	return
}

// C15_Long: texts of many characters.
func C15_Long() {
	n := []int{17, 67, 70, 134, 300}[vp.Choose(5)]
	src := make([]byte, 2*n)
	for i := range src {
		src[i] = byte(i%2)*'x' + byte(1-i%2)*4
	}
	at := []int{0, n/2 - 1, n - 3, n - 2}[vp.Choose(4)] * 2
	for i := range 4 {
		src[at+i] = vp.Byte()
	}
	keep := clone(src)
	got, err := ucs2.Decode(src)
	sameBytes(src, keep, "the octets are not modified")
	want, dangling := utf16Text(keep)
	if dangling {
		d, ok := err.(ucs2.ErrDanglingSurrogate)
		vp.Assert(ok, "a surrogate at the end is reported")
		sameBytes(d, keep[2*n-2:], "the report holds the surrogate")
		checkRunes(got, want)
		return
	}
	vp.Assert(err == nil, "whole characters decode")
	checkRunes(got, want)
	bad := false
	for _, r := range want {
		bad = vp.Or(bad, r == 0xfffd)
	}
	if !bad {
		sameBytes(ucs2.Encode(got), keep, "and encode to the same octets")
	}
}

// C16_Many: messages of many segments.
func C16_Many() {
	n := []int{5, 12, 40, 255}[vp.Choose(4)]
	k := []int{1, n / 2, n - 1}[vp.Choose(3)]
	var segs []*tpdu.TPDU
	var keep [][]byte
	var want []rune
	kind := vp.Choose(3)
	var all []byte
	langs := []int{0, 13, 3, 1, 13}
	kf := false
	for i := 0; i < n; i++ {
		t := &tpdu.TPDU{}
		ie := tpdu.InformationElement{ID: 0, Data: []byte{9, byte(n), byte(i + 1)}}
		var b []byte
		switch kind {
		case 0: // UCS-2, a pair or not about the end of one
			t.DCS = 8
			b = []byte{0x04, byte(i), 0x05, byte(i)}
			if i == k-1 {
				b[2], b[3] = vp.Byte(), vp.Byte()
			}
			if i == k {
				b[0], b[1] = vp.Byte(), vp.Byte()
			}
			all = append(all, b...)
		case 1: // languages that change
			l := langs[i%5]
			t.UDH = append(t.UDH, tpdu.InformationElement{ID: 25, Data: []byte{byte(l)}})
			b = []byte{byte(5 + i%64), 0x1b, byte(4 + i%9)}
			if i == k {
				b[0] = vp.Byte() & 0x7f
				vp.Assume(b[0] != 0x1b)
			}
			want = append(want, decodeText(clone(b), l, 0, &kf)...)
		case 2: // octets and septets
			if i%3 == 1 {
				t.DCS = 4
			}
			b = []byte{byte('a' + i%26)}
			if i == k {
				b = []byte{vp.Byte() & 0x7f, 'x'}
			}
			if t.DCS == 4 {
				want = append(want, rune(b[0]))
				want = append(want, []rune(string(b[1:]))...)
			} else {
				want = append(want, decodeText(clone(b), 0, 0, &kf)...)
			}
		}
		t.UDH = append(t.UDH, ie)
		t.UD = spareUD(b)
		keep = append(keep, clone(b))
		segs = append(segs, t)
	}
	if kind == 0 {
		var dangling bool
		want, dangling = utf16Text(all)
		if dangling {
			return
		}
	}
	got, err := sms.Decode(segs, sms.WithAllCharsets)
	for i, t := range segs {
		checkSpare(t, keep[i])
	}
	vp.Assert(err == nil, "it decodes")
	vp.Assert(vp.EqStr(string(got), string(want)), "the text of all segments together")
}

// C17_Many: texts of many TPDUs.
func C17_Many() {
	n := []int{1520, 1530, 3060}[vp.Choose(vp.Param("lengths", 2, 3))]
	ucs := vp.Choose(2) == 1
	t := fill(n)
	at := []int{0, 152, n - 9}[vp.Choose(3)]
	if ucs {
		t = fill(n / 2)
		at = []int{66, 133, len(t) - 2}[vp.Choose(3)]
		t[5] = 0x4e2d
	}
	t[at] = vp.Rune()
	msg := string(t)
	c := sms.NewCollector()
	pdus, err := sms.Encode([]byte(msg), sms.To("12345"))
	vp.Assert(err == nil, "it encodes")
	checkMessage(pdus, "+12345", true)
	vp.Assert(len(pdus) >= 10, "in many segments")
	first := []int{0, 1, len(pdus) - 1}[vp.Choose(3)]
	var out []*tpdu.TPDU
	for i := range pdus {
		b, err := pdus[(first+i)%len(pdus)].MarshalBinary()
		vp.Assert(err == nil, "a segment marshals")
		p, err := sms.Unmarshal(b, sms.AsMO)
		vp.Assert(err == nil, "a segment unmarshals")
		out, err = c.Collect(*p)
		vp.Assert(err == nil, "a segment is collected")
		vp.Assert((out != nil) == (i == len(pdus)-1), "complete when the last segment has arrived")
	}
	got, err := sms.Decode(out)
	vp.Assert(err == nil, "it decodes")
	vp.Assert(vp.EqStr(string(got), msg), "the message arrives as it was sent")
}

// C20_Frames: frames of the size of a TPDU.
func C20_Frames() {
	n := vp.Range(1, vp.Param("octets", 200, 300))
	b := filled(n, 0xa5)
	at := []int{0, n / 2, n - 1}[vp.Choose(3)]
	b[at] = vp.Byte()
	p := pdumode.PDU{TPDU: clone(b)}
	p.SMSC.TOA, p.SMSC.Addr = 0x91, "12345"
	h, err := p.MarshalHexString()
	vp.Assert(err == nil && len(h) == 2*(5+n), "two characters for each octet")
	r, err := pdumode.UnmarshalHexString(h)
	vp.Assert(err == nil, "it comes back")
	vp.Assert(vp.EqBytes(r.TPDU, b) && r.SMSC.Addr == "12345" && r.SMSC.TOA == 0x91, "as it was")
}

// C20_Digits: service centre addresses of many digits.
func C20_Digits() {
	n := []int{20, 21, 22, 23, 24, 29, 30, 39, 40, 41, 64, 127, 128, 200}[vp.Choose(14)]
	d := filled(n, '6')
	at := []int{0, n / 2, n - 1}[vp.Choose(3)]
	d[at], _ = symDigit()
	a := tpdu.Address{TOA: vp.Byte(), Addr: string(d)}
	tp := vp.Bytes(2)
	f := addrRef(a)
	want := append(append([]byte{byte(len(f) - 1)}, f[1:]...), tp...)
	p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: a}, TPDU: tp}
	b, err := p.MarshalBinary()
	vp.Assert(err == nil, "it marshals")
	sameBytes(b, want, "binary form")
	r, err := pdumode.UnmarshalBinary(want)
	vp.Assert(err == nil, "it unmarshals")
	sameAddr(r.SMSC.Address, a, "service centre address")
	sameBytes(r.TPDU, tp, "TPDU")
}

// C12_EscapeRun: escapes one after another up to, and over, the end of a
// segment.
func C12_EscapeRun() {
	c := segTemplate(0, []int{0, 24}[vp.Choose(2)])
	k := vp.Range(2, vp.Param("escapes", 20, 22))
	seg := vp.Range(1, 2)
	end := seg*c.multi + vp.Range(-2, 1)
	c.msg = filled(3*c.multi, 'x')
	for i := end - k; i < end; i++ {
		c.msg[i] = 0x1b
	}
	c.msg[end-k-1] = vp.Byte() & 0x7f
	c.msg[end] = vp.Byte() & 0x7f
	c.run()
}

// C21_Many: messages of many segments.
func C21_Many() {
	n := []int{7, 16, 17, 128, 200, 255}[vp.Choose(6)]
	k := []int{0, n / 2, n - 1}[vp.Choose(3)]
	wide := vp.Choose(2) == 1
	var segs []*tpdu.TPDU
	want := true
	for i := 0; i < n; i++ {
		d := []byte{0x12, byte(n), byte(i + 1)}
		if i == k {
			d = vp.Bytes(3)
			want = vp.And(vp.And(d[0] == 0x12, int(d[1]) == n), int(d[2]) == i+1)
		}
		t := &tpdu.TPDU{UDH: tpdu.UserDataHeader{{ID: 0, Data: d}}}
		if wide {
			hi := byte(0x80)
			if i == k {
				hi = vp.Byte()
				want = vp.And(want, hi == 0x80)
			}
			t.UDH[0] = tpdu.InformationElement{ID: 8, Data: []byte{hi, d[0], d[1], d[2]}}
		}
		segs = append(segs, t)
	}
	vp.Assert(sms.IsCompleteMessage(segs) == want, "complete exactly when all segments are there in order")
	if k == n-1 {
		vp.Assert(!sms.IsCompleteMessage(segs[:n-1]), "not without the last")
	}
}

// C12_TooMany: a message that needs more segments than can be numbered is not
// segmented and takes no reference.
func C12_TooMany() {
	alpha := vp.Choose(3)
	c := segTemplate(alpha, []int{8, 0}[vp.Choose(vp.Param("rooms", 1, 2))])
	unit := 1
	if alpha == 2 {
		unit = 2
	}
	per := c.multi / unit * unit
	n := 255*per + unit*(vp.Choose(3)-1)
	c.msg = make([]byte, n)
	for i := range c.msg {
		c.msg[i] = 'x'
		if alpha == 2 {
			c.msg[i] = byte(i%2) * 'x'
		}
	}
	// a character that may not fit its segment
	at := per * (1 + 253*vp.Choose(2))
	switch alpha {
	case 0:
		c.msg[at-1] = vp.Byte() & 0x7f
	case 1:
		c.msg[at-1] = vp.Byte()
	case 2:
		if vp.Choose(2) == 1 {
			copy(c.msg[at-2:], []byte{0xd8 | vp.Byte()&3, vp.Byte(), 0xdc | vp.Byte()&3, vp.Byte()})
		}
	}
	starts, _ := unitStarts(alpha, c.msg)
	segs := 0
	for pos := 0; pos < n; segs++ {
		pos += per
		if pos < n && !starts[pos] {
			pos -= unit
		}
	}
	if segs <= 255 {
		vp.Cover("as many as there can be")
		vp.Assert(len(c.run()) == segs, "as many segments as needed")
		return
	}
	vp.Cover("too many")
	mr, cr := &counter{}, &counter{}
	opts := []tpdu.SegmentationOption{tpdu.WithMR(mr), tpdu.WithConcatRef(cr)}
	if c.wide {
		opts = append(opts, tpdu.With16BitConcatRef)
	}
	out := c.t.Segment(c.msg, opts...)
	vp.Assert(len(out) == 0 && mr.n == 0 && cr.n == 0, "a message of too many segments is refused and takes no reference")
}

// C19_TooLong: a message that is too long is refused and takes no reference.
func C19_TooLong() {
	c := byte(vp.Int('a', 'z'))
	var opts []sms.EncoderOption
	n := 255 * 153
	if vp.Choose(2) == 1 {
		opts = append(opts, sms.As8Bit)
		n = 255 * 134
	}
	e := sms.NewEncoder(sms.AsSubmit, sms.To("123"))
	mrs, ref := 0, 0
	if vp.Choose(2) == 1 {
		mrs, ref = 2, 1
		_, err := e.Encode(filled(161, c))
		vp.Assert(err == nil, "it encodes")
	}
	long := filled(n+1, 'x')
	long[n/2], long[n] = c, c
	pdus, err := e.Encode(long, opts...)
	vp.Assert(err == tpdu.ErrOverlength && pdus == nil, "a message of more than 255 segments is refused")
	pdus, err = e.Encode(long[1:], opts...)
	vp.Assert(err == nil && len(pdus) == 255, "a message of 255 segments is not")
	for i := range pdus {
		mrs++
		segs, seq, cr, ok := pdus[i].ConcatInfo()
		vp.Assert(ok && segs == 255 && seq == i+1 && cr == ref+1, "segments are numbered")
		vp.Assert(pdus[i].MR == byte(mrs), "message references go on")
	}
}

// C03_DecodeLong: many octets with a few arbitrary ones among them.
func C03_DecodeLong() {
	n := vp.Range(4, vp.Param("octets", 12, 40))
	src := filled(n, 0x21)
	at := []int{0, n / 2, n - 2}[vp.Choose(3)]
	src[at], src[at+1] = vp.Byte(), vp.Byte()
	max := []int{2 * n, 2*n - 1, n, at * 2}[vp.Choose(4)]
	decodeDigits(src, max)
}

// C08_Many: headers of many elements.
func C08_Many() {
	n := []int{5, 40, 127, 128, 84, 63}[vp.Choose(vp.Param("numbers of elements", 4, 6))]
	l := vp.Range(0, 4)
	at := []int{0, n / 2, n - 1}[vp.Choose(3)]
	u := make(tpdu.UserDataHeader, n)
	for i := range u {
		u[i] = tpdu.InformationElement{ID: 0x70 + byte(i&1), Data: filled(l, byte(i))}
	}
	u[at] = tpdu.InformationElement{ID: vp.Byte(), Data: vp.Bytes(vp.Range(0, 3))}
	keep := cloneUDH(u)
	b, err := u.MarshalBinary()
	sameUDH(u, keep, "the header is not modified")
	if (n-1)*(2+l)+2+len(u[at].Data) > 255 {
		vp.Assert(err != nil && b == nil, "a header that is too long is refused")
		return
	}
	vp.Cover("fits")
	vp.Assert(err == nil, "a header marshals")
	sameBytes(b, udhRef(u), "header octets")
	var r tpdu.UserDataHeader
	used, err := r.UnmarshalBinary(append(clone(b), vp.Bytes(1)...))
	vp.Assert(err == nil && used == len(b), "it decodes")
	sameUDH(r, u, "header round trip")
}

// C09_Many: headers of many elements, two of them arbitrary.
func C09_Many() {
	n := []int{7, 30, 60, 127}[vp.Choose(vp.Param("numbers of elements", 3, 4))]
	u := make(tpdu.UserDataHeader, n)
	for i := range u {
		u[i] = tpdu.InformationElement{ID: 0x70, Data: filled(i&1, 1)}
	}
	a := []int{0, n / 2, n - 2}[vp.Choose(3)]
	b := []int{n - 1, a + 1}[vp.Choose(2)]
	for _, at := range []int{a, b} {
		u[at] = tpdu.InformationElement{ID: vp.Byte(), Data: vp.Bytes(3 + vp.Choose(2))}
	}
	checkInfo(u)
	checkIE(u)
}

// C28_Many: headers of many elements, and much text.
func C28_Many() {
	n := []int{40, 3, 12}[vp.Choose(vp.Param("numbers of elements", 2, 3))]
	u := make(tpdu.UserDataHeader, n)
	for i := range u {
		u[i] = tpdu.InformationElement{ID: 0x70, Data: []byte{1}}
	}
	a := []int{n - 2, n / 2}[vp.Choose(2)]
	v := vp.Byte()
	lock, ext := 0, 0
	use := vp.Conc(vp.IteInt(v > 13, 0, int(v)))
	switch vp.Choose(4) {
	case 0:
		u[a].ID, u[a].Data = 24, []byte{v}
		ext = use
	case 1:
		u[a].ID, u[a].Data = 25, []byte{v, 3}
		lock = use
	case 2:
		u[a].ID, u[a].Data = 24, []byte{3}
		u[a+1].ID, u[a+1].Data = 24, []byte{v}
		ext = use
	case 3:
		u[a].ID, u[a].Data = 24, []byte{3}
		u[a+1].ID, u[a+1].Data = 25, []byte{v}
		ext, lock = 3, use
	}
	ud := filled([]int{70, 9, 160}[vp.Choose(vp.Param("lengths", 1, 3))], 0x41)
	at := vp.Choose(vp.Param("places", 1, 2)) * (len(ud) - 2)
	ud[at], ud[at+1] = 0x1b, vp.Byte()&0x7f
	keep := clone(ud)
	got, err := tpdu.DecodeUserData(ud, u, tpdu.Alpha7Bit, tpdu.WithAllCharsets)
	sameBytes(ud, keep, "the user data is not modified")
	vp.Assert(err == nil, "it decodes")
	kf := false
	want := decodeText(keep, lock, ext, &kf)
	vp.AssertK("KF2", kf, vp.EqStr(string(got), string(want)), "the tables named by the header")
}

// C01_Long: messages of the sizes that users send.
func C01_Long() {
	n := []int{152, 153, 158, 159, 160, 161, 182, 255, 256, 257}[vp.Choose(10)]
	fill := vp.Range(0, 6)
	in := septets(n)
	out := gsm7.Pack7Bit(clone(in), fill)
	sameBytes(out, packRef(in, fill), "packed octets follow the standard's bit layout")
	got := gsm7.Unpack7Bit(out, fill)
	sameBytes(got, unpackRef(out, fill), "unpacked septets follow the standard's bit layout")
	sameBytes(got[:n], in, "round trip")
}

// C02_Long: USSD strings of the sizes that users send.
func C02_Long() {
	n := []int{91, 159, 160, 175, 176, 181, 182, 183}[vp.Choose(8)]
	fill := vp.Range(0, 6)
	in := septets(n)
	out := gsm7.Pack7BitUSSD(clone(in), fill)
	sameBytes(out, ussdRef(in, fill), "USSD packing follows the standard")
	vp.Assume(!(in[n-1] == crSeptet && in[n-2] == crSeptet))
	sameBytes(gsm7.Unpack7BitUSSD(out, fill), in, "USSD round trip")
}
