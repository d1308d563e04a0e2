package h

import (
	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"vph/vp"
)

// outcome is what a call gave: octets that are still its own, numbers, and
// whether it failed.
type outcome struct {
	live   [][]byte
	vals   []int
	failed bool
}

func got(err error, live ...[]byte) outcome { return outcome{live: live, failed: err != nil} }

func (o *outcome) udh(u tpdu.UserDataHeader) {
	for i := range u {
		o.vals = append(o.vals, int(u[i].ID))
		o.live = append(o.live, u[i].Data)
	}
}

func (o *outcome) pdu(t *tpdu.TPDU) {
	o.vals = append(o.vals, int(t.FirstOctet), int(t.MR), int(t.PID), int(t.DCS), int(t.PI), int(t.FCS), int(t.Direction),
		int(t.DA.TOA), int(t.OA.TOA), len(t.DA.Addr), len(t.OA.Addr))
	o.live = append(o.live, t.UD)
	o.udh(t.UDH)
}

func (o outcome) copied() outcome {
	c := outcome{vals: append([]int(nil), o.vals...), failed: o.failed}
	for _, b := range o.live {
		c.live = append(c.live, clone(b))
	}
	return c
}

func (o outcome) same(w outcome, what string) {
	vp.Assert(o.failed == w.failed, what+": whether it fails")
	vp.Assert(len(o.live) == len(w.live) && len(o.vals) == len(w.vals), what+": how much there is")
	for i := range w.live {
		sameBytes(o.live[i], w.live[i], what)
	}
	for i := range w.vals {
		vp.Assert(o.vals[i] == w.vals[i], what+": values")
	}
}

// scribble writes over all octets of it.
func (o outcome) scribble() {
	for _, b := range o.live {
		for i := range b {
			b[i] ^= 0xff
		}
	}
}

// letters puts a few of the octets into the range of letters and brackets, of
// which some need an escape.
func letters(in []byte) []byte {
	b := make([]byte, len(in), len(in)+8)
	for i, x := range in {
		b[i] = 'X' + x&7
	}
	return b
}

func digitsOf(in []byte) string {
	b := make([]byte, len(in))
	for i, x := range in {
		b[i] = '0' + x&7
	}
	return string(b)
}

// longText is a message of several segments.
func longText(in []byte, n int) []byte {
	b := filled(n, 'x')
	copy(b, letters(in))
	return b
}

// calls are ways of using the library, each with octets that say on what.
var calls = []func(in []byte) outcome{
	func(in []byte) outcome { // 0
		b, err := gsm7.Encode(letters(in))
		return got(err, b)
	},
	func(in []byte) outcome {
		b, err := gsm7.Encode(append([]byte("\u011e"), letters(in)...), gsm7.WithCharset(1), gsm7.WithExtCharset(1))
		return got(err, b)
	},
	func(in []byte) outcome {
		b, err := gsm7.Decode([]byte{0x1b, in[0] & 0x7f, in[1] & 0x7f})
		return got(err, b)
	},
	func(in []byte) outcome {
		b, err := gsm7.Decode([]byte{0x1b, in[0] & 0x7f, in[1] & 0x7f}, gsm7.WithCharset(3), gsm7.WithExtCharset(3), gsm7.Strict)
		return got(err, b)
	},
	func(in []byte) outcome { return got(nil, gsm7.Pack7Bit(in, 3), gsm7.Pack7BitUSSD(in, 2)) },
	func(in []byte) outcome { return got(nil, gsm7.Unpack7Bit(in, 3), gsm7.Unpack7BitUSSD(in, 2)) }, // 5
	func(in []byte) outcome {
		r, err := ucs2.Decode(append(append([]byte(nil), in...), in...)[:4])
		o := got(err)
		for _, x := range r {
			o.vals = append(o.vals, int(x))
		}
		return o
	},
	func(in []byte) outcome { return got(nil, ucs2.Encode([]rune{rune(in[0]), 0x10000 + rune(in[1])})) },
	func(in []byte) outcome {
		b, err := semioctet.Encode([]byte(digitsOf(in)))
		d := make([]byte, 2*len(in))
		d, n, e := semioctet.Decode(d, in)
		o := got(err, b, d)
		o.vals = append(o.vals, n)
		if e != nil {
			o.vals = append(o.vals, 1)
		}
		return o
	},
	func(in []byte) outcome {
		a := tpdu.NewAddress(tpdu.FromNumber("+" + digitsOf(in)))
		b, err := a.MarshalBinary()
		return got(err, b, []byte(a.Number()))
	},
	func(in []byte) outcome { // 10
		var a tpdu.Address
		n, err := a.UnmarshalBinary([]byte{4, 0xd0, in[0], in[1]})
		o := got(err, []byte(a.Addr))
		o.vals = []int{n, int(a.TOA)}
		return o
	},
	func(in []byte) outcome {
		var u tpdu.UserDataHeader
		n, err := u.UnmarshalBinary([]byte{6, in[0], 1, in[1], 0x70, 1, in[0]})
		o := got(err)
		o.vals = append(o.vals, n)
		o.udh(u)
		b, err := u.MarshalBinary()
		o.live = append(o.live, b)
		o.failed = o.failed || err != nil
		return o
	},
	func(in []byte) outcome {
		src := []byte{0x40, 0x03, 0x91, 0x21, 0xf3, 0x00, 0x04, 0x62, 0x11, 0x81, 0x32, 0x54, 0x00, 0x00, 0x05, 3, in[0], 1, in[1], in[0]}
		t, err := sms.Unmarshal(src)
		if err != nil {
			return got(err)
		}
		b, err := t.MarshalBinary()
		o := got(err, b)
		o.pdu(t)
		return o
	},
	func(in []byte) outcome {
		t, err := sms.Unmarshal([]byte{0x11, in[0], 0x03, 0x91, 0x21, 0xf3, 0x00, 0x00, in[1] & 0x7f, 0x02, 0x41, 0x21}, sms.AsMO)
		if err != nil {
			return got(err)
		}
		b, err := t.MarshalBinary()
		o := got(err, b)
		o.pdu(t)
		return o
	},
	func(in []byte) outcome {
		ud, udh, a := tpdu.EncodeUserData(append([]byte("\u00e7"), letters(in)...), tpdu.WithCharset(2, 1), tpdu.WithShiftCharset(4))
		o := got(nil, ud)
		o.udh(udh)
		o.vals = append(o.vals, int(a))
		return o
	},
	func(in []byte) outcome { // 15
		ud, udh, a := tpdu.EncodeUserData(append([]byte("\u09e6"), letters(in)...))
		o := got(nil, ud)
		o.udh(udh)
		o.vals = append(o.vals, int(a))
		return o
	},
	func(in []byte) outcome {
		b, err := tpdu.DecodeUserData([]byte{0x1b, in[0] & 0x7f, in[1] & 0x7f}, tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}, {ID: 24, Data: []byte{3}}}, tpdu.Alpha7Bit, tpdu.WithAllCharsets)
		return got(err, b)
	},
	func(in []byte) outcome {
		b, err := tpdu.DecodeUserData([]byte{0x1b, in[0] & 0x7f, in[1] & 0x7f}, tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}, {ID: 24, Data: []byte{3}}}, tpdu.Alpha7Bit)
		return got(err, b)
	},
	func(in []byte) outcome {
		t, err := tpdu.NewSubmit(tpdu.Dcs8BitData, tpdu.WithUDH(tpdu.UserDataHeader{{ID: 0x70, Data: []byte{in[0]}}}))
		if err != nil {
			return got(err)
		}
		o := got(nil)
		for _, p := range t.Segment(longText(in, 150), tpdu.With16BitConcatRef) {
			p := p
			o.pdu(&p)
		}
		return o
	},
	func(in []byte) outcome {
		pdus, err := sms.Encode(longText(in, 165), sms.To("+123"), sms.WithAllCharsets)
		o := got(err)
		for i := range pdus {
			o.pdu(&pdus[i])
		}
		return o
	},
	func(in []byte) outcome { // 20
		pdus, err := sms.Encode(letters(in), sms.AsDeliver, sms.From("+"+digitsOf(in)), sms.As8Bit)
		o := got(err)
		for i := range pdus {
			o.pdu(&pdus[i])
		}
		return o
	},
	func(in []byte) outcome {
		pdus, err := sms.Encode(append([]byte("\u09e6"), letters(in)...), sms.WithCharset(4))
		o := got(err)
		for i := range pdus {
			o.pdu(&pdus[i])
		}
		return o
	},
	func(in []byte) outcome {
		m, err := sms.Decode([]*tpdu.TPDU{
			{DCS: 8, UD: []byte{0, in[0], 0xd8, 0x00}},
			{DCS: 8, UD: []byte{0xdc, in[1]}},
		})
		return got(err, m)
	},
	func(in []byte) outcome {
		m, err := sms.Decode([]*tpdu.TPDU{{UDH: tpdu.UserDataHeader{{ID: 25, Data: []byte{4}}}, UD: []byte{in[0] & 0x7f, in[1] & 0x7f}}}, sms.WithCharset(4))
		return got(err, m)
	},
	func(in []byte) outcome {
		p, err := pdumode.UnmarshalBinary([]byte{3, 0x91, in[0] & 0x77, 0xf1, in[1], in[0]})
		if err != nil {
			return got(err)
		}
		b, err := p.MarshalBinary()
		return got(err, p.TPDU, b, []byte(p.SMSC.Addr))
	},
	func(in []byte) outcome { // 25
		p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.NewAddress(tpdu.FromNumber(digitsOf(in)))}, TPDU: in[:1]}
		s, err := p.MarshalHexString()
		return got(err, []byte(s))
	},
	func(in []byte) outcome {
		c := sms.NewCollector()
		defer c.Close()
		seg := func(n byte) tpdu.TPDU {
			t := tpdu.TPDU{DCS: 4, UD: []byte{in[1], n}, OA: tpdu.NewAddress(tpdu.FromNumber("123"))}
			t.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{in[0], 2, n}}})
			return t
		}
		o := got(nil)
		s, err := c.Collect(seg(2))
		o.vals = append(o.vals, len(s), len(c.Pipes()))
		o.failed = err != nil
		s, err = c.Collect(seg(1))
		o.vals = append(o.vals, len(s), len(c.Pipes()))
		o.failed = o.failed || err != nil
		for _, p := range s {
			o.pdu(p)
		}
		return o
	},
	func(in []byte) outcome {
		var s tpdu.Timestamp
		err := s.UnmarshalBinary([]byte{0x62, 0x11, 0x10 + in[0]&7<<4, 0x10, in[1] & 0x31, 0x00, 0x8a})
		if err != nil {
			return got(err)
		}
		b, err := s.MarshalBinary()
		return got(err, b)
	},
	func(in []byte) outcome {
		var v tpdu.ValidityPeriod
		n, err := v.UnmarshalBinary([]byte{0x42, in[0] & 0x7f, 0, 0, 0, 0, 0}, tpdu.VpfEnhanced)
		o := got(err)
		o.vals = append(o.vals, n, int(v.Duration), int(v.Format), int(v.EFI))
		return o
	},
	// what may be refused
	func(in []byte) outcome {
		b, err := gsm7.Encode([]byte{in[0], in[1]})
		return got(err, b)
	},
	func(in []byte) outcome { // 30
		t, err := sms.Unmarshal([]byte{in[0] & 0x43, 0x03, 0x91, 0x21, 0xf3, 0x00, 0x04, 0x62, 0x11, 0x81, 0x32, 0x54, 0x00, 0x00, 0x02, in[1] & 3, 0})
		o := got(err)
		if err == nil {
			o.pdu(t)
		}
		return o
	},
	func(in []byte) outcome {
		m, err := sms.Decode([]*tpdu.TPDU{{DCS: 8, UD: []byte{0xd8 | in[0]&7, in[1]}}})
		return got(err, m)
	},
	func(in []byte) outcome {
		pdus, err := sms.Encode([]byte("\u2318"+string(letters(in))), sms.WithTemplateOption(tpdu.DCS(0xf0|in[0]&4)))
		o := got(err)
		for i := range pdus {
			o.pdu(&pdus[i])
		}
		return o
	},
	func(in []byte) outcome {
		p, err := pdumode.UnmarshalHexString("0391" + string([]byte{'0' + in[0]&15, '1', 'f', '1'}) + "00" + string([]byte{'a' + in[1]&7, '0'}))
		if err != nil {
			return got(err)
		}
		s, err := p.MarshalHexString()
		return got(err, p.TPDU, []byte(s), []byte(p.SMSC.Addr))
	},
}

// independent is whether calls a and b, with these octets, leave each other's
// results and the octets alone, and a gives the same again.
func independent(a, b int, in1, in2 []byte) {
	keep1, keep2 := clone(in1), clone(in2)
	r1 := calls[a](in1)
	w1 := r1.copied()
	sameBytes(in1, keep1, "what was given is as it was")
	r2 := calls[b](in2)
	w2 := r2.copied()
	sameBytes(in2, keep2, "what was given to the other is as it was")
	r1.same(w1, "the result of an earlier call")
	// which is the caller's, to do with as he likes
	r1.scribble()
	again := calls[b](clone(keep2))
	again.same(w2, "the same call again")
	again.scribble()
	calls[a](clone(keep1)).same(w1, "the first call again")
}

// C30_Same: two uses of one kind, with any octets.
func C30_Same() {
	k := vp.Choose(len(calls))
	independent(k, k, vp.Bytes(2), vp.Bytes(2))
}

// C30_Other: a use of one kind after any of another kind.
func C30_Other() {
	a, b := vp.Choose(len(calls)), vp.Choose(len(calls))
	vp.Assume(a != b)
	in := []byte{byte(vp.Range(0, 3) * 5), 0x41}
	if vp.Param("any", 0, 1) == 1 {
		in = vp.Bytes(2)
	}
	independent(a, b, vp.Bytes(2), in)
}
