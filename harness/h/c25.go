// Schedules.

package h

import (
	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"vph/vp"
)

// together runs all functions at once.
func together(bound int, fs ...func()) {
	vp.Explore(bound, false)
	for _, f := range fs {
		vp.Go(f)
	}
	vp.WaitAll()
	vp.StopExplore()
}

// tableOf looks a character up in, or puts one through, one of the tables.
func tableOf(k, nli int) int {
	switch k {
	case 0:
		return int(charset.NewDecoder(nli)[0x41])
	case 1:
		return int(charset.NewExtDecoder(nli)[0x65])
	case 2:
		return int(charset.NewEncoder(nli)['A'])
	default:
		return int(charset.NewExtEncoder(nli)[0x20ac])
	}
}

// C25_Tables: any tables can be obtained for the first time from two threads
// at once.
func C25_Tables() {
	b := vp.Param("preemptions", 2, 4)
	k1, k2 := vp.Choose(4), vp.Choose(4)
	nli := vp.Choose(15)
	other := 0
	if vp.Choose(2) == 1 {
		other = nli
	}
	var x, y int
	together(b, func() { x = tableOf(k1, nli) }, func() { y = tableOf(k2, other) })
	vp.Assert(x == tableOf(k1, nli), "the table is complete")
	vp.Assert(y == tableOf(k2, other), "the other is complete")
}

// C25_Text: text is encoded and decoded by several threads at once as by each
// alone.
func C25_Text() {
	b := vp.Param("preemptions", 1, 2)
	opts := [][]sms.EncoderOption{
		{},
		{sms.WithAllCharsets},
		{sms.WithLockingCharset(4, 2), sms.WithShiftCharset(3, 1)},
		{sms.WithCharset(1)},
	}
	texts := []string{"a\u20ac[", "\u0131\u00e7", "\u0986\u09e6", "\u2318"}
	lists := make([][]int, 2)
	for i := range lists {
		lists[i] = []int{vp.Choose(len(opts)), vp.Choose(len(texts))}
	}
	run := func(l []int) func() {
		return func() {
			t := texts[l[1]]
			pdus, err := sms.Encode([]byte(t), opts[l[0]]...)
			vp.Assert(err == nil && len(pdus) == 1, "it encodes")
			m, err := sms.Decode([]*tpdu.TPDU{&pdus[0]})
			vp.Assert(err == nil && string(m) == t, "it decodes to itself")
		}
	}
	together(b, run(lists[0]), run(lists[1]))
}

// uses are the things that can be done with a TPDU and that leave it as it is.
var uses = []func(t *tpdu.TPDU) []byte{
	func(t *tpdu.TPDU) []byte {
		b, err := t.MarshalBinary()
		vp.Assert(err == nil, "it marshals")
		return b
	},
	func(t *tpdu.TPDU) []byte {
		var out []byte
		for _, p := range t.Segment(filled(150, 'x')) {
			b, err := p.MarshalBinary()
			vp.Assert(err == nil, "a segment marshals")
			out = append(out, b...)
		}
		return out
	},
	func(t *tpdu.TPDU) []byte {
		a, err := t.Alphabet()
		vp.Assert(err == nil, "it has an alphabet")
		segs, seq, ref, ok := t.ConcatInfo()
		vp.Assert(ok != t.IsSingleSegment(), "it is one of several")
		return []byte{byte(a), byte(segs), byte(seq), byte(ref), byte(t.UDBlockSize()), byte(t.UDHL()), byte(t.MTI()), byte(t.SmsType())}
	},
	func(t *tpdu.TPDU) []byte {
		m, err := sms.Decode([]*tpdu.TPDU{t})
		vp.Assert(err == nil, "it decodes")
		return m
	},
	func(t *tpdu.TPDU) []byte {
		vp.Assert(!sms.IsCompleteMessage([]*tpdu.TPDU{t}), "it is incomplete")
		ie, ok := t.UDH.IE(0)
		vp.Assert(ok && len(t.UDH.IEs(0x70)) == 1, "its elements")
		return append([]byte(t.DA.Number()), ie.Data...)
	},
	func(t *tpdu.TPDU) []byte {
		pdus, err := sms.Encode([]byte("hello"), sms.WithTemplate(*t), sms.As8Bit)
		vp.Assert(err == nil && len(pdus) == 1, "it serves as a template")
		b, err := pdus[0].MarshalBinary()
		vp.Assert(err == nil, "what it makes marshals")
		return b
	},
	func(t *tpdu.TPDU) []byte {
		pdus, err := sms.Encode([]byte("\u09e6\u09e7"), sms.WithTemplate(*t), sms.WithTemplateOption(tpdu.DCS(0)), sms.WithCharset(4))
		vp.Assert(err == nil && len(pdus) == 1, "it serves as a template with a character set")
		b, err := pdus[0].MarshalBinary()
		vp.Assert(err == nil, "what it makes marshals")
		return b
	},
	func(t *tpdu.TPDU) []byte {
		c := sms.NewCollector()
		s, err := c.Collect(*t)
		vp.Assert(err == nil && s == nil, "it is collected")
		return []byte{byte(len(c.Pipes()))}
	},
	func(t *tpdu.TPDU) []byte {
		p := pdumode.PDU{TPDU: []byte(t.UD)}
		s, err := p.MarshalHexString()
		vp.Assert(err == nil, "octets to hexadecimal")
		return []byte(s)
	},
}

// C25_SharedTPDU: threads that use one TPDU, without changing it, get what each
// would alone.
func C25_SharedTPDU() {
	b := vp.Param("preemptions", 1, 2)
	t := &tpdu.TPDU{}
	t.SetSmsType(tpdu.SmsSubmit)
	t.DA = tpdu.NewAddress(tpdu.FromNumber("+12345"))
	t.SetDCS(4)
	ud := make([]byte, 3, 16)
	copy(ud, vp.Bytes(3))
	t.SetUD(ud)
	udh := make(tpdu.UserDataHeader, 0, 8)
	d0 := append(make([]byte, 0, 8), vp.Byte(), 2, 1)
	d1 := append(make([]byte, 0, 8), vp.Byte())
	udh = append(udh, tpdu.InformationElement{ID: 0, Data: d0}, tpdu.InformationElement{ID: 0x70, Data: d1})
	t.SetUDH(udh)
	k1 := vp.Choose(len(uses))
	k2 := vp.Choose(len(uses))
	// each on its own, with a TPDU that shares nothing
	alone := func(k int) []byte {
		c := *t
		c.UD = clone(t.UD)
		c.UDH = cloneUDH(t.UDH)
		return uses[k](&c)
	}
	w1, w2 := alone(k1), alone(k2)
	var g1, g2 []byte
	together(b, func() { g1 = uses[k1](t) }, func() { g2 = uses[k2](t) })
	sameBytes(g1, w1, "the first thread's result")
	sameBytes(g2, w2, "the second thread's result")
}

// C25_SharedInput: threads that are given the same octets, text, options and
// coders get what each would alone.
func C25_SharedInput() {
	b := vp.Param("preemptions", 1, 2)
	src := append(make([]byte, 0, 64), 0x04, 0x03, 0x91, 0x21, 0xf3, 0x00, 0x04, 0x62, 0x11, 0x81, 0x32, 0x54, 0x00, 0x00, 0x02)
	src = append(src, vp.Bytes(2)...)
	septets := append(make([]byte, 0, 64), 0x1b, 0x65, 0x40, 0x41)
	septets[2] = byte(vp.Int(0x41, 0x44))
	text := append(make([]byte, 0, 64), "Aa{"...)
	dec := gsm7.NewDecoder()
	enc := gsm7.NewEncoder()
	dopts := append(make([]sms.DecodeOption, 0, 4), sms.WithAllCharsets)
	addr := tpdu.NewAddress(tpdu.FromNumber("+1234"))
	runes := append(make([]rune, 0, 8), 'a', 0x1f600)
	c := vp.Byte()
	p := &pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: addr}, TPDU: append(make([]byte, 0, 8), c)}
	do := []func() []byte{
		func() []byte {
			t, err := sms.Unmarshal(src, sms.AsMT)
			vp.Assert(err == nil, "the octets are a TPDU")
			m, err := sms.Decode([]*tpdu.TPDU{t}, dopts...)
			vp.Assert(err == nil, "and a message")
			return m
		},
		func() []byte { return gsm7.Unpack7Bit(gsm7.Pack7Bit(septets, 1), 1) },
		func() []byte { return gsm7.Unpack7BitUSSD(gsm7.Pack7BitUSSD(septets, 0), 0) },
		func() []byte {
			d, err := dec.Decode(septets)
			vp.Assert(err == nil, "the septets are text")
			return d
		},
		func() []byte {
			d, err := enc.Encode(text)
			vp.Assert(err == nil, "the text has septets")
			return d
		},
		func() []byte {
			x := dec.WithCharset(charset.NewDecoder(3)).Strict()
			d, err := x.Decode(septets)
			vp.Assert(err == nil, "the septets are text of another character set")
			return d
		},
		func() []byte {
			d, err := addr.MarshalBinary()
			vp.Assert(err == nil, "the address marshals")
			return d
		},
		func() []byte { return ucs2.Encode(runes) },
		func() []byte {
			s, err := p.MarshalHexString()
			vp.Assert(err == nil, "the PDU marshals")
			q, err := pdumode.UnmarshalHexString(s)
			vp.Assert(err == nil && q.SMSC.Addr == "1234", "and is read")
			return q.TPDU
		},
	}
	k1, k2 := vp.Choose(len(do)), vp.Choose(len(do))
	w1, w2 := do[k1](), do[k2]()
	var g1, g2 []byte
	together(b, func() { g1 = do[k1]() }, func() { g2 = do[k2]() })
	sameBytes(g1, w1, "the first thread's result")
	sameBytes(g2, w2, "the second thread's result")
}

// C25_SharedOptions: threads that are given the same options, or options made
// of the same list of languages, get what each would alone.
func C25_SharedOptions() {
	b := vp.Param("preemptions", 1, 2)
	langs := append(make([]int, 0, 8), 3, 1)
	c := byte(vp.Int('a', 'z'))
	turkish := append([]byte("\u011e"), c)
	bengali := append([]byte("\u09e6"), c)
	eopts := append(make([]sms.EncoderOption, 0, 8), sms.To("+12"), sms.WithCharset(langs...))
	uopts := append(make([]tpdu.UDEncodeOption, 0, 8), tpdu.WithShiftCharset(langs...), tpdu.WithLockingCharset(langs...))
	topts := append(make([]tpdu.Option, 0, 8), tpdu.Dcs8BitData, tpdu.WithUDH(append(make(tpdu.UserDataHeader, 0, 4), tpdu.InformationElement{ID: 0x70, Data: []byte{c}})))
	wire := func(pdus []tpdu.TPDU, err error) []byte {
		vp.Assert(err == nil && len(pdus) == 1, "it encodes")
		w, err := pdus[0].MarshalBinary()
		vp.Assert(err == nil, "and marshals")
		return w
	}
	do := []func() []byte{
		func() []byte { return wire(sms.Encode(turkish, eopts...)) },
		func() []byte {
			return wire(sms.Encode(bengali, append(eopts[:1:1], sms.WithCharset(langs...), sms.WithCharset(4))...))
		},
		func() []byte {
			return wire(sms.Encode(bengali, sms.WithLockingCharset(langs...), sms.WithShiftCharset(langs...), sms.WithLockingCharset(4), sms.WithShiftCharset(2)))
		},
		func() []byte { return wire(sms.NewEncoder(eopts...).Encode(bengali, eopts[1], sms.WithCharset(4))) },
		func() []byte {
			ud, udh, _ := tpdu.EncodeUserData(bengali, append(uopts[:2:2], tpdu.WithCharset(4))...)
			m, err := tpdu.DecodeUserData(ud, udh, tpdu.Alpha7Bit, tpdu.WithCharset(langs...), tpdu.WithCharset(4))
			vp.Assert(err == nil, "it decodes")
			return m
		},
		func() []byte {
			ud, _, _ := tpdu.EncodeUserData(turkish, uopts...)
			return ud
		},
		func() []byte {
			t, err := tpdu.NewSubmit(topts...)
			vp.Assert(err == nil, "it is made")
			return wire(t.Segment([]byte{c, 2}), nil)
		},
		func() []byte {
			t, err := tpdu.NewDeliver(topts...)
			vp.Assert(err == nil, "it is made")
			pdus := t.Segment(filled(150, 'x'))
			vp.Assert(len(pdus) == 2 && len(pdus[1].UDH) == 2, "it is segmented")
			return wire(pdus[1:], nil)
		},
	}
	k1 := vp.Choose(len(do))
	k2 := k1
	if vp.Choose(2) == 1 {
		k2 = (k1 + 1) % len(do)
	}
	w1, w2 := do[k1](), do[k2]()
	var g1, g2 []byte
	together(b, func() { g1 = do[k1]() }, func() { g2 = do[k2]() })
	sameBytes(g1, w1, "the first thread's result")
	sameBytes(g2, w2, "the second thread's result")
}
