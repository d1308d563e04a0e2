package h

import (
	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// arrival is an order in which n segments arrive.
func arrival(n int) []int {
	o := make([]int, 0, n)
	if n > vp.Param("segments in every order", 2, 4) {
		for i := range n {
			o = append(o, i)
		}
		if vp.Choose(2) == 1 {
			for i := 0; i < n/2; i++ {
				o[i], o[n-1-i] = o[n-1-i], o[i]
			}
		}
		return o
	}
	var left []int
	for i := range n {
		left = append(left, i)
	}
	for len(left) > 0 {
		k := vp.Choose(len(left))
		o = append(o, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	return o
}

// deliver sends the TPDUs through their binary form to a collector, in some
// order, and returns what it gives back.
func deliver(pdus []tpdu.TPDU, mo bool) []*tpdu.TPDU {
	var opts []sms.UnmarshalOption
	if mo {
		opts = append(opts, sms.AsMO)
	} else if vp.Choose(2) == 1 {
		opts = append(opts, sms.AsMT)
	}
	c := sms.NewCollector()
	var out []*tpdu.TPDU
	for k, i := range arrival(len(pdus)) {
		b, err := pdus[i].MarshalBinary()
		vp.Assert(err == nil, "a segment marshals")
		t, err := sms.Unmarshal(b, opts...)
		vp.Assert(err == nil, "a segment unmarshals")
		got, err := c.Collect(*t)
		vp.Assert(err == nil, "a segment is collected")
		if k < len(pdus)-1 {
			vp.Assert(got == nil, "not complete before the last segment has arrived")
		} else {
			out = got
		}
	}
	vp.Assert(len(out) == len(pdus), "complete when the last segment has arrived")
	vp.Assert(len(c.Pipes()) == 0, "nothing is left in the collector")
	c.Close()
	return out
}

func fill(n int) []rune {
	s := make([]rune, n)
	for i := range s {
		s[i] = rune('a' + i%26)
	}
	return s
}

// bigHeader is a template header that leaves about room octets in a TPDU.
func bigHeader(room int) tpdu.UserDataHeader {
	return tpdu.UserDataHeader{{ID: 0x70, Data: make([]byte, 140-room-3)}}
}

func charsetOptions() []sms.EncoderOption {
	switch vp.Choose(5) {
	case 1:
		return []sms.EncoderOption{sms.WithDefaultCharset}
	case 2:
		return []sms.EncoderOption{sms.WithCharset(13, 1)}
	case 3:
		return []sms.EncoderOption{sms.WithLockingCharset(3), sms.WithShiftCharset(2)}
	case 4:
		return []sms.EncoderOption{sms.WithAllCharsets}
	}
	return nil
}

// checkMessage: everything about the TPDUs of one message but their text.
func checkMessage(pdus []tpdu.TPDU, number string, mo bool) {
	for i := range pdus {
		p := &pdus[i]
		segs, seq, _, ok := p.ConcatInfo()
		vp.Assert(ok == (len(pdus) > 1), "concatenation information exactly with several segments")
		if ok {
			vp.Assert(segs == len(pdus) && seq == i+1, "segments are numbered in order")
		}
		a := p.OA
		if mo {
			a = p.DA
			vp.Assert(p.MR == byte(i+1), "message references count from one")
			vp.Assert(p.SmsType() == tpdu.SmsSubmit, "it is a SMS-SUBMIT")
		} else {
			vp.Assert(p.SmsType() == tpdu.SmsDeliver, "it is a SMS-DELIVER")
		}
		vp.Assert(a.Number() == number, "the number is kept")
		al, err := p.Alphabet()
		vp.Assert(err == nil, "the alphabet is known")
		n := len(p.UD)
		h := len(udhRef(p.UDH))
		if al == tpdu.Alpha7Bit {
			n = (n*7 + 7*((h*8+6)/7) + 7) / 8
		} else {
			n += h
		}
		vp.Assert(n <= 140, "a segment fits a TPDU")
	}
}

func endToEnd(text []rune, header tpdu.UserDataHeader) {
	mo := vp.Choose(2) == 1
	number := "+12345"
	var opts []sms.EncoderOption
	if mo {
		opts = append(opts, sms.To("12345"))
		if vp.Choose(2) == 1 {
			opts = append([]sms.EncoderOption{sms.AsSubmit}, opts...)
		}
	} else {
		opts = append(opts, sms.AsDeliver, sms.From(number))
	}
	if header != nil {
		opts = append(opts, sms.WithTemplateOption(tpdu.WithUDH(header)))
	}
	opts = append(opts, charsetOptions()...)
	msg := string(text)
	b := []byte(msg)
	pdus, err := sms.Encode(b, opts...)
	vp.Assert(err == nil, "it encodes")
	vp.Assert(vp.EqStr(string(b), msg), "the message is not modified")
	if len(text) == 0 {
		vp.Assert(len(pdus) == 0, "nothing to send")
		return
	}
	if len(pdus) > 1 {
		vp.Cover("several")
	}
	checkMessage(pdus, number, mo)
	if header != nil {
		for i := range pdus {
			ie, ok := pdus[i].UDH.IE(0x70)
			vp.Assert(ok && len(ie.Data) == len(header[0].Data), "the template header is in every segment")
		}
	}
	got, err := sms.Decode(deliver(pdus, mo))
	vp.Assert(err == nil, "it decodes")
	vp.Assert(vp.EqStr(string(got), msg), "the message arrives as it was sent")
}

// C17_Short: any text of a few characters, in segments of about 20 octets.
func C17_Short() {
	t := append(fill([]int{0, 4, 10, 13}[vp.Choose(vp.Param("characters before", 3, 4))]), symText(vp.Range(0, vp.Param("free characters", 1, 2)))...)
	t = append(t, fill([]int{0, 9, 5}[vp.Choose(vp.Param("characters after", 2, 3))])...)
	endToEnd(t, bigHeader(26))
}

// C17_Long: texts about the boundaries of one, two and three whole TPDUs.
func C17_Long() {
	n := []int{66, 69, 133, 152, 159, 305}[vp.Choose(vp.Param("characters before", 4, 6))]
	t := append(fill(n), symText(1)...)
	t = append(t, fill(vp.Range(0, vp.Param("characters after", 1, 2)))...)
	endToEnd(t, nil)
}

// C17_Dcs: with any coding scheme in the template the message is sent in an
// alphabet that the scheme sent with it names, or refused.
func C17_Dcs() {
	d := vp.Byte()
	a, cl, z := dcsRef(d)
	vp.Assume(vp.Not(z))
	t := symText(1)
	msg := string(t)
	text := []byte(msg)
	if a == 1 || a == 2 {
		vp.Cover("binary")
		text = clone(utf16Ref(t[0]))
	}
	pdus, err := sms.Encode(text, sms.WithTemplateOption(tpdu.DCS(d)))
	septets := fits(t, 0, 0)
	if a == 1 || a == 2 {
		vp.Assert(err == nil && len(pdus) == 1, "it is sent")
		vp.Assert(byte(pdus[0].DCS) == d, "the coding scheme is kept")
		sameBytes(pdus[0].UD, text, "binary messages are sent as they are")
		return
	}
	if err != nil {
		vp.Cover("refused")
		vp.Assert(err == sms.ErrDcsConflict, "the conflict is reported")
		vp.Assert(d >= 0x80, "the general groups carry every alphabet")
		vp.Assert(vp.Not(vp.And(septets, a == 0)), "text that fits the coding scheme is not refused")
		return
	}
	vp.Cover("sent")
	vp.Assert(len(pdus) == 1, "one TPDU")
	na, ncl, nz := dcsRef(byte(pdus[0].DCS))
	vp.Assert(ncl == cl && !nz, "the class is kept")
	if septets {
		vp.Assert(na == 0, "septets are marked as such")
	} else {
		vp.Assert(na == 2, "UCS-2 is marked as such")
		sameBytes(pdus[0].UD, utf16Ref(t[0]), "UCS-2 text")
	}
	got, err := sms.Decode([]*tpdu.TPDU{&pdus[0]})
	vp.Assert(err == nil, "it decodes")
	vp.Assert(vp.EqStr(string(got), msg), "the message arrives as it was sent")
}

// C17_Binary: octets sent as 8-bit data arrive as they were sent.
func C17_Binary() {
	n := []int{1, 5, 17, 18, 35}[vp.Choose(5)]
	b := vp.Bytes(n)
	keep := clone(b)
	opts := []sms.EncoderOption{sms.As8Bit, sms.To("12345"), sms.WithTemplateOption(tpdu.WithUDH(bigHeader(26)))}
	ucs := n%2 == 1
	if vp.Choose(2) == 1 && !ucs {
		opts[0] = sms.AsUCS2
	}
	pdus, err := sms.Encode(b, opts...)
	vp.Assert(err == nil, "it encodes")
	sameBytes(b, keep, "the message is not modified")
	checkMessage(pdus, "+12345", true)
	var all []byte
	for _, t := range deliver(pdus, true) {
		all = append(all, t.UD...)
	}
	sameBytes(all, keep, "the octets arrive as they were sent")
	if opts[0] == sms.EncoderOption(sms.As8Bit) {
		got, err := sms.Decode(deliver(pdus, true))
		vp.Assert(err == nil, "it decodes")
		sameBytes(got, keep, "the octets decode as they were sent")
	}
}

// C17_Options: whatever options an encoder and a message are given, in whatever
// order, each does what it says and the last of a kind counts.
func C17_Options() {
	type want struct {
		st            tpdu.SmsType
		dcs, pid      byte
		da, oa        string
		header, chars bool
	}
	tmpl, _ := tpdu.New(tpdu.SmsSubmit, tpdu.WithDA(tpdu.NewAddress(tpdu.FromNumber("7"))), tpdu.Dcs8BitData)
	tmpl.PID = vp.Byte()
	bare, _ := tpdu.New(tpdu.SmsDeliver, tpdu.MT)
	hdr := tpdu.UserDataHeader{{ID: 0x70, Data: []byte{1}}}
	w := want{st: tpdu.SmsDeliver}
	n := vp.Range(0, vp.Param("options", 3, 4))
	cut := n
	if vp.Choose(2) == 1 {
		// all for one message
		w.st = tpdu.SmsSubmit
		cut = -1
	} else if n > 0 {
		cut = vp.Range(0, n)
	}
	var opts []sms.EncoderOption
	for i := 0; i < n; i++ {
		var o sms.EncoderOption
		switch vp.Choose(11) {
		case 0:
			o, w.st = sms.AsSubmit, tpdu.SmsSubmit
		case 1:
			o, w.st = sms.AsDeliver, tpdu.SmsDeliver
		case 2:
			o, w.dcs = sms.As8Bit, 4
		case 3:
			o, w.dcs = sms.AsUCS2, 8
		case 4:
			o, w.da = sms.To("12"), "12"
		case 5:
			o, w.oa = sms.From("+345"), "345"
		case 6:
			o = sms.WithTemplate(*tmpl)
			w = want{st: tpdu.SmsSubmit, da: "7", dcs: 4, pid: tmpl.PID, chars: w.chars}
		case 7:
			o, w.header = sms.WithTemplateOption(tpdu.WithUDH(hdr)), true
		case 8:
			o, w.chars = sms.WithCharset(4), true
		case 9:
			d := vp.Byte() & 3
			o, w.dcs = sms.WithTemplateOption(tpdu.DCS(d|0x10)), d|0x10
		case 10:
			o = sms.WithTemplate(*bare)
			w = want{st: tpdu.SmsDeliver, chars: w.chars}
		}
		opts = append(opts, o)
	}
	msg := []byte("\u09e6\u09e7")
	var pdus []tpdu.TPDU
	var err error
	if cut < 0 {
		pdus, err = sms.Encode(msg, opts...)
	} else {
		pdus, err = sms.NewEncoder(opts[:cut:cut]...).Encode(msg, opts[cut:]...)
	}
	vp.Assert(err == nil && len(pdus) == 1, "it encodes")
	p := &pdus[0]
	nh := 0
	if w.header {
		nh++
	}
	switch {
	case w.dcs == 4 || w.dcs == 8:
		sameBytes(p.UD, msg, "octets are sent as they are")
	case w.chars:
		nh++
		vp.Assert(len(p.UDH) == nh && p.UDH[nh-1].ID == 24 && len(p.UD) == 4, "the character set is used")
	default:
		w.dcs |= 8
		sameBytes(p.UD, []byte{0x09, 0xe6, 0x09, 0xe7}, "UCS-2")
	}
	vp.Assert(p.SmsType() == w.st, "the last type")
	vp.Assert(byte(p.DCS) == w.dcs, "the last coding scheme")
	vp.Assert(p.PID == w.pid, "the template")
	vp.Assert(p.DA.Addr == w.da && p.OA.Addr == w.oa, "the last addresses")
	vp.Assert(w.da == "" || p.DA.TOA == 0x91, "an international number")
	vp.Assert(w.oa == "" || p.OA.TOA == 0x91, "an international number")
	vp.Assert(len(p.UDH) == nh && (!w.header || p.UDH[0].ID == 0x70), "the header")
	vp.Assert(p.UDHI() == (nh > 0), "the header is announced")
}
