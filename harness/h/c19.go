// Schedules.

package h

import (
	"sync"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// tally is a counter that starts anywhere.
type tally struct{ n int }

func (t *tally) Count() int {
	t.n++
	return t.n
}

// counters is an option that gives an encoder its counters.
type counters struct{ msg, ref tpdu.Counter }

func (c counters) ApplyEncoderOption(e *sms.Encoder) {
	e.MsgCount, e.ConcatRef = c.msg, c.ref
}

// msgKind is a message to encode and what should come of it.
type msgKind struct {
	text  []byte
	opts  []sms.EncoderOption
	st    tpdu.SmsType
	dcs   byte
	da    string
	oa    string
	parts int // segments
	size  int // of each but the last
	hdr   int // elements besides the concatenation element
	err   error
}

// kinds are the messages for an encoder that makes SMS-SUBMITs to 123.
func msgOf(k int) msgKind {
	m := msgKind{st: tpdu.SmsSubmit, da: "123", parts: 1}
	c := byte(vp.Int('a', 'z'))
	switch k {
	case 0: // short
		m.text = []byte{c}
	case 1: // long
		m.text = filled(161, c)
		m.parts, m.size = 2, 153
	case 2: // 8-bit by option
		m.text = filled(141, c)
		m.opts = []sms.EncoderOption{sms.As8Bit}
		m.dcs, m.parts, m.size = 4, 2, 134
	case 3: // another type and address by option
		m.text = []byte{c}
		m.opts = []sms.EncoderOption{sms.AsDeliver, sms.From("456")}
		m.st, m.oa = tpdu.SmsDeliver, "456"
	case 4: // character sets by option
		m.text = []byte("\u09e6\u09e7")
		m.opts = []sms.EncoderOption{sms.WithCharset(4)}
		m.hdr = 1
	case 5: // nothing
		m.parts = 0
	case 6: // UCS-2 where there is no such coding
		m.text = []byte("\u2318")
		m.opts = []sms.EncoderOption{sms.WithTemplateOption(tpdu.DCS(0xf1))}
		m.err = sms.ErrDcsConflict
	case 7: // UCS-2, three parts
		m.text = nil
		for i := 0; i < 135; i++ {
			m.text = append(m.text, "\u2318"...)
		}
		m.dcs, m.parts, m.size = 8, 3, 134
	case 8: // the same characters, without the option for them
		m.text = []byte("\u09e6\u09e7")
		m.dcs = 8
	case 9: // template replaced by option
		m.text = []byte{c}
		t, _ := tpdu.New(tpdu.SmsDeliver, tpdu.WithOA(tpdu.NewAddress(tpdu.FromNumber("789"))))
		m.opts = []sms.EncoderOption{sms.WithTemplate(*t)}
		m.st, m.da, m.oa = tpdu.SmsDeliver, "", "789"
	case 10, 11, 12, 13, 14: // nothing, in other ways
		m.parts = 0
		m.text = [][]byte{nil, {}}[vp.Choose(2)]
		m.opts = [][]sms.EncoderOption{
			{sms.As8Bit},
			{sms.AsUCS2, sms.WithTemplateOption(tpdu.WithUDH(bigHeader(5)))},
			{sms.WithTemplateOption(tpdu.WithUDH(bigHeader(4)))},
			{sms.WithAllCharsets, sms.WithTemplateOption(tpdu.WithUDH(tpdu.UserDataHeader{}))},
			{sms.WithTemplateOption(tpdu.DCS(0xf1)), sms.AsDeliver},
		}[k-10]
	case 15: // with a header
		m.text = []byte{c}
		m.opts = []sms.EncoderOption{sms.WithTemplateOption(tpdu.WithUDH(tpdu.UserDataHeader{{ID: 0x70, Data: []byte{1}}}))}
		m.hdr = 1
	case 16: // 8-bit, with a header, two parts
		m.text = filled(140, c)
		m.opts = []sms.EncoderOption{sms.As8Bit, sms.WithTemplateOption(tpdu.WithUDH(tpdu.UserDataHeader{{ID: 0x70, Data: []byte{1}}}))}
		m.dcs, m.parts, m.size, m.hdr = 4, 2, 131, 1
	case 17: // a header that leaves no room
		m.text = filled(8, c)
		m.opts = []sms.EncoderOption{sms.As8Bit, sms.WithTemplateOption(tpdu.WithUDH(bigHeader(3)))}
		m.err = tpdu.ErrOverlength
	}
	return m
}

func filled(n int, c byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return b
}

// check looks at what came of a message.  It gives the message references and
// the concatenation reference.
func (m msgKind) check(pdus []tpdu.TPDU, err error) (mrs []byte, ref int) {
	if m.err != nil {
		vp.Assert(err == m.err && pdus == nil, "what cannot be encoded is refused")
		return nil, -1
	}
	vp.Assert(err == nil, "it encodes")
	vp.Assert(len(pdus) == m.parts, "number of segments")
	ref = -1
	total := 0
	for i := range pdus {
		p := &pdus[i]
		mrs = append(mrs, p.MR)
		vp.Assert(p.SmsType() == m.st, "type")
		vp.Assert(byte(p.DCS) == m.dcs, "data coding scheme")
		vp.Assert(p.DA.Addr == m.da && p.OA.Addr == m.oa, "addresses")
		segs, seq, cr, ok := p.ConcatInfo()
		if m.parts == 1 {
			vp.Assert(!ok, "a message of one segment is not marked as one of several")
			vp.Assert(len(p.UDH) == m.hdr, "elements of the header")
			continue
		}
		vp.Assert(ok && segs == m.parts && seq == i+1, "segments are numbered")
		vp.Assert(len(p.UDH) == m.hdr+1, "elements of the header")
		vp.Assert(i == 0 || cr == ref, "segments of a message share the reference")
		vp.Assert(i == m.parts-1 || len(p.UD) == m.size, "segments are full")
		ref = cr
		total += len(p.UD)
	}
	if m.dcs != 8 && m.hdr == 0 && m.parts > 1 {
		vp.Assert(total == len(m.text), "nothing is lost")
		for i := range pdus {
			for _, x := range pdus[i].UD {
				vp.Assert(x == m.text[0], "content")
			}
		}
	}
	return mrs, ref
}

// C19_History: whatever an encoder encoded before, message references count
// segments, concatenation references count messages of several segments, and
// options for one message do not affect the next.
func C19_History() {
	e := sms.NewEncoder(sms.AsSubmit, sms.To("123"))
	start := 0
	var msgs, refs int
	if vp.Choose(2) == 1 {
		// counters that are elsewhere already
		start = vp.Int(0, 1000)
		refs = vp.Int(0, 1000)
		msgs = start
		if vp.Choose(2) == 1 {
			e = sms.NewEncoder(sms.AsSubmit, counters{&tally{start}, &tally{refs}}, sms.To("123"))
		} else {
			e.MsgCount, e.ConcatRef = &tally{start}, &tally{refs}
		}
	}
	n := vp.Param("messages", 4, 5)
	for i := 0; i < n; i++ {
		m := msgOf(vp.Choose(10))
		mrs, ref := m.check(e.Encode(m.text, m.opts...))
		for _, mr := range mrs {
			msgs++
			vp.Assert(mr == byte(msgs), "message references are consecutive")
		}
		if m.parts > 1 {
			vp.Cover("several segments")
			refs++
			vp.Assert(ref == refs&0xff, "each message of several segments has the next reference")
		}
	}
	if c, ok := e.MsgCount.(*sms.Counter); ok {
		vp.Assert(c.Read() == msgs, "the message counter has counted the segments")
		vp.Assert(e.ConcatRef.(*sms.Counter).Read() == refs, "the reference counter has counted the messages")
	}
}

// C19_Kinds: as C19_History, for shorter sequences of more kinds of messages.
func C19_Kinds() {
	e := sms.NewEncoder(sms.AsSubmit, sms.To("123"))
	var msgs, refs int
	n := vp.Param("messages", 2, 3)
	for i := 0; i < 2*n; i++ {
		m := msgOf(i & 1)
		if i&1 == 0 {
			m = msgOf(vp.Choose(18))
		}
		mrs, ref := m.check(e.Encode(m.text, m.opts...))
		for _, mr := range mrs {
			msgs++
			vp.Assert(mr == byte(msgs), "message references are consecutive")
		}
		if m.parts > 1 {
			refs++
			vp.Assert(ref == refs&0xff, "each message of several segments has the next reference")
		}
	}
	vp.Assert(e.MsgCount.(*sms.Counter).Read() == msgs, "the message counter has counted the segments")
	vp.Assert(e.ConcatRef.(*sms.Counter).Read() == refs, "the reference counter has counted the messages")
}

// C19_Many: the numbering goes on past the ends of its octets.
func C19_Many() {
	e := sms.NewEncoder(sms.AsSubmit, sms.To("123"))
	msgs, refs := int(vp.I64()), int(vp.I64())
	start := vp.Choose(2) == 1
	if start {
		// counters that are anywhere
		vp.Assume(vp.And(msgs < 1<<62, refs < 1<<62))
		e.MsgCount, e.ConcatRef = &tally{msgs}, &tally{refs}
	} else {
		vp.Assume(vp.And(msgs == 0, refs == 0))
		msgs, refs = 0, 0
	}
	n := 3
	if !start {
		if vp.Choose(2) == 1 {
			// the encoder's own counters have counted for something else
			msgs, refs = 250, vp.Param("counted before", 65533, 131069)
			for i := 0; i < msgs; i++ {
				vp.Assert(e.MsgCount.Count() == i+1, "a counter counts from one")
			}
			for i := 0; i < refs; i++ {
				vp.Assert(e.ConcatRef.Count() == i+1, "a counter counts from one")
			}
			n = 8
		} else {
			n = vp.Param("messages", 300, 1000)
		}
	}
	for i := 0; i < n; i++ {
		m := msgOf(i & 1)
		if start {
			m = msgOf(1)
		}
		mrs, ref := m.check(e.Encode(m.text, m.opts...))
		for _, mr := range mrs {
			msgs++
			vp.Assert(mr == byte(msgs), "message references are consecutive")
		}
		if m.parts > 1 {
			refs++
			vp.Assert(ref == refs&0xff, "each message of several segments has the next reference")
		}
	}
	vp.Assert(e.MsgCount.Count() == msgs+1 && e.ConcatRef.Count() == refs+1, "the counters go on counting")
}

// C19_Shared: encoders that share counters share the numbering.
func C19_Shared() {
	a := sms.NewEncoder(sms.AsSubmit, sms.To("123"))
	b := sms.NewEncoder(sms.AsSubmit, sms.To("123"))
	own := sms.NewEncoder(sms.AsSubmit, sms.To("123"))
	b.MsgCount, b.ConcatRef = a.MsgCount, a.ConcatRef
	msgs, refs := 0, 0
	for i := 0; i < vp.Param("messages", 4, 5); i++ {
		e := a
		if vp.Choose(2) == 1 {
			e = b
		}
		m := msgOf(vp.Choose(3))
		mrs, ref := m.check(e.Encode(m.text, m.opts...))
		for _, mr := range mrs {
			msgs++
			vp.Assert(mr == byte(msgs), "message references are consecutive")
		}
		if m.parts > 1 {
			refs++
			vp.Assert(ref == refs, "each message of several segments has the next reference")
		}
	}
	m := msgOf(1)
	mrs, ref := m.check(own.Encode(m.text))
	vp.Assert(mrs[0] == 1 && mrs[1] == 2 && ref == 1, "an encoder with its own counters starts at one")
	mrs, ref = m.check(sms.Encode(m.text, sms.To("123")))
	vp.Assert(mrs[0] == 1 && mrs[1] == 2 && ref == 1, "as does each message encoded without an encoder")
	c := counters{&tally{vp.Int(0, 1000)}, &tally{vp.Int(0, 1000)}}
	msgs, refs = c.msg.(*tally).n, c.ref.(*tally).n
	mrs, ref = m.check(sms.Encode(m.text, sms.To("123"), c))
	vp.Assert(mrs[0] == byte(msgs+1) && mrs[1] == byte(msgs+2) && ref == (refs+1)&0xff, "unless it is given counters")
	mrs, ref = m.check(own.Encode(m.text, c))
	vp.Assert(mrs[0] == byte(msgs+3) && mrs[1] == byte(msgs+4) && ref == (refs+2)&0xff, "which are shared by all that are given them")
	mrs, ref = m.check(own.Encode(m.text))
	vp.Assert(mrs[0] == 3 && mrs[1] == 4 && ref == 2, "for that message only")
}

// C19_Concurrent: one encoder used from several threads at once gives every
// segment its own message reference and every message of several segments its
// own reference, and encodes each as it would alone.
func C19_Concurrent() {
	b := vp.Param("preemptions", 2, 4)
	var e *sms.Encoder
	var ks [][]int
	switch vp.Choose(4) {
	case 0:
		e = sms.NewEncoder(sms.AsSubmit, sms.To("123"))
		ks = [][]int{{0, 1}, {1, 0}}
	case 1:
		// options that are lists with room for more
		e = sms.NewEncoder(sms.AsSubmit, sms.To("123"), sms.WithLockingCharset(5), sms.WithShiftCharset(5), sms.WithLockingCharset(6))
		ks = [][]int{{4}, {4}, {0}}
	case 2:
		udh := append(make(tpdu.UserDataHeader, 0, 4), tpdu.InformationElement{ID: 0x70, Data: []byte{1}})
		e = sms.NewEncoder(sms.AsSubmit, sms.To("123"), sms.WithTemplateOption(tpdu.WithUDH(udh)))
		ks = [][]int{{1}, {4}}
	case 3:
		e = sms.NewEncoder(sms.AsSubmit, sms.To("123"))
		ks = [][]int{{2}, {3}, {8}}
	}
	hdr := 0
	if len(ks[0]) == 1 && len(ks) == 2 {
		hdr = 1
	}
	var mu sync.Mutex
	var all []byte
	var refs []int
	want, multi := 0, 0
	vp.Explore(b, false)
	for _, th := range ks {
		var ms []msgKind
		for _, k := range th {
			m := msgOf(k)
			m.hdr += hdr
			if hdr > 0 && m.parts > 1 {
				m.size = 149
			}
			ms = append(ms, m)
			want += m.parts
			if m.parts > 1 {
				multi++
			}
		}
		vp.Go(func() {
			last := 0
			for _, m := range ms {
				mrs, ref := m.check(e.Encode(m.text, m.opts...))
				for _, mr := range mrs {
					vp.Assert(int(mr) > last, "references of a thread increase")
					last = int(mr)
				}
				mu.Lock()
				all = append(all, mrs...)
				if ref >= 0 {
					refs = append(refs, ref)
				}
				mu.Unlock()
			}
		})
	}
	vp.WaitAll()
	vp.StopExplore()
	vp.Assert(len(all) == want && len(refs) == multi, "every message was encoded")
	for i := 1; i <= want; i++ {
		n := 0
		for _, mr := range all {
			if int(mr) == i {
				n++
			}
		}
		vp.Assert(n == 1, "every segment has its own message reference")
	}
	for i := 1; i <= multi; i++ {
		n := 0
		for _, r := range refs {
			if r == i {
				n++
			}
		}
		vp.Assert(n == 1, "every message of several segments has its own reference")
	}
}
