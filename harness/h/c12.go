package h

import (
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// counter is the harness's own reference counter.
type counter struct{ start, n int }

func (c *counter) Count() int { c.n++; return c.start + c.n }

// blockRef is the room in a TPDU of at most max octets of user data for the
// message itself, in septets or octets, with a header of h octets (with its
// length).
func blockRef(max, alpha, h int) int {
	switch alpha {
	case 0:
		return max*8/7 - (h*8+6)/7
	case 1:
		return max - h
	}
	return (max - h) &^ 1
}

// unitStarts is, for each position, whether a character may start there, and
// whether a segment may stop one unit before there when it could be longer.
func unitStarts(alpha int, msg []byte) (s, short []bool) {
	s = make([]bool, len(msg)+1)
	short = make([]bool, len(msg)+1)
	s[0] = true
	switch alpha {
	case 0:
		for i := 1; i <= len(msg); i++ {
			// in the middle of a pair when the one before is an escape that starts one
			s[i] = vp.Not(vp.And(msg[i-1] == 0x1b, s[i-1]))
			short[i] = vp.Not(s[i])
		}
	case 1:
		for i := range s {
			s[i] = true
		}
	case 2:
		for i := 2; i <= len(msg); i += 2 {
			// a high surrogate is kept back even when no low one follows
			short[i] = msg[i-2]&0xfc == 0xd8
			s[i] = true
			if i < len(msg) {
				s[i] = vp.Not(vp.And(short[i], msg[i]&0xfc == 0xdc))
			}
		}
	}
	return
}

type segCase struct {
	alpha, n, single, multi int
	t                       tpdu.TPDU
	msg                     []byte
	wide                    bool
	// tight is set when there may be no room for some part of the message
	tight  bool
	mr, cr *counter
	// spare is memory of the caller beyond the end of the template's header
	spare []tpdu.InformationElement
}

// run segments and checks everything the property says.
func (c *segCase) run() []tpdu.TPDU {
	t := c.t
	keepMsg := clone(c.msg)
	keepUDH := cloneUDH(t.UDH)
	var opts []tpdu.SegmentationOption
	if c.wide {
		opts = append(opts, tpdu.With16BitConcatRef)
	}
	if c.mr != nil {
		opts = append(opts, tpdu.WithMR(c.mr))
	}
	if c.cr != nil {
		opts = append(opts, tpdu.WithConcatRef(c.cr))
	}
	out := c.t.Segment(c.msg, opts...)
	sameBytes(c.msg, keepMsg, "the message is not modified")
	sameUDH(t.UDH, keepUDH, "the template's header is not modified")
	for _, ie := range c.spare {
		vp.Assert(ie.ID == 0xee && ie.Data == nil, "memory beyond the template's header is not written to")
	}
	if len(c.msg) == 0 {
		vp.Assert(len(out) == 0, "nothing to send")
		return out
	}
	if len(c.msg) <= c.single {
		vp.Cover("single")
		vp.Assert(len(out) == 1, "a message that fits is one TPDU")
		sameBytes(out[0].UD, keepMsg, "the message is the user data")
		sameUDH(out[0].UDH, keepUDH, "single segment header")
		vp.Assert(out[0].FirstOctet == t.FirstOctet, "first octet of a single segment")
		if c.mr != nil {
			vp.Assert(c.mr.n == 1 && out[0].MR == byte(c.mr.start+1), "message reference is counted")
		} else {
			vp.Assert(out[0].MR == t.MR, "message reference of the template")
		}
		if c.cr != nil {
			vp.Assert(c.cr.n == 0, "no concatenation reference is used")
		}
	} else if c.tight && out == nil {
		vp.Cover("no room")
		if c.multi > 0 {
			// there is room for some units but not for one that has to be
			// kept with the next
			starts, short := unitStarts(c.alpha, keepMsg)
			unit := 1
			if c.alpha == 2 {
				unit = 2
			}
			vp.Assert(c.multi == unit, "a message that there is room for is segmented")
			stuck := false
			for i := unit; i < len(keepMsg); i += unit {
				stuck = vp.Or(stuck, vp.Or(short[i], vp.Not(starts[i])))
			}
			vp.Assert(stuck, "a message that there is room for is segmented")
		}
		vp.Assert(c.mr == nil || c.mr.n == 0 && c.cr.n == 0, "no reference is used")
	} else {
		vp.Cover("several")
		vp.Assert(len(out) >= 2, "a message that does not fit is split")
		ref := 1
		if c.cr != nil {
			vp.Assert(c.cr.n == 1, "one concatenation reference is used")
			ref = c.cr.start + 1
		}
		starts, short := unitStarts(c.alpha, keepMsg)
		pos := 0
		for i := range out {
			p := &out[i]
			vp.Assert(len(p.UD) > 0, "no segment is empty")
			vp.Assert(len(p.UD) <= c.multi, "a segment fits its TPDU")
			vp.Assert(pos+len(p.UD) <= len(keepMsg), "the segments are no longer than the message")
			sameBytes(p.UD, keepMsg[pos:pos+len(p.UD)], "the segments are the message in order")
			pos += len(p.UD)
			if i < len(out)-1 {
				vp.Assert(starts[pos], "no character is split between segments")
				// the unit after the end would not have fitted
				unit := 1
				if c.alpha == 2 {
					unit = 2
				}
				if len(p.UD)+unit <= c.multi {
					vp.Assert(len(p.UD)+2*unit > c.multi, "segments are as long as they can be")
					vp.Assert(short[pos+unit], "segments are as long as they can be")
				}
			}
			n := len(keepUDH)
			vp.Assert(len(p.UDH) == n+1, "the header is the template's and one more element")
			sameUDH(p.UDH[:n], keepUDH, "template elements")
			ie := p.UDH[n]
			want := []byte{byte(ref), byte(len(out)), byte(i + 1)}
			if c.wide {
				vp.Assert(ie.ID == 8, "16-bit reference element")
				want = []byte{byte(ref >> 8), byte(ref), byte(len(out)), byte(i + 1)}
			} else {
				vp.Assert(ie.ID == 0, "8-bit reference element")
			}
			sameBytes(ie.Data, want, "reference, count and sequence")
			vp.Assert(p.FirstOctet == t.FirstOctet|0x40, "the header indicator is set and nothing else")
			if c.mr != nil {
				vp.Assert(p.MR == byte(c.mr.start+i+1), "each segment has the next message reference")
			} else {
				vp.Assert(p.MR == t.MR, "message reference of the template")
			}
		}
		vp.Assert(pos == len(keepMsg), "nothing of the message is missing")
		if c.mr != nil {
			vp.Assert(c.mr.n == len(out), "as many message references as segments")
		}
	}
	for i := range out {
		p := &out[i]
		vp.Assert(p.Direction == t.Direction && p.PID == t.PID && p.DCS == t.DCS && p.FCS == t.FCS && p.ST == t.ST && p.CT == t.CT && p.MN == t.MN,
			"other fields are the template's")
		vp.Assert(vp.And(vp.EqStr(p.DA.Addr, t.DA.Addr), vp.EqStr(p.OA.Addr, t.OA.Addr)) && p.DA.TOA == t.DA.TOA && p.OA.TOA == t.OA.TOA, "addresses are the template's")
		vp.Assert(p.VP.Format == t.VP.Format && p.VP.Duration == t.VP.Duration, "validity is the template's")
	}
	return out
}

// segTemplate is a template whose header of el elements takes all but about
// room septets (alphabet 0) or octets of the user data of a multi-segment
// TPDU; room 0 is no header.
func segTemplate(alpha, room int) segCase {
	var c segCase
	c.alpha = alpha
	c.wide = vp.Choose(2) == 1
	ie := 5
	if c.wide {
		ie = 6
	}
	h := 0
	if room > 0 {
		// the longest header that leaves room
		for k := 3; blockRef(140, alpha, k+ie) >= room; k++ {
			h = k
		}
	}
	c.header(h, ie)
	return c
}

// room sets the sizes of a single segment and of one of several, of at most max
// octets of user data.
func (c *segCase) room(max, h, ie int) {
	c.single = blockRef(max, c.alpha, h)
	if h == 0 {
		ie++
	}
	c.multi = blockRef(max, c.alpha, h+ie)
}

// header is the rest of a template with a header of h octets that a
// concatenation element adds ie octets to.
func (c *segCase) header(h, ie int) {
	alpha := c.alpha
	if h == 1 {
		// a header of no elements
		c.t.UDH = []tpdu.UserDataHeader{nil, {}}[vp.Choose(2)]
	}
	if h > 1 {
		n := 1
		if h >= 9 {
			n = 3
		}
		arr := make([]tpdu.InformationElement, n+2)
		for i := range arr {
			arr[i].ID = 0xee
		}
		left := h - 1
		for i := n - 1; i >= 0; i-- {
			data := make([]byte, i)
			if i == 0 {
				data = make([]byte, left-2)
			}
			if len(data) > 0 {
				data[0] = vp.Byte()
			}
			arr[i] = tpdu.InformationElement{ID: vp.Byte(), Data: data}
			left -= 2 + len(data)
		}
		c.t.UDH = arr[:n]
		c.spare = arr[n:]
	}
	c.room(140, h, ie)
	st := tpdu.SmsDeliver
	if vp.Choose(2) == 1 {
		st = tpdu.SmsSubmit
	}
	c.t.SetSmsType(st)
	if h > 0 {
		c.t.FirstOctet |= 0x40
	}
	c.t.FirstOctet |= tpdu.FirstOctet(vp.Byte() & 0xbc)
	c.t.PID, c.t.MR = vp.Byte(), vp.Byte()
	switch alpha {
	case 0:
		c.t.DCS = 0
	case 1:
		c.t.DCS = 4
	case 2:
		c.t.DCS = 8
	}
	c.t.DA = tpdu.Address{TOA: vp.Byte(), Addr: vp.Str(1)}
	c.t.OA = tpdu.Address{TOA: vp.Byte(), Addr: vp.Str(1)}
	c.t.SetVP(tpdu.ValidityPeriod{Format: 2, Duration: 300e9})
	if vp.Choose(2) == 1 {
		c.mr = &counter{start: int(vp.U16())}
		c.cr = &counter{start: int(vp.U16())}
	}
}

// C12_Seven: GSM7 messages across segments of a few septets.
func C12_Seven() {
	room := []int{2, 3, 4, 7}[vp.Choose(vp.Param("block sizes", 3, 4))]
	c := segTemplate(0, room)
	c.msg = septets(vp.Range(0, vp.Param("septets", 11, 18)))
	c.run()
}

// C12_Eight: raw octets.
func C12_Eight() {
	c := segTemplate(1, vp.Range(1, vp.Param("largest block", 4, 8)))
	c.msg = vp.Bytes(vp.Range(0, vp.Param("octets", 16, 40)))
	c.run()
}

// C12_UCS2: UCS-2 characters, surrogate pairs among them.
func C12_UCS2() {
	c := segTemplate(2, 2*vp.Range(2, vp.Param("largest block", 3, 4)))
	c.msg = vp.Bytes(2 * vp.Range(0, vp.Param("characters", 9, 12)))
	c.run()
}

// C12_Full: messages around the sizes without a template header.
func C12_Full() {
	alpha := vp.Choose(3)
	c := segTemplate(alpha, 0)
	vp.Assume(c.single == []int{160, 140, 140}[alpha])
	segs := vp.Range(1, vp.Param("segments", 3, 6))
	d := vp.Range(-1, 1)
	n := c.single
	if segs > 1 {
		n = segs * c.multi
	}
	switch alpha {
	case 0:
		n += d
		c.msg = make([]byte, n)
		for i := range c.msg {
			c.msg[i] = 'x'
			if i%c.multi >= c.multi-4 {
				c.msg[i] = vp.Byte() & 0x7f
			}
		}
	case 1:
		n += d
		c.msg = vp.Bytes(n)
	case 2:
		n += 2 * d
		c.msg = make([]byte, n)
		for i := 0; i+1 < n; i += 2 {
			c.msg[i+1] = 'x'
			if i%c.multi >= c.multi-4 {
				c.msg[i], c.msg[i+1] = vp.Byte(), vp.Byte()
			}
		}
	}
	c.run()
}

// C12_EmptyHeader: a template with a header of no elements still has its length
// octet.
func C12_EmptyHeader() {
	c := segCase{alpha: vp.Choose(3), wide: vp.Choose(2) == 1}
	ie := 5
	if c.wide {
		ie = 6
	}
	c.header(1, ie)
	unit := 1
	if c.alpha == 2 {
		unit = 2
	}
	n := c.single
	if k := vp.Range(1, vp.Param("segments", 2, 3)); k > 1 {
		n = k * c.multi
	}
	c.msg = make([]byte, n+unit*vp.Range(-1, 1))
	for i := range c.msg {
		c.msg[i] = 0x42
	}
	for i := 0; i < 2*unit; i++ {
		c.msg[len(c.msg)-1-i] = vp.Byte()
		if c.alpha == 0 {
			c.msg[len(c.msg)-1-i] &= 0x7f
		}
	}
	c.run()
}

// C12_Reports: the types of TPDU that have a parameter indicator, or other room;
// what is sent has the user data of the segments in it.
func C12_Reports() {
	c := segCase{alpha: vp.Choose(3), wide: vp.Choose(2) == 1}
	ie := 5
	if c.wide {
		ie = 6
	}
	k := vp.Choose(6)
	if k == 5 {
		c.alpha = 1 // command data are octets
	}
	st := []tpdu.SmsType{tpdu.SmsDeliverReport, tpdu.SmsDeliverReport, tpdu.SmsSubmitReport, tpdu.SmsSubmitReport, tpdu.SmsStatusReport, tpdu.SmsCommand}[k]
	max := []int{159, 158, 152, 151, 131, 146}[k]
	// the longest header that leaves room for a few
	h := 0
	if vp.Choose(2) == 1 {
		for i := 3; blockRef(max, c.alpha, i+ie) >= 4; i++ {
			h = i
		}
	}
	c.header(h, ie)
	c.room(max, h, ie)
	c.t.SetSmsType(st)
	if k == 1 || k == 3 {
		c.t.FCS = vp.Byte() | 0x80
	}
	c.t.PI = tpdu.PI(vp.Byte())
	c.t.RA = c.t.DA
	n := c.single
	if h == 0 {
		if m := vp.Range(1, vp.Param("segments", 2, 3)); m > 1 {
			n = m * c.multi
		}
		n += 2 * vp.Range(-1, 1)
	} else {
		n = 2 * vp.Range(0, vp.Param("most pairs", 6, 10))
	}
	c.msg = make([]byte, n)
	for i := range c.msg {
		c.msg[i] = 0x42
	}
	for i := n - 4; i < n; i++ {
		if i >= 0 {
			c.msg[i] = vp.Byte()
			if c.alpha == 0 {
				c.msg[i] &= 0x7f
			}
		}
	}
	out := c.run()
	for i := range out {
		vp.Assert(out[i].PI&^4 == c.t.PI&^4, "the parameter indicator is the template's but for the user data")
		p := out[i]
		p.DA, p.RA = tpdu.Address{TOA: 0x91, Addr: "1"}, tpdu.Address{TOA: 0x91, Addr: "1"}
		b, err := p.MarshalBinary()
		vp.Assert(err == nil, "a segment marshals")
		// the user data field with its length
		h := udhRef(p.UDH)
		var want []byte
		if c.alpha == 0 {
			fill := (7 - len(h)*8%7) % 7
			want = append([]byte{byte((len(h)*8+fill)/7 + len(p.UD))}, h...)
			want = append(want, packRef(p.UD, fill)...)
		} else {
			want = append([]byte{byte(len(h) + len(p.UD))}, h...)
			want = append(want, p.UD...)
		}
		vp.Assert(len(b) > len(want), "the user data is sent")
		sameBytes(b[len(b)-len(want):], want, "the user data is sent")
	}
}

// C12_NoRoom: a template whose header leaves little or no room for the message.
func C12_NoRoom() {
	c := segCase{alpha: vp.Choose(3), wide: vp.Choose(2) == 1, tight: true}
	ie := 5
	if c.wide {
		ie = 6
	}
	h := []int{257, 140, 139}[vp.Choose(3)]
	if vp.Choose(2) == 1 {
		h = vp.Range(140-ie-vp.Param("octets of room", 4, 9), 140)
	}
	c.header(h, ie)
	unit := 1
	if c.alpha == 2 {
		unit = 2
	}
	n := unit * vp.Range(0, vp.Param("units", 5, 7))
	if c.alpha == 0 {
		c.msg = septets(n)
	} else {
		c.msg = vp.Bytes(n)
	}
	c.run()
}
