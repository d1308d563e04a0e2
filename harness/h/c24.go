package h

import (
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// symOctets is n arbitrary octets to be read as a TPDU of a type.  An address
// has up to a few digits, or more than there are octets; what is between is
// for C05.
func symOctets(st, n, stamps, most int) []byte {
	b := vp.Bytes(n)
	if n > 0 {
		vp.Assume(b[0]&3 == byte(st>>1))
	}
	at := []int{1, 0, 0, 2, 2, 5}[st]
	if at > 0 && at < n {
		vp.Assume(vp.Or(b[at] <= byte(most), int(b[at]) > 2*n))
	}
	// timestamps with one arbitrary octet, one of the last so many; C06 has the others
	for _, s := range stampsAt[st] {
		if at > 0 && n > s+7 {
			l := int(vp.Conc(vp.IteInt(b[at] > 20, 0, int(b[at]))))
			s += (l + 1) / 2
		}
		bad := stamps
		if s+7 <= n && n < s+9 {
			bad = vp.Choose(stamps + 1)
		}
		for i := 0; i < 7; i++ {
			if (bad == stamps || i != 6-bad) && s+i < n {
				b[s+i] = []byte{0x62, 0x11, 0x81, 0x32, 0x54, 0x00, 0x8a}[i]
			}
		}
	}
	return b
}

// stampsAt is where the timestamps are, without address digits.
var stampsAt = [][]int{{5}, nil, {3}, nil, {4, 11}, nil}

// fixedOctets is the length of a TPDU of each type without address digits, user
// data and what is optional.
var fixedOctets = []int{13, 3, 10, 7, 19, 8}

// validity is the length of the validity period of a SMS-SUBMIT.
func validity(st int) int {
	if st != 3 {
		return 0
	}
	return []int{0, 7, 1}[vp.Choose(3)]
}

// announce restricts the first octet to what announces a validity period, and
// that to one with at most one arbitrary octet besides the first; C07 has the
// others.
func announce(b []byte, st, vl, free int) {
	if st != 3 || len(b) == 0 {
		return
	}
	f := b[0] >> 3 & 3
	switch vl {
	case 0:
		vp.Assume(f == 0)
	case 1:
		vp.Assume(f == 2)
	case 7:
		kind := vp.Choose(5)
		vp.Assume(f == vp.IteByte(kind == 4, 3, 1))
		at := 6
		if len(b) > 2 {
			l := int(vp.Conc(vp.IteInt(b[2] > 20, 0, int(b[2]))))
			at += (l + 1) / 2
		}
		bad := 7
		if len(b) >= at+7 && len(b) < at+9 {
			bad = 7 - vp.Choose(free+1)
		}
		for i := 0; i < 7; i++ {
			if at+i >= len(b) || i == bad {
				continue
			}
			v := []byte{0x62, 0x11, 0x81, 0x32, 0x54, 0x00, 0x8a}[i]
			if kind < 4 {
				v = 0
				switch i {
				case 0:
					v = vp.Byte()&^7 | byte(kind)
				case 1, 2, 3:
					if i == 1 && kind == 1 {
						continue
					}
					if kind == 3 || kind == 2 && i == 1 {
						v = 0x42
					}
				}
			}
			b[at+i] = v
		}
	}
}

func unmarshal(st int, b []byte) (*tpdu.TPDU, error) {
	if st&1 == 1 {
		return sms.Unmarshal(b, sms.AsMO)
	}
	if vp.Choose(2) == 1 {
		return sms.Unmarshal(b, sms.AsMT)
	}
	return sms.Unmarshal(b)
}

func useOctets(st int) {
	vl := validity(st)
	n := vp.Range(0, fixedOctets[st]+vl+vp.Param("octets more", 4, 6))
	if vl > 0 && n < 5 {
		return // as with no validity period
	}
	b := symOctets(st, n, 7, vp.Param("address digits", 2, 4))
	announce(b, st, vl, 7)
	keep := clone(b)
	t, err := unmarshal(st, b)
	sameBytes(b, keep, "the octets are not modified")
	if err != nil {
		vp.Cover("refused")
		vp.Assert(t == nil, "nothing is returned with an error")
		de, ok := err.(tpdu.DecodeError)
		vp.Assert(ok, "the error says what could not be decoded")
		vp.Assert(de.Offset >= 0 && de.Offset <= n, "the error is within the octets")
		vp.Assert(len(de.Field) > 0 && de.Err != nil, "the error names a field and a cause")
		return
	}
	vp.Cover("accepted")
	vp.Assert(n >= fixedOctets[st], "what is too short is refused")
	vp.Assert(int(t.SmsType()) == st, "the type is that of the first octet and direction")
	if t.UDBlockSize() < 0 {
		vp.Fail("room for user data is not negative")
	}
	if len(t.UD) <= 2 {
		vp.Cover("decoded")
		_, err = sms.Decode([]*tpdu.TPDU{t})
		vp.Assert(err == nil || t.DCS.String() != "", "decoding ends")
	}
	segs, seq, _, concat := t.ConcatInfo()
	c := sms.NewCollector()
	d, err := c.Collect(*t)
	if err == nil && d != nil {
		vp.Assert(!concat || segs < 2, "complete only when not one of several")
		vp.Assert(len(d) == 1, "one segment is one message")
	}
	if concat && segs > 1 && (seq < 1 || seq > segs) {
		vp.Assert(err == sms.ErrReassemblyInconsistency, "a segment that is not one of its message is refused")
	}
	vp.Assert(sms.IsCompleteMessage([]*tpdu.TPDU{t}) == (!concat || segs == 1 && seq == 1), "complete by itself or not")
	c.Close()
}

// C24_Direction: the last direction given is the one that counts, and that is
// to the mobile when none is.
func C24_Direction() {
	fo := vp.Byte()
	var opts []sms.UnmarshalOption
	mo := false
	for i := vp.Range(0, vp.Param("directions", 3, 5)); i > 0; i-- {
		if mo = vp.Choose(2) == 1; mo {
			opts = append(opts, sms.AsMO)
		} else {
			opts = append(opts, sms.AsMT)
		}
	}
	_, err := sms.Unmarshal([]byte{fo}, opts...)
	de, ok := err.(tpdu.DecodeError)
	vp.Assert(ok, "one octet is no TPDU")
	k := fo & 3
	vp.Assert((de.Field == "tpdu.firstOctet") == (k == 3), "no such type")
	if mo {
		vp.Assert(strings.HasPrefix(de.Field, "SmsDeliverReport.") == (k == 0), "type")
		vp.Assert(strings.HasPrefix(de.Field, "SmsSubmit.") == (k == 1), "type")
		vp.Assert(strings.HasPrefix(de.Field, "SmsCommand.") == (k == 2), "type")
	} else {
		vp.Assert(strings.HasPrefix(de.Field, "SmsDeliver.") == (k == 0), "type")
		vp.Assert(strings.HasPrefix(de.Field, "SmsSubmitReport.") == (k == 1), "type")
		vp.Assert(strings.HasPrefix(de.Field, "SmsStatusReport.") == (k == 2), "type")
	}
}

// C24_Deliver: any octets as SMS-DELIVER.
func C24_Deliver() { useOctets(0) }

// C24_DeliverReport: any octets as SMS-DELIVER-REPORT.
func C24_DeliverReport() { useOctets(1) }

// C24_SubmitReport: any octets as SMS-SUBMIT-REPORT.
func C24_SubmitReport() { useOctets(2) }

// C24_Submit: any octets as SMS-SUBMIT.
func C24_Submit() { useOctets(3) }

// C24_StatusReport: any octets as SMS-STATUS-REPORT.
func C24_StatusReport() { useOctets(4) }

// C24_Command: any octets as SMS-COMMAND.
func C24_Command() { useOctets(5) }

// C24_UserData: a user data field of up to the size of a TPDU is accepted
// exactly when its lengths agree with the octets there are, and is what they
// say.
func C24_UserData() {
	st := []int{0, 3, 4, 1, 2}[vp.Choose(vp.Param("types", 2, 5))]
	var b []byte
	alpha := vp.Choose(3)
	udhi := vp.Choose(2) == 1
	fo := byte(st/2) | vp.Byte()&0x24
	if udhi {
		fo |= 0x40
	}
	dcs := byte(alpha << 2)
	switch st {
	case 0:
		b = []byte{fo, 2, 0x91, 0x21, 0, dcs, 0x62, 0x11, 0x81, 0x32, 0x54, 0, 0}
	case 3:
		b = []byte{fo, 9, 2, 0x91, 0x21, 0, dcs}
	case 4:
		b = []byte{fo, 9, 2, 0x91, 0x21, 0x62, 0x11, 0x81, 0x32, 0x54, 0, 0, 0x62, 0x11, 0x81, 0x32, 0x54, 0, 0, 1, 6, dcs}
	case 1:
		b = []byte{fo, 1, 6, dcs}
	case 2:
		b = []byte{fo, 1, 6, 0x62, 0x11, 0x81, 0x32, 0x54, 0, 0, dcs}
	}
	n := []int{7, 140, 8, 1, 14, 35, 0, 2, 6, 9, 15, 21, 70, 139, 141, 224, 255}[vp.Choose(vp.Param("sizes", 3, 17))]
	ud := filled(n, 0x11)
	udl, h, l := vp.Byte(), vp.Byte(), vp.Byte()
	last := vp.Byte()
	if n > 0 {
		ud[n-1] = last
	}
	// two elements at most
	l2 := 0
	if udhi && n > 0 {
		ud[0] = h
		if n > 2 {
			ud[1], ud[2] = 0x70, l
		}
		vp.Assume(vp.Or(int(h) <= 3, vp.Or(int(h) == n-1, vp.Or(int(h) == n-2, vp.Or(int(h) == n, int(h) == n/2)))))
		hc := vp.Conc(int(h))
		vp.Assume(vp.Or(int(l) <= 1, vp.Or(int(l) == hc-2, vp.Or(int(l) == hc-4, vp.Or(int(l) == hc-1, int(l) == hc-5)))))
		lc := vp.Conc(int(l))
		if at := 4 + lc; hc >= 2 && at < n {
			l2 = hc - lc - 4
			if l2 < 0 {
				l2 = 0
			}
			ud[at] = byte(l2)
		}
	}
	b = append(append(b, udl), ud...)
	t, err := unmarshal(st, clone(b))
	if udl == 0 {
		vp.Assert(err == nil && len(t.UD) == 0 && len(t.UDH) == 0, "no user data")
		return
	}
	oct := int(udl)
	if alpha == 0 {
		oct = (oct*7 + 7) / 8
	}
	if oct != n {
		vp.Assert(err != nil && t == nil, "a length that does not agree with the octets is refused")
		return
	}
	hl := 0 // octets of the header
	if udhi {
		hl = int(ud[0]) + 1
		ok := hl <= n
		if ok {
			at := 1
			for at < hl && ok {
				ok = at+2 <= hl
				if ok {
					at += 2 + int(ud[at+1])
					ok = at <= hl
				}
			}
		}
		if !ok {
			vp.Assert(err != nil && t == nil, "a header whose lengths do not agree is refused")
			return
		}
	}
	m := ud[hl:]
	switch alpha {
	case 2:
		if len(m)%2 == 1 {
			vp.Assert(err != nil && t == nil, "half a character is refused")
			return
		}
	case 0:
		fill := (7 - hl%7) % 7
		k := int(vp.Conc(int(udl))) - (hl*8+6)/7
		var u []byte
		bit := func(i int) byte { return m[i/8] >> (i % 8) & 1 }
		for i := fill; i+7 <= len(m)*8; i += 7 {
			var s byte
			for j := range 7 {
				s |= bit(i+j) << j
			}
			u = append(u, s)
		}
		if len(m) == 0 {
			k = 0
		}
		if len(u) > k && u[k] != 0 {
			vp.Assert(err != nil && t == nil, "a septet more than the length says is refused")
			return
		}
		m = u[:k]
	}
	vp.Cover("accepted")
	vp.Assert(err == nil, "user data whose lengths agree is accepted")
	sameBytes(t.UD, m, "user data")
	vp.Assert(len(udhRef(t.UDH)) == hl || hl == 1 && len(t.UDH) == 0, "header")
}
