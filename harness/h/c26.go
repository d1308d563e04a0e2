package h

import (
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

func stampOctets(t tpdu.Timestamp) []byte {
	b, err := t.MarshalBinary()
	vp.Assert(err == nil, "a timestamp that was unmarshalled marshals")
	return b
}

// again marshals what was unmarshalled from any octets of a type, unmarshals
// that and compares.
func again(st int) {
	vl := validity(st)
	min := fixedOctets[st] + vl
	n := vp.Range(min, min+vp.Param("octets more", 3, 6))
	b := symOctets(st, n, vp.Param("timestamp octets", 0, 2), vp.Param("address digits", 1, 3))
	announce(b, st, vl, vp.Param("validity octets", 0, 2))
	if st == 1 || st == 2 {
		vp.Assume(b[1] != 0) // KF1
	}
	t, err := unmarshal(st, b)
	if err != nil {
		return
	}
	if t.VP.Format == tpdu.VpfEnhanced && t.VP.EFI&7 == byte(tpdu.EvpfRelativeHHMMSS) {
		// not the hours that only minutes and seconds of 60 and more reach
		vp.Assume(t.VP.Duration.Hours() < 100)
	}
	if _, err := t.Alphabet(); err != nil {
		// a reserved coding is let pass when there is no user data
		vp.Assert(len(t.UD) == 0 && len(t.UDH) == 0, "a reserved coding has no user data")
		return
	}
	m, err := t.MarshalBinary()
	vp.Assert(err == nil, "what was unmarshalled marshals")
	vp.Assert(byte(t.FirstOctet) == b[0], "the first octet is as read")
	if al, _ := t.Alphabet(); al != tpdu.Alpha7Bit && len(t.UD)+len(t.UDH) > 0 && st != 5 {
		// nothing in octets is left to choose
		l := 1 + len(t.UD)
		if t.UDHI() {
			l += len(udhRef(t.UDH))
			if len(t.UDH) == 0 {
				vp.Cover("empty header")
				l++
			}
		}
		vp.Assert(l <= len(m) && l <= len(b), "the user data is no longer than the TPDU")
		sameBytes(m[len(m)-l:], b[len(b)-l:], "user data in octets is written as it was read")
	}
	keep := clone(m)
	r, err := unmarshal(st, m)
	vp.Assert(err == nil, "what was marshalled unmarshals")
	vp.Assert(r.Direction == t.Direction && r.FirstOctet == t.FirstOctet, "type and flags")
	vp.Assert(vp.And(r.MR == t.MR, vp.And(r.PID == t.PID, r.DCS == t.DCS)), "reference, protocol and coding")
	vp.Assert(vp.And(vp.And(r.CT == t.CT, r.MN == t.MN), vp.And(r.ST == t.ST, vp.And(r.FCS == t.FCS, r.PI == t.PI))), "command, status, cause and parameters")
	sameAddr(r.OA, t.OA, "originating address")
	sameAddr(r.DA, t.DA, "destination address")
	sameAddr(r.RA, t.RA, "recipient address")
	switch st {
	case 0, 2:
		sameBytes(stampOctets(r.SCTS), stampOctets(t.SCTS), "timestamp")
	case 4:
		sameBytes(stampOctets(r.SCTS), stampOctets(t.SCTS), "timestamp")
		sameBytes(stampOctets(r.DT), stampOctets(t.DT), "discharge time")
	case 3:
		vp.Assert(r.VP.Format == t.VP.Format && r.VP.EFI == t.VP.EFI, "validity period format")
		switch t.VP.Format {
		case tpdu.VpfAbsolute:
			sameBytes(stampOctets(r.VP.Time), stampOctets(t.VP.Time), "validity time")
		default:
			vp.Assert(r.VP.Duration == t.VP.Duration, "validity period")
		}
	}
	sameUDH(r.UDH, t.UDH, "header")
	vp.Assert((r.UDH == nil) == (t.UDH == nil), "header is there or not")
	sameBytes(r.UD, t.UD, "user data")
	if len(t.UDH) > 0 {
		vp.Cover("header")
	}
	m, err = r.MarshalBinary()
	vp.Assert(err == nil, "it marshals again")
	sameBytes(m, keep, "and to the same octets")
	if k := len(keep) - 1; len(t.UD) > 0 && st != 3 {
		// what was copied from it stays when something else is read into it
		was := *r
		keep[k] ^= 1
		if r.UnmarshalBinary(keep) == nil {
			vp.Cover("read again")
		}
		sameBytes(was.UD, t.UD, "reading another TPDU leaves a copy of the first alone")
		sameUDH(was.UDH, t.UDH, "reading another TPDU leaves the header of a copy alone")
	}
}

// C26_Deliver: SMS-DELIVER.
func C26_Deliver() { again(0) }

// C26_DeliverReport: SMS-DELIVER-REPORT.
func C26_DeliverReport() { again(1) }

// C26_SubmitReport: SMS-SUBMIT-REPORT.
func C26_SubmitReport() { again(2) }

// C26_Submit: SMS-SUBMIT.
func C26_Submit() { again(3) }

// C26_StatusReport: SMS-STATUS-REPORT.
func C26_StatusReport() { again(4) }

// C26_Command: SMS-COMMAND.
func C26_Command() { again(5) }
