package h

import (
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// udField is an arbitrary user data field: what goes in the TPDU and the
// octets 3GPP TS 23.040 9.2.3.24 gives it.
type udField struct {
	dcs byte
	udh tpdu.UserDataHeader
	ud  []byte
	oct []byte
}

// symDCS is an arbitrary data coding scheme with the given alphabet.
func symDCS(alpha int) byte {
	d := vp.Byte()
	a, _, _ := dcsRef(d)
	vp.Assume(a == alpha)
	return d
}

// symUD is an arbitrary user data field of an alphabet.
func symUD(alpha, elements, units int) udField {
	var f udField
	f.dcs = symDCS(alpha)
	if elements > 0 {
		f.udh = symUDH(elements, 0, vp.Param("header data octets", 3, 6))
	}
	n := vp.Range(0, units)
	switch alpha {
	case 0:
		f.ud = septets(n)
	case 1:
		f.ud = vp.Bytes(n)
	case 2:
		f.ud = vp.Bytes(n * 2)
	}
	f.oct = udFieldRef(alpha, f.udh, f.ud)
	return f
}

// udFieldRef is the field with its length.
func udFieldRef(alpha int, u tpdu.UserDataHeader, ud []byte) []byte {
	h := udhRef(u)
	if alpha != 0 {
		return append(append([]byte{byte(len(h) + len(ud))}, h...), ud...)
	}
	fill := (7 - len(h)%7) % 7
	l := len(h) * 8 / 7
	if len(ud) > 0 {
		l = (len(h)*8+6)/7 + len(ud)
	}
	return append(append([]byte{byte(l)}, h...), packRef(ud, fill)...)
}

// liteStamp is a timestamp with a fixed date and zone and an arbitrary time.
func liteStamp() (tpdu.Timestamp, []byte) {
	o := []byte{0x62, 0x11, 0x81, bcdRef(vp.Int(0, 23)), bcdRef(vp.Int(0, 59)), bcdRef(vp.Int(0, 59)), 0x23}
	if vp.Choose(2) == 1 {
		o[6] = 0x8a
	}
	var t tpdu.Timestamp
	vp.Assert(t.UnmarshalBinary(o) == nil, "a timestamp decodes")
	return t, o
}

func sameStamp(got tpdu.Timestamp, o []byte, what string) {
	b, err := got.MarshalBinary()
	vp.Assert(err == nil, what+" encodes")
	sameBytes(b, o, what)
}

func symFO(st tpdu.SmsType, udh tpdu.UserDataHeader) tpdu.FirstOctet {
	fo := tpdu.FirstOctet(vp.Byte()&0xbc) | tpdu.FirstOctet(st>>1)
	if len(udh) > 0 {
		fo |= 0x40
	}
	return fo
}

func sameAddr(got, want tpdu.Address, what string) {
	vp.Assert(got.TOA == want.TOA, what+": type")
	vp.Assert(vp.EqStr(got.Addr, want.Addr), what+": digits")
}

// checkTPDU marshals t, compares with the octets, unmarshals and compares what
// is common to all types.
func checkTPDU(t *tpdu.TPDU, want []byte) *tpdu.TPDU {
	b, err := t.MarshalBinary()
	vp.Assert(err == nil, "it marshals")
	sameBytes(b, want, "TPDU octets")
	vp.ObsBytes("octets", b)
	r := &tpdu.TPDU{Direction: t.Direction}
	err = r.UnmarshalBinary(clone(want))
	vp.Assert(err == nil, "it unmarshals")
	vp.Assert(r.FirstOctet == t.FirstOctet, "first octet survives")
	vp.Assert(r.SmsType() == t.SmsType(), "type survives")
	return r
}

func sameUD(r *tpdu.TPDU, f udField) {
	sameUDH(r.UDH, f.udh, "user data header")
	sameBytes(r.UD, f.ud, "user data")
}

func alphaUD(what int) udField {
	return symUD(vp.Choose(3), vp.Range(0, vp.Param("header elements", 1, 2)), vp.Param("user data units", what, what+7))
}

// C11_Deliver: SMS-DELIVER.
func C11_Deliver() {
	f := alphaUD(9)
	t := &tpdu.TPDU{Direction: tpdu.MT, FirstOctet: symFO(tpdu.SmsDeliver, f.udh), OA: numAddr(vp.Range(0, vp.Param("digits", 2, 5))),
		PID: vp.Byte(), DCS: tpdu.DCS(f.dcs), UDH: f.udh, UD: f.ud}
	ts, so := liteStamp()
	t.SCTS = ts
	w := append([]byte{byte(t.FirstOctet)}, addrRef(t.OA)...)
	w = append(w, t.PID, f.dcs)
	w = append(w, so...)
	w = append(w, f.oct...)
	r := checkTPDU(t, w)
	sameAddr(r.OA, t.OA, "originating address")
	vp.Assert(r.PID == t.PID && r.DCS == t.DCS, "protocol and coding survive")
	sameStamp(r.SCTS, so, "service centre timestamp")
	sameUD(r, f)
}

// symVP is an arbitrary validity period and its octets.
func symVP() (tpdu.ValidityPeriod, []byte) {
	var v tpdu.ValidityPeriod
	var o []byte
	f := vp.Choose(4)
	switch f {
	case 1: // enhanced
		o = enhanced(byte(vp.Choose(4)))
	case 2: // relative
		o = []byte{vp.Byte()}
	case 3: // absolute
		_, o = liteStamp()
	}
	n, err := v.UnmarshalBinary(o, tpdu.ValidityPeriodFormat(f))
	vp.Assert(err == nil && n == len(o), "a validity period decodes")
	return v, o
}

// C11_Submit: SMS-SUBMIT, with each kind of validity period.
func C11_Submit() {
	v, vo := symVP()
	f := symUD(vp.Choose(3), vp.Range(0, 1), vp.Param("user data units", 2, 8))
	t := &tpdu.TPDU{Direction: tpdu.MO, FirstOctet: symFO(tpdu.SmsSubmit, f.udh), MR: vp.Byte(), DA: numAddr(vp.Range(0, vp.Param("digits", 1, 5))),
		PID: vp.Byte(), DCS: tpdu.DCS(f.dcs), UDH: f.udh, UD: f.ud}
	fo := t.FirstOctet
	t.SetVP(v)
	vp.Assert(t.FirstOctet == fo&^0x18|tpdu.FirstOctet(v.Format)<<3, "setting the validity period sets its format and nothing else")
	w := append([]byte{byte(t.FirstOctet), t.MR}, addrRef(t.DA)...)
	w = append(w, t.PID, f.dcs)
	w = append(w, vo...)
	w = append(w, f.oct...)
	r := checkTPDU(t, w)
	sameAddr(r.DA, t.DA, "destination address")
	vp.Assert(r.MR == t.MR && r.PID == t.PID && r.DCS == t.DCS, "reference, protocol and coding survive")
	vp.Assert(r.VP.Format == v.Format, "validity period format survives")
	if v.Format != 0 {
		ro, err := r.VP.MarshalBinary()
		vp.Assert(err == nil, "validity period encodes")
		sameBytes(ro, vo, "validity period survives")
	}
	sameUD(r, f)
}

// reportTail is the optional end of a report: the parameter indicator, what it
// announces, and the octets (after the indicator).
func reportTail(t *tpdu.TPDU, units int) (udField, []byte) {
	t.PI = tpdu.PI(vp.Byte()) &^ 7
	var f udField
	var o []byte
	m := vp.Choose(8)
	if m&1 != 0 {
		t.SetPID(vp.Byte())
		o = append(o, t.PID)
	}
	alpha := 0
	if m&2 != 0 && m&4 != 0 {
		alpha = vp.Choose(3)
	}
	el := 0
	if m&4 != 0 {
		el = vp.Range(0, 1)
	} else {
		units = 0
	}
	f = symUD(alpha, el, units)
	if m&2 != 0 {
		t.SetDCS(f.dcs)
		o = append(o, f.dcs)
	}
	t.FirstOctet = symFO(t.SmsType(), f.udh)
	if m&4 != 0 {
		t.SetUD(append([]byte{}, f.ud...))
		if f.udh != nil {
			t.SetUDH(f.udh)
		}
		o = append(o, f.oct...)
	}
	want := tpdu.PI(m&1<<0 | m&2 | m&4)
	vp.Assert(t.PI&7 == want<<0, "the parameter indicator announces what was set")
	return f, o
}

func sameTail(r, t *tpdu.TPDU, f udField) {
	vp.Assert(r.PI == t.PI, "parameter indicator survives")
	vp.Assert(r.PID == t.PID, "protocol survives")
	vp.Assert(r.DCS == t.DCS, "coding survives")
	sameUD(r, f)
}

// C11_DeliverReport: SMS-DELIVER-REPORT for RP-ERROR.
func C11_DeliverReport() {
	t := &tpdu.TPDU{}
	t.SetSmsType(tpdu.SmsDeliverReport)
	f, o := reportTail(t, vp.Param("user data units", 3, 9))
	t.FCS = vp.Byte()
	w := append([]byte{byte(t.FirstOctet), t.FCS, byte(t.PI)}, o...)
	if t.FCS == 0 {
		vp.Cover("RP-ACK")
		w = append([]byte{byte(t.FirstOctet), byte(t.PI)}, o...)
		b, err := t.MarshalBinary()
		vp.Assert(err == nil, "it marshals")
		sameBytes(b, w, "TPDU octets")
		r := &tpdu.TPDU{Direction: t.Direction}
		err = r.UnmarshalBinary(b)
		vp.AssertK("KF1", true, vp.And(err == nil, vp.And(r.FCS == 0, r.PI == t.PI)), "a report for RP-ACK survives")
		return
	}
	r := checkTPDU(t, w)
	vp.Assert(r.FCS == t.FCS, "failure cause survives")
	sameTail(r, t, f)
}

// C11_SubmitReport: SMS-SUBMIT-REPORT for RP-ERROR.
func C11_SubmitReport() {
	t := &tpdu.TPDU{}
	t.SetSmsType(tpdu.SmsSubmitReport)
	f, o := reportTail(t, vp.Param("user data units", 2, 9))
	ts, so := liteStamp()
	t.SCTS = ts
	t.FCS = vp.Byte()
	w := append([]byte{byte(t.FirstOctet), t.FCS, byte(t.PI)}, append(so, o...)...)
	if t.FCS == 0 {
		vp.Cover("RP-ACK")
		w = append([]byte{byte(t.FirstOctet), byte(t.PI)}, append(so, o...)...)
		b, err := t.MarshalBinary()
		vp.Assert(err == nil, "it marshals")
		sameBytes(b, w, "TPDU octets")
		r := &tpdu.TPDU{Direction: t.Direction}
		err = r.UnmarshalBinary(b)
		vp.AssertK("KF1", true, vp.And(err == nil, vp.And(r.FCS == 0, r.PI == t.PI)), "a report for RP-ACK survives")
		return
	}
	r := checkTPDU(t, w)
	vp.Assert(r.FCS == t.FCS, "failure cause survives")
	sameStamp(r.SCTS, so, "service centre timestamp")
	sameTail(r, t, f)
}

// C11_StatusReport: SMS-STATUS-REPORT.
func C11_StatusReport() {
	t := &tpdu.TPDU{}
	t.SetSmsType(tpdu.SmsStatusReport)
	f, o := reportTail(t, vp.Param("user data units", 2, 9))
	ts, so := liteStamp()
	ds, do := ts, so
	if vp.Choose(2) == 1 {
		ds, do = liteStamp()
	}
	t.SCTS, t.DT = ts, ds
	t.RA = numAddr(vp.Range(0, vp.Param("digits", 1, 5)))
	t.MR, t.ST = vp.Byte(), vp.Byte()
	w := append([]byte{byte(t.FirstOctet), t.MR}, addrRef(t.RA)...)
	w = append(append(w, so...), do...)
	w = append(w, t.ST)
	if t.PI != 0 {
		w = append(append(w, byte(t.PI)), o...)
	} else {
		vp.Cover("no parameters")
	}
	r := checkTPDU(t, w)
	sameAddr(r.RA, t.RA, "recipient address")
	vp.Assert(r.MR == t.MR && r.ST == t.ST, "reference and status survive")
	sameStamp(r.SCTS, so, "service centre timestamp")
	sameStamp(r.DT, do, "discharge time")
	sameTail(r, t, f)
}

// C11_Command: SMS-COMMAND.
func C11_Command() {
	var u tpdu.UserDataHeader
	if n := vp.Range(0, vp.Param("header elements", 1, 2)); n > 0 {
		u = symUDH(n, 0, 3)
	}
	cd := vp.Bytes(vp.Range(0, vp.Param("command octets", 4, 12)))
	t := &tpdu.TPDU{Direction: tpdu.MO, FirstOctet: symFO(tpdu.SmsCommand, u), MR: vp.Byte(), PID: vp.Byte(), CT: vp.Byte(), MN: vp.Byte(),
		DA: numAddr(vp.Range(0, vp.Param("digits", 2, 5))), DCS: tpdu.DCS(4), UDH: u, UD: cd}
	w := append([]byte{byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN}, addrRef(t.DA)...)
	w = append(w, udFieldRef(1, u, cd)...)
	r := checkTPDU(t, w)
	vp.Assert(r.MR == t.MR && r.PID == t.PID && r.CT == t.CT && r.MN == t.MN, "the fields survive")
	sameAddr(r.DA, t.DA, "destination address")
	sameUD(r, udField{udh: u, ud: cd})
}

// C11_Unsupported: reserved types, user data that is not whole UCS-2
// characters and reserved codings are refused.
func C11_Unsupported() {
	fo := tpdu.FirstOctet(vp.Byte())
	dir := tpdu.Direction(vp.Choose(2))
	t := &tpdu.TPDU{Direction: dir, FirstOctet: fo}
	_, err := t.MarshalBinary()
	if fo&3 == 3 {
		vp.Cover("reserved")
		vp.Assert(err != nil, "a reserved type does not marshal")
		var r tpdu.TPDU
		r.Direction = dir
		vp.Assert(r.UnmarshalBinary(append([]byte{byte(fo)}, vp.Bytes(3)...)) != nil, "a reserved type does not unmarshal")
		return
	}
	vp.Assert(t.SmsType() == tpdu.SmsType(int(fo&3)*2+int(dir)), "the type follows from the indicator and direction")
	d := vp.Byte()
	n := vp.Range(0, 3)
	s := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1, DCS: tpdu.DCS(d), UD: vp.Bytes(n)}
	_, err = s.MarshalBinary()
	a, _, _ := dcsRef(d)
	bad := vp.Or(a == 3, vp.And(a == 2, n%2 == 1))
	vp.Assert((err != nil) == bad, "exactly reserved codings and odd UCS-2 lengths are refused")
}

// C11_Long: user data that its length octet cannot count is refused, all else
// is marshalled in full.
func C11_Long() {
	var t tpdu.TPDU
	st := tpdu.SmsType(vp.Choose(6))
	t.SetSmsType(st)
	t.FCS = 1
	var alpha int
	if st == tpdu.SmsCommand {
		alpha = 1
	} else {
		alpha = vp.Choose(3)
	}
	t.SetDCS(byte(alpha << 2))
	t.OA.TOA, t.DA.TOA, t.RA.TOA = 0x91, 0x91, 0x91
	s, _ := liteStamp()
	t.SCTS, t.DT = s, s
	hl, l := 0, 0
	sizes := []int{20, 40, 63, 64, 100, 127, 128, 129, 140, 147, 160, 200, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258}
	switch vp.Choose(3) {
	case 1:
		t.SetUDH(tpdu.UserDataHeader{{ID: vp.Byte(), Data: vp.Bytes(2)}})
		hl = 5
	case 2:
		// long headers
		d := []int{11, 30, 59, 60, 61, 62, 63, 64, 65, 66, 123, 124, 125, 133, 134, 192, 249}[vp.Choose(17)]
		t.SetUDH(tpdu.UserDataHeader{{ID: vp.Byte(), Data: filled(d, vp.Byte())}, {ID: 0x70, Data: vp.Bytes(1)}})
		hl = d + 6
		sizes = []int{0, 1, 2, 7, 66}
	}
	n := sizes[vp.Choose(len(sizes))]
	if alpha == 2 {
		n &^= 1
	}
	t.SetUD(filled(n, byte(vp.Int(1, 0x1a))))
	l = hl + n
	if alpha == 0 {
		l = (hl*8+6)/7 + n
		if n == 0 {
			l = hl * 8 / 7
		}
	}
	b, err := t.MarshalBinary()
	if l > 255 {
		vp.Cover("too long")
		vp.Assert(err != nil && b == nil, "more user data than can be counted is refused")
		return
	}
	vp.Assert(err == nil, "it marshals")
	r := &tpdu.TPDU{Direction: t.Direction}
	vp.Assert(r.UnmarshalBinary(b) == nil, "it unmarshals")
	sameBytes(r.UD, t.UD, "user data")
	sameUDH(r.UDH, t.UDH, "header")
}
