package h

import (
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// C23_FirstOctet: every first octet reads as the standard's flags, and setting
// the type or validity period format changes only those bits.
func C23_FirstOctet() {
	b := vp.Byte()
	f := tpdu.FirstOctet(b)
	vp.Assert(int(f.MTI()) == int(b&3), "message type")
	vp.Assert(f.MMS() == (b&4 != 0) && f.RD() == (b&4 != 0), "more messages, reject duplicates")
	vp.Assert(f.LP() == (b&8 != 0), "loop prevention")
	vp.Assert(byte(f.VPF()) == b>>3&3, "validity period format")
	vp.Assert(f.SRI() == (b&0x20 != 0) && f.SRR() == (b&0x20 != 0) && f.SRQ() == (b&0x20 != 0), "status report")
	vp.Assert(f.UDHI() == (b&0x40 != 0), "header indicator")
	vp.Assert(f.RP() == (b&0x80 != 0), "reply path")
	m := vp.Int(0, 3)
	vp.Assert(byte(f.WithMTI(tpdu.MessageType(m))) == b&^3|byte(m), "setting the message type")
	v := vp.Int(0, 3)
	vp.Assert(byte(f.WithVPF(tpdu.ValidityPeriodFormat(v))) == b&^0x18|byte(v)<<3, "setting the validity period format")
	p := tpdu.PI(b)
	vp.Assert(p.PID() == (b&1 != 0) && p.DCS() == (b&2 != 0) && p.UDL() == (b&4 != 0), "parameter indicator")
	t := tpdu.TPDU{FirstOctet: f, Direction: tpdu.Direction(vp.Int(0, 1))}
	vp.Assert(t.MTI() == f.MTI() && t.UDHI() == f.UDHI(), "the TPDU reports its first octet")
	vp.Assert(int(t.SmsType()) == int(b&3)<<1|int(t.Direction), "the type is that of message type and direction")
}

// setter is one change to a TPDU, its effect on first octet and indicator.
// C23_Setters: any sequence of setters and options leaves flags that agree
// with the fields, and changes nothing else.
func C23_Setters() {
	t := tpdu.TPDU{FirstOctet: tpdu.FirstOctet(vp.Byte()), PI: tpdu.PI(vp.Byte()), MR: vp.Byte(), Direction: tpdu.Direction(vp.Choose(2))}
	fo, pi, dir := byte(t.FirstOctet), byte(t.PI), t.Direction
	mr := t.MR
	var pid, dcs byte
	var udh tpdu.UserDataHeader
	var ud []byte
	da, oa := "", ""
	val := tpdu.ValidityPeriod{EFI: vp.Byte(), Duration: time.Duration(vp.I64())}
	t.VP = val
	n := vp.Range(1, vp.Param("changes", 3, 4))
	for i := 0; i < n; i++ {
		switch vp.Choose(9) {
		case 0:
			dcs = vp.Byte()
			if vp.Choose(2) == 0 {
				t.SetDCS(dcs)
			} else {
				vp.Assert(tpdu.DCS(dcs).ApplyTPDUOption(&t) == nil, "the option applies")
			}
			pi |= 2
		case 1:
			pid = vp.Byte()
			t.SetPID(pid)
			pi |= 1
		case 2:
			val = tpdu.ValidityPeriod{Format: tpdu.ValidityPeriodFormat(vp.Choose(4)), EFI: vp.Byte(), Duration: time.Duration(vp.I64())}
			t.SetVP(val)
			fo = fo&^0x18 | byte(val.Format)<<3
		case 3:
			ud = nil
			if k := vp.Choose(3); k > 0 {
				ud = vp.Bytes(k - 1)
			}
			t.SetUD(ud)
			if ud == nil {
				pi &^= 4
			} else {
				pi |= 4
			}
		case 4:
			udh = nil
			if k := vp.Choose(4); k == 3 {
				udh = tpdu.UserDataHeader{}
			} else if k > 0 {
				udh = symUDH(1, k, k)
			}
			if vp.Choose(2) == 0 {
				t.SetUDH(udh)
			} else {
				vp.Assert(tpdu.WithUDH(udh).ApplyTPDUOption(&t) == nil, "the option applies")
			}
			if udh == nil {
				fo &^= 0x40
			} else {
				fo |= 0x40
				pi |= 4
			}
		case 5:
			st := tpdu.SmsType(vp.Choose(6))
			if vp.Choose(2) == 0 {
				vp.Assert(t.SetSmsType(st) == nil, "a type is set")
			} else {
				vp.Assert(st.ApplyTPDUOption(&t) == nil, "the option applies")
			}
			fo = fo&^3 | byte(st)>>1
			dir = tpdu.Direction(st & 1)
			vp.Assert(t.SmsType() == st, "the type is the one set")
		case 6:
			bad := tpdu.SmsType(vp.I64())
			vp.Assume(vp.Or(bad < 0, bad > 5))
			vp.Assert(t.SetSmsType(bad) == tpdu.ErrInvalid, "what is not a type is refused")
		case 7:
			a := vp.Str(2)
			if vp.Choose(2) == 0 {
				da = a
				tpdu.WithDA(tpdu.Address{Addr: a}).ApplyTPDUOption(&t)
			} else {
				oa = a
				tpdu.WithOA(tpdu.Address{Addr: a}).ApplyTPDUOption(&t)
			}
		case 8:
			switch vp.Choose(2) {
			case 0:
				d := tpdu.Direction(vp.Choose(2))
				d.ApplyTPDUOption(&t)
				dir = d
			case 1:
				m := tpdu.MessageType(vp.Choose(4))
				m.ApplyTPDUOption(&t)
				fo = fo&^3 | byte(m)
			}
		}
	}
	vp.Assert(byte(t.FirstOctet) == fo, "first octet")
	vp.Assert(byte(t.PI) == pi, "parameter indicator")
	vp.Assert(t.Direction == dir, "direction")
	vp.Assert(t.MR == mr, "message reference")
	vp.Assert(byte(t.DCS) == dcs && t.PID == pid, "coding scheme and protocol")
	vp.Assert(t.VP.Format == val.Format && t.VP.EFI == val.EFI && t.VP.Duration == val.Duration, "validity period")
	sameUDH(t.UDH, udh, "header")
	sameBytes(t.UD, ud, "user data")
	vp.Assert(vp.And(vp.EqStr(t.DA.Addr, da), vp.EqStr(t.OA.Addr, oa)), "addresses")
}

// C23_New: a TPDU is made with the options applied in order.
func C23_New() {
	st := tpdu.SmsType(vp.Choose(6))
	h := symUDH(1, 1, 1)
	da := tpdu.Address{TOA: vp.Byte(), Addr: vp.Str(1)}
	oa := tpdu.Address{TOA: vp.Byte(), Addr: vp.Str(1)}
	d := tpdu.DCS(vp.Byte())
	opts := []tpdu.Option{tpdu.WithDA(da), tpdu.WithUDH(h), tpdu.WithOA(oa), d}
	var t *tpdu.TPDU
	var err error
	switch vp.Choose(3) {
	case 0:
		t, err = tpdu.New(append(opts, st)...)
	case 1:
		st = tpdu.SmsDeliver
		t, err = tpdu.NewDeliver(opts...)
	case 2:
		st = tpdu.SmsSubmit
		t, err = tpdu.NewSubmit(opts...)
	}
	vp.Assert(err == nil, "it is made")
	vp.Assert(t.SmsType() == st, "type")
	sameAddr(t.DA, da, "destination")
	sameAddr(t.OA, oa, "origin")
	vp.Assert(t.DCS == d, "coding scheme")
	sameUDH(t.UDH, h, "header")
	vp.Assert(t.UDHI(), "header indicator")
	vp.Assert(t.RA.TOA&0x80 != 0, "type of address")
	bad := tpdu.SmsType(6 + vp.Choose(3))
	fails := []tpdu.Option{tpdu.WithDA(da), st, tpdu.WithUDH(h)}
	at := vp.Choose(4)
	fails = append(append(append([]tpdu.Option(nil), fails[:at]...), bad), fails[at:]...)
	u, err := tpdu.New(fails...)
	vp.Assert(err == tpdu.ErrInvalid && u == nil, "an option that fails is reported")
}
