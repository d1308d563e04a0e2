package h

import (
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// symBytes is n arbitrary bytes.
func symBytes(n int) []byte { return vp.Bytes(n) }

// numAddr is an address of n arbitrary digits with an arbitrary
// type-of-address octet that is not alphanumeric.
func numAddr(n int) tpdu.Address {
	toa := vp.Byte() | 0x80
	vp.Assume(toa&0x70 != 0x50)
	d := make([]byte, n)
	for i := range d {
		d[i], _ = symDigit()
	}
	return tpdu.Address{TOA: toa, Addr: string(d)}
}

// addrRef is the address field of 3GPP TS 23.040 9.1.2.5 for a number.
func addrRef(a tpdu.Address) []byte {
	out := []byte{byte(len(a.Addr)), a.TOA}
	for i := 0; i < len(a.Addr); i += 2 {
		hi := byte(0x0f)
		if i+1 < len(a.Addr) {
			hi = byte(digitVal(a.Addr[i+1]))
		}
		out = append(out, byte(digitVal(a.Addr[i]))|hi<<4)
	}
	return out
}

// symUDH is a header of n elements with data lengths lo..hi.
func symUDH(n, lo, hi int) tpdu.UserDataHeader {
	var u tpdu.UserDataHeader
	for i := 0; i < n; i++ {
		l := vp.Range(lo, hi)
		u = append(u, tpdu.InformationElement{ID: vp.Byte(), Data: vp.Bytes(l)})
	}
	return u
}

func udhRef(u tpdu.UserDataHeader) []byte {
	if len(u) == 0 {
		return nil
	}
	out := []byte{0}
	for _, ie := range u {
		out = append(out, ie.ID, byte(len(ie.Data)))
		out = append(out, ie.Data...)
	}
	out[0] = byte(len(out) - 1)
	return out
}

func sameUDH(got, want tpdu.UserDataHeader, what string) {
	vp.Assert(len(got) == len(want), what+": number of elements")
	for i := range want {
		vp.Assert(got[i].ID == want[i].ID, what+": element id")
		sameBytes(got[i].Data, want[i].Data, what+": element data")
	}
}

func cloneUDH(u tpdu.UserDataHeader) tpdu.UserDataHeader {
	var c tpdu.UserDataHeader
	for _, ie := range u {
		c = append(c, tpdu.InformationElement{ID: ie.ID, Data: clone(ie.Data)})
	}
	return c
}

func bcdRef(v int) byte { return byte(v%10)<<4 | byte(v/10) }

func daysIn(y, m int) int {
	d := 31
	switch m {
	case 4, 6, 9, 11:
		d = 30
	case 2:
		d = 28
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			d = 29
		}
	}
	return d
}

// stampOctets is a timestamp field with an arbitrary date, time and zone, and
// what it says.
type stamp struct {
	oct                      []byte
	y, mo, d, h, mi, s, zone int
}

// symStamp: day up to 28 in every month unless full, then every day there is.
func symStamp(full bool) stamp {
	var t stamp
	y := vp.Int(0, 99)
	t.y = vp.IteInt(y < 70, 2000+y, 1900+y)
	t.mo = vp.Int(1, 12)
	if full {
		t.d = vp.Int(1, 31)
		long := vp.Or(vp.Or(vp.Or(t.mo == 1, t.mo == 3), vp.Or(t.mo == 5, t.mo == 7)), vp.Or(t.mo == 8, vp.Or(t.mo == 10, t.mo == 12)))
		leap := y%4 == 0 // 2000 is one
		ok := vp.Or(t.d <= 28, vp.Or(long, vp.Or(vp.And(t.mo != 2, t.d <= 30), vp.And(t.mo == 2, vp.And(leap, t.d == 29)))))
		vp.Assume(ok)
	} else {
		t.d = vp.Int(1, 28)
	}
	t.h, t.mi, t.s = vp.Int(0, 23), vp.Int(0, 59), vp.Int(0, 59)
	q := vp.Int(0, 79)
	neg := vp.Bool()
	vp.Assume(vp.Not(vp.And(neg, q == 0)))
	t.zone = vp.IteInt(neg, -q*900, q*900)
	zo := bcdRef(q) | vp.IteByte(neg, 8, 0)
	t.oct = []byte{bcdRef(y), bcdRef(t.mo), bcdRef(t.d), bcdRef(t.h), bcdRef(t.mi), bcdRef(t.s), zo}
	return t
}

func (t stamp) same(ts tpdu.Timestamp, what string) {
	vp.Assert(ts.Year() == t.y, what+": year")
	vp.Assert(ts.Month() == time.Month(t.mo), what+": month")
	vp.Assert(ts.Day() == t.d, what+": day")
	vp.Assert(ts.Hour() == t.h, what+": hour")
	vp.Assert(ts.Minute() == t.mi, what+": minute")
	vp.Assert(ts.Second() == t.s, what+": second")
	_, off := ts.Zone()
	vp.Assert(off == t.zone, what+": zone")
}
