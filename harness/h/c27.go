package h

import (
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// C27_Room: the room for user data is exactly what fits the largest user data
// field of the type, with the header.
func C27_Room() {
	mti := vp.Choose(6)
	t := &tpdu.TPDU{FirstOctet: tpdu.FirstOctet(vp.Byte()), FCS: vp.Byte()}
	fo := t.FirstOctet
	vp.Assert(t.SetSmsType(tpdu.SmsType(mti)) == nil, "a type is set")
	vp.Assert(t.FirstOctet&^3 == fo&^3, "setting the type changes nothing else")
	max := []int{140, 159, 152, 140, 131, 146}[mti]
	if mti == 1 || mti == 2 {
		max = vp.IteInt(t.FCS == 0, max, max-1)
	}
	alpha := vp.Choose(3)
	t.DCS = tpdu.DCS(symDCS(alpha))
	n := vp.Range(0, vp.Param("elements", 2, 3))
	for i := 0; i < n; i++ {
		t.UDH = append(t.UDH, tpdu.InformationElement{ID: vp.Byte(), Data: make([]byte, []int{0, 1, 2, 3, 4, 5, 6, 20, 60}[vp.Choose(vp.Param("data lengths", 7, 9))])})
	}
	h := len(udhRef(t.UDH))
	if n == 0 && t.UDHI() {
		vp.Cover("empty header")
		h = 1
	}
	want := blockRef(max, alpha, h)
	vp.Assert(t.UDBlockSize() == want, "the room is what fits")
	vp.Assert(t.UDHL() == h-1 || h == 0 && t.UDHL() == 0, "the header length")
	vp.Observe("room", vp.Conc(t.UDBlockSize()))
}

// C27_Filled: user data that takes all the room marshals to a field of the
// largest size, and nothing more would fit.
func C27_Filled() {
	st := []tpdu.SmsType{tpdu.SmsDeliver, tpdu.SmsSubmit}[vp.Choose(2)]
	alpha := vp.Choose(3)
	t := &tpdu.TPDU{DCS: tpdu.DCS([]byte{0, 4, 8}[alpha])}
	t.SetSmsType(st)
	if d := vp.Range(0, vp.Param("largest header data", 16, 60)); d > 0 {
		t.SetUDH(tpdu.UserDataHeader{{ID: 5, Data: make([]byte, d-1)}})
	}
	base := *t
	bb, err := base.MarshalBinary()
	vp.Assert(err == nil, "without user data")
	fixed := len(bb) - len(udhRef(t.UDH)) // all but the user data field after its length
	n := t.UDBlockSize()
	t.UD = make([]byte, n)
	for i := range t.UD {
		t.UD[i] = vp.Byte() & 0x7f
	}
	b, err := t.MarshalBinary()
	vp.Assert(err == nil, "it marshals")
	size := len(b) - fixed
	vp.Assert(size <= 140, "the user data fits the TPDU")
	unit := 1
	if alpha == 2 {
		unit = 2
	}
	t.UD = make([]byte, n+unit)
	b, err = t.MarshalBinary()
	vp.Assert(err == nil, "one more marshals")
	vp.Assert(len(b)-fixed > 140, "one more would not fit")
	pp := base.Segment(make([]byte, n))
	vp.Assert(len(pp) == 1, "as much as fits is a single segment")
	pp = base.Segment(make([]byte, n+unit))
	vp.Assert(len(pp) == 2, "one more takes two")
}
