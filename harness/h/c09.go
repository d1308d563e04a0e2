package h

import (
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

func concatUDH() tpdu.UserDataHeader {
	n := vp.Range(0, vp.Param("elements", 5, 6))
	lens := []int{0, 1, 2, 3, 4, 5}
	if n > vp.Param("elements of any length", 2, 3) {
		lens = []int{3, 4, 0}
	}
	if n > vp.Param("elements of three lengths", 4, 5) {
		lens = []int{3, 4}
	}
	var u tpdu.UserDataHeader
	for i := 0; i < n; i++ {
		l := lens[vp.Choose(len(lens))]
		u = append(u, tpdu.InformationElement{ID: vp.Byte(), Data: vp.Bytes(l)})
	}
	return u
}

// C09_Info: the concatenation info is that of the last element of its kind,
// 8-bit first, and only when the element has the right length.
func C09_Info() { checkInfo(concatUDH()) }

func checkInfo(u tpdu.UserDataHeader) {
	last := func(id byte) int {
		k := -1
		for i := range u {
			k = vp.IteInt(u[i].ID == id, i, k)
		}
		return vp.Conc(k)
	}
	k8, k16 := last(0), last(8)
	segs, seq, ref, ok := u.ConcatInfo()
	s8, q8, r8, ok8 := u.ConcatInfo8()
	s16, q16, r16, ok16 := u.ConcatInfo16()
	w8 := k8 >= 0 && len(u[k8].Data) == 3
	w16 := k16 >= 0 && len(u[k16].Data) == 4
	vp.Assert(ok8 == w8, "8-bit info present exactly when its element is")
	vp.Assert(ok16 == w16, "16-bit info present exactly when its element is")
	vp.Assert(ok == (w8 || w16), "info present when either is")
	if w8 {
		d := u[k8].Data
		vp.Assert(r8 == int(d[0]) && s8 == int(d[1]) && q8 == int(d[2]), "8-bit reference, count and sequence")
		vp.Assert(ref == r8 && segs == s8 && seq == q8, "8-bit info is preferred")
	} else {
		vp.Assert(s8 == 0 && q8 == 0 && r8 == 0, "zero values without 8-bit info")
	}
	if w16 {
		d := u[k16].Data
		vp.Assert(r16 == int(d[0])<<8|int(d[1]) && s16 == int(d[2]) && q16 == int(d[3]), "16-bit reference, count and sequence")
		if !w8 {
			vp.Assert(ref == r16 && segs == s16 && seq == q16, "16-bit info is used otherwise")
		}
	} else {
		vp.Assert(s16 == 0 && q16 == 0 && r16 == 0, "zero values without 16-bit info")
	}
	if !ok {
		vp.Assert(segs == 0 && seq == 0 && ref == 0, "zero values without info")
	}
	t := tpdu.TPDU{UDH: u}
	a, b, c, d := t.ConcatInfo()
	vp.Assert(a == segs && b == seq && c == ref && d == ok, "the TPDU reports what its header says")
	vp.Assert(t.IsSingleSegment() == !ok, "single segment exactly when there is no info")
}

// C09_IE: looking an element up gives the last with that id, and listing gives
// all of them in order.
func C09_IE() { checkIE(concatUDH()) }

func checkIE(u tpdu.UserDataHeader) {
	id := vp.Byte()
	ie, ok := u.IE(id)
	ies := u.IEs(id)
	n := 0
	for _, x := range u {
		if x.ID == id {
			vp.Assert(n < len(ies), "every element with the id is listed")
			vp.Assert(ies[n].ID == id, "listed elements have the id")
			sameBytes(ies[n].Data, x.Data, "listed in order")
			n++
		}
	}
	vp.Assert(n == len(ies), "nothing else is listed")
	vp.Assert(ok == (n > 0), "found exactly when there is one")
	if ok {
		sameBytes(ie.Data, ies[n-1].Data, "the last one is found")
	} else {
		vp.Assert(ie.ID == 0 && ie.Data == nil, "zero value when there is none")
	}
}
