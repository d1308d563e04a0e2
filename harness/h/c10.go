package h

import (
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// dcsRef is 3GPP TS 23.038 section 4: alphabet (3 when reserved), class (4
// when none) and compression.
func dcsRef(d byte) (alpha, class int, compressed bool) {
	a, c := 0, 4
	group := d >> 4
	switch {
	case group < 8:
		a = int(d >> 2 & 3)
		if a == 3 {
			a = 0
		}
		if group&1 == 1 {
			c = int(d & 3)
		}
	case group < 12:
		a = 3
	case group < 14:
	case group == 14:
		a = 2
	default:
		a = int(d >> 2 & 1)
		c = int(d & 3)
	}
	return a, c, vp.And(group < 8, d&0x20 != 0)
}

// C10_Read: alphabet, class and compression of all 256 values.
func C10_Read() {
	b := vp.Byte()
	a, c, z := dcsRef(b)
	d := tpdu.DCS(b)
	ga, err := d.Alphabet()
	if a == 3 {
		vp.Assert(err != nil, "reserved coding groups are refused")
	} else {
		vp.Assert(err == nil && int(ga) == a, "the alphabet is the standard's")
	}
	t := tpdu.TPDU{DCS: d}
	ta, terr := t.Alphabet()
	vp.Assert(ta == ga && (terr == nil) == (err == nil), "the TPDU reports the alphabet of its DCS")
	gc, err := d.Class()
	if err == nil {
		vp.Assert(int(gc) == c, "the class is the standard's")
	} else {
		vp.Assert(gc == tpdu.MClassUnknown && c == 4, "no class is reported with an error")
	}
	vp.Assert(d.Compressed() == z, "compression is the standard's")
}

// C10_WithAlphabet: setting an alphabet either is refused and changes nothing,
// or gives a DCS with that alphabet and the class and compression it had.
func C10_WithAlphabet() {
	b := vp.Byte()
	w := vp.Int(-1<<40, 1<<40)
	d := tpdu.DCS(b)
	n, err := d.WithAlphabet(tpdu.Alphabet(w))
	a, c, z := dcsRef(b)
	if w == 3 && err == nil {
		// the reserved value is one that the general groups can carry
		na, nc, nz := dcsRef(byte(n))
		vp.Assert(b < 0x80 && n&0x0c == 0x0c && na == 0 && nc == c && nz == z, "the reserved alphabet reads as GSM7")
		sameGroup(b, byte(n))
		return
	}
	if w < 0 || w > 3 {
		vp.Cover("no such alphabet")
		vp.Assert(err != nil && n == d, "what is not an alphabet is refused")
		return
	}
	if err != nil {
		vp.Cover("refused")
		vp.Assert(n == d, "a refused change leaves the DCS as it was")
		vp.Assert(a == 3 || a != w, "an alphabet that is already set is not refused")
		vp.Assert(vp.Or(w == 3, b >= 0x80), "the general groups can carry every alphabet")
		return
	}
	vp.Cover("set")
	na, nc, nz := dcsRef(byte(n))
	vp.Assert(na == w, "the alphabet is the one asked for")
	vp.Assert(nc == c && nz == z, "class and compression are kept")
	vp.Assert(vp.Implies(b < 0x80, byte(n)&^0x0c == b&^0x0c), "no other bit changes in the general groups")
	sameGroup(b, byte(n))
}

// C10_WithClass: setting a class likewise keeps the alphabet and compression.
func C10_WithClass() {
	b := vp.Byte()
	w := vp.Int(-1<<40, 1<<40)
	d := tpdu.DCS(b)
	n, err := d.WithClass(tpdu.MessageClass(w))
	a, _, z := dcsRef(b)
	if w < 0 || w > 3 {
		vp.Cover("no such class")
		vp.Assert(err != nil && n == d, "what is not a class is refused")
		return
	}
	if err != nil {
		vp.Cover("refused")
		vp.Assert(n == d, "a refused change leaves the DCS as it was")
		vp.Assert(b >= 0x80 && b < 0xf0, "only groups without a class are refused")
		return
	}
	vp.Cover("set")
	na, nc, nz := dcsRef(byte(n))
	vp.Assert(nc == w, "the class is the one asked for")
	vp.Assert(na == a && nz == z, "alphabet and compression are kept")
	sameGroup(b, byte(n))
}

// sameGroup: what the coding group says besides: marked for automatic
// deletion, or a message waiting indication with its sense and type.
func sameGroup(a, b byte) {
	vp.Assert(a>>7 == b>>7, "the kind of coding group is kept")
	vp.Assert(vp.Implies(a < 0x80, a&0x40 == b&0x40), "marking for automatic deletion is kept")
	vp.Assert(vp.Implies(vp.And(a >= 0xc0, a < 0xf0), a == b), "a message waiting indication is kept")
	vp.Assert(vp.Implies(a >= 0xf0, b >= 0xf0), "data coding with a class is kept")
}
