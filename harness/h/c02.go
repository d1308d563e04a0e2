package h

import (
	"github.com/warthog618/sms/encoding/gsm7"
	"vph/vp"
)

const crSeptet = 0x0d

// ussdRef is 3GPP TS 23.038 6.1.2.3.1: a CR fills seven spare bits, and a CR
// that ends exactly on an octet boundary is followed by another.
func ussdRef(in []byte, fill int) []byte {
	out := packRef(in, fill)
	if len(in) == 0 {
		return nil
	}
	switch (len(in)*7 + fill) % 8 {
	case 1:
		out[len(out)-1] |= crSeptet << 1
	case 0:
		if in[len(in)-1] == crSeptet {
			out = append(out, crSeptet)
		}
	}
	return out
}

// C02_Pack: the packed octets with CR filler follow the standard.
func C02_Pack() {
	n := vp.Range(0, vp.Param("septets", 100, 190))
	fill := vp.Range(0, 6)
	in := septets(n)
	src := clone(in)
	out := gsm7.Pack7BitUSSD(src, fill)
	sameBytes(src, in, "the septets passed in are not modified")
	sameBytes(out, ussdRef(in, fill), "USSD packing follows the standard")
	vp.ObsBytes("packed", out)
}

// C02_RoundTrip: every message comes back, except where the encoding itself
// cannot tell a final CR from filler.
func C02_RoundTrip() {
	n := vp.Range(0, vp.Param("septets", 100, 190))
	fill := vp.Range(0, 6)
	in := septets(n)
	if n >= 2 && ((n-1)*7+fill)%8 == 0 {
		// CR CR with the first on the boundary reads as CR plus filler
		vp.Assume(!(in[n-1] == crSeptet && in[n-2] == crSeptet))
	}
	out := gsm7.Unpack7BitUSSD(gsm7.Pack7BitUSSD(in, fill), fill)
	sameBytes(out, in, "USSD round trip")
	vp.ObsBytes("unpacked", out)
}

// C02_Unpack: unpacking any octets strips exactly the filler the standard
// describes.
func C02_Unpack() {
	n := vp.Range(0, vp.Param("octets", 90, 170))
	fill := vp.Range(0, 6)
	in := vp.Bytes(n)
	want := unpackRef(in, fill)
	if l := len(want); n > 1 && l > 0 && want[l-1] == crSeptet {
		switch (n*8 - fill) % 7 {
		case 0: // ends on an octet boundary
			vp.Cover("filler")
			want = want[:l-1]
		case 1: // starts on an octet boundary
			if l > 1 && want[l-2] == crSeptet {
				vp.Cover("doubled CR")
				want = want[:l-1]
			}
		}
	}
	out := gsm7.Unpack7BitUSSD(in, fill)
	sameBytes(out, want, "USSD unpacking strips the filler only")
	vp.ObsBytes("unpacked", out)
}
