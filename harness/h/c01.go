package h

import (
	"github.com/warthog618/sms/encoding/gsm7"
	"vph/vp"
)

func septets(n int) []byte {
	in := make([]byte, n)
	for i := range in {
		in[i] = vp.Byte() & 0x7f
	}
	return in
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// bitAt is bit k of the packed stream of septets that starts after fill bits.
func bitAt(in []byte, fill, k int) byte {
	if k < fill || (k-fill)/7 >= len(in) {
		return 0
	}
	return in[(k-fill)/7] >> uint((k-fill)%7) & 1
}

// packRef is the layout of 3GPP TS 23.038 6.1.2.1, bit by bit.
func packRef(in []byte, fill int) []byte {
	if len(in) == 0 {
		return nil
	}
	out := make([]byte, (len(in)*7+fill+7)/8)
	for k := 0; k < len(out)*8; k++ {
		out[k/8] |= bitAt(in, fill, k) << uint(k%8)
	}
	return out
}

// unpackRef reads whole septets from the bit stream.
func unpackRef(p []byte, fill int) []byte {
	var out []byte
	for k := fill; k+7 <= len(p)*8; k += 7 {
		var s byte
		for j := 0; j < 7; j++ {
			s |= (p[(k+j)/8] >> uint((k+j)%8) & 1) << uint(j)
		}
		out = append(out, s)
	}
	return out
}

func sameBytes(got, want []byte, what string) {
	vp.Assert(len(got) == len(want), what+": length")
	for i := range want {
		vp.Assert(got[i] == want[i], what)
	}
}

// C01_Pack: the packed octets are the bit-level layout of the standard.
func C01_Pack() {
	n := vp.Range(0, vp.Param("septets", 170, 330))
	fill := vp.Range(0, 6)
	in := septets(n)
	src := clone(in)
	out := gsm7.Pack7Bit(src, fill)
	sameBytes(src, in, "the septets passed in are not modified")
	sameBytes(out, packRef(in, fill), "packed octets follow the standard's bit layout")
	vp.ObsBytes("packed", out)
}

// C01_Unpack: unpacking any octets reads the septets of the bit layout.
func C01_Unpack() {
	n := vp.Range(0, vp.Param("octets", 150, 290))
	fill := vp.Range(0, 6)
	in := vp.Bytes(n)
	src := clone(in)
	out := gsm7.Unpack7Bit(src, fill)
	sameBytes(src, in, "the octets passed in are not modified")
	sameBytes(out, unpackRef(in, fill), "unpacked septets follow the standard's bit layout")
	vp.ObsBytes("unpacked", out)
}

// C01_RoundTrip: unpacking what was packed gives the septets back, with one
// zero septet more exactly when seven or more bits of the last octet are spare.
func C01_RoundTrip() {
	n := vp.Range(0, vp.Param("septets", 170, 330))
	fill := vp.Range(0, 6)
	in := septets(n)
	got := gsm7.Unpack7Bit(gsm7.Pack7Bit(in, fill), fill)
	if n == 0 {
		vp.Assert(len(got) == 0, "nothing packs to nothing")
		return
	}
	if (n*7+fill)%8 == 1 {
		vp.Cover("spare septet")
		vp.Assert(len(got) == n+1 && got[n] == 0, "spare bits read as one zero septet")
		got = got[:n]
	}
	sameBytes(got, in, "round trip")
}
