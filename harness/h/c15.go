package h

import (
	"github.com/warthog618/sms/encoding/ucs2"
	"vph/vp"
)

// C15_Decode: any octets decode to the characters of UTF-16, an unpaired
// surrogate to the replacement character, and one at the end is reported.
func C15_Decode() {
	src := vp.Bytes(vp.Range(0, vp.Param("octets", 9, 13)))
	keep := clone(src)
	got, err := ucs2.Decode(src)
	sameBytes(src, keep, "the octets are not modified")
	if len(src)%2 == 1 {
		vp.Assert(err == ucs2.ErrInvalidLength, "an odd number of octets is refused")
		vp.Assert(len(got) == 0, "nothing is produced")
		return
	}
	var want []rune
	for i := 0; i < len(src); i += 2 {
		u := rune(src[i])<<8 | rune(src[i+1])
		if u&0xf800 != 0xd800 {
			want = append(want, u)
			continue
		}
		if i+2 == len(src) {
			vp.Cover("dangling")
			d, ok := err.(ucs2.ErrDanglingSurrogate)
			vp.Assert(ok, "a surrogate at the end is reported")
			sameBytes(d, keep[i:], "the report holds the surrogate")
			checkRunes(got, want)
			return
		}
		v := rune(src[i+2])<<8 | rune(src[i+3])
		if u&0xfc00 == 0xd800 && v&0xfc00 == 0xdc00 {
			vp.Cover("pair")
			want = append(want, 0x10000+(u-0xd800)<<10+v-0xdc00)
			i += 2
			continue
		}
		vp.Cover("unpaired")
		want = append(want, 0xfffd)
	}
	vp.Assert(err == nil, "whole characters decode")
	checkRunes(got, want)
}

func checkRunes(got, want []rune) {
	vp.Assert(len(got) == len(want), "number of characters")
	for i := range want {
		vp.Assert(got[i] == want[i], "the characters are those of UTF-16")
	}
}

// C15_Encode: any characters encode to UTF-16 and decode to themselves; what
// is not a character encodes as the replacement character.
func C15_Encode() {
	n := vp.Range(0, vp.Param("characters", 4, 7))
	rs := make([]rune, n)
	var want []byte
	var back []rune
	for i := range rs {
		r := rune(vp.U32())
		rs[i] = r
		if r < 0 || r > 0x10ffff || r >= 0xd800 && r < 0xe000 {
			vp.Cover("not a character")
			r = 0xfffd
		}
		back = append(back, r)
		want = append(want, utf16Ref(r)...)
	}
	keep := append([]rune(nil), rs...)
	b := ucs2.Encode(rs)
	for i := range rs {
		vp.Assert(rs[i] == keep[i], "the characters are not modified")
	}
	sameBytes(b, want, "UTF-16, big endian")
	got, err := ucs2.Decode(b)
	vp.Assert(err == nil, "it decodes")
	checkRunes(got, back)
	vp.ObsBytes("octets", b)
}
