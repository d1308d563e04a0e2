package h

import (
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// C08_RoundTrip: any header survives, its octets are the standard's, and
// decoding reads exactly the header whatever follows it.
func C08_RoundTrip() {
	n := vp.Range(1, vp.Param("elements", 3, 4))
	u := symUDH(n, 0, vp.Param("data octets", 4, 6))
	keep := cloneUDH(u)
	b, err := u.MarshalBinary()
	vp.Assert(err == nil, "a header marshals")
	sameUDH(u, keep, "the header is not modified")
	sameBytes(b, udhRef(u), "header octets")
	vp.Assert(u.UDHL() == len(b)-1, "the stated length is that of the octets after it")
	src := append(clone(b), vp.Bytes(vp.Range(0, 2))...)
	var r tpdu.UserDataHeader
	used, err := r.UnmarshalBinary(src)
	vp.Assert(err == nil, "it decodes")
	vp.Assert(used == len(b), "decoding reads exactly the header")
	sameUDH(r, u, "header round trip")
	vp.ObsBytes("octets", b)
}

// C08_Arbitrary: any octets are refused or read as elements that lie entirely
// within the header and marshal back to the same octets.
func C08_Arbitrary() {
	n := vp.Range(0, vp.Param("octets", 10, 14))
	src := vp.Bytes(n)
	keep := clone(src)
	var u tpdu.UserDataHeader
	used, err := u.UnmarshalBinary(src)
	sameBytes(src, keep, "the octets passed in are not modified")
	// reference
	ok := n > 0 && int(src[0]) < n
	if ok {
		l := vp.Conc(int(src[0]))
		i := 1
		for i < l+1 {
			if i+2 > l+1 || i+2+int(src[i+1]) > l+1 {
				ok = false
				break
			}
			i += 2 + vp.Conc(int(src[i+1]))
		}
	}
	if !ok {
		vp.Cover("malformed")
		vp.Assert(err != nil, "a malformed header is refused")
		vp.Assert(u == nil, "a refused header leaves nothing behind")
		return
	}
	vp.Cover("well-formed")
	vp.Assert(err == nil, "a well-formed header is accepted")
	vp.Assert(used == int(src[0])+1, "the header is what its length says")
	b, err := u.MarshalBinary()
	vp.Assert(err == nil, "it marshals")
	if src[0] == 0 {
		vp.Assert(len(u) == 0, "an empty header has no elements")
		return
	}
	sameBytes(b, src[:used], "header octets come back")
	// the elements are copies
	for i := range src {
		src[i] = ^src[i]
	}
	c, _ := u.MarshalBinary()
	sameBytes(c, keep[:used], "the header does not alias the octets it was read from")
	// nor each other
	for i := range u {
		_ = append(u[i].Data, 0xa5, 0x5a, 0xa5)
	}
	c, _ = u.MarshalBinary()
	sameBytes(c, keep[:used], "the elements are independent of each other")
	was := u
	_, err = u.UnmarshalBinary([]byte{7, 0x55, 2, 0xa5, 0x5a, 0x56, 1, 0xa5})
	vp.Assert(err == nil, "another header is accepted")
	c, _ = was.MarshalBinary()
	sameBytes(c, keep[:used], "reading another header leaves a copy of the first alone")
}

// C08_Long: a header is encoded with its full length, or refused when it is
// more than its length octet can say.
func C08_Long() {
	l := vp.Range(5, 258)
	u := tpdu.UserDataHeader{{ID: vp.Byte(), Data: filled(l, vp.Byte())}}
	if vp.Choose(2) == 1 {
		u = append(u, tpdu.InformationElement{ID: vp.Byte(), Data: vp.Bytes(3)})
	}
	b, err := u.MarshalBinary()
	if u.UDHL() > 255 {
		vp.Cover("too long")
		vp.Assert(err != nil && b == nil, "a header that is too long is refused")
		return
	}
	vp.Assert(err == nil, "a header marshals")
	sameBytes(b, udhRef(u), "header octets")
	var r tpdu.UserDataHeader
	used, err := r.UnmarshalBinary(b)
	vp.Assert(err == nil && used == len(b), "it decodes")
	sameUDH(r, u, "header round trip")
}
