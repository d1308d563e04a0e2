package h

import (
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

func hexRef(b []byte) string {
	const d = "0123456789abcdef"
	var s []byte
	for _, x := range b {
		s = append(s, d[x>>4], d[x&15])
	}
	return string(s)
}

// C20_RoundTrip: a service centre address of any digits and a TPDU of any
// octets have the binary and hex form of PDU mode and come back from them.
func C20_RoundTrip() {
	n := []int{0, 1, 2, 3, 4, 10, 11, 20, 21, 22, 30}[vp.Choose(vp.Param("digit counts", 7, 11))]
	d := make([]byte, n)
	for i := range d {
		d[i], _ = symDigit()
	}
	a := tpdu.Address{TOA: vp.Byte(), Addr: string(d)}
	p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: a}, TPDU: vp.Bytes(vp.Range(0, vp.Param("TPDU octets", 3, 8)))}
	keep := clone(p.TPDU)
	want := []byte{0}
	if n > 0 {
		f := addrRef(a)
		want = append([]byte{byte(len(f) - 1)}, f[1:]...)
	} else {
		vp.Cover("no address")
		a.TOA = 0
	}
	want = append(want, keep...)
	b, err := p.MarshalBinary()
	vp.Assert(err == nil, "it marshals")
	sameBytes(b, want, "binary form")
	sameBytes(p.TPDU, keep, "the TPDU is not modified")
	h, err := p.MarshalHexString()
	vp.Assert(err == nil, "it marshals to hex")
	vp.Assert(vp.EqStr(h, hexRef(want)), "hex form")
	r, err := pdumode.UnmarshalBinary(clone(want))
	vp.Assert(err == nil, "it unmarshals")
	sameAddr(r.SMSC.Address, a, "service centre address")
	sameBytes(r.TPDU, keep, "TPDU")
	r, err = pdumode.UnmarshalHexString(h)
	vp.Assert(err == nil, "it unmarshals from hex")
	sameAddr(r.SMSC.Address, a, "service centre address from hex")
	sameBytes(r.TPDU, keep, "TPDU from hex")
}

// C20_Refuse: an address with a character that is not a digit is refused.
func C20_Refuse() {
	n := vp.Range(1, vp.Param("characters", 4, 8))
	s := vp.Str(n)
	p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: 0x91, Addr: s}}, TPDU: []byte{1}}
	ok := true
	for i := 0; i < n; i++ {
		ok = vp.And(ok, digitVal(s[i]) >= 0)
	}
	_, err := p.MarshalBinary()
	_, herr := p.MarshalHexString()
	vp.Assert((err == nil) == ok, "refused exactly when some character is not a digit")
	vp.Assert((herr == nil) == ok, "refused in hex exactly when some character is not a digit")
}

// C20_Arbitrary: any octets are refused, exactly when the address is cut off,
// or read as the address they hold and the octets after it.
func C20_Arbitrary() {
	n := vp.Range(0, vp.Param("octets", 6, 10))
	src := vp.Bytes(n)
	keep := clone(src)
	p, err := pdumode.UnmarshalBinary(src)
	sameBytes(src, keep, "the octets are not modified")
	l := 0
	if n > 0 {
		l = vp.Conc(vp.IteInt(int(src[0]) > n, n+1, int(src[0])))
	}
	if n == 0 || l+1 > n {
		vp.Cover("cut off")
		vp.Assert(err != nil, "an address that is cut off is refused")
		vp.Assert(p == nil, "nothing is returned with an error")
		return
	}
	vp.Assert(err == nil, "a whole address is accepted")
	sameBytes(p.TPDU, keep[1+l:], "the TPDU is what follows the address")
	if vp.Choose(2) == 1 {
		// read into again, it leaves alone what was copied from it
		was := *p
		err = p.UnmarshalBinary([]byte{2, 0x91, 0x21, 0xa5, 0x5a, 0xa5, 0x5a})
		vp.Assert(err == nil && p.SMSC.Addr == "12" && p.SMSC.TOA == 0x91, "another address")
		sameBytes(p.TPDU, []byte{0xa5, 0x5a, 0xa5, 0x5a}, "another TPDU")
		sameBytes(was.TPDU, keep[1+l:], "reading another frame leaves the first alone")
		p = &was
	}
	if l == 0 {
		vp.Assert(p.SMSC.Addr == "" && p.SMSC.TOA == 0, "no address")
		return
	}
	vp.Assert(p.SMSC.TOA == keep[1], "type of address")
	var want []byte
	for _, o := range keep[2 : 1+l] {
		for _, h := range []byte{o & 15, o >> 4} {
			if h != 15 {
				want = append(want, semiDigits[h])
			}
		}
	}
	vp.Assert(vp.EqStr(p.SMSC.Addr, string(want)), "digits of the address")
}

// C20_Hex: a string is refused when it is not hex octets, and otherwise reads
// as the octets, in either case of letters.
func C20_Hex() {
	n := vp.Range(0, vp.Param("hex characters", 5, 8))
	s := vp.Str(n)
	ok := n%2 == 0
	var b []byte
	for i := 0; i+1 < n; i += 2 {
		v := 0
		for _, c := range []byte{s[i], s[i+1]} {
			x := int(c)
			d := vp.And(x >= '0', x <= '9')
			u := vp.And(x >= 'A', x <= 'F')
			l := vp.And(x >= 'a', x <= 'f')
			ok = vp.And(ok, vp.Or(d, vp.Or(u, l)))
			v = v<<4 | vp.IteInt(d, x-'0', vp.IteInt(u, x-'A'+10, x-'a'+10))&15
		}
		b = append(b, byte(v))
	}
	p, err := pdumode.UnmarshalHexString(s)
	if !ok {
		vp.Cover("not hex")
		vp.Assert(err != nil, "what is not hex octets is refused")
		vp.Assert(p == nil, "nothing is returned with an error")
		return
	}
	q, berr := pdumode.UnmarshalBinary(b)
	vp.Assert((err == nil) == (berr == nil), "accepted exactly when the octets are")
	if err == nil {
		vp.Cover("hex")
		sameAddr(p.SMSC.Address, q.SMSC.Address, "address from hex")
		sameBytes(p.TPDU, q.TPDU, "TPDU from hex")
	}
}

// C20_Long: a service centre address is encoded with its full length, or
// refused when the frame has no room to say it.
func C20_Long() {
	n := vp.Range(504, 512)
	c, _ := symDigit()
	d := filled(n, '1')
	d[vp.Choose(2)*(n-1)] = c
	tp := vp.Bytes(2)
	p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: 0x91, Addr: string(d)}}, TPDU: tp}
	b, err := p.MarshalBinary()
	if n > 508 {
		vp.Cover("too long")
		vp.Assert(err != nil && b == nil, "an address that is too long is refused")
		return
	}
	vp.Assert(err == nil, "it marshals")
	r, err := pdumode.UnmarshalBinary(b)
	vp.Assert(err == nil, "it is read")
	vp.Assert(vp.EqStr(r.SMSC.Addr, string(d)), "to the same address")
	sameBytes(r.TPDU, tp, "and TPDU")
}
