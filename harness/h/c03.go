package h

import (
	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/semioctet"
	"vph/vp"
)

const semiDigits = "0123456789*#abc"

func digitVal(d byte) int {
	v := -1
	for i := 0; i < len(semiDigits); i++ {
		v = vp.IteInt(semiDigits[i] == d, i, v)
	}
	return v
}

// symDigit is an arbitrary digit of the semi-octet alphabet with its value.
func symDigit() (byte, byte) {
	v := vp.Byte() & 0x0f
	vp.Assume(v < 15)
	return semiDigits[v], v
}

// C03_RoundTrip: any string of digits packs two to an octet, low half first,
// with the fill half-octet only after an odd number, and decodes to itself.
func C03_RoundTrip() {
	n := vp.Range(0, vp.Param("digits", 16, 40))
	in := make([]byte, n)
	val := make([]byte, n)
	for i := range in {
		in[i], val[i] = symDigit()
	}
	src := clone(in)
	b, err := semioctet.Encode(src)
	vp.Assert(err == nil, "digits encode without error")
	sameBytes(src, in, "the digits passed in are not modified")
	vp.Assert(len(b) == (n+1)/2, "two digits per octet")
	for i := range b {
		hi := byte(0x0f)
		if 2*i+1 < n {
			hi = val[2*i+1]
		}
		vp.Assert(b[i] == val[2*i]|hi<<4, "octet holds its two digits, low half first")
	}
	out, used, err := semioctet.Decode(make([]byte, n), b)
	vp.Assert(err == nil, "decoding succeeds")
	vp.Assert(used == len(b), "decoding reads the whole field")
	sameBytes(out, in, "digits round trip")
	vp.ObsBytes("enc", b)
	vp.ObsBytes("dec", out)
}

// C03_Invalid: encoding fails exactly when some character is not a digit, and
// names the first such character.
func C03_Invalid() {
	n := vp.Range(1, vp.Param("chars", 4, 6))
	in := vp.Bytes(n)
	b, err := semioctet.Encode(in)
	bad := -1
	for i := n - 1; i >= 0; i-- {
		if !isDigit(in[i]) {
			bad = i
		}
	}
	if bad < 0 {
		vp.Assert(err == nil && len(b) == (n+1)/2, "digits are accepted")
		return
	}
	e, ok := err.(semioctet.ErrInvalidDigit)
	vp.Assert(ok, "a character that is not a digit is refused")
	vp.Assert(byte(e) == in[bad], "the error names the first bad character")
	vp.Assert(b == nil, "no output with an error")
}

func isDigit(c byte) bool {
	return c >= '0' && c <= '9' || c == '*' || c == '#' || c >= 'a' && c <= 'c'
}

// C03_Decode: decoding any octets for any expected number of digits yields the
// half-octets in order without fill, and reports a missing fill.
func C03_Decode() {
	n := vp.Range(0, vp.Param("octets", 4, 5))
	max := vp.Range(0, 2*n+1)
	decodeDigits(vp.Bytes(n), max)
}

func decodeDigits(src []byte, max int) {
	n := len(src)
	var want []byte
	used := 0
	missing := false
	for used < n && len(want) < max {
		lo, hi := src[used]&0x0f, src[used]>>4
		used++
		if lo != 15 {
			want = append(want, semiDigits[lo])
		}
		if hi != 15 {
			if len(want) == max {
				missing = true
				break
			}
			want = append(want, semiDigits[hi])
		}
	}
	dst := make([]byte, max)
	out, got, err := semioctet.Decode(dst, src)
	vp.Assert(got == used, "octets read")
	if missing {
		vp.Cover("missing fill")
		vp.Assert(err == semioctet.ErrMissingFill, "missing fill is reported")
		return
	}
	vp.Assert(err == nil, "decoding succeeds")
	sameBytes(out, want, "digits in order, fill skipped")
	vp.ObsBytes("dec", out)
}

// C04_Unsigned: two-digit swapped BCD is exact on all integers and octets.
func C04_Unsigned() {
	v := int(vp.I64())
	b, err := bcd.Encode(v)
	if v < 0 || v > 99 {
		vp.Cover("out of range")
		vp.Assert(err == bcd.ErrInvalidInteger(v), "integers outside 0..99 are refused")
	} else {
		vp.Cover("in range")
		vp.Assert(err == nil, "0..99 encode")
		vp.Assert(int(b&0x0f) == v/10 && int(b>>4) == v%10, "tens digit in the low half")
		d, err := bcd.Decode(b)
		vp.Assert(err == nil && d == v, "round trip")
	}
	o := vp.Byte()
	d, err := bcd.Decode(o)
	if o&0x0f > 9 || o>>4 > 9 {
		vp.Assert(err == bcd.ErrInvalidOctet(o), "non-decimal halves are refused")
	} else {
		vp.Assert(err == nil && d == int(o&0x0f)*10+int(o>>4), "octet value")
		r, err := bcd.Encode(d)
		vp.Assert(err == nil && r == o, "octets re-encode to themselves")
	}
	vp.Observe("dec", d)
}

// C04_Signed: the signed form is exact on all integers and octets.
func C04_Signed() {
	v := int(vp.I64())
	b, err := bcd.EncodeSigned(v)
	if v < -79 || v > 79 {
		vp.Cover("out of range")
		vp.Assert(err == bcd.ErrInvalidInteger(v), "integers outside -79..79 are refused")
	} else {
		vp.Cover("in range")
		vp.Assert(err == nil, "-79..79 encode")
		m := v
		if v < 0 {
			m = -v
		}
		vp.Assert(int(b&0x07) == m/10 && int(b>>4) == m%10, "magnitude digits")
		vp.Assert((b&0x08 != 0) == (v < 0), "sign bit")
		d, err := bcd.DecodeSigned(b)
		vp.Assert(err == nil && d == v, "round trip")
	}
	o := vp.Byte()
	d, err := bcd.DecodeSigned(o)
	if o>>4 > 9 {
		vp.Assert(err == bcd.ErrInvalidOctet(o), "non-decimal half is refused")
	} else {
		m := int(o&0x07)*10 + int(o>>4)
		if o&0x08 != 0 {
			m = -m
		}
		vp.Assert(err == nil && d == m, "octet value")
	}
	vp.Observe("dec", d)
}
