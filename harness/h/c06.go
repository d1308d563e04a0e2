package h

import (
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// C06_Octets: any seven octets naming a real date, time and zone decode to
// that instant and encode back to themselves.
func C06_Octets() {
	st := symStamp(true)
	src := clone(st.oct)
	var ts tpdu.Timestamp
	err := ts.UnmarshalBinary(append(src, vp.Bytes(vp.Range(0, 1))...))
	vp.Assert(err == nil, "the octets decode")
	st.same(ts, "decoded timestamp")
	b, err := ts.MarshalBinary()
	vp.Assert(err == nil, "the timestamp encodes")
	sameBytes(b, st.oct, "timestamp round trip")
	vp.ObsBytes("octets", b)
}

// C06_Time: an instant with a quarter-hour zone survives encoding.
func C06_Time() {
	y, mo, d := vp.Int(1970, 2069), vp.Int(1, 12), vp.Int(1, 28)
	h, mi, s := vp.Int(0, 23), vp.Int(0, 59), vp.Int(0, 59)
	ns := vp.Int(0, 999999999)
	q := vp.Int(-79, 79)
	in := time.Date(y, time.Month(mo), d, h, mi, s, ns, time.FixedZone("any", q*900))
	t := tpdu.Timestamp{Time: in}
	b, err := t.MarshalBinary()
	vp.Assert(err == nil, "an instant in range encodes")
	aq := vp.IteInt(q < 0, -q, q)
	want := []byte{bcdRef(y % 100), bcdRef(mo), bcdRef(d), bcdRef(h), bcdRef(mi), bcdRef(s), bcdRef(aq) | vp.IteByte(q < 0, 8, 0)}
	sameBytes(b, want, "octets of the local date, time and zone")
	var r tpdu.Timestamp
	vp.Assert(r.UnmarshalBinary(b) == nil, "it decodes")
	st := stamp{y: y, mo: mo, d: d, h: h, mi: mi, s: s, zone: q * 900}
	st.same(r, "round trip")
}

// C06_Arbitrary: any octets are either refused or decode without a crash; too
// few, or half-octets that are not decimal, are refused.
func C06_Arbitrary() {
	n := vp.Range(0, 8)
	src := vp.Bytes(n)
	var t tpdu.Timestamp
	err := t.UnmarshalBinary(src)
	if n < 7 {
		vp.Assert(err == tpdu.ErrUnderflow, "too few octets are refused")
		return
	}
	ok := true
	for i := 0; i < 7; i++ {
		ok = vp.And(ok, src[i]>>4 <= 9)
		if i < 6 {
			ok = vp.And(ok, src[i]&0x0f <= 9)
		}
	}
	vp.Assert((err == nil) == ok, "exactly the decimal octets decode")
}
