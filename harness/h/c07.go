package h

import (
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// relRef is the table of 3GPP TS 23.040 9.2.3.12.1.
func relRef(v int) int64 {
	minute := int64(time.Minute)
	x := byte(v)
	if v <= 143 {
		return (int64(x) + 1) * 5 * minute
	}
	if v <= 167 {
		// twelve hours and half hours beyond
		return int64(x-143+24) * 30 * minute
	}
	if v <= 196 {
		return int64(x-166) * 24 * 60 * minute
	}
	return int64(x-192) * 7 * 24 * 60 * minute
}

// C07_RelativeOctet: each of the 256 octets means what the table says and
// encodes back to itself.
func C07_RelativeOctet() {
	o := vp.Byte()
	var v tpdu.ValidityPeriod
	n, err := v.UnmarshalBinary([]byte{o, vp.Byte()}, tpdu.VpfRelative)
	vp.Assert(err == nil && n == 1, "one octet is read")
	vp.Assert(v.Format == tpdu.VpfRelative, "format")
	vp.Assert(int64(v.Duration) == relRef(int(o)), "the duration is the table's")
	b, err := v.MarshalBinary()
	vp.Assert(err == nil && len(b) == 1, "one octet is written")
	vp.Assert(b[0] == o, "relative validity round trip")
	vp.ObsBytes("octet", b)
}

// C07_RelativeDuration: any duration encodes to the longest representable
// period not exceeding it, and to the nearest end of the range outside it.
func C07_RelativeDuration() {
	d := vp.I64()
	var v tpdu.ValidityPeriod
	v.SetRelative(time.Duration(d))
	b, err := v.MarshalBinary()
	vp.Assert(err == nil && len(b) == 1, "one octet is written")
	e := int(b[0])
	if d < 5*int64(time.Minute) {
		vp.Cover("short")
		vp.Assert(e == 0, "durations below the range encode as the shortest period")
		return
	}
	vp.Assert(relRef(e) <= d, "the encoded period does not exceed the duration")
	if e < 255 {
		vp.Assert(relRef(e+1) > d, "the encoded period is the longest that fits")
	} else {
		vp.Cover("long")
	}
}

// enhanced is an arbitrary enhanced period field of the given format.
func enhanced(f byte) []byte {
	o := make([]byte, 7)
	o[0] = vp.Byte()&0xf8 | f
	switch f {
	case 1, 2:
		o[1] = vp.Byte()
	case 3:
		for i, tens := range []int{9, 5, 5} {
			o[i+1] = byte(vp.Int(0, tens)) | byte(vp.Int(0, 9))<<4
		}
	}
	return o
}

// C07_Enhanced: every well-formed enhanced field survives decoding and
// encoding.
func C07_Enhanced() {
	f := byte(vp.Choose(4))
	o := enhanced(f)
	var v tpdu.ValidityPeriod
	n, err := v.UnmarshalBinary(append(clone(o), vp.Bytes(vp.Range(0, 1))...), tpdu.VpfEnhanced)
	vp.Assert(err == nil && n == 7, "seven octets are read")
	vp.Assert(v.Format == tpdu.VpfEnhanced && v.EFI == o[0], "format and indicator")
	sec := int64(time.Second)
	dec := func(b byte) int64 { return int64(b&0x0f)*10 + int64(b>>4) }
	switch f {
	case 0:
		vp.Assert(v.Duration == 0, "no period")
	case 1:
		vp.Assert(int64(v.Duration) == relRef(int(o[1])), "relative period")
	case 2:
		vp.Assert(int64(v.Duration) == int64(o[1])*sec, "seconds")
	case 3:
		vp.Assert(int64(v.Duration) == (dec(o[1])*3600+dec(o[2])*60+dec(o[3]))*sec, "hours, minutes and seconds")
	}
	b, err := v.MarshalBinary()
	vp.Assert(err == nil, "it encodes")
	sameBytes(b, o, "enhanced validity round trip")
	vp.ObsBytes("octets", b)
}

// C07_EnhancedDuration: any duration encodes to the longest period of the
// format that does not exceed it, or the nearest end of its range.
func C07_EnhancedDuration() {
	efi := vp.Byte() & 0xf8
	var v tpdu.ValidityPeriod
	switch f := vp.Choose(4); f {
	case 0:
		v.SetEnhanced(time.Duration(vp.I64()), efi)
		b, err := v.MarshalBinary()
		vp.Assert(err == nil, "it encodes")
		sameBytes(b, append([]byte{efi}, make([]byte, 6)...), "no period")
	case 1:
		d := vp.I64()
		v.SetEnhanced(time.Duration(d), efi|1)
		b, err := v.MarshalBinary()
		vp.Assert(err == nil && len(b) == 7, "seven octets")
		vp.Assert(b[0] == efi|1, "indicator")
		sameBytes(b[2:], make([]byte, 5), "fill")
		e := int(b[1])
		if d < 5*int64(time.Minute) {
			vp.Assert(e == 0, "the shortest period")
			return
		}
		vp.Assert(relRef(e) <= d, "the encoded period does not exceed the duration")
		if e < 255 {
			vp.Assert(relRef(e+1) > d, "the encoded period is the longest that fits")
		}
	case 2:
		d := vp.I64()
		v.SetEnhanced(time.Duration(d), efi|2)
		b, err := v.MarshalBinary()
		vp.Assert(err == nil && len(b) == 7, "seven octets")
		vp.Assert(b[0] == efi|2, "indicator")
		sameBytes(b[2:], make([]byte, 5), "fill")
		e := int64(b[1])
		switch {
		case d < 0:
			vp.Cover("before now")
			vp.Assert(e == 0, "the shortest period")
		case e == 255:
			vp.Assert(d >= 255*int64(time.Second), "the longest period")
		default:
			vp.Assert(e*int64(time.Second) <= d && d < (e+1)*int64(time.Second), "whole seconds")
		}
	case 3:
		s := vp.Int(0, 1000000)
		ns := vp.Int(0, 999999999)
		sign := time.Duration(1)
		if vp.Choose(2) == 1 {
			sign = -1
		}
		v.SetEnhanced(sign*(time.Duration(s)*time.Second+time.Duration(ns)), efi|3)
		b, err := v.MarshalBinary()
		vp.Assert(err == nil && len(b) == 7, "seven octets")
		vp.Assert(b[0] == efi|3, "indicator")
		sameBytes(b[4:], make([]byte, 3), "fill")
		w := vp.IteInt(s > 359999, 359999, s)
		if sign < 0 {
			w = 0
		}
		vp.Assert(b[1] == bcdRef(w/3600), "hours")
		vp.Assert(b[2] == bcdRef(w/60%60), "minutes")
		vp.Assert(b[3] == bcdRef(w%60), "seconds")
	}
}

// C07_EnhancedArbitrary: any seven octets are refused or mean what they say;
// fill that is not zero and reserved formats are refused.
func C07_EnhancedArbitrary() {
	n := vp.Range(0, 8)
	o := vp.Bytes(n)
	var v tpdu.ValidityPeriod
	used, err := v.UnmarshalBinary(o, tpdu.VpfEnhanced)
	if n < 7 {
		vp.Assert(err != nil, "too few octets are refused")
		return
	}
	f := o[0] & 7
	ok := f <= 3
	first := 1
	switch f {
	case 1, 2:
		first = 2
	case 3:
		first = 4
		for i := 1; i < 4; i++ {
			ok = vp.And(ok, vp.And(o[i]>>4 <= 9, o[i]&0x0f <= 9))
		}
	}
	for i := first; i < 7; i++ {
		ok = vp.And(ok, o[i] == 0)
	}
	vp.Assert((err == nil) == ok, "exactly the well-formed fields decode")
	if err == nil {
		vp.Cover("decoded")
		vp.Assert(used == 7, "seven octets are read")
	} else {
		vp.Cover("refused")
		vp.Assert(v.Format == tpdu.VpfNotPresent, "nothing is set by a field that is refused")
	}
}

// C07_Absolute: the absolute form is a timestamp.
func C07_Absolute() {
	st := symStamp(false)
	var v tpdu.ValidityPeriod
	n, err := v.UnmarshalBinary(clone(st.oct), tpdu.VpfAbsolute)
	vp.Assert(err == nil && n == 7, "seven octets are read")
	vp.Assert(v.Format == tpdu.VpfAbsolute, "format")
	st.same(v.Time, "absolute validity")
	b, err := v.MarshalBinary()
	vp.Assert(err == nil, "it encodes")
	sameBytes(b, st.oct, "absolute validity round trip")
}

// C07_Set: setting a validity period of one kind leaves nothing of another.
func C07_Set() {
	fill := func() tpdu.Timestamp { return tpdu.Timestamp{Time: time.Unix(int64(vp.Int(1, 1<<40)), 0)} }
	v := tpdu.ValidityPeriod{Format: tpdu.ValidityPeriodFormat(vp.Byte()), EFI: vp.Byte(), Duration: time.Duration(vp.I64()), Time: fill()}
	d, efi := time.Duration(vp.I64()), vp.Byte()
	switch vp.Choose(3) {
	case 0:
		t := fill()
		v.SetAbsolute(t)
		vp.Assert(v.Format == tpdu.VpfAbsolute && v.Time.Unix() == t.Unix(), "absolute")
		vp.Assert(v.Duration == 0 && v.EFI == 0, "nothing is left of a duration")
	case 1:
		v.SetRelative(d)
		vp.Assert(v.Format == tpdu.VpfRelative && v.Duration == d, "relative")
		vp.Assert(v.Time == tpdu.Timestamp{} && v.EFI == 0, "nothing is left of another format")
	case 2:
		v.SetEnhanced(d, efi)
		vp.Assert(v.Format == tpdu.VpfEnhanced && v.Duration == d && v.EFI == efi, "enhanced")
		vp.Assert(v.Time == tpdu.Timestamp{}, "nothing is left of a time")
	}
}

// C07_Format: formats outside the four are refused and nothing is read when
// none is present.
func C07_Format() {
	f := vp.Byte()
	var v tpdu.ValidityPeriod
	n, err := v.UnmarshalBinary(vp.Bytes(vp.Range(0, 7)), tpdu.ValidityPeriodFormat(f))
	if f == 0 {
		vp.Assert(n == 0 && err == nil && v.Format == tpdu.VpfNotPresent, "nothing is read")
	}
	if f > 3 {
		vp.Assert(err != nil, "an unknown format is refused")
		w := tpdu.ValidityPeriod{Format: tpdu.ValidityPeriodFormat(f)}
		_, err := w.MarshalBinary()
		vp.Assert(err != nil, "an unknown format does not encode")
	}
	if err != nil {
		vp.Assert(v.Format == tpdu.VpfNotPresent, "nothing is set when decoding fails")
	}
}

// C07_Near: durations just short of and beyond those that a period can say.
func C07_Near() {
	k := int64([]int{1, 2, 3, 59, 60, 61, 119, 254, 255, 256, 3600, 359999, 360000}[vp.Choose(13)])
	off := int64([]time.Duration{1, 500, time.Microsecond, 400 * time.Microsecond, 500 * time.Microsecond, time.Millisecond, 20 * time.Millisecond, 499 * time.Millisecond,
		500 * time.Millisecond, 999 * time.Millisecond}[vp.Choose(10)])
	if vp.Choose(2) == 1 {
		off = -off
	}
	d := k*int64(time.Second) + off
	efi := vp.Byte() & 0xf8
	whole := k
	if off < 0 {
		whole--
	}
	var v tpdu.ValidityPeriod
	f := 2 + vp.Choose(2)
	v.SetEnhanced(time.Duration(d), efi|byte(f))
	b, err := v.MarshalBinary()
	vp.Assert(err == nil, "it encodes")
	want := []byte{efi | byte(f), 0, 0, 0, 0, 0, 0}
	if f == 2 {
		want[1] = byte(min(whole, 255))
	} else {
		w := int(min(whole, 359999))
		want[1], want[2], want[3] = bcdRef(w/3600), bcdRef(w/60%60), bcdRef(w%60)
	}
	sameBytes(b, want, "whole seconds")
}

// C07_NearRelative: the same of the relative periods.
func C07_NearRelative() {
	e := []int{0, 1, 2, 142, 143, 144, 145, 166, 167, 168, 195, 196, 197, 198, 254, 255}[vp.Choose(16)]
	off := int64([]time.Duration{1, time.Millisecond, 500 * time.Millisecond, time.Second, 30 * time.Second}[vp.Choose(5)])
	want := byte(e)
	if vp.Choose(2) == 1 {
		off = -off
		if e > 0 {
			want--
		}
	}
	d := time.Duration(relRef(e) + off)
	var v tpdu.ValidityPeriod
	if vp.Choose(2) == 0 {
		v.SetRelative(d)
		b, err := v.MarshalBinary()
		vp.Assert(err == nil && len(b) == 1 && b[0] == want, "the longest period that does not exceed it")
		return
	}
	efi := vp.Byte()&0xf8 | 1
	v.SetEnhanced(d, efi)
	b, err := v.MarshalBinary()
	vp.Assert(err == nil, "it encodes")
	sameBytes(b, []byte{efi, want, 0, 0, 0, 0, 0}, "the longest period that does not exceed it")
}
