package h

import (
	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"vph/vp"
)

// spareUD is user data in memory that goes on after it.
func spareUD(b []byte) []byte {
	m := make([]byte, len(b)+4)
	copy(m, b)
	for i := len(b); i < len(m); i++ {
		m[i] = 0x5a
	}
	return m[:len(b)]
}

func checkSpare(t *tpdu.TPDU, keep []byte) {
	sameBytes(t.UD, keep, "the segments are not modified")
	for _, x := range t.UD[len(keep):cap(t.UD)] {
		vp.Assert(x == 0x5a, "memory beyond a segment is not written to")
	}
}

// utf16Text is the text of whole UCS-2 characters, and whether it ends in an
// unpaired surrogate.
func utf16Text(src []byte) (text []rune, dangling bool) {
	for i := 0; i < len(src); i += 2 {
		u := rune(src[i])<<8 | rune(src[i+1])
		if u&0xf800 != 0xd800 {
			text = append(text, u)
			continue
		}
		if i+2 == len(src) {
			return text, true
		}
		v := rune(src[i+2])<<8 | rune(src[i+3])
		if u&0xfc00 == 0xd800 && v&0xfc00 == 0xdc00 {
			text = append(text, 0x10000+(u-0xd800)<<10+v-0xdc00)
			i += 2
			continue
		}
		text = append(text, 0xfffd)
	}
	return text, false
}

// C16_UCS2: UCS-2 segments decode to the text of all their octets together, so
// that a surrogate pair may be split between them.
func C16_UCS2() {
	n := vp.Range(0, vp.Param("segments", 3, 4))
	var segs []*tpdu.TPDU
	var all []byte
	var keep [][]byte
	total := 0
	header := vp.Choose(2) == 1
	for i := 0; i < n; i++ {
		u := vp.Range(0, 2)
		total += u
		if total > vp.Param("characters", 4, 5) {
			return
		}
		b := vp.Bytes(2 * u)
		keep = append(keep, clone(b))
		all = append(all, b...)
		t := &tpdu.TPDU{DCS: 8, UD: spareUD(b)}
		if header {
			t.DCS = 0x18 + tpdu.DCS(i)
			t.UDH = tpdu.UserDataHeader{{ID: 0, Data: []byte{1, byte(n), byte(i + 1)}}}
		}
		segs = append(segs, t)
	}
	want, dangling := utf16Text(all)
	got, err := sms.Decode(segs)
	for i, t := range segs {
		checkSpare(t, keep[i])
	}
	if dangling {
		vp.Cover("dangling")
		_, ok := err.(ucs2.ErrDanglingSurrogate)
		vp.Assert(ok, "an unpaired surrogate at the end is reported")
		vp.Assert(len(got) == 0, "nothing is returned with an error")
		return
	}
	vp.Assert(err == nil, "whole characters decode")
	vp.Assert(vp.EqStr(string(got), string(want)), "the text of all segments together")
}

// C16_Odd: a UCS-2 segment that is not whole characters is an error.
func C16_Odd() {
	n := vp.Range(1, 2)
	odd := vp.Choose(n)
	var segs []*tpdu.TPDU
	for i := 0; i < n; i++ {
		l := 2 * vp.Range(0, 1)
		if i == odd {
			l++
		}
		b := vp.Bytes(l)
		segs = append(segs, &tpdu.TPDU{DCS: 8, UD: b})
	}
	_, err := sms.Decode(segs)
	vp.Assert(err == ucs2.ErrInvalidLength, "a segment that is not whole characters is refused")
}

// tableChoice is which tables a decoder may use.
type tableChoice struct {
	locking, shift []int
	all            bool
	opts           []sms.DecodeOption
}

func (c tableChoice) lock(n int) int {
	if !c.all && !contains(c.locking, n) || n > 13 {
		return 0
	}
	return n
}

func (c tableChoice) ext(n int) int {
	if !c.all && !contains(c.shift, n) || n > 13 {
		return 0
	}
	return n
}

func symDecodeOptions(a, b int) tableChoice {
	var c tableChoice
	switch vp.Choose(7) {
	case 0:
		c.all = true
	case 1:
		c.opts = []sms.DecodeOption{sms.WithDefaultCharset}
	case 2:
		c.opts = []sms.DecodeOption{sms.WithCharset(a, b)}
		c.locking, c.shift = []int{a, b}, []int{a, b}
	case 3:
		c.opts = []sms.DecodeOption{sms.WithLockingCharset(a), sms.WithShiftCharset(b), sms.WithLockingCharset(a), sms.WithShiftCharset(b), sms.WithLockingCharset(a)}
		c.locking, c.shift = []int{a}, []int{b}
	case 4:
		c.opts = []sms.DecodeOption{sms.WithShiftCharset(a, b)}
		c.shift = []int{a, b}
	case 5:
		c.opts = []sms.DecodeOption{sms.WithLockingCharset(b), sms.WithLockingCharset(a)}
		c.locking = []int{a, b}
	case 6:
		// documented as available for decoding
		o, ok := interface{}(sms.WithAllCharsets).(sms.DecodeOption)
		vp.Assert(ok, "all character sets can be asked for when decoding")
		c.opts = []sms.DecodeOption{sms.WithDefaultCharset, o}
		c.all = true
	}
	return c
}

// C16_Mixed: segments of septets, octets and UCS-2 decode each in its own
// alphabet and with the character sets its own header names, when they are
// available.
func C16_Mixed() {
	n := vp.Range(1, 2)
	a, b := 13, 3
	if n == 1 {
		a = []int{1, 13, 6}[vp.Choose(vp.Param("languages", 2, 3))]
	}
	c := symDecodeOptions(a, b)
	var segs []*tpdu.TPDU
	var keep [][]byte
	want := ""
	kf := false
	for i := 0; i < n; i++ {
		t := &tpdu.TPDU{}
		switch vp.Choose(3) {
		case 0:
			u := septets(vp.Range(0, vp.Param("septets", 3-n, 4-n)))
			lock, ext := 0, 0
			switch vp.Choose(4) {
			case 1:
				lock = a
			case 2:
				ext = b
			case 3:
				lock, ext = b, a
			}
			t.DCS = 0x11
			if lock != 0 {
				t.UDH = append(t.UDH, tpdu.InformationElement{ID: 25, Data: []byte{byte(lock)}})
			}
			t.UDH = append(t.UDH, tpdu.InformationElement{ID: 8, Data: []byte{0, 1, byte(n), byte(i + 1)}})
			if ext != 0 {
				t.UDH = append(t.UDH, tpdu.InformationElement{ID: 24, Data: []byte{byte(ext)}})
			}
			t.UD = spareUD(u)
			want += string(decodeText(clone(u), c.lock(lock), c.ext(ext), &kf))
		case 1:
			u := vp.Bytes(vp.Range(0, 2))
			t.DCS, t.UD = 4, spareUD(u)
			want += string(clone(u))
		case 2:
			u := vp.Bytes(2)
			vp.Assume(u[0]&0xf8 != 0xd8)
			t.DCS, t.UD = 0xe0, spareUD(u)
			want += string(rune(u[0])<<8 | rune(u[1]))
		}
		keep = append(keep, clone(t.UD))
		segs = append(segs, t)
	}
	got, err := sms.Decode(segs, c.opts...)
	for i, t := range segs {
		checkSpare(t, keep[i])
	}
	vp.Assert(err == nil, "it decodes")
	vp.Assert(vp.EqStr(string(got), want), "each segment in its own alphabet and character sets")
}

// C16_Coding: segments of any coding scheme, one after the other; what is
// reserved counts as septets.
func C16_Coding() {
	var segs []*tpdu.TPDU
	want := ""
	kf := false
	for i := 0; i < 2; i++ {
		d := vp.Byte()
		a, _, _ := dcsRef(d)
		u := vp.Bytes(2)
		switch a {
		case 1:
			want += string(clone(u))
		case 2:
			vp.Assume(u[0]&0xf8 != 0xd8)
			want += string(rune(u[0])<<8 | rune(u[1]))
		default:
			if a == 3 {
				vp.Cover("reserved")
			}
			u[0], u[1] = 'a'+u[0]&7, 'A'+u[1]&7
			want += string(decodeText(clone(u), 0, 0, &kf))
		}
		segs = append(segs, &tpdu.TPDU{DCS: tpdu.DCS(d), UD: u})
	}
	got, err := sms.Decode(segs)
	vp.Assert(err == nil, "it decodes")
	vp.Assert(vp.EqStr(string(got), want), "each segment in its own alphabet")
}

// C28_Permitted: the tables used to decode are those the last elements of
// their kind name, when they have been made available, else the default ones.
func C28_Permitted() {
	a, b := []int{1, 13, 6}[vp.Choose(vp.Param("languages", 1, 3))], 3
	var opts []tpdu.UDDecodeOption
	var c tableChoice
	switch vp.Choose(6) {
	case 0:
	case 1:
		opts = []tpdu.UDDecodeOption{tpdu.WithCharset(a, b)}
		c.locking, c.shift = []int{a, b}, []int{a, b}
	case 2:
		opts = []tpdu.UDDecodeOption{tpdu.WithLockingCharset(a, b)}
		c.locking = []int{a, b}
	case 3:
		opts = []tpdu.UDDecodeOption{tpdu.WithShiftCharset(b), tpdu.WithShiftCharset(a)}
		c.shift = []int{a, b}
	case 4:
		opts = []tpdu.UDDecodeOption{tpdu.WithAllCharsets}
		c.all = true
	case 5:
		opts = []tpdu.UDDecodeOption{tpdu.WithLockingCharset(a), tpdu.WithShiftCharset(b)}
		if vp.Choose(2) == 1 {
			// said more than once
			opts = append(append(opts, opts...), opts...)
		}
		c.locking, c.shift = []int{a}, []int{b}
	}
	var u tpdu.UserDataHeader
	lock, ext := 0, 0
	n := vp.Range(0, vp.Param("elements", 2, 3))
	for i := 0; i < n; i++ {
		id := []byte{24, 25, 36}[vp.Choose(vp.Param("kinds", 2, 3))]
		var d []byte
		switch vp.Choose(3) {
		case 0:
			if i == n-1 {
				d = []byte{vp.Byte()}
			} else {
				d = []byte{byte([]int{b, a, 5, 0, 200}[vp.Choose(vp.Param("identifiers", 2, 5))])}
			}
		case 1:
			d = []byte{byte(a), vp.Byte()}
		case 2:
		}
		u = append(u, tpdu.InformationElement{ID: id, Data: d})
		v := 0
		if len(d) > 0 {
			v = vp.Conc(vp.IteInt(d[0] > 13, 14, int(d[0])))
		}
		switch id {
		case 24:
			ext = c.ext(v)
		case 25:
			lock = c.lock(v)
		}
	}
	ud := septets(vp.Param("septets", 1, 2))
	if vp.Choose(2) == 1 {
		ud = append([]byte{0x1b}, ud...)
	}
	keep := clone(ud)
	got, err := tpdu.DecodeUserData(ud, u, tpdu.Alpha7Bit, opts...)
	sameBytes(ud, keep, "the user data is not modified")
	vp.Assert(err == nil, "it decodes")
	kf := false
	want := decodeText(keep, lock, ext, &kf)
	vp.AssertK("KF2", kf, vp.EqStr(string(got), string(want)), "the tables named by the header, as far as they are available")
	if lock != 0 && ext != 0 {
		vp.Cover("both")
	}
}
