package h

import (
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"vph/vp"
)

// symTables picks a locking and a shift table: each language's with the
// default of the other, and both of the same language.
func symTables() (lock, shift int) {
	n := vp.Choose(14)
	switch vp.Choose(3) {
	case 0:
		return n, 0
	case 1:
		return 0, n
	}
	return n, n
}

func lookup(t *[128]rune, s byte) rune {
	if s >= 128 {
		return 0
	}
	return t[s]
}

// isKF2 is the known finding that three Devanagari signs of the Hindi locking
// table are those of Bengali.
func isKF2(lock int, s byte) bool { return vp.And(lock == 6, s < 3) }

// decodeText is the meaning of octets holding septets: the runes, 0xfffffff
// for what no table defines.  kf is true when the known finding is involved.
func decodeText(src []byte, lock, shift int, kf *bool) []rune {
	var out []rune
	escaped := false
	for _, s := range src {
		if escaped {
			escaped = false
			if s == 0x1b {
				out = append(out, ' ')
				continue
			}
			if r := lookup(&shiftTables[shift], s); r != 0 {
				out = append(out, r)
				continue
			}
		} else if s == 0x1b {
			escaped = true
			continue
		}
		*kf = vp.Or(*kf, isKF2(lock, s))
		if r := lookup(&lockTables[lock], s); r != 0 {
			out = append(out, r)
		} else {
			out = append(out, ' ')
			hole = true
		}
	}
	if escaped {
		out = append(out, ' ')
	}
	return out
}

var hole bool

func gsmOptions(lock, shift int) (d []gsm7.DecoderOption, e []gsm7.EncoderOption) {
	if lock != 0 {
		d = append(d, gsm7.WithCharset(lock))
		e = append(e, gsm7.WithCharset(lock))
	}
	if shift != 0 {
		d = append(d, gsm7.WithExtCharset(shift))
		e = append(e, gsm7.WithExtCharset(shift))
	}
	return
}

func symSeptetSeq(n int) []byte {
	b := vp.Bytes(n)
	return b
}

// C13_Decode: any octets decode to the text the tables give.
func C13_Decode() {
	lock, shift := symTables()
	src := symSeptetSeq(vp.Range(0, vp.Param("septets", 2, 3)))
	keep := clone(src)
	opts, _ := gsmOptions(lock, shift)
	got, err := gsm7.Decode(src, opts...)
	sameBytes(src, keep, "the septets are not modified")
	vp.Assert(err == nil, "decoding does not fail")
	kf := false
	hole = false
	want := string(decodeText(keep, lock, shift, &kf))
	vp.AssertK("KF2", kf, vp.EqStr(string(got), want), "the text is the tables'")
}

// C13_Escapes: runs of escapes, characters and octets with and without meaning
// in the shift table decode each as it comes, strictly or not.
func C13_Escapes() {
	n := vp.Range(3, vp.Param("septets", 5, 8))
	src := make([]byte, n)
	for i := range src {
		// escape, space, or a character of both tables
		src[i] = vp.Byte()
		vp.Assume(vp.Or(src[i] == 0x1b, vp.Or(src[i] == ' ', src[i] == 0x14)))
	}
	kf := false
	hole = false
	keep := clone(src)
	want := string(decodeText(keep, 0, 0, &kf))
	got, err := gsm7.Decode(src)
	vp.Assert(err == nil && vp.EqStr(string(got), want), "the text is the tables'")
	refuse, esc := false, false
	for _, s := range src {
		refuse = refuse || esc && s != 0x1b && lookup(&shiftTables[0], s) == 0
		esc = !esc && s == 0x1b
	}
	got, err = gsm7.Decode(src, gsm7.Strict)
	vp.Assert((err != nil) == refuse, "strict decoding refuses exactly what has no meaning")
	vp.Assert(refuse || vp.EqStr(string(got), want), "and gives the same text")
	sameBytes(src, keep, "the septets are not modified")
}

// C13_DecodeStrict: strict decoding gives the same text or refuses exactly
// septets without a character.
func C13_DecodeStrict() {
	lock, shift := symTables()
	src := symSeptetSeq(vp.Range(1, 2))
	opts, _ := gsmOptions(lock, shift)
	got, err := gsm7.Decode(src, append(opts, gsm7.Strict)...)
	// in strict decoding an escape is not undone
	bad := false
	esc := false
	for _, s := range src {
		if esc {
			esc = false
			if s != 0x1b && lookup(&shiftTables[shift], s) == 0 {
				bad = true
			}
		} else if s == 0x1b {
			esc = true
		} else if lookup(&lockTables[lock], s) == 0 {
			bad = true
		}
	}
	if bad {
		vp.Cover("refused")
		vp.Assert(err != nil, "a septet without a character is refused")
		_, is := err.(gsm7.ErrInvalidSeptet)
		vp.Assert(is, "the error is about a septet")
		return
	}
	vp.Cover("decoded")
	vp.Assert(err == nil, "septets with characters are not refused")
	kf := false
	want := string(decodeText(src, lock, shift, &kf))
	vp.AssertK("KF2", kf, vp.EqStr(string(got), want), "the text is the tables'")
}

func inTable(t *[128]rune, r rune) bool {
	in := false
	for s, x := range t {
		if s != 0x1b && x != 0 {
			in = vp.Or(in, x == r)
		}
	}
	return in
}

// C13_Encode: any character encodes to its septet, to an escape and its
// septet, or is refused, as the tables say; text before and after does not
// matter.
func C13_Encode() {
	lock, shift := symTables()
	r := vp.Rune()
	_, opts := gsmOptions(lock, shift)
	pre, post := "", ""
	if vp.Choose(2) == 1 {
		pre, post = "0", "a"
		if lock == 0 {
			pre = "à"
		}
	}
	got, err := gsm7.Encode([]byte(pre+string(r)+post), opts...)
	inLock := inTable(&lockTables[lock], r)
	inShift := inTable(&shiftTables[shift], r)
	// Hindi: three signs of Bengali where those of Devanagari belong
	kf := vp.And(lock == 6, vp.Or(vp.And(r >= 0x901, r <= 0x903), vp.And(r >= 0x981, r <= 0x983)))
	if err != nil {
		vp.Cover("refused")
		vp.AssertK("KF2", kf, vp.Not(vp.Or(inLock, inShift)), "a character of the tables is not refused")
		vp.Assert(got == nil, "nothing is produced with an error")
		return
	}
	vp.Cover("encoded")
	np := len(pre)
	if np > 1 {
		np = 1
	}
	nq := len(post)
	vp.Assert(len(got) >= np+nq+1 && len(got) <= np+nq+2, "one septet or two for a character")
	c := got[np : len(got)-nq]
	if len(c) == 1 {
		vp.Assert(c[0] < 128 && c[0] != 0x1b, "a septet, and not the escape")
		vp.AssertK("KF2", kf, lookup(&lockTables[lock], c[0]) == r, "the septet is the character's")
	} else {
		vp.Assert(c[0] == 0x1b && c[1] < 128 && c[1] != 0x1b, "an escape and a septet")
		vp.Assert(lookup(&shiftTables[shift], c[1]) == r, "the escaped septet is the character's")
		vp.AssertK("KF2", kf, vp.Not(inLock), "only characters outside the locking table are escaped")
	}
	vp.ObsBytes("septets", got)
}

// C13_RoundTrip: text that encodes decodes to itself, with every table.
func C13_RoundTrip() {
	lock, shift := symTables()
	s := string(vp.Rune())
	if vp.Choose(2) == 1 {
		s = "1" + s + "z"
	}
	d, e := gsmOptions(lock, shift)
	sep, err := gsm7.Encode([]byte(s), e...)
	if err != nil {
		return
	}
	got, err := gsm7.Decode(sep, d...)
	vp.Assert(err == nil, "what was encoded decodes")
	vp.Assert(vp.EqStr(string(got), s), "text round trip")
	got, err = gsm7.Decode(sep, append(d, gsm7.Strict)...)
	vp.Assert(err == nil && vp.EqStr(string(got), s), "text round trip, strictly")
}

// C13_Bytes: octets that are not UTF-8 are refused; ASCII letters and digits
// mixed with any other octets encode exactly when they are text.
func C13_Bytes() {
	src := vp.Bytes(vp.Range(0, vp.Param("octets", 2, 3)))
	keep := clone(src)
	got, err := gsm7.Encode(src)
	sameBytes(src, keep, "the text is not modified")
	if err != nil {
		return
	}
	back, err := gsm7.Decode(got)
	vp.Assert(err == nil, "what was encoded decodes")
	sameBytes(back, keep, "octets that are accepted come back")
}

// C13_Select: identifiers without tables select the default.
func C13_Select() {
	n := vp.Int(-2, 40)
	r := vp.Rune()
	a, aerr := gsm7.Encode([]byte(string(r)), gsm7.WithCharset(n), gsm7.WithExtCharset(n))
	if vp.Or(n < 1, n > 13) {
		vp.Cover("default")
		b, berr := gsm7.Encode([]byte(string(r)))
		vp.Assert((aerr == nil) == (berr == nil), "as with the default tables")
		sameBytes(a, b, "as with the default tables")
	}
}

// C13_NoExt: leaving out the extension leaves escaped characters to the
// locking table.
func C13_NoExt() {
	s := vp.Byte()
	got, err := gsm7.Decode([]byte{0x1b, s}, gsm7.WithoutExtCharset)
	vp.Assert(err == nil, "decoding does not fail")
	w := lookup(&lockTables[0], s)
	if vp.Or(s == 0x1b, w == 0) {
		w = ' '
	}
	vp.Assert(vp.EqStr(string(got), string(w)), "escaped characters are those of the locking table")
}

// C13_Custom: a decoder and an encoder use the tables they are given.
func C13_Custom() {
	d := gsm7.NewDecoder().WithCharset(charset.NewDecoder(1)).WithExtCharset(charset.NewExtDecoder(3)).Strict()
	t := vp.Byte()
	out, err := d.Decode([]byte{t})
	if w := lookup(&lockTables[1], t); w != 0 && t != 0x1b {
		vp.Assert(err == nil && vp.EqStr(string(out), string(w)), "a decoder uses the tables it was given")
	}
	r := vp.Rune()
	e := gsm7.NewEncoder().WithCharset(charset.NewEncoder(3)).WithExtCharset(charset.NewExtEncoder(1))
	sep, err := e.Encode([]byte(string(r)))
	vp.Assert((err == nil) == vp.Or(inTable(&lockTables[3], r), inTable(&shiftTables[1], r)), "an encoder uses the tables it was given")
	if err == nil {
		kf := false
		vp.Assert(vp.EqStr(string(decodeText(sep, 3, 1, &kf)), string(r)), "the septets are the character's")
	}
}
