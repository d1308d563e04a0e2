package h

import (
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// layout is the octets of a TPDU and where its fields start.
type layout struct {
	st   int
	b    []byte
	name []string
	at   []int
	dir  tpdu.Direction
	end  int // where a status report may end, or -1
}

func (l *layout) add(name string, o ...byte) {
	l.name = append(l.name, name)
	l.at = append(l.at, len(l.b))
	l.b = append(l.b, o...)
}

// field is the field that the octet at n belongs to, and where it starts.
func (l *layout) field(n int) (string, int) {
	i := len(l.at) - 1
	for l.at[i] > n {
		i--
	}
	return l.name[i], l.at[i]
}

func (l *layout) start(name string) int {
	for i, n := range l.name {
		if n == name {
			return l.at[i]
		}
	}
	return -1
}

func (l *layout) typ() string { return tpdu.SmsType(l.st).String() }

func (l *layout) decode(n int) (*tpdu.TPDU, error) {
	t := &tpdu.TPDU{Direction: l.dir}
	return t, t.UnmarshalBinary(clone(l.b[:n]))
}

// optionals is the parameter indicator and what it announces; for a SMS-SUBMIT-REPORT the
// timestamp comes between.
func (l *layout) optionals(ud udField, scts []byte) {
	pi := byte(vp.Choose(8))
	l.add("pi", vp.Byte()&0xf8|pi)
	if scts != nil {
		l.add("scts", scts...)
	}
	if pi&1 != 0 {
		l.add("pid", vp.Byte())
	}
	if pi&2 != 0 {
		l.add("dcs", ud.dcs)
	}
	if pi&4 != 0 {
		if pi&2 == 0 {
			ud = plain(ud.ud)
		}
		l.add("ud", ud.oct...)
	}
}

// plain is user data of the default alphabet without a header.
func plain(ud []byte) udField {
	for i := range ud {
		ud[i] &= 0x7f
	}
	return udField{ud: ud, oct: udFieldRef(0, nil, ud)}
}

// symLayout is an arbitrary TPDU of a type, with its fields; with only one
// kind of the fields other than that given, if any is.
func symLayout(st int, what string) *layout {
	l := &layout{st: st, end: -1, dir: tpdu.Direction(st & 1)}
	// user data with and without a header
	var ud udField
	kind := 2
	if what == "" || what == "ud" || what == "dcs" {
		kind = vp.Choose(5)
	}
	if st == int(tpdu.SmsCommand) {
		kind = []int{0, 2, 3, 2, 3}[kind]
	}
	units := vp.Param("user data units", 2, 4)
	switch kind {
	case 0:
		ud = plain(nil)
	case 1:
		ud = plain(vp.Bytes(units))
	case 2, 3, 4:
		ud.dcs = 4
		ud.ud = vp.Bytes(units)
		if kind == 4 {
			ud.dcs = 8
			ud.ud = vp.Bytes(2 * units)
		}
		if kind != 2 {
			ud.udh = symUDH(2, 0, 2)
		}
		ud.oct = udFieldRef(1, ud.udh, ud.ud)
	}
	fo := byte(st>>1) | vp.Byte()&0xa4
	if len(ud.udh) > 0 {
		fo |= 0x40
		if st == 1 || st == 2 || st == 4 {
			ud.udh = nil // as what is announced decides
			ud.oct = udFieldRef(1, nil, ud.ud)
			fo &^= 0x40
		}
	}
	var da []byte
	if st != 1 && st != 2 {
		n := 1
		if what == "" || strings.HasSuffix(what, "a") {
			n = vp.Range(0, vp.Param("digits", 2, 4))
		}
		a := tpdu.Address{TOA: vp.Byte() | 0x80, Addr: "12345678"[:n]}
		vp.Assume(a.TOA&0x70 != 0x50)
		da = addrRef(a)
	}
	_, ts := liteStamp()
	switch tpdu.SmsType(st) {
	case tpdu.SmsDeliver:
		l.add("fo", fo)
		l.add("oa", da...)
		l.add("pid", vp.Byte())
		l.add("dcs", ud.dcs)
		l.add("scts", ts...)
		l.add("ud", ud.oct...)
	case tpdu.SmsDeliverReport:
		l.add("fo", fo)
		l.add("fcs", vp.Byte())
		l.optionals(ud, nil)
	case tpdu.SmsSubmitReport:
		l.add("fo", fo)
		l.add("fcs", vp.Byte())
		l.optionals(ud, ts)
	case tpdu.SmsSubmit:
		f, vo := byte(2), []byte{vp.Byte()}
		if what == "" || what == "vp" {
			v, o := symVP()
			f, vo = byte(v.Format), o
		}
		l.add("fo", fo|f<<3)
		l.add("mr", vp.Byte())
		l.add("da", da...)
		l.add("pid", vp.Byte())
		l.add("dcs", ud.dcs)
		if len(vo) > 0 {
			l.add("vp", vo...)
		}
		l.add("ud", ud.oct...)
	case tpdu.SmsStatusReport:
		l.add("fo", fo)
		l.add("mr", vp.Byte())
		l.add("ra", da...)
		l.add("scts", ts...)
		l.add("dt", ts...)
		l.add("st", vp.Byte())
		l.end = len(l.b)
		l.optionals(ud, nil)
	case tpdu.SmsCommand:
		l.add("fo", fo)
		l.add("mr", vp.Byte())
		l.add("pid", vp.Byte())
		l.add("ct", vp.Byte())
		l.add("mn", vp.Byte())
		l.add("da", da...)
		l.add("ud", ud.oct...)
	}
	return l
}

// refused checks the error of a field that starts at at, found within the
// octets before to.
func (l *layout) refused(err error, name string, at, to int) tpdu.DecodeError {
	de, ok := err.(tpdu.DecodeError)
	vp.Assert(ok, "the error says what could not be decoded")
	full := l.typ() + "." + name
	vp.Assert(de.Field == full || strings.HasPrefix(de.Field, full+"."), "the error names the type and the field")
	vp.Assert(de.Offset >= at && de.Offset <= to, "the error is where the field is")
	return de
}

// fields checks that the fields whose octets end by n were set.
func (l *layout) fields(t *tpdu.TPDU, n int) {
	for i, name := range l.name {
		end := len(l.b)
		if i+1 < len(l.at) {
			end = l.at[i+1]
		}
		if end > n {
			return
		}
		o := l.b[l.at[i]:end]
		var got byte
		switch name {
		case "fo":
			got = byte(t.FirstOctet)
		case "mr":
			got = t.MR
		case "pid":
			got = t.PID
		case "ct":
			got = t.CT
		case "mn":
			got = t.MN
		case "dcs":
			got = byte(t.DCS)
		case "fcs":
			got = t.FCS
		case "st":
			got = t.ST
		case "pi":
			got = byte(t.PI)
		case "oa":
			got = t.OA.TOA
			o = o[1:]
			vp.Assert(len(t.OA.Addr) == int(l.b[l.at[i]]), "an address before what is refused is there")
		case "da":
			got = t.DA.TOA
			o = o[1:]
			vp.Assert(len(t.DA.Addr) == int(l.b[l.at[i]]), "an address before what is refused is there")
		case "ra":
			got = t.RA.TOA
			o = o[1:]
			vp.Assert(len(t.RA.Addr) == int(l.b[l.at[i]]), "an address before what is refused is there")
		case "scts":
			sameStamp(t.SCTS, o, "a timestamp before what is refused")
			continue
		case "dt":
			sameStamp(t.DT, o, "a timestamp before what is refused")
			continue
		default:
			continue
		}
		vp.Assert(got == o[0], "a field before what is refused is there")
	}
}

func cutOff(st int) {
	l := symLayout(st, "")
	n := vp.Range(0, len(l.b)-1)
	t, err := l.decode(n)
	if n == l.end {
		vp.Assert(err == nil, "what is optional may be missing")
		return
	}
	name, at := l.field(n)
	var de tpdu.DecodeError
	if name == "fo" {
		de, _ = err.(tpdu.DecodeError)
		vp.Assert(de.Field == "tpdu.firstOctet" && de.Offset == 0, "the error names the first octet")
	} else {
		de = l.refused(err, name, at, n)
		l.fields(t, n)
		if n == at {
			vp.Assert(de.Offset == at, "the error is where the missing field should start")
		}
	}
	vp.Assert(de.Err == tpdu.ErrUnderflow, "the error says that octets are missing")
	var r *tpdu.TPDU
	if l.dir == tpdu.MO {
		r, err = sms.Unmarshal(clone(l.b[:n]), sms.AsMO)
	} else {
		r, err = sms.Unmarshal(clone(l.b[:n]))
	}
	vp.Assert(r == nil && err == error(de), "the error is given to the user")
}

// C29_CutDeliver: a SMS-DELIVER cut off anywhere.
func C29_CutDeliver() { cutOff(0) }

// C29_CutReports: a report cut off anywhere.
func C29_CutReports() { cutOff([]int{1, 2}[vp.Choose(2)]) }

// C29_CutSubmit: a SMS-SUBMIT cut off anywhere.
func C29_CutSubmit() { cutOff(3) }

// C29_CutStatusReport: a SMS-STATUS-REPORT cut off anywhere.
func C29_CutStatusReport() { cutOff(4) }

// C29_CutCommand: a SMS-COMMAND cut off anywhere.
func C29_CutCommand() { cutOff(5) }

// C29_Content: a field whose octets mean nothing is named, with the reason.
func C29_Content() {
	st := vp.Choose(6)
	what := []string{"oa", "da", "ra", "scts", "dt", "vp", "dcs", "ud", "fo"}[vp.Choose(9)]
	l := symLayout(st, what)
	at := l.start(what)
	if at < 0 {
		return
	}
	b := l.b
	n := len(b)
	var cause error
	lo, hi := at, at
	switch what {
	case "oa", "da", "ra":
		// a filler that is not at the end
		if b[at] == 0 {
			return
		}
		b[at+2] |= 0x0f
		cause = tpdu.ErrUnderflow
		if b[at] == 1 {
			cause = nil
		}
		lo, hi = at+2, at+2
	case "scts", "dt":
		i := vp.Choose(7)
		o := vp.Byte()
		bad := vp.Or(o&0x0f > 9, o>>4 > 9)
		if i == 6 {
			bad = o>>4 > 9
		}
		vp.Assume(bad)
		b[at+i] = o
		cause = bcd.ErrInvalidOctet(o)
	case "vp":
		if b[0]>>3&3 == 2 {
			return // every octet is a period
		}
		if b[0]>>3&3 == 3 {
			i := vp.Choose(6)
			o := vp.Byte()
			vp.Assume(vp.Or(o&0x0f > 9, o>>4 > 9))
			b[at+i] = o
			cause = bcd.ErrInvalidOctet(o)
			break
		}
		switch f := b[at] & 7; vp.Choose(3) {
		case 0: // a reserved format
			b[at] = vp.Byte() | 4
			cause = tpdu.ErrInvalid
		case 1: // not decimal
			if f != 3 {
				return
			}
			o := vp.Byte()
			vp.Assume(vp.Or(o&0x0f > 9, o>>4 > 9))
			b[at+1+vp.Choose(3)] = o
			cause = bcd.ErrInvalidOctet(o)
			lo, hi = at+1, at+3
		case 2: // not zero where nothing should be
			i := 6 - vp.Choose(6)
			if i < []int{1, 2, 2, 4}[f] {
				return
			}
			o := vp.Byte()
			vp.Assume(o != 0)
			b[at+i] = o
			cause = tpdu.ErrNonZero
			lo, hi = at+i, at+i
		}
	case "dcs":
		// a reserved coding, for user data there is
		ua := l.start("ud")
		if ua < 0 || b[ua] == 0 || st == 1 || st == 2 {
			return
		}
		b[at] = 0x80 | vp.Byte()&0x3f
		what, lo, hi = "ud", ua, n
		cause = tpdu.ErrInvalid
	case "ud":
		if b[at] == 0 {
			return
		}
		b = append(b, vp.Bytes(vp.Range(1, 2))...)
		cause = tpdu.ErrOverlength
		hi = at + 1
	case "fo":
		b[0] |= 3
		l.b = b
		_, err := l.decode(n)
		de, ok := err.(tpdu.DecodeError)
		_, unsup := de.Err.(tpdu.ErrUnsupportedSmsType)
		vp.Assert(ok && de.Field == "tpdu.firstOctet" && de.Offset == 0 && unsup, "a type there is not is refused")
		return
	}
	l.b = b
	t, err := l.decode(len(b))
	de := l.refused(err, what, lo, hi)
	if cause != nil {
		vp.Assert(de.Err == cause, "the error says what is wrong")
	}
	if what != "ud" {
		l.fields(t, at)
	}
}

// C29_Encode: the field that cannot be encoded is named, with the reason.
func C29_Encode() {
	st := tpdu.SmsType(vp.Choose(6))
	t := &tpdu.TPDU{Direction: tpdu.Direction(st & 1), FirstOctet: tpdu.FirstOctet(st >> 1), PI: tpdu.PI(vp.Byte()), FCS: vp.Byte(), PID: vp.Byte()}
	ts, _ := liteStamp()
	t.SCTS, t.DT = ts, ts
	name := ""
	var cause error
	bad := tpdu.Address{TOA: 0x91}
	switch vp.Choose(7) {
	case 0: // an address
		n := vp.Range(1, 3)
		d := make([]byte, n)
		for i := range d {
			d[i], _ = symDigit()
		}
		c := []byte{'x', '+', ' ', 'A', 0, 0xff, ':', '/'}[vp.Choose(8)]
		d[vp.Choose(n)] = c
		bad.Addr = string(d)
		cause = semioctet.ErrInvalidDigit(c)
		name = addrOf(t, st, bad)
	case 1:
		bad.Addr = string(filled(256, '1'))
		cause = tpdu.ErrOverlength
		name = addrOf(t, st, bad)
	case 2: // user data
		t.PI |= 6
		n := 256 + vp.Choose(2)
		t.UD = filled(n, vp.Byte()&0x7f)
		t.DCS = []tpdu.DCS{0, 4}[vp.Choose(2)]
		name, cause = "ud", tpdu.ErrOverlength
		if st == tpdu.SmsCommand {
			name = "cdl"
		}
	case 3:
		if st == tpdu.SmsCommand {
			return
		}
		t.PI |= 6
		t.UD = vp.Bytes(2)
		t.DCS = 0x80 | tpdu.DCS(vp.Byte()&0x3f)
		name, cause = "ud", tpdu.ErrInvalid
	case 4:
		if st == tpdu.SmsCommand {
			return
		}
		t.PI |= 6
		t.UD = vp.Bytes(vp.Choose(3)*2 + 1)
		t.DCS = 8
		name, cause = "ud", tpdu.ErrOddUCS2Length
	case 5:
		if st != tpdu.SmsSubmit {
			return
		}
		t.VP.Format = tpdu.VpfEnhanced
		t.VP.EFI = vp.Byte() | 4
		t.FirstOctet |= tpdu.FirstOctet(t.VP.Format) << 3
		name, cause = "vp", tpdu.ErrInvalid
	case 6: // a header
		if st != tpdu.SmsSubmit && st != tpdu.SmsDeliver && st != tpdu.SmsCommand {
			return
		}
		n := vp.Choose(2)
		t.UDH = tpdu.UserDataHeader{{ID: 9, Data: filled(100, 1)}, {ID: vp.Byte(), Data: filled(152+n, 2)}}
		t.FirstOctet |= 0x40
		t.DCS = 4
		name, cause = "ud", tpdu.ErrOverlength
		if st == tpdu.SmsCommand {
			name = "udh"
			if 4+252+n <= 255 {
				name = "cdl"
			}
		}
	}
	if name == "" {
		return
	}
	b, err := t.MarshalBinary()
	vp.Assert(b == nil && err != nil, "it is refused")
	text := err.Error()
	vp.Assert(strings.HasPrefix(text, "tpdu: error encoding "+st.String()+"."+name), "the error names the type and the field")
	vp.Assert(strings.HasSuffix(text, ": "+cause.Error()), "the error gives the reason")
}

// addrOf puts an address where a type has one.
func addrOf(t *tpdu.TPDU, st tpdu.SmsType, a tpdu.Address) string {
	switch st {
	case tpdu.SmsDeliver:
		t.OA = a
		return "oa.addr"
	case tpdu.SmsSubmit, tpdu.SmsCommand:
		t.DA = a
		return "da.addr"
	case tpdu.SmsStatusReport:
		t.RA = a
		return "ra.addr"
	}
	return ""
}
