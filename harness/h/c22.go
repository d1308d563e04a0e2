//go:build cmds

package h

import (
	"fmt"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/cmds/charsets"
	"vph/cmds/smscounter"
	"vph/cmds/smsdecode"
	"vph/cmds/smsdeliver"
	"vph/cmds/smssubmit"
	"vph/shim/env"
	"vph/shim/flag"
	"vph/shim/os"
	"vph/vp"
)

func command(main func(), args ...string) (code int, out, err string) {
	flag.Reset()
	os.Args = append([]string{"command"}, args...)
	return env.Run(main, args...)
}

// C22_Usage: without what they need, commands say how they are used and fail.
func C22_Usage() {
	k := vp.Choose(4)
	main := []func(){smscounter.Main, smssubmit.Main, smsdecode.Main, smsdeliver.Main}[k]
	var args []string
	switch vp.Choose(4) {
	case 1:
		if k == 1 {
			args = []string{"-number", "12345"}
		}
	case 2:
		if k == 1 {
			args = []string{"-message", "hello"}
		}
	case 3:
		args = []string{"-nosuchflag"}
	}
	code, out, err := command(main, args...)
	vp.Assert(code != 0, "it fails")
	vp.Assert(out == "" && err != "", "it says why")
}

// language is a character set to ask for, and the arguments that do.
func language() (nli int, args []string) {
	nli = []int{0, 1, 13, 3}[vp.Choose(vp.Param("languages", 3, 4))]
	switch nli {
	case 0:
		return
	case 1:
		return nli, []string{"-language=1"}
	}
	return nli, []string{"-language", fmt.Sprint(nli)}
}

// messageText is a message for a command line.
func messageText() string {
	before := []int{0, 68, 159, 152}[vp.Choose(4)]
	t := append(fill(before), symText(1)...)
	if before == 152 {
		// a character of two septets does not fit the first of two TPDUs
		t = append(t, fill(9)...)
	} else if vp.Choose(2) == 1 {
		t = append(t, fill(vp.Param("characters after", 1, 2))...)
	}
	return string(t)
}

func commandOptions(nli int, o ...sms.EncoderOption) []sms.EncoderOption {
	if nli != 0 {
		o = append(o, sms.WithCharset(nli))
	}
	return o
}

// C22_Counter: the counts are those of the TPDUs the message is sent as.
func C22_Counter() {
	nli, args := language()
	msg := messageText()
	code, out, cerr := command(smscounter.Main, append(args, "-message", msg)...)
	pdus, err := sms.Encode([]byte(msg), commandOptions(nli)...)
	vp.Assert(err == nil, "it encodes")
	vp.Assert(code == 0 && cerr == "", "it succeeds")
	al, _ := pdus[0].Alphabet()
	enc, alpha := "7BIT", 0
	unit := 1
	if al == tpdu.AlphaUCS2 {
		vp.Cover("UCS-2")
		enc, alpha, unit = "UCS-2", 2, 2
	} else {
		esc := false
		for _, p := range pdus {
			for _, u := range p.UD {
				esc = vp.Or(esc, u == 0x1b)
			}
		}
		if esc {
			vp.Cover("escapes")
			enc = "7BIT_EX"
		}
	}
	if len(pdus) > 1 {
		vp.Cover("several")
	}
	per := blockRef(140, alpha, len(udhRef(pdus[0].UDH))) / unit
	last := len(pdus[len(pdus)-1].UD) / unit
	want := fmt.Sprintf("encoding: %s\nmessages: %d\ntotal length: %d\nlast PDU length: %d\nper_message: %d\nremaining: %d\n",
		enc, len(pdus), per*(len(pdus)-1)+last, last, per, per-last)
	vp.Assert(vp.EqStr(out, want), "the counts of the TPDUs")
}

// C22_Long: messages of many TPDUs, in which only one character is not like the
// others.
func C22_Long() {
	n := []int{3, 10, 17}[vp.Choose(vp.Param("segments", 3, 3))]
	msg := filled(n*153-20, 'x')
	at := []int{1, len(msg) / 2, len(msg) - 1}[vp.Choose(3)]
	msg[at] = []byte("~y")[vp.Choose(2)]
	enc, total := "7BIT", len(msg)
	if msg[at] == '~' {
		enc, total = "7BIT_EX", total+1
	}
	code, out, cerr := command(smscounter.Main, "-message", string(msg))
	vp.Assert(code == 0 && cerr == "", "it counts")
	last := total - 153*(n-1)
	vp.Assert(out == fmt.Sprintf("encoding: %s\nmessages: %d\ntotal length: %d\nlast PDU length: %d\nper_message: 153\nremaining: %d\n", enc, n, total, last, 153-last), "the counts of the TPDUs")
	num := []byte("12345")
	num[2], _ = symDigit()
	vp.Assume(num[2] <= '9')
	code, out, cerr = command(smssubmit.Main, "-number", string(num), "-message", string(msg))
	vp.Assert(code == 0 && cerr == "", "it encodes")
	pdus, err := sms.Encode(msg, sms.To(string(num)))
	vp.Assert(err == nil && len(pdus) == n, "as so many")
	want := ""
	for i := range pdus {
		b, err := pdus[i].MarshalBinary()
		vp.Assert(err == nil, "a TPDU marshals")
		want += fmt.Sprintf("Submit TPDU %d:\n", i+1) + hexRef(b) + "\n"
	}
	vp.Assert(vp.EqStr(out, want), "the TPDUs in hex, numbered")
}

// C22_Submit: the hex form of the TPDUs the message is sent as.
func C22_Submit() {
	nli, args := language()
	msg := messageText()
	number := []string{"12345", "+1234"}[vp.Choose(2)]
	args = append(args, "-number", number, "-message", msg)
	if vp.Choose(2) == 1 {
		args = append([]string{"--message=" + msg}, args[:len(args)-2]...)
	}
	code, out, cerr := command(smssubmit.Main, args...)
	pdus, err := sms.Encode([]byte(msg), commandOptions(nli, sms.AsSubmit, sms.To(number))...)
	vp.Assert(err == nil, "it encodes")
	vp.Assert(code == 0 && cerr == "", "it succeeds")
	want := ""
	for i := range pdus {
		vp.Assert(pdus[i].SmsType() == tpdu.SmsSubmit, "it is a SMS-SUBMIT")
		b, err := pdus[i].MarshalBinary()
		vp.Assert(err == nil, "a TPDU marshals")
		head := "Submit TPDU"
		if len(pdus) > 1 {
			vp.Cover("several")
			head += fmt.Sprintf(" %d", i+1)
		}
		want += head + ":\n" + hexRef(b) + "\n"
	}
	vp.Assert(vp.EqStr(out, want), "the TPDUs in hex")
}

// C22_SubmitRefused: a number that is not one, and a message that needs too
// many TPDUs, fail.
func C22_SubmitRefused() {
	var number, msg string
	switch vp.Choose(3) {
	case 0:
		number, msg = "12345", string(filled(255*153+1, 'a'))
	case 1:
		msg = string(fill([]int{3, 200}[vp.Choose(2)]))
		number = vp.Str(vp.Range(1, vp.Param("characters", 2, 3)))
	case 2:
		number, msg = "+"+vp.Str(1), "hello"
	}
	code, out, cerr := command(smssubmit.Main, "-number", number, "-message", msg)
	pdus, err := sms.Encode([]byte(msg), sms.To(number))
	for i := range pdus {
		if err == nil {
			_, err = pdus[i].MarshalBinary()
		}
	}
	if err == nil {
		vp.Cover("accepted")
		vp.Assert(code == 0 && out != "" && cerr == "", "a number is accepted")
		return
	}
	vp.Cover("refused")
	vp.Assert(code == 1 && out == "" && cerr != "", "what cannot be sent fails and prints nothing")
}

// C22_Deliver: the TPDUs of a message, in any order, print the message.
func C22_Deliver() {
	n := []int{0, 69, 152}[vp.Choose(vp.Param("lengths", 3, 3))]
	t := append(fill(n), symText(1)...)
	t = append(t, fill(9)...)
	msg := string(t)
	pdus, err := sms.Encode([]byte(msg), sms.AsDeliver, sms.From("+123456"), sms.WithTemplateOption(tpdu.DCS(0)))
	vp.Assert(err == nil, "it encodes")
	var args []string
	pm := vp.Choose(2) == 1
	if pm {
		args = append(args, "-p")
	}
	drop := -1
	if vp.Choose(2) == 1 && len(pdus) > 1 {
		vp.Cover("incomplete")
		drop = vp.Choose(len(pdus))
	}
	// neither of these matters to the others
	cut, twice := false, false
	switch vp.Choose(3) {
	case 1:
		cut = true
	case 2:
		twice = len(pdus) > 1
	}
	bad := cut || twice
	for at, i := range arrival(len(pdus)) {
		if i == drop {
			continue
		}
		b, err := pdus[i].MarshalBinary()
		vp.Assert(err == nil, "a TPDU marshals")
		if cut {
			c := hexRef(b[:12])
			if pm {
				c = "00" + c
			}
			args = append(args, c)
		}
		if pm {
			p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: 0x91, Addr: "61"}}, TPDU: b}
			s, err := p.MarshalHexString()
			vp.Assert(err == nil, "a PDU marshals")
			args = append(args, s)
		} else {
			args = append(args, hexRef(b))
		}
		if twice && (at == 0 || drop >= 0) {
			vp.Cover("a segment twice")
			args = append(args, args[len(args)-1])
		}
	}
	code, out, cerr := command(smsdeliver.Main, args...)
	vp.Assert(code == 0, "it succeeds")
	vp.Assert((cerr != "") == bad, "says what it could not read, exactly")
	if drop >= 0 {
		head := "incomplete reassembly: "
		vp.Assert(len(out) > len(head) && vp.EqStr(out[:len(head)], head), "reports a message that is not complete")
		return
	}
	vp.Assert(vp.EqStr(out, "+123456: "+msg+"\n"), "the message and where it is from")
}

// C22_DeliverEmpty: a message of nothing is one all the same.
func C22_DeliverEmpty() {
	num := []byte("12345")
	num[vp.Choose(5)], _ = symDigit()
	t, err := tpdu.NewDeliver(tpdu.DCS([]byte{0, 4, 8}[vp.Choose(3)]))
	vp.Assert(err == nil, "it is made")
	t.OA = tpdu.Address{TOA: []byte{0x91, 0x81}[vp.Choose(2)], Addr: string(num)}
	t.PID = vp.Byte()
	t.SCTS = tpdu.Timestamp{Time: time.Date(2017, time.August, 31, 11, 21, 54, 0, time.FixedZone("", 28800))}
	if vp.Choose(2) == 1 {
		t.SetUDH(tpdu.UserDataHeader{{ID: 1, Data: []byte{vp.Byte()}}})
	}
	b, err := t.MarshalBinary()
	vp.Assert(err == nil, "it marshals")
	code, out, cerr := command(smsdeliver.Main, hexRef(b))
	vp.Assert(code == 0 && cerr == "", "it succeeds")
	vp.Assert(vp.EqStr(out, t.OA.Number()+": \n"), "the number, and nothing")
}

// C22_DeliverRefused: what is not hex fails.
func C22_DeliverRefused() {
	s := vp.Str(vp.Range(1, vp.Param("characters", 2, 3)))
	ok := len(s)%2 == 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok = vp.And(ok, vp.Or(vp.And(c >= '0', c <= '9'), vp.Or(vp.And(c >= 'a', c <= 'f'), vp.And(c >= 'A', c <= 'F'))))
	}
	vp.Assume(s[0] != '-')
	main := smsdeliver.Main
	dec := vp.Choose(2) == 1
	if dec {
		main = smsdecode.Main
	}
	args := []string{s}
	if vp.Choose(2) == 1 {
		args = []string{"-p", s}
	}
	code, out, cerr := command(main, args...)
	vp.Assert(out == "" && cerr != "", "it says why")
	if !ok || dec {
		vp.Assert(code == 1, "what is not hex, or not a PDU, fails")
	}
}

// dumpRef is the hex dump of octets, by lines.
func dumpRef(b []byte) []string {
	var out []string
	for at := 0; at < len(b); at += 16 {
		l := fmt.Sprintf("%08x ", at)
		text := ""
		for i := at; i < at+16; i++ {
			if i == at+8 {
				l += " "
			}
			if i >= len(b) {
				l += "   "
				continue
			}
			l += " " + hexRef(b[i:i+1])
			text += string([]byte{vp.IteByte(vp.And(b[i] >= 32, b[i] <= 126), b[i], '.')})
		}
		out = append(out, l+"  |"+text+"|")
	}
	return out
}

func dumpLines(name string, lines []string, end bool) string {
	if len(lines) == 0 || end {
		lines = append(lines, "")
	}
	s := name + ": " + lines[0] + "\n"
	for _, l := range lines[1:] {
		s += "       " + l + "\n"
	}
	return s
}

func flagLines(o byte, flags ...string) string {
	s := ""
	for i := 0; i < len(flags); i += 2 {
		bit := byte(flags[i+1][0] - '0')
		v := "false"
		if o>>bit&1 == 1 {
			v = "true"
		}
		s += "TP-" + flags[i] + ": " + v + "\n"
	}
	return s
}

func alphaName(d byte) string {
	a, _, _ := dcsRef(d)
	return []string{" 7bit", " 8bit", " UCS-2", ""}[a]
}

func piName(p byte) string {
	if p == 0 {
		return "0"
	}
	s := ""
	for i, n := range []string{"PID", "DCS", "UDL"} {
		if p>>i&1 == 1 {
			if s != "" {
				s += "|"
			}
			s += n
		}
	}
	return s
}

// dumpText is what smsdecode prints of a TPDU.
func dumpText(st int, o byte, t *tpdu.TPDU) string {
	names := []string{"SMS-DELIVER", "SMS-DELIVER-REPORT", "SMS-SUBMIT-REPORT", "SMS-SUBMIT", "SMS-STATUS-REPORT", "SMS-COMMAND"}
	s := "TPDU: " + names[st] + "\n"
	s += fmt.Sprintf("TP-MTI: 0x%02x %s\n", st>>1, []string{"Deliver", "Submit", "Command"}[st>>1])
	dcs := fmt.Sprintf("TP-DCS: 0x%02x%s\n", byte(t.DCS), alphaName(byte(t.DCS)))
	pid := fmt.Sprintf("TP-PID: 0x%02x\n", t.PID)
	scts := fmt.Sprintf("TP-SCTS: %s\n", t.SCTS.Format("2006-01-02 15:04:05 -0700"))
	pi := "TP-PI: " + piName(byte(t.PI)) + "\n"
	opt := ""
	if t.PI&1 != 0 {
		opt += pid
	}
	if t.PI&2 != 0 {
		opt += dcs
	}
	switch st {
	case 0:
		// bit 2 of the first octet is set when no more messages wait
		s += flagLines(o, "MMS", "2", "LP", "3", "RP", "7", "UDHI", "6", "SRI", "5")
		s += "TP-OA: " + t.OA.Number() + "\n" + pid + dcs + scts
	case 1:
		s += flagLines(o, "UDHI", "6") + fmt.Sprintf("TP-FCS: 0x%02x\n", t.FCS) + pi + opt
	case 2:
		s += flagLines(o, "UDHI", "6") + fmt.Sprintf("TP-FCS: 0x%02x\n", t.FCS) + pi + scts + opt
	case 3:
		f := o >> 3 & 3
		s += flagLines(o, "RD", "2")
		s += fmt.Sprintf("TP-VPF: 0x%02x %s\n", f, []string{"Not Present", "Enhanced", "Relative", "Absolute"}[f])
		s += flagLines(o, "RP", "7", "UDHI", "6", "SRR", "5")
		s += fmt.Sprintf("TP-MR: %d\n", t.MR) + "TP-DA: " + t.DA.Number() + "\n" + pid + dcs + "TP-VP: "
		switch f {
		case 0:
			s += "Not Present\n"
		case 1:
			e := t.VP.EFI & 7
			n := "Unknown"
			if e < 4 {
				n = []string{"Not Present", "Relative", "Relative Seconds", "Relative HHMMSS"}[e]
			}
			s += "Enhanced " + n + " - " + t.VP.Duration.String() + "\n"
		case 2:
			s += "Relative - " + t.VP.Duration.String() + "\n"
		case 3:
			s += "Absolute - " + t.VP.Time.Format("2006-01-02 15:04:05 -0700") + "\n"
		}
	case 4:
		s += flagLines(o, "UDHI", "6", "MMS", "2", "LP", "3", "SRQ", "5")
		s += fmt.Sprintf("TP-MR: %d\n", t.MR) + "TP-RA: " + t.RA.Number() + "\n" + scts
		s += "TP-DT: " + t.DT.Format("2006-01-02 15:04:05 -0700") + "\n" + fmt.Sprintf("TP-ST: 0x%02x\n", t.ST) + pi + opt
	case 5:
		s += flagLines(o, "UDHI", "6", "SRR", "5")
		s += fmt.Sprintf("TP-MR: %d\n", t.MR) + pid + fmt.Sprintf("TP-CT: 0x%02x\nTP-MN: %d\n", t.CT, t.MN) + "TP-DA: " + t.DA.Number() + "\n"
		s += scts
		cdl := len(t.UD)
		if o&0x40 != 0 {
			// at least the length of the header
			cdl++
			for _, ie := range t.UDH {
				cdl += 2 + len(ie.Data)
			}
		}
		s += fmt.Sprintf("TP-CDL: %d\n", cdl)
	}
	var ies []string
	for _, ie := range t.UDH {
		l := fmt.Sprintf("ID: %d  Data: [", ie.ID)
		for i, x := range ie.Data {
			if i > 0 {
				l += " "
			}
			l += fmt.Sprint(x)
		}
		ies = append(ies, l+"]")
	}
	if t.UDH != nil {
		s += dumpLines("TP-UDH", ies, false)
	}
	if st == 5 {
		return s + dumpLines("TP-CD", dumpRef(t.UD), true)
	}
	return s + dumpLines("TP-UD", dumpRef(t.UD), false)
}

// dumpOctets is a TPDU of a type with arbitrary flags (free is 0), arbitrary
// fields (1), or arbitrary octets at the end (2); the rest of it is as it
// should be.
func dumpOctets(st, free int) []byte {
	oct := func(lit byte) byte {
		if free == 1 {
			return vp.Byte()
		}
		return lit
	}
	stamp := []byte{0x62, 0x11, 0x81, 0x32, 0x54, 0x00, 0x8a}
	addr := []byte{3, 0x91, 0x21, 0xf3}
	if free == 1 {
		addr = [][]byte{addr, {0, 0x81}, {4, 0xd0, 0xc8, 0x34}}[vp.Choose(3)]
	}
	vpf := 0
	var period []byte
	if st == 3 && free < 2 {
		vpf = vp.Choose(4)
		k := 0
		if free == 1 {
			k = vp.Choose(4)
		}
		switch vpf {
		case 1:
			period = [][]byte{{3, 0x12, 0x34, 0x55, 0, 0, 0}, {1, 5, 0, 0, 0, 0, 0}, {0x42, 5, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0}}[k]
		case 2:
			period = []byte{[]byte{150, 0, 180, 255}[k]}
		case 3:
			period = stamp
		}
	}
	fo := byte(st>>1) | byte(vpf)<<3
	dcs := oct(0)
	switch free {
	case 0:
		f := vp.Byte()
		if st == 3 {
			f &^= 0x18
		}
		fo |= f &^ 3
	case 2:
		fo |= byte(vp.Choose(2)) << 6
		dcs = []byte{0, 4, 8}[vp.Choose(3)]
	}
	b := []byte{fo}
	// reports announce what follows
	pi := byte(7)
	if st == 1 || st == 2 || st == 4 {
		if free == 1 {
			pi = vp.Byte()&^7 | byte(vp.Choose(8))
		} else if free == 2 {
			pi = vp.Byte() & 0x3f
		}
	}
	switch st {
	case 0:
		b = append(append(b, addr...), oct(7), dcs)
		b = append(b, stamp...)
	case 1:
		b = append(b, oct(0xc0), pi)
	case 2:
		b = append(b, oct(0xc0), pi)
		b = append(b, stamp...)
	case 3:
		b = append(append(append(b, oct(9)), addr...), oct(7), dcs)
		b = append(b, period...)
	case 4:
		b = append(append(b, oct(9)), addr...)
		b = append(append(append(b, stamp...), stamp...), oct(0x20))
		if free == 2 && vp.Choose(2) == 1 {
			return b
		}
		b = append(b, pi)
	case 5:
		b = append(append(b, oct(9), oct(7), oct(1), oct(200)), addr...)
	}
	if st == 1 || st == 2 {
		vp.Assume(b[1] != 0) // KF1
	}
	if free == 2 {
		return append(b, vp.Bytes(vp.Range(0, vp.Param("octets at the end", 3, 5)))...)
	}
	if st == 1 || st == 2 || st == 4 {
		if pi&1 != 0 {
			b = append(b, oct(7))
		}
		if pi&2 != 0 {
			b = append(b, dcs)
		}
		if pi&4 == 0 {
			return b
		}
		if pi&2 == 0 {
			dcs = 0
		}
	}
	// user data that is any alphabet's
	switch {
	case fo&0x40 != 0:
		return append(b, 6, 5, 0, 3, 9, 3, 2)
	case st == 5:
		return append(b, 2, 0x00, 0x41)
	case vp.Choose(2) == 1:
		return append(b, 0)
	}
	return append(b, 2, 0x00, 0x34)
}

func decodeCommand(st int) {
	free := vp.Choose(3)
	b := dumpOctets(st, free)
	args := []string{}
	pm := free == 0 && vp.Choose(2) == 1
	if pm {
		args = append(args, "-p")
	}
	if st&1 == 1 {
		args = append(args, "-o")
	}
	want := ""
	h := hexRef(b)
	if pm {
		p := pdumode.PDU{TPDU: b}
		if vp.Choose(2) == 1 {
			p.SMSC.Address = tpdu.Address{TOA: 0x91, Addr: "615"}
		}
		s, err := p.MarshalHexString()
		vp.Assert(err == nil, "a PDU marshals")
		h = s
		want = "SMSC: " + []string{"", "+615"}[len(p.SMSC.Addr)/3] + "\n"
	}
	t, err := unmarshalAs(st, clone(b))
	code, out, cerr := command(smsdecode.Main, append(args, h)...)
	if err != nil {
		vp.Cover("refused")
		vp.Assert(code == 1 && out == "", "it fails")
		vp.Assert(vp.EqStr(cerr, err.Error()+"\n"), "it says why")
		return
	}
	vp.Cover("accepted")
	vp.Assert(code == 0 && cerr == "", "it succeeds")
	want += dumpText(st, b[0], t)
	vp.Assert(vp.EqStr(out, want), "the fields of the TPDU are printed")
}

func unmarshalAs(st int, b []byte) (*tpdu.TPDU, error) {
	if st&1 == 1 {
		return sms.Unmarshal(b, sms.AsMO)
	}
	return sms.Unmarshal(b)
}

// C22_DecodeDeliver: SMS-DELIVER.
func C22_DecodeDeliver() { decodeCommand(0) }

// C22_DecodeDeliverReport: SMS-DELIVER-REPORT.
func C22_DecodeDeliverReport() { decodeCommand(1) }

// C22_DecodeSubmitReport: SMS-SUBMIT-REPORT.
func C22_DecodeSubmitReport() { decodeCommand(2) }

// C22_DecodeSubmit: SMS-SUBMIT.
func C22_DecodeSubmit() { decodeCommand(3) }

// C22_DecodeStatusReport: SMS-STATUS-REPORT.
func C22_DecodeStatusReport() { decodeCommand(4) }

// C22_DecodeCommand: SMS-COMMAND.
func C22_DecodeCommand() { decodeCommand(5) }

// C22_Charsets: the listing has every table, and every character at the place
// of its septet.
func C22_Charsets() {
	names := []string{"Basic (default)", "Turkish", "Spanish", "Portuguese", "Bengali", "", "Hindi", "Kannada", "Malayalam", "Oriya", "Punjabi", "Tamil", "Telugu", "Urdu"}
	code, out, err := command(charsets.Main)
	vp.Assert(code == 0 && err == "", "it succeeds")
	at := 0
	next := func() string {
		from := at
		for at < len(out) && out[at] != '\n' {
			at++
		}
		vp.Assert(at < len(out), "another line")
		at++
		return out[from : at-1]
	}
	for i := 0; i < 28; i++ {
		nli := i / 2
		table, kind := charset.NewDecoder(nli), "Locking"
		if i&1 == 1 {
			table, kind = charset.NewExtDecoder(nli), "Shift"
		}
		l := next()
		tail := fmt.Sprintf(" %s (NLI=%d)", kind, nli)
		vp.Assert(len(l) > len(tail) && l[len(l)-len(tail):] == tail, "the kind of table and its number")
		vp.Assert(names[nli] == "" || l == names[nli]+tail, "the name of the language")
		vp.Assert(next() == "      0x0_ 0x1_ 0x2_ 0x3_ 0x4_ 0x5_ 0x6_ 0x7_ ", "columns")
		for r := 0; r < 16; r++ {
			want := "0x_" + "0123456789abcdef"[r:r+1] + ": "
			for c := 0; c < 8; c++ {
				x, ok := table[byte(c*16+r)]
				switch {
				case !ok:
					want += "     "
				case x == '\n':
					want += " LF  "
				case x == '\r':
					want += " CR  "
				case x == '\f':
					want += " FF  "
				case x == ' ':
					want += " SP  "
				case x == 0x1b:
					want += "ESC  "
				case x == 0x20ac:
					want += "  \u20ac  "
				case x >= 0x400:
					want += fmt.Sprintf("%04x ", x)
				default:
					want += "  " + string(x) + "  "
				}
			}
			vp.Assert(next() == want, "a row of the table")
		}
		vp.Assert(next() == "", "an empty line")
	}
	vp.Assert(at == len(out), "nothing else")
}
