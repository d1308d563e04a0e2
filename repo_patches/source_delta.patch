From 779c09dbef63d72165c01fbb1f0792275afe7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 01/28] fix: USSD packing adds the CR filler only when 7 bits
 are spare

Pack7BitUSSD inferred the number of spare bits from the value of the
final octet, and ignored the fill bits when checking for a CR on an octet
boundary, so short messages could be corrupted and the filler omitted.
---
 encoding/gsm7/7bit.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/encoding/gsm7/7bit.go b/encoding/gsm7/7bit.go
index 986e099..6c0d71d 100644
--- a/encoding/gsm7/7bit.go
+++ b/encoding/gsm7/7bit.go
@@ -90,11 +90,15 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 	if len(b) == 0 {
 		return append(b[:0:0], b...)
 	}
-	last := len(b) - 1
-	if b[last]&^0x1 == 0 && u[len(u)-1] != 0 {
-		b[last] = b[last] | (cr << 1)
-	} else if len(u)&0x7 == 0 && u[len(u)-1] == cr {
-		b = append(b, cr)
+	switch (len(u)*7 + fillBits) & 0x7 {
+	case 1:
+		// 7 bits unused in the final octet
+		b[len(b)-1] |= cr << 1
+	case 0:
+		// last septet ends on an octet boundary
+		if u[len(u)-1] == cr {
+			b = append(b, cr)
+		}
 	}
 	return b
 }
-- 
2.43.0


From 098014c810bf1f9b30a6f7564a72c440795646cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 02/28] fix: USSD unpacking strips a trailing CR only when it
 is a septet

Unpack7BitUSSD examined the final octet rather than the final septet, so
a message with septets not aligned to the octet boundary could lose its
last septet.
---
 encoding/gsm7/7bit.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/encoding/gsm7/7bit.go b/encoding/gsm7/7bit.go
index 6c0d71d..0ac57eb 100644
--- a/encoding/gsm7/7bit.go
+++ b/encoding/gsm7/7bit.go
@@ -115,8 +115,17 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 func Unpack7BitUSSD(p []byte, fillBits int) []byte {
 	u := Unpack7Bit(p, fillBits)
 	// remove any trailing filler
-	if len(p) > 1 && ((p[len(p)-1]>>1 == cr) || (p[len(p)-1] == cr && p[len(p)-2]>>1 == cr)) {
-		u = u[:len(u)-1]
+	if last := len(u) - 1; len(p) > 1 && last >= 0 && u[last] == cr {
+		switch (len(p)*8 - fillBits) % 7 {
+		case 0:
+			// last septet ends on an octet boundary
+			u = u[:last]
+		case 1:
+			// last septet starts on an octet boundary
+			if last > 0 && u[last-1] == cr {
+				u = u[:last]
+			}
+		}
 	}
 	return u
 }
-- 
2.43.0


From 5df9a3a80404ffe5ca262e9b05bbf5b07737733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 03/28] fix: relative validity period of five minutes or less
 encodes as the shortest period

---
 encoding/tpdu/validityperiod.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index e0dce80..faaf9e8 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -214,11 +214,10 @@ const (
 func durationToRelative(d time.Duration) byte {
 	switch {
 	case d < time.Hour*12:
-		t := byte(d / (time.Minute * 5))
-		if t > 1 {
-			t--
+		if d < time.Minute*5 {
+			return 0
 		}
-		return t
+		return byte(d/(time.Minute*5)) - 1
 	case d < time.Hour*24:
 		return 119 + byte(d/(time.Minute*30))
 	case d < time.Hour*24*30:
-- 
2.43.0


From 3db84dd47abac7ed6abe84406fcb463afff70abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 04/28] fix: reject information elements that extend beyond the
 user data header

---
 encoding/tpdu/userdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index de19912..60fd1f1 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -85,7 +85,7 @@ func (udh *UserDataHeader) UnmarshalBinary(src []byte) (int, error) {
 		ri++
 		iedl := int(src[ri])
 		ri++
-		if len(src) < ri+iedl {
+		if udhl < ri+iedl {
 			return ri, NewDecodeError("ied", ri, ErrUnderflow)
 		}
 		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)
-- 
2.43.0


From d58880d97a70c2a4f3161f54fbf87cd54a3c6f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 05/28] fix: GSM7 encoding refuses the escape control character

---
 encoding/gsm7/gsm7.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index 25e77d6..3ac3279 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -219,7 +219,7 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 	dst := make([]byte, 0, len(src))
 	for _, u := range string(src) {
 		g, ok := e.set[u]
-		if ok {
+		if ok && g != esc { // esc is not a character, only a prefix
 			dst = append(dst, g)
 			continue
 		}
-- 
2.43.0


From d8256cdfb2042c7757b4238bb81e998f20472938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 06/28] fix: WithUDH sets the UDHI flag

---
 encoding/tpdu/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/options.go b/encoding/tpdu/options.go
index d1956f9..c7a6557 100644
--- a/encoding/tpdu/options.go
+++ b/encoding/tpdu/options.go
@@ -48,7 +48,7 @@ type UDHOption struct {
 
 // ApplyTPDUOption applies the UDH to the TPDU.
 func (o UDHOption) ApplyTPDUOption(t *TPDU) error {
-	t.UDH = o.udh
+	t.SetUDH(o.udh)
 	return nil
 }
 
-- 
2.43.0


From ecd7ed61bf7542009acad196507aec7c3fa45bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 07/28] fix: SMS-COMMAND marshalling includes the user data
 header

---
 encoding/tpdu/tpdu.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index b6ca697..a81640a 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -405,12 +405,18 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	cdl := len(t.UD)
+	udh, err := t.UDH.MarshalBinary()
+	if err != nil {
+		// never trips as UDH marshalling never fails...
+		return nil, EncodeError("udh", err)
+	}
+	cdl := len(udh) + len(t.UD)
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
 	b = append(b, da...)
 	b = append(b, byte(cdl))
+	b = append(b, udh...)
 	b = append(b, t.UD...)
 	return b, nil
 }
-- 
2.43.0


From 0156007653514131f791b10356bd40a55dab230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 08/28] fix: segmentation does not write to the spare capacity
 of the template UDH

---
 encoding/tpdu/tpdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index a81640a..f3d9a15 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -204,7 +204,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 		return []TPDU{t}
 	}
 	// add contcat IE and recalc bs
-	t.SetUDH(append(t.UDH, cfg.ief(0, 0, 0)))
+	t.SetUDH(append(t.UDH[:len(t.UDH):len(t.UDH)], cfg.ief(0, 0, 0)))
 	bs = t.UDBlockSize()
 	t.UDH = t.UDH[:len(t.UDH)-1]
 	alpha, _ := t.Alphabet()
-- 
2.43.0


From 3754eab1733d5e7cf9e63a7c4f5347a2813f9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 09/28] fix: segmentation does not split an escape that follows
 an escape pair

---
 encoding/tpdu/tpdu.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index f3d9a15..3bb73dc 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -1141,7 +1141,11 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 	bend := bs
 	for bend < len(msg) {
 		// don't split escapes
-		if msg[bend-1] == esc && msg[bend-2] != esc {
+		escs := 0
+		for escs < bend-bstart && msg[bend-1-escs] == esc {
+			escs++
+		}
+		if escs&0x1 == 0x1 {
 			bend--
 		}
 		chunks = append(chunks, msg[bstart:bend])
-- 
2.43.0


From a2dd1d179762fc4cf81886db7eae3acb448a07fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 10/28] fix: Encode extends, rather than replaces, the template
 UDH with the character set elements

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 63e9d05..b0e3711 100644
--- a/encode.go
+++ b/encode.go
@@ -107,7 +107,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 			e.pdu.SetDCS(byte(dcs))
 		}
 		if udh != nil {
-			e.pdu.SetUDH(append(e.pdu.UDH[:0:0], udh...))
+			e.pdu.SetUDH(append(e.pdu.UDH[:len(e.pdu.UDH):len(e.pdu.UDH)], udh...))
 		}
 		return e.pdu.Segment(d, sopts...), nil
 	}
-- 
2.43.0


From 442d56b19ccd73228b35864f65393f5012609278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 11/28] fix: concurrent Encodes do not share appended encoding
 options

---
 encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encode.go b/encode.go
index b0e3711..77a99ff 100644
--- a/encode.go
+++ b/encode.go
@@ -87,6 +87,8 @@ func NewEncoder(options ...EncoderOption) *Encoder {
 // For implicit UCS-2 encoding (the fallback with 7-bit fails) the message is
 // assumed to contain UTF-8.
 func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
+	// clip so that options are appended to a copy
+	e.eopts = e.eopts[:len(e.eopts):len(e.eopts)]
 	for _, option := range options {
 		option.ApplyEncoderOption(&e)
 	}
-- 
2.43.0


From 6f31352d692f8456e62e1210c5d7221564733563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 12/28] fix: Collect discards segments of unsupported types

---
 collect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collect.go b/collect.go
index 445585e..ca35b0b 100644
--- a/collect.go
+++ b/collect.go
@@ -107,6 +107,9 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 		return nil, ErrReassemblyInconsistency
 	}
 	key, err := pduKey(pdu, segments, concatRef)
+	if err != nil {
+		return nil, err
+	}
 	p, ok := c.pipes[key]
 	if ok {
 		if p.segments[seqno-1] != nil {
-- 
2.43.0


From 9a20f9c51bd596a027c5c93c2ec8e1aceb3bccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 13/28] fix: Pipes returns a snapshot of the segments

---
 collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index ca35b0b..591e674 100644
--- a/collect.go
+++ b/collect.go
@@ -82,7 +82,7 @@ func (c *Collector) Pipes() map[string][]*tpdu.TPDU {
 	c.Lock()
 	m := map[string][]*tpdu.TPDU{}
 	for k, v := range c.pipes {
-		m[k] = v.segments
+		m[k] = append([]*tpdu.TPDU(nil), v.segments...)
 	}
 	c.Unlock()
 	return m
-- 
2.43.0


From 8bedfe3fda29c6ecfc355a1c708855840fc393f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 14/28] fix: UCS2 decoding of an unpaired surrogate does not
 consume the following character

---
 encoding/ucs2/ucs2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoding/ucs2/ucs2.go b/encoding/ucs2/ucs2.go
index 8ecc83c..24d36ea 100644
--- a/encoding/ucs2/ucs2.go
+++ b/encoding/ucs2/ucs2.go
@@ -9,6 +9,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"unicode"
 	"unicode/utf16"
 )
 
@@ -31,9 +32,11 @@ func Decode(src []byte) ([]rune, error) {
 			if ri >= len(src)-3 {
 				return dst, ErrDanglingSurrogate(src[ri:])
 			}
-			ri += 2
-			r2 := rune(binary.BigEndian.Uint16(src[ri:]))
+			r2 := rune(binary.BigEndian.Uint16(src[ri+2:]))
 			r = utf16.DecodeRune(r, r2)
+			if r != unicode.ReplacementChar {
+				ri += 2
+			}
 		}
 		dst = append(dst, r)
 	}
-- 
2.43.0


From f2d688cc6b5384b8693f6ef00921734d4906e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:48 +0000
Subject: [PATCH 15/28] fix: Decode does not write to the spare capacity of
 segment UD

---
 sms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index 8deb5cd..d5fcbcd 100644
--- a/sms.go
+++ b/sms.go
@@ -35,7 +35,7 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
-			ud = append([]byte(danglingSurrogate), ud...)
+			ud = append(append([]byte(nil), danglingSurrogate...), ud...)
 			danglingSurrogate = nil
 		}
 		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
-- 
2.43.0


From 07fef11c4e3afc1d86d74df6cd3f8aba2bf17cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:15 +0000
Subject: [PATCH 16/28] fix: generation of the character set tables is safe for
 concurrent use

---
 encoding/gsm7/charset/charset.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/encoding/gsm7/charset/charset.go b/encoding/gsm7/charset/charset.go
index 7e1f675..bdf058b 100644
--- a/encoding/gsm7/charset/charset.go
+++ b/encoding/gsm7/charset/charset.go
@@ -5,8 +5,15 @@
 // Package charset provides encoders and decoders for GSM character sets.
 package charset
 
+import "sync"
+
+// mu covers the lazy generation of the tables.
+var mu sync.Mutex
+
 // DefaultDecoder returns the default mapping table from GSM7 to UTF8.
 func DefaultDecoder() Decoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultDecoder == nil {
 		defaultDecoder = generateDefaultDecoder()
 	}
@@ -16,6 +23,8 @@ func DefaultDecoder() Decoder {
 // NewDecoder returns the mapping table from GSM7 to UTF8 for the given language.
 func NewDecoder(nli int) Decoder {
 	if di, ok := decoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *di.e == nil {
 			*di.e = di.g()
 		}
@@ -39,6 +48,8 @@ func NewExtDecoder(nli int) Decoder {
 
 // DefaultEncoder returns the default mapping table from UTF8 to GSM7.
 func DefaultEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultEncoder == nil {
 		defaultEncoder = generateDefaultEncoder()
 	}
@@ -48,6 +59,8 @@ func DefaultEncoder() Encoder {
 // NewEncoder returns the mapping table from UTF8 to GSM7 for the given language.
 func NewEncoder(nli int) Encoder {
 	if ei, ok := encoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
@@ -58,6 +71,8 @@ func NewEncoder(nli int) Encoder {
 
 // DefaultExtEncoder returns the default extension mapping table from UTF8 to GSM7.
 func DefaultExtEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultExtEncoder == nil {
 		defaultExtEncoder = generateDefaultExtEncoder()
 	}
@@ -67,6 +82,8 @@ func DefaultExtEncoder() Encoder {
 // NewExtEncoder returns the extension mapping table from UTF8 to GSM7 for the given language.
 func NewExtEncoder(nli int) Encoder {
 	if ei, ok := extEncoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
-- 
2.43.0


From 1bcd3cdbaf472a4f06f2a3669a19b03504ec01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 17/28] fix: GSM7 encoding refuses the escape character of the
 shift tables

---
 encoding/gsm7/gsm7.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index 3ac3279..c8b7a36 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -224,7 +224,7 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 			continue
 		}
 		g, ok = e.ext[u]
-		if ok {
+		if ok && g != esc {
 			dst = append(dst, esc, g)
 			continue
 		}
-- 
2.43.0


From 776906b8f517df11fc0b2c2aeac05a87e7614ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 18/28] fix: WithAllCharsets can be passed to Decode, as
 documented

---
 options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/options.go b/options.go
index 744f7f6..ac71b77 100644
--- a/options.go
+++ b/options.go
@@ -100,6 +100,11 @@ func (o AllCharsetsOption) ApplyEncoderOption(e *Encoder) {
 	e.eopts = append(e.eopts, tpdu.WithAllCharsets)
 }
 
+// ApplyDecodeOption makes all character sets available for decoding.
+func (o AllCharsetsOption) ApplyDecodeOption(cc *DecodeConfig) {
+	cc.dopts = append(cc.dopts, tpdu.WithAllCharsets)
+}
+
 // WithCharset creates an CharsetOption.
 func WithCharset(nli ...int) CharsetOption {
 	return CharsetOption{nli}
-- 
2.43.0


From ce7dbd58de642a003b3f594f5ca94214827e9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:30 +0000
Subject: [PATCH 19/28] fix: an empty user data header is marshalled with its
 length octet

---
 encoding/tpdu/tpdu.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 3bb73dc..6cbbc21 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -342,17 +342,18 @@ func (t *TPDU) UDBlockSize() int {
 	}
 	alpha, _ := t.Alphabet()
 	udhl := t.UDHL()
+	udh := udhl > 0 || t.UDHI() // an empty header still has a UDHL
 	if alpha == Alpha7Bit {
 		// work in septets
 		bs = (bs * 8) / 7
-		if udhl == 0 {
+		if !udh {
 			return bs
 		}
 		// remove septets used by UDH, including UDHL and fill bits
 		bs -= ((udhl+1)*8 + 6) / 7
 		return bs
 	}
-	if udhl > 0 {
+	if udh {
 		bs -= (udhl + 1)
 	}
 	if alpha == AlphaUCS2 {
@@ -405,7 +406,7 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	udh, err := t.UDH.MarshalBinary()
+	udh, err := t.marshalUDH()
 	if err != nil {
 		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
@@ -923,6 +924,17 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 	return sm, nil
 }
 
+// marshalUDH marshals the User Data Header into binary.
+//
+// The UDHL is present whenever the UDHI indicates so, even if the header is
+// empty.
+func (t *TPDU) marshalUDH() ([]byte, error) {
+	if len(t.UDH) == 0 && t.UDHI() {
+		return []byte{0}, nil
+	}
+	return t.UDH.MarshalBinary()
+}
+
 // encodeUserData marshals the User Data into binary.
 //
 // The User Data Header is also encoded if present.
@@ -932,7 +944,7 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 // No checks of encoded size are performed here as that depends on concrete
 // TPDU type, and that can check the length of the returned b.
 func (t *TPDU) encodeUserData() (b []byte, err error) {
-	udh, err := t.UDH.MarshalBinary()
+	udh, err := t.marshalUDH()
 	if err != nil {
 		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
-- 
2.43.0


From 6ca7aa5b8759f4ba40ad4220b13ee78f7e29ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 20/28] fix: enhanced validity periods outside the range of the
 format encode as its nearest end

---
 encoding/tpdu/validityperiod.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index faaf9e8..baba0cb 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -69,9 +69,19 @@ func (v *ValidityPeriod) MarshalBinary() ([]byte, error) {
 			if secs > 255 {
 				secs = 255
 			}
+			if secs < 0 {
+				secs = 0
+			}
 			dst[1] = byte(secs)
 		case EvpfRelativeHHMMSS:
-			f := []int{int(v.Duration.Hours()) % 100, int(v.Duration.Minutes()) % 60, int(v.Duration.Seconds()) % 60}
+			d := v.Duration
+			if d >= 100*time.Hour {
+				d = 100*time.Hour - time.Second
+			}
+			if d < 0 {
+				d = 0
+			}
+			f := []int{int(d.Hours()), int(d.Minutes()) % 60, int(d.Seconds()) % 60}
 			for i, tf := range f {
 				t, err := bcd.Encode(tf)
 				// this should never trip, as the encoded values should always be valid, but just in case...
-- 
2.43.0


From 2fad5dc7abffa2c6785c84fe2296e4ad468ad1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 21/28] fix: lengths that their octet cannot hold are refused

---
 encoding/pdumode/smscaddress.go | 3 +++
 encoding/tpdu/address.go        | 3 +++
 encoding/tpdu/tpdu.go           | 8 ++++++--
 encoding/tpdu/userdata.go       | 3 +++
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 6e7595f..08a6154 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -33,6 +33,9 @@ func (a *SMSCAddress) MarshalBinary() (dst []byte, err error) {
 		return []byte{0}, nil
 	}
 	l := len(addr) + 1 // in octets and includes the toa
+	if l > 255 {
+		return nil, tpdu.EncodeError("addr", tpdu.ErrOverlength)
+	}
 	dst = make([]byte, 2, l+1)
 	dst[0] = byte(l)
 	dst[1] = a.TOA
diff --git a/encoding/tpdu/address.go b/encoding/tpdu/address.go
index 0f210df..fc07252 100644
--- a/encoding/tpdu/address.go
+++ b/encoding/tpdu/address.go
@@ -64,6 +64,9 @@ func (a *Address) MarshalBinary() (dst []byte, err error) {
 		}
 		l = len(a.Addr)
 	}
+	if l > 255 {
+		return nil, EncodeError("addr", ErrOverlength)
+	}
 	dst = make([]byte, 0, l+2)
 	dst = append(dst, byte(l), a.TOA)
 	dst = append(dst, addr...)
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 6cbbc21..7b5942b 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -408,10 +408,12 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	}
 	udh, err := t.marshalUDH()
 	if err != nil {
-		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
 	}
 	cdl := len(udh) + len(t.UD)
+	if cdl > 255 {
+		return nil, EncodeError("cdl", ErrOverlength)
+	}
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
@@ -946,7 +948,6 @@ func (t *TPDU) marshalUDH() ([]byte, error) {
 func (t *TPDU) encodeUserData() (b []byte, err error) {
 	udh, err := t.marshalUDH()
 	if err != nil {
-		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
 	}
 	ud := t.UD
@@ -977,6 +978,9 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 		// udl is in octets
 		udl = udl + len(udh)
 	}
+	if udl > 255 {
+		return nil, EncodeError("udl", ErrOverlength)
+	}
 	b = make([]byte, 0, 1+len(udh)+len(ud))
 	b = append(b, byte(udl))
 	b = append(b, udh...)
diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index 60fd1f1..f47dff9 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -50,6 +50,9 @@ func (udh UserDataHeader) MarshalBinary() ([]byte, error) {
 		return nil, nil
 	}
 	udhl := udh.UDHL()
+	if udhl > 255 {
+		return nil, EncodeError("udhl", ErrOverlength)
+	}
 	b := make([]byte, 0, udhl+1)
 	b = append(b, byte(udhl))
 	for _, ie := range udh {
-- 
2.43.0


From 841cb2331cafdad947c1ee2104a338f0a85c06a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:49 +0000
Subject: [PATCH 22/28] fix: a message that needs more than 255 TPDUs is
 refused

The concatenation IE has one octet for the number of segments, so such a
message was numbered modulo 256 and could not be reassembled.
---
 encode.go             | 16 ++++++++++++++--
 encoding/tpdu/tpdu.go |  7 +++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 77a99ff..6a8cc02 100644
--- a/encode.go
+++ b/encode.go
@@ -86,6 +86,9 @@ func NewEncoder(options ...EncoderOption) *Encoder {
 //
 // For implicit UCS-2 encoding (the fallback with 7-bit fails) the message is
 // assumed to contain UTF-8.
+//
+// Messages that require more than 255 TPDUs are refused with
+// tpdu.ErrOverlength.
 func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
 	// clip so that options are appended to a copy
 	e.eopts = e.eopts[:len(e.eopts):len(e.eopts)]
@@ -97,7 +100,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 	alpha, _ := e.pdu.DCS.Alphabet()
 	switch alpha {
 	case tpdu.Alpha8Bit, tpdu.AlphaUCS2:
-		return e.pdu.Segment(msg, sopts...), nil
+		return e.segment(msg, sopts)
 	default:
 		// encode as GSM7, or failing that UCS2...
 		d, udh, alpha := tpdu.EncodeUserData(msg, e.eopts...)
@@ -111,8 +114,17 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 		if udh != nil {
 			e.pdu.SetUDH(append(e.pdu.UDH[:len(e.pdu.UDH):len(e.pdu.UDH)], udh...))
 		}
-		return e.pdu.Segment(d, sopts...), nil
+		return e.segment(d, sopts)
+	}
+}
+
+// segment splits the user data into TPDUs, if it is not too long for that.
+func (e *Encoder) segment(ud []byte, sopts []tpdu.SegmentationOption) ([]tpdu.TPDU, error) {
+	pdus := e.pdu.Segment(ud, sopts...)
+	if pdus == nil && len(ud) > 0 {
+		return nil, tpdu.ErrOverlength
 	}
+	return pdus, nil
 }
 
 // Counter is an implementation of the tpdu.Counter interface.
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 7b5942b..fa53b37 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -186,6 +186,10 @@ type SegmentationOption func(*segmentationConfig)
 // the message.  For multi-part messages, the UDH provided in the TPDU is
 // extended with a concatenation IE. The TPDU UDH must not contain a
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
+//
+// The number of segments has to fit the octet that the concatenation IE has for
+// it, so a message that requires more than 255 TPDUs is not segmented, and no
+// TPDUs are returned.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -210,6 +214,9 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
+	if count > 255 {
+		return nil
+	}
 	pdus := make([]TPDU, count)
 	concatRef := 1
 	if cfg.cr != nil {
-- 
2.43.0


From c11b1692802355ab9649fb33f92c483ee5109231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 23/28] fix: a header that leaves no room for the message is
 refused

Segment panicked, or looped for ever, when the UDH of the template left no
room for the message or less than a character that may not be split.  It
now returns no TPDUs, and Encode returns ErrOverlength.
---
 encoding/tpdu/tpdu.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index fa53b37..c0f1ef6 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -189,7 +189,8 @@ type SegmentationOption func(*segmentationConfig)
 //
 // The number of segments has to fit the octet that the concatenation IE has for
 // it, so a message that requires more than 255 TPDUs is not segmented, and no
-// TPDUs are returned.
+// TPDUs are returned. The same applies if the UDH leaves no room for the
+// message.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -214,7 +215,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
-	if count > 255 {
+	if count == 0 || count > 255 {
 		return nil
 	}
 	pdus := make([]TPDU, count)
@@ -1139,7 +1140,12 @@ const (
 )
 
 // chunk splits a message into chunks that are not larger than bs.
+//
+// If bs is too small to hold any part of the message then there are no chunks.
 func chunk(msg []byte, alpha Alphabet, bs int) [][]byte {
+	if bs <= 0 {
+		return nil
+	}
 	switch alpha {
 	default: // default to 7Bit
 		return chunk7Bit(msg, bs)
@@ -1171,6 +1177,9 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 		if escs&0x1 == 0x1 {
 			bend--
 		}
+		if bend == bstart {
+			return nil
+		}
 		chunks = append(chunks, msg[bstart:bend])
 		bstart = bend
 		bend = bstart + bs
@@ -1229,6 +1238,9 @@ func chunkUCS2(msg []byte, bs int) [][]byte {
 		if surrHighStart <= r && r < surrLowStart {
 			bend = bend - 2
 		}
+		if bend == bstart {
+			return nil
+		}
 		chunks = append(chunks, msg[bstart:bend])
 		bstart = bend
 		bend = bstart + bs
-- 
2.43.0


From 33dc46ac991be990d4c84b1aca139b3daab780c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:29 +0000
Subject: [PATCH 24/28] fix: DCS refuses alphabets and classes that do not
 exist

WithClass(MClassUnknown), as returned by Class, changed the alphabet
instead, and larger values other bits.
---
 encoding/tpdu/dcs.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/dcs.go b/encoding/tpdu/dcs.go
index 0317180..870d108 100644
--- a/encoding/tpdu/dcs.go
+++ b/encoding/tpdu/dcs.go
@@ -80,8 +80,12 @@ func (d DCS) String() string {
 // WithAlphabet sets the Alphabet bits of the DCS, given the state of the other
 // bits.
 //
-// An error is returned if the state is incompatible with setting the alphabet.
+// An error is returned if the state is incompatible with setting the alphabet,
+// or if there is no such alphabet.
 func (d DCS) WithAlphabet(a Alphabet) (DCS, error) {
+	if a < Alpha7Bit || a > AlphaReserved {
+		return d, ErrInvalid
+	}
 	switch {
 	case d&0x80 == 0x00: // 0xxx
 		return d&^0x0c | (DCS(a) << 2), nil
@@ -142,8 +146,11 @@ func (d DCS) Class() (MessageClass, error) {
 // other bits.
 //
 // An error is returned if the state is incompatible with setting the message
-// class.
+// class, or if there is no such class.
 func (d DCS) WithClass(c MessageClass) (DCS, error) {
+	if c < MClass0 || c > MClass3 {
+		return d, ErrInvalid
+	}
 	switch {
 	case d&0x80 == 0x00: // 0xxx
 		return (d&^0x03 | 0x10 | DCS(c)), nil
-- 
2.43.0


From d3f6b46d87d212dfa9172668e51bf7c97f6fa0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:57 +0000
Subject: [PATCH 25/28] fix: smssubmit fails when the message cannot be encoded
 or marshalled

---
 cmd/smssubmit/smssubmit.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/smssubmit/smssubmit.go b/cmd/smssubmit/smssubmit.go
index 9b56580..eacc61d 100644
--- a/cmd/smssubmit/smssubmit.go
+++ b/cmd/smssubmit/smssubmit.go
@@ -35,16 +35,21 @@ func main() {
 	}
 	pdus, err := sms.Encode([]byte(msg), options...)
 	if err != nil {
-		log.Println(err)
-		return
+		log.Fatalln(err)
 	}
 	if len(pdus) == 1 {
-		b, _ := pdus[0].MarshalBinary()
+		b, err := pdus[0].MarshalBinary()
+		if err != nil {
+			log.Fatalln(err)
+		}
 		fmt.Printf("Submit TPDU:\n%s\n", hex.EncodeToString(b))
 		return
 	}
 	for i, p := range pdus {
-		b, _ := p.MarshalBinary()
+		b, err := p.MarshalBinary()
+		if err != nil {
+			log.Fatalln(err)
+		}
 		fmt.Printf("Submit TPDU %d:\n%s\n", i+1, hex.EncodeToString(b))
 	}
 }
-- 
2.43.0


From 6a800a9c9906ead225eb055623749fae6ce841d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:10 +0000
Subject: [PATCH 26/28] fix: WithAllCharsets keeps the character sets given
 before it

It is documented as equivalent to WithCharset with every character set, which
adds to those already available rather than replacing them, so those given
before it are no longer the first to be tried.
---
 encoding/tpdu/userdata.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index f47dff9..08fa0b9 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -311,11 +311,10 @@ func (o AllCharsetsOption) applyDecodeOption(d udDecodeConfig) udDecodeConfig {
 }
 
 func (o AllCharsetsOption) applyEncodeOption(e udEncodeConfig) udEncodeConfig {
-	e.locking = make([]int, charset.Size)
 	for nli := charset.Start; nli < charset.End; nli++ {
-		e.locking[nli-1] = nli
+		e.locking = append(e.locking, nli)
+		e.shift = append(e.shift, nli)
 	}
-	e.shift = e.locking
 	return e
 }
 
-- 
2.43.0


From e3fd1c1989795f3399a8c1d6e9e012568bfd7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:06 +0000
Subject: [PATCH 27/28] fix: a report segmented into one TPDU is marshalled
 with its user data

---
 encoding/tpdu/tpdu.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index c0f1ef6..87ebd14 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -203,6 +203,11 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) <= bs {
 		// single segment
 		t.UD = msg
+		switch t.SmsType() {
+		case SmsDeliverReport, SmsSubmitReport, SmsStatusReport:
+			// without which the report would be marshalled without the UD
+			t.PI |= PiUDL
+		}
 		if cfg.mr != nil {
 			t.MR = byte(cfg.mr.Count())
 		}
-- 
2.43.0


From 677584c573ea22d58b4b55e75ee85aae430388bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:31 +0000
Subject: [PATCH 28/28] fix: smsdecode shows the header of a command

---
 cmd/smsdecode/smsdecode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/smsdecode/smsdecode.go b/cmd/smsdecode/smsdecode.go
index f1c1c46..ce956ed 100644
--- a/cmd/smsdecode/smsdecode.go
+++ b/cmd/smsdecode/smsdecode.go
@@ -102,7 +102,14 @@ func dumpCommand(w io.Writer, t *tpdu.TPDU) {
 	fmt.Fprintf(w, "TP-MN: %d\n", t.MN)
 	fmt.Fprintf(w, "TP-DA: %s\n", t.DA.Number())
 	fmt.Fprintf(w, "TP-SCTS: %s\n", t.SCTS)
-	fmt.Fprintf(w, "TP-CDL: %d\n", len(t.UD))
+	cdl := len(t.UD)
+	if t.FirstOctet.UDHI() {
+		cdl += t.UDHL() + 1
+	}
+	fmt.Fprintf(w, "TP-CDL: %d\n", cdl)
+	if t.UDH != nil {
+		dumpUDH(w, t.UDH)
+	}
 	dumpCD(w, t.UD)
 }
 
-- 
2.43.0

