package h

import (
	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// C21_Complete: segments are a complete message exactly when they are one TPDU
// without concatenation information, or all have it with the same reference
// and their number as the count, numbered from one in order.
func C21_Complete() {
	n := vp.Range(0, vp.Param("segments", 4, 6))
	var segs []*tpdu.TPDU
	type info struct{ kind, ref, count, seq int }
	in := make([]info, n)
	same16 := vp.Choose(2) == 1
	for i := range in {
		k := vp.Choose(3)
		if i > 1 && k != 0 && (k == 2) != same16 {
			k = 3 - k
		}
		t := &tpdu.TPDU{FirstOctet: tpdu.FirstOctet(vp.Byte())}
		in[i] = info{kind: k}
		switch k {
		case 1:
			d := vp.Bytes(3)
			t.UDH = tpdu.UserDataHeader{{ID: 0, Data: d}}
			in[i] = info{k, int(d[0]), int(d[1]), int(d[2])}
		case 2:
			d := vp.Bytes(4)
			t.UDH = tpdu.UserDataHeader{{ID: 36, Data: []byte{1}}, {ID: 8, Data: d}}
			in[i] = info{k, int(d[0])<<8 | int(d[1]), int(d[2]), int(d[3])}
		}
		segs = append(segs, t)
	}
	got := sms.IsCompleteMessage(segs)
	want := n > 0
	if n == 1 && in[0].kind == 0 {
		vp.Cover("single")
		vp.Assert(got, "one TPDU without concatenation information is complete")
		return
	}
	for i, x := range in {
		want = vp.And(want, x.kind != 0)
		want = vp.And(want, vp.And(x.count == n, vp.And(x.seq == i+1, x.ref == in[0].ref)))
	}
	vp.Assert(got == want, "complete exactly when all segments are there in order")
	if got {
		vp.Cover("complete")
	}
}
