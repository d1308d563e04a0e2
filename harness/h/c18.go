// Schedules.

package h

import (
	"sync"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"vph/vp"
)

// part is a segment of a message; tag tells it from all others.
func part(st tpdu.SmsType, from string, ref byte, segs int, seq, tag byte) tpdu.TPDU {
	var t tpdu.TPDU
	t.SetSmsType(st)
	a := tpdu.Address{TOA: 0x91, Addr: from}
	if st == tpdu.SmsSubmit {
		t.DA = a
	} else {
		t.OA = a
	}
	t.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{ref, byte(segs), seq}}})
	t.UD = []byte{tag}
	return t
}

// asm is what the reference collector has of a message: the tags of its
// segments, -1 for those that are missing.
type asm struct {
	key  int
	tags []int
	n    int
}

func samePipe(segs []*tpdu.TPDU, tags []int) bool {
	if len(segs) != len(tags) {
		return false
	}
	for i, t := range segs {
		if (t == nil) != (tags[i] < 0) {
			return false
		}
		if t != nil && int(t.UD[0]) != tags[i] {
			return false
		}
	}
	return true
}

// refCollector is the collector the documentation describes.
type refCollector struct {
	c       *sms.Collector
	timeout bool
	plain   bool // no timeout, or one with a handler
	after   time.Duration
	handler bool
	closed  bool
	act     []*asm
	mu      sync.Mutex
	expired [][]*tpdu.TPDU
	fires   int
}

func newRefCollector() *refCollector {
	r := &refCollector{}
	var opts []sms.CollectorOption
	k := vp.Choose(4)
	r.plain = k < 2
	switch k {
	case 1, 3:
		if k == 1 {
			r.after = time.Duration(vp.Int(1, 1<<40))
		}
		r.timeout, r.handler = k == 1, true
		opts = append(opts, sms.WithReassemblyTimeout(r.after, func(s []*tpdu.TPDU) {
			r.mu.Lock()
			r.expired = append(r.expired, s)
			r.mu.Unlock()
		}))
	case 2:
		r.timeout = true
		r.after = time.Duration(vp.Int(1, 1<<40))
		opts = append(opts, sms.WithReassemblyTimeout(r.after, nil))
	}
	r.c = sms.NewCollector(opts...)
	return r
}

// collect gives the collector a segment and checks what comes back.
func (r *refCollector) collect(key int, t tpdu.TPDU, segs int, seq byte, tag int) {
	starts := vp.TimerStarts()
	got, err := r.c.Collect(t)
	vp.Assert(err == nil || vp.TimerStarts() == starts, "what is refused gives no message more time")
	if r.closed {
		vp.Assert(err == sms.ErrClosed && got == nil, "a closed collector refuses")
		return
	}
	if seq < 1 || int(seq) > segs {
		vp.Cover("inconsistent")
		vp.Assert(err == sms.ErrReassemblyInconsistency && got == nil, "a segment that is not one of its message is refused")
		return
	}
	var a *asm
	for _, x := range r.act {
		if x.key == key {
			a = x
		}
	}
	if a == nil {
		a = &asm{key: key}
		for i := 0; i < segs; i++ {
			a.tags = append(a.tags, -1)
		}
		r.act = append(r.act, a)
	}
	i := int(seq) - 1
	if a.tags[i] >= 0 {
		vp.Cover("duplicate")
		vp.Assert(err == sms.ErrDuplicateSegment && got == nil, "a segment that is there already is refused")
		return
	}
	vp.Assert(err == nil, "a segment is accepted")
	a.tags[i] = tag
	a.n++
	if a.n < segs {
		vp.Assert(got == nil, "not complete before all segments are there")
		return
	}
	vp.Cover("complete")
	vp.Assert(samePipe(got, a.tags), "the segments in order")
	r.drop(a)
}

func (r *refCollector) drop(a *asm) {
	var rest []*asm
	for _, x := range r.act {
		if x != a {
			rest = append(rest, x)
		}
	}
	r.act = rest
}

// handled gives what was passed to the handler so far.
func (r *refCollector) handled() [][]*tpdu.TPDU {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([][]*tpdu.TPDU(nil), r.expired...)
}

// expire lets a timer expire.
func (r *refCollector) expire(k int) {
	if !vp.FireTimer(k) {
		return
	}
	vp.Cover("expired")
	r.fires++
	// it is the message that is no longer there
	pipes := r.c.Pipes()
	var gone []*asm
	for _, a := range r.act {
		found := false
		for _, s := range pipes {
			found = found || samePipe(s, a.tags)
		}
		if !found {
			gone = append(gone, a)
		}
	}
	vp.Assert(len(gone) == 1, "one message expires")
	if r.handler {
		h := r.handled()
		vp.Assert(len(h) == r.fires, "the handler is called once for each message that expires")
		vp.Assert(samePipe(h[r.fires-1], gone[0].tags), "with the segments collected so far")
	}
	r.drop(gone[0])
}

// check: the collector holds what the reference does.
func (r *refCollector) check() {
	pipes := r.c.Pipes()
	vp.Assert(len(pipes) == len(r.act), "one pipe for each incomplete message")
	for _, a := range r.act {
		n := 0
		for _, s := range pipes {
			if samePipe(s, a.tags) {
				n++
			}
		}
		vp.Assert(n == 1, "the pipe holds the segments of its message")
	}
	want := 0
	if r.timeout && !r.closed {
		want = len(r.act)
	}
	vp.Assert(vp.ArmedTimers() == want, "one timer for each incomplete message")
	for k := 0; k < want; k++ {
		vp.Assert(vp.TimerDelay(k) == r.after, "timers run for the time that was asked for")
	}
	if r.handler {
		vp.Assert(len(r.handled()) == r.fires, "the handler is called for nothing else")
	}
}

// C18_History: after any sequence of segments, expiries and closing, the
// collector has given back, passed on and kept exactly what it should.
func C18_History() {
	r := newRefCollector()
	n := vp.Param("operations", 4, 5)
	if !r.plain {
		n--
	}
	for tag := 0; tag < n; tag++ {
		switch vp.Choose(5) {
		case 0:
			seq := byte(vp.Int(0, 3))
			r.collect(0, part(tpdu.SmsDeliver, "123", 7, 2, seq, byte(tag)), 2, seq, tag)
		case 1:
			seq := byte(vp.Int(0, 4))
			r.collect(1, part(tpdu.SmsDeliver, "123", 7, 3, seq, byte(tag)), 3, seq, tag)
		case 2:
			seq := byte(vp.Int(1, 2))
			r.collect(2, part(tpdu.SmsSubmit, "123", 7, 2, seq, byte(tag)), 2, seq, tag)
		case 3:
			a := vp.ArmedTimers()
			if a == 0 {
				return
			}
			r.expire(vp.Choose(a))
		case 4:
			if r.closed && tag < n-1 {
				return
			}
			r.c.Close()
			r.closed = true
		}
		r.check()
	}
}

// C18_Others: what is not one of several segments is given back at once and
// what cannot be collected is refused, and neither is kept.
func C18_Others() {
	r := newRefCollector()
	r.collect(0, part(tpdu.SmsDeliver, "123", 7, 3, 2, 40), 3, 2, 40)
	closed := vp.Choose(2) == 1
	if closed {
		r.c.Close()
		r.closed = true
	}
	st := tpdu.SmsType(vp.Choose(6))
	segs := byte(vp.Int(0, 3))
	seq := vp.Byte()
	t := part(st, "123", 7, int(segs), seq, 41)
	wide := vp.Choose(3)
	switch wide {
	case 1:
		t.UDH = tpdu.UserDataHeader{{ID: 8, Data: []byte{1, 7, segs, seq}}}
	case 2:
		t.UDH = tpdu.UserDataHeader{{ID: 1, Data: []byte{7, segs, seq}}}
	}
	got, err := r.c.Collect(t)
	switch {
	case closed:
		vp.Assert(err == sms.ErrClosed && got == nil, "a closed collector refuses")
	case segs < 2 || wide == 2:
		vp.Cover("alone")
		vp.Assert(err == nil && len(got) == 1, "given back at once")
		vp.Assert(got[0].UD[0] == 41 && got[0].SmsType() == st, "the TPDU itself")
	case seq < 1 || seq > segs:
		vp.Assert(err == sms.ErrReassemblyInconsistency && got == nil, "a segment that is not one of its message is refused")
	case st != tpdu.SmsDeliver && st != tpdu.SmsSubmit:
		vp.Cover("unsupported")
		vp.Assert(err == tpdu.ErrUnsupportedSmsType(st) && got == nil, "other types are refused")
	default:
		return
	}
	r.check()
}

// C18_Keys: two segments are of one message exactly when type, address,
// reference and count are the same.
func C18_Keys() {
	c := sms.NewCollector()
	n := vp.Param("address characters", 1, 2)
	mk := func(seq byte) (t tpdu.TPDU, st, segs int, a tpdu.Address, ref []byte) {
		st = []int{0, 3}[vp.Choose(2)]
		t.SetSmsType(tpdu.SmsType(st))
		a = tpdu.Address{TOA: vp.Byte(), Addr: vp.Str(vp.Range(0, n))}
		if st == 3 {
			t.DA = a
		} else {
			t.OA = a
		}
		segs = 2 + vp.Choose(2)
		if vp.Choose(2) == 1 {
			ref = vp.Bytes(2)
			vp.Assume(vp.And(vp.Or(ref[0] == 0, ref[0] == 3), vp.Or(ref[1] < 2, ref[1] > 253)))
			t.SetUDH(tpdu.UserDataHeader{{ID: 8, Data: []byte{ref[0], ref[1], byte(segs), seq}}})
		} else {
			r := vp.Byte()
			vp.Assume(vp.Or(r < 2, r > 253))
			ref = []byte{0, r}
			t.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{r, byte(segs), seq}}})
		}
		return
	}
	t1, s1, n1, a1, r1 := mk(1)
	got, err := c.Collect(t1)
	vp.Assert(got == nil && err == nil, "the first segment is kept")
	t2, s2, n2, a2, r2 := mk(2)
	// 8-bit and 16-bit references of one value are not told apart
	vp.Assume(len(t1.UDH[0].Data) == len(t2.UDH[0].Data))
	got, err = c.Collect(t2)
	vp.Assert(err == nil, "the second segment is accepted")
	same := vp.And(vp.And(s1 == s2 && n1 == n2 && len(a1.Addr) == len(a2.Addr), a1.TOA == a2.TOA), vp.And(vp.EqBytes(r1, r2), vp.EqStr(a1.Addr, a2.Addr)))
	p := c.Pipes()
	if same {
		vp.Cover("same")
		if n1 == 2 {
			vp.Assert(len(got) == 2 && len(p) == 0, "the message is complete")
		} else {
			vp.Assert(got == nil && len(p) == 1, "both are kept together")
		}
		return
	}
	vp.Assert(got == nil && len(p) == 2, "they are kept apart")
}

// C18_Refs: messages whose references or numbers of segments differ, however
// little, are kept apart.
func C18_Refs() {
	c := sms.NewCollector()
	var ts [2]tpdu.TPDU
	a := vp.U16()
	b := a
	n1, n2 := 2, 2
	switch vp.Choose(3) {
	case 0:
		b ^= 1 << vp.Choose(16)
	case 1:
		b += uint16(vp.Choose(2))*2 - 1
	case 2:
		n1 = []int{2, 3, 14, 255}[vp.Choose(4)]
		n2 = []int{2, 12, 18, 34, 66, 130, 254}[vp.Choose(7)]
	}
	wide := vp.Choose(2) == 1
	if !wide {
		vp.Assume(vp.And(a < 256, b < 256))
	}
	for i, r := range []uint16{a, b} {
		n := []int{n1, n2}[i]
		ts[i] = part(tpdu.SmsDeliver, "123", byte(r), n, byte(i+1), byte(i))
		if wide {
			ts[i].UDH[0] = tpdu.InformationElement{ID: 8, Data: []byte{byte(r >> 8), byte(r), byte(n), byte(i + 1)}}
		}
	}
	got, err := c.Collect(ts[0])
	vp.Assert(got == nil && err == nil, "the first segment is kept")
	got, err = c.Collect(ts[1])
	vp.Assert(err == nil, "the second segment is accepted")
	if n1 == n2 && a == b {
		vp.Assert(len(got) == 2 && len(c.Pipes()) == 0, "the message is complete")
		return
	}
	vp.Assert(got == nil && len(c.Pipes()) == 2, "they are kept apart")
}

// C18_Many: messages of many segments.
func C18_Many() {
	n := []int{9, 17, 128, 255, 10, 16, 64, 200}[vp.Choose(vp.Param("lengths", 4, 8))]
	first := []int{0, n / 2, 1, n - 1}[vp.Choose(vp.Param("first segments", 2, 4))]
	late := []int{1, n - 1, n / 2}[vp.Choose(vp.Param("places", 2, 3))]
	c := sms.NewCollector()
	defer c.Close()
	for i := 0; i < n; i++ {
		k := (first + i) % n
		got, err := c.Collect(part(tpdu.SmsSubmit, "123", 7, n, byte(k+1), byte(k)))
		vp.Assert(err == nil, "a segment is accepted")
		if i < n-1 {
			vp.Assert(got == nil, "not complete before all segments are there")
		} else {
			vp.Assert(len(got) == n, "complete with the last segment")
			for j, t := range got {
				vp.Assert(t != nil && int(t.UD[0]) == j, "the segments in order")
			}
		}
		if i == late-1 {
			// any other segment number
			q := vp.Byte()
			have := (int(q)-1-first+n)%n <= i
			if q == 0 || int(q) > n {
				got, err = c.Collect(part(tpdu.SmsSubmit, "123", 7, n, q, 0))
				vp.Assert(err == sms.ErrReassemblyInconsistency && got == nil, "a segment that is not one of its message is refused")
			} else if have {
				got, err = c.Collect(part(tpdu.SmsSubmit, "123", 7, n, q, 0))
				vp.Assert(err == sms.ErrDuplicateSegment && got == nil, "a segment that is there already is refused")
			}
		}
	}
	vp.Assert(len(c.Pipes()) == 0, "nothing is left")
}

// C18_Orders: the segments of a message of some, arriving in any order, some of
// them twice, are given back in order when the last is there and not before.
func C18_Orders() {
	r := &refCollector{plain: true, c: sms.NewCollector()}
	n := vp.Param("segments", 4, 5)
	for tag := 0; tag <= n; tag++ {
		seq := byte(vp.Int(1, n))
		r.collect(0, part(tpdu.SmsDeliver, "123", 7, n, seq, byte(tag)), n, seq, tag)
	}
	r.check()
}

// C18_Snapshot: what Pipes returned, and what was given to the caller, does
// not change with what is collected later.
func C18_Snapshot() {
	r := newRefCollector()
	r.collect(0, part(tpdu.SmsDeliver, "123", 7, 3, 2, 0), 3, 2, 0)
	p := r.c.Pipes()
	t := part(tpdu.SmsDeliver, "123", 7, 3, 1, 1)
	r.collect(0, t, 3, 1, 1)
	t.UD, t.OA.Addr = []byte{99}, "9"
	vp.Assert(len(p) == 1, "one message")
	for _, s := range p {
		vp.Assert(samePipe(s, []int{-1, 0, -1}), "the snapshot is as it was taken")
		for i := range s {
			s[i] = nil
		}
	}
	r.check()
	r.collect(0, part(tpdu.SmsDeliver, "123", 7, 3, 3, 2), 3, 3, 2)
	r.check()
}

// ledger accounts for every segment given to a collector.
type ledger struct {
	mu       sync.Mutex
	accepted [8]bool
	out      [][]*tpdu.TPDU
	expired  [][]*tpdu.TPDU
}

func (l *ledger) give(c *sms.Collector, t tpdu.TPDU) {
	got, err := c.Collect(t)
	l.mu.Lock()
	defer l.mu.Unlock()
	if err != nil {
		vp.Assert(got == nil, "an error or a message, not both")
		return
	}
	l.accepted[t.UD[0]] = true
	if got != nil {
		l.out = append(l.out, got)
	}
}

// settle checks that each accepted segment is in exactly one place, that what
// was given back is complete and in order, and what was not is not.
func (l *ledger) settle(pipes map[string][]*tpdu.TPDU) {
	l.mu.Lock()
	defer l.mu.Unlock()
	var seen [8]int
	count := func(segs []*tpdu.TPDU, complete bool) {
		n := 0
		for i, t := range segs {
			if t == nil {
				continue
			}
			n++
			seen[t.UD[0]]++
			sg, seq, _, _ := t.ConcatInfo()
			vp.Assert(sg == len(segs) && seq == i+1, "a segment is in its place")
		}
		vp.Assert(n > 0, "there is a segment")
		vp.Assert((n == len(segs)) == complete, "complete messages are given back, others are not")
	}
	for _, s := range l.out {
		count(s, true)
	}
	for _, s := range l.expired {
		count(s, false)
	}
	for _, s := range pipes {
		count(s, false)
	}
	for i := range seen {
		want := 0
		if l.accepted[i] {
			want = 1
		}
		vp.Assert(seen[i] == want, "an accepted segment is in one place")
	}
}

func (l *ledger) expire(s []*tpdu.TPDU) {
	l.mu.Lock()
	l.expired = append(l.expired, append([]*tpdu.TPDU(nil), s...))
	l.mu.Unlock()
}

// concurrent collects each thread's segments, given as message*10+sequence
// number, 0 for any, at once with those of the others.  Messages have two segments, or
// three from message five on.
func concurrent(bound int, timers, pipes, closes bool, threads ...[]int) {
	l := &ledger{}
	var opts []sms.CollectorOption
	if timers {
		opts = append(opts, sms.WithReassemblyTimeout(time.Minute, l.expire))
	}
	c := sms.NewCollector(opts...)
	vp.Explore(bound, timers)
	tag := byte(0)
	for _, th := range threads {
		var ps []tpdu.TPDU
		for _, x := range th {
			segs := 2
			if x/10 >= 5 {
				segs = 3
			}
			seq := byte(x % 10)
			if seq == 0 {
				seq = byte(vp.Int(1, segs))
			}
			ps = append(ps, part(tpdu.SmsDeliver, "123", byte(x/10), segs, seq, tag))
			tag++
		}
		vp.Go(func() {
			for _, p := range ps {
				l.give(c, p)
			}
		})
	}
	if pipes {
		vp.Go(func() {
			for _, s := range c.Pipes() {
				n := 0
				for i, t := range s {
					if t != nil {
						n++
						_, seq, _, _ := t.ConcatInfo()
						vp.Assert(seq == i+1, "a snapshot has the segments in their places")
					}
				}
				vp.Assert(n > 0 && n < len(s), "a snapshot is of an incomplete message")
			}
		})
	}
	if closes {
		vp.Go(c.Close)
	}
	vp.WaitAll()
	vp.StopExplore()
	if closes {
		vp.Assert(vp.ArmedTimers() == 0, "closing stops the timers")
	}
	p := c.Pipes()
	l.settle(p)
	if !closes && timers {
		vp.Assert(vp.ArmedTimers() == len(p), "a timer for each incomplete message")
		for vp.ArmedTimers() > 0 {
			vp.FireTimer(0)
		}
		p = c.Pipes()
		vp.Assert(len(p) == 0, "nothing is left once all timers have expired")
		l.settle(p)
	}
}

// C18_TwoSenders: segments of the same messages from two senders.
func C18_TwoSenders() {
	b := vp.Param("preemptions", 2, 4)
	switch vp.Choose(3) {
	case 0:
		concurrent(b, false, true, false, []int{10, 20}, []int{10, 20})
	case 1:
		concurrent(b, false, false, false, []int{10, 10}, []int{10, 10})
	case 2:
		concurrent(b, false, false, false, []int{50, 50}, []int{50, 50})
	}
}

// C18_Expiry: timers that expire while segments are collected.
func C18_Expiry() {
	b := vp.Param("preemptions", 3, 4)
	switch vp.Choose(4) {
	case 0:
		concurrent(b, true, false, false, []int{11, 10})
	case 1:
		concurrent(b, true, false, false, []int{51, 50, 50})
	case 2:
		concurrent(b, true, false, false, []int{10}, []int{10})
	case 3:
		concurrent(b, true, false, false, []int{10, 20, 10})
	}
}

// C18_Closing: closing while segments are collected and timers expire.
func C18_Closing() {
	b := vp.Param("preemptions", 2, 3)
	if vp.Choose(2) == 1 {
		concurrent(b, true, true, true, []int{11, 21})
		return
	}
	concurrent(b, true, false, true, []int{10, 20, 10})
}

// C18_Handler: the handler may use the collector, and what it does counts like
// what anyone else does.
func C18_Handler() {
	var c *sms.Collector
	what := vp.Choose(5)
	calls, done := 0, 0
	var kept []*tpdu.TPDU
	c = sms.NewCollector(sms.WithReassemblyTimeout(time.Minute, func(s []*tpdu.TPDU) {
		calls++
		kept = s
		vp.Assert(len(c.Pipes()) == 1, "what expired is no longer collected")
		if calls > 1 {
			done++
			return
		}
		switch what {
		case 1:
			// collected again from the start
			for _, t := range s {
				if t != nil {
					got, err := c.Collect(*t)
					vp.Assert(got == nil && err == nil, "a segment that expired can be collected again")
				}
			}
		case 2:
			got, err := c.Collect(part(tpdu.SmsDeliver, "123", 8, 2, 2, 3))
			vp.Assert(err == nil && samePipe(got, []int{2, 3}), "another message is completed")
		case 3:
			c.Close()
		case 4:
			c.Close()
			got, err := c.Collect(part(tpdu.SmsDeliver, "123", 8, 2, 2, 3))
			vp.Assert(got == nil && err == sms.ErrClosed, "a closed collector refuses")
		}
		done++
	}))
	give := func(ref byte, segs int, seq, tag byte) {
		got, err := c.Collect(part(tpdu.SmsDeliver, "123", ref, segs, seq, tag))
		vp.Assert(got == nil && err == nil, "a segment is kept")
	}
	q := byte(vp.Int(1, 3))
	r := byte(vp.Int(1, 3))
	vp.Assume(q != r)
	want := []int{-1, -1, -1}
	want[q-1], want[r-1] = 0, 1
	give(7, 3, q, 0)
	give(7, 3, r, 1)
	give(8, 2, 1, 2)
	// the timer of the first message
	vp.Assert(vp.ArmedTimers() == 2, "a timer for each incomplete message")
	vp.Assert(vp.FireTimer(0), "the timer expires")
	vp.Assert(calls == 1 && done == 1, "the handler is called once, and returns")
	vp.Assert(samePipe(kept, want), "with the segments collected so far")
	n, armed := 1, 1
	switch what {
	case 1:
		n, armed = 2, 2
	case 2:
		n, armed = 0, 0
	case 3, 4:
		armed = 0
	}
	vp.Assert(len(c.Pipes()) == n && vp.ArmedTimers() == armed, "the collector goes on")
}
