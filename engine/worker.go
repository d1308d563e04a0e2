package main

// Worker: one symbolic-execution worker with its own terms, solver, heap and
// current path.

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

type Decision struct {
	val     uint64
	kind    uint8 // 'b' branch, 'c' concretise, 'n' choice
	taken   bool
	implied bool
}

type Input struct {
	Kind string
	Term Value // Term or concrete uint64/bool
	Off  int64 // value reported = Off + term (vp.Int)
	Sgn  uint8 // sign-extend from this width when reporting
}

type journalEnt struct {
	slot *Value
	old  Value
	f    func()
}

type pathEnd struct{ why string }      // infeasible or assumed away
type pathAbort struct{}                // thread killed at path end
type pathStop struct{ stop *stopInfo } // harness must stop: violation etc.

type stopInfo struct {
	kind string // "violation", "hang"
	msg  string
	vals []InputVal
	dec  []Decision
	find string
}

type InputVal struct {
	K string `json:"k"`
	V int64  `json:"v"`
}

type Job struct {
	prefix []Decision
	model  []uint64 // by input-variable ordinal; nil = unknown
	depth  int
}

type Worker struct {
	e       *Engine
	id      int
	b       *Builder
	s       *Solver
	globals []*Value
	inited  bool
	journal []journalEnt
	jourOn  bool

	// current path
	prefix   []Decision
	pos      int
	dec      []Decision
	pc       []*Term
	lits     map[*Term]bool
	model    *Model
	gen      uint32
	jobMod   []uint64
	vars     []*Term
	inputs   []Input
	steps    int64
	unk      bool
	civ      map[civKey]civil
	mapOrd   bool
	obs      []obsRec
	covers   map[string]bool
	nassert  int64
	depth    int
	tryDepth int

	// threads
	threads  []*Thread
	cur      *Thread
	sch      *Sched
	aborting bool

	fnUsed map[*fnCode]bool
	st     PathStats
}

type obsRec struct {
	label string
	v     Value
	w     uint8
}

type PathStats struct {
	Paths, Infeasible, Decisions, Asserts, AssertSolver, Steps int64
	UnkBranches                                                int64
	MaxPC                                                      int
}

func (w *Worker) undo(f func()) {
	if w.jourOn {
		w.journal = append(w.journal, journalEnt{f: f})
	}
}

func (w *Worker) rollback() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		j := &w.journal[i]
		if j.f != nil {
			j.f()
		} else {
			*j.slot = j.old
		}
		*j = journalEnt{}
	}
	w.journal = w.journal[:0]
}

// set stores into a slot, journalling the old value.
func (w *Worker) set(p *Value, v Value) {
	if w.jourOn {
		w.journal = append(w.journal, journalEnt{slot: p, old: *p})
	}
	*p = v
}

// storeTo implements *p = v with aggregates copied in place so that existing
// field and element addresses stay valid.
func (w *Worker) storeTo(p *Value, v Value) {
	if a, ok := v.(Agg); ok {
		if d, ok := (*p).(Agg); ok && len(d) == len(a) {
			if len(a) > 0 && &a[0] == &d[0] {
				return
			}
			for i := range a {
				w.storeTo(&d[i], a[i])
			}
			return
		}
		v = copyVal(v)
	}
	w.set(p, v)
}

// ---- path condition ----

func (w *Worker) addPC(t *Term) {
	if t.op == OConst {
		if t.k == 0 {
			panic(pathEnd{"false"})
		}
		return
	}
	if t.op == OAnd {
		w.addPC(t.a)
		w.addPC(t.b)
		w.setLit(t, true)
		return
	}
	if v, ok := w.lits[t]; ok && v {
		return
	}
	w.setLit(t, true)
	w.pc = append(w.pc, t)
	if len(w.pc) > w.st.MaxPC {
		w.st.MaxPC = len(w.pc)
	}
}

func (w *Worker) setLit(t *Term, v bool) {
	if t.op == ONot {
		t, v = t.a, !v
	}
	w.lits[t] = v
}

func (w *Worker) lit(t *Term) (bool, bool) {
	neg := false
	if t.op == ONot {
		t, neg = t.a, true
	}
	v, ok := w.lits[t]
	return v != neg, ok
}

func (w *Worker) eval(t *Term) uint64 {
	return w.b.Eval(t, w.model, w.gen)
}

func (w *Worker) newModel(m *Model) {
	w.model = m
	w.gen = w.b.NewEvalGen()
}

// ensureModel finds a model of the path condition if none is known.
func (w *Worker) ensureModel() {
	if w.model != nil {
		return
	}
	r, m := w.s.Check(w.pc, nil, true)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible"})
	case Unknown:
		w.unk = true
		panic(pathEnd{"unknown"})
	}
	w.newModel(m)
}

func (w *Worker) modelVec(m *Model) []uint64 {
	v := make([]uint64, len(w.vars))
	for i, t := range w.vars {
		v[i] = m.v[t]
	}
	return v
}

func (w *Worker) replaying() bool { return w.pos < len(w.prefix) }

func (w *Worker) checkBudget() {
	if w.e.stopFlag.Load() {
		panic(pathEnd{"stopped"})
	}
}

func (w *Worker) pushJob(last Decision, m *Model) {
	p := make([]Decision, len(w.dec)+1)
	copy(p, w.dec)
	p[len(w.dec)] = last
	j := &Job{prefix: p}
	if m != nil {
		j.model = w.modelVec(m)
	}
	w.e.push(w.id, j)
}

// truth forces a boolean value, forking if both outcomes are feasible.
func (w *Worker) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return w.branch(v.(*Term))
}

func (w *Worker) branch(t *Term) bool {
	if t.op == OConst {
		return t.k == 1
	}
	if v, ok := w.lit(t); ok {
		return v
	}
	if w.replaying() {
		d := w.prefix[w.pos]
		if d.kind != 'b' {
			panic(engineError{"replay divergence (branch)"})
		}
		w.pos++
		w.dec = append(w.dec, d)
		if d.implied {
			w.setLit(t, d.taken)
		} else if d.taken {
			w.addPC(t)
		} else {
			w.addPC(w.b.Not(t))
		}
		return d.taken
	}
	w.checkBudget()
	w.ensureModel()
	mv := w.eval(t) == 1
	lit, oth := t, w.b.Not(t)
	if !mv {
		lit, oth = oth, lit
	}
	w.st.Decisions++
	r, m := w.s.Check(w.pc, oth, true)
	switch r {
	case Unsat:
		w.dec = append(w.dec, Decision{kind: 'b', taken: mv, implied: true})
		w.setLit(t, mv)
		return mv
	case Unknown:
		w.st.UnkBranches++
		w.e.noteUnknown("branch feasibility undecided")
	}
	w.pushJob(Decision{kind: 'b', taken: !mv}, m)
	w.dec = append(w.dec, Decision{kind: 'b', taken: mv})
	w.addPC(lit)
	return mv
}

// concretise enumerates the feasible values of an integer term.
func (w *Worker) concretise(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case bool:
		if x {
			return 1
		}
		return 0
	}
	t := v.(*Term)
	if t.w == 0 {
		if w.branch(t) {
			return 1
		}
		return 0
	}
	for {
		if w.replaying() {
			d := w.prefix[w.pos]
			if d.kind != 'c' {
				panic(engineError{"replay divergence (concretise)"})
			}
			w.pos++
			w.dec = append(w.dec, d)
			eq := w.b.Eq(t, w.b.Const(t.w, d.val))
			if d.taken {
				if !d.implied {
					w.addPC(eq)
				}
				return d.val
			}
			w.addPC(w.b.Not(eq))
			continue
		}
		w.checkBudget()
		w.ensureModel()
		val := w.eval(t)
		eq := w.b.Eq(t, w.b.Const(t.w, val))
		w.st.Decisions++
		r, m := w.s.Check(w.pc, w.b.Not(eq), true)
		if r == Unsat {
			w.dec = append(w.dec, Decision{kind: 'c', val: val, taken: true, implied: true})
			return val
		}
		if r == Unknown {
			w.st.UnkBranches++
			w.e.noteUnknown("concretisation undecided")
		}
		w.pushJob(Decision{kind: 'c', val: val}, m)
		w.dec = append(w.dec, Decision{kind: 'c', val: val, taken: true})
		w.addPC(eq)
		return val
	}
}

func (w *Worker) concInt(v Value) int {
	return int(int64(w.concretise(v)))
}

// choose is a concrete nondeterministic choice in 0..n-1.
func (w *Worker) choose(n int) int {
	if n <= 0 {
		panic(pathEnd{"empty choice"})
	}
	if n == 1 {
		return 0
	}
	if w.replaying() {
		d := w.prefix[w.pos]
		if d.kind != 'n' {
			panic(engineError{"replay divergence (choice)"})
		}
		w.pos++
		w.dec = append(w.dec, d)
		return int(d.val)
	}
	w.checkBudget()
	w.st.Decisions++
	for i := n - 1; i >= 1; i-- {
		w.pushJob(Decision{kind: 'n', val: uint64(i)}, w.model)
	}
	w.dec = append(w.dec, Decision{kind: 'n', val: 0})
	return 0
}

// newVar creates the next symbolic input variable of the path.
func (w *Worker) newVar(width uint8) *Term { return w.newVarMax(width, mask(width)) }

// newVarMax creates a variable of at most max; the caller puts the bound in
// the path condition.
func (w *Worker) newVarMax(width uint8, max uint64) *Term {
	k := len(w.vars)
	name := fmt.Sprintf("i%d_%d", k, width)
	if width > 0 && max != mask(width) {
		name += fmt.Sprintf("_%d", max)
	}
	t := w.b.Var(name, width)
	if width > 0 {
		t.umax = max
	}
	w.vars = append(w.vars, t)
	if w.model != nil {
		if k < len(w.jobMod) {
			w.model.v[t] = w.jobMod[k]
		} else {
			w.model.v[t] = 0
		}
	}
	return t
}

func (w *Worker) assume(v Value) {
	if b, ok := v.(bool); ok {
		if !b {
			panic(pathEnd{"assume"})
		}
		return
	}
	t := v.(*Term)
	if lv, ok := w.lit(t); ok {
		if !lv {
			panic(pathEnd{"assume"})
		}
		return
	}
	if w.replaying() {
		w.addPC(t)
		return
	}
	w.ensureModel()
	if w.eval(t) == 1 {
		w.addPC(t)
		return
	}
	r, m := w.s.Check(w.pc, t, true)
	switch r {
	case Unsat:
		panic(pathEnd{"assume"})
	case Unknown:
		w.e.noteUnknown("assumption undecided")
		panic(pathEnd{"assume unknown"})
	}
	w.addPC(t)
	w.newModel(m)
}

// assertProp decides an assertion for every input on this path.
func (w *Worker) assertProp(v Value, msg string) {
	w.nassert++
	w.st.Asserts++
	if b, ok := v.(bool); ok {
		if !b {
			w.violation(msg, nil)
		}
		return
	}
	t := v.(*Term)
	if lv, ok := w.lit(t); ok {
		if !lv {
			w.violation(msg, nil)
		}
		return
	}
	if w.replaying() {
		// decided on the path that created this prefix
		w.lits[stripNot(t)] = t.op != ONot
		return
	}
	w.checkBudget()
	w.ensureModel()
	if w.eval(t) == 0 {
		w.violation(msg, w.model)
	}
	w.st.AssertSolver++
	neg := w.b.Not(t)
	r, m := w.s.Check(w.pc, neg, true)
	switch r {
	case Sat:
		w.violation(msg, m)
	case Unknown:
		w.e.noteUnknown("assertion undecided: " + msg)
		w.setLit(t, true)
		return
	}
	w.e.maybeCross(w, neg)
	w.setLit(t, true)
}

func stripNot(t *Term) *Term {
	if t.op == ONot {
		return t.a
	}
	return t
}

func (w *Worker) violation(msg string, m *Model) {
	if m == nil {
		if w.model == nil {
			w.ensureModel()
		}
		m = w.model
	}
	w.stop("violation", msg, m)
}

func (w *Worker) stop(kind, msg string, m *Model) {
	panic(pathStop{&stopInfo{kind: kind, msg: msg, vals: w.inputVals(m), dec: append([]Decision(nil), w.dec...)}})
}

func (w *Worker) inputVals(m *Model) []InputVal {
	gen := w.b.NewEvalGen()
	r := make([]InputVal, 0, len(w.inputs))
	for _, in := range w.inputs {
		var u uint64
		switch t := in.Term.(type) {
		case *Term:
			u = w.b.Eval(t, m, gen)
		case uint64:
			u = t
		case bool:
			if t {
				u = 1
			}
		}
		v := int64(u)
		if in.Sgn > 0 {
			v = sext(u, in.Sgn)
		}
		r = append(r, InputVal{in.Kind, v + in.Off})
	}
	// the generation used w.gen's memo slots
	w.gen = w.b.NewEvalGen()
	return r
}

// throw raises a Go run-time panic in the target program.
func (w *Worker) throw(msg string) {
	panic(&targetPanic{v: Iface{w.e.rtErrType, "runtime error: " + msg}, stack: w.where()})
}

func (w *Worker) where() string {
	if w.cur == nil || w.cur.top == nil {
		return ""
	}
	var sb strings.Builder
	n := 0
	for f := w.cur.top; f != nil && n < 8; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.code.fn.String())
		n++
	}
	return sb.String()
}

// runJob executes one path to completion.
func (w *Worker) runJob(j *Job) (res *stopInfo) {
	w.prefix, w.pos = j.prefix, 0
	w.dec = make([]Decision, 0, len(j.prefix)+16)
	w.pc = w.pc[:0]
	w.lits = map[*Term]bool{}
	w.jobMod = j.model
	w.model = nil
	if j.model != nil || len(j.prefix) == 0 {
		w.newModel(&Model{v: map[*Term]uint64{}})
	}
	w.vars = w.vars[:0]
	w.inputs = w.inputs[:0]
	w.obs = w.obs[:0]
	w.steps = 0
	w.civ = nil
	w.mapOrd = false
	w.nassert = 0
	w.tryDepth = 0
	w.covers = map[string]bool{}
	w.aborting = false
	w.sch = nil
	main := &Thread{id: 0}
	w.threads = []*Thread{main}
	w.cur = main
	w.jourOn = true
	complete := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					w.st.Infeasible++
				case pathStop:
					res = r.stop
				case *targetPanic:
					res = w.panicStop(r)
				case pathAbort:
				default:
					panic(r)
				}
			}
		}()
		w.callClosure(nil, w.e.harness, nil)
		w.finishMain()
		complete = true
	}()
	w.killThreads()
	if complete {
		w.st.Paths++
		w.e.pathDone(w)
	}
	w.st.Steps += w.steps
	w.rollback()
	w.jourOn = false
	if w.b.n > 3000000 {
		w.resetTerms()
	}
	return
}

func (w *Worker) panicStop(tp *targetPanic) (res *stopInfo) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				w.st.Infeasible++
				res = nil
			case pathStop:
				res = r.stop
			default:
				panic(r)
			}
		}
	}()
	w.ensureModel()
	w.violation("uncaught panic: "+w.panicText(tp)+" ["+tp.stack+"]", nil)
	return nil
}

func (w *Worker) panicText(tp *targetPanic) string {
	if i, ok := tp.v.(Iface); ok {
		switch v := i.v.(type) {
		case string:
			return v
		case uint64:
			return fmt.Sprint(v)
		}
		if i.t != nil {
			return i.t.String()
		}
	}
	return fmt.Sprintf("%T", tp.v)
}

// resetTerms drops the term table (globals hold no terms between paths).
func (w *Worker) resetTerms() {
	st := w.s.st
	w.s.Close()
	w.b = NewBuilder()
	w.s = NewSolver(w.b)
	w.s.st = st
	w.s.stopped = w.e.stopFlag.Load
}

// loop processes jobs until the pool is drained.
func (w *Worker) loop() {
	for {
		j := w.e.pop(w.id)
		if j == nil {
			return
		}
		res := w.safeRun(j)
		w.e.done(w.id, res)
	}
}

func (w *Worker) safeRun(j *Job) (res *stopInfo) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(engineError); ok {
				w.e.noteEngineError(e.msg + " [" + w.where() + "]")
				w.killThreads()
				w.rollback()
				w.jourOn = false
				return
			}
			panic(r)
		}
	}()
	return w.runJob(j)
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = time.Now
