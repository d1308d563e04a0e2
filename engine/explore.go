package main

// Engine: program loading, package initialisation, and the pool of paths.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog     *ssa.Program
	pkgs     []*packages.Package
	targets  string // import path prefix of the code under test
	codeMu   sync.RWMutex
	codes    map[*ssa.Function]*fnCode
	raws     map[*ssa.Function]*fnCode
	glMu     sync.RWMutex
	glIdx    map[*ssa.Global]int
	glob     []*ssa.Global
	cloMu    sync.Mutex
	clos     map[*ssa.Function]*Closure
	mMu      sync.RWMutex
	methods  map[methKey]*Closure
	implMu   sync.RWMutex
	impls    map[implKey]bool
	initMsgs []string

	rtErrType, errStrType, wrapErrType types.Type
	timerType, timeType                types.Type
	errIface, strIface                 *types.Interface

	maxSteps int64
	thorough bool
	crossN   int64

	// per-harness run
	harness  *Closure
	hname    string
	workers  []*Worker
	stopFlag atomic.Bool
	deadline time.Time
	mu       sync.Mutex
	cond     *sync.Cond
	stacks   [][]*Job
	njobs    int
	active   int
	timedOut bool

	rep *HarnessReport

	known   map[string]bool
	nSample int64
}

type methKey struct {
	t types.Type
	n string
}
type implKey struct {
	t types.Type
	i *types.Interface
}

type Sample struct {
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Vals    []InputVal `json:"vals"`
	Obs     []ObsOut   `json:"obs,omitempty"`
	Covers  []string   `json:"covers,omitempty"`
}

type ObsOut struct {
	L string  `json:"l"`
	V []int64 `json:"v"`
}

type KnownHit struct {
	ID   string
	Msg  string
	Vals []InputVal
}

type HarnessReport struct {
	Name     string
	Wall     time.Duration
	Stats    PathStats
	Solver   SolverStats
	Funcs    map[string]bool
	Params   map[string]int64
	Covers   map[string]int64
	Unknowns map[string]int64
	EngErrs  map[string]int64
	Known    map[string]*KnownHit
	Samples  []*Sample
	Complete bool
	Pending  int
	Stop     *stopInfo
	// Unconfirmed is the message of a counterexample that the real code did
	// not reproduce.
	Unconfirmed string
	CrossBad    int64
	Validated   int64
	Abstract    map[string]int64
}

func loadEngine(dir string, overlay map[string][]byte, pats ...string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	if overlay != nil {
		cfg.BuildFlags = []string{"-tags=cmds"}
	}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: pk, targets: "github.com/warthog618/sms",
		codes: map[*ssa.Function]*fnCode{}, glIdx: map[*ssa.Global]int{}, clos: map[*ssa.Function]*Closure{},
		methods: map[methKey]*Closure{}, impls: map[implKey]bool{}, maxSteps: 40000000}
	e.cond = sync.NewCond(&e.mu)
	named := func(p, n string) types.Type {
		sp := prog.ImportedPackage(p)
		if sp == nil {
			return nil
		}
		o := sp.Pkg.Scope().Lookup(n)
		if o == nil {
			return nil
		}
		return o.Type()
	}
	e.rtErrType = types.Typ[types.String]
	if t := named("runtime", "errorString"); t != nil {
		e.rtErrType = t
	}
	e.errStrType = named("errors", "errorString")
	e.wrapErrType = named("fmt", "wrapError")
	e.timerType = named("time", "Timer")
	e.timeType = named("time", "Time")
	e.errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if t := named("fmt", "Stringer"); t != nil {
		e.strIface = t.Underlying().(*types.Interface)
	} else {
		sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)
		e.strIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String", sig)}, nil)
		e.strIface.Complete()
	}
	return e, nil
}

func (e *Engine) globalIdx(g *ssa.Global) int {
	e.glMu.Lock()
	defer e.glMu.Unlock()
	if i, ok := e.glIdx[g]; ok {
		return i
	}
	i := len(e.glob)
	e.glob = append(e.glob, g)
	e.glIdx[g] = i
	return i
}

func (e *Engine) closureOf(fn *ssa.Function) *Closure {
	e.cloMu.Lock()
	defer e.cloMu.Unlock()
	c := e.clos[fn]
	if c == nil {
		c = &Closure{fn: fn}
		e.clos[fn] = c
	}
	return c
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func (e *Engine) isTarget(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return strings.HasPrefix(p, e.targets) || strings.HasPrefix(p, "vph/cmds/")
}

var forbiddenPkgs = map[string]bool{
	"runtime": true, "reflect": true, "syscall": true, "os": true, "unsafe": true,
	"internal/poll": true, "internal/reflectlite": true, "sync": true, "sync/atomic": true,
	"fmt": true, "log": true, "flag": true, "net": true, "internal/runtime/atomic": true,
	"internal/cpu": true, "internal/godebug": true, "internal/sync": true,
}

func (e *Engine) forbidden(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return forbiddenPkgs[p] || strings.HasPrefix(p, "internal/runtime/") || strings.HasPrefix(p, "runtime/")
}

// initAllowed lists library packages whose package-level state is needed.
var initAllowed = map[string]bool{
	"errors": true, "io": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"bytes": true, "strings": true, "strconv": true, "encoding/hex": true, "encoding/binary": true,
	"time": true, "sort": true, "math/bits": true, "math": true, "slices": true, "encoding": true,
	"bufio": true, "internal/stringslite": true, "internal/itoa": true,
}

func (e *Engine) method(t types.Type, m *types.Func) *Closure {
	k := methKey{t, m.Id()}
	e.mMu.RLock()
	c := e.methods[k]
	e.mMu.RUnlock()
	if c != nil {
		return c
	}
	e.mMu.Lock()
	defer e.mMu.Unlock()
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(engineError{"no method " + m.Name() + " on " + t.String()})
	}
	c = e.closureOf(fn)
	e.methods[k] = c
	return c
}

func (e *Engine) methodByName(t types.Type, name string) *Closure {
	k := methKey{t, name}
	e.mMu.RLock()
	c, ok := e.methods[k]
	e.mMu.RUnlock()
	if ok {
		return c
	}
	e.mMu.Lock()
	defer e.mMu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		e.methods[k] = nil
		return nil
	}
	c = e.closureOf(e.prog.MethodValue(sel))
	e.methods[k] = c
	return c
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	e.implMu.RLock()
	r, ok := e.impls[k]
	e.implMu.RUnlock()
	if ok {
		return r
	}
	e.implMu.Lock()
	defer e.implMu.Unlock()
	r = types.Implements(t, i)
	e.impls[k] = r
	return r
}

func (e *Engine) identical(a, b types.Type) bool { return a == b || types.Identical(a, b) }

// ---- workers ----

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{e: e, id: id, b: NewBuilder(), fnUsed: map[*fnCode]bool{}}
	w.s = NewSolver(w.b)
	w.s.stopped = e.stopFlag.Load
	return w
}

func (w *Worker) global(i int) Value {
	if i >= len(w.globals) || w.globals[i] == nil {
		e := w.e
		e.glMu.RLock()
		n := len(e.glob)
		g := e.glob[i]
		e.glMu.RUnlock()
		for len(w.globals) < n {
			w.globals = append(w.globals, nil)
		}
		p := new(Value)
		*p = zero(deref(g.Type()))
		w.globals[i] = p
	}
	return w.globals[i]
}

// initPackages runs the package initialisers concretely.
func (w *Worker) initPackages() (err error) {
	if w.inited {
		return nil
	}
	w.lits = map[*Term]bool{}
	w.threads = []*Thread{{id: 0}}
	w.cur = w.threads[0]
	w.jourOn = false
	done := map[*types.Package]bool{}
	var visit func(p *types.Package) error
	visit = func(p *types.Package) error {
		if done[p] {
			return nil
		}
		done[p] = true
		for _, i := range p.Imports() {
			if err := visit(i); err != nil {
				return err
			}
		}
		path := p.Path()
		own := strings.HasPrefix(path, w.e.targets) || strings.HasPrefix(path, "vph")
		if !own && !initAllowed[path] {
			return nil
		}
		sp := w.e.prog.Package(p)
		if sp == nil {
			return nil
		}
		fn := sp.Func("init")
		if fn == nil {
			return nil
		}
		msg := w.tryInit(fn)
		if msg != "" && own {
			return fmt.Errorf("initialising %s: %s", path, msg)
		}
		if msg != "" && os.Getenv("VP_DEBUG") != "" && w.id == 0 {
			fmt.Fprintf(os.Stderr, "init %s: %s\n", path, msg)
		}
		return nil
	}
	for _, p := range w.e.pkgs {
		if err := visit(p.Types); err != nil {
			return err
		}
	}
	w.inited = true
	return nil
}

func (w *Worker) tryInit(fn *ssa.Function) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case engineError:
				msg = r.msg
			case *targetPanic:
				msg = "panic " + w.panicText(r)
			default:
				msg = fmt.Sprint(r)
			}
			w.cur.top = nil
		}
	}()
	w.callClosure(nil, w.e.closureOf(fn), nil)
	return ""
}

// ---- job pool ----

func (e *Engine) push(id int, j *Job) {
	e.mu.Lock()
	e.stacks[id] = append(e.stacks[id], j)
	e.njobs++
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop(id int) *Job {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopFlag.Load() {
			return nil
		}
		if st := e.stacks[id]; len(st) > 0 {
			j := st[len(st)-1]
			st[len(st)-1] = nil
			e.stacks[id] = st[:len(st)-1]
			e.njobs--
			e.active++
			return j
		}
		for k := 1; k < len(e.stacks); k++ {
			o := (id + k) % len(e.stacks)
			if st := e.stacks[o]; len(st) > 0 {
				j := st[0]
				e.stacks[o] = st[1:]
				e.njobs--
				e.active++
				// models are index vectors, valid in any worker
				return j
			}
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) done(id int, s *stopInfo) {
	e.mu.Lock()
	e.active--
	if s != nil {
		if e.rep.Stop == nil {
			e.rep.Stop = s
		}
		e.stopFlag.Store(true)
	}
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Engine) noteUnknown(m string) {
	e.mu.Lock()
	e.rep.Unknowns[m]++
	e.mu.Unlock()
}

func (e *Engine) noteEngineError(m string) {
	e.mu.Lock()
	e.rep.EngErrs[m]++
	if len(e.rep.EngErrs) > 50 {
		e.stopFlag.Store(true)
	}
	e.mu.Unlock()
}

func (e *Engine) noteAbstract(m string) {
	e.mu.Lock()
	if e.rep.Abstract == nil {
		e.rep.Abstract = map[string]int64{}
	}
	e.rep.Abstract[m]++
	e.mu.Unlock()
}

func (e *Engine) noteParam(n string, v int64) {
	e.mu.Lock()
	e.rep.Params[n] = v
	e.mu.Unlock()
}

func (e *Engine) noteKnown(id, msg string, vals []InputVal) {
	e.mu.Lock()
	if e.rep.Known[id] == nil {
		e.rep.Known[id] = &KnownHit{id, msg, vals}
	}
	e.mu.Unlock()
}

func (e *Engine) knownSeen(id string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.rep.Known[id] != nil
}

// maybeCross puts a sample of the discharged assertions to a second solver.
func (e *Engine) maybeCross(w *Worker, neg *Term) {
	n := atomic.AddInt64(&e.crossN, 1)
	lim := int64(4)
	if e.thorough {
		lim = 40
	}
	if n > lim && n&(n-1) != 0 {
		return
	}
	if n > 4096 {
		return
	}
	if !w.s.CrossCheck(w.pc, neg) {
		e.mu.Lock()
		e.rep.CrossBad++
		e.mu.Unlock()
	}
}

const maxSamples = 24

func (e *Engine) pathDone(w *Worker) {
	e.mu.Lock()
	for c := range w.covers {
		e.rep.Covers[c]++
	}
	n := e.nSample
	e.nSample++
	take := len(e.rep.Samples) < maxSamples && (n < 8 || n&(n-1) == 0 || n%97 == 0)
	e.mu.Unlock()
	if !take || w.unk {
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(pathEnd); !ok {
					panic(r)
				}
			}
		}()
		w.ensureModel()
		s := &Sample{Harness: e.hname, Tier: e.tier(), Vals: w.inputVals(w.model), Covers: sortedKeys(w.covers)}
		gen := w.b.NewEvalGen()
		ev := func(v Value, wd uint8) int64 {
			switch x := v.(type) {
			case *Term:
				u := w.b.Eval(x, w.model, gen)
				return int64(u)
			case uint64:
				return int64(x)
			case bool:
				if x {
					return 1
				}
			}
			return 0
		}
		for _, o := range w.obs {
			oo := ObsOut{L: o.label}
			if l, ok := o.v.([]Value); ok {
				for _, x := range l {
					oo.V = append(oo.V, ev(x, 8))
				}
			} else {
				oo.V = []int64{ev(o.v, 64)}
			}
			s.Obs = append(s.Obs, oo)
		}
		w.gen = w.b.NewEvalGen()
		e.mu.Lock()
		e.rep.Samples = append(e.rep.Samples, s)
		e.mu.Unlock()
	}()
}

func (e *Engine) tier() string {
	if e.thorough {
		return "thorough"
	}
	return "quick"
}

// run explores one harness.
func (e *Engine) run(fn *ssa.Function, nw int, budget time.Duration) (*HarnessReport, error) {
	t0 := time.Now()
	e.rep = &HarnessReport{Name: fn.Name(), Funcs: map[string]bool{}, Params: map[string]int64{}, Covers: map[string]int64{},
		Unknowns: map[string]int64{}, EngErrs: map[string]int64{}, Known: map[string]*KnownHit{}}
	e.hname = fn.Name()
	e.nSample = 0
	e.harness = e.closureOf(fn)
	e.stopFlag.Store(false)
	e.timedOut = false
	if e.workers == nil {
		e.workers = make([]*Worker, nw)
		var wg sync.WaitGroup
		errs := make([]error, nw)
		for i := range e.workers {
			e.workers[i] = e.newWorker(i)
		}
		// the first worker compiles everything the initialisers need
		errs[0] = e.workers[0].initPackages()
		for i := 1; i < nw; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				errs[i] = e.workers[i].initPackages()
			}(i)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return nil, err
			}
		}
	}
	e.stacks = make([][]*Job, nw)
	e.njobs, e.active = 0, 0
	e.push(0, &Job{})
	timer := time.AfterFunc(budget, func() {
		e.mu.Lock()
		e.timedOut = true
		e.mu.Unlock()
		e.stopFlag.Store(true)
		e.cond.Broadcast()
		for _, w := range e.workers {
			w.s.Kill()
		}
	})
	var before []SolverStats
	for _, w := range e.workers {
		w.st = PathStats{}
		w.fnUsed = map[*fnCode]bool{}
		before = append(before, w.s.st)
	}
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop()
		}(w)
	}
	wg.Wait()
	timer.Stop()
	r := e.rep
	for i, w := range e.workers {
		r.Stats.add(&w.st)
		r.Solver.addDiff(&w.s.st, &before[i])
		for c := range w.fnUsed {
			r.Funcs[c.fn.String()] = true
		}
	}
	r.Pending = e.njobs
	r.Complete = !e.timedOut && e.njobs == 0 && r.Stop == nil && len(r.EngErrs) == 0 && len(r.Unknowns) == 0
	r.Wall = time.Since(t0)
	return r, nil
}

func (p *PathStats) add(o *PathStats) {
	p.Paths += o.Paths
	p.Infeasible += o.Infeasible
	p.Decisions += o.Decisions
	p.Asserts += o.Asserts
	p.AssertSolver += o.AssertSolver
	p.Steps += o.Steps
	p.UnkBranches += o.UnkBranches
	if o.MaxPC > p.MaxPC {
		p.MaxPC = o.MaxPC
	}
}

func (s *SolverStats) addDiff(a, b *SolverStats) {
	s.Queries += a.Queries - b.Queries
	s.Sat += a.Sat - b.Sat
	s.Unsat += a.Unsat - b.Unsat
	s.Unknown += a.Unknown - b.Unknown
	s.Fallback += a.Fallback - b.Fallback
	s.CrossChecked += a.CrossChecked - b.CrossChecked
	s.CacheHits += a.CacheHits - b.CacheHits
	s.Time += a.Time - b.Time
	if a.MaxQuery > s.MaxQuery {
		s.MaxQuery = a.MaxQuery
	}
}

func harnessesFor(e *Engine, prefix string) []*ssa.Function {
	var out []*ssa.Function
	for _, p := range e.pkgs {
		sp := e.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) && f.Signature.Params().Len() == 0 {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
