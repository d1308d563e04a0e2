package main

// SMT-LIB2 emission and a persistent incremental solver process.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Fallback, CrossChecked, CacheHits int64
	Time                                                            time.Duration
	MaxQuery                                                        time.Duration
}

type Solver struct {
	b        *Builder
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	out      *bufio.Reader
	stack    []*Term
	emitted  []*Term
	declared []*Term // variables known to the process
	useFP    bool
	sawFP    bool
	timeout  int // ms per query
	st       SolverStats
	log      io.Writer
	stopped  func() bool
	mu       sync.Mutex
	killed   bool
}

func NewSolver(b *Builder) *Solver {
	s := &Solver{b: b, timeout: 10000}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command("z3-new", "-in", "-memory:3000")
	s.mu.Lock()
	s.cmd = cmd
	s.killed = false
	s.mu.Unlock()
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(engineError{"cannot start solver z3-new: " + err.Error()})
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.w, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
	if s.useFP {
		fmt.Fprintln(s.w, "(set-logic QF_BVFP)")
	} else {
		fmt.Fprintln(s.w, "(set-logic QF_BV)")
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.mu.Lock()
		s.cmd = nil
		s.mu.Unlock()
	}
}

// Kill ends the solver process from another goroutine; the query under way
// then comes back undecided.
func (s *Solver) Kill() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.killed = true
	}
}

func (s *Solver) restart() {
	s.Close()
	for _, t := range s.emitted {
		t.emitted = false
	}
	s.emitted = s.emitted[:0]
	s.declared = s.declared[:0]
	s.stack = s.stack[:0]
	s.start()
}

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	if t.fp {
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		if t.fp {
			return "((_ to_fp 11 53) (_ bv" + strconv.FormatUint(t.k, 10) + " 64))"
		}
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBNot: "bvnot", ONeg: "bvneg", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
	OSToF: "(_ to_fp 11 53) RNE", OUToF: "(_ to_fp_unsigned 11 53) RNE",
	OFToS: "(_ fp.to_sbv 64) RTZ", OFToU: "(_ fp.to_ubv 64) RTZ",
}

func body(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, ref(t.a))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	}
	n, ok := opName[t.op]
	if !ok {
		panic(fmt.Sprintf("no smt op %d", t.op))
	}
	if t.op == OEq && t.a.fp {
		n = "fp.eq"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(n)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x == nil {
			break
		}
		sb.WriteByte(' ')
		sb.WriteString(ref(x))
	}
	sb.WriteByte(')')
	return sb.String()
}

// postorder visits unvisited (per skip) non-constant sub-terms, children first.
func postorder(root *Term, skip func(*Term) bool, visit func(*Term)) {
	type fr struct {
		t *Term
		i int
	}
	if root.op == OConst || skip(root) {
		return
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		var ch *Term
		switch f.i {
		case 0:
			ch = f.t.a
		case 1:
			ch = f.t.b
		case 2:
			ch = f.t.c
		default:
			t := f.t
			st = st[:len(st)-1]
			if !skip(t) {
				visit(t)
			}
			continue
		}
		f.i++
		if ch != nil && ch.op != OConst && !skip(ch) {
			st = append(st, fr{ch, 0})
		}
	}
}

func hasFP(root *Term) bool {
	seen := map[*Term]bool{}
	found := false
	postorder(root, func(t *Term) bool { return seen[t] }, func(t *Term) {
		seen[t] = true
		if t.fp || (t.op >= OFAdd && t.op <= OFToU) {
			found = true
		}
	})
	return found
}

func (s *Solver) emit(t *Term) {
	postorder(t, func(x *Term) bool { return x.emitted }, func(x *Term) {
		x.emitted = true
		s.emitted = append(s.emitted, x)
		if x.op == OVar {
			s.declared = append(s.declared, x)
			fmt.Fprintf(s.w, "(declare-const v%d %s)\n", x.id, sortOf(x))
			return
		}
		if x.fp || (x.op >= OFAdd && x.op <= OFToU) {
			s.sawFP = true
		}
		fmt.Fprintf(s.w, "(define-fun t%d () %s %s)\n", x.id, sortOf(x), body(x))
	})
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(s.w, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.emit(t)
		fmt.Fprintf(s.w, "(push 1)\n(assert %s)\n", ref(t))
		s.stack = append(s.stack, t)
	}
}

// readUntil reads solver output up to the echo marker.
func (s *Solver) readUntil() (string, error) {
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		if strings.HasPrefix(l, "@@") {
			return sb.String(), nil
		}
		sb.WriteString(l)
	}
}

// Check decides pc /\ extra.  With wantModel a satisfying assignment over all
// declared variables is returned for Sat.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Result, *Model) {
	t0 := time.Now()
	if len(s.emitted) > 400000 {
		s.restart()
	}
	s.st.Queries++
	wd := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+2*time.Second, s.Kill)
	r, m := s.check1(pc, extra, wantModel)
	wd.Stop()
	if r == Unknown && s.stopped != nil && s.stopped() {
		panic(pathEnd{"stopped"})
	}
	if r == Unknown {
		s.st.Fallback++
		r, m = s.fallback(pc, extra)
	}
	d := time.Since(t0)
	s.st.Time += d
	if d > 5*time.Second && slowDir != "" {
		text, _ := script(pc, extra, false)
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", slowDir, time.Now().UnixNano()), []byte(text), 0o644)
	}
	if d > s.st.MaxQuery {
		s.st.MaxQuery = d
	}
	switch r {
	case Sat:
		s.st.Sat++
	case Unsat:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	return r, m
}

// slowDir receives the queries that take long (debugging).
var slowDir = os.Getenv("VP_SLOW")

func (s *Solver) check1(pc []*Term, extra *Term, wantModel bool) (Result, *Model) {
	if s.sawFP && !s.useFP {
		s.useFP = true
		s.restart()
	}
	s.mu.Lock()
	dead := s.cmd == nil || s.killed
	s.mu.Unlock()
	if dead {
		s.restart()
	}
	s.sync(pc)
	if extra != nil {
		s.emit(extra)
	}
	if s.sawFP && !s.useFP {
		s.useFP = true
		s.restart()
		s.sync(pc)
		if extra != nil {
			s.emit(extra)
		}
	}
	if extra != nil {
		fmt.Fprintf(s.w, "(push 1)\n(assert %s)\n", ref(extra))
	}
	fmt.Fprint(s.w, "(check-sat)\n(echo \"@@\")\n")
	s.w.Flush()
	o, err := s.readUntil()
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	o = strings.TrimSpace(o)
	res := Unknown
	var m *Model
	switch o {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		if strings.Contains(o, "(error") {
			panic(engineError{"solver error: " + o})
		}
	}
	if res == Sat && wantModel {
		m = &Model{v: map[*Term]uint64{}}
		if len(s.declared) > 0 {
			fmt.Fprint(s.w, "(get-value (")
			for _, v := range s.declared {
				fmt.Fprintf(s.w, "v%d ", v.id)
			}
			fmt.Fprint(s.w, "))\n(echo \"@@\")\n")
			s.w.Flush()
			o, err := s.readUntil()
			if err != nil || strings.Contains(o, "(error") {
				panic(engineError{"solver model error: " + o})
			}
			parseModel(o, s.declared, m)
		}
	}
	if extra != nil {
		fmt.Fprint(s.w, "(pop 1)\n")
	}
	return res, m
}

func parseModel(o string, vars []*Term, m *Model) {
	byID := make(map[string]*Term, len(vars))
	for _, v := range vars {
		byID["v"+strconv.Itoa(int(v.id))] = v
	}
	// tokens: ( ( v1 #x00 ) ( v2 true ) ... ) or (_ bv5 8)
	o = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(o)
	f := strings.Fields(o)
	for i := 0; i < len(f); i++ {
		v, ok := byID[f[i]]
		if !ok || i+1 >= len(f) {
			continue
		}
		i++
		tok := f[i]
		switch {
		case tok == "true":
			m.v[v] = 1
		case tok == "false":
			m.v[v] = 0
		case strings.HasPrefix(tok, "#x"):
			n, _ := strconv.ParseUint(tok[2:], 16, 64)
			m.v[v] = n
		case strings.HasPrefix(tok, "#b"):
			n, _ := strconv.ParseUint(tok[2:], 2, 64)
			m.v[v] = n
		case tok == "(" && i+2 < len(f) && f[i+1] == "_" && strings.HasPrefix(f[i+2], "bv"):
			n, _ := strconv.ParseUint(f[i+2][2:], 10, 64)
			m.v[v] = n
		default:
			panic(engineError{"cannot parse solver value " + tok})
		}
	}
}

// script renders a stand-alone query.
func script(pc []*Term, extra *Term, model bool) (string, []*Term) {
	var sb bytes.Buffer
	all := pc
	if extra != nil {
		all = append(append([]*Term(nil), pc...), extra)
	}
	fp := false
	for _, t := range all {
		if hasFP(t) {
			fp = true
		}
	}
	if fp {
		sb.WriteString("(set-logic QF_BVFP)\n")
	} else {
		sb.WriteString("(set-logic QF_BV)\n")
	}
	var vars []*Term
	seen := map[*Term]bool{}
	for _, t := range all {
		postorder(t, func(x *Term) bool { return seen[x] }, func(x *Term) {
			seen[x] = true
			if x.op == OVar {
				vars = append(vars, x)
				fmt.Fprintf(&sb, "(declare-const v%d %s)\n", x.id, sortOf(x))
				return
			}
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", x.id, sortOf(x), body(x))
		})
		fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	}
	sb.WriteString("(check-sat)\n")
	if model && len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&sb, "v%d ", v.id)
		}
		sb.WriteString("))\n")
	}
	return sb.String(), vars
}

func oneShot(text string, limit time.Duration, kill chan struct{}, stopped func() bool, argv ...string) (Result, string) {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return Unknown, ""
	}
	done := make(chan struct{})
	go func() {
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		end := time.After(limit)
		for {
			select {
			case <-done:
				return
			case <-kill:
				cmd.Process.Kill()
				return
			case <-end:
				cmd.Process.Kill()
				return
			case <-tick.C:
				if stopped != nil && stopped() {
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	cmd.Wait()
	close(done)
	o := out.String()
	switch {
	case strings.HasPrefix(o, "unsat"):
		return Unsat, o
	case strings.HasPrefix(o, "sat"):
		return Sat, o
	}
	return Unknown, o
}

var fallbackLimit = 40 * time.Second

func (s *Solver) fallback(pc []*Term, extra *Term) (Result, *Model) {
	text, vars := script(pc, extra, true)
	type ans struct {
		r Result
		o string
	}
	solvers := [][]string{
		{"cvc5", "--lang=smt2", "--produce-models"},
		{"z3-new", "-in", "-memory:3000"},
		{"z3", "-in", "-memory:3000"},
	}
	ch := make(chan ans, len(solvers))
	kill := make(chan struct{})
	defer close(kill)
	for _, a := range solvers {
		a := a
		go func() {
			r, o := oneShot("(set-option :produce-models true)\n"+text, fallbackLimit, kill, s.stopped, a...)
			ch <- ans{r, o}
		}()
	}
	for range solvers {
		a := <-ch
		if a.r == Unsat {
			return Unsat, nil
		}
		if a.r == Sat {
			m := &Model{v: map[*Term]uint64{}}
			parseModel(a.o[3:], vars, m)
			return Sat, m
		}
	}
	return Unknown, nil
}

// CrossCheck asks a second solver (cvc5) about a query z3 found unsat.
// It returns false only on a definite disagreement.
func (s *Solver) CrossCheck(pc []*Term, extra *Term) bool {
	text, _ := script(pc, extra, false)
	r, _ := oneShot(text, 20*time.Second, nil, s.stopped, "cvc5", "--lang=smt2")
	if r == Unknown {
		return true
	}
	s.st.CrossChecked++
	return r == Unsat
}

type engineError struct{ msg string }

func (e engineError) Error() string { return e.msg }
