package main

// Command vpengine decides the harnesses of one property by symbolic execution
// of the code under test.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type notes struct {
	Assumptions []string `json:"assumptions"`
	Outside     string   `json:"outside"`
}

type knownEnt struct{ prop, id, text string }

func readKnown(path string) (out []knownEnt) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 {
			continue
		}
		out = append(out, knownEnt{strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "id="), strings.Join(f[3:], " ")})
	}
	return
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "run only this harness")
	root := flag.String("root", "/verif", "framework directory")
	workers := flag.Int("workers", 8, "parallel workers")
	budget := flag.Duration("budget", 0, "time for exploring")
	prof := flag.String("prof", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(200)
	rc := check(*prop, *tier, *only, *root, *workers, *budget)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(rc)
}

func env() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

type replayer struct {
	bin  string
	err  error
	done chan struct{}
}

func startReplayBuild(root, out string, ov map[string][]byte, cmds, race bool) *replayer {
	r := &replayer{bin: out, done: make(chan struct{})}
	go func() {
		defer close(r.done)
		args := []string{"build", "-o", out}
		if ov != nil {
			f, err := writeOverlay(filepath.Dir(out), filepath.Base(out), ov)
			if err != nil {
				r.err = err
				return
			}
			args = append(args, "-overlay", f)
		}
		if cmds {
			args = append(args, "-tags", "cmds")
		}
		if race {
			args = append(args, "-race")
		}
		args = append(args, "vph/cmd/replay")
		c := exec.Command("go", args...)
		c.Dir = filepath.Join(root, "harness")
		c.Env = env()
		if race {
			c.Env = append(c.Env, "CGO_ENABLED=1")
		}
		b, err := c.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("building the native replay: %v\n%s", err, b)
		}
	}()
	return r
}

func (r *replayer) wait() error { <-r.done; return r.err }

func check(prop, tier, only, root string, nw int, budget time.Duration) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	if budget == 0 {
		budget = 240 * time.Second
		if thorough {
			budget = 3000 * time.Second
		}
	}
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	evFile := filepath.Join(evDir, prop+".json")
	os.Remove(evFile)
	tmp, err := os.MkdirTemp("", "vpengine")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	// ov is overlaid for both the symbolic and the native run, nov for the
	// native one
	var ov, nov map[string][]byte
	if needs(root, prop, cmdsMark) {
		ov, err = commandSources(root)
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
	}
	nov = ov
	if needs(root, prop, schedMark) {
		s, err := scheduledSources(root)
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		nov = map[string][]byte{}
		for _, m := range []map[string][]byte{ov, s} {
			for k, v := range m {
				nov[k] = v
			}
		}
	}
	e, err := loadEngine(filepath.Join(root, "harness"), ov, "vph/h")
	if err != nil {
		fmt.Println("ERROR: cannot load the code under test:", err)
		return 2
	}
	tLoad := time.Since(t0)
	e.thorough = thorough
	known := readKnown(filepath.Join(root, "known_findings.txt"))
	e.known = map[string]bool{}
	var ids []string
	for _, k := range known {
		e.known[k.id] = true
		ids = append(ids, k.id)
	}
	os.Setenv("VP_KNOWN", strings.Join(ids, ","))
	hs := harnessesFor(e, prop+"_")
	if only != "" {
		var f []*ssa.Function
		for _, h := range hs {
			if h.Name() == only || strings.Contains(h.Name(), only) {
				f = append(f, h)
			}
		}
		hs = f
	}
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for", prop)
		return 2
	}
	rp := startReplayBuild(root, filepath.Join(tmp, "replay"), nov, ov != nil, false)
	var raceBuild *replayer
	var reps []*HarnessReport
	var viol []string
	rc := 0
	var engineBad []string
	end := t0.Add(budget)
	for i, h := range hs {
		left := time.Until(end)
		share := left / time.Duration(len(hs)-i) * 2
		if share > left {
			share = left
		}
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		r, err := e.run(h, nw, share)
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		reps = append(reps, r)
		printReport(r)
		if r.Stop != nil {
			if strings.HasPrefix(r.Stop.msg, "data race") && raceBuild == nil {
				raceBuild = startReplayBuild(root, filepath.Join(tmp, "replay_race"), nov, ov != nil, true)
			}
			bin := rp
			if raceBuild != nil {
				bin = raceBuild
			}
			file, ok, out := e.confirm(root, tmp, evDir, prop, tier, r, bin)
			if ok {
				fmt.Printf("%s: %s\n", r.Name, r.Stop.msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
				viol = append(viol, r.Name+": "+r.Stop.msg)
				rc = 1
			} else {
				// The real code does not do what the model of it did, so there is
				// no violation to report; nor is there a verdict on what was left
				// of this harness.
				fmt.Printf("UNCONFIRMED %s: %s (%s)\n%s\n", r.Name, r.Stop.msg, file, out)
				r.Unconfirmed = r.Stop.msg
			}
			if rc == 1 {
				break
			}
		}
	}
	// vacuity
	decided := false
	for _, r := range reps {
		decided = decided || r.Stats.Asserts > 0
	}
	for i, r := range reps {
		if r.Stop != nil {
			continue
		}
		if r.Stats.Asserts == 0 && (r.Complete || !decided) {
			engineBad = append(engineBad, r.Name+": no assertion was reached")
		}
		if r.Complete {
			for _, c := range coverLabels(hs[i]) {
				if r.Covers[c] == 0 {
					engineBad = append(engineBad, r.Name+": situation never reached: "+c)
				}
			}
		}
		if r.CrossBad > 0 {
			engineBad = append(engineBad, fmt.Sprintf("%s: %d discharged queries disagreed with the second solver", r.Name, r.CrossBad))
		}
	}
	// native validation of the encoding
	var all []*Sample
	for _, r := range reps {
		all = append(all, r.Samples...)
	}
	validated := 0
	if len(all) > 0 {
		if err := rp.wait(); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		sf := filepath.Join(tmp, "samples.json")
		b, _ := json.Marshal(all)
		os.WriteFile(sf, b, 0o644)
		c := exec.Command(rp.bin, "-batch", sf)
		var so, se bytes.Buffer
		c.Stdout, c.Stderr = &so, &se
		err := runLimited(c, 120*time.Second)
		var res struct {
			Good   int            `json:"good"`
			Bad    []string       `json:"bad"`
			Broken map[int]string `json:"broken"`
		}
		if jerr := json.Unmarshal(so.Bytes(), &res); jerr != nil {
			engineBad = append(engineBad, fmt.Sprintf("native validation failed: %v %s", err, tail(se.String(), 2000)))
		}
		validated = res.Good
		// A sampled path on which the real code breaks the property.
		for i := range all {
			msg, ok := res.Broken[i]
			if !ok || rc == 1 {
				continue
			}
			if file, ok := e.confirmSample(evDir, prop, tier, all[i], msg, rp); ok {
				fmt.Printf("%s: %s\n", all[i].Harness, strings.SplitN(msg, "\n", 2)[0])
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
				viol = append(viol, all[i].Harness+": "+msg)
				rc = 1
			} else {
				engineBad = append(engineBad, all[i].Harness+": a sampled path fails natively, but not on its own: "+msg)
			}
		}
		if len(res.Bad) > 0 {
			engineBad = append(engineBad, fmt.Sprintf("%d sampled paths differ natively, e.g. %s", len(res.Bad), res.Bad[0]))
		}
	}
	// known findings
	hits := map[string]*KnownHit{}
	for _, r := range reps {
		for id, h := range r.Known {
			hits[id] = h
		}
	}
	for _, k := range known {
		if k.prop != prop {
			continue
		}
		if hits[k.id] != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, k.id, k.text)
		} else if rc == 0 {
			fmt.Printf("note: known finding %s was not observed\n", k.id)
		}
	}
	writeEvidence(root, evFile, prop, tier, reps, hs, validated, len(viol), time.Since(t0), tLoad, engineBad, all, hits)
	if rc == 1 {
		return 1
	}
	if len(engineBad) > 0 {
		for _, m := range engineBad {
			fmt.Println("CHECK-ERROR:", m)
		}
		return 2
	}
	st := "complete within bounds"
	for _, r := range reps {
		if !r.Complete {
			st = "REDUCED-BOUND"
		}
	}
	fmt.Printf("property %s holds on everything explored (%s, %.1fs)\n", prop, st, time.Since(t0).Seconds())
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runLimited(c *exec.Cmd, d time.Duration) error {
	if err := c.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(d, func() { c.Process.Kill() })
	defer t.Stop()
	return c.Wait()
}

func printReport(r *HarnessReport) {
	st := "complete"
	if !r.Complete {
		st = "INCOMPLETE"
	}
	if r.Stop != nil {
		st = "COUNTEREXAMPLE " + r.Stop.kind
	}
	fmt.Printf("%-28s %s paths=%d cut=%d asserts=%d/%d queries=%d (unsat %d sat %d unk %d) solver=%.1fs steps=%d wall=%.1fs\n",
		r.Name, st, r.Stats.Paths, r.Stats.Infeasible, r.Stats.AssertSolver, r.Stats.Asserts, r.Solver.Queries, r.Solver.Unsat, r.Solver.Sat, r.Solver.Unknown,
		r.Solver.Time.Seconds(), r.Stats.Steps, r.Wall.Seconds())
	for m, n := range r.EngErrs {
		fmt.Printf("  REDUCED-BOUND not encoded (%d paths): %s\n", n, m)
	}
	for m, n := range r.Unknowns {
		fmt.Printf("  REDUCED-BOUND undecided (%d): %s\n", n, m)
	}
	if r.Pending > 0 && r.Stop == nil {
		fmt.Printf("  REDUCED-BOUND out of time with %d open branches\n", r.Pending)
	}
}

// confirmSample replays a sampled path that failed natively.
func (e *Engine) confirmSample(evDir, prop, tier string, sm *Sample, msg string, rp *replayer) (string, bool) {
	file := filepath.Join(evDir, "replay", sm.Harness+".json")
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": prop, "harness": sm.Harness, "tier": tier, "vals": sm.Vals, "message": msg, "kind": "sampled path",
	}, "", " ")
	os.WriteFile(file, b, 0o644)
	c := exec.Command(rp.bin, file)
	err := runLimited(c, 60*time.Second)
	return file, err != nil && c.ProcessState != nil && c.ProcessState.ExitCode() == 3
}

// confirm replays a counterexample on the real build.
func (e *Engine) confirm(root, tmp, evDir, prop, tier string, r *HarnessReport, rp *replayer) (string, bool, string) {
	file := filepath.Join(evDir, "replay", r.Name+".json")
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": prop, "harness": r.Name, "tier": tier, "vals": r.Stop.vals, "message": r.Stop.msg, "kind": r.Stop.kind,
	}, "", " ")
	os.WriteFile(file, b, 0o644)
	bin := rp
	if err := bin.wait(); err != nil {
		return file, false, err.Error()
	}
	c := exec.Command(bin.bin, file)
	c.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=1")
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := runLimited(c, 60*time.Second)
	code := -1
	if c.ProcessState != nil {
		code = c.ProcessState.ExitCode()
	}
	o := tail(out.String(), 3000)
	if code == 3 || code == 2 && strings.Contains(o, "fatal error") || code == 66 {
		return file, true, o
	}
	return file, false, fmt.Sprintf("%v %s", err, o)
}

// coverLabels lists the constant labels of the vp.Cover calls a harness can
// reach inside its own package.
func coverLabels(h *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	lab := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || fnPkg(f) != "vph/h" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && g.String() == "vph/vp.Cover" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok && f == h {
							lab[strings.Trim(k.Value.ExactString(), `"`)] = true
						}
					}
				}
			}
		}
	}
	visit(h)
	return sortedKeys(lab)
}

func writeEvidence(root, file, prop, tier string, reps []*HarnessReport, hs []*ssa.Function, validated, viol int, wall, load time.Duration, bad []string, all []*Sample, hits map[string]*KnownHit) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var st PathStats
	var so SolverStats
	funcs := map[string]bool{}
	var hl []map[string]interface{}
	complete := true
	for _, r := range reps {
		st.add(&r.Stats)
		so.addDiff(&r.Solver, &SolverStats{})
		for f := range r.Funcs {
			funcs[f] = true
		}
		complete = complete && r.Complete
		h := map[string]interface{}{
			"harness": r.Name, "bounds": r.Params, "paths": r.Stats.Paths, "paths_cut_by_assumptions": r.Stats.Infeasible,
			"assertions_checked": r.Stats.Asserts, "assertions_discharged_by_solver": r.Stats.AssertSolver,
			"queries": r.Solver.Queries, "queries_unsat": r.Solver.Unsat, "queries_sat": r.Solver.Sat, "queries_unknown": r.Solver.Unknown,
			"solver_s": round(r.Solver.Time.Seconds()), "max_query_s": round(r.Solver.MaxQuery.Seconds()), "wall_s": round(r.Wall.Seconds()), "covers": r.Covers, "complete_within_bounds": r.Complete,
		}
		if r.Abstract != nil {
			h["over_approximations"] = r.Abstract
		}
		if !r.Complete {
			h["reduced_bound"] = map[string]interface{}{"open_branches": r.Pending, "undecided": r.Unknowns, "not_encoded": r.EngErrs}
		}
		if r.Unconfirmed != "" {
			h["unconfirmed_counterexample"] = r.Unconfirmed
		} else if r.Stop != nil {
			h["counterexample"] = r.Stop.msg
		}
		hl = append(hl, h)
	}
	var samples []interface{}
	for i, s := range all {
		if i%(1+len(all)/6) == 0 {
			samples = append(samples, s)
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	var kf []string
	for id, h := range hits {
		kf = append(kf, id+": "+h.Msg)
	}
	sort.Strings(kf)
	var nt map[string]notes
	if b, err := os.ReadFile(filepath.Join(root, "harness", "notes.json")); err == nil {
		json.Unmarshal(b, &nt)
	}
	as := append([]string{}, nt["*"].Assumptions...)
	as = append(as, nt[prop].Assumptions...)
	cov := map[string]interface{}{
		"states":                        st.Paths,
		"transitions":                   st.Decisions,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    complete,
		"what":                          "states = symbolic paths explored to the end, each covering every input that satisfies its path condition; transitions = symbolic branch, concretisation, input-family and scheduling decisions",
		"functions_encoded":             sortedKeys(funcs),
		"harnesses":                     hl,
		"queries":                       so.Queries, "queries_unsat": so.Unsat, "queries_sat": so.Sat, "queries_unknown": so.Unknown,
		"queries_cross_checked_cvc5": so.CrossChecked,
		"solver_s":                   round(so.Time.Seconds()),
		"instructions_executed":      st.Steps,
		"outside_the_claim":          nt[prop].Outside,
		"load_s":                     round(load.Seconds()),
		"known_findings_observed":    kf,
		"check_errors":               bad,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": as, "wall_s": round(wall.Seconds()), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(file, append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }

// needs tells whether a property has harnesses in files that begin with a mark:
// those that run commands, or those that explore schedules.
func needs(root, prop, mark string) bool {
	fs, _ := filepath.Glob(filepath.Join(root, "harness", "h", "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if bytes.HasPrefix(b, []byte(mark)) && bytes.Contains(b, []byte("\nfunc "+prop+"_")) {
			return true
		}
	}
	return false
}

const (
	repoDir   = "/repo"
	cmdsMark  = "//go:build cmds"
	schedMark = "// Schedules."
)

// commandSources is the current source of the commands, each as an ordinary
// package of the harness module (harness/cmds) that imports the stand-ins
// (harness/shim) for the packages by which a command meets the world.
func commandSources(root string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	dirs, err := filepath.Glob(filepath.Join(root, "harness", "cmds", "*"))
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		name := filepath.Base(d)
		fs, _ := filepath.Glob(filepath.Join(repoDir, "cmd", name, "*.go"))
		n := 0
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, _, err := standIns(f, filepath.Join(root, "harness", "shim"), "vph/shim/", name)
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(d, "repo_"+filepath.Base(f))] = src
			n++
		}
		if n == 0 {
			return nil, fmt.Errorf("no source of the command %s", name)
		}
	}
	return ov, nil
}

// scheduledSources is the current source of the packages with stand-ins
// (harness/sshim) for the primitives that schedule, for the native replay.
func scheduledSources(root string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.WalkDir(repoDir, func(f string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() && (d.Name() == "cmd" || d.Name() == "internal" && filepath.Dir(f) == repoDir || strings.HasPrefix(d.Name(), ".")) {
			return filepath.SkipDir
		}
		if d.IsDir() || !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go") {
			return nil
		}
		src, changed, err := standIns(f, filepath.Join(root, "harness", "sshim"), "vph/sshim/", "")
		if err == nil && changed {
			ov[f] = src
		}
		return err
	})
	fs, _ := filepath.Glob(filepath.Join(root, "harness", "h", "*.go"))
	for _, f := range fs {
		src, changed, e := standIns(f, filepath.Join(root, "harness", "sshim"), "vph/sshim/", "")
		if e != nil {
			return nil, e
		}
		if changed && bytes.HasPrefix(src, []byte(schedMark)) {
			ov[f] = src
		}
	}
	return ov, err
}

// standIns is the source of a file with imports that have a stand-in in dir
// redirected to it, for the names that it has.
func standIns(f, dir, prefix, name string) (out []byte, changed bool, err error) {
	src, err := os.ReadFile(f)
	if err != nil {
		return nil, false, err
	}
	fset := token.NewFileSet()
	pf, err := parser.ParseFile(fset, f, src, 0)
	if err != nil {
		return nil, false, err
	}
	type edit struct {
		at, end int
		s       string
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	if name != "" {
		es = append(es, edit{off(pf.Name.Pos()), off(pf.Name.End()), name})
	}
	for _, im := range pf.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		have := shimNames(filepath.Join(dir, p))
		if have == nil || p == "env" {
			continue
		}
		q := filepath.Base(p)
		if im.Name != nil {
			q = im.Name.Name
		}
		// what the stand-in does not have is the package's own
		real, stood := false, false
		var re []edit
		ast.Inspect(pf, func(n ast.Node) bool {
			if x, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := x.X.(*ast.Ident); ok && id.Name == q && id.Obj == nil {
					if have[x.Sel.Name] {
						stood = true
					} else {
						real = true
						re = append(re, edit{off(id.Pos()), off(id.End()), q + "_real"})
					}
				}
			}
			return true
		})
		if !stood {
			continue
		}
		es = append(es, re...)
		imp := q + " " + strconv.Quote(prefix+p)
		if real {
			sep := "; "
			for _, dd := range pf.Decls {
				if g, ok := dd.(*ast.GenDecl); ok && g.Pos() <= im.Pos() && im.End() <= g.End() && !g.Lparen.IsValid() {
					sep = "; import "
				}
			}
			imp += sep + q + "_real " + strconv.Quote(p)
		}
		es = append(es, edit{off(im.Pos()), off(im.Path.End()), imp})
		changed = true
	}
	sort.Slice(es, func(i, j int) bool { return es[i].at < es[j].at })
	for i := len(es) - 1; i >= 0; i-- {
		src = append(append(append([]byte(nil), src[:es[i].at]...), es[i].s...), src[es[i].end:]...)
	}
	return src, changed, nil
}

// shimNames are the exported names of a stand-in; nil when there is none.
func shimNames(dir string) map[string]bool {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var m map[string]bool
	for _, f := range fs {
		pf, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		if m == nil {
			m = map[string]bool{}
		}
		for _, d := range pf.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						m[sp.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range sp.Names {
							m[n.Name] = true
						}
					}
				}
			}
		}
	}
	return m
}

// writeOverlay writes an overlay for the go command.
func writeOverlay(tmp, sub string, ov map[string][]byte) (string, error) {
	rep := map[string]string{}
	i := 0
	for f, b := range ov {
		t := filepath.Join(tmp, fmt.Sprintf("%s_%d.go", sub, i))
		i++
		if err := os.WriteFile(t, b, 0o644); err != nil {
			return "", err
		}
		rep[f] = t
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	f := filepath.Join(tmp, sub+".json")
	return f, os.WriteFile(f, j, 0o644)
}
