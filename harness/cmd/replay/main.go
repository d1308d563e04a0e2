// Command replay runs harnesses natively on recorded values.
//
//	replay FILE        one replay file (a JSON object); exit 3 if the violation
//	                   reproduces, 0 if the run is clean, 4 otherwise
//	replay -batch FILE validates a list of samples; prints a JSON summary
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"slices"
	"sort"
	"time"

	"vph/h"
	"vph/vp"
)

type sample struct {
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Vals    []vp.Val `json:"vals"`
	Obs     []vp.Obs `json:"obs"`
	Covers  []string `json:"covers"`
}

func run(s *sample) (kind, msg string) {
	f := h.Registry[s.Harness]
	if f == nil {
		return "error", "no harness " + s.Harness
	}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case vp.Failure:
				kind, msg = "violation", r.Msg
			case vp.Assumed:
				kind, msg = "assumed", "an assumption does not hold"
			case vp.Diverged:
				kind, msg = "diverged", r.Msg
			default:
				kind, msg = "violation", fmt.Sprintf("uncaught panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	vp.Load(s.Vals, s.Tier)
	f()
	return "ok", ""
}

// batch runs a sample and compares what it observes with the encoding.
func batch(s *sample) (kind, msg string) {
	k, m := run(s)
	if k != "ok" {
		return k, m
	}
	obs, cov := vp.Result()
	var cs []string
	for c := range cov {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	same := slices.Equal(cs, s.Covers) && slices.EqualFunc(obs, s.Obs, func(a, b vp.Obs) bool {
		return a.L == b.L && slices.Equal(a.V, b.V)
	})
	if !same {
		return "differs", fmt.Sprintf("native run %v (covers %v), encoding %v (covers %v)", obs, cs, s.Obs, s.Covers)
	}
	return "ok", ""
}

// alone runs a sample in a process of its own.
func alone(s *sample, k, m string) (kind, msg string) {
	f, err := os.CreateTemp("", "vpsample")
	if err != nil {
		return k, m
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode([]*sample{s})
	f.Close()
	out, err := exec.Command(os.Args[0], "-batch", f.Name()).Output()
	var res struct {
		Good   int            `json:"good"`
		Bad    []string       `json:"bad"`
		Broken map[int]string `json:"broken"`
	}
	if err != nil || json.Unmarshal(out, &res) != nil {
		return k, m
	}
	if b, ok := res.Broken[0]; ok {
		return "violation", b
	}
	if res.Good == 1 {
		return "ok", ""
	}
	return k, m
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) > 2 && os.Args[1] == "-batch" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			panic(err)
		}
		var ss []*sample
		if err := json.Unmarshal(b, &ss); err != nil {
			panic(err)
		}
		good := 0
		var bad []string
		broken := map[int]string{}
		for i, s := range ss {
			k, m := batch(s)
			if k != "ok" && len(ss) > 1 {
				// without what the samples before it left in package variables
				k, m = alone(s, k, m)
			}
			switch k {
			case "ok":
				good++
			case "violation":
				broken[i] = m
			default:
				bad = append(bad, fmt.Sprintf("%s: %s: %s", s.Harness, k, m))
			}
		}
		json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"good": good, "bad": bad, "broken": broken})
		return
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var s sample
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	go func() {
		time.Sleep(20 * time.Second)
		fmt.Println("violation: the run does not finish (20 s)")
		os.Exit(3)
	}()
	k, m := run(&s)
	fmt.Printf("%s: %s\n", k, m)
	switch k {
	case "violation":
		os.Exit(3)
	case "ok":
		os.Exit(0)
	}
	os.Exit(4)
}
