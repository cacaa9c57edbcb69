package main

// The check of one property: explore, replay, compare, report.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type knownFinding struct{ prop, id, text string }

func readKnown(path string) (r []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f, ok := strings.CutPrefix(strings.TrimSpace(l), "known: ")
		if !ok {
			continue
		}
		var k knownFinding
		for _, w := range strings.Fields(f) {
			if v, ok := strings.CutPrefix(w, "property="); ok && k.prop == "" {
				k.prop = v
			} else if v, ok := strings.CutPrefix(w, "id="); ok && k.id == "" {
				k.id = v
			}
		}
		if i := strings.Index(f, "id="+k.id); i >= 0 {
			k.text = strings.TrimSpace(f[i+3+len(k.id):])
		}
		r = append(r, k)
	}
	return r
}

// packagesOf finds the harness packages that hold harnesses of a property.
func packagesOf(dir, prop string) ([]string, error) {
	ds, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	re := regexp.MustCompile(`(?m)^func ` + prop + `_`)
	var r []string
	for _, d := range ds {
		if !d.IsDir() {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(dir, d.Name(), "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			if re.Match(b) {
				r = append(r, "./"+d.Name())
				break
			}
		}
	}
	if len(r) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	return r, nil
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	root := fs.String("root", "/verif", "root of the framework")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	workers := fs.Int("j", 8, "workers")
	budget := fs.Duration("budget", 0, "exploration budget")
	match := fs.String("run", "", "regexp restricting the harnesses (development)")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *budget == 0 {
		*budget = 420 * time.Second
		if *tier == "thorough" {
			*budget = 660 * time.Second
		}
	}
	seed := envInt("VERIF_SEED", 1)
	t0 := time.Now()
	dir := filepath.Join(*root, "harness")
	pk, err := packagesOf(dir, *prop)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	sh, err := Load(dir, pk)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	re := regexp.MustCompile(*match)
	var hs []*Harness
	race := false
	for _, h := range sh.harnesses {
		if h.Prop == *prop && (*tier == "thorough" || !h.Opt.thorough) && re.MatchString(h.Name) {
			hs = append(hs, h)
			race = race || h.Opt.race
		}
	}
	if len(hs) == 0 {
		fmt.Println("ERROR no harness for", *prop)
		return 2
	}
	nat, err := startNative(dir, hs, race)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer nat.Close()
	r := &Run{sh: sh, notes: map[string]int{}, covered: map[*ssa.Function]bool{}, thorough: *tier == "thorough", maxViol: 4, seed: seed}
	tload := time.Since(t0)
	r.Explore(hs, *workers, time.Now().Add(*budget))
	texp := time.Since(t0) - tload
	name := *prop
	if *match != "" {
		name += ".part" // not all of the property
	}
	return report(r, hs, nat, *prop, name, *tier, *root, seed, t0, tload, texp)
}

func report(r *Run, hs []*Harness, nat *native, prop, name, tier, root string, seed int64, t0 time.Time, tload, texp time.Duration) int {
	thorough := tier == "thorough"
	known := map[string]knownFinding{}
	for _, k := range readKnown(filepath.Join(root, "known_findings.txt")) {
		if k.prop == prop {
			known[k.id] = k
		}
	}
	byName := map[string]*Harness{}
	var paths, infeasible, stopped, asserts, solved, trivial, unsupported, stepLimit, inconclusive, pending int
	var steps, branches, forced int64
	var lines []string
	for _, h := range hs {
		byName[h.Name] = h
		st := h.state
		paths += st.Paths
		infeasible += st.Infeasible
		stopped += st.Stopped
		asserts += st.Asserts
		solved += st.Discharged
		trivial += st.Trivial
		steps += st.Steps
		branches += st.Branches
		forced += st.Forced
		pending += st.Pending
		for _, n := range st.Unsupported {
			unsupported += n
		}
		for _, n := range st.StepLimit {
			stepLimit += n
		}
		for _, n := range st.Inconcl {
			inconclusive += n
		}
		fmt.Println(r.summary(h))
	}
	for _, n := range sortedKeys(r.notes) {
		fmt.Println("note:", n)
	}

	// 1. candidate counterexamples: only those the real code reproduces count
	type cand struct {
		v *Violation
		h *Harness
	}
	var cs []cand
	var in []nativeIn
	for _, h := range hs {
		for _, v := range h.state.Viol {
			cs = append(cs, cand{v, h})
			rep := h.Opt.replays
			if v.Sched && rep < 400 {
				rep = 400
			}
			in = append(in, nativeIn{v.Harness, v.Inputs, thorough, rep})
		}
	}
	var outs []nativeOut
	for _, c := range in {
		o, err := nat.run([]nativeIn{c}, 20*time.Second, false)
		if err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
		if !broken(o[0], false) && byName[c.Harness].Opt.race {
			o2, err := nat.run([]nativeIn{c}, 60*time.Second, true)
			if err == nil {
				o = o2
			}
		}
		outs = append(outs, o[0])
	}
	replayDir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(replayDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	violations, unreproduced := 0, 0
	knownSeen := map[string]string{}
	var vlines []string
	addViolation := func(h, msg string, inputs []string, o nativeOut, how string) {
		violations++
		f := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, violations))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "harness": h, "assertion": msg, "inputs": inputs, "native": o, "found": how, "thorough": thorough}, "", " ")
		os.WriteFile(f, b, 0o644)
		if violations <= 8 {
			vlines = append(vlines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f), fmt.Sprintf("  %s: %s", h, msg), "  inputs: "+strings.Join(inputs, " "), "  real code: "+describe(o))
		}
	}
	for i, c := range cs {
		o := outs[i]
		if !broken(o, true) {
			unreproduced++
			lines = append(lines, fmt.Sprintf("not reproduced by the real code (dropped): %s: %s inputs: %s native: %s", c.h.Name, c.v.Msg, strings.Join(c.v.Inputs, " "), describe(o)))
			continue
		}
		id := c.v.Known
		if o.Known != "" {
			id = o.Known
		}
		if k, ok := known[id]; ok && id != "" {
			knownSeen[id] = k.text
			continue
		}
		addViolation(c.h.Name, c.v.Msg, c.v.Inputs, o, "solver model of the violated assertion")
	}

	// 2. sampled paths: the real code must produce the observations the executor predicts
	var sin []nativeIn
	var ss []*Sample
	for _, h := range hs {
		for _, s := range h.state.Samples {
			sin = append(sin, nativeIn{s.Harness, s.Inputs, thorough, 1})
			ss = append(ss, s)
		}
	}
	validated, disagree := 0, 0
	souts, err := nat.run(sin, 20*time.Second, false)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var samples []interface{}
	for i, s := range ss {
		o := souts[i]
		if s.Partial {
			// a path the executor could not follow to its end: the real run of its inputs still has to hold
			if broken(o, true) && (o.Known == "" || known[o.Known].id == "") {
				addViolation(s.Harness, "fails on inputs of a path the executor could not finish", s.Inputs, o, "native run of the model of an unfinished path")
			}
			continue
		}
		if s.Sched {
			continue
		}
		if broken(o, true) {
			if k, ok := known[o.Known]; ok && o.Known != "" {
				knownSeen[o.Known] = k.text
				continue
			}
			addViolation(s.Harness, "fails on a path the executor considers to hold", s.Inputs, o, "native run of a sampled path")
			continue
		}
		if len(o.Obs) == len(s.Obs) && o.Done && eqObs(o.Obs, s.Obs) {
			validated++
			if len(samples) < 6 {
				samples = append(samples, map[string]interface{}{"harness": s.Harness, "inputs": s.Inputs, "observed": s.Obs})
			}
		} else {
			disagree++
			lines = append(lines, fmt.Sprintf("executor and real code disagree: %s inputs: %s predicted %v real %v (%s)", s.Harness, strings.Join(s.Inputs, " "), s.Obs, o.Obs, describe(o)))
		}
	}
	for i, l := range lines {
		if i < 20 {
			fmt.Println(l)
		}
	}
	var fns []string
	for f := range r.covered {
		p := f.Pkg
		if p == nil && f.Origin() != nil {
			p = f.Origin().Pkg
		}
		if p != nil && strings.HasPrefix(p.Pkg.Path(), microModule) && f.Name() != "init" {
			fns = append(fns, strings.ReplaceAll(f.String(), microModule+"/", ""))
		}
	}
	sort.Strings(fns)
	if len(fns) > 400 {
		fns = append(fns[:400], fmt.Sprintf("... and %d more", len(fns)-400))
	}
	var bounds, harnesses []string
	var reached = map[string]int{}
	exhaustive := unsupported+stepLimit+inconclusive+pending == 0 && unreproduced == 0
	var vacuous []string
	for _, h := range hs {
		bounds = append(bounds, h.Name+": "+strings.TrimSpace(h.Doc))
		harnesses = append(harnesses, fmt.Sprintf("%s paths=%d asserts=%d", h.Name, h.state.Paths, h.state.Asserts))
		for l, n := range h.state.Reached {
			reached[h.Name+":"+l] = n
		}
		if h.state.Paths+h.state.Stopped == 0 || h.state.Asserts == 0 {
			vacuous = append(vacuous, h.Name)
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions decided (%d by a solver query, %d by simplification or earlier facts), %d queries (%d sat, %d unsat, %d unknown) solver %.1fs; unsupported %d step-limit %d inconclusive %d pending %d; samples validated %d, disagreeing %d; wall %.1fs\n",
		prop, tier, len(hs), paths, asserts, solved, trivial, r.stats.Queries, r.stats.SatN, r.stats.UnsatN, r.stats.UnknownN, float64(r.stats.Nanos)/1e9, unsupported, stepLimit, inconclusive, pending, validated, disagree, time.Since(t0).Seconds())
	for _, v := range vacuous {
		fmt.Println("VACUOUS harness:", v)
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"coverage": map[string]interface{}{
			"states": paths + stopped, "transitions": branches + forced, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":            "states = symbolic paths explored to their end (each stands for all inputs satisfying its path condition); transitions = path decisions (branches both of whose sides are feasible, plus those the solver forced); traces_validated = sampled paths whose predicted observations equal those of the real compiled code",
			"exhaustive":             exhaustive,
			"assertions_decided":     asserts,
			"assertions_by_solver":   solved,
			"assertions_by_facts":    trivial,
			"infeasible_paths":       infeasible,
			"instructions_executed":  steps,
			"solver_queries":         r.stats.Queries,
			"solver_sat":             r.stats.SatN,
			"solver_unsat":           r.stats.UnsatN,
			"solver_unknown":         r.stats.UnknownN,
			"solver_fallbacks":       r.stats.Fallbacks,
			"solver_seconds":         float64(r.stats.Nanos) / 1e9,
			"models_rejected":        r.badModels.Load(),
			"load_seconds":           tload.Seconds(),
			"exploration_seconds":    texp.Seconds(),
			"unsupported_paths":      unsupported,
			"step_limited_paths":     stepLimit,
			"inconclusive_asserts":   inconclusive,
			"pending_paths":          pending,
			"candidates_dropped":     unreproduced,
			"trace_disagreements":    disagree,
			"bounds":                 bounds,
			"harnesses":              harnesses,
			"labels_reached":         reached,
			"vacuous_harnesses":      vacuous,
			"functions_encoded":      fns,
			"known_findings_present": knownSeen,
			"notes":                  sortedKeys(r.notes),
		},
		"assumptions": []string{
			"the semantics of Go SSA as implemented in /verif/engine (amd64, Go 1.27), cross-checked on every run by replaying sampled paths on the real build",
			"models of fmt, reflect, regexp, sync, math/big and a few low level functions instead of their source (see DESIGN.md)",
			"the SMT solvers' unsat answers (z3 5.3.2; cvc5 1.1.2 and z3 4.8.12 as fallback)",
			"bounds on sizes as written per harness; nothing is claimed outside them",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", name+".json"), b, 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var ks []string
	for id := range knownSeen {
		ks = append(ks, id)
	}
	sort.Strings(ks)
	for _, id := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, id, knownSeen[id])
	}
	for _, l := range vlines {
		fmt.Println(l)
	}
	if violations > 0 {
		return 1
	}
	if asserts == 0 {
		fmt.Println("ERROR nothing was decided")
		return 2
	}
	return 0
}

func eqObs(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] && !strings.Contains(b[i], "?") && !strings.Contains(a[i], "?") {
			return false
		}
	}
	return true
}

// broken tells that a native run violates the property.
func broken(o nativeOut, race bool) bool {
	return len(o.Failed) > 0 || o.Panic != "" || o.Crash != "" || o.Timeout || o.Race
}

func describe(o nativeOut) string {
	switch {
	case len(o.Failed) > 0:
		return "assertion failed: " + strings.Join(o.Failed, "; ")
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Crash != "":
		return "crash: " + o.Crash
	case o.Timeout:
		return "does not terminate"
	case o.Race:
		return "data race reported by the race detector"
	case o.Stop != "":
		return "stopped: " + o.Stop
	}
	return "holds"
}

// replayMain re-runs a recorded violation on the real code.
func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("root", "/verif", "root of the framework")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var v struct {
		Property, Harness string
		Inputs            []string
		Thorough          bool
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	dir := filepath.Join(*root, "harness")
	pk, err := packagesOf(dir, v.Property)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	sh, err := Load(dir, pk)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	for _, h := range sh.harnesses {
		if h.Name == v.Harness {
			nat, err := startNative(dir, []*Harness{h}, h.Opt.race)
			if err != nil {
				fmt.Println("ERROR", err)
				return 2
			}
			defer nat.Close()
			o, err := nat.run([]nativeIn{{v.Harness, v.Inputs, v.Thorough, 400}}, 30*time.Second, h.Opt.race)
			if err != nil {
				fmt.Println("ERROR", err)
				return 2
			}
			fmt.Println(describe(o[0]))
			if broken(o[0], true) {
				return 1
			}
			return 0
		}
	}
	fmt.Println("ERROR no such harness")
	return 2
}
