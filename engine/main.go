package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Known is one entry of known_findings.json.
type Known struct {
	Status   string `json:"status"` // known or fixed
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // substring of the violation message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("only", "", "run one harness function")
	verbose := flag.Bool("v", false, "")
	workers := flag.Int("j", runtime.NumCPU(), "")
	noev := flag.Bool("noevidence", false, "")
	flag.Parse()
	debug.SetGCPercent(200)
	if flag.NArg() < 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym [flags] PROPERTY")
		os.Exit(2)
	}
	if flag.Arg(0) == "replay" {
		os.Exit(replayFile(*repo, *verif, flag.Arg(1)))
	}
	os.Exit(check(*repo, *verif, flag.Arg(0), *only, *verbose, *workers, *noev))
}

func loadIndex(verif string) (map[string]*Property, error) {
	props := map[string]*Property{}
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "index", "*.json"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p := &Property{}
		if err := json.Unmarshal(b, p); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		p.ID = strings.TrimSuffix(filepath.Base(f), ".json")
		for _, h := range p.Harnesses {
			h.prop = p.ID
			if h.Pkg == "" {
				h.Pkg = "zzverif/" + strings.ToLower(p.ID)
			}
		}
		props[p.ID] = p
	}
	return props, nil
}

func check(repo, verif, id, only string, verbose bool, workers int, noev bool) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	props, err := loadIndex(verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	prop := props[id]
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	e := newEngine(repo, verif)
	e.tier, e.verbose, e.workers = tier, verbose, workers
	budget := prop.Budget
	if tier == "thorough" {
		budget = prop.TBudget
		if budget == 0 {
			budget = 5 * prop.Budget
		}
	}
	if budget == 0 {
		budget = 60
	}
	var hs []*Harness
	pats := map[string]bool{}
	for _, h := range prop.Harnesses {
		if only != "" && h.Func != only {
			continue
		}
		if h.Only != "" && h.Only != tier {
			continue
		}
		h.b = map[string]int{}
		for k, v := range h.Quick {
			h.b[k] = v
		}
		if tier == "thorough" {
			for k, v := range h.Thorough {
				h.b[k] = v
			}
		}
		hs = append(hs, h)
		pats["./"+h.Pkg] = true
	}
	var pl []string
	for p := range pats {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	if err := e.load(prop, pl); err != nil {
		fmt.Fprintln(os.Stderr, "cannot load /repo with the harness:", err)
		return 2
	}
	loadT := time.Since(t0).Seconds()
	rp := e.newReplayer(prop)
	defer rp.cleanup()
	bg := make(chan error, 1)
	go func() { _, err := rp.build(""); bg <- err }()
	end := time.Now().Add(time.Duration(budget) * time.Second)
	for i, h := range hs {
		// each harness gets its share of what is left of the budget, weighted
		left := time.Until(end)
		tw := 0
		for _, x := range hs[i:] {
			tw += x.weight()
		}
		share := time.Duration(float64(left) * float64(h.weight()) / float64(tw) * 1.5)
		if share > left {
			share = left
		}
		e.deadline = time.Now().Add(share)
		if err := e.explore(h); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		s := h.st
		fmt.Printf("%-28s paths=%d ok=%d assume=%d unsup=%d limit=%d viol=%d unexpl=%d asserts=%d (solver %d) unk=%d inconcl=%d wall=%.1fs\n",
			h.Func, s.Paths, s.Ok, s.Assume, s.Unsupported, s.Limit, s.Violating, s.Unexplored, s.Asserts, s.AssertsSolver, s.Unknown, len(s.Inconclusive), s.Wall)
		if verbose {
			for _, l := range topN(s.Reasons, 8) {
				fmt.Println("    ", l)
			}
			for _, l := range topN(s.Inconclusive, 5) {
				fmt.Println("    inconclusive:", l)
			}
			for _, l := range topN(s.Cover, 30) {
				fmt.Println("    cover:", l)
			}
		}
	}
	if err := <-bg; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	known := loadKnown(verif)
	type viol struct {
		h    *Harness
		in   *RunInput
		msg  string
		kind string
		src  string
	}
	var viols []viol
	seen := map[string]bool{}
	unconfirmed := map[string]int{}
	// 1. candidates of the solver
	var ins []*RunInput
	var own []*Candidate
	for _, c := range e.cands {
		for _, in := range c.Inputs {
			in.Info = map[string]string{"property": id, "package": c.Harness.Pkg, "where": c.Where, "kind": c.Kind}
			ins = append(ins, in)
			own = append(own, c)
		}
	}
	res, err := rp.run(ins, 25*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	conf := map[*Candidate]bool{}
	for i, r := range res {
		c := own[i]
		if conf[c] {
			continue
		}
		if r.failing() {
			conf[c] = true
			key := c.Harness.Func + "|" + c.Msg
			if !seen[key] {
				seen[key] = true
				viols = append(viols, viol{c.Harness, ins[i], c.Kind + ": " + c.Msg + " (native: " + r.Kind + " " + r.Msg + ")", c.Kind, "solver model"})
			}
		} else if verbose {
			fmt.Printf("    native replay of %s gave %s %s\n", c.Msg, r.Kind, r.Msg)
			if b, err := json.Marshal(ins[i]); err == nil {
				fmt.Println("      ", string(b))
			}
		}
	}
	// schedule-dependent candidates that chance did not reproduce: impose the
	// recorded schedule, or look for the race with the race detector
	ins, own = nil, nil
	for _, c := range e.cands {
		if conf[c] {
			continue
		}
		for k, in := range c.Inputs {
			if !in.Conc || k > 1 || seen[c.Harness.Func+"|"+c.Msg] {
				continue
			}
			d := *in
			if c.Kind == "race" {
				d.Mode, d.Tries = "race", 40
			} else {
				d.Mode, d.Tries = "forced", 1
			}
			ins = append(ins, &d)
			own = append(own, c)
		}
	}
	if len(ins) > 0 {
		res, err := rp.run(ins, 25*time.Second)
		if err != nil {
			fmt.Println("note:", err)
		}
		for i, r := range res {
			c := own[i]
			if verbose {
				fmt.Printf("    %s replay of %s gave %s %s\n", ins[i].Mode, c.Msg, r.Kind, r.Msg)
			}
			if conf[c] || !r.failing() {
				continue
			}
			conf[c] = true
			key := c.Harness.Func + "|" + c.Msg
			if !seen[key] {
				seen[key] = true
				viols = append(viols, viol{c.Harness, ins[i], c.Kind + ": " + c.Msg + " (native, " + ins[i].Mode + ": " + r.Kind + " " + r.Msg + ")", c.Kind, "solver model"})
			}
		}
	}
	for _, c := range e.cands {
		if !conf[c] {
			unconfirmed[c.Harness.Func+": "+c.Kind+": "+c.Msg]++
		}
	}
	// 2. validation of the encoding on sample paths, and concrete runs of the
	// paths that could not be encoded
	validated, diverged := 0, map[string]int{}
	for _, h := range hs {
		list := append(append([]*RunInput{}, h.st.samples...), h.st.unsup...)
		if len(list) == 0 {
			continue
		}
		for _, in := range list {
			if in.Tries > 20 {
				in.Tries = 20
			}
		}
		res, err := rp.run(list, 25*time.Second)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for i, r := range res {
			in := list[i]
			if r.failing() {
				key := h.Func + "|" + r.Msg
				if !seen[key] {
					seen[key] = true
					in.Info = map[string]string{"property": id, "package": h.Pkg, "kind": r.Kind}
					in.Msg = r.Msg
					viols = append(viols, viol{h, in, r.Kind + ": " + r.Msg, r.Kind, "native run of a path model"})
				}
				continue
			}
			if in.Expect == "ok" {
				if r.Kind == "ok" {
					validated++
				} else {
					diverged[h.Func+": expected ok, native run gave "+r.Kind+" "+r.Msg]++
				}
			}
		}
	}
	// vacuity
	vac := []string{}
	for _, h := range hs {
		for _, c := range h.Covers {
			if h.st.Cover[c] == 0 && h.st.Unexplored == 0 && h.st.Violating == 0 {
				vac = append(vac, h.Func+": never reached "+c)
			}
		}
		if h.st.Asserts == 0 && h.st.Violating == 0 {
			vac = append(vac, h.Func+": no assertion reached")
		}
	}

	// report
	code := 0
	nviol := 0
	rdir := filepath.Join(verif, "evidence", "replay")
	for _, v := range viols {
		if k := known.match(id, v.h.Func, v.msg); k != nil {
			k.hit = true
			continue
		}
		nviol++
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, nviol))
		v.in.Info["message"] = v.msg
		v.in.Info["harness"] = v.h.Func
		dumpJSON(path, v.in)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  harness %s: %s [%s]\n", v.h.Func, v.msg, v.src)
		if w := v.in.Info["where"]; w != "" {
			fmt.Printf("  at %s\n", w)
		}
		code = 1
	}
	for _, k := range known {
		if k.Status == "known" && k.Property == id && k.hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	if verbose {
		for k, n := range unconfirmed {
			fmt.Printf("unconfirmed candidate (%d): %s\n", n, k)
		}
		for k, n := range diverged {
			fmt.Printf("diverged (%d): %s\n", n, k)
		}
	}
	for _, v := range vac {
		fmt.Println("note: vacuity:", v)
	}
	if !noev {
		e.writeEvidence(verif, id, tier, seed, prop, hs, validated, nviol, unconfirmed, diverged, vac, t0, loadT)
	}
	fmt.Printf("%s: %d paths, %d queries, solver %.1fs, validated %d, wall %.1fs\n", id, sum(hs, func(s *HStats) int { return s.Paths }), e.stats.Queries, e.stats.Time.Seconds(), validated, time.Since(t0).Seconds())
	return code
}

func (h *Harness) weight() int {
	if h.Weight > 0 {
		return h.Weight
	}
	return 1
}

func sum(hs []*Harness, f func(*HStats) int) int {
	n := 0
	for _, h := range hs {
		n += f(h.st)
	}
	return n
}

type knownRec struct {
	Known
	hit bool
}
type knownList []*knownRec

func loadKnown(verif string) knownList {
	var l []*knownRec
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var ks []Known
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		return nil
	}
	for _, k := range ks {
		l = append(l, &knownRec{Known: k})
	}
	return l
}

func (l knownList) match(id, fn, msg string) *knownRec {
	for _, k := range l {
		if k.Status == "known" && k.Property == id && k.Harness == fn && k.Match != "" && strings.Contains(msg, k.Match) {
			return k
		}
	}
	return nil
}

func (e *Engine) writeEvidence(verif, id, tier string, seed int, prop *Property, hs []*Harness, validated, nviol int,
	unconf, div map[string]int, vac []string, t0 time.Time, loadT float64) {
	var repoFns, stdFns []string
	for f := range e.fns {
		switch {
		case strings.Contains(f, "/zzverif/"):
		case strings.Contains(f, modPath):
			repoFns = append(repoFns, strings.ReplaceAll(f, modPath+"/", ""))
		default:
			stdFns = append(stdFns, f)
		}
	}
	sort.Strings(repoFns)
	var models []string
	for m := range e.models {
		models = append(models, strings.ReplaceAll(m, modPath+"/", ""))
	}
	sort.Strings(models)
	states, trans := 0, 0
	complete := true
	var per []map[string]any
	var samples []any
	for _, h := range hs {
		s := h.st
		states += s.Ok + s.Violating
		trans += int(s.Branches)
		full := s.Unexplored == 0 && s.Unsupported == 0 && s.Limit == 0 && len(s.Inconclusive) == 0
		complete = complete && full
		per = append(per, map[string]any{
			"harness": h.name(), "claim_bound": h.Bound, "size_bounds": h.b, "paths": s.Paths, "paths_completed": s.Ok,
			"paths_cut_by_assumption": s.Assume + s.Infeasible, "paths_not_encodable": s.Unsupported, "paths_over_limit": s.Limit,
			"paths_unexplored_at_deadline": s.Unexplored, "bound_exhausted": full, "instructions_executed": s.Steps,
			"assertions_evaluated": s.Asserts, "assertions_decided_by_query": s.AssertsSolver,
			"assertions_decided_by_normal_form": s.AssertsConcrete,
			"branch_feasibility_unknown":        s.Unknown, "reasons": topN(s.Reasons, 6), "inconclusive": topN(s.Inconclusive, 6), "reached": s.Cover,
			"assertion_texts": topN(s.AssertMsgs, 12), "wall_s": s.Wall,
		})
		for i, x := range s.samples {
			if i < 1 {
				samples = append(samples, map[string]any{"harness": h.Func, "inputs": x.Draws, "names": x.Names, "rand": x.Rand})
			}
		}
	}
	if states == 0 {
		states = 0
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"exhaustive": complete, "queries": e.stats.Queries, "queries_unsat": e.stats.Unsat, "queries_sat": e.stats.Sat,
		"queries_unknown": e.stats.Unknown, "fallback_queries": e.stats.Fallbacks, "solver_errors": e.stats.Errors, "solver_time_s": e.stats.Time.Seconds(),
		"functions_encoded": repoFns, "library_functions_encoded": len(stdFns), "modelled_functions": models,
		"harnesses": per, "outside_the_bound": prop.Outside, "candidates_not_confirmed_by_replay": unconf,
		"encoding_divergences": div, "vacuity_notes": vac, "load_s": loadT,
		"explanation": "states: completed symbolic paths (each an SMT path condition over all inputs within the bounds); transitions: symbolic branch decisions; traces_validated_against_impl: solver models of completed paths re-run natively on the compiled code with the same outcome",
	}
	as := append([]string{"floating-point values are exact extended reals; rounding, overflow and signed zero are outside the claim"}, prop.Assume...)
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := dumpJSON(filepath.Join(verif, "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// replayFile re-runs a stored counterexample natively.
func replayFile(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var in RunInput
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	props, err := loadIndex(verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	prop := props[in.Info["property"]]
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", in.Info["property"])
		return 2
	}
	e := newEngine(repo, verif)
	e.files = e.overlayFor(prop)
	rp := e.newReplayer(prop)
	defer rp.cleanup()
	r, err := rp.run([]*RunInput{&in}, 60*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Println("native result:", r[0].Kind, r[0].Msg)
	if r[0].failing() {
		return 1
	}
	return 0
}
