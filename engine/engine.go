package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/RenatoGeh/gospn"
const ndPath = modPath + "/zzverif/nd"

// Harness is one entry point.
type Harness struct {
	Pkg      string         `json:"pkg"` // import path relative to the module
	Func     string         `json:"func"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	Steps    int64          `json:"steps"`
	Preempt  int            `json:"preempt"` // 0: three, negative: none
	MaxPaths int            `json:"maxpaths"`
	Only     string         `json:"only"` // restrict to a tier
	Bound    string         `json:"bound"`
	Overlay  []string       `json:"overlay"` // in-package files
	Covers   []string       `json:"covers"`  // tags that must be reached
	Weight   int            `json:"weight"`  // share of the time budget
	Fast     bool           `json:"fast"`    // nd.Choose forks without asking the solver

	b    map[string]int
	prop string
	st   *HStats
}

func (h *Harness) bounds() map[string]int { return h.b }
func (h *Harness) name() string           { return h.Pkg + "." + h.Func }

// HStats is what was measured for a harness.
type HStats struct {
	Paths, Ok, Assume, Infeasible, Unsupported, Limit, Violating int
	Branches, Steps                                              int64
	Asserts, AssertsConcrete, AssertsSolver                      int
	Unknown                                                      int
	Unexplored                                                   int
	Wall                                                         float64
	Cover                                                        map[string]int
	AssertMsgs                                                   map[string]int
	Reasons                                                      map[string]int
	Inconclusive                                                 map[string]int
	samples                                                      []*RunInput
	unsup                                                        []*RunInput
}

// Candidate is a counterexample returned by the solver, before replay.
type Candidate struct {
	Harness   *Harness
	Kind, Msg string
	Where     string
	Inputs    []*RunInput
	Decisions []int64
}

// Property groups the harnesses of a property.
type Property struct {
	ID        string     `json:"-"`
	Budget    int        `json:"budget"`  // seconds, quick
	TBudget   int        `json:"tbudget"` // seconds, thorough
	Harnesses []*Harness `json:"harnesses"`
	Outside   []string   `json:"outside"`
	Assume    []string   `json:"assume"`
}

type Engine struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	stdPkgs  map[*ssa.Package]bool
	rootFn   *ssa.Function
	maxDepth int

	buildMu sync.Mutex
	built   map[*ssa.Package]bool

	extMu  sync.RWMutex
	ext    map[*ssa.Function]extFn
	methM  sync.Map
	idents sync.Map

	shMu   sync.Mutex
	shInit map[*ssa.Package]bool
	shGlob map[*ssa.Global]*value
	shPath *Path

	mu       sync.Mutex
	cands    []*Candidate
	fns      map[string]int
	models   map[string]bool
	deadline time.Time
	stats    SolverStats
	repo     string
	verif    string
	tier     string
	verbose  bool
	workers  int
	files    map[string]string // overlay: repo path -> verif path
	wantMod  map[string]bool
}

func newEngine(repo, verif string) *Engine {
	return &Engine{maxDepth: 400, built: map[*ssa.Package]bool{}, ext: map[*ssa.Function]extFn{},
		shInit: map[*ssa.Package]bool{}, shGlob: map[*ssa.Global]*value{}, fns: map[string]int{}, models: map[string]bool{},
		repo: repo, verif: verif, stdPkgs: map[*ssa.Package]bool{}}
}

// overlayFor collects the harness files a property needs.
func (e *Engine) overlayFor(prop *Property) map[string]string {
	ov := map[string]string{}
	addDir := func(rel string) {
		d := filepath.Join(e.verif, "harness", rel)
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, f := range fs {
			ov[filepath.Join(e.repo, rel, filepath.Base(f))] = f
		}
	}
	addDir("zzverif/nd")
	addDir("zzverif/hlib")
	for _, h := range prop.Harnesses {
		if strings.HasPrefix(h.Pkg, "zzverif/") {
			addDir(h.Pkg)
		}
		for _, o := range h.Overlay {
			ov[filepath.Join(e.repo, o)] = filepath.Join(e.verif, "harness", o)
		}
	}
	return ov
}

func (e *Engine) load(prop *Property, pats []string) error {
	e.files = e.overlayFor(prop)
	ov := map[string][]byte{}
	for k, f := range e.files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Overlay: ov}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, x := range p.Errors {
				errs = append(errs, x.Error())
			}
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e.prog = prog
	e.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
		if !strings.Contains(strings.SplitN(p.Pkg.Path(), "/", 2)[0], ".") {
			e.stdPkgs[p] = true
		}
	}
	e.rootFn = prog.NewFunction("root", types.NewSignatureType(nil, nil, nil, nil, nil, false), "engine root")
	return nil
}

func (e *Engine) build(p *ssa.Package) {
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	if e.built[p] {
		return
	}
	e.built[p] = true
	p.Build()
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t types.Type
		m *types.Func
	}
	k := key{t, m}
	if f, ok := e.methM.Load(k); ok {
		return f.(*ssa.Function)
	}
	e.buildMu.Lock()
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.buildMu.Unlock()
	if f != nil {
		e.methM.Store(k, f)
	}
	return f
}

func (e *Engine) shared(p *ssa.Package) bool { return e.stdPkgs[p] }

// sharedGlobal returns a standard library global, initialising its package
// once for all paths (they are tables and sentinel values).
func (e *Engine) sharedGlobal(g *ssa.Global) *value {
	e.shMu.Lock()
	defer e.shMu.Unlock()
	return e.sharedGlobalLocked(g)
}

func (e *Engine) sharedGlobalLocked(g *ssa.Global) *value {
	if v, ok := e.shGlob[g]; ok && e.shInit[g.Pkg] {
		return v
	}
	e.build(g.Pkg)
	if e.shPath == nil {
		s := newSolver()
		e.shPath = &Path{e: e, h: &Harness{Steps: 1 << 40}, s: s, facts: newFacts(), uniq: map[string]*Atom{},
			robust: map[*Formula]*Formula{}, cover: map[string]bool{}, fnSeen: map[*fnPrep]bool{}, mdSeen: map[*fnPrep]bool{}, usedModel: map[string]bool{}}
		in := newInterp(e.shPath)
		e.shPath.in = in
		in.all = []*gor{{}}
		in.cur = in.all[0]
	}
	in := e.shPath.in
	if !e.shInit[g.Pkg] {
		for _, m := range g.Pkg.Members {
			if gg, ok := m.(*ssa.Global); ok {
				if _, done := e.shGlob[gg]; !done {
					v := zero(deref(gg.Type()))
					e.shGlob[gg] = &v
					in.globals[gg] = &v
				}
			}
		}
		e.shInit[g.Pkg] = true
		if fn := g.Pkg.Func("init"); fn != nil {
			e.sharedInit(in, fn)
		}
		if g.Pkg.Pkg.Path() == "os" {
			for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
				std := value(&memFile{std: true, n: &memNode{}})
				*e.shGlob[g.Pkg.Var(n)] = &std
			}
		}
	}
	if v, ok := e.shGlob[g]; ok {
		return v
	}
	v := zero(deref(g.Type()))
	e.shGlob[g] = &v
	in.globals[g] = &v
	return &v
}

// sharedInit runs a package initialiser leniently, statement by statement.
func (e *Engine) sharedInit(in *interp, fn *ssa.Function) {
	fr := &frame{in: in, fn: fn, g: in.all[0], caller: in.rootFrame(in.all[0])}
	fr.info = infoOf(fn)
	fr.env = append(make([]value, 0, fr.info.n), fr.info.tmpl...)
	for _, l := range fn.Locals {
		v := zero(deref(l.Type()))
		fr.env[fr.info.slot(vptr(l))] = &v
	}
	if len(fn.Blocks) < 2 {
		return
	}
	b := fn.Blocks[1]
	for n := 0; b != nil && n < 10000; n++ {
		var next *ssa.BasicBlock
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != fn.Pkg {
					continue // imports are initialised on demand
				}
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if v, ok := i.(ssa.Value); ok {
							fr.set(v, safeZero(v.Type()))
						}
					}
				}()
				switch x := i.(type) {
				case *ssa.Jump:
					next = b.Succs[0]
				case *ssa.If:
					if fr.truth(fr.get(x.Cond)) {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				case *ssa.Return:
					next = nil
				case *ssa.Phi:
					for k, pr := range b.Preds {
						if pr == fr.prevBlock {
							fr.set(x, fr.get(x.Edges[k]))
						}
					}
				default:
					fr.visit(i)
				}
			}()
		}
		fr.prevBlock = b
		b = next
	}
}

func safeZero(t types.Type) (v value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	return zero(t)
}

func (e *Engine) expired() bool { return time.Now().After(e.deadline) }

func (e *Engine) maxSteps(h *Harness) int64 {
	if h.Steps > 0 {
		return h.Steps
	}
	return 3_000_000
}

func (e *Engine) maxPreempt(h *Harness) int {
	switch {
	case h.Preempt > 0:
		return h.Preempt
	case h.Preempt < 0:
		return 0
	}
	return 3
}

func (e *Engine) countAssert(h *Harness, msg string) {
	e.mu.Lock()
	h.st.AssertMsgs[msg]++
	e.mu.Unlock()
}

func (e *Engine) inconclusive(h *Harness, msg string) {
	e.mu.Lock()
	h.st.Inconclusive[msg]++
	e.mu.Unlock()
}

func (e *Engine) addCandidate(c *Candidate) {
	e.mu.Lock()
	defer e.mu.Unlock()
	n, tot := 0, 0
	for _, o := range e.cands {
		if o.Harness == c.Harness {
			tot++
			if o.Kind == c.Kind && o.Msg == c.Msg {
				n++
			}
		}
	}
	if n < 6 && tot < 60 {
		e.cands = append(e.cands, c)
	}
}

func (p *Path) noteModel(pr *fnPrep) {
	if !pr.nd {
		p.mdSeen[pr] = true
	}
}

// classify turns a recovered panic into a path result.
func (e *Engine) classify(p *Path, r any) pathEnd {
	switch x := r.(type) {
	case pathEnd:
		return x
	case targetPanic:
		msg := p.panicString(x)
		var res pathEnd
		func() {
			defer func() {
				if q := recover(); q != nil {
					if pe, ok := q.(pathEnd); ok {
						res = pe
						return
					}
					panic(q)
				}
			}()
			p.violate("panic", msg, nil, nil)
		}()
		return res
	}
	msg := fmt.Sprintf("engine error: %v", r)
	if e.verbose {
		msg += "\n" + string(debug.Stack())
	}
	return pathEnd{"unsupported", msg + " at " + p.where()}
}

func (p *Path) panicString(t targetPanic) string {
	if i, ok := t.v.(iface); ok {
		switch v := i.v.(type) {
		case string:
			return "panic: " + v
		case *value:
			if v != nil {
				if s, ok := (*v).(structure); ok && len(s) > 0 {
					if m, ok := s[0].(string); ok {
						return "panic: " + m
					}
				}
			}
		}
		if i.t != nil {
			return "panic: value of type " + i.t.String()
		}
	}
	return "panic"
}

// runPath executes one path of h.
func (e *Engine) runPath(h *Harness, fn *ssa.Function, s *Solver, prefix []int64) *Path {
	p := &Path{e: e, h: h, s: s, facts: newFacts(), prefix: prefix, uniq: map[string]*Atom{},
		robust: map[*Formula]*Formula{}, cover: map[string]bool{}, fnSeen: map[*fnPrep]bool{}, mdSeen: map[*fnPrep]bool{}, usedModel: map[string]bool{}}
	in := newInterp(p)
	p.in = in
	g := &gor{wake: make(chan struct{}), dead: make(chan struct{})}
	in.all = []*gor{g}
	in.cur = g
	s.beginPath()
	var end pathEnd
	func() {
		defer func() {
			if r := recover(); r != nil {
				if in.abort != nil {
					end = *in.abort
					return
				}
				end = e.classify(p, r)
				return
			}
			end = pathEnd{status: "ok"}
		}()
		in.ensureInit(fn.Pkg, g)
		in.callSSA(in.rootFrame(g), fn, nil, nil)
	}()
	in.killAll()
	st := h.st
	// a model of a few finished paths is replayed natively (translator
	// validation); unsupported paths are replayed as well.
	var sample []*RunInput
	e.mu.Lock()
	wantSample := end.status == "ok" && (len(st.samples) < 24)
	wantUnsup := end.status == "unsupported" && len(st.unsup) < 60
	wantHang := end.status == "limit" && (strings.HasPrefix(end.msg, "step limit") || strings.HasPrefix(end.msg, "call depth"))
	e.mu.Unlock()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && pe.status == "violation" {
					return
				}
			}
		}()
		if wantHang {
			p.violate("hang", "execution does not terminate within the step limit: "+end.msg, nil, nil)
		}
		if wantSample || wantUnsup {
			sample = p.model(nil, nil)
		}
	}()
	if end.status == "ok" && p.unknowns > 0 {
		// the path may be infeasible; harmless for soundness
	}
	s.endPath()
	e.mu.Lock()
	defer e.mu.Unlock()
	st.Paths++
	switch end.status {
	case "ok":
		st.Ok++
	case "assume":
		st.Assume++
	case "infeasible":
		st.Infeasible++
	case "unsupported":
		st.Unsupported++
		st.Reasons["unsupported: "+end.msg]++
	case "limit":
		st.Limit++
		st.Reasons["limit: "+end.msg]++
	case "violation":
		st.Violating++
	}
	st.Branches += int64(p.branches)
	st.Steps += p.steps
	st.Asserts += p.nAsserts
	st.AssertsConcrete += p.nConcrete
	st.AssertsSolver += p.nSolver
	st.Unknown += p.unknowns
	if end.status == "ok" || end.status == "violation" {
		for c := range p.cover {
			st.Cover[c]++
		}
	}
	if wantSample && len(sample) > 0 {
		sample[0].Expect = "ok"
		st.samples = append(st.samples, sample[0])
	}
	if wantUnsup {
		for i, x := range sample {
			if i < 2 {
				x.Expect = "unknown"
				st.unsup = append(st.unsup, x)
			}
		}
	}
	for f := range p.fnSeen {
		e.fns[f.name]++
	}
	for f := range p.mdSeen {
		e.models[f.name] = true
	}
	for f := range p.usedModel {
		e.models[f] = true
	}
	return p
}

// explore runs every path of a harness.
func (e *Engine) explore(h *Harness) error {
	pkg := e.pkgs[modPath+"/"+h.Pkg]
	if pkg == nil {
		return fmt.Errorf("package %s not loaded", h.Pkg)
	}
	e.build(pkg)
	fn := pkg.Func(h.Func)
	if fn == nil {
		return fmt.Errorf("no function %s in %s", h.Func, h.Pkg)
	}
	h.st = &HStats{Cover: map[string]int{}, AssertMsgs: map[string]int{}, Reasons: map[string]int{}, Inconclusive: map[string]int{}}
	t0 := time.Now()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	frontier := [][]int64{nil}
	active := 0
	stopped := false
	rng := rand.New(rand.NewSource(1))
	paths := 0
	maxPaths := h.MaxPaths
	if maxPaths == 0 {
		maxPaths = 1 << 30
	}
	var wg sync.WaitGroup
	for w := 0; w < e.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := newSolver()
			s.until = e.deadline.Add(5 * time.Second)
			defer func() {
				s.close()
				e.mu.Lock()
				e.stats.add(&s.st)
				e.mu.Unlock()
			}()
			for {
				mu.Lock()
				for len(frontier) == 0 && active > 0 && !stopped {
					cond.Wait()
				}
				if stopped || len(frontier) == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				if len(frontier) > 64 {
					// spread over the tree, so that a run that hits its budget
					// has not only seen one corner of it
					if paths%4 == 3 {
						k := rng.Intn(len(frontier))
						l := len(frontier) - 1
						frontier[k], frontier[l] = frontier[l], frontier[k]
					}
				}
				px := frontier[len(frontier)-1]
				frontier = frontier[:len(frontier)-1]
				active++
				paths++
				mu.Unlock()
				p := e.runPath(h, fn, s, px)
				mu.Lock()
				frontier = append(frontier, p.alts...)
				active--
				if e.expired() || paths >= maxPaths || h.st.Violating >= 200 {
					stopped = true
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	h.st.Unexplored = len(frontier)
	h.st.Wall = time.Since(t0).Seconds()
	return nil
}

func dumpJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func topN(m map[string]int, n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || (l[i].v == l[j].v && l[i].k < l[j].k) })
	var r []string
	for i, x := range l {
		if i >= n {
			break
		}
		r = append(r, fmt.Sprintf("%d x %s", x.v, x.k))
	}
	return r
}
