package main

// One path of the symbolic execution: decisions, path condition, draws.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

// Draw is one nondeterministic value handed to the program.
type Draw struct {
	Kind string // int, bool, real, choose; rand streams: intn, float, global
	Name string
	N    int64 // argument of RandIntn
	poly *Poly
	rf   *RF
	v    *Atom // bool
	c    int64 // concrete
}

type Path struct {
	lastText  string // see longChars
	lastChars []value
	e         *Engine
	h         *Harness
	s         *Solver
	facts     *Facts
	seeded    int // draws from generators the code seeded itself

	prefix    []int64
	pos       int
	decisions []int64
	alts      [][]int64 // prefixes still to explore

	nd   []Draw
	rnd  []Draw
	uniq map[string]*Atom
	objs map[string]*value

	in *interp // interpreter state of this path

	steps      int64
	unknowns   int
	robust     map[*Formula]*Formula
	clearly    *Formula // the last comparison that failed, failing clearly
	cover      map[string]bool
	nAsserts   int
	nConcrete  int
	nSolver    int
	trace      []string
	branches   int
	mapOrder   int
	floatRange bool
	tokens     []ftoken
	gobvals    []value
	fnSeen     map[*fnPrep]bool
	mdSeen     map[*fnPrep]bool
	usedModel  map[string]bool
	nofork     int
	sched      []int64
	maxDraws   int
	maxGlobal  int
}

// pathEnd is the panic used to stop a path.
type pathEnd struct {
	status string // ok, assume, infeasible, unsupported, limit, violation
	msg    string
}

func (p *Path) stop(status, format string, a ...any) {
	panic(pathEnd{status, fmt.Sprintf(format, a...)})
}

func (p *Path) unsupported(format string, a ...any) {
	p.stop("unsupported", format, a...)
}

func (p *Path) newAtom(name string, isInt bool, lo, hi *big.Rat) *Atom {
	a := &Atom{id: len(p.facts.atoms), name: name, isInt: isInt, lo: lo, hi: hi}
	p.facts.atoms = append(p.facts.atoms, a)
	sort := "Real"
	if isInt {
		sort = "Int"
	}
	p.s.line(fmt.Sprintf("(declare-const %s %s)", name, sort))
	if lo != nil {
		p.s.line(fmt.Sprintf("(assert (>= %s %s))", name, renderRat(lo, isInt)))
	}
	if hi != nil {
		p.s.line(fmt.Sprintf("(assert (<= %s %s))", name, renderRat(hi, isInt)))
	}
	return a
}

func (p *Path) newBool(name string) *Atom {
	a := &Atom{id: len(p.facts.atoms), name: name}
	p.facts.atoms = append(p.facts.atoms, a)
	p.s.line(fmt.Sprintf("(declare-const %s Bool)", name))
	return a
}

func (p *Path) fresh(pre string) string {
	return fmt.Sprintf("%s!%d", pre, len(p.facts.atoms))
}

// axiom adds a formula that holds by construction.
func (p *Path) axiom(f *Formula) {
	if f.op == fTrue {
		return
	}
	p.s.line("(assert " + p.facts.render(f) + ")")
	p.facts.learn(f)
}

// assume adds f to the path condition without a feasibility check.
func (p *Path) assumeNoCheck(f *Formula) { p.axiom(f) }

// branch decides a condition, forking when both outcomes are feasible.
func (p *Path) branch(f *Formula) bool {
	r := p.takeBranch(f)
	if !r {
		if rb := p.robust[f]; rb != nil {
			p.clearly = rb
		}
	}
	return r
}

func (p *Path) takeBranch(f *Formula) bool {
	switch p.facts.decide(f) {
	case 1:
		return true
	case 0:
		return false
	}
	p.branches++
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decisions = append(p.decisions, d)
		if d == 1 {
			p.assumeNoCheck(f)
			return true
		}
		p.assumeNoCheck(not(f))
		return false
	}
	rf := p.facts.render(f)
	rt, _ := p.s.check(rf, nil, false)
	if rt == rUnsat {
		p.decisions = append(p.decisions, 0)
		p.assumeNoCheck(not(f))
		return false
	}
	re, _ := p.s.check("(not "+rf+")", nil, false)
	if re == rUnsat {
		p.decisions = append(p.decisions, 1)
		p.assumeNoCheck(f)
		return true
	}
	if rt == rUnknown || re == rUnknown {
		p.unknowns++
	}
	p.fork(0)
	p.decisions = append(p.decisions, 1)
	p.assumeNoCheck(f)
	return true
}

// fork queues the current decision sequence followed by d.
func (p *Path) fork(d int64) {
	n := make([]int64, len(p.decisions)+1)
	copy(n, p.decisions)
	n[len(n)-1] = d
	p.alts = append(p.alts, n)
}

// choose picks one of n alternatives nondeterministically (all explored).
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	p.branches++
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decisions = append(p.decisions, d)
		return int(d)
	}
	for d := n - 1; d >= 1; d-- {
		p.fork(int64(d))
	}
	p.decisions = append(p.decisions, 0)
	return 0
}

// concretize forks over every feasible value of a symbolic integer.
func (p *Path) concretize(q *Poly) int64 {
	if c, ok := q.constVal(); ok {
		return c.Num().Int64()
	}
	iv := p.facts.interval(q)
	if iv.lo != nil && iv.hi != nil {
		lo, hi := ratCeil(iv.lo), ratFloor(iv.hi)
		if hi-lo <= 40 {
			for v := lo; v < hi; v++ {
				if p.branch(sign(rfPoly(q.sub(polyInt(v))), sZero)) {
					return v
				}
			}
			// the remaining value
			p.assumeNoCheck(sign(rfPoly(q.sub(polyInt(hi))), sZero))
			return hi
		}
	}
	for n := 0; ; n++ {
		if n > 64 {
			p.stop("limit", "concretization of an integer with more than 64 values at %s", p.where())
		}
		var v int64
		if p.pos < len(p.prefix) {
			v = p.prefix[p.pos]
			p.pos++
		} else {
			r, vals := p.s.check("", []string{p.facts.renderPoly(q, true)}, true)
			if r != rSat {
				p.stop("limit", "no model for an integer to concretize (%v)", r)
			}
			x, ok := new(big.Rat).SetString(vals[0])
			if !ok || !x.IsInt() {
				p.stop("limit", "bad model value %q", vals[0])
			}
			v = x.Num().Int64()
		}
		p.decisions = append(p.decisions, v)
		if p.branch(sign(rfPoly(q.sub(polyInt(v))), sZero)) {
			return v
		}
	}
}

func ratFloor(r *big.Rat) int64 {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return q.Int64()
}

func ratCeil(r *big.Rat) int64 { return -ratFloor(new(big.Rat).Neg(r)) }

// Assume constrains the path; the path ends silently when infeasible.
func (p *Path) assume(f *Formula) {
	switch p.facts.decide(f) {
	case 1:
		return
	case 0:
		p.stop("assume", "")
	}
	// a decision with a single continuation
	if p.pos < len(p.prefix) {
		p.pos++
		p.decisions = append(p.decisions, 1)
		p.assumeNoCheck(f)
		return
	}
	r, _ := p.s.check(p.facts.render(f), nil, true)
	if r == rUnsat {
		p.stop("assume", "")
	}
	p.decisions = append(p.decisions, 1)
	p.assumeNoCheck(f)
}

// assert checks the property on this path.
func (p *Path) assert(f *Formula, msg string) {
	p.nAsserts++
	p.e.countAssert(p.h, msg)
	if f.op == fTrue {
		p.nConcrete++
		return
	}
	if f.op == fFalse {
		p.violate("assert", msg, nil, nil)
	}
	if p.pos < len(p.prefix) {
		// Already decided on the path this one was forked from.
		p.facts.learn(f)
		p.s.line("(assert " + p.facts.render(f) + ")")
		return
	}
	p.nSolver++
	neg := not(f)
	r, _ := p.s.check(p.facts.render(neg), nil, true)
	switch r {
	case rUnsat:
		p.facts.learn(f)
		p.s.line("(assert " + p.facts.render(f) + ")")
		return
	case rSat:
		p.violate("assert", msg, neg, p.robust[f])
	default:
		if os.Getenv("GOSYM_DBG") != "" {
			fmt.Fprintln(os.Stderr, "UNKNOWN", msg, p.facts.render(f))
		}
		p.e.inconclusive(p.h, "solver answered unknown for: "+msg)
		p.facts.learn(f) // continue under the assumption, reported as inconclusive
		p.s.line("(assert " + p.facts.render(f) + ")")
	}
}

// modelTerms lists the solver terms whose values describe the draws.
func (p *Path) modelTerms() []string {
	var w []string
	for _, l := range [][]Draw{p.nd, p.rnd} {
		for _, d := range l {
			switch {
			case d.poly != nil:
				w = append(w, p.facts.renderPoly(d.poly, true))
			case d.rf != nil:
				w = append(w, p.facts.renderRF(d.rf))
			case d.v != nil:
				w = append(w, d.v.name)
			}
		}
	}
	return w
}

// RunInput is the concrete input that replays a path natively.
type RunInput struct {
	Harness string            `json:"harness"`
	Draws   []string          `json:"draws"`
	Kinds   []string          `json:"kinds"`
	Names   []string          `json:"names"`
	Rand    []string          `json:"rand"`
	RandK   []string          `json:"randk"`
	Bounds  map[string]int    `json:"bounds"`
	Sched   []int64           `json:"sched,omitempty"`
	Preempt int               `json:"preempt,omitempty"`
	Conc    bool              `json:"conc,omitempty"`
	Mode    string            `json:"mode,omitempty"` // "", forced, race
	Tries   int               `json:"tries"`
	Expect  string            `json:"expect"`
	Msg     string            `json:"msg"`
	Info    map[string]string `json:"info,omitempty"`
}

func (p *Path) inputFrom(vals []string) *RunInput {
	in := &RunInput{Harness: p.h.Func, Bounds: p.h.bounds(), Tries: 1}
	i := 0
	get := func(d Draw) string {
		if d.poly != nil || d.rf != nil || d.v != nil {
			s := vals[i]
			i++
			return s
		}
		return fmt.Sprint(d.c)
	}
	for _, d := range p.nd {
		in.Draws = append(in.Draws, get(d))
		in.Kinds = append(in.Kinds, d.Kind)
		in.Names = append(in.Names, d.Name)
	}
	for _, d := range p.rnd {
		in.Rand = append(in.Rand, get(d))
		in.RandK = append(in.RandK, d.Kind)
	}
	if p.in != nil && p.in.mapForks > 0 {
		in.Tries = 300
	}
	if p.in != nil && p.in.gors > 0 {
		in.Tries = 300
		in.Sched = append([]int64{}, p.sched...)
		in.Preempt = p.e.maxPreempt(p.h)
		in.Conc = true
	}
	for _, d := range p.rnd {
		if d.Kind == "global" {
			in.Tries = 300
		}
	}
	return in
}

// model returns replay inputs for the current path with an extra condition,
// the most robust first.
func (p *Path) model(extra, rb *Formula) []*RunInput {
	want := p.modelTerms()
	if len(want) == 0 {
		return []*RunInput{p.inputFrom(nil)}
	}
	base := "true"
	if extra != nil {
		base = p.facts.render(extra)
	}
	var nice []string
	for _, d := range p.nd {
		if d.rf != nil && len(d.rf.f) == 1 {
			n := p.facts.renderRF(d.rf)
			nice = append(nice, fmt.Sprintf("(or (= %s 0.0) (and (>= %s 0.0625) (<= %s 16.0)) (and (<= %s (- 0.0625)) (>= %s (- 16.0))))", n, n, n, n, n))
		}
	}
	niceS := "true"
	if len(nice) > 0 {
		niceS = "(and " + strings.Join(nice, " ") + " true)"
	}
	var tries []string
	if rb != nil {
		r := p.facts.render(rb)
		tries = append(tries, "(and "+r+" "+niceS+")", r)
	}
	if len(nice) > 0 {
		tries = append(tries, "(and "+base+" "+niceS+")")
	}
	tries = append(tries, base)
	var out []*RunInput
	for _, t := range tries {
		r, vals := p.s.check(t, want, true)
		if r == rSat {
			out = append(out, p.inputFrom(vals))
			if len(out) >= 3 {
				break
			}
		}
	}
	return out
}

// violate records a candidate violation and ends the path.
func (p *Path) violate(kind, msg string, extra, rb *Formula) {
	v := &Candidate{Harness: p.h, Kind: kind, Msg: msg, Decisions: append([]int64(nil), p.decisions...)}
	if kind == "assert" && extra == nil && rb == nil {
		rb = p.clearly
	}
	v.Inputs = p.model(extra, rb)
	for _, in := range v.Inputs {
		in.Expect = kind
		in.Msg = msg
	}
	v.Where = p.where()
	if len(v.Inputs) == 0 {
		if kind != "assert" || extra == nil {
			// the path itself could not be shown feasible
			r, _ := p.s.check("", nil, true)
			if r == rUnsat {
				p.stop("infeasible", "")
			}
		}
		p.e.inconclusive(p.h, "no model for candidate violation: "+msg)
		p.stop("unsupported", "no model: %s", msg)
	}
	p.e.addCandidate(v)
	p.stop("violation", "%s: %s", kind, msg)
}

func (p *Path) where() string {
	if p.in == nil {
		return ""
	}
	return p.in.stackString()
}

func sortedKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
