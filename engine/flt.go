package main

// Floating point values as exact extended reals: finite rational functions,
// logarithms of non-negative rational functions (ln 0 = -Inf), infinities, NaN.
// Rounding, overflow and the sign of zero are outside the model.

import (
	"math"
	"math/big"
	"strconv"
)

type fkind byte

const (
	kFin fkind = iota
	kLog
	kPInf
	kNInf
	kNaN
)

// Flt is an immutable float value.
type Flt struct {
	k fkind
	r *RF
}

var (
	fltNaN  = &Flt{k: kNaN}
	fltPInf = &Flt{k: kPInf}
	fltNInf = &Flt{k: kNInf}
	fltZero = &Flt{kFin, rfZero}
	fltOne  = &Flt{kFin, rfOne}
)

func fin(r *RF) *Flt { return &Flt{kFin, r} }

// ratOfFloat converts a float constant through its shortest decimal form.
func ratOfFloat(f float64) *big.Rat {
	if r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64)); ok {
		return r
	}
	return new(big.Rat).SetFloat64(f)
}

func fltOf(f float64) *Flt {
	switch {
	case math.IsNaN(f):
		return fltNaN
	case math.IsInf(f, 1):
		return fltPInf
	case math.IsInf(f, -1):
		return fltNInf
	}
	return fin(rfConst(ratOfFloat(f)))
}

// concrete returns the float64 when the value is a constant.
func (x *Flt) concrete() (float64, bool) {
	switch x.k {
	case kPInf:
		return math.Inf(1), true
	case kNInf:
		return math.Inf(-1), true
	case kNaN:
		return math.NaN(), true
	case kFin:
		if x.r.isConst() {
			f, _ := x.r.c.Float64()
			return f, true
		}
	case kLog:
		if x.r.isConst() {
			f, _ := x.r.c.Float64()
			return math.Log(f), true
		}
	}
	return 0, false
}

// exact tells whether f is exactly the constant x stands for.
func (x *Flt) exact(f float64) bool {
	if x.k != kFin || !x.r.isConst() || math.IsInf(f, 0) || math.IsNaN(f) {
		return false
	}
	return new(big.Rat).SetFloat64(f).Cmp(x.r.c) == 0
}

func mkLog(r *RF) *Flt {
	if r.isZero() {
		return fltNInf
	}
	if r.isOne() {
		return fltZero
	}
	return &Flt{kLog, r}
}

// splitLog resolves whether ln(r) is -Inf.
func (p *Path) splitLog(x *Flt) *Flt {
	if x.k == kLog && p.branch(sign(x.r, sZero)) {
		return fltNInf
	}
	return x
}

// logArg returns r with x = ln(r), for x < +Inf.
func (p *Path) logArg(x *Flt) *RF {
	switch x.k {
	case kLog:
		return x.r
	case kNInf:
		return rfZero
	case kFin:
		return p.expRF(x.r)
	}
	p.unsupported("logArg")
	return nil
}

// expRF is exp of a finite value, built from atoms exp(m) per monomial.
func (p *Path) expRF(c *RF) *RF {
	if c.isZero() {
		return rfOne
	}
	if p.floatRange && c.isConst() {
		if r, ok := expConst(c.c); ok {
			return r
		}
	}
	poly, ok := c.asPoly()
	if !ok {
		return rfAtom(p.expAtom(c))
	}
	r := rfOne
	for _, t := range poly.t {
		// ln atoms invert exactly
		if len(t.m.p) == 1 && t.m.p[0].e == 1 {
			a := p.facts.atoms[t.m.p[0].v]
			if a.kind == "ln" && t.c.IsInt() && t.c.Num().IsInt64() && abs64(t.c.Num().Int64()) < 64 {
				r = r.mul(a.arg.pow(int(t.c.Num().Int64())))
				continue
			}
		}
		num := t.c.Num().Int64()
		if !t.c.Num().IsInt64() || abs64(num) > 64 {
			m := rfPoly(mkPoly([]pterm{t}))
			r = r.mul(rfAtom(p.expAtom(m)))
			continue
		}
		m := rfPoly(mkPoly([]pterm{{t.m, new(big.Rat).SetFrac(big.NewInt(1), t.c.Denom())}}))
		r = r.mul(rfAtom(p.expAtom(m)).pow(int(num)))
	}
	return r
}

// expConst is e to a constant up to rounding, for harnesses that have the range
// of float64 applied (see sameNum).
func expConst(c *big.Rat) (*RF, bool) {
	f, _ := c.Float64()
	if math.Abs(f) > 1e5 {
		return nil, false
	}
	k := math.Floor(f / math.Ln2)
	x, _ := new(big.Float).SetMantExp(big.NewFloat(math.Exp(f-k*math.Ln2)), int(k)).Rat(nil)
	return rfConst(x), true
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func (p *Path) derived(kind string, arg *RF) (*Atom, bool) {
	k := kind + "|" + arg.key()
	if a, ok := p.uniq[k]; ok {
		return a, true
	}
	a := p.newAtom(p.fresh(kind), false, nil, nil)
	a.kind, a.arg = kind, arg
	p.uniq[k] = a
	p.usedModel["uninterpreted "+kind] = true
	return a, false
}

func (p *Path) expAtom(m *RF) *Atom {
	a, old := p.derived("exp", m)
	if old {
		return a
	}
	e := rfAtom(a)
	p.axiom(sign(e, sPos))
	// e > 1 <-> m > 0 ; e < 1 <-> m < 0
	em1 := e.sub(rfOne)
	for _, s := range []int{sPos, sNeg} {
		p.axiom(iff(sign(em1, s), sign(m, s)))
	}
	// e >= 1 + m
	p.axiom(sign(em1.sub(m), sPos|sZero))
	p.monotone("exp", a)
	if m.isConst() {
		f, _ := m.c.Float64()
		if v := math.Exp(f); !math.IsInf(v, 0) && v > 0 {
			p.axiom(sign(e.sub(rfConst(ratOfFloat(v*(1-1e-9)))), sPos))
			p.axiom(sign(e.sub(rfConst(ratOfFloat(v*(1+1e-9)))), sNeg))
		}
	}
	return a
}

// lnRF is ln of a positive value as a finite real.
func (p *Path) lnRF(r *RF) *RF {
	if r.isOne() {
		return rfZero
	}
	if r.isConst() {
		return rfAtom(p.lnAtom(r))
	}
	res := rfZero
	whole := false
	for _, x := range r.f {
		if p.facts.polyMask(x.p) != sPos {
			whole = true
		}
	}
	if whole || r.c.Sign() < 0 {
		return rfAtom(p.lnAtom(r))
	}
	if r.c.Cmp(ratOne) != 0 {
		res = rfAtom(p.lnAtom(rfConst(r.c)))
	}
	for _, x := range p.refactor(r.f) {
		// exp atoms invert exactly
		if len(x.p.t) == 1 && len(x.p.t[0].m.p) == 1 {
			a := p.facts.atoms[x.p.t[0].m.p[0].v]
			if a.kind == "exp" {
				res = res.add(a.arg.mul(rfInt(int64(x.e))))
				continue
			}
		}
		res = res.add(rfAtom(p.lnAtom(&RF{ratOne, []fe{{x.p, 1}}})).mul(rfInt(int64(x.e))))
	}
	return res
}

// refactor splits off the arguments of earlier logarithms as factors.
func (p *Path) refactor(f []fe) []fe {
	var out []fe
	for _, x := range f {
		q := x.p
		if len(q.t) > 2 {
			for _, a := range p.facts.atoms {
				if a.kind != "ln" || len(a.arg.f) != 1 || a.arg.f[0].e != 1 || a.arg.c.Cmp(ratOne) != 0 {
					continue
				}
				d := a.arg.f[0].p
				if len(d.t) >= len(q.t) {
					continue
				}
				for {
					z, ok := q.divExact(d)
					if !ok {
						break
					}
					out = append(out, fe{d, x.e})
					q = z
				}
			}
		}
		if c, ok := q.constVal(); ok && c.Cmp(ratOne) == 0 {
			continue
		}
		out = append(out, fe{q, x.e})
	}
	return out
}

func (p *Path) lnAtom(r *RF) *Atom {
	a, old := p.derived("ln", r)
	if old {
		return a
	}
	l := rfAtom(a)
	rm1 := r.sub(rfOne)
	for _, s := range []int{sPos, sNeg} {
		p.axiom(iff(sign(l, s), sign(rm1, s)))
	}
	p.axiom(sign(rm1.sub(l), sPos|sZero))
	p.monotone("ln", a)
	if r.isConst() {
		f, _ := r.c.Float64()
		v := math.Log(f)
		d := math.Abs(v)*1e-9 + 1e-12
		p.axiom(sign(l.sub(rfConst(ratOfFloat(v-d))), sPos))
		p.axiom(sign(l.sub(rfConst(ratOfFloat(v+d))), sNeg))
	}
	return a
}

// monotone relates a new exp/ln/... atom to the earlier ones of its kind.
func (p *Path) monotone(kind string, a *Atom) {
	n := 0
	for _, b := range p.facts.atoms {
		if b == a || b.kind != kind {
			continue
		}
		if n++; n > 12 {
			break
		}
		for _, s := range []int{sPos, sNeg} {
			p.axiom(iff(sign(rfAtom(a).sub(rfAtom(b)), s), sign(a.arg.sub(b.arg), s)))
		}
	}
}

// toFin gives a finite RF for x; the infinite cases are split off by the caller.
func (p *Path) toFin(x *Flt) *RF {
	switch x.k {
	case kFin:
		return x.r
	case kLog:
		return p.lnRF(x.r)
	}
	p.unsupported("toFin")
	return nil
}

func (p *Path) fneg(x *Flt) *Flt {
	switch x.k {
	case kFin:
		return fin(x.r.neg())
	case kLog:
		x = p.splitLog(x)
		if x.k == kNInf {
			return fltPInf
		}
		return mkLog(x.r.inv())
	case kPInf:
		return fltNInf
	case kNInf:
		return fltPInf
	}
	return x
}

func (p *Path) fadd(x, y *Flt) *Flt {
	if x.k == kNaN || y.k == kNaN {
		return fltNaN
	}
	if x.k == kFin && y.k == kFin {
		return fin(x.r.add(y.r))
	}
	if x.k == kPInf || y.k == kPInf {
		o := x
		if x.k == kPInf {
			o = y
		}
		o = p.splitLog(o)
		if o.k == kNInf {
			return fltNaN
		}
		return fltPInf
	}
	if x.k == kNInf || y.k == kNInf {
		return fltNInf
	}
	// at least one log, the other finite or log
	if x.k == kFin && x.r.isZero() {
		return y
	}
	if y.k == kFin && y.r.isZero() {
		return x
	}
	if x.k == kLog && y.k == kLog {
		return mkLog(x.r.mul(y.r))
	}
	return mkLog(p.logArg(x).mul(p.logArg(y)))
}

func (p *Path) fsub(x, y *Flt) *Flt {
	if x.k == kFin && y.k == kFin {
		return fin(x.r.sub(y.r))
	}
	if x.k == kNaN || y.k == kNaN {
		return fltNaN
	}
	return p.fadd(x, p.fneg(y))
}

func (p *Path) signOf(r *RF) int {
	if p.branch(sign(r, sZero)) {
		return 0
	}
	if p.branch(sign(r, sPos)) {
		return 1
	}
	return -1
}

func (p *Path) fmul(x, y *Flt) *Flt {
	if x.k == kNaN || y.k == kNaN {
		return fltNaN
	}
	if x.k == kFin && y.k == kFin {
		return p.inRange(fin(x.r.mul(y.r)))
	}
	if y.k == kFin {
		x, y = y, x
	}
	if x.k == kFin && y.k == kLog {
		if x.r.isConst() && x.r.c.IsInt() && x.r.c.Num().IsInt64() {
			k := x.r.c.Num().Int64()
			if k == 1 {
				return y
			}
			if k >= 1 && k <= 32 {
				return mkLog(y.r.pow(int(k)))
			}
			y = p.splitLog(y)
			if y.k == kNInf {
				if k == 0 {
					return fltNaN
				}
				return fltPInf
			}
			if k >= -32 {
				return mkLog(y.r.pow(int(k)))
			}
		} else {
			y = p.splitLog(y)
		}
		if y.k == kLog {
			return fin(x.r.mul(p.lnRF(y.r)))
		}
	}
	x, y = p.splitLog(x), p.splitLog(y)
	if x.k == kLog && y.k == kLog {
		return fin(p.lnRF(x.r).mul(p.lnRF(y.r)))
	}
	if x.k == kLog {
		x = fin(p.lnRF(x.r))
	}
	if y.k == kLog {
		y = fin(p.lnRF(y.r))
	}
	// infinities
	sg := func(v *Flt) int {
		switch v.k {
		case kPInf:
			return 1
		case kNInf:
			return -1
		}
		return p.signOf(v.r)
	}
	s := sg(x) * sg(y)
	switch s {
	case 0:
		return fltNaN
	case 1:
		return fltPInf
	}
	return fltNInf
}

func (p *Path) fdiv(x, y *Flt) *Flt {
	if x.k == kNaN || y.k == kNaN {
		return fltNaN
	}
	x, y = p.splitLogDiv(x), p.splitLogDiv(y)
	inf := func(v *Flt) bool { return v.k == kPInf || v.k == kNInf }
	if inf(y) {
		if inf(x) {
			return fltNaN
		}
		return fltZero
	}
	sy := 1
	if y.r.isConst() {
		sy = y.r.c.Sign()
	} else if p.branch(sign(y.r, sZero)) {
		sy = 0
	}
	if inf(x) {
		if sy != 0 {
			sy = p.signOf(y.r)
		} else {
			sy = 1 // +0
		}
		if (x.k == kPInf) == (sy > 0) {
			return fltPInf
		}
		return fltNInf
	}
	if sy == 0 {
		switch p.signOf(x.r) {
		case 0:
			return fltNaN
		case 1:
			return fltPInf
		}
		return fltNInf
	}
	return fin(x.r.mul(y.r.inv()))
}

// splitLogDiv turns a log into a plain real (or -Inf) for division.
func (p *Path) splitLogDiv(x *Flt) *Flt {
	if x.k != kLog {
		return x
	}
	x = p.splitLog(x)
	if x.k == kLog {
		return fin(p.lnRF(x.r))
	}
	return x
}

// fcmp builds the formula x (mask) y, e.g. mask sNeg for x < y.
func (p *Path) fcmp(x, y *Flt, mask int) *Formula {
	if x.k == kNaN || y.k == kNaN {
		return fF
	}
	if x.k == kFin && y.k == kFin {
		return sign(x.r.sub(y.r), mask)
	}
	if x.k == kPInf || y.k == kPInf {
		switch {
		case x.k == y.k:
			return fBool(mask&sZero != 0)
		case x.k == kPInf:
			return fBool(mask&sPos != 0)
		}
		return fBool(mask&sNeg != 0)
	}
	if (x.k == kNInf && y.k == kFin) || (x.k == kFin && y.k == kNInf) {
		if x.k == kNInf {
			return fBool(mask&sNeg != 0)
		}
		return fBool(mask&sPos != 0)
	}
	return sign(p.logArg(x).sub(p.logArg(y)), mask)
}

// fsame is mathematical identity (NaN equals NaN).
func (p *Path) fsame(x, y *Flt) *Formula {
	if x.k == kNaN || y.k == kNaN {
		return fBool(x.k == y.k)
	}
	return p.fcmp(x, y, sZero)
}

// frobust is a condition under which x and y differ clearly.
func (p *Path) frobust(x, y *Flt) *Formula { return p.fabove(x, y, false) }

// fabove is a condition under which x and y differ clearly, x being the larger
// one if so asked.
func (p *Path) fabove(x, y *Flt, above bool) *Formula {
	if x.k == kNaN || y.k == kNaN || x.k == kPInf || y.k == kPInf {
		return nil
	}
	var d *RF
	if x.k == kFin && y.k == kFin {
		d = x.r.sub(y.r)
	} else if (x.k == kLog || x.k == kNInf) && (y.k == kLog || y.k == kNInf) {
		d = p.logArg(x).sub(p.logArg(y))
	} else {
		return nil
	}
	if d.isConst() {
		return nil
	}
	e := rfConst(big.NewRat(1, 50))
	if above {
		return sign(d.sub(e), sPos)
	}
	return or(sign(d.sub(e), sPos), sign(d.add(e), sNeg))
}

func (p *Path) flog(x *Flt) *Flt {
	switch x.k {
	case kFin:
		if x.r.isZero() {
			return fltNInf
		}
		if p.branch(sign(x.r, sNeg)) {
			return fltNaN
		}
		return mkLog(x.r)
	case kPInf, kNaN:
		return x
	case kNInf:
		return fltNaN
	}
	x = p.splitLogDiv(x)
	return p.flog(x)
}

// inRange applies the range of float64 to a constant when the harness asked
// for it (nd.FloatRange): overflow to infinity, underflow to zero.
func (p *Path) inRange(x *Flt) *Flt {
	if !p.floatRange || x.k != kFin || !x.r.isConst() || x.r.isZero() {
		return x
	}
	f, _ := x.r.c.Float64()
	switch {
	case math.IsInf(f, 1):
		return fltPInf
	case math.IsInf(f, -1):
		return fltNInf
	case f == 0:
		return fltZero
	}
	return x
}

func (p *Path) fexp(x *Flt) *Flt {
	switch x.k {
	case kFin:
		if p.floatRange {
			if p.branch(sign(x.r.sub(rfConst(big.NewRat(70978, 100))), sPos)) {
				return fltPInf
			}
			if p.branch(sign(x.r.add(rfConst(big.NewRat(74513, 100))), sNeg)) {
				return fltZero
			}
		}
		return fin(p.expRF(x.r))
	case kLog:
		return p.inRange(fin(x.r))
	case kNInf:
		return fltZero
	}
	return x
}

func (p *Path) fsqrt(x *Flt) *Flt {
	switch x.k {
	case kPInf, kNaN:
		return x
	case kNInf:
		return fltNaN
	}
	x = p.splitLogDiv(x)
	if x.k == kNInf {
		return fltNaN
	}
	if p.branch(sign(x.r, sNeg)) {
		return fltNaN
	}
	return fin(p.sqrtRF(x.r))
}

func (p *Path) sqrtRF(r *RF) *RF {
	if r.isZero() {
		return rfZero
	}
	// squares come out of the root
	out := rfOne
	rest := &RF{c: r.c}
	if r.c.Sign() > 0 {
		n, d := new(big.Int).Sqrt(r.c.Num()), new(big.Int).Sqrt(r.c.Denom())
		if new(big.Int).Mul(n, n).Cmp(r.c.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.c.Denom()) == 0 {
			out = rfConst(new(big.Rat).SetFrac(n, d))
			rest.c = ratOne
		}
	}
	for _, x := range r.f {
		if x.e%2 != 0 {
			q, ok := x.p.sqrt()
			if !ok {
				rest.f = append(rest.f, x)
				continue
			}
			x = fe{q, 2 * x.e}
		}
		t := &RF{ratOne, []fe{{x.p, x.e / 2}}}
		if x.e/2%2 != 0 && p.branch(sign(rfPoly(x.p), sNeg)) {
			t = t.neg()
		}
		out = out.mul(t)
	}
	if rest.isOne() {
		return out
	}
	a, old := p.derived("sqrt", rest)
	s := rfAtom(a)
	if !old {
		p.axiom(sign(s, sPos|sZero))
		p.axiom(sign(s.mul(s).sub(rest), sZero))
		p.axiom(iff(sign(s, sZero), sign(rest, sZero)))
	}
	return out.mul(s)
}

func (p *Path) fabs(x *Flt) *Flt {
	switch x.k {
	case kNInf:
		return fltPInf
	case kPInf, kNaN:
		return x
	case kFin:
		if p.branch(sign(x.r, sNeg)) {
			return fin(x.r.neg())
		}
		return x
	}
	if p.branch(sign(x.r.sub(rfOne), sPos|sZero)) {
		return x
	}
	return p.fneg(x)
}

// floorPoly returns an integer polynomial for floor(r).
func (p *Path) floorPoly(r *RF) *Poly {
	if q, ok := r.asPoly(); ok {
		if c, ok := q.constVal(); ok {
			return polyConst(new(big.Rat).SetInt(new(big.Int).Div(c.Num(), c.Denom())))
		}
		if p.facts.polyIsInt(q) && denLCM(q).Cmp(ratOne) == 0 {
			return q
		}
	}
	a, old := p.derivedInt("floor", r)
	if !old {
		d := r.sub(rfAtom(a))
		p.axiom(sign(d, sPos|sZero))
		p.axiom(sign(d.sub(rfOne), sNeg))
		if q, ok := r.asPoly(); ok {
			iv := p.facts.interval(q)
			if iv.lo != nil {
				a.lo = new(big.Rat).SetInt64(ratFloor(iv.lo))
			}
			if iv.hi != nil {
				a.hi = new(big.Rat).SetInt64(ratFloor(iv.hi))
			}
		}
	}
	return polyAtom(a)
}

func (p *Path) derivedInt(kind string, arg *RF) (*Atom, bool) {
	k := kind + "|" + arg.key()
	if a, ok := p.uniq[k]; ok {
		return a, true
	}
	a := p.newAtom(p.fresh(kind), true, nil, nil)
	a.kind, a.arg = kind, arg
	p.uniq[k] = a
	return a, false
}

// ftoi is Go's float to integer conversion (truncation).
func (p *Path) ftoi(x *Flt) *Poly {
	x = p.splitLogDiv(x)
	if x.k != kFin {
		// implementation-defined in Go: an arbitrary machine integer
		p.usedModel["conversion of NaN/Inf to int is arbitrary"] = true
		lo, hi := new(big.Rat).SetInt64(math.MinInt64), new(big.Rat).SetInt64(math.MaxInt64)
		return polyAtom(p.newAtom(p.fresh("badconv"), true, lo, hi))
	}
	if p.branch(sign(x.r, sNeg)) {
		return p.floorPoly(x.r.neg()).neg()
	}
	return p.floorPoly(x.r)
}

func (p *Path) ffloor(x *Flt) *Flt {
	x = p.splitLogDiv(x)
	if x.k != kFin {
		return x
	}
	return fin(rfPoly(p.floorPoly(x.r)))
}

func (p *Path) fceil(x *Flt) *Flt { return p.fneg(p.ffloor(p.fneg(x))) }

func (p *Path) fround(x *Flt) *Flt {
	x = p.splitLogDiv(x)
	if x.k != kFin {
		return x
	}
	h := rfConst(big.NewRat(1, 2))
	if p.branch(sign(x.r, sNeg)) {
		return fin(rfPoly(p.floorPoly(x.r.neg().add(h)).neg()))
	}
	return fin(rfPoly(p.floorPoly(x.r.add(h))))
}

func (p *Path) fpow(x, y *Flt) *Flt {
	if y.k == kFin && y.r.isConst() && y.r.c.IsInt() && y.r.c.Num().IsInt64() && abs64(y.r.c.Num().Int64()) <= 32 {
		k := int(y.r.c.Num().Int64())
		if k == 0 {
			return fltOne
		}
		n := k
		if n < 0 {
			n = -n
		}
		r := x
		for i := 1; i < n; i++ {
			r = p.fmul(r, x)
		}
		if k < 0 {
			return p.fdiv(fltOne, r)
		}
		return r
	}
	if y.k == kFin && y.r.isConst() && y.r.c.Cmp(big.NewRat(1, 2)) == 0 {
		return p.fsqrt(x)
	}
	// x^y = exp(y ln x) for x > 0
	if x.k == kFin && y.k == kFin {
		if p.branch(sign(x.r, sPos)) {
			return p.fexp(p.fmul(y, p.flog(x)))
		}
	}
	if y.k == kLog && x.k == kFin {
		if p.branch(sign(x.r, sPos)) {
			return p.fexp(p.fmul(y, p.flog(x)))
		}
	}
	p.unsupported("math.Pow with these arguments")
	return nil
}

// number is the value of a constant.
func (x *Flt) number() (float64, bool) {
	if x.k != kFin && x.k != kLog || !x.r.isConst() {
		return 0, false
	}
	if x.k == kFin {
		f, _ := x.r.c.Float64()
		return f, !math.IsInf(f, 0)
	}
	m := new(big.Float)
	e := new(big.Float).SetPrec(64).SetRat(x.r.c).MantExp(m)
	f, _ := m.Float64()
	return math.Log(f) + float64(e)*math.Ln2, f > 0
}

// sameNum compares constants up to rounding, as the harness does natively,
// where the range of float64 is applied (nd.FloatRange): a term that
// underflows makes a difference in exact arithmetic, but not for floats.
func (p *Path) sameNum(x, y *Flt) (same, known bool) {
	if !p.floatRange {
		return false, false
	}
	a, ok := x.number()
	b, also := y.number()
	if !ok || !also {
		return false, false
	}
	return math.Abs(a-b) <= 1e-6+1e-6*math.Max(math.Abs(a), math.Abs(b)), true
}
