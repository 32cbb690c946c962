package main

// Boolean formulas over sign conditions of rational functions, the syntactic
// decision procedure used before the solver is asked, and SMT-LIB rendering.

import (
	"fmt"
	"math/big"
	"strings"
)

const (
	sNeg  = 1
	sZero = 2
	sPos  = 4
	sAll  = 7
)

type fop byte

const (
	fTrue fop = iota
	fFalse
	fVar
	fNot
	fAnd
	fOr
	fSign
)

// Formula is an immutable boolean term.
type Formula struct {
	op   fop
	a, b *Formula
	v    *Atom
	rf   *RF
	mask int
}

var fT = &Formula{op: fTrue}
var fF = &Formula{op: fFalse}

func fBool(b bool) *Formula {
	if b {
		return fT
	}
	return fF
}

func not(f *Formula) *Formula {
	switch f.op {
	case fTrue:
		return fF
	case fFalse:
		return fT
	case fNot:
		return f.a
	case fSign:
		return &Formula{op: fSign, rf: f.rf, mask: sAll &^ f.mask}
	}
	return &Formula{op: fNot, a: f}
}

func and(a, b *Formula) *Formula {
	switch {
	case a.op == fFalse || b.op == fFalse:
		return fF
	case a.op == fTrue:
		return b
	case b.op == fTrue:
		return a
	}
	return &Formula{op: fAnd, a: a, b: b}
}

func or(a, b *Formula) *Formula {
	switch {
	case a.op == fTrue || b.op == fTrue:
		return fT
	case a.op == fFalse:
		return b
	case b.op == fFalse:
		return a
	}
	return &Formula{op: fOr, a: a, b: b}
}

func iff(a, b *Formula) *Formula { return or(and(a, b), and(not(a), not(b))) }

func ratSign(c *big.Rat) int {
	switch c.Sign() {
	case -1:
		return sNeg
	case 1:
		return sPos
	}
	return sZero
}

// sign returns the formula "sign(rf) in mask".
func sign(rf *RF, mask int) *Formula {
	if rf.isConst() {
		return fBool(ratSign(rf.c)&mask != 0)
	}
	if mask == sAll {
		return fT
	}
	if mask == 0 {
		return fF
	}
	return &Formula{op: fSign, rf: rf, mask: mask}
}

func mulMask(a, b int) int {
	r := 0
	if a == 0 || b == 0 {
		return 0
	}
	if (a|b)&sZero != 0 {
		r |= sZero
	}
	if (a&sPos != 0 && b&sPos != 0) || (a&sNeg != 0 && b&sNeg != 0) {
		r |= sPos
	}
	if (a&sPos != 0 && b&sNeg != 0) || (a&sNeg != 0 && b&sPos != 0) {
		r |= sNeg
	}
	return r
}

func powMask(a, e int) int {
	if e < 0 {
		e = -e
	}
	if e%2 == 1 {
		return a
	}
	r := a & sZero
	if a&(sNeg|sPos) != 0 {
		r |= sPos
	}
	return r
}

func flipMask(m int) int {
	r := m & sZero
	if m&sNeg != 0 {
		r |= sPos
	}
	if m&sPos != 0 {
		r |= sNeg
	}
	return r
}

// Facts is the syntactic knowledge gathered on a path.
type Facts struct {
	signs map[string]int // poly key -> sign mask
	bools map[int]bool
	atoms []*Atom
}

func newFacts() *Facts { return &Facts{signs: map[string]int{}, bools: map[int]bool{}} }

func (k *Facts) atomMask(id uint32) int {
	a := k.atoms[id]
	m := sAll
	if a.lo != nil {
		if a.lo.Sign() > 0 {
			m &= sPos
		} else if a.lo.Sign() == 0 {
			m &= sPos | sZero
		}
	}
	if a.hi != nil {
		if a.hi.Sign() < 0 {
			m &= sNeg
		} else if a.hi.Sign() == 0 {
			m &= sNeg | sZero
		}
	}
	p := polyAtom(a)
	if x, ok := k.signs[p.key]; ok {
		m &= x
	}
	return m
}

type ival struct{ lo, hi *big.Rat } // nil = unbounded

func (k *Facts) interval(p *Poly) ival {
	r := ival{new(big.Rat), new(big.Rat)}
	for _, t := range p.t {
		x := ival{ratOne, ratOne}
		for _, v := range t.m.p {
			a := k.atoms[v.v]
			y := ival{a.lo, a.hi}
			m := k.atomMask(v.v)
			if y.lo == nil && m&sNeg == 0 {
				y.lo = ratZero
			}
			if y.hi == nil && m&sPos == 0 {
				y.hi = ratZero
			}
			for e := uint32(0); e < v.e; e++ {
				x = ivMul(x, y)
			}
			if v.e%2 == 0 && (x.lo == nil || x.lo.Sign() < 0) && len(t.m.p) == 1 {
				x.lo = ratZero
			}
		}
		x = ivMul(x, ival{t.c, t.c})
		if r.lo != nil {
			if x.lo == nil {
				r.lo = nil
			} else {
				r.lo = new(big.Rat).Add(r.lo, x.lo)
			}
		}
		if r.hi != nil {
			if x.hi == nil {
				r.hi = nil
			} else {
				r.hi = new(big.Rat).Add(r.hi, x.hi)
			}
		}
		if r.lo == nil && r.hi == nil {
			break
		}
	}
	return r
}

func ivMul(a, b ival) ival {
	type ext struct {
		r   *big.Rat
		inf int
	}
	mul := func(x, y ext) ext {
		if x.inf == 0 && y.inf == 0 {
			return ext{r: new(big.Rat).Mul(x.r, y.r)}
		}
		sx, sy := x.inf, y.inf
		if sx == 0 {
			sx = x.r.Sign()
		}
		if sy == 0 {
			sy = y.r.Sign()
		}
		if sx*sy == 0 {
			return ext{r: ratZero}
		}
		return ext{inf: sx * sy}
	}
	mk := func(v ival) (ext, ext) {
		l, h := ext{inf: -1}, ext{inf: 1}
		if v.lo != nil {
			l = ext{r: v.lo}
		}
		if v.hi != nil {
			h = ext{r: v.hi}
		}
		return l, h
	}
	al, ah := mk(a)
	bl, bh := mk(b)
	ps := []ext{mul(al, bl), mul(al, bh), mul(ah, bl), mul(ah, bh)}
	less := func(x, y ext) bool {
		if x.inf != 0 || y.inf != 0 {
			return x.inf < y.inf
		}
		return x.r.Cmp(y.r) < 0
	}
	lo, hi := ps[0], ps[0]
	for _, p := range ps[1:] {
		if less(p, lo) {
			lo = p
		}
		if less(hi, p) {
			hi = p
		}
	}
	var r ival
	if lo.inf == 0 {
		r.lo = lo.r
	}
	if hi.inf == 0 {
		r.hi = hi.r
	}
	return r
}

// polyMask is a sound over-approximation of the possible signs of p.
func (k *Facts) polyMask(p *Poly) int {
	m := sAll
	if x, ok := k.signs[p.key]; ok {
		m &= x
	}
	if len(p.t) == 1 {
		r := ratSign(p.t[0].c)
		for _, v := range p.t[0].m.p {
			r = mulMask(r, powMask(k.atomMask(v.v), int(v.e)))
		}
		return m & r
	}
	// sum of terms
	anyNeg, anyPos, allZero, strictPos, strictNeg := false, false, true, false, false
	for _, t := range p.t {
		r := ratSign(t.c)
		for _, v := range t.m.p {
			r = mulMask(r, powMask(k.atomMask(v.v), int(v.e)))
		}
		if r&sNeg != 0 {
			anyNeg = true
		}
		if r&sPos != 0 {
			anyPos = true
		}
		if r != sZero {
			allZero = false
		}
		if r == sPos {
			strictPos = true
		}
		if r == sNeg {
			strictNeg = true
		}
	}
	switch {
	case allZero:
		m &= sZero
	case !anyNeg && strictPos:
		m &= sPos
	case !anyNeg:
		m &= sPos | sZero
	case !anyPos && strictNeg:
		m &= sNeg
	case !anyPos:
		m &= sNeg | sZero
	}
	if m == sNeg || m == sZero || m == sPos {
		return m
	}
	iv := k.interval(p)
	if iv.lo != nil {
		if iv.lo.Sign() > 0 {
			m &= sPos
		} else if iv.lo.Sign() == 0 {
			m &= sPos | sZero
		}
	}
	if iv.hi != nil {
		if iv.hi.Sign() < 0 {
			m &= sNeg
		} else if iv.hi.Sign() == 0 {
			m &= sNeg | sZero
		}
	}
	return m
}

func (k *Facts) rfMask(r *RF) int {
	m := ratSign(r.c)
	for _, x := range r.f {
		pm := k.polyMask(x.p)
		if x.e < 0 {
			pm &^= sZero
		}
		m = mulMask(m, powMask(pm, x.e))
	}
	return m
}

// decide returns 1, 0 or -1 (unknown).
func (k *Facts) decide(f *Formula) int {
	switch f.op {
	case fTrue:
		return 1
	case fFalse:
		return 0
	case fVar:
		if b, ok := k.bools[f.v.id]; ok {
			if b {
				return 1
			}
			return 0
		}
	case fNot:
		if d := k.decide(f.a); d >= 0 {
			return 1 - d
		}
	case fAnd:
		x, y := k.decide(f.a), k.decide(f.b)
		if x == 0 || y == 0 {
			return 0
		}
		if x == 1 && y == 1 {
			return 1
		}
	case fOr:
		x, y := k.decide(f.a), k.decide(f.b)
		if x == 1 || y == 1 {
			return 1
		}
		if x == 0 && y == 0 {
			return 0
		}
	case fSign:
		m := k.rfMask(f.rf)
		if m&^f.mask == 0 {
			return 1
		}
		if m&f.mask == 0 {
			return 0
		}
	}
	return -1
}

// learn records what asserting f implies syntactically.
func (k *Facts) learn(f *Formula) {
	switch f.op {
	case fVar:
		k.bools[f.v.id] = true
	case fNot:
		if f.a.op == fVar {
			k.bools[f.a.v.id] = false
		} else if f.a.op == fOr {
			k.learn(not(f.a.a))
			k.learn(not(f.a.b))
		}
	case fAnd:
		k.learn(f.a)
		k.learn(f.b)
	case fSign:
		if f.mask == (sNeg | sPos) {
			for _, x := range f.rf.f {
				k.refine(x.p, sNeg|sPos)
			}
			return
		}
		// product of factors: refine if exactly one factor is undetermined
		m := ratSign(f.rf.c)
		var open *fe
		for i := range f.rf.f {
			x := &f.rf.f[i]
			pm := k.polyMask(x.p)
			if x.e < 0 {
				pm &^= sZero
			}
			if pm == sNeg || pm == sPos || pm == sZero {
				m = mulMask(m, powMask(pm, x.e))
				continue
			}
			if open != nil {
				// strict sign: every factor is non-zero
				if f.mask&sZero == 0 {
					for _, y := range f.rf.f {
						k.refine(y.p, sNeg|sPos)
					}
				}
				return
			}
			open = x
		}
		if open == nil {
			return
		}
		want := f.mask
		if m == sNeg {
			want = flipMask(want)
		} else if m != sPos {
			return
		}
		if open.e%2 == 0 {
			w := want & sZero
			if want&sPos != 0 {
				w |= sPos | sNeg
			}
			want = w
		}
		if open.e < 0 {
			want &^= sZero
		}
		k.refine(open.p, want)
	}
}

func (k *Facts) refine(p *Poly, mask int) {
	if x, ok := k.signs[p.key]; ok {
		mask &= x
	}
	k.signs[p.key] = mask
}

// ---- rendering ----

func renderRat(c *big.Rat, asInt bool) string {
	if c.IsInt() {
		s := new(big.Int).Abs(c.Num()).String()
		if !asInt {
			s += ".0"
		}
		if c.Sign() < 0 {
			return "(- " + s + ")"
		}
		return s
	}
	s := "(/ " + new(big.Int).Abs(c.Num()).String() + ".0 " + c.Denom().String() + ".0)"
	if c.Sign() < 0 {
		return "(- " + s + ")"
	}
	return s
}

func (k *Facts) polyIsInt(p *Poly) bool {
	for _, t := range p.t {
		for _, v := range t.m.p {
			if !k.atoms[v.v].isInt {
				return false
			}
		}
	}
	return true
}

func denLCM(p *Poly) *big.Rat {
	l := big.NewInt(1)
	for _, t := range p.t {
		d := t.c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Mul(l, new(big.Int).Div(d, g))
	}
	return new(big.Rat).SetInt(l)
}

func (k *Facts) renderPoly(p *Poly, asInt bool) string {
	if len(p.t) == 0 {
		return renderRat(ratZero, asInt)
	}
	var ts []string
	for _, t := range p.t {
		var fs []string
		if t.c.Cmp(ratOne) != 0 || len(t.m.p) == 0 {
			fs = append(fs, renderRat(t.c, asInt))
		}
		for _, v := range t.m.p {
			a := k.atoms[v.v]
			n := a.name
			if a.isInt && !asInt {
				n = "(to_real " + n + ")"
			}
			for e := uint32(0); e < v.e; e++ {
				fs = append(fs, n)
			}
		}
		if len(fs) == 1 {
			ts = append(ts, fs[0])
		} else {
			ts = append(ts, "(* "+strings.Join(fs, " ")+")")
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return "(+ " + strings.Join(ts, " ") + ")"
}

// renderRF renders the value itself (as Real); denominators use division.
func (k *Facts) renderRF(r *RF) string {
	if r.isConst() {
		return renderRat(r.c, false)
	}
	var num, den []string
	if r.c.Cmp(ratOne) != 0 {
		num = append(num, renderRat(r.c, false))
	}
	for _, x := range r.f {
		s := k.renderPoly(x.p, false)
		e := x.e
		d := e < 0
		if d {
			e = -e
		}
		for i := 0; i < e; i++ {
			if d {
				den = append(den, s)
			} else {
				num = append(num, s)
			}
		}
	}
	prod := func(l []string) string {
		switch len(l) {
		case 0:
			return "1.0"
		case 1:
			return l[0]
		}
		return "(* " + strings.Join(l, " ") + ")"
	}
	if len(den) == 0 {
		return prod(num)
	}
	return "(/ " + prod(num) + " " + prod(den) + ")"
}

func (k *Facts) render(f *Formula) string {
	switch f.op {
	case fTrue:
		return "true"
	case fFalse:
		return "false"
	case fVar:
		return f.v.name
	case fNot:
		return "(not " + k.render(f.a) + ")"
	case fAnd:
		return "(and " + k.render(f.a) + " " + k.render(f.b) + ")"
	case fOr:
		return "(or " + k.render(f.a) + " " + k.render(f.b) + ")"
	}
	return k.renderSign(f)
}

func (k *Facts) renderSign(f *Formula) string {
	// zero test: some numerator factor is zero
	if f.mask == sZero || f.mask == (sNeg|sPos) {
		var zs []string
		for _, x := range f.rf.f {
			if x.e > 0 {
				if k.polyMask(x.p)&sZero == 0 {
					continue
				}
				ai := k.polyIsInt(x.p)
				p := x.p
				if ai {
					p = p.scale(denLCM(p))
				}
				zs = append(zs, "(= "+k.renderPoly(p, ai)+" "+renderRat(ratZero, ai)+")")
			}
		}
		var s string
		switch len(zs) {
		case 0:
			s = "false"
		case 1:
			s = zs[0]
		default:
			s = "(or " + strings.Join(zs, " ") + ")"
		}
		if f.mask == sZero {
			return s
		}
		return "(not " + s + ")"
	}
	mask := f.mask
	if f.rf.c.Sign() < 0 {
		mask = flipMask(mask)
	}
	allInt := true
	var use []*Poly
	for _, x := range f.rf.f {
		pm := k.polyMask(x.p)
		if x.e < 0 {
			pm &^= sZero
		}
		if pm == sPos || (pm&sZero == 0 && x.e%2 == 0) {
			continue
		}
		if pm == sNeg {
			mask = flipMask(mask)
			continue
		}
		n := 1
		if x.e%2 == 0 {
			n = 2
		}
		for i := 0; i < n; i++ {
			use = append(use, x.p)
		}
		if !k.polyIsInt(x.p) {
			allInt = false
		}
	}
	if len(use) == 0 {
		return fmt.Sprint(mask&sPos != 0)
	}
	var ts []string
	for _, p := range use {
		if allInt {
			p = p.scale(denLCM(p))
		}
		ts = append(ts, k.renderPoly(p, allInt))
	}
	e := ts[0]
	if len(ts) > 1 {
		e = "(* " + strings.Join(ts, " ") + ")"
	}
	op := ""
	switch mask {
	case sNeg:
		op = "<"
	case sNeg | sZero:
		op = "<="
	case sPos:
		op = ">"
	case sPos | sZero:
		op = ">="
	case sZero:
		op = "="
	case sAll:
		return "true"
	case 0:
		return "false"
	default:
		return "(not (= " + e + " " + renderRat(ratZero, allInt) + "))"
	}
	return "(" + op + " " + e + " " + renderRat(ratZero, allInt) + ")"
}
