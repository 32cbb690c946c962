package main

// Exact polynomial and rational-function arithmetic over solver atoms.  Every
// symbolic number the interpreter handles is kept in this canonical form; the
// SMT queries are rendered from it.

import (
	"encoding/binary"
	"math/big"
	"sort"
	"strings"
)

// Atom is a solver constant of sort Int, Real or Bool.
type Atom struct {
	id    int
	name  string
	isInt bool
	lo    *big.Rat // known bounds (inclusive), nil when unbounded
	hi    *big.Rat
	// origin of derived atoms (ln, exp, sqrt ...), used by the float layer
	kind string
	arg  *RF
}

// pw is one variable power of a monomial.
type pw struct {
	v uint32
	e uint32
}

type mono struct {
	p   []pw
	key string
}

func mkMono(p []pw) mono {
	b := make([]byte, 0, len(p)*8)
	for _, x := range p {
		b = binary.BigEndian.AppendUint32(b, x.v)
		b = binary.BigEndian.AppendUint32(b, x.e)
	}
	return mono{p, string(b)}
}

var oneMono = mkMono(nil)

func (a mono) mul(b mono) mono {
	if len(a.p) == 0 {
		return b
	}
	if len(b.p) == 0 {
		return a
	}
	r := make([]pw, 0, len(a.p)+len(b.p))
	i, j := 0, 0
	for i < len(a.p) || j < len(b.p) {
		switch {
		case j >= len(b.p) || (i < len(a.p) && a.p[i].v < b.p[j].v):
			r = append(r, a.p[i])
			i++
		case i >= len(a.p) || b.p[j].v < a.p[i].v:
			r = append(r, b.p[j])
			j++
		default:
			r = append(r, pw{a.p[i].v, a.p[i].e + b.p[j].e})
			i++
			j++
		}
	}
	return mkMono(r)
}

// div returns a/b when b divides a.
func (a mono) div(b mono) (mono, bool) {
	r := make([]pw, 0, len(a.p))
	j := 0
	for i := 0; i < len(a.p); i++ {
		if j < len(b.p) && b.p[j].v == a.p[i].v {
			if a.p[i].e < b.p[j].e {
				return mono{}, false
			}
			if a.p[i].e > b.p[j].e {
				r = append(r, pw{a.p[i].v, a.p[i].e - b.p[j].e})
			}
			j++
		} else {
			if j < len(b.p) && b.p[j].v < a.p[i].v {
				return mono{}, false
			}
			r = append(r, a.p[i])
		}
	}
	if j < len(b.p) {
		return mono{}, false
	}
	return mkMono(r), true
}

// cmp is the lexicographic order with atom 0 > atom 1 > ...
func (a mono) cmp(b mono) int {
	for i := 0; i < len(a.p) && i < len(b.p); i++ {
		x, y := a.p[i], b.p[i]
		if x.v != y.v {
			if x.v < y.v {
				return 1
			}
			return -1
		}
		if x.e != y.e {
			if x.e > y.e {
				return 1
			}
			return -1
		}
	}
	switch {
	case len(a.p) > len(b.p):
		return 1
	case len(a.p) < len(b.p):
		return -1
	}
	return 0
}

type pterm struct {
	m mono
	c *big.Rat
}

// Poly is an immutable polynomial, terms sorted from the largest monomial down.
type Poly struct {
	t   []pterm
	key string
}

func mkPoly(t []pterm) *Poly {
	var sb strings.Builder
	for _, x := range t {
		sb.WriteString(x.c.RatString())
		sb.WriteByte('*')
		sb.WriteString(x.m.key)
		sb.WriteByte('|')
	}
	return &Poly{t, sb.String()}
}

func fromMap(m map[string]pterm) *Poly {
	t := make([]pterm, 0, len(m))
	for _, x := range m {
		if x.c.Sign() != 0 {
			t = append(t, x)
		}
	}
	sort.Slice(t, func(i, j int) bool { return t[i].m.cmp(t[j].m) > 0 })
	return mkPoly(t)
}

func polyConst(c *big.Rat) *Poly {
	if c.Sign() == 0 {
		return mkPoly(nil)
	}
	return mkPoly([]pterm{{oneMono, c}})
}

func polyInt(c int64) *Poly { return polyConst(new(big.Rat).SetInt64(c)) }

func polyAtom(a *Atom) *Poly {
	return mkPoly([]pterm{{mkMono([]pw{{uint32(a.id), 1}}), big.NewRat(1, 1)}})
}

func (p *Poly) isZero() bool { return len(p.t) == 0 }

func (p *Poly) constVal() (*big.Rat, bool) {
	if len(p.t) == 0 {
		return new(big.Rat), true
	}
	if len(p.t) == 1 && len(p.t[0].m.p) == 0 {
		return p.t[0].c, true
	}
	return nil, false
}

func (p *Poly) add(q *Poly) *Poly {
	r := make([]pterm, 0, len(p.t)+len(q.t))
	i, j := 0, 0
	for i < len(p.t) || j < len(q.t) {
		c := 0
		if j >= len(q.t) {
			c = 1
		} else if i >= len(p.t) {
			c = -1
		} else {
			c = p.t[i].m.cmp(q.t[j].m)
		}
		switch {
		case c > 0:
			r = append(r, p.t[i])
			i++
		case c < 0:
			r = append(r, q.t[j])
			j++
		default:
			s := new(big.Rat).Add(p.t[i].c, q.t[j].c)
			if s.Sign() != 0 {
				r = append(r, pterm{p.t[i].m, s})
			}
			i++
			j++
		}
	}
	return mkPoly(r)
}

func (p *Poly) scale(c *big.Rat) *Poly {
	if c.Sign() == 0 {
		return mkPoly(nil)
	}
	r := make([]pterm, len(p.t))
	for i, x := range p.t {
		r[i] = pterm{x.m, new(big.Rat).Mul(x.c, c)}
	}
	return mkPoly(r)
}

var (
	ratOne  = big.NewRat(1, 1)
	ratNeg1 = big.NewRat(-1, 1)
	ratZero = new(big.Rat)
)

func (p *Poly) neg() *Poly        { return p.scale(ratNeg1) }
func (p *Poly) sub(q *Poly) *Poly { return p.add(q.neg()) }

func (p *Poly) mul(q *Poly) *Poly {
	if c, ok := p.constVal(); ok {
		return q.scale(c)
	}
	if c, ok := q.constVal(); ok {
		return p.scale(c)
	}
	m := make(map[string]pterm)
	for _, x := range p.t {
		for _, y := range q.t {
			z := x.m.mul(y.m)
			c := new(big.Rat).Mul(x.c, y.c)
			if o, ok := m[z.key]; ok {
				c.Add(c, o.c)
			}
			m[z.key] = pterm{z, c}
		}
	}
	return fromMap(m)
}

func (p *Poly) pow(e int) *Poly {
	r := polyConst(ratOne)
	for i := 0; i < e; i++ {
		r = r.mul(p)
	}
	return r
}

// divExact returns p/q when q divides p exactly.
func (p *Poly) divExact(q *Poly) (*Poly, bool) {
	if q.isZero() {
		return nil, false
	}
	var quo []pterm
	r := p
	lt := q.t[0]
	for n := 0; !r.isZero(); n++ {
		if n > 2000 {
			return nil, false
		}
		m, ok := r.t[0].m.div(lt.m)
		if !ok {
			return nil, false
		}
		c := new(big.Rat).Quo(r.t[0].c, lt.c)
		quo = append(quo, pterm{m, c})
		r = r.sub(q.mul(mkPoly([]pterm{{m, c}})))
	}
	return mkPoly(quo), true
}

// sqrt returns the monic square root of a monic polynomial that is a square.
func (p *Poly) sqrt() (*Poly, bool) {
	if p.isZero() || p.t[0].c.Cmp(ratOne) != 0 || len(p.t) > 40 {
		return nil, false
	}
	l := make([]pw, len(p.t[0].m.p))
	for i, x := range p.t[0].m.p {
		if x.e%2 != 0 {
			return nil, false
		}
		l[i] = pw{x.v, x.e / 2}
	}
	lead := pterm{mkMono(l), ratOne}
	q := mkPoly([]pterm{lead})
	for n := 0; n < 40; n++ {
		r := p.sub(q.mul(q))
		if r.isZero() {
			return q, true
		}
		m, ok := r.t[0].m.div(lead.m)
		if !ok || m.cmp(lead.m) >= 0 {
			return nil, false
		}
		q = q.add(mkPoly([]pterm{{m, new(big.Rat).Quo(r.t[0].c, big.NewRat(2, 1))}}))
	}
	return nil, false
}

// fe is a factor with its exponent; the polynomial is monic and not constant.
type fe struct {
	p *Poly
	e int
}

// RF is a rational function in factored form: c * prod p_i^e_i.
type RF struct {
	c *big.Rat
	f []fe
}

var rfZero = &RF{c: ratZero}
var rfOne = &RF{c: ratOne}

func rfConst(c *big.Rat) *RF { return &RF{c: c} }
func rfInt(i int64) *RF      { return &RF{c: new(big.Rat).SetInt64(i)} }
func (a *RF) isZero() bool   { return a.c.Sign() == 0 }
func (a *RF) isConst() bool  { return len(a.f) == 0 }
func (a *RF) isOne() bool    { return len(a.f) == 0 && a.c.Cmp(ratOne) == 0 }
func (a *RF) key() string {
	var sb strings.Builder
	sb.WriteString(a.c.RatString())
	for _, x := range a.f {
		sb.WriteByte('(')
		sb.WriteString(x.p.key)
		sb.WriteByte(')')
		sb.WriteString(big.NewInt(int64(x.e)).String())
	}
	return sb.String()
}

// rfPoly factors out content and common variables of p.
func rfPoly(p *Poly) *RF {
	if c, ok := p.constVal(); ok {
		return rfConst(c)
	}
	// common monomial
	com := append([]pw(nil), p.t[0].m.p...)
	for _, x := range p.t[1:] {
		var nc []pw
		for _, a := range com {
			for _, b := range x.m.p {
				if a.v == b.v {
					e := a.e
					if b.e < e {
						e = b.e
					}
					nc = append(nc, pw{a.v, e})
				}
			}
		}
		com = nc
	}
	lc := p.t[0].c
	cm := mkMono(com)
	inv := new(big.Rat).Inv(lc)
	var f []fe
	rest := make([]pterm, len(p.t))
	for i, x := range p.t {
		m, _ := x.m.div(cm)
		rest[i] = pterm{m, new(big.Rat).Mul(x.c, inv)}
	}
	rp := mkPoly(rest)
	if _, ok := rp.constVal(); !ok {
		f = append(f, fe{rp, 1})
	}
	for _, a := range com {
		f = append(f, fe{mkPoly([]pterm{{mkMono([]pw{{a.v, 1}}), ratOne}}), int(a.e)})
	}
	return mkRF(lc, f)
}

func rfAtom(a *Atom) *RF { return &RF{ratOne, []fe{{polyAtom(a), 1}}} }

func mkRF(c *big.Rat, f []fe) *RF {
	if c.Sign() == 0 {
		return rfZero
	}
	sort.Slice(f, func(i, j int) bool { return f[i].p.key < f[j].p.key })
	return &RF{c, f}
}

func (a *RF) mul(b *RF) *RF {
	if a.isZero() || b.isZero() {
		return rfZero
	}
	c := new(big.Rat).Mul(a.c, b.c)
	f := make([]fe, 0, len(a.f)+len(b.f))
	i, j := 0, 0
	for i < len(a.f) || j < len(b.f) {
		switch {
		case j >= len(b.f) || (i < len(a.f) && a.f[i].p.key < b.f[j].p.key):
			f = append(f, a.f[i])
			i++
		case i >= len(a.f) || b.f[j].p.key < a.f[i].p.key:
			f = append(f, b.f[j])
			j++
		default:
			if e := a.f[i].e + b.f[j].e; e != 0 {
				f = append(f, fe{a.f[i].p, e})
			}
			i++
			j++
		}
	}
	return &RF{c, f}
}

// inv is only called on values known to be non-zero on the path.
func (a *RF) inv() *RF {
	f := make([]fe, len(a.f))
	for i, x := range a.f {
		f[i] = fe{x.p, -x.e}
	}
	return &RF{new(big.Rat).Inv(a.c), f}
}

func (a *RF) neg() *RF { return &RF{new(big.Rat).Neg(a.c), a.f} }

func (a *RF) pow(k int) *RF {
	if k == 0 {
		return rfOne
	}
	b := a
	if k < 0 {
		b, k = a.inv(), -k
	}
	r := rfOne
	for i := 0; i < k; i++ {
		r = r.mul(b)
	}
	return r
}

func (a *RF) expand() *Poly {
	p := polyConst(a.c)
	for _, x := range a.f {
		p = p.mul(x.p.pow(x.e))
	}
	return p
}

// asPoly returns the expanded polynomial when there is no denominator.
func (a *RF) asPoly() (*Poly, bool) {
	for _, x := range a.f {
		if x.e < 0 {
			return nil, false
		}
	}
	return a.expand(), true
}

func (a *RF) add(b *RF) *RF {
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	var com []fe
	ra, rb := &RF{c: a.c}, &RF{c: b.c}
	i, j := 0, 0
	put := func(p *Poly, ea, eb int) {
		m := ea
		if eb < m {
			m = eb
		}
		if m != 0 {
			com = append(com, fe{p, m})
		}
		if ea > m {
			ra.f = append(ra.f, fe{p, ea - m})
		}
		if eb > m {
			rb.f = append(rb.f, fe{p, eb - m})
		}
	}
	for i < len(a.f) || j < len(b.f) {
		switch {
		case j >= len(b.f) || (i < len(a.f) && a.f[i].p.key < b.f[j].p.key):
			put(a.f[i].p, a.f[i].e, 0)
			i++
		case i >= len(a.f) || b.f[j].p.key < a.f[i].p.key:
			put(b.f[j].p, 0, b.f[j].e)
			j++
		default:
			put(a.f[i].p, a.f[i].e, b.f[j].e)
			i++
			j++
		}
	}
	s := ra.expand().add(rb.expand())
	if s.isZero() {
		return rfZero
	}
	// cancel against denominators where the division is exact
	for k := 0; k < len(com); k++ {
		for com[k].e < 0 && len(com[k].p.t) > 1 {
			q, ok := s.divExact(com[k].p)
			if !ok {
				break
			}
			s = q
			com[k].e++
		}
	}
	var cf []fe
	for _, x := range com {
		if x.e != 0 {
			cf = append(cf, x)
		}
	}
	return mkRF(ratOne, cf).mul(rfPoly(s))
}

func (a *RF) sub(b *RF) *RF { return a.add(b.neg()) }
