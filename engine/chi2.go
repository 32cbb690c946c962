package main

// Model of the chi-squared distribution function of the numeric library: the
// value itself for constants, an increasing function into [0,1) otherwise (the
// library's refusal of negative arguments is only modelled for constants).

import (
	"fmt"
	"math"
)

// gammaP is the regularised lower incomplete gamma function.
func gammaP(a, x float64) float64 {
	if x <= 0 {
		return 0
	}
	lg, _ := math.Lgamma(a)
	if x < a+1 {
		t := 1 / a
		s := t
		for n := 1; n < 10000; n++ {
			t *= x / (a + float64(n))
			s += t
			if t < s*1e-17 {
				break
			}
		}
		return s * math.Exp(-x+a*math.Log(x)-lg)
	}
	const tiny = 1e-300
	b := x + 1 - a
	c := 1 / tiny
	d := 1 / b
	h := d
	for i := 1; i < 10000; i++ {
		an := -float64(i) * (float64(i) - a)
		b += 2
		d = an*d + b
		if math.Abs(d) < tiny {
			d = tiny
		}
		c = b + an/c
		if math.Abs(c) < tiny {
			c = tiny
		}
		d = 1 / d
		e := d * c
		h *= e
		if math.Abs(e-1) < 1e-16 {
			break
		}
	}
	return 1 - math.Exp(-x+a*math.Log(x)-lg)*h
}

func (fr *frame) chi2cdf(k, x *Flt) *Flt {
	p := fr.in.p
	kf, ok := k.concrete()
	if !ok {
		p.unsupported("chi-squared with symbolic degrees of freedom")
	}
	if f, ok := x.concrete(); ok {
		switch {
		case math.IsNaN(f):
			return fltNaN
		case f == 0:
			return fltZero
		case f < 0 || kf <= 0:
			fr.in.targetPanicStr("cephes: parameter out of bounds")
		case math.IsInf(f, 1):
			return fltOne
		}
		return fltOf(gammaP(kf/2, f/2))
	}
	if x.k == kLog {
		x = p.splitLog(x)
	}
	if x.k != kLog && x.k != kFin {
		return fr.chi2cdf(k, x)
	}
	r := p.toFin(x)
	kind := fmt.Sprintf("chi2cdf%g", kf)
	a, old := p.derived(kind, r)
	if !old {
		v := rfAtom(a)
		p.axiom(sign(v, sPos))
		p.axiom(sign(v.sub(rfOne), sNeg))
		p.monotone(kind, a)
	}
	return fin(rfAtom(a))
}
