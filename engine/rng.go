package main

import (
	"fmt"
	"math/big"
)

// Generators the code under test seeds itself: an arbitrary stream per seed,
// the same stream whenever the same seed is drawn from in the same way.

type seedSrc struct{ seed int64 }

type rngObj struct {
	seed int64
	hist string
}

func (fr *frame) rng(v value) *rngObj {
	r, _ := (*fr.ptr(v)).(*rngObj)
	return r
}

func (fr *frame) memoDraw(r *rngObj, what string, mk func() value) value {
	m, ok := fr.in.aux["seeded"].(map[string]value)
	if !ok {
		m = map[string]value{}
		fr.in.aux["seeded"] = m
	}
	r.hist += what + ";"
	k := fmt.Sprintf("%d|%s", r.seed, r.hist)
	v, ok := m[k]
	if !ok {
		fr.in.p.drew("seeded")
		fr.in.p.seeded++
		v = mk()
		m[k] = v
	}
	return v
}

func (fr *frame) rngInt(g value, kind string, n value) value {
	r := fr.rng(g)
	if r == nil {
		return fr.randInt(kind, n)
	}
	c := fr.intOf(n)
	if c <= 0 {
		fr.in.targetPanicStr("invalid argument to Intn")
	}
	return fr.memoDraw(r, fmt.Sprintf("%s%d", kind, c), func() value {
		if c == 1 {
			return int64(0)
		}
		p := fr.in.p
		return &SInt{polyAtom(p.newAtom(p.fresh("rand"), true, new(big.Rat), new(big.Rat).SetInt64(c-1)))}
	})
}

func (fr *frame) rngFloat(g value) value {
	r := fr.rng(g)
	if r == nil {
		return fr.randFloat("float")
	}
	return fr.memoDraw(r, "f", func() value {
		p := fr.in.p
		a := p.newAtom(p.fresh("randf"), false, new(big.Rat), nil)
		p.axiom(sign(rfAtom(a).sub(rfOne), sNeg))
		return fin(rfAtom(a))
	})
}

func (fr *frame) rngNorm(g value) value {
	r := fr.rng(g)
	if r == nil {
		fr.in.p.unsupported("NormFloat64")
	}
	return fr.memoDraw(r, "n", func() value {
		p := fr.in.p
		return fin(rfAtom(p.newAtom(p.fresh("randn"), false, nil, nil)))
	})
}

func (fr *frame) permOf(g value, n int) []int {
	r := make([]int, n)
	for i := range r {
		j := int(fr.intOf(fr.rngInt(g, "intn", int64(i+1))))
		r[i] = r[j]
		r[j] = i
	}
	return r
}
