package main

// Happens-before tracking: two accesses of the same memory from different
// goroutines, one of them a write, that no synchronisation orders are reported
// as a candidate, confirmed by a native run under the race detector.

import "fmt"

type vclock []int32

func (c vclock) at(i int) int32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (c *vclock) set(i int, v int32) {
	for len(*c) <= i {
		*c = append(*c, 0)
	}
	(*c)[i] = v
}

func (c *vclock) join(o vclock) {
	for i, v := range o {
		if v > c.at(i) {
			c.set(i, v)
		}
	}
}

func (c vclock) copy() vclock { return append(vclock(nil), c...) }

type access struct {
	g   int
	clk int32
	pos string
}

type shadow struct {
	w  access
	hw bool
	r  []access // latest read of each goroutine
}

func (g *gor) tick() { g.vc.set(g.id, g.vc.at(g.id)+1) }

// release publishes the clock of g to an object.
func (in *interp) release(g *gor, o *vclock) {
	if len(in.all) < 2 {
		return
	}
	o.join(g.vc)
	g.tick()
}

func (in *interp) acquire(g *gor, o vclock) {
	if len(in.all) < 2 {
		return
	}
	g.vc.join(o)
}

func (fr *frame) touch(a *value, write bool) {
	in := fr.in
	if len(in.all) < 2 || in.norace > 0 {
		return
	}
	in.access(fr, a, write)
	switch v := (*a).(type) {
	case structure:
		for i := range v {
			fr.touch(&v[i], write)
		}
	case array:
		for i := range v {
			fr.touch(&v[i], write)
		}
	}
}

func (fr *frame) touchMap(m *Map, write bool) {
	if m == nil || len(fr.in.all) < 2 || fr.in.norace > 0 {
		return
	}
	fr.in.access(fr, m, write)
}

func (in *interp) access(fr *frame, key any, write bool) {
	g := fr.g
	if g.vc == nil {
		g.tick()
	}
	s := in.shadows[key]
	if s == nil {
		s = &shadow{}
		in.shadows[key] = s
	}
	me := access{g: g.id, clk: g.vc.at(g.id)}
	if s.hw && s.w.g != g.id && s.w.clk > g.vc.at(s.w.g) {
		in.race(fr, write, true)
	}
	if write {
		for _, r := range s.r {
			if r.g != g.id && r.clk > g.vc.at(r.g) {
				in.race(fr, write, false)
			}
		}
		s.w, s.hw, s.r = me, true, nil
		return
	}
	for i := range s.r {
		if s.r[i].g == g.id {
			s.r[i] = me
			return
		}
	}
	s.r = append(s.r, me)
}

func (in *interp) race(fr *frame, write, other bool) {
	n := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	in.p.violate("race", fmt.Sprintf("unsynchronised %s after a concurrent %s in %s", n(write), n(other), fr.fn), nil, nil)
}
