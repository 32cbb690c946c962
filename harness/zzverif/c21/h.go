// Package c21: structure learning from images and region graphs.
package c21

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/dennis"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/learn/poon"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// valid checks that S is a complete and decomposable network over exactly the
// first n variables, with leaves that are normal distributions fitted to
// blocks of the sorted values of their variable.
func valid(S spn.SPN, n int, D []map[int]int, normal bool) {
	nd.Assert(S != nil, "a network is learned")
	memo := make(map[spn.SPN]map[int]bool)
	on := make(map[spn.SPN]bool)
	var rec func(s spn.SPN) map[int]bool
	rec = func(s spn.SPN) map[int]bool {
		if m, ok := memo[s]; ok {
			return m
		}
		nd.Assert(!on[s], "the network has no cycles")
		on[s] = true
		m := make(map[int]bool)
		switch s.Type() {
		case "leaf":
			g, ok := s.(*spn.Gaussian)
			nd.Assert(ok && len(g.Sc()) == 1, "leaves are univariate normal distributions")
			v := g.Sc()[0]
			nd.Assert(v >= 0 && v < n, "leaves are over the variables given")
			nd.Assert(fitted(g, v, D), "leaves are fitted to the values of their variable")
			m[v] = true
		case "sum":
			z := s.(*spn.Sum)
			ch, w := z.Ch(), z.Weights()
			nd.Assert(len(ch) > 0 && len(ch) == len(w), "sums have children, each with a weight")
			t := 0.0
			for _, x := range w {
				nd.Assert(x > 0, "weights are positive")
				t += x
			}
			if normal {
				nd.Assert(nd.Same(t, 1), "weights add up to one")
			}
			for i, c := range ch {
				u := rec(c)
				if i == 0 {
					for v := range u {
						m[v] = true
					}
				}
				ok := len(u) == len(m)
				for v := range u {
					ok = ok && m[v]
				}
				nd.Assert(ok, "the network is complete")
			}
		case "product":
			nd.Assert(len(s.Ch()) > 0, "products have children")
			for _, c := range s.Ch() {
				for v := range rec(c) {
					nd.Assert(!m[v], "the network is decomposable")
					m[v] = true
				}
			}
		default:
			nd.Assert(false, "nodes are sums, products and leaves")
		}
		on[s] = false
		memo[s] = m
		return m
	}
	nd.Assert(len(rec(S)) == n, "the network is over exactly the variables given")
}

func fitted(g *spn.Gaussian, v int, D []map[int]int) bool {
	X := make([]int, len(D))
	for i := range D {
		X[i] = D[i][v]
	}
	sort.Ints(X)
	mu, sigma := g.Params()
	if !(sigma >= 0) || math.IsInf(sigma, 0) || math.IsNaN(mu) {
		return false
	}
	for b := 0; b < len(X); b++ {
		for e := b + 1; e <= len(X); e++ {
			n := float64(e - b)
			u, d := 0.0, 0.0
			for _, x := range X[b:e] {
				u += float64(x) / n
			}
			for _, x := range X[b:e] {
				d += (float64(x) - u) * (float64(x) - u) / n
			}
			if math.Abs(mu-u) < 1e-9 && (math.Abs(sigma*sigma-d) < 1e-9 || d == 0) {
				return true
			}
		}
	}
	return false
}

func data(n, vars, vals int) ([]map[int]int, []map[int]int) {
	D := make([]map[int]int, n)
	P := make([]map[int]int, n)
	for i := range D {
		D[i], P[i] = make(map[int]int), make(map[int]int)
		for v := 0; v < vars; v++ {
			D[i][v] = nd.Choose(fmt.Sprintf("x%d_%d", i, v), vals)
			P[i][v] = D[i][v]
		}
	}
	return D, P
}

func unchanged(D, P []map[int]int) {
	for i := range D {
		nd.Assert(len(D[i]) == len(P[i]), "the data are left alone")
		for v, x := range P[i] {
			nd.Assert(D[i][v] == x, "the data are left alone")
		}
	}
}

// Regions: the region graph learner.
func Regions() {
	sys.Random = rand.New(nd.RandSource())
	n := 1 + nd.Choose("n", nd.Bound("n", 2))
	vars := 2 + nd.Choose("vars", nd.Bound("vars", 1))
	nd.Assume(n*(vars-1) <= nd.Bound("size", 2))
	D, P := data(n, vars, nd.Bound("vals", 2))
	sc := make(map[int]*learn.Variable)
	for v := 0; v < vars; v++ {
		sc[v] = &learn.Variable{Varid: v, Categories: 2}
	}
	k := nd.Choose("k", nd.Bound("k", 1)+1)
	nd.Assume(k <= n)
	m := 1 + nd.Choose("m", nd.Bound("m", 2))
	g := 1 + nd.Choose("g", nd.Bound("g", 2))
	nd.MaxGlobal(nd.Bound("draws", 4))
	t := nd.Real("t", 0, 1)
	S := dennis.Structure(D, sc, k, m, g, t)
	valid(S, vars, D, true)
	unchanged(D, P)
}

// Rectangles: the image learner.
func Rectangles() {
	sys.Random = rand.New(nd.RandSource())
	n := 1 + nd.Choose("n", nd.Bound("n", 1))
	sys.Width = 1 + nd.Choose("w", nd.Bound("w", 2))
	sys.Height = 1 + nd.Choose("h", nd.Bound("h", 2))
	vars := sys.Width * sys.Height
	nd.Assume(vars > 1 && vars <= nd.Bound("area", 4))
	D, P := data(n, vars, nd.Bound("vals", 2))
	m := 1 + nd.Choose("m", nd.Bound("m", 2))
	g := 1 + nd.Choose("g", nd.Bound("g", 2))
	S := poon.Structure(D, m, g, 1)
	valid(S, vars, D, false)
	unchanged(D, P)
}

// Strip: three one-row images of four pixels, two of them given.
func Strip() {
	sys.Random = rand.New(nd.RandSource())
	sys.Width, sys.Height = 4, 1
	D := []map[int]int{{0: 0, 1: 0, 2: 1, 3: 0}, {0: 0, 1: 0, 2: 0, 3: 0}, {1: 0, 2: 1}}
	D[2][0], D[2][3] = nd.Choose("x", nd.Bound("free", 1)), nd.Choose("y", nd.Bound("free", 1))
	P := make([]map[int]int, 3)
	for i := range P {
		P[i] = map[int]int{}
		for v, x := range D[i] {
			P[i][v] = x
		}
	}
	S := poon.Structure(D, 3, 2, 1)
	valid(S, 4, D, false)
	unchanged(D, P)
}

// Block: an image that is a single coarse block.
func Block() {
	sys.Random = rand.New(nd.RandSource())
	sys.Width, sys.Height = 2, 2
	n := 1 + nd.Choose("n", nd.Bound("n", 1))
	D, P := data(n, 4, nd.Bound("vals", 2))
	S := poon.Structure(D, 1+nd.Choose("m", 2), 1+nd.Choose("g", 2), 2)
	valid(S, 4, D, false)
	unchanged(D, P)
}

// Three: region graphs of three variables, two of them more alike, with any
// numbers of nodes per region.
func Three() {
	sys.Random = rand.New(nd.RandSource())
	odd := nd.Choose("odd", 3)
	D := make([]map[int]int, 2)
	P := make([]map[int]int, 2)
	for i := range D {
		D[i], P[i] = make(map[int]int), make(map[int]int)
		for v := 0; v < 3; v++ {
			x := i + 2*v
			if v == odd {
				x = 90 - 50*i
			}
			D[i][v], P[i][v] = x, x
		}
	}
	sc := make(map[int]*learn.Variable)
	for v := 0; v < 3; v++ {
		sc[v] = &learn.Variable{Varid: v, Categories: 100}
	}
	m := 1 + nd.Choose("m", nd.Bound("m", 3))
	g := 1 + nd.Choose("g", nd.Bound("g", 2))
	nd.MaxGlobal(nd.Bound("draws", 8))
	S := dennis.Structure(D, sc, 1, m, g, 0.95)
	valid(S, 3, D, true)
	unchanged(D, P)
}

// Learned: the learners that go on to fit the weights.
func Learned() {
	nd.FloatRange()
	sys.Random = rand.New(nd.RandSource())
	nd.MaxGlobal(nd.Bound("draws", 8))
	sys.Width, sys.Height, sys.Max = 2, 1, 2
	n := nd.Bound("n", 2)
	D, P := data(n, 2, 2)
	old, _ := os.Getwd()
	os.Chdir(nd.TempDir())
	defer os.Chdir(old)
	m, g := 1+nd.Choose("m", nd.Bound("m", 2)), 1+nd.Choose("g", nd.Bound("g", 2))
	sc := map[int]*learn.Variable{0: {Varid: 0, Categories: 2}, 1: {Varid: 1, Categories: 2}}
	var S spn.SPN
	switch nd.Choose("learner", 3) {
	case 0:
		S = poon.LearnGD(D, m, g, 1, 0.1, 1)
	case 1:
		S = poon.BindedGD(m, g, 1, 0.1, 1)(sc, D)
	case 2:
		S = dennis.LearnGD(D, sc, 1, m, g, 0.95, parameters.New(true, false, 0.01, parameters.HardGD, 0.1, 1, 1, 0.1, 1), 0)
	}
	valid(S, 2, D, true)
	unchanged(D, P)
}
