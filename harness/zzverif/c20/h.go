// Package c20: structure learning by independence and clustering.
package c20

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/gens"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/utils/cluster"
	"github.com/RenatoGeh/gospn/utils/indep"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

type conf struct {
	k, mp, g  int
	pval, eps float64
	cats      map[int]int
}

func close(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

func pr(s spn.SPN, e spn.VarSet) float64 { return math.Exp(s.Value(e)) }

func project(D []map[int]int, vars []int) []map[int]int {
	R := make([]map[int]int, len(D))
	for i := range D {
		R[i] = make(map[int]int)
		for _, v := range vars {
			R[i][v] = D[i][v]
		}
	}
	return R
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(a []int) []int {
	b := append([]int(nil), a...)
	sort.Ints(b)
	return b
}

// fits tells whether s is what the algorithm may learn from D over vars.
func (c *conf) fits(s spn.SPN, D []map[int]int, vars []int) bool {
	if !sameInts(sorted(s.Sc()), vars) {
		return false
	}
	if len(vars) == 1 {
		return c.leaf(s, D, vars[0])
	}
	V := make([]*utils.VarData, len(vars))
	for i, v := range vars {
		col := make([]int, len(D))
		for j := range D {
			col[j] = D[j][v]
		}
		V[i] = utils.NewVarData(v, c.cats[v], col)
	}
	K := indep.NewUFIndepGraph(V, c.pval).Kset
	if len(K) > 1 {
		if s.Type() != "product" || len(s.Ch()) != len(K) {
			return false
		}
		for _, g := range K {
			g = sorted(g)
			ok := false
			for _, ch := range s.Ch() {
				if sameInts(sorted(ch.Sc()), g) {
					ok = c.fits(ch, project(D, g), g)
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	if c.k > 0 {
		if len(D) < c.k || c.k == 1 {
			return c.factorized(s, D, vars)
		}
		if len(s.Ch()) != c.k {
			return false
		}
		return c.mixture(s, D, vars)
	}
	C := cluster.DBSCANData(D, c.eps, c.mp)
	if len(C) == 1 {
		return c.factorized(s, D, vars)
	}
	if len(s.Ch()) != len(C) {
		return false
	}
	if nd.Bound("big", 0) > 0 {
		return c.clusters(s, C, len(D), vars)
	}
	return c.mixture(s, D, vars)
}

func (c *conf) leaf(s spn.SPN, D []map[int]int, v int) bool {
	if c.g > 0 {
		return c.gauss(s, D, v)
	}
	if _, ok := s.(*spn.Multinomial); !ok {
		return false
	}
	n := c.cats[v]
	for x := 0; x < n; x++ {
		cnt := 0
		for i := range D {
			if D[i][v] == x {
				cnt++
			}
		}
		if !close(pr(s, spn.VarSet{v: x}), float64(cnt+1)/float64(len(D)+n)) {
			return false
		}
	}
	return true
}

// gauss: a mixture of equally weighted normal distributions, one for each
// block of the sorted values.
func (c *conf) gauss(s spn.SPN, D []map[int]int, v int) bool {
	m, ok := s.(*spn.Sum)
	if !ok || len(m.Ch()) == 0 || len(m.Ch()) > c.g {
		return false
	}
	X := make([]int, len(D))
	for i := range D {
		X[i] = D[i][v]
	}
	sort.Ints(X)
	W := m.Weights()
	at := 0
	// find block lengths explaining each component in turn
	var try func(i, at int) bool
	try = func(i, at int) bool {
		if i == len(W) {
			return at == len(X)
		}
		l, ok := m.Ch()[i].(*spn.Gaussian)
		if !ok || !close(W[i], 1/float64(len(W))) {
			return false
		}
		mu, sigma := l.Params()
		for e := at + 1; e <= len(X); e++ {
			n := float64(e - at)
			u, d := 0.0, 0.0
			for _, x := range X[at:e] {
				u += float64(x) / n
			}
			for _, x := range X[at:e] {
				d += (float64(x) - u) * (float64(x) - u) / n
			}
			if close(mu, u) && sigma > 0 && (close(sigma*sigma, d) || d == 0) && try(i+1, e) {
				return true
			}
		}
		return false
	}
	return try(0, at)
}

func (c *conf) factorized(s spn.SPN, D []map[int]int, vars []int) bool {
	if s.Type() != "product" || len(s.Ch()) != len(vars) {
		return false
	}
	seen := map[int]bool{}
	for _, ch := range s.Ch() {
		sc := ch.Sc()
		if len(sc) != 1 || seen[sc[0]] || !c.leaf(ch, D, sc[0]) {
			return false
		}
		seen[sc[0]] = true
	}
	return true
}

// mixture: the instances split between the children by their weights.
func (c *conf) mixture(s spn.SPN, D []map[int]int, vars []int) bool {
	m, ok := s.(*spn.Sum)
	if !ok {
		return false
	}
	W := m.Weights()
	if len(W) != len(m.Ch()) {
		return false
	}
	left := make([]int, len(W))
	for i, w := range W {
		left[i] = int(math.Floor(w*float64(len(D)) + 0.5))
		if left[i] < 1 || !close(float64(left[i]), w*float64(len(D))) {
			return false
		}
	}
	parts := make([][]map[int]int, len(W))
	var try func(i int) bool
	try = func(i int) bool {
		if i == len(D) {
			for j := range W {
				if left[j] != 0 || !c.fits(m.Ch()[j], parts[j], vars) {
					return false
				}
			}
			return true
		}
		for j := range W {
			if left[j] > 0 {
				left[j]--
				parts[j] = append(parts[j], D[i])
				if try(i + 1) {
					return true
				}
				left[j]++
				parts[j] = parts[j][:len(parts[j])-1]
			}
		}
		return false
	}
	return try(0)
}

// clusters: the children are learned from the given clusters.
func (c *conf) clusters(s spn.SPN, C [][]map[int]int, n int, vars []int) bool {
	m, ok := s.(*spn.Sum)
	if !ok || len(m.Weights()) != len(C) || len(m.Ch()) != len(C) {
		return false
	}
	used := make([]bool, len(C))
	for j, w := range m.Weights() {
		found := false
		for i, D := range C {
			if !used[i] && close(w, float64(len(D))/float64(n)) && c.fits(m.Ch()[j], D, vars) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func total(s spn.SPN, vars []int, cats map[int]int) float64 {
	e := make(spn.VarSet)
	t := 0.0
	var rec func(i int)
	rec = func(i int) {
		if i == len(vars) {
			t += pr(s, e)
			return
		}
		for x := 0; x < cats[vars[i]]; x++ {
			e[vars[i]] = x
			rec(i + 1)
		}
	}
	rec(0)
	return t
}

func setup(g int) (*conf, []map[int]int, []int, map[int]*learn.Variable) {
	n := 1 + nd.Choose("n", nd.Bound("n", 3))
	nv := 1 + nd.Choose("vars", nd.Bound("vars", 2))
	return sized(n, nv, g)
}

func sized(n, nv, g int) (*conf, []map[int]int, []int, map[int]*learn.Variable) {
	sys.Random = rand.New(nd.RandSource())
	c := &conf{g: g, cats: map[int]int{}}
	vars := []int{1, 4, 6, 7}[:nv]
	sc := make(map[int]*learn.Variable)
	for i, v := range vars {
		c.cats[v] = 2
		if i == 1 {
			c.cats[v] += nd.Bound("extra", 0)
		}
		sc[v] = &learn.Variable{Varid: v, Categories: c.cats[v], Name: fmt.Sprintf("v%d", v)}
	}
	D := make([]map[int]int, n)
	for i := range D {
		D[i] = make(map[int]int)
		for _, v := range vars {
			D[i][v] = nd.Int(fmt.Sprintf("x%d_%d", i, v), 0, c.cats[v]-1)
		}
	}
	c.pval = nd.Real("pval", 0, 1)
	c.k = nd.Choose("k", nd.Bound("k", 2)+1)
	if c.k == 0 {
		c.eps = float64(nd.Choose("eps", 4)) * 0.4
		c.mp = 1 + nd.Choose("mp", 2)
	}
	return c, D, vars, sc
}

func judge(c *conf, s spn.SPN, D []map[int]int, vars []int, sc map[int]*learn.Variable, P []map[int]int) {
	nd.Assert(s != nil, "a network is learned")
	nd.Assert(c.fits(s, P, vars), "the network is one the data call for")
	if c.g == 0 {
		nd.Assert(nd.Same(total(s, vars, c.cats), 1), "the probabilities of all states add up to one")
	}
	for i := range D {
		nd.Assert(len(D[i]) == len(P[i]), "the data are left alone")
		for v, x := range P[i] {
			nd.Assert(D[i][v] == x, "the data are left alone")
		}
	}
	nd.Assert(len(sc) == len(vars), "the scope is left alone")
	for _, v := range vars {
		nd.Assert(sc[v] != nil && sc[v].Varid == v && sc[v].Categories == c.cats[v] && sc[v].Name == fmt.Sprintf("v%d", v), "the scope is left alone")
	}
}

// Learn: discrete data.
func Learn() {
	c, D, vars, sc := setup(0)
	nd.MaxDraws(nd.Bound("draws", 5))
	P := project(D, vars)
	var s spn.SPN
	if len(D) > 2 || nd.Choose("binded", 2) == 0 {
		s = gens.Learn(sc, D, c.k, c.pval, c.eps, c.mp)
	} else {
		s = gens.Binded(c.k, c.pval, c.eps, c.mp)(sc, D)
	}
	judge(c, s, D, vars, sc, P)
}

// Wide: more variables.
func Wide() {
	c, D, vars, sc := sized(nd.Bound("n", 3), nd.Bound("vars", 3), 0)
	nd.Assume(c.k != 1 && c.mp < 2)
	nd.MaxDraws(nd.Bound("draws", 6))
	P := project(D, vars)
	s := gens.Learn(sc, D, c.k, c.pval, c.eps, c.mp)
	judge(c, s, D, vars, sc, P)
}

// Big: larger datasets, with density clustering.
func Big() {
	sys.Random = rand.New(nd.RandSource())
	n, nv := nd.Bound("big", 20), nd.Bound("vars", 5)
	c := &conf{cats: map[int]int{}}
	var vars []int
	sc := make(map[int]*learn.Variable)
	r := 1 + nd.Choose("seed", 3)
	for i := 0; i < nv; i++ {
		v := 3*i + 1
		vars = append(vars, v)
		c.cats[v] = 2 + i%3
		sc[v] = &learn.Variable{Varid: v, Categories: c.cats[v], Name: fmt.Sprintf("v%d", v)}
	}
	D := make([]map[int]int, n)
	for i := range D {
		D[i] = make(map[int]int)
		for j, v := range vars {
			r = (r*137 + 29) % 4093
			x := r % c.cats[v]
			if j >= 2 && r%7 < 5 {
				x = D[i][vars[j-2]] % c.cats[v]
			}
			D[i][v] = x
		}
	}
	c.pval = []float64{0.0001, 0.01, 0.05, 0.3}[nd.Choose("pval", 4)]
	c.eps = []float64{0.5, 1.25, 1.5, 1.9}[nd.Choose("eps", 4)]
	c.mp = 1 + nd.Choose("mp", 4)
	P := project(D, vars)
	var s spn.SPN
	switch nd.Choose("procs", 2) {
	case 0:
		s = gens.Learn(sc, D, 0, c.pval, c.eps, c.mp)
	case 1:
		s = gens.LearnConcurrent(sc, D, 0, c.pval, c.eps, c.mp, 3)
	}
	judge(c, s, D, vars, sc, P)
}

// Gauss: mixtures of normal distributions at the leaves.
func Gauss() {
	c, D, vars, sc := setup([]int{1, 2, 7}[nd.Choose("g", nd.Bound("g", 3))])
	nd.MaxDraws(nd.Bound("draws", 5))
	P := project(D, vars)
	s := gens.LearnGauss(sc, D, c.k, c.pval, c.eps, c.mp, c.g)
	judge(c, s, D, vars, sc, P)
}

// Concurrent: several workers learn the same kind of network.
func Concurrent() {
	g := nd.Choose("g", 2)
	c, D, vars, sc := setup(g)
	nd.MaxDraws(nd.Bound("draws", 5))
	P := project(D, vars)
	procs := 2 + nd.Choose("procs", 1)
	var s spn.SPN
	if g > 0 {
		s = gens.LearnGaussConcurrent(sc, D, c.k, c.pval, c.eps, c.mp, g, procs)
	} else {
		s = gens.LearnConcurrent(sc, D, c.k, c.pval, c.eps, c.mp, procs)
	}
	judge(c, s, D, vars, sc, P)
}
