// Package c12: univariate leaf distributions.
package c12

import (
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/zzverif/nd"

	"math/rand"
)

var ids = []int{0, 3, 1 << 20}

func anyVar() int { return ids[nd.Choose("var", len(ids))] }

// evidence draws evidence on v (or none), possibly with another variable set.
func evidence(v, hi int) (spn.VarSet, int, bool) {
	e := spn.VarSet{}
	if nd.Choose("other", 2) == 1 {
		e[v+1] = 1
		e[v-1] = 0
	}
	if nd.Choose("set", 2) == 0 {
		return e, 0, false
	}
	x := nd.Choose("x", hi)
	e[v] = x
	return e, x, true
}

func state(m spn.VarSet, v, x int, msg string) {
	y, ok := m[v]
	nd.Assert(ok && len(m) == 1, msg+" assigns exactly the variable of the leaf")
	nd.Assert(y == x, msg+" is the expected state")
}

// multinomial checks a multinomial leaf against its distribution.
func multinomial(l spn.SPN, v int, pr []float64) {
	nd.Assert(len(l.Sc()) == 1 && l.Sc()[0] == v, "a leaf has its variable as scope")
	nd.Assert(l.Type() == "leaf" && l.SubType() == "multinomial" && len(l.Ch()) == 0, "a multinomial is a leaf")
	m := l.(*spn.Multinomial)
	nd.Assert(len(m.Pr()) == len(pr), "a multinomial has one probability per category")
	for i, p := range pr {
		nd.Assert(nd.Same(m.Pr()[i], p), "a multinomial has the expected probabilities")
	}
	max := pr[0]
	for _, p := range pr {
		if p > max {
			max = p
		}
	}
	e, x, set := evidence(v, len(pr))
	n := len(e)
	if set {
		lp := math.Log(pr[x])
		nd.Assert(nd.Same(l.Value(e), lp), "the value of a multinomial is the log-probability of the state")
		nd.Assert(nd.Same(l.Max(e), lp), "the MAP value of a set multinomial is the log-probability of the state")
		a, b := l.ArgMax(e)
		state(a, v, x, "the MAP state of a set multinomial")
		nd.Assert(nd.Same(b, lp), "the MAP state's value of a set multinomial is its log-probability")
	} else {
		nd.Assert(nd.Same(l.Value(e), 0), "an unset multinomial is summed out")
		nd.Assert(nd.Same(l.Max(e), math.Log(max)), "the MAP value of an unset multinomial is the largest log-probability")
		a, b := l.ArgMax(e)
		y, ok := a[v]
		nd.Assert(ok && len(a) == 1 && y >= 0 && y < len(pr), "the MAP state of a multinomial assigns exactly its variable")
		nd.Assert(nd.Same(pr[y], max), "the MAP state of an unset multinomial is a mode")
		nd.Assert(nd.Same(b, math.Log(max)), "the MAP state's value of an unset multinomial is its log-probability")
	}
	nd.Assert(len(e) == n, "evaluating a leaf leaves the evidence alone")
}

// Multinomial: any distribution.
func Multinomial() {
	sys.Random = rand.New(nd.RandSource())
	v := anyVar()
	n := 1 + nd.Choose("n", nd.Bound("cats", 4))
	pr := make([]float64, n)
	in := make([]float64, n)
	for i := range pr {
		pr[i] = nd.Real(fmt.Sprintf("p%d", i), 0, 1)
		in[i] = pr[i]
	}
	multinomial(spn.NewMultinomial(v, in), v, pr)
}

// Counts: a leaf learnt from counts.
func Counts() {
	sys.Random = rand.New(nd.RandSource())
	v := anyVar()
	n := 1 + nd.Choose("n", nd.Bound("cats", 4))
	c := make([]int, n)
	k := make([]int, n)
	s := 0
	for i := range c {
		c[i] = nd.Int(fmt.Sprintf("c%d", i), 0, 1<<30)
		k[i] = c[i]
		s += c[i]
	}
	pr := make([]float64, n)
	t := 0.0
	for i := range pr {
		pr[i] = float64(c[i]+1) / float64(s+n)
		t += pr[i]
	}
	var l *spn.Multinomial
	if nd.Choose("scoped", 2) == 1 {
		l = spn.NewScopedCountingMultinomial(v, []int{v}, c)
	} else {
		l = spn.NewCountingMultinomial(v, c)
	}
	multinomial(l, v, pr)
	one := 0.0
	for _, p := range l.Pr() {
		nd.Assert(p > 0, "a learnt leaf gives every category positive probability")
		one += p
	}
	nd.Assert(nd.Same(one, 1), "a learnt leaf is normalised")
	for i := range c {
		nd.Assert(c[i] == k[i], "the counts are left alone")
	}
}

// Empty: a leaf with nothing learnt is uniform.
func Empty() {
	v := anyVar()
	n := 1 + nd.Choose("n", nd.Bound("cats", 4))
	pr := make([]float64, n)
	for i := range pr {
		pr[i] = 1 / float64(n)
	}
	multinomial(spn.NewEmptyMultinomial(v, n), v, pr)
}

// Indicator: any variable, any value.
func Indicator() {
	v := anyVar()
	x := nd.Int("val", 0, 1<<20)
	l := spn.NewIndicator(v, x)
	nd.Assert(len(l.Sc()) == 1 && l.Sc()[0] == v && l.Type() == "leaf", "a leaf has its variable as scope")
	e := spn.VarSet{v + 1: x}
	want := 0.0
	if nd.Choose("set", 2) == 1 {
		u := nd.Int("ev", 0, 1<<20)
		e[v] = u
		if u != x {
			want = math.Inf(-1)
		}
	}
	nd.Assert(nd.Same(l.Value(e), want), "an indicator is one exactly if its variable is unset or has its value")
	nd.Assert(nd.Same(l.Max(e), want), "the MAP value of an indicator is its value")
	m, b := l.ArgMax(e)
	nd.Assert(nd.Same(b, want), "the MAP state's value of an indicator is its value")
	if want == 0 {
		state(m, v, x, "the MAP state of an indicator")
	}
}

// Moments: mean and standard deviation of a multinomial.
func Moments() {
	n := 1 + nd.Choose("n", nd.Bound("cats", 4))
	pr := make([]float64, n)
	rest := 1.0
	for i := 0; i < n-1; i++ {
		pr[i] = nd.Real(fmt.Sprintf("p%d", i), 0, 1)
		rest -= pr[i]
	}
	nd.Assume(rest >= 0)
	pr[n-1] = rest
	l := spn.NewMultinomial(0, append([]float64{}, pr...))
	mu, va := 0.0, 0.0
	for i, p := range pr {
		mu += p * float64(i)
		va += p * float64(i) * float64(i)
	}
	va -= mu * mu
	nd.Assert(nd.Same(l.Mean(), mu), "the mean of a multinomial is the expectation of its variable")
	s := l.StdDev()
	nd.Assert(s >= 0 && nd.Same(s*s, va), "the standard deviation of a multinomial is that of its variable")
	a, b := l.MuSigma()
	nd.Assert(nd.Same(a, mu), "the mean of a multinomial is the expectation of its variable")
	nd.Assert(b >= 0 && nd.Same(b*b, va), "the standard deviation of a multinomial is that of its variable")
}

func gaussian(g *spn.Gaussian, v int, mu, sigma float64) {
	nd.Assert(len(g.Sc()) == 1 && g.Sc()[0] == v, "a leaf has its variable as scope")
	nd.Assert(g.Type() == "leaf" && g.SubType() == "gaussian", "a Gaussian is a leaf")
	a, b := g.Params()
	nd.Assert(nd.Same(a, mu) && nd.Same(b, sigma), "a Gaussian reports its parameters")
	k := -0.918938533204672741780329736405617639861397473637783412817151540 - math.Log(sigma) // -ln sqrt(2 pi) - ln sigma
	e := spn.VarSet{v + 1: 1}
	n := 1
	if nd.Choose("set", 2) == 1 {
		x := nd.Int("x", -1000, 1000)
		e[v] = x
		n = 2
		d := float64(x) - mu
		r := l2(g.Value(e), k)
		nd.Assert(nd.Same(2*sigma*sigma*r, -d*d), "the value of a Gaussian is its log-density")
		nd.Assert(nd.Same(g.Max(e), g.Value(e)), "the MAP value of a set Gaussian is its log-density")
		m, w := g.ArgMax(e)
		state(m, v, x, "the MAP state of a set Gaussian")
		nd.Assert(nd.Same(w, g.Value(e)), "the MAP state's value of a set Gaussian is its log-density")
	} else {
		nd.Assert(nd.Same(g.Value(e), 0), "an unset Gaussian is integrated out")
		nd.Assert(nd.Same(g.Max(e), k), "the MAP value of an unset Gaussian is its density at the mean")
		m, w := g.ArgMax(e)
		y, ok := m[v]
		nd.Assert(ok && len(m) == 1, "the MAP state of a Gaussian assigns exactly its variable")
		d := float64(y) - mu
		nd.Assert(d < 0.625 && d > -0.625, "the MAP state of a Gaussian is an integer next to the mean")
		nd.Assert(nd.Leq(d, 0.5) && nd.Leq(-0.5, d), "the MAP state of a Gaussian is the integer nearest to the mean")
		nd.Assert(nd.Same(w, k), "the MAP state's value of an unset Gaussian is its density at the mean")
	}
	nd.Assert(len(e) == n, "evaluating a leaf leaves the evidence alone")
}

func l2(a, b float64) float64 { return a - b }

// Gaussian: any mean and positive deviation.
func Gaussian() {
	v := anyVar()
	mu := nd.Real("mu", -1000, 1000)
	sigma := nd.Real("sigma", 0, 1000)
	nd.Assume(sigma > 0.0001)
	gaussian(spn.NewGaussianParams(v, mu, sigma), v, mu, sigma)
}

// Degenerate: a Gaussian without deviation is a point mass.
func Degenerate() {
	v := anyVar()
	c := nd.Int("c", -1000, 1000)
	g := spn.NewGaussianParams(v, float64(c), 0)
	e := spn.VarSet{}
	if nd.Choose("set", 2) == 1 {
		x := nd.Int("x", -1000, 1000)
		e[v] = x
		want := math.Inf(-1)
		if x == c {
			want = 0
		}
		nd.Assert(nd.Same(g.Value(e), want), "a point mass is one at its mean and zero elsewhere")
		nd.Assert(nd.Same(g.Max(e), want), "the MAP value of a set point mass is its value")
		m, w := g.ArgMax(e)
		nd.Assert(nd.Same(w, want), "the MAP state's value of a set point mass is its value")
		if x == c {
			state(m, v, x, "the MAP state of a set point mass")
		}
	} else {
		nd.Assert(nd.Same(g.Value(e), 0), "an unset point mass is summed out")
		nd.Assert(nd.Same(g.Max(e), 0), "the MAP value of an unset point mass is one")
		m, w := g.ArgMax(e)
		state(m, v, c, "the MAP state of an unset point mass")
		nd.Assert(nd.Same(w, 0), "the MAP state's value of an unset point mass is one")
	}
}

// Point: a Gaussian without deviation whose mean is not whole.
func Point() {
	mu := nd.Real("mu", -1000, 1000)
	g := spn.NewGaussianParams(2, mu, 0)
	m, w := g.ArgMax(spn.VarSet{})
	nd.Assert(len(m) == 1 && nd.Same(w, g.Max(spn.VarSet{})), "the MAP state of a point mass has the MAP value")
	nd.Assert(nd.Same(g.Value(m), w) && nd.Same(g.Max(m), w), "the MAP state of a point mass is where its mass is")
	d := float64(m[2]) - mu
	nd.Assert(d < 1 && d > -1, "a point mass lies next to its mean")
	x := nd.Int("x", -1000, 1000)
	nd.Assert(x == m[2] || nd.Same(g.Value(spn.VarSet{2: x}), math.Inf(-1)), "a point mass is zero elsewhere")
}

// Samples: a Gaussian learnt from values.
func Samples() {
	n := 1 + nd.Choose("n", nd.Bound("samples", 4))
	x := make([]float64, n)
	s := 0.0
	for i := range x {
		x[i] = nd.Real(fmt.Sprintf("x%d", i), -1000, 1000)
		s += x[i]
	}
	mu := s / float64(n)
	va := 0.0
	for _, y := range x {
		va += (y - mu) * (y - mu) / float64(n)
	}
	a, b := spn.NewGaussianRaw(1, x).Params()
	nd.Assert(nd.Same(a, mu), "a Gaussian learnt from values has their mean")
	nd.Assert(b >= 0 && nd.Same(b*b, va), "a Gaussian learnt from values has their standard deviation")
}

// FromCounts: Gaussians and moments computed from counts.
func FromCounts() {
	n := 1 + nd.Choose("n", nd.Bound("cats", 4))
	c := make([]int, n)
	k := make([]int, n)
	t := 0
	for i := range c {
		c[i] = nd.Int(fmt.Sprintf("c%d", i), 0, 1<<20)
		k[i] = c[i]
		t += c[i]
	}
	nd.Assume(t > 0)
	mu := 0.0
	for i := range c {
		mu += float64(c[i]*i) / float64(t)
	}
	va := 0.0
	for i := range c {
		d := float64(i) - mu
		va += float64(c[i]) / float64(t) * d * d
	}
	switch nd.Choose("which", 3) {
	case 0:
		a, b := spn.NewGaussian(1, c).Params()
		nd.Assert(nd.Same(a, mu), "a Gaussian learnt from counts has their mean")
		nd.Assert(b >= 0 && nd.Same(b*b, va), "a Gaussian learnt from counts has their standard deviation")
	case 1:
		g := spn.NewGaussianMode(1, c)
		a, b := g.Params()
		m := int(a)
		nd.Assert(nd.Same(float64(m), a) && m >= 0 && m < n, "a Gaussian centred on the mode is centred on a category")
		for i := range c {
			nd.Assert(c[m] >= c[i], "a Gaussian centred on the mode is centred on a most frequent category")
		}
		nd.Assert(b >= 0 && nd.Same(b*b, va), "a Gaussian centred on the mode has the standard deviation of the counts")
	case 2:
		nd.Assert(nd.Same(utils.Mean(c), mu), "the mean of counts is exact")
		s := utils.StdDev(c)
		nd.Assert(s >= 0 && nd.Same(s*s, va), "the standard deviation of counts is exact")
		a, b := utils.MuSigma(c)
		nd.Assert(nd.Same(a, mu), "the mean of counts is exact")
		nd.Assert(b >= 0 && nd.Same(b*b, va), "the standard deviation of counts is exact")
	}
	for i := range c {
		nd.Assert(c[i] == k[i], "the counts are left alone")
	}
}

// Big: leaves with many categories.
func Big() {
	sys.Random = rand.New(nd.RandSource())
	v := 3
	b := nd.Bound("big", 40)
	n := []int{b, b/2 + 1, b/4 + 1}[nd.Choose("n", 3)]
	at := []int{0, n / 2, n - 1}[nd.Choose("at", 3)]
	if nd.Choose("counts", 2) == 1 {
		c := make([]int, n)
		t := 0
		for i := range c {
			c[i] = []int{3, 0, 12, 7, 12, 1, 2}[(i*i+i/7)%7]
			if i == at {
				c[i] = nd.Int("c", 0, 1<<20)
			}
			t += c[i]
		}
		pr := make([]float64, n)
		for i := range pr {
			pr[i] = float64(c[i]+1) / float64(t+n)
		}
		multinomial(spn.NewCountingMultinomial(v, c), v, pr)
		return
	}
	pr := make([]float64, n)
	for i := range pr {
		pr[i] = []float64{0.25, 0.0078125, 0, 0.0625, 0.25, 0.001953125, 0.015625}[(i*i+i/7)%7]
	}
	pr[at] = nd.Real("p", 0, 1)
	multinomial(spn.NewMultinomial(v, append([]float64{}, pr...)), v, pr)
}
