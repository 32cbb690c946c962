// Package c16: classification scores.
package c16

import (
	"fmt"
	"os"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/score"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

var classes = 3

type pair struct{ p, e int }

func agree(s *score.S, m []pair, msg string) {
	hits := 0
	want := make([][]int, classes)
	for i := range want {
		want[i] = make([]int, classes)
	}
	for _, x := range m {
		if x.p == x.e {
			hits++
		}
		want[x.e][x.p]++
	}
	nd.Assert(s.Hits() == hits, msg+" counts the correct predictions")
	nd.Assert(s.Misses() == len(m)-hits, msg+" counts the wrong predictions")
	nd.Assert(s.Total() == len(m), msg+" counts the predictions")
	M := s.ConfusionMatrix(classes)
	nd.Assert(len(M) == classes, msg+" has a confusion matrix of one row per class")
	for i := range M {
		nd.Assert(len(M[i]) == classes, msg+" has a confusion matrix of one column per class")
		for j := range M[i] {
			nd.Assert(M[i][j] == want[i][j], msg+" counts every pair of expected and predicted class")
		}
	}
}

func register(s *score.S, m []pair, name string) []pair {
	p, e := nd.Choose(name+"p", 2), nd.Choose(name+"e", 2)
	s.Register(p, e)
	return append(append([]pair{}, m...), pair{p, e})
}

// Counters: scores under registering, merging, adding and clearing.
func Counters() {
	s, t := score.NewScore(), score.NewScore()
	var ms, mt []pair
	n := nd.Choose("n", nd.Bound("n", 3)+1)
	for i := 0; i < n; i++ {
		ms = register(s, ms, fmt.Sprint("s", i))
	}
	for i := 0; i < nd.Choose("m", 2); i++ {
		mt = register(t, mt, fmt.Sprint("t", i))
	}
	agree(s, ms, "a score")
	agree(t, mt, "a score")
	a := score.Add(s, t)
	ma := append(append([]pair{}, ms...), mt...)
	agree(a, ma, "a sum of scores")
	agree(s, ms, "a score that was added")
	agree(t, mt, "a score that was added")
	switch nd.Choose("then", 5) {
	case 0:
		ms = register(s, ms, "x")
	case 1:
		s.Merge(t)
		ms = append(append([]pair{}, ms...), mt...)
	case 2:
		ma = register(a, ma, "x")
	case 3:
		s.Clear()
		ms = nil
		ms = register(s, ms, "x")
	case 4:
		b := score.Add(s, s)
		agree(b, append(append([]pair{}, ms...), ms...), "a score added to itself")
		s.Merge(s)
		ms = append(append([]pair{}, ms...), ms...)
	}
	agree(s, ms, "a score")
	agree(t, mt, "a score")
	agree(a, ma, "a sum of scores")
}

// Big: scores of many predictions over many classes.
func Big() {
	classes = []int{12, 3, 40}[nd.Choose("classes", 3)]
	b := nd.Bound("big", 70)
	s, t := score.NewScore(), score.NewScore()
	var ms, mt []pair
	r := 1
	for i := 0; i < b; i++ {
		r = (r*37 + 11) % 1009
		x := pair{r % classes, (r / 3) % classes}
		if i%3 == 0 {
			x.p = x.e
		}
		if i%17 == 4 {
			x.e = nd.Int(fmt.Sprint("e", i), 0, classes-1)
		}
		if i%5 < 3 {
			s.Register(x.p, x.e)
			ms = append(ms, x)
		} else {
			t.Register(x.p, x.e)
			mt = append(mt, x)
		}
	}
	agree(s, ms, "a score")
	agree(t, mt, "a score")
	a := score.Add(s, t)
	agree(a, append(append([]pair{}, ms...), mt...), "a sum of scores")
	s.Merge(t)
	ms = append(ms, mt...)
	agree(s, ms, "a score")
	agree(t, mt, "a score")
	h, n := s.Hits(), len(ms)
	want := fmt.Sprintf("Hits: %d\nMisses: %d\nTotal: %d\nAccuracy: %.5f\nWrong predictions:\n", h, n-h, n, float64(h)/float64(n))
	for _, x := range ms {
		if x.p != x.e {
			want += fmt.Sprintf("  Expected %d, got %d.\n", x.e, x.p)
		}
	}
	nd.Assert(s.String() == want, "the textual form states the counts and the wrong predictions in order")
}

// Text: the textual form lists the counts and the wrong predictions, and is
// what is saved.
func Text() {
	s := score.NewScore()
	var m []pair
	n := 1 + nd.Choose("n", nd.Bound("n", 3))
	for i := 0; i < n; i++ {
		m = register(s, m, fmt.Sprint("s", i))
	}
	h := s.Hits()
	want := fmt.Sprintf("Hits: %d\nMisses: %d\nTotal: %d\nAccuracy: %.5f\nWrong predictions:\n", h, n-h, n, float64(h)/float64(n))
	for _, x := range m {
		if x.p != x.e {
			want += fmt.Sprintf("  Expected %d, got %d.\n", x.e, x.p)
		}
	}
	nd.Assert(s.String() == want, "the textual form states the counts and the wrong predictions in order")
	f := nd.TempDir() + "/score"
	if nd.Choose("before", 2) == 1 {
		nd.Assert(os.WriteFile(f, make([]byte, 1000), 0644) == nil, "scratch")
	}
	s.Save(f)
	b, err := os.ReadFile(f)
	nd.Assert(err == nil && string(b) == want+"\n", "the textual form is what is saved")
}

// instance data over the evidence variable, the class present or not.
func dataset(n int, t *hlib.Net, cv int) (spn.Dataset, []map[int]int, []int) {
	D := make(spn.Dataset, n)
	K := make([]map[int]int, n)
	L := make([]int, n)
	x := nd.Choose("first", t.Cats)
	had := nd.Choose("class", 2)
	for i := range D {
		D[i], K[i] = map[int]int{}, map[int]int{}
		for v := 0; v < t.Vars; v++ {
			if v != cv {
				D[i][v] = (x + i) % t.Cats
				K[i][v] = D[i][v]
			}
		}
		if had > 0 {
			D[i][cv] = (had + i) % t.Cats
			K[i][cv] = D[i][cv]
		}
		L[i] = i % t.Cats
	}
	return D, K, L
}

func intact(D spn.Dataset, K []map[int]int) {
	for i := range D {
		nd.Assert(len(D[i]) == len(K[i]), "evaluating leaves the dataset alone")
		for k, v := range K[i] {
			u, ok := D[i][k]
			nd.Assert(ok && u == v, "evaluating leaves the dataset alone")
		}
	}
}

var sizes = []int{1, 2, 3, 9, 10, 12, 20}

// net is a mixture of one or two factorised distributions with any parameters;
// the components may share the distribution of the first variable.
func net() (*hlib.Net, int) {
	t := &hlib.Net{Vars: 2, Cats: 2}
	weights := func(name string) []float64 {
		w := nd.Real(name, 0, 1)
		nd.Assume(w > 0 && w < 1)
		return []float64{w, 1 - w}
	}
	dist := func(name string, v int) int {
		return t.AddSum([]int{t.AddIndicator(v, 0), t.AddIndicator(v, 1)}, weights(name))
	}
	a := dist("a0", 0)
	t.Root = t.AddProduct([]int{a, dist("b0", 1)})
	if k := nd.Choose("mixture", 3); k > 0 {
		p := t.Root
		if k == 2 {
			a = dist("a1", 0)
		}
		q := t.AddProduct([]int{dist("b1", 1), a})
		t.Root = t.AddSum([]int{p, q}, weights("m"))
	}
	return t, nd.Choose("classvar", 2)
}

// small is a fixed family of networks: the parameters are skewed so that both
// classes are predicted.
func small() (*hlib.Net, int) {
	t := &hlib.Net{Vars: 2, Cats: 2}
	p := []float64{0.9, 0.2}
	if nd.Choose("flip", 2) == 1 {
		p[0], p[1] = p[1], p[0]
	}
	var ch []int
	for i := 0; i < 2; i++ {
		a := t.AddMultinomial(0, []float64{p[i], 1 - p[i]})
		b := t.AddMultinomial(1, []float64{0.7 - 0.5*float64(i), 0.3 + 0.5*float64(i)})
		ch = append(ch, t.AddProduct([]int{a, b}))
	}
	t.Root = t.AddSum(ch, []float64{0.625, 0.375})
	return t, nd.Choose("classvar", 2)
}

func without(I map[int]int, cv, x int) spn.VarSet {
	e := spn.VarSet{}
	for k, v := range I {
		if k != cv {
			e[k] = v
		}
	}
	if x >= 0 {
		e[cv] = x
	}
	return e
}

// counted checks the confusion matrix: ok(i, p) says whether p is a correct
// prediction for instance i.
func counted(s *score.S, L []int, c int, ok func(i, p int) (bool, string)) {
	n := len(L)
	nd.Assert(s.Total() == n, "every instance is scored once")
	M := s.ConfusionMatrix(c)
	hits := 0
	for e := 0; e < c; e++ {
		row := 0
		for p := 0; p < c; p++ {
			row += M[e][p]
			if e == p {
				hits += M[e][p]
			}
		}
		want := 0
		for _, l := range L {
			if l == e {
				want++
			}
		}
		nd.Assert(row == want, "every instance is scored against its own label")
	}
	nd.Assert(s.Hits() == hits && s.Misses() == n-hits, "hits and misses agree with the confusion matrix")
	// instances that are expected to be of class e have all the same evidence
	for e := 0; e < c && e < n; e++ {
		for p := 0; p < c; p++ {
			if M[e][p] > 0 {
				b, msg := ok(e, p)
				nd.Assert(b, msg)
			}
		}
	}
}

func evaluate(posterior int, net func() (*hlib.Net, int)) {
	t, cv := net()
	n := sizes[nd.Choose("size", nd.Bound("sizes", 5))]
	D, K, L := dataset(n, t, cv)
	s := score.NewScore()
	vr := &learn.Variable{Varid: cv, Categories: t.Cats}
	N := t.Nodes[t.Root]
	switch posterior {
	case 0:
		s.Evaluate(D, L, N, vr)
	case 1:
		s.EvaluatePosterior(D, L, N, vr)
	case 2:
		s.EvaluatePosteriorConc(D, L, N, vr, nd.Choose("jobs", nd.Bound("jobs", 5))-1)
	}
	intact(D, K)
	counted(s, L, t.Cats, func(i, p int) (bool, string) {
		if posterior == 0 {
			q, r := t.MaxLin(without(K[i], cv, p))[t.Root], t.MaxLin(without(K[i], cv, -1))[t.Root]
			return nd.Leq(r, q), "the predicted class is that of a most probable explanation"
		}
		q := t.Lin(without(K[i], cv, p))[t.Root]
		for x := 0; x < t.Cats; x++ {
			if !nd.Leq(t.Lin(without(K[i], cv, x))[t.Root], q) {
				return false, "the predicted class has the largest posterior"
			}
		}
		return true, "the predicted class has the largest posterior"
	})
}

// Map: classification by most probable explanation.
func Map() { evaluate(0, net) }

// Posterior: classification by exact posterior.
func Posterior() { evaluate(1, net) }

// Many: more instances.
func Many() { evaluate(nd.Choose("how", 2), small) }

// Concurrent: the same, concurrently.
func Concurrent() { evaluate(2, small) }

// Jobs: concurrently, on any network.
func Jobs() { evaluate(2, net) }

// Tiny: the class is found even if the probabilities of the instances are far
// below the smallest float64.
func Tiny() {
	t := hlib.AnyTiny(nd.Bound("leaves", 2))
	S := t.Nodes[t.Root]
	I := map[int]int{}
	for v := 1; v < t.Vars; v++ {
		I[v] = 0
	}
	how := nd.Choose("how", 3)
	vr := &learn.Variable{Varid: 0, Categories: 2}
	s := score.NewScore()
	D, L := spn.Dataset{I}, []int{1}
	switch how {
	case 0:
		s.Evaluate(D, L, S, vr)
	case 1:
		s.EvaluatePosterior(D, L, S, vr)
	case 2:
		s.EvaluatePosteriorConc(D, L, S, vr, 1)
	}
	p := s.ConfusionMatrix(2)[1][1]
	nd.Assert(s.Total() == 1 && s.Hits() == p, "every instance is scored once")
	v := []float64{}
	for x := 0; x < 2; x++ {
		e := without(I, 0, x)
		if how == 0 {
			v = append(v, t.LogMax(e)[t.Root])
		} else {
			v = append(v, t.LogLin(e)[t.Root])
		}
	}
	nd.Assert(nd.Leq(v[1-p], v[p]), "the predicted class is the most probable one for tiny probabilities")
}
