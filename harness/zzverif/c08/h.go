// Package c08: weight normalisation and generative gradient descent.
package c08

import (
	"math/rand"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

func vec(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = nd.Real("v", -8, 8)
	}
	return v
}

func checkNorm(v, w []float64, what string) {
	sum, min := 0.0, 0.0
	for _, x := range v {
		if x < min {
			min = x
		}
	}
	for _, x := range v {
		sum += x - min
	}
	tot := 0.0
	for i := range w {
		tot += w[i]
		nd.Assert(nd.Same(w[i]*sum, v[i]-min), what+" divides by the total, after shifting negative values up")
	}
	nd.Assert(nd.Same(tot, 1), what+" makes the weights add up to one")
}

func total(v []float64) float64 {
	sum, min := 0.0, 0.0
	for _, x := range v {
		if x < min {
			min = x
		}
	}
	for _, x := range v {
		sum += x - min
	}
	return sum
}

// Vector: learn.Normalize on any vector.
func Vector() {
	v := vec(1 + nd.Choose("n", nd.Bound("n", 4)))
	nd.Assume(total(v) > 0)
	w := append([]float64{}, v...)
	learn.Normalize(w)
	checkNorm(v, w, "Normalize")
}

// Network: NormalizeSPN normalises every sum and nothing else.
func Network() {
	network(hlib.AnyNet(nd.Bound("nodes", 4), hlib.Opt{Vars: 1, Cats: 1, Fixed: true, NoMult: true}))
}

// Big: the same on large networks.
func Big() { network(hlib.AnyBig()) }

func network(t *hlib.Net) {
	for i, n := range t.Nodes {
		if t.Kind[i] == hlib.KSum {
			w := n.(*spn.Sum).Weights()
			for k := range w {
				w[k] = nd.Real("w", -8, 8)
			}
			nd.Assume(total(w) > 0)
		}
	}
	t.Refresh()
	S := t.Nodes[t.Root]
	nd.Assert(spn.NormalizeSPN(S) == S, "NormalizeSPN returns the network")
	for i, n := range t.Nodes {
		if t.Kind[i] == hlib.KSum {
			checkNorm(t.W[i], n.(*spn.Sum).Weights(), "NormalizeSPN")
		}
		nd.Assert(len(n.Ch()) == len(t.Ch[i]), "NormalizeSPN leaves the graph alone")
	}
}

func bindP(S spn.SPN, norm bool, typ int, eta, lambda float64, batch, iter int) {
	parameters.Bind(S, parameters.New(norm, false, 0.01, typ, eta, 1, batch, lambda, iter))
}

func sameWeights(t *hlib.Net, want [][]float64, msg string) {
	for i, n := range t.Nodes {
		if t.Kind[i] == hlib.KSum {
			for k, w := range n.(*spn.Sum).Weights() {
				nd.Assert(nd.Same(w, want[i][k]), msg)
			}
		}
	}
}

func copyW(t *hlib.Net) [][]float64 {
	r := make([][]float64, len(t.W))
	for i := range t.W {
		r[i] = append([]float64{}, t.W[i]...)
	}
	return r
}

// Step: one pass of generative gradient descent adds eta times the gradient
// of each instance and renormalises.
func Step() {
	t := hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, Dec: true, NoInd: true})
	S := t.Nodes[t.Root]
	eta := nd.Real("eta", 0, 4)
	nd.Assume(eta > 0)
	norm := nd.Choose("norm", 2) == 1
	bindP(S, norm, parameters.SoftGD, eta, 0, 0, 1)
	D := spn.Dataset{}
	for i := 0; i < nd.Bound("inst", 1); i++ {
		D = append(D, t.AnyEvidence("e"))
	}
	var c common.Collection
	switch nd.Choose("c", 3) {
	case 1:
		c = &common.Queue{}
	case 2:
		c = &common.Stack{}
	}
	via := nd.Choose("via", 2)
	var keep []spn.VarSet
	for _, e := range D {
		keep = append(keep, hlib.Copy(e))
	}
	var R spn.SPN
	if via == 0 {
		R = learn.GenerativeGD(S, eta, 1, D, c, norm)
	} else {
		R = learn.Generative(S, D)
	}
	nd.Assert(R == S, "generative learning returns the network")
	for i := range D {
		nd.Assert(hlib.SameVars(D[i], keep[i]), "generative learning leaves the data alone")
	}
	for _, e := range D {
		g := t.DerivW(e)
		for i := range g {
			for k := range g[i] {
				t.W[i][k] += eta * g[i][k]
			}
			if norm && len(g[i]) > 0 {
				t.W[i] = hlib.SumsToOne(t.W[i])
			}
		}
	}
	sameWeights(t, t.W, "each weight moves by eta times its gradient (then normalised)")
}

// Batches: gradients are averaged over each batch, with weight decay.
func Batches() {
	t := hlib.AnyNet(nd.Bound("nodes", 2), hlib.Opt{Vars: 2, Cats: 2, Dec: true, NoInd: true})
	S := t.Nodes[t.Root]
	eta := nd.Real("eta", 0, 4)
	lambda := nd.Real("lambda", 0, 0.25)
	nd.Assume(eta > 0)
	norm := nd.Choose("norm", 2) == 1
	b := 2 + nd.Choose("batch", 2)
	bindP(S, norm, parameters.SoftGD, eta, lambda, b, 1)
	D := spn.Dataset{}
	n := 1 + nd.Choose("n", nd.Bound("inst", 3))
	for i := 0; i < n; i++ {
		D = append(D, t.AnyEvidence("e"))
	}
	if nd.Choose("via", 2) == 0 {
		learn.GenerativeBGD(S, eta, 1, D, nil, norm, b)
	} else {
		learn.Generative(S, D)
	}
	for s := 0; s < n; s += b {
		sum := make([][]float64, len(t.Nodes))
		for j := s; j < s+b && j < n; j++ {
			for i, g := range t.DerivW(D[j]) {
				if sum[i] == nil {
					sum[i] = make([]float64, len(g))
				}
				for k := range g {
					sum[i][k] += g[k]
				}
			}
		}
		for i := range sum {
			for k := range sum[i] {
				w := t.W[i][k]
				t.W[i][k] = w + eta*sum[i][k]/float64(b) - 2*lambda*w
			}
			if norm && len(sum[i]) > 0 {
				t.W[i] = hlib.SumsToOne(t.W[i])
			}
		}
	}
	sameWeights(t, t.W, "each batch moves a weight by the average gradient minus the weight decay")
}

// Hard: hard gradient descent moves exactly the weights of the MAP tree.
func Hard() {
	sys.Random = rand.New(nd.RandSource())
	t := hlib.AnyValid(nd.Bound("depth", 2), hlib.Opt{Vars: 2, Cats: 2, NormP: true, Dec: true})
	S := t.Nodes[t.Root]
	eta := nd.Real("eta", 0, 4)
	lambda := nd.Real("lambda", 0, 0.25)
	nd.Assume(eta > 0)
	norm := nd.Choose("norm", 2) == 1
	e := t.AnyEvidence("e")
	m := t.MaxLin(e)
	on := make([]int, len(t.Nodes)) // 1 + index of the maximising child, on the tree
	var walk func(i int)
	walk = func(i int) {
		if t.Kind[i] == hlib.KSum {
			best := -1
			for k, c := range t.Ch[i] {
				u := t.W[i][k] * m[c]
				if u == m[i] {
					nd.Assume(best < 0) // no ties
					best = k
				}
			}
			on[i] = best + 1
			walk(t.Ch[i][best])
			return
		}
		for _, c := range t.Ch[i] {
			walk(c)
		}
	}
	walk(t.Root)
	b := 1
	D := spn.Dataset{e}
	switch nd.Choose("via", 3) {
	case 0:
		bindP(S, norm, parameters.HardGD, eta, lambda, 0, 1)
		learn.GenerativeHardGD(S, eta, 1, D, nil, norm)
	case 1:
		bindP(S, norm, parameters.HardGD, eta, lambda, 0, 1)
		learn.Generative(S, D)
	case 2:
		b = 2
		bindP(S, norm, parameters.HardGD, eta, lambda, b, 1)
		learn.GenerativeHardBGD(S, eta, 1, D, nil, norm, b)
	}
	want := copyW(t)
	for i, k := range on {
		if k > 0 {
			w := t.W[i][k-1]
			want[i][k-1] = w + eta/(w*float64(b)) - 2*lambda*w
			if norm {
				want[i] = hlib.SumsToOne(want[i])
			}
		}
	}
	sameWeights(t, want, "hard gradient descent moves the weights of the MAP tree by eta c/w minus the weight decay")
}

// Passes: several passes over several instances.
func Passes() {
	sys.Random = rand.New(nd.RandSource())
	t := hlib.Sample("net")
	S := t.Nodes[t.Root]
	eta, lambda := 0.25, []float64{0, 0.125}[nd.Choose("lambda", 2)]
	norm := nd.Choose("norm", 2) == 1
	hard := nd.Choose("hard", 2) == 1
	b := 1 + nd.Choose("batch", 2)
	passes := 1 + nd.Choose("passes", nd.Bound("passes", 2))
	if !hard && b == 1 {
		lambda = 0
	}
	typ := parameters.SoftGD
	if hard {
		typ = parameters.HardGD
	}
	bindP(S, norm, typ, eta, lambda, b, passes)
	D := spn.Dataset{}
	n := 1 + nd.Choose("n", nd.Bound("inst", 2))
	for i := 0; i < n; i++ {
		D = append(D, t.AnyEvidence("e"))
	}
	var keep []spn.VarSet
	for _, e := range D {
		keep = append(keep, hlib.Copy(e))
	}
	nd.Assert(learn.Generative(S, D) == S, "generative learning returns the network")
	for i := range D {
		nd.Assert(hlib.SameVars(D[i], keep[i]), "generative learning leaves the data alone")
	}
	for p := 0; p < passes; p++ {
		for s := 0; s < n; s += b {
			var sum [][]float64
			for j := s; j < s+b && j < n; j++ {
				g := t.DerivW(D[j])
				if hard {
					g = t.MaxEdges(D[j])
				}
				if sum == nil {
					sum = g
					continue
				}
				for i := range g {
					for k := range g[i] {
						sum[i][k] += g[i][k]
					}
				}
			}
			for i := range t.W {
				moved := false
				for k, w := range t.W[i] {
					d := sum[i][k]
					if hard {
						if d == 0 {
							continue
						}
						d /= w
					}
					t.W[i][k] = w + eta*d/float64(b) - 2*lambda*w
					moved = true
				}
				if norm && moved {
					t.W[i] = hlib.SumsToOne(t.W[i])
				}
			}
		}
	}
	sameWeights(t, t.W, "after every pass each weight has moved by the updates of its batches")
}
