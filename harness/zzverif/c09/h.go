// Package c09: discriminative gradient descent.
package c09

import (
	"math"
	"math/rand"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

func full(t *hlib.Net, name string) spn.VarSet {
	e := spn.VarSet{}
	for v := 0; v < t.Vars; v++ {
		e[v] = nd.Choose(name, t.Cats)
	}
	return e
}

func without(e spn.VarSet, Y int) spn.VarSet {
	f := hlib.Copy(e)
	delete(f, Y)
	return f
}

// grad is the gradient of ln S(y,x) - ln S(x).
func grad(t *hlib.Net, e spn.VarSet, Y int) [][]float64 {
	f := without(e, Y)
	a, b := t.DerivW(e), t.DerivW(f)
	sa, sb := t.Lin(e)[t.Root], t.Lin(f)[t.Root]
	r := make([][]float64, len(a))
	for i := range a {
		for k := range a[i] {
			r[i] = append(r[i], a[i][k]/sa-b[i][k]/sb)
		}
	}
	return r
}

func sameWeights(t *hlib.Net, want [][]float64, msg string) {
	for i, n := range t.Nodes {
		if t.Kind[i] == hlib.KSum {
			for k, w := range n.(*spn.Sum).Weights() {
				nd.Assert(nd.Same(w, want[i][k]), msg)
			}
		}
	}
}

// Soft: one step of discriminative gradient descent.
func Soft() {
	t := hlib.AnyValid(nd.Bound("depth", 2), hlib.Opt{Vars: 2, Cats: 2, NormP: true, Dec: true, Share: true, NoInd: nd.Bound("noind", 0) == 1})
	S := t.Nodes[t.Root]
	eta := nd.Real("eta", 0, 4)
	lambda := nd.Real("lambda", 0, 0.25)
	nd.Assume(eta > 0)
	Y := nd.Choose("Y", 2)
	e := full(t, "e")
	keep := hlib.Copy(e)
	D := spn.Dataset{e}
	ys := []*learn.Variable{{Varid: Y, Categories: 2, Name: "Y"}}
	b := 1
	via := nd.Choose("via", 3)
	if via == 2 {
		b = 2
	}
	parameters.Bind(S, parameters.New(false, false, 0.01, parameters.SoftGD, eta, 1, b, lambda, 1))
	switch via {
	case 0:
		learn.DiscriminativeGD(S, eta, 1, D, ys, false)
	case 1:
		learn.Discriminative(S, D, ys)
	case 2:
		learn.DiscriminativeBGD(S, eta, 1, D, ys, false, b)
	}
	nd.Assert(hlib.SameVars(e, keep), "discriminative learning leaves the data alone")
	g := grad(t, keep, Y)
	for i := range g {
		for k := range g[i] {
			w := t.W[i][k]
			t.W[i][k] = w + eta*g[i][k]/float64(b) - 2*lambda*w
		}
	}
	sameWeights(t, t.W, "each weight moves by eta times the gradient of the conditional log-likelihood minus the weight decay")
}

// Batch: the gradients of a batch are averaged.
func Batch() {
	t := hlib.AnyValid(nd.Bound("depth", 1), hlib.Opt{Vars: 2, Cats: 2, NormP: true, Dec: true})
	S := t.Nodes[t.Root]
	eta := nd.Real("eta", 0, 4)
	nd.Assume(eta > 0)
	b := 2
	n := 1 + nd.Choose("n", nd.Bound("inst", 3))
	D := spn.Dataset{}
	for i := 0; i < n; i++ {
		D = append(D, full(t, "e"))
	}
	ys := []*learn.Variable{{Varid: 0, Categories: 2, Name: "Y"}}
	parameters.Bind(S, parameters.New(false, false, 0.01, parameters.SoftGD, eta, 1, b, 0, 1))
	learn.Discriminative(S, D, ys)
	for s := 0; s < n; s += b {
		add := make([][]float64, len(t.Nodes))
		for j := s; j < s+b && j < n; j++ {
			for i, g := range grad(t, D[j], 0) {
				if add[i] == nil {
					add[i] = make([]float64, len(g))
				}
				for k := range g {
					add[i][k] += g[k]
				}
			}
		}
		for i := range add {
			for k := range add[i] {
				t.W[i][k] += eta * add[i][k] / float64(b)
			}
		}
	}
	sameWeights(t, t.W, "each batch moves a weight by the average of its gradients")
}

// Hard: the hard variant counts MAP edges with and without the class.
func Hard() {
	sys.Random = rand.New(nd.RandSource())
	t := hlib.AnyValid(nd.Bound("depth", 2), hlib.Opt{Vars: 2, Cats: 2, NormP: true, Dec: true})
	S := t.Nodes[t.Root]
	eta := nd.Real("eta", 0, 4)
	lambda := nd.Real("lambda", 0, 0.25)
	nd.Assume(eta > 0)
	Y := nd.Choose("Y", 2)
	e := full(t, "e")
	keep := hlib.Copy(e)
	cnt := make([][]float64, len(t.Nodes))
	for i := range cnt {
		cnt[i] = make([]float64, len(t.Ch[i]))
	}
	for s, f := range []spn.VarSet{e, without(e, Y)} {
		m := t.MaxLin(f)
		var walk func(i int)
		walk = func(i int) {
			if t.Kind[i] == hlib.KSum {
				best := -1
				for k, c := range t.Ch[i] {
					if t.W[i][k]*m[c] == m[i] {
						nd.Assume(best < 0) // no ties
						best = k
					}
				}
				cnt[i][best] += 1 - 2*float64(s)
				walk(t.Ch[i][best])
				return
			}
			for _, c := range t.Ch[i] {
				walk(c)
			}
		}
		walk(t.Root)
	}
	ys := []*learn.Variable{{Varid: Y, Categories: 2, Name: "Y"}}
	b := 1
	via := nd.Choose("via", 2)
	if via == 1 {
		b = 2
	}
	parameters.Bind(S, parameters.New(false, false, 0.01, parameters.HardGD, eta, 1, b, lambda, 1))
	if via == 0 {
		learn.DiscriminativeHardGD(S, eta, 1, spn.Dataset{e}, ys, false)
	} else {
		learn.Discriminative(S, spn.Dataset{e}, ys)
	}
	nd.Assert(hlib.SameVars(e, keep), "hard discriminative learning leaves the data alone")
	for i := range cnt {
		for k, c := range cnt[i] {
			if t.Kind[i] == hlib.KSum && c != 0 {
				w := t.W[i][k]
				t.W[i][k] = w + eta*c/(w*float64(b)) - 2*lambda*w
			}
		}
	}
	sameWeights(t, t.W, "hard discriminative descent moves a weight by eta (c - c')/w, where the MAP trees with and without the class differ")
}

// Passes: several passes over several instances, one or two class variables.
func Passes() {
	sys.Random = rand.New(nd.RandSource())
	t := hlib.Sample("net")
	S := t.Nodes[t.Root]
	eta, lambda := 0.03125, []float64{0, 0.125}[nd.Choose("lambda", 2)]
	norm := nd.Choose("norm", 2) == 1
	hard := nd.Choose("hard", 2) == 1
	passes := 1 + nd.Choose("passes", nd.Bound("passes", 2))
	n := 1 + nd.Choose("n", nd.Bound("inst", 2))
	b := 1 + nd.Choose("batch", n)
	nd.Assume(n%b == 0)
	D := spn.Dataset{}
	var keep []spn.VarSet
	for i := 0; i < n; i++ {
		D = append(D, full(t, "e"))
		keep = append(keep, hlib.Copy(D[i]))
	}
	var Y []int
	switch nd.Choose("Y", 3) {
	case 0:
		Y = []int{0}
	case 1:
		Y = []int{1}
	default:
		Y = []int{1, 0}
	}
	var ys []*learn.Variable
	for _, v := range Y {
		ys = append(ys, &learn.Variable{Varid: v, Categories: 2, Name: "Y"})
	}
	typ := parameters.SoftGD
	if hard {
		typ = parameters.HardGD
	}
	parameters.Bind(S, parameters.New(norm, false, 0.01, typ, eta, 1, b, lambda, passes))
	nd.Assert(learn.Discriminative(S, D, ys) == S, "discriminative learning returns the network")
	for i := range D {
		nd.Assert(hlib.SameVars(D[i], keep[i]), "discriminative learning leaves the data alone")
	}
	for p := 0; p < passes; p++ {
		for s := 0; s < n; s += b {
			add := make([][]float64, len(t.Nodes))
			for j := s; j < s+b; j++ {
				e := hlib.Copy(keep[j])
				f := hlib.Copy(e)
				for _, v := range Y {
					delete(f, v)
				}
				g, h := t.DerivW(e), t.DerivW(f)
				sg, sh := t.Lin(e)[t.Root], t.Lin(f)[t.Root]
				if hard {
					g, h = t.MaxEdges(e), t.MaxEdges(f)
					sg, sh = 1, 1
				}
				for i := range t.W {
					if add[i] == nil {
						add[i] = make([]float64, len(t.W[i]))
					}
					for k := range t.W[i] {
						add[i][k] += g[i][k]/sg - h[i][k]/sh
					}
				}
			}
			for i := range t.W {
				for k, w := range t.W[i] {
					d := add[i][k]
					if hard {
						if d == 0 {
							continue
						}
						d /= w
					}
					t.W[i][k] = w + eta*d/float64(b) - 2*lambda*w
				}
				if norm && len(t.W[i]) > 0 {
					t.W[i] = hlib.SumsToOne(t.W[i])
				}
			}
		}
	}
	sameWeights(t, t.W, "after every pass each weight has moved by the updates of its batches")
}

// Tiny: a step is exact even if the probability of the instance is far below
// the smallest float64.
func Tiny() {
	t := hlib.AnyTiny(nd.Bound("leaves", 2))
	S := t.Nodes[t.Root].(*spn.Sum)
	e := t.TinyEvidence("e")
	e[0] = nd.Choose("class", 2)
	e[t.Vars-1] = 0
	ys := []*learn.Variable{{Varid: 0, Categories: 2, Name: "Y"}}
	eta := 0.5
	parameters.Bind(S, parameters.New(false, false, 0.01, parameters.SoftGD, eta, 1, 1, 0, 1))
	learn.DiscriminativeGD(S, eta, 1, spn.Dataset{hlib.Copy(e)}, ys, false)
	a, b := t.LogLin(e), t.LogLin(without(e, 0))
	for k, c := range t.Ch[t.Root] {
		w := t.W[t.Root][k] + eta*(math.Exp(a[c]-a[t.Root])-math.Exp(b[c]-b[t.Root]))
		nd.Assert(nd.Same(S.Weights()[k], w), "a step is exact for tiny probabilities")
	}
}
