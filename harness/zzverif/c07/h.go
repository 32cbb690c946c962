// Package c07: derivatives.
package c07

import (
	"math"
	"math/rand"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

func coll() common.Collection {
	switch nd.Choose("collection", 3) {
	case 0:
		return &common.Queue{}
	case 1:
		return &common.Stack{}
	}
	return nil
}

func derive(t *hlib.Net, e spn.VarSet) {
	S := t.Nodes[t.Root]
	v := t.Lin(e)
	d := t.Deriv(v)
	st := spn.NewStorer()
	_, itk := spn.StoreInference(S, e, -1, st)
	c := coll()
	R, dtk := learn.DeriveSPN(S, st, -1, itk, c)
	nd.Assert(R == S, "DeriveSPN returns the network")
	_, wtk := learn.DeriveWeights(S, st, -1, dtk, itk, c)
	nd.Assert(dtk != itk && wtk != dtk && wtk != itk, "a negative ticket makes a new table")
	for i, n := range t.Nodes {
		x, ok := st.Single(dtk, n)
		nd.Assert(ok, "DeriveSPN stores a derivative for every node")
		nd.Assert(nd.Same(x, math.Log(d[i])), "DeriveSPN stores the partial derivative of the network with respect to every node")
		y, _ := st.Single(itk, n)
		nd.Assert(nd.Same(y, math.Log(v[i])), "deriving leaves the inference values alone")
		if t.Kind[i] != hlib.KSum {
			continue
		}
		for k, c := range t.Ch[i] {
			z, ok := st.Entry(wtk, n, k)
			nd.Assert(ok, "DeriveWeights stores a derivative for every weight")
			nd.Assert(nd.Same(z, math.Log(d[i]*v[c])), "DeriveWeights stores the partial derivative with respect to every weight")
			nd.Assert(nd.Same(n.(*spn.Sum).Weights()[k], t.W[i][k]), "deriving leaves the weights alone")
		}
	}
}

// Graph: any DAG, any positive parameters.
func Graph() {
	t := hlib.AnyNet(nd.Bound("nodes", 4), hlib.Opt{Vars: 2, Cats: 2, Dec: true, NoInd: true})
	derive(t, t.AnyEvidence("e"))
}

// Zeros: indicators and zero parameters.
func Zeros() {
	t := hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, ZeroW: true, NoMult: true})
	derive(t, t.AnyEvidence("e"))
}

// Batch: DeriveWeightsBatch adds up the derivatives of several instances.
func Batch() {
	t := hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, Dec: true, NoInd: true})
	S := t.Nodes[t.Root]
	st := spn.NewStorer()
	e, f := t.AnyEvidence("e"), t.AnyEvidence("f")
	wtk := -1
	c := coll()
	for _, x := range []spn.VarSet{e, f} {
		_, itk := spn.StoreInference(S, x, -1, st)
		_, dtk := learn.DeriveSPN(S, st, -1, itk, c)
		_, wtk = learn.DeriveWeightsBatch(S, st, wtk, dtk, itk, c)
	}
	a, b := t.DerivW(e), t.DerivW(f)
	for i, n := range t.Nodes {
		for k := range a[i] {
			z, ok := st.Entry(wtk, n, k)
			nd.Assert(ok, "DeriveWeightsBatch stores a derivative for every weight")
			nd.Assert(nd.Same(z, math.Log(a[i][k]+b[i][k])), "DeriveWeightsBatch adds up the derivatives of the instances")
		}
	}
}

// Hard: DeriveHard counts exactly the edges of one MAP tree.
func Hard() {
	sys.Random = rand.New(nd.RandSource())
	t := hlib.AnyValid(nd.Bound("depth", 2), hlib.Opt{Vars: 2, Cats: 2, NormP: true})
	S := t.Nodes[t.Root]
	e := t.AnyEvidence("e")
	m := t.MaxLin(e)
	st := spn.NewStorer()
	times := 1 + nd.Choose("times", 2)
	tk := -1
	for i := 0; i < times; i++ {
		tk = learn.DeriveHard(S, st, tk, e)
	}
	tab, ok := st.Table(tk)
	nd.Assert(ok, "DeriveHard returns a valid ticket")
	for i, n := range t.Nodes {
		v, has := tab.Value(n)
		if t.Kind[i] != hlib.KSum {
			nd.Assert(!has, "DeriveHard counts weights of sums only")
			continue
		}
		total := 0.0
		for k, c := range v {
			nd.Assert(k >= 0 && k < len(t.Ch[i]), "DeriveHard counts existing weights")
			nd.Assert(nd.Same(t.W[i][k]*m[t.Ch[i][k]], m[i]), "DeriveHard counts maximising children only")
			total += c
		}
		nd.Assert(total <= float64(times), "DeriveHard counts each sum at most once per instance")
		if i == t.Root {
			nd.Assert(nd.Same(total, float64(times)), "DeriveHard counts one weight of the root per instance")
		}
	}
	// one tree per instance
	if times == 1 {
		var walk func(i int)
		n := 0
		walk = func(i int) {
			if t.Kind[i] == hlib.KSum {
				v, _ := tab.Value(t.Nodes[i])
				nd.Assert(len(v) == 1, "DeriveHard counts one weight of every sum of the MAP tree")
				n++
				for k := range v {
					walk(t.Ch[i][k])
				}
				return
			}
			for _, c := range t.Ch[i] {
				walk(c)
			}
		}
		walk(t.Root)
		nd.Assert(len(tab) == n, "DeriveHard counts no sum outside the MAP tree")
	}
}

// Big: large networks.
func Big() {
	t := hlib.AnyBig()
	derive(t, t.BigEvidence("e"))
}

// Changed: derivatives follow the network when it changes.
func Changed() {
	t := hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, Dec: true, Fixed: true})
	e := t.AnyEvidence("e")
	S := t.Nodes[t.Root]
	st := spn.NewStorer()
	_, itk := spn.StoreInference(S, e, -1, st)
	_, dtk := learn.DeriveSPN(S, st, -1, itk, nil)
	learn.DeriveWeights(S, st, -1, dtk, itk, nil)
	t.Change("g")
	derive(t, e)
}

// Tiny: derivatives are exact however small the probabilities.
func Tiny() {
	t := hlib.AnyTiny(nd.Bound("leaves", 2))
	logs(t, t.TinyEvidence("e"))
}

// Dense: the same with normal leaves, whose densities are far above one or far below it.
func Dense() {
	t := hlib.AnyDense(nd.Bound("leaves", 2))
	logs(t, t.DenseEvidence("e"))
}

func logs(t *hlib.Net, e spn.VarSet) {
	S := t.Nodes[t.Root]
	v := t.LogLin(e)
	d := t.LogDeriv(v)
	st := spn.NewStorer()
	_, itk := spn.StoreInference(S, e, -1, st)
	_, dtk := learn.DeriveSPN(S, st, -1, itk, nil)
	_, wtk := learn.DeriveWeights(S, st, -1, dtk, itk, nil)
	for i, n := range t.Nodes {
		x, ok := st.Single(dtk, n)
		nd.Assert(ok && nd.Same(x, d[i]), "the derivative with respect to every node is exact")
		if t.Kind[i] == hlib.KSum {
			for k, c := range t.Ch[i] {
				z, ok := st.Entry(wtk, n, k)
				nd.Assert(ok && nd.Same(z, d[i]+v[c]), "the derivative with respect to every weight is exact")
			}
		}
	}
}
