// Package c01: soft inference computes the network polynomial.
package c01

import (
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

func verify(t *hlib.Net, e spn.VarSet) {
	S := t.Nodes[t.Root]
	lin := t.Lin(e)
	before := hlib.Copy(e)
	want := math.Log(lin[t.Root])
	nd.Assert(nd.Same(spn.Inference(S, e), want), "Inference is the log of the network polynomial")
	nd.Assert(nd.Same(S.Value(e), want), "Value is the log of the network polynomial")
	st := spn.NewStorer()
	R, tk := spn.StoreInference(S, e, -1, st)
	nd.Assert(R == S, "StoreInference returns the network it was given")
	tab, ok := st.Table(tk)
	nd.Assert(ok, "StoreInference returns a valid ticket")
	if ok {
		for i, n := range t.Nodes {
			v, has := tab.Single(n)
			nd.Assert(has, "StoreInference stores a value for every node")
			nd.Assert(nd.Same(v, math.Log(lin[i])), "StoreInference stores the value of every node")
		}
	}
	nd.Assert(hlib.SameVars(e, before), "inference leaves the evidence unchanged")
}

// Graph: arbitrary DAG, node types and parameters.
func Graph() {
	t := hlib.AnyNet(nd.Bound("nodes", 4), hlib.Opt{Vars: nd.Bound("vars", 2), Cats: 2, Dec: true})
	verify(t, t.AnyEvidence("e"))
}

// Zeros: the same with weights and probabilities that may be zero.
func Zeros() {
	t := hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, ZeroW: true, ZeroP: true})
	verify(t, t.AnyEvidence("e"))
}

// Leaf: a network that consists of a single leaf.
func Leaf() {
	t := hlib.AnyNet(1, hlib.Opt{Vars: 2, Cats: 3, ZeroP: true})
	verify(t, t.AnyEvidence("e"))
}

// Valid: complete and decomposable networks with shared nodes.
func Valid() {
	t := hlib.AnyValid(nd.Bound("depth", 3), hlib.Opt{Vars: nd.Bound("vars", 2), Cats: 2, Share: true, Dec: true})
	verify(t, t.AnyEvidence("e"))
}

// WithY: InferenceY(S, I, Y, y) is the value with Y=y added to (or replacing
// part of) the evidence.
func WithY() {
	t := hlib.AnyNet(nd.Bound("nodes", 4), hlib.Opt{Vars: 2, Cats: 2, Dec: true})
	e := t.AnyEvidence("e")
	Y := nd.Choose("Y", t.Vars)
	y := nd.Choose("y", t.Cats)
	got := spn.InferenceY(t.Nodes[t.Root], e, Y, y)
	f := hlib.Copy(e)
	f[Y] = y
	nd.Assert(nd.Same(got, math.Log(t.Lin(f)[t.Root])), "InferenceY is the value with Y=y as evidence")
}

// Reuse: a second inference into the same table overwrites the first.
func Reuse() {
	t := hlib.AnyNet(3, hlib.Opt{Vars: 2, Cats: 2, Dec: true})
	S := t.Nodes[t.Root]
	st := spn.NewStorer()
	e1, e2 := t.AnyEvidence("e"), t.AnyEvidence("f")
	_, tk := spn.StoreInference(S, e1, -1, st)
	_, tk2 := spn.StoreInference(S, e2, tk, st)
	nd.Assert(tk == tk2, "StoreInference uses the given ticket")
	lin := t.Lin(e2)
	for i, n := range t.Nodes {
		v, has := st.Single(tk, n)
		nd.Assert(has, "every node has a value")
		nd.Assert(nd.Same(v, math.Log(lin[i])), "the table holds the values of the last inference")
	}
	_, tk3 := spn.StoreInference(S, e1, -1, st)
	nd.Assert(tk3 != tk, "a negative ticket makes a new table")
	lin1 := t.Lin(e1)
	for i, n := range t.Nodes {
		v, _ := st.Single(tk, n)
		nd.Assert(nd.Same(v, math.Log(lin[i])), "other tables are left alone")
		u, _ := st.Single(tk3, n)
		nd.Assert(nd.Same(u, math.Log(lin1[i])), "the new table holds its own values")
	}
}

func lse(a, b float64) float64 {
	if a < b {
		a, b = b, a
	}
	if math.IsInf(a, -1) {
		return a
	}
	return a + math.Log(1+math.Exp(b-a))
}

// Extreme: values far below the smallest float64 are represented, since the
// network is evaluated in the log domain.
func Extreme() {
	nd.FloatRange()
	ps := []float64{1, 1e-150, 1e-300, 0}
	w := []float64{1e-100, 1}
	k := nd.Bound("leaves", 3)
	S := spn.NewSum()
	I := spn.VarSet{}
	want := math.Inf(-1)
	for c := 0; c < 2; c++ {
		p := spn.NewProduct()
		x := w[nd.Choose(fmt.Sprintf("w%d", c), 2)]
		l := math.Log(x)
		for i := 0; i < k; i++ {
			q := ps[nd.Choose(fmt.Sprintf("p%d_%d", c, i), len(ps))]
			p.AddChild(spn.NewMultinomial(i, []float64{q, 1}))
			l += math.Log(q)
			I[i] = 0
		}
		S.AddChildW(p, x)
		want = lse(want, l)
	}
	nd.Assert(nd.Same(spn.Inference(S, I), want), "Inference is exact for tiny probabilities")
	nd.Assert(nd.Same(S.Value(I), want), "Value is exact for tiny probabilities")
	nd.Assert(nd.Same(spn.InferenceY(S, I, 0, 0), want), "InferenceY is exact for tiny probabilities")
	st := spn.NewStorer()
	_, tk := spn.StoreInference(S, I, -1, st)
	v, ok := st.Single(tk, S)
	nd.Assert(ok && nd.Same(v, want), "StoreInference is exact for tiny probabilities")
}

// Wide: one sum or product over many leaves of scattered variables.
func Wide() {
	id := []int{0, 3, 40}[nd.Choose("id", 3)]
	t := hlib.AnyStar(nd.Bound("width", 6), []int{id}, hlib.Opt{Vars: id + 1, Cats: 2, ZeroW: true, NoInd: true, Dec: true})
	e := spn.VarSet{}
	if x := nd.Choose("ev", 3); x > 0 {
		e[id] = x - 1
	}
	verify(t, e)
}

// Big: large networks.
func Big() {
	t := hlib.AnyBig()
	verify(t, t.BigEvidence("e"))
}

// Changed: values follow the network when it changes.
func Changed() {
	t := hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, Dec: true, Fixed: true})
	e := t.AnyEvidence("e")
	verify(t, e)
	t.Change("g")
	verify(t, e)
}

// Tiny: the same in networks with shared nodes, for partial evidence.
func Tiny() {
	t := hlib.AnyTiny(nd.Bound("leaves", 2))
	logs(t, t.TinyEvidence("e"))
}

// Dense: the same with normal leaves, whose densities are far above one or far below it.
func Dense() {
	t := hlib.AnyDense(nd.Bound("leaves", 2))
	logs(t, t.DenseEvidence("e"))
}

func logs(t *hlib.Net, e spn.VarSet) {
	S := t.Nodes[t.Root]
	want := t.LogLin(e)
	nd.Assert(nd.Same(spn.Inference(S, e), want[t.Root]), "Inference is exact")
	nd.Assert(nd.Same(S.Value(e), want[t.Root]), "Value is exact")
	f := hlib.Copy(e)
	f[0] = 1
	nd.Assert(nd.Same(spn.InferenceY(S, e, 0, 1), t.LogLin(f)[t.Root]), "InferenceY is exact")
	st := spn.NewStorer()
	_, tk := spn.StoreInference(S, e, -1, st)
	for i, n := range t.Nodes {
		v, ok := st.Single(tk, n)
		nd.Assert(ok && nd.Same(v, want[i]), "StoreInference is exact")
	}
}
