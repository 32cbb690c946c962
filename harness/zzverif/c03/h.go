// Package c03: MAP inference.
package c03

import (
	"math"
	"math/rand"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// Values: Max and StoreMAP compute the max-product value of every node of any
// network.
func Values() {
	values(hlib.AnyNet(nd.Bound("nodes", 4), hlib.Opt{Vars: 2, Cats: 2}))
}

// Zeros: the same with parameters that may be zero.
func Zeros() {
	values(hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, ZeroW: true, ZeroP: true}))
}

func values(t *hlib.Net) { valuesAt(t, evidence(t)) }

func valuesAt(t *hlib.Net, e spn.VarSet) {
	sys.Random = rand.New(nd.RandSource())
	S := t.Nodes[t.Root]
	before := hlib.Copy(e)
	want := t.MaxLin(e)
	nd.Assert(nd.Same(S.Max(e), math.Log(want[t.Root])), "Max is the log of the max-product value")
	_, a := S.ArgMax(e)
	nd.Assert(nd.Same(a, math.Log(want[t.Root])), "ArgMax returns the max-product value")
	st := spn.NewStorer()
	R, tk, _ := spn.StoreMAP(S, e, -1, st)
	nd.Assert(R == S, "StoreMAP returns the network it was given")
	for i, n := range t.Nodes {
		v, ok := st.Single(tk, n)
		nd.Assert(ok, "StoreMAP stores a value for every node")
		nd.Assert(nd.Same(v, math.Log(want[i])), "StoreMAP stores the max-product value of every node")
	}
	nd.Assert(hlib.SameVars(e, before), "MAP inference leaves the evidence unchanged")
}

func state(share bool, how int) {
	stateOf(hlib.AnyValid(nd.Bound("depth", 3), hlib.Opt{Vars: nd.Bound("vars", 2), Cats: 2, Share: share, NormP: true, NoInd: nd.Bound("noind", 0) == 1, NoMult: nd.Bound("nomult", 0) == 1}), how)
}

func stateOf(t *hlib.Net, how int) {
	sys.Random = rand.New(nd.RandSource())
	S := t.Nodes[t.Root]
	e := evidence(t)
	want := t.MaxLin(e)[t.Root]
	var M spn.VarSet
	what := ""
	switch how {
	case 0:
		var v float64
		M, v = S.ArgMax(e)
		what = "ArgMax"
		nd.Assert(nd.Same(v, math.Log(want)), "ArgMax returns the max-product value")
	case 1:
		st := spn.NewStorer()
		_, _, M = spn.StoreMAP(S, e, -1, st)
		what = "StoreMAP"
	}
	for v := 0; v < t.Vars; v++ {
		x, ok := M[v]
		nd.Assert(ok, what+": the MAP state sets every variable of the scope")
		nd.Assert(x >= 0 && x < t.Cats, what+": the MAP state has values of the domain")
		if y, set := e[v]; set {
			nd.Assert(x == y, what+": the MAP state agrees with the evidence")
		}
	}
	nd.Assert(len(M) == t.Vars, what+": the MAP state sets only variables of the scope")
	nd.Assert(nd.Same(t.MaxLin(M)[t.Root], want), what+": the MAP state attains the max-product value")
}

// ArgMaxState: the state returned by ArgMax attains the max-product value.
func ArgMaxState() { state(true, 0) }

// StoreMAPState: so does the one found by StoreMAP, however ties are broken.
func StoreMAPState() { state(true, 1) }

// Deeper networks, with leaves of one kind.
func ArgMaxInd()   { state(false, 0) }
func StoreMAPInd() { state(false, 1) }

// Trace: TraceMAP picks a maximising child at every sum it reaches.
func Trace() {
	sys.Random = rand.New(nd.RandSource())
	trace(hlib.AnyValid(nd.Bound("depth", 3), hlib.Opt{Vars: nd.Bound("vars", 2), Cats: 2, Share: false, NormP: true, NoInd: nd.Bound("noind", 0) == 1, NoMult: nd.Bound("nomult", 0) == 1}))
}

func trace(t *hlib.Net) {
	S := t.Nodes[t.Root]
	e := evidence(t)
	m := t.MaxLin(e)
	P := spn.TraceMAP(S, e)
	// walk the induced tree
	var walk func(i int)
	n := 0
	seen := make([]bool, len(t.Nodes))
	walk = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		switch t.Kind[i] {
		case hlib.KSum:
			k, ok := P[t.Nodes[i]]
			nd.Assert(ok, "TraceMAP has an entry for every sum of the induced tree")
			nd.Assert(k >= 0 && k < len(t.Ch[i]), "TraceMAP entries are child indices")
			nd.Assert(nd.Same(t.W[i][k]*m[t.Ch[i][k]], m[i]), "TraceMAP points at a maximising child")
			n++
			walk(t.Ch[i][k])
		case hlib.KProduct:
			for _, c := range t.Ch[i] {
				walk(c)
			}
		}
	}
	walk(t.Root)
	nd.Assert(len(P) == n, "TraceMAP has entries for the sums of the induced tree only")
}

// Dominates: no complete state consistent with the evidence beats the MAP
// value (max-product value of the network as a whole).
func Dominates() {
	sys.Random = rand.New(nd.RandSource())
	t := hlib.AnyValid(2, hlib.Opt{Vars: 2, Cats: 2, Share: true, NormP: true})
	S := t.Nodes[t.Root]
	e := t.AnyEvidence("e")
	v := S.Max(e)
	for _, x := range t.AllComplete(e) {
		nd.Assert(nd.Leq(S.Max(x), v), "no completion has a larger max-product value")
	}
}

func evidence(t *hlib.Net) spn.VarSet {
	if nd.Bound("big", 0) > 0 {
		return t.BigEvidence("e")
	}
	return t.AnyEvidence("e")
}

// Big: large networks.
func Big() {
	k := nd.Choose("what", 4)
	if k == 0 {
		values(hlib.AnyBig())
		return
	}
	t := hlib.AnyBigPositive()
	switch k {
	case 3:
		sys.Random = rand.New(nd.RandSource())
		trace(t)
	case 1:
		stateOf(t, 0)
	case 2:
		stateOf(t, 1)
	}
}

// Reuse: a table used before, for MAP or for soft inference, is filled anew.
func Reuse() {
	sys.Random = rand.New(nd.RandSource())
	t := hlib.AnyNet(3, hlib.Opt{Vars: 2, Cats: 2, Dec: true})
	S := t.Nodes[t.Root]
	st := spn.NewStorer()
	e1, e2 := spn.VarSet{}, t.AnyEvidence("f")
	if nd.Bool("full") {
		e1[0], e1[1] = 0, 1
	}
	var tk int
	if nd.Bool("soft") {
		_, tk = spn.StoreInference(S, e1, -1, st)
	} else {
		_, tk, _ = spn.StoreMAP(S, e1, -1, st)
	}
	_, tk2, M := spn.StoreMAP(S, e2, tk, st)
	nd.Assert(tk == tk2, "StoreMAP uses the given ticket")
	want := t.MaxLin(e2)
	for i, n := range t.Nodes {
		v, has := st.Single(tk, n)
		nd.Assert(has, "StoreMAP stores a value for every node")
		nd.Assert(nd.Same(v, math.Log(want[i])), "a table used before holds the values of the last MAP inference")
	}
	for v, x := range M {
		if y, set := e2[v]; set {
			nd.Assert(x == y, "the MAP state agrees with the last evidence")
		}
	}
	_, tk3, _ := spn.StoreMAP(S, e1, -1, st)
	nd.Assert(tk3 != tk, "a negative ticket makes a new table")
	for i, n := range t.Nodes {
		v, _ := st.Single(tk, n)
		nd.Assert(nd.Same(v, math.Log(want[i])), "other tables are left alone")
	}
}

// Changed: MAP values follow the network when it changes.
func Changed() {
	t := hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, Dec: true, Fixed: true})
	e := t.AnyEvidence("e")
	valuesAt(t, e)
	t.Change("g")
	valuesAt(t, e)
}

// Tiny: MAP values and states are exact however small the probabilities.
func Tiny() {
	sys.Random = rand.New(nd.RandSource())
	t := hlib.AnyTiny(nd.Bound("leaves", 2))
	logs(t, t.TinyEvidence("e"))
}

// Dense: the same with normal leaves, whose densities are far above one or far below it.
func Dense() {
	sys.Random = rand.New(nd.RandSource())
	t := hlib.AnyDense(nd.Bound("leaves", 2))
	logs(t, t.DenseEvidence("e"))
}

func logs(t *hlib.Net, e spn.VarSet) {
	S := t.Nodes[t.Root]
	want := t.LogMax(e)
	w := want[t.Root]
	nd.Assert(nd.Same(S.Max(e), w), "Max is exact")
	M, v := S.ArgMax(e)
	nd.Assert(nd.Same(v, w), "ArgMax returns the exact value")
	nd.Assert(len(M) == t.Vars && nd.Same(t.LogMax(M)[t.Root], w), "ArgMax returns a MAP state")
	st := spn.NewStorer()
	_, tk, M := spn.StoreMAP(S, e, -1, st)
	nd.Assert(len(M) == t.Vars && nd.Same(t.LogMax(M)[t.Root], w), "StoreMAP returns a MAP state")
	for i, n := range t.Nodes {
		v, ok := st.Single(tk, n)
		nd.Assert(ok && nd.Same(v, want[i]), "StoreMAP is exact")
	}
	k, ok := spn.TraceMAP(S, e)[S]
	nd.Assert(ok && k >= 0 && k < 2, "TraceMAP traces the root")
	nd.Assert(nd.Same(math.Log(t.W[t.Root][k])+want[t.Ch[t.Root][k]], w), "TraceMAP picks a maximising child")
}
