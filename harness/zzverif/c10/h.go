// Package c10: serialisation.
package c10

import (
	"math"
	"os"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// same walks both networks in parallel and checks that they are the same
// graph with the same parameters.
func same(a, b spn.SPN, vars, cats int, msg string) {
	to, from := map[spn.SPN]spn.SPN{}, map[spn.SPN]spn.SPN{}
	var walk func(x, y spn.SPN)
	walk = func(x, y spn.SPN) {
		p, seen := to[x]
		q, back := from[y]
		nd.Assert(seen == back && (!seen || p == y && q == x), msg+" keeps the sharing of nodes")
		if seen {
			return
		}
		to[x], from[y] = y, x
		nd.Assert(x != y, msg+" makes new nodes")
		nd.Assert(x.Type() == y.Type() && x.SubType() == y.SubType(), msg+" keeps the types of nodes")
		if s, ok := x.(*spn.Sum); ok {
			z, ok := y.(*spn.Sum)
			nd.Assert(ok && len(s.Weights()) == len(z.Weights()), msg+" keeps the number of weights")
			for i, w := range s.Weights() {
				nd.Assert(nd.Same(w, z.Weights()[i]), msg+" keeps the weights")
				nd.Assert(nd.Same(math.Log(w), math.Log(z.Weights()[i])), msg+" keeps the weights, however small")
			}
		}
		if m, ok := x.(*spn.Multinomial); ok {
			z, ok := y.(*spn.Multinomial)
			nd.Assert(ok && len(m.Pr()) == len(z.Pr()), msg+" keeps the number of categories")
			for i, p := range m.Pr() {
				nd.Assert(nd.Same(math.Log(p), math.Log(z.Pr()[i])), msg+" keeps the probabilities")
			}
		}
		if g, ok := x.(*spn.Gaussian); ok {
			z, ok := y.(*spn.Gaussian)
			nd.Assert(ok, msg+" keeps Gaussians")
			a, b := g.Params()
			c, d := z.Params()
			nd.Assert(nd.Same(a, c) && nd.Same(b, d), msg+" keeps the parameters of Gaussians")
		}
		if len(x.Ch()) == 0 {
			nd.Assert(len(y.Sc()) == 1 && len(x.Sc()) == 1 && x.Sc()[0] == y.Sc()[0], msg+" keeps the variables of leaves")
		}
		nd.Assert(len(x.Ch()) == len(y.Ch()), msg+" keeps the number of children")
		for i, c := range x.Ch() {
			walk(c, y.Ch()[i])
		}
	}
	walk(a, b)
}

func value(t *hlib.Net, b spn.SPN, msg string) {
	e := t.AnyEvidence("e")
	v := t.Lin(e)
	nd.Assert(nd.Same(spn.Inference(b, e), math.Log(v[t.Root])), msg+" keeps the value at every evidence")
	m := t.MaxLin(e)
	nd.Assert(nd.Same(b.Max(e), math.Log(m[t.Root])), msg+" keeps the MAP value at every evidence")
}

// Graph: every network survives the round trip.
func Graph() {
	t := hlib.AnyNet(nd.Bound("nodes", 4), hlib.Opt{Vars: 2, Cats: 2, ZeroW: true, NoMult: true})
	S := t.Nodes[t.Root]
	b := spn.Marshal(S)
	R := spn.Unmarshal(b)
	same(S, R, 2, 2, "the round trip")
	value(t, R, "the round trip")
	Z := spn.Unmarshal(spn.Marshal(R))
	same(R, Z, 2, 2, "a second round trip")
	nd.Assert(spn.Complete(R) == spn.Complete(S) && spn.Decomposable(R) == spn.Decomposable(S), "the round trip keeps the structural verdicts")
}

// Params: multinomial parameters survive the round trip.
func Params() {
	t := hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, ZeroW: true, ZeroP: true, NoInd: true})
	S := t.Nodes[t.Root]
	R := spn.Unmarshal(spn.Marshal(S))
	same(S, R, 2, 2, "the round trip")
	value(t, R, "the round trip")
}

// Wide: many children.
func Wide() {
	t := hlib.AnyStar(nd.Bound("width", 8), []int{0}, hlib.Opt{Vars: 1, Cats: 2, Fixed: true, NoInd: true})
	S := t.Nodes[t.Root]
	R := spn.Unmarshal(spn.Marshal(S))
	same(S, R, 1, 2, "the round trip")
}

// Leaf: a network that is a single leaf, with any variable number.
func Leaf() {
	ids := []int{0, 1, 9, 10, 255, 256, 65536, 1 << 31, 1 << 40}
	v := ids[nd.Choose("var", len(ids))]
	var S spn.SPN
	k := nd.Choose("kind", 3)
	cats := 1 + nd.Choose("cats", nd.Bound("cats", 4))
	x := 0
	switch k {
	case 0:
		x = nd.Int("val", 0, 1<<20)
		S = spn.NewIndicator(v, x)
	case 1:
		p := make([]float64, cats)
		for i := range p {
			p[i] = nd.Real("p"+string(rune('0'+i)), 0, 1)
		}
		S = spn.NewMultinomial(v, p)
	case 2:
		S = spn.NewGaussianParams(v, nd.Real("mu", -1000, 1000), nd.Real("sigma", 0, 1000))
	}
	R := spn.Unmarshal(spn.Marshal(S))
	same(S, R, 1, cats, "the round trip")
	nd.Assert(R.Sc()[0] == v, "the round trip keeps the variable of a leaf")
	nd.Assert(len(spn.ComputeScope(R)) == 1 && spn.ComputeScope(R)[0] == v, "the scope of a leaf can be computed after the round trip")
	if k == 0 {
		u := nd.Int("ev", 0, 1<<20)
		nd.Assert(nd.Same(R.Value(spn.VarSet{v: u}), S.Value(spn.VarSet{v: u})), "the round trip keeps the value of an indicator")
		m, _ := R.ArgMax(spn.VarSet{})
		nd.Assert(len(m) == 1 && m[v] == x, "the round trip keeps the value an indicator stands for")
	}
	if k == 1 {
		a, b := S.ArgMax(spn.VarSet{})
		m, c := R.ArgMax(spn.VarSet{})
		nd.Assert(nd.Same(b, c), "the round trip keeps the mode's probability")
		nd.Assert(len(m) == 1 && len(a) == 1, "the round trip keeps the mode")
		nd.Assert(nd.Same(S.Value(m), b), "the mode after the round trip is a mode")
	}
}

// File: what is saved is what is loaded.
func File() {
	d := nd.TempDir()
	f := d + "/net.spn"
	t := hlib.AnyNet(nd.Bound("nodes", 3), hlib.Opt{Vars: 2, Cats: 2, NoMult: true})
	S := t.Nodes[t.Root]
	switch nd.Choose("before", 3) {
	case 1: // a longer file is there
		nd.Assert(os.WriteFile(f, make([]byte, 4096), 0644) == nil, "scratch")
	case 2: // another network is there
		nd.Assert(io.SaveSPN(f, spn.NewIndicator(9, 9)) == nil, "saving over nothing works")
	}
	nd.Assert(io.SaveSPN(f, S) == nil, "saving to a fresh file works")
	R, err := io.LoadSPN(f)
	nd.Assert(err == nil, "a saved network can be loaded")
	same(S, R, 2, 2, "saving and loading")
	value(t, R, "saving and loading")
	R = io.ReadFromFile(f)
	nd.Assert(R != nil, "a saved network can be read")
	same(S, R, 2, 2, "saving and reading")
	R, err = io.LoadSPN(f)
	nd.Assert(err == nil && R != nil, "reading leaves the file alone")
	_, err = io.LoadSPN(d + "/missing.spn")
	nd.Assert(err != nil, "loading a missing file fails")
	nd.Assert(io.SaveSPN(d+"/no/such/dir.spn", S) != nil, "saving below a missing folder fails")
}

// Independent: the copy shares nothing with the original.
func Independent() {
	w := nd.Real("w", 0, 1)
	S := spn.NewSum()
	S.AddChildW(spn.NewMultinomial(0, []float64{0.25, 0.75}), w)
	R := spn.Unmarshal(spn.Marshal(S)).(*spn.Sum)
	S.Weights()[0] = 2
	S.AddChildW(spn.NewIndicator(0, 0), 1)
	S.Ch()[0].(*spn.Multinomial).Pr()[0] = 1
	nd.Assert(nd.Same(R.Weights()[0], w) && len(R.Weights()) == 1 && len(R.Ch()) == 1, "the copy does not change with the original")
	nd.Assert(nd.Same(R.Ch()[0].(*spn.Multinomial).Pr()[0], 0.25), "the leaves of the copy do not change with the original")
}

// Variable: variables survive their own round trip, whatever they are called.
func Variable() {
	names := []string{"", "x", "two words", " lead", "tab\tbed", "trail ", "a  b", "9", "\"q\""}
	v := &learn.Variable{Varid: nd.Int("id", 0, 1<<20), Categories: nd.Int("cats", 0, 1<<20), Name: names[nd.Choose("name", len(names))]}
	b, err := v.GobEncode()
	nd.Assert(err == nil, "a variable can be encoded")
	u := &learn.Variable{}
	nd.Assert(u.GobDecode(b) == nil, "an encoded variable can be decoded")
	nd.Assert(u.Varid == v.Varid && u.Categories == v.Categories, "the round trip keeps number and categories of a variable")
	nd.Assert(u.Name == v.Name, "the round trip keeps the name of a variable")
}

// Big: large networks.
func Big() {
	t := hlib.AnyBig()
	S := t.Nodes[t.Root]
	R := spn.Unmarshal(spn.Marshal(S))
	same(S, R, t.Vars, 2, "the round trip")
	e := t.BigEvidence("e")
	nd.Assert(nd.Same(spn.Inference(R, e), math.Log(t.Lin(e)[t.Root])), "the round trip keeps the value")
	nd.Assert(spn.Complete(R) && spn.Decomposable(R), "the round trip keeps the structural verdicts")
}

// Digits: parameters that take all the digits of a float to write come back
// to the last one.
func Digits() {
	vals := []float64{0.30000000000000004, 0.1, 0.7071067811865476, 0.9999999999999999, 1e-300, 5e-324, 1.7976931348623157e308, 123456789.12345679, 1.0000000000000002, 2.2250738585072014e-308, 0}
	S := spn.NewSum()
	for _, w := range vals {
		S.AddChildW(spn.NewMultinomial(3, append([]float64{}, vals...)), w)
	}
	for _, w := range vals {
		S.AddChildW(spn.NewGaussianParams(3, -w, w), 0.5)
	}
	var R spn.SPN
	if nd.Choose("how", 2) == 0 {
		R = spn.Unmarshal(spn.Marshal(S))
	} else {
		f := nd.TempDir() + "/net.spn"
		nd.Assert(io.SaveSPN(f, S) == nil, "saving to a fresh file works")
		var err error
		R, err = io.LoadSPN(f)
		nd.Assert(err == nil, "a saved network can be loaded")
	}
	n := len(vals)
	z, ok := R.(*spn.Sum)
	nd.Assert(ok && len(z.Weights()) == 2*n && len(z.Ch()) == 2*n, "the round trip keeps the shape")
	for i, w := range vals {
		nd.Assert(z.Weights()[i] == w, "the round trip keeps every digit of a weight")
		m, ok := z.Ch()[i].(*spn.Multinomial)
		nd.Assert(ok && len(m.Pr()) == n, "the round trip keeps the categories")
		for j, p := range m.Pr() {
			nd.Assert(p == vals[j], "the round trip keeps every digit of a probability")
		}
		g, ok := z.Ch()[n+i].(*spn.Gaussian)
		nd.Assert(ok, "the round trip keeps Gaussians")
		mu, sigma := g.Params()
		nd.Assert(mu == -w && sigma == w, "the round trip keeps every digit of a Gaussian's parameters")
	}
}
