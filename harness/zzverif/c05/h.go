// Package c05: scopes and the structural verdicts.
package c05

import (
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

func sameSet(a []int, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n := 0
		for _, y := range b {
			if x == y {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

func complete(t *hlib.Net) bool {
	for i := range t.Nodes {
		if t.Kind[i] == hlib.KSum {
			for _, c := range t.Ch[i] {
				if !sameSet(t.Sc[c], t.Sc[i]) {
					return false
				}
			}
		}
	}
	return true
}

func decomposable(t *hlib.Net) bool {
	for i := range t.Nodes {
		if t.Kind[i] == hlib.KProduct {
			n := 0
			for _, c := range t.Ch[i] {
				n += len(t.Sc[c])
			}
			if n != len(t.Sc[i]) {
				return false
			}
		}
	}
	return true
}

func net(n, vars int) *hlib.Net {
	k := nd.Choose("leaves", 2)
	return hlib.AnyNet(n, hlib.Opt{Vars: vars, Cats: 1, Fixed: true, NoInd: k == 0, NoMult: k == 1})
}

// Verdicts: Complete and Decomposable decide the definitions, on every graph.
func Verdicts() {
	nd.MapOrder(nd.Bound("order", 0))
	t := net(nd.Bound("nodes", 5), nd.Bound("vars", 3))
	S := t.Nodes[t.Root]
	c, d := complete(t), decomposable(t)
	if c {
		nd.Cover("complete")
	} else {
		nd.Cover("incomplete")
	}
	if d {
		nd.Cover("decomposable")
	} else {
		nd.Cover("not decomposable")
	}
	nd.Assert(spn.Complete(S) == c, "Complete decides whether the children of every sum have the same scope")
	nd.Assert(spn.Decomposable(S) == d, "Decomposable decides whether the children of every product have disjoint scopes")
	// the verdicts do not depend on what was asked before
	nd.Assert(spn.Complete(S) == c, "Complete gives the same answer again")
	nd.Assert(spn.Decomposable(S) == d, "Decomposable gives the same answer again")
}

// Scopes: ComputeScope finds the union of the leaf variables below each node.
func Scopes() {
	nd.MapOrder(nd.Bound("order", 1))
	t := net(nd.Bound("nodes", 4), nd.Bound("vars", 3))
	S := t.Nodes[t.Root]
	nd.Assert(sameSet(spn.ComputeScope(S), t.Sc[t.Root]), "ComputeScope returns the variables below the root, each once")
	for i, n := range t.Nodes {
		nd.Assert(sameSet(n.Sc(), t.Sc[i]), "ComputeScope sets the scope of every node")
		nd.Assert(sameSet(spn.ComputeScope(n), t.Sc[i]), "ComputeScope works from any node")
	}
}

// Lazy: without ComputeScope, Sc of a valid network's nodes is their scope.
func Lazy() {
	t := hlib.AnyValid(nd.Bound("depth", 3), hlib.Opt{Vars: nd.Bound("vars", 2), Cats: 2, Fixed: true, Share: true})
	nd.Assert(complete(t) && decomposable(t), "the generator makes valid networks")
	up := nd.Choose("order", 2) == 1
	for k := range t.Nodes {
		i := k
		if !up {
			i = len(t.Nodes) - 1 - k
		}
		nd.Assert(sameSet(t.Nodes[i].Sc(), t.Sc[i]), "Sc is the scope of a node of a valid network")
	}
	S := t.Nodes[t.Root]
	nd.Assert(spn.Complete(S), "a valid network is complete")
	nd.Assert(spn.Decomposable(S), "a valid network is decomposable")
}

// Grown: verdicts and scopes follow the graph when it grows.
func Grown() {
	t := hlib.AnyNet(nd.Bound("nodes", 4), hlib.Opt{Vars: 2, Cats: 1, Fixed: true, NoMult: true})
	S := t.Nodes[t.Root]
	switch nd.Choose("before", 3) {
	case 0:
		spn.ComputeScope(S)
	case 1:
		spn.Complete(S)
	case 2:
		spn.Decomposable(S)
	}
	t.Grow("g", 3)
	if nd.Choose("ask", 2) == 0 {
		nd.Assert(sameSet(spn.ComputeScope(S), t.Sc[t.Root]), "ComputeScope follows the graph when it grows")
		for i, n := range t.Nodes {
			nd.Assert(sameSet(n.Sc(), t.Sc[i]), "ComputeScope updates the scope of every node when the graph grows")
		}
	}
	nd.Assert(spn.Complete(S) == complete(t), "Complete follows the graph when it grows")
	nd.Assert(spn.Decomposable(S) == decomposable(t), "Decomposable follows the graph when it grows")
}

// Wide: one sum or product over many leaves, with scattered variable numbers.
func Wide() {
	t := hlib.AnyStar(nd.Bound("width", 6), []int{0, 5, 63}, hlib.Opt{Vars: 64, Cats: 1, Fixed: true, NoMult: true})
	S := t.Nodes[t.Root]
	nd.Assert(sameSet(spn.ComputeScope(S), t.Sc[t.Root]), "ComputeScope returns the variables below the root, each once")
	nd.Assert(spn.Complete(S) == complete(t), "Complete decides whether the children of every sum have the same scope")
	nd.Assert(spn.Decomposable(S) == decomposable(t), "Decomposable decides whether the children of every product have disjoint scopes")
}

// Twice: the same, when a node has one of its children twice.
func Twice() {
	switch nd.Choose("what", 2) {
	case 0:
		Scopes()
	case 1:
		Grown()
	}
}

// Big: large networks, one leaf of which may be over another variable.
func Big() {
	t := hlib.AnyBig()
	if k := nd.Choose("stray", 3); k > 0 {
		// a leaf in the wrong place
		v := []int{0, 40}[k-1]
		r, l := t.Root, t.AddIndicator(v, 0)
		if t.Kind[r] == hlib.KSum {
			t.Root = t.AddSum([]int{r, l}, []float64{0.5, 0.5})
		} else {
			t.Root = t.AddProduct([]int{r, l})
		}
		if nd.Choose("below", 2) == 1 {
			t.Root = t.AddProduct([]int{t.Root, t.AddIndicator(41, 0)})
		}
	}
	S := t.Nodes[t.Root]
	nd.Assert(sameSet(spn.ComputeScope(S), t.Sc[t.Root]), "ComputeScope returns the variables below the root, each once")
	for i, n := range t.Nodes {
		nd.Assert(sameSet(n.Sc(), t.Sc[i]), "ComputeScope sets the scope of every node")
	}
	nd.Assert(spn.Complete(S) == complete(t), "Complete decides whether the children of every sum have the same scope")
	nd.Assert(spn.Decomposable(S) == decomposable(t), "Decomposable decides whether the children of every product have disjoint scopes")
}
