package c04

import (
	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// checkOrder drains C and asserts that it holds every node exactly once, every
// child before each of its parents (leaves first), or the other way around.
func checkOrder(s *hlib.Shape, ns []spn.SPN, C common.Collection, rootFirst bool, what string) {
	pos := make([]int, s.N)
	for i := range pos {
		pos[i] = -1
	}
	nd.Assert(C.Size() == s.N, what+": every node appears exactly once (size)")
	for k := 0; !C.Empty(); k++ {
		z := C.Take().(spn.SPN)
		id := -1
		for i, n := range ns {
			if n == z {
				id = i
			}
		}
		nd.Assert(id >= 0, what+": only nodes of the graph appear")
		nd.Assert(pos[id] < 0, what+": no node appears twice")
		pos[id] = k
	}
	for i := range ns {
		nd.Assert(pos[i] >= 0, what+": no node is missing")
		for _, c := range s.Ch[i] {
			if rootFirst {
				nd.Assert(pos[i] < pos[c], what+": a parent precedes its children (stack)")
			} else {
				nd.Assert(pos[c] < pos[i], what+": children precede their parent (queue)")
			}
		}
	}
}

func sorts(s *hlib.Shape) {
	ns := s.Products()
	stack := nd.Choose("stack", 2) == 1
	var C common.Collection
	if stack {
		C = &common.Stack{}
	} else if nd.Choose("nil", 2) == 1 {
		C = nil
	} else {
		C = &common.Queue{}
	}
	what := ""
	switch nd.Choose("algorithm", 5) {
	case 0:
		C, what = spn.TopSortTarjan(ns[0], C), "TopSortTarjan"
	case 1:
		C, what = spn.TopSortTarjanRec(ns[0], C), "TopSortTarjanRec"
	case 2:
		C, what = spn.TopSortDFS(ns[0], C), "TopSortDFS"
	case 3:
		C, what = spn.PostOrder(ns[0], C), "PostOrder"
	case 4:
		n := 0
		C = spn.TopSortTarjanFunc(ns[0], C, func(z spn.SPN) bool { n++; return true })
		what = "TopSortTarjanFunc"
		nd.Assert(n == s.N, what+": the function runs once per node")
	}
	checkOrder(s, ns, C, stack, what)
}

// Sorts: every algorithm on every DAG.
func Sorts() { sorts(hlib.AnyShape(nd.Bound("nodes", 4), false)) }

// SortsPerm: the same with every order of the children.
func SortsPerm() { sorts(hlib.AnyShape(nd.Bound("nodes", 4), true)) }

// Halt: TopSortTarjanFunc stops right after f returns false and keeps what it
// has collected so far, a prefix of the full order.
func Halt() {
	s := hlib.AnyShape(nd.Bound("nodes", 4), false)
	ns := s.Products()
	k := nd.Choose("stopAt", s.N)
	n := 0
	var seen []spn.SPN
	C := spn.TopSortTarjanFunc(ns[0], nil, func(z spn.SPN) bool {
		seen = append(seen, z)
		n++
		return n <= k
	})
	nd.Assert(n == k+1, "TopSortTarjanFunc: f is not called again after returning false")
	nd.Assert(C.Size() == k+1, "TopSortTarjanFunc: the queue keeps exactly the nodes visited before halting")
	full := spn.TopSortTarjan(ns[0], nil)
	for i := range seen {
		nd.Assert(C.Take().(spn.SPN) == seen[i], "TopSortTarjanFunc: queue order is the call order")
		nd.Assert(full.Take().(spn.SPN) == seen[i], "TopSortTarjanFunc: calls follow the order of TopSortTarjan")
	}
}

// Big: large graphs.
func Big() { sorts(hlib.BigShape()) }

// Grown: the sorts follow the graph when it grows.
func Grown() {
	t := hlib.AnyNet(nd.Bound("nodes", 4), hlib.Opt{Vars: 1, Cats: 1, Fixed: true, NoMult: true})
	S := t.Nodes[t.Root]
	f := []func(spn.SPN, common.Collection) common.Collection{
		spn.TopSortTarjan, spn.TopSortTarjanRec, spn.TopSortDFS, spn.PostOrder,
		func(z spn.SPN, C common.Collection) common.Collection {
			return spn.TopSortTarjanFunc(z, C, func(spn.SPN) bool { return true })
		},
	}
	for _, g := range f {
		g(S, nil)
	}
	t.Grow("g", 1)
	for _, g := range f {
		s := &hlib.Shape{N: len(t.Nodes), Ch: t.Ch}
		checkOrder(s, t.Nodes, g(S, nil), false, "after the graph has grown")
	}
}
