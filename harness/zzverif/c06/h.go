// Package c06: traversals, node counts and heights.
package c06

import (
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

func dist(s *hlib.Shape) []int {
	d := make([]int, s.N)
	for i := range d {
		d[i] = -1
	}
	d[0] = 0
	for k := 0; k < s.N; k++ {
		for i := 0; i < s.N; i++ {
			if d[i] == k {
				for _, c := range s.Ch[i] {
					if d[c] < 0 {
						d[c] = k + 1
					}
				}
			}
		}
	}
	return d
}

func index(ns []spn.SPN, n spn.SPN) int {
	for i, x := range ns {
		if x == n {
			return i
		}
	}
	return -1
}

// Visit: both searches call the function once per reachable node; the
// breadth-first one in order of distance from the root.
func Visit() {
	s := shape(5)
	ns := s.Products()
	d := dist(s)
	for how := 0; how < 2; how++ {
		seen := make([]int, s.N)
		last, first := 0, -1
		walk := spn.BreadthFirst
		if how == 1 {
			walk = spn.DepthFirst
		}
		walk(ns[0], func(n spn.SPN) int {
			i := index(ns, n)
			nd.Assert(i >= 0, "a search visits nodes of the network only")
			if first < 0 {
				first = i
			}
			seen[i]++
			if how == 0 {
				nd.Assert(d[i] >= last, "BreadthFirst visits nodes in order of distance")
				last = d[i]
			}
			if i != 0 {
				ok := false
				for j := range s.Ch {
					for _, c := range s.Ch[j] {
						ok = ok || c == i && seen[j] > 0
					}
				}
				nd.Assert(ok, "a search visits a node after one of its parents")
			}
			return 0
		})
		nd.Assert(first == 0, "a search starts at the root")
		for i := range seen {
			nd.Assert(seen[i] == 1, "a search visits every node exactly once")
		}
	}
}

// Control: a positive result stops a search, a negative one prunes the branch.
func Control() {
	s := shape(4)
	ns := s.Products()
	at := nd.Choose("at", s.N)
	ret := 1 - 2*nd.Choose("ret", 2)
	for how := 0; how < 2; how++ {
		walk := spn.BreadthFirst
		if how == 1 {
			walk = spn.DepthFirst
		}
		seen := make([]int, s.N)
		stopped := false
		walk(ns[0], func(n spn.SPN) int {
			nd.Assert(!stopped, "no node is visited after the function asked to stop")
			i := index(ns, n)
			seen[i]++
			if i == at {
				stopped = ret > 0
				return ret
			}
			return 0
		})
		nd.Assert(seen[at] == 1 || ret > 0, "a pruned node itself is visited")
		if ret < 0 {
			// reachable without passing through a child edge of `at`
			r := make([]bool, s.N)
			r[0] = true
			for i := 0; i < s.N; i++ {
				if r[i] && i != at {
					for _, c := range s.Ch[i] {
						r[c] = true
					}
				}
			}
			for i := range seen {
				want := 0
				if r[i] {
					want = 1
				}
				nd.Assert(seen[i] == want, "pruning skips exactly what is reachable only through the pruned node")
			}
		}
	}
}

// Counts: CountNodes counts each reachable node once, by type.
func Counts() {
	t := network()
	var s, p, l int
	for _, k := range t.Kind {
		switch k {
		case hlib.KSum:
			s++
		case hlib.KProduct:
			p++
		default:
			l++
		}
	}
	a, b, c := spn.CountNodes(t.Nodes[t.Root])
	nd.Assert(a == s && b == p && c == l, "CountNodes returns the number of sums, products and leaves")
}

// Heights: ComputeHeight and Height are the length of the longest path.
func Heights() {
	s := shape(5)
	ns := s.Products()
	d := s.Depth()
	for i, n := range ns {
		nd.Assert(spn.ComputeHeight(n) == d[i], "ComputeHeight is the length of the longest path to a leaf")
		nd.Assert(n.Height() == d[i], "Height is the length of the longest path to a leaf")
	}
}

// Twice: the same, when a node has one of its children twice.
func Twice() {
	switch nd.Choose("what", 3) {
	case 0:
		Visit()
	case 1:
		Counts()
	case 2:
		Heights()
	}
}

func shape(n int) *hlib.Shape {
	if nd.Bound("big", 0) > 0 {
		return hlib.BigShape()
	}
	return hlib.AnyShape(nd.Bound("nodes", n), nd.Bound("perm", 0) == 1)
}

func network() *hlib.Net {
	if nd.Bound("big", 0) > 0 {
		return hlib.AnyBig()
	}
	return hlib.AnyNet(nd.Bound("nodes", 5), hlib.Opt{Vars: 1, Cats: 1, Fixed: true, NoMult: true})
}

// Big: the same on large graphs.
func Big() {
	switch nd.Choose("what", 4) {
	case 0:
		Visit()
	case 1:
		Counts()
	case 2:
		Heights()
	case 3:
		Control()
	}
}

// Grown: counts and heights follow the graph when it grows.
func Grown() {
	t := hlib.AnyNet(nd.Bound("nodes", 4), hlib.Opt{Vars: 1, Cats: 1, Fixed: true, NoMult: true})
	S := t.Nodes[t.Root]
	spn.CountNodes(S)
	spn.ComputeHeight(S)
	S.Height()
	t.Grow("g", 1)
	n := map[int]int{}
	h := map[int]int{}
	var deep func(i int) int
	deep = func(i int) int {
		for _, c := range t.Ch[i] {
			if d := deep(c) + 1; d > h[i] {
				h[i] = d
			}
		}
		return h[i]
	}
	for _, k := range t.Kind {
		if k == hlib.KSum || k == hlib.KProduct {
			n[k]++
		}
	}
	a, b, c := spn.CountNodes(S)
	nd.Assert(a == n[hlib.KSum] && b == n[hlib.KProduct] && c == len(t.Nodes)-a-b, "CountNodes follows the graph when it grows")
	d := deep(t.Root)
	nd.Assert(spn.ComputeHeight(S) == d && S.Height() == d, "the height follows the graph when it grows")
	seen := 0
	spn.BreadthFirst(S, func(z spn.SPN) int { seen++; return 0 })
	nd.Assert(seen == len(t.Nodes), "a traversal visits the grown graph")
}
