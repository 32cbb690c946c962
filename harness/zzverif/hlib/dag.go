// Package hlib holds what the harnesses share: generators of arbitrary small
// networks and independent reference computations.
package hlib

import (
	"fmt"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// Shape is an arbitrary rooted DAG: node 0 is the root, every edge goes from a
// smaller to a larger index, every node is reachable from the root.
type Shape struct {
	N  int
	Ch [][]int
}

// AnyShape draws a rooted DAG with n nodes.  Child lists come in ascending
// order, in descending order, or (perm) in every order.  With the bound "dup"
// one of the nodes may have its first child twice.
func AnyShape(n int, perm bool) *Shape {
	s := &Shape{N: n, Ch: make([][]int, n)}
	for j := 1; j < n; j++ {
		has := false
		for i := 0; i < j; i++ {
			if i == j-1 && !has {
				// the last chance to be reachable
				s.Ch[i] = append(s.Ch[i], j)
				has = true
			} else if nd.Choose(fmt.Sprintf("edge%d_%d", i, j), 2) == 1 {
				s.Ch[i] = append(s.Ch[i], j)
				has = true
			}
		}
	}
	for i := 0; i < n; i++ {
		c := s.Ch[i]
		if len(c) < 2 {
			continue
		}
		if perm {
			for k := 0; k < len(c)-1; k++ {
				j := k + nd.Choose(fmt.Sprintf("order%d_%d", i, k), len(c)-k)
				c[k], c[j] = c[j], c[k]
			}
		} else if nd.Choose(fmt.Sprintf("reverse%d", i), 2) == 1 {
			for a, b := 0, len(c)-1; a < b; a, b = a+1, b-1 {
				c[a], c[b] = c[b], c[a]
			}
		}
	}
	if nd.Bound("dup", 0) == 1 {
		if k := nd.Choose("dup", n); k > 0 {
			c := s.Ch[k-1]
			nd.Assume(len(c) > 0)
			s.Ch[k-1] = append(c, c[0])
		}
	}
	return s
}

// Internal tells whether node i has children.
func (s *Shape) Internal(i int) bool { return len(s.Ch[i]) > 0 }

// Products builds the shape with product nodes and indicator leaves.
func (s *Shape) Products() []spn.SPN {
	ns := make([]spn.SPN, s.N)
	for i := s.N - 1; i >= 0; i-- {
		if s.Internal(i) {
			ns[i] = spn.NewProduct()
			for _, c := range s.Ch[i] {
				ns[i].AddChild(ns[c])
			}
		} else {
			ns[i] = spn.NewIndicator(i, 0)
		}
	}
	return ns
}

// Depth is the length of the longest path below each node.
func (s *Shape) Depth() []int {
	d := make([]int, s.N)
	for i := s.N - 1; i >= 0; i-- {
		for _, c := range s.Ch[i] {
			if d[c]+1 > d[i] {
				d[i] = d[c] + 1
			}
		}
	}
	return d
}
