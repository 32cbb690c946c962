package hlib

import (
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// big is one of three sizes up to the bound "big".
func big(def int) int {
	n := nd.Bound("big", def)
	if n > 3 {
		return n - nd.Choose("size", 3)*(n/4)
	}
	return n
}

// AnyBig is a large valid network of a given family: a wide sum, a wide
// product, a chain of sums and products, or a ladder of shared ones.
func AnyBig() *Net { return anyBig(true) }

// AnyBigPositive is the same without indicators: no evidence is impossible.
func AnyBigPositive() *Net { return anyBig(false) }

func anyBig(ind bool) *Net {
	t := &Net{Cats: 2}
	leaf := func(v, k int) int {
		if ind && k%5 == 4 {
			return t.AddIndicator(v, k%2)
		}
		p := float64(2*k+3) / 256
		return t.AddMultinomial(v, []float64{p, 1 - p})
	}
	w := func(n int) []float64 {
		r := make([]float64, n)
		rest := 1.0
		for i := range r {
			r[i] = float64(1+(i+n)%3) / 256
			rest -= r[i]
		}
		r[n-1] += rest
		return r
	}
	switch nd.Choose("family", 4) {
	case 0:
		n := big(16)
		t.Vars = 1
		var ch []int
		for i := 0; i < n; i++ {
			ch = append(ch, leaf(0, i))
		}
		t.Root = t.AddSum(ch, w(n))
	case 1:
		n := big(16)
		t.Vars = n
		var ch []int
		for i := 0; i < n; i++ {
			ch = append(ch, leaf(n-1-i, i))
		}
		t.Root = t.AddProduct(ch)
	case 2:
		n := big(16) / 2
		t.Vars = n
		s := leaf(0, 0)
		for i := 1; i < n; i++ {
			p := t.AddProduct([]int{leaf(i, i), s})
			s = t.AddSum([]int{p}, []float64{1})
		}
		t.Root = s
	default:
		n := nd.Bound("ladder", 4)
		t.Vars = n
		s := t.AddSum([]int{leaf(0, 0), leaf(0, 7), leaf(0, 5)}, w(3))
		for i := 1; i < n; i++ {
			p, q := t.AddProduct([]int{leaf(i, i), s}), t.AddProduct([]int{s, leaf(i, i+7)})
			s = t.AddSum([]int{p, q}, w(2))
		}
		t.Root = s
	}
	return t
}

// BigEvidence sets the variables of a large network in one of four ways.
func (t *Net) BigEvidence(name string) spn.VarSet {
	e := make(spn.VarSet)
	k := nd.Choose(name, 4)
	for v := 0; v < t.Vars; v++ {
		switch k {
		case 1:
			e[v] = v % 2
		case 2:
			e[v] = 1
		case 3:
			if v%3 != 1 {
				e[v] = v % 3 / 2
			}
		}
	}
	return e
}

// BigShape is a large rooted DAG of a given family: a star, a chain, a ladder,
// a tree, or a mesh.
func BigShape() *Shape {
	n := big(24)
	s := &Shape{N: n, Ch: make([][]int, n)}
	switch nd.Choose("family", 5) {
	case 0:
		for i := 1; i < n; i++ {
			s.Ch[0] = append(s.Ch[0], i)
		}
	case 1:
		for i := 1; i < n; i++ {
			s.Ch[i-1] = append(s.Ch[i-1], i)
		}
	case 2:
		if l := 3 * nd.Bound("ladder", 5); n > l {
			n = l
			s.N, s.Ch = n, s.Ch[:n]
		}
		for i := 0; i < n; i++ {
			for j := i + 1; j <= i+2 && j < n; j++ {
				s.Ch[i] = append(s.Ch[i], j)
			}
		}
	case 3:
		for i := 1; i < n; i++ {
			s.Ch[(i-1)/2] = append(s.Ch[(i-1)/2], i)
		}
	default:
		for i := 0; i < n; i++ {
			for _, j := range []int{i + 7, i + 1, i + 4} {
				if j < n && (j == i+1 || i%3 == 0) {
					s.Ch[i] = append(s.Ch[i], j)
				}
			}
		}
	}
	return s
}
