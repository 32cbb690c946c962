package hlib

import (
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// Networks whose values lie far below the smallest float64, and the same
// oracles as for the others in the log domain.

// Add is the log of the sum of two numbers given by their logs.
func Add(a, b float64) float64 {
	if a < b {
		a, b = b, a
	}
	if math.IsInf(a, -1) {
		return a
	}
	return a + math.Log(1+math.Exp(b-a))
}

// AnyTiny draws a mixture of two products over a class (variable 0) and k more
// binary variables, the last leaf being shared.  At the value 0 of the other
// variables the leaves are as small as they can be.
func AnyTiny(k int) *Net {
	nd.FloatRange()
	t := &Net{Vars: k + 2, Cats: 2}
	ps := []float64{1, 1e-200, 3e-200}
	shared := t.AddMultinomial(k+1, []float64{1e-200, 0.5})
	var ch []int
	for c := 0; c < 2; c++ {
		p := []int{t.AddMultinomial(0, []float64{0.75 - 0.5*float64(c), 0.25 + 0.5*float64(c)})}
		for i := 1; i <= k; i++ {
			p = append(p, t.AddMultinomial(i, []float64{ps[nd.Choose(fmt.Sprintf("p%d_%d", c, i), len(ps))], 0.5}))
		}
		ch = append(ch, t.AddProduct(append(p, shared)))
	}
	t.Root = t.AddSum(ch, []float64{0.375, 0.625})
	return t
}

// TinyEvidence sets all the variables but the class to 0, the last one
// possibly not, and the class to anything or nothing.
func (t *Net) TinyEvidence(name string) spn.VarSet {
	e := spn.VarSet{}
	for v := 1; v < t.Vars; v++ {
		e[v] = 0
	}
	if nd.Choose(name+"_last", 2) == 1 {
		delete(e, t.Vars-1)
	}
	if c := nd.Choose(name+"_class", 3); c > 0 {
		e[0] = c - 1
	}
	return e
}

// LogLin is the log of the value of every node.
func (t *Net) LogLin(e spn.VarSet) []float64 { return t.logs(e, false) }

// LogMax is the log of the max-product value of every node.
func (t *Net) LogMax(e spn.VarSet) []float64 { return t.logs(e, true) }

func (t *Net) logs(e spn.VarSet, max bool) []float64 {
	r := make([]float64, len(t.Nodes))
	for i := range t.Nodes {
		switch t.Kind[i] {
		case KSum:
			v := math.Inf(-1)
			for k, c := range t.Ch[i] {
				u := math.Log(t.W[i][k]) + r[c]
				if !max {
					v = Add(v, u)
				} else if u > v {
					v = u
				}
			}
			r[i] = v
		case KProduct:
			for _, c := range t.Ch[i] {
				r[i] += r[c]
			}
		case KGaussian:
			r[i] = t.density(i, e, max)
		default:
			r[i] = math.Log(t.lin1(i, e, nil, max))
		}
	}
	return r
}

// LogDeriv is the log of the derivative with respect to every node, given the
// logs of their values.
func (t *Net) LogDeriv(v []float64) []float64 {
	d := make([]float64, len(t.Nodes))
	for i := range d {
		d[i] = math.Inf(-1)
	}
	d[t.Root] = 0
	for i := t.Root; i >= 0; i-- {
		for k, c := range t.Ch[i] {
			m := d[i]
			if t.Kind[i] == KSum {
				m += math.Log(t.W[i][k])
			} else {
				for j, o := range t.Ch[i] {
					if j != k {
						m += v[o]
					}
				}
			}
			d[c] = Add(d[c], m)
		}
	}
	return d
}

// AddGaussian adds a normal leaf.
func (t *Net) AddGaussian(v int, mu, sigma float64) int {
	i := t.add(KGaussian, spn.NewGaussianParams(v, mu, sigma))
	t.Var[i], t.Pr[i], t.Sc[i] = v, []float64{mu, sigma}, []int{v}
	return i
}

// density is the log-density of a normal leaf.
func (t *Net) density(i int, e spn.VarSet, max bool) float64 {
	mu, sigma := t.Pr[i][0], t.Pr[i][1]
	x, ok := e[t.Var[i]]
	if !ok && !max {
		return 0
	}
	d := 0.0
	if ok {
		d = (float64(x) - mu) / sigma
	}
	return -d*d/2 - math.Log(sigma) - 0.91893853320467274178
}

// AnyDense draws a mixture as AnyTiny does, over k normal variables: densities
// are far above one or far below the smallest float64.
func AnyDense(k int) *Net {
	nd.FloatRange()
	t := &Net{Vars: k + 2, Cats: 2}
	mus, sigmas := []float64{0, 3}, []float64{0.03125, 2}
	shared := t.AddGaussian(k+1, 1, 0.5)
	var ch []int
	for c := 0; c < 2; c++ {
		p := []int{t.AddMultinomial(0, []float64{0.75 - 0.5*float64(c), 0.25 + 0.5*float64(c)})}
		for i := 1; i <= k; i++ {
			g := nd.Choose(fmt.Sprintf("g%d_%d", c, i), 4)
			p = append(p, t.AddGaussian(i, mus[g&1], sigmas[g>>1]))
		}
		ch = append(ch, t.AddProduct(append(p, shared)))
	}
	t.Root = t.AddSum(ch, []float64{0.375, 0.625})
	return t
}

// DenseEvidence sets the normal variables to anything near their means or nothing.
func (t *Net) DenseEvidence(name string) spn.VarSet {
	e := spn.VarSet{}
	for v := 1; v < t.Vars; v++ {
		if x := nd.Choose(fmt.Sprintf("%s_%d", name, v), 3); x > 0 {
			e[v] = 3 * (x - 1)
		}
	}
	if c := nd.Choose(name+"_class", 3); c > 0 {
		e[0] = c - 1
	}
	return e
}
