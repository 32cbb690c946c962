package hlib

import (
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// Node kinds.
const (
	KSum = iota
	KProduct
	KIndicator
	KMultinomial
	KGaussian
)

// Net is a network together with the description it was built from.
type Net struct {
	Nodes []spn.SPN // children after their parents unless built bottom up
	Kind  []int
	Ch    [][]int
	W     [][]float64
	Var   []int
	Val   []int
	Pr    [][]float64
	Sc    [][]int
	Root  int
	Vars  int
	Cats  int
	pool  bool
}

// Opt controls the generators.
type Opt struct {
	Vars, Cats int
	ZeroW      bool // weights may be zero
	ZeroP      bool // leaf probabilities may be zero
	NormW      bool // weights of a sum add up to one
	NormP      bool // leaf probabilities add up to one
	Share      bool // nodes may have several parents
	NoInd      bool // no indicator leaves
	NoMult     bool // no multinomial leaves
	Dec        bool // leaf probabilities strictly decrease (soft inference does not look at the mode)
	Fixed      bool // concrete parameters: only the structure is arbitrary
	PermVars   bool // leaf variables in any numbering, not only in order of first use
}

func pos(name string, zero bool) float64 {
	v := nd.Real(name, 0, math.Inf(1))
	if !zero {
		nd.Assume(v > 0)
	}
	return v
}

// simplex draws n non-negative numbers, summing to one when norm is set.
func simplex(name string, n int, zero, norm bool) []float64 {
	w := make([]float64, n)
	if !norm {
		for i := range w {
			w[i] = pos(fmt.Sprintf("%s_%d", name, i), zero)
		}
		return w
	}
	rest := 1.0
	for i := 0; i < n-1; i++ {
		w[i] = pos(fmt.Sprintf("%s_%d", name, i), zero)
		rest -= w[i]
	}
	w[n-1] = rest
	if n > 1 {
		if zero {
			nd.Assume(rest >= 0)
		} else {
			nd.Assume(rest > 0)
		}
	}
	return w
}

func (t *Net) add(kind int, n spn.SPN) int {
	t.Nodes = append(t.Nodes, n)
	t.Kind = append(t.Kind, kind)
	t.Ch = append(t.Ch, nil)
	t.W = append(t.W, nil)
	t.Var = append(t.Var, -1)
	t.Val = append(t.Val, -1)
	t.Pr = append(t.Pr, nil)
	t.Sc = append(t.Sc, nil)
	return len(t.Nodes) - 1
}

// AddIndicator, AddMultinomial, AddSum, AddProduct append a node.
func (t *Net) AddIndicator(v, x int) int {
	i := t.add(KIndicator, spn.NewIndicator(v, x))
	t.Var[i], t.Val[i], t.Sc[i] = v, x, []int{v}
	return i
}

func (t *Net) AddMultinomial(v int, pr []float64) int {
	i := t.add(KMultinomial, spn.NewMultinomial(v, append([]float64{}, pr...)))
	t.Var[i], t.Pr[i], t.Sc[i] = v, pr, []int{v}
	return i
}

func (t *Net) AddSum(ch []int, w []float64) int {
	s := spn.NewSum()
	for k, c := range ch {
		s.AddChildW(t.Nodes[c], w[k])
	}
	i := t.add(KSum, s)
	t.Ch[i], t.W[i], t.Sc[i] = ch, w, union(t, ch)
	return i
}

func (t *Net) AddProduct(ch []int) int {
	p := spn.NewProduct()
	for _, c := range ch {
		p.AddChild(t.Nodes[c])
	}
	i := t.add(KProduct, p)
	t.Ch[i], t.Sc[i] = ch, union(t, ch)
	return i
}

func union(t *Net, ch []int) []int {
	var r []int
	for v := 0; v < 64; v++ {
		in := false
		for _, c := range ch {
			for _, u := range t.Sc[c] {
				if u == v {
					in = true
				}
			}
		}
		if in {
			r = append(r, v)
		}
	}
	return r
}

func sameScope(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// AnyNet puts arbitrary node types, parameters and leaf variables on an
// arbitrary DAG with n nodes; it need not be complete or decomposable.
func AnyNet(n int, o Opt) *Net {
	s := AnyShape(n, false)
	t := &Net{Vars: o.Vars, Cats: o.Cats}
	id := make([]int, n)
	used := 0 // variables are numbered in order of first use, up to renaming
	for i := n - 1; i >= 0; i-- {
		if s.Internal(i) {
			var ch []int
			for _, c := range s.Ch[i] {
				ch = append(ch, id[c])
			}
			if nd.Choose(fmt.Sprintf("sum%d", i), 2) == 1 {
				id[i] = t.AddSum(ch, weights(fmt.Sprintf("w%d", i), len(ch), o))
			} else {
				id[i] = t.AddProduct(ch)
			}
		} else {
			k := o.Vars
			if !o.PermVars && used+1 < k {
				k = used + 1
			}
			v := nd.Choose(fmt.Sprintf("var%d", i), k)
			if v == used {
				used++
			}
			id[i] = t.anyLeaf(fmt.Sprintf("leaf%d", i), v, o)
		}
	}
	t.Root = id[0]
	return t
}

func (t *Net) anyLeaf(name string, v int, o Opt) int {
	k := 0
	if !o.NoInd && !o.NoMult {
		k = nd.Choose(name+"_kind", 2)
	} else if o.NoInd {
		k = 1
	}
	if k == 0 {
		return t.AddIndicator(v, nd.Choose(name+"_val", o.Cats))
	}
	return t.AddMultinomial(v, leafDist(name+"_p", o))
}

func weights(name string, n int, o Opt) []float64 {
	if o.Fixed {
		w := make([]float64, n)
		for i := range w {
			w[i] = 1 / float64(n)
		}
		return w
	}
	return simplex(name, n, o.ZeroW, o.NormW)
}

func leafDist(name string, o Opt) []float64 {
	if o.Fixed {
		p := make([]float64, o.Cats)
		for i := range p {
			p[i] = 2 * float64(o.Cats-i) / float64(o.Cats*(o.Cats+1))
		}
		return p
	}
	p := simplex(name, o.Cats, o.ZeroP, o.NormP)
	if o.Dec {
		for i := 1; i < len(p); i++ {
			nd.Assume(p[i-1] > p[i])
		}
	}
	return p
}

// AnyValid draws an arbitrary complete and decomposable network over the
// variables 0..Vars-1 with nesting depth at most d.
func AnyValid(d int, o Opt) *Net {
	t := &Net{Vars: o.Vars, Cats: o.Cats}
	sc := make([]int, o.Vars)
	for i := range sc {
		sc[i] = i
	}
	t.Root = t.valid("r", sc, d, o)
	return t
}

func (t *Net) valid(name string, sc []int, d int, o Opt) int {
	if o.Share {
		for i := range t.Nodes {
			if sameScope(t.Sc[i], sc) {
				if nd.Choose(name+"_share", 2) == 1 {
					return i
				}
				break
			}
		}
	}
	if len(sc) == 1 {
		if d > 0 && !o.NoInd && (o.NoMult || nd.Choose(name+"_mix", 2) == 1) {
			// a sum over the indicators of the variable
			var ch []int
			for x := 0; x < o.Cats; x++ {
				ch = append(ch, t.AddIndicator(sc[0], x))
			}
			return t.AddSum(ch, weights(name+"_w", len(ch), o))
		}
		return t.AddMultinomial(sc[0], leafDist(name+"_p", o))
	}
	if d > 1 && nd.Choose(name+"_sum", 2) == 1 {
		a := t.valid(name+"a", sc, d-1, o)
		b := t.valid(name+"b", sc, d-1, o)
		if a == b {
			nd.Assume(false)
		}
		return t.AddSum([]int{a, b}, weights(name+"_w", 2, o))
	}
	k := 1
	if len(sc) > 2 {
		k = 1 + nd.Choose(name+"_cut", len(sc)-1)
	}
	a := t.valid(name+"a", sc[:k], d-1, o)
	b := t.valid(name+"b", sc[k:], d-1, o)
	return t.AddProduct([]int{a, b})
}

// AnyEvidence draws partial evidence: each variable is unset or has any value.
func (t *Net) AnyEvidence(name string) spn.VarSet {
	e := make(spn.VarSet)
	for v := 0; v < t.Vars; v++ {
		if x := nd.Choose(fmt.Sprintf("%s%d", name, v), t.Cats+1); x > 0 {
			e[v] = x - 1
		}
	}
	return e
}

// AllComplete lists every completion of e.
func (t *Net) AllComplete(e spn.VarSet) []spn.VarSet {
	r := []spn.VarSet{{}}
	for v := 0; v < t.Vars; v++ {
		var q []spn.VarSet
		for _, b := range r {
			for x := 0; x < t.Cats; x++ {
				if y, ok := e[v]; ok && y != x {
					continue
				}
				c := spn.VarSet{}
				for k, u := range b {
					c[k] = u
				}
				c[v] = x
				q = append(q, c)
			}
		}
		r = q
	}
	return r
}

// Lin is the reference value of every node at e, in the linear domain: the
// network polynomial.
func (t *Net) Lin(e spn.VarSet) []float64 {
	r := make([]float64, len(t.Nodes))
	for i := range t.Nodes {
		r[i] = t.lin1(i, e, r, false)
	}
	return r
}

// MaxLin is the max-product value of every node at e.
func (t *Net) MaxLin(e spn.VarSet) []float64 {
	r := make([]float64, len(t.Nodes))
	for i := range t.Nodes {
		r[i] = t.lin1(i, e, r, true)
	}
	return r
}

func (t *Net) lin1(i int, e spn.VarSet, r []float64, max bool) float64 {
	switch t.Kind[i] {
	case KIndicator:
		if x, ok := e[t.Var[i]]; ok && x != t.Val[i] {
			return 0
		}
		return 1
	case KMultinomial:
		if x, ok := e[t.Var[i]]; ok {
			return t.Pr[i][x]
		}
		if !max {
			return 1
		}
		m := 0.0
		for _, p := range t.Pr[i] {
			if p > m {
				m = p
			}
		}
		return m
	case KSum:
		v := 0.0
		for k, c := range t.Ch[i] {
			u := t.W[i][k] * r[c]
			if max {
				if u > v {
					v = u
				}
			} else {
				v += u
			}
		}
		return v
	}
	v := 1.0
	for _, c := range t.Ch[i] {
		v *= r[c]
	}
	return v
}

// Copy clones evidence.
func Copy(e spn.VarSet) spn.VarSet {
	c := spn.VarSet{}
	for k, v := range e {
		c[k] = v
	}
	return c
}

// SameVars tells whether two assignments are equal.
func SameVars(a, b spn.VarSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if u, ok := b[k]; !ok || u != v {
			return false
		}
	}
	return true
}

// Deriv is the reference partial derivative of the root with respect to every
// node, in the linear domain, given the values v of all nodes.  Nodes are
// built bottom up, so parents have larger indices.
func (t *Net) Deriv(v []float64) []float64 {
	d := make([]float64, len(t.Nodes))
	d[t.Root] = 1
	for i := t.Root; i >= 0; i-- {
		for k, c := range t.Ch[i] {
			if t.Kind[i] == KSum {
				d[c] += t.W[i][k] * d[i]
				continue
			}
			m := d[i]
			for j, o := range t.Ch[i] {
				if j != k {
					m *= v[o]
				}
			}
			d[c] += m
		}
	}
	return d
}

// DerivW is the derivative with respect to every weight.
func (t *Net) DerivW(e spn.VarSet) [][]float64 {
	v := t.Lin(e)
	d := t.Deriv(v)
	r := make([][]float64, len(t.Nodes))
	for i := range t.Nodes {
		if t.Kind[i] != KSum {
			continue
		}
		for _, c := range t.Ch[i] {
			r[i] = append(r[i], d[i]*v[c])
		}
	}
	return r
}

// Refresh copies the weights of the real network into the description.
func (t *Net) Refresh() {
	for i, n := range t.Nodes {
		if s, ok := n.(*spn.Sum); ok {
			t.W[i] = append([]float64{}, s.Weights()...)
		}
	}
}

// SumsToOne returns w divided by its total.
func SumsToOne(w []float64) []float64 {
	s := 0.0
	for _, x := range w {
		s += x
	}
	r := make([]float64, len(w))
	for i, x := range w {
		r[i] = x / s
	}
	return r
}

// Grow adds a new leaf or another node of the network below an arbitrary
// internal node, keeping the description in step.
func (t *Net) Grow(name string, vars int) {
	p := -1
	k := nd.Choose(name+"_at", len(t.Nodes))
	for i := range t.Nodes {
		if i == k && len(t.Ch[i]) > 0 {
			p = i
		}
	}
	nd.Assume(p >= 0)
	c := nd.Choose(name+"_what", len(t.Nodes)+1)
	if c == len(t.Nodes) {
		c = t.AddIndicator(nd.Choose(name+"_var", vars), 0)
	} else {
		nd.Assume(c < p)
		for _, x := range t.Ch[p] {
			nd.Assume(x != c)
		}
	}
	if t.Kind[p] == KSum {
		t.Nodes[p].(*spn.Sum).AddChildW(t.Nodes[c], 0.5)
		t.W[p] = append(append([]float64{}, t.W[p]...), 0.5)
	} else {
		t.Nodes[p].AddChild(t.Nodes[c])
	}
	t.Ch[p] = append(append([]int{}, t.Ch[p]...), c)
	for i := range t.Nodes {
		if len(t.Ch[i]) > 0 {
			t.Sc[i] = union(t, t.Ch[i])
		}
	}
}

// AnyStar is one internal node, sum or product, over 1 to k leaves with
// arbitrary variables from ids.
func AnyStar(k int, ids []int, o Opt) *Net {
	t := &Net{Vars: o.Vars, Cats: o.Cats}
	n := 1 + nd.Choose("width", k)
	sum := nd.Choose("sum", 2) == 1
	var ch []int
	for i := 0; i < n; i++ {
		v := ids[0]
		if len(ids) > 1 {
			v = ids[nd.Choose(fmt.Sprintf("id%d", i), len(ids))]
		}
		ch = append(ch, t.anyLeaf(fmt.Sprintf("l%d", i), v, o))
	}
	if sum {
		t.Root = t.AddSum(ch, weights("w", n, o))
	} else {
		t.Root = t.AddProduct(ch)
	}
	return t
}

// Sample is one of three valid networks over two binary variables with given
// parameters, in which no two states are equally probable: for histories too
// long for symbolic ones.
func Sample(name string) *Net {
	t := &Net{Vars: 2, Cats: 2}
	switch nd.Choose(name, 3) {
	case 0: // a mixture of products
		p := t.AddProduct([]int{t.AddMultinomial(0, []float64{0.75, 0.25}), t.AddMultinomial(1, []float64{0.375, 0.625})})
		q := t.AddProduct([]int{t.AddMultinomial(0, []float64{0.125, 0.875}), t.AddMultinomial(1, []float64{0.6875, 0.3125})})
		t.Root = t.AddSum([]int{p, q}, []float64{0.40625, 0.59375})
	case 1: // a product of mixtures
		p := t.AddSum([]int{t.AddMultinomial(0, []float64{0.75, 0.25}), t.AddMultinomial(0, []float64{0.375, 0.625})}, []float64{0.5625, 0.4375})
		q := t.AddSum([]int{t.AddMultinomial(1, []float64{0.125, 0.875}), t.AddMultinomial(1, []float64{0.6875, 0.3125})}, []float64{0.40625, 0.59375})
		t.Root = t.AddProduct([]int{p, q})
	default: // a shared mixture below a mixture
		m := t.AddSum([]int{t.AddMultinomial(1, []float64{0.125, 0.875}), t.AddMultinomial(1, []float64{0.6875, 0.3125})}, []float64{0.71875, 0.28125})
		p := t.AddProduct([]int{t.AddMultinomial(0, []float64{0.75, 0.25}), m})
		q := t.AddProduct([]int{m, t.AddMultinomial(0, []float64{0.375, 0.625})})
		t.Root = t.AddSum([]int{p, q}, []float64{0.40625, 0.59375})
	}
	return t
}

// MaxEdges is the number of times the MAP tree for e passes each edge; there must
// be no ties.
func (t *Net) MaxEdges(e spn.VarSet) [][]float64 {
	m := t.MaxLin(e)
	c := make([][]float64, len(t.Nodes))
	for i := range c {
		c[i] = make([]float64, len(t.Ch[i]))
	}
	seen := make([]bool, len(t.Nodes))
	var walk func(i int)
	walk = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		if t.Kind[i] != KSum {
			for _, k := range t.Ch[i] {
				walk(k)
			}
			return
		}
		best, at := -1.0, -1
		for k, j := range t.Ch[i] {
			v := t.W[i][k] * m[j]
			nd.Assume(!nd.Same(v, best)) // no ties
			if v > best {
				best, at = v, k
			}
		}
		c[i][at]++
		walk(t.Ch[i][at])
	}
	walk(t.Root)
	return c
}

// Change changes the network in one way: a new leaf or another node below an
// internal node, another weight or another leaf probability.  The description
// stays in step.
func (t *Net) Change(name string) {
	k := nd.Choose(name+"_how", 3)
	switch k {
	case 0:
		n := len(t.Nodes)
		t.Grow(name, t.Vars)
		if len(t.Nodes) > n {
			t.leafFirst()
		}
	case 1:
		p := nd.Choose(name+"_sum", len(t.Nodes))
		s, ok := t.Nodes[p].(*spn.Sum)
		nd.Assume(ok)
		s.Weights()[len(s.Weights())-1] = 0.125
		t.Refresh()
	case 2:
		p := nd.Choose(name+"_leaf", len(t.Nodes))
		m, ok := t.Nodes[p].(*spn.Multinomial)
		nd.Assume(ok && len(m.Pr()) == 2 && m.Pr()[0] > m.Pr()[1] && m.Pr()[1] > 0.03125)
		m.Pr()[1] = 0.03125
		t.Pr[p] = append([]float64{}, m.Pr()...)
	}
}

// leafFirst moves the node added last to the front, so that children come
// before their parents again.
func (t *Net) leafFirst() {
	n := len(t.Nodes)
	r := *t
	at := func(i int) int { return (i + 1) % n }
	t.Nodes, t.Kind, t.Ch = make([]spn.SPN, n), make([]int, n), make([][]int, n)
	t.W, t.Var, t.Val = make([][]float64, n), make([]int, n), make([]int, n)
	t.Pr, t.Sc = make([][]float64, n), make([][]int, n)
	for i := 0; i < n; i++ {
		j := at(i)
		t.Nodes[j], t.Kind[j], t.W[j], t.Var[j], t.Val[j], t.Pr[j], t.Sc[j] = r.Nodes[i], r.Kind[i], r.W[i], r.Var[i], r.Val[i], r.Pr[i], r.Sc[i]
		for _, c := range r.Ch[i] {
			t.Ch[j] = append(t.Ch[j], at(c))
		}
	}
	t.Root = at(r.Root)
}
