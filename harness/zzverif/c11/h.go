// Package c11: arithmetic in the log domain.
package c11

import (
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// vec draws 1..n non-negative numbers, zero included.
func vec(n int) []float64 {
	if b := nd.Bound("big", 0); b > 0 {
		v := make([]float64, []int{b, b/2 + 1, b/4 + 1}[nd.Choose("len", 3)])
		for i := range v {
			v[i] = []float64{0.5, 3, 0, 0.25, 3, 17, 0.125}[(i*i+i/7)%7]
		}
		at := []int{0, 1, len(v) / 2, len(v) - 2, len(v) - 1}[nd.Choose("at", 5)]
		v[at] = nd.Real("x", 0, math.Inf(1))
		return v
	}
	k := 1 + nd.Choose("len", n)
	v := make([]float64, k)
	for i := range v {
		v[i] = nd.Real(fmt.Sprintf("x%d", i), 0, math.Inf(1))
	}
	return v
}

func logs(v []float64) []float64 {
	r := make([]float64, len(v))
	for i, x := range v {
		r[i] = math.Log(x)
	}
	return r
}

func sum(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s
}

func unchanged(a, b []float64, msg string) {
	nd.Assert(len(a) == len(b), msg)
	for i := range a {
		nd.Assert(nd.Same(a[i], b[i]), msg)
	}
}

// SumExp: LogSumExp of logarithms is the logarithm of the sum.
func SumExp() {
	v := vec(nd.Bound("n", 4))
	l := logs(v)
	k := append([]float64{}, l...)
	r := utils.LogSumExp(l)
	nd.Assert(!math.IsNaN(r), "LogSumExp is a number")
	nd.Assert(nd.Same(r, math.Log(sum(v))), "LogSumExp is the logarithm of the sum of the exponentials")
	unchanged(l, k, "LogSumExp leaves its argument alone")
}

// SumExpPair: the same for a pair.
func SumExpPair() {
	x, y := nd.Real("x", 0, math.Inf(1)), nd.Real("y", 0, math.Inf(1))
	r := utils.LogSumExpPair(math.Log(x), math.Log(y))
	nd.Assert(!math.IsNaN(r), "LogSumExpPair is a number")
	nd.Assert(nd.Same(r, math.Log(x+y)), "LogSumExpPair is the logarithm of the sum of the exponentials")
}

// Sum: LogSum of numbers is the logarithm of their sum.
func Sum() {
	v := vec(nd.Bound("n", 4))
	k := append([]float64{}, v...)
	r := utils.LogSum(v)
	nd.Assert(!math.IsNaN(r), "LogSum is a number")
	nd.Assert(nd.Same(r, math.Log(sum(v))), "LogSum is the logarithm of the sum")
	unchanged(v, k, "LogSum leaves its argument alone")
}

// SumPair: LogSumPair of two numbers is the logarithm of their sum.
func SumPair() {
	x, y := nd.Real("x", 0, math.Inf(1)), nd.Real("y", 0, math.Inf(1))
	r := utils.LogSumPair(x, y)
	nd.Assert(!math.IsNaN(r), "LogSumPair is a number")
	nd.Assert(nd.Same(r, math.Log(x+y)), "LogSumPair is the logarithm of the sum")
}

// Prod: LogProd of numbers is the logarithm of their product.
func Prod() {
	v := vec(nd.Bound("n", 4))
	p := 1.0
	for _, x := range v {
		p *= x
	}
	r := utils.LogProd(v)
	nd.Assert(!math.IsNaN(r), "LogProd is a number")
	nd.Assert(nd.Same(r, math.Log(p)), "LogProd is the logarithm of the product")
	nd.Assert(nd.Same(utils.AntiLog(r), p), "AntiLog undoes the logarithm")
}

// Signed: LogSumLog adds signed numbers given by logarithms and signs.
func Signed() {
	v := vec(nd.Bound("n", 3))
	s := make([]int, len(v))
	t := 0.0
	for i := range s {
		s[i] = nd.Choose(fmt.Sprintf("s%d", i), 3) - 1
		t += float64(s[i]) * v[i]
	}
	r, g := utils.LogSumLog(logs(v), s)
	nd.Assert(!math.IsNaN(r), "LogSumLog is a number")
	nd.Assert(g >= -1 && g <= 1, "LogSumLog returns a sign")
	nd.Assert(nd.Same(float64(g)*math.Exp(r), t), "LogSumLog returns logarithm and sign of the signed sum")
}

// Trim: exactly the given value is removed.
func Trim() {
	v := vec(nd.Bound("n", 4))
	c := nd.Real("c", 0, math.Inf(1))
	k := append([]float64{}, v...)
	r := utils.Trim(v, c)
	n := 0
	for _, x := range k {
		if x != c {
			n++
		}
	}
	nd.Assert(len(r) == n, "Trim removes every copy of the value and nothing else")
	for _, x := range r {
		nd.Assert(x != c, "Trim leaves no copy of the value")
	}
	for _, x := range k {
		if x == c {
			continue
		}
		a, b := 0, 0
		for _, y := range k {
			if x == y {
				a++
			}
		}
		for _, y := range r {
			if x == y {
				b++
			}
		}
		nd.Assert(a == b, "Trim keeps the other values")
	}
}

// Range: results stay accurate far outside the range of linear numbers.
func Range() {
	nd.FloatRange()
	n := 1 + nd.Choose("len", nd.Bound("n", 3))
	l := make([]float64, n)
	max := math.Inf(-1)
	for i := range l {
		l[i] = nd.Real(fmt.Sprintf("l%d", i), -100000, 100000)
		max = math.Max(max, l[i])
	}
	lim := math.Log(float64(n))
	r := utils.LogSumExp(l)
	nd.Assert(!math.IsNaN(r) && !math.IsInf(r, 0), "LogSumExp neither overflows nor underflows")
	nd.Assert(nd.Leq(max, r), "LogSumExp is at least the maximum")
	nd.Assert(nd.Leq(r-max, lim), "LogSumExp exceeds the maximum by at most ln n")
	if n == 2 {
		r := utils.LogSumExpPair(l[0], l[1])
		nd.Assert(!math.IsNaN(r) && !math.IsInf(r, 0), "LogSumExpPair neither overflows nor underflows")
		nd.Assert(nd.Leq(max, r), "LogSumExpPair is at least the maximum")
		nd.Assert(nd.Leq(r-max, lim), "LogSumExpPair exceeds the maximum by at most ln 2")
	}
	s := make([]int, n)
	for i := range s {
		s[i] = 1
	}
	q, g := utils.LogSumLog(l, s)
	nd.Assert(g == 1 && !math.IsNaN(q) && !math.IsInf(q, 0), "LogSumLog neither overflows nor underflows")
	nd.Assert(nd.Leq(max, q), "LogSumLog of positive numbers is at least the maximum")
	nd.Assert(nd.Leq(q-max, lim), "LogSumLog of positive numbers exceeds the maximum by at most ln n")
}

// Tiny: the sum and product of numbers near the ends of the range.
func Tiny() {
	nd.FloatRange()
	xs := []float64{1e-300, 1e-200, 1, 1e200, 1e300}
	n := 1 + nd.Choose("len", nd.Bound("n", 3))
	v := make([]float64, n)
	s := 0.0
	for i := range v {
		v[i] = xs[nd.Choose(fmt.Sprintf("x%d", i), len(xs))]
		s += math.Log(v[i])
	}
	nd.Assert(nd.Same(utils.LogProd(v), s), "LogProd neither overflows nor underflows")
	r := utils.LogSum(v)
	m := v[0]
	for _, x := range v {
		m = math.Max(m, x)
	}
	nd.Assert(nd.Leq(math.Log(m), r) && nd.Leq(r-math.Log(m), math.Log(float64(n))), "LogSum neither overflows nor underflows")
}

// Big: many numbers at once.
func Big() {
	switch nd.Choose("what", 5) {
	case 0:
		SumExp()
	case 1:
		Sum()
	case 2:
		Prod()
	case 3:
		Trim()
	case 4:
		v := vec(0)
		s := make([]int, len(v))
		t := 0.0
		for i := range s {
			s[i] = []int{1, -1, 1, 0, 1}[i%5]
			t += float64(s[i]) * v[i]
		}
		r, g := utils.LogSumLog(logs(v), s)
		nd.Assert(!math.IsNaN(r), "LogSumLog is a number")
		nd.Assert(nd.Same(float64(g)*math.Exp(r), t), "LogSumLog returns logarithm and sign of the signed sum")
	}
}
