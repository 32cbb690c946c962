// Package c29: matrix forms of datasets, and scopes.
package c29

import (
	"fmt"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// order is how maps are traversed.
var order = 2

// anyData draws a dataset over variables that need not be numbered in order.
func anyData(complete bool) (spn.Dataset, []int) {
	var m, n int
	if b := nd.Bound("big", 0); b > 0 {
		m, n = []int{b, 3, b / 2}[nd.Choose("m", 3)], []int{b, 2}[nd.Choose("n", 2)]
	} else {
		m, n = 1+nd.Choose("vars", nd.Bound("vars", 3)), nd.Choose("rows", nd.Bound("rows", 3)+1)
	}
	ids := make([]int, m)
	off := 0
	if !complete {
		off = nd.Choose("ids", 2)
	}
	for i := range ids {
		ids[i] = i
		if !complete {
			ids[i] = []int{7, 2, 40, 0}[(i+off)%4] + 50*(i/4)
		}
	}
	D := make(spn.Dataset, n)
	for i := range D {
		D[i] = make(map[int]int)
		for _, v := range ids {
			D[i][v] = nd.Int(fmt.Sprintf("x%d_%d", i, v), 0, 99)
		}
	}
	return D, ids
}

func copyOf(D spn.Dataset) spn.Dataset {
	C := make(spn.Dataset, len(D))
	for i, I := range D {
		C[i] = make(map[int]int)
		for k, v := range I {
			C[i][k] = v
		}
	}
	return C
}

func same(D, C spn.Dataset) bool {
	if len(D) != len(C) {
		return false
	}
	for i := range D {
		if len(D[i]) != len(C[i]) {
			return false
		}
		for k, v := range D[i] {
			if u, ok := C[i][k]; !ok || u != v {
				return false
			}
		}
	}
	return true
}

// Complete: matrices of complete datasets and back.
func Complete() {
	D, ids := anyData(true)
	was := copyOf(D)
	nd.MapOrder(order)
	var M [][]int
	var F [][]float64
	if f := nd.Choose("float", 2) == 1; f {
		F = learn.CompleteDataToMatrixF(D)
		nd.MapOrder(0)
		M = learn.CompleteDataToMatrix(D)
	} else {
		M = learn.CompleteDataToMatrix(D)
		nd.MapOrder(0)
		F = learn.CompleteDataToMatrixF(D)
	}
	nd.Assert(len(M) == len(D) && len(F) == len(D), "there is a row for each instance")
	for i := range D {
		nd.Assert(len(M[i]) == len(ids) && len(F[i]) == len(ids), "there is a column for each variable")
		for _, v := range ids {
			nd.Assert(M[i][v] == D[i][v] && F[i][v] == float64(D[i][v]), "each value stands in the column of its variable")
		}
	}
	C := learn.MatrixToData(M)
	nd.Assert(same(C, D), "the dataset of the matrix is the original")
	nd.Assert(same(D, was), "the dataset is left alone")
	if len(D) > 0 {
		C[0][0]++
		nd.Assert(M[0][0] == D[0][0], "the results share nothing")
		M[0][0]++
		nd.Assert(same(D, was), "the results share nothing")
	}
}

// Any: matrices of datasets over any variables.
func Any() {
	D, ids := anyData(false)
	was := copyOf(D)
	nd.MapOrder(order)
	var M [][]int
	var F [][]float64
	var S, T map[int]int
	if f := nd.Choose("float", 2) == 1; f {
		F, T = learn.DataToMatrixF(D)
		nd.MapOrder(0)
		M, S = learn.DataToMatrix(D)
	} else {
		M, S = learn.DataToMatrix(D)
		nd.MapOrder(0)
		F, T = learn.DataToMatrixF(D)
	}
	nd.Assert(len(M) == len(D) && len(F) == len(D), "there is a row for each instance")
	nd.Assert(same(D, was), "the dataset is left alone")
	if len(D) == 0 {
		return
	}
	check := func(V map[int]int, eq func(i, c, v int) bool) {
		nd.Assert(len(V) == len(ids), "there is a column for each variable")
		seen := make(map[int]bool)
		for c, v := range V {
			nd.Assert(c >= 0 && c < len(ids) && !seen[v], "each variable has its own column")
			seen[v] = true
			_, ok := D[0][v]
			nd.Assert(ok, "the columns are for the variables of the dataset")
			for i := range D {
				nd.Assert(eq(i, c, v), "each value stands in the column of its variable")
			}
		}
	}
	check(S, func(i, c, v int) bool { return len(M[i]) == len(ids) && M[i][c] == D[i][v] })
	check(T, func(i, c, v int) bool { return len(F[i]) == len(ids) && F[i][c] == float64(D[i][v]) })
}

// Columns: the values of one variable, and of all.
func Columns() {
	D, ids := anyData(false)
	was := copyOf(D)
	sc := make(map[int]*learn.Variable)
	for i, v := range ids {
		sc[v] = &learn.Variable{Varid: v, Categories: 10 + i}
	}
	for _, v := range ids {
		x := learn.ExtractInstance(v, D)
		nd.Assert(len(x) == len(D), "there is a value for each instance")
		for i := range x {
			nd.Assert(x[i] == D[i][v], "the values are those of the variable, in order")
		}
	}
	nd.MapOrder(order)
	V := learn.DataToVarData(D, sc)
	nd.MapOrder(0)
	nd.Assert(len(V) == len(ids), "there is a column for each variable")
	seen := make(map[int]bool)
	for _, c := range V {
		nd.Assert(!seen[c.Varid] && sc[c.Varid] != nil, "each variable has its own column")
		seen[c.Varid] = true
		nd.Assert(c.Categories == sc[c.Varid].Categories, "a column has the categories of its variable")
		nd.Assert(len(c.Data) == len(D), "there is a value for each instance")
		for i := range c.Data {
			nd.Assert(c.Data[i] == D[i][c.Varid], "the values are those of the variable, in order")
		}
	}
	nd.Assert(same(D, was), "the dataset is left alone")
}

// Scopes: copies of scopes.
func Scopes() {
	sc := make(map[int]*learn.Variable)
	n := nd.Choose("n", nd.Bound("vars", 3)+1)
	for i := 0; i < n; i++ {
		id := []int{7, 0, 40}[i]
		sc[id] = &learn.Variable{Varid: id, Categories: nd.Int(fmt.Sprintf("c%d", i), 1, 99), Name: []string{"", "a b", "x"}[i]}
	}
	R, C := learn.ReflectScope(sc), learn.CopyScope(sc)
	nd.Assert(len(R) == n && len(C) == n, "the copies have the same variables")
	for k, v := range sc {
		nd.Assert(R[k] == v, "a reflection has the very same variables")
		nd.Assert(C[k] != nil && C[k] != v && C[k].Varid == v.Varid && C[k].Categories == v.Categories && C[k].Name == v.Name, "a copy has equal variables of its own")
	}
	delete(R, 7)
	delete(C, 7)
	nd.Assert(len(sc) == n, "the copies are independent of the original")
}

// Big: the same with many variables and instances.
func Big() {
	order = 0
	switch nd.Choose("what", 3) {
	case 0:
		Complete()
	case 1:
		Any()
	case 2:
		Columns()
	}
}
