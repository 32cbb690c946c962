// Package c15: splitting, joining and copying datasets.
package c15

import (
	"fmt"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

type set = []map[int]int

// dataset draws n instances: variable 0 tags the instance, the others hold
// any values and may be missing.
func dataset(name string, n, tag int, full bool) set {
	D := make(set, n)
	for i := range D {
		D[i] = map[int]int{0: tag + i}
		for v := 1; v <= nd.Bound("vars", 2); v++ {
			if full || v == 1 || some(fmt.Sprintf("%s%d_%d?", name, i, v), i+v) {
				D[i][v] = nd.Int(fmt.Sprintf("%s%d_%d", name, i, v), -5, 1<<30)
			}
		}
	}
	return D
}

func some(name string, k int) bool {
	if nd.Bound("big", 0) > 0 {
		return k%3 > 0
	}
	return nd.Choose(name, 2) == 1
}

// size is any size within the bound, or one of two large ones.
func size(name string, def, one int) int {
	if b := nd.Bound("big", 0); b > 0 {
		return b - 3*nd.Choose(name, 2)
	}
	return nd.Choose(name, nd.Bound("n", def)+one)
}

func labels(name string, n, c int) []int {
	L := make([]int, n)
	for i := range L {
		if nd.Bound("big", 0) > 0 {
			L[i] = (i*i + i/3 + len(name)) % c
			continue
		}
		L[i] = nd.Choose(fmt.Sprintf("%s%d", name, i), c)
	}
	return L
}

func clone(D set) set {
	R := make(set, len(D))
	for i, I := range D {
		R[i] = map[int]int{}
		for k, v := range I {
			R[i][k] = v
		}
	}
	return R
}

func equal(a, b map[int]int, msg string) {
	nd.Assert(len(a) == len(b), msg)
	for k, v := range a {
		u, ok := b[k]
		nd.Assert(ok && u == v, msg)
	}
}

func equalSets(a, b set, msg string) {
	nd.Assert(len(a) == len(b), msg)
	for i := range a {
		equal(a[i], b[i], msg)
	}
}

func equalInts(a, b []int, msg string) {
	nd.Assert(len(a) == len(b), msg)
	for i := range a {
		nd.Assert(a[i] == b[i], msg)
	}
}

// scribble overwrites a result: the originals must not notice.
func scribble(D set) {
	for _, I := range D {
		I[0] = -99
		I[77] = 1
	}
}

// partition checks that the parts hold every instance exactly once, intact
// and with its label.
func partition(D set, L []int, P []set, M [][]int, msg string) {
	seen := make([]bool, len(D))
	n := 0
	for i, p := range P {
		if M != nil {
			nd.Assert(len(M[i]) == len(p), msg+" gives every instance a label")
		}
		for j, I := range p {
			k, ok := I[0]
			nd.Assert(ok && k >= 0 && k < len(D), msg+" invents no instance")
			nd.Assert(!seen[k], msg+" duplicates no instance")
			seen[k] = true
			n++
			equal(I, D[k], msg+" keeps instances intact")
			if M != nil {
				nd.Assert(M[i][j] == L[k], msg+" keeps every label with its instance")
			}
		}
	}
	nd.Assert(n == len(D), msg+" loses no instance")
}

func proportions(m int) []float64 {
	p := make([]float64, m)
	rest := 1.0
	for i := 0; i < m-1; i++ {
		p[i] = nd.Real(fmt.Sprintf("p%d", i), 0, 1)
		rest -= p[i]
	}
	nd.Assume(rest >= 0)
	p[m-1] = rest
	return p
}

func within(n int, f float64, d float64, msg string) {
	x := float64(n)
	nd.Assert(nd.Leq(x-f, d) && nd.Leq(f-x, d), msg)
}

// Partition: a random partition by proportions.
func Partition() {
	n := size("n", 4, 1)
	D := dataset("d", n, 0, true)
	K := clone(D)
	p := proportions(1 + nd.Choose("parts", nd.Bound("parts", 3)))
	P := data.Partition(D, p)
	nd.Assert(len(P) == len(p), "a partition has one part per proportion")
	partition(D, nil, P, nil, "a partition")
	for i := range P {
		within(len(P[i]), float64(n)*p[i], 1, "the parts of a partition have the sizes asked for up to rounding")
		scribble(P[i])
	}
	equalSets(D, K, "partitioning leaves the dataset alone")
}

// PartitionByLabels: a random partition balanced by label.
func PartitionByLabels() {
	c := 1 + nd.Choose("c", 2)
	n := size("n", 3, 1)
	D := dataset("d", n, 0, true)
	L := labels("l", n, c)
	K, LK := clone(D), append([]int{}, L...)
	p := proportions(1 + nd.Choose("parts", 2))
	P, M := data.PartitionByLabels(D, L, c, p)
	nd.Assert(len(P) == len(p) && len(M) == len(p), "a partition has one part per proportion")
	partition(D, L, P, M, "a partition by labels")
	cnt := make([]int, c)
	for _, l := range L {
		cnt[l]++
	}
	for i := range P {
		for l := 0; l < c; l++ {
			k := 0
			for _, x := range M[i] {
				if x == l {
					k++
				}
			}
			nd.Assert(nd.Leq(float64(cnt[l])*p[i]-1, float64(k)), "every part of a partition by labels gets its share of each label up to rounding")
		}
		scribble(P[i])
	}
	equalSets(D, K, "partitioning leaves the dataset alone")
	equalInts(L, LK, "partitioning leaves the labels alone")
}

// Split: the instances by label.
func Split() {
	c := 1 + nd.Choose("c", 3)
	n := size("n", 4, 1)
	D := dataset("d", n, 0, false)
	L := labels("l", n, c)
	K := clone(D)
	P := data.Split(D, c, L)
	nd.Assert(len(P) == c, "a split has one part per label")
	partition(D, L, P, nil, "a split")
	for l, p := range P {
		last := -1
		for _, I := range p {
			nd.Assert(L[I[0]] == l, "a split puts every instance with its label")
			nd.Assert(I[0] > last, "a split keeps the order of instances")
			last = I[0]
		}
		scribble(p)
	}
	equalSets(D, K, "splitting leaves the dataset alone")
}

// Copy: an independent copy.
func Copy() {
	n := size("n", 3, 1)
	D := dataset("d", n, 0, false)
	L := labels("l", n, 3)
	K, LK := clone(D), append([]int{}, L...)
	E, M := data.Copy(D, L)
	equalSets(D, E, "a copy is equal")
	equalInts(L, M, "a copy has equal labels")
	scribble(E)
	for i := range M {
		M[i] = -1
	}
	equalSets(D, K, "a copy is independent")
	equalInts(L, LK, "copied labels are independent")
	E, M = data.Copy(D, nil)
	equalSets(D, E, "a copy without labels is equal")
	nd.Assert(M == nil, "a copy without labels has no labels")
}

// Shuffle: any outcome is a permutation that keeps labels with instances.
func Shuffle() {
	n := size("n", 4, 1)
	D := dataset("d", n, 0, true)
	L := labels("l", n, 2)
	K := clone(D)
	LK := append([]int{}, L...)
	if nd.Choose("labelled", 2) == 1 {
		data.Shuffle(D, L)
		partition(K, LK, []set{D}, [][]int{L}, "a shuffle")
	} else {
		data.Shuffle(D, nil)
		partition(K, nil, []set{D}, nil, "a shuffle")
		equalInts(L, LK, "a shuffle without labels leaves other slices alone")
	}
}

// Join: concatenation.
func Join() {
	n, m := size("n", 3, 0), size("m", 3, 0)
	D, E := dataset("d", n, 0, false), dataset("e", m, n, false)
	L, M := labels("l", n, 3), labels("m", m, 3)
	KD, KE := clone(D), clone(E)
	F, P := data.Join(D, E, L, M)
	equalSets(F, append(clone(D), clone(E)...), "joining concatenates the instances")
	equalInts(P, append(append([]int{}, L...), M...), "joining concatenates the labels")
	scribble(F)
	equalSets(D, KD, "joining leaves the first dataset alone")
	equalSets(E, KE, "joining leaves the second dataset alone")
	F, P = data.Join(D, E, nil, nil)
	equalSets(F, append(clone(D), clone(E)...), "joining concatenates unlabelled instances")
	nd.Assert(P == nil, "joining unlabelled datasets gives no labels")
}

// Subtract: removing a label and removing a variable.
func Subtract() {
	n := size("n", 4, 1)
	D := dataset("d", n, 0, false)
	L := labels("l", n, 3)
	K := clone(D)
	l := nd.Choose("label", 4)
	S, P, T, Q := data.SubtractLabel(D, L, l)
	var s, t set
	var p, q []int
	for i := range D {
		if L[i] == l {
			t, q = append(t, D[i]), append(q, l)
		} else {
			s, p = append(s, D[i]), append(p, L[i])
		}
	}
	equalSets(S, s, "subtracting a label keeps exactly the other instances")
	equalInts(P, p, "subtracting a label keeps the other labels")
	equalSets(T, t, "subtracting a label returns exactly its instances")
	equalInts(Q, q, "subtracting a label returns its labels")
	scribble(S)
	scribble(T)
	equalSets(D, K, "subtracting a label leaves the dataset alone")
	v := nd.Choose("var", 4)
	E := data.SubtractVariable(D, &learn.Variable{Varid: v, Categories: 2})
	nd.Assert(len(E) == len(D), "subtracting a variable keeps every instance")
	for i := range D {
		w := map[int]int{}
		for k, x := range D[i] {
			if k != v {
				w[k] = x
			}
		}
		equal(E[i], w, "subtracting a variable removes exactly its values")
	}
	scribble(E)
	equalSets(D, K, "subtracting a variable leaves the dataset alone")
}

// loose draws n instances that may lack any of the variables.
func loose(name string, n int) set {
	D := make(set, n)
	for i := range D {
		D[i] = map[int]int{}
		for v := 0; v < nd.Bound("vars", 2); v++ {
			if nd.Choose(fmt.Sprintf("%s%d_%d?", name, i, v), 2) == 1 {
				D[i][v] = nd.Int(fmt.Sprintf("%s%d_%d", name, i, v), -5, 1<<30)
			}
		}
	}
	return D
}

// Identical: exactly the equal datasets are identical.
func Identical() {
	n, m := size("n", 2, 1), size("m", 2, 1)
	D, E := loose("d", n), loose("e", m)
	same := len(D) == len(E)
	for i := 0; same && i < n; i++ {
		if len(D[i]) != len(E[i]) {
			same = false
			break
		}
		for k, v := range D[i] {
			u, ok := E[i][k]
			if !ok || u != v {
				same = false
			}
		}
	}
	var L, M []int
	if nd.Choose("labelled", 2) == 1 {
		L, M = labels("l", n, 2), labels("m", m, 2)
		for i := 0; same && i < n; i++ {
			same = L[i] == M[i]
		}
	}
	nd.Assert(data.Identical(D, E, L, M) == same, "exactly equal datasets are identical")
}

// Labels: taking labels out and putting them back.
func Labels() {
	n := size("n", 3, 1)
	nv := 2 + nd.Choose("nv", 2)
	V := map[int]*learn.Variable{}
	for v := 0; v < nv; v++ {
		V[v] = &learn.Variable{Varid: v, Categories: 3 + v, Name: fmt.Sprint("x", v)}
	}
	D := make(set, n)
	for i := range D {
		D[i] = map[int]int{}
		for v := 0; v < nv; v++ {
			D[i][v] = nd.Int(fmt.Sprintf("d%d_%d", i, v), 0, 1<<20)
		}
	}
	K := clone(D)
	S, M, lv, L := data.ExtractLabels(V, D)
	nd.Assert(len(S) == nv, "extracting labels returns the scope")
	nd.Assert(lv == V[nv-1], "the label variable is the last one")
	nd.Assert(len(M) == n && len(L) == n, "extracting labels keeps every instance")
	for i := range M {
		nd.Assert(len(M[i]) == nv-1, "extracting labels removes exactly the label")
		for v := 0; v < nv-1; v++ {
			x, ok := M[i][v]
			nd.Assert(ok && x == K[i][v], "extracting labels keeps the other values")
		}
		nd.Assert(L[i] == K[i][nv-1], "the labels are the values of the label variable")
	}
	R := data.MergeLabel(M, L, lv)
	equalSets(R, K, "merging the labels back gives the dataset")
	scribble(R)
	for i := range M {
		nd.Assert(len(M[i]) == nv-1, "merging leaves the dataset alone")
	}
	equalSets(D, K, "extracting labels leaves the dataset alone")
}

// Divide: parts of nearly equal size.
func Divide() {
	m := size("m", 5, 1)
	n := 1 + nd.Choose("parts", nd.Bound("parts", 4))
	D := dataset("d", m, 0, true)
	L := labels("l", m, 2)
	K := clone(D)
	P, M := data.Divide(D, L, n)
	nd.Assert(len(P) == len(M), "dividing divides instances and labels alike")
	partition(D, L, P, M, "a division")
	if m >= n {
		nd.Assert(len(P) == n, "a division has the number of parts asked for")
		for i := range P {
			nd.Assert(len(P[i]) == m/n || len(P[i]) == m/n+1, "the parts of a division have nearly equal sizes")
		}
	}
	for i := range P {
		scribble(P[i])
	}
	equalSets(D, K, "dividing leaves the dataset alone")
}

// Big: the same with many instances.
func Big() {
	switch nd.Choose("what", 6) {
	case 0:
		Split()
	case 1:
		Copy()
	case 2:
		Join()
	case 3:
		Subtract()
	case 4:
		Labels()
	case 5:
		Divide()
	}
}

// BigRandom: the same with many instances, in random order.
func BigRandom() {
	switch nd.Choose("what", 3) {
	case 0:
		Partition()
	case 1:
		PartitionByLabels()
	case 2:
		Shuffle()
	}
}

// BigIdentical: many instances, one of which may differ.
func BigIdentical() {
	n := nd.Bound("big", 20)
	D := dataset("d", n, 0, true)
	E := clone(D)
	L := labels("l", n, 3)
	M := append([]int{}, L...)
	same := true
	at := nd.Choose("at", n)
	switch nd.Choose("what", 4) {
	case 1:
		x := nd.Int("x", -5, 1<<30)
		same = x == E[at][1]
		E[at][1] = x
	case 2:
		delete(E[at], 1)
		same = false
	case 3:
		M[at]++
		same = false
	}
	nd.Assert(data.Identical(D, E, L, M) == same, "exactly equal datasets are identical")
}
