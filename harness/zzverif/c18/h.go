// Package c18: independence tests, disjoint sets and the independence graph.
package c18

import (
	"fmt"
	"math"

	"gonum.org/v1/gonum/stat/distuv"

	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/utils/indep"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// withTotals adds the margins to a table.
func withTotals(t [][]int, p, q int) [][]int {
	T := make([][]int, p+1)
	T[p] = make([]int, q+1)
	for i := 0; i < p; i++ {
		T[i] = make([]int, q+1)
		for j := 0; j < q; j++ {
			T[i][j] = t[i][j]
			T[i][q] += t[i][j]
			T[p][j] += t[i][j]
			T[p][q] += t[i][j]
		}
	}
	return T
}

// survival is the probability of a value above x under the chi-squared
// distribution.
func survival(x float64, df int) float64 {
	if df == 0 {
		return 1
	}
	return 1 - distuv.ChiSquared{K: float64(df)}.CDF(x)
}

// gstat is the log-likelihood ratio statistic.
func gstat(T [][]int, p, q int) float64 {
	n := float64(T[p][q])
	g := 0.0
	for i := 0; i < p; i++ {
		for j := 0; j < q; j++ {
			if T[i][j] != 0 {
				o := float64(T[i][j])
				g += 2 * o * math.Log(o*n/(float64(T[i][q])*float64(T[p][j])))
			}
		}
	}
	return g
}

// xstat is Pearson's statistic.
func xstat(T [][]int, p, q int) float64 {
	n := float64(T[p][q])
	x := 0.0
	for i := 0; i < p; i++ {
		for j := 0; j < q; j++ {
			if T[i][q] != 0 && T[p][j] != 0 {
				e := float64(T[i][q]) * float64(T[p][j]) / n
				o := float64(T[i][j])
				x += (o - e) * (o - e) / e
			}
		}
	}
	return x
}

func table(p, q int, cell func(i, j int) int) [][]int {
	t := make([][]int, p)
	for i := range t {
		t[i] = make([]int, q)
		for j := range t[i] {
			t[i][j] = cell(i, j)
		}
	}
	return t
}

func verdict(got bool, surv, sig float64, what string) {
	if got {
		nd.Assert(nd.Leq(sig, surv), what+": independent only if the p-value reaches the significance")
	} else {
		nd.Assert(nd.Leq(surv, sig), what+": dependent only if the p-value is below the significance")
	}
}

func unchanged(T, U [][]int) {
	for i := range T {
		for j := range T[i] {
			nd.Assert(T[i][j] == U[i][j], "the table is left alone")
		}
	}
}

// ChiAny: Pearson's test on every table of positive counts.
func ChiAny() {
	p, q := 2+nd.Choose("p", nd.Bound("p", 1)), 2+nd.Choose("q", nd.Bound("q", 2))
	t := table(p, q, func(i, j int) int { return nd.Int(fmt.Sprintf("n%d%d", i, j), 1, 1000) })
	T := withTotals(t, p, q)
	U := withTotals(t, p, q)
	sig := nd.Real("sig", 0, 1)
	want := survival(xstat(U, p, q), (p-1)*(q-1))
	got := indep.ChiSquareTest(p, q, T, sig)
	verdict(got, want, sig, "Pearson's test")
	unchanged(T, U)
}

// GAny: the G-test on every table of positive counts.
func GAny() {
	p, q := 2+nd.Choose("p", nd.Bound("p", 1)), 2+nd.Choose("q", nd.Bound("q", 2))
	t := table(p, q, func(i, j int) int { return nd.Int(fmt.Sprintf("n%d%d", i, j), 1, 1000) })
	T := withTotals(t, p, q)
	U := withTotals(t, p, q)
	sig := nd.Real("sig", 0, 1)
	want := survival(gstat(U, p, q), (p-1)*(q-1))
	got := indep.GTest(p, q, T, T[p][q], sig)
	verdict(got, want, sig, "G-test")
	unchanged(T, U)
}

// Tables: both tests on every small table, zeros included.
func Tables() {
	p, q := 1+nd.Choose("p", nd.Bound("p", 2)), 1+nd.Choose("q", nd.Bound("q", 2))
	vals := []int{0, 1, 2, 5, 9}
	t := table(p, q, func(i, j int) int { return vals[nd.Choose(fmt.Sprintf("n%d%d", i, j), nd.Bound("vals", 4))] })
	T := withTotals(t, p, q)
	U := withTotals(t, p, q)
	nd.Assume(T[p][q] > 0)
	sig := nd.Real("sig", 0, 1)
	df := (p - 1) * (q - 1)
	if nd.Choose("test", 2) == 0 {
		verdict(indep.ChiSquareTest(p, q, T, sig), survival(xstat(U, p, q), df), sig, "Pearson's test")
	} else {
		verdict(indep.GTest(p, q, T, T[p][q], sig), survival(gstat(U, p, q), df), sig, "G-test")
	}
	unchanged(T, U)
	nd.Assert(nd.Same(indep.ChiSquare(3, 2), distuv.ChiSquared{K: 2}.CDF(3)), "the distribution function is that of chi-squared")
}

// Cdf: the distribution function is passed on as it is.
func Cdf() {
	df := 1 + nd.Choose("df", 6)
	x := nd.Real("x", 0, 100)
	nd.Assert(nd.Same(indep.ChiSquare(x, df), distuv.ChiSquared{K: float64(df)}.CDF(x)), "the distribution function is that of chi-squared")
}

// Sets: every history of unions and finds on disjoint sets.
func Sets() {
	n := 1 + nd.Choose("n", nd.Bound("n", 4))
	ids := make([]int, n)
	S := make([]*utils.UFNode, n)
	group := make([]int, n)
	for i := range S {
		ids[i] = nd.Int(fmt.Sprintf("id%d", i), -1000, 1<<40)
		S[i] = utils.MakeSet(ids[i])
		group[i] = i
	}
	agree := func() {
		for i := range S {
			r := utils.Find(S[i])
			root := -1
			for j := range S {
				if S[j] == r {
					root = j
				}
				nd.Assert((utils.Find(S[j]) == r) == (group[i] == group[j]), "two elements have the same representative exactly if they were united")
			}
			nd.Assert(root >= 0 && group[root] == group[i], "the representative is a member of the set")
			vs := utils.UFVarids(r)
			var want []int
			for j := range S {
				if group[j] == group[i] {
					want = append(want, ids[j])
				}
			}
			same(vs, want, "a set lists exactly its members")
		}
	}
	m := nd.Choose("ops", nd.Bound("ops", 4)+1)
	for k := 0; k < m; k++ {
		i, j := nd.Choose("i", n), nd.Choose("j", n+1)
		if j == n {
			utils.Find(S[i])
			continue
		}
		r, w := utils.Union(S[i], S[j])
		if group[i] == group[j] {
			nd.Assert(r == nil && w == -1, "uniting a set with itself does nothing")
		} else {
			nd.Assert(w == 1 || w == 2, "the side of the new representative is reported")
			gi, gj := group[i], group[j]
			for l := range S {
				if S[l] == r {
					nd.Assert((w == 1 && group[l] == gi) || (w == 2 && group[l] == gj), "the side of the new representative is reported")
				}
			}
			for l := range group {
				if group[l] == gj {
					group[l] = gi
				}
			}
			nd.Assert(r == utils.Find(S[i]) && r == utils.Find(S[j]), "the union's representative is returned")
		}
	}
	agree()
}

// same compares two lists of numbers as multisets.
func same(a, b []int, msg string) {
	nd.Assert(len(a) == len(b), msg)
	used := make([]bool, len(b))
	for _, x := range a {
		found := false
		for j, y := range b {
			if !used[j] && x == y {
				used[j], found = true, true
				break
			}
		}
		nd.Assert(found, msg)
	}
}

// Graph: the sets of the independence graph are the connected components of
// the pairwise dependences.
func Graph() {
	nv := 1 + nd.Choose("vars", nd.Bound("vars", 3))
	m := 1 + nd.Choose("m", nd.Bound("m", 3))
	pool := []int{7, 0, 3, 12}
	cats := make([]int, nv)
	cols := make([][]int, nv)
	// repeated rows make the statistics larger
	rep := []int{1, 4}[nd.Choose("rep", nd.Bound("rep", 2))]
	for v := range cols {
		cats[v] = 2
		if v == 0 {
			cats[v] = 1 + nd.Choose("cats", 3)
		}
		for k := 0; k < m; k++ {
			x := nd.Choose(fmt.Sprintf("x%d_%d", v, k), cats[v])
			for r := 0; r < rep; r++ {
				cols[v] = append(cols[v], x)
			}
		}
	}
	graph(pool, cats, cols, 0)
}

func graph(pool, cats []int, cols [][]int, lo float64) {
	nv := len(cols)
	D := make([]*utils.VarData, nv)
	for v := range D {
		D[v] = utils.NewVarData(pool[v], cats[v], append([]int(nil), cols[v]...))
	}
	sig := nd.Real("sig", lo, 1)
	group := make([]int, nv)
	for i := range group {
		group[i] = i
	}
	clear := true
	for i := 0; i < nv; i++ {
		for j := i + 1; j < nv; j++ {
			t := table(cats[i], cats[j], func(a, b int) int { return 0 })
			for k := range cols[i] {
				t[cols[i][k]][cols[j][k]]++
			}
			T := withTotals(t, cats[i], cats[j])
			s := survival(gstat(T, cats[i], cats[j]), (cats[i]-1)*(cats[j]-1))
			if math.Abs(s-sig) < 1e-9 {
				clear = false
			}
			if s < sig {
				gi, gj := group[i], group[j]
				for l := range group {
					if group[l] == gj {
						group[l] = gi
					}
				}
			}
		}
	}
	nd.Assume(clear)
	var G *indep.Graph
	if nd.Choose("which", 2) == 0 {
		G = indep.NewIndepGraph(D, sig)
	} else {
		G = indep.NewUFIndepGraph(D, sig)
	}
	seen := make([]bool, nv)
	for _, ks := range G.Kset {
		nd.Assert(len(ks) > 0, "no set is empty")
		g := -1
		for _, id := range ks {
			v := -1
			for u := range D {
				if pool[u] == id {
					v = u
				}
			}
			nd.Assert(v >= 0 && !seen[v], "every variable is in exactly one set")
			seen[v] = true
			if g < 0 {
				g = group[v]
			}
			nd.Assert(group[v] == g, "variables in one set are linked by dependences")
		}
		n := 0
		for u := range D {
			if group[u] == g {
				n++
			}
		}
		nd.Assert(n == len(ks), "linked variables are in one set")
	}
	for v := range seen {
		nd.Assert(seen[v], "every variable is in exactly one set")
		nd.Assert(D[v].Varid == pool[v] && D[v].Categories == cats[v] && len(D[v].Data) == len(cols[v]), "the data are left alone")
		for k := range cols[v] {
			nd.Assert(D[v].Data[k] == cols[v][k], "the data are left alone")
		}
	}
}

// Merges: every way to merge elements into one set (up to the order of the
// elements), through any of their members.
func Merges() {
	n := nd.Bound("n", 6)
	S := make([]*utils.UFNode, n)
	sets := make([][]int, n)
	for i := range S {
		S[i] = utils.MakeSet(i)
		sets[i] = []int{i}
	}
	// Elements that are alone are alike: only the first ones are chosen.
	pick := func(name string, not int) int {
		var c []int
		alone := false
		for i, s := range sets {
			if i == not || (len(s) == 1 && alone) {
				continue
			}
			alone = alone || len(s) == 1
			c = append(c, i)
		}
		return c[nd.Choose(name, len(c))]
	}
	member := func(name string, s []int) *utils.UFNode {
		if len(s) > 1 && nd.Bool(name) {
			return S[s[len(s)-1]]
		}
		return S[s[0]]
	}
	for len(sets) > 1 {
		i := pick("first", -1)
		j := pick("second", i)
		r, _ := utils.Union(member("member", sets[i]), member("member", sets[j]))
		all := append(append([]int{}, sets[i]...), sets[j]...)
		same(utils.UFVarids(r), all, "a set lists exactly its members")
		for _, a := range all {
			nd.Assert(utils.Find(S[a]) == r, "two elements have the same representative exactly if they were united")
		}
		var rest [][]int
		for l := range sets {
			if l != i && l != j {
				rest = append(rest, sets[l])
			}
		}
		sets = append(rest, all)
	}
}

// BigSets: many elements, united in several orders.
func BigSets() {
	n := nd.Bound("big", 40)
	S := make([]*utils.UFNode, n)
	group := make([]int, n)
	for i := range S {
		S[i] = utils.MakeSet(3*i + 1)
		group[i] = i
	}
	unite := func(i, j int) {
		r, w := utils.Union(S[i], S[j])
		if group[i] == group[j] {
			nd.Assert(r == nil && w == -1, "uniting a set with itself does nothing")
			return
		}
		nd.Assert(r == utils.Find(S[i]) && r == utils.Find(S[j]), "the union's representative is returned")
		gi, gj := group[i], group[j]
		for l := range group {
			if group[l] == gj {
				group[l] = gi
			}
		}
	}
	switch nd.Choose("order", 5) {
	case 0:
		for i := 0; i+1 < n; i++ {
			unite(i, i+1)
		}
	case 1:
		for i := n - 1; i > 0; i-- {
			unite(i, i-1)
		}
	case 2:
		for w := 1; w < n; w *= 2 {
			for i := 0; i+w < n; i += 2 * w {
				unite(i, i+w)
			}
		}
	case 3:
		for i := 0; i+5 < n; i++ {
			unite(i+5, i)
		}
	case 4:
		for i := 1; i < n-2; i++ {
			unite(0, i)
			unite(i, i/2)
		}
	}
	if nd.Choose("more", 2) == 1 {
		unite([]int{0, n - 1, n / 2}[nd.Choose("i", 3)], nd.Choose("j", n))
	}
	for i := range S {
		r := utils.Find(S[i])
		var want []int
		for j := range S {
			nd.Assert((utils.Find(S[j]) == r) == (group[i] == group[j]), "two elements have the same representative exactly if they were united")
			if group[i] == group[j] {
				want = append(want, 3*j+1)
			}
		}
		if i%7 == 0 {
			same(utils.UFVarids(r), want, "a set lists exactly its members")
		}
	}
}

// BigTables: both tests on larger tables.
func BigTables() {
	p, q := 2+nd.Choose("p", nd.Bound("p", 6)), 2+nd.Choose("q", nd.Bound("q", 6))
	seed := nd.Choose("seed", 3)
	t := table(p, q, func(i, j int) int {
		return [][]int{{5, 0, 9, 2, 30}, {10, 11, 9, 10, 12}, {100, 0, 0, 3, 0, 1}}[seed][(i*i+3*j+i*j)%5]
	})
	T := withTotals(t, p, q)
	U := withTotals(t, p, q)
	sig := nd.Real("sig", 0, 1)
	df := (p - 1) * (q - 1)
	if nd.Choose("test", 2) == 0 {
		verdict(indep.ChiSquareTest(p, q, T, sig), survival(xstat(U, p, q), df), sig, "Pearson's test")
	} else {
		verdict(indep.GTest(p, q, T, T[p][q], sig), survival(gstat(U, p, q), df), sig, "G-test")
	}
	unchanged(T, U)
}

// BigGraph: independence graphs of many variables.
func BigGraph() {
	nv := nd.Bound("big", 8)
	m := 40
	pool := make([]int, nv)
	cats := make([]int, nv)
	cols := make([][]int, nv)
	r := 1 + nd.Choose("seed", 3)
	for v := range cols {
		pool[v] = (v*7 + 3) % 29
		cats[v] = 2 + v%3
	}
	for k := 0; k < m; k++ {
		for v := range cols {
			r = (r*137 + 29) % 4093
			x := r % cats[v]
			if v >= 2 && v%2 == 0 && r%5 < 3 {
				x = cols[v-2][k] % cats[v]
			}
			cols[v] = append(cols[v], x)
		}
	}
	graph(pool, cats, cols, 0.001)
}
