// Package c19: clustering.
package c19

import (
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils/cluster"
	"github.com/RenatoGeh/gospn/utils/cluster/metrics"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// points draws n points of dimension d with coordinates 0..vals-1.  Without
// repetitions, and up to their order, if distinct.
func points(n, d, vals int, distinct bool) [][]int {
	P := make([][]int, n)
	if nd.Bound("big", 0) > 0 {
		r := 1 + nd.Choose("seed", 3)
		for i := range P {
			P[i] = make([]int, d)
			for j := range P[i] {
				r = (r*137 + 29) % 4093
				P[i][j] = r % vals
			}
		}
		return P
	}
	for i := range P {
		P[i] = make([]int, d)
		for j := range P[i] {
			P[i][j] = nd.Int(fmt.Sprintf("x%d_%d", i, j), 0, vals-1)
		}
		if distinct {
			for k := 0; k < i; k++ {
				nd.Assume(!equal(P[i], P[k]))
			}
		}
	}
	return P
}

// dims is the number of points and of their coordinates.
func dims(n, d int) (int, int) {
	if b := nd.Bound("big", 0); b > 0 {
		return b - nd.Choose("n", 2), nd.Bound("d", 2)
	}
	return 1 + nd.Choose("n", nd.Bound("n", n)), 1 + nd.Choose("d", nd.Bound("d", d))
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func dup(P [][]int) [][]int {
	Q := make([][]int, len(P))
	for i := range P {
		Q[i] = append([]int(nil), P[i]...)
	}
	return Q
}

func floats(P [][]int) [][]float64 {
	Q := make([][]float64, len(P))
	for i := range P {
		for _, v := range P[i] {
			Q[i] = append(Q[i], float64(v))
		}
	}
	return Q
}

// ids are the variables of datasets.
var ids = []int{4, 0, 9}

func dataset(P [][]int) []map[int]int {
	D := make([]map[int]int, len(P))
	for i := range P {
		D[i] = map[int]int{}
		for j, v := range P[i] {
			D[i][ids[j]] = v
		}
	}
	return D
}

func unchanged(P, Q [][]int) {
	for i := range P {
		nd.Assert(equal(P[i], Q[i]), "the instances are left alone")
	}
}

func unchangedData(D []map[int]int, P [][]int) {
	for i := range D {
		nd.Assert(len(D[i]) == len(P[i]), "the instances are left alone")
		for j, v := range P[i] {
			w, ok := D[i][ids[j]]
			nd.Assert(ok && w == v, "the instances are left alone")
		}
	}
}

// parts checks that C puts every instance, intact, into exactly one cluster,
// and returns the cluster of each.
func parts(C []map[int][]int, P [][]int) []int {
	G := make([]int, len(P))
	for i := range G {
		G[i] = -1
	}
	for c, M := range C {
		for i, x := range M {
			nd.Assert(i >= 0 && i < len(P), "clusters hold instances")
			nd.Assert(G[i] < 0, "no instance is in two clusters")
			G[i] = c
			nd.Assert(equal(x, P[i]), "instances come through clustering intact")
		}
	}
	for _, g := range G {
		nd.Assert(g >= 0, "every instance is in a cluster")
	}
	return G
}

func partsF(C []map[int][]float64, P [][]int) []int {
	D := make([]map[int][]int, len(C))
	for c := range C {
		D[c] = map[int][]int{}
		for i, x := range C[c] {
			D[c][i] = make([]int, len(x))
			for j, v := range x {
				nd.Assert(v == math.Floor(v), "instances come through clustering intact")
				D[c][i][j] = int(v)
			}
		}
	}
	return parts(D, P)
}

// partsData is the same for clusters of datasets, whose instances have no
// number: it matches them by contents.
func partsData(C [][]map[int]int, P [][]int) []int {
	G := make([]int, len(P))
	for i := range G {
		G[i] = -1
	}
	for c, L := range C {
		for _, I := range L {
			found := false
			for i := range P {
				if G[i] >= 0 || len(I) != len(P[i]) {
					continue
				}
				ok := true
				for j, v := range P[i] {
					w, e := I[ids[j]]
					if !e || w != v {
						ok = false
					}
				}
				if ok {
					G[i], found = c, true
					break
				}
			}
			nd.Assert(found, "clusters hold exactly the given instances")
		}
	}
	for _, g := range G {
		nd.Assert(g >= 0, "every instance is in a cluster")
	}
	return G
}

func sizes(G []int, k int) []int {
	s := make([]int, k)
	for _, g := range G {
		nd.Assert(g >= 0 && g < k, "there are as many clusters as asked for")
		s[g]++
	}
	return s
}

func dist2(x []int, m []float64) float64 {
	s := 0.0
	for j, v := range x {
		s += (float64(v) - m[j]) * (float64(v) - m[j])
	}
	return s
}

// nearest checks that every point is nearest to the mean of its own cluster.
func nearest(G []int, k int, P [][]int) {
	s := sizes(G, k)
	M := make([][]float64, k)
	for c := range M {
		nd.Assert(s[c] > 0, "no cluster is empty")
		M[c] = make([]float64, len(P[0]))
		for i, g := range G {
			if g == c {
				for j, v := range P[i] {
					M[c][j] += float64(v) / float64(s[c])
				}
			}
		}
	}
	for i, g := range G {
		for c := range M {
			nd.Assert(nd.Leq(dist2(P[i], M[g]), dist2(P[i], M[c])), "every instance is nearest to the mean of its own cluster")
		}
	}
}

// KMeans: all the entry points to k-means, on distinct points.
func KMeans() {
	n := 1 + nd.Choose("n", nd.Bound("n", 3))
	d := 1 + nd.Choose("d", nd.Bound("d", 1))
	k := 1 + nd.Choose("k", n)
	if m := nd.Bound("k", 2); k > m {
		nd.Assume(false)
	}
	// The k-means module the repository imports fills a cluster that turns
	// empty with a random instance and may stop right there.
	repl := nd.Choose("replacements", 2)
	nd.MaxDraws(k*d + repl)
	P := points(n, d, nd.Bound("vals", 4), true)
	Q := dup(P)
	var G []int
	switch nd.Choose("which", 6) {
	case 0:
		G = parts(cluster.KMeans(k, Q), P)
	case 1:
		F := floats(P)
		G = cluster.KMeansI(k, F)
		nd.Assert(len(G) == n, "every instance is in a cluster")
		for i := range F {
			for j := range F[i] {
				nd.Assert(F[i][j] == float64(P[i][j]), "the instances are left alone")
			}
		}
	case 2:
		G = partsF(cluster.KMeansF(k, floats(P), nil), P)
	case 3:
		D := dataset(P)
		C := cluster.KMeansDataI(k, D)
		nd.Assert(len(C) == k, "there are as many clusters as asked for")
		G = partsData(C, P)
		unchangedData(D, P)
	case 4:
		D := dataset(P)
		C := cluster.KMeansData(k, D)
		nd.Assert(len(C) == k, "there are as many clusters as asked for")
		if d == 1 {
			G = parts(C, P)
		} else {
			G = keyed(len(C), n, func(c int, f func(int)) {
				for i := range C[c] {
					f(i)
				}
			})
		}
		unchangedData(D, P)
	case 5:
		D := dataset(P)
		C := cluster.KMeansFData(k, D)
		nd.Assert(len(C) == k, "there are as many clusters as asked for")
		if d == 1 {
			G = partsF(C, P)
		} else {
			G = keyed(len(C), n, func(c int, f func(int)) {
				for i := range C[c] {
					f(i)
				}
			})
		}
		unchangedData(D, P)
	}
	unchanged(Q, P)
	s := sizes(G, k)
	for _, c := range s {
		nd.Assert(c > 0, "no cluster is empty")
	}
	if repl == 0 {
		nearest(G, k, P)
	}
}

func keyed(k, n int, each func(int, func(int))) []int {
	G := make([]int, n)
	for i := range G {
		G[i] = -1
	}
	for c := 0; c < k; c++ {
		each(c, func(i int) {
			nd.Assert(i >= 0 && i < n && G[i] < 0, "no instance is in two clusters")
			G[i] = c
		})
	}
	for _, g := range G {
		nd.Assert(g >= 0, "every instance is in a cluster")
	}
	return G
}

// Repeated: k-means with repeated points still puts every instance into
// exactly one of k clusters.
func Repeated() {
	n := 2 + nd.Choose("n", nd.Bound("n", 1))
	P := points(n, 1, 2, false)
	k := 1
	G := partsData(cluster.KMeansDataI(k, dataset(P)), P)
	sizes(G, k)
}

// Lloyd: the plain k-means.
func Lloyd() {
	sys.Random = newRand()
	n, d := dims(4, 1)
	k := 1 + nd.Choose("k", n)
	if m := nd.Bound("k", 2); k > m {
		nd.Assume(false)
	}
	nd.MaxDraws(k + 1)
	P := points(n, d, nd.Bound("vals", 4), false)
	F := floats(P)
	C := cluster.OldKMeansF(k, F, metrics.EuclideanF)
	nd.Assert(len(C) == k, "there are as many clusters as asked for")
	G := partsF(C, P)
	for i := range F {
		for j := range F[i] {
			nd.Assert(F[i][j] == float64(P[i][j]), "the instances are left alone")
		}
	}
	s := sizes(G, k)
	for _, c := range s {
		if c == 0 {
			return // repeated points may leave a cluster empty
		}
	}
	nearest(G, k, P)
}

func hamming(a, b []int) int {
	n := 0
	for i := range a {
		if a[i] != b[i] {
			n++
		}
	}
	return n
}

// moded tells whether there are modes of the clusters (ties broken in any
// way, those of empty clusters arbitrary) such that every point is nearest to
// the mode of its own cluster.
func moded(G []int, k int, P [][]int, vals int) bool {
	d := len(P[0])
	cnt := make([][][]int, k)
	s := make([]int, k)
	for _, g := range G {
		s[g]++
	}
	for c := range cnt {
		cnt[c] = make([][]int, d)
		for j := range cnt[c] {
			cnt[c][j] = make([]int, vals)
			for i, g := range G {
				if g == c {
					cnt[c][j][P[i][j]]++
				}
			}
		}
	}
	M := make([][]int, k)
	for c := range M {
		M[c] = make([]int, d)
	}
	var try func(c, j int) bool
	try = func(c, j int) bool {
		if c == k {
			for i, g := range G {
				for e := range M {
					if s[e] > 0 && hamming(M[g], P[i]) > hamming(M[e], P[i]) {
						return false
					}
				}
			}
			return true
		}
		if j == d {
			return try(c+1, 0)
		}
		best := 0
		for _, n := range cnt[c][j] {
			if n > best {
				best = n
			}
		}
		for v, n := range cnt[c][j] {
			if n == best {
				M[c][j] = v
				if try(c, j+1) {
					return true
				}
			}
		}
		return false
	}
	return try(0, 0)
}

// Modes: k-modes, under both of its names.
func Modes() {
	modes(0)
}

// Five: k-modes on five points.
func Five() {
	modes(5)
}

// Six: k-modes on six points, the first two of them given.
func Six() {
	modes(6)
}

func modes(exact int) {
	sys.Random = newRand()
	n := exact
	d, k := 2, 2
	if exact == 0 {
		n, d = dims(4, 2)
		k = 1 + nd.Choose("k", n)
		if m := nd.Bound("k", 2); k > m {
			nd.Assume(false)
		}
		nd.MaxDraws(k + 1)
	} else {
		nd.MaxDraws(k)
	}
	vals := nd.Bound("vals", 2)
	P := points(n, d, vals, false)
	if exact == 5 && nd.Bound("given", 0) > 0 {
		nd.Assume(equal(P[0], []int{0, 0}))
	}
	if exact > 5 {
		nd.Assume(equal(P[0], []int{1, 0}) && equal(P[1], []int{0, 0}))
	}
	Q := dup(P)
	var C []map[int][]int
	if nd.Choose("which", 2) == 0 {
		C = cluster.KMode(k, Q)
	} else {
		C = cluster.OldKMeans(k, Q)
	}
	nd.Assert(len(C) == k, "there are as many clusters as asked for")
	G := parts(C, P)
	unchanged(Q, P)
	nd.Assert(moded(G, k, P, vals), "every instance is nearest to the mode of its own cluster")
}

// FiveMedoids: k-medoids on five points.
func FiveMedoids() {
	sys.Random = newRand()
	nd.MaxDraws(3)
	P := points(5, 2, nd.Bound("vals", 2), false)
	if nd.Bound("given", 0) > 0 {
		nd.Assume(equal(P[0], []int{0, 0}))
	}
	Q := dup(P)
	C := cluster.KMedoid(2, Q)
	nd.Assert(len(C) == 2, "there are as many clusters as asked for")
	G := parts(C, P)
	unchanged(Q, P)
	nd.Assert(centred(G, 2, P), "the clusters are those of the nearest of some of their own instances")
}

// Medoids: k-medoids.
func Medoids() {
	sys.Random = newRand()
	n, d := dims(4, 2)
	k := 1 + nd.Choose("k", n)
	if m := nd.Bound("k", 2); k > m {
		nd.Assume(false)
	}
	nd.MaxDraws(n)
	P := points(n, d, nd.Bound("vals", 2), false)
	Q := dup(P)
	C := cluster.KMedoid(k, Q)
	nd.Assert(len(C) == k, "there are as many clusters as asked for")
	G := parts(C, P)
	unchanged(Q, P)
	nd.Assert(centred(G, k, P), "the clusters are those of the nearest of some of their own instances")
}

// centred tells whether a member can be picked from every cluster so that
// every point is nearest to the one of its own cluster.
func centred(G []int, k int, P [][]int) bool {
	M := make([]int, k)
	var try func(c int) bool
	try = func(c int) bool {
		if c == k {
			for i, g := range G {
				for _, m := range M {
					if m >= 0 && hamming(P[M[g]], P[i]) > hamming(P[m], P[i]) {
						return false
					}
				}
			}
			return true
		}
		empty := true
		for i, g := range G {
			if g == c {
				empty = false
				M[c] = i
				if try(c + 1) {
					return true
				}
			}
		}
		if empty {
			M[c] = -1
			return try(c + 1)
		}
		return false
	}
	return try(0)
}

// near is the neighbourhood relation.
func near(P [][]int, eps float64) [][]bool {
	N := make([][]bool, len(P))
	for i := range P {
		N[i] = make([]bool, len(P))
		for j := range P {
			s := 0
			for l := range P[i] {
				s += (P[i][l] - P[j][l]) * (P[i][l] - P[j][l])
			}
			N[i][j] = i != j && math.Sqrt(float64(s)) <= eps
		}
	}
	return N
}

func dense(N [][]bool, mp int) []bool {
	C := make([]bool, len(N))
	for i := range N {
		n := 0
		for j := range N {
			if N[i][j] {
				n++
			}
		}
		C[i] = n >= mp
	}
	return C
}

// radius is any distance away from those between the points or, on a line
// (where the distances are integers), a whole one.
func radius(P [][]int) float64 {
	if nd.Bound("big", 0) > 0 {
		return []float64{0.5, 1.25, 1.75, 2.125, 2.5, 3.25}[nd.Choose("eps", 6)]
	}
	if len(P[0]) == 1 && nd.Choose("whole radius", 2) == 1 {
		return float64(nd.Int("radius", 0, 1000))
	}
	eps := nd.Real("eps", 0, 1000)
	for i := range P {
		for j := 0; j < i; j++ {
			s := 0
			for l := range P[i] {
				s += (P[i][l] - P[j][l]) * (P[i][l] - P[j][l])
			}
			nd.Assume(math.Abs(eps-math.Sqrt(float64(s))) > 1e-6)
		}
	}
	nd.Assume(eps > 1e-6)
	return eps
}

// Dbscan: the clusters are the groups linked by dense neighbourhoods.
func Dbscan() {
	n, d := dims(4, 1)
	vals := nd.Bound("vals", 4)
	P := points(n, d, vals, false)
	Q := dup(P)
	eps := radius(P)
	mp := 1 + nd.Choose("mp", nd.Bound("mp", 3))
	N := near(P, eps)
	core := dense(N, mp)
	group := make([]int, n)
	for i := range group {
		group[i] = i
	}
	for i := range P {
		for j := range P {
			if core[i] && N[i][j] {
				gi, gj := group[i], group[j]
				for l := range group {
					if group[l] == gj {
						group[l] = gi
					}
				}
			}
		}
	}
	k := 0
	for i, g := range group {
		if i == g {
			k++
		}
	}
	var G []int
	if nd.Choose("which", 2) == 0 {
		C := cluster.DBSCAN(Q, eps, mp)
		G = parts(C, P)
		unchanged(Q, P)
		nd.Assert(len(C) == len(distinct(G)), "no cluster is empty")
		for i := range P {
			for j := range P {
				nd.Assert((G[i] == G[j]) == (group[i] == group[j]), "instances are together exactly if dense neighbourhoods link them")
			}
		}
	} else {
		D := dataset(P)
		C := cluster.DBSCANData(D, eps, mp)
		G = partsData(C, P)
		unchangedData(D, P)
		nd.Assert(len(C) == len(distinct(G)), "no cluster is empty")
		for i := range P {
			for j := range P {
				if unique(P, i) && unique(P, j) {
					nd.Assert((G[i] == G[j]) == (group[i] == group[j]), "instances are together exactly if dense neighbourhoods link them")
				}
			}
		}
	}
	nd.Assert(len(distinct(G)) == len(distinct(group)), "there are as many clusters as linked groups")
}

func distinct(G []int) map[int]bool {
	m := map[int]bool{}
	for _, g := range G {
		m[g] = true
	}
	return m
}

func unique(P [][]int, i int) bool {
	for j := range P {
		if i != j && equal(P[i], P[j]) {
			return false
		}
	}
	return true
}

// Optics: a cluster is a connected group of dense points with some of their
// neighbours; what is left over is the first cluster.
func Optics() {
	n, d := dims(4, 1)
	vals := nd.Bound("vals", 4)
	P := points(n, d, vals, false)
	Q := dup(P)
	eps := radius(P)
	mp := 1 + nd.Choose("mp", nd.Bound("mp", 3))
	N := near(P, eps)
	core := dense(N, mp)
	group := make([]int, n)
	for i := range group {
		group[i] = i
	}
	for i := range P {
		for j := range P {
			if core[i] && core[j] && N[i][j] {
				gi, gj := group[i], group[j]
				for l := range group {
					if group[l] == gj {
						group[l] = gi
					}
				}
			}
		}
	}
	G := parts(cluster.OPTICS(Q, eps, mp), P)
	unchanged(Q, P)
	for i := range P {
		if core[i] {
			nd.Assert(G[i] != 0, "a dense point is not noise")
			for j := range P {
				if core[j] {
					nd.Assert((G[i] == G[j]) == (group[i] == group[j]), "dense points are together exactly if dense points link them")
				}
			}
		} else if G[i] != 0 {
			ok := false
			for j := range P {
				if core[j] && N[j][i] && G[j] == G[i] {
					ok = true
				}
			}
			nd.Assert(ok, "other points are in the cluster of a dense neighbour")
		}
	}
}

// Metrics: the distances.
func Metrics() {
	d := nd.Choose("d", nd.Bound("d", 3)+1)
	a, b := make([]int, d), make([]int, d)
	s, h := 0.0, 0
	x, y := make([]float64, d), make([]float64, d)
	t := 0.0
	for i := range a {
		a[i] = nd.Int(fmt.Sprintf("a%d", i), -100000, 100000)
		b[i] = nd.Int(fmt.Sprintf("b%d", i), -100000, 100000)
		s += float64((a[i] - b[i]) * (a[i] - b[i]))
		if a[i] != b[i] {
			h++
		}
		x[i] = nd.Real(fmt.Sprintf("x%d", i), -1000, 1000)
		y[i] = nd.Real(fmt.Sprintf("y%d", i), -1000, 1000)
		t += (x[i] - y[i]) * (x[i] - y[i])
	}
	e := metrics.Euclidean(a, b)
	nd.Assert(e >= 0 && nd.Same(e*e, s), "the Euclidean distance is the root of the sum of squares")
	f := metrics.EuclideanF(x, y)
	nd.Assert(f >= 0 && nd.Same(f*f, t), "the Euclidean distance is the root of the sum of squares")
	nd.Assert(metrics.Hamming(a, b) == h, "the Hamming distance counts the differing positions")
	nd.Assert(metrics.HammingF(a, b) == float64(h), "the Hamming distance counts the differing positions")
}

// Big: many points.
func Big() {
	switch nd.Choose("algorithm", 5) {
	case 0:
		Dbscan()
	case 1:
		Optics()
	case 2:
		Lloyd()
	case 3:
		modes(0)
	case 4:
		Medoids()
	}
}
