// Package c28: parameter bindings, random seeds and the log.
package c28

import (
	"fmt"
	"math/rand"
	"os"
	"sync"

	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

func nodes() []spn.SPN {
	return []spn.SPN{spn.NewSum(), spn.NewSum(), spn.NewProduct(), spn.NewIndicator(0, 0),
		spn.NewMultinomial(0, []float64{0.5, 0.5}), spn.NewGaussianParams(0, 0, 1)}
}

func isDefault(p *parameters.P) bool {
	return p != nil && p.Normalize && !p.HardWeight && p.SmoothSum == 0.01 && p.LearningType == parameters.SoftGD &&
		p.Eta == 0.1 && p.Epsilon == 1.0 && p.BatchSize == 0 && p.Lambda == 0.01 && p.Iterations == 4
}

// Bindings: any history of bindings.
func Bindings() {
	all := nodes()
	N := []spn.SPN{all[0], all[1], all[2+nd.Choose("other", len(all)-2)]}
	ps := []*parameters.P{parameters.Default(), parameters.Default()}
	cur := make([]*parameters.P, len(N))
	for k, n := 0, nd.Bound("ops", 3); k < n; k++ {
		i := nd.Choose(fmt.Sprintf("node%d", k), len(N))
		switch nd.Choose(fmt.Sprintf("op%d", k), 4) {
		case 0:
			parameters.Bind(N[i], ps[0])
			cur[i] = ps[0]
		case 1:
			parameters.Bind(N[i], ps[1])
			cur[i] = ps[1]
		case 2:
			parameters.Unbind(N[i])
			cur[i] = nil
		case 3:
			p := N[i].Parameters()
			if cur[i] == nil {
				nd.Assert(isDefault(p), "a node without parameters gets the default ones")
				nd.Assert(p != ps[0] && p != ps[1], "default parameters are fresh")
				for j := range cur {
					nd.Assert(cur[j] != p, "default parameters are not shared")
				}
				cur[i] = p
			} else {
				nd.Assert(p == cur[i], "a node reports the parameters bound to it")
			}
		}
		for j := range N {
			p, ok := parameters.Retrieve(N[j])
			nd.Assert(ok == (cur[j] != nil) && parameters.Exists(N[j]) == ok, "parameters are bound exactly to the nodes they were bound to and not unbound since")
			if ok {
				nd.Assert(p == cur[j], "the parameters last bound are retrieved")
			}
		}
	}
	for j := range N {
		parameters.Unbind(N[j])
		nd.Assert(!parameters.Exists(N[j]), "unbound parameters are gone")
	}
}

// Values: parameters hold what they were given.
func Values() {
	norm, hard := nd.Bool("norm"), nd.Bool("hard")
	sm, eta, eps, l := nd.Real("sm", 0, 9), nd.Real("eta", 0, 9), nd.Real("eps", 0, 9), nd.Real("l", 0, 9)
	t, bs, it := nd.Int("t", 0, 3), nd.Int("bs", 0, 99), nd.Int("it", 0, 99)
	p := parameters.New(norm, hard, sm, t, eta, eps, bs, l, it)
	nd.Assert(p.Normalize == norm && p.HardWeight == hard && p.LearningType == t && p.BatchSize == bs && p.Iterations == it, "the parameters are those given")
	nd.Assert(nd.Same(p.SmoothSum, sm) && nd.Same(p.Eta, eta) && nd.Same(p.Epsilon, eps) && nd.Same(p.Lambda, l), "the parameters are those given")
	nd.Assert(isDefault(parameters.Default()), "the default parameters are the documented ones")
	gd := t == parameters.HardGD || t == parameters.SoftGD
	soft := t == parameters.SoftGD || t == parameters.SoftEM
	nd.Assert((parameters.Method(t) == parameters.GD) == gd && (parameters.Method(t) == parameters.EM) == !gd, "the method is that of the learning type")
	nd.Assert((parameters.Hardness(t) == parameters.Soft) == soft && (parameters.Hardness(t) == parameters.Hard) == !soft, "the hardness is that of the learning type")
}

// Concurrent: bindings from several goroutines.
func Concurrent() {
	N := []spn.SPN{spn.NewSum(), spn.NewSum()}
	ps := []*parameters.P{parameters.Default(), parameters.Default()}
	var wg sync.WaitGroup
	got := make([]*parameters.P, 2)
	for i := range N {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			parameters.Bind(N[i], ps[i])
			got[i], _ = parameters.Retrieve(N[i])
			if i == 1 {
				parameters.Unbind(N[i])
			} else if !parameters.Exists(N[i]) {
				got[i] = nil
			}
		}(i)
	}
	wg.Wait()
	nd.Assert(got[0] == ps[0] && got[1] == ps[1], "each goroutine sees what it bound")
	nd.Assert(parameters.Exists(N[0]) && !parameters.Exists(N[1]), "the bindings are those of the last operations")
	parameters.Unbind(N[0])
}

func draw(k, u int) (int, float64) {
	switch u {
	case 0:
		return sys.RandIntn(k), 0
	case 1:
		return 0, sys.RandFloat64()
	default:
		return 0, sys.RandNormFloat64()
	}
}

// Seeds: a seed determines what follows.
func Seeds() {
	n := 1 + nd.Choose("n", nd.Bound("draws", 3))
	s := []int{0, 7, -3}[nd.Choose("seed", 3)]
	k := 1 + nd.Choose("k", 4)
	r := sys.RefreshRandom(int64(s))
	nd.Assert(sys.Seed() == int64(s), "the seed is the one given")
	nd.Assert(r == sys.Random, "the generator is the one returned")
	kind := make([]int, n)
	a, b := make([]int, n), make([]float64, n)
	for i := range a {
		kind[i] = nd.Choose(fmt.Sprintf("kind%d", i), 3)
		a[i], b[i] = draw(k, kind[i])
		nd.Assert(a[i] >= 0 && a[i] < k, "an integer is within its range")
		nd.Assert(kind[i] != 1 || b[i] >= 0 && b[i] < 1, "a fraction is within the unit interval")
	}
	if nd.Choose("other", 2) == 1 {
		sys.RefreshRandom(int64(s) + 1)
		sys.RandIntn(k)
		nd.Assert(sys.Seed() == int64(s)+1, "the seed is the one given last")
	}
	sys.RefreshRandom(int64(s))
	for i := range a {
		x, y := draw(k, kind[i])
		nd.Assert(x == a[i] && nd.Same(y, b[i]), "the same seed gives the same draws")
	}
}

// Combinations: random pairs are different pairs.
func Combinations() {
	sys.Random = rand.New(nd.RandSource())
	u, v := 1+nd.Choose("u", nd.Bound("u", 2)), 1+nd.Choose("v", nd.Bound("v", 2))
	m := nd.Choose("m", u*v+1)
	C := sys.RandomComb(u, v, m)
	nd.Assert(len(C) == m, "as many pairs as asked for are drawn")
	seen := make(map[int]bool)
	for _, c := range C {
		nd.Assert(c[0] >= 0 && c[0] < u && c[1] >= 0 && c[1] < v, "pairs are within their ranges")
		nd.Assert(!seen[c[0]*v+c[1]], "no pair is drawn twice")
		seen[c[0]*v+c[1]] = true
	}
}

// Shared: draws by several goroutines are the draws of one.
func Shared() {
	sys.RefreshRandom(5)
	const k = 1000
	a := []int{sys.RandIntn(k), sys.RandIntn(k)}
	sys.RefreshRandom(5)
	b := make([]int, 2)
	var wg sync.WaitGroup
	for i := range b {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			b[i] = sys.RandIntn(k)
		}(i)
	}
	wg.Wait()
	nd.Assert(b[0] == a[0] && b[1] == a[1] || b[0] == a[1] && b[1] == a[0], "concurrent draws are those of the seed, each drawn once")
}

func text(name string) string {
	b, err := os.ReadFile(name)
	nd.Assert(err == nil, "the log file exists")
	return string(b)
}

// Log: messages go to the log last set, if they are wanted.
func Log() {
	d := nd.TempDir()
	names := []string{d + "/a.log", d + "/b.log"}
	want := []string{"", ""}
	cur, made := -1, []bool{false, false}
	first := true
	sys.SetLogFile("")
	out := sys.LogFile()
	nd.Assert(out == os.Stdout, "the standard output is the default log")
	for k, n := 0, nd.Bound("ops", 4); k < n; k++ {
		switch op := nd.Choose(fmt.Sprintf("op%d", k), 7); op {
		case 0, 1:
			f, err := sys.SetLogFile(names[op])
			nd.Assert(err == nil && f != nil, "a log file can be set")
			nd.Assert(sys.LogFile() == f, "the log is the one set last")
			cur, made[op], want[op] = op, true, ""
		case 2:
			f, err := sys.SetLogFile("")
			nd.Assert(f == nil && err == nil && sys.LogFile() == out, "without a name the log is the standard output")
			cur = -1
		case 3:
			was := sys.LogFile()
			_, err := sys.SetLogFile(d + "/missing/c.log")
			nd.Assert(err != nil, "a log file that cannot be created is an error")
			nd.Assert(sys.LogFile() == was, "the log is the last one that could be set")
		case 4:
			sys.Verbose = !sys.Verbose
		case 5:
			sys.Printf("%d of %s\n", k, "x")
			if cur >= 0 && sys.Verbose {
				want[cur] += fmt.Sprintf("%d of x\n", k)
			}
		case 6:
			sys.Println("line")
			if first {
				sys.Printf("plain")
			}
			if cur >= 0 && sys.Verbose {
				want[cur] += "line\n"
				if first {
					want[cur] += "plain"
				}
			}
			first = false
		}
		for i := range names {
			if made[i] {
				nd.Assert(text(names[i]) == want[i], "the log has exactly the messages wanted")
			}
		}
	}
	sys.SetLogFile("")
	sys.Verbose = false
}

// Big: many nodes with parameters.
func Big() {
	b := nd.Bound("big", 70)
	N := make([]spn.SPN, b)
	cur := make([]*parameters.P, b)
	ps := make([]*parameters.P, 5)
	for i := range ps {
		ps[i] = parameters.Default()
	}
	for i := range N {
		if i%3 == 0 {
			N[i] = spn.NewIndicator(0, 0)
		} else if i%3 == 1 {
			N[i] = spn.NewSum()
		} else {
			N[i] = spn.NewProduct()
		}
	}
	agree := func() {
		for i := range N {
			p, ok := parameters.Retrieve(N[i])
			nd.Assert(ok == (cur[i] != nil) && parameters.Exists(N[i]) == ok, "parameters are bound exactly to the nodes they were bound to and not unbound since")
			nd.Assert(!ok || p == cur[i], "the parameters last bound are retrieved")
		}
	}
	step := 2 + nd.Choose("step", 3)
	for i := 0; i < b; i += step {
		cur[i] = ps[i%5]
		parameters.Bind(N[i], cur[i])
	}
	agree()
	for i := 0; i < b; i += 3 {
		parameters.Unbind(N[i])
		cur[i] = nil
	}
	agree()
	for i := 1; i < b; i += 2 {
		p := N[i].Parameters()
		if cur[i] == nil {
			nd.Assert(isDefault(p), "a node without parameters gets the default ones")
			for j := range cur {
				nd.Assert(cur[j] != p, "default parameters are not shared")
			}
			cur[i] = p
		}
		nd.Assert(p == cur[i], "a node reports the parameters bound to it")
	}
	k := nd.Choose("node", 10) * b / 10
	parameters.Bind(N[k], ps[2])
	cur[k] = ps[2]
	agree()
	for i := range N {
		parameters.Unbind(N[i])
	}
}

// BigCombinations: many random pairs.
func BigCombinations() {
	sys.Random = rand.New(nd.RandSource())
	u, v, m := nd.Bound("big", 5), 4, 4*nd.Bound("big", 5)-1
	C := sys.RandomComb(u, v, m)
	nd.Assert(len(C) == m, "as many pairs as asked for are drawn")
	seen := make(map[int]bool)
	for _, c := range C {
		nd.Assert(c[0] >= 0 && c[0] < u && c[1] >= 0 && c[1] < v, "pairs are within their ranges")
		nd.Assert(!seen[c[0]*v+c[1]], "no pair is drawn twice")
		seen[c[0]*v+c[1]] = true
	}
}
