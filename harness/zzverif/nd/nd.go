// Package nd is the interface between the harnesses and the checker.  The
// symbolic executor replaces every function here; this file is the native
// implementation, which replays one concrete input against the real code.
package nd

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
)

// Input mirrors the engine's RunInput.
type Input struct {
	Harness string         `json:"harness"`
	Draws   []string       `json:"draws"`
	Kinds   []string       `json:"kinds"`
	Names   []string       `json:"names"`
	Rand    []string       `json:"rand"`
	RandK   []string       `json:"randk"`
	Bounds  map[string]int `json:"bounds"`
	Tries   int            `json:"tries"`
	Sched   []int64        `json:"sched"`
	Preempt int            `json:"preempt"`
}

var (
	cur   Input
	pos   int
	rpos  int
	tmp   string
	frand *rand.Rand
)

type stopT struct {
	kind, msg string
}

func next(kind, name string) (string, bool) {
	if pos >= len(cur.Draws) {
		pos++
		return "", false
	}
	if cur.Kinds[pos] != kind || cur.Names[pos] != name {
		panic(stopT{"mismatch", fmt.Sprintf("draw %d: want %s %s, have %s %s", pos, kind, name, cur.Kinds[pos], cur.Names[pos])})
	}
	s := cur.Draws[pos]
	pos++
	return s, true
}

func ratOf(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(stopT{"mismatch", "bad value " + s})
	}
	return r
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	if lo > hi {
		panic(stopT{"assume", "empty range"})
	}
	s, ok := next("int", name)
	if !ok {
		return lo
	}
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		i = ratOf(s).Num().Int64()
	}
	return int(i)
}

// Choose is an arbitrary integer in [0,n), decided at the call.
func Choose(name string, n int) int {
	if n <= 0 {
		panic(stopT{"assume", "empty choice"})
	}
	return Int(name, 0, n-1)
}

// Bool is an arbitrary boolean.
func Bool(name string) bool {
	s, _ := next("bool", name)
	return s == "true"
}

// Real is an arbitrary real in [lo,hi] (infinite bounds: unbounded).
func Real(name string, lo, hi float64) float64 {
	s, ok := next("real", name)
	if !ok {
		if lo > 0 {
			return lo
		}
		return 0
	}
	f, _ := ratOf(s).Float64()
	return f
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stopT{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(stopT{"assert", msg})
	}
}

// Same compares two floats: equal reals, the same infinity, or both NaN.
func Same(x, y float64) bool {
	if math.IsNaN(x) || math.IsNaN(y) {
		return math.IsNaN(x) && math.IsNaN(y)
	}
	if x == y {
		return true
	}
	if math.IsInf(x, 0) || math.IsInf(y, 0) {
		return false
	}
	d := math.Abs(x - y)
	return d <= 1e-6+1e-6*math.Max(math.Abs(x), math.Abs(y))
}

// Leq is x <= y up to rounding.
func Leq(x, y float64) bool {
	return x <= y || Same(x, y)
}

// Bound is a size bound set by the tier.
func Bound(name string, def int) int {
	if v, ok := cur.Bounds[name]; ok {
		return v
	}
	return def
}

// MapOrder selects how map iterations are explored.
func MapOrder(mode int) {}

// MaxGlobal leaves out runs that draw more than n numbers from the global
// source.
func MaxGlobal(n int) {}

// MaxDraws leaves out runs that draw more than n random numbers.
func MaxDraws(n int) {}

// FloatRange makes the symbolic executor apply the range of float64 to
// exponentials and to products of constants: overflow to infinity, underflow
// to zero.  Natively floats do that anyway.
func FloatRange() {}

// Symbolic tells whether the symbolic executor is running.
func Symbolic() bool { return false }

// Cover marks a situation the harness must reach.
func Cover(tag string) {}

// Concrete forks over the values of x.
func Concrete(x int) int { return x }

// Log prints during a native replay.
func Log(a ...interface{}) { fmt.Fprintln(os.Stderr, a...) }

// Schedule and Preemptions are the recorded scheduling decisions and their
// bound, for the schedule-forced replay.
func Schedule() []int64 { return cur.Sched }
func Preemptions() int  { return cur.Preempt }

type source struct{}

func (source) Seed(int64) {}
func (source) Int63() int64 {
	for rpos < len(cur.Rand) {
		k, v := cur.RandK[rpos], cur.Rand[rpos]
		rpos++
		switch k {
		case "intn":
			return ratOf(v).Num().Int64() << 32
		case "intn63":
			return ratOf(v).Num().Int64()
		case "float":
			f, _ := ratOf(v).Float64()
			return int64(f * (1 << 53))
		}
	}
	return frand.Int63()
}

// RandSource is an arbitrary random stream.
func RandSource() rand.Source { return source{} }

// TempDir is a scratch directory.
func TempDir() string {
	if tmp == "" {
		// tmpfs lists a directory newest entry first, which is also what the
		// symbolic file system does
		base := "/dev/shm"
		if fi, err := os.Stat(base); err != nil || !fi.IsDir() {
			base = ""
		}
		d, err := os.MkdirTemp(base, "ndrun")
		if err != nil {
			d, err = os.MkdirTemp("", "ndrun")
		}
		if err != nil {
			panic(stopT{"mismatch", err.Error()})
		}
		tmp = d
	}
	return tmp
}

// Main replays one input of a batch file: prog FILE INDEX.
func Main(fns map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println("RESULT mismatch", err)
		os.Exit(3)
	}
	var in []Input
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Println("RESULT mismatch", err)
		os.Exit(3)
	}
	i, _ := strconv.Atoi(os.Args[2])
	cur = in[i]
	f := fns[cur.Harness]
	if f == nil {
		fmt.Println("RESULT mismatch no harness", cur.Harness)
		os.Exit(3)
	}
	n := cur.Tries
	if n < 1 {
		n = 1
	}
	kind, msg := "ok", ""
	for t := 0; t < n; t++ {
		rand.Seed(int64(t) + 1)
		frand = rand.New(rand.NewSource(int64(t) + 7))
		pos, rpos = 0, 0
		k, m := once(f)
		if tmp != "" {
			os.RemoveAll(tmp)
			tmp = ""
		}
		if k == "assert" || k == "panic" {
			kind, msg = k, m
			break
		}
		if t == 0 {
			kind, msg = k, m
		}
	}
	fmt.Printf("RESULT %s %s\n", kind, strings.ReplaceAll(msg, "\n", " "))
}

func once(f func()) (kind, msg string) {
	done := false
	defer func() {
		if r := recover(); r != nil || !done {
			if s, ok := r.(stopT); ok {
				kind, msg = s.kind, s.msg
				return
			}
			kind, msg = "panic", fmt.Sprint(r)
		}
	}()
	f()
	done = true
	return "ok", ""
}
