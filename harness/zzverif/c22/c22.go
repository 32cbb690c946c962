// Package c22: reading data files.
package c22

import (
	"fmt"
	"os"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// table is what a data file says.
type table struct {
	cats []int
	rows [][]int
	file string
}

var seps = []string{" ", ",", ", ", "\t", "  ,  "}

// anyTable writes a data file with up to vars variables and rows instances,
// in any of the accepted layouts.
func anyTable(name, head string, minVars int, lo, hi int) *table {
	t := &table{}
	var n, m int
	long := false
	b := nd.Bound("big", 0)
	if b > 0 {
		n, m = []int{b, b/2 + 1, minVars}[nd.Choose(name+"vars", 3)], []int{b, 1}[nd.Choose(name+"rows", 2)]
		if long = n == minVars; long && m > 2 {
			m = 2
		}
	} else {
		n = minVars + nd.Choose(name+"vars", nd.Bound("vars", 2)-minVars+1)
		m = 1 + nd.Choose(name+"rows", nd.Bound("rows", 2))
	}
	for i := 0; i < n; i++ {
		c := i%300 + 2
		if b == 0 || i == b/2 {
			c = nd.Int(fmt.Sprintf("%sc%d", name, i), 1, 1<<20)
		}
		t.cats = append(t.cats, c)
	}
	for r := 0; r < m; r++ {
		row := make([]int, n)
		for i := range row {
			if b > 0 && (r+i)%17 != 3 {
				row[i] = (r*31 + i*7) % 256
				continue
			}
			row[i] = nd.Int(fmt.Sprintf("%sv%d_%d", name, r, i), lo, hi)
		}
		t.rows = append(t.rows, row)
	}
	t.file = nd.TempDir() + "/" + name + ".data"
	f, err := os.Create(t.file)
	nd.Assert(err == nil, "the scratch file can be created")
	fmt.Fprint(f, head)
	for i, c := range t.cats {
		fmt.Fprintf(f, "var %d %d\n", i, c)
	}
	sep := seps[nd.Choose(name+"sep", nd.Bound("seps", len(seps)))]
	trail := nd.Choose(name+"trail", 2) == 1
	if long {
		sep, trail = sep+strings.Repeat(" ", 70000), true
	}
	for r, row := range t.rows {
		for i, v := range row {
			fmt.Fprintf(f, "%d", v)
			if i+1 < n || trail {
				fmt.Fprint(f, sep)
			}
		}
		if r+1 < m || nd.Choose(name+"nl", 2) == 1 {
			fmt.Fprint(f, "\n")
		}
	}
	f.Close()
	return t
}

func scope(t *table, sc map[int]*learn.Variable, n int) {
	nd.Assert(len(sc) == n, "there is one variable for each declared one")
	for i := 0; i < n; i++ {
		v, ok := sc[i]
		nd.Assert(ok && v != nil, "every declared variable is in the scope")
		nd.Assert(v.Varid == i && v.Categories == t.cats[i], "a variable has its declared identifier and number of categories")
	}
}

func rows(t *table, D []map[int]int, n int) {
	nd.Assert(len(D) == len(t.rows), "there is one instance for each line")
	for r, I := range D {
		nd.Assert(len(I) == n, "an instance has one value for each variable")
		for i := 0; i < n; i++ {
			v, ok := I[i]
			nd.Assert(ok && v == t.rows[r][i], "an instance has the values of its line, in order")
		}
	}
}

// Data: variables and instances of any data file.
func Data() {
	t := anyTable("d", "", 1, -5, 1<<20)
	if t.rows[0][0] < 0 {
		nd.Cover("negative value")
	}
	sc, D := io.ParseData(t.file)
	scope(t, sc, len(t.cats))
	rows(t, D, len(t.cats))
}

// Digits: the same with values of one digit, where the characters themselves
// are symbolic.
func Digits() {
	t := anyTable("d", "", 1, 0, 9)
	sc, D := io.ParseData(t.file)
	scope(t, sc, len(t.cats))
	rows(t, D, len(t.cats))
}

// Labels: the last column separately.
func Labels() {
	t := anyTable("d", "", 2, 0, 9)
	sc, D, L := io.ParseDataNL(t.file)
	n := len(t.cats) - 1
	scope(t, sc, n)
	rows(t, D, n)
	nd.Assert(len(L) == len(t.rows), "there is one label for each line")
	for r := range L {
		nd.Assert(L[r] == t.rows[r][n], "a label is the last value of its line")
	}
}

// Evidence: a header of labels, then as before.
func Evidence() {
	k := nd.Bound("labels", 3)
	if nd.Bound("big", 0) == 0 {
		k = nd.Choose("labels", k+1)
	}
	head := fmt.Sprintf("labels %d", k)
	want := make([]int, k)
	for i := range want {
		want[i] = nd.Int(fmt.Sprintf("l%d", i), 0, 1<<20)
		head += fmt.Sprintf(" %d", want[i])
	}
	t := anyTable("d", head+"\n", 1, 0, 9)
	sc, D, L := io.ParseEvidence(t.file)
	scope(t, sc, len(t.cats))
	rows(t, D, len(t.cats))
	nd.Assert(len(L) == k, "there are as many labels as declared")
	for i := range want {
		nd.Assert(L[i] == want[i], "the labels are the declared ones, in order")
	}
}

// Big: many variables, many instances, long lines.
func Big() {
	switch nd.Choose("what", 3) {
	case 0:
		Data()
	case 1:
		Labels()
	case 2:
		Evidence()
	}
}

// split is the outcome of a partition by instance number.
type split struct {
	train, test []int
	labels      []int
}

func tagged(n int) *table {
	t := &table{cats: []int{n, 4}, file: nd.TempDir() + "/p.data"}
	f, err := os.Create(t.file)
	nd.Assert(err == nil, "the scratch file can be created")
	fmt.Fprintf(f, "var 0 %d\nvar 1 4\n", n)
	for r := 0; r < n; r++ {
		row := []int{r, nd.Int(fmt.Sprintf("l%d", r), 0, 3)}
		t.rows = append(t.rows, row)
		fmt.Fprintf(f, "%d %d\n", row[0], row[1])
	}
	f.Close()
	return t
}

func partition(t *table, p float64, seed int64) split {
	sc, train, test, labels := io.ParsePartitionedData(t.file, p, seed)
	scope(t, sc, 2)
	n := len(t.rows)
	q := (1 - p) * float64(n)
	nd.Assert(len(train)+len(test) == n, "every instance is either for training or for testing")
	nd.Assert(nd.Leq(float64(len(test)), q) && nd.Leq(q, float64(len(test)+1)), "the test set has the size asked for, up to rounding")
	nd.Assert(len(labels) == len(test), "there is a label for each test instance")
	var s split
	seen := make([]bool, n)
	for _, I := range train {
		nd.Assert(len(I) == 2 && I[0] >= 0 && I[0] < n && !seen[I[0]], "a training instance is one of the file's, once")
		seen[I[0]] = true
		nd.Assert(I[1] == t.rows[I[0]][1], "a training instance keeps its label")
		if len(s.train) > 0 {
			nd.Assert(s.train[len(s.train)-1] < I[0], "the training instances keep their order")
		}
		s.train = append(s.train, I[0])
	}
	for i, I := range test {
		nd.Assert(len(I) == 1 && I[0] >= 0 && I[0] < n && !seen[I[0]], "a test instance is one of the file's, once, without its label")
		seen[I[0]] = true
		nd.Assert(labels[i] == t.rows[I[0]][1], "the label given for a test instance is its own")
		s.test = append(s.test, I[0])
	}
	s.labels = labels
	return s
}

// Partition: any proportion, any random choice.
func Partition() {
	nd.MaxDraws(nd.Bound("draws", 4))
	t := tagged(1 + nd.Choose("n", nd.Bound("rows", 3)))
	p := nd.Real("p", 0, 1)
	seed := int64(-1)
	if nd.Choose("seeded", 2) == 1 {
		seed = 7
	}
	for k := int64(0); k < outcomes(); k++ {
		if seed >= 0 {
			seed = 7 + k
		}
		partition(t, p, seed)
	}
}

// outcomes is how many seeds to try: any outcome is possible for any seed in
// symbolic execution, but a replay has to find one.
func outcomes() int64 {
	if nd.Symbolic() {
		return 1
	}
	return 300
}

// Seeds: a seed determines the split.
func Seeds() {
	nd.MaxDraws(nd.Bound("draws", 6))
	n := 2 + nd.Choose("n", nd.Bound("rows", 2))
	t := tagged(n)
	p := 1 - 1/float64(n)
	if nd.Choose("two", 2) == 1 {
		p = 1 - 2/float64(n)
	}
	p -= 0.01
	for k := int64(0); k < outcomes(); k++ {
		a := partition(t, p, 3+k)
		partition(t, p, 11+k)
		b := partition(t, p, 3+k)
		nd.Assert(len(a.test) == len(b.test), "the same seed gives the same sizes")
		for i := range a.test {
			nd.Assert(a.test[i] == b.test[i], "a seed gives the same split whatever seed was used before it")
		}
	}
}
