// Package c23: ARFF files.
package c23

import (
	"fmt"
	"os"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

const (
	numeric = iota
	class
	str
)

// labels that are easily confused
var vocabulary = []string{"w0", "W0", "w", "w00"}

type attr struct {
	kind  int
	words []string // declared classes
}

// word is the label of a number.
func word(k int) string {
	if k < len(vocabulary) {
		return vocabulary[k]
	}
	return fmt.Sprintf("x%d", (k*17)%256)
}

// size is a number of things: the large one or a small one, if large ones are
// asked for, and one to the bound otherwise.
func size(name string, def int) int {
	if b := nd.Bound("big", 0); b > 0 {
		if name == "rows" {
			return []int{b, 2}[nd.Choose(name, 2)]
		}
		return []int{b, 3}[nd.Choose(name, 2)]
	}
	return 1 + nd.Choose(name, nd.Bound(name, def))
}

// choose chooses one of n, the large structures being fixed.
func choose(name string, k, n int) int {
	if nd.Bound("big", 0) > 0 || nd.Bound("layouts", 1) > 1 && !strings.HasPrefix(name, "kind") {
		return k % n
	}
	return nd.Choose(name, n)
}

// extra puts a comment or an empty line into the file.
func extra(f *os.File, name string) {
	if nd.Bound("big", 0) > 0 {
		if name == "e1" || name == "x1" {
			fmt.Fprint(f, "% "+strings.Repeat("a, ", 23000)+"\n")
		}
		return
	}
	if nd.Bound("extras", 1) < 2 {
		return
	}
	switch nd.Choose(name, 3) {
	case 1:
		fmt.Fprint(f, "% a comment, with data: 1,2\n")
	case 2:
		fmt.Fprint(f, "\n")
	}
}

// Parse: any relation of numeric, class and string attributes.
func Parse() {
	n := size("vars", 2)
	m := size("rows", 2)
	upper := nd.Choose("upper", 2) == 1
	kw := func(lo, up string) string {
		if upper {
			return up
		}
		return lo
	}
	// spaces between the words of a declaration, around classes and between
	// values, and the end of the last line
	gap, brace, sep, last := " ", "", ",", "\n"
	if nd.Bound("layouts", 1) > 1 {
		gap = []string{" ", "\t", "  \t "}[nd.Choose("gap", 3)]
		brace = []string{"", " "}[nd.Choose("brace", 2)]
		sep = []string{",", ", ", " ,  "}[nd.Choose("sep", 3)]
		last = []string{"\n", "", "\r\n"}[nd.Choose("last", 3)]
	}
	file := nd.TempDir() + "/a.arff"
	f, err := os.Create(file)
	nd.Assert(err == nil, "the scratch file can be created")
	extra(f, "e0")
	fmt.Fprintf(f, "%s%sweather\n", kw("@relation", "@RELATION"), gap)
	as := make([]attr, n)
	for i := range as {
		as[i].kind = choose(fmt.Sprintf("kind%d", i), i, 3)
		fmt.Fprintf(f, "%s%sName%d%s", kw("@attribute", "@Attribute"), gap, i, gap)
		switch as[i].kind {
		case numeric:
			fmt.Fprintf(f, "%s\n", kw("numeric", "NUMERIC"))
		case str:
			fmt.Fprintf(f, "%s\n", kw("string", "String"))
		case class:
			k := 1 + choose(fmt.Sprintf("classes%d", i), i*13+2, nd.Bound("classes", 2))
			sp := ""
			if choose(fmt.Sprintf("space%d", i), i/2, 2) == 1 {
				sp = " "
			}
			fmt.Fprint(f, "{"+brace)
			for j := 0; j < k; j++ {
				// not in alphabetical order
				w := word((j + k - 1) % k)
				as[i].words = append(as[i].words, w)
				if j > 0 {
					fmt.Fprint(f, ","+sp)
				}
				fmt.Fprint(f, w)
			}
			fmt.Fprint(f, brace+"}\n")
		}
	}
	extra(f, "e1")
	fmt.Fprintf(f, "%s\n", kw("@data", "@DATA"))
	nums := make([][]int, m)
	words := make([][]string, m)
	for r := 0; r < m; r++ {
		nums[r], words[r] = make([]int, n), make([]string, n)
		for i, a := range as {
			if i > 0 {
				fmt.Fprint(f, sep)
			}
			if a.kind == numeric {
				nums[r][i] = (r*37 + i) % 1000
				if nd.Bound("big", 0) == 0 || r == 1 && i == 0 {
					nums[r][i] = nd.Int(fmt.Sprintf("v%d_%d", r, i), 0, 1<<20)
				}
				fmt.Fprintf(f, "%d", nums[r][i])
				continue
			}
			// a class may also hold a value its declaration forgot
			w := choose(fmt.Sprintf("w%d_%d", r, i), r*5+i, nd.Bound("classes", 2)+1)
			words[r][i] = word(w)
			fmt.Fprint(f, words[r][i])
		}
		if r == m-1 {
			fmt.Fprint(f, last)
		} else {
			fmt.Fprint(f, "\n")
		}
		extra(f, fmt.Sprintf("x%d", r))
	}
	f.Close()

	name, sc, vals, labels := io.ParseArff(file)
	nd.Assert(name == "weather", "the name is the relation's")
	nd.Assert(len(sc) == n, "there is one variable for each attribute")
	nd.Assert(len(vals) == m, "there is one instance for each data line")
	for i, a := range as {
		v := sc[i]
		nd.Assert(v != nil && v.Varid == i && v.Name == fmt.Sprintf("Name%d", i), "variables are numbered and named in order of declaration")
		L, lab := labels[i]
		nd.Assert(lab == (a.kind != numeric), "exactly the non-numeric variables have labels")
		if a.kind == class {
			for j, w := range a.words {
				k, ok := L[w]
				nd.Assert(ok && k == j, "declared classes are numbered in order of declaration")
			}
		}
		cats := len(L)
		if a.kind == numeric {
			for r := range vals {
				nd.Assert(nums[r][i] < v.Categories, "every numeric value lies below the number of categories")
			}
			tight := false
			for r := range vals {
				if nums[r][i]+1 == v.Categories {
					tight = true
				}
			}
			nd.Assert(tight, "the number of categories of a numeric variable is the highest value plus one")
		} else {
			nd.Assert(v.Categories == cats, "a variable has as many categories as labels")
			used := make([]bool, cats)
			for _, k := range L {
				nd.Assert(k >= 0 && k < cats && !used[k], "different labels stand for different categories")
				used[k] = true
			}
			for w := range L {
				found := false
				for _, u := range a.words {
					found = found || u == w
				}
				for r := range words {
					found = found || words[r][i] == w
				}
				nd.Assert(found, "every label is declared or occurs")
			}
		}
		for r, I := range vals {
			x, ok := I[i]
			nd.Assert(ok && len(I) == n, "an instance has a value for each variable")
			if a.kind == numeric {
				nd.Assert(x == nums[r][i], "a numeric value is the one of its line")
			} else {
				k, ok := L[words[r][i]]
				nd.Assert(ok && k == x, "a label's value is the one of its line")
			}
		}
	}
}

// Convert: classes to a data file and back.
func Convert() {
	n := size("vars", 2)
	m := size("rows", 2)
	dir := nd.TempDir()
	f, err := os.Create(dir + "/a.arff")
	nd.Assert(err == nil, "the scratch file can be created")
	fmt.Fprint(f, "@relation weather\n\n")
	cats := make([]int, n)
	for i := range cats {
		cats[i] = 1 + choose(fmt.Sprintf("classes%d", i), (i+1)*13-1, nd.Bound("classes", 3))
		sp := ""
		if choose(fmt.Sprintf("space%d", i), i/2, 2) == 1 {
			sp = " "
		}
		fmt.Fprintf(f, "@attribute a%d {", i)
		for j := 0; j < cats[i]; j++ {
			if j > 0 {
				fmt.Fprint(f, ","+sp)
			}
			fmt.Fprint(f, word(cats[i]-1-j))
		}
		fmt.Fprint(f, "}\n")
	}
	fmt.Fprint(f, "@data\n")
	sep := []string{",", ", "}[choose("sep", 1, 2)]
	want := make([][]int, m)
	for r := range want {
		want[r] = make([]int, n)
		for i := range want[r] {
			want[r][i] = choose(fmt.Sprintf("v%d_%d", r, i), r*5+i, cats[i])
			if i > 0 {
				fmt.Fprint(f, sep)
			}
			fmt.Fprint(f, word(cats[i]-1-want[r][i]))
		}
		fmt.Fprint(f, "\n")
		extra(f, fmt.Sprintf("x%d", r))
	}
	f.Close()
	io.ARFFToData(dir, "a.arff", "a.data")
	sc, D := io.ParseData(dir + "/compiled/a.data")
	nd.Assert(len(sc) == n && len(D) == m, "the data file has the variables and instances of the relation")
	for i := range cats {
		nd.Assert(sc[i] != nil && sc[i].Varid == i && sc[i].Categories == cats[i], "the data file has the categories of the relation")
		for r := range want {
			v, ok := D[r][i]
			nd.Assert(ok && v == want[r][i] && len(D[r]) == n, "the data file has the values of the relation")
		}
	}
	b, err := os.ReadFile(dir + "/compiled/a.data")
	nd.Assert(err == nil, "the data file can be read")
	lines, fields, in := 0, 0, false
	for _, c := range b {
		switch {
		case c == '\n':
			nd.Assert(lines < n && fields == 3 || lines >= n && fields == n, "a line of the data file has one value for each variable")
			lines, fields, in = lines+1, 0, false
		case c == ' ':
			in = false
		default:
			if !in {
				fields++
			}
			in = true
		}
	}
}

// Big: many attributes, classes and instances, and long lines.
func Big() {
	if nd.Choose("what", 2) == 0 {
		Parse()
	} else {
		Convert()
	}
}
