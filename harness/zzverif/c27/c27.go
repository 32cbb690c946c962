// Package c27: classification and completion of images.
package c27

import (
	"bufio"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/app"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// set is a data file of images and their classes.
type set struct {
	name    string
	pixels  int
	tones   int
	classes int
	rows    [][]int // pixels and class
}

func (t *set) write() {
	f, err := os.Create(t.name)
	nd.Assert(err == nil, "the scratch file can be created")
	for i := 0; i < t.pixels; i++ {
		fmt.Fprintf(f, "var %d %d\n", i, t.tones)
	}
	fmt.Fprintf(f, "var %d %d\n", t.pixels, t.classes)
	for _, r := range t.rows {
		for _, x := range r[:t.pixels] {
			fmt.Fprintf(f, "%d ", x)
		}
		fmt.Fprintf(f, "%d\n", r[t.pixels])
	}
	f.Close()
}

// classifier builds a mixture with a component for each class.
func classifier(pixels, classes int, prior []float64, pr [][][]float64) spn.SPN {
	s := spn.NewSum()
	for c := 0; c < classes; c++ {
		p := spn.NewProduct()
		p.AddChild(spn.NewIndicator(pixels, c))
		for i := 0; i < pixels; i++ {
			p.AddChild(spn.NewMultinomial(i, append([]float64{}, pr[c][i]...)))
		}
		s.AddChildW(p, prior[c])
	}
	return s
}

// Classify: hits are counted exactly.
func Classify() {
	big := nd.Bound("big", 0)
	t := &set{name: nd.TempDir() + "/all.data", tones: 2}
	n := big
	if big > 0 {
		t.pixels, t.classes = 6, 3
		nd.MaxDraws(big/4 + 5)
	} else {
		nd.MaxDraws(nd.Bound("draws", 4))
		t.pixels, t.classes = 1+nd.Choose("pixels", nd.Bound("pixels", 2)), 1+nd.Choose("classes", nd.Bound("classes", 3))
		n = nd.Bound("min", 1) + nd.Choose("n", nd.Bound("rows", 3))
	}
	for i := 0; i < n; i++ {
		r := make([]int, t.pixels+1)
		for j := range r {
			if big > 0 {
				if r[j] = (i >> uint(j%5)) & 1; j == t.pixels {
					r[j] = (i*i + i/3) % 3
				}
				continue
			}
			hi := 1
			if j == t.pixels {
				hi = t.classes - 1
			}
			r[j] = nd.Int(fmt.Sprintf("x%d_%d", i, j), 0, hi)
		}
		t.rows = append(t.rows, r)
	}
	t.write()
	// no two classes tie
	prior := []float64{0.25, 0.125, 0.625}[:t.classes]
	pr := [][][]float64{{{0.75, 0.25}, {0.5, 0.5}}, {{0.0625, 0.9375}, {0.125, 0.875}}, {{0.3, 0.7}, {0.9, 0.1}}}
	for c := range pr {
		for i := 2; i < t.pixels; i++ {
			p := float64(1+(c*7+i*3)%15) / 16
			pr[c] = append(pr[c], []float64{p, 1 - p})
		}
	}
	calls := 0
	var train [][]int
	lf := func(sc map[int]*learn.Variable, D spn.Dataset) spn.SPN {
		calls++
		nd.Assert(len(sc) == t.pixels+1 && sc[t.pixels].Categories == t.classes, "the learner gets the pixels and the class")
		for _, I := range D {
			r := make([]int, t.pixels+1)
			for j := range r {
				r[j] = I[j]
			}
			train = append(train, r)
		}
		return classifier(t.pixels, t.classes, prior, pr)
	}
	p := []float64{0.9, 0.5, 0.1}[nd.Choose("p", 3)]
	if big > 0 && p < 0.9 {
		p = 0.75
	}
	seed := int64(-1)
	if nd.Choose("seeded", 2) == 1 {
		seed = 7
	}
	hits, total := app.ImgClassify(lf, t.name, p, seed)
	nd.Assert(calls == 1, "the learner is run once")
	nd.Assert(total == n-len(train), "the instances not trained on are classified")
	// what remains of the file after the training data, which is in order
	want, k := 0, 0
	for _, r := range t.rows {
		if k < len(train) && equal(r, train[k]) {
			k++
			continue
		}
		best, arg := -1.0, -1
		for c := 0; c < t.classes; c++ {
			v := prior[c]
			for i := 0; i < t.pixels; i++ {
				v *= pr[c][i][r[i]]
			}
			if v > best {
				best, arg = v, c
			}
		}
		if arg == r[t.pixels] {
			want++
		}
	}
	nd.Assert(k == len(train), "the training data are instances of the file")
	nd.Assert(hits == want, "the hits are the instances whose class is the most probable one")
}

func equal(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type picture struct {
	w, h, max int
	rgb       [][3]int
}

func read(name string) *picture {
	f, err := os.Open(name)
	nd.Assert(err == nil, "an image is written for every instance and half")
	defer f.Close()
	s := bufio.NewScanner(f)
	var v []int
	for s.Scan() {
		for _, t := range strings.Fields(s.Text()) {
			if t == "P3" {
				continue
			}
			x, err := strconv.Atoi(t)
			nd.Assert(err == nil, "the image has numbers only")
			v = append(v, x)
		}
	}
	nd.Assert(len(v) > 3 && len(v) == 3+3*v[0]*v[1], "the image has as many pixels as it declares")
	p := &picture{w: v[0], h: v[1], max: v[2]}
	for i := 3; i < len(v); i += 3 {
		p.rgb = append(p.rgb, [3]int{v[i], v[i+1], v[i+2]})
	}
	return p
}

// lost is whether a pixel belongs to the half to be completed.
func lost(typ io.CmplType, j, w, h int) bool {
	switch x, y := j%w, j/w; typ {
	case io.Top:
		return y < h/2
	case io.Bottom:
		return y >= h/2
	case io.Left:
		return x < w/2
	}
	return j%w >= w/2
}

// check compares a written completion with the image and the expected completion (nil: any tone).
func check(name string, typ io.CmplType, w, h, tones int, img, cmpl []int) {
	p := read(name)
	row := typ == io.Top || typ == io.Bottom
	nd.Assert(p.max == tones-1, "the image has the tones of the data")
	nd.Assert(row && p.w == w && p.h == h+1 || !row && p.w == w+1 && p.h == h, "the halves are separated by a line between them")
	j := 0
	for i, c := range p.rgb {
		x, y := i%p.w, i/p.w
		if (row && y == h/2) || (!row && x == w/2) {
			continue
		}
		if !lost(typ, j, w, h) {
			nd.Assert(c[0] == img[j] && c[1] == img[j] && c[2] == img[j], "the half given is that of the instance")
		} else {
			nd.Assert(c[0] == 0 && c[2] == 0, "the half to be completed is green")
			if cmpl != nil {
				nd.Assert(c[1] == cmpl[j], "the half to be completed shows the most probable tones")
			} else {
				nd.Assert(c[1] >= 0 && c[1] < tones, "completed pixels have one of the tones")
			}
		}
		j++
	}
	nd.Assert(j == w*h, "every pixel is drawn")
}

// tones is how probable each tone of a pixel is after the training data: every
// occurrence counts, and no two tones tie.
func tones(D []map[int]int, i, n int) []float64 {
	pr := make([]float64, n)
	for v := range pr {
		pr[v] = 1 + float64(v)/8
	}
	for _, I := range D {
		pr[I[i]] += 1
	}
	return pr
}

// Both components of the mixture that is learned have these weights.
var mix = []float64{0.53125, 0.46875}

// component is how probable each tone of a pixel is in a component: one
// prefers the even tones and the other the odd ones.
func component(k int, D []map[int]int, i, n int) []float64 {
	pr := tones(D, i, n)
	for v := range pr {
		if v%2 != k {
			pr[v] /= 4
		}
	}
	return pr
}

// complete is the most probable completion of a half, or nothing where both
// components have the same.
func complete(D []map[int]int, img []int, typ io.CmplType, w, h, n int) []int {
	var c [2][]int
	var p [2]float64
	for k := range c {
		p[k] = mix[k]
		for j := range img {
			pr, v := component(k, D, j, n), img[j]
			if lost(typ, j, w, h) {
				v = 0
				for u := range pr {
					if pr[u] > pr[v] {
						v = u
					}
				}
			}
			c[k] = append(c[k], v)
			p[k] *= pr[v]
		}
	}
	switch {
	case p[0] > p[1]:
		return c[0]
	case p[0] < p[1]:
		return c[1]
	}
	return nil
}

// Complete: every image is completed by what is learned from the other classes.
func Complete() {
	big := nd.Bound("big", 0)
	if big > 0 {
		sys.Width, sys.Height = 5, 4
	} else {
		sys.Width, sys.Height = 1+nd.Choose("w", nd.Bound("w", 2)), 1+nd.Choose("h", nd.Bound("h", 2))
	}
	t := &set{name: nd.TempDir() + "/all.data", pixels: sys.Width * sys.Height, tones: 2, classes: 2}
	n := big
	if big > 0 {
		t.tones, t.classes = 5, 4
	} else {
		n = nd.Bound("min", 1) + nd.Choose("n", nd.Bound("rows", 2))
	}
	sys.Max = t.tones
	for i := 0; i < n; i++ {
		r := make([]int, t.pixels+1)
		for j := range r {
			if big > 0 {
				if r[j] = (i*7 + j*j + i*j) % t.tones; j == t.pixels {
					r[j] = (i*i + i/3) % t.classes
				}
			} else if nd.Bound("free", 2) == 2 || j == t.pixels {
				r[j] = nd.Int(fmt.Sprintf("x%d_%d", i, j), 0, 1)
			} else {
				r[j] = (i >> uint(j)) & 1
			}
		}
		t.rows = append(t.rows, r)
	}
	t.write()
	old, _ := os.Getwd()
	os.Chdir(nd.TempDir())
	defer os.Chdir(old)
	lf := func(sc map[int]*learn.Variable, D spn.Dataset) spn.SPN {
		nd.Assert(len(sc) == t.pixels, "the learner gets the pixels")
		s := spn.NewSum()
		for k, w := range mix {
			p := spn.NewProduct()
			for i := 0; i < t.pixels; i++ {
				p.AddChild(spn.NewMultinomial(i, component(k, D, i, t.tones)))
			}
			s.AddChildW(p, w)
		}
		return s
	}
	app.ImgCompletion(lf, t.name, nd.Choose("jobs", nd.Bound("jobs", 2))+1)
	for i, r := range t.rows {
		var D []map[int]int
		for _, q := range t.rows {
			if q[t.pixels] != r[t.pixels] {
				I := make(map[int]int)
				for j := 0; j < t.pixels; j++ {
					I[j] = q[j]
				}
				D = append(D, I)
			}
		}
		for _, o := range io.Orientations {
			check(fmt.Sprintf("cmpl_%d-%s.pgm", i, o), o, sys.Width, sys.Height, t.tones, r, complete(D, r[:t.pixels], o, sys.Width, sys.Height, t.tones))
		}
	}
}

// leaveOut: every image is completed by a network learned from the others.
func leaveOut(parallel bool) {
	sys.Random = rand.New(nd.RandSource())
	nd.MaxGlobal(nd.Bound("draws", 8))
	sys.Width, sys.Height, sys.Max = 2, 1, 2
	t := &set{name: nd.TempDir() + "/all.data", pixels: 2, tones: 2, classes: 2}
	n := nd.Bound("rows", 2)
	for i := 0; i < n; i++ {
		t.rows = append(t.rows, []int{i & 1, 1 - i&1, 0})
	}
	t.write()
	old, _ := os.Getwd()
	os.Chdir(nd.TempDir())
	defer os.Chdir(old)
	if parallel {
		app.ImgTestParallel(t.name, 1, 1, 1, 0.1, 0.1, 1+nd.Choose("jobs", 2))
	} else {
		app.ImgTest(t.name, 1, 1, 1, 0.1, 0.1)
	}
	used := make([]bool, n)
	for i := 0; i < n; i++ {
		r := i
		if parallel {
			// the images come in any order: find the one whose right half is given
			p := read(fmt.Sprintf("cmpl_%s_%d.pgm", io.Left, i))
			nd.Assert(len(p.rgb) == 3, "one column is added for the separator")
			for r = 0; r < n && t.rows[r][1] != p.rgb[2][0]; r++ {
			}
			nd.Assert(r < n && !used[r], "every instance is completed once")
			used[r] = true
		}
		// a single image to learn from is all there is to complete another with
		var other []int
		if n == 2 {
			other = t.rows[1-r]
		}
		for _, o := range io.Quadrants {
			check(fmt.Sprintf("cmpl_%s_%d.pgm", o, i), o, 2, 1, 2, t.rows[r], other)
		}
	}
}

// LeaveOneOut: one after the other.
func LeaveOneOut() { leaveOut(false) }

// LeaveOneOutParallel: by concurrent jobs.
func LeaveOneOutParallel() { leaveOut(true) }

// Big: more instances, pixels, tones and classes.
func Big() { Classify() }

// BigComplete: more and larger images.
func BigComplete() { Complete() }

// Tiny: images so improbable that their values do not fit a float64.
func Tiny() {
	nd.FloatRange()
	t := &set{name: nd.TempDir() + "/all.data", pixels: 3, tones: 2, classes: 2}
	nd.MaxDraws(4)
	n := nd.Bound("rows", 2)
	for i := 0; i < n; i++ {
		r := make([]int, 4)
		for j := range r {
			r[j] = nd.Choose(fmt.Sprintf("x%d_%d", i, j), 2)
		}
		t.rows = append(t.rows, r)
	}
	t.write()
	prior := []float64{0.375, 0.625}
	ps := []float64{0.25, 1e-200, 3e-200}
	var pr [][][]float64
	for c := range prior {
		var q [][]float64
		for i := 0; i < t.pixels; i++ {
			p := ps[1+(c+i)%2]
			if i == 0 {
				p = ps[nd.Choose(fmt.Sprintf("p%d", c), len(ps))]
			}
			q = append(q, []float64{p, 0.5})
		}
		pr = append(pr, q)
	}
	var train [][]int
	lf := func(sc map[int]*learn.Variable, D spn.Dataset) spn.SPN {
		for _, I := range D {
			train = append(train, []int{I[0], I[1], I[2], I[3]})
		}
		return classifier(t.pixels, t.classes, prior, pr)
	}
	hits, total := app.ImgClassify(lf, t.name, 0.1, -1)
	nd.Assert(total == n-len(train), "the instances not trained on are classified")
	want, k := 0, 0
	for _, r := range t.rows {
		if k < len(train) && equal(r, train[k]) {
			k++
			continue
		}
		var v [2]float64
		for c := range v {
			v[c] = math.Log(prior[c])
			for i := 0; i < t.pixels; i++ {
				v[c] += math.Log(pr[c][i][r[i]])
			}
		}
		if (v[1] > v[0]) == (r[t.pixels] == 1) {
			want++
		}
	}
	nd.Assert(k == len(train), "the training data are instances of the file")
	nd.Assert(hits == want, "the hits are the instances whose class is the most probable one")
}
