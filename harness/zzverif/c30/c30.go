// Package c30: NumPy files are read exactly.
package c30

import (
	"fmt"
	"os"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// typ is a type of NumPy data: width in bytes, signed or not, byte order.
type typ struct {
	name   string
	width  int
	signed bool
	big    bool
}

func types() []typ {
	var T []typ
	for _, w := range []int{1, 2, 4, 8} {
		for _, s := range []string{"u", "i"} {
			T = append(T, typ{fmt.Sprintf("<%s%d", s, w), w, s == "i", false})
			T = append(T, typ{fmt.Sprintf("|%s%d", s, w), w, s == "i", false})
			if w > 1 {
				T = append(T, typ{fmt.Sprintf(">%s%d", s, w), w, s == "i", true})
			}
		}
	}
	return T
}

// bytes returns the bytes of the integer lo+256*hi, or of lo+256*hi less 65536.
func (t typ) bytes(lo, hi int, neg bool) []byte {
	b := make([]byte, t.width)
	if neg {
		for i := range b {
			b[i] = 255
		}
	}
	b[0] = byte(lo)
	if t.width > 1 {
		b[1] = byte(hi)
	}
	if t.big {
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

// value returns any integer of the type and its bytes.
func (t typ) value(name string, neg bool) (int, []byte) {
	lo := nd.Int(name, 0, 255)
	if t.width == 1 {
		if t.signed {
			if neg {
				nd.Assume(lo > 127)
				return lo - 256, t.bytes(lo, 0, false)
			}
			nd.Assume(lo < 128)
		}
		return lo, t.bytes(lo, 0, false)
	}
	hi := nd.Int(name+" hi", 0, 255)
	if t.signed {
		if neg {
			if t.width == 2 {
				nd.Assume(hi > 127)
			}
			return lo + 256*hi - 65536, t.bytes(lo, hi, true)
		}
		if t.width == 2 {
			nd.Assume(hi < 128)
		}
	}
	return lo + 256*hi, t.bytes(lo, hi, false)
}

// header returns the head of a file.
func header(descr, order, shape string, major int) []byte {
	d := fmt.Sprintf("{'descr': '%s', 'fortran_order': %s, 'shape': %s, }", descr, order, shape)
	for (10+len(d)+1)%16 != 0 {
		d += " "
	}
	d += "\n"
	b := []byte{0x93, 'N', 'U', 'M', 'P', 'Y', byte(major), 0, byte(len(d) % 256), byte(len(d) / 256)}
	if major == 2 {
		b = append(b, 0, 0)
	}
	return append(b, d...)
}

// file is what a NumPy file holds.
type file struct {
	rows, cols int
	X          [][]int
	L          []int
}

// write writes instances of the type; labels are among the classes, or any if
// there are none.
func write(name string, t typ, rows, cols, classes int) *file {
	f := &file{rows: rows, cols: cols}
	neg := false
	if t.signed && rows*cols > 0 {
		neg = nd.Choose("neg", 2) == 1
	}
	b := header(t.name, "False", fmt.Sprintf("(%d, %d)", rows, cols), 1+nd.Choose("major", nd.Bound("major", 1)))
	for i := 0; i < rows; i++ {
		x := make([]int, cols-1)
		for j := range x {
			v, c := t.value(fmt.Sprintf("x%d_%d", i, j), neg)
			x[j], b = v, append(b, c...)
		}
		l := 0
		if classes > 0 {
			l = nd.Choose(fmt.Sprintf("l%d", i), classes)
			b = append(b, t.bytes(l, 0, false)...)
		} else {
			v, c := t.value(fmt.Sprintf("l%d", i), neg != (i%2 == 0) && t.signed)
			l, b = v, append(b, c...)
		}
		f.X, f.L = append(f.X, x), append(f.L, l)
	}
	err := os.WriteFile(name, b, 0644)
	nd.Assert(err == nil, "the file is written")
	return f
}

// check compares the instances read with those of the given rows.
func (f *file) check(D []map[int]int, L []int, rows []int) {
	nd.Assert(len(D) == len(rows) && len(L) == len(rows), "as many instances and labels are read as asked for")
	for k, i := range rows {
		nd.Assert(L[k] == f.L[i], "each label is that of its instance")
		nd.Assert(len(D[k]) == f.cols-1, "an instance has a value for each variable but the label")
		for j, x := range f.X[i] {
			v, ok := D[k][j]
			nd.Assert(ok && v == x, "each value is that of its variable")
		}
	}
}

func seq(a, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = a + i
	}
	return r
}

// Types: every integer type is read exactly.
func Types() {
	T := types()
	t := T[nd.Choose("type", len(T))]
	name := nd.TempDir() + "/x.npy"
	k := nd.Choose("form", 3)
	classes := 0
	if k == 2 {
		classes = 1
	}
	f := write(name, t, 1, 2, classes)
	r, err := io.NewNpyReader(name)
	nd.Assert(err == nil && r != nil, "the file can be opened")
	defer r.Close()
	var D []map[int]int
	var L []int
	switch k {
	case 0:
		D, L, err = r.ReadAll()
	case 1:
		D, L, err = r.Read(1)
	case 2:
		D, L, err = r.ReadBalanced(1, 1)
	}
	nd.Assert(err == nil, "the instances can be read")
	f.check(D, L, seq(0, 1))
}

var plain = []typ{{"|u1", 1, false, false}, {">i2", 2, true, true}}

func open(classes int) (*io.NpyReader, *file) {
	t := plain[nd.Choose("type", nd.Bound("types", 2))]
	rows, cols := nd.Choose("rows", nd.Bound("rows", 3)+1), 1+nd.Choose("cols", nd.Bound("cols", 2))
	name := nd.TempDir() + "/x.npy"
	f := write(name, t, rows, cols, classes)
	r, err := io.NewNpyReader(name)
	nd.Assert(err == nil && r != nil, "the file can be opened")
	return r, f
}

// History: reading goes on where it stopped, or from the start after a reset.
func History() {
	r, f := open(0)
	defer r.Close()
	at := 0
	for k, n := 0, nd.Bound("ops", 3); k < n; k++ {
		switch op := nd.Choose(fmt.Sprintf("op%d", k), 3); op {
		case 0:
			m := nd.Choose(fmt.Sprintf("n%d", k), f.rows+2)
			D, L, err := r.Read(m)
			if at+m > f.rows {
				nd.Assert(err != nil, "reading past the last instance is an error")
				return
			}
			nd.Assert(err == nil, "instances that are there can be read")
			f.check(D, L, seq(at, m))
			at += m
		case 1:
			D, L, err := r.ReadAll()
			if at > 0 {
				nd.Assert(err != nil, "reading past the last instance is an error")
				return
			}
			nd.Assert(err == nil, "instances that are there can be read")
			f.check(D, L, seq(0, f.rows))
			at = f.rows
		case 2:
			nd.Assert(r.Reset() == nil, "a reader can be reset")
			at = 0
		}
	}
}

// Balanced: as many instances of each class, up to rounding, in order.
func Balanced() {
	c := 1 + nd.Choose("classes", nd.Bound("classes", 2))
	r, f := open(c)
	defer r.Close()
	at := nd.Choose("skip", 2)
	if at > f.rows {
		return
	}
	if at > 0 {
		_, _, err := r.Read(at)
		nd.Assert(err == nil, "instances that are there can be read")
	}
	n := nd.Choose("n", f.rows+2)
	quota := make([]int, c)
	for i := 0; i < n; i++ {
		quota[i%c]++
	}
	var rows []int
	for i := at; i < f.rows; i++ {
		if quota[f.L[i]] > 0 {
			quota[f.L[i]]--
			rows = append(rows, i)
		}
	}
	D, L, err := r.ReadBalanced(n, c)
	if len(rows) < n {
		nd.Assert(err != nil, "too few instances of a class are an error")
		return
	}
	nd.Assert(err == nil, "instances that are there can be read")
	f.check(D, L, rows)
}

// Errors: what cannot be read is an error.
func Errors() {
	d := nd.TempDir()
	name := d + "/x.npy"
	var b []byte
	switch nd.Choose("case", 7) {
	case 0:
		_, err := io.NewNpyReader(d + "/y.npy")
		nd.Assert(err != nil, "a missing file is an error")
		return
	case 1:
		b = header("<f8", "False", "(1, 1)", 1)
	case 2:
		b = header("|b1", "False", "(1, 1)", 1)
	case 3:
		b = header("|u1", "False", "(8,)", 1)
	case 4:
		b = header("|u1", "False", "(2, 2, 2)", 1)
	case 5:
		b = header("|u1", "True", "(2, 4)", 1)
	case 6:
		b = []byte("not a file of NumPy at all")
	}
	b = append(b, 0, 0, 0, 0, 0, 0, 0, 0)
	nd.Assert(os.WriteFile(name, b, 0644) == nil, "the file is written")
	_, err := io.NewNpyReader(name)
	nd.Assert(err != nil, "a file that is not a matrix of integers by rows is an error")
}

// Truncated: a file shorter than it declares.
func Truncated() {
	b := header("<u2", "False", "(2, 2)", 1)
	n := nd.Choose("bytes", 8)
	for i := 0; i < n; i++ {
		b = append(b, byte(nd.Int(fmt.Sprintf("b%d", i), 0, 255)))
	}
	name := nd.TempDir() + "/x.npy"
	nd.Assert(os.WriteFile(name, b, 0644) == nil, "the file is written")
	r, err := io.NewNpyReader(name)
	if err != nil {
		return
	}
	defer r.Close()
	_, _, err = r.ReadAll()
	nd.Assert(err != nil, "a file shorter than it declares is an error")
}

// Big: many instances of many values, many classes.
func Big() {
	b := nd.Bound("big", 40)
	t := types()[[]int{0, 7, 16}[nd.Choose("type", 3)]]
	f := &file{rows: b, cols: b/2 + 1}
	classes := []int{10, 3}[nd.Choose("classes", 2)]
	h := header(t.name, "False", fmt.Sprintf("(%d, %d)", f.rows, f.cols), 1)
	for i := 0; i < f.rows; i++ {
		x := make([]int, f.cols-1)
		for j := range x {
			v := (i*31 + j*7) % 128
			if (i+j)%19 == 4 {
				v = nd.Int(fmt.Sprintf("x%d_%d", i, j), 0, 127)
			}
			x[j], h = v, append(h, t.bytes(v, 0, false)...)
		}
		l := (i*i + i/3) % classes
		h = append(h, t.bytes(l, 0, false)...)
		f.X, f.L = append(f.X, x), append(f.L, l)
	}
	name := nd.TempDir() + "/x.npy"
	nd.Assert(os.WriteFile(name, h, 0644) == nil, "the file is written")
	r, err := io.NewNpyReader(name)
	nd.Assert(err == nil && r != nil, "the file can be opened")
	defer r.Close()
	if nd.Choose("how", 2) == 0 {
		D, L, err := r.ReadAll()
		nd.Assert(err == nil, "instances that are there can be read")
		f.check(D, L, seq(0, f.rows))
		nd.Assert(r.Reset() == nil, "a reader can be reset")
		at := 0
		for _, m := range []int{1, b / 2, 0, b/2 - 2, 1} {
			D, L, err := r.Read(m)
			nd.Assert(err == nil, "instances that are there can be read")
			f.check(D, L, seq(at, m))
			at += m
		}
		_, _, err = r.Read(b)
		nd.Assert(err != nil, "reading past the last instance is an error")
		return
	}
	n := 1 + nd.Choose("n", b)
	quota := make([]int, classes)
	for i := 0; i < n; i++ {
		quota[i%classes]++
	}
	var rows []int
	for i, l := range f.L {
		if quota[l] > 0 {
			quota[l]--
			rows = append(rows, i)
		}
	}
	D, L, err := r.ReadBalanced(n, classes)
	if len(rows) < n {
		nd.Assert(err != nil, "too few instances of a class are an error")
		return
	}
	nd.Assert(err == nil, "instances that are there can be read")
	f.check(D, L, rows)
}

// Classes: more classes than fit a signed byte, or a byte.
func Classes() {
	T := types()
	t := T[nd.Choose("type", len(T))]
	classes := 300
	if t.width == 1 {
		classes = 256
		if t.signed {
			classes = 128
		}
	}
	f := &file{rows: classes + 10, cols: 2}
	h := header(t.name, "False", fmt.Sprintf("(%d, %d)", f.rows, f.cols), 1)
	for i := 0; i < f.rows; i++ {
		x, l := i%100, (classes-1+7*i)%classes
		h = append(h, t.bytes(x, 0, false)...)
		h = append(h, t.bytes(l%256, l/256, false)...)
		f.X, f.L = append(f.X, []int{x}), append(f.L, l)
	}
	name := nd.TempDir() + "/x.npy"
	nd.Assert(os.WriteFile(name, h, 0644) == nil, "the file is written")
	r, err := io.NewNpyReader(name)
	nd.Assert(err == nil && r != nil, "the file can be opened")
	defer r.Close()
	D, L, err := r.ReadBalanced(classes, classes)
	nd.Assert(err == nil, "instances that are there can be read")
	f.check(D, L, seq(0, classes))
	nd.Assert(r.Reset() == nil, "a reader can be reset")
	D, L, err = r.ReadAll()
	nd.Assert(err == nil, "instances that are there can be read")
	f.check(D, L, seq(0, f.rows))
}
