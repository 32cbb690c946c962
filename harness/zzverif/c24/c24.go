// Package c24: folders of images compiled to data and evidence files.
package c24

import (
	"fmt"
	"os"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

type image struct {
	class int
	pix   []int
}

type folder struct {
	dir     string
	w, h    int
	max     int
	classes int
	imgs    []image
	sizes   []int
	tag     int // bits of the image number at the start of a bitmap
}

func (d *folder) id(I map[int]int) int {
	if d.tag > 0 {
		k := 0
		for i := d.tag - 1; i >= 0; i-- {
			k = 2*k + I[i]
		}
		return k
	}
	return I[0]
}

// write puts an image into a file in one of several layouts.
func write(name string, magic string, w, h, max int, pix []int, layout int) {
	f, err := os.Create(name)
	nd.Assert(err == nil, "the scratch file can be created")
	fmt.Fprintf(f, "%s\n%d %d\n", magic, w, h)
	if magic != "P1" {
		fmt.Fprintf(f, "%d\n", max)
	}
	for i, p := range pix {
		fmt.Fprintf(f, "%d", p)
		end := (i+1)%w == 0
		switch layout {
		case 0: // a line for each row
			if end {
				fmt.Fprint(f, "\n")
			} else if magic != "P1" {
				fmt.Fprint(f, " ")
			}
		case 1: // everything on one line, blanks after every value
			fmt.Fprint(f, " ")
		case 3: // the same with many blanks
			fmt.Fprint(f, strings.Repeat(" ", 70000/len(pix)))
		case 2: // blanks at the end of the lines
			fmt.Fprint(f, " ")
			if end {
				fmt.Fprint(f, "\n")
			}
		}
	}
	f.Close()
}

// anyFolder creates a folder of classes. The first pixel of an image is its
// number (in binary for bitmaps); other entries may lie among the classes.
func anyFolder(magic string) *folder {
	d := &folder{dir: nd.TempDir() + "/set"}
	os.Mkdir(d.dir, 0777)
	if nd.Bound("big", 0) > 0 {
		d.large(magic)
		return d
	}
	d.classes = 1 + nd.Choose("classes", nd.Bound("classes", 2))
	d.w = 1 + nd.Choose("w", nd.Bound("w", 2))
	d.h = 1 + nd.Choose("h", nd.Bound("h", 2))
	d.max = 1
	if magic == "P1" {
		d.tag = 2
		if d.w*d.h < 2 {
			d.w = 3
		}
	}
	layout := nd.Choose("layout", nd.Bound("layouts", 3))
	hi := 1
	if magic != "P1" {
		d.max = nd.Int("max", 9, 255)
		hi = 9
	}
	for c := 0; c < d.classes; c++ {
		noise(d, fmt.Sprintf("noise%d", c), c)
		sub := fmt.Sprintf("%s/c%d", d.dir, c)
		os.Mkdir(sub, 0777)
		n := nd.Bound("min", 1) + nd.Choose(fmt.Sprintf("imgs%d", c), nd.Bound("imgs", 2))
		d.sizes = append(d.sizes, n)
		for k := 0; k < n; k++ {
			im := image{class: c, pix: make([]int, d.w*d.h)}
			id := len(d.imgs)
			for i := range im.pix {
				im.pix[i] = nd.Int(fmt.Sprintf("p%d_%d", id, i), 0, hi)
			}
			if d.tag > 0 {
				im.pix[0], im.pix[1] = id&1, id>>1
			} else {
				im.pix[0] = id
			}
			write(fmt.Sprintf("%s/i%d.img", sub, k), magic, d.w, d.h, d.max, im.pix, layout)
			d.imgs = append(d.imgs, im)
		}
	}
	noise(d, "noise", 9)
	return d
}

// large fills the folder with many classes, or with images on long lines.
func (d *folder) large(magic string) {
	d.classes, d.w, d.h, d.max = nd.Bound("big", 11), 5, 4, 255
	layout := nd.Choose("layout", 4)
	if layout == 3 {
		d.classes = 2
	}
	if magic == "P1" {
		d.tag, d.max = 5, 1
	}
	for c := 0; c < d.classes; c++ {
		sub := fmt.Sprintf("%s/c%d", d.dir, c)
		os.Mkdir(sub, 0777)
		n := 1 + c%3
		d.sizes = append(d.sizes, n)
		for k := 0; k < n; k++ {
			im := image{class: c, pix: make([]int, d.w*d.h)}
			id := len(d.imgs)
			for i := range im.pix {
				im.pix[i] = (id*31 + i*17) % (d.max + 1)
			}
			im.pix[len(im.pix)-1] = nd.Int(fmt.Sprintf("p%d", id), 0, 1)
			if d.tag > 0 {
				for i := 0; i < d.tag; i++ {
					im.pix[i] = id >> uint(i) & 1
				}
			} else {
				im.pix[0] = id
			}
			write(fmt.Sprintf("%s/i%d.img", sub, k), magic, d.w, d.h, d.max, im.pix, layout)
			d.imgs = append(d.imgs, im)
		}
	}
}

// Big: many classes, large images, long lines.
func Big() {
	switch nd.Choose("what", 4) {
	case 0:
		Data()
	case 1:
		Evidence()
	case 2:
		Bitmaps()
	case 3:
		BitmapEvidence()
	}
}

// BigConcurrent: the same by concurrent jobs.
func BigConcurrent() { Concurrent() }

// noise adds a stray file, or the folder reserved for the output.
func noise(d *folder, name string, k int) {
	switch nd.Bound("noise", 2) {
	case 1:
		return
	case 2:
		if k != 0 && k != 9 {
			return
		}
	}
	c := nd.Choose(name, 4)
	if c&1 == 1 {
		f, err := os.Create(fmt.Sprintf("%s/readme%d", d.dir, k))
		nd.Assert(err == nil, "the scratch file can be created")
		fmt.Fprint(f, "no image\n")
		f.Close()
	}
	if c&2 == 2 {
		os.Mkdir(d.dir+"/compiled", 0777)
	}
}

func (d *folder) scope(sc map[int]*learn.Variable, labelled bool) {
	n := d.w * d.h
	if labelled {
		nd.Assert(len(sc) == n+1, "there is a variable for each pixel and one for the class")
		nd.Assert(sc[n] != nil && sc[n].Varid == n && sc[n].Categories == d.classes, "the class variable has one category for each folder")
	} else {
		nd.Assert(len(sc) == n, "there is a variable for each pixel")
	}
	for i := 0; i < n; i++ {
		nd.Assert(sc[i] != nil && sc[i].Varid == i && sc[i].Categories == d.max+1, "a pixel variable has one category for each tone")
	}
}

// match checks that the rows are the images, in any order, and returns the
// class of each row.
func (d *folder) match(D []map[int]int, labelled bool) []int {
	n := d.w * d.h
	nd.Assert(len(D) == len(d.imgs), "there is one instance for each image")
	cl := make([]int, len(D))
	seen := make([]bool, len(D))
	for r, I := range D {
		id := d.id(I)
		nd.Assert(id >= 0 && id < len(d.imgs) && !seen[id], "every image is there once")
		seen[id] = true
		if labelled {
			nd.Assert(len(I) == n+1, "an instance has a value for each pixel and the class")
		} else {
			nd.Assert(len(I) == n, "an instance has a value for each pixel")
		}
		for i, p := range d.imgs[id].pix {
			v, ok := I[i]
			nd.Assert(ok && v == p, "an instance has the pixels of its image, in order")
		}
		cl[r] = d.imgs[id].class
	}
	return cl
}

// labels checks that labels stand for classes, one for one.
func (d *folder) labels(D []map[int]int, cl []int) {
	to := map[int]int{}
	from := map[int]int{}
	for r, I := range D {
		l := I[d.w*d.h]
		nd.Assert(l >= 0 && l < d.classes, "a label is one of the classes")
		c, ok := to[l]
		k, back := from[cl[r]]
		nd.Assert(ok == back && (!ok || c == cl[r] && k == l), "images have the same label exactly if they are in the same folder")
		to[l], from[cl[r]] = cl[r], l
	}
}

func (d *folder) dims(w, h, max int) {
	nd.Assert(w == d.w && h == d.h && max == d.max, "the dimensions and the tone returned are the images'")
}

// Data: grey images.
func Data() {
	d := anyFolder("P2")
	w, h, max := io.PGMFToData(d.dir, "all.data")
	d.dims(w, h, max)
	sc, D := io.ParseData(d.dir + "/compiled/all.data")
	d.scope(sc, true)
	d.labels(D, d.match(D, true))
}

// Concurrent: the same by concurrent jobs.
func Concurrent() {
	d := anyFolder("P2")
	w, h, max := io.BufferedPGMFToData(d.dir, "all.data")
	d.dims(w, h, max)
	sc, D := io.ParseData(d.dir + "/compiled/all.data")
	d.scope(sc, true)
	d.labels(D, d.match(D, true))
}

// starts checks that the labels of an evidence file are the rows at which the
// classes begin.
func (d *folder) starts(L []int, cl []int) {
	nd.Assert(len(L) == d.classes, "there is one label for each class")
	for i, l := range L {
		end := len(cl)
		if i+1 < len(L) {
			end = L[i+1]
		}
		nd.Assert((i > 0 || l == 0) && l >= 0 && l < end && end <= len(cl), "the labels divide the instances into classes")
		n := 0
		for r := l; r < end; r++ {
			nd.Assert(cl[r] == cl[l], "the instances between two labels are of the same class")
			n++
		}
		nd.Assert(n == d.sizes[cl[l]], "a class has all its instances")
	}
}

// Evidence: grey images.
func Evidence() {
	d := anyFolder("P2")
	w, h, max := io.PGMFToEvidence(d.dir, "all.ev")
	d.dims(w, h, max)
	sc, D, L := io.ParseEvidence(d.dir + "/compiled/all.ev")
	d.scope(sc, false)
	d.starts(L, d.match(D, false))
}

// Bitmaps: black and white images.
func Bitmaps() {
	d := anyFolder("P1")
	io.PBMFToData(d.dir, "all.data")
	sc, D := io.ParseData(d.dir + "/compiled/all.data")
	d.scope(sc, true)
	d.labels(D, d.match(D, true))
}

// BitmapEvidence: black and white images.
func BitmapEvidence() {
	d := anyFolder("P1")
	io.PBMFToEvidence(d.dir, "all.ev")
	sc, D, L := io.ParseEvidence(d.dir + "/compiled/all.ev")
	d.scope(sc, false)
	d.starts(L, d.match(D, false))
}

// Single: one folder of bitmaps without classes.
func Single() {
	d := &folder{dir: nd.TempDir() + "/one", classes: 1, max: 1}
	os.Mkdir(d.dir, 0777)
	d.w, d.h, d.tag = 2+nd.Choose("w", 2), 1+nd.Choose("h", 2), 2
	layout := nd.Choose("layout", nd.Bound("layouts", 3))
	n := 1 + nd.Choose("imgs", nd.Bound("imgs", 2))
	for k := 0; k < n; k++ {
		im := image{pix: make([]int, d.w*d.h)}
		for i := range im.pix {
			im.pix[i] = nd.Int(fmt.Sprintf("p%d_%d", k, i), 0, 1)
		}
		im.pix[0], im.pix[1] = k&1, k>>1
		write(fmt.Sprintf("%s/i%d.img", d.dir, k), "P1", d.w, d.h, 1, im.pix, layout)
		d.imgs = append(d.imgs, im)
	}
	out := nd.TempDir() + "/one.data"
	io.PBMToData(d.dir, out, nd.Choose("class", 3))
	sc, D := io.ParseData(out)
	d.scope(sc, false)
	d.match(D, false)
}

// RoundTrip: an image written by the library is read back.
func RoundTrip() {
	d := &folder{dir: nd.TempDir() + "/set", classes: 1}
	os.Mkdir(d.dir, 0777)
	os.Mkdir(d.dir+"/c", 0777)
	d.w, d.h = 1+nd.Choose("w", nd.Bound("w", 3)), 1+nd.Choose("h", nd.Bound("h", 3))
	grey := nd.Choose("grey", 2) == 1
	d.max = 1
	if grey {
		d.max = nd.Int("max", 1, 255)
	}
	im := image{pix: make([]int, d.w*d.h)}
	s := make(spn.VarSet)
	for i := range im.pix {
		im.pix[i] = nd.Int(fmt.Sprintf("p%d", i), 0, 255)
		nd.Assume(im.pix[i] <= d.max)
		s[i] = im.pix[i]
	}
	im.pix[0], s[0] = 0, 0
	d.imgs = []image{im}
	d.sizes = []int{1}
	if grey {
		io.VarSetToPGM(d.dir+"/c/i.pgm", s, d.w, d.h, d.max)
		w, h, max := io.PGMFToData(d.dir, "all.data")
		d.dims(w, h, max)
		io.PGMFToEvidence(d.dir, "all.ev")
	} else {
		io.VarSetToPBM(d.dir+"/c/i.pbm", s, d.w, d.h)
		io.PBMFToData(d.dir, "all.data")
		io.PBMFToEvidence(d.dir, "all.ev")
	}
	sc, D := io.ParseData(d.dir + "/compiled/all.data")
	d.scope(sc, true)
	d.labels(D, d.match(D, true))
	sc, D, L := io.ParseEvidence(d.dir + "/compiled/all.ev")
	d.scope(sc, false)
	d.starts(L, d.match(D, false))
}
