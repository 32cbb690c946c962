// Package c25: images and completions written to files, and colours.
package c25

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

type picture struct {
	w, h, max int
	rgb       [][3]int
}

// read reads a text pixmap.
func read(name string) *picture {
	f, err := os.Open(name)
	nd.Assert(err == nil, "the image is written")
	defer f.Close()
	s := bufio.NewScanner(f)
	var toks []string
	for s.Scan() {
		toks = append(toks, strings.Fields(s.Text())...)
	}
	nd.Assert(len(toks) >= 4 && toks[0] == "P3", "the image is a text pixmap")
	var v []int
	for _, t := range toks[1:] {
		x, err := strconv.Atoi(t)
		nd.Assert(err == nil, "the image has numbers only")
		v = append(v, x)
	}
	p := &picture{w: v[0], h: v[1], max: v[2]}
	v = v[3:]
	nd.Assert(len(v) == 3*p.w*p.h, "the image has as many pixels as it declares")
	for i := 0; i < len(v); i += 3 {
		for j := 0; j < 3; j++ {
			nd.Assert(v[i+j] >= 0 && v[i+j] <= p.max, "no pixel is brighter than the declared maximum")
		}
		p.rgb = append(p.rgb, [3]int{v[i], v[i+1], v[i+2]})
	}
	return p
}

func dims() (int, int) {
	if b := nd.Bound("big", 0); b > 0 {
		return []int{b, b/2 + 1, 1}[nd.Choose("w", 3)], []int{b, b/2 + 1, 2}[nd.Choose("h", 3)]
	}
	return 1 + nd.Choose("w", nd.Bound("w", 4)), 1 + nd.Choose("h", nd.Bound("h", 4))
}

func anyImage(n, max int) spn.VarSet {
	s := make(spn.VarSet)
	for i := 0; i < n; i++ {
		if nd.Bound("big", 0) > 0 && i%41 != 5 && i != n-1 {
			s[i] = 0
			if i%3 > 0 {
				s[i] = max
			}
			continue
		}
		s[i] = nd.Int(fmt.Sprintf("p%d", i), 0, 255)
		nd.Assume(s[i] <= max)
	}
	return s
}

func same(a, b spn.VarSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if u, ok := b[k]; !ok || u != v {
			return false
		}
	}
	return true
}

func clone(a spn.VarSet) spn.VarSet {
	c := make(spn.VarSet)
	for k, v := range a {
		c[k] = v
	}
	return c
}

// State: a state drawn as a pixmap.
func State() {
	w, h := dims()
	max := nd.Int("max", 1, 255)
	s := anyImage(w*h, max)
	name := nd.TempDir() + "/i.ppm"
	io.VarSetToPPM(name, s, w, h, max)
	p := read(name)
	nd.Assert(p.w == w && p.h == h && p.max == max, "the image has the size and maximum given")
	for i, c := range p.rgb {
		nd.Assert(c[0] == s[i] && c[1] == s[i] && c[2] == s[i], "each pixel has the tone of its variable")
	}
}

// Completion: an image of which a part was completed.
func Completion() {
	w, h := dims()
	typ := io.Orientations[nd.Choose("type", 4)]
	grey := nd.Bool("grey")
	max := 1
	if grey {
		max = nd.Int("max", 1, 255)
	}
	img := anyImage(w*h, max)
	orig, cmpl := make(spn.VarSet), make(spn.VarSet)
	if nd.Bound("subset", 1) == 2 {
		for i := 0; i < w*h; i++ {
			if nd.Bool(fmt.Sprintf("o%d", i)) {
				orig[i] = img[i]
			} else {
				cmpl[i] = img[i]
			}
		}
	} else {
		cmpl, orig = io.SplitHalf(img, typ, w, h)
	}
	o, c := clone(orig), clone(cmpl)
	name := nd.TempDir() + "/c.ppm"
	if grey {
		io.ImgCmplToPGM(name, orig, cmpl, typ, w, h, max+1)
	} else {
		max = 255
		io.ImgCmplToPPM(name, orig, cmpl, typ, w, h)
	}
	nd.Assert(same(o, orig) && same(c, cmpl), "the given states are left alone")
	p := read(name)
	nd.Assert(p.max == max, "the maximum is the highest tone")
	row := typ == io.Top || typ == io.Bottom
	if row {
		nd.Assert(p.w == w && p.h == h+1, "one row is added for the separator")
	} else {
		nd.Assert(p.w == w+1 && p.h == h, "one column is added for the separator")
	}
	j := 0
	for i, c := range p.rgb {
		x, y := i%p.w, i/p.w
		if (row && y == h/2) || (!row && x == w/2) {
			nd.Assert(c[0] == max && c[1] == 0 && c[2] == 0, "the separator between the halves is red")
			continue
		}
		v, given := o[j], false
		if _, given = o[j]; !given {
			v = cmpl[j]
		}
		j++
		switch {
		case grey && given:
			nd.Assert(c[0] == v && c[1] == v && c[2] == v, "given pixels have their tone of grey")
		case grey:
			nd.Assert(c[0] == 0 && c[1] == v && c[2] == 0, "completed pixels have their tone of green")
		case v == 0:
			nd.Assert(c[0] == 255 && c[1] == 255 && c[2] == 255, "unset pixels are white")
		case given:
			nd.Assert(c[0] == 0 && c[1] == 0 && c[2] == 255, "given pixels are blue")
		default:
			nd.Assert(c[0] == 0 && c[1] == 255 && c[2] == 0, "completed pixels are green")
		}
	}
	nd.Assert(j == w*h, "every pixel is drawn")
}

// Halves: an image is split in two.
func Halves() {
	w, h := dims()
	typ := io.Orientations[nd.Choose("type", 4)]
	img := anyImage(w*h, 255)
	was := clone(img)
	P, Q := io.SplitHalf(img, typ, w, h)
	nd.Assert(same(was, img), "the image is left alone")
	nd.Assert(len(P)+len(Q) == w*h, "every pixel is in one half")
	for i := 0; i < w*h; i++ {
		var first bool
		switch x, y := i%w, i/w; typ {
		case io.Top:
			first = y < h/2
		case io.Bottom:
			first = y >= h/2
		case io.Left:
			first = x < w/2
		case io.Right:
			first = x >= w/2
		}
		v, in := P[i]
		u, out := Q[i]
		nd.Assert(in == first && out == !first, "each pixel is in the half where it lies")
		if first {
			nd.Assert(v == img[i], "the pixels keep their tones")
		} else {
			nd.Assert(u == img[i], "the pixels keep their tones")
		}
	}
}

// Big: large images.
func Big() {
	switch nd.Choose("what", 3) {
	case 0:
		State()
	case 1:
		Completion()
	case 2:
		Halves()
	}
}

func components(c *common.Color) [3]int {
	f := strings.Fields(c.String())
	nd.Assert(len(f) == 3, "a colour has three components")
	var v [3]int
	for i := range v {
		x, err := strconv.Atoi(f[i])
		nd.Assert(err == nil, "a component is a number")
		v[i] = x
	}
	return v
}

// hsv tells whether a colour is that of a hue, saturation and brightness.
func hsv(c [3]int, h, s, v float64) bool {
	for i, n := range []float64{5, 3, 1} {
		k := n + h/60
		if k >= 6 {
			k -= 6
		}
		if k >= 6 {
			k -= 6
		}
		m := k
		if 4-k < m {
			m = 4 - k
		}
		if m > 1 {
			m = 1
		}
		if m < 0 {
			m = 0
		}
		x := 255 * (v - v*s*m)
		nd.Assert(c[i] >= 0 && c[i] <= 255, "components are within 0 and 255")
		if !nd.Leq(float64(c[i]), x) || !nd.Leq(x, float64(c[i]+1)) {
			return false
		}
	}
	return true
}

// Scale: colours of a scale.
func Scale() {
	h := nd.Real("h", 0, 360)
	s := nd.Real("s", 0, 1)
	b := nd.Real("b", 0, 1)
	max := nd.Real("max", 1, 100)
	p := nd.Real("p", 0, 100)
	nd.Assume(p <= max)
	nd.Assert(hsv(components(common.RandColorScale(p, max, h, s, b)), h, s, (1-b)*p/max+b), "the colour is that of the hue, saturation and brightness")
}

// Random: random colours.
func Random() {
	sys.Random = rand.New(nd.RandSource())
	c := components(common.RandColor())
	for _, x := range c {
		nd.Assert(x >= 0 && x <= 255, "components are within 0 and 255")
	}
}

// Tone: random tones of a hue.
func Tone() {
	h := nd.Real("h", 0, 360)
	sys.RefreshRandom(7)
	s, v := sys.RandFloat64(), sys.RandFloat64()
	sys.RefreshRandom(7)
	c := components(common.RandTone(h))
	nd.Assert(hsv(c, h, s, v) || hsv(c, h, v, s), "the tone is of the hue given, its saturation and brightness random")
}
