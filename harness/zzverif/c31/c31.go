// Package c31: downloads are complete or not there, whatever fails.
package c31

import (
	"errors"
	"fmt"
	stdio "io"
	"net/http"
	"os"
	"strings"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// body is an answer that arrives in pieces and may break off.
type body struct {
	parts  []string
	at     int
	off    int
	end    error
	n      *net
	closed bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.at == len(b.parts) {
		if b.end == nil {
			panic("interrupted")
		}
		return 0, b.end
	}
	if b.off == 0 && len(b.parts[b.at]) <= len(p) {
		b.at++
		return copy(p, b.parts[b.at-1]), nil
	}
	k := copy(p, b.parts[b.at][b.off:])
	b.off += k
	if b.off == len(b.parts[b.at]) {
		b.at, b.off = b.at+1, 0
	}
	return k, nil
}

func (b *body) Close() error {
	if !b.closed {
		b.closed = true
		b.n.open--
	}
	return nil
}

// What may become of a request.
const (
	arrives = iota
	refused
	missing
	breaks
	interrupted
)

// net stands for the network.
type net struct {
	plan  int
	parts []string // what the file holds
	asked []string
	open  int
}

func (n *net) RoundTrip(r *http.Request) (*http.Response, error) {
	n.asked = append(n.asked, r.URL.String())
	if n.plan == refused {
		return nil, errors.New("no route to host")
	}
	n.open++
	b := &body{parts: n.parts, end: stdio.EOF, n: n}
	resp := &http.Response{Status: "200 OK", StatusCode: 200, Body: b, Request: r}
	switch n.plan {
	case missing:
		resp.StatusCode = nd.Int("status", 400, 599)
		resp.Status = fmt.Sprintf("%d No", resp.StatusCode)
		b.parts = []string{"Not Found\n"}
	case breaks, interrupted:
		b.parts = n.parts[:nd.Choose("arrived", len(n.parts))]
		b.end = errors.New("connection reset by peer")
		if n.plan == interrupted {
			b.end = nil
		}
	}
	return resp, nil
}

func content(name string) string {
	b, err := os.ReadFile(name)
	nd.Assert(err == nil, "the file is there")
	return string(b)
}

func entries(dir string) int {
	f, err := os.Open(dir)
	nd.Assert(err == nil, "the folder is there")
	defer f.Close()
	s, err := f.Readdirnames(0)
	nd.Assert(err == nil, "the folder can be listed")
	return len(s)
}

// try calls f, which may be interrupted.
func try(f func()) (ok bool) {
	defer func() {
		if !ok {
			nd.Assert(fmt.Sprint(recover()) == "interrupted", "nothing but an interruption ends a download")
		}
	}()
	f()
	return true
}

// Download: every history of downloads to one place.
func Download() {
	d := nd.TempDir()
	n := &net{}
	old := http.DefaultTransport
	http.DefaultTransport = n
	defer func() { http.DefaultTransport = old }()
	u := "http://example.com/a/b/x.data"
	p, f := d+"/x.data", d+"/x.data"
	switch nd.Choose("place", 3) {
	case 1:
		p = d
	case 2:
		p, f = d+"/new.txt", d+"/new.txt"
	}
	have, is, left := false, "", false
	if k := nd.Choose("have", 3); k > 0 {
		have, is = true, []string{"old", ""}[k-1]
		nd.Assert(os.WriteFile(f, []byte(is), 0644) == nil, "the file is written")
	}
	for k, m := 0, nd.Bound("ops", 2); k < m; k++ {
		override := nd.Choose(fmt.Sprintf("override%d", k), 2) == 1
		n.plan = nd.Choose(fmt.Sprintf("plan%d", k), 5)
		n.parts = []string{fmt.Sprintf("version %d\n", k), fmt.Sprintf("%d %d\n", nd.Int(fmt.Sprintf("a%d", k), 0, 9), nd.Int(fmt.Sprintf("b%d", k), 0, 9)), "end\n"}
		if b := nd.Bound("big", 0); b > 0 {
			n.parts = nil
			for i := 0; i < b; i++ {
				n.parts = append(n.parts, fmt.Sprintf("%d:%d ", k, i)+strings.Repeat(string(rune('a'+i)), 10000*(i%3)))
			}
		} else if n.plan == arrives && nd.Choose(fmt.Sprintf("empty%d", k), 2) == 1 {
			n.parts = nil
		}
		n.asked = nil
		var err error
		ok := try(func() { err = io.DownloadFromURL(u, p, override) })
		if have && !override {
			nd.Assert(ok && err == nil && len(n.asked) == 0, "a file that is there is not downloaded again")
		} else {
			nd.Assert(len(n.asked) == 1 && n.asked[0] == u, "the address is asked for once")
			if n.plan == arrives {
				nd.Assert(ok && err == nil, "a download that arrives is no error")
				have, is = true, strings.Join(n.parts, "")
			} else {
				nd.Assert(!ok || err != nil, "a download that fails is an error")
			}
			if !ok {
				left = true
			}
		}
		_, e := os.Stat(f)
		nd.Assert((e == nil) == have, "a file is there exactly if it was downloaded")
		if have {
			nd.Assert(content(f) == is, "the file is the last one that arrived, complete")
		}
		nd.Assert(n.open == 0, "every answer is closed")
		if !left {
			c := 0
			if have {
				c = 1
			}
			nd.Assert(entries(d) == c, "nothing else is left behind")
		}
	}
}

// Big: large files in many pieces.
func Big() { Download() }

type set = func() (map[int]*learn.Variable, []map[int]int)

var sets = []struct {
	name string
	get  set
}{
	{"caltech", data.Caltech}, {"caltech_4bit", data.Caltech4Bit}, {"caltech_3bit", data.Caltech3Bit},
	{"digits", data.Digits}, {"digits_x", data.DigitsX},
	{"olivetti", data.Olivetti}, {"olivetti_padded_u", data.OlivettiPadded}, {"olivetti_3bit", data.Olivetti3Bit},
	{"olivetti_big", data.OlivettiBig}, {"olivetti_small", data.OlivettiSmall},
}

const upstream = "https://raw.githubusercontent.com/RenatoGeh/datasets/master/"

func begin() (*net, func()) {
	n := &net{}
	old := http.DefaultTransport
	http.DefaultTransport = n
	cwd, _ := os.Getwd()
	os.Chdir(nd.TempDir())
	return n, func() {
		http.DefaultTransport = old
		os.Chdir(cwd)
	}
}

// file makes up a data file of two variables.
func file(name string, rows int) ([]string, [][]int) {
	P := []string{"var 0 10\nvar 1 3\n"}
	var X [][]int
	for i := 0; i < rows; i++ {
		x := []int{nd.Int(fmt.Sprintf("%s%d", name, i), 0, 9), nd.Int(fmt.Sprintf("%sc%d", name, i), 0, 2)}
		P = append(P, fmt.Sprintf("%d %d\n", x[0], x[1]))
		X = append(X, x)
	}
	return P, X
}

func same(D []map[int]int, X [][]int) bool {
	if len(D) != len(X) {
		return false
	}
	for i := range X {
		if len(D[i]) != 2 || D[i][0] != X[i][0] || D[i][1] != X[i][1] {
			return false
		}
	}
	return true
}

func scope(sc map[int]*learn.Variable) bool {
	return len(sc) == 2 && sc[0].Categories == 10 && sc[1].Categories == 3 && sc[0].Varid == 0 && sc[1].Varid == 1
}

// Datasets: each dataset is fetched once, from its own place, and read.
func Datasets() {
	n, end := begin()
	defer end()
	s := sets[nd.Choose("set", len(sets))]
	var X [][]int
	have := false
	for k, m := 0, nd.Bound("ops", 2); k < m; k++ {
		n.plan = nd.Choose(fmt.Sprintf("plan%d", k), 5)
		P, Y := file(fmt.Sprintf("r%d_", k), nd.Bound("rows", 2))
		n.parts, n.asked = P, nil
		var sc map[int]*learn.Variable
		var D []map[int]int
		ok := try(func() { sc, D = s.get() })
		if have {
			nd.Assert(ok && len(n.asked) == 0, "a dataset that is there is not downloaded again")
		} else {
			nd.Assert(len(n.asked) == 1 && n.asked[0] == upstream+s.name+"/compiled/all.data", "a dataset is downloaded from its own place")
			if n.plan == arrives {
				have, X = true, Y
			} else {
				nd.Assert(!ok || sc == nil && D == nil, "a dataset that cannot be downloaded is nil")
				continue
			}
		}
		nd.Assert(ok && scope(sc) && same(D, X), "the dataset is the one downloaded")
	}
	if have && nd.Choose("other", 2) == 1 {
		n.plan, n.asked = refused, nil
		for _, t := range sets {
			if t.name != s.name {
				sc, D := t.get()
				nd.Assert(sc == nil && D == nil, "no dataset is taken for another")
			}
		}
	}
}

// Pairs: the datasets that come as a test and a training part.
func Pairs() {
	n, end := begin()
	defer end()
	S := []struct {
		name string
		get  func() (map[int]*learn.Variable, []map[int]int, []map[int]int)
	}{{"256_1000", data.MNIST1000}, {"256_2000", data.MNIST2000}, {"8_1000", data.MNIST3Bits1000}, {"8_2000", data.MNIST3Bits2000}}
	s := S[nd.Choose("set", len(S))]
	rows := nd.Bound("rows", 2)
	pt, T := file("t", rows)
	pr, R := file("r", 1)
	w := &two{n: n, test: pt, train: pr}
	http.DefaultTransport = w
	var have [2]bool
	for k, m := 0, nd.Bound("ops", 2); k < m; k++ {
		w.plans = [2]int{nd.Choose(fmt.Sprintf("test%d", k), 5), nd.Choose(fmt.Sprintf("train%d", k), 5)}
		n.asked = nil
		var sc map[int]*learn.Variable
		var dt, dr []map[int]int
		ok := try(func() { sc, dt, dr = s.get() })
		for i, a := range n.asked {
			nd.Assert(a == upstream+"mnist/compiled/test_"+s.name+".data" || a == upstream+"mnist/compiled/train_"+s.name+".data", "the parts are downloaded from their own places")
			nd.Assert(i == 0 || a != n.asked[i-1], "no part is downloaded twice")
			x := 0
			if strings.Contains(a, "/train_") {
				x = 1
			}
			nd.Assert(!have[x], "a part that is there is not downloaded again")
			have[x] = w.plans[x] == arrives
		}
		if have[0] && have[1] {
			nd.Assert(ok && scope(sc) && same(dt, T) && same(dr, R), "the parts are the ones downloaded")
		} else {
			nd.Assert(!ok || sc == nil && dt == nil && dr == nil, "a dataset that cannot be downloaded is nil")
		}
	}
}

// two is a network with a test and a training part.
type two struct {
	n           *net
	test, train []string
	plans       [2]int
}

func (w *two) RoundTrip(r *http.Request) (*http.Response, error) {
	w.n.plan, w.n.parts = w.plans[0], w.test
	if strings.Contains(r.URL.String(), "/train_") {
		w.n.plan, w.n.parts = w.plans[1], w.train
	}
	return w.n.RoundTrip(r)
}
