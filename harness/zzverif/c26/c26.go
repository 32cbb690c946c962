// Package c26: drawings and listings of networks.
package c26

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

type edge struct {
	to    string
	label string
}

// graph is what a drawing shows.
type graph struct {
	names []string
	kind  map[string]byte // '+', '*' or 'X'
	vr    map[string]int
	edges map[string][]edge
	seen  map[string]bool
}

func newGraph() *graph {
	return &graph{kind: make(map[string]byte), vr: make(map[string]int), edges: make(map[string][]edge), seen: make(map[string]bool)}
}

func (g *graph) node(name string, kind byte, v int) {
	nd.Assert(g.kind[name] == 0, "every node drawn has its own name")
	g.names = append(g.names, name)
	g.kind[name], g.vr[name] = kind, v
}

func (g *graph) edge(from, to, label string) {
	g.edges[from] = append(g.edges[from], edge{to, label})
}

func between(s, a, b string) (string, bool) {
	p := strings.SplitN(s, a, 2)
	if len(p) < 2 {
		return "", false
	}
	p = strings.SplitN(p[1], b, 2)
	return p[0], len(p) == 2
}

func lines(name string) []string {
	f, err := os.Open(name)
	nd.Assert(err == nil, "the drawing is written")
	defer f.Close()
	var l []string
	s := bufio.NewScanner(f)
	for s.Scan() {
		if t := s.Text(); t != "" {
			l = append(l, t)
		}
	}
	return l
}

func readDot(name string) *graph {
	g := newGraph()
	L := lines(name)
	nd.Assert(len(L) >= 2 && L[0] == "graph {" && L[len(L)-1] == "}", "the drawing is an undirected dot graph")
	for _, l := range L[1 : len(L)-1] {
		f := strings.Fields(l)
		if len(f) >= 3 && f[1] == "--" {
			lab, _ := between(l, "label=\"", "\"")
			g.edge(f[0], strings.TrimSuffix(f[2], ";"), lab)
			continue
		}
		if v, ok := between(l, "<sub>", "</sub>"); ok {
			n, err := strconv.Atoi(v)
			nd.Assert(err == nil, "a leaf shows its variable")
			g.node(f[0], 'X', n)
		} else if strings.Contains(l, "&times;") {
			g.node(f[0], '*', -1)
		} else {
			nd.Assert(strings.Contains(l, "\"+\""), "a node is a sum, a product or a leaf")
			g.node(f[0], '+', -1)
		}
	}
	return g
}

func readTools(name, png string) *graph {
	g := newGraph()
	out := false
	known := make(map[string]bool) // what the script has defined
	for _, l := range lines(name) {
		if strings.HasPrefix(l, "def ") {
			known[strings.SplitN(l[4:], "(", 2)[0]] = true
		}
		for _, u := range []string{"add_node", "add_edge", "add_edge_nameless"} {
			nd.Assert(known[u] || !strings.Contains(l, u+"("), "what the script calls is defined before")
		}
		for _, u := range []string{"g.vertex_properties[\"name\"]", "g.vertex_properties[\"color\"]"} {
			if strings.HasPrefix(l, u+"=") {
				known[u] = true
			}
			nd.Assert(known[u] || !strings.Contains(l, "="+u), "what the script shows is set before")
		}
		if strings.Contains(l, "graph_draw(") {
			out = strings.Contains(l, "\""+png+"\"")
		}
		if l[0] == '\t' || strings.HasPrefix(l, "def ") {
			continue
		}
		if part := strings.SplitN(l, " = add_node(", 2); len(part) == 2 {
			a, ok := between(l, "add_node(\"", "\"")
			nd.Assert(ok && strings.Count(l, ",") == 1, "a node is added by its name and colour")
			switch a {
			case "+", "*":
				g.node(part[0], a[0], -1)
			default:
				nd.Assert(strings.HasPrefix(a, "X_"), "a node is a sum, a product or a leaf")
				v, err := strconv.Atoi(strings.TrimPrefix(a, "X_"))
				nd.Assert(err == nil, "a leaf shows its variable")
				g.node(part[0], 'X', v)
			}
			continue
		}
		nd.Assert(!strings.HasPrefix(l, "add_node("), "nodes are named")
		if strings.HasPrefix(l, "add_edge") {
			a, ok := between(l, "(", ")")
			nd.Assert(ok, "an edge has two ends")
			p := strings.Split(a, ", ")
			lab := ""
			if strings.HasPrefix(l, "add_edge(") {
				nd.Assert(len(p) == 3, "a weighted edge has a weight")
				lab = strings.Trim(p[2], "\"")
			} else {
				nd.Assert(len(p) == 2, "an edge has two ends")
			}
			nd.Assert(g.kind[p[0]] != 0 && g.kind[p[1]] != 0, "edges link nodes added before")
			g.edge(p[0], p[1], lab)
		}
	}
	nd.Assert(out, "the script draws an image named like the file")
	return g
}

func weight(lab string, w float64, tol float64) bool {
	v, err := strconv.ParseFloat(lab, 64)
	nd.Assert(err == nil, "a weight is a number")
	return nd.Leq(v, w+tol) && nd.Leq(w, v+tol)
}

// match tells whether the drawn node shows node i of the network and what is below it.
func (g *graph) match(t *hlib.Net, i int, name string) bool {
	if len(t.Ch[i]) == 0 {
		return g.kind[name] == 'X' && g.vr[name] == t.Var[i] && len(g.edges[name]) == 0
	}
	k := byte('*')
	if t.Kind[i] == hlib.KSum {
		k = '+'
	}
	E := g.edges[name]
	if g.kind[name] != k || len(E) != len(t.Ch[i]) {
		return false
	}
	used := make([]bool, len(E))
	for a, c := range t.Ch[i] {
		found := false
		for b, e := range E {
			if used[b] || !g.match(t, c, e.to) {
				continue
			}
			if k == '+' {
				if e.label == "" || !weight(e.label, t.W[i][a], 0.00051) {
					continue
				}
			} else if e.label != "" {
				continue
			}
			used[b], found = true, true
			break
		}
		if !found {
			return false
		}
	}
	return true
}

func (g *graph) mark(name string) {
	g.seen[name] = true
	for _, e := range g.edges[name] {
		g.mark(e.to)
	}
}

func (g *graph) check(t *hlib.Net) {
	child := make(map[string]bool)
	for _, E := range g.edges {
		for _, e := range E {
			child[e.to] = true
		}
	}
	root := ""
	for _, n := range g.names {
		if !child[n] {
			nd.Assert(root == "", "the drawing has one root")
			root = n
		}
	}
	nd.Assert(root != "" && g.match(t, t.Root, root), "the drawing shows the nodes, edges and weights of the network")
	g.mark(root)
	for _, n := range g.names {
		nd.Assert(g.seen[n], "nothing else is drawn")
	}
}

func anyNet() *hlib.Net {
	n := nd.Bound("nodes", 4)
	return hlib.AnyNet(n, hlib.Opt{Vars: nd.Bound("vars", 2), Cats: 2, ZeroW: true, PermVars: true, NoMult: true})
}

func anyLeaf() *hlib.Net {
	t := &hlib.Net{}
	v := nd.Int("var", 0, 9)
	if nd.Choose("kind", 2) == 0 {
		t.Root = t.AddIndicator(v, nd.Int("val", 0, 9))
	} else {
		t.Root = t.AddMultinomial(v, []float64{0.25, 0.75})
	}
	return t
}

func draw(t *hlib.Net) {
	d := nd.TempDir()
	root := t.Nodes[t.Root]
	if nd.Bool("tools") {
		io.DrawGraphTools(d+"/net.py", root)
		readTools(d+"/net.py", d+"/net.png").check(t)
	} else {
		io.DrawGraph(d+"/net.dot", root)
		readDot(d + "/net.dot").check(t)
	}
}

// Graph: drawings of every network.
func Graph() { draw(anyNet()) }

// Leaf: drawings of a single leaf.
func Leaf() { draw(anyLeaf()) }

// Wide: drawings of a node with many children.
func Wide() {
	t := &hlib.Net{}
	k := 1 + nd.Choose("k", nd.Bound("width", 12))
	var ch []int
	var w []float64
	for i := 0; i < k; i++ {
		c := t.AddIndicator(i%3, i)
		if i%2 == 1 {
			c = t.AddProduct([]int{c})
		}
		ch = append(ch, c)
		w = append(w, float64(i)/8)
	}
	if nd.Bool("sum") {
		t.Root = t.AddSum(ch, w)
	} else {
		t.Root = t.AddProduct(ch)
	}
	draw(t)
}

type entry struct {
	name string
	rows [][]string
}

func readListing(name string) []entry {
	var es []entry
	open := false
	for _, l := range lines(name) {
		f := strings.Fields(l)
		switch {
		case !open:
			nd.Assert(len(f) == 2 && f[1] == "[", "an entry starts with its name")
			es = append(es, entry{name: f[0]})
			open = true
		case len(f) == 1 && f[0] == "]":
			open = false
		default:
			e := &es[len(es)-1]
			e.rows = append(e.rows, f)
		}
	}
	nd.Assert(!open, "every entry is closed")
	return es
}

// listing checks a listing, where mu and sigma are the moments of the leaves.
func listing(t *hlib.Net, mu, sigma func(i int) float64) {
	name := nd.TempDir() + "/net.txt"
	spn.PrintSPN(t.Nodes[t.Root], name)
	es := readListing(name)
	nd.Assert(len(es) == len(t.Nodes), "every node is listed once")
	at := make(map[string]entry)
	for _, e := range es {
		_, dup := at[e.name]
		nd.Assert(!dup, "every node has its own name")
		at[e.name] = e
	}
	names := make(map[int]string)
	names[t.Root] = es[0].name
	todo := []int{t.Root}
	for len(todo) > 0 {
		i := todo[0]
		todo = todo[1:]
		e, ok := at[names[i]]
		nd.Assert(ok, "every node referred to is listed")
		if len(t.Ch[i]) == 0 {
			nd.Assert(e.name[0] == 'L', "leaves are listed as leaves")
			nd.Assert(len(e.rows) == 1 && len(e.rows[0]) == 2, "a leaf shows its moments")
			nd.Assert(weight(e.rows[0][0], mu(i), 0.0000051), "a leaf shows its mean")
			nd.Assert(weight(e.rows[0][1], sigma(i), 0.0000051), "a leaf shows its deviation")
			continue
		}
		sum := t.Kind[i] == hlib.KSum
		nd.Assert(e.name[0] == 'S' == sum && e.name[0] == 'P' == !sum, "inner nodes are listed as sums or products")
		nd.Assert(len(e.rows) == len(t.Ch[i]), "a node lists all its children")
		for k, c := range t.Ch[i] {
			r := e.rows[k]
			if sum {
				nd.Assert(len(r) == 2 && weight(r[1], t.W[i][k], 0.0000051), "the children of a sum have their weights")
			} else {
				nd.Assert(len(r) == 1, "the children of a product have no weights")
			}
			if n, ok := names[c]; ok {
				nd.Assert(n == r[0], "a shared node is listed under one name")
			} else {
				names[c] = r[0]
				todo = append(todo, c)
			}
		}
	}
	nd.Assert(len(names) == len(t.Nodes), "every node is listed")
	used := make(map[string]bool)
	for _, n := range names {
		nd.Assert(!used[n], "different nodes have different names")
		used[n] = true
	}
}

// List: listings of every network.
func List() {
	t := anyNet()
	listing(t, func(i int) float64 { return float64(t.Val[i]) }, func(i int) float64 { return 0 })
}

// ListLeaves: listings of leaves.
func ListLeaves() {
	t := &hlib.Net{}
	var ch []int
	n := 1 + nd.Choose("n", nd.Bound("leaves", 3))
	mus, sigmas := make(map[int]float64), make(map[int]float64)
	for i := 0; i < n; i++ {
		var c int
		switch nd.Choose(fmt.Sprintf("kind%d", i), 3) {
		case 0:
			v := nd.Int(fmt.Sprintf("val%d", i), 0, 9)
			c = t.AddIndicator(i, v)
			mus[c] = float64(v)
		case 1:
			p := nd.Choose(fmt.Sprintf("p%d", i), 3)
			c = t.AddMultinomial(i, [][]float64{{0.25, 0.75}, {0.5, 0.5}, {0, 1}}[p])
			mus[c] = []float64{0.75, 0.5, 1}[p]
			sigmas[c] = []float64{0.4330127018922193, 0.5, 0}[p]
		default:
			m, s := nd.Real(fmt.Sprintf("mu%d", i), -9, 9), nd.Real(fmt.Sprintf("sigma%d", i), 0, 9)
			c = t.AddIndicator(i, 0)
			t.Nodes[c] = spn.NewGaussianParams(i, m, s)
			mus[c], sigmas[c] = m, s
		}
		ch = append(ch, c)
	}
	if n == 1 {
		t.Root = ch[0]
	} else {
		t.Root = t.AddProduct(ch)
	}
	listing(t, func(i int) float64 { return mus[i] }, func(i int) float64 { return sigmas[i] })
}

// Twice: the same, when a node has one of its children twice.
func Twice() {
	switch nd.Choose("what", 2) {
	case 0:
		Graph()
	case 1:
		List()
	}
}

// Big: drawings of large networks.
func Big() {
	t := hlib.AnyBig()
	draw(t)
}
