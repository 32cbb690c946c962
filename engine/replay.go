package main

// Native replay of solver models against the real code.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ast/astutil"
)

// Replayer builds one native binary for all harness packages of a property.
type Replayer struct {
	e     *Engine
	dir   string
	err   error
	prop  *Property
	mu    sync.Mutex
	built map[string]*variant
}

// variant is one build of the replay program: "" the code as it is, "race"
// under the race detector, "forced" with the recorded schedule imposed.
type variant struct {
	once sync.Once
	bin  string
	err  error
}

func (e *Engine) newReplayer(prop *Property) *Replayer {
	d, err := os.MkdirTemp("", "gosym")
	return &Replayer{e: e, dir: d, err: err, prop: prop}
}

func (r *Replayer) cleanup() {
	if r.dir != "" && strings.Contains(r.dir, "gosym") {
		os.RemoveAll(r.dir)
	}
}

// build writes the go build overlay and the generated main package, and
// compiles the variant.
func (r *Replayer) build(mode string) (string, error) {
	r.mu.Lock()
	if r.built == nil {
		r.built = map[string]*variant{}
	}
	v := r.built[mode]
	if v == nil {
		v = &variant{err: r.err}
		r.built[mode] = v
	}
	r.mu.Unlock()
	v.once.Do(func() {
		if v.err != nil {
			return
		}
		v.bin, v.err = r.compile(mode)
	})
	return v.bin, v.err
}

func (r *Replayer) compile(mode string) (string, error) {
	rep := map[string]string{}
	for k, v := range r.e.files {
		rep[k] = v
	}
	if mode == "forced" {
		if err := r.force(rep); err != nil {
			return "", err
		}
	}
	imps := map[string]string{}
	var fns []string
	for _, h := range r.prop.Harnesses {
		if _, ok := imps[h.Pkg]; !ok {
			imps[h.Pkg] = fmt.Sprintf("h%d", len(imps))
		}
		if l := fmt.Sprintf("\t\t%q: %s.%s,\n", h.Func, imps[h.Pkg], h.Func); !contains(fns, l) {
			fns = append(fns, l)
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	var ks []string
	for k := range imps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "\t%s %q\n", imps[k], modPath+"/"+k)
	}
	fmt.Fprintf(&sb, "\t%q\n)\n\nfunc main() {\n\tnd.Main(map[string]func(){\n%s\t})\n}\n", ndPath, strings.Join(fns, ""))
	mainFile := filepath.Join(r.dir, "main"+mode+".go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(r.e.repo, "zzverif/zzrun/main.go")] = mainFile
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(r.dir, "overlay"+mode+".json")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(r.dir, "run"+mode)
	args := []string{"build", "-overlay", ov, "-o", bin}
	if mode == "race" {
		args = append(args, "-race")
	}
	c := exec.Command("go", append(args, "./zzverif/zzrun")...)
	c.Dir = r.e.repo
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, out)
	}
	return bin, nil
}

// force rewrites every file that synchronises or starts goroutines so that it
// uses the replaying scheduler.
func (r *Replayer) force(rep map[string]string) error {
	vs := filepath.Join(r.e.verif, "harness/zzverif/vsync/vsync.go")
	rep[filepath.Join(r.e.repo, "zzverif/vsync/vsync.go")] = vs
	n := 0
	add := func(path, src string) error {
		out, err := forceFile(src)
		if err != nil || out == nil {
			return err
		}
		f := filepath.Join(r.dir, fmt.Sprintf("forced%d.go", n))
		n++
		rep[path] = f
		return os.WriteFile(f, out, 0o644)
	}
	for k, v := range r.e.files {
		if strings.Contains(k, "/zzverif/nd/") {
			continue
		}
		if err := add(k, v); err != nil {
			return err
		}
	}
	return filepath.Walk(r.e.repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if b := fi.Name(); path != r.e.repo && (strings.HasPrefix(b, ".") || b == "zzverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		return add(path, path)
	})
}

const vsyncPath = modPath + "/zzverif/vsync"

// forceFile returns the rewritten source, or nil if nothing needs rewriting.
func forceFile(file string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	f.Comments = nil
	changed := false
	timeName := ""
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync", "runtime":
			if im.Name == nil {
				im.Name = ast.NewIdent(p)
			}
		case "sync/atomic":
			if im.Name == nil {
				im.Name = ast.NewIdent("atomic")
			}
		case "time":
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
			continue
		default:
			continue
		}
		im.Path.Value = strconv.Quote(vsyncPath)
		im.EndPos = 0
		changed = true
	}
	own, sleeps := false, false
	chans := false
	k := 0
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
			chans = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				chans = true
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Sleep" {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == timeName {
					s.X = ast.NewIdent("vsync__")
					own, sleeps = true, true
				}
			}
		case *ast.GoStmt:
			own = true
			blk := &ast.BlockStmt{}
			name := func() *ast.Ident { k++; return ast.NewIdent(fmt.Sprintf("vs_%d", k)) }
			let := func(e ast.Expr) ast.Expr {
				switch y := e.(type) {
				case *ast.BasicLit, *ast.FuncLit:
					return e
				case *ast.Ident:
					if y.Name == "nil" || y.Name == "true" || y.Name == "false" {
						return e
					}
				}
				id := name()
				blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
				return ast.NewIdent(id.Name)
			}
			call := *x.Call
			call.Fun = let(call.Fun)
			call.Args = append([]ast.Expr(nil), call.Args...)
			for i := range call.Args {
				call.Args[i] = let(call.Args[i])
			}
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &call}}}}
			blk.List = append(blk.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsync__"), Sel: ast.NewIdent("Go")}, Args: []ast.Expr{lit}}})
			c.Replace(blk)
		}
		return true
	})
	if !changed && !own {
		return nil, nil
	}
	if chans {
		return nil, fmt.Errorf("%s uses channels: no schedule-forced replay", file)
	}
	var sb bytes.Buffer
	if own {
		astutil.AddNamedImport(fset, f, "vsync__", vsyncPath)
	}
	if err := printer.Fprint(&sb, fset, f); err != nil {
		return nil, err
	}
	if sleeps {
		sb.WriteString("\nvar _ = " + timeName + ".Now\n")
	}
	return sb.Bytes(), nil
}

// NativeResult is the outcome of one native run.
type NativeResult struct {
	Kind, Msg string
}

func (n NativeResult) failing() bool {
	return n.Kind == "assert" || n.Kind == "panic" || n.Kind == "hang" || n.Kind == "crash" || n.Kind == "race"
}

// run replays inputs natively, in parallel.
func (r *Replayer) run(ins []*RunInput, limit time.Duration) ([]NativeResult, error) {
	for _, in := range ins {
		if _, err := r.build(in.Mode); err != nil {
			return nil, err
		}
	}
	f, err := os.CreateTemp(r.dir, "in*.json")
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(ins)
	f.Write(b)
	f.Close()
	res := make([]NativeResult, len(ins))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i := range ins {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			res[i] = r.run1(ins[i].Mode, f.Name(), i, limit)
		}(i)
	}
	wg.Wait()
	return res, nil
}

func (r *Replayer) run1(mode, file string, i int, limit time.Duration) NativeResult {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	wd, err := os.MkdirTemp(r.dir, "cwd")
	if err != nil {
		return NativeResult{"mismatch", err.Error()}
	}
	defer os.RemoveAll(wd)
	bin, _ := r.build(mode)
	c := exec.CommandContext(ctx, bin, file, fmt.Sprint(i))
	c.Dir = wd
	c.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "TMPDIR="+wd, "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66")
	out, _ := c.CombinedOutput()
	if ctx.Err() != nil {
		return NativeResult{"hang", "native run did not finish in " + limit.String()}
	}
	s := string(out)
	if mode == "race" && strings.Contains(s, "WARNING: DATA RACE") {
		return NativeResult{"race", "the race detector reports a data race"}
	}
	if k := strings.LastIndex(s, "RESULT "); k >= 0 {
		l, _, _ := strings.Cut(s[k+7:], "\n")
		kind, msg, _ := strings.Cut(l, " ")
		return NativeResult{kind, msg}
	}
	if k := strings.Index(s, "panic:"); k >= 0 {
		s = s[k:]
	} else if k := strings.Index(s, "fatal error:"); k >= 0 {
		s = s[k:]
	}
	l, _, _ := strings.Cut(strings.TrimSpace(s), "\n")
	return NativeResult{"crash", l}
}

func contains(a []string, x string) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}
