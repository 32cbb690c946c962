package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

type result int

const (
	rUnknown result = iota
	rSat
	rUnsat
)

func (r result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// SolverStats is accumulated over all queries of a worker.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Fallbacks, Errors int
	Time                                            time.Duration
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Fallbacks += o.Fallbacks
	s.Errors += o.Errors
	s.Time += o.Time
}

// Solver drives one incremental z3 process.
type Solver struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	inc   io.Closer
	out   *bufio.Reader
	dead  bool
	depth int
	log   []string // lines of the current path, for the fallback solvers
	st    SolverStats
	tmo   int // ms per query
	sent  int
	open  bool
	until time.Time // no fallback solvers after this
}

func newSolver() *Solver {
	s := &Solver{tmo: 2000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	s.send("(set-option :print-success false)")
	s.send("(set-option :produce-models true)")
	s.send("(set-option :pp.decimal false)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.tmo))
}

func (s *Solver) close() {
	s.inc.Close()
	done := make(chan struct{})
	go func() { s.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		s.cmd.Process.Kill()
		<-done
	}
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

// beginPath opens a scope for one path.
func (s *Solver) beginPath() {
	if s.dead {
		s.close()
		s.start()
	}
	s.log = s.log[:0]
	s.sent = 0
	s.open = false
}

func (s *Solver) endPath() {
	if s.open {
		s.send("(pop 1)")
		s.open = false
	}
}

// flush sends the lines of the path that the solver has not seen.
func (s *Solver) flush() {
	if !s.open {
		s.send("(push 1)")
		s.open = true
	}
	for ; s.sent < len(s.log); s.sent++ {
		s.send(s.log[s.sent])
	}
}

// line adds a declaration or assertion to the path.
func (s *Solver) line(l string) {
	s.log = append(s.log, l)
}

func (s *Solver) readLine() (string, error) {
	s.in.Flush()
	type rl struct {
		l string
		e error
	}
	ch := make(chan rl, 1)
	go func() {
		l, e := s.out.ReadString('\n')
		ch <- rl{l, e}
	}()
	select {
	case r := <-ch:
		return strings.TrimSpace(r.l), r.e
	case <-time.After(time.Duration(s.tmo)*time.Millisecond*3 + 20*time.Second):
		s.cmd.Process.Kill()
		r := <-ch
		_ = r
		return "", fmt.Errorf("solver hung")
	}
}

// check asks whether the path with the extra assertion is satisfiable.  When
// want is non-empty and the answer is sat, the values of those terms are read.
func (s *Solver) check(extra string, want []string, hard bool) (result, []string) {
	t0 := time.Now()
	defer func() { s.st.Time += time.Since(t0) }()
	s.st.Queries++
	r, vals := rUnknown, []string(nil)
	if !s.dead {
		s.flush()
		s.send("(push 1)")
		if extra != "" {
			s.send("(assert " + extra + ")")
		}
		s.send("(check-sat)")
		l, err := s.readLine()
		if err != nil {
			s.dead = true
		} else if strings.HasPrefix(l, "(error") {
			s.st.Errors++
			s.dead = true // stream may be out of sync: restart
		} else {
			switch l {
			case "sat":
				r = rSat
				if len(want) > 0 {
					vals = s.values(want)
					if vals == nil {
						r = rUnknown
					}
				}
			case "unsat":
				r = rUnsat
			}
			if !s.dead {
				s.send("(pop 1)")
			}
		}
	}
	if r == rUnknown && hard && (s.until.IsZero() || time.Now().Before(s.until)) {
		s.st.Fallbacks++
		r, vals = s.fallback(extra, want)
	}
	switch r {
	case rSat:
		s.st.Sat++
	case rUnsat:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	return r, vals
}

func (s *Solver) values(want []string) []string {
	s.send("(get-value (" + strings.Join(want, " ") + "))")
	s.send("(echo \"--end--\")")
	var sb strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			s.dead = true
			return nil
		}
		if strings.Contains(l, "--end--") {
			break
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
	}
	return parseValues(sb.String(), len(want))
}

// fallback runs other configurations on the complete path script.
func (s *Solver) fallback(extra string, want []string) (result, []string) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n")
	for _, l := range s.log {
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	if extra != "" {
		sb.WriteString("(assert " + extra + ")\n")
	}
	base := sb.String()
	gv := ""
	if len(want) > 0 {
		gv = "(get-value (" + strings.Join(want, " ") + "))\n"
	}
	limit := 10 * time.Second
	if !s.until.IsZero() {
		if d := time.Until(s.until); d < limit {
			limit = d
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	type ans struct {
		r result
		v []string
	}
	ch := make(chan ans, 3)
	try := func(name string, args []string, script string) {
		c := exec.CommandContext(ctx, name, args...)
		c.Stdin = strings.NewReader(script)
		out, _ := c.Output()
		o := strings.TrimSpace(string(out))
		a := ans{}
		l, rest, _ := strings.Cut(o, "\n")
		switch strings.TrimSpace(l) {
		case "unsat":
			a.r = rUnsat
		case "sat":
			if len(want) == 0 {
				a.r = rSat
			} else if v := parseValues(rest, len(want)); v != nil {
				a = ans{rSat, v}
			}
		}
		ch <- a
	}
	go try("z3-new", []string{"-in", "-smt2"}, base+"(check-sat-using (then simplify solve-eqs purify-arith qfnra-nlsat))\n"+gv)
	go try("z3-new", []string{"-in", "-smt2"}, base+"(check-sat)\n"+gv)
	go try("cvc5", []string{"--lang=smt2"}, "(set-logic ALL)\n"+base+"(check-sat)\n"+gv)
	for i := 0; i < 3; i++ {
		if a := <-ch; a.r != rUnknown {
			return a.r, a.v
		}
	}
	return rUnknown, nil
}

// ---- s-expression values ----

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string, i int) (*sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return nil, i
	}
	if s[i] == '(' {
		e := &sexp{list: []*sexp{}}
		i++
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) {
				return nil, i
			}
			if s[i] == ')' {
				return e, i + 1
			}
			c, j := parseSexp(s, i)
			if c == nil {
				return nil, j
			}
			e.list = append(e.list, c)
			i = j
		}
	}
	if s[i] == '|' {
		j := i + 1
		for j < len(s) && s[j] != '|' {
			j++
		}
		return &sexp{atom: s[i : j+1]}, j + 1
	}
	j := i
	for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
		j++
	}
	return &sexp{atom: s[i:j]}, j
}

func parseValues(s string, n int) []string {
	e, _ := parseSexp(s, 0)
	if e == nil || len(e.list) != n {
		return nil
	}
	r := make([]string, n)
	for i, p := range e.list {
		if len(p.list) != 2 {
			return nil
		}
		v := evalSexp(p.list[1])
		if v == "" {
			return nil
		}
		r[i] = v
	}
	return r
}

// evalSexp returns "true", "false" or a rational in RatString form.
func evalSexp(e *sexp) string {
	if e.atom == "true" || e.atom == "false" {
		return e.atom
	}
	r := sexpRat(e)
	if r == nil {
		return ""
	}
	return r.RatString()
}

func sexpRat(e *sexp) *big.Rat {
	if e.atom != "" {
		a := strings.TrimSuffix(e.atom, "?")
		r, ok := new(big.Rat).SetString(a)
		if !ok {
			return nil
		}
		return r
	}
	if len(e.list) == 0 {
		return nil
	}
	switch e.list[0].atom {
	case "-":
		if len(e.list) == 2 {
			if x := sexpRat(e.list[1]); x != nil {
				return new(big.Rat).Neg(x)
			}
		}
	case "/":
		if len(e.list) == 3 {
			x, y := sexpRat(e.list[1]), sexpRat(e.list[2])
			if x != nil && y != nil && y.Sign() != 0 {
				return new(big.Rat).Quo(x, y)
			}
		}
	case "to_real":
		return sexpRat(e.list[1])
	case "root-obj":
		return rootObj(e)
	}
	return nil
}

// rootObj approximates a z3 algebraic number (root-obj poly i) by bisection.
func rootObj(e *sexp) *big.Rat {
	if len(e.list) != 3 {
		return nil
	}
	idx := sexpRat(e.list[2])
	if idx == nil {
		return nil
	}
	var ev func(p *sexp, x float64) (float64, bool)
	ev = func(p *sexp, x float64) (float64, bool) {
		if p.atom != "" {
			if r, ok := new(big.Rat).SetString(p.atom); ok {
				f, _ := r.Float64()
				return f, true
			}
			return x, true
		}
		var as []float64
		for _, c := range p.list[1:] {
			v, ok := ev(c, x)
			if !ok {
				return 0, false
			}
			as = append(as, v)
		}
		switch p.list[0].atom {
		case "+":
			s := 0.0
			for _, a := range as {
				s += a
			}
			return s, true
		case "*":
			s := 1.0
			for _, a := range as {
				s *= a
			}
			return s, true
		case "-":
			if len(as) == 1 {
				return -as[0], true
			}
			s := as[0]
			for _, a := range as[1:] {
				s -= a
			}
			return s, true
		case "^":
			s := 1.0
			for i := 0; i < int(as[1]); i++ {
				s *= as[0]
			}
			return s, true
		}
		return 0, false
	}
	// scan for sign changes on a grid, then bisect
	want := int(idx.Num().Int64())
	found := 0
	const N = 200000
	const R = 1000.0
	prev, ok := ev(e.list[1], -R)
	if !ok {
		return nil
	}
	px := -R
	for i := 1; i <= N; i++ {
		x := -R + 2*R*float64(i)/N
		v, _ := ev(e.list[1], x)
		if (prev < 0) != (v < 0) || v == 0 {
			found++
			if found == want {
				lo, hi, fl := px, x, prev
				for k := 0; k < 200; k++ {
					m := (lo + hi) / 2
					fm, _ := ev(e.list[1], m)
					if (fm < 0) == (fl < 0) {
						lo, fl = m, fm
					} else {
						hi = m
					}
				}
				return new(big.Rat).SetFloat64((lo + hi) / 2)
			}
		}
		prev, px = v, x
	}
	return nil
}
