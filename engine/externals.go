package main

// Models of functions that are not interpreted from source, and the nd
// (nondeterminism) interface used by the harnesses.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type extFn func(fr *frame, args []value) value

// opaquePkgs are never interpreted from source.
var opaquePkgs = map[string]bool{
	"fmt": true, "os": true, "log": true, "time": true, "reflect": true, "runtime": true, "runtime/debug": true,
	"sync": true, "sync/atomic": true, "encoding/gob": true, "net": true, "net/http": true, "syscall": true,
	"internal/poll": true, "regexp": true, "regexp/syntax": true, "internal/reflectlite": true, "unsafe": true, "io/ioutil": false, "path/filepath": true,
	"encoding/binary": false, "os/exec": true, "image/png": true, "image/jpeg": true,
}

func (e *Engine) opaque(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	return opaquePkgs[fn.Pkg.Pkg.Path()]
}

func (e *Engine) external(fn *ssa.Function) extFn {
	e.extMu.RLock()
	f, ok := e.ext[fn]
	e.extMu.RUnlock()
	if ok {
		return f
	}
	name := fn.String()
	f = externals[name]
	if f == nil && fn.Origin() != nil {
		f = externals[fn.Origin().String()]
	}
	e.extMu.Lock()
	e.ext[fn] = f
	e.extMu.Unlock()
	return f
}

var externals map[string]extFn

func str(v value) string { return v.(string) }

// errVal builds an error value.
func (in *interp) errVal(msg string) value {
	pkg := in.e.pkgs["errors"]
	if pkg == nil {
		in.p.unsupported("errors package not loaded")
	}
	t := pkg.Type("errorString").Type()
	v := value(structure{msg})
	return iface{types.NewPointer(t), &v}
}

// stdErr returns a sentinel such as io.EOF.
func (in *interp) stdErr(pkg, name string) value {
	p := in.e.pkgs[pkg]
	if p == nil {
		return in.errVal(name)
	}
	g := p.Var(name)
	return *in.global(g, in.cur)
}

var nilErr = iface{}

func f1(f func(p *Path, x *Flt) *Flt) extFn {
	return func(fr *frame, a []value) value { return f(fr.in.p, a[0].(*Flt)) }
}

func (p *Path) noteDraw(d Draw) { p.nd = append(p.nd, d) }

// randInt is an arbitrary value in [0,n).
func (fr *frame) randInt(kind string, n value) value {
	p := fr.in.p
	c := fr.intOf(n)
	if c <= 0 {
		fr.in.targetPanicStr("invalid argument to Intn")
	}
	if c == 1 {
		p.drew(kind)
		p.rnd = append(p.rnd, Draw{Kind: kind, N: c})
		return int64(0)
	}
	a := p.newAtom(p.fresh("rand"), true, new(big.Rat), new(big.Rat).SetInt64(c-1))
	p.drew(kind)
	p.rnd = append(p.rnd, Draw{Kind: kind, N: c, poly: polyAtom(a)})
	return &SInt{polyAtom(a)}
}

func (fr *frame) randFloat(kind string) value {
	p := fr.in.p
	a := p.newAtom(p.fresh("randf"), false, new(big.Rat), nil)
	p.axiom(sign(rfAtom(a).sub(rfOne), sNeg))
	p.drew(kind)
	p.rnd = append(p.rnd, Draw{Kind: kind, rf: rfAtom(a)})
	return fin(rfAtom(a))
}

func (fr *frame) perm(kind string, n int) []int {
	r := make([]int, n)
	for i := range r {
		j := int(fr.intOf(fr.randInt(kind, int64(i+1))))
		r[i] = r[j]
		r[j] = i
	}
	return r
}

func strSlice(v []string) value {
	r := make([]value, len(v))
	for i, s := range v {
		r[i] = s
	}
	return r
}

func goStrs(v value) []string {
	s := v.([]value)
	r := make([]string, len(s))
	for i := range s {
		r[i] = s[i].(string)
	}
	return r
}

func goBytes(fr *frame, v value) []byte {
	s := v.([]value)
	r := make([]byte, len(s))
	for i := range s {
		r[i] = byte(fr.intOf(s[i]))
	}
	return r
}

// callMethod calls a method of an interface value by name.
func (fr *frame) callMethod(x iface, name string, args ...value) value {
	ms := fr.in.e.prog.MethodSets.MethodSet(x.t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name {
			f := fr.in.e.lookupMethod(x.t, sel.Obj().(*types.Func))
			return fr.in.call(fr, f, append([]value{copyVal(x.v)}, args...), 0)
		}
	}
	fr.in.p.unsupported("method %s of %s", name, x.t)
	return nil
}

func (fr *frame) hasMethod(x iface, name string) bool {
	if x.t == nil {
		return false
	}
	ms := fr.in.e.prog.MethodSets.MethodSet(x.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// approxBound is the rational for a bound argument; nil when infinite.
func boundOf(v value) *big.Rat {
	f := v.(*Flt)
	if f.k == kFin && f.r.isConst() {
		return f.r.c
	}
	return nil
}

func smtName(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func init() {
	externals = map[string]extFn{
		// ---- nd ----
		ndPath + ".Int": func(fr *frame, a []value) value {
			p := fr.in.p
			lo, hi := fr.intOf(a[1]), fr.intOf(a[2])
			if lo > hi {
				p.stop("assume", "empty range")
			}
			if lo == hi {
				p.noteDraw(Draw{Kind: "int", Name: str(a[0]), c: lo})
				return lo
			}
			at := p.newAtom(p.fresh("i_"+smtName(str(a[0]))), true, new(big.Rat).SetInt64(lo), new(big.Rat).SetInt64(hi))
			p.noteDraw(Draw{Kind: "int", Name: str(a[0]), poly: polyAtom(at)})
			return &SInt{polyAtom(at)}
		},
		ndPath + ".Choose": func(fr *frame, a []value) value {
			p := fr.in.p
			n := fr.intOf(a[1])
			if n <= 0 {
				p.stop("assume", "empty choice")
			}
			if n == 1 {
				p.noteDraw(Draw{Kind: "int", Name: str(a[0])})
				return int64(0)
			}
			at := p.newAtom(p.fresh("c_"+smtName(str(a[0]))), true, new(big.Rat), new(big.Rat).SetInt64(n-1))
			p.noteDraw(Draw{Kind: "int", Name: str(a[0]), poly: polyAtom(at)})
			if !p.h.Fast {
				return p.concretize(polyAtom(at))
			}
			// the atom is new, so each of its values is feasible: one path per
			// value, with the value in the path condition
			d := int64(p.choose(int(n)))
			p.s.line(fmt.Sprintf("(assert (= %s %d))", at.name, d))
			at.lo, at.hi = new(big.Rat).SetInt64(d), new(big.Rat).SetInt64(d)
			return d
		},
		ndPath + ".Bool": func(fr *frame, a []value) value {
			p := fr.in.p
			at := p.newBool(p.fresh("b_" + smtName(str(a[0]))))
			p.noteDraw(Draw{Kind: "bool", Name: str(a[0]), v: at})
			return &Formula{op: fVar, v: at}
		},
		ndPath + ".Real": func(fr *frame, a []value) value {
			p := fr.in.p
			at := p.newAtom(p.fresh("r_"+smtName(str(a[0]))), false, boundOf(a[1]), boundOf(a[2]))
			p.noteDraw(Draw{Kind: "real", Name: str(a[0]), rf: rfAtom(at)})
			return fin(rfAtom(at))
		},
		ndPath + ".Assume": func(fr *frame, a []value) value {
			fr.in.p.assume(formulaOf(a[0]))
			return nil
		},
		ndPath + ".Assert": func(fr *frame, a []value) value {
			fr.in.p.assert(formulaOf(a[0]), str(a[1]))
			return nil
		},
		ndPath + ".Same": func(fr *frame, a []value) value {
			p := fr.in.p
			x, y := a[0].(*Flt), a[1].(*Flt)
			if ok, known := p.sameNum(x, y); known {
				return ok
			}
			f := p.fsame(x, y)
			if f.op != fTrue && f.op != fFalse {
				if rb := p.frobust(x, y); rb != nil {
					p.robust[f] = rb
				}
			} else if f.op == fTrue && (!x.r0const() || !y.r0const()) {
				// canonical forms coincide: still put the equation to the solver
				p.solverIdentity(x, y)
			}
			return mkBool(f)
		},
		ndPath + ".Leq": func(fr *frame, a []value) value {
			if ok, known := fr.in.p.sameNum(a[0].(*Flt), a[1].(*Flt)); known && ok {
				return true
			}
			p, x, y := fr.in.p, a[0].(*Flt), a[1].(*Flt)
			f := p.fcmp(x, y, sNeg|sZero)
			if f.op != fTrue && f.op != fFalse {
				if rb := p.fabove(x, y, true); rb != nil {
					p.robust[f] = rb
				}
			}
			return mkBool(f)
		},
		ndPath + ".Bound": func(fr *frame, a []value) value {
			if v, ok := fr.in.p.h.b[str(a[0])]; ok {
				return int64(v)
			}
			return a[1]
		},
		ndPath + ".MapOrder": func(fr *frame, a []value) value {
			fr.in.p.mapOrder = int(fr.intOf(a[0]))
			return nil
		},
		ndPath + ".MaxGlobal": func(fr *frame, a []value) value {
			fr.in.p.maxGlobal = int(fr.intOf(a[0]))
			return nil
		},
		ndPath + ".MaxDraws": func(fr *frame, a []value) value {
			fr.in.p.maxDraws = int(fr.intOf(a[0]))
			return nil
		},
		ndPath + ".FloatRange": func(fr *frame, a []value) value {
			fr.in.p.floatRange = true
			return nil
		},
		ndPath + ".Symbolic": func(fr *frame, a []value) value { return true },
		ndPath + ".Cover": func(fr *frame, a []value) value {
			fr.in.p.cover[str(a[0])] = true
			return nil
		},
		ndPath + ".Concrete": func(fr *frame, a []value) value { return fr.intOf(a[0]) },
		ndPath + ".Log":      func(fr *frame, a []value) value { return nil },
		ndPath + ".RandSource": func(fr *frame, a []value) value {
			return iface{}
		},
		ndPath + ".TempDir": func(fr *frame, a []value) value { return "/nd-temp" },

		// ---- math ----
		"math.Log":   f1((*Path).flog),
		"math.Exp":   f1((*Path).fexp),
		"math.Sqrt":  f1((*Path).fsqrt),
		"math.Abs":   f1((*Path).fabs),
		"math.Floor": f1((*Path).ffloor),
		"math.Ceil":  f1((*Path).fceil),
		"math.Round": f1((*Path).fround),
		"math.Trunc": func(fr *frame, a []value) value {
			x := fr.in.p.splitLogDiv(a[0].(*Flt))
			if x.k != kFin {
				return x
			}
			return fin(rfPoly(fr.in.p.ftoi(x)))
		},
		"math.Log1p": func(fr *frame, a []value) value {
			return fr.in.p.flog(fr.in.p.fadd(a[0].(*Flt), fltOne))
		},
		"math.Expm1": func(fr *frame, a []value) value {
			return fr.in.p.fsub(fr.in.p.fexp(a[0].(*Flt)), fltOne)
		},
		"math.Log2": func(fr *frame, a []value) value {
			if f, ok := a[0].(*Flt).concrete(); ok && math.Log2(f) == math.Trunc(math.Log2(f)) {
				return fltOf(math.Log2(f))
			}
			return fr.in.p.fdiv(fr.in.p.flog(a[0].(*Flt)), &Flt{kLog, rfInt(2)})
		},
		"math.Log10": func(fr *frame, a []value) value {
			if f, ok := a[0].(*Flt).concrete(); ok && math.Log10(f) == math.Trunc(math.Log10(f)) {
				return fltOf(math.Log10(f))
			}
			return fr.in.p.fdiv(fr.in.p.flog(a[0].(*Flt)), &Flt{kLog, rfInt(10)})
		},
		"math.Pow": func(fr *frame, a []value) value { return fr.in.p.fpow(a[0].(*Flt), a[1].(*Flt)) },
		"math.Inf": func(fr *frame, a []value) value {
			if fr.intOf(a[0]) >= 0 {
				return fltPInf
			}
			return fltNInf
		},
		"math.NaN": func(fr *frame, a []value) value { return fltNaN },
		"math.IsNaN": func(fr *frame, a []value) value {
			return a[0].(*Flt).k == kNaN
		},
		"math.IsInf": func(fr *frame, a []value) value {
			x, s := a[0].(*Flt), fr.intOf(a[1])
			switch x.k {
			case kPInf:
				return s >= 0
			case kNInf:
				return s <= 0
			case kLog:
				if s > 0 {
					return false
				}
				return mkBool(sign(x.r, sZero))
			}
			return false
		},
		"math.Max": func(fr *frame, a []value) value { return fr.minmax(a[0].(*Flt), a[1].(*Flt), sPos) },
		"math.Min": func(fr *frame, a []value) value { return fr.minmax(a[0].(*Flt), a[1].(*Flt), sNeg) },
		"math.Mod": func(fr *frame, a []value) value {
			p := fr.in.p
			x, y := a[0].(*Flt), a[1].(*Flt)
			if x.k != kFin || y.k != kFin || p.branch(sign(y.r, sZero)) {
				p.unsupported("math.Mod special case")
			}
			q := fin(rfPoly(p.ftoi(p.fdiv(x, y))))
			return p.fsub(x, p.fmul(q, y))
		},
		"math.Signbit": func(fr *frame, a []value) value {
			return mkBool(fr.in.p.fcmp(a[0].(*Flt), fltZero, sNeg))
		},
		"math.Modf": func(fr *frame, a []value) value {
			x := a[0].(*Flt)
			if x.k != kFin {
				fr.in.p.unsupported("math.Modf special case")
			}
			i := fin(rfPoly(fr.in.p.ftoi(x)))
			return tuple{i, fr.in.p.fsub(x, i)}
		},
		"math.Float64bits": func(fr *frame, a []value) value {
			if f, ok := a[0].(*Flt).concrete(); ok {
				return int64(math.Float64bits(f))
			}
			fr.in.p.unsupported("math.Float64bits of a symbolic value")
			return nil
		},
		"math.Float64frombits": func(fr *frame, a []value) value {
			return fltOf(math.Float64frombits(uint64(fr.intOf(a[0]))))
		},
		"math.Float32bits": func(fr *frame, a []value) value {
			if f, ok := a[0].(*Flt).concrete(); ok {
				return int64(math.Float32bits(float32(f)))
			}
			fr.in.p.unsupported("math.Float32bits of a symbolic value")
			return nil
		},
		"math.Float32frombits": func(fr *frame, a []value) value {
			return fltOf(float64(math.Float32frombits(uint32(fr.intOf(a[0])))))
		},

		// ---- randomness ----
		"(*math/rand.Rand).Intn":    func(fr *frame, a []value) value { return fr.rngInt(a[0], "intn", a[1]) },
		"(*math/rand.Rand).Int31n":  func(fr *frame, a []value) value { return fr.rngInt(a[0], "intn", a[1]) },
		"(*math/rand.Rand).Int63n":  func(fr *frame, a []value) value { return fr.rngInt(a[0], "intn63", a[1]) },
		"(*math/rand.Rand).Float64": func(fr *frame, a []value) value { return fr.rngFloat(a[0]) },
		"math/rand.Intn":            func(fr *frame, a []value) value { return fr.randInt("global", a[0]) },
		"math/rand.Int31n":          func(fr *frame, a []value) value { return fr.randInt("global", a[0]) },
		"math/rand.Int63n":          func(fr *frame, a []value) value { return fr.randInt("global", a[0]) },
		"math/rand.Float64":         func(fr *frame, a []value) value { return fr.randFloat("global") },
		"math/rand.Seed":            func(fr *frame, a []value) value { return nil },
		"math/rand.NewSource": func(fr *frame, a []value) value {
			return iface{types.Typ[types.String], &seedSrc{fr.intOf(a[0])}}
		},
		"math/rand.New": func(fr *frame, a []value) value {
			v := value("rand.Rand")
			if s, ok := a[0].(iface); ok {
				if q, ok := s.v.(*seedSrc); ok {
					v = &rngObj{seed: q.seed}
				}
			}
			return &v
		},
		"(*math/rand.Rand).Seed": func(fr *frame, a []value) value {
			*fr.ptr(a[0]) = &rngObj{seed: fr.intOf(a[1])}
			return nil
		},
		"math/rand.Perm": func(fr *frame, a []value) value {
			return intsVal(fr.perm("global", int(fr.intOf(a[0]))))
		},
		"(*math/rand.Rand).Perm": func(fr *frame, a []value) value {
			return intsVal(fr.permOf(a[0], int(fr.intOf(a[1]))))
		},
		"math/rand.Shuffle": func(fr *frame, a []value) value { return fr.shuffle("global", a[0], a[1]) },
		"(*math/rand.Rand).Shuffle": func(fr *frame, a []value) value {
			if fr.rng(a[0]) == nil {
				return fr.shuffle("global", a[1], a[2])
			}
			for i := int(fr.intOf(a[1])) - 1; i > 0; i-- {
				j := fr.intOf(fr.rngInt(a[0], "int31n", int64(i+1)))
				fr.in.call(fr, a[2], []value{int64(i), j}, 0)
			}
			return nil
		},
		"(*math/rand.Rand).NormFloat64": func(fr *frame, a []value) value { return fr.rngNorm(a[0]) },

		// ---- runtime, time, logging ----
		"runtime.GC":                   func(fr *frame, a []value) value { return nil },
		"runtime/debug.FreeOSMemory":   func(fr *frame, a []value) value { return nil },
		"runtime.NumCPU":               func(fr *frame, a []value) value { return int64(4) },
		"runtime.GOMAXPROCS":           func(fr *frame, a []value) value { return int64(4) },
		"runtime.NumGoroutine":         func(fr *frame, a []value) value { return int64(1) },
		"runtime.Gosched":              func(fr *frame, a []value) value { fr.in.yield(fr); return nil },
		"runtime.ReadMemStats":         func(fr *frame, a []value) value { return nil },
		"runtime.KeepAlive":            func(fr *frame, a []value) value { return nil },
		"runtime.SetFinalizer":         func(fr *frame, a []value) value { return nil },
		"time.Sleep":                   func(fr *frame, a []value) value { fr.in.yield(fr); return nil },
		"os.Exit":                      func(fr *frame, a []value) value { fr.in.targetPanicStr("os.Exit called"); return nil },
		"time.Now":                     func(fr *frame, a []value) value { return zero(fr.in.e.pkgs["time"].Type("Time").Type()) },
		"time.Since":                   func(fr *frame, a []value) value { return int64(0) },
		"(time.Time).UnixNano":         func(fr *frame, a []value) value { return int64(1) },
		"(time.Time).Unix":             func(fr *frame, a []value) value { return int64(1) },
		"(time.Time).Sub":              func(fr *frame, a []value) value { return int64(0) },
		"(time.Duration).Seconds":      func(fr *frame, a []value) value { return fltZero },
		"(time.Duration).String":       func(fr *frame, a []value) value { return "0s" },
		"(time.Duration).Milliseconds": func(fr *frame, a []value) value { return int64(0) },
		"fmt.Print":                    func(fr *frame, a []value) value { return tuple{int64(0), nilErr} },
		"fmt.Println":                  func(fr *frame, a []value) value { return tuple{int64(0), nilErr} },
		"fmt.Printf":                   func(fr *frame, a []value) value { return tuple{int64(0), nilErr} },
		"log.Printf":                   func(fr *frame, a []value) value { return nil },
		"log.Println":                  func(fr *frame, a []value) value { return nil },
		"log.Print":                    func(fr *frame, a []value) value { return nil },
		"log.Fatal":                    func(fr *frame, a []value) value { fr.in.targetPanicStr("log.Fatal called"); return nil },
		"log.Fatalf":                   func(fr *frame, a []value) value { fr.in.targetPanicStr("log.Fatalf called"); return nil },

		"(gonum.org/v1/gonum/stat/distuv.ChiSquared).CDF": func(fr *frame, a []value) value {
			return fr.chi2cdf(a[0].(structure)[0].(*Flt), a[1].(*Flt))
		},
		"(gonum.org/v1/gonum/stat/distuv.ChiSquared).Survival": func(fr *frame, a []value) value {
			return fr.in.p.fsub(fltOne, fr.chi2cdf(a[0].(structure)[0].(*Flt), a[1].(*Flt)))
		},

		// ---- sync ----
		"(*sync.Mutex).Lock":   func(fr *frame, a []value) value { fr.in.lock(fr, fr.ptr(a[0])); return nil },
		"(*sync.Mutex).Unlock": func(fr *frame, a []value) value { fr.in.unlock(fr, fr.ptr(a[0])); return nil },
		"(*sync.Mutex).TryLock": func(fr *frame, a []value) value {
			fr.in.yield(fr)
			s := fr.in.syncOf(fr.ptr(a[0]))
			if s.locked || s.readers > 0 {
				return false
			}
			s.locked = true
			fr.in.acquire(fr.g, s.vc)
			return true
		},
		"(*sync.RWMutex).Lock":   func(fr *frame, a []value) value { fr.in.lock(fr, fr.ptr(a[0])); return nil },
		"(*sync.RWMutex).Unlock": func(fr *frame, a []value) value { fr.in.unlock(fr, fr.ptr(a[0])); return nil },
		"(*sync.RWMutex).RLock": func(fr *frame, a []value) value {
			fr.in.yield(fr)
			s := fr.in.syncOf(fr.ptr(a[0]))
			fr.in.block(fr, func() bool { return !s.locked })
			s.readers++
			fr.in.acquire(fr.g, s.vc)
			return nil
		},
		"(*sync.RWMutex).RUnlock": func(fr *frame, a []value) value {
			fr.in.yield(fr)
			s := fr.in.syncOf(fr.ptr(a[0]))
			if s.readers <= 0 {
				fr.in.targetPanicStr("fatal error: sync: RUnlock of unlocked RWMutex")
			}
			s.readers--
			fr.in.release(fr.g, &s.rvc)
			return nil
		},
		"(*sync.WaitGroup).Add":  func(fr *frame, a []value) value { fr.wgAdd(a[0], fr.intOf(a[1])); return nil },
		"(*sync.WaitGroup).Done": func(fr *frame, a []value) value { fr.wgAdd(a[0], -1); return nil },
		"(*sync.WaitGroup).Wait": func(fr *frame, a []value) value {
			fr.in.yield(fr)
			s := fr.in.syncOf(fr.ptr(a[0]))
			fr.in.block(fr, func() bool { return s.count == 0 })
			fr.in.acquire(fr.g, s.vc)
			return nil
		},
		"(*sync.WaitGroup).Go": func(fr *frame, a []value) value {
			fr.wgAdd(a[0], 1)
			f := a[1]
			wg := a[0]
			fr.in.spawn(fr, &native{"wg.Go", func(g *frame, _ []value) value {
				fr.in.call(g, f, nil, 0)
				g.wgAdd(wg, -1)
				return nil
			}}, nil)
			return nil
		},
		"sync.NewCond": func(fr *frame, a []value) value {
			z := zero(fr.in.e.pkgs["sync"].Type("Cond").Type()).(structure)
			fr.in.condL(z, a[0])
			v := value(z)
			return &v
		},
		"(*sync.Cond).Wait": func(fr *frame, a []value) value {
			c := fr.ptr(a[0])
			l := fr.in.condLocker(*c)
			fr.in.condWait(fr, c, l)
			return nil
		},
		"(*sync.Cond).Signal":    func(fr *frame, a []value) value { fr.in.condSignal(fr, fr.ptr(a[0]), false); return nil },
		"(*sync.Cond).Broadcast": func(fr *frame, a []value) value { fr.in.condSignal(fr, fr.ptr(a[0]), true); return nil },
		"(*sync.Once).Do": func(fr *frame, a []value) value {
			fr.in.yield(fr)
			s := fr.in.syncOf(fr.ptr(a[0]))
			if s.done {
				fr.in.acquire(fr.g, s.vc)
				return nil
			}
			if s.running {
				fr.in.block(fr, func() bool { return s.done })
				fr.in.acquire(fr.g, s.vc)
				return nil
			}
			s.running = true
			fr.in.call(fr, a[1], nil, 0)
			s.done = true
			fr.in.release(fr.g, &s.vc)
			return nil
		},
		"(*sync.Pool).Get": func(fr *frame, a []value) value {
			s := (*fr.ptr(a[0])).(structure)
			for _, f := range s {
				switch f := f.(type) {
				case *closure:
					return fr.in.call(fr, f, nil, 0)
				case *ssa.Function:
					if f != nil {
						return fr.in.call(fr, f, nil, 0)
					}
				}
			}
			return iface{}
		},
		"(*sync.Pool).Put":                func(fr *frame, a []value) value { return nil },
		"sync/atomic.AddInt32":            atomicAdd(intKind{32, true}),
		"sync/atomic.AddInt64":            atomicAdd(intKind{64, true}),
		"sync/atomic.AddUint32":           atomicAdd(intKind{32, false}),
		"sync/atomic.AddUint64":           atomicAdd(intKind{64, false}),
		"sync/atomic.LoadInt32":           atomicLoad,
		"sync/atomic.LoadInt64":           atomicLoad,
		"sync/atomic.LoadUint32":          atomicLoad,
		"sync/atomic.LoadUint64":          atomicLoad,
		"sync/atomic.StoreInt32":          atomicStore,
		"sync/atomic.StoreInt64":          atomicStore,
		"sync/atomic.StoreUint32":         atomicStore,
		"sync/atomic.StoreUint64":         atomicStore,
		"sync/atomic.CompareAndSwapInt32": atomicCAS,
		"sync/atomic.CompareAndSwapInt64": atomicCAS,

		// ---- strings, strconv, unicode (concrete) ----
		"strings.Fields": func(fr *frame, a []value) value { return strSlice(strings.Fields(str(a[0]))) },
		"strings.Split": func(fr *frame, a []value) value {
			return strSlice(strings.Split(fr.looked(str(a[0]), str(a[1])), str(a[1])))
		},
		"strings.SplitN": func(fr *frame, a []value) value {
			return strSlice(strings.SplitN(fr.looked(str(a[0]), str(a[1])), str(a[1]), int(fr.intOf(a[2]))))
		},
		"strings.Join":   func(fr *frame, a []value) value { return strings.Join(goStrs(a[0]), str(a[1])) },
		"strings.Repeat": func(fr *frame, a []value) value { return strings.Repeat(str(a[0]), int(fr.intOf(a[1]))) },
		"strings.Contains": func(fr *frame, a []value) value {
			return strings.Contains(fr.looked(str(a[0]), str(a[1])), fr.in.p.plain(str(a[1])))
		},
		"strings.HasPrefix": func(fr *frame, a []value) value {
			return strings.HasPrefix(fr.looked(str(a[0]), str(a[1])), fr.in.p.plain(str(a[1])))
		},
		"strings.HasSuffix": func(fr *frame, a []value) value {
			return strings.HasSuffix(fr.looked(str(a[0]), str(a[1])), fr.in.p.plain(str(a[1])))
		},
		"strings.Index": func(fr *frame, a []value) value {
			return fr.rawIndex(str(a[0]), func(s string) int { return strings.Index(s, fr.in.p.plain(str(a[1]))) }, str(a[1]))
		},
		"strings.IndexByte": func(fr *frame, a []value) value {
			c := fr.intOf(a[1])
			return fr.rawIndex(str(a[0]), func(s string) int { return strings.IndexByte(s, byte(c)) }, string(rune(c)))
		},
		"strings.IndexRune": func(fr *frame, a []value) value {
			c := fr.intOf(a[1])
			return fr.rawIndex(str(a[0]), func(s string) int { return strings.IndexRune(s, rune(c)) }, string(rune(c)))
		},
		"strings.IndexAny": func(fr *frame, a []value) value {
			s := fr.lookedSet(str(a[0]), str(a[1]))
			return fr.rawIndex(s, func(s string) int { return strings.IndexAny(s, fr.in.p.plain(str(a[1]))) }, "\"")
		},
		"strings.LastIndex": func(fr *frame, a []value) value {
			return fr.rawIndex(str(a[0]), func(s string) int { return strings.LastIndex(s, fr.in.p.plain(str(a[1]))) }, str(a[1]))
		},
		"strings.Count": func(fr *frame, a []value) value {
			return int64(strings.Count(fr.looked(str(a[0]), str(a[1])), str(a[1])))
		},
		"strings.TrimSpace": func(fr *frame, a []value) value { return strings.TrimSpace(str(a[0])) },
		"strings.Trim": func(fr *frame, a []value) value {
			return strings.Trim(fr.lookedSet(str(a[0]), str(a[1])), fr.in.p.plain(str(a[1])))
		},
		"strings.TrimLeft": func(fr *frame, a []value) value {
			return strings.TrimLeft(fr.lookedSet(str(a[0]), str(a[1])), fr.in.p.plain(str(a[1])))
		},
		"strings.TrimRight": func(fr *frame, a []value) value {
			return strings.TrimRight(fr.lookedSet(str(a[0]), str(a[1])), fr.in.p.plain(str(a[1])))
		},
		"strings.TrimPrefix": func(fr *frame, a []value) value {
			return strings.TrimPrefix(fr.looked(str(a[0]), str(a[1])), fr.in.p.plain(str(a[1])))
		},
		"strings.TrimSuffix": func(fr *frame, a []value) value {
			return strings.TrimSuffix(fr.looked(str(a[0]), str(a[1])), fr.in.p.plain(str(a[1])))
		},
		"strings.ToLower": func(fr *frame, a []value) value { return textParts(str(a[0]), strings.ToLower) },
		"strings.ToUpper": func(fr *frame, a []value) value { return textParts(str(a[0]), strings.ToUpper) },
		"strings.EqualFold": func(fr *frame, a []value) value {
			return strings.EqualFold(fr.looked(str(a[0]), str(a[1])), fr.in.p.plain(str(a[1])))
		},
		"strings.Replace": func(fr *frame, a []value) value {
			return strings.Replace(fr.looked(str(a[0]), str(a[1])), str(a[1]), str(a[2]), int(fr.intOf(a[3])))
		},
		"strings.ReplaceAll": func(fr *frame, a []value) value {
			return strings.ReplaceAll(fr.looked(str(a[0]), str(a[1])), str(a[1]), str(a[2]))
		},
		"strconv.Itoa": func(fr *frame, a []value) value { return fr.intText(a[0]) },
		"strconv.FormatInt": func(fr *frame, a []value) value {
			if fr.intOf(a[1]) == 10 {
				return fr.intText(a[0])
			}
			return strconv.FormatInt(fr.intOf(a[0]), int(fr.intOf(a[1])))
		},
		"strconv.Quote": func(fr *frame, a []value) value { return strconv.Quote(str(a[0])) },
		"strconv.Atoi": func(fr *frame, a []value) value {
			n, err := strconv.Atoi(str(a[0]))
			if err != nil {
				return tuple{int64(n), fr.in.errVal(err.Error())}
			}
			return tuple{int64(n), nilErr}
		},
		"strconv.ParseInt": func(fr *frame, a []value) value {
			n, err := strconv.ParseInt(str(a[0]), int(fr.intOf(a[1])), int(fr.intOf(a[2])))
			if err != nil {
				return tuple{n, fr.in.errVal(err.Error())}
			}
			return tuple{n, nilErr}
		},
		"strconv.ParseUint": func(fr *frame, a []value) value {
			n, err := strconv.ParseUint(str(a[0]), int(fr.intOf(a[1])), int(fr.intOf(a[2])))
			if err != nil {
				return tuple{int64(n), fr.in.errVal(err.Error())}
			}
			return tuple{int64(n), nilErr}
		},
		"strconv.ParseFloat": func(fr *frame, a []value) value {
			if f, ok := fr.in.p.tokenFloat(str(a[0])); ok {
				return tuple{f, nilErr}
			}
			n, err := strconv.ParseFloat(str(a[0]), 64)
			if err != nil {
				return tuple{fltOf(n), fr.in.errVal(err.Error())}
			}
			return tuple{fltOf(n), nilErr}
		},
		"strconv.ParseBool": func(fr *frame, a []value) value {
			n, err := strconv.ParseBool(str(a[0]))
			if err != nil {
				return tuple{n, fr.in.errVal(err.Error())}
			}
			return tuple{n, nilErr}
		},
		"strconv.FormatFloat": func(fr *frame, a []value) value {
			x := a[0].(*Flt)
			if f, ok := x.concrete(); ok {
				return strconv.FormatFloat(f, byte(fr.intOf(a[1])), int(fr.intOf(a[2])), int(fr.intOf(a[3])))
			}
			return fr.in.p.floatToken(x, byte(fr.intOf(a[1])), int(fr.intOf(a[2])))
		},
		"unicode.IsSpace":  func(fr *frame, a []value) value { return unicode.IsSpace(rune(fr.intOf(a[0]))) },
		"unicode.IsDigit":  func(fr *frame, a []value) value { return unicode.IsDigit(rune(fr.intOf(a[0]))) },
		"unicode.IsLetter": func(fr *frame, a []value) value { return unicode.IsLetter(rune(fr.intOf(a[0]))) },
		"unicode.IsUpper":  func(fr *frame, a []value) value { return unicode.IsUpper(rune(fr.intOf(a[0]))) },
		"unicode.ToLower":  func(fr *frame, a []value) value { return int64(unicode.ToLower(rune(fr.intOf(a[0])))) },
		"unicode.ToUpper":  func(fr *frame, a []value) value { return int64(unicode.ToUpper(rune(fr.intOf(a[0])))) },

		// ---- bytealg (assembly) ----
		"internal/bytealg.IndexByte": func(fr *frame, a []value) value {
			return int64(strings.IndexByte(string(goBytes(fr, a[0])), byte(fr.intOf(a[1]))))
		},
		"internal/bytealg.IndexByteString": func(fr *frame, a []value) value {
			return int64(strings.IndexByte(str(a[0]), byte(fr.intOf(a[1]))))
		},
		"internal/bytealg.Count": func(fr *frame, a []value) value {
			return int64(strings.Count(string(goBytes(fr, a[0])), string([]byte{byte(fr.intOf(a[1]))})))
		},
		"internal/bytealg.CountString": func(fr *frame, a []value) value {
			return int64(strings.Count(str(a[0]), string([]byte{byte(fr.intOf(a[1]))})))
		},
		"internal/bytealg.Equal": func(fr *frame, a []value) value {
			return string(goBytes(fr, a[0])) == string(goBytes(fr, a[1]))
		},
		"bytes.Equal": func(fr *frame, a []value) value {
			return string(goBytes(fr, a[0])) == string(goBytes(fr, a[1]))
		},
		"bytes.IndexByte": func(fr *frame, a []value) value {
			return int64(strings.IndexByte(string(goBytes(fr, a[0])), byte(fr.intOf(a[1]))))
		},
		"bytes.Compare": func(fr *frame, a []value) value {
			return int64(strings.Compare(string(goBytes(fr, a[0])), string(goBytes(fr, a[1]))))
		},
		"internal/bytealg.MakeNoZero": func(fr *frame, a []value) value {
			return bytesVal(make([]byte, fr.intOf(a[0])))
		},

		// ---- sort (same contract, fewer steps) ----
		"sort.Ints":     func(fr *frame, a []value) value { fr.sortSlice(a[0].([]value), types.Typ[types.Int]); return nil },
		"sort.Float64s": func(fr *frame, a []value) value { fr.sortSlice(a[0].([]value), types.Typ[types.Float64]); return nil },
		"sort.Strings": func(fr *frame, a []value) value {
			s := a[0].([]value)
			sort.SliceStable(s, func(i, j int) bool { return s[i].(string) < s[j].(string) })
			return nil
		},
		"sort.Slice":       func(fr *frame, a []value) value { fr.sortFunc(a[0], a[1]); return nil },
		"sort.SliceStable": func(fr *frame, a []value) value { fr.sortFunc(a[0], a[1]); return nil },
		"sort.Sort":        func(fr *frame, a []value) value { fr.sortIface(a[0].(iface)); return nil },
		"sort.Stable":      func(fr *frame, a []value) value { fr.sortIface(a[0].(iface)); return nil },
	}
	registerIO()
	registerBin()
	registerHTTP()
	registerStd()
}

func (x *Flt) r0const() bool { return x.r == nil || x.r.isConst() }

// solverIdentity discharges an equation whose two sides have the same
// canonical form with the solver as well.
func (p *Path) solverIdentity(x, y *Flt) {
	if p.pos < len(p.prefix) || x.r == nil || y.r == nil {
		return
	}
	q := "(not (= " + p.facts.renderRF(x.r) + " " + p.facts.renderRF(y.r) + "))"
	if _, done := p.e.idents.Load(q); done {
		// the same equation was discharged on an earlier path; it holds
		// without any path condition
		return
	}
	r, _ := p.s.check(q, nil, false)
	if r == rUnsat {
		p.nSolver++
		p.e.idents.Store(q, true)
	}
}

func (fr *frame) minmax(x, y *Flt, m int) value {
	if x.k == kNaN || y.k == kNaN {
		return fltNaN
	}
	if fr.in.p.branch(fr.in.p.fcmp(x, y, m|sZero)) {
		return x
	}
	return y
}

func intsVal(v []int) value {
	r := make([]value, len(v))
	for i, x := range v {
		r[i] = int64(x)
	}
	return r
}

func (fr *frame) shuffle(kind string, n, swap value) value {
	// Fisher-Yates as in math/rand, with arbitrary draws
	for i := int(fr.intOf(n)) - 1; i > 0; i-- {
		j := fr.intOf(fr.randInt(kind, int64(i+1)))
		fr.in.call(fr, swap, []value{int64(i), j}, 0)
	}
	return nil
}

func (fr *frame) wgAdd(a value, d int64) {
	fr.in.yield(fr)
	s := fr.in.syncOf(fr.ptr(a))
	fr.in.release(fr.g, &s.vc)
	s.count += d
	if s.count < 0 {
		fr.in.targetPanicStr("sync: negative WaitGroup counter")
	}
}

// condL stores the locker in a sync.Cond value.
func (in *interp) condL(z structure, l value) {
	st := in.e.pkgs["sync"].Type("Cond").Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			z[i] = l
		}
	}
}

func (in *interp) condLocker(c value) *value {
	st := in.e.pkgs["sync"].Type("Cond").Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			l := c.(structure)[i].(iface)
			if q, ok := l.v.(*value); ok {
				return q
			}
		}
	}
	in.p.unsupported("sync.Cond locker")
	return nil
}

func atomicAdd(k intKind) extFn {
	return func(fr *frame, a []value) value {
		q := fr.atomic(a[0])
		n := k.norm(fr.intOf(*q) + fr.intOf(a[1]))
		*q = n
		return n
	}
}

// atomic is the start of an atomic operation: a yield and an
// acquire-release edge on the address.
func (fr *frame) atomic(a value) *value {
	fr.in.yield(fr)
	q := fr.ptr(a)
	s := fr.in.syncOf(q)
	fr.in.acquire(fr.g, s.vc)
	fr.in.release(fr.g, &s.vc)
	return q
}

func atomicLoad(fr *frame, a []value) value { return *fr.atomic(a[0]) }
func atomicStore(fr *frame, a []value) value {
	*fr.atomic(a[0]) = a[1]
	return nil
}
func atomicCAS(fr *frame, a []value) value {
	q := fr.atomic(a[0])
	if fr.intOf(*q) == fr.intOf(a[1]) {
		*q = a[2]
		return true
	}
	return false
}

// ---- sorting with symbolic comparisons (insertion sort) ----

func (fr *frame) sortSlice(s []value, t types.Type) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !fr.truth(fr.binop(tokLSS, t, t, s[j], s[j-1])) {
				break
			}
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (fr *frame) sortFunc(x, less value) {
	s := x.(iface).v.([]value)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !fr.truth(fr.in.call(fr, less, []value{int64(j), int64(j - 1)}, 0)) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			s[j], s[j-1] = b, a
		}
	}
}

func (fr *frame) sortIface(x iface) {
	n := int(fr.intOf(fr.callMethod(x, "Len")))
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			if !fr.truth(fr.callMethod(x, "Less", int64(j), int64(j-1))) {
				break
			}
			fr.callMethod(x, "Swap", int64(j), int64(j-1))
		}
	}
}

var _ = fmt.Sprint

// drew cuts paths that draw more random numbers than the harness allows
// (rejection sampling has no bound of its own).
func (p *Path) drew(kind string) {
	if kind == "global" && p.maxGlobal > 0 {
		n := 0
		for _, d := range p.rnd {
			if d.Kind == "global" {
				n++
			}
		}
		if n >= p.maxGlobal {
			p.stop("assume", "more random draws than the bound")
		}
	}
	if p.maxDraws > 0 && len(p.rnd)+p.seeded >= p.maxDraws {
		p.stop("assume", "more random draws than the bound")
	}
}
