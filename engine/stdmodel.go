package main

// Further models of the standard library, so that code written with other
// library functions than today's is still decided.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// pathErr is an error of the file system for which errors.Is and os.IsNotExist
// work as they do natively.
func (in *interp) pathErr(op, path, sentinel, msg string) value {
	pk := in.e.pkgs["io/fs"]
	if pk == nil || pk.Type("PathError") == nil {
		return in.errVal(op + " " + path + ": " + msg)
	}
	t := pk.Type("PathError").Type()
	z := zero(t).(structure)
	z[0], z[1] = op, path
	z[2] = in.errVal(msg)
	if sentinel != "" && in.e.pkgs["internal/oserror"] != nil {
		z[2] = in.stdErr("internal/oserror", sentinel)
	}
	v := value(z)
	return iface{types.NewPointer(t), &v}
}

// errIs is errors.Is.
func (fr *frame) errIs(e, target iface, depth int) bool {
	if depth > 50 {
		fr.in.p.unsupported("errors.Is: deep chain")
	}
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Identical(e.t, target.t) && types.Comparable(e.t) && fr.truth(mkBool(fr.in.p.equals(e.t, e.v, target.v))) {
		return true
	}
	if fr.hasMethod(e, "Is") && fr.truth(fr.callMethod(e, "Is", target)) {
		return true
	}
	if !fr.hasMethod(e, "Unwrap") {
		return false
	}
	switch r := fr.callMethod(e, "Unwrap").(type) {
	case iface:
		if r.t == nil {
			return false
		}
		return fr.errIs(r, target, depth+1)
	case []value:
		for _, x := range r {
			if fr.errIs(x.(iface), target, depth+1) {
				return true
			}
		}
	}
	return false
}

// deepEqual is reflect.DeepEqual.
func (fr *frame) deepEqual(t types.Type, x, y value, depth int) *Formula {
	p := fr.in.p
	if depth > 200 {
		p.unsupported("reflect.DeepEqual: deep or cyclic value")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a, b := x.(*value), y.(*value)
		if a == b {
			return fT
		}
		if a == nil || b == nil {
			return fF
		}
		return fr.deepEqual(u.Elem(), *a, *b, depth+1)
	case *types.Slice:
		a, b := x.([]value), y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return fF
		}
		f := fT
		for i := range a {
			f = and(f, fr.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return f
	case *types.Array:
		a, b := x.(array), y.(array)
		f := fT
		for i := range a {
			f = and(f, fr.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return f
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		f := fT
		for i := range a {
			f = and(f, fr.deepEqual(u.Field(i).Type(), a[i], b[i], depth+1))
		}
		return f
	case *types.Map:
		a, _ := x.(*Map)
		b, _ := y.(*Map)
		if a == b {
			return fT
		}
		if a == nil || b == nil {
			return fF
		}
		la, lb := a.live(), b.live()
		if len(la) != len(lb) {
			return fF
		}
		f := fT
		for _, i := range la {
			h, _ := p.hashKey(u.Key(), a.ent[i].k)
			v, ok := b.get(h)
			if !ok {
				return fF
			}
			f = and(f, fr.deepEqual(u.Elem(), a.ent[i].v, v, depth+1))
		}
		return f
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return fBool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return fF
		}
		return fr.deepEqual(a.t, a.v, b.v, depth+1)
	case *types.Signature:
		return and(p.equals(t, x, zero(t)), p.equals(t, y, zero(t)))
	}
	return p.equals(t, x, y)
}

var anyType = types.NewInterfaceType(nil, nil).Complete()

// syncMap is the content of a sync.Map.
func (fr *frame) syncMap(a value) *Map {
	q := fr.atomic(a)
	m, ok := fr.in.aux["syncmap"].(map[*value]*Map)
	if !ok {
		m = map[*value]*Map{}
		fr.in.aux["syncmap"] = m
	}
	if m[q] == nil {
		m[q] = newMap()
	}
	return m[q]
}

// fieldVal finds the field that holds the value of a typed atomic.
func (fr *frame) atomicField(a value) *value {
	q := fr.atomic(a)
	st, ok := (*q).(structure)
	if !ok {
		fr.in.p.unsupported("atomic value of %T", *q)
	}
	return &st[len(st)-1]
}

func (fr *frame) dirEntries(name string) []string {
	m := fr.in.fs()
	var names []string
	for k := range m {
		if k != name && filepath.Dir(k) == name {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	return names
}

func (fr *frame) statOf(name string) value {
	return externals["os.Stat"](fr, []value{name}).(tuple)[0]
}

func (fr *frame) cf(v value, what string) float64 {
	f, ok := v.(*Flt).concrete()
	if !ok {
		fr.in.p.unsupported("%s of a symbolic value", what)
	}
	return f
}

func registerStd() {
	reg := func(n string, f extFn) {
		if _, ok := externals[n]; ok {
			panic("two models of " + n)
		}
		externals[n] = f
	}
	rereg := func(n string, f extFn) { externals[n] = f }

	// ---- sort ----
	sorted := func(fr *frame, n int, less func(i, j int) bool) value {
		for i := n - 1; i > 0; i-- {
			if less(i, i-1) {
				return false
			}
		}
		return true
	}
	reg("sort.SliceIsSorted", func(fr *frame, a []value) value {
		return sorted(fr, len(a[0].(iface).v.([]value)), func(i, j int) bool {
			return fr.truth(fr.in.call(fr, a[1], []value{int64(i), int64(j)}, 0))
		})
	})
	reg("sort.IntsAreSorted", func(fr *frame, a []value) value {
		s := a[0].([]value)
		return sorted(fr, len(s), func(i, j int) bool {
			return fr.truth(fr.binop(tokLSS, types.Typ[types.Int], types.Typ[types.Int], s[i], s[j]))
		})
	})
	reg("sort.Float64sAreSorted", func(fr *frame, a []value) value {
		s := a[0].([]value)
		return sorted(fr, len(s), func(i, j int) bool {
			return fr.truth(fr.binop(tokLSS, types.Typ[types.Float64], types.Typ[types.Float64], s[i], s[j]))
		})
	})

	// ---- math ----
	reg("math.Hypot", func(fr *frame, a []value) value {
		p := fr.in.p
		x, y := a[0].(*Flt), a[1].(*Flt)
		if x.k == kFin && y.k == kFin {
			return p.fsqrt(p.fadd(p.fmul(x, x), p.fmul(y, y)))
		}
		return fltOf(math.Hypot(fr.cf(x, "math.Hypot"), fr.cf(y, "math.Hypot")))
	})
	reg("math.Dim", func(fr *frame, a []value) value {
		return fr.minmax(fr.in.p.fsub(a[0].(*Flt), a[1].(*Flt)), fltZero, sPos)
	})
	reg("math.Copysign", func(fr *frame, a []value) value {
		p := fr.in.p
		x := p.fabs(a[0].(*Flt))
		if p.branch(p.fcmp(a[1].(*Flt), fltZero, sNeg)) {
			return p.fsub(fltZero, x)
		}
		return x
	})
	reg("math.FMA", func(fr *frame, a []value) value {
		p := fr.in.p
		return p.fadd(p.fmul(a[0].(*Flt), a[1].(*Flt)), a[2].(*Flt))
	})
	reg("math.Exp2", func(fr *frame, a []value) value {
		return fr.in.p.fpow(fltOf(2), a[0].(*Flt))
	})
	for n, f := range map[string]func(float64) float64{
		"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan,
		"Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh, "Cbrt": math.Cbrt, "Gamma": math.Gamma,
		"Erf": math.Erf, "Erfc": math.Erfc, "RoundToEven": math.RoundToEven, "Logb": math.Logb,
	} {
		n, f := "math."+n, f
		reg(n, func(fr *frame, a []value) value { return fltOf(f(fr.cf(a[0], n))) })
	}
	reg("math.Atan2", func(fr *frame, a []value) value {
		return fltOf(math.Atan2(fr.cf(a[0], "math.Atan2"), fr.cf(a[1], "math.Atan2")))
	})
	reg("math.Nextafter", func(fr *frame, a []value) value {
		return fltOf(math.Nextafter(fr.cf(a[0], "math.Nextafter"), fr.cf(a[1], "math.Nextafter")))
	})

	// ---- randomness ----
	wide := func(fr *frame, kind string, bits uint) value {
		p := fr.in.p
		hi := new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1)))
		at := p.newAtom(p.fresh("rand"), true, new(big.Rat), hi)
		p.drew(kind)
		p.rnd = append(p.rnd, Draw{Kind: kind, N: 0, poly: polyAtom(at)})
		return &SInt{polyAtom(at)}
	}
	for n, b := range map[string]uint{"Int": 63, "Int63": 63, "Int31": 31, "Uint32": 32} {
		b := b
		reg("math/rand."+n, func(fr *frame, a []value) value { return wide(fr, "global", b) })
		reg("(*math/rand.Rand)."+n, func(fr *frame, a []value) value {
			if r := fr.rng(a[0]); r != nil {
				return fr.memoDraw(r, fmt.Sprint("w", b), func() value {
					p := fr.in.p
					hi := new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(1)))
					return &SInt{polyAtom(p.newAtom(p.fresh("rand"), true, new(big.Rat), hi))}
				})
			}
			return wide(fr, "wide", b)
		})
	}
	reg("math/rand.Float32", func(fr *frame, a []value) value { return fr.randFloat("global") })
	reg("(*math/rand.Rand).Float32", func(fr *frame, a []value) value { return fr.rngFloat(a[0]) })

	// ---- atomics ----
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		k, _ := intKindOf(types.Typ[map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64}[n]])
		T := "(*sync/atomic." + n + ")."
		reg(T+"Load", func(fr *frame, a []value) value { return *fr.atomicField(a[0]) })
		reg(T+"Store", func(fr *frame, a []value) value { *fr.atomicField(a[0]) = a[1]; return nil })
		reg(T+"Add", func(fr *frame, a []value) value {
			q := fr.atomicField(a[0])
			*q = k.norm(fr.intOf(*q) + fr.intOf(a[1]))
			return *q
		})
		reg(T+"Swap", func(fr *frame, a []value) value {
			q := fr.atomicField(a[0])
			o := *q
			*q = a[1]
			return o
		})
		reg(T+"CompareAndSwap", func(fr *frame, a []value) value {
			q := fr.atomicField(a[0])
			if fr.intOf(*q) == fr.intOf(a[1]) {
				*q = a[2]
				return true
			}
			return false
		})
		reg("sync/atomic.Swap"+n, func(fr *frame, a []value) value {
			q := fr.atomic(a[0])
			o := *q
			*q = a[1]
			return o
		})
	}
	reg("sync/atomic.CompareAndSwapUint32", atomicCAS)
	reg("sync/atomic.CompareAndSwapUint64", atomicCAS)
	reg("(*sync/atomic.Bool).Load", func(fr *frame, a []value) value {
		return fr.intOf(*fr.atomicField(a[0])) != 0
	})
	setBool := func(fr *frame, q *value, v value) {
		*q = int64(0)
		if fr.truth(v) {
			*q = int64(1)
		}
	}
	reg("(*sync/atomic.Bool).Store", func(fr *frame, a []value) value {
		setBool(fr, fr.atomicField(a[0]), a[1])
		return nil
	})
	reg("(*sync/atomic.Bool).Swap", func(fr *frame, a []value) value {
		q := fr.atomicField(a[0])
		o := fr.intOf(*q) != 0
		setBool(fr, q, a[1])
		return o
	})
	reg("(*sync/atomic.Bool).CompareAndSwap", func(fr *frame, a []value) value {
		q := fr.atomicField(a[0])
		if (fr.intOf(*q) != 0) == fr.truth(a[1]) {
			setBool(fr, q, a[2])
			return true
		}
		return false
	})
	reg("(*sync/atomic.Value).Load", func(fr *frame, a []value) value { return *fr.atomicField(a[0]) })
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []value) value {
		q := fr.atomicField(a[0])
		if a[1].(iface).t == nil {
			fr.in.targetPanicStr("sync/atomic: store of nil value into Value")
		}
		*q = a[1]
		return nil
	})

	// ---- sync.Map, sync.Pool ----
	key := func(fr *frame, k value) (string, value) { return fr.in.p.hashKey(anyType, k) }
	reg("(*sync.Map).Load", func(fr *frame, a []value) value {
		m := fr.syncMap(a[0])
		h, _ := key(fr, a[1])
		if v, ok := m.get(h); ok {
			return tuple{v, true}
		}
		return tuple{iface{}, false}
	})
	reg("(*sync.Map).Store", func(fr *frame, a []value) value {
		m := fr.syncMap(a[0])
		h, k := key(fr, a[1])
		m.set(h, k, a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *frame, a []value) value {
		m := fr.syncMap(a[0])
		h, k := key(fr, a[1])
		if v, ok := m.get(h); ok {
			return tuple{v, true}
		}
		m.set(h, k, a[2])
		return tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, a []value) value {
		m := fr.syncMap(a[0])
		h, _ := key(fr, a[1])
		if v, ok := m.get(h); ok {
			m.del(h)
			return tuple{v, true}
		}
		return tuple{iface{}, false}
	})
	reg("(*sync.Map).Delete", func(fr *frame, a []value) value {
		m := fr.syncMap(a[0])
		h, _ := key(fr, a[1])
		m.del(h)
		return nil
	})
	reg("(*sync.Map).Range", func(fr *frame, a []value) value {
		m := fr.syncMap(a[0])
		for _, i := range m.live() {
			if !fr.truth(fr.in.call(fr, a[1], []value{m.ent[i].k, m.ent[i].v}, 0)) {
				break
			}
		}
		return nil
	})
	poolNew := func(fr *frame, a value) value {
		st := fr.in.e.pkgs["sync"].Type("Pool").Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := (*fr.ptr(a)).(structure)[i]
				if fr.truth(mkBool(fr.in.p.equals(st.Field(i).Type(), f, zero(st.Field(i).Type())))) {
					return iface{}
				}
				return fr.in.call(fr, f, nil, 0)
			}
		}
		return iface{}
	}
	pool := func(fr *frame, a value) *[]value {
		q := fr.atomic(a)
		m, ok := fr.in.aux["pool"].(map[*value]*[]value)
		if !ok {
			m = map[*value]*[]value{}
			fr.in.aux["pool"] = m
		}
		if m[q] == nil {
			m[q] = &[]value{}
		}
		return m[q]
	}
	rereg("(*sync.Pool).Get", func(fr *frame, a []value) value {
		l := pool(fr, a[0])
		if n := len(*l); n > 0 {
			v := (*l)[n-1]
			*l = (*l)[:n-1]
			return v
		}
		return poolNew(fr, a[0])
	})
	rereg("(*sync.Pool).Put", func(fr *frame, a []value) value {
		l := pool(fr, a[0])
		*l = append(*l, a[1])
		return nil
	})

	// ---- reflect, errors ----
	reg("reflect.DeepEqual", func(fr *frame, a []value) value {
		return mkBool(fr.deepEqual(anyType, a[0], a[1], 0))
	})
	reg("errors.Is", func(fr *frame, a []value) value { return fr.errIs(a[0].(iface), a[1].(iface), 0) })
	rereg("fmt.Errorf", func(fr *frame, a []value) value {
		f := str(a[0])
		args := variadic(a[1])
		msg := fr.sprintf(strings.ReplaceAll(f, "%w", "%v"), args)
		pk := fr.in.e.pkgs["fmt"]
		if strings.Count(f, "%w") == 1 && pk != nil && pk.Type("wrapError") != nil {
			// the operand of %w: count the verbs before it
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
					j++
				}
				if j < len(f) && f[j] == 'w' {
					break
				}
				if j < len(f) && f[j] != '%' {
					n++
				}
				i = j
			}
			if n < len(args) {
				if e, ok := args[n].(iface); ok && e.t != nil && fr.hasMethod(e, "Error") {
					v := value(structure{msg, e})
					return iface{types.NewPointer(pk.Type("wrapError").Type()), &v}
				}
			}
		}
		return fr.in.errVal(msg)
	})
	reg("(*fmt.wrapError).Error", func(fr *frame, a []value) value { return (*fr.ptr(a[0])).(structure)[0] })
	reg("(*fmt.wrapError).Unwrap", func(fr *frame, a []value) value { return (*fr.ptr(a[0])).(structure)[1] })

	// ---- log, time ----
	for _, n := range []string{"SetOutput", "SetFlags", "SetPrefix"} {
		reg("log."+n, func(fr *frame, a []value) value { return nil })
	}
	reg("log.Fatalln", func(fr *frame, a []value) value { fr.in.targetPanicStr("log.Fatalln called"); return nil })
	panics := func(text func(fr *frame, a []value) string) extFn {
		return func(fr *frame, a []value) value { fr.in.targetPanicStr(text(fr, a)); return nil }
	}
	reg("log.Panic", panics(func(fr *frame, a []value) string { return fr.sprint(variadic(a[0]), false) }))
	reg("log.Panicln", panics(func(fr *frame, a []value) string { return fr.sprint(variadic(a[0]), true) }))
	reg("log.Panicf", panics(func(fr *frame, a []value) string { return fr.sprintf(str(a[0]), variadic(a[1])) }))
	reg("log.New", func(fr *frame, a []value) value {
		v := value("logger")
		return &v
	})
	for _, n := range []string{"Println", "Printf", "Print", "SetOutput", "SetFlags", "SetPrefix"} {
		reg("(*log.Logger)."+n, func(fr *frame, a []value) value { return nil })
	}
	for _, n := range []string{"Minutes", "Hours"} {
		reg("(time.Duration)."+n, func(fr *frame, a []value) value { return fltZero })
	}
	for _, n := range []string{"Nanoseconds", "Microseconds"} {
		reg("(time.Duration)."+n, func(fr *frame, a []value) value { return int64(0) })
	}
	reg("time.Until", func(fr *frame, a []value) value { return int64(0) })
	reg("(time.Time).Add", func(fr *frame, a []value) value { return a[0] })
	reg("(time.Time).Format", func(fr *frame, a []value) value { return "time" })
	reg("(time.Time).String", func(fr *frame, a []value) value { return "time" })
	reg("(time.Time).After", func(fr *frame, a []value) value { return false })
	reg("(time.Time).Before", func(fr *frame, a []value) value { return false })
	reg("(time.Time).IsZero", func(fr *frame, a []value) value { return false })

	// a timer fires at any time
	reg("time.After", func(fr *frame, a []value) value {
		c := &Chan{cap: 1}
		fr.in.spawn(fr, &native{"time.After", func(g *frame, _ []value) value {
			fr.in.yield(g)
			fr.in.send(g, c, zero(fr.in.e.pkgs["time"].Type("Time").Type()))
			return nil
		}}, nil)
		return c
	})

	// ---- files ----
	reg("os.OpenFile", func(fr *frame, a []value) value {
		fl := int(fr.intOf(a[1]))
		in := fr.in
		name := in.abs(in.p.plain(str(a[0])))
		if fl&os.O_CREATE != 0 && fl&os.O_EXCL != 0 && in.fs()[name] != nil {
			return tuple{(*value)(nil), in.pathErr("open", str(a[0]), "ErrExist", "file exists")}
		}
		t := fr.openFile(str(a[0]), fl&os.O_CREATE != 0, fl&os.O_TRUNC != 0).(tuple)
		if q, _ := t[0].(*value); q != nil {
			f := fr.file(q)
			if f.n.dir && fl&(os.O_WRONLY|os.O_RDWR) != 0 {
				return tuple{(*value)(nil), in.pathErr("open", str(a[0]), "", "is a directory")}
			}
			f.app = fl&os.O_APPEND != 0
			f.ro = fl&(os.O_WRONLY|os.O_RDWR) == 0
			f.wo = fl&os.O_WRONLY != 0
		}
		return t
	})
	rereg("os.IsNotExist", func(fr *frame, a []value) value {
		return fr.underlying(a[0].(iface), "ErrNotExist", "no such file")
	})
	reg("os.IsExist", func(fr *frame, a []value) value {
		return fr.underlying(a[0].(iface), "ErrExist", "file exists")
	})
	rereg("os.Remove", func(fr *frame, a []value) value {
		n := fr.in.abs(fr.in.p.plain(str(a[0])))
		if fr.in.fs()[n] == nil {
			return fr.in.pathErr("remove", str(a[0]), "ErrNotExist", "no such file or directory")
		}
		if len(fr.dirEntries(n)) > 0 {
			return fr.in.pathErr("remove", str(a[0]), "", "directory not empty")
		}
		delete(fr.in.fs(), n)
		return nilErr
	})
	rereg("os.RemoveAll", func(fr *frame, a []value) value {
		n := fr.in.abs(fr.in.p.plain(str(a[0])))
		for k := range fr.in.fs() {
			if k == n || strings.HasPrefix(k, n+"/") {
				delete(fr.in.fs(), k)
			}
		}
		return nilErr
	})
	all := externals["os.MkdirAll"]
	rereg("os.Mkdir", func(fr *frame, a []value) value {
		n := fr.in.abs(fr.in.p.plain(str(a[0])))
		if fr.in.fs()[n] != nil {
			return fr.in.pathErr("mkdir", str(a[0]), "ErrExist", "file exists")
		}
		if d := fr.in.fs()[filepath.Dir(n)]; d == nil || !d.dir {
			return fr.in.pathErr("mkdir", str(a[0]), "ErrNotExist", "no such file or directory")
		}
		return all(fr, a)
	})
	temp := func(fr *frame, dir, pat string) string {
		if dir == "" {
			dir = "/tmp"
			if fr.in.fs()[dir] == nil {
				fr.in.fs()[dir] = &memNode{dir: true, seq: len(fr.in.fs())}
			}
		}
		k, _ := fr.in.aux["temp"].(int)
		fr.in.aux["temp"] = k + 1
		r := fmt.Sprintf("%09d", 184467+k)
		if i := strings.LastIndexByte(pat, '*'); i >= 0 {
			return dir + "/" + pat[:i] + r + pat[i+1:]
		}
		return dir + "/" + pat + r
	}
	tempFile := func(fr *frame, a []value) value {
		return fr.openFile(temp(fr, str(a[0]), str(a[1])), true, true)
	}
	tempDir := func(fr *frame, a []value) value {
		n := temp(fr, str(a[0]), str(a[1]))
		if e := externals["os.Mkdir"](fr, []value{n, int64(0700)}).(iface); e.t != nil {
			return tuple{"", e}
		}
		return tuple{n, nilErr}
	}
	reg("os.CreateTemp", tempFile)
	reg("io/ioutil.TempFile", tempFile)
	reg("os.MkdirTemp", tempDir)
	reg("io/ioutil.TempDir", tempDir)
	reg("os.TempDir", func(fr *frame, a []value) value {
		if fr.in.fs()["/tmp"] == nil {
			fr.in.fs()["/tmp"] = &memNode{dir: true, seq: len(fr.in.fs())}
		}
		return "/tmp"
	})
	reg("os.Lstat", externals["os.Stat"])
	reg("(*os.File).Stat", func(fr *frame, a []value) value {
		return tuple{fr.statOf(fr.file(a[0]).name), nilErr}
	})
	reg("(*os.File).Truncate", func(fr *frame, a []value) value {
		f := fr.file(a[0])
		n := int(fr.intOf(a[1]))
		for len(f.n.data) < n {
			f.n.data = append(f.n.data, int64(0))
		}
		f.n.data = f.n.data[:n]
		return nilErr
	})
	reg("(*os.File).WriteTo", func(fr *frame, a []value) value {
		f := fr.file(a[0])
		if f.off > len(f.n.data) {
			return tuple{int64(0), nilErr}
		}
		b := append([]value{}, f.n.data[f.off:]...)
		f.off = len(f.n.data)
		r := fr.callMethod(a[1].(iface), "Write", b).(tuple)
		return tuple{r[0], r[1]}
	})
	reg("(*os.fileStat).Mode", func(fr *frame, a []value) value {
		if (*fr.ptr(a[0])).(*memStat).n.dir {
			return int64(os.ModeDir | 0755)
		}
		return int64(0644)
	})
	reg("(*os.fileStat).Sys", func(fr *frame, a []value) value { return iface{} })
	readDir := func(entries bool) extFn {
		return func(fr *frame, a []value) value {
			n := fr.in.abs(fr.in.p.plain(str(a[0])))
			d := fr.in.fs()[n]
			if d == nil {
				return tuple{[]value(nil), fr.in.pathErr("open", str(a[0]), "ErrNotExist", "no such file or directory")}
			}
			if !d.dir {
				return tuple{[]value(nil), fr.in.pathErr("readdirent", str(a[0]), "", "not a directory")}
			}
			r := []value{}
			for _, k := range fr.dirEntries(n) {
				s := fr.statOf(k)
				if entries {
					pk := fr.in.e.pkgs["io/fs"]
					v := structure{s}
					s = iface{pk.Type("dirInfo").Type(), v}
				}
				r = append(r, s)
			}
			return tuple{r, nilErr}
		}
	}
	reg("io/ioutil.ReadDir", readDir(false))
	reg("os.ReadDir", readDir(true))
	reg("(*os.File).Readdir", func(fr *frame, a []value) value {
		t := externals["(*os.File).Readdirnames"](fr, a).(tuple)
		r := []value{}
		for _, k := range t[0].([]value) {
			r = append(r, fr.statOf(fr.file(a[0]).name+"/"+k.(string)))
		}
		return tuple{r, nilErr}
	})
	reg("path/filepath.Glob", func(fr *frame, a []value) value {
		pat := fr.in.abs(fr.in.p.plain(str(a[0])))
		var r []string
		for k := range fr.in.fs() {
			ok, err := filepath.Match(pat, k)
			if err != nil {
				return tuple{[]value(nil), fr.in.errVal(err.Error())}
			}
			if ok {
				if !filepath.IsAbs(str(a[0])) {
					k, _ = filepath.Rel(fr.in.abs("."), k)
				}
				r = append(r, k)
			}
		}
		if r == nil {
			return tuple{[]value(nil), nilErr}
		}
		sort.Strings(r)
		return tuple{strSlice(r), nilErr}
	})
	reg("path/filepath.Match", func(fr *frame, a []value) value {
		ok, err := filepath.Match(str(a[0]), fr.in.p.plain(str(a[1])))
		if err != nil {
			return tuple{false, fr.in.errVal(err.Error())}
		}
		return tuple{ok, nilErr}
	})
	reg("path/filepath.Rel", func(fr *frame, a []value) value {
		s, err := filepath.Rel(str(a[0]), str(a[1]))
		if err != nil {
			return tuple{"", fr.in.errVal(err.Error())}
		}
		return tuple{s, nilErr}
	})
	reg("path/filepath.IsAbs", func(fr *frame, a []value) value { return filepath.IsAbs(str(a[0])) })
	reg("path/filepath.Split", func(fr *frame, a []value) value {
		d, f := filepath.Split(str(a[0]))
		return tuple{d, f}
	})
	reg("path/filepath.FromSlash", func(fr *frame, a []value) value { return a[0] })
	reg("path/filepath.ToSlash", func(fr *frame, a []value) value { return a[0] })
	reg("path/filepath.Walk", func(fr *frame, a []value) value {
		skip := fr.in.stdErr("io/fs", "SkipDir")
		skipAll := fr.in.stdErr("io/fs", "SkipAll")
		same := func(e iface, s value) bool { return e.t != nil && fr.errIs(e, s.(iface), 0) }
		var walk func(path string) iface
		walk = func(path string) iface {
			n := fr.in.fs()[fr.in.abs(path)]
			e := fr.in.call(fr, a[1], []value{path, fr.statOf(path), iface{}}, 0).(iface)
			if e.t != nil || !n.dir {
				if same(e, skip) && n.dir {
					return iface{}
				}
				return e
			}
			for _, k := range fr.dirEntries(fr.in.abs(path)) {
				e := walk(filepath.Join(path, filepath.Base(k)))
				if same(e, skip) {
					return iface{}
				}
				if e.t != nil {
					return e
				}
			}
			return iface{}
		}
		root := str(a[0])
		var e iface
		if fr.in.fs()[fr.in.abs(root)] == nil {
			e = fr.in.call(fr, a[1], []value{root, iface{}, fr.in.pathErr("lstat", root, "ErrNotExist", "no such file or directory")}, 0).(iface)
		} else {
			e = walk(root)
		}
		if same(e, skip) || same(e, skipAll) {
			return nilErr
		}
		return e
	})
	reg("os.Getenv", func(fr *frame, a []value) value { return "" })
	reg("os.Getpid", func(fr *frame, a []value) value { return int64(7) })
	reg("os.UserHomeDir", func(fr *frame, a []value) value { return tuple{"/cwd", nilErr} })

	// texts keep their symbolic numbers on the way into a buffer
	for _, T := range []string{"(*bytes.Buffer)", "(*bufio.Writer)"} {
		T := T
		reg(T+".WriteString", func(fr *frame, a []value) value {
			pk, tn := "bytes", "Buffer"
			if T != "(*bytes.Buffer)" {
				pk, tn = "bufio", "Writer"
			}
			t := types.NewPointer(fr.in.e.pkgs[pk].Type(tn).Type())
			r := fr.callMethod(iface{t, a[0]}, "Write", bytesVal([]byte(str(a[1])))).(tuple)
			return tuple{fr.in.p.strLen(str(a[1])), r[1]}
		})
	}

	// ---- bits (the tables of the package are texts) ----
	for _, w := range []struct {
		suffix string
		n      uint
	}{{"", 64}, {"64", 64}, {"32", 32}, {"16", 16}, {"8", 8}} {
		w := w
		u := func(fr *frame, a []value) uint64 {
			x := uint64(fr.intOf(a[0]))
			if w.n < 64 {
				x &= 1<<w.n - 1
			}
			return x
		}
		reg("math/bits.Len"+w.suffix, func(fr *frame, a []value) value { return int64(bits.Len64(u(fr, a))) })
		reg("math/bits.OnesCount"+w.suffix, func(fr *frame, a []value) value { return int64(bits.OnesCount64(u(fr, a))) })
		reg("math/bits.LeadingZeros"+w.suffix, func(fr *frame, a []value) value { return int64(int(w.n) - bits.Len64(u(fr, a))) })
		reg("math/bits.TrailingZeros"+w.suffix, func(fr *frame, a []value) value {
			n := bits.TrailingZeros64(u(fr, a))
			if n > int(w.n) {
				n = int(w.n)
			}
			return int64(n)
		})
	}

	// ---- unicode ----
	for n, f := range map[string]func(rune) bool{"IsNumber": unicode.IsNumber, "IsLower": unicode.IsLower,
		"IsPunct": unicode.IsPunct, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic} {
		f := f
		reg("unicode."+n, func(fr *frame, a []value) value { return f(rune(fr.intOf(a[0]))) })
	}
}

// underlying is the test behind os.IsNotExist and its kin: the error itself,
// or the one inside a PathError, not any further.
func (fr *frame) underlying(e iface, sentinel, msg string) value {
	if e.t == nil {
		return false
	}
	s := fr.in.stdErr("internal/oserror", sentinel).(iface)
	if pt, ok := e.t.(*types.Pointer); ok {
		if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && n.Obj().Name() == "PathError" {
			e = (*fr.ptr(e.v)).(structure)[2].(iface)
		}
	}
	if e.t == nil {
		return false
	}
	if types.Identical(e.t, s.t) && fr.truth(mkBool(fr.in.p.equals(e.t, e.v, s.v))) {
		return true
	}
	t, _ := fr.callMethod(e, "Error").(string)
	return strings.Contains(t, msg)
}
