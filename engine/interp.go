package main

// The symbolic interpreter over go/ssa.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   value
	args []value
	pos  token.Pos
	tail *deferred
}

type frame struct {
	in               *interp
	caller           *frame
	fn               *ssa.Function
	info             *fnInfo
	block, prevBlock *ssa.BasicBlock
	env              []value
	defers           *deferred
	result           value
	panicking        bool
	panicv           any
	depth            int
	g                *gor
	pos              token.Pos
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v value // interface value given to panic
}

// fnInfo numbers the registers of a function.
type fnInfo struct {
	idx   map[uintptr]int
	n     int
	tab   []slotEntry // open addressing over idx
	shift uint
	tmpl  []value // initial registers: shared constants are in place
}

type slotEntry struct {
	k uintptr
	n int32
}

func (fi *fnInfo) finish() {
	bits := uint(4)
	for 1<<bits < 3*len(fi.idx) {
		bits++
	}
	fi.shift = 64 - bits
	fi.tab = make([]slotEntry, 1<<bits)
	for k, n := range fi.idx {
		h := uint64(k) * 0x9E3779B97F4A7C15 >> fi.shift
		for fi.tab[h].k != 0 {
			h = (h + 1) & uint64(len(fi.tab)-1)
		}
		fi.tab[h] = slotEntry{k, int32(n)}
	}
}

// slot is the register of a value, -1 when it has none.
func (fi *fnInfo) slot(k uintptr) int {
	h := uint64(k) * 0x9E3779B97F4A7C15 >> fi.shift
	for {
		e := &fi.tab[h]
		if e.k == k {
			return int(e.n)
		}
		if e.k == 0 {
			return -1
		}
		h = (h + 1) & uint64(len(fi.tab)-1)
	}
}

// vptr identifies an SSA value by the address of its node.
func vptr(v ssa.Value) uintptr {
	return (*[2]uintptr)(unsafe.Pointer(&v))[1]
}

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *fnInfo {
	if x, ok := fnInfos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{idx: map[uintptr]int{}}
	add := func(v ssa.Value) {
		fi.idx[vptr(v)] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, l := range fn.Locals {
		if _, ok := fi.idx[vptr(l)]; !ok {
			add(l)
		}
	}
	fi.tmpl = make([]value, fi.n)
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			ops = i.Operands(ops[:0])
			for _, o := range ops {
				c, ok := (*o).(*ssa.Const)
				if !ok {
					continue
				}
				if _, done := fi.idx[vptr(c)]; done {
					continue
				}
				if v, share := constValue1(c); share {
					add(c)
					fi.tmpl = append(fi.tmpl, v)
				}
			}
		}
	}
	fi.finish()
	fnInfos.Store(fn, fi)
	return fi
}

// fnPrep is what is known about a function before it is called.
type fnPrep struct {
	name        string
	ext         extFn
	opaque      bool
	foreignInit bool
	nd          bool
	info        *fnInfo
}

var fnPreps sync.Map

func (e *Engine) prepare(fn *ssa.Function) *fnPrep {
	if x, ok := fnPreps.Load(fn); ok {
		return x.(*fnPrep)
	}
	pr := &fnPrep{name: fn.String()}
	pr.nd = strings.HasPrefix(pr.name, ndPath)
	pr.foreignInit = fn.Synthetic == "package initializer" && fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	if fn.Parent() == nil {
		pr.ext = e.external(fn)
		if pr.ext == nil {
			if fn.Pkg != nil {
				e.build(fn.Pkg)
			} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
				e.build(fn.Origin().Pkg)
			}
			pr.opaque = e.opaque(fn)
		}
	}
	if pr.ext == nil && fn.Blocks != nil {
		pr.info = infoOf(fn)
	}
	fnPreps.Store(fn, pr)
	return pr
}

// interp is the state of the interpreted program on one path.
type interp struct {
	p        *Path
	e        *Engine
	globals  map[*ssa.Global]*value
	inited   map[*ssa.Package]bool
	cur      *gor
	all      []*gor
	mapForks int
	gors     int
	shadows  map[any]*shadow
	norace   int
	preempt  int
	abort    *pathEnd
	stdout   strings.Builder
	syncs    map[*value]*syncObj
	aux      map[string]any
	nextFd   int64
	cwd      string
}

func newInterp(p *Path) *interp {
	return &interp{p: p, e: p.e, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{},
		syncs: map[*value]*syncObj{}, shadows: map[any]*shadow{}, aux: map[string]any{}}
}

func (in *interp) stackString() string {
	if in.cur == nil {
		return ""
	}
	var sb strings.Builder
	n := 0
	for f := in.cur.top; f != nil && n < 12; f = f.caller {
		pos := in.e.prog.Fset.Position(f.pos)
		fmt.Fprintf(&sb, "%s (%s:%d) < ", f.fn, pos.Filename, pos.Line)
		n++
	}
	return strings.TrimSuffix(sb.String(), " < ")
}

func (in *interp) targetPanicStr(msg string) {
	panic(targetPanic{iface{types.Typ[types.String], msg}})
}

// rtPanic raises a Go run-time error.
func (fr *frame) rtPanic(format string, a ...any) {
	fr.in.targetPanicStr("runtime error: " + fmt.Sprintf(format, a...))
}

// ---- package initialisation (lazy) ----

func (in *interp) ensureInit(pkg *ssa.Package, g *gor) {
	if pkg == nil || in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	in.e.build(pkg)
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	in.p.nofork++
	in.callSSA(in.rootFrame(g), fn, nil, nil)
	in.p.nofork--
}

func (in *interp) rootFrame(g *gor) *frame {
	return &frame{in: in, g: g, fn: in.e.rootFn, depth: 0}
}

func (in *interp) global(g *ssa.Global, gr *gor) *value {
	if v, ok := in.globals[g]; ok {
		return v
	}
	if g.Pkg.Pkg.Path() == "net/http" { // not interpreted, but harnesses set its transport
		z := zero(deref(g.Type()))
		in.globals[g] = &z
		return &z
	}
	if in.e.shared(g.Pkg) {
		if in.e.shPath != nil && in == in.e.shPath.in {
			return in.e.sharedGlobalLocked(g)
		}
		return in.e.sharedGlobal(g)
	}
	// allocate all globals of the package, then initialise it
	for _, m := range g.Pkg.Members {
		if gg, ok := m.(*ssa.Global); ok {
			if _, done := in.globals[gg]; !done {
				v := zero(deref(gg.Type()))
				in.globals[gg] = &v
			}
		}
	}
	v, ok := in.globals[g]
	if !ok {
		z := zero(deref(g.Type()))
		in.globals[g] = &z
		v = &z
	}
	in.ensureInit(g.Pkg, gr)
	return v
}

// ---- frames ----

func (fr *frame) get(key ssa.Value) value {
	if key == nil {
		return nil
	}
	if n := fr.info.slot(vptr(key)); n >= 0 {
		return fr.env[n]
	}
	switch key := key.(type) {
	case *ssa.Const:
		return constValue(key)
	case *ssa.Function, *ssa.Builtin:
		return key
	case *ssa.Global:
		return fr.in.global(key, fr.g)
	}
	panic(fmt.Sprintf("no register for %s in %s", key, fr.fn))
}

func (fr *frame) set(key ssa.Value, v value) { fr.env[fr.info.slot(vptr(key))] = v }

func (fr *frame) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Formula:
		return fr.in.p.branch(v)
	}
	panic(fmt.Sprintf("truth: %T", v))
}

// intOf returns a concrete integer, forking over the values of a symbolic one.
func (fr *frame) intOf(v value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *SInt:
		return fr.in.p.concretize(v.p)
	}
	panic(fmt.Sprintf("intOf: %T", v))
}

// index resolves an index into [0,n), raising the run-time error otherwise.
func (fr *frame) index(v value, n int) int {
	switch v := v.(type) {
	case int64:
		if v < 0 || v >= int64(n) {
			fr.rtPanic("index out of range [%d] with length %d", v, n)
		}
		return int(v)
	case *SInt:
		p := fr.in.p
		if n == 0 || !p.branch(sign(rfPoly(v.p), sPos|sZero)) || !p.branch(sign(rfPoly(v.p.sub(polyInt(int64(n)))), sNeg)) {
			fr.rtPanic("index out of range (symbolic index) with length %d", n)
		}
		if n > 40 {
			return int(p.concretize(v.p))
		}
		for i := 0; i < n-1; i++ {
			if p.branch(sign(rfPoly(v.p.sub(polyInt(int64(i)))), sZero)) {
				return i
			}
		}
		p.assumeNoCheck(sign(rfPoly(v.p.sub(polyInt(int64(n-1)))), sZero))
		return n - 1
	}
	panic(fmt.Sprintf("index: %T", v))
}

func (in *interp) call(caller *frame, fn value, args []value, pos token.Pos) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			caller.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return in.callSSA(caller, fn, args, nil)
	case *closure:
		return in.callSSA(caller, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return callBuiltin(caller, fn, args)
	case *native:
		return fn.f(caller, args)
	}
	panic(fmt.Sprintf("cannot call %T", fn))
}

func (in *interp) callSSA(caller *frame, fn *ssa.Function, args []value, env []value) value {
	fr := &frame{in: in, caller: caller, fn: fn, depth: caller.depth + 1, g: caller.g, pos: fn.Pos()}
	if fr.depth > in.e.maxDepth {
		in.p.stop("limit", "call depth %d in %s", fr.depth, fn)
	}
	pr := in.e.prepare(fn)
	if pr.foreignInit && caller.fn != in.e.rootFn {
		return nil // other packages are initialised on first use
	}
	if pr.ext != nil {
		in.p.noteModel(pr)
		return pr.ext(fr, args)
	}
	if pr.opaque {
		in.p.unsupported("call of unmodelled function %s", fn)
	}
	if fn.Blocks == nil {
		in.p.unsupported("no code for function %s", fn)
	}
	in.p.fnSeen[pr] = true
	if pr.info == nil {
		panic("function without register info: " + pr.name)
	}
	fr.info = pr.info
	fr.env = append(make([]value, 0, fr.info.n), fr.info.tmpl...)
	fr.block = fn.Blocks[0]
	for _, l := range fn.Locals {
		v := zero(deref(l.Type()))
		fr.env[fr.info.slot(vptr(l))] = &v
	}
	for i, p := range fn.Params {
		fr.env[fr.info.slot(vptr(p))] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fr.info.slot(vptr(fv))] = env[i]
	}
	fr.g.top = fr
	for fr.block != nil {
		fr.run()
	}
	fr.g.top = caller
	return fr.result
}

func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if _, ok := r.(targetPanic); !ok {
			panic(r) // engine condition: do not run target defers
		}
		fr.panicking = true
		fr.panicv = r
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered, function without named results returns zero values
			fr.result = zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
		fr.g.top = fr
	}()
	p := fr.in.p
	for {
		nphi := 0
		for _, i := range fr.block.Instrs {
			if _, ok := i.(*ssa.Phi); !ok {
				break
			}
			nphi++
		}
		if nphi > 0 {
			pi := -1
			for k, pr := range fr.block.Preds {
				if pr == fr.prevBlock {
					pi = k
					break
				}
			}
			tmp := make([]value, nphi)
			for k := 0; k < nphi; k++ {
				tmp[k] = fr.get(fr.block.Instrs[k].(*ssa.Phi).Edges[pi])
			}
			for k := 0; k < nphi; k++ {
				fr.set(fr.block.Instrs[k].(*ssa.Phi), tmp[k])
			}
		}
		instrs := fr.block.Instrs[nphi:]
		jumped := false
		for _, instr := range instrs {
			p.steps++
			if p.steps&1023 == 0 {
				if p.steps > fr.in.e.maxSteps(p.h) {
					p.stop("limit", "step limit (%d) reached in %s", p.steps, fr.fn)
				}
				if fr.in.e.expired() {
					p.stop("limit", "time budget")
				}
			}
			if pos := instr.Pos(); pos.IsValid() {
				fr.pos = pos
			}
			switch fr.visit(instr) {
			case kReturn:
				return
			case kJump:
				jumped = true
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("fell off block in " + fr.fn.String())
		}
	}
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = d.tail {
		fr.runDefer(d)
	}
	fr.defers = nil
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if _, isT := r.(targetPanic); !isT {
				panic(r)
			}
			fr.panicking = true
			fr.panicv = r
		}
	}()
	fr.in.call(fr, d.fn, d.args, d.pos)
	ok = true
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (fr *frame) ptr(v value) *value {
	q, ok := v.(*value)
	if !ok {
		fr.in.p.unsupported("pointer operation on %T", v)
	}
	if q == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	return q
}

func (fr *frame) visit(instr ssa.Instruction) cont {
	p := fr.in.p
	switch instr := instr.(type) {
	case *ssa.DebugRef:

	case *ssa.UnOp:
		fr.set(instr, fr.unop(instr, fr.get(instr.X)))

	case *ssa.BinOp:
		fr.set(instr, fr.binop(instr.Op, instr.X.Type(), instr.Y.Type(), fr.get(instr.X), fr.get(instr.Y)))

	case *ssa.Call:
		fn, args := fr.prepareCall(&instr.Call)
		fr.set(instr, fr.in.call(fr, fn, args, instr.Pos()))

	case *ssa.ChangeInterface:
		fr.set(instr, fr.get(instr.X))

	case *ssa.ChangeType:
		fr.set(instr, fr.get(instr.X))

	case *ssa.Convert:
		fr.set(instr, fr.conv(instr.Type(), instr.X.Type(), fr.get(instr.X)))

	case *ssa.MultiConvert:
		fr.set(instr, fr.conv(instr.Type(), instr.X.Type(), fr.get(instr.X)))

	case *ssa.SliceToArrayPointer:
		x := fr.get(instr.X).([]value)
		n := deref(instr.Type()).Underlying().(*types.Array).Len()
		if int64(len(x)) < n {
			fr.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(x), n)
		}
		if x == nil {
			fr.set(instr, (*value)(nil))
		} else {
			v := value(array(x[:n:n]))
			fr.set(instr, &v)
		}

	case *ssa.MakeInterface:
		fr.set(instr, iface{instr.X.Type(), copyVal(fr.get(instr.X))})

	case *ssa.Extract:
		fr.set(instr, fr.get(instr.Tuple).(tuple)[instr.Index])

	case *ssa.Slice:
		fr.set(instr, fr.slice(instr))

	case *ssa.Return:
		switch len(instr.Results) {
		case 0:
		case 1:
			fr.result = fr.get(instr.Results[0])
		default:
			res := make(tuple, len(instr.Results))
			for i, r := range instr.Results {
				res[i] = fr.get(r)
			}
			fr.result = res
		}
		fr.block = nil
		return kReturn

	case *ssa.RunDefers:
		fr.runDefers()

	case *ssa.Panic:
		panic(targetPanic{fr.get(instr.X)})

	case *ssa.Send:
		fr.in.send(fr, fr.get(instr.Chan).(*Chan), copyVal(fr.get(instr.X)))

	case *ssa.Store:
		a := fr.ptr(fr.get(instr.Addr))
		fr.touch(a, true)
		assign(a, fr.get(instr.Val))

	case *ssa.If:
		succ := 1
		if fr.truth(fr.get(instr.Cond)) {
			succ = 0
		}
		fr.prevBlock, fr.block = fr.block, fr.block.Succs[succ]
		return kJump

	case *ssa.Jump:
		fr.prevBlock, fr.block = fr.block, fr.block.Succs[0]
		return kJump

	case *ssa.Defer:
		fn, args := fr.prepareCall(&instr.Call)
		d := &fr.defers
		if instr.DeferStack != nil {
			d = fr.get(instr.DeferStack).(**deferred)
		}
		*d = &deferred{fn, args, instr.Pos(), *d}

	case *ssa.Go:
		fn, args := fr.prepareCall(&instr.Call)
		fr.in.spawn(fr, fn, args)

	case *ssa.MakeChan:
		fr.set(instr, &Chan{cap: int(fr.intOf(fr.get(instr.Size))), et: instr.Type().Underlying().(*types.Chan).Elem()})

	case *ssa.Alloc:
		if instr.Heap {
			v := zero(deref(instr.Type()))
			fr.set(instr, &v)
		} else {
			// a local re-entered in a loop starts from zero again
			v := zero(deref(instr.Type()))
			fr.set(instr, &v)
		}

	case *ssa.MakeSlice:
		ln, cp := fr.intOf(fr.get(instr.Len)), fr.intOf(fr.get(instr.Cap))
		if ln < 0 || cp < ln {
			fr.rtPanic("makeslice: len out of range")
		}
		if cp > 1<<22 {
			p.stop("limit", "makeslice of %d elements", cp)
		}
		et := instr.Type().Underlying().(*types.Slice).Elem()
		s := make([]value, cp)
		for i := range s {
			s[i] = zero(et)
		}
		fr.set(instr, s[:ln])

	case *ssa.MakeMap:
		fr.set(instr, newMap())

	case *ssa.Range:
		fr.set(instr, fr.rangeIter(instr, fr.get(instr.X)))

	case *ssa.Next:
		fr.set(instr, fr.get(instr.Iter).(iter).next(fr))

	case *ssa.FieldAddr:
		x := fr.ptr(fr.get(instr.X))
		s, ok := (*x).(structure)
		if !ok {
			p.unsupported("field of opaque %T in %s", *x, fr.fn)
		}
		fr.set(instr, &s[instr.Field])

	case *ssa.Field:
		s, ok := fr.get(instr.X).(structure)
		if !ok {
			p.unsupported("field of opaque value in %s", fr.fn)
		}
		fr.set(instr, copyVal(s[instr.Field]))

	case *ssa.IndexAddr:
		switch x := fr.get(instr.X).(type) {
		case []value:
			fr.set(instr, &x[fr.index(fr.get(instr.Index), len(x))])
		case *value:
			a := (*fr.ptr(x)).(array)
			fr.set(instr, &a[fr.index(fr.get(instr.Index), len(a))])
		default:
			p.unsupported("IndexAddr on %T", x)
		}

	case *ssa.Index:
		switch x := fr.get(instr.X).(type) {
		case array:
			fr.set(instr, copyVal(x[fr.index(fr.get(instr.Index), len(x))]))
		case string:
			fr.set(instr, fr.strIndex(x, fr.get(instr.Index)))
		default:
			p.unsupported("Index on %T", x)
		}

	case *ssa.Lookup:
		switch x := fr.get(instr.X).(type) {
		case string:
			fr.set(instr, fr.strIndex(x, fr.get(instr.Index)))
		case *Map:
			mt := instr.X.Type().Underlying().(*types.Map)
			var v value
			ok := false
			fr.touchMap(x, false)
			if x != nil && x.n > 0 {
				ks, _ := p.hashKey(mt.Key(), fr.get(instr.Index))
				v, ok = x.get(ks)
			}
			if !ok {
				v = zero(mt.Elem())
			}
			v = copyVal(v)
			if instr.CommaOk {
				fr.set(instr, tuple{v, ok})
			} else {
				fr.set(instr, v)
			}
		default:
			p.unsupported("Lookup on %T", x)
		}

	case *ssa.MapUpdate:
		m := fr.get(instr.Map).(*Map)
		if m == nil {
			fr.in.targetPanicStr("assignment to entry in nil map")
		}
		kt := instr.Map.Type().Underlying().(*types.Map).Key()
		ks, k := p.hashKey(kt, fr.get(instr.Key))
		fr.touchMap(m, true)
		m.set(ks, copyVal(k), copyVal(fr.get(instr.Value)))

	case *ssa.TypeAssert:
		fr.set(instr, fr.typeAssert(instr, fr.get(instr.X).(iface)))

	case *ssa.MakeClosure:
		b := make([]value, len(instr.Bindings))
		for i, x := range instr.Bindings {
			b[i] = fr.get(x)
		}
		fr.set(instr, &closure{instr.Fn.(*ssa.Function), b})

	case *ssa.Select:
		fr.set(instr, fr.in.selectStmt(fr, instr))

	default:
		p.unsupported("instruction %T", instr)
	}
	return kNext
}

func (fr *frame) prepareCall(call *ssa.CallCommon) (fn value, args []value) {
	v := fr.get(call.Value)
	if call.Method == nil {
		fn = v
		args = make([]value, 0, len(call.Args))
	} else {
		recv, ok := v.(iface)
		if !ok {
			fr.in.p.unsupported("method call on %T", v)
		}
		if recv.t == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference (nil interface)")
		}
		f := fr.in.e.lookupMethod(recv.t, call.Method)
		if f == nil {
			fr.in.p.unsupported("no method %s on %s", call.Method.Name(), recv.t)
		}
		fn = f
		args = make([]value, 0, len(call.Args)+1)
		args = append(args, copyVal(recv.v))
	}
	for _, a := range call.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return
}

func (fr *frame) typeAssert(instr *ssa.TypeAssert, x iface) value {
	ok := false
	var v value
	msg := ""
	if x.t == nil {
		msg = fmt.Sprintf("interface conversion: interface is nil, not %s", instr.AssertedType)
	} else if idst, isI := instr.AssertedType.Underlying().(*types.Interface); isI {
		if m, _ := types.MissingMethod(x.t, idst, true); m == nil {
			ok, v = true, x
		} else {
			msg = fmt.Sprintf("interface conversion: %s is not %s: missing method %s", x.t, instr.AssertedType, m.Name())
		}
	} else if types.Identical(x.t, instr.AssertedType) {
		ok, v = true, copyVal(x.v)
	} else {
		msg = fmt.Sprintf("interface conversion: interface {} is %s, not %s", x.t, instr.AssertedType)
	}
	if !ok {
		if !instr.CommaOk {
			fr.in.targetPanicStr(msg)
		}
		return tuple{zero(instr.AssertedType), false}
	}
	if instr.CommaOk {
		return tuple{v, true}
	}
	return v
}

func (fr *frame) slice(instr *ssa.Slice) value {
	lo, hi, max := int64(0), int64(-1), int64(-1)
	if instr.Low != nil {
		lo = fr.intOf(fr.get(instr.Low))
	}
	if instr.High != nil {
		hi = fr.intOf(fr.get(instr.High))
	}
	if instr.Max != nil {
		max = fr.intOf(fr.get(instr.Max))
	}
	hasHi, hasMax := instr.High != nil, instr.Max != nil
	chk := func(n, c int64, what string) {
		if !hasHi {
			hi = n
		}
		if !hasMax {
			max = c
		}
		if max < 0 || max > c {
			fr.rtPanic("slice bounds out of range [::%d] with %s %d", max, what, c)
		}
		if hi < 0 || hi > max {
			fr.rtPanic("slice bounds out of range [:%d] with %s %d", hi, what, max)
		}
		if lo < 0 || lo > hi {
			fr.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
	}
	switch x := fr.get(instr.X).(type) {
	case string:
		if hasTok(x) {
			if cs, off, ok := fr.in.p.chars(x); ok {
				chk(int64(len(cs)), int64(len(cs)), "length")
				return x[off[lo]:off[hi]]
			}
			x = fr.in.p.plain(x)
		}
		chk(int64(len(x)), int64(len(x)), "length")
		return x[lo:hi]
	case []value:
		chk(int64(len(x)), int64(cap(x)), "capacity")
		if x == nil {
			return []value(nil)
		}
		return x[lo:hi:max]
	case *value:
		a := (*fr.ptr(x)).(array)
		chk(int64(len(a)), int64(len(a)), "length")
		return []value(a)[lo:hi:max]
	default:
		fr.in.p.unsupported("slice of %T", x)
	}
	return nil
}

// ---- iteration ----

type iter interface{ next(fr *frame) value }

type mapIter struct {
	m     *Map
	order []int // entry indices fixed at the start; later insertions may be seen
	i     int
	kt    types.Type
	et    types.Type
}

func (it *mapIter) next(fr *frame) value {
	for it.i < len(it.order) {
		e := it.m.ent[it.order[it.i]]
		it.i++
		if !e.dead {
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	return tuple{false, nil, nil}
}

type strIter struct {
	s string
	i int
}

func (it *strIter) next(fr *frame) value {
	if it.i >= len(it.s) {
		return tuple{false, int64(0), int64(0)}
	}
	r, n := utf8.DecodeRuneInString(it.s[it.i:])
	k := it.i
	it.i += n
	return tuple{true, int64(k), int64(r)}
}

func (fr *frame) rangeIter(instr *ssa.Range, x value) iter {
	switch x := x.(type) {
	case string:
		return fr.strRange(x)
	case *Map:
		it := &mapIter{m: x}
		fr.touchMap(x, false)
		if x != nil {
			for i, e := range x.ent {
				if !e.dead {
					it.order = append(it.order, i)
				}
			}
			fr.in.p.permute(it.order)
		}
		return it
	}
	fr.in.p.unsupported("range over %T", x)
	return nil
}

// permute orders a map iteration according to the harness's map-order mode.
func (p *Path) permute(o []int) {
	if len(o) < 2 || p.nofork > 0 {
		return
	}
	switch p.mapOrder {
	case 1: // forward or reverse
		p.in.mapForks++
		if p.choose(2) == 1 {
			for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
				o[i], o[j] = o[j], o[i]
			}
		}
	case 2: // every permutation
		p.in.mapForks++
		for i := 0; i < len(o)-1; i++ {
			j := i + p.choose(len(o)-i)
			v := o[j]
			copy(o[i+1:j+1], o[i:j])
			o[i] = v
		}
	case 3: // always reversed
		p.in.mapForks++
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	}
}
