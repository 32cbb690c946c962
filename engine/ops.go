package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) unop(instr *ssa.UnOp, x value) value {
	p := fr.in.p
	switch instr.Op {
	case token.ARROW:
		v, ok := fr.in.recv(fr, x.(*Chan))
		if v == nil {
			v = zero(instr.X.Type().Underlying().(*types.Chan).Elem())
		}
		if instr.CommaOk {
			return tuple{v, ok}
		}
		return v
	case token.MUL:
		a := fr.ptr(x)
		fr.touch(a, false)
		return copyVal(*a)
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Formula:
			return mkBool(not(b))
		}
	case token.SUB:
		switch v := x.(type) {
		case int64:
			k, _ := intKindOf(instr.Type())
			return k.norm(-v)
		case *SInt:
			k, _ := intKindOf(instr.Type())
			return p.wrap(v.p.neg(), k)
		case *Flt:
			return p.fneg(v)
		}
	case token.XOR:
		k, _ := intKindOf(instr.Type())
		switch v := x.(type) {
		case int64:
			return k.norm(^v)
		case *SInt:
			// ^x = -x-1 (signed) or max-x (unsigned)
			if k.signed {
				return p.wrap(v.p.neg().sub(polyInt(1)), k)
			}
			_, hi := k.limits()
			return mkInt(polyConst(hi).sub(v.p))
		}
	}
	p.unsupported("unary %s on %T", instr.Op, x)
	return nil
}

// wrap reduces a polynomial to the machine range of k.
func (p *Path) wrap(q *Poly, k intKind) value {
	if c, ok := q.constVal(); ok {
		m := new(big.Int).Mod(c.Num(), new(big.Int).Lsh(big.NewInt(1), 64))
		return k.norm(int64(m.Uint64()))
	}
	lo, hi := k.limits()
	iv := p.facts.interval(q)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
		return &SInt{q}
	}
	key := fmt.Sprintf("wrap%d%v|%s", k.bits, k.signed, q.key)
	a, ok := p.uniq[key]
	if !ok {
		a = p.newAtom(p.fresh("wrap"), true, lo, hi)
		w := p.newAtom(p.fresh("wrapq"), true, nil, nil)
		m := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), k.bits))
		p.axiom(sign(rfPoly(polyAtom(a).add(polyAtom(w).scale(m)).sub(q)), sZero))
		p.uniq[key] = a
	}
	return &SInt{polyAtom(a)}
}

func cmpMask(op token.Token) int {
	switch op {
	case token.LSS:
		return sNeg
	case token.LEQ:
		return sNeg | sZero
	case token.GTR:
		return sPos
	case token.GEQ:
		return sPos | sZero
	case token.EQL:
		return sZero
	case token.NEQ:
		return sNeg | sPos
	}
	panic("cmpMask")
}

func (fr *frame) binop(op token.Token, t, ty types.Type, x, y value) value {
	p := fr.in.p
	switch op {
	case token.EQL:
		return mkBool(p.equals(t, x, y))
	case token.NEQ:
		return mkBool(not(p.equals(t, x, y)))
	}
	switch xv := x.(type) {
	case *Flt:
		yv := y.(*Flt)
		f32 := false
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			f32 = true
		}
		_ = f32
		switch op {
		case token.ADD:
			return p.fadd(xv, yv)
		case token.SUB:
			return p.fsub(xv, yv)
		case token.MUL:
			return p.fmul(xv, yv)
		case token.QUO:
			return p.fdiv(xv, yv)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return mkBool(p.fcmp(xv, yv, cmpMask(op)))
		}
	case string:
		yv := y.(string)
		if op == token.ADD {
			return xv + yv
		}
		xv, yv = p.plain(xv), p.plain(yv)
		switch op {
		case token.LSS:
			return xv < yv
		case token.LEQ:
			return xv <= yv
		case token.GTR:
			return xv > yv
		case token.GEQ:
			return xv >= yv
		}
	case int64:
		if yc, ok := y.(int64); ok {
			return fr.binInt(op, t, ty, xv, yc)
		}
		return fr.binSym(op, t, ty, x, y)
	case *SInt:
		return fr.binSym(op, t, ty, x, y)
	case bool, *Formula:
		switch op {
		case token.AND:
			return mkBool(and(formulaOf(x), formulaOf(y)))
		case token.OR:
			return mkBool(or(formulaOf(x), formulaOf(y)))
		}
	case complexV:
		p.unsupported("complex arithmetic")
	}
	p.unsupported("binary %s on %T", op, x)
	return nil
}

func (fr *frame) binInt(op token.Token, t, ty types.Type, x, y int64) value {
	k, ok := intKindOf(t)
	if !ok {
		fr.in.p.unsupported("integer op on %s", t)
	}
	switch op {
	case token.ADD:
		return k.norm(x + y)
	case token.SUB:
		return k.norm(x - y)
	case token.MUL:
		return k.norm(x * y)
	case token.QUO, token.REM:
		if y == 0 {
			fr.rtPanic("integer divide by zero")
		}
		if k.signed {
			if y == -1 {
				if op == token.QUO {
					return k.norm(-x)
				}
				return int64(0)
			}
			if op == token.QUO {
				return k.norm(x / y)
			}
			return k.norm(x % y)
		}
		if op == token.QUO {
			return k.norm(int64(uint64(x) / uint64(y)))
		}
		return k.norm(int64(uint64(x) % uint64(y)))
	case token.AND:
		return k.norm(x & y)
	case token.OR:
		return k.norm(x | y)
	case token.XOR:
		return k.norm(x ^ y)
	case token.AND_NOT:
		return k.norm(x &^ y)
	case token.SHL, token.SHR:
		ky, _ := intKindOf(ty)
		if ky.signed && y < 0 {
			fr.rtPanic("negative shift amount")
		}
		n := uint64(y)
		if op == token.SHL {
			if n >= 64 {
				return int64(0)
			}
			return k.norm(x << n)
		}
		if k.signed {
			if n >= 64 {
				n = 63
			}
			return k.norm(x >> n)
		}
		if n >= 64 {
			return int64(0)
		}
		return k.norm(int64(uint64(x) >> n))
	}
	if k.signed {
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	} else {
		a, b := uint64(x), uint64(y)
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	fr.in.p.unsupported("integer op %s", op)
	return nil
}

func (fr *frame) polyOf(v value, k intKind) *Poly {
	if c, ok := v.(int64); ok && !k.signed && k.bits == 64 && c < 0 {
		return polyConst(new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(c))))
	}
	return intPoly(v)
}

func (fr *frame) binSym(op token.Token, t, ty types.Type, x, y value) value {
	p := fr.in.p
	k, ok := intKindOf(t)
	if !ok {
		p.unsupported("integer op on %s", t)
	}
	px := fr.polyOf(x, k)
	ky := k
	if op == token.SHL || op == token.SHR {
		ky, _ = intKindOf(ty)
	}
	py := fr.polyOf(y, ky)
	switch op {
	case token.ADD:
		return p.wrap(px.add(py), k)
	case token.SUB:
		return p.wrap(px.sub(py), k)
	case token.MUL:
		return p.wrap(px.mul(py), k)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return mkBool(sign(rfPoly(px.sub(py)), cmpMask(op)))
	case token.QUO, token.REM:
		if p.branch(sign(rfPoly(py), sZero)) {
			fr.rtPanic("integer divide by zero")
		}
		yc := fr.intOf(y)
		if k.bits == 64 && !k.signed && yc < 0 {
			p.unsupported("division by a huge unsigned constant")
		}
		q, r := fr.divmod(px, yc)
		if op == token.QUO {
			return p.wrap(q, k)
		}
		return mkInt(r)
	case token.SHL:
		n := fr.intOf(y)
		if n < 0 {
			fr.rtPanic("negative shift amount")
		}
		if n >= 64 {
			return int64(0)
		}
		return p.wrap(px.scale(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))), k)
	case token.SHR:
		n := fr.intOf(y)
		if n < 0 {
			fr.rtPanic("negative shift amount")
		}
		if n > 62 {
			return fr.binInt(op, t, ty, fr.intOf(x), n)
		}
		// floor division
		return mkInt(p.floorPoly(rfPoly(px).mul(rfConst(big.NewRat(1, 1<<uint(n))))))
	case token.AND:
		// x & (2^n-1) on a non-negative x
		if c, ok := y.(int64); ok && c > 0 && (c&(c+1)) == 0 && p.facts.polyMask(px)&sNeg == 0 {
			_, r := fr.divmod(px, c+1)
			return mkInt(r)
		}
		if c, ok := y.(int64); ok && c == 0 {
			return int64(0)
		}
	}
	return fr.binInt(op, t, ty, fr.intOf(x), fr.intOf(y))
}

// divmod is Go's truncated division of px by a non-zero constant.
func (fr *frame) divmod(px *Poly, c int64) (q, r *Poly) {
	p := fr.in.p
	if p.branch(sign(rfPoly(px), sNeg)) {
		q, r = fr.divmodPos(px.neg(), abs64(c))
		q, r = q.neg(), r.neg()
	} else {
		q, r = fr.divmodPos(px, abs64(c))
	}
	if c < 0 {
		q = q.neg()
	}
	return q, r
}

func (fr *frame) divmodPos(px *Poly, c int64) (q, r *Poly) {
	if c == 1 {
		return px, polyInt(0)
	}
	p := fr.in.p
	q = p.floorPoly(rfPoly(px).mul(rfConst(big.NewRat(1, c))))
	r = px.sub(q.scale(new(big.Rat).SetInt64(c)))
	// give the remainder its own bounded name when it is symbolic
	if _, ok := r.constVal(); !ok {
		key := "rem|" + r.key
		a, ok := p.uniq[key]
		if !ok {
			a = p.newAtom(p.fresh("rem"), true, new(big.Rat), new(big.Rat).SetInt64(c-1))
			p.axiom(sign(rfPoly(polyAtom(a).sub(r)), sZero))
			p.uniq[key] = a
		}
		r = polyAtom(a)
	}
	return q, r
}

func (fr *frame) conv(dst, src types.Type, x value) value {
	p := fr.in.p
	ud, us := dst.Underlying(), src.Underlying()
	switch us := us.(type) {
	case *types.Pointer:
		return x
	case *types.Slice:
		if b, ok := ud.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := x.([]value)
			eb := us.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return fr.bytesText(s)
			}
			rs := make([]rune, len(s))
			for i, v := range s {
				rs[i] = rune(fr.intOf(v))
			}
			return string(rs)
		}
		return x
	case *types.Basic:
		switch {
		case us.Info()&types.IsString != 0:
			s := x.(string)
			if sl, ok := ud.(*types.Slice); ok {
				if sl.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
					return bytesVal([]byte(s))
				}
				var r []value
				for _, c := range s {
					r = append(r, int64(c))
				}
				if r == nil {
					r = []value{}
				}
				return r
			}
			return s
		case us.Info()&types.IsInteger != 0:
			bd, ok := ud.(*types.Basic)
			if !ok {
				p.unsupported("conversion %s -> %s", src, dst)
			}
			ks, _ := intKindOf(us)
			switch {
			case bd.Info()&types.IsString != 0:
				return fr.charText(x)
			case bd.Info()&types.IsFloat != 0:
				return fin(rfPoly(fr.polyOf(x, ks)))
			case bd.Info()&types.IsInteger != 0:
				kd, _ := intKindOf(ud)
				if c, ok := x.(int64); ok {
					return kd.norm(c)
				}
				return p.wrap(intPoly(x), kd)
			case bd.Kind() == types.UnsafePointer:
				return (*value)(nil)
			}
		case us.Info()&types.IsFloat != 0:
			bd, ok := ud.(*types.Basic)
			if !ok {
				p.unsupported("conversion %s -> %s", src, dst)
			}
			if bd.Info()&types.IsFloat != 0 {
				return x
			}
			if bd.Info()&types.IsInteger != 0 {
				kd, _ := intKindOf(ud)
				return p.wrap(p.ftoi(x.(*Flt)), kd)
			}
		case us.Info()&types.IsComplex != 0:
			return x
		case us.Kind() == types.UnsafePointer:
			return x
		}
	}
	p.unsupported("conversion %s -> %s", src, dst)
	return nil
}

func bytesVal(b []byte) []value {
	r := make([]value, len(b))
	for i, c := range b {
		r[i] = int64(c)
	}
	return r
}

func (fr *frame) doAppend(st types.Type, a, b []value) value {
	if len(b) == 0 {
		return a
	}
	n := len(a) + len(b)
	if n > cap(a) {
		size := 8
		if sl, ok := st.Underlying().(*types.Slice); ok {
			size = int(sizes.Sizeof(sl.Elem()))
			c := growCap(size, len(a), cap(a), n)
			r := make([]value, c)
			copy(r, a)
			for i, v := range b {
				r[len(a)+i] = copyVal(v)
			}
			for i := n; i < c; i++ {
				r[i] = zero(sl.Elem())
			}
			return r[:n]
		}
	}
	// b may alias the tail of a
	tmp := make([]value, len(b))
	for i, v := range b {
		tmp[i] = copyVal(v)
	}
	r := a[:n]
	copy(r[len(a):], tmp)
	return r
}

var sizes = types.SizesFor("gc", "amd64")

func callBuiltin(fr *frame, fn *ssa.Builtin, args []value) value {
	p := fr.in.p
	switch fn.Name() {
	case "append":
		st := fn.Type().(*types.Signature).Params().At(0).Type()
		a, _ := args[0].([]value)
		if len(args) == 1 {
			return a
		}
		if s, ok := args[1].(string); ok {
			return fr.doAppend(st, a, bytesVal([]byte(s)))
		}
		return fr.doAppend(st, a, args[1].([]value))
	case "copy":
		d := args[0].([]value)
		var s []value
		if str, ok := args[1].(string); ok {
			s = bytesVal([]byte(str))
			if hasTok(str) && len(d) < len(s) {
				if cs, _, ok := fr.in.p.chars(str); ok {
					s = cs
				}
			}
		} else {
			s = args[1].([]value)
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			assign(&d[i], tmp[i])
		}
		return int64(n)
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for i := range x.ent {
					x.ent[i].dead = true
				}
				x.idx = map[string]int{}
				x.n = 0
			}
		case []value:
			et := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
		}
		return nil
	case "close":
		fr.in.closeChan(fr, args[0].(*Chan))
		return nil
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			kt := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Map).Key()
			ks, _ := p.hashKey(kt, args[1])
			fr.touchMap(m, true)
			m.del(ks)
		}
		return nil
	case "print", "println":
		return nil
	case "len":
		switch x := args[0].(type) {
		case string:
			return fr.in.p.strLen(x)
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case []value:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case []value:
			return int64(cap(x))
		case *Chan:
			return int64(x.cap)
		}
	case "min", "max":
		r := args[0]
		op := token.LSS
		if fn.Name() == "max" {
			op = token.GTR
		}
		t := fn.Type().(*types.Signature).Params().At(0).Type()
		for _, a := range args[1:] {
			if f, ok := r.(*Flt); ok && (f.k == kNaN || a.(*Flt).k == kNaN) {
				r = fltNaN
				continue
			}
			if fr.truth(fr.binop(op, t, t, a, r)) {
				r = a
			}
		}
		return r
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		c := fr
		if c != nil && !c.panicking && c.caller != nil && c.caller.panicking {
			c.caller.panicking = false
			tp := c.caller.panicv.(targetPanic)
			c.caller.panicv = nil
			if i, ok := tp.v.(iface); ok {
				return i
			}
			return iface{types.Typ[types.String], fmt.Sprint(tp.v)}
		}
		return iface{}
	case "real":
		return args[0].(complexV).re
	case "imag":
		return args[0].(complexV).im
	case "complex":
		return complexV{args[0].(*Flt), args[1].(*Flt)}
	case "ssa:wrapnilchk":
		if q, ok := args[0].(*value); ok && q == nil {
			fr.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return &fr.defers
	case "String", "StringData", "Slice", "SliceData", "Add":
		p.unsupported("unsafe.%s", fn.Name())
	}
	p.unsupported("builtin %s on %T", fn.Name(), args[0])
	return nil
}

var _ = bits.Len
