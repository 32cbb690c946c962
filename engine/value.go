package main

// Values of the interpreted program.
//
//   integers        int64 (bit pattern for uint64) or *SInt
//   booleans        bool or *Formula
//   floats          *Flt
//   strings         string
//   pointers        *value (nil pointer: (*value)(nil))
//   structs/arrays  structure / array
//   slices          []value (nil slice: []value(nil))
//   maps            *Map
//   channels        *Chan
//   interfaces      iface
//   functions       *ssa.Function, *closure, *ssa.Builtin
//   tuples          tuple

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type value interface{}

type tuple []value
type structure []value
type array []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// bound native function value
type native struct {
	name string
	f    func(fr *frame, args []value) value
}

// SInt is a symbolic integer.
type SInt struct{ p *Poly }

func mkInt(p *Poly) value {
	if c, ok := p.constVal(); ok && c.IsInt() {
		if c.Num().IsInt64() {
			return c.Num().Int64()
		}
		return int64(c.Num().Uint64())
	}
	return &SInt{p}
}

func intPoly(v value) *Poly {
	switch v := v.(type) {
	case int64:
		return polyInt(v)
	case *SInt:
		return v.p
	}
	panic(fmt.Sprintf("intPoly: %T", v))
}

func formulaOf(v value) *Formula {
	switch v := v.(type) {
	case bool:
		return fBool(v)
	case *Formula:
		return v
	}
	panic(fmt.Sprintf("formulaOf: %T", v))
}

func mkBool(f *Formula) value {
	switch f.op {
	case fTrue:
		return true
	case fFalse:
		return false
	}
	return f
}

type intKind struct {
	bits   uint
	signed bool
}

func intKindOf(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	}
	return intKind{}, false
}

// norm wraps a concrete integer to the kind.
func (k intKind) norm(x int64) int64 {
	if k.bits == 64 {
		return x
	}
	if k.signed {
		s := 64 - k.bits
		return x << s >> s
	}
	return int64(uint64(x) & (1<<k.bits - 1))
}

func (k intKind) limits() (lo, hi *big.Rat) {
	one := big.NewInt(1)
	if k.signed {
		h := new(big.Int).Lsh(one, k.bits-1)
		return new(big.Rat).SetInt(new(big.Int).Neg(h)), new(big.Rat).SetInt(new(big.Int).Sub(h, one))
	}
	h := new(big.Int).Lsh(one, k.bits)
	return new(big.Rat), new(big.Rat).SetInt(new(big.Int).Sub(h, one))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref: " + t.String())
}

// zero returns a fresh zero value of type t.
func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			panic("untyped nil has no zero value")
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return fltZero
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case t.Info()&types.IsComplex != 0:
			return complexV{fltZero, fltZero}
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic("zero of type parameter")
	}
	panic(fmt.Sprintf("zero: unexpected %T", t))
}

type complexV struct{ re, im *Flt }

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case array:
		r := make(array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// assign stores v in *addr keeping the identity of sub-object addresses.
func assign(addr *value, v value) {
	switch v := v.(type) {
	case structure:
		if d, ok := (*addr).(structure); ok && len(d) == len(v) {
			// v may alias d
			t := copyVal(v).(structure)
			for i := range d {
				assign(&d[i], t[i])
			}
			return
		}
		*addr = copyVal(v)
	case array:
		if d, ok := (*addr).(array); ok && len(d) == len(v) {
			t := copyVal(v).(array)
			for i := range d {
				assign(&d[i], t[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

var constCache sync.Map

func constValue(c *ssa.Const) value {
	if v, ok := constCache.Load(c); ok {
		return v
	}
	v, share := constValue1(c)
	if share {
		constCache.Store(c, v)
	}
	return v
}

func constValue1(c *ssa.Const) (value, bool) {
	if c.Value == nil {
		return zero(c.Type()), false
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("constValue: %s", c))
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value), true
	case t.Info()&types.IsInteger != 0:
		if t.Info()&types.IsUnsigned != 0 {
			return int64(c.Uint64()), true
		}
		return c.Int64(), true
	case t.Info()&types.IsFloat != 0:
		return fltOf(c.Float64()), true
	case t.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value), true
		}
		return string(rune(c.Int64())), true
	case t.Info()&types.IsComplex != 0:
		z := c.Complex128()
		return complexV{fltOf(real(z)), fltOf(imag(z))}, true
	}
	panic(fmt.Sprintf("constValue: %s", c))
}

// ---- maps ----

type mapEntry struct {
	k, v value
	dead bool
}

// Map keeps insertion order; keys are concrete.
type Map struct {
	idx map[string]int
	ent []mapEntry
	n   int
}

func newMap() *Map { return &Map{idx: map[string]int{}} }

func (m *Map) get(k string) (value, bool) {
	if m == nil {
		return nil, false
	}
	if i, ok := m.idx[k]; ok {
		return m.ent[i].v, true
	}
	return nil, false
}

func (m *Map) set(ks string, k, v value) {
	if i, ok := m.idx[ks]; ok {
		m.ent[i].v = v
		return
	}
	m.idx[ks] = len(m.ent)
	m.ent = append(m.ent, mapEntry{k: k, v: v})
	m.n++
}

func (m *Map) del(ks string) {
	if m == nil {
		return
	}
	if i, ok := m.idx[ks]; ok {
		m.ent[i].dead = true
		m.ent[i].v = nil
		delete(m.idx, ks)
		m.n--
	}
}

// live lists the indices of the entries present.
func (m *Map) live() []int {
	var r []int
	for i := range m.ent {
		if !m.ent[i].dead {
			r = append(r, i)
		}
	}
	return r
}

// hashKey renders a concrete key; symbolic components are concretized.
func (p *Path) hashKey(t types.Type, v value) (string, value) {
	switch x := v.(type) {
	case int64:
		return fmt.Sprintf("i%d", x), x
	case *SInt:
		c := p.concretize(x.p)
		return fmt.Sprintf("i%d", c), c
	case bool:
		return fmt.Sprintf("b%v", x), x
	case *Formula:
		b := p.branch(x)
		return fmt.Sprintf("b%v", b), b
	case string:
		x = p.plain(x)
		return "s" + x, x
	case *Flt:
		if x.k == kFin || x.k == kLog {
			return fmt.Sprintf("f%d%s", x.k, x.r.key()), x
		}
		return fmt.Sprintf("f%d", x.k), x
	case *value:
		return fmt.Sprintf("p%x", uintptr(unsafe.Pointer(x))), x
	case *Chan:
		return fmt.Sprintf("c%x", uintptr(unsafe.Pointer(x))), x
	case iface:
		if x.t == nil {
			return "nil", x
		}
		if !types.Comparable(x.t) {
			p.in.targetPanicStr("runtime error: hash of unhashable type " + x.t.String())
		}
		s, w := p.hashKey(x.t, x.v)
		return "I" + typeKey(x.t) + ":" + s, iface{x.t, w}
	case structure:
		var sb strings.Builder
		r := make(structure, len(x))
		st := t.Underlying().(*types.Struct)
		for i := range x {
			s, w := p.hashKey(st.Field(i).Type(), x[i])
			fmt.Fprintf(&sb, "{%d:%s}", len(s), s)
			r[i] = w
		}
		return sb.String(), r
	case array:
		var sb strings.Builder
		r := make(array, len(x))
		et := t.Underlying().(*types.Array).Elem()
		for i := range x {
			s, w := p.hashKey(et, x[i])
			fmt.Fprintf(&sb, "[%d:%s]", len(s), s)
			r[i] = w
		}
		return sb.String(), r
	}
	p.unsupported("map key of type %T", v)
	return "", nil
}

var typeKeys sync.Map

func typeKey(t types.Type) string {
	if s, ok := typeKeys.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, nil)
	typeKeys.Store(t, s)
	return s
}

// equals builds the formula x == y.
func (p *Path) equals(t types.Type, x, y value) *Formula {
	switch x := x.(type) {
	case int64:
		if yc, ok := y.(int64); ok {
			return fBool(x == yc)
		}
		return sign(rfPoly(intPoly(y).sub(polyInt(x))), sZero)
	case *SInt:
		return sign(rfPoly(x.p.sub(intPoly(y))), sZero)
	case bool:
		if yb, ok := y.(bool); ok {
			return fBool(x == yb)
		}
		return iff(fBool(x), formulaOf(y))
	case *Formula:
		return iff(x, formulaOf(y))
	case *Flt:
		return p.fcmp(x, y.(*Flt), sZero)
	case string:
		ys, ok := y.(string)
		if !ok {
			p.unsupported("string comparison with %T", y)
		}
		if x == ys || x == "" || ys == "" {
			return fBool(x == ys)
		}
		return p.strEq(x, ys)
	case *value:
		return fBool(x == y.(*value))
	case *Chan:
		return fBool(x == y.(*Chan))
	case *Map:
		return fBool(x == y.(*Map))
	case []value:
		ys := y.([]value)
		return fBool((x == nil) == (ys == nil))
	case *ssa.Function:
		if yf, ok := y.(*ssa.Function); ok {
			return fBool((x == nil) == (yf == nil))
		}
		return fBool(x == nil && y == nil)
	case *closure, *native:
		if yf, ok := y.(*ssa.Function); ok && yf == nil {
			return fF
		}
		return fF
	case iface:
		yi, ok := y.(iface)
		if !ok {
			p.unsupported("interface comparison with %T", y)
		}
		if x.t == nil || yi.t == nil {
			return fBool(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return fF
		}
		if !types.Comparable(x.t) {
			p.in.targetPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return p.equals(x.t, x.v, yi.v)
	case structure:
		ys := y.(structure)
		f := fT
		st, _ := t.Underlying().(*types.Struct)
		for i := range x {
			if st != nil && st.Field(i).Name() == "_" {
				continue
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			f = and(f, p.equals(ft, x[i], ys[i]))
		}
		return f
	case array:
		ys := y.(array)
		f := fT
		for i := range x {
			f = and(f, p.equals(t.Underlying().(*types.Array).Elem(), x[i], ys[i]))
		}
		return f
	case complexV:
		yc := y.(complexV)
		return and(p.fcmp(x.re, yc.re, sZero), p.fcmp(x.im, yc.im, sZero))
	}
	p.unsupported("comparison of %T", x)
	return nil
}

// ---- slice growth ----

var growCache sync.Map

type growKey struct{ size, oldLen, oldCap, newLen int }

// growCap asks the real runtime what capacity append would give.
func growCap(size, oldLen, oldCap, newLen int) int {
	k := growKey{size, oldLen, oldCap, newLen}
	if c, ok := growCache.Load(k); ok {
		return c.(int)
	}
	if size <= 0 {
		return newLen
	}
	if newLen > 1<<20 {
		return newLen + newLen/4
	}
	var et reflect.Type
	switch {
	case size%8 == 0:
		et = reflect.ArrayOf(size/8, reflect.TypeOf(uint64(0)))
	default:
		et = reflect.ArrayOf(size, reflect.TypeOf(uint8(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), oldLen, oldCap)
	add := reflect.MakeSlice(reflect.SliceOf(et), newLen-oldLen, newLen-oldLen)
	c := reflect.AppendSlice(s, add).Cap()
	growCache.Store(k, c)
	return c
}
