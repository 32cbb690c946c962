package main

// Models of encoding/binary on integers and of the few questions of reflection
// that readers of binary files ask.

import (
	"bytes"
	"go/types"
	"math/big"
)

// refVal is a reflect.Value as far as it is modelled.
type refVal struct{ x iface }

// readFull reads len(b) bytes from an io.Reader.
func (fr *frame) readFull(r iface, b []value) value {
	n := 0
	for n < len(b) {
		t := fr.callMethod(r, "Read", b[n:len(b):len(b)]).(tuple)
		k := int(fr.intOf(t[0]))
		n += k
		if n == len(b) {
			break
		}
		if e := t[1].(iface); e.t != nil {
			if n > 0 && e == fr.in.stdErr("io", "EOF").(iface) {
				return fr.in.stdErr("io", "ErrUnexpectedEOF")
			}
			return e
		}
	}
	return nilErr
}

// unsigned is the integer with the given bytes, the lowest first.
func (fr *frame) unsigned(b []value, t *types.Basic) value {
	k, _ := intKindOf(t)
	s := polyConst(new(big.Rat))
	for i, x := range b {
		c := new(big.Int).Lsh(big.NewInt(1), uint(8*i))
		s = s.add(intPoly(x).scale(new(big.Rat).SetInt(c)))
	}
	return fr.in.p.wrap(s, k)
}

func reversed(b []value) []value {
	r := make([]value, len(b))
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	return r
}

func registerBin() {
	reg := func(n string, f extFn) { externals[n] = f }
	for _, o := range []string{"littleEndian", "bigEndian"} {
		big := o == "bigEndian"
		for _, w := range []struct {
			n string
			k int
			t *types.Basic
		}{{"Uint16", 2, types.Typ[types.Uint16]}, {"Uint32", 4, types.Typ[types.Uint32]}, {"Uint64", 8, types.Typ[types.Uint64]}} {
			w := w
			reg("(encoding/binary."+o+")."+w.n, func(fr *frame, a []value) value {
				b := a[1].([]value)
				if len(b) < w.k {
					fr.in.targetPanicStr("runtime error: index out of range")
				}
				b = b[:w.k]
				if big {
					b = reversed(b)
				}
				return fr.unsigned(b, w.t)
			})
		}
	}
	reg("encoding/binary.Read", func(fr *frame, a []value) value {
		x := a[2].(iface)
		o := a[1].(iface)
		bigE := o.t != nil && o.t.String() == "encoding/binary.bigEndian"
		pt, ok := x.t.Underlying().(*types.Pointer)
		if !ok {
			fr.in.p.unsupported("binary.Read into %s", x.t)
		}
		q := fr.ptr(x.v)
		switch e := pt.Elem().Underlying().(type) {
		case *types.Basic:
			k, isInt := intKindOf(e)
			if !isInt {
				fr.in.p.unsupported("binary.Read into %s", x.t)
			}
			b := bytesVal(make([]byte, sizes.Sizeof(e)))
			if err := fr.readFull(a[0].(iface), b); err.(iface).t != nil {
				return err
			}
			if bigE {
				b = reversed(b)
			}
			v := fr.unsigned(b, types.Typ[types.Uint64])
			if c, ok := v.(int64); ok {
				*q = k.norm(c)
			} else {
				*q = fr.in.p.wrap(intPoly(v), k)
			}
			return nilErr
		case *types.Array, *types.Slice:
			var el types.Type
			var b []value
			switch e := e.(type) {
			case *types.Array:
				el, b = e.Elem(), []value((*q).(array))
			case *types.Slice:
				el, b = e.Elem(), (*q).([]value)
			}
			if bt, ok := el.Underlying().(*types.Basic); !ok || bt.Kind() != types.Uint8 {
				fr.in.p.unsupported("binary.Read into %s", x.t)
			}
			t := bytesVal(make([]byte, len(b)))
			if err := fr.readFull(a[0].(iface), t); err.(iface).t != nil {
				return err
			}
			copy(b, t)
			return nilErr
		}
		fr.in.p.unsupported("binary.Read into %s", x.t)
		return nil
	})
	reg("bytes.Index", func(fr *frame, a []value) value {
		return int64(bytes.Index(goBytes(fr, a[0]), goBytes(fr, a[1])))
	})
	reg("bytes.LastIndexByte", func(fr *frame, a []value) value {
		return int64(bytes.LastIndexByte(goBytes(fr, a[0]), byte(fr.intOf(a[1]))))
	})
	reg("reflect.ValueOf", func(fr *frame, a []value) value { return &refVal{a[0].(iface)} })
	reg("(reflect.Value).IsValid", func(fr *frame, a []value) value { return a[0].(*refVal).x.t != nil })
	reg("(reflect.Value).Kind", func(fr *frame, a []value) value {
		x := a[0].(*refVal).x
		if x.t == nil {
			return int64(0)
		}
		if _, ok := x.t.Underlying().(*types.Pointer); ok {
			return int64(22)
		}
		fr.in.p.unsupported("reflect.Value.Kind of %s", x.t)
		return nil
	})
	reg("(reflect.Value).IsNil", func(fr *frame, a []value) value {
		x := a[0].(*refVal).x
		p, ok := x.v.(*value)
		if !ok {
			fr.in.p.unsupported("reflect.Value.IsNil of %s", x.t)
		}
		return p == nil
	})
}
