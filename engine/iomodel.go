package main

// Models of fmt (formatting and scanning), encoding/gob and the file system.
// Symbolic numbers travel through text as opaque tokens \x01F<id>\x02 (float)
// and \x01I<id>\x02 (integer); gob messages as \x01G<id>\x02.

import (
	"errors"
	"fmt"
	"go/types"
	"io"
	"math/big"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type ftoken struct {
	f *Flt
	i *Poly
	g *gobSnap
}

func (p *Path) addToken(kind byte, t ftoken) string {
	p.tokens = append(p.tokens, t)
	return fmt.Sprintf("\x01%c%d\x02", kind, len(p.tokens)-1)
}

func (p *Path) parseToken(s string) (byte, ftoken, bool) {
	if len(s) < 4 || s[0] != 1 || s[len(s)-1] != 2 {
		return 0, ftoken{}, false
	}
	n, err := strconv.Atoi(s[2 : len(s)-1])
	if err != nil || n < 0 || n >= len(p.tokens) {
		return 0, ftoken{}, false
	}
	return s[1], p.tokens[n], true
}

// tokenFloat reads a float token (or an integer token) back.
func (p *Path) tokenFloat(s string) (*Flt, bool) {
	k, t, ok := p.parseToken(strings.TrimSpace(s))
	if !ok {
		if strings.ContainsRune(s, 1) {
			p.unsupported("number parsed from a composite symbolic text")
		}
		return nil, false
	}
	switch k {
	case 'F':
		return t.f, true
	case 'I':
		return fin(rfPoly(t.i)), true
	}
	return nil, false
}

func (p *Path) tokenInt(s string) (value, bool) {
	k, t, ok := p.parseToken(s)
	if !ok {
		if strings.ContainsRune(s, 1) {
			p.unsupported("number parsed from a composite symbolic text")
		}
		return nil, false
	}
	if k == 'I' {
		return &SInt{t.i}, true
	}
	p.unsupported("integer parsed from the text of a symbolic float")
	return nil, false
}

// plain replaces integer tokens of a string by concrete digits (forking) when
// the program looks at the characters.
func (p *Path) plain(s string) string {
	if !strings.ContainsRune(s, 1) {
		return s
	}
	var sb strings.Builder
	for i := 0; i < len(s); {
		if s[i] != 1 {
			sb.WriteByte(s[i])
			i++
			continue
		}
		j := strings.IndexByte(s[i:], 2)
		if j < 0 {
			p.unsupported("broken symbolic text")
		}
		k, t, ok := p.parseToken(s[i : i+j+1])
		if ok && k == 'C' {
			sb.WriteByte(byte(p.concretize(t.i)))
			i += j + 1
			continue
		}
		if !ok || k != 'I' {
			p.unsupported("text of a symbolic float inspected")
		}
		sb.WriteString(strconv.FormatInt(p.concretize(t.i), 10))
		i += j + 1
	}
	return sb.String()
}

// floatToken is the text of a symbolic float in the given format.
func (p *Path) floatToken(x *Flt, verb byte, prec int) string {
	x = p.splitLogDiv(x)
	switch x.k {
	case kPInf:
		return "+Inf"
	case kNInf:
		return "-Inf"
	case kNaN:
		return "NaN"
	}
	if f, ok := x.concrete(); ok && (prec >= 0 || x.exact(f)) {
		return strconv.FormatFloat(f, verb, prec, 64)
	}
	// an exact real that no float64 represents travels as a token
	if prec < 0 {
		return p.addToken('F', ftoken{f: x})
	}
	r := p.toFin(x)
	switch verb {
	case 'f', 'F':
		sc := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil))
		// |x*10^p - k| <= 1/2
		k := p.newAtom(p.fresh("fmtk"), true, nil, nil)
		d := r.mul(rfRat(sc)).sub(rfAtom(k))
		half := rfRat(big.NewRat(1, 2))
		p.axiom(and(sign(d.sub(half), sNeg|sZero), sign(d.add(half), sPos|sZero)))
		return p.addToken('F', ftoken{f: fin(rfAtom(k).mul(rfRat(new(big.Rat).Inv(sc))))})
	case 'e', 'E', 'g', 'G':
		n := prec
		if verb == 'g' || verb == 'G' {
			n--
		}
		if n < 0 {
			n = 0
		}
		eps := new(big.Rat).Inv(new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)))
		y := p.newAtom(p.fresh("fmtr"), false, nil, nil)
		// y = x(1+d), |d| <= eps/2
		dl := p.newAtom(p.fresh("fmtd"), false, new(big.Rat).Neg(eps), eps)
		p.axiom(sign(rfAtom(y).sub(r.mul(rfOne.add(rfAtom(dl)))), sZero))
		return p.addToken('F', ftoken{f: fin(rfAtom(y))})
	}
	p.unsupported("format %%%c of a symbolic float", verb)
	return ""
}

func rfRat(c *big.Rat) *RF { return rfConst(c) }

// ---- formatting ----

func (fr *frame) sprintf(format string, args []value) string {
	var sb strings.Builder
	ai := 0
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			sb.WriteByte(c)
			i++
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j < len(format) && (format[j] == '*' || format[j] == '[') {
			fr.in.p.unsupported("format %q", format)
		}
		if j >= len(format) {
			sb.WriteString("%!(NOVERB)")
			break
		}
		_, w := utf8.DecodeRuneInString(format[j:])
		spec := format[i : j+w]
		verb := format[j]
		i = j + w
		if verb == '%' {
			sb.WriteByte('%')
			continue
		}
		if ai >= len(args) {
			sb.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		sb.WriteString(fr.format1(spec, verb, args[ai]))
		ai++
	}
	if ai < len(args) {
		sb.WriteString("%!(EXTRA ")
		for k, a := range args[ai:] {
			if k > 0 {
				sb.WriteString(", ")
			}
			x := a.(iface)
			if x.t != nil {
				sb.WriteString(x.t.String() + "=")
			}
			sb.WriteString(fr.format1("%v", 'v', a))
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// format1 formats one operand.
func (fr *frame) format1(spec string, verb byte, a value) string { return fr.formatOp(spec, verb, a, true) }

func (fr *frame) formatOp(spec string, verb byte, a value, top bool) string {
	x, ok := a.(iface)
	if !ok {
		fr.in.p.unsupported("format operand %T", a)
	}
	if x.t == nil {
		return fmt.Sprintf(spec, nil)
	}
	if verb == 'T' {
		return fmt.Sprintf(spec[:len(spec)-1]+"s", types.TypeString(x.t, func(p *types.Package) string { return p.Name() }))
	}
	if strings.Contains(spec, "#") && verb == 'v' {
		fr.in.p.unsupported("format %q", spec)
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if fr.hasMethod(x, "Error") {
			return fmt.Sprintf(spec, fr.callMethod(x, "Error").(string))
		}
		if fr.hasMethod(x, "String") {
			return fmt.Sprintf(spec, fr.callMethod(x, "String").(string))
		}
	}
	return fr.formatVal(spec, verb, x.t, x.v, top)
}

func (fr *frame) formatVal(spec string, verb byte, t types.Type, v value, top bool) string {
	p := fr.in.p
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch v := v.(type) {
		case bool:
			return fmt.Sprintf(spec, v)
		case *Formula:
			return fmt.Sprintf(spec, fr.truth(v))
		case string:
			return fmt.Sprintf(spec, v)
		case int64:
			if k, ok := intKindOf(u); ok && !k.signed {
				return fmt.Sprintf(spec, uint64(v))
			}
			return fmt.Sprintf(spec, v)
		case *SInt:
			if spec == "%d" || spec == "%v" {
				return p.addToken('I', ftoken{i: v.p})
			}
			if spec == "%c" {
				return fr.charText(v)
			}
			return fmt.Sprintf(spec, fr.intOf(v))
		case *Flt:
			if f, ok := v.concrete(); ok {
				shortest := (verb == 'v' || verb == 'g' || verb == 'G') && !strings.Contains(spec, ".")
				if !shortest || v.k != kFin || v.exact(f) {
					return fmt.Sprintf(spec, f)
				}
			}
			body := spec[1 : len(spec)-1]
			prec := -1
			if k := strings.IndexByte(body, '.'); k >= 0 {
				n, err := strconv.Atoi("0" + body[k+1:])
				if err != nil {
					p.unsupported("format %q", spec)
				}
				prec = n
			}
			vb := verb
			if vb == 'v' {
				vb = 'g'
			}
			if prec < 0 && vb != 'g' && vb != 'G' {
				prec = 6
			}
			return p.floatToken(v, vb, prec)
		}
	case *types.Slice, *types.Array:
		var el []value
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			el, _ = v.([]value)
			et = s.Elem()
		} else {
			el = []value(v.(array))
			et = u.(*types.Array).Elem()
		}
		if verb == 's' || verb == 'x' || verb == 'q' {
			if k, ok := intKindOf(et); ok && k.bits == 8 {
				return fmt.Sprintf(spec, goBytes(fr, el))
			}
		}
		var r []string
		for _, x := range el {
			r = append(r, fr.formatElem(spec, verb, et, x))
		}
		return "[" + strings.Join(r, " ") + "]"
	case *types.Map:
		m, _ := v.(*Map)
		if m == nil {
			return "map[]"
		}
		var r []string
		keys := append([]int{}, m.live()...)
		sort.SliceStable(keys, func(i, j int) bool {
			a, aok := m.ent[keys[i]].k.(int64)
			b, bok := m.ent[keys[j]].k.(int64)
			if aok && bok {
				return a < b
			}
			return fmt.Sprint(m.ent[keys[i]].k) < fmt.Sprint(m.ent[keys[j]].k)
		})
		for _, k := range keys {
			r = append(r, fr.formatElem(spec, verb, u.Key(), m.ent[k].k)+":"+fr.formatElem(spec, verb, u.Elem(), m.ent[k].v))
		}
		return "map[" + strings.Join(r, " ") + "]"
	case *types.Interface:
		return fr.format1(spec, verb, v)
	case *types.Pointer:
		q, _ := v.(*value)
		if q == nil {
			return "<nil>"
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			if top && (verb == 'v' || verb == 's' || verb == 'd') {
				return "&" + fr.formatVal(spec, verb, u.Elem(), *q, false)
			}
		}
		return "0xc000010000"
	case *types.Signature, *types.Chan:
		return "0xc000010000"
	case *types.Struct:
		s := v.(structure)
		var r []string
		for i := range s {
			n := ""
			if strings.Contains(spec, "+") && verb == 'v' {
				n = u.Field(i).Name() + ":"
			}
			r = append(r, n+fr.formatElem(spec, verb, u.Field(i).Type(), s[i]))
		}
		return "{" + strings.Join(r, " ") + "}"
	}
	p.unsupported("format %s of %s", spec, t)
	return ""
}

func (fr *frame) formatElem(spec string, verb byte, t types.Type, v value) string {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return fr.formatOp(spec, verb, v, false)
	}
	return fr.formatOp(spec, verb, iface{t, v}, false)
}

func (fr *frame) sprint(args []value, ln bool) string {
	var sb strings.Builder
	prevStr := true
	for i, a := range args {
		x, _ := a.(iface)
		isStr := false
		if x.t != nil {
			_, isStr = x.v.(string)
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			sb.WriteByte(' ')
		}
		sb.WriteString(fr.format1("%v", 'v', a))
		prevStr = isStr
	}
	if ln {
		sb.WriteByte('\n')
	}
	return sb.String()
}

func variadic(v value) []value {
	s, _ := v.([]value)
	return s
}

// writeTo writes text to an io.Writer of the program.
func (fr *frame) writeTo(w value, s string) value {
	x := w.(iface)
	if x.t == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	return fr.callMethod(x, "Write", bytesVal([]byte(s)))
}

// ---- scanning ----

type scanErr struct{ err error }

// readAdapter lets the real fmt scanner read from a reader of the program.
type readAdapter struct {
	fr *frame
	x  iface
}

func (r *readAdapter) Read(b []byte) (int, error) {
	buf := bytesVal(make([]byte, len(b)))
	t := r.fr.callMethod(r.x, "Read", buf).(tuple)
	n := int(r.fr.intOf(t[0]))
	for i := 0; i < n; i++ {
		b[i] = byte(r.fr.intOf(buf[i]))
	}
	return n, r.fr.goErr(t[1])
}

type runeAdapter struct{ readAdapter }

func (r *runeAdapter) ReadRune() (rune, int, error) {
	t := r.fr.callMethod(r.x, "ReadRune").(tuple)
	return rune(r.fr.intOf(t[0])), int(r.fr.intOf(t[1])), r.fr.goErr(t[2])
}

func (r *runeAdapter) UnreadRune() error {
	return r.fr.goErr(r.fr.callMethod(r.x, "UnreadRune"))
}

// goErr converts an error of the program; io.EOF keeps its identity.
func (fr *frame) goErr(v value) error {
	x := v.(iface)
	if x.t == nil {
		return nil
	}
	if eof, ok := fr.in.stdErr("io", "EOF").(iface); ok && eof.v == x.v {
		return io.EOF
	}
	return errors.New(fr.callMethod(x, "Error").(string))
}

func (fr *frame) errOf(err error) value {
	switch err {
	case nil:
		return nilErr
	case io.EOF:
		return fr.in.stdErr("io", "EOF")
	case io.ErrUnexpectedEOF:
		return fr.in.stdErr("io", "ErrUnexpectedEOF")
	}
	return fr.in.errVal(err.Error())
}

type numScan struct {
	fr  *frame
	dst *value
	t   types.Type
}

func (n *numScan) Scan(s fmt.ScanState, verb rune) error {
	s.SkipSpace()
	r, _, err := s.ReadRune()
	if err != nil {
		if err == io.EOF {
			return io.ErrUnexpectedEOF
		}
		return err
	}
	p := n.fr.in.p
	if r == 1 {
		tok := []rune{r}
		for {
			r, _, err := s.ReadRune()
			if err != nil {
				return err
			}
			tok = append(tok, r)
			if r == 2 {
				break
			}
		}
		if isFloat(n.t) {
			f, ok := p.tokenFloat(string(tok))
			if !ok {
				return errors.New("bad token")
			}
			*n.dst = f
			return nil
		}
		// digits or further symbolic digits may follow immediately
		open := false
		for {
			r, _, err := s.ReadRune()
			if err != nil {
				break
			}
			if !open && r != 1 && (r < '0' || r > '9') {
				s.UnreadRune()
				break
			}
			open = r == 1 || open && r != 2
			tok = append(tok, r)
		}
		v, err := p.textInt(string(tok))
		if err != nil {
			return err
		}
		*n.dst = v
		return nil
	}
	s.UnreadRune()
	if isFloat(n.t) {
		switch verb {
		case 'e', 'E', 'f', 'F', 'g', 'G', 'v':
		default:
			return errors.New("bad verb '%" + string(verb) + "' for float64")
		}
		b, err := s.Token(false, func(r rune) bool { return strings.ContainsRune("+-0123456789._eEpPxXaAbBcCdDfFnNiItTyY", r) })
		if err != nil {
			return err
		}
		f, err := strconv.ParseFloat(string(b), 64)
		if err != nil {
			return err
		}
		*n.dst = fltOf(f)
		return nil
	}
	switch verb {
	case 'd', 'v':
	default:
		p.unsupported("scanning an integer with %%%c", verb)
	}
	first := true
	b, err := s.Token(false, func(r rune) bool {
		ok := (r >= '0' && r <= '9') || r == '_' && !first || first && (r == '+' || r == '-')
		first = false
		return ok
	})
	if err != nil {
		return err
	}
	k, _ := intKindOf(n.t)
	if len(b) == 0 {
		return errors.New("expected integer")
	}
	if k.signed {
		i, err := strconv.ParseInt(string(b), 10, int(k.bits))
		if err != nil {
			return err
		}
		*n.dst = i
		return nil
	}
	i, err := strconv.ParseUint(string(b), 10, int(k.bits))
	if err != nil {
		return err
	}
	*n.dst = int64(i)
	return nil
}

// scan runs the real scanner with adapted destinations.
func (fr *frame) scan(args []value, run func(dst []any) (int, error)) value {
	var dst []any
	type back struct {
		p *value
		s *string
	}
	var strs []back
	for _, a := range args {
		x := a.(iface)
		pt, ok := x.t.Underlying().(*types.Pointer)
		if !ok {
			fr.in.p.unsupported("scan destination %s", x.t)
		}
		q := fr.ptr(x.v)
		b, ok := pt.Elem().Underlying().(*types.Basic)
		if !ok {
			fr.in.p.unsupported("scan destination %s", x.t)
		}
		switch {
		case b.Info()&types.IsString != 0:
			s := new(string)
			strs = append(strs, back{q, s})
			*s = (*q).(string)
			dst = append(dst, s)
		case b.Info()&(types.IsInteger|types.IsFloat) != 0:
			dst = append(dst, &numScan{fr, q, pt.Elem()})
		default:
			fr.in.p.unsupported("scan destination %s", x.t)
		}
	}
	n, err := run(dst)
	for _, b := range strs {
		*b.p = *b.s
	}
	return tuple{int64(n), fr.errOf(err)}
}

func (fr *frame) reader(v value) io.Reader {
	x := v.(iface)
	if x.t == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	if fr.hasMethod(x, "ReadRune") && fr.hasMethod(x, "UnreadRune") {
		return &runeAdapter{readAdapter{fr, x}}
	}
	return &readAdapter{fr, x}
}

// ---- gob ----

type gobSnap struct {
	t  types.Type // dynamic type for interfaces
	v  value
	el []*gobSnap
	ks []*gobSnap
	b  []value
}

type gobStream struct{ x iface }

func (fr *frame) gobMethod(t types.Type, v value, name string) (iface, bool) {
	x := iface{t, v}
	if fr.hasMethod(x, name) {
		return x, true
	}
	return iface{}, false
}

func (fr *frame) gobEnc(t types.Type, v value) *gobSnap {
	if _, isI := t.Underlying().(*types.Interface); isI {
		x := v.(iface)
		if x.t == nil {
			fr.in.p.unsupported("gob: nil interface")
		}
		return &gobSnap{t: x.t, el: []*gobSnap{fr.gobEnc(x.t, x.v)}}
	}
	if x, ok := fr.gobMethod(t, v, "GobEncode"); ok {
		r := fr.callMethod(x, "GobEncode").(tuple)
		if r[1].(iface).t != nil {
			panic(gobErr{r[1]})
		}
		return &gobSnap{b: append([]value{}, r[0].([]value)...)}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q := v.(*value)
		if q == nil {
			fr.in.targetPanicStr("gob: cannot encode nil pointer of type " + t.String())
		}
		return fr.gobEnc(u.Elem(), *q)
	case *types.Basic:
		return &gobSnap{v: v}
	case *types.Slice:
		s := &gobSnap{}
		l, _ := v.([]value)
		for _, x := range l {
			s.el = append(s.el, fr.gobEnc(u.Elem(), x))
		}
		return s
	case *types.Map:
		s := &gobSnap{}
		if m, _ := v.(*Map); m != nil {
			for _, i := range m.live() {
				s.ks = append(s.ks, fr.gobEnc(u.Key(), m.ent[i].k))
				s.el = append(s.el, fr.gobEnc(u.Elem(), m.ent[i].v))
			}
		}
		return s
	case *types.Struct:
		s := &gobSnap{}
		n := 0
		for i, f := range v.(structure) {
			if u.Field(i).Exported() {
				n++
				s.el = append(s.el, fr.gobEnc(u.Field(i).Type(), f))
			} else {
				s.el = append(s.el, nil)
			}
		}
		if n == 0 {
			panic(gobErr{fr.in.errVal("gob: type " + t.String() + " has no exported fields")})
		}
		return s
	}
	fr.in.p.unsupported("gob: encoding %s", t)
	return nil
}

type gobErr struct{ e value }

func (fr *frame) gobDec(t types.Type, dst *value, s *gobSnap) {
	bad := func() {
		panic(gobErr{fr.in.errVal("gob: type mismatch decoding " + t.String())})
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		if s.t == nil {
			bad()
		}
		v := value(zero(s.t))
		fr.gobDec(s.t, &v, s.el[0])
		*dst = iface{s.t, v}
		return
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if q, _ := (*dst).(*value); q == nil {
			nv := zero(pt.Elem())
			*dst = &nv
		}
	}
	if fr.hasMethod(iface{t, nil}, "GobDecode") || fr.hasMethod(iface{types.NewPointer(t), nil}, "GobDecode") {
		if s.b == nil && s.el != nil {
			bad()
		}
		x := iface{t, *dst}
		if !fr.hasMethod(x, "GobDecode") {
			x = iface{types.NewPointer(t), dst}
		}
		data := append([]value{}, s.b...)
		if e := fr.callMethod(x, "GobDecode", data).(iface); e.t != nil {
			panic(gobErr{e})
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		fr.gobDec(u.Elem(), (*dst).(*value), s)
	case *types.Basic:
		if s.v == nil {
			bad()
		}
		*dst = s.v
	case *types.Slice:
		r := make([]value, len(s.el))
		for i, x := range s.el {
			r[i] = zero(u.Elem())
			fr.gobDec(u.Elem(), &r[i], x)
		}
		*dst = r
	case *types.Map:
		m := newMap()
		for i := range s.el {
			k, v := zero(u.Key()), zero(u.Elem())
			fr.gobDec(u.Key(), &k, s.ks[i])
			fr.gobDec(u.Elem(), &v, s.el[i])
			h, k2 := fr.in.p.hashKey(u.Key(), k)
			m.set(h, k2, v)
		}
		*dst = m
	case *types.Struct:
		st := (*dst).(structure)
		for i, x := range s.el {
			if x != nil && i < len(st) {
				fr.gobDec(u.Field(i).Type(), &st[i], x)
			}
		}
	default:
		fr.in.p.unsupported("gob: decoding %s", t)
	}
}

func catchGob(f func()) (e value) {
	e = nilErr
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(gobErr); ok {
				e = g.e
				return
			}
			panic(r)
		}
	}()
	f()
	return
}

// ---- file system ----

type memNode struct {
	dir  bool
	seq  int
	data []value
}

type memFile struct {
	name   string
	n      *memNode
	off    int
	std    bool
	closed bool
	app    bool // opened for appending
	ro, wo bool // opened for reading, for writing only
}

type memStat struct {
	name string
	n    *memNode
}

func (in *interp) fs() map[string]*memNode {
	m, ok := in.aux["fs"].(map[string]*memNode)
	if !ok {
		m = map[string]*memNode{"/": {dir: true}, "/nd-temp": {dir: true}, "/cwd": {dir: true}}
		in.aux["fs"] = m
	}
	return m
}

// abs is the full name of a file; the working directory starts as /cwd.
func (in *interp) abs(s string) string {
	if !filepath.IsAbs(s) {
		if in.cwd == "" {
			s = "/cwd/" + s
		} else {
			s = in.cwd + "/" + s
		}
	}
	return filepath.Clean(s)
}

func (fr *frame) openFile(name string, create, trunc bool) value {
	in := fr.in
	name = fr.in.abs(in.p.plain(name))
	m := in.fs()
	n, ok := m[name]
	if !ok {
		d, dok := m[filepath.Dir(name)]
		if !create || !dok || !d.dir {
			return tuple{(*value)(nil), in.pathErr("open", name, "ErrNotExist", "no such file or directory")}
		}
		n = &memNode{seq: len(m)}
		m[name] = n
	}
	if create && n.dir {
		return tuple{(*value)(nil), in.pathErr("open", name, "", "is a directory")}
	}
	if trunc {
		n.data = nil
	}
	v := value(&memFile{name: name, n: n, ro: !create})
	return tuple{&v, nilErr}
}

func (fr *frame) file(v value) *memFile {
	q := fr.ptr(v)
	if f, ok := (*q).(*memFile); ok {
		return f
	}
	return &memFile{std: true, n: &memNode{}}
}

func registerIO() {
	reg := func(n string, f extFn) { externals[n] = f }
	reg("fmt.Sprintf", func(fr *frame, a []value) value { return fr.sprintf(str(a[0]), variadic(a[1])) })
	reg("fmt.Sprint", func(fr *frame, a []value) value { return fr.sprint(variadic(a[0]), false) })
	reg("fmt.Sprintln", func(fr *frame, a []value) value { return fr.sprint(variadic(a[0]), true) })
	reg("fmt.Errorf", func(fr *frame, a []value) value {
		return fr.in.errVal(fr.sprintf(strings.ReplaceAll(str(a[0]), "%w", "%v"), variadic(a[1])))
	})
	reg("fmt.Fprintf", func(fr *frame, a []value) value { return fr.writeTo(a[0], fr.sprintf(str(a[1]), variadic(a[2]))) })
	reg("fmt.Fprint", func(fr *frame, a []value) value { return fr.writeTo(a[0], fr.sprint(variadic(a[1]), false)) })
	reg("fmt.Fprintln", func(fr *frame, a []value) value { return fr.writeTo(a[0], fr.sprint(variadic(a[1]), true)) })
	reg("fmt.Sscanf", func(fr *frame, a []value) value {
		return fr.scan(variadic(a[2]), func(d []any) (int, error) { return fmt.Sscanf(str(a[0]), str(a[1]), d...) })
	})
	reg("fmt.Sscan", func(fr *frame, a []value) value {
		return fr.scan(variadic(a[1]), func(d []any) (int, error) { return fmt.Sscan(str(a[0]), d...) })
	})
	reg("fmt.Sscanln", func(fr *frame, a []value) value {
		return fr.scan(variadic(a[1]), func(d []any) (int, error) { return fmt.Sscanln(str(a[0]), d...) })
	})
	reg("fmt.Fscanf", func(fr *frame, a []value) value {
		return fr.scan(variadic(a[2]), func(d []any) (int, error) { return fmt.Fscanf(fr.reader(a[0]), str(a[1]), d...) })
	})
	reg("fmt.Fscan", func(fr *frame, a []value) value {
		return fr.scan(variadic(a[1]), func(d []any) (int, error) { return fmt.Fscan(fr.reader(a[0]), d...) })
	})
	reg("fmt.Fscanln", func(fr *frame, a []value) value {
		return fr.scan(variadic(a[1]), func(d []any) (int, error) { return fmt.Fscanln(fr.reader(a[0]), d...) })
	})
	reg("(*strings.Builder).String", nil)
	delete(externals, "(*strings.Builder).String")

	// gob
	reg("encoding/gob.Register", func(fr *frame, a []value) value { return nil })
	reg("encoding/gob.NewEncoder", func(fr *frame, a []value) value {
		v := value(&gobStream{a[0].(iface)})
		return &v
	})
	externals["encoding/gob.NewDecoder"] = externals["encoding/gob.NewEncoder"]
	reg("(*encoding/gob.Encoder).Encode", func(fr *frame, a []value) value {
		g := (*fr.ptr(a[0])).(*gobStream)
		x := a[1].(iface)
		if x.t == nil {
			return fr.in.errVal("gob: cannot encode nil value")
		}
		return catchGob(func() {
			s := fr.gobEnc(x.t, x.v)
			t := fr.in.p.addToken('G', ftoken{g: s})
			r := fr.writeTo(g.x, t).(tuple)
			if r[1].(iface).t != nil {
				panic(gobErr{r[1]})
			}
		})
	})
	reg("(*encoding/gob.Decoder).Decode", func(fr *frame, a []value) value {
		g := (*fr.ptr(a[0])).(*gobStream)
		x := a[1].(iface)
		pt, ok := x.t.Underlying().(*types.Pointer)
		if !ok {
			return fr.in.errVal("gob: attempt to decode into a non-pointer")
		}
		return catchGob(func() {
			var tok []byte
			for {
				b := bytesVal(make([]byte, 1))
				r := fr.callMethod(g.x, "Read", b).(tuple)
				if fr.intOf(r[0]) == 0 {
					if e := r[1].(iface); e.t != nil {
						if len(tok) > 0 {
							e = fr.in.stdErr("io", "ErrUnexpectedEOF").(iface)
						}
						panic(gobErr{e})
					}
					continue
				}
				tok = append(tok, byte(fr.intOf(b[0])))
				if tok[0] != 1 || (len(tok) == 2 && tok[1] != 'G') {
					panic(gobErr{fr.in.errVal("gob: unknown message")})
				}
				if tok[len(tok)-1] == 2 {
					break
				}
			}
			k, t, ok := fr.in.p.parseToken(string(tok))
			if !ok || k != 'G' {
				panic(gobErr{fr.in.errVal("gob: unknown message")})
			}
			fr.gobDec(pt.Elem(), fr.ptr(x.v), t.g)
		})
	})

	// files
	reg("os.Open", func(fr *frame, a []value) value { return fr.openFile(str(a[0]), false, false) })
	reg("os.Create", func(fr *frame, a []value) value { return fr.openFile(str(a[0]), true, true) })
	reg("os.ReadFile", func(fr *frame, a []value) value {
		name := fr.in.abs(fr.in.p.plain(str(a[0])))
		n, ok := fr.in.fs()[name]
		if !ok || n.dir {
			return tuple{[]value(nil), fr.in.pathErr("open", name, "ErrNotExist", "no such file or directory")}
		}
		return tuple{append([]value{}, n.data...), nilErr}
	})
	externals["io/ioutil.ReadFile"] = externals["os.ReadFile"]
	reg("os.WriteFile", func(fr *frame, a []value) value {
		t := fr.openFile(str(a[0]), true, true).(tuple)
		if t[1].(iface).t != nil {
			return t[1]
		}
		f := fr.file(t[0])
		f.n.data = append([]value{}, a[1].([]value)...)
		return nilErr
	})
	externals["io/ioutil.WriteFile"] = externals["os.WriteFile"]
	mkdir := func(fr *frame, a []value) value {
		d := fr.in.abs(fr.in.p.plain(str(a[0])))
		var todo []string
		for ; d != "/"; d = filepath.Dir(d) {
			if fr.in.fs()[d] == nil {
				todo = append(todo, d)
			}
		}
		for i := len(todo) - 1; i >= 0; i-- {
			fr.in.fs()[todo[i]] = &memNode{dir: true, seq: len(fr.in.fs())}
		}
		return nilErr
	}
	reg("os.Mkdir", mkdir)
	reg("os.MkdirAll", mkdir)
	reg("os.Remove", func(fr *frame, a []value) value { delete(fr.in.fs(), fr.in.abs(str(a[0]))); return nilErr })
	reg("os.RemoveAll", func(fr *frame, a []value) value { delete(fr.in.fs(), fr.in.abs(str(a[0]))); return nilErr })
	reg("os.Chdir", func(fr *frame, a []value) value {
		d := fr.in.abs(fr.in.p.plain(str(a[0])))
		if n := fr.in.fs()[d]; d != "/cwd" && (n == nil || !n.dir) {
			return fr.in.pathErr("chdir", d, "ErrNotExist", "no such file or directory")
		}
		fr.in.cwd = d
		return nilErr
	})
	reg("os.Getwd", func(fr *frame, a []value) value { return tuple{fr.in.abs("."), nilErr} })
	reg("os.Stat", func(fr *frame, a []value) value {
		n := fr.in.fs()[fr.in.abs(fr.in.p.plain(str(a[0])))]
		if n == nil {
			return tuple{iface{}, fr.in.pathErr("stat", str(a[0]), "ErrNotExist", "no such file or directory")}
		}
		pk := fr.in.e.pkgs["os"]
		if pk == nil || pk.Type("fileStat") == nil {
			fr.in.p.unsupported("os.Stat of an existing file")
		}
		v := value(&memStat{filepath.Base(fr.in.abs(str(a[0]))), n})
		return tuple{iface{types.NewPointer(pk.Type("fileStat").Type()), &v}, nilErr}
	})
	stat := func(fr *frame, v value) *memStat { return (*fr.ptr(v)).(*memStat) }
	reg("reflect.TypeOf", func(fr *frame, a []value) value {
		x, ok := a[0].(iface)
		if !ok || x.t == nil {
			return iface{}
		}
		pk := fr.in.e.pkgs["reflect"]
		if pk == nil || pk.Type("rtype") == nil {
			fr.in.p.unsupported("reflect.TypeOf")
		}
		key := "reflect " + types.TypeString(x.t, nil)
		if fr.in.p.objs == nil {
			fr.in.p.objs = map[string]*value{}
		}
		o, ok := fr.in.p.objs[key]
		if !ok {
			v := value(&typeObj{x.t})
			o = &v
			fr.in.p.objs[key] = o
		}
		return iface{types.NewPointer(pk.Type("rtype").Type()), o}
	})
	typeOf := func(fr *frame, v value) types.Type { return (*fr.ptr(v)).(*typeObj).t }
	reg("(*reflect.rtype).String", func(fr *frame, a []value) value {
		return types.TypeString(typeOf(fr, a[0]), func(p *types.Package) string { return p.Name() })
	})
	reg("(*reflect.rtype).Name", func(fr *frame, a []value) value {
		if n, ok := types.Unalias(typeOf(fr, a[0])).(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := typeOf(fr, a[0]).(*types.Basic); ok {
			return b.Name()
		}
		return ""
	})
	reg("(*reflect.rtype).Elem", func(fr *frame, a []value) value {
		p, ok := typeOf(fr, a[0]).Underlying().(*types.Pointer)
		if !ok {
			fr.in.p.unsupported("reflect.Type.Elem of %s", typeOf(fr, a[0]))
		}
		return externals["reflect.TypeOf"](fr, []value{iface{p.Elem(), nil}})
	})
	reg("(*os.fileStat).IsDir", func(fr *frame, a []value) value { return stat(fr, a[0]).n.dir })
	reg("(*os.fileStat).Name", func(fr *frame, a []value) value { return stat(fr, a[0]).name })
	reg("(*os.fileStat).Size", func(fr *frame, a []value) value { return int64(len(stat(fr, a[0]).n.data)) })
	// newest entry first, as tmpfs does (the replays keep their files there)
	reg("(*os.File).Readdirnames", func(fr *frame, a []value) value {
		f := fr.file(a[0])
		m := fr.in.fs()
		var names []string
		for k := range m {
			if k != f.name && filepath.Dir(k) == f.name {
				names = append(names, k)
			}
		}
		sort.Slice(names, func(i, j int) bool { return m[names[i]].seq > m[names[j]].seq })
		for i := range names {
			names[i] = filepath.Base(names[i])
		}
		if n := int(fr.intOf(a[1])); n > 0 {
			fr.in.p.unsupported("Readdirnames in portions")
		}
		if names == nil {
			return tuple{[]value{}, nilErr}
		}
		return tuple{strSlice(names), nilErr}
	})
	reg("os.IsNotExist", func(fr *frame, a []value) value {
		x := a[0].(iface)
		return x.t != nil && strings.Contains(fr.callMethod(x, "Error").(string), "no such file")
	})
	reg("(*os.File).Write", func(fr *frame, a []value) value {
		f := fr.file(a[0])
		b := a[1].([]value)
		if f.closed {
			return tuple{int64(0), fr.in.errVal("write " + f.name + ": file already closed")}
		}
		if f.ro {
			return tuple{int64(0), fr.in.pathErr("write", f.name, "", "bad file descriptor")}
		}
		if f.app {
			f.off = len(f.n.data)
		}
		if !f.std {
			for len(f.n.data) < f.off {
				f.n.data = append(f.n.data, int64(0))
			}
			var tail []value
			if f.off+len(b) < len(f.n.data) {
				tail = f.n.data[f.off+len(b):]
			}
			if tail == nil {
				f.n.data = append(f.n.data[:f.off], b...)
			} else {
				f.n.data = append(append(f.n.data[:f.off:f.off], b...), tail...)
			}
			f.off += len(b)
		}
		return tuple{int64(len(b)), nilErr}
	})
	reg("(*os.File).WriteString", func(fr *frame, a []value) value {
		return externals["(*os.File).Write"](fr, []value{a[0], bytesVal([]byte(str(a[1])))})
	})
	reg("(*os.File).Read", func(fr *frame, a []value) value {
		f := fr.file(a[0])
		b := a[1].([]value)
		if f.closed {
			return tuple{int64(0), fr.in.errVal("read " + f.name + ": file already closed")}
		}
		if f.wo {
			return tuple{int64(0), fr.in.pathErr("read", f.name, "", "bad file descriptor")}
		}
		if f.off >= len(f.n.data) {
			if len(b) == 0 {
				return tuple{int64(0), nilErr}
			}
			return tuple{int64(0), fr.in.stdErr("io", "EOF")}
		}
		n := copy(b, f.n.data[f.off:])
		f.off += n
		return tuple{int64(n), nilErr}
	})
	reg("(*os.File).Close", func(fr *frame, a []value) value {
		q, _ := a[0].(*value)
		if q == nil {
			return fr.in.errVal("invalid argument")
		}
		fr.file(a[0]).closed = true
		return nilErr
	})
	reg("(*os.File).Sync", func(fr *frame, a []value) value { return nilErr })
	reg("(*os.File).Seek", func(fr *frame, a []value) value {
		f := fr.file(a[0])
		off, wh := int(fr.intOf(a[1])), fr.intOf(a[2])
		switch wh {
		case 1:
			off += f.off
		case 2:
			off += len(f.n.data)
		}
		f.off = off
		return tuple{int64(off), nilErr}
	})
	reg("(*os.File).Name", func(fr *frame, a []value) value { return fr.file(a[0]).name })
	reg("path/filepath.Abs", func(fr *frame, a []value) value { return tuple{fr.in.abs(str(a[0])), nilErr} })
	reg("path/filepath.Clean", func(fr *frame, a []value) value { return filepath.Clean(str(a[0])) })
	reg("path/filepath.Ext", func(fr *frame, a []value) value { return filepath.Ext(str(a[0])) })
	reg("path/filepath.Dir", func(fr *frame, a []value) value { return filepath.Dir(str(a[0])) })
	reg("path/filepath.Base", func(fr *frame, a []value) value { return filepath.Base(str(a[0])) })
	reg("path/filepath.Join", func(fr *frame, a []value) value { return filepath.Join(goStrs(a[0])...) })
	reg("strconv.Atoi", func(fr *frame, a []value) value {
		n, err := fr.in.p.textInt(str(a[0]))
		if err != nil {
			return tuple{n, fr.in.errVal(err.Error())}
		}
		return tuple{n, nilErr}
	})
	reg("strconv.Itoa", func(fr *frame, a []value) value {
		if s, ok := a[0].(*SInt); ok {
			return fr.in.p.addToken('I', ftoken{i: s.p})
		}
		return strconv.Itoa(int(fr.intOf(a[0])))
	})
	reg("strconv.ParseInt", func(fr *frame, a []value) value {
		if fr.intOf(a[1]) == 10 || fr.intOf(a[1]) == 0 {
			if v, ok := fr.in.p.tokenInt(str(a[0])); ok {
				return tuple{v, nilErr}
			}
		}
		n, err := strconv.ParseInt(fr.in.p.plain(str(a[0])), int(fr.intOf(a[1])), int(fr.intOf(a[2])))
		if err != nil {
			return tuple{n, fr.in.errVal(err.Error())}
		}
		return tuple{n, nilErr}
	})
	_ = big.NewInt
	registerText()
}

// typeObj stands for a reflect.Type.
type typeObj struct{ t types.Type }
