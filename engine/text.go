package main

// Texts with symbolic single digits: an integer token whose value is known to
// lie in 0..9 is exactly one character, '0'+value, so such texts can be
// indexed, measured, sliced, compared and parsed without enumerating values.

import (
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

func (p *Path) within(q *Poly, lo, hi int64) bool {
	iv := p.facts.interval(q)
	return iv.lo != nil && iv.hi != nil && iv.lo.Cmp(new(big.Rat).SetInt64(lo)) >= 0 && iv.hi.Cmp(new(big.Rat).SetInt64(hi)) <= 0
}

// chars splits a text into its characters; off[i] is the offset of character i
// in the raw text (off[len] = len(s)).
func (p *Path) chars(s string) (cs []value, off []int, ok bool) {
	for i := 0; i < len(s); {
		off = append(off, i)
		if s[i] != 1 {
			cs = append(cs, int64(s[i]))
			i++
			continue
		}
		j := strings.IndexByte(s[i:], 2)
		if j < 0 {
			return nil, nil, false
		}
		k, t, tok := p.parseToken(s[i : i+j+1])
		switch {
		case tok && k == 'C':
			cs = append(cs, &SInt{t.i})
		case tok && k == 'I' && p.within(t.i, 0, 9):
			cs = append(cs, &SInt{t.i.add(polyInt('0'))})
		default:
			return nil, nil, false
		}
		i += j + 1
	}
	return cs, append(off, len(s)), true
}

// longChars is chars, to be read only, with the last long text remembered.
func (p *Path) longChars(s string) ([]value, bool) {
	if len(s) > 256 && s == p.lastText {
		return p.lastChars, true
	}
	cs, _, ok := p.chars(s)
	if ok && len(s) > 256 {
		p.lastText, p.lastChars = s, cs
	}
	return cs, ok
}

func hasTok(s string) bool { return strings.IndexByte(s, 1) >= 0 }

func (p *Path) strLen(s string) value {
	if !hasTok(s) {
		return int64(len(s))
	}
	if cs, ok := p.longChars(s); ok {
		return int64(len(cs))
	}
	n := polyInt(0)
	for i := 0; i < len(s); {
		if s[i] != 1 {
			n = n.add(polyInt(1))
			i++
			continue
		}
		j := strings.IndexByte(s[i:], 2)
		if j < 0 {
			return int64(len(p.plain(s)))
		}
		k, t, tok := p.parseToken(s[i : i+j+1])
		switch {
		case tok && k == 'C':
			n = n.add(polyInt(1))
		case tok && k == 'I':
			d, ok := p.digits(t.i)
			if !ok {
				return int64(len(p.plain(s)))
			}
			n = n.add(d)
		default:
			return int64(len(p.plain(s)))
		}
		i += j + 1
	}
	return normInt(n)
}

// digits is the number of characters of the decimal text of an integer.
func (p *Path) digits(q *Poly) (*Poly, bool) {
	if p.within(q, 0, 9) {
		return polyInt(1), true
	}
	if !p.within(q, -(1 << 40), 1<<40) {
		return nil, false
	}
	key := "digits " + rfPoly(q).key()
	a, ok := p.uniq[key]
	if !ok {
		iv := p.facts.interval(q)
		lo, hi := ratFloor(iv.lo), ratCeil(iv.hi)
		max := len(strconv.FormatInt(lo, 10))
		if m := len(strconv.FormatInt(hi, 10)); m > max {
			max = m
		}
		a = p.newAtom(p.fresh("len"), true, ratOne, new(big.Rat).SetInt64(int64(max)))
		p.uniq[key] = a
		is := func(k int) *Formula { return sign(rfPoly(polyAtom(a).sub(polyInt(int64(k)))), sZero) }
		ge := func(c int64) *Formula { return sign(rfPoly(q.sub(polyInt(c))), sPos|sZero) }
		pow := int64(1)
		for k := 1; k <= max; k++ {
			from := pow
			if k == 1 {
				from = 0
			}
			p.axiom(or(not(and(ge(from), not(ge(pow*10)))), is(k)))
			if lo < 0 {
				p.axiom(or(not(and(ge(-pow*10+1), not(ge(-pow+1)))), is(k+1)))
			}
			pow *= 10
		}
	}
	return polyAtom(a), true
}

func (fr *frame) strIndex(s string, i value) value {
	p := fr.in.p
	if hasTok(s) {
		if cs, ok := p.longChars(s); ok {
			return cs[fr.index(i, len(cs))]
		}
		// the first character of a text that starts with ordinary characters
		if k, ok := i.(int64); ok && k >= 0 && int(k) < strings.IndexByte(s, 1) {
			return int64(s[k])
		}
		if k, ok := i.(int64); ok && k == 0 && s[0] == 1 {
			if j := strings.IndexByte(s, 2); j > 0 {
				if kind, t, ok := p.parseToken(s[:j+1]); ok && kind == 'I' {
					return p.firstChar(t.i)
				}
			}
		}
		s = p.plain(s)
	}
	return int64(s[fr.index(i, len(s))])
}

// firstChar is the first character of the decimal text of an integer: a minus
// sign exactly for negative ones, otherwise a digit (which one is left open
// beyond 9).
func (p *Path) firstChar(q *Poly) value {
	key := "firstchar " + rfPoly(q).key()
	a, ok := p.uniq[key]
	if !ok {
		a = p.newAtom(p.fresh("chr"), true, new(big.Rat).SetInt64('-'), new(big.Rat).SetInt64('9'))
		p.uniq[key] = a
		c := polyAtom(a)
		neg := sign(rfPoly(q), sNeg)
		p.axiom(or(not(neg), sign(rfPoly(c.sub(polyInt('-'))), sZero)))
		p.axiom(or(neg, sign(rfPoly(c.sub(polyInt('0'))), sPos|sZero)))
		small := sign(rfPoly(q.sub(polyInt(9))), sNeg|sZero)
		p.axiom(or(neg, or(not(small), sign(rfPoly(c.sub(q).sub(polyInt('0'))), sZero))))
	}
	return &SInt{polyAtom(a)}
}

// digitText is the text of a symbolic character in '0'..'9'.
func (p *Path) digitText(q *Poly) (string, bool) {
	if !p.within(q, '0', '9') {
		return "", false
	}
	d := q.sub(polyInt('0'))
	return p.addToken('I', ftoken{i: d}), true
}

// charText is the text of one character value (byte or rune).
func (fr *frame) charText(v value) string {
	if s, ok := v.(*SInt); ok {
		if t, ok := fr.in.p.digitText(s.p); ok {
			return t
		}
		if fr.in.p.within(s.p, 3, 127) {
			return fr.in.p.addToken('C', ftoken{i: s.p})
		}
	}
	return string(rune(fr.intOf(v)))
}

// strEq compares two texts.
func (p *Path) strEq(x, y string) *Formula {
	if x == y {
		return fBool(true)
	}
	if !hasTok(x) && !hasTok(y) || x == "" || y == "" {
		return fBool(false)
	}
	cx, _, okx := p.chars(x)
	cy, _, oky := p.chars(y)
	if okx && oky {
		if len(cx) != len(cy) {
			return fBool(false)
		}
		r := fBool(true)
		for i := range cx {
			a, aok := cx[i].(int64)
			b, bok := cy[i].(int64)
			switch {
			case aok && bok:
				if a != b {
					return fBool(false)
				}
			default:
				r = and(r, sign(rfPoly(intPoly(cx[i]).sub(intPoly(cy[i]))), sZero))
			}
		}
		return r
	}
	return fBool(p.plain(x) == p.plain(y))
}

// textInt parses a decimal integer; digits may be symbolic.
func (p *Path) textInt(s string) (value, error) {
	if !hasTok(s) {
		n, err := strconv.Atoi(s)
		return int64(n), err
	}
	if k, t, ok := p.parseToken(s); ok {
		if k == 'I' {
			return &SInt{t.i}, nil
		}
		p.unsupported("integer parsed from the text of a symbolic float")
	}
	cs, _, ok := p.chars(s)
	if !ok || len(cs) > 15 {
		n, err := strconv.Atoi(p.plain(s))
		return int64(n), err
	}
	neg := false
	q := polyInt(0)
	for i, c := range cs {
		if q, ok := c.(*SInt); ok && !p.within(q.p, '0', '9') {
			n, err := strconv.Atoi(p.plain(s))
			return int64(n), err
		}
		if k, ok := c.(int64); ok {
			if i == 0 && len(cs) > 1 && (k == '+' || k == '-') {
				neg = k == '-'
				continue
			}
			if k < '0' || k > '9' {
				_, err := strconv.Atoi("x")
				return int64(0), err
			}
		}
		q = q.scale(new(big.Rat).SetInt64(10)).add(intPoly(c).sub(polyInt('0')))
	}
	if neg {
		q = q.neg()
	}
	return normInt(q), nil
}

func normInt(q *Poly) value {
	if c, ok := q.constVal(); ok && c.IsInt() {
		return c.Num().Int64()
	}
	return &SInt{q}
}

type tokStrIter struct {
	cs []value
	i  int
}

func (it *tokStrIter) next(fr *frame) value {
	if it.i >= len(it.cs) {
		return tuple{false, int64(0), int64(0)}
	}
	k := it.i
	it.i++
	return tuple{true, int64(k), it.cs[k]}
}

func (fr *frame) strRange(s string) iter {
	if hasTok(s) {
		if cs, _, ok := fr.in.p.chars(s); ok && utf8.ValidString(s) && len(s) == utf8.RuneCountInString(s) {
			return &tokStrIter{cs: cs}
		}
		s = fr.in.p.plain(s)
	}
	return &strIter{s: s}
}

// ---- regexp ----

type reObj struct {
	re  *regexp.Regexp
	sep bool // matches no character of a number, alone or as part of a text
}

func newRe(re *regexp.Regexp) *reObj {
	sep := true
	for _, c := range "0123456789-+.eEIF\x01\x02" {
		if re.MatchString(string(c)) {
			sep = false
		}
	}
	if re.MatchString("") {
		sep = false
	}
	return &reObj{re, sep}
}

func registerText() {
	reg := func(n string, f extFn) { externals[n] = f }
	obj := func(fr *frame, v value) *reObj { return (*fr.ptr(v)).(*reObj) }
	text := func(fr *frame, o *reObj, s string) string {
		if o.sep && !strings.Contains(s, "\x01C") {
			return s
		}
		return fr.in.p.plain(s)
	}
	reg("regexp.MustCompile", func(fr *frame, a []value) value {
		re, err := regexp.Compile(fr.in.p.plain(str(a[0])))
		if err != nil {
			fr.rtPanic("regexp: Compile: %v", err)
		}
		v := value(newRe(re))
		return &v
	})
	reg("regexp.Compile", func(fr *frame, a []value) value {
		re, err := regexp.Compile(fr.in.p.plain(str(a[0])))
		if err != nil {
			return tuple{(*value)(nil), fr.in.errVal(err.Error())}
		}
		v := value(newRe(re))
		return tuple{&v, nilErr}
	})
	reg("(*regexp.Regexp).Split", func(fr *frame, a []value) value {
		o := obj(fr, a[0])
		r := o.re.Split(text(fr, o, str(a[1])), int(fr.intOf(a[2])))
		if r == nil {
			return []value(nil)
		}
		return strSlice(r)
	})
	reg("(*regexp.Regexp).ReplaceAllString", func(fr *frame, a []value) value {
		o := obj(fr, a[0])
		return o.re.ReplaceAllString(text(fr, o, str(a[1])), str(a[2]))
	})
	reg("(*regexp.Regexp).MatchString", func(fr *frame, a []value) value {
		o := obj(fr, a[0])
		return o.re.MatchString(fr.in.p.plain(str(a[1])))
	})
	reg("(*regexp.Regexp).FindAllString", func(fr *frame, a []value) value {
		o := obj(fr, a[0])
		r := o.re.FindAllString(fr.in.p.plain(str(a[1])), int(fr.intOf(a[2])))
		if r == nil {
			return []value(nil)
		}
		return strSlice(r)
	})
	reg("(*regexp.Regexp).FindString", func(fr *frame, a []value) value {
		return obj(fr, a[0]).re.FindString(fr.in.p.plain(str(a[1])))
	})
	reg("(*regexp.Regexp).FindStringSubmatch", func(fr *frame, a []value) value {
		r := obj(fr, a[0]).re.FindStringSubmatch(fr.in.p.plain(str(a[1])))
		if r == nil {
			return []value(nil)
		}
		return strSlice(r)
	})
	reg("strings.FieldsFunc", func(fr *frame, a []value) value {
		s := str(a[0])
		sep := func(c rune) bool { return fr.truth(fr.in.call(fr, a[1], []value{int64(c)}, 0)) }
		if hasTok(s) {
			for _, c := range "-0123456789.e+" {
				if strings.Contains(s, "\x01C") || sep(c) {
					s = fr.in.p.plain(s)
					break
				}
			}
		}
		out := []value{}
		start, tok := -1, false
		for i, c := range s {
			if c == 1 {
				tok = true
			}
			if !tok && sep(c) {
				if start >= 0 {
					out = append(out, s[start:i])
				}
				start = -1
			} else if start < 0 {
				start = i
			}
			if c == 2 {
				tok = false
			}
		}
		if start >= 0 {
			out = append(out, s[start:])
		}
		return out
	})
	reg("(*regexp.Regexp).String", func(fr *frame, a []value) value { return obj(fr, a[0]).re.String() })
}

// bytesText converts bytes (some may be symbolic digits) to a text.
func (fr *frame) bytesText(s []value) string {
	var b []byte
	for _, v := range s {
		switch v := v.(type) {
		case int64:
			b = append(b, byte(v))
		case *SInt:
			if t, ok := fr.in.p.digitText(v.p); ok {
				b = append(b, t...)
			} else {
				b = append(b, byte(fr.intOf(v)))
			}
		}
	}
	return string(b)
}

// looked prepares a text for a search for t: symbolic numbers stay symbolic
// unless t could occur inside (or across the edge of) one.
func (fr *frame) looked(s, t string) string {
	// A number starts with a digit or a minus sign and ends with a digit, so t
	// can meet one only if it has a digit, ends with a minus sign or is part of
	// a number altogether.
	if hasTok(s) && (t == "" || strings.Contains(s, "\x01C") || hasTok(t) || strings.ContainsAny(t, "0123456789\x01\x02") ||
		strings.HasSuffix(t, "-") || strings.Trim(t, "-+.eE") == "" || t == "I" || t == "F") {
		return fr.in.p.plain(s)
	}
	return s
}

// lookedSet does the same for a set of characters.
func (fr *frame) lookedSet(s, set string) string {
	if hasTok(s) && (strings.Contains(s, "\x01C") || hasTok(set) || strings.ContainsAny(set, "0123456789-+.eEIF\x01\x02")) {
		return fr.in.p.plain(s)
	}
	return s
}

// rawIndex turns an offset into the raw text into a character index.
func (fr *frame) rawIndex(s string, find func(s string) int, t string) value {
	s = fr.looked(s, t)
	k := find(s)
	if !hasTok(s) || k < 0 || k <= strings.IndexByte(s, 1) {
		return int64(k)
	}
	if _, off, ok := fr.in.p.chars(s); ok {
		for i, o := range off {
			if o == k {
				return int64(i)
			}
		}
	}
	return int64(find(fr.in.p.plain(s)))
}

// textParts applies f to the ordinary characters between symbolic numbers.
func textParts(s string, f func(string) string) string {
	var sb strings.Builder
	for s != "" {
		i := strings.IndexByte(s, 1)
		if i < 0 {
			sb.WriteString(f(s))
			break
		}
		sb.WriteString(f(s[:i]))
		j := strings.IndexByte(s[i:], 2)
		if j < 0 {
			sb.WriteString(s[i:])
			break
		}
		sb.WriteString(s[i : i+j+1])
		s = s[i+j+1:]
	}
	return sb.String()
}

// intText is the decimal text of an integer.
func (fr *frame) intText(v value) string {
	if q, ok := v.(*SInt); ok {
		return fr.in.p.addToken('I', ftoken{i: q.p})
	}
	return strconv.FormatInt(fr.intOf(v), 10)
}
