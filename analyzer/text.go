package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// textModel gives meaning to an opaque source text: a sequence of characters,
// each with the set of values it can have (one encoded width per character, so
// offsets are numbers), and a tail that is made longer only when the code looks
// at it. Functions of one character are kept as functions; a question about
// them narrows the character's set.
type textModel struct {
	rest    map[string]restInfo
	alpha   []rset // the valid characters a tail can continue with, by width
	invalid bool   // the tail can continue with bytes that are not UTF-8
}

type restInfo struct {
	n        int  // how many characters the tail can still have
	afterRaw bool // the character before the tail is an invalid byte
}

var allChars = []rset{{{0, 0x7f}}, {{0x80, 0x7ff}}, {{0x800, 0xd7ff}, {0xe000, 0xffff}}, {{0x10000, 0x10ffff}}}

func newTextModel() *textModel {
	return &textModel{rest: map[string]restInfo{}, alpha: allChars, invalid: true}
}

func (t *textModel) restLeaf(n int, afterRaw bool) *Leaf {
	id := fmt.Sprintf("rest%d", n)
	if afterRaw {
		id += "r"
	}
	t.rest[id] = restInfo{n, afterRaw}
	return &Leaf{ID: id, T: types.Typ[types.String], Class: "text"}
}

// char is a character with the given set of values.
func (t *textModel) char(st *State, id string, s rset) Piece {
	l := &Leaf{ID: id, T: types.Typ[types.Rune]}
	if v, ok := s.single(); ok {
		return Piece{Lit: string(rune(v))}
	}
	st.ints[id] = s
	return Piece{V: mkExpr("chr", types.Typ[types.String], l)}
}

func (t *textModel) rawByte(st *State, id string, s rset) Piece {
	l := &Leaf{ID: id, T: types.Typ[types.Uint8]}
	st.ints[id] = s
	return Piece{V: mkExpr("rawbyte", types.Typ[types.String], l)}
}

// functions of one character

type ival struct {
	l *Leaf // nil: constant
	k int64
	f func(int64) int64 // nil: value is leaf + k
	s string            // description of f
}

func (v ival) at(r int64) int64 {
	if v.f != nil {
		return v.f(r)
	}
	return r + v.k
}

func (t *textModel) iv(st *State, v Val) (ival, bool) {
	v = st.evalLin(v)
	switch x := v.(type) {
	case *C:
		if x.V.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.V); ok {
				return ival{k: n}, true
			}
		}
	case *Leaf:
		if _, ok := st.ints[x.ID]; ok && isInt(x.T) {
			return ival{l: x}, true
		}
	case *Expr:
		if x.fn != nil {
			return ival{l: x.A[0].(*Leaf), f: x.fn, s: x.Op[3:]}, true
		}
		if l, k, ok := st.linear(x); ok {
			if _, ok := st.ints[l.ID]; ok {
				return ival{l: l, k: k}, true
			}
		}
	}
	return ival{}, false
}

func (a rset) size() int64 {
	n := int64(0)
	for _, r := range a {
		n += r.hi - r.lo + 1
	}
	return n
}

func (a rset) each(f func(int64) bool) {
	for _, r := range a {
		for v := r.lo; v <= r.hi; v++ {
			if !f(v) {
				return
			}
		}
	}
}

// image is the set of values (bounding ranges when the character can be
// anything).
func (t *textModel) image(st *State, v ival) rset {
	if v.l == nil {
		return rset{{v.k, v.k}}
	}
	s := st.setOf(v.l)
	if v.f == nil {
		var r rset
		for _, x := range s {
			r = append(r, rng{x.lo + v.k, x.hi + v.k})
		}
		return r
	}
	seen := map[int64]bool{}
	var r rset
	s.each(func(x int64) bool {
		y := v.f(x)
		if !seen[y] {
			seen[y] = true
			r = r.add(y)
		}
		return true
	})
	return r
}

func (a rset) add(v int64) rset {
	for i, x := range a {
		if v >= x.lo && v <= x.hi {
			return a
		}
		if v == x.hi+1 {
			a[i].hi = v
			if i+1 < len(a) && a[i+1].lo == v+1 {
				a[i].hi = a[i+1].hi
				return append(a[:i+1], a[i+2:]...)
			}
			return a
		}
		if v == x.lo-1 {
			a[i].lo = v
			return a
		}
		if v < x.lo {
			return append(a[:i], append(rset{{v, v}}, a[i:]...)...)
		}
	}
	return append(a, rng{v, v})
}

// preimage is the set of characters for which the predicate holds.
func (t *textModel) preimage(st *State, v ival, p func(int64) bool) rset {
	var r rset
	st.setOf(v.l).each(func(x int64) bool {
		if p(v.at(x)) {
			if n := len(r); n > 0 && r[n-1].hi == x-1 {
				r[n-1].hi = x
			} else {
				r = append(r, rng{x, x})
			}
		}
		return true
	})
	return r
}

func wrapI(n int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Uint8:
		return n & 0xff
	case types.Int8:
		return int64(int8(n))
	case types.Uint16:
		return n & 0xffff
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint32:
		return n & 0xffffffff
	}
	return n
}

// fun is f applied to a function of a character.
func (t *textModel) fun(st *State, v ival, name string, f func(int64) int64, ty types.Type) Val {
	if v.l == nil {
		return &C{constant.MakeInt64(wrapI(f(v.k), ty)), ty}
	}
	inner := v
	g := func(x int64) int64 { return wrapI(f(inner.at(x)), ty) }
	d := v.s
	if d == "" {
		d = fmt.Sprintf("x%+d", v.k)
	}
	return t.simplify(st, v.l, g, name+"("+d+")", ty)
}

func (t *textModel) simplify(st *State, l *Leaf, g func(int64) int64, desc string, ty types.Type) Val {
	s := st.setOf(l)
	if s.size() <= 4096 {
		first, same, shift := true, true, true
		var v0, d0 int64
		s.each(func(x int64) bool {
			y := g(x)
			if first {
				first, v0, d0 = false, y, y-x
				return true
			}
			if y != v0 {
				same = false
			}
			if y-x != d0 {
				shift = false
			}
			return same || shift
		})
		if same && !first {
			return &C{constant.MakeInt64(v0), ty}
		}
		if shift && !first {
			return mkLin(l, d0, ty)
		}
	}
	e := mkExpr("uf:"+desc, ty, l)
	e.fn = g
	return e
}

// byteOf is the i-th byte of the encoding of a character of w bytes.
func (t *textModel) byteOf(st *State, c tch, i int) Val {
	if c.raw || c.w == 1 {
		v, ok := t.iv(st, c.v)
		if !ok {
			return c.v
		}
		if v.l == nil {
			return &C{constant.MakeInt64(v.k), types.Typ[types.Uint8]}
		}
		return t.fun(st, v, "byte", func(x int64) int64 { return x }, types.Typ[types.Uint8])
	}
	v, _ := t.iv(st, c.v)
	w := c.w
	r := t.fun(st, v, fmt.Sprintf("utf8[%d/%d]", i, w), func(x int64) int64 {
		var b [4]byte
		if utf8.EncodeRune(b[:], rune(x)) != w {
			return 0
		}
		return int64(b[i])
	}, types.Typ[types.Uint8])
	return r
}

// tch is one character of a flattened text.
type tch struct {
	v   Val  // the character (or the byte)
	raw bool // a byte that is not part of a valid encoding
	w   int  // encoded width
}

type splitReq struct {
	leaf *Leaf
	set  rset
	rest *Leaf
}

type notText struct{ why string }

// oracle answers questions about the text; a question the partition does not
// determine splits the partition.
type oracle struct {
	t  *textModel
	st *State
}

func (o *oracle) is(v Val, s rset) bool {
	x, ok := o.t.iv(o.st, v)
	if !ok {
		panic(notText{"a question about " + o.st.key(v)})
	}
	if x.l == nil {
		return s.has(x.k)
	}
	var in rset
	if x.f == nil {
		var sh rset
		for _, r := range s {
			sh = append(sh, rng{r.lo - x.k, r.hi - x.k})
		}
		in = o.st.setOf(x.l).and(sh)
	} else {
		in = o.t.preimage(o.st, x, s.has)
	}
	if len(in) == 0 {
		return false
	}
	if len(o.st.setOf(x.l).minus(in)) == 0 {
		return true
	}
	panic(splitReq{leaf: x.l, set: in})
}

func (o *oracle) isR(c tch, rs ...rune) bool {
	if c.raw {
		return false
	}
	var s rset
	for _, r := range rs {
		s = append(s, rng{int64(r), int64(r)})
	}
	return o.is(c.v, s)
}

func (o *oracle) need(rest *Leaf) { panic(splitReq{rest: rest}) }

// flat is the known characters of a text and its tail (nil: the text ends).
func (o *oracle) flat(s *Str) ([]tch, *Leaf) {
	s = o.st.resStr(s)
	var out []tch
	var bytes []Val // a run of bytes not yet assembled
	flush := func() {
		out = append(out, o.assemble(bytes)...)
		bytes = nil
	}
	for i, p := range s.P {
		if p.V == nil {
			for k := 0; k < len(p.Lit); {
				r, n := utf8.DecodeRuneInString(p.Lit[k:])
				if r == utf8.RuneError && n == 1 {
					bytes = append(bytes, &C{constant.MakeInt64(int64(p.Lit[k])), types.Typ[types.Uint8]})
				} else {
					flush()
					out = append(out, tch{v: &C{constant.MakeInt64(int64(r)), types.Typ[types.Rune]}, w: n})
				}
				k += n
			}
			continue
		}
		switch x := p.V.(type) {
		case *Leaf:
			if _, ok := o.t.rest[x.ID]; ok && x.Class == "text" {
				if i != len(s.P)-1 {
					o.need(x)
				}
				flush()
				return out, x
			}
		case *Expr:
			switch x.Op {
			case "chr":
				flush()
				v, ok := o.t.iv(o.st, x.A[0])
				if !ok {
					panic(notText{"character " + o.st.key(x)})
				}
				w := 0
				for _, wd := range []rset{{{0, 0x7f}}, {{0x80, 0x7ff}}, {{0x10000, 0x10ffff}}, {{0x800, 0xd7ff}, {0xe000, 0xffff}}} {
					im := o.t.image(o.st, v)
					if len(im.minus(wd)) == 0 {
						w = utf8.RuneLen(rune(wd[0].lo))
						break
					}
					if len(im.and(wd)) > 0 {
						o.is(x.A[0], wd) // splits
					}
				}
				if w == 0 { // not a character
					out = append(out, tch{v: &C{constant.MakeInt64(0xfffd), types.Typ[types.Rune]}, w: 3})
					continue
				}
				out = append(out, tch{v: o.st.evalLin(x.A[0]), w: w})
				continue
			case "rawbyte":
				bytes = append(bytes, o.st.evalLin(x.A[0]))
				continue
			}
		}
		panic(notText{"text piece " + o.st.key(p.V)})
	}
	flush()
	return out, nil
}

// assemble decodes a run of bytes.
func (o *oracle) assemble(bs []Val) []tch {
	var out []tch
	ascii, two, three, four := rset{{0, 0x7f}}, rset{{0xc2, 0xdf}}, rset{{0xe0, 0xef}}, rset{{0xf0, 0xf4}}
	cont := rset{{0x80, 0xbf}}
	for i := 0; i < len(bs); {
		b := bs[i]
		if l, ok := b.(*Leaf); ok && strings.HasPrefix(l.ID, "b") { // an invalid byte of the source text
			out = append(out, tch{v: b, raw: true, w: 1})
			i++
			continue
		}
		if o.is(b, ascii) {
			out = append(out, tch{v: b, w: 1})
			i++
			continue
		}
		w := 1
		switch {
		case o.is(b, two):
			w = 2
		case o.is(b, three):
			w = 3
		case o.is(b, four):
			w = 4
		}
		okSeq := w > 1 && i+w <= len(bs)
		for k := 1; okSeq && k < w; k++ {
			okSeq = o.is(bs[i+k], cont)
		}
		if okSeq {
			if v, ok := o.join(bs[i : i+w]); ok {
				out = append(out, tch{v: v, w: w})
				i += w
				continue
			}
		}
		out = append(out, tch{v: b, raw: true, w: 1})
		i++
	}
	return out
}

// join is the character encoded by the bytes, all functions of one character.
func (o *oracle) join(bs []Val) (Val, bool) {
	var vs []ival
	var l *Leaf
	desc := ""
	for _, b := range bs {
		v, ok := o.t.iv(o.st, b)
		if !ok {
			panic(notText{"byte " + o.st.key(b)})
		}
		if v.l != nil {
			if l != nil && l.ID != v.l.ID {
				panic(notText{"a character made of parts of two others"})
			}
			l = v.l
		}
		vs = append(vs, v)
		desc += o.st.key(b) + ","
	}
	dec := func(x int64) int64 {
		var b []byte
		for _, v := range vs {
			if v.l == nil {
				b = append(b, byte(v.k))
			} else {
				b = append(b, byte(v.at(x)))
			}
		}
		r, n := utf8.DecodeRune(b)
		if n != len(b) {
			return -1
		}
		return int64(r)
	}
	if l == nil {
		r := dec(0)
		return &C{constant.MakeInt64(r), types.Typ[types.Rune]}, r >= 0
	}
	bad := o.t.preimage(o.st, ival{l: l, f: dec}, func(r int64) bool { return r < 0 })
	if len(bad) > 0 {
		if len(o.st.setOf(l).minus(bad)) == 0 {
			return nil, false
		}
		panic(splitReq{leaf: l, set: bad})
	}
	return o.t.simplify(o.st, l, dec, "utf8("+desc+")", types.Typ[types.Rune]), true
}

// at is the i-th character of a text (false: the text ends before it).
func (o *oracle) at(s *Str, i int) (tch, bool) {
	f, rest := o.flat(s)
	if i < len(f) {
		return f[i], true
	}
	if rest != nil {
		o.need(rest)
	}
	return tch{}, false
}

// whole is all characters of a text.
func (o *oracle) whole(s *Str) []tch {
	f, rest := o.flat(s)
	if rest != nil {
		o.need(rest)
	}
	return f
}

func (o *oracle) str(f []tch, rest *Leaf) *Str {
	r := &Str{T: types.Typ[types.String]}
	for _, c := range f {
		if k, ok := c.v.(*C); ok {
			n, _ := constant.Int64Val(k.V)
			if c.raw {
				r = concat(r, &Str{P: []Piece{{Lit: string([]byte{byte(n)})}}, T: r.T})
			} else {
				r = concat(r, lit(string(rune(n))))
			}
			continue
		}
		op := "chr"
		if c.raw {
			op = "rawbyte"
		}
		r = concat(r, &Str{P: []Piece{{V: mkExpr(op, r.T, c.v)}}, T: r.T})
	}
	if rest != nil {
		r = concat(r, &Str{P: []Piece{{V: rest}}, T: r.T})
	}
	return r
}

// fork evaluates f on every part of the partition it has to distinguish.
func (t *textModel) fork(st *State, f func(o *oracle) []alt) []alt {
	var out []alt
	work := []*State{st}
	for n := 0; len(work) > 0; n++ {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		r, req, why := t.try(s, f)
		switch {
		case why != "":
			out = append(out, undec(s, "%s", why)...)
		case req != nil:
			work = append(work, t.split(s, req)...)
		default:
			out = append(out, r...)
		}
		if n > 20000 {
			return append(out, undec(s, "too many parts of the text")...)
		}
	}
	return out
}

func (t *textModel) try(st *State, f func(o *oracle) []alt) (r []alt, req *splitReq, why string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case splitReq:
			req = &x
		case notText:
			why = "not a question about the text: " + x.why
		default:
			panic(x)
		}
	}()
	return f(&oracle{t, st}), nil, ""
}

func (t *textModel) split(st *State, q *splitReq) []*State {
	if q.rest != nil {
		inf := t.rest[q.rest.ID]
		end := st.clone()
		end.bind[q.rest.ID] = &Str{T: types.Typ[types.String]}
		out := []*State{end}
		if inf.n == 0 {
			return out
		}
		add := func(mk func(s *State) (Piece, bool)) {
			s := st.clone()
			p, raw := mk(s)
			s.bind[q.rest.ID] = &Str{P: []Piece{p, {V: t.restLeaf(inf.n-1, raw)}}, T: types.Typ[types.String]}
			out = append(out, s)
		}
		for _, a := range t.alpha {
			a := a
			add(func(s *State) (Piece, bool) { return t.char(s, fmt.Sprintf("c%d", inf.n), a), false })
		}
		if t.invalid {
			add(func(s *State) (Piece, bool) {
				set := rset{{0x80, 0xff}}
				if inf.afterRaw { // nothing that could complete the byte before
					set = rset{{0xc0, 0xff}}
				}
				return t.rawByte(s, fmt.Sprintf("b%d", inf.n), set), true
			})
		}
		return out
	}
	a := st.clone()
	cur := st.setOf(q.leaf)
	narrowTo(st, q.leaf, cur.and(q.set))
	narrowTo(a, q.leaf, cur.minus(q.set))
	return []*State{st, a}
}

func narrowTo(st *State, l *Leaf, s rset) {
	if v, ok := s.single(); ok {
		st.bind[l.ID] = &C{constant.MakeInt64(v), l.T}
	}
	st.ints[l.ID] = s
}

// isText: a string with characters of the source text in it.
func (t *textModel) isText(s *Str) bool {
	for _, p := range s.P {
		switch x := p.V.(type) {
		case *Leaf:
			if _, ok := t.rest[x.ID]; ok {
				return true
			}
		case *Expr:
			if x.Op == "chr" || x.Op == "rawbyte" {
				return true
			}
		}
	}
	return false
}

// onlyText: nothing else is in it.
func (t *textModel) onlyText(s *Str) bool {
	for _, p := range s.P {
		switch x := p.V.(type) {
		case nil:
		case *Leaf:
			if _, ok := t.rest[x.ID]; !ok {
				return false
			}
		case *Expr:
			if x.Op != "chr" && x.Op != "rawbyte" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// length: a number, or a number plus the length of the tail.
func (t *textModel) length(st *State, s *Str) []alt {
	return t.fork(st, func(o *oracle) []alt {
		f, rest := o.flat(s)
		n := 0
		for _, c := range f {
			n += c.w
		}
		if rest == nil {
			return one(o.st, cInt(n))
		}
		return one(o.st, mkExpr("tlen", types.Typ[types.Int], rest, cInt(n)))
	})
}

// tlen resolves the length of a text with a tail.
func (t *textModel) tlen(st *State, v Val) (n int, rest *Leaf, ok bool) {
	switch x := v.(type) {
	case *C:
		n, ok = isConstInt(x)
		return n, nil, ok
	case *Expr:
		if x.Op != "tlen" {
			return 0, nil, false
		}
		n, _ = isConstInt(x.A[1])
		l := x.A[0].(*Leaf)
		for {
			b, bound := st.bind[l.ID]
			if !bound {
				return n, l, true
			}
			s := b.(*Str)
			var nx *Leaf
			for _, p := range s.P {
				switch y := p.V.(type) {
				case nil:
					n += len(p.Lit)
				case *Leaf:
					nx = y
				case *Expr:
					if y.Op == "rawbyte" {
						n++
					} else {
						c, _ := t.iv(st, y.A[0])
						n += utf8.RuneLen(rune(t.image(st, c)[0].lo))
					}
				}
			}
			if nx == nil {
				return n, nil, true
			}
			l = nx
		}
	}
	return 0, nil, false
}

// binop on functions of characters and on text lengths.
func (t *textModel) binop(m *M, st *State, op token.Token, a, b Val, ty types.Type) ([]alt, bool) {
	na, ra, oka := t.tlen(st, a)
	nb, rb, okb := t.tlen(st, b)
	if oka && okb && (ra != nil || rb != nil) {
		switch op {
		case token.SUB:
			if ra != nil && rb != nil && ra.ID == rb.ID {
				return one(st, cInt(na-nb)), true
			}
			if rb == nil {
				return one(st, mkExpr("tlen", ty, ra, cInt(na-nb))), true
			}
		case token.ADD:
			if ra == nil {
				return one(st, mkExpr("tlen", ty, rb, cInt(na+nb))), true
			}
			if rb == nil {
				return one(st, mkExpr("tlen", ty, ra, cInt(na+nb))), true
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			if ra != nil && rb != nil && ra.ID == rb.ID {
				return one(st, cBool(constant.Compare(constant.MakeInt64(int64(na)), op, constant.MakeInt64(int64(nb))))), true
			}
			return t.fork(st, func(o *oracle) []alt {
				x, r1, _ := t.tlen(o.st, a)
				y, r2, _ := t.tlen(o.st, b)
				known := func(v bool) []alt { return one(o.st, cBool(v)) }
				if r1 != nil && r2 == nil && x > y { // longer already
					return known(op == token.GTR || op == token.GEQ || op == token.NEQ)
				}
				if r1 != nil && r2 == nil && x == y && (op == token.GEQ || op == token.LSS) {
					return known(op == token.GEQ)
				}
				if r2 != nil && r1 == nil && y > x {
					return known(op == token.LSS || op == token.LEQ || op == token.NEQ)
				}
				if r2 != nil && r1 == nil && y == x && (op == token.LEQ || op == token.GTR) {
					return known(op == token.LEQ)
				}
				if r1 != nil {
					o.need(r1)
				}
				if r2 != nil {
					o.need(r2)
				}
				return known(constant.Compare(constant.MakeInt64(int64(x)), op, constant.MakeInt64(int64(y))))
			}), true
		}
		return undec(st, "arithmetic on the length of the text"), true
	}
	if sa, ok := strOf(a); ok {
		if sb, ok := strOf(b); ok && (op == token.EQL || op == token.NEQ) && (t.isText(sa) || t.isText(sb)) && t.onlyText(sa) && t.onlyText(sb) {
			return t.fork(st, func(o *oracle) []alt {
				return one(o.st, cBool(o.equal(sa, sb) == (op == token.EQL)))
			}), true
		}
		return nil, false
	}
	va, ok1 := t.iv(st, a)
	vb, ok2 := t.iv(st, b)
	if !ok1 || !ok2 || va.l == nil && vb.l == nil {
		return nil, false
	}
	if va.l != nil && vb.l != nil && va.l.ID != vb.l.ID {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			// two characters compared: tell them apart when one of them has few values
			if x, y := st.setOf(va.l), st.setOf(vb.l); min(x.size(), y.size()) <= 128 {
				return t.fork(st, func(o *oracle) []alt {
					l := va.l
					if o.st.setOf(vb.l).size() < o.st.setOf(va.l).size() {
						l = vb.l
					}
					if _, ok := o.st.bind[l.ID]; !ok {
						v := o.st.setOf(l)[0].lo
						panic(splitReq{leaf: l, set: rset{{v, v}}})
					}
					return m.binop(o.st, op, a, b, ty)
				}), true
			}
		}
		return nil, false
	}
	isCmp := false
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		isCmp = true
	}
	if isCmp {
		if va.f == nil && vb.f == nil && (va.l == nil || vb.l == nil) {
			return nil, false // plain comparison of a character
		}
		l := va.l
		if l == nil {
			l = vb.l
		}
		get := func(v ival, x int64) int64 {
			if v.l == nil {
				return v.k
			}
			return v.at(x)
		}
		in := t.preimage(st, ival{l: l}, func(x int64) bool {
			return constant.Compare(constant.MakeInt64(get(va, x)), op, constant.MakeInt64(get(vb, x)))
		})
		return one(st, m.inSet(st, l, in)), true
	}
	if (op == token.ADD || op == token.SUB) && va.f == nil && vb.l == nil && m.fits(st, va.l, va.k, ty) {
		k := vb.k
		if op == token.SUB {
			k = -k
		}
		if m.fits(st, va.l, va.k+k, ty) {
			return one(st, mkLin(va.l, va.k+k, ty)), true
		}
	}
	if (op == token.QUO || op == token.REM) && (vb.l != nil || vb.k == 0) {
		return undec(st, "division by a character"), true
	}
	if (op == token.SHL || op == token.SHR) && vb.l == nil && (vb.k < 0 || vb.k > 62) {
		return undec(st, "large shift"), true
	}
	calc := func(x, y int64) int64 {
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.REM:
			return x % y
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		case token.SHL:
			return x << uint(y&63)
		case token.SHR:
			return x >> uint(y&63)
		}
		return 0
	}
	if va.l != nil && vb.l != nil {
		g := func(x int64) int64 { return wrapI(calc(va.at(x), vb.at(x)), ty) }
		return one(st, t.simplify(st, va.l, g, op.String()+"("+va.s+","+vb.s+")", ty)), true
	}
	if va.l != nil {
		return one(st, t.fun(st, va, fmt.Sprintf("%s%d", op, vb.k), func(x int64) int64 { return calc(x, vb.k) }, ty)), true
	}
	return one(st, t.fun(st, vb, fmt.Sprintf("%d%s", va.k, op), func(x int64) int64 { return calc(va.k, x) }, ty)), true
}

// equal compares two texts.
func (o *oracle) equal(a, b *Str) bool {
	fa, ra := o.flat(a)
	fb, rb := o.flat(b)
	for i := 0; ; i++ {
		if i >= len(fa) && ra != nil {
			if i >= len(fb) && rb != nil && ra.ID == rb.ID && len(fa) == len(fb) {
				return true
			}
			if i >= len(fb) && rb == nil {
				// anything more makes them different
				o.need(ra)
			}
			o.need(ra)
		}
		if i >= len(fb) && rb != nil {
			o.need(rb)
		}
		if i >= len(fa) || i >= len(fb) {
			return len(fa) == len(fb)
		}
		if !o.same(fa[i], fb[i]) {
			return false
		}
	}
}

func (o *oracle) same(x, y tch) bool {
	if x.raw != y.raw || x.w != y.w {
		return false
	}
	if c, ok := x.v.(*C); ok {
		n, _ := constant.Int64Val(c.V)
		return o.is(y.v, rset{{n, n}})
	}
	if c, ok := y.v.(*C); ok {
		n, _ := constant.Int64Val(c.V)
		return o.is(x.v, rset{{n, n}})
	}
	if o.st.key(x.v) == o.st.key(y.v) {
		return true
	}
	vx, _ := o.t.iv(o.st, x.v)
	vy, _ := o.t.iv(o.st, y.v)
	if vx.l != nil && vy.l != nil {
		if vx.l.ID == vy.l.ID {
			eq := o.t.preimage(o.st, ival{l: vx.l}, func(r int64) bool { return vx.at(r) == vy.at(r) })
			return o.is(vx.l, eq)
		}
		if len(o.t.image(o.st, vx).and(o.t.image(o.st, vy))) == 0 {
			return false
		}
	}
	panic(notText{"comparison of two characters"})
}

// lookup in a table with known keys.
func (t *textModel) lookup(m *M, st *State, mo *MapO, k *Str, ret func(*State, Val, bool) alt, vt types.Type) []alt {
	return t.fork(st, func(o *oracle) []alt {
		f := o.whole(k)
		n := 0
		for _, c := range f {
			n += c.w
		}
		var cand []int
		for i, key := range mo.K {
			ks, _ := constStr(key)
			if len(ks) != n {
				continue
			}
			ok, sure := o.mayBe(f, ks)
			if !ok {
				continue
			}
			if sure {
				return []alt{ret(o.st, mo.V[i], true)}
			}
			cand = append(cand, i)
		}
		if len(cand) == 0 {
			return []alt{ret(o.st, o.st.zero(vt), false)}
		}
		ks, _ := constStr(mo.K[cand[0]])
		o.equal(k, lit(ks)) // splits
		return undec(o.st, "table look-up does not settle")
	})
}

// mayBe: can the text be s; is it s for sure.
func (o *oracle) mayBe(f []tch, s string) (may, sure bool) {
	rs := []rune(s)
	if len(rs) != len(f) {
		return false, false
	}
	sure = true
	for i, c := range f {
		if c.raw {
			return false, false
		}
		v, ok := o.t.iv(o.st, c.v)
		if !ok {
			panic(notText{"character"})
		}
		if v.l == nil {
			if v.k != int64(rs[i]) {
				return false, false
			}
			continue
		}
		n := len(o.t.preimage(o.st, v, func(x int64) bool { return x == int64(rs[i]) }))
		if v.f == nil {
			n = 0
			if o.st.setOf(v.l).has(int64(rs[i]) - v.k) {
				n = 1
			}
		}
		if n == 0 {
			return false, false
		}
		sure = false
	}
	return true, sure
}

// fromStr is []rune(s) or []byte(s).
func (t *textModel) fromStr(m *M, st *State, s *Str, bytes bool, to types.Type) []alt {
	return t.fork(st, func(o *oracle) []alt {
		f := o.whole(s)
		var e []Val
		for _, c := range f {
			switch {
			case bytes:
				for i := 0; i < c.w; i++ {
					e = append(e, t.byteOf(o.st, c, i))
				}
			case c.raw:
				e = append(e, &C{constant.MakeInt64(0xfffd), types.Typ[types.Rune]})
			default:
				e = append(e, retypeInt(c.v, types.Typ[types.Rune]))
			}
		}
		return one(o.st, o.st.mkSlice(to, e))
	})
}

func retypeInt(v Val, t types.Type) Val { return v }

// sliceOf is s[lo:hi]; a cut inside a character leaves single bytes.
func (t *textModel) sliceOf(m *M, st *State, s *Str, lo, hi Val, hasHi bool) []alt {
	return t.fork(st, func(o *oracle) []alt {
		f, rest := o.flat(s)
		from, r1, ok1 := 0, (*Leaf)(nil), true
		if lo != nil {
			from, r1, ok1 = t.tlen(o.st, o.st.evalLin(lo))
		}
		to, r2, ok2 := 0, (*Leaf)(nil), true
		if hasHi && hi != nil {
			to, r2, ok2 = t.tlen(o.st, o.st.evalLin(hi))
		}
		if !ok1 || !ok2 {
			return undec(o.st, "the bounds of a part of the text are not determined")
		}
		known := 0
		for _, c := range f {
			known += c.w
		}
		oob := func(a, b any) []alt {
			return []alt{{st: o.st, panic: fmt.Sprintf("slice bounds out of range [%v:%v] of the source text", a, b)}}
		}
		if r1 != nil {
			o.need(r1)
		}
		if from < 0 {
			return oob(from, "")
		}
		toEnd := !hasHi || hi == nil
		if r2 != nil {
			if rest != nil && rest.ID == r2.ID && to == known {
				toEnd = true
			} else {
				o.need(r2)
			}
		}
		if from > known || !toEnd && to > known {
			if rest != nil {
				o.need(rest)
			}
			return oob(from, to)
		}
		if !toEnd && to < from {
			return oob(from, to)
		}
		if toEnd {
			to = known
		} else {
			rest = nil
		}
		var out []tch
		pos := 0
		cut := false
		for _, c := range f {
			a, b := max(pos, from), min(pos+c.w, to)
			if a < b {
				if a == pos && b == pos+c.w {
					out = append(out, c)
				} else {
					cut = true
					for k := a; k < b; k++ {
						out = append(out, tch{v: t.byteOf(o.st, c, k-pos), raw: true, w: 1})
					}
				}
			}
			pos += c.w
		}
		if cut {
			o.st.events = append(o.st.events, Event{Name: "cut"})
		}
		return one(o.st, o.str(out, rest))
	})
}

// byteAt is s[i].
func (t *textModel) byteAt(m *M, st *State, s *Str, i Val) []alt {
	return t.fork(st, func(o *oracle) []alt {
		n, r, ok := t.tlen(o.st, o.st.evalLin(i))
		if !ok {
			return undec(o.st, "index into the text is not determined")
		}
		if r != nil {
			o.need(r)
		}
		f, rest := o.flat(s)
		pos := 0
		for _, c := range f {
			if n >= pos && n < pos+c.w {
				return one(o.st, t.byteOf(o.st, c, n-pos))
			}
			pos += c.w
		}
		if n >= 0 && rest != nil {
			o.need(rest)
		}
		return []alt{{st: o.st, panic: fmt.Sprintf("index %d out of range of a text of %d bytes", n, pos)}}
	})
}

// next is one step of a range loop over the text.
func (t *textModel) next(m *M, st *State, it *Iter, x *ssa.Next) []alt {
	return t.fork(st, func(o *oracle) []alt {
		io := o.st.heap[it.Obj].(*iterO)
		c, ok := o.at(io.txt, io.pos)
		tt := x.Type().(*types.Tuple)
		if !ok {
			return one(o.st, Tup{cBool(false), zeroOf(o.st, tt.At(1).Type()), zeroOf(o.st, tt.At(2).Type())})
		}
		n := *io
		n.pos++
		n.off += c.w
		o.st.heap[it.Obj] = &n
		v := c.v
		if c.raw {
			v = &C{constant.MakeInt64(0xfffd), types.Typ[types.Rune]}
		}
		return one(o.st, Tup{cBool(true), cInt(io.off), v})
	})
}

func runeRes(c tch) Val {
	if c.raw {
		return Tup{&C{constant.MakeInt64(0xfffd), types.Typ[types.Rune]}, cInt(1)}
	}
	return Tup{c.v, cInt(c.w)}
}

// model: library functions on the text.
func (t *textModel) model(m *M, st *State, fn *ssa.Function, path, recv, name string, args []Val) ([]Out, bool) {
	outs := func(as []alt) ([]Out, bool) {
		var r []Out
		for _, a := range as {
			p := ""
			if a.panic != "" || a.undec != "" {
				p = fn.String()
			}
			r = append(r, Out{St: a.st, Res: a.v, Panic: a.panic, Undec: a.undec, Pos: p})
		}
		return r, true
	}
	if recv != "" {
		if path == "strings" && recv == "Builder" || path == "bytes" && recv == "Buffer" {
			switch name {
			case "WriteRune":
				if v, ok := t.iv(st, args[1]); ok && v.l != nil {
					return nil, false
				}
			}
		}
		return nil, false
	}
	text := func(i int) (*Str, bool) {
		if i >= len(args) {
			return nil, false
		}
		s, ok := strOf(args[i])
		return s, ok && t.isText(s)
	}
	s0, is0 := text(0)
	switch path {
	case "unicode/utf8":
		if is0 {
			switch name {
			case "DecodeRuneInString":
				return outs(t.fork(st, func(o *oracle) []alt {
					c, ok := o.at(s0, 0)
					if !ok {
						return one(o.st, Tup{&C{constant.MakeInt64(0xfffd), types.Typ[types.Rune]}, cInt(0)})
					}
					return one(o.st, runeRes(c))
				}))
			case "DecodeLastRuneInString":
				return outs(t.fork(st, func(o *oracle) []alt {
					f := o.whole(s0)
					if len(f) == 0 {
						return one(o.st, Tup{&C{constant.MakeInt64(0xfffd), types.Typ[types.Rune]}, cInt(0)})
					}
					return one(o.st, runeRes(f[len(f)-1]))
				}))
			case "RuneCountInString":
				return outs(t.fork(st, func(o *oracle) []alt { return one(o.st, cInt(len(o.whole(s0)))) }))
			case "ValidString":
				return outs(t.fork(st, func(o *oracle) []alt {
					for i := 0; ; i++ {
						c, ok := o.at(s0, i)
						if !ok {
							return one(o.st, cBool(true))
						}
						if c.raw {
							return one(o.st, cBool(false))
						}
					}
				}))
			case "FullRuneInString":
				return nil, false
			}
			return outs(undec(st, "utf8.%s on the source text", name))
		}
		if len(args) == 1 {
			if v, ok := t.iv(st, args[0]); ok && v.l != nil {
				switch name {
				case "RuneLen", "ValidRune", "RuneStart":
					f := func(x int64) int64 { return int64(utf8.RuneLen(rune(x))) }
					ty := types.Type(types.Typ[types.Int])
					if name == "RuneLen" {
						return outs(one(st, t.fun(st, v, name, f, ty)))
					}
					p := func(x int64) bool { return utf8.ValidRune(rune(x)) }
					if name == "RuneStart" {
						p = func(x int64) bool { return utf8.RuneStart(byte(x)) }
					}
					return outs(one(st, m.inSet(st, v.l, t.preimage(st, v, p))))
				}
			}
			if e, ok := st.elems(args[0]); ok && len(e) > 0 {
				// decoding a list of bytes
				any := false
				for _, b := range e {
					if v, ok := t.iv(st, b); ok && v.l != nil {
						any = true
					}
				}
				if any {
					bs := m.joinChars(st, e, true)
					switch name {
					case "DecodeRune":
						return outs(t.fork(st, func(o *oracle) []alt {
							c, _ := o.at(bs, 0)
							return one(o.st, runeRes(c))
						}))
					case "RuneCount":
						return outs(t.fork(st, func(o *oracle) []alt { return one(o.st, cInt(len(o.whole(bs)))) }))
					}
					return outs(undec(st, "utf8.%s on bytes of the source text", name))
				}
			}
		}
	case "unicode":
		if v, ok := t.iv(st, lastArg(args)); ok && v.l != nil {
			if len(args) == 1 {
				if f := runeFunc(name); f != nil {
					return outs(one(st, t.fun(st, v, name, f, types.Typ[types.Rune])))
				}
				if s, ok := unicodeSet(name); ok {
					if v.f == nil && v.k == 0 {
						return outs(one(st, m.inSet(st, v.l, s)))
					}
					return outs(one(st, m.inSet(st, v.l, t.preimage(st, v, s.has))))
				}
			}
			return outs(undec(st, "unicode.%s on a character of the source text", name))
		}
		if len(args) == 2 && name == "Is" {
			if v, ok := t.iv(st, args[1]); ok && v.l != nil {
				if s, ok := tableSet(st, args[0]); ok {
					return outs(one(st, m.inSet(st, v.l, t.preimage(st, v, s.has))))
				}
			}
		}
	case "strconv":
		if is0 {
			switch name {
			case "ParseFloat":
				return outs(t.parseFloat(m, st, s0, args))
			}
		}
	case "time":
		if name == "Parse" {
			if s1, ok := text(1); ok {
				return outs(t.parseTime(m, st, args, s1))
			}
		}
	case "strings":
		any := false
		for i := range args {
			if s, ok := strOf(args[i]); ok {
				if t.isText(s) {
					any = true
				}
				if !t.onlyText(s) {
					return nil, false
				}
			} else if v, ok := t.iv(st, args[i]); ok && v.l != nil {
				any = true
			}
		}
		if any {
			if name == "Map" || name == "ContainsFunc" {
				return nil, false
			}
			if r, ok := t.stringsFn(m, st, name, args); ok {
				return outs(r)
			}
			switch name {
			case "Map", "IndexFunc", "LastIndexFunc", "TrimFunc", "TrimLeftFunc", "TrimRightFunc", "FieldsFunc", "ContainsFunc", "Join", "Repeat":
				return nil, false
			}
			return outs(undec(st, "strings.%s on the source text", name))
		}
	}
	return nil, false
}

func lastArg(a []Val) Val {
	if len(a) == 0 {
		return nil
	}
	return a[len(a)-1]
}

func runeFunc(name string) func(int64) int64 {
	switch name {
	case "ToLower":
		return func(x int64) int64 { return int64(unicode.ToLower(rune(x))) }
	case "ToUpper":
		return func(x int64) int64 { return int64(unicode.ToUpper(rune(x))) }
	case "ToTitle":
		return func(x int64) int64 { return int64(unicode.ToTitle(rune(x))) }
	case "SimpleFold":
		return func(x int64) int64 { return int64(unicode.SimpleFold(rune(x))) }
	}
	return nil
}

func tableSet(st *State, v Val) (rset, bool) {
	v = st.res(v)
	k := st.key(v)
	for name, tab := range unicode.Scripts {
		if strings.HasSuffix(k, "unicode."+name) {
			return tabRset(tab), true
		}
	}
	for name, tab := range unicode.Categories {
		if strings.HasSuffix(k, "unicode."+name) {
			return tabRset(tab), true
		}
	}
	for name, tab := range map[string]*unicode.RangeTable{"Letter": unicode.Letter, "Digit": unicode.Digit, "Upper": unicode.Upper, "Lower": unicode.Lower, "Space": unicode.Space, "Number": unicode.Number} {
		if strings.HasSuffix(k, "unicode."+name) {
			return tabRset(tab), true
		}
	}
	return nil, false
}

func tabRset(tab *unicode.RangeTable) rset {
	var s rset
	for r := int64(0); r <= unicode.MaxRune; r++ {
		if unicode.Is(tab, rune(r)) {
			if n := len(s); n > 0 && s[n-1].hi == r-1 {
				s[n-1].hi = r
			} else {
				s = append(s, rng{r, r})
			}
		}
	}
	return s
}

// parseFloat: digits with at most one dot are a number.
func (t *textModel) parseFloat(m *M, st *State, s *Str, args []Val) []alt {
	errT := types.Universe.Lookup("error").Type()
	return t.fork(st, func(o *oracle) []alt {
		f := o.whole(s)
		dots, digits := 0, 0
		for _, c := range f {
			switch {
			case c.raw:
				return one(o.st, Tup{&C{constant.MakeFloat64(0), types.Typ[types.Float64]}, m.mkError(o.st, lit("invalid syntax"))})
			case o.isR(c, '.'):
				dots++
			case o.is(c.v, rset{{'0', '9'}}):
				digits++
			default:
				// letters, signs, underscores: not needed here
				return undec(o.st, "a number is read from other characters than digits and dots")
			}
		}
		if dots > 1 || digits == 0 {
			return one(o.st, Tup{&C{constant.MakeFloat64(0), types.Typ[types.Float64]}, m.mkError(o.st, lit("invalid syntax"))})
		}
		x := o.str(f, nil)
		return one(o.st, Tup{mkExpr("parsefloat", types.Typ[types.Float64], x, args[1]), &Nil{errT}})
	})
}

// parseTime: a text of digits is a time when it has the length of the layout
// and its parts are in range (which is left open).
func (t *textModel) parseTime(m *M, st *State, args []Val, s *Str) []alt {
	ls, ok := strOf(args[0])
	if !ok {
		return undec(st, "time.Parse with an unknown layout")
	}
	layout, ok := constStr(ls)
	if !ok || strings.Trim(layout, "0123456789") != "" {
		return undec(st, "time.Parse with layout %q", layout)
	}
	tt := timeType(m)
	errT := types.Universe.Lookup("error").Type()
	return t.fork(st, func(o *oracle) []alt {
		f := o.whole(s)
		for _, c := range f {
			if c.raw || !o.is(c.v, rset{{'0', '9'}}) {
				return undec(o.st, "a date is read from other characters than digits")
			}
		}
		v := mkExpr("time.Parse", tt, lit(layout), o.str(f, nil))
		bad := Tup{v, m.mkError(o.st, lit("cannot parse"))}
		if len(f) != len(layout) {
			return one(o.st, bad)
		}
		k := "timeok:" + o.st.key(v)
		if b, ok := o.st.facts[k]; ok {
			if b {
				return one(o.st, Tup{v, &Nil{errT}})
			}
			return one(o.st, bad)
		}
		a := o.st.clone()
		a.facts[k] = false
		o.st.facts[k] = true
		return []alt{{st: o.st, v: Tup{v, &Nil{errT}}}, {st: a, v: Tup{v, m.mkError(a, lit("cannot parse"))}}}
	})
}

func timeType(m *M) types.Type {
	if pk := m.p.SSA.ImportedPackage("time"); pk != nil {
		if o := pk.Pkg.Scope().Lookup("Time"); o != nil {
			return o.Type()
		}
	}
	return types.NewStruct(nil, nil)
}

// stringsFn: package strings on the text.
func (t *textModel) stringsFn(m *M, st *State, name string, args []Val) ([]alt, bool) {
	strA := func(i int) *Str { s, _ := strOf(args[i]); return s }
	offs := func(f []tch, k int) int {
		n := 0
		for _, c := range f[:k] {
			n += c.w
		}
		return n
	}
	// match: does the pattern stand at position i
	match := func(o *oracle, f []tch, i int, pat []tch) bool {
		if i+len(pat) > len(f) {
			return false
		}
		for k, p := range pat {
			if !o.same(f[i+k], p) {
				return false
			}
		}
		return true
	}
	run := func(g func(o *oracle) Val) ([]alt, bool) {
		return t.fork(st, func(o *oracle) []alt { return one(o.st, g(o)) }), true
	}
	inSet := func(o *oracle, c tch, set []tch) bool {
		for _, p := range set {
			if o.same(c, p) {
				return true
			}
		}
		return false
	}
	pat := func(o *oracle, i int) []tch {
		if s, ok := strOf(args[i]); ok {
			return o.whole(s)
		}
		v, _ := t.iv(o.st, args[i])
		if v.l == nil {
			return []tch{{v: &C{constant.MakeInt64(v.k), types.Typ[types.Rune]}, w: max(1, utf8.RuneLen(rune(v.k)))}}
		}
		f, _ := o.flat(&Str{P: []Piece{{V: mkExpr("chr", types.Typ[types.String], args[i])}}, T: types.Typ[types.String]})
		return f
	}
	switch name {
	case "HasPrefix":
		return run(func(o *oracle) Val {
			for i, p := range pat(o, 1) {
				c, ok := o.at(strA(0), i)
				if !ok || !o.same(c, p) {
					return cBool(false)
				}
			}
			return cBool(true)
		})
	case "TrimPrefix", "CutPrefix":
		return run(func(o *oracle) Val {
			p := pat(o, 1)
			has := true
			for i := range p {
				c, ok := o.at(strA(0), i)
				if !ok || !o.same(c, p[i]) {
					has = false
					break
				}
			}
			r := strA(0)
			if has {
				f, rest := o.flat(r)
				r = o.str(f[len(p):], rest)
			}
			if name == "CutPrefix" {
				return Tup{r, cBool(has)}
			}
			return r
		})
	case "HasSuffix", "TrimSuffix", "CutSuffix":
		return run(func(o *oracle) Val {
			f, p := o.whole(strA(0)), pat(o, 1)
			has := len(f) >= len(p) && match(o, f, len(f)-len(p), p)
			if name == "HasSuffix" {
				return cBool(has)
			}
			r := strA(0)
			if has {
				r = o.str(f[:len(f)-len(p)], nil)
			}
			if name == "CutSuffix" {
				return Tup{r, cBool(has)}
			}
			return r
		})
	case "Index", "IndexByte", "IndexRune", "Contains", "ContainsRune", "Cut":
		return run(func(o *oracle) Val {
			p := pat(o, 1)
			for i := 0; ; i++ {
				hit := true
				for k := range p {
					c, ok := o.at(strA(0), i+k)
					if !ok {
						// no match here or later
						f := o.whole(strA(0))
						switch {
						case strings.HasPrefix(name, "Contains"):
							return cBool(false)
						case name == "Cut":
							return Tup{o.str(f, nil), lit(""), cBool(false)}
						}
						return cInt(-1)
					}
					if !o.same(c, p[k]) {
						hit = false
						break
					}
				}
				if hit {
					f, rest := o.flat(strA(0))
					switch {
					case strings.HasPrefix(name, "Contains"):
						return cBool(true)
					case name == "Cut":
						return Tup{o.str(f[:i], nil), o.str(f[i+len(p):], rest), cBool(true)}
					}
					return cInt(offs(f, i))
				}
			}
		})
	case "IndexAny", "ContainsAny":
		return run(func(o *oracle) Val {
			p := pat(o, 1)
			for i := 0; ; i++ {
				c, ok := o.at(strA(0), i)
				if !ok {
					if name == "IndexAny" {
						return cInt(-1)
					}
					return cBool(false)
				}
				if inSet(o, c, p) {
					if name == "IndexAny" {
						f, _ := o.flat(strA(0))
						return cInt(offs(f, i))
					}
					return cBool(true)
				}
			}
		})
	case "LastIndex", "LastIndexByte", "Count", "LastIndexAny":
		return run(func(o *oracle) Val {
			f, p := o.whole(strA(0)), pat(o, 1)
			if name == "Count" {
				if len(p) == 0 {
					return cInt(len(f) + 1)
				}
				n := 0
				for i := 0; i < len(f); {
					if match(o, f, i, p) {
						n++
						i += len(p)
					} else {
						i++
					}
				}
				return cInt(n)
			}
			for i := len(f) - 1; i >= 0; i-- {
				if name == "LastIndexAny" && inSet(o, f[i], p) || name != "LastIndexAny" && match(o, f, i, p) {
					return cInt(offs(f, i))
				}
			}
			return cInt(-1)
		})
	case "TrimSpace", "Trim", "TrimLeft", "TrimRight":
		return run(func(o *oracle) Val {
			left, right := name != "TrimRight", name != "TrimLeft"
			in := func(c tch) bool {
				if name == "TrimSpace" {
					if c.raw {
						return false
					}
					s, _ := unicodeSet("IsSpace")
					return o.is(c.v, s)
				}
				return inSet(o, c, pat(o, 1))
			}
			i := 0
			if left {
				for {
					c, ok := o.at(strA(0), i)
					if !ok || !in(c) {
						break
					}
					i++
				}
			}
			f, rest := o.flat(strA(0))
			if !right {
				return o.str(f[i:], rest)
			}
			f = o.whole(strA(0))
			k := len(f)
			for k > i && in(f[k-1]) {
				k--
			}
			return o.str(f[i:k], nil)
		})
	case "ToLower", "ToUpper":
		return run(func(o *oracle) Val {
			f := o.whole(strA(0))
			var out []tch
			for _, c := range f {
				if c.raw {
					out = append(out, tch{v: &C{constant.MakeInt64(0xfffd), types.Typ[types.Rune]}, w: 3})
					continue
				}
				v, _ := t.iv(o.st, c.v)
				nv := t.fun(o.st, v, name, runeFunc(name), types.Typ[types.Rune])
				if _, isC := nv.(*C); !isC {
					// only the characters that change
					if l := v.l; v.f == nil && v.k == 0 {
						g := runeFunc(name)
						ch := t.preimage(o.st, v, func(x int64) bool { return g(x) != x })
						if !o.is(l, ch) {
							nv = c.v
						}
					}
				}
				out = append(out, tch{v: nv, w: c.w})
			}
			return o.str(out, nil)
		})
	case "EqualFold":
		return run(func(o *oracle) Val {
			f, p := o.whole(strA(0)), o.whole(strA(1))
			if len(f) != len(p) {
				return cBool(false)
			}
			for i := range f {
				a, b := f[i], p[i]
				if _, ok := a.v.(*C); ok {
					a, b = b, a
				}
				c, ok := b.v.(*C)
				if !ok || a.raw || b.raw {
					panic(notText{"EqualFold of two opaque characters"})
				}
				n, _ := constant.Int64Val(c.V)
				s := rset{}
				for r := rune(n); ; {
					s = s.add(int64(r))
					r = unicode.SimpleFold(r)
					if int64(r) == n {
						break
					}
				}
				if !o.is(a.v, s) {
					return cBool(false)
				}
			}
			return cBool(true)
		})
	case "Clone":
		return one(st, strA(0)), true
	case "Split", "Fields":
		return run(func(o *oracle) Val {
			f := o.whole(strA(0))
			var parts []Val
			if name == "Split" {
				p := pat(o, 1)
				if len(p) == 0 {
					panic(notText{"Split by nothing"})
				}
				from := 0
				for i := 0; i < len(f); {
					if match(o, f, i, p) {
						parts = append(parts, o.str(f[from:i], nil))
						i += len(p)
						from = i
					} else {
						i++
					}
				}
				parts = append(parts, o.str(f[from:], nil))
			} else {
				s, _ := unicodeSet("IsSpace")
				from := -1
				for i := 0; i <= len(f); i++ {
					sp := i == len(f) || !f[i].raw && o.is(f[i].v, s)
					if !sp && from < 0 {
						from = i
					}
					if sp && from >= 0 {
						parts = append(parts, o.str(f[from:i], nil))
						from = -1
					}
				}
			}
			return o.st.mkSlice(types.NewSlice(types.Typ[types.String]), parts)
		})
	case "ReplaceAll", "Replace":
		return run(func(o *oracle) Val {
			f, p := o.whole(strA(0)), pat(o, 1)
			by := o.whole(strA(2))
			left := -1
			if name == "Replace" {
				n, ok := isConstInt(args[3])
				if !ok {
					panic(notText{"Replace count"})
				}
				left = n
			}
			if len(p) == 0 {
				panic(notText{"Replace of nothing"})
			}
			var out []tch
			for i := 0; i < len(f); {
				if left != 0 && match(o, f, i, p) {
					out = append(out, by...)
					i += len(p)
					left--
				} else {
					out = append(out, f[i])
					i++
				}
			}
			return o.str(out, nil)
		})
	}
	return nil, false
}

// hooks used by the engine

func (m *M) rangeStr(st *State, s *Str) []alt {
	if m.text != nil && m.text.onlyText(s) {
		return one(st, &Iter{Obj: st.alloc(&iterO{str: true, txt: s})})
	}
	return undec(st, "iteration over an opaque text")
}

func (m *M) sliceStr(st *State, v Val, lo, hi Val, hasHi bool, t types.Type) []alt {
	if m.text != nil {
		if s, ok := strOf(v); ok && m.text.onlyText(s) {
			return m.text.sliceOf(m, st, s, lo, hi, hasHi)
		}
	}
	if k, ok := isConstInt(lo); !hasHi && (lo == nil || ok && k == 0) {
		return one(st, v)
	}
	return one(st, mkExpr("substr", t, v, lo, hi))
}

func (m *M) unsafeString(st *State, args []Val) []alt {
	if e, ok := st.res(args[0]).(*Expr); ok && e.Op == "slicedata" {
		if n, ok := isConstInt(args[1]); ok {
			if s, ok := st.res(e.A[0]).(*Slc); ok && n <= s.Len {
				el, _ := st.elems(&Slc{Obj: s.Obj, Path: s.Path, Lo: s.Lo, Len: n, Cap: n, T: s.T})
				return one(st, m.joinChars(st, el, true))
			}
			if n == 0 {
				return one(st, lit(""))
			}
		}
	}
	return one(st, mkExpr("unsafe.String", types.Typ[types.String], args...))
}

// splitIndex reads a table at a character: characters with the same entry stay
// together.
func (t *textModel) splitIndex(st *State, v, i Val, at func(*State, int) []alt) ([]alt, bool) {
	x, ok := t.iv(st, i)
	if !ok || x.l == nil {
		return nil, false
	}
	n := -1
	var entry func(k int) string
	switch y := st.res(v).(type) {
	case *Arr:
		n = len(y.E)
		entry = func(k int) string { return st.key(y.E[k]) }
	case *Slc:
		n = y.Len
		entry = func(k int) string { return st.key(st.elem(y, k)) }
	case *Ptr:
		if c, ok := st.load(y); ok {
			if a, ok := st.res(c).(*Arr); ok {
				n = len(a.E)
				entry = func(k int) string { return st.key(a.E[k]) }
			}
		}
	}
	if n < 0 {
		return nil, false
	}
	type group struct {
		rep int64
		set rset
	}
	groups := map[string]*group{}
	var order []string
	st.setOf(x.l).each(func(r int64) bool {
		k := x.at(r)
		key := "out of range"
		if k >= 0 && k < int64(n) {
			key = "=" + entry(int(k))
		}
		g := groups[key]
		if g == nil {
			g = &group{rep: k}
			groups[key] = g
			order = append(order, key)
		}
		if l := len(g.set); l > 0 && g.set[l-1].hi == r-1 {
			g.set[l-1].hi = r
		} else {
			g.set = append(g.set, rng{r, r})
		}
		return true
	})
	var out []alt
	for _, k := range order {
		a := st.clone()
		narrowTo(a, x.l, groups[k].set)
		out = append(out, at(a, int(groups[k].rep))...)
	}
	return out, true
}
