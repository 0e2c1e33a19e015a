package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The abstract domain: Go values in which any part may be an opaque leaf.

type Val interface{}

// C is a known scalar (bool, number, or string through Str).
type C struct {
	V constant.Value
	T types.Type
}

// Nil is the nil of some type.
type Nil struct{ T types.Type }

// Leaf is an opaque value of type T; the state may later bind it to something
// more specific (a lazily refined partition of the inputs).
type Leaf struct {
	ID       string
	T        types.Type
	NonEmpty bool         // strings: known not to be ""
	Class    string       // what the leaf stands for in patterns (name, string literal, number, ...)
	IsNode   bool         // opaque child node of a tree pattern
	NonNil   bool         // pointers, interfaces: known not to be nil
	Distinct bool         // different from every other leaf with this mark
	Dyn      []types.Type // interfaces: the dynamic types it can have (nil: any)
}

// Str is a string made of known text and opaque pieces.
type Str struct {
	P []Piece
	T types.Type
}

type Piece struct {
	Lit string
	V   Val // opaque: *Leaf or *Expr (nil for literal text)
}

// Rec is a struct value.
type Rec struct {
	T types.Type
	F []Val
}

// Ifc is a non-nil interface value.
type Ifc struct {
	T types.Type // dynamic type
	V Val
}

// Ptr points into a heap object.
type Ptr struct {
	Obj  int
	Path []int
	T    types.Type
}

// Arr is an array or the backing store of slices.
type Arr struct {
	T types.Type // element type
	E []Val
}

// Slc is a slice with known length.
type Slc struct {
	Obj     int
	Path    []int
	Lo, Len int
	Cap     int
	T       types.Type
}

// MapO is the content of a map object.
type MapO struct {
	T types.Type
	K []Val
	V []Val
}

// MapP is a map value.
type MapP struct {
	Obj int
	T   types.Type
}

// Fn is a function value.
type Fn struct {
	F    *ssa.Function
	Bind []Val
	Name string // opaque function values (callbacks)
}

// Expr is an opaque computed value.
type Expr struct {
	Op  string
	A   []Val
	T   types.Type
	set rset              // for "cmp"
	fn  func(int64) int64 // a function of one character (A[0])
}

type Tup []Val

// Iter is a map or string iterator.
type Iter struct{ Obj int }
type iterO struct {
	keys, vals []Val
	pos        int
	m          *MapP
	str        bool
	txt        *Str // an opaque text, read as it is needed
	off        int
}

func cBool(b bool) Val { return &C{constant.MakeBool(b), types.Typ[types.Bool]} }
func cInt(n int) Val   { return &C{constant.MakeInt64(int64(n)), types.Typ[types.Int]} }
func lit(s string) *Str {
	if s == "" {
		return &Str{T: types.Typ[types.String]}
	}
	return &Str{P: []Piece{{Lit: s}}, T: types.Typ[types.String]}
}

func isConstInt(v Val) (int, bool) {
	if c, ok := v.(*C); ok && c.V.Kind() == constant.Int {
		n, ok := constant.Int64Val(c.V)
		return int(n), ok
	}
	return 0, false
}

func constStr(v Val) (string, bool) {
	if s, ok := v.(*Str); ok {
		var b strings.Builder
		for _, p := range s.P {
			if p.V != nil {
				return "", false
			}
			b.WriteString(p.Lit)
		}
		return b.String(), true
	}
	return "", false
}

func concat(a, b *Str) *Str {
	r := &Str{T: a.T}
	r.P = append(r.P, a.P...)
	for _, p := range b.P {
		if n := len(r.P); n > 0 && p.V == nil && r.P[n-1].V == nil {
			q := append([]Piece{}, r.P...)
			q[n-1] = Piece{Lit: q[n-1].Lit + p.Lit}
			r.P = q
			continue
		}
		r.P = append(r.P, p)
	}
	return r
}

func asStr(v Val) *Str {
	switch x := v.(type) {
	case *Str:
		return x
	case *Leaf:
		return &Str{P: []Piece{{V: x}}, T: x.T}
	case *Expr:
		return &Str{P: []Piece{{V: x}}, T: x.T}
	case *C:
		if x.V.Kind() == constant.String {
			return lit(constant.StringVal(x.V))
		}
	}
	return &Str{P: []Piece{{V: v}}, T: types.Typ[types.String]}
}

// State is one partition cell: heap, bindings of leaves, facts and events.
type State struct {
	heap   map[int]Val
	bind   map[string]Val
	facts  map[string]bool
	nott   map[string][]types.Type // leaf id -> dynamic types excluded
	events []Event
	next   *int // object numbering, shared
	notes  []string
	ints   map[string]rset // value sets of integer leaves
	objs   map[string]int  // objects behind opaque pointers
	staleT types.Type      // values of this type start with marks of an earlier use
}

// Event is an observable step: a call of an opaque function, an error report.
type Event struct {
	Name string
	Args []Val
	Pos  string
}

func newState() *State {
	n := 1
	return &State{heap: map[int]Val{}, bind: map[string]Val{}, facts: map[string]bool{}, nott: map[string][]types.Type{}, next: &n, ints: map[string]rset{}, objs: map[string]int{}}
}

func (s *State) clone() *State {
	r := &State{heap: make(map[int]Val, len(s.heap)), bind: make(map[string]Val, len(s.bind)), facts: make(map[string]bool, len(s.facts)),
		nott: make(map[string][]types.Type, len(s.nott)), next: s.next, staleT: s.staleT}
	for k, v := range s.heap {
		r.heap[k] = v
	}
	for k, v := range s.bind {
		r.bind[k] = v
	}
	for k, v := range s.facts {
		r.facts[k] = v
	}
	for k, v := range s.nott {
		r.nott[k] = v
	}
	r.ints = make(map[string]rset, len(s.ints))
	for k, v := range s.ints {
		r.ints[k] = v
	}
	r.objs = make(map[string]int, len(s.objs))
	for k, v := range s.objs {
		r.objs[k] = v
	}
	r.events = append([]Event{}, s.events...)
	r.notes = append([]string{}, s.notes...)
	return r
}

func (s *State) alloc(v Val) int {
	*s.next++
	s.heap[*s.next] = v
	return *s.next
}

// res follows the bindings of a leaf (shallow).
func (s *State) res(v Val) Val {
	for {
		l, ok := v.(*Leaf)
		if !ok {
			if st, ok := v.(*Str); ok {
				return s.resStr(st)
			}
			return v
		}
		b, ok := s.bind[l.ID]
		if !ok {
			return v
		}
		v = b
	}
}

func (s *State) resStr(x *Str) *Str {
	need := false
	for _, p := range x.P {
		if l, ok := p.V.(*Leaf); ok {
			if _, ok := s.bind[l.ID]; ok {
				need = true
			}
		}
		if e, ok := p.V.(*Expr); ok && (e.Op == "chr" || e.Op == "rawbyte") {
			if _, ok := isConstInt(s.evalLin(e.A[0])); ok {
				need = true
			}
		}
	}
	if !need {
		return x
	}
	r := &Str{T: x.T}
	for _, p := range x.P {
		if e, ok := p.V.(*Expr); ok && (e.Op == "chr" || e.Op == "rawbyte") {
			if n, ok := isConstInt(s.evalLin(e.A[0])); ok {
				t := string(rune(n))
				if e.Op == "rawbyte" {
					t = string([]byte{byte(n)})
				}
				r = concat(r, &Str{P: []Piece{{Lit: t}}, T: x.T})
				continue
			}
		}
		if p.V != nil {
			r = concat(r, asStr(s.res(p.V)))
		} else {
			r = concat(r, &Str{P: []Piece{p}, T: x.T})
		}
	}
	return r
}

func isPtr(t types.Type) bool   { _, ok := t.Underlying().(*types.Pointer); return ok }
func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// zero is the zero value of a type.
func (s *State) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &C{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return &Str{T: t}
		case u.Info()&types.IsInteger != 0:
			return &C{constant.MakeInt64(0), t}
		case u.Info()&types.IsFloat != 0:
			return &C{constant.MakeFloat64(0), t}
		}
		return &Nil{t}
	case *types.Struct:
		if s.staleT != nil && types.Identical(t, s.staleT) {
			return staleSym(s, t)
		}
		r := &Rec{T: t}
		for i := 0; i < u.NumFields(); i++ {
			r.F = append(r.F, s.zero(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		a := &Arr{T: u.Elem()}
		if u.Len() > 4096 {
			return &Leaf{ID: fmt.Sprintf("bigarray%d", s.alloc(nil)), T: t}
		}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, s.zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		var r Tup
		for i := 0; i < u.Len(); i++ {
			r = append(r, s.zero(u.At(i).Type()))
		}
		return r
	}
	return &Nil{t}
}

// expand makes one level of an opaque struct explicit.
func (s *State) expand(v Val) Val {
	v = s.res(v)
	l, ok := v.(*Leaf)
	if !ok {
		if e, ok := v.(*Expr); ok {
			if st, ok := e.T.Underlying().(*types.Struct); ok {
				r := &Rec{T: e.T}
				for i := 0; i < st.NumFields(); i++ {
					r.F = append(r.F, mkExpr("field:"+st.Field(i).Name(), st.Field(i).Type(), e))
				}
				return r
			}
		}
		return v
	}
	st, ok := l.T.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	r := &Rec{T: l.T}
	for i := 0; i < st.NumFields(); i++ {
		r.F = append(r.F, &Leaf{ID: l.ID + "." + st.Field(i).Name(), T: st.Field(i).Type(), IsNode: l.IsNode})
	}
	s.bind[l.ID] = r
	return r
}

func mkExpr(op string, t types.Type, a ...Val) *Expr { return &Expr{Op: op, A: a, T: t} }

// key is a canonical text of a value (for facts, comparison and memoising).
func (s *State) key(v Val) string {
	switch x := s.res(v).(type) {
	case *Leaf:
		return "?" + x.ID
	case *C:
		return x.V.ExactString()
	}
	var b strings.Builder
	s.keyTo(&b, v, nil)
	return b.String()
}

func (s *State) keyTo(b *strings.Builder, v Val, d *trail) {
	list := func(open string, n int, at func(i int), end string) {
		b.WriteString(open)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			at(i)
		}
		b.WriteString(end)
	}
	v = s.res(v)
	switch x := v.(type) {
	case nil:
		b.WriteString("<none>")
	case *C:
		b.WriteString(x.V.ExactString())
	case *Nil:
		b.WriteString("nil")
	case *Leaf:
		b.WriteByte('?')
		b.WriteString(x.ID)
	case *Str:
		b.WriteByte('"')
		for _, p := range x.P {
			if p.V == nil {
				b.WriteString(p.Lit)
			} else {
				b.WriteByte('{')
				s.keyTo(b, p.V, d)
				b.WriteByte('}')
			}
		}
		b.WriteByte('"')
	case *Rec:
		b.WriteString(tname(x.T))
		list("{", len(x.F), func(i int) { s.keyTo(b, x.F[i], d) }, "}")
	case *Ifc:
		b.WriteString(tname(x.T))
		b.WriteByte(':')
		s.keyTo(b, x.V, d)
	case *Ptr:
		c, ok := s.load(x)
		if !ok {
			fmt.Fprintf(b, "&%d%v", x.Obj, x.Path)
			return
		}
		d, ok := d.follow(x)
		if !ok {
			b.WriteString("...")
			return
		}
		b.WriteByte('&')
		s.keyTo(b, c, d)
	case *Slc:
		list("[", x.Len, func(i int) { s.keyTo(b, s.elem(x, i), d) }, "]")
	case *Arr:
		list("[", len(x.E), func(i int) { s.keyTo(b, x.E[i], d) }, "]")
	case *MapP:
		m, _ := s.heap[x.Obj].(*MapO)
		if m == nil {
			fmt.Fprintf(b, "map#%d", x.Obj)
			return
		}
		var l []string
		for i := range m.K {
			var e strings.Builder
			s.keyTo(&e, m.K[i], d)
			e.WriteByte('=')
			s.keyTo(&e, m.V[i], d)
			l = append(l, e.String())
		}
		sort.Strings(l)
		list("map{", len(l), func(i int) { b.WriteString(l[i]) }, "}")
	case *Fn:
		b.WriteString("func ")
		if x.F != nil {
			b.WriteString(x.F.String())
			return
		}
		b.WriteString(x.Name)
	case *Expr:
		b.WriteString(x.Op)
		list("(", len(x.A), func(i int) { s.keyTo(b, x.A[i], d) }, "")
		if x.set != nil {
			if len(x.A) > 0 {
				b.WriteByte(',')
			}
			b.WriteString(x.set.String())
		}
		b.WriteByte(')')
	case Tup:
		list("(", len(x), func(i int) { s.keyTo(b, x[i], d) }, ")")
	case *Iter:
		fmt.Fprintf(b, "iter%d", x.Obj)
	default:
		fmt.Fprintf(b, "%T", v)
	}
}

func shortQual(p *types.Package) string { return "" }

var tnames sync.Map

// tname is the short name of a type.
func tname(t types.Type) string {
	if n, ok := tnames.Load(t); ok {
		return n.(string)
	}
	n := types.TypeString(t, shortQual)
	tnames.Store(t, n)
	return n
}

func getPath(s *State, v Val, path []int) (Val, bool) {
	for _, i := range path {
		v = s.expand(v)
		switch x := v.(type) {
		case *Rec:
			if i < 0 || i >= len(x.F) {
				return nil, false
			}
			v = x.F[i]
		case *Arr:
			if i < 0 || i >= len(x.E) {
				return nil, false
			}
			v = x.E[i]
		default:
			return nil, false
		}
	}
	return v, true
}

func setPath(s *State, v Val, path []int, nv Val) (Val, bool) {
	if len(path) == 0 {
		return nv, true
	}
	v = s.expand(v)
	switch x := v.(type) {
	case *Rec:
		i := path[0]
		if i < 0 || i >= len(x.F) {
			return nil, false
		}
		c, ok := setPath(s, x.F[i], path[1:], nv)
		if !ok {
			return nil, false
		}
		r := &Rec{T: x.T, F: append([]Val{}, x.F...)}
		r.F[i] = c
		return r, true
	case *Arr:
		i := path[0]
		if i < 0 || i >= len(x.E) {
			return nil, false
		}
		c, ok := setPath(s, x.E[i], path[1:], nv)
		if !ok {
			return nil, false
		}
		r := &Arr{T: x.T, E: append([]Val{}, x.E...)}
		r.E[i] = c
		return r, true
	}
	return nil, false
}

func (s *State) load(p *Ptr) (Val, bool) {
	c, ok := s.heap[p.Obj]
	if !ok {
		return nil, false
	}
	return getPath(s, c, p.Path)
}

func (s *State) store(p *Ptr, v Val) bool {
	c, ok := s.heap[p.Obj]
	if !ok {
		return false
	}
	n, ok := setPath(s, c, p.Path, v)
	if ok {
		s.heap[p.Obj] = n
	}
	return ok
}

func (s *State) elem(x *Slc, i int) Val {
	c, ok := s.heap[x.Obj]
	if !ok {
		return nil
	}
	v, _ := getPath(s, c, append(append([]int{}, x.Path...), x.Lo+i))
	return v
}

func (s *State) elems(v Val) ([]Val, bool) {
	v = s.res(v)
	switch x := v.(type) {
	case *Slc:
		var r []Val
		for i := 0; i < x.Len; i++ {
			r = append(r, s.elem(x, i))
		}
		return r, true
	case *Nil:
		return nil, true
	}
	return nil, false
}

func (s *State) mkSlice(t types.Type, e []Val) *Slc {
	et := t
	if sl, ok := t.Underlying().(*types.Slice); ok {
		et = sl.Elem()
	}
	id := s.alloc(&Arr{T: et, E: append([]Val{}, e...)})
	return &Slc{Obj: id, Len: len(e), Cap: len(e), T: t}
}

func subPath(p []int, i int) []int { return append(append(make([]int, 0, len(p)+1), p...), i) }

// ident identifies a value by object identity (not content).
func (s *State) ident(v Val) string {
	v = s.res(v)
	switch x := v.(type) {
	case *Ptr:
		return fmt.Sprintf("&%d%v", x.Obj, x.Path)
	case *Slc:
		return fmt.Sprintf("[%d%v:%d:%d]", x.Obj, x.Path, x.Lo, x.Len)
	case *MapP:
		return fmt.Sprintf("map%d", x.Obj)
	case *Ifc:
		return tname(x.T) + ":" + s.ident(x.V)
	case *Rec:
		var b []string
		for _, f := range x.F {
			b = append(b, s.ident(f))
		}
		return tname(x.T) + "{" + strings.Join(b, ",") + "}"
	}
	return s.key(v)
}
