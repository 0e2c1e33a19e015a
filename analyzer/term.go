package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"slices"
	"sort"
	"strings"
)

// Term is the neutral form of a tree: kinds, exported fields, lists, leaves.
type Term struct {
	K    string           // struct kind, or "" for lists and leaves
	F    map[string]*Term // exported non-zero fields
	L    []*Term
	A    string // leaf text
	list bool
}

func (t *Term) String() string {
	if t == nil {
		return "nil"
	}
	if t.list {
		var b []string
		for _, x := range t.L {
			b = append(b, x.String())
		}
		return "[" + strings.Join(b, ", ") + "]"
	}
	if t.K == "" {
		return t.A
	}
	if t.K[0] == '$' {
		var b []string
		for _, x := range t.L {
			b = append(b, x.String())
		}
		return t.K + "(" + strings.Join(b, ", ") + ")"
	}
	var ks []string
	for k := range t.F {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []string
	for _, k := range ks {
		b = append(b, k+": "+t.F[k].String())
	}
	return t.K + "{" + strings.Join(b, ", ") + "}"
}

// term turns a value into its neutral form; nil for zero values.
func (st *State) term(v Val) *Term { return st.termD(v, nil) }

// trail is the pointers followed on the way to a value, for finding cycles.
type trail struct {
	obj, n int
	path   []int
	up     *trail
}

const maxTrail = 2000

func (d *trail) follow(p *Ptr) (*trail, bool) {
	n := 0
	if d != nil {
		n = d.n + 1
	}
	for t := d; t != nil; t = t.up {
		if t.obj == p.Obj && slices.Equal(t.path, p.Path) {
			return nil, false
		}
	}
	return &trail{p.Obj, n, p.Path, d}, n < maxTrail
}

func (st *State) termD(v Val, d *trail) *Term {
	v = st.evalLin(st.res(v))
	switch x := v.(type) {
	case nil:
		return nil
	case *Nil:
		return nil
	case *C:
		switch x.V.Kind() {
		case constant.Bool:
			if !constant.BoolVal(x.V) {
				return nil
			}
		}
		return &Term{A: x.V.ExactString()}
	case *Str:
		if len(x.P) == 0 {
			return nil
		}
		if l, ok := soleLeaf(x); ok {
			return &Term{A: l.ID}
		}
		return &Term{A: st.key(x)}
	case *Leaf:
		return &Term{A: x.ID}
	case *Expr:
		if x.Op == "neg" {
			return un("$minus", st.termD(x.A[0], d))
		}
		return &Term{A: st.key(x)}
	case *Ifc:
		t := st.termD(x.V, d)
		if t == nil { // typed zero in an interface is a value
			if c, ok := st.res(x.V).(*C); ok {
				return &Term{A: c.V.ExactString()}
			}
			if s, ok := st.res(x.V).(*Str); ok && len(s.P) == 0 {
				return &Term{A: `""`}
			}
			if isPtr(x.T) {
				return nil
			}
			if _, ok := x.T.Underlying().(*types.Struct); ok {
				return &Term{K: tname(x.T), F: map[string]*Term{}}
			}
			if _, ok := x.T.Underlying().(*types.Slice); ok {
				return &Term{list: true}
			}
		}
		return t
	case *Ptr:
		c, ok := st.load(x)
		if !ok {
			return &Term{A: "$dangling"}
		}
		d, ok := d.follow(x)
		if !ok {
			return &Term{A: "$cycle"}
		}
		return st.termD(c, d)
	case *Rec:
		t := &Term{K: tname(x.T), F: map[string]*Term{}}
		st.termFields(x, t, d)
		return t
	case *Slc:
		t := &Term{list: true}
		for i := 0; i < x.Len; i++ {
			t.L = append(t.L, st.termD(st.elem(x, i), d))
		}
		return t
	case *MapP:
		m, ok := st.heap[x.Obj].(*MapO)
		if !ok || len(m.K) == 0 {
			return nil
		}
		t := &Term{K: "map", F: map[string]*Term{}}
		for i := range m.K {
			t.F[st.term(m.K[i]).String()] = st.termD(m.V[i], d)
		}
		return t
	}
	return &Term{A: fmt.Sprintf("$%T", v)}
}

func (st *State) termFields(x *Rec, t *Term, d *trail) {
	s, ok := x.T.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields() && i < len(x.F); i++ {
		f := s.Field(i)
		if f.Embedded() {
			if r, ok := st.expand(x.F[i]).(*Rec); ok {
				st.termFields(r, t, d)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		c := st.termD(x.F[i], d)
		if c == nil {
			continue
		}
		if c.list && len(c.L) == 0 && !isIface(f.Type()) {
			continue
		}
		if isInt(f.Type()) && c.A == "0" {
			continue
		}
		t.F[f.Name()] = c
	}
}

func has(t *Term, f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, c := range t.F {
		if has(c, f) {
			return true
		}
	}
	for _, c := range t.L {
		if has(c, f) {
			return true
		}
	}
	return false
}
