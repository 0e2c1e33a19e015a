package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["J01"] = checkDef{runJ01, "Type and value analysis: the trees that the abstractly interpreted parser builds are followed as encoding/json follows them (fields, embedded structs, dynamic types of interfaces, pointers); every value met must be of an encodable type, no pointer may lead back to a node being encoded, and no token, parser or source reference may be reachable. The call that JSON makes is found by interpreting it: the module itself must be what is encoded and the library's result must be what is returned."}
	checks["J02"] = checkDef{runJ02, "Type analysis of every struct a tree can hold, by the field rules of encoding/json (tags, embedding, name conflicts, omitempty, encoding methods): each field must be written under a name of its own whenever it can differ from the zero value, and fields for which the parser distinguishes nil from empty must not be dropped when empty. On the abstract trees, every name, literal and child must be among the encoded values."}
}

// jsonField is a field as encoding/json sees it.
type jsonField struct {
	path  []int
	name  string
	omit  bool
	tag   bool
	f     *types.Var
	owner string
}

type jsonShape struct {
	out  []jsonField
	lost map[string]string // field -> why it is not written
}

// jsonFields follows encoding/json's rules for the fields of a struct type.
func jsonFields(t types.Type) jsonShape {
	sh := jsonShape{lost: map[string]string{}}
	var all []jsonField
	type lvl struct {
		t    types.Type
		path []int
	}
	cur := []lvl{{t, nil}}
	seen := map[string]bool{}
	for len(cur) > 0 {
		var next []lvl
		for _, c := range cur {
			k := types.TypeString(c.t, nil)
			if seen[k] {
				continue
			}
			seen[k] = true
			s, ok := c.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				who := tname(c.t) + "." + f.Name()
				ft := f.Type()
				emb := ft
				if p, ok := emb.Underlying().(*types.Pointer); ok && f.Embedded() {
					emb = p.Elem()
				}
				_, isStruct := emb.Underlying().(*types.Struct)
				if f.Embedded() {
					if !f.Exported() && !isStruct {
						sh.lost[who] = "it is an embedded field of an unexported type that is not a struct"
						continue
					}
				} else if !f.Exported() {
					sh.lost[who] = "it is not exported"
					continue
				}
				tag := reflect.StructTag(s.Tag(i)).Get("json")
				if tag == "-" {
					sh.lost[who] = `its tag is json:"-"`
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				omit := false
				for _, o := range strings.Split(opts, ",") {
					if o == "omitempty" || o == "omitzero" {
						omit = true
					}
				}
				path := append(append([]int{}, c.path...), i)
				if name == "" && f.Embedded() && isStruct {
					if !f.Exported() && isPtr(ft) {
						sh.lost[who] = "it is an embedded pointer to an unexported struct"
						continue
					}
					next = append(next, lvl{emb, path})
					continue
				}
				tagged := name != ""
				if name == "" {
					name = f.Name()
				}
				all = append(all, jsonField{path: path, name: name, omit: omit, tag: tagged, f: f, owner: who})
			}
		}
		cur = next
	}
	byName := map[string][]jsonField{}
	for _, f := range all {
		byName[f.name] = append(byName[f.name], f)
	}
	for _, f := range all {
		l := byName[f.name]
		win := true
		for _, g := range l {
			if g.owner == f.owner && fmt.Sprint(g.path) == fmt.Sprint(f.path) {
				continue
			}
			switch {
			case len(g.path) < len(f.path):
				win = false
				sh.lost[f.owner] = "the field " + g.owner + " has the same JSON name " + f.name
			case len(g.path) == len(f.path) && (g.tag || !f.tag):
				win = false
				sh.lost[f.owner] = "the field " + g.owner + " has the same JSON name " + f.name
			}
		}
		if win {
			sh.out = append(sh.out, f)
		}
	}
	return sh
}

// encodable reports why values of a type cannot be encoded ("" if they can).
func encodable(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer {
			return "values of type " + tname(t) + " cannot be encoded"
		}
	case *types.Chan, *types.Signature:
		return "values of type " + tname(t) + " cannot be encoded"
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			return "maps with keys of type " + tname(u.Key()) + " cannot be encoded"
		}
	}
	return ""
}

type jsonWalk struct {
	st     *State
	p      *Prog
	bad    string
	leaves map[string]bool
	onPath map[string]bool
	nilEmp map[string]int // type.field -> 1 nil seen, 2 empty seen
	shapes map[string]jsonShape
	n      int
}

func (w *jsonWalk) fail(f string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

func (w *jsonWalk) value(v Val, path string, d int) {
	if w.bad != "" {
		return
	}
	if d > 100000 {
		w.fail("%s: the tree does not end", path)
		return
	}
	w.n++
	st := w.st
	v = st.res(v)
	switch x := v.(type) {
	case nil, *Nil:
	case *C:
		if e := encodable(x.T); e != "" {
			w.fail("%s: %s", path, e)
		}
	case *Str:
		for _, p := range x.P {
			if p.V != nil {
				w.opaque(p.V, path)
			}
		}
	case *Leaf, *Expr:
		w.opaque(v, path)
	case *Ifc:
		if n := forbidden(w.p, x.T); n != "" {
			w.fail("%s holds %s, which is internal state", path, n)
			return
		}
		if e := encodable(x.T); e != "" {
			w.fail("%s: %s", path, e)
			return
		}
		w.value(x.V, path, d+1)
	case *Ptr:
		id := st.ident(x)
		if w.onPath[id] {
			w.fail("%s leads back to a node that contains it", path)
			return
		}
		c, ok := st.load(x)
		if !ok {
			w.fail("%s is a reference of unknown target", path)
			return
		}
		w.onPath[id] = true
		w.value(c, path, d+1)
		delete(w.onPath, id)
	case *Slc:
		id := fmt.Sprintf("%s/%d", st.ident(x), x.Len)
		if x.Len > 0 && w.onPath[id] {
			w.fail("%s leads back to a list that contains it", path)
			return
		}
		w.onPath[id] = true
		for i := 0; i < x.Len; i++ {
			w.value(st.elem(x, i), fmt.Sprintf("%s[%d]", path, i), d+1)
		}
		delete(w.onPath, id)
	case *MapP:
		if e := encodable(x.T); e != "" {
			w.fail("%s: %s", path, e)
			return
		}
		if m, ok := st.heap[x.Obj].(*MapO); ok {
			for i := range m.K {
				w.value(m.K[i], path+" key", d+1)
				w.value(m.V[i], path+"["+st.key(m.K[i])+"]", d+1)
			}
		}
	case *Rec:
		if n := forbidden(w.p, x.T); n != "" {
			w.fail("%s holds %s, which is internal state", path, n)
			return
		}
		if strings.HasSuffix(types.TypeString(x.T, nil), "time.Time") {
			return
		}
		k := types.TypeString(x.T, nil)
		sh, ok := w.shapes[k]
		if !ok {
			sh = jsonFields(x.T)
			w.shapes[k] = sh
		}
		for _, f := range sh.out {
			fv, ok := getPath(st, x, f.path)
			if !ok {
				w.fail("%s.%s cannot be followed", path, f.name)
				return
			}
			fv = st.res(fv)
			if _, isSl := f.f.Type().Underlying().(*types.Slice); isSl {
				if isNone(fv) {
					w.nilEmp[f.owner] |= 1
				} else if s, ok := fv.(*Slc); ok && s.Len == 0 {
					w.nilEmp[f.owner] |= 2
				}
			}
			if e := encodable(f.f.Type()); e != "" && !isNone(fv) {
				w.fail("%s.%s: %s", path, f.name, e)
				return
			}
			w.value(fv, path+"."+f.name, d+1)
		}
	case *Fn:
		w.fail("%s holds a function", path)
	default:
		w.fail("%s holds a value of unknown form %T", path, v)
	}
}

func (w *jsonWalk) opaque(v Val, path string) {
	l, ok := v.(*Leaf)
	if !ok {
		if e, ok := v.(*Expr); ok {
			for _, x := range e.A {
				if _, isC := x.(*C); !isC {
					w.opaque(w.st.res(x), path)
				}
			}
		}
		return
	}
	if strings.HasPrefix(l.ID, "$") {
		w.fail("%s holds internal state (%s)", path, strings.Trim(l.ID, "$"))
		return
	}
	if n := forbidden(w.p, l.T); n != "" {
		w.fail("%s holds %s, which is internal state", path, n)
		return
	}
	w.leaves[l.ID] = true
}

// forbidden names types that are parser state, not tree.
func forbidden(p *Prog, t types.Type) string {
	for i := 0; i < 4; i++ {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
			continue
		}
		break
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() != p.Pkg.Types {
		return ""
	}
	switch s := n.Obj().Name(); {
	case s == "AstNode", s == "Token", s == "Position", strings.HasPrefix(s, "yy"):
		return "a value of type " + s
	}
	return ""
}

// treeLeaves are all opaque parts of a value, by any field.
func treeLeaves(st *State, v Val, d int, m map[string]bool) {
	if d > 100000 {
		return
	}
	v = st.res(v)
	switch x := v.(type) {
	case *Leaf:
		m[x.ID] = true
	case *Expr:
		for _, a := range x.A {
			treeLeaves(st, a, d+1, m)
		}
	case *Str:
		for _, p := range x.P {
			if p.V != nil {
				treeLeaves(st, p.V, d+1, m)
			}
		}
	case *Ifc:
		treeLeaves(st, x.V, d+1, m)
	case *Ptr:
		if c, ok := st.load(x); ok {
			treeLeaves(st, c, d+1, m)
		}
	case *Slc:
		for i := 0; i < x.Len; i++ {
			treeLeaves(st, st.elem(x, i), d+1, m)
		}
	case *MapP:
		if mo, ok := st.heap[x.Obj].(*MapO); ok {
			for i := range mo.K {
				treeLeaves(st, mo.K[i], d+1, m)
				treeLeaves(st, mo.V[i], d+1, m)
			}
		}
	case *Rec:
		if strings.HasSuffix(types.TypeString(x.T, nil), "time.Time") {
			return
		}
		for _, f := range x.F {
			treeLeaves(st, f, d+1, m)
		}
	}
}

func jsonForms(c *Ctx) []string {
	l := append(moduleForms(c), placedForms()...)
	for _, e := range exprs2() {
		l = append(l, "N = "+e+" ;")
	}
	return uniq(l)
}

// jsonCall interprets JSON and finds what is encoded.
func (a *AbsParser) jsonCall(r *ParseRes) string {
	fn := a.p.method("AstNode", "JSON")
	if fn == nil {
		return "method JSON of AstNode not found"
	}
	mod, err := a.moduleOf(r)
	if err != nil {
		return err.Error()
	}
	st := r.St.clone()
	n0 := len(st.events)
	want, _ := st.load(mod)
	wk := st.key(want)
	done := false
	for _, o := range a.m.call(st, fn, []Val{r.Node}, nil, nil) {
		if o.bad() {
			return "JSON: " + outMsg([]Out{o})
		}
		found := ""
		for _, e := range o.St.events[n0:] {
			if strings.HasPrefix(e.Name, "extern:encoding/json.Marshal") || e.Name == "extern:(*encoding/json.Encoder).Encode" {
				arg := e.Args[0]
				if strings.HasSuffix(e.Name, ".Encode") {
					arg = e.Args[1]
				}
				x := o.St.res(arg)
				if i, ok := x.(*Ifc); ok {
					x = o.St.res(i.V)
				}
				if p, ok := x.(*Ptr); ok {
					if c, ok := o.St.load(p); ok {
						x = c
					}
				}
				if o.St.key(x) != wk {
					return "what JSON encodes is not the module's tree"
				}
				found = e.Name
			}
		}
		if found == "" {
			return "JSON ends without encoding the module"
		}
		t, ok := o.Res.(Tup)
		if !ok || len(t) != 2 {
			return "JSON returns something of unknown form"
		}
		k0, k1 := o.St.key(t[0]), o.St.key(o.St.res(t[1]))
		_, none := o.St.res(t[1]).(*Nil)
		switch {
		case strings.Contains(k1, "json.error"):
		case !none:
			return "JSON can return an error that the encoder did not report"
		case !strings.Contains(k0, "json.text"):
			return "JSON does not return what the encoder returned"
		default:
			done = true
		}
	}
	if !done {
		return "JSON does not return what the encoder returned"
	}
	return ""
}

func runJ01(c *Ctx) {
	c.rule = "every value reachable from the module is encodable data of the tree"
	l := jsonForms(c)
	c.count("trees", len(l))
	where := "ast/ast.go"
	if fn := c.P.method("AstNode", "JSON"); fn != nil {
		where = c.P.pos(fn.Pos())
	}
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		if d := a.jsonCall(r); d != "" {
			c.fail("call:"+f, where, "%s (tree of %q)", d, surfToks(ts))
			return
		}
		mod, _ := a.moduleOf(r)
		w := &jsonWalk{st: r.St, p: c.P, leaves: map[string]bool{}, onPath: map[string]bool{}, nilEmp: map[string]int{}, shapes: map[string]jsonShape{}}
		w.value(mod, "", 0)
		c.count("values_followed", w.n)
		if w.bad != "" {
			c.fail("tree:"+f, where, "the tree of %q cannot be serialised: %s", surfToks(ts), w.bad)
			return
		}
		c.ok("tree: " + surfToks(ts))
	})
	for _, m := range marshalMethods(c.P) {
		c.fail("method:"+m.String(), c.P.pos(m.Pos()), "%s replaces the standard encoding; what it may return is not decided", m)
	}
}

// structTypes are the struct types of the package a tree consists of.
func structTypes(p *Prog) []*types.Named {
	var out []*types.Named
	trees := treeTypes(p)
	for _, n := range p.Pkg.Types.Scope().Names() {
		if tn, ok := p.Pkg.Types.Scope().Lookup(n).(*types.TypeName); ok && trees[tn.Type().String()] {
			if nt, ok := tn.Type().(*types.Named); ok {
				if _, ok := nt.Underlying().(*types.Struct); ok {
					out = append(out, nt)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// writtenFields finds fields of tree types that code gives a value.
func writtenFields(p *Prog) map[*types.Var]string {
	m := map[*types.Var]string{}
	note := func(t types.Type, i int, v ssa.Value, pos string) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		if c, ok := v.(*ssa.Const); ok && (c.Value == nil || c.Value.ExactString() == "false" || c.Value.ExactString() == "0" || c.Value.ExactString() == `""`) {
			return
		}
		m[s.Field(i)] = pos
	}
	for f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						note(fa.X.Type(), fa.Field, st.Val, p.posRaw(in.Pos()))
					}
				}
			}
		}
	}
	return m
}

func runJ02(c *Ctx) {
	c.rule = "every field that can hold something is written under a name of its own"
	written := writtenFields(c.P)
	for _, m := range marshalMethods(c.P) {
		c.fail("method:"+m.String(), c.P.pos(m.Pos()), "%s replaces the standard encoding; what it leaves out is not decided", m)
	}
	sts := structTypes(c.P)
	c.count("struct_types", len(sts))
	fields := 0
	omits := map[string]bool{}
	for _, n := range sts {
		s := n.Underlying().(*types.Struct)
		if x := forbidden(c.P, n); x != "" {
			continue
		}
		sh := jsonFields(n)
		out := map[*types.Var]bool{}
		for _, f := range sh.out {
			out[f.f] = true
			if f.omit {
				omits[f.owner] = true
			}
		}
		// methods promoted from embedded types may take over the encoding
		for _, mt := range []types.Type{n, types.NewPointer(n)} {
			for _, mn := range []string{"MarshalJSON", "MarshalText"} {
				if o, idx, _ := types.LookupFieldOrMethod(mt, true, nil, mn); o != nil && len(idx) > 1 {
					c.fail("promoted:"+n.Obj().Name(), c.P.pos(n.Obj().Pos()), "type %s is encoded by a method of an embedded type, which hides its fields", n.Obj().Name())
				}
			}
		}
		var visit func(s *types.Struct, owner string, seen int)
		visit = func(s *types.Struct, owner string, seen int) {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				emb := f.Type()
				if p, ok := emb.Underlying().(*types.Pointer); ok {
					emb = p.Elem()
				}
				es, isStruct := emb.Underlying().(*types.Struct)
				if f.Embedded() && isStruct && !out[f] {
					if seen < 6 {
						visit(es, tname(emb), seen+1)
					}
					continue
				}
				fields++
				key := owner + "." + f.Name()
				if out[f] {
					c.ok("written: " + n.Obj().Name() + "/" + key)
					continue
				}
				if !f.Exported() {
					if pos, w := written[f]; !w {
						c.ok("never set: " + key)
						continue
					} else {
						c.fail("field:"+n.Obj().Name()+"/"+key, pos, "the field %s of %s nodes is set here but is not in the JSON text: %s", f.Name(), n.Obj().Name(), sh.lost[key])
						continue
					}
				}
				c.fail("field:"+n.Obj().Name()+"/"+key, c.P.pos(f.Pos()), "the field %s of %s nodes is not in the JSON text: %s", f.Name(), n.Obj().Name(), sh.lost[key])
			}
		}
		visit(s, n.Obj().Name(), 0)
	}
	c.count("fields", fields)
	// values
	l := jsonForms(c)
	c.count("trees", len(l))
	nilEmp := map[string]int{}
	example := map[string]string{}
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		mod, _ := a.moduleOf(r)
		w := &jsonWalk{st: r.St, p: c.P, leaves: map[string]bool{}, onPath: map[string]bool{}, nilEmp: map[string]int{}, shapes: map[string]jsonShape{}}
		w.value(mod, "", 0)
		all := map[string]bool{}
		treeLeaves(r.St, mod, 0, all)
		for _, k := range sortedKeys(all) {
			if !w.leaves[k] && w.bad == "" {
				c.fail("tree:"+f, "ast/ast_struct.go", "the tree of %q holds %s, which its JSON text does not show", surfToks(ts), k)
				return
			}
		}
		if d := a.jsonCall(r); d != "" {
			c.fail("call:"+f, "ast/ast.go", "%s (tree of %q)", d, surfToks(ts))
			return
		}
		c.mu.Lock()
		for k, v := range w.nilEmp {
			nilEmp[k] |= v
			if v&2 != 0 && example[k] == "" {
				example[k] = surfToks(ts)
			}
		}
		c.mu.Unlock()
		c.ok("tree: " + surfToks(ts))
	})
	for _, k := range sortedKeys(nilEmp) {
		if omits[k] && nilEmp[k] == 3 && strings.HasSuffix(k, "Block") {
			c.fail("omit:"+k, "ast/ast_struct.go", "the field %s is dropped when empty, but the parser distinguishes an absent from an empty one (%q)", k, example[k])
		} else {
			c.ok("empty and absent lists are told apart: " + k)
		}
	}
}
