package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// change is one edit a user can make to a tree: another name, another mark,
// another operator, a statement replaced in or dropped from a block.
type change struct{ path, what string }

// editor rewrites a tree; pick is asked at every place that can be changed, in
// order, and the place it accepts is changed (in place, as a user would).
type editor struct {
	a    *AbsParser
	st   *State
	pick func(ch change) bool
	d    int
	keys bool // inside a map, whose keys repeat the names
	args bool // right inside a call or an object creation
	// what is called bears a name of the source, not a keyword
	byName bool
	opnd   bool   // right in a place of an expression
	oper   bool   // right in a place of an operand of a binary operator
	host   string // the kind of node the operators stand before
	rec    *Rec   // the struct whose fields are looked at
}

func isBlockField(n string) bool {
	return n == "Body" || n == "TrueBlock" || n == "ElseBlock" || n == "Catch"
}

func (e *editor) newCall() Val {
	t := e.a.p.named("MethodStatement")
	if t == nil {
		return nil
	}
	r, ok := e.st.zero(t).(*Rec)
	i := fieldIdx(t, "Name")
	if !ok || i < 0 {
		return nil
	}
	r.F[i] = asStr(nameLeaf("zz2"))
	return &Ifc{T: t, V: r}
}

// value gives the changed value (the old one if nothing inside was changed).
func (e *editor) value(v Val, path, field string) Val {
	if e.d++; e.d > 2000 {
		return v
	}
	v = e.st.res(v)
	switch x := v.(type) {
	case *Ifc:
		if n := e.value(x.V, path, field); n != x.V {
			return &Ifc{T: x.T, V: n}
		}
	case *Ptr:
		if c, ok := e.st.load(x); ok {
			if n := e.value(c, path, field); n != c {
				e.st.store(x, n)
			}
		}
	case *Rec:
		s, ok := x.T.Underlying().(*types.Struct)
		if !ok {
			return v
		}
		out := x
		for i := 0; i < s.NumFields() && i < len(x.F); i++ {
			f := s.Field(i)
			if !f.Exported() && !f.Embedded() {
				continue
			}
			old := e.st.res(x.F[i])
			if j := fieldIdx(x.T, "Name"); j >= 0 {
				e.byName = isLeafText(e.st.res(x.F[j]), "name")
			}
			wasOp, wasOper, wasRec := e.opnd, e.oper, e.rec
			e.rec = x
			if f.Embedded() && f.Name() != "Statements" {
				e.host = tname(x.T)
			}
			if !f.Embedded() && f.Name() != "IsNot" && f.Name() != "IsUnaryMinus" {
				e.opnd = isExprField(x.T, f.Name()) && f.Name() != "In"
				e.oper = f.Name() == "Left" || f.Name() == "Right"
			}
			n := e.field(old, path+"."+f.Name(), f.Name(), x.T, f.Type())
			e.opnd, e.oper, e.rec = wasOp, wasOper, wasRec
			if n != old {
				if out == x {
					out = &Rec{T: x.T, F: append([]Val{}, x.F...)}
				}
				out.F[i] = n
			}
		}
		return out
	case *Slc:
		for i := 0; i < x.Len; i++ {
			p := fmt.Sprintf("%s[%d]", path, i)
			old := e.st.res(e.st.elem(x, i))
			n := e.value(old, p, "")
			if isBlockField(field) && !e.isSub(old) && e.pick(change{p, "replaced"}) {
				n = e.newCall()
			}
			if n != old && n != nil {
				e.st.store(&Ptr{Obj: x.Obj, Path: append(append([]int{}, x.Path...), x.Lo+i), T: types.NewPointer(x.T)}, n)
			}
		}
		if isBlockField(field) && x.Len > 0 && e.pick(change{path, "shortened"}) {
			return &Slc{Obj: x.Obj, Path: x.Path, Lo: x.Lo, Len: x.Len - 1, Cap: x.Cap, T: x.T}
		}
		if isBlockField(field) && e.pick(change{path, "extended"}) {
			l, ok := e.st.elems(x)
			if n := e.newCall(); ok && n != nil {
				return e.st.mkSlice(x.T, append(append([]Val{}, l...), n))
			}
		}
	case *MapP:
		mo, ok := e.st.heap[x.Obj].(*MapO)
		if !ok {
			return v
		}
		out := mo
		for i := range mo.V {
			was := e.keys
			e.keys = true
			n := e.value(mo.V[i], path+"["+e.st.key(mo.K[i])+"]", "")
			e.keys = was
			if n != mo.V[i] {
				if out == mo {
					out = &MapO{T: mo.T, K: mo.K, V: append([]Val{}, mo.V...)}
				}
				out.V[i] = n
			}
		}
		if len(mo.K) > 0 && !e.keys && e.pick(change{path, "shortened"}) {
			n := len(mo.K) - 1
			out = &MapO{T: mo.T, K: mo.K[:n:n], V: out.V[:n:n]}
		}
		if mt, ok := mo.T.Underlying().(*types.Map); ok && !e.keys {
			name := asStr(nameLeaf("zz3"))
			if n, ok := e.named(mt.Elem(), name); ok && e.pick(change{path, "extended"}) {
				out = &MapO{T: mo.T, K: append(append([]Val{}, mo.K...), name), V: append(append([]Val{}, out.V...), n)}
			}
		}
		if out != mo {
			e.st.heap[x.Obj] = out
		}
	}
	return v
}

// named is a value of a type with a name in it, its own or that of its Var.
func (e *editor) named(t types.Type, name Val) (Val, bool) {
	r, ok := e.st.zero(t).(*Rec)
	if !ok {
		return nil, false
	}
	if i := fieldIdx(t, "Name"); i >= 0 {
		r.F[i] = name
		return r, true
	}
	if i := fieldIdx(t, "Var"); i >= 0 {
		if v, ok := e.named(t.Underlying().(*types.Struct).Field(i).Type(), name); ok {
			r.F[i] = v
			return r, true
		}
	}
	return nil, false
}

// isSub: a declaration cannot be replaced by a statement.
func (e *editor) isSub(v Val) bool {
	r := e.st.nodeOf(v)
	if r == nil {
		return false
	}
	n, ok := types.Unalias(r.T).(*types.Named)
	return ok && n.Obj().Name() == "FunctionOrProcedure"
}

// newName is a reference to another variable.
func (e *editor) newName() Val {
	t := e.a.p.named("VarStatement")
	if t == nil {
		return nil
	}
	if r, ok := e.named(t, asStr(nameLeaf("zz4"))); ok {
		return &Ifc{T: t, V: r}
	}
	return nil
}

// unmarked: no operator stands before the operand yet.
func (e *editor) unmarked() bool {
	if e.rec == nil {
		return false
	}
	for _, f := range e.rec.F {
		if c, ok := e.st.res(f).(*C); !ok || c.V.Kind() == constant.Bool && constant.BoolVal(c.V) {
			return false
		}
	}
	return true
}

// newExp is a binary expression over two other variables.
func (e *editor) newExp(op string) Val {
	t := e.a.p.named("ExpStatement")
	o, ok := e.a.p.Pkg.Types.Scope().Lookup(op).(*types.Const)
	if t == nil || !ok {
		return nil
	}
	r, ok := e.st.zero(t).(*Rec)
	l, i, k := fieldIdx(t, "Left"), fieldIdx(t, "Right"), fieldIdx(t, "Operation")
	if !ok || l < 0 || i < 0 || k < 0 {
		return nil
	}
	x, y := e.newName(), e.newName()
	if x == nil || y == nil {
		return nil
	}
	r.F[l], r.F[i], r.F[k] = x, y, &C{o.Val(), t.Underlying().(*types.Struct).Field(k).Type()}
	pt := types.NewPointer(t)
	return &Ifc{T: pt, V: &Ptr{Obj: e.st.alloc(r), T: pt}}
}

// places of a tree that hold one expression, whatever it is
func isExprField(owner types.Type, n string) bool {
	switch n {
	case "Expression", "Left", "Right", "Expr", "To", "In", "WhileExpr", "Item":
		return true
	case "TrueBlock", "ElseBlock":
		return tname(owner) == "TernaryStatement"
	}
	return n == "Param" && tname(owner) == "ReturnStatement"
}

func isLeafText(v Val, class string) bool {
	s, ok := strOf(v)
	if !ok || len(s.P) != 1 {
		return false
	}
	l, ok := s.P[0].V.(*Leaf)
	return ok && l.Class == class
}

func (e *editor) field(v Val, path, name string, owner, t types.Type) Val {
	switch {
	case isString(t) && name == "Directive" && isLeafText(v, "directive"):
		if e.pick(change{path, "exchanged"}) {
			return asStr(&Leaf{ID: "zz5", T: types.Typ[types.String], Class: "directive", NonEmpty: true, Distinct: true})
		}
		if e.pick(change{path, "removed"}) {
			return lit("")
		}
		return v
	case isString(t) && name == "Constructor" && isLeafText(v, "name"):
		if e.pick(change{path, "renamed"}) {
			return asStr(nameLeaf("zz1"))
		}
		return v
	case isBool(t) && (name == "IsNot" || name == "IsUnaryMinus"):
		if c, ok := v.(*C); ok && c.V.Kind() == constant.Bool && constant.BoolVal(c.V) && e.pick(change{path, "cleared"}) {
			return &C{constant.MakeBool(false), c.T}
		}
		if c, ok := v.(*C); ok && c.V.Kind() == constant.Bool && e.opnd && e.unmarked() && !strings.Contains(path, ".For.") && (name != "IsNot" || !e.oper) &&
			(name == "IsNot" || e.host != "MethodStatement") && e.pick(change{path, "set"}) {
			return &C{constant.MakeBool(true), c.T}
		}
		return v
	case name == "Type" && isInt(t) && tname(owner) == "FunctionOrProcedure":
		o, ok := e.a.p.Pkg.Types.Scope().Lookup("PFTypeFunction").(*types.Const)
		if c, k := v.(*C); ok && k && c.V.ExactString() != o.Val().ExactString() && e.pick(change{path, "exchanged"}) {
			return &C{o.Val(), c.T}
		}
		return v
	case name == "Default" && tname(owner) == "ParamStatement":
		if !isNone(v) {
			if e.pick(change{path, "removed"}) {
				return &Nil{t}
			}
		} else if u := e.a.p.named("UndefinedStatement"); u != nil && e.pick(change{path, "set"}) {
			return &Ifc{T: u, V: e.st.zero(u)}
		}
		return v
	case isExprField(owner, name) && !isNone(v):
		if n := e.newName(); n != nil && types.IsInterface(t) && e.pick(change{path, "replaced"}) {
			return n
		}
		if (name == "Left" || name == "Right") && !strings.Contains(path, ".For.") {
			for _, op := range []string{"OpDiv", "OpMinus", "OpOr"} {
				if n := e.newExp(op); n != nil && e.pick(change{path, "replaced by an expression, " + op}) {
					return n
				}
			}
		}
		return e.value(v, path, name)
	case name == "IfElseBlock" || name == "Params":
		n := e.value(v, path, name)
		if x, ok := e.st.res(n).(*Slc); ok && x.Len > 0 && e.pick(change{path, "shortened"}) {
			return &Slc{Obj: x.Obj, Path: x.Path, Lo: x.Lo, Len: x.Len - 1, Cap: x.Cap, T: x.T}
		}
		return n
	case name == "Statements" && tname(owner) == "ExprStatements":
		n := e.value(v, path, name)
		x, ok := e.st.res(n).(*Slc)
		if !ok {
			return n
		}
		for i := 0; i < x.Len; i++ {
			if e.pick(change{fmt.Sprintf("%s[%d]", path, i), "replaced"}) {
				e.st.store(&Ptr{Obj: x.Obj, Path: append(append([]int{}, x.Path...), x.Lo+i), T: types.NewPointer(x.T)}, e.newName())
				return n
			}
		}
		if l, ok := e.st.elems(x); ok && e.args && e.pick(change{path, "extended"}) {
			return e.st.mkSlice(x.T, append(append([]Val{}, l...), e.newName()))
		}
		return n
	case isString(t) && name == "Name":
		if s, ok := strOf(v); ok && len(s.P) == 1 && s.P[0].V != nil && !e.keys && e.pick(change{path, "renamed"}) {
			return asStr(nameLeaf("zz1"))
		}
		return v
	case isBool(t) && (name == "Export" || name == "IsValue"):
		if c, ok := v.(*C); ok && c.V.Kind() == constant.Bool && e.pick(change{path, "negated"}) {
			return &C{constant.MakeBool(!constant.BoolVal(c.V)), c.T}
		}
		return v
	case name == "Operation" && isInt(t):
		c, ok := v.(*C)
		if !ok {
			return v
		}
		for _, n := range []string{"OpPlus", "OpMul", "OpMinus", "OpEq", "OpAnd"} {
			o, ok := e.a.p.Pkg.Types.Scope().Lookup(n).(*types.Const)
			if ok && o.Val().ExactString() != c.V.ExactString() && e.pick(change{path, "exchanged for " + n}) {
				return &C{o.Val(), c.T}
			}
		}
		return v
	}
	was := e.args
	e.args = name == "Param" && (tname(owner) == "NewObjectStatement" || tname(owner) == "MethodStatement" && e.byName)
	defer func() { e.args = was }()
	return e.value(v, path, name)
}

// changes lists the edits of a tree.
func (a *AbsParser) changes(st *State, mod *Ptr) (out []change) {
	st = st.clone()
	e := &editor{a: a, st: st, pick: func(ch change) bool { out = append(out, ch); return false }}
	v, _ := st.load(mod)
	e.value(v, "", "")
	return
}

// edited applies the k-th edit to the tree.
func (a *AbsParser) edited(st *State, mod *Ptr, k int) *State {
	st = st.clone()
	i := -1
	e := &editor{a: a, st: st, pick: func(change) bool { i++; return i == k }}
	v, _ := st.load(mod)
	if n := e.value(v, "", ""); n != v {
		st.store(mod, n)
	}
	return st
}

// handed lists what JSON hands to the encoder.
func (a *AbsParser) handed(c *Ctx, st *State, node *Ptr) (string, *State, string) {
	js := c.P.method("AstNode", "JSON")
	if js == nil {
		return "", nil, "method JSON of AstNode not found"
	}
	a.m.steps = 0
	n0 := len(st.events)
	var l []string
	var last *State
	for _, o := range a.m.call(st.clone(), js, []Val{node}, nil, nil) {
		if o.bad() {
			return "", nil, outMsg([]Out{o})
		}
		s := "nothing"
		for _, ev := range o.St.events[min(n0, len(o.St.events)):] {
			if strings.HasPrefix(ev.Name, "extern:") {
				s = ""
				for _, x := range ev.Args {
					s += o.St.key(x) + " "
				}
			}
		}
		l = append(l, s)
		t, ok := o.Res.(Tup)
		if last == nil || ok && len(t) == 2 && isNone(o.St.res(t[1])) {
			last = o.St // later steps follow a success
		}
	}
	a.total += a.m.steps
	if last == nil {
		return "", nil, "no outcome"
	}
	return strings.Join(l, " | "), last, ""
}

func followForms(c *Ctx) []string {
	l := []string{}
	for _, f := range stmtForms {
		g := f
		for i, n := 0, slotsOf(f, "B"); i < n; i++ {
			g = subst(g, "B", 0, "N = N ; N ( N ) ;")
		}
		l = append(l, g+" ;", "Процедура N ( N , Знач N = # ) Экспорт "+g+" ; N ( ) ; КонецПроцедуры")
	}
	for _, f := range subForms {
		l = append(l, subst(f, "B", 0, "N = N + N ; Если N Тогда N ( ) ; Иначе N = N ; КонецЕсли ;"), f+" N ( ) ;")
	}
	l = append(l, varForms...)
	for _, f := range varForms {
		l = append(l, f+" Перем N ; Процедура N ( ) N = N . N ; КонецПроцедуры Функция N ( ) Возврат N ; КонецФункции N ( ) ;")
	}
	es := append(append([]string{}, exprForms...), groupForms...)
	for _, f := range es {
		l = append(l, "N = "+f+" ;", "N ( "+f+" , N ) ;")
	}
	if c.Thorough {
		l = append(l, moduleForms(c)...)
	} else {
		for i, f := range moduleForms(c) {
			if i%12 == 0 {
				l = append(l, f)
			}
		}
	}
	return uniq(l)
}

// runP10: what is shown is the tree as it is now.
func runP10(c *Ctx) {
	c.rule = "after an edit of the tree, everything shows what it would show had nothing been asked before, and the printed text reads back as the edited tree"
	l := followForms(c)
	c.count("trees", len(l))
	where := a0where(c, "Print")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		mod, err := a.moduleOf(r)
		if err != nil {
			c.fail("tree:"+f, "ast", "%v", err)
			return
		}
		bad := func(what, msg string) {
			c.fail("tree:"+f, where, "%s of %q cannot be decided: %s", what, surfToks(ts), msg)
		}
		// everything is asked once
		used := r.St
		for _, k := range confs[:2] {
			p := a.print(&ParseRes{St: used, Node: r.Node}, k, nil)[0]
			if p.bad != "" {
				bad("printing the tree", p.bad)
				return
			}
			used = p.st
		}
		mv, _ := used.load(mod)
		msg := ""
		used.stmtValues(mv, "", 0, sparse(f, func(_ string, s Val, block bool) {
			if !block || msg != "" {
				return
			}
			p := a.printStmt(&ParseRes{St: used, Node: r.Node}, s, confs[0], nil)[0]
			if p.bad != "" {
				msg = p.bad
				return
			}
			used = p.st
		}))
		if msg != "" {
			bad("printing a statement", msg)
			return
		}
		_, st, b := a.walkModule(&ParseRes{St: used, Node: r.Node})
		if b != "" {
			bad("walking the tree", b)
			return
		}
		_, used, b = a.handed(c, st, r.Node)
		if b != "" {
			bad("serialising the tree", b)
			return
		}
		// then the tree is edited
		chs := a.changes(r.St, mod)
		for k, ch := range chs {
			if !c.Thorough && len(chs) > 200 && k%(len(chs)/200+1) != 0 {
				continue
			}
			n := &ParseRes{St: a.edited(r.St, mod, k), Node: r.Node}
			u := &ParseRes{St: a.edited(used, mod, k), Node: r.Node}
			what := fmt.Sprintf("with %s %s", strings.TrimPrefix(ch.path, "."), ch.what)
			fail := func(w, format string, args ...any) {
				c.fail("tree:"+f+":"+ch.path+ch.what, w, "the tree of %q, %s, %s", surfToks(ts), what, fmt.Sprintf(format, args...))
			}
			tn, tu := n.St.term(a.modVal(n.St, mod)), u.St.term(a.modVal(u.St, mod))
			if tn == nil || tu == nil || tn.String() != tu.String() {
				c.count("edits_not_comparable", 1)
				continue
			}
			want := canon(a.tree(u), a.ops)
			for _, cf := range confs[:2] {
				pn, pu := a.print(n, cf, dotNames(ts))[0], a.print(u, cf, dotNames(ts))[0]
				if pn.bad != "" || pu.bad != "" {
					fail(where, "cannot be printed: %s", pn.bad+pu.bad)
					return
				}
				if x, y := show(pn.st, pn.text), show(pu.st, pu.text); x != y {
					fail(where, "(%s) prints as %q after it was shown before, and as %q otherwise", cf, y, x)
					return
				}
				if pu.tree == nil || len(pu.notes) > 0 {
					fail(where, "(%s) prints as %q, which is not of the language", cf, show(pu.st, pu.text))
					return
				}
				if d := diff(want, pu.tree, ""); d != "" {
					fail(where, "(%s) prints as %q: reads back differently: %s", cf, show(pu.st, pu.text), d)
					return
				}
				c.count("printings_read_back", 1)
			}
			vn, _, b1 := a.walkModule(n)
			vu, _, b2 := a.walkModule(u)
			if b1+b2 != "" {
				fail(walkWhere(c, "Walk"), "cannot be walked: %s", b1+b2)
				return
			}
			if x, y := visitKeys(vn), visitKeys(vu); x != y {
				fail(walkWhere(c, "Walk"), "is walked differently after it was shown before: %s", firstDiff(x, y))
				return
			}
			hn, _, b1 := a.handed(c, n.St, r.Node)
			hu, _, b2 := a.handed(c, u.St, r.Node)
			if b1+b2 != "" {
				fail(jsonWhere(c), "cannot be serialised: %s", b1+b2)
				return
			}
			if hn != hu {
				fail(jsonWhere(c), "is serialised differently after it was shown before: %s", firstDiff(hn, hu))
				return
			}
			c.count("edits", 1)
		}
		c.ok("tree: " + surfToks(ts))
	})
}

func (a *AbsParser) modVal(st *State, mod *Ptr) Val {
	v, _ := st.load(mod)
	return v
}

func jsonWhere(c *Ctx) string {
	if js := c.P.method("AstNode", "JSON"); js != nil {
		return c.P.pos(js.Pos())
	}
	return "ast"
}

func visitKeys(vs []visit) string {
	var b strings.Builder
	for _, v := range vs {
		b.WriteString(v.key + " in " + v.cont + "\n")
	}
	return b.String()
}

func init() {
	checks["P10"] = checkDef{runP10, "Abstract interpretation of Print, PrintStatement, Walk and JSON on trees of every construct, then of an edit of the tree (a name, a mark, an operator, a statement or variable more, less or another), then of Print, Walk and JSON again: they must do what they do on an edited tree that was never shown, and the printed text must read back as the edited tree."}
}
