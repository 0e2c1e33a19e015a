package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runA01: questions asked of a tree are answered from the tree.
func runA01(c *Ctx) {
	c.rule = "result of every accessor = the attribute of the tree it stands for"
	accessorTables(c)
	l := append(moduleForms(c), placedForms()...)
	for _, e := range exprs2() {
		l = append(l, "N = "+e+" ;")
	}
	l = uniq(l)
	c.count("trees", len(l))
	src := c.P.method("AstNode", "SrsCode")
	stmt, stmtC := c.P.method("AstNode", "PrintStatement"), c.P.method("AstNode", "PrintStatementWithConf")
	if src == nil || stmt == nil || stmtC == nil {
		c.fail("entry", "ast", "method SrsCode, PrintStatement or PrintStatementWithConf of AstNode not found")
		return
	}
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		bad := false
		fail := func(key, where, format string, args ...any) {
			if !bad {
				c.fail(key+":"+f, where, format+" (tree of %q)", append(args, surfToks(ts))...)
			}
			bad = true
		}
		mod, err := a.moduleOf(r)
		if err != nil {
			fail("module", "ast", "%v", err)
			return
		}
		v, _ := r.St.load(mod)
		n := 0
		r.St.stmtValues(v, "", 0, sparse(f, func(path string, s Val, block bool) {
			if bad {
				return
			}
			a.askNode(c, r, path, s, fail)
			if n++; n%3 != 0 && !block {
				return
			}
			// the short form prints as the long one with the usual settings
			a.m.steps = 0
			st := r.St.clone()
			cv, err := a.confVal(st, conf{false, 4})
			if err != nil {
				fail("settings", "ast/ast_print.go", "%v", err)
				return
			}
			x := textsOf(a.m.call(r.St.clone(), stmt, []Val{r.Node, s}, nil, nil))
			y := textsOf(a.m.call(st, stmtC, []Val{r.Node, s, cv}, nil, nil))
			if x != y || strings.Contains(x, "undecided") {
				fail("short", c.P.pos(stmt.Pos()), "PrintStatement prints %s as %s, PrintStatementWithConf with a margin of 4 as %s", path, x, y)
			}
		}))
		if !bad {
			c.ok("tree: " + surfToks(ts))
		}
	})
}

func textsOf(os []Out) string {
	m := map[string]bool{}
	for _, o := range os {
		if o.bad() {
			m["undecided: "+outMsg([]Out{o})] = true
			continue
		}
		if s, ok := strOf(o.St.res(o.Res)); ok {
			m[fmt.Sprintf("%q", show(o.St, s))] = true
		} else {
			m["undecided: "+o.St.key(o.Res)] = true
		}
	}
	return strings.Join(sortedKeys(m), " or ")
}

// sourceKept: parsing leaves the text it reads as it was given, so that
// SrsCode returns it and every place counts from its first character.
func sourceKept(c *Ctx, a *AbsParser) bool {
	ctor, src, lex := c.P.fn("NewAST"), c.P.method("AstNode", "SrsCode"), c.P.method("AstNode", "Lex")
	if ctor == nil || src == nil || lex == nil {
		c.fail("entry", "ast", "NewAST, SrsCode or Lex not found")
		return false
	}
	code := &Leaf{ID: "code", T: types.Typ[types.String], Class: "text"}
	want := a.m.base.key(&Str{P: []Piece{{V: code}}, T: code.T})
	for _, f := range []string{"", "N = N ;", "Процедура N ( ) Перем x1 ; КонецПроцедуры", "N N", "Прервать ;", "$", "Перем x1 , x1 ;"} {
		a.toks = toks(f)
		a.m.steps = 0
		st := a.m.base.clone()
		st.bind["$pos"] = cInt(0)
		for _, o := range a.m.call(st, ctor, []Val{code}, nil, nil) {
			if o.bad() {
				c.fail("source", c.P.pos(ctor.Pos()), "NewAST cannot be decided: %s", outMsg([]Out{o}))
				return false
			}
			for _, q := range a.m.call(o.St, a.parse, []Val{o.Res}, nil, nil) {
				if q.bad() {
					c.fail("source:"+f, c.P.pos(a.parse.Pos()), "parsing an arbitrary text with the tokens %q cannot be decided: %s", surfToks(a.toks), outMsg([]Out{q}))
					return false
				}
				for _, s := range a.m.call(q.St, src, []Val{o.Res}, nil, nil) {
					if t, ok := strOf(s.St.res(s.Res)); s.bad() || !ok || s.St.key(t) != want {
						c.fail("source:"+f, c.P.pos(a.parse.Pos()), "after parsing, the text the tokens were read from is %s instead of the text given to NewAST (tokens %q)", s.St.key(s.Res), surfToks(a.toks))
						return false
					}
				}
			}
		}
	}
	c.ok("the text is kept by parsing")
	return true
}

// askNode calls the accessors of one node.
func (a *AbsParser) askNode(c *Ctx, r *ParseRes, path string, s Val, fail func(key, where, format string, args ...any)) {
	i, ok := r.St.res(s).(*Ifc)
	if !ok {
		return
	}
	v := r.St.res(i.V)
	pt := v
	rec, ok := r.St.expand(v).(*Rec)
	if p, isP := v.(*Ptr); isP {
		x, k := r.St.load(p)
		if !k {
			return
		}
		rec, ok = r.St.expand(x).(*Rec)
	}
	if !ok {
		return
	}
	field := func(name string) Val {
		st, ok := rec.T.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == name {
				return r.St.res(rec.F[k])
			}
		}
		return nil
	}
	call := func(name string, want func(o Out) string) {
		fn := a.p.SSA.LookupMethod(i.T, a.p.Pkg.Types, name)
		if fn == nil {
			fail("accessor", "ast/ast_struct.go", "%s has no method %s", i.T, name)
			return
		}
		a.m.steps = 0
		c.count("accessor_calls", 1)
		for _, o := range a.m.call(r.St.clone(), fn, []Val{pt}, nil, nil) {
			if o.bad() {
				fail("accessor", c.P.pos(fn.Pos()), "%s of %s cannot be decided: %s", name, path, outMsg([]Out{o}))
				return
			}
			if d := want(o); d != "" {
				fail("accessor:"+name, c.P.pos(fn.Pos()), "%s of %s %s", name, path, d)
				return
			}
		}
	}
	kind := ""
	if n, ok := rec.T.(*types.Named); ok {
		kind = n.Obj().Name()
	}
	switch kind {
	case "CallChainStatement":
		is := false
		if u, ok := field("Unit").(*Ifc); ok {
			if n, ok := u.T.(*types.Named); ok {
				is = n.Obj().Name() == "MethodStatement"
			}
		}
		call("IsMethod", func(o Out) string {
			if b, ok := o.St.res(o.Res).(*C); ok && b.V.Kind() == constant.Bool && constant.BoolVal(b.V) == is {
				return ""
			}
			return fmt.Sprintf("is %s although the last part is %s", o.St.key(o.Res), map[bool]string{true: "a call", false: "no call"}[is])
		})
	case "MethodStatement", "NewObjectStatement":
		p := field("Param")
		if p == nil {
			fail("accessor", "ast/ast_struct.go", "%s has no field Param", kind)
			return
		}
		call("Params", func(o Out) string {
			x, y := r.St.term(p), o.St.term(o.Res)
			if x.String() == y.String() {
				return ""
			}
			return fmt.Sprintf("is %s, the arguments are %s", y, x)
		})
	}
}

// accessorTables decides the accessors that do not need a tree.
func accessorTables(c *Ctx) {
	a, err := newAbsParser(c.P)
	if err != nil {
		c.fail("parser", "ast", "%v", err)
		return
	}
	// operators
	want := map[string]string{"OpUndefined": "", "OpPlus": "+", "OpMinus": "-", "OpMul": "*", "OpDiv": "/", "OpEq": "=", "OpGt": ">", "OpLt": "<", "OpNe": "<>", "OpLe": "<=", "OpGe": ">=", "OpMod": "%", "OpOr": "ИЛИ", "OpAnd": "И"}
	var fn *ssa.Function
	if n := c.P.named("OperationType"); n != nil {
		if sel := types.NewMethodSet(n).Lookup(c.P.Pkg.Types, "String"); sel != nil {
			fn = c.P.SSA.MethodValue(sel)
		}
	}
	if fn == nil {
		c.fail("operator", "ast/ast_struct.go", "method String of OperationType not found")
	} else {
		for _, k := range sortedKeys(want) {
			o, ok := c.P.Pkg.Types.Scope().Lookup(k).(*types.Const)
			if !ok {
				c.fail("operator:"+k, "ast/ast_struct.go", "operator constant %s not found", k)
				continue
			}
			got := textsOf(a.m.call(a.m.base.clone(), fn, []Val{&C{o.Val(), o.Type()}}, nil, nil))
			if got != fmt.Sprintf("%q", want[k]) {
				c.fail("operator:"+k, c.P.pos(fn.Pos()), "operator %s reads %s instead of %q", k, got, want[k])
				continue
			}
			c.ok("operator " + k)
		}
	}
	// the source text
	st := a.m.base.clone()
	code := &Leaf{ID: "code", T: types.Typ[types.String], Class: "text"}
	ctor, src, print, stmt := c.P.fn("NewAST"), c.P.method("AstNode", "SrsCode"), c.P.method("AstNode", "Print"), c.P.method("AstNode", "PrintStatement")
	if ctor == nil || src == nil || print == nil || stmt == nil {
		c.fail("entry", "ast", "NewAST, SrsCode, Print or PrintStatement not found")
		return
	}
	for _, o := range a.m.call(st, ctor, []Val{code}, nil, nil) {
		if o.bad() {
			c.fail("source", c.P.pos(ctor.Pos()), "NewAST cannot be decided: %s", outMsg([]Out{o}))
			return
		}
		for _, q := range a.m.call(o.St, src, []Val{o.Res}, nil, nil) {
			if q.bad() || q.St.key(q.Res) != q.St.key(code) && q.St.key(q.Res) != q.St.key(&Str{P: []Piece{{V: code}}, T: code.T}) {
				c.fail("source", c.P.pos(src.Pos()), "SrsCode is %s instead of the text given to NewAST", q.St.key(q.Res))
				return
			}
		}
		// nothing prints as nothing
		for _, q := range a.m.call(o.St.clone(), stmt, []Val{o.Res, &Nil{stmt.Params[1].Type()}}, nil, nil) {
			if s, ok := strOf(q.Res); q.bad() || !ok || show(q.St, s) != "" {
				c.fail("nothing", c.P.pos(stmt.Pos()), "PrintStatement of nothing: %s", outMsg([]Out{q}))
				return
			}
		}
	}
	if !sourceKept(c, a) {
		return
	}
	c.ok("source text")
	c.ok("nothing prints as nothing")
}

func init() {
	checks["A01"] = checkDef{runA01, "Abstract interpretation of the accessors (IsMethod, Params, String of operators, SrsCode, PrintStatement) on the nodes of the trees that the abstractly interpreted parser builds; the result must be the node's attribute."}
}
