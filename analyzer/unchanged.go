package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// marshalMethods are the repository's own encoding methods of tree types.
func marshalMethods(p *Prog) (out []*ssa.Function) {
	trees := treeTypes(p)
	for _, n := range p.Pkg.Types.Scope().Names() {
		tn, ok := p.Pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || !trees[tn.Type().String()] {
			continue
		}
		ms := p.SSA.MethodSets.MethodSet(types.NewPointer(tn.Type()))
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "MarshalJSON", "MarshalText":
				if f := p.SSA.MethodValue(ms.At(i)); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	return
}

func runP05(c *Ctx) {
	c.rule = "memory reachable from the tree is the same before and after"
	l := append(moduleForms(c), placedForms()...)
	for i, e := range unaryForms() {
		if c.Thorough || i%4 == 0 {
			l = append(l, "N = "+e+" ;", "N ( "+e+" ) ;")
		}
	}
	for _, e := range exprs2() {
		l = append(l, "N ( "+e+" ) ;")
	}
	l = uniq(l)
	c.count("trees", len(l))
	js := c.P.method("AstNode", "JSON")
	if js == nil {
		c.fail("entry:JSON", "ast", "method JSON of AstNode not found")
		return
	}
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		mod, err := a.moduleOf(r)
		if err != nil {
			c.fail("tree:"+f, "ast", "%v", err)
			return
		}
		content := func(st *State) string {
			v, _ := st.load(mod)
			return st.key(v)
		}
		before := content(r.St)
		same := func(op, where string, st *State) bool {
			if st == nil {
				return true
			}
			if after := content(st); after != before {
				c.fail("tree:"+f+":"+op, where, "%s changes the tree of %q: %s", op, surfToks(ts), firstDiff(before, after))
				return false
			}
			c.count("operations", 1)
			return true
		}
		for _, k := range confs[:2] {
			for _, p := range a.print(r, k, nil) {
				if p.bad != "" {
					c.fail("tree:"+f, a0where(c, "Print"), "printing the tree of %q cannot be decided: %s", surfToks(ts), p.bad)
					return
				}
				if !same("Print", a0where(c, "Print"), p.st) {
					return
				}
			}
		}
		mv, _ := r.St.load(mod)
		bad := false
		r.St.stmtValues(mv, "", 0, sparse(f, func(path string, s Val, _ bool) {
			if bad {
				return
			}
			for _, p := range a.printStmt(r, s, confs[0], nil) {
				if p.bad != "" {
					c.fail("tree:"+f, a0where(c, "PrintStatementWithConf"), "printing %s of %q cannot be decided: %s", path, surfToks(ts), p.bad)
					bad = true
					return
				}
				if !same("PrintStatement", a0where(c, "PrintStatementWithConf"), p.st) {
					bad = true
					return
				}
			}
		}))
		if bad {
			return
		}
		_, st, b := a.walkModule(r)
		if b != "" {
			c.fail("tree:"+f, walkWhere(c, "Walk"), "walking the tree of %q cannot be decided: %s", surfToks(ts), b)
			return
		}
		if !same("Walk", walkWhere(c, "Walk"), st) {
			return
		}
		a.m.steps = 0
		for _, o := range a.m.call(r.St.clone(), js, []Val{r.Node}, nil, nil) {
			if o.bad() {
				c.fail("tree:"+f, c.P.pos(js.Pos()), "serialising the tree of %q cannot be decided: %s", surfToks(ts), outMsg([]Out{o}))
				return
			}
			if !same("JSON", c.P.pos(js.Pos()), o.St) {
				return
			}
		}
		c.ok("tree: " + surfToks(ts))
	})
	// encoding methods of the repository run inside the library
	for _, m := range marshalMethods(c.P) {
		e := newEffects(c.P, []*ssa.Function{m})
		bad := ""
		e.each(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if _, local := rootOf(x.Addr).(*ssa.Alloc); !local {
					bad = c.P.posRaw(in.Pos())
				}
			case *ssa.MapUpdate:
				if _, local := rootOf(x.Map).(*ssa.MakeMap); !local {
					bad = c.P.posRaw(in.Pos())
				}
			}
		})
		c.require(bad == "", "encoding method writes only its own memory: "+m.String(), "marshal:"+m.String(), bad, "%s, which runs during serialising, writes memory that is not its own", m)
	}
	c.ok("encoding methods of the repository examined")
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeSlice:
			return &ssa.Alloc{}
		default:
			return v
		}
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := max(0, i-40), min(len(s), i+80)
		return strings.ToValidUTF8(s[lo:hi], "")
	}
	return "..." + cut(a) + "... becomes ..." + cut(b) + "..."
}
