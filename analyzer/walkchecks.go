package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const howWalk = "Abstract interpretation of the walker's SSA form with an opaque callback, on trees that the abstractly interpreted parser builds. "

func init() {
	checks["W01"] = checkDef{runW01, howWalk + "The recorded callback calls are compared, item by item, with the positions the public tree types define: each block item, condition, ternary part, operand, call argument and returned value at a visited position must be visited once, children first."}
	checks["W02"] = checkDef{runW02, howWalk + "For each recorded call the enclosing procedure or function, the containing node and the address of the slot are compared with the position of the item in the tree."}
}

// spot is one position of the tree that the walker must visit.
type spot struct {
	path  string
	key   string
	slot  string // identity of the slot (block items), "" otherwise
	root  string // identity of the enclosing procedure or function
	cont  string // key of the container ("" at module level)
	inner []*spot
}

// nodeOf is the struct behind a statement value.
func (st *State) nodeOf(v Val) *Rec {
	for i := 0; i < 8; i++ {
		v = st.res(v)
		switch x := v.(type) {
		case *Ifc:
			v = x.V
		case *Ptr:
			c, ok := st.load(x)
			if !ok {
				return nil
			}
			v = c
		default:
			if r, ok := v.(*Rec); ok {
				return r
			}
			return nil
		}
	}
	return nil
}

func (st *State) field(r *Rec, name string) Val {
	if i := fieldIdx(r.T, name); i >= 0 {
		return st.res(r.F[i])
	}
	return nil
}

func (st *State) nodeKey(v Val) string {
	if r := st.nodeOf(v); r != nil {
		return st.key(r)
	}
	return st.key(v)
}

func isNone(v Val) bool {
	switch v.(type) {
	case nil, *Nil:
		return true
	}
	return false
}

type visitSpec struct {
	st  *State
	all []*spot
	bad string
}

func (w *visitSpec) block(path string, list Val, root, cont string) (out []*spot) {
	s, ok := w.st.res(list).(*Slc)
	if !ok {
		if !isNone(list) {
			w.bad = "a block of unknown form at " + path
		}
		return nil
	}
	for i := 0; i < s.Len; i++ {
		v := w.st.elem(s, i)
		slot := fmt.Sprintf("&%d%v", s.Obj, append(append([]int{}, s.Path...), s.Lo+i))
		if sp := w.item(fmt.Sprintf("%s[%d]", path, i), v, slot, root, cont); sp != nil {
			out = append(out, sp)
		}
	}
	return
}

// item describes the visits of one position and of what it contains.
func (w *visitSpec) item(path string, v Val, slot, root, cont string) *spot {
	st := w.st
	v = st.res(v)
	if isNone(v) {
		return nil
	}
	s := &spot{path: path, key: st.nodeKey(v), slot: slot, root: root, cont: cont}
	r := st.nodeOf(v)
	if r != nil {
		n, ok := types.Unalias(r.T).(*types.Named)
		if ok {
			k := s.key
			f := func(n string) Val { return st.field(r, n) }
			add := func(x *spot) {
				if x != nil {
					s.inner = append(s.inner, x)
				}
			}
			switch n.Obj().Name() {
			case "FunctionOrProcedure":
				x := st.res(v)
				if i, ok := x.(*Ifc); ok {
					x = st.res(i.V)
				}
				s.root = st.ident(x)
				s.inner = w.block(path+".Body", f("Body"), s.root, k)
			case "IfStatement":
				add(w.item(path+".Expression", f("Expression"), "", root, k))
				for _, b := range []string{"TrueBlock", "IfElseBlock", "ElseBlock"} {
					s.inner = append(s.inner, w.block(path+"."+b, f(b), root, k)...)
				}
			case "TryStatement":
				s.inner = append(w.block(path+".Body", f("Body"), root, k), w.block(path+".Catch", f("Catch"), root, k)...)
			case "LoopStatement":
				s.inner = w.block(path+".Body", f("Body"), root, k)
			case "MethodStatement":
				if p := st.nodeOf(f("Param")); p != nil {
					es, _ := st.elems(st.field(p, "Statements"))
					for i, e := range es {
						add(w.item(fmt.Sprintf("%s.Param[%d]", path, i), e, "", root, k))
					}
				}
			case "ExpStatement":
				add(w.item(path+".Left", f("Left"), "", root, k))
				add(w.item(path+".Right", f("Right"), "", root, k))
			case "TernaryStatement":
				for _, b := range []string{"Expression", "TrueBlock", "ElseBlock"} {
					add(w.item(path+"."+b, f(b), "", root, k))
				}
			case "ReturnStatement":
				add(w.item(path+".Param", f("Param"), "", root, k))
			}
		}
	}
	w.all = append(w.all, s)
	return s
}

// visit is one recorded callback call.
type visit struct {
	key, slot, root, cont string
	n                     int
}

func (a *AbsParser) moduleOf(r *ParseRes) (*Ptr, error) {
	s, ok := a.node.Underlying().(*types.Struct)
	if !ok {
		return nil, errf("AstNode is not a struct")
	}
	i := fieldIdx(a.node, "ModuleStatement")
	if i < 0 {
		return nil, errf("AstNode has no embedded ModuleStatement")
	}
	return &Ptr{Obj: r.Node.Obj, Path: subPath(r.Node.Path, i), T: types.NewPointer(s.Field(i).Type())}, nil
}

// walk interprets the walker with an opaque callback.
func (a *AbsParser) walk(st *State, call func(st *State, cb Val) []Out) ([]visit, *State, string) {
	a.m.steps = 0
	a.m.opaque = func(st *State, args []Val) []Val {
		if len(args) != 3 {
			return []Val{lit("unknown callback shape")}
		}
		load := func(v Val) (Val, Val) {
			p, ok := st.res(v).(*Ptr)
			if !ok {
				return nil, nil
			}
			c, _ := st.load(p)
			return p, c
		}
		slot, item := load(args[2])
		_, parent := load(args[1])
		id := ""
		if slot != nil {
			id = st.ident(slot)
		}
		root := ""
		if r := st.res(args[0]); !isNone(r) {
			root = st.ident(r)
		}
		k, pk := "", ""
		if item != nil && !isNone(st.res(item)) {
			k = st.nodeKey(item)
		}
		if parent != nil && !isNone(st.res(parent)) {
			pk = st.nodeKey(parent)
		}
		return []Val{lit(k), lit(id), lit(root), lit(pk)}
	}
	defer func() { a.m.opaque = nil }()
	n0 := len(st.events)
	outs := call(st, &Fn{Name: "callback"})
	a.total += a.m.steps
	if len(outs) != 1 || outs[0].bad() {
		return nil, nil, outMsg(outs)
	}
	var vs []visit
	for _, e := range outs[0].St.events[n0:] {
		if e.Name != "callback" {
			continue
		}
		if len(e.Args) != 4 {
			return nil, nil, "the callback is called with another number of arguments"
		}
		var s [4]string
		for i := range s {
			s[i], _ = constStr(e.Args[i].(*Str))
		}
		if s[0] == "" {
			continue // an empty slot
		}
		vs = append(vs, visit{key: s[0], slot: s[1], root: s[2], cont: s[3], n: len(vs)})
	}
	return vs, outs[0].St, ""
}

func (a *AbsParser) walkModule(r *ParseRes) ([]visit, *State, string) {
	fn := a.p.method("ModuleStatement", "Walk")
	if fn == nil {
		return nil, nil, "method Walk of ModuleStatement not found"
	}
	mod, err := a.moduleOf(r)
	if err != nil {
		return nil, nil, err.Error()
	}
	return a.walk(r.St.clone(), func(st *State, cb Val) []Out { return a.m.call(st, fn, []Val{mod, cb}, nil, nil) })
}

// totals counts every position of the tree by content.
func (st *State) totals(v Val) map[string]int {
	m := map[string]int{}
	st.stmtValues(v, "", 0, func(_ string, s Val, _ bool) { m[st.nodeKey(s)]++ })
	return m
}

func countKeys[T any](l []T, key func(T) string) map[string]int {
	m := map[string]int{}
	for _, x := range l {
		m[key(x)]++
	}
	return m
}

func short(s string) string {
	if r := []rune(s); len(r) > 160 {
		return string(r[:160]) + "..."
	}
	return s
}

func sortedKeys[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func walkForms(c *Ctx) []string {
	l := append(moduleForms(c), placedForms()...)
	// expressions in the places the walker descends into
	for _, e := range exprs2() {
		l = append(l, "N ( "+e+" ) ;")
	}
	for _, e := range []string{"N + N", "? ( N , N , N )", "N ( N )", "N ( N , , N )", "- N", "( N )", "#", "N . N ( N )"} {
		for _, f := range []string{"N ( E )", "? ( E , E , E )", "E + E", "N ( E , E )", "E = E", "E И E"} {
			for i := 0; i < slotsOf(f, "E"); i++ {
				for _, p := range []string{"N ( E ) ;", "Если E Тогда КонецЕсли ;", "Функция N ( ) Возврат E ; КонецФункции", "Если N Тогда ИначеЕсли E Тогда N ( ) ; КонецЕсли ;", "N ( N ( E ) ) ;", "? ( E , N , E ) ;", "E + N ;"} {
					for j := 0; j < slotsOf(p, "E"); j++ {
						l = append(l, subst(p, "E", j, subst(f, "E", i, e)))
					}
				}
			}
		}
	}
	// deep nesting of blocks in subs
	for _, w := range wraps {
		for _, v := range wraps {
			for _, u := range wraps {
				l = append(l, "Процедура N ( ) "+w.pre+" "+v.pre+" "+u.pre+" N ( ) ; "+u.post+" N = N ; "+v.post+" "+w.post+" КонецПроцедуры Функция N ( ) "+u.pre+" N ( ) ; "+u.post+" КонецФункции "+w.pre+" N ( ) ; "+w.post)
			}
		}
	}
	return uniq(l)
}

func runW01(c *Ctx) {
	c.rule = "callback calls = the tree's positions, each once, inner before outer"
	l := walkForms(c)
	c.count("trees", len(l))
	where := walkWhere(c, "Walk")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		vs, _, bad := a.walkModule(r)
		if bad != "" {
			c.fail("tree:"+f, where, "walking the tree of %q cannot be decided: %s", surfToks(ts), bad)
			return
		}
		mod, _ := a.moduleOf(r)
		mv, _ := r.St.load(mod)
		w := &visitSpec{st: r.St}
		w.block("Body", r.St.field(r.St.nodeOf(mv), "Body"), "", "")
		c.count("positions", len(w.all))
		if d := once(r.St, mv, w, vs); d != "" {
			c.fail("tree:"+f, where, "walking the tree of %q: %s", surfToks(ts), d)
			return
		}
		// walking one block by itself
		fn := a.p.fn("StatementWalk")
		if fn == nil {
			c.fail("tree:"+f, where, "function StatementWalk not found")
			return
		}
		for i, s := range w.all {
			if skipped(f, i) {
				continue
			}
			n := s.node(r.St, mv)
			if n == nil {
				continue
			}
			for _, b := range []string{"Body", "TrueBlock", "IfElseBlock", "ElseBlock", "Catch"} {
				list, ok := r.St.field(n, b).(*Slc)
				if !ok || list.Len == 0 {
					continue
				}
				vs, _, bad := a.walk(r.St.clone(), func(st *State, cb Val) []Out {
					return a.m.call(st, fn, []Val{&Nil{fn.Params[0].Type()}, list, cb}, nil, nil)
				})
				if bad != "" {
					c.fail("tree:"+f, where, "walking %s.%s of the tree of %q cannot be decided: %s", s.path, b, surfToks(ts), bad)
					return
				}
				w2 := &visitSpec{st: r.St}
				w2.block(s.path+"."+b, list, "", "")
				if d := once(r.St, list, w2, vs); d != "" {
					c.fail("tree:"+f, where, "walking %s.%s of the tree of %q: %s", s.path, b, surfToks(ts), d)
					return
				}
			}
		}
		c.ok("tree: " + surfToks(ts))
	})
}

// node finds the struct at the spot's path.
func (s *spot) node(st *State, mv Val) (found *Rec) {
	st.stmtValues(mv, "", 0, func(p string, v Val, _ bool) {
		if p == "."+s.path {
			found = st.nodeOf(v)
		}
	})
	return
}

func walkWhere(c *Ctx, m string) string {
	if fn := c.P.method("ModuleStatement", m); fn != nil {
		return "ast/ast_struct.go, " + c.P.pos(fn.Pos())
	}
	return "ast/ast_struct.go"
}

func once(st *State, tree Val, w *visitSpec, vs []visit) string {
	if w.bad != "" {
		return w.bad
	}
	want := countKeys(w.all, func(s *spot) string { return s.key })
	got := countKeys(vs, func(v visit) string { return v.key })
	tot := st.totals(tree)
	path := map[string]string{}
	for _, s := range w.all {
		if path[s.key] == "" {
			path[s.key] = s.path
		}
	}
	for _, k := range sortedKeys(want) {
		if got[k] < want[k] {
			return fmt.Sprintf("%s (%s) is visited %d times instead of %d", path[k], short(k), got[k], want[k])
		}
	}
	for _, k := range sortedKeys(got) {
		lim := tot[k]
		if want[k] > lim {
			lim = want[k]
		}
		if got[k] > lim {
			return fmt.Sprintf("%s (%s) is visited %d times but the tree holds it %d times", path[k], short(k), got[k], lim)
		}
	}
	// slots of block items
	slots := countKeys(vs, func(v visit) string { return v.slot })
	for _, s := range w.all {
		if s.slot != "" && slots[s.slot] > 1 {
			return fmt.Sprintf("the block item %s is visited %d times", s.path, slots[s.slot])
		}
	}
	first := map[string]int{}
	last := map[string]int{}
	for _, v := range vs {
		if _, ok := first[v.key]; !ok {
			first[v.key] = v.n
		}
		last[v.key] = v.n
	}
	for _, s := range w.all {
		for _, in := range s.inner {
			if first[in.key] > last[s.key] {
				return fmt.Sprintf("%s is visited before %s, which it contains", s.path, in.path)
			}
			if want[s.key] == 1 && want[in.key] == 1 && tot[in.key] == 1 && last[in.key] > first[s.key] {
				return fmt.Sprintf("%s is visited before %s, which it contains", s.path, in.path)
			}
		}
	}
	return ""
}

func runW02(c *Ctx) {
	c.rule = "callback arguments = position of the item in the tree"
	l := walkForms(c)
	c.count("trees", len(l))
	where := walkWhere(c, "Walk")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		vs, _, bad := a.walkModule(r)
		if bad != "" {
			c.fail("tree:"+f, where, "walking the tree of %q cannot be decided: %s", surfToks(ts), bad)
			return
		}
		mod, _ := a.moduleOf(r)
		mv, _ := r.St.load(mod)
		w := &visitSpec{st: r.St}
		w.block("Body", r.St.field(r.St.nodeOf(mv), "Body"), "", "")
		if d := placed(r.St, mv, w, vs); d != "" {
			c.fail("tree:"+f, where, "walking the tree of %q: %s", surfToks(ts), d)
			return
		}
		c.count("calls_compared", len(vs))
		c.ok("tree: " + surfToks(ts))
	})
}

func placed(st *State, mv Val, w *visitSpec, vs []visit) string {
	if w.bad != "" {
		return w.bad
	}
	bySlot := map[string][]visit{}
	byKey := map[string][]visit{}
	for _, v := range vs {
		bySlot[v.slot] = append(bySlot[v.slot], v)
		byKey[v.key] = append(byKey[v.key], v)
	}
	for _, s := range w.all {
		cands := byKey[s.key]
		if s.slot != "" {
			in := false
			for _, v := range bySlot[s.slot] {
				if v.key == s.key {
					in = true
				}
			}
			if !in {
				return fmt.Sprintf("the block item %s is not reported through the slot that holds it in the tree", s.path)
			}
			cands = bySlot[s.slot]
		}
		if len(cands) == 0 {
			return fmt.Sprintf("%s is not visited", s.path)
		}
		ok, wrong := false, ""
		for _, v := range cands {
			switch {
			case v.root != s.root:
				wrong = "another enclosing procedure or function than the one it stands in"
			case s.cont != "" && v.cont != s.cont:
				wrong = "another containing node (" + short(v.cont) + ")"
			default:
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("%s is reported with %s", s.path, wrong)
		}
	}
	// every call, also of positions beyond the required ones, names the right function
	roots := map[string]map[string]bool{}
	body, _ := st.elems(st.field(st.nodeOf(mv), "Body"))
	for _, it := range body {
		root := ""
		if n := st.nodeOf(it); n != nil && strings.HasSuffix(tname(n.T), "FunctionOrProcedure") {
			x := st.res(it)
			if i, ok := x.(*Ifc); ok {
				x = st.res(i.V)
			}
			root = st.ident(x)
		}
		st.stmtValues(it, "", 0, func(_ string, v Val, _ bool) {
			k := st.nodeKey(v)
			if roots[k] == nil {
				roots[k] = map[string]bool{}
			}
			roots[k][root] = true
		})
	}
	for _, v := range vs {
		if rs, ok := roots[v.key]; ok && !rs[v.root] {
			return fmt.Sprintf("%s is reported with another enclosing procedure or function than the one it stands in", short(v.key))
		}
	}
	return ""
}
