package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: which code can run below a set of entry points (branches on
// settings that nothing ever changes are folded), which of it touches memory
// that outlives a call, and which outside services it uses.

type effects struct {
	p      *Prog
	fixed  map[*ssa.Global]constant.Value // package variables that keep their initial constant
	reach  map[*ssa.Function]*ssa.Function
	order  []*ssa.Function
	blocks map[*ssa.Function]map[*ssa.BasicBlock]bool
	calls  []*callSite
}

type callSite struct {
	in  *ssa.Function
	i   ssa.CallInstruction
	out []*ssa.Function // candidates in the repository
	ext *ssa.Function   // library function
}

func newEffects(p *Prog, roots []*ssa.Function) *effects {
	e := &effects{p: p, fixed: map[*ssa.Global]constant.Value{}, reach: map[*ssa.Function]*ssa.Function{}, blocks: map[*ssa.Function]map[*ssa.BasicBlock]bool{}}
	e.findFixed()
	var work []*ssa.Function
	add := func(f, from *ssa.Function) {
		if f == nil || !p.inRepo(f) && f.Synthetic == "" {
			return
		}
		if f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil && f.Synthetic != "" {
			return
		}
		if _, ok := e.reach[f]; ok {
			return
		}
		e.reach[f] = from
		e.order = append(e.order, f)
		work = append(work, f)
	}
	for _, f := range roots {
		add(f, nil)
	}
	// functions stored in package variables can be called by whoever reads them
	for _, pk := range p.SSA.AllPackages() {
		if !e.isRepo(pk.Pkg) {
			continue
		}
		if in := pk.Func("init"); in != nil {
			for _, b := range in.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
						continue
					}
					for _, op := range i.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok {
							add(f, in)
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		e.blocks[f] = e.live(f)
		for _, b := range f.Blocks {
			if !e.blocks[f][b] {
				continue
			}
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					cs := &callSite{in: f, i: c}
					e.calls = append(e.calls, cs)
					cc := c.Common()
					if cc.IsInvoke() {
						cs.out = e.implementations(cc)
					} else if sc := cc.StaticCallee(); sc != nil {
						if p.inRepo(sc) || sc.Synthetic != "" && len(sc.Blocks) > 0 && fnPkg(sc) == nil {
							cs.out = []*ssa.Function{sc}
						} else {
							cs.ext = sc
						}
					}
					for _, t := range cs.out {
						add(t, f)
					}
				}
				for _, op := range i.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						add(x, f)
					}
				}
				if mi, ok := i.(*ssa.MakeInterface); ok {
					// methods the library may call through an interface
					ms := p.SSA.MethodSets.MethodSet(mi.X.Type())
					for k := 0; k < ms.Len(); k++ {
						switch ms.At(k).Obj().Name() {
						case "String", "Error", "Format", "GoString", "MarshalJSON", "MarshalText", "Less", "Len", "Swap", "Write", "Read":
							add(p.SSA.MethodValue(ms.At(k)), f)
						}
					}
				}
			}
		}
	}
	sort.Slice(e.order, func(i, j int) bool { return e.order[i].String() < e.order[j].String() })
	return e
}

func (e *effects) isRepo(p *types.Package) bool {
	for _, q := range e.p.All {
		if q.Types == p {
			return true
		}
	}
	return false
}

// implementations: methods of the repository an interface call can reach.
func (e *effects) implementations(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, q := range e.p.All {
		for _, n := range q.Types.Scope().Names() {
			tn, ok := q.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.IsInterface(tn.Type()) || !types.Implements(t, it) {
					continue
				}
				if f := e.p.SSA.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); f != nil && !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// findFixed finds package variables that are only ever read after their
// constant initialisation.
func (e *effects) findFixed() {
	init := map[*ssa.Global]constant.Value{}
	bad := map[*ssa.Global]bool{}
	for f := range e.p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						c, isC := s.Val.(*ssa.Const)
						if f.Synthetic != "" && f.Name() == "init" && isC && c.Value != nil {
							init[g] = c.Value
							continue
						}
						bad[g] = true
						continue
					}
				}
				if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
					if _, ok := u.X.(*ssa.Global); ok {
						continue
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						bad[g] = true
					}
				}
			}
		}
	}
	for f := range e.p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok && !bad[g] && e.isRepo(g.Pkg.Pkg) {
						if v, ok := init[g]; ok {
							e.fixed[g] = v
						} else if bt, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); ok {
							switch {
							case bt.Info()&types.IsBoolean != 0:
								e.fixed[g] = constant.MakeBool(false)
							case bt.Info()&types.IsInteger != 0:
								e.fixed[g] = constant.MakeInt64(0)
							}
						}
					}
				}
			}
		}
	}
}

func (e *effects) constOf(v ssa.Value) constant.Value {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return e.fixed[g]
		}
		if x.Op == token.NOT {
			if c := e.constOf(x.X); c != nil && c.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(c))
			}
		}
	case *ssa.BinOp:
		a, b := e.constOf(x.X), e.constOf(x.Y)
		if a != nil && b != nil && a.Kind() == b.Kind() {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return constant.MakeBool(constant.Compare(a, x.Op, b))
			}
		}
	}
	return nil
}

// live are the blocks that can run.
func (e *effects) live(f *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	if len(f.Blocks) == 0 {
		return m
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Recover != nil {
		work = append(work, f.Recover)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if m[b] {
			continue
		}
		m[b] = true
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c := e.constOf(i.Cond); c != nil && c.Kind() == constant.Bool {
				if constant.BoolVal(c) {
					work = append(work, b.Succs[0])
				} else {
					work = append(work, b.Succs[1])
				}
				continue
			}
		}
		work = append(work, b.Succs...)
	}
	return m
}

// via shows how a function is reached.
func (e *effects) via(f *ssa.Function) string {
	var l []string
	for i := 0; f != nil && i < 12; i++ {
		l = append([]string{f.Name()}, l...)
		f = e.reach[f]
	}
	return strings.Join(l, " > ")
}

func (e *effects) each(f func(fn *ssa.Function, in ssa.Instruction)) {
	for _, fn := range e.order {
		for _, b := range fn.Blocks {
			if e.blocks[fn][b] {
				for _, in := range b.Instrs {
					f(fn, in)
				}
			}
		}
	}
}

func extName(f *ssa.Function) (pkg, name string) {
	if pk := fnPkg(f); pk != nil {
		pkg = pk.Path()
	}
	return pkg, strings.TrimSuffix(f.String(), "")
}

// banned calls, by purpose.
func exitCall(pkg string, f *ssa.Function) bool {
	n := f.Name()
	switch pkg {
	case "os":
		return n == "Exit"
	case "log":
		return strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")
	case "runtime":
		return n == "Goexit"
	case "syscall":
		return n == "Exit" || n == "Kill"
	}
	return false
}

func ioCall(pkg string, f *ssa.Function) bool {
	n := f.Name()
	switch pkg {
	case "os", "os/exec", "os/signal", "os/user", "io/ioutil", "log", "log/slog", "syscall", "plugin", "expvar", "flag", "runtime/debug", "runtime/pprof", "runtime/trace", "testing":
		return true
	case "fmt":
		return strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Scan") && !strings.HasPrefix(n, "Sscan")
	}
	return pkg == "net" || strings.HasPrefix(pkg, "net/") || strings.HasPrefix(pkg, "database/")
}

func chance(pkg string, f *ssa.Function) bool {
	n := f.Name()
	switch pkg {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "unique", "weak":
		return true
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "Sleep", "LoadLocation", "Local":
			return true
		}
		return false
	case "os":
		return true
	case "runtime":
		return true
	case "maps":
		return false
	}
	return false
}

func apiFuncs(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, q := range p.All {
		if q.Types.Name() == "main" {
			continue
		}
		sp := p.SSA.Package(q.Types)
		if sp == nil {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() {
					out = append(out, m)
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if types.IsInterface(m.Type()) {
						continue
					}
					ms := p.SSA.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if o := ms.At(i).Obj(); o.Exported() {
							if f := p.SSA.MethodValue(ms.At(i)); f != nil && (p.inRepo(f) || f.Synthetic != "") {
								out = append(out, f)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// nondeterminism: nothing below the methods may depend on anything but its arguments.
func nondeterminism(c *Ctx, methods []string) {
	var roots []*ssa.Function
	for _, m := range methods {
		if f := c.P.method("AstNode", m); f != nil {
			roots = append(roots, f)
		} else {
			c.fail("entry:"+m, "ast", "method %s of AstNode not found", m)
		}
	}
	e := newEffects(c.P, roots)
	c.count("functions_reachable", len(e.order))
	bad := map[*ssa.Function]bool{}
	e.each(func(fn *ssa.Function, in ssa.Instruction) {
		say := func(what string) {
			bad[fn] = true
			c.fail("chance:"+fn.String()+":"+what, c.P.posRaw(in.Pos()), "%s uses %s, so its result is not determined by the tree (reached by %s)", fn, what, e.via(fn))
		}
		switch x := in.(type) {
		case *ssa.Go:
			say("a goroutine")
		case *ssa.Select:
			say("select")
		case *ssa.Send:
			say("a channel")
		case *ssa.Convert:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
				if s, ok := x.X.Type().Underlying().(*types.Basic); ok && s.Kind() == types.UnsafePointer {
					say("an address as a number")
				}
			}
		}
		if cc, ok := in.(ssa.CallInstruction); ok {
			if sc := cc.Common().StaticCallee(); sc != nil && !c.P.inRepo(sc) {
				if pk, _ := extName(sc); chance(pk, sc) {
					say(sc.String())
				}
			}
			for _, a := range cc.Common().Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
					say("an address (%p)")
				}
			}
		}
	})
	for _, f := range e.order {
		if !bad[f] {
			c.ok("determined by its arguments: " + f.String())
		}
	}
}

// shared finds writes to memory that outlives the call.
type shared struct {
	e       *effects
	pt      map[ssa.Value]bool // may refer to memory reachable from package variables
	content map[ssa.Value]bool // local object that may hold such references
	field   map[string]bool
	typ     map[string]bool
	ret     map[*ssa.Function]bool
	changed bool
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Interface:
		return !types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (s *shared) set(v ssa.Value) {
	if v == nil || s.pt[v] || !refType(v.Type()) {
		return
	}
	s.pt[v] = true
	s.changed = true
}

func (s *shared) is(v ssa.Value) bool {
	if _, ok := v.(*ssa.Global); ok {
		return true
	}
	return s.pt[v]
}

func fieldKey(v ssa.Value, i int) string {
	t := v.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s.%d", t.String(), i)
}

// hold records that a store puts a reference into the object behind addr.
func (s *shared) hold(addr ssa.Value) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		k := fieldKey(x.X, x.Field)
		if !s.field[k] {
			s.field[k] = true
			s.changed = true
		}
		s.hold(x.X)
	case *ssa.IndexAddr:
		s.hold(x.X)
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		if !s.content[addr] {
			s.content[addr] = true
			s.changed = true
		}
	case *ssa.Slice:
		s.hold(x.X)
	case *ssa.Phi:
		if !s.content[addr] {
			s.content[addr] = true
			s.changed = true
			for _, e := range x.Edges {
				s.hold(e)
			}
		}
	default:
		k := addr.Type().String()
		if !s.typ[k] {
			s.typ[k] = true
			s.changed = true
		}
	}
}

// holds: may a load through addr give such a reference?
func (s *shared) holds(addr ssa.Value) bool {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return s.field[fieldKey(x.X, x.Field)]
	case *ssa.IndexAddr:
		return s.content[x.X] || s.holdsObj(x.X)
	}
	return s.holdsObj(addr)
}

func (s *shared) holdsObj(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		return s.holdsObj(x.X)
	}
	return s.content[v] || s.typ[v.Type().String()]
}

func findShared(e *effects) *shared {
	s := &shared{e: e, pt: map[ssa.Value]bool{}, content: map[ssa.Value]bool{}, field: map[string]bool{}, typ: map[string]bool{}, ret: map[*ssa.Function]bool{}}
	callees := map[ssa.CallInstruction]*callSite{}
	for _, c := range e.calls {
		callees[c.i] = c
	}
	for s.changed = true; s.changed; {
		s.changed = false
		e.each(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && (s.is(x.X) || s.holds(x.X)) {
					s.set(x)
				}
			case *ssa.FieldAddr:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.IndexAddr:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.Field:
				if s.is(x.X) || s.field[fieldKey(x.X, x.Field)] {
					s.set(x)
				}
			case *ssa.Index:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.Slice:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.Lookup:
				if s.is(x.X) || s.holdsObj(x.X) {
					s.set(x)
				}
			case *ssa.Extract:
				if s.is(x.Tuple) {
					s.set(x)
				}
			case *ssa.Range:
				if s.is(x.X) || s.holdsObj(x.X) {
					if !s.pt[x] {
						s.pt[x] = true
						s.changed = true
					}
				}
			case *ssa.Next:
				if s.pt[x.Iter] {
					s.set(x)
				}
			case *ssa.TypeAssert:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.MakeInterface:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.ChangeType:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.ChangeInterface:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.Convert:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.SliceToArrayPointer:
				if s.is(x.X) {
					s.set(x)
				}
			case *ssa.Phi:
				for _, v := range x.Edges {
					if s.is(v) {
						s.set(x)
					}
				}
			case *ssa.Store:
				if s.is(x.Val) && refType(x.Val.Type()) {
					s.hold(x.Addr)
				}
			case *ssa.MapUpdate:
				if s.is(x.Value) && refType(x.Value.Type()) {
					s.hold(x.Map)
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if s.is(b) && i < len(f.FreeVars) {
						s.set(f.FreeVars[i])
					}
					if s.content[b] && i < len(f.FreeVars) && !s.content[f.FreeVars[i]] {
						s.content[f.FreeVars[i]] = true
						s.changed = true
					}
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if s.is(v) && refType(v.Type()) && !s.ret[fn] {
						s.ret[fn] = true
						s.changed = true
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cs := callees[c]
				if cs == nil {
					return
				}
				args := c.Common().Args
				if c.Common().IsInvoke() {
					args = append([]ssa.Value{c.Common().Value}, args...)
				}
				for _, t := range cs.out {
					for i, a := range args {
						if s.is(a) && i < len(t.Params) {
							s.set(t.Params[i])
						}
						if s.content[a] && i < len(t.Params) && !s.content[t.Params[i]] {
							s.content[t.Params[i]] = true
							s.changed = true
						}
					}
					if s.ret[t] && c.Value() != nil {
						s.set(c.Value())
					}
				}
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && c.Value() != nil {
					switch b.Name() {
					case "append", "ssa:wrapnilchk", "Slice", "SliceData", "StringData", "Add", "min", "max":
						for i, a := range args {
							if s.is(a) && (i == 0 || refType(a.Type())) {
								s.set(c.Value())
							}
						}
						if b.Name() == "StringData" {
							s.set(c.Value()) // the bytes of a text belong to everyone who has it
						}
					}
				}
				if cs.ext != nil && c.Value() != nil {
					for _, a := range args {
						if s.is(a) {
							s.set(c.Value())
						}
					}
				}
				if cs.ext == nil && len(cs.out) == 0 && !c.Common().IsInvoke() {
					// call of a function value: anything address-taken with that signature
					for _, t := range e.order {
						if types.Identical(t.Signature, c.Common().Value.Type().Underlying()) {
							for i, a := range args {
								if s.is(a) && i < len(t.Params) {
									s.set(t.Params[i])
								}
							}
						}
					}
				}
			}
		})
	}
	return s
}

// readsOnly: library functions that do not change what their arguments refer to.
func readsOnly(f *ssa.Function, arg int) bool {
	pkg, _ := extName(f)
	n := f.Name()
	recv := ""
	if r := f.Signature.Recv(); r != nil {
		recv = strings.TrimPrefix(types.TypeString(r.Type(), shortQual), "*")
	}
	switch pkg {
	case "fmt":
		return !strings.HasPrefix(n, "Sscan") && !strings.HasPrefix(n, "Fscan") && !(strings.HasPrefix(n, "Fprint") && arg == 0) && !(strings.HasPrefix(n, "Append") && arg == 0)
	case "errors", "github.com/pkg/errors", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "regexp", "math", "math/bits", "cmp", "encoding/json", "path", "html":
		return !(n == "Unmarshal" || strings.HasPrefix(n, "Append") && arg == 0 || recv == "Encoder" || recv == "Decoder")
	case "strings", "bytes":
		return recv == "" || recv == "Replacer"
	case "time":
		return true
	case "reflect":
		return recv == "" || !strings.HasPrefix(n, "Set")
	case "maps":
		return n != "Copy" && n != "DeleteFunc" && n != "Insert"
	case "slices":
		for _, w := range []string{"Sort", "Reverse", "Delete", "Insert", "Compact", "Replace", "Grow", "Append"} {
			if strings.HasPrefix(n, w) && !strings.HasPrefix(n, "Sorted") {
				return false
			}
		}
		return true
	case "sort":
		return strings.HasPrefix(n, "Search") || strings.HasSuffix(n, "AreSorted") || n == "IsSorted" || n == "Find"
	case "sync":
		return recv == "Mutex" || recv == "RWMutex"
	case "sync/atomic":
		return strings.HasPrefix(n, "Load")
	}
	return false
}

// treeTypes are the struct types a parsed module consists of.
func treeTypes(p *Prog) map[string]bool {
	m := map[string]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch u := types.Unalias(t).(type) {
		case *types.Named:
			if u.Obj().Pkg() != p.Pkg.Types || m[u.String()] {
				return
			}
			m[u.String()] = true
			add(u.Underlying())
		case *types.Pointer:
			add(u.Elem())
		case *types.Slice:
			add(u.Elem())
		case *types.Array:
			add(u.Elem())
		case *types.Map:
			add(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				add(u.Field(i).Type())
			}
		}
	}
	if n := p.named("ModuleStatement"); n != nil {
		add(n)
	}
	// what the parser converts to a statement
	for f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mi, ok := i.(*ssa.MakeInterface); ok {
					t := mi.X.Type()
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						t = pt.Elem()
					}
					if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Exported() && n.Obj().Name() != "AstNode" && n.Obj().Name() != "Token" {
						add(n)
					}
				}
			}
		}
	}
	return m
}

func init() {
	checks["G01"] = checkDef{runG01, "Effect analysis of every function reachable from the exported functions and methods, on the SSA form: references to memory that package variables reach are tracked through assignments, fields, calls and closures to a fixpoint; no such memory may be written after package initialisation, stored in a tree, or handed to library code that may write it, and no function may use files, standard streams, the environment or the network. Branches on settings that no code changes (the parser's debug level) are folded."}
}

func runG01(c *Ctx) {
	c.rule = "no write reaches memory shared between calls, no input or output"
	roots := apiFuncs(c.P)
	e := newEffects(c.P, roots)
	c.count("entry_points", len(roots))
	c.count("functions_reachable", len(e.order))
	s := findShared(e)
	c.count("references_to_shared_memory", len(s.pt))
	trees := treeTypes(c.P)
	bad := map[*ssa.Function]bool{}
	instrs := 0
	callees := map[ssa.CallInstruction]*callSite{}
	for _, cs := range e.calls {
		callees[cs.i] = cs
	}
	e.each(func(fn *ssa.Function, in ssa.Instruction) {
		instrs++
		say := func(kind, f string, a ...any) {
			bad[fn] = true
			m := fmt.Sprintf(f, a...)
			c.fail("effect:"+fn.String()+":"+kind, c.P.posRaw(in.Pos()), "%s %s (reached by %s)", fn, m, e.via(fn))
		}
		switch x := in.(type) {
		case *ssa.Store:
			if s.is(x.Addr) {
				say("store", "writes memory that is shared between calls: %s", x.String())
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && s.is(x.Val) {
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if n, ok := types.Unalias(t).(*types.Named); ok && trees[n.String()] {
					switch x.Val.Type().Underlying().(type) {
					case *types.Pointer, *types.Map:
						say("tree", "puts memory that is shared between calls into the tree (%s)", tname(n))
					case *types.Interface:
						if mi, ok := x.Val.(*ssa.MakeInterface); !ok || isPtr(mi.X.Type()) {
							say("tree", "puts memory that is shared between calls into the tree (%s)", tname(n))
						}
					}
				}
			}
		case *ssa.MapUpdate:
			if s.is(x.Map) {
				say("map", "changes a map that is shared between calls")
			}
		case *ssa.Send:
			if s.is(x.Chan) {
				say("send", "sends on a channel that is shared between calls")
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW && s.is(x.X) {
				say("receive", "receives from a channel that is shared between calls")
			}
			if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
				say("stream", "uses os.%s", g.Name())
			}
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			args := ci.Common().Args
			if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "print", "println":
					say("print", "prints to the standard error stream")
				case "append", "copy", "delete", "clear", "close":
					if s.is(args[0]) {
						say(b.Name(), "changes memory that is shared between calls (%s)", b.Name())
					}
				}
				return
			}
			cs := callees[ci]
			if cs == nil || cs.ext == nil {
				if ci.Common().IsInvoke() && cs != nil && len(cs.out) == 0 && s.is(ci.Common().Value) {
					say("invoke", "calls %s of an object that is shared between calls", ci.Common().Method.Name())
				}
				return
			}
			pkg, _ := extName(cs.ext)
			if ioCall(pkg, cs.ext) {
				say("io:"+cs.ext.String(), "uses %s", cs.ext)
			}
			for i, a := range args {
				if s.is(a) && !readsOnly(cs.ext, i) {
					say("arg:"+cs.ext.String(), "hands memory that is shared between calls to %s", cs.ext)
				}
			}
		}
	})
	c.count("instructions_analysed", instrs)
	for _, f := range e.order {
		if !bad[f] {
			c.ok("no shared effect: " + f.String())
		}
	}
}
