package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The abstract interpreter: transfer functions of SSA instructions over the
// domain of values.go, with lazy trace partitioning (a partition is split only
// when a branch depends on something the partition does not determine).

// Out is one way a call can end.
type Out struct {
	St    *State
	Res   Val
	Panic string // non-empty: the call panics
	Pos   string // where
	Undec string // non-empty: the analysis could not follow the code
}

func (o Out) bad() bool { return o.Panic != "" || o.Undec != "" }

type alt struct {
	st    *State
	v     Val
	panic string
	undec string
}

// M is one run of the interpreter.
type M struct {
	p        *Prog
	steps    int
	maxSteps int
	maxDepth int
	consts   map[*ssa.Const]Val
	depth    int
	maxLen   int  // lists of unknown length are split into lengths 0..maxLen
	reverse  bool // iterate maps in the opposite order
	hook     func(m *M, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Out, bool)
	call_    func(m *M, fn *ssa.Function)
	base     *State
	globals  map[*ssa.Global]int
	nums     map[*ssa.Function]map[ssa.Value]int
	stack    []string
	trace    bool
	visited  map[*ssa.Function]bool
	started  time.Time
	onStack  []*ssa.Function
	recCheck bool // report recursion on an identical call (same function, same arguments)
	active   map[string]int
	text     *textModel
	opaque   func(st *State, args []Val) []Val // what to record of a call of an opaque function
}

func newM(p *Prog) *M {
	m := &M{p: p, maxSteps: 30_000_000, maxDepth: 4500, consts: map[*ssa.Const]Val{}, maxLen: 3, globals: map[*ssa.Global]int{}, nums: map[*ssa.Function]map[ssa.Value]int{},
		visited: map[*ssa.Function]bool{}, active: map[string]int{}}
	m.base = newState()
	m.trace = os.Getenv("VERIF_TRACE") != ""
	return m
}

// initGlobals evaluates the package initialiser of the parser package.
func (m *M) initGlobals() error {
	initFn := m.p.AST.Func("init")
	st := m.base
	outs := m.call(st, initFn, nil, nil, nil)
	if len(outs) != 1 || outs[0].bad() {
		if len(outs) > 0 {
			return fmt.Errorf("package initialisation cannot be evaluated: %s%s at %s", outs[0].Panic, outs[0].Undec, outs[0].Pos)
		}
		return fmt.Errorf("package initialisation cannot be evaluated")
	}
	m.base = outs[0].St
	m.steps = 0
	return nil
}

func (m *M) globalPtr(st *State, g *ssa.Global) *Ptr {
	id, ok := m.globals[g]
	et := g.Type().(*types.Pointer).Elem()
	if !ok {
		*st.next++
		id = *st.next
		m.globals[g] = id
	}
	if _, ok := st.heap[id]; !ok {
		if g.Pkg == m.p.AST || (g.Pkg != nil && m.inRepoPkg(g.Pkg.Pkg)) {
			st.heap[id] = st.zero(et)
		} else {
			st.heap[id] = &Leaf{ID: "global " + g.String(), T: et, NonNil: true}
		}
	}
	return &Ptr{Obj: id, T: g.Type()}
}

func (m *M) inRepoPkg(p *types.Package) bool {
	for _, q := range m.p.All {
		if q.Types == p {
			return true
		}
	}
	return false
}

func (m *M) numbering(fn *ssa.Function) map[ssa.Value]int {
	if n, ok := m.nums[fn]; ok {
		return n
	}
	n := map[ssa.Value]int{}
	for _, p := range fn.Params {
		n[p] = len(n)
	}
	for _, p := range fn.FreeVars {
		n[p] = len(n)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				n[v] = len(n)
			}
		}
	}
	m.nums[fn] = n
	return n
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
	in   ssa.Instruction
}

type path struct {
	st     *State
	regs   []Val
	nums   map[ssa.Value]int
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	panic  string
	ppos   string
}

func (p *path) fork(st *State) *path {
	q := *p
	q.st = st
	q.regs = append([]Val{}, p.regs...)
	q.defers = append([]deferred{}, p.defers...)
	return &q
}

func (m *M) posOf(fn *ssa.Function, in ssa.Instruction) string {
	s := "?"
	if in != nil && in.Pos().IsValid() {
		s = m.p.posRaw(in.Pos())
	}
	return fmt.Sprintf("%s (%s)", fn.String(), s)
}

// call interprets fn and returns all ways it can end.
func (m *M) call(st *State, fn *ssa.Function, args []Val, bind []Val, site ssa.Instruction) []Out {
	if m.hook != nil {
		if o, ok := m.hook(m, st, fn, args, site); ok {
			return o
		}
	}
	if o, ok := m.model(st, fn, args, site); ok {
		return o
	}
	if len(fn.Blocks) == 0 || !m.interpretable(fn) {
		return m.external(st, fn, args, site)
	}
	if m.depth >= m.maxDepth {
		return []Out{{St: st, Undec: "call depth exceeds the analysis bound", Pos: fn.String()}}
	}
	var rk string
	// calls this deep are most likely endless: the innermost ones are compared
	if m.recCheck && m.depth > m.maxDepth-200 && m.p.inRepo(fn) && len(fn.FreeVars) == 0 {
		var sb strings.Builder
		sb.WriteString(fn.String())
		for _, a := range args {
			sb.WriteString("|" + st.ident(a))
		}
		rk = sb.String()
		if m.active[rk] > 0 {
			return []Out{{St: st, Panic: "endless recursion: the call repeats itself with the same arguments", Pos: fn.String()}}
		}
		m.active[rk]++
	}
	m.depth++
	m.visited[fn] = true
	m.onStack = append(m.onStack, fn)
	outs := m.run(st, fn, args, bind)
	m.onStack = m.onStack[:len(m.onStack)-1]
	m.depth--
	if rk != "" {
		m.active[rk]--
	}
	return outs
}

// interpretable: repository code and small generic library code is followed,
// everything else is modelled or opaque.
func (m *M) interpretable(fn *ssa.Function) bool {
	if m.p.inRepo(fn) {
		return true
	}
	pk := fnPkg(fn)
	if pk == nil {
		// synthesised wrappers (bound methods, promoted methods)
		return fn.Synthetic != ""
	}
	switch pk.Path() {
	case "slices", "maps", "cmp", "iter", "unicode/utf8", "container/list", "sort", "errors", "golang.org/x/exp/slices", "golang.org/x/exp/maps":
		return true
	case "strings", "bytes", "unicode":
		return true
	}
	return fn.Synthetic != ""
}

func (m *M) external(st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Out {
	st.events = append(st.events, Event{Name: "extern:" + fn.String(), Args: args})
	return []Out{{St: st, Res: m.opaqueResult(st, "call "+fn.String(), fn.Signature.Results(), args)}}
}

func (m *M) opaqueResult(st *State, op string, res *types.Tuple, args []Val) Val {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mkExpr(op, res.At(0).Type(), args...)
	}
	var t Tup
	for i := 0; i < res.Len(); i++ {
		t = append(t, mkExpr(fmt.Sprintf("%s#%d", op, i), res.At(i).Type(), args...))
	}
	return t
}

func (m *M) run(st *State, fn *ssa.Function, args []Val, bind []Val) []Out {
	nums := m.numbering(fn)
	p0 := &path{st: st, regs: make([]Val, len(nums)), nums: nums, blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		if i < len(args) {
			p0.regs[nums[p]] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			p0.regs[nums[f]] = bind[i]
		}
	}
	return m.runPath(fn, p0)
}

func (m *M) runPath(fn *ssa.Function, p0 *path) []Out {
	var outs []Out
	work := []*path{p0}
	nums := m.numbering(fn)
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
	path:
		for {
			if m.steps++; m.steps > m.maxSteps {
				outs = append(outs, Out{St: p.st, Undec: "the analysis step bound is exceeded", Pos: fn.String()})
				break path
			}
			if p.idx >= len(p.blk.Instrs) {
				outs = append(outs, Out{St: p.st, Undec: "fell off a block", Pos: fn.String()})
				break path
			}
			in := p.blk.Instrs[p.idx]
			switch x := in.(type) {
			case *ssa.DebugRef:
				p.idx++
				continue
			case *ssa.Jump:
				p.prev, p.blk, p.idx = p.blk, p.blk.Succs[0], 0
				m.phis(fn, p, nums)
				continue
			case *ssa.If:
				alts := m.decide(p.st, m.val(p, x.Cond))
				for i, a := range alts {
					q := p
					if i < len(alts)-1 {
						q = p.fork(a.st)
					}
					q.st = a.st
					if a.undec != "" {
						outs = append(outs, Out{St: a.st, Undec: a.undec, Pos: m.posOf(fn, lastPos(p.blk, p.idx))})
						if i == len(alts)-1 {
							break path
						}
						continue
					}
					k := 0
					if !a.b {
						k = 1
					}
					q.prev, q.blk, q.idx = q.blk, q.blk.Succs[k], 0
					m.phis(fn, q, nums)
					if i < len(alts)-1 {
						work = append(work, q)
					}
				}
				continue
			case *ssa.Return:
				var res Val
				switch len(x.Results) {
				case 0:
				case 1:
					res = m.val(p, x.Results[0])
				default:
					var t Tup
					for _, r := range x.Results {
						t = append(t, m.val(p, r))
					}
					res = t
				}
				outs = append(outs, Out{St: p.st, Res: res})
				break path
			case *ssa.Panic:
				v := m.val(p, x.X)
				qs := m.unwind(fn, p, "panic("+p.st.key(v)+")", m.posOf(fn, in))
				outs = append(outs, qs...)
				break path
			case *ssa.RunDefers:
				if len(p.defers) == 0 {
					p.idx++
					continue
				}
				d := p.defers[len(p.defers)-1]
				p.defers = p.defers[:len(p.defers)-1]
				rs := m.callVal(p.st, d.fn, d.args, d.call, d.in)
				for i, o := range rs {
					q := p
					if i < len(rs)-1 {
						q = p.fork(o.St)
					}
					q.st = o.St
					if o.bad() {
						outs = append(outs, o)
						if i == len(rs)-1 {
							break path
						}
						continue
					}
					if i < len(rs)-1 {
						work = append(work, q)
					}
				}
				continue
			case *ssa.Defer:
				fnv, as := m.callee(p, &x.Call)
				p.defers = append(p.defers, deferred{fnv, as, &x.Call, in})
				p.idx++
				continue
			case *ssa.Go, *ssa.Send, *ssa.Select:
				outs = append(outs, Out{St: p.st, Undec: fmt.Sprintf("concurrency construct %T", in), Pos: m.posOf(fn, in)})
				break path
			}
			alts := m.instr(fn, p, in, nums)
			for i, a := range alts {
				q := p
				if i < len(alts)-1 {
					q = p.fork(a.st)
				}
				q.st = a.st
				last := i == len(alts)-1
				if a.undec != "" {
					outs = append(outs, Out{St: a.st, Undec: a.undec, Pos: m.posOf(fn, in)})
					if last {
						break path
					}
					continue
				}
				if a.panic != "" {
					pos := m.posOf(fn, in)
					if strings.HasPrefix(a.panic, "@") { // already positioned
						k := strings.Index(a.panic, "|")
						pos, a.panic = a.panic[1:k], a.panic[k+1:]
					}
					outs = append(outs, m.unwind(fn, q, a.panic, pos)...)
					if last {
						break path
					}
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					q.regs[nums[v]] = a.v
				}
				q.idx++
				if !last {
					work = append(work, q)
				}
			}
			if len(alts) == 0 {
				break path
			}
			if len(outs)+len(work) > 20000 {
				outs = append(outs, Out{St: p.st, Undec: "too many partitions", Pos: fn.String()})
				return outs
			}
		}
	}
	return outs
}

func lastPos(b *ssa.BasicBlock, i int) ssa.Instruction {
	for ; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i]
		}
	}
	return b.Instrs[0]
}

// unwind runs the deferred calls of a panicking function.
func (m *M) unwind(fn *ssa.Function, p *path, msg, pos string) []Out {
	sts := []*State{p.st}
	for i := len(p.defers) - 1; i >= 0; i-- {
		d := p.defers[i]
		var nx []*State
		for _, s := range sts {
			for _, o := range m.callVal(s, d.fn, d.args, d.call, d.in) {
				if f, ok := d.fn.(*Fn); ok && f.F != nil && usesRecover(f.F) {
					return []Out{{St: o.St, Undec: "recovered panic: " + msg, Pos: pos}}
				}
				nx = append(nx, o.St)
			}
		}
		sts = nx
	}
	var outs []Out
	for _, s := range sts {
		outs = append(outs, Out{St: s, Panic: msg, Pos: pos})
	}
	return outs
}

func usesRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (m *M) phis(fn *ssa.Function, p *path, nums map[ssa.Value]int) {
	k := -1
	for i, pr := range p.blk.Preds {
		if pr == p.prev {
			k = i
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range p.blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, m.val(p, ph.Edges[k]))
	}
	for i, ph := range phis {
		p.regs[nums[ph]] = vals[i]
	}
	p.idx = len(phis)
}

func (m *M) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return st.zero(c.Type())
	}
	if c.Value.Kind() == constant.String {
		s := lit(constant.StringVal(c.Value))
		s.T = c.Type()
		return s
	}
	v := c.Value
	if isInt(c.Type()) {
		v = constant.ToInt(v)
	}
	return &C{v, c.Type()}
}

func (m *M) val(p *path, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if c, ok := m.consts[x]; ok {
			return c
		}
		c := m.constVal(p.st, x)
		switch c.(type) {
		case *C, *Nil:
			m.consts[x] = c
		}
		return c
	case *ssa.Function:
		return &Fn{F: x}
	case *ssa.Global:
		return m.globalPtr(p.st, x)
	case *ssa.Builtin:
		return &Fn{Name: "builtin " + x.Name()}
	}
	n, ok := p.nums[v]
	if !ok {
		return nil
	}
	return p.st.res(p.regs[n])
}

type cond struct {
	st    *State
	b     bool
	undec string
}

func negKey(k string) string { return "!" + k }

// decide splits the state on a boolean value.
func (m *M) decide(st *State, v Val) []cond {
	v = st.res(v)
	switch x := v.(type) {
	case *C:
		return []cond{{st, constant.BoolVal(x.V), ""}}
	case *Leaf:
		a := st.clone()
		st.bind[x.ID] = cBool(true)
		a.bind[x.ID] = cBool(false)
		return []cond{{st, true, ""}, {a, false, ""}}
	case *Expr:
		switch x.Op {
		case "!":
			r := m.decide(st, x.A[0])
			for i := range r {
				r[i].b = !r[i].b
			}
			return r
		case "eqconst": // opaque string leaf compared with a constant
			if l, ok := st.res(x.A[0]).(*Leaf); ok {
				k := "eq:" + l.ID + "=" + st.key(x.A[1])
				if b, ok := st.facts[k]; ok {
					return []cond{{st, b, ""}}
				}
				a := st.clone()
				st.bind[l.ID] = x.A[1]
				a.facts[k] = false
				return []cond{{st, true, ""}, {a, false, ""}}
			}
		case "isnil":
			return m.decideNil(st, x.A[0])
		case "texteq":
			var r []cond
			for _, a := range m.text.fork(st, func(o *oracle) []alt {
				return one(o.st, cBool(o.equal(x.A[0].(*Str), x.A[1].(*Str))))
			}) {
				if a.undec != "" {
					r = append(r, cond{a.st, false, a.undec})
				} else {
					r = append(r, cond{a.st, constant.BoolVal(a.v.(*C).V), ""})
				}
			}
			return r
		case "&", "|":
			if isBool(x.T) {
				var r []cond
				for _, a := range m.decide(st, x.A[0]) {
					for _, b := range m.decide(a.st, x.A[1]) {
						v := a.b && b.b
						if x.Op == "|" {
							v = a.b || b.b
						}
						u := a.undec
						if u == "" {
							u = b.undec
						}
						r = append(r, cond{b.st, v, u})
					}
				}
				return r
			}
		case "cmp": // integer comparison of a leaf with a constant, see intCmp
			return m.decideCmp(st, x)
		}
		k := st.key(x)
		if b, ok := st.facts[k]; ok {
			return []cond{{st, b, ""}}
		}
		a := st.clone()
		st.facts[k] = true
		a.facts[k] = false
		return []cond{{st, true, ""}, {a, false, ""}}
	}
	return []cond{{st, false, fmt.Sprintf("branch on an unsupported value %T", v)}}
}

func one(st *State, v Val) []alt                { return []alt{{st: st, v: v}} }
func undec(st *State, f string, a ...any) []alt { return []alt{{st: st, undec: fmt.Sprintf(f, a...)}} }

func (m *M) instr(fn *ssa.Function, p *path, in ssa.Instruction, nums map[ssa.Value]int) []alt {
	st := p.st
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		id := st.alloc(st.zero(et))
		return one(st, &Ptr{Obj: id, T: x.Type()})
	case *ssa.BinOp:
		return m.binop(st, x.Op, m.val(p, x.X), m.val(p, x.Y), x.Type())
	case *ssa.UnOp:
		v := m.val(p, x.X)
		switch x.Op {
		case token.MUL:
			return m.deref(st, v, x.Type())
		case token.NOT:
			if c, ok := v.(*C); ok {
				return one(st, cBool(!constant.BoolVal(c.V)))
			}
			return one(st, mkExpr("!", x.Type(), v))
		case token.SUB:
			if c, ok := v.(*C); ok {
				return one(st, &C{constant.UnaryOp(token.SUB, c.V, 0), x.Type()})
			}
			if e, ok := v.(*Expr); ok && e.Op == "neg" {
				return one(st, e.A[0])
			}
			return one(st, mkExpr("neg", x.Type(), v))
		case token.XOR:
			if c, ok := v.(*C); ok {
				return one(st, m.wrapInt(constant.UnaryOp(token.XOR, c.V, 0), x.Type()))
			}
			return one(st, mkExpr("^", x.Type(), v))
		}
		return undec(st, "unary operator %s", x.Op)
	case *ssa.Call:
		fnv, as := m.callee(p, &x.Call)
		var r []alt
		for _, o := range m.callVal(st, fnv, as, &x.Call, in) {
			a := alt{st: o.St, v: o.Res, undec: o.Undec}
			if o.Undec != "" && o.Pos != "" {
				a.undec = o.Undec + " in " + o.Pos
			}
			if o.Panic != "" {
				a.panic = "@" + o.Pos + "|" + o.Panic
				if o.Pos == "" {
					a.panic = o.Panic
				}
			}
			r = append(r, a)
		}
		return r
	case *ssa.ChangeInterface:
		return one(st, m.val(p, x.X))
	case *ssa.ChangeType:
		return one(st, retype(m.val(p, x.X), x.Type()))
	case *ssa.Convert:
		return m.convert(st, m.val(p, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return m.convert(st, m.val(p, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		return one(st, &Ifc{T: x.X.Type(), V: m.val(p, x.X)})
	case *ssa.MakeClosure:
		f := &Fn{F: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, m.val(p, b))
		}
		return one(st, f)
	case *ssa.MakeMap:
		id := st.alloc(&MapO{T: x.Type()})
		return one(st, &MapP{Obj: id, T: x.Type()})
	case *ssa.MakeSlice:
		n, ok := isConstInt(m.val(p, x.Len))
		if !ok {
			return one(st, mkExpr("make", x.Type(), m.val(p, x.Len)))
		}
		c, ok2 := isConstInt(m.val(p, x.Cap))
		if !ok2 || c < n {
			c = n
		}
		if n < 0 {
			return []alt{{st: st, panic: "makeslice: len out of range"}}
		}
		if n > 100000 {
			return undec(st, "large slice")
		}
		if c > 4096 {
			c = n
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		ar := &Arr{T: et}
		z := st.zero(et)
		for i := 0; i < c; i++ {
			ar.E = append(ar.E, z)
		}
		id := st.alloc(ar)
		return one(st, &Slc{Obj: id, Len: n, Cap: c, T: x.Type()})
	case *ssa.Extract:
		v := m.val(p, x.Tuple)
		if t, ok := v.(Tup); ok && x.Index < len(t) {
			return one(st, t[x.Index])
		}
		if e, ok := v.(*Expr); ok {
			return one(st, mkExpr(fmt.Sprintf("%s#%d", e.Op, x.Index), x.Type(), e.A...))
		}
		return undec(st, "extract from %T", v)
	case *ssa.Field:
		v := st.expand(m.val(p, x.X))
		if r, ok := v.(*Rec); ok {
			return one(st, r.F[x.Field])
		}
		return undec(st, "field of %T", v)
	case *ssa.FieldAddr:
		return m.onPtr(st, m.val(p, x.X), func(st *State, q *Ptr) []alt {
			return one(st, &Ptr{Obj: q.Obj, Path: subPath(q.Path, x.Field), T: x.Type()})
		})
	case *ssa.Index:
		return m.index(st, m.val(p, x.X), m.val(p, x.Index), x.Type())
	case *ssa.IndexAddr:
		return m.indexAddr(st, m.val(p, x.X), m.val(p, x.Index), x.Type())
	case *ssa.Lookup:
		return m.lookup(st, m.val(p, x.X), m.val(p, x.Index), x.CommaOk, x.Type())
	case *ssa.MapUpdate:
		return m.mapUpdate(st, m.val(p, x.Map), m.val(p, x.Key), m.val(p, x.Value))
	case *ssa.Range:
		return m.rangeOf(st, m.val(p, x.X), x.X.Type())
	case *ssa.Next:
		return m.next(st, m.val(p, x.Iter), x)
	case *ssa.Slice:
		return m.slice(st, x, m.val(p, x.X), p)
	case *ssa.Store:
		v := m.val(p, x.Val)
		return m.onPtr(st, m.val(p, x.Addr), func(st *State, q *Ptr) []alt {
			if !st.store(q, v) {
				return undec(st, "store to an unknown location")
			}
			return one(st, nil)
		})
	case *ssa.TypeAssert:
		return m.typeAssert(st, m.val(p, x.X), x.AssertedType, x.CommaOk)
	case *ssa.SliceToArrayPointer:
		if s, ok := m.val(p, x.X).(*Slc); ok {
			_ = s
		}
		return undec(st, "slice to array pointer")
	case *ssa.Phi:
		return undec(st, "unexpected phi")
	}
	return undec(st, "instruction %T", in)
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *C:
		return &C{x.V, t}
	case *Nil:
		return &Nil{t}
	case *Rec:
		return &Rec{T: t, F: x.F}
	case *Slc:
		y := *x
		y.T = t
		return &y
	case *Str:
		return &Str{P: x.P, T: t}
	case *MapP:
		return &MapP{Obj: x.Obj, T: t}
	case *Ptr:
		y := *x
		y.T = t
		return &y
	}
	return v
}

// onPtr applies f to the pointer, splitting on nil when it is not known.
func (m *M) onPtr(st *State, v Val, f func(*State, *Ptr) []alt) []alt {
	v = st.res(v)
	switch x := v.(type) {
	case *Ptr:
		return f(st, x)
	case *Nil:
		return []alt{{st: st, panic: "nil pointer dereference"}}
	case *Leaf:
		var r []alt
		if !x.NonNil {
			a := st.clone()
			a.bind[x.ID] = &Nil{x.T}
			r = append(r, alt{st: a, panic: "nil pointer dereference of " + x.ID})
		}
		return append(r, f(st, m.materialise(st, x))...)
	case *Expr:
		pt, ok := x.T.Underlying().(*types.Pointer)
		if ok {
			// an object nobody else can see through this value
			k := "obj:" + st.key(x)
			id, ok := st.objs[k]
			if !ok {
				id = st.alloc(&Leaf{ID: fmt.Sprintf("*%s", st.key(x)), T: pt.Elem()})
				st.objs[k] = id
			}
			return f(st, &Ptr{Obj: id, T: x.T})
		}
	}
	return undec(st, "access through %T", v)
}

// materialise binds a pointer leaf to a fresh opaque object.
func (m *M) materialise(st *State, x *Leaf) *Ptr {
	el := x.T.Underlying().(*types.Pointer).Elem()
	id := st.alloc(&Leaf{ID: x.ID + "^", T: el, IsNode: x.IsNode})
	q := &Ptr{Obj: id, T: x.T}
	st.bind[x.ID] = q
	return q
}

func (m *M) deref(st *State, v Val, t types.Type) []alt {
	return m.onPtr(st, v, func(st *State, q *Ptr) []alt {
		c, ok := st.load(q)
		if !ok {
			return undec(st, "load from an unknown location")
		}
		return one(st, c)
	})
}

func (m *M) callee(p *path, c *ssa.CallCommon) (Val, []Val) {
	var as []Val
	for _, a := range c.Args {
		as = append(as, m.val(p, a))
	}
	if c.IsInvoke() {
		return m.val(p, c.Value), as
	}
	return m.val(p, c.Value), as
}

func (m *M) callVal(st *State, fnv Val, args []Val, c *ssa.CallCommon, site ssa.Instruction) []Out {
	fnv = st.res(fnv)
	if c != nil && c.IsInvoke() {
		return m.invoke(st, fnv, args, c, site)
	}
	switch f := fnv.(type) {
	case *Fn:
		if strings.HasPrefix(f.Name, "builtin ") {
			var r []Out
			for _, a := range m.builtin(st, f.Name[8:], args, c) {
				r = append(r, Out{St: a.st, Res: a.v, Panic: a.panic, Undec: a.undec})
			}
			return r
		}
		if f.F == nil {
			rec := args
			if m.opaque != nil {
				rec = m.opaque(st, args)
			}
			st.events = append(st.events, Event{Name: f.Name, Args: rec})
			if c != nil {
				return []Out{{St: st, Res: m.opaqueResult(st, "call "+f.Name, c.Signature().Results(), args)}}
			}
			return []Out{{St: st}}
		}
		return m.call(st, f.F, args, f.Bind, site)
	case *Nil:
		return []Out{{St: st, Panic: "call of a nil function"}}
	case *Leaf:
		st.events = append(st.events, Event{Name: "call:" + f.ID, Args: args})
		return []Out{{St: st, Res: m.opaqueResult(st, "call "+f.ID, c.Signature().Results(), args)}}
	}
	return []Out{{St: st, Undec: fmt.Sprintf("call of %T", fnv)}}
}

func (m *M) invoke(st *State, recv Val, args []Val, c *ssa.CallCommon, site ssa.Instruction) []Out {
	switch x := recv.(type) {
	case *Ifc:
		fn := m.p.SSA.LookupMethod(x.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			if o, ok := m.modelInvoke(st, x, c, args); ok {
				return o
			}
			return []Out{{St: st, Undec: "no method " + c.Method.Name() + " on " + x.T.String()}}
		}
		return m.call(st, fn, append([]Val{x.V}, args...), nil, site)
	case *Nil:
		return []Out{{St: st, Panic: "nil interface method call"}}
	default:
		name := "invoke " + c.Method.Name()
		all := append([]Val{recv}, args...)
		if !pureMethod(c.Method) {
			st.events = append(st.events, Event{Name: name, Args: all})
		}
		return []Out{{St: st, Res: m.opaqueResult(st, name, c.Signature().Results(), all)}}
	}
}

func pureMethod(f *types.Func) bool { return f.Name() == "Error" || f.Name() == "String" }

func (m *M) typeAssert(st *State, v Val, t types.Type, commaOk bool) []alt {
	v = st.res(v)
	mk := func(st *State, ok bool, r Val) alt {
		if commaOk {
			if !ok {
				r = st.zero(t)
			}
			return alt{st: st, v: Tup{r, cBool(ok)}}
		}
		if !ok {
			return alt{st: st, panic: fmt.Sprintf("interface conversion: value is not %s", tname(t))}
		}
		return alt{st: st, v: r}
	}
	switch x := v.(type) {
	case *Nil:
		return []alt{mk(st, false, nil)}
	case *Ifc:
		if it, ok := t.Underlying().(*types.Interface); ok {
			if types.Implements(x.T, it) {
				return []alt{mk(st, true, x)}
			}
			return []alt{mk(st, false, nil)}
		}
		if types.Identical(x.T, t) {
			return []alt{mk(st, true, x.V)}
		}
		return []alt{mk(st, false, nil)}
	case *Leaf, *Expr:
		id := st.key(v)
		if it, ok := t.Underlying().(*types.Interface); ok {
			if it.NumMethods() == 0 {
				// any non-nil value
				return []alt{mk(st, true, v)}
			}
			if e, ok := v.(*Expr); ok && types.Implements(e.T, it) {
				return []alt{mk(st, true, v)}
			}
			k := "impl:" + id + ":" + tname(t)
			if b, ok := st.facts[k]; ok {
				return []alt{mk(st, b, v)}
			}
			a := st.clone()
			st.facts[k] = true
			a.facts[k] = false
			return []alt{mk(st, true, v), mk(a, false, nil)}
		}
		for _, n := range st.nott[id] {
			if types.Identical(n, t) {
				return []alt{mk(st, false, nil)}
			}
		}
		if l, ok := v.(*Leaf); ok {
			if l.Dyn != nil { // known candidates
				in := false
				for _, d := range l.Dyn {
					if types.Identical(d, t) {
						in = true
					}
				}
				if !in {
					return []alt{mk(st, false, nil)}
				}
			}
			a := st.clone()
			nl := &Leaf{ID: l.ID + "." + tname(t), T: t, IsNode: l.IsNode, NonNil: true, Class: l.Class}
			st.bind[l.ID] = &Ifc{T: t, V: nl}
			a.nott[id] = append(append([]types.Type{}, a.nott[id]...), t)
			return []alt{mk(st, true, nl), mk(a, false, nil)}
		}
		a := st.clone()
		a.nott[id] = append(append([]types.Type{}, a.nott[id]...), t)
		return []alt{mk(st, true, mkExpr("assert "+tname(t), t, v)), mk(a, false, nil)}
	}
	return undec(st, "type assertion on %T", v)
}

func (m *M) builtin(st *State, name string, args []Val, c *ssa.CallCommon) []alt {
	for i := range args {
		args[i] = st.res(args[i])
	}
	switch name {
	case "len":
		return m.length(st, args[0])
	case "cap":
		switch x := args[0].(type) {
		case *Slc:
			return one(st, cInt(x.Cap))
		case *Nil:
			return one(st, cInt(0))
		}
		return one(st, mkExpr("cap", types.Typ[types.Int], args[0]))
	case "append":
		return m.appendTo(st, args, c)
	case "copy":
		d, ok1 := args[0].(*Slc)
		if _, isNil := args[0].(*Nil); isNil {
			return one(st, cInt(0))
		}
		if !ok1 {
			return undec(st, "copy to %T", args[0])
		}
		var src []Val
		if s, ok := args[1].(*Str); ok {
			cs, ok := constStr(s)
			if !ok && m.text != nil && m.text.onlyText(s) {
				var r []alt
				for _, a := range m.text.fromStr(m, st, s, true, types.NewSlice(types.Typ[types.Uint8])) {
					if a.undec != "" {
						r = append(r, a)
						continue
					}
					r = append(r, m.builtin(a.st, "copy", []Val{d, a.v}, c)...)
				}
				return r
			}
			if !ok {
				return undec(st, "copy from an opaque string")
			}
			for i := 0; i < len(cs); i++ {
				src = append(src, &C{constant.MakeInt64(int64(cs[i])), types.Typ[types.Uint8]})
			}
		} else {
			var ok bool
			src, ok = st.elems(args[1])
			if !ok {
				return undec(st, "copy from %T", args[1])
			}
		}
		n := min(len(src), d.Len)
		c0 := st.heap[d.Obj]
		if ar, ok := getArr(st, c0, d.Path); ok {
			na := &Arr{T: ar.T, E: append([]Val{}, ar.E...)}
			copy(na.E[d.Lo:d.Lo+n], src[:n])
			nv, _ := setPath(st, c0, d.Path, na)
			st.heap[d.Obj] = nv
		} else {
			for i := 0; i < n; i++ {
				st.store(&Ptr{Obj: d.Obj, Path: subPath(d.Path, d.Lo+i)}, src[i])
			}
		}
		return one(st, cInt(n))
	case "delete":
		if mp, ok := args[0].(*MapP); ok {
			mo := st.heap[mp.Obj].(*MapO)
			n := &MapO{T: mo.T}
			for i := range mo.K {
				eq := m.equal(st, mo.K[i], args[1])
				if b, known := eq.(*C); known {
					if constant.BoolVal(b.V) {
						continue
					}
				} else {
					return undec(st, "delete with an undecided key")
				}
				n.K = append(n.K, mo.K[i])
				n.V = append(n.V, mo.V[i])
			}
			st.heap[mp.Obj] = n
			return one(st, nil)
		}
		if _, ok := args[0].(*Nil); ok {
			return one(st, nil)
		}
		return undec(st, "delete from %T", args[0])
	case "print", "println":
		st.events = append(st.events, Event{Name: "extern:" + name, Args: args})
		return one(st, nil)
	case "recover":
		return one(st, &Nil{types.NewInterfaceType(nil, nil)})
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(*C)
			y, ok2 := a.(*C)
			if !ok1 || !ok2 {
				return one(st, mkExpr(name, c.Signature().Results().At(0).Type(), args...))
			}
			if constant.Compare(y.V, token.LSS, x.V) == (name == "min") {
				r = a
			}
		}
		return one(st, r)
	case "clear":
		switch x := args[0].(type) {
		case *MapP:
			st.heap[x.Obj] = &MapO{T: st.heap[x.Obj].(*MapO).T}
			return one(st, nil)
		}
		return undec(st, "clear of %T", args[0])
	case "ssa:wrapnilchk":
		if _, ok := args[0].(*Nil); ok {
			return []alt{{st: st, panic: "value method called through a nil pointer"}}
		}
		return one(st, args[0])
	case "String": // unsafe.String(ptr, len)
		return m.unsafeString(st, args)
	case "SliceData":
		return one(st, mkExpr("slicedata", c.Signature().Results().At(0).Type(), args[0]))
	case "StringData":
		return one(st, mkExpr("stringdata", c.Signature().Results().At(0).Type(), args[0]))
	}
	return undec(st, "builtin %s", name)
}

func getArr(s *State, v Val, path []int) (*Arr, bool) {
	c, ok := getPath(s, v, path)
	if !ok {
		return nil, false
	}
	a, ok := s.res(c).(*Arr)
	return a, ok
}

// splitLen binds a slice leaf to lists of known length, nil included.
func (m *M) splitLen(st *State, l *Leaf) []*State {
	sl, ok := l.T.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	var out []*State
	for n := 0; n <= m.maxLen; n++ {
		a := st.clone()
		var e []Val
		for i := 0; i < n; i++ {
			e = append(e, &Leaf{ID: fmt.Sprintf("%s[%d]", l.ID, i), T: sl.Elem(), IsNode: l.IsNode})
		}
		if n == 0 {
			a.bind[l.ID] = &Nil{l.T}
		} else {
			a.bind[l.ID] = a.mkSlice(l.T, e)
		}
		out = append(out, a)
	}
	return out
}

func (m *M) length(st *State, v Val) []alt {
	switch x := v.(type) {
	case *Slc:
		return one(st, cInt(x.Len))
	case *Nil:
		return one(st, cInt(0))
	case *Arr:
		return one(st, cInt(len(x.E)))
	case *MapP:
		return one(st, cInt(len(st.heap[x.Obj].(*MapO).K)))
	case *Str:
		if s, ok := constStr(x); ok {
			return one(st, cInt(len(s)))
		}
		if m.text != nil && m.text.isText(x) && m.text.onlyText(x) {
			return m.text.length(st, x)
		}
		return one(st, mkExpr("len", types.Typ[types.Int], x))
	case *Leaf:
		if m.text != nil && m.text.isText(asStr(x)) {
			return m.text.length(st, asStr(x))
		}
		if _, ok := x.T.Underlying().(*types.Slice); ok {
			var r []alt
			for _, a := range m.splitLen(st, x) {
				r = append(r, m.length(a, a.res(x))...)
			}
			return r
		}
		if _, ok := x.T.Underlying().(*types.Map); ok {
			var r []alt
			for _, a := range m.splitMap(st, x) {
				r = append(r, m.length(a, a.res(x))...)
			}
			return r
		}
		return one(st, mkExpr("len", types.Typ[types.Int], x))
	case *Expr:
		return one(st, mkExpr("len", types.Typ[types.Int], x))
	case *Ptr:
		if c, ok := st.load(x); ok {
			if a, ok := st.res(c).(*Arr); ok {
				return one(st, cInt(len(a.E)))
			}
		}
	}
	return undec(st, "len of %T", v)
}

// splitMap binds a map leaf to nil and to maps with 1..2 opaque entries.
func (m *M) splitMap(st *State, l *Leaf) []*State {
	mt := l.T.Underlying().(*types.Map)
	var out []*State
	for n := 0; n <= 2; n++ {
		a := st.clone()
		if n == 0 {
			a.bind[l.ID] = &Nil{l.T}
		} else {
			mo := &MapO{T: l.T}
			for i := 0; i < n; i++ {
				mo.K = append(mo.K, &Leaf{ID: fmt.Sprintf("%s.key%d", l.ID, i), T: mt.Key(), NonEmpty: true, Distinct: true})
				mo.V = append(mo.V, &Leaf{ID: fmt.Sprintf("%s.val%d", l.ID, i), T: mt.Elem()})
			}
			a.bind[l.ID] = &MapP{Obj: a.alloc(mo), T: l.T}
		}
		out = append(out, a)
	}
	return out
}

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// bytesText is the text held by a byte slice: one written out element by
// element, or the opaque one the "bytes" operation stands for.
func (m *M) bytesText(st *State, v Val) (*Str, bool) {
	switch x := st.res(v).(type) {
	case *Nil:
		return lit(""), true
	case *Expr:
		if x.Op == "bytes" {
			return asStr(x.A[0]), true
		}
	case *Slc:
		if e, ok := st.elems(x); ok {
			return m.joinChars(st, e, true), true
		}
	}
	return nil, false
}

// appendText appends to a byte buffer when one of the two sides is a text of
// unknown length. Whether the text fits the buffer in place is then unknown
// too, so what the buffer held past its length is forgotten.
func (m *M) appendText(st *State, base, add Val, t types.Type) (Val, bool) {
	add = st.res(add)
	opaque := false
	if e, ok := base.(*Expr); ok && e.Op == "bytes" {
		opaque = true
	}
	var tail *Str
	switch x := add.(type) {
	case *Str:
		_, k := constStr(x)
		if !k && m.text != nil && m.text.onlyText(x) {
			return nil, false
		}
		opaque = opaque || !k
		tail = x
	case *Expr:
		if x.Op == "bytes" {
			opaque = true
		} else if isString(x.T) {
			opaque = true
			tail = asStr(x)
		}
	case *Leaf:
		if isString(x.T) && m.text == nil {
			opaque = true
			tail = asStr(x)
		}
	}
	if !opaque {
		return nil, false
	}
	head, ok := m.bytesText(st, base)
	if !ok {
		return nil, false
	}
	if tail == nil {
		if tail, ok = m.bytesText(st, add); !ok {
			return nil, false
		}
	}
	if b, ok := st.res(base).(*Slc); ok && b.Cap > b.Len {
		c0 := st.heap[b.Obj]
		ar, ok := getArr(st, c0, b.Path)
		if !ok {
			return nil, false
		}
		na := &Arr{T: ar.T, E: append([]Val{}, ar.E...)}
		for i := b.Lo + b.Len; i < b.Lo+b.Cap && i < len(na.E); i++ {
			na.E[i] = mkExpr("overwritten", types.Typ[types.Uint8], head, tail, cInt(i))
		}
		nv, _ := setPath(st, c0, b.Path, na)
		st.heap[b.Obj] = nv
	}
	return mkExpr("bytes", t, concat(head, tail)), true
}

func (m *M) appendTo(st *State, args []Val, c *ssa.CallCommon) []alt {
	base := args[0]
	if l, ok := base.(*Leaf); ok {
		var r []alt
		for _, a := range m.splitLen(st, l) {
			r = append(r, m.appendTo(a, append([]Val{a.res(l)}, args[1:]...), c)...)
		}
		return r
	}
	t := c.Signature().Results().At(0).Type()
	if len(args) > 1 && isBytes(t) {
		if v, ok := m.appendText(st, base, args[1], t); ok {
			return one(st, v)
		}
	}
	var add []Val
	if len(args) > 1 {
		switch x := args[1].(type) {
		case *Leaf:
			if _, ok := x.T.Underlying().(*types.Slice); ok {
				var r []alt
				for _, a := range m.splitLen(st, x) {
					r = append(r, m.appendTo(a, []Val{a.res(base), a.res(x)}, c)...)
				}
				return r
			}
		}
		if s, ok := args[1].(*Str); ok {
			cs, ok := constStr(s)
			if !ok && m.text != nil && m.text.onlyText(s) {
				var r []alt
				for _, a := range m.text.fromStr(m, st, s, true, types.NewSlice(types.Typ[types.Uint8])) {
					if a.undec != "" {
						r = append(r, a)
						continue
					}
					r = append(r, m.appendTo(a.st, []Val{a.st.res(base), a.v}, c)...)
				}
				return r
			}
			if !ok {
				return one(st, mkExpr("append", t, args...))
			}
			for i := 0; i < len(cs); i++ {
				add = append(add, &C{constant.MakeInt64(int64(cs[i])), types.Typ[types.Uint8]})
			}
		} else {
			var ok bool
			add, ok = st.elems(args[1])
			if !ok {
				return one(st, mkExpr("append", t, args...))
			}
		}
	}
	switch b := base.(type) {
	case *Slc:
		if b.Len+len(add) <= b.Cap && len(add) > 0 {
			// in place, as the run-time does
			c0 := st.heap[b.Obj]
			ar, ok := getArr(st, c0, b.Path)
			if !ok {
				return undec(st, "append to an unknown array")
			}
			na := &Arr{T: ar.T, E: append([]Val{}, ar.E...)}
			for i, v := range add {
				na.E[b.Lo+b.Len+i] = v
			}
			nv, _ := setPath(st, c0, b.Path, na)
			st.heap[b.Obj] = nv
			return one(st, &Slc{Obj: b.Obj, Path: b.Path, Lo: b.Lo, Len: b.Len + len(add), Cap: b.Cap, T: t})
		}
		if len(add) == 0 {
			return one(st, b)
		}
		old, _ := st.elems(b)
		return one(st, m.grown(st, t, append(old, add...)))
	case *Nil:
		if len(add) == 0 {
			return one(st, base)
		}
		return one(st, m.grown(st, t, add))
	case *Expr:
		return one(st, mkExpr("append", t, args...))
	}
	return undec(st, "append to %T", base)
}

// grown allocates a new backing array with room to grow (so that aliasing
// through spare capacity is represented).
func (m *M) grown(st *State, t types.Type, e []Val) Val {
	s := st.mkSlice(t, e)
	n := len(e)
	c := 1
	for c < n {
		c *= 2
	}
	if c > n {
		et := t.Underlying().(*types.Slice).Elem()
		ar := st.heap[s.Obj].(*Arr)
		na := &Arr{T: ar.T, E: append([]Val{}, ar.E...)}
		z := st.zero(et)
		for len(na.E) < c {
			na.E = append(na.E, z)
		}
		st.heap[s.Obj] = na
		s.Cap = c
	}
	return s
}

func (m *M) index(st *State, v, i Val, t types.Type) []alt {
	n, ok := isConstInt(i)
	if !ok && m.text != nil {
		if r, done := m.text.splitIndex(st, v, i, func(st *State, n int) []alt { return m.index(st, v, cInt(n), t) }); done {
			return r
		}
	}
	switch x := v.(type) {
	case *Arr:
		if ok {
			if n < 0 || n >= len(x.E) {
				return []alt{{st: st, panic: fmt.Sprintf("index %d out of range of an array of %d", n, len(x.E))}}
			}
			return one(st, x.E[n])
		}
	case *Str:
		if s, k := constStr(x); k && ok {
			if n < 0 || n >= len(s) {
				return []alt{{st: st, panic: fmt.Sprintf("index %d out of range of a string of %d bytes", n, len(s))}}
			}
			return one(st, &C{constant.MakeInt64(int64(s[n])), t})
		}
		if m.text != nil && m.text.onlyText(x) {
			return m.text.byteAt(m, st, x, i)
		}
		return one(st, mkExpr("byte", t, v, i))
	case *Leaf, *Expr:
		return one(st, mkExpr("byte", t, v, i))
	}
	return undec(st, "index of %T", v)
}

func (m *M) indexAddr(st *State, v, i Val, t types.Type) []alt {
	n, ok := isConstInt(i)
	if !ok && m.text != nil {
		if r, done := m.text.splitIndex(st, v, i, func(st *State, n int) []alt { return m.indexAddr(st, v, cInt(n), t) }); done {
			return r
		}
	}
	switch x := v.(type) {
	case *Slc:
		if !ok {
			return undec(st, "index is not determined: %s", st.key(i))
		}
		if n < 0 || n >= x.Len {
			return []alt{{st: st, panic: fmt.Sprintf("index %d out of range of a list of %d", n, x.Len)}}
		}
		return one(st, &Ptr{Obj: x.Obj, Path: subPath(x.Path, x.Lo+n), T: t})
	case *Nil:
		return []alt{{st: st, panic: "index of an empty list"}}
	case *Ptr: // pointer to array
		if !ok {
			return undec(st, "index is not determined: %s", st.key(i))
		}
		if c, k := st.load(x); k {
			if a, k := st.res(c).(*Arr); k && (n < 0 || n >= len(a.E)) {
				return []alt{{st: st, panic: fmt.Sprintf("index %d out of range of an array of %d", n, len(a.E))}}
			}
		}
		return one(st, &Ptr{Obj: x.Obj, Path: subPath(x.Path, n), T: t})
	case *Leaf:
		if _, k := x.T.Underlying().(*types.Slice); k {
			var r []alt
			for _, a := range m.splitLen(st, x) {
				r = append(r, m.indexAddr(a, a.res(x), i, t)...)
			}
			return r
		}
	case *Expr:
		if _, k := x.T.Underlying().(*types.Slice); k {
			id := st.alloc(mkExpr("elem", t.(*types.Pointer).Elem(), x, i))
			return one(st, &Ptr{Obj: id, T: t})
		}
	}
	return undec(st, "element of %T", v)
}

func (m *M) lookup(st *State, v, k Val, commaOk bool, t types.Type) []alt {
	vt := t
	if commaOk {
		vt = t.(*types.Tuple).At(0).Type()
	}
	ret := func(st *State, v Val, ok bool) alt {
		if commaOk {
			return alt{st: st, v: Tup{v, cBool(ok)}}
		}
		return alt{st: st, v: v}
	}
	switch x := v.(type) {
	case *Str:
		return m.index(st, v, k, t)
	case *Nil:
		return []alt{ret(st, st.zero(vt), false)}
	case *MapP:
		mo := st.heap[x.Obj].(*MapO)
		if m.text != nil && mo.allConst() {
			if s, ok := strOf(k); ok && m.text.isText(s) && m.text.onlyText(s) {
				return m.text.lookup(m, st, mo, s, ret, vt)
			}
		}
		var r []alt
		cur := st
		if cs, isC := constStr(k); isC && mo.allConst() {
			// big constant tables
			for i := len(mo.K) - 1; i >= 0; i-- {
				if s, _ := constStr(mo.K[i]); s == cs {
					return []alt{ret(st, mo.V[i], true)}
				}
			}
			return []alt{ret(st, st.zero(vt), false)}
		}
		if mo.allConst() && len(mo.K) > 6 {
			// an opaque key in a constant table: the table itself is the summary
			return []alt{{st: st, v: m.tableLookup(st, x, k, commaOk, vt)}}
		}
		for i := len(mo.K) - 1; i >= 0; i-- {
			eq := m.equal(cur, mo.K[i], k)
			next := cur
			stop := true
			for _, d := range m.decide(cur, eq) {
				if d.undec != "" {
					return undec(d.st, "%s", d.undec)
				}
				if d.b {
					r = append(r, ret(d.st, mo.V[i], true))
				} else {
					next = d.st
					stop = false
				}
			}
			if stop {
				return r
			}
			cur = next
		}
		return append(r, ret(cur, cur.zero(vt), false))
	case *Leaf:
		if _, isMap := x.T.Underlying().(*types.Map); isMap {
			var r []alt
			for _, a := range m.splitMap(st, x) {
				r = append(r, m.lookup(a, a.res(x), k, commaOk, t)...)
			}
			return r
		}
		return one(st, mkExpr("byte", t, v, k))
	case *Expr:
		if _, isMap := x.T.Underlying().(*types.Map); isMap {
			e := mkExpr("lookup", vt, v, k)
			if commaOk {
				return one(st, Tup{e, mkExpr("has", types.Typ[types.Bool], v, k)})
			}
			return one(st, e)
		}
		return one(st, mkExpr("byte", t, v, k))
	}
	return undec(st, "lookup in %T", v)
}

func (mo *MapO) allConst() bool {
	for _, k := range mo.K {
		if _, ok := constStr(k); !ok {
			return false
		}
	}
	return true
}

func (m *M) tableLookup(st *State, x *MapP, k Val, commaOk bool, vt types.Type) Val {
	e := mkExpr("lookup", vt, x, k)
	if commaOk {
		return Tup{e, mkExpr("has", types.Typ[types.Bool], x, k)}
	}
	return e
}

func (m *M) mapUpdate(st *State, v, k, val Val) []alt {
	switch x := v.(type) {
	case *Nil:
		return []alt{{st: st, panic: "assignment to an entry of a nil map"}}
	case *MapP:
		mo := st.heap[x.Obj].(*MapO)
		cur := st
		var r []alt
		for i := range mo.K {
			eq := m.equal(cur, mo.K[i], k)
			next := (*State)(nil)
			for _, d := range m.decide(cur, eq) {
				if d.undec != "" {
					return undec(d.st, "%s", d.undec)
				}
				if d.b {
					n := &MapO{T: mo.T, K: mo.K, V: append([]Val{}, mo.V...)}
					n.V[i] = val
					d.st.heap[x.Obj] = n
					r = append(r, alt{st: d.st})
				} else {
					next = d.st
				}
			}
			if next == nil {
				return r
			}
			cur = next
		}
		n := &MapO{T: mo.T, K: append(append([]Val{}, mo.K...), k), V: append(append([]Val{}, mo.V...), val)}
		cur.heap[x.Obj] = n
		return append(r, alt{st: cur})
	case *Leaf:
		if _, isMap := x.T.Underlying().(*types.Map); isMap {
			var r []alt
			for _, a := range m.splitMap(st, x) {
				r = append(r, m.mapUpdate(a, a.res(x), k, val)...)
			}
			return r
		}
	}
	return undec(st, "map update of %T", v)
}

func (m *M) rangeOf(st *State, v Val, t types.Type) []alt {
	switch x := v.(type) {
	case *MapP:
		mo := st.heap[x.Obj].(*MapO)
		it := &iterO{keys: append([]Val{}, mo.K...), vals: append([]Val{}, mo.V...), m: x}
		if m.reverse {
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				it.vals[i], it.vals[j] = it.vals[j], it.vals[i]
			}
		}
		if len(mo.K) > 1 {
			st.events = append(st.events, Event{Name: "maprange", Pos: fmt.Sprint(len(mo.K))})
		}
		return one(st, &Iter{Obj: st.alloc(it)})
	case *Nil:
		return one(st, &Iter{Obj: st.alloc(&iterO{})})
	case *Str:
		cs, ok := constStr(x)
		if !ok {
			return m.rangeStr(st, x)
		}
		it := &iterO{str: true}
		for i, r := range cs {
			it.keys = append(it.keys, cInt(i))
			it.vals = append(it.vals, &C{constant.MakeInt64(int64(r)), types.Typ[types.Rune]})
		}
		return one(st, &Iter{Obj: st.alloc(it)})
	case *Leaf:
		if _, ok := x.T.Underlying().(*types.Map); ok {
			var r []alt
			for _, a := range m.splitMap(st, x) {
				r = append(r, m.rangeOf(a, a.res(x), t)...)
			}
			return r
		}
		return m.rangeStr(st, asStr(x))
	case *Expr:
		if isString(x.T) {
			return m.rangeStr(st, asStr(x))
		}
	}
	return undec(st, "range over %T", v)
}

func (m *M) next(st *State, v Val, x *ssa.Next) []alt {
	it, ok := v.(*Iter)
	if !ok {
		return undec(st, "iteration over %T", v)
	}
	o := st.heap[it.Obj].(*iterO)
	if o.txt != nil {
		return m.text.next(m, st, it, x)
	}
	tt := x.Type().(*types.Tuple)
	if o.pos >= len(o.keys) {
		return one(st, Tup{cBool(false), zeroOf(st, tt.At(1).Type()), zeroOf(st, tt.At(2).Type())})
	}
	n := *o
	n.pos++
	st.heap[it.Obj] = &n
	return one(st, Tup{cBool(true), o.keys[o.pos], o.vals[o.pos]})
}

func zeroOf(st *State, t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return st.zero(t)
}

func (m *M) slice(st *State, x *ssa.Slice, v Val, p *path) []alt {
	get := func(a ssa.Value, def int) (int, bool, Val) {
		if a == nil {
			return def, true, nil
		}
		av := m.val(p, a)
		n, ok := isConstInt(av)
		return n, ok, av
	}
	switch b := v.(type) {
	case *Slc:
		lo, ok1, _ := get(x.Low, 0)
		hi, ok2, _ := get(x.High, b.Len)
		mx, ok3, _ := get(x.Max, b.Cap)
		if !ok1 || !ok2 || !ok3 {
			return undec(st, "slice bounds are not determined")
		}
		if lo < 0 || hi < lo || hi > b.Cap || mx > b.Cap || mx < hi {
			return []alt{{st: st, panic: fmt.Sprintf("slice bounds out of range [%d:%d] of %d", lo, hi, b.Cap)}}
		}
		return one(st, &Slc{Obj: b.Obj, Path: b.Path, Lo: b.Lo + lo, Len: hi - lo, Cap: mx - lo, T: x.Type()})
	case *Nil:
		lo, ok1, _ := get(x.Low, 0)
		hi, ok2, _ := get(x.High, 0)
		if !ok1 || !ok2 {
			return undec(st, "slice bounds are not determined")
		}
		if lo != 0 || hi != 0 {
			return []alt{{st: st, panic: "slice bounds out of range of a nil list"}}
		}
		return one(st, v)
	case *Ptr:
		c, ok := st.load(b)
		if !ok {
			return undec(st, "slice of an unknown array")
		}
		a, ok := st.res(c).(*Arr)
		if !ok {
			return undec(st, "slice of %T", c)
		}
		lo, ok1, _ := get(x.Low, 0)
		hi, ok2, _ := get(x.High, len(a.E))
		if !ok1 || !ok2 {
			return undec(st, "slice bounds are not determined")
		}
		if lo < 0 || hi < lo || hi > len(a.E) {
			return []alt{{st: st, panic: "slice bounds out of range"}}
		}
		return one(st, &Slc{Obj: b.Obj, Path: b.Path, Lo: lo, Len: hi - lo, Cap: len(a.E) - lo, T: x.Type()})
	case *Str:
		cs, isC := constStr(b)
		lo, ok1, lov := get(x.Low, 0)
		hi, ok2, hiv := get(x.High, -1)
		if isC && ok1 && ok2 {
			if hi < 0 && x.High == nil {
				hi = len(cs)
			}
			if lo < 0 || hi < lo || hi > len(cs) {
				return []alt{{st: st, panic: fmt.Sprintf("slice bounds out of range [%d:%d] of a text of %d bytes", lo, hi, len(cs))}}
			}
			r := lit(cs[lo:hi])
			return one(st, r)
		}
		return m.sliceStr(st, b, lov, hiv, x.High != nil, x.Type())
	case *Leaf:
		if isString(b.T) {
			_, _, lov := get(x.Low, 0)
			_, _, hiv := get(x.High, -1)
			return m.sliceStr(st, b, lov, hiv, x.High != nil, x.Type())
		}
		if _, ok := b.T.Underlying().(*types.Slice); ok {
			var r []alt
			for _, a := range m.splitLen(st, b) {
				q := p.fork(a)
				r = append(r, m.slice(a, x, a.res(b), q)...)
			}
			return r
		}
	case *Expr:
		_, _, lov := get(x.Low, 0)
		_, _, hiv := get(x.High, -1)
		if isString(b.T) {
			return m.sliceStr(st, b, lov, hiv, x.High != nil, x.Type())
		}
		return one(st, mkExpr("slice", x.Type(), b, lov, hiv))
	}
	return undec(st, "slice of %T", v)
}

// sortedFacts renders what a partition assumes, for reports.
func (st *State) assumptions() string {
	var b []string
	for k, v := range st.facts {
		if v {
			b = append(b, k)
		} else {
			b = append(b, "not "+k)
		}
	}
	for k, v := range st.bind {
		b = append(b, k+" = "+st.key(v))
	}
	sort.Strings(b)
	s := strings.Join(b, "; ")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// decideNil splits on whether a value is nil.
func (m *M) decideNil(st *State, v Val) []cond {
	v = st.res(v)
	switch x := v.(type) {
	case *Nil:
		return []cond{{st, true, ""}}
	case *Leaf:
		if x.NonNil {
			return []cond{{st, false, ""}}
		}
		switch x.T.Underlying().(type) {
		case *types.Slice:
			var r []cond
			for _, a := range m.splitLen(st, x) {
				_, isNil := a.res(x).(*Nil)
				r = append(r, cond{a, isNil, ""})
			}
			return r
		case *types.Map:
			var r []cond
			for _, a := range m.splitMap(st, x) {
				_, isNil := a.res(x).(*Nil)
				r = append(r, cond{a, isNil, ""})
			}
			return r
		case *types.Pointer:
			a := st.clone()
			a.bind[x.ID] = &Nil{x.T}
			m.materialise(st, x)
			return []cond{{a, true, ""}, {st, false, ""}}
		}
		a := st.clone()
		a.bind[x.ID] = &Nil{x.T}
		y := *x
		y.NonNil = true
		y.ID = x.ID + "!"
		st.bind[x.ID] = &y
		if n, ok := st.nott[x.ID]; ok {
			st.nott["?"+y.ID] = n
		}
		if n, ok := st.nott["?"+x.ID]; ok {
			st.nott["?"+y.ID] = n
		}
		return []cond{{a, true, ""}, {st, false, ""}}
	case *Expr:
		k := "isnil:" + st.key(x)
		if b, ok := st.facts[k]; ok {
			return []cond{{st, b, ""}}
		}
		a := st.clone()
		a.facts[k] = true
		st.facts[k] = false
		return []cond{{a, true, ""}, {st, false, ""}}
	}
	return []cond{{st, false, ""}}
}
