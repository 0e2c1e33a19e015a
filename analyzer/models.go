package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func isLetterRune(r rune) bool { return unicode.IsLetter(r) }

var keywordSet map[string]bool // lower-case keywords, filled from the language spec

func keywordText(s string) bool { return keywordSet[strings.ToLower(s)] }

// model gives the meaning of library functions.
func (m *M) model(st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Out, bool) {
	pk := fnPkg(fn)
	if pk == nil {
		return nil, false
	}
	path := pk.Path()
	if m.p.inRepo(fn) {
		return nil, false
	}
	for i := range args {
		args[i] = st.evalLin(args[i])
	}
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return []Out{{St: st}}, true
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Origin() == nil {
		return nil, false // wrappers lead to the real method
	}
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	ret := func(v Val) ([]Out, bool) { return []Out{{St: st, Res: v}}, true }
	res := fn.Signature.Results()
	opaque := func() ([]Out, bool) {
		return []Out{{St: st, Res: m.opaqueResult(st, pk.Name()+"."+recv+"."+name, res, args)}}, true
	}
	und := func(f string, a ...any) ([]Out, bool) {
		return []Out{{St: st, Undec: fmt.Sprintf(f, a...), Pos: fn.String()}}, true
	}
	str := func(i int) *Str { s, _ := strOf(args[i]); return s }
	cs := func(i int) (string, bool) {
		s, ok := strOf(args[i])
		if !ok {
			return "", false
		}
		return constStr(s)
	}
	if m.text != nil {
		if o, ok := m.text.model(m, st, fn, path, recv, name, args); ok {
			return o, true
		}
	}
	switch path {
	case "sync/atomic":
		return m.modelAtomic(st, fn, recv, name, args)
	case "sync":
		switch recv + "." + name {
		case "Mutex.Lock", "Mutex.Unlock", "RWMutex.Lock", "RWMutex.Unlock", "RWMutex.RLock", "RWMutex.RUnlock", "WaitGroup.Add", "WaitGroup.Done", "WaitGroup.Wait":
			return ret(nil)
		case "Once.Do":
			return m.callVal(st, args[1], nil, nil, site), true
		case "Pool.Put":
			return ret(nil)
		case "Pool.Get":
			p, ok := args[0].(*Ptr)
			if ok {
				if c, ok := st.load(p); ok {
					if r, ok := st.expand(c).(*Rec); ok {
						f := st.res(r.F[len(r.F)-1])
						if fv, ok := f.(*Fn); ok {
							return m.callVal(st, fv, nil, nil, site), true
						}
					}
				}
			}
		}
	case "strings", "bytes":
		if recv == "Builder" || recv == "Buffer" {
			return m.modelBuilder(st, fn, name, args, site)
		}
		if path == "strings" && recv == "" {
			switch name {
			case "Join":
				e, ok := st.elems(args[0])
				if !ok {
					if l, k := args[0].(*Leaf); k {
						var outs []Out
						for _, a := range m.splitLen(st, l) {
							o, _ := m.model(a, fn, []Val{a.res(l), args[1]}, site)
							outs = append(outs, o...)
						}
						return outs, true
					}
					return opaque()
				}
				r := lit("")
				for i, x := range e {
					if i > 0 {
						r = concat(r, str(1))
					}
					s, ok := strOf(st.res(x))
					if !ok {
						return und("Join of %T", x)
					}
					r = concat(r, s)
				}
				return ret(r)
			case "Repeat":
				return m.repeat(st, str(0), args[1], res.At(0).Type())
			case "Compare":
				return nil, false
			}
			if name == "Map" || name == "ContainsFunc" {
				i, _ := strOf(args[0])
				if name == "Map" {
					i, _ = strOf(args[1])
				}
				if _, ok := constStr(i); i != nil && (ok || m.text != nil) {
					if o, ok := m.runesModel(st, name, args, site); ok {
						return o, true
					}
				}
			}
			// known texts: constant folding of pure library functions
			if v, ok := foldStrings(name, args, st); ok {
				return ret(v)
			}
			if v, ok := m.partialStrings(st, name, args); ok {
				return ret(v)
			}
			if name == "Map" || name == "IndexFunc" || name == "TrimFunc" || name == "FieldsFunc" || name == "ContainsFunc" || name == "TrimLeftFunc" || name == "TrimRightFunc" {
				if _, ok := cs(0); ok {
					return nil, false // interpret
				}
				if _, ok := cs(len(args) - 1); ok && name == "Map" {
					return nil, false
				}
			}
			return opaque()
		}
		return opaque()
	case "fmt":
		switch name {
		case "Sprintf", "Errorf":
			f, ok := cs(0)
			if !ok {
				return opaque()
			}
			as, ok := st.elems(args[1])
			if !ok {
				return opaque()
			}
			s, err := m.sprintf(st, f, as)
			if err != nil {
				return und("%v", err)
			}
			if name == "Errorf" {
				return ret(m.mkError(st, s))
			}
			return ret(s)
		case "Appendf":
			f, ok := cs(1)
			if !ok {
				return opaque()
			}
			as, ok := st.elems(args[2])
			if !ok {
				return opaque()
			}
			s, err := m.sprintf(st, f, as)
			if err != nil {
				return und("%v", err)
			}
			if r, ok := m.appendForm(st, args[0], s, fn); ok {
				return r, true
			}
			return opaque()
		case "Sprint", "Sprintln":
			as, ok := st.elems(args[0])
			if !ok {
				return opaque()
			}
			r := lit("")
			for i, a := range as {
				s, err := m.format(st, 'v', "", a)
				if err != nil {
					return und("%v", err)
				}
				if i > 0 && (name == "Sprintln" || (!isStrVal(as[i]) && !isStrVal(as[i-1]))) {
					r = concat(r, lit(" "))
				}
				r = concat(r, s)
			}
			if name == "Sprintln" {
				r = concat(r, lit("\n"))
			}
			return ret(r)
		case "Fprintf", "Fprint", "Fprintln":
			var s *Str
			if name == "Fprintf" {
				f, ok := cs(1)
				as, ok2 := st.elems(args[2])
				if ok && ok2 {
					x, err := m.sprintf(st, f, as)
					if err != nil {
						return und("%v", err)
					}
					s = x
				}
			} else if as, ok := st.elems(args[1]); ok {
				s = lit("")
				for i, a := range as {
					x, err := m.format(st, 'v', "", a)
					if err != nil {
						return und("%v", err)
					}
					if i > 0 && (name == "Fprintln" || (!isStrVal(as[i]) && !isStrVal(as[i-1]))) {
						s = concat(s, lit(" "))
					}
					s = concat(s, x)
				}
				if name == "Fprintln" {
					s = concat(s, lit("\n"))
				}
			}
			if s == nil {
				return und("formatted write of an unknown format")
			}
			if i, ok := args[0].(*Ifc); ok {
				if o, ok := m.writeTo(st, i, s); ok {
					return o, true
				}
			}
			st.events = append(st.events, Event{Name: "extern:" + fn.String(), Args: args})
			return ret(Tup{cInt(0), &Nil{res.At(1).Type()}})
		case "Print", "Printf", "Println":
			st.events = append(st.events, Event{Name: "extern:" + fn.String(), Args: args})
			return ret(Tup{cInt(0), &Nil{res.At(1).Type()}})
		}
	case "io":
		if name == "WriteString" {
			if i, ok := args[0].(*Ifc); ok {
				if o, ok := m.writeTo(st, i, str(1)); ok {
					return o, true
				}
			}
		}
	case "errors", "github.com/pkg/errors":
		switch name {
		case "New":
			if recv == "" {
				return ret(m.mkError(st, str(0)))
			}
		case "Errorf":
			f, ok := cs(0)
			as, ok2 := st.elems(args[1])
			if ok && ok2 {
				s, err := m.sprintf(st, f, as)
				if err != nil {
					return und("%v", err)
				}
				return ret(m.mkError(st, s))
			}
			return ret(m.mkError(st, asStr(mkExpr("text", types.Typ[types.String], args...))))
		case "Wrap", "WithMessage", "Wrapf", "WithMessagef", "WithStack":
			var outs []Out
			for _, d := range m.decide(st, m.equal(st, args[0], &Nil{})) {
				if d.b {
					outs = append(outs, Out{St: d.st, Res: &Nil{res.At(0).Type()}})
					continue
				}
				msg := lit("")
				if len(args) > 1 {
					if s, ok := strOf(args[1]); ok {
						msg = concat(s, lit(": "))
					}
				}
				if len(args) > 2 {
					if f, ok := cs(1); ok {
						if as, ok := d.st.elems(args[2]); ok {
							if s, err := m.sprintf(d.st, f, as); err == nil {
								msg = concat(s, lit(": "))
							}
						}
					}
				}
				t, err := m.format(d.st, 'v', "", args[0])
				if err != nil {
					t = asStr(mkExpr("errtext", types.Typ[types.String], args[0]))
				}
				outs = append(outs, Out{St: d.st, Res: m.mkError(d.st, concat(msg, t))})
			}
			return outs, true
		case "Is", "As", "Unwrap", "Cause", "Join":
			if recv == "" {
				return opaque()
			}
		}
	case "strconv":
		return m.modelStrconv(st, fn, name, args)
	case "time":
		switch recv + "." + name {
		case "Time.Format":
			f, ok := cs(1)
			if !ok {
				return opaque()
			}
			return ret(&Str{P: []Piece{{V: mkExpr("timefmt", types.Typ[types.String], lit(f), args[0])}}, T: types.Typ[types.String]})
		case "Time.IsZero":
			return ret(mkExpr("time.IsZero", types.Typ[types.Bool], args[0]))
		case ".Parse":
			if f, ok := cs(0); ok {
				if t, ok := cs(1); ok {
					v := mkExpr("time.Parse", res.At(0).Type(), args...)
					if _, err := time.Parse(f, t); err != nil {
						return ret(Tup{v, m.mkError(st, lit(err.Error()))})
					}
					return ret(Tup{v, &Nil{res.At(1).Type()}})
				}
			}
			v := mkExpr("time.Parse", res.At(0).Type(), args...)
			er := mkExpr("time.Parse#err", res.At(1).Type(), args...)
			return ret(Tup{v, er})
		}
		return opaque()
	case "sort":
		switch name {
		case "Strings":
			return m.sortVals(st, args[0], nil, site)
		case "Slice", "SliceStable":
			if i, ok := args[0].(*Ifc); ok {
				return m.sortIdx(st, i.V, args[1], site)
			}
		}
	case "slices":
		switch name {
		case "Sort":
			return m.sortVals(st, args[0], nil, site)
		case "SortFunc", "SortStableFunc":
			return m.sortVals(st, args[0], args[1], site)
		case "Sorted":
			return nil, false
		}
	case "unicode":
		if recv == "" && len(args) == 1 {
			if c, ok := args[0].(*C); ok && c.V.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.V)
				if v, ok := foldUnicode(name, rune(n)); ok {
					return ret(v)
				}
			}
			if l, k, ok := st.linear(args[0]); ok && k == 0 {
				if s, ok := unicodeSet(name); ok {
					return ret(m.inSet(st, l, s))
				}
			}
		}
		return opaque()
	case "unicode/utf8":
		if len(args) == 1 {
			if s, ok := cs(0); ok {
				two := func(r rune, n int) ([]Out, bool) {
					return ret(Tup{&C{constant.MakeInt64(int64(r)), types.Typ[types.Rune]}, cInt(n)})
				}
				switch name {
				case "RuneCountInString":
					return ret(cInt(len([]rune(s))))
				case "DecodeRuneInString":
					return two(utf8.DecodeRuneInString(s))
				case "DecodeLastRuneInString":
					return two(utf8.DecodeLastRuneInString(s))
				case "ValidString":
					return ret(cBool(utf8.ValidString(s)))
				}
			}
			if n, ok := isConstInt(args[0]); ok && name == "RuneLen" {
				return ret(cInt(utf8.RuneLen(rune(n))))
			}
			if b, ok := constBytes(st, args[0]); ok {
				two := func(r rune, n int) ([]Out, bool) {
					return ret(Tup{&C{constant.MakeInt64(int64(r)), types.Typ[types.Rune]}, cInt(n)})
				}
				switch name {
				case "DecodeRune":
					return two(utf8.DecodeRune(b))
				case "DecodeLastRune":
					return two(utf8.DecodeLastRune(b))
				case "RuneCount":
					return ret(cInt(utf8.RuneCount(b)))
				}
			}
		}
		if s, ok := strOf(firstArg(args)); ok {
			if _, k := constStr(s); k {
				return nil, false
			}
			return opaque()
		}
		return nil, false
	case "reflect":
		switch recv + "." + name {
		case ".ValueOf":
			return ret(mkExpr("reflect.Value", res.At(0).Type(), args[0]))
		case ".TypeOf":
			if i, ok := args[0].(*Ifc); ok {
				return ret(mkExpr("reflect.Type:"+i.T.String(), res.At(0).Type()))
			}
		case "Value.IsNil":
			if e, ok := args[0].(*Expr); ok && e.Op == "reflect.Value" {
				switch i := st.res(e.A[0]).(type) {
				case *Ifc:
					switch i.T.Underlying().(type) {
					case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Interface, *types.Chan:
						return ret(m.equal(st, st.res(i.V), &Nil{i.T}))
					}
					return []Out{{St: st, Panic: "reflect: IsNil on a value of type " + i.T.String()}}, true
				case *Nil:
					return []Out{{St: st, Panic: "reflect: IsNil on the zero Value"}}, true
				}
			}
		case "Value.IsValid":
			if e, ok := args[0].(*Expr); ok && e.Op == "reflect.Value" {
				if _, ok := st.res(e.A[0]).(*Nil); ok {
					return ret(cBool(false))
				}
				return ret(cBool(true))
			}
		case "Value.Kind":
			if e, ok := args[0].(*Expr); ok && e.Op == "reflect.Value" {
				if i, ok := st.res(e.A[0]).(*Ifc); ok {
					k := 0
					switch i.T.Underlying().(type) {
					case *types.Pointer:
						k = 22
					case *types.Slice:
						k = 23
					case *types.Struct:
						k = 25
					case *types.Map:
						k = 21
					}
					if k > 0 {
						return ret(&C{constant.MakeInt64(int64(k)), res.At(0).Type()})
					}
				}
			}
		}
		return opaque()
	case "math":
		if len(args) == 1 {
			if c, ok := args[0].(*C); ok {
				if f, _ := constant.Float64Val(c.V); true {
					switch name {
					case "Abs":
						if f < 0 {
							return ret(&C{constant.UnaryOp(token.SUB, c.V, 0), c.T})
						}
						return ret(c)
					}
				}
			}
		}
		return opaque()
	case "encoding/json":
		if o, ok := m.jsonModel(st, fn, name, recv, args); ok {
			return o, true
		}
		return m.external(st, fn, args, site), true
	case "runtime", "os", "log", "math/rand", "regexp", "context":
		return m.external(st, fn, args, site), true
	}
	return nil, false
}

func constBytes(st *State, v Val) ([]byte, bool) {
	e, ok := st.elems(v)
	if !ok {
		return nil, false
	}
	var b []byte
	for _, x := range e {
		n, ok := isConstInt(st.res(x))
		if !ok {
			return nil, false
		}
		b = append(b, byte(n))
	}
	return b, true
}

func firstArg(a []Val) Val {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

func isStrVal(v Val) bool {
	if i, ok := v.(*Ifc); ok {
		return isString(i.T)
	}
	return false
}

func (m *M) mkError(st *State, s *Str) Val {
	n := errorStringType(m.p)
	if n == nil {
		return &Ifc{T: types.Universe.Lookup("error").Type(), V: s}
	}
	id := st.alloc(&Rec{T: n, F: []Val{s}})
	pt := types.NewPointer(n)
	return &Ifc{T: pt, V: &Ptr{Obj: id, T: pt}}
}

func errorStringType(p *Prog) types.Type {
	pk := p.SSA.ImportedPackage("errors")
	if pk == nil {
		return nil
	}
	if o := pk.Pkg.Scope().Lookup("errorString"); o != nil {
		return o.Type()
	}
	return nil
}

func (m *M) modelInvoke(st *State, x *Ifc, c *ssa.CallCommon, args []Val) ([]Out, bool) {
	return nil, false
}

func (m *M) modelAtomic(st *State, fn *ssa.Function, recv, name string, args []Val) ([]Out, bool) {
	p, ok := args[0].(*Ptr)
	if !ok {
		return []Out{{St: st, Undec: "atomic operation on an unknown location", Pos: fn.String()}}, true
	}
	vt := types.Type(types.Typ[types.Int32])
	if r := fn.Signature.Results(); r.Len() > 0 && !isBool(r.At(0).Type()) {
		vt = r.At(0).Type()
	} else if fn.Signature.Params().Len() > 0 {
		vt = fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type()
	}
	if recv != "" { // the value field of atomic.Int32 and friends
		c, ok := st.load(p)
		if !ok {
			return nil, false
		}
		r, ok := st.expand(c).(*Rec)
		if !ok {
			return nil, false
		}
		stt := r.T.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == "v" {
				p = &Ptr{Obj: p.Obj, Path: subPath(p.Path, i), T: types.NewPointer(stt.Field(i).Type())}
			}
		}
	}
	cur, ok := st.load(p)
	if !ok {
		return nil, false
	}
	cur = st.res(cur)
	op := name
	for _, pre := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
		if strings.HasPrefix(name, pre) {
			op = pre
		}
	}
	out := func(v Val) ([]Out, bool) { return []Out{{St: st, Res: v}}, true }
	if recv == "Bool" {
		switch op {
		case "Load":
			if _, ok := cur.(*C); !ok {
				return nil, false
			}
			return out(m.binopBool(st, cur))
		case "Store":
			v := st.res(args[1])
			if c, ok := v.(*C); ok {
				n := int64(0)
				if constant.BoolVal(c.V) {
					n = 1
				}
				st.store(p, &C{constant.MakeInt64(n), types.Typ[types.Uint32]})
				return out(nil)
			}
		}
		return nil, false
	}
	switch op {
	case "Load":
		return out(cur)
	case "Store":
		st.store(p, args[1])
		return out(nil)
	case "Swap":
		st.store(p, args[1])
		return out(cur)
	case "Add":
		as := m.binop(st, token.ADD, cur, args[1], vt)
		st.store(p, as[0].v)
		return out(as[0].v)
	case "CompareAndSwap":
		var outs []Out
		for _, d := range m.decide(st, m.equal(st, cur, args[1])) {
			if d.b {
				d.st.store(p, args[2])
			}
			outs = append(outs, Out{St: d.st, Res: cBool(d.b), Undec: d.undec})
		}
		return outs, true
	}
	return nil, false
}

func (m *M) binopBool(st *State, v Val) Val {
	c := v.(*C)
	if c.V.Kind() == constant.Bool {
		return c
	}
	n, _ := constant.Int64Val(c.V)
	return cBool(n != 0)
}

// builders: the object's content is the text written so far.
func (m *M) modelBuilder(st *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]Out, bool) {
	var outs []Out
	for _, a := range m.onPtr(st, args[0], func(st *State, p *Ptr) []alt {
		c, ok := st.load(p)
		if !ok {
			return undec(st, "unknown builder")
		}
		cur, ok := st.res(c).(*Str)
		if !ok {
			switch c.(type) {
			case *Rec:
				cur = lit("")
			default:
				return undec(st, "unknown builder content")
			}
		}
		nilErr := func() Val { return &Nil{types.Universe.Lookup("error").Type()} }
		switch name {
		case "WriteString":
			s, ok := strOf(st.res(args[1]))
			if !ok {
				return undec(st, "write of %T", args[1])
			}
			st.store(p, concat(cur, s))
			return one(st, Tup{mkExpr("len", types.Typ[types.Int], s), nilErr()})
		case "WriteByte", "WriteRune":
			s := m.joinChars(st, []Val{args[1]}, name == "WriteByte")
			st.store(p, concat(cur, s))
			if name == "WriteByte" {
				return one(st, nilErr())
			}
			return one(st, Tup{mkExpr("len", types.Typ[types.Int], s), nilErr()})
		case "Write":
			if e, ok := args[1].(*Expr); ok && e.Op == "bytes" {
				s := asStr(e.A[0])
				st.store(p, concat(cur, s))
				return one(st, Tup{mkExpr("len", types.Typ[types.Int], s), nilErr()})
			}
			e, ok := st.elems(args[1])
			if !ok {
				return undec(st, "write of %T", args[1])
			}
			s := m.joinChars(st, e, true)
			st.store(p, concat(cur, s))
			return one(st, Tup{mkExpr("len", types.Typ[types.Int], s), nilErr()})
		case "String":
			return one(st, cur)
		case "Len":
			return m.length(st, cur)
		case "Reset", "Truncate":
			if name == "Truncate" {
				n, ok := isConstInt(args[1])
				cs, ok2 := constStr(cur)
				if !ok || !ok2 && n != 0 {
					return undec(st, "truncation of an opaque text")
				}
				if n > 0 {
					st.store(p, lit(cs[:n]))
					return one(st, nil)
				}
			}
			st.store(p, st.zero(p.T.Underlying().(*types.Pointer).Elem()))
			return one(st, nil)
		case "Grow":
			st.store(p, cur)
			return one(st, nil)
		case "Cap":
			// only whether there is a buffer matters
			if _, fresh := st.res(c).(*Rec); fresh {
				return one(st, cInt(0))
			}
			return one(st, cInt(1<<20))
		case "Bytes":
			return one(st, mkExpr("bytes", fn.Signature.Results().At(0).Type(), cur))
		}
		return undec(st, "builder method %s", name)
	}) {
		outs = append(outs, Out{St: a.st, Res: a.v, Panic: a.panic, Undec: a.undec})
	}
	return outs, true
}

// writeTo writes to a builder behind an io.Writer.
func (m *M) writeTo(st *State, w *Ifc, s *Str) ([]Out, bool) {
	fn := m.p.SSA.LookupMethod(w.T, nil, "WriteString")
	if fn == nil {
		return nil, false
	}
	return m.call(st, fn, []Val{w.V, s}, nil, nil), true
}

// repeat: blanks repeated an unknown number of times stay one opaque piece.
func (m *M) repeat(st *State, s *Str, n Val, t types.Type) ([]Out, bool) {
	n = st.evalLin(n)
	if k, ok := isConstInt(n); ok {
		if k < 0 {
			return []Out{{St: st, Panic: "strings: negative Repeat count", Pos: "strings.Repeat"}}, true
		}
		if k > 10000 {
			return []Out{{St: st, Undec: "large repetition", Pos: "strings.Repeat"}}, true
		}
		r := lit("")
		for i := 0; i < k; i++ {
			r = concat(r, s)
		}
		return []Out{{St: st, Res: r}}, true
	}
	return []Out{{St: st, Res: &Str{P: []Piece{{V: mkExpr("repeat", t, s, n)}}, T: t}}}, true
}

func (m *M) sprintf(st *State, f string, as []Val) (*Str, error) {
	r := lit("")
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			r = concat(r, lit(f[i:i+j]))
			i += j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil, errf("malformed format %q", f)
		}
		flags, verb := f[i+1:j], f[j]
		i = j
		if verb == '%' {
			r = concat(r, lit("%"))
			continue
		}
		if strings.ContainsAny(flags, "*[") {
			return nil, errf("unsupported format %q", f)
		}
		if k >= len(as) {
			r = concat(r, lit("%!"+string(verb)+"(MISSING)"))
			continue
		}
		s, err := m.format(st, verb, flags, as[k])
		if err != nil {
			return nil, err
		}
		r = concat(r, s)
		k++
	}
	if k < len(as) {
		r = concat(r, lit("%!(EXTRA)"))
	}
	return r, nil
}

// format is one formatted operand (an interface value).
func (m *M) format(st *State, verb byte, flags string, v Val) (*Str, error) {
	v = st.res(v)
	fe := func(x Val) *Str {
		return &Str{P: []Piece{{V: mkExpr("fmt", types.Typ[types.String], lit("%"+flags+string(verb)), x)}}, T: types.Typ[types.String]}
	}
	i, ok := v.(*Ifc)
	if !ok {
		if _, isNil := v.(*Nil); isNil {
			if verb == 'v' {
				return lit("<nil>"), nil
			}
			return lit("%!" + string(verb) + "(<nil>)"), nil
		}
		return fe(v), nil
	}
	if verb == 'T' && flags == "" {
		return lit(types.TypeString(i.T, func(p *types.Package) string { return p.Name() })), nil
	}
	x := st.evalLin(i.V)
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		for _, meth := range []string{"Error", "String"} {
			sel := types.NewMethodSet(i.T).Lookup(nil, meth)
			if sel == nil {
				continue
			}
			sig := sel.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
				continue
			}
			fn := m.p.SSA.MethodValue(sel)
			if fn == nil {
				continue
			}
			outs := m.call(st, fn, []Val{x}, nil, nil)
			if len(outs) == 1 && !outs[0].bad() && outs[0].St == st {
				if s, ok := strOf(st.res(outs[0].Res)); ok {
					if verb == 'q' {
						return fe(s), nil
					}
					return s, nil
				}
			}
			return fe(v), nil
		}
	}
	switch {
	case isString(i.T):
		s, ok := strOf(x)
		if !ok {
			return fe(x), nil
		}
		if flags != "" {
			if c, k := constStr(s); k {
				return lit(fmt.Sprintf("%"+flags+string(verb), c)), nil
			}
			return fe(s), nil
		}
		switch verb {
		case 's', 'v', 'w':
			return s, nil
		case 'q':
			if c, k := constStr(s); k {
				return lit(strconv.Quote(c)), nil
			}
			return fe(s), nil
		}
		return fe(s), nil
	case isInt(i.T):
		if c, k := x.(*C); k {
			n, _ := constant.Int64Val(c.V)
			if verb == 'w' {
				verb = 'v'
			}
			return lit(fmt.Sprintf("%"+flags+string(verb), n)), nil
		}
		if (verb == 'd' || verb == 'v') && flags == "" {
			return &Str{P: []Piece{{V: mkExpr("itoa", types.Typ[types.String], x)}}, T: types.Typ[types.String]}, nil
		}
		return fe(x), nil
	case isBool(i.T):
		if c, k := x.(*C); k && (verb == 'v' || verb == 't') {
			return lit(fmt.Sprint(constant.BoolVal(c.V))), nil
		}
		return fe(x), nil
	}
	if c, ok := x.(*C); ok && c.V.Kind() == constant.Float || ok && c.V.Kind() == constant.Int {
		f, _ := constant.Float64Val(c.V)
		return lit(fmt.Sprintf("%"+flags+string(verb), f)), nil
	}
	return fe(x), nil
}

func (m *M) appendForm(st *State, base Val, s *Str, fn *ssa.Function) ([]Out, bool) {
	t := fn.Signature.Results().At(0).Type()
	if v, ok := m.appendText(st, st.res(base), s, t); ok {
		return []Out{{St: st, Res: v}}, true
	}
	if head, ok := m.bytesText(st, base); ok {
		return []Out{{St: st, Res: mkExpr("bytes", t, concat(head, s))}}, true
	}
	return nil, false
}

func (m *M) modelStrconv(st *State, fn *ssa.Function, name string, args []Val) ([]Out, bool) {
	ret := func(v Val) ([]Out, bool) { return []Out{{St: st, Res: v}}, true }
	sT := types.Typ[types.String]
	piece := func(e *Expr) *Str { return &Str{P: []Piece{{V: e}}, T: sT} }
	if verb, ok := strings.CutPrefix(name, "Append"); ok && len(args) > 1 {
		// the Append form of a formatting function
		if verb == "Int" || verb == "Uint" || verb == "Float" || verb == "Bool" || verb == "Quote" {
			if verb != "Quote" {
				verb = "Format" + verb
			}
			outs, ok := m.modelStrconv(st, fn, verb, args[1:])
			if !ok || len(outs) != 1 || outs[0].bad() {
				return outs, ok
			}
			if s, ok := strOf(outs[0].Res); ok {
				return m.appendForm(outs[0].St, args[0], s, fn)
			}
		}
	}
	switch name {
	case "Itoa", "FormatInt", "FormatUint":
		if c, ok := args[0].(*C); ok && (len(args) < 2 || st.key(args[1]) == "10") {
			return ret(lit(c.V.ExactString()))
		}
		if len(args) < 2 || st.key(args[1]) == "10" {
			return ret(piece(mkExpr("itoa", sT, args[0])))
		}
		return ret(piece(mkExpr("strconv."+name, sT, args...)))
	case "FormatFloat":
		if c, ok := args[0].(*C); ok {
			f, _ := constant.Float64Val(c.V)
			k, ok1 := isConstInt(args[1])
			p, ok2 := isConstInt(args[2])
			b, ok3 := isConstInt(args[3])
			if ok1 && ok2 && ok3 && (b == 32 || b == 64) {
				return ret(lit(strconv.FormatFloat(f, byte(k), p, b)))
			}
		}
		return ret(piece(mkExpr("fmtfloat", sT, args...)))
	case "FormatBool":
		if c, ok := args[0].(*C); ok {
			return ret(lit(strconv.FormatBool(constant.BoolVal(c.V))))
		}
	case "Quote":
		if s, ok := constStr(asStr(args[0])); ok {
			return ret(lit(strconv.Quote(s)))
		}
		return ret(piece(mkExpr("fmt", sT, lit("%q"), args[0])))
	case "ParseFloat":
		if s, ok := constStr(asStr(args[0])); ok {
			f, err := strconv.ParseFloat(s, 64)
			if err == nil {
				return ret(Tup{&C{constant.MakeFloat64(f), types.Typ[types.Float64]}, &Nil{types.Universe.Lookup("error").Type()}})
			}
			return ret(Tup{&C{constant.MakeFloat64(0), types.Typ[types.Float64]}, m.mkError(st, lit(err.Error()))})
		}
		return ret(Tup{mkExpr("parsefloat", types.Typ[types.Float64], args...), mkExpr("parsefloat#err", types.Universe.Lookup("error").Type(), args...)})
	}
	return []Out{{St: st, Res: m.opaqueResult(st, "strconv."+name, fn.Signature.Results(), args)}}, true
}

// sorting: opaque distinct names are ordered by identity (without loss of
// generality), everything else through the given comparison.
func (m *M) sortVals(st *State, sl Val, cmp Val, site ssa.Instruction) ([]Out, bool) {
	s, ok := st.res(sl).(*Slc)
	if !ok {
		return []Out{{St: st}}, true
	}
	n := s.Len
	type cell struct {
		st  *State
		ord []Val
	}
	e, _ := st.elems(s)
	cells := []cell{{st, nil}}
	for i := 0; i < n; i++ {
		var next []cell
		for _, c := range cells {
			// insert e[i] from the end while it is less than its neighbour
			type pos struct {
				st *State
				k  int
			}
			work := []pos{{c.st, len(c.ord)}}
			for len(work) > 0 {
				w := work[len(work)-1]
				work = work[:len(work)-1]
				if w.k == 0 {
					next = append(next, cell{w.st, insertAt(c.ord, 0, e[i])})
					continue
				}
				var ds []cond
				if cmp == nil {
					a := m.binop(w.st, token.LSS, w.st.res(e[i]), w.st.res(c.ord[w.k-1]), types.Typ[types.Bool])
					ds = m.decide(w.st, a[0].v)
				} else {
					for _, o := range m.callVal(w.st, cmp, []Val{e[i], c.ord[w.k-1]}, nil, site) {
						if o.bad() {
							return []Out{o}, true
						}
						a := m.binop(o.St, token.LSS, o.Res, cInt(0), types.Typ[types.Bool])
						ds = append(ds, m.decide(o.St, a[0].v)...)
					}
				}
				for _, d := range ds {
					if d.undec != "" {
						return []Out{{St: d.st, Undec: d.undec, Pos: "sort"}}, true
					}
					if d.b {
						work = append(work, pos{d.st, w.k - 1})
					} else {
						next = append(next, cell{d.st, insertAt(c.ord, w.k, e[i])})
					}
				}
			}
		}
		cells = next
	}
	var outs []Out
	for _, c := range cells {
		for i, v := range c.ord {
			c.st.store(&Ptr{Obj: s.Obj, Path: subPath(s.Path, s.Lo+i)}, v)
		}
		outs = append(outs, Out{St: c.st})
	}
	return outs, true
}

func insertAt(l []Val, k int, v Val) []Val {
	r := append([]Val{}, l[:k]...)
	r = append(r, v)
	return append(r, l[k:]...)
}

// sortIdx is sort.Slice: the comparison takes indices, so the elements are
// swapped in place as an insertion sort does.
func (m *M) sortIdx(st *State, sl Val, less Val, site ssa.Instruction) ([]Out, bool) {
	s, ok := st.res(sl).(*Slc)
	if !ok {
		return []Out{{St: st}}, true
	}
	type cell struct {
		st   *State
		i, j int
	}
	work := []cell{{st, 1, 1}}
	var outs []Out
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if c.i >= s.Len {
			outs = append(outs, Out{St: c.st})
			continue
		}
		if c.j == 0 {
			work = append(work, cell{c.st, c.i + 1, c.i + 1})
			continue
		}
		for _, o := range m.callVal(c.st, less, []Val{cInt(c.j), cInt(c.j - 1)}, nil, site) {
			if o.bad() {
				return []Out{o}, true
			}
			for _, d := range m.decide(o.St, o.Res) {
				if d.undec != "" {
					return []Out{{St: d.st, Undec: d.undec, Pos: "sort"}}, true
				}
				if d.b {
					a, b := d.st.elem(s, c.j), d.st.elem(s, c.j-1)
					d.st.store(&Ptr{Obj: s.Obj, Path: subPath(s.Path, s.Lo+c.j)}, b)
					d.st.store(&Ptr{Obj: s.Obj, Path: subPath(s.Path, s.Lo+c.j-1)}, a)
					work = append(work, cell{d.st, c.i, c.j - 1})
				} else {
					work = append(work, cell{d.st, c.i + 1, c.i + 1})
				}
			}
		}
	}
	return outs, true
}

func foldUnicode(name string, r rune) (Val, bool) {
	switch name {
	case "IsLetter":
		return cBool(unicode.IsLetter(r)), true
	case "IsDigit":
		return cBool(unicode.IsDigit(r)), true
	case "IsNumber":
		return cBool(unicode.IsNumber(r)), true
	case "IsSpace":
		return cBool(unicode.IsSpace(r)), true
	case "IsUpper":
		return cBool(unicode.IsUpper(r)), true
	case "IsLower":
		return cBool(unicode.IsLower(r)), true
	case "IsPunct":
		return cBool(unicode.IsPunct(r)), true
	case "IsControl":
		return cBool(unicode.IsControl(r)), true
	case "ToLower":
		return &C{constant.MakeInt64(int64(unicode.ToLower(r))), types.Typ[types.Rune]}, true
	case "ToUpper":
		return &C{constant.MakeInt64(int64(unicode.ToUpper(r))), types.Typ[types.Rune]}, true
	}
	return nil, false
}

var uniSets = map[string]rset{}

// unicodeSet is the set of characters a unicode predicate accepts.
func unicodeSet(name string) (rset, bool) {
	if s, ok := uniSets[name]; ok {
		return s, true
	}
	var f func(rune) bool
	switch name {
	case "IsLetter":
		f = unicode.IsLetter
	case "IsDigit":
		f = unicode.IsDigit
	case "IsNumber":
		f = unicode.IsNumber
	case "IsSpace":
		f = unicode.IsSpace
	case "IsUpper":
		f = unicode.IsUpper
	case "IsLower":
		f = unicode.IsLower
	case "IsPunct":
		f = unicode.IsPunct
	case "IsControl":
		f = unicode.IsControl
	default:
		return nil, false
	}
	var s rset
	start := int64(-1)
	for r := int64(0); r <= unicode.MaxRune+1; r++ {
		in := r <= unicode.MaxRune && f(rune(r))
		if in && start < 0 {
			start = r
		}
		if !in && start >= 0 {
			s = append(s, rng{start, r - 1})
			start = -1
		}
	}
	uniSets[name] = s
	return s, true
}

// foldStrings folds pure functions of package strings on known texts.
func foldStrings(name string, args []Val, st *State) (Val, bool) {
	var ss []string
	var ns []int
	for _, a := range args {
		if s, ok := strOf(a); ok {
			c, ok := constStr(s)
			if !ok {
				return nil, false
			}
			ss = append(ss, c)
			continue
		}
		n, ok := isConstInt(a)
		if !ok {
			return nil, false
		}
		ns = append(ns, n)
	}
	b := func(x bool) (Val, bool) { return cBool(x), true }
	s := func(x string) (Val, bool) { return lit(x), true }
	i := func(x int) (Val, bool) { return cInt(x), true }
	l := func(x []string) (Val, bool) {
		var e []Val
		for _, y := range x {
			e = append(e, lit(y))
		}
		return st.mkSlice(types.NewSlice(types.Typ[types.String]), e), true
	}
	switch {
	case len(ss) == 1 && len(ns) == 0:
		switch name {
		case "ToLower":
			return s(strings.ToLower(ss[0]))
		case "ToUpper":
			return s(strings.ToUpper(ss[0]))
		case "TrimSpace":
			return s(strings.TrimSpace(ss[0]))
		case "Title":
			return s(strings.Title(ss[0]))
		case "Fields":
			return l(strings.Fields(ss[0]))
		case "Clone":
			return s(ss[0])
		}
	case len(ss) == 2 && len(ns) == 0:
		x, y := ss[0], ss[1]
		switch name {
		case "Contains":
			return b(strings.Contains(x, y))
		case "ContainsAny":
			return b(strings.ContainsAny(x, y))
		case "HasPrefix":
			return b(strings.HasPrefix(x, y))
		case "HasSuffix":
			return b(strings.HasSuffix(x, y))
		case "EqualFold":
			return b(strings.EqualFold(x, y))
		case "Index":
			return i(strings.Index(x, y))
		case "LastIndex":
			return i(strings.LastIndex(x, y))
		case "IndexAny":
			return i(strings.IndexAny(x, y))
		case "Count":
			return i(strings.Count(x, y))
		case "Compare":
			return i(strings.Compare(x, y))
		case "TrimPrefix":
			return s(strings.TrimPrefix(x, y))
		case "TrimSuffix":
			return s(strings.TrimSuffix(x, y))
		case "Trim":
			return s(strings.Trim(x, y))
		case "TrimLeft":
			return s(strings.TrimLeft(x, y))
		case "TrimRight":
			return s(strings.TrimRight(x, y))
		case "Split":
			return l(strings.Split(x, y))
		case "Cut":
			p, q, r := strings.Cut(x, y)
			return Tup{lit(p), lit(q), cBool(r)}, true
		}
	case len(ss) == 1 && len(ns) == 1:
		switch name {
		case "IndexByte":
			return i(strings.IndexByte(ss[0], byte(ns[0])))
		case "IndexRune":
			return i(strings.IndexRune(ss[0], rune(ns[0])))
		case "ContainsRune":
			return b(strings.ContainsRune(ss[0], rune(ns[0])))
		case "LastIndexByte":
			return i(strings.LastIndexByte(ss[0], byte(ns[0])))
		}
	case len(ss) == 3 && len(ns) == 0 && name == "ReplaceAll":
		return s(strings.ReplaceAll(ss[0], ss[1], ss[2]))
	case len(ss) == 3 && len(ns) == 1 && name == "Replace":
		return s(strings.Replace(ss[0], ss[1], ss[2], ns[0]))
	}
	return nil, false
}

// solid: the piece certainly starts and ends with a character that no trimming
// of blanks or separators removes.
func solid(p Piece) bool {
	switch x := p.V.(type) {
	case *Leaf:
		return x.Class == "name" || x.Class == "number" || x.Class == "directive"
	case *Expr:
		return x.Op == "fmtfloat" || x.Op == "itoa" || x.Op == "timefmt"
	}
	return false
}

// solidAt: the piece certainly does not start or end with r; solidFor: with none
// of the characters of cut.
func solidAt(p Piece, r rune) bool {
	return solid(p) && !isLetterRune(r) && r != '_' && (r < '0' || r > '9') && !strings.ContainsRune("&~+-.", r)
}

func solidFor(p Piece, cut string) bool {
	for _, r := range cut {
		if !solidAt(p, r) {
			return false
		}
	}
	return true
}

func blank(p Piece) bool {
	e, ok := p.V.(*Expr)
	if !ok || e.Op != "repeat" {
		return false
	}
	s, ok := constStr(asStr(e.A[0]))
	return ok && strings.TrimSpace(s) == ""
}

// partialStrings handles common text functions on partly known texts.
func (m *M) partialStrings(st *State, name string, args []Val) (Val, bool) {
	s, ok := strOf(args[0])
	if !ok {
		return nil, false
	}
	s = st.resStr(s)
	arg := ""
	if len(args) > 1 {
		if a, ok := strOf(args[1]); ok {
			if arg, ok = constStr(a); !ok {
				return nil, false
			}
		} else if n, ok := isConstInt(args[1]); ok {
			arg = string(rune(n))
		}
	}
	if len(s.P) == 0 {
		return nil, false
	}
	first, last := s.P[0], s.P[len(s.P)-1]
	cut := ""
	left, right := false, false
	switch name {
	case "TrimSpace":
		cut, left, right = " \t\n\r\v\f", true, true
	case "Trim":
		cut, left, right = arg, true, true
	case "TrimLeft":
		cut, left = arg, true
	case "TrimRight":
		cut, right = arg, true
	case "HasPrefix":
		if first.V == nil {
			if strings.HasPrefix(first.Lit, arg) {
				return cBool(true), true
			}
			if !strings.HasPrefix(arg, first.Lit) {
				return cBool(false), true
			}
		}
		if l, ok := first.V.(*Leaf); ok && arg != "" && (l.Class == "name" || l.Class == "number") {
			r := []rune(arg)[0]
			if l.Class == "name" && !isLetterRune(r) && r != '_' {
				return cBool(false), true
			}
			if l.Class == "number" && (r < '0' || r > '9') {
				return cBool(false), true
			}
		}
		return nil, false
	case "HasSuffix":
		if last.V == nil {
			if strings.HasSuffix(last.Lit, arg) {
				return cBool(true), true
			}
			if !strings.HasSuffix(arg, last.Lit) {
				return cBool(false), true
			}
		}
		if l, ok := last.V.(*Leaf); ok && arg != "" && (l.Class == "name" || l.Class == "number") {
			rs := []rune(arg)
			r := rs[len(rs)-1]
			if !isLetterRune(r) && r != '_' && (r < '0' || r > '9') {
				return cBool(false), true
			}
		}
		return nil, false
	case "TrimSuffix":
		if arg == "" {
			return s, true
		}
		if last.V == nil {
			if strings.HasSuffix(last.Lit, arg) {
				return trimPieces(s, "", len(last.Lit)-len(arg)), true
			}
			if !strings.HasSuffix(arg, last.Lit) {
				return s, true
			}
		}
		if rs := []rune(arg); !solidAt(last, rs[len(rs)-1]) {
			return nil, false
		}
		return s, true
	case "TrimPrefix":
		if arg == "" {
			return s, true
		}
		if first.V == nil && strings.HasPrefix(first.Lit, arg) {
			r := &Str{T: s.T}
			return concat(concat(r, lit(first.Lit[len(arg):])), &Str{P: s.P[1:], T: s.T}), true
		}
		if first.V == nil && !strings.HasPrefix(arg, first.Lit) || first.V != nil && solidAt(first, []rune(arg)[0]) {
			return s, true
		}
		return nil, false
	case "ReplaceAll", "Replace":
		a, ok := strOf(args[2])
		if !ok {
			return nil, false
		}
		to, ok := constStr(a)
		if !ok || arg == "" {
			return nil, false
		}
		if name == "Replace" {
			if n, ok := isConstInt(args[3]); !ok || n >= 0 {
				return nil, false
			}
		}
		r := lit("")
		for _, p := range s.P {
			if p.V == nil {
				r = concat(r, lit(strings.ReplaceAll(p.Lit, arg, to)))
				continue
			}
			if l, ok := p.V.(*Leaf); ok && !classAllowsSub(l, arg) {
				r = concat(r, &Str{P: []Piece{p}, T: s.T})
				continue
			}
			r = concat(r, &Str{P: []Piece{{V: mkExpr("replace", s.T, p.V, lit(arg), lit(to))}}, T: s.T})
		}
		return r, true
	case "Contains", "ContainsRune", "ContainsAny", "IndexByte", "Index", "IndexRune":
		any := false
		for _, p := range s.P {
			if p.V == nil {
				if name == "ContainsAny" && strings.ContainsAny(p.Lit, arg) || name != "ContainsAny" && strings.Contains(p.Lit, arg) {
					any = true
				}
			}
		}
		if any && strings.HasPrefix(name, "Contains") {
			return cBool(true), true
		}
		return nil, false
	case "ToLower", "ToUpper":
		r := lit("")
		for _, p := range s.P {
			if p.V == nil {
				if name == "ToLower" {
					r = concat(r, lit(strings.ToLower(p.Lit)))
				} else {
					r = concat(r, lit(strings.ToUpper(p.Lit)))
				}
				continue
			}
			r = concat(r, &Str{P: []Piece{{V: mkExpr("strings."+name, s.T, p.V)}}, T: s.T})
		}
		return r, true
	default:
		return nil, false
	}
	ps := append([]Piece{}, s.P...)
	if left {
		for len(ps) > 0 {
			if ps[0].V == nil {
				t := strings.TrimLeft(ps[0].Lit, cut)
				if t != "" {
					ps[0] = Piece{Lit: t}
					break
				}
				ps = ps[1:]
				continue
			}
			if blank(ps[0]) && strings.Contains(cut, " ") {
				ps = ps[1:]
				continue
			}
			if !solidFor(ps[0], cut) {
				return nil, false
			}
			break
		}
	}
	if right {
		for len(ps) > 0 {
			k := len(ps) - 1
			if ps[k].V == nil {
				t := strings.TrimRight(ps[k].Lit, cut)
				if t != "" {
					ps[k] = Piece{Lit: t}
					break
				}
				ps = ps[:k]
				continue
			}
			if blank(ps[k]) && strings.Contains(cut, " ") {
				ps = ps[:k]
				continue
			}
			if !solidFor(ps[k], cut) {
				return nil, false
			}
			break
		}
	}
	return &Str{P: ps, T: s.T}, true
}

func trimPieces(s *Str, _ string, keep int) *Str {
	ps := append([]Piece{}, s.P...)
	k := len(ps) - 1
	if keep == 0 {
		return &Str{P: ps[:k], T: s.T}
	}
	ps[k] = Piece{Lit: ps[k].Lit[:keep]}
	return &Str{P: ps, T: s.T}
}

func classAllowsSub(l *Leaf, sub string) bool {
	if l.Class == "name" {
		for _, r := range sub {
			if !(r == '_' || isLetterRune(r) || r >= '0' && r <= '9') {
				return false
			}
		}
	}
	return true
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
