package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The language specification the checks compare the code against: keywords,
// operators and the surface syntax of every construct.

// keywords of the language (lower case) as users write them.
var langKeywords = []string{"процедура", "перем", "перейти", "конецпроцедуры", "знач", "если", "тогда", "иначеесли", "иначе", "конецесли",
	"для", "каждого", "из", "по", "цикл", "конеццикла", "прервать", "продолжить", "попытка", "новый", "исключение", "пока", "конецпопытки",
	"функция", "конецфункции", "возврат", "вызватьисключение", "и", "или", "истина", "ложь", "неопределено", "не", "экспорт", "выполнить"}

var langDirectives = []string{"&наклиенте", "&насервере", "&насерверебезконтекста", "&наклиентенасерверебезконтекста", "&наклиентенасервере"}

func init() {
	keywordSet = map[string]bool{}
	for _, k := range langKeywords {
		keywordSet[k] = true
	}
}

// Tok is one token of an abstract sentence: its spelling decides the token
// number (through the real tokeniser's code), names and literals stay opaque.
type Tok struct {
	Surf  string // sample spelling
	ID    string // identity of the opaque name or literal ("" for fixed tokens)
	Class string // name, number, string, date, directive, label
	Gap   string // white space before the token (printed texts)
}

// sent splits a sentence: words N1,N2.. are names, #1 numbers, "s1" strings,
// '1' dates, @1 directives, ~L labels, the rest is literal.
func sent(s string) []Tok {
	var out []Tok
	for _, w := range strings.Fields(s) {
		out = append(out, tok1(w))
	}
	return out
}

func isNameWord(w string) bool {
	if len(w) < 2 || w[0] < 'a' || w[0] > 'z' {
		return false
	}
	for i := 1; i < len(w); i++ {
		if w[i] < '0' || w[i] > '9' {
			return false
		}
	}
	return true
}

func tok1(w string) Tok {
	switch {
	case isNameWord(w):
		return Tok{Surf: "Имя", ID: w, Class: "name"}
	case w[0] == '#':
		return Tok{Surf: "7", ID: w, Class: "number"}
	case w[0] == '"':
		return Tok{Surf: `"т"`, ID: strings.Trim(w, `"`), Class: "string"}
	case w[0] == '\'':
		return Tok{Surf: "'20200102'", ID: "d" + strings.Trim(w, `'`), Class: "date"}
	case w[0] == '@':
		return Tok{Surf: "&НаКлиенте", ID: w, Class: "directive"}
	case w[0] == '~':
		return Tok{Surf: "~Имя", ID: w[1:], Class: "label"}
	}
	return Tok{Surf: w}
}

// AbsParser evaluates the parser on sentences of opaque tokens.
type AbsParser struct {
	p         *Prog
	m         *M
	node      *types.Named // AstNode
	lexFn     *ssa.Function
	parse     *ssa.Function
	symT      types.Type
	cache     map[string]*lexed
	undec     string
	stale     bool
	toks      []Tok
	pos       int
	evals     int
	lexing    bool
	ops       map[string]string
	staleMode bool
	total     int
	touched   map[int]bool // fields of the node the tokeniser uses
	named     bool         // the module is given a name before it is parsed
}

type lexed struct {
	code int
	lval Val
	node *Rec // AstNode after reading the token
	st   *State

	changed []bool   // fields of the node the tokeniser wrote
	pre     []string // the node's fields before
}

func newAbsParser(p *Prog) (*AbsParser, error) {
	a := &AbsParser{p: p, cache: map[string]*lexed{}, ops: opNames(p)}
	a.node = p.named("AstNode")
	if a.node == nil {
		return nil, errf("type AstNode not found")
	}
	a.lexFn = p.method("AstNode", "Lex")
	a.parse = p.method("AstNode", "Parse")
	if a.lexFn == nil || a.parse == nil {
		return nil, errf("methods Parse and Lex of AstNode not found")
	}
	sy := p.named("yySymType")
	if sy == nil {
		return nil, errf("parser value type yySymType not found")
	}
	a.symT = sy
	a.m = newM(p)
	if err := a.m.initGlobals(); err != nil {
		return nil, err
	}
	a.m.hook = a.hook
	a.touched = a.lexTouches()
	return a, nil
}

func fieldIdx(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// newNode makes an AstNode through the public constructor.
func (a *AbsParser) newNode(st *State, code string) (*Ptr, error) {
	ctor := a.p.fn("NewAST")
	if ctor == nil {
		return nil, errf("constructor NewAST not found")
	}
	o := a.m.call(st, ctor, []Val{lit(code)}, nil, nil)
	if len(o) != 1 || o[0].bad() {
		return nil, errf("NewAST cannot be evaluated: %v", outMsg(o))
	}
	ptr, ok := st.res(o[0].Res).(*Ptr)
	if !ok {
		return nil, errf("NewAST does not return a new node")
	}
	return ptr, nil
}

func outMsg(o []Out) string {
	if len(o) == 0 {
		return "no outcome"
	}
	var b []string
	for _, x := range o {
		if x.Panic != "" {
			b = append(b, "panic "+x.Panic+" at "+x.Pos)
		} else if x.Undec != "" {
			b = append(b, x.Undec+" at "+x.Pos)
		} else {
			b = append(b, "ok")
		}
	}
	if len(b) > 3 {
		b = append(b[:3], "...")
	}
	return strings.Join(b, " | ")
}

// lexeme evaluates the tokeniser on one spelling.
func (a *AbsParser) lexeme(surf string) (*lexed, error) {
	if l, ok := a.cache[surf]; ok {
		return l, nil
	}
	st := a.m.base.clone()
	a.lexing = true
	stale := a.stale
	a.stale = false
	defer func() { a.lexing = false; a.stale = stale }()
	node, err := a.newNode(st, surf)
	if err != nil {
		return nil, err
	}
	id := st.alloc(st.zero(a.symT))
	lv := &Ptr{Obj: id, T: types.NewPointer(a.symT)}
	bv, _ := st.load(node)
	before, _ := st.expand(bv).(*Rec)
	var pre []string
	for _, f := range before.F {
		pre = append(pre, st.ident(f))
	}
	o := a.m.call(st, a.lexFn, []Val{node, lv}, nil, nil)
	if len(o) != 1 || o[0].bad() {
		return nil, errf("the tokeniser cannot be evaluated on %q: %s", surf, outMsg(o))
	}
	code, ok := isConstInt(o[0].St.res(o[0].Res))
	if !ok {
		return nil, errf("the tokeniser gives no definite token for %q", surf)
	}
	v, _ := o[0].St.load(lv)
	nv, _ := o[0].St.load(node)
	rec, _ := o[0].St.expand(nv).(*Rec)
	l := &lexed{code: code, lval: v, node: rec, st: o[0].St, pre: pre}
	for i, f := range rec.F {
		l.changed = append(l.changed, o[0].St.ident(f) != pre[i])
	}
	a.cache[surf] = l
	return l, nil
}

// tokenNo is the parser's token index for a spelling.
func (a *AbsParser) tokenNo(t *LALR, surf string) (int, error) {
	l, err := a.lexeme(surf)
	if err != nil {
		return 0, err
	}
	if l.code < 0 {
		return 0, errf("the tokeniser rejects %q", surf)
	}
	return t.tokIndex(l.code), nil
}

// abstractTok replaces the sample spelling and its value by opaque leaves.
func (a *AbsParser) abstractTok(st *State, src *State, v Val, t Tok, idx int) Val {
	v = src.res(v)
	litText := t.Surf
	switch x := v.(type) {
	case *Rec:
		r := &Rec{T: x.T}
		stt := x.T.Underlying().(*types.Struct)
		for i, f := range x.F {
			nv := a.abstractTok(st, src, f, t, idx)
			if n := stt.Field(i).Name(); isBool(stt.Field(i).Type()) && n != "" {
				nv = src.res(f)
			}
			r.F = append(r.F, nv)
		}
		return r
	case *Str:
		s, ok := constStr(x)
		if !ok || s == "" {
			return x
		}
		switch t.Class {
		case "name":
			if s == litText {
				return asStr(nameLeaf(t.ID))
			}
		case "directive":
			if s == litText {
				return asStr(&Leaf{ID: t.ID, T: types.Typ[types.String], Class: "directive", NonEmpty: true, Distinct: true})
			}
		case "label":
			if s == "Имя" {
				return asStr(nameLeaf(t.ID))
			}
		case "string":
			if s == "т" {
				return asStr(&Leaf{ID: t.ID, T: types.Typ[types.String], Class: "string", Distinct: false})
			}
		case "number":
			if s == litText {
				return asStr(&Leaf{ID: t.ID + ".text", T: types.Typ[types.String], Class: "number", NonEmpty: true})
			}
		case "date":
			if strings.Contains(s, "20200102") {
				return asStr(&Leaf{ID: t.ID + ".text", T: types.Typ[types.String], Class: "datetext", NonEmpty: true})
			}
		}
		return x
	case *Ifc:
		{
			switch t.Class {
			case "number":
				if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
					return &Ifc{T: x.T, V: &Leaf{ID: t.ID, T: x.T, Class: "number"}}
				}
			case "string":
				if isString(x.T) {
					return &Ifc{T: x.T, V: a.abstractTok(st, src, x.V, t, idx)}
				}
			case "date":
				if pt, ok := x.T.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), a.node) {
					break // the token's way to the source
				}
				return &Ifc{T: x.T, V: &Leaf{ID: t.ID, T: x.T, Class: "date"}}
			}
		}
		if _, isPtr := src.res(x.V).(*Ptr); isPtr {
			return &Leaf{ID: "$source", T: types.NewInterfaceType(nil, nil), NonNil: true}
		}
		return x
	case *Nil:
		if isIface(x.T) {
			// a token without a value keeps the value of an earlier token
			if t.Class == "" || t.Class == "name" {
				if it, ok := x.T.Underlying().(*types.Interface); ok && it.NumMethods() == 0 && a.stale {
					return &Leaf{ID: fmt.Sprintf("$stale.value%d", idx), T: x.T}
				}
			}
		}
		return x
	case *Ptr:
		return &Leaf{ID: "$source", T: x.T, NonNil: true}
	}
	return v
}

func nameLeaf(id string) *Leaf {
	return &Leaf{ID: id, T: types.Typ[types.String], Class: "name", NonEmpty: true, Distinct: true}
}

func (a *AbsParser) hook(m *M, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Out, bool) {
	if fn != a.lexFn || a.lexing {
		return nil, false
	}
	// the position in the sentence is part of the state
	pos, _ := isConstInt(st.bind["$pos"])
	end := pos >= len(a.toks)
	var t Tok
	if !end {
		t = a.toks[pos]
	} else {
		t = Tok{Surf: " "}
	}
	l, err := a.lexeme(t.Surf)
	if err != nil {
		return []Out{{St: st, Undec: err.Error(), Pos: a.lexFn.String()}}, true
	}
	if nd, ok := st.res(args[0]).(*Ptr); ok && len(a.touched) > 0 {
		cur, _ := st.load(nd)
		if r, ok := st.expand(cur).(*Rec); ok {
			for f := range a.touched {
				if st.ident(r.F[f]) != l.pre[f] {
					return a.lexHere(st, nd, r, args[1], t, pos, end), true
				}
			}
		}
	}
	st.bind["$pos"] = cInt(pos + 1)
	if lv, ok := st.res(args[1]).(*Ptr); ok && !end {
		st.store(lv, a.abstractTok(st, l.st, l.lval, t, pos))
	}
	if nd, ok := st.res(args[0]).(*Ptr); ok && l.node != nil && !end {
		// fields of the parse that the tokeniser writes (token copies)
		cur, _ := st.load(nd)
		if r, ok := st.expand(cur).(*Rec); ok {
			nr := &Rec{T: r.T, F: append([]Val{}, r.F...)}
			stt := r.T.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				ft := stt.Field(i).Type()
				if types.Identical(ft, types.Universe.Lookup("error").Type()) {
					// an error the tokeniser recorded
					if _, isNil := l.st.res(l.node.F[i]).(*Nil); !isNil {
						nr.F[i] = &Leaf{ID: fmt.Sprintf("$lexerror%d", pos), T: ft, NonNil: true}
					}
					continue
				}
				if types.Identical(ft, tokenFieldType(a.symT)) && l.changed[i] {
					nr.F[i] = a.abstractTok(st, l.st, l.node.F[i], t, pos)
				}
			}
			st.store(nd, nr)
		}
	}
	return []Out{{St: st, Res: cInt(l.code)}}, true
}

// lexHere runs the tokeniser in the state the parser has reached, where that
// differs from a fresh parser's in a field the tokeniser's code uses.
func (a *AbsParser) lexHere(st *State, nd *Ptr, cur *Rec, lvArg Val, t Tok, pos int, end bool) (outs []Out) {
	stale := a.stale
	a.lexing, a.stale = true, false
	defer func() { a.lexing, a.stale = false, stale }()
	und := func(f string, x ...any) []Out {
		return []Out{{St: st, Undec: fmt.Sprintf(f, x...), Pos: a.lexFn.String()}}
	}
	st = st.clone()
	st.bind["$pos"] = cInt(pos + 1)
	node, err := a.newNode(st, t.Surf)
	if err != nil {
		return und("%v", err)
	}
	nv, _ := st.load(node)
	r0, ok := st.expand(nv).(*Rec)
	lv, ok2 := st.res(lvArg).(*Ptr)
	if !ok || !ok2 {
		return und("the tokeniser's arguments")
	}
	nr := &Rec{T: r0.T, F: append([]Val{}, r0.F...)}
	var pre []string
	for i := range nr.F {
		if a.touched[i] {
			nr.F[i] = cur.F[i]
		}
		pre = append(pre, st.ident(nr.F[i]))
	}
	st.store(node, nr)
	tmp := &Ptr{Obj: st.alloc(st.zero(a.symT)), T: types.NewPointer(a.symT)}
	for _, o := range a.m.call(st, a.lexFn, []Val{node, tmp}, nil, nil) {
		if o.bad() {
			outs = append(outs, o)
			continue
		}
		code, ok := isConstInt(o.St.res(o.Res))
		if !ok {
			return und("the tokeniser gives no definite token for %q", t.Surf)
		}
		if !end {
			v, _ := o.St.load(tmp)
			o.St.store(lv, a.abstractTok(o.St, o.St, v, t, pos))
		}
		after, _ := o.St.load(node)
		ar, _ := o.St.expand(after).(*Rec)
		back := &Rec{T: cur.T, F: append([]Val{}, cur.F...)}
		stt := cur.T.Underlying().(*types.Struct)
		for i := range back.F {
			if o.St.ident(ar.F[i]) == pre[i] {
				continue
			}
			if types.Identical(stt.Field(i).Type(), tokenFieldType(a.symT)) {
				if !end {
					back.F[i] = a.abstractTok(o.St, o.St, ar.F[i], t, pos)
				}
			} else if a.touched[i] {
				back.F[i] = ar.F[i]
			}
		}
		o.St.store(nd, back)
		outs = append(outs, Out{St: o.St, Res: cInt(code)})
	}
	return outs
}

// lexTouches are the fields of the parser, other than its text and its tokens,
// that code reachable from the tokeniser reads or writes.
func (a *AbsParser) lexTouches() map[int]bool {
	p := a.p
	p.lexOnce.Do(func() {
		p.lexFields = map[int]bool{}
		stt, ok := a.node.Underlying().(*types.Struct)
		if !ok {
			return
		}
		add := func(i int) {
			ft := stt.Field(i).Type()
			if !isString(ft) && !types.Identical(ft, tokenFieldType(a.symT)) {
				p.lexFields[i] = true
			}
		}
		isNode := func(t types.Type) bool {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			return types.Identical(t, a.node)
		}
		for _, f := range newEffects(p, []*ssa.Function{a.lexFn}).order {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case *ssa.FieldAddr:
						if isNode(x.X.Type()) {
							add(x.Field)
						}
					case *ssa.Field:
						if isNode(x.X.Type()) {
							add(x.Field)
						}
					case *ssa.UnOp:
						if x.Op == token.MUL && types.Identical(x.Type(), a.node) {
							for j := 0; j < stt.NumFields(); j++ {
								add(j)
							}
						}
					case *ssa.Store:
						if types.Identical(x.Val.Type(), a.node) {
							for j := 0; j < stt.NumFields(); j++ {
								add(j)
							}
						}
					}
				}
			}
		}
	})
	return p.lexFields
}

// tokenFieldType is the type of the token part of the parser's value union.
func tokenFieldType(sym types.Type) types.Type {
	s := sym.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "Token" {
			return n
		}
	}
	return nil
}

// ParseRes is one partition of a parse.
type ParseRes struct {
	St   *State
	Node *Ptr
	Err  Val // result of Parse
	Out  Out
}

func (r *ParseRes) failed() (bool, bool) { // rejected, known
	switch x := r.St.res(r.Err).(type) {
	case *Nil:
		return false, true
	case *Ifc:
		return true, true
	case *Leaf:
		if x.NonNil {
			return true, true
		}
	}
	return false, false
}

// run parses a sentence; stale fills unused parser stack slots with marks.
func (a *AbsParser) run(toks []Tok, stale bool) []ParseRes {
	a.evals++
	a.toks = toks
	a.stale = stale
	defer func() { a.stale = false }()
	st := a.m.base.clone()
	st.bind["$pos"] = cInt(0)
	if stale {
		st.staleT = a.symT
	}
	a.m.steps = 0
	a.m.maxDepth = 1500 + 15*len(toks)
	node, err := a.newNode(st, strings.Repeat("х", 400))
	if err != nil {
		return []ParseRes{{St: st, Out: Out{St: st, Undec: err.Error()}}}
	}
	if a.named {
		mod, err := a.moduleOf(&ParseRes{Node: node})
		if err != nil {
			return []ParseRes{{St: st, Out: Out{St: st, Undec: err.Error()}}}
		}
		n, _ := types.Unalias(mod.T.(*types.Pointer).Elem()).(*types.Named)
		if n != nil {
			if i := fieldIdx(n, "Name"); i >= 0 {
				st.store(&Ptr{Obj: mod.Obj, Path: subPath(mod.Path, i), T: types.NewPointer(types.Typ[types.String])}, asStr(nameLeaf("zzmod")))
			}
		}
	}
	var rs []ParseRes
	for _, o := range a.m.call(st, a.parse, []Val{node}, nil, nil) {
		rs = append(rs, ParseRes{St: o.St, Node: node, Err: o.Res, Out: o})
	}
	a.total += a.m.steps
	return rs
}

// staleSym fills a parser value with marks of another construct.
func staleSym(st *State, t types.Type) Val {
	r := &Rec{T: t}
	u := t.Underlying().(*types.Struct)
	id := st.alloc(nil)
	for i := 0; i < u.NumFields(); i++ {
		if isInt(u.Field(i).Type()) {
			r.F = append(r.F, &C{constant.MakeInt64(0), u.Field(i).Type()})
			continue
		}
		r.F = append(r.F, &Leaf{ID: fmt.Sprintf("$stale%d.%s", id, u.Field(i).Name()), T: u.Field(i).Type(), NonNil: true})
	}
	return r
}
