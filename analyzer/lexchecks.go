package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The tokeniser properties L01, L02, L03, L05 and L06: the tokeniser's code is
// interpreted on opaque texts (every character a set of values) and compared,
// token by token, with the reference reading.

// lexForm is a family of texts.
type lexForm struct {
	name  string
	parts []lexPart
	tail  int    // how many further characters may follow
	alpha []rset // which characters the tail is made of (nil: all, and invalid bytes)
	only  int    // stop after this many tokens (0: read to the end)

	parse  bool // parse the whole text; only panics are looked for
	errors bool // report an error after each token
	place  bool // compare the place that error names
}

type lexPart struct {
	lit string
	set rset
	raw bool
}

func fLit(s string) lexPart { return lexPart{lit: s} }
func fSet(s rset) lexPart   { return lexPart{set: s} }
func fRaw(s rset) lexPart   { return lexPart{set: s, raw: true} }
func runes(s string) (r rset) {
	for _, c := range s {
		r = r.add(int64(c))
	}
	return r
}

// widths makes every character of the form one of a fixed number of bytes.
func (f lexForm) widths() []lexForm {
	out := []lexForm{f}
	for i, p := range f.parts {
		if p.raw || p.set == nil {
			continue
		}
		var next []lexForm
		for _, w := range byWidth(p.set) {
			for _, g := range out {
				g.parts = append([]lexPart{}, g.parts...)
				g.parts[i].set = w
				next = append(next, g)
			}
		}
		out = next
	}
	return out
}

// lexRun evaluates the tokeniser on texts; one per goroutine.
type lexRun struct {
	c     *Ctx
	p     *Prog
	m     *M
	lexFn *ssa.Function
	errFn *ssa.Function

	parseFn *ssa.Function
	symT    types.Type
	node    types.Type
	codes   map[string]int
	tokF    int
	litF    int
	valF    int
	errF    int
}

// lexMiss is one difference from the reference.
type lexMiss struct {
	kind  string // panic, loop, cut, undecided, accept, reject, skip, word, kind, text
	token rtok
	key   string
	what  string
	where string
}

func newLexRun(c *Ctx, codes map[string]int) (*lexRun, error) {
	r := &lexRun{c: c, p: c.P, codes: codes}
	r.lexFn = c.P.method("AstNode", "Lex")
	r.parseFn = c.P.method("AstNode", "Parse")
	r.errFn = c.P.method("AstNode", "Error")
	nd, sy := c.P.named("AstNode"), c.P.named("yySymType")
	if r.lexFn == nil || r.errFn == nil || r.parseFn == nil || nd == nil || sy == nil {
		return nil, errf("the tokeniser's entry point was not found")
	}
	r.node, r.symT = nd, sy
	r.tokF, r.errF, r.litF, r.valF = -1, -1, -1, -1
	tk := c.P.named("Token")
	if tk == nil {
		return nil, errf("type Token not found")
	}
	ss := sy.Underlying().(*types.Struct)
	for i := 0; i < ss.NumFields(); i++ {
		if types.Identical(ss.Field(i).Type(), tk) && (r.tokF < 0 || ss.Field(i).Name() == "token") {
			r.tokF = i
		}
	}
	ts := tk.Underlying().(*types.Struct)
	for i := 0; i < ts.NumFields(); i++ {
		f := ts.Field(i)
		if isString(f.Type()) && (r.litF < 0 || f.Name() == "literal") {
			r.litF = i
		}
		if it, ok := f.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 && (r.valF < 0 || f.Name() == "value") {
			r.valF = i
		}
	}
	ns := nd.Underlying().(*types.Struct)
	for i := 0; i < ns.NumFields(); i++ {
		if types.Identical(ns.Field(i).Type(), types.Universe.Lookup("error").Type()) && r.errF < 0 {
			r.errF = i
		}
	}
	if r.tokF < 0 || r.litF < 0 || r.valF < 0 || r.errF < 0 {
		return nil, errf("the token's text and value or the parser's error were not found")
	}
	r.m = newM(c.P)
	if err := r.m.initGlobals(); err != nil {
		return nil, err
	}
	return r, nil
}

func lexCodes(c *Ctx) (map[string]int, error) {
	a, err := newAbsParser(c.P)
	if err != nil {
		return nil, err
	}
	codes := map[string]int{}
	add := func(kind, surf string) error {
		l, err := a.lexeme(surf)
		if err != nil {
			return err
		}
		codes[kind] = l.code
		return nil
	}
	for _, k := range langKeywords {
		if err := add("kw:"+k, k); err != nil {
			return nil, err
		}
	}
	for _, op := range []string{"=", ".", ";", "(", ")", ",", "-", "+", "*", "/", "?", "[", "]", ":", "%", "<", ">", "<>", "<=", ">="} {
		if err := add("op:"+op, op); err != nil {
			return nil, err
		}
	}
	for k, s := range map[string]string{"name": "Имя", "num": "7", "str": `"т"`, "date": "'20200102'", "dir": "&НаКлиенте", "label": "~Имя", "eof": " "} {
		if err := add(k, s); err != nil {
			return nil, err
		}
	}
	return codes, nil
}

func (r *lexRun) text(st *State, f lexForm) *Str {
	t := r.m.text
	s := &Str{T: types.Typ[types.String]}
	for i, p := range f.parts {
		switch {
		case p.raw:
			s = concat(s, &Str{P: []Piece{t.rawByte(st, fmt.Sprintf("b_%d", i), p.set)}, T: s.T})
		case p.set != nil:
			s = concat(s, &Str{P: []Piece{t.char(st, fmt.Sprintf("x%d", i), p.set)}, T: s.T})
		default:
			s = concat(s, lit(p.lit))
		}
	}
	if f.tail > 0 {
		raw := len(f.parts) > 0 && f.parts[len(f.parts)-1].raw
		s = concat(s, &Str{P: []Piece{{V: t.restLeaf(f.tail, raw)}}, T: s.T})
	}
	return s
}

type lexState struct {
	st   *State
	pos  int
	dot  int
	n    int
	path string
	last int // where the last token starts
}

// explore reads all texts of the form to their end.
func (r *lexRun) explore(f lexForm, report func(lexMiss)) {
	m := r.m
	m.text = newTextModel()
	if f.alpha != nil {
		m.text.alpha, m.text.invalid = f.alpha, false
	}
	st := m.base.clone()
	src := r.text(st, f)
	ctor := r.p.fn("NewAST")
	m.steps = 0
	if ctor == nil {
		report(lexMiss{kind: "undecided", key: "NewAST", what: "constructor NewAST not found"})
		return
	}
	for _, o := range m.call(st, ctor, []Val{src}, nil, nil) {
		if o.bad() {
			report(lexMiss{kind: "undecided", key: "NewAST", what: "NewAST: " + outMsg([]Out{o}), where: o.Pos})
			continue
		}
		node := o.St.res(o.Res)
		if f.parse {
			m.steps, m.maxSteps = 0, 10*lexSteps
			for _, q := range m.call(o.St, r.parseFn, []Val{node}, nil, nil) {
				r.c.count("whole_texts", 1)
				if q.bad() {
					k := "undecided"
					if q.Panic != "" {
						k = "panic"
					}
					report(lexMiss{kind: k, key: outMsg([]Out{q}), where: q.Pos, what: fmt.Sprintf("parsing the text %q: %s", r.sample(q.St, src), outMsg([]Out{q}))})
				}
			}
			continue
		}
		id := o.St.alloc(o.St.zero(r.symT))
		lv := &Ptr{Obj: id, T: types.NewPointer(r.symT)}
		work := []lexState{{st: o.St}}
		for len(work) > 0 {
			w := work[len(work)-1]
			work = work[:len(work)-1]
			work = append(work, r.step(f, src, node, lv, w, report)...)
		}
	}
}

// sample writes the text of a partition with one value for every character.
func (r *lexRun) sample(st *State, src *Str) string {
	var b strings.Builder
	s := st.resStr(src)
	for _, p := range s.P {
		switch x := p.V.(type) {
		case nil:
			b.WriteString(p.Lit)
		case *Leaf:
			b.WriteString("…")
		case *Expr:
			l, ok := x.A[0].(*Leaf)
			if !ok {
				b.WriteString("?")
				continue
			}
			set := st.setOf(l)
			v := set[0].lo
			for _, g := range set { // a printable one, if there is one
				for _, want := range "xXяЯ1 " {
					if g.lo <= int64(want) && int64(want) <= g.hi {
						v = int64(want)
					}
				}
			}
			if x.Op == "rawbyte" {
				b.WriteString(string([]byte{byte(v)}))
			} else {
				b.WriteString(string(rune(v)))
			}
		}
	}
	return b.String()
}

// errorCall is what happens when the parser reports an error after the token.
func (r *lexRun) errorCall(st *State, node Val) []Out {
	st = st.clone()
	r.m.steps = 0
	return r.m.call(st, r.errFn, []Val{node, lit("syntax error")}, nil, nil)
}

var placeRe = regexp.MustCompile(`line: (-?\d+), column: (-?\d+)`)

// place compares the position an error at the token names with the token's.
func (r *lexRun) place(src *Str, node Val, st *State, lo int, tok *rtok, what string, miss func(kind, key, format string, a ...any)) {
	type lc struct{ line, col int }
	for _, a := range r.m.text.fork(st, func(o *oracle) []alt {
		f, _ := o.flat(src)
		p := lc{1, 0}
		for _, c := range f[:lo] {
			p.col++
			if o.isR(c, '\n') {
				p = lc{p.line + 1, 0}
			}
		}
		return one(o.st, p)
	}) {
		if a.undec != "" {
			miss("undecided", "place", "not decided: %s", a.undec)
			continue
		}
		want := a.v.(lc)
		for _, e := range r.errorCall(a.st, node) {
			if e.bad() {
				miss("undecided", "place", "not decided: reporting an error: %s", outMsg([]Out{e}))
				continue
			}
			r.c.count("error_places", 1)
			text := ""
			var msg *Str
			if p, ok := node.(*Ptr); ok {
				nv, _ := e.St.load(p)
				if rec, ok := e.St.expand(nv).(*Rec); ok {
					if s, ok := errText(r.m, e.St, rec.F[r.errF]); ok {
						msg = e.St.resStr(s)
						for _, pc := range e.St.resStr(s).P {
							if pc.V == nil {
								text += pc.Lit
							} else {
								text += "…"
							}
						}
					}
				}
			}
			g := placeRe.FindStringSubmatch(text)
			if g == nil {
				miss("place", "none", "an error at %s line %d, column %d is reported without its place (%q)", what, want.line, want.col, text)
			} else if l, _ := strconv.Atoi(g[1]); l != want.line {
				miss("place", "line", "an error at %s line %d, column %d is reported for line %s, column %s", what, want.line, want.col, g[1], g[2])
			} else if c, _ := strconv.Atoi(g[2]); c != want.col {
				miss("place", "column", "an error at %s line %d, column %d is reported for line %s, column %s", what, want.line, want.col, g[1], g[2])
			} else if tok != nil && msg != nil && !r.quotes(e.St, src, msg, tok) {
				miss("place", "text:"+tok.kind, "an error at %s line %d, column %d quotes another text: %s", what, want.line, want.col, short(e.St.key(msg)))
			}
		}
	}
}

// quotes: the message shows the token's text, as it was read or as it stands.
func (r *lexRun) quotes(st *State, src, msg *Str, tok *rtok) bool {
	o := &oracle{r.m.text, st}
	f, _ := o.flat(src)
	for _, c := range f[tok.lo:tok.hi] {
		if c.raw { // kept or replaced
			return true
		}
	}
	known := true
	var all strings.Builder
	for _, p := range msg.P {
		known = known && p.V == nil
		all.WriteString(p.Lit)
	}
	for _, want := range [][]tch{tok.text, f[tok.lo:tok.hi]} {
		s := o.str(want, nil)
		if c, ok := constStr(s); ok {
			if known && (strings.Contains(all.String(), strconv.Quote(c)) || c != "" && strings.Contains(all.String(), c)) {
				return true
			}
			continue
		}
		k := st.key(s)
		for _, p := range msg.P {
			if e, ok := p.V.(*Expr); ok {
				for _, a := range e.A {
					if g, ok := strOf(st.res(a)); ok && st.key(g) == k {
						return true
					}
				}
			}
		}
		if strings.Contains(st.key(msg), k) {
			return true
		}
	}
	return false
}

// errText is the message of an error: what a type of the code itself says, or
// the text errors.New or fmt.Errorf was given.
func errText(m *M, st *State, v Val) (*Str, bool) {
	i, ok := st.res(v).(*Ifc)
	if !ok {
		return nil, false
	}
	if sel := types.NewMethodSet(i.T).Lookup(nil, "Error"); sel != nil && i.T != nil {
		if fn := m.p.SSA.MethodValue(sel); fn != nil && (m.p.inRepo(fn) || fn.Synthetic != "") {
			m.steps = 0
			outs := m.call(st.clone(), fn, []Val{st.evalLin(i.V)}, nil, nil)
			if len(outs) != 1 || outs[0].bad() {
				return nil, false
			}
			return strOf(outs[0].St.res(outs[0].Res))
		}
	}
	p, ok := st.res(i.V).(*Ptr)
	if !ok {
		return nil, false
	}
	x, ok := st.load(p)
	if !ok {
		return nil, false
	}
	rec, ok := st.expand(x).(*Rec)
	if !ok || len(rec.F) == 0 {
		return nil, false
	}
	return strOf(st.res(rec.F[0]))
}

const lexSteps = 4_000_000

func (r *lexRun) step(f lexForm, src *Str, node Val, lv *Ptr, w lexState, report func(lexMiss)) []lexState {
	m := r.m
	m.steps, m.maxSteps = 0, lexSteps
	r.c.count("token_reads", 1)
	miss := func(st *State, kind, key, where, format string, a ...any) {
		report(lexMiss{kind: kind, key: key, where: where, what: fmt.Sprintf(format, a...) + fmt.Sprintf(" (text %q)", r.sample(st, src))})
	}
	if w.n > 12+2*len(f.parts)+2*f.tail+strings.Count(f.name, "") {
		miss(w.st, "loop", "calls", "ast/tokens.go", "reading tokens does not come to an end")
		return nil
	}
	before := len(w.st.events)
	outs := m.call(w.st, r.lexFn, []Val{node, lv}, nil, nil)
	var next []lexState
	for _, o := range outs {
		if o.Panic != "" {
			miss(o.St, "panic", o.Pos+"|"+o.Panic, o.Pos, "the tokeniser panics: %s", o.Panic)
			continue
		}
		if strings.Contains(o.Undec, "step bound") || strings.Contains(o.Undec, "call depth") {
			miss(o.St, "loop", "loop:"+o.Pos, o.Pos, "reading one token does not come to an end")
			continue
		}
		if o.Undec != "" {
			miss(o.St, "undecided", o.Undec+"|"+o.Pos, o.Pos, "not decided: %s", o.Undec)
			continue
		}
		// (before the first token there is nothing to report: an empty module is valid)
		if code, ok := isConstInt(o.St.evalLin(o.Res)); f.errors && (w.n > 0 || ok && code > 0) {
			for _, e := range r.errorCall(o.St, node) {
				switch {
				case e.Panic != "":
					miss(e.St, "panic", e.Pos+"|"+e.Panic, e.Pos, "reporting an error here panics: %s", e.Panic)
				case e.Undec != "":
					miss(e.St, "undecided", e.Undec+"|"+e.Pos, e.Pos, "not decided: reporting an error: %s", e.Undec)
				}
				r.c.count("error_reports", 1)
			}
		}
		for _, e := range o.St.events[before:] {
			if e.Name == "cut" {
				miss(o.St, "cut", "cut", "ast/tokens.go", "the tokeniser reads from the middle of a character")
				break
			}
		}
		for _, a := range m.text.fork(o.St, func(or *oracle) []alt {
			// one cell per reference token: copied, since the comparison narrows it
			return one(or.st, or.refToken(src, w.pos, w.dot))
		}) {
			r.c.count("cells", 1)
			if a.undec != "" {
				miss(a.st, "undecided", a.undec, "ast/tokens.go", "not decided: %s", a.undec)
				continue
			}
			if nx, ok := r.compare(f, src, node, lv, w, a.st, o.Res, a.v.(rtok), report); ok {
				next = append(next, nx)
			}
		}
	}
	return next
}

// compare judges one token.
func (r *lexRun) compare(f lexForm, src *Str, node Val, lv *Ptr, w lexState, st *State, res Val, ref rtok, report func(lexMiss)) (lexState, bool) {
	m := r.m
	where := "ast/tokens.go"
	no := lexState{}
	miss := func(kind, key, format string, a ...any) {
		report(lexMiss{kind: kind, token: ref, key: key, where: where, what: fmt.Sprintf(format, a...) + fmt.Sprintf(" (text %q, token %d)", r.sample(st, src), w.n+1)})
	}
	code, ok := isConstInt(st.evalLin(res))
	if !ok {
		miss("undecided", "code", "not decided: the token's number depends on %s", st.key(res))
		return no, false
	}
	p, ok := node.(*Ptr)
	if !ok {
		miss("undecided", "node", "not decided: the parser object")
		return no, false
	}
	nv, _ := st.load(p)
	rec, ok := st.expand(nv).(*Rec)
	if !ok {
		miss("undecided", "node", "not decided: the parser object")
		return no, false
	}
	failed := false
	switch e := st.res(rec.F[r.errF]).(type) {
	case *Nil:
	case *Ifc:
		failed = true
	default:
		ds := m.decide(st, m.equal(st, e, &Nil{}))
		if len(ds) != 1 {
			miss("undecided", "err", "not decided: whether an error is reported")
			return no, false
		}
		failed = !ds[0].b
	}
	if ref.kind == "any" {
		return no, false
	}
	if ref.kind == "date" {
		ref = r.refDate(st, ref)
		if ref.kind == "any" {
			miss("text", "date:unchecked", "a date of valid length is accepted or rejected without being read")
			return no, false
		}
	}
	if ref.kind == "num" {
		if s, ok := constStr((&oracle{m.text, st}).str(ref.text, nil)); ok {
			if _, err := strconv.ParseFloat(s, 64); err != nil {
				ref.kind, ref.why = "err", "a number that is too large"
			}
		}
	}
	kind := r.kindOf(code)
	if failed {
		kind = "err"
	}
	trivia := ref.lo > ref.from
	switch {
	case ref.kind == "err" && kind == "err":
		return no, false
	case ref.kind == "err":
		miss("accept", ref.why, "%s is not reported as an error but read as %s", ref.why, kind)
		return no, false
	case kind == "err" && ref.kind == "eof":
		miss("skip", "eof", "the end of the text is reported as an error")
		return no, false
	case kind == "err":
		miss("reject", ref.kind, "%s is rejected", descTok(ref))
		return no, false
	case ref.kind == "eof" && code < 0:
		if f.place && w.n > 0 {
			r.place(src, node, st, w.last, nil, "the end of the text, after the token at", miss)
		}
		return no, false
	case code < 0:
		miss("skip", "lost:"+ref.kind, "the text ends before %s", descTok(ref))
		return no, false
	case ref.kind == "eof":
		miss("skip", "extra", "a token (%s) is read where only layout is left", kind)
		return no, false
	}
	if want, ok := r.codes[ref.kind]; !ok || want != code {
		k := "kind"
		rw, cw := isWord(ref.kind), isWord(kind)
		if rw && cw {
			k = "word"
		} else if trivia {
			k = "skip"
		}
		miss(k, ref.kind+"/"+kind, "%s is read as %s", descTok(ref), kind)
		return no, false
	}
	lvv, _ := st.load(lv)
	lr, ok := st.expand(lvv).(*Rec)
	if !ok {
		miss("undecided", "lval", "not decided: the token")
		return no, false
	}
	tk, ok := st.expand(lr.F[r.tokF]).(*Rec)
	if !ok {
		miss("undecided", "lval", "not decided: the token")
		return no, false
	}
	litv, val := st.res(tk.F[r.litF]), st.res(tk.F[r.valF])
	textIs := func(v Val, want []tch) (bool, string) {
		s, ok := strOf(v)
		if !ok {
			return false, st.key(v)
		}
		got, why := r.flatten(st, s)
		if why != "" {
			return false, why
		}
		if len(got) != len(want) {
			return false, fmt.Sprintf("%q", r.sample(st, s))
		}
		for i := range got {
			if !sameCh(st, got[i], want[i]) {
				return false, fmt.Sprintf("%q", r.sample(st, s))
			}
		}
		return true, ""
	}
	inner := func() Val {
		if i, ok := val.(*Ifc); ok {
			return st.evalLin(i.V)
		}
		return nil
	}
	switch ref.kind {
	case "name", "label", "dir":
		if ok, got := textIs(litv, ref.text); !ok {
			miss("text", ref.kind, "%s has the text %s", descTok(ref), got)
		}
	case "str":
		iv := inner()
		if iv == nil {
			miss("text", "str", "a string token has no value")
		} else if ok, got := textIs(iv, ref.text); !ok {
			miss("text", "str", "the value of %s is %s", descTok(ref), got)
		}
	case "num":
		iv := inner()
		good, got := false, "none"
		switch x := iv.(type) {
		case *C:
			var o = &oracle{m.text, st}
			if s, ok := constStr(o.str(ref.text, nil)); ok {
				v, err := strconv.ParseFloat(s, 64)
				n, _ := constant.Float64Val(x.V)
				good, got = err == nil && n == v, x.V.String()
			}
		case *Expr:
			got = st.key(x)
			if x.Op == "parsefloat" && st.key(x.A[1]) == "64" {
				good, _ = textIs(x.A[0], ref.text)
			}
		}
		if !good {
			miss("text", "num", "the value of %s is %s", descTok(ref), got)
		}
	case "date":
		iv := inner()
		if iv == nil || st.key(iv) != ref.why {
			g := "none"
			if iv != nil {
				g = st.key(iv)
			}
			miss("text", "date", "the value of %s is %s, not %s", descTok(ref), g, ref.why)
		}
	case "kw:истина", "kw:ложь":
		iv := inner()
		c, ok := iv.(*C)
		if !ok || c.V.Kind() != constant.Bool || constant.BoolVal(c.V) != (ref.kind == "kw:истина") {
			miss("text", ref.kind, "%s does not have its value", descTok(ref))
		}
	case "kw:неопределено":
		if _, ok := val.(*Nil); !ok {
			miss("text", ref.kind, "%s has the value %s", descTok(ref), st.key(val))
		}
	}
	if f.place {
		r.place(src, node, st, ref.lo, &ref, descTok(ref)+" at", miss)
	}
	if f.only > 0 && w.n+1 >= f.only {
		return no, false
	}
	return lexState{st: st, pos: ref.hi, dot: ref.dot, n: w.n + 1, last: ref.lo}, true
}

func isWord(k string) bool { return k == "name" || strings.HasPrefix(k, "kw:") }

func sameCh(st *State, a, b tch) bool {
	if a.raw != b.raw {
		// an invalid byte may be kept or replaced
		if !a.raw {
			n, ok := isConstInt(st.evalLin(a.v))
			return ok && n == 0xfffd
		}
		return false
	}
	return st.key(st.evalLin(a.v)) == st.key(st.evalLin(b.v))
}

func (r *lexRun) flatten(st *State, s *Str) (f []tch, why string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case splitReq:
			why = "a text that is not determined"
		case notText:
			why = x.why
		default:
			panic(x)
		}
	}()
	f, _ = (&oracle{r.m.text, st}).flat(s)
	return
}

var dateLayouts = map[int]string{8: "20060102", 12: "200601021504", 14: "20060102150405"}

// refDate decides what a date's digits mean; why is the expected value.
func (r *lexRun) refDate(st *State, ref rtok) rtok {
	zero := true
	for _, c := range ref.text {
		v, _ := r.m.text.iv(st, c.v)
		if len(r.m.text.image(st, v).minus(rset{{'0', '0'}})) > 0 {
			zero = false
		}
	}
	if zero {
		ref.why = st.key(st.zero(timeType(r.m)))
		return ref
	}
	lay, ok := dateLayouts[len(ref.text)]
	if !ok {
		ref.kind, ref.why = "err", "a date of impossible length"
		return ref
	}
	o := &oracle{r.m.text, st}
	s := o.str(ref.text, nil)
	v := mkExpr("time.Parse", timeType(r.m), lit(lay), s)
	ref.why = st.key(v)
	if cs, ok := constStr(s); ok {
		if _, err := time.Parse(lay, cs); err != nil {
			ref.kind, ref.why = "err", "an impossible date"
		}
		return ref
	}
	b, ok := st.facts["timeok:"+ref.why]
	if !ok {
		ref.kind = "any"
	} else if !b {
		ref.kind, ref.why = "err", "an impossible date"
	}
	return ref
}

func (r *lexRun) kindOf(code int) string {
	var ks []string
	for k, c := range r.codes {
		if c == code {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return fmt.Sprintf("token %d", code)
	}
	return strings.Join(ks, "|")
}

func descTok(t rtok) string {
	switch t.kind {
	case "name":
		return "a name"
	case "num":
		return "a number"
	case "str":
		return "a string"
	case "date":
		return "a date"
	case "dir":
		return "a directive"
	case "label":
		return "a label"
	case "eof":
		return "the end"
	}
	if strings.HasPrefix(t.kind, "kw:") {
		return "the keyword " + t.kind[3:]
	}
	return "the operator " + strings.TrimPrefix(t.kind, "op:")
}

// run explores the forms on all processors.
func (c *Ctx) lexForms(forms []lexForm, report func(f lexForm, m lexMiss)) {
	codes, err := lexCodes(c)
	if err != nil {
		c.fail("codes", "ast/tokens.go", "%v", err)
		return
	}
	unicodeSet("IsLetter")
	for _, n := range []string{"IsDigit", "IsNumber", "IsSpace", "IsUpper", "IsLower", "IsPunct", "IsControl"} {
		unicodeSet(n)
	}
	ch := make(chan lexForm)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, err := newLexRun(c, codes)
			if err != nil {
				mu.Lock()
				c.fail("setup", "ast/tokens.go", "%v", err)
				mu.Unlock()
			}
			for f := range ch {
				if err != nil {
					continue
				}
				t0 := time.Now()
				bad := false
				func() {
					defer func() {
						if x := recover(); x != nil {
							if debugOn {
								panic(x)
							}
							bad = true
							c.fail("internal:"+f.name, "analyser", "the texts %s could not be decided: %v", f.name, x)
						}
					}()
					r.explore(f, func(m lexMiss) {
						mu.Lock()
						defer mu.Unlock()
						bad = true
						report(f, m)
					})
				}()
				if debugOn && os.Getenv("LEX") != "" {
					mu.Lock()
					fmt.Printf("%-40s %v\n", f.name, time.Since(t0).Round(time.Millisecond))
					mu.Unlock()
				}
				if !bad {
					c.ok("")
				}
				c.count("forms", 1)
			}
		}()
	}
	for _, f := range forms {
		for _, g := range f.widths() {
			ch <- g
		}
	}
	close(ch)
	wg.Wait()
}
