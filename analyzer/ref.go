package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The reference reading of the language: a recursive-descent reader of token
// sentences written from the language description alone. It decides whether a
// sentence is accepted and which tree it has; the checks compare what the
// repository's own parser code does on the same sentence of opaque tokens.

type refErr struct {
	at   int
	what string
	syn  bool
}

// refMark is a token that starts a line of its own in a laid out text.
type refMark struct {
	at, depth int
}

type refParser struct {
	marks []refMark
	depth int

	t       []Tok
	i       int
	syntax  *refErr
	rules   []refErr // broken semantic rules
	loop    int
	handler int
	fn      bool
}

func kw(t Tok) string {
	if t.Class != "" {
		return t.Class
	}
	return strings.ToLower(t.Surf)
}

func (p *refParser) peek() string {
	if p.i >= len(p.t) {
		return "$end"
	}
	return kw(p.t[p.i])
}

func (p *refParser) peekAt(n int) string {
	if p.i+n >= len(p.t) {
		return "$end"
	}
	return kw(p.t[p.i+n])
}

func (p *refParser) next() Tok {
	if p.i >= len(p.t) {
		p.bad("unexpected end")
	}
	t := p.t[p.i]
	p.i++
	return t
}

func (p *refParser) mark(depth int) { p.marks = append(p.marks, refMark{p.i, depth}) }

// inner reads a block one level deeper and marks the word that ends it.
func (p *refParser) inner(ends ...string) *Term {
	p.depth++
	b := p.block(ends...)
	p.depth--
	p.mark(p.depth)
	return b
}

func (p *refParser) bad(f string, a ...any) {
	e := &refErr{p.i, fmt.Sprintf(f, a...), true}
	p.syntax = e
	panic(e)
}

func (p *refParser) rule(f string, a ...any) {
	p.rules = append(p.rules, refErr{p.i, fmt.Sprintf(f, a...), false})
}

func (p *refParser) want(s string) Tok {
	if p.peek() != s {
		p.bad("%s expected, %s found", s, p.peek())
	}
	return p.next()
}

func node(k string, kv ...any) *Term {
	t := &Term{K: k, F: map[string]*Term{}}
	for i := 0; i+1 < len(kv); i += 2 {
		if v, _ := kv[i+1].(*Term); v != nil {
			if v.list && len(v.L) == 0 {
				continue
			}
			t.F[kv[i].(string)] = v
		}
	}
	return t
}

func leafT(s string) *Term        { return &Term{A: s} }
func listT(l ...*Term) *Term      { return &Term{L: l, list: true} }
func un(op string, x *Term) *Term { return &Term{K: op, L: []*Term{x}} }

var trueT = leafT("true")

// refParse reads a whole module.
func refParse(toks []Tok) (tree *Term, p *refParser) {
	p = &refParser{t: toks}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*refErr); !ok {
				panic(r)
			}
			tree = nil
		}
	}()
	return p.module(), p
}

func (p *refParser) module() *Term {
	globals := &Term{K: "map", F: map[string]*Term{}}
	body := listT()
	sawSub := false
	for {
		dir := ""
		save := p.i
		if p.peek() == "directive" {
			dir = p.next().ID
		}
		if k := p.peek(); k == "перем" || k == "процедура" || k == "функция" {
			p.mark(0)
			if p.i > save {
				p.marks = append(p.marks, refMark{save, 0})
			}
		}
		switch p.peek() {
		case "перем":
			p.next()
			var ids []string
			for {
				ids = append(ids, p.want("name").ID)
				if p.peek() != "," {
					break
				}
				p.next()
			}
			exp := false
			if p.peek() == "экспорт" {
				p.next()
				exp = true
			}
			p.want(";")
			if sawSub {
				p.rule("module variable after a procedure or function")
			}
			for _, id := range ids {
				if globals.F[id] != nil {
					p.rule("module variable %s declared twice", id)
					continue
				}
				g := node("GlobalVariables", "Var", node("VarStatement", "Name", leafT(id)))
				if dir != "" {
					g.F["Directive"] = leafT(dir)
				}
				if exp {
					g.F["Export"] = trueT
				}
				globals.F[id] = g
			}
			continue
		case "процедура", "функция":
			body.L = append(body.L, p.sub(dir))
			sawSub = true
			continue
		}
		p.i = save
		break
	}
	if p.i < len(p.t) {
		b := p.block("$end")
		body.L = append(body.L, b.L...)
	}
	if p.peek() != "$end" {
		p.bad("unexpected %s", p.peek())
	}
	t := node("Module", "Body", body)
	if len(globals.F) > 0 {
		t.F["GlobalVariables"] = globals
	}
	return t
}

func (p *refParser) sub(dir string) *Term {
	fn := p.next()
	isFn := kw(fn) == "функция"
	t := node("FunctionOrProcedure", "Name", leafT(p.want("name").ID))
	if dir != "" {
		t.F["Directive"] = leafT(dir)
	}
	t.F["Type"] = leafT("PFTypeProcedure")
	if isFn {
		t.F["Type"] = leafT("PFTypeFunction")
	}
	p.want("(")
	params := listT()
	if p.peek() == "," {
		p.next() // the grammar tolerates a leading comma
	}
	if p.peek() != ")" {
		for {
			q := node("ParamStatement")
			if p.peek() == "знач" {
				p.next()
				q.F["IsValue"] = trueT
			}
			q.F["Name"] = leafT(p.want("name").ID)
			if p.peek() == "=" {
				p.next()
				q.F["Default"] = p.defaultValue()
			}
			params.L = append(params.L, q)
			if p.peek() != "," {
				break
			}
			p.next()
		}
	}
	p.want(")")
	if len(params.L) > 0 {
		t.F["Params"] = params
	}
	if p.peek() == "экспорт" {
		p.next()
		t.F["Export"] = trueT
	}
	vars := &Term{K: "map", F: map[string]*Term{}}
	for p.peek() == "перем" {
		p.mark(p.depth + 1)
		p.next()
		for {
			id := p.want("name").ID
			if vars.F[id] != nil {
				p.rule("variable %s declared twice", id)
			}
			vars.F[id] = node("VarStatement", "Name", leafT(id))
			if p.peek() != "," {
				break
			}
			p.next()
		}
		p.want(";")
	}
	if len(vars.F) > 0 {
		t.F["ExplicitVariables"] = vars
	}
	end := "конецпроцедуры"
	if isFn {
		end = "конецфункции"
	}
	old := p.fn
	p.fn = isFn
	b := p.inner(end)
	p.fn = old
	p.want(end)
	if len(b.L) > 0 {
		t.F["Body"] = b
	}
	return t
}

func (p *refParser) defaultValue() *Term {
	switch p.peek() {
	case "-", "+":
		return p.expr(precUnary)
	case "number", "string", "date", "истина", "ложь", "неопределено", "label":
		return p.primary()
	}
	p.bad("a literal expected, %s found", p.peek())
	return nil
}

// block reads statements up to one of the closing words (not consumed).
func (p *refParser) block(ends ...string) *Term {
	b := listT()
	isEnd := func() bool {
		k := p.peek()
		if k == "$end" {
			return true
		}
		for _, e := range ends {
			if e == k {
				return true
			}
		}
		return false
	}
	for !isEnd() {
		if k := p.peek(); k == ";" || k == ":" {
			if k == ":" && len(b.L) > 0 && b.L[len(b.L)-1].K != "GoToLabelStatement" {
				p.rule("a statement ends with a colon")
			}
			p.next()
			continue
		}
		p.mark(p.depth)
		b.L = append(b.L, p.stmt())
		if isEnd() {
			break
		}
		if k := p.peek(); k != ";" && k != ":" {
			p.bad("a separator expected, %s found", k)
		}
	}
	return b
}

func (p *refParser) stmt() *Term {
	switch p.peek() {
	case "если":
		p.next()
		t := node("IfStatement", "Expression", p.expr(0))
		p.want("тогда")
		set(t, "TrueBlock", p.inner("иначеесли", "иначе", "конецесли"))
		elifs := listT()
		for p.peek() == "иначеесли" {
			p.next()
			e := node("IfStatement", "Expression", p.expr(0))
			p.want("тогда")
			set(e, "TrueBlock", p.inner("иначеесли", "иначе", "конецесли"))
			elifs.L = append(elifs.L, e)
		}
		set(t, "IfElseBlock", elifs)
		if p.peek() == "иначе" {
			p.next()
			set(t, "ElseBlock", p.inner("конецесли"))
		}
		p.want("конецесли")
		return t
	case "для":
		p.next()
		t := node("LoopStatement")
		if p.peek() == "каждого" {
			p.next()
			t.F["For"] = leafT(p.want("name").ID)
			p.want("из")
			set(t, "In", p.expr(0))
		} else {
			set(t, "For", p.expr(0))
			p.want("по")
			set(t, "To", p.expr(0))
		}
		p.loopBody(t)
		return t
	case "пока":
		p.next()
		t := node("LoopStatement", "WhileExpr", p.expr(0))
		p.loopBody(t)
		return t
	case "попытка":
		p.next()
		t := node("TryStatement")
		set(t, "Body", p.inner("исключение"))
		p.want("исключение")
		p.handler++
		set(t, "Catch", p.inner("конецпопытки"))
		p.handler--
		p.want("конецпопытки")
		return t
	case "прервать":
		p.next()
		if p.loop == 0 {
			p.rule("Прервать outside a loop")
		}
		return node("BreakStatement")
	case "продолжить":
		p.next()
		if p.loop == 0 {
			p.rule("Продолжить outside a loop")
		}
		return node("ContinueStatement")
	case "вызватьисключение":
		p.next()
		if p.exprStarts() {
			return node("ThrowStatement", "Param", p.expr(0))
		}
		if p.handler == 0 {
			p.rule("ВызватьИсключение without a value outside a handler")
		}
		return node("ThrowStatement")
	case "возврат":
		p.next()
		if p.exprStarts() {
			if !p.fn {
				p.rule("Возврат with a value outside a function")
			}
			return node("ReturnStatement", "Param", p.expr(0))
		}
		return node("ReturnStatement")
	}
	// an assignment, or an expression as a statement
	if k := p.peek(); k == "name" || k == "выполнить" {
		save := p.i
		v := p.postfix()
		if p.peek() == "=" {
			p.next()
			return node("AssignmentStatement", "Var", v, "Expr", p.expr(0))
		}
		p.i = save
	}
	return p.expr(0)
}

func (p *refParser) loopBody(t *Term) {
	p.want("цикл")
	p.loop++
	set(t, "Body", p.inner("конеццикла"))
	p.loop--
	p.want("конеццикла")
}

func set(t *Term, f string, v *Term) {
	if v == nil || v.list && len(v.L) == 0 {
		return
	}
	t.F[f] = v
}

func (p *refParser) exprStarts() bool {
	switch p.peek() {
	case ";", ":", "$end", "конецесли", "конеццикла", "конецпопытки", "конецпроцедуры", "конецфункции", "иначе", "иначеесли", "исключение":
		return false
	}
	return true
}

const (
	precOr = iota + 1
	precAnd
	precNot
	precCmp
	precAdd
	precMul
	precUnary
)

type binOp struct {
	prec int
	code string
}

// operation codes of the exported OperationType constants are resolved by name
// when the check starts; here the names are used.
var refBin = map[string]binOp{
	"или": {precOr, "OpOr"}, "и": {precAnd, "OpAnd"},
	"=": {precCmp, "OpEq"}, "<>": {precCmp, "OpNe"}, "<": {precCmp, "OpLt"}, ">": {precCmp, "OpGt"}, "<=": {precCmp, "OpLe"}, ">=": {precCmp, "OpGe"},
	"+": {precAdd, "OpPlus"}, "-": {precAdd, "OpMinus"},
	"*": {precMul, "OpMul"}, "/": {precMul, "OpDiv"}, "%": {precMul, "OpMod"},
}

var refOps = []string{"ИЛИ", "И", "=", "<>", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"}

func (p *refParser) expr(min int) *Term {
	var l *Term
	switch p.peek() {
	case "не":
		p.next()
		l = un("$not", p.expr(precNot))
	case "-":
		p.next()
		l = un("$minus", p.expr(precUnary))
	case "+":
		p.next()
		l = p.expr(precUnary)
	default:
		l = p.primary()
	}
	for {
		o, ok := refBin[p.peek()]
		if !ok || o.prec < min {
			return l
		}
		p.next()
		r := p.expr(o.prec + 1)
		l = node("ExpStatement", "Operation", leafT(o.code), "Left", l, "Right", r)
	}
}

func (p *refParser) args() *Term {
	p.want("(")
	l := listT()
	for {
		if k := p.peek(); k == "," || k == ")" {
			l.L = append(l.L, nil)
		} else {
			l.L = append(l.L, p.expr(0))
		}
		if p.peek() != "," {
			break
		}
		p.next()
	}
	p.want(")")
	return l
}

func (p *refParser) primary() *Term {
	switch p.peek() {
	case "number", "string", "date":
		return leafT(p.next().ID)
	case "истина":
		p.next()
		return leafT("true")
	case "ложь":
		p.next()
		return leafT("false")
	case "неопределено":
		p.next()
		return node("UndefinedStatement")
	case "label":
		return node("GoToLabelStatement", "Name", leafT(p.next().ID))
	case "(":
		return &Term{K: "$group", L: p.args().L}
	case "перейти":
		p.next()
		return node("GoToStatement", "Label", node("GoToLabelStatement", "Name", leafT(p.want("label").ID)))
	case "?":
		p.next()
		p.want("(")
		t := node("TernaryStatement", "Expression", p.expr(0))
		p.want(",")
		set(t, "TrueBlock", p.expr(0))
		p.want(",")
		set(t, "ElseBlock", p.expr(0))
		p.want(")")
		return t
	case "новый":
		p.next()
		t := node("NewObjectStatement")
		if p.peek() == "name" {
			t.F["Constructor"] = leafT(p.next().ID)
			if p.peek() == "(" {
				set(t, "Param", p.args())
			}
		} else {
			set(t, "Param", p.args())
		}
		return t
	case "name", "выполнить":
		return p.postfix()
	}
	p.bad("an expression expected, %s found", p.peek())
	return nil
}

// postfix reads names, calls and indexes joined by dots.
func (p *refParser) postfix() *Term {
	l := p.unit()
	for p.peek() == "." {
		p.next()
		l = node("CallChainStatement", "Unit", p.unit(), "Call", l)
	}
	return l
}

func (p *refParser) unit() *Term {
	var l *Term
	if p.peek() == "выполнить" {
		x := p.next()
		l = node("MethodStatement", "Name", leafT(`"`+x.Surf+`"`))
		switch p.peek() {
		case "string":
			l.F["Param"] = listT(leafT(p.next().ID))
		case "name":
			l.F["Param"] = listT(node("VarStatement", "Name", leafT(p.next().ID)))
		default:
			p.want("(")
			l.F["Param"] = listT(p.expr(0))
			p.want(")")
		}
	} else {
		n := p.want("name")
		if p.peek() == "(" {
			l = node("MethodStatement", "Name", leafT(n.ID))
			set(l, "Param", p.args())
		} else {
			l = node("VarStatement", "Name", leafT(n.ID))
		}
	}
	for p.peek() == "[" {
		p.next()
		l = node("ItemStatement", "Object", l, "Item", p.expr(0))
		p.want("]")
	}
	return l
}

// canon brings a tree into the normal form two readings of one text share:
// flags become $not/$minus over the node, redundant groups disappear, argument
// lists lose their wrapper, a list of one skipped argument is the empty list.
func canon(t *Term, ops map[string]string) *Term {
	if t == nil {
		return nil
	}
	if t.list {
		r := &Term{list: true}
		for _, x := range t.L {
			r.L = append(r.L, canon(x, ops))
		}
		return r
	}
	switch t.K {
	case "":
		return t
	case "$not", "$minus":
		return signed(t.K, canon(t.L[0], ops))
	case "$group":
		return group(t.L, ops)
	}
	r := &Term{K: t.K, F: map[string]*Term{}}
	not, minus := false, false
	for k, v := range t.F {
		switch k {
		case "IsNot":
			not = true
			continue
		case "IsUnaryMinus":
			minus = true
			continue
		case "Operation":
			if n, ok := ops[v.A]; ok {
				v = leafT(n)
			}
			r.F[k] = v
			continue
		case "Type":
			if n, ok := ops["Type:"+v.A]; ok {
				v = leafT(n)
			}
			r.F[k] = v
			continue
		}
		if k == "Param" && (t.K == "MethodStatement" || t.K == "NewObjectStatement") {
			l := v
			if v.K == "ExprStatements" {
				l = listOf(v)
			}
			c := canon(l, ops)
			if c != nil && c.list && len(c.L) == 1 && c.L[0] == nil {
				continue
			}
			if c != nil && c.list && len(c.L) == 0 {
				continue
			}
			r.F[k] = c
			continue
		}
		if t.K == "ExprStatements" {
			continue // group reads its list
		}
		c := canon(v, ops)
		if c == nil || c.list && len(c.L) == 0 {
			continue
		}
		r.F[k] = c
	}
	var out *Term = r
	if t.K == "ExprStatements" {
		out = group(listOf(t).L, ops)
	}
	if minus {
		out = signed("$minus", out)
	}
	if not {
		out = signed("$not", out)
	}
	return out
}

// signed puts a unary operator on a term that is in normal form.
func signed(k string, x *Term) *Term {
	if k == "$not" && x != nil && x.K == "" && (x.A == "true" || x.A == "false") {
		if x.A == "true" {
			return leafT("false")
		}
		return leafT("true")
	}
	if k == "$minus" && x != nil && x.K == "$minus" && x.L[0].K == "" && strings.HasPrefix(x.L[0].A, "#") {
		return x.L[0]
	}
	return un(k, x)
}

func listOf(t *Term) *Term {
	for _, v := range t.F {
		if v != nil && v.list {
			return v
		}
	}
	return listT()
}

func group(l []*Term, ops map[string]string) *Term {
	if len(l) == 1 && l[0] != nil {
		return canon(l[0], ops)
	}
	r := &Term{K: "$group"}
	if len(l) == 1 {
		return r
	}
	for _, x := range l {
		r.L = append(r.L, canon(x, ops))
	}
	return r
}

// opNames maps the values of the exported operation constants to their names.
func opNames(p *Prog) map[string]string {
	m := map[string]string{}
	sc := p.Pkg.Types.Scope()
	for _, o := range refBin {
		if c := constOf(sc, o.code); c != "" {
			m[c] = o.code
		}
	}
	for _, n := range []string{"PFTypeProcedure", "PFTypeFunction"} {
		if c := constOf(sc, n); c != "" {
			m["Type:"+c] = n
		}
	}
	return m
}

// diff explains the first difference of two canonical terms.
func diff(want, got *Term, path string) string {
	if want == nil && got == nil {
		return ""
	}
	if want == nil || got == nil {
		return fmt.Sprintf("%s: expected %s, got %s", path, want, got)
	}
	if want.K != got.K || want.list != got.list {
		return fmt.Sprintf("%s: expected %s, got %s", path, want, got)
	}
	if want.K == "" && !want.list {
		if want.A != got.A {
			return fmt.Sprintf("%s: expected %s, got %s", path, want, got)
		}
		return ""
	}
	if want.list || strings.HasPrefix(want.K, "$") {
		if len(want.L) != len(got.L) {
			return fmt.Sprintf("%s: expected %d items (%s), got %d (%s)", path, len(want.L), want, len(got.L), got)
		}
		for i := range want.L {
			if d := diff(want.L[i], got.L[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	for _, k := range sortedKeys(want.F) {
		if d := diff(want.F[k], got.F[k], path+"."+k); d != "" {
			return d
		}
	}
	for _, k := range sortedKeys(got.F) {
		if want.F[k] == nil {
			return fmt.Sprintf("%s.%s: expected nothing, got %s", path, k, got.F[k])
		}
	}
	return ""
}

func constOf(sc *types.Scope, name string) string {
	if c, ok := sc.Lookup(name).(*types.Const); ok {
		return c.Val().ExactString()
	}
	return ""
}

// verdict of one partition of a parse against the reference reading.
func (a *AbsParser) compare(toks []Tok) (string, *ParseRes) {
	want, rp := refParse(toks)
	rs := a.run(toks, a.staleMode)
	if len(rs) == 0 {
		return "no outcome", nil
	}
	for i := range rs {
		r := &rs[i]
		if r.Out.bad() {
			return "cannot be decided: " + outMsg([]Out{r.Out}), r
		}
		rej, known := r.failed()
		if !known {
			return "the outcome is not definite: " + r.St.key(r.Err), r
		}
		switch {
		case rp.syntax != nil:
			if !rej {
				return "accepted, but it is not of the language: " + rp.syntax.what, r
			}
		case len(rp.rules) > 0:
			if !rej {
				return "accepted, but it breaks a rule: " + rp.rules[0].what, r
			}
		default:
			if rej {
				return "rejected, but it is correct", r
			}
			got := canon(a.tree(r), a.ops)
			if d := diff(canon(want, a.ops), got, ""); d != "" {
				return "read wrongly: " + d, r
			}
		}
	}
	return "", &rs[0]
}

// tree is the module tree of a finished parse.
func (a *AbsParser) tree(r *ParseRes) *Term {
	v, _ := r.St.load(r.Node)
	t := r.St.term(v)
	if t != nil && t.K == a.node.Obj().Name() {
		t = &Term{K: "Module", F: t.F}
	}
	return t
}
