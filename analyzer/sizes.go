package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sizes. Lists and nestings of every length cannot be enumerated, but code that
// treats one length differently from the others has to name it: it compares a
// count with a constant, allocates or slices to a constant, or declares an
// array. The constants named so in the code under analysis are the lengths at
// which its behaviour can change, and the families below are built for them.

// maxSize bounds the lists and nestings, maxText the texts, that are built.
const (
	maxSize = 48
	maxBig  = 4096
	maxText = 4096
)

// sizes are the lengths the analysed code singles out, with those next to
// them, and a few fixed ones.
func (p *Prog) sizes(thorough bool) []int {
	p.sizeOnce.Do(func() { p.sizeConsts = p.findSizes() })
	set := map[int]bool{5: true, 9: true}
	if thorough {
		for _, n := range []int{6, 7, 8, 10, 12, 17, 24, 33} {
			set[n] = true
		}
	}
	for _, k := range p.sizeConsts {
		for _, n := range []int{k, k + 1, k + 2} {
			set[n] = true
		}
		if thorough {
			set[k-1], set[k+3], set[2*k+1] = true, true, true
		}
	}
	var l []int
	for n := range set {
		if n > 3 && n <= maxSize+2 {
			l = append(l, n)
		}
	}
	sort.Ints(l)
	return l
}

func (p *Prog) findSizes() []int {
	set, text := map[int]bool{}, map[int]bool{}
	addTo := func(m map[int]bool, v ssa.Value) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return
		}
		if n, ok := constant.Int64Val(k.Value); ok && n >= 3 && n <= maxText {
			m[int(n)] = true
		}
	}
	add := func(v ssa.Value) { addTo(set, v) }
	addText := func(v ssa.Value) { addTo(text, v) }
	// a number of things, not a character, a token or a state
	count := func(v ssa.Value) bool {
		b, ok := v.Type().(*types.Basic)
		return ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Int64 || b.Kind() == types.Uint64)
	}
	narrow := func(t types.Type) {
		switch b, ok := t.Underlying().(*types.Basic); {
		case ok && b.Kind() == types.Int8:
			set[127] = true
		case ok && b.Kind() == types.Uint8:
			set[255] = true
		}
	}
	length := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok {
				return b.Name() == "len" || b.Name() == "cap"
			}
		}
		return false
	}
	// in the generated parser states and tokens are numbers too; there only a
	// length and a field of something other than the parser itself count
	field := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		nm, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
		return ok && !strings.HasPrefix(nm.Obj().Name(), "yy")
	}
	gen := p.genParse()
	own := p.yaccConsts()
	// a buffer of characters is as long as a text, not as a list
	chars := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
	}
	for fn := range p.Funcs {
		if !p.inAST(fn) {
			continue
		}
		isGen := gen[fn]
		if isGen && fn.Name() == "Parse" {
			for _, k := range p.loopSizes(fn) {
				if !own[k] {
					set[k] = true
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					switch in.Op {
					case token.ADD, token.SUB:
						// a count in so few bits comes round again; an element
						// of a text is no count
						if u, ok := in.X.(*ssa.UnOp); ok && u.Op == token.MUL {
							if _, ok := u.X.(*ssa.IndexAddr); ok {
								break
							}
						}
						switch in.X.(type) {
						case *ssa.Index, *ssa.Lookup:
							continue
						}
						if k, ok := in.Y.(*ssa.Const); ok && k.Value != nil && (constant.Compare(k.Value, token.EQL, constant.MakeInt64(1)) || constant.Compare(k.Value, token.EQL, constant.MakeInt64(-1))) {
							narrow(in.Type())
						}
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM, token.AND, token.QUO, token.SHR:
						if !count(in.X) {
							break
						}
						if !isGen || length(in.X) || field(in.X) {
							add(in.Y)
						}
						if !isGen || length(in.Y) || field(in.Y) {
							add(in.X)
						}
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") && !isGen {
						for _, a := range in.Call.Args {
							add(a)
						}
					}
				case *ssa.Slice:
					if isGen {
						break
					}
					for _, v := range []ssa.Value{in.Low, in.High, in.Max} {
						if v != nil {
							add(v)
						}
					}
				case *ssa.Convert:
					if count(in.X) {
						narrow(in.Type())
					}
				case *ssa.MakeSlice:
					if chars(in.Type().Underlying().(*types.Slice).Elem()) {
						addText(in.Len)
						addText(in.Cap)
						break
					}
					add(in.Len)
					add(in.Cap)
				case *ssa.Alloc:
					// make with a constant size, or an array
					if a, ok := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && in.Comment != "varargs" && in.Comment != "slicelit" && in.Comment != "complit" && a.Len() >= 3 && a.Len() <= maxText {
						if chars(a.Elem()) {
							text[int(a.Len())] = true
							break
						}
						set[int(a.Len())] = true
					}
				}
			}
		}
	}
	for n := range text {
		if n <= maxSize {
			set[n] = true
		}
		p.textConsts = append(p.textConsts, n)
	}
	sort.Ints(p.textConsts)
	for _, n := range p.Pkg.Types.Scope().Names() {
		if tn, ok := p.Pkg.Types.Scope().Lookup(n).(*types.TypeName); ok {
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if a, ok := st.Field(i).Type().Underlying().(*types.Array); ok && a.Len() >= 3 && a.Len() <= maxText {
						set[int(a.Len())] = true
					}
				}
			}
		}
	}
	var l []int
	for n := range set {
		l = append(l, n)
	}
	sort.Ints(l)
	return l
}

// yaccConsts are the numbers the parser generator itself writes.
func (p *Prog) yaccConsts() map[int]bool {
	m := map[int]bool{}
	sc := p.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && strings.HasPrefix(n, "yy") && k.Val().Kind() == constant.Int {
			if v, ok := constant.Int64Val(k.Val()); ok {
				m[int(v)] = true
			}
		}
	}
	return m
}

// loopSizes are the numbers the loop of the generated parser compares with,
// the choice of the action of a production aside.
func (p *Prog) loopSizes(fn *ssa.Function) (l []int) {
	by := map[ssa.Value][]int{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			op, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch op.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM, token.AND, token.QUO, token.SHR:
			default:
				continue
			}
			for _, v := range [][2]ssa.Value{{op.X, op.Y}, {op.Y, op.X}} {
				k, ok := v[1].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
					continue
				}
				if n, ok := constant.Int64Val(k.Value); ok && n > 3 && n <= maxText {
					by[v[0]] = append(by[v[0]], int(n))
				}
			}
		}
	}
	for _, ns := range by {
		if len(ns) <= 10 {
			l = append(l, ns...)
		}
	}
	return
}

// bigSizes are the lengths the code singles out that are too long for every
// family: only the plain lists and nestings are built with them.
func (p *Prog) bigSizes() (l []int) {
	p.sizes(false)
	set := map[int]bool{}
	for _, k := range p.sizeConsts {
		if k <= maxSize || k > maxBig {
			continue
		}
		set[k+1] = true
		if k <= 150 {
			set[k] = true
		}
	}
	for n := range set {
		l = append(l, n)
	}
	sort.Ints(l)
	return
}

// thin leaves about as many forms of a length as can be afforded.
func thin(l []string, n int) []string {
	if n <= 300 {
		return l
	}
	var out []string
	for i, f := range l {
		if i%(n/300) == 0 {
			out = append(out, f)
		}
	}
	return out
}

// textSizes are the same for pieces of text: these may be longer.
func (p *Prog) textSizes() []int {
	p.sizes(false)
	set := map[int]bool{8: true, 40: true}
	for _, k := range append(append([]int{}, p.sizeConsts...), p.textConsts...) {
		set[k+1] = true
		if k > 300 { // such texts cost too much for all of these
			continue
		}
		set[k-1], set[k], set[k+1], set[k+2], set[2*k+2] = true, true, true, true, true
	}
	var l []int
	for n := range set {
		if n > 2 {
			l = append(l, n)
		}
	}
	sort.Ints(l)
	return l
}

// layoutSizes are white space and comments of those lengths.
func layoutSizes(c *Ctx) (fs []lexForm) {
	ns := c.P.textSizes()
	c.countSet("text_lengths", ns)
	for _, n := range ns {
		for i, s := range []string{" ", "\n", "//\n", "\t", "\r\n", "#\n", "//x\n", "\n#y\n \t", "//a\n#b\n", "#b\n//"} {
			if n > 200 && i > 2 {
				break
			}
			g := strings.Repeat(s, n)
			fs = append(fs, form("many "+fmt.Sprintf("%q", s), 0, nil, fLit("x"), fLit(g), fSet(runes("yЯ1\";")), fLit(g), fLit("z")),
				form("many at the start "+fmt.Sprintf("%q", s), 0, nil, fLit(g), fLit("Если")))
		}
		for _, s := range []string{"//", "#"} {
			for i, r := range []string{"c", "Ю", " ", "/", "#", "\"", "'", ";"} {
				if n > 200 && i > 0 {
					break
				}
				fs = append(fs, form("long comment "+s+r, 0, nil, fLit("x"), fLit(s+strings.Repeat(r, n)), fLit("\n"), fSet(runes("yЯ1\";"))))
			}
		}
	}
	return
}

// literalSizes are names, numbers and strings of those lengths.
func literalSizes(c *Ctx) (fs []lexForm) {
	ns := c.P.textSizes()
	c.countSet("text_lengths", ns)
	add := func(n int, what string, ps ...lexPart) {
		fs = append(fs, form(fmt.Sprintf("%s of %d", what, n), 0, nil, ps...))
	}
	q := "\""
	for _, n := range ns {
		r := func(s string) string { return strings.Repeat(s, n) }
		add(n, "name", fLit(r("я")), fSet(runes(" ;.")), fLit(r("Z_")+"1"), fSet(runes("aЯ=")))
		add(n, "name", fLit("_"+r("7")), fSet(runes(" ;Ё")))
		if n > 200 {
			add(n, "string", fLit(q+r("s")), fSet(runes("xЯ ")), fLit(q), fSet(runes("; )y")))
			add(n, "string", fLit(q+r("Ю")), fSet(runes("xЯ ")), fLit(q), fSet(runes("; )y")))
			add(n, "string lines", fLit(q+"a"+r("\n|")), fSet(runes("xЯ |")), fLit(q), fSet(runes("; )y")))
			add(n, "fraction", fLit("1."+r("5")), fSet(runes(" ;5")))
			continue
		}
		add(n, "label", fLit("~"+r("м")), fSet(runes(" :ё")))
		add(n, "directive", fLit("&"+r("м")), fSet(runes(" :")))
		if n < 300 {
			add(n, "number", fLit(r("1")), fSet(runes(" ;5.")))
			add(n, "number", fLit(r("0")+"1"), fSet(runes(" ;5.")))
		}
		add(n, "fraction", fLit("1."+r("5")), fSet(runes(" ;5")))
		add(n, "fraction", fLit("1."+r("0")+"1"), fSet(runes(" ;5")))
		if n < 100 {
			add(n, "fraction", fLit(r("3")+"."+r("5")), fSet(runes(" ;5")))
		}
		for _, s := range []string{"s", "Ю", " ", "'", "//", "|", ";", "\"\""} {
			add(n, "string", fLit(q+r(s)), fSet(runes("xЯ ")), fLit(q), fSet(runes("; )y")))
		}
		for _, s := range []string{"\n|", "\n\t |x", "\n//c\n|", "\r\n|"} {
			add(n, "string lines", fLit(q+"a"+r(s)), fSet(runes("xЯ |")), fLit(q), fSet(runes("; )y")))
			add(n, "string lines", fLit(q+"a"+r(s)+q+" "+q), fSet(runes("xЯ |")), fLit(q+" "+q+"\n"+q))
		}
		add(n, "joined strings", fLit(r(q+"x"+q+" ")), fSet(runes("; )y+")))
		add(n, "joined strings", fLit(r(q+"x"+q+"\n")), fSet(runes("; )y+")))
		add(n, "spaced date", fLit("'"+r(" ")+"2020"+r("-")+"01"+r(".")+"31"+r(" ")+"'"), fSet(runes("; )")))
		add(n, "dots", fLit("a"+r(".Если")), fSet(runes("; ).")), fLit("Если"))
		add(n, "gap after a dot", fLit("a."+r(" ")+"Если"), fSet(runes("; )")), fLit("Если"))
		add(n, "gap after a dot", fLit("a."+r("//x\n")+"Если"), fSet(runes("; )")), fLit("Если"))
	}
	return
}

// genParse are the functions of the file the parser generator wrote: their
// constants are mostly states and tokens.
func (p *Prog) genParse() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for fn := range p.Funcs {
		if !p.inAST(fn) {
			continue
		}
		f := p.Fset.Position(fn.Pos()).Filename // line directives map the actions to the grammar
		g := p.Fset.PositionFor(fn.Pos(), false).Filename
		if strings.HasSuffix(f, "/y.go") || strings.HasSuffix(g, "/y.go") || strings.Contains(f, "yaccpar") {
			m[fn] = true
		}
	}
	return m
}

// flat are the lists of the language, n long.
func flat(n int) (l []string) {
	skip := func(k int) string {
		a := make([]string, n)
		for i := range a {
			if i%k == 0 || i == n-1 {
				a[i] = "N"
			}
		}
		return strings.Join(a, " , ")
	}
	params := make([]string, n)
	for i := range params {
		params[i] = []string{"N", "Знач N", "N = #", "Знач N = \"", "N = - #"}[i%5]
	}
	ps := strings.Join(params, " , ")
	ops := "N"
	for i := 0; i < n; i++ {
		ops += " " + refOps[(i*5)%len(refOps)] + " N"
	}
	elseifs := rep("ИначеЕсли N Тогда N ( ) ;", "", n)
	stmts := rep("N ( ) ; N = # ;", "", (n+1)/2)
	if n%2 == 1 {
		stmts = "N = N ; " + rep("N ( ) ; N = # ;", "", n/2)
	}
	l = append(l,
		"N ( "+rep("N", ",", n)+" ) ;", "N = N ( "+skip(3)+" ) ;", "N . N ( "+rep("#", ",", n)+" ) ;", "N ( "+strings.Repeat(", ", n-1)+" ) ;",
		"N = Новый N ( "+rep("N", ",", n)+" ) ;", "N = Новый N ( "+skip(2)+" ) ;", "N = Новый ( "+rep("N", ",", n)+" ) ;", "N = ( "+rep("N", ",", n)+" ) ;",
		"Процедура N ( "+rep("N", ",", n)+" ) КонецПроцедуры", "Процедура N ( "+ps+" ) Экспорт N = N ; КонецПроцедуры", "@ Функция N ( "+ps+" ) Возврат N ; КонецФункции",
		"Перем "+rep("N", ",", n)+" ;", "@ Перем "+rep("N", ",", n)+" Экспорт ; N = N ;", rep("Перем N ;", "", n)+" N = N ;", rep("@ Перем N Экспорт ;", "", n),
		"Процедура N ( ) Перем "+rep("N", ",", n)+" ; N = N ; КонецПроцедуры", "Функция N ( N ) "+rep("Перем N ;", "", n)+" N = N ; КонецФункции",
		"Если N Тогда N ( ) ; "+elseifs+" Иначе N = N ; КонецЕсли ; N = # ;", "Если N Тогда "+rep("ИначеЕсли N Тогда", "", n)+" КонецЕсли ;",
		stmts, rep(";", "", n)+" N = N "+rep(";", "", n), rep("~ : N ( ) ;", "", n), rep("Перейти ~ ;", "", n),
		"Если N Тогда "+stmts+" ИначеЕсли N Тогда "+stmts+" Иначе "+stmts+" КонецЕсли ; N = N ;",
		"Для N = N По N Цикл "+stmts+" КонецЦикла ; N = N ;", "Для Каждого N Из N Цикл "+stmts+" КонецЦикла ;", "Пока N Цикл "+stmts+" КонецЦикла ;",
		"Попытка "+stmts+" Исключение "+stmts+" КонецПопытки ; N ( ) ;",
		"Процедура N ( N ) "+stmts+" КонецПроцедуры", "@ Функция N ( ) Экспорт Перем N ; "+stmts+" Возврат N ; КонецФункции "+stmts,
		rep("Процедура N ( N ) N = N ; КонецПроцедуры", "", n), rep("@ Функция N ( ) Экспорт КонецФункции", "", n)+" N ( ) ;", "Перем N ; "+rep("Функция N ( N ) Перем N ; КонецФункции Процедура N ( ) КонецПроцедуры", "", n/2)+" N = N ;",
		"N = N"+strings.Repeat(" . N", n)+" ;", "N"+strings.Repeat(" . N", n)+" = N ;", "N = N"+strings.Repeat(" [ N ]", n)+" ;", "N"+strings.Repeat(" [ # ]", n)+" = N ;", "N"+strings.Repeat(" . N ( N )", n)+" ;", "N = N"+strings.Repeat(" . N [ N ] . N ( )", n/2)+" ;",
		"N = "+ops+" ;", "N = N"+strings.Repeat(" + N", n)+" ;", "N = N"+strings.Repeat(" И Не N", n)+" ;", "N = N"+strings.Repeat(" - - N", n)+" ;", "Если N"+strings.Repeat(" ИЛИ N = N", n)+" Тогда КонецЕсли ;",
		"N = "+strings.Repeat("- ", n)+"N ;", "N = "+strings.Repeat("Не ", n)+"N ;",
	)
	return
}

// nested are constructs inside one another, n deep.
func nested(n int) (l []string) { return append(nestedBlocks(n), nestedExprs(n)...) }

func nestedBlocks(n int) (l []string) {
	for _, w := range wraps {
		l = append(l, strings.Repeat(w.pre+" ", n)+"N ( ) ; "+strings.Repeat(w.post+" ", n)+" N = N ;")
	}
	for _, at := range []int{0, 4} {
		pre, post := "", ""
		for i := 0; i < n; i++ {
			w := wraps[(at+i*2)%len(wraps)]
			pre += w.pre + " N = # ; "
			post = w.post + " N ( N ) ; " + post
		}
		l = append(l, "Процедура N ( ) "+pre+post+" КонецПроцедуры N ( ) ;", pre+post)
	}
	return
}

func nestedExprs(n int) (l []string) {
	nest := func(pre, post string) string { return strings.Repeat(pre+" ", n) + "N" + strings.Repeat(" "+post, n) }
	for _, s := range [][2]string{{"(", ")"}, {"N (", ")"}, {"N [", "]"}, {"N . N (", ")"}, {"N ( N ,", ", N )"}, {"Новый N (", ")"}, {"Новый (", ")"}, {"? ( N ,", ", N )"}, {"? (", ", N , N )"}, {"? ( N , N ,", ")"}, {"- (", ")"}, {"Не (", ")"}, {"- - (", ")"}, {"( N +", ")"}, {"(", "* N )"}, {"( N ,", ")"}, {"N ( (", ") )"}} {
		l = append(l, "N = "+nest(s[0], s[1])+" ;")
	}
	l = append(l, nest("N (", ")")+" ;", nest("N [", "]")+" = N ;", "Если "+nest("( N ИЛИ", ")")+" Тогда N ( ) ; КонецЕсли ;", "Функция N ( ) Возврат "+nest("N (", ")")+" ; КонецФункции", "Для Каждого N Из "+nest("N (", ")")+" Цикл КонецЦикла ;")
	return
}

// sizeForms are all lists and nestings of the lengths the code singles out.
func sizeForms(c *Ctx) []string {
	var l []string
	ns := c.P.sizes(c.Thorough)
	c.countSet("list_lengths_and_depths", ns)
	for _, n := range ns {
		l = append(l, flat(n)...)
		l = append(l, nested(n)...)
	}
	return append(l, c.bigForms(maxBig, maxBig, maxBig)...)
}

// shownSizes are the same for what is printed or encoded: the text of a nest of
// blocks grows with the square of its depth, so these stop earlier.
func shownSizes(c *Ctx) []string {
	var l []string
	ns := c.P.sizes(c.Thorough)
	c.countSet("list_lengths_and_depths", ns)
	for _, n := range ns {
		l = append(l, flat(n)...)
		l = append(l, nested(n)...)
	}
	if c.Thorough {
		return append(l, c.bigForms(2100, 300, 600)...)
	}
	return append(l, c.bigForms(1100, 300, 300)...)
}

// bigForms are the lists of the lengths that are too long for every family, and
// the nests of those, each up to some length.
func (c *Ctx) bigForms(lists, blocks, exprs int) (l []string) {
	big := c.P.bigSizes()
	c.countSet("list_lengths_and_depths", big)
	for _, n := range big {
		if n <= lists {
			l = append(l, thin(flat(n), n)...)
		}
		if n <= blocks {
			l = append(l, thin(nestedBlocks(n), n)...)
		}
		if n <= exprs {
			l = append(l, thin(nestedExprs(n), n)...)
		}
	}
	return l
}

// unarySizes are that many signs before every kind of operand.
func unarySizes(c *Ctx) (l []string) {
	for _, n := range c.P.sizes(c.Thorough) {
		for _, k := range []string{"N", "#", "( N + N )", "N . N", "N ( N )", "N [ N ]", "Истина", "? ( N , N , N )"} {
			for _, o := range []string{"-", "Не", "- Не", "Не -", "- - Не"} {
				l = append(l, strings.Repeat(o+" ", n)+k, "N + "+strings.Repeat(o+" ", n)+k+" * N")
			}
		}
		for _, o := range []string{"-", "Не"} {
			l = append(l, strings.Repeat(o+" ( ", n)+"N"+strings.Repeat(" )", n), strings.Repeat(o+" N + ( ", n)+"N"+strings.Repeat(" )", n))
		}
	}
	for _, n := range c.P.bigSizes() {
		for _, o := range []string{"-", "Не", "- Не", "Не -", "- - Не"} {
			l = append(l, strings.Repeat(o+" ", n)+"N")
		}
	}
	return
}

// withSizes adds a layout whose indent is such a number, another for each tree.
func withSizes(c *Ctx, ks []conf, form string) []conf {
	h := fnv.New32a()
	h.Write([]byte(form))
	ns, i := c.P.sizes(c.Thorough), int(h.Sum32()>>8)
	if len(form) < 300 {
		ns = append(append([]int{}, ns...), c.P.bigSizes()...)
	}
	return append(append([]conf{}, ks...), conf{i%5 == 0, ns[i/5%len(ns)]})
}

// jumpSizes puts every jump inside and after nests and lists of those lengths.
func jumpSizes(c *Ctx) (l []string) {
	for _, n := range c.P.sizes(c.Thorough) {
		for i, w := range wraps {
			v := wraps[(i+3)%len(wraps)]
			pre, post := strings.Repeat(w.pre+" ", n), strings.Repeat(w.post+" ", n)
			mpre, mpost := strings.Repeat(w.pre+" "+v.pre+" ", n/2), strings.Repeat(v.post+" "+w.post+" ", n/2)
			list := strings.Repeat(w.pre+" "+w.post+" ", n)
			for ji, j := range jumps[:4] {
				for k, s := range []string{
					pre + j + " " + post, pre + post + j, mpre + j + " " + mpost, mpre + mpost + j,
					list + j, w.pre + " " + list + j + " " + w.post, w.pre + " " + v.pre + " " + list + v.post + " " + j + " " + w.post,
					w.pre + " " + rep("N ( ) ;", "", n) + " " + j + " " + w.post, rep("N ( ) ;", "", n) + " " + w.pre + " " + j + " " + w.post} {
					if c.Thorough {
						l = append(l, inHome(homes[1], s), s)
					}
					if c.Thorough || k < 2 || (i+ji+k+n)%3 == 0 {
						l = append(l, inHome(homes[2], s))
					}
				}
			}
		}
		subs := rep("Процедура N ( ) Возврат ; КонецПроцедуры Функция N ( ) Возврат N ; КонецФункции", "", (n+1)/2)
		for _, j := range jumps {
			l = append(l, subs+" "+j)
			for _, h := range homes[1:] {
				l = append(l, subs+" "+inHome(h, j))
			}
		}
	}
	for _, n := range c.P.bigSizes() {
		for _, w := range wraps {
			pre, post := strings.Repeat(w.pre+" ", n), strings.Repeat(w.post+" ", n)
			list := strings.Repeat(w.pre+" "+w.post+" ", n)
			for _, j := range jumps[:4] {
				l = append(l, thin([]string{inHome(homes[2], pre+j+" "+post), inHome(homes[2], pre+post+j), inHome(homes[2], list+j), inHome(homes[2], w.pre+" "+list+j+" "+w.post)}, n)...)
			}
		}
	}
	return
}

// operatorSizes are chains of operators of those lengths.
func operatorSizes(c *Ctx) (l []string) {
	for _, n := range c.P.sizes(c.Thorough) {
		for i, o := range refOps {
			l = append(l, "N"+strings.Repeat(" "+o+" N", n), strings.Repeat("N "+o+" ( ", n)+"N"+strings.Repeat(" )", n), "- N"+strings.Repeat(" "+o+" - N", n), "Не N"+strings.Repeat(" "+o+" Не N", n))
			for j, q := range refOps {
				if !c.Thorough && (i+j)%3 != 0 {
					continue
				}
				l = append(l, "N"+strings.Repeat(" "+o+" N "+q+" N", n/2), "N"+strings.Repeat(" "+o+" N", n)+" "+q+" N", "N "+q+" N"+strings.Repeat(" "+o+" N", n))
			}
		}
		s := "N"
		for i := 0; i < n; i++ {
			s += " " + refOps[(i*7)%len(refOps)] + " N"
			l = append(l, s)
		}
	}
	for _, n := range c.P.bigSizes() {
		for _, o := range refOps {
			l = append(l, thin([]string{"N" + strings.Repeat(" "+o+" N", n), strings.Repeat("N "+o+" ( ", n) + "N" + strings.Repeat(" )", n)}, n)...)
		}
	}
	return
}

// nameSizes are declarations of that many variables with one name again.
func nameSizes(c *Ctx) (l []string) {
	for _, n := range c.P.sizes(c.Thorough) {
		for _, sep := range []string{" , ", " ; Перем "} {
			var ids []string
			for i := 0; i < n; i++ {
				ids = append(ids, fmt.Sprintf("x%d", 10+i))
			}
			all := "Перем " + strings.Join(ids, sep) + " ;"
			for _, at := range []int{-1, 0, 1, n / 2, n - 1} {
				s := all
				if at >= 0 {
					s += " Перем " + ids[at] + " ;"
					two := append(append([]string{}, ids...), ids[at])
					l = append(l, "Перем "+strings.Join(two, sep)+" ;")
				}
				l = append(l, s, "Процедура N ( ) "+s+" КонецПроцедуры", "Функция N ( x1 ) "+s+" N = N ; КонецФункции")
			}
			l = append(l, "Процедура N ( ) "+all+" КонецПроцедуры Процедура N ( ) "+all+" КонецПроцедуры", all+" Процедура N ( ) "+all+" КонецПроцедуры N = N ;")
		}
		for _, s := range []string{"Если N Тогда N ( ) ; КонецЕсли", "N ( )", "Пока N Цикл КонецЦикла", "N = N"} {
			l = append(l, rep(s+" ;", "", n)+" "+s+" :", rep("~ : "+s+" ;", "", n)+" "+s+" : N ( ) ;")
		}
	}
	for _, n := range c.P.bigSizes() {
		for _, sep := range []string{" , ", " ; Перем "} {
			var ids []string
			for i := 0; i < n; i++ {
				ids = append(ids, fmt.Sprintf("x%d", 10+i))
			}
			all := "Перем " + strings.Join(ids, sep) + " ;"
			again := all + " Перем " + ids[n-1] + " ;"
			first := all + " Перем " + ids[0] + " ;"
			l = append(l, all, again, first, "Процедура N ( ) "+all+" КонецПроцедуры", "Процедура N ( ) "+again+" КонецПроцедуры", "Процедура N ( ) "+first+" КонецПроцедуры")
		}
	}
	return
}

// skipped leaves out most of the parts of a very long tree where each is looked
// at on its own.
func skipped(form string, n int) bool {
	k := len(form) / 4000
	return k > 0 && n >= 12 && n%(3*k*k) != 0
}

func sparse(form string, f func(path string, s Val, block bool)) func(string, Val, bool) {
	n := -1
	return func(path string, s Val, block bool) {
		if n++; !skipped(form, n) {
			f(path, s, block)
		}
	}
}
