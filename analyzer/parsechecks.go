package main

import (
	"fmt"
	"strings"
)

const howParse = "Abstract interpretation of the parser's SSA form (yyParse with its tables, every semantic action, and the helpers they call) on token sentences whose names and literals are opaque values; each partition's verdict and tree are compared with an independent reference reading of the same sentence. One sentence decides every text that differs from it only in names, literals and layout. "

func init() {
	checks["C01"] = checkDef{runC01, howParse + "Sentences: every nesting of loops, handlers and branches up to the stated depth, in the module body, in procedures and in functions, with each jump before, inside and after every inner construct, and after every sequence of complete constructs."}
	checks["C02"] = checkDef{runC02, howParse + "Every slot of the parser's value stack that has not been written by the construct holds marks of an earlier construct; no mark may reach a tree, and every tree must be the one of its own tokens, alone, after any other construct, inside any block and followed by any other construct."}
	checks["C03"] = checkDef{runC03, howParse + "Sentences: every construct with every optional part, every expression form in every slot of every other, in every place an expression can stand, every statement in every block, and all list lengths and skip patterns up to the stated bound."}
	checks["C04"] = checkDef{runC04, howParse + "Sentences: all sequences of binary operators up to the stated length over the thirteen operators, with unary prefixes on every operand, with every kind of operand and in every place an expression can stand."}
	checks["C06"] = checkDef{runC06, howParse + "Sentences: all sequences of module items (variables, procedures, functions, statements), all declaration lists over a small set of names, and every statement followed by a colon in every block."}
	checks["L04"] = checkDef{runL04, howParse + "Sentences: every rule violation in every place and followed by every kind of correct text, every rejected lexeme at every position of a text, and every single-token deletion, insertion and replacement of correct sentences; parsing must report an error for each sentence the reference rejects."}
}

type wrap struct{ pre, post string }

var wraps = []wrap{
	{"Для N = N По N Цикл", "КонецЦикла ;"},
	{"Для Каждого N Из N Цикл", "КонецЦикла ;"},
	{"Пока N Цикл", "КонецЦикла ;"},
	{"Попытка", "Исключение КонецПопытки ;"},
	{"Попытка Исключение", "КонецПопытки ;"},
	{"Попытка N ( ) ; Исключение", "КонецПопытки ;"},
	{"Если N Тогда", "КонецЕсли ;"},
	{"Если N Тогда ИначеЕсли N Тогда", "Иначе КонецЕсли ;"},
	{"Если N Тогда N ( ) ; Иначе", "КонецЕсли ;"},
}

var jumps = []string{"Прервать ;", "Продолжить ;", "ВызватьИсключение ;", "Возврат N ;", "Возврат ;", "ВызватьИсключение N ;"}

var homes = []wrap{{"", ""}, {"Процедура N ( )", "КонецПроцедуры"}, {"Функция N ( )", "КонецФункции"}}

func inHome(h wrap, s string) string { return strings.TrimSpace(h.pre + " " + s + " " + h.post) }

// jumpPlaces puts x at every place around and inside a nesting.
func jumpPlaces(ws []wrap, x string) []string {
	if len(ws) == 0 {
		return []string{x}
	}
	var out []string
	for _, in := range jumpPlaces(ws[1:], x) {
		out = append(out, ws[0].pre+" "+in+" "+ws[0].post)
	}
	full := ws[0].pre
	for _, w := range ws[1:] {
		full += " " + w.pre
	}
	for i := len(ws) - 1; i >= 0; i-- {
		full += " " + ws[i].post
	}
	out = append(out, x+" "+full, full+" "+x)
	return out
}

func runC01(c *Ctx) {
	c.rule = "verdict of the parser code = verdict of the reference contexts, per sentence"
	var l []string
	n := len(wraps)
	for _, h := range homes {
		for _, j := range jumps {
			for a := 0; a < n; a++ {
				for _, s := range jumpPlaces([]wrap{wraps[a]}, j) {
					l = append(l, inHome(h, s))
				}
				for b := 0; b < n; b++ {
					for _, s := range jumpPlaces([]wrap{wraps[a], wraps[b]}, j) {
						l = append(l, inHome(h, s))
					}
				}
			}
		}
	}
	agree(c, "nesting2", l)
	l = nil
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for d := 0; d < n; d++ {
				if !c.Thorough && (a+b+d)%2 != 0 {
					continue
				}
				for ji, j := range jumps[:4] {
					ps := jumpPlaces([]wrap{wraps[a], wraps[b], wraps[d]}, j)
					for _, s := range ps {
						// in a function all four matter; elsewhere only the value of a return differs
						l = append(l, inHome(homes[2], s))
						if c.Thorough || ji == 3 && (a+b+d)%3 == 0 {
							l = append(l, inHome(homes[1], s), s)
						}
					}
				}
			}
		}
	}
	agree(c, "nesting3", l)
	// sequences of complete constructs before the jump
	l = nil
	one := make([]string, n)
	for i, w := range wraps {
		one[i] = w.pre + " " + w.post
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for _, j := range jumps[:4] {
				l = append(l, one[a]+" "+one[b]+" "+j, inHome(homes[2], one[a]+" "+one[b]+" "+one[a]+" "+j))
				for _, w := range wraps[:6] {
					l = append(l, inHome(homes[2], w.pre+" "+one[a]+" "+one[b]+" "+j+" "+w.post))
				}
			}
		}
	}
	agree(c, "sequence", l)
	// procedures, functions and the module body in sequence
	l = nil
	for m := 0; m < 27; m++ {
		for at := 0; at < 4; at++ {
			for _, j := range jumps {
				s := ""
				k := m
				for i := 0; i < 3; i++ {
					body := "N = N ;"
					if i == at {
						body = j
					}
					h := homes[1+k%2]
					s += " " + inHome(h, body)
					k /= 3
				}
				if at == 3 {
					s += " " + j
				}
				l = append(l, s)
			}
		}
	}
	// constructs left in one sub must not reach the next
	for a := 0; a < n; a++ {
		for _, j := range jumps {
			for _, h := range homes[1:] {
				for _, g := range homes {
					l = append(l, inHome(h, one[a])+" "+inHome(g, j))
				}
			}
		}
	}
	agree(c, "subs", l)
	// jumps as the only content, without a separator, and deep nests of one kind
	l = nil
	for _, w := range wraps {
		for _, j := range jumps {
			jj := strings.TrimSuffix(j, " ;")
			l = append(l, inHome(homes[2], w.pre+" "+jj+" "+w.post))
			deep, end := "", ""
			for i := 0; i < 5; i++ {
				deep += w.pre + " "
				end += w.post + " "
				l = append(l, inHome(homes[2], deep+end+j), inHome(homes[2], deep+j+" "+end), inHome(homes[2], w.pre+" "+deep+end+j+" "+w.post))
			}
		}
	}
	agree(c, "deep", l)
	agree(c, "sizes", jumpSizes(c))
}

func stmtSet() []string {
	return append(append([]string{}, stmtForms...), "Пока N Цикл Прервать ; КонецЦикла", "Пока N Цикл Продолжить ; N = N КонецЦикла", "Попытка Исключение ВызватьИсключение ; КонецПопытки")
}

func runC02(c *Ctx) {
	c.rule = "no value outside the construct's own symbols reaches its tree (stale stack slots are marked; trees are compared with the construct's own reference tree)"
	var l []string
	st := stmtSet()
	for _, f := range exprs2() {
		l = append(l, "N = "+f+" ;", f)
	}
	agreeStale(c, "expr", l)
	l = nil
	for _, f := range st {
		for _, b := range append(blockPlaces, "Функция N ( ) N = N ; B КонецФункции") {
			l = append(l, subst(b, "B", 0, f))
		}
		for _, g := range st {
			l = append(l, f+" ; "+g+" ;")
		}
		// every block of the construct: empty, one statement, separators only
		for _, b := range []string{"N = N ;", "; ;", "N ( ) ; N ( )", "~ : N ( )"} {
			for i := 0; i < slotsOf(f, "B"); i++ {
				l = append(l, "N = N ; "+subst(f, "B", i, b)+" ; N ( ) ;")
			}
		}
	}
	agreeStale(c, "stmt", l)
	l = nil
	for _, f := range append(append([]string{}, subForms...), varForms...) {
		l = append(l, f, f+" N = N ;", f+" ; ;", f+" N = N")
		for _, g := range subForms {
			l = append(l, f+" "+g, subst(f, "B", 0, "N = N ;")+" "+g+" N = N ;", f+" "+subst(g, "B", 0, "N = N ;"))
		}
	}
	agreeStale(c, "subs", l)
	// a slice or map of one construct shared with the next would show when both grow
	l = nil
	for n := 0; n < 5; n++ {
		for m := 0; m < 5; m++ {
			l = append(l,
				"N ( "+rep("N", ",", n)+" ) ; N ( "+rep("N", ",", m)+" ) ; N ( ) ;",
				"N = N ( N ( "+rep("N", ",", n)+" ) , N ( "+rep("N", ",", m)+" ) , N ) ;",
				"Если N Тогда "+rep("N ( ) ;", "", n)+" Иначе "+rep("N ( ) ;", "", m)+" КонецЕсли ; N ( ) ;",
				"Если N Тогда "+rep("ИначеЕсли N Тогда N ( ) ;", "", n)+" КонецЕсли ; Если N Тогда "+rep("ИначеЕсли N Тогда N ( ) ;", "", m)+" КонецЕсли ;",
				"Процедура N ( "+rep("N", ",", n)+" ) "+rep("Перем N ;", "", n)+rep(" N ( ) ;", "", n)+" КонецПроцедуры Процедура N ( "+rep("N", ",", m)+" ) "+rep("Перем N ;", "", m)+rep(" N ( ) ;", "", m)+" КонецПроцедуры",
				rep("Перем N ;", "", n)+" Перем N "+rep(", N", "", m)+" ;")
		}
	}
	agreeStale(c, "lists", l)
	agreeStale(c, "sizes", sizeForms(c))
}

func rep(s, sep string, n int) string {
	var b []string
	for i := 0; i < n; i++ {
		b = append(b, s)
	}
	return strings.Join(b, " "+sep+" ")
}

// agreeStale is agree with marked stack slots.
func agreeStale(c *Ctx, family string, forms []string) {
	forms = uniq(forms)
	c.count("sentences_"+family, len(forms))
	each(c, forms, func(a *AbsParser, f string) {
		a.staleMode = true
		ts := toks(f)
		d, r := a.compare(ts)
		if d == "" {
			c.ok(family + ": " + surfToks(ts))
			return
		}
		c.fail(family+":"+f, whereOf(a, r), "%s: %q is %s", family, surfToks(ts), d)
	})
}

func runC03(c *Ctx) {
	c.rule = "tree of the parser code = reference tree, per sentence"
	agree(c, "expr", exprs2())
	var l []string
	es := append(append([]string{}, exprAtoms...), exprForms...)
	for _, p := range exprPlaces {
		for _, e := range es {
			l = append(l, subst(p, "E", 0, e))
		}
	}
	agree(c, "places", l)
	l = nil
	st := stmtSet()
	for _, b := range blockPlaces {
		for _, s := range st {
			l = append(l, subst(b, "B", 0, s))
			l = append(l, subst(b, "B", 0, s+" ; N = # ; N ( )"))
		}
	}
	// statements inside statements
	for _, f := range st {
		for i := 0; i < slotsOf(f, "B"); i++ {
			for _, g := range st {
				l = append(l, subst(f, "B", i, g+" ;")+" ;")
			}
		}
		for i := 0; i < slotsOf(f, "E"); i++ {
			for _, e := range es {
				if e == "+ E" && strings.HasPrefix(f, "Выполнить") {
					continue
				}
				l = append(l, subst(f, "E", i, e)+" ;")
			}
		}
	}
	agree(c, "stmt", l)
	agree(c, "same", sameForms())
	agree(c, "nested", nestedForms(c.Thorough))
	l = nil
	// lists
	max := 4
	if c.Thorough {
		max = 6
	}
	for n := 0; n <= max; n++ {
		l = append(l, "N ( "+rep("N", ",", n)+" )", "N = Новый N ( "+rep("N", ",", n)+" )", "N = N"+strings.Repeat(" . N", n), "N = N"+strings.Repeat(" [ N ]", n),
			"N = N"+strings.Repeat(" . N ( N )", n), rep("N ( ) ;", "", n), "Если N Тогда "+rep("ИначеЕсли N Тогда N ( ) ;", "", n)+" Иначе N ( ) ; КонецЕсли",
			"Процедура N ( "+rep("N", ",", n)+" ) КонецПроцедуры", "Функция N ( ) "+rep("Перем N ;", "", n)+" КонецФункции", "Процедура N ( ) "+rep("N ( ) ;", "", n)+" КонецПроцедуры",
			rep("Процедура N ( ) КонецПроцедуры", "", n)+rep(" N ( ) ;", "", n), rep("Перем N ;", "", n), "N = ( "+rep("N", ",", n)+" )")
		for bits := 0; bits < 1<<n; bits++ {
			args, params := make([]string, n), make([]string, n)
			for i := range args {
				params[i] = "N"
				if bits>>i&1 == 1 {
					args[i] = "N"
					params[i] = "Знач N = #"
				}
			}
			a := strings.Join(args, " , ")
			l = append(l, "N ( "+a+" )", "N = N . N ( "+a+" )", "N = Новый N ( "+a+" )", "N = Новый ( "+a+" )", "Процедура N ( "+strings.Join(params, " , ")+" ) КонецПроцедуры",
				"@ Функция N ( "+strings.ReplaceAll(strings.Join(params, " , "), "Знач ", "")+" ) Экспорт КонецФункции")
		}
	}
	for _, o := range refOps {
		l = append(l, "N = N "+o+" N", "N = N "+o+" N "+o+" N")
	}
	agree(c, "lists", l)
	agree(c, "sizes", sizeForms(c))
	l = append(append(declForms(), subForms...), varForms...)
	for _, f := range append(append([]string{}, subForms...), varForms...) {
		for _, g := range subForms {
			l = append(l, f+" "+g+" N = N ;")
		}
		for _, s := range st {
			if slotsOf(f, "B") > 0 {
				l = append(l, subst(f, "B", 0, s+" ; "+s))
			}
		}
	}
	for _, v := range varForms {
		for _, w := range varForms {
			l = append(l, v+" "+w+" N = N ;")
		}
	}
	agree(c, "declarations", l)
	if c.Thorough {
		agree(c, "expr3", exprs3())
		l = nil
		e2 := exprs2()
		for _, p := range exprPlaces {
			for _, e := range e2 {
				l = append(l, subst(p, "E", 0, e))
			}
		}
		agree(c, "places2", l)
	}
}

func runC04(c *Ctx) {
	c.rule = "grouping of the tree built by the parser code = grouping by the language's precedence table"
	var l []string
	pre := []string{"", "- ", "Не ", "+ ", "- - ", "Не Не ", "- Не ", "Не - "}
	for _, o := range refOps {
		for _, p := range pre {
			for _, q := range pre {
				l = append(l, p+"N "+o+" "+q+"N")
			}
		}
		for _, q := range refOps {
			for _, p := range []string{"", "- ", "Не ", "Не - "} {
				l = append(l, p+"N "+o+" N "+q+" N", "N "+o+" "+p+"N "+q+" N", "N "+o+" N "+q+" "+p+"N", p+"N "+o+" "+p+"N "+q+" "+p+"N")
			}
			l = append(l, "- ( N "+o+" N ) "+q+" N", "N "+o+" ( N "+q+" N )", "N "+o+" - ( N "+q+" N )", "Не ( N "+o+" N ) "+q+" N", "( N "+o+" N ) "+q+" ( N "+o+" N )")
			for _, r := range refOps {
				l = append(l, "N "+o+" N "+q+" N "+r+" N")
			}
		}
		for n := 3; n < 9; n++ {
			l = append(l, "N"+strings.Repeat(" "+o+" N", n))
		}
	}
	agree(c, "flat", wrapAssign(l))
	l = nil
	kinds := append(append([]string{}, exprAtoms...), exprForms[:24]...)
	for _, o := range refOps {
		for _, k := range kinds {
			l = append(l, k+" "+o+" N", "N "+o+" "+k, "- "+k+" "+o+" N", "N "+o+" - "+k+" * N", "Не "+k+" "+o+" N")
		}
	}
	agree(c, "operands", wrapAssign(l))
	// in every place: one representative of each pair of levels
	l = nil
	levels := []string{"ИЛИ", "И", "=", "<", "+", "-", "*", "/"}
	for _, p := range exprPlaces {
		for _, o := range levels {
			for _, q := range levels {
				l = append(l, subst(p, "E", 0, "N "+o+" N "+q+" N"))
			}
			l = append(l, subst(p, "E", 0, "- N "+o+" N"), subst(p, "E", 0, "Не N "+o+" N"), subst(p, "E", 0, "N "+o+" Не N "+o+" N"))
		}
	}
	agree(c, "places", l)
	agree(c, "sizes", wrapAssign(operatorSizes(c)))
	if c.Thorough {
		l = nil
		for _, o := range refOps {
			for _, q := range refOps {
				for _, r := range refOps {
					for _, s := range refOps {
						l = append(l, "N "+o+" N "+q+" N "+r+" N "+s+" N")
					}
					for _, p := range []string{"- ", "Не "} {
						l = append(l, "N "+o+" "+p+"N "+q+" N "+r+" N", "N "+o+" N "+q+" "+p+"N "+r+" N", p+"N "+o+" N "+q+" "+p+"N "+r+" N")
					}
				}
			}
		}
		agree(c, "flat4", wrapAssign(l))
	}
}

func wrapAssign(l []string) []string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = "N = " + s + " ;"
	}
	return out
}

func runC06(c *Ctx) {
	c.rule = "verdict and recorded declarations of the parser code = the declaration rules, per sentence"
	items := []string{"Перем x1 ;", "Перем x2 Экспорт ;", "@ Перем x1 , x3 ;", "Процедура N ( ) Перем x1 ; КонецПроцедуры", "@ Функция N ( x1 ) КонецФункции", "N = N ;"}
	var l []string
	var seq func(pre string, n int)
	seq = func(pre string, n int) {
		if pre != "" {
			l = append(l, pre)
		}
		if n == 0 {
			return
		}
		for _, i := range items {
			seq(strings.TrimSpace(pre+" "+i), n-1)
		}
	}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	seq("", depth)
	agree(c, "items", l)
	l = nil
	names := []string{"x1", "x2", "x3"}
	for n := 1; n <= 4; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= 3
		}
		for k := 0; k < total; k++ {
			ids := make([]string, n)
			for i, m := 0, k; i < n; i++ {
				ids[i] = names[m%3]
				m /= 3
			}
			// every way to cut the list into declarations
			for cut := 0; cut < 1<<(n-1); cut++ {
				s := "Перем " + ids[0]
				for i := 1; i < n; i++ {
					if cut>>(i-1)&1 == 1 {
						s += " ; Перем " + ids[i]
					} else {
						s += " , " + ids[i]
					}
				}
				s += " ;"
				l = append(l, s, "Процедура p1 ( x1 ) "+s+" КонецПроцедуры", "Функция p1 ( ) "+s+" x1 = x2 ; КонецФункции")
			}
		}
	}
	agree(c, "names", append(l, nameSizes(c)...))
	l = nil
	for _, a := range names[:2] {
		for _, b := range names[:2] {
			l = append(l, "Процедура p1 ( ) Перем "+a+" ; КонецПроцедуры Процедура p2 ( ) Перем "+b+" ; КонецПроцедуры", "Перем "+a+" ; Процедура p1 ( ) Перем "+b+" ; КонецПроцедуры", "Перем "+a+" ; Функция p1 ( "+b+" ) КонецФункции "+a+" = "+b+" ;")
		}
	}
	for _, v := range varForms {
		for _, w := range append([]string{""}, varForms...) {
			for _, t := range []string{"", "N = N ;", "Процедура N ( ) КонецПроцедуры", "@ Функция N ( ) КонецФункции N ( ) ;"} {
				l = append(l, v+" "+w+" "+t)
			}
		}
	}
	agree(c, "marks", append(l, varPairs()...))
	l = nil
	for _, s := range stmtSet() {
		for _, b := range blockPlaces {
			if strings.Contains(b, "B ;") {
				l = append(l, subst(strings.Replace(b, "B ;", "B :", 1), "B", 0, s))
				l = append(l, subst(strings.Replace(b, "B ;", "~ : B :", 1), "B", 0, s))
				l = append(l, subst(strings.Replace(b, "B ;", "~ : B ; ~ :", 1), "B", 0, s))
				l = append(l, subst(strings.Replace(b, "B ;", "B ; ~ : N ( ) ;", 1), "B", 0, s))
				l = append(l, subst(strings.Replace(b, "B ;", "B : N ( ) ;", 1), "B", 0, s))
			}
		}
	}
	agree(c, "colon", l)
}

// lexemes the tokeniser has to reject
var badLexemes = []string{"$", "!", "^", "{", "}", "|", "\\", "@", "`", "\x00", "\xff", "№", "\"абв", "\"абв\n", "'2020", "''", "'абв'", "'20201399'", "'1'", "12а", "1.2.3", "1_", "&Неизвестная", "&", "&1"}

func runL04(c *Ctx) {
	c.rule = "every sentence the reference rejects makes Parse return an error"
	agreeReject(c, "rules", ruleForms())
	// rejected lexemes at every position
	bases := []string{"", "N = N + # ;", "Процедура N ( N ) N = N ; КонецПроцедуры N ( ) ;", "Перем N ; Если N Тогда N ( N ) ; Иначе N = \" ; КонецЕсли ;", "N . N [ N ] = Новый N ( N )"}
	type bad struct {
		base string
		at   int
		lex  string
	}
	var bl []bad
	for _, b := range bases {
		n := len(strings.Fields(b))
		for i := 0; i <= n; i++ {
			for _, x := range badLexemes {
				bl = append(bl, bad{b, i, x})
			}
		}
	}
	// after a broken rule, before one, and between two
	var rl []string
	for i, b := range ruleForms() {
		if c.Thorough || i%5 == 0 {
			rl = append(rl, b)
		}
	}
	for i, b := range rl {
		n := len(toks(b))
		for j, x := range []string{"$", "№", "\"абв", "'2020", "12а", "&Неизвестная"} {
			if c.Thorough || (i+j)%3 == 0 {
				bl = append(bl, bad{b, n, x}, bad{b, n / 2, x}, bad{b, 0, x})
			}
		}
	}
	c.count("sentences_lexical", len(bl))
	each(c, bl, func(a *AbsParser, b bad) {
		ts := toks(b.base)
		full := append(append(append([]Tok{}, ts[:b.at]...), Tok{Surf: b.lex}), ts[b.at:]...)
		for _, r := range a.run(full, false) {
			key := fmt.Sprintf("lexical:%s:%d:%q", b.base, b.at, b.lex)
			if r.Out.bad() {
				c.fail(key, whereOf(a, &r), "%q at position %d of %q cannot be decided: %s", b.lex, b.at, surfToks(ts), outMsg([]Out{r.Out}))
				return
			}
			if rej, known := r.failed(); !rej || !known {
				c.fail(key, whereOf(a, &r), "no error is reported for the rejected lexeme %q at position %d of %q", b.lex, b.at, surfToks(ts))
				return
			}
		}
		c.ok(fmt.Sprintf("lexical: %q at %d of %s", b.lex, b.at, surfToks(ts)))
	})
	agreeReject(c, "edits", editForms())
	// rejected lexemes character by character
	fs := append(append(open(c), literalForms(c.Thorough)...), rejectForms()...)
	c.lexForms(fs, func(f lexForm, m lexMiss) {
		if m.kind == "accept" || m.kind == "undecided" {
			c.fail("accept:"+m.key, m.where, "%s", m.what)
		} else {
			c.count("differences_of_other_properties", 1)
		}
	})
}

// rejectForms are texts in which one character decides whether they are read.
func rejectForms() (fs []lexForm) {
	add := func(ps ...lexPart) { fs = append(fs, lexForm{name: partsName(ps), parts: ps}) }
	letter := fSet(rset{{'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {'А', 'я'}, {'Ё', 'Ё'}, {'ё', 'ё'}}.norm())
	any := fSet(allSet)
	for _, n := range []string{"1", "1.", "1.5", "0", "0.0", "10", "123456789", ".5", "1..2", "1.2.3", "5.5."} {
		for _, after := range []string{"", "5", "+5", "-5", ";", " 1", ".1"} {
			add(fLit(n), letter, fLit(after))
			add(fLit("x="+n), any, fLit(after))
		}
		add(fLit(n), letter, letter)
	}
	for _, o := range []string{"\"", "'", "\"x", "'2020", "\"x\n", "&", "&На", "&НаКлиент", "&НаСервереБез", "&НаКлиенте", "~", "x", ")", "\"x\"", "'20200101'"} {
		add(fLit(o), any)
		add(fLit("x="+o), any, any)
		add(fLit("x;"+o), any, fLit("x"))
	}
	return
}

// ruleForms break a rule of the language in every place, before every kind of text.
func ruleForms() (l []string) {
	wrong := []string{"Прервать ;", "Продолжить ;", "ВызватьИсключение ;", "Возврат N ;", "N = N :"}
	tails := append([]string{"", "N = N ;", "Прервать ;", "Пока N Цикл Прервать ; КонецЦикла ;", "N ( N ; N", "КонецЕсли"}, stmtForms...)
	for _, w := range wrong {
		for _, t := range tails {
			l = append(l, w+" "+t, "N = N ; "+w+" "+t, "Процедура N ( ) "+w+" КонецПроцедуры "+t, "Если N Тогда "+w+" КонецЕсли ; "+t)
		}
	}
	for _, d := range []string{"Перем x1 , x1 ;", "Перем x1 ; Перем x1 ;", "Процедура N ( ) Перем x1 , x1 ; КонецПроцедуры", "Функция N ( ) Перем x1 ; Перем x1 ; КонецФункции", "Процедура N ( ) КонецПроцедуры Перем x1 ;"} {
		for _, t := range append([]string{"Перем x2 ;", "Процедура N ( ) КонецПроцедуры", "Функция N ( ) Перем x2 ; КонецФункции"}, tails...) {
			l = append(l, d+" "+t)
		}
	}
	return l
}

// editForms are single-token deletions, insertions and replacements of correct
// sentences.
func editForms() (l []string) {
	repl := []string{"N", "#", ";", ":", ",", "(", ")", ".", "=", "+", "Если", "Тогда", "КонецЕсли", "Цикл", "КонецЦикла", "Процедура", "КонецПроцедуры", "КонецФункции", "Перем", "Экспорт", "Попытка", "Исключение", "КонецПопытки", "Не", "Новый", "Из", "По", "@", "~", "?", "[", "]", "Знач", "Каждого", "Иначе", "ИначеЕсли"}
	srcs := []string{"Если N Тогда N ( ) ; ИначеЕсли N Тогда N ( ) ; Иначе N ( ) ; КонецЕсли ;", "Для Каждого N Из N Цикл Прервать ; КонецЦикла ;", "Для N = # По N Цикл Продолжить ; КонецЦикла ;", "Пока N Цикл N ( N , N ) ; КонецЦикла ;", "Попытка N ( ) ; Исключение ВызватьИсключение ; КонецПопытки ;",
		"@ Функция N ( Знач N = # , N ) Экспорт Перем N , N ; Возврат N ; КонецФункции", "@ Перем N , N Экспорт ;", "Процедура N ( ) N = N ; КонецПроцедуры N = - N + ( N * # ) ;", "N = ? ( N , N , N ) ; N = Новый N ( N ) ; N . N [ N ] = N ;", "~ : N = N ; Перейти ~ ;"}
	for _, s := range srcs {
		ws := strings.Fields(s)
		for i := range ws {
			l = append(l, strings.Join(append(append([]string{}, ws[:i]...), ws[i+1:]...), " "))
			l = append(l, strings.Join(ws[:i], " "))
			for _, r := range repl {
				e := append([]string{}, ws...)
				e[i] = r
				l = append(l, strings.Join(e, " "))
				l = append(l, strings.Join(append(append(append([]string{}, ws[:i]...), r), ws[i:]...), " "))
			}
		}
	}
	return l
}

// agreeReject checks only that what the reference rejects is rejected.
func agreeReject(c *Ctx, family string, forms []string) {
	forms = uniq(forms)
	n := 0
	var rej []string
	for _, f := range forms {
		if _, p := refParse(toks(f)); p.syntax != nil || len(p.rules) > 0 {
			rej = append(rej, f)
			n++
		}
	}
	agree(c, family, rej)
}
