package main

import (
	"fmt"
	"strings"
)

const howPrint = "Abstract interpretation of the printer's SSA form on trees that the abstractly interpreted parser builds from sentences of opaque tokens. The printed text is a template of known characters and opaque values; it is cut into tokens by the language's lexical rules and read by the reference reader. "

func init() {
	checks["P01"] = checkDef{runP01, howPrint + "The tree read back must equal the printed one up to the stated normal form, for every construct with every optional part, every statement in every block, every expression form in every place, all list lengths up to the bound, as a module and as single statements."}
	checks["P02"] = checkDef{runP02, howPrint + "The tree read back must equal the printed one for every nesting of operators, groups, calls, indexes and ternaries three deep, in assignments and in the other places."}
	checks["P03"] = checkDef{runP03, howPrint + "Every operand kind under every sequence of unary operators, alone, inside every other form and in every place: the parser's tree must be the reference tree and the printed text must read back as it."}
	checks["P04"] = checkDef{runP04, howPrint + "Each tree is printed with maps iterated in opposite orders and twice in the same state: the templates must be identical. No function reachable from the printer may consult the clock, the environment, randomness, goroutines or addresses."}
	checks["P05"] = checkDef{runP05, "Abstract interpretation of Print, PrintStatement and Walk (with a callback that changes nothing) on trees of every construct: all memory reachable from the tree is compared before and after. JSON is decided by the rule that the value handed to encoding/json has no method of the repository that runs during encoding."}
	checks["P06"] = checkDef{runP06, howPrint + "The token sequences of all layouts of one tree must be the same and no two tokens may be glued."}
	checks["P07"] = checkDef{runP07, howPrint + "No partition may end in a panic (nil dereference, failed type assertion, index, slice or repeat count out of range) or re-enter a printing function with the arguments it already has; modules, every single statement and every single expression of each tree are printed under every layout."}
	checks["P08"] = checkDef{runP08, howPrint + "Every literal kind in every place and slot: the printed form of the value must be one the tokeniser reads back as the same value (shortest exact decimal for numbers, full layout for dates, the value between quotes for strings)."}
}

var allConfs = []conf{{false, 4}, {true, 4}, {false, 0}, {true, 0}, {false, 1}, {false, 7}, {true, 2}}

// moduleForms are trees of every construct of the language.
// siblingForms are two parts of one kind side by side, with different fillings:
// what one leaves behind must not show in the other.
func siblingForms() (l []string) {
	var subs []string
	for _, h := range [][2]string{{"Процедура N ( %) ", "КонецПроцедуры"}, {"Функция N ( %) ", "КонецФункции"}} {
		for _, b := range []string{"", "N ( ) ;", "N = N ; N ( ) ;", "Если N Тогда КонецЕсли ;", "Перем N ;", "Перем N ; N = N ;"} {
			for _, p := range []string{"", "N , N "} {
				subs = append(subs, strings.Replace(h[0], "%", p, 1)+b+" "+h[1])
			}
		}
	}
	for _, a := range subs {
		for _, b := range subs {
			l = append(l, a+" "+b)
		}
	}
	fill := []string{"", "N ( ) ;", "N = N ; N ( ) ;"}
	for _, f := range stmtForms {
		n := slotsOf(f, "B")
		if n == 0 {
			continue
		}
		var with []string
		for _, b := range fill {
			g := f
			for i := 0; i < n; i++ {
				g = subst(g, "B", 0, b)
			}
			with = append(with, g)
		}
		for _, a := range with {
			for _, b := range with {
				l = append(l, a+" ; "+b+" ;", "Пока N Цикл "+a+" ; КонецЦикла ; "+b+" ;")
			}
		}
	}
	calls := []string{"N ( )", "N ( N )", "N ( , )", "N . N ( N , N )", "Новый N ( N )", "Новый N", "N [ N ]", "( N , N )"}
	for _, a := range calls {
		for _, b := range calls {
			l = append(l, "N = "+a+" ; N = "+b+" ;", "N ( "+a+" , "+b+" ) ;")
		}
	}
	return
}

func moduleForms(c *Ctx) []string {
	var l []string
	st := stmtSet()
	for _, b := range blockPlaces {
		for _, s := range st {
			l = append(l, subst(b, "B", 0, s))
		}
	}
	for _, f := range st {
		for i := 0; i < slotsOf(f, "B"); i++ {
			for _, g := range st {
				l = append(l, subst(f, "B", i, g+" ; "+g+" ;")+" ;")
			}
		}
	}
	decl := append(append([]string{}, subForms...), varForms...)
	l = append(l, decl...)
	for _, f := range decl {
		for _, g := range subForms {
			l = append(l, f+" "+g+" N = N ;", f+" "+g)
		}
		l = append(l, f+" N = N ;")
	}
	for _, v := range varForms {
		for _, w := range varForms {
			l = append(l, v+" "+w, v+" "+w+" N ( ) ;")
		}
	}
	l = append(l, declForms()...)
	l = append(l, siblingForms()...)
	l = append(append(l, sameForms()...), nestedForms(c.Thorough)...)
	max := 4
	if c.Thorough {
		max = 6
	}
	for n := 0; n <= max; n++ {
		l = append(l, "N = N"+strings.Repeat(" . N", n), "N = N"+strings.Repeat(" [ N ]", n), "N = N"+strings.Repeat(" . N ( N )", n), rep("N ( ) ;", "", n),
			"Если N Тогда "+rep("ИначеЕсли N Тогда N ( ) ;", "", n)+" Иначе N ( ) ; КонецЕсли", "Если N Тогда "+rep("N ( ) ;", "", n)+" Иначе "+rep("N ( ) ;", "", n)+" КонецЕсли",
			"Функция N ( ) "+rep("Перем N ;", "", n)+rep("N ( ) ;", "", n)+" КонецФункции", rep("Процедура N ( ) КонецПроцедуры", "", n)+rep(" N ( ) ;", "", n), rep("Перем N ;", "", n), "N = ( "+rep("N", ",", n)+" )",
			"Пока N Цикл "+rep("N ( ) ;", "", n)+" КонецЦикла", "Попытка "+rep("N ( ) ;", "", n)+" Исключение "+rep("N ( ) ;", "", n)+" КонецПопытки")
		for bits := 0; bits < 1<<n; bits++ {
			args, params := make([]string, n), make([]string, n)
			for i := range args {
				params[i] = "N"
				if bits>>i&1 == 1 {
					args[i] = "N"
					params[i] = "Знач N = #"
				}
			}
			a := strings.Join(args, " , ")
			l = append(l, "N ( "+a+" )", "N = N . N ( "+a+" )", "N = Новый N ( "+a+" )", "N = Новый ( "+a+" )", "Процедура N ( "+strings.Join(params, " , ")+" ) КонецПроцедуры")
		}
	}
	// nested blocks
	for _, w := range wraps {
		for _, v := range wraps {
			for _, h := range homes {
				l = append(l, inHome(h, w.pre+" N = N ; "+v.pre+" N ( ) ; "+v.post+" N ( N ) ; "+w.post))
			}
		}
	}
	return append(l, shownSizes(c)...)
}

func placedForms() []string {
	var l []string
	es := append(append([]string{}, exprAtoms...), exprForms...)
	for _, p := range exprPlaces {
		for _, e := range es {
			l = append(l, subst(p, "E", 0, e))
		}
	}
	return l
}

func runP01(c *Ctx) {
	c.rule = "reference reading of the printed template = the printed tree"
	ks := confs[:2]
	if c.Thorough {
		ks = allConfs
	}
	roundTrip(c, "modules", moduleForms(c), ks)
	roundTrip(c, "places", placedForms(), ks)
	var l []string
	for _, e := range exprs2() {
		l = append(l, "N = "+e+" ;")
	}
	roundTrip(c, "expr", l, ks)
	// single statements
	l = append(moduleForms(c), placedForms()...)
	l = uniq(l)
	where := a0where(c, "PrintStatementWithConf")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "statement", f, ts)
		if r == nil {
			return
		}
		v, _ := r.St.load(r.Node)
		r.St.stmtValues(v, "", 0, sparse(f, func(path string, s Val, block bool) {
			if !block {
				return
			}
			t := r.St.term(s)
			want := canon(node("Module", "Body", listT(t)), a.ops)
			for _, k := range confs[:2] {
				for _, p := range a.printStmt(r, s, k, map[string]bool{}) {
					if p.ref != nil {
						p.ref.rules = nil // a jump alone stands outside its loop
					}
					if d := a.readsBack(p, want); d != "" {
						c.fail("statement:"+f+path, where, "statement %s of %q (%s) prints as %q: %s", path, surfToks(ts), k, show(p.st, p.text), d)
						return
					}
				}
			}
			c.count("statements_printed", 1)
			c.ok("statement " + t.K)
		}))
	})
}

func runP02(c *Ctx) {
	c.rule = "reference reading of the printed template groups every operand as the tree does"
	var l, m []string
	for _, e := range exprs3() {
		l = append(l, "N = "+e+" ;")
	}
	roundTrip(c, "assigned", l, confs[:1])
	for _, o := range refOps {
		for _, q := range refOps {
			m = append(m, "N = N "+o+" N "+q+" N ;", "N = N "+o+" ( N "+q+" N ) ;", "N = ( N "+o+" N ) "+q+" N ;", "N = ( N "+o+" N ) "+q+" ( N "+o+" N ) ;", "N = - ( N "+o+" N ) "+q+" N ;", "N = N "+o+" - ( N "+q+" N ) ;", "N = Не ( N "+o+" N ) "+q+" N ;",
				"N ( N "+o+" ( N "+q+" N ) ) ;", "N = N [ ( N "+o+" N ) "+q+" N ] ;", "N "+o+" ( N "+q+" N ) ;", "( N "+o+" N ) "+q+" N ;", "Если N "+o+" ( N "+q+" N ) Тогда КонецЕсли ;")
		}
	}
	for i := 4; i < 7; i++ {
		for _, o := range refOps {
			m = append(m, "N = N"+strings.Repeat(" "+o+" N", i)+" ;", "N = "+strings.Repeat("( N "+o+" ", i)+"N"+strings.Repeat(" )", i)+" ;", "N = "+strings.Repeat("N "+o+" ( ", i)+"N"+strings.Repeat(" )", i)+" ;")
		}
	}
	roundTrip(c, "operators", m, confs[:2])
	roundTrip(c, "sizes", wrapAssign(operatorSizes(c)), confs[:1])
	l = nil
	forms := groupForms
	for _, p := range exprPlaces {
		for _, f := range forms {
			n := slotsOf(f, "E")
			if n == 0 {
				l = append(l, subst(p, "E", 0, f))
			}
			for i := 0; i < n; i++ {
				for _, g := range forms {
					l = append(l, subst(p, "E", 0, subst(f, "E", i, g)))
				}
			}
		}
	}
	roundTrip(c, "places", l, confs[:1])
	if c.Thorough {
		l = nil
		for _, p := range exprPlaces {
			for _, e := range exprs3() {
				l = append(l, subst(p, "E", 0, e))
			}
		}
		roundTrip(c, "places3", l, confs[:2])
	}
}

func unaryForms() []string {
	var l []string
	kinds := append(append([]string{}, exprAtoms...), exprForms[:27]...)
	kinds = append(kinds, "( E + E )", "( E = E )", "( E И E )", "( ( E + E ) )", "( - E )", "( Не E )", "( ( - E ) )")
	pres := []string{"-", "Не", "- -", "Не Не", "- Не", "Не -", "+ -", "- +", "Не Не Не", "- - -", "Не - Не", "- Не -", "Не - -", "- Не Не", "Не Не -", "- - Не"}
	for _, k := range kinds {
		for _, p := range pres {
			l = append(l, p+" "+k)
		}
		for _, p := range pres[:6] {
			l = append(l, p+" ( "+k+" )", p+" ( - "+k+" )", p+" ( Не "+k+" )", "( "+p+" "+k+" )", "( "+p+" "+k+" , N )",
				"E + "+p+" "+k, p+" "+k+" * E", p+" "+k+" = E", "E И "+p+" "+k, "N ( "+p+" "+k+" )", "N ( N , "+p+" "+k+" )", "N [ "+p+" "+k+" ]", "? ( "+p+" "+k+" , N , N )", "? ( N , "+p+" "+k+" , "+p+" "+k+" )", "Новый N ( "+p+" "+k+" )", "N . N ( "+p+" "+k+" )")
		}
	}
	return l
}

func runP03(c *Ctx) {
	c.rule = "unary operators of tree and printed template = unary operators written"
	u := unaryForms()
	var l []string
	for _, e := range u {
		l = append(l, "N = "+e+" ;")
	}
	l = append(l, wrapAssign(unarySizes(c))...)
	agree(c, "recorded", l)
	roundTrip(c, "printed", l, confs[:1])
	l = nil
	for _, p := range exprPlaces {
		for _, k := range []string{"N", "#", "N ( N )", "N . N", "N [ N ]", "( N + N )", "? ( N , N , N )", "Новый N", "Истина"} {
			for _, q := range []string{"-", "Не", "- -", "Не Не", "- Не", "Не -"} {
				l = append(l, subst(p, "E", 0, q+" "+k), subst(p, "E", 0, q+" "+k+" + N"), subst(p, "E", 0, q+" ( "+k+" )"))
			}
		}
	}
	agree(c, "recorded_places", l)
	roundTrip(c, "printed_places", l, confs[:2])
}

func runP04(c *Ctx) {
	c.rule = "the template does not depend on map iteration order or on earlier printings"
	l := uniq(append(moduleForms(c), placedForms()...))
	l = append(l, "Перем N ; Перем N Экспорт ; @ Перем N , N ; Процедура N ( N ) Перем N ; Перем N , N , N ; N = N ; КонецПроцедуры Функция N ( ) Перем N , N ; Перем N ; КонецФункции N = N ;")
	c.count("trees", len(l))
	where := a0where(c, "Print")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		for _, k := range confs[:2] {
			texts := map[string]bool{}
			for _, rev := range []bool{false, true} {
				a.m.reverse = rev
				ps := a.print(r, k, nil)
				a.m.reverse = false
				for _, p := range ps {
					if p.bad != "" {
						c.fail("tree:"+f, where, "printing %q cannot be decided: %s", surfToks(ts), p.bad)
						return
					}
					texts[show(p.st, p.text)] = true
					// again, in the state the first printing left
					r2 := *r
					r2.St = p.st
					for _, q := range a.print(&r2, k, nil) {
						if q.bad != "" {
							c.fail("tree:"+f, where, "printing %q again cannot be decided: %s", surfToks(ts), q.bad)
							return
						}
						texts[show(q.st, q.text)] = true
					}
				}
			}
			if len(texts) > 1 {
				var b []string
				for t := range texts {
					b = append(b, fmt.Sprintf("%q", t))
				}
				c.fail("tree:"+f, where, "the tree of %q (%s) prints in different ways: %s", surfToks(ts), k, strings.Join(b, " / "))
				return
			}
		}
		c.ok("tree: " + surfToks(ts))
	})
	nondeterminism(c, []string{"Print", "PrintStatement", "PrintStatementWithConf"})
}

func runP06(c *Ctx) {
	c.rule = "token sequence of the template is the same under every layout"
	l := uniq(append(moduleForms(c), placedForms()...))
	for _, e := range exprs2() {
		l = append(l, "N = "+e+" ;")
	}
	c.count("trees", len(l))
	where := a0where(c, "Print")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		first, text := "", ""
		for _, k := range withSizes(c, allConfs, f) {
			for _, p := range a.print(r, k, nil) {
				if p.bad != "" {
					c.fail("tree:"+f, where, "printing %q cannot be decided: %s", surfToks(ts), p.bad)
					return
				}
				for _, n := range p.notes {
					if !n.lit {
						c.fail("tree:"+f, where, "the tree of %q (%s) prints as %q: %s", surfToks(ts), k, show(p.st, p.text), n.what)
						return
					}
				}
				s := tokText(p.toks)
				if text == "" {
					first, text = s, show(p.st, p.text)
				} else if s != first {
					c.fail("tree:"+f, where, "the tree of %q prints different tokens with %s and %s: %q and %q", surfToks(ts), allConfs[0], k, text, show(p.st, p.text))
					return
				}
			}
		}
		c.count("printings", len(allConfs))
		c.ok("tree: " + surfToks(ts))
	})
}

func tokText(ts []Tok) string {
	var b strings.Builder
	for _, t := range ts {
		if t.Class != "" {
			b.WriteString(t.Class + ":" + t.ID)
		} else {
			b.WriteString(t.Surf)
		}
		b.WriteByte(' ')
	}
	return b.String()
}

func runP07(c *Ctx) {
	c.rule = "no partition of printing ends in a panic or in endless recursion"
	l := append(moduleForms(c), placedForms()...)
	for _, e := range exprs2() {
		l = append(l, "N = "+e+" ;")
	}
	u := unaryForms()
	for i, e := range u {
		if c.Thorough || i%3 == 0 {
			l = append(l, "N = "+e+" ;")
		}
	}
	l = append(l, "Процедура N ( ) КонецПроцедуры "+strings.Repeat("Если N Тогда ", 12)+strings.Repeat("КонецЕсли ; ", 12), "N = N"+strings.Repeat(" . N ( N [ N ] )", 12)+" ;", "N = "+strings.Repeat("( ", 20)+"N"+strings.Repeat(" )", 20)+" ;")
	l = uniq(l)
	c.count("trees", len(l))
	where := a0where(c, "Print")
	each(c, l, func(a *AbsParser, f string) {
		a.m.recCheck = true
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		for _, k := range withSizes(c, []conf{{false, 4}, {true, 0}}, f) {
			for _, p := range a.print(r, k, nil) {
				if p.bad != "" {
					c.fail("module:"+f, where, "printing the tree of %q (%s): %s", surfToks(ts), k, p.bad)
					return
				}
			}
		}
		v, _ := r.St.load(r.Node)
		bad := false
		r.St.stmtValues(v, "", 0, sparse(f, func(path string, s Val, _ bool) {
			if bad {
				return
			}
			for _, p := range a.printStmt(r, s, conf{false, 4}, nil) {
				if p.bad != "" {
					c.fail("statement:"+f+path, where, "printing %s of %q: %s", path, surfToks(ts), p.bad)
					bad = true
					return
				}
			}
			c.count("statements_printed", 1)
		}))
		if !bad {
			c.ok("tree: " + surfToks(ts))
		}
	})
}

func runP08(c *Ctx) {
	c.rule = "the printed form of a literal reads back as its value"
	lits := []string{"#", "- #", `"`, "'", "Истина", "Ложь", "Неопределено", "- - #", "Не Истина"}
	var l []string
	for _, p := range exprPlaces {
		for _, k := range lits {
			l = append(l, subst(p, "E", 0, k))
		}
	}
	for _, f := range exprForms {
		for i := 0; i < slotsOf(f, "E"); i++ {
			for _, k := range lits {
				l = append(l, "N = "+subst(f, "E", i, k)+" ;")
			}
		}
	}
	for _, k := range lits[:7] {
		l = append(l, "Процедура N ( N = "+k+" ) КонецПроцедуры", "Функция N ( N , Знач N = "+k+" , N = # ) КонецФункции")
	}
	l = append(l, `Выполнить "`)
	roundTrip(c, "literals", l, confs)
	// and as single expressions
	l = uniq(l)
	where := a0where(c, "PrintStatementWithConf")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "literals", f, ts)
		if r == nil {
			return
		}
		v, _ := r.St.load(r.Node)
		r.St.stmtValues(v, "", 0, sparse(f, func(path string, s Val, _ bool) {
			t := r.St.term(s)
			if t == nil || t.K != "" && t.K != "$minus" && t.K != "UndefinedStatement" || t.list {
				return
			}
			if strings.HasSuffix(path, ".For") {
				return // the loop variable's name
			}
			want := canon(node("Module", "Body", listT(t)), a.ops)
			for _, p := range a.printStmt(r, s, confs[0], nil) {
				if d := a.readsBack(p, want); d != "" {
					c.fail("literal:"+f+path, where, "the literal %s of %q prints as %q: %s", path, surfToks(ts), show(p.st, p.text), d)
					return
				}
			}
			c.count("literals_printed", 1)
			c.ok("literal " + t.String())
		}))
	})
}
