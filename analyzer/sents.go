package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
)

// Families of abstract sentences. A form is a list of words: N a fresh name,
// # a fresh number, " a fresh string, ' a fresh date, ~ a fresh label, @ a
// directive, E an expression slot, B a block slot, anything else is itself.
// Names and literals stay opaque, so one sentence stands for all texts that
// differ only in them and in their layout.

type gen struct{ n int }

func (g *gen) fresh(k string) string {
	g.n++
	return fmt.Sprintf("%s%d", k, g.n)
}

// fill expands a form; slots are filled from fillers in order (default N).
func fill(g *gen, form string, slots ...string) []string {
	var out []string
	i := 0
	for _, w := range strings.Fields(form) {
		switch w {
		case "N":
			out = append(out, g.fresh("a"))
		case "#":
			out = append(out, g.fresh("#"))
		case `"`:
			out = append(out, `"`+g.fresh("s")+`"`)
		case "'":
			g.n++
			out = append(out, fmt.Sprintf("'%d'", g.n))
		case "~":
			out = append(out, "~"+g.fresh("l"))
		case "@":
			out = append(out, g.fresh("@"))
		case "E", "B":
			f := "N"
			if w == "B" {
				f = ""
			}
			if i < len(slots) && slots[i] != "" {
				f = slots[i]
			}
			i++
			out = append(out, fill(g, f)...)
		default:
			out = append(out, w)
		}
	}
	return out
}

func slotsOf(form, w string) int { return strings.Count(" "+form+" ", " "+w+" ") }

// subst replaces the i-th slot word of a form by another form.
func subst(form, w string, i int, by string) string {
	ws := strings.Fields(form)
	for j := range ws {
		if ws[j] == w {
			if i == 0 {
				ws[j] = by
				break
			}
			i--
		}
	}
	return strings.Join(ws, " ")
}

func toks(form string) []Tok { return sent(strings.Join(fill(&gen{}, form), " ")) }

// expression forms
var exprAtoms = []string{"N", "#", `"`, "'", "Истина", "Ложь", "Неопределено"}

var exprForms = []string{
	"N ( )", "N ( E )", "N ( E , E )", "N ( E , , E )", "N ( , E )", "N ( E , )", "N ( , , )",
	"N . N", "N . N . N", "N . N ( E )", "N ( E ) . N", "N ( E ) . N ( E )",
	"N [ E ]", "N [ E ] [ E ]", "N ( E ) [ E ]", "N [ E ] . N", "N . N [ E ] . N ( E )", "N . N ( E ) [ E ]", "N ( E ) [ E ] . N [ E ]",
	"? ( E , E , E )",
	"Новый N", "Новый N ( )", "Новый N ( E )", "Новый N ( E , , E )", "Новый N ( , E )", "Новый N ( E , )", "Новый ( E )", "Новый ( E , E )", "Новый ( E , , E )",
	"( E )", "( E , E )", "( E , , E )", "( , E )", "( E , )", "( , )", "( )",
	"- E", "Не E", "+ E",
	"E + E", "E = E", "E И E",
}

// forms whose grouping matters most
var groupForms = []string{"N", "#", "Истина", "( E )", "- E", "Не E", "E - E", "E * E", "E = E", "E < E", "E И E", "E ИЛИ E", "N ( E )", "N [ E ]", "N . N", "? ( E , E , E )", "Новый N ( E )"}

// statement forms with every optional part
var stmtForms = []string{
	"N = E", "N . N = E", "N [ E ] = E", "N ( E ) . N = E", "N . N [ E ] = E", "N . N ( E ) [ E ] = E",
	"N ( E )", "N . N ( E )", "N ( )",
	"Если E Тогда B КонецЕсли",
	"Если E Тогда B Иначе B КонецЕсли",
	"Если E Тогда B ИначеЕсли E Тогда B КонецЕсли",
	"Если E Тогда B ИначеЕсли E Тогда B Иначе B КонецЕсли",
	"Если E Тогда B ИначеЕсли E Тогда B ИначеЕсли E Тогда B ИначеЕсли E Тогда B Иначе B КонецЕсли",
	"Для N = E По E Цикл B КонецЦикла",
	"Для Каждого N Из N Цикл B КонецЦикла",
	"Для Каждого N Из N . N ( E ) Цикл B КонецЦикла",
	"Для Каждого N Из N [ E ] Цикл B КонецЦикла",
	"Для Каждого N Из Новый N ( E ) Цикл B КонецЦикла",
	"Для Каждого N Из ( Новый N ( E ) ) Цикл B КонецЦикла",
	"Для Каждого N Из ? ( E , E , E ) Цикл B КонецЦикла",
	"Пока E Цикл B КонецЦикла",
	"Попытка B Исключение B КонецПопытки",
	"ВызватьИсключение E",
	"Перейти ~",
	"Выполнить ( E )", "Выполнить N", `Выполнить "`,
	"Возврат",
	"Новый N ( E )", "- E", "Не E", "E + E", "E И E", "( E )", "? ( E , E , E )", "( E ) = E",
}

// statements allowed only inside something
var loopStmts = []string{"Прервать", "Продолжить"}

var subForms = []string{
	"Процедура N ( ) B КонецПроцедуры",
	"Процедура N ( N ) B КонецПроцедуры",
	"Процедура N ( N , N , N ) Экспорт B КонецПроцедуры",
	"@ Процедура N ( Знач N , N ) B КонецПроцедуры",
	"@ Процедура N ( N , Знач N = # , N = \" ) Экспорт B КонецПроцедуры",
	"Процедура N ( N = Неопределено , N = Истина , N = - # , N = ' , N = Ложь , N = + # ) B КонецПроцедуры",
	"Процедура N ( ) Перем N ; B КонецПроцедуры",
	"Процедура N ( ) Перем N , N ; Перем N ; B КонецПроцедуры",
	"Функция N ( ) B КонецФункции",
	"Функция N ( Знач N = # ) Экспорт B КонецФункции",
	"@ Функция N ( N , N ) B КонецФункции",
	"@ Функция N ( ) Экспорт Перем N , N , N ; B КонецФункции",
}

var varForms = []string{"Перем N ;", "Перем N Экспорт ;", "Перем N , N ;", "Перем N , N , N Экспорт ;", "@ Перем N ;", "@ Перем N , N Экспорт ;"}

// declForms are declarations with every kind of parameter and variable list in
// every position, with and without the marks that can stand on them.
func declForms() (l []string) {
	var params []string
	for _, d := range []string{"", " = #", " = - #", " = + #", ` = "`, " = '", " = Истина", " = Ложь", " = Неопределено"} {
		params = append(params, "N"+d, "Знач N"+d)
	}
	heads := [][2]string{{"Процедура N", "КонецПроцедуры"}, {"Функция N", "КонецФункции"}}
	for _, h := range heads {
		for _, dir := range []string{"", "@ "} {
			for _, exp := range []string{"", "Экспорт "} {
				sub := func(ps ...string) {
					l = append(l, dir+h[0]+" ( "+strings.Join(ps, " , ")+" ) "+exp+h[1])
				}
				for i, p := range params {
					sub(p)
					sub(p, "N")
					sub("N", p)
					if dir == "" && exp == "" {
						sub("Знач N = #", p, "N")
						for j := range params {
							if (i*7+j)%3 == 0 {
								sub(p, params[j])
							}
						}
					}
				}
				for _, v := range []string{"Перем N ;", "Перем N , N ;", "Перем N ; Перем N , N ;"} {
					for _, b := range []string{"", "N = N ;", "Возврат ; N = #"} {
						l = append(l, dir+h[0]+" ( N ) "+exp+v+" "+b+" "+h[1])
					}
				}
			}
		}
	}
	for _, dir := range []string{"", "@ "} {
		for _, exp := range []string{"", "Экспорт "} {
			for n := 1; n <= 4; n++ {
				l = append(l, dir+"Перем "+rep("N", ",", n)+" "+exp+";")
			}
		}
	}
	return
}

// varPairs are two and three declarations of module variables whose names and
// marks agree or differ in every combination.
func varPairs() (l []string) {
	var d []string
	for _, n := range []string{"x1", "x2", "x1 , x2", "x2 , x1", "x3 , x1", "x1 , x2 , x3"} {
		for _, dir := range []string{"", "@ "} {
			for _, exp := range []string{"", "Экспорт "} {
				d = append(d, dir+"Перем "+n+" "+exp+";")
			}
		}
	}
	for i, a := range d {
		for j, b := range d {
			l = append(l, a+" "+b)
			if (i+j)%5 == 0 {
				l = append(l, a+" Перем x4 ; "+b, a+" "+b+" Процедура N ( ) КонецПроцедуры")
			}
		}
	}
	// several names again at once
	for _, p := range []string{"x1 , x2 , x3", "x3 , x2 , x1", "x2 , x4 , x1", "x2 , x2 , x1 , x1", "x4 , x4 , x2"} {
		l = append(l, "Перем x1 , x2 , x3 ; Перем "+p+" ;", "Процедура N ( ) Перем x1 , x2 , x3 ; Перем "+p+" ; КонецПроцедуры", "Функция N ( x1 ) Перем x3 , x2 ; Перем x1 ; Перем "+p+" ; N = N ; КонецФункции")
	}
	return
}

// exprs2 is every expression form with every other form in every slot.
func exprs2() []string {
	out := append(append([]string{}, exprAtoms...), exprForms...)
	all := append(append([]string{}, exprAtoms...), exprForms...)
	for _, f := range exprForms {
		for i := 0; i < slotsOf(f, "E"); i++ {
			for _, s := range all {
				out = append(out, subst(f, "E", i, s))
			}
		}
	}
	return out
}

// exprs3 nests the grouping forms three deep.
func exprs3() []string {
	var out []string
	for _, f := range groupForms {
		for i := 0; i < slotsOf(f, "E"); i++ {
			for _, g := range groupForms {
				n := slotsOf(g, "E")
				f1 := subst(f, "E", i, g)
				for j := 0; j < n; j++ {
					for _, h := range groupForms {
						out = append(out, subst(f1, "E", i+j, h))
					}
				}
			}
		}
	}
	return out
}

// exprPlaces are the places of the language an expression can stand in.
var exprPlaces = []string{
	"N = E ;", "N . N = E ;", "N [ E ] = N ;", "E ;",
	"N ( E ) ;", "N . N ( N , E ) ;", "Новый N ( E ) ;", "Новый ( E ) ;",
	"Если E Тогда КонецЕсли ;", "Если N Тогда ИначеЕсли E Тогда КонецЕсли ;",
	"Пока E Цикл КонецЦикла ;", "Для N = E По N Цикл КонецЦикла ;", "Для N = N По E Цикл КонецЦикла ;",
	"Для Каждого N Из N ( E ) Цикл КонецЦикла ;",
	"ВызватьИсключение E ;", "Функция N ( ) Возврат E ; КонецФункции",
	"N = ? ( E , N , N ) ;", "N = ? ( N , E , N ) ;", "N = ? ( N , N , E ) ;",
	"N = N [ E ] ;", "N = ( E ) ;", "N = ( E , N ) ;", "N = ( N , E ) ;", "Выполнить ( E ) ;",
	"N ( E ) . N = N ;", "N = N . N ( E ) ;",
}

// blockPlaces are the places a statement can stand in (one B slot).
var blockPlaces = []string{
	"B ;", "N = N ; B ;", "B ; N = N ;", "; B ; ;", "B",
	"Если N Тогда B ; КонецЕсли ;", "Если N Тогда N ( ) ; Иначе B ; КонецЕсли ;",
	"Если N Тогда ИначеЕсли N Тогда B ; КонецЕсли ;", "Если N Тогда N ( ) ; ИначеЕсли N Тогда N ( ) ; ИначеЕсли N Тогда B ; Иначе N ( ) ; КонецЕсли ;",
	"Для N = N По N Цикл B ; КонецЦикла ;", "Для Каждого N Из N Цикл B ; КонецЦикла ;", "Пока N Цикл B ; КонецЦикла ;",
	"Попытка B ; Исключение КонецПопытки ;", "Попытка Исключение B ; КонецПопытки ;", "Попытка N ( ) ; Исключение B КонецПопытки ;",
	"Процедура N ( ) B ; КонецПроцедуры", "Функция N ( ) B ; КонецФункции", "Процедура N ( N ) Перем N ; B КонецПроцедуры",
	"Процедура N ( ) B ; КонецПроцедуры Функция N ( ) N ( ) ; КонецФункции N ( ) ;",
	"Перем N ; Процедура N ( ) N = N ; КонецПроцедуры B ;",
	"~ : B ;", "N = N ; ~ : B ;",
}

// each runs f on all items in parallel, one parser evaluator per worker.
func each[T any](c *Ctx, items []T, f func(a *AbsParser, it T)) {
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	ch := make(chan T)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var broken any
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			a, err := newAbsParser(c.P)
			if err != nil {
				mu.Lock()
				broken = err
				mu.Unlock()
				for range ch {
				}
				return
			}
			for it := range ch {
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							broken = fmt.Sprintf("%v on %v", r, it)
							mu.Unlock()
							if debugOn {
								panic(r)
							}
						}
					}()
					f(a, it)
				}()
			}
			c.count("sentences_interpreted", a.evals)
			c.count("instructions_interpreted", a.total)
		}()
	}
	for _, it := range items {
		ch <- it
	}
	close(ch)
	wg.Wait()
	if broken != nil {
		c.fail("internal", "analyser", "the property could not be decided: %v", broken)
	}
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// agree requires the parser code and the reference to read each sentence alike.
func agree(c *Ctx, family string, forms []string) {
	forms = uniq(forms)
	c.count("sentences_"+family, len(forms))
	each(c, forms, func(a *AbsParser, f string) {
		ts := toks(f)
		d, r := a.compare(ts)
		if d == "" {
			c.ok(family + ": " + surfToks(ts))
			return
		}
		c.fail(family+":"+f, whereOf(a, r), "%s: %q is %s", family, surfToks(ts), d)
	})
}

func surfToks(ts []Tok) string {
	var b []string
	for _, t := range ts {
		if t.ID != "" && t.Class != "directive" && t.Class != "date" && t.Class != "string" {
			b = append(b, t.ID)
		} else {
			b = append(b, t.Surf)
		}
	}
	return strings.Join(b, " ")
}

func whereOf(a *AbsParser, r *ParseRes) string {
	if r != nil && r.Out.Pos != "" {
		return r.Out.Pos
	}
	return "ast/grammar.y, " + a.p.pos(a.parse.Pos())
}

// sameForms are modules whose names agree where they may: the other families
// give every name of a sentence a text of its own.
func sameForms() (l []string) {
	one := func(f string) string {
		f = strings.Join(fill(&gen{}, f), " ")
		ws := strings.Fields(f)
		for i, w := range ws {
			if len(w) > 1 && (w[0] == 'a' || w[0] == 'l') && w[1] >= '0' && w[1] <= '9' {
				ws[i] = "x1"
			} else if strings.HasPrefix(w, "~") {
				ws[i] = "~x1"
			}
		}
		return strings.Join(ws, " ")
	}
	add := func(f string) {
		f = one(f)
		if _, p := refParse(toks(f)); p.syntax == nil && len(p.rules) == 0 {
			l = append(l, f)
		}
	}
	// parameters
	var params []string
	for _, d := range []string{"", " = #", " = Истина", ` = "`} {
		params = append(params, "N"+d, "Знач N"+d)
	}
	for i, a := range params {
		for j, b := range params {
			for k, h := range []string{"Процедура x0 ( %s ) КонецПроцедуры", "@ Функция N ( %s ) Экспорт N = N ; КонецФункции"} {
				add(fmt.Sprintf(h, a+" , "+b))
				if (i+j+k)%3 == 0 {
					add(fmt.Sprintf(h, a+" , "+b+" , "+params[(i+2*j)%len(params)]))
					add(fmt.Sprintf(h, a+" , x2 , "+b))
				}
			}
		}
	}
	// expressions and statements of one name
	for _, e := range exprForms {
		add("N = " + e + " ;")
		for i := 0; i < slotsOf(e, "E"); i++ {
			for _, s := range []string{"N ( N )", "N . N", "N [ N ]", "N + N", "( N )", "N = N"} {
				add("N = " + subst(e, "E", i, s) + " ;")
			}
		}
	}
	var st []string
	for _, s := range append(stmtSet(), "Прервать", "Продолжить", "Возврат N", "~ : N = N") {
		st = append(st, s)
		for i := 0; i < slotsOf(s, "B"); i++ {
			st = append(st, subst(s, "B", i, "N = N ; N = N ;"))
		}
	}
	for _, s := range st {
		for _, h := range []string{"%s ;", "Пока N Цикл %s ; КонецЦикла ;", "Для Каждого N Из N Цикл Если N Тогда %s ; КонецЕсли ; КонецЦикла ;", "Функция N ( N ) %s ; КонецФункции", "Попытка %s ; Исключение %[1]s ; КонецПопытки ;"} {
			add(fmt.Sprintf(h, s))
			add(fmt.Sprintf(h, s+" ; "+s))
			add(fmt.Sprintf(h, s+" ; "+s+" ; "+s))
			add(fmt.Sprintf(h, s+" ; N ( N ) ; "+s))
		}
	}
	// procedures, labels and jumps
	for _, a := range subForms {
		add(a + " " + a)
		add(a + " N ( N ) ;")
		add(strings.ReplaceAll(a, " B ", " N = N ; N ( ) ; ") + " N = N ;")
	}
	for _, f := range []string{"~ : Перейти ~ ;", "Перейти ~ ; Перейти ~ ; ~ : N = N ;", "N = N ; N = N ; N = N ;", "N ( N , N , N ) ; N ( N , N , N ) ;", "N . N . N ( N ) . N = N ;"} {
		add(f)
	}
	return uniq(l)
}

// nestedForms are every statement inside two constructs and at several depths,
// in every kind of home, with a statement after it.
func nestedForms(thorough bool) (l []string) {
	hs := append(append([]wrap{}, homes...), wrap{"Функция N ( N ) Экспорт", "КонецФункции"}, wrap{"@ Процедура N ( Знач N , N = # ) Экспорт", "КонецПроцедуры"},
		wrap{"@ Функция N ( ) Перем N , N ;", "КонецФункции"}, wrap{"Процедура N ( ) КонецПроцедуры Функция N ( )", "КонецФункции N ( ) ;"})
	st := append(stmtSet(), "Прервать", "Продолжить", "Возврат N", "Возврат N + N", "Возврат ? ( N , N , N )", "Возврат N ( N , N )", "ВызватьИсключение", "~ : N = N", "Перейти ~")
	add := func(h wrap, s string) {
		f := inHome(h, s)
		if _, p := refParse(toks(f)); p.syntax == nil && len(p.rules) == 0 {
			l = append(l, f)
		}
	}
	for i, s := range st {
		k := 0
		for w := range wraps {
			for v := range wraps {
				if !thorough && (i+w+v)%3 != 0 {
					continue
				}
				for d := range hs {
					if thorough || (i+d+k)%3 == 0 {
						add(hs[d], wraps[w].pre+" "+wraps[v].pre+" "+s+" ; N ( ) ; "+wraps[v].post+" "+wraps[w].post)
					}
				}
				k++
			}
		}
		for d := 1; d <= 6; d++ {
			for o := range wraps {
				if !thorough && (o+i)%3 != 0 {
					continue
				}
				in := s + " ; N ( ) ;"
				for j := 0; j < d; j++ {
					w := wraps[(o+j*(1+o%3))%len(wraps)]
					in = w.pre + " " + in + " " + w.post
				}
				add(hs[(i+d+o)%len(hs)], in)
			}
		}
	}
	return uniq(l)
}
