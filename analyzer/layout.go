package main

import (
	"fmt"
	"strings"
)

// layoutOf finds the first token of a printed text that is not laid out by its
// depth.
func layoutOf(p printed, k conf) string {
	for i, t := range p.toks {
		if k.oneLine && strings.Contains(t.Gap, "\n") && t.Class != "directive" && !(i > 0 && p.toks[i-1].Class == "directive") {
			return fmt.Sprintf("a line break stands before %q (token %d)", t.Surf, i+1)
		}
	}
	if k.oneLine || p.ref == nil {
		return ""
	}
	starts := map[int]bool{}
	for _, m := range p.ref.marks {
		starts[m.at] = true
		if m.at >= len(p.toks) {
			continue
		}
		t := p.toks[m.at]
		nl := strings.LastIndex(t.Gap, "\n")
		if nl < 0 && m.at > 0 {
			return fmt.Sprintf("%q (token %d) does not start a line", t.Surf, m.at+1)
		}
		if in := t.Gap[nl+1:]; in != strings.Repeat(" ", k.margin*m.depth) {
			return fmt.Sprintf("%q (token %d) is indented by %d instead of %d", t.Surf, m.at+1, len(in), k.margin*m.depth)
		}
	}
	for i, t := range p.toks {
		if strings.Contains(t.Gap, "\n") && !starts[i] && t.Class != "directive" && !(i > 0 && p.toks[i-1].Class == "directive") {
			return fmt.Sprintf("a line break stands before %q (token %d), inside a statement", t.Surf, i+1)
		}
	}
	return ""
}

// runP09: the printed text is laid out by the nesting of its statements.
func runP09(c *Ctx) {
	c.rule = "line breaks and indents of the template = nesting of the statements it contains"
	l := append(moduleForms(c), placedForms()...)
	blocks := []string{"Если N Тогда S ИначеЕсли N Тогда S Иначе S КонецЕсли ;", "Пока N Цикл S КонецЦикла ;", "Для N = N По N Цикл S КонецЦикла ;", "Для Каждого N Из N Цикл S КонецЦикла ;", "Попытка S Исключение S КонецПопытки ;"}
	plainSt := []string{"N = N ;", "N ( ) ;", "~ : N = N ;", "Перейти ~ ;", "", "Возврат ;", "ВызватьИсключение N ;", "N = N ; N ( ) ;", "N . N ( N ) ; Перейти ~ ; N = N ;"}
	for _, b := range blocks {
		for _, d := range blocks {
			for _, e := range append(blocks, plainSt...) {
				in := strings.ReplaceAll(e, "S", "N = N ;")
				x := strings.ReplaceAll(b, "S", strings.ReplaceAll(d, "S", in))
				l = append(l, x, "Процедура N ( ) Перем N ; "+x+" КонецПроцедуры", "N = N ; "+x+" N = N ;")
			}
		}
	}
	deep := "N = N ;"
	for i := 0; i < 10; i++ {
		deep = strings.Replace(blocks[i%len(blocks)], "S", deep, 1)
		deep = strings.ReplaceAll(deep, "S", "N ( ) ;")
		l = append(l, deep, "Функция N ( ) "+deep+" КонецФункции")
	}
	l = uniq(l)
	ks := []conf{{false, 4}, {false, 1}, {true, 3}, {false, 0}}
	c.count("trees", len(l))
	where, whereS := a0where(c, "Print"), a0where(c, "PrintStatementWithConf")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		for _, k := range withSizes(c, ks, f) {
			for _, p := range a.print(r, k, nil) {
				if p.bad != "" {
					c.fail("tree:"+f, where, "printing %q cannot be decided: %s", surfToks(ts), p.bad)
					return
				}
				if p.ref == nil || p.ref.syntax != nil {
					c.count("unreadable_texts", 1) // P01
					continue
				}
				if d := layoutOf(p, k); d != "" {
					c.fail("tree:"+f, where, "the tree of %q (%s) prints as %q: %s", surfToks(ts), k, show(p.st, p.text), d)
					return
				}
				c.count("line_starts", len(p.ref.marks))
			}
		}
		v, _ := r.St.load(r.Node)
		bad := false
		r.St.stmtValues(v, "", 0, sparse(f, func(path string, s Val, block bool) {
			if !block || bad {
				return
			}
			for _, k := range ks[:1] {
				for _, p := range a.printStmt(r, s, k, nil) {
					if p.bad != "" || p.ref == nil || p.ref.syntax != nil {
						continue
					}
					if d := layoutOf(p, k); d != "" {
						c.fail("statement:"+f+path, whereS, "statement %s of %q (%s) prints as %q: %s", path, surfToks(ts), k, show(p.st, p.text), d)
						bad = true
						return
					}
				}
			}
		}))
		if !bad {
			c.ok("tree: " + surfToks(ts))
		}
	})
}

func init() {
	checks["P09"] = checkDef{runP09, "Abstract interpretation of the printer on trees of every construct and nesting; the printed template is read by the reference reader, which knows where statements, branches and blocks start and how deep they stand; each must start a line with the right indent, and the one-line layout must have no line break."}
}
