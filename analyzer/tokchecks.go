package main

import (
	"fmt"
	"sort"
	"strings"
)

// The families of texts on which the tokeniser's code is compared with the
// reference reading, and the checks L01, L02, L03, L05 and L06.

var allSet = rset{{0, 0xd7ff}, {0xe000, 0x10ffff}}

// firstClasses partitions all characters by what the language does with them;
// the partition only shares the work out, it need not be exact.
func firstClasses() []lexPart {
	var out []lexPart
	rest := allSet
	add := func(s rset) {
		out = append(out, fSet(s))
		rest = rest.minus(s)
	}
	for _, c := range "\"'/#&~<>.|" {
		add(rset{{int64(c), int64(c)}})
	}
	add(spaceSet)
	add(digitSet)
	add(rset{{'А', 'Я'}, {'Ё', 'Ё'}, {'а', 'я'}, {'ё', 'ё'}}.norm())
	add(letters.and(rest))
	add(rset{{0, 0x7f}}.and(rest))
	add(rest)
	for _, b := range []rset{{{0x80, 0xbf}}, {{0xc0, 0xdf}}, {{0xe0, 0xef}}, {{0xf0, 0xff}}} {
		out = append(out, fRaw(b))
	}
	return out
}

// openForms are all texts of up to n characters, valid UTF-8 or not.
func openForms(n int) []lexForm {
	fs := []lexForm{{name: "empty text"}}
	for i, p := range firstClasses() {
		fs = append(fs, lexForm{name: fmt.Sprintf("class %d, then any %d", i, n-1), parts: []lexPart{p}, tail: n - 1})
	}
	return fs
}

func form(name string, tail int, alpha rset, parts ...lexPart) lexForm {
	return lexForm{name: name, parts: parts, tail: tail, alpha: byWidth(alpha)}
}

// seqs are all sequences of up to n of the items.
func seqs(items [][]lexPart, n int) [][]lexPart {
	out := [][]lexPart{nil}
	last := out
	for i := 0; i < n; i++ {
		var next [][]lexPart
		for _, l := range last {
			for _, it := range items {
				next = append(next, append(append([]lexPart{}, l...), it...))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func partsName(ps []lexPart) string {
	var b strings.Builder
	for _, p := range ps {
		switch {
		case p.raw:
			b.WriteString("‹byte›")
		case p.set != nil:
			b.WriteString("‹" + setName(p.set) + "›")
		default:
			b.WriteString(p.lit)
		}
	}
	return fmt.Sprintf("%q", b.String())
}

func setName(s rset) string {
	n := s.size()
	if n > 6 {
		return fmt.Sprintf("%d characters", n)
	}
	var b strings.Builder
	s.each(func(v int64) bool { b.WriteRune(rune(v)); return true })
	return b.String()
}

// unfinished are texts that end in the middle of a token, and texts made of the
// characters that open, close and continue tokens.
func unfinishedForms(n int) []lexForm {
	mix := runes("\"'/#|\n x0&~.<")
	var fs []lexForm
	for _, s := range []string{"\"", "'", "//", "#", "&", "~", "\"x\n", "\"x\n|", "\"x\n//", "\"x\" ", "'2020", "1.", "x.", "<", "/"} {
		fs = append(fs, form("after "+s, n, mix, fLit(s)))
	}
	return fs
}

// spellings are ways to write a keyword in upper and lower case.
func spellings(kw string, thorough bool) [][]lexPart {
	rs := []rune(kw)
	both := func(r rune) lexPart { return fSet(caseSet(r)) }
	one := func(r rune) bool { return caseSet(r).size() == 1 }
	var out [][]lexPart
	seen := map[string]bool{}
	add := func(up func(i int) bool, free ...int) {
		var ps []lexPart
		for i, r := range rs {
			isFree := false
			for _, f := range free {
				isFree = isFree || f == i
			}
			switch {
			case one(r):
				ps = append(ps, fLit(string(r)))
			case isFree:
				ps = append(ps, both(r))
			case up(i):
				ps = append(ps, fLit(strings.ToUpper(string(r))))
			default:
				ps = append(ps, fLit(string(r)))
			}
		}
		if k := partsName(ps); !seen[k] {
			seen[k] = true
			out = append(out, ps)
		}
	}
	no := func(int) bool { return false }
	yes := func(int) bool { return true }
	if len(rs) <= 5 || thorough && len(rs) <= 8 {
		var all []int
		for i := range rs {
			all = append(all, i)
		}
		add(no, all...)
		return out
	}
	for i := range rs {
		if i%2 == 0 || thorough {
			add(no, i, i+1)
			add(yes, i, i+1)
		}
	}
	add(func(i int) bool { return i%2 == 0 })
	add(func(i int) bool { return i%2 == 1 })
	add(func(i int) bool { return i < len(rs)/2 })
	add(func(i int) bool { return i >= len(rs)/2 })
	return out
}

func wordForms(thorough bool) []lexForm {
	var fs []lexForm
	add := func(ps ...lexPart) { fs = append(fs, lexForm{name: partsName(ps), parts: ps}) }
	cat := func(a string, ps []lexPart, b string) []lexPart {
		var r []lexPart
		if a != "" {
			r = append(r, fLit(a))
		}
		r = append(r, ps...)
		if b != "" {
			r = append(r, fLit(b))
		}
		return r
	}
	all := append(append([]string{}, langKeywords...), langDirectives...)
	ru := rset{{'А', 'Я'}, {'а', 'я'}}
	for _, kw := range all {
		rs := []rune(kw)
		dir := rs[0] == '&'
		for _, sp := range spellings(kw, thorough) {
			add(sp...)
		}
		// one letter more, less or different
		add(fLit(kw), fSet(words))
		if !dir {
			add(fSet(words.minus(digitSet)), fLit(kw))
		}
		for i := range rs {
			if i == 0 && dir || !thorough && len(rs) > 6 && i%3 != 0 {
				continue
			}
			s := ru
			if thorough {
				s = letters
			}
			add(fLit(string(rs[:i])), fSet(s), fLit(string(rs[i+1:])))
			if len(rs) > 1 && !(dir && len(rs) == 2) {
				add(fLit(string(rs[:i])), fLit(string(rs[i+1:])))
			}
		}
		if dir {
			continue
		}
		up := strings.ToUpper(kw)
		tit := strings.ToUpper(string(rs[:1])) + string(rs[1:])
		for _, w := range []string{kw, up, tit} {
			add(cat("x.", []lexPart{fLit(w)}, " "+w)...)
		}
		add(cat("x.", []lexPart{fLit(tit)}, "."+tit+"("+tit+")")...)
		add(cat("x. \n//"+tit+"\n#"+tit+"\n", []lexPart{fLit(tit)}, ";"+tit)...)
		add(fLit("x."), fSet(spaceSet), fLit(tit), fSet(spaceSet), fLit(tit))
		add(fLit("x"), fSet(runes(";,()[]=+-*/%?:<>")), fLit(tit))
		add(fLit("x.("), fLit(tit))
		add(fLit("\"x\""), fLit(tit), fLit("1"))
		add(fLit("'20200101'"), fLit(tit), fLit("\"x\""))
	}
	return fs
}

func layoutForms(thorough bool) []lexForm {
	var fs []lexForm
	notNL := allSet.minus(runes("\n"))
	items := [][]lexPart{{fSet(spaceSet)}, {fLit("//"), fSet(notNL), fLit("\n")}, {fLit("#"), fSet(notNL), fLit("\n")}}
	n := 2
	if thorough {
		n = 3
	}
	var tok = runes("aяЯ_7\"'&~;.</(")
	for _, t := range seqs(items, n) {
		next := runes("aЯ7\"'/#&~ \n.<ᲀ\x00|€𐍈")
		if len(t) < 2 || thorough {
			next = nil
		}
		fs = append(fs, form("layout "+partsName(t)+" and one more", 1, next, t...))
		ps := append([]lexPart{fSet(runes("xЯ7);"))}, t...)
		fs = append(fs, form("between "+partsName(t), 0, nil, append(ps, fSet(tok), fSet(runes("x= /")))...))
		ps = append([]lexPart{fLit("\"x\"")}, t...)
		fs = append(fs, form("after a string "+partsName(t), 1, tok, ps...))
	}
	// longer sequences of fixed pieces
	fixed := [][]lexPart{{fLit(" ")}, {fLit("\n")}, {fLit("\t")}, {fLit("\r\n")}, {fLit("//\n")}, {fLit("//x\r\n")}, {fLit("// \"|'\n")}, {fLit("#\n")}, {fLit("#x // y\n")}, {fLit("\n//#\n")}, {fLit("///\n")}}
	k := 3
	if thorough {
		k = 4
	}
	for _, t := range seqs(fixed, k) {
		if !thorough && len(t) == 3 && (len(t[0].lit)+len(t[1].lit)*3+len(t[2].lit)*5)%4 != 0 {
			continue
		}
		ps := append([]lexPart{fLit("x")}, t...)
		fs = append(fs, form("pieces "+partsName(t), 0, nil, append(ps, fLit("y"))...))
		if len(t) <= 2 {
			fs = append(fs, form("pieces at the end "+partsName(t), 0, nil, ps...))
			fs = append(fs, form("pieces at the start "+partsName(t), 0, nil, append(append([]lexPart{}, t...), fLit("1"))...))
		}
	}
	long := strings.Repeat("//Если \"x\n", 60) + strings.Repeat("#Область y\n", 60) + strings.Repeat(" \t\r\n", 60)
	fs = append(fs, form("many comments", 0, nil, fLit("x"), fLit(long), fLit("y"), fLit(long)))
	// comments without a line end, comments that hold token characters
	for _, s := range []string{"//", "#", "x//", "x #", "// \n//", "#\n//", "//\n#", "///", "//\"", "#'", "//|"} {
		fs = append(fs, form("open "+s, 2, runes("/#\n x\"'|"), fLit(s)))
	}
	// between all pairs of tokens
	toks := []string{"Имя", "Если", "12", "1.5", "\"s\"", "'20200101'", "&НаКлиенте", "~м", "=", ".", ";", "(", ")", ",", "-", "+", "*", "/", "?", "[", "]", ":", "%", "<", ">", "<>", "<=", ">="}
	for _, a := range toks {
		for _, b := range toks {
			fs = append(fs, form("pair "+a+" "+b, 0, nil, fLit(a), fSet(spaceSet), fLit(b)))
			fs = append(fs, form("adjacent "+a+b, 0, nil, fLit(a+b)))
			if thorough {
				fs = append(fs, form("commented pair "+a+" "+b, 0, nil, fLit(a+" // c\n"), fLit(b)))
			}
		}
	}
	return fs
}

func literalForms(thorough bool) []lexForm {
	var fs []lexForm
	add := func(ps ...lexPart) { fs = append(fs, lexForm{name: partsName(ps), parts: ps}) }
	rep := func(p lexPart, n int) []lexPart {
		var r []lexPart
		for i := 0; i < n; i++ {
			r = append(r, p)
		}
		return r
	}
	ru := fSet(rset{{'А', 'Я'}, {'Ё', 'Ё'}, {'а', 'я'}, {'ё', 'ё'}}.norm())
	dg := fSet(digitSet)
	hard := fSet(runes("ѐѓӐԀÀàßİıſKÅßǅᲀяЯ"))
	// names
	add(ru, ru, fLit("_"), dg, ru)
	add(fLit("x"), fSet(words), fSet(words))
	add(fLit("_"), dg, dg, ru)
	add(hard, hard, fLit("1"))
	add(append(append([]lexPart{fLit("Ы")}, rep(dg, 3)...), fLit("_x"))...)
	add(fLit(strings.Repeat("Ёлка_1", 70)), fLit("="), fLit(strings.Repeat("abcЯ", 90)))
	for _, n := range []int{9, 10, 11, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257} {
		add(fLit(strings.Repeat("я", n)), ru, fLit(" "+strings.Repeat("z", n)), fSet(rset{{'a', 'z'}}))
	}
	// numbers
	add(dg, dg, dg)
	add(dg, dg, fLit("."), dg, dg)
	add(dg, fLit("."))
	add(dg, fLit("."), dg, fLit("."), dg)
	add(dg, dg, fSet(rset{{'A', 'Z'}, {'a', 'z'}}))
	add(dg, fLit(".5"), ru)
	for _, s := range []string{"0", "00", "007", "1.0", "0.1", "12345678901234567890", "9007199254740993", "0.30000000000000004", "123456789.987654321", strings.Repeat("9", 40), "0." + strings.Repeat("0", 30) + "1", "1" + strings.Repeat("0", 308)} {
		add(fLit(s))
		add(fLit(s), fSet(runes(" ;)+-,]")), fLit(s))
	}
	// a text is a number exactly when it fits
	add(fLit(strings.Repeat("9", 309)))
	// strings
	str := fSet(allSet.minus(runes("\"\n")))
	plain := fSet(runes("xЯ '|/#"))
	q := fLit("\"")
	add(q, str, str, q)
	add(q, str, fLit("\"\""), str, q)
	add(q, fLit("\"\""), q)
	add(q, fLit("\"\"\"\""), str, q)
	add(q, str, fLit("\"\"\"\""), q, fLit("x"))
	add(q, plain, plain, plain, q, fSet(runes("x;)7")))
	add(q, plain, fLit("\n|"), plain, q)
	add(q, plain, fLit("\n"), fSet(spaceSet), fLit("|"), plain, q)
	add(q, plain, fLit("\n"), fSet(spaceSet), fSet(spaceSet), fLit("|"), plain, q)
	add(q, fLit("x\n|"), plain, fLit("\n\t|"), plain, q)
	add(q, fLit("x\n//"), str, fLit("\n|"), plain, q)
	add(q, fLit("x\n \t//"), plain, fLit("\n//"), plain, fLit("\n |y"), q)
	add(q, fLit("x\n|\n|"), plain, q)
	add(q, fLit("x\n|\"\""), plain, q)
	add(q, fLit("x\n||"), plain, fLit("|"), q)
	add(q, fLit("x\r\n|"), plain, q)
	add(q, fLit("x//"), plain, fLit("\n|//"), plain, q)
	add(q, fLit("x\n"), fSet(allSet.minus(runes("|# \t\r\n/"))), q)
	add(q, plain, q, fSet(spaceSet), q, plain, q)
	add(q, plain, q, fLit(" \n\t"), q, plain, q, fLit("\n"), q, plain, q)
	add(q, plain, q, fLit("\n|"), plain, q)
	add(q, plain, q, fLit(" //x\n"), q, plain, q)
	add(q, fLit("x"), q, fLit("\n"), fLit("#y\n"), q, plain, q)
	add(q, fLit("Если; КонецЕсли"), plain, q)
	add(q, q, q, q)
	add(q, q, fSet(spaceSet), q, q)
	add(q, q, fSet(spaceSet), q, plain, q, fLit(";"))
	add(q, fRaw(rset{{0x80, 0xff}}), fLit("x"), q)
	add(q, fLit(strings.Repeat("текст 'x' // ", 40)), plain, q, fLit(";"))
	add(q, fLit(strings.Repeat("строка\n\t|", 40)), plain, q, fLit("=x"))
	add(q, fLit(strings.Repeat("\"\"", 20)), plain, q)
	// dates
	ap := fLit("'")
	nd := fSet(allSet.minus(runes("'\n")).minus(digitSet))
	add(ap, fLit("202001"), dg, fLit("1"), ap)
	add(ap, fLit("2020"), dg, fLit("101"), ap)
	add(ap, fLit("20200"), dg, dg, fLit("1"), ap)
	add(ap, fLit("20200101"), dg, fLit("00"), dg, ap)
	add(ap, fLit("202001011"), dg, fLit("1"), dg, ap)
	add(ap, fLit("2020010112"), dg, fLit("0"), dg, dg, ap)
	add(ap, fLit("2020"), nd, fLit("12"), nd, fLit("31"), ap)
	add(ap, fLit("2020-12-31T23:59:59"), ap, fLit(";"))
	add(ap, nd, fLit("20201231"), nd, ap)
	add(ap, nd, ap)
	add(ap, ap)
	for n := 1; n <= 16; n++ {
		add(ap, fLit(strings.Repeat("0", n)), ap)
		add(ap, fLit(("2020123123595912")[:n]), ap, fLit(" "), dg)
	}
	for n := 17; n <= 40; n++ {
		add(ap, fLit(strings.Repeat("0", n)), ap)
		add(ap, fLit(strings.Repeat("20201231", 5)[:n]), ap)
		add(ap, fLit("20201231"+strings.Repeat("-", n)), ap)
	}
	add(ap, fLit("20201231"), ap, fSet(runes(" \n")), ap, fLit("20200101"), ap)
	add(ap, fLit("20201231"), ap, ap, fLit("20200101"), ap)
	add(ap, fLit("20201231"), ap, fSet(runes(" \n")), q, plain, q)
	add(q, plain, q, fSet(runes(" \n")), ap, fLit("20201231"), ap)
	add(ap, fLit("2020\"1231"), ap, fLit("x"))
	// labels and directives
	add(fLit("~"), ru, ru, fLit(":"))
	add(fLit("~"), fSet(words), fSet(runes(" ;:")), fLit("x"))
	add(fLit("~Если;"))
	for _, d := range langDirectives {
		add(fLit(d), fSet(runes(" \n;(")), ru)
		add(fLit(d), fSet(allSet.minus(words)))
	}
	// values
	for _, w := range []string{"Истина", "ЛОЖЬ", "Неопределено", "истина", "ложь", "НЕОПРЕДЕЛЕНО"} {
		add(fLit("x="), fLit(w), fSet(runes(";) \n")))
		add(fLit("x."), fLit(w), fLit(";"), fLit(w))
	}
	if thorough {
		add(ru, ru, ru, ru)
		add(dg, dg, dg, dg, fLit("."), dg, dg)
		add(q, str, str, str, q)
		add(q, str, fLit("\n|"), str, fLit("\"\""), str, q)
		add(ap, dg, dg, dg, dg, fLit("0101"), ap)
		add(ap, fLit("2020"), dg, dg, dg, dg, ap)
		add(ap, fLit("20200101"), dg, dg, dg, dg, ap)
		add(ap, nd, fLit("2020"), nd, nd, fLit("0101"), nd, ap)
	}
	return fs
}

var lexTrusted = []string{"go/ssa represents the source faithfully", "the models of strings, unicode, utf8, strconv.ParseFloat and time.Parse",
	"the reference tokeniser lexref.go says what the language's words are"}

// ofKinds are the differences of the given kinds; none of the others is this
// property's.
func ofKinds(kinds ...string) func(m lexMiss) bool {
	own := map[string]bool{}
	for _, k := range kinds {
		own[k] = true
	}
	return func(m lexMiss) bool { return own[m.kind] }
}

func lexCheck(rule string, forms func(c *Ctx) []lexForm, own func(m lexMiss) bool) checkDef {
	return checkDef{func(c *Ctx) {
		c.assume = lexTrusted
		c.rule = rule
		fs := forms(c)
		c.lexForms(fs, func(f lexForm, m lexMiss) {
			if m.kind != "undecided" && !own(m) {
				c.count("differences_of_other_properties", 1)
				return
			}
			c.fail(m.kind+":"+m.key, m.where, "%s", m.what)
		})
	}, "Abstract interpretation of the tokeniser's SSA form on texts whose characters are sets of values (all characters, and bytes that are not UTF-8), split only where the code or the reference asks; each cell's token is compared with an independent reference reading of the same text. Rule: " + rule}
}

func open(c *Ctx) []lexForm {
	if c.Thorough {
		return append(openForms(3), unfinishedForms(4)...)
	}
	return append(openForms(2), unfinishedForms(2)...)
}

// runG02: no partition of parsing, printing, walking or serialising panics.
func runG02(c *Ctx) {
	c.rule = "no partition of parsing a text, or of printing, walking or serialising what was parsed, ends in a panic; nothing reachable ends the process"
	c.assume = lexTrusted
	e := newEffects(c.P, apiFuncs(c.P))
	c.count("functions_reachable", len(e.order))
	for _, cs := range e.calls {
		if cs.ext == nil {
			continue
		}
		pkg, name := extName(cs.ext)
		if exitCall(pkg, cs.ext) {
			c.fail("exit:"+cs.in.String()+":"+name, c.P.posRaw(cs.i.Pos()), "%s calls %s, which ends the process or the goroutine (reached by %s)", cs.in, name, e.via(cs.in))
		}
	}
	c.count("call_sites", len(e.calls))
	c.ok("calls that end the process")
	// whole texts, character by character
	n := 1
	if c.Thorough {
		n = 2
	}
	fs := openForms(n)
	for _, x := range []string{"x", "x.", "\"s\"", "x=", "x=1;", "Если x Тогда ", "Перем x;", "//c\n", "'20200101'", "&НаКлиенте "} {
		for _, p := range firstClasses() {
			fs = append(fs, lexForm{name: x + " then " + partsName([]lexPart{p}), parts: []lexPart{fLit(x), p}, tail: n - 1})
		}
	}
	fs = append(fs, literalForms(c.Thorough)...)
	fs = append(fs, literalSizes(c)...)
	for i := range fs {
		fs[i].parse = true
	}
	c.lexForms(fs, func(f lexForm, m lexMiss) {
		if m.kind == "panic" || m.kind == "undecided" {
			c.fail(m.kind+":"+m.key, m.where, "%s", m.what)
		}
	})
	// sentences of opaque tokens, correct and wrong
	l := append(moduleForms(c), placedForms()...)
	l = append(l, ruleForms()...)
	ed := editForms()
	for i, f := range ed {
		if c.Thorough || i%4 == 0 {
			l = append(l, f)
		}
	}
	for _, a := range []string{"Перем x1 ;", "Перем x1 , x1 ;", "@ Перем x1 Экспорт ;", "Процедура N ( ) Перем x1 ; Перем x1 ; КонецПроцедуры", "Функция N ( N , N = # ) Перем x1 , x2 ; КонецФункции"} {
		for _, b := range []string{"", "Перем x1 ;", "Перем x2 ;", "N = N", "Прервать", "Процедура N ( ) Перем x1 , x1 ; КонецПроцедуры"} {
			l = append(l, a+" "+b, b+" "+a)
		}
	}
	l = uniq(l)
	c.count("sentences", len(l))
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		bad := false
		judge := func(what string, o Out) bool {
			if o.bad() {
				c.fail(what+":"+f, o.Pos, "%s %q: %s", what, surfToks(ts), outMsg([]Out{o}))
				bad = true
			}
			return !o.bad()
		}
		for _, r := range a.run(ts, false) {
			if !judge("parsing", r.Out) {
				continue
			}
			r := r
			for _, k := range []conf{{false, 4}, {true, 0}} {
				st := r.St.clone()
				cv, err := a.confVal(st, k)
				fn := c.P.method("AstNode", "Print")
				if err != nil || fn == nil {
					c.fail("print", "ast/ast_print.go", "method Print of AstNode or its settings not found")
					return
				}
				a.m.steps = 0
				for _, o := range a.m.call(st, fn, []Val{r.Node, cv}, nil, nil) {
					judge("printing", o)
				}
				c.count("printings", 1)
			}
			if _, _, d := a.walkModule(&r); d != "" {
				c.fail("walking:"+f, walkWhere(c, "Walk"), "walking %q: %s", surfToks(ts), d)
				bad = true
			}
			if d := a.jsonCall(&r); d != "" {
				c.fail("serialising:"+f, a0where(c, "JSON"), "serialising %q: %s", surfToks(ts), d)
				bad = true
			}
		}
		if !bad {
			c.ok("sentence: " + surfToks(ts))
		}
	})
}

func init() {
	checks["G02"] = checkDef{runG02, "The parser's, printer's, walker's and JSON method's SSA form is interpreted on whole texts of opaque characters and on sentences of opaque tokens, correct and wrong; every branch that ends in a panic (index, slice, nil, type assertion, map write, explicit panic, library contract) is reported, and so is every reachable call that ends the process."}
	checks["L01"] = lexCheck("the grammar's automaton cannot reduce for ever without reading; on every text of the analysed families, each token read ends, consumes a character or ends the text, and so does the reading of the whole text", func(c *Ctx) []lexForm {
		n, loops := endlessReductions(c.T)
		c.count("left_corner_edges", n)
		if len(loops) == 0 {
			c.ok("no production of the grammar can be reduced for ever")
		}
		for _, l := range loops {
			c.fail("grammar:"+l, "ast/grammar.y", "parsing does not come to an end: %s", l)
		}
		return open(c)
	}, ofKinds("loop"))
	checks["L02"] = lexCheck("on every text of the analysed families the tokeniser's code indexes inside the text, does not panic and stops between characters; reporting an error there does not panic either", func(c *Ctx) []lexForm {
		fs := append(append(open(c), literalForms(c.Thorough)...), literalSizes(c)...)
		for i := range fs {
			fs[i].errors = true
		}
		return fs
	}, ofKinds("panic", "cut"))
	checks["L03"] = lexCheck("a word is a keyword exactly when it is spelled like one in some letter case and does not follow a dot", func(c *Ctx) []lexForm { return append(wordForms(c.Thorough), literalSizes(c)...) }, func(m lexMiss) bool {
		switch m.kind {
		case "word":
			return true
		case "reject", "kind", "skip", "text":
			return isWord(m.token.kind) || m.token.kind == "dir"
		case "accept":
			return strings.Contains(m.key, "directive")
		}
		return false
	})
	checks["L05"] = lexCheck("the tokens start where white space, // comments and # lines end, and every other character belongs to a token or is an error", func(c *Ctx) []lexForm { return append(append(open(c), layoutForms(c.Thorough)...), layoutSizes(c)...) }, ofKinds("skip", "accept", "reject"))
	checks["L06"] = lexCheck("each token has the kind, text and value of the characters it is made of", func(c *Ctx) []lexForm {
		return append(append(open(c), literalForms(c.Thorough)...), literalSizes(c)...)
	}, ofKinds("text", "kind", "accept", "reject"))
}

// norm sorts the ranges and joins adjacent ones.
func (a rset) norm() rset {
	b := append(rset{}, a...)
	sort.Slice(b, func(i, j int) bool { return b[i].lo < b[j].lo })
	var r rset
	for _, x := range b {
		if n := len(r); n > 0 && x.lo <= r[n-1].hi+1 {
			r[n-1].hi = max(r[n-1].hi, x.hi)
		} else {
			r = append(r, x)
		}
	}
	return r
}

// byWidth splits a set by the number of bytes its characters take.
func byWidth(s rset) (out []rset) {
	for _, w := range allChars {
		if x := s.and(w); len(x) > 0 {
			out = append(out, x)
		}
	}
	return
}

// endlessReductions names the cycles in which the parser could reduce for ever
// without reading: a nonterminal that derives itself, or that starts with itself
// after a part that can be empty.
func endlessReductions(t *LALR) (edges int, out []string) {
	t.first(t.Prods[1].LHS)
	null := func(s Sym) bool { return s < 0 && t.nullable[s] }
	type edge struct {
		to   Sym
		bad  bool
		prod int
	}
	left, unit := map[Sym][]edge{}, map[Sym][]edge{}
	for r := 1; r < len(t.Prods); r++ {
		p := t.Prods[r]
		if !p.OK {
			continue
		}
		for i, s := range p.RHS {
			if s < 0 {
				left[p.LHS] = append(left[p.LHS], edge{s, i > 0, r})
				edges++
				rest := true
				for _, q := range p.RHS[i+1:] {
					rest = rest && null(q)
				}
				if rest {
					unit[p.LHS] = append(unit[p.LHS], edge{s, true, r})
				}
			}
			if !null(s) {
				break
			}
		}
	}
	check := func(g map[Sym][]edge, what string) {
		var from []Sym
		for s := range g {
			from = append(from, s)
		}
		sort.Slice(from, func(i, j int) bool { return from[i] > from[j] })
		for _, s := range from {
			for _, e := range g[s] {
				if !e.bad {
					continue
				}
				// does e.to lead back to s?
				seen := map[Sym]bool{}
				work := []Sym{e.to}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if seen[x] {
						continue
					}
					seen[x] = true
					for _, y := range g[x] {
						work = append(work, y.to)
					}
				}
				if seen[s] {
					out = append(out, fmt.Sprintf("%s (%s)", what, t.prodString(e.prod)))
				}
			}
		}
	}
	check(left, "a construct starts with itself after a part that can be empty")
	check(unit, "a construct can consist of itself alone")
	return
}
