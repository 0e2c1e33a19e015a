package main

import (
	"fmt"
	"strings"
)

// ruleText is what the error of a broken rule says, up to the place; {} stands
// for the variable.
func ruleText(why string) (phrase, quoted string) {
	switch {
	case strings.HasPrefix(why, "Прервать"):
		return "can only be used inside a loop", "Прервать"
	case strings.HasPrefix(why, "Продолжить"):
		return "can only be used inside a loop", "Продолжить"
	case strings.HasPrefix(why, "ВызватьИсключение"):
		return "without arguments can only be used when handling an exception", "ВызватьИсключение"
	case strings.HasPrefix(why, "Возврат"):
		return "procedure cannot return a value", ""
	case strings.HasSuffix(why, "declared twice"):
		ws := strings.Fields(why)
		return "variable has already been defined", ws[len(ws)-3]
	case why == "module variable after a procedure or function":
		return "variable declarations must be placed at the beginning of the module", ""
	case why == "a statement ends with a colon":
		return "semicolon (;) is expected", ""
	}
	return "", ""
}

// runE02: the error of a broken rule names the rule.
func runE02(c *Ctx) {
	c.rule = "the error of a text that breaks one rule names that rule and the operator or variable that breaks it"
	l := ruleForms()
	for _, w := range []string{"Прервать", "Продолжить", "ВызватьИсключение", "Возврат N", "N = N :", "N ( ) :"} {
		for _, s := range []string{"S", "Процедура N ( ) S ; КонецПроцедуры", "Если N Тогда S ; КонецЕсли", "Если N Тогда N = N ; ИначеЕсли N Тогда S ; КонецЕсли", "Если N Тогда Иначе S ; КонецЕсли", "Попытка S ; Исключение КонецПопытки", "Попытка Исключение S ; КонецПопытки", "Пока N Цикл S ; КонецЦикла", "Для Каждого N Из N Цикл S ; КонецЦикла", "Для N = N По N Цикл S ; КонецЦикла",
			"Функция N ( ) Возврат N ; КонецФункции Процедура N ( ) S ; КонецПроцедуры", "Пока N Цикл КонецЦикла ; S", "Попытка Исключение КонецПопытки ; S"} {
			x := strings.Replace(s, "S", w, 1)
			x = strings.Replace(x, ": ;", ":", 1)
			l = append(l, x, x+" ;", "N = N ; "+x, x+" ; N = N ;")
		}
	}
	for _, v := range []string{"Перем x1 , x1 ;", "Перем x1 , x2 , x1 ;", "Перем x1 , x2 , x3 , x2 ;", "Перем x1 ; Перем x2 , x1 ;", "Перем x1 ; Перем x2 ; Перем x1 ;", "Перем x2 , x1 ; Перем x3 ; Перем x4 , x1 , x5 ;"} {
		for _, s := range []string{"S", "@ S", "Процедура N ( ) S КонецПроцедуры", "Функция N ( ) S N = N ; КонецФункции", "Перем x1 ; Процедура N ( ) S КонецПроцедуры", "Процедура N ( ) Перем x1 ; КонецПроцедуры Функция N ( ) S КонецФункции"} {
			l = append(l, strings.Replace(s, "S", v, 1))
		}
	}
	for _, d := range []string{"Процедура N ( ) КонецПроцедуры", "Функция N ( ) КонецФункции", "Перем x1 ; Процедура N ( ) КонецПроцедуры"} {
		for _, v := range []string{"Перем x2 ;", "@ Перем x2 ;", "Перем x2 , x3 Экспорт ;"} {
			l = append(l, d+" "+v)
		}
	}
	l = uniq(l)
	where := a0where(c, "Error")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		_, p := refParse(ts)
		if p.syntax != nil || len(p.rules) == 0 {
			return
		}
		// several violations: the error is of one of them
		var phrases, quotes []string
		for _, e := range p.rules {
			ph, q := ruleText(e.what)
			if ph == "" {
				c.fail("rule:"+f, "analyser", "unknown rule %q", e.what)
				return
			}
			phrases, quotes = append(phrases, ph), append(quotes, q)
		}
		for _, r := range a.run(ts, false) {
			if r.Out.bad() {
				c.fail("rule:"+f, where, "parsing %q cannot be decided: %s", surfToks(ts), outMsg([]Out{r.Out}))
				return
			}
			if rej, _ := r.failed(); !rej {
				return // C01 and C06 decide verdicts
			}
			msg, ok := errText(a.m, r.St, r.Err)
			if !ok {
				c.fail("rule:"+f, where, "the error of %q has no message", surfToks(ts))
				return
			}
			t := plain(r.St, msg)
			good := false
			for i := range phrases {
				head, _, _ := strings.Cut(t, ". line:")
				q := quotes[i] == ""
				q = q || strings.Contains(head, fmt.Sprintf("%q", quotes[i])) || strings.Contains(head, "{"+quotes[i]+"}")
				good = good || q && strings.Contains(head, phrases[i])
			}
			if !good {
				c.fail("rule:"+f, where, "the error of %q does not name the broken rule (%s): %s", surfToks(ts), p.rules[0].what, t)
				return
			}
		}
		c.count("rule_violations", 1)
		c.ok(p.rules[0].what + ": " + surfToks(ts))
	})
}

func init() {
	checks["E02"] = checkDef{runE02, "Abstract interpretation of the parser on sentences of opaque tokens that break semantic rules; the text of the error Parse returns must name a rule that the reference finds broken, and quote its operator or variable."}
}
