package main

import (
	"strconv"
	"strings"
)

// runE01: an error names the place and the text of the token it is about.
func runE01(c *Ctx) {
	c.rule = "the line and column of an error reported at a token are those of the token's first character, and a syntax error is reported at the first token that cannot continue the text"
	c.assume = lexTrusted
	var fs []lexForm
	if c.Thorough {
		fs = append(openForms(3), unfinishedForms(3)...)
	} else {
		fs = append(openForms(2), unfinishedForms(1)...)
	}
	fs = append(append(fs, layoutForms(c.Thorough)...), literalForms(c.Thorough)...)
	fs = append(append(fs, layoutSizes(c)...), literalSizes(c)...)
	for i := range fs {
		fs[i].place = true
	}
	c.lexForms(fs, func(f lexForm, m lexMiss) {
		if m.kind != "undecided" && m.kind != "place" {
			c.count("differences_of_other_properties", 1)
			return
		}
		c.fail(m.kind+":"+m.key, m.where, "%s", m.what)
	})
	// places count from the beginning of the given text
	if a, err := newAbsParser(c.P); err != nil {
		c.fail("parser", "ast", "%v", err)
	} else {
		sourceKept(c, a)
	}
	// the token a syntax error is about
	c.T.first(c.T.Prods[1].LHS)
	where := a0where(c, "Error")
	each(c, uniq(editForms()), func(a *AbsParser, f string) {
		ts := toks(f)
		var in []Inp
		for _, t := range ts {
			n, err := a.tokenNo(c.T, t.Surf)
			if err != nil {
				c.fail("syntax:"+f, where, "%v", err)
				return
			}
			in = append(in, Inp{Sym: Sym(n), Surf: t.Surf})
		}
		_, err := c.T.lrRun(in, nil, nil)
		e, ok := err.(*lrError)
		if !ok || len(ts) == 0 {
			return
		}
		if _, p := refParse(ts); len(p.rules) > 0 {
			return // what a broken rule reports is another matter
		}
		at := min(e.At, len(ts)-1)
		t := ts[at]
		for _, r := range a.run(ts, false) {
			if r.Out.bad() {
				c.fail("syntax:"+f, where, "parsing %q cannot be decided: %s", surfToks(ts), outMsg([]Out{r.Out}))
				return
			}
			msg, ok := errText(a.m, r.St, r.Err)
			if !ok {
				c.fail("syntax:"+f, where, "the syntax error in %q has no message", surfToks(ts))
				return
			}
			if !mentions(r.St, msg, t) {
				c.fail("syntax:"+f, where, "the error for %q is not reported at %q (token %d) but as %s", surfToks(ts), t.Surf, at+1, r.St.key(msg))
				return
			}
		}
		c.count("syntax_errors", 1)
		c.ok("syntax error at token " + strconv.Itoa(at+1) + " of " + surfToks(ts))
	})
}

// mentions: the message quotes the token's text.
func mentions(st *State, msg *Str, t Tok) bool {
	k := st.key(msg)
	if t.Class == "" {
		return strings.Contains(k, strconv.Quote(strconv.Quote(t.Surf))[1:len(strconv.Quote(strconv.Quote(t.Surf)))-1]) || strings.Contains(k, strconv.Quote(t.Surf))
	}
	for _, id := range []string{t.ID, t.ID + ".text"} {
		for i := 0; ; {
			j := strings.Index(k[i:], id)
			if j < 0 {
				break
			}
			e := i + j + len(id)
			if e >= len(k) || !(k[e] >= '0' && k[e] <= '9') {
				return true
			}
			i = e
		}
	}
	return false
}

func init() {
	checks["E01"] = checkDef{runE01, "Abstract interpretation of the error report's SSA form after every token of texts whose characters are sets of values, compared with the place of the token's first character in the text; and of the parser on wrong sentences, whose error must quote the token at which the grammar's automaton stops."}
}
