package main

import (
	"strings"
)

// runD01: parsing is a function of the text.
func runD01(c *Ctx) {
	c.rule = "no source of chance is reachable from the entry points, and verdict, message and tree do not depend on the order in which maps are iterated"
	nondeterminism(c, []string{"Parse", "JSON", "Lex", "Error", "SrsCode"})
	l := append(moduleForms(c), placedForms()...)
	l = append(append(l, ruleForms()...), varPairs()...)
	for i, f := range editForms() {
		if c.Thorough || i%4 == 0 {
			l = append(l, f)
		}
	}
	l = uniq(l)
	c.count("sentences", len(l))
	where := a0where(c, "Parse")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		var both [2]map[string]bool
		for i, rev := range []bool{false, true} {
			seen := map[string]bool{}
			both[i] = seen
			a.m.reverse = rev
			rs := a.run(ts, false)
			a.m.reverse = false
			for _, r := range rs {
				if r.Out.bad() {
					c.fail("sentence:"+f, where, "parsing %q cannot be decided: %s", surfToks(ts), outMsg([]Out{r.Out}))
					return
				}
				rej, known := r.failed()
				if !known {
					c.fail("sentence:"+f, where, "the verdict on %q cannot be decided", surfToks(ts))
					return
				}
				s := "accepted"
				if rej {
					s = "rejected"
					if msg, ok := errText(a.m, r.St, r.Err); ok {
						s += ": " + plain(r.St, msg)
					}
				}
				if mod, err := a.moduleOf(&r); err == nil && !rej {
					v, _ := r.St.load(mod)
					if t := r.St.term(v); t != nil {
						s += ", " + t.String()
					}
				}
				seen[s] = true
			}
		}
		if x, y := strings.Join(sortedKeys(both[0]), " / "), strings.Join(sortedKeys(both[1]), " / "); x != y {
			c.fail("sentence:"+f, where, "the result of parsing %q is not determined by the text: %s or %s", surfToks(ts), short(x), short(y))
			return
		}
		c.ok("sentence: " + surfToks(ts))
	})
}

// plain is a template's known text and token texts; computed parts are left out.
func plain(st *State, s *Str) string {
	var b strings.Builder
	for _, p := range st.resStr(s).P {
		switch {
		case p.V == nil:
			b.WriteString(p.Lit)
		default:
			if class, id, _, _ := pieceClass(st, p.V); class != "" {
				b.WriteString("{" + id + "}")
			} else {
				b.WriteString("{" + strings.Join(tokensIn(st, p.V, 0), " ") + "}")
			}
		}
	}
	return b.String()
}

// tokensIn names the tokens whose texts a value is computed from.
func tokensIn(st *State, v Val, d int) (l []string) {
	if d > 4 {
		return nil
	}
	switch x := st.res(v).(type) {
	case *Leaf:
		if x.Class != "" {
			l = append(l, x.ID)
		}
	case *Str:
		for _, p := range x.P {
			if p.V != nil {
				l = append(l, tokensIn(st, p.V, d+1)...)
			}
		}
	case *Expr:
		for _, a := range x.A {
			l = append(l, tokensIn(st, a, d+1)...)
		}
	}
	return l
}

func init() {
	checks["D01"] = checkDef{runD01, "Call-graph rule for sources of chance (clock, random numbers, addresses, goroutines, select) reachable from the entry points; abstract interpretation of the parser on sentences of opaque tokens with maps iterated in either order, whose verdict, message and tree must be the same."}
}
