package main

import (
	"strings"
)

// again parses the same sentence once more with the same object.
func (a *AbsParser) again(r *ParseRes, toks []Tok) []ParseRes {
	a.toks = toks
	st := r.St.clone()
	st.bind["$pos"] = cInt(0)
	a.m.steps = 0
	var rs []ParseRes
	for _, o := range a.m.call(st, a.parse, []Val{r.Node}, nil, nil) {
		rs = append(rs, ParseRes{St: o.St, Node: r.Node, Err: o.Res, Out: o})
	}
	a.evals++
	a.total += a.m.steps
	return rs
}

// outcome is the verdict, message and tree of a parse.
func (a *AbsParser) outcome(r *ParseRes) (string, string) {
	if r.Out.bad() {
		return "", outMsg([]Out{r.Out})
	}
	rej, known := r.failed()
	if !known {
		return "", "the verdict is not known"
	}
	s := "accepted"
	if rej {
		s = "rejected"
		if msg, ok := errText(a.m, r.St, r.Err); ok {
			s += ": " + plain(r.St, msg)
		}
	}
	if mod, err := a.moduleOf(r); err == nil {
		v, _ := r.St.load(mod)
		if t := r.St.term(v); t != nil {
			s += ", " + t.String()
		}
	}
	return s, ""
}

// sampleOf spreads sentences over samples.
func sampleOf(f string) int {
	h := 0
	for _, r := range f {
		h = (h*31 + int(r)) & 0xffffff
	}
	return h
}

// runD02: a parse starts from nothing.
func runD02(c *Ctx) {
	c.rule = "a second parse with the same object ends as the first did, and leaves the first tree as it was"
	l := append(moduleForms(c), placedForms()...)
	l = append(append(l, ruleForms()...), varPairs()...)
	for i, f := range editForms() {
		if c.Thorough || i%3 == 0 {
			l = append(l, f)
		}
	}
	l = uniq(l)
	c.count("sentences", len(l))
	where := a0where(c, "Parse")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		runs := a.run(ts, false)
		if i := sampleOf(f); c.Thorough || i%4 == 0 {
			a.named = true
			runs = append(runs, a.run(ts, false)...)
			a.named = false
		}
		for _, r := range runs {
			r := r
			first, bad := a.outcome(&r)
			if bad != "" {
				c.fail("sentence:"+f, where, "parsing %q cannot be decided: %s", surfToks(ts), bad)
				return
			}
			var kept Val
			before := ""
			if mod, err := a.moduleOf(&r); err == nil {
				kept, _ = r.St.load(mod)
				before = r.St.key(kept)
			}
			for _, r2 := range a.again(&r, ts) {
				second, bad := a.outcome(&r2)
				if bad != "" {
					c.fail("sentence:"+f, where, "parsing %q again with the same object cannot be decided: %s", surfToks(ts), bad)
					return
				}
				if first != second {
					c.fail("sentence:"+f, where, "parsing %q again with the same object ends differently: %s, then %s", surfToks(ts), short(first), short(second))
					return
				}
				if after := r2.St.key(kept); strings.HasPrefix(first, "accepted") && after != before {
					c.fail("sentence:"+f, where, "parsing %q again changes the tree of the first parse: %s", surfToks(ts), firstDiff(before, after))
					return
				}
			}
			if !strings.HasPrefix(first, "accepted") || !c.Thorough && sampleOf(f)%4 > 1 {
				continue
			}
			// whatever was done to the tree in between is forgotten
			mod, err := a.moduleOf(&r)
			if err != nil {
				continue
			}
			chs := a.changes(r.St, mod)
			for j := 0; j < min(3, len(chs)); j++ {
				k := j * max(1, len(chs)/3)
				if chs[k].path == ".Name" { // the module's own name is the caller's
					continue
				}
				r3 := r
				r3.St = a.edited(r.St, mod, k)
				for _, r2 := range a.again(&r3, ts) {
					if second, bad := a.outcome(&r2); bad != "" || first != second {
						c.fail("sentence:"+f, where, "parsing %q again with the same object after its tree was edited (%s %s) ends differently: %s%s, then %s", surfToks(ts), chs[k].path, chs[k].what, bad, short(first), short(second))
						return
					}
				}
				c.count("parses_after_edits", 1)
			}
		}
		c.ok("sentence: " + surfToks(ts))
	})
}

func init() {
	checks["D02"] = checkDef{runD02, "Abstract interpretation of the parser on sentences of opaque tokens, right and wrong ones, twice in a row with the same object: verdict, message and tree must be the same both times, and the tree of the first parse must not change."}
}
