package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var goyaccBin string

func init() {
	checks["C05"] = checkDef{runC05, "The grammar file is compiled afresh by the vendored goyacc and the resulting LALR automaton is compared with the one decoded from the tables in the committed parser: a simultaneous walk over all states, every token's action (shift, reduce with the same production, accept, error) and every goto must agree; the token constants and the character mapping must agree as well. Decides all texts, since the tables are the parser."}
}

// compileGrammar runs goyacc on the repository's grammar in a scratch folder.
func compileGrammar(root string) (*LALR, string, error) {
	dir, err := os.MkdirTemp("", "verif-yacc")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(dir)
	m, _ := filepath.Glob(filepath.Join(root, "ast", "*.y"))
	if len(m) != 1 {
		return nil, "", errf("expected one grammar file in ast, found %d", len(m))
	}
	src, err := os.ReadFile(m[0])
	if err != nil {
		return nil, "", err
	}
	g := filepath.Join(dir, "grammar.y")
	if err := os.WriteFile(g, src, 0o644); err != nil {
		return nil, "", err
	}
	cmd := exec.Command(goyaccBin, "-o", "y.go", "-v", "y.output", "grammar.y")
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, string(out), errf("goyacc: %v: %s", err, out)
	}
	t, err := parseTableFile(filepath.Join(dir, "y.go"))
	return t, string(out), err
}

func runC05(c *Ctx) {
	c.rule = "LALR automaton isomorphism between the parser generated from ast/grammar.y and the compiled tables"
	g, _, err := compileGrammar(c.P.Root)
	if err != nil {
		c.fail("grammar", "ast/grammar.y", "the grammar does not compile: %v", err)
		return
	}
	n, diffs := compareLALR(c.T, g)
	c.obligations += n
	c.discharged += n - len(diffs)
	if c.discharged < 0 {
		c.discharged = 0
	}
	c.count("states", c.T.States)
	c.count("productions", len(c.T.Prods)-1)
	c.count("tokens", c.T.NTok)
	for _, d := range diffs {
		c.fail("table:"+d, "ast/y.go", "the compiled parser is not the grammar's parser: %s", d)
	}
	runDriver(c, g)
}

// runDriver compares the compiled parser's loop with the grammar's automaton:
// for every state, a shortest text that reaches it, continued with every token.
// Both must stop at the same token with the same verdict.
func runDriver(c *Ctx, g *LALR) {
	a0, err := newAbsParser(c.P)
	if err != nil {
		c.fail("driver", "ast/y.go", "%v", err)
		return
	}
	g.first(g.Prods[1].LHS)
	surf := map[Sym]string{}
	words := append(append([]string{}, langKeywords...), "=", ".", ";", "(", ")", ",", "-", "+", "*", "/", "?", "[", "]", ":", "%", "<", ">", "<>", "<=", ">=", "N", "#", "\"", "'", "@", "~")
	for _, w := range words {
		n, err := a0.tokenNo(g, toks(w)[0].Surf)
		if err != nil {
			c.fail("driver:"+w, "ast/tokens.go", "%v", err)
			return
		}
		if _, ok := surf[Sym(n)]; !ok {
			surf[Sym(n)] = w
		}
	}
	// shortest text of every symbol
	short := map[Sym][]string{}
	for s, w := range surf {
		short[s] = []string{w}
	}
	for changed := true; changed; {
		changed = false
		for _, p := range g.Prods[1:] {
			if !p.OK {
				continue
			}
			l, ok := []string{}, true
			for _, s := range p.RHS {
				x, have := short[s]
				ok = ok && have
				l = append(l, x...)
			}
			if old, have := short[p.LHS]; ok && (!have || len(l) < len(old)) {
				short[p.LHS] = l
				changed = true
			}
		}
	}
	// shortest text to every state
	reach := make([][]string, g.States)
	have := make([]bool, g.States)
	have[0] = true
	for changed := true; changed; {
		changed = false
		for s := 0; s < g.States; s++ {
			if !have[s] {
				continue
			}
			var syms []int
			for k := range g.Trans[s] {
				syms = append(syms, int(k))
			}
			sort.Ints(syms)
			for _, k := range syms {
				x, ok := short[Sym(k)]
				to := g.Trans[s][Sym(k)]
				if !ok || to < 0 || to >= g.States {
					continue
				}
				if n := len(reach[s]) + len(x); !have[to] || n < len(reach[to]) {
					have[to] = true
					reach[to] = append(append([]string{}, reach[s]...), x...)
					changed = true
				}
			}
		}
	}
	var nexts []string
	for _, w := range surf {
		nexts = append(nexts, w)
	}
	sort.Strings(nexts)
	var forms []string
	for s := range reach {
		if !have[s] {
			continue
		}
		c.count("states_reached", 1)
		pre := strings.Join(reach[s], " ")
		forms = append(forms, pre)
		for _, w := range nexts {
			forms = append(forms, strings.TrimSpace(pre+" "+w))
		}
	}
	for _, n := range c.P.bigSizes() {
		l := nested(n)
		forms = append(append(forms, l[:min(8, len(l))]...), "N = "+strings.Repeat("( ", n)+"N"+strings.Repeat(" )", n)+" ;", "N = "+strings.Repeat("- ", n)+"N ;", rep("N ( ) ;", "", n), "N ( "+rep("N", ",", n)+" ) ;")
	}
	forms = uniq(forms)
	c.count("driver_sentences", len(forms))
	where := "ast/y.go"
	if fn := c.P.method("yyParserImpl", "Parse"); fn != nil {
		where = c.P.pos(fn.Pos())
	}
	each(c, forms, func(a *AbsParser, f string) {
		ts := toks(f)
		var in []Inp
		for _, t := range ts {
			n, err := a.tokenNo(g, t.Surf)
			if err != nil {
				c.fail("driver:"+f, where, "%v", err)
				return
			}
			in = append(in, Inp{Sym: Sym(n), Surf: t.Surf})
		}
		stop, accept := len(in), true
		if _, err := g.lrRun(in, nil, nil); err != nil {
			e, ok := err.(*lrError)
			if !ok {
				c.fail("driver:"+f, where, "the grammar's automaton cannot read %q: %v", surfToks(ts), err)
				return
			}
			stop, accept = e.At, false
		}
		for _, r := range a.run(ts, false) {
			if r.Out.bad() {
				c.fail("driver:"+f, where, "parsing %q cannot be decided: %s", surfToks(ts), outMsg([]Out{r.Out}))
				return
			}
			if len(ts) == 0 {
				continue // an empty text is not handed to the parser
			}
			n, _ := isConstInt(r.St.bind["$pos"])
			if n > len(ts)+1 {
				n = len(ts) + 1 // the end is asked for again and again
			}
			rej, known := r.failed()
			if n != stop+1 || !known || !accept && !rej {
				c.fail("driver:"+f, where, "the parser reads %d tokens of %q (%s); by the grammar it reads %d (%s)", n, surfToks(ts), verdictWord(!rej), stop+1, verdictWord(accept))
				return
			}
			if accept && rej {
				if _, p := refParse(ts); len(p.rules) == 0 {
					c.fail("driver:"+f, where, "%q is of the grammar but is rejected", surfToks(ts))
					return
				}
			}
		}
		c.ok("")
	})
}

func verdictWord(ok bool) string {
	if ok {
		return "accepted"
	}
	return "rejected"
}
