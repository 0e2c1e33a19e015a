package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

type conf struct {
	oneLine bool
	margin  int
}

func (k conf) String() string {
	if k.oneLine {
		return fmt.Sprintf("one line, indent %d", k.margin)
	}
	return fmt.Sprintf("indent %d", k.margin)
}

func (a *AbsParser) confVal(st *State, k conf) (Val, error) {
	t := a.p.named("PrintConf")
	if t == nil {
		return nil, errf("type PrintConf not found")
	}
	r, ok := st.zero(t).(*Rec)
	if !ok {
		return nil, errf("PrintConf is not a struct")
	}
	i, j := fieldIdx(t, "OneLine"), fieldIdx(t, "Margin")
	if i < 0 || j < 0 {
		return nil, errf("PrintConf has no fields OneLine and Margin")
	}
	r.F[i] = cBool(k.oneLine)
	r.F[j] = &C{constant.MakeInt64(int64(k.margin)), t.Underlying().(*types.Struct).Field(j).Type()}
	return r, nil
}

// printed is one printing of a tree.
type printed struct {
	text  *Str
	toks  []Tok
	notes []lexNote
	tree  *Term // what the text reads back as (nil: not of the language)
	ref   *refParser
	st    *State
	bad   string // panic or undecided
	panic bool
}

// print interprets Print on a parsed tree.
func (a *AbsParser) print(r *ParseRes, k conf, dots map[string]bool) []printed {
	st := r.St.clone()
	cv, err := a.confVal(st, k)
	fn := a.p.method("AstNode", "Print")
	if err == nil && fn == nil {
		err = errf("method Print of AstNode not found")
	}
	if err != nil {
		return []printed{{bad: err.Error()}}
	}
	return a.printCall(st, fn.String(), func() []Out { return a.m.call(st, fn, []Val{r.Node, cv}, nil, nil) }, dots)
}

func (a *AbsParser) printCall(st *State, what string, call func() []Out, dots map[string]bool) []printed {
	a.m.steps = 0
	var out []printed
	for _, o := range call() {
		p := printed{st: o.St}
		if o.bad() {
			p.bad = outMsg([]Out{o})
			p.panic = o.Panic != ""
			out = append(out, p)
			continue
		}
		s, ok := strOf(o.St.res(o.Res))
		if !ok {
			p.bad = "the printed text is of unknown form: " + o.St.key(o.Res)
			out = append(out, p)
			continue
		}
		p.text = s
		p.toks, p.notes = specLex(o.St, s, dots)
		t, rp := refParse(p.toks)
		p.ref = rp
		if rp.syntax == nil {
			p.tree = canon(t, a.ops)
		}
		out = append(out, p)
	}
	a.total += a.m.steps
	if len(out) == 0 {
		out = append(out, printed{bad: "no outcome"})
	}
	return out
}

// printStmt interprets PrintStatementWithConf on one statement value.
func (a *AbsParser) printStmt(r *ParseRes, v Val, k conf, dots map[string]bool) []printed {
	st := r.St.clone()
	cv, err := a.confVal(st, k)
	fn := a.p.method("AstNode", "PrintStatementWithConf")
	if err == nil && fn == nil {
		err = errf("method PrintStatementWithConf of AstNode not found")
	}
	if err != nil {
		return []printed{{bad: err.Error()}}
	}
	return a.printCall(st, fn.String(), func() []Out { return a.m.call(st, fn, []Val{r.Node, v, cv}, nil, nil) }, dots)
}

// show is a template as text.
func show(st *State, s *Str) string {
	if s == nil {
		return ""
	}
	var b strings.Builder
	for _, p := range st.resStr(s).P {
		if p.V == nil {
			b.WriteString(p.Lit)
		} else {
			_, id, neg, _ := pieceClass(st, p.V)
			if neg {
				b.WriteString("-")
			}
			b.WriteString("{" + id + "}")
		}
	}
	return b.String()
}

func dotNames(ts []Tok) map[string]bool {
	m := map[string]bool{}
	for i := 1; i < len(ts); i++ {
		if ts[i].Class == "name" && ts[i-1].Surf == "." {
			m[ts[i].ID] = true
		}
	}
	// a name that also stands where a keyword cannot is none
	for i := range ts {
		if ts[i].Class == "name" && (i == 0 || ts[i-1].Surf != ".") {
			delete(m, ts[i].ID)
		}
	}
	return m
}

// stmtValues lists the statement and expression values of a tree, with paths.
func (st *State) stmtValues(v Val, path string, d int, f func(path string, v Val, block bool)) {
	st.stmtWalk(v, path, d, false, f)
}

func (st *State) stmtWalk(v Val, path string, d int, block bool, f func(path string, v Val, block bool)) {
	if d > 100000 {
		return
	}
	v = st.res(v)
	switch x := v.(type) {
	case *Ifc:
		f(path, x, block)
		st.stmtWalk(x.V, path, d+1, false, f)
	case *Ptr:
		if c, ok := st.load(x); ok {
			st.stmtWalk(c, path, d+1, false, f)
		}
	case *Rec:
		s, ok := x.T.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields() && i < len(x.F); i++ {
			if s.Field(i).Exported() || s.Field(i).Embedded() {
				n := s.Field(i).Name()
				st.stmtWalk(x.F[i], path+"."+n, d+1, n == "Body" || strings.HasSuffix(n, "Block") || n == "Catch", f)
			}
		}
	case *Slc:
		for i := 0; i < x.Len; i++ {
			st.stmtWalk(st.elem(x, i), fmt.Sprintf("%s[%d]", path, i), d+1, block, f)
		}
	case *MapP:
	}
}

// parsed gives the accepted partition of a sentence (nil: reported).
func (a *AbsParser) parsed(c *Ctx, family, form string, ts []Tok) *ParseRes {
	for _, r := range a.run(ts, false) {
		r := r
		if r.Out.bad() {
			c.fail(family+":"+form, r.Out.Pos, "%q cannot be decided: %s", surfToks(ts), outMsg([]Out{r.Out}))
			return nil
		}
		if rej, known := r.failed(); rej || !known {
			// rejected text has no tree to print; C01-C06 and L04 decide verdicts
			c.count("rejected_sentences_without_tree", 1)
			continue
		}
		return &r
	}
	return nil
}

var confs = []conf{{false, 4}, {true, 4}, {false, 0}, {true, 0}}

// roundTrip requires every printing of the sentence's tree to read back as it.
func roundTrip(c *Ctx, family string, forms []string, ks []conf) {
	forms = uniq(forms)
	c.count("trees_"+family, len(forms))
	where := a0where(c, "Print")
	each(c, forms, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, family, f, ts)
		if r == nil {
			return
		}
		want := canon(a.tree(r), a.ops)
		for _, k := range ks {
			for _, p := range a.print(r, k, dotNames(ts)) {
				key := family + ":" + f
				if d := a.readsBack(p, want); d != "" {
					c.fail(key, where, "%s: the tree of %q (%s) prints as %q: %s", family, surfToks(ts), k, show(p.st, p.text), d)
					return
				}
			}
		}
		c.count("printings", len(ks))
		c.ok(family + ": " + surfToks(ts))
	})
}

func (a *AbsParser) readsBack(p printed, want *Term) string {
	if p.bad != "" {
		return "printing cannot be decided: " + p.bad
	}
	for _, n := range p.notes {
		return n.what
	}
	if p.tree == nil {
		return "the text is not of the language: " + p.ref.syntax.what
	}
	if len(p.ref.rules) > 0 {
		return "the text breaks a rule of the language: " + p.ref.rules[0].what
	}
	if d := diff(want, p.tree, ""); d != "" {
		return "reads back differently: " + d
	}
	return ""
}

func a0where(c *Ctx, method string) string {
	if fn := c.P.method("AstNode", method); fn != nil {
		return "ast/ast_print.go, " + c.P.pos(fn.Pos())
	}
	return "ast/ast_print.go"
}
