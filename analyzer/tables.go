package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// LALR is the decoded form of goyacc's packed tables.
type LALR struct {
	Exca, Act, Pact, Pgo, R1, R2, Chk, Def, Tok1, Tok2, Tok3 []int
	Toknames                                                 []string
	Last, Private, Flag, ErrCode, Eof                        int
	TokConst                                                 map[string]int // token constants of the package

	NTok   int // token numbers are 1..NTok
	Prods  []Prod
	Trans  []map[Sym]int // valid transitions of each state
	States int

	firstMemo map[Sym]map[int]bool
	nullable  map[Sym]bool
}

// Sym is a grammar symbol: >0 token (index into Toknames+1), <0 nonterminal.
type Sym int

type Prod struct {
	N   int
	LHS Sym
	RHS []Sym
	OK  bool
}

const (
	actErr = iota
	actShift
	actReduce
	actAccept
)

type Action struct{ Kind, N int }

func intsOf(info *types.Info, e ast.Expr) ([]int, bool) {
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil, false
	}
	var out []int
	for _, el := range cl.Elts {
		tv, ok := info.Types[el]
		if !ok || tv.Value == nil {
			return nil, false
		}
		v, ok := constant.Int64Val(constant.ToInt(tv.Value))
		if !ok {
			return nil, false
		}
		out = append(out, int(v))
	}
	return out, true
}

// decodeTables reads the table variables of a generated parser file.
func decodeTables(files []*ast.File, info *types.Info, scope *types.Scope) (*LALR, error) {
	t := &LALR{TokConst: map[string]int{}}
	arrays := map[string]*[]int{"yyExca": &t.Exca, "yyAct": &t.Act, "yyPact": &t.Pact, "yyPgo": &t.Pgo, "yyR1": &t.R1, "yyR2": &t.R2,
		"yyChk": &t.Chk, "yyDef": &t.Def, "yyTok1": &t.Tok1, "yyTok2": &t.Tok2, "yyTok3": &t.Tok3}
	seen := map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if i >= len(vs.Values) {
						continue
					}
					if dst, ok := arrays[n.Name]; ok {
						v, ok := intsOf(info, vs.Values[i])
						if !ok {
							return nil, fmt.Errorf("table %s is not a constant literal", n.Name)
						}
						*dst = v
						seen[n.Name] = true
					}
					if n.Name == "yyToknames" {
						cl, ok := vs.Values[i].(*ast.CompositeLit)
						if !ok {
							return nil, fmt.Errorf("yyToknames is not a literal")
						}
						for _, el := range cl.Elts {
							tv := info.Types[el]
							if tv.Value == nil {
								return nil, fmt.Errorf("yyToknames is not constant")
							}
							t.Toknames = append(t.Toknames, constant.StringVal(tv.Value))
						}
					}
				}
			}
		}
	}
	for n := range arrays {
		if !seen[n] {
			return nil, fmt.Errorf("table %s not found", n)
		}
	}
	ci := func(n string) (int, error) {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok {
			return 0, fmt.Errorf("constant %s not found", n)
		}
		v, _ := constant.Int64Val(constant.ToInt(c.Val()))
		return int(v), nil
	}
	var err error
	for n, p := range map[string]*int{"yyLast": &t.Last, "yyPrivate": &t.Private, "yyFlag": &t.Flag, "yyErrCode": &t.ErrCode, "yyEofCode": &t.Eof} {
		if *p, err = ci(n); err != nil {
			return nil, err
		}
	}
	for _, n := range scope.Names() {
		if c, ok := scope.Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.Int {
			if v, ok := constant.Int64Val(c.Val()); ok && int(v) >= t.Private && int(v) < t.Private+len(t.Tok2) && !strings.HasPrefix(n, "yy") {
				t.TokConst[n] = int(v)
			}
		}
	}
	t.NTok = len(t.Toknames)
	t.States = len(t.Pact)
	return t, t.build()
}

// tokIndex is yylex1's mapping from the lexer's token number to the parser's.
func (t *LALR) tokIndex(char int) int {
	if char <= 0 {
		return t.Tok1[0]
	}
	if char < len(t.Tok1) {
		return t.fix(t.Tok1[char])
	}
	if char >= t.Private && char < t.Private+len(t.Tok2) {
		return t.fix(t.Tok2[char-t.Private])
	}
	for i := 0; i+1 < len(t.Tok3); i += 2 {
		if t.Tok3[i] == char {
			return t.fix(t.Tok3[i+1])
		}
	}
	return t.fix(0)
}

func (t *LALR) fix(tok int) int {
	if tok == 0 {
		return t.Tok2[1]
	}
	return tok
}

func (t *LALR) tokName(s Sym) string {
	if s > 0 && int(s) <= len(t.Toknames) {
		return t.Toknames[s-1]
	}
	return fmt.Sprintf("N%d", -s)
}

// action is the skeleton's decision in state s on token tok.
func (t *LALR) action(s int, tok int) Action {
	n := t.Pact[s]
	if n > t.Flag {
		n += tok
		if n >= 0 && n < t.Last {
			n = t.Act[n]
			if t.Chk[n] == tok {
				return Action{actShift, n}
			}
		}
	}
	return t.dflt(s, tok)
}

func (t *LALR) dflt(s, tok int) Action {
	n := t.Def[s]
	if n == -2 {
		xi := 0
		for {
			if xi+1 >= len(t.Exca) {
				return Action{actErr, 0}
			}
			if t.Exca[xi] == -1 && t.Exca[xi+1] == s {
				break
			}
			xi += 2
		}
		for xi += 2; ; xi += 2 {
			n = t.Exca[xi]
			if n < 0 || n == tok {
				break
			}
		}
		n = t.Exca[xi+1]
		if n < 0 {
			return Action{actAccept, 0}
		}
	}
	if n == 0 {
		return Action{actErr, 0}
	}
	return Action{actReduce, n}
}

// gotoRaw is the skeleton's goto, which is only meaningful for valid pairs.
func (t *LALR) gotoRaw(s int, nt Sym) int {
	n := int(-nt)
	g := t.Pgo[n]
	j := g + s + 1
	if j >= t.Last {
		return t.Act[g]
	}
	st := t.Act[j]
	if t.Chk[st] != -n {
		st = t.Act[g]
	}
	return st
}

func (t *LALR) build() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("tables are not well formed: %v", r)
		}
	}()
	// distinct reductions of each state
	red := make([]map[int]bool, t.States)
	t.Trans = make([]map[Sym]int, t.States)
	preds := make([]map[int]bool, t.States)
	for s := range red {
		red[s] = map[int]bool{}
		t.Trans[s] = map[Sym]int{}
		preds[s] = map[int]bool{}
	}
	for s := 0; s < t.States; s++ {
		for tok := 1; tok <= t.NTok; tok++ {
			a := t.action(s, tok)
			switch a.Kind {
			case actShift:
				t.Trans[s][Sym(tok)] = a.N
				preds[a.N][s] = true
			case actReduce:
				red[s][a.N] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for s := 0; s < t.States; s++ {
			for r := range red[s] {
				cur := map[int]bool{s: true}
				for i := 0; i < t.R2[r]; i++ {
					nx := map[int]bool{}
					for c := range cur {
						for p := range preds[c] {
							nx[p] = true
						}
					}
					cur = nx
				}
				lhs := Sym(-t.R1[r])
				for p := range cur {
					if _, ok := t.Trans[p][lhs]; !ok {
						g := t.gotoRaw(p, lhs)
						t.Trans[p][lhs] = g
						preds[g][p] = true
						changed = true
					}
				}
			}
		}
	}
	t.Prods = make([]Prod, len(t.R1))
	for r := 1; r < len(t.R1); r++ {
		t.Prods[r] = Prod{N: r, LHS: Sym(-t.R1[r])}
	}
	acc := func(s int) Sym {
		c := t.Chk[s]
		return Sym(c)
	}
	for s := 0; s < t.States; s++ {
		for r := range red[s] {
			rhs := make([]Sym, t.R2[r])
			cur := map[int]bool{s: true}
			for i := t.R2[r] - 1; i >= 0; i-- {
				nx := map[int]bool{}
				first := true
				for c := range cur {
					a := acc(c)
					if first {
						rhs[i] = a
						first = false
					} else if rhs[i] != a {
						return fmt.Errorf("state %d: production %d has two right-hand sides", s, r)
					}
					for p := range preds[c] {
						nx[p] = true
					}
				}
				cur = nx
			}
			p := &t.Prods[r]
			if p.OK {
				for i := range rhs {
					if rhs[i] != p.RHS[i] {
						return fmt.Errorf("production %d has two right-hand sides", r)
					}
				}
			}
			p.RHS = rhs
			p.OK = true
		}
	}
	return nil
}

func (t *LALR) prodString(r int) string {
	p := t.Prods[r]
	var b []string
	for _, s := range p.RHS {
		b = append(b, t.tokName(s))
	}
	return fmt.Sprintf("N%d -> %s", -p.LHS, strings.Join(b, " "))
}

// parseTableFile type-checks nothing: it reads the tables of a freshly
// generated parser file syntactically (all entries are literals).
func parseTableFile(path string) (*LALR, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0)
	if err != nil {
		return nil, err
	}
	// a tiny constant evaluator over the generated file only
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	scope := types.NewScope(nil, 0, 0, "")
	var ev func(e ast.Expr) constant.Value
	ev = func(e ast.Expr) constant.Value {
		switch x := e.(type) {
		case *ast.BasicLit:
			return constant.MakeFromLiteral(x.Value, x.Kind, 0)
		case *ast.UnaryExpr:
			if v := ev(x.X); v != nil {
				return constant.UnaryOp(x.Op, v, 0)
			}
		}
		return nil
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, n := range vs.Names {
				if i >= len(vs.Values) {
					continue
				}
				if gd.Tok == token.CONST {
					if v := ev(vs.Values[i]); v != nil {
						scope.Insert(types.NewConst(0, nil, n.Name, types.Typ[types.UntypedInt], v))
					}
				} else if cl, ok := vs.Values[i].(*ast.CompositeLit); ok {
					for _, el := range cl.Elts {
						if v := ev(el); v != nil {
							info.Types[el] = types.TypeAndValue{Value: v}
						}
					}
				}
			}
		}
	}
	return decodeTables([]*ast.File{f}, info, scope)
}

// compareLALR checks that two table sets are the same automaton up to the
// numbering of states, productions and nonterminals; it returns differences.
func compareLALR(a, b *LALR) (obligations int, diffs []string) {
	an, bn := map[string]int{}, map[string]int{}
	for i, n := range a.Toknames {
		an[n] = i + 1
	}
	for i, n := range b.Toknames {
		bn[n] = i + 1
	}
	var names []string
	for n := range an {
		if _, ok := bn[n]; !ok {
			diffs = append(diffs, fmt.Sprintf("token %s exists only in the compiled parser", n))
			continue
		}
		names = append(names, n)
	}
	for n := range bn {
		if _, ok := an[n]; !ok {
			diffs = append(diffs, fmt.Sprintf("token %s exists only in the grammar", n))
		}
	}
	sort.Strings(names)
	for n, v := range a.TokConst {
		if w, ok := b.TokConst[n]; ok {
			obligations++
			if a.tokName(Sym(a.tokIndex(v))) != b.tokName(Sym(b.tokIndex(w))) {
				diffs = append(diffs, fmt.Sprintf("token constant %s is mapped to %s, the grammar maps it to %s", n, a.tokName(Sym(a.tokIndex(v))), b.tokName(Sym(b.tokIndex(w)))))
			}
		} else if _, isTok := bn[n]; isTok {
			diffs = append(diffs, fmt.Sprintf("token constant %s is missing from the grammar's parser", n))
		}
	}
	for c := 1; c < 256; c++ {
		x, y := a.tokIndex(c), b.tokIndex(c)
		obligations++
		if a.tokName(Sym(x)) != b.tokName(Sym(y)) {
			diffs = append(diffs, fmt.Sprintf("character token %q is mapped to %s, the grammar maps it to %s", rune(c), a.tokName(Sym(x)), b.tokName(Sym(y))))
		}
	}
	if len(diffs) > 0 {
		return
	}
	ntA, ntB := map[Sym]Sym{}, map[Sym]Sym{}
	stA, stB := map[int]int{0: 0}, map[int]int{0: 0}
	queue := []int{0}
	mapSym := func(x, y Sym) bool {
		if x > 0 || y > 0 {
			return x > 0 && y > 0 && a.tokName(x) == b.tokName(y)
		}
		px, ok1 := ntA[x]
		py, ok2 := ntB[y]
		if !ok1 && !ok2 {
			ntA[x] = y
			ntB[y] = x
			return true
		}
		return ok1 && ok2 && px == y && py == x
	}
	link := func(x, y int) bool {
		px, ok1 := stA[x]
		py, ok2 := stB[y]
		if !ok1 && !ok2 {
			stA[x] = y
			stB[y] = x
			queue = append(queue, x)
			return true
		}
		return ok1 && ok2 && px == y && py == x
	}
	type pair struct{ x, y int }
	prods := map[pair]bool{}
	prodOK := func(x, y int) bool {
		if r, ok := prods[pair{x, y}]; ok {
			return r
		}
		p, q := a.Prods[x], b.Prods[y]
		r := len(p.RHS) == len(q.RHS) && mapSym(p.LHS, q.LHS)
		if r {
			for i := range p.RHS {
				if !mapSym(p.RHS[i], q.RHS[i]) {
					r = false
				}
			}
		}
		prods[pair{x, y}] = r
		return r
	}
	type gt struct {
		s   int
		sym Sym
		to  int
	}
	var pending []gt
	for len(diffs) < 20 {
		if len(queue) == 0 {
			var rest []gt
			for _, g := range pending {
				m, ok := ntA[g.sym]
				if !ok {
					rest = append(rest, g)
					continue
				}
				obligations++
				t2, ok := b.Trans[stA[g.s]][m]
				if !ok || !link(g.to, t2) {
					diffs = append(diffs, fmt.Sprintf("in the state after %s: goto on %s differs from the grammar's parser", a.statePath(g.s), a.tokName(g.sym)))
				}
			}
			if len(queue) == 0 && len(rest) == len(pending) {
				break
			}
			pending = rest
			continue
		}
		s := queue[0]
		queue = queue[1:]
		q := stA[s]
		for _, n := range names {
			x, y := a.action(s, an[n]), b.action(q, bn[n])
			obligations++
			ok := x.Kind == y.Kind
			if ok && x.Kind == actShift {
				ok = link(x.N, y.N)
			}
			if ok && x.Kind == actReduce {
				ok = prodOK(x.N, y.N)
			}
			if !ok {
				diffs = append(diffs, fmt.Sprintf("in the state after %s, on token %s: the compiled parser does %s, the grammar's parser does %s", a.statePath(s), n, a.actString(x), b.actString(y)))
			}
		}
		for sym, to := range a.Trans[s] {
			if sym < 0 {
				pending = append(pending, gt{s, sym, to})
			}
		}
	}
	if len(diffs) == 0 && len(stA) != a.States {
		diffs = append(diffs, fmt.Sprintf("only %d of %d parser states are reachable in step with the grammar's parser", len(stA), a.States))
	}
	return
}

func (t *LALR) actString(x Action) string {
	switch x.Kind {
	case actShift:
		return "shift"
	case actReduce:
		return "reduce " + t.prodString(x.N)
	case actAccept:
		return "accept"
	}
	return "error"
}

// statePath describes a state by one shortest symbol path that reaches it.
func (t *LALR) statePath(s int) string {
	type n struct {
		st   int
		path []string
	}
	seen := map[int]bool{0: true}
	q := []n{{0, nil}}
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		if c.st == s {
			if len(c.path) == 0 {
				return "the start of the text"
			}
			return strings.Join(c.path, " ")
		}
		var syms []int
		for k := range t.Trans[c.st] {
			syms = append(syms, int(k))
		}
		sort.Ints(syms)
		for _, k := range syms {
			to := t.Trans[c.st][Sym(k)]
			if !seen[to] {
				seen[to] = true
				q = append(q, n{to, append(append([]string{}, c.path...), t.tokName(Sym(k)))})
			}
		}
	}
	return fmt.Sprintf("state %d", s)
}
