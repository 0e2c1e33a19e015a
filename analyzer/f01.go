package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// lowerRef is the lower-case form FastToLower promises.
func lowerRef(r int64) int64 {
	switch {
	case r >= 'A' && r <= 'Z', r >= 'А' && r <= 'Я':
		return r + 32
	case r == 'Ё':
		return 'ё'
	}
	return r
}

// fastForm is a text: known bytes and characters of known width with unknown
// value. Widths 1..4 are unknown characters, 0 is an unknown byte of any value
// (a text that need not be UTF-8), negative numbers are known bytes.
type fastForm []int

func (f fastForm) String() string {
	var b strings.Builder
	for i := 0; i < len(f); i++ {
		if f[i] < 0 {
			j := i
			var t []byte
			for j < len(f) && f[j] < 0 {
				t = append(t, byte(-f[j]))
				j++
			}
			s := string(t)
			if rs := []rune(s); len(rs) > 12 {
				s = fmt.Sprintf("%s... (%d bytes)", string(rs[:4]), len(s))
			}
			fmt.Fprintf(&b, "%q ", s)
			i = j - 1
			continue
		}
		if f[i] == 0 {
			b.WriteString("byte ")
			continue
		}
		fmt.Fprintf(&b, "char/%d ", f[i])
	}
	if b.Len() == 0 {
		return "the empty text"
	}
	return strings.TrimSpace(b.String())
}

var widthSets = map[int]rset{1: {{1, 0x7f}}, 2: {{0x80, 0x7ff}}, 3: {{0x800, 0xd7ff}, {0xe000, 0xffff}}, 4: {{0x10000, 0x10ffff}}}

// bytesOf is one unknown character as bytes: the alternatives of its encoding.
func encodings(w int) [][]bset {
	c := brange(0x80, 0xbf)
	switch w {
	case 0:
		return [][]bset{{brange(1, 255)}}
	case 1:
		return [][]bset{{brange(1, 0x7f)}}
	case 2:
		return [][]bset{{brange(0xc2, 0xdf), c}}
	case 3:
		e := brange(0xe1, 0xec)
		e.put(0xee)
		e.put(0xef)
		return [][]bset{{brange(0xe0, 0xe0), brange(0xa0, 0xbf), c}, {e, c, c}, {brange(0xed, 0xed), brange(0x80, 0x9f), c}}
	}
	return [][]bset{{brange(0xf0, 0xf0), brange(0x90, 0xbf), c, c}, {brange(0xf1, 0xf3), c, c, c}, {brange(0xf4, 0xf4), brange(0x80, 0x8f), c, c}}
}

// domains lists the byte patterns of a form.
func (f fastForm) domains() [][]bset {
	out := [][]bset{nil}
	for _, x := range f {
		var alts [][]bset
		if x < 0 {
			alts = [][]bset{{brange(-x, -x)}}
		} else {
			alts = encodings(x)
		}
		var next [][]bset
		for _, o := range out {
			for _, a := range alts {
				next = append(next, append(append([]bset(nil), o...), a...))
			}
		}
		out = next
	}
	return out
}

func bytesForm(s string) (f fastForm) {
	for i := 0; i < len(s); i++ {
		f = append(f, -int(s[i]))
	}
	return
}

// cCallRec is one call of a C function: arguments are the text buffer ("b") or
// numbers.
type cCallRec struct {
	name string
	args []string
}

type fastRun struct {
	c    *Ctx
	fn   *ssa.Function
	pk   *packages.Package
	unit map[string]*cUnit
	mu   sync.Mutex
	head struct{ at, off int }
}

// cUnits parses the C code of a package: the comments before import "C" and
// the C files beside them.
func cUnits(p *Prog, pk *packages.Package) (map[string]*cUnit, error) {
	out := map[string]*cUnit{}
	dirs := map[string]bool{}
	add := func(src, file, dir string, flags []string) error {
		u, err := parseC(src, file, dir, flags)
		if err != nil {
			return err
		}
		for n := range u.funcs {
			out[n] = u
		}
		return nil
	}
	for _, fname := range append(append([]string(nil), pk.GoFiles...), pk.IgnoredFiles...) {
		if !strings.HasSuffix(fname, ".go") {
			continue
		}
		dirs[filepath.Dir(fname)] = true
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fname, nil, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				continue
			}
			for _, s := range g.Specs {
				im := s.(*ast.ImportSpec)
				if im.Path.Value != `"C"` {
					continue
				}
				doc := g.Doc
				if im.Doc != nil {
					doc = im.Doc
				}
				if doc == nil {
					continue
				}
				line := fs.Position(doc.Pos()).Line
				var b strings.Builder
				var flags []string
				for _, cm := range doc.List {
					fmt.Fprintf(&b, "#line %d %q\n", fs.Position(cm.Pos()).Line, filepath.Base(fname))
					t := cm.Text
					if strings.HasPrefix(t, "//") {
						t = t[2:]
					} else {
						t = strings.TrimSuffix(t[2:], "*/")
					}
					for _, l := range strings.Split(t, "\n") {
						if s := strings.TrimSpace(l); strings.HasPrefix(s, "#cgo") {
							if i := strings.Index(s, "CFLAGS:"); i >= 0 {
								for _, w := range strings.Fields(s[i+7:]) {
									if strings.HasPrefix(w, "-D") || strings.HasPrefix(w, "-std=") || strings.HasPrefix(w, "-U") || w == "-funsigned-char" || w == "-fsigned-char" {
										flags = append(flags, w)
									}
								}
							}
							l = ""
						}
						b.WriteString(l + "\n")
					}
				}
				_ = line
				if err := add(b.String(), p.relFile(fname), filepath.Dir(fname), flags); err != nil {
					return nil, err
				}
			}
		}
	}
	for d := range dirs {
		cs, _ := filepath.Glob(filepath.Join(d, "*.c"))
		for _, cf := range cs {
			b, err := os.ReadFile(cf)
			if err != nil {
				return nil, err
			}
			if err := add(string(b), p.relFile(cf), d, nil); err != nil {
				return nil, err
			}
		}
	}
	return out, nil
}

func (p *Prog) relFile(f string) string {
	if r, err := filepath.Rel(p.Root, f); err == nil {
		return r
	}
	return f
}

// hook gives the meaning of the calls cgo generates.
func cgoHook(m *M, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Out, bool) {
	name := fn.Name()
	ret := func(v Val) ([]Out, bool) { return []Out{{St: st, Res: v}}, true }
	if strings.HasPrefix(name, "_cgoCheck") || name == "_Cgo_use" || name == "_Cgo_keepalive" {
		return ret(nil)
	}
	if fn.String() == "runtime.KeepAlive" {
		return ret(nil)
	}
	if !strings.HasPrefix(name, "_Cfunc_") {
		return nil, false
	}
	name = strings.TrimPrefix(name, "_Cfunc_")
	var rt types.Type
	if fn.Signature.Results().Len() > 0 {
		rt = fn.Signature.Results().At(0).Type()
	}
	cell := func(v Val) (*Ptr, *Expr) {
		p, ok := st.res(v).(*Ptr)
		if !ok {
			return nil, nil
		}
		x, _ := st.load(p)
		e, _ := x.(*Expr)
		if e == nil || !strings.HasPrefix(e.Op, "cbuf:") && e.Op != "freed" {
			return nil, nil
		}
		return p, e
	}
	und := func(f string, a ...any) ([]Out, bool) {
		return []Out{{St: st, Undec: fmt.Sprintf(f, a...), Pos: m.posOf(fn, site)}}, true
	}
	bad := func(f string, a ...any) ([]Out, bool) {
		return []Out{{St: st, Panic: fmt.Sprintf(f, a...), Pos: m.posOf(fn, site)}}, true
	}
	switch name {
	case "CString":
		id := st.alloc(mkExpr("cbuf:", types.Typ[types.String], args[0]))
		return ret(&Ptr{Obj: id, T: rt})
	case "GoString", "GoStringN":
		p, e := cell(args[0])
		if p == nil {
			return und("the argument of C.%s", name)
		}
		if e.Op == "freed" {
			return bad("C.%s reads memory that was freed", name)
		}
		op := "gostr:" + strings.TrimPrefix(e.Op, "cbuf:")
		if name == "GoStringN" {
			n, ok := isConstInt(st.evalLin(args[1]))
			if !ok {
				return und("the length given to C.GoStringN")
			}
			op = fmt.Sprintf("gostrn%d:%s", n, strings.TrimPrefix(e.Op, "cbuf:"))
		}
		return ret(mkExpr(op, types.Typ[types.String], e.A...))
	case "free":
		p, e := cell(args[0])
		if p == nil {
			if _, ok := st.res(args[0]).(*Nil); ok {
				return ret(nil)
			}
			return und("the argument of C.free")
		}
		if e.Op == "freed" {
			return bad("memory is freed twice")
		}
		st.store(p, mkExpr("freed", types.Typ[types.String]))
		return ret(nil)
	}
	rec := name + "("
	var buf *Ptr
	var be *Expr
	for i, a := range args {
		if i > 0 {
			rec += ","
		}
		if n, ok := isConstInt(st.evalLin(a)); ok {
			rec += strconv.Itoa(n)
			continue
		}
		p, e := cell(a)
		if p == nil || buf != nil {
			return und("argument %d of C.%s", i+1, name)
		}
		if e.Op == "freed" {
			return bad("C.%s is given memory that was freed", name)
		}
		buf, be = p, e
		rec += "b"
	}
	if buf == nil {
		return und("C.%s is not given the text", name)
	}
	rec += ");"
	if rt != nil {
		if _, ok := rt.Underlying().(*types.Pointer); ok {
			id := st.alloc(mkExpr(be.Op+"!"+rec, types.Typ[types.String], be.A...))
			return ret(&Ptr{Obj: id, T: rt})
		}
		st.store(buf, mkExpr(be.Op+rec, types.Typ[types.String], be.A...))
		return ret(m.opaqueResult(st, "C."+name, fn.Signature.Results(), args))
	}
	st.store(buf, mkExpr(be.Op+rec, types.Typ[types.String], be.A...))
	return ret(nil)
}

func runF01(c *Ctx) {
	c.rule = "FastToLower(text) = the lower-case letters of the text, character by character, inside its own memory"
	var fr *fastRun
	for _, pk := range c.P.All {
		o, ok := pk.Types.Scope().Lookup("FastToLower").(*types.Func)
		if !ok {
			continue
		}
		fn := c.P.SSA.FuncValue(o)
		if fn == nil || len(fn.Params) != 1 {
			continue
		}
		fr = &fastRun{c: c, fn: fn, pk: pk}
	}
	if fr == nil {
		c.fail("entry", "ast/fast_tolower", "function FastToLower not found")
		return
	}
	where := c.P.pos(fr.fn.Pos())
	var err error
	if fr.unit, err = cUnits(c.P, fr.pk); err != nil {
		c.fail("c", where, "the C code cannot be analysed: %v", err)
		return
	}
	lits := map[int64]bool{}
	for n, u := range fr.unit {
		u.funcs[n].literals(lits)
		c.count("c_functions", 1)
	}
	fr.goLits(lits)

	var forms []fastForm
	forms = append(forms, nil)
	max := 3
	for k := 1; k <= max; k++ {
		n := 1
		for i := 0; i < k; i++ {
			n *= 4
		}
		for x := 0; x < n; x++ {
			var f fastForm
			for i, y := 0, x; i < k; i, y = i+1, y/4 {
				f = append(f, y%4+1)
			}
			forms = append(forms, f)
		}
	}
	// the lengths the code names, after and before known text
	sizes := map[int]bool{8: true, 40: true, 300: true}
	for l := range lits {
		if l >= 4 && l <= 4096 {
			for d := int64(-1); d <= 2; d++ {
				sizes[int(l+d)] = true
			}
			sizes[int(2*l+1)] = true
		}
	}
	var ns []int
	for n := range sizes {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	c.countSet("text_lengths", ns)
	for _, n := range ns {
		for _, ch := range []string{"x", "Щ", "Q", "€"} {
			if n > 66 && (ch == "Q" || ch == "€") || n > 300 && ch == "Щ" && !c.Thorough {
				continue
			}
			t := strings.Repeat(ch, n)
			forms = append(forms, append(bytesForm(t), 2))
			if n <= 66 || c.Thorough && n <= 1024 {
				forms = append(forms, append(bytesForm(t), 1), append(fastForm{2}, bytesForm(t)...), append(bytesForm(t), 2, 1))
			}
		}
	}
	// texts that are not UTF-8
	for k := 1; k <= 4; k++ {
		f := fastForm{}
		for i := 0; i < k; i++ {
			f = append(f, 0)
		}
		forms = append(forms, f, append(bytesForm("Щ"), f...))
	}
	c.count("text_forms", len(forms))

	var wg sync.WaitGroup
	ch := make(chan fastForm)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				fr.form(f)
			}
		}()
	}
	for _, f := range forms {
		ch <- f
	}
	close(ch)
	wg.Wait()
	c.count("loop_heads_at_a_character", fr.head.at)
	c.count("loop_heads_elsewhere", fr.head.off)
}

// goLits adds the constants of the Go part.
func (fr *fastRun) goLits(out map[int64]bool) {
	for fn := range fr.c.P.Funcs {
		if fnPkg(fn) != fr.pk.Types {
			continue
		}
		if strings.HasPrefix(fn.Name(), "_C") || strings.HasPrefix(fn.Name(), "_cgo") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil {
						if n, ok := isConstInt(&C{V: k.Value}); ok {
							out[int64(n)] = true
						}
					}
				}
			}
		}
	}
}

// form decides one family of texts.
func (fr *fastRun) form(f fastForm) {
	c := fr.c
	key := "text:" + f.String()
	where := c.P.pos(fr.fn.Pos())
	failed := false
	fail := func(w, format string, a ...any) {
		if !failed {
			c.fail(key, w, "texts of the form %s: "+format, append([]any{f.String()}, a...)...)
		}
		failed = true
	}
	defer func() {
		if r := recover(); r != nil {
			fail(where, "not decided: %v", r)
		}
		if !failed {
			c.ok("text: " + f.String())
		}
	}()
	m := newM(c.P)
	m.text = newTextModel()
	m.hook = cgoHook
	st := m.base
	if o := m.call(st, fr.fn.Pkg.Func("init"), nil, nil, nil); len(o) == 1 && !o[0].bad() {
		st = o[0].St
	} else {
		fail(where, "package initialisation cannot be evaluated: %s", outMsg(o))
		return
	}
	s := &Str{T: types.Typ[types.String]}
	raw := false
	for i, x := range f {
		switch {
		case x < 0:
			s = concat(s, &Str{P: []Piece{{Lit: string([]byte{byte(-x)})}}, T: s.T})
		case x == 0:
			raw = true
			s = concat(s, &Str{P: []Piece{m.text.rawByte(st, fmt.Sprintf("b%d", i), rset{{0x80, 0xff}})}, T: s.T})
		default:
			s = concat(s, &Str{P: []Piece{m.text.char(st, fmt.Sprintf("x%d", i), widthSets[x])}, T: s.T})
		}
	}
	m.steps = 0
	globals := func(st *State) string {
		var l []string
		for n, g := range fr.fn.Pkg.Members {
			if v, ok := g.(*ssa.Global); ok && !strings.Contains(n, "_cgo") && n != "init$guard" && !strings.Contains(v.Type().String(), "sync.") {
				x, _ := st.load(m.globalPtr(st, v))
				l = append(l, n+" = "+st.key(x))
			}
		}
		sort.Strings(l)
		return strings.Join(l, "; ")
	}
	before := globals(st)
	for _, o := range m.call(st, fr.fn, []Val{s}, nil, nil) {
		if o.Panic != "" {
			fail(o.Pos, "%s", o.Panic)
			return
		}
		if o.Undec != "" {
			fail(o.Pos, "not decided: %s", o.Undec)
			return
		}
		if after := globals(o.St); after != before {
			fail(where, "package variables are changed: %s", firstDiff(before, after))
			return
		}
		for _, ev := range o.St.events {
			if strings.Contains(ev.Name, "rint") || strings.Contains(ev.Name, "os.") || strings.Contains(ev.Name, "log.") {
				fail(where, "%s is called", strings.TrimPrefix(ev.Name, "extern:"))
				return
			}
		}
		for _, v := range o.St.heap {
			if e, ok := v.(*Expr); ok && strings.HasPrefix(e.Op, "cbuf:") {
				fail(where, "the memory of the C copy is not freed")
				return
			}
		}
		fr.result(f, o, m, raw, fail)
		if failed {
			return
		}
	}
}

func (fr *fastRun) result(f fastForm, o Out, m *M, raw bool, fail func(w, format string, a ...any)) {
	c := fr.c
	where := c.P.pos(fr.fn.Pos())
	e, isC := o.Res.(*Expr)
	if s, ok := o.Res.(*Str); ok && len(s.P) == 1 && s.P[0].V != nil {
		if x, ok := s.P[0].V.(*Expr); ok && strings.HasPrefix(x.Op, "gostr") {
			e, isC = x, true
		}
	}
	if isC && strings.HasPrefix(e.Op, "gostr") {
		head, rest, _ := strings.Cut(e.Op, ":")
		limit := -1
		if n := strings.TrimPrefix(head, "gostrn"); n != head {
			limit, _ = strconv.Atoi(n)
		}
		calls, err := parseCalls(rest)
		if err != nil {
			fail(where, "not decided: %v", err)
			return
		}
		for _, d := range f.domains() {
			fr.runC(f, d, calls, limit, raw, fail)
		}
		return
	}
	if raw {
		return
	}
	s, ok := strOf(o.Res)
	if !ok {
		fail(where, "not decided: result %s", o.St.key(o.Res))
		return
	}
	// the Go code computes the text itself
	var in *Str
	in = &Str{T: types.Typ[types.String]}
	for i, x := range f {
		if x < 0 {
			in = concat(in, &Str{P: []Piece{{Lit: string([]byte{byte(-x)})}}, T: s.T})
		} else {
			in = concat(in, &Str{P: []Piece{{V: mkExpr("chr", types.Typ[types.String], &Leaf{ID: fmt.Sprintf("x%d", i), T: types.Typ[types.Rune]})}}, T: s.T})
		}
	}
	for _, a := range m.text.fork(o.St, func(or *oracle) []alt {
		x, _ := or.flat(in)
		y, rest := or.flat(s)
		if rest != nil || len(x) != len(y) {
			return []alt{{st: or.st, panic: fmt.Sprintf("the result has %d characters, the text has %d", len(y), len(x))}}
		}
		for i := range x {
			iv, ok1 := m.text.iv(or.st, x[i].v)
			ov, ok2 := m.text.iv(or.st, y[i].v)
			if !ok1 || !ok2 || y[i].raw {
				return undec(or.st, "a character of the result")
			}
			if iv.l == nil {
				if ov.l != nil || ov.k != lowerRef(iv.k) {
					return []alt{{st: or.st, panic: fmt.Sprintf("the character %q is not turned into %q", rune(iv.k), rune(lowerRef(iv.k)))}}
				}
				continue
			}
			bad := int64(-1)
			or.st.setOf(iv.l).each(func(r int64) bool {
				got := ov.k
				if ov.l != nil {
					if ov.l.ID != iv.l.ID {
						bad = r
						return false
					}
					got = ov.at(r)
				}
				if got != lowerRef(r) {
					bad = r
					return false
				}
				return true
			})
			if bad >= 0 {
				return []alt{{st: or.st, panic: fmt.Sprintf("the character %q is not turned into %q", rune(bad), rune(lowerRef(bad)))}}
			}
		}
		return one(or.st, cBool(true))
	}) {
		if a.panic != "" {
			fail(where, "%s", a.panic)
			return
		}
		if a.undec != "" {
			fail(where, "not decided: %s", a.undec)
			return
		}
	}
}

func parseCalls(s string) (out []cCallRec, err error) {
	for _, x := range strings.Split(s, ";") {
		if x == "" {
			continue
		}
		i := strings.Index(x, "(")
		if i < 0 || !strings.HasSuffix(x, ")") {
			return nil, fmt.Errorf("call %s", x)
		}
		out = append(out, cCallRec{x[:i], strings.Split(x[i+1:len(x)-1], ",")})
	}
	return
}

// runC interprets the C calls over one byte pattern, refining it as the code
// asks for.
func (fr *fastRun) runC(f fastForm, d []bset, calls []cCallRec, limit int, raw bool, fail func(w, format string, a ...any)) {
	work := [][]bset{d}
	n := 0
	for len(work) > 0 {
		d := work[len(work)-1]
		work = work[:len(work)-1]
		if n++; n > 60000 {
			fail(fr.c.P.pos(fr.fn.Pos()), "not decided: too many cases")
			return
		}
		split, bad, at, off := fr.once(f, d, calls, limit, raw)
		if split != nil {
			for i := len(split.parts) - 1; i >= 0; i-- {
				e := append([]bset(nil), d...)
				e[split.v] = split.parts[i]
				work = append(work, e)
			}
			continue
		}
		fr.mu.Lock()
		fr.head.at += at
		fr.head.off += off
		fr.mu.Unlock()
		if bad != nil {
			file := fr.c.P.relFile(fr.fn.Pkg.Prog.Fset.Position(fr.fn.Pos()).Filename)
			name := fr.fn.Name()
			if len(calls) > 0 {
				name = calls[0].name
				if u := fr.unit[name]; u != nil {
					file = u.file
				}
			}
			w := fmt.Sprintf("%s:%d (%s)", file, bad.line, name)
			var ex []string
			for i, x := range d {
				if len(d) > 16 && i < len(d)-8 {
					continue
				}
				ex = append(ex, x.String())
			}
			what := bad.what
			if bad.undec {
				what = "not decided: " + what
			}
			fail(w, "%s (bytes %s)", what, strings.Join(ex, " "))
			return
		}
	}
	fr.c.count("byte_patterns", n)
}

func (fr *fastRun) once(f fastForm, d []bset, calls []cCallRec, limit int, raw bool) (split *cSplit, bad *cBad, at, off int) {
	r := &cRun{dom: d, objs: map[int]*cObj{}, glob: map[string]int{}}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case cSplit:
			split = &x
		case cBad:
			bad = &x
		default:
			panic(x)
		}
	}()
	ch := parseCType("char")
	u8 := parseCType("unsigned char")
	buf := r.alloc(len(d)+1, ch, "the text")
	in := make([]*cx, len(d))
	for i := range d {
		in[i] = &cx{op: "v", n: int64(i), t: u8, deps: []int{i}}
		if l := d[i].list(); len(l) == 1 {
			in[i] = cc(int64(l[0]), u8)
		}
		r.objs[buf].cells[i] = &cVal{x: r.cast(in[i], ch)}
	}
	r.objs[buf].cells[len(d)] = &cVal{x: cc(0, ch)}
	// where characters start
	start := map[int64]bool{int64(len(d)): true}
	pos := 0
	for _, x := range f {
		start[int64(pos)] = true
		if x <= 0 {
			pos++
		} else {
			pos += x
		}
	}
	r.text = buf
	var first map[string]string
	r.heads = func(r *cRun, fr *cFrame) {
		// every scalar is as at the first arrival or stands at one character
		now := map[string]string{}
		var where *int64
		ok := true
		for id, o := range fr.vars {
			ob := r.objs[o]
			if len(ob.cells) != 1 || ob.cells[0] == nil {
				continue
			}
			v := ob.cells[0]
			var n int64
			switch {
			case v.p != nil:
				n = v.p.off
			case v.x != nil && len(v.x.deps) == 0:
				n = v.x.n
			default:
				ok = false
				continue
			}
			now[id] = fmt.Sprint(n)
			if first != nil && first[id] != now[id] {
				if !start[n] || where != nil && *where != n {
					ok = false
				}
				where = &n
			}
		}
		if first == nil {
			first = now
		}
		if ok {
			at++
		} else {
			off++
		}
	}
	cur := buf
	for _, call := range calls {
		ret := strings.HasPrefix(call.name, "!")
		name := strings.TrimPrefix(call.name, "!")
		u := fr.unit[name]
		if u == nil {
			r.und("the C function %s is not in the repository", name)
		}
		r.u = u
		var args []*cVal
		for _, a := range call.args {
			if a == "b" {
				args = append(args, &cVal{p: &cPtr{obj: cur, t: ch}})
				continue
			}
			n, err := strconv.ParseInt(a, 10, 64)
			if err != nil {
				r.und("argument %s of %s", a, name)
			}
			args = append(args, &cVal{x: cc(n, parseCType("long"))})
		}
		r.line = u.funcs[name].line
		v := r.callC(name, args, cInt32)
		if ret {
			if v.p == nil || v.p.obj == 0 || v.p.off != 0 {
				r.viol("%s does not return a text", name)
			}
			cur = v.p.obj
		}
	}
	out := r.objs[cur].cells
	if limit > len(out) {
		r.viol("%d bytes are read from a block of %d", limit, len(out))
	}
	if limit < 0 {
		for i := range out {
			if out[i] == nil {
				r.viol("byte %d of the result has no value", i)
			}
			if !r.decide(out[i].x) {
				limit = i
				break
			}
		}
		if limit < 0 {
			r.viol("the result is not terminated")
		}
	}
	if raw {
		return
	}
	if limit != len(d) {
		r.viol("the result has %d bytes, the text has %d", limit, len(d))
	}
	pos = 0
	for _, x := range f {
		if x < 0 {
			// a known character
			w := 1
			for pos+w < len(d) && !start[int64(pos+w)] {
				w++
			}
			pos++
			continue
		}
		r.sameChar(in[pos:pos+x], out[pos:pos+x])
		pos += x
	}
	r.sameKnown(f, in, out)
	return
}

// sameKnown compares the known part of the text.
func (r *cRun) sameKnown(f fastForm, in []*cx, out []*cVal) {
	pos := 0
	for i := 0; i < len(f); {
		if f[i] >= 0 {
			pos += f[i]
			i++
			continue
		}
		j := i
		var t []byte
		for j < len(f) && f[j] < 0 {
			t = append(t, byte(-f[j]))
			j++
		}
		var want []byte
		for _, c := range string(t) {
			want = append(want, string(rune(lowerRef(int64(c))))...)
		}
		for k := range want {
			x := out[pos+k].x
			if x == nil || byte(r.known(x)) != want[k] {
				r.viol("byte %d of the known text is wrong", pos+k)
			}
		}
		pos += len(t)
		i = j
	}
}

// sameChar compares one character of the result with the reference, over all
// values of its bytes.
func (r *cRun) sameChar(in []*cx, out []*cVal) {
	var deps []int
	for _, x := range in {
		deps = mergeDeps(deps, x.deps)
	}
	var all []int
	for i, o := range out {
		if o == nil || o.x == nil {
			r.viol("a byte of the result has no value")
		}
		all = mergeDeps(all, o.x.deps)
		_ = i
	}
	all = mergeDeps(all, deps)
	// unchanged: the bytes themselves
	if len(in) > 2 {
		same := true
		for i, o := range out {
			x := o.x
			for x.op == "cast" && x.f == nil {
				x = x.a
			}
			y := in[i]
			if x.op != y.op || x.n&255 != y.n&255 || x.op != "v" && x.op != "c" {
				same = false
			}
		}
		if same {
			return
		}
	}
	n := 1
	for _, v := range all {
		n *= r.dom[v].size()
		if n > 1<<14 {
			for _, w := range all {
				if r.dom[w].size() > 1 {
					r.bisect(&cx{deps: []int{w}})
				}
			}
		}
	}
	val := make(map[int]int64, len(all))
	env := func(v int) int64 { return val[v] }
	var rec func(i int)
	rec = func(i int) {
		if i < len(all) {
			for _, v := range r.dom[all[i]].list() {
				val[all[i]] = int64(v)
				rec(i + 1)
			}
			return
		}
		b := make([]byte, len(in))
		for k, x := range in {
			b[k] = byte(x.eval(env))
		}
		c := []rune(string(b))[0]
		want := string(rune(lowerRef(int64(c))))
		got := make([]byte, len(out))
		for k, o := range out {
			got[k] = byte(o.x.eval(env))
		}
		if string(got) != want {
			r.viol("the character %q becomes the bytes % X instead of %q", c, got, want)
		}
	}
	rec(0)
}

func init() {
	checks["F01"] = checkDef{runF01, "the C code of FastToLower (the comment before import \"C\", parsed and typed by clang) and its Go wrapper (SSA) are interpreted over texts whose bytes are unknown: the domain of a byte is split where the code tells its values apart, every read and write is checked against the extent of the text, and the result is compared with the reference for all values left in the domains. Texts are up to three characters of every width, the lengths the code names around one character, and up to four arbitrary bytes; the loop starts over at a character boundary with nothing else carried along (loop_heads_elsewhere = 0), which extends the verdict to texts of any length. Memory of the C copy: freed once, not used afterwards"}
}
