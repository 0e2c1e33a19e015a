package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os/exec"
	"strconv"
	"strings"
)

// The C half of the repository: an abstract interpreter over clang's typed
// syntax tree. Every byte of the text is unknown; its domain (a set of byte
// values) is split only where the code distinguishes the values.

type cNode struct {
	ID       string          `json:"id"`
	Kind     string          `json:"kind"`
	Name     string          `json:"name"`
	Opcode   string          `json:"opcode"`
	Postfix  bool            `json:"isPostfix"`
	CastKind string          `json:"castKind"`
	RawValue json.RawMessage `json:"value"`
	Storage  string          `json:"storageClass"`
	Init     string          `json:"init"`
	HasElse  bool            `json:"hasElse"`
	Type     *cQual          `json:"type"`
	CompLHS  *cQual          `json:"computeLHSType"`
	CompRes  *cQual          `json:"computeResultType"`
	ArgType  *cQual          `json:"argType"`
	Ref      *cNode          `json:"referencedDecl"`
	Inner    []*cNode        `json:"inner"`
	ArrayF   []*cNode        `json:"array_filler"`
	Loc      cLoc            `json:"loc"`
	Range    struct {
		Begin cLoc `json:"begin"`
	} `json:"range"`
	line int
}

type cLoc struct {
	Line      int   `json:"line"`
	Offset    *int  `json:"offset"`
	Presumed  int   `json:"presumedLine"`
	Expansion *cLoc `json:"expansionLoc"`
	Spelling  *cLoc `json:"spellingLoc"`
}

type cQual struct {
	Q string `json:"qualType"`
	D string `json:"desugaredQualType"`
}

func (n *cNode) value() string {
	s := string(n.RawValue)
	if strings.HasPrefix(s, `"`) {
		var x string
		if json.Unmarshal(n.RawValue, &x) == nil {
			return x
		}
	}
	return s
}

// cUnit is one translation unit.
type cUnit struct {
	file  string
	funcs map[string]*cNode
	decls map[string]*cNode // variables of file scope and enumerators, by id
	enum  map[string]int64
}

// parseC has clang parse and type the source text.
func parseC(src, file, dir string, flags []string) (*cUnit, error) {
	args := append([]string{"-x", "c", "-fsyntax-only", "-w", "-D__NO_CTYPE", "-I" + dir}, flags...)
	args = append(args, "-Xclang", "-ast-dump=json", "-")
	cmd := exec.Command("clang", args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(src)
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("clang: %v: %s", err, eb.String())
	}
	var root cNode
	if err := json.Unmarshal(out, &root); err != nil {
		return nil, err
	}
	u := &cUnit{file: file, funcs: map[string]*cNode{}, decls: map[string]*cNode{}, enum: map[string]int64{}}
	for _, d := range root.Inner {
		switch d.Kind {
		case "FunctionDecl":
			for _, x := range d.Inner {
				if x.Kind == "CompoundStmt" {
					u.funcs[d.Name] = d
				}
			}
		case "VarDecl":
			if len(d.Inner) > 0 || u.decls[d.ID] == nil {
				u.decls[d.ID] = d
			}
		case "EnumDecl":
			next := int64(0)
			for _, e := range d.Inner {
				if e.Kind != "EnumConstantDecl" {
					continue
				}
				for _, x := range e.Inner {
					if v, err := strconv.ParseInt(x.value(), 10, 64); err == nil {
						next = v
					}
				}
				u.enum[e.ID] = next
				next++
			}
		}
	}
	for _, f := range u.funcs {
		number(f, 0)
	}
	return u, nil
}

// number fills in the lines clang leaves out when they do not change.
func number(n *cNode, line int) int {
	for _, l := range []cLoc{n.Loc, n.Range.Begin} {
		if l.Expansion != nil {
			l = *l.Expansion
		}
		if l.Presumed > 0 {
			line = l.Presumed
		} else if l.Line > 0 {
			line = l.Line
		}
	}
	n.line = line
	for _, k := range n.Inner {
		if k != nil {
			line = number(k, line)
		}
	}
	return line
}

// literals are the integer constants of a function body.
func (n *cNode) literals(out map[int64]bool) {
	if n.Kind == "IntegerLiteral" {
		if v, err := strconv.ParseInt(n.value(), 10, 64); err == nil {
			out[v] = true
		}
	}
	for _, k := range n.Inner {
		k.literals(out)
	}
}

// ---- types

type cTy struct {
	k      byte // 'i' integer, 'p' pointer, 'a' array, 'v' void, 'f' function
	bits   int
	signed bool
	elem   *cTy
	n      int
}

var cInt32 = &cTy{k: 'i', bits: 32, signed: true}

func (q *cQual) ty() *cTy {
	if q == nil {
		return cInt32
	}
	if q.D != "" {
		return parseCType(q.D)
	}
	return parseCType(q.Q)
}

func parseCType(s string) *cTy {
	s = strings.TrimSpace(s)
	if strings.HasSuffix(s, "]") {
		if i := strings.Index(s, "["); i >= 0 {
			j := strings.Index(s, "]")
			n, _ := strconv.Atoi(s[i+1 : j])
			return &cTy{k: 'a', n: n, elem: parseCType(s[:i] + s[j+1:])}
		}
	}
	for _, q := range []string{"const", "volatile", "restrict", "register"} {
		for strings.HasPrefix(s, q+" ") {
			s = strings.TrimSpace(s[len(q):])
		}
		for strings.HasSuffix(s, " "+q) || strings.HasSuffix(s, "*"+q) {
			s = strings.TrimSpace(s[:len(s)-len(q)])
		}
	}
	if strings.HasSuffix(s, "*") {
		return &cTy{k: 'p', elem: parseCType(s[:len(s)-1])}
	}
	if strings.HasSuffix(s, ")") {
		return &cTy{k: 'f'}
	}
	i := func(b int, sg bool) *cTy { return &cTy{k: 'i', bits: b, signed: sg} }
	switch s {
	case "void":
		return &cTy{k: 'v'}
	case "_Bool":
		return i(1, false)
	case "char", "signed char", "int8_t", "__int8_t":
		return i(8, true)
	case "unsigned char", "uint8_t", "__uint8_t":
		return i(8, false)
	case "short", "int16_t", "__int16_t":
		return i(16, true)
	case "unsigned short", "uint16_t", "__uint16_t":
		return i(16, false)
	case "int", "int32_t", "__int32_t":
		return i(32, true)
	case "unsigned int", "uint32_t", "__uint32_t":
		return i(32, false)
	case "long", "long long", "int64_t", "__int64_t", "ssize_t", "ptrdiff_t", "intptr_t", "__ssize_t":
		return i(64, true)
	case "unsigned long", "unsigned long long", "uint64_t", "__uint64_t", "size_t", "uintptr_t":
		return i(64, false)
	}
	if strings.HasPrefix(s, "enum ") {
		return i(32, false)
	}
	return &cTy{k: '?'}
}

func (t *cTy) wrap(v int64) int64 {
	switch {
	case t.bits == 1:
		if v != 0 {
			return 1
		}
		return 0
	case t.bits >= 64 || t.bits == 0:
		return v
	}
	v &= 1<<uint(t.bits) - 1
	if t.signed && v>>(uint(t.bits)-1)&1 == 1 {
		v -= 1 << uint(t.bits)
	}
	return v
}

// ---- values

// bset is a set of byte values.
type bset [4]uint64

func (b bset) has(v int) bool { return b[v>>6]>>(uint(v)&63)&1 == 1 }
func (b *bset) put(v int)     { b[v>>6] |= 1 << (uint(v) & 63) }
func (b bset) size() int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}
func (b bset) list() []int {
	var l []int
	for v := 0; v < 256; v++ {
		if b.has(v) {
			l = append(l, v)
		}
	}
	return l
}
func brange(lo, hi int) (b bset) {
	for v := lo; v <= hi; v++ {
		b.put(v)
	}
	return
}
func (b bset) String() string {
	l := b.list()
	if len(l) == 1 {
		return fmt.Sprintf("%02X", l[0])
	}
	return fmt.Sprintf("%02X..%02X", l[0], l[len(l)-1])
}

// cx is an integer expression over the unknown bytes.
type cx struct {
	op   string // "c" constant, "v" byte, or an operator; a, b operands
	n    int64
	a, b *cx
	t    *cTy
	deps []int // bytes it depends on, sorted
	f    func(int64) int64
}

func cc(n int64, t *cTy) *cx { return &cx{op: "c", n: t.wrap(n), t: t} }

func mergeDeps(a, b []int) []int {
	out := append([]int(nil), a...)
	for _, x := range b {
		at := len(out)
		dup := false
		for i, y := range out {
			if y == x {
				dup = true
				break
			}
			if y > x {
				at = i
				break
			}
		}
		if !dup {
			out = append(out[:at], append([]int{x}, out[at:]...)...)
		}
	}
	return out
}

func (e *cx) eval(env func(int) int64) int64 {
	switch e.op {
	case "c":
		return e.n
	case "v":
		return env(int(e.n))
	case "cast", "tab":
		v := e.a.eval(env)
		if e.f != nil {
			v = e.f(v)
		}
		return e.t.wrap(v)
	}
	x := e.a.eval(env)
	if e.b == nil {
		switch e.op {
		case "-":
			return e.t.wrap(-x)
		case "~":
			return e.t.wrap(^x)
		case "!":
			if x == 0 {
				return 1
			}
			return 0
		}
		return e.t.wrap(x)
	}
	y := e.b.eval(env)
	v, _ := cArith(e.op, x, y, e.a.t)
	return e.t.wrap(v)
}

func cArith(op string, x, y int64, t *cTy) (int64, bool) {
	bl := func(b bool) (int64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	uns := t != nil && t.bits == 64 && !t.signed
	switch op {
	case "+":
		return x + y, true
	case "-":
		return x - y, true
	case "*":
		return x * y, true
	case "/", "%":
		if y == 0 {
			return 0, false
		}
		if uns {
			if op == "/" {
				return int64(uint64(x) / uint64(y)), true
			}
			return int64(uint64(x) % uint64(y)), true
		}
		if op == "/" {
			return x / y, true
		}
		return x % y, true
	case "&":
		return x & y, true
	case "|":
		return x | y, true
	case "^":
		return x ^ y, true
	case "<<":
		return x << uint64(y&63), true
	case ">>":
		if uns {
			return int64(uint64(x) >> uint64(y&63)), true
		}
		return x >> uint64(y&63), true
	case "==":
		return bl(x == y)
	case "!=":
		return bl(x != y)
	case "<":
		if uns {
			return bl(uint64(x) < uint64(y))
		}
		return bl(x < y)
	case "<=":
		if uns {
			return bl(uint64(x) <= uint64(y))
		}
		return bl(x <= y)
	case ">":
		if uns {
			return bl(uint64(x) > uint64(y))
		}
		return bl(x > y)
	case ">=":
		if uns {
			return bl(uint64(x) >= uint64(y))
		}
		return bl(x >= y)
	}
	return 0, false
}

// cSplit asks for a finer partition: the domain of byte v is divided.
type cSplit struct {
	v     int
	parts []bset
}

// cBad ends the interpretation: a violation or something not decided.
type cBad struct {
	undec bool
	what  string
	line  int
}

type cPtr struct {
	obj int
	off int64
	t   *cTy // element type
}

type cVal struct {
	x  *cx
	p  *cPtr
	fn string
}

type cObj struct {
	cells  []*cVal
	elem   *cTy
	static bool
	name   string
	freed  bool
}

type cRun struct {
	u     *cUnit
	dom   []bset
	objs  map[int]*cObj
	next  int
	glob  map[string]int
	steps int
	line  int
	depth int
	heads func(r *cRun, fr *cFrame)
	text  int // object of the text
}

type cFrame struct {
	vars  map[string]int
	types map[string]*cTy
	order []string
	ret   *cVal
	loops int
}

func (r *cRun) und(f string, a ...any) { panic(cBad{true, fmt.Sprintf(f, a...), r.line}) }
func (r *cRun) viol(f string, a ...any) {
	panic(cBad{false, fmt.Sprintf(f, a...), r.line})
}

func (r *cRun) alloc(n int, elem *cTy, name string) int {
	r.next++
	r.objs[r.next] = &cObj{cells: make([]*cVal, n), elem: elem, name: name}
	return r.next
}

func (r *cRun) mk(op string, a, b *cx, t *cTy) *cx {
	e := &cx{op: op, a: a, b: b, t: t, deps: a.deps}
	if b != nil {
		e.deps = mergeDeps(a.deps, b.deps)
		if _, ok := cArith(op, 1, 1, nil); !ok {
			r.und("operator %s", op)
		}
		if op == "/" || op == "%" {
			if r.decide(b) == false {
				r.viol("division by zero")
			}
		}
	}
	if len(e.deps) == 0 {
		return &cx{op: "c", n: e.eval(nil), t: t}
	}
	return e
}

func (r *cRun) mapped(a *cx, f func(int64) int64, t *cTy) *cx {
	e := &cx{op: "tab", a: a, f: f, t: t, deps: a.deps}
	if len(e.deps) == 0 {
		return &cx{op: "c", n: e.eval(nil), t: t}
	}
	return e
}

func (r *cRun) cast(a *cx, t *cTy) *cx {
	if a.t.bits == t.bits && a.t.signed == t.signed {
		return a
	}
	return r.mk("cast", a, nil, t)
}

// span is the range of an expression and the number of low bits known to be 0.
func (r *cRun) span(e *cx) (lo, hi int64, tz int) {
	full := func() (int64, int64, int) {
		if e.t.bits >= 64 {
			return -1 << 62, 1 << 62, 0
		}
		if e.t.signed {
			return -1 << uint(e.t.bits-1), 1<<uint(e.t.bits-1) - 1, 0
		}
		return 0, 1<<uint(e.t.bits) - 1, 0
	}
	if len(e.deps) == 0 {
		return e.n, e.n, tzOf(e.n)
	}
	if len(e.deps) == 1 {
		first := true
		tz = 62
		for _, v := range r.dom[e.deps[0]].list() {
			x := e.eval(func(int) int64 { return int64(v) })
			if first || x < lo {
				lo = x
			}
			if first || x > hi {
				hi = x
			}
			if z := tzOf(x); z < tz {
				tz = z
			}
			first = false
		}
		return
	}
	if e.b == nil {
		l, h, z := r.span(e.a)
		if e.op == "cast" {
			if e.t.wrap(l) == l && e.t.wrap(h) == h {
				return l, h, z
			}
			return full()
		}
		if e.op == "!" {
			return 0, 1, 0
		}
		return full()
	}
	al, ah, az := r.span(e.a)
	bl, bh, bz := r.span(e.b)
	fit := func(l, h int64, z int) (int64, int64, int) {
		if e.t.wrap(l) == l && e.t.wrap(h) == h {
			return l, h, z
		}
		return full()
	}
	minz := az
	if bz < minz {
		minz = bz
	}
	switch e.op {
	case "+":
		return fit(al+bl, ah+bh, minz)
	case "-":
		return fit(al-bh, ah-bl, minz)
	case "*":
		if bl == bh && bl >= 0 && ah < 1<<31 && al > -1<<31 && bl < 1<<31 {
			return fit(al*bl, ah*bl, az+tzOf(bl))
		}
	case "<<":
		if bl == bh && bl >= 0 && bl < 32 && al >= 0 && ah < 1<<31 {
			return fit(al<<uint(bl), ah<<uint(bl), az+int(bl))
		}
	case ">>":
		if bl == bh && bl >= 0 && bl < 63 && al >= 0 {
			return al >> uint(bl), ah >> uint(bl), 0
		}
	case "|", "^":
		if al >= 0 && bl >= 0 {
			if bh < 1<<uint(az) || ah < 1<<uint(bz) {
				return al + bl, ah + bh, minz
			}
			n := bits.Len64(uint64(ah | bh))
			l := int64(0)
			if e.op == "|" {
				l = al
				if bl > l {
					l = bl
				}
			}
			return l, 1<<uint(n) - 1, minz
		}
	case "&":
		if bl == bh && bl >= 0 && bl&(bl+1) == 0 { // low-bit mask
			k := uint(bits.Len64(uint64(bl)))
			if al>>k == ah>>k {
				return al & bl, ah & bl, az
			}
			return 0, bl, az
		}
		if al >= 0 && bl >= 0 {
			h := ah
			if bh < h {
				h = bh
			}
			return 0, h, 0
		}
	case "==", "!=", "<", "<=", ">", ">=":
		if e.a.t.bits == 64 && !e.a.t.signed && (al < 0 || bl < 0) {
			return 0, 1, 0
		}
		t, f := false, false
		switch e.op {
		case "==":
			t, f = al == ah && bl == bh && al == bl, ah < bl || bh < al
		case "!=":
			f, t = al == ah && bl == bh && al == bl, ah < bl || bh < al
		case "<":
			t, f = ah < bl, al >= bh
		case "<=":
			t, f = ah <= bl, al > bh
		case ">":
			t, f = al > bh, ah <= bl
		case ">=":
			t, f = al >= bh, ah < bl
		}
		switch {
		case t:
			return 1, 1, 0
		case f:
			return 0, 0, 62
		}
		return 0, 1, 0
	}
	return full()
}

func tzOf(n int64) int {
	if n == 0 {
		return 62
	}
	return bits.TrailingZeros64(uint64(n))
}

// bisect asks for a finer partition of the first byte e depends on that has
// more than one value.
func (r *cRun) bisect(e *cx) {
	for _, v := range e.deps {
		l := r.dom[v].list()
		if len(l) < 2 {
			continue
		}
		var a, b bset
		for i, x := range l {
			if i < len(l)/2 {
				a.put(x)
			} else {
				b.put(x)
			}
		}
		panic(cSplit{v, []bset{a, b}})
	}
	r.und("an expression without a value")
}

// decide tells whether e is not 0, splitting the partition if it is not known.
func (r *cRun) decide(e *cx) bool {
	if len(e.deps) == 0 {
		return e.n != 0
	}
	if len(e.deps) == 1 {
		v := e.deps[0]
		var t, f bset
		for _, x := range r.dom[v].list() {
			if e.eval(func(int) int64 { return int64(x) }) != 0 {
				t.put(x)
			} else {
				f.put(x)
			}
		}
		switch {
		case f.size() == 0:
			return true
		case t.size() == 0:
			return false
		}
		panic(cSplit{v, []bset{t, f}})
	}
	lo, hi, _ := r.span(e)
	if lo > 0 || hi < 0 {
		return true
	}
	if lo == 0 && hi == 0 {
		return false
	}
	n := 1
	for _, v := range e.deps {
		n *= r.dom[v].size()
	}
	if n <= 1<<13 {
		return r.sift(e)
	}
	r.bisect(e)
	return false
}

// sift decides a condition by its value table, or divides the domain of a byte
// into the values that make it true, make it false and leave it open.
func (r *cRun) sift(e *cx) bool {
	val := map[int]int64{}
	env := func(v int) int64 { return val[v] }
	var some func(deps []int) (t, f bool)
	some = func(deps []int) (t, f bool) {
		if len(deps) == 0 {
			v := e.eval(env) != 0
			return v, !v
		}
		for _, x := range r.dom[deps[0]].list() {
			val[deps[0]] = int64(x)
			a, b := some(deps[1:])
			t, f = t || a, f || b
			if t && f {
				return
			}
		}
		return
	}
	t, f := some(e.deps)
	if !t || !f {
		return t
	}
	for i, v := range e.deps {
		rest := append(append([]int(nil), e.deps[:i]...), e.deps[i+1:]...)
		var parts [3]bset
		for _, x := range r.dom[v].list() {
			val[v] = int64(x)
			a, b := some(rest)
			switch {
			case !b:
				parts[0].put(x)
			case !a:
				parts[1].put(x)
			default:
				parts[2].put(x)
			}
		}
		var l []bset
		for _, p := range parts {
			if p.size() > 0 {
				l = append(l, p)
			}
		}
		if len(l) > 1 {
			panic(cSplit{v, l})
		}
	}
	r.bisect(e)
	return false
}

// known is the one value of e.
func (r *cRun) known(e *cx) int64 {
	if len(e.deps) == 0 {
		return e.n
	}
	var val int64
	if len(e.deps) == 1 {
		v := e.deps[0]
		groups := map[int64]*bset{}
		var order []int64
		for _, x := range r.dom[v].list() {
			y := e.eval(func(int) int64 { return int64(x) })
			if groups[y] == nil {
				groups[y] = &bset{}
				order = append(order, y)
			}
			groups[y].put(x)
			val = y
		}
		if len(order) == 1 {
			return val
		}
		var parts []bset
		for _, y := range order {
			parts = append(parts, *groups[y])
		}
		panic(cSplit{v, parts})
	}
	lo, hi, _ := r.span(e)
	if lo == hi {
		return lo
	}
	r.bisect(e)
	return 0
}

// ---- memory

func (r *cRun) cell(p *cPtr, write bool) *cObj {
	o := r.objs[p.obj]
	verb := "read"
	if write {
		verb = "written"
	}
	if o == nil {
		r.viol("memory is %s through a null pointer", verb)
	}
	if o.freed {
		r.viol("memory is %s after it was freed", verb)
	}
	if p.off < 0 || p.off >= int64(len(o.cells)) {
		r.viol("memory outside %s is %s (offset %d of %d bytes)", o.name, verb, p.off, len(o.cells))
	}
	if write && o.static {
		r.viol("%s is changed: a call would depend on earlier calls", o.name)
	}
	return o
}

func (r *cRun) load(p *cPtr, t *cTy) *cVal {
	o := r.cell(p, false)
	v := o.cells[p.off]
	if v == nil {
		r.viol("%s is read before it has a value", o.name)
	}
	if v.x == nil || t.k != 'i' {
		return v
	}
	if o.elem.k == 'i' && o.elem.bits != t.bits {
		r.und("memory of %d-bit elements read as %d bits", o.elem.bits, t.bits)
	}
	return &cVal{x: r.cast(v.x, t)}
}

func (r *cRun) store(p *cPtr, v *cVal, t *cTy) {
	o := r.cell(p, true)
	if v.x != nil && t.k == 'i' {
		if o.elem.k == 'i' && o.elem.bits != t.bits {
			r.und("memory of %d-bit elements written as %d bits", o.elem.bits, t.bits)
		}
		v = &cVal{x: r.cast(v.x, t)}
	}
	o.cells[p.off] = v
}

// ---- expressions

func (r *cRun) tick(n *cNode) {
	if n.line > 0 {
		r.line = n.line
	}
	if r.steps++; r.steps > 3_000_000 {
		r.viol("it does not come to an end")
	}
}

func (r *cRun) lval(fr *cFrame, n *cNode) (*cPtr, *cTy) {
	r.tick(n)
	switch n.Kind {
	case "ParenExpr":
		return r.lval(fr, n.Inner[0])
	case "DeclRefExpr":
		if o, ok := fr.vars[n.Ref.ID]; ok {
			return &cPtr{obj: o}, n.Type.ty()
		}
		if d := r.u.decls[n.Ref.ID]; d != nil {
			o, ok := r.glob[d.ID]
			if !ok {
				t := d.Type.ty()
				o = r.declare(nil, d, t)
				r.glob[d.ID] = o
				r.objs[o].static = true
			}
			return &cPtr{obj: o}, n.Type.ty()
		}
	case "ArraySubscriptExpr":
		a, b := r.rval(fr, n.Inner[0]), r.rval(fr, n.Inner[1])
		if a.p == nil {
			a, b = b, a
		}
		if a.p == nil || b.x == nil {
			break
		}
		return &cPtr{obj: a.p.obj, off: a.p.off + r.known(b.x), t: a.p.t}, n.Type.ty()
	case "UnaryOperator":
		if n.Opcode == "*" {
			v := r.rval(fr, n.Inner[0])
			if v.p != nil {
				return v.p, n.Type.ty()
			}
		}
		if n.Opcode == "++" || n.Opcode == "--" || n.Opcode == "__extension__" {
			return r.lval(fr, n.Inner[0])
		}
	case "StringLiteral":
		s, err := strconv.Unquote(n.value())
		if err != nil {
			break
		}
		o := r.alloc(len(s)+1, parseCType("char"), "a string constant")
		for i := 0; i <= len(s); i++ {
			c := byte(0)
			if i < len(s) {
				c = s[i]
			}
			r.objs[o].cells[i] = &cVal{x: cc(int64(c), parseCType("char"))}
		}
		r.objs[o].static = true
		return &cPtr{obj: o}, n.Type.ty()
	}
	r.und("C construct %s", n.Kind)
	return nil, nil
}

func (r *cRun) num(fr *cFrame, n *cNode) *cx {
	v := r.rval(fr, n)
	if v == nil || v.x == nil {
		r.und("a number was expected (%s)", n.Kind)
	}
	return v.x
}

// truth decides a condition.
func (r *cRun) truth(fr *cFrame, n *cNode) bool {
	switch {
	case n.Kind == "ParenExpr":
		return r.truth(fr, n.Inner[0])
	case n.Kind == "BinaryOperator" && n.Opcode == "&&":
		return r.truth(fr, n.Inner[0]) && r.truth(fr, n.Inner[1])
	case n.Kind == "BinaryOperator" && n.Opcode == "||":
		return r.truth(fr, n.Inner[0]) || r.truth(fr, n.Inner[1])
	case n.Kind == "UnaryOperator" && n.Opcode == "!":
		return !r.truth(fr, n.Inner[0])
	}
	v := r.rval(fr, n)
	if v.p != nil {
		return v.p.obj != 0
	}
	if v.x == nil {
		r.und("condition")
	}
	return r.decide(v.x)
}

func (r *cRun) rval(fr *cFrame, n *cNode) *cVal {
	r.tick(n)
	bool1 := func(b bool) *cVal {
		if b {
			return &cVal{x: cc(1, cInt32)}
		}
		return &cVal{x: cc(0, cInt32)}
	}
	switch n.Kind {
	case "IntegerLiteral", "CharacterLiteral":
		v, err := strconv.ParseInt(n.value(), 10, 64)
		if err != nil {
			u, err := strconv.ParseUint(n.value(), 10, 64)
			if err != nil {
				r.und("constant %s", n.value())
			}
			v = int64(u)
		}
		return &cVal{x: cc(v, n.Type.ty())}
	case "ParenExpr", "ConstantExpr":
		return r.rval(fr, n.Inner[0])
	case "UnaryExprOrTypeTraitExpr":
		t := n.ArgType.ty()
		if n.ArgType == nil && len(n.Inner) > 0 {
			t = n.Inner[0].Type.ty()
		}
		size := func(t *cTy) int64 { return int64((t.bits + 7) / 8) }
		switch t.k {
		case 'i':
			return &cVal{x: cc(size(t), n.Type.ty())}
		case 'p':
			return &cVal{x: cc(8, n.Type.ty())}
		case 'a':
			if t.elem.k == 'i' {
				return &cVal{x: cc(int64(t.n)*size(t.elem), n.Type.ty())}
			}
		}
	case "DeclRefExpr":
		if v, ok := r.u.enum[n.Ref.ID]; ok {
			return &cVal{x: cc(v, n.Type.ty())}
		}
		if n.Ref.Kind == "FunctionDecl" {
			return &cVal{fn: n.Ref.Name}
		}
	case "CStyleCastExpr", "ImplicitCastExpr":
		t := n.Type.ty()
		in := n.Inner[0]
		switch n.CastKind {
		case "LValueToRValue":
			p, lt := r.lval(fr, in)
			return r.load(p, lt)
		case "ArrayToPointerDecay":
			p, _ := r.lval(fr, in)
			return &cVal{p: &cPtr{obj: p.obj, off: p.off, t: t.elem}}
		case "FunctionToPointerDecay", "BuiltinFnToFnPtr":
			return r.rval(fr, in)
		case "NullToPointer":
			return &cVal{p: &cPtr{t: t.elem}}
		case "ToVoid":
			r.rval(fr, in)
			return &cVal{x: cc(0, cInt32)}
		case "IntegralToBoolean", "PointerToBoolean":
			return bool1(r.truth(fr, in))
		case "IntegralCast":
			return &cVal{x: r.cast(r.num(fr, in), t)}
		case "BitCast", "NoOp":
			v := r.rval(fr, in)
			if v.p != nil && t.k == 'p' {
				return &cVal{p: &cPtr{obj: v.p.obj, off: v.p.off, t: t.elem}}
			}
			return v
		}
		r.und("conversion %s", n.CastKind)
	case "UnaryOperator":
		switch n.Opcode {
		case "++", "--":
			p, t := r.lval(fr, n.Inner[0])
			old := r.load(p, t)
			d := int64(1)
			if n.Opcode == "--" {
				d = -1
			}
			var nv *cVal
			if old.p != nil {
				nv = &cVal{p: &cPtr{obj: old.p.obj, off: old.p.off + d, t: old.p.t}}
			} else {
				nv = &cVal{x: r.mk("+", old.x, cc(d, old.x.t), t)}
			}
			r.store(p, nv, t)
			if n.Postfix {
				return old
			}
			return nv
		case "&":
			p, t := r.lval(fr, n.Inner[0])
			return &cVal{p: &cPtr{obj: p.obj, off: p.off, t: t}}
		case "*":
			p, t := r.lval(fr, n)
			return r.load(p, t)
		case "!":
			return bool1(!r.truth(fr, n.Inner[0]))
		case "+", "__extension__":
			return r.rval(fr, n.Inner[0])
		case "-", "~":
			return &cVal{x: r.mk(n.Opcode, r.num(fr, n.Inner[0]), nil, n.Type.ty())}
		}
	case "ConditionalOperator":
		if r.truth(fr, n.Inner[0]) {
			return r.rval(fr, n.Inner[1])
		}
		return r.rval(fr, n.Inner[2])
	case "BinaryOperator":
		switch n.Opcode {
		case "&&", "||":
			return bool1(r.truth(fr, n))
		case ",":
			r.rval(fr, n.Inner[0])
			return r.rval(fr, n.Inner[1])
		case "=":
			v := r.rval(fr, n.Inner[1])
			p, t := r.lval(fr, n.Inner[0])
			r.store(p, v, t)
			return v
		}
		return r.binary(n.Opcode, r.rval(fr, n.Inner[0]), r.rval(fr, n.Inner[1]), n.Type.ty())
	case "CompoundAssignOperator":
		p, t := r.lval(fr, n.Inner[0])
		old := r.load(p, t)
		b := r.rval(fr, n.Inner[1])
		if old.x != nil && n.CompLHS != nil {
			old = &cVal{x: r.cast(old.x, n.CompLHS.ty())}
		}
		rt := t
		if n.CompRes != nil {
			rt = n.CompRes.ty()
		}
		v := r.binary(strings.TrimSuffix(n.Opcode, "="), old, b, rt)
		r.store(p, v, t)
		return v
	case "ArraySubscriptExpr":
		p, t := r.lval(fr, n)
		return r.load(p, t)
	case "CallExpr":
		f := r.rval(fr, n.Inner[0])
		var args []*cVal
		for _, a := range n.Inner[1:] {
			args = append(args, r.rval(fr, a))
		}
		return r.callC(f.fn, args, n.Type.ty())
	}
	r.und("C construct %s %s", n.Kind, n.Opcode)
	return nil
}

func (r *cRun) binary(op string, a, b *cVal, t *cTy) *cVal {
	switch {
	case a.p != nil && b.p != nil:
		bo := func(v bool) *cVal {
			if v {
				return &cVal{x: cc(1, t)}
			}
			return &cVal{x: cc(0, t)}
		}
		if a.p.obj == b.p.obj {
			v, ok := cArith(op, a.p.off, b.p.off, nil)
			if ok {
				return &cVal{x: cc(v, t)}
			}
		}
		switch op {
		case "==":
			return bo(false)
		case "!=":
			return bo(true)
		}
		r.und("pointers to different memory are compared")
	case a.p != nil && b.x != nil:
		d := r.known(b.x)
		if op == "-" {
			d = -d
		} else if op != "+" {
			r.und("pointer operator %s", op)
		}
		return &cVal{p: &cPtr{obj: a.p.obj, off: a.p.off + d, t: a.p.t}}
	case b.p != nil && a.x != nil && op == "+":
		return &cVal{p: &cPtr{obj: b.p.obj, off: b.p.off + r.known(a.x), t: b.p.t}}
	case a.x == nil || b.x == nil:
		r.und("operands of %s", op)
	}
	return &cVal{x: r.mk(op, a.x, b.x, t)}
}

var ctypeFns = map[string]func(int64) bool{
	"isupper": func(v int64) bool { return v >= 'A' && v <= 'Z' },
	"islower": func(v int64) bool { return v >= 'a' && v <= 'z' },
	"isalpha": func(v int64) bool { return v >= 'A' && v <= 'Z' || v >= 'a' && v <= 'z' },
	"isdigit": func(v int64) bool { return v >= '0' && v <= '9' },
	"isalnum": func(v int64) bool { return v >= 'A' && v <= 'Z' || v >= 'a' && v <= 'z' || v >= '0' && v <= '9' },
	"isspace": func(v int64) bool { return v == ' ' || v >= 9 && v <= 13 },
	"isascii": func(v int64) bool { return v >= 0 && v < 128 },
}

func (r *cRun) callC(name string, args []*cVal, rt *cTy) *cVal {
	if f := r.u.funcs[name]; f != nil {
		return r.callUser(f, args)
	}
	one := func() *cx {
		if len(args) != 1 || args[0].x == nil {
			r.und("call of %s", name)
		}
		return args[0].x
	}
	ptr := func(i int) *cPtr {
		if i >= len(args) || args[i].p == nil {
			r.und("call of %s", name)
		}
		return args[i].p
	}
	num := func(i int) int64 {
		if i >= len(args) || args[i].x == nil {
			r.und("call of %s", name)
		}
		return r.known(args[i].x)
	}
	ch := parseCType("char")
	at := func(p *cPtr, i int64) *cPtr { return &cPtr{obj: p.obj, off: p.off + i, t: p.t} }
	strlen := func(p *cPtr) int64 {
		for i := int64(0); ; i++ {
			r.tick(&cNode{})
			if !r.decide(r.load(at(p, i), ch).x) {
				return i
			}
		}
	}
	switch name {
	case "tolower":
		return &cVal{x: r.mapped(one(), func(v int64) int64 {
			if v >= 'A' && v <= 'Z' {
				return v + 32
			}
			return v
		}, cInt32)}
	case "toupper":
		return &cVal{x: r.mapped(one(), func(v int64) int64 {
			if v >= 'a' && v <= 'z' {
				return v - 32
			}
			return v
		}, cInt32)}
	case "strlen":
		return &cVal{x: cc(strlen(ptr(0)), rt)}
	case "memcpy", "memmove", "__builtin_memcpy":
		d, s, n := ptr(0), ptr(1), num(2)
		var tmp []*cVal
		for i := int64(0); i < n; i++ {
			r.cell(at(s, i), false)
			tmp = append(tmp, r.objs[s.obj].cells[s.off+i])
		}
		for i := int64(0); i < n; i++ {
			r.cell(at(d, i), true).cells[d.off+i] = tmp[i]
		}
		return args[0]
	case "memset":
		d, v, n := ptr(0), num(1), num(2)
		for i := int64(0); i < n; i++ {
			r.cell(at(d, i), true).cells[d.off+i] = &cVal{x: cc(v, ch)}
		}
		return args[0]
	case "strcpy":
		d, s := ptr(0), ptr(1)
		n := strlen(s)
		for i := int64(0); i <= n; i++ {
			r.store(at(d, i), r.load(at(s, i), ch), ch)
		}
		return args[0]
	case "malloc", "calloc":
		n := num(0)
		if name == "calloc" {
			n *= num(1)
		}
		o := r.alloc(int(n), ch, "the allocated block")
		if name == "calloc" {
			for i := range r.objs[o].cells {
				r.objs[o].cells[i] = &cVal{x: cc(0, ch)}
			}
		}
		return &cVal{p: &cPtr{obj: o, t: ch}}
	case "free":
		p := ptr(0)
		if p.obj != 0 {
			if r.objs[p.obj].freed || p.off != 0 {
				r.viol("memory is freed that was not allocated or is freed already")
			}
			r.objs[p.obj].freed = true
		}
		return &cVal{x: cc(0, cInt32)}
	case "printf", "puts", "putchar", "fflush", "perror":
		r.viol("%s writes to the output of the program", name)
	}
	if f := ctypeFns[name]; f != nil {
		return &cVal{x: r.mapped(one(), func(v int64) int64 {
			if f(v) {
				return 1
			}
			return 0
		}, cInt32)}
	}
	r.und("call of the function %s", name)
	return nil
}

func (r *cRun) callUser(f *cNode, args []*cVal) *cVal {
	if r.depth++; r.depth > 2000 {
		r.viol("endless recursion in %s", f.Name)
	}
	fr := &cFrame{vars: map[string]int{}, types: map[string]*cTy{}}
	i := 0
	var body *cNode
	for _, d := range f.Inner {
		switch d.Kind {
		case "ParmVarDecl":
			t := d.Type.ty()
			o := r.alloc(1, t, "parameter "+d.Name)
			if i < len(args) {
				v := args[i]
				if v.x != nil && t.k == 'i' {
					v = &cVal{x: r.cast(v.x, t)}
				}
				r.objs[o].cells[0] = v
			}
			fr.vars[d.ID] = o
			fr.types[d.ID] = t
			i++
		case "CompoundStmt":
			body = d
		}
	}
	r.exec(fr, body)
	r.depth--
	if fr.ret == nil {
		return &cVal{x: cc(0, cInt32)}
	}
	return fr.ret
}

// ---- statements

type cFlow int

const (
	cNext cFlow = iota
	cBreak
	cContinue
	cReturn
)

func (r *cRun) declare(fr *cFrame, d *cNode, t *cTy) int {
	n, elem := 1, t
	if t.k == 'a' {
		n, elem = t.n, t.elem
		if elem.k == 'a' {
			r.und("arrays of arrays")
		}
	}
	o := r.alloc(n, elem, "variable "+d.Name)
	if d.Init == "" || len(d.Inner) == 0 {
		if fr == nil {
			for i := range r.objs[o].cells {
				r.objs[o].cells[i] = &cVal{x: cc(0, elem)}
			}
		}
		return o
	}
	if fr == nil {
		fr = &cFrame{vars: map[string]int{}, types: map[string]*cTy{}}
	}
	in := d.Inner[len(d.Inner)-1]
	for in.Kind == "ParenExpr" {
		in = in.Inner[0]
	}
	if t.k != 'a' {
		v := r.rval(fr, in)
		if v.x != nil && t.k == 'i' {
			v = &cVal{x: r.cast(v.x, t)}
		}
		r.objs[o].cells[0] = v
		return o
	}
	for i := range r.objs[o].cells {
		r.objs[o].cells[i] = &cVal{x: cc(0, elem)}
	}
	switch in.Kind {
	case "StringLiteral":
		p, _ := r.lval(fr, in)
		src := r.objs[p.obj].cells
		for i := range r.objs[o].cells {
			if i < len(src) {
				r.objs[o].cells[i] = &cVal{x: r.cast(src[i].x, elem)}
			}
		}
	case "InitListExpr":
		els := in.Inner
		if len(in.ArrayF) > 0 {
			els = in.ArrayF[1:]
		}
		for i, e := range els {
			if i >= n {
				break
			}
			if e.Kind == "ImplicitValueInitExpr" {
				continue
			}
			v := r.rval(fr, e)
			if v.x != nil {
				v = &cVal{x: r.cast(v.x, elem)}
			}
			r.objs[o].cells[i] = v
		}
	default:
		r.und("initial value of %s", d.Name)
	}
	return o
}

func (r *cRun) exec(fr *cFrame, n *cNode) cFlow {
	if n == nil || n.Kind == "" {
		return cNext
	}
	r.tick(n)
	scope := func(f func() cFlow) cFlow {
		mark := len(fr.order)
		fl := f()
		for _, id := range fr.order[mark:] {
			delete(fr.vars, id)
			delete(fr.types, id)
		}
		fr.order = fr.order[:mark]
		return fl
	}
	loop := func(first bool, cond, step, body *cNode) cFlow {
		outer := fr.loops == 0 && r.depth == 1
		fr.loops++
		defer func() { fr.loops-- }()
		for i := 0; ; i++ {
			if outer && r.heads != nil {
				r.heads(r, fr)
			}
			if (first || i > 0) && cond != nil && cond.Kind != "" && !r.truth(fr, cond) {
				return cNext
			}
			switch r.exec(fr, body) {
			case cBreak:
				return cNext
			case cReturn:
				return cReturn
			}
			if step != nil && step.Kind != "" {
				r.rval(fr, step)
			}
			r.tick(n)
		}
	}
	switch n.Kind {
	case "NullStmt":
		return cNext
	case "CompoundStmt":
		return scope(func() cFlow {
			for _, s := range n.Inner {
				if fl := r.exec(fr, s); fl != cNext {
					return fl
				}
			}
			return cNext
		})
	case "DeclStmt":
		for _, d := range n.Inner {
			if d.Kind != "VarDecl" {
				continue
			}
			t := d.Type.ty()
			if d.Storage == "static" || d.Storage == "extern" {
				o, ok := r.glob[d.ID]
				if !ok {
					o = r.declare(nil, d, t)
					r.glob[d.ID] = o
					r.objs[o].static = true
				}
				fr.vars[d.ID] = o
			} else {
				fr.vars[d.ID] = r.declare(fr, d, t)
			}
			fr.types[d.ID] = t
			fr.order = append(fr.order, d.ID)
		}
		return cNext
	case "IfStmt":
		if r.truth(fr, n.Inner[0]) {
			return r.exec(fr, n.Inner[1])
		}
		if n.HasElse && len(n.Inner) > 2 {
			return r.exec(fr, n.Inner[2])
		}
		return cNext
	case "ForStmt":
		return scope(func() cFlow {
			if n.Inner[0] != nil && n.Inner[0].Kind != "" {
				if n.Inner[0].Kind == "DeclStmt" {
					r.exec(fr, n.Inner[0])
				} else {
					r.rval(fr, n.Inner[0])
				}
			}
			return loop(true, n.Inner[2], n.Inner[3], n.Inner[4])
		})
	case "WhileStmt":
		return loop(true, n.Inner[0], nil, n.Inner[len(n.Inner)-1])
	case "DoStmt":
		return loop(false, n.Inner[1], nil, n.Inner[0])
	case "BreakStmt":
		return cBreak
	case "ContinueStmt":
		return cContinue
	case "ReturnStmt":
		if len(n.Inner) > 0 {
			fr.ret = r.rval(fr, n.Inner[0])
		}
		return cReturn
	case "SwitchStmt":
		v := r.num(fr, n.Inner[0])
		body := n.Inner[len(n.Inner)-1]
		if body.Kind != "CompoundStmt" {
			r.und("switch without a block")
		}
		start := -1
		def := -1
		for i, s := range body.Inner {
			for x := s; x != nil && (x.Kind == "CaseStmt" || x.Kind == "DefaultStmt"); x = x.Inner[len(x.Inner)-1] {
				if x.Kind == "DefaultStmt" {
					def = i
					continue
				}
				lo := r.num(fr, x.Inner[0])
				var c *cx
				if len(x.Inner) > 2 {
					hi := r.num(fr, x.Inner[1])
					if r.decide(r.mk(">=", v, lo, cInt32)) && r.decide(r.mk("<=", v, hi, cInt32)) {
						start = i
					}
				} else {
					c = r.mk("==", v, lo, cInt32)
					if r.decide(c) {
						start = i
					}
				}
			}
			if start >= 0 {
				break
			}
		}
		if start < 0 {
			start = def
		}
		if start < 0 {
			return cNext
		}
		return scope(func() cFlow {
			for _, s := range body.Inner[start:] {
				for s.Kind == "CaseStmt" || s.Kind == "DefaultStmt" {
					s = s.Inner[len(s.Inner)-1]
				}
				switch fl := r.exec(fr, s); fl {
				case cBreak:
					return cNext
				case cContinue, cReturn:
					return fl
				}
			}
			return cNext
		})
	case "GotoStmt", "LabelStmt", "IndirectGotoStmt", "GCCAsmStmt":
		r.und("C construct %s", n.Kind)
	}
	r.rval(fr, n)
	return cNext
}
