package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"
)

// rset is a set of integers as sorted disjoint closed ranges.
type rng struct{ lo, hi int64 }
type rset []rng

func (a rset) and(b rset) rset {
	var r rset
	for _, x := range a {
		for _, y := range b {
			lo, hi := max(x.lo, y.lo), min(x.hi, y.hi)
			if lo <= hi {
				r = append(r, rng{lo, hi})
			}
		}
	}
	return r
}

func (a rset) minus(b rset) rset {
	cur := append(rset{}, a...)
	for _, y := range b {
		var n rset
		for _, x := range cur {
			if y.hi < x.lo || y.lo > x.hi {
				n = append(n, x)
				continue
			}
			if x.lo < y.lo {
				n = append(n, rng{x.lo, y.lo - 1})
			}
			if y.hi < x.hi {
				n = append(n, rng{y.hi + 1, x.hi})
			}
		}
		cur = n
	}
	return cur
}

func (a rset) has(v int64) bool {
	for _, x := range a {
		if v >= x.lo && v <= x.hi {
			return true
		}
	}
	return false
}

func (a rset) single() (int64, bool) {
	if len(a) == 1 && a[0].lo == a[0].hi {
		return a[0].lo, true
	}
	return 0, false
}

func (a rset) String() string {
	var b []string
	for i, x := range a {
		if i > 6 {
			b = append(b, "...")
			break
		}
		if x.lo == x.hi {
			b = append(b, fmt.Sprint(x.lo))
		} else {
			b = append(b, fmt.Sprintf("%d..%d", x.lo, x.hi))
		}
	}
	return "{" + strings.Join(b, ",") + "}"
}

const bigInt = int64(1) << 40

func typeSet(t types.Type) rset {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return rset{{0, 255}}
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return rset{{0, bigInt}}
		}
	}
	return rset{{-bigInt, bigInt}}
}

func (st *State) setOf(l *Leaf) rset {
	if s, ok := st.ints[l.ID]; ok {
		return s
	}
	return typeSet(l.T)
}

// linear decomposes an integer value into leaf + k.
func (st *State) linear(v Val) (*Leaf, int64, bool) {
	v = st.res(v)
	switch x := v.(type) {
	case *Leaf:
		if isInt(x.T) {
			return x, 0, true
		}
	case *Expr:
		if x.Op == "lin" {
			l, ok := x.A[0].(*Leaf)
			if !ok {
				return nil, 0, false
			}
			k, _ := constant.Int64Val(x.A[1].(*C).V)
			if b, ok := st.bind[l.ID]; ok {
				_ = b
				return nil, 0, false
			}
			return l, k, true
		}
	}
	return nil, 0, false
}

// evalLin folds a linear value whose leaf is known by now.
func (st *State) evalLin(v Val) Val {
	v = st.res(v)
	if x, ok := v.(*Expr); ok && x.Op == "lin" {
		if c, ok := st.res(x.A[0]).(*C); ok {
			return &C{constant.BinaryOp(c.V, token.ADD, x.A[1].(*C).V), x.T}
		}
	}
	if x, ok := v.(*Expr); ok && x.fn != nil {
		if c, ok := st.res(x.A[0]).(*C); ok {
			n, _ := constant.Int64Val(c.V)
			return &C{constant.MakeInt64(x.fn(n)), x.T}
		}
	}
	if x, ok := v.(*Expr); ok && x.Op == "tlen" {
		if n, rest, ok := (&textModel{}).tlen(st, x); ok {
			if rest == nil {
				return cInt(n)
			}
			return mkExpr("tlen", x.T, rest, cInt(n))
		}
	}
	return v
}

func mkLin(l *Leaf, k int64, t types.Type) Val {
	if k == 0 {
		return l
	}
	return mkExpr("lin", t, l, &C{constant.MakeInt64(k), types.Typ[types.Int]})
}

func (m *M) wrapInt(v constant.Value, t types.Type) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || v.Kind() != constant.Int {
		return &C{v, t}
	}
	bits, unsigned := 64, b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	if i, exact := constant.Int64Val(v); exact {
		if bits < 64 {
			if unsigned {
				i &= (1 << bits) - 1
			} else {
				i = i << (64 - bits) >> (64 - bits)
			}
			return &C{constant.MakeInt64(i), t}
		}
		if unsigned && i < 0 {
			return &C{constant.MakeUint64(uint64(i)), t}
		}
	}
	return &C{v, t}
}

func (m *M) binop(st *State, op token.Token, a, b Val, t types.Type) []alt {
	a, b = st.evalLin(a), st.evalLin(b)
	if m.text != nil {
		if r, ok := m.text.binop(m, st, op, a, b, t); ok {
			return r
		}
	}
	switch op {
	case token.EQL:
		return one(st, m.equal(st, a, b))
	case token.NEQ:
		e := m.equal(st, a, b)
		if c, ok := e.(*C); ok {
			return one(st, cBool(!constant.BoolVal(c.V)))
		}
		return one(st, mkExpr("!", types.Typ[types.Bool], e))
	}
	ca, ok1 := a.(*C)
	cb, ok2 := b.(*C)
	if ok1 && ok2 {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return one(st, cBool(constant.Compare(ca.V, op, cb.V)))
		case token.QUO, token.REM:
			if isInt(t) {
				if constant.Sign(cb.V) == 0 {
					return []alt{{st: st, panic: "integer division by zero"}}
				}
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return one(st, m.wrapInt(constant.BinaryOp(ca.V, o, cb.V), t))
			}
			if constant.Sign(cb.V) == 0 {
				return one(st, mkExpr(op.String(), t, a, b))
			}
			return one(st, &C{constant.BinaryOp(ca.V, op, cb.V), t})
		case token.SHL, token.SHR:
			s, _ := constant.Uint64Val(cb.V)
			if s > 64 {
				return undec(st, "large shift")
			}
			return one(st, m.wrapInt(constant.Shift(ca.V, op, uint(s)), t))
		case token.AND_NOT:
			return one(st, m.wrapInt(constant.BinaryOp(ca.V, token.AND, constant.UnaryOp(token.XOR, cb.V, 0)), t))
		default:
			return one(st, m.wrapInt(constant.BinaryOp(ca.V, op, cb.V), t))
		}
	}
	sa, isSa := strOf(a)
	sb, isSb := strOf(b)
	if isSa && isSb {
		switch op {
		case token.ADD:
			return one(st, concat(sa, sb))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			x, k1 := constStr(sa)
			y, k2 := constStr(sb)
			if k1 && k2 {
				return one(st, cBool(cmpStr(op, strings.Compare(x, y))))
			}
			// two different opaque names: their order is the order of their
			// identities, without loss of generality
			if l1, k1 := soleLeaf(sa); k1 {
				if l2, k2 := soleLeaf(sb); k2 && l1.Distinct && l2.Distinct {
					return one(st, cBool(cmpStr(op, strings.Compare(l1.ID, l2.ID))))
				}
			}
			if op == token.GTR || op == token.LEQ {
				sa, sb = sb, sa
			}
			e := mkExpr("strless", types.Typ[types.Bool], sa, sb)
			if op == token.LEQ || op == token.GEQ {
				return one(st, mkExpr("!", types.Typ[types.Bool], e))
			}
			return one(st, e)
		}
	}
	// len(text) against small constants is a question about emptiness
	if r, ok := m.lenCmp(st, op, a, b); ok {
		return one(st, r)
	}
	la, ka, lin1 := st.linear(a)
	lb, kb, lin2 := st.linear(b)
	if ok1 && ca.V.Kind() != constant.Int {
		lin2 = false
	}
	if ok2 && cb.V.Kind() != constant.Int {
		lin1 = false
	}
	if !isInt(t) && (ok1 || ok2) {
		// changes of sign and neutral elements
		is := func(c *C, k int64) bool {
			return c != nil && constant.Compare(constant.ToFloat(c.V), token.EQL, constant.MakeFloat64(float64(k)))
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			neg := func(v Val) []alt {
				if e, ok := v.(*Expr); ok && e.Op == "neg" {
					return one(st, e.A[0])
				}
				return one(st, mkExpr("neg", t, v))
			}
			switch {
			case op == token.MUL && is(ca, -1), op == token.SUB && is(ca, 0):
				return neg(b)
			case op == token.MUL && is(cb, -1), op == token.QUO && is(cb, -1):
				return neg(a)
			case op == token.MUL && is(ca, 1), op == token.ADD && is(ca, 0):
				return one(st, b)
			case (op == token.MUL || op == token.QUO) && is(cb, 1), (op == token.ADD || op == token.SUB) && is(cb, 0):
				return one(st, a)
			}
			switch op {
			case token.ADD, token.SUB, token.MUL, token.QUO:
				return one(st, mkExpr(op.String(), t, a, b))
			}
		}
	}
	switch op {
	case token.ADD, token.SUB:
		if lin1 && ok2 {
			k, _ := constant.Int64Val(cb.V)
			if op == token.SUB {
				k = -k
			}
			if m.fits(st, la, ka+k, t) {
				return one(st, mkLin(la, ka+k, t))
			}
		}
		if lin2 && ok1 && op == token.ADD {
			k, _ := constant.Int64Val(ca.V)
			if m.fits(st, lb, kb+k, t) {
				return one(st, mkLin(lb, kb+k, t))
			}
		}
		if lin1 && lin2 && op == token.SUB && la.ID == lb.ID {
			return one(st, &C{constant.MakeInt64(ka - kb), t})
		}
		if ok2 && constant.Sign(cb.V) == 0 {
			return one(st, a)
		}
		if ok1 && constant.Sign(ca.V) == 0 && op == token.ADD {
			return one(st, b)
		}
	case token.MUL:
		if (ok1 && constant.Sign(ca.V) == 0) || (ok2 && constant.Sign(cb.V) == 0) {
			return one(st, &C{constant.MakeInt64(0), t})
		}
		if ok1 {
			if n, ok := constant.Int64Val(ca.V); ok && n == 1 {
				return one(st, b)
			}
		}
		if ok2 {
			if n, ok := constant.Int64Val(cb.V); ok && n == 1 {
				return one(st, a)
			}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if lin1 && ok2 {
			k, _ := constant.Int64Val(cb.V)
			return one(st, m.mkCmp(st, la, op, k-ka))
		}
		if lin2 && ok1 {
			k, _ := constant.Int64Val(ca.V)
			return one(st, m.mkCmp(st, lb, flip(op), k-kb))
		}
		if lin1 && lin2 && la.ID == lb.ID {
			return one(st, cBool(constant.Compare(constant.MakeInt64(ka), op, constant.MakeInt64(kb))))
		}
		if op == token.GTR || op == token.LEQ {
			a, b = b, a
		}
		e := mkExpr("less", types.Typ[types.Bool], a, b)
		if op == token.LEQ || op == token.GEQ {
			return one(st, mkExpr("!", types.Typ[types.Bool], e))
		}
		return one(st, e)
	case token.AND, token.OR:
		if isBool(t) {
			return one(st, mkExpr(op.String(), t, a, b))
		}
		if r, ok := m.bitOp(st, op, a, b, t); ok {
			return one(st, r)
		}
	}
	return one(st, mkExpr(op.String(), t, a, b))
}

func (m *M) bitOp(st *State, op token.Token, a, b Val, t types.Type) (Val, bool) { return nil, false }

func (m *M) fits(st *State, l *Leaf, k int64, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if b.Kind() != types.Uint8 && b.Kind() != types.Int8 {
		return true
	}
	for _, r := range st.setOf(l) {
		if r.lo+k < 0 || r.hi+k > 255 {
			return false
		}
	}
	return true
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func cmpStr(op token.Token, c int) bool {
	switch op {
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	}
	return c >= 0
}

func soleLeaf(s *Str) (*Leaf, bool) {
	if len(s.P) == 1 && s.P[0].V != nil {
		l, ok := s.P[0].V.(*Leaf)
		return l, ok
	}
	return nil, false
}

func strOf(v Val) (*Str, bool) {
	switch x := v.(type) {
	case *Str:
		return x, true
	case *Leaf:
		if isString(x.T) {
			return asStr(x), true
		}
	case *Expr:
		if x.T != nil && isString(x.T) {
			return asStr(x), true
		}
	}
	return nil, false
}

func opSet(op token.Token, k int64) rset {
	switch op {
	case token.LSS:
		return rset{{math.MinInt64 / 2, k - 1}}
	case token.LEQ:
		return rset{{math.MinInt64 / 2, k}}
	case token.GTR:
		return rset{{k + 1, math.MaxInt64 / 2}}
	case token.GEQ:
		return rset{{k, math.MaxInt64 / 2}}
	case token.EQL:
		return rset{{k, k}}
	}
	return nil
}

// inSet is the condition "the leaf's value lies in the set".
func (m *M) inSet(st *State, l *Leaf, s rset) Val {
	cur := st.setOf(l)
	in := cur.and(s)
	if len(in) == 0 {
		return cBool(false)
	}
	if len(cur.minus(s)) == 0 {
		return cBool(true)
	}
	e := mkExpr("cmp", types.Typ[types.Bool], l)
	e.set = s
	return e
}

func (m *M) mkCmp(st *State, l *Leaf, op token.Token, k int64) Val {
	return m.inSet(st, l, opSet(op, k))
}

func (m *M) decideCmp(st *State, e *Expr) []cond {
	switch l := st.res(e.A[0]).(type) {
	case *C:
		k, _ := constant.Int64Val(l.V)
		return []cond{{st, e.set.has(k), ""}}
	case *Leaf:
		cur := st.setOf(l)
		in, out := cur.and(e.set), cur.minus(e.set)
		var r []cond
		if len(in) > 0 && len(out) > 0 {
			a := st.clone()
			m.narrow(st, l, in)
			m.narrow(a, l, out)
			return append(r, cond{st, true, ""}, cond{a, false, ""})
		}
		return []cond{{st, len(in) > 0, ""}}
	}
	return []cond{{st, false, "comparison of an unsupported value"}}
}

func (m *M) narrow(st *State, l *Leaf, s rset) {
	if v, ok := s.single(); ok {
		st.bind[l.ID] = &C{constant.MakeInt64(v), l.T}
		st.ints[l.ID] = s
		return
	}
	st.ints[l.ID] = s
}

// lenCmp turns len(s) op small constant into a question about emptiness.
func (m *M) lenCmp(st *State, op token.Token, a, b Val) (Val, bool) {
	e, ok := a.(*Expr)
	n, ok2 := isConstInt(b)
	if !ok || !ok2 {
		if e2, k := b.(*Expr); k {
			if n2, k2 := isConstInt(a); k2 {
				e, n, op, ok, ok2 = e2, n2, flip(op), true, true
			}
		}
	}
	if !ok || !ok2 || e.Op != "len" {
		return nil, false
	}
	s, isS := strOf(st.res(e.A[0]))
	if !isS {
		return nil, false
	}
	empty := m.equal(st, s, lit(""))
	neg := func(v Val) Val {
		if c, ok := v.(*C); ok {
			return cBool(!constant.BoolVal(c.V))
		}
		return mkExpr("!", types.Typ[types.Bool], v)
	}
	switch {
	case op == token.GTR && n == 0, op == token.GEQ && n == 1:
		return neg(empty), true
	case op == token.LSS && n == 1, op == token.LEQ && n == 0, op == token.EQL && n == 0:
		return empty, true
	case op == token.GEQ && n <= 0, op == token.GTR && n < 0:
		return cBool(true), true
	case op == token.LSS && n <= 0, op == token.LEQ && n < 0, op == token.EQL && n < 0:
		return cBool(false), true
	}
	// known lower bound from the literal pieces
	lo := 0
	for _, p := range s.P {
		if p.V == nil {
			lo += len(p.Lit)
		} else if l, ok := p.V.(*Leaf); ok && l.NonEmpty {
			lo++
		}
	}
	switch {
	case op == token.GTR && lo > n, op == token.GEQ && lo >= n:
		return cBool(true), true
	case op == token.LSS && lo >= n, op == token.LEQ && lo > n, op == token.EQL && lo > n:
		return cBool(false), true
	}
	return nil, false
}

func isNilable(v Val) bool {
	switch v.(type) {
	case *Nil:
		return true
	}
	return false
}

// equal returns a known boolean or a condition for decide.
func (m *M) equal(st *State, a, b Val) Val {
	a, b = st.evalLin(a), st.evalLin(b)
	if _, ok := b.(*Nil); ok {
		a, b = b, a
	}
	if _, ok := a.(*Nil); ok {
		switch x := b.(type) {
		case *Nil:
			return cBool(true)
		case *Ptr, *Ifc, *Slc, *MapP, *Fn:
			return cBool(false)
		case *Leaf:
			if x.NonNil {
				return cBool(false)
			}
			return mkExpr("isnil", types.Typ[types.Bool], x)
		case *Expr:
			if x.T != nil {
				if _, ok := x.T.Underlying().(*types.Basic); ok {
					return cBool(false)
				}
			}
			if neverNil(x) {
				return cBool(false)
			}
			return mkExpr("isnil", types.Typ[types.Bool], x)
		}
		return mkExpr("isnil", types.Typ[types.Bool], b)
	}
	if m.text != nil {
		if sa, ok := strOf(a); ok {
			if sb, ok := strOf(b); ok && (m.text.isText(sa) || m.text.isText(sb)) && m.text.onlyText(sa) && m.text.onlyText(sb) {
				return mkExpr("texteq", types.Typ[types.Bool], sa, sb)
			}
		} else if va, ok := m.text.iv(st, a); ok {
			if vb, ok := m.text.iv(st, b); ok && (va.f != nil || vb.f != nil) && (va.l == nil || vb.l == nil) {
				if va.l == nil {
					va, vb = vb, va
				}
				return m.inSet(st, va.l, m.text.preimage(st, va, func(x int64) bool { return x == vb.k }))
			}
		}
	}
	ca, ok1 := a.(*C)
	cb, ok2 := b.(*C)
	if ok1 && ok2 {
		if ca.V.Kind() == constant.Bool || cb.V.Kind() == constant.Bool {
			return cBool(constant.BoolVal(ca.V) == constant.BoolVal(cb.V))
		}
		return cBool(constant.Compare(ca.V, token.EQL, cb.V))
	}
	if r, ok := m.lenCmp(st, token.EQL, a, b); ok {
		return r
	}
	if ok1 && !ok2 {
		a, b, ca, cb, ok1, ok2 = b, a, cb, ca, ok2, ok1
	}
	if ok2 && cb.V.Kind() == constant.Bool {
		if constant.BoolVal(cb.V) {
			return a
		}
		return mkExpr("!", types.Typ[types.Bool], a)
	}
	if l, k, ok := st.linear(a); ok && ok2 && cb.V.Kind() == constant.Int {
		n, _ := constant.Int64Val(cb.V)
		return m.mkCmp(st, l, token.EQL, n-k)
	}
	if la, k1, okA := st.linear(a); okA {
		if lb, k2, okB := st.linear(b); okB && la.ID == lb.ID {
			return cBool(k1 == k2)
		}
	}
	if sa, ok := strOf(a); ok {
		if sb, ok := strOf(b); ok {
			return m.eqStr(st, sa, sb)
		}
	}
	switch x := a.(type) {
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			if x.Obj == y.Obj && fmt.Sprint(x.Path) == fmt.Sprint(y.Path) {
				return cBool(true)
			}
			return cBool(false)
		}
	case *Ifc:
		if y, ok := b.(*Ifc); ok {
			if !types.Identical(x.T, y.T) {
				return cBool(false)
			}
			return m.equal(st, st.res(x.V), st.res(y.V))
		}
	case *Rec:
		y, ok := st.expand(b).(*Rec)
		if ok && len(x.F) == len(y.F) {
			var parts []Val
			for i := range x.F {
				e := m.equal(st, st.res(x.F[i]), st.res(y.F[i]))
				if c, ok := e.(*C); ok {
					if !constant.BoolVal(c.V) {
						return cBool(false)
					}
					continue
				}
				parts = append(parts, e)
			}
			if len(parts) == 0 {
				return cBool(true)
			}
		}
	}
	ka, kb := st.key(a), st.key(b)
	if ka == kb {
		return cBool(true)
	}
	if la, ok := a.(*Leaf); ok {
		if lb, ok := b.(*Leaf); ok && la.Distinct && lb.Distinct {
			return cBool(false)
		}
	}
	if ka > kb {
		a, b = b, a
	}
	return mkExpr("==", types.Typ[types.Bool], a, b)
}

func neverNil(x *Expr) bool { return strings.HasPrefix(x.Op, "append") && len(x.A) > 1 }

func (m *M) eqStr(st *State, a, b *Str) Val {
	x, k1 := constStr(a)
	y, k2 := constStr(b)
	if k1 && k2 {
		return cBool(x == y)
	}
	if st.key(a) == st.key(b) {
		return cBool(true)
	}
	if k1 {
		a, b, x, y, k1, k2 = b, a, y, x, k2, k1
	}
	if k2 {
		// strip known ends
		ps := append([]Piece{}, a.P...)
		rest := y
		for len(ps) > 0 && ps[0].V == nil {
			if !strings.HasPrefix(rest, ps[0].Lit) {
				return cBool(false)
			}
			rest = rest[len(ps[0].Lit):]
			ps = ps[1:]
		}
		for len(ps) > 0 && ps[len(ps)-1].V == nil {
			l := ps[len(ps)-1].Lit
			if !strings.HasSuffix(rest, l) {
				return cBool(false)
			}
			rest = rest[:len(rest)-len(l)]
			ps = ps[:len(ps)-1]
		}
		if rest == "" {
			for _, p := range ps {
				if p.V == nil {
					return cBool(false)
				}
				if l, ok := p.V.(*Leaf); ok && l.NonEmpty {
					return cBool(false)
				}
				if e, ok := p.V.(*Expr); ok && exprNonEmpty(st, e) {
					return cBool(false)
				}
			}
		}
		if len(ps) == 1 {
			if l, ok := ps[0].V.(*Leaf); ok {
				if !classAllows(l, rest) {
					return cBool(false)
				}
				if b, ok := st.facts["eq:"+l.ID+"="+st.key(lit(rest))]; ok {
					return cBool(b)
				}
				return mkExpr("eqconst", types.Typ[types.Bool], l, lit(rest))
			}
		}
	} else if l1, ok := soleLeaf(a); ok {
		if l2, ok := soleLeaf(b); ok && l1.Distinct && l2.Distinct {
			return cBool(false)
		}
	}
	ka, kb := st.key(a), st.key(b)
	if ka > kb {
		a, b = b, a
	}
	return mkExpr("==", types.Typ[types.Bool], a, b)
}

func exprNonEmpty(st *State, e *Expr) bool {
	switch e.Op {
	case "chr", "fmtfloat", "timefmt", "fmt", "itoa":
		return true
	}
	return false
}

// classAllows: can a leaf of this class have this text?
func classAllows(l *Leaf, s string) bool {
	switch l.Class {
	case "name":
		if s == "" {
			return false
		}
		for i, r := range s {
			if !(r == '_' || isLetterRune(r) || (i > 0 && r >= '0' && r <= '9')) {
				return false
			}
		}
		return !keywordText(s)
	case "directive":
		return strings.HasPrefix(s, "&")
	}
	return true
}

func (m *M) convert(st *State, v Val, from, to types.Type) []alt {
	v = st.evalLin(v)
	fu, tu := from.Underlying(), to.Underlying()
	if c, ok := v.(*C); ok {
		switch {
		case isInt(to) && c.V.Kind() == constant.Int:
			return one(st, m.wrapInt(c.V, to))
		case isInt(to) && c.V.Kind() == constant.Float:
			return one(st, m.wrapInt(constant.ToInt(c.V), to))
		case isString(to) && isInt(from):
			n, _ := constant.Int64Val(c.V)
			return one(st, lit(string(rune(n))))
		}
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return one(st, &C{constant.ToFloat(c.V), to})
		}
		return one(st, &C{c.V, to})
	}
	if isString(from) {
		if sl, ok := tu.(*types.Slice); ok {
			s, ok := strOf(v)
			if !ok {
				return undec(st, "conversion of %T", v)
			}
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok {
				if cs, k := constStr(s); k {
					var e []Val
					if eb.Kind() == types.Uint8 {
						for i := 0; i < len(cs); i++ {
							e = append(e, &C{constant.MakeInt64(int64(cs[i])), sl.Elem()})
						}
					} else {
						for _, r := range cs {
							e = append(e, &C{constant.MakeInt64(int64(r)), sl.Elem()})
						}
					}
					return one(st, st.mkSlice(to, e))
				}
				if m.text != nil {
					if m.text.onlyText(s) {
						return m.text.fromStr(m, st, s, eb.Kind() == types.Uint8, to)
					}
				}
				return one(st, mkExpr("bytes", to, s))
			}
		}
		if isString(to) {
			return one(st, retype(v, to))
		}
	}
	if isString(to) {
		if sl, ok := fu.(*types.Slice); ok {
			isByte := false
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
				isByte = b.Kind() == types.Uint8
			}
			if e, ok := v.(*Expr); ok && e.Op == "bytes" {
				return one(st, e.A[0])
			}
			if e, ok := st.elems(v); ok {
				return one(st, m.joinChars(st, e, isByte))
			}
			return one(st, mkExpr("string", to, v))
		}
		if isInt(from) {
			return one(st, &Str{P: []Piece{{V: mkExpr("chr", to, v)}}, T: to})
		}
	}
	if isInt(from) && isInt(to) {
		if e, ok := v.(*Expr); ok && m.text != nil {
			if e.Op == "tlen" {
				return one(st, v)
			}
			if w, ok := m.text.iv(st, v); ok && w.f != nil {
				return one(st, m.text.fun(st, w, tname(to), func(x int64) int64 { return x }, to))
			}
		}
		if l, k, ok := st.linear(v); ok {
			if m.fits(st, l, k, to) {
				return one(st, mkLin(l, k, to))
			}
		}
		return one(st, mkExpr("conv:"+tname(to), to, v))
	}
	switch x := v.(type) {
	case *Expr:
		return one(st, mkExpr("conv:"+tname(to), to, x))
	case *Leaf:
		if _, ok := tu.(*types.Basic); ok {
			return one(st, mkExpr("conv:"+tname(to), to, x))
		}
		return one(st, x)
	}
	return one(st, retype(v, to))
}

// joinChars is string(runes) or string(bytes).
func (m *M) joinChars(st *State, e []Val, bytes bool) *Str {
	r := &Str{T: types.Typ[types.String]}
	all := true
	var raw []byte
	for _, c := range e {
		if _, ok := st.evalLin(c).(*C); !ok {
			all = false
		}
	}
	for _, c := range e {
		c = st.evalLin(c)
		if k, ok := c.(*C); ok {
			n, _ := constant.Int64Val(k.V)
			if bytes && all {
				raw = append(raw, byte(n))
				continue
			}
			if bytes && m.text != nil {
				r = concat(r, &Str{P: []Piece{{Lit: string([]byte{byte(n)})}}, T: r.T})
				continue
			}
			if bytes && n < 0x80 || !bytes {
				r = concat(r, lit(string(rune(n))))
				continue
			}
		}
		op := "chr"
		if bytes {
			op = "rawbyte"
		}
		r = concat(r, &Str{P: []Piece{{V: mkExpr(op, r.T, c)}}, T: r.T})
	}
	if bytes && all {
		return lit(string(raw))
	}
	_ = utf8.RuneError
	return r
}
