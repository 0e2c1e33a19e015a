package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// runesOf lists the characters of a text, splitting the partition where needed.
// It fails on a text with parts of unknown length.
func (m *M) runesOf(st *State, s *Str) []alt {
	if c, ok := constStr(st.resStr(s)); ok {
		var l []tch
		for i, r := range c {
			n := len(string(r))
			if r == 0xfffd && c[i] != 0xef {
				l = append(l, tch{raw: true, v: cInt(int(c[i])), w: 1})
				continue
			}
			l = append(l, tch{v: &C{constant.MakeInt64(int64(r)), types.Typ[types.Rune]}, w: n})
		}
		return one(st, chars(l))
	}
	if m.text == nil {
		return undec(st, "the characters of an opaque text")
	}
	return m.text.fork(st, func(o *oracle) []alt { return one(o.st, chars(o.whole(s))) })
}

// chars carries a list of characters as a value.
type chars []tch

// overRunes runs f over the characters of s one after the other and joins what
// step makes of the results.
func (m *M) overRunes(st *State, s *Str, f Val, site ssa.Instruction, step func(st *State, i int, c tch, res Val, acc Val) []alt, acc Val) []Out {
	var outs []Out
	type item struct {
		st  *State
		acc Val
		i   int
		l   chars
	}
	var work []item
	add := func(as []alt, i int, l chars) {
		for _, a := range as {
			if a.undec != "" || a.panic != "" {
				outs = append(outs, Out{St: a.st, Panic: a.panic, Undec: a.undec, Pos: "strings"})
				continue
			}
			if i < 0 {
				work = append(work, item{a.st, acc, 0, a.v.(chars)})
				continue
			}
			work = append(work, item{a.st, a.v, i, l})
		}
	}
	add(m.runesOf(st, s), -1, nil)
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.i >= len(w.l) {
			outs = append(outs, Out{St: w.st, Res: w.acc})
			continue
		}
		c := w.l[w.i]
		r := Val(c.v)
		if c.raw {
			r = &C{constant.MakeInt64(0xfffd), types.Typ[types.Rune]}
		}
		for _, o := range m.callVal(w.st, f, []Val{r}, nil, site) {
			if o.bad() {
				outs = append(outs, o)
				continue
			}
			add(step(o.St, w.i, c, o.Res, w.acc), w.i+1, w.l)
		}
	}
	return outs
}

// runesModel are the functions of package strings that apply a function to every
// character.
func (m *M) runesModel(st *State, name string, args []Val, site ssa.Instruction) ([]Out, bool) {
	switch name {
	case "Map":
		s, ok := strOf(args[1])
		if !ok {
			return nil, false
		}
		return m.overRunes(st, s, args[0], site, func(st *State, _ int, _ tch, res, acc Val) []alt {
			keep := func(st *State) []alt {
				return one(st, concat(acc.(*Str), m.joinChars(st, []Val{res}, false)))
			}
			v := st.evalLin(res)
			if n, ok := isConstInt(v); ok {
				if n < 0 {
					return one(st, acc)
				}
				return keep(st)
			}
			if m.text == nil {
				return undec(st, "strings.Map on an opaque character")
			}
			return m.text.fork(st, func(o *oracle) []alt {
				if o.is(v, rset{{-1 << 40, -1}}) {
					return one(o.st, acc)
				}
				return keep(o.st)
			})
		}, lit("")), true
	case "ContainsFunc":
		s, ok := strOf(args[0])
		if !ok {
			return nil, false
		}
		return m.overRunes(st, s, args[1], site, func(st *State, _ int, _ tch, res, acc Val) []alt {
			if c, ok := acc.(*C); ok && constant.BoolVal(c.V) {
				return one(st, acc)
			}
			return one(st, res)
		}, &C{constant.MakeBool(false), types.Typ[types.Bool]}), true
	}
	return nil, false
}
