package main

import (
	"fmt"
	"sort"
	"strings"
)

// LR driver over the decoded tables: the decision procedure for "how does the
// grammar read this sentence". Sentences may contain nonterminals (sentential
// forms), which stand for every text derived from them.

// Inp is one input symbol with the attribute it carries.
type Inp struct {
	Sym  Sym
	Surf string
	Val  Val
}

// PNode is a node of a derivation tree.
type PNode struct {
	Sym  Sym
	Prod int // 0 for leaves
	Surf string
	Kids []*PNode
}

type lrError struct {
	At   int
	What string
}

func (e *lrError) Error() string { return e.What }

// first returns the tokens that can start a text derived from nonterminal nt.
func (t *LALR) first(nt Sym) []int {
	if t.firstMemo == nil {
		t.firstMemo = map[Sym]map[int]bool{}
		t.nullable = map[Sym]bool{}
		for changed := true; changed; {
			changed = false
			for r := 1; r < len(t.Prods); r++ {
				p := t.Prods[r]
				if !p.OK {
					continue
				}
				f := t.firstMemo[p.LHS]
				if f == nil {
					f = map[int]bool{}
					t.firstMemo[p.LHS] = f
				}
				all := true
				for _, s := range p.RHS {
					if s > 0 {
						if !f[int(s)] {
							f[int(s)] = true
							changed = true
						}
						all = false
						break
					}
					for k := range t.firstMemo[s] {
						if !f[k] {
							f[k] = true
							changed = true
						}
					}
					if !t.nullable[s] {
						all = false
						break
					}
				}
				if all && !t.nullable[p.LHS] {
					t.nullable[p.LHS] = true
					changed = true
				}
			}
		}
	}
	var out []int
	for k := range t.firstMemo[nt] {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// reducer is told about every reduction; it computes attributes.
type reducer interface {
	shift(in Inp) (Val, error)
	reduce(prod int, kids []Val) (Val, error)
}

// lrRun parses the input; red may be nil.
func (t *LALR) lrRun(input []Inp, red func(prod int, n int) error, shift func(i int, in Inp) error) (*PNode, error) {
	states := []int{0}
	nodes := []*PNode{}
	steps := 0
	pos := 0
	endTok := t.endTok()
	doReduce := func(r int) error {
		n := t.R2[r]
		if n > len(nodes) {
			return &lrError{pos, "stack underflow"}
		}
		kids := append([]*PNode{}, nodes[len(nodes)-n:]...)
		if red != nil {
			if err := red(r, n); err != nil {
				return err
			}
		}
		nodes = nodes[:len(nodes)-n]
		states = states[:len(states)-n]
		lhs := Sym(-t.R1[r])
		g, ok := t.Trans[states[len(states)-1]][lhs]
		if !ok {
			return &lrError{pos, "no goto"}
		}
		nodes = append(nodes, &PNode{Sym: lhs, Prod: r, Kids: kids})
		states = append(states, g)
		return nil
	}
	for {
		if steps++; steps > 200000 {
			return nil, &lrError{pos, "parser does not terminate"}
		}
		st := states[len(states)-1]
		var in Inp
		if pos < len(input) {
			in = input[pos]
		} else {
			in = Inp{Sym: Sym(endTok)}
		}
		if in.Sym < 0 {
			if g, ok := t.Trans[st][in.Sym]; ok {
				if shift != nil {
					if err := shift(pos, in); err != nil {
						return nil, err
					}
				}
				nodes = append(nodes, &PNode{Sym: in.Sym, Surf: in.Surf})
				states = append(states, g)
				pos++
				continue
			}
			var act *Action
			for _, tok := range t.first(in.Sym) {
				a := t.action(st, tok)
				if a.Kind != actReduce {
					continue
				}
				if act == nil {
					b := a
					act = &b
				} else if *act != a {
					return nil, &lrError{pos, "ambiguous context for " + t.tokName(in.Sym)}
				}
			}
			if act == nil {
				return nil, &lrError{pos, fmt.Sprintf("%s cannot stand here", t.tokName(in.Sym))}
			}
			if err := doReduce(act.N); err != nil {
				return nil, err
			}
			continue
		}
		a := t.action(st, int(in.Sym))
		switch a.Kind {
		case actShift:
			if shift != nil {
				if err := shift(pos, in); err != nil {
					return nil, err
				}
			}
			nodes = append(nodes, &PNode{Sym: in.Sym, Surf: in.Surf})
			states = append(states, a.N)
			pos++
		case actReduce:
			if err := doReduce(a.N); err != nil {
				return nil, err
			}
		case actAccept:
			if len(nodes) == 0 {
				return nil, nil
			}
			return nodes[len(nodes)-1], nil
		default:
			return nil, &lrError{pos, fmt.Sprintf("syntax error at symbol %d (%s)", pos, in.Surf)}
		}
	}
}

func (t *LALR) endTok() int {
	for i, n := range t.Toknames {
		if n == "$end" {
			return i + 1
		}
	}
	return t.tokIndex(0)
}

func surfOf(in []Inp) string {
	var b []string
	for _, x := range in {
		b = append(b, x.Surf)
	}
	return strings.Join(b, " ")
}
