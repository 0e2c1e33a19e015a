package main

import (
	"fmt"
	"go/constant"
	"strings"
	"unicode"
)

// Printed text is a template: known characters and opaque pieces. specLex cuts
// it into tokens by the language's lexical rules.

type unit struct {
	r  rune // known character
	v  Val  // or an opaque piece
	op bool
}

func units(s *Str) []unit {
	var u []unit
	for _, p := range s.P {
		if p.V != nil {
			u = append(u, unit{v: p.V, op: true})
			continue
		}
		for _, r := range p.Lit {
			u = append(u, unit{r: r})
		}
	}
	return u
}

// pieceClass tells what an opaque piece of printed text is.
// ok is false when its text is not known to read back as the value.
func pieceClass(st *State, v Val) (class, id string, neg bool, why string) {
	v = st.res(v)
	switch x := v.(type) {
	case *Leaf:
		switch x.Class {
		case "name", "directive", "string":
			return x.Class, x.ID, false, ""
		}
		return "", x.ID, false, "a value of unknown form"
	case *Expr:
		switch x.Op {
		case "fmtfloat":
			f, ok1 := isConstInt(x.A[1])
			p, ok2 := isConstInt(x.A[2])
			b, ok3 := isConstInt(x.A[3])
			if !ok1 || !ok2 || !ok3 {
				break
			}
			id, neg, ok := numLeaf(st, x.A[0])
			if !ok {
				break
			}
			if f != 'f' || p != -1 || b != 64 {
				return "number", "rounded(" + id + ")", neg, fmt.Sprintf("number %s is formatted with verb %q, precision %d, %d bits: some values change", id, rune(f), p, b)
			}
			return "number", id, neg, ""
		case "timefmt":
			f, _ := constStr(x.A[0])
			d := strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return r
				}
				return -1
			}, f)
			l, ok := st.res(x.A[1]).(*Leaf)
			if !ok {
				break
			}
			if d != "20060102150405" {
				return "date", "rounded(" + l.ID + ")", false, fmt.Sprintf("date %s is formatted with layout %q: some values change", l.ID, f)
			}
			return "date", l.ID, false, ""
		case "fmt":
			f, _ := constStr(x.A[0])
			if id, neg, ok := numLeaf(st, x.A[1]); ok {
				return "number", "rounded(" + id + ")", neg, fmt.Sprintf("number %s is formatted with %s: some values change", id, f)
			}
			return "", f, false, "a value formatted with " + f + " does not read back as written"
		}
	}
	return "", st.key(v), false, "text of unknown form: " + st.key(v)
}

func numLeaf(st *State, v Val) (string, bool, bool) {
	v = st.res(v)
	if i, ok := v.(*Ifc); ok {
		return numLeaf(st, i.V)
	}
	switch x := v.(type) {
	case *Leaf:
		return x.ID, false, x.Class == "number"
	case *Expr:
		if x.Op == "neg" {
			id, n, ok := numLeaf(st, x.A[0])
			return id, !n, ok
		}
	case *C:
		return x.V.ExactString(), constant.Sign(x.V) < 0, true
	}
	return "", false, false
}

type lexNote struct {
	what string
	lit  bool // about the value of a literal
}

// specLex cuts a template into tokens; notes are the lexical defects found.
func specLex(st *State, s *Str, dotNames map[string]bool) ([]Tok, []lexNote) {
	u := units(st.resStr(s))
	var out []Tok
	var notes []lexNote
	note := func(l bool, f string, a ...any) { notes = append(notes, lexNote{fmt.Sprintf(f, a...), l}) }
	isWord := func(x unit) bool {
		if x.op {
			c, _, _, _ := pieceClass(st, x.v)
			return c == "name"
		}
		return unicode.IsLetter(x.r) || x.r == '_' || x.r >= '0' && x.r <= '9'
	}
	is := func(i int, r rune) bool { return i < len(u) && !u[i].op && u[i].r == r }
	word := func(i int) (int, string, string, bool) { // end, literal text, leaf, mixed
		var lit, leaf string
		n, k := 0, 0
		for i < len(u) && isWord(u[i]) {
			if u[i].op {
				_, leaf, _, _ = pieceClass(st, u[i].v)
				n++
			} else {
				lit += string(u[i].r)
				k++
			}
			i++
		}
		return i, lit, leaf, n > 1 || n > 0 && k > 0
	}
	i := 0
	gap, known := "", 0
	mark := func() {
		if len(out) > known {
			out[known].Gap = gap
			gap, known = "", len(out)
		}
	}
	defer mark()
	for i < len(u) {
		mark()
		x := u[i]
		prevDot := len(out) > 0 && out[len(out)-1].Surf == "."
		if x.op {
			c, id, neg, why := pieceClass(st, x.v)
			if why != "" {
				note(c == "number" || c == "date", "%s", why)
			}
			switch c {
			case "name":
				e, lit, leaf, mixed := word(i)
				if mixed {
					note(false, "the name %s is glued to %q", id, lit)
					leaf = "glued(" + leaf + lit + ")"
				}
				if dotNames[leaf] && !prevDot {
					note(false, "the name %s, written after a dot, is printed without it and may be a keyword", leaf)
				}
				out = append(out, Tok{Surf: "Имя", ID: leaf, Class: "name"})
				i = e
			case "number":
				if neg {
					out = append(out, Tok{Surf: "-"})
				}
				if i+1 < len(u) && (isWord(u[i+1]) || is(i+1, '.')) {
					note(false, "the number %s is glued to the next word", id)
				}
				out = append(out, Tok{Surf: "7", ID: id, Class: "number"})
				i++
			case "directive":
				if i+1 < len(u) && isWord(u[i+1]) {
					note(false, "the directive %s is glued to the next word", id)
				}
				out = append(out, Tok{Surf: "&НаКлиенте", ID: id, Class: "directive"})
				i++
			default:
				note(true, "the value %s is printed without its quotes", id)
				out = append(out, Tok{Surf: "Имя", ID: "bare(" + id + ")", Class: "name"})
				i++
			}
			continue
		}
		switch r := x.r; {
		case r == ' ' || r == '\t' || r == '\r' || r == '\n':
			gap += string(r)
			i++
		case r == '#' || r == '/' && is(i+1, '/'):
			for i < len(u) && !is(i, '\n') {
				i++
			}
		case unicode.IsLetter(r) || r == '_':
			e, lit, leaf, mixed := word(i)
			i = e
			if mixed {
				note(false, "the name %s is glued to %q", leaf, lit)
				out = append(out, Tok{Surf: "Имя", ID: "glued(" + lit + leaf + ")", Class: "name"})
				continue
			}
			if i < len(u) && u[i].op {
				if c, id, _, _ := pieceClass(st, u[i].v); c == "number" {
					note(false, "the word %s is glued to the number %s", lit, id)
				}
			}
			if keywordSet[strings.ToLower(lit)] && !prevDot {
				out = append(out, Tok{Surf: lit})
			} else {
				out = append(out, Tok{Surf: lit, ID: `"` + lit + `"`, Class: "name"})
			}
		case r >= '0' && r <= '9':
			b := ""
			for i < len(u) && !u[i].op && (u[i].r >= '0' && u[i].r <= '9' || u[i].r == '.') {
				b += string(u[i].r)
				i++
			}
			if i < len(u) && isWord(u[i]) {
				note(false, "the number %s is glued to the next word", b)
			}
			out = append(out, Tok{Surf: b, ID: b, Class: "number"})
		case r == '"' || r == '\'':
			i++
			text, leaf, n, k := "", "", 0, 0
			closed := false
			for i < len(u) {
				if u[i].op {
					c, id, _, why := pieceClass(st, u[i].v)
					if why != "" {
						note(true, "%s", why)
					}
					if r == '\'' && c != "date" || r == '"' && c != "string" {
						id = "mis(" + id + ")"
					}
					leaf = id
					n++
					i++
					continue
				}
				if u[i].r == r {
					i++
					if r == '"' && is(i, '"') {
						text += `""`
						k++
						i++
						continue
					}
					closed = true
					break
				}
				text += string(u[i].r)
				k++
				i++
			}
			if !closed {
				note(true, "a literal is not closed")
			}
			id := leaf
			if n > 1 || n > 0 && k > 0 {
				note(true, "the value %s is printed with other text inside its quotes", leaf)
				id = "mixed(" + leaf + text + ")"
			} else if n == 0 {
				id = `"` + text + `"`
				if text == "" {
					id = `""`
				}
			}
			if r == '"' {
				if len(out) > 0 && out[len(out)-1].Class == "string" {
					note(true, "two string literals stand side by side and read back as one")
					out[len(out)-1].ID += "+" + id
					continue
				}
				out = append(out, Tok{Surf: `"т"`, ID: id, Class: "string"})
			} else {
				out = append(out, Tok{Surf: "'20200102'", ID: id, Class: "date"})
			}
		case r == '&':
			e, lit, leaf, _ := word(i + 1)
			out = append(out, Tok{Surf: "&" + lit, ID: `"&` + lit + leaf + `"`, Class: "directive"})
			i = e
		case r == '~':
			e, lit, leaf, mixed := word(i + 1)
			if mixed {
				note(false, "the label %s is glued to %q", leaf, lit)
			}
			if leaf == "" {
				leaf = `"` + lit + `"`
			}
			out = append(out, Tok{Surf: "~Имя", ID: leaf, Class: "label"})
			i = e
		case r == '<' && is(i+1, '>'), r == '<' && is(i+1, '='), r == '>' && is(i+1, '='):
			out = append(out, Tok{Surf: string(r) + string(u[i+1].r)})
			i += 2
		default:
			if !strings.ContainsRune("<>=/;(),-+*?[]:%.", r) {
				note(false, "the character %q is not of the language", r)
			}
			out = append(out, Tok{Surf: string(r)})
			i++
		}
	}
	return out, notes
}
