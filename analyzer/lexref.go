package main

import (
	"strings"
	"unicode"
)

// The reference tokeniser: what the language says a text consists of. It reads
// the same opaque text as the code under analysis; a question the partition does
// not settle splits it.

// rtok is one token of the reference reading.
type rtok struct {
	kind   string // name, kw:…, num, str, date, dir, label, op:…, eof, err, any (not specified)
	from   int    // where the search started
	lo, hi int    // the token's characters
	text   []tch  // its text: the word, the string's content, the date's digits
	dot    int    // what the next word stands after: 1 a dot, 2 several dots
	why    string
}

var spaceSet = rset{{'\t', '\n'}, {'\r', '\r'}, {' ', ' '}}
var digitSet = rset{{'0', '9'}}

func letterSet() rset {
	s, _ := unicodeSet("IsLetter")
	var r rset
	done := false
	for _, x := range s {
		if !done && x.lo > '_' {
			r = append(r, rng{'_', '_'})
			done = true
		}
		r = append(r, x)
	}
	return r
}

func wordSet() rset {
	var r rset
	r = append(r, digitSet...)
	return append(r, letterSet()...)
}

var letters, words = letterSet(), wordSet()

func (o *oracle) in(c tch, s rset) bool { return !c.raw && o.is(c.v, s) }

// refToken reads the token that follows position pos.
func (o *oracle) refToken(src *Str, pos, dot int) rtok {
	r := rtok{from: pos}
	i := o.refSkip(src, pos)
	r.lo = i
	c, ok := o.at(src, i)
	if !ok {
		r.kind, r.hi = "eof", i
		return r
	}
	fail := func(why string) rtok { r.kind, r.why = "err", why; return r }
	// word reads letters and digits from k
	word := func(k int) int {
		for {
			c, ok := o.at(src, k)
			if !ok || !o.in(c, words) {
				return k
			}
			k++
		}
	}
	part := func(a, b int) []tch {
		f, _ := o.flat(src)
		return append([]tch{}, f[a:b]...)
	}
	switch {
	case c.raw:
		return fail("an invalid byte")
	case o.in(c, letters):
		r.hi = word(i + 1)
		r.text = part(i, r.hi)
		r.kind = "name"
		if dot == 2 {
			r.kind = "any"
		} else if dot == 0 {
			if k, sure := o.keyword(r.text, langKeywords); k != "" {
				r.kind = "kw:" + k
				if !sure {
					r.kind = "any"
				}
			}
		}
		return r
	case o.in(c, digitSet):
		k, dots := i+1, 0
		for {
			c, ok = o.at(src, k)
			if !ok {
				break
			}
			if o.isR(c, '.') {
				dots++
			} else if !o.in(c, digitSet) {
				break
			}
			k++
		}
		r.hi = k
		r.text = part(i, k)
		if ok && o.in(c, letters) {
			return fail("a letter right after a number")
		}
		if dots > 1 {
			return fail("a number with several dots")
		}
		r.kind = "num"
		return r
	case o.isR(c, '"'):
		return o.refString(src, r)
	case o.isR(c, '\''):
		k := i + 1
		nl := false
		for {
			c, ok = o.at(src, k)
			if !ok {
				return fail("an unterminated date")
			}
			if o.isR(c, '\'') {
				break
			}
			if o.isR(c, '\n') {
				nl = true
			}
			k++
			if !nl && o.in(c, digitSet) {
				r.text = append(r.text, c)
			}
		}
		r.hi = k + 1
		if nl {
			r.kind = "any"
			return r
		}
		if len(r.text) == 0 {
			return fail("a date without digits")
		}
		r.kind = "date"
		return r
	case o.isR(c, '&'):
		r.hi = word(i + 1)
		r.text = part(i, r.hi)
		k, sure := o.keyword(r.text, langDirectives)
		switch {
		case k == "":
			return fail("an unknown directive")
		case !sure:
			r.kind = "any"
		default:
			r.kind = "dir"
		}
		return r
	case o.isR(c, '~'):
		r.hi = word(i + 1)
		r.text = part(i+1, r.hi)
		r.kind = "label"
		if len(r.text) == 0 {
			r.kind = "any"
		}
		return r
	case o.isR(c, '<'), o.isR(c, '>'):
		op := "<"
		if o.isR(c, '>') {
			op = ">"
		}
		r.hi = i + 1
		if d, ok := o.at(src, i+1); ok {
			if o.isR(d, '=') {
				op, r.hi = op+"=", i+2
			} else if op == "<" && o.isR(d, '>') {
				op, r.hi = "<>", i+2
			}
		}
		r.kind = "op:" + op
		return r
	}
	for _, op := range "=.;(),-+*/?[]:%" {
		if o.isR(c, op) {
			r.kind, r.hi = "op:"+string(op), i+1
			if op == '.' {
				r.dot = 1
				if dot > 0 {
					r.dot = 2
				}
			}
			return r
		}
	}
	return fail("an unknown character")
}

// refSkip is the position after white space, comments and # lines.
func (o *oracle) refSkip(src *Str, i int) int {
	line := func(i int) int {
		for {
			c, ok := o.at(src, i)
			if !ok || o.isR(c, '\n') {
				return i
			}
			i++
		}
	}
	for {
		c, ok := o.at(src, i)
		if !ok {
			return i
		}
		switch {
		case o.in(c, spaceSet):
			i++
		case o.isR(c, '#'):
			i = line(i)
		case o.isR(c, '/'):
			d, ok := o.at(src, i+1)
			if !ok || !o.isR(d, '/') {
				return i
			}
			i = line(i)
		default:
			return i
		}
	}
}

func (o *oracle) refString(src *Str, r rtok) rtok {
	fail := func(why string) rtok { r.kind, r.why = "err", why; return r }
	i := r.lo + 1
	spaces := func(i int) int {
		for {
			c, ok := o.at(src, i)
			if !ok || !o.in(c, spaceSet) {
				return i
			}
			i++
		}
	}
	for {
		c, ok := o.at(src, i)
		if !ok {
			return fail("an unterminated string")
		}
		switch {
		case o.isR(c, '"'):
			d, ok := o.at(src, i+1)
			if ok && o.isR(d, '"') {
				r.text = append(r.text, c, d)
				i += 2
				continue
			}
			r.hi = i + 1
			k := spaces(i + 1)
			if d, ok := o.at(src, k); ok && o.isR(d, '"') {
				i = k + 1 // the next literal continues the string
				continue
			}
			r.kind = "str"
			return r
		case o.isR(c, '\n'):
			r.text = append(r.text, c)
			i = spaces(i + 1)
			for {
				d, ok := o.at(src, i)
				e, ok2 := o.at(src, i+1)
				if !ok || !ok2 || !o.isR(d, '/') || !o.isR(e, '/') {
					break
				}
				for {
					d, ok = o.at(src, i)
					if !ok || o.isR(d, '\n') {
						break
					}
					i++
				}
				i = spaces(i)
			}
			d, ok := o.at(src, i)
			if !ok {
				return fail("an unterminated string")
			}
			if o.isR(d, '#') {
				r.kind = "any"
				return r
			}
			if !o.isR(d, '|') {
				return fail("a string line without |")
			}
			r.text = append(r.text, d)
			i++
		default:
			r.text = append(r.text, c)
			i++
		}
	}
}

// keyword finds the word in a list, in any letter case; sure is false when a
// letter is written with an unusual case variant.
func (o *oracle) keyword(f []tch, list []string) (string, bool) {
	for _, kw := range list {
		rs := []rune(kw)
		if len(rs) != len(f) {
			continue
		}
		may := true
		sets := make([]rset, len(rs))
		for i, c := range f {
			if c.raw {
				may = false
				break
			}
			s := rset{}
			for r := rs[i]; ; {
				s = s.add(int64(r))
				r = unicode.SimpleFold(r)
				if r == rs[i] {
					break
				}
			}
			sets[i] = s
			v, ok := o.t.iv(o.st, c.v)
			if !ok {
				panic(notText{"keyword character"})
			}
			if v.l == nil {
				may = may && s.has(v.k)
			} else if len(o.t.image(o.st, v).and(s)) == 0 {
				may = false
			}
			if !may {
				break
			}
		}
		if !may {
			continue
		}
		hit, sure := true, true
		for i, c := range f {
			if !o.is(c.v, sets[i]) {
				hit = false
				break
			}
			if !o.is(c.v, caseSet(rs[i])) {
				sure = false
			}
		}
		if hit {
			return kw, sure
		}
	}
	return "", true
}

// caseSet is a letter in both cases.
func caseSet(r rune) rset {
	s := rset{}.add(int64(r))
	for _, x := range []string{strings.ToUpper(string(r)), strings.ToLower(string(r))} {
		s = s.add(int64([]rune(x)[0]))
	}
	return s
}
