package main

import (
	"fmt"
	"go/types"
	"strings"
)

// region is a piece of memory that can be written through the tree.
type region struct {
	obj    int
	path   string // inside the object, without the last index
	lo, hi int    // elements; hi = -1: the whole value
	where  string
}

func pathText(p []int) string {
	var b strings.Builder
	for _, i := range p {
		fmt.Fprintf(&b, "/%d", i)
	}
	return b.String()
}

// regions lists the memory a tree is made of, every way it is reached.
func (st *State) regions(v Val, path string, d int, out *[]region) bool {
	if d > 100000 {
		return false
	}
	switch x := st.expand(v).(type) {
	case *Ifc:
		return st.regions(x.V, path, d+1, out)
	case *Rec:
		s, ok := x.T.Underlying().(*types.Struct)
		for i, f := range x.F {
			n := fmt.Sprint(i)
			if ok && i < s.NumFields() {
				n = s.Field(i).Name()
			}
			if !st.regions(f, path+"."+n, d+1, out) {
				return false
			}
		}
	case *Arr:
		for i, e := range x.E {
			if !st.regions(e, fmt.Sprintf("%s[%d]", path, i), d+1, out) {
				return false
			}
		}
	case *Ptr:
		if x.Obj == 0 {
			return true
		}
		for _, r := range *out { // reached before: reported by the caller
			if r.obj == x.Obj && r.path == pathText(x.Path) && r.hi < 0 {
				*out = append(*out, region{obj: x.Obj, path: pathText(x.Path), hi: -1, where: path})
				return true
			}
		}
		*out = append(*out, region{obj: x.Obj, path: pathText(x.Path), hi: -1, where: path})
		if c, ok := st.load(x); ok {
			return st.regions(c, path, d+1, out)
		}
	case *Slc:
		if x.Cap > 0 {
			*out = append(*out, region{obj: x.Obj, path: pathText(x.Path), lo: x.Lo, hi: x.Lo + x.Cap, where: path})
		}
		for i := 0; i < x.Len; i++ {
			if !st.regions(st.elem(x, i), fmt.Sprintf("%s[%d]", path, i), d+1, out) {
				return false
			}
		}
	case *MapP:
		if x.Obj == 0 {
			return true
		}
		*out = append(*out, region{obj: x.Obj, hi: -1, where: path})
		if mo, ok := st.heap[x.Obj].(*MapO); ok {
			for i := range mo.V {
				if !st.regions(mo.V[i], path+"["+st.key(mo.K[i])+"]", d+1, out) {
					return false
				}
			}
		}
	}
	return true
}

// meet tells whether two regions have memory in common.
func (a region) meet(b region) bool {
	if a.obj != b.obj {
		return false
	}
	switch {
	case a.hi >= 0 && b.hi >= 0:
		return a.path == b.path && a.lo < b.hi && b.lo < a.hi || a.path != b.path && (within(a, b) || within(b, a))
	case a.hi < 0 && b.hi < 0:
		return strings.HasPrefix(a.path+"/", b.path+"/") || strings.HasPrefix(b.path+"/", a.path+"/")
	case a.hi < 0:
		return strings.HasPrefix(b.path+"/", a.path+"/") || within(a, b)
	}
	return strings.HasPrefix(a.path+"/", b.path+"/") || within(b, a)
}

// within: a lies inside an element of the slice b.
func within(a, b region) bool {
	if b.hi < 0 || !strings.HasPrefix(a.path, b.path+"/") {
		return false
	}
	var i int
	if _, err := fmt.Sscanf(a.path[len(b.path)+1:], "%d", &i); err != nil {
		return true
	}
	return i >= b.lo && i < b.hi
}

// runT01: the parts of a tree share no memory.
func runT01(c *Ctx) {
	c.rule = "every piece of memory of a tree is reached in one way only, and none of it belongs to package-level state"
	l := append(moduleForms(c), placedForms()...)
	for _, e := range exprs2() {
		l = append(l, "N ( "+e+" ) ;")
	}
	for i, e := range unaryForms() {
		if c.Thorough || i%3 == 0 {
			l = append(l, "N = "+e+" ;")
		}
	}
	l = append(l, varPairs()...)
	l = uniq(l)
	c.count("trees", len(l))
	where := a0where(c, "Parse")
	each(c, l, func(a *AbsParser, f string) {
		ts := toks(f)
		r := a.parsed(c, "tree", f, ts)
		if r == nil {
			return
		}
		mod, err := a.moduleOf(r)
		if err != nil {
			c.fail("tree:"+f, "ast", "%v", err)
			return
		}
		v, _ := r.St.load(mod)
		var rs []region
		if !r.St.regions(v, "module", 0, &rs) {
			c.fail("tree:"+f, where, "the tree of %q contains itself", surfToks(ts))
			return
		}
		c.count("regions", len(rs))
		byObj := map[int][]region{}
		for _, x := range rs {
			if _, old := a.m.base.heap[x.obj]; old {
				c.fail("tree:"+f+":package", where, "in the tree of %q, %s is memory of a package variable: changing it changes every other tree", surfToks(ts), x.where)
				return
			}
			for _, y := range byObj[x.obj] {
				if x.meet(y) {
					c.fail("tree:"+f, where, "in the tree of %q, %s and %s share memory: changing one changes the other", surfToks(ts), y.where, x.where)
					return
				}
			}
			byObj[x.obj] = append(byObj[x.obj], x)
		}
		c.ok("tree: " + surfToks(ts))
	})
}

func init() {
	checks["T01"] = checkDef{runT01, "Abstract interpretation of the parser on sentences of opaque tokens; in the abstract heap after the parse, the memory reached from the tree (pointers, backing arrays with their spare capacity, maps) is listed with every way it is reached; no two of them may overlap and none may belong to package-level state."}
}
