package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// jsonModel: an encoder gives back a text of its own or an error.
func (m *M) jsonModel(st *State, fn *ssa.Function, name, recv string, args []Val) ([]Out, bool) {
	str := types.Typ[types.String]
	errT := types.Universe.Lookup("error").Type()
	text := func() *Str {
		return &Str{P: []Piece{{V: &Leaf{ID: "json.text", T: str, NonEmpty: true, NonNil: true}}}, T: str}
	}
	failed := &Leaf{ID: "json.error", T: errT, NonNil: true}
	event := func(st *State) {
		st.events = append(st.events, Event{Name: "extern:" + fn.String(), Args: args})
	}
	switch {
	case recv == "" && (name == "Marshal" || name == "MarshalIndent"):
		event(st)
		bad := st.clone()
		bt := fn.Signature.Results().At(0).Type()
		return []Out{
			{St: st, Res: Tup{mkExpr("bytes", bt, text()), &Nil{errT}}},
			{St: bad, Res: Tup{bad.zero(bt), failed}},
		}, true
	case recv == "" && name == "NewEncoder":
		pt, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok {
			return nil, false
		}
		z, ok := st.zero(pt.Elem()).(*Rec)
		if !ok || len(z.F) == 0 {
			return nil, false
		}
		z = &Rec{T: z.T, F: append([]Val{args[0]}, z.F[1:]...)}
		return []Out{{St: st, Res: &Ptr{Obj: st.alloc(z), T: pt}}}, true
	case recv == "Encoder" && (name == "SetIndent" || name == "SetEscapeHTML"):
		return []Out{{St: st}}, true
	case recv == "Encoder" && name == "Encode":
		event(st)
		p, ok := args[0].(*Ptr)
		if !ok {
			return nil, false
		}
		c, _ := st.load(p)
		rec, ok := c.(*Rec)
		if !ok {
			return nil, false
		}
		w, ok := st.res(rec.F[0]).(*Ifc)
		if !ok {
			return nil, false
		}
		bad := st.clone()
		outs, ok := m.writeTo(st, w, concat(text(), lit("\n")))
		if !ok {
			return nil, false
		}
		for i := range outs {
			outs[i].Res = &Nil{errT}
		}
		return append(outs, Out{St: bad, Res: failed}), true
	}
	return nil, false
}
