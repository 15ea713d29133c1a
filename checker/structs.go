package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// structAt: the fields of a structure built in the frame's function (or in one it calls), as they
// are at instruction at. Fields of embedded structures appear under their own names, fields of other
// nested structures as "outer.inner".
func (vs *Values) structAt(fr *frame, v ssa.Value, at ssa.Instruction, d int) map[string]*Form {
	z := vs.z
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return vs.structAt(fr, x.X, at, d+1)
	case *ssa.ChangeInterface:
		return vs.structAt(fr, x.X, at, d+1)
	case *ssa.Call:
		g := vs.rawFrame(fr, x)
		if g == nil || !vs.p.inRepo(g.fn) {
			return nil
		}
		var rs []*ssa.Return
		for _, b := range g.fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				rs = append(rs, r)
			}
		}
		if len(rs) != 1 || len(rs[0].Results) != 1 {
			return nil
		}
		// arguments by value
		var args []*Form
		for _, a := range x.Common().Args {
			args = append(args, vs.arg(fr, a, x))
		}
		g = vs.frame(g.fn, args, g.free, fr, x)
		return vs.structAt(g, rs[0].Results[0], rs[0], d+1)
	case *ssa.Alloc:
		out := map[string]*Form{}
		ok := true
		var rec func(addr ssa.Value, t types.Type, prefix string)
		rec = func(addr ssa.Value, t types.Type, prefix string) {
			st, isS := t.Underlying().(*types.Struct)
			if !isS {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				name := prefix + f.Name()
				sub := name + "."
				if f.Embedded() {
					sub = prefix
				}
				_, nested := f.Type().Underlying().(*types.Struct)
				var stores []*ssa.Store
				for _, r := range *addr.Referrers() {
					switch r := r.(type) {
					case *ssa.FieldAddr:
						if r.Field != i {
							continue
						}
						if nested {
							rec(r, f.Type(), sub)
						}
						for _, rr := range *r.Referrers() {
							switch rr := rr.(type) {
							case *ssa.Store:
								if rr.Addr == ssa.Value(r) {
									stores = append(stores, rr)
								}
							case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
							default:
								// the field's address escapes
								stores = append(stores, nil)
							}
						}
					}
				}
				switch {
				case len(stores) == 0 && !nested:
					if _, done := out[name]; !done {
						out[name] = vs.zero(f.Type())
					}
				case len(stores) == 1 && stores[0] != nil && stores[0].Block().Dominates(at.Block()):
					val := vs.arg(fr, stores[0].Val, stores[0])
					if _, isSl := f.Type().Underlying().(*types.Slice); isSl {
						val = vs.arg(fr, stores[0].Val, at)
					}
					out[name] = val
					if nested {
						// a whole structure: its fields by name
						ns := f.Type().Underlying().(*types.Struct)
						for k := 0; k < ns.NumFields(); k++ {
							out[sub+ns.Field(k).Name()] = vs.fieldOf(val, f.Type(), k)
						}
						if ld, isLd := stores[0].Val.(*ssa.UnOp); isLd {
							if inner := vs.structAt(fr, ld.X, stores[0], d+1); inner != nil {
								for k, v := range inner {
									out[sub+k] = v
								}
							}
						}
					}
				case len(stores) > 0:
					out[name] = z.opaque("field assigned more than once")
				}
			}
		}
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == ssa.Value(x) {
					ok = false
				}
			}
		}
		if !ok {
			return nil
		}
		rec(x, deref(x.Type()), "")
		return out
	}
	return nil
}

// resultStruct: the fields of the structure a function returns as result i, for each return.
func (vs *Values) resultStruct(fr *frame, i int) []map[string]*Form {
	var out []map[string]*Form
	for _, b := range fr.fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			out = append(out, vs.structAt(fr, r.Results[i], r, 0))
		}
	}
	return out
}
