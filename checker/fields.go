package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fields of objects that exist before the call: their value at a point of the function, in terms of
// their value on entry.

// storesField: the function, or one it calls, may write this field of this type.
func (vs *Values) storesField(fn *ssa.Function, t types.Type, i int, _ map[*ssa.Function]bool) bool {
	return vs.fieldSets(fn).w[fieldKey(t, i)]
}

type fieldUse struct{ r, w map[string]bool }

func fieldKey(t types.Type, i int) string { return fmt.Sprintf("%s#%d", types.TypeString(t, nil), i) }

// fieldSets: the fields a function reads and writes, itself or in the functions it calls.
func (vs *Values) fieldSets(fn *ssa.Function) *fieldUse {
	if u, ok := vs.fuse[fn]; ok {
		return u
	}
	u := &fieldUse{map[string]bool{}, map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || len(seen) > 200 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if _, local := fa.X.(*ssa.Alloc); !local {
							u.w[fieldKey(deref(fa.X.Type()), fa.Field)] = true
						}
					} else if st, ok := deref(x.Addr.Type()).Underlying().(*types.Struct); ok {
						if _, local := x.Addr.(*ssa.Alloc); !local {
							for i := 0; i < st.NumFields(); i++ {
								u.w[fieldKey(deref(x.Addr.Type()), i)] = true
							}
						}
					}
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
						u.r[fieldKey(deref(fa.X.Type()), fa.Field)] = true
					}
				case ssa.CallInstruction:
					if c := x.Common().StaticCallee(); c != nil && vs.p.inRepo(c) && c.Blocks != nil && !quiet(vs.p, c) {
						walk(c)
					}
				}
			}
		}
	}
	walk(fn)
	vs.fuse[fn] = u
	return u
}

// memKey distinguishes the calls of a function that reads fields its callers write.
func (vs *Values) memKey(fn *ssa.Function, caller *frame, site ssa.CallInstruction) string {
	if caller == nil {
		return ""
	}
	u := vs.fieldSets(fn)
	for c := caller; c != nil; c = c.caller {
		w := vs.fieldSets(c.fn).w
		for k := range u.r {
			if w[k] {
				return fmt.Sprintf("@%d.%p", caller.id, site)
			}
		}
	}
	return ""
}

func fieldOfStore(st *ssa.Store, t types.Type, i int) ssa.Value {
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == i && types.Identical(deref(fa.X.Type()), t) {
		if _, local := fa.X.(*ssa.Alloc); !local {
			return fa.X
		}
	}
	if types.Identical(deref(st.Addr.Type()), t) {
		if _, local := st.Addr.(*ssa.Alloc); !local {
			return st.Addr
		}
	}
	return nil
}

// fieldAt: the value of field i of the object base just before instruction at.
func (vs *Values) fieldAt(fr *frame, base *Form, t types.Type, i int, at ssa.Instruction) *Form {
	z := vs.z
	if !vs.storesField(fr.fn, t, i, map[*ssa.Function]bool{}) {
		return vs.fieldOnEntry(fr, base, t, i)
	}
	bk := fmt.Sprintf("%d|%s|%s|%p", fr.id, base.key, fieldKey(t, i), at)
	if vs.fbusy[bk] || vs.depth > 4000 {
		return z.opaque("field depends on itself")
	}
	if vs.fbusy == nil {
		vs.fbusy = map[string]bool{}
	}
	vs.fbusy[bk] = true
	vs.depth += 4
	defer func() {
		delete(vs.fbusy, bk)
		vs.depth -= 4
	}()
	// what an instruction leaves in the field: nil if it does not write it
	write := func(in ssa.Instruction) *Form {
		switch x := in.(type) {
		case *ssa.Store:
			o := fieldOfStore(x, t, i)
			if o == nil {
				return nil
			}
			ob := vs.at(fr, o, x.Block())
			if o == x.Addr && ob == base {
				// the whole structure
				return vs.fieldOf(vs.at(fr, x.Val, x.Block()), t, i)
			}
			if ob == base {
				return vs.at(fr, x.Val, x.Block())
			}
			if ob.op == "site" && base.op == "site" && ob.sym != base.sym {
				return nil
			}
			if vs.apart && isParam(ob) && isParam(base) {
				return nil
			}
			if isNew(ob) && isParam(base) || isNew(base) && isParam(ob) {
				return nil
			}
			return z.opaque("field of another object assigned")
		case ssa.CallInstruction:
			c := x.Common().StaticCallee()
			if c == nil || !vs.p.inRepo(c) || c.Blocks == nil || quiet(vs.p, c) || vs.asCall != nil && vs.asCall(c) || !vs.storesField(c, t, i, map[*ssa.Function]bool{}) {
				return nil
			}
			if _, ok := in.(*ssa.Call); !ok {
				return z.opaque("field assigned concurrently")
			}
			g := vs.rawFrame(fr, x)
			if g == nil {
				return z.opaque("field assigned by a call")
			}
			return vs.fieldFinal(g, base, t, i)
		}
		return nil
	}
	writesIn := map[*loop]int{}
	loopWrites := func(l *loop) bool {
		if v, ok := writesIn[l]; ok {
			return v == 1
		}
		writesIn[l] = 0
		for b := range l.in {
			for _, in := range b.Instrs {
				if write(in) != nil {
					writesIn[l] = 1
				}
			}
		}
		return writesIn[l] == 1
	}
	memo := map[*ssa.BasicBlock]*Form{}
	var out func(b *ssa.BasicBlock, n int, d int) *Form
	var in func(b *ssa.BasicBlock, d int) *Form
	out = func(b *ssa.BasicBlock, n, d int) *Form {
		for k := n - 1; k >= 0; k-- {
			if f := write(b.Instrs[k]); f != nil {
				return f
			}
		}
		return in(b, d)
	}
	in = func(b *ssa.BasicBlock, d int) *Form {
		if f, ok := memo[b]; ok {
			return f
		}
		if d > 100 {
			return z.opaque("too deep")
		}
		memo[b] = z.opaque("field in a loop")
		var f *Form
		lp := vs.nest(fr.fn).head[b]
		switch {
		case len(b.Preds) == 0:
			f = vs.fieldOnEntry(fr, base, t, i)
		case lp != nil:
			if loopWrites(lp) {
				f = z.opaque("field modified in a loop")
				break
			}
			for _, p := range b.Preds {
				if lp.in[p] {
					continue
				}
				g := out(p, len(p.Instrs), d+1)
				if f == nil {
					f = g
				} else if f != g {
					f = z.opaque("field on loop entry")
				}
			}
		case len(b.Preds) == 1:
			f = out(b.Preds[0], len(b.Preds[0].Instrs), d+1)
		default:
			same := true
			for _, p := range b.Preds {
				g := out(p, len(p.Instrs), d+1)
				if f == nil {
					f = g
				} else if f != g {
					same = false
				}
			}
			if !same {
				f = vs.tree(fr, b.Idom(), func(blk, pred *ssa.BasicBlock) (*Form, bool) {
					if blk != b {
						return nil, false
					}
					return out(pred, len(pred.Instrs), d+1), true
				})
			}
		}
		if f == nil {
			f = z.opaque("field")
		}
		memo[b] = f
		return f
	}
	return out(at.Block(), instrIndex(at), 0)
}

func (vs *Values) fieldOnEntry(fr *frame, base *Form, t types.Type, i int) *Form {
	if fr.caller != nil && fr.site != nil && vs.storesField(fr.caller.fn, t, i, map[*ssa.Function]bool{}) {
		return vs.fieldAt(fr.caller, base, t, i, fr.site)
	}
	if f := vs.created(base, t, i); f != nil {
		return f
	}
	return vs.fieldOf(base, t, i)
}

func isParam(f *Form) bool { return f.op == "leaf" && strings.HasPrefix(f.sym, "arg") }

func isNew(f *Form) bool { return f.op == "site" && strings.HasPrefix(f.sym, "new") }

// created: the value a field had when the object was made.
func (vs *Values) created(base *Form, t types.Type, i int) *Form {
	if !isNew(base) {
		return nil
	}
	al, ok := siteInfo[base.sym].(*ssa.Alloc)
	fr := siteFrame[base.sym]
	if !ok || fr == nil || !types.Identical(deref(al.Type()), t) {
		return nil
	}
	var ret *ssa.Return
	for _, b := range al.Parent().Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if ret != nil {
				return nil
			}
			ret = r
		}
	}
	if ret == nil {
		return nil
	}
	m := vs.structAt(fr, al, ret, 0)
	if m == nil {
		return nil
	}
	return m[t.Underlying().(*types.Struct).Field(i).Name()]
}

// fieldFinal: the value of the field when the function returns.
func (vs *Values) fieldFinal(fr *frame, base *Form, t types.Type, i int) *Form {
	f := vs.retOf(fr, func(r *ssa.Return) *Form { return vs.fieldAt(fr, base, t, i, r) })
	if f == nil {
		return vs.z.opaque("never returns")
	}
	return f
}
