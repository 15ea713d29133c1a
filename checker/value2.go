package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- arrays as forms ----

func (z *forms) idx(base, i *Form) *Form {
	return z.liftN([]*Form{base, i}, func(a []*Form) *Form {
		b, i := a[0], a[1]
		switch b.op {
		case "arr":
			return z.subst(b.args[2], map[string]*Form{b.args[1].key: i})
		case "lit":
			if c, ok := i.constant(); ok && c.IsInt() && c.Num().IsInt64() {
				n := c.Num().Int64()
				if n >= 0 && n < int64(len(b.args)) {
					return b.args[n]
				}
			}
		case "slice":
			return z.idx(b.args[0], z.add(b.args[1], i))
		case "ties":
			// one of the equally good ones
			return b.args[0]
		case "beaten":
			return z.atom("beaten", "one", b.args[0])
		}
		return z.atom("idx", "", b, i)
	})
}

func (z *forms) length(f *Form) *Form {
	return z.lift1(f, func(f *Form) *Form {
		switch f.op {
		case "arr":
			return f.args[0]
		case "lit":
			return z.num(int64(len(f.args)))
		case "const":
			if f.sym == "nil" {
				return z.num(0)
			}
		case "append":
			return z.add(z.length(f.args[0]), z.length(f.args[1]))
		case "slice":
			hi := f.args[2]
			if hi.op == "const" && hi.sym == "end" {
				hi = z.length(f.args[0])
			}
			return z.sub(hi, f.args[1])
		}
		return z.atom("len", "", f)
	})
}

func (z *forms) appendForm(x, y *Form) *Form {
	return z.lift2(x, y, func(x, y *Form) *Form {
		if isEmpty(y) {
			return x
		}
		if isEmpty(x) {
			return y
		}
		if x.op == "lit" && y.op == "lit" {
			return z.atom("lit", "", append(append([]*Form{}, x.args...), y.args...)...)
		}
		return z.atom("append", "", x, y)
	})
}

func isEmpty(f *Form) bool {
	if f.op == "slice" && f.args[1] == f.args[2] {
		return true
	}
	return f.op == "const" && f.sym == "nil" || f.op == "lit" && len(f.args) == 0 || f.op == "arr" && f.args[0].isNum(0)
}

// mkArr closes a form over an index.
func (z *forms) mkArr(n, it, body *Form) *Form {
	// the identity array
	if body.op == "idx" && body.args[1] == it && !body.args[0].has(it) && z.length(body.args[0]) == n {
		return body.args[0]
	}
	body = z.within(body, it, n)
	if n.op == "ite" {
		return z.lift1(n, func(n *Form) *Form { return z.mkArr(n, it, body) })
	}
	return z.binder("arr", "", n, it, body)
}

// ---- contents of slices ----

type arrEvent struct {
	in   ssa.Instruction
	base *Form
	idx  *Form
	val  *Form
	busy bool
	call *frame // the write happens in this call
	bad  bool
	cond *Form          // the write concerns this slice only then
	off  *Form          // the write goes through a window that starts here
	up   *ssa.IndexAddr // base is a slice of slices: the row is loaded from here
	row  *Form
	ia   *ssa.IndexAddr // the element is read from outside
}

// unwindow: the slice a window is part of, and where it starts.
func (vs *Values) unwindow(f *Form) (*Form, *Form) {
	var off *Form
	for f.op == "slice" {
		if off == nil {
			off = f.args[1]
		} else {
			off = vs.z.add(off, f.args[1])
		}
		f = f.args[0]
	}
	return f, off
}

func isSlice(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Array)
		return ok
	}
	return false
}

// writesElems: the function, or one it calls, writes elements of slices it did not make itself.
func (vs *Values) writesElems(fn *ssa.Function) bool {
	if v, ok := vs.modp[fn]; ok {
		return v
	}
	vs.modp[fn] = false
	res := false
	mine := func(v ssa.Value) bool {
		for d := 0; d < 10; d++ {
			switch x := v.(type) {
			case *ssa.Alloc, *ssa.MakeSlice:
				return true
			case *ssa.Slice:
				v = x.X
				continue
			}
			return false
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !mine(ia.X) {
					res = true
				}
			case *ssa.IndexAddr:
				if escapes(x) != nil && !mine(x.X) {
					res = true
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" && !mine(cc.Args[0]) {
						res = true
					}
					continue
				}
				c := cc.StaticCallee()
				if c == nil || quiet(vs.p, c) {
					continue
				}
				if !vs.p.inRepo(c) {
					if strings.HasPrefix(calleeFull(cc), "sort.") {
						res = true
					}
				} else if c != fn && vs.writesElems(c) {
					res = true
				}
			}
		}
	}
	vs.modp[fn] = res
	return res
}

// escapes: the address of an element is handed out here.
func escapes(ia *ssa.IndexAddr) ssa.Instruction {
	for _, r := range *ia.Referrers() {
		switch r := r.(type) {
		case *ssa.MakeInterface:
			return r
		case ssa.CallInstruction:
			return r
		case *ssa.Store:
			if r.Val == ssa.Value(ia) {
				return r
			}
		}
	}
	return nil
}

// rawFrame: the frame of a call with its slices passed by name.
func (vs *Values) rawFrame(fr *frame, call ssa.CallInstruction) *frame {
	cc := call.Common()
	callee := cc.StaticCallee()
	if callee == nil || cc.IsInvoke() || !vs.p.inRepo(callee) || callee.Blocks == nil || onStack(fr, callee) {
		return nil
	}
	var args, free []*Form
	for _, a := range cc.Args {
		args = append(args, vs.at(fr, a, call.Block()))
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			free = append(free, vs.cellRef(fr, b, call, vs.loopOf(call.Block())))
		}
	}
	return vs.frame(callee, args, free, fr, call)
}

// arrEvents lists the writes to elements of slices in a function.
func (vs *Values) arrEvents(fr *frame) []*arrEvent {
	if e, ok := fr.evs[nil]; ok {
		return e
	}
	fr.evs[nil] = nil
	var out []*arrEvent
	// places named without reading an element first: the others are named with their help
	for pass := 0; pass < 2; pass++ {
		out0 := out
		out = nil
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				if readsElem(in) != (pass == 1) {
					continue
				}
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if u := escapes(x); u != nil {
						if t, up := vs.tableOf(fr, x, b); t != nil {
							out = append(out, &arrEvent{in: u, base: t, up: up, bad: true})
							continue
						}
						base, off := vs.unwindow(vs.at(fr, x.X, b))
						e := &arrEvent{in: u, base: base, off: off, bad: true}
						if m, ok := u.(*ssa.MakeInterface); ok && len(*x.Referrers()) == 1 && readInto(m) != nil {
							// a value that is scanned or decoded
							e.bad, e.ia = false, x
						}
						out = append(out, e)
					}
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if t, up := vs.tableOf(fr, ia, b); t != nil {
							out = append(out, &arrEvent{in: in, base: t, up: up})
							continue
						}
						base, off := vs.unwindow(vs.at(fr, ia.X, b))
						out = append(out, &arrEvent{in: in, base: base, off: off})
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" {
							if up := rowLoad(cc.Args[0]); up != nil {
								if t := vs.at(fr, up.X, up.Block()); ownSite(t) {
									out = append(out, &arrEvent{in: in, base: t, bad: true, up: up})
									continue
								}
							}
							base, off := vs.unwindow(vs.at(fr, cc.Args[0], b))
							out = append(out, &arrEvent{in: in, base: base, bad: off != nil})
						}
						continue
					}
					callee := cc.StaticCallee()
					if callee == nil || !vs.p.inRepo(callee) || callee.Blocks == nil {
						if n := calleeFull(cc); strings.HasPrefix(n, "sort.") {
							for _, a := range cc.Args {
								if isSlice(a.Type()) {
									if up := rowLoad(a); up != nil {
										out = append(out, &arrEvent{in: in, base: vs.at(fr, up.X, up.Block()), bad: true, up: up})
									}
									base, _ := vs.unwindow(vs.at(fr, a, b))
									out = append(out, &arrEvent{in: in, base: base, bad: true})
								}
							}
						}
						continue
					}
					if !vs.writesElems(callee) || quiet(vs.p, callee) || vs.p.rel(callee) == "common" && vs.p.rel(fr.fn) != "common" || vs.p.rel(callee) == "sys" {
						continue
					}
					for _, a := range cc.Args {
						if up := rowLoad(a); up != nil {
							if t := vs.at(fr, up.X, up.Block()); ownSite(t) {
								out = append(out, &arrEvent{in: in, base: t, bad: true, up: up})
							}
						}
					}
					g := vs.rawFrame(fr, x)
					if g == nil {
						continue
					}
					seen := map[*Form]bool{}
					for _, e := range vs.arrEvents(g) {
						if e.base.op == "site" && siteFrame[e.base.sym] == g || seen[e.base] {
							continue
						}
						seen[e.base] = true
						out = append(out, &arrEvent{in: in, base: e.base, call: g})
					}
				}
			}
		}
		if pass == 0 {
			fr.evs[nil] = vs.splitEvents(out)
		} else {
			out = mergeEvents(out0, out)
		}
	}
	fr.evs[nil] = vs.splitEvents(out)
	return fr.evs[nil]
}

func (vs *Values) splitEvents(out []*arrEvent) []*arrEvent {
	// a slice that is one of several
	var all []*arrEvent
	for _, e := range out {
		if e.base.op != "ite" {
			all = append(all, e)
			continue
		}
		var split func(b, c *Form)
		split = func(b, c *Form) {
			if b.op == "ite" {
				split(b.args[1], vs.z.ite(c, b.args[0], vs.z.fls()))
				split(b.args[2], vs.z.ite(c, vs.z.not(b.args[0]), vs.z.fls()))
				return
			}
			if b.op == "const" {
				return
			}
			d := *e
			d.base, d.cond = b, c
			if w, off := vs.unwindow(b); off != nil {
				d.base, d.bad = w, true
			}
			all = append(all, &d)
		}
		split(e.base, vs.z.tru())
	}
	return all
}

// mergeEvents: both lists, in the order of the program.
func mergeEvents(a, b []*arrEvent) []*arrEvent {
	out := append(append([]*arrEvent{}, a...), b...)
	at := map[ssa.Instruction]int{}
	place := func(in ssa.Instruction) int {
		if n, ok := at[in]; ok {
			return n
		}
		for i, o := range in.Block().Instrs {
			at[o] = in.Block().Index<<16 + i
		}
		return at[in]
	}
	pos := func(e *arrEvent) int {
		if e.ia != nil {
			return place(e.ia)
		}
		return place(e.in)
	}
	sort.SliceStable(out, func(i, j int) bool { return pos(out[i]) < pos(out[j]) })
	return out
}

// readsElem: naming the memory the instruction writes takes reading an element.
func readsElem(in ssa.Instruction) bool {
	var roots []ssa.Value
	switch x := in.(type) {
	case *ssa.IndexAddr:
		roots = []ssa.Value{x.X}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			roots = []ssa.Value{ia.X}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			if bi.Name() == "copy" {
				roots = cc.Args[:1]
			}
		} else {
			roots = cc.Args
		}
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.IndexAddr); ok {
				return true
			}
			return rec(x.X)
		case *ssa.Lookup:
			return rec(x.X)
		case *ssa.Index:
			return true
		case *ssa.Slice:
			return rec(x.X) || x.Low != nil && rec(x.Low)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if rec(e) {
					return true
				}
			}
		case *ssa.FieldAddr:
			return rec(x.X)
		case *ssa.Extract:
			return rec(x.Tuple)
		case *ssa.Convert:
			return rec(x.X)
		case *ssa.ChangeType:
			return rec(x.X)
		case *ssa.BinOp:
			return rec(x.X) || rec(x.Y)
		}
		return false
	}
	for _, r := range roots {
		if rec(r) {
			return true
		}
	}
	return false
}

func rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			rec(b.Succs[i])
		}
		post = append(post, b)
	}
	rec(fn.Blocks[0])
	m := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		m[b] = len(post) - i
	}
	return m
}

// fwdReach: t is reachable from b without entering the header of loop l again.
func fwdReach(b, t *ssa.BasicBlock, l *loop) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] || (l != nil && (x == l.head || !l.in[x])) {
			continue
		}
		if x == t {
			return true
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func below(g, fr *frame) bool {
	for ; g != nil; g = g.caller {
		if g == fr {
			return true
		}
	}
	return false
}

func onlyReturn(fn *ssa.Function) *ssa.Return {
	var r *ssa.Return
	for _, b := range fn.Blocks {
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if r != nil {
				return nil
			}
			r = x
		}
	}
	return r
}

// elemAt: the element j of the slice with form base, just before instruction at.
func (vs *Values) elemAt(fr *frame, base, j *Form, at ssa.Instruction) *Form {
	if vs.depth > 4000 {
		return vs.z.opaque("too deep")
	}
	vs.depth++
	defer func() { vs.depth-- }()
	z := vs.z
	if base.op == "ite" || j.op == "ite" {
		return z.liftN([]*Form{base, j}, func(a []*Form) *Form { return vs.elemAt(fr, a[0], a[1], at) })
	}
	if b, off := vs.unwindow(base); off != nil {
		return vs.elemAt(fr, b, z.add(off, j), at)
	}
	var evs []*arrEvent
	for _, e := range vs.arrEvents(fr) {
		if e.base == base {
			evs = append(evs, e)
		} else if e.base.opq && base.op == "site" {
			return z.opaque("slice written through another name")
		}
	}
	init := func(j *Form) *Form {
		if base.op == "site" && (strings.HasPrefix(base.sym, "mk") || strings.HasPrefix(base.sym, "new")) {
			if g := siteFrame[base.sym]; g != nil && g != fr && len(vs.arrEvents(g)) > 0 {
				if below(g, fr) {
					if r := onlyReturn(g.fn); r != nil {
						return vs.elemAt(g, base, j, r)
					}
				}
				return z.opaque("slice filled elsewhere")
			}
			if c, ok := siteInfo[base.sym].(*ssa.Call); ok {
				g := siteFrame[base.sym]
				return z.idx(vs.snapshot(g, vs.at(g, c.Common().Args[1], c.Block()), c), j)
			}
			return vs.siteZero(base)
		}
		return z.idx(base, j)
	}
	if hasRowEvents(evs) {
		if vs.rowsOnly == 0 {
			vs.rowsOnly++
			row := vs.elemAt(fr, base, j, at)
			vs.rowsOnly--
			if row.opq {
				return row
			}
			it := z.atom("iter", fmt.Sprintf("row%d.%d", fr.id, vs.depth))
			body := vs.cellAt(fr, base, j, it, at)
			if body.opq {
				return body
			}
			return z.mkArr(z.length(row), it, body)
		}
		var rows []*arrEvent
		for _, e := range evs {
			if e.up == nil {
				rows = append(rows, e)
			}
		}
		evs = rows
	}
	if len(evs) == 0 {
		return init(j)
	}
	order := rpo(fr.fn)
	al := vs.loopOf(at.Block())
	type rel struct {
		e    *arrEvent
		m    *loop // the loop the event runs in, one below the common loop; nil: straight line
		com  *loop
		lift *ssa.BasicBlock
	}
	var rs []rel
	for _, e := range evs {
		el := vs.loopOf(e.in.Block())
		com := viewpoint(el, al)
		r := rel{e: e, com: com, lift: e.in.Block()}
		if el != com {
			m := el
			if m.parent != com {
				if vs.plainStores(evs) {
					return vs.applyStores(fr, base, evs, []*Form{j}, []*Form{vs.lenOf(base)}, at, func(t []*Form) *Form { return init(t[0]) })
				}
				return z.opaque("slice written in nested loops")
			}
			r.m = m
			r.lift = m.head
		}
		// position of the use at the level of the common loop
		ub := at.Block()
		ul := al
		for ul != com {
			ub = ul.head
			ul = ul.parent
		}
		before := false
		if r.lift == ub {
			if r.m == nil && ub == at.Block() {
				before = instrIndex(e.in) < instrIndex(at)
			}
			if r.m == nil && ub != at.Block() {
				return z.opaque("slice order")
			}
		} else {
			before = fwdReach(r.lift, ub, com)
		}
		// earlier iterations of the common loop
		if com != nil && !vs.freshIn(fr, base, com) {
			it := vs.iter(fr, com)
			if r.m != nil || e.bad || e.cond != nil && e.cond.has(it) {
				return z.opaque("slice rewritten by an enclosing loop")
			}
			ix := vs.eventIndex(fr, e)
			if ix == nil || ix.opq {
				return z.opaque("slice written at an unknown index")
			}
			ownSlot := false
			if a, d, ok := linearIn(ix, it); ok && d.Sign() != 0 && a != nil {
				ownSlot = ix == j
			} else if ix.op == "key" && ix.has(it) {
				ownSlot = ix == j
			}
			if !ownSlot {
				return z.opaque("slice written by other iterations")
			}
			if com.parent != nil && !vs.freshIn(fr, base, com.parent) {
				// an enclosing loop repeats all of this: the initial contents are those of the
				// previous round, unless the slice is the same program-wide value
				if base.op == "site" {
					return z.opaque("slice rewritten by an enclosing loop")
				}
			}
		}
		if before {
			rs = append(rs, r)
		}
	}
	sort.SliceStable(rs, func(i, k int) bool {
		a, b := rs[i], rs[k]
		if a.lift != b.lift {
			return order[a.lift] < order[b.lift]
		}
		if a.e.in.Block() != b.e.in.Block() {
			return order[a.e.in.Block()] < order[b.e.in.Block()]
		}
		return instrIndex(a.e.in) < instrIndex(b.e.in)
	})
	cur := init
	for _, r := range rs {
		r := r
		prev := cur
		var eff func(j *Form) *Form
		if _, ok := r.e.in.(ssa.CallInstruction); ok {
			if r.m != nil || r.e.bad {
				return z.opaque("slice changed by a call")
			}
			eff = vs.callEffect(fr, r.e, base, prev)
			if eff == nil {
				return z.opaque("slice changed by a call")
			}
		} else {
			if r.m != nil {
				if tb := vs.tieBuffer(fr, r.m, evs); tb != nil {
					return tb
				}
			}
			ix, v := vs.eventParts(fr, r.e)
			if ix == nil || ix.opq {
				return z.opaque("slice written at an unknown index")
			}
			if r.m == nil {
				eff = func(j *Form) *Form {
					if ix == j {
						return v
					}
					return z.ite(z.eq0(z.sub(ix, j)), v, prev(j))
				}
			} else {
				it := vs.iter(fr, r.m)
				dom := vs.dom(fr, r.m)
				if dom.opq {
					return z.opaque("slice filled by a loop that is not understood")
				}
				if ix.op == "key" && ix.args[1] == it && !ix.args[0].has(it) && dom.op == "maprange" && !vs.breaks(r.m) {
					// one element for every key of a map
					m := ix.args[0]
					g := vs.reachDone(fr, r.m, r.e.in.Block())
					if g.opq || v.opq {
						return z.opaque("slice filled conditionally")
					}
					ok := true
					eff = func(j *Form) *Form {
						sub := map[string]*Form{ix.key: j}
						res := z.ite(z.subst(g, sub), z.subst(v, sub), prev(j))
						if res.has(it) {
							ok = false
						}
						return z.ite(z.liftN([]*Form{m, j}, func(a []*Form) *Form { return z.atom("b", "has", a...) }), res, prev(j))
					}
					if eff(z.num(0)); !ok || r.e.cond != nil {
						return z.opaque("slice filled irregularly")
					}
					if r.lift.Dominates(at.Block()) {
						cur = eff
						continue
					}
					gg := vs.reach(fr, r.com, r.lift)
					if gg.opq {
						return z.opaque("slice written conditionally")
					}
					e2 := eff
					cur = func(j *Form) *Form { return z.ite(gg, e2(j), prev(j)) }
					continue
				}
				a, d, ok := linearIn(ix, it)
				if !ok || d.Num().CmpAbs(big.NewInt(1)) != 0 || !d.IsInt() || isDom(dom) {
					if vs.plainStores(evs) {
						return vs.applyStores(fr, base, evs, []*Form{j}, []*Form{vs.lenOf(base)}, at, func(t []*Form) *Form { return init(t[0]) })
					}
					return z.opaque("slice filled irregularly")
				}
				var early func(i *Form) *Form
				if vs.breaks(r.m) {
					kind := vs.stopsEarly(fr, r.m)
					if kind == "" {
						return z.opaque("slice filled by a loop with a break")
					}
					early = func(i *Form) *Form { return z.atom("b", kind, i) }
				}
				g := vs.reachDone(fr, r.m, r.e.in.Block())
				if g.opq {
					return z.opaque("slice filled conditionally")
				}
				n := vs.lenOf(base)
				eff = func(j *Form) *Form {
					ij := z.sub(j, a)
					if d.Sign() < 0 {
						ij = z.neg(ij)
					}
					sub := map[string]*Form{it.key: ij}
					res := z.ite(z.subst(g, sub), z.subst(v, sub), prev(j))
					full := dom == n && ((d.Sign() > 0 && a.isNum(0)) || (d.Sign() < 0 && a == z.sub(n, z.num(1))))
					if !full {
						inr := z.ite(z.ge0(ij), z.ge0(z.sub(z.sub(dom, z.num(1)), ij)), z.fls())
						res = z.ite(inr, res, prev(j))
					}
					if early != nil {
						res = z.ite(early(j), prev(j), res)
					}
					return res
				}
			}
		}
		if c := r.e.cond; c != nil {
			if c.opq || r.m != nil && c.has(vs.iter(fr, r.m)) {
				return z.opaque("one of several slices")
			}
			e2 := eff
			eff = func(j *Form) *Form { return z.ite(c, e2(j), prev(j)) }
		}
		// the event may be skipped
		if r.lift.Dominates(at.Block()) {
			cur = eff
			continue
		}
		g := vs.reach(fr, r.com, r.lift)
		if g.opq {
			return z.opaque("slice written conditionally")
		}
		if !isTrue(g) {
			e2 := eff
			eff = func(j *Form) *Form { return z.ite(g, e2(j), prev(j)) }
		}
		cur = eff
	}
	return cur(j)
}

// tieBuffer recognises a slice that collects, with a counter, the positions at which a running
// maximum is attained: any of its elements in use is such a position.
func (vs *Values) tieBuffer(fr *frame, m *loop, evs []*arrEvent) *Form {
	z := vs.z
	it := vs.iter(fr, m)
	dom := vs.dom(fr, m)
	if dom.opq || isDom(dom) || vs.breaks(m) {
		return nil
	}
	for _, in := range m.head.Instrs {
		mp, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !numeric(mp.Type()) {
			continue
		}
		macc := vs.acc(fr, mp)
		mst := vs.step(fr, mp, m)
		if mst == nil {
			continue
		}
		op, body := z.extrBody(mst, macc)
		if body == nil || body.opq || op != "max" {
			continue
		}
		gt, eq := z.gt0(z.sub(body, macc)), z.eq0(z.sub(body, macc))
		at := func(f *Form) [3]*Form {
			n := z.assume(f, gt, false)
			return [3]*Form{z.assume(z.assume(f, gt, true), eq, false), z.assume(n, eq, true), z.assume(n, eq, false)}
		}
		var val *Form
		kinds := ""
		stale := false // the counter is not set back when a larger value is found
		for _, e := range evs {
			if e.bad || vs.loopOf(e.in.Block()) != m {
				return nil
			}
			ix, v := vs.eventParts(fr, e)
			if ix == nil || v == nil || v.opq || (val != nil && v != val) {
				return nil
			}
			val = v
			g := at(vs.reachDone(fr, m, e.in.Block()))
			counter := func() bool {
				for _, in := range m.head.Instrs {
					c, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if vs.acc(fr, c) != ix {
						continue
					}
					cs := vs.step(fr, c, m)
					if cs == nil {
						return false
					}
					k := at(cs)
					if k[0] == ix && k[1] == z.add(ix, z.num(1)) && k[2] == ix {
						stale = true
						return true
					}
					return k[0].isNum(1) && k[1] == z.add(ix, z.num(1)) && k[2] == ix
				}
				return false
			}
			switch {
			case isTrue(g[0]) && isFalse(g[1]) && isFalse(g[2]):
				if ix.isNum(0) {
					kinds += "s"
				} else if counter() {
					kinds += "b"
				} else {
					return nil
				}
			case isFalse(g[0]) && isTrue(g[1]) && isFalse(g[2]) && counter():
				kinds += "t"
			default:
				return nil
			}
		}
		if val == nil {
			continue
		}
		one := z.subst(val, map[string]*Form{it.key: z.argidx(op, dom, it, body, vs.initial(fr, mp, m))})
		switch kinds {
		case "s", "st", "ts":
			if stale {
				return z.atom("beaten", "one", one)
			}
			return one
		case "bt", "tb":
			return z.atom("beaten", "one", one)
		}
		return nil
	}
	return nil
}

// eventIndex, eventParts: index and value of a store.
func (vs *Values) eventIndex(fr *frame, e *arrEvent) *Form {
	ia := e.ia
	if st, ok := e.in.(*ssa.Store); ok {
		ia = st.Addr.(*ssa.IndexAddr)
	}
	if ia == nil {
		return nil
	}
	if e.idx == nil {
		e.idx = vs.at(fr, ia.Index, e.in.Block())
		if e.off != nil {
			e.idx = vs.z.add(e.idx, e.off)
		}
	}
	return e.idx
}

func (vs *Values) eventParts(fr *frame, e *arrEvent) (*Form, *Form) {
	ix := vs.eventIndex(fr, e)
	if ix == nil {
		return nil, nil
	}
	if e.val == nil {
		if e.busy {
			return ix, vs.z.opaque("cyclic slice")
		}
		if e.ia != nil {
			e.val = vs.z.atom("read", "", vs.at(fr, e.ia, e.in.Block()))
			return ix, e.val
		}
		e.busy = true
		st := e.in.(*ssa.Store)
		v := vs.kept(fr, st.Val, st)
		e.busy = false
		e.val = v
	}
	return ix, e.val
}

// callEffect: what a call does to the slice base.
func (vs *Values) callEffect(fr *frame, e *arrEvent, base *Form, prev func(*Form) *Form) func(*Form) *Form {
	z := vs.z
	call := e.in.(ssa.CallInstruction)
	cc := call.Common()
	n := vs.lenOf(base)
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
		src := vs.arg(fr, cc.Args[1], call)
		if src.opq {
			return nil
		}
		return func(j *Form) *Form {
			if z.length(src) == n {
				return z.idx(src, j)
			}
			return z.ite(z.ge0(z.sub(z.sub(z.length(src), z.num(1)), j)), z.idx(src, j), prev(j))
		}
	}
	g := e.call
	if g == nil {
		return nil
	}
	return func(j *Form) *Form {
		slot := z.atom("leaf", "slot")
		res := vs.retOf(g, func(r *ssa.Return) *Form { return vs.elemAt(g, base, slot, r) })
		if res == nil || res.opq {
			return z.opaque("slice changed by a call")
		}
		// the contents before the call, of this slice and of the others handed over
		res = vs.substArr(res, base, n, prev)
		for _, a := range cc.Args {
			f := vs.at(fr, a, call.Block())
			if isSlice(a.Type()) && f != base && f.op == "site" {
				sn := vs.snapshot(fr, f, call)
				if sn.opq {
					return z.opaque("slice handed over")
				}
				res = z.subst(res, map[string]*Form{f.key: sn})
			}
		}
		return z.subst(res, map[string]*Form{slot.key: j})
	}
}

// substArr replaces a slice leaf by known contents.
func (vs *Values) substArr(f, in, n *Form, at func(*Form) *Form) *Form {
	z := vs.z
	it := z.atom("iter", "sub")
	body := at(it)
	if body.opq {
		return z.opaque("slice contents")
	}
	arr := z.mkArr(n, it, body)
	return z.subst(f, map[string]*Form{in.key: arr})
}

// freshIn: the slice is made anew in every iteration of loop l.
func (vs *Values) freshIn(fr *frame, base *Form, l *loop) bool {
	return base.has(vs.iter(fr, l))
}

var siteInfo = map[string]ssa.Value{}
var siteFrame = map[string]*frame{}

func (vs *Values) siteZero(f *Form) *Form {
	if v, ok := siteInfo[f.sym]; ok {
		switch t := v.Type().Underlying().(type) {
		case *types.Slice:
			return vs.zero(t.Elem())
		case *types.Pointer:
			if a, ok := t.Elem().Underlying().(*types.Array); ok {
				return vs.zero(a.Elem())
			}
		}
	}
	return vs.z.opaque("initial contents")
}

// lenOf: the length of a slice value.
func (vs *Values) lenOf(f *Form) *Form {
	z := vs.z
	return z.lift1(f, func(f *Form) *Form {
		if f.op == "site" {
			if v, ok := siteInfo[f.sym]; ok {
				switch x := v.(type) {
				case *ssa.MakeSlice:
					fr := siteFrame[f.sym]
					return vs.at(fr, x.Len, x.Block())
				case *ssa.Call:
					if strings.HasPrefix(f.sym, "mk#") {
						fr := siteFrame[f.sym]
						return vs.lenOf(vs.at(fr, x.Common().Args[1], x.Block()))
					}
				case *ssa.Alloc:
					if a, ok := deref(x.Type()).Underlying().(*types.Array); ok {
						return z.num(a.Len())
					}
				}
			}
		}
		return z.length(f)
	})
}

// arg: a value handed on at instruction at; slices made here become array forms.
func (vs *Values) arg(fr *frame, v ssa.Value, at ssa.Instruction) *Form {
	if mc, ok := v.(*ssa.MakeClosure); ok && vs.runJobs {
		// a closure handed over and called before this returns: it sees its variables as they are now
		var as []*Form
		for _, b := range mc.Bindings {
			as = append(as, vs.cellRef(fr, b, at, vs.loopOf(at.Block())))
		}
		k := vs.z.atom("clo", mc.Fn.String(), as...)
		vs.clos[k.key] = &cloInfo{fn: mc.Fn.(*ssa.Function), free: as}
		return k
	}
	f := vs.at(fr, v, at.Block())
	return vs.snapshot(fr, f, at)
}

func (vs *Values) snapshot(fr *frame, f *Form, at ssa.Instruction) *Form {
	z := vs.z
	return z.lift1(f, func(f *Form) *Form {
		if f.op == "append" || f.op == "slice" {
			as := append([]*Form{}, f.args...)
			for i := range as {
				as[i] = vs.snapshot(fr, as[i], at)
			}
			if f.op == "append" {
				return z.appendForm(as[0], as[1])
			}
			return z.atom("slice", f.sym, as...)
		}
		written := false
		if f.op != "site" {
			// a slice of the caller whose elements are written here
			for _, e := range vs.arrEvents(fr) {
				if e.base == f {
					written = true
				}
			}
			if !written {
				return f
			}
		}
		if f.op == "site" && siteFrame[f.sym] != fr {
			return f
		}
		if f.op == "site" && !(strings.HasPrefix(f.sym, "mk#") || strings.HasPrefix(f.sym, "new#")) {
			return f
		}
		if f.op == "site" {
			if v := siteInfo[f.sym]; v == nil || !isSlice(v.Type()) {
				return f
			}
		}
		n := vs.lenOf(f)
		if n.opq {
			return n
		}
		if c, ok := n.constant(); ok && f.op == "site" && c.IsInt() && c.Num().Int64() <= 16 {
			var as []*Form
			for i := int64(0); i < c.Num().Int64(); i++ {
				e := vs.elemAt(fr, f, z.num(i), at)
				if e.opq {
					return e
				}
				as = append(as, e)
			}
			return z.atom("lit", "", as...)
		}
		it := z.atom("iter", fmt.Sprintf("snap%d", fr.id))
		body := vs.elemAt(fr, f, it, at)
		if body.opq {
			return body
		}
		return z.mkArr(n, it, body)
	})
}

func (vs *Values) elem(fr *frame, a *ssa.IndexAddr, x ssa.Instruction, l *loop) *Form {
	if up := rowLoad(a.X); up != nil {
		if t := vs.val(fr, up.X, l); ownSite(t) {
			var evs []*arrEvent
			for _, e := range vs.arrEvents(fr) {
				if e.base == t {
					evs = append(evs, e)
				}
			}
			if hasRowEvents(evs) {
				return vs.cellAt(fr, t, vs.val(fr, up.Index, l), vs.val(fr, a.Index, l), x)
			}
		}
	}
	base := vs.val(fr, a.X, l)
	i := vs.val(fr, a.Index, l)
	if base.opq {
		return vs.z.opaque("element of an unknown slice")
	}
	return vs.elemAt(fr, base, i, x)
}

// ---- returns ----

// retOf merges a value taken at each return of the frame's function.
func (vs *Values) retOf(fr *frame, at func(*ssa.Return) *Form) *Form {
	if fr.fn.Blocks == nil {
		return vs.z.opaque("no body")
	}
	entry := fr.fn.Blocks[0]
	if r, ok := entry.Instrs[len(entry.Instrs)-1].(*ssa.Return); ok {
		return at(r)
	}
	f := vs.tree(fr, entry, func(blk, pred *ssa.BasicBlock) (*Form, bool) {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			return nil, false
		}
		return at(r), true
	})
	return f
}

func (vs *Values) retForm(fr *frame, i int) *Form {
	if f, ok := fr.ret[i]; ok {
		return f
	}
	fr.ret[i] = vs.z.opaque("recursion")
	f := vs.retOf(fr, func(r *ssa.Return) *Form {
		if i >= len(r.Results) {
			return vs.z.opaque("result")
		}
		if l := vs.loopOf(r.Block()); l != nil {
			return vs.z.opaque("return in a loop")
		}
		return vs.arg(fr, r.Results[i], r)
	})
	if f == nil {
		f = vs.z.opaque("never returns")
	}
	f = vs.z.bothExtremes(f)
	fr.ret[i] = f
	return f
}

// bothExtremes: where the larger and the smaller of the same two values are used together, each
// order is a case of its own.
func (z *forms) bothExtremes(f *Form) *Form {
	if f.opq {
		return f
	}
	var lo, hi []*Form
	seen := map[*Form]bool{}
	var rec func(d *Form)
	rec = func(d *Form) {
		if seen[d] {
			return
		}
		seen[d] = true
		if len(d.args) == 2 {
			switch d.op {
			case "max2":
				hi = append(hi, d)
			case "min2":
				lo = append(lo, d)
			}
		}
		for i, a := range d.args {
			if i > 0 && len(d.args) > 1 && d.args[1].op == "bv" {
				break // under a binder
			}
			rec(a)
		}
		for _, m := range d.mons {
			for _, p := range m.at {
				rec(p.f)
			}
		}
	}
	rec(f)
	for _, a := range lo {
		for _, b := range hi {
			if a.args[0] == b.args[0] && a.args[1] == b.args[1] {
				c := z.gt0(z.sub(a.args[1], a.args[0]))
				m := func(big, small *Form) *Form {
					return z.subst(f, map[string]*Form{a.key: small, b.key: big})
				}
				return z.ite(c, m(a.args[1], a.args[0]), m(a.args[0], a.args[1]))
			}
		}
	}
	return f
}

// ---- calls ----

// purity: does a function change memory that existed before the call, or draw from state?
func (vs *Values) impure(fn *ssa.Function) bool {
	if v, ok := impureMemo[fn]; ok {
		return v
	}
	impureMemo[fn] = false
	res := false
	local := func(v ssa.Value) bool {
		for d := 0; d < 20; d++ {
			switch x := v.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
				return true
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.UnOp:
				ia := rowLoad(x)
				if ia == nil || !ownRows(ia.X) {
					return false
				}
				v = ia.X
			case *ssa.Phi:
				for _, e := range x.Edges {
					switch e.(type) {
					case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Const:
					default:
						return false
					}
				}
				return true
			default:
				return false
			}
		}
		return false
	}
	if fn.Blocks == nil {
		res = true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !local(x.Addr) {
					res = true
				}
			case *ssa.MapUpdate:
				if !local(x.Map) {
					res = true
				}
			case *ssa.Send, *ssa.Select, *ssa.Go:
				res = true
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if (bi.Name() == "delete" || bi.Name() == "copy") && !local(cc.Args[0]) {
						res = true
					}
					continue
				}
				if cc.IsInvoke() {
					if !pureMethod(cc.Method.Name()) {
						res = true
					}
					continue
				}
				c := cc.StaticCallee()
				if c == nil {
					continue
				}
				if quiet(vs.p, c) {
					continue
				}
				if vs.p.inRepo(c) {
					if c != fn && vs.impure(c) && !onlyLocalMods(vs, c, cc, local) {
						res = true
					}
				} else if n := calleeFull(cc); !pureExt(n) && !pureDist(n) {
					res = true
				}
			}
		}
	}
	impureMemo[fn] = res
	return res
}

// onlyLocalMods: the callee is impure only because it writes elements of slices that are local here.
func onlyLocalMods(vs *Values, c *ssa.Function, cc *ssa.CallCommon, local func(ssa.Value) bool) bool {
	if !vs.writesElems(c) {
		return false
	}
	for _, a := range cc.Args {
		if isSlice(a.Type()) && !local(a) {
			return false
		}
	}
	// nothing else is written
	for _, b := range c.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.IndexAddr); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
				return false
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return true
}

var impureMemo = map[*ssa.Function]bool{}

// quiet: logging and memory housekeeping.
func quiet(p *Program, f *ssa.Function) bool {
	return p.rel(f) == "sys" && (strings.HasPrefix(f.Name(), "Print") || f.Name() == "Free" || f.Name() == "Log" || strings.HasPrefix(f.Name(), "Timer") || strings.HasPrefix(f.Name(), "Measure"))
}

func pureMethod(n string) bool {
	switch n {
	case "Ch", "Weights", "Type", "SubType", "Sc", "Value", "Max", "ArgMax", "Parameters", "Leaf", "rawSc", "Error", "String", "Empty", "Size", "Peek", "Prob", "CDF", "Quantile", "LogProb":
		return true
	}
	return false
}

func (vs *Values) call(fr *frame, x *ssa.Call, i int, l *loop) *Form {
	z := vs.z
	cc := x.Common()
	val := func(v ssa.Value) *Form { return vs.val(fr, v, l) }
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			return vs.lenOf(val(cc.Args[0]))
		case "append":
			y := vs.snapshot(fr, val(cc.Args[1]), x)
			x0 := val(cc.Args[0])
			if isEmpty(x0) && vs.elemsWritten(x) {
				// a copy that is changed afterwards
				return vs.site(fr, x, "mk")
			}
			return z.appendForm(x0, y)
		case "min", "max":
			var as []*Form
			for _, a := range cc.Args {
				as = append(as, val(a))
			}
			return z.extr(b.Name()+"2", as...)
		}
		return vs.site(fr, x, b.Name())
	}
	var args []*Form
	if cc.IsInvoke() {
		args = append(args, val(cc.Value))
		for _, a := range cc.Args {
			args = append(args, vs.arg(fr, a, x))
		}
		return vs.method(fr, x, cc.Method.Name(), args, i)
	}
	for _, a := range cc.Args {
		f := val(a)
		if isSlice(a.Type()) {
			f = vs.snapshot(fr, f, x)
		}
		args = append(args, f)
	}
	if n := calleeFull(cc); strings.HasSuffix(n, "/stat/distuv.ChiSquared).CDF") || strings.HasSuffix(n, "/stat/distuv.ChiSquared).Survival") {
		if k := vs.argField(fr, cc.Args[0], x, "K"); k != nil && !k.opq {
			f := z.liftN([]*Form{k, args[1]}, func(a []*Form) *Form { return z.atom("call", "distuv.ChiSquared.CDF.0", a...) })
			if strings.HasSuffix(n, "Survival") {
				f = z.sub(z.num(1), f)
			}
			return f
		}
	}
	callee := cc.StaticCallee()
	var free []*Form
	if callee == nil {
		f := val(cc.Value)
		if ci, ok := vs.clos[f.key]; ok {
			callee, free = ci.fn, ci.free
		} else {
			return z.liftN(append([]*Form{f}, args...), func(a []*Form) *Form { return z.atom("apply", fmt.Sprint(i), a...) })
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			free = append(free, vs.cellRef(fr, b, x, l))
		}
	}
	if f := vs.extCall(calleeFull(cc), args, i); f != nil {
		return f
	}
	if !vs.p.inRepo(callee) || callee.Blocks == nil {
		if pureExt(calleeFull(cc)) {
			return z.liftN(args, func(a []*Form) *Form { return z.atom("call", fmt.Sprintf("%s.%d", calleeFull(cc), i), a...) })
		}
		return vs.site(fr, x, fmt.Sprintf("call%d", i))
	}
	if vs.staleRead(fr, callee, args) {
		return vs.site(fr, x, fmt.Sprintf("call%d", i))
	}
	return vs.inline(fr, x, callee, args, free, i)
}

// staleRead: reading a storage made by this function and refilled by others as it goes: two reads
// of the same entry need not agree.
func (vs *Values) staleRead(fr *frame, callee *ssa.Function, args []*Form) bool {
	if len(args) == 0 || args[0].op != "site" || callee.Signature.Recv() == nil {
		return false
	}
	n := types.TypeString(deref(callee.Signature.Recv().Type()), nil)
	return strings.HasSuffix(n, "spn.Storer") && siteFrame[args[0].sym] != nil && vs.p.rel(fr.fn) != "spn"
}

func (vs *Values) cellRef(fr *frame, b ssa.Value, at ssa.Instruction, l *loop) *Form {
	if al, ok := b.(*ssa.Alloc); ok {
		f := vs.cell(fr, al, at, l)
		if !f.opq {
			return vs.z.atom("cell", "", f)
		}
	}
	return vs.val(fr, b, l)
}

// method: calls through the node interface.
func (vs *Values) method(fr *frame, x *ssa.Call, name string, args []*Form, i int) *Form {
	z := vs.z
	switch name {
	case "Ch":
		return z.lift1(args[0], func(f *Form) *Form { return z.atom("fld", "ch", f) })
	case "Weights":
		return z.lift1(args[0], func(f *Form) *Form { return z.atom("fld", "w", f) })
	case "Type", "SubType", "Sc", "Parameters":
		return z.lift1(args[0], func(f *Form) *Form { return z.atom("fld", name, f) })
	}
	for _, a := range args {
		if a.opq {
			return z.opaque("argument")
		}
	}
	if pureMethod(name) && name != "Empty" && name != "Size" && name != "Peek" {
		return z.liftN(args, func(a []*Form) *Form { return z.atom("call", fmt.Sprintf("%s.%d", name, i), a...) })
	}
	return vs.site(fr, x, fmt.Sprintf("call%d", i))
}

func isSPN(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	n := types.TypeString(deref(f.Signature.Recv().Type()), func(p *types.Package) string { return p.Name() })
	switch n {
	case "spn.Sum", "spn.Product", "spn.Node", "spn.Multinomial", "spn.Gaussian", "spn.Indicator":
		return true
	}
	return false
}

func recvName(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	return types.TypeString(deref(f.Signature.Recv().Type()), func(p *types.Package) string { return p.Name() })
}

func (vs *Values) inline(fr *frame, x *ssa.Call, callee *ssa.Function, args, free []*Form, i int) *Form {
	z := vs.z
	if isSPN(callee) {
		switch callee.Name() {
		case "Sc", "Parameters":
			return z.lift1(args[0], func(f *Form) *Form { return z.atom("fld", callee.Name(), f) })
		case "Value", "Max", "ArgMax":
			for _, a := range args {
				if a.opq {
					return z.opaque("argument")
				}
			}
			return z.liftN(args, func(a []*Form) *Form {
				return z.atom("call", fmt.Sprintf("%s.%d", callee.Name(), i), a...)
			})
		}
	}
	// storage tables
	switch recvName(callee) {
	case "spn.StorerTable":
		switch callee.Name() {
		case "Single", "Entry":
			k := z.num(0)
			if callee.Name() == "Entry" {
				k = args[2]
			}
			row := vs.lookup(args[0], args[1])
			if i == 0 {
				return vs.lookup(row, k)
			}
			return z.liftN([]*Form{row, k}, func(a []*Form) *Form { return z.atom("b", "has", a...) })
		case "Value":
			if i == 0 {
				return vs.lookup(args[0], args[1])
			}
			return z.liftN([]*Form{args[0], args[1]}, func(a []*Form) *Form { return z.atom("b", "has", a...) })
		}
	case "spn.Storer":
		tab := func() *Form {
			t := z.lift1(args[0], func(f *Form) *Form { return z.atom("fld", "tables", f) })
			return vs.lookup(t, args[1])
		}
		switch callee.Name() {
		case "Table":
			if i == 0 {
				return tab()
			}
		case "Single", "Entry":
			k := z.num(0)
			if callee.Name() == "Entry" {
				k = args[3]
			}
			row := vs.lookup(tab(), args[2])
			if i == 0 {
				return vs.lookup(row, k)
			}
			return z.liftN([]*Form{row, k}, func(a []*Form) *Form { return z.atom("b", "has", a...) })
		case "Value":
			if i == 0 {
				return vs.lookup(tab(), args[2])
			}
		}
	}
	switch recvName(callee) {
	case "common.Queue", "common.Stack":
		if vs.p.rel(fr.fn) == "common" && !onStack(fr, callee) {
			return vs.retForm(vs.frame(callee, args, free, fr, x), i)
		}
		return vs.site(fr, x, fmt.Sprintf("call%d", i))
	}
	if vs.asCall != nil && vs.asCall(callee) {
		return z.liftN(args, func(a []*Form) *Form {
			return z.atom("call", fmt.Sprintf("%s.%d", callee.String(), i), a...)
		})
	}
	if vs.keepCall != nil && vs.keepCall(callee) {
		return vs.site(fr, x, fmt.Sprintf("call%d", i))
	}
	imp := vs.impure(callee)
	rec := false
	d := 0
	for f := fr; f != nil; f = f.caller {
		if f.fn == callee {
			rec = true
		}
		d++
	}
	if rec || d > 14 {
		if imp {
			return vs.site(fr, x, fmt.Sprintf("call%d", i))
		}
		return z.liftN(args, func(a []*Form) *Form {
			return z.atom("call", fmt.Sprintf("%s.%d", callee.String(), i), a...)
		})
	}
	g := vs.frame(callee, args, free, fr, x)
	r := vs.retForm(g, i)
	if imp {
		for _, a := range args {
			if a == r {
				return r
			}
		}
		if isConstForm(r) || vs.runJobs && !r.opq {
			return r
		}
		return vs.site(fr, x, fmt.Sprintf("call%d", i))
	}
	vs.inlined[callee] = true
	return r
}

// extCall: mathematical functions with known meaning.
func (vs *Values) extCall(n string, a []*Form, i int) *Form {
	z := vs.z
	switch n {
	case "math.Log":
		return z.log(a[0])
	case "math.Exp":
		return z.exp(a[0])
	case "math.Log1p":
		return z.log(z.add(z.num(1), a[0]))
	case "math.Expm1":
		return z.sub(z.exp(a[0]), z.num(1))
	case "math.Inf":
		if c, ok := a[0].constant(); ok {
			return z.inf(c.Sign() < 0)
		}
	case "math.Max":
		return z.extr("max2", a[0], a[1])
	case "math.Min":
		return z.extr("min2", a[0], a[1])
	case "math.Pow":
		if c, ok := a[1].constant(); ok && c.IsInt() && c.Num().IsInt64() {
			if e := c.Num().Int64(); e > 0 && e < 10 {
				r := z.num(1)
				for ; e > 0; e-- {
					r = z.mul(r, a[0])
				}
				return r
			}
		}
		if c, ok := a[1].constant(); ok && c.Cmp(big.NewRat(1, 2)) == 0 {
			return z.liftN(a[:1], func(a []*Form) *Form { return z.atom("call", "math.Sqrt.0", a...) })
		}
	case "(gonum.org/v1/gonum/stat/distuv.Normal).LogProb":
		return z.liftN(a, func(a []*Form) *Form { return z.atom("call", "distuv.LogProb.0", a...) })
	case "(gonum.org/v1/gonum/stat/distuv.Normal).Prob":
		return z.liftN(a, func(a []*Form) *Form { return z.exp(z.atom("call", "distuv.LogProb.0", a...)) })
	case "math.Float64bits", "math.Float64frombits":
		return nil
	case "math.IsInf":
		return z.lift1(a[0], func(f *Form) *Form {
			if f.isInf() {
				return z.tru()
			}
			if isConstForm(f) {
				return z.fls()
			}
			if c, ok := a[1].constant(); ok && c.Sign() < 0 {
				return z.eq(f, z.inf(true))
			} else if ok && c.Sign() > 0 {
				return z.eq(f, z.inf(false))
			}
			return z.atom("b", "isinf", f)
		})
	case "math.IsNaN":
		return z.lift1(a[0], func(f *Form) *Form { return z.atom("b", "isnan", f) })
	}
	return nil
}

// ---- events ----

// event is a write to a table, or an element of a slice, found in a region of code.
type event struct {
	fr    *frame
	in    ssa.Instruction
	kind  string // "map", "elem", "call"
	base  *Form
	key   *Form
	val   *Form
	args  []*Form
	name  string
	guard *Form
	loops []evLoop
}

type evLoop struct {
	it, dom *Form
	l       *loop
}

// events lists what region lp of the frame (nil: the whole function) writes, in program order.
// want says which calls are to be reported by name.
func (vs *Values) events(fr *frame, lp *loop, want func(name string) bool) []*event {
	var out []*event
	vs.collect(fr, lp, vs.z.tru(), nil, want, 0, &out)
	return out
}

func (vs *Values) collect(fr *frame, lp *loop, guard *Form, loops []evLoop, want func(string) bool, d int, out *[]*event) {
	z := vs.z
	if d > 8 {
		vs.lost++
		return
	}
	order := rpo(fr.fn)
	var bs []*ssa.BasicBlock
	for _, b := range fr.fn.Blocks {
		if _, ok := order[b]; ok && (lp == nil || lp.in[b]) {
			bs = append(bs, b)
		}
	}
	sort.Slice(bs, func(i, j int) bool { return order[bs[i]] < order[bs[j]] })
	type ctx struct {
		g  *Form
		ls []evLoop
	}
	cache := map[*ssa.BasicBlock]ctx{}
	var ctxOf func(b *ssa.BasicBlock) ctx
	ctxOf = func(b *ssa.BasicBlock) ctx {
		if c, ok := cache[b]; ok {
			return c
		}
		l := vs.loopOf(b)
		var c ctx
		if l == lp {
			g := vs.reach2(fr, lp, b, vs.doneOnly && d == 0 && lp != nil)
			c = ctx{z.ite(guard, g, z.fls()), loops}
		} else {
			// enter the loop l: where its parent reaches its header
			var up ctx
			if l.parent == lp {
				up = ctx{z.ite(guard, vs.reach2(fr, lp, l.head, vs.doneOnly && d == 0 && lp != nil), z.fls()), loops}
			} else {
				up = ctxOf2(vs, fr, l, ctxOf)
			}
			g := vs.reach(fr, l, b)
			c = ctx{z.ite(up.g, g, z.fls()), append(append([]evLoop{}, up.ls...), evLoop{vs.iter(fr, l), vs.dom(fr, l), l})}
		}
		cache[b] = c
		return c
	}
	for _, b := range bs {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				c := ctxOf(b)
				*out = append(*out, &event{fr: fr, in: in, kind: "map", base: vs.at(fr, x.Map, b), key: vs.at(fr, x.Key, b), val: vs.kept(fr, x.Value, x), guard: c.g, loops: c.ls})
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && vs.wantFields {
					c := ctxOf(b)
					*out = append(*out, &event{fr: fr, in: in, kind: "field", base: vs.at(fr, fa.X, b), name: fieldName(fa), val: vs.arg(fr, x.Val, x), guard: c.g, loops: c.ls})
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					c := ctxOf(b)
					*out = append(*out, &event{fr: fr, in: in, kind: "elem", base: vs.at(fr, ia.X, b), key: vs.at(fr, ia.Index, b), val: vs.kept(fr, x.Val, x), guard: c.g, loops: c.ls})
				}
			case *ssa.Go, *ssa.Defer:
				if vs.runJobs {
					cc := in.(ssa.CallInstruction).Common()
					callee := cc.StaticCallee()
					if callee == nil && !cc.IsInvoke() || callee != nil && vs.p.inRepo(callee) && vs.mayWrite(callee, want, 0) {
						vs.lost++
					}
				}
			case *ssa.Call:
				cc := x.Common()
				n := ""
				callee := cc.StaticCallee()
				var free []*Form
				if cc.IsInvoke() {
					n = cc.Method.Name()
				} else if callee != nil {
					n = callee.Name()
					if r := recvName(callee); r != "" {
						n = r + "." + n
					} else if callee.Pkg != nil {
						n = callee.Pkg.Pkg.Name() + "." + n
					}
				} else if bi, ok := cc.Value.(*ssa.Builtin); ok {
					n = bi.Name()
				} else if f := vs.at(fr, cc.Value, b); vs.clos[f.key] != nil {
					callee, free = vs.clos[f.key].fn, vs.clos[f.key].free
					n = callee.Name()
				} else if !measures(cc.Signature()) {
					vs.lost++
				}
				args := func() []*Form {
					var as []*Form
					if cc.IsInvoke() {
						as = append(as, vs.at(fr, cc.Value, b))
					}
					for _, a := range cc.Args {
						as = append(as, vs.arg(fr, a, x))
					}
					return as
				}
				// table stores
				switch n {
				case "spn.StorerTable.StoreSingle", "spn.StorerTable.Store", "spn.Storer.StoreSingle", "spn.Storer.Store":
					a := args()
					t := a[0]
					a = a[1:]
					if strings.HasPrefix(n, "spn.Storer.") {
						t = vs.lookup(z.atom("fld", "tables", t), a[0])
						a = a[1:]
					}
					k := z.num(0)
					if strings.HasSuffix(n, ".Store") {
						k = a[1]
					}
					c := ctxOf(b)
					*out = append(*out, &event{fr: fr, in: in, kind: "map", base: vs.lookup(t, a[0]), key: k, val: a[len(a)-1], guard: c.g, loops: c.ls})
					continue
				}
				if want != nil && want(n) {
					c := ctxOf(b)
					*out = append(*out, &event{fr: fr, in: in, kind: "call", name: n, args: args(), guard: c.g, loops: c.ls})
					continue
				}
				if vs.asCall != nil && callee != nil && vs.asCall(callee) {
					continue
				}
				if fn, fv, as := vs.jobOf(fr, x, callee); fn != nil {
					// a job handed to the queue: it is run once (C06)
					c := ctxOf(b)
					g := vs.frame(fn, as, fv, fr, x)
					vs.collect(g, nil, c.g, c.ls, want, d+1, out)
					continue
				}
				if callee != nil && vs.p.inRepo(callee) && callee.Blocks != nil && !quiet(vs.p, callee) && !strings.HasPrefix(n, "common.") && vs.p.rel(callee) != "sys" && vs.mayWrite(callee, want, 0) && !onStack(fr, callee) {
					c := ctxOf(b)
					as := args()
					if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
						for _, bb := range mc.Bindings {
							free = append(free, vs.cellRef(fr, bb, x, vs.loopOf(b)))
						}
					}
					g := vs.frame(callee, as, free, fr, x)
					vs.collect(g, nil, c.g, c.ls, want, d+1, out)
				}
			}
		}
	}
}

// measures: a function of plain values and slices of them to a plain value.
func measures(s *types.Signature) bool {
	if s.Results().Len() != 1 {
		return false
	}
	if _, ok := s.Results().At(0).Type().Underlying().(*types.Basic); !ok {
		return false
	}
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type().Underlying()
		if sl, ok := t.(*types.Slice); ok {
			t = sl.Elem().Underlying()
		}
		if _, ok := t.(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// jobOf: the function a call hands to the concurrency queue, and what it will be called with.
func (vs *Values) jobOf(fr *frame, x *ssa.Call, callee *ssa.Function) (*ssa.Function, []*Form, []*Form) {
	if !vs.runJobs || callee == nil || vs.p.rel(callee) != "conc" {
		return nil, nil, nil
	}
	b := x.Block()
	var fn *ssa.Function
	var free, as []*Form
	for _, a := range x.Common().Args {
		switch t := a.Type().Underlying().(type) {
		case *types.Signature:
			if mc, ok := a.(*ssa.MakeClosure); ok {
				fn = mc.Fn.(*ssa.Function)
				for _, bb := range mc.Bindings {
					free = append(free, vs.cellRef(fr, bb, x, vs.loopOf(b)))
				}
			} else if f := vs.at(fr, a, b); vs.clos[f.key] != nil {
				fn, free = vs.clos[f.key].fn, vs.clos[f.key].free
			}
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				as = append(as, vs.arg(fr, a, x))
			}
		}
	}
	if fn == nil || len(fn.Params) != len(as) {
		return nil, nil, nil
	}
	return fn, free, as
}

func ctxOf2[C any](vs *Values, fr *frame, l *loop, ctxOf func(*ssa.BasicBlock) C) C {
	// the block of the parent loop that dominates the header
	return ctxOf(l.head.Idom())
}

func onStack(fr *frame, f *ssa.Function) bool {
	for ; fr != nil; fr = fr.caller {
		if fr.fn == f {
			return true
		}
	}
	return false
}

// mayWrite: the function, or something it calls, contains an event.
func (vs *Values) mayWrite(f *ssa.Function, want func(string) bool, d int) bool {
	if d > 6 {
		return false
	}
	if want == nil {
		if v, ok := mayWriteMemo[f]; ok {
			return v
		}
		mayWriteMemo[f] = false
	}
	res := false
	if vs.runJobs {
		for _, a := range f.AnonFuncs {
			if vs.mayWrite(a, want, d+1) {
				res = true
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				res = true
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.FieldAddr); ok && vs.wantFields && want != nil {
					res = true
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if _, ok := ia.X.(*ssa.Alloc); !ok {
						if _, ok := ia.X.(*ssa.MakeSlice); !ok {
							res = true
						}
					}
				}
			case *ssa.Call:
				c := x.Common().StaticCallee()
				n := ""
				if x.Common().IsInvoke() {
					n = x.Common().Method.Name()
				} else if c != nil {
					n = c.Name()
					if r := recvName(c); r != "" {
						n = r + "." + n
					} else if c.Pkg != nil {
						n = c.Pkg.Pkg.Name() + "." + n
					}
				}
				if want != nil && want(n) {
					res = true
				}
				if _, bi := x.Common().Value.(*ssa.Builtin); vs.runJobs && c == nil && !bi && !x.Common().IsInvoke() {
					res = true
				}
				if c != nil && c != f && vs.p.inRepo(c) && c.Blocks != nil && !quiet(vs.p, c) && vs.mayWrite(c, want, d+1) {
					res = true
				}
			}
		}
	}
	if want == nil {
		mayWriteMemo[f] = res
	}
	return res
}

var mayWriteMemo = map[*ssa.Function]bool{}

// contentsAfter: element j of slice base at the end of an iteration of loop lp (nil: at the return).
func (vs *Values) contentsAfter(fr *frame, lp *loop, base, j *Form) *Form {
	var f *Form
	if lp == nil {
		f = vs.retOf(fr, func(r *ssa.Return) *Form { return vs.elemAt(fr, base, j, r) })
	} else {
		f = vs.tree(fr, lp.head, func(blk, pred *ssa.BasicBlock) (*Form, bool) {
			if blk != lp.head || pred == nil || !lp.in[pred] {
				return nil, false
			}
			return vs.elemAt(fr, base, j, pred.Instrs[len(pred.Instrs)-1]), true
		})
	}
	if f == nil {
		return vs.z.opaque("no end")
	}
	return f
}

// elemsWritten: elements of the slice a call returns are written in the same function, or by a
// function it is handed to.
func (vs *Values) elemsWritten(x *ssa.Call) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.IndexAddr:
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u {
						return true
					}
				}
			case *ssa.ChangeType:
				if rec(u) {
					return true
				}
			case *ssa.Slice:
				if rec(u) {
					return true
				}
			case ssa.CallInstruction:
				cc := u.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" && cc.Args[0] == v {
						return true
					}
					continue
				}
				if c := cc.StaticCallee(); c != nil && c.Blocks != nil && vs.p.inRepo(c) {
					if vs.writesElems(c) && !quiet(vs.p, c) {
						return true
					}
				} else if strings.HasPrefix(calleeFull(cc), "sort.") {
					return true
				}
			}
		}
		return false
	}
	return rec(x)
}

// argField: a field of a structure passed by value.
func (vs *Values) argField(fr *frame, v ssa.Value, at ssa.Instruction, name string) *Form {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if m := vs.structAt(fr, u.X, u, 0); m != nil {
			return m[name]
		}
	}
	return nil
}

func fieldName(fa *ssa.FieldAddr) string {
	if st, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
		return st.Field(fa.Field).Name()
	}
	return ""
}

// pureDist: methods of distributions passed by value.
func pureDist(n string) bool {
	if !strings.HasPrefix(n, "(gonum.org/v1/gonum/stat/distuv.") {
		return false
	}
	for _, m := range []string{".CDF", ".Survival", ".Prob", ".LogProb", ".Quantile"} {
		if strings.HasSuffix(n, ")"+m) {
			return true
		}
	}
	return false
}

// ownRows: every row put into the slice of slices is made on the spot.
func ownRows(v ssa.Value) bool {
	if _, ok := v.(*ssa.MakeSlice); !ok || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				if _, ok := st.Val.(*ssa.MakeSlice); !ok {
					return false
				}
			}
		}
	}
	return true
}
