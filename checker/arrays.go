package main

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Slices of slices made in a function are treated as tables: the rows are made once and belong to the
// table, and E[i][j] = v is a write to the cell (i, j).

// rowLoad: the slice is a row loaded from a slice of slices: the address it was loaded from.
func rowLoad(v ssa.Value) *ssa.IndexAddr {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	if _, ok := u.Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	return ia
}

func ownSite(f *Form) bool {
	return f.op == "site" && len(f.sym) > 2 && (f.sym[:2] == "mk" || f.sym[:3] == "new")
}

// table: the table a row store belongs to.
func (vs *Values) tableOf(fr *frame, ia *ssa.IndexAddr, b *ssa.BasicBlock) (*Form, *ssa.IndexAddr) {
	up := rowLoad(ia.X)
	if up == nil {
		return nil, nil
	}
	base := vs.at(fr, up.X, up.Block())
	if ownSite(base) {
		return base, up
	}
	return nil, nil
}

func hasRowEvents(evs []*arrEvent) bool {
	for _, e := range evs {
		if e.up != nil {
			return true
		}
	}
	return false
}

// rowsFirst: the rows are in place before their cells are written.
func (vs *Values) rowsFirst(fr *frame, rows, cells []*arrEvent) bool {
	for _, r := range rows {
		if r.bad || r.call != nil || r.cond != nil || !vs.madeOnce(fr, r) {
			return false
		}
		rb := r.in.Block()
		rl := vs.loopOf(rb)
		for _, c := range cells {
			cb := c.in.Block()
			switch {
			case rl == nil || rl.in[cb]:
				if !(rb == cb && instrIndex(r.in) < instrIndex(c.in) || rb != cb && rb.Dominates(cb)) {
					return false
				}
				if rl != nil {
					if a, b := vs.eventIndex(fr, r), vs.coords(fr, c); a == nil || len(b) != 2 || a != b[0] {
						return false
					}
				}
			default:
				if !rl.head.Dominates(cb) {
					return false
				}
			}
		}
	}
	return true
}

// coords: where a store writes.
func (vs *Values) coords(fr *frame, e *arrEvent) []*Form {
	ix := vs.eventIndex(fr, e)
	if ix == nil {
		return nil
	}
	if e.up == nil {
		return []*Form{ix}
	}
	if e.row == nil {
		e.row = vs.at(fr, e.up.Index, e.up.Block())
	}
	return []*Form{e.row, ix}
}

// cellAt: the cell (i, k) of the table base just before instruction at.
func (vs *Values) cellAt(fr *frame, base, i, k *Form, at ssa.Instruction) *Form {
	z := vs.z
	if vs.depth > 4000 {
		return z.opaque("too deep")
	}
	vs.depth++
	defer func() { vs.depth-- }()
	if i.op == "ite" || k.op == "ite" {
		return z.liftN([]*Form{i, k}, func(a []*Form) *Form { return vs.cellAt(fr, base, a[0], a[1], at) })
	}
	var rows, cells []*arrEvent
	for _, e := range vs.arrEvents(fr) {
		if e.base != base {
			if e.base.opq {
				return z.opaque("table written through another name")
			}
			continue
		}
		if e.bad {
			return z.opaque("table changed by a call")
		}
		if e.up != nil {
			cells = append(cells, e)
		} else {
			rows = append(rows, e)
		}
	}
	if !vs.rowsFirst(fr, rows, cells) {
		return z.opaque("rows replaced")
	}
	vs.rowsOnly++
	row := vs.elemAt(fr, base, i, at)
	vs.rowsOnly--
	if row.opq {
		return row
	}
	cur := func(t []*Form) *Form { return z.idx(row, t[1]) }
	return vs.applyStores(fr, base, cells, []*Form{i, k}, []*Form{vs.lenOf(base), z.length(row)}, at, cur)
}

// applyStores: what the stores before instruction at leave in the place t.
func (vs *Values) applyStores(fr *frame, base *Form, evs []*arrEvent, t, dims []*Form, at ssa.Instruction, cur func([]*Form) *Form) *Form {
	z := vs.z
	order := rpo(fr.fn)
	al := vs.loopOf(at.Block())
	type rel struct {
		e     *arrEvent
		com   *loop
		chain []*loop
		lift  *ssa.BasicBlock
	}
	var rs []rel
	for _, e := range evs {
		if e.call != nil || e.bad || e.cond != nil {
			return z.opaque("table changed by a call")
		}
		c := vs.coords(fr, e)
		if c == nil {
			return z.opaque("place not understood")
		}
		for _, x := range c {
			if x.opq {
				return z.opaque("place not understood")
			}
		}
		el := vs.loopOf(e.in.Block())
		com := viewpoint(el, al)
		r := rel{e: e, com: com, lift: e.in.Block()}
		for l := el; l != com; l = l.parent {
			r.chain = append([]*loop{l}, r.chain...)
		}
		if len(r.chain) > 0 {
			r.lift = r.chain[0].head
		}
		ub, ul := at.Block(), al
		for ul != com {
			ub = ul.head
			ul = ul.parent
		}
		before := false
		if r.lift == ub {
			if len(r.chain) == 0 {
				if ub != at.Block() {
					return z.opaque("table order")
				}
				before = instrIndex(e.in) < instrIndex(at)
			}
		} else {
			before = fwdReach(r.lift, ub, com)
		}
		for l := com; l != nil && !vs.freshIn(fr, base, l); l = l.parent {
			it := vs.iter(fr, l)
			own := false
			for d := range c {
				if c[d] != t[d] {
					continue
				}
				if _, k, ok := linearIn(c[d], it); ok && k.Sign() != 0 {
					own = true
				} else if c[d].op == "key" && c[d].has(it) {
					own = true
				}
				for _, m := range r.chain {
					if c[d].has(vs.iter(fr, m)) {
						own = false
					}
				}
			}
			if !own {
				return z.opaque("table written by other iterations")
			}
		}
		if before {
			rs = append(rs, r)
		}
	}
	sort.SliceStable(rs, func(i, k int) bool {
		a, b := rs[i], rs[k]
		if a.lift != b.lift {
			return order[a.lift] < order[b.lift]
		}
		if a.e.in.Block() != b.e.in.Block() {
			return order[a.e.in.Block()] < order[b.e.in.Block()]
		}
		return instrIndex(a.e.in) < instrIndex(b.e.in)
	})
	for i := range rs {
		for k := i + 1; k < len(rs); k++ {
			// two stores of one loop nest interleave
			if len(rs[i].chain) > 0 && len(rs[k].chain) > 0 && rs[i].chain[0] == rs[k].chain[0] {
				return z.opaque("table filled by several stores of one loop")
			}
		}
	}
	for _, r := range rs {
		r := r
		prev := cur
		c := vs.coords(fr, r.e)
		skip := z.tru()
		if !r.lift.Dominates(at.Block()) {
			skip = vs.reach(fr, r.com, r.lift)
			if skip.opq {
				return z.opaque("table written conditionally")
			}
		}
		cur = func(t []*Form) *Form {
			v := vs.storeEffect(fr, r.e, c, t, dims, r.chain, prev)
			if v.opq {
				return v
			}
			return z.ite(skip, v, prev(t))
		}
	}
	return cur(t)
}

// storeEffect: the place t after the store has run in all iterations of the loops of its chain.
func (vs *Values) storeEffect(fr *frame, e *arrEvent, c, t, dims []*Form, chain []*loop, prev func([]*Form) *Form) *Form {
	z := vs.z
	st, ok := e.in.(*ssa.Store)
	if !ok {
		return z.opaque("place not understood")
	}
	g := z.tru()
	for i, l := range chain {
		if vs.breaks(l) {
			return z.opaque("table filled by a loop with a break")
		}
		if d := vs.dom(fr, l); d == nil || d.opq || isDom(d) {
			return z.opaque("table filled by a loop that is not understood")
		}
		b := st.Block()
		if i+1 < len(chain) {
			b = chain[i+1].head
		}
		g = z.ite(g, vs.reach(fr, l, b), z.fls())
	}
	if g.opq {
		return z.opaque("table filled conditionally")
	}
	at := z.tru()
	// every loop moves one coordinate by one
	solved := make([]bool, len(c))
	sub := map[string]*Form{}
	inj := true
	var rng []*Form
	for _, l := range chain {
		it := vs.iter(fr, l)
		d := -1
		for x := range c {
			if c[x].has(it) {
				if d >= 0 || solved[x] {
					inj = false
				}
				d = x
			}
		}
		if d < 0 || !inj {
			inj = false
			break
		}
		a, k, ok := linearIn(c[d], it)
		if !ok || !k.IsInt() || k.Num().CmpAbs(big.NewInt(1)) != 0 {
			inj = false
			break
		}
		for _, m := range chain {
			if m != l && c[d].has(vs.iter(fr, m)) {
				inj = false
			}
		}
		if !inj {
			break
		}
		solved[d] = true
		x := z.sub(t[d], a)
		if k.Sign() < 0 {
			x = z.neg(x)
		}
		dom := z.subst(vs.dom(fr, l), sub)
		sub[it.key] = x
		full := dom == dims[d] && (k.Sign() > 0 && a.isNum(0) || k.Sign() < 0 && a == z.sub(dims[d], z.num(1)))
		if !full {
			rng = append(rng, z.ite(z.ge0(x), z.ge0(z.sub(z.sub(dom, z.num(1)), x)), z.fls()))
		}
	}
	if inj {
		_, v := vs.eventParts(fr, e)
		if v == nil || v.opq {
			return z.opaque("value stored in a table")
		}
		for x := range c {
			if !solved[x] && c[x] != t[x] {
				at = z.ite(at, z.eq0(z.sub(z.subst(c[x], sub), t[x])), z.fls())
			}
		}
		for _, q := range rng {
			at = z.ite(at, q, z.fls())
		}
		return z.ite(at, z.ite(z.subst(g, sub), z.subst(v, sub), prev(t)), prev(t))
	}
	// something is added
	inc := vs.increment(fr, e, st)
	if inc == nil || inc.opq {
		return z.opaque("table filled irregularly")
	}
	for x := range c {
		at = z.ite(at, z.eq0(z.sub(c[x], t[x])), z.fls())
	}
	v := z.ite(g, z.ite(at, inc, z.num(0)), z.num(0))
	for i := len(chain) - 1; i >= 0; i-- {
		v = z.reduce("sum", vs.dom(fr, chain[i]), vs.iter(fr, chain[i]), v)
	}
	return z.add(prev(t), v)
}

// increment: the store adds something that does not depend on the slice to the place it writes.
func (vs *Values) increment(fr *frame, e *arrEvent, st *ssa.Store) *Form {
	bo, ok := st.Val.(*ssa.BinOp)
	if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
		return nil
	}
	ia := st.Addr.(*ssa.IndexAddr)
	same := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		if u.X == st.Addr {
			return true
		}
		ib, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		if ib.Index != ia.Index && vs.at(fr, ib.Index, ib.Block()) != vs.at(fr, ia.Index, ia.Block()) {
			return false
		}
		if ib.X == ia.X {
			return true
		}
		p, q := rowLoad(ib.X), rowLoad(ia.X)
		return p != nil && q != nil && p.X == q.X && (p.Index == q.Index || vs.at(fr, p.Index, p.Block()) == vs.at(fr, q.Index, q.Block()))
	}
	var other ssa.Value
	neg := false
	switch {
	case same(bo.X):
		other, neg = bo.Y, bo.Op == token.SUB
	case bo.Op == token.ADD && same(bo.Y):
		other = bo.X
	default:
		return nil
	}
	// it must not read the slice itself
	seen := map[ssa.Value]bool{}
	reads := false
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || reads {
			return
		}
		seen[v] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ib, ok := u.X.(*ssa.IndexAddr); ok {
				b := vs.at(fr, ib.X, ib.Block())
				if up := rowLoad(ib.X); up != nil {
					b = vs.at(fr, up.X, up.Block())
				}
				if b == e.base || b.opq {
					reads = true
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				if *o != nil {
					walk(*o)
				}
			}
		}
	}
	walk(other)
	if reads {
		return nil
	}
	f := vs.arg(fr, other, st)
	if neg {
		f = vs.z.neg(f)
	}
	return f
}

// kept: the contents of a slice that is put somewhere. They are known only if nobody writes to the slice later.
func (vs *Values) kept(fr *frame, v ssa.Value, at ssa.Instruction) *Form {
	if isSlice(v.Type()) {
		f := vs.at(fr, v, at.Block())
		var ss []*Form
		var walk func(f *Form)
		walk = func(f *Form) {
			switch {
			case ownSite(f):
				ss = append(ss, f)
			case f.op == "ite":
				walk(f.args[1])
				walk(f.args[2])
			case f.op == "append" || f.op == "slice":
				walk(f.args[0])
			}
		}
		walk(f)
		for _, s := range ss {
			if vs.writtenAfter(fr, s, at) {
				return vs.z.opaque("slice written after it was put somewhere")
			}
		}
	}
	return vs.arg(fr, v, at)
}

// writtenAfter: an element of the slice s may be written after instruction at, before s is made anew.
func (vs *Values) writtenAfter(fr *frame, s *Form, at ssa.Instruction) bool {
	var home *loop
	for l := vs.loopOf(at.Block()); l != nil; l = l.parent {
		if vs.freshIn(fr, s, l) {
			home = l
			break
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, at.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || home != nil && b == home.head {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	for _, e := range vs.arrEvents(fr) {
		if e.base != s {
			continue
		}
		b := e.in.Block()
		if seen[b] || b == at.Block() && instrIndex(e.in) > instrIndex(at) {
			return true
		}
	}
	return false
}

// madeOnce: every round of the loop the row is stored in has a row of its own.
func (vs *Values) madeOnce(fr *frame, e *arrEvent) bool {
	st, ok := e.in.(*ssa.Store)
	if !ok {
		return false
	}
	f := vs.at(fr, st.Val, st.Block())
	if !ownSite(f) {
		return false
	}
	for l := vs.loopOf(st.Block()); l != nil; l = l.parent {
		if !vs.freshIn(fr, f, l) && !vs.freshIn(fr, e.base, l) {
			return false
		}
		if vs.freshIn(fr, e.base, l) {
			break
		}
	}
	return true
}

func (vs *Values) plainStores(evs []*arrEvent) bool {
	for _, e := range evs {
		if _, ok := e.in.(*ssa.Store); !ok || e.bad || e.call != nil || e.cond != nil {
			return false
		}
	}
	return true
}
