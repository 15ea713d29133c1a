package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: what a network reports about its structure, and what adding a child does to it.

func init() { reg("C24", checkStructure) }

type structure struct{ *fx }

func checkStructure(r *R) {
	x := &structure{newFx(r)}
	z := x.z
	r.rule("adding a child appends that child (and its weight) and nothing else; getters return the node's own parts; scope is the set union over all children, height one more than the largest of all children; completeness and decomposability are decided at every sum and product node from the scopes of all children; normalisation reaches every sum node")
	for _, n := range r.p.nodeTypes() {
		t := n.Obj().Name()
		x.try(t+" getters", func() {
			if f := r.p.declared("spn", t, "Weights"); f != nil {
				x.getter(f, x.w)
			}
			kind := map[string]string{"Sum": "sum", "Product": "product"}[t]
			if f := r.p.declared("spn", t, "Type"); f != nil {
				if kind == "" {
					kind = "leaf"
				}
				x.getter(f, func(*Form) *Form { return z.atom("const", `"`+kind+`"`) })
			}
		})
	}
	for _, t := range []string{"Node", "Sum", "Product"} {
		t := t
		x.try(t+" edits", func() {
			if f := r.p.declared("spn", t, "AddChild"); f != nil {
				x.edit(f, "ch")
			}
			if f := r.p.declared("spn", t, "Ch"); f != nil {
				x.getter(f, x.ch)
			}
			if f := r.p.declared("spn", t, "Height"); f != nil {
				x.height(f)
			}
		})
	}
	x.try("Sum.AddWeight", func() {
		if f := r.p.declared("spn", "Sum", "AddWeight"); f != nil {
			x.edit(f, "w")
		}
	})
	x.try("Sum.AddChildW", func() {
		if f := r.p.declared("spn", "Sum", "AddChildW"); f != nil {
			x.edit(f, "ch", "w")
		}
	})
	x.try("ComputeHeight", func() { x.computeHeight() })
	x.try("ComputeScope", func() { x.computeScope() })
	x.try("scopes", func() { x.scopes() })
	x.try("Complete", func() { x.valid("Complete", "sum") })
	x.try("Decomposable", func() { x.valid("Decomposable", "product") })
	x.try("NormalizeSPN", func() { x.normalize() })
	r.floor("structure", 1)
}

func (x *structure) getter(f *ssa.Function, want func(s *Form) *Form) {
	fr := x.vs.root(f)
	x.expect("structure", "node parts", x.p.fname(f), f, x.vs.retForm(fr, 0), want(fr.args[0]), false)
}

// edit: exactly the named fields get the arguments appended.
func (x *structure) edit(f *ssa.Function, fields ...string) {
	z := x.z
	rule := "adding to a node"
	name := x.p.fname(f)
	fr := x.vs.root(f)
	if len(fr.args) != len(fields)+1 {
		x.undecided(name, "other parameters")
		return
	}
	x.vs.wantFields = true
	evs := x.vs.events(fr, nil, func(string) bool { return false })
	x.vs.wantFields = false
	want := map[string]*Form{}
	for i, fl := range fields {
		want[fl] = z.atom("append", "", z.atom("fld", fl, fr.args[0]), z.atom("lit", "", fr.args[1+i]))
	}
	done := map[string]bool{}
	for _, e := range evs {
		if e.kind != "field" || e.base != fr.args[0] {
			if e.base != nil && !ownSite(e.base) && (e.kind == "field" || e.kind == "elem" || e.kind == "map") {
				if e.base.opq {
					x.undecided(name, "other memory is written")
					return
				}
				x.r.bad(rule, name, x.p.ipos(e.in), "writes to "+e.base.String())
				return
			}
			continue
		}
		w := want[e.name]
		if w == nil {
			if e.name == "sc" {
				continue // the scope is not known any more
			}
			x.r.bad(rule, name, x.p.ipos(e.in), "changes field "+e.name)
			return
		}
		if e.val.opq || e.guard.opq || len(e.loops) > 0 {
			x.undecided(name, "not understood")
			return
		}
		if done[e.name] {
			x.r.bad(rule, name, x.p.ipos(e.in), "adds to "+e.name+" twice")
			return
		}
		done[e.name] = true
		if !isTrue(e.guard) {
			x.r.bad(rule, name, x.p.ipos(e.in), "adds to "+e.name+" only when "+e.guard.String())
			return
		}
		if b := x.vs.earlyOut(e.fr.fn, e.in.Block()); b != nil {
			x.r.bad(rule, name, x.p.ipos(b.Instrs[len(b.Instrs)-1]), "adds to "+e.name+" only if a loop before it is not left early")
			return
		}
		if e.val != w {
			if ownSite(e.val) {
				x.undecided(name, "the list is rebuilt")
				return
			}
			x.r.bad(rule, name, x.p.ipos(e.in), e.name+" becomes "+e.val.String()+", expected "+w.String())
			return
		}
	}
	for _, fl := range fields {
		if !done[fl] {
			if x.unseen(f) {
				x.undecided(name, "not understood")
				return
			}
			x.r.bad(rule, name, x.p.pos(f.Pos()), "nothing is added to "+fl)
			return
		}
	}
	x.r.ok("structure", name+" appends to "+strings.Join(fields, " and ")+" and changes nothing else")
}

// unseen: the function calls something whose effects are not listed.
func (x *structure) unseen(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, isB := c.Common().Value.(*ssa.Builtin); !isB {
					if g := c.Common().StaticCallee(); g == nil || g.Blocks == nil {
						return true
					}
				}
			}
		}
	}
	return false
}

// height: one more than the largest height of the children, zero without any.
func (x *structure) height(f *ssa.Function) {
	z := x.z
	fr := x.vs.root(f)
	calls := map[*Form]*Form{}
	for _, e := range x.vs.events(fr, nil, func(n string) bool { return strings.HasSuffix(n, "Height") }) {
		if e.kind != "call" || len(e.args) != 1 {
			continue
		}
		if v, ok := e.in.(ssa.Value); ok {
			c := x.vs.at(fr, v, e.in.Block())
			calls[c] = e.args[0]
		}
	}
	ch := x.ch(fr.args[0])
	got := z.rewrite(x.vs.retForm(fr, 0), func(d *Form) *Form {
		if d.op != "site" {
			return nil
		}
		for c, a := range calls {
			if c.op == "site" && c.sym == d.sym && len(c.args) == len(d.args) {
				m := map[string]*Form{}
				for i := range c.args {
					m[c.args[i].key] = d.args[i]
				}
				return x.call("Height", 0, z.subst(a, m))
			}
		}
		return nil
	})
	// heights are not negative
	n := z.length(ch)
	spec := x.over("max", n, func(i *Form) *Form { return x.call("Height", 0, z.idx(ch, i)) })
	want := z.ite(z.eq0(n), z.num(0), z.add(z.num(1), spec))
	alt := z.ite(z.eq0(n), z.num(0), z.add(z.num(1), z.extr("max2", spec, z.num(0))))
	for _, w := range []*Form{want, alt} {
		if q := (&cmpr{z: z}); q.cmp(got, w) == same {
			x.r.ok("structure", x.p.fname(f)+" = "+want.String())
			return
		}
	}
	x.expect("structure", "height", x.p.fname(f), f, got, alt, false)
}

// computeHeight: a table of heights, filled in topological order.
func (x *structure) computeHeight() {
	z := x.z
	f := x.p.fn("spn", "ComputeHeight")
	if f == nil || f.Blocks == nil {
		return
	}
	name, rule := "spn.ComputeHeight", "height"
	fr := x.vs.root(f)
	// H[s] = max(H[s], H[c]+1) while going through the children
	var ups []*ssa.MapUpdate
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok {
				ups = append(ups, u)
			}
		}
	}
	if len(ups) != 1 {
		x.undecided(name, "several stores")
		return
	}
	u := ups[0]
	var lps []*loop
	for l := x.vs.nest(f).of[u.Block()]; l != nil; l = l.parent {
		lps = append(lps, l)
	}
	// what is returned
	ret := x.vs.retForm(fr, 0)
	tab := x.vs.at(fr, u.Map, u.Block())
	if ret.op == "map" && ret.args[0] == tab && ret.args[1] != fr.args[0] && !ret.opq {
		x.r.bad(rule, name, x.p.pos(f.Pos()), "the height returned is that of "+ret.args[1].String())
		return
	}
	if ret.op != "map" || ret.args[0] != tab {
		if !ret.opq && ret.op != "site" {
			x.undecided(name, "result not read from the table")
		} else {
			x.undecided(name, "result not understood")
		}
		return
	}
	lookup := func(v ssa.Value) (*ssa.Lookup, bool) {
		l, ok := v.(*ssa.Lookup)
		return l, ok && !l.CommaOk && x.vs.at(fr, l.X, l.Block()) == tab
	}
	plus := func(v ssa.Value) (ssa.Value, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, false
		}
		for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if k, ok := p[1].(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "1" {
				return p[0], true
			}
		}
		return nil, false
	}
	s := x.vs.at(fr, u.Key, u.Block())
	if len(lps) == 2 {
		inner := lps[0]
		it := x.vs.iter(fr, inner)
		dom := x.vs.dom(fr, inner)
		if dom != z.length(x.ch(s)) {
			if dom.opq || s.opq {
				x.undecided(name, "children not understood")
			} else {
				x.r.bad(rule, name, x.p.ipos(u), "the children considered are "+dom.String())
			}
			return
		}
		c, ok := plus(u.Value)
		if !ok {
			// a height that does not grow with the children's
			if l, isL := lookup(u.Value); isL {
				x.r.bad(rule, name, x.p.ipos(l), "a node is as high as its child")
				return
			}
			x.undecided(name, "value not understood")
			return
		}
		l, isL := lookup(c)
		if !isL {
			x.undecided(name, "value not understood")
			return
		}
		if k := x.vs.at(fr, l.Index, l.Block()); k != z.idx(x.ch(s), it) {
			if k.opq {
				x.undecided(name, "value not understood")
				return
			}
			x.r.bad(rule, name, x.p.ipos(l), "the height of a node is computed from that of "+k.String())
			return
		}
		if x.vs.breaks(inner) {
			x.r.bad(rule, name, x.p.ipos(u), "the children are left out after the first hit")
			return
		}
		// the comparison
		b := u.Block()
		own := func(v ssa.Value) bool {
			l, ok := lookup(v)
			return ok && x.vs.at(fr, l.Index, l.Block()) == s
		}
		// further conditions on the node
		for q := b; len(q.Preds) == 1 && q.Preds[0] != inner.head; q = q.Preds[0] {
			iff, ok := q.Preds[0].Instrs[len(q.Preds[0].Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			g := x.vs.at(fr, iff.Cond, iff.Block())
			n := z.length(x.ch(s))
			if g.op != "ge0" && g.op != "gt0" || !holds(g, n) || mentions(g, tab) {
				continue
			}
			c := g.args[0]
			if g.op == "gt0" {
				c = z.sub(c, z.num(1))
			}
			no := z.sub(z.neg(c), z.num(1))
			if q.Preds[0].Succs[0] != q {
				no = c
			}
			r, as, lin := linearRow(no)
			if !lin || len(as) != 1 || as[0] != n || r == nil {
				continue
			}
			if z.integral([]*Form{no, it, z.sub(z.sub(n, z.num(1)), it)}) {
				x.r.bad(rule, name, x.p.ipos(u), "children are left out of the height under a condition on their number: "+g.String())
				return
			}
		}
		if len(b.Preds) != 1 {
			for _, p := range b.Preds {
				if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] == b {
					if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.X == u.Value && own(bo.Y) && (bo.Op == token.LSS || bo.Op == token.LEQ) || bo.Y == u.Value && own(bo.X) && (bo.Op == token.GTR || bo.Op == token.GEQ)) {
						x.r.bad(rule, name, x.p.ipos(bo), "the height of a node is replaced by a smaller one")
						return
					}
				}
			}
			x.undecided(name, "condition not understood")
			return
		}
		iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
		if !ok {
			if x.uncond(inner, b) {
				x.r.bad(rule, name, x.p.ipos(u), "the height of a node is that of its last child plus one")
				return
			}
			x.undecided(name, "condition not understood")
			return
		}
		if inner.head == b.Preds[0] {
			x.r.bad(rule, name, x.p.ipos(u), "the height of a node is that of its last child plus one")
			return
		}
		then := b.Preds[0].Succs[0] == b
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			x.undecided(name, "condition not understood")
			return
		}
		X, Y, op := bo.X, bo.Y, bo.Op
		cand := func(v ssa.Value) bool {
			if v == u.Value {
				return true
			}
			c2, ok := plus(v)
			if !ok {
				return false
			}
			l2, ok := lookup(c2)
			return ok && x.vs.at(fr, l2.Index, l2.Block()) == x.vs.at(fr, l.Index, l.Block())
		}
		child := func(v ssa.Value) bool {
			l2, ok := lookup(v)
			return ok && x.vs.at(fr, l2.Index, l2.Block()) == x.vs.at(fr, l.Index, l.Block())
		}
		if own(X) {
			X, Y = Y, X
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
		}
		if !then {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}[op]
		}
		switch {
		case !own(Y) || !cand(X) && !child(X):
			x.undecided(name, "condition not understood")
			return
		case cand(X) && (op == token.GTR || op == token.GEQ), child(X) && op == token.GEQ:
		default:
			x.r.bad(rule, name, x.p.ipos(bo), "the height of a node is not replaced exactly when a child is higher")
			return
		}
		x.r.ok("structure", name+": each node is one higher than its highest child")
		return
	}
	if c, ok := plus(u.Value); ok {
		if l, ok := lookup(c); ok {
			if in, ok := l.Index.(ssa.Instruction); ok {
				if q := x.vs.nest(f).of[in.Block()]; q != nil && !q.in[u.Block()] {
					x.r.bad(rule, name, x.p.ipos(u), "the children after the first hit are left out")
					return
				}
			}
		}
	}
	// one store per node
	for _, e := range x.vs.events(fr, nil, func(string) bool { return false }) {
		if e.kind != "map" || e.base != tab {
			continue
		}
		if !isTrue(e.guard) {
			n := z.length(x.ch(e.key))
			if z.assume(e.guard, z.eq0(n), false) != z.tru() {
				if e.guard.opq {
					x.undecided(name, "condition not understood")
				} else {
					x.undecided(name, "stored only when "+e.guard.String())
				}
				return
			}
		}
		n := z.length(x.ch(e.key))
		spec := x.over("max", n, func(i *Form) *Form { return z.atom("map", "", tab, z.idx(x.ch(e.key), i)) })
		a := z.ite(z.eq0(n), z.num(0), z.add(z.num(1), spec))
		b := z.ite(z.eq0(n), z.num(0), z.add(z.num(1), z.extr("max2", spec, z.num(0))))
		got := z.assume(e.val, z.eq0(n), false)
		for _, w := range []*Form{a, b} {
			if (&cmpr{z: z}).cmp(got, z.assume(w, z.eq0(n), false)) == same {
				// without children
				if g := z.subst(z.assume(e.val, z.eq0(n), true), map[string]*Form{n.key: z.num(0)}); isTrue(e.guard) && !g.isNum(0) {
					if _, k := g.constant(); k {
						x.r.bad(rule, name, x.p.ipos(e.in), "the height of a leaf is "+g.String())
						return
					}
				}
				x.r.ok("structure", name+": each node is one higher than its highest child")
				return
			}
		}
		x.expect("structure", rule, name, f, got, z.assume(b, z.eq0(n), false), false, tab, e.key)
		return
	}
}

// uncond: every round of the loop goes through b.
func (x *structure) uncond(l *loop, b *ssa.BasicBlock) bool { return skips(l, b) == nil }

// raw: the scope of s as the code names it.
func isRaw(f *Form) (*Form, bool) {
	if f.op == "call" && strings.HasPrefix(f.sym, "rawSc") && len(f.args) == 1 {
		return f.args[0], true
	}
	return nil, false
}

// computeScope: the set of the variables of all children.
func (x *structure) computeScope() {
	z := x.z
	f := x.p.fn("spn", "ComputeScope")
	if f == nil || f.Blocks == nil {
		return
	}
	name, rule := "spn.ComputeScope", "scope"
	fr := x.vs.root(f)
	evs := x.vs.events(fr, nil, func(n string) bool { return strings.HasSuffix(n, "setRawSc") })
	var set *event
	for _, e := range evs {
		if e.kind == "call" {
			if set != nil {
				x.undecided(name, "scope set in several places")
				return
			}
			set = e
		}
	}
	if set == nil || len(set.args) != 2 {
		x.undecided(name, "no scope set")
		return
	}
	s := set.args[0]
	n := z.length(x.ch(s))
	given := func(g *Form) *Form {
		g = z.assume(g, z.eq0(n), false)
		for _, k := range []string{"leaf"} {
			g = z.assume(g, x.kind(s, k), false)
		}
		return g
	}
	if g := given(set.guard); !isTrue(g) {
		if g.opq || s.opq {
			x.undecided(name, "condition not understood")
			return
		}
		// a kind of node left out
		for _, k := range []string{"sum", "product"} {
			h := g
			for _, q := range x.isKind(s, k) {
				h = z.assume(h, q.c, q.v)
			}
			if isFalse(h) {
				x.r.bad(rule, name, x.p.ipos(set.in), "the scope of "+k+" nodes is not computed")
				return
			}
		}
		if h := z.assume(z.assume(g, x.kind(s, "sum"), true), x.kind(s, "product"), false); isTrue(h) {
			if h := z.assume(z.assume(g, x.kind(s, "sum"), false), x.kind(s, "product"), true); isTrue(h) {
				g = z.tru()
			}
		}
		if !isTrue(g) {
			x.r.bad(rule, name, x.p.ipos(set.in), "the scope of a node is set only when "+g.String())
			return
		}
	}
	// what the set holds
	var M *Form
	lists := 0
	for _, e := range evs {
		if e.kind == "elem" && e.val != nil && e.val.op == "key" && e.val.args[0].op == "site" {
			lists++
			M = e.val.args[0]
			l := e.loops[len(e.loops)-1]
			if l.dom != z.atom("maprange", "", M) {
				x.undecided(name, "listing of the set not understood")
				return
			}
			if g := given(e.guard); !isTrue(g) && !g.opq && set.guard != e.guard {
				x.r.bad(rule, name, x.p.ipos(e.in), "a variable is listed only when "+g.String())
				return
			}
			if x.vs.breaks(l.l) {
				x.r.bad(rule, name, x.p.ipos(e.in), "variables are left out of the list")
				return
			}
		}
	}
	if lists != 1 {
		x.undecided(name, "listing of the set not understood")
		return
	}
	from := 0
	for _, e := range evs {
		if e.kind != "map" || e.base != M {
			continue
		}
		from++
		if e.key.opq || len(e.loops) < 2 {
			x.undecided(name, "set not understood")
			return
		}
		l := e.loops[len(e.loops)-2:]
		if l[0].dom.opq || l[1].dom.opq {
			x.undecided(name, "set not understood")
			return
		}
		if l[0].dom != n {
			x.r.bad(rule, name, x.p.ipos(e.in), "the scope is gathered from "+l[0].dom.String()+" children")
			return
		}
		raw := x.call("rawSc", 0, z.idx(x.ch(s), l[0].it))
		if e.key.op != "idx" && e.key.op != "elem" && e.key != z.idx(raw, l[1].it) || l[1].dom != z.length(raw) || e.key != z.idx(raw, l[1].it) {
			if holds(e.key, raw) || holds(l[1].dom, raw) {
				x.r.bad(rule, name, x.p.ipos(e.in), "of a child's scope, "+e.key.String()+" is taken for "+l[1].dom.String()+" positions")
			} else {
				x.undecided(name, "set not understood")
			}
			return
		}
		if g := given(e.guard); !isTrue(g) && e.guard != set.guard {
			if g.opq {
				x.undecided(name, "condition not understood")
				return
			}
			if z.assume(g, z.atom("map", "", M, e.key), false) == z.tru() || z.assume(g, z.atom("b", "has", M, e.key), false) == z.tru() {
				continue // not yet there
			}
			x.r.bad(rule, name, x.p.ipos(e.in), "a variable is taken only when "+g.String())
			return
		}
		if x.vs.breaks(l[0].l) || x.vs.breaks(l[1].l) {
			x.r.bad(rule, name, x.p.ipos(e.in), "variables are left out of the scope")
			return
		}
	}
	if from != 1 {
		x.undecided(name, "set filled in several places")
		return
	}
	if r := x.vs.retForm(fr, 0); r != x.call("rawSc", 0, fr.args[0]) && !r.opq {
		if a, ok := isRaw(r); ok {
			x.r.bad(rule, name, x.p.pos(f.Pos()), "the scope returned is that of "+a.String())
			return
		}
	}
	x.r.ok("structure", name+": the scope of a node is the set of the variables of its children")
}

// scopes: the methods.
func (x *structure) scopes() {
	z := x.z
	if f := x.p.declared("spn", "Node", "rawSc"); f != nil {
		x.getter(f, func(s *Form) *Form { return z.atom("fld", "sc", s) })
	}
	rule := "scope"
	for _, t := range []string{"Sum", "Product"} {
		f := x.p.declared("spn", t, "Sc")
		if f == nil {
			continue
		}
		fr := x.vs.root(f)
		name := x.p.fname(f)
		sc := z.atom("fld", "sc", fr.args[0])
		x.vs.wantFields = true
		evs := x.vs.events(fr, nil, func(string) bool { return false })
		x.vs.wantFields = false
		ok := false
		for _, e := range evs {
			if e.kind != "field" || e.base != fr.args[0] || e.name != "sc" || e.val.op != "append" {
				continue
			}
			g := z.assume(z.assume(e.guard, z.eq(z.atom("const", "nil"), sc), true), z.eq0(z.length(sc)), true)
			part := e.val.args[len(e.val.args)-1]
			if part.op != "fld" || part.sym != "Sc" {
				continue
			}
			c := part.args[0]
			if c.opq || g.opq {
				continue
			}
			switch {
			case t == "Product":
				if len(e.loops) != 1 || e.loops[0].dom.opq {
					if len(e.loops) == 0 {
						x.r.bad(rule, name, x.p.ipos(e.in), "the scope is that of "+c.String()+" alone")
						return
					}
					continue
				}
				l := e.loops[0]
				if l.dom != z.length(x.ch(fr.args[0])) || c != z.idx(x.ch(fr.args[0]), l.it) {
					x.r.bad(rule, name, x.p.ipos(e.in), "the scope gathers "+c.String()+" for "+l.dom.String()+" positions")
					return
				}
				if !isTrue(g) || x.vs.breaks(l.l) {
					x.r.bad(rule, name, x.p.ipos(e.in), "a child's scope is taken only when "+g.String())
					return
				}
				ok = true
			default:
				ok = true
			}
		}
		if ok {
			x.r.ok("structure", name+": the variables of the children")
		} else {
			x.undecided(name, "not understood")
		}
	}
}

// valid: completeness and decomposability.
func (x *structure) valid(fname, kind string) {
	z := x.z
	f := x.p.fn("spn", fname)
	if f == nil || f.Blocks == nil {
		return
	}
	name, rule := "spn."+fname, strings.ToLower(fname)
	fr := x.vs.root(f)
	got := z.not(x.vs.retForm(fr, 0))
	for _, l := range x.vs.nest(f).all {
		if l.depth > 0 {
			continue
		}
		for _, b := range f.Blocks {
			if !l.in[b] || b == l.head {
				continue
			}
			for _, s := range b.Succs {
				if l.in[s] || !onlyReturns(s) {
					continue
				}
				if r, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					if k, ok := r.Results[0].(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "true" {
						x.r.bad(rule, name, x.p.ipos(r), "the answer is yes before every node has been looked at")
						return
					}
				}
			}
		}
	}
	if got.opq && got.op == "opq" {
		x.undecided(name, "not understood")
		return
	}
	if isTrue(got) || isFalse(got) {
		x.r.bad(rule, name, x.p.pos(f.Pos()), "the answer is always the same")
		return
	}
	if !(got.op == "b" && got.sym == "any" && got.args[0].op == "while") {
		x.undecided(name, "not a walk over the network")
		return
	}
	it := z.fresh()
	body := z.open(got, it)
	// the node at hand
	var s *Form
	amb := false
	z.rewrite(body, func(d *Form) *Form {
		if d.op == "fld" && d.sym == "Type" && d.args[0].op == "site" {
			if s != nil && s != d.args[0] {
				amb = true
			}
			s = d.args[0]
		}
		return nil
	})
	if s == nil || amb {
		x.undecided(name, "node not identified")
		return
	}
	ch := x.ch(s)
	raw := func(c *Form) *Form { return x.call("rawSc", 0, c) }
	X := z.atom("leaf", "violated")
	n := z.length(ch)
	// counters
	own := map[*Form]int{} // 1: counts the node's own scope as well
	evs := x.vs.events(fr, nil, func(string) bool { return false })
	counter := func(m *Form) (int, bool) {
		if v, ok := own[m]; ok {
			return v, v >= 0
		}
		self, kids := 0, 0
		res := func() (int, bool) {
			for _, e := range evs {
				if e.kind != "map" || e.base.op != m.op || e.base.sym != m.sym {
					continue
				}
				if len(e.loops) < 2 || e.key.opq {
					return -1, false
				}
				l := e.loops[1:]
				node := z.subst(s, map[string]*Form{it.key: e.loops[0].it})
				c := x.ch(node)
				switch {
				case len(l) == 1 && l[0].dom == z.length(raw(node)) && e.key == z.idx(raw(node), l[0].it):
					self++
				case len(l) == 2 && l[0].dom == z.length(c) && l[1].dom == z.length(raw(z.idx(c, l[0].it))) && e.key == z.idx(raw(z.idx(c, l[0].it)), l[1].it):
					kids++
				default:
					return -1, false
				}
				for _, q := range l {
					if x.vs.breaks(q.l) && !x.returns(f, q.l) {
						return -1, false
					}
				}
				// one more than before
				d := z.sub(e.val, z.num(1))
				if d.op != "map" || d.args[1] != e.key {
					return -1, false
				}
			}
			if self > 1 || kids != 1 {
				return -1, false
			}
			return self, true
		}
		v, ok := res()
		own[m] = v
		return v, ok
	}
	unknown := ""
	red := z.rewrite(body, func(d *Form) *Form {
		switch {
		case d.op == "b" && d.sym == "has" && len(d.args) == 2:
			if v, ok := counter(d.args[0]); ok && v == 1 {
				return z.tru()
			}
			unknown = "a membership test"
		case kind == "product" && d == z.eq0(z.sub(z.length(raw(s)), x.over("sum", n, func(i *Form) *Form { return z.length(raw(z.idx(ch, i))) }))):
			return z.not(X)
		case d.op == "b" && d.sym == "any":
			j := z.fresh()
			b := z.open(d, j)
			if kind == "sum" && d.args[0] == n {
				if b == z.not(z.eq0(z.sub(z.length(raw(z.idx(ch, j))), z.length(raw(s))))) || b == z.cmp("<", z.length(raw(z.idx(ch, j))), z.length(raw(s)), true) {
					return X
				}
			}
			if kind == "sum" && d.args[0] == n && b == z.cmp("<", z.length(raw(s)), z.length(raw(z.idx(ch, j))), true) {
				return z.fls() // a scope holds those of the children
			}
			if d.args[0].op == "maprange" {
				m := d.args[0].args[0]
				v, ok := counter(m)
				if !ok {
					unknown = "a counter"
					return nil
				}
				e := z.atom("map", "", m, z.atom("key", "", m, j))
				if kind == "sum" {
					k := z.add(n, z.num(int64(v)))
					if b == z.not(z.eq0(z.sub(k, e))) || b == z.cmp("<", e, k, true) {
						return X
					}
				} else {
					k := z.num(int64(v + 1))
					if b == z.not(z.eq0(z.sub(k, e))) || b == z.cmp("<", k, e, true) {
						return X
					}
				}
			}
		}
		return nil
	})
	red.walk(func(d *Form) {
		if (d.op == "map" || d.op == "key" || d.op == "len" || d.op == "maprange") && d.args[0].op == "site" && strings.HasPrefix(d.args[0].sym, "map#") {
			if v, ok := counter(d.args[0]); !ok || v < 0 {
				unknown = "a table kept along the way"
			}
		}
	})
	if unknown != "" && !holds(red, X) {
		x.undecided(name, unknown+" is not understood")
		return
	}
	for _, q := range x.isKind(s, kind) {
		if q.v {
			continue
		}
	}
	want := z.ite(x.kind(s, kind), X, z.fls())
	if unknown != "" {
		// what is understood suffices if the rest never fires on its own
		x.undecided(name, unknown+" is not understood")
		return
	}
	known := []*Form{s, X}
	for m, v := range own {
		if v >= 0 {
			known = append(known, m)
		}
	}
	fine := true
	for _, k := range []string{"sum", "product", "leaf"} {
		g, w := red, want
		for _, q := range x.isKind(s, k) {
			g, w = z.assume(g, q.c, q.v), z.assume(w, q.c, q.v)
		}
		if k != kind && holds(g, X) && k == "leaf" {
			continue // leaves have no children
		}
		if !x.expect("structure", rule, name+" at a "+k+" node", f, g, w, false, known...) {
			fine = false
		}
	}
	_ = fine
}

// returns: the loop is left early only by returning.
func (x *structure) returns(f *ssa.Function, l *loop) bool {
	for b := range l.in {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.in[s] && !onlyReturns(s) {
				return false
			}
		}
	}
	return true
}

func onlyReturns(b *ssa.BasicBlock) bool {
	for i := 0; i < 8; i++ {
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return, *ssa.Panic:
			return true
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}

// normalize: every sum node.
func (x *structure) normalize() {
	z := x.z
	f := x.p.fn("spn", "NormalizeSPN")
	if f == nil || f.Blocks == nil {
		return
	}
	name, rule := "spn.NormalizeSPN", "normalisation"
	fr := x.vs.root(f)
	norm := x.p.fn("spn", "norm")
	if norm == nil {
		x.undecided(name, "no normalising function")
		return
	}
	keep := x.vs.keepCall
	x.vs.keepCall = func(g *ssa.Function) bool { return g == norm }
	defer func() { x.vs.keepCall = keep }()
	n := 0
	for _, e := range x.vs.events(fr, nil, func(n string) bool { return strings.HasSuffix(n, ".norm") || n == "norm" }) {
		if e.kind != "call" || len(e.args) != 1 {
			continue
		}
		n++
		a := e.args[0]
		if c, ok := e.in.(*ssa.Call); ok {
			if q, ok := c.Call.Args[0].(*ssa.Call); ok {
				if b, ok := q.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					x.r.bad(rule, name, x.p.ipos(e.in), "a copy of the weights is normalised")
					return
				}
			}
		}
		if a.op != "fld" || a.sym != "w" {
			if a.op == "append" || ownSite(a) {
				x.r.bad(rule, name, x.p.ipos(e.in), "a copy of the weights is normalised")
			} else if a.opq {
				x.undecided(name, "argument not understood")
			} else {
				x.undecided(name, "normalises "+a.String())
			}
			return
		}
		s := a.args[0]
		g := e.guard
		for _, q := range x.isKind(s, "sum") {
			g = z.assume(g, q.c, q.v)
		}
		if !isTrue(g) {
			if g.opq {
				x.undecided(name, "condition not understood")
				return
			}
			x.r.bad(rule, name, x.p.ipos(e.in), "the weights of a sum node are normalised only when "+g.String())
			return
		}
	}
	if n != 1 {
		x.undecided(name, "calls not understood")
		return
	}
	x.expect("structure", rule, name+" returns the network", f, x.vs.retForm(fr, 0), fr.args[0], false)
	x.r.ok("structure", name+": every sum node met is normalised")
}

// earlyOut: a loop before the target from which the function is left, so that the target is not
// reached although nothing failed.
func (vs *Values) earlyOut(fn *ssa.Function, target *ssa.BasicBlock) *ssa.BasicBlock {
	reach := func(from *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{from}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if b == target {
				return true
			}
			if seen[b] {
				continue
			}
			seen[b] = true
			work = append(work, b.Succs...)
		}
		return false
	}
	for _, l := range vs.nest(fn).all {
		if l.in[target] || !reach(l.head) {
			continue
		}
		for _, b := range fn.Blocks {
			if !l.in[b] || b == l.head {
				continue
			}
			for _, s := range b.Succs {
				if !l.in[s] && !reach(s) && !fails(s) && !failing(s) {
					return b
				}
			}
		}
	}
	return nil
}

// failing: the block returns an error.
func failing(b *ssa.BasicBlock) bool {
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) == 0 {
		return false
	}
	last := r.Results[len(r.Results)-1]
	if !isError(last.Type()) {
		return false
	}
	k, isC := last.(*ssa.Const)
	return !isC || k.Value != nil
}
