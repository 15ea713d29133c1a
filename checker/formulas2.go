package main

import (
	"fmt"
	"go/token"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C12", checkDerive)
	reg("C13", checkLeaves)
	reg("C14", checkLeafParams)
	reg("C15", checkUpdates)
}

func (x *fx) table(storer, ticket *Form) *Form {
	return x.vs.lookup(x.z.atom("fld", "tables", storer), ticket)
}

func (x *fx) entry(tab, node, slot *Form) *Form {
	return x.vs.lookup(x.vs.lookup(tab, node), slot)
}

func (x *fx) hasEntry(tab, node, slot *Form) *Form {
	return x.z.liftN([]*Form{x.vs.lookup(tab, node), slot}, func(a []*Form) *Form { return x.z.atom("b", "has", a...) })
}

// ownTicket: the cases of a ticket parameter that may be negative ("make a new one").
func (x *fx) ownTicket(fr *frame, i int, neg bool) fact {
	return fact{x.z.ge0(fr.args[i]), !neg}
}

// ---- C12: derivatives ----

func checkDerive(r *R) {
	x := newFx(r)
	z := x.z
	r.rule("dS/dS = 1; a sum node adds w_i·dS/dS_n to the derivative of its child i, a product node adds dS/dS_n times the values of the child's siblings; dS/dw_{n,i} = S_i·dS/dS_n for every weight of every sum node; batches add up; hard derivatives count one for the edge the MAP state takes")
	r.assumes("tables are keyed by node; storage tickets given by the caller are distinct")
	zero := z.num(0)
	x.try("DeriveSPN", func() {
		f := r.p.fn("learn", "DeriveSPN")
		if f == nil {
			return
		}
		fr := x.vs.root(f)
		// parameters by type: network, storage, ticket of the result, ticket of the values
		S, st, tk, itk := fr.args[0], fr.args[1], fr.args[2], fr.args[3]
		facts := []fact{x.ownTicket(fr, 2, false)}
		tab, inf := x.table(st, tk), x.table(st, itk)
		ws, ok := x.tableWrites(fr, nil)
		root, kids := false, map[string]bool{}
		for _, w := range ws {
			g := x.given(w.guard, facts...)
			if isFalse(g) {
				continue
			}
			if w.tab != tab || w.slot == nil {
				continue
			}
			if w.node == S {
				root = true
				x.expect("derivatives", "derivative-root", "learn.DeriveSPN: derivative of the root", f, x.given(w.val, facts...), zero, true)
				continue
			}
		}
		seen := map[*Form]bool{}
		for _, w := range ws {
			if w.tab != tab || w.slot == nil || w.node == S || seen[w.node] {
				continue
			}
			seen[w.node] = true
			// a child of the node being processed
			if w.node.op != "idx" || w.node.args[0].op != "fld" || w.node.args[0].sym != "ch" {
				x.undecided("learn.DeriveSPN", "stores for "+w.node.String())
				continue
			}
			s, i := w.node.args[0].args[0], w.node.args[1]
			cv := x.compose(ws, w)
			for _, k := range []string{"sum", "product"} {
				fs := append(append([]fact{}, facts...), x.isKind(s, k)...)
				got := x.given(cv, fs...)
				if got.op == "const" && got.sym == "unset" {
					continue // handled elsewhere in the function
				}
				kids[k] = true
				what := "learn.DeriveSPN: derivative passed by a " + k + " node to a child"
				if d := w.ev.loops[len(w.ev.loops)-1].dom; x.wellFormed(d) != z.length(x.ch(s)) {
					if d.opq || hasSite2(d, s) {
						x.undecided(what, "loop not understood")
					} else {
						r.bad("derivative", what, r.p.ipos(w.ev.in), fmt.Sprintf("covers %s children", d))
					}
					continue
				}
				pv, old := x.entry(tab, s, zero), x.entry(tab, w.node, zero)
				t := z.add(z.log(x.weight(s, i)), pv)
				if k == "product" {
					t = z.add(pv, x.children("sum", s, func(j, c *Form) *Form {
						return z.ite(z.eq0(z.sub(j, i)), zero, x.entry(inf, c, zero))
					}))
				}
				want := z.ite(x.hasEntry(tab, w.node, zero), z.log(z.add(z.exp(old), z.exp(t))), t)
				x.expect("derivatives", "derivative", what, f, got, x.given(want, fs...), true, s)
			}
		}
		if ok && len(ws) > 0 && !root {
			r.bad("derivative-root", "learn.DeriveSPN", r.p.pos(f.Pos()), "the root's derivative is not set")
		}
		for _, k := range []string{"sum", "product"} {
			if ok && len(seen) > 0 && !kids[k] {
				r.bad("derivative", "learn.DeriveSPN: derivative passed by a "+k+" node to a child", r.p.pos(f.Pos()), "nothing is passed on")
			}
		}
	})
	for _, n := range []string{"DeriveWeights", "DeriveWeightsBatch"} {
		n := n
		x.try(n, func() {
			f := r.p.fn("learn", n)
			if f == nil {
				return
			}
			fr := x.vs.root(f)
			st, tk, dtk, itk := fr.args[1], fr.args[2], fr.args[3], fr.args[4]
			facts := []fact{x.ownTicket(fr, 2, false)}
			tab, der, inf := x.table(st, tk), x.table(st, dtk), x.table(st, itk)
			ws, _ := x.tableWrites(fr, nil)
			found := false
			for _, w := range ws {
				if w.tab != tab || w.slot == nil {
					continue
				}
				s, i := w.node, w.slot
				fs := append(append([]fact{}, facts...), x.isKind(s, "sum")...)
				g := x.given(w.guard, fs...)
				if isFalse(g) {
					continue
				}
				found = true
				what := "learn." + n + ": derivative of a weight"
				x.everyChild(what, f, w.ev, g, s, i)
				want := z.add(x.entry(inf, z.idx(x.ch(s), i), zero), x.entry(der, s, zero))
				if n == "DeriveWeightsBatch" {
					want = z.ite(x.hasEntry(tab, s, i), z.log(z.add(z.exp(x.entry(tab, s, i)), z.exp(want))), want)
				}
				x.expect("weight derivatives", "weight-derivative", what, f, x.given(w.val, fs...), x.given(want, fs...), true, s)
			}
			if !found {
				x.undecided("learn."+n, "no stores found")
			}
		})
	}
	x.try("storeDGD", func() {
		f := r.p.fn("learn", "storeDGD")
		if f == nil {
			return
		}
		fr := x.vs.root(f)
		a := fr.args
		st := a[8]
		ws, _ := x.tableWrites(fr, nil)
		for _, w := range ws {
			if w.tab != x.table(st, a[7]) || w.slot == nil {
				continue
			}
			s, i := w.node, w.slot
			fs := x.isKind(s, "sum")
			g := x.given(w.guard, fs...)
			if isFalse(g) {
				continue
			}
			what := "learn.storeDGD: gradient of a weight"
			x.everyChild(what, f, w.ev, g, s, i)
			want := z.add(x.entry(w.tab, s, i), x.dgd(a[0], st, a[1], a[3], a[4], a[6], s, i))
			x.expect("weight derivatives", "weight-derivative", what, f, x.given(w.val, fs...), x.given(want, fs...), false, s)
		}
	})
	x.try("DeriveHard", func() {
		f := r.p.fn("learn", "DeriveHard")
		if f == nil {
			return
		}
		fr := x.vs.root(f)
		tab := x.table(fr.args[1], fr.args[2])
		ws, _ := x.tableWrites(fr, nil)
		for _, w := range ws {
			if w.tab != tab || w.slot == nil {
				continue
			}
			s := w.node
			fs := append([]fact{x.ownTicket(fr, 2, false)}, x.isKind(s, "sum")...)
			g := x.given(w.guard, fs...)
			if isFalse(g) {
				continue
			}
			what := "learn.DeriveHard: count of an edge"
			x.expect("weight derivatives", "hard-derivative", what, f, x.given(w.val, fs...), x.given(z.add(z.num(1), x.entry(tab, s, w.slot)), fs...), false, s, w.slot)
			if w.slot.op == "map" && w.slot.args[1] != s && !w.slot.opq {
				r.bad("hard-derivative", what, r.p.ipos(w.ev.in), "counts the edge of another node")
			} else if w.slot.op == "map" && len(w.slot.args) == 2 {
				if c := x.onTrace(g, w.slot, s); c != nil {
					r.bad("hard-derivative", what, r.p.ipos(w.ev.in), "counts the edge only when "+c.String())
				}
			}
		}
	})
	x.try("TraceMAP evidence", func() {
		f := r.p.fn("learn", "DeriveHard")
		tr := r.p.fn("spn", "TraceMAP")
		if f == nil || tr == nil {
			return
		}
		fr := x.vs.root(f)
		for _, e := range x.vs.events(fr, nil, func(n string) bool { return n == "spn.TraceMAP" }) {
			if e.kind != "call" || len(e.args) != 2 {
				continue
			}
			for i, w := range []*Form{fr.args[0], fr.args[3]} {
				what := fmt.Sprintf("learn.DeriveHard: trace of the most probable state, argument %d", i)
				switch {
				case e.args[i] == w:
					r.ok("traces", what)
				case e.args[i].opq || hasSite(e.args[i]):
					x.undecided(what, "argument")
				default:
					r.bad("hard-derivative", what, r.p.ipos(e.in), "traces "+e.args[i].String()+" instead of "+w.String())
				}
			}
		}
	})
	x.try("hard descent", func() {
		f := r.p.fn("learn", "DeriveHard")
		if f == nil {
			return
		}
		x.hardDescent(f)
	})
}

// hardDescent: the hard derivative follows the recorded child of sums and every inner child of
// products.
func (x *fx) hardDescent(f *ssa.Function) {
	z := x.z
	fr := x.vs.root(f)
	for _, e := range x.vs.events(fr, nil, isGive) {
		if e.kind != "call" || len(e.loops) == 0 || inTopSort(e.fr) || e.fr.fn.Name() == "TraceMAP" {
			continue
		}
		a := e.args[len(e.args)-1]
		s := parentOf(a)
		if s == nil {
			continue
		}
		for _, k := range []string{"sum", "product"} {
			g := x.given(e.guard, x.isKind(s, k)...)
			if isFalse(g) {
				continue
			}
			g = x.unvisited(g, a)
			what := fmt.Sprintf("%s: node followed from a %s node", x.p.fname(f), k)
			never := ""
			for _, ck := range []string{"sum", "product"} {
				if isFalse(x.given(g, x.isKind(a, ck)...)) {
					never = ck
				}
			}
			if never != "" {
				x.r.bad("hard-descent", what, x.p.ipos(e.in), "never followed into a "+never+" node")
			} else if c := x.onTrace(g, slotOf(a), s); k == "sum" && c != nil {
				x.r.bad("hard-descent", what, x.p.ipos(e.in), "only followed when "+c.String())
			} else if g.opq || hasSite2(g, s) {
				x.undecided(what, "guard")
			} else if !isTrue(g) {
				x.r.bad("hard-descent", what, x.p.ipos(e.in), "only followed when "+g.String())
			} else if k == "product" && a == z.idx(x.ch(s), e.loops[len(e.loops)-1].it) && x.wellFormed(e.loops[len(e.loops)-1].dom) != z.length(x.ch(s)) {
				x.r.bad("hard-descent", what, x.p.ipos(e.in), "not every child is followed")
			} else {
				x.r.ok("descents", what)
			}
		}
	}
}

// slotOf: the recorded position at which a child is taken.
func slotOf(a *Form) *Form {
	if a.op == "idx" && len(a.args) == 2 {
		return a.args[1]
	}
	return nil
}

// onTrace: what a guard still asks for when the trace has an entry (any position of a child) for
// the node; nil when it asks for nothing, or for something not understood.
func (x *fx) onTrace(g, slot, s *Form) *Form {
	z := x.z
	if slot == nil || slot.op != "map" || len(slot.args) != 2 || slot.args[1] != s || g.opq {
		return nil
	}
	pos := z.atom("leaf", "position")
	g = z.rewrite(g, func(d *Form) *Form {
		if d == slot {
			return pos
		}
		if d.op == "b" && d.sym == "has" && len(d.args) == 2 && d.args[0] == slot.args[0] && d.args[1] == s {
			return z.tru()
		}
		return nil
	})
	g = z.assume(g, z.ge0(pos), true)
	g = z.assume(g, z.ge0(z.sub(pos, z.length(x.ch(s)))), false)
	g = z.assume(g, z.ge0(z.add(pos, z.num(1))), true)
	if isTrue(g) || g.opq || hasSite2(g, s) || !holds(g, pos) {
		return nil
	}
	return g
}

func isGive(n string) bool {
	switch n {
	case "common.Queue.Enqueue", "common.Stack.Push", "common.Queue.Give", "common.Stack.Give", "Give", "Enqueue", "Push":
		return true
	}
	return false
}

func isTake(n string) bool {
	switch n {
	case "common.Queue.Dequeue", "common.Queue.DequeueBack", "common.Stack.Pop", "common.Queue.Take", "common.Stack.Take", "Take", "Dequeue", "DequeueBack", "Pop":
		return true
	}
	return false
}

func inTopSort(g *frame) bool {
	for ; g != nil; g = g.caller {
		if strings.HasPrefix(g.fn.Name(), "TopSort") {
			return true
		}
	}
	return false
}

// parentOf: the node a is a child of.
func parentOf(a *Form) *Form {
	var s *Form
	if a.op == "idx" && a.args[0].op == "fld" && a.args[0].sym == "ch" {
		return a.args[0].args[0]
	}
	a.walk(func(d *Form) {
		if d.op == "fld" && d.sym == "ch" && s == nil {
			s = d.args[0]
		}
	})
	return s
}

// unvisited: a guard for a node that was not seen before, is not nil and is not a leaf.
func (x *fx) unvisited(g, child *Form) *Form {
	z := x.z
	m := map[string]*Form{}
	g.walk(func(d *Form) {
		if d.op == "map" && len(d.args) == 2 && d.args[0].op == "site" && d.args[1] == child {
			m[d.key] = z.fls()
		}
		if d.op == "b" && d.sym == "has" && len(d.args) == 2 && d.args[0].op == "site" {
			m[d.key] = z.boolc(d.args[1] != child)
		}
		if d.op == "eq" && (d.args[0] == child && d.args[1].sym == "nil" || d.args[1] == child && d.args[0].sym == "nil") {
			m[d.key] = z.fls()
		}
	})
	m[x.kind(child, "leaf").key] = z.fls()
	return z.substConds(g, m)
}

// everyChild: a store in a loop over all weights or children of s, unconditionally.
func (x *fx) everyChild(what string, f *ssa.Function, e *event, g, s, i *Form) {
	z := x.z
	l := e.loops[len(e.loops)-1]
	switch {
	case l.it != i:
		if i.op == "key" {
			return
		}
		x.undecided(what, "index "+i.String())
	case x.wellFormed(l.dom) != z.length(x.ch(s)):
		if l.dom.opq || hasSite2(l.dom, s) || l.dom.op == "maprange" {
			x.undecided(what, "loop not understood")
		} else {
			x.r.bad("every-weight", what, x.p.ipos(e.in), fmt.Sprintf("covers %s weights, expected all", l.dom))
		}
	case isTrue(g):
		x.r.ok("every weight", what)
	case g.opq || hasSite2(g, s):
		x.undecided(what, "guard "+g.String())
	default:
		x.r.bad("every-weight", what, x.p.ipos(e.in), "only when "+g.String())
	}
}

// dgd: the discriminative gradient of a weight.
func (x *fx) dgd(S, st, s, w, zt, u, node, i *Form) *Form {
	z := x.z
	zero := z.num(0)
	vS, vZ := x.entry(x.table(st, s), S, zero), x.entry(x.table(st, zt), S, zero)
	return z.sub(z.exp(z.sub(x.entry(x.table(st, w), node, i), vS)), z.exp(z.sub(x.entry(x.table(st, u), node, i), vZ)))
}

// ---- C15: weight updates ----

// normSpec: element j of the normalised u, n elements.
func (x *fx) normSpec(n *Form, u func(i *Form) *Form, j *Form) *Form {
	z := x.z
	m := z.extr("min2", z.num(0), x.over("min", n, u))
	v := func(i *Form) *Form { return z.sub(u(i), m) }
	plain := z.div(u(j), x.over("sum", n, u))
	return z.ite(z.gt0(z.neg(m)), z.div(v(j), x.over("sum", n, v)), plain)
}

type updSpec struct {
	name string
	norm int // parameter: normalise?
	eta  int
	val  func(fr *frame, s, w, i *Form) *Form // new weight before normalisation
}

func checkUpdates(r *R) {
	x := newFx(r)
	z := x.z
	r.rule("a weight update adds learning rate × gradient of that very weight (averaged over the batch) minus 2λ·w, for every weight with a gradient, and, when normalisation was asked for, is followed by normalising the node's weights; normalising shifts negative weights to zero and divides by the sum")
	for _, pn := range [][2]string{{"learn", "Normalize"}, {"spn", "norm"}} {
		pn := pn
		x.try(pn[1], func() {
			f := r.p.fn(pn[0], pn[1])
			if f == nil {
				return
			}
			fr := x.vs.root(f)
			v := fr.args[0]
			j := z.atom("leaf", "slot")
			got := x.vs.contentsAfter(fr, nil, v, j)
			want := x.normSpec(z.length(v), func(i *Form) *Form { return z.idx(v, i) }, j)
			x.expect("normalisation", "normalise", x.p.fname(f), f, x.inRange(got, v, j), want, false)
		})
	}
	lam := func(S *Form) *Form { return z.atom("fld", "Lambda", z.atom("fld", "Parameters", S)) }
	zero := z.num(0)
	reg2 := func(S, w *Form) *Form { return z.mul(z.num(2), z.mul(lam(S), w)) }
	specs := []updSpec{
		{"DeriveApplyWeights", 6, 1, func(fr *frame, s, w, i *Form) *Form {
			a := fr.args
			d := z.exp(z.add(x.entry(x.table(a[2], a[4]), z.idx(x.ch(s), i), zero), x.entry(x.table(a[2], a[3]), s, zero)))
			return z.add(w, z.mul(a[1], d))
		}},
		{"applyFastGD", 4, 1, func(fr *frame, s, w, i *Form) *Form {
			a := fr.args
			t := x.table(a[3], a[2])
			d := z.div(z.mul(a[1], z.exp(x.entry(t, s, i))), a[5])
			return z.ite(x.hasEntry(t, s, i), z.sub(z.add(w, d), reg2(a[0], w)), w)
		}},
		{"applyGD", 5, 1, func(fr *frame, s, w, i *Form) *Form {
			a := fr.args
			d := z.div(z.mul(a[1], z.exp(x.entry(x.table(a[3], a[2]), s, i))), a[6])
			return z.sub(z.add(w, d), reg2(a[0], w))
		}},
		{"applyFastHGD", 4, 1, func(fr *frame, s, w, i *Form) *Form {
			a := fr.args
			t := x.table(a[3], a[2])
			d := z.div(z.mul(a[1], x.entry(t, s, i)), z.mul(w, a[5]))
			return z.ite(x.hasEntry(t, s, i), z.sub(z.add(w, d), reg2(a[0], w)), w)
		}},
		{"applyHGD", 4, 1, func(fr *frame, s, w, i *Form) *Form {
			a := fr.args
			t := x.table(a[3], a[2])
			d := z.div(z.mul(a[1], x.entry(t, s, i)), z.mul(w, a[5]))
			return z.ite(x.hasEntry(t, s, i), z.sub(z.add(w, d), reg2(a[0], w)), w)
		}},
		{"applyDGD", 9, 8, func(fr *frame, s, w, i *Form) *Form {
			a := fr.args
			d := z.div(z.mul(a[8], x.dgd(a[0], a[7], a[1], a[3], a[4], a[6], s, i)), a[11])
			return z.sub(z.add(w, d), reg2(a[0], w))
		}},
		{"applyDGDFrom", 4, 3, func(fr *frame, s, w, i *Form) *Form {
			a := fr.args
			t := x.table(a[2], a[1])
			d := z.div(z.mul(a[3], x.entry(t, s, i)), a[5])
			return z.ite(x.hasEntry(t, s, i), z.sub(z.add(w, d), reg2(a[0], w)), w)
		}},
	}
	for _, sp := range specs {
		sp := sp
		x.try(sp.name, func() {
			f := r.p.fn("learn", sp.name)
			if f == nil {
				return
			}
			x.update(f, sp)
			x.updateLoop(f)
		})
	}
	x.try("applyHDGD", func() {
		f := r.p.fn("learn", "applyHDGD")
		if f == nil {
			return
		}
		x.hardDisc(f)
		x.updateLoop(f)
	})
}

// hardDisc: the update of the hard discriminative gradient: count with the labels minus count
// without them, per edge.
func (x *fx) hardDisc(f *ssa.Function) {
	z := x.z
	fr := x.vs.root(f)
	a := fr.args
	var C *Form
	evs := x.vs.events(fr, nil, nil)
	for _, e := range evs {
		if e.kind == "elem" && e.base.op == "fld" && e.base.sym == "w" && e.base.args[0].op == "key" && e.base.args[0].args[0].op == "site" {
			C = e.base.args[0].args[0]
		}
	}
	if C == nil {
		x.undecided("learn.applyHDGD", "difference of counts not found")
		return
	}
	x.update(f, updSpec{"applyHDGD", 6, 4, func(fr *frame, s, w, i *Form) *Form {
		d := z.atom("map", "", z.atom("map", "", C, s), i)
		up := z.sub(z.add(w, z.div(z.mul(a[4], d), z.mul(w, a[7]))), z.mul(z.num(2), z.mul(a[5], w)))
		return z.ite(z.atom("b", "has", z.atom("map", "", C, s), i), z.ite(z.eq0(d), w, up), w)
	}}, C)
	// the difference
	n := 0
	for _, e := range evs {
		if e.kind != "map" || e.base.op != "map" || e.base.args[0] != C || len(e.loops) < 2 {
			continue
		}
		s := e.base.args[1]
		if s.op != "key" || e.key.op != "key" {
			continue
		}
		prev := z.atom("map", "", e.base, e.key)
		var entry *Form
		sign := int64(1)
		switch s.args[0] {
		case x.table(a[3], a[1]):
		case x.table(a[3], a[2]):
			sign = -1
		default:
			continue
		}
		n++
		entry = z.mul(z.num(sign), x.entry(s.args[0], s, e.key))
		what := "learn.applyHDGD: difference of counts"
		v := e.val
		if !isTrue(e.guard) {
			if e.guard.opq || e.guard.op != "b" && e.guard.op != "ite" {
				x.undecided(what, "guard")
			} else {
				x.r.bad("weight-update", what, x.p.ipos(e.in), "only when "+e.guard.String())
			}
			continue
		}
		if n > 1 {
			v = z.sub(v, prev)
		} else if z.sub(v, prev) == entry {
			v = entry
		}
		x.expect("weight updates", "weight-update", what, f, v, entry, false, s, C)
	}
	if n == 0 {
		x.undecided("learn.applyHDGD", "difference of counts not found")
	}
}

// updateLoop: while a node's weights are being updated one by one, only the weight being updated is
// read, and they are not rescaled.
func (x *fx) updateLoop(f *ssa.Function) {
	fr := x.vs.root(f)
	evs := x.vs.events(fr, nil, nil)
	for _, e := range evs {
		if e.kind != "elem" || e.base.op != "fld" || e.base.sym != "w" || len(e.loops) == 0 {
			continue
		}
		l := e.loops[len(e.loops)-1]
		if l.it != e.key && e.key.op != "key" {
			continue
		}
		what := x.p.fname(f) + ": loop updating the weights"
		st, ok := e.in.(*ssa.Store)
		if !ok {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		bad := false
		for b := range l.l.in {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.UnOp:
					ib, ok := y.X.(*ssa.IndexAddr)
					if ok && y.Op == token.MUL && ib.X == ia.X {
						k := x.vs.at(e.fr, ib.Index, b)
						if _, lit := k.constant(); lit && k != e.key {
							x.r.bad("weight-update", what, x.p.ipos(in), "reads the weight at "+k.String()+" while updating the one at "+e.key.String())
							bad = true
						}
					}
				case *ssa.Call:
					if cal := y.Call.StaticCallee(); cal != nil && cal != f && len(cal.Blocks) > 0 {
						for i, arg := range y.Call.Args {
							if arg == ia.X && i < len(cal.Params) && rescales(cal, cal.Params[i]) {
								x.r.bad("weight-update", what, x.p.ipos(in), "rescales the weights while they are being updated")
								bad = true
							}
						}
					}
				}
			}
		}
		if !bad {
			x.r.ok("update loops", what)
		}
	}
}

// rescales: the function writes elements of the slice in a loop.
func rescales(f *ssa.Function, p ssa.Value) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.X == p {
				if _, c := ia.Index.(*ssa.Parameter); !c {
					if _, c := ia.Index.(*ssa.Const); !c {
						return true
					}
				}
			}
		}
	}
	return false
}

// inRange: j is an index of the slice.
func (x *fx) inRange(f, v, j *Form) *Form {
	z := x.z
	f = x.wellFormed(f)
	n := x.wellFormed(z.length(v))
	for _, c := range []*Form{z.ge0(j), z.ge0(z.sub(z.sub(n, z.num(1)), j)), z.not(z.eq0(n))} {
		pos := true
		for c.op == "ite" && isFalse(c.args[1]) && isTrue(c.args[2]) {
			c, pos = c.args[0], !pos
		}
		f = z.assume(f, c, pos)
	}
	return f
}

func (x *fx) update(f *ssa.Function, sp updSpec, known ...*Form) {
	z := x.z
	fr := x.vs.root(f)
	// the node whose weights are written
	var s *Form
	var lp *loop
	home := fr
	for _, e := range x.vs.events(fr, nil, nil) {
		if e.kind != "elem" || e.base.op != "fld" || e.base.sym != "w" {
			continue
		}
		// the outermost loop on the way to the store
		var l *loop
		h := fr
		in := e.in
		for g := e.fr; g != nil; g = g.caller {
			if o := x.vs.loopOf(in.Block()); o != nil {
				for o.parent != nil {
					o = o.parent
				}
				l, h = o, g
			}
			if g.site == nil {
				break
			}
			in = g.site
		}
		s, lp, home = e.base.args[0], l, h
		break
	}
	name := x.p.fname(f)
	if s == nil || lp == nil {
		x.undecided(name, "no weight update found")
		return
	}
	j := z.atom("leaf", "slot")
	got := x.vs.contentsAfter(home, lp, x.w(s), j)
	n := z.length(x.ch(s))
	facts := x.isKind(s, "sum")
	facts = append(facts, fact{x.z.atom("b", "has", x.rowTab(got), s), true})
	got = x.inRange(x.given(got, facts...), x.w(s), j)
	// a row that is present
	got = x.rowHas(got, s)
	u := func(i *Form) *Form { return sp.val(fr, s, x.weight(s, i), i) }
	want := z.ite(fr.args[sp.norm], x.normSpec(n, u, j), u(j))
	want = x.inRange(x.rowHas(x.given(want, facts...), s), x.w(s), j)
	x.expect("weight updates", "weight-update", name+": new weight", f, got, want, false, append(known, s)...)
	// untouched for other kinds
	for _, k := range []string{"product", "leaf"} {
		o := x.given(x.vs.contentsAfter(home, lp, x.w(s), j), x.isKind(s, k)...)
		if !o.opq && o != x.weight(s, j) {
			_ = k
		}
	}
}

func (x *fx) rowTab(f *Form) *Form {
	var t *Form
	f.walk(func(d *Form) {
		if d.op == "map" && len(d.args) == 2 && d.args[0].op == "fld" && d.args[0].sym == "tables" && t == nil {
			t = d
		}
	})
	if t == nil {
		return x.z.num(0)
	}
	return t
}

// rowHas: the table has a row for s (otherwise there is no gradient and nothing is asked).
func (x *fx) rowHas(f, s *Form) *Form {
	m := map[string]*Form{}
	f.walk(func(d *Form) {
		if d.op == "b" && d.sym == "has" && len(d.args) == 2 && d.args[1] == s && d.args[0].op == "map" {
			m[d.key] = x.z.tru()
		}
	})
	if len(m) == 0 {
		return f
	}
	return x.z.subst(f, m)
}

// ---- C13: leaves ----

func checkLeaves(r *R) {
	x := newFx(r)
	z := x.z
	r.rule("for every kind of leaf: an unobserved variable contributes ln 1; the maximum given an observed variable is the value of that observation; ArgMax reports the same value as Max, keeps observed evidence, completes an unobserved variable with a value that attains the maximum, and mentions no other variable")
	r.assumes("a multinomial's mode holds the probability of the value it names (C14)")
	for _, t := range []string{"Multinomial", "Gaussian", "Indicator"} {
		t := t
		x.try(t, func() {
			vf, mf, af := r.p.method("spn", t, "Value"), r.p.method("spn", t, "Max"), r.p.method("spn", t, "ArgMax")
			if vf == nil || mf == nil || af == nil {
				x.undecided("spn."+t, "methods not found")
				return
			}
			self, I := z.atom("leaf", "arg0"), z.atom("leaf", "arg1")
			v, m, a := x.ret(t, "Value", 0, 0), x.ret(t, "Max", 0, 0), x.ret(t, "ArgMax", 1, 0)
			if t == "Multinomial" {
				// the mode holds the probability of the value it names (C14)
				mode := z.atom("addr", "mode", self)
				inv := map[string]*Form{z.idx(z.atom("fld", "pr", self), z.atom("fld", "index", mode)).key: z.atom("fld", "val", mode)}
				v, m, a = z.subst(v, inv), z.subst(m, inv), z.subst(a, inv)
			}
			// the variable of the leaf
			var id *Form
			for _, f := range []*Form{v, m, a} {
				f.walk(func(d *Form) {
					if d.op == "b" && d.sym == "has" && d.args[0] == I && id == nil {
						id = d.args[1]
					}
				})
			}
			if id == nil {
				x.undecided("spn."+t, "evidence lookup not found")
				return
			}
			obs := z.atom("b", "has", I, id)
			n := "spn." + t
			x.expect("leaf contracts", "leaf-marginal", n+": value of an unobserved variable", vf, x.given(v, fact{obs, false}), z.num(0), true)
			x.expect("leaf contracts", "leaf-max", n+": maximum given an observation", mf, x.given(m, fact{obs, true}), x.given(v, fact{obs, true}), true)
			x.expect("leaf contracts", "leaf-max", n+": value reported with the maximiser", af, a, m, true)
			if t == "Indicator" {
				want := z.ite(z.eq0(z.sub(z.atom("fld", "v", self), x.vs.lookup(I, id))), z.num(0), z.inf(true))
				x.expect("leaf contracts", "leaf-value", n+": value of an observation", vf, x.given(v, fact{obs, true}), want, true)
			}
			if t == "Multinomial" {
				want := z.log(z.idx(z.atom("fld", "pr", self), x.vs.lookup(I, id)))
				x.expect("leaf contracts", "leaf-value", n+": value of an observation", vf, x.given(v, fact{obs, true}), want, true)
			}
			if t == "Gaussian" {
				d := z.atom("fld", "dist", self)
				if w := x.logProb(v); w != nil {
					d = w
				}
				sig := x.sigmaOf(v)
				if sig != nil {
					want := z.atom("call", "distuv.LogProb.0", d, x.vs.lookup(I, id))
					x.expect("leaf contracts", "leaf-value", n+": value of an observation", vf, x.given(v, fact{obs, true}, fact{z.eq0(sig), false}), want, true)
				}
			}
			// the maximiser
			fr := x.vs.root(af)
			res := x.vs.retForm(fr, 0)
			cur := z.atom("const", "unset")
			other := false
			for _, e := range x.vs.events(fr, nil, nil) {
				if e.kind != "map" || e.base != res {
					continue
				}
				if e.key == id {
					cur = z.ite(e.guard, e.val, cur)
				} else if !e.key.opq && !hasSite(e.key) {
					other = true
					if e.key.op != "key" {
						r.bad("leaf-argmax", n+": maximiser", r.p.ipos(e.in), "assigns a variable other than the leaf's: "+e.key.String())
					}
				}
			}
			lit := z.leaves(res, func(d *Form) *Form {
				if d.op == "maplit" && len(d.args) == 2 && d.args[0] == id {
					return d.args[1]
				}
				return nil
			})
			if lit != nil {
				cur = lit
			} else if res.op != "site" || other {
				x.undecided(n+": maximiser", "result not understood")
				return
			}
			x.expect("leaf contracts", "leaf-argmax", n+": maximiser keeps evidence", af, x.given(cur, fact{obs, true}), x.vs.lookup(I, id), false)
			un := x.given(cur, fact{obs, false})
			mx := x.given(m, fact{obs, false})
			// the value of the maximiser is the maximum
			sub := func(k *Form) *Form {
				g := x.given(v, fact{obs, true})
				return z.subst(g, map[string]*Form{x.vs.lookup(I, id).key: k})
			}
			got := z.lift1(un, sub)
			if t == "Multinomial" {
				// invariant of the mode
				mode := z.atom("addr", "mode", self)
				got = z.subst(got, map[string]*Form{z.idx(z.atom("fld", "pr", self), z.atom("fld", "index", mode)).key: z.atom("fld", "val", mode)})
			}
			if t == "Gaussian" {
				if sig := x.sigmaOf(v); sig != nil {
					// rounding: exact only for a point mass
					got, mx = x.given(got, fact{z.eq0(sig), true}), x.given(mx, fact{z.eq0(sig), true})
					cu := x.given(un, fact{z.eq0(sig), false})
					if cu.op == "const" {
						r.bad("leaf-argmax", n+": maximiser of an unobserved variable", r.p.pos(af.Pos()), "no value is given")
					}
				}
			}
			x.expect("leaf contracts", "leaf-argmax", n+": maximiser of an unobserved variable attains the maximum", af, got, mx, true)
		})
	}
}

// logProb: the distribution a density is taken of.
func (x *fx) logProb(f *Form) *Form {
	var d *Form
	f.walk(func(g *Form) {
		if g.op == "call" && strings.HasPrefix(g.sym, "distuv.LogProb") {
			d = g.args[0]
		}
	})
	return d
}

// sigmaOf: the standard deviation as read by a Gaussian's methods.
func (x *fx) sigmaOf(f *Form) *Form {
	var d *Form
	f.walk(func(g *Form) {
		if g.op == "fld" && g.sym == "Sigma" {
			d = g
		}
	})
	return d
}

// ---- C14: parameters of leaves ----

func checkLeafParams(r *R) {
	x := newFx(r)
	z := x.z
	r.rule("a multinomial leaf holds the distribution it is given, or (1+c_i)/Σ(1+c_j) for counts c, or the uniform distribution, with the mode the largest probability and a value that has it; a Gaussian leaf the mean (or mode) and population standard deviation of its data; every leaf's variable and scope are the ones given")
	type want map[string]func(a []*Form) *Form
	arr := func(n *Form, f func(i *Form) *Form) *Form {
		it := z.atom("iter", "prspec")
		return z.mkArr(n, it, f(it))
	}
	counting := func(ci int) func(a []*Form) *Form {
		return func(a []*Form) *Form {
			n := z.length(a[ci])
			tot := x.over("sum", n, func(i *Form) *Form { return z.add(z.num(1), z.idx(a[ci], i)) })
			return arr(n, func(i *Form) *Form { return z.div(z.add(z.num(1), z.idx(a[ci], i)), tot) })
		}
	}
	arg := func(i int) func(a []*Form) *Form { return func(a []*Form) *Form { return a[i] } }
	own := func(a []*Form) *Form { return z.atom("lit", "", a[0]) }
	mean := func(a []*Form) *Form {
		n := z.length(a[1])
		return z.div(x.over("sum", n, func(i *Form) *Form { return z.idx(a[1], i) }), n)
	}
	cmean := func(a []*Form) *Form {
		n := z.length(a[1])
		return z.div(x.over("sum", n, func(i *Form) *Form { return z.mul(i, z.idx(a[1], i)) }), x.over("sum", n, func(i *Form) *Form { return z.idx(a[1], i) }))
	}
	sqrt := func(f *Form) *Form { return z.atom("call", "math.Sqrt.0", f) }
	csd := func(a []*Form) *Form {
		n := z.length(a[1])
		mu := cmean(a)
		return sqrt(z.div(x.over("sum", n, func(i *Form) *Form {
			d := z.sub(i, mu)
			return z.mul(z.idx(a[1], i), z.mul(d, d))
		}), x.over("sum", n, func(i *Form) *Form { return z.idx(a[1], i) })))
	}
	table := map[string]want{
		"NewMultinomial":               {"varid": arg(0), "sc": own, "pr": arg(1)},
		"NewCountingMultinomial":       {"varid": arg(0), "sc": own, "pr": counting(1)},
		"NewScopedCountingMultinomial": {"varid": arg(0), "sc": arg(1), "pr": counting(2)},
		"NewEmptyMultinomial": {"varid": arg(0), "sc": own, "pr": func(a []*Form) *Form {
			return arr(a[1], func(*Form) *Form { return z.inv(a[1]) })
		}},
		"NewGaussianRaw": {"varid": arg(0), "sc": own, "dist.Mu": mean, "dist.Sigma": func(a []*Form) *Form {
			n := z.length(a[1])
			mu := mean(a)
			return sqrt(z.div(x.over("sum", n, func(i *Form) *Form {
				d := z.sub(z.idx(a[1], i), mu)
				return z.mul(d, d)
			}), n))
		}},
		"NewGaussian": {"varid": arg(0), "sc": own, "dist.Mu": cmean, "dist.Sigma": csd},
		"NewGaussianMode": {"varid": arg(0), "sc": own, "dist.Sigma": csd, "dist.Mu": func(a []*Form) *Form {
			it := z.atom("iter", "mode")
			return z.argidx("max", z.length(a[1]), it, z.idx(a[1], it), z.inf(true))
		}},
		"NewGaussianParams": {"varid": arg(0), "sc": own, "dist.Mu": arg(1), "dist.Sigma": arg(2)},
		"NewIndicator":      {"varid": arg(0), "sc": own, "v": arg(1)},
	}
	for name, w := range table {
		name, w := name, w
		x.try(name, func() {
			f := r.p.fn("spn", name)
			if f == nil {
				x.undecided("spn."+name, "not found")
				return
			}
			fr := x.vs.root(f)
			rs := x.vs.resultStruct(fr, 0)
			if len(rs) != 1 || rs[0] == nil {
				x.undecided("spn."+name, "result not understood")
				return
			}
			for k, spec := range w {
				got, ok := rs[0][k]
				if !ok {
					x.undecided("spn."+name+": "+k, "field not found")
					continue
				}
				x.expect("leaf parameters", "leaf-parameter", "spn."+name+": "+k, f, got, spec(fr.args), false)
			}
			if pr, ok := rs[0]["pr"]; ok && !pr.opq {
				mv, mi := rs[0]["mode.val"], rs[0]["mode.index"]
				n := x.vs.lenOf(pr)
				if mv != nil && !mv.opq {
					want := x.over("max", n, func(i *Form) *Form { return z.idx(pr, i) })
					x.expect("leaf parameters", "leaf-mode", "spn."+name+": probability of the mode", f, dropSmall(z, mv), want, false)
				}
				if mv != nil && mi != nil {
					if mi.opq {
						x.undecided("spn."+name+": mode", "index not understood")
					} else {
						x.expect("leaf parameters", "leaf-mode", "spn."+name+": the mode's probability is that of its value", f, x.atArg(z.idx(pr, x.attained(mi))), dropSmall(z, mv), false)
					}
				}
			}
		})
	}
	x.try("NewGaussianFit", func() {
		f := r.p.fn("spn", "NewGaussianFit")
		if f == nil {
			return
		}
		fr := x.vs.root(f)
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "Fit" || len(c.Call.Args) != 3 {
					continue
				}
				n++
				x.expect("leaf parameters", "leaf-parameter", "spn.NewGaussianFit: weight of each value", f, x.vs.arg(fr, c.Call.Args[2], c), fr.args[1], false)
				x.expect("leaf parameters", "leaf-parameter", "spn.NewGaussianFit: values fitted", f, x.vs.arg(fr, c.Call.Args[1], c), arr(z.length(fr.args[1]), func(i *Form) *Form { return i }), false)
			}
		}
		if n != 1 {
			x.undecided("spn.NewGaussianFit", "fitted by other means")
		}
	})
	type m1 struct {
		name string
		i    int
	}
	self := z.atom("leaf", "arg0")
	pr := z.atom("fld", "pr", self)
	n := z.length(pr)
	mu := x.over("sum", n, func(i *Form) *Form { return z.mul(i, z.idx(pr, i)) })
	sd := sqrt(x.over("sum", n, func(i *Form) *Form {
		d := z.sub(i, mu)
		return z.mul(z.idx(pr, i), z.mul(d, d))
	}))
	for _, q := range []struct {
		n string
		i int
		w *Form
	}{{"Mean", 0, mu}, {"StdDev", 0, sd}, {"MuSigma", 0, mu}, {"MuSigma", 1, sd}} {
		q := q
		x.try(q.n, func() {
			f := r.p.method("spn", "Multinomial", q.n)
			if f == nil {
				return
			}
			got := x.vs.retForm(x.vs.root(f), q.i)
			x.expect("leaf parameters", "leaf-moment", fmt.Sprintf("(*spn.Multinomial).%s result %d", q.n, q.i), f, x.sumOne(got, pr), x.sumOne(q.w, pr), false)
		})
	}
}

// sumOne: the probabilities add up to one.
func (x *fx) sumOne(f, pr *Form) *Form {
	z := x.z
	return z.subst(f, map[string]*Form{x.over("sum", z.length(pr), func(i *Form) *Form { return z.idx(pr, i) }).key: z.num(1)})
}

// dropSmall: probabilities are not negative, so a starting value of at most zero does not matter.
// attained: some value attains the largest, so the list of those that do is not empty.
func (x *fx) attained(f *Form) *Form {
	z := x.z
	return z.rewrite(f, func(d *Form) *Form {
		if d.op != "eq0" || len(d.args) != 1 || d.args[0].op != "len" || d.args[0].args[0].op != "coll" {
			return nil
		}
		c := d.args[0].args[0]
		ok := false
		c.walk(func(e *Form) {
			if e.op == "max" && e.args[0] == c.args[0] {
				ok = true
			}
		})
		if ok {
			return z.fls()
		}
		return nil
	})
}

func dropSmall(z *forms, f *Form) *Form {
	if f.op == "max2" {
		var as []*Form
		for _, a := range f.args {
			if c, ok := a.constant(); ok && c.Cmp(new(big.Rat)) <= 0 {
				continue
			}
			as = append(as, a)
		}
		if len(as) == 1 {
			return as[0]
		}
	}
	return f
}

// atArg: the term at the index of the maximum is the maximum.
func (x *fx) atArg(f *Form) *Form {
	z := x.z
	var ai *Form
	f.walk(func(d *Form) {
		if d.op == "argidx" && d.sym == "max" {
			ai = d
		}
	})
	if ai == nil {
		return f
	}
	it := z.atom("iter", "atarg")
	body := z.open(ai, ai)
	whole := z.reduce("max", ai.args[0], it, z.open(ai, it))
	if f == body {
		return whole
	}
	return f
}
