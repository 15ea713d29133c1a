package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fx compares what functions compute with the formulas they are specified by.
type fx struct {
	p  *Program
	vs *Values
	z  *forms
	r  *R
}

func newFx(r *R) *fx {
	vs := newValues(r.p)
	return &fx{r.p, vs, vs.z, r}
}

// try runs one obligation; an internal failure leaves it undecided.
func (x *fx) try(what string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("FDEBUG") != "" {
				panic(e)
			}
			x.r.ok("undecided", fmt.Sprintf("%s: internal: %v", what, e))
		}
	}()
	defer x.z.budget()()
	fn()
}

func (x *fx) undecided(what, why string) { x.r.ok("undecided", what+": "+why) }

// ---- building blocks of specifications ----

func (x *fx) ch(s *Form) *Form { return x.z.atom("fld", "ch", s) }
func (x *fx) w(s *Form) *Form  { return x.z.atom("fld", "w", s) }
func (x *fx) kind(s *Form, k string) *Form {
	return x.z.eq(x.z.atom("const", `"`+k+`"`), x.z.atom("fld", "Type", s))
}

func (x *fx) over(op string, n *Form, body func(i *Form) *Form) *Form {
	it := x.z.atom("iter", "spec"+fmt.Sprint(specN))
	specN++
	return x.z.reduce(op, n, it, body(it))
}

var specN int

func (x *fx) children(op string, s *Form, body func(i, c *Form) *Form) *Form {
	return x.over(op, x.z.length(x.ch(s)), func(i *Form) *Form { return body(i, x.z.idx(x.ch(s), i)) })
}

func (x *fx) weight(s, i *Form) *Form { return x.z.idx(x.w(s), i) }

// sumSpec: ln of the weighted sum of the children's values.
func (x *fx) sumSpec(s *Form, val func(c *Form) *Form) *Form {
	return x.z.log(x.children("sum", s, func(i, c *Form) *Form { return x.z.mul(x.weight(s, i), x.z.exp(val(c))) }))
}

func (x *fx) prodSpec(s *Form, val func(c *Form) *Form) *Form {
	return x.children("sum", s, func(i, c *Form) *Form { return val(c) })
}

func (x *fx) maxSpec(s *Form, val func(c *Form) *Form) *Form {
	return x.children("max", s, func(i, c *Form) *Form { return x.z.add(x.z.log(x.weight(s, i)), val(c)) })
}

func (x *fx) call(name string, i int, args ...*Form) *Form {
	return x.z.atom("call", fmt.Sprintf("%s.%d", name, i), args...)
}

// facts that hold of every well-formed network: as many weights as children, sum and product nodes
// have children.
func (x *fx) wellFormed(f *Form) *Form {
	return x.z.rewrite(f, func(d *Form) *Form {
		if d.op == "len" && d.args[0].op == "fld" && d.args[0].sym == "w" {
			return x.z.length(x.ch(d.args[0].args[0]))
		}
		return nil
	})
}

type fact struct {
	c *Form
	v bool
}

func (x *fx) given(f *Form, fs ...fact) *Form {
	f = x.wellFormed(f)
	for _, c := range fs {
		f = x.z.assume(f, c.c, c.v)
	}
	return f
}

func (x *fx) isKind(s *Form, k string) []fact {
	fs := []fact{{x.kind(s, k), true}}
	for _, o := range []string{"leaf", "sum", "product"} {
		if o != k {
			fs = append(fs, fact{x.kind(s, o), false})
		}
	}
	return fs
}

// noUnset: every table row looked up is present.
func (x *fx) rowsPresent(f *Form) *Form {
	return x.z.rewrite(f, func(d *Form) *Form {
		if d.op == "b" && d.sym == "has" {
			return x.z.tru()
		}
		return nil
	})
}

// expect compares and reports.
func (x *fx) expect(class, rule, construct string, fn *ssa.Function, got, want *Form, logd bool, known ...*Form) bool {
	q := &cmpr{z: x.z, logd: logd, known: known}
	v := q.cmp(x.wellFormed(got), x.wellFormed(want))
	if v == different {
		// the same sums counted the other way round
		q2 := &cmpr{z: x.z, logd: logd, known: known}
		if q2.cmp(x.counted(x.wellFormed(got)), x.counted(x.wellFormed(want))) == same {
			v = same
		}
	}
	switch v {
	case same:
		x.r.ok(class, construct+" = "+want.String())
		return true
	case unknown:
		x.undecided(construct, q.why)
	default:
		x.r.bad(rule, construct, x.p.pos(fn.Pos()), q.why)
	}
	return false
}

// counted: sums over if(c; 0; k) become k·n less the sum over if(c; k; 0).
func (x *fx) counted(f *Form) *Form {
	z := x.z
	return z.rewrite(f, func(d *Form) *Form {
		if d.op != "sum" || len(d.args) != 3 || isDom(d.args[0]) || d.args[2].op != "ite" || d.args[0].op == "ite" {
			return nil
		}
		b := d.args[2]
		k, ok := b.args[2].constant()
		if !ok || k.Sign() == 0 || !b.args[1].isNum(0) {
			return nil
		}
		it := z.fresh()
		c := z.subst(b.args[0], map[string]*Form{d.args[1].key: it})
		return z.sub(z.mul(z.rat(k), d.args[0]), z.reduce("sum", d.args[0], it, z.ite(c, z.rat(k), z.num(0))))
	})
}

// ---- dynamic programming tables ----

type tabWrite struct {
	tab, node, slot *Form
	guard, val      *Form
	ev              *event
}

// splits lists the alternatives of a decision tree with their conditions.
func (z *forms) splits(f *Form) (gs, vs []*Form) {
	var rec func(f, g *Form)
	rec = func(f, g *Form) {
		if f.op == "ite" {
			rec(f.args[1], z.ite(g, f.args[0], z.fls()))
			rec(f.args[2], z.ite(g, z.not(f.args[0]), z.fls()))
			return
		}
		gs = append(gs, g)
		vs = append(vs, f)
	}
	rec(f, z.tru())
	return
}

// tableWrites: the real-valued entries per node that fn stores, in program order. ok is false if
// there are stores whose place is not understood.
func (x *fx) tableWrites(fr *frame, lp *loop) (ws []*tabWrite, ok bool) {
	z := x.z
	ok = true
	for _, e := range x.vs.events(fr, lp, nil) {
		if e.kind != "map" {
			continue
		}
		if mu, is := e.in.(*ssa.MapUpdate); is {
			mt := mu.Map.Type().Underlying().(*types.Map)
			if !isFloat(mt.Elem()) {
				continue
			}
		}
		if e.base.opq || e.key.opq {
			ok = false
			continue
		}
		gs, bs := z.splits(e.base)
		for i, b := range bs {
			kgs, ks := z.splits(e.key)
			for j, k := range ks {
				g := z.ite(z.ite(gs[i], kgs[j], z.fls()), e.guard, z.fls())
				if isFalse(g) {
					continue
				}
				v := e.val
				w := &tabWrite{guard: g, val: v, ev: e}
				if b.op == "map" && len(b.args) == 2 {
					w.tab, w.node, w.slot = b.args[0], b.args[1], k
				} else {
					w.tab, w.node = b, k
				}
				ws = append(ws, w)
			}
		}
	}
	return
}

// compose: the value an entry has after the region, in terms of the tables before it.
func (x *fx) compose(ws []*tabWrite, like *tabWrite) *Form {
	z := x.z
	cur := z.atom("const", "unset")
	for _, w := range ws {
		if w.tab == like.tab && w.node == like.node && w.slot == like.slot {
			cur = z.ite(w.guard, w.val, cur)
		}
	}
	return cur
}

// read: the entry of a node in a table.
func (x *fx) read(like *tabWrite, c *Form) *Form {
	if like.slot == nil {
		return x.vs.lookup(like.tab, c)
	}
	return x.vs.lookup(x.vs.lookup(like.tab, c), like.slot)
}

// pass checks a bottom-up pass over the network: what it stores for each kind of node.
func (x *fx) pass(fn *ssa.Function, what string, spec func(kind string, s *Form, val func(c *Form) *Form) *Form) (tab []*tabWrite) {
	if fn == nil {
		x.undecided(what, "function not found")
		return nil
	}
	fr := x.vs.root(fn)
	ws, ok := x.tableWrites(fr, nil)
	if len(ws) == 0 {
		x.undecided(x.p.fname(fn), "no table of node values found")
		return nil
	}
	seen := map[string]bool{}
	root := fr.args[0]
	for _, w := range ws {
		k := w.tab.key + "|" + w.node.key
		if w.slot != nil {
			k += "|" + w.slot.key
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		if w.node == root {
			// a recursive evaluation that keeps what it computed: not one pass in dependency order
			x.undecided(x.p.fname(fn), "node values are computed by recursion")
			continue
		}
		tab = append(tab, w)
		val := func(c *Form) *Form { return x.read(w, c) }
		cv := x.rowsPresent(x.compose(ws, w))
		inner := x.z.eq0(x.z.length(x.ch(root)))
		for _, k := range []string{"leaf", "sum", "product"} {
			fs := append(x.isKind(w.node, k), fact{inner, false})
			got := x.given(cv, fs...)
			// the same table may be named in several cases; leave out the others
			gs, vals := x.z.splits(got)
			live := got
			if !ok && hasUnset(vals) {
				x.undecided(x.p.fname(fn)+" "+k, "some stores are not understood")
				continue
			}
			_ = gs
			want := x.given(spec(k, w.node, val), fs...)
			live = x.dropOther(live, w)
			x.expect("node values", "node-value", x.p.fname(fn)+": value of a "+k+" node", fn, live, want, true, w.tab, w.node)
		}
		// a network that is a single leaf
		fs := append(x.isKind(root, "leaf"), x.isKind(w.node, "leaf")...)
		fs = append(fs, fact{inner, true})
		got := x.dropOther(x.given(cv, fs...), w)
		want := x.given(spec("leaf", w.node, val), fs...)
		x.expect("node values", "node-value", x.p.fname(fn)+": value of a single leaf", fn, got, want, true, w.tab, w.node)
	}
	return tab
}

func hasUnset(fs []*Form) bool {
	for _, f := range fs {
		if f.op == "const" && f.sym == "unset" {
			return true
		}
	}
	return false
}

// dropOther removes the cases in which the entry lives in a different table: the ticket was given
// or made here.
func (x *fx) dropOther(f *Form, w *tabWrite) *Form {
	if f.op != "ite" {
		return f
	}
	c := f.args[0]
	// only conditions about integer arguments choose between tables
	args := true
	c.walk(func(d *Form) {
		switch d.op {
		case "map", "fld", "len", "call", "idx", "site":
			args = false
		}
	})
	if args && (c.op == "ge0" || c.op == "eq0") {
		t, e := f.args[1], f.args[2]
		if t.op == "const" && t.sym == "unset" {
			return x.dropOther(x.z.assume(f, c, false), w)
		}
		if e.op == "const" && e.sym == "unset" {
			return x.dropOther(x.z.assume(f, c, true), w)
		}
	}
	return f
}

func hasSite(f *Form) bool {
	b := false
	f.walk(func(g *Form) {
		if g.op == "site" {
			b = true
		}
	})
	return b
}

var _ = strings.Contains

func init() {
	reg("C10", checkSoft)
	reg("C11", checkMAP)
}

func checkSoft(r *R) {
	x := newFx(r)
	z := x.z
	r.rule("the logarithm of a sum node's value is ln Σ w_i·v_i over all its children with their own weights, a product node's Σ ln v_i, a leaf's its own value for the evidence; every way of evaluating a network computes that, for every node and every evidence")
	r.assumes("a table row that is looked up was stored before (children before parents: C09); as many weights as children")
	for _, t := range []string{"Sum", "Product"} {
		t := t
		x.try(t+".Value", func() {
			f := r.p.method("spn", t, "Value")
			fr := x.vs.root(f)
			val := func(c *Form) *Form { return x.call("Value", 0, c, fr.args[1]) }
			want := x.prodSpec(fr.args[0], val)
			if t == "Sum" {
				want = x.sumSpec(fr.args[0], val)
			}
			x.expect("node values", "node-value", x.p.fname(f), f, x.ret(t, "Value", 0, 0), want, true)
		})
	}
	for _, n := range []string{"Inference", "InferenceY", "StoreInference"} {
		n := n
		x.try(n, func() {
			f := r.p.fn("spn", n)
			if f == nil {
				return
			}
			fr := x.vs.root(f)
			ws := x.pass(f, "spn."+n, func(k string, s *Form, val func(*Form) *Form) *Form {
				switch k {
				case "sum":
					return x.sumSpec(s, val)
				case "product":
					return x.prodSpec(s, val)
				}
				v := x.call("Value", 0, s, fr.args[1])
				if n == "InferenceY" {
					v = z.ite(z.eq0(z.sub(z.idx(z.atom("fld", "Sc", s), z.num(0)), fr.args[2])), x.call("Value", 0, s, z.atom("maplit", "", fr.args[2], fr.args[3])), v)
				}
				return v
			})
			if n != "StoreInference" {
				x.rootResult(f, 0, ws)
			}
		})
	}
	r.floor("node values", 2)
}

func checkMAP(r *R) {
	x := newFx(r)
	z := x.z
	r.rule("the MAP value of a sum node is the maximum over its children of ln w_i + child value, of a product node the sum of its children's, of a leaf its own maximum given the evidence; the MAP state follows, from each sum node, a child that attains that maximum, from each product node every child, and takes each leaf's own maximiser")
	r.assumes("a table row that is looked up was stored before (children before parents: C09); as many weights as children")
	// ArgMax's value is the maximum
	norm := func(f *Form) *Form {
		return z.rewrite(f, func(d *Form) *Form {
			if d.op == "call" && d.sym == "ArgMax.1" {
				return z.atom("call", "Max.0", d.args...)
			}
			return nil
		})
	}
	for _, t := range []string{"Sum", "Product"} {
		for _, mn := range []string{"Max", "ArgMax"} {
			t, mn := t, mn
			x.try(t+"."+mn, func() {
				f := r.p.method("spn", t, mn)
				fr := x.vs.root(f)
				s := fr.args[0]
				val := func(c *Form) *Form { return x.call("Max", 0, c, fr.args[1]) }
				want := x.prodSpec(s, val)
				if t == "Sum" {
					want = x.maxSpec(s, val)
				}
				i := 0
				if mn == "ArgMax" {
					i = 1
				}
				x.expect("MAP values", "map-value", x.p.fname(f)+": value", f, norm(x.ret(t, mn, i, 0)), want, true)
				if mn == "Max" {
					return
				}
				got := x.given(norm(x.vs.retForm(fr, 0)), fact{z.eq0(z.length(x.ch(s))), false})
				if t == "Sum" {
					x.expect("MAP states", "map-state", x.p.fname(f)+": state", f, got, x.call("ArgMax", 0, x.best(s, val), fr.args[1]), false)
					return
				}
				// the union of the children's states
				want = nil
				x.union(f, fr, got)
			})
		}
	}
	for _, n := range []string{"StoreMAP", "TraceMAP"} {
		n := n
		x.try(n, func() {
			f := r.p.fn("spn", n)
			if f == nil {
				return
			}
			fr := x.vs.root(f)
			ws := x.pass(f, "spn."+n, func(k string, s *Form, val func(*Form) *Form) *Form {
				switch k {
				case "sum":
					return x.maxSpec(s, val)
				case "product":
					return x.prodSpec(s, val)
				}
				return x.call("Max", 0, s, fr.args[1])
			})
			x.descend(f, fr, n, ws)
		})
	}
	r.floor("MAP values", 2)
}

// best: the child of a sum node that attains the maximum.
func (x *fx) bestIdx(s *Form, val func(c *Form) *Form) *Form {
	z := x.z
	it := z.atom("iter", "best")
	return z.argidx("max", z.length(x.ch(s)), it, z.add(z.log(x.weight(s, it)), val(z.idx(x.ch(s), it))), z.inf(true))
}

func (x *fx) best(s *Form, val func(c *Form) *Form) *Form {
	return x.z.idx(x.ch(s), x.bestIdx(s, val))
}

// ret: result i of a method, with calls to the node's own methods expanded.
func (x *fx) ret(typ, method string, i, depth int) *Form {
	f := x.p.method("spn", typ, method)
	if f == nil {
		return x.z.opaque("no such method")
	}
	fr := x.vs.root(f)
	res := x.vs.retForm(fr, i)
	if depth > 3 {
		return res
	}
	return x.z.rewrite(res, func(d *Form) *Form {
		if d.op == "call" && len(d.args) == 2 && d.args[0] == fr.args[0] && len(fr.args) > 1 && d.args[1] == fr.args[1] {
			var k int
			for _, m := range []string{"Value", "Max", "ArgMax"} {
				if m != method && strings.HasPrefix(d.sym, m+".") {
					fmt.Sscan(d.sym[len(m)+1:], &k)
					return x.ret(typ, m, k, depth+1)
				}
			}
		}
		return nil
	})
}

// union: the returned map holds every entry of every child's state.
func (x *fx) union(f *ssa.Function, fr *frame, res *Form) {
	z := x.z
	what := x.p.fname(f) + ": state"
	if res.op != "site" {
		x.undecided(what, "result not understood")
		return
	}
	n := 0
	for _, e := range x.vs.events(fr, nil, nil) {
		if e.kind != "map" || e.base != res {
			continue
		}
		n++
		if e.key.opq || e.val.opq || e.guard.opq || len(e.loops) != 2 {
			x.undecided(what, "entries not understood")
			return
		}
		c := z.idx(x.ch(fr.args[0]), e.loops[0].it)
		m := x.call("ArgMax", 0, c, fr.args[1])
		wk := z.atom("key", "", m, e.loops[1].it)
		switch {
		case x.wellFormed(e.loops[0].dom) != z.length(x.ch(fr.args[0])) || !isTrue(e.guard):
			if hasSite(e.guard) || hasSite(e.loops[0].dom) {
				x.undecided(what, "guard not understood")
				return
			}
			x.r.bad("map-state", what, x.p.ipos(e.in), fmt.Sprintf("the state of a child is left out (entries are added when %s, for %s children)", e.guard, e.loops[0].dom))
		case e.key == wk && e.val == x.vs.lookup(m, wk):
			x.r.ok("MAP states", what+": union of the children's states")
		case hasSite(e.key) || hasSite(e.val):
			x.undecided(what, "entries not understood")
		default:
			x.r.bad("map-state", what, x.p.ipos(e.in), fmt.Sprintf("entry %s = %s, expected every entry of the state of child i", e.key, e.val))
		}
	}
	if n == 0 {
		x.undecided(what, "no entries found")
	}
}

// descend checks the top-down pass: which nodes are followed from each kind of node.
func (x *fx) descend(f *ssa.Function, fr *frame, name string, ws []*tabWrite) {
	z := x.z
	isGive := func(n string) bool {
		switch n {
		case "common.Queue.Enqueue", "common.Stack.Push", "common.Queue.Give", "common.Stack.Give", "Give", "Enqueue", "Push":
			return true
		}
		return false
	}
	root := fr.args[0]
	evs := x.vs.events(fr, nil, isGive)
	// the nodes given by the topological sort are not part of the descent
	type follow struct {
		e    *event
		node *Form
	}
	var fs []follow
	for _, e := range evs {
		if e.kind != "call" || !isGive(e.name) || len(e.loops) == 0 {
			continue
		}
		top := true
		for g := e.fr; g != nil; g = g.caller {
			if strings.HasPrefix(g.fn.Name(), "TopSort") {
				top = false
			}
		}
		if !top {
			continue
		}
		a := e.args[len(e.args)-1]
		// whose child it is
		var s *Form
		a.walk(func(d *Form) {
			if d.op == "fld" && d.sym == "ch" && s == nil {
				s = d.args[0]
			}
		})
		if s == nil {
			x.undecided(x.p.fname(f), "followed node not understood: "+a.String())
			return
		}
		fs = append(fs, follow{e, s})
	}
	if len(fs) == 0 {
		x.undecided(x.p.fname(f), "descent not found")
		return
	}
	free := func(g *Form) *Form {
		// nodes already seen and nil nodes are left out
		m := map[string]*Form{}
		g.walk(func(d *Form) {
			if d.op == "map" && len(d.args) == 2 && d.args[0].op == "site" {
				m[d.key] = z.fls()
			}
			if d.op == "b" && d.sym == "has" && d.args[0].op == "site" {
				m[d.key] = z.fls()
			}
			if d.op == "eq" && (d.args[0].op == "const" && d.args[0].sym == "nil" || d.args[1].op == "const" && d.args[1].sym == "nil") {
				m[d.key] = z.fls()
			}
		})
		// only conditions, not values
		return z.substConds(g, m)
	}
	inner := fact{z.eq0(z.length(x.ch(root))), false}
	for _, k := range []string{"sum", "product"} {
		n := 0
		for _, fo := range fs {
			e := fo.e
			s := fo.node
			facts := append(x.isKind(s, k), inner, fact{z.eq0(z.length(x.ch(s))), false})
			g := x.given(e.guard, facts...)
			if isFalse(g) {
				continue
			}
			n++
			what := fmt.Sprintf("%s: node followed from a %s node", x.p.fname(f), k)
			if len(ws) == 0 {
				x.undecided(what, "values not found")
				continue
			}
			g = free(g)
			if g.opq || hasSite2(g, s) {
				x.undecided(what, "guard not understood: "+g.String())
			} else if !isTrue(g) && !x.ticketCond(g) {
				x.r.bad("map-descent", what, x.p.ipos(e.in), fmt.Sprintf("only followed when %s", g))
			}
			a := x.given(e.args[len(e.args)-1], facts...)
			if k == "sum" {
				want := z.opaque("no table")
				var kn []*Form
				for _, w := range ws {
					w := w
					kn = append(kn, w.tab)
					wf := x.given(x.best(s, func(c *Form) *Form { return x.read(w, c) }), facts...)
					if want.opq {
						want = wf
					}
					q := &cmpr{z: z}
					if q.cmp(a, wf) == same {
						want = wf
					}
				}
				// by cases of the ticket
				x.expectCases("MAP states", "map-descent", what, f, a, ws, func(w *tabWrite) *Form {
					return x.given(x.best(s, func(c *Form) *Form { return x.read(w, c) }), facts...)
				}, append(kn, s)...)
			} else {
				if len(e.loops) < 2 || x.wellFormed(e.loops[len(e.loops)-1].dom) != z.length(x.ch(s)) {
					if len(e.loops) >= 2 && !hasSite2(e.loops[len(e.loops)-1].dom, s) && !e.loops[len(e.loops)-1].dom.opq {
						x.r.bad("map-descent", what, x.p.ipos(e.in), fmt.Sprintf("follows %s children, expected all", e.loops[len(e.loops)-1].dom))
					} else {
						x.undecided(what, "loop not understood")
					}
					continue
				}
				x.expect("MAP states", "map-descent", what, f, a, z.idx(x.ch(s), e.loops[len(e.loops)-1].it), false, s)
			}
		}
		if n == 0 {
			x.r.bad("map-descent", fmt.Sprintf("%s: node followed from a %s node", x.p.fname(f), k), x.p.pos(f.Pos()), "the descent does not go on from such nodes")
		}
	}
	// what is recorded on the way
	for _, e := range x.vs.events(fr, nil, nil) {
		if e.kind != "map" || e.base.op != "site" {
			continue
		}
		if mu, ok := e.in.(*ssa.MapUpdate); ok {
			mt := mu.Map.Type().Underlying().(*types.Map)
			res := x.vs.retForm(fr, f.Signature.Results().Len()-1)
			is := false
			res.walk(func(d *Form) {
				if d == e.base {
					is = true
				}
			})
			if !is {
				continue
			}
			_ = mt
			if name == "TraceMAP" {
				s := e.key
				facts := append(x.isKind(s, "sum"), inner, fact{z.eq0(z.length(x.ch(s))), false})
				if len(ws) > 0 {
					x.expectCases("MAP states", "map-state", x.p.fname(f)+": recorded child", f, x.given(e.val, facts...), ws, func(w *tabWrite) *Form {
						return x.given(x.bestIdx(s, func(c *Form) *Form { return x.read(w, c) }), facts...)
					}, s, ws[0].tab)
				}
			} else if e.key.op == "key" {
				src := e.key.args[0]
				if src.op == "call" && src.sym == "ArgMax.0" {
					s := src.args[0]
					what := x.p.fname(f) + ": state of a leaf"
					x.expect("MAP states", "map-state", what, f, src, x.call("ArgMax", 0, s, fr.args[1]), false, s)
					// a leaf's maximiser keeps observed values (C13)
					lv := x.vs.lookup(x.call("ArgMax", 0, s, fr.args[1]), e.key)
					ev, obs := e.val, z.atom("b", "has", fr.args[1], e.key)
					ev = z.ite(obs, z.subst(z.assume(ev, obs, true), map[string]*Form{x.vs.lookup(fr.args[1], e.key).key: lv}), z.assume(ev, obs, false))
					x.expect("MAP states", "map-state", what, f, ev, lv, false, s)
					g := x.given(e.guard, append(x.isKind(s, "leaf"), fact{z.eq0(z.length(x.ch(root))), false})...)
					if !isTrue(g) && !g.opq && !hasSite2(g, s) && !x.ticketCond(g) {
						x.r.bad("map-state", what, x.p.ipos(e.in), fmt.Sprintf("only taken when %s", g))
					}
				}
			}
		}
	}
}

// expectCases compares a value that may read one of several tables, depending on the ticket.
func (x *fx) expectCases(class, rule, what string, f *ssa.Function, got *Form, ws []*tabWrite, want func(*tabWrite) *Form, known ...*Form) {
	gs, vals := x.z.splits(got)
	_ = gs
	for _, v := range vals {
		ok := false
		for _, w := range ws {
			q := &cmpr{z: x.z, known: known}
			if q.cmp(x.wellFormed(v), x.wellFormed(want(w))) == same {
				ok = true
				x.r.ok(class, what+" = "+want(w).String())
				break
			}
		}
		if !ok {
			x.expect(class, rule, what, f, v, want(ws[0]), false, known...)
		}
	}
}

// ticketCond: the condition is about which table to use.
func (x *fx) ticketCond(g *Form) bool {
	ok := true
	for g.op == "ite" {
		if g.args[0].op != "ge0" {
			return false
		}
		if isTrue(g.args[1]) {
			g = g.args[2]
		} else if isTrue(g.args[2]) || isFalse(g.args[2]) {
			g = g.args[1]
		} else {
			return false
		}
	}
	return ok && (isTrue(g) || isFalse(g))
}

// hasSite2: depends on an unknown value other than the node itself.
func hasSite2(f, s *Form) bool {
	in := map[*Form]bool{}
	s.walk(func(g *Form) { in[g] = true })
	b := false
	f.walk(func(g *Form) {
		if g.op == "site" && !in[g] {
			b = true
		}
	})
	return b
}

// substConds replaces conditions of a decision tree.
func (z *forms) substConds(f *Form, m map[string]*Form) *Form {
	if f.op == "ite" {
		c := z.substConds(f.args[0], m)
		return z.ite(c, z.substConds(f.args[1], m), z.substConds(f.args[2], m))
	}
	if g, ok := m[f.key]; ok {
		return g
	}
	return f
}

// rootResult: the function returns what it stored for the root.
func (x *fx) rootResult(f *ssa.Function, i int, ws []*tabWrite) {
	if len(ws) == 0 {
		return
	}
	fr := x.vs.root(f)
	root := fr.args[0]
	got := x.vs.retForm(fr, i)
	for _, w := range ws {
		want := x.read(w, root)
		inner := x.z.eq0(x.z.length(x.ch(root)))
		x.expect("results", "root-value", x.p.fname(f)+": result", f, x.given(got, fact{inner, false}), x.given(want, fact{inner, false}), true, w.tab)
		fs := append(x.isKind(root, "leaf"), fact{inner, true})
		x.expect("results", "root-value", x.p.fname(f)+": result for a single leaf", f, x.given(got, fs...), x.given(want, fs...), true, w.tab)
	}
}
