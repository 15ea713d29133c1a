package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: variables are grouped by the dependences the test finds.

func init() { reg("C21", checkIndep) }

type indeps struct {
	*fx
}

func checkIndep(r *R) {
	x := &indeps{newFx(r)}
	r.rule("the test statistic of a contingency table is the one of its definition with (p-1)(q-1) degrees of freedom, and the answer is independent exactly when the upper tail is at least the significance; every pair of variables that is not connected yet is tested on its own table of joint counts with totals and the given significance, and is connected exactly when it is dependent; sets start as singletons, a union puts one root below the other and a group is everything below a root")
	x.vs.apart = true
	for _, n := range []string{"GTest", "ChiSquareTest"} {
		if f := r.p.fn("utils/indep", n); f != nil && f.Blocks != nil {
			x.try("indep."+n, func() { x.statistic(f, n == "GTest") })
		}
	}
	x.vs.keepCall = func(f *ssa.Function) bool {
		return x.isTest(f) || x.p.rel(f) == "utils" && (f.Name() == "UFVarids" || f.Name() == "Find" || f.Name() == "Union")
	}
	for _, n := range []string{"NewIndepGraph", "NewUFIndepGraph"} {
		if f := r.p.fn("utils/indep", n); f != nil && f.Blocks != nil {
			x.try("indep."+n, func() { x.graph(f) })
		}
	}
	x.try("union-find", func() { x.unionFind() })
	r.floor("independence", 1)
}

func (x *indeps) isTest(f *ssa.Function) bool {
	if f == nil || x.p.rel(f) != "utils/indep" || f.Signature.Recv() != nil {
		return false
	}
	s := f.Signature
	if s.Results().Len() != 1 || !isBool(s.Results().At(0).Type()) || s.Params().Len() < 4 {
		return false
	}
	return s.Params().At(2).Type().String() == "[][]int"
}

// ---- the tests ----

func (x *indeps) statistic(f *ssa.Function, gtest bool) {
	z := x.z
	if !x.isTest(f) {
		x.undecided("indep."+f.Name(), "other parameters")
		return
	}
	what := "indep." + f.Name()
	rule := "test statistic"
	fr := x.vs.root(f)
	p, q, M := fr.args[0], fr.args[1], fr.args[2]
	sig := fr.args[len(fr.args)-1]
	cell := func(i, j *Form) *Form { return z.idx(z.idx(M, i), j) }
	E := func(i, j *Form) *Form { return z.div(z.mul(cell(p, j), cell(i, q)), cell(p, q)) }
	stat := x.over("sum", p, func(i *Form) *Form {
		return x.over("sum", q, func(j *Form) *Form {
			if gtest {
				return z.mul(z.num(2), z.mul(cell(i, j), z.log(z.div(cell(i, j), E(i, j)))))
			}
			d := z.sub(cell(i, j), E(i, j))
			return z.div(z.mul(d, d), E(i, j))
		})
	})
	df := z.mul(z.sub(p, z.num(1)), z.sub(q, z.num(1)))
	cdf := z.atom("call", "distuv.ChiSquared.CDF.0", df, stat)
	want := z.not(z.gt0(z.sub(sig, z.sub(z.num(1), cdf))))
	got := x.vs.retForm(fr, 0)
	// marginal: only totals of the table
	marginal := func(c *Form) bool {
		ok, any := true, false
		var rec func(f *Form)
		rec = func(f *Form) {
			if f.op == "idx" && len(f.args) == 2 && f.args[0].op == "idx" && f.args[0].args[0] == M {
				if f.args[0].args[1] == p || f.args[1] == q {
					any = true
				} else {
					ok = false
				}
				return
			}
			for _, a := range f.args {
				rec(a)
			}
			for _, m := range f.monos2() {
				for _, w := range m.at {
					rec(w.f)
				}
			}
		}
		rec(c)
		return ok && any
	}
	positive := func(f *Form) *Form {
		return z.rewrite(f, func(d *Form) *Form {
			if (d.op == "eq0" || d.op == "eq") && marginal(d) {
				return z.fls()
			}
			if d.op == "gt0" && d.args[0].op == "idx" {
				return z.not(z.eq0(d.args[0]))
			}
			if d.op == "gt0" && len(d.args[0].monos()) == 1 && !marginal(d) {
				if m := d.args[0].monos()[0]; m.c.Sign() > 0 && len(m.at) == 1 && m.at[0].f.op == "idx" && holds(m.at[0].f, M) {
					return z.not(z.eq0(m.at[0].f))
				}
			}
			if d.op == "gt0" && marginal(d) {
				if len(d.args[0].monos()) == 1 {
					return z.boolc(d.args[0].monos()[0].c.Sign() > 0)
				}
			}
			return nil
		})
	}
	zero := func(f *Form) *Form {
		return z.rewrite(f, func(d *Form) *Form {
			if d.op == "eq0" && d.args[0] != sig && holds(d, M) {
				if d.args[0].op == "idx" || len(d.args[0].monos()) == 1 {
					return z.tru()
				}
			}
			return nil
		})
	}
	x.expect("independence", rule, what, f, positive(got), positive(want), false)
	for _, l := range x.vs.nest(f).all {
		for _, ex := range x.vs.exits(fr, l) {
			if isFalse(ex.cond) || ex.cond.opq || hasSite(ex.cond) || hasAcc(ex.cond, fr) || !holds(ex.cond, M) || marginal(ex.cond) {
				continue
			}
			x.r.bad(rule, what, x.p.ipos(ex.b.Instrs[len(ex.b.Instrs)-1]), "cells are left out: the loop is left when "+ex.cond.String())
		}
	}
	if !gtest {
		// a cell that nothing can fall in contributes nothing
		c := got
		var arg *Form
		c.walk(func(g *Form) {
			if g.op == "call" && strings.HasPrefix(g.sym, "distuv.ChiSquared.CDF") {
				arg = g.args[1]
			}
		})
		if arg != nil && !arg.opq {
			x.expect("independence", rule, what+", cells of empty rows and columns", f, zero(arg), z.num(0), false)
		}
		return
	}
	// 0·log 0
	for _, e := range x.vs.events(fr, nil, func(n string) bool { return n == "math.Log" }) {
		if e.kind != "call" || e.name != "math.Log" {
			continue
		}
		a := e.args[0]
		if a.opq || e.guard.opq || len(e.loops) != 2 {
			x.undecided(what, "logarithm")
			continue
		}
		o := cell(e.loops[0].it, e.loops[1].it)
		if !holds(a, o) && !holds(a, cell(e.loops[1].it, e.loops[0].it)) {
			continue
		}
		if !holds(a, o) {
			o = cell(e.loops[1].it, e.loops[0].it)
		}
		g := z.assume(e.guard, z.eq0(o), true)
		g = z.assume(g, z.gt0(o), false)
		switch {
		case isFalse(g):
			x.r.ok("independence", what+": no logarithm of an empty cell")
		case g.opq:
			x.undecided(what, "condition of the logarithm")
		default:
			// guarded by the expected count only: an empty cell with a positive expected count
			x.r.bad(rule, what, x.p.ipos(e.in), "the logarithm of an empty cell is taken: 0·log 0 is not a number")
		}
	}
}

// monos2: the monomials of a polynomial, none for other forms.
func (f *Form) monos2() []mono { return f.mons }

// ---- the graphs ----

func (x *indeps) graph(f *ssa.Function) {
	z, vs, r := x.z, x.vs, x.r
	what := "indep." + f.Name()
	fr := vs.root(f)
	data := fr.args[0]
	vd := x.p.named("utils", "VarData")
	if vd == nil {
		x.undecided(what, "no variable data")
		return
	}
	st, ok := vd.Underlying().(*types.Struct)
	if !ok {
		return
	}
	fidx := func(n string) int {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return i
			}
		}
		return -1
	}
	if fidx("Varid") < 0 || fidx("Categories") < 0 || fidx("Data") < 0 {
		x.undecided(what, "fields of the variable data")
		return
	}
	fld := func(n string, i *Form) *Form { return vs.fieldOf(z.idx(data, i), vd, fidx(n)) }
	n := z.length(data)
	vs.wantFields = true
	evs := vs.events(fr, nil, func(s string) bool {
		if s == "utils.Union" || s == "utils.MakeSet" || s == "utils.UFVarids" || s == "utils.Find" {
			return true
		}
		return strings.HasPrefix(s, "indep.") && x.isTest(x.p.fn("utils/indep", strings.TrimPrefix(s, "indep.")))
	})
	vs.wantFields = false
	var tests, unions, makes, lists, maps, fields []*event
	for _, e := range evs {
		switch {
		case e.kind == "map":
			maps = append(maps, e)
		case e.kind == "field":
			fields = append(fields, e)
		case e.kind != "call":
		case e.name == "utils.Union":
			unions = append(unions, e)
		case e.name == "utils.MakeSet":
			makes = append(makes, e)
		case e.name == "utils.UFVarids":
			lists = append(lists, e)
		case strings.HasPrefix(e.name, "indep."):
			tests = append(tests, e)
		}
	}
	if len(tests) != 1 || len(makes) != 1 || len(unions) != 1 || len(lists) != 1 {
		x.undecided(what, fmt.Sprintf("%d tests, %d sets made, %d unions, %d lists", len(tests), len(makes), len(unions), len(lists)))
		return
	}
	// connected: the condition that two sets are one already
	connected := func(f *Form, v bool) *Form {
		cs := map[*Form]bool{}
		f.walk(func(c *Form) {
			if c.op == "eq" && len(c.args) == 2 && x.findCall(c.args[0]) && x.findCall(c.args[1]) {
				cs[c] = true
			}
		})
		for c := range cs {
			f = z.assume(f, c, v)
		}
		return f
	}
	// leaves: no loop around e is left because of a connection or of what the test says
	leaves := func(w string, e *event, T *Form) {
		for _, l := range e.loops {
			if l.l.fn != fr.fn {
				continue
			}
			for _, ex := range vs.exits(fr, l.l) {
				pos := x.p.ipos(ex.b.Instrs[len(ex.b.Instrs)-1])
				switch c := connected(ex.cond, false); {
				case isTrue(connected(ex.cond, true)) && !isTrue(c):
					r.bad("pairs", w, pos, "the loop is left when two variables are connected already")
				case isTrue(z.assume(c, T, false)) && !isTrue(z.assume(c, T, true)):
					r.bad("pairs", w, pos, "the loop is left when a pair is dependent")
				case isTrue(z.assume(c, T, true)) && !isTrue(z.assume(c, T, false)):
					r.bad("pairs", w, pos, "the loop is left when a pair is independent")
				case isTrue(c):
					r.bad("pairs", w, pos, "the loop is left in its first round")
				}
			}
		}
		x.complete(w, "pairs", e)
	}
	// singletons
	mk := makes[0]
	var node func(i *Form) *Form
	{
		w := what + ", singletons"
		if len(mk.loops) != 1 || mk.loops[0].dom.opq {
			x.undecided(w, "loop")
			return
		}
		it := mk.loops[0].it
		made := vs.at(mk.fr, mk.in.(ssa.Value), mk.in.Block())
		if made.op != "site" || !made.has(it) || mk.fr != fr {
			x.undecided(w, "set")
			return
		}
		node = func(i *Form) *Form { return z.subst(made, map[string]*Form{it.key: i}) }
		if x.expect("independence", "sets", w, f, mk.args[0], fld("Varid", it), false) &&
			x.expect("independence", "sets", w+": how many", f, mk.loops[0].dom, n, false) && x.complete(w, "sets", mk) {
			x.always(w, "sets", mk, mk.guard)
		}
	}
	t := tests[0]
	var I, J *Form
	{
		w := what + ", pairs tested"
		at := func(p *Form) *Form {
			if p.op == "fld" && p.sym == "Categories" && p.args[0].op == "idx" && p.args[0].args[0] == data {
				return p.args[0].args[1]
			}
			return nil
		}
		for _, a := range t.args {
			if a.opq {
				x.undecided(w, "argument of the test: "+a.sym)
				return
			}
		}
		I, J = at(t.args[0]), at(t.args[1])
		if I == nil || J == nil {
			if hasSite(t.args[0]) || hasSite(t.args[1]) {
				x.undecided(w, "number of categories")
			} else {
				r.bad("pairs", w, x.p.ipos(t.in), fmt.Sprintf("the test is given the sizes %s and %s, not the numbers of categories of two variables", t.args[0], t.args[1]))
			}
			return
		}
		x.pairs(w, t, I, J, n)
		g := connected(t.guard, false)
		x.always(w, "pairs", t, g)
		leaves(w, t, vs.at(t.fr, t.in.(ssa.Value), t.in.Block()))
		x.expect("independence", "pairs", what+", significance", f, t.args[len(t.args)-1], fr.args[1], false)
		x.table(what, f, t, I, J, fld)
	}
	// what the answer is used for
	T := vs.at(t.fr, t.in.(ssa.Value), t.in.Block())
	iff := func(w string, e *event, g *Form) {
		d, i := z.assume(g, T, false), z.assume(g, T, true)
		switch {
		case isTrue(d) && isFalse(i):
			r.ok("independence", w+" exactly when the pair is dependent")
		case d.opq || i.opq:
			x.undecided(w, "condition")
		case isFalse(d) && isTrue(i):
			r.bad("dependence", w, x.p.ipos(e.in), "done when the test finds the pair independent")
		case isConstForm(d) && isConstForm(i):
			r.bad("dependence", w, x.p.ipos(e.in), fmt.Sprintf("done for a dependent pair: %s, for an independent pair: %s", d, i))
		case !hasSite(d) && !hasSite(i):
			r.bad("dependence", w, x.p.ipos(e.in), fmt.Sprintf("done when %s for a dependent pair and when %s for an independent pair", d, i))
		default:
			x.undecided(w, "condition "+g.String())
		}
	}
	u := unions[0]
	ends := func(w string, e *event, a, b, i, j *Form) bool {
		if a == i && b == j || a == j && b == i {
			r.ok("independence", w+" joins the two variables")
			return true
		}
		if a.opq || b.opq || hasSite(z.rewrite(a, x.dropNodes(node))) {
			x.undecided(w, "what is joined")
			return false
		}
		r.bad("dependence", w, x.p.ipos(e.in), fmt.Sprintf("joins %s and %s instead of the sets of %s and %s", a, b, i, j))
		return false
	}
	if u.has(T) || len(u.loops) == len(t.loops) && len(u.loops) > 0 && u.loops[len(u.loops)-1].l == t.loops[len(t.loops)-1].l {
		w := what + ", union"
		ends(w, u, u.args[0], u.args[1], node(I), node(J))
		iff(w, u, connected(u.guard, false))
	} else {
		x.edges(what, f, fr, maps, u, t, T, I, J, n, fld, node, connected, iff, leaves)
	}
	// groups
	x.groups(what, f, fr, lists[0], fields, n, node)
}

func (e *event) has(f *Form) bool { return holds(e.guard, f) }

func (x *indeps) dropNodes(node func(*Form) *Form) func(*Form) *Form {
	s := node(x.z.num(0)).sym
	return func(f *Form) *Form {
		if f.op == "site" && f.sym == s {
			return x.z.num(0)
		}
		return nil
	}
}

func (x *indeps) findCall(f *Form) bool {
	if f.op != "site" {
		return false
	}
	c, ok := siteInfo[f.sym].(*ssa.Call)
	if !ok {
		return false
	}
	g := c.Common().StaticCallee()
	return g != nil && x.p.rel(g) == "utils" && g.Name() == "Find"
}

// always: the guard g of e holds.
func (x *indeps) always(w, rule string, e *event, g *Form) bool {
	switch {
	case isTrue(g):
		x.r.ok("independence", w+": in every round")
		return true
	case isFalse(g):
		x.r.bad(rule, w, x.p.ipos(e.in), "never happens for sets that are not connected yet")
	case g.opq || hasSite(g):
		x.undecided(w, "condition "+g.String())
	default:
		x.r.bad(rule, w, x.p.ipos(e.in), "happens only when "+g.String())
	}
	return false
}

// pairs: the loops around the test run over every pair of variables.
func (x *indeps) pairs(w string, t *event, I, J, n *Form) {
	z := x.z
	if len(t.loops) != 2 {
		x.undecided(w, "loops")
		return
	}
	a, b := t.loops[0], t.loops[1]
	if a.dom.opq || b.dom.opq || isDom(a.dom) || isDom(b.dom) {
		x.undecided(w, "loops")
		return
	}
	o, i := I, J // outer and inner variable
	if !o.has(a.it) || o.has(b.it) {
		o, i = J, I
	}
	la, ka, ok := linearIn(o, a.it)
	if !ok || !ka.IsInt() || ka.Num().Int64() != 1 || o.has(b.it) {
		x.undecided(w, "index of the first variable: "+o.String())
		return
	}
	lb, kb, ok := linearIn(i, b.it)
	if !ok || !kb.IsInt() || kb.Num().Int64() != 1 {
		x.undecided(w, "index of the second variable: "+i.String())
		return
	}
	loO, hiO := la, z.add(la, a.dom)
	loI, hiI := lb, z.add(lb, b.dom)
	// in terms of the first variable
	v := z.atom("iter", "first")
	toV := map[string]*Form{a.it.key: z.sub(v, la)}
	loI, hiI = z.subst(loI, toV), z.subst(hiI, toV)
	one := z.num(1)
	up := loO.isNum(0) && (hiO == n || hiO == z.sub(n, one)) && loI == z.add(v, one) && hiI == n
	down := (loO.isNum(0) || loO.isNum(1)) && hiO == n && loI.isNum(0) && hiI == v
	full := loO.isNum(0) && hiO == n && loI.isNum(0) && hiI == n
	switch {
	case up || down || full:
		x.r.ok("independence", w+": every pair of variables")
	case hasSite(loO) || hasSite(hiO) || hasSite(loI) || hasSite(hiI):
		x.undecided(w, "bounds of the loops")
	default:
		x.r.bad("pairs", w, x.p.ipos(t.in), fmt.Sprintf("the pairs tested are those with the first variable from %s to %s and the second from %s to %s (excluded), of %s variables", loO, hiO, loI, hiI, n))
	}
}

// table: the counts given to the test.
func (x *indeps) table(what string, f *ssa.Function, t *event, I, J *Form, fld func(string, *Form) *Form) {
	z := x.z
	M := t.args[2]
	P, Q := t.args[0], t.args[1]
	X, Y := z.atom("iter", "tabX"), z.atom("iter", "tabY")
	di, dj := fld("Data", I), fld("Data", J)
	m := z.length(di)
	norm := func(g *Form) *Form {
		g = z.rewrite(g, func(d *Form) *Form {
			if d.op == "len" && d.args[0] == dj {
				return m
			}
			return nil
		})
		// values are numbers of categories
		return z.rewrite(g, func(d *Form) *Form {
			if d.op == "ge0" {
				for _, c := range []struct{ d, n *Form }{{di, P}, {dj, Q}} {
					for _, mo := range d.args[0].monos() {
						if len(mo.at) == 1 && mo.at[0].f.op == "idx" && mo.at[0].f.args[0] == c.d {
							v := mo.at[0].f
							if d.args[0] == v || d.args[0] == z.sub(z.sub(c.n, z.num(1)), v) {
								return z.tru()
							}
							if d.args[0] == z.sub(v, c.n) || d.args[0] == z.sub(z.neg(v), z.num(1)) {
								return z.fls()
							}
						}
					}
				}
			}
			if d.op == "eq0" {
				for _, c := range []struct{ d, n *Form }{{di, P}, {dj, Q}} {
					for _, mo := range d.args[0].monos() {
						if len(mo.at) == 1 && mo.at[0].f.op == "idx" && mo.at[0].f.args[0] == c.d {
							v := mo.at[0].f
							if d.args[0] == z.sub(v, c.n) || d.args[0] == z.sub(c.n, v) {
								return z.fls()
							}
						}
					}
				}
			}
			return nil
		})
	}
	is := func(d, k, v *Form) *Form { return z.eq0(z.sub(z.idx(d, k), v)) }
	count := func(v, w *Form) *Form {
		return x.over("sum", m, func(k *Form) *Form {
			g := z.num(1)
			if v != nil {
				g = z.ite(is(di, k, v), g, z.num(0))
			}
			if w != nil {
				g = z.ite(is(dj, k, w), g, z.num(0))
			}
			return g
		})
	}
	sumX := func(b func(v *Form) *Form) *Form { return x.over("sum", P, b) }
	sumY := func(b func(v *Form) *Form) *Form { return x.over("sum", Q, b) }
	at := func(i, j *Form) *Form {
		g := z.idx(z.idx(M, i), j)
		if i == X {
			g = z.within(g, X, P)
		}
		if j == Y {
			g = z.within(g, Y, Q)
		}
		return norm(g)
	}
	one := func(w string, got *Form, wants ...*Form) {
		if got.opq {
			x.undecided(w, got.sym)
			return
		}
		v, why := different, ""
		for i, want := range wants {
			want = norm(want)
			if i == 0 || v != same {
				q := &cmpr{z: z}
				c := q.cmp(got, want)
				if c == same {
					v = same
				} else if c == unknown && v == different {
					v = unknown
					why = q.why
				} else if i == 0 {
					why = q.why
				}
			}
		}
		switch v {
		case same:
			x.r.ok("independence", w)
		case unknown:
			x.undecided(w, why)
		default:
			x.r.bad("table of counts", w, x.p.ipos(t.in), why)
		}
	}
	if M.op != "arr" && M.op != "lit" {
		x.undecided(what+", table", "not a table made here: "+M.String())
		return
	}
	one(what+", joint counts", at(X, Y), count(X, Y))
	one(what+", totals of rows", at(X, Q), sumY(func(v *Form) *Form { return count(X, v) }), count(X, nil))
	one(what+", totals of columns", at(P, Y), sumX(func(v *Form) *Form { return count(v, Y) }), count(nil, Y))
	one(what+", total", at(P, Q), count(nil, nil),
		sumX(func(v *Form) *Form { return sumY(func(w *Form) *Form { return count(v, w) }) }),
		sumY(func(w *Form) *Form { return sumX(func(v *Form) *Form { return count(v, w) }) }),
		sumX(func(v *Form) *Form { return count(v, nil) }),
		sumY(func(v *Form) *Form { return count(nil, v) }))
}

// edges: dependent pairs are remembered as edges and joined afterwards.
func (x *indeps) edges(what string, f *ssa.Function, fr *frame, maps []*event, u, t *event, T, I, J, n *Form, fld func(string, *Form) *Form, node func(*Form) *Form, connected func(*Form, bool) *Form, iff func(string, *event, *Form), leaves func(string, *event, *Form)) {
	z, vs, r := x.z, x.vs, x.r
	w := what + ", edges"
	vi, vj := fld("Varid", I), fld("Varid", J)
	var es []*event
	var back *event
	for _, e := range maps {
		if e.val.op == "append" && e.val.args[1].op == "lit" && len(e.val.args[1].args) == 1 {
			es = append(es, e)
		}
		if len(e.loops) == 1 && e.val == e.loops[0].it {
			back = e
		}
	}
	if len(es) == 0 || len(es) > 2 {
		x.undecided(w, fmt.Sprintf("%d edges", len(es)))
		return
	}
	good := true
	for _, e := range es {
		v := e.val.args[1].args[0]
		if !(e.key == vi && v == vj || e.key == vj && v == vi) {
			if e.key.opq || v.opq || hasSite(e.key) || hasSite(v) {
				x.undecided(w, "ends of the edge")
			} else {
				r.bad("dependence", w, x.p.ipos(e.in), fmt.Sprintf("the edge joins %s and %s, the pair tested is %s and %s", e.key, v, vi, vj))
			}
			good = false
			continue
		}
		if e.val.args[0] != vs.lookup(e.base, e.key) {
			x.undecided(w, "edges before")
			good = false
		}
		iff(w, e, e.guard)
	}
	if !good {
		return
	}
	w = what + ", union"
	if len(u.loops) != 2 || back == nil {
		x.undecided(w, "loops")
		return
	}
	a, b := u.loops[0], u.loops[1]
	adj := es[0].base
	lst := vs.lookup(adj, fld("Varid", a.it))
	if back.key == fld("Varid", back.loops[0].it) && back.loops[0].dom == n && isTrue(back.guard) {
		x.r.ok("independence", what+": positions of the variables")
	} else {
		x.undecided(w, "positions of the variables")
		return
	}
	if a.dom != n && a.dom != z.sub(n, z.num(1)) || len(es) < 2 && a.dom != n {
		if a.dom.opq || hasSite(a.dom) {
			x.undecided(w, "loop over the variables")
		} else {
			r.bad("dependence", w, x.p.ipos(u.in), fmt.Sprintf("the edges of %s of %s variables are followed", a.dom, n))
		}
		return
	}
	if b.dom != z.length(lst) {
		if b.dom.opq || !holds(b.dom, lst) {
			x.undecided(w, "loop over the edges")
		} else {
			r.bad("dependence", w, x.p.ipos(u.in), fmt.Sprintf("%s edges are followed instead of %s", b.dom, z.length(lst)))
		}
		return
	}
	leaves(w, u, T)
	other := vs.lookup(back.base, z.idx(lst, b.it))
	p, q := node(a.it), node(other)
	if u.args[0] == p && u.args[1] == q || u.args[0] == q && u.args[1] == p {
		r.ok("independence", w+" joins the ends of every edge")
	} else if p0, p1 := u.args[0], u.args[1]; p0.sym == p.sym && p1.sym == p.sym && !p0.opq && !p1.opq && !holds(p0, lst) && !holds(p1, lst) {
		r.bad("dependence", w, x.p.ipos(u.in), fmt.Sprintf("joins %s and %s, whatever the edge", p0, p1))
	} else {
		x.undecided(w, fmt.Sprintf("joins %s and %s", u.args[0], u.args[1]))
	}
	x.always(w, "dependence", u, connected(u.guard, false))
}

// groups: the groups are what lies below the roots.
func (x *indeps) groups(what string, f *ssa.Function, fr *frame, e *event, fields []*event, n *Form, node func(*Form) *Form) {
	r := x.r
	w := what + ", groups"
	if len(e.loops) != 1 || e.loops[0].dom.opq || e.fr != fr {
		x.undecided(w, "loop")
		return
	}
	it := e.loops[0].it
	if !x.expect("independence", "groups", w+": variables looked at", f, e.loops[0].dom, n, false) || !x.complete(w, "groups", e) {
		return
	}
	if e.args[0] != node(it) {
		x.undecided(w, "which set is listed")
		return
	}
	// the condition: the set is a root
	lp := e.loops[0].l
	call := e.in.(*ssa.Call)
	conds := 0
	if isTrue(e.guard) {
		r.bad("groups", w, x.p.ipos(call), "a group is listed for every variable, not for every root")
		return
	}
	var verdict = "?"
	for b := call.Block(); b != nil && b != lp.head; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(d.Succs) != 2 || d == lp.head {
			continue
		}
		ifi := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if len(b.Preds) != 1 {
			continue
		}
		pos := d.Succs[0] == b
		if c := x.vs.at(fr, ifi.Cond, d); c.op == "eq" && !pos && len(c.args) == 2 && (c.args[0] == node(it) && c.args[1].sym == "nil" || c.args[1] == node(it) && c.args[0].sym == "nil") {
			continue
		}
		if bo, ok := ifi.Cond.(*ssa.BinOp); ok && bo.Op == token.NEQ && pos {
			if c, ok := bo.Y.(*ssa.Const); ok && c.Value == nil && x.vs.at(fr, bo.X, d) == node(it) {
				continue
			}
		}
		conds++
		verdict = x.rootTest(fr, ifi.Cond, pos, node(it))
	}
	switch {
	case conds == 0:
		r.bad("groups", w, x.p.ipos(call), "a group is listed for every variable, not for every root")
		return
	case conds > 1 || verdict == "?":
		x.undecided(w, "condition")
		return
	case verdict == "no":
		r.bad("groups", w, x.p.ipos(call), "a group is listed for the sets that are not roots")
		return
	}
	r.ok("independence", w+": one for every root")
	// it becomes a member of the result
	kept := false
	T := x.vs.at(fr, call, call.Block())
	for _, s := range fields {
		if s.name == "Kset" && s.val.op == "append" && len(s.val.args) == 2 && s.val.args[1].op == "lit" && len(s.val.args[1].args) == 1 && s.val.args[1].args[0] == T {
			if s.val.args[0].op == "fld" && s.val.args[0].sym == "Kset" && s.in.Block() == call.Block() {
				kept = true
			}
		}
	}
	if kept {
		r.ok("independence", w+": kept")
	} else {
		x.undecided(w, "result")
	}
}

// rootTest: "yes" if the condition says that the set is a root, "no" if it says it is not.
func (x *indeps) rootTest(fr *frame, c ssa.Value, pos bool, node *Form) string {
	b, ok := c.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return "?"
	}
	self := func(v ssa.Value) bool { return x.vs.at(fr, v, b.Block()) == node }
	parent := func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.UnOp:
			if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL && fieldName(fa) == "Pa" {
				return self(fa.X)
			}
		case *ssa.Call:
			g := y.Common().StaticCallee()
			return g != nil && g.Name() == "Find" && len(y.Common().Args) == 1 && self(y.Common().Args[0])
		}
		return false
	}
	if !(self(b.X) && parent(b.Y) || self(b.Y) && parent(b.X)) {
		return "?"
	}
	if (b.Op == token.EQL) == pos {
		return "yes"
	}
	return "no"
}

// ---- union-find ----

func (x *indeps) unionFind() {
	z, vs, r := x.z, x.vs, x.r
	typ := x.p.named("utils", "UFNode")
	if typ == nil {
		return
	}
	fld := func(n string, o *Form) *Form {
		st := typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return vs.fieldOf(o, typ, i)
			}
		}
		return z.opaque("no field " + n)
	}
	keep := vs.keepCall
	find := func(n string) bool { return n == "utils.Find" }
	if f := x.p.fn("utils", "MakeSet"); f != nil && f.Blocks != nil {
		fr := vs.root(f)
		res := vs.retForm(fr, 0)
		vs.wantFields = true
		evs := vs.events(fr, nil, find)
		vs.wantFields = false
		last := map[string]*Form{}
		straight := true
		for _, e := range evs {
			if e.kind == "field" && e.base == res {
				last[e.name] = e.val
				if !isTrue(e.guard) || len(e.loops) > 0 {
					straight = false
				}
			}
		}
		if res.op != "site" || !straight {
			x.undecided("utils.MakeSet", "result")
		} else {
			get := func(n string, zero *Form) *Form {
				if v := last[n]; v != nil {
					return v
				}
				return zero
			}
			x.expect("independence", "sets", "utils.MakeSet: its own root", f, get("Pa", z.atom("const", "nil")), res, false, res)
			x.expect("independence", "sets", "utils.MakeSet: variable", f, get("varid", z.num(0)), fr.args[0], false)
			if c := get("Ch", z.atom("const", "nil")); isEmpty(c) {
				r.ok("independence", "utils.MakeSet: nothing below it")
			} else if c.opq {
				x.undecided("utils.MakeSet", "children")
			} else {
				r.bad("sets", "utils.MakeSet", x.p.pos(f.Pos()), "a new set already has something below it: "+c.String())
			}
		}
	}
	if f := x.p.fn("utils", "UFVarids"); f != nil && f.Blocks != nil {
		vs.keepCall = nil
		fr := vs.root(f)
		o := fr.args[0]
		got := vs.retForm(fr, 0)
		vs.keepCall = keep
		ch := fld("Ch", o)
		got = z.assume(got, z.eq0(z.length(ch)), false)
		it := z.atom("iter", "below")
		rec := z.atom("call", f.String()+".0", z.idx(ch, it))
		below := z.binder("coll", "", z.length(ch), it, rec)
		own := z.atom("lit", "", fld("varid", o))
		switch {
		case got == z.appendForm(own, below) || got == z.appendForm(below, own):
			r.ok("independence", "utils.UFVarids lists the variable and everything below it")
		case got.opq || hasSite(got):
			x.undecided("utils.UFVarids", "result "+got.String())
		case !holds(got, fld("varid", o)):
			r.bad("groups", "utils.UFVarids", x.p.pos(f.Pos()), "the variable of the root is missing: "+got.String())
		case !holds(got, ch):
			r.bad("groups", "utils.UFVarids", x.p.pos(f.Pos()), "what lies below the root is missing: "+got.String())
		default:
			ok := true
			got.walk(func(g *Form) {
				if g.op == "coll" && g.args[0] != z.length(ch) && !isDom(g.args[0]) && !g.args[0].opq && holds(g.args[0], ch) {
					ok = false
				}
			})
			deep := false
			got.walk(func(g *Form) {
				if g.op == "call" {
					deep = true
				}
			})
			if !deep {
				r.bad("groups", "utils.UFVarids", x.p.pos(f.Pos()), "only what lies directly below the root is listed: "+got.String())
			} else if !ok {
				r.bad("groups", "utils.UFVarids", x.p.pos(f.Pos()), "not everything below the root is listed: "+got.String())
			} else {
				x.undecided("utils.UFVarids", "result "+got.String())
			}
		}
	}
	if f := x.p.fn("utils", "Find"); f != nil && f.Blocks != nil {
		x.try("utils.Find", func() {
			fr := vs.root(f)
			o := fr.args[0]
			pa := fld("Pa", o)
			got := vs.retForm(fr, 0)
			root := z.eq(o, pa)
			if y := z.assume(got, root, true); y == o || y == pa {
				r.ok("independence", "utils.Find: a root is its own representative")
			} else if y.opq || hasSite(y) {
				x.undecided("utils.Find", "result for a root")
			} else {
				r.bad("sets", "utils.Find", x.p.pos(f.Pos()), "the representative of a root is "+y.String())
			}
			vs.wantFields = true
			evs := vs.events(fr, nil, find)
			vs.wantFields = false
			no := z.assume(got, root, false)
			var call *Form
			for _, e := range evs {
				if e.kind == "call" && len(e.args) == 1 && e.args[0] == pa {
					call = vs.at(fr, e.in.(ssa.Value), e.in.Block())
				}
			}
			switch {
			case call != nil && no == call:
				r.ok("independence", "utils.Find: the representative is the parent's")
			case no == pa || no == o:
				r.bad("sets", "utils.Find", x.p.pos(f.Pos()), "the representative of a node that is not a root is "+no.String()+", which need not be a root")
			default:
				x.undecided("utils.Find", "result "+no.String())
			}
			for _, e := range evs {
				if e.kind != "field" || ownSite(e.base) {
					continue
				}
				switch {
				case e.base.opq || e.val.opq && e.name != "Ch":
					x.undecided("utils.Find", "compression")
				case e.name == "Ch":
					r.bad("sets", "utils.Find", x.p.ipos(e.in), "looking up a representative changes what lies below a node")
				case e.name == "Pa" && e.base == o && call != nil && e.val == call:
					r.ok("independence", "utils.Find: path compression keeps the representative")
				case e.name == "Pa" && !hasSite(e.val):
					g := z.assume(e.guard, root, false)
					if !isFalse(g) && e.val != fld("Pa", pa) {
						r.bad("sets", "utils.Find", x.p.ipos(e.in), fmt.Sprintf("the parent of %s becomes %s", e.base, e.val))
					}
				}
			}
		})
	}
	if f := x.p.fn("utils", "Union"); f != nil && f.Blocks != nil {
		x.try("utils.Union", func() { x.union(f, fld) })
	}
}

// union: for two different roots, one becomes the parent of the other and gets it as a child.
func (x *indeps) union(f *ssa.Function, fld func(string, *Form) *Form) {
	z, vs, r := x.z, x.vs, x.r
	fr := vs.root(f)
	vs.wantFields = true
	evs := vs.events(fr, nil, func(n string) bool { return n == "utils.Find" })
	vs.wantFields = false
	var roots []*Form
	for _, e := range evs {
		if e.kind == "call" {
			for i := 0; i < 2; i++ {
				if e.args[0] == fr.args[i] && isTrue(e.guard) {
					roots = append(roots, vs.at(e.fr, e.in.(ssa.Value), e.in.Block()))
				}
			}
		}
	}
	if len(roots) != 2 || roots[0] == roots[1] {
		for _, e := range evs {
			if e.kind == "field" && e.name == "Pa" && (e.base == fr.args[0] || e.base == fr.args[1]) {
				r.bad("sets", "utils.Union", x.p.ipos(e.in), "the parent of an element that need not be a root is replaced")
				return
			}
		}
		x.undecided("utils.Union", "representatives")
		return
	}
	a, b := roots[0], roots[1]
	same := z.eq(a, b)
	// cases over the conditions of the writes
	conds := map[string]*Form{}
	var pas, chs []*event
	for _, e := range evs {
		if e.kind != "field" || e.name != "Pa" && e.name != "Ch" {
			continue
		}
		if e.base.opq || e.val.opq || e.guard.opq || len(e.loops) > 0 {
			x.undecided("utils.Union", "what is written")
			return
		}
		if e.name == "Pa" {
			pas = append(pas, e)
		} else {
			chs = append(chs, e)
		}
		e.guard.walk(func(c *Form) {
			if c.op == "ite" && c.args[0].op != "ite" && c.args[0] != same {
				conds[c.args[0].key] = c.args[0]
			}
		})
		if g := z.assume(e.guard, same, false); g.op != "ite" && !isConstForm(g) {
			conds[g.key] = g
		}
	}
	var cs []*Form
	for _, k := range sortedKeys(conds) {
		cs = append(cs, conds[k])
	}
	if len(cs) > 6 {
		x.undecided("utils.Union", "too many cases")
		return
	}
	for m := 0; m < 1<<len(cs); m++ {
		possible := true
		in := func(e *event) bool {
			g := z.assume(e.guard, same, false)
			for i, c := range cs {
				g = z.assume(g, c, m>>i&1 == 1)
			}
			if !isConstForm(g) {
				possible = false
			}
			return isTrue(g)
		}
		// contradictory cases
		for i := range cs {
			c := cs[i]
			for k := range cs {
				if k != i {
					c = z.assume(c, cs[k], m>>k&1 == 1)
				}
			}
			if isTrue(c) && m>>i&1 == 0 || isFalse(c) && m>>i&1 == 1 {
				possible = false
			}
		}
		if !possible {
			continue
		}
		var ps, ds []*event
		for _, e := range pas {
			if in(e) {
				ps = append(ps, e)
			}
		}
		for _, e := range chs {
			if in(e) {
				ds = append(ds, e)
			}
		}
		if !possible {
			continue
		}
		where := ""
		for i, c := range cs {
			if m>>i&1 == 1 {
				where += " when " + c.String()
			} else {
				where += " unless " + c.String()
			}
		}
		if len(ps) != 1 {
			r.bad("sets", "utils.Union", x.p.pos(f.Pos()), fmt.Sprintf("%d parents are set%s", len(ps), where))
			return
		}
		lo, hi := ps[0].base, ps[0].val
		if !(lo == a && hi == b || lo == b && hi == a) {
			if hasSite(lo) && lo != a && lo != b || hasSite(hi) && hi != a && hi != b {
				x.undecided("utils.Union", "parent")
			} else {
				r.bad("sets", "utils.Union", x.p.ipos(ps[0].in), fmt.Sprintf("the parent of %s becomes %s%s: not one representative below the other", lo, hi, where))
			}
			return
		}
		if len(ds) != 1 {
			r.bad("groups", "utils.Union", x.p.pos(f.Pos()), fmt.Sprintf("%d lists of children are changed%s", len(ds), where))
			return
		}
		d := ds[0]
		want := z.appendForm(fld("Ch", hi), z.atom("lit", "", lo))
		if d.base == hi && d.val == want {
			continue
		}
		if d.base != a && d.base != b || hasSite(d.val) && !holds(d.val, a) && !holds(d.val, b) {
			x.undecided("utils.Union", "children")
			return
		}
		r.bad("groups", "utils.Union", x.p.ipos(d.in), fmt.Sprintf("the children of %s become %s%s, expected %s for %s", d.base, d.val, where, want, hi))
		return
	}
	for _, e := range append(pas, chs...) {
		g := z.rewrite(z.assume(e.guard, same, true), func(d *Form) *Form {
			if d == b {
				return a
			}
			return nil
		})
		if isTrue(g) {
			r.bad("sets", "utils.Union", x.p.ipos(e.in), "a set is joined with itself")
			return
		}
	}
	r.ok("independence", "utils.Union puts one root below the other")
}
