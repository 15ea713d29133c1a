package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: instances keep their values and their labels through dataset manipulation.

func init() { reg("C04", checkDatasets) }

func checkDatasets(r *R) {
	x := newFx(r)
	r.rule("every instance in a result holds exactly the values of one instance of the input (less the variable removed, plus the variable merged in); its label, at the same position of the label result, is the label of that same instance; joining, copying, subtracting and dividing take each instance exactly once and in the documented place")
	z := x.z
	fn := func(name string, body func(f *ssa.Function, fr *frame, d *dset)) {
		f := r.p.fn("data", name)
		if f == nil || f.Blocks == nil {
			return
		}
		x.try("data."+name, func() {
			fr := x.vs.root(f)
			body(f, fr, &dset{fx: x, f: f, fr: fr, evs: x.vs.events(fr, nil, func(n string) bool { return n == "delete" }), name: "data." + name})
		})
	}
	null := func(a *Form) *Form { return z.eq(z.atom("const", "nil"), a) }
	n := z.length
	fn("Copy", func(f *ssa.Function, fr *frame, d *dset) {
		D, L := fr.args[0], fr.args[1]
		for _, lab := range []bool{true, false} {
			fs := []fact{{null(L), !lab}, {z.eq0(z.sub(n(D), n(L))), lab}}
			d.is(fmt.Sprintf("instances (labels %v)", lab), 0, d.array(n(D), func(i *Form) *Form { return z.idx(D, i) }), fs...)
			if lab {
				d.is("labels", 1, d.array(n(D), func(i *Form) *Form { return z.idx(L, i) }), fs...)
			}
		}
	})
	fn("Join", func(f *ssa.Function, fr *frame, d *dset) {
		D, E, L, M := fr.args[0], fr.args[1], fr.args[2], fr.args[3]
		for _, lab := range []bool{true, false} {
			fs := []fact{{null(L), !lab}, {null(M), !lab}, {z.eq0(z.sub(n(D), n(L))), lab}, {z.eq0(z.sub(n(E), n(M))), lab}}
			cat := func(A, B *Form) *Form {
				return d.array(z.add(n(D), n(E)), func(i *Form) *Form {
					return z.ite(z.ge0(z.sub(i, n(D))), z.idx(B, z.sub(i, n(D))), z.idx(A, i))
				})
			}
			d.is(fmt.Sprintf("instances (labels %v)", lab), 0, cat(D, E), fs...)
			if lab {
				d.is("labels", 1, cat(L, M), fs...)
			}
		}
	})
	fn("SubtractLabel", func(f *ssa.Function, fr *frame, d *dset) {
		D, L, l := fr.args[0], fr.args[1], fr.args[2]
		part := func(A *Form, with bool, v func(i *Form) *Form) *Form {
			return d.collect(n(L), func(i *Form) *Form {
				c := z.eq0(z.sub(z.idx(L, i), l))
				skip, take := z.atom("const", "skip"), z.atom("lit", "", v(i))
				if with {
					return z.ite(c, take, skip)
				}
				return z.ite(c, skip, take)
			})
		}
		fs := []fact{{z.eq0(z.sub(n(D), n(L))), true}}
		d.is("instances of other labels", 0, part(D, false, func(i *Form) *Form { return z.idx(D, i) }), fs...)
		d.is("labels of the others", 1, part(L, false, func(i *Form) *Form { return z.idx(L, i) }), fs...)
		d.is("instances of the label", 2, part(D, true, func(i *Form) *Form { return z.idx(D, i) }), fs...)
		d.either("labels of the label", 3, fs, part(L, true, func(i *Form) *Form { return l }), part(L, true, func(i *Form) *Form { return z.idx(L, i) }))
	})
	fn("SubtractVariable", func(f *ssa.Function, fr *frame, d *dset) {
		D, v := fr.args[0], z.atom("fld", "Varid", fr.args[1])
		d.is("instances", 0, d.array(n(D), func(i *Form) *Form { return z.atom("row", "minus", z.idx(D, i), v) }))
	})
	fn("MergeLabel", func(f *ssa.Function, fr *frame, d *dset) {
		D, L, v := fr.args[0], fr.args[1], z.atom("fld", "Varid", fr.args[2])
		d.is("instances", 0, d.array(n(D), func(i *Form) *Form { return z.atom("row", "plus", z.idx(D, i), v, z.idx(L, i)) }))
	})
	fn("ExtractLabels", func(f *ssa.Function, fr *frame, d *dset) {
		S, D := fr.args[0], fr.args[1]
		last := func(i *Form) *Form {
			m := z.idx(D, i)
			it := d.bound()
			return z.extr("max2", z.reduce("max", z.atom("maprange", "", m), it, z.atom("key", "", m, it)), z.num(0))
		}
		d.is("scope", 0, S)
		d.is("instances", 1, d.array(n(D), func(i *Form) *Form { return z.atom("row", "minus", z.idx(D, i), last(i)) }))
		d.is("label variable", 2, z.atom("map", "", S, z.sub(z.length(S), z.num(1))))
		d.is("labels", 3, d.array(n(D), func(i *Form) *Form { return z.atom("map", "", z.idx(D, i), last(i)) }))
	})
	fn("Split", func(f *ssa.Function, fr *frame, d *dset) {
		D, L := fr.args[0], fr.args[2]
		d.scatter([]scat{{res: 0, dims: []*Form{n(L)}, alt: [][]*Form{{n(D)}}, key: func(i []*Form) *Form { return z.idx(L, i[0]) }, val: func(i []*Form) *Form { return z.idx(D, i[0]) }}})
	})
	fn("Divide", func(f *ssa.Function, fr *frame, d *dset) {
		D, L, k := fr.args[0], fr.args[1], fr.args[2]
		m := n(D)
		q, rem := x.vs.intop("idiv", m, k), x.vs.intop("mod", m, k)
		var ss []scat
		for i, A := range []*Form{D, L} {
			A := A
			ss = append(ss, scat{res: i, dims: []*Form{k, q}, key: func(i []*Form) *Form { return i[0] }, val: func(i []*Form) *Form { return z.idx(A, z.add(z.mul(i[0], q), i[1])) }})
			ss = append(ss, scat{res: i, dims: []*Form{rem}, key: func(i []*Form) *Form { return i[0] },
				val:  func(i []*Form) *Form { return z.idx(A, z.sub(z.sub(m, z.num(1)), i[0])) },
				val2: func(i []*Form) *Form { return z.idx(A, z.add(z.mul(k, q), i[0])) }})
		}
		d.scatter(ss)
	})
	fn("Identical", func(f *ssa.Function, fr *frame, d *dset) { d.identical() })
	x.partitions("Partition", false)
	x.partitions("PartitionByLabels", true)
	fn("Shuffle", func(f *ssa.Function, fr *frame, d *dset) { d.shuffle() })
	r.floor("rows and labels", 1)
}

type dset struct {
	*fx
	f    *ssa.Function
	fr   *frame
	evs  []*event
	name string
}

func (d *dset) bound() *Form {
	it := d.z.atom("iter", fmt.Sprintf("spec%d", specN))
	specN++
	return it
}

func (d *dset) array(n *Form, body func(i *Form) *Form) *Form {
	it := d.bound()
	return d.z.mkArr(n, it, body(it))
}

func (d *dset) collect(n *Form, body func(i *Form) *Form) *Form {
	it := d.bound()
	return d.z.binder("coll", "", n, it, body(it))
}

func (d *dset) is(what string, i int, want *Form, fs ...fact) {
	d.either(what, i, fs, want)
}

// either: the result is one of several equivalent forms.
func (d *dset) either(what string, i int, fs []fact, wants ...*Form) {
	whole := func(f *Form) *Form {
		// a copy of all of a slice is the slice
		return d.z.rewrite(d.given(f, fs...), func(g *Form) *Form {
			if g.op == "arr" {
				it := d.bound()
				e := d.z.open(g, it)
				if e.op == "idx" && e.args[1] == it && !e.args[0].has(it) && d.given(d.z.length(e.args[0]), fs...) == g.args[0] {
					return e.args[0]
				}
			}
			return nil
		})
	}
	got := whole(d.rows(d.given(d.vs.retForm(d.fr, i), fs...)))
	if got.op == "append" && len(got.args) == 2 {
		n := d.z.length(got.args[0])
		a, b := got.args[0], got.args[1]
		got = whole(d.array(d.z.add(n, d.z.length(b)), func(i *Form) *Form {
			return d.z.ite(d.z.ge0(d.z.sub(i, n)), d.z.idx(b, d.z.sub(i, n)), d.z.idx(a, i))
		}))
	}
	for k, w := range wants {
		w = whole(w)
		wants[k] = w
		q := &cmpr{z: d.z}
		if q.cmp(d.wellFormed(got), d.wellFormed(w)) == same {
			d.r.ok("rows and labels", d.name+": "+what+" = "+w.String())
			return
		}
	}
	d.expect("rows and labels", "dataset", d.name+": "+what, d.f, got, d.given(wants[0], fs...), false)
}

// rows replaces maps made by the function by what they hold.
func (d *dset) rows(f *Form) *Form {
	return d.z.rewrite(f, func(g *Form) *Form {
		if g.op == "site" && strings.HasPrefix(g.sym, "map") {
			return d.row(g)
		}
		return nil
	})
}

// row: the contents of a map made by the function.
func (d *dset) row(s *Form) *Form {
	z := d.z
	var res *Form
	made := z.tru()
	if in, ok := siteInfo[s.sym].(ssa.Instruction); ok {
		fr := siteFrame[s.sym]
		made = d.vs.reach(fr, d.vs.loopOf(in.Block()), in.Block())
	}
	type op struct {
		key, val *Form
		del      bool
	}
	var ops []op
	for _, e := range d.evs {
		base := e.base
		if e.kind == "call" && e.name == "delete" {
			base = e.args[0]
		} else if e.kind != "map" {
			continue
		}
		if base.op != "site" || base.sym != s.sym {
			if base.opq || base.op == "ite" && hasSite(base) {
				return z.opaque("a map filled indirectly")
			}
			continue
		}
		if len(base.args) != len(s.args) {
			return z.opaque("map")
		}
		sub := map[string]*Form{}
		for i, a := range base.args {
			sub[a.key] = s.args[i]
		}
		g := z.implied(made, e.guard)
		if e.kind == "call" {
			if !isTrue(g) {
				return z.opaque("removed conditionally")
			}
			ops = append(ops, op{key: z.subst(e.args[1], sub), del: true})
			continue
		}
		if len(e.loops) > 0 {
			l := e.loops[len(e.loops)-1]
			if l.dom.op == "maprange" && e.key.has(l.it) {
				src := l.dom.args[0]
				if e.key != z.atom("key", "", src, l.it) || e.val != z.atom("map", "", src, e.key) {
					return z.opaque("map filled differently: " + e.key.String() + " " + e.val.String())
				}
				if d.vs.breaks(l.l) {
					return z.atom("row", "part", z.subst(src, sub))
				}
				if res != nil {
					return z.opaque("map filled twice")
				}
				src2 := z.subst(src, sub)
				switch {
				case isTrue(g):
					res = src2
				case g.op == "ite" && isFalse(g.args[1]) && isTrue(g.args[2]) && g.args[0].op == "eq0":
					// all but one key
					p := g.args[0].args[0]
					a, c, ok := linearIn(p, e.key)
					if !ok || a.has(e.key) {
						return z.opaque("filter")
					}
					k := z.neg(z.div(a, z.rat(c)))
					res = z.atom("row", "minus", src2, z.subst(k, sub))
				case g.opq || hasSite(g):
					return z.opaque("filter")
				default:
					res = z.atom("row", "filter", src2, z.subst(z.subst(g, map[string]*Form{e.key.key: z.atom("leaf", "key")}), sub))
				}
				continue
			}
		}
		if !isTrue(g) || len(e.loops) > len(base.args) {
			return z.opaque("entry set conditionally")
		}
		ops = append(ops, op{key: z.subst(e.key, sub), val: z.subst(e.val, sub)})
	}
	if res == nil {
		if len(ops) == 0 {
			return z.opaque("map not filled here")
		}
		return z.opaque("map built entry by entry")
	}
	for _, o := range ops {
		if o.del {
			res = z.atom("row", "minus", res, o.key)
		} else {
			res = z.atom("row", "plus", res, o.key, o.val)
		}
	}
	return res
}

// scat: for every combination of counters below dims, val is appended to part key of result res.
type scat struct {
	res       int
	dims      []*Form
	alt       [][]*Form
	key       func(i []*Form) *Form
	val, val2 func(i []*Form) *Form
}

func (d *dset) scatter(want []scat) {
	z := d.z
	// the slices returned
	ident := map[int]*Form{}
	for _, b := range d.f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, v := range r.Results {
				ident[i] = d.vs.at(d.fr, v, b)
			}
		}
	}
	used := map[int]bool{}
	for _, e := range d.evs {
		if e.kind != "elem" {
			continue
		}
		res := -1
		for i, f := range ident {
			if f == e.base {
				res = i
			}
		}
		if res < 0 {
			continue
		}
		what := fmt.Sprintf("%s: part of result %d", d.name, res)
		if e.val.op != "append" || e.val.args[1].op != "lit" || len(e.val.args[1].args) != 1 {
			d.undecided(what, "not an append: "+e.val.String())
			continue
		}
		val := d.rows(e.val.args[1].args[0])
		var its, doms []*Form
		brk := false
		for _, l := range e.loops {
			its, doms = append(its, l.it), append(doms, l.dom)
			brk = brk || d.vs.breaks(l.l)
		}
		if brk {
			d.undecided(what, "loop with a break")
			continue
		}
		done := false
		cand := 0
		why := ""
		for k, w := range want {
			if w.res != res || used[k] {
				continue
			}
			ok := sameForms(doms, w.dims)
			for _, a := range w.alt {
				ok = ok || sameForms(doms, a)
			}
			if !ok {
				if len(doms) == len(w.dims) {
					why = fmt.Sprintf("loops over %v, expected %v", doms, w.dims)
				}
				continue
			}
			cand++
			v := []*Form{w.val(its)}
			if w.val2 != nil {
				v = append(v, w.val2(its))
			}
			okv := false
			for _, y := range v {
				okv = okv || y == val
			}
			if e.key == w.key(its) && okv && isTrue(e.guard) {
				used[k], done = true, true
				d.r.ok("rows and labels", fmt.Sprintf("%s %s gets %s", what, e.key, val))
				break
			}
			why = fmt.Sprintf("part %s gets %s when %s, expected part %s to get %s", e.key, val, e.guard, w.key(its), w.val(its))
		}
		if !done {
			und := e.key.opq || val.opq || e.guard.opq || hasSite(e.key) || hasSite(val) || hasSite(e.guard) || cand == 0
			for _, o := range doms {
				und = und || o.opq
			}
			if und {
				d.undecided(what, why)
			} else {
				d.r.bad("dataset", what, d.p.ipos(e.in), why)
			}
		}
	}
	for k, w := range want {
		if !used[k] {
			d.undecided(fmt.Sprintf("%s: part of result %d", d.name, w.res), "expected contribution not found")
		}
	}
	_ = z
}

func sameForms(a, b []*Form) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// identical: true only if nothing differs, false only if something does.
func (d *dset) identical() {
	z := d.z
	D, E, L, M := d.fr.args[0], d.fr.args[1], d.fr.args[2], d.fr.args[3]
	got := d.vs.retForm(d.fr, 0)
	if got.opq {
		d.undecided(d.name, got.String())
		return
	}
	facts := []fact{{z.eq0(z.sub(z.length(D), z.length(E))), true}, {z.eq0(z.sub(z.length(L), z.length(M))), true}}
	// different sizes
	for i, c := range facts {
		g := z.assume(got, c.c, false)
		what := fmt.Sprintf("%s: different sizes %d", d.name, i)
		if isFalse(g) {
			d.r.ok("rows and labels", what)
		} else if hasSite(g) || g.opq {
			d.undecided(what, g.String())
		} else {
			// an earlier answer must be false as well
			bad := true
			_, vs := z.splits(g)
			for _, v := range vs {
				if !isFalse(v) && !isTrue(v) {
					bad = false
				}
			}
			if bad {
				d.r.bad("dataset", what, d.p.pos(d.f.Pos()), "datasets of different sizes can be called identical: "+g.String())
			} else {
				d.undecided(what, g.String())
			}
		}
	}
	// what is compared: every difference must be looked for
	g := d.given(got, facts...)
	it, kt := d.bound(), d.bound()
	di, ei := z.idx(D, it), z.idx(E, it)
	key := z.atom("key", "", di, kt)
	diffs := map[string]*Form{
		"number of variables of an instance": z.not(z.eq0(z.sub(z.length(di), z.length(ei)))),
		"variable missing":                   z.not(z.atom("b", "has", ei, key)),
		"value of a variable":                z.not(z.eq0(z.sub(z.atom("map", "", ei, key), z.atom("map", "", di, key)))),
		"label":                              z.not(z.eq0(z.sub(z.idx(L, it), z.idx(M, it)))),
	}
	ignored := map[string]bool{"variable missing": true, "value of a variable": true, "label": true}
	// conditions under which some any(...) of the result holds
	found := map[string]bool{}
	var scan func(f *Form)
	scan = func(f *Form) {
		f.walk(func(a *Form) {
			if a.op != "b" || a.sym != "any" {
				return
			}
			body := z.open(a, it)
			var inner func(b *Form)
			inner = func(b *Form) {
				for n, w := range diffs {
					if n == "number of variables of an instance" || n == "label" {
						if impliedBy(z, w, b) {
							found[n] = true
						}
						if !isFalse(assumeNot(z, w, b)) {
							ignored[n] = false
						}
					}
				}
				b.walk(func(c *Form) {
					if c.op == "b" && c.sym == "any" && c.args[0].op == "maprange" {
						o := z.open(c, kt)
						for n, w := range diffs {
							o := o
							if n == "value of a variable" {
								o = z.assume(o, z.atom("b", "has", ei, key), true)
							}
							if impliedBy(z, w, o) {
								found[n] = true
							}
							if !isFalse(assumeNot(z, w, o)) {
								ignored[n] = false
							}
						}
					}
				})
			}
			inner(body)
		})
	}
	scan(g)
	all := true
	for n := range diffs {
		if !found[n] {
			all = false
		}
	}
	_, vs := z.splits(g)
	sawTrue, sawOther := false, false
	for _, v := range vs {
		if isTrue(v) {
			sawTrue = true
		} else if !isFalse(v) {
			sawOther = true
		}
	}
	switch {
	case all && sawTrue && !sawOther:
		d.r.ok("rows and labels", d.name+": every difference counts")
	case sawOther:
		d.undecided(d.name, g.String())
	default:
		var miss []string
		for n := range diffs {
			if !found[n] {
				miss = append(miss, n)
			}
		}
		// something that is not looked at all cannot make a difference
		looks := map[string]bool{}
		g.walk(func(a *Form) {
			switch {
			case a.op == "idx" && (a.args[0] == L || a.args[0] == M):
				looks["label"] = true
			case a.op == "map" && a.args[0].op == "idx" && (a.args[0].args[0] == D || a.args[0].args[0] == E):
				looks["value of a variable"] = true
			case a.op == "b" && a.sym == "has":
				looks["variable missing"] = true
			case a.op == "len" && a.args[0].op == "idx":
				looks["number of variables of an instance"] = true
			case a.op == "maprange" && a.args[0].op == "idx" && (a.args[0].args[0] == D || a.args[0].args[0] == E):
				looks["both "+a.args[0].args[0].String()] = true
			}
		})
		if looks["both "+D.String()] && looks["both "+E.String()] {
			looks["number of variables of an instance"] = true
		}
		clear := !g.opq && !hasSite(g) && sawTrue
		for _, m := range sortedStrings(miss) {
			if m == "value of a variable" && !looks["variable missing"] {
				continue
			}
			if clear && (!looks[m] || ignored[m]) {
				d.r.bad("dataset", d.name, d.p.pos(d.f.Pos()), "datasets that differ in this can be called identical: "+m)
			} else {
				d.undecided(d.name, "comparison of "+m+" not found")
			}
		}
	}
}

// assumeNot: b when w (a negated condition) holds.
func assumeNot(z *forms, w, b *Form) *Form {
	if w.op == "ite" && isFalse(w.args[1]) && isTrue(w.args[2]) {
		return z.assume(b, w.args[0], false)
	}
	return z.assume(b, w, true)
}

// impliedBy: whenever w holds, b holds.
func impliedBy(z *forms, w, b *Form) bool {
	c, v := w, true
	if w.op == "ite" && isFalse(w.args[1]) && isTrue(w.args[2]) {
		c, v = w.args[0], false
	}
	if !v {
		return isTrue(z.assume(b, c, false))
	}
	return isTrue(z.assume(b, c, true))
}

// shuffle: instances and labels are exchanged by the same exchange.
func (d *dset) shuffle() {
	z := d.z
	D, L := d.fr.args[0], d.fr.args[1]
	for _, b := range d.f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Common().IsInvoke() {
				continue
			}
			n := calleeFull(c.Common())
			if !strings.HasSuffix(n, "rand.Shuffle") || len(c.Common().Args) < 2 {
				continue
			}
			args := c.Common().Args
			size := d.vs.at(d.fr, args[len(args)-2], b)
			what := d.name
			if size != z.length(D) && size != z.length(L) {
				if size.opq || hasSite(size) {
					d.undecided(what, "size "+size.String())
				} else {
					d.r.bad("dataset", what, d.p.ipos(in), fmt.Sprintf("shuffles %s positions, expected all %s", size, z.length(D)))
				}
			} else {
				d.r.ok("rows and labels", what+": all positions")
			}
			mc, ok := args[len(args)-1].(*ssa.MakeClosure)
			if !ok {
				d.undecided(what, "exchange function")
				continue
			}
			var free []*Form
			for _, y := range mc.Bindings {
				free = append(free, d.vs.cellRef(d.fr, y, c, nil))
			}
			clo := mc.Fn.(*ssa.Function)
			i, j := z.atom("leaf", "swap0"), z.atom("leaf", "swap1")
			g := d.vs.frame(clo, []*Form{i, j}, free, d.fr, c)
			got := map[string]bool{}
			for _, e := range d.vs.events(g, nil, nil) {
				if e.kind != "elem" {
					continue
				}
				var A *Form
				switch e.base {
				case D:
					A = D
				case L:
					A = L
				default:
					d.undecided(what, "writes "+e.base.String())
					return
				}
				guard := z.assume(e.guard, z.eq(z.atom("const", "nil"), L), false)
				other := map[*Form]*Form{i: j, j: i}[e.key]
				if other == nil || !isTrue(guard) {
					if e.guard.opq || e.key.opq || hasSite(e.guard) {
						d.undecided(what, "exchange")
						return
					}
					d.r.bad("dataset", what, d.p.ipos(e.in), fmt.Sprintf("writes position %s when %s", e.key, e.guard))
					return
				}
				if A == D && !isTrue(e.guard) {
					d.r.bad("dataset", what, d.p.ipos(e.in), "instances are only exchanged when "+e.guard.String())
					return
				}
				got[A.String()+e.key.String()] = true
				if e.val.opq {
					d.undecided(what, "exchange")
					return
				}
				if e.val != z.idx(A, other) {
					d.r.bad("dataset", what, d.p.ipos(e.in), fmt.Sprintf("position %s gets %s, expected %s", e.key, e.val, z.idx(A, other)))
					return
				}
			}
			for _, A := range []*Form{D, L} {
				if got[A.String()+i.String()] && got[A.String()+j.String()] {
					d.r.ok("rows and labels", fmt.Sprintf("%s: positions of %s exchanged", what, A))
				} else {
					d.r.bad("dataset", what, d.p.ipos(in), fmt.Sprintf("%s is not exchanged like the other", A))
				}
			}
		}
	}
}

var _ types.Type

func sortedStrings(s []string) []string {
	sort.Strings(s)
	return s
}
