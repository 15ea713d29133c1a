package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: structure learning takes the data apart as its definition says.

func init() { reg("C26", checkGens) }

type learners struct {
	*fx
	entry map[*ssa.Function]bool
	names map[string]*ssa.Function
}

func checkGens(r *R) {
	x := &learners{fx: newFx(r), entry: map[*ssa.Function]bool{}, names: map[string]*ssa.Function{}}
	r.rule("with one variable the result is a leaf (or Gaussian mixture) fitted to that variable over all instances; with more than one independent group a product with one child per group, learned from all instances restricted to the group's variables; otherwise a sum with one child per cluster, learned from the cluster's instances with all variables and weighted by the cluster's share of the instances; with too few instances or a single cluster a product of one leaf or mixture per variable; every parameter is handed down in its place")
	for _, f := range r.p.Funcs {
		if r.p.rel(f) == "learn/gens" && f.Signature.Recv() == nil && f.Parent() == nil && f.Object() != nil && f.Object().Exported() && x.takesData(f) {
			x.entry[f] = true
			x.names[f.String()+".0"] = f
		}
	}
	x.vs.runJobs = true
	x.vs.asCall = func(f *ssa.Function) bool {
		if x.entry[f] {
			return true
		}
		switch r.p.rel(f) {
		case "utils/cluster", "utils/indep":
			return f.Object() != nil && f.Object().Exported()
		case "learn":
			return f.Name() == "DataToVarData"
		case "utils":
			return f.Name() == "PartitionQuantiles"
		case "spn":
			return f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "New") && f.Name() != "NewSum" && f.Name() != "NewProduct"
		}
		return false
	}
	x.vs.keepCall = func(f *ssa.Function) bool {
		return r.p.rel(f) == "spn" && (f.Name() == "NewSum" || f.Name() == "NewProduct")
	}
	for _, f := range r.p.Funcs {
		if x.entry[f] {
			f := f
			x.try(r.p.fname(f), func() { x.learner(f) })
		}
	}
	x.try("gens.Binded", func() { x.binded() })
	r.floor("learners", 1)
}

func (x *learners) takesData(f *ssa.Function) bool {
	s := f.Signature
	if s.Params().Len() < 6 || s.Results().Len() != 1 || !x.p.isSPN(s.Results().At(0).Type()) {
		return false
	}
	_, m := s.Params().At(0).Type().Underlying().(*types.Map)
	_, d := s.Params().At(1).Type().Underlying().(*types.Slice)
	return m && d
}

func isAdd(n string) bool {
	return n == "spn.Sum.AddChildW" || n == "spn.Sum.AddChild" || n == "spn.Product.AddChild" || n == "spn.Sum.AddWeight" || n == "AddChild"
}

// roles of the parameters of a learner
type learnArgs struct {
	sc, D, k, pval, eps, mp, g, procs *Form
	gauss                             bool
}

func (x *learners) roles(f *ssa.Function, a []*Form) *learnArgs {
	l := &learnArgs{gauss: strings.Contains(f.Name(), "Gauss"), g: x.z.num(0), procs: x.z.num(1)}
	n := 6
	if l.gauss {
		n++
	}
	conc := strings.Contains(f.Name(), "Concurrent")
	if conc {
		n++
	}
	if len(a) != n {
		return nil
	}
	l.sc, l.D, l.k, l.pval, l.eps, l.mp = a[0], a[1], a[2], a[3], a[4], a[5]
	if l.gauss {
		l.g = a[6]
	}
	if conc {
		l.procs = a[n-1]
	}
	return l
}

// lcase is one combination of conditions.
type lcase struct {
	*learners
	f      *ssa.Function
	what   string
	la     *learnArgs
	fs     []fact
	evs    []*event
	Kset   *Form
	g      bool
	strict bool // tables the function keeps are taken to hold arbitrary values
	rule   string
}

func (c *lcase) giv(f *Form) *Form { return c.given(f, c.fs...) }

// fail reports or leaves undecided, depending on whether got is understood.
func (c *lcase) fail(in ssa.Instruction, got *Form, msg string) bool {
	if got != nil && (got.opq || got.op == "partial" || got.op == "site" || c.made(got)) {
		c.undecided(c.what, msg)
		return false
	}
	return c.failNow(in, msg)
}

func (c *lcase) failNow(in ssa.Instruction, msg string) bool {
	pos := c.p.pos(c.f.Pos())
	if in != nil {
		pos = c.p.ipos(in)
	}
	rule := c.rule
	if rule == "" {
		rule = "structure learning"
	}
	c.r.bad(rule, c.what, pos, msg)
	return false
}

// made: something the function makes and fills, other than as a node or by a learner.
func (c *lcase) made(f *Form) bool {
	switch {
	case f.op == "ite":
		return hasSite(f.args[0]) || c.made(f.args[1]) || c.made(f.args[2])
	case f.op == "site", f.op == "call" && c.names[f.sym] != nil:
		return false
	}
	return hasSite(f)
}

// eq: got is want, three-valued.
// place: a value that is read from one place, and that is another place than the one expected; contents of a table
// the function keeps stand for themselves.
func (c *lcase) place(got, want *Form) bool {
	ok := true
	got.walk(func(d *Form) {
		switch d.op {
		case "opq", "ite", "arr", "partial", "len", "clo", "append", "lit":
			if d.op != "len" || hasSite(d) {
				ok = false
			}
		}
	})
	switch got.op {
	case "idx", "map", "key", "acc", "iter", "mod", "poly":
	default:
		_, lin := got.constant()
		ok = ok && lin
	}
	switch want.op {
	case "idx", "map", "key", "acc", "iter":
	default:
		return false
	}
	return ok
}

func (c *lcase) eq(in ssa.Instruction, what string, got, want *Form) bool {
	got, want = c.giv(got), c.giv(want)
	if got == want {
		return true
	}
	if got.op == "call" && want.op == "call" && got.sym == want.sym && len(got.args) == len(want.args) {
		for i := range got.args {
			if !c.eq(in, fmt.Sprintf("%s (argument %d)", what, i), got.args[i], want.args[i]) {
				return false
			}
		}
		return true
	}
	if got.op == "arr" && want.op == "arr" {
		it := c.bound()
		return c.eq(in, "length of "+what, got.args[0], want.args[0]) && c.eq(in, "element of "+what, c.z.open(got, it), c.z.open(want, it))
	}
	q := &cmpr{z: c.z}
	want.walk(func(d *Form) {
		if d.op == "call" {
			q.known = append(q.known, d)
		}
	})
	switch q.cmp(got, want) {
	case same:
		return true
	case unknown:
		if c.strict && c.place(got, want) {
			return c.failNow(in, what+" is "+got.String()+", expected "+want.String())
		}
		c.undecided(c.what, what+": "+q.why)
		return false
	}
	if c.strict && c.place(got, want) {
		return c.failNow(in, what+" is "+got.String()+", expected "+want.String())
	}
	if hasSite(got) {
		c.undecided(c.what, what+" is built by the function: "+got.String())
		return false
	}
	return c.fail(in, got, what+" is "+got.String()+", expected "+want.String())
}

func (x *learners) learner(f *ssa.Function) {
	z := x.z
	fr := x.vs.root(f)
	name := x.p.fname(f)
	la := x.roles(f, fr.args)
	if la == nil {
		x.undecided(name, "other parameters")
		return
	}
	ret := x.vs.retForm(fr, 0)
	if ret.op == "call" && x.names[ret.sym] != nil {
		// hands over to another learner
		b := x.roles(x.names[ret.sym], ret.args)
		if b == nil {
			x.undecided(name, "hands over")
			return
		}
		c := &lcase{learners: x, f: f, what: name, la: la}
		if b.gauss != la.gauss {
			c.fail(nil, nil, "hands over to "+ret.sym)
			return
		}
		if c.handedOn(nil, b) && c.eq(nil, "scope", b.sc, la.sc) && c.eq(nil, "data", b.D, la.D) {
			x.r.ok("learners", name+" hands over to "+x.p.fname(x.names[ret.sym]))
		}
		return
	}
	x.vs.wantFields = true
	x.vs.lost = 0
	evs := x.vs.events(fr, nil, isAdd)
	x.vs.wantFields = false
	if x.vs.lost > 0 {
		x.undecided(name, "calls a function that is not known")
		return
	}
	// what decides
	var graph, km, db *Form
	odd := ""
	look := func(d *Form) {
		if d.op != "call" {
			return
		}
		s := strings.TrimPrefix(d.sym, modPath+"/")
		switch {
		case strings.HasPrefix(s, "utils/indep.") && strings.HasSuffix(s, "Graph.0"):
			if graph != nil && graph != d {
				odd = "two graphs"
			}
			graph = d
		case s == "utils/cluster.KMeansDataI.0":
			if km != nil && km != d {
				odd = "k-means called in two ways"
			}
			km = d
		case s == "utils/cluster.DBSCANData.0":
			if db != nil && db != d {
				odd = "DBSCAN called in two ways"
			}
			db = d
		case strings.HasPrefix(s, "utils/cluster."):
			odd = s
		}
	}
	ret.walk(look)
	if graph == nil || km == nil || db == nil || odd != "" {
		x.undecided(name, "no dependence graph or clusters found: "+odd)
		return
	}
	top := &lcase{learners: x, f: f, what: name, la: la}
	vd := x.call(modPath+"/learn.DataToVarData", 0, la.D, la.sc)
	if len(graph.args) != 2 || !top.eq(nil, "data tested for independence", graph.args[0], vd) || !top.eq(nil, "significance", graph.args[1], la.pval) {
		return
	}
	if len(km.args) != 2 || !top.eq(nil, "number of clusters", km.args[0], la.k) || !top.eq(nil, "data clustered", km.args[1], la.D) {
		return
	}
	if len(db.args) != 3 || !top.eq(nil, "data clustered", db.args[0], la.D) || !top.eq(nil, "distance", db.args[1], la.eps) || !top.eq(nil, "density", db.args[2], la.mp) {
		return
	}
	kset := z.atom("fld", "Kset", graph)
	n := z.length
	one := func(a *Form) []fact { return []fact{{z.eq0(z.sub(n(a), z.num(1))), true}} }
	many := func(a *Form) []fact {
		return []fact{{z.ge0(z.sub(n(a), z.num(2))), true}, {z.eq0(z.sub(n(a), z.num(1))), false}}
	}
	kpos := z.ge0(z.sub(la.k, z.num(1)))
	few := z.ge0(z.sub(z.sub(la.k, z.num(1)), n(la.D)))
	type cs struct {
		name string
		fs   []fact
	}
	base := append(many(la.sc), one(kset)...)
	cases := []cs{
		{"one variable", one(la.sc)},
		{"independent groups", append(many(la.sc), many(kset)...)},
		{"fewer instances than clusters", append(append([]fact{}, base...), fact{kpos, true}, fact{few, true})},
		{"one cluster (k-means)", append(append(append([]fact{}, base...), fact{kpos, true}, fact{few, false}), one(km)...)},
		{"one cluster (DBSCAN)", append(append(append([]fact{}, base...), fact{kpos, false}, fact{few, false}), one(db)...)},
		{"clusters (k-means)", append(append(append([]fact{}, base...), fact{kpos, true}, fact{few, false}), many(km)...)},
		{"clusters (DBSCAN)", append(append(append([]fact{}, base...), fact{kpos, false}, fact{few, false}), many(db)...)},
	}
	for i, k := range cases {
		for _, g := range []bool{false, true} {
			if g && !la.gauss || i == 0 && la.gauss && !g {
				continue
			}
			for _, p := range []bool{false, true} {
				if _, fixed := la.procs.constant(); fixed && p {
					continue
				}
				fs := append([]fact{}, k.fs...)
				what := name + ", " + k.name
				if la.gauss {
					fs = append(fs, fact{z.ge0(z.sub(la.g, z.num(1))), g})
					what += map[bool]string{true: ", Gaussian", false: ""}[g]
				}
				if _, fixed := la.procs.constant(); !fixed {
					fs = append(fs, fact{z.eq0(z.sub(la.procs, z.num(1))), p})
					what += map[bool]string{true: ", one worker", false: ", workers"}[p]
				}
				c := &lcase{learners: x, f: f, what: what, la: la, fs: fs, evs: evs, Kset: kset, g: g}
				R := c.giv(ret)
				ok := false
				switch {
				case i == 0:
					V := z.atom("map", "", la.sc, z.atom("key", "", la.sc, z.atom("last", "", la.sc)))
					ok = c.leaf(nil, R, V)
				case i == 1:
					ok = c.product(R)
				case i < 5:
					ok = c.factorized(R)
				case i == 5:
					ok = c.sum(R, km)
				default:
					ok = c.sum(R, db)
				}
				if ok {
					x.r.ok("learners", what)
				}
			}
		}
	}
}

// handedOn: the parameters go down as they came.
func (c *lcase) handedOn(in ssa.Instruction, b *learnArgs) bool {
	if !c.eq(in, "number of clusters handed on", b.k, c.la.k) || !c.eq(in, "significance handed on", b.pval, c.la.pval) ||
		!c.eq(in, "distance handed on", b.eps, c.la.eps) || !c.eq(in, "density handed on", b.mp, c.la.mp) {
		return false
	}
	return !b.gauss || c.eq(in, "number of Gaussians handed on", b.g, c.la.g)
}

// node: the result is a node of this kind made by the function; its additions in this case.
func (c *lcase) node(in ssa.Instruction, R *Form, kind string) ([]*event, bool) {
	what := map[string]string{"NewSum": "a sum", "NewProduct": "a product"}[kind]
	if R.op == "site" {
		call, _ := siteInfo[R.sym].(*ssa.Call)
		if call != nil && call.Common().StaticCallee() != nil {
			if n := call.Common().StaticCallee().Name(); n == kind {
				var out []*event
				for _, e := range c.evs {
					if e.kind != "call" {
						continue
					}
					b := e.args[0]
					if b.op == "site" && b.sym == R.sym {
						if !isFalse(c.giv(e.guard)) {
							out = append(out, e)
						}
					} else if b.opq || b.op == "ite" {
						c.undecided(c.what, "children added to "+b.String())
						return nil, false
					}
				}
				return out, true
			} else if n == "NewSum" || n == "NewProduct" {
				return nil, c.fail(in, nil, "the result is made by "+n+", expected "+what)
			}
		}
		c.undecided(c.what, "result is "+R.String())
		return nil, false
	}
	return nil, c.fail(in, R, "the result is "+R.String()+", expected "+what+" node")
}

// onlyAdd: exactly one addition, for every round of one loop over dom, inside the given loops.
func (c *lcase) onlyAdd(es []*event, name string, outer int, dom *Form) *event {
	if len(es) == 0 {
		c.fail(nil, nil, "no child is added")
		return nil
	}
	if len(es) > 1 {
		c.fail(es[1].in, c.giv(es[1].guard), "children are added twice")
		return nil
	}
	e := es[0]
	if e.name != name {
		c.fail(e.in, nil, "children are added by "+e.name+", expected "+name)
		return nil
	}
	if len(e.loops) != outer+1 {
		c.undecided(c.what, fmt.Sprintf("children are added in %d loops", len(e.loops)))
		return nil
	}
	l := e.loops[outer]
	if !c.domIs(e.in, l.dom, dom) || !c.always(e) {
		return nil
	}
	return e
}

func (c *lcase) domIs(in ssa.Instruction, got, dom *Form) bool {
	got = c.giv(got)
	if got == c.giv(dom) {
		return true
	}
	return c.eq(in, "the range of the loop", got, dom)
}

// always: the event takes place in every round of its loops.
func (c *lcase) always(e *event) bool {
	g := c.giv(e.guard)
	if !isTrue(g) {
		if g.opq || hasSite(g) {
			c.undecided(c.what, "condition "+g.String())
			return false
		}
		return c.fail(e.in, nil, "done only when "+g.String())
	}
	if b := c.vs.earlyOut(e.fr.fn, e.in.Block()); b != nil {
		return c.fail(b.Instrs[len(b.Instrs)-1], nil, "not reached if a loop before it is left early")
	}
	for _, l := range e.loops {
		fr := e.fr
		for fr != nil && fr.fn != l.l.fn {
			fr = fr.caller
		}
		if fr == nil {
			c.undecided(c.what, "loop")
			return false
		}
		for _, ex := range c.vs.exits(fr, l.l) {
			cond := c.giv(ex.cond)
			switch {
			case isFalse(cond):
			case cond.opq || hasSite(cond) || hasAcc(cond, fr):
				c.undecided(c.what, "loop may be left early")
				return false
			default:
				return c.fail(ex.b.Instrs[len(ex.b.Instrs)-1], nil, "the loop is left early when "+cond.String())
			}
		}
	}
	return true
}

// leaf: a leaf or mixture for variable V over all instances.
func (c *lcase) leaf(in ssa.Instruction, R, V *Form) bool {
	z := c.z
	id := z.atom("fld", "Varid", V)
	if c.la.gauss && c.g {
		es, ok := c.node(in, R, "NewSum")
		if !ok {
			return false
		}
		D := c.la.D
		col := c.arr(z.length(D), func(i *Form) *Form { return z.atom("map", "", z.idx(D, i), id) })
		Q := c.call(modPath+"/utils.PartitionQuantiles", 0, col, c.la.g)
		outer := len(R.args)
		// the quantiles actually used
		if len(es) == 1 && len(es[0].args) == 3 {
			ch := c.giv(es[0].args[1])
			if ch.op == "call" && strings.HasSuffix(ch.sym, "/spn.NewGaussianParams.0") && len(ch.args) == 3 {
				v := c.varid(ch.args[0])
				if !c.eq(es[0].in, "variable of the Gaussian", v, id) {
					return false
				}
			}
		}
		e := c.onlyAdd(es, "spn.Sum.AddChildW", outer, z.length(Q))
		if e == nil {
			return false
		}
		it := e.loops[outer].it
		q := z.idx(Q, it)
		want := c.call(modPath+"/spn.NewGaussianParams", 0, id, z.idx(q, z.num(0)), z.idx(q, z.num(1)))
		return c.eq(e.in, "component of the mixture", c.varid(c.giv(e.args[1])), want) && c.eq(e.in, "weight of a component", e.args[2], z.div(z.num(1), z.length(Q)))
	}
	D := c.la.D
	it := c.bound()
	hist := z.mkArr(z.atom("fld", "Categories", V), it, c.over("sum", z.length(D), func(i *Form) *Form {
		return z.ite(z.eq0(z.sub(it, z.atom("map", "", z.idx(D, i), id))), z.num(1), z.num(0))
	}))
	want := c.call(modPath+"/spn.NewCountingMultinomial", 0, id, hist)
	return c.eq(in, "leaf", c.varid(c.giv(R)), want)
}

func (c *lcase) bound() *Form {
	it := c.z.atom("iter", fmt.Sprintf("spec%d", specN))
	specN++
	return it
}

func (c *lcase) arr(n *Form, body func(i *Form) *Form) *Form {
	it := c.bound()
	return c.z.mkArr(n, it, body(it))
}

// varid: the key of a variable in the scope is its id.
func (c *lcase) varid(f *Form) *Form {
	z := c.z
	return z.rewrite(f, func(d *Form) *Form {
		if d.op == "fld" && d.sym == "Varid" && d.args[0].op == "map" && d.args[0].args[0] == c.la.sc && d.args[0].args[1].op != "key" {
			return d.args[0].args[1]
		}
		if d.op == "map" && len(d.args) == 2 && d.args[1].op == "key" && d.args[1].args[0] == c.la.sc && d.args[0] != c.la.sc {
			return z.atom("map", "", d.args[0], z.atom("fld", "Varid", z.atom("map", "", c.la.sc, d.args[1])))
		}
		return nil
	})
}

func (c *lcase) factorized(R *Form) bool {
	z := c.z
	es, ok := c.node(nil, R, "NewProduct")
	if !ok {
		return false
	}
	e := c.onlyAdd(es, "spn.Product.AddChild", 0, z.atom("maprange", "", c.la.sc))
	if e == nil {
		return false
	}
	V := z.atom("map", "", c.la.sc, z.atom("key", "", c.la.sc, e.loops[0].it))
	return c.leaf(e.in, c.giv(e.args[1]), V)
}

// child: a call of a learner.
func (c *lcase) child(e *event, f *Form) *learnArgs {
	f = c.giv(f)
	if f.op != "call" || c.names[f.sym] == nil {
		c.fail(e.in, f, "the child is "+f.String()+", expected a network learned from part of the data")
		return nil
	}
	b := c.roles(c.names[f.sym], f.args)
	if b == nil {
		c.undecided(c.what, "child")
		return nil
	}
	if b.gauss != (c.la.gauss && c.g) {
		c.fail(e.in, nil, "the child is learned by "+c.p.fname(c.names[f.sym]))
		return nil
	}
	if !c.handedOn(e.in, b) {
		return nil
	}
	return b
}

func (c *lcase) sum(R, cl *Form) bool {
	z := c.z
	es, ok := c.node(nil, R, "NewSum")
	if !ok {
		return false
	}
	e := c.onlyAdd(es, "spn.Sum.AddChildW", 0, z.length(cl))
	if e == nil {
		return false
	}
	part := z.idx(cl, e.loops[0].it)
	b := c.child(e, e.args[1])
	if b == nil {
		return false
	}
	if !c.eq(e.in, "data of the child", b.D, part) {
		return false
	}
	if !c.eq(e.in, "weight of the child", e.args[2], z.div(z.length(part), z.length(c.la.D))) {
		return false
	}
	if c.giv(b.sc) == c.la.sc {
		return true
	}
	return c.scope(e, b.sc, nil)
}

func (c *lcase) product(R *Form) bool {
	z := c.z
	es, ok := c.node(nil, R, "NewProduct")
	if !ok {
		return false
	}
	e := c.onlyAdd(es, "spn.Product.AddChild", 0, z.length(c.Kset))
	if e == nil {
		return false
	}
	group := z.idx(c.Kset, e.loops[0].it)
	b := c.child(e, e.args[1])
	if b == nil {
		return false
	}
	return c.scope(e, b.sc, group) && c.restricted(e, b.D, group)
}

// filled: the one write that fills a map made by the function, seen from the map s.
func (c *lcase) filled(at *event, what string, s *Form) (e *event, sub func(*Form) *Form) {
	s = c.giv(s)
	if s.op != "site" || !strings.HasPrefix(s.sym, "map") {
		if s.op == "site" || hasSite(s) {
			c.undecided(c.what, what+" is "+s.String())
		} else {
			c.fail(at.in, s, what+" is "+s.String())
		}
		return nil, nil
	}
	for _, o := range c.evs {
		if o.kind != "map" || isFalse(c.giv(o.guard)) {
			continue
		}
		if o.base.op != "site" || o.base.sym != s.sym {
			if o.base.opq || o.base.op == "ite" {
				c.undecided(c.what, "a map filled indirectly")
				return nil, nil
			}
			continue
		}
		if e != nil {
			c.undecided(c.what, what+" is filled in two places")
			return nil, nil
		}
		e = o
	}
	if e == nil {
		c.fail(at.in, nil, what+" stays empty")
		return nil, nil
	}
	own := 0 // loops of the function that makes the map
	if mk := siteInfo[s.sym]; mk != nil && mk.Parent() == e.in.Parent() {
		for _, l := range e.loops {
			if l.l.fn == mk.Parent() {
				own++
			}
		}
	}
	if len(e.base.args) != len(s.args) || len(e.loops) != len(s.args)+1 && own != len(s.args)+1 {
		c.undecided(c.what, what+" is filled in other loops")
		return nil, nil
	}
	m := map[string]*Form{}
	for i, a := range e.base.args {
		m[a.key] = s.args[i]
	}
	return e, func(f *Form) *Form { return c.z.subst(f, m) }
}

// scope: the variables of a group, or all of them.
func (c *lcase) scope(at *event, s, group *Form) bool {
	z := c.z
	e, sub := c.filled(at, "scope of the child", s)
	if e == nil {
		return false
	}
	l := e.loops[len(e.loops)-1]
	var key *Form
	dom := z.atom("maprange", "", c.la.sc)
	if group != nil {
		dom = z.length(group)
		key = z.idx(group, l.it)
	} else {
		key = z.atom("key", "", c.la.sc, l.it)
	}
	got := sub(l.dom)
	if !c.domIs(e.in, got, dom) || !c.always(e) {
		return false
	}
	k := sub(e.key)
	if group == nil && k == z.atom("fld", "Varid", z.atom("map", "", c.la.sc, key)) {
		k = key
	}
	if !c.eq(e.in, "variable in the child's scope", k, key) {
		return false
	}
	v := c.giv(sub(e.val))
	old := z.atom("map", "", c.la.sc, key)
	if v == old {
		return true
	}
	if v.op != "site" || !strings.HasPrefix(v.sym, "new") {
		return c.fail(e.in, v, "the variable in the child's scope is "+v.String()+", expected "+old.String())
	}
	// a new description of the variable
	seen := map[string]bool{}
	for _, o := range c.evs {
		if o.kind != "field" || o.base.op != "site" || o.base.sym != v.sym || len(o.base.args) != len(v.args) {
			continue
		}
		m := map[string]*Form{}
		for i, a := range o.base.args {
			m[a.key] = v.args[i]
		}
		fv := c.varid(c.giv(z.subst(o.val, m)))
		switch o.name {
		case "Varid":
			want := c.giv(c.varid(z.atom("fld", "Varid", old)))
			if fv != want && fv != key && !c.eq(o.in, "id of the variable in the child's scope", fv, want) {
				return false
			}
		case "Categories":
			if !c.eq(o.in, "number of categories in the child's scope", fv, z.atom("fld", "Categories", old)) {
				return false
			}
		default:
			continue
		}
		if seen[o.name] {
			c.undecided(c.what, "set twice")
			return false
		}
		seen[o.name] = true
	}
	if al, ok := siteInfo[v.sym].(*ssa.Alloc); ok && al.Referrers() != nil {
		for _, u := range *al.Referrers() {
			switch w := u.(type) {
			case *ssa.Store:
				if w.Addr == ssa.Value(al) {
					// copied as a whole
					ld, ok := w.Val.(*ssa.UnOp)
					if ok && e.fr.fn == al.Parent() && len(seen) == 0 && c.giv(c.vs.at(e.fr, ld.X, w.Block())) == old {
						return true
					}
					c.undecided(c.what, "the variable is copied as a whole")
					return false
				}
			case ssa.CallInstruction:
				c.undecided(c.what, "the variable is set by a call")
				return false
			}
		}
	}
	for _, n := range []string{"Varid", "Categories"} {
		if !seen[n] {
			return c.fail(e.in, nil, n+" of the variable in the child's scope is not set")
		}
	}
	return true
}

// restricted: all instances, each with the variables of the group only.
func (c *lcase) restricted(at *event, d, group *Form) bool {
	z := c.z
	d = c.giv(d)
	if d.op != "arr" {
		if d.op == "site" || hasSite(d) {
			c.undecided(c.what, "data of the child is "+d.String())
			return false
		}
		return c.fail(at.in, d, "data of the child is "+d.String()+", not the instances restricted to the group")
	}
	if !c.eq(at.in, "number of instances of the child", d.args[0], z.length(c.la.D)) {
		return false
	}
	it := c.bound()
	e, sub := c.filled(at, "instance of the child", z.open(d, it))
	if e == nil {
		return false
	}
	l := e.loops[len(e.loops)-1]
	if !c.domIs(e.in, sub(l.dom), z.length(group)) || !c.always(e) {
		return false
	}
	key := z.idx(group, l.it)
	return c.eq(e.in, "variable kept in an instance of the child", sub(e.key), key) &&
		c.eq(e.in, "value in an instance of the child", sub(e.val), z.atom("map", "", z.idx(c.la.D, it), key))
}

// binded: a learner bound to parameters passes them on in their places.
func (x *learners) binded() {
	f := x.p.fn("learn/gens", "Binded")
	if f == nil || f.Blocks == nil {
		return
	}
	fr := x.vs.root(f)
	var mc *ssa.MakeClosure
	var free []*Form
	for _, b := range f.Blocks {
		ret, _ := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if ret == nil || len(ret.Results) != 1 || mc != nil {
			continue
		}
		v := ret.Results[0]
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		if mc, _ = v.(*ssa.MakeClosure); mc != nil {
			for _, q := range mc.Bindings {
				free = append(free, x.vs.cellRef(fr, q, ret, nil))
			}
		}
	}
	if mc == nil || len(mc.Fn.(*ssa.Function).Params) != 2 || len(fr.args) != 4 {
		x.undecided("gens.Binded", "no closure")
		return
	}
	fn := mc.Fn.(*ssa.Function)
	sc, D := x.z.atom("leaf", "scope"), x.z.atom("leaf", "data")
	g := x.vs.frame(fn, []*Form{sc, D}, free, nil, nil)
	ret := x.vs.retForm(g, 0)
	if ret.op != "call" || x.names[ret.sym] == nil {
		x.undecided("gens.Binded", "result "+ret.String())
		return
	}
	b := x.roles(x.names[ret.sym], ret.args)
	if b == nil {
		return
	}
	c := &lcase{learners: x, f: fn, what: "gens.Binded", la: &learnArgs{sc: sc, D: D, k: fr.args[0], pval: fr.args[1], eps: fr.args[2], mp: fr.args[3]}}
	if b.gauss {
		c.fail(nil, nil, "binds "+ret.sym)
		return
	}
	if c.handedOn(nil, b) && c.eq(nil, "scope", b.sc, sc) && c.eq(nil, "data", b.D, D) {
		x.r.ok("learners", "gens.Binded")
	}
}
