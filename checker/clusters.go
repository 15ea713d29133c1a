package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: clustering and the conversions between data formats lose, double and change nothing.

func init() { reg("C25", checkClusters) }

type clu struct {
	*lcase
	fr *frame
}

func checkClusters(r *R) {
	x := &learners{fx: newFx(r), entry: map[*ssa.Function]bool{}, names: map[string]*ssa.Function{}}
	r.rule("a clustering stores, for every instance, in exactly one place, under the instance's own position, a fresh copy of exactly its values; the lists of a clustering of a dataset receive every instance once, with every variable's value under that variable")
	r.rule("converting a dataset to a matrix and back, to per-variable columns or copying a scope keeps every value under its instance and variable")
	x.vs.runJobs = true
	x.vs.asCall = func(f *ssa.Function) bool {
		switch r.p.rel(f) {
		case "learn":
			return f.Name() == "DataToMatrix" || f.Name() == "DataToMatrixF"
		case "utils":
			return f.Name() == "UFVarids"
		case "utils/cluster":
			s := f.Signature
			if s.Results().Len() != 1 {
				return false
			}
			return keyedClusters(s.Results().At(0).Type()) && matrixParam(f) >= 0 && clusterer(f) || regions(s.Results().At(0).Type())
		}
		return false
	}
	for _, f := range r.p.Funcs {
		if f.Parent() != nil || f.Blocks == nil || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 {
			continue
		}
		f := f
		res := f.Signature.Results().At(0).Type()
		var fn func(c *clu)
		switch r.p.rel(f) {
		case "utils/cluster":
			switch {
			case matrixParam(f) < 0 || strings.Contains(f.Name(), "OPTICS"):
			case keyedClusters(res) && clusterer(f):
				fn = (*clu).keyed
			case listClusters(res) && f.Object() != nil && f.Object().Exported():
				fn = (*clu).lists
			}
		case "learn":
			switch f.Name() {
			case "ExtractInstance":
				fn = (*clu).extract
			case "MatrixToData":
				fn = (*clu).toData
			case "CompleteDataToMatrix", "CompleteDataToMatrixF":
				fn = (*clu).complete
			case "DataToMatrix", "DataToMatrixF":
				fn = (*clu).toMatrix
			case "ReflectScope", "CopyScope":
				fn = (*clu).scopeCopy
			case "DataToVarData":
				fn = (*clu).columns
			}
		}
		if fn == nil {
			continue
		}
		name := r.p.fname(f)
		x.try(name, func() {
			fr := x.vs.root(f)
			x.vs.arrEvents(fr)
			x.vs.lost = 0
			x.vs.wantFields = true
			evs := x.vs.events(fr, nil, func(n string) bool { return n == "copy" || n == "delete" || n == "kmeans.Kmeans.PartitionPoints" })
			x.vs.wantFields = false
			c := &clu{lcase: &lcase{learners: x, f: f, what: name, evs: evs, rule: "data conserved", strict: true}, fr: fr}
			if x.vs.lost > 0 {
				c.undecided(name, "calls a function that is not known")
				return
			}
			fn(c)
		})
	}
	r.floor("conserved", 1)
}

// clusterer: a function the specification is about: an exported one, or one that takes nothing but
// the data, the number of clusters and the cluster of each instance. The parameters of any other
// helper can mean anything.
func clusterer(f *ssa.Function) bool {
	if o := f.Object(); o != nil && o.Exported() {
		return true
	}
	ints, lists, data := 0, 0, 0
	for _, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			ints++
		case *types.Slice:
			if _, ok := t.Elem().Underlying().(*types.Slice); ok {
				data++
			} else {
				lists++
			}
		default:
			return false
		}
	}
	return ints <= 1 && lists <= 1 && data == 1
}

func keyedClusters(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	m, ok := s.Elem().Underlying().(*types.Map)
	if !ok {
		return false
	}
	_, ok = m.Elem().Underlying().(*types.Slice)
	return ok
}

func listClusters(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	s, ok = s.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Map)
	return ok
}

func regions(t types.Type) bool {
	return strings.HasSuffix(t.String(), "/utils.UFNode") && strings.HasPrefix(t.String(), "[]*")
}

// matrixParam: the parameter that holds the instances.
func matrixParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok {
			switch s.Elem().Underlying().(type) {
			case *types.Slice, *types.Map:
				return i
			}
		}
	}
	return -1
}

// matrix: the instances as rows of values.
func (c *clu) matrix() *Form {
	i := matrixParam(c.f)
	D := c.fr.args[i]
	if _, ok := c.f.Params[i].Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Map); ok {
		return nil
	}
	return D
}

func (c *clu) isMatrix(f *Form) bool {
	D := c.fr.args[matrixParam(c.f)]
	return f == D || f.op == "call" && (f.sym == modPath+"/learn.DataToMatrix.0" || f.sym == modPath+"/learn.DataToMatrixF.0") && len(f.args) == 1 && f.args[0] == D
}

// ret: the one value returned, as it is named inside the function.
func (c *clu) ret(i int) (ssa.Value, *Form) {
	var v ssa.Value
	var f *Form
	for _, b := range c.f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			q := r.Results[i]
			if k, isC := q.(*ssa.Const); isC && k.IsNil() {
				continue
			}
			if v != nil && v != q {
				return nil, nil
			}
			v, f = q, c.vs.at(c.fr, q, b)
		}
	}
	return v, f
}

// origins: the variables a slice value stands for, through assignments and growth.
func origins(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if out[v] {
			return
		}
		if k, ok := v.(*ssa.Const); ok && k.IsNil() {
			return
		}
		out[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				rec(x.Call.Args[0])
			}
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.Slice:
			rec(x.X)
		}
	}
	rec(v)
	return out
}

// sameExpr: two expressions over the same variables, read at different places.
func sameExpr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameExpr(x.X, y.X) && sameExpr(x.Index, y.Index)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X)
	case *ssa.Lookup:
		y, ok := b.(*ssa.Lookup)
		return ok && sameExpr(x.X, y.X) && sameExpr(x.Index, y.Index)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X) && sameExpr(x.Y, y.Y)
	}
	return false
}

// tableOf: the slice whose element the map of an update is.
func tableOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.X
		}
	}
	return nil
}

func (c *clu) forwards(f *Form) bool {
	if f == nil || f.op != "call" || !strings.HasPrefix(f.sym, modPath+"/utils/cluster.") {
		return false
	}
	for _, g := range c.p.Funcs {
		if g.String()+".0" != f.sym {
			continue
		}
		i := matrixParam(g)
		if i < 0 {
			return false
		}
		if !c.isMatrix(f.args[i]) {
			if f.args[i].opq || hasSite(f.args[i]) {
				c.undecided(c.what, "clusters "+f.args[i].String())
			} else {
				c.fail(nil, nil, "clusters "+f.args[i].String()+", not the data given")
			}
			return true
		}
		// further parameters by name
		for j, p := range g.Params {
			for k, q := range c.f.Params {
				if j != i && p.Name() == q.Name() && types.Identical(p.Type(), q.Type()) && f.args[j] != c.fr.args[k] && p.Name() == "k" {
					c.fail(nil, nil, "asks for "+f.args[j].String()+" clusters, not the number given")
					return true
				}
			}
			// rows are keyed by position unless the caller numbers them
			if m, ok := p.Type().Underlying().(*types.Map); ok && j != i && basicInt(m.Elem()) {
				a := f.args[j]
				if !strings.Contains(a.key, "nil") && !c.isParam(a) {
					c.fail(nil, a, "rows are numbered by "+a.String())
					return true
				}
			}
		}
		c.r.ok("conserved", c.what+" clusters its data by "+c.p.fname(g))
		return true
	}
	return false
}

func basicInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c *clu) isParam(f *Form) bool {
	for _, a := range c.fr.args {
		if a == f {
			return true
		}
	}
	return false
}

// keyed: clusters as maps from position to values.
func (c *clu) keyed() {
	z := c.z
	v, R := c.ret(0)
	if v == nil {
		c.undecided(c.what, "several results")
		return
	}
	if c.forwards(R) {
		return
	}
	D := c.matrix()
	if D == nil {
		c.undecided(c.what, "result is "+R.String())
		return
	}
	or := origins(v)
	var es []*event
	for _, e := range c.evs {
		u, ok := e.in.(*ssa.MapUpdate)
		if !ok || e.fr.fn != c.f {
			continue
		}
		t := tableOf(u.Map)
		if t == nil {
			// a map kept in a variable on its way into the table
			if e.base.op == "site" && c.storedIn(or, e.base.sym) {
				es = append(es, e)
			}
			continue
		}
		hit := false
		for o := range origins(t) {
			hit = hit || or[o]
		}
		if hit {
			es = append(es, e)
		}
	}
	if len(es) == 0 {
		c.undecided(c.what, "no instance stored directly")
		return
	}
	// the numbering of rows, if the caller gives one
	var sc *Form
	for i, p := range c.f.Params {
		if m, ok := p.Type().Underlying().(*types.Map); ok && basicInt(m.Elem()) {
			sc = c.fr.args[i]
		}
	}
	if sc == nil {
		c.keyedCase(es, D, nil)
		return
	}
	null := z.eq(z.atom("const", "nil"), sc)
	w := c.what
	c.fs, c.what = []fact{{null, true}}, w+" without numbering"
	c.keyedCase(es, D, nil)
	c.fs, c.what = []fact{{null, false}}, w+" with numbering"
	c.keyedCase(es, D, sc)
}

// storedIn: the map made at the site is put into the table.
func (c *clu) storedIn(or map[ssa.Value]bool, sym string) bool {
	for _, e := range c.evs {
		if s, ok := e.in.(*ssa.Store); ok && e.kind == "elem" && e.val.op == "site" && e.val.sym == sym {
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
				for o := range origins(ia.X) {
					if or[o] {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *clu) keyedCase(es []*event, D, sc *Form) {
	z := c.z
	var live []*event
	for _, e := range es {
		if !isFalse(c.giv(e.guard)) {
			live = append(live, e)
		}
	}
	if len(live) != 1 {
		c.undecided(c.what, "instances are stored in several places")
		return
	}
	e := live[0]
	var row *Form // which instance
	switch len(e.loops) {
	case 1:
		l := e.loops[0]
		row = l.it
		dom := c.giv(l.dom)
		if !c.perInstance(dom, D) {
			c.domIs(e.in, dom, z.length(D))
			return
		}
		if !c.always(e) {
			return
		}
		want := row
		if sc != nil {
			want = z.atom("map", "", sc, row)
		}
		if u, ok := e.in.(*ssa.MapUpdate); ok {
			if k, ok := u.Key.(*ssa.Call); ok {
				if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && sameExpr(k.Call.Args[0], u.Map) {
					c.fail(e.in, nil, "an instance is kept under the number of instances already in its cluster")
					return
				}
			}
		}
		if !c.eq(e.in, "the position an instance is kept under", e.key, want) {
			return
		}
	case 2:
		// the members of every region
		l, m := e.loops[0], e.loops[1]
		dom := c.giv(m.dom)
		if dom.op != "len" || len(dom.args) != 1 || dom.args[0].op != "call" || dom.args[0].sym != modPath+"/utils.UFVarids.0" {
			var mem *Form
			dom.walk(func(d *Form) {
				if d.op == "len" && len(d.args) == 1 && d.args[0].op == "call" && d.args[0].sym == modPath+"/utils.UFVarids.0" {
					mem = d
				}
			})
			if mem != nil && !dom.opq && dom.op != "ite" && !hasSite(dom) {
				c.fail(e.in, nil, "takes "+dom.String()+" members of a region, expected "+mem.String())
				return
			}
			c.undecided(c.what, "loop over "+dom.String())
			return
		}
		node := dom.args[0].args[0]
		if node.op != "idx" || node.args[1] != l.it || !regionsOf(node.args[0], D) {
			if node.opq || hasSite(node) {
				c.undecided(c.what, "regions "+node.String())
			} else {
				c.fail(e.in, node, "takes the members of "+node.String())
			}
			return
		}
		rg := node.args[0]
		if d := c.giv(l.dom); d != z.length(D) && d != z.length(rg) {
			c.eq(e.in, "the range of the loop", d, z.length(D))
			return
		}
		root := z.eq(node, z.atom("fld", "Pa", node))
		if !c.eq(e.in, "the members of a region are taken when", c.giv(e.guard), root) {
			return
		}
		g := *e
		g.guard = z.tru()
		if !c.always(&g) {
			return
		}
		row = z.idx(dom.args[0], m.it)
		if !c.eq(e.in, "the position an instance is kept under", e.key, row) {
			return
		}
	default:
		c.undecided(c.what, "loops")
		return
	}
	if c.values(e, z.idx(D, row), D) {
		c.r.ok("conserved", c.what+": every instance once, under its position, with its values")
	}
}

func regionsOf(f, D *Form) bool {
	return f.op == "call" && strings.Contains(f.sym, "/utils/cluster.") && len(f.args) > 0 && f.args[0] == D
}

// perInstance: a loop that runs once per instance.
func (c *clu) perInstance(dom, D *Form) bool {
	z := c.z
	if dom == z.length(D) {
		return true
	}
	if dom.op != "len" || len(dom.args) != 1 {
		return false
	}
	g := dom.args[0]
	if c.isParam(g) {
		// the assignment, one entry per instance
		return !c.isMatrix(g)
	}
	if g.op == "site" {
		if k, ok := siteInfo[g.sym].(*ssa.Call); ok {
			return strings.HasSuffix(calleeFull(k.Common()), "PartitionPoints")
		}
		if ex, ok := siteInfo[g.sym].(*ssa.Extract); ok {
			if k, ok := ex.Tuple.(*ssa.Call); ok {
				return strings.HasSuffix(calleeFull(k.Common()), "PartitionPoints")
			}
		}
	}
	return false
}

// values: what the event stores is a fresh slice with the values of the row.
func (c *clu) values(e *event, row, D *Form) bool {
	z := c.z
	got := c.giv(e.val)
	n := z.length(row)
	okLen := func(f *Form) bool { return f == n || f == z.length(z.idx(D, z.num(0))) }
	if got == row {
		return true
	}
	if got.op == "arr" && okLen(got.args[0]) {
		it := c.bound()
		el := z.open(got, it)
		// all rows are as long as the first
		if first := z.length(z.idx(D, z.num(0))); got.args[0] == first {
			el = z.assume(el, z.ge0(z.sub(it, n)), false)
		}
		if el == z.idx(row, it) || el == z.atom("trunc", "", z.idx(row, it)) {
			return true
		}
		if !isZero(el) {
			return c.eq(e.in, "value kept for an instance", el, z.idx(row, it))
		}
	} else if got.op == "arr" || !(got.op == "site" || got.opq || got.op == "len") {
		return c.eq(e.in, "what is kept for an instance", got, row)
	}
	// made empty and filled afterwards
	u, _ := e.in.(*ssa.MapUpdate)
	if u == nil {
		c.undecided(c.what, "values")
		return false
	}
	var mine []*event
	for _, o := range c.evs {
		if o == e || o.fr != e.fr {
			continue
		}
		var dst ssa.Value
		switch in := o.in.(type) {
		case *ssa.Call:
			if o.name == "copy" {
				dst = in.Call.Args[0]
			}
		case *ssa.Store:
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok && o.kind == "elem" {
				dst = ia.X
			}
		}
		if dst == nil {
			continue
		}
		if dst == u.Value {
			mine = append(mine, o)
			continue
		}
		if lk, ok := dst.(*ssa.Lookup); ok && sameExpr(lk.X, u.Map) && sameExpr(lk.Index, u.Key) {
			mine = append(mine, o)
		}
	}
	if mk, ok := u.Value.(*ssa.MakeSlice); ok {
		if k := c.giv(c.vs.at(e.fr, mk.Len, mk.Block())); !okLen(k) && k != z.num(0) {
			return c.eq(e.in, "number of values kept for an instance", k, n)
		}
	}
	if len(mine) == 0 {
		if u2, ok := u.Value.(*ssa.MakeSlice); ok && len(*u2.Referrers()) == 1 {
			return c.fail(e.in, nil, "the slice kept for an instance is never filled")
		}
		c.undecided(c.what, "how the values are filled in")
		return false
	}
	if len(mine) > 1 {
		c.undecided(c.what, "the values are filled in twice")
		return false
	}
	o := mine[0]
	k := len(e.loops)
	if o.kind == "call" {
		if len(o.loops) != k {
			c.undecided(c.what, "copied in another loop")
			return false
		}
		if !c.eq(o.in, "condition of the copy", c.giv(o.guard), c.giv(e.guard)) {
			return false
		}
		if k := clusterIndex(u.Map); k != nil {
			if j := clusterIndex(o.in.(*ssa.Call).Call.Args[1]); j != nil && sameExpr(j, k) {
				return c.fail(o.in, nil, "the row copied for an instance is the one numbered like its cluster")
			}
		}
		return c.eq(o.in, "what is copied for an instance", o.args[1], row)
	}
	if len(o.loops) != k+1 {
		c.undecided(c.what, "filled in another loop")
		return false
	}
	l := o.loops[k]
	if !c.domIs(o.in, l.dom, n) || !c.eq(o.in, "condition of the copy", c.giv(o.guard), c.giv(e.guard)) || !c.eq(o.in, "position of a value", o.key, l.it) {
		return false
	}
	val := c.giv(o.val)
	if val.op == "trunc" {
		val = val.args[0]
	}
	return c.eq(o.in, "value kept for an instance", val, z.idx(row, l.it))
}

// clusterIndex: the index a row or a cluster is read at.
func clusterIndex(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.Index
		}
	}
	return nil
}

func isZero(f *Form) bool {
	k, ok := f.constant()
	return ok && k.Sign() == 0
}

// lists: clusters as lists of instances.
func (c *clu) lists() {
	z := c.z
	data := c.fr.args[matrixParam(c.f)]
	// the one place where an instance is appended to a list of the result
	var e *event
	for _, o := range c.evs {
		st, ok := o.in.(*ssa.Store)
		if !ok || o.kind != "elem" {
			continue
		}
		ia, _ := st.Addr.(*ssa.IndexAddr)
		if ia == nil || !listClusters(ia.X.Type()) {
			continue
		}
		if e != nil {
			c.undecided(c.what, "instances are appended in several places")
			return
		}
		e = o
	}
	if e == nil {
		c.undecided(c.what, "no instance appended directly")
		return
	}
	st := e.in.(*ssa.Store)
	ap, _ := st.Val.(*ssa.Call)
	if ap == nil {
		c.undecided(c.what, "not an append")
		return
	}
	if b, ok := ap.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		c.undecided(c.what, "not an append")
		return
	}
	if sl, ok := ap.Call.Args[0].(*ssa.Slice); ok && (sl.High != nil || sl.Low != nil) {
		if ld, ok := sl.X.(*ssa.UnOp); ok && sameExpr(ld.X, st.Addr) {
			if k, ok := sl.High.(*ssa.Const); ok && k.Int64() == 0 {
				c.fail(e.in, nil, "the instances already in the cluster are dropped")
				return
			}
		}
	}
	ld, _ := ap.Call.Args[0].(*ssa.UnOp)
	if ld == nil || !sameExpr(ld.X, st.Addr) {
		c.undecided(c.what, "appends to another list")
		return
	}
	if e.val.op != "append" || len(e.val.args) != 2 || e.val.args[1].op != "lit" || len(e.val.args[1].args) != 1 {
		c.undecided(c.what, "appends "+e.val.String())
		return
	}
	if len(e.loops) != 1 {
		c.undecided(c.what, "loops")
		return
	}
	l := e.loops[0]
	item := e.val.args[1].args[0]
	M := c.call(modPath+"/learn.DataToMatrixF", 0, data)
	dom := c.giv(l.dom)
	if dom.opq {
		if n := c.made(e); n != nil {
			dom = n
		}
	}
	if dom != z.length(data) && !c.perInstance(dom, M) && !c.assignment(dom, M) {
		c.domIs(e.in, dom, z.length(M))
		return
	}
	if !c.always(e) {
		return
	}
	if item == z.idx(data, l.it) {
		c.r.ok("conserved", c.what+": every instance appended once")
		return
	}
	if item.op == "site" && strings.HasPrefix(item.sym, "map") && len(item.args) == 0 {
		c.fail(e.in, nil, "all instances share one map")
		return
	}
	w, sub := c.filled(e, "an instance of a cluster", item)
	if w == nil {
		return
	}
	ok := false
	for _, fn := range []string{"DataToMatrixF", "DataToMatrix"} {
		M, S := c.call(modPath+"/learn."+fn, 0, data), c.call(modPath+"/learn."+fn, 1, data)
		in := w.loops[len(w.loops)-1]
		if sub(in.dom) != z.length(z.idx(M, l.it)) && fn == "DataToMatrixF" && !strings.Contains(sub(in.dom).key, "DataToMatrixF") {
			continue
		}
		val := c.giv(sub(w.val))
		if val.op == "trunc" {
			val = val.args[0]
		}
		if !c.domIs(w.in, sub(in.dom), z.length(z.idx(M, l.it))) || !c.always(w) {
			return
		}
		if !c.eq(w.in, "variable of a value", sub(w.key), z.atom("map", "", S, in.it)) || !c.eq(w.in, "value of a variable", val, z.idx(z.idx(M, l.it), in.it)) {
			return
		}
		ok = true
		break
	}
	if !ok {
		c.undecided(c.what, "instances are "+item.String())
		return
	}
	c.r.ok("conserved", c.what+": every instance appended once, with all its values")
	c.numbered(e, M)
}

// assignment: a slice made with one entry per instance.
func (c *clu) assignment(dom, M *Form) bool {
	return dom == c.z.length(M)
}

// made: the length a slice was made with, for a loop of a helper over that slice.
func (c *clu) made(e *event) *Form {
	if e.fr.caller != c.fr || e.fr.site == nil {
		return nil
	}
	for b := e.in.Block(); b != nil; b = b.Idom() {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS {
			continue
		}
		k, ok := cmp.Y.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := k.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
			continue
		}
		for i, p := range e.fr.fn.Params {
			if k.Call.Args[0] == ssa.Value(p) && i < len(e.fr.site.Common().Args) {
				if m, ok := e.fr.site.Common().Args[i].(*ssa.MakeSlice); ok {
					return c.vs.at(c.fr, m.Len, m.Block())
				}
			}
		}
	}
	return nil
}

// numbered: the members of every region get one number, counted up per region.
func (c *clu) numbered(e *event, M *Form) {
	z := c.z
	for _, o := range c.evs {
		st, ok := o.in.(*ssa.Store)
		if !ok || o.kind != "elem" || len(o.loops) != 2 || o.fr.fn != c.f {
			continue
		}
		dom := c.giv(o.loops[1].dom)
		if dom.op != "len" || dom.args[0].op != "call" || dom.args[0].sym != modPath+"/utils.UFVarids.0" {
			continue
		}
		node := dom.args[0].args[0]
		if node.op != "idx" || node.args[1] != o.loops[0].it || !regionsOf(node.args[0], M) {
			continue
		}
		root := z.eq(node, z.atom("fld", "Pa", node))
		what := c.what
		c.what += ": numbers of clusters"
		if c.eq(o.in, "the members of a region are numbered when", c.giv(o.guard), root) &&
			c.domIs(o.in, o.loops[0].dom, z.length(node.args[0])) &&
			c.eq(o.in, "the instance numbered", o.key, z.idx(dom.args[0], o.loops[1].it)) {
			g := *o
			g.guard = z.tru()
			switch {
			case !c.always(&g):
			case o.val.op == "iter" || o.val.op == "key":
				c.fail(o.in, nil, "clusters are numbered by position: "+o.val.String())
			case counts(st.Val):
				c.r.ok("conserved", c.what)
			default:
				c.undecided(c.what, "number "+o.val.String())
			}
		}
		c.what = what
	}
}

// counts: a counter that starts at 0 and is raised by one.
func counts(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	ups := 0
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || x.Op.String() != "+" || k.Value.ExactString() != "1" {
				return false
			}
			ups++
			return rec(x.X)
		case *ssa.Const:
			return x.Value != nil && x.Value.ExactString() == "0"
		}
		return false
	}
	return rec(v) && ups == 1
}

// ---- conversions ----

func (c *clu) extract() {
	z := c.z
	v, D := c.fr.args[0], c.fr.args[1]
	want := c.arr(z.length(D), func(i *Form) *Form { return z.atom("map", "", z.idx(D, i), v) })
	if c.eq(nil, "the column", c.vs.retForm(c.fr, 0), want) {
		c.r.ok("conserved", c.what)
	}
}

func (c *clu) toData() {
	z := c.z
	M := c.fr.args[0]
	R := c.vs.retForm(c.fr, 0)
	if R.op != "arr" {
		c.undecided(c.what, "result "+R.String())
		return
	}
	if !c.eq(nil, "number of instances", R.args[0], z.length(M)) {
		return
	}
	it := c.bound()
	at := &event{in: c.f.Blocks[0].Instrs[0]}
	e, sub := c.filled(at, "an instance", z.open(R, it))
	if e == nil {
		return
	}
	l := e.loops[len(e.loops)-1]
	if c.domIs(e.in, sub(l.dom), z.length(z.idx(M, it))) && c.always(e) &&
		c.eq(e.in, "variable of a value", sub(e.key), l.it) && c.eq(e.in, "value of a variable", sub(e.val), z.idx(z.idx(M, it), l.it)) {
		c.r.ok("conserved", c.what)
	}
}

// place: the row an element is stored in, as an element of a table.
func (c *clu) place(e *event) (table, i *Form) {
	st, ok := e.in.(*ssa.Store)
	if !ok {
		return nil, nil
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return nil, nil
	}
	if u, ok := ia.X.(*ssa.UnOp); ok {
		if ia2, ok := u.X.(*ssa.IndexAddr); ok {
			return c.vs.at(e.fr, ia2.X, st.Block()), c.vs.at(e.fr, ia2.Index, st.Block())
		}
	}
	// a row that is put into the table elsewhere
	for _, o := range c.evs {
		if s, ok := o.in.(*ssa.Store); ok && o.kind == "elem" && s.Val == ia.X {
			return o.base, o.key
		}
	}
	return nil, nil
}

// cells: the stores of values into rows of the result.
func (c *clu) cells(R *Form) ([]*event, bool) {
	var out []*event
	for _, e := range c.evs {
		if e.kind != "elem" || isFalse(c.giv(e.guard)) {
			continue
		}
		st, _ := e.in.(*ssa.Store)
		if st == nil {
			continue
		}
		if _, isRow := st.Val.Type().Underlying().(*types.Slice); isRow {
			if e.base == R && (len(e.loops) != 1 || c.giv(e.key) != e.loops[0].it) {
				c.undecided(c.what, "rows made elsewhere")
				return nil, false
			}
			continue
		}
		t, i := c.place(e)
		if t == nil || t != R {
			c.undecided(c.what, "a value stored elsewhere")
			return nil, false
		}
		if len(e.loops) != 2 {
			c.undecided(c.what, "loops")
			return nil, false
		}
		if !c.eq(e.in, "row of a value", i, e.loops[0].it) {
			return nil, false
		}
		out = append(out, e)
	}
	return out, true
}

func (c *clu) nonNil() {
	z := c.z
	D := c.fr.args[0]
	nul := z.atom("const", "nil")
	c.fs = []fact{{z.eq(nul, D), false}, {z.eq(nul, z.idx(D, z.num(0))), false}}
}

// loopsOver: every instance, every variable of it.
func (c *clu) loopsOver(e *event) bool {
	z := c.z
	D := c.fr.args[0]
	g := *e
	g.guard = z.tru()
	return c.domIs(e.in, e.loops[0].dom, z.length(D)) && c.domIs(e.in, e.loops[1].dom, z.atom("maprange", "", z.idx(D, e.loops[0].it))) && c.always(&g)
}

func (c *clu) complete() {
	c.nonNil()
	_, R := c.ret(0)
	if R == nil || R.op != "site" {
		c.undecided(c.what, "result")
		return
	}
	es, ok := c.cells(R)
	if !ok {
		return
	}
	if len(es) != 1 {
		c.undecided(c.what, "values stored in several places")
		return
	}
	e := es[0]
	z := c.z
	row := z.idx(c.fr.args[0], e.loops[0].it)
	key := z.atom("key", "", row, e.loops[1].it)
	if c.loopsOver(e) && c.always(e) && c.eq(e.in, "place of a value", e.key, key) && c.eq(e.in, "value of a variable", e.val, z.atom("map", "", row, key)) {
		c.r.ok("conserved", c.what)
	}
}

// toMatrix: a variable gets the next free column when it is met first, and its column is noted both ways.
func (c *clu) toMatrix() {
	z := c.z
	c.nonNil()
	_, R := c.ret(0)
	_, S := c.ret(1)
	if R == nil || R.op != "site" || S == nil || S.op != "site" {
		c.undecided(c.what, "result")
		return
	}
	es, ok := c.cells(R)
	if !ok {
		return
	}
	var zm, sm *event
	for _, e := range c.evs {
		if e.kind != "map" {
			continue
		}
		switch {
		case e.base == S && sm == nil:
			sm = e
		case e.base != S && e.base.op == "site" && zm == nil:
			zm = e
		default:
			c.undecided(c.what, "maps")
			return
		}
	}
	if zm == nil || sm == nil || len(zm.loops) != 2 || len(sm.loops) != 2 || len(es) == 0 {
		c.undecided(c.what, "columns")
		return
	}
	row := z.idx(c.fr.args[0], zm.loops[0].it)
	key := z.atom("key", "", row, zm.loops[1].it)
	if !c.loopsOver(zm) || !c.eq(zm.in, "variable given a column", zm.key, key) {
		return
	}
	has := z.atom("b:has", "", zm.base, key)
	found := false
	zm.guard.walk(func(d *Form) {
		if strings.HasPrefix(d.op, "b:has") || d.op == "b" && d.sym == "has" {
			if len(d.args) == 2 && d.args[0] == zm.base {
				has, found = d, true
			}
		}
	})
	if !found {
		c.undecided(c.what, "when a column is given: "+zm.guard.String())
		return
	}
	isNew := z.ite(has, z.fls(), z.tru())
	col := zm.val
	if col.op != "acc" {
		if col.opq || hasSite(col) {
			c.undecided(c.what, "column "+col.String())
		} else {
			c.fail(zm.in, nil, "the column given to a variable is "+col.String())
		}
		return
	}
	if !c.eq(zm.in, "a column is given when", zm.guard, isNew) || !c.eq(sm.in, "a column is noted when", sm.guard, isNew) ||
		!c.eq(sm.in, "column noted", sm.key, col) || !c.eq(sm.in, "variable of the column", sm.val, key) {
		return
	}
	if u, ok := zm.in.(*ssa.MapUpdate); ok && !counts(u.Value) {
		c.undecided(c.what, "columns are not counted up")
		return
	}
	v := z.atom("map", "", row, key)
	for _, e := range es {
		if !c.loopsOver(e) {
			return
		}
		for _, nw := range []bool{true, false} {
			fs := c.fs
			c.fs = append(append([]fact{}, fs...), fact{has, !nw})
			g := c.giv(e.guard)
			want := z.atom("map", "", zm.base, key)
			if nw {
				want = col
			}
			k := c.giv(e.key)
			okk := isFalse(g) || k == c.giv(want) || nw && k == z.atom("map", "", zm.base, key) && e.in.Block() != zm.in.Block()
			if !okk && !c.eq(e.in, "column of a value", k, want) {
				c.fs = fs
				return
			}
			c.fs = fs
		}
		if !c.eq(e.in, "value of a variable", e.val, v) {
			return
		}
	}
	// old and new variables alike
	all := z.fls()
	for _, e := range es {
		all = z.ite(c.giv(e.guard), z.tru(), all)
	}
	if !c.eq(es[0].in, "a value is kept when", all, z.tru()) {
		return
	}
	c.r.ok("conserved", c.what)
}

func (c *clu) scopeCopy() {
	z := c.z
	_, R := c.ret(0)
	if R == nil {
		c.undecided(c.what, "result")
		return
	}
	c.la = &learnArgs{sc: c.fr.args[0]}
	at := &event{in: c.f.Blocks[0].Instrs[0]}
	if R == c.fr.args[0] {
		c.undecided(c.what, "the scope itself")
		return
	}
	_ = z
	if c.scope(at, R, nil) {
		c.r.ok("conserved", c.what)
	}
}

// columns: one per variable, with its number of categories and its value in every instance.
func (c *clu) columns() {
	z := c.z
	D, sc := c.fr.args[0], c.fr.args[1]
	_, R := c.ret(0)
	if R == nil {
		c.undecided(c.what, "result")
		return
	}
	var e *event
	for _, o := range c.evs {
		if o.kind == "elem" && o.base == R && R.op == "site" {
			if e != nil {
				c.undecided(c.what, "columns stored in several places")
				return
			}
			e = o
		}
	}
	if e == nil || len(e.loops) != 1 {
		c.undecided(c.what, "columns stored elsewhere")
		return
	}
	l := e.loops[0]
	if !c.domIs(e.in, l.dom, z.atom("maprange", "", sc)) || !c.always(e) || !c.eq(e.in, "place of a column", e.key, l.it) {
		return
	}
	V := z.atom("map", "", sc, z.atom("key", "", sc, l.it))
	col := c.arr(z.length(D), func(i *Form) *Form { return z.atom("map", "", z.idx(D, i), z.atom("fld", "Varid", V)) })
	v := e.val
	if v.op != "site" {
		c.undecided(c.what, "column "+v.String())
		return
	}
	seen := 0
	for _, o := range c.evs {
		if o.kind != "field" || o.base.op != "site" || o.base.sym != v.sym || len(o.base.args) != len(v.args) {
			continue
		}
		m := map[string]*Form{}
		for i, a := range o.base.args {
			m[a.key] = v.args[i]
		}
		fv := z.subst(o.val, m)
		var want *Form
		switch o.name {
		case "Varid", "Categories":
			want = z.atom("fld", o.name, V)
		case "Data":
			want = col
		default:
			continue
		}
		seen++
		if o.name == "Varid" && fv == z.atom("key", "", sc, l.it) {
			continue
		}
		if !c.eq(o.in, o.name+" of a column", fv, want) {
			return
		}
	}
	if seen == 3 {
		c.r.ok("conserved", c.what)
	} else {
		c.undecided(c.what, "fields of a column")
	}
}
