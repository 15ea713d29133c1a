package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"

	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values computes the canonical form of SSA values. It is global value numbering with scalar
// evolution: loop counters become polynomials in the iteration number, recognised recurrences
// become sums, products, maxima and collections over the loop, calls to repository functions are
// replaced by the form of their result. No path is enumerated and nothing is executed: a merge
// point becomes a decision tree over the conditions that control it.
type Values struct {
	fbusy      map[string]bool
	apart      bool // different parameters of the function analysed are different objects
	doneOnly   bool // events: only rounds of the region that do not leave it early
	p          *Program
	z          *forms
	loops      map[*ssa.Function]*loopNest
	clos       map[string]*cloInfo
	frames     map[string]*frame
	fuse       map[*ssa.Function]*fieldUse
	nframes    int
	gstore     map[*ssa.Global]ssa.Value
	gmulti     map[*ssa.Global]bool
	modp       map[*ssa.Function]bool
	depth      int
	rowsOnly   int
	keepCall   func(*ssa.Function) bool // calls that are not replaced by their result
	lost       int                      // calls the collection of events could not follow
	runJobs    bool                     // a job handed to the queue counts as called
	asCall     func(*ssa.Function) bool // calls that stand for themselves, as functions of their arguments
	wantFields bool                     // events: also stores to fields
	inlined    map[*ssa.Function]bool
}

type cloInfo struct {
	fn   *ssa.Function
	free []*Form
}

type loop struct {
	id     int
	fn     *ssa.Function
	head   *ssa.BasicBlock
	in     map[*ssa.BasicBlock]bool
	parent *loop
	depth  int
}

type loopNest struct {
	of   map[*ssa.BasicBlock]*loop // innermost loop of a block
	head map[*ssa.BasicBlock]*loop
	all  []*loop
}

type frame struct {
	id     int
	fn     *ssa.Function
	args   []*Form
	free   []*Form
	caller *frame
	site   ssa.CallInstruction
	memo   map[vkey]*Form
	busy   map[vkey]bool
	doms   map[*loop]*Form
	dbusy  map[*loop]bool
	red    map[*ssa.Phi]*Form
	steps  map[*ssa.Phi]*Form
	sbusy  map[*ssa.Phi]bool
	ret    map[int]*Form
	arrs   map[string]*Form
	evs    map[*loop][]*arrEvent
}

type vkey struct {
	v ssa.Value
	l *loop
}

func newValues(p *Program) *Values {
	vs := &Values{p: p, z: newForms(), loops: map[*ssa.Function]*loopNest{}, clos: map[string]*cloInfo{}, frames: map[string]*frame{}, fuse: map[*ssa.Function]*fieldUse{},
		gstore: map[*ssa.Global]ssa.Value{}, gmulti: map[*ssa.Global]bool{}, modp: map[*ssa.Function]bool{}, inlined: map[*ssa.Function]bool{}}
	curForms = vs.z
	seen := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if _, dup := vs.gstore[g]; dup {
							vs.gmulti[g] = true
						}
						vs.gstore[g] = st.Val
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if x.Val == *op {
								vs.gmulti[g] = true
							}
						default:
							vs.gmulti[g] = true
						}
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		seen(f)
	}
	for _, s := range p.SPkg {
		if f := s.Func("init"); f != nil {
			seen(f)
		}
	}
	return vs
}

// ---- loops ----

func (vs *Values) nest(f *ssa.Function) *loopNest {
	if n, ok := vs.loops[f]; ok {
		return n
	}
	n := &loopNest{of: map[*ssa.BasicBlock]*loop{}, head: map[*ssa.BasicBlock]*loop{}}
	vs.loops[f] = n
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := n.head[s]
				if l == nil {
					l = &loop{fn: f, head: s, in: map[*ssa.BasicBlock]bool{s: true}}
					n.head[s] = l
					n.all = append(n.all, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.in[x] {
						continue
					}
					l.in[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	sort.Slice(n.all, func(i, j int) bool {
		if len(n.all[i].in) != len(n.all[j].in) {
			return len(n.all[i].in) > len(n.all[j].in)
		}
		return n.all[i].head.Index < n.all[j].head.Index
	})
	for i, l := range n.all {
		l.id = i
		for _, m := range n.all[:i] {
			if m.in[l.head] && m != l {
				l.parent = m
			}
		}
		if l.parent != nil {
			l.depth = l.parent.depth + 1
		}
		for b := range l.in {
			n.of[b] = l
		}
	}
	return n
}

func (vs *Values) loopOf(b *ssa.BasicBlock) *loop { return vs.nest(b.Parent()).of[b] }

// ---- frames ----

func (vs *Values) frame(fn *ssa.Function, args, free []*Form, caller *frame, site ssa.CallInstruction) *frame {
	var k []string
	for _, a := range args {
		k = append(k, a.key)
	}
	k = append(k, "|")
	for _, a := range free {
		k = append(k, a.key)
	}
	key := fmt.Sprintf("%p(%s)%s", fn, strings.Join(k, ","), vs.memKey(fn, caller, site))
	if f, ok := vs.frames[key]; ok {
		return f
	}
	vs.nframes++
	f := &frame{id: vs.nframes, fn: fn, args: args, free: free, caller: caller, site: site,
		memo: map[vkey]*Form{}, busy: map[vkey]bool{}, doms: map[*loop]*Form{}, dbusy: map[*loop]bool{}, red: map[*ssa.Phi]*Form{},
		steps: map[*ssa.Phi]*Form{}, sbusy: map[*ssa.Phi]bool{}, ret: map[int]*Form{}, arrs: map[string]*Form{}, evs: map[*loop][]*arrEvent{}}
	vs.frames[key] = f
	return f
}

// root gives the frame of a function called with unknown arguments, named by position.
func (vs *Values) root(fn *ssa.Function) *frame {
	var as []*Form
	for i := range fn.Params {
		as = append(as, vs.z.atom("leaf", fmt.Sprintf("arg%d", i)))
	}
	return vs.frame(fn, as, nil, nil, nil)
}

func (vs *Values) iter(fr *frame, l *loop) *Form {
	return vs.z.atom("iter", fmt.Sprintf("%d.%d", fr.id, l.id))
}

func (vs *Values) acc(fr *frame, x *ssa.Phi) *Form {
	return vs.z.atom("acc", fmt.Sprintf("%d.%s", fr.id, x.Name()))
}

// site gives the value of an instruction about which nothing else is known: the same value each
// time the instruction is referred to within one iteration of the loops around it.
func (vs *Values) site(fr *frame, v ssa.Value, what string) *Form {
	var as []*Form
	if in, ok := v.(ssa.Instruction); ok && in.Block() != nil {
		for l := vs.loopOf(in.Block()); l != nil; l = l.parent {
			as = append(as, vs.iter(fr, l))
		}
	}
	// a call made once per iteration gives a new value each time
	seen := map[*Form]bool{}
	for _, a := range fr.args {
		a.walk(func(g *Form) {
			if g.op == "iter" && !seen[g] {
				seen[g] = true
				as = append(as, g)
			}
		})
	}
	sym := fmt.Sprintf("%s#%d.%s", what, fr.id, v.Name())
	siteInfo[sym], siteFrame[sym] = v, fr
	return vs.z.atom("site", sym, as...)
}

// ---- values ----

// at returns the form of v as seen from block b.
func (vs *Values) at(fr *frame, v ssa.Value, b *ssa.BasicBlock) *Form {
	return vs.val(fr, v, vs.loopOf(b))
}

// val returns the form of v as seen from inside loop l (nil: outside all loops).
func (vs *Values) val(fr *frame, v ssa.Value, l *loop) *Form {
	switch x := v.(type) {
	case *ssa.Const:
		return vs.constant(x)
	case *ssa.Parameter:
		for i, q := range fr.fn.Params {
			if q == x && i < len(fr.args) {
				return fr.args[i]
			}
		}
		return vs.z.opaque("parameter")
	case *ssa.FreeVar:
		for i, q := range fr.fn.FreeVars {
			if q == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
		return vs.z.opaque("captured variable")
	case *ssa.Global:
		return vs.z.atom("global", x.String())
	case *ssa.Function:
		k := vs.z.atom("func", x.String())
		vs.clos[k.key] = &cloInfo{fn: x}
		return k
	case *ssa.Builtin:
		return vs.z.opaque("builtin")
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return vs.z.opaque("value")
	}
	dl := vs.loopOf(in.Block())
	// normalise the viewpoint: the innermost loop containing both
	ll := l
	for ll != nil && dl != nil && !ll.in[in.Block()] && ll.parent != nil && !within(dl, ll) {
		ll = ll.parent
	}
	k := vkey{v, viewpoint(dl, l)}
	if f, ok := fr.memo[k]; ok {
		return f
	}
	if fr.busy[k] {
		return vs.z.opaque("cyclic value")
	}
	if vs.depth > 4000 {
		return vs.z.opaque("too deep")
	}
	fr.busy[k] = true
	vs.depth++
	f := vs.val1(fr, v, in, dl, l)
	vs.depth--
	delete(fr.busy, k)
	if len(f.key) > 60000 {
		f = vs.z.opaque("form too large")
	}
	fr.memo[k] = f
	return f
}

func within(in, out *loop) bool {
	for ; in != nil; in = in.parent {
		if in == out {
			return true
		}
	}
	return false
}

// viewpoint: the innermost loop around the definition that also contains the use.
func viewpoint(def, use *loop) *loop {
	for d := def; d != nil; d = d.parent {
		if within(use, d) {
			return d
		}
	}
	return nil
}

func (vs *Values) val1(fr *frame, v ssa.Value, in ssa.Instruction, dl, l *loop) *Form {
	z := vs.z
	view := viewpoint(dl, l)
	if dl != view {
		// the value is used after its loop has ended
		lp := dl
		for lp.parent != view {
			lp = lp.parent
		}
		// lp is the outermost loop left; only values of a header survive unchanged
		if x, ok := v.(*ssa.Phi); ok && in.Block() == dl.head && dl == lp {
			return vs.final(fr, x, dl)
		}
		if in.Block() == lp.head && dl == lp {
			return vs.compute(fr, v, in, l)
		}
		if x, ok := v.(*ssa.Phi); ok && in.Block() == dl.head {
			// inner loop of a loop that was left as well
			_ = x
		}
		return z.opaque("value of the last iteration")
	}
	return vs.compute(fr, v, in, l)
}

func (vs *Values) constant(x *ssa.Const) *Form {
	z := vs.z
	if x.Value == nil {
		if b, ok := x.Type().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsBoolean != 0:
				return z.fls()
			case b.Info()&types.IsNumeric != 0:
				return z.num(0)
			case b.Info()&types.IsString != 0:
				return z.atom("const", `""`)
			}
		}
		if _, ok := x.Type().Underlying().(*types.Struct); ok {
			return vs.zero(x.Type())
		}
		return z.atom("const", "nil")
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return z.boolc(constant.BoolVal(x.Value))
	case constant.String:
		return z.atom("const", fmt.Sprintf("%q", constant.StringVal(x.Value)))
	case constant.Int, constant.Float:
		r := new(big.Rat)
		s := x.Value.ExactString()
		if _, ok := r.SetString(s); ok {
			return z.rat(r)
		}
	}
	return z.opaque("constant")
}

func (vs *Values) zero(t types.Type) *Form {
	z := vs.z
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return z.fls()
		case b.Info()&types.IsNumeric != 0:
			return z.num(0)
		case b.Info()&types.IsString != 0:
			return z.atom("const", `""`)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if u.NumFields() == 0 || u.NumFields() > 40 {
			return z.atom("zero", t.String())
		}
		var as []*Form
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, vs.zero(u.Field(i).Type()))
		}
		return z.atom("struct", t.String(), as...)
	case *types.Array:
		return z.atom("zero", t.String())
	}
	return z.atom("const", "nil")
}

func (vs *Values) compute(fr *frame, v ssa.Value, in ssa.Instruction, l *loop) *Form {
	z := vs.z
	val := func(x ssa.Value) *Form { return vs.val(fr, x, l) }
	switch x := v.(type) {
	case *ssa.BinOp:
		return vs.binop(x.Op, val(x.X), val(x.Y), x.X.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			return z.neg(val(x.X))
		case token.NOT:
			return z.not(val(x.X))
		case token.MUL:
			return vs.load(fr, x, l)
		}
		return z.opaque("operator " + x.Op.String())
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
		return val(*v.(ssa.Instruction).Operands(nil)[0])
	case *ssa.Convert:
		f := val(x.X)
		if isFloat(x.X.Type()) && isInt(x.Type()) {
			if _, ok := f.constant(); ok {
				return f
			}
			return z.lift1(f, func(f *Form) *Form { return z.atom("trunc", "", f) })
		}
		if numeric(x.X.Type()) && numeric(x.Type()) {
			if narrows(x) {
				if _, ok := f.constant(); !ok {
					return z.lift1(f, func(f *Form) *Form { return z.atom("narrow", x.Type().Underlying().String(), f) })
				}
			}
			return f
		}
		return z.atom("conv", types.TypeString(x.Type(), nil), f)
	case *ssa.Phi:
		if lp := vs.loopOf(x.Block()); lp != nil && lp.head == x.Block() {
			return vs.headPhi(fr, x, lp)
		}
		return vs.merge(fr, x)
	case *ssa.Call:
		return vs.call(fr, x, 0, l)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return vs.call(fr, t, x.Index, l)
		case *ssa.Lookup:
			m, k := val(t.X), val(t.Index)
			if x.Index == 0 {
				return vs.lookup(m, k)
			}
			return z.liftN([]*Form{m, k}, func(a []*Form) *Form { return z.atom("b", "has", a...) })
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return val(t.X)
			}
			return vs.isType(val(t.X), t.AssertedType)
		case *ssa.Next:
			rg, ok := t.Iter.(*ssa.Range)
			if !ok || t.IsString {
				return z.opaque("range")
			}
			lp := vs.loopOf(t.Block())
			m := val(rg.X)
			if x.Index == 0 || lp == nil {
				return z.opaque("range")
			}
			key := z.atom("key", "", m, vs.iter(fr, lp))
			if x.Index == 1 {
				return key
			}
			return vs.lookup(m, key)
		}
		return vs.site(fr, v, "x")
	case *ssa.TypeAssert:
		if x.CommaOk {
			return z.opaque("tuple")
		}
		return val(x.X)
	case *ssa.Lookup:
		if x.CommaOk {
			return z.opaque("tuple")
		}
		return vs.lookup(val(x.X), val(x.Index))
	case *ssa.Field:
		return vs.fieldOf(val(x.X), x.X.Type(), x.Field)
	case *ssa.FieldAddr:
		t := deref(x.X.Type())
		st := t.Underlying().(*types.Struct)
		f := st.Field(x.Field)
		if f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				return val(x.X)
			}
		}
		return z.atom("addr", f.Name(), val(x.X))
	case *ssa.IndexAddr:
		return z.atom("iaddr", "", val(x.X), val(x.Index))
	case *ssa.Alloc:
		return vs.site(fr, v, "new")
	case *ssa.MakeSlice:
		if c, ok := x.Len.(*ssa.Const); ok && c.Int64() == 0 {
			return z.atom("lit", "")
		}
		return vs.site(fr, v, "mk")
	case *ssa.MakeMap:
		return vs.makeMap(fr, x, l)
	case *ssa.MakeChan:
		return vs.site(fr, v, "chan")
	case *ssa.MakeClosure:
		var as []*Form
		for _, b := range x.Bindings {
			as = append(as, val(b))
		}
		k := z.atom("clo", x.Fn.String(), as...)
		vs.clos[k.key] = &cloInfo{fn: x.Fn.(*ssa.Function), free: as}
		return k
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
			f := vs.val(fr, a, l)
			if literal(a, x) {
				return vs.snapshot(fr, f, x)
			}
			return f
		}
		if x.Low == nil && x.High == nil && x.Max == nil {
			return val(x.X)
		}
		lo, hi := z.num(0), z.atom("const", "end")
		if x.Low != nil {
			lo = val(x.Low)
		}
		if x.High != nil {
			hi = val(x.High)
		}
		return z.liftN([]*Form{val(x.X), lo, hi}, func(a []*Form) *Form { return z.atom("slice", "", a...) })
	case *ssa.Index:
		return z.idx(val(x.X), val(x.Index))
	case *ssa.Range:
		return val(x.X)
	}
	return z.opaque(fmt.Sprintf("%T", v))
}

// literal: the array is filled right where it is made and only used through this slice.
func literal(a *ssa.Alloc, sl *ssa.Slice) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if r.Block() != sl.Block() {
				return false
			}
		case *ssa.Slice:
			if r != sl {
				return false
			}
		default:
			return false
		}
	}
	if sl.Referrers() != nil {
		for _, r := range *sl.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, rr := range *ia.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						return false
					}
				}
			}
		}
	}
	return true
}

func numeric(t types.Type) bool { return isInt(t) || isFloat(t) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (vs *Values) lookup(m, k *Form) *Form {
	z := vs.z
	return z.liftN([]*Form{m, k}, func(a []*Form) *Form {
		if a[0].op == "maplit" {
			var res *Form
			for i := 0; i+1 < len(a[0].args); i += 2 {
				if a[0].args[i] == a[1] {
					res = a[0].args[i+1]
				}
			}
			if res != nil {
				return res
			}
		}
		return z.atom("map", "", a...)
	})
}

func (vs *Values) fieldOf(x *Form, t types.Type, i int) *Form {
	f := t.Underlying().(*types.Struct).Field(i)
	if f.Embedded() {
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			return x
		}
	}
	return vs.z.lift1(x, func(x *Form) *Form {
		if x.op == "struct" && i < len(x.args) {
			return x.args[i]
		}
		return vs.z.atom("fld", f.Name(), x)
	})
}

// isType: the dynamic type of a node decides what Type reports, and the other way round.
func (vs *Values) isType(x *Form, t types.Type) *Form {
	z := vs.z
	n := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return z.lift1(x, func(x *Form) *Form {
		switch n {
		case "*spn.Sum":
			return z.eq(z.atom("fld", "Type", x), z.atom("const", `"sum"`))
		case "*spn.Product":
			return z.eq(z.atom("fld", "Type", x), z.atom("const", `"product"`))
		}
		return z.atom("b", "is "+n, x)
	})
}

func (vs *Values) binop(op token.Token, x, y *Form, t types.Type) *Form {
	z := vs.z
	num := numeric(t)
	switch op {
	case token.LSS, token.LEQ, token.EQL:
		// two values that are not understood are not known to be the same
		if num && x.op != "ite" && y.op != "ite" && x.opq && y.opq && !z.sub(x, y).opq {
			return z.opaque("values not understood compared")
		}
	}
	switch op {
	case token.ADD:
		if num {
			return z.add(x, y)
		}
		return z.liftN([]*Form{x, y}, func(a []*Form) *Form { return z.atom("cat", "", a...) })
	case token.SUB:
		return z.sub(x, y)
	case token.MUL:
		return z.mul(x, y)
	case token.QUO:
		if isInt(t) {
			return vs.intop("idiv", x, y)
		}
		return z.div(x, y)
	case token.REM:
		return vs.intop("mod", x, y)
	case token.LSS:
		if num {
			return z.cmp("<", x, y, isInt(t))
		}
		return z.liftN([]*Form{x, y}, func(a []*Form) *Form { return z.atom("b", "less", a...) })
	case token.LEQ:
		if num {
			return z.cmp("<=", x, y, isInt(t))
		}
		return z.liftN([]*Form{y, x}, func(a []*Form) *Form { return z.not(z.atom("b", "less", a...)) })
	case token.GTR:
		return vs.binop(token.LSS, y, x, t)
	case token.GEQ:
		return vs.binop(token.LEQ, y, x, t)
	case token.EQL:
		if num {
			return z.lift2(x, y, func(x, y *Form) *Form {
				if x.isInf() || y.isInf() {
					return z.eq(x, y)
				}
				return z.eq0(z.sub(x, y))
			})
		}
		return z.eq(x, y)
	case token.NEQ:
		return z.not(vs.binop(token.EQL, x, y, t))
	}
	return z.liftN([]*Form{x, y}, func(a []*Form) *Form { return z.atom("op", op.String(), a...) })
}

func (vs *Values) intop(op string, x, y *Form) *Form {
	z := vs.z
	return z.lift2(x, y, func(x, y *Form) *Form {
		a, ok1 := x.constant()
		b, ok2 := y.constant()
		if ok1 && ok2 && b.Sign() != 0 && a.IsInt() && b.IsInt() {
			q, r := new(big.Int).QuoRem(a.Num(), b.Num(), new(big.Int))
			if op == "idiv" {
				return z.rat(new(big.Rat).SetInt(q))
			}
			return z.rat(new(big.Rat).SetInt(r))
		}
		if ok2 && b.Cmp(big.NewRat(1, 1)) == 0 {
			if op == "idiv" {
				return x
			}
			return z.num(0)
		}
		return z.atom(op, "", x, y)
	})
}

// ---- memory ----

func (vs *Values) load(fr *frame, x *ssa.UnOp, l *loop) *Form {
	z := vs.z
	switch a := x.X.(type) {
	case *ssa.Global:
		if v, ok := vs.gstore[a]; ok && !vs.gmulti[a] {
			if in, ok := v.(ssa.Instruction); ok {
				f := vs.at(vs.root(in.Parent()), v, in.Block())
				if !f.opq {
					return f
				}
			} else if c, ok := v.(*ssa.Const); ok {
				return vs.constant(c)
			}
		}
		return z.atom("gvar", a.String())
	case *ssa.FieldAddr:
		if al, ok := a.X.(*ssa.Alloc); ok {
			if f := vs.localField(fr, al, a.Field, x, l); f != nil {
				return f
			}
		}
		if ia, ok := a.X.(*ssa.IndexAddr); ok {
			// a field of an element held by value
			if e := vs.elem(fr, ia, x, l); !e.opq && e.op == "idx" {
				return vs.fieldOf(e, deref(a.X.Type()), a.Field)
			}
		}
		base := vs.val(fr, a.X, l)
		t := deref(a.X.Type())
		return vs.fieldAt(fr, base, t, a.Field, x)
	case *ssa.IndexAddr:
		return vs.elem(fr, a, x, l)
	case *ssa.Alloc:
		return vs.cell(fr, a, x, l)
	case *ssa.FreeVar:
		// captured by reference: the cell of the enclosing function
		f := vs.val(fr, a, l)
		return vs.derefForm(f)
	case *ssa.Parameter:
		return z.lift1(vs.val(fr, a, l), func(f *Form) *Form { return vs.derefForm(f) })
	}
	return z.lift1(vs.val(fr, x.X, l), func(f *Form) *Form { return vs.derefForm(f) })
}

// cells known by their address form
func (vs *Values) derefForm(f *Form) *Form {
	z := vs.z
	switch f.op {
	case "iaddr":
		return z.idx(f.args[0], f.args[1])
	case "addr":
		return z.atom("fld", f.sym, f.args[0])
	case "cell":
		return f.args[0]
	}
	return z.atom("deref", "", f)
}

// localField: a field of a struct built in this function.
func (vs *Values) localField(fr *frame, al *ssa.Alloc, i int, at ssa.Instruction, l *loop) *Form {
	var st, whole *ssa.Store
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if r.Field != i {
				continue
			}
			for _, rr := range *r.Referrers() {
				switch rr := rr.(type) {
				case *ssa.Store:
					if rr.Addr != ssa.Value(r) || st != nil {
						return nil
					}
					st = rr
				case *ssa.UnOp:
				default:
					return nil
				}
			}
		case *ssa.Store:
			if r.Addr != ssa.Value(al) || whole != nil {
				return nil
			}
			whole = r
		}
	}
	if whole != nil {
		// a copy of another structure, not modified
		dl := vs.loopOf(whole.Block())
		if st != nil || !domInstr(whole, at) || viewpoint(dl, l) != dl || !plainStruct(al) {
			return nil
		}
		return vs.fieldOf(vs.val(fr, whole.Val, dl), deref(al.Type()), i)
	}
	if st == nil || !domInstr(st, at) {
		return nil
	}
	return vs.val(fr, st.Val, vs.loopOf(st.Block()))
}

// plainStruct: a local structure that is only read, and written in whole or by field.
func plainStruct(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(al) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if q.Addr != ssa.Value(r) {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// structCell: a structure put together field by field.
func (vs *Values) structCell(fr *frame, al *ssa.Alloc, at ssa.Instruction, l *loop) *Form {
	st, ok := deref(al.Type()).Underlying().(*types.Struct)
	if !ok || !plainStruct(al) || st.NumFields() == 0 {
		return nil
	}
	stored := map[int]bool{}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			return nil
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				if _, ok := q.(*ssa.Store); ok {
					stored[r.Field] = true
				}
			}
		}
	}
	var args []*Form
	for i := 0; i < st.NumFields(); i++ {
		if !stored[i] {
			args = append(args, vs.zero(st.Field(i).Type()))
			continue
		}
		f := vs.localField(fr, al, i, at, l)
		if f == nil {
			return nil
		}
		args = append(args, f)
	}
	return vs.z.liftN(args, func(a []*Form) *Form { return vs.z.atom("struct", types.TypeString(deref(al.Type()), nil), a...) })
}

// cell: a local variable kept in memory.
// readInto: the one call that fills the variable behind this interface (scanning or decoding).
func readInto(m *ssa.MakeInterface) ssa.Instruction {
	isReader := func(c ssa.CallInstruction) bool {
		g := c.Common().StaticCallee()
		if g == nil || g.Pkg == nil {
			return false
		}
		switch g.Pkg.Pkg.Path() {
		case "fmt":
			return strings.Contains(g.Name(), "scan") || strings.HasPrefix(g.Name(), "Scan")
		case "encoding/gob", "encoding/binary", "encoding/json":
			return g.Name() == "Decode" || g.Name() == "Read" || g.Name() == "Unmarshal"
		}
		return false
	}
	var res ssa.Instruction
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			if !isReader(r) || res != nil {
				return nil
			}
			res = r
		case *ssa.Store:
			ia, ok := r.Addr.(*ssa.IndexAddr)
			if !ok || r.Val != ssa.Value(m) {
				return nil
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok {
				return nil
			}
			for _, q := range *al.Referrers() {
				sl, ok := q.(*ssa.Slice)
				if !ok {
					continue
				}
				for _, u := range *sl.Referrers() {
					c, ok := u.(ssa.CallInstruction)
					if !ok || !isReader(c) || res != nil {
						return nil
					}
					res = c
				}
			}
		default:
			return nil
		}
	}
	return res
}

func (vs *Values) cell(fr *frame, al *ssa.Alloc, at ssa.Instruction, l *loop) *Form {
	if f := vs.structCell(fr, al, at, l); f != nil {
		return f
	}
	var sts []*ssa.Store
	var reader ssa.Instruction
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(al) {
				return vs.z.opaque("address stored")
			}
			sts = append(sts, r)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == ssa.Value(al) && closureStores(r.Fn.(*ssa.Function), i, 0) {
					return vs.z.opaque("variable assigned in a closure")
				}
			}
		case *ssa.MakeInterface:
			if c := readInto(r); c != nil && reader == nil {
				reader = c
				continue
			}
			return vs.z.opaque("address taken")
		default:
			return vs.z.opaque("address taken")
		}
	}
	if reader != nil {
		if len(sts) == 0 && domInstr(reader, at) && vs.loopOf(reader.Block()) == vs.loopOf(al.Block()) {
			return vs.z.atom("read", "", vs.val(fr, al, l))
		}
		return vs.z.opaque("address taken")
	}
	if len(sts) == 1 && domInstr(sts[0], at) {
		if dl := vs.loopOf(sts[0].Block()); viewpoint(dl, l) == dl {
			return vs.val(fr, sts[0].Val, dl)
		}
	}
	if len(sts) == 0 {
		return vs.zero(deref(al.Type()))
	}
	if f := vs.lastStored(fr, al, sts, at); f != nil {
		return f
	}
	return vs.z.opaque("variable in memory")
}

// lastStored: a variable assigned outside all loops holds what the last assignment on the way put
// there.
func (vs *Values) lastStored(fr *frame, al *ssa.Alloc, sts []*ssa.Store, at ssa.Instruction) *Form {
	z := vs.z
	if vs.loopOf(al.Block()) != nil || len(sts) > 8 {
		return nil
	}
	order := map[*ssa.BasicBlock]int{}
	for i, b := range postOrder(al.Parent()) {
		order[b] = -i
	}
	idx := func(in ssa.Instruction) int {
		for i, o := range in.Block().Instrs {
			if o == in {
				return i
			}
		}
		return -1
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			return idx(a) < idx(b)
		}
		return order[a.Block()] < order[b.Block()]
	}
	var use []*ssa.Store
	for _, s := range sts {
		if vs.loopOf(s.Block()) != nil {
			return nil
		}
		if s.Block() == at.Block() && idx(s) < idx(at) || s.Block() != at.Block() && blockReaches(s.Block(), at.Block()) {
			use = append(use, s)
		}
	}
	sort.Slice(use, func(i, j int) bool { return before(use[i], use[j]) })
	v := vs.zero(deref(al.Type()))
	for _, s := range use {
		val := vs.val(fr, s.Val, nil)
		if domInstr(s, at) {
			v = val
			continue
		}
		v = z.ite(vs.reach(fr, nil, s.Block()), val, v)
	}
	if v.opq {
		return nil
	}
	return v
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(c *ssa.BasicBlock) bool
	rec = func(c *ssa.BasicBlock) bool {
		for _, s := range c.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(a)
}

func postOrder(f *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			rec(s)
		}
		out = append(out, b)
	}
	if len(f.Blocks) > 0 {
		rec(f.Blocks[0])
	}
	return out
}

func closureStores(fn *ssa.Function, i, d int) bool {
	if d > 5 {
		return true
	}
	fv := fn.FreeVars[i]
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for j, b := range r.Bindings {
				if b == ssa.Value(fv) && closureStores(r.Fn.(*ssa.Function), j, d+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (vs *Values) makeMap(fr *frame, x *ssa.MakeMap, l *loop) *Form {
	z := vs.z
	var ups []*ssa.MapUpdate
	for _, r := range *x.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == ssa.Value(x) {
				ups = append(ups, r)
			}
		case ssa.CallInstruction:
			if b, ok := r.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return vs.site(fr, x, "map")
			}
		case *ssa.Phi, *ssa.Store, *ssa.MakeClosure:
			return vs.site(fr, x, "map")
		}
	}
	if len(ups) == 0 {
		return vs.site(fr, x, "map")
	}
	order := rpo(fr.fn)
	sort.SliceStable(ups, func(i, j int) bool {
		a, b := ups[i], ups[j]
		if a.Block() != b.Block() {
			return order[a.Block()] < order[b.Block()]
		}
		return instrIndex(a) < instrIndex(b)
	})
	lp := vs.loopOf(x.Block())
	var as []*Form
	for _, u := range ups {
		k, v := vs.at(fr, u.Key, u.Block()), vs.at(fr, u.Value, u.Block())
		if u.Block() == x.Block() {
			as = append(as, k, v)
			continue
		}
		// an entry replaced later on, before the map is used
		at := -1
		for i := 0; i < len(as); i += 2 {
			if as[i] == k {
				at = i
			}
		}
		if at < 0 || vs.loopOf(u.Block()) != lp {
			return vs.site(fr, x, "map")
		}
		for _, r := range *x.Referrers() {
			if _, ok := r.(*ssa.MapUpdate); ok {
				continue
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			if r.Block() == u.Block() && instrIndex(r) < instrIndex(u) || r.Block() != u.Block() && fwdReach(r.Block(), u.Block(), lp) {
				return vs.site(fr, x, "map")
			}
		}
		g := vs.reach(fr, lp, u.Block())
		if g.opq {
			return vs.site(fr, x, "map")
		}
		as[at+1] = z.ite(g, v, as[at+1])
	}
	return z.liftN(as, func(as []*Form) *Form { return z.atom("maplit", "", as...) })
}

// ---- merges ----

func (vs *Values) merge(fr *frame, x *ssa.Phi) *Form {
	b := x.Block()
	d := b.Idom()
	if d == nil {
		return vs.z.opaque("phi")
	}
	f := vs.tree(fr, d, func(blk *ssa.BasicBlock, pred *ssa.BasicBlock) (*Form, bool) {
		if blk != b {
			return nil, false
		}
		for i, p := range b.Preds {
			if p == pred {
				return vs.at(fr, x.Edges[i], pred), true
			}
		}
		return nil, true
	})
	if f == nil {
		return vs.z.opaque("unreachable")
	}
	return f
}

// tree builds the decision tree over the branches from block start up to where stop returns true.
// A nil result means stop is never reached (the path leaves the function or the iteration).
func (vs *Values) tree(fr *frame, start *ssa.BasicBlock, stop func(blk, pred *ssa.BasicBlock) (*Form, bool)) *Form {
	if vs.depth > 4000 {
		return vs.z.opaque("too deep")
	}
	vs.depth++
	defer func() { vs.depth-- }()
	z := vs.z
	type bk struct{ b, p *ssa.BasicBlock }
	memo := map[bk]*Form{}
	home := vs.loopOf(start)
	n := vs.nest(start.Parent())
	var rec func(b, pred *ssa.BasicBlock, d int) *Form
	var follow func(b *ssa.BasicBlock, d int) *Form
	rec = func(b, pred *ssa.BasicBlock, d int) *Form {
		if f, ok := stop(b, pred); ok {
			return f
		}
		if d > 300 {
			return z.opaque("too deep")
		}
		if f, ok := memo[bk{b, nil}]; ok {
			return f
		}
		var f *Form
		if home != nil && !home.in[b] {
			f = nil
		} else if home != nil && b == home.head && pred != nil {
			f = nil
		} else if lp := n.head[b]; lp != nil && lp != home {
			f = vs.skipLoop(fr, lp, func(from, to *ssa.BasicBlock) *Form { return rec(to, from, d+1) })
		} else {
			f = follow(b, d)
		}
		memo[bk{b, nil}] = f
		return f
	}
	follow = func(b *ssa.BasicBlock, d int) *Form {
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			x := rec(b.Succs[0], b, d+1)
			y := rec(b.Succs[1], b, d+1)
			if x == nil {
				return y
			}
			if y == nil || x == y {
				return x
			}
			return z.ite(vs.at(fr, t.Cond, b), x, y)
		case *ssa.Jump:
			return rec(b.Succs[0], b, d+1)
		}
		return nil
	}
	return follow2(start, home, n, rec, follow)
}

func follow2(start *ssa.BasicBlock, home *loop, n *loopNest, rec func(b, pred *ssa.BasicBlock, d int) *Form, follow func(*ssa.BasicBlock, int) *Form) *Form {
	if lp := n.head[start]; lp != nil && lp != home {
		return rec(start, nil, 0)
	}
	return follow(start, 0)
}

// skipLoop continues after a loop. Only one of the ways out may lead on, unless all agree.
func (vs *Values) skipLoop(fr *frame, lp *loop, next func(from, to *ssa.BasicBlock) *Form) *Form {
	var outs []*Form
	var hasHead *Form
	var bs []*ssa.BasicBlock
	for b := range lp.in {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, s := range b.Succs {
			if lp.in[s] {
				continue
			}
			f := next(b, s)
			if f == nil {
				continue
			}
			if b == lp.head {
				hasHead = f
			} else {
				f = vs.leaving(fr, f, b, lp)
			}
			outs = append(outs, f)
		}
	}
	if len(outs) == 0 {
		return nil
	}
	same := true
	for _, o := range outs {
		if o != outs[0] {
			same = false
		}
	}
	if same {
		return outs[0]
	}
	// early exits that all lead to one outcome which does not depend on the iteration: it happens
	// if any iteration takes one of them
	if hasHead != nil {
		var early *Form
		var ebs []*ssa.BasicBlock
		agree := true
		for _, b := range bs {
			if b == lp.head {
				continue
			}
			for _, s := range b.Succs {
				if !lp.in[s] {
					if f := next(b, s); f != nil {
						if early != nil && f != early {
							agree = false
						}
						early = f
						ebs = append(ebs, b)
					}
				}
			}
		}
		it := vs.iter(fr, lp)
		dom := vs.dom(fr, lp)
		if early != nil && agree && !early.opq && !early.has(it) && dom != nil && !dom.opq {
			g := vs.z.fls()
			for _, b := range ebs {
				e := vs.exitCond(fr, lp, b)
				if e == nil || e.opq || hasAcc(e, fr) {
					g = nil
					break
				}
				g = vs.z.ite(g, vs.z.tru(), e)
			}
			if g != nil && !g.opq {
				return vs.z.ite(vs.z.any(dom, it, g), early, hasHead)
			}
		}
	}
	return vs.z.opaque("loop with several exits")
}

// leftEarly: o holds after the loop was left through block b before its end.
func (vs *Values) leftEarly(fr *frame, lp *loop, b *ssa.BasicBlock, o *Form) *Form {
	g := vs.exitCond(fr, lp, b)
	dom := vs.dom(fr, lp)
	if g == nil || g.opq || dom == nil || dom.opq || o.opq {
		return vs.z.opaque("loop left early")
	}
	return vs.z.ite(vs.z.any(dom, vs.iter(fr, lp), g), o, vs.z.fls())
}

// exitCond: the condition, within one iteration, under which block b leaves the loop.
func (vs *Values) exitCond(fr *frame, lp *loop, b *ssa.BasicBlock) *Form {
	if in := vs.loopOf(b); in != lp && in != nil {
		// out of an inner loop: some iteration of it leaves, and it is not left otherwise
		for in.parent != lp {
			in = in.parent
			if in == nil {
				return vs.z.opaque("loop left early")
			}
		}
		dom := vs.dom(fr, in)
		if dom == nil || dom.opq || b == in.head {
			return vs.z.opaque("loop left early")
		}
		for x := range in.in {
			for _, s := range x.Succs {
				if x != in.head && !in.in[s] && lp.in[s] {
					return vs.z.opaque("loop left early")
				}
			}
		}
		g := vs.reach(fr, lp, in.head)
		e := vs.exitCond(fr, in, b)
		if g.opq || e.opq || hasAcc(e, fr) {
			return vs.z.opaque("loop left early")
		}
		return vs.z.ite(g, vs.z.any(dom, vs.iter(fr, in), e), vs.z.fls())
	}
	g := vs.reach(fr, lp, b)
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return g
	}
	c := vs.at(fr, iff.Cond, b)
	if lp.in[b.Succs[0]] {
		c = vs.z.not(c)
	}
	if !lp.in[b.Succs[0]] && !lp.in[b.Succs[1]] {
		c = vs.z.tru()
	}
	return vs.z.ite(g, c, vs.z.fls())
}

// hasAcc: the form refers to a value carried from one iteration to the next.
func hasAcc(f *Form, fr *frame) bool {
	b := false
	f.walk(func(g *Form) {
		if g.op == "acc" && strings.HasPrefix(g.sym, fmt.Sprintf("%d.", fr.id)) {
			b = true
		}
	})
	return b
}

func (vs *Values) leaving(fr *frame, f *Form, b *ssa.BasicBlock, lp *loop) *Form { return f }

// any: some iteration satisfies the condition.
func (z *forms) any(dom, it, g *Form) *Form {
	if isTrue(g) || isFalse(g) {
		return g
	}
	if g.op == "ite" && !g.args[0].has(it) {
		return z.ite(g.args[0], z.any(dom, it, g.args[1]), z.any(dom, it, g.args[2]))
	}
	if !g.has(it) {
		return g
	}
	g2 := z.within(g, it, dom)
	if g2 != g {
		return z.any(dom, it, g2)
	}
	return z.binder("b", "any", dom, it, g)
}

// reach: the condition under which block b is reached in an iteration of loop lp (nil: in a call
// of the function).
func (vs *Values) reach(fr *frame, lp *loop, b *ssa.BasicBlock) *Form {
	return vs.reach2(fr, lp, b, false)
}

// reachDone: as reach, for iterations that do not leave the loop early.
func (vs *Values) reachDone(fr *frame, lp *loop, b *ssa.BasicBlock) *Form {
	return vs.reach2(fr, lp, b, true)
}

func (vs *Values) reach2(fr *frame, lp *loop, b *ssa.BasicBlock, done bool) *Form {
	z := vs.z
	start := fr.fn.Blocks[0]
	if lp != nil {
		start = lp.head
	}
	if b == start {
		return z.tru()
	}
	f := vs.reachTree(fr, start, b, done)
	if f == nil {
		f = z.fls()
	}
	return f
}

func (vs *Values) reachTree(fr *frame, start, target *ssa.BasicBlock, done bool) *Form {
	z := vs.z
	memo := map[*ssa.BasicBlock]*Form{}
	home := vs.loopOf(start)
	n := vs.nest(start.Parent())
	tl := n.head[target]
	var rec func(b, pred *ssa.BasicBlock, d int) *Form
	rec = func(b, pred *ssa.BasicBlock, d int) *Form {
		if b == target {
			return z.tru()
		}
		if d > 300 {
			return z.opaque("too deep")
		}
		if f, ok := memo[b]; ok {
			return f
		}
		memo[b] = z.fls()
		var f *Form
		if home != nil && !home.in[b] && done {
			f = nil
		} else if home != nil && (!home.in[b] || (b == home.head && pred != nil)) {
			f = z.fls()
		} else if lp := n.head[b]; lp != nil && lp != home {
			if lp.in[target] && lp != tl {
				return z.opaque("inside an inner loop")
			}
			// an inner loop is passed through its ordinary exit; its early exits count only if
			// they reach the target as well
			var outs []*Form
			var bs []*ssa.BasicBlock
			for x := range lp.in {
				bs = append(bs, x)
			}
			sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
			ordinary := false
			for _, x := range bs {
				for _, s := range x.Succs {
					if !lp.in[s] {
						if o := rec(s, x, d+1); o != nil && !isFalse(o) {
							if x == lp.head {
								ordinary = true
							} else if len(lp.head.Succs) == 2 && lp.in[lp.head.Succs[0]] != lp.in[lp.head.Succs[1]] && !ordinary {
								// only reached by leaving early
								o = vs.leftEarly(fr, lp, x, o)
							}
							outs = append(outs, o)
						}
					}
				}
			}
			f = z.fls()
			for i, o := range outs {
				if i == 0 {
					f = o
				} else if o != f {
					f = z.opaque("loop with several exits")
				}
			}
		} else {
			switch t := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.If:
				if home != nil && b == home.head && home.in[b.Succs[0]] != home.in[b.Succs[1]] {
					// the iteration takes place: the loop condition holds
					if home.in[b.Succs[0]] {
						f = rec(b.Succs[0], b, d+1)
					} else {
						f = rec(b.Succs[1], b, d+1)
					}
					break
				}
				if fails(b.Succs[0]) {
					f = rec(b.Succs[1], b, d+1)
					break
				}
				if fails(b.Succs[1]) {
					f = rec(b.Succs[0], b, d+1)
					break
				}
				x, y := rec(b.Succs[0], b, d+1), rec(b.Succs[1], b, d+1)
				if x == nil {
					f = y
				} else if y == nil {
					f = x
				} else if x == y {
					f = x
				} else {
					f = z.ite(vs.at(fr, t.Cond, b), x, y)
				}
			case *ssa.Jump:
				f = rec(b.Succs[0], b, d+1)
			default:
				f = z.fls()
			}
		}
		memo[b] = f
		return f
	}
	return rec(start, nil, 0)
}

// ---- loops: counters, domains, reductions ----

// step: the value of a header phi at the end of an iteration.
func (vs *Values) step(fr *frame, x *ssa.Phi, lp *loop) *Form {
	if f, ok := fr.steps[x]; ok {
		return f
	}
	if fr.sbusy[x] {
		return nil
	}
	fr.sbusy[x] = true
	f := vs.tree(fr, lp.head, func(blk, pred *ssa.BasicBlock) (*Form, bool) {
		if blk != lp.head || pred == nil || !lp.in[pred] {
			return nil, false
		}
		for i, p := range blk.Preds {
			if p == pred {
				return vs.at(fr, x.Edges[i], pred), true
			}
		}
		return nil, true
	})
	delete(fr.sbusy, x)
	if f == nil {
		f = vs.z.opaque("no iteration completes")
	}
	fr.steps[x] = f
	return f
}

func (vs *Values) initial(fr *frame, x *ssa.Phi, lp *loop) *Form {
	var f *Form
	for i, p := range x.Block().Preds {
		if lp.in[p] {
			continue
		}
		g := vs.val(fr, x.Edges[i], lp.parent)
		if f != nil && f != g {
			// several ways into the loop: merge them
			b := x.Block()
			d := b.Idom()
			if d == nil {
				return vs.z.opaque("loop entry")
			}
			t := vs.tree(fr, d, func(blk, pred *ssa.BasicBlock) (*Form, bool) {
				if blk != b {
					return nil, false
				}
				for i, p := range b.Preds {
					if p == pred && !lp.in[p] {
						return vs.at(fr, x.Edges[i], pred), true
					}
				}
				return nil, true
			})
			if t == nil {
				return vs.z.opaque("loop entry")
			}
			return t
		}
		f = g
	}
	if f == nil {
		return vs.z.opaque("loop entry")
	}
	return f
}

// counterOf recognises phi = init + d*iteration by looking at the edges only.
func (vs *Values) counterOf(fr *frame, x *ssa.Phi, lp *loop) (*Form, bool) {
	if !isInt(x.Type()) && !isFloat(x.Type()) {
		return nil, false
	}
	var d *big.Rat
	for i, p := range x.Block().Preds {
		if !lp.in[p] {
			continue
		}
		off, ok := addConst(x.Edges[i], x, 0)
		if !ok {
			return nil, false
		}
		if d != nil && d.Cmp(off) != 0 {
			return nil, false
		}
		d = off
	}
	if d == nil || d.Sign() == 0 {
		return nil, false
	}
	init := vs.initial(fr, x, lp)
	return vs.z.add(init, vs.z.scale(vs.iter(fr, lp), d)), true
}

// addConst: v = x + constant through additions only.
func addConst(v ssa.Value, x *ssa.Phi, d int) (*big.Rat, bool) {
	if v == ssa.Value(x) {
		return new(big.Rat), true
	}
	if d > 10 {
		return nil, false
	}
	switch b := v.(type) {
	case *ssa.BinOp:
		c, isc := b.Y.(*ssa.Const)
		o := b.X
		if !isc && b.Op == token.ADD {
			c, isc = b.X.(*ssa.Const)
			o = b.Y
		}
		if !isc || c.Value == nil || (b.Op != token.ADD && b.Op != token.SUB) {
			return nil, false
		}
		r := new(big.Rat)
		if _, ok := r.SetString(c.Value.ExactString()); !ok {
			return nil, false
		}
		if b.Op == token.SUB {
			r.Neg(r)
		}
		s, ok := addConst(o, x, d+1)
		if !ok {
			return nil, false
		}
		return r.Add(r, s), true
	case *ssa.Phi:
		// a merge where every way adds the same
		var res *big.Rat
		for _, e := range b.Edges {
			s, ok := addConst(e, x, d+1)
			if !ok || (res != nil && res.Cmp(s) != 0) {
				return nil, false
			}
			res = s
		}
		if res != nil {
			return res, true
		}
	}
	return nil, false
}

func (vs *Values) headPhi(fr *frame, x *ssa.Phi, lp *loop) *Form {
	if f, ok := vs.counterOf(fr, x, lp); ok {
		return f
	}
	// unchanged through the loop
	same := true
	for i, p := range x.Block().Preds {
		if lp.in[p] && x.Edges[i] != ssa.Value(x) {
			same = false
		}
	}
	if same {
		return vs.initial(fr, x, lp)
	}
	return vs.acc(fr, x)
}

// dom: the number of iterations of a loop that leaves through its header, or what it ranges over.
func (vs *Values) dom(fr *frame, lp *loop) *Form {
	if f, ok := fr.doms[lp]; ok {
		return f
	}
	if fr.dbusy[lp] {
		return vs.z.opaque("cyclic loop")
	}
	fr.dbusy[lp] = true
	f := vs.dom1(fr, lp)
	delete(fr.dbusy, lp)
	fr.doms[lp] = f
	return f
}

func (vs *Values) dom1(fr *frame, lp *loop) *Form {
	z := vs.z
	h := lp.head
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return z.opaque("loop without a header condition")
	}
	in0, in1 := lp.in[h.Succs[0]], lp.in[h.Succs[1]]
	if in0 == in1 {
		return z.opaque("loop without a header condition")
	}
	// map ranges
	if e, ok := iff.Cond.(*ssa.Extract); ok && e.Index == 0 {
		if nx, ok := e.Tuple.(*ssa.Next); ok {
			rg := nx.Iter.(*ssa.Range)
			if nx.IsString {
				return z.opaque("string range")
			}
			return z.atom("maprange", "", vs.val(fr, rg.X, lp.parent))
		}
	}
	c := vs.at(fr, iff.Cond, h)
	if !in0 {
		c = z.not(c)
	}
	it := vs.iter(fr, lp)
	if k := z.trips(c, it); k != nil {
		return k
	}
	if c.opq {
		return z.opaque("loop condition")
	}
	return z.atom("while", fmt.Sprintf("%d.%d", fr.id, lp.id), c)
}

// trips: the number of iterations while condition c (a function of the iteration number) holds.
func (z *forms) trips(c, it *Form) *Form {
	var p *Form
	switch {
	case c.op == "ge0":
		p = c.args[0]
	case c.op == "ite" && c.args[0].op == "ge0" && isFalse(c.args[1]) && isTrue(c.args[2]):
		p = z.sub(z.neg(c.args[0].args[0]), z.num(1))
	case c.op == "ite" && c.args[0].op == "eq0" && isFalse(c.args[1]) && isTrue(c.args[2]):
		// i != n
		q := c.args[0].args[0]
		a, d, ok := linearIn(q, it)
		if !ok {
			return nil
		}
		if d.Sign() > 0 {
			a, d = z.neg(a), new(big.Rat).Neg(d)
		}
		if d.Cmp(big.NewRat(-1, 1)) == 0 {
			if d.Sign() < 0 {
				return a
			}
		}
		return nil
	case c.op == "ite" && isFalse(c.args[1]) && isTrue(c.args[2]):
		return nil
	case c.op == "ite":
		// several conditions at once: the smallest count
		if !c.args[0].has(it) {
			x, y := z.trips(c.args[1], it), z.trips(c.args[2], it)
			if isFalse(c.args[1]) {
				x = z.num(0)
			}
			if isFalse(c.args[2]) {
				y = z.num(0)
			}
			if x == nil || y == nil {
				return nil
			}
			return z.ite(c.args[0], x, y)
		}
		if isFalse(c.args[2]) {
			x, y := z.trips(c.args[0], it), z.trips(c.args[1], it)
			if x != nil && y != nil {
				return z.extr("min2", x, y)
			}
		}
		if isFalse(c.args[1]) {
			x, y := z.trips(z.not(c.args[0]), it), z.trips(c.args[2], it)
			if x != nil && y != nil {
				return z.extr("min2", x, y)
			}
		}
		return nil
	default:
		return nil
	}
	a, d, ok := linearIn(p, it)
	if !ok || d.Sign() >= 0 {
		return nil
	}
	// a + d*it >= 0, d < 0
	if d.Cmp(big.NewRat(-1, 1)) == 0 {
		return z.add(a, z.num(1))
	}
	return z.add(z.atom("idiv", "", a, z.rat(new(big.Rat).Neg(d))), z.num(1))
}

// linearIn splits p = a + d*it.
func linearIn(p, it *Form) (*Form, *big.Rat, bool) {
	z := &forms{}
	_ = z
	d := new(big.Rat)
	var rest []mono
	for _, m := range p.monos() {
		if len(m.at) == 1 && m.at[0].f == it && m.at[0].e == 1 {
			d = m.c
			continue
		}
		for _, q := range m.at {
			if q.f.has(it) {
				return nil, nil, false
			}
		}
		rest = append(rest, m)
	}
	if d.Sign() == 0 {
		return nil, nil, false
	}
	return curForms.poly(rest), d, true
}

// curForms is the table in use (linearIn is called without one).
var curForms *forms

// final: the value of a header phi after the loop has ended through its header.
func (vs *Values) final(fr *frame, x *ssa.Phi, lp *loop) *Form {
	if f, ok := fr.red[x]; ok {
		return f
	}
	fr.red[x] = vs.z.opaque("cyclic reduction")
	f := vs.final1(fr, x, lp)
	fr.red[x] = f
	return f
}

func (vs *Values) final1(fr *frame, x *ssa.Phi, lp *loop) *Form {
	z := vs.z
	it := vs.iter(fr, lp)
	dom := vs.dom(fr, lp)
	if c, ok := vs.counterOf(fr, x, lp); ok {
		if dom.opq {
			return dom
		}
		if isDom(dom) {
			dom = z.atom("count", "", dom)
		}
		return z.subst(c, map[string]*Form{it.key: dom})
	}
	brk := vs.breaks(lp)
	if brk && !vs.cutShort(fr, lp) {
		return z.opaque("loop with a break")
	}
	init := vs.initial(fr, x, lp)
	st := vs.step(fr, x, lp)
	if st == nil {
		return z.opaque("recurrence")
	}
	acc := vs.acc(fr, x)
	if os.Getenv("FDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "phi %s in %s: init %s step %s\n", x.Name(), fr.fn, init, st)
	}
	if st == acc {
		return init
	}
	f := vs.reduction(fr, x, lp, dom, it, acc, init, st)
	if brk {
		return z.lift1(f, func(f *Form) *Form {
			if f.opq || !hasReduction(f) {
				return z.opaque("loop with a break")
			}
			return z.atom("partial", "", f)
		})
	}
	return f
}

// hasReduction: the form is built from a sum, product or extremum over a loop.
func hasReduction(f *Form) bool {
	for _, m := range f.monos() {
		for _, p := range m.at {
			switch p.f.op {
			case "sum", "prod", "max", "min":
				return true
			}
		}
	}
	return false
}

// cutShort: the loop is left early under conditions that are understood and that do not make the
// remaining iterations irrelevant.
func (vs *Values) cutShort(fr *frame, lp *loop) bool { return vs.stopsEarly(fr, lp) == "early" }

// stopsEarly: how the loop is left early: "" if not understood, "earlyinf" on an infinite value.
func (vs *Values) stopsEarly(fr *frame, lp *loop) string {
	z := vs.z
	run := z.atom("leaf", "running")
	found, inf := false, false
	for b := range lp.in {
		if b == lp.head {
			continue
		}
		for _, s := range b.Succs {
			if lp.in[s] {
				continue
			}
			c := vs.exitCond(fr, lp, b)
			if c == nil {
				return ""
			}
			c = z.rewrite(c, func(d *Form) *Form {
				if d.op == "acc" {
					return run
				}
				return nil
			})
			if c.opq {
				return ""
			}
			found = true
			ok := true
			c.walk(func(d *Form) {
				if d.isInf() || d.op == "b" && d.sym == "isinf" {
					inf = true // nothing that follows changes an infinite total
				}
				if d.op == "site" {
					ok = false
				}
				// the end of the range, tested inside
				if d.op == "ge0" || d.op == "eq0" {
					if _, _, lin := linearIn(d.args[0], vs.iter(fr, lp)); lin {
						ok = false
					}
				}
			})
			if !ok {
				return ""
			}
		}
	}
	switch {
	case !found:
		return ""
	case inf:
		return "earlyinf"
	}
	return "early"
}

func mentions(f, a *Form) bool {
	if !f.opq {
		return false
	}
	seen := map[*Form]bool{}
	var rec func(f *Form) bool
	rec = func(f *Form) bool {
		if f == a {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, x := range f.args {
			if rec(x) {
				return true
			}
		}
		for _, m := range f.mons {
			for _, p := range m.at {
				if rec(p.f) {
					return true
				}
			}
		}
		return false
	}
	return rec(f)
}

// leaves maps over the leaves of a decision tree, failing if fn fails.
func (z *forms) leaves(f *Form, fn func(*Form) *Form) *Form {
	if f.op == "ite" {
		a, b := z.leaves(f.args[1], fn), z.leaves(f.args[2], fn)
		if a == nil || b == nil {
			return nil
		}
		return z.ite(f.args[0], a, b)
	}
	return fn(f)
}

func (z *forms) conds(f *Form, fn func(c *Form)) {
	if f.op == "ite" {
		fn(f.args[0])
		z.conds(f.args[1], fn)
		z.conds(f.args[2], fn)
	}
}

// fixedCond: a condition that decides one of the trees and does not change during the loop.
func (z *forms) fixedCond(it, acc *Form, fs ...*Form) *Form {
	for _, f := range fs {
		if f.op == "ite" && !f.args[0].has(it) && !f.args[0].opq {
			return f.args[0]
		}
	}
	return nil
}

type assumed struct {
	c *Form
	v bool
}

func (vs *Values) reduction(fr *frame, x *ssa.Phi, lp *loop, dom, it, acc, init, st *Form, assume ...assumed) *Form {
	z := vs.z
	if c := z.fixedCond(it, acc, st, init, dom); c != nil {
		sub := func(v bool) *Form {
			return vs.reduction(fr, x, lp, z.restrict(dom, c, v), it, acc, z.restrict(init, c, v), z.restrict(st, c, v), append(append([]assumed{}, assume...), assumed{c, v})...)
		}
		return z.ite(c, sub(true), sub(false))
	}
	condAcc := false
	z.conds(st, func(c *Form) {
		if mentions(c, acc) {
			condAcc = true
		}
	})
	if f := vs.tieCount(fr, x, lp, dom, it, acc, st); f != nil {
		return f
	}
	if !condAcc {
		// sum
		d := z.leaves(st, func(f *Form) *Form {
			g := z.sub(f, acc)
			if mentions(g, acc) {
				return nil
			}
			return g
		})
		if d != nil && numeric(x.Type()) {
			if dom.opq || d.opq {
				return z.opaque("sum")
			}
			return z.total("sum", dom, it, d, init)
		}
		// product
		d = z.leaves(st, func(f *Form) *Form {
			if f == acc {
				return z.num(1)
			}
			g := z.div(f, acc)
			if mentions(g, acc) {
				return nil
			}
			return g
		})
		if d != nil && numeric(x.Type()) {
			if dom.opq || d.opq {
				return z.opaque("product")
			}
			return z.total("prod", dom, it, d, init)
		}
		// collections
		cst := st
		if la := z.length(acc); mentions(st, la) && isEmpty(init) && !isDom(dom) {
			// how many were collected so far: as many as there were turns, if every turn adds one
			every := z.leaves(st, func(f *Form) *Form {
				if f.op == "append" && f.args[0] == acc && f.args[1].op == "lit" && len(f.args[1].args) == 1 {
					return f
				}
				return nil
			})
			k := it
			if every == nil {
				k = z.atom("sofar", "", it)
			}
			cst = z.subst(st, map[string]*Form{la.key: k})
		}
		d = z.leaves(cst, func(f *Form) *Form {
			if f == acc {
				return z.atom("const", "skip")
			}
			if f.op == "append" && f.args[0] == acc && !mentions(f.args[1], acc) {
				return f.args[1]
			}
			return nil
		})
		if d != nil && !init.opq && !dom.opq && !d.opq {
			var c *Form
			if d.op == "lit" && len(d.args) == 1 && !isDom(dom) {
				c = z.mkArr(dom, it, d.args[0])
			} else {
				c = z.binder("coll", "", dom, it, d)
			}
			if isEmpty(init) {
				return c
			}
			return z.appendForm(init, c)
		}
		// assignment independent of the previous value: any / last
		if isBool(x.Type()) {
			d = z.leaves(st, func(f *Form) *Form {
				if f == acc {
					return z.atom("const", "skip")
				}
				if isTrue(f) || isFalse(f) {
					return f
				}
				return nil
			})
			if d != nil && !d.opq && !dom.opq {
				set := z.leaves(d, func(f *Form) *Form { return z.boolc(isTrue(f)) })
				clr := z.leaves(d, func(f *Form) *Form { return z.boolc(isFalse(f)) })
				if isFalse(clr) {
					return z.ite(init, z.tru(), z.any(dom, it, set))
				}
				if isFalse(set) {
					return z.ite(init, z.not(z.any(dom, it, clr)), z.fls())
				}
			}
		}
		// n-ary maximum written with a function
		for _, op := range []string{"max2", "min2"} {
			ok := true
			d = z.leaves(st, func(f *Form) *Form {
				if f == acc {
					return z.inf(op == "max2")
				}
				if f.op != op {
					ok = false
					return nil
				}
				var rest []*Form
				seen := false
				for _, a := range f.args {
					if a == acc {
						seen = true
					} else if mentions(a, acc) {
						return nil
					} else {
						rest = append(rest, a)
					}
				}
				if !seen {
					return nil
				}
				return z.extr(op, rest...)
			})
			if ok && d != nil && !d.opq && !dom.opq {
				return z.total(op[:3], dom, it, d, init)
			}
		}
	}
	if f := vs.extremum(fr, x, lp, dom, it, acc, init, st); f != nil {
		return f
	}
	if f := vs.argext(fr, x, lp, dom, it, acc, init, st, assume); f != nil {
		return f
	}
	if f := vs.tieCount(fr, x, lp, dom, it, acc, st); f != nil {
		return f
	}
	if f := vs.mixed(fr, x, lp, dom, it, acc, st); f != nil {
		return f
	}
	if !st.opq && !init.opq && !dom.opq && !isDom(dom) && !vs.breaks(lp) {
		// set anew in every round: the value of the last one
		last := z.sub(dom, z.num(1))
		return z.ite(z.gt0(dom), z.subst(st, map[string]*Form{it.key: last}), init)
	}
	if !st.opq && !init.opq && !dom.opq && dom.op == "maprange" && !vs.breaks(lp) {
		last := z.atom("last", "", dom.args[0])
		return z.ite(z.gt0(z.length(dom.args[0])), z.subst(st, map[string]*Form{it.key: last}), init)
	}
	return z.opaque("recurrence")
}

// mixedBody: the running value m is compared with u but replaced by w, so it is no extremum of
// either.
func (vs *Values) mixedBody(fr *frame, m *ssa.Phi, lp *loop) (u, w *Form) {
	z := vs.z
	macc := vs.acc(fr, m)
	st := vs.step(fr, m, lp)
	if st == nil || !numeric(m.Type()) {
		return nil, nil
	}
	if c, v := vs.firstCond(fr, lp, st); c != nil {
		st = z.assume(st, c, !v)
	}
	if st.op != "ite" || st.args[0].op == "ite" {
		return nil, nil
	}
	c, _, _ := z.cmpWith(st.args[0], macc)
	if c == nil || c.op == "ite" {
		return nil, nil
	}
	switch {
	case st.args[1] == macc:
		w = st.args[2]
	case st.args[2] == macc:
		w = st.args[1]
	default:
		return nil, nil
	}
	if w.op == "ite" || w.opq || c.opq || mentions(w, macc) {
		return nil, nil
	}
	if _, ok := constDiff(c, w); ok || isConstForm(w) || isConstForm(c) {
		return nil, nil
	}
	if !c.has(vs.iter(fr, lp)) || !w.has(vs.iter(fr, lp)) {
		return nil, nil
	}
	return c, w
}

func (vs *Values) mixed(fr *frame, x *ssa.Phi, lp *loop, dom, it, acc, st *Form) *Form {
	z := vs.z
	if dom.opq || isDom(dom) {
		return nil
	}
	for _, in := range lp.head.Instrs {
		m, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if m != x && !mentions(st, vs.acc(fr, m)) {
			continue
		}
		u, w := vs.mixedBody(fr, m, lp)
		if u == nil && m != x && numeric(m.Type()) {
			// collected when near a running extremum, not when equal to it
			if mst := vs.step(fr, m, lp); mst != nil {
				op, body := z.extrBody(mst, vs.acc(fr, m))
				loose := false
				if body != nil && !body.opq {
					run := z.atom("leaf", "running")
					z.conds(st, func(c *Form) {
						if !mentions(c, vs.acc(fr, m)) || c.op == "eq0" || c.op == "ite" {
							return
						}
						if v, _, _ := z.cmpWith(c, vs.acc(fr, m)); v != nil {
							return
						}
						d := z.subst(c, map[string]*Form{vs.acc(fr, m).key: run})
						if !d.opq {
							loose = true
						}
					})
				}
				if loose {
					return z.binder("mixed", "near."+op, dom, it, body)
				}
			}
		}
		if u == nil {
			continue
		}
		kind := "value"
		if m != x {
			kind = "arg." + x.Type().String()
		}
		return z.binder("mixed", kind, dom, it, z.atom("lit", "", u, w))
	}
	return nil
}

// tieCount: how many iterations attain a running maximum.
func (vs *Values) tieCount(fr *frame, x *ssa.Phi, lp *loop, dom, it, acc, st *Form) *Form {
	z := vs.z
	if dom.opq || isDom(dom) || !isInt(x.Type()) {
		return nil
	}
	for _, in := range lp.head.Instrs {
		m, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if m == x || !numeric(m.Type()) {
			continue
		}
		macc := vs.acc(fr, m)
		if !mentions(st, macc) {
			continue
		}
		mst := vs.step(fr, m, lp)
		if mst == nil {
			continue
		}
		op, body := z.extrBody(mst, macc)
		if body == nil || body.opq {
			continue
		}
		d := z.sub(body, macc)
		if op == "min" {
			d = z.neg(d)
		}
		gt, eq := z.gt0(d), z.eq0(d)
		n := z.assume(st, gt, false)
		if z.assume(z.assume(st, gt, true), eq, false).isNum(1) && z.assume(n, eq, true) == z.add(acc, z.num(1)) && z.assume(n, eq, false) == acc {
			return z.atom("tiecount", "", z.argidx(op, dom, it, body, vs.initial(fr, m, lp)))
		}
		if z.assume(z.assume(st, gt, true), eq, false) == acc && z.assume(n, eq, true) == z.add(acc, z.num(1)) && z.assume(n, eq, false) == acc {
			return z.atom("tiecount", "stale", z.argidx(op, dom, it, body, vs.initial(fr, m, lp)))
		}
	}
	return nil
}

// total: the reduction with its initial value, extending the domain when the initial value is the
// term of a neighbouring iteration.
func (z *forms) total(op string, dom, it, body, init *Form) *Form {
	if c := z.fixedCond(it, nil, init, dom, body); c != nil {
		sub := func(v bool) *Form {
			return z.total(op, z.restrict(dom, c, v), it, z.restrict(body, c, v), z.restrict(init, c, v))
		}
		return z.ite(c, sub(true), sub(false))
	}
	neutral := false
	switch op {
	case "sum":
		neutral = init.isNum(0)
	case "prod":
		neutral = init.isNum(1)
	case "max":
		neutral = init.isInf() && init.sym == negInf
	case "min":
		neutral = init.isInf() && init.sym == posInf
	}
	if !neutral && !isDom(dom) {
		prev := z.subst(body, map[string]*Form{it.key: z.num(-1)})
		if prev == init {
			nb := z.subst(body, map[string]*Form{it.key: z.sub(it, z.num(1))})
			return z.reduce(op, z.add(dom, z.num(1)), it, nb)
		}
		if op == "max" || op == "min" {
			for _, j := range []*Form{z.num(0), z.sub(dom, z.num(1))} {
				if z.subst(body, map[string]*Form{it.key: j}) == init {
					neutral = true
				}
			}
		}
	}
	r := z.reduce(op, dom, it, body)
	if neutral {
		return r
	}
	switch op {
	case "sum":
		return z.add(init, r)
	case "prod":
		return z.mul(init, r)
	case "max":
		return z.extr("max2", init, r)
	case "min":
		return z.extr("min2", init, r)
	}
	return z.opaque("reduction")
}

// cmpWith recognises a comparison of u with acc: +1 when true means u > acc (or >=).
func (z *forms) cmpWith(c, acc *Form) (u *Form, dir int, strict bool) {
	switch c.op {
	case "gt0", "ge0":
		p := c.args[0]
		pos, neg := 0, 0
		var rest []mono
		for _, m := range p.monos() {
			if len(m.at) == 1 && m.at[0].f == acc && m.at[0].e == 1 {
				if m.c.Cmp(big.NewRat(1, 1)) == 0 {
					pos++
					continue
				}
				if m.c.Cmp(big.NewRat(-1, 1)) == 0 {
					neg++
					continue
				}
			}
			rest = append(rest, m)
		}
		if pos+neg != 1 {
			return nil, 0, false
		}
		u = z.poly(rest)
		if pos == 1 {
			u = z.neg(u) // acc - u > 0
		}
		if mentions(u, acc) {
			return nil, 0, false
		}
		strict = c.op == "gt0"
		if c.op == "ge0" {
			// integers: u - acc - 1 >= 0 is strict
			return u, map[bool]int{true: -2, false: 2}[pos == 1], false
		}
		return u, map[bool]int{true: -1, false: 1}[pos == 1], strict
	case "eq":
		// comparison with -inf on one side was folded: ignore
	}
	return nil, 0, false
}

// extremum recognises running maxima and minima written with comparisons, possibly guarded by
// conditions that do not depend on the running value, possibly with a special first iteration.
func (vs *Values) extremum(fr *frame, x *ssa.Phi, lp *loop, dom, it, acc, init, st *Form) *Form {
	z := vs.z
	if !numeric(x.Type()) || dom.opq {
		return nil
	}
	// first iteration treated apart
	first := z.eq0(it)
	f1 := z.restrict(st, first, true)
	if f1 != st {
		rest := z.restrict(st, first, false)
		u := z.subst(f1, map[string]*Form{it.key: z.num(0)})
		if !mentions(f1, acc) {
			op, body := z.extrBody(rest, acc)
			if body != nil && !body.opq && z.subst(body, map[string]*Form{it.key: z.num(0)}) == u {
				r := z.reduce(op, dom, it, body)
				if isDom(dom) {
					return nil
				}
				return z.ite(z.eq0(dom), init, r)
			}
		}
		return nil
	}
	if c, v := vs.firstCond(fr, lp, st); c != nil && !isDom(dom) {
		f1 := z.assume(st, c, v)
		op, body := z.extrBody(z.assume(st, c, !v), acc)
		if body != nil && !body.opq && f1 == body {
			return z.ite(z.eq0(dom), init, z.reduce(op, dom, it, body))
		}
		return nil
	}
	op, body := z.extrBody(st, acc)
	if body == nil || body.opq {
		return nil
	}
	return z.total(op, dom, it, body, init)
}

// firstCond finds a condition that holds in the first iteration only: a loop variable still has its
// initial value nil or -1, and iterations give it another.
func (vs *Values) firstCond(fr *frame, lp *loop, st *Form) (*Form, bool) {
	z := vs.z
	for _, in := range lp.head.Instrs {
		y, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		a := vs.acc(fr, y)
		var c *Form
		v := true
		z.conds(st, func(d *Form) {
			if d.op == "eq" && (d.args[0] == a && d.args[1].op == "const" && d.args[1].sym == "nil" || d.args[1] == a && d.args[0].op == "const" && d.args[0].sym == "nil") {
				c, v = d, true
			}
			if d.op == "ge0" && d.args[0] == a {
				c, v = d, false
			}
		})
		if c == nil {
			continue
		}
		init := vs.initial(fr, y, lp)
		if k, ok := init.constant(); !(init.op == "const" && init.sym == "nil") && !(ok && k.Sign() < 0) {
			continue
		}
		ys := vs.step(fr, y, lp)
		if ys == nil {
			continue
		}
		f := z.assume(ys, c, v)
		if mentions(f, a) || isConstForm(f) {
			continue
		}
		return c, v
	}
	return nil, false
}

// extrBody: st = max(acc, body) (or min), by cases.
func (z *forms) extrBody(st, acc *Form) (string, *Form) {
	op := ""
	var rec func(f *Form) *Form
	rec = func(f *Form) *Form {
		if f == acc {
			return z.atom("const", "skip")
		}
		if f.op != "ite" {
			return nil
		}
		// conditions that do not depend on the running value first
		var fixed *Form
		z.conds(f, func(d *Form) {
			if fixed == nil && !mentions(d, acc) {
				fixed = d
			}
		})
		if fixed != nil {
			a, b := rec(z.restrict(f, fixed, true)), rec(z.restrict(f, fixed, false))
			if a == nil || b == nil {
				return nil
			}
			return z.ite(fixed, a, b)
		}
		c := f.args[0]
		u, dir, _ := z.cmpWith(c, acc)
		if u == nil {
			return nil
		}
		t, e := f.args[1], f.args[2]
		if dir < 0 {
			t, e = e, t
		}
		// t: u above acc; e: u below acc
		var uu *Form
		var o string
		switch {
		case e == acc && !mentions(t, acc):
			o, uu = "max", t
		case t == acc && !mentions(e, acc):
			o, uu = "min", e
		default:
			return nil
		}
		// the compared value must be the assigned value
		if dir == 1 || dir == -1 {
			if uu != u {
				return nil
			}
		} else {
			d, ok := constDiff(u, uu)
			if !ok || (d.Sign() != 0 && new(big.Rat).Abs(d).Cmp(big.NewRat(1, 1)) != 0) {
				return nil
			}
		}
		if op != "" && op != o {
			return nil
		}
		op = o
		return uu
	}
	b := rec(st)
	if b == nil || op == "" {
		return "", nil
	}
	b = z.leaves(b, func(f *Form) *Form {
		if f.op == "const" && f.sym == "skip" {
			return z.inf(op == "max")
		}
		return f
	})
	return op, b
}

// argext recognises values remembered together with a running maximum: the element (or the set of
// elements) attaining it.
func (vs *Values) argext(fr *frame, x *ssa.Phi, lp *loop, dom, it, acc, init, st *Form, assume []assumed) *Form {
	z := vs.z
	if dom.opq || isDom(dom) && dom.op != "maprange" {
		return nil
	}
	for _, in := range lp.head.Instrs {
		m, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if m == x || !numeric(m.Type()) {
			continue
		}
		macc := vs.acc(fr, m)
		if !mentions(st, macc) {
			continue
		}
		mst := vs.step(fr, m, lp)
		if mst == nil {
			continue
		}
		for _, a := range assume {
			mst = z.restrict(mst, a.c, a.v)
		}
		var firstVal *Form
		st := st
		fc, fv := vs.firstCond(fr, lp, st)
		if fc == nil {
			fc, fv = z.eq0(it), true
			if z.restrict(st, fc, true) == st || z.restrict(mst, fc, true) == mst {
				fc = nil
			}
		}
		var mFirst *Form
		if fc != nil {
			firstVal, st = z.assume(st, fc, fv), z.assume(st, fc, !fv)
			mFirst, mst = z.assume(mst, fc, fv), z.assume(mst, fc, !fv)
		}
		op, body := z.extrBody(mst, macc)
		if body == nil || body.opq {
			continue
		}
		mi := vs.initial(fr, m, lp)
		if fc != nil {
			sub := map[string]*Form{}
			if fc == z.eq0(it) {
				sub[it.key] = z.num(0)
			}
			if mFirst != z.subst(body, sub) || mentions(firstVal, acc) {
				continue
			}
			mi = z.inf(op == "max")
		}
		// the value taken when body beats the running extremum
		var got *Form
		ties := ""
		bad := false
		var rec func(f *Form, path int)
		rec = func(f *Form, path int) {
			if f.op == "ite" && mentions(f.args[0], macc) {
				c := f.args[0]
				if c.op == "eq0" {
					// equality with the running extremum
					u, _, _ := z.cmpWith(z.atom("gt0", "", c.args[0]), macc)
					if u == nil || u != body {
						bad = true
						return
					}
					if f.args[1].op == "append" && f.args[1].args[0] == acc {
						if ties == "" {
							ties = "all"
						}
						if got != nil && got != f.args[1].args[1] {
							bad = true
						}
						got = f.args[1].args[1]
						rec(f.args[2], path)
						return
					}
					if f.args[1] == acc {
						rec(f.args[2], path)
						return
					}
					bad = true
					return
				}
				u, dir, _ := z.cmpWith(c, macc)
				if u == nil {
					bad = true
					return
				}
				t, e := f.args[1], f.args[2]
				if dir < 0 {
					t, e = e, t
				}
				if op == "min" {
					t, e = e, t
				}
				if t.op == "append" && t.args[0] == acc && !mentions(t.args[1], acc) {
					// kept together with what it beats, or with what it equals
					if path == 0 || u != body {
						ties = "beaten"
					} else if ties == "" {
						ties = "all"
					}
					if got != nil && got != t.args[1] {
						bad = true
					}
					got = t.args[1]
				} else if mentions(t, acc) {
					// reached with a strict comparison first
					rec(t, path)
				} else {
					if got != nil && got != t {
						bad = true
					}
					got = t
				}
				if u == body && c.op == "gt0" && dir > 0 == (op == "max") {
					path = 1 // not better
				}
				rec(e, path)
				return
			}
			if f == acc {
				return
			}
			if f.op == "ite" {
				bad = true
				return
			}
			if !mentions(f, acc) && got == nil {
				got = f
				return
			}
			if f != got {
				bad = true
			}
		}
		rec(st, 0)
		if bad || got == nil || got.opq || mi.opq {
			continue
		}
		if firstVal != nil && firstVal != got && firstVal != z.subst(got, map[string]*Form{it.key: z.num(0)}) {
			continue
		}
		if ties != "" {
			if got.op == "lit" && len(got.args) == 1 {
				got = got.args[0]
			}
		}
		if !isDom(dom) && ties == "" && !mi.isInf() && firstVal == nil {
			// starting from the element before the first, or from the first
			at := func(f *Form, k int64) *Form { return z.subst(f, map[string]*Form{it.key: z.num(k)}) }
			if at(body, -1) == mi && at(got, -1) == init {
				back := map[string]*Form{it.key: z.sub(it, z.num(1))}
				body, got, dom, mi = z.subst(body, back), z.subst(got, back), z.add(dom, z.num(1)), z.inf(op == "max")
			} else if at(body, 0) == mi && at(got, 0) == init {
				mi = z.inf(op == "max")
			}
		}
		ai := z.argidx(op, dom, it, body, mi)
		one := z.subst(got, map[string]*Form{it.key: ai})
		if ties == "all" {
			return z.atom("ties", "", one)
		}
		if ties == "beaten" {
			return z.atom("beaten", "", one)
		}
		return one
	}
	return nil
}

// fails: every way on from the block panics.
func fails(b *ssa.BasicBlock) bool {
	for d := 0; d < 10; d++ {
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true
		case *ssa.Jump:
			if len(b.Succs[0].Preds) > 1 {
				return false
			}
			b = b.Succs[0]
			continue
		}
		return false
	}
	return false
}

// breaks: the loop may be left early for code that also follows its ordinary end.
func (vs *Values) breaks(lp *loop) bool {
	from := func(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{b}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[x] || lp.in[x] {
				continue
			}
			seen[x] = true
			if lp.parent != nil && x == lp.parent.head {
				continue
			}
			work = append(work, x.Succs...)
		}
		return seen
	}
	ord := map[*ssa.BasicBlock]bool{}
	for _, s := range lp.head.Succs {
		if !lp.in[s] {
			for b := range from(s) {
				ord[b] = true
			}
		}
	}
	for b := range lp.in {
		if b == lp.head {
			continue
		}
		for _, s := range b.Succs {
			if lp.in[s] {
				continue
			}
			for x := range from(s) {
				if ord[x] {
					return true
				}
			}
		}
	}
	return false
}

// narrows: a conversion that loses bits of values in ordinary use.
func narrows(x *ssa.Convert) bool {
	w := func(t types.Type) int {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return 64
		}
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Float32:
			return 32
		}
		return 64
	}
	from := x.X.Type()
	if c, ok := x.X.(*ssa.Convert); ok && w(c.X.Type()) < w(from) {
		from = c.X.Type()
	}
	return w(x.Type()) < w(from)
}
