package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TV is a value in a calling context.
type TV struct {
	c *Ctx
	v ssa.Value
}

// argOf gives the argument bound to parameter i of the callee at a call site, nil if the site is a
// callback made by code outside the repository.
func argOf(site ssa.CallInstruction, f *ssa.Function, i int) ssa.Value {
	cc := site.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	if len(args) != len(f.Params) {
		return nil
	}
	// a callback is entered at the site of the external call: its arguments are not the site's
	if sc := cc.StaticCallee(); sc != nil && sc != f {
		return nil
	}
	return args[i]
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// origin follows a value through parameters, captured variables, conversions that keep it,
// single-assignment variables and calls with one result expression.
func (a *PTA) origin(c *Ctx, v ssa.Value) TV { return a.orig(c, v, 0) }

func (a *PTA) orig(c *Ctx, v ssa.Value, d int) TV {
	for ; d < 60; d++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if c == nil || len(c.ins) == 0 {
				return TV{c, v}
			}
			o, ok := a.paramSource(c, x, d)
			if !ok {
				return TV{c, v}
			}
			c, v = o.c, o.v
		case *ssa.FreeVar:
			if c == nil || c.closure == nil {
				return TV{c, v}
			}
			mc, ok := c.closure.val.(*ssa.MakeClosure)
			if !ok {
				return TV{c, v}
			}
			idx := -1
			for i, fv := range c.fn.FreeVars {
				if fv == x {
					idx = i
				}
			}
			if idx < 0 {
				return TV{c, v}
			}
			c, v = c.closure.ctx, mc.Bindings[idx]
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			if x.CommaOk {
				return TV{c, v}
			}
			v = x.X
		case *ssa.Convert:
			if types.Identical(x.X.Type().Underlying(), x.Type().Underlying()) {
				v = x.X
				continue
			}
			return TV{c, v}
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				v = ta.X
				continue
			}
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if k, rv := a.retVal(c, call, x.Index); rv != nil {
					c, v = k, rv
					continue
				}
			}
			return TV{c, v}
		case *ssa.Call:
			if _, isT := x.Type().(*types.Tuple); isT {
				return TV{c, v}
			}
			if k, rv := a.retVal(c, x, 0); rv != nil {
				c, v = k, rv
				continue
			}
			return TV{c, v}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return TV{c, v}
			}
			ad := a.orig(c, x.X, d+1)
			al, ok := ad.v.(*ssa.Alloc)
			if !ok {
				return TV{c, v}
			}
			st := a.soleStore(al)
			if st == nil || st.Parent() != al.Parent() {
				return TV{c, v}
			}
			c, v = ad.c, st.Val
		case *ssa.Phi:
			var res *TV
			for _, e := range x.Edges {
				if e == v {
					continue
				}
				o := TV{c, e}
				if _, isPhi := e.(*ssa.Phi); !isPhi {
					o = a.orig(c, e, d+20)
				}
				if res == nil {
					res = &o
				} else if *res != o {
					return TV{c, v}
				}
			}
			if res == nil {
				return TV{c, v}
			}
			c, v = res.c, res.v
		default:
			return TV{c, v}
		}
	}
	return TV{c, v}
}

// captured looks through the variables a closure captures: a variable assigned once, or the value
// itself.
func (a *PTA) captured(c *Ctx, v ssa.Value) TV {
	bind := func(v ssa.Value) (TV, bool) {
		fv, ok := v.(*ssa.FreeVar)
		if !ok || c == nil || c.closure == nil {
			return TV{}, false
		}
		mc, ok := c.closure.val.(*ssa.MakeClosure)
		if !ok {
			return TV{}, false
		}
		for i, x := range c.fn.FreeVars {
			if x == fv {
				return TV{c.closure.ctx, mc.Bindings[i]}, true
			}
		}
		return TV{}, false
	}
	for d := 0; d < 10; d++ {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			at := TV{c, u.X}
			if b, ok := bind(u.X); ok {
				at = b
			}
			al, ok := at.v.(*ssa.Alloc)
			if !ok {
				return TV{c, v}
			}
			st := a.soleStore(al)
			if st == nil || st.Parent() != al.Parent() {
				return TV{c, v}
			}
			c, v = at.c, strip(st.Val)
			continue
		}
		b, ok := bind(v)
		if !ok {
			return TV{c, v}
		}
		c, v = b.c, strip(b.v)
	}
	return TV{c, v}
}

// paramSource finds the one argument that reaches a parameter, looking through parameters passed on
// unchanged by (mutually) recursive calls.
func (a *PTA) paramSource(c *Ctx, x *ssa.Parameter, d int) (TV, bool) {
	type cp struct {
		c *Ctx
		p *ssa.Parameter
	}
	seen := map[cp]bool{{c, x}: true}
	work := []cp{{c, x}}
	var srcs []TV
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if n.c == nil || len(n.c.ins) == 0 {
			srcs = append(srcs, TV{n.c, n.p})
			continue
		}
		i := paramIndex(n.p)
		for _, e := range n.c.ins {
			arg := argOf(e.site, n.c.fn, i)
			if arg == nil {
				return TV{}, false
			}
			at := a.captured(e.ctx, strip(arg))
			if p2, ok := at.v.(*ssa.Parameter); ok {
				k := cp{at.c, p2}
				if !seen[k] {
					seen[k] = true
					work = append(work, k)
				}
				continue
			}
			srcs = append(srcs, TV{e.ctx, arg})
		}
	}
	if len(srcs) == 0 {
		return TV{}, false
	}
	if len(srcs) == 1 {
		return srcs[0], true
	}
	first := a.orig(srcs[0].c, srcs[0].v, d+20)
	for _, s := range srcs[1:] {
		if a.orig(s.c, s.v, d+20) != first {
			return TV{}, false
		}
	}
	return first, true
}

// strip removes conversions that keep the value.
func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// retVal returns the one result expression a call evaluates to, if its callee is in the repository
// and returns in one place.
func (a *PTA) retVal(c *Ctx, call *ssa.Call, idx int) (*Ctx, ssa.Value) {
	ks := a.callees[callKey{c, call}]
	if len(ks) != 1 {
		return nil, nil
	}
	k := ks[0]
	if len(k.ins) != 1 { // recursion: the result is not one expression
		return nil, nil
	}
	var rv ssa.Value
	n := 0
	for _, b := range k.fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if b == k.fn.Recover {
				continue
			}
			n++
			if idx < len(r.Results) {
				rv = r.Results[idx]
			}
		}
	}
	if n != 1 {
		return nil, nil
	}
	return k, rv
}

// soleStore returns the only assignment to a local variable, nil if there are several or its
// address is used in a way that could assign it.
func (a *PTA) soleStore(al *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	n := 0
	bad := false
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					st = r
					n++
				} else {
					bad = true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						scan(f.FreeVars[i])
					}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				// element writes are separate; treat a struct written by parts as not one value
				bad = true
			default:
				bad = true
			}
		}
	}
	scan(al)
	if bad || n != 1 {
		return nil
	}
	return st
}

// ---- terms ----

// Term is the normal form of a value: structurally equal terms denote the same value as long as the
// memory they read is unchanged. Integer arithmetic is kept as a linear combination, and loop
// counters as "first value plus number of completed iterations", so an index written with range,
// with a counting loop or through a helper has one normal form.
type Term struct {
	op   string // "lin","const","idx","map","mapok","fld","len","call","bin","un","conv","leaf","iter","addr"
	sym  string
	args []*Term
	lin  map[string]int64
	atom map[string]*Term
	c0   int64
	key  string
	tv   TV
}

func (a *PTA) mkTerm(op, sym string, tv TV, args ...*Term) *Term {
	var ks []string
	for _, t := range args {
		ks = append(ks, t.key)
	}
	return &Term{op: op, sym: sym, args: args, tv: tv, key: op + ":" + sym + "(" + strings.Join(ks, ",") + ")"}
}

func linOf(t *Term) (map[string]int64, map[string]*Term, int64) {
	if t.op == "lin" {
		return t.lin, t.atom, t.c0
	}
	return map[string]int64{t.key: 1}, map[string]*Term{t.key: t}, 0
}

func mkLin(m map[string]int64, at map[string]*Term, c int64, tv TV) *Term {
	var ks []string
	for k, v := range m {
		if v == 0 {
			continue
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 1 && c == 0 && m[ks[0]] == 1 {
		return at[ks[0]]
	}
	n, na := map[string]int64{}, map[string]*Term{}
	var sb strings.Builder
	fmt.Fprintf(&sb, "lin(%d", c)
	for _, k := range ks {
		n[k] = m[k]
		na[k] = at[k]
		fmt.Fprintf(&sb, " + %d*%s", m[k], k)
	}
	sb.WriteString(")")
	return &Term{op: "lin", lin: n, atom: na, c0: c, key: sb.String(), tv: tv}
}

func linAdd(x, y *Term, sy int64, tv TV) *Term {
	m, at := map[string]int64{}, map[string]*Term{}
	mx, ax, cx := linOf(x)
	my, ay, cy := linOf(y)
	for k, v := range mx {
		m[k] += v
		at[k] = ax[k]
	}
	for k, v := range my {
		m[k] += sy * v
		at[k] = ay[k]
	}
	return mkLin(m, at, cx+sy*cy, tv)
}

func linScale(x *Term, s int64, tv TV) *Term {
	m, at := map[string]int64{}, map[string]*Term{}
	mx, ax, cx := linOf(x)
	for k, v := range mx {
		m[k] = v * s
		at[k] = ax[k]
	}
	return mkLin(m, at, cx*s, tv)
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// constInt returns the value of an integer term that is a known constant.
func (t *Term) constInt() (int64, bool) {
	if t.op == "lin" && len(t.lin) == 0 {
		return t.c0, true
	}
	return 0, false
}

func (a *PTA) term(c *Ctx, v ssa.Value) *Term {
	if a.tmemo == nil {
		a.tmemo = map[TV]*Term{}
		a.tbusy = map[TV]bool{}
	}
	o := a.origin(c, v)
	if t, ok := a.tmemo[o]; ok {
		return t
	}
	if a.tbusy[o] {
		return a.leafTerm(o)
	}
	a.tbusy[o] = true
	t := a.term1(o)
	delete(a.tbusy, o)
	a.tmemo[o] = t
	return t
}

func (a *PTA) leafTerm(o TV) *Term {
	id := -1
	if o.c != nil {
		id = o.c.id
	}
	switch o.v.(type) {
	case *ssa.Global, *ssa.Function, *ssa.Builtin:
		id = -1
	}
	fn := ""
	if o.v.Parent() != nil {
		fn = o.v.Parent().Name()
	}
	return &Term{op: "leaf", tv: o, key: fmt.Sprintf("leaf:%d:%s:%s:%p", id, fn, o.v.Name(), o.v)}
}

// counter recognises a loop counter: a phi that is one edge from outside the loop and increments by
// a constant on every edge from inside. It returns the first value and the step.
func counter(p *ssa.Phi) (ssa.Value, int64, bool) {
	if !isInt(p.Type()) {
		return nil, 0, false
	}
	var init ssa.Value
	var step int64
	n := 0
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if b.X == ssa.Value(p) {
				if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
					if n64, ok := constant.Int64Val(k.Value); ok {
						if b.Op == token.SUB {
							n64 = -n64
						}
						if n > 0 && step != n64 {
							return nil, 0, false
						}
						step = n64
						n++
						continue
					}
				}
			}
		}
		if init != nil {
			return nil, 0, false
		}
		init = e
	}
	if init == nil || n == 0 {
		return nil, 0, false
	}
	return init, step, true
}

func (a *PTA) term1(o TV) *Term {
	c := o.c
	switch x := o.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return &Term{op: "const", sym: "nil", tv: o, key: "const:nil"}
		}
		if isInt(x.Type()) {
			if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				return mkLin(nil, nil, n, o)
			}
		}
		if isFloat(x.Type()) {
			f, _ := constant.Float64Val(x.Value)
			return &Term{op: "const", sym: fmt.Sprintf("f%v", f), tv: o, key: fmt.Sprintf("const:f%v", f)}
		}
		return &Term{op: "const", sym: x.Value.ExactString(), tv: o, key: "const:" + x.Value.ExactString()}
	case *ssa.Phi:
		if init, step, ok := counter(x); ok {
			id := -1
			if c != nil {
				id = c.id
			}
			k := &Term{op: "iter", tv: o, key: fmt.Sprintf("iter:%d:%s:%d", id, x.Parent().String(), x.Block().Index)}
			return linAdd(a.term(c, init), linScale(k, step, o), 1, o)
		}
		return a.leafTerm(o)
	case *ssa.BinOp:
		l, r := a.term(c, x.X), a.term(c, x.Y)
		if isInt(x.Type()) {
			switch x.Op {
			case token.ADD:
				return linAdd(l, r, 1, o)
			case token.SUB:
				return linAdd(l, r, -1, o)
			case token.MUL:
				if n, ok := l.constInt(); ok {
					return linScale(r, n, o)
				}
				if n, ok := r.constInt(); ok {
					return linScale(l, n, o)
				}
			case token.SHL:
				if n, ok := r.constInt(); ok && n >= 0 && n < 62 {
					return linScale(l, 1<<uint(n), o)
				}
			}
		}
		op := x.Op.String()
		switch x.Op {
		case token.ADD, token.MUL, token.EQL, token.NEQ, token.AND, token.OR, token.XOR:
			if r.key < l.key {
				if !(x.Op == token.ADD && !isInt(x.Type()) && !isFloat(x.Type())) { // not string concatenation
					l, r = r, l
				}
			}
		case token.GTR:
			op, l, r = "<", r, l
		case token.GEQ:
			op, l, r = "<=", r, l
		}
		return a.mkTerm("bin", op, o, l, r)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return a.loadTerm(c, x.X, o)
		case token.SUB:
			t := a.term(c, x.X)
			if isInt(x.Type()) {
				return linScale(t, -1, o)
			}
			return a.mkTerm("un", "-", o, t)
		}
		return a.mkTerm("un", x.Op.String(), o, a.term(c, x.X))
	case *ssa.Convert:
		t := a.term(c, x.X)
		if isInt(x.X.Type()) && isInt(x.Type()) {
			return t
		}
		return a.mkTerm("conv", tstr(x.Type()), o, t)
	case *ssa.IndexAddr:
		return a.mkTerm("addr", "idx", o, a.term(c, x.X), a.term(c, x.Index))
	case *ssa.FieldAddr:
		return a.mkTerm("addr", "fld"+fmt.Sprint(x.Field), o, a.term(c, x.X))
	case *ssa.Index:
		return a.mkTerm("idx", "", o, a.term(c, x.X), a.term(c, x.Index))
	case *ssa.Field:
		return a.mkTerm("fld", fmt.Sprint(x.Field), o, a.term(c, x.X))
	case *ssa.Lookup:
		if !x.CommaOk {
			return a.mkTerm("map", "", o, a.term(c, x.X), a.term(c, x.Index))
		}
		return a.leafTerm(o)
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			if x.Index == 0 {
				return a.mkTerm("map", "", o, a.term(c, l.X), a.term(c, l.Index))
			}
			return a.mkTerm("mapok", "", o, a.term(c, l.X), a.term(c, l.Index))
		}
		if n, ok := x.Tuple.(*ssa.Next); ok {
			id := -1
			if c != nil {
				id = c.id
			}
			return &Term{op: "next", sym: fmt.Sprint(x.Index), tv: o, key: fmt.Sprintf("next%d:%d:%p", x.Index, id, n)}
		}
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			t := a.callTerm(c, cl, TV{c, cl})
			if t != nil {
				return a.mkTerm("ext", fmt.Sprint(x.Index), o, t)
			}
		}
		return a.leafTerm(o)
	case *ssa.Call:
		if t := a.callTerm(c, x, o); t != nil {
			return t
		}
		return a.leafTerm(o)
	case *ssa.Slice:
		args := []*Term{a.term(c, x.X)}
		sym := ""
		for i, e := range []ssa.Value{x.Low, x.High, x.Max} {
			if e != nil {
				sym += string(rune('l' + i))
				args = append(args, a.term(c, e))
			}
		}
		if sym == "" {
			return args[0]
		}
		return a.mkTerm("slice", sym, o, args...)
	}
	return a.leafTerm(o)
}

func (a *PTA) loadTerm(c *Ctx, addr ssa.Value, o TV) *Term {
	ao := a.origin(c, addr)
	switch x := ao.v.(type) {
	case *ssa.IndexAddr:
		return a.mkTerm("idx", "", o, a.term(ao.c, x.X), a.term(ao.c, x.Index))
	case *ssa.FieldAddr:
		return a.mkTerm("fld", fmt.Sprint(x.Field), o, a.derefTerm(ao.c, x.X, x))
	case *ssa.Global:
		return &Term{op: "glob", sym: x.String(), tv: o, key: "glob:" + x.String()}
	case *ssa.Alloc:
		return a.leafTermAddr(o, ao)
	}
	return a.mkTerm("load", "", o, a.term(ao.c, ao.v))
}

// derefTerm names the struct a field address belongs to: promoted fields through embedded structs
// have nested field addresses.
func (a *PTA) derefTerm(c *Ctx, x ssa.Value, f *ssa.FieldAddr) *Term {
	o := a.origin(c, x)
	if fa, ok := o.v.(*ssa.FieldAddr); ok {
		return a.mkTerm("fld", fmt.Sprint(fa.Field), o, a.derefTerm(o.c, fa.X, fa))
	}
	return a.term(o.c, o.v)
}

func (a *PTA) leafTermAddr(o, ao TV) *Term {
	// a variable assigned in several places: every read may differ, keep reads apart
	return a.leafTerm(o)
}

// pureExt are functions outside the repository whose result depends on their arguments only.
func pureExt(name string) bool {
	for _, p := range []string{"math.", "strings.", "strconv.", "fmt.Sprint"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (a *PTA) callTerm(c *Ctx, x *ssa.Call, o TV) *Term {
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "min", "max":
			var args []*Term
			for _, v := range cc.Args {
				args = append(args, a.term(c, v))
			}
			if b.Name() == "len" {
				if t := a.lenOf(c, cc.Args[0]); t != nil {
					return t
				}
			}
			return a.mkTerm("call", b.Name(), o, args...)
		}
		return nil
	}
	name := calleeFull(cc)
	// accessors without arguments (s.Ch(), s.Type(), sum.Weights()) and pure library functions: the
	// same receiver gives the same term
	if pureExt(name) || (cc.IsInvoke() && len(cc.Args) == 0) || (cc.StaticCallee() != nil && len(cc.Args) == 1 && cc.Signature().Recv() != nil && accessor(cc.StaticCallee())) {
		var args []*Term
		for _, v := range allArgs(cc) {
			args = append(args, a.term(c, v))
		}
		if cc.IsInvoke() || cc.Signature().Recv() != nil {
			name = cc.Signature().String()
			if cc.IsInvoke() {
				name = cc.Method.Name()
			} else {
				name = cc.StaticCallee().Name()
			}
		}
		return a.mkTerm("call", name, o, args...)
	}
	return nil
}

// accessor: a method that writes nothing and calls nothing.
func accessor(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, ssa.CallInstruction:
				return false
			}
		}
	}
	return f.Blocks != nil
}

// lenOf gives the length of a slice made with a known length.
func (a *PTA) lenOf(c *Ctx, v ssa.Value) *Term {
	o := a.origin(c, v)
	if m, ok := o.v.(*ssa.MakeSlice); ok {
		return a.term(o.c, m.Len)
	}
	return nil
}

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.op {
	case "lin":
		var s []string
		var ks []string
		for k := range t.lin {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			e := t.atom[k].show(d + 1)
			if t.lin[k] != 1 {
				e = fmt.Sprintf("%d*%s", t.lin[k], e)
			}
			s = append(s, e)
		}
		if t.c0 != 0 || len(s) == 0 {
			s = append(s, fmt.Sprint(t.c0))
		}
		return strings.Join(s, "+")
	case "const":
		return t.sym
	case "iter":
		return "#iter"
	case "leaf":
		if t.tv.v != nil {
			if c, ok := t.tv.v.(*ssa.Call); ok {
				return calleeFull(c.Common()) + "()"
			}
			return t.tv.v.Name()
		}
	case "glob":
		return strings.ReplaceAll(t.sym, modPath+"/", "")
	case "idx", "map":
		return t.args[0].show(d+1) + "[" + t.args[1].show(d+1) + "]"
	}
	var s []string
	for _, x := range t.args {
		s = append(s, x.show(d+1))
	}
	return t.op + " " + t.sym + "(" + strings.Join(s, ", ") + ")"
}

// ---- facts ----

// Fact: a boolean value known to be true or false at a program point.
type Fact struct {
	c   *Ctx
	v   ssa.Value
	pol bool
}

// blockFacts returns the branch conditions that hold whenever block b runs, within its function.
func (a *PTA) blockFacts(c *Ctx, b *ssa.BasicBlock) []Fact {
	var out []Fact
	for d := b; d != nil; d = d.Idom() {
		if d == b {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if d.Succs[0] == d.Succs[1] {
				break
			}
			// the edge d->s dominates b if s dominates b and every other way into s comes from within s
			if !s.Dominates(b) {
				continue
			}
			ok := true
			for _, p := range s.Preds {
				if p != d && !s.Dominates(p) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			out = append(out, a.expand(Fact{c, iff.Cond, i == 0}, 0)...)
		}
	}
	return out
}

// edgeFacts: what is known when control passes from block b to block t.
func (a *PTA) edgeFacts(c *Ctx, b, t *ssa.BasicBlock) []Fact {
	out := a.blockFacts(c, b)
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
		out = append(out, a.expand(Fact{c, iff.Cond, b.Succs[0] == t}, 0)...)
	}
	return out
}

// facts returns the conditions known at block b of context c, including those at the calls that
// lead there.
func (a *PTA) facts(c *Ctx, b *ssa.BasicBlock) []Fact {
	out := a.blockFacts(c, b)
	seen := map[*Ctx]bool{}
	for q := c; q != nil && !seen[q]; {
		seen[q] = true
		if len(q.ins) != 1 || q.site == nil {
			break
		}
		e := q.ins[0]
		if _, isGo := e.site.(*ssa.Go); isGo {
			break
		}
		out = append(out, a.blockFacts(e.ctx, e.site.Block())...)
		q = e.ctx
	}
	return out
}

// expand replaces a condition by the conditions it implies: negations, short-circuit operators
// turned into phis, boolean helpers and variables.
func (a *PTA) expand(f Fact, d int) []Fact {
	if d > 12 {
		return []Fact{f}
	}
	o := a.origin(f.c, f.v)
	f.c, f.v = o.c, o.v
	switch x := f.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.expand(Fact{f.c, x.X, !f.pol}, d+1)
		}
	case *ssa.Phi:
		var keep []int
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) != f.pol {
					continue
				}
			}
			keep = append(keep, i)
		}
		out := []Fact{f}
		if len(keep) == 1 {
			i := keep[0]
			pred := x.Block().Preds[i]
			out = append(out, a.blockFacts(f.c, pred)...)
			out = append(out, a.edgeFact(f.c, pred, x.Block(), d)...)
			if _, isC := x.Edges[i].(*ssa.Const); !isC {
				out = append(out, a.expand(Fact{f.c, x.Edges[i], f.pol}, d+1)...)
			}
		}
		return out
	case *ssa.Call:
		ks := a.callees[callKey{f.c, x}]
		if len(ks) == 1 && len(ks[0].ins) == 1 && isBool(x.Type()) {
			return append([]Fact{f}, a.retFacts(ks[0], 0, f.pol, d)...)
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			ks := a.callees[callKey{f.c, cl}]
			if len(ks) == 1 && len(ks[0].ins) == 1 && isBool(x.Type()) {
				return append([]Fact{f}, a.retFacts(ks[0], x.Index, f.pol, d)...)
			}
		}
	}
	return []Fact{f}
}

func (a *PTA) edgeFact(c *Ctx, pred, to *ssa.BasicBlock, d int) []Fact {
	iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
	if !ok || pred.Succs[0] == pred.Succs[1] {
		return nil
	}
	return a.expand(Fact{c, iff.Cond, pred.Succs[0] == to}, d+1)
}

func (a *PTA) retFacts(k *Ctx, idx int, pol bool, d int) []Fact {
	type cand struct {
		b *ssa.BasicBlock
		v ssa.Value
	}
	var keep []cand
	for _, b := range k.fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == k.fn.Recover || idx >= len(r.Results) {
			continue
		}
		v := r.Results[idx]
		if cst, ok := v.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.Bool && constant.BoolVal(cst.Value) != pol {
			continue
		}
		keep = append(keep, cand{b, v})
	}
	if len(keep) != 1 {
		return nil
	}
	out := a.blockFacts(k, keep[0].b)
	if _, isC := keep[0].v.(*ssa.Const); !isC {
		out = append(out, a.expand(Fact{k, keep[0].v, pol}, d+1)...)
	}
	return out
}

// cmp reads a fact as a comparison x op y, op among == != < <= (greater-than is turned around).
func (a *PTA) cmp(f Fact) (op string, x, y TV, ok bool) {
	b, isB := f.v.(*ssa.BinOp)
	if !isB {
		return "", TV{}, TV{}, false
	}
	t := b.Op
	if !f.pol {
		switch t {
		case token.EQL:
			t = token.NEQ
		case token.NEQ:
			t = token.EQL
		case token.LSS:
			t = token.GEQ
		case token.LEQ:
			t = token.GTR
		case token.GTR:
			t = token.LEQ
		case token.GEQ:
			t = token.LSS
		default:
			return "", TV{}, TV{}, false
		}
	}
	l, r := TV{f.c, b.X}, TV{f.c, b.Y}
	switch t {
	case token.EQL:
		return "==", l, r, true
	case token.NEQ:
		return "!=", l, r, true
	case token.LSS:
		return "<", l, r, true
	case token.LEQ:
		return "<=", l, r, true
	case token.GTR:
		return "<", r, l, true
	case token.GEQ:
		return "<=", r, l, true
	}
	return "", TV{}, TV{}, false
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// errFact reports whether a fact says some error value is non-nil, or some lookup failed.
func (a *PTA) errFact(f Fact) bool {
	if op, x, y, ok := a.cmp(f); ok && op == "!=" {
		for _, p := range [][2]TV{{x, y}, {y, x}} {
			if isNilConst(p[1].v) && types.TypeString(p[0].v.Type(), nil) == "error" {
				return true
			}
		}
	}
	if !f.pol {
		if e, ok := f.v.(*ssa.Extract); ok && isBool(e.Type()) && e.Index > 0 {
			return true
		}
	}
	if _, ok := f.v.(*ssa.Phi); ok {
		return a.errFlag(f.c, f.v, f.pol, map[ssa.Value]bool{})
	}
	return false
}

// errFlag: a flag that has this value only after a failure was seen.
func (a *PTA) errFlag(c *Ctx, v ssa.Value, pol bool, seen map[ssa.Value]bool) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		return a.errFlag(c, u.X, !pol, seen)
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return a.errFact(Fact{c: c, v: v, pol: pol})
	}
	if seen[ph] {
		return true
	}
	seen[ph] = true
	for i, e := range ph.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Value != nil {
			if constant.BoolVal(k.Value) != pol {
				continue
			}
			known := false
			pred := ph.Block().Preds[i]
			for _, f := range a.edgeFacts(c, pred, ph.Block()) {
				if p2, isPhi := f.v.(*ssa.Phi); isPhi {
					if f.pol == pol && (seen[p2] || a.errFlag(f.c, p2, pol, seen)) {
						known = true
					}
				} else if a.errFact(f) {
					known = true
				}
			}
			if !known {
				return false
			}
			continue
		}
		if !a.errFlag(c, e, pol, seen) {
			return false
		}
	}
	return true
}

// ---- reachability within a function ----

// reachesBlock: is there a path of at least one edge from b to t?
func reachesBlock(b, t *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	st = append(st, b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == t {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// domInstr: does instruction x execute before y on every path to y (same function)?
func domInstr(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() {
		return instrIndex(x) < instrIndex(y)
	}
	return x.Block().Dominates(y.Block())
}

// leaves reports whether from block b every path ends in return or panic without branching.
func exitsDirectly(b *ssa.BasicBlock) bool {
	for i := 0; i < 10; i++ {
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return, *ssa.Panic:
			return true
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}
