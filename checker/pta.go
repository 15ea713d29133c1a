package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file holds the points-to and call-context analysis the rules share: an inclusion-based
// (Andersen) analysis over the SSA form, field sensitive, with allocation-site objects cloned per
// calling context. Recursion folds into the enclosing context of the same function. Memory that
// exists before the analysed entry point runs is represented by symbolic objects, one per
// (origin, type), where the origin is a parameter of the entry point, a package variable or the
// result of a call out of the repository.

type objKind int

const (
	oAlloc objKind = iota
	oGlobal
	oSym
	oClosure
	oFunc
	oBox
)

type Obj struct {
	id   int
	kind objKind
	typ  types.Type // type of the memory: elem type for pointers, the slice/map type itself otherwise
	ctx  *Ctx
	val  ssa.Value
	root *Root // for oSym and oGlobal
}

// Root is the origin of pre-existing memory.
type Root struct {
	kind  string // "param", "global", "ext"
	label string
	idx   int // parameter index
	glob  *ssa.Global
	site  ssa.Instruction
	ctx   *Ctx // context of the external call
}

type Loc struct {
	o    *Obj
	path string
}

type Ctx struct {
	id      int
	fn      *ssa.Function
	parent  *Ctx
	site    ssa.CallInstruction
	closure *Obj
	depth   int
	ins     []inEdge // every call that enters this context
	shared  bool
	spawned bool                              // entered through a go statement
	consts  map[*ssa.Parameter]constant.Value // parameters with one constant value in this context
	csig    string
	live    []*ssa.BasicBlock // blocks not excluded by constant conditions
	sdepth  int               // number of go statements between the entry point and this context
}

type inEdge struct {
	ctx  *Ctx
	site ssa.CallInstruction
}

type nkey struct {
	c    *Ctx
	v    ssa.Value
	path string
}
type ckey struct {
	o    *Obj
	path string
}

type node struct {
	pts   map[Loc]bool
	order []Loc
	succ  []int
	smap  map[int]bool
	hooks []func(Loc)
	queue []Loc
	inq   bool
}

type callKey struct {
	c    *Ctx
	site ssa.CallInstruction
}

type PTA struct {
	p     *Program
	nodes []*node
	vnode map[nkey]int
	cnode map[ckey]int
	rnode map[string]int
	work  []int

	objs    map[string]*Obj
	allObjs []*Obj
	roots   map[string]*Root

	Ctxs     []*Ctx
	root     *Ctx
	byCall   map[callKey]map[*ssa.Function]*Ctx
	shared   map[*ssa.Function]*Ctx
	callees  map[callKey][]*Ctx
	extCalls []extCall
	unknown  []callKey

	maxDepth int
	maxCtx   int
	leafMemo map[types.Type][]leaf
	storeIdx map[*Obj][]storeEv
	dynDone  map[string]bool
	tmemo    map[TV]*Term
	tbusy    map[TV]bool
}

type extCall struct {
	c    *Ctx
	site ssa.CallInstruction
	name string
}

type storeEv struct {
	c    *Ctx
	in   ssa.Instruction
	loc  Loc
	val  ssa.Value
	kind string
}

type leaf struct {
	path string
	t    types.Type
}

func newPTA(p *Program) *PTA {
	return &PTA{p: p, vnode: map[nkey]int{}, cnode: map[ckey]int{}, rnode: map[string]int{}, objs: map[string]*Obj{}, roots: map[string]*Root{},
		byCall: map[callKey]map[*ssa.Function]*Ctx{}, shared: map[*ssa.Function]*Ctx{}, callees: map[callKey][]*Ctx{},
		maxDepth: 24, maxCtx: 20000, leafMemo: map[types.Type][]leaf{}, dynDone: map[string]bool{}}
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func (a *PTA) leaves(t types.Type) []leaf {
	if r, ok := a.leafMemo[t]; ok {
		return r
	}
	var out []leaf
	var rec func(path string, t types.Type, d int)
	rec = func(path string, t types.Type, d int) {
		if d > 8 {
			return
		}
		if pointerLike(t) {
			out = append(out, leaf{path, t})
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(fmt.Sprintf("%s.%d", path, i), u.Field(i).Type(), d+1)
			}
		case *types.Array:
			rec(path+"[]", u.Elem(), d+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				rec(fmt.Sprintf("%s#%d", path, i), u.At(i).Type(), d+1)
			}
		}
	}
	rec("", t, 0)
	a.leafMemo[t] = out
	return out
}

func (a *PTA) mk() int {
	a.nodes = append(a.nodes, &node{pts: map[Loc]bool{}})
	return len(a.nodes) - 1
}

func (a *PTA) val(c *Ctx, v ssa.Value, path string) int {
	switch v.(type) {
	case *ssa.Global, *ssa.Function, *ssa.Const, *ssa.Builtin:
		c = nil
	}
	k := nkey{c, v, path}
	if n, ok := a.vnode[k]; ok {
		return n
	}
	n := a.mk()
	a.vnode[k] = n
	switch x := v.(type) {
	case *ssa.Global:
		a.add(n, Loc{a.globalObj(x), ""})
	case *ssa.Function:
		a.add(n, Loc{a.obj(oFunc, nil, x, x.Signature), ""})
	}
	return n
}

func (a *PTA) ret(c *Ctx, path string) int {
	k := fmt.Sprintf("%d:%s", c.id, path)
	if n, ok := a.rnode[k]; ok {
		return n
	}
	n := a.mk()
	a.rnode[k] = n
	return n
}

func (a *PTA) obj(k objKind, c *Ctx, v ssa.Value, t types.Type) *Obj {
	cid := -1
	if c != nil {
		cid = c.id
	}
	key := fmt.Sprintf("%d/%d/%p", k, cid, v)
	if o, ok := a.objs[key]; ok {
		return o
	}
	o := &Obj{id: len(a.allObjs), kind: k, typ: t, ctx: c, val: v}
	a.objs[key] = o
	a.allObjs = append(a.allObjs, o)
	return o
}

func (a *PTA) globalObj(g *ssa.Global) *Obj {
	key := "g:" + g.String()
	if o, ok := a.objs[key]; ok {
		return o
	}
	r := &Root{kind: "global", label: strings.ReplaceAll(g.String(), modPath+"/", ""), glob: g}
	a.roots[key] = r
	o := &Obj{id: len(a.allObjs), kind: oGlobal, typ: g.Type().(*types.Pointer).Elem(), val: g, root: r}
	a.objs[key] = o
	a.allObjs = append(a.allObjs, o)
	return o
}

func (a *PTA) symObj(r *Root, t types.Type) *Obj {
	key := fmt.Sprintf("s:%p:%s", r, types.TypeString(t, nil))
	if o, ok := a.objs[key]; ok {
		return o
	}
	o := &Obj{id: len(a.allObjs), kind: oSym, typ: t, root: r}
	a.objs[key] = o
	a.allObjs = append(a.allObjs, o)
	return o
}

// seed adds to node n the symbolic memory a value of type t from origin r may point to.
func (a *PTA) seed(n int, r *Root, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a.add(n, Loc{a.symObj(r, u.Elem()), ""})
	case *types.Slice:
		a.add(n, Loc{a.symObj(r, u), ""})
	case *types.Map:
		a.add(n, Loc{a.symObj(r, u), ""})
	case *types.Chan:
		a.add(n, Loc{a.symObj(r, u), ""})
	case *types.Signature:
		a.add(n, Loc{a.symObj(r, t), ""})
	case *types.Interface:
		if u.NumMethods() == 0 {
			a.add(n, Loc{a.symObj(r, types.NewInterfaceType(nil, nil)), ""})
			return
		}
		impl := a.p.implementers(u)
		for _, c := range impl {
			if pt, ok := c.Underlying().(*types.Pointer); ok {
				a.add(n, Loc{a.symObj(r, pt.Elem()), ""})
			} else {
				a.add(n, Loc{a.symObj(r, c), ""})
			}
		}
		if len(impl) == 0 {
			a.add(n, Loc{a.symObj(r, t), ""})
		}
	}
}

func (a *PTA) cell(o *Obj, path string, t types.Type) int {
	// collapse repeated interior paths
	if len(path) > 96 {
		path = path[:96]
	}
	k := ckey{o, path}
	if n, ok := a.cnode[k]; ok {
		return n
	}
	n := a.mk()
	a.cnode[k] = n
	if (o.kind == oSym || o.kind == oGlobal) && t != nil && pointerLike(t) {
		a.seed(n, o.root, t)
	}
	return n
}

func (a *PTA) add(n int, l Loc) {
	nd := a.nodes[n]
	if nd.pts[l] {
		return
	}
	nd.pts[l] = true
	nd.order = append(nd.order, l)
	nd.queue = append(nd.queue, l)
	if !nd.inq {
		nd.inq = true
		a.work = append(a.work, n)
	}
}

func (a *PTA) copy(src, dst int) {
	if src == dst {
		return
	}
	s := a.nodes[src]
	if s.smap == nil {
		s.smap = map[int]bool{}
	}
	if s.smap[dst] {
		return
	}
	s.smap[dst] = true
	s.succ = append(s.succ, dst)
	for i := 0; i < len(s.order); i++ {
		a.add(dst, s.order[i])
	}
}

func (a *PTA) on(n int, f func(Loc)) {
	nd := a.nodes[n]
	nd.hooks = append(nd.hooks, f)
	for i := 0; i < len(nd.order); i++ {
		f(nd.order[i])
	}
}

func (a *PTA) solve() {
	for len(a.work) > 0 {
		n := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		nd := a.nodes[n]
		q := nd.queue
		nd.queue = nil
		nd.inq = false
		for _, l := range q {
			for i := 0; i < len(nd.succ); i++ {
				a.add(nd.succ[i], l)
			}
			for i := 0; i < len(nd.hooks); i++ {
				// hooks registered during the loop replay the order themselves
				nd.hooks[i](l)
			}
		}
	}
}

// pts returns what v may point to in context c.
func (a *PTA) pts(c *Ctx, v ssa.Value) []Loc {
	return a.nodes[a.val(c, v, "")].order
}

// Analyse runs the analysis from entry, whose parameters refer to symbolic memory.
func analyse(p *Program, entry *ssa.Function) *PTA {
	a := newPTA(p)
	a.enterRoot(entry)
	a.solve()
	return a
}

func (a *PTA) enterRoot(entry *ssa.Function) {
	c := &Ctx{id: len(a.Ctxs), fn: entry}
	a.Ctxs = append(a.Ctxs, c)
	a.root = c
	for i, prm := range entry.Params {
		r := &Root{kind: "param", label: prm.Name(), idx: i}
		a.roots[fmt.Sprintf("p%d", i)] = r
		for _, lf := range a.leaves(prm.Type()) {
			a.seed(a.val(c, prm, lf.path), r, lf.t)
		}
	}
	a.body(c)
}

func (a *PTA) copyVal(c *Ctx, from ssa.Value, fpre string, c2 *Ctx, to ssa.Value, tpre string, t types.Type) {
	for _, lf := range a.leaves(t) {
		a.copy(a.val(c, from, fpre+lf.path), a.val(c2, to, tpre+lf.path))
	}
}

func (a *PTA) body(c *Ctx) {
	for _, b := range c.blocks() {
		for _, in := range b.Instrs {
			a.instr(c, in)
		}
	}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (a *PTA) instr(c *Ctx, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.add(a.val(c, x, ""), Loc{a.obj(oAlloc, c, x, elemType(x.Type())), ""})
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		v := in.(ssa.Value)
		a.add(a.val(c, v, ""), Loc{a.obj(oAlloc, c, v, v.Type().Underlying()), ""})
	case *ssa.MakeClosure:
		o := a.obj(oClosure, c, x, x.Type())
		a.add(a.val(c, x, ""), Loc{o, ""})
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			return
		}
		a.copy(a.val(c, x.X, ""), a.val(c, x, ""))
	case *ssa.FieldAddr:
		dst := a.val(c, x, "")
		a.on(a.val(c, x.X, ""), func(l Loc) { a.add(dst, Loc{l.o, fmt.Sprintf("%s.%d", l.path, x.Field)}) })
	case *ssa.IndexAddr:
		dst := a.val(c, x, "")
		a.on(a.val(c, x.X, ""), func(l Loc) { a.add(dst, Loc{l.o, l.path + "[]"}) })
	case *ssa.Field:
		a.copyVal(c, x.X, fmt.Sprintf(".%d", x.Field), c, x, "", x.Type())
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			a.copyVal(c, x.X, "[]", c, x, "", x.Type())
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		et, pre := elemType(x.X.Type()), ""
		if x.CommaOk {
			pre = "#0"
		}
		ls := a.leaves(et)
		if len(ls) == 0 {
			return
		}
		a.on(a.val(c, x.X, ""), func(l Loc) {
			for _, lf := range ls {
				a.copy(a.cell(l.o, l.path+"{v}"+lf.path, lf.t), a.val(c, x, pre+lf.path))
			}
		})
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			a.copy(a.val(c, x.X, ""), a.val(c, x, ""))
		}
	case *ssa.Next:
		if x.IsString {
			return
		}
		rg, ok := x.Iter.(*ssa.Range)
		if !ok {
			return
		}
		mt, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		kl, vl := a.leaves(mt.Key()), a.leaves(mt.Elem())
		a.on(a.val(c, rg, ""), func(l Loc) {
			for _, lf := range kl {
				a.copy(a.cell(l.o, l.path+"{k}"+lf.path, lf.t), a.val(c, x, "#1"+lf.path))
			}
			for _, lf := range vl {
				a.copy(a.cell(l.o, l.path+"{v}"+lf.path, lf.t), a.val(c, x, "#2"+lf.path))
			}
		})
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW {
			mid := ""
			pre := ""
			if x.Op == token.ARROW {
				mid = "<-"
				if x.CommaOk {
					pre = "#0"
				}
			}
			et := elemType(x.X.Type())
			ls := a.leaves(et)
			if len(ls) == 0 {
				return
			}
			a.on(a.val(c, x.X, ""), func(l Loc) {
				for _, lf := range ls {
					a.copy(a.cell(l.o, l.path+mid+lf.path, lf.t), a.val(c, x, pre+lf.path))
				}
			})
		}
	case *ssa.Store:
		ls := a.leaves(x.Val.Type())
		if len(ls) == 0 {
			return
		}
		a.on(a.val(c, x.Addr, ""), func(l Loc) {
			for _, lf := range ls {
				a.copy(a.val(c, x.Val, lf.path), a.cell(l.o, l.path+lf.path, lf.t))
			}
		})
	case *ssa.MapUpdate:
		kl, vl := a.leaves(x.Key.Type()), a.leaves(x.Value.Type())
		a.on(a.val(c, x.Map, ""), func(l Loc) {
			for _, lf := range kl {
				a.copy(a.val(c, x.Key, lf.path), a.cell(l.o, l.path+"{k}"+lf.path, lf.t))
			}
			for _, lf := range vl {
				a.copy(a.val(c, x.Value, lf.path), a.cell(l.o, l.path+"{v}"+lf.path, lf.t))
			}
		})
	case *ssa.Send:
		vl := a.leaves(x.X.Type())
		a.on(a.val(c, x.Chan, ""), func(l Loc) {
			for _, lf := range vl {
				a.copy(a.val(c, x.X, lf.path), a.cell(l.o, l.path+"<-"+lf.path, lf.t))
			}
		})
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyVal(c, e, "", c, x, "", x.Type())
		}
	case *ssa.ChangeType:
		a.copyVal(c, x.X, "", c, x, "", x.Type())
	case *ssa.Convert:
		if pointerLike(x.X.Type()) && pointerLike(x.Type()) {
			a.copy(a.val(c, x.X, ""), a.val(c, x, ""))
		} else if pointerLike(x.Type()) {
			a.add(a.val(c, x, ""), Loc{a.obj(oAlloc, c, x, x.Type().Underlying()), ""})
		}
	case *ssa.ChangeInterface:
		a.copy(a.val(c, x.X, ""), a.val(c, x, ""))
	case *ssa.SliceToArrayPointer:
		a.copy(a.val(c, x.X, ""), a.val(c, x, ""))
	case *ssa.MakeInterface:
		if pointerLike(x.X.Type()) {
			a.copy(a.val(c, x.X, ""), a.val(c, x, ""))
		} else {
			o := a.obj(oBox, c, x, x.X.Type())
			a.add(a.val(c, x, ""), Loc{o, ""})
			for _, lf := range a.leaves(x.X.Type()) {
				a.copy(a.val(c, x.X, lf.path), a.cell(o, lf.path, lf.t))
			}
		}
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		t := x.AssertedType
		a.on(a.val(c, x.X, ""), func(l Loc) {
			if l.o.kind == oSym && l.path == "" {
				if it, ok := l.o.typ.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
					for _, lf := range a.leaves(t) {
						a.seed(a.val(c, x, pre+lf.path), l.o.root, lf.t)
					}
					return
				}
			}
			if pointerLike(t) {
				if a.mayHave(l, t) {
					a.add(a.val(c, x, pre), l)
				}
				return
			}
			if l.o.kind == oBox && types.Identical(l.o.typ, t) {
				for _, lf := range a.leaves(t) {
					a.copy(a.cell(l.o, lf.path, lf.t), a.val(c, x, pre+lf.path))
				}
			}
		})
	case *ssa.Extract:
		a.copyVal(c, x.Tuple, fmt.Sprintf("#%d", x.Index), c, x, "", x.Type())
	case *ssa.Return:
		for i, rv := range x.Results {
			for _, lf := range a.leaves(rv.Type()) {
				a.copy(a.val(c, rv, lf.path), a.ret(c, fmt.Sprintf("#%d%s", i, lf.path)))
			}
		}
	case ssa.CallInstruction:
		a.call(c, x)
	case *ssa.Select:
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				ls := a.leaves(elemType(s.Chan.Type()))
				k := 0
				for j := 0; j < i; j++ {
					if x.States[j].Dir == types.RecvOnly {
						k++
					}
				}
				a.on(a.val(c, s.Chan, ""), func(l Loc) {
					for _, lf := range ls {
						a.copy(a.cell(l.o, l.path+"<-"+lf.path, lf.t), a.val(c, x, fmt.Sprintf("#%d%s", k+2, lf.path)))
					}
				})
			} else {
				ls := a.leaves(s.Send.Type())
				sv := s.Send
				a.on(a.val(c, s.Chan, ""), func(l Loc) {
					for _, lf := range ls {
						a.copy(a.val(c, sv, lf.path), a.cell(l.o, l.path+"<-"+lf.path, lf.t))
					}
				})
			}
		}
	}
}

// dynType is the dynamic type of an interface value that points to l, nil if unknown.
func (a *PTA) dynType(l Loc) types.Type {
	if l.path != "" {
		return nil
	}
	switch l.o.kind {
	case oBox:
		return l.o.typ
	case oClosure, oFunc:
		return l.o.typ
	case oSym, oAlloc, oGlobal:
		switch l.o.typ.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Chan, *types.Signature:
			return l.o.typ
		}
		return types.NewPointer(l.o.typ)
	}
	return nil
}

func (a *PTA) mayHave(l Loc, t types.Type) bool {
	d := a.dynType(l)
	if d == nil {
		return true
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if types.Implements(d, it) {
			return true
		}
		switch d.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Chan: // named type lost at the allocation
			return true
		}
		return false
	}
	if types.Identical(d, t) {
		return true
	}
	return types.Identical(d.Underlying(), t.Underlying()) && !isPtr(d)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (a *PTA) call(c *Ctx, site ssa.CallInstruction) {
	cc := site.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(c, site, b)
		return
	}
	if cc.IsInvoke() {
		recv := a.val(c, cc.Value, "")
		a.on(recv, func(l Loc) {
			d := a.dynType(l)
			if d == nil {
				return
			}
			ms := a.p.SSA.MethodSets.MethodSet(d)
			sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name())
			if sel == nil && l.o.kind != oBox {
				// a named slice or map type whose name was lost at the allocation, or an unknown type
				for _, t := range a.p.implementers(cc.Value.Type().Underlying().(*types.Interface)) {
					if types.Identical(t.Underlying(), d.Underlying()) {
						sel = a.p.SSA.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
						break
					}
				}
			}
			if sel == nil {
				a.external(c, site, calleeFull(cc))
				return
			}
			f := a.p.SSA.MethodValue(sel)
			if f == nil || f.Blocks == nil || !a.p.inRepo(f) {
				a.external(c, site, calleeFull(cc))
				return
			}
			k := a.enter(c, site, f, nil)
			if k == nil {
				return
			}
			// receiver
			if l.o.kind == oBox {
				for _, lf := range a.leaves(l.o.typ) {
					a.copy(a.cell(l.o, lf.path, lf.t), a.val(k, f.Params[0], lf.path))
				}
			} else {
				a.add(a.val(k, f.Params[0], ""), l)
			}
		})
		if len(a.nodes[recv].order) == 0 {
			// resolved later, if ever
		}
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if _, isClo := cc.Value.(*ssa.MakeClosure); !isClo {
			if f.Blocks != nil && a.p.inRepo(f) {
				a.enter(c, site, f, nil)
			} else {
				a.external(c, site, calleeFull(cc))
			}
			return
		}
	}
	a.on(a.val(c, cc.Value, ""), func(l Loc) {
		switch l.o.kind {
		case oFunc:
			f := l.o.val.(*ssa.Function)
			if f.Blocks != nil && a.p.inRepo(f) {
				a.enter(c, site, f, nil)
			} else {
				a.external(c, site, f.String())
			}
		case oClosure:
			mc := l.o.val.(*ssa.MakeClosure)
			f := mc.Fn.(*ssa.Function)
			if f.Blocks != nil && (a.p.inRepo(f) || f.Synthetic != "") {
				a.enter(c, site, f, l.o)
			}
		case oSym:
			a.external(c, site, "callback")
		}
	})
}

// enter links a call to callee f and returns the callee's context.
func (a *PTA) enter(c *Ctx, site ssa.CallInstruction, f *ssa.Function, clo *Obj) *Ctx {
	key := callKey{c, site}
	m := a.byCall[key]
	if m == nil {
		m = map[*ssa.Function]*Ctx{}
		a.byCall[key] = m
	}
	k := m[f]
	if k != nil && k.closure == clo {
		return k
	}
	fresh := false
	_, isGo := site.(*ssa.Go)
	consts, csig := a.constArgs(c, site, f)
	// a helper that calls back is unfolded a few times, so that the callbacks of unrelated callers
	// are not mixed up merely because one is reached from another
	reps := 0
	if takesFunc(f) {
		reps = 2
	}
	for q := c; q != nil; q = q.parent {
		if q.fn == f && q.closure == clo && q.csig == csig {
			if reps == 0 {
				k = q
				break
			}
			reps--
		}
		// what a worker calls is kept apart from what its spawner runs, so that memory the worker
		// allocates is not confused with memory it shares
		if (q.spawned || isGo) && c.sdepth < 2 {
			break
		}
	}
	if k == nil || k.closure != clo {
		k = nil
		if c.depth >= a.maxDepth || len(a.Ctxs) >= a.maxCtx {
			if clo == nil {
				k = a.shared[f]
			}
			if k == nil {
				k = &Ctx{id: len(a.Ctxs), fn: f, parent: nil, site: site, closure: clo, depth: a.maxDepth, shared: true, csig: "shared"}
				if clo == nil {
					a.shared[f] = k
				}
				fresh = true
			}
		} else {
			k = &Ctx{id: len(a.Ctxs), fn: f, parent: c, site: site, closure: clo, depth: c.depth + 1, sdepth: c.sdepth, consts: consts, csig: csig}
			if isGo {
				k.sdepth++
				k.spawned = true
			}
			fresh = true
		}
	}
	m[f] = k
	k.ins = append(k.ins, inEdge{c, site})
	if isGo {
		k.spawned = true
	}
	a.callees[key] = append(a.callees[key], k)
	if fresh {
		a.Ctxs = append(a.Ctxs, k)
	}
	cc := site.Common()
	if cc.IsInvoke() {
		for i, arg := range cc.Args {
			if i+1 < len(f.Params) {
				a.copyVal(c, arg, "", k, f.Params[i+1], "", f.Params[i+1].Type())
			}
		}
	} else {
		for i, arg := range cc.Args {
			if i < len(f.Params) {
				a.copyVal(c, arg, "", k, f.Params[i], "", f.Params[i].Type())
			}
		}
	}
	if clo != nil {
		mc := clo.val.(*ssa.MakeClosure)
		for i, fv := range f.FreeVars {
			a.copyVal(clo.ctx, mc.Bindings[i], "", k, fv, "", fv.Type())
		}
	}
	if v := site.Value(); v != nil {
		if tup, ok := v.Type().(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				for _, lf := range a.leaves(tup.At(i).Type()) {
					pth := fmt.Sprintf("#%d%s", i, lf.path)
					a.copy(a.ret(k, pth), a.val(c, v, pth))
				}
			}
		} else {
			for _, lf := range a.leaves(v.Type()) {
				a.copy(a.ret(k, "#0"+lf.path), a.val(c, v, lf.path))
			}
		}
	}
	if fresh {
		a.body(k)
	}
	return k
}

func takesFunc(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if _, ok := prm.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// constArgs: the integer and boolean arguments of a call that are constants.
func (a *PTA) constArgs(c *Ctx, site ssa.CallInstruction, f *ssa.Function) (map[*ssa.Parameter]constant.Value, string) {
	m := map[*ssa.Parameter]constant.Value{}
	sig := ""
	for i, prm := range f.Params {
		v := argOf(site, f, i)
		if v == nil {
			continue
		}
		if !isInt(prm.Type()) && !isBool(prm.Type()) {
			continue
		}
		if k := c.constOf(v); k != nil {
			m[prm] = k
			sig += fmt.Sprintf("%d=%s;", i, k.ExactString())
		}
	}
	return m, sig
}

// constOf: the constant a value has in this context, nil if unknown.
func (c *Ctx) constOf(v ssa.Value) constant.Value {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value
	case *ssa.Parameter:
		return c.consts[x]
	case *ssa.BinOp:
		l, r := c.constOf(x.X), c.constOf(x.Y)
		if l == nil || r == nil || l.Kind() != r.Kind() {
			return nil
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.MakeBool(constant.Compare(l, x.Op, r))
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if k := c.constOf(x.X); k != nil && k.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(k))
			}
		}
		if x.Op == token.MUL {
			return c.constDeref(x.X)
		}
	}
	return nil
}

// constDeref: the constant held by a variable assigned once, possibly captured.
func (c *Ctx) constDeref(addr ssa.Value) constant.Value {
	switch al := addr.(type) {
	case *ssa.FreeVar:
		if c.closure == nil {
			return nil
		}
		for i, fv := range c.fn.FreeVars {
			if fv == al {
				return c.closure.ctx.constDeref(c.closure.val.(*ssa.MakeClosure).Bindings[i])
			}
		}
	case *ssa.Alloc:
		if al.Parent() != c.fn {
			return nil
		}
		if st := (*PTA)(nil).soleStore(al); st != nil {
			return c.constOf(st.Val)
		}
	}
	return nil
}

// blocks lists the blocks of the context's function not excluded by constant conditions.
func (c *Ctx) blocks() []*ssa.BasicBlock {
	if c.live != nil {
		return c.live
	}
	seen := make([]bool, len(c.fn.Blocks))
	st := []*ssa.BasicBlock{c.fn.Blocks[0]}
	if c.fn.Recover != nil {
		st = append(st, c.fn.Recover)
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b.Index] {
			continue
		}
		seen[b.Index] = true
		st = append(st, c.succs(b)...)
	}
	for _, b := range c.fn.Blocks {
		if seen[b.Index] {
			c.live = append(c.live, b)
		}
	}
	return c.live
}

func (c *Ctx) succs(b *ssa.BasicBlock) []*ssa.BasicBlock {
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (len(c.consts) > 0 || c.closure != nil) {
		if k := c.constOf(iff.Cond); k != nil && k.Kind() == constant.Bool {
			if constant.BoolVal(k) {
				return b.Succs[:1]
			}
			return b.Succs[1:]
		}
	}
	return b.Succs
}

func (a *PTA) builtin(c *Ctx, site ssa.CallInstruction, b *ssa.Builtin) {
	cc := site.Common()
	switch b.Name() {
	case "append":
		v := site.Value()
		if v == nil {
			return
		}
		n := a.val(c, v, "")
		et := elemType(v.Type())
		ls := a.leaves(et)
		o := a.obj(oAlloc, c, v, v.Type().Underlying())
		a.add(n, Loc{o, ""})
		if !cappedSlice(cc.Args[0]) {
			a.copy(a.val(c, cc.Args[0], ""), n)
		}
		if len(ls) == 0 {
			return
		}
		a.on(a.val(c, cc.Args[0], ""), func(l Loc) {
			for _, lf := range ls {
				a.copy(a.cell(l.o, l.path+"[]"+lf.path, lf.t), a.cell(o, "[]"+lf.path, lf.t))
			}
		})
		if len(cc.Args) > 1 {
			if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
				src := a.val(c, cc.Args[1], "")
				a.on(src, func(m Loc) {
					a.on(n, func(l Loc) {
						for _, lf := range ls {
							a.copy(a.cell(m.o, m.path+"[]"+lf.path, lf.t), a.cell(l.o, l.path+"[]"+lf.path, lf.t))
						}
					})
				})
			}
		}
	case "copy":
		dt := cc.Args[0].Type()
		ls := a.leaves(elemType(dt))
		if len(ls) == 0 {
			return
		}
		a.on(a.val(c, cc.Args[1], ""), func(m Loc) {
			a.on(a.val(c, cc.Args[0], ""), func(l Loc) {
				for _, lf := range ls {
					a.copy(a.cell(m.o, m.path+"[]"+lf.path, lf.t), a.cell(l.o, l.path+"[]"+lf.path, lf.t))
				}
			})
		})
	}
}

// cappedSlice reports whether v is x[i:n:n] or x[:0:0]: appending to it always reallocates.
func cappedSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	return s.Max != nil && s.High != nil && (s.Max == s.High || sameConst(s.Max, s.High))
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

func (a *PTA) external(c *Ctx, site ssa.CallInstruction, name string) {
	k := fmt.Sprintf("x%d/%p/%s", c.id, site, name)
	if a.dynDone[k] {
		return
	}
	a.dynDone[k] = true
	a.extCalls = append(a.extCalls, extCall{c, site, name})
	cc := site.Common()
	// results: fresh memory of the right types
	if v := site.Value(); v != nil {
		r := &Root{kind: "ext", label: name, site: site, ctx: c}
		for _, lf := range a.leaves(v.Type()) {
			a.seed(a.val(c, v, lf.path), r, lf.t)
		}
		// a result of the same type as an argument may be that argument
		for _, arg := range allArgs(cc) {
			if pointerLike(arg.Type()) && pointerLike(v.Type()) && types.Identical(arg.Type(), v.Type()) && !strings.HasPrefix(name, "fmt.") {
				a.copy(a.val(c, arg, ""), a.val(c, v, ""))
			}
		}
	}
	// functions passed to external code are called by it
	for _, arg := range allArgs(cc) {
		if _, ok := arg.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		arg := arg
		a.on(a.val(c, arg, ""), func(l Loc) {
			var f *ssa.Function
			var clo *Obj
			switch l.o.kind {
			case oFunc:
				f = l.o.val.(*ssa.Function)
			case oClosure:
				f = l.o.val.(*ssa.MakeClosure).Fn.(*ssa.Function)
				clo = l.o
			}
			if f == nil || f.Blocks == nil || !a.p.inRepo(f) {
				return
			}
			a.enterCallback(c, site, f, clo, name)
		})
	}
	// methods external code may call on interfaces handed to it (sort.Interface, heap.Interface)
	if i := strings.LastIndex(name, "."); i > 0 && (strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "container/heap.")) {
		for _, arg := range allArgs(cc) {
			it, ok := arg.Type().Underlying().(*types.Interface)
			if !ok || it.NumMethods() == 0 {
				continue
			}
			a.on(a.val(c, arg, ""), func(l Loc) {
				d := a.dynType(l)
				if d == nil {
					return
				}
				cand := []types.Type{d}
				for _, t := range a.p.implementers(it) {
					if types.Identical(t.Underlying(), d.Underlying()) {
						cand = append(cand, t)
					}
				}
				for m := 0; m < it.NumMethods(); m++ {
					for _, t := range cand {
						sel := a.p.SSA.MethodSets.MethodSet(t).Lookup(it.Method(m).Pkg(), it.Method(m).Name())
						if sel == nil {
							continue
						}
						f := a.p.SSA.MethodValue(sel)
						if f == nil || f.Blocks == nil || !a.p.inRepo(f) {
							continue
						}
						k := a.enterCallback(c, site, f, nil, name)
						if k != nil && pointerLike(f.Params[0].Type()) {
							a.add(a.val(k, f.Params[0], ""), l)
						}
						break
					}
				}
			})
		}
	}
}

func (a *PTA) enterCallback(c *Ctx, site ssa.CallInstruction, f *ssa.Function, clo *Obj, name string) *Ctx {
	key := callKey{c, site}
	for _, k := range a.callees[key] {
		if k.fn == f && k.closure == clo {
			return k
		}
	}
	k := &Ctx{id: len(a.Ctxs), fn: f, parent: c, site: site, closure: clo, depth: c.depth + 1, sdepth: c.sdepth}
	if len(a.Ctxs) > a.maxCtx*2 {
		return nil
	}
	a.Ctxs = append(a.Ctxs, k)
	k.ins = append(k.ins, inEdge{c, site})
	a.callees[key] = append(a.callees[key], k)
	r := &Root{kind: "ext", label: name + " callback argument", site: site, ctx: k}
	for i, prm := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		for _, lf := range a.leaves(prm.Type()) {
			a.seed(a.val(k, prm, lf.path), r, lf.t)
		}
	}
	if clo != nil {
		mc := clo.val.(*ssa.MakeClosure)
		for i, fv := range f.FreeVars {
			a.copyVal(clo.ctx, mc.Bindings[i], "", k, fv, "", fv.Type())
		}
	}
	a.body(k)
	return k
}

func allArgs(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

// ---- writes ----

// writes lists every write any reachable context performs, with the memory it may hit.
func (a *PTA) writes() []storeEv {
	var out []storeEv
	for _, c := range a.Ctxs {
		for _, b := range c.blocks() {
			for _, in := range b.Instrs {
				a.writesOf(c, in, &out)
			}
		}
	}
	return out
}

func (a *PTA) writesOf(c *Ctx, in ssa.Instruction, out *[]storeEv) {
	emit := func(v ssa.Value, suffix string, val ssa.Value, kind string) {
		for _, l := range a.pts(c, v) {
			*out = append(*out, storeEv{c, in, Loc{l.o, l.path + suffix}, val, kind})
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		emit(x.Addr, "", x.Val, "store")
	case *ssa.MapUpdate:
		emit(x.Map, "{v}", x.Value, "map update")
	case *ssa.Send:
		emit(x.Chan, "<-", x.X, "send")
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if !cappedSlice(cc.Args[0]) {
					emit(cc.Args[0], "[]", nil, "append in place")
				}
			case "copy":
				emit(cc.Args[0], "[]", nil, "copy into")
			case "delete":
				emit(cc.Args[0], "{v}", nil, "delete")
			case "clear":
				emit(cc.Args[0], "[]", nil, "clear")
			}
			return
		}
		name := calleeFull(cc)
		idx := extWrites(name)
		if idx == nil {
			return
		}
		isExt := false
		if cc.IsInvoke() {
			isExt = cc.Method.Pkg() == nil || !a.p.inRep[cc.Method.Pkg()]
		} else if f := cc.StaticCallee(); f != nil && !(f.Blocks != nil && a.p.inRepo(f)) {
			isExt = true
		}
		if !isExt {
			return
		}
		args := allArgs(cc)
		for i, arg := range args {
			if idx(i) && pointerLike(arg.Type()) {
				emit(arg, "*", nil, "call to "+name)
				// varargs and boxed pointers: fmt.Sscan(&x)
				if variadicAt(cc, i) {
					for _, l := range a.pts(c, arg) {
						for _, q := range a.nodes[a.cell(l.o, l.path+"[]", nil)].order {
							*out = append(*out, storeEv{c, in, Loc{q.o, q.path + "*"}, nil, "call to " + name})
						}
					}
				}
			}
		}
	}
}

func variadicAt(cc *ssa.CallCommon, i int) bool {
	sig := cc.Signature()
	n := sig.Params().Len()
	off := 0
	if !cc.IsInvoke() && sig.Recv() != nil {
		off = 1
	}
	if cc.IsInvoke() {
		off = 1
	}
	return sig.Variadic() && i == n-1+off
}

// extWrites tells which arguments of a function outside the repository it writes through.
// Argument 0 of a method is the receiver. A nil result: writes through no argument.
func extWrites(name string) func(int) bool {
	all := func(int) bool { return true }
	only := func(k int) func(int) bool { return func(i int) bool { return i == k } }
	has := func(ps ...string) bool {
		for _, s := range ps {
			if strings.HasPrefix(name, s) {
				return true
			}
		}
		return false
	}
	switch {
	case name == "":
		return nil
	case has("fmt.Fscan", "fmt.Sscan", "fmt.Scan"):
		return func(i int) bool { return i >= 1 || name == "fmt.Scan" || name == "fmt.Scanln" }
	case has("fmt.Fprint"):
		return only(0)
	case has("fmt.", "math.", "strings.", "strconv.", "errors.", "time.", "runtime", "os.", "path", "regexp.", "unicode", "reflect.TypeOf", "reflect.DeepEqual", "log.", "math/bits", "net/http"):
		return nil
	case has("sort.Search", "sort.IntsAreSorted", "sort.SliceIsSorted", "slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "slices.Max", "slices.Min", "maps.Keys", "maps.Clone", "maps.Values", "slices.Sorted"):
		return nil
	case has("sort.", "slices.Sort", "slices.Reverse", "container/heap."):
		return only(0)
	case has("maps.Copy"):
		return only(0)
	case has("io.ReadFull", "io.ReadAtLeast"):
		return only(1)
	case has("io.", "io/ioutil", "ioutil", "(*encoding/gob.Encoder)", "(encoding/binary.littleEndian).Uint", "encoding/gob.Register", "encoding/gob.New", "bytes.", "bufio.New", "(*bufio.Scanner)", "(*bytes.Buffer)", "(*os.File)", "(*math/rand.Rand)", "(*sync.", "(*regexp.", "(error)", "(sync.Locker)"):
		return only(0)
	case has("math/rand."):
		return nil
	case has("(gonum.org", "gonum.org", "(*gonum.org"):
		if has("(*gonum.org") {
			return only(0)
		}
		return nil
	case has("(*github.com/sbinet/npyio.Reader)", "(*encoding/gob.Decoder)"):
		return all
	case has("github.com/sbinet/npyio.", "github.com/RenatoGeh/kmeans", "(github.com/RenatoGeh/kmeans"):
		return nil
	}
	return all
}

// ---- naming ----

func (a *PTA) describe(l Loc) string {
	o := l.o
	var s string
	switch o.kind {
	case oSym:
		switch o.root.kind {
		case "param":
			s = fmt.Sprintf("caller's %s (%s)", o.root.label, tstr(o.typ))
		case "global":
			s = fmt.Sprintf("package variable %s (%s)", o.root.label, tstr(o.typ))
		default:
			s = fmt.Sprintf("result of %s", o.root.label)
		}
	case oGlobal:
		s = "package variable " + o.root.label
	default:
		s = "memory allocated in " + a.p.fname(o.ctx.fn)
	}
	if f := pathNames(o.typ, l.path); f != "" {
		s += " field " + f
	}
	return s
}

func tstr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// pathNames renders an access path with field names.
func pathNames(t types.Type, path string) string {
	out := ""
	for path != "" && t != nil {
		switch {
		case strings.HasPrefix(path, "[]"):
			out += "[]"
			path = path[2:]
			t = elemType(t)
		case strings.HasPrefix(path, "{v}"), strings.HasPrefix(path, "{k}"):
			out += path[:3]
			path = path[3:]
			t = elemType(t)
		case path[0] == '.':
			j := 1
			for j < len(path) && path[j] >= '0' && path[j] <= '9' {
				j++
			}
			var k int
			fmt.Sscanf(path[1:j], "%d", &k)
			st, ok := t.Underlying().(*types.Struct)
			if !ok || k >= st.NumFields() {
				return out + path
			}
			out += "." + st.Field(k).Name()
			t = st.Field(k).Type()
			path = path[j:]
		default:
			return out + path
		}
	}
	return out
}

// chain renders how a context is reached.
func (a *PTA) chain(c *Ctx) string {
	var s []string
	for q := c; q != nil; q = q.parent {
		s = append([]string{a.p.fname(q.fn)}, s...)
	}
	return strings.Join(s, " -> ")
}

func sortLocs(ls []Loc) {
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].o.id != ls[j].o.id {
			return ls[i].o.id < ls[j].o.id
		}
		return ls[i].path < ls[j].path
	})
}

// reach returns the objects reachable from the given locations through memory.
func (a *PTA) reach(from []Loc) map[*Obj]bool {
	seen := map[*Obj]bool{}
	cells := map[*Obj][]int{}
	for k, n := range a.cnode {
		cells[k.o] = append(cells[k.o], n)
	}
	var rec func(o *Obj)
	rec = func(o *Obj) {
		if seen[o] {
			return
		}
		seen[o] = true
		for _, n := range cells[o] {
			for _, l := range a.nodes[n].order {
				rec(l.o)
			}
		}
	}
	for _, l := range from {
		rec(l.o)
	}
	return seen
}
