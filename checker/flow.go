package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file runs a forward dataflow analysis over the program unfolded by calling context: which
// locks must and may be held, which workers may still run, which wait-group additions are pending,
// at every instruction of every context.

// FS is the state at a point. must==nil means unreachable.
type FS struct {
	must map[string]bool // held on every path
	may  map[string]bool // held on some path
	live map[string]bool // workers possibly running
}

func (s *FS) clone() *FS {
	n := &FS{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	for k := range s.must {
		n.must[k] = true
	}
	for k := range s.may {
		n.may[k] = true
	}
	for k := range s.live {
		n.live[k] = true
	}
	return n
}

func newFS() *FS { return &FS{map[string]bool{}, map[string]bool{}, map[string]bool{}} }

// joinFS merges b into a and reports whether a changed. A nil a takes b.
func joinFS(a, b *FS) (*FS, bool) {
	if b == nil {
		return a, false
	}
	if a == nil {
		return b.clone(), true
	}
	ch := false
	for k := range a.must {
		if !b.must[k] {
			delete(a.must, k)
			ch = true
		}
	}
	for k := range b.may {
		if !a.may[k] {
			a.may[k] = true
			ch = true
		}
	}
	for k := range b.live {
		if !a.live[k] {
			a.live[k] = true
			ch = true
		}
	}
	return a, ch
}

type Flow struct {
	a     *PTA
	entry map[*Ctx]*FS
	exit  map[*Ctx]*FS
	at    map[*Ctx]map[ssa.Instruction]*FS
	goCtx map[string][]*Ctx // worker id -> spawned contexts
	goAt  map[string]callKey
	wgs   map[string]map[string]bool // worker id -> wait groups it signals
	work  []*Ctx
	inq   map[*Ctx]bool
	rec   bool
	hook  func(f *Flow, c *Ctx, in ssa.Instruction, s *FS)
	// assumed outcomes of conditions that do not change during the run (see condKey)
	assume map[string]bool
}

func goID(c *Ctx, in *ssa.Go) string { return fmt.Sprintf("go:%d:%p", c.id, in) }

// flow runs the analysis for an analysed entry point.
func (a *PTA) flow() *Flow { return a.flowWith(nil) }

// flowWith adds the effects of a hook, applied before each instruction's own.
func (a *PTA) flowWith(hook func(f *Flow, c *Ctx, in ssa.Instruction, s *FS)) *Flow {
	return a.flowAssuming(hook, nil)
}

func (a *PTA) flowAssuming(hook func(f *Flow, c *Ctx, in ssa.Instruction, s *FS), assume map[string]bool) *Flow {
	f := &Flow{a: a, hook: hook, assume: assume, goCtx: map[string][]*Ctx{}, goAt: map[string]callKey{}, wgs: map[string]map[string]bool{}}
	for _, c := range a.Ctxs {
		for _, b := range c.blocks() {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					id := goID(c, g)
					f.goAt[id] = callKey{c, g}
					f.goCtx[id] = a.callees[callKey{c, g}]
					f.wgs[id] = map[string]bool{}
				}
			}
		}
	}
	// wait groups a worker signals: any Done in the contexts of its thread
	for id, gs := range f.goCtx {
		for _, g := range gs {
			for _, c := range a.threadOf(g) {
				c.calls(func(ci ssa.CallInstruction) {
					if calleeFull(ci.Common()) == "(*sync.WaitGroup).Done" {
						f.wgs[id][f.key(c, ci.Common().Args[0])] = true
					}
				})
			}
		}
	}
	f.run()
	return f
}

// threadOf lists the contexts a worker runs itself (calls, not further go statements).
func (a *PTA) threadOf(g *Ctx) []*Ctx {
	seen := map[*Ctx]bool{g: true}
	out := []*Ctx{g}
	for i := 0; i < len(out); i++ {
		c := out[i]
		c.calls(func(ci ssa.CallInstruction) {
			if _, isGo := ci.(*ssa.Go); isGo {
				return
			}
			for _, k := range a.callees[callKey{c, ci}] {
				if !seen[k] {
					seen[k] = true
					out = append(out, k)
				}
			}
		})
	}
	return out
}

func (a *PTA) inSubtree(c, g *Ctx) bool {
	for ; c != nil; c = c.parent {
		if c == g {
			return true
		}
	}
	return false
}

// key identifies a lock, wait group or condition variable by the memory it occupies.
func (f *Flow) key(c *Ctx, v ssa.Value) string {
	ls := f.a.pts(c, v)
	if len(ls) == 1 {
		return fmt.Sprintf("o%d%s", ls[0].o.id, ls[0].path)
	}
	return "t" + f.a.term(c, v).key
}

func (f *Flow) enq(c *Ctx) {
	if !f.inq[c] {
		f.inq[c] = true
		f.work = append(f.work, c)
	}
}

func (f *Flow) run() {
	f.entry, f.exit = map[*Ctx]*FS{}, map[*Ctx]*FS{}
	f.inq = map[*Ctx]bool{}
	f.entry[f.a.root] = newFS()
	f.enq(f.a.root)
	for len(f.work) > 0 {
		c := f.work[0]
		f.work = f.work[1:]
		f.inq[c] = false
		f.process(c)
	}
	f.rec = true
	f.at = map[*Ctx]map[ssa.Instruction]*FS{}
	for _, c := range f.a.Ctxs {
		if f.entry[c] != nil {
			f.process(c)
		}
	}
}

func (f *Flow) process(c *Ctx) {
	if f.rec {
		f.at[c] = map[ssa.Instruction]*FS{}
	}
	in := make([]*FS, len(c.fn.Blocks))
	in[0] = f.entry[c].clone()
	wl := []*ssa.BasicBlock{c.fn.Blocks[0]}
	var ex *FS
	for len(wl) > 0 {
		b := wl[0]
		wl = wl[1:]
		s := in[b.Index].clone()
		dead := false
		for _, ins := range b.Instrs {
			if f.rec {
				f.at[c][ins] = s.clone()
			}
			if f.hook != nil {
				f.hook(f, c, ins, s)
			}
			s = f.step(c, ins, s)
			if s == nil {
				dead = true
				break
			}
			if _, ok := ins.(*ssa.Return); ok {
				ex, _ = joinFS(ex, s)
			}
		}
		if dead {
			continue
		}
		for _, t := range f.succs(c, b) {
			n, ch := joinFS(in[t.Index], s)
			in[t.Index] = n
			if ch {
				wl = append(wl, t)
			}
		}
	}
	if f.rec {
		return
	}
	if ex != nil {
		old := f.exit[c]
		var ch bool
		if old == nil {
			f.exit[c], ch = ex, true
		} else {
			_, ch = joinFS(old, ex)
		}
		if ch {
			for _, e := range c.ins {
				if f.entry[e.ctx] != nil {
					f.enq(e.ctx)
				}
			}
		}
	}
}

// step applies one instruction.
func (f *Flow) step(c *Ctx, in ssa.Instruction, s *FS) *FS {
	switch x := in.(type) {
	case *ssa.Call:
		return f.call(c, x, s)
	case *ssa.Go:
		id := goID(c, x)
		for _, g := range f.goCtx[id] {
			f.propagate(g, newFS())
		}
		s = s.clone()
		s.live[id] = true
		for w := range f.wgs[id] {
			delete(s.must, "add:"+w)
		}
	case *ssa.RunDefers:
		for i := len(c.fn.Blocks) - 1; i >= 0; i-- {
			b := c.fn.Blocks[i]
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				d, ok := b.Instrs[j].(*ssa.Defer)
				if !ok || !(b == in.Block() || reachesBlock(b, in.Block())) {
					continue
				}
				t := f.call(c, d, s.clone())
				if t == nil {
					return nil
				}
				if b.Dominates(in.Block()) {
					s = t
				} else {
					s, _ = joinFS(s, t)
				}
			}
		}
	}
	return s
}

func (f *Flow) propagate(k *Ctx, s *FS) {
	if f.rec {
		return
	}
	n, ch := joinFS(f.entry[k], s)
	f.entry[k] = n
	if ch {
		f.enq(k)
	}
}

func (f *Flow) call(c *Ctx, x ssa.CallInstruction, s *FS) *FS {
	cc := x.Common()
	name := calleeFull(cc)
	args := allArgs(cc)
	switch name {
	case "(*sync.RWMutex).RLock":
		k := "rlock:" + f.key(c, args[0])
		s = s.clone()
		s.must[k], s.may[k] = true, true
		return s
	case "(*sync.RWMutex).RUnlock":
		k := "rlock:" + f.key(c, args[0])
		s = s.clone()
		delete(s.must, k)
		delete(s.may, k)
		return s
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		k := "lock:" + f.key(c, args[0])
		s = s.clone()
		s.must[k], s.may[k] = true, true
		return s
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		k := "lock:" + f.key(c, args[0])
		s = s.clone()
		delete(s.must, k)
		delete(s.may, k)
		return s
	case "(*sync.WaitGroup).Add":
		k := f.key(c, args[0])
		s = s.clone()
		if n, ok := f.a.term(c, args[1]).constInt(); ok && n == 1 {
			s.must["add:"+k] = true
		} else {
			s.must["addn:"+k] = true
		}
		return s
	case "(*sync.WaitGroup).Done":
		k := f.key(c, args[0])
		s = s.clone()
		if s.may["done:"+k] {
			s.may["done2:"+k] = true
		}
		s.must["done:"+k], s.may["done:"+k] = true, true
		return s
	case "(*sync.WaitGroup).Wait":
		k := f.key(c, args[0])
		s = s.clone()
		for id := range s.live {
			if f.wgs[id][k] {
				delete(s.live, id)
			}
		}
		return s
	}
	ks := f.a.callees[callKey{c, x}]
	if len(ks) == 0 {
		return s
	}
	// a callback handed to external code may or may not run
	sc := cc.StaticCallee()
	ext := sc != nil && !(sc.Blocks != nil && f.a.p.inRepo(sc)) && sc.Synthetic == ""
	var out *FS
	if ext {
		out = s.clone()
	}
	for _, k := range ks {
		if f.a.inSubtree(c, k) {
			// recursion folded into an enclosing activation: it works on its own instances of the
			// locks and wait groups allocated there, and is balanced if that activation is
			out, _ = joinFS(out, s)
			if e := f.exit[k]; e != nil {
				for id := range e.live {
					out.live[id] = true
				}
			}
			continue
		}
		f.propagate(k, s)
		if e := f.exit[k]; e != nil {
			// a folded recursive call returns what the state was joined with what it leaves behind
			out, _ = joinFS(out, e)
		}
	}
	if out == nil {
		return nil // not returned yet, or never
	}
	return out.clone()
}

// locksAt gives the locks held on every path to an instruction.
func (f *Flow) locksAt(c *Ctx, in ssa.Instruction) map[string]bool {
	out := map[string]bool{}
	m := f.at[c]
	if m == nil || m[in] == nil {
		return nil
	}
	for k := range m[in].must {
		if strings.HasPrefix(k, "lock:") {
			out[k] = true
		}
	}
	return out
}

// heldFor: the locks that exclude every writer (and for a write every reader) at the access.
func (f *Flow) heldFor(ac access) map[string]bool {
	out := f.locksAt(ac.c, ac.in)
	if ac.write || out == nil {
		return out
	}
	for k := range f.at[ac.c][ac.in].must {
		if strings.HasPrefix(k, "rlock:") {
			out[k[1:]] = true
		}
	}
	return out
}

func (f *Flow) reached(c *Ctx, in ssa.Instruction) bool {
	m := f.at[c]
	return m != nil && m[in] != nil
}

// ---- accesses ----

type access struct {
	c     *Ctx
	in    ssa.Instruction
	loc   Loc
	write bool
	kind  string
	base  ssa.Value // value whose memory is accessed
}

// accesses lists the memory one instruction reads and writes.
func (a *PTA) accesses(c *Ctx, in ssa.Instruction) []access {
	var out []access
	var ws []storeEv
	a.writesOf(c, in, &ws)
	base := func() ssa.Value {
		switch x := in.(type) {
		case *ssa.Store:
			return x.Addr
		case *ssa.MapUpdate:
			return x.Map
		case ssa.CallInstruction:
			if as := allArgs(x.Common()); len(as) > 0 {
				return as[0]
			}
		}
		return nil
	}
	for _, w := range ws {
		out = append(out, access{c, in, w.loc, true, w.kind, base()})
	}
	rd := func(v ssa.Value, suffix, kind string) {
		for _, l := range a.pts(c, v) {
			out = append(out, access{c, in, Loc{l.o, l.path + suffix}, false, kind, v})
		}
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			rd(x.X, "", "load")
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			rd(x.X, "{v}", "map lookup")
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			rd(x.X, "{v}", "map iteration")
		}
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
				rd(rg.X, "{v}", "map iteration")
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				rd(cc.Args[0], "[]", "append")
				if len(cc.Args) > 1 {
					rd(cc.Args[1], "[]", "append")
				}
			case "copy":
				rd(cc.Args[1], "[]", "copy from")
			case "len":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					rd(cc.Args[0], "{v}", "map length")
				}
			}
		}
	}
	return out
}

func overlaps(p, q string) bool {
	p, q = strings.TrimSuffix(p, "*"), strings.TrimSuffix(q, "*")
	return strings.HasPrefix(p, q) || strings.HasPrefix(q, p)
}

// slot: the accessed memory was reached through an index that differs between workers (the loop
// counter of the spawning loop). It returns the term of that element.
func (a *PTA) slot(c *Ctx, v ssa.Value, g *Ctx) string {
	res := ""
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t == nil || d > 12 || res != "" {
			return
		}
		if (t.op == "idx" || t.op == "addr") && len(t.args) == 2 {
			m, at, _ := linOf(t.args[1])
			for k, n := range m {
				if n != 0 && at[k].op == "iter" && !a.inSubtree(at[k].tv.c, g) {
					res = t.args[0].key + "[" + t.args[1].key + "]"
					return
				}
			}
		}
		for _, x := range t.args {
			rec(x, d+1)
		}
	}
	rec(a.term(c, v), 0)
	return res
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// calls visits the calls of a context.
func (c *Ctx) calls(visit func(ssa.CallInstruction)) {
	for _, b := range c.blocks() {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				visit(ci)
			}
		}
	}
}

// lift gives the instruction of context top during which (c, in) runs, nil if it does not.
func lift(c *Ctx, in ssa.Instruction, top *Ctx) ssa.Instruction {
	for c != nil && c != top {
		in = c.site
		c = c.parent
	}
	if c == nil {
		return nil
	}
	return in
}

func lca(a, b *Ctx) *Ctx {
	seen := map[*Ctx]bool{}
	for x := a; x != nil; x = x.parent {
		seen[x] = true
	}
	for x := b; x != nil; x = x.parent {
		if seen[x] {
			return x
		}
	}
	return nil
}

// pathAvoiding: is there a path in the context's function from just after instruction x to
// instruction y that does not execute instruction z?
func pathAvoiding(x, y, z ssa.Instruction) bool {
	scan := func(b *ssa.BasicBlock, from int) (hit, stop bool) {
		for i := from; i < len(b.Instrs); i++ {
			if b.Instrs[i] == z {
				return false, true
			}
			if b.Instrs[i] == y {
				return true, false
			}
		}
		return false, false
	}
	if h, s := scan(x.Block(), instrIndex(x)+1); h || s {
		return h
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, x.Block().Succs...)
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		h, s := scan(b, 0)
		if h {
			return true
		}
		if !s {
			st = append(st, b.Succs...)
		}
	}
	return false
}

// sinceAlloc: can the access happen on an object after a worker that saw this same object was
// spawned, or is the object always allocated anew in between?
func (f *Flow) sinceAlloc(id string, ac access) bool {
	o := ac.loc.o
	if o.ctx == nil || o.val == nil || (o.kind != oAlloc && o.kind != oBox && o.kind != oClosure) {
		return true
	}
	ai, ok := o.val.(ssa.Instruction)
	if !ok {
		return true
	}
	g := f.goAt[id]
	top := lca(lca(o.ctx, ac.c), g.c)
	if top == nil {
		return true
	}
	al, x, gs := lift(o.ctx, ai, top), lift(ac.c, ac.in, top), lift(g.c, g.site, top)
	if al == nil || x == nil || gs == nil {
		return true
	}
	if al == x && al != gs {
		return false
	}
	return pathAvoiding(gs, x, al)
}

// condKey names a condition that only depends on parameters and constants, so that two tests of it
// in one activation have the same outcome; pol tells which outcome of the test makes it true.
func (a *PTA) condKey(c *Ctx, v ssa.Value) (key string, pol bool) {
	pol = true
	for {
		o := a.origin(c, v)
		c, v = o.c, o.v
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v, pol = u.X, !pol
			continue
		}
		break
	}
	if prm, ok := v.(*ssa.Parameter); ok {
		return fmt.Sprintf("p:%d:%s", c.id, prm.Name()), pol
	}
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return "", pol
	}
	fixed := func(x ssa.Value) bool {
		o := a.origin(c, x)
		switch o.v.(type) {
		case *ssa.Parameter, *ssa.Const:
			return true
		}
		return false
	}
	if !fixed(b.X) || !fixed(b.Y) {
		return "", pol
	}
	op, l, r := b.Op, a.term(c, b.X).key, a.term(c, b.Y).key
	switch op {
	case token.NEQ:
		op, pol = token.EQL, !pol
	case token.GEQ:
		op, pol = token.LSS, !pol
	case token.LEQ:
		op, l, r, pol = token.LSS, r, l, !pol
	case token.GTR:
		op, l, r = token.LSS, r, l
	}
	if op == token.EQL && r < l {
		l, r = r, l
	}
	return fmt.Sprintf("%s %s %s", l, op, r), pol
}

func (f *Flow) succs(c *Ctx, b *ssa.BasicBlock) []*ssa.BasicBlock {
	ss := c.succs(b)
	if len(ss) == 2 && len(f.assume) > 0 {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			k, pol := f.a.condKey(c, iff.Cond)
			if v, known := f.assume[k]; k != "" && known {
				if v == pol {
					return ss[:1]
				}
				return ss[1:]
			}
		}
	}
	return ss
}

// repeatedConds lists conditions tested more than once on the way to a context.
func (a *PTA) repeatedConds(c *Ctx) []string {
	n := map[string]int{}
	for q := c; q != nil; q = q.parent {
		for _, b := range q.blocks() {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if k, _ := a.condKey(q, iff.Cond); k != "" {
					n[k]++
				}
			}
		}
	}
	m := map[string]bool{}
	for k, x := range n {
		if x > 1 {
			m[k] = true
		}
	}
	out := sortedKeys(m)
	if len(out) > 5 {
		out = out[:5]
	}
	return out
}
