package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C05", checkSharedState)
	reg("C06", checkWorkers)
	reg("C07", checkRaces)
}

// spawners are the exported functions from which a go statement is reachable.
func (p *Program) spawners() []*ssa.Function {
	var out []*ssa.Function
	for _, q := range p.Pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, modPath), "/")
		for _, f := range p.exported(rel) {
			if p.reachesGo(f) {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return p.fname(out[i]) < p.fname(out[j]) })
	return out
}

func (p *Program) reachesGo(f *ssa.Function) bool {
	a := p.ptaFor(f)
	for _, c := range a.Ctxs {
		for _, b := range c.blocks() {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					return true
				}
			}
		}
	}
	return false
}

func (p *Program) flowFor(f *ssa.Function) *Flow {
	if p.flows == nil {
		p.flows = map[*ssa.Function]*Flow{}
	}
	if x, ok := p.flows[f]; ok {
		return x
	}
	x := p.ptaFor(f).flow()
	p.flows[f] = x
	return x
}

// isSync: memory of the synchronisation objects themselves.
func isSyncKind(kind string) bool {
	return strings.HasPrefix(kind, "call to (*sync.") || strings.HasPrefix(kind, "call to (sync.")
}

func checkRaces(r *R) {
	p := r.p
	r.rule("for every go statement reachable from an exported function: each write a worker performs to memory it did not allocate itself must share a held lock with every conflicting access of another worker and of the spawning code that may run before the workers are waited for; accesses to elements selected by the worker's own index are disjoint")
	for _, f := range p.spawners() {
		a := p.ptaFor(f)
		fl := p.flowFor(f)
		var ids []string
		for id := range fl.goCtx {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, g := range fl.goCtx[id] {
				checkWorkerRaces(r, a, fl, id, g)
				r.ok("worker", p.fname(f)+" spawns "+p.fname(g.fn))
			}
		}
	}
	r.floor("worker", 1)
	r.assumes("memory a worker allocates is not handed to another running worker except through the shared structures checked here; methods of *os.File and the standard streams are safe for concurrent use")
}

func (a *PTA) localTo(o *Obj, g *Ctx) bool {
	switch o.kind {
	case oSym, oGlobal:
		return o.root.kind == "ext" && o.root.ctx != nil && a.inSubtree(o.root.ctx, g)
	}
	return o.ctx != nil && a.inSubtree(o.ctx, g)
}

func checkWorkerRaces(r *R, a *PTA, fl *Flow, id string, g *Ctx) {
	p := r.p
	byObj := map[*Obj][]access{}
	var cases []*Flow
	skip := func(ac access) bool {
		if isSyncKind(ac.kind) {
			return true
		}
		// standard streams and the log target
		if ac.loc.o.root != nil && ac.loc.o.root.glob != nil && strings.HasPrefix(ac.kind, "call to fmt.F") {
			return true
		}
		return false
	}
	nW := 0
	for _, c := range a.Ctxs {
		if !a.inSubtree(c, g) {
			continue
		}
		for _, b := range c.blocks() {
			for _, in := range b.Instrs {
				if !fl.reached(c, in) {
					continue
				}
				for _, ac := range a.accesses(c, in) {
					if a.localTo(ac.loc.o, g) || skip(ac) {
						continue
					}
					byObj[ac.loc.o] = append(byObj[ac.loc.o], ac)
					if ac.write {
						nW++
					}
				}
			}
		}
	}
	// what the spawning code does while the worker may run
	par := map[*Obj][]access{}
	for _, c := range a.Ctxs {
		if a.inSubtree(c, g) {
			continue
		}
		for _, b := range c.blocks() {
			for _, in := range b.Instrs {
				if !fl.reached(c, in) || !fl.at[c][in].live[id] {
					continue
				}
				for _, ac := range a.accesses(c, in) {
					if len(byObj[ac.loc.o]) > 0 && !skip(ac) && fl.sinceAlloc(id, ac) {
						par[ac.loc.o] = append(par[ac.loc.o], ac)
					}
				}
			}
		}
	}
	r.counts["shared writes inspected"] += nW
	var objs []*Obj
	for o := range byObj {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	// a lock a worker makes for itself excludes nobody
	ownLock := map[string]bool{}
	for _, o := range a.allObjs {
		if !a.localTo(o, g) {
			continue
		}
		pre := fmt.Sprintf("lock:o%d", o.id)
		for _, as := range byObj {
			for _, x := range as {
				for k := range fl.heldFor(x) {
					if k == pre || strings.HasPrefix(k, pre+".") || strings.HasPrefix(k, pre+"[") || strings.HasPrefix(k, pre+"{") {
						ownLock[k] = true
					}
				}
			}
		}
	}
	common := func(x, y access) bool {
		l := fl.heldFor(x)
		for k := range fl.heldFor(y) {
			if l[k] && !ownLock[k] {
				return true
			}
		}
		return false
	}
	for _, o := range objs {
		as := byObj[o]
		for _, w := range as {
			if !w.write {
				continue
			}
			bad := ""
			for _, x := range as {
				if !overlaps(w.loc.path, x.loc.path) || common(w, x) {
					continue
				}
				if w.base != nil && x.base != nil {
					if s := a.slot(w.c, w.base, g); s != "" && s == a.slot(x.c, x.base, g) {
						continue
					}
				}
				bad = fmt.Sprintf("another worker may %s at %s", x.kind, p.ipos(x.in))
				break
			}
			if bad == "" {
				for _, x := range par[o] {
					if overlaps(w.loc.path, x.loc.path) && !common(w, x) && a.liveAt(fl, id, &cases, x) {
						bad = fmt.Sprintf("the spawning code may %s at %s before waiting", x.kind, p.ipos(x.in))
						break
					}
				}
			}
			if bad != "" {
				r.bad("unsynchronised-sharing", p.fname(w.c.fn)+" writes "+a.describe(w.loc), p.ipos(w.in), w.kind+" without a common lock: "+bad+"; reached by "+a.chain(w.c))
			} else {
				r.counts["shared write protected"]++
			}
		}
		// parent writes, worker reads
		for _, w := range par[o] {
			if !w.write {
				continue
			}
			for _, x := range as {
				if x.write || !overlaps(w.loc.path, x.loc.path) || common(w, x) || !a.liveAt(fl, id, &cases, w) {
					continue
				}
				r.bad("unsynchronised-sharing", p.fname(w.c.fn)+" writes "+a.describe(w.loc), p.ipos(w.in), w.kind+" while a worker may "+x.kind+" it at "+p.ipos(x.in)+" without a common lock")
				break
			}
		}
	}
}

// ---- package-level state ----

func checkSharedState(r *R) {
	p := r.p
	r.rule("lockset analysis over every exported function: all accesses to the shared generator, its seed and the parameter table, and to the memory they refer to, hold one common lock")
	r.rule("on every path out of an exported function every lock it took is released, no lock is taken while already held, and no lock is released that is not held")
	type gl struct{ rel, name string }
	roots := []gl{{"sys", "Random"}, {"sys", "seed"}, {"learn/parameters", "bindings"}}
	watch := map[*ssa.Global]string{}
	common := map[*ssa.Global]map[string]bool{}
	where := map[*ssa.Global][]access{}
	for _, x := range roots {
		g := p.global(x.rel, x.name)
		if g == nil {
			r.bad("anchor", x.rel+"."+x.name, x.rel, "shared variable not found")
			continue
		}
		watch[g] = x.rel + "." + x.name
	}
	// every exported function of the owning packages, and everything that locks
	for _, q := range p.Pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, modPath), "/")
		for _, f := range p.exported(rel) {
			if !ast.IsExported(f.Name()) {
				continue
			}
			if !p.touches(f, watch) {
				continue
			}
			a := p.ptaFor(f)
			fl := p.flowFor(f)
			own := rel == "sys" || rel == "learn/parameters"
			for _, c := range a.Ctxs {
				for _, b := range c.blocks() {
					for _, in := range b.Instrs {
						if !fl.reached(c, in) {
							continue
						}
						st := fl.at[c][in]
						if ci, ok := in.(ssa.CallInstruction); ok {
							if _, isDefer := in.(*ssa.Defer); !isDefer {
								checkLockOp(r, a, fl, c, ci, st)
							}
						}
						if !own {
							continue
						}
						for _, ac := range a.accesses(c, in) {
							if ac.loc.o.root == nil || ac.loc.o.root.glob == nil || isSyncKind(ac.kind) {
								continue
							}
							g := ac.loc.o.root.glob
							if watch[g] == "" {
								continue
							}
							where[g] = append(where[g], ac)
							l := fl.heldFor(ac)
							names := map[string]bool{}
							for k := range l {
								names[lockName(a, k)] = true
							}
							if common[g] == nil {
								common[g] = names
							} else {
								for k := range common[g] {
									if !names[k] {
										delete(common[g], k)
									}
								}
							}
							if len(names) == 0 {
								r.bad("unlocked-access", p.fname(c.fn)+" accesses "+watch[g], p.ipos(in), ac.kind+" of "+a.describe(ac.loc)+" with no lock held")
							} else {
								r.ok("locked access", p.fname(c.fn)+" "+ac.kind+" "+watch[g])
							}
						}
					}
				}
			}
			// balance
			if ex := fl.exit[a.root]; ex != nil {
				for k := range ex.may {
					if strings.HasPrefix(k, "lock:") || strings.HasPrefix(k, "rlock:") {
						r.bad("lock-not-released", p.fname(f)+" leaves "+lockName(a, k), p.pos(f.Pos()), "some path returns with the lock held")
					}
				}
			}
			r.ok("function balanced", p.fname(f))
		}
	}
	for g, n := range watch {
		if len(where[g]) == 0 {
			r.bad("anchor", n, "repository", "no access found")
			continue
		}
		if len(common[g]) == 0 {
			r.bad("no-common-lock", n, p.ipos(where[g][0].in), "accesses are guarded by different locks")
		}
	}
	r.floor("locked access", 12)
	r.floor("function balanced", 20)
}

func lockName(a *PTA, k string) string {
	k = strings.TrimPrefix(strings.TrimPrefix(k, "r"), "lock:")
	for _, o := range a.allObjs {
		pre := fmt.Sprintf("o%d", o.id)
		if strings.HasPrefix(k, pre) {
			rest := k[len(pre):]
			if rest == "" || rest[0] == '.' || rest[0] == '[' || rest[0] == '{' {
				return a.describe(Loc{o, rest})
			}
		}
	}
	return k
}

// touches: does the function reach a lock operation or a watched variable?
func (p *Program) touches(f *ssa.Function, watch map[*ssa.Global]string) bool {
	a := p.ptaFor(f)
	for _, c := range a.Ctxs {
		for _, b := range c.blocks() {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && strings.Contains(calleeFull(ci.Common()), "sync.") {
					return true
				}
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != nil {
						if g, ok := (*op).(*ssa.Global); ok && watch[g] != "" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func checkLockOp(r *R, a *PTA, fl *Flow, c *Ctx, ci ssa.CallInstruction, st *FS) {
	p := r.p
	args := allArgs(ci.Common())
	switch calleeFull(ci.Common()) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		k := "lock:" + fl.key(c, args[0])
		if st.may[k] || st.may["r"+k] {
			r.bad("lock-while-held", p.fname(c.fn)+" locks "+lockName(a, k), p.ipos(ci), "the lock may already be held: the call would never return; reached by "+a.chain(c))
		}
		r.counts["lock operations"]++
	case "(*sync.RWMutex).RLock":
		k := "lock:" + fl.key(c, args[0])
		if st.may[k] {
			r.bad("lock-while-held", p.fname(c.fn)+" locks "+lockName(a, k), p.ipos(ci), "the lock may already be held: the call would never return; reached by "+a.chain(c))
		}
		r.counts["lock operations"]++
	case "(*sync.RWMutex).RUnlock":
		k := "rlock:" + fl.key(c, args[0])
		if !st.must[k] {
			r.bad("unlock-not-held", p.fname(c.fn)+" unlocks "+lockName(a, k), p.ipos(ci), "the lock is not held on every path to here")
		}
		r.counts["lock operations"]++
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		k := "lock:" + fl.key(c, args[0])
		if !st.must[k] {
			r.bad("unlock-not-held", p.fname(c.fn)+" unlocks "+lockName(a, k), p.ipos(ci), "the lock is not held on every path to here")
		}
		r.counts["lock operations"]++
	}
}

// ---- worker life cycle ----

// selfStep recognises x = x + d on shared memory and returns the memory and d.
func (a *PTA) selfStep(c *Ctx, in ssa.Instruction) (string, int64, *ssa.UnOp) {
	st, ok := in.(*ssa.Store)
	if !ok || !isInt(st.Val.Type()) {
		return "", 0, nil
	}
	bo, ok := st.Val.(*ssa.BinOp)
	if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) {
		return "", 0, nil
	}
	x, y := bo.X, bo.Y
	if _, isC := x.(*ssa.Const); isC && bo.Op == token.ADD {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil {
		return "", 0, nil
	}
	n, _ := constant.Int64Val(k.Value)
	if bo.Op == token.SUB {
		n = -n
	}
	ld, ok := x.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return "", 0, nil
	}
	p, q := a.pts(c, st.Addr), a.pts(c, ld.X)
	if len(p) != 1 || len(q) != 1 || p[0] != q[0] {
		return "", 0, nil
	}
	return fmt.Sprintf("o%d%s", p[0].o.id, p[0].path), n, ld
}

// locKey names the memory a load reads.
func (a *PTA) locKey(c *Ctx, v ssa.Value) string {
	o := a.origin(c, v)
	ld, ok := o.v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return ""
	}
	p := a.pts(o.c, ld.X)
	if len(p) != 1 {
		return ""
	}
	return fmt.Sprintf("o%d%s", p[0].o.id, p[0].path)
}

// condLock gives the key of the lock a condition variable uses.
// linLoc adds n times the value to m, as sums of locations; it returns the constant part.
func (a *PTA) linLoc(t TV, n int64, m map[string]int64, d int) int64 {
	if k := a.locKey(t.c, t.v); k != "" {
		m[k] += n
		return 0
	}
	o := a.origin(t.c, t.v)
	if k := a.locKey(o.c, o.v); k != "" {
		m[k] += n
		return 0
	}
	switch x := o.v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return n * x.Int64()
		}
	case *ssa.BinOp:
		if d < 8 && x.Op == token.ADD {
			return a.linLoc(TV{o.c, x.X}, n, m, d+1) + a.linLoc(TV{o.c, x.Y}, n, m, d+1)
		}
		if d < 8 && x.Op == token.SUB {
			return a.linLoc(TV{o.c, x.X}, n, m, d+1) + a.linLoc(TV{o.c, x.Y}, -n, m, d+1)
		}
	}
	m[fmt.Sprintf("v:%p:%p", o.c, o.v)] += n
	return 0
}

func (f *Flow) condLock(c *Ctx, v ssa.Value) string {
	ls := f.a.pts(c, v)
	if len(ls) != 1 {
		return ""
	}
	n := f.a.p.condType()
	if n == nil {
		return ""
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			q := f.a.nodes[f.a.cell(ls[0].o, fmt.Sprintf("%s.%d", ls[0].path, i), st.Field(i).Type())].order
			if len(q) == 1 {
				return fmt.Sprintf("o%d%s", q[0].o.id, q[0].path)
			}
		}
	}
	return ""
}

func (p *Program) condType() *types.Named {
	for _, q := range p.Pkgs {
		if s, ok := q.Imports["sync"]; ok {
			if o := s.Types.Scope().Lookup("Cond"); o != nil {
				n, _ := o.Type().(*types.Named)
				return n
			}
		}
	}
	return nil
}

func checkWorkers(r *R) {
	p := r.p
	r.rule("every go statement is preceded on every path by an addition to the wait group its worker signals; the worker signals it exactly once on every path out; no exported function returns while a worker it started may still run, unless the caller holds the wait group")
	r.rule("where the number of workers is limited: the running count is compared with a positive limit and raised under one lock with no release in between, re-checked after every wait, lowered exactly once under that lock on every path out of the worker and only after its work, and a waiter is woken afterwards")
	r.rule("a job submitted to the concurrency queue is run exactly once, with the id it was submitted with")
	seen := map[string]bool{}
	for _, f := range p.spawners() {
		a := p.ptaFor(f)
		fl := a.flowWith(func(fl *Flow, c *Ctx, in ssa.Instruction, s *FS) {
			if k, n, _ := a.selfStep(c, in); k != "" && n < 0 {
				if s.may["dec:"+k] || n != -1 {
					s.may["dec2:"+k] = true
				}
				s.must["dec:"+k], s.may["dec:"+k] = true, true
			}
			if ci, ok := in.(*ssa.Call); ok {
				switch calleeFull(ci.Common()) {
				case "(*sync.Cond).Signal", "(*sync.Cond).Broadcast":
					ck := fl.key(c, ci.Call.Args[0])
					for k := range s.must {
						if strings.HasPrefix(k, "dec:") {
							s.must["sig:"+ck] = true
						}
					}
				}
			}
		})
		name := p.fname(f)
		// workers left running
		if ex := fl.exit[a.root]; ex != nil {
			for id := range ex.live {
				owned := false
				for w := range fl.wgs[id] {
					for _, o := range a.allObjs {
						if o.kind == oSym && o.root.kind == "param" && strings.HasPrefix(w, fmt.Sprintf("o%d.", o.id)) {
							owned = true
						}
					}
				}
				if !owned && a.leavesRunning(id, fl.goAt[id].c) {
					r.bad("returns-before-workers", name+" spawns "+goNames(p, fl, id), p.ipos(fl.goAt[id].site), "a path to return does not wait for the worker")
				}
			}
		}
		var ids []string
		for id := range fl.goCtx {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			at := fl.goAt[id]
			if !fl.reached(at.c, at.site) {
				continue
			}
			for _, g := range fl.goCtx[id] {
				r.ok("worker", name+" spawns "+p.fname(g.fn))
				seen[p.fname(g.fn)] = true
				ex := fl.exit[g]
				st := fl.at[at.c][at.site]
				if len(fl.wgs[id]) == 0 {
					r.bad("worker-not-awaited", p.fname(at.c.fn)+" spawns "+p.fname(g.fn), p.ipos(at.site), "the worker signals no wait group")
				}
				for w := range fl.wgs[id] {
					if !st.must["add:"+w] && !st.must["addn:"+w] {
						r.bad("spawn-without-add", p.fname(at.c.fn)+" spawns "+p.fname(g.fn), p.ipos(at.site), "some path reaches the go statement without a matching addition to the wait group")
					}
					if ex != nil {
						if !ex.must["done:"+w] {
							r.bad("done-missing", p.fname(g.fn)+" signals its wait group", p.pos(g.fn.Pos()), "some path leaves the worker without signalling")
						}
						if ex.may["done2:"+w] {
							r.bad("done-twice", p.fname(g.fn)+" signals its wait group", p.pos(g.fn.Pos()), "some path signals twice")
						}
						r.ok("wait group paired", name+" "+p.fname(g.fn))
					}
				}
				for _, c := range a.threadOf(g) {
					c := c
					c.calls(func(ci ssa.CallInstruction) {
						if _, isCall := ci.(*ssa.Call); isCall && calleeFull(ci.Common()) == "(*sync.WaitGroup).Done" {
							workAfter(r, a, p.fname(at.c.fn)+" spawns "+p.fname(g.fn), c, ci, g, "work-after-done", "the worker still works after signalling its wait group")
						}
					})
				}
				checkBound(r, a, fl, at, g)
				checkJob(r, a, fl, f, at, g)
			}
		}
	}
	r.floor("worker", 1)
	r.floor("wait group paired", 1)
	r.floor("bounded pool", 1)
	r.floor("job run once", 1)
	checkLimit(r)
}

// liveAt: under some outcome of the conditions tested repeatedly, the worker may be running where
// the access takes place.
func (a *PTA) liveAt(fl *Flow, id string, cache *[]*Flow, x access) bool {
	if *cache == nil {
		ks := a.repeatedConds(fl.goAt[id].c)
		for m := 0; m < 1<<uint(len(ks)); m++ {
			as := map[string]bool{}
			for i, k := range ks {
				as[k] = m>>uint(i)&1 == 1
			}
			*cache = append(*cache, a.flowAssuming(nil, as))
		}
	}
	for _, q := range *cache {
		if q.reached(x.c, x.in) && q.at[x.c][x.in].live[id] {
			return true
		}
	}
	return false
}

// leavesRunning: under some outcome of the conditions tested repeatedly, the entry point returns
// with the worker possibly running.
func (a *PTA) leavesRunning(id string, c *Ctx) bool {
	ks := a.repeatedConds(c)
	for m := 0; m < 1<<uint(len(ks)); m++ {
		as := map[string]bool{}
		for i, k := range ks {
			as[k] = m>>uint(i)&1 == 1
		}
		fl := a.flowAssuming(nil, as)
		if ex := fl.exit[a.root]; ex != nil && ex.live[id] {
			return true
		}
	}
	return false
}

func goNames(p *Program, fl *Flow, id string) string {
	var s []string
	for _, g := range fl.goCtx[id] {
		s = append(s, p.fname(g.fn))
	}
	return strings.Join(s, ",")
}

// semaphore: workers limited by the room in a channel. Reports whether channels are used at all.
func semaphore(r *R, a *PTA, at callKey, g *Ctx, cn string) bool {
	type op struct {
		c    *Ctx
		in   ssa.Instruction
		ch   ssa.Value
		send bool
	}
	var out, in []op
	for _, c := range a.Ctxs {
		if !a.inSubtree(c, at.c) {
			continue
		}
		for _, b := range c.blocks() {
			for _, i := range b.Instrs {
				var o op
				switch x := i.(type) {
				case *ssa.Send:
					o = op{c, i, x.Chan, true}
				case *ssa.UnOp:
					if x.Op != token.ARROW {
						continue
					}
					o = op{c, i, x.X, false}
				default:
					continue
				}
				if a.inSubtree(c, g) {
					in = append(in, o)
				} else {
					out = append(out, o)
				}
			}
		}
	}
	if len(out) == 0 && len(in) == 0 {
		return false
	}
	for _, o := range out {
		if !o.send {
			continue
		}
		l := lift(o.c, o.in, at.c)
		if l == nil || !domInstr(l, at.site) {
			continue
		}
		for _, i := range in {
			if i.send || !sameField(o.ch, i.ch) {
				continue
			}
			for _, b := range i.c.fn.Blocks {
				for _, k := range b.Instrs {
					if f, ok := k.(*ssa.Call); ok && f.Call.StaticCallee() == nil && !f.Call.IsInvoke() {
						if _, bi := f.Call.Value.(*ssa.Builtin); !bi && domInstr(i.in, k) {
							r.bad("pool-count", cn, r.p.ipos(i.in), "the room of a worker is given back before its job has run")
							return true
						}
					}
				}
			}
			r.ok("bounded pool", cn)
			return true
		}
	}
	r.ok("undecided", cn+": workers are limited by channels in a way that is not understood")
	return true
}

// sameField: two reads of the same field, whatever the object is called.
func sameField(x, y ssa.Value) bool {
	f := func(v ssa.Value) (types.Type, int) {
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fa.X.Type(), fa.Field
			}
		}
		return nil, -1
	}
	t, i := f(x)
	s, j := f(y)
	if t != nil && s != nil {
		return i == j && types.Identical(t, s)
	}
	return true
}

// checkBound verifies the accounting of running workers around a go statement.
func checkBound(r *R, a *PTA, fl *Flow, at callKey, g *Ctx) {
	p := r.p
	cn := p.fname(at.c.fn) + " spawns " + p.fname(g.fn)
	// counters lowered by the worker
	ex := fl.exit[g]
	if ex == nil {
		return
	}
	type up struct {
		c  *Ctx
		in ssa.Instruction
		ld *ssa.UnOp
		k  string
	}
	var ups []up
	// raises executed by the spawning code in the same activation: in the function with the go
	// statement or helpers it calls
	for _, c := range a.Ctxs {
		if !a.inSubtree(c, at.c) || a.inSubtree(c, g) {
			continue
		}
		for _, b := range c.blocks() {
			for _, in := range b.Instrs {
				if k, n, ld := a.selfStep(c, in); k != "" && n > 0 && !local(a, in.(*ssa.Store).Addr, c) {
					if n != 1 {
						continue
					}
					ups = append(ups, up{c, in, ld, k})
				}
			}
		}
	}
	waits := 0
	var counted *up
	for i := range ups {
		u := &ups[i]
		if ex.may["dec:"+u.k] || len(ups) == 1 {
			counted = u
		}
	}
	for _, c := range a.Ctxs {
		if a.inSubtree(c, at.c) && !a.inSubtree(c, g) {
			c.calls(func(ci ssa.CallInstruction) {
				if calleeFull(ci.Common()) == "(*sync.Cond).Wait" {
					waits++
				}
			})
		}
	}
	if counted == nil && waits == 0 {
		if done := semaphore(r, a, at, g, cn); done {
			return
		}
	}
	if counted == nil {
		if waits > 0 {
			r.bad("pool-count", cn, p.ipos(at.site), "the running count is not raised before the worker starts, or not lowered by the worker")
		} else {
			r.bad("pool-unbounded", cn, p.ipos(at.site), "nothing limits the number of workers")
		}
		return
	}
	r.ok("bounded pool", cn)
	u := counted
	// raised on every path to the go statement
	ul := lift(u.c, u.in, at.c)
	if ul == nil || !domInstr(ul, at.site) {
		r.bad("pool-count", cn, p.ipos(u.in), "some path starts a worker without raising the running count")
	}
	locks := fl.locksAt(u.c, u.in)
	if len(locks) == 0 {
		r.bad("pool-unlocked", cn, p.ipos(u.in), "the running count is raised without a lock")
		return
	}
	// compared with the limit on every path, under the same lock
	var guard *ssa.BinOp
	var gf Fact
	var gctx *Ctx
	okcmp := false
	for q, b, first := u.c, u.in.Block(), true; q != nil; first = false {
		for _, fc := range a.blockFacts(q, b) {
			op, x, y, ok := a.cmp(fc)
			if !ok {
				continue
			}
			m := map[string]int64{}
			k0 := a.linLoc(x, 1, m, 0) + a.linLoc(y, -1, m, 0)
			n := m[u.k]
			if n == 0 {
				continue
			}
			guard, gf, gctx = fc.v.(*ssa.BinOp), fc, fc.c
			// k less the limit, and nothing else
			others, limit := 0, int64(0)
			for q, v := range m {
				if q != u.k && v != 0 {
					others++
					limit = v
				}
			}
			exact := others == 0 || others == 1 && limit == -n
			switch op {
			case "<":
				okcmp = exact && n == 1 && (k0 == 0 || others == 0)
			case "<=":
				okcmp = exact && n == 1 && (k0 == 1 || others == 0)
			case "!=":
				// never above the limit and different from it: below it (one place raises it, by one)
				okcmp = exact && (k0 == 0 || others == 0) && len(ups) == 1
			}
		}
		_ = first
		if guard != nil || q == at.c || len(q.ins) != 1 {
			break
		}
		b, q = q.ins[0].site.Block(), q.ins[0].ctx
	}
	if guard == nil {
		r.bad("pool-limit", cn, p.ipos(u.in), "the running count is raised without being known to be below the limit")
		return
	}
	if !okcmp {
		r.bad("pool-limit", cn, p.ipos(guard), "the running count is raised where it is not known to be strictly below the limit")
	}
	_ = gf
	top := lca(gctx, u.c)
	gi, ui := lift(gctx, guard, top), lift(u.c, u.in, top)
	for k := range locks {
		if !fl.locksAt(gctx, guard)[k] {
			delete(locks, k)
		}
	}
	if len(locks) == 0 {
		r.bad("pool-unlocked", cn, p.ipos(guard), "the comparison with the limit and the raise are not made under one lock")
	}
	if gi != nil && ui != nil && gi != ui {
		for _, c := range a.Ctxs {
			if !a.inSubtree(c, top) || a.inSubtree(c, g) {
				continue
			}
			c := c
			c.calls(func(ci ssa.CallInstruction) {
				nm := calleeFull(ci.Common())
				li := lift(c, ci, top)
				if li == nil || li == gi || li == ui {
					return
				}
				between := pathAvoiding(gi, li, ui) && pathAvoiding(li, ui, gi)
				switch {
				case strings.HasSuffix(nm, ").Unlock") && between && locks["lock:"+fl.key(c, allArgs(ci.Common())[0])]:
					r.bad("pool-recheck", cn, p.ipos(ci), "the lock is released between the comparison with the limit and the raise")
				case nm == "(*sync.Cond).Wait" && pathAvoiding(li, ui, gi):
					r.bad("pool-recheck", cn, p.ipos(ci), "after waiting the running count is raised without comparing it with the limit again")
				}
			})
		}
	}
	// waits use a condition variable bound to the lock
	for _, c := range a.Ctxs {
		if !a.inSubtree(c, at.c) || a.inSubtree(c, g) {
			continue
		}
		c := c
		c.calls(func(ci ssa.CallInstruction) {
			if calleeFull(ci.Common()) != "(*sync.Cond).Wait" {
				return
			}
			ck := fl.key(c, ci.Common().Args[0])
			lk := "lock:" + fl.condLock(c, ci.Common().Args[0])
			if !fl.locksAt(c, ci)[lk] {
				r.bad("wait-unlocked", cn, p.ipos(ci), "waiting on a condition variable without holding its lock")
			}
			if !ex.must["sig:"+ck] {
				r.bad("no-wakeup", cn, p.pos(g.fn.Pos()), "some path out of the worker does not wake a waiter after lowering the running count")
			}
		})
	}
	// the worker lowers it
	if !ex.must["dec:"+u.k] {
		r.bad("slot-leak", cn, p.pos(g.fn.Pos()), "some path out of the worker does not lower the running count")
	}
	if ex.may["dec2:"+u.k] {
		r.bad("slot-leak", cn, p.pos(g.fn.Pos()), "some path lowers the running count more than once")
	}
	for _, c := range a.threadOf(g) {
		for _, b := range c.blocks() {
			for _, in := range b.Instrs {
				k, n, _ := a.selfStep(c, in)
				if k != u.k || n >= 0 {
					continue
				}
				same := false
				for l := range fl.locksAt(c, in) {
					if locks[l] {
						same = true
					}
				}
				if !same {
					r.bad("pool-unlocked", cn, p.ipos(in), "the running count is lowered without the lock it is raised under")
				}
				workAfter(r, a, cn, c, in, g, "work-after-release", "the worker still works after giving its slot back")
			}
		}
	}
}

// workAfter reports calls a worker makes after (c, in) other than synchronisation.
func workAfter(r *R, a *PTA, cn string, c *Ctx, in ssa.Instruction, g *Ctx, rule, msg string) {
	li := lift(c, in, g)
	if li == nil {
		return
	}
	if _, ok := li.(*ssa.Defer); ok {
		return
	}
	for _, b2 := range g.blocks() {
		for _, j := range b2.Instrs {
			ci, ok := j.(*ssa.Call)
			if !ok || j == li || !pathAvoiding(li, j, nil) {
				continue
			}
			nm := calleeFull(ci.Common())
			if strings.HasPrefix(nm, "(*sync.") || strings.HasPrefix(nm, "(sync.") || strings.HasPrefix(nm, "builtin.") || strings.HasPrefix(nm, "runtime") {
				continue
			}
			if onlySync(a, g, ci, map[*Ctx]bool{}) {
				continue
			}
			r.bad(rule, cn, r.p.ipos(j), msg)
		}
	}
}

// onlySync: the call performs lock, wait and signal operations only.
func onlySync(a *PTA, c *Ctx, ci ssa.CallInstruction, seen map[*Ctx]bool) bool {
	ks := a.callees[callKey{c, ci}]
	if len(ks) == 0 {
		return false
	}
	for _, k := range ks {
		if seen[k] {
			continue
		}
		seen[k] = true
		ok := true
		k.calls(func(x ssa.CallInstruction) {
			nm := calleeFull(x.Common())
			if strings.HasPrefix(nm, "(*sync.") || strings.HasPrefix(nm, "(sync.") || strings.HasPrefix(nm, "builtin.") {
				return
			}
			if !onlySync(a, k, x, seen) {
				ok = false
			}
		})
		if !ok {
			return false
		}
	}
	return true
}

func local(a *PTA, v ssa.Value, c *Ctx) bool {
	al, ok := v.(*ssa.Alloc)
	return ok && !al.Heap
}

// checkJob: the concurrency queue runs the submitted function once, with the submitted id.
func checkJob(r *R, a *PTA, fl *Flow, f *ssa.Function, at callKey, g *Ctx) {
	p := r.p
	var fp, ip *ssa.Parameter
	for _, prm := range f.Params {
		if s, ok := prm.Type().Underlying().(*types.Signature); ok && s.Params().Len() == 1 {
			fp = prm
		} else if isInt(prm.Type()) {
			ip = prm
		}
	}
	if f.Name() != "Run" || p.rel(f) != "conc" || fp == nil || ip == nil {
		return
	}
	fl2 := a.flowWith(func(fl *Flow, c *Ctx, in ssa.Instruction, s *FS) {
		if ci, ok := in.(*ssa.Call); ok && !ci.Call.IsInvoke() {
			if o := a.origin(c, ci.Call.Value); o.v == ssa.Value(fp) && o.c == a.root {
				if s.may["job"] {
					s.may["job2"] = true
				}
				s.must["job"], s.may["job"] = true, true
				if ao := a.origin(c, ci.Call.Args[0]); ao.v != ssa.Value(ip) || ao.c != a.root {
					s.may["jobid"] = true
				}
			}
		}
	})
	ex := fl2.exit[g]
	if ex == nil {
		return
	}
	cn := p.fname(f) + " runs its job"
	switch {
	case !ex.must["job"]:
		r.bad("job-lost", cn, p.pos(g.fn.Pos()), "some path through the worker does not run the submitted function")
	case ex.may["job2"]:
		r.bad("job-twice", cn, p.pos(g.fn.Pos()), "some path runs the submitted function twice")
	case ex.may["jobid"]:
		r.bad("job-id", cn, p.pos(g.fn.Pos()), "the submitted function is run with another id than the submitted one")
	}
	// every path through Run spawns exactly one worker
	spawned := false
	if e := fl.exit[a.root]; e != nil {
		for id := range e.live {
			if fl.goAt[id] == at {
				spawned = true
			}
		}
		gi := lift(at.c, at.site, a.root)
		if gi != nil {
			for _, b := range a.root.blocks() {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != a.root.fn.Recover {
					if !domInstr(gi, rt) {
						r.bad("job-lost", cn, p.ipos(rt), "some path returns without starting the job")
					}
				}
			}
			if pathAvoiding(gi, gi, nil) {
				r.bad("job-twice", cn, p.ipos(gi), "the job may be started repeatedly")
			}
		}
	}
	_ = spawned
	r.ok("job run once", cn)
}

// checkLimit: the limit of a concurrency queue is positive.
func checkLimit(r *R) {
	p := r.p
	f := p.fn("conc", "NewSingleQueue")
	if f == nil {
		r.bad("anchor", "conc.NewSingleQueue", "conc", "constructor not found")
		return
	}
	// the field Allowed reports
	n := p.named("conc", "SingleQueue")
	al := p.method("conc", "SingleQueue", "Allowed")
	if n == nil || al == nil {
		r.bad("anchor", "conc.SingleQueue", "conc", "queue type or its limit accessor not found")
		return
	}
	a := p.ptaFor(f)
	okN := 0
	for _, c := range a.Ctxs {
		for _, b := range c.blocks() {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || baseName(fa.X.Type()) != "SingleQueue" {
					continue
				}
				fld := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field)
				if !isInt(fld.Type()) || !reportsField(al, fa.Field) {
					continue
				}
				if !a.positive(c, st.Val, st.Block(), 0) {
					r.bad("limit-not-positive", "conc.NewSingleQueue", p.ipos(in), "the limit of concurrent workers may be zero or negative: a submitted job would never start")
				} else {
					okN++
					r.ok("positive limit", "conc.NewSingleQueue")
				}
			}
		}
	}
	r.floor("positive limit", 1)
}

func reportsField(f *ssa.Function, field int) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fa.Field == field {
				return true
			}
		}
	}
	return false
}

// positive: the value is known to be at least one where it is used.
func (a *PTA) positive(c *Ctx, v ssa.Value, b *ssa.BasicBlock, d int) bool {
	if d > 6 {
		return false
	}
	o := a.origin(c, v)
	if k, ok := o.v.(*ssa.Const); ok && k.Value != nil {
		n, ok := constant.Int64Val(constant.ToInt(k.Value))
		return ok && n > 0
	}
	if ci, ok := o.v.(*ssa.Call); ok {
		switch calleeFull(ci.Common()) {
		case "runtime.NumCPU", "runtime.GOMAXPROCS":
			return true
		case "builtin.max":
			for _, x := range ci.Call.Args {
				if a.positive(o.c, x, ci.Block(), d+1) {
					return true
				}
			}
		}
		if ks := a.callees[callKey{o.c, ci}]; len(ks) == 1 {
			okAll, n := true, 0
			for _, bb := range ks[0].blocks() {
				if rt, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					n++
					if !a.positive(ks[0], rt.Results[0], bb, d+1) {
						okAll = false
					}
				}
			}
			if n > 0 && okAll {
				return true
			}
		}
	}
	var facts []Fact
	if b != nil {
		facts = a.blockFacts(c, b)
	}
	for _, f := range facts {
		if a.factPositive(f, o) {
			return true
		}
	}
	if ph, ok := o.v.(*ssa.Phi); ok {
		for i, e := range ph.Edges {
			pred := ph.Block().Preds[i]
			if a.positive(o.c, e, pred, d+1) {
				continue
			}
			eo := a.origin(o.c, e)
			good := false
			for _, f := range a.edgeFact(o.c, pred, ph.Block(), 0) {
				if a.factPositive(f, eo) {
					good = true
				}
			}
			if !good {
				return false
			}
		}
		return true
	}
	return false
}

func (a *PTA) factPositive(f Fact, o TV) bool {
	op, x, y, ok := a.cmp(f)
	if !ok {
		return false
	}
	if a.origin(y.c, y.v) == o {
		if n, ok := a.term(x.c, x.v).constInt(); ok {
			return (op == "<" && n >= 0) || (op == "<=" && n >= 1) || (op == "==" && n >= 1)
		}
	}
	if a.origin(x.c, x.v) == o && op == "==" {
		if n, ok := a.term(y.c, y.v).constInt(); ok {
			return n >= 1
		}
	}
	return false
}
