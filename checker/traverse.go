package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: traversals reach every node, process it once, and sort it after its children.

func init() { reg("C09", checkTraversal) }

var one, minusOne = big.NewRat(1, 1), big.NewRat(-1, 1)

type trav struct {
	*fx
	f    *ssa.Function
	fr   *frame
	evs  []*event
	name string
}

func isNodeType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "SPN" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/spn")
}

func checkTraversal(r *R) {
	x := newFx(r)
	r.rule("every worklist traversal starts at the given node and hands every not yet seen child of every taken node to the worklist, exactly once (a seen-mark guards it and is set with it); topological sorters emit each node exactly once and only after all of its children; users of a sorted collection take from it in the order their tables need")
	r.assumes("networks are acyclic; queue and stack order: C17")
	for _, f := range r.p.Funcs {
		rel := r.p.rel(f)
		if f.Parent() != nil || f.Blocks == nil || !(rel == "spn" || strings.HasPrefix(rel, "learn")) {
			continue
		}
		f := f
		if tk := x.takesNodes(f); tk {
			x.try(r.p.fname(f), func() {
				t := &trav{fx: x, f: f, fr: x.vs.root(f), name: r.p.fname(f)}
				t.evs = x.vs.events(t.fr, nil, func(n string) bool { return isGive(n) || isTake(n) || isPeek(n) })
				t.worklists()
				t.consumers()
			})
		}
		if x.recursive(f) {
			x.try(r.p.fname(f), func() {
				t := &trav{fx: x, f: f, fr: x.vs.root(f), name: r.p.fname(f)}
				self := recOf(f)
				t.evs = x.vs.events(t.fr, nil, func(n string) bool { return isGive(n) || n == self })
				t.recursion(self)
			})
		}
	}
	r.floor("traversals", 5)
}

func recOf(f *ssa.Function) string {
	if rn := recvName(f); rn != "" {
		return rn + "." + f.Name()
	}
	return f.Pkg.Pkg.Name() + "." + f.Name()
}

// takesNodes: f itself takes nodes from a collection in a loop.
func (x *fx) takesNodes(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || !isNodeType(ta.AssertedType) || x.vs.loopOf(b) == nil {
				continue
			}
			if c, ok := ta.X.(*ssa.Call); ok && (isTake(callName(c)) || isPeek(callName(c))) {
				return true
			}
		}
	}
	return false
}

func callName(c *ssa.Call) string {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if r := recvName(f); r != "" {
			return r + "." + f.Name()
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg.Name() + "." + f.Name()
		}
	}
	return ""
}

// recursive: f calls itself in a loop and emits its node parameter to a collection.
func (x *fx) recursive(f *ssa.Function) bool {
	if x.p.rel(f) != "spn" {
		return false
	}
	rec, give := false, false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if c.Common().StaticCallee() == f {
				rec = true
			}
			if isGive(callName(c)) {
				give = true
			}
		}
	}
	return rec && give
}

// setAt replaces the seen-marks of a node in a guard: m says which value a mark has.
func (t *trav) marks(g *Form, key *Form, val func(set *Form) *Form) *Form {
	m := map[string]*Form{}
	g.walk(func(d *Form) {
		if d.op == "map" && len(d.args) == 2 && d.args[1] == key {
			if v := val(d.args[0]); v != nil {
				m[d.key] = v
			}
		}
		if d.op == "b" && d.sym == "has" && len(d.args) == 2 && d.args[1] == key {
			if v := val(d.args[0]); v != nil {
				m[d.key] = v
			}
		}
		if d.op == "eq" && (d.args[0] == key && d.args[1].sym == "nil" || d.args[1] == key && d.args[0].sym == "nil") {
			m[d.key] = t.z.fls()
		}
	})
	return t.z.substConds(g, m)
}

func (t *trav) allMarks(g, key *Form, v bool) *Form {
	return t.marks(g, key, func(*Form) *Form { return t.z.boolc(v) })
}

// sets: the maps in which the guard looks key up.
func sets(g, key *Form) []*Form {
	var out []*Form
	seen := map[*Form]bool{}
	g.walk(func(d *Form) {
		if len(d.args) == 2 && (d.op == "map" || d.op == "b" && d.sym == "has") && d.args[1] == key && !seen[d.args[0]] {
			seen[d.args[0]] = true
			out = append(out, d.args[0])
		}
	})
	return out
}

type taken struct {
	e    *event
	coll *Form
	node *Form
}

// sets to seen: what is written makes the guard see the node as marked.
func (t *trav) truly(m *event, g *Form) bool {
	mu, ok := m.in.(*ssa.MapUpdate)
	if !ok {
		return true
	}
	if !isBool(mu.Map.Type().Underlying().(*types.Map).Elem()) || isTrue(m.val) || m.val.opq {
		return true
	}
	// only presence matters
	read := false
	g.walk(func(d *Form) {
		if d.op == "map" && len(d.args) == 2 && d.args[0] == m.base {
			read = true
		}
	})
	return !read
}

func inside(e *event, of *event) bool {
	if len(e.loops) < len(of.loops) {
		return false
	}
	for i := range of.loops {
		if e.loops[i].it != of.loops[i].it {
			return false
		}
	}
	return true
}

func isPeek(n string) bool {
	return n == "common.Stack.Peek" || n == "common.Queue.Peek" || n == "Peek"
}

func (t *trav) takes() []taken {
	var out []taken
	// looked at first and taken off the collection later
	for _, e := range t.evs {
		if e.kind == "call" && isPeek(e.name) && e.fr == t.fr && len(e.loops) > 0 {
			off := false
			for _, o := range t.evs {
				if o.kind == "call" && isTake(o.name) && o.fr == t.fr && o.args[0] == e.args[0] && inside(o, e) {
					off = off || len(*o.in.(*ssa.Call).Referrers()) == 0
				}
			}
			if off {
				out = append(out, taken{e, e.args[0], t.vs.at(e.fr, e.in.(*ssa.Call), e.in.Block())})
			}
		}
	}
	if len(out) > 0 {
		return out
	}
	for _, e := range t.evs {
		if e.kind == "call" && isTake(e.name) && e.fr == t.fr && len(e.loops) > 0 {
			out = append(out, taken{e, e.args[0], t.vs.at(e.fr, e.in.(*ssa.Call), e.in.Block())})
		}
	}
	return out
}

func (t *trav) worklists() {
	for _, tk := range t.takes() {
		var kids, back, emit, before []*event
		own := false
		for _, e := range t.evs {
			if e.kind != "call" || !isGive(e.name) {
				continue
			}
			a := e.args[len(e.args)-1]
			in := inside(e, tk.e)
			if e.args[0] == tk.coll {
				switch {
				case !in:
					before = append(before, e)
				case a == tk.node:
					back = append(back, e)
				default:
					kids = append(kids, e)
					own = true
				}
			} else if in && a == tk.node {
				emit = append(emit, e)
			}
		}
		if !own {
			continue
		}
		t.start(tk, before)
		if len(emit) > 0 || len(back) > 0 {
			t.sorter(tk, kids, back, emit)
			continue
		}
		// rounds that end the traversal early aside
		lp := tk.e.loops[len(tk.e.loops)-1].l
		t.vs.doneOnly = true
		in := t.vs.events(t.fr, lp, func(n string) bool { return isGive(n) || isTake(n) })
		t.vs.doneOnly = false
		all := t.evs
		t.evs = nil
		kids = nil
		for _, e := range in {
			e.loops = append(append([]evLoop{}, tk.e.loops...), e.loops...)
			t.evs = append(t.evs, e)
			if e.kind == "call" && isGive(e.name) && e.args[0] == tk.coll {
				kids = append(kids, e)
			}
		}
		t.worklist(tk, kids)
		t.early(tk, lp)
		if t.answers() {
			t.skipped(kids)
		}
		t.evs = all
	}
}

// answers: the caller's function says 0 (go on), 1 (stop) or -1 (skip what is below).
func (t *trav) answers() bool {
	ps := t.f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if sg, ok := ps.At(i).Type().Underlying().(*types.Signature); ok && sg.Results().Len() == 1 {
			if b, ok := sg.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return true
			}
		}
	}
	return false
}

// skipped: nothing below a node is handed on when the caller's function says so.
func (t *trav) skipped(kids []*event) {
	for _, e := range kids {
		n := 0
		h := t.z.rewrite(e.guard, func(d *Form) *Form {
			if d.op == "apply" {
				n++
				return t.z.num(-1)
			}
			return nil
		})
		if h.opq || e.guard.opq {
			continue
		}
		if !isFalse(h) {
			t.r.bad("skip", t.name+": children of a skipped node", t.p.ipos(e.in), "handed on although the caller's function returned -1")
		} else {
			t.r.ok("traversals", t.name+": children of a skipped node")
		}
	}
}

// early: the traversal does not end before the worklist is empty, unless the function has an
// answer by then.
func (t *trav) early(tk taken, lp *loop) {
	what := t.name + ": end of the traversal"
	res := t.f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return
		}
	}
	answers := t.answers()
	if !answers && t.needsLeaves() {
		return
	}
	for _, b := range t.f.Blocks {
		if b == lp.head || !lp.in[b] {
			continue
		}
		for _, s := range b.Succs {
			if lp.in[s] {
				continue
			}
			if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
				continue
			}
			var g *Form
			if vsl := t.vs.loopOf(b); vsl != lp {
				t.undecided(what, "leaves from an inner loop")
				continue
			}
			g = t.vs.reach(t.fr, lp, b)
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				c := t.vs.at(t.fr, i.Cond, b)
				if b.Succs[0] != s {
					c = t.z.not(c)
				}
				g = t.z.ite(g, c, t.z.fls())
			}
			if answers {
				calls := 0
				g.walk(func(d *Form) {
					if d.op == "apply" {
						calls++
					}
				})
				if calls > 0 && !g.opq {
					for _, v := range []int64{-1, 0} {
						h := t.z.rewrite(g, func(d *Form) *Form {
							if d.op == "apply" {
								return t.z.num(v)
							}
							return nil
						})
						if isTrue(h) {
							t.r.bad("early-end", what, t.p.ipos(b.Instrs[len(b.Instrs)-1]), fmt.Sprintf("ends with nodes left when the caller's function returns %d", v))
						}
					}
					continue
				}
				t.undecided(what, g.String())
				continue
			}
			switch {
			case isFalse(g):
			case g.opq || hasSite2(g, tk.node):
				t.undecided(what, g.String())
			default:
				t.r.bad("early-end", what, t.p.ipos(b.Instrs[len(b.Instrs)-1]), "ends with nodes left when "+g.String())
			}
		}
	}
}

// start: the traversal starts at the node given.
func (t *trav) start(tk taken, before []*event) {
	what := t.name + ": start of the traversal"
	n := 0
	for _, e := range before {
		if len(e.loops) > 0 {
			continue
		}
		n++
		a := e.args[len(e.args)-1]
		if a.op == "arg" || a.op == "leaf" || strings.HasPrefix(a.String(), "arg") {
			if a.String() == t.fr.args[0].String() || isArg(t, a) {
				t.r.ok("traversals", what)
				continue
			}
		}
		if a.opq {
			t.undecided(what, a.String())
		} else {
			t.r.bad("start", what, t.p.ipos(e.in), "starts at "+a.String()+" instead of the given node")
		}
	}
	if n == 0 {
		t.undecided(what, "nothing given before the loop")
	}
}

func isArg(t *trav, a *Form) bool {
	for _, b := range t.fr.args {
		if a == b {
			return true
		}
	}
	return false
}

// child: which child of the node an event hands over: nil if it is something else.
// all: the loop runs over all children (or all that satisfy a filter, which is returned).
func (t *trav) child(tk taken, e *event) (c *Form, filter *Form, all, known bool) {
	z := t.z
	a := e.args[len(e.args)-1]
	if len(e.loops) == 0 {
		return nil, nil, false, false
	}
	l := e.loops[len(e.loops)-1]
	chs := t.ch(tk.node)
	if a.op == "idx" && a.args[0] == chs && a != z.idx(chs, l.it) {
		o, k, ok := linearIn(a.args[1], l.it)
		d := t.wellFormed(l.dom)
		if !ok || o == nil || d.opq || hasSite2(d, tk.node) || d.op == "while" {
			return nil, nil, false, false
		}
		n := z.length(chs)
		switch {
		case k.Sign() == 0:
			return nil, nil, false, false
		case k.Cmp(one) == 0:
			return a, z.tru(), o.isNum(0) && d == n && !t.vs.breaks(l.l), true
		case k.Cmp(minusOne) == 0:
			return a, z.tru(), t.wellFormed(o) == z.sub(n, z.num(1)) && d == n && !t.vs.breaks(l.l), true
		}
		return nil, nil, false, false
	}
	if a == z.idx(chs, l.it) {
		d := t.wellFormed(l.dom)
		if d == z.length(chs) {
			return a, z.tru(), !t.vs.breaks(l.l), true
		}
		if d.opq || hasSite2(d, tk.node) || d.op == "while" {
			return a, z.tru(), false, false
		}
		return a, z.tru(), false, true
	}
	// the children that satisfy a condition, collected first
	if a.op == "idx" && a.args[0].op == "coll" && a.args[1] == l.it {
		cl := a.args[0]
		if l.dom != z.length(cl) || t.vs.breaks(l.l) {
			return nil, nil, false, false
		}
		if t.wellFormed(cl.args[0]) != z.length(chs) {
			return nil, nil, false, false
		}
		it := z.atom("iter", "spec"+fmt.Sprint(specN))
		specN++
		body := z.open(cl, it)
		ch := z.idx(chs, it)
		gs, vs := z.splits(body)
		f := z.fls()
		for i, v := range vs {
			switch {
			case v.op == "skip" || v.sym == "skip":
			case v.op == "lit" && len(v.args) == 1 && v.args[0] == ch:
				f = z.ite(gs[i], z.tru(), f)
			default:
				return nil, nil, false, false
			}
		}
		return ch, f, true, true
	}
	return nil, nil, false, false
}

// firstOnly: the event happens on leaving a loop over the node's children early.
func (t *trav) firstOnly(tk taken, e *event) bool {
	if e.fr != t.fr {
		return false
	}
	b := e.in.Block()
	for _, l := range t.vs.nest(t.f).all {
		if l.in[b] || t.wellFormed(t.vs.dom(t.fr, l)) != t.z.length(t.ch(tk.node)) {
			continue
		}
		for d := b.Idom(); d != nil; d = d.Idom() {
			if l.in[d] {
				if d != l.head {
					return true
				}
				break
			}
		}
	}
	return false
}

// selective: the traversal follows the most probable state.
func (t *trav) selective() bool {
	if strings.Contains(t.f.Name(), "MAP") || strings.Contains(t.f.Name(), "Max") {
		return true
	}
	for _, b := range t.f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && strings.Contains(callName(c), "MAP") {
				return true
			}
		}
	}
	return false
}

// needsLeaves: the traversal has to reach the leaves as well.
func (t *trav) needsLeaves() bool {
	sig := t.f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); !ok {
			continue
		}
		if t.f.Object() != nil && t.f.Object().Exported() {
			return true
		}
		// a helper: only if it is handed a function that came from outside
		j := i
		if sig.Recv() != nil {
			j++
		}
		for _, g := range t.p.Funcs {
			fwd := false
			callsIn(g, func(ci ssa.CallInstruction) {
				if ci.Common().StaticCallee() != t.f || j >= len(ci.Common().Args) {
					return
				}
				switch a := strip(ci.Common().Args[j]).(type) {
				case *ssa.MakeClosure, *ssa.Function:
					_ = a
				default:
					fwd = true
				}
			})
			if fwd {
				return true
			}
		}
	}
	return t.f.Name() == "PrintSPN"
}

// callback: replaces the condition "the caller's function says go on" by true.
func (t *trav) callback(g *Form) *Form {
	m := map[string]*Form{}
	g.walk(func(d *Form) {
		if d.op == "eq0" && strings.HasPrefix(d.args[0].String(), "apply:") {
			m[d.key] = t.z.tru()
		}
		if d.op == "apply" {
			m[d.key] = t.z.num(0)
		}
	})
	return t.z.substConds(t.z.subst(g, m), m)
}

func (t *trav) worklist(tk taken, kids []*event) {
	z := t.z
	for _, k := range []string{"sum", "product"} {
		facts := append(t.isKind(tk.node, k), fact{z.eq0(z.length(t.ch(tk.node))), false})
		what := fmt.Sprintf("%s: children of a %s node", t.name, k)
		covered, clear, partial, sel := false, true, "", false
		var pos ssa.Instruction
		for _, e := range kids {
			g := t.given(e.guard, facts...)
			if isFalse(g) {
				continue
			}
			c, filter, all, known := t.child(tk, e)
			if c == nil && t.firstOnly(tk, e) && (k == "product" || !t.selective()) {
				t.r.bad("every-child", what, t.p.ipos(e.in), "the loop over the children is left once one is handed over")
				continue
			}
			if c == nil {
				// a chosen child (MAP descent) or something else
				sel = true
				continue
			}
			pos = e.in
			if !known || g.opq {
				clear = false
				continue
			}
			g = t.callback(z.ite(filter, g, z.fls()))
			u := t.allMarks(g, c, false)
			u = z.assume(u, z.eq(z.atom("const", "nil"), c), false)
			if !t.needsLeaves() {
				u = z.assume(u, t.kind(c, "leaf"), false)
				u = z.assume(u, z.eq0(z.length(t.ch(c))), false)
			}
			// seen nodes must not be handed over again
			s := t.allMarks(g, c, true)
			lazy := len(sets(e.guard, tk.node)) > 0
			switch {
			case isFalse(s):
			case lazy:
			case s.opq || hasSite2(s, tk.node) && len(sets(s, c)) == 0:
				t.undecided(what+" are handed over once", s.String())
			default:
				t.r.bad("seen-once", what+" are handed over once", t.p.ipos(e.in), "a child reached through several parents is handed over again")
			}
			if isFalse(s) && !lazy {
				t.marked(tk, e, c, what)
				t.lost(tk, e, c, what)
			}
			if lazy {
				u = t.allMarks(u, tk.node, false)
			}
			switch {
			case !all:
				partial = "not all children are considered (" + e.loops[len(e.loops)-1].dom.String() + ")"
			case isTrue(u):
				covered = true
			case u.opq || hasSite2(u, tk.node):
				clear = false
			default:
				partial = "only handed over when " + u.String()
			}
		}
		switch {
		case covered:
			t.r.ok("traversals", what)
		case sel:
			// checked with the state or count it follows (C11, C12)
		case !clear:
			t.undecided(what, "not understood")
		default:
			if partial == "" {
				partial = "no child is handed over"
			}
			if pos == nil {
				pos = tk.e.in
			}
			t.r.bad("every-child", what, t.p.ipos(pos), partial)
		}
	}
}

// lost: no child is marked as seen without being handed over.
func (t *trav) lost(tk taken, e *event, c *Form, what string) {
	z := t.z
	if e.args[len(e.args)-1] != c {
		return
	}
	for _, s := range sets(e.guard, c) {
		for _, m := range t.evs {
			if m.kind != "map" || m.base != s || m.key != c || !inside(m, e) {
				continue
			}
			mg, eg := t.allMarks(m.guard, c, false), t.allMarks(e.guard, c, false)
			for _, f := range append(t.isKind(tk.node, "sum"), fact{z.eq0(z.length(t.ch(tk.node))), false}) {
				mg, eg = z.assume(mg, f.c, f.v), z.assume(eg, f.c, f.v)
			}
			if !t.needsLeaves() {
				eg = z.assume(eg, t.kind(c, "leaf"), false)
				eg = z.assume(eg, z.eq0(z.length(t.ch(c))), false)
				mg = z.assume(mg, t.kind(c, "leaf"), false)
				mg = z.assume(mg, z.eq0(z.length(t.ch(c))), false)
			}
			if mg.opq || eg.opq || mg == eg {
				continue
			}
			u := z.implied(mg, eg)
			if isTrue(u) || u.opq {
				continue
			}
			// handed over by another call
			other := false
			for _, o := range t.evs {
				if o != e && o.kind == "call" && isGive(o.name) && o.args[0] == tk.coll && o.args[len(o.args)-1] == c {
					other = true
				}
			}
			if other {
				continue
			}
			t.r.bad("every-child", what, t.p.ipos(m.in), "a child is marked as seen, but only handed over when "+u.String())
		}
	}
}

// marked: the seen-mark is set when the child is handed over.
func (t *trav) marked(tk taken, e *event, c *Form, what string) {
	z := t.z
	what += " are marked as seen"
	ss := sets(e.guard, c)
	if a := e.args[len(e.args)-1]; a != c {
		return
	}
	if len(ss) == 0 {
		t.undecided(what, "no mark")
		return
	}
	for _, s := range ss {
		none := true
		for _, m := range t.evs {
			if m.kind != "map" || m.base != s || !inside(m, e) {
				continue
			}
			if m.key != c || !t.truly(m, e.guard) {
				continue
			}
			none = false
			if m.guard == e.guard || isTrue(m.guard) {
				t.r.ok("marks", what)
				return
			}
			// the mark is set whenever the child is handed over
			g := m.guard
			if !e.guard.opq && !g.opq && isTrue(z.implied(e.guard, g)) {
				t.r.ok("marks", what)
				return
			}
		}
		if none {
			unknownKey := false
			for _, m := range t.evs {
				if m.kind == "map" && m.base == s && (m.key.opq || m.key.op == "site" && m.key != tk.node) {
					unknownKey = true
				}
			}
			if unknownKey {
				t.undecided(what, "marks not understood")
				return
			}
			t.r.bad("seen-mark", what, t.p.ipos(e.in), "the mark that guards it is never set for the child")
			return
		}
	}
	t.undecided(what, "mark conditions differ")
}

// implied: g simplified under the assumption that h holds.
func (z *forms) implied(h, g *Form) *Form {
	for h.op == "ite" {
		c := h.args[0]
		if isFalse(h.args[2]) {
			g = z.assume(g, c, true)
			h = h.args[1]
		} else if isFalse(h.args[1]) {
			g = z.assume(g, c, false)
			h = h.args[2]
		} else {
			break
		}
	}
	if !isTrue(h) && isCondOp(h.op) {
		g = z.assume(g, h, true)
	}
	return g
}

// sorter: a node is emitted once, after its children.
func (t *trav) sorter(tk taken, kids, back, emit []*event) {
	z := t.z
	node := tk.node
	inner := fact{z.eq0(z.length(t.ch(node))), false}
	// conditions "all children are done"
	pending := func(g *Form) *Form {
		m := map[string]*Form{}
		g.walk(func(d *Form) {
			if d.op == "eq0" && d.args[0].op == "len" && d.args[0].args[0].op == "coll" {
				cl := d.args[0].args[0]
				if t.wellFormed(cl.args[0]) == z.length(t.ch(node)) {
					m[d.key] = z.fls()
				}
			}
			if d.op == "b" && d.sym == "any" && t.wellFormed(d.args[0]) == z.length(t.ch(node)) {
				m[d.key] = z.tru()
			}
			if d.op == "eq0" && d.args[0].op == "sum" && t.wellFormed(d.args[0].args[0]) == z.length(t.ch(node)) {
				m[d.key] = z.fls()
			}
		})
		return z.substConds(g, m)
	}
	for _, e := range emit {
		what := t.name + ": emitted node"
		// once
		var once *Form
		for _, s := range sets(e.guard, node) {
			s := s
			if !isFalse(t.marks(e.guard, node, func(m *Form) *Form {
				if m == s {
					return z.tru()
				}
				return nil
			})) {
				continue
			}
			for _, m := range t.evs {
				if m.kind == "map" && m.base == s && m.key == node && t.truly(m, e.guard) && (m.guard == e.guard || isTrue(z.implied(e.guard, m.guard))) {
					once = s
				}
			}
		}
		switch {
		case once != nil:
			t.r.ok("sorters", what+" is emitted once")
		case e.guard.opq:
			t.undecided(what, "guard")
		default:
			t.r.bad("emit-once", what, t.p.ipos(e.in), "a node on the stack more than once is emitted again")
		}
		// not before its children
		g := t.given(e.guard, inner)
		g = t.callback(g)
		g = t.allMarks(pending(g), node, false)
		switch {
		case isFalse(g):
			t.r.ok("sorters", what+" comes after its children")
		case g.opq || hasSite2(g, node):
			t.undecided(what+" comes after its children", g.String())
		default:
			t.r.bad("after-children", what, t.p.ipos(e.in), "emitted on first sight, before its children")
		}
	}
	if len(emit) == 0 {
		return
	}
	// put back below its children
	what := t.name + ": node put back"
	ok := false
	for _, e := range back {
		g := t.allMarks(pending(t.given(e.guard, inner)), node, false)
		if !isTrue(g) {
			t.undecided(what, g.String())
			continue
		}
		ok = true
		for _, k := range kids {
			if e.fr != k.fr {
				continue
			}
			if !before(e.in, k.in) {
				t.r.bad("below-children", what, t.p.ipos(e.in), "put on the stack above its children, so it is taken before them")
				ok = false
			}
		}
		if ok {
			t.r.ok("sorters", what+" below its children")
		}
	}
	if isPeek(tk.e.name) {
		t.r.ok("sorters", what+": stays below its children")
	} else if len(back) == 0 {
		t.undecided(what, "never put back")
	}
	// the phase mark belongs to the node itself
	for _, e := range emit {
		ss := sets(e.guard, node)
		e.guard.walk(func(d *Form) {
			// "no child left"
			if (d.op == "sum" || d.op == "coll" || d.op == "b" && d.sym == "any") && len(d.args) > 2 && t.wellFormed(d.args[0]) == z.length(t.ch(node)) {
				d.walk(func(m *Form) {
					if (m.op == "map" || m.op == "b" && m.sym == "has") && len(m.args) == 2 && m.args[0].op == "site" && m.args[1].op == "idx" {
						ss = append(ss, m.args[0])
					}
				})
			}
		})
		for _, s := range ss {
			for _, m := range t.evs {
				if m.kind == "map" && m.base == s && m.key != node && parentOf(m.key) == node {
					t.r.bad("phase-mark", t.name+": phase mark", t.p.ipos(m.in), "set for a child when it is handed over, not when it is expanded")
				}
			}
		}
	}
	what = t.name + ": children"
	covered, clear, partial := false, true, "no child is handed over"
	var pos ssa.Instruction = tk.e.in
	for _, e := range kids {
		c, filter, all, known := t.child(tk, e)
		if c == nil || !known {
			clear = false
			continue
		}
		pos = e.in
		g := t.allMarks(pending(t.given(z.ite(filter, e.guard, z.fls()), inner)), node, false)
		g = t.allMarks(g, c, false)
		switch {
		case !all:
			partial = "not all children are considered (" + e.loops[len(e.loops)-1].dom.String() + ")"
		case isTrue(g):
			covered = true
		case g.opq || hasSite2(g, node):
			clear = false
		default:
			partial = "only handed over when " + g.String()
		}
	}
	switch {
	case covered:
		t.r.ok("sorters", what+" are all handed over")
	case !clear:
		t.undecided(what, "not understood")
	default:
		t.r.bad("every-child", what, t.p.ipos(pos), partial)
	}
}

func isPositive(f *Form) bool {
	c, ok := f.constant()
	return ok && c.Sign() > 0
}

// before: a is executed before b in the same round.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// recursion: a node is emitted once, after the recursive calls for its children.
func (t *trav) recursion(self string) {
	z := t.z
	var node *Form
	ni := -1
	for i, p := range t.f.Params {
		if isNodeType(p.Type()) {
			node, ni = t.fr.args[i], i
			break
		}
	}
	if node == nil {
		return
	}
	var emit, rec []*event
	for _, e := range t.evs {
		if e.kind != "call" {
			continue
		}
		if e.name == self {
			rec = append(rec, e)
		} else if isGive(e.name) && e.args[len(e.args)-1] == node {
			emit = append(emit, e)
		}
	}
	if len(emit) == 0 || len(rec) == 0 {
		t.undecided(t.name, "recursion not understood")
		return
	}
	inner := fact{z.eq0(z.length(t.ch(node))), false}
	for _, r := range rec {
		what := t.name + ": children"
		if len(r.loops) == 0 || r.fr != t.fr {
			t.undecided(what, "recursive call")
			continue
		}
		l := r.loops[len(r.loops)-1]
		c := r.args[ni]
		d := t.wellFormed(l.dom)
		if c != z.idx(t.ch(node), l.it) {
			if c.op == "idx" && c.args[0] == t.ch(node) && !d.opq {
				if o, k, ok := linearIn(c.args[1], l.it); ok && k.Cmp(one) == 0 && o != nil && isPositive(o) {
					t.r.bad("every-child", what, t.p.ipos(r.in), "visiting starts at child "+o.String())
					continue
				}
			}
			t.undecided(what, c.String())
			continue
		}
		g := t.given(r.guard, inner)
		g = t.allMarks(t.allMarks(g, node, false), c, false)
		switch {
		case d.opq || g.opq:
			t.undecided(what, "loop")
		case d != z.length(t.ch(node)) || t.vs.breaks(l.l):
			t.r.bad("every-child", what, t.p.ipos(r.in), "not all children are visited ("+d.String()+")")
		case !isTrue(g):
			t.r.bad("every-child", what, t.p.ipos(r.in), "only visited when "+g.String())
		default:
			t.r.ok("sorters", what+" are all visited")
		}
		for _, e := range emit {
			what := t.name + ": emitted node"
			if e.fr != t.fr {
				t.undecided(what, "emission")
				continue
			}
			if fwdReach(e.in.Block(), l.l.head, nil) || l.l.in[e.in.Block()] {
				t.r.bad("after-children", what, t.p.ipos(e.in), "emitted before its children")
			} else {
				t.r.ok("sorters", what+" comes after its children")
			}
			eg := t.allMarks(t.given(e.guard, inner), node, false)
			if !isTrue(eg) && !eg.opq {
				t.r.bad("every-node", what, t.p.ipos(e.in), "only emitted when "+eg.String())
			}
			// once: either the emission or the recursive call is guarded by a mark
			once := "a node with several parents is emitted again"
			if isFalse(t.allMarks(e.guard, node, true)) {
				for _, s := range sets(e.guard, node) {
					for _, m := range t.evs {
						if m.kind == "map" && m.base == s && m.key == node && t.truly(m, e.guard) && m.fr == t.fr && before(m.in, e.in) {
							once = ""
						}
					}
				}
			}
			if isFalse(t.allMarks(r.guard, c, true)) {
				for _, s := range sets(r.guard, c) {
					for _, m := range t.evs {
						if m.kind == "map" && m.base == s && (m.key == c || m.key == node) && t.truly(m, r.guard) && m.fr == t.fr && (before(m.in, r.in) || m.key == c) {
							once = ""
						}
					}
				}
			}
			if once == "" {
				t.r.ok("sorters", what+" is emitted once")
			} else if e.guard.opq || r.guard.opq {
				t.undecided(what, "guards")
			} else {
				t.r.bad("emit-once", what, t.p.ipos(e.in), once)
			}
		}
	}
}

// consumers: functions that go through a sorted collection do so in the order their tables need.
func (t *trav) consumers() {
	for _, tk := range t.takes() {
		// how the collection was filled
		var fill *ssa.Call
		for _, b := range t.f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().IsInvoke() || len(c.Common().Args) < 2 {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil || !(strings.HasPrefix(cal.Name(), "TopSort") || cal.Name() == "PostOrder") || t.p.rel(cal) != "spn" {
					continue
				}
				if t.vs.at(t.fr, c.Common().Args[1], b) == tk.coll || t.vs.at(t.fr, c, b) == tk.coll {
					fill = c
				}
			}
		}
		if fill == nil {
			continue
		}
		what := t.name + ": order of nodes"
		typ := ""
		if mi, ok := fill.Common().Args[1].(*ssa.MakeInterface); ok {
			typ = types.TypeString(mi.X.Type(), func(p *types.Package) string { return p.Name() })
		}
		lifo := false
		switch {
		case strings.HasSuffix(tk.e.name, "DequeueBack"), strings.HasSuffix(tk.e.name, "Pop"):
			lifo = true
		case strings.HasSuffix(tk.e.name, "Dequeue"):
		case typ == "*common.Queue":
		case typ == "*common.Stack":
			lifo = true
		default:
			if c, ok := fill.Common().Args[1].(*ssa.Const); !ok || !c.IsNil() {
				t.undecided(what, "collection type")
				continue
			}
		}
		need := t.needs(tk)
		switch need {
		case 0:
			t.undecided(what, "dependence not found")
		case 1:
			if lifo {
				t.r.bad("order", what, t.p.ipos(tk.e.in), "a node is processed before its children, whose entries it reads")
			} else {
				t.r.ok("orders", what+": children first")
			}
		case 2:
			if !lifo {
				t.r.bad("order", what, t.p.ipos(tk.e.in), "a node is processed before its parents, which change its entry")
			} else {
				t.r.ok("orders", what+": parents first")
			}
		}
	}
}

// needs: 1 a node's entry is computed from its children's, 2 a node changes its children's entries.
func (t *trav) needs(tk taken) int {
	z := t.z
	mentionsChild := func(f *Form) bool {
		b := false
		f.walk(func(d *Form) {
			if d.op == "map" && len(d.args) == 2 {
				k := d.args[1]
				if k.op == "idx" && k.args[0] == t.ch(tk.node) {
					b = true
				}
			}
			if d.op == "fld" && len(d.args) == 1 && d.args[0].op == "idx" && d.args[0].args[0] == t.ch(tk.node) && d.sym == "sc" {
				b = true
			}
		})
		return b
	}
	n := 0
	for _, e := range t.evs {
		if e.kind != "map" || !inside(e, tk.e) {
			continue
		}
		// whose entry
		var owner *Form
		if e.key == tk.node || e.base.op == "map" && e.base.args[1] == tk.node {
			owner = tk.node
		} else if parentOf(e.key) == tk.node && e.key.op == "idx" {
			owner = e.key
		} else if e.base.op == "map" && e.base.args[1].op == "idx" && parentOf(e.base.args[1]) == tk.node {
			owner = e.base.args[1]
		}
		if owner == nil {
			_, bs := z.splits(e.base)
			for _, b := range bs {
				if b.op == "map" && b.args[1] == tk.node {
					owner = tk.node
				} else if b.op == "map" && b.args[1].op == "idx" && parentOf(b.args[1]) == tk.node {
					owner = b.args[1]
				}
			}
		}
		if owner == nil {
			continue
		}
		if owner == tk.node {
			if mentionsChild(e.val) {
				if n == 2 {
					return 0
				}
				n = 1
			}
		} else {
			own := false
			e.val.walk(func(d *Form) {
				if d.op == "map" && len(d.args) == 2 && d.args[1] == tk.node {
					own = true
				}
			})
			if own {
				if n == 1 {
					return 0
				}
				n = 2
			}
		}
	}
	if n == 0 {
		switch t.f.Name() {
		case "ComputeScope":
			n = 1
		}
	}
	return n
}
