package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Access paths: an SSA value as the chain of element loads that produced it. Two equal paths read
// the same element as long as nothing in between writes it; the rules below only use them within
// one iteration of the innermost loop.

type apath struct {
	key  string
	op   string // leaf, idx
	v    ssa.Value
	args []*apath
}

type apaths struct{ m map[string]*apath }

func (a *apaths) of(v ssa.Value) *apath { return a.depth(v, 0) }

func (a *apaths) depth(v ssa.Value, d int) *apath {
	if d < 12 {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					return a.node("idx", v, a.depth(ia.X, d+1), a.depth(ia.Index, d+1))
				}
			}
		case *ssa.ChangeType:
			return a.depth(x.X, d+1)
		case *ssa.Convert:
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return a.depth(x.X, d+1)
			}
		}
	}
	if c, ok := v.(*ssa.Const); ok {
		return a.node("leaf "+c.String(), v)
	}
	return a.node("leaf "+v.Name(), v)
}

func (a *apaths) node(op string, v ssa.Value, args ...*apath) *apath {
	k := op
	for _, x := range args {
		k += "(" + x.key + ")"
	}
	if n := a.m[k]; n != nil {
		return n
	}
	n := &apath{key: k, op: strings.Fields(op)[0], v: v, args: args}
	a.m[k] = n
	return n
}

func (n *apath) leaves(out *[]ssa.Value) {
	if n.op == "leaf" {
		*out = append(*out, n.v)
	}
	for _, a := range n.args {
		a.leaves(out)
	}
}

// partitions: functions that deal out the instances of a dataset through index tables.
func (x *fx) partitions(name string, labels bool) {
	f := x.p.fn("data", name)
	if f == nil || f.Blocks == nil || len(f.Params) < 2 {
		return
	}
	ap := &apaths{m: map[string]*apath{}}
	D := ssa.Value(f.Params[0])
	var L ssa.Value
	if labels {
		L = f.Params[1]
	}
	nest := x.vs.nest(f)
	rows := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ld, ok := in.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			ia, ok := ld.X.(*ssa.IndexAddr)
			if !ok || ia.X != D {
				continue
			}
			lp := nest.of[b]
			if lp == nil {
				continue
			}
			rows++
			e := ap.of(ia.Index)
			what := fmt.Sprintf("data.%s: instance taken at %s", name, x.p.ipos(in))
			// every enclosing loop decides which instance is taken, or the same one is taken again
			var ls []ssa.Value
			e.leaves(&ls)
			again := false
			for o := lp; o != nil; o = o.parent {
				contributes := false
				for _, v := range ls {
					if varies(v, o, nest, map[ssa.Value]bool{}) {
						contributes = true
					}
				}
				if !contributes && memoryVaries(f, e, o) {
					contributes = true
				}
				if !contributes {
					again = true
					x.r.bad("dataset", fmt.Sprintf("data.%s: instances taken more than once", name), x.p.ipos(in),
						"the index of the instance does not depend on the enclosing loop, so each of its iterations takes the same instances again")
					break
				}
			}
			if !again {
				x.r.ok("rows and labels", what+" depends on every enclosing loop")
				x.position(f, name, what, in, e, lp, nest)
			}
			if !labels {
				continue
			}
			// the class of the instance
			var class *apath
			if e.op == "idx" && e.args[0].op == "idx" && x.classTable(f, ap, e.args[0].args[0], L) {
				class = e.args[0].args[1]
			}
			if class == nil {
				x.undecided(what, "class of the instance")
				continue
			}
			// counters used with the class
			bad := false
			var scan func(n *apath)
			scan = func(n *apath) {
				if n.op == "idx" && n.args[0].op == "leaf" && len(n.args) == 2 && n.args[0] != e.args[0].args[0] && isIntSlice(n.args[0].v.Type()) && n.args[1].op == "leaf" && n.args[1] != class {
					if _, isPhi := n.args[1].v.(*ssa.Phi); isPhi {
						bad = true
						x.r.bad("dataset", fmt.Sprintf("data.%s: counter of another class", name), x.p.ipos(in), "the instance of a class is chosen with the counter of something else")
					}
				}
				for _, a := range n.args {
					scan(a)
				}
			}
			scan(e)
			if bad {
				continue
			}
			found := false
			for b2 := range lp.in {
				if nest.of[b2] != lp {
					continue
				}
				for _, in2 := range b2.Instrs {
					v, ok := x.labelWrite(f, in2)
					if !ok {
						continue
					}
					found = true
					l := ap.of(v)
					good := l == class || L != nil && l.op == "idx" && l.args[0] == ap.of(L) && l.args[1] == e
					switch {
					case good:
						x.r.ok("rows and labels", fmt.Sprintf("data.%s: label of the instance taken at %s is its class", name, x.p.ipos(in)))
					case l.op == "leaf" && isCall(v):
						x.undecided(what, "label")
					default:
						x.r.bad("dataset", fmt.Sprintf("data.%s: label of an instance", name), x.p.ipos(in2), "the label recorded next to an instance is not the class it was taken from")
					}
				}
			}
			if !found {
				x.undecided(what, "label not found")
			}
		}
	}
	if rows == 0 {
		x.undecided("data."+name, "no instance taken by index")
	}
}

func isCall(v ssa.Value) bool { _, ok := v.(*ssa.Call); return ok }

func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// varies: the value is different (or may be) in another iteration of o.
func varies(v ssa.Value, o *loop, nest *loopNest, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if !o.in[in.Block()] {
		return false
	}
	switch y := v.(type) {
	case *ssa.Phi:
		if y.Block() == o.head {
			return true
		}
		// a counter of an inner loop: what does it start from?
		lp := nest.of[y.Block()]
		if lp != nil && lp != o && lp.head == y.Block() {
			for i, p := range y.Block().Preds {
				if !lp.in[p] && varies(y.Edges[i], o, nest, seen) {
					return true
				}
			}
			return false
		}
		for _, e := range y.Edges {
			if varies(e, o, nest, seen) {
				return true
			}
		}
		return true
	case *ssa.BinOp:
		return varies(y.X, o, nest, seen) || varies(y.Y, o, nest, seen)
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return varies(y.X, o, nest, seen)
		}
		return true
	case *ssa.MakeSlice, *ssa.Alloc, *ssa.Call:
		return true
	}
	return true
}

// memoryVaries: a table on the path is written within the loop.
func memoryVaries(f *ssa.Function, e *apath, o *loop) bool {
	roots := map[ssa.Value]bool{}
	var walk func(n *apath)
	walk = func(n *apath) {
		if n.op == "idx" {
			r := n
			for r.op == "idx" {
				r = r.args[0]
			}
			roots[r.v] = true
		}
		for _, a := range n.args {
			walk(a)
		}
	}
	walk(e)
	for b := range o.in {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				a := y.Addr
				for {
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
						a = u.X
						continue
					}
					break
				}
				if roots[a] {
					return true
				}
			case *ssa.Call:
				for _, z := range y.Call.Args {
					for r := range roots {
						if z == r {
							if _, isB := y.Call.Value.(*ssa.Builtin); !isB {
								return true
							}
						}
					}
				}
			case *ssa.MakeClosure, *ssa.Defer, *ssa.Go:
				return true
			}
		}
	}
	return false
}

// classTable: t[l] lists exactly the instances whose label is l.
func (x *fx) classTable(f *ssa.Function, ap *apaths, t *apath, L ssa.Value) bool {
	if t.op != "leaf" {
		return false
	}
	if _, ok := t.v.(*ssa.MakeSlice); !ok {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != t.v {
				continue
			}
			vs := appended(st.Val)
			if len(vs) != 1 {
				return false
			}
			l := ap.of(ia.Index)
			if !(l.op == "idx" && l.args[0] == ap.of(L)) {
				return false
			}
			n++
			if l.args[1] != ap.of(vs[0]) {
				x.r.bad("dataset", "data."+f.Name()+": instances by class", x.p.ipos(in), "an instance is listed under the label of another")
			}
		}
	}
	return n > 0
}

// appended: the values appended by v = append(s, values...).
func appended(v ssa.Value) []ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return nil
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ia {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// labelWrite: the instruction records a label in the second result.
func (x *fx) labelWrite(f *ssa.Function, in ssa.Instruction) (ssa.Value, bool) {
	st, ok := in.(*ssa.Store)
	if !ok {
		return nil, false
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return nil, false
	}
	isRes := func(v ssa.Value) bool {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 2 && r.Results[1] == v {
				return true
			}
		}
		return false
	}
	if isRes(ia.X) {
		vs := appended(st.Val)
		if len(vs) == 1 {
			return vs[0], true
		}
		return nil, false
	}
	if u, ok := ia.X.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ib, ok := u.X.(*ssa.IndexAddr); ok && isRes(ib.X) {
			return st.Val, true
		}
	}
	return nil, false
}

// position: the place in the permutation from which an instance is taken moves by exactly one with
// each instance taken.
func (x *fx) position(f *ssa.Function, name, what string, at ssa.Instruction, e *apath, lp *loop, nest *loopNest) {
	pos := e
	for pos.op == "idx" && !writtenIn(f, pos.args[0], lp) {
		pos = pos.args[1]
	}
	bad := func(why string) {
		x.r.bad("dataset", fmt.Sprintf("data.%s: instances taken more than once or left out", name), x.p.ipos(at), why)
	}
	b := at.Block()
	// an unconditional part of the loop
	for _, q := range lp.head.Preds {
		if lp.in[q] && !b.Dominates(q) {
			x.undecided(what, "taken under a condition")
			return
		}
	}
	// reach: blocks of the loop reached after the instance is taken, without starting over
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(q *ssa.BasicBlock, stop func(*ssa.BasicBlock) bool)
	walk = func(q *ssa.BasicBlock, stop func(*ssa.BasicBlock) bool) {
		if reach[q] || !lp.in[q] {
			return
		}
		reach[q] = true
		if stop(q) {
			return
		}
		for _, n := range q.Succs {
			if n != lp.head {
				walk(n, stop)
			}
		}
	}
	if pos.op == "idx" {
		// a counter kept in a table
		if pos.args[1].op != "leaf" || varies(pos.args[1].v, lp, nest, map[ssa.Value]bool{}) || pos.args[0].op != "leaf" {
			x.undecided(what, "position of the instance")
			return
		}
		tab, key := pos.args[0].v, pos.args[1].v
		steps := map[*ssa.BasicBlock]bool{}
		for q := range lp.in {
			for _, in := range q.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					ia, ok := y.Addr.(*ssa.IndexAddr)
					if !ok || ia.X != tab {
						continue
					}
					bo, ok := y.Val.(*ssa.BinOp)
					if ia.Index != key || !ok || bo.Op != token.ADD {
						x.undecided(what, "step of the counter")
						return
					}
					c, ok := bo.Y.(*ssa.Const)
					ld, ok2 := bo.X.(*ssa.UnOp)
					if !ok || !ok2 || c.Value == nil {
						x.undecided(what, "step of the counter")
						return
					}
					if la, ok := ld.X.(*ssa.IndexAddr); !ok || la.X != tab || la.Index != key {
						x.undecided(what, "step of the counter")
						return
					}
					if c.Value.String() != "1" {
						bad("the counter that says which instance comes next moves by " + c.Value.String())
						return
					}
					steps[q] = true
				case ssa.CallInstruction:
					for _, a := range y.Common().Args {
						if a == tab {
							if _, isB := y.Common().Value.(*ssa.Builtin); !isB {
								x.undecided(what, "counter given away")
								return
							}
						}
					}
				}
			}
		}
		if len(steps) == 0 {
			x.undecided(what, "step of the counter")
			return
		}
		// steps before the instance is taken count as well
		for q := range steps {
			if q.Dominates(b) {
				x.r.ok("rows and labels", what+": counter steps by one")
				return
			}
		}
		walk(b, func(q *ssa.BasicBlock) bool { return steps[q] })
		for _, q := range lp.head.Preds {
			if reach[q] && !steps[q] {
				bad("after an instance is taken, the counter that says which one comes next is only advanced under a condition")
				return
			}
		}
		x.r.ok("rows and labels", what+": counter steps by one")
		return
	}
	if bo, ok := pos.v.(*ssa.BinOp); ok && bo.Op == token.REM {
		z := x.vs.z
		fr := x.vs.root(f)
		d := x.vs.at(fr, bo.Y, b)
		if d.opq {
			x.undecided(what, "position of the instance")
			return
		}
		if k, ok := constDiff(d, z.length(fr.args[0])); ok && k.Sign() < 0 {
			bad("the position wraps around before every instance has been taken")
			return
		}
		x.undecided(what, "position of the instance")
		return
	}
	if bo, ok := pos.v.(*ssa.BinOp); ok && bo.Op == token.ADD && lp.parent != nil {
		// the start of the part and the place within it
		for _, st := range []ssa.Value{bo.X, bo.Y} {
			p2, ok := st.(*ssa.Phi)
			if !ok || p2.Block() != lp.parent.head {
				continue
			}
			fixed := true
			for i, q := range p2.Block().Preds {
				if lp.parent.in[q] {
					nx, ok := p2.Edges[i].(*ssa.BinOp)
					if !ok || nx.X != p2 || nx.Op != token.ADD {
						fixed = false
					} else if _, ok := nx.Y.(*ssa.Const); !ok {
						fixed = false
					}
				}
			}
			_, numeric := x.vs.dom(x.vs.root(f), lp).constant()
			if fixed && !numeric {
				bad("the parts start a fixed number of positions after each other, no matter how many instances each takes")
				return
			}
		}
	}
	phi, ok := pos.v.(*ssa.Phi)
	if !ok || phi.Block() != lp.head {
		x.undecided(what, "position of the instance")
		return
	}
	walk(b, func(*ssa.BasicBlock) bool { return false })
	und := false
	var step func(v ssa.Value, seen map[ssa.Value]bool) bool // false: a violation was reported
	step = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if v == phi {
			bad("after an instance is taken, the position of the next one may stay the same")
			return false
		}
		switch y := v.(type) {
		case *ssa.Phi:
			if !lp.in[y.Block()] || nest.of[y.Block()] != lp {
				und = true
				return true
			}
			for i, q := range y.Block().Preds {
				if reach[q] {
					if !step(y.Edges[i], seen) {
						return false
					}
				} else {
					und = true
				}
			}
			return true
		case *ssa.BinOp:
			c, ok := y.Y.(*ssa.Const)
			if (y.Op == token.ADD || y.Op == token.SUB) && y.X == phi && ok && c.Value != nil {
				if k := c.Value.String(); k != "1" && k != "-1" {
					bad("the position of the next instance moves by " + k)
					return false
				}
				return true
			}
		}
		und = true
		return true
	}
	var start ssa.Value
	for i, q := range phi.Block().Preds {
		if lp.in[q] {
			if !step(phi.Edges[i], map[ssa.Value]bool{}) {
				return
			}
		} else if start == nil {
			start = phi.Edges[i]
		} else {
			und = true
		}
	}
	if und || start == nil {
		x.undecided(what, "step of the position")
		return
	}
	// where the position starts in each iteration of the enclosing loop
	if o := lp.parent; o != nil {
		if p2, ok := start.(*ssa.Phi); ok && p2.Block() == o.head {
			for i, q := range p2.Block().Preds {
				if !o.in[q] {
					continue
				}
				if v := p2.Edges[i]; v == phi {
					continue
				} else if bo, ok := v.(*ssa.BinOp); ok && bo.X == p2 {
					if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && (bo.Op == token.ADD || bo.Op == token.SUB) {
						bad("the position starts over in each iteration of the enclosing loop, " + c.Value.String() + " further than before, no matter how many instances were taken in it")
						return
					}
				}
				x.undecided(what, "start of the position")
				return
			}
			x.r.ok("rows and labels", what+": position carries on from one part to the next")
			return
		}
		if bo, ok := start.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
			_, isC := bo.Y.(*ssa.Const)
			if p2, ok := bo.X.(*ssa.Phi); ok && isC && p2.Block() == o.head {
				counts := true
				for i, q := range p2.Block().Preds {
					if o.in[q] {
						nx, ok := p2.Edges[i].(*ssa.BinOp)
						if !ok || nx.X != p2 {
							counts = false
						} else if _, ok := nx.Y.(*ssa.Const); !ok {
							counts = false
						}
					}
				}
				if counts {
					bad("the position starts at the number of the part, no matter how many instances the parts before took")
					return
				}
			}
		}
		x.undecided(what, "start of the position")
	}
}

// writtenIn: the table is stored to within the loop.
func writtenIn(f *ssa.Function, t *apath, o *loop) bool {
	return memoryVaries(f, &apath{op: "idx", args: []*apath{t}}, o)
}
