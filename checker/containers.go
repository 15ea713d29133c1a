package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: queue, stack and storage table keep what they are given, in order, under its own key.

func init() { reg("C17", checkContainers) }

func checkContainers(r *R) {
	x := newFx(r)
	r.rule("a queue or stack is the sequence its Get method shows: giving appends at the end and changes nothing else, a queue takes the first and a stack the last element and leaves the rest in order, Peek shows what would be taken, inverting reverses, resetting empties; a storage table returns for ticket, node and position exactly what was last stored there, storing creates a row only if there is none, tickets are new, deletion and reset concern the named tickets only")
	for _, t := range []string{"Queue", "Stack"} {
		t := t
		x.try(t, func() { x.sequence(t) })
	}
	x.try("Storer", func() { x.storer() })
	r.floor("sequence operations", 1)
}

// seq: what a method does to the sequence in the receiver.
type seq struct {
	*fx
	f     *ssa.Function
	fr    *frame
	field int
	typ   types.Type
	D     *Form
	what  string
}

// delegate follows a method that only passes its arguments on.
func (x *fx) delegate(f *ssa.Function) (*ssa.Function, *frame) {
	fr := x.vs.root(f)
	for d := 0; d < 4; d++ {
		var call *ssa.Call
		n := 0
		plain := true
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Call:
					if c := y.Common().StaticCallee(); c != nil && x.p.inRepo(c) && x.p.rel(c) == "common" {
						call = y
						n++
					}
				case *ssa.Store, *ssa.MapUpdate, *ssa.If:
					plain = false
				}
			}
		}
		if !plain || n != 1 {
			break
		}
		for _, b := range fr.fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(r.Results) > 1 || len(r.Results) == 1 && r.Results[0] != ssa.Value(call)) {
				plain = false
			}
		}
		if !plain {
			break
		}
		g := x.vs.rawFrame(fr, call)
		if g == nil {
			break
		}
		fr = g
	}
	return fr.fn, fr
}

func (x *fx) sequence(t string) {
	z := x.z
	p := x.p
	get := p.method("common", t, "Get")
	if get == nil {
		return
	}
	fr := x.vs.root(get)
	g := x.vs.retForm(fr, 0)
	if g.op != "idx" || g.args[0].op != "fld" || g.args[0].args[0] != fr.args[0] || g.args[1] != fr.args[1] {
		x.undecided("common."+t, "representation: "+g.String())
		return
	}
	st := deref(get.Params[0].Type()).Underlying().(*types.Struct)
	fi := -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == g.args[0].sym {
			fi = i
		}
	}
	if fi < 0 {
		return
	}
	op := func(name string) *seq {
		f := p.method("common", t, name)
		if f == nil || f.Blocks == nil {
			return nil
		}
		s := &seq{fx: x, f: f, what: fmt.Sprintf("common.%s.%s", t, name), field: fi, typ: deref(f.Params[0].Type())}
		s.f, s.fr = x.delegate(f)
		if len(s.fr.args) == 0 || s.fr.args[0].String() != "arg0" {
			x.undecided(s.what, "delegation")
			return nil
		}
		s.D = x.vs.fieldOf(s.fr.args[0], s.typ, fi)
		return s
	}
	first := func(s *seq) *Form { return z.idx(s.D, z.num(0)) }
	last := func(s *seq) *Form { return z.idx(s.D, z.sub(z.length(s.D), z.num(1))) }
	takeFirst := func(n string) {
		if s := op(n); s != nil {
			s.result(first(s))
			s.becomes(z.sub(z.length(s.D), z.num(1)), func(i *Form) *Form { return z.idx(s.D, z.add(i, z.num(1))) })
		}
	}
	takeLast := func(n string) {
		if s := op(n); s != nil {
			s.result(last(s))
			s.becomes(z.sub(z.length(s.D), z.num(1)), func(i *Form) *Form { return z.idx(s.D, i) })
		}
	}
	give := func(n string) {
		if s := op(n); s != nil && len(s.fr.args) == 2 {
			n := z.length(s.D)
			s.becomes(z.add(n, z.num(1)), nil)
			s.part(" keeps the others", n, func(i *Form) *Form { return i }, func(i *Form) *Form { return z.idx(s.D, i) })
			s.part(" adds at the end", z.num(1), func(i *Form) *Form { return n }, func(i *Form) *Form { return s.fr.args[1] })
		}
	}
	keep := func(n string, want func(s *seq) *Form) {
		if s := op(n); s != nil {
			if want != nil {
				s.result(want(s))
			}
			s.becomes(z.length(s.D), func(i *Form) *Form { return z.idx(s.D, i) })
		}
	}
	give("Give")
	if t == "Queue" {
		give("Enqueue")
		takeFirst("Dequeue")
		takeFirst("Take")
		takeLast("DequeueBack")
		keep("Peek", first)
	} else {
		give("Push")
		takeLast("Pop")
		takeLast("Take")
		keep("Peek", last)
	}
	keep("Size", func(s *seq) *Form { return z.length(s.D) })
	keep("Empty", func(s *seq) *Form { return z.eq0(z.length(s.D)) })
	keep("Shrink", nil)
	if s := op("Reset"); s != nil {
		s.becomes(z.num(0), nil)
	}
	if s := op("Invert"); s != nil {
		n := z.length(s.D)
		s.becomes(n, func(i *Form) *Form { return z.idx(s.D, z.sub(z.sub(n, z.num(1)), i)) })
	}
}

func (s *seq) result(want *Form) {
	s.expect("sequence operations", "sequence", s.what+": result", s.f, s.vs.retForm(s.fr, 0), want, false)
}

func (s *seq) final() *Form { return s.vs.fieldFinal(s.fr, s.fr.args[0], s.typ, s.field) }

func (s *seq) becomes(n *Form, at func(i *Form) *Form) {
	f := s.final()
	s.expect("sequence operations", "sequence", s.what+": number of elements", s.f, s.vs.lenOf(f), n, false)
	if at != nil {
		s.part(" leaves the elements", n, func(i *Form) *Form { return i }, at)
	}
}

// part: the elements at pos(i), i < n, afterwards.
func (s *seq) part(what string, n *Form, pos, want func(i *Form) *Form) {
	z := s.z
	it := z.atom("iter", "spec"+fmt.Sprint(specN))
	specN++
	f := s.final()
	got := z.within(s.elem(f, pos(it)), it, n)
	got = s.settle(got, it, n)
	w := z.within(want(it), it, n)
	got = z.agree(got, w, []*Form{it, z.sub(z.sub(n, z.num(1)), it)})
	s.expect("sequence operations", "sequence", s.what+what, s.f, got, w, false)
}

// settle decides index comparisons that follow from 0 <= it < n and n <= len.
func (s *seq) settle(f, it, n *Form) *Form {
	z := s.z
	for k := 0; k < 8 && f.op == "ite"; k++ {
		c := f.args[0]
		if c.op != "eq0" && c.op != "ge0" {
			break
		}
		a, d, ok := linearIn(c.args[0], it)
		if !ok || a == nil {
			break
		}
		// the largest and smallest value over the range
		lo, hi := a, z.add(a, z.mul(z.rat(d), z.sub(n, z.num(1))))
		if d.Sign() < 0 {
			lo, hi = hi, lo
		}
		low, ok1 := s.lower(lo)
		high, ok2 := s.lower(z.neg(hi))
		switch {
		case c.op == "ge0" && ok1 && low >= 0:
			f = f.args[1]
		case c.op == "ge0" && ok2 && high >= 1:
			f = f.args[2]
		case c.op == "eq0" && (ok1 && low >= 1 || ok2 && high >= 1):
			f = f.args[2]
		default:
			return f
		}
	}
	return f
}

// lower: a constant lower bound of a form that is linear in lengths.
func (s *seq) lower(f *Form) (int64, bool) {
	if c, ok := f.constant(); ok && c.IsInt() {
		return c.Num().Int64(), true
	}
	var sum int64
	for _, m := range f.monos() {
		switch {
		case len(m.at) == 0:
			if !m.c.IsInt() {
				return 0, false
			}
			sum += m.c.Num().Int64()
		case len(m.at) == 1 && m.at[0].f.op == "len" && m.c.Sign() > 0:
			// lengths are not negative
		default:
			return 0, false
		}
	}
	return sum, true
}

// elem: element j of a sequence when the method returns.
func (s *seq) elem(f, j *Form) *Form {
	z := s.z
	switch f.op {
	case "ite":
		return z.ite(f.args[0], s.elem(f.args[1], j), s.elem(f.args[2], j))
	case "slice":
		return s.elem(f.args[0], z.add(f.args[1], j))
	case "append":
		n := z.length(f.args[0])
		return z.ite(z.ge0(z.sub(z.sub(n, z.num(1)), j)), s.elem(f.args[0], j), s.elem(f.args[1], z.sub(j, n)))
	case "lit":
		return z.idx(f, j)
	}
	var r *ssa.Return
	for _, b := range s.fr.fn.Blocks {
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if r != nil {
				return z.opaque("several returns")
			}
			r = x
		}
	}
	if r == nil {
		return z.opaque("no return")
	}
	return s.vs.elemAt(s.fr, f, j, r)
}

// ---- storage tables ----

func (x *fx) storer() {
	z := x.z
	p := x.p
	tables := func(s *Form) *Form { return z.atom("fld", "tables", s) }
	type level struct {
		typ   string
		table func(fr *frame) (t *Form, rest []*Form)
	}
	levels := []level{
		{"Storer", func(fr *frame) (*Form, []*Form) {
			return z.atom("map", "", tables(fr.args[0]), fr.args[1]), fr.args[2:]
		}},
		{"StorerTable", func(fr *frame) (*Form, []*Form) { return fr.args[0], fr.args[1:] }},
	}
	has := func(m, k *Form) *Form { return z.atom("b", "has", m, k) }
	// reads: the value of a result by what is present
	read := func(lv level, name string, depth int) {
		f := p.declared("spn", lv.typ, name)
		if f == nil || f.Blocks == nil {
			return
		}
		what := fmt.Sprintf("spn.%s.%s", lv.typ, name)
		x.try(what, func() {
			fr := x.vs.root(f)
			t, rest := lv.table(fr)
			// the chain of maps and keys that leads to the entry
			var ms, ks []*Form
			if lv.typ == "Storer" {
				ms, ks = append(ms, tables(fr.args[0])), append(ks, fr.args[1])
			}
			cur := t
			for d := 0; d < depth; d++ {
				k := z.num(0)
				if d < len(rest) {
					k = rest[d]
				}
				ms, ks = append(ms, cur), append(ks, k)
				cur = z.atom("map", "", cur, k)
			}
			nres := f.Signature.Results().Len()
			for present := 0; present <= len(ms); present++ {
				// levels below present exist, the next one does not
				for i := 0; i < nres; i++ {
					res := x.vs.retForm(fr, i)
					isBool := false
					if b, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
						isBool = true
					}
					for d := 0; d < present; d++ {
						res = z.assume(res, has(ms[d], ks[d]), true)
					}
					var want *Form
					if present == len(ms) {
						if isBool {
							want = z.tru()
						} else {
							want = cur
						}
					} else {
						m := map[string]*Form{}
						zero := x.vs.zero(f.Signature.Results().At(i).Type())
						for d := present; d < len(ms); d++ {
							m[has(ms[d], ks[d]).key] = z.fls()
							n := z.atom("const", "nil")
							if d == len(ms)-1 && !isBool {
								n = zero
							}
							m[z.atom("map", "", ms[d], ks[d]).key] = n
						}
						res = x.missing(res, m)
						if isBool {
							want = z.fls()
						} else {
							want = zero
						}
					}
					c := fmt.Sprintf("%s: result %d with %d of %d levels present", what, i, present, len(ms))
					x.expect("table reads", "table-read", c, f, res, want, false)
				}
			}
		})
	}
	for _, lv := range levels {
		if lv.typ == "Storer" {
			read(lv, "Table", 0)
		}
		read(lv, "Value", 1)
		read(lv, "Entry", 2)
		read(lv, "Single", 2)
		read(lv, "ExistsSPN", 1)
		read(lv, "Exists", 2)
	}
	// writes
	want := func(n string) bool { return n == "delete" }
	for _, name := range []string{"Store", "StoreSingle"} {
		f := p.declared("spn", "StorerTable", name)
		if f == nil || f.Blocks == nil {
			continue
		}
		what := "spn.StorerTable." + name
		x.try(what, func() {
			fr := x.vs.root(f)
			T, S := fr.args[0], fr.args[1]
			l, e := z.num(0), fr.args[len(fr.args)-1]
			if name == "Store" {
				l = fr.args[2]
			}
			x.storeEffect(what, f, fr, T, S, l, e, has(T, S), want)
			x.expect("table writes", "table-write", what+": result", f, x.vs.retForm(fr, 0), z.tru(), false)
		})
	}
	for _, name := range []string{"Store", "StoreSingle"} {
		f := p.method("spn", "Storer", name)
		if f == nil || f.Blocks == nil {
			continue
		}
		what := "spn.Storer." + name
		x.try(what, func() {
			fr := x.vs.root(f)
			T := z.atom("map", "", tables(fr.args[0]), fr.args[1])
			S := fr.args[2]
			l, e := z.num(0), fr.args[len(fr.args)-1]
			if name == "Store" {
				l = fr.args[3]
			}
			x.storeEffect(what, f, fr, T, S, l, e, has(T, S), want)
		})
	}
	method := func(name string) (*ssa.Function, *frame, []*event) {
		f := p.method("spn", "Storer", name)
		if f == nil || f.Blocks == nil {
			return nil, nil, nil
		}
		fr := x.vs.root(f)
		return f, fr, x.vs.events(fr, nil, want)
	}
	fresh := func(f *Form) bool {
		return f.op == "site" && strings.HasPrefix(f.sym, "map") || f.op == "maplit" && len(f.args) == 0
	}
	ticketsField := func(f *ssa.Function) (int, types.Type) {
		t := deref(f.Params[0].Type())
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return -1, nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return i, t
			}
		}
		return -1, nil
	}
	if f, fr, evs := method("NewTicket"); f != nil {
		x.try("NewTicket", func() {
			what := "spn.Storer.NewTicket"
			res := x.vs.retForm(fr, 0)
			fi, t := ticketsField(f)
			if fi < 0 {
				x.undecided(what, "ticket counter")
				return
			}
			old := x.vs.fieldOf(fr.args[0], t, fi)
			now := x.vs.fieldFinal(fr, fr.args[0], t, fi)
			diff := z.sub(now, old)
			switch {
			case res.opq || now.opq:
				x.undecided(what, "counter "+res.String()+" "+now.String())
			case isPositive(diff) && (res == old || res == now):
				x.r.ok("table writes", what+": a new ticket")
			case hasSite(res) || hasSite(now):
				x.undecided(what, "counter "+res.String()+" "+now.String())
			default:
				x.r.bad("ticket", what, p.pos(f.Pos()), fmt.Sprintf("returns %s and leaves the counter at %s: the ticket may be in use", res, now))
			}
			ok := false
			for _, e := range evs {
				if e.kind == "map" && e.base == tables(fr.args[0]) && e.key == res && fresh(e.val) && isTrue(e.guard) {
					ok = true
				} else if e.kind == "map" && e.base == tables(fr.args[0]) && !e.key.opq && !e.val.opq && !e.guard.opq {
					x.r.bad("ticket", what, p.ipos(e.in), fmt.Sprintf("sets table %s to %s when %s, expected a new table under the ticket returned", e.key, e.val, e.guard))
					ok = true
				}
			}
			if !ok {
				x.undecided(what, "new table not found")
			}
		})
	}
	single := func(name string, reset bool) {
		f, fr, evs := method(name)
		if f == nil {
			return
		}
		what := "spn.Storer." + name
		x.try(what, func() {
			k := fr.args[1]
			loop := false
			if _, ok := f.Params[1].Type().Underlying().(*types.Slice); ok {
				loop = true
			}
			state := 0 // 0 untouched, 1 deleted, 2 fresh
			other := false
			for _, e := range evs {
				base, key := e.base, e.key
				if e.kind == "call" && e.name == "delete" {
					base, key = e.args[0], e.args[1]
				} else if e.kind != "map" {
					continue
				}
				if base != tables(fr.args[0]) {
					if base.opq || base.has(tables(fr.args[0])) || hasSite(base) {
						other = true
					}
					continue
				}
				wk := k
				if loop {
					if len(e.loops) != 1 {
						x.undecided(what, "loop")
						return
					}
					wk = z.idx(k, e.loops[0].it)
					if e.loops[0].dom != z.length(k) || x.vs.breaks(e.loops[0].l) {
						if e.loops[0].dom.opq {
							x.undecided(what, "loop")
							return
						}
						x.r.bad("tickets", what, p.ipos(e.in), "not all tickets given are treated: "+e.loops[0].dom.String())
						return
					}
				}
				if key != wk || !isTrue(e.guard) {
					if key.opq || e.guard.opq || hasSite(key) {
						x.undecided(what, key.String())
						return
					}
					x.r.bad("tickets", what, p.ipos(e.in), fmt.Sprintf("concerns ticket %s when %s, expected %s always", key, e.guard, wk))
					return
				}
				if e.kind == "call" {
					state = 1
				} else if fresh(e.val) && loop && e.val.op == "site" && !e.val.has(e.loops[0].it) {
					x.r.bad("tickets", what, p.ipos(e.in), "all tickets are given one and the same table")
					return
				} else if fresh(e.val) {
					state = 2
				} else {
					x.undecided(what, e.val.String())
					return
				}
			}
			wantState := 1
			if reset {
				wantState = 2
			}
			if state == wantState {
				x.r.ok("table writes", what)
			} else if other {
				x.undecided(what, "another way to clear")
			} else {
				x.r.bad("tickets", what, p.pos(f.Pos()), fmt.Sprintf("the table is %s", []string{"left as it is", "deleted without a new one", "replaced by a new one"}[state]))
			}
			if fi, t := ticketsField(f); fi >= 0 {
				x.expect("table writes", "tickets", what+": ticket counter", f, x.vs.fieldFinal(fr, fr.args[0], t, fi), x.vs.fieldOf(fr.args[0], t, fi), false)
			}
			if f.Signature.Results().Len() == 1 && !loop {
				x.expect("table writes", "tickets", what+": result", f, x.vs.retForm(fr, 0), k, false)
			}
		})
	}
	single("Delete", false)
	single("Reset", true)
	single("ResetTickets", true)
	if f, fr, evs := method("Purge"); f != nil {
		x.try("Purge", func() {
			what := "spn.Storer.Purge"
			cleared := false
			ft := deref(f.Params[0].Type())
			st := ft.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "tables" {
					if v := x.vs.fieldFinal(fr, fr.args[0], ft, i); fresh(v) {
						cleared = true
					}
				}
			}
			for _, e := range evs {
				if e.kind == "call" && e.name == "delete" && e.args[0] == tables(fr.args[0]) && len(e.loops) == 1 && e.loops[0].dom.op == "maprange" && isTrue(e.guard) && e.args[1].op == "key" {
					cleared = true
				}
			}
			switch {
			case cleared:
				x.r.ok("table writes", what)
			case len(evs) == 0 && !vs_touches(x.vs, f, ft):
				x.r.bad("tickets", what, p.pos(f.Pos()), "no table is deleted")
			default:
				x.undecided(what, "clearing not understood")
			}
		})
	}
}

// missing evaluates a result when some entries are absent.
func (x *fx) missing(f *Form, m map[string]*Form) *Form {
	z := x.z
	return z.rewrite(f, func(d *Form) *Form {
		if g, ok := m[d.key]; ok {
			return g
		}
		if d.op == "b" && d.sym == "has" && d.args[0].op == "const" && d.args[0].sym == "nil" {
			return z.fls()
		}
		if d.op == "map" && d.args[0].op == "const" && d.args[0].sym == "nil" {
			return z.num(0)
		}
		return nil
	})
}

// storeEffect: T[S][l] = e, and nothing else; a row is made only if there is none.
func (x *fx) storeEffect(what string, f *ssa.Function, fr *frame, T, S, l, e, has *Form, want func(string) bool) {
	z := x.z
	row := z.atom("map", "", T, S)
	for _, present := range []bool{true, false} {
		desc := fmt.Sprintf("%s: row present %v", what, present)
		stored := z.fls()
		undec := ""
		for _, ev := range x.vs.events(fr, nil, want) {
			if ev.kind == "elem" {
				continue
			}
			g := z.assume(ev.guard, has, present)
			// the table itself is there
			if T.op == "map" {
				g = z.assume(g, z.atom("b", "has", T.args[0], T.args[1]), true)
			}
			if isFalse(g) {
				continue
			}
			if ev.kind == "call" {
				x.r.bad("table-write", desc, x.p.ipos(ev.in), "storing deletes an entry")
				return
			}
			switch {
			case g.opq || ev.base.opq || ev.key.opq:
				undec = "effect " + ev.base.String()
			case ev.base == row || ev.base.op == "site" && !present && !isTrue(z.eq(ev.base, T)):
				if ev.key != l || ev.val != e {
					if hasSite(ev.key) || ev.val.opq {
						undec = "entry"
						continue
					}
					x.r.bad("table-write", desc, x.p.ipos(ev.in), fmt.Sprintf("stores %s at position %s, expected %s at %s", ev.val, ev.key, e, l))
					return
				}
				stored = z.ite(stored, z.tru(), g)
			case ev.base == T && ev.key == S:
				if h := z.assume(g, z.eq(z.atom("const", "nil"), row), false); present && !h.opq && !hasSite(h) && !isFalse(h) {
					x.r.bad("table-write", desc, x.p.ipos(ev.in), "replaces the row of the node, losing its other entries")
					return
				}
				if ev.val.op == "maplit" && len(ev.val.args) == 2 && ev.val.args[0] == l && ev.val.args[1] == e && !present {
					stored = z.ite(stored, z.tru(), g)
				}
			case ev.base == T:
				if hasSite(ev.key) {
					undec = "row"
					continue
				}
				x.r.bad("table-write", desc, x.p.ipos(ev.in), "writes the row of "+ev.key.String())
				return
			default:
				undec = "effect on " + ev.base.String()
			}
		}
		// storing what is there already changes nothing
		stored = z.assume(stored, z.eq(z.atom("map", "", row, l), e), false)
		if !present {
			stored = z.assume(stored, z.atom("b", "has", row, l), false)
		}
		switch {
		case isTrue(stored) && undec == "":
			x.r.ok("table writes", desc)
		case undec != "":
			x.undecided(desc, undec)
		case stored.opq || hasSite(stored):
			x.undecided(desc, "stored when "+stored.String())
		case isFalse(stored):
			x.r.bad("table-write", desc, x.p.pos(f.Pos()), "the entry is not stored")
		default:
			x.r.bad("table-write", desc, x.p.pos(f.Pos()), "the entry is only stored when "+stored.String())
		}
	}
}

// vs_touches: the function may replace the tables of a storer.
func vs_touches(vs *Values, f *ssa.Function, t types.Type) bool {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok && vs.fieldSets(f).w[fieldKey(t, i)] {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				n := calleeFull(c.Common())
				if n == "clear" || n == "delete" {
					return true
				}
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && (b.Name() == "clear" || b.Name() == "delete") {
					return true
				}
				if g := c.Common().StaticCallee(); g != nil && vs.p.rel(g) == "spn" {
					return true
				}
			}
		}
	}
	return false
}
