package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: classification scores count what was classified.

func init() { reg("C20", checkScores) }

type scorer struct {
	*fx
	typ   types.Type
	st    *types.Struct
	preds int // field with the list of predictions
	pt    *types.Struct
	get   map[string]*Form // getter results in terms of the receiver
	recv  *Form
}

func checkScores(r *R) {
	x := newFx(r)
	r.rule("registering a classification adds one to the total, to the hits exactly when prediction and expectation agree and to the misses otherwise, and appends the pair (prediction, expectation); merging and adding sum the counts and concatenate the pairs; the confusion matrix counts pairs by (expected, predicted); an evaluation registers, for every instance, the class predicted for that instance without its own label, and the label at the same position")
	x.vs.apart = true
	n := r.p.named("score", "S")
	if n == nil {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	s := &scorer{fx: x, typ: n, st: st, preds: -1, get: map[string]*Form{}}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if pt, ok := sl.Elem().Underlying().(*types.Struct); ok && s.preds < 0 {
				s.preds, s.pt = i, pt
			}
		}
	}
	for _, g := range []string{"Hits", "Misses", "Total"} {
		f := r.p.method("score", "S", g)
		if f == nil || f.Blocks == nil {
			continue
		}
		x.try("score."+g, func() {
			fr := x.vs.root(f)
			s.recv = fr.args[0]
			s.get[g] = x.vs.retForm(fr, 0)
		})
	}
	x.try("score.Register", func() { s.register() })
	x.try("score.Merge", func() { s.merge() })
	x.try("score.Add", func() { s.add() })
	x.try("score.Clear", func() { s.clear() })
	x.try("score.ConfusionMatrix", func() { s.confusion() })
	for _, e := range []string{"Evaluate", "EvaluatePosterior", "EvaluatePosteriorConc"} {
		x.try("score."+e, func() { s.evaluate(e) })
	}
	r.floor("scores", 1)
}

// state: a getter's value of object o, with fields as given.
func (s *scorer) state(g string, o *Form, field func(i int) *Form) *Form {
	f := s.get[g]
	if f == nil {
		return s.z.opaque("no getter")
	}
	m := map[string]*Form{}
	for i := 0; i < s.st.NumFields(); i++ {
		m[s.vs.fieldOf(s.recv, s.typ, i).key] = field(i)
	}
	m2 := map[string]*Form{}
	_ = m2
	return s.z.subst(f, m)
}

func (s *scorer) before(o *Form) func(i int) *Form {
	return func(i int) *Form { return s.vs.fieldOf(o, s.typ, i) }
}

func (s *scorer) after(fr *frame, o *Form) func(i int) *Form {
	return func(i int) *Form { return s.vs.fieldFinal(fr, o, s.typ, i) }
}

func (s *scorer) count(what string, f *ssa.Function, got, want *Form) {
	s.expect("scores", "score", what, f, got, want, false)
}

func (s *scorer) register() {
	z := s.z
	f := s.p.method("score", "S", "Register")
	if f == nil || f.Blocks == nil {
		return
	}
	fr := s.vs.root(f)
	o, p, e := fr.args[0], fr.args[1], fr.args[2]
	eq := z.eq0(z.sub(p, e))
	one, zero := z.num(1), z.num(0)
	inc := map[string]*Form{"Hits": z.ite(eq, one, zero), "Misses": z.ite(eq, zero, one), "Total": one}
	for _, g := range []string{"Hits", "Misses", "Total"} {
		s.count("Register: "+g, f, s.state(g, o, s.after(fr, o)), z.add(s.state(g, o, s.before(o)), inc[g]))
	}
	if s.preds < 0 {
		return
	}
	var pair []*Form
	for i := 0; i < s.pt.NumFields(); i++ {
		switch s.pt.Field(i).Name() {
		case "Predicted":
			pair = append(pair, p)
		case "Expected":
			pair = append(pair, e)
		default:
			s.undecided("Register: pair", "other fields")
			return
		}
	}
	el := s.st.Field(s.preds).Type().Underlying().(*types.Slice).Elem()
	want := z.appendForm(s.before(o)(s.preds), z.atom("lit", "", z.atom("struct", types.TypeString(el, nil), pair...)))
	s.count("Register: pair", f, s.after(fr, o)(s.preds), want)
}

func (s *scorer) merge() {
	f := s.p.method("score", "S", "Merge")
	if f == nil || f.Blocks == nil {
		return
	}
	fr := s.vs.root(f)
	o, t := fr.args[0], fr.args[1]
	s.sum("Merge", f, fr, o, o, t)
}

func (s *scorer) add() {
	f := s.p.fn("score", "Add")
	if f == nil || f.Blocks == nil {
		return
	}
	fr := s.vs.root(f)
	s.sum("Add", f, fr, s.vs.retForm(fr, 0), fr.args[0], fr.args[1])
}

// sum: afterwards o counts what a and b counted.
func (s *scorer) sum(name string, f *ssa.Function, fr *frame, o, a, b *Form) {
	z := s.z
	for _, g := range []string{"Hits", "Misses", "Total"} {
		s.count(name+": "+g, f, s.state(g, o, s.after(fr, o)), z.add(s.state(g, a, s.before(a)), s.state(g, b, s.before(b))))
	}
	if s.preds < 0 {
		return
	}
	got := s.after(fr, o)(s.preds)
	A, B := s.before(a)(s.preds), s.before(b)(s.preds)
	s.count(name+": number of pairs", f, s.vs.lenOf(got), z.add(z.length(A), z.length(B)))
	s.count(name+": pairs", f, got, z.appendForm(A, B))
}

func (s *scorer) clear() {
	f := s.p.method("score", "S", "Clear")
	if f == nil || f.Blocks == nil {
		return
	}
	fr := s.vs.root(f)
	o := fr.args[0]
	for _, g := range []string{"Hits", "Misses", "Total"} {
		s.count("Clear: "+g, f, s.state(g, o, s.after(fr, o)), s.z.num(0))
	}
	if s.preds >= 0 {
		s.count("Clear: pairs", f, s.vs.lenOf(s.after(fr, o)(s.preds)), s.z.num(0))
	}
}

// confusion: every pair adds one to the cell (expected, predicted).
func (s *scorer) confusion() {
	f := s.p.method("score", "S", "ConfusionMatrix")
	if f == nil || f.Blocks == nil || s.preds < 0 {
		return
	}
	z := s.z
	fr := s.vs.root(f)
	P := s.before(fr.args[0])(s.preds)
	what := "ConfusionMatrix"
	found := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !isInt(deref(ia.Type())) {
				continue
			}
			ld, ok := ia.X.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			ib, ok := ld.X.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if _, ok := ib.X.(*ssa.MakeSlice); !ok {
				continue
			}
			lp := s.vs.loopOf(b)
			if lp == nil {
				continue
			}
			found++
			dom := s.vs.dom(fr, lp)
			it := s.vs.iter(fr, lp)
			e, p := s.vs.at(fr, ib.Index, b), s.vs.at(fr, ia.Index, b)
			field := func(n string) *Form { return z.atom("fld", n, z.idx(P, it)) }
			rule := func(g, w *Form, msg string) {
				s.expect("scores", "score", what+": "+msg, f, g, w, false)
			}
			rule(dom, z.length(P), "pairs counted")
			rule(e, field("Expected"), "row")
			rule(p, field("Predicted"), "column")
			rule(s.vs.reach(fr, lp, b), z.tru(), "counted when")
			// one more than before
			bo, ok := st.Val.(*ssa.BinOp)
			good := false
			if ok && bo.Op == token.ADD {
				for _, v := range []struct{ a, b ssa.Value }{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if c, ok := v.b.(*ssa.Const); ok && c.Int64() == 1 {
						ap := &apaths{m: map[string]*apath{}}
						if l := ap.of(v.a); l.op == "idx" && l.args[0] == ap.of(ia.X) && l.args[1] == ap.of(ia.Index) {
							good = true
						}
					}
				}
			}
			if good {
				s.r.ok("scores", what+": adds one to the cell")
			} else {
				s.undecided(what, "what is added")
			}
			if s.vs.breaks(lp) {
				s.undecided(what, "loop with a break")
			}
		}
	}
	if found != 1 {
		s.undecided(what, fmt.Sprintf("%d counting sites", found))
	}
}

// evaluate: what an evaluation registers.
func (s *scorer) evaluate(name string) {
	f := s.p.method("score", "S", name)
	if f == nil || f.Blocks == nil {
		return
	}
	z := s.z
	fr := s.vs.root(f)
	what := name
	any := func(n string) bool {
		for _, k := range []string{"spn.StoreMAP", "spn.StoreInference", "S.Register", "SingleQueue.Run", "data.Divide"} {
			if strings.HasSuffix(n, k) {
				return true
			}
		}
		return n == "delete" || strings.Contains(n, "spn.Storer.")
	}
	evs := s.vs.events(fr, nil, any)
	T, L, N, cv := fr.args[1], fr.args[2], fr.args[3], fr.args[4]
	v := z.atom("fld", "Varid", cv)
	d := &dset{fx: s.fx, f: f, fr: fr, evs: evs, name: what}
	// work handed to goroutines: look inside the function run
	for _, e := range evs {
		if e.kind != "call" || !strings.HasSuffix(e.name, "SingleQueue.Run") || len(e.args) < 3 {
			continue
		}
		ci := s.vs.clos[e.args[1].key]
		call, ok := e.in.(ssa.CallInstruction)
		if ci == nil || !ok {
			s.undecided(what, "work run concurrently")
			continue
		}
		var free []*Form
		if mc, ok := call.Common().Args[1].(*ssa.MakeClosure); ok {
			for _, y := range mc.Bindings {
				free = append(free, s.vs.cellRef(fr, y, call, s.vs.loopOf(call.Block())))
			}
		}
		id := z.atom("leaf", "worker")
		g := s.vs.frame(ci.fn, []*Form{id}, free, fr, call)
		w := s.vs.events(g, nil, any)
		var gd, gl *Form
		for _, q := range evs {
			if q.kind == "call" && strings.HasSuffix(q.name, "data.Divide") && len(q.args) >= 3 {
				if c, ok := q.in.(*ssa.Call); ok {
					gd, gl = s.vs.site(q.fr, c, "call0"), s.vs.site(q.fr, c, "call1")
				}
			}
		}
		if gd == nil {
			s.undecided(what, "how the instances are divided")
			continue
		}
		s.registered(what, ci.fn, g, w, z.idx(gd, id), z.idx(gl, id), N, cv, v, true)
		return
	}
	s.registered(what, f, fr, evs, T, L, N, cv, v, false)
	_ = d
}

func (s *scorer) registered(what string, f *ssa.Function, fr *frame, evs []*event, T, L, N, cv, v *Form, inplace bool) {
	z := s.z
	d := &dset{fx: s.fx, f: f, fr: fr, evs: evs, name: what}
	n := 0
	for _, e := range evs {
		if e.kind != "call" || !strings.HasSuffix(e.name, "S.Register") || len(e.args) != 3 {
			continue
		}
		n++
		if len(e.loops) != 1 {
			s.undecided(what, "registered in other loops")
			continue
		}
		lp := e.loops[0]
		s.expect("scores", "score", what+": instances registered", f, lp.dom, z.length(T), false, T)
		s.expect("scores", "score", what+": registered when", f, e.guard, z.tru(), false)
		if s.vs.breaks(lp.l) {
			s.undecided(what, "loop with a break")
		}
		s.expect("scores", "score", what+": expected label", f, e.args[2], z.idx(L, lp.it), false, L)
		s.predicted(what, f, fr, d, evs, e, lp, e.args[1], T, N, cv, v, inplace)
	}
	if n != 1 {
		s.undecided(what, fmt.Sprintf("%d registrations", n))
	}
}

// removes: something is deleted from the row, or it is handed to code that is not followed.
func (s *scorer) removes(evs []*event, I *Form) bool {
	for _, e := range evs {
		if e.kind == "delete" {
			return true
		}
		if e.kind != "call" {
			continue
		}
		if c, ok := e.in.(ssa.CallInstruction); ok {
			if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return true
			}
		}
	}
	return false
}

// predicted: where the predicted label comes from.
func (s *scorer) predicted(what string, f *ssa.Function, fr *frame, d *dset, evs []*event, reg *event, lp evLoop, p, T, N, cv, v *Form, inplace bool) {
	z := s.z
	callOf := func(g *Form, names ...string) *event {
		if g.op != "site" || !strings.HasPrefix(g.sym, "call") {
			return nil
		}
		in, _ := siteInfo[g.sym].(ssa.Instruction)
		for _, e := range evs {
			if e.kind == "call" && e.in == in {
				for _, n := range names {
					if strings.HasSuffix(e.name, n) {
						return e
					}
				}
			}
		}
		return nil
	}
	evidence := func(I *Form, at *event) bool {
		// without the label: a copy less the class variable, or the instance with it deleted
		if inplace && I == z.idx(T, lp.it) {
			return true
		}
		row := d.row0(I, v)
		if I == z.idx(T, lp.it) && !s.removes(evs, I) {
			s.r.bad("score", what+": evidence", s.p.ipos(at.in), "the instance is classified with its label still in the evidence")
			return false
		}
		if row == nil || row.opq {
			s.undecided(what, "evidence")
			return false
		}
		s.expect("scores", "score", what+": evidence", f, row, z.atom("row", "minus", z.idx(T, lp.it), v), false, T)
		return true
	}
	if p.op == "poly" {
		// an offset into the classes
		if ms := p.monos(); len(ms) == 2 && len(ms[0].at) == 0 && len(ms[1].at) == 1 && ms[1].at[0].e == 1 && ms[1].at[0].f.op == "argidx" && ms[1].at[0].f.sym == "max" {
			s.r.bad("score", what+": classes tried", s.p.ipos(reg.in), "the first class is never tried: "+p.String())
			return
		}
	}
	switch {
	case p.op == "map":
		// the class in a most probable explanation
		s.expect("scores", "score", what+": variable read from the explanation", f, p.args[1], v, false)
		c := callOf(p.args[0], "spn.StoreMAP")
		if c == nil || len(c.args) != 4 {
			s.undecided(what, "where the prediction comes from: "+p.String())
			return
		}
		s.expect("scores", "score", what+": network", f, c.args[0], N, false, N)
		evidence(c.args[1], c)
	case p.op == "argidx" && p.sym == "max":
		s.expect("scores", "score", what+": classes tried", f, p.args[0], z.atom("fld", "Categories", cv), false, cv)
		j := d.bound()
		body := z.open(p, j)
		// the class's own term
		var reads []*Form
		body.walk(func(g *Form) {
			if g.op == "site" && g.has(j) {
				reads = append(reads, g)
			}
		})
		if len(reads) != 1 {
			if body == z.num(0) || !body.has(j) && !body.opq {
				s.r.bad("score", what+": prediction", s.p.ipos(reg.in), "what is compared does not depend on the class")
			} else {
				s.undecided(what, "what is compared: "+body.String())
			}
			return
		}
		if a, c, ok := linearIn(body, reads[0]); !ok || a.has(j) || c.Sign() <= 0 {
			if ok && c.Sign() < 0 {
				s.r.bad("score", what+": prediction", s.p.ipos(reg.in), "the least probable class is predicted: "+body.String())
			} else {
				s.undecided(what, "what is compared: "+body.String())
			}
			return
		}
		if len(p.args) == 4 {
			// what the first class has to beat
			in, a := p.args[3], z.sub(body, reads[0])
			c, num := in.constant()
			num = num && c.Cmp(big.NewRat(-1000000000, 1)) > 0
			if num || !in.isInf() && (in == a || in == z.neg(a)) {
				s.r.bad("score", what+": prediction", s.p.ipos(reg.in), "a class is predicted only if its score is above "+in.String())
				return
			}
		}
		rd := callOf(reads[0], "Storer.Single", "Storer.Value", "Storer.Entry")
		if rd == nil || len(rd.loops) != 2 {
			s.undecided(what, "what is compared: "+body.String())
			return
		}
		// in order, within the loop over classes: the class is set, the network evaluated, the root read
		jl := rd.loops[1]
		var set, eval *event
		seenEval := false
		for _, e := range evs {
			if len(e.loops) != 2 || e.loops[1].l != jl.l {
				continue
			}
			if e == rd {
				break
			}
			switch {
			case e.kind == "map" && e.key == v:
				set = e
				seenEval = false
			case e.kind == "call" && strings.HasSuffix(e.name, "spn.StoreInference"):
				eval = e
				seenEval = set != nil
			}
		}
		if eval == nil || set == nil {
			s.undecided(what, "evaluation for a class not found")
			return
		}
		if !seenEval {
			s.r.bad("score", what+": prediction", s.p.ipos(eval.in), "the network is evaluated before the class is set, so a class is given the value of the class before it")
			return
		}
		s.expect("scores", "score", what+": class set", f, set.val, jl.it, false)
		s.expect("scores", "score", what+": network", f, eval.args[0], N, false, N)
		if eval.args[1] != set.base {
			s.undecided(what, "evidence evaluated")
			return
		}
		if len(rd.args) > 1 && (eval.args[2] != rd.args[1] || eval.args[3] != rd.args[0]) {
			s.undecided(what, "table read")
		}
		if len(rd.args) > 2 {
			s.expect("scores", "score", what+": node read", f, rd.args[2], N, false, N)
		}
		s.r.ok("scores", what+": the class with the largest value")
		evidence(set.base, eval)
	default:
		if p.opq || hasSite(p) {
			s.undecided(what, "where the prediction comes from: "+p.String())
		} else {
			s.r.bad("score", what+": prediction", s.p.ipos(reg.in), "registers "+p.String()+" as the prediction")
		}
	}
}

// row0: the contents of a map made by the function, apart from key v.
func (d *dset) row0(s, v *Form) *Form {
	if s.op != "site" || !strings.HasPrefix(s.sym, "map") {
		return nil
	}
	var evs []*event
	for _, e := range d.evs {
		if e.kind == "map" && e.base == s && e.key == v {
			continue
		}
		if e.kind == "call" && e.name == "delete" && e.args[0] == s && e.args[1] == v && len(e.loops) > 1 {
			continue
		}
		evs = append(evs, e)
	}
	c := *d
	c.evs = evs
	return c.row(s)
}
