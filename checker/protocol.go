package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { reg("C16", checkLearners) }

// The learners work on tables named by tickets. Each table is in one of these states:
//
//	clean                         empty
//	inf X, der X, dw X            values, node derivatives, weight derivatives of instance X
//	sum K                         gradients of kind K added up and not yet applied
//	used                          gradients that have been applied and are still there
//	stale                         of an earlier instance
type tkState struct {
	k string
	x string
}

type tkOp struct {
	params int
	run    func(q *proto, e *event, s map[string]tkState) string
}

type proto struct {
	x      *fx
	f      *ssa.Function
	fr     *frame
	family string
	hidden map[string]string // result of hiding the labels -> the instance
	evs    []*event
	open   string // reason for not deciding
}

var learnerFamily = map[string]string{
	"GenerativeGD": "gen soft", "GenerativeBGD": "gen soft batch", "GenerativeHardGD": "gen hard", "GenerativeHardBGD": "gen hard batch",
	"DiscriminativeGD": "disc soft", "DiscriminativeBGD": "disc soft batch", "DiscriminativeHardGD": "disc hard", "DiscriminativeHardBGD": "disc hard batch",
}

func checkLearners(r *R) {
	x := newFx(r)
	r.rule("each gradient learner passes over the whole dataset as many times as the parameters say; the derivatives of an instance are computed from the values of that instance into empty tables, each gradient is applied exactly once, with the given rate, normalisation and batch size, after every full batch and once more for what is left; the dispatcher picks the variant by hardness and batch size and passes the parameters in their places")
	var names []string
	for n := range learnerFamily {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		x.try(n, func() {
			f := r.p.fn("learn", n)
			if f == nil {
				return
			}
			(&proto{x: x, f: f, family: learnerFamily[n]}).check()
		})
	}
	for _, n := range []string{"Generative", "Discriminative"} {
		n := n
		x.try(n, func() {
			if f := r.p.fn("learn", n); f != nil {
				x.dispatch(f, n)
			}
		})
	}
	x.try("hideValues", func() {
		if f := r.p.fn("learn", "hideValues"); f != nil {
			x.hideValues(f)
		}
	})
	x.try("parameters", func() { x.parameters() })
}

func (q *proto) arg(i int) *Form { return q.fr.args[i] }

// inst classifies an instance: the key of the dataset's instance of this iteration, with "-" in front
// when its labels are hidden; "" if not understood.
func (q *proto) inst(e *event, v *Form) (string, string) {
	if o, ok := q.hidden[v.key]; ok {
		return "-" + o, ""
	}
	if v.op == "idx" && v.args[0] == q.arg(3) {
		if len(e.loops) > 0 && v.args[1] == e.loops[len(e.loops)-1].it {
			return v.key, ""
		}
		for _, l := range e.loops {
			if v.args[1] == l.it {
				return v.key, ""
			}
		}
		if !v.opq && !hasSite(v) {
			return "", "uses instance " + v.String() + " in every iteration"
		}
	}
	if v.op == "const" {
		return "", "uses no instance"
	}
	return "", ""
}

func (q *proto) isHidden(x string) bool { return strings.HasPrefix(x, "-") }

func (q *proto) same(e *event, what string, got, want *Form) string {
	if got == want {
		return ""
	}
	if got.opq || hasSite(got) {
		q.open = what + " not understood"
		return ""
	}
	return fmt.Sprintf("%s is %s, expected %s", what, got, want)
}

func first(ms ...string) string {
	for _, m := range ms {
		if m != "" {
			return m
		}
	}
	return ""
}

// applied: rate, normalisation and batch size of an update.
func (q *proto) applied(e *event, eta, norm, b int) string {
	m := first(q.same(e, "the network", e.args[0], q.arg(0)), q.same(e, "the learning rate", e.args[eta], q.arg(1)), q.same(e, "whether to normalise", e.args[norm], q.arg(5)))
	if m == "" && b >= 0 {
		w := q.x.z.num(1)
		if len(q.fr.args) > 6 {
			w = q.arg(6)
		}
		m = q.same(e, "the batch size", e.args[b], w)
	}
	return m
}

func (q *proto) need(s map[string]tkState, t *Form, k, x, what string) string {
	c, ok := s[t.key]
	if !ok {
		q.open = "table not understood"
		return ""
	}
	if c.k != k {
		return fmt.Sprintf("%s: the table is %s", what, c.describe())
	}
	if x != "" && c.x != x {
		return fmt.Sprintf("%s: the table is %s", what, c.describe())
	}
	return ""
}

func (c tkState) describe() string {
	switch c.k {
	case "clean":
		return "empty"
	case "stale":
		return "that of an earlier instance"
	case "used":
		return "already applied"
	case "sum":
		return "a sum of gradients"
	case "inf":
		return "the values" + hid(c.x)
	case "der":
		return "the node derivatives" + hid(c.x)
	case "dw":
		return "the weight derivatives" + hid(c.x)
	}
	return c.k
}

func hid(x string) string {
	if strings.HasPrefix(x, "-") {
		return " with the labels hidden"
	}
	return ""
}

// addTo: gradients are added to table t.
func (q *proto) addTo(s map[string]tkState, t *Form, kind string) string {
	c, ok := s[t.key]
	if !ok {
		q.open = "table not understood"
		return ""
	}
	switch {
	case c.k == "clean", c.k == "sum" && c.x == kind:
		s[t.key] = tkState{"sum", kind}
		return ""
	case c.k == "used":
		return "adds to gradients that were already applied"
	}
	return "adds gradients to a table that holds " + c.describe()
}

// use: the gradients added up in table t are applied.
func (q *proto) use(s map[string]tkState, t *Form, kinds ...string) string {
	c, ok := s[t.key]
	if !ok {
		q.open = "table not understood"
		return ""
	}
	switch {
	case c.k == "clean":
		return "" // nothing to apply
	case c.k == "used":
		return "applies gradients that were already applied"
	case c.k == "sum" || c.k == "dw":
		n := c.x
		if c.k == "dw" {
			n = "soft" + hid(c.x)
		}
		for _, k := range kinds {
			if k == n {
				s[t.key] = tkState{"used", ""}
				return ""
			}
		}
		return "applies " + n + " gradients"
	}
	return "applies a table that holds " + c.describe()
}

func (q *proto) fam(e *event, f string) string {
	if strings.HasPrefix(q.family, f) {
		return ""
	}
	return "a " + q.family + " learner applies a " + f + " update"
}

func (q *proto) dgd(e *event, s map[string]tkState, a []*Form) string {
	x := ""
	if c, ok := s[a[0].key]; ok && c.k == "inf" {
		x = c.x
	}
	if x == "" || q.isHidden(x) {
		return q.need(s, a[0], "inf", "an instance", "values with the labels")
	}
	return first(q.need(s, a[2], "dw", x, "weight derivatives with the labels"),
		q.need(s, a[3], "inf", "-"+x, "values without the labels"),
		q.need(s, a[5], "dw", "-"+x, "weight derivatives without the labels"))
}

var tkOps map[string]tkOp

func init() {
	tkOps = map[string]tkOp{
		"spn.Storer.NewTicket": {1, func(q *proto, e *event, s map[string]tkState) string { return "" }},
		"spn.Storer.Reset": {2, func(q *proto, e *event, s map[string]tkState) string {
			return q.reset(s, e.args[1])
		}},
		"spn.Storer.ResetTickets": {2, func(q *proto, e *event, s map[string]tkState) string {
			if e.args[1].op != "lit" {
				q.open = "tables reset"
				return ""
			}
			for _, t := range e.args[1].args {
				if m := q.reset(s, t); m != "" {
					return m
				}
			}
			return ""
		}},
		"learn.hideValues": {2, func(q *proto, e *event, s map[string]tkState) string {
			if len(q.fr.args) < 5 {
				return ""
			}
			return q.same(e, "the hidden variables", e.args[1], q.arg(4))
		}},
		"spn.StoreInference": {4, func(q *proto, e *event, s map[string]tkState) string {
			x, m := q.inst(e, e.args[1])
			if m != "" {
				return m
			}
			if x == "" {
				q.open = "instance not understood"
				return ""
			}
			if c := s[e.args[2].key]; c.k == "sum" {
				return "values are stored over gradients that have not been applied"
			}
			s[e.args[2].key] = tkState{"inf", x}
			return q.same(e, "the network", e.args[0], q.arg(0))
		}},
		"learn.DeriveSPN": {5, func(q *proto, e *event, s map[string]tkState) string {
			t, it := e.args[2], e.args[3]
			c, ok := s[it.key]
			d, ok2 := s[t.key]
			if !ok || !ok2 {
				q.open = "table not understood"
				return ""
			}
			if c.k != "inf" {
				return "node derivatives: the table of values is " + c.describe()
			}
			if d.k != "clean" {
				return "node derivatives are added to a table that is " + d.describe()
			}
			s[t.key] = tkState{"der", c.x}
			return q.same(e, "the network", e.args[0], q.arg(0))
		}},
		"learn.DeriveWeights": {6, func(q *proto, e *event, s map[string]tkState) string {
			return q.weights(e, s, false)
		}},
		"learn.DeriveWeightsBatch": {6, func(q *proto, e *event, s map[string]tkState) string {
			return q.weights(e, s, true)
		}},
		"learn.DeriveApplyWeights": {7, func(q *proto, e *event, s map[string]tkState) string {
			c, ok := s[e.args[4].key]
			if !ok {
				q.open = "table not understood"
				return ""
			}
			if c.k != "inf" || q.isHidden(c.x) {
				return "weight update: the table of values is " + c.describe()
			}
			return first(q.fam(e, "gen soft"), q.need(s, e.args[3], "der", c.x, "node derivatives"), q.applied(e, 1, 6, -1))
		}},
		"learn.DeriveHard": {4, func(q *proto, e *event, s map[string]tkState) string {
			x, m := q.inst(e, e.args[3])
			if m != "" {
				return m
			}
			if x == "" {
				q.open = "instance not understood"
				return ""
			}
			k := "hard"
			if q.isHidden(x) {
				k += " with the labels hidden"
			}
			return first(q.addTo(s, e.args[2], k), q.same(e, "the network", e.args[0], q.arg(0)))
		}},
		"learn.storeDGD": {12, func(q *proto, e *event, s map[string]tkState) string {
			return first(q.dgd(e, s, e.args[1:7]), q.addTo(s, e.args[7], "discriminative"))
		}},
		"learn.applyDGD": {12, func(q *proto, e *event, s map[string]tkState) string {
			return first(q.fam(e, "disc soft"), q.dgd(e, s, e.args[1:7]), q.applied(e, 8, 9, 11))
		}},
		"learn.applyDGDFrom": {6, func(q *proto, e *event, s map[string]tkState) string {
			return first(q.fam(e, "disc soft"), q.use(s, e.args[1], "discriminative"), q.applied(e, 3, 4, 5))
		}},
		"learn.applyHDGD": {8, func(q *proto, e *event, s map[string]tkState) string {
			lam := q.x.z.atom("fld", "Lambda", q.x.z.atom("fld", "Parameters", q.arg(0)))
			return first(q.fam(e, "disc hard"), q.use(s, e.args[1], "hard"), q.use(s, e.args[2], "hard with the labels hidden"), q.applied(e, 4, 6, 7), q.same(e, "the regularisation", e.args[5], lam))
		}},
		"learn.applyGD": {7, func(q *proto, e *event, s map[string]tkState) string {
			return first(q.fam(e, "gen soft"), q.use(s, e.args[2], "soft"), q.applied(e, 1, 5, 6))
		}},
		"learn.applyFastGD": {6, func(q *proto, e *event, s map[string]tkState) string {
			return first(q.fam(e, "gen soft"), q.use(s, e.args[2], "soft"), q.applied(e, 1, 4, 5))
		}},
		"learn.applyHGD": {6, func(q *proto, e *event, s map[string]tkState) string {
			return first(q.fam(e, "gen hard"), q.use(s, e.args[2], "hard"), q.applied(e, 1, 4, 5))
		}},
		"learn.applyFastHGD": {6, func(q *proto, e *event, s map[string]tkState) string {
			return first(q.fam(e, "gen hard"), q.use(s, e.args[2], "hard"), q.applied(e, 1, 4, 5))
		}},
	}
}

func (q *proto) reset(s map[string]tkState, t *Form) string {
	c, ok := s[t.key]
	if !ok {
		q.open = "table not understood"
		return ""
	}
	s[t.key] = tkState{"clean", ""}
	if c.k == "sum" {
		return "gradients are discarded before they are applied"
	}
	return ""
}

func (q *proto) weights(e *event, s map[string]tkState, batch bool) string {
	c, ok := s[e.args[4].key]
	if !ok {
		q.open = "table not understood"
		return ""
	}
	if c.k != "inf" {
		return "weight derivatives: the table of values is " + c.describe()
	}
	if m := q.need(s, e.args[3], "der", c.x, "node derivatives"); m != "" {
		return m
	}
	if batch {
		return q.addTo(s, e.args[2], "soft"+hid(c.x))
	}
	if d := s[e.args[2].key]; d.k == "sum" {
		return "weight derivatives are stored over gradients that have not been applied"
	}
	s[e.args[2].key] = tkState{"dw", c.x}
	return q.same(e, "the network", e.args[0], q.arg(0))
}

func isUpdate(n string) bool {
	return strings.HasPrefix(n, "learn.apply") || n == "learn.DeriveApplyWeights"
}

func isGradient(n string) bool {
	switch n {
	case "learn.DeriveApplyWeights", "learn.DeriveWeightsBatch", "learn.DeriveWeights", "learn.DeriveHard", "learn.storeDGD", "learn.applyDGD":
		return true
	}
	return false
}

type evNode struct {
	e    *event
	loop *evLoop
	body []*evNode
}

// nestEvents arranges events in program order into their loops.
func nestEvents(evs []*event, d int) []*evNode {
	var out []*evNode
	for i := 0; i < len(evs); {
		e := evs[i]
		if len(e.loops) <= d {
			out = append(out, &evNode{e: e})
			i++
			continue
		}
		j := i
		for j < len(evs) && len(evs[j].loops) > d && evs[j].loops[d].l == e.loops[d].l {
			j++
		}
		out = append(out, &evNode{loop: &e.loops[d], body: nestEvents(evs[i:j], d+1)})
		i = j
	}
	return out
}

func (q *proto) check() {
	x, r := q.x, q.x.r
	z := x.z
	name := x.p.fname(q.f)
	q.fr = x.vs.root(q.f)
	if len(q.fr.args) < 6 {
		x.undecided(name, "parameters")
		return
	}
	q.evs = nil
	q.hidden = map[string]string{}
	start := map[string]tkState{}
	for _, e := range x.vs.events(q.fr, nil, func(n string) bool { _, ok := tkOps[n]; return ok || n == "spn.Storer.Purge" }) {
		if e.kind != "call" {
			continue
		}
		op, ok := tkOps[e.name]
		if !ok || len(e.args) != op.params {
			x.undecided(name, "call of "+e.name)
			return
		}
		if c, ok := e.in.(*ssa.Call); ok {
			res := x.vs.at(e.fr, c, c.Block())
			if e.name == "learn.hideValues" {
				if k, m := q.inst(e, e.args[0]); m != "" {
					r.bad("learner", name, x.p.ipos(e.in), m)
				} else if k != "" {
					q.hidden[res.key] = k
				}
			}
			if e.name == "spn.Storer.NewTicket" {
				start[res.key] = tkState{"clean", ""}
			}
		}
		q.evs = append(q.evs, e)
	}
	// the loops
	var grads, ups []*event
	for _, e := range q.evs {
		if isGradient(e.name) {
			grads = append(grads, e)
		}
		if isUpdate(e.name) {
			ups = append(ups, e)
		}
	}
	if len(grads) == 0 || len(ups) == 0 {
		x.undecided(name, "no gradient or no update found")
		return
	}
	epochs := z.atom("fld", "Iterations", z.atom("fld", "Parameters", q.arg(0)))
	var inner *evLoop
	for _, e := range grads {
		what := name + ": " + e.name
		if len(e.loops) != 2 {
			x.undecided(what, "loops")
			return
		}
		okay := true
		for i, w := range []*Form{epochs, z.length(q.arg(3))} {
			d := e.loops[i].dom
			switch {
			case d == w:
			case d.opq || hasSite(d) || d.op == "while":
				x.undecided(what, "loop over "+d.String())
				okay = false
			default:
				r.bad("learner", what, x.p.ipos(e.in), fmt.Sprintf("repeated %s times, expected %s", d, w))
				okay = false
			}
		}
		if !x.complete(what, "learner", e) {
			okay = false
		}
		if !isTrue(e.guard) {
			if e.guard.opq || hasSite(e.guard) {
				x.undecided(what, "guard")
			} else {
				r.bad("learner", what, x.p.ipos(e.in), "only when "+e.guard.String())
			}
			okay = false
		}
		if !okay {
			continue
		}
		l := e.loops[1]
		inner = &l
		r.ok("instances", what+": every instance, every epoch")
	}
	q.batches(ups, inner, epochs)
	// the tables
	conds := map[string]*Form{}
	for _, e := range q.evs {
		e.guard.walk(func(d *Form) {
			if d.op == "ite" {
				c := d.args[0]
				conds[c.key] = c
			}
		})
		if e.guard.op != "ite" && !isTrue(e.guard) && !isFalse(e.guard) {
			conds[e.guard.key] = e.guard
		}
	}
	if len(conds) > 6 {
		x.undecided(name, "conditions")
		return
	}
	var cs []*Form
	for _, c := range conds {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].key < cs[j].key })
	bad := map[string]bool{}
	var reports []func()
	run := &protoRun{q: q, conds: cs, report: func(e *event, m string) {
		k := x.p.ipos(e.in) + m
		if !bad[k] {
			bad[k] = true
			reports = append(reports, func() { r.bad("learner", name+": "+e.name, x.p.ipos(e.in), m) })
		}
	}}
	tree := nestEvents(q.evs, 0)
	run.seq(tree, []map[string]tkState{start}, nil)
	if q.open != "" {
		x.undecided(name, q.open)
		return
	}
	for _, f := range reports {
		f()
	}
	if len(bad) == 0 {
		r.ok("table protocol", fmt.Sprintf("%s: %d operations on %d tables", name, len(q.evs), len(start)))
	}
}

type protoRun struct {
	q      *proto
	conds  []*Form
	report func(*event, string)
}

func stKey(s map[string]tkState) string {
	var ks []string
	for k, v := range s {
		ks = append(ks, k+"="+v.k+v.x)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// seq runs the events from every state, once per choice of the conditions.
func (p *protoRun) seq(ns []*evNode, in []map[string]tkState, chosen map[string]bool) []map[string]tkState {
	if chosen == nil {
		var out []map[string]tkState
		seen := map[string]bool{}
		for m := 0; m < 1<<len(p.conds); m++ {
			ch := map[string]bool{}
			for i, c := range p.conds {
				ch[c.key] = m>>i&1 == 1
			}
			for _, s := range p.seq(ns, in, ch) {
				if k := stKey(s); !seen[k] {
					seen[k] = true
					out = append(out, s)
				}
			}
		}
		return out
	}
	cur := in
	for _, n := range ns {
		var next []map[string]tkState
		seen := map[string]bool{}
		add := func(s map[string]tkState) {
			if k := stKey(s); !seen[k] {
				seen[k] = true
				next = append(next, s)
			}
		}
		if n.loop != nil {
			if un := p.unroll(n); un != nil {
				cur = p.seq(un, cur, chosen)
				continue
			}
			for _, s := range cur {
				add(s)
			}
			work := cur
			for round := 0; round < 6 && len(work) > 0; round++ {
				var ent []map[string]tkState
				for _, s := range work {
					t := map[string]tkState{}
					for k, v := range s {
						if v.x != "" && v.k != "sum" {
							v = tkState{"stale", ""}
						}
						t[k] = v
					}
					ent = append(ent, t)
				}
				var fresh []map[string]tkState
				for _, s := range p.seq(n.body, ent, nil) {
					if !seen[stKey(s)] {
						fresh = append(fresh, s)
					}
					add(s)
				}
				work = fresh
			}
			cur = next
			continue
		}
		for _, s := range cur {
			t := map[string]tkState{}
			for k, v := range s {
				t[k] = v
			}
			g := n.e.guard
			for _, c := range p.conds {
				g = p.q.x.z.assume(g, c, chosen[c.key])
			}
			if isTrue(g) || !isFalse(g) && g.op != "ite" && chosen[g.key] {
				if m := tkOps[n.e.name].run(p.q, n.e, t); m != "" {
					p.report(n.e, m)
				}
			}
			add(t)
		}
		cur = next
	}
	return cur
}

// unroll writes out a loop over a few given tickets.
func (p *protoRun) unroll(n *evNode) []*evNode {
	z := p.q.x.z
	c, ok := n.loop.dom.constant()
	if !ok || !c.IsInt() || c.Sign() < 0 || c.Cmp(big.NewRat(16, 1)) > 0 {
		return nil
	}
	k := int(c.Num().Int64())
	var out []*evNode
	for i := 0; i < k; i++ {
		m := map[string]*Form{n.loop.it.key: z.num(int64(i))}
		for _, b := range n.body {
			if b.loop != nil {
				return nil
			}
			e := *b.e
			e.guard = z.subst(e.guard, m)
			e.args = nil
			for _, a := range b.e.args {
				e.args = append(e.args, z.subst(a, m))
			}
			out = append(out, &evNode{e: &e})
		}
	}
	return out
}

// batches: when the gradients are applied.
func (q *proto) batches(ups []*event, inner *evLoop, epochs *Form) {
	x, r := q.x, q.x.r
	z := x.z
	name := x.p.fname(q.f)
	if inner == nil {
		return
	}
	batch := strings.HasSuffix(q.family, "batch")
	if !batch {
		for _, e := range ups {
			if len(e.loops) != 2 {
				if len(e.loops) < 2 && isTrue(e.guard) {
					r.bad("learner", name+": "+e.name, x.p.ipos(e.in), "the gradient is not applied after each instance")
				}
				continue
			}
			switch {
			case isTrue(e.guard):
				r.ok("updates", name+": after every instance")
			case e.guard.opq || hasSite(e.guard):
				x.undecided(name+": "+e.name, "guard")
			default:
				r.bad("learner", name+": "+e.name, x.p.ipos(e.in), "only applied when "+e.guard.String())
			}
		}
		return
	}
	if len(q.fr.args) < 7 {
		return
	}
	n := z.length(q.arg(3))
	in, end := z.fls(), z.fls()
	endDepth := 0
	var at *event
	for _, e := range ups {
		switch {
		case len(e.loops) == 2 && e.loops[1].l == inner.l:
			in = z.ite(in, z.tru(), e.guard)
			at = e
		case len(e.loops) < 2:
			end = z.ite(end, z.tru(), e.guard)
			endDepth = len(e.loops)
		default:
			x.undecided(name, "update in another loop")
			return
		}
	}
	// count of the instances at the end of this iteration
	var acc *Form
	in.walk(func(d *Form) {
		if d.op == "acc" {
			acc = d
		}
	})
	cnt := z.add(inner.it, z.num(1))
	last := z.sub(n, z.num(1))
	total := n
	if acc != nil {
		cnt = z.add(cnt, acc)
		total = z.mul(epochs, n)
	}
	full := z.eq0(x.vs.intop("mod", cnt, q.arg(6)))
	lastIt := z.eq0(z.sub(inner.it, last))
	what := name + ": when a batch is applied"
	pos := x.p.pos(q.f.Pos())
	if at != nil {
		pos = x.p.ipos(at.in)
	}
	bIn := func(f *Form) *Form {
		return z.assume(z.assume(f, z.ge0(inner.it), true), z.ge0(z.sub(last, inner.it)), true)
	}
	got := bIn(in)
	switch {
	case got == full || got == z.ite(full, z.tru(), lastIt) || got == z.ite(lastIt, z.tru(), full):
		r.ok("updates", what)
	case got.opq || hasSite(got):
		x.undecided(what, "condition "+got.String())
	default:
		r.bad("learner", what, pos, "applied when "+got.String()+", expected "+full.String())
		return
	}
	what = name + ": what is left after the last full batch"
	m := map[string]*Form{inner.it.key: last}
	if acc != nil {
		if endDepth != 0 {
			x.undecided(what, "count over epochs")
			return
		}
		m[acc.key] = z.sub(total, n)
	}
	fin := z.ite(z.subst(in, m), z.tru(), end)
	switch {
	case isTrue(fin):
		r.ok("updates", what)
	case fin.opq || hasSite(fin):
		x.undecided(what, "condition "+fin.String())
	default:
		r.bad("learner", what, pos, "not applied unless "+fin.String())
	}
}

// dispatch: the variant is chosen by hardness and batch size, with the parameters in their places.
func (x *fx) dispatch(f *ssa.Function, n string) {
	z, r := x.z, x.r
	fr := x.vs.root(f)
	evs := x.vs.events(fr, nil, func(m string) bool {
		_, ok := learnerFamily[strings.TrimPrefix(m, "learn.")]
		return ok || m == "parameters.Retrieve"
	})
	// the parameters: bound ones, else the default
	var found *Form
	for _, e := range evs {
		if e.kind == "call" && e.name == "parameters.Retrieve" {
			c := e.in.(*ssa.Call)
			for _, u := range *c.Referrers() {
				if ex, ok := u.(*ssa.Extract); ok && ex.Index == 1 {
					found = x.vs.at(e.fr, ex, ex.Block())
				}
			}
			if len(e.args) == 1 && e.args[0] != fr.args[0] && !e.args[0].opq && !hasSite(e.args[0]) {
				r.bad("dispatch", x.p.fname(f), x.p.ipos(e.in), "parameters of "+e.args[0].String())
			}
		}
	}
	type variant struct{ hard, batch bool }
	conds := []bool{true, false}
	if found == nil {
		conds = conds[:1]
	}
	for _, bound := range conds {
		for _, e := range evs {
			fam, ok := learnerFamily[strings.TrimPrefix(e.name, "learn.")]
			if e.kind != "call" || !ok {
				continue
			}
			fix := func(g *Form) *Form {
				if found != nil {
					return z.assume(g, found, bound)
				}
				return g
			}
			what := fmt.Sprintf("%s: %s (parameters bound: %v)", x.p.fname(f), e.name, bound)
			g := fix(e.guard)
			if isFalse(g) {
				continue
			}
			if !strings.HasPrefix(fam, map[string]string{"Generative": "gen", "Discriminative": "disc"}[n]) {
				r.bad("dispatch", what, x.p.ipos(e.in), "a "+fam+" learner")
				continue
			}
			eta := fix(e.args[1])
			if eta.op != "fld" || len(eta.args) != 1 {
				x.undecided(what, "learning rate "+eta.String())
				continue
			}
			P := eta.args[0]
			fld := func(k string) *Form { return z.atom("fld", k, P) }
			want := []*Form{fr.args[0], fld("Eta"), fld("Epsilon"), fr.args[1], nil, fld("Normalize"), fld("BatchSize")}
			if n == "Discriminative" {
				want[4] = fr.args[2]
			}
			good := true
			for i, a := range e.args {
				a = fix(a)
				if i >= len(want) || want[i] == nil || a == want[i] {
					continue
				}
				good = false
				if a.opq || a.op != "fld" && hasSite(a) {
					x.undecided(what, fmt.Sprintf("argument %d", i))
				} else {
					r.bad("dispatch", what, x.p.ipos(e.in), fmt.Sprintf("argument %d is %s, expected %s", i, a, want[i]))
				}
			}
			hard := z.eq0(x.vs.intop("mod", fld("LearningType"), z.num(2)))
			many := z.ge0(z.sub(fld("BatchSize"), z.num(2)))
			wg := z.tru()
			lit := func(c *Form, v bool) *Form {
				if v {
					return c
				}
				return z.not(c)
			}
			wg = z.ite(lit(hard, strings.Contains(fam, "hard")), lit(many, strings.HasSuffix(fam, "batch")), z.fls())
			// the learning type is one of the four declared kinds
			agree := true
			for t := int64(0); t < 4; t++ {
				m := map[string]*Form{fld("LearningType").key: z.num(t)}
				agree = agree && z.subst(g, m) == z.subst(wg, m)
			}
			if g != wg && !agree {
				q := &cmpr{z: z, known: []*Form{P}}
				switch q.cmp(g, wg) {
				case same:
				case unknown:
					x.undecided(what, "condition "+q.why)
					good = false
				default:
					r.bad("dispatch", what, x.p.ipos(e.in), "chosen when "+g.String()+", expected "+wg.String())
					good = false
				}
			}
			if good {
				r.ok("dispatch", what)
			}
		}
	}
}

// complete: none of the event's loops is left early.
func (x *fx) complete(what, rule string, e *event) bool {
	for _, l := range e.loops {
		fr := e.fr
		for fr != nil && fr.fn != l.l.fn {
			fr = fr.caller
		}
		if fr == nil {
			x.undecided(what, "loop")
			return false
		}
		for _, ex := range x.vs.exits(fr, l.l) {
			switch {
			case isFalse(ex.cond):
			case ex.cond.opq || hasSite(ex.cond) || hasAcc(ex.cond, fr):
				x.undecided(what, "loop may be left early")
				return false
			default:
				x.r.bad(rule, what, x.p.ipos(ex.b.Instrs[len(ex.b.Instrs)-1]), "the loop is left early when "+ex.cond.String())
				return false
			}
		}
	}
	return true
}

type loopExit struct {
	b    *ssa.BasicBlock
	cond *Form
}

// exits: where the loop is left other than at its head, not counting panics.
func (vs *Values) exits(fr *frame, lp *loop) []loopExit {
	var out []loopExit
	var bs []*ssa.BasicBlock
	for b := range lp.in {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		if b == lp.head {
			continue
		}
		for _, s := range b.Succs {
			if !lp.in[s] && !onlyPanics(s, map[*ssa.BasicBlock]bool{}) {
				out = append(out, loopExit{b, vs.exitCond(fr, lp, b)})
				break
			}
		}
	}
	return out
}

func onlyPanics(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if len(b.Instrs) > 0 {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
			return true
		}
	}
	if len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if !onlyPanics(s, seen) {
			return false
		}
	}
	return true
}

// hideValues: a copy of the instance without the given variables.
func (x *fx) hideValues(f *ssa.Function) {
	z, r := x.z, x.r
	fr := x.vs.root(f)
	I, Y := fr.args[0], fr.args[1]
	res := x.vs.retForm(fr, 0)
	if res.op != "site" {
		if !res.opq {
			r.bad("hidden-values", x.p.fname(f), x.p.pos(f.Pos()), "returns "+res.String())
		}
		return
	}
	copied, deleted := false, false
	for _, e := range x.vs.events(fr, nil, func(n string) bool { return n == "delete" }) {
		what := x.p.fname(f)
		switch {
		case e.kind == "map" && e.base == res:
			if len(e.loops) == 0 || e.loops[0].dom != z.atom("maprange", "", I) {
				x.undecided(what, "copy")
				return
			}
			if !isTrue(e.guard) {
				x.undecided(what, "copy under a condition")
				return
			}
			k := z.atom("key", "", I, e.loops[0].it)
			if e.key != k && !e.key.opq || e.val != z.atom("map", "", I, k) && !e.val.opq {
				r.bad("hidden-values", what, x.p.ipos(e.in), fmt.Sprintf("entry %s of the copy is %s", e.key, e.val))
			}
			copied = true
		case e.kind == "call" && e.name == "delete" && len(e.args) == 2:
			if e.args[0] != res {
				if !e.args[0].opq {
					r.bad("hidden-values", what, x.p.ipos(e.in), "removes from "+e.args[0].String())
				}
				continue
			}
			if len(e.loops) == 0 && !e.args[1].opq && !hasSite(e.args[1]) {
				r.bad("hidden-values", what, x.p.ipos(e.in), "removes only "+e.args[1].String())
				return
			}
			if len(e.loops) != 1 || e.loops[0].dom != z.length(Y) {
				x.undecided(what, "removal")
				return
			}
			if !x.complete(what, "hidden-values", e) {
				return
			}
			w := z.atom("fld", "Varid", z.idx(Y, e.loops[0].it))
			switch {
			case !isTrue(e.guard) && !e.guard.opq && !hasSite(e.guard):
				r.bad("hidden-values", what, x.p.ipos(e.in), "a label is removed only when "+e.guard.String())
			case e.args[1] != w && !e.args[1].opq && !hasSite(e.args[1]):
				r.bad("hidden-values", what, x.p.ipos(e.in), "removes "+e.args[1].String()+", expected "+w.String())
			default:
				deleted = true
			}
		}
	}
	if copied && deleted {
		r.ok("hidden values", x.p.fname(f)+": copy of the instance without the labels")
	} else {
		x.undecided(x.p.fname(f), "copy or removal not found")
	}
}

// parameters: documented defaults, constructor arguments in place, meaning of the learning types.
func (x *fx) parameters() {
	z, r := x.z, x.r
	pk := "learn/parameters"
	if f := r.p.fn(pk, "Default"); f != nil {
		docs := map[string]string{"Normalize": "true", "HardWeight": "false", "SmoothSum": "0.01", "Eta": "0.1", "Epsilon": "1", "BatchSize": "0", "Lambda": "0.01", "Iterations": "4"}
		fr := x.vs.root(f)
		for _, m := range x.vs.resultStruct(fr, 0) {
			for k, w := range docs {
				v, ok := m[k]
				if !ok || v.opq {
					continue
				}
				got := v.String()
				if c, ok := v.constant(); ok {
					fl, _ := c.Float64()
					got = fmt.Sprint(fl)
				}
				if got != w {
					r.bad("parameters", "parameters.Default: "+k, x.p.pos(f.Pos()), "is "+got+", documented as "+w)
				} else {
					r.ok("defaults", k+" = "+w)
				}
			}
		}
	}
	if f := r.p.fn(pk, "New"); f != nil && len(f.Params) == 9 {
		fr := x.vs.root(f)
		for _, m := range x.vs.resultStruct(fr, 0) {
			for i, k := range []string{"Normalize", "HardWeight", "SmoothSum", "LearningType", "Eta", "Epsilon", "BatchSize", "Lambda", "Iterations"} {
				v, ok := m[k]
				if !ok {
					continue
				}
				if v == fr.args[i] {
					r.ok("constructor", k)
				} else if !v.opq && !hasSite(v) {
					r.bad("parameters", "parameters.New: "+k, x.p.pos(f.Pos()), "is "+v.String())
				}
			}
		}
	}
	// a node's parameters are those bound to it; else defaults, which stay bound
	for _, f := range r.p.Funcs {
		if f.Name() != "Parameters" || r.p.rel(f) != "spn" || len(f.Params) != 1 || f.Signature.Recv() == nil {
			continue
		}
		fr := x.vs.root(f)
		what := x.p.fname(f)
		var found *Form
		good := 0
		for _, e := range x.vs.events(fr, nil, func(n string) bool { return n == "parameters.Retrieve" || n == "parameters.Bind" }) {
			if e.kind != "call" {
				continue
			}
			if e.args[0] != fr.args[0] && !e.args[0].opq && !hasSite(e.args[0]) {
				r.bad("parameters", what, x.p.ipos(e.in), e.name+" for "+e.args[0].String()+" instead of the node")
				continue
			}
			if e.name == "parameters.Retrieve" {
				for _, u := range *e.in.(*ssa.Call).Referrers() {
					if ex, ok := u.(*ssa.Extract); ok && ex.Index == 1 {
						found = x.vs.at(e.fr, ex, ex.Block())
					}
				}
				good++
				continue
			}
			if found == nil {
				continue
			}
			if !isTrue(z.assume(e.guard, found, false)) || !isFalse(z.assume(e.guard, found, true)) {
				r.bad("parameters", what, x.p.ipos(e.in), "defaults are bound when "+e.guard.String())
				continue
			}
			if v := z.assume(x.vs.retForm(fr, 0), found, false); e.args[1] != v && !v.opq {
				if v.op == "site" && strings.HasPrefix(v.sym, "call") || e.args[1].op == "site" && strings.HasPrefix(e.args[1].sym, "call") {
					continue // what a helper returns is not followed
				}
				r.bad("parameters", what, x.p.ipos(e.in), "binds "+e.args[1].String()+" and returns "+v.String())
				continue
			}
			good++
		}
		if good == 2 {
			r.ok("bindings", what)
		} else {
			x.undecided(what, "bindings")
		}
	}
	f := r.p.fn(pk, "Hardness")
	if f == nil || f.Pkg == nil {
		return
	}
	val := func(n string) (int64, bool) {
		c, ok := f.Pkg.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			return 0, false
		}
		return constant.Int64Val(c.Val())
	}
	fr := x.vs.root(f)
	ret := x.vs.retForm(fr, 0)
	for n, h := range map[string]string{"HardGD": "Hard", "HardEM": "Hard", "SoftGD": "Soft", "SoftEM": "Soft"} {
		v, ok := val(n)
		w, ok2 := val(h)
		if !ok || !ok2 {
			continue
		}
		g := z.subst(ret, map[string]*Form{fr.args[0].key: z.num(v)})
		if g.isNum(w) {
			r.ok("learning types", n+" is "+h)
		} else if _, c := g.constant(); c {
			r.bad("parameters", "parameters.Hardness: "+n, x.p.pos(f.Pos()), "is "+g.String()+", expected "+h)
		}
	}
}
