package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparison of forms. Two forms are compared case by case over the conditions they contain; in
// every case what the condition says is substituted (an equation replaces one side by the other, a
// comparison resolves the maxima and minima it decides), and the leaves have to be the same form.
// A form that holds something the analysis did not understand compares as unknown, never as
// different.

type verdict int

const (
	same verdict = iota
	unknown
	different
)

type cmpr struct {
	z     *forms
	steps int
	logd  bool // values are logarithms: compare their exponentials
	why   string
	known []*Form // unknown values the specification may speak about
}

// walk visits every form inside f once.
func (f *Form) walk(fn func(*Form)) {
	seen := map[*Form]bool{}
	var rec func(f *Form)
	rec = func(f *Form) {
		if seen[f] {
			return
		}
		seen[f] = true
		fn(f)
		for _, a := range f.args {
			rec(a)
		}
		for _, m := range f.mons {
			for _, p := range m.at {
				rec(p.f)
			}
		}
	}
	rec(f)
}

// assume rewrites f knowing that condition c has value v.
func (z *forms) assume(f, c *Form, v bool) *Form {
	if c.op == "ite" {
		// a compound condition: only what both ways say is known
		return f
	}
	k := fmt.Sprintf("A|%s|%v|%s", f.key, v, c.key)
	if g, ok := z.rm[k]; ok {
		return g
	}
	m := map[string]*Form{c.key: z.boolc(v)}
	f.walk(func(d *Form) {
		if isCondOp(d.op) && d != c {
			if val, ok := implied(c, v, d); ok {
				m[d.key] = z.boolc(val)
			}
		}
		if (d.op == "max2" || d.op == "min2") && len(d.args) == 2 {
			if w := z.decide(d, c, v); w != nil {
				m[d.key] = w
			}
		}
	})
	if v {
		switch c.op {
		case "eq0":
			if a, b := z.equation(c.args[0]); a != nil {
				m[a.key] = b
			}
		case "eq":
			for i := 0; i < 2; i++ {
				if isConstForm(c.args[i]) && !isConstForm(c.args[1-i]) {
					m[c.args[1-i].key] = c.args[i]
				}
			}
		}
	}
	g := z.restrict(z.subst(f, m), c, v)
	z.rm[k] = g
	return g
}

// decide: which side of a two-sided maximum or minimum a comparison picks.
func (z *forms) decide(d, c *Form, v bool) *Form {
	if c.op != "gt0" && c.op != "ge0" {
		return nil
	}
	a, b := d.args[0], d.args[1]
	if a.isInf() || b.isInf() {
		return nil
	}
	p := c.args[0]
	diff := z.sub(a, b)
	var aBig, known bool
	if c.op == "gt0" {
		switch {
		case p == diff: // a > b
			aBig, known = v, true
		case p == z.neg(diff): // b > a
			aBig, known = !v, true
		}
	} else {
		switch {
		case p == diff:
			aBig, known = v, true
		case p == z.neg(diff):
			aBig, known = !v, true
		}
	}
	if !known {
		return nil
	}
	if d.op == "min2" {
		aBig = !aBig
	}
	if aBig {
		return a
	}
	return b
}

// equation solves p = 0 for one of its atoms.
func (z *forms) equation(p *Form) (*Form, *Form) {
	best := -1
	ms := p.monos()
	for i, m := range ms {
		if len(m.at) != 1 || m.at[0].e != 1 || m.at[0].f.bv > 0 {
			continue
		}
		n := 0
		for _, o := range ms {
			if strings.Contains(o.key(), m.at[0].f.key) {
				n++
			}
		}
		if n != 1 {
			continue
		}
		if best < 0 || len(m.at[0].f.key) > len(ms[best].at[0].f.key) {
			best = i
		}
	}
	if best < 0 {
		return nil, nil
	}
	a := ms[best].at[0].f
	rest := z.poly(append(append([]mono{}, ms[:best]...), ms[best+1:]...))
	return a, z.mul(rest, z.inv(z.neg(z.rat(ms[best].c))))
}

func (q *cmpr) cmp(got, want *Form) verdict {
	q.steps = 0
	q.why = ""
	return q.rec(got, want, nil, nil)
}

func (q *cmpr) rec(got, want *Form, path []string, fs []fact) verdict {
	z := q.z
	if got == want {
		return same
	}
	q.steps++
	if q.steps > 3000 {
		q.note("too many cases", nil, nil, path)
		return unknown
	}
	var c *Form
	for _, f := range []*Form{got, want} {
		if f.op == "ite" && (c == nil || condLess(f.args[0], c)) {
			c = f.args[0]
		}
	}
	if c == nil {
		return q.leaf(got, want, path, fs)
	}
	if c.opq {
		q.note("condition not understood", got, want, path)
		return unknown
	}
	res := same
	for _, v := range []bool{true, false} {
		s := c.String()
		if !v {
			s = "not " + s
		}
		r := q.rec(q.isinf(z.assume(got, c, v), c, v), q.isinf(z.assume(want, c, v), c, v), append(append([]string{}, path...), s), append(append([]fact{}, fs...), fact{c, v}))
		if r > res {
			res = r
		}
		if res == different {
			return res
		}
	}
	return res
}

// isinf: under "the largest term is infinite" the log-sum of the terms is that term.
func (q *cmpr) isinf(f, c *Form, v bool) *Form {
	if v && c.op == "b" && c.sym == "any" && c.args[2].op == "eq" {
		// a sum with a term that is -inf
		e := c.args[2]
		for i := 0; i < 2; i++ {
			if e.args[i].isInf() && e.args[i].sym == negInf {
				return q.z.rewrite(f, func(d *Form) *Form {
					if d.op == "sum" && d.args[0] == c.args[0] && d.args[1] == c.args[1] {
						for _, m := range d.args[2].monos() {
							if m.c.Sign() > 0 && len(m.at) == 1 && m.at[0].e == 1 && m.at[0].f == e.args[1-i] {
								return q.z.inf(true)
							}
						}
					}
					return nil
				})
			}
		}
	}
	if v && c.op == "eq" {
		for i := 0; i < 2; i++ {
			if c.args[i].isInf() && !c.args[1-i].isInf() {
				return q.z.subst(f, map[string]*Form{q.z.log(q.lse(c.args[1-i])).key: c.args[i]})
			}
		}
	}
	if !v || !(c.op == "b" && c.sym == "isinf") {
		return f
	}
	return q.z.subst(f, map[string]*Form{q.z.log(q.lse(c.args[0])).key: c.args[0]})
}

// infPair: of two ordered terms, an infinite smaller one is -inf; an infinite larger one is their
// log-sum.
func (q *cmpr) infPair(f *Form, fs []fact) *Form {
	z := q.z
	for _, i := range fs {
		if !i.v || i.c.op != "b" || i.c.sym != "isinf" {
			continue
		}
		a := i.c.args[0]
		for _, o := range fs {
			if o.c.op != "gt0" {
				continue
			}
			p := o.c.args[0]
			var b *Form
			big := false
			if b = z.add(p, a); !b.opq && !sharesMono(b, a) {
				// b - a > 0
				big = !o.v
			} else if b = z.sub(a, p); !sharesMono(b, a) {
				// a - b > 0
				big = o.v
			} else {
				continue
			}
			if big {
				f = z.subst(f, map[string]*Form{z.log(z.add(z.exp(a), z.exp(b))).key: a})
			} else {
				m := map[string]*Form{z.exp(a).key: z.num(0), z.log(z.add(z.exp(a), z.exp(b))).key: b}
				if a.op != "poly" {
					m[a.key] = z.inf(true)
				}
				f = z.subst(f, m)
			}
		}
	}
	return f
}

func sharesMono(f, a *Form) bool {
	for _, m := range a.monos() {
		for _, n := range f.monos() {
			if n.key() == m.key() && m.key() != "" {
				return true
			}
		}
	}
	return false
}

// lse: the sum of exponentials of the terms of a maximum.
func (q *cmpr) lse(m *Form) *Form {
	z := q.z
	switch m.op {
	case "max":
		it := z.atom("iter", "lse")
		return z.reduce("sum", m.args[0], it, z.exp(z.open(m, it)))
	case "max2":
		s := z.num(0)
		for _, a := range m.args {
			s = z.add(s, z.exp(a))
		}
		return s
	}
	return z.exp(m)
}

func (q *cmpr) note(what string, got, want *Form, path []string) {
	if q.why != "" && what != "differs" {
		return
	}
	s := what
	if got != nil {
		s = fmt.Sprintf("computes %s, expected %s", got, want)
		if what != "differs" {
			s = what + ": " + s
		}
	}
	if len(path) > 0 {
		s += " when " + strings.Join(path, " and ")
	}
	q.why = s
}

func (q *cmpr) leaf(got, want *Form, path []string, fs []fact) verdict {
	z := q.z
	if q.logd {
		got, want = q.infPair(got, fs), q.infPair(want, fs)
		if got == want {
			return same
		}
	}
	if q.logd && !got.opq && !want.opq {
		g, w := z.exp(got), z.exp(want)
		if g == w {
			return same
		}
	}
	if got.op == "coll" && want.op == "coll" && !got.opq && got.args[0] == want.args[0] {
		// collections over the same domain: what each element contributes
		specN++
		it := z.atom("iter", fmt.Sprintf("spec%d", specN))
		return q.rec(z.open(got, it), z.open(want, it), path, fs)
	}
	if got.opq || want.opq || q.soft(got, want) {
		q.note("not understood", got, want, path)
		return unknown
	}
	q.note("differs", got, want, path)
	return different
}

// soft: got depends on the result of something the analysis knows nothing about.
func (q *cmpr) soft(got, want *Form) bool {
	known := map[*Form]bool{}
	want.walk(func(f *Form) { known[f] = true })
	for _, k := range q.known {
		k.walk(func(f *Form) { known[f] = true })
	}
	bad := false
	got.walk(func(f *Form) {
		if known[f] {
			return
		}
		switch f.op {
		case "b":
			// a product that is cut short at an impossible factor
			if f.sym == "earlyinf" && want.op == "sum" {
				bad = true
			}
		case "site":
			// a random number is no mystery
			if c, ok := siteInfo[f.sym].(*ssa.Call); ok && c.Common().StaticCallee() != nil && strings.HasSuffix(c.Common().StaticCallee().String(), "gospn/sys.RandIntn") {
				return
			}
			bad = true
		case "apply", "coll", "srch", "clo", "x":
			bad = true
		case "call":
			if strings.Contains(f.sym, "gospn") {
				bad = true
			}
		}
	})
	return bad
}
