package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// Form is the canonical form of a computed value: a polynomial over atoms, where atoms are loads,
// calls, logarithms, exponentials and reductions over loops, or a decision tree over conditions
// whose leaves are such polynomials. Forms are built bottom-up from the SSA form (value.go); two
// values with the same key are equal whenever the memory they read is the same. Forms never depend
// on names, on the order of commutative operations, on the kind of loop used or on how the code is
// split into functions.
type Form struct {
	op, sym string
	args    []*Form
	mons    []mono // op "poly"
	key     string
	opq     bool // something in it was not understood
	bv      int  // highest bound variable inside
	iters   map[string]bool
}

type mono struct {
	c  *big.Rat
	at []power
}

type power struct {
	f *Form
	e int
}

type forms struct {
	tab    map[string]*Form
	rm     map[string]*Form
	nfresh int
	nint   int
	// when to give up
	deadline time.Time
}

func newForms() *forms { return &forms{tab: map[string]*Form{}, rm: map[string]*Form{}} }

func (m mono) key() string {
	var s []string
	for _, p := range m.at {
		if p.e == 1 {
			s = append(s, p.f.key)
		} else {
			s = append(s, fmt.Sprintf("%s^%d", p.f.key, p.e))
		}
	}
	return strings.Join(s, "*")
}

func (z *forms) intern(f *Form) *Form {
	if z.nint++; z.nint%16 == 0 && !z.deadline.IsZero() && time.Now().After(z.deadline) {
		timedOut = true
		panic(outOfTime)
	}
	if g, ok := z.tab[f.key]; ok {
		return g
	}
	sub := append([]*Form{}, f.args...)
	for _, m := range f.mons {
		for _, p := range m.at {
			sub = append(sub, p.f)
		}
	}
	if f.op == "opq" || f.op == "acc" {
		f.opq = true
	}
	if f.op == "bv" {
		fmt.Sscan(f.sym, &f.bv)
	}
	if f.op == "iter" {
		f.iters = map[string]bool{f.key: true}
	}
	for _, g := range sub {
		if g.opq {
			f.opq = true
		}
		if g.bv > f.bv {
			f.bv = g.bv
		}
		for k := range g.iters {
			if f.iters == nil {
				f.iters = map[string]bool{}
			}
			f.iters[k] = true
		}
	}
	if len(f.key) > maxKey && f.op != "opq" {
		return z.opaque("form too large")
	}
	z.tab[f.key] = f
	return f
}

// Forms beyond this size are given up (the largest one on the original tree has 30 kB).
const maxKey = 200000

// tryTime bounds one obligation, allTime everything after which no obligation gets more time.
const (
	tryTime   = 40 * time.Second
	outOfTime = "out of time"
)

// timedOut: some obligation was given up for lack of time.
var timedOut bool

var allTime = time.Now().Add(400 * time.Second)

// budget gives the obligation that starts now its time; the result ends it.
func (z *forms) budget() func() {
	if !z.deadline.IsZero() {
		return func() {}
	}
	z.deadline = time.Now().Add(tryTime)
	if allTime.Before(z.deadline) {
		z.deadline = allTime
	}
	return func() { z.deadline = time.Time{} }
}

func (z *forms) atom(op, sym string, args ...*Form) *Form {
	var ks []string
	for _, x := range args {
		ks = append(ks, x.key)
	}
	k := op + ":" + sym
	if len(args) > 0 {
		k += "(" + strings.Join(ks, ",") + ")"
	}
	return z.intern(&Form{op: op, sym: sym, args: args, key: k})
}

func (z *forms) opaque(why string) *Form { return z.atom("opq", why) }

func (z *forms) poly(ms []mono) *Form {
	by := map[string]*mono{}
	for i := range ms {
		m := ms[i]
		k := m.key()
		if o, ok := by[k]; ok {
			o.c = new(big.Rat).Add(o.c, m.c)
		} else {
			n := mono{new(big.Rat).Set(m.c), m.at}
			by[k] = &n
		}
	}
	var ks []string
	for k, m := range by {
		if m.c.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(ks) == 1 && ks[0] != "" {
		m := by[ks[0]]
		if m.c.Cmp(big.NewRat(1, 1)) == 0 && len(m.at) == 1 && m.at[0].e == 1 {
			return m.at[0].f
		}
	}
	if len(ks) > 400 {
		return z.opaque("polynomial too large")
	}
	var out []mono
	var s []string
	for _, k := range ks {
		out = append(out, *by[k])
		s = append(s, by[k].c.RatString()+"·"+k)
	}
	return z.intern(&Form{op: "poly", mons: out, key: "{" + strings.Join(s, " + ") + "}"})
}

func (z *forms) num(n int64) *Form { return z.rat(big.NewRat(n, 1)) }

func (z *forms) rat(r *big.Rat) *Form {
	if r.Sign() == 0 {
		return z.poly(nil)
	}
	return z.poly([]mono{{r, nil}})
}

func (f *Form) constant() (*big.Rat, bool) {
	if f.op != "poly" {
		return nil, false
	}
	if len(f.mons) == 0 {
		return new(big.Rat), true
	}
	if len(f.mons) == 1 && len(f.mons[0].at) == 0 {
		return f.mons[0].c, true
	}
	return nil, false
}

func (f *Form) isNum(n int64) bool {
	c, ok := f.constant()
	return ok && c.Cmp(big.NewRat(n, 1)) == 0
}

func (f *Form) monos() []mono {
	if f.op == "poly" {
		return f.mons
	}
	return []mono{{big.NewRat(1, 1), []power{{f, 1}}}}
}

const negInf, posInf = "-inf", "+inf"

func (z *forms) inf(neg bool) *Form {
	if neg {
		return z.atom("const", negInf)
	}
	return z.atom("const", posInf)
}

func (f *Form) isInf() bool { return f.op == "const" && (f.sym == negInf || f.sym == posInf) }

func (z *forms) add(x, y *Form) *Form {
	return z.lift2(x, y, func(x, y *Form) *Form {
		if x.isInf() && !y.isInf() {
			return x
		}
		if y.isInf() && !x.isInf() {
			return y
		}
		return z.poly(append(append([]mono{}, x.monos()...), y.monos()...))
	})
}

func (z *forms) scale(x *Form, r *big.Rat) *Form {
	return z.lift1(x, func(x *Form) *Form {
		if x.isInf() && r.Sign() != 0 {
			return z.inf((x.sym == negInf) == (r.Sign() > 0))
		}
		var ms []mono
		for _, m := range x.monos() {
			ms = append(ms, mono{new(big.Rat).Mul(m.c, r), m.at})
		}
		return z.poly(ms)
	})
}

func (z *forms) neg(x *Form) *Form    { return z.scale(x, big.NewRat(-1, 1)) }
func (z *forms) sub(x, y *Form) *Form { return z.add(x, z.neg(y)) }

func mulMono(a, b mono) mono {
	e := map[string]*power{}
	var ks []string
	for _, p := range append(append([]power{}, a.at...), b.at...) {
		if o, ok := e[p.f.key]; ok {
			o.e += p.e
		} else {
			q := p
			e[p.f.key] = &q
			ks = append(ks, p.f.key)
		}
	}
	sort.Strings(ks)
	var at []power
	for _, k := range ks {
		if e[k].e != 0 {
			at = append(at, *e[k])
		}
	}
	return mono{new(big.Rat).Mul(a.c, b.c), at}
}

func (z *forms) mul(x, y *Form) *Form {
	return z.lift2(x, y, func(x, y *Form) *Form {
		// sums raised to a negative power are kept as atoms; cancel x * (1/x)
		if g := z.cancel(x, y); g != nil {
			return g
		}
		a, b := x.monos(), y.monos()
		if len(a)*len(b) > 400 {
			return z.opaque("product too large")
		}
		var ms []mono
		for _, m := range a {
			for _, n := range b {
				ms = append(ms, mulMono(m, n))
			}
		}
		return z.poly(ms)
	})
}

// cancel handles (p) * (.../p): a sum times a monomial holding its inverse.
func (z *forms) cancel(x, y *Form) *Form {
	for i := 0; i < 2; i++ {
		if x.op == "poly" && len(x.mons) > 1 && y.op != "ite" {
			ms := y.monos()
			if len(ms) == 1 {
				for j, p := range ms[0].at {
					if p.f.key == "sum:("+x.key+")" || (p.f.op == "pol" && p.f.args[0] == x) {
						at := append([]power{}, ms[0].at...)
						at[j].e++
						var n []power
						for _, q := range at {
							if q.e != 0 {
								n = append(n, q)
							}
						}
						if p.e < 0 {
							return z.poly([]mono{{ms[0].c, n}})
						}
					}
				}
			}
		}
		x, y = y, x
	}
	return nil
}

func (z *forms) inv(x *Form) *Form {
	return z.lift1(x, func(x *Form) *Form {
		ms := x.monos()
		if len(ms) == 1 && ms[0].c.Sign() != 0 {
			m := ms[0]
			n := mono{new(big.Rat).Inv(m.c), nil}
			for _, p := range m.at {
				n.at = append(n.at, power{p.f, -p.e})
			}
			return z.poly([]mono{n})
		}
		if len(ms) == 0 {
			return z.opaque("division by zero")
		}
		// content: make the leading coefficient 1 so that p and 2p share an inverse
		c := ms[0].c
		p := z.scale(x, new(big.Rat).Inv(c))
		return z.poly([]mono{{new(big.Rat).Inv(c), []power{{z.atom("pol", "", p), -1}}}})
	})
}

func (z *forms) div(x, y *Form) *Form { return z.mul(x, z.inv(y)) }

func (z *forms) log(x *Form) *Form {
	return z.lift1(x, func(x *Form) *Form {
		ms := x.monos()
		if len(ms) == 0 {
			return z.inf(true)
		}
		if len(ms) > 1 {
			return z.atom("log", "", x)
		}
		m := ms[0]
		var out []mono
		for _, p := range m.at {
			if p.f.op == "exp" {
				for _, n := range p.f.args[0].monos() {
					out = append(out, mono{new(big.Rat).Mul(n.c, big.NewRat(int64(p.e), 1)), n.at})
				}
			} else {
				g := p.f
				if g.op == "pol" {
					g = g.args[0]
				}
				out = append(out, mono{big.NewRat(int64(p.e), 1), []power{{z.atom("log", "", g), 1}}})
			}
		}
		if m.c.Cmp(big.NewRat(1, 1)) != 0 {
			out = append(out, mono{big.NewRat(1, 1), []power{{z.atom("log", "", z.rat(m.c)), 1}}})
		}
		return z.poly(out)
	})
}

func (z *forms) exp(x *Form) *Form {
	return z.lift1(x, func(x *Form) *Form {
		if x.isInf() {
			if x.sym == negInf {
				return z.num(0)
			}
			return x
		}
		res := z.num(1)
		for _, m := range x.monos() {
			if len(m.at) == 0 {
				res = z.mul(res, z.atom("exp", "", z.rat(m.c)))
				continue
			}
			e := 1
			one := mono{m.c, m.at}
			if m.c.IsInt() && m.c.Num().IsInt64() {
				n := m.c.Num().Int64()
				if n > -20 && n < 20 && n != 0 {
					e = int(n)
					one = mono{big.NewRat(1, 1), m.at}
				}
			}
			if e != 0 && len(one.at) == 1 && one.at[0].e == 1 && one.at[0].f.op == "log" && one.c.Cmp(big.NewRat(1, 1)) == 0 {
				// exp(log p) = p
				p := one.at[0].f.args[0]
				if e < 0 {
					p = z.inv(p)
					e = -e
				}
				for i := 0; i < e; i++ {
					res = z.mul(res, p)
				}
				continue
			}
			b := z.poly([]mono{one})
			res = z.mul(res, z.poly([]mono{{big.NewRat(1, 1), []power{{z.atom("exp", "", b), e}}}}))
		}
		return res
	})
}

// ---- conditions and decision trees ----

func (z *forms) tru() *Form { return z.atom("const", "true") }
func (z *forms) fls() *Form { return z.atom("const", "false") }

func (z *forms) boolc(b bool) *Form {
	if b {
		return z.tru()
	}
	return z.fls()
}

func isTrue(f *Form) bool  { return f.op == "const" && f.sym == "true" }
func isFalse(f *Form) bool { return f.op == "const" && f.sym == "false" }

func (z *forms) not(f *Form) *Form { return z.ite(f, z.fls(), z.tru()) }

// condRank orders the conditions of decision trees: conditions fixed for a loop come first.
func condLess(a, b *Form) bool {
	ra, rb := 0, 0
	if a.bv > 0 || len(a.iters) > 0 {
		ra = 1
	}
	if b.bv > 0 || len(b.iters) > 0 {
		rb = 1
	}
	if ra != rb {
		return ra < rb
	}
	return a.key < b.key
}

// implied: does knowing c==v decide d?
func implied(c *Form, v bool, d *Form) (val, known bool) {
	if c == d {
		return v, true
	}
	if v && c.op == "eq" && d.op == "eq" {
		// equal to one constant: not equal to another
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if c.args[i] == d.args[j] && isConstForm(c.args[1-i]) && isConstForm(d.args[1-j]) && c.args[1-i] != d.args[1-j] {
					return false, true
				}
			}
		}
	}
	// p >= 0 and q >= 0 where q = p + positive constant
	if c.op == "ge0" && d.op == "ge0" {
		if diff, ok := constDiff(d.args[0], c.args[0]); ok {
			if v && diff.Sign() >= 0 {
				return true, true
			}
			if !v && diff.Sign() <= 0 {
				return false, true
			}
		}
	}
	if c.op == "eq0" && d.op == "ge0" && v {
		if diff, ok := constDiff(d.args[0], c.args[0]); ok {
			return diff.Sign() >= 0, true
		}
		if s, ok := constSum(d.args[0], c.args[0]); ok {
			return s.Sign() >= 0, true
		}
	}
	if c.op == "eq0" && d.op == "eq0" && v {
		if diff, ok := constDiff(d.args[0], c.args[0]); ok && diff.Sign() != 0 {
			return false, true
		}
	}
	if c.op == "eq0" && d.op == "gt0" && v {
		if diff, ok := constDiff(d.args[0], c.args[0]); ok {
			return diff.Sign() > 0, true
		}
		if s, ok := constSum(d.args[0], c.args[0]); ok {
			return s.Sign() > 0, true
		}
	}
	if c.op == "gt0" && d.op == "eq0" && v {
		if diff, ok := constDiff(d.args[0], c.args[0]); ok && diff.Sign() >= 0 {
			return false, true
		}
		if s, ok := constSum(d.args[0], c.args[0]); ok && s.Sign() <= 0 {
			return false, true
		}
	}
	if c.op == "ge0" && d.op == "eq0" {
		if diff, ok := constDiff(d.args[0], c.args[0]); ok && ((v && diff.Sign() > 0) || (!v && diff.Sign() <= 0)) {
			return false, true
		}
		if s, ok := constSum(d.args[0], c.args[0]); ok && ((v && s.Sign() < 0) || (!v && s.Sign() >= 0)) {
			return false, true
		}
	}
	if c.op == "gt0" && d.op == "gt0" {
		if diff, ok := constDiff(d.args[0], c.args[0]); ok {
			if v && diff.Sign() >= 0 {
				return true, true
			}
			if !v && diff.Sign() <= 0 {
				return false, true
			}
		}
	}
	if c.op == "gt0" && d.op == "gt0" && v {
		// p > 0 excludes -p > 0
		if s, ok := constSum(d.args[0], c.args[0]); ok && s.Sign() <= 0 {
			return false, true
		}
	}
	return false, false
}

func isConstForm(f *Form) bool {
	if f.op == "const" {
		return true
	}
	_, ok := f.constant()
	return ok
}

func constDiff(a, b *Form) (*big.Rat, bool) { return constComb(a, b, -1) }
func constSum(a, b *Form) (*big.Rat, bool)  { return constComb(a, b, 1) }

func constComb(a, b *Form, s int64) (*big.Rat, bool) {
	m := map[string]*big.Rat{}
	for _, x := range a.monos() {
		m[x.key()] = new(big.Rat).Set(x.c)
	}
	for _, x := range b.monos() {
		k := x.key()
		if m[k] == nil {
			m[k] = new(big.Rat)
		}
		m[k].Add(m[k], new(big.Rat).Mul(x.c, big.NewRat(s, 1)))
	}
	res := new(big.Rat)
	for k, v := range m {
		if k == "" {
			res = v
		} else if v.Sign() != 0 {
			return nil, false
		}
	}
	return res, true
}

// restrict simplifies f knowing condition c has value v.
func (z *forms) restrict(f, c *Form, v bool) *Form {
	if f.op != "ite" {
		if f == c {
			return z.boolc(v)
		}
		if val, ok := implied(c, v, f); ok && isCondOp(f.op) {
			return z.boolc(val)
		}
		return f
	}
	k := fmt.Sprintf("R|%s|%v|%s", f.key, v, c.key)
	if g, ok := z.rm[k]; ok {
		return g
	}
	var g *Form
	if val, ok := implied(c, v, f.args[0]); ok {
		if val {
			g = z.restrict(f.args[1], c, v)
		} else {
			g = z.restrict(f.args[2], c, v)
		}
	} else {
		g = z.node(f.args[0], z.restrict(f.args[1], c, v), z.restrict(f.args[2], c, v))
	}
	z.rm[k] = g
	return g
}

func isCondOp(op string) bool {
	switch op {
	case "ge0", "gt0", "eq0", "eq", "b":
		return true
	}
	return false
}

func (z *forms) node(c, t, e *Form) *Form {
	if t == e {
		return t
	}
	if isTrue(t) && isFalse(e) {
		return c
	}
	if z.special(c, t, e) {
		return e
	}
	return z.atom("ite", "", c, t, e)
}

// special: t is what e gives anyway where c, an equation, holds.
func (z *forms) special(c, t, e *Form) bool {
	if c.opq || e.opq || t.opq || isTrue(t) || isFalse(t) || len(e.key) > 20000 {
		return false
	}
	switch {
	case c.op == "eq" && (isConstForm(c.args[0]) || isConstForm(c.args[1])):
	case c.op == "eq0":
	default:
		return false
	}
	return z.assume(e, c, true) == t
}

// top gives the first condition of a tree, or the atom itself if f is used as a condition.
func top(f *Form, cond bool) *Form {
	if f.op == "ite" {
		return f.args[0]
	}
	if cond && f.op != "const" {
		return f
	}
	return nil
}

// ite builds the decision tree "if c then t else e" with conditions in order.
func (z *forms) ite(c, t, e *Form) *Form {
	if isTrue(c) {
		return t
	}
	if isFalse(c) {
		return e
	}
	if t == e {
		return t
	}
	if c.op == "opq" {
		return z.opaque("condition not understood")
	}
	boolRes := (isTrue(t) || isFalse(t) || isCondOp(t.op) || (t.op == "ite" && isBoolTree(t))) && (isTrue(e) || isFalse(e) || isCondOp(e.op) || (e.op == "ite" && isBoolTree(e)))
	k := fmt.Sprintf("I|%s|%s|%s", c.key, t.key, e.key)
	if g, ok := z.rm[k]; ok {
		return g
	}
	var best *Form
	for _, x := range []*Form{top(c, true), top(t, boolRes), top(e, boolRes)} {
		if x != nil && (best == nil || condLess(x, best)) {
			best = x
		}
	}
	if len(k) > 200000 {
		return z.opaque("decision tree too large")
	}
	hi := z.ite(z.restrict(c, best, true), z.restrict(t, best, true), z.restrict(e, best, true))
	lo := z.ite(z.restrict(c, best, false), z.restrict(t, best, false), z.restrict(e, best, false))
	g := z.node(best, hi, lo)
	z.rm[k] = g
	return g
}

func isBoolTree(f *Form) bool {
	for f.op == "ite" {
		f = f.args[1]
	}
	return isTrue(f) || isFalse(f) || isCondOp(f.op)
}

func (z *forms) lift1(x *Form, fn func(*Form) *Form) *Form {
	if x.op == "ite" {
		return z.ite(x.args[0], z.lift1(x.args[1], fn), z.lift1(x.args[2], fn))
	}
	return fn(x)
}

func (z *forms) lift2(x, y *Form, fn func(x, y *Form) *Form) *Form {
	var c *Form
	if x.op == "ite" {
		c = x.args[0]
	}
	if y.op == "ite" && (c == nil || condLess(y.args[0], c)) {
		c = y.args[0]
	}
	if c == nil {
		return fn(x, y)
	}
	hi := z.lift2(z.restrict(x, c, true), z.restrict(y, c, true), fn)
	lo := z.lift2(z.restrict(x, c, false), z.restrict(y, c, false), fn)
	return z.ite(c, hi, lo)
}

func (z *forms) liftN(xs []*Form, fn func([]*Form) *Form) *Form {
	for i, x := range xs {
		if x.op == "ite" {
			c := x.args[0]
			sub := func(v bool) *Form {
				ys := make([]*Form, len(xs))
				for j := range xs {
					ys[j] = z.restrict(xs[j], c, v)
				}
				return z.liftN(ys, fn)
			}
			_ = i
			return z.ite(c, sub(true), sub(false))
		}
	}
	return fn(xs)
}

func leadNeg(f *Form) bool {
	for _, m := range f.monos() {
		if m.key() != "" {
			return m.c.Sign() < 0
		}
	}
	return false
}

// lenAtom: the form is one length, which is never negative.
func lenAtom(f *Form) bool { return f.op == "len" || f.op == "mod" && nonNeg(f.args[0]) }

// nonNeg: an integer that is a sum of products of counts.
func nonNeg(f *Form) bool {
	for _, m := range f.monos() {
		if m.c.Sign() < 0 {
			return false
		}
		for _, p := range m.at {
			if p.e < 0 || p.f.op != "len" && p.f.op != "iter" {
				return false
			}
		}
	}
	return true
}

// ge0: p >= 0 over integers.
func (z *forms) ge0(p *Form) *Form {
	if c, ok := p.constant(); ok {
		return z.boolc(c.Sign() >= 0)
	}
	if p.opq {
		un := false
		p.walk(func(d *Form) {
			if d.op == "opq" {
				un = true
			}
		})
		if un {
			return z.opaque("comparison not understood")
		}
	}
	// lengths: len >= 0 holds, len >= 1 is len != 0
	if ms := p.monos(); len(ms) <= 2 {
		var l *Form
		k := new(big.Rat)
		co := new(big.Rat)
		okk := true
		for _, m := range ms {
			switch {
			case len(m.at) == 0:
				k = m.c
			case len(m.at) == 1 && m.at[0].e == 1 && lenAtom(m.at[0].f):
				l, co = m.at[0].f, m.c
			default:
				okk = false
			}
		}
		if okk && l != nil {
			one := big.NewRat(1, 1)
			if co.Cmp(one) == 0 {
				if k.Sign() >= 0 {
					return z.tru()
				}
				if k.Cmp(big.NewRat(-1, 1)) == 0 {
					return z.not(z.eq0(l))
				}
			}
			if co.Cmp(big.NewRat(-1, 1)) == 0 && k.Sign() == 0 {
				return z.eq0(l)
			}
		}
	}
	if leadNeg(p) {
		return z.not(z.atom("ge0", "", z.sub(z.neg(p), z.num(1))))
	}
	return z.atom("ge0", "", p)
}

// gt0: p > 0 over the reals.
func (z *forms) gt0(p *Form) *Form {
	if c, ok := p.constant(); ok {
		return z.boolc(c.Sign() > 0)
	}
	if p.isInf() {
		return z.boolc(p.sym == posInf)
	}
	// max(a,b) - a > 0 is b - a > 0, and a - min(a,b) > 0 is a - b > 0
	for _, m := range p.monos() {
		if len(m.at) != 1 || m.at[0].e != 1 || len(m.at[0].f.args) != 2 {
			continue
		}
		f := m.at[0].f
		if (f.op == "max2" && m.c.Cmp(big.NewRat(1, 1)) == 0) || (f.op == "min2" && m.c.Cmp(big.NewRat(-1, 1)) == 0) {
			for i := 0; i < 2; i++ {
				if f.args[i].isInf() || f.args[1-i].isInf() {
					continue
				}
				if f.op == "max2" && z.sub(f, f.args[i]) == p {
					return z.gt0(z.sub(f.args[1-i], f.args[i]))
				}
				if f.op == "min2" && z.sub(f.args[i], f) == p {
					return z.gt0(z.sub(f.args[i], f.args[1-i]))
				}
			}
		}
	}
	return z.atom("gt0", "", p)
}

func (z *forms) eq0(p *Form) *Form {
	if c, ok := p.constant(); ok {
		return z.boolc(c.Sign() == 0)
	}
	// max(a,b) = a unless b > a, min(a,b) = a unless b < a
	for _, m := range p.monos() {
		if len(m.at) != 1 || m.at[0].e != 1 || len(m.at[0].f.args) != 2 {
			continue
		}
		f := m.at[0].f
		if f.op != "max2" && f.op != "min2" {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.args[i], f.args[1-i]
			if a.isInf() || b.isInf() {
				continue
			}
			if d := z.sub(f, a); d == p || z.neg(d) == p {
				if f.op == "max2" {
					return z.not(z.gt0(z.sub(b, a)))
				}
				return z.not(z.gt0(z.sub(a, b)))
			}
		}
	}
	if p.isInf() {
		return z.fls()
	}
	if leadNeg(p) {
		p = z.neg(p)
	}
	return z.atom("eq0", "", p)
}

func (z *forms) eq(x, y *Form) *Form {
	return z.lift2(x, y, func(x, y *Form) *Form {
		if x == y {
			return z.tru()
		}
		if x.op == "const" && y.op == "const" {
			return z.fls()
		}
		if isTrue(y) || isFalse(y) {
			x, y = y, x
		}
		if isTrue(x) {
			return y
		}
		if isFalse(x) {
			return z.not(y)
		}
		if y.key < x.key {
			x, y = y, x
		}
		return z.atom("eq", "", x, y)
	})
}

// cmp builds x op y.
func (z *forms) cmp(op string, x, y *Form, integer bool) *Form {
	return z.lift2(x, y, func(x, y *Form) *Form {
		if x.isInf() || y.isInf() {
			if x.isInf() && y.isInf() {
				same := x == y
				switch op {
				case "<":
					return z.boolc(!same && x.sym == negInf)
				case "<=":
					return z.boolc(same || x.sym == negInf)
				}
			}
			// a comparison with an infinity
			inf, o, left := x, y, true
			if y.isInf() {
				inf, o, left = y, x, false
			}
			_ = o
			switch op {
			case "<=":
				if (inf.sym == negInf) == left {
					return z.tru()
				}
				return z.atom("eq", "", inf, o)
			case "<":
				if (inf.sym == negInf) != left {
					return z.fls()
				}
				return z.not(z.atom("eq", "", inf, o))
			}
		}
		d := z.sub(y, x)
		if integer {
			if op == "<" {
				return z.ge0(z.sub(d, z.num(1)))
			}
			return z.ge0(d)
		}
		if op == "<" {
			return z.gt0(d)
		}
		return z.not(z.gt0(z.neg(d)))
	})
}

// ---- substitution ----

// subst replaces atoms and rebuilds the canonical form.
func (z *forms) subst(f *Form, m map[string]*Form) *Form {
	if len(m) == 0 {
		return f
	}
	return z.rewrite(f, func(d *Form) *Form { return m[d.key] })
}

// rewrite replaces the forms to which fn gives another and rebuilds the canonical form.
func (z *forms) rewrite(f *Form, fn func(*Form) *Form) *Form {
	memo := map[*Form]*Form{}
	inside := map[*Form]bool{}
	var hit func(f *Form) bool
	hit = func(f *Form) bool {
		if b, ok := inside[f]; ok {
			return b
		}
		b := fn(f) != nil
		for _, a := range f.args {
			b = hit(a) || b
		}
		for _, mo := range f.mons {
			for _, p := range mo.at {
				b = hit(p.f) || b
			}
		}
		inside[f] = b
		return b
	}
	var rec func(f *Form) *Form
	rec = func(f *Form) *Form {
		if g := fn(f); g != nil {
			return g
		}
		if !hit(f) {
			return f
		}
		if g, ok := memo[f]; ok {
			return g
		}
		var g *Form
		switch f.op {
		case "poly":
			g = z.num(0)
			for _, mo := range f.mons {
				t := z.rat(mo.c)
				for _, p := range mo.at {
					b := rec(p.f)
					if p.f.op == "pol" {
						b = rec(p.f.args[0])
					}
					e := p.e
					if e < 0 {
						b = z.inv(b)
						e = -e
					}
					for i := 0; i < e; i++ {
						t = z.mul(t, b)
					}
				}
				g = z.add(g, t)
			}
		default:
			if len(f.args) == 0 {
				g = f
				break
			}
			if isBinder(f) {
				// open the bound variable and close again
				it := z.fresh()
				body := rec(z.subst(f.args[2], map[string]*Form{f.args[1].key: it}))
				dom := rec(f.args[0])
				if dom.opq || body.opq {
					g = z.opaque("reduction")
					break
				}
				switch {
				case f.op == "arr":
					g = z.mkArr(dom, it, body)
				case f.op == "b":
					g = z.lift1(dom, func(d *Form) *Form { return z.any(d, it, body) })
				case f.op == "coll":
					g = z.lift1(dom, func(d *Form) *Form { return z.binder("coll", "", d, it, body) })
				case f.op == "argidx":
					in := rec(f.args[3])
					g = z.argidx(f.sym, dom, it, body, in)
				default:
					if dom.isNum(0) {
						g = z.empty(f.op)
					} else {
						g = z.reduce(f.op, dom, it, body)
					}
				}
				break
			}
			as := make([]*Form, len(f.args))
			ch := false
			for i, x := range f.args {
				as[i] = rec(x)
				if as[i] != x {
					ch = true
				}
			}
			if !ch {
				g = f
			} else {
				g = z.rebuild(f, as)
			}
		}
		memo[f] = g
		return g
	}
	return rec(f)
}

func (z *forms) rebuild(f *Form, as []*Form) *Form {
	if (f.op == "mod" || f.op == "idiv") && len(as) == 2 {
		a, ok1 := as[0].constant()
		b, ok2 := as[1].constant()
		if ok1 && ok2 && b.Sign() != 0 && a.IsInt() && b.IsInt() {
			q, r := new(big.Int).QuoRem(a.Num(), b.Num(), new(big.Int))
			if f.op == "idiv" {
				return z.rat(new(big.Rat).SetInt(q))
			}
			return z.rat(new(big.Rat).SetInt(r))
		}
	}
	switch f.op {
	case "ite":
		return z.ite(as[0], as[1], as[2])
	case "log":
		return z.log(as[0])
	case "exp":
		return z.exp(as[0])
	case "ge0":
		return z.lift1(as[0], z.ge0)
	case "gt0":
		return z.lift1(as[0], z.gt0)
	case "eq0":
		return z.lift1(as[0], z.eq0)
	case "eq":
		return z.eq(as[0], as[1])
	case "max2", "min2":
		return z.extr(f.op, as...)
	case "srch":
		return z.atom(f.op, f.sym, as...)
	case "idx":
		return z.idx(as[0], as[1])
	case "len":
		return z.length(as[0])
	case "append":
		return z.appendForm(as[0], as[1])
	case "pol":
		return as[0]
	}
	return z.liftN(as, func(as []*Form) *Form { return z.atom(f.op, f.sym, as...) })
}

// extr is the n-ary maximum or minimum.
func (z *forms) extr(op string, xs ...*Form) *Form {
	return z.liftN(xs, func(xs []*Form) *Form {
		set := map[string]*Form{}
		neutral := negInf
		if op == "min2" {
			neutral = posInf
		}
		var flat func(f *Form)
		flat = func(f *Form) {
			if f.op == op {
				for _, g := range f.args {
					flat(g)
				}
				return
			}
			if f.op == "const" && f.sym == neutral {
				return
			}
			set[f.key] = f
		}
		for _, x := range xs {
			flat(x)
		}
		var ks []string
		for k := range set {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 {
			return z.atom("const", neutral)
		}
		// a term of a maximum next to that maximum
		for _, k := range ks {
			f := set[k]
			if f == nil || f.op != op[:3] || len(f.args) != 3 || isDom(f.args[0]) {
				continue
			}
			for _, j := range []*Form{z.num(0), z.sub(f.args[0], z.num(1))} {
				if t := z.open(f, j); set[t.key] != nil && t != f {
					delete(set, t.key)
				}
			}
		}
		var as []*Form
		for _, k := range ks {
			if set[k] != nil {
				as = append(as, set[k])
			}
		}
		if len(as) == 1 {
			return as[0]
		}
		return z.atom(op, "", as...)
	})
}

// ---- reductions ----

func (f *Form) has(it *Form) bool { return f.iters[it.key] }

// isBinder: the atom binds a variable: (domain, variable, body, ...).
func isBinder(f *Form) bool {
	switch f.op {
	case "sum", "prod", "max", "min", "arr", "coll", "argidx":
		return true
	}
	return f.op == "b" && f.sym == "any"
}

func (z *forms) fresh() *Form {
	z.nfresh++
	return z.atom("iter", fmt.Sprintf("open%d", z.nfresh))
}

// empty: a reduction over nothing.
func (z *forms) empty(op string) *Form {
	switch op {
	case "sum":
		return z.num(0)
	case "prod":
		return z.num(1)
	}
	return z.inf(op == "max")
}

func (z *forms) binder(op, sym string, dom, it, body *Form, more ...*Form) *Form {
	b, bv := z.bind(body, it)
	return z.atom(op, sym, append([]*Form{dom, bv, b}, more...)...)
}

// argidx: an index at which the body is extreme, starting from in.
func (z *forms) argidx(op string, dom, it, body, in *Form) *Form {
	return z.liftN([]*Form{dom, in}, func(a []*Form) *Form {
		return z.binder("argidx", op, a[0], it, z.within(body, it, a[0]), a[1])
	})
}

// open instantiates the body of a binder.
func (z *forms) open(f, at *Form) *Form {
	return z.subst(f.args[2], map[string]*Form{f.args[1].key: at})
}

// within simplifies a body knowing that the counter runs from zero to dom-1.
func (z *forms) within(body, it, dom *Form) *Form {
	if isDom(dom) || dom.op == "ite" {
		return body
	}
	any := false
	body.walk(func(d *Form) {
		if (d.op == "ge0" || d.op == "eq0") && d.has(it) {
			any = true
		}
	})
	if !any {
		return body
	}
	for _, c := range []*Form{z.ge0(it), z.ge0(z.sub(z.sub(dom, z.num(1)), it))} {
		pos := true
		for c.op == "ite" && isFalse(c.args[1]) && isTrue(c.args[2]) {
			c, pos = c.args[0], !pos
		}
		if c.op == "ge0" {
			body = z.assume(body, c, pos)
		}
	}
	return body
}

// bind closes a form over a loop counter: the counter becomes a bound variable.
func (z *forms) bind(f, it *Form) (*Form, *Form) {
	b := z.atom("bv", fmt.Sprint(f.bv+1))
	return z.subst(f, map[string]*Form{it.key: b}), b
}

// reduce builds op over the iterations of a loop. dom is the number of iterations, or another
// description of what is iterated over.
func (z *forms) reduce(op string, dom, it, body *Form) *Form {
	if dom.isNum(1) {
		return z.subst(body, map[string]*Form{it.key: z.num(0)})
	}
	if c, ok := dom.constant(); ok && c.IsInt() && c.Sign() > 0 && c.Cmp(big.NewRat(4, 1)) <= 0 && !body.opq {
		// a few terms
		at := func(i int64) *Form { return z.subst(body, map[string]*Form{it.key: z.num(i)}) }
		f := at(0)
		for i := int64(1); i < c.Num().Int64(); i++ {
			switch op {
			case "sum":
				f = z.add(f, at(i))
			case "prod":
				f = z.mul(f, at(i))
			case "max", "min":
				f = z.extr(op+"2", f, at(i))
			}
		}
		switch op {
		case "sum", "prod", "max", "min":
			return f
		}
	}
	if !isDom(dom) && dom.op != "ite" && !body.opq && body.has(it) {
		// counted from the other end
		switch op {
		case "sum", "prod", "max", "min":
			back := z.sub(z.sub(dom, z.num(1)), it)
			rev := func(f *Form) bool {
				b := false
				f.walk(func(d *Form) {
					if d.op == "idx" && d.args[1] == back {
						b = true
					}
				})
				return b
			}
			if rev(body) {
				if g := z.subst(body, map[string]*Form{it.key: back}); !rev(g) {
					body = g
				}
			}
		}
	}
	body = z.within(body, it, dom)
	if body.op == "ite" && !body.args[0].has(it) {
		return z.ite(body.args[0], z.reduce(op, dom, it, body.args[1]), z.reduce(op, dom, it, body.args[2]))
	}
	if dom.op == "ite" {
		return z.lift1(dom, func(d *Form) *Form { return z.reduce(op, d, it, body) })
	}
	if op == "sum" && body.op != "ite" {
		res := z.num(0)
		for _, m := range body.monos() {
			free, dep := mono{m.c, nil}, mono{big.NewRat(1, 1), nil}
			for _, p := range m.at {
				if p.f.has(it) {
					dep.at = append(dep.at, p)
				} else {
					free.at = append(free.at, p)
				}
			}
			ff := z.poly([]mono{free})
			if len(dep.at) == 0 {
				if isDom(dom) {
					ff = z.mul(ff, z.atom("count", "", dom))
				} else {
					ff = z.mul(ff, dom)
				}
			} else {
				ff = z.mul(ff, z.close("sum", dom, it, z.poly([]mono{dep})))
			}
			res = z.add(res, ff)
		}
		return res
	}
	if op == "sum" && body.op == "ite" {
		if g := z.oneTerm(dom, it, body); g != nil {
			return g
		}
		if g := z.sumTree(dom, it, body); g != nil {
			return g
		}
	}
	if !body.has(it) && (op == "max" || op == "min") {
		return body
	}
	return z.close(op, dom, it, body)
}

// sumTree: a sum of a decision tree, term by term: every product of atoms that occurs in a case is
// summed with the cases it occurs in.
func (z *forms) sumTree(dom, it, body *Form) *Form {
	terms := map[string][]power{}
	bad := false
	var walk func(f *Form)
	walk = func(f *Form) {
		if f.op == "ite" {
			walk(f.args[1])
			walk(f.args[2])
			return
		}
		if f.isInf() || f.opq || f.op == "const" {
			bad = true
			return
		}
		for _, m := range f.monos() {
			terms[m.key()] = m.at
		}
	}
	walk(body)
	if bad || len(terms) > 30 {
		return nil
	}
	var ks []string
	for k := range terms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	res := z.num(0)
	for _, k := range ks {
		coef := z.lift1(body, func(f *Form) *Form {
			for _, m := range f.monos() {
				if m.key() == k {
					return z.rat(m.c)
				}
			}
			return z.num(0)
		})
		free, dep := mono{big.NewRat(1, 1), nil}, mono{big.NewRat(1, 1), nil}
		for _, p := range terms[k] {
			if p.f.has(it) {
				dep.at = append(dep.at, p)
			} else {
				free.at = append(free.at, p)
			}
		}
		if coef.op != "ite" {
			res = z.add(res, z.reduce("sum", dom, it, z.mul(coef, z.poly([]mono{{big.NewRat(1, 1), terms[k]}}))))
			continue
		}
		var lead *big.Rat
		z.lift1(coef, func(f *Form) *Form {
			if c, ok := f.constant(); ok && c.Sign() != 0 {
				if lead == nil {
					lead = c
				} else if d := new(big.Rat).Abs(c).Cmp(new(big.Rat).Abs(lead)); d > 0 || d == 0 && c.Sign() > 0 {
					lead = c
				}
			}
			return f
		})
		if lead == nil {
			continue
		}
		free.c = lead
		t := z.mul(z.scale(coef, new(big.Rat).Inv(lead)), z.poly([]mono{dep}))
		res = z.add(res, z.mul(z.poly([]mono{free}), z.close("sum", dom, it, t)))
	}
	return res
}

// isDom: the domain is not a number of iterations.
func isDom(f *Form) bool { return f.op == "maprange" || f.op == "while" }

func (z *forms) close(op string, dom, it, body *Form) *Form {
	if !isDom(dom) && commutes(op) {
		rev := z.subst(body, map[string]*Form{it.key: z.sub(z.sub(dom, z.num(1)), it)})
		a := z.binder(op, "", dom, it, body)
		b := z.binder(op, "", dom, it, rev)
		if len(b.key) < len(a.key) || (len(b.key) == len(a.key) && b.key < a.key) {
			a = b
		}
		return a
	}
	return z.binder(op, "", dom, it, body)
}

func commutes(op string) bool {
	return op == "sum" || op == "prod" || op == "max" || op == "min" || op == "any"
}

// ---- printing ----

func (f *Form) String() string {
	s := f.show(0)
	if r := []rune(s); len(r) > 300 {
		s = string(r[:300]) + "…"
	}
	return s
}

func (f *Form) show(d int) string {
	if d > 12 {
		return "…"
	}
	switch f.op {
	case "poly":
		if len(f.mons) == 0 {
			return "0"
		}
		var s []string
		for _, m := range f.mons {
			var t []string
			if len(m.at) == 0 || m.c.Cmp(big.NewRat(1, 1)) != 0 {
				t = append(t, m.c.RatString())
			}
			for _, p := range m.at {
				x := p.f.show(d + 1)
				if p.e != 1 {
					x += fmt.Sprintf("^%d", p.e)
				}
				t = append(t, x)
			}
			s = append(s, strings.Join(t, "·"))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "const":
		return f.sym
	case "leaf":
		return f.sym
	case "iter":
		return "i"
	case "bv":
		return "$" + f.sym
	case "idx":
		return f.args[0].show(d+1) + "[" + f.args[1].show(d+1) + "]"
	case "ite":
		return "if(" + f.args[0].show(d+1) + "; " + f.args[1].show(d+1) + "; " + f.args[2].show(d+1) + ")"
	}
	var s []string
	for i, x := range f.args {
		if i == 1 && isBinder(f) {
			continue
		}
		s = append(s, x.show(d+1))
	}
	n := f.op
	if f.sym != "" {
		if f.op == "call" || f.op == "fld" {
			n = f.sym
		} else {
			n += ":" + f.sym
		}
	}
	return n + "(" + strings.Join(s, ", ") + ")"
}

// oneTerm: a sum of which only the term where the counter has a given value is not zero.
func (z *forms) oneTerm(dom, it, body *Form) *Form {
	if isDom(dom) {
		return nil
	}
	seen := map[*Form]bool{}
	var cs []*Form
	var walk func(f *Form)
	walk = func(f *Form) {
		if f.op != "ite" || seen[f] {
			return
		}
		seen[f] = true
		if c := f.args[0]; c.op == "eq0" && c.has(it) {
			cs = append(cs, c)
		}
		walk(f.args[1])
		walk(f.args[2])
	}
	walk(body)
	sort.Slice(cs, func(i, k int) bool { return cs[i].key < cs[k].key })
	for _, c := range cs {
		a, k, ok := linearIn(c.args[0], it)
		if !ok || !k.IsInt() || k.Num().CmpAbs(big.NewInt(1)) != 0 || !z.assume(body, c, false).isNum(0) {
			continue
		}
		t := a
		if k.Sign() > 0 {
			t = z.neg(a)
		}
		x := z.subst(z.assume(body, c, true), map[string]*Form{it.key: t})
		return z.ite(z.ge0(t), z.ite(z.ge0(z.sub(z.sub(dom, z.num(1)), t)), x, z.num(0)), z.num(0))
	}
	return nil
}

// holds: a occurs in f.
func holds(f, a *Form) bool {
	ok := false
	f.walk(func(g *Form) {
		if g == a {
			ok = true
		}
	})
	return ok
}
