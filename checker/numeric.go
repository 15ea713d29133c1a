package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: numeric helpers compute what they are defined to compute, in the log domain without leaving
// the range of floating point numbers.

func init() { reg("C19", checkNumeric) }

type numerics struct{ *fx }

func checkNumeric(r *R) {
	x := &numerics{newFx(r)}
	z := x.z
	r.rule("log-sums equal the logarithm of the sum of their terms, histogram mean and deviation the first moments of the counts, distances the ones of their definition; an exponential that ends up inside a logarithm has the largest term subtracted first, and the largest term is known to be finite where that happens")
	logs := func(rel, name, what string, want func(a []*Form) *Form, known ...*Form) {
		f := r.p.fn(rel, name)
		if f == nil || f.Blocks == nil {
			return
		}
		x.try(rel+"."+name, func() {
			fr := x.vs.root(f)
			x.expect("numeric", what, rel+"."+name, f, x.vs.retForm(fr, 0), want(fr.args), true, known...)
		})
	}
	logs("utils", "LogSum", "log of a sum", func(a []*Form) *Form {
		return z.log(x.over("sum", x.vs.lenOf(a[0]), func(i *Form) *Form { return z.idx(a[0], i) }))
	})
	logs("utils", "LogSumExp", "log of a sum", func(a []*Form) *Form {
		return z.log(x.over("sum", x.vs.lenOf(a[0]), func(i *Form) *Form { return z.exp(z.idx(a[0], i)) }))
	})
	logs("utils", "LogProd", "log of a product", func(a []*Form) *Form {
		return x.over("sum", x.vs.lenOf(a[0]), func(i *Form) *Form { return z.log(z.idx(a[0], i)) })
	})
	logs("utils", "AntiLog", "antilogarithm", func(a []*Form) *Form { return z.exp(a[0]) })
	x.try("utils.LogSumExpPair", func() {
		if f := r.p.fn("utils", "LogSumExpPair"); f != nil {
			fr := x.vs.root(f)
			x.pair("utils.LogSumExpPair", f, x.finite(x.vs.retForm(fr, 0)), z.add(z.exp(fr.args[0]), z.exp(fr.args[1])))
		}
	})
	x.try("utils.LogSumPair", func() {
		if f := r.p.fn("utils", "LogSumPair"); f != nil {
			fr := x.vs.root(f)
			x.pair("utils.LogSumPair", f, x.finite(x.vs.retForm(fr, 0)), z.add(fr.args[0], fr.args[1]))
		}
	})
	x.try("spn.Sum.ComputeHard", func() {
		if f := r.p.method("spn", "Sum", "ComputeHard"); f != nil && len(f.Params) == 3 {
			fr := x.vs.root(f)
			w := x.w(fr.args[0])
			sum := x.over("sum", x.vs.lenOf(fr.args[1]), func(i *Form) *Form { return z.mul(z.idx(w, i), z.exp(z.idx(fr.args[1], i))) })
			x.expect("numeric", "log of a sum", "(*spn.Sum).ComputeHard", f, x.finite(x.vs.retForm(fr, 0)), z.sub(z.log(sum), z.log(fr.args[2])), true)
		}
	})
	// statistics of a histogram
	mean := func(a *Form) (n, m *Form) {
		n = x.over("sum", x.vs.lenOf(a), func(i *Form) *Form { return z.idx(a, i) })
		m = z.div(x.over("sum", x.vs.lenOf(a), func(i *Form) *Form { return z.mul(z.idx(a, i), i) }), n)
		return
	}
	sd := func(a *Form) *Form {
		n, m := mean(a)
		v := z.div(x.over("sum", x.vs.lenOf(a), func(i *Form) *Form { return z.mul(z.idx(a, i), z.mul(i, i)) }), n)
		return z.atom("call", "math.Sqrt.0", z.sub(v, z.mul(m, m)))
	}
	plain := func(rel, name, what string, res int, want func(a []*Form) *Form) {
		f := r.p.fn(rel, name)
		if f == nil || f.Blocks == nil {
			return
		}
		x.try(rel+"."+name, func() {
			fr := x.vs.root(f)
			x.expect("numeric", what, rel+"."+name, f, x.vs.retForm(fr, res), want(fr.args), false)
		})
	}
	plain("utils", "Mean", "mean of a histogram", 0, func(a []*Form) *Form { _, m := mean(a[0]); return m })
	plain("utils", "StdDev", "deviation of a histogram", 0, func(a []*Form) *Form { return sd(a[0]) })
	plain("utils", "MuSigma", "mean of a histogram", 0, func(a []*Form) *Form { _, m := mean(a[0]); return m })
	plain("utils", "MuSigma", "deviation of a histogram", 1, func(a []*Form) *Form { return sd(a[0]) })
	// distances
	for _, n := range []string{"Euclidean", "EuclideanF"} {
		plain("utils/cluster/metrics", n, "euclidean distance", 0, func(a []*Form) *Form {
			return z.atom("call", "math.Sqrt.0", x.over("sum", x.vs.lenOf(a[0]), func(i *Form) *Form {
				d := z.sub(z.idx(a[0], i), z.idx(a[1], i))
				return z.mul(d, d)
			}))
		})
	}
	for _, n := range []string{"Hamming", "HammingF"} {
		plain("utils/cluster/metrics", n, "hamming distance", 0, func(a []*Form) *Form {
			return x.over("sum", x.vs.lenOf(a[0]), func(i *Form) *Form {
				return z.ite(z.eq0(z.sub(z.idx(a[0], i), z.idx(a[1], i))), z.num(0), z.num(1))
			})
		})
	}
	x.stable()
	r.floor("numeric", 1)
}

// finite: the result for terms that are not all zero and not infinite.
func (x *numerics) finite(f *Form) *Form {
	z := x.z
	return z.rewrite(f, func(d *Form) *Form {
		if d.op == "b" && (d.sym == "isinf" || d.sym == "isnan") {
			return z.fls()
		}
		if d.op == "eq" && (d.args[0].isInf() || d.args[1].isInf()) {
			return z.fls()
		}
		return nil
	})
}

// pair: every case of the result is the logarithm of sum.
func (x *numerics) pair(what string, f *ssa.Function, got, sum *Form) {
	z := x.z
	if got.opq {
		x.undecided(what, "not understood")
		return
	}
	got = z.rewrite(got, func(d *Form) *Form {
		if (d.op == "max2" || d.op == "min2") && len(d.args) == 2 {
			a, b := d.args[0], d.args[1]
			if d.op == "min2" {
				a, b = b, a
			}
			return z.ite(z.gt0(z.sub(d.args[0], d.args[1])), a, b)
		}
		return nil
	})
	_, vs := z.splits(got)
	for _, v := range vs {
		if e := z.exp(v); !z.sameRatio(e, sum) {
			x.r.bad("log of a sum", what, x.p.pos(f.Pos()), "the result is "+v.String()+", which is not the logarithm of "+sum.String())
			return
		}
	}
	x.r.ok("numeric", what+" = log("+sum.String()+")")
}

// sameRatio: two rational forms are equal.
func (z *forms) sameRatio(a, b *Form) bool {
	if a == b {
		return true
	}
	d := z.sub(z.div(a, b), z.num(1))
	if c, ok := d.constant(); ok {
		return c.Sign() == 0
	}
	// multiply out denominators
	for n := 0; n < 6; n++ {
		var neg *Form
		for _, m := range d.monos() {
			for _, p := range m.at {
				if p.e < 0 {
					neg = p.f
				}
			}
		}
		if neg == nil {
			break
		}
		d = z.mul(d, neg)
		if c, ok := d.constant(); ok {
			return c.Sign() == 0
		}
	}
	return false
}

// stable: logarithms of sums of exponentials.
func (x *numerics) stable() {
	z := x.z
	for _, f := range x.p.Funcs {
		if f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !x.isLog(c) {
					continue
				}
				seen := map[ssa.Value]bool{}
				var exps []*ssa.Call
				sum := false
				x.terms(c.Call.Args[0], seen, &exps, &sum)
				if len(exps) == 0 || !sum {
					continue
				}
				for _, e := range exps {
					e := e
					x.try(x.p.fname(f), func() { x.shifted(f, e) })
				}
			}
		}
	}
	_ = z
}

func (x *numerics) isLog(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil || len(c.Call.Args) == 0 {
		return false
	}
	switch g.String() {
	case "math.Log", "math.Log1p", "math.Log2", "math.Log10":
		return true
	}
	return x.p.rel(g) == "utils" && g.Name() == "Log"
}

func (x *numerics) isExp(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil || len(c.Call.Args) == 0 {
		return false
	}
	return g.String() == "math.Exp" || x.p.rel(g) == "utils" && g.Name() == "AntiLog"
}

// terms: exponentials a value is built from by arithmetic.
func (x *numerics) terms(v ssa.Value, seen map[ssa.Value]bool, out *[]*ssa.Call, sum *bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Call:
		if x.isExp(y) {
			*out = append(*out, y)
		}
	case *ssa.BinOp:
		if !isFloat(y.Type()) {
			return
		}
		if y.Op == token.ADD || y.Op == token.SUB {
			*sum = true
		}
		x.terms(y.X, seen, out, sum)
		x.terms(y.Y, seen, out, sum)
	case *ssa.Phi:
		for _, e := range y.Edges {
			x.terms(e, seen, out, sum)
		}
	case *ssa.UnOp:
		if y.Op == token.SUB {
			x.terms(y.X, seen, out, sum)
		}
	}
}

// shifted: the argument of the exponential is a difference from the largest term.
func (x *numerics) shifted(f *ssa.Function, e *ssa.Call) {
	z := x.z
	what := x.p.fname(f)
	fr := x.vs.root(f)
	A := x.vs.at(fr, e.Call.Args[0], e.Block())
	if A.opq {
		x.undecided(what, "exponent not understood")
		return
	}
	gs, vs := z.splits(A)
	maxed := false
	g := x.path(fr, e.Block())
	for i, v := range vs {
		if !g.opq && isFalse(z.ite(g, gs[i], z.fls())) {
			continue
		}
		h := gs[i]
		if !g.opq {
			h = z.ite(g, gs[i], z.fls())
		}
		switch x.nonPositive(h, v) {
		case 0:
			x.r.bad("exponent without its largest term", what, x.p.ipos(e), "the exponential of "+v.String()+" is summed inside a logarithm without taking out the largest term: it overflows for large terms and vanishes for very negative ones")
			return
		case 2:
			x.undecided(what, "exponent "+v.String())
			return
		}
		maxed = true
	}
	if !maxed {
		return
	}
	// where the largest term is -inf the difference is not a number
	if g.opq {
		x.undecided(what, "path to the exponential not understood")
		return
	}
	inf := false
	h := z.rewrite(g, func(d *Form) *Form {
		if d.op == "b" && d.sym == "isinf" {
			inf = true
			return z.tru()
		}
		if d.op == "eq" && (d.args[0].isInf() || d.args[1].isInf()) {
			inf = true
			return z.tru()
		}
		return nil
	})
	if isFalse(h) {
		x.r.ok("numeric", what+": terms are taken relative to a finite largest term")
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
				if s := c.Call.StaticCallee().String(); s == "math.IsNaN" || s == "math.IsInf" && !inf {
					inf = true
				}
			}
		}
	}
	if inf {
		x.undecided(what, "infinite terms are handled in a way that is not understood")
		return
	}
	x.r.bad("difference of infinities", what, x.p.ipos(e), "the exponential is reached when every term is log 0 = -inf, and -inf minus -inf is not a number")
}

// nonPositive: 1 if v is at most zero under g, 0 if it is not a difference from an extremum, 2 if
// that is not known.
func (x *numerics) nonPositive(g, v *Form) int {
	z := x.z
	if isFalse(z.ite(g, z.gt0(v), z.fls())) {
		return 1
	}
	if c, ok := v.constant(); ok && c.Sign() <= 0 {
		return 1
	}
	if isFalse(z.ite(g, z.not(z.gt0(v)), z.fls())) {
		return 0
	}
	ext := false
	for _, m := range v.monos() {
		for _, p := range m.at {
			if p.f.op == "call" && strings.HasPrefix(p.f.sym, "math.Abs") {
				ext = true
				if len(v.monos()) == 1 && m.c.Sign() < 0 && len(m.at) == 1 {
					return 1
				}
			}
			switch p.f.op {
			case "max", "max2", "min", "min2":
				ext = true
			}
		}
		if len(m.at) != 1 || m.at[0].e != 1 || m.c.Sign() >= 0 || m.c.Num().CmpAbs(m.c.Denom()) != 0 {
			continue
		}
		M := m.at[0].f
		rest := z.add(v, M)
		if M.op == "max2" {
			for _, a := range M.args {
				if a == rest {
					return 1
				}
			}
		}
		if M.op == "max" && len(M.args) == 3 {
			hit := false
			rest.walk(func(d *Form) {
				if !hit && (d.op == "iter" || d.op == "idx") {
					i := d
					if d.op == "idx" {
						i = d.args[1]
					}
					hit = z.open(M, i) == rest || !g.opq && z.ite(g, z.open(M, i), rest) == rest
				}
			})
			if hit {
				return 1
			}
		}
	}
	if ext || v.op == "ite" {
		return 2
	}
	// a parameter may already be shifted by the caller
	for _, m := range v.monos() {
		for _, p := range m.at {
			if strings.HasPrefix(p.f.op, "acc") || p.f.op == "acc" {
				return 2
			}
		}
	}
	if len(v.monos()) > 1 {
		// taking out some other term of the same slice does not help
		for _, m := range v.monos() {
			if m.c.Sign() >= 0 {
				continue
			}
			term := false
			for _, o := range v.monos() {
				term = term || o.c.Sign() > 0 && len(m.at) == 1 && len(o.at) == 1 && m.at[0].f.op == "idx" && o.at[0].f.op == "idx" &&
					m.at[0].f.args[0] == o.at[0].f.args[0] && m.at[0].f.args[1] != o.at[0].f.args[1]
			}
			if !term {
				return 2
			}
		}
	}
	return 0
}

// path: the condition under which a block is reached from the entry of its function.
func (x *numerics) path(fr *frame, b *ssa.BasicBlock) *Form {
	z := x.z
	g := z.tru()
	for l := x.vs.loopOf(b); ; l = l.parent {
		h := x.vs.reach(fr, l, b)
		if h == nil || h.opq {
			return z.opaque("path")
		}
		g = z.ite(h, g, z.fls())
		if l == nil {
			return g
		}
		b = l.head
	}
}
