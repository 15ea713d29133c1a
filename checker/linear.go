package main

import (
	"math/big"
	"sort"
)

// linRow is a linear form over atoms ("" for the constant) that is required not to be negative.
type linRow map[string]*big.Rat

func linearRow(f *Form) (linRow, []*Form, bool) {
	r := linRow{}
	var atoms []*Form
	if c, ok := f.constant(); ok {
		r[""] = new(big.Rat).Set(c)
		return r, nil, true
	}
	for _, m := range f.monos() {
		switch {
		case len(m.at) == 0:
			r[""] = new(big.Rat).Set(m.c)
		case len(m.at) == 1 && m.at[0].e == 1:
			r[m.at[0].f.key] = new(big.Rat).Set(m.c)
			atoms = append(atoms, m.at[0].f)
		default:
			return nil, nil, false
		}
	}
	return r, atoms, true
}

// possible: whether some rational values make every row non-negative (Fourier-Motzkin).
func possible(rows []linRow) bool {
	vars := map[string]bool{}
	for _, r := range rows {
		for k := range r {
			if k != "" {
				vars[k] = true
			}
		}
	}
	var vs []string
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	for _, v := range vs {
		var lo, hi, rest []linRow
		for _, r := range rows {
			c := r[v]
			switch {
			case c == nil || c.Sign() == 0:
				rest = append(rest, r)
			case c.Sign() > 0:
				lo = append(lo, r)
			default:
				hi = append(hi, r)
			}
		}
		if len(lo)*len(hi) > 2000 {
			return true
		}
		for _, a := range lo {
			for _, b := range hi {
				n := linRow{}
				ka, kb := new(big.Rat).Neg(b[v]), a[v]
				add := func(r linRow, k *big.Rat) {
					for x, c := range r {
						if x == v {
							continue
						}
						t := new(big.Rat).Mul(c, k)
						if n[x] != nil {
							t.Add(t, n[x])
						}
						n[x] = t
					}
				}
				add(a, ka)
				add(b, kb)
				rest = append(rest, n)
			}
		}
		rows = rest
	}
	for _, r := range rows {
		if c := r[""]; c != nil && c.Sign() < 0 {
			return false
		}
	}
	return true
}

// integral: whether the conditions (forms that are not negative) may hold together over the
// integers; lengths are not negative and integer division by a constant has its usual meaning.
func (z *forms) integral(fs []*Form) bool {
	var rows []linRow
	seen := map[string]bool{}
	var divs []*Form
	var visit func(f *Form)
	visit = func(f *Form) {
		r, as, ok := linearRow(f)
		if !ok {
			return
		}
		rows = append(rows, r)
		for _, a := range as {
			if seen[a.key] {
				continue
			}
			seen[a.key] = true
			if a.op == "len" {
				rows = append(rows, linRow{a.key: big.NewRat(1, 1)})
			}
			if a.op == "idiv" && len(a.args) == 2 {
				if d, ok := a.args[1].constant(); ok && d.IsInt() && d.Sign() > 0 {
					divs = append(divs, a)
				}
			}
		}
	}
	for _, f := range fs {
		visit(f)
	}
	if len(divs) > 3 {
		return true
	}
	// truncated division: the remainder has the sign of the dividend
	var split func(i int, extra []*Form) bool
	base := append([]linRow(nil), rows...)
	split = func(i int, extra []*Form) bool {
		if i == len(divs) {
			rs := append([]linRow(nil), base...)
			for _, f := range extra {
				r, as, ok := linearRow(f)
				if !ok {
					continue
				}
				rs = append(rs, r)
				for _, a := range as {
					if a.op == "len" {
						rs = append(rs, linRow{a.key: big.NewRat(1, 1)})
					}
				}
			}
			return possible(rs)
		}
		a, q := divs[i].args[0], divs[i]
		d, _ := q.args[1].constant()
		rem := z.sub(a, z.mul(z.rat(d), q))
		top := z.rat(new(big.Rat).Sub(d, big.NewRat(1, 1)))
		if split(i+1, append(append([]*Form(nil), extra...), a, rem, z.sub(top, rem))) {
			return true
		}
		return split(i+1, append(append([]*Form(nil), extra...), z.sub(z.neg(a), z.num(1)), z.neg(rem), z.add(top, rem)))
	}
	return split(0, nil)
}

// agree replaces, on every path of got, an element that is taken from the position the same path
// proves equal to that of want; paths no position can take are given want.
func (z *forms) agree(got, want *Form, facts []*Form) *Form {
	if got.op == "ite" && (got.args[0].op == "ge0" || got.args[0].op == "eq0") {
		c := got.args[0]
		x := c.args[0]
		var t, e *Form
		if c.op == "ge0" {
			t = z.agree(got.args[1], want, append(append([]*Form(nil), facts...), x))
			e = z.agree(got.args[2], want, append(append([]*Form(nil), facts...), z.sub(z.neg(x), z.num(1))))
		} else {
			t = z.agree(got.args[1], want, append(append([]*Form(nil), facts...), x, z.neg(x)))
			e = z.agree(got.args[2], want, facts)
		}
		if t == e {
			return t
		}
		return z.ite(c, t, e)
	}
	if got == want || !z.integral(facts) {
		return want
	}
	if got.op == "idx" && want.op == "idx" && got.args[0] == want.args[0] {
		d := z.sub(got.args[1], want.args[1])
		one := z.num(1)
		if !z.integral(append(append([]*Form(nil), facts...), z.sub(d, one))) && !z.integral(append(append([]*Form(nil), facts...), z.sub(z.neg(d), one))) {
			return want
		}
	}
	return got
}
