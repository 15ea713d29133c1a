U='spn/utils.go'; S='spn/sum.go'; P='spn/product.go'; D='learn/derive.go'; G='learn/generative.go'; DI='learn/discriminative.go'; M_='spn/multinom.go'; GA='spn/gaussian.go'; IN='spn/indicator.go'
INF_SUM='''			for i, cs := range ch {
				v := V[cs]
				vals[i] = v + math.Log(W[i])
			}
			V[s] = sum.Compute(vals)
		case "product":
			prod := s.(*Product)
			ch := prod.Ch()
			n := len(ch)
			vals := make([]float64, n)
			for i, ch := range ch {
				vals[i] = V[ch]
			}
			V[s] = prod.Compute(vals)
		}
	}
	return V[S]
}

// StoreInference'''
M=[
# bugs
('infY-weights-shifted','C10',[(U,INF_SUM,INF_SUM.replace('math.Log(W[i])','math.Log(W[n-1-i])'))]),
('inf-skip-neginf','C10',[(U,INF_SUM,INF_SUM.replace('vals[i] = v + math.Log(W[i])','if math.IsInf(v, -1) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tvals[i] = v + math.Log(W[i])'))]),
('inf-prod-drop-first','C10',[(U,INF_SUM,INF_SUM.replace('for i, ch := range ch {\n','for i, ch := range ch[1:] {\n'))]),
('sumvalue-skip-zero-weight','C10',[(S,'		v, w := s.ch[i].Value(val), math.Log(s.w[i])\n','		if s.w[i] < 1e-6 {\n			continue\n		}\n		v, w := s.ch[i].Value(val), math.Log(s.w[i])\n')]),
('prod-compute-early-stop','C10',[(P,'	for _, v := range cv {\n		r += v\n','	for _, v := range cv {\n		if r < -700 {\n			break\n		}\n		r += v\n')]),
('infY-leaf-order','C10',[(U,'if varid := s.Sc()[0]; varid == Y {','if varid := s.Sc()[0]; varid >= Y {')]),
('storeinf-leaf-unset','C10',[(U,'			table.StoreSingle(s, s.Value(I))','			if _, e := table.Single(s); !e {\n				table.StoreSingle(s, s.Value(I))\n			}')]),
('storeinf-weights','C10',[(U,'''				vals[i] = v + math.Log(W[i])
			}
			if n == 0''','''				vals[i] = v + W[i]
			}
			if n == 0''')]),
('lse-off-by-one','C10',[('utils/log.go','__LSE__','')]),
('summax-noweight','C11',[(S,'cv := math.Log(s.w[i]) + s.ch[i].Max(val)\n','cv := s.ch[i].Max(val)\n')]),
('summax-ge-start1','C11',[(S,'	n := len(s.ch)\n\n	for i := 0; i < n; i++ {\n		cv :=','	n := len(s.ch)\n\n	for i := 1; i < n; i++ {\n		cv :=')]),
('argmax-value-vs-max','C11',[(S,'m := math.Log(s.w[i]) + ch.Max(val)','m := math.Log(s.w[i]) + ch.Value(val)')]),
('storemap-follow-least','C11',[(U,'				if u > m {\n					mv, m = []SPN{c}, u','				if u > m {\n					mv, m = append(mv, c), u')]),
('storemap-leaf-value','C11',[(U,'			m := s.Max(I)\n			tab.StoreSingle(s, m)','			m := s.Value(I)\n			tab.StoreSingle(s, m)')]),
('derive-sum-nolog','C12',[(D,'table.StoreSingle(cs, math.Log(W[i])+pv)\n','table.StoreSingle(cs, W[i]+pv)\n')]),
('derive-prod-only-later','C12',[(D,'					if j != i {','					if j > i {')]),
('derive-acc-overwrite','C12',[(D,'table.StoreSingle(cs, utils.LogSumExpPair(v, t))','table.StoreSingle(cs, math.Max(v, t))')]),
('derive-weights-batch','C12',[(D,'ndw = utils.LogSumExpPair(ndw, dw)','ndw = utils.LogSumExpPair(v, dw)')]),
('hard-count','C12',[(D,'tab.Store(s, mi, v+1)','tab.Store(s, mi, v*1+float64(mi))')]),
('gd-lambda','C15',[(G,'''				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
			}
			if norm {
				Normalize(W)
			}
		}
	}
}''','''				W[i] += (delta / float64(b)) - 2*P.Lambda*delta
			}
			if norm {
				Normalize(W)
			}
		}
	}
}''')]),
('gd-nobatch','C15',[(G,'''			for i := range W {
				delta := eta * math.Exp(dW[i])
				W[i] += (delta / float64(b))''','''			for i := range W {
				delta := eta * math.Exp(dW[i])
				W[i] += delta''')]),
('norm-max','C15',[(D,'	for i := range v {\n		norm += v[i]\n	}\n	//var c','	for i := range v {\n		norm = math.Max(norm, v[i])\n	}\n	//var c')]),
('hgd-wupdated','C15',[(G,'''				for i, d := range v {
					w := W[i]
					delta := eta * (d / (w * float64(b)))
					W[i] = w + delta - 2*P.Lambda*w''','''				for i, d := range v {
					w := W[i]
					delta := eta * (d / (w * float64(b)))
					W[i] = delta - 2*P.Lambda*w''')]),
('dgd-sign','C15',[(DI,'delta := eta * (math.Exp(dW[i]-vS) - math.Exp(dU[i]-vZ))','delta := eta * (math.Exp(dW[i]-vZ) - math.Exp(dU[i]-vS))')]),
('storedgd-zt','C12',[(DI,'delta := math.Exp(dW[i]-vS) - math.Exp(dU[i]-vZ)\n				v, _','delta := math.Exp(dW[i]-vS) - math.Exp(dU[i]-vS+vZ-vZ*0.5)\n				v, _')]),
('mult-max-mode','C13',[(M_,'''	v, ok := val[m.varid]
	if ok {
		return math.Log(m.pr[v])
	}
	return math.Log(m.mode.val)''','''	v, ok := val[m.varid]
	if ok && v != m.mode.index {
		return math.Log(m.pr[v])
	}
	if ok {
		return 0
	}
	return math.Log(m.mode.val)''')]),
('gauss-max','C13',[(GA,'	return g.dist.LogProb(g.dist.Mu)\n}\n\n// ArgMax','	return g.dist.LogProb(math.Round(g.dist.Mu))\n}\n\n// ArgMax')]),
('ind-unobs','C13',[(IN,'''func (i *Indicator) Value(val VarSet) float64 {
	u, e := val[i.varid]
	if !e || u == i.v {''','''func (i *Indicator) Value(val VarSet) float64 {
	u := val[i.varid]
	if u == i.v {''')]),
('counting-smooth','C14',[(M_,'''		s += 1.0 + float64(counts[i])
		pr[i] = float64(1 + counts[i])
	}

	for i := 0; i < n; i++ {
		pr[i] /= float64(s)
	}

	m := -1.0''','''		s += float64(counts[i])
		pr[i] = float64(1 + counts[i])
	}

	for i := 0; i < n; i++ {
		pr[i] /= float64(s)
	}

	m := -1.0''')]),
('gauss-raw-n-1','C14',[(GA,'sd = math.Sqrt(sd / float64(n))','sd = math.Sqrt(sd / float64(n-1))')]),
('gauss-sd-mean','C14',[(GA,'		d := float64(i) - mean\n		sd += (float64(counts[i]) / float64(N)) * d * d\n','		d := float64(i) - mean\n		sd += d * d / float64(n)\n')]),
('multmode-last','C14',[(M_,'''		if dist[i] > m {
			m = dist[i]
			miv[0] = i
			mi = i
			nmi = 1''','''		if dist[i] > m {
			m = dist[i]
			miv[nmi] = i
			mi = i
			nmi = 1''')]),
# refactorings
('r-inf-helper','',[(U,INF_SUM,'''			vals = weighted(ch, W, V)
			V[s] = sum.Compute(vals)
			_ = n
		case "product":
			prod := s.(*Product)
			ch := prod.Ch()
			vals := make([]float64, 0, len(ch))
			for _, c := range ch {
				vals = append(vals, V[c])
			}
			V[s] = prod.Compute(vals)
		}
	}
	return V[S]
}

func weighted(ch []SPN, W []float64, V map[SPN]float64) []float64 {
	vals := make([]float64, len(ch))
	for i := range ch {
		vals[i] = math.Log(W[i]) + V[ch[i]]
	}
	return vals
}

// StoreInference'''),(U,'''			n := len(ch)
			vals := make([]float64, n)
			for i, cs := range ch {
				v := V[cs]
				vals[i] = v + math.Log(W[i])
			}
			V[s] = sum.Compute(vals)
		case "product":
			prod := s.(*Product)
			ch := prod.Ch()
			n := len(ch)
			vals := make([]float64, n)
			for i, ch := range ch {
				vals[i] = V[ch]
			}
			V[s] = prod.Compute(vals)
		}
	}
	return V[S]
}

// Inference simply''','''			n := len(ch)
			vals := make([]float64, n)
			for i := n - 1; i >= 0; i-- {
				v := V[ch[i]]
				vals[i] = math.Log(W[i]) + v
			}
			V[s] = sum.Compute(vals)
		case "product":
			var acc float64
			for _, c := range s.Ch() {
				acc += V[c]
			}
			V[s] = acc
		}
	}
	return V[S]
}

// Inference simply''')]),
('r-summax-first','',[(S,'''	max := math.Inf(-1)
	n := len(s.ch)

	for i := 0; i < n; i++ {
		cv := math.Log(s.w[i]) + s.ch[i].Max(val)
		if cv > max {
			max = cv
		}
	}

	return max''','''	best := math.Inf(-1)
	for i, c := range s.ch {
		best = math.Max(best, c.Max(val)+math.Log(s.w[i]))
	}
	return best''')]),
('r-argmax-index','',[(S,'''	n, max := len(s.ch), math.Inf(-1)
	var mch SPN

	for i := 0; i < n; i++ {
		ch := s.ch[i]
		m := math.Log(s.w[i]) + ch.Max(val)
		if mch == nil || m > max {
			max, mch = m, ch
		}
	}

	amax, _ := mch.ArgMax(val)
	return amax, max''','''	best, max := 0, math.Inf(-1)
	for i, c := range s.ch {
		m := math.Log(s.w[i]) + c.Max(val)
		if m > max {
			max = m
			best = i
		}
	}
	state, _ := s.ch[best].ArgMax(val)
	return state, max''')]),
('r-prod-switch-if','',[(P,'''	n := len(p.ch)
	ch := p.Ch()
	vals := make([]float64, n)

	for i := range ch {
		vals[i] = ch[i].Value(val)
	}

	l := p.Compute(vals)
''','''	var l float64
	for _, c := range p.Ch() {
		l += c.Value(val)
	}
''')]),
('r-derive-siblings-helper','',[(D,'''				t := pv
				for j := range ch {
					if j != i {
						_v, _ := inf.Single(ch[j])
						t += _v
					}
				}
''','''				t := pv + siblings(inf, ch, i)
'''),(D,'func Normalize(','''func siblings(inf spn.StorerTable, ch []spn.SPN, i int) float64 {
	var t float64
	for j, c := range ch {
		if i == j {
			continue
		}
		v, _ := inf.Single(c)
		t += v
	}
	return t
}

func Normalize(''')]),
('r-derive-accumulate-helper','',[(D,'''				v, e := table.Single(cs)
				if !e {
					table.StoreSingle(cs, math.Log(W[i])+pv)
				} else {
					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
				}
''','''				accumulate(table, cs, math.Log(W[i])+pv)
'''),(D,'func Normalize(','''func accumulate(table spn.StorerTable, n spn.SPN, t float64) {
	if v, e := table.Single(n); e {
		t = utils.LogSumExpPair(v, t)
	}
	table.StoreSingle(n, t)
}

func Normalize(''')]),
('r-gd-delta-helper','',[(G,'''			for i := range W {
				delta := eta * math.Exp(dW[i])
				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
			}''','''			step := eta / float64(b)
			for i, w := range W {
				W[i] = w + step*math.Exp(dW[i]) - 2*P.Lambda*w
			}''')]),
('r-normalize-onepass','',[(D,'''	var min float64
	for _, u := range v {
		if u < min {
			min = u
		}
	}
	if min < 0 {
		for i := range v {
			v[i] -= min
		}
	}

	var norm float64
	for i := range v {
		norm += v[i]
	}
''','''	var min float64
	for _, u := range v {
		min = math.Min(min, u)
	}
	var norm float64
	for i := range v {
		v[i] -= min
		norm += v[i]
	}
''')]),
('r-gauss-early','',[(GA,'''	var l float64
	if ok && g.dist.Sigma == 0 {
		return zeroSigma(v, ok, g.dist.Mu)
	} else if ok {
		l = g.dist.LogProb(float64(v))
	} else {
		l = 0.0 // ln(1.0) = 0.0
	}
''','''	if !ok {
		return 0
	}
	if g.dist.Sigma == 0 {
		return zeroSigma(v, ok, g.dist.Mu)
	}
	l := g.dist.LogProb(float64(v))
''')]),
('r-counting-helper','',[(M_,'''	pr := make([]float64, n)
	s := 0.0
	for i := 0; i < n; i++ {
		s += 1.0 + float64(counts[i])
		pr[i] = float64(1 + counts[i])
	}

	for i := 0; i < n; i++ {
		pr[i] /= float64(s)
	}

	var m float64''','''	pr := smooth(counts)
	var m float64'''),(M_,'// NewEmptyMultinomial constructs','''func smooth(counts []int) []float64 {
	total := float64(len(counts))
	for _, c := range counts {
		total += float64(c)
	}
	pr := make([]float64, len(counts))
	for i, c := range counts {
		pr[i] = (float64(c) + 1) / total
	}
	return pr
}

// NewEmptyMultinomial constructs''')]),
('r-store-leaf','',[(U,'			table.StoreSingle(s, s.Value(I))','			v := s.Value(I)\n			table.Store(s, 0, v)')]),
('r-mult-argmax','',[(M_,'''	retval := make(VarSet)
	v, ok := val[m.varid]

	if ok {
		retval[m.varid] = v
		return retval, math.Log(m.pr[v])
	}

	retval[m.varid] = m.mode.index
	return retval, math.Log(m.mode.val)''','''	if v, ok := val[m.varid]; ok {
		return VarSet{m.varid: v}, m.Value(val)
	}
	return VarSet{m.varid: m.mode.index}, m.Max(val)''')]),
('r-storemap-helper','',[(U,'''			mv := math.Inf(-1)
			for i, c := range ch {
				v, _ := tab.Single(c)
				u := math.Log(W[i]) + v
				if u > mv {
					mv = u
				}
			}
			tab.StoreSingle(s, mv)''','''			tab.StoreSingle(s, heaviest(tab, ch, W))'''),(U,'func norm(v []float64)','''func heaviest(tab StorerTable, ch []SPN, W []float64) float64 {
	mv := math.Inf(-1)
	for i := 0; i < len(ch); i++ {
		v, _ := tab.Single(ch[i])
		if u := math.Log(W[i]) + v; mv < u {
			mv = u
		}
	}
	return mv
}

func norm(v []float64)''')]),
]
M+=[
('r-prod-neginf-return','',[(P,'	for _, v := range cv {\n		r += v\n','	for _, v := range cv {\n		if math.IsInf(v, -1) {\n			return v\n		}\n		r += v\n')]),
('r-prod-neginf-return2','',[(P,'	for _, v := range cv {\n		r += v\n','	for _, v := range cv {\n		if math.IsInf(v, -1) {\n			return math.Inf(-1)\n		}\n		r += v\n')]),
('r-prod-neginf-break','',[(P,'	for _, v := range cv {\n		r += v\n','	for _, v := range cv {\n		r += v\n		if math.IsInf(r, -1) {\n			break\n		}\n')]),
('r-inf-zero-weight','',[(U,INF_SUM,INF_SUM.replace('vals[i] = v + math.Log(W[i])','if W[i] == 0 {\n\t\t\t\t\tvals[i] = math.Inf(-1)\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tvals[i] = v + math.Log(W[i])'))]),
('r-inf-neginf','',[(U,INF_SUM,INF_SUM.replace('vals[i] = v + math.Log(W[i])','if v == utils.LogZero {\n\t\t\t\t\tvals[i] = utils.LogZero\n\t\t\t\t} else {\n\t\t\t\t\tvals[i] = v + math.Log(W[i])\n\t\t\t\t}'))]),
('r-gd-skip-nograd','',[(G,'''			for i := range W {
				delta := eta * math.Exp(dW[i])
				W[i] += (delta / float64(b))''','''			for i := range W {
				g := math.Exp(dW[i])
				delta := eta * g
				W[i] += (delta / float64(b))''')]),
('r-hgd-two-steps','',[(G,'''				for i, d := range v {
					w := W[i]
					delta := eta * (d / (w * float64(b)))
					W[i] = w + delta - 2*P.Lambda*w''','''				for i, d := range v {
					w := W[i]
					W[i] += eta * d / w / float64(b)
					W[i] -= 2 * P.Lambda * w''')]),
('r-children-closure','',[(U,INF_SUM,INF_SUM.replace('''			for i, cs := range ch {
				v := V[cs]
				vals[i] = v + math.Log(W[i])
			}''','''			get := func(i int) float64 { return V[ch[i]] + math.Log(W[i]) }
			for i := 0; i < n; i++ {
				vals[i] = get(i)
			}'''))]),
('r-map-children-if','',[(U,'''		switch t := s.Type(); t {
		case "leaf":
			m := s.Max(I)
			tab.StoreSingle(s, m)
		case "sum":''','''		switch t := s.Type(); t {
		case "leaf":
			tab.StoreSingle(s, s.Max(I))
		case "sum":''')]),
('r-typeswitch','',[(U,'''		s := O.Dequeue().(SPN)
		switch t := s.Type(); t {
		case "leaf":
			V[s] = s.Value(I)
		case "sum":
			sum := s.(*Sum)
			ch := sum.Ch()''','''		s := O.Dequeue().(SPN)
		if s.Type() == "leaf" {
			V[s] = s.Value(I)
			continue
		}
		switch t := s.Type(); t {
		case "sum":
			sum := s.(*Sum)
			ch := sum.Ch()''')]),
('r-typeswitch2','',[(U,'''		s := O.Dequeue().(SPN)
		switch t := s.Type(); t {
		case "leaf":
			V[s] = s.Value(I)
		case "sum":
			sum := s.(*Sum)
			ch := sum.Ch()''','''		s := O.Dequeue().(SPN)
		switch sum := s.(type) {
		default:
			V[s] = s.Value(I)
		case *Sum:
			ch := sum.Ch()'''),(U,INF_SUM,INF_SUM.replace('case "product":\n\t\t\tprod := s.(*Product)\n','case *Product:\n\t\t\tprod := sum\n'))]),
]
M=[m for m in M if not any('__' in e[1] for e in m[2])]
