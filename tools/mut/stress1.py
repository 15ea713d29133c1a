U='spn/utils.go'; S='spn/sum.go'; P='spn/product.go'; MU='spn/multinom.go'; GA='spn/gaussian.go'; IN='spn/indicator.go'; ST='spn/storer.go'; T='spn/topo.go'; SE='spn/search.go'; L='utils/log.go'
SV='''		v, w := s.ch[i].Value(val), math.Log(s.w[i])
		vals[i] = v + w
'''
SM='''		cv := math.Log(s.w[i]) + s.ch[i].Max(val)
		if cv > max {
			max = cv
		}
'''
SA='''		m := math.Log(s.w[i]) + ch.Max(val)
		if mch == nil || m > max {
			max, mch = m, ch
		}
'''
INFCORE='''			for i, cs := range ch {
				v := V[cs]
				vals[i] = v + math.Log(W[i])
			}
			V[s] = sum.Compute(vals)
'''
M=[
# ---- C10
('x-sumvalue-break-inf','C10',[(S,SV,'''		v, w := s.ch[i].Value(val), math.Log(s.w[i])
		if math.IsInf(v, -1) {
			vals = vals[:i]
			break
		}
		vals[i] = v + w
''')]),
('x-sumvalue-floor','C10',[(S,SV,'''		v, w := s.ch[i].Value(val), math.Log(math.Max(s.w[i], 1e-12))
		vals[i] = v + w
''')]),
('x-prodvalue-skip-sameptr','C10',[(P,'		vals[i] = ch[i].Value(val)\n','		if i > 0 && ch[i] == ch[i-1] {\n			continue\n		}\n		vals[i] = ch[i].Value(val)\n')]),
('x-prodvalue-inf-mid','C10',[(P,'	l := p.Compute(vals)\n	sys','	l := p.Compute(vals)\n	if l < -745 {\n		l = math.Inf(-1)\n	}\n	sys')]),
('x-infY-returns-noev','C10',[(U,'''			if varid := s.Sc()[0]; varid == Y {
				V[s] = s.Value(J)''','''			if varid := s.Sc()[0]; varid == Y && len(I) > 0 {
				V[s] = s.Value(J)''')]),
('x-infY-observed-wins','C10',[(U,'''			if varid := s.Sc()[0]; varid == Y {''','''			if varid := s.Sc()[0]; varid == Y && I[Y] != y {''')]), # behaves same? if I[Y]==y then Value(I) ok unless absent & y==0
('x-infY-J-plus','C10',[(U,'	J := map[int]int{Y: y}\n','	J := map[int]int{Y: y}\n	if v, e := I[Y]; e {\n		J[Y] = v\n	}\n')]),
('x-inf-cutoff','',[(U,INFCORE+'		case "product":\n			prod := s.(*Product)\n			ch := prod.Ch()\n			n := len(ch)\n			vals := make([]float64, n)\n			for i, ch := range ch {\n				vals[i] = V[ch]\n			}\n			V[s] = prod.Compute(vals)\n		}\n	}\n	return V[S]\n}\n\n// StoreInference',(INFCORE+'		case "product":\n			prod := s.(*Product)\n			ch := prod.Ch()\n			n := len(ch)\n			vals := make([]float64, n)\n			for i, ch := range ch {\n				vals[i] = V[ch]\n			}\n			V[s] = prod.Compute(vals)\n		}\n	}\n	return V[S]\n}\n\n// StoreInference').replace('				v := V[cs]\n','				v, e := V[cs]\n				if !e {\n					v = math.Inf(-1)\n				}\n'))]), # equal behaviour
('x-storeinf-prod-missing','C10',[(U,'				vals[i], _ = table.Single(cs)\n','				if v, e := table.Single(cs); e && !math.IsInf(v, -1) {\n					vals[i] = v\n				}\n')]),
('x-storeinf-reuse','C10',[(U,'''			table.StoreSingle(s, prod.Compute(vals))''','''			if v, e := table.Single(s); !e || v == 0 {
				table.StoreSingle(s, prod.Compute(vals))
			}''')]),
('x-lse-max-index','C10',[(L,None,None)]) if 0 else ('x-dummy','?',[]),
('x-compute-hard-in-sum','',[(S,'	return utils.LogSumExp(cv)\n','	if len(cv) == 1 {\n		return cv[0]\n	}\n	return utils.LogSumExp(cv)\n')]), # equal behaviour: expected quiet
# ---- C11
('x-summax-ge','' ,[(S,SM,SM.replace('cv > max','cv >= max'))]),
('x-summax-exp','C11',[(S,SM,'''		cv := s.w[i] * math.Exp(s.ch[i].Max(val))
		if cv > 0 && math.Log(cv) > max {
			max = math.Log(cv)
		}
''')]), # underflow -> differs
('x-summax-value','C11',[(S,SM,SM.replace('.Max(val)','.Value(val)'))]),
('x-sumargmax-returned','C11',[(S,'	amax, _ := mch.ArgMax(val)\n	return amax, max','	amax, v := mch.ArgMax(val)\n	return amax, v')]),
('x-sumargmax-weight-only','C11',[(S,SA,'''		m := math.Log(s.w[i]) + ch.Max(val)
		if mch == nil || s.w[i] > max {
			max, mch = m, ch
		}
''')]),
('x-prodargmax-keep-first','?',[(P,'			argmax[k] = val\n','			if _, e := argmax[k]; !e {\n				argmax[k] = val\n			}\n')]),
('x-prodargmax-skip-inf','C11',[(P,'		v += chmap\n','		if math.IsInf(chmap, -1) {\n			continue\n		}\n		v += chmap\n')]),
('x-storemap-sum-i','C11',[(U,'''				if u > m {
					mv, m = []SPN{c}, u
				} else if u == m {
					mv = append(mv, c)
				}
			}
			// Randomly break ties.
			mvc''','''				if u > m {
					mv, m = append(mv, c), u
				} else if u == m {
					mv = append(mv, c)
				}
			}
			// Randomly break ties.
			mvc''')]),
('x-storemap-eps','C11',[(U,'''				} else if u == m {
					mv = append(mv, c)
				}
			}
			// Randomly break ties.
			mvc''','''				} else if math.Abs(u-m) < 1e-3 {
					mv = append(mv, c)
				}
			}
			// Randomly break ties.
			mvc''')]),
('x-storemap-merge-evidence','',[(U,'			for k, v := range N {\n				M[k] = v\n','			for k, v := range N {\n				if u, e := I[k]; e {\n					v = u\n				}\n				M[k] = v\n')]), # equal given leaves honour evidence
('x-storemap-leaf-overwrite','C11',[(U,'			for k, v := range N {\n				M[k] = v\n','			for k, v := range N {\n				if v == 0 {\n					continue\n				}\n				M[k] = v\n')]),
('x-tracemap-last','',[(U,'					mi, m = []int{i}, u\n','					mi, m = append(mi[:0], i), u\n')]), # equal
('x-tracemap-idx','C11',[(U,'				P[s] = mi[i]\n','				P[s] = i\n')]),
('x-tracemap-max0','C11',[(U,'''			tab[s] = mv
		case "product":''','''			if len(ch) > 1 {
				tab[s] = mv
			}
		case "product":''')]),
# ---- C09
('x-topsort-mark-early','C09',[(T,'''	S.Push(G)
	for !S.Empty() {
		u := S.Pop().(SPN)
		if P[u] {
			// A node may have been pushed by more than one parent: emit it only once.
			if !V[u] {
				V[u] = true
				C.Give(u)
			}
			continue
		}
		S.Push(u)
		P[u] = true
		ch := u.Ch()
		for _, c := range ch {
			if !P[c] {
				S.Push(c)
			}
		}
	}
	return C
}

// TopSortTarjanFunc traverses''','''	S.Push(G)
	P[G] = true
	for !S.Empty() {
		u := S.Peek().(SPN)
		k := 0
		for _, c := range u.Ch() {
			if !P[c] {
				S.Push(c)
				P[c] = true
				k++
			}
		}
		if k == 0 {
			S.Pop()
			if !V[u] {
				V[u] = true
				C.Give(u)
			}
		}
	}
	return C
}

// TopSortTarjanFunc traverses''')]),
('x-visit-leaf-again','C09',[(T,'	if V[S] {\n		return\n	}\n	V[S] = true\n','	if V[S] {\n		return\n	}\n	V[S] = len(S.Ch()) > 0\n')]),
('x-topfunc-nogive','',[(T,'				if !f(u) {\n					return C\n','				if !f(u) && u != G {\n					return C\n')]), # f on last anyway -> equal mostly
('x-postorder-root','',[(T,'	V[G] = true\n	postOrderRec','	V[G] = false\n	postOrderRec')]), # equal in DAG
('x-topdfs-m','C09',[(T,'				for _, c := range m {\n					S.Push(c)\n','				for _, c := range m {\n					if c.Type() != "leaf" || len(m) == 1 {\n						S.Push(c)\n					}\n')]),
('x-search-r','C09',[(SE,'			if !V[c] && r == 0 {\n				C.Give(c)\n				V[c] = true\n','			if !V[c] {\n				if r == 0 {\n					C.Give(c)\n				}\n				V[c] = true\n')]),
('x-count-leaf','?',[(SE,'		} else if t == "product" {','		} else if t == "product" && len(S.Ch()) > 0 {')]),
('x-norm-skip','C09',[(U,'''		if s.Type() == "sum" {
			z := s.(*Sum)
			W := z.Weights()
			norm(W)
		}''','''		if s.Type() == "sum" {
			z := s.(*Sum)
			W := z.Weights()
			if len(W) < 2 {
				continue
			}
			norm(W)
		}''')]),
# ---- C13
('x-multmax-nobs','',[(MU,'	return math.Log(m.mode.val)\n}\n\n// ArgMax','	return math.Log(m.pr[m.mode.index])\n}\n\n// ArgMax')]), # equal under invariant
('x-gauss-value-trunc','C13',[(GA,'		l = g.dist.LogProb(float64(v))\n','		l = g.dist.Prob(float64(v))\n')]),
('x-gauss-argmax-ev','C13',[(GA,'		z := g.dist.LogProb(float64(v))\n','		z := g.dist.LogProb(g.dist.Mu)\n')]),
('x-ind-max-noev','C13',[(IN,'''func (i *Indicator) Max(val VarSet) float64 {
	u, e := val[i.varid]
	if !e || u == i.v {''','''func (i *Indicator) Max(val VarSet) float64 {
	u := val[i.varid]
	if u == i.v {''')]),
('x-mult-oob-zero','C13',[(MU,'	if ok {\n		return math.Log(m.pr[v])\n	}\n	return 0.0','	if ok && v < len(m.pr) {\n		return math.Log(m.pr[v])\n	}\n	return 0.0')]),
# ---- C14
('x-emptymult-mode','C14',[(MU,'Mode{0, pr[0]}}','Mode{0, 1.0}}')]),
('x-cmult-sum','C14',[(MU,'''		s += 1.0 + float64(counts[i])
		pr[i] = float64(1 + counts[i])
	}

	for i := 0; i < n; i++ {
		pr[i] /= float64(s)
	}

	m := -1.0''','''		s += float64(counts[i])
		pr[i] = float64(1 + counts[i])
	}
	s++

	for i := 0; i < n; i++ {
		pr[i] /= float64(s)
	}

	m := -1.0''')]),
('x-scoped-varid','C14',[(MU,'	return &Multinomial{Node{sc: esc}, varid, pr, Mode{mi, m}}','	return &Multinomial{Node{sc: esc}, esc[0], pr, Mode{mi, m}}')]),
('x-gaussraw-bessel','C14',[(GA,'	sd = math.Sqrt(sd / float64(n))','	sd = math.Sqrt(sd / float64(n-1))')]),
('x-gaussparam-abs','C14',[(GA,'varid, distuv.Normal{mu, sigma, nil}}','varid, distuv.Normal{mu, sigma*sigma, nil}}')]),
('x-mult-decode-mode','C23',[(MU,'	m.mode.index, m.mode.val = imode, mode\n','	m.mode.index, m.mode.val = imode, mode/float64(n)\n')]),
('x-gauss-int','C14',[(GA,'''	for i := 0; i < n; i++ {
		mean += float64(counts[i]) / float64(N) * float64(i)
	}

	for i := 0; i < n; i++ {
		d := float64(i) - mean
		sd += (float64(counts[i]) / float64(N)) * d * d
	}''','''	for i := 0; i < n; i++ {
		mean += float64(counts[i]*i/N)
	}

	for i := 0; i < n; i++ {
		d := float64(i) - mean
		sd += (float64(counts[i]) / float64(N)) * d * d
	}''')]),
# ---- C17
('x-store-zero','C17',[(ST,'''	_, err := t[S]
	if !err {
		t[S] = make(map[int]float64)
		t[S][l] = e''','''	_, err := t[S]
	if !err || l == 0 {
		t[S] = make(map[int]float64)
		t[S][l] = e''')]),
('x-entry-zero','C17',[(ST,'	p, q := v[l]\n	return p, q','	p, q := v[l]\n	return p, q && p != 0')]),
('x-reset-all','C17',[(ST,'''	for _, k := range K {
		delete(s.tables, k)
		s.tables[k] = make(StorerTable)
	}''','''	t := make(StorerTable)
	for _, k := range K {
		delete(s.tables, k)
		s.tables[k] = t
	}''')]),
('x-newticket-len','C17',[(ST,'	k := s.tickets\n	s.tickets++\n','	k := len(s.tables)\n	s.tickets++\n')]),
('x-delete-dec','C17',[(ST,'	delete(s.tables, k)\n	sys.Free()\n}\n','	delete(s.tables, k)\n	if k == s.tickets-1 {\n		s.tickets--\n	}\n	sys.Free()\n}\n')]),
# ---- C01
('x-sc-sorted','C01',[(U,'	return S.rawSc()\n','	sc := S.rawSc()\n	for i := range sc {\n		for j := i + 1; j < len(sc); j++ {\n			if sc[j] < sc[i] {\n				sc[i], sc[j] = sc[j], sc[i]\n			}\n		}\n	}\n	return sc\n')]), # scope caches allowed? 
('x-value-renorm','',[(S,'	vals := make([]float64, n)\n	for i := 0; i < n; i++ {\n		v, w','	vals := s.w[:0:0]\n	vals = append(vals, s.w...)\n	for i := 0; i < n; i++ {\n		v, w')]), # equal
('x-value-inplace','C01',[(S,'	vals := make([]float64, n)\n	for i := 0; i < n; i++ {\n		v, w','	vals := s.w[:n]\n	for i := 0; i < n; i++ {\n		v, w')]),
('x-prodargmax-base','C01',[(P,'	argmax := make(VarSet)\n','	argmax := val\n	if argmax == nil {\n		argmax = make(VarSet)\n	}\n')]),
('x-storemap-del-ev','C01',[(U,'			N, _ := s.ArgMax(I)\n','			N, _ := s.ArgMax(I)\n			delete(I, s.Sc()[0])\n')]),
]
M=[m for m in M if m[2]]
