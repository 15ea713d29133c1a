SU='spn/sum.go'; PD='spn/product.go'; MU='spn/multinom.go'; GA='spn/gaussian.go'; UT='spn/utils.go'; NO='spn/node.go'; SR='spn/serial.go'
SC='score/score.go'; GE='learn/gens/gens.go'; DM='data/manipulate.go'; QU='conc/queue.go'; DE='learn/derive.go'; LO='utils/log.go'; TO='spn/topo.go'
SUMCASE='''			sum := s.(*Sum)
			ch := sum.Ch()
			W := sum.Weights()
			n := len(ch)
			vals := make([]float64, n)
			for i, cs := range ch {
				v := V[cs]
				vals[i] = v + math.Log(W[i])
			}
			V[s] = sum.Compute(vals)
'''
PRODCASE='''			prod := s.(*Product)
			ch := prod.Ch()
			n := len(ch)
			vals := make([]float64, n)
			for i, ch := range ch {
				vals[i] = V[ch]
			}
			V[s] = prod.Compute(vals)
'''
MODE='''	m := -1.0
	var mi int
	miv := make([]int, n)
	nmi := 0
	for i := 0; i < n; i++ {
		if pr[i] > m {
			m = pr[i]
			miv[0] = i
			mi = i
			nmi = 1
		} else {
			if pr[i] == m {
				miv[nmi] = i
				nmi++
			}
		}
	}
	if nmi > 1 {
		mi = miv[sys.RandIntn(nmi)]
	}
'''
COUNTP='''	pr := make([]float64, n)
	s := 0.0
	for i := 0; i < n; i++ {
		s += 1.0 + float64(counts[i])
		pr[i] = float64(1 + counts[i])
	}

	for i := 0; i < n; i++ {
		pr[i] /= float64(s)
	}

'''
POSTCONC='''				delete(I, v)
				spn.StoreInference(N, I, tk, st)
				pe, _ := st.Single(tk, N)
				mp := math.Inf(-1)
				var ml int
				for u := 0; u < c; u++ {
					st.Reset(tk)
					I[v] = u
					spn.StoreInference(N, I, tk, st)
					pj, _ := st.Single(tk, N)
					if pd := pj - pe; pd > mp {
						mp, ml = pd, u
					}
					delete(I, v)
				}
'''
POST='''		I := copyExcept(T[i], v)
		spn.StoreInference(N, I, tk, st)
		pe, _ := st.Single(tk, N)
		mp := math.Inf(-1)
		var ml int
		for j := 0; j < classVar.Categories; j++ {
			st.Reset(tk)
			I[v] = j
			spn.StoreInference(N, I, tk, st)
			pj, _ := st.Single(tk, N)
			if pd := pj - pe; pd > mp {
				mp, ml = pd, j
			}
			delete(I, v)
		}
		s.Register(ml, L[i])
		st.Reset(tk)
'''
COMPL='''			sc := s.rawSc()
			v := make(map[int]int)
			for _, u := range sc {
				v[u]++
			}
			for _, c := range ch {
				csc := c.rawSc()
				// Invariant: ComputeScope guarantees that there will be no duplicates.
				if len(csc) != len(sc) {
					sys.Printf("len(csc)=%d != len(sc)=%d\\n", len(csc), len(sc))
					sys.Printf("%v\\n%v\\n", csc, sc)
					return false
				}
				for _, u := range csc {
					_, e := v[u]
					if !e {
						sys.Printf("v[%d] does not exist\\n", u)
						return false
					}
					v[u]++
				}
			}
			k := len(ch) + 1
			for _, u := range v {
				if u != k {
					sys.Printf("u=%d != k=%d\\n", u, k)
					return false
				}
			}
'''
DECOMP='''			sc := s.rawSc()
			v := make(map[int]int)
			for _, u := range sc {
				v[u]++
			}
			n := len(sc)
			for _, c := range ch {
				csc := c.rawSc()
				// Invariant: ComputeScope guarantees that there will be no duplicates.
				for _, u := range csc {
					_, e := v[u]
					if !e {
						return false
					}
					v[u]++
				}
				n -= len(csc)
			}
			for _, u := range v {
				if u != 2 {
					return false
				}
			}
			if n != 0 {
				return false
			}
'''
M=[
('r5-inf-children','',[('@1',UT,SUMCASE,'''			sum := s.(*Sum)
			V[s] = sum.Compute(sum.weighted(func(c SPN) float64 { return V[c] }))
'''),('@1',UT,SUMCASE,'''			sum := s.(*Sum)
			V[s] = sum.Compute(sum.weighted(func(c SPN) float64 { return V[c] }))
'''),(SU,'''	n := len(s.ch)

	vals := make([]float64, n)
	for i := 0; i < n; i++ {
		v, w := s.ch[i].Value(val), math.Log(s.w[i])
		vals[i] = v + w
	}

	l := s.Compute(vals)
	return l
}
''','''	return s.Compute(s.weighted(func(c SPN) float64 { return c.Value(val) }))
}

func (s *Sum) weighted(of func(SPN) float64) []float64 {
	vals := make([]float64, 0, len(s.ch))
	for i, c := range s.ch {
		vals = append(vals, of(c)+math.Log(s.w[i]))
	}
	return vals
}
''')]),
('r5-inf-nodeval','',[('@1',UT,SUMCASE,'''			V[s] = nodeValue(s, V)
'''),('@1',UT,PRODCASE,'''			V[s] = nodeValue(s, V)
'''),('@1',UT,SUMCASE,'''			V[s] = nodeValue(s, V)
'''),('@1',UT,PRODCASE,'''			V[s] = nodeValue(s, V)
'''),(UT,'''// Inference simply''','''func nodeValue(s SPN, V map[SPN]float64) float64 {
	ch := s.Ch()
	vals := make([]float64, len(ch))
	sum, isSum := s.(*Sum)
	for i, c := range ch {
		vals[i] = V[c]
		if isSum {
			vals[i] += math.Log(sum.Weights()[i])
		}
	}
	return s.Compute(vals)
}

// Inference simply''')]),
('r5-inf-rec','',[(UT,'''	O := common.Queue{}
	TopSortTarjan(S, &O)
	V := make(map[SPN]float64)
	for !O.Empty() {
		s := O.Dequeue().(SPN)
		switch t := s.Type(); t {
		case "leaf":
			V[s] = s.Value(I)
		case "sum":
'''+SUMCASE+'''		case "product":
'''+PRODCASE+'''		}
	}
	return V[S]
''','''	return evalMemo(S, I, make(map[SPN]float64))
}

func evalMemo(s SPN, I VarSet, V map[SPN]float64) float64 {
	if v, ok := V[s]; ok {
		return v
	}
	var r float64
	switch n := s.(type) {
	case *Sum:
		vals := make([]float64, len(n.Ch()))
		for i, c := range n.Ch() {
			vals[i] = math.Log(n.w[i]) + evalMemo(c, I, V)
		}
		r = n.Compute(vals)
	case *Product:
		vals := make([]float64, len(n.Ch()))
		for i, c := range n.Ch() {
			vals[i] = evalMemo(c, I, V)
		}
		r = n.Compute(vals)
	default:
		r = s.Value(I)
	}
	V[s] = r
	return r
''')]),
('r5-storeinf-helper','',[(UT,'''			for i, cs := range ch {
				v, e := table.Single(cs)
				if !e {
					fmt.Println("Error: The SPN graph has sums or products as leaves.")
					sys.Free()
					return nil, -1
				}
				vals[i] = v + math.Log(W[i])
			}
''','''			missing := false
			for i, cs := range ch {
				v, e := table.Single(cs)
				missing = missing || !e
				vals[i] = math.Log(W[i]) + v
			}
			if missing {
				fmt.Println("Error: The SPN graph has sums or products as leaves.")
				sys.Free()
				return nil, -1
			}
''')]),
('r5-storeinf-val','',[(UT,'''			if n == 0 {
				table.StoreSingle(s, utils.LogZero)
			} else {
				table.StoreSingle(s, sum.Compute(vals))
			}
''','''			r := utils.LogZero
			if n > 0 {
				r = sum.Compute(vals)
			}
			table.StoreSingle(s, r)
''')]),
('r5-storeinf-local','',[(UT,'''			table.StoreSingle(s, s.Value(I))
''','''			put(s, s.Value(I))
'''),(UT,'''			table.StoreSingle(s, prod.Compute(vals))
''','''			put(s, prod.Compute(vals))
'''),(UT,'''	table, _ := storage.Table(tk)
	for !O.Empty() {
''','''	table, _ := storage.Table(tk)
	put := func(n SPN, v float64) { table.Store(n, 0, v) }
	for !O.Empty() {
''')]),
('r5-storemap-best','',[('@1',UT,'''			sum := s.(*Sum)
			W := sum.Weights()
			ch := s.Ch()
			mv := math.Inf(-1)
			for i, c := range ch {
				v, _ := tab.Single(c)
				u := math.Log(W[i]) + v
				if u > mv {
					mv = u
				}
			}
			tab.StoreSingle(s, mv)
''','''			_, mv := bestOf(s.(*Sum), tab)
			tab.StoreSingle(s, mv)
'''),(UT,'''			sum := s.(*Sum)
			W := sum.Weights()
			ch := s.Ch()
			m := math.Inf(-1)
			var mv []SPN
			for i, c := range ch {
				v, _ := tab.Single(c)
				u := math.Log(W[i]) + v
				if u > m {
					mv, m = []SPN{c}, u
				} else if u == m {
					mv = append(mv, c)
				}
			}
''','''			mv, _ := bestOf(s.(*Sum), tab)
'''),(UT,'''func norm(v []float64) {''','''func bestOf(sum *Sum, tab StorerTable) (best []SPN, m float64) {
	m = math.Inf(-1)
	for i, c := range sum.ch {
		v, _ := tab.Single(c)
		switch u := math.Log(sum.w[i]) + v; {
		case u > m:
			best, m = []SPN{c}, u
		case u == m:
			best = append(best, c)
		}
	}
	return best, m
}

func norm(v []float64) {''')]),
('r5-storemap-closure','',[(UT,'''			mvc := mv[sys.RandIntn(len(mv))]
			if mvc != nil && !V[mvc] {
				Q.Enqueue(mvc)
				V[mvc] = true
			}
		case "product":
			ch := s.Ch()
			for _, c := range ch {
				if !V[c] {
					Q.Enqueue(c)
					V[c] = true
				}
			}
		}
	}

	return S, tk, M
''','''			visit(mv[sys.RandIntn(len(mv))])
		case "product":
			for _, c := range s.Ch() {
				visit(c)
			}
		}
	}

	return S, tk, M
'''),(UT,'''	M := make(VarSet)

	// Find MAP states.
''','''	M := make(VarSet)
	visit := func(c SPN) {
		if c == nil || V[c] {
			return
		}
		V[c] = true
		Q.Enqueue(c)
	}

	// Find MAP states.
''')]),
('r5-tracemap-vals','',[(UT,'''			mv := math.Inf(-1)
			for i, c := range ch {
				v := tab[c]
				u := math.Log(W[i]) + v
				if u > mv {
					mv = u
				}
			}
			tab[s] = mv
''','''			mv := math.Inf(-1)
			for i := range ch {
				mv = math.Max(mv, tab[ch[i]]+math.Log(W[i]))
			}
			tab[s] = mv
''')]),
('r5-normspn-bfs','',[(UT,'''	Q := common.Queue{}
	V := make(map[SPN]bool)

	Q.Enqueue(S)
	V[S] = true

	for !Q.Empty() {
		s := Q.Dequeue().(SPN)
		if s.Type() == "sum" {
			z := s.(*Sum)
			W := z.Weights()
			norm(W)
		}
		ch := s.Ch()
		for _, c := range ch {
			if !V[c] {
				Q.Enqueue(c)
				V[c] = true
			}
		}
	}

	return S
''','''	BreadthFirst(S, func(s SPN) int {
		if z, ok := s.(*Sum); ok {
			norm(z.Weights())
		}
		return 0
	})
	return S
''')]),
('r5-height-rec','',[(UT,'''	T := common.Queue{}
	TopSortTarjan(S, &T)

	// Height of each node: one more than its tallest child.
	H := make(map[SPN]int)
	for !T.Empty() {
		s := T.Dequeue().(SPN)
		for _, c := range s.Ch() {
			if h := H[c] + 1; h > H[s] {
				H[s] = h
			}
		}
	}

	return H[S]
''','''	return heightOf(S, make(map[SPN]int))
}

func heightOf(s SPN, H map[SPN]int) int {
	if h, ok := H[s]; ok {
		return h
	}
	h := 0
	for _, c := range s.Ch() {
		if t := heightOf(c, H) + 1; t > h {
			h = t
		}
	}
	H[s] = h
	return h
''')]),
('r5-scope-seen','',[(UT,'''			msc := make(map[int]bool)
			for _, c := range ch {
				csc := c.rawSc()
				for _, v := range csc {
					msc[v] = true
				}
			}
			var sc []int
			for k, _ := range msc {
				sc = append(sc, k)
			}
			s.setRawSc(sc)
''','''			seen := make(map[int]bool)
			var sc []int
			for _, c := range ch {
				for _, v := range c.rawSc() {
					if seen[v] {
						continue
					}
					seen[v] = true
					sc = append(sc, v)
				}
			}
			s.setRawSc(sc)
''')]),
('r5-compl-sets','',[(UT,COMPL,'''			sc := setOf(s.rawSc())
			for _, c := range ch {
				csc := setOf(c.rawSc())
				if len(csc) != len(sc) {
					return false
				}
				for u := range csc {
					if !sc[u] {
						return false
					}
				}
			}
'''),(UT,'''// Complete returns''','''func setOf(v []int) map[int]bool {
	m := make(map[int]bool, len(v))
	for _, u := range v {
		m[u] = true
	}
	return m
}

// Complete returns''')]),
('r5-compl-func','',[(UT,COMPL,'''			if !sameScopes(s) {
				return false
			}
'''),(UT,'''// Complete returns''','''func sameScopes(s SPN) bool {
	sc, ch := s.rawSc(), s.Ch()
	v := make(map[int]int)
	for _, u := range sc {
		v[u] = 1
	}
	for _, c := range ch {
		csc := c.rawSc()
		if len(csc) != len(sc) {
			return false
		}
		for _, u := range csc {
			if _, e := v[u]; !e {
				return false
			}
			v[u]++
		}
	}
	for _, u := range v {
		if u != len(ch)+1 {
			return false
		}
	}
	return true
}

// Complete returns''')]),
('r5-decomp-seen','',[(UT,DECOMP,'''			seen := make(map[int]bool)
			for _, c := range ch {
				for _, u := range c.rawSc() {
					if seen[u] {
						return false
					}
					seen[u] = true
				}
			}
			if len(seen) != len(s.rawSc()) {
				return false
			}
''')]),
('r5-multi-mode','',[(MU,COUNTP+MODE,COUNTP+'''	mi, m := pickMode(pr)
'''),(MU,'''	n := len(dist)
	m := -1.0
	miv := make([]int, n)
	var mi int
	nmi := 0
	for i := 0; i < n; i++ {
		if dist[i] > m {
			m = dist[i]
			miv[0] = i
			mi = i
			nmi = 1
		} else {
			if dist[i] == m {
				miv[nmi] = i
				nmi++
			}
		}
	}
	if nmi > 1 {
		mi = miv[sys.RandIntn(nmi)]
	}
''','''	mi, m := pickMode(dist)
'''),(MU,'''// NewMultinomial constructs''','''func pickMode(pr []float64) (int, float64) {
	m := -1.0
	var ties []int
	for i, p := range pr {
		if p > m {
			m, ties = p, []int{i}
		} else if p == m {
			ties = append(ties, i)
		}
	}
	switch len(ties) {
	case 0:
		return 0, m
	case 1:
		return ties[0], m
	}
	return ties[sys.RandIntn(len(ties))], m
}

// NewMultinomial constructs''')]),
('r5-multi-mode2','',[(MU,COUNTP+MODE,COUNTP+'''	m, mi := -1.0, 0
	for _, p := range pr {
		if p > m {
			m = p
		}
	}
	var miv []int
	for i := range pr {
		if pr[i] == m {
			miv = append(miv, i)
		}
	}
	if len(miv) > 0 {
		mi = miv[0]
	}
	if len(miv) > 1 {
		mi = miv[sys.RandIntn(len(miv))]
	}
''')]),
('r5-multi-laplace','',[('@1',MU,COUNTP,'''	pr := laplace(counts)

'''),('@1',MU,COUNTP,'''	pr := laplace(counts)

'''),(MU,'''// NewMultinomial constructs''','''func laplace(counts []int) []float64 {
	total := len(counts)
	for _, c := range counts {
		total += c
	}
	pr := make([]float64, len(counts))
	for i, c := range counts {
		pr[i] = float64(c+1) / float64(total)
	}
	return pr
}

// NewMultinomial constructs''')]),
('r5-multi-logp','',[('@1',MU,'''	v, ok := val[m.varid]
	if ok {
		return math.Log(m.pr[v])
	}
	return 0.0 // ln(1.0) = 0.0
''','''	if l, ok := m.logp(val); ok {
		return l
	}
	return 0.0 // ln(1.0) = 0.0
'''),('@1',MU,'''	v, ok := val[m.varid]
	if ok {
		return math.Log(m.pr[v])
	}
	return math.Log(m.mode.val)
}
''','''	l, ok := m.logp(val)
	if !ok {
		l = math.Log(m.mode.val)
	}
	return l
}

func (m *Multinomial) logp(val VarSet) (float64, bool) {
	v, ok := val[m.varid]
	if !ok {
		return 0, false
	}
	return math.Log(m.pr[v]), true
}
''')]),
('r5-multi-argmax','',[(MU,'''	retval := make(VarSet)
	v, ok := val[m.varid]

	if ok {
		retval[m.varid] = v
		return retval, math.Log(m.pr[v])
	}

	retval[m.varid] = m.mode.index
	return retval, math.Log(m.mode.val)
''','''	v, p := m.mode.index, m.mode.val
	if u, ok := val[m.varid]; ok {
		v, p = u, m.pr[u]
	}
	return VarSet{m.varid: v}, math.Log(p)
''')]),
('r5-multi-musigma','',[(MU,'''	mu := m.Mean()
	var sd float64
	for i, p := range m.pr {
		d := float64(i) - mu
		sd += p * d * d
	}
	sd = math.Sqrt(sd)
	return mu, sd
''','''	return m.Mean(), m.StdDev()
''')]),
('r5-multi-decode','',[(MU,'''	imode, mode := computeMode(m.pr)
	m.mode.index, m.mode.val = imode, mode
	return nil
''','''	m.mode = Mode{}
	m.mode.index, m.mode.val = computeMode(m.pr)
	return nil
'''),(MU,'''	var i int
	var m float64
	for j, p := range pr {
		if p > m {
			i, m = j, p
		}
	}
	return i, m
''','''	best := 0
	var m float64
	for j := range pr {
		if pr[j] <= m {
			continue
		}
		best = j
		m = pr[j]
	}
	return best, m
''')]),
('r5-gauss-moments','',[('@1',GA,'''	var mean, sd float64
	var N int
	n := len(counts)

	for i := range counts {
		N += counts[i]
	}

	for i := 0; i < n; i++ {
		mean += float64(counts[i]) / float64(N) * float64(i)
	}

	for i := 0; i < n; i++ {
		d := float64(i) - mean
		sd += (float64(counts[i]) / float64(N)) * d * d
	}
	sd = math.Sqrt(sd)
''','''	mean, sd := moments(counts)
'''),(GA,'''// NewGaussian constructs''','''func moments(counts []int) (mean, sd float64) {
	var total float64
	for _, c := range counts {
		total += float64(c)
	}
	for i, c := range counts {
		mean += float64(c) * float64(i) / total
	}
	var variance float64
	for i, c := range counts {
		variance += math.Pow(float64(i)-mean, 2) * float64(c) / total
	}
	return mean, math.Sqrt(variance)
}

// NewGaussian constructs''')]),
('r5-gauss-max','',[(GA,'''	v, ok := val[g.varid]
	if g.dist.Sigma == 0 {
		if !ok {
			return 0.0 // ln(1.0) = 0.0
		}
		return zeroSigma(v, ok, g.dist.Mu)
	} else if ok {
		return g.dist.LogProb(float64(v))
	}
	return g.dist.LogProb(g.dist.Mu)
''','''	if _, ok := val[g.varid]; ok {
		return g.Value(val)
	}
	if g.dist.Sigma == 0 {
		return 0.0
	}
	return g.dist.LogProb(g.dist.Mu)
''')]),
('r5-gauss-argmax','',[(GA,'''	retval := make(VarSet)
	v, ok := val[g.varid]

	if g.dist.Sigma == 0 {
		if ok {
			retval[g.varid] = v
			return retval, zeroSigma(v, ok, g.dist.Mu)
		}
		retval[g.varid] = int(g.dist.Mu)
		return retval, 0.0
	} else if ok {
		retval[g.varid] = v
		z := g.dist.LogProb(float64(v))
		return retval, z
	}

	retval[g.varid] = int(math.Round(g.dist.Mu))
	return retval, g.dist.LogProb(g.dist.Mu)
''','''	v, ok := val[g.varid]
	if !ok {
		if g.dist.Sigma == 0 {
			v = int(g.dist.Mu)
		} else {
			v = int(math.Round(g.dist.Mu))
		}
	}
	return VarSet{g.varid: v}, g.Max(val)
''')]),
('r5-gauss-value','',[(GA,'''	v, ok := val[g.varid]
	var l float64
	if ok && g.dist.Sigma == 0 {
		return zeroSigma(v, ok, g.dist.Mu)
	} else if ok {
		l = g.dist.LogProb(float64(v))
	} else {
		l = 0.0 // ln(1.0) = 0.0
	}
''','''	v, ok := val[g.varid]
	if !ok {
		return 0
	}
	if g.dist.Sigma == 0 {
		return zeroSigma(v, true, g.dist.Mu)
	}
	l := g.dist.LogProb(float64(v))
''')]),
('r5-params-shared','',[(SU,'''	p, e := parameters.Retrieve(s)
	if !e {
		p = parameters.Default()
		parameters.Bind(s, p)
	}
	return p
''','''	return boundTo(s)
'''),(MU,'''	p, e := parameters.Retrieve(m)
	if !e {
		p = parameters.Default()
		parameters.Bind(m, p)
	}
	return p
''','''	return boundTo(m)
'''),(GA,'''	p, e := parameters.Retrieve(g)
	if !e {
		p = parameters.Default()
		parameters.Bind(g, p)
	}
	return p
''','''	return boundTo(g)
'''),(NO,'''	p, e := parameters.Retrieve(n)
	if !e {
		p = parameters.Default()
		parameters.Bind(n, p)
	}
	return p
''','''	return boundTo(n)
}

func boundTo(e parameters.Parametrizable) *parameters.P {
	if p, ok := parameters.Retrieve(e); ok {
		return p
	}
	p := parameters.Default()
	parameters.Bind(e, p)
	return p
''')]),
('r5-sum-argmax','',[(SU,'''	n, max := len(s.ch), math.Inf(-1)
	var mch SPN

	for i := 0; i < n; i++ {
		ch := s.ch[i]
		m := math.Log(s.w[i]) + ch.Max(val)
		if mch == nil || m > max {
			max, mch = m, ch
		}
	}

	amax, _ := mch.ArgMax(val)
	return amax, max
''','''	best := 0
	max := math.Log(s.w[0]) + s.ch[0].Max(val)
	for i := 1; i < len(s.ch); i++ {
		if m := math.Log(s.w[i]) + s.ch[i].Max(val); m > max {
			best, max = i, m
		}
	}
	amax, _ := s.ch[best].ArgMax(val)
	return amax, max
''')]),
('r5-sum-argmax2','',[(SU,'''	var mch SPN

	for i := 0; i < n; i++ {
		ch := s.ch[i]
		m := math.Log(s.w[i]) + ch.Max(val)
		if mch == nil || m > max {
			max, mch = m, ch
		}
	}

	amax, _ := mch.ArgMax(val)
	return amax, max
''','''	mi := -1
	for i := 0; i < n; i++ {
		m := s.ch[i].Max(val) + math.Log(s.w[i])
		if mi < 0 || m > max {
			mi = i
			max = m
		}
	}

	amax, _ := s.ch[mi].ArgMax(val)
	return amax, max
''')]),
('r5-prod-argmax','',[(PD,'''		chargs, chmap := p.ch[i].ArgMax(val)
		v += chmap
		for k, val := range chargs {
			argmax[k] = val
		}
	}
''','''		chargs, chmap := p.ch[i].ArgMax(val)
		argmax.include(chargs)
		v += chmap
	}
'''),(PD,'''// AddChild adds''','''func (v VarSet) include(u VarSet) {
	for k, x := range u {
		v[k] = x
	}
}

// AddChild adds''')]),
('r5-sum-gob','',[(SU,'''	var b bytes.Buffer
	fmt.Fprintf(&b, "%d", len(s.w))
	for _, w := range s.w {
		fmt.Fprintf(&b, " %g", w)
	}
	return b.Bytes(), nil
''','''	b := &bytes.Buffer{}
	_, err := fmt.Fprint(b, len(s.w))
	for i := 0; i < len(s.w) && err == nil; i++ {
		_, err = fmt.Fprintf(b, " %g", s.w[i])
	}
	return b.Bytes(), err
''')]),
('r5-logsumexp-max','',[(LO,'''	if len(a) == 0 {
		return LogZero
	}
	max := a[0]
	for _, v := range a {
		if v > max {
			max = v
		}
	}
	if math.IsInf(max, 0) {
		return max
	}
	var l float64
''','''	max := maxOf(a)
	if math.IsInf(max, 0) {
		return max
	}
	var l float64
'''),(LO,'''// LogSumExp takes''','''func maxOf(a []float64) float64 {
	m := LogZero
	for _, v := range a {
		if v > m {
			m = v
		}
	}
	return m
}

// LogSumExp takes''')]),
('r5-lse-pair','',[(LO,'''	var max, min float64
	if l >= r {
		max, min = l, r
	} else {
		max, min = r, l
	}
	if math.IsInf(max, 0) {
		return max
	} else if math.IsInf(min, 0) {
		// When min=LogZero=-inf (i.e. exp(min)=0), ln(exp(max) + exp(min))=ln(exp(max))=max.
		return max
	}
	return math.Log(1.0+math.Exp(min-max)) + max
''','''	if l < r {
		l, r = r, l
	}
	if math.IsInf(l, 0) || math.IsInf(r, 0) {
		return l
	}
	return l + math.Log1p(math.Exp(r-l))
''')]),
('r5-queue-slots','',[(QU,'''	q.c.L.Lock()
	for q.k >= q.n {
		q.c.Wait()
	}
	q.k++
	q.c.L.Unlock()
	q.wg.Add(1)
	go func(id int) {
		defer q.wg.Done()
		f(id)
		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Signal()
	}(i)
}
''','''	q.wg.Add(1)
	q.acquire()
	go func() {
		defer q.wg.Done()
		defer q.release()
		f(i)
	}()
}

func (q *SingleQueue) acquire() {
	q.c.L.Lock()
	defer q.c.L.Unlock()
	for q.k == q.n {
		q.c.Wait()
	}
	q.k++
}

func (q *SingleQueue) release() {
	q.c.L.Lock()
	q.k--
	q.c.Signal()
	q.c.L.Unlock()
}
''')]),
('r5-queue-k1','',[(QU,"""	for q.k >= q.n {""","""	for q.k+1 > q.n {""")]),
('r5-queue-free','',[(QU,"""	for q.k >= q.n {""","""	for q.n-q.k < 1 {""")]),
('r5-queue-full','',[(QU,"""	for q.k >= q.n {""","""	for q.full() {"""),(QU,"""// Wait waits""","""func (q *SingleQueue) full() bool { return q.k >= q.Allowed() }

// Wait waits""")]),
('r5-score-shared','',[(SC,POST,'''		s.Register(classify(N, copyExcept(T[i], v), v, classVar.Categories, tk, st), L[i])
'''),(SC,POSTCONC,'''				ml := classify(N, I, v, c, tk, st)
'''),(SC,'''				mu.Unlock()
				st.Reset(tk)
''','''				mu.Unlock()
'''),(SC,'''func copyExcept(''','''func classify(N spn.SPN, I spn.VarSet, v, c, tk int, st *spn.Storer) int {
	prob := func() float64 {
		st.Reset(tk)
		spn.StoreInference(N, I, tk, st)
		p, _ := st.Single(tk, N)
		return p
	}
	delete(I, v)
	pe := prob()
	best, label := math.Inf(-1), 0
	for j := 0; j < c; j++ {
		I[v] = j
		if p := prob() - pe; p > best {
			best, label = p, j
		}
	}
	delete(I, v)
	return label
}

func copyExcept(''')]),
('r5-score-confusion','',[(SC,'''	M := make([][]int, c)
	for i := 0; i < c; i++ {
		M[i] = make([]int, c)
	}
	for _, p := range s.predictions {
		M[p.Expected][p.Predicted]++
	}
	return M
''','''	cells := make([]int, c*c)
	M := make([][]int, c)
	for i := range M {
		M[i] = cells[i*c : (i+1)*c : (i+1)*c]
	}
	for i := range s.predictions {
		p := &s.predictions[i]
		M[p.Expected][p.Predicted]++
	}
	return M
''')]),
('r5-score-add','',[(SC,'''	m := NewScore()
	m.hits = s.hits + t.hits
	m.misses = s.misses + t.misses
	m.total = s.total + t.total
	m.predictions = append(m.predictions, s.predictions...)
	m.predictions = append(m.predictions, t.predictions...)
	return m
''','''	m := NewScore()
	m.Merge(s)
	m.Merge(t)
	return m
''')]),
('r5-score-register','',[(SC,'''	if predicted == expected {
		s.hits++
	} else {
		s.misses++
	}
	s.total++
	s.predictions = append(s.predictions, Pair{predicted, expected})
''','''	p := Pair{Expected: expected, Predicted: predicted}
	s.predictions = append(s.predictions, p)
	s.total++
	if p.Predicted != p.Expected {
		s.misses++
		return
	}
	s.hits++
''')]),
('r5-gens-shared','',[(GE,'''	n := len(sc)
	// If the data's scope is unary, then we return a leaf (i.e. a univariate distribution).
	if n == 1 {
		var tv *learn.Variable
		for _, v := range sc {
			tv = v
		}
		return newMultinom(tv, data)
	}

	// Else we check for independent subsets of variables. We separate variables in k partitions,
	// where every partition is pairwise indepedent with each other.
	vdata := learn.DataToVarData(data, sc)
	// Independency graph.
	igraph := indep.NewUFIndepGraph(vdata, pval)
	vdata = nil
	// If true, then we can partition the set of variables in data into independent subsets. This
	// means we can create a product node (since product nodes' children have disjoint scopes).
	if len(igraph.Kset) > 1 {
		return indepStep(1, kclusters, 0, pval, eps, mp, data, sc, igraph)
	}
	igraph = nil
	// Else we perform k-clustering on the instances.
	return clusterStep(1, kclusters, 0, pval, eps, mp, data, sc)
''','''	return LearnConcurrent(sc, data, kclusters, pval, eps, mp, 1)
''')]),
('r5-gens-leaf','',[(GE,'''		var tv *learn.Variable
		for _, v := range sc {
			tv = v
		}
		return newMultinom(tv, data)
	}
	vdata''','''		for _, v := range sc {
			return newMultinom(v, data)
		}
	}
	vdata''')]),
('r5-gens-factor','',[(GE,'''			counts := make([]int, v.Categories)
			for i := 0; i < m; i++ {
				counts[D[i][v.Varid]]++
			}
			leaf := spn.NewCountingMultinomial(v.Varid, counts)
			prod.AddChild(leaf)
''','''			prod.AddChild(newMultinom(v, D))
'''),(GE,'''		m := len(D)
		for _, v := range Sc {
''','''		for _, v := range Sc {
'''),(GE,'''			X := learn.ExtractInstance(v.Varid, D)
			Q := utils.PartitionQuantiles(X, g)
			z := spn.NewSum()
			for _, q := range Q {
				z.AddChildW(spn.NewGaussianParams(v.Varid, q[0], q[1]), 1.0/float64(len(Q)))
			}
			prod.AddChild(z)
''','''			prod.AddChild(newGaussMix(v.Varid, g, D))
''')]),
('r5-gens-learnsub','',[(GE,'''		var nc spn.SPN
		if g > 0 {
			nc = LearnGauss(nsc, tdata, kc, pval, eps, mp, g)
		} else {
			nc = Learn(nsc, tdata, kc, pval, eps, mp)
		}
		mu.Lock()
		prod.AddChild(nc)
		mu.Unlock()
''','''		nc := learnSub(nsc, tdata, kc, pval, eps, mp, g)
		mu.Lock()
		defer mu.Unlock()
		prod.AddChild(nc)
'''),(GE,'''		var nc spn.SPN
		if g > 0 {
			nc = LearnGauss(nsc, clusters[id], k, pval, eps, mp, g)
		} else {
			nc = Learn(nsc, clusters[id], k, pval, eps, mp)
		}
''','''		part := clusters[id]
		nc := learnSub(nsc, part, k, pval, eps, mp, g)
		w := float64(len(part)) / float64(len(D))
'''),(GE,'''		sum.AddChildW(nc, float64(len(clusters[id]))/float64(len(D)))
''','''		sum.AddChildW(nc, w)
'''),(GE,'''func clusterStep(''','''func learnSub(sc map[int]*learn.Variable, D []map[int]int, k int, pval, eps float64, mp, g int) spn.SPN {
	if g > 0 {
		return LearnGauss(sc, D, k, pval, eps, mp, g)
	}
	return Learn(sc, D, k, pval, eps, mp)
}

func clusterStep(''')]),
('r5-gens-project','',[(GE,'''		tdata := make([]map[int]int, tn)
		s := len((*kset)[id])
		for j := 0; j < tn; j++ {
			tdata[j] = make(map[int]int)
			for l := 0; l < s; l++ {
				k := (*kset)[id][l]
				tdata[j][k] = D[j][k]
			}
		}
		nsc := make(map[int]*learn.Variable)
		for j := 0; j < s; j++ {
			t := (*kset)[id][j]
			nsc[t] = &learn.Variable{Varid: t, Categories: Sc[t].Categories, Name: ""}
		}
''','''		tdata, nsc := project(D, Sc, (*kset)[id])
'''),(GE,'''	tn := len(D)
	step := func''','''	step := func'''),(GE,'''func indepStep(''','''func project(D []map[int]int, Sc map[int]*learn.Variable, vars []int) ([]map[int]int, map[int]*learn.Variable) {
	var P []map[int]int
	for _, I := range D {
		J := make(map[int]int, len(vars))
		for _, v := range vars {
			J[v] = I[v]
		}
		P = append(P, J)
	}
	nsc := make(map[int]*learn.Variable, len(vars))
	for _, v := range vars {
		nsc[v] = &learn.Variable{Varid: v, Categories: Sc[v].Categories}
	}
	return P, nsc
}

func indepStep(''')]),
('r5-gens-branch','',[(GE,'''	for i := 0; i < m; i++ {
		if np != 1 {
			Q.Run(step, i)
		} else {
			step(i)
		}
	}
	if np != 1 {
		Q.Wait()
	}
	return prod
''','''	if np == 1 {
		for i := 0; i < m; i++ {
			step(i)
		}
		return prod
	}
	for i := 0; i < m; i++ {
		Q.Run(step, i)
	}
	Q.Wait()
	return prod
''')]),
('r5-gens-runall','',[(GE,'''	for i := 0; i < m; i++ {
		if np != 1 {
			Q.Run(step, i)
		} else {
			step(i)
		}
	}
	if np != 1 {
		Q.Wait()
	}
	return prod
''','''	runAll(np, m, step)
	return prod
'''),(GE,'''	for i := range clusters {
		if np != 1 {
			Q.Run(step, i)
		} else {
			step(i)
		}
	}
	if np != 1 {
		Q.Wait()
	}
	return sum
''','''	runAll(np, len(clusters), step)
	return sum
'''),('@1',GE,'''	Q := conc.NewSingleQueue(np)
	mu :=''','''	mu :='''),('@1',GE,'''	Q := conc.NewSingleQueue(np)
	mu :=''','''	mu :='''),(GE,'''func indepStep(''','''func runAll(np, n int, f func(int)) {
	if np == 1 {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	Q := conc.NewSingleQueue(np)
	defer Q.Wait()
	for i := 0; i < n; i++ {
		Q.Run(f, i)
	}
}

func indepStep(''')]),
('r5-data-parts','',[(DM,'''	S := cascadeRounding(q)
	M := make([][]map[int]int, m)
	var k int
	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j := 0; j < s; j++ {
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[R[k]])
			k++
		}
	}
	return M
''','''	M := make([][]map[int]int, m)
	for i, s := range cascadeRounding(q) {
		M[i] = make([]map[int]int, s)
		for j := range M[i] {
			M[i][j] = cloneRow(D[R[j]])
		}
		R = R[s:]
	}
	return M
}

func cloneRow(I map[int]int) map[int]int {
	J := make(map[int]int, len(I))
	copyMap(J, I)
	return J
''')]),
('r5-data-divide','',[(DM,'''	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			p := i*k + j
			M := make(map[int]int)
			copyMap(M, D[p])
			Gd[i] = append(Gd[i], M)
			Gl[i] = append(Gl[i], L[p])
		}
	}
	for i := 0; i < l; i++ {
		p := m - i - 1
		M := make(map[int]int)
		copyMap(M, D[p])
		Gd[i] = append(Gd[i], M)
		Gl[i] = append(Gl[i], L[p])
	}
	return Gd, Gl
''','''	give := func(i, p int) {
		M := make(map[int]int)
		copyMap(M, D[p])
		Gd[i] = append(Gd[i], M)
		Gl[i] = append(Gl[i], L[p])
	}
	for p := 0; p < n*k; p++ {
		give(p/k, p)
	}
	for i := 0; i < l; i++ {
		give(i, m-1-i)
	}
	return Gd, Gl
''')]),
('r5-data-divide-rr','',[(DM,'''	m := len(D)
	k, l := m/n, m%n
	Gd := make([][]map[int]int, n)
	Gl := make([][]int, n)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			p := i*k + j
			M := make(map[int]int)
			copyMap(M, D[p])
			Gd[i] = append(Gd[i], M)
			Gl[i] = append(Gl[i], L[p])
		}
	}
	for i := 0; i < l; i++ {
		p := m - i - 1
		M := make(map[int]int)
		copyMap(M, D[p])
		Gd[i] = append(Gd[i], M)
		Gl[i] = append(Gl[i], L[p])
	}
	return Gd, Gl
''','''	Gd := make([][]map[int]int, n)
	Gl := make([][]int, n)
	for p, I := range D {
		i := p % n
		M := make(map[int]int)
		copyMap(M, I)
		Gd[i] = append(Gd[i], M)
		Gl[i] = append(Gl[i], L[p])
	}
	return Gd, Gl
''')]),
('r5-data-join','',[(DM,'''	F := make([]map[int]int, o)
	var P []int
	if c {
		P = make([]int, o)
	}
	for i := 0; i < n; i++ {
		F[i] = make(map[int]int)
		copyMap(F[i], D[i])
		if c {
			P[i] = L[i]
		}
	}
	for i := n; i < o; i++ {
		F[i] = make(map[int]int)
		copyMap(F[i], E[i-n])
		if c {
			P[i] = M[i-n]
		}
	}
	return F, P
''','''	F := make([]map[int]int, 0, o)
	for _, X := range [][]map[int]int{D, E} {
		for _, I := range X {
			J := make(map[int]int)
			copyMap(J, I)
			F = append(F, J)
		}
	}
	if !c {
		return F, nil
	}
	P := make([]int, 0, o)
	P = append(P, L...)
	P = append(P, M...)
	return F, P
''')]),
('r5-data-join2','',[(DM,'''	for i := 0; i < n; i++ {
		F[i] = make(map[int]int)
		copyMap(F[i], D[i])
		if c {
			P[i] = L[i]
		}
	}
	for i := n; i < o; i++ {
		F[i] = make(map[int]int)
		copyMap(F[i], E[i-n])
		if c {
			P[i] = M[i-n]
		}
	}
	return F, P
''','''	for i := range F {
		F[i] = make(map[int]int)
		if i < n {
			copyMap(F[i], D[i])
		} else {
			copyMap(F[i], E[i-n])
		}
	}
	if c {
		copy(P, L)
		copy(P[n:], M)
	}
	return F, P
''')]),
('r5-data-extract','',[(DM,'''		k := 0
		M[i] = make(map[int]int)
		for p, v := range I {
			if p > k {
				k = p
			}
			M[i][p] = v
		}
		l := I[k]
		L[i] = l
		delete(M[i], k)
''','''		last := 0
		for p := range I {
			if p > last {
				last = p
			}
		}
		L[i] = I[last]
		J := make(map[int]int, len(I))
		for p, v := range I {
			if p != last {
				J[p] = v
			}
		}
		M[i] = J
''')]),
('r5-data-subtract','',[(DM,'''		if L[i] == l {
			t := make(map[int]int)
			copyMap(t, D[i])
			T = append(T, t)
			Q = append(Q, l)
		} else {
			s := make(map[int]int)
			copyMap(s, D[i])
			S = append(S, s)
			P = append(P, L[i])
		}
''','''		I := make(map[int]int)
		copyMap(I, D[i])
		if L[i] != l {
			S, P = append(S, I), append(P, L[i])
			continue
		}
		T, Q = append(T, I), append(Q, L[i])
''')]),
('r5-marshal-two','',[(SR,'''		list = append(list, []uint32{})
		M[Z] = n
		// Invariant: because of topological order, any child of Z has already been visited.
		for _, c := range Z.Ch() {
			p := M[c]
			list[n] = append(list[n], p)
		}
		enc.Encode(n)
''','''		M[Z] = n
		ch := Z.Ch()
		row := make([]uint32, len(ch))
		for i := range ch {
			row[i] = M[ch[i]]
		}
		list = append(list, row)
		enc.Encode(n)
''')]),
('r5-unmarshal-two','',[(SR,'''	M := make([]SPN, n)
	for i := uint32(0); i < n; i++ {
		var k uint32
		dec.Decode(&k)
		Z := decodeSPN(dec)
		M[k] = Z
	}
''','''	M := make([]SPN, int(n))
	for range M {
		k := decodeIndex(dec)
		M[k] = decodeSPN(dec)
	}
'''),(SR,'''func Marshal(''','''func decodeIndex(dec *gob.Decoder) uint32 {
	var k uint32
	dec.Decode(&k)
	return k
}

func Marshal(''')]),
('r5-derive-accum','',[(DE,'''				v, e := table.Single(cs)
				if !e {
					table.StoreSingle(cs, math.Log(W[i])+pv)
				} else {
					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
				}
''','''				accumulate(table, cs, pv+math.Log(W[i]))
'''),(DE,'''				v, e := table.Single(cs)
				t := pv
''','''				t := pv
'''),(DE,'''				//sys.Printf("  i: %d, v: %f, e: %v, t: %f, ch: %p\\n", i, v, e, t, cs)
				if !e {
					table.StoreSingle(cs, t)
				} else {
					//table.StoreSingle(cs, math.Log(math.Exp(v)+math.Exp(t)))
					table.StoreSingle(cs, utils.LogSumExpPair(v, t))
				}
''','''				accumulate(table, cs, t)
'''),(DE,'''// DeriveWeights computes''','''func accumulate(tab spn.StorerTable, s spn.SPN, d float64) {
	if v, e := tab.Single(s); e {
		d = utils.LogSumExpPair(v, d)
	}
	tab.StoreSingle(s, d)
}

// DeriveWeights computes''')]),
('r5-derive-typeswitch','',[(DE,'''		if s.Type() == "sum" {
			sum := s.(*spn.Sum)
			W := sum.Weights()
			for i, cs := range ch {
				v, e := table.Single(cs)
''','''		if sum, ok := s.(*spn.Sum); ok {
			W := sum.Weights()
			for i, cs := range ch {
				v, e := table.Single(cs)
''')]),
('r5-derive-batchwalk','',[('@1',DE,'''	wt, _ := storage.Table(tk)
	st, _ := storage.Table(dtk)
	it, _ := storage.Table(itk)
	visited := make(map[spn.SPN]bool)
	c.Give(S)
	visited[S] = true

	for !c.Empty() {
		s := c.Take().(spn.SPN)
		ch := s.Ch()
		pv, _ := st.Single(s)
		if s.Type() == "sum" {
			for i, cs := range ch {
				v, _ := it.Single(cs)
				wt.Store(s, i, v+pv)
			}
		}

		for _, cs := range ch {
			if cs.Type() != "leaf" && !visited[cs] {
				c.Give(cs)
				visited[cs] = true
			}
		}
	}

	visited = nil
	c = nil
	sys.Free()
	return S, tk
''','''	wt, _ := storage.Table(tk)
	st, _ := storage.Table(dtk)
	it, _ := storage.Table(itk)
	forEachInner(S, c, func(s spn.SPN) {
		if s.Type() != "sum" {
			return
		}
		pv, _ := st.Single(s)
		for i, cs := range s.Ch() {
			v, _ := it.Single(cs)
			wt.Store(s, i, v+pv)
		}
	})
	sys.Free()
	return S, tk
}

func forEachInner(S spn.SPN, c common.Collection, f func(spn.SPN)) {
	visited := map[spn.SPN]bool{S: true}
	c.Give(S)
	for !c.Empty() {
		s := c.Take().(spn.SPN)
		f(s)
		for _, cs := range s.Ch() {
			if cs.Type() != "leaf" && !visited[cs] {
				c.Give(cs)
				visited[cs] = true
			}
		}
	}
''')]),
# ---- bugs
('b5-inf-leafonly','C10',[(UT,'''			if varid := s.Sc()[0]; varid == Y {''','''			if varid := s.Sc()[0]; varid == Y && len(I) > 0 {''')]),
('b5-storeinf-missing','C10',[(UT,'''				vals[i], _ = table.Single(cs)
			}
			table.StoreSingle(s, prod.Compute(vals))''','''				if v, e := table.Single(cs); e && !math.IsInf(v, 0) {
					vals[i] = v
				}
			}
			table.StoreSingle(s, prod.Compute(vals))''')]),
('b5-storemap-tie-weight','C11',[(UT,'''				u := math.Log(W[i]) + v
				if u > m {
					mv, m = []SPN{c}, u
				} else if u == m {''','''				u := math.Log(W[i]) + v
				if u > m {
					mv, m = []SPN{c}, u
				} else if u >= m-1e-9 {''')]),
('b5-storemap-first','C11',[(UT,'''				if u > m {
					mv, m = []SPN{c}, u
				} else if u == m {
					mv = append(mv, c)
				}
			}
			// Randomly break ties.
			mvc :=''','''				if u > m {
					mv, m = append(mv, c), u
				} else if u == m {
					mv = append(mv, c)
				}
			}
			// Randomly break ties.
			mvc :=''')]),
('b5-sum-max-zero','C11',[(SU,'''		cv := math.Log(s.w[i]) + s.ch[i].Max(val)
		if cv > max {''','''		if s.w[i] <= 1e-300 {
			continue
		}
		cv := math.Log(s.w[i]) + s.ch[i].Max(val)
		if cv > max {''')]),
('b5-prod-argmax-keep','C11',[(PD,'''		for k, val := range chargs {
			argmax[k] = val
		}''','''		for k, x := range chargs {
			if _, e := val[k]; !e {
				argmax[k] = x
			}
		}''')]),
('b5-multi-tie','C14',[('@1',MU,'''			miv[0] = i
			mi = i
			nmi = 1''','''			miv[0] = i
			mi = i''')]),
('b5-multi-counts','C14',[('@1',MU,'''		s += 1.0 + float64(counts[i])
		pr[i] = float64(1 + counts[i])''','''		s += float64(counts[i])
		pr[i] = float64(1 + counts[i])''')]),
('b5-multi-scopedmode','C14',[(MU,'''	var m float64
	var mi int

	for i := 0; i < n; i++ {
		if pr[i] > m {''','''	var m float64
	var mi int

	for i := 1; i < n; i++ {
		if pr[i] > m {''')]),
('b5-gauss-argmax-trunc','?',[(GA,'''	retval[g.varid] = int(math.Round(g.dist.Mu))''','''	retval[g.varid] = int(g.dist.Mu)''')]),
('b5-gauss-max-sigma','C13',[(GA,'''	return g.dist.LogProb(g.dist.Mu)
}

// ArgMax''','''	return math.Log(GaussMax)
}

// ArgMax''')]),
('b5-gauss-raw-n1','C14',[(GA,'''	sd = math.Sqrt(sd / float64(n))''','''	sd = math.Sqrt(sd / float64(n-1))''')]),
('b5-gauss-mode-tie','?',[(GA,'''		if c > max {
			max, mode = c, float64(i)''','''		if c >= max {
			max, mode = c, float64(i)''')]),
('b5-height-leaf','?',[(NO,'''			if t > v {
				v = t
			}''','''			if t > v && n.ch[i].Type() != "leaf" {
				v = t
			}''')]),
('b5-sum-gob-f','C23',[(SU,'''		fmt.Fprintf(&b, " %g", w)''','''		fmt.Fprintf(&b, " %.10g", w)''')]),
('b5-gauss-gob-order','C23',[(GA,'''	_, err := fmt.Fscanln(b, &g.varid, &g.dist.Mu, &g.dist.Sigma)''','''	_, err := fmt.Fscanln(b, &g.varid, &g.dist.Sigma, &g.dist.Mu)''')]),
('b5-compl-break','C24',[(UT,'''					_, e := v[u]
					if !e {
						sys.Printf("v[%d] does not exist\\n", u)
						return false
					}''','''					_, e := v[u]
					if !e {
						sys.Printf("v[%d] does not exist\\n", u)
						continue
					}'''),(UT,'''				if u != k {
					sys''','''				if u > k {
					sys''')]),
('b5-decomp-two','C24',[(UT,'''				if u != 2 {''','''				if u > 3 {''')]),
('b5-score-class0','C20',[(SC,'''		for j := 0; j < classVar.Categories; j++ {''','''		for j := 1; j < classVar.Categories; j++ {''')]),
('b5-score-noreset','C20',[(SC,'''		_, _, M := spn.StoreMAP(N, copyExcept(I, v), tk, st)''','''		_, _, M := spn.StoreMAP(N, spn.VarSet(I), tk, st)''')]),
('b5-score-lock','C07',[(SC,'''				mu.Lock()
				s.Register(ml, h[j])
				if _n''','''				s.Register(ml, h[j])
				mu.Lock()
				if _n''')]),
('b5-gens-lock','C07',[(GE,'''		mu.Lock()
		prod.AddChild(nc)
		mu.Unlock()''','''		mu.Lock()
		mu.Unlock()
		prod.AddChild(nc)''')]),
('b5-gens-nowait','C06',[(GE,'''	if np != 1 {
		Q.Wait()
	}
	return sum''','''	if np > 1 {
		Q.Wait()
	}
	return sum''')]),
('b5-gens-weight','C26',[(GE,'''float64(len(clusters[id]))/float64(len(D)))''','''float64(len(clusters[id]))/float64(len(Sc)))''')]),
('b5-gens-k','?',[(GE,'''	if c := len(clusters); c == 1 {''','''	if c := len(clusters); c == k {''')]),
('b5-divide-left','C04',[(DM,'''		p := m - i - 1
		M := make''','''		p := m - l - i
		M := make''')]),
('b5-part-share','C03',[(DM,'''			V := make(map[int]int)
			copyMap(V, D[C[i][l]])''','''			V := D[C[i][l]]''')]),
('b5-sublabel','C04',[(DM,'''			P = append(P, L[i])
		}
	}
	return S, P, T, Q''','''			P = append(P, L[len(P)])
		}
	}
	return S, P, T, Q''')]),
('b5-queue-ge','C06',[(QU,'''	for q.k >= q.n {''','''	for q.k > q.n {''')]),
('b5-queue-plus','C06',[(QU,"""	for q.k >= q.n {""","""	for q.k >= q.n+1 {""")]),
('b5-queue-ne','C06',[(QU,"""	for q.k >= q.n {""","""	for q.k == q.n+1 {""")]),
('b5-queue-if','C06',[(QU,'''	for q.k >= q.n {
		q.c.Wait()
	}
	q.k++
	q.c.L.Unlock()''','''	if q.k >= q.n {
		q.c.Wait()
	}
	q.k++
	q.c.L.Unlock()''')]),
('b5-marshal-idx','C23',[(SR,'''			p := M[c]
			list[n] = append(list[n], p)''','''			if p, e := M[c]; e && p < n {
				M[c] = p
				list[n] = append(list[n], uint32(len(list[n])))
			}''')]),
('b5-unmarshal-root','C23',[(SR,'''	return M[n-1]''','''	return M[len(list)/2]''')]),
('b5-derive-leafinf','C12',[(DE,'''						_v, _ := inf.Single(ch[j])
						t += _v''','''						_v, e := inf.Single(ch[j])
						if e && ch[j].Type() != "leaf" {
							t += _v
						}''')]),
('b5-derive-dup','C12',[(DE,'''					if j != i {
						_v''','''					if _ = i; ch[j] != cs {
						_v''')]),
('b5-lse-zero','C10',[(LO,'''	if math.IsInf(max, 0) {
		return max
	}
	var l float64
	for _, v := range a {
		l += math.Exp(v - max)
	}
	return math.Log(l) + max''','''	if math.IsInf(max, 0) {
		return max
	}
	var l float64
	for _, v := range a {
		if v-max > -30 {
			l += math.Exp(v - max)
		}
	}
	return math.Log(l) + max''')]),
('b5-lsl-sign','?',[(LO,'''	if r < -1.0 {
		return p + math.Log(-1.0-r), -simax
	}''','''	if r < -1.0 {
		return p + math.Log(-1.0-r), simax
	}''')]),
('b5-normspn-skip','?',[(UT,'''			norm(W)
		}''','''			if len(W) > 1 {
				norm(W)
			}
		}''')]),
('b5-scope-dup','C24',[(UT,'''		if len(ch) > 0 {
			msc := make''','''		if len(ch) > 0 && len(s.rawSc()) == 0 {
			msc := make''')]),
]
