SU='spn/sum.go'; PR='spn/product.go'; SP='spn/utils.go'; NO='spn/node.go'; TO='spn/topo.go'; DE='learn/derive.go'
SC='score/score.go'; CQ='conc/queue.go'; RA='sys/rand.go'; PA='learn/parameters/parameters.go'; GE='learn/gens/gens.go'
G='learn/generative.go'; D='learn/discriminative.go'
M=[
('b7-gens-wait','C06',[('@1',GE,'''	if np != 1 {
		Q.Wait()
	}''','''	if np > 1 {
		Q.Wait()
	}''')]),
('b7-gens-wait2','C06',[('@2',GE,'''	if np != 1 {
		Q.Wait()
	}''','''	if np > 0 && np < len(clusters) {
		Q.Wait()
	}''')]),
('b7-gens-run','',[('@1',GE,'''		if np != 1 {
			Q.Run(step, i)
		} else {
			step(i)
		}
	}
	if np != 1 {
		Q.Wait()
	}''','''		if np == 1 {
			step(i)
			continue
		}
		Q.Run(step, i)
	}
	Q.Wait()''')]),
('b7-queue-add','C06',[(CQ,'''	q.wg.Add(1)
	go func(id int) {
		defer q.wg.Done()
''','''	go func(id int) {
		q.wg.Add(1)
		defer q.wg.Done()
''')]),
('b7-queue-early','C06',[(CQ,'''		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Signal()
	}(i)''','''		q.c.L.Lock()
		q.k--
		if q.k > 0 {
			q.c.Signal()
		}
		q.c.L.Unlock()
	}(i)''')]),
('b7-queue-edge','?',[(CQ,'''		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Signal()
	}(i)''','''		q.c.L.Lock()
		full := q.k == q.n
		q.k--
		q.c.L.Unlock()
		if full {
			q.c.Signal()
		}
	}(i)''')]),
('b7-rand-early','C05',[(RA,'''	mu.Lock()
	r := Random.Intn(n)
	mu.Unlock()
	return r''','''	mu.Lock()
	if n == 1 {
		return 0
	}
	r := Random.Intn(n)
	mu.Unlock()
	return r''')]),
('b7-rand-refresh','C05',[(RA,'''	Random = rand.New(rand.NewSource(seed))
	r := Random
	mu.Unlock()
	return r''','''	mu.Unlock()
	Random = rand.New(rand.NewSource(s))
	return Random''')]),
('b7-rand-refresh2','C08',[(RA,'''	mu.Lock()
	seed = s
	Random = rand.New(rand.NewSource(seed))
	r := Random''','''	mu.Lock()
	Random = rand.New(rand.NewSource(seed))
	seed = s
	r := Random''')]),
('b7-rand-same','C08',[(RA,'''	mu.Lock()
	seed = s
	Random = rand.New(rand.NewSource(seed))
	r := Random''','''	mu.Lock()
	if s != seed {
		seed = s
		Random = rand.New(rand.NewSource(seed))
	}
	r := Random''')]),
('b7-bind-check','C05',[(PA,'''	mu.Lock()
	bindings[e] = p
	mu.Unlock()''','''	if _, ok := bindings[e]; ok && p == nil {
		return
	}
	mu.Lock()
	bindings[e] = p
	mu.Unlock()''')]),
('b7-value-zero','C10',[(SU,'''		v, w := s.ch[i].Value(val), math.Log(s.w[i])
		vals[i] = v + w''','''		if s.w[i] == 0 {
			continue
		}
		v, w := s.ch[i].Value(val), math.Log(s.w[i])
		vals[i] = v + w''')]),
('r7-value-zero','',[(SU,'''		v, w := s.ch[i].Value(val), math.Log(s.w[i])
		vals[i] = v + w''','''		vals[i] = utils.LogZero
		if s.w[i] == 0 {
			continue
		}
		vals[i] = s.ch[i].Value(val) + math.Log(s.w[i])''')]),
('b7-inf-seen','?',[('@1',SP,'''			for i, cs := range ch {
				v := V[cs]
				vals[i] = v + math.Log(W[i])
			}''','''			seen := make(map[SPN]bool)
			for i, cs := range ch {
				v := V[cs]
				if seen[cs] {
					v = utils.LogZero
				}
				seen[cs] = true
				vals[i] = v + math.Log(W[i])
			}''')]),
('b7-infy-ev','C10',[(SP,'if varid := s.Sc()[0]; varid == Y {','if _, e := I[Y]; !e && s.Sc()[0] == Y {')]),
('b7-storeinf-reuse','C10',[(SP,'''			table.StoreSingle(s, s.Value(I))''','''			if !table.ExistsSPN(s) {
				table.StoreSingle(s, s.Value(I))
			}''')]),
('b7-map-tol','C11',[('@1',SP,'''				} else if u == m {
					mv = append(mv, c)''','''				} else if m-u < 1e-3 {
					mv = append(mv, c)''')]),
('b7-map-leaf','C09',[('@1',SP,'''				if !V[c] {
					Q.Enqueue(c)
					V[c] = true
				}
			}
		}
	}

	return S, tk, M''','''				if v, _ := tab.Single(c); !V[c] && !math.IsInf(v, -1) {
					Q.Enqueue(c)
					V[c] = true
				}
			}
		}
	}

	return S, tk, M''')]),
('b7-argmax-amax','?',[(SU,'''		if mch == nil || m > max {
			max, mch = m, ch
		}''','''		if mch == nil || s.w[i] > 0 && m > max {
			max, mch = m, ch
		} else if m == max && len(ch.Ch()) == 0 {
			mch = s.ch[0]
		}''')]),
('b7-trace-w','',[(SP,'''				v := tab[c]
				u := math.Log(W[i]) + v
				if u > m {''','''				v := tab[c]
				u := math.Log(W[i]) + v
				if W[i] > 0 && u > m {''')]),
('b7-deriv-sib','C12',[(DE,'''					if j != i {
						_v, _''','''					if _ = i; ch[j] != cs {
						_v, _''')]),
('b7-deriv-skip','C12',[(DE,'''		pv, _ := table.Single(s)
		//sys.Printf''','''		pv, _ := table.Single(s)
		if math.IsInf(pv, -1) {
			continue
		}
		//sys.Printf''')]),
('b7-deriv-quot','?',[(DE,'''				t := pv
				for j := range ch {
					if j != i {
						_v, _ := inf.Single(ch[j])
						t += _v
					}
				}''','''				sv, _ := inf.Single(s)
				cv, _ := inf.Single(cs)
				t := pv + sv - cv
				_ = i''')]),
('b7-wbatch-max','C12',[(DE,'ndw = utils.LogSumExpPair(ndw, dw)','ndw = math.Max(ndw, dw)')]),
('b7-hard-child','C12',[(DE,'''				if mc := ch[mi]; !V[mc] {
					Q.Enqueue(mc)''','''				if mc := ch[mi]; !V[mc] && mc.Type() == "product" {
					Q.Enqueue(mc)''')]),
('b7-apply-one','C15',[(DE,'''				W[i] += eta * math.Exp(v+pv)
			}
			if norm {
				Normalize(W)
			}''','''				W[i] += eta * math.Exp(v+pv)
				if norm {
					Normalize(W)
				}
			}''')]),
('b7-norm-shift','C15',[(DE,'''	if min < 0 {
		for i := range v {
			v[i] -= min
		}
	}''','''	for i := range v {
		if v[i] < 0 {
			v[i] = 0
		}
	}
	_ = min''')]),
('b7-disc-order','C16',[(D,'return DiscriminativeHardGD(S, P.Eta, P.Epsilon, D, Y, P.Normalize)','return DiscriminativeHardGD(S, P.Epsilon, P.Eta, D, Y, P.Normalize)')]),
('b7-hbgd-reset','C16',[(D,'''				applyHDGD(S, d, p, st, eta, P.Lambda, norm, b)
				st.ResetTickets(d, p)
			}''','''				applyHDGD(S, d, p, st, eta, P.Lambda, norm, b)
				st.ResetTickets(d)
			}''')]),
('b7-topo-mark','',[('@1',TO,'''			if !P[c] {
				S.Push(c)
			}
		}
	}
	return C
}

// TopSortTarjanFunc''','''			if !V[c] && !(P[c] && len(c.Ch()) > 0) {
				S.Push(c)
			}
		}
	}
	return C
}

// TopSortTarjanFunc''')]),
('b7-post-leaf','C09',[(TO,'''			if !V[c] {
				V[c] = true
				postOrderRec(c, V, C)
			}''','''			if !V[c] {
				V[c] = len(c.Ch()) > 0
				postOrderRec(c, V, C)
			}''')]),
('b7-score-mp','C20',[('@1',SC,'mp := math.Inf(-1)','mp := pe')]),
('b7-score-cats','?',[(SC,'for j := 0; j < classVar.Categories; j++ {','for j := 0; j < len(L) && j < classVar.Categories; j++ {')]),
('b7-score-merge','C20',[(SC,'''	s.predictions = append(s.predictions, t.predictions...)
}

''','''	if t.misses > 0 {
		s.predictions = append(s.predictions, t.predictions...)
	}
}

''')]),
('b7-score-conc','C07',[(SC,'''	Q := conc.NewSingleQueue(k)
	mu := &sync.Mutex{}
	c, v''','''	Q := conc.NewSingleQueue(k)
	c, v'''),(SC,'''			g, h := G[id], H[id]
''','''			g, h := G[id], H[id]
			mu := &sync.Mutex{}
''')]),
('b7-score-tk','C07',[(SC,'''			st := spn.NewStorer()
			tk := st.NewTicket()
			for j, I := range g {''','''			tk := st.NewTicket()
			for j, I := range g {'''),(SC,'''	mu := &sync.Mutex{}
	c, v''','''	mu := &sync.Mutex{}
	st := spn.NewStorer()
	c, v''')]),
('b7-score-del','C02',[(SC,'''	G, H := data.Divide(D, L, k)
''','''	G, H := make([]spn.Dataset, k), make([][]int, k)
	for i, I := range D {
		G[i%k], H[i%k] = append(G[i%k], I), append(H[i%k], L[i])
	}
'''),(SC,'	"github.com/RenatoGeh/gospn/data"\n','')]),
('b7-gens-mix','C26',[('@1',GE,'1.0/float64(len(Q)))','1.0/float64(g))')]),
('b7-gens-le','C26',[(GE,'if len(D) < k {','if len(D) <= k {')]),
('b7-gens-c2','C26',[(GE,'c == 1 {','c <= 2 {')]),
('b7-gens-scope','C26',[(GE,'''			nc = LearnGauss(nsc, tdata, kc, pval, eps, mp, g)
		} else {
			nc = Learn(nsc, tdata, kc, pval, eps, mp)
		}
		mu.Lock()
		prod''','''			nc = LearnGauss(nsc, D, kc, pval, eps, mp, g)
		} else {
			nc = Learn(nsc, tdata, kc, pval, eps, mp)
		}
		mu.Lock()
		prod''')]),
('b7-gens-lock','C07',[('@1',GE,'''		mu.Lock()
		prod.AddChild(nc)
		mu.Unlock()''','''		if np > 1 {
			mu.Lock()
			defer mu.Unlock()
		}
		prod.AddChild(nc)''')]),
('r7-gens-lock','',[('@1',GE,'''		mu.Lock()
		prod.AddChild(nc)
		mu.Unlock()''','''		mu.Lock()
		defer mu.Unlock()
		prod.AddChild(nc)''')]),
('b7-addw','C24',[(SU,'''	s.AddChild(c)
	s.AddWeight(w)''','''	for i, o := range s.ch {
		if o == c {
			s.w[i] += w
			return
		}
	}
	s.AddChild(c)
	s.AddWeight(w)''')]),
('b7-weights-copy','?',[(SU,'''func (s *Sum) Weights() []float64 {
	return s.w''','''func (s *Sum) Weights() []float64 {
	return append([]float64{}, s.w...)''')]),
('b7-scope-first','C24',[(SP,'''			s.setRawSc(sc)
''','''			if len(sc) > len(s.rawSc()) {
				s.setRawSc(sc)
			}
''')]),
('b7-height','C24',[(SP,'if h := H[c] + 1; h > H[s] {','if h := H[c] + 1; h > H[s] && len(s.Ch()) > 1 {')]),
('b7-decomp','C24',[(SP,'''			for _, u := range v {
				if u != 2 {
					return false
				}
			}
			if n != 0 {
				return false
			}''','''			if n > 0 {
				return false
			}''')]),
('b7-norm-leaf','C24',[(SP,'''			W := z.Weights()
			norm(W)''','''			W := z.Weights()
			if len(W) > 1 {
				norm(W)
			}''')]),
('b7-gob-prec','C23',[(SU,'" %g", w)','" %.8g", w)')]),
('b7-map-alias','C01',[('@1',SP,'''			N, _ := s.ArgMax(I)
			for k, v := range N {
				M[k] = v
			}''','''			N, _ := s.ArgMax(I)
			if len(M) == 0 && len(I) > len(N) {
				M = I
			}
			for k, v := range N {
				M[k] = v
			}''')]),
('b7-infy-mod','C01',[(SP,'	J := map[int]int{Y: y}\n','	J := I\n	if _, e := I[Y]; !e {\n		J[Y] = y\n	}\n')]),
('b7-verb','C22',[('@1',SP,'''	// Get topological order.
	O := common.Queue{}
	TopSortTarjan(S, &O)
	sys.Free()
''','''	// Get topological order.
	O := common.Queue{}
	TopSortTarjan(S, &O)
	if O.Size() > 1000000 {
		fmt.Println("Large network.")
	}
	sys.Free()
''')]),
('b7-ties','?',[('@1',SP,'mvc := mv[sys.RandIntn(len(mv))]','''mvc := mv[0]
			for _, c := range map[int]SPN{0: mv[0], 1: mv[len(mv)-1]} {
				mvc = c
				break
			}''')]),
# refactorings
('r7-map-tie','',[('@1',SP,'''				if u > m {
					mv, m = []SPN{c}, u
				} else if u == m {
					mv = append(mv, c)
				}''','''				if u < m {
					continue
				}
				if u > m {
					mv = mv[:0]
				}
				mv, m = append(mv, c), u''')]),
('r7-norm-one','',[(DE,'''	if min < 0 {
		for i := range v {
			v[i] -= min
		}
	}

	var norm float64
	for i := range v {
		norm += v[i]
	}''','''	var norm float64
	for i := range v {
		v[i] -= min
		norm += v[i]
	}''')]),
('r7-deriv-add','',[(DE,'''				if !e {
					table.StoreSingle(cs, math.Log(W[i])+pv)
				} else {
					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
				}''','''				accumulate(table, cs, v, e, math.Log(W[i])+pv)'''),(DE,'''				//sys.Printf("  i: %d, v: %f, e: %v, t: %f, ch: %p\\n", i, v, e, t, cs)
				if !e {
					table.StoreSingle(cs, t)
				} else {
					//table.StoreSingle(cs, math.Log(math.Exp(v)+math.Exp(t)))
					table.StoreSingle(cs, utils.LogSumExpPair(v, t))
				}''','''				accumulate(table, cs, v, e, t)'''),(DE,'''func DeriveWeights(''','''func accumulate(t spn.StorerTable, c spn.SPN, old float64, has bool, d float64) {
	if has {
		d = utils.LogSumExpPair(old, d)
	}
	t.StoreSingle(c, d)
}

func DeriveWeights(''')]),
('r7-hard-if','',[(DE,'''			mi, e := T[s]
			if e {
				v, _ := tab.Entry(s, mi)
				tab.Store(s, mi, v+1)
				//fmt.Printf("%d ", int(v+1))
				if mc := ch[mi]; !V[mc] {
					Q.Enqueue(mc)
					V[mc] = true
				}
			}''','''			mi, e := T[s]
			if !e {
				continue
			}
			old, _ := tab.Entry(s, mi)
			tab.Store(s, mi, 1+old)
			if best := ch[mi]; !V[best] {
				V[best] = true
				Q.Enqueue(best)
			}''')]),
('r7-topo-helper','',[('@1',TO,'''			if !V[u] {
				V[u] = true
				C.Give(u)
			}
			continue
		}
		S.Push(u)
		P[u] = true
		ch := u.Ch()
		for _, c := range ch {
			if !P[c] {
				S.Push(c)
			}
		}
	}
	return C
}
''','''			if !V[u] {
				V[u] = true
				C.Give(u)
			}
			continue
		}
		P[u] = true
		S.Push(u)
		pushUnseen(&S, u, P)
	}
	return C
}

func pushUnseen(S *common.Stack, u SPN, P map[SPN]bool) {
	for _, c := range u.Ch() {
		if P[c] {
			continue
		}
		S.Push(c)
	}
}
''')]),
('r7-score-best','',[('@1',SC,'''		for j := 0; j < classVar.Categories; j++ {
			st.Reset(tk)
			I[v] = j
			spn.StoreInference(N, I, tk, st)
			pj, _ := st.Single(tk, N)
			if pd := pj - pe; pd > mp {
				mp, ml = pd, j
			}
			delete(I, v)
		}
		s.Register(ml, L[i])''','''		for j := 0; j < classVar.Categories; j++ {
			st.Reset(tk)
			I[v] = j
			spn.StoreInference(N, I, tk, st)
			pj, _ := st.Single(tk, N)
			pd := pj - pe
			if pd <= mp {
				continue
			}
			mp = pd
			ml = j
		}
		s.Register(ml, L[i])''')]),
('r7-cond-swap','',[(CQ,'''		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Signal()
	}(i)''','''		q.c.L.Lock()
		defer q.c.L.Unlock()
		q.k--
		q.c.Broadcast()
	}(i)''')]),
('r7-queue-release','',[(CQ,'''	go func(id int) {
		defer q.wg.Done()
		f(id)
		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Signal()
	}(i)
}''','''	go q.work(f, i)
}

func (q *SingleQueue) work(f func(int), id int) {
	defer q.wg.Done()
	defer q.release()
	f(id)
}

func (q *SingleQueue) release() {
	q.c.L.Lock()
	q.k--
	q.c.L.Unlock()
	q.c.Signal()
}''')]),
('r7-retrieve','',[(PA,'''	mu.Lock()
	p, q := bindings[e]
	mu.Unlock()
	return p, q''','''	mu.Lock()
	defer mu.Unlock()
	p, q := bindings[e]
	return p, q'''),(PA,'''	mu.Lock()
	_, e := bindings[p]
	mu.Unlock()
	return e''','''	_, e := Retrieve(p)
	return e''')]),
('r7-rand-with','',[(RA,'''	mu.Lock()
	r := Random.Intn(n)
	mu.Unlock()
	return r
}
''','''	var r int
	withRandom(func(g *rand.Rand) { r = g.Intn(n) })
	return r
}

func withRandom(f func(*rand.Rand)) {
	mu.Lock()
	defer mu.Unlock()
	f(Random)
}
''')]),
]
