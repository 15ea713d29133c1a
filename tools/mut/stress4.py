PA='learn/parameters/parameters.go'; SR='sys/rand.go'; IN='spn/indicator.go'; SE='spn/search.go'; TO='spn/topo.go'
GE='learn/generative.go'; DE='learn/derive.go'; UF='utils/unionfind.go'; IG='utils/indep/indgraph.go'; CH='utils/indep/chisq.go'
GT='utils/indep/gtest.go'; ST='utils/stats.go'; SO='spn/storer.go'; KM='utils/cluster/kmeans.go'; KO='utils/cluster/kmode.go'
KD='utils/cluster/kmedoid.go'; DB='utils/cluster/dbscan.go'; CL='utils/cluster/cluster.go'; PR='sys/print.go'
TAB='''				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
			}
			if norm {
				Normalize(W)
			}
		}
	}
}

// This is where'''
M=[
# ---- refactorings
('r4-par-defer','',[(PA,'''	mu.Lock()
	bindings[e] = p
	mu.Unlock()
''','''	mu.Lock()
	defer mu.Unlock()
	bindings[e] = p
''')]),
('r4-par-helper','',[(PA,'''func Bind(e Parametrizable, p *P) {
	mu.Lock()
	bindings[e] = p
	mu.Unlock()
}
''','''func locked(f func()) {
	mu.Lock()
	defer mu.Unlock()
	f()
}

func Bind(e Parametrizable, p *P) {
	locked(func() { bindings[e] = p })
}
'''),(PA,'''	mu.Lock()
	delete(bindings, e)
	mu.Unlock()
''','''	locked(func() { delete(bindings, e) })
''')]),
('r4-par-exists','',[(PA,'''	mu.Lock()
	_, e := bindings[p]
	mu.Unlock()
	return e
''','''	_, e := Retrieve(p)
	return e
''')]),
('r4-par-rw','',[(PA,'	mu sync.Mutex\n','	mu sync.RWMutex\n'),(PA,'''	mu.Lock()
	p, q := bindings[e]
	mu.Unlock()
''','''	mu.RLock()
	p, q := bindings[e]
	mu.RUnlock()
''')]),
('r4-par-switch','',[(PA,'''	if t%2 == 0 {
		return Hard
	}
	return Soft
''','''	switch t {
	case HardGD, HardEM:
		return Hard
	}
	return Soft
''')]),
('r4-par-keyed','',[(PA,'return &P{norm, hw, sm, t, eta, eps, bs, l, i}','''return &P{
		Normalize:    norm,
		HardWeight:   hw,
		SmoothSum:    sm,
		LearningType: t,
		Eta:          eta,
		Epsilon:      eps,
		BatchSize:    bs,
		Lambda:       l,
		Iterations:   i,
	}''')]),
('r4-rand-defer','',[(SR,'''	mu.Lock()
	r := Random.Intn(n)
	mu.Unlock()
	return r
''','''	mu.Lock()
	defer mu.Unlock()
	return Random.Intn(n)
'''),(SR,'''	mu.Lock()
	Random.Shuffle(n, swap)
	mu.Unlock()
''','''	mu.Lock()
	defer mu.Unlock()
	Random.Shuffle(n, swap)
''')]),
('r4-rand-newgen','',[(SR,'''	seed = s
	Random = rand.New(rand.NewSource(seed))
	r := Random
''','''	r := rand.New(rand.NewSource(s))
	seed, Random = s, r
''')]),
('r4-rand-helper','',[(SR,'''	mu.Lock()
	seed = s
	Random = rand.New(rand.NewSource(seed))
	r := Random
	mu.Unlock()
	return r
''','''	mu.Lock()
	defer mu.Unlock()
	reseed(s)
	return Random
'''),(SR,'''	seed = 101010101
	Random = rand.New(rand.NewSource(seed))
}
''','''	reseed(101010101)
}

func reseed(s int64) {
	seed = s
	Random = rand.New(rand.NewSource(seed))
}
''')]),
('r4-rand-comb','',[(SR,'''			C[t][0], C[t][1] = i, j
''','''			C[t] = [2]int{i, j}
'''),(SR,'''	var j int
	for i := 0; i < m; i++ {
		D[j] = C[K[i]]
		j++
	}
''','''	for i := range D {
		D[i] = C[K[i]]
	}
''')]),
('r4-ind-max','',[(IN,'''func (i *Indicator) Max(val VarSet) float64 {
	u, e := val[i.varid]
	if !e || u == i.v {
		return 0
	}
	return utils.LogZero
}
''','''func (i *Indicator) Max(val VarSet) float64 {
	return i.Value(val)
}
''')]),
('r4-ind-argmax','',[(IN,'''	retval := make(VarSet)
	u, e := val[i.varid]
	if !e {
		retval[i.varid] = i.v
		return retval, 0
	}
	retval[i.varid] = u
	if u == i.v {
		return retval, 0
	}
	return retval, utils.LogZero
''','''	u, e := val[i.varid]
	if !e {
		u = i.v
	}
	return VarSet{i.varid: u}, i.Max(val)
''')]),
('r4-ind-value','',[(IN,'''func (i *Indicator) Value(val VarSet) float64 {
	u, e := val[i.varid]
	if !e || u == i.v {
		return 0
	}
	return utils.LogZero
}
''','''func (i *Indicator) Value(val VarSet) float64 {
	if u, e := val[i.varid]; e && u != i.v {
		return utils.LogZero
	}
	return 0
}
''')]),
('r4-search-skip','',[(SE,'''		ch := u.Ch()
		for _, c := range ch {
			if !V[c] && r == 0 {
				C.Give(c)
				V[c] = true
			}
		}
''','''		if r < 0 {
			continue
		}
		for _, c := range u.Ch() {
			if V[c] {
				continue
			}
			V[c] = true
			C.Give(c)
		}
''')]),
('r4-search-switch','',[(SE,'''		r := f(u)
		if r > 0 {
			return
		}
		ch := u.Ch()
		for _, c := range ch {
			if !V[c] && r == 0 {
				C.Give(c)
				V[c] = true
			}
		}
''','''		switch r := f(u); {
		case r > 0:
			return
		case r == 0:
			ch := u.Ch()
			for i := range ch {
				if c := ch[i]; !V[c] {
					C.Give(c)
					V[c] = true
				}
			}
		}
''')]),
('r4-count-switch','',[(SE,'''		if t := S.Type(); t == "sum" {
			s++
		} else if t == "product" {
			p++
		} else {
			l++
		}
''','''		switch S.Type() {
		case "sum":
			s++
		case "product":
			p++
		default:
			l++
		}
''')]),
('r4-count-map','',[(SE,'''	var s, p, l int
	BreadthFirst(G, func(S SPN) int {
		if t := S.Type(); t == "sum" {
			s++
		} else if t == "product" {
			p++
		} else {
			l++
		}
		return 0
	})
	return s, p, l
''','''	n := make(map[string]int)
	BreadthFirst(G, func(S SPN) int {
		n[S.Type()]++
		return 0
	})
	return n["sum"], n["product"], n["leaf"]
''')]),
('r4-topo-share','',[(TO,'''	if C == nil {
		C = &common.Queue{}
	}
	S := common.Stack{}
	P := make(map[SPN]bool)
	V := make(map[SPN]bool)
	S.Push(G)
	for !S.Empty() {
		u := S.Pop().(SPN)
		if P[u] {
			// A node may have been pushed by more than one parent: emit it only once.
			if !V[u] {
				V[u] = true
				C.Give(u)
			}
			continue
		}
		S.Push(u)
		P[u] = true
		ch := u.Ch()
		for _, c := range ch {
			if !P[c] {
				S.Push(c)
			}
		}
	}
	return C
}
''','''	return TopSortTarjanFunc(G, C, func(SPN) bool { return true })
}
''')]),
('r4-topo-set','',[(TO,'''	V := make(map[SPN]bool)
	visit(G, C, V)
	return C
''','''	visit(G, C, make(map[SPN]bool))
	return C
''')]),
('r4-topo-closure','',[(TO,'''	V := make(map[SPN]bool)
	visit(G, C, V)
	return C
''','''	V := make(map[SPN]bool)
	var rec func(SPN)
	rec = func(s SPN) {
		if V[s] {
			return
		}
		V[s] = true
		for _, c := range s.Ch() {
			rec(c)
		}
		C.Give(s)
	}
	rec(G)
	return C
''')]),
('r4-post-guard','',[(TO,'''	ch := n.Ch()
	if len(ch) != 0 {
		for _, c := range ch {
			if !V[c] {
				V[c] = true
				postOrderRec(c, V, C)
			}
		}
	}
	C.Give(n)
''','''	for _, c := range n.Ch() {
		if V[c] {
			continue
		}
		V[c] = true
		postOrderRec(c, V, C)
	}
	C.Give(n)
''')]),
('r4-gen-helper','',[('@1',GE,'''			DeriveHard(S, storage, dtk, I)
			sys.Println("Applying gradient descent...")
			applyHGD(S, eta, dtk, storage, norm, 1)
''','''			hardStep(S, eta, dtk, storage, norm, I)
'''),(GE,'// This is where the magic happens.\n','''func hardStep(S spn.SPN, eta float64, dtk int, storage *spn.Storer, norm bool, I spn.VarSet) {
	DeriveHard(S, storage, dtk, I)
	sys.Println("Applying gradient descent...")
	applyHGD(S, eta, dtk, storage, norm, 1)
}

// This is where the magic happens.
''')]),
('r4-gen-idx','',[(GE,'''		n := len(data)
		var i int
		for _, I := range data {
			sys.Println("Storing inference values...")
			spn.StoreInference(S, I, itk, storage)
			lv, _ := storage.Single(itk, S)
			sys.Println("Computing hard derivatives...")
			DeriveHard(S, storage, dtk, I)
			storage.Reset(itk)
			i++
			if i%bSize == 0 {
''','''		n := len(data)
		i := 0
		for i < n {
			I := data[i]
			sys.Println("Storing inference values...")
			spn.StoreInference(S, I, itk, storage)
			lv, _ := storage.Single(itk, S)
			sys.Println("Computing hard derivatives...")
			DeriveHard(S, storage, dtk, I)
			storage.Reset(itk)
			i++
			if i%bSize == 0 {
''')]),
('r4-gen-flush','',[(GE,'''		if i%bSize != 0 {
			sys.Println("Applying gradient descent...")
			applyFastHGD(S, eta, dtk, storage, norm, bSize)
			storage.Reset(dtk)
		}
''','''		if n%bSize != 0 {
			sys.Println("Applying gradient descent...")
			applyFastHGD(S, eta, dtk, storage, norm, bSize)
			storage.Reset(dtk)
		}
''')]),
('r4-gen-resettickets','',[('@1',GE,'''			storage.Reset(itk)
			storage.Reset(stk)
''','''			storage.ResetTickets(itk, stk)
''')]),
('r4-gen-dispatch','',[(GE,'''	b := P.BatchSize > 1
	if parameters.Hardness(P.LearningType) == parameters.Hard {
		if b {
			return GenerativeHardBGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize, P.BatchSize)
		}
		return GenerativeHardGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize)
	}
	if b {
		return GenerativeBGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize, P.BatchSize)
	}
	return GenerativeGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize)
''','''	hard := parameters.Hardness(P.LearningType) == parameters.Hard
	switch {
	case hard && P.BatchSize > 1:
		return GenerativeHardBGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize, P.BatchSize)
	case hard:
		return GenerativeHardGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize)
	case P.BatchSize > 1:
		return GenerativeBGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize, P.BatchSize)
	}
	return GenerativeGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize)
''')]),
('r4-apply-share','',[(GE,'''			for i, d := range dW {
				delta := eta * math.Exp(d)
				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
			}
''','''			for i, d := range dW {
				W[i] = gradStep(W[i], eta, d, P.Lambda, b)
			}
'''),(GE,'''			for i := range W {
				delta := eta * math.Exp(dW[i])
				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
			}
''','''			for i := range W {
				W[i] = gradStep(W[i], eta, dW[i], P.Lambda, b)
			}
'''),(GE,'// This is where the magic happens.\n','''func gradStep(w, eta, d, lambda float64, b int) float64 {
	delta := eta * math.Exp(d)
	return w + delta/float64(b) - 2*lambda*w
}

// This is where the magic happens.
''')]),
('r4-apply-continue','',[(GE,'''		if s.Type() == "sum" {
			v, e := tab.Value(s)
			if e {
				W := s.(*spn.Sum).Weights()
				for i, d := range v {
					w := W[i]
					delta := eta * (d / (w * float64(b)))
					W[i] = w + delta - 2*P.Lambda*w
				}
				if norm {
					Normalize(W)
				}
			}
		}
''','''		if sum, ok := s.(*spn.Sum); ok {
			if v, e := tab.Value(sum); e {
				W := sum.Weights()
				for i, d := range v {
					W[i] += eta*d/(W[i]*float64(b)) - 2*P.Lambda*W[i]
				}
				if norm {
					Normalize(W)
				}
			}
		}
''')]),
('r4-derive-total','',[(DE,'''				v, e := table.Single(cs)
				if !e {
					table.StoreSingle(cs, math.Log(W[i])+pv)
				} else {
					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
				}
''','''				d := math.Log(W[i]) + pv
				if v, e := table.Single(cs); e {
					d = utils.LogSumExpPair(v, d)
				}
				table.StoreSingle(cs, d)
''')]),
('r4-derive-acc','',[(DE,'''				if !e {
					table.StoreSingle(cs, math.Log(W[i])+pv)
				} else {
					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
				}
''','''				accumulate(table, cs, v, e, math.Log(W[i])+pv)
'''),(DE,'''				if !e {
					table.StoreSingle(cs, t)
				} else {
					//table.StoreSingle(cs, math.Log(math.Exp(v)+math.Exp(t)))
					table.StoreSingle(cs, utils.LogSumExpPair(v, t))
				}
''','''				accumulate(table, cs, v, e, t)
'''),(DE,'func Normalize(v','''func accumulate(table spn.StorerTable, s spn.SPN, v float64, e bool, d float64) {
	if !e {
		table.StoreSingle(s, d)
		return
	}
	table.StoreSingle(s, utils.LogSumExpPair(v, d))
}

func Normalize(v''')]),
('r4-derive-sibling','',[(DE,'''				t := pv
				for j := range ch {
					if j != i {
						_v, _ := inf.Single(ch[j])
						t += _v
					}
				}
''','''				t := pv
				for j, o := range ch {
					if j == i {
						continue
					}
					_v, _ := inf.Single(o)
					t = t + _v
				}
''')]),
('r4-derive-hard-if','',[(DE,'''		switch t := s.Type(); t {
		case "product":
			for _, c := range ch {
				if c.Type() != "leaf" && !V[c] {
					Q.Enqueue(c)
					V[c] = true
				}
			}
		case "sum":
			mi, e := T[s]
			if e {
				v, _ := tab.Entry(s, mi)
				tab.Store(s, mi, v+1)
				//fmt.Printf("%d ", int(v+1))
				if mc := ch[mi]; !V[mc] {
					Q.Enqueue(mc)
					V[mc] = true
				}
			}
		}
''','''		push := func(c spn.SPN) {
			if !V[c] {
				V[c] = true
				Q.Enqueue(c)
			}
		}
		if t := s.Type(); t == "product" {
			for _, c := range ch {
				if c.Type() != "leaf" {
					push(c)
				}
			}
		} else if t == "sum" {
			if mi, e := T[s]; e {
				v, _ := tab.Entry(s, mi)
				tab.Store(s, mi, v+1)
				push(ch[mi])
			}
		}
''')]),
('r4-derive-apply-order','',[(DE,'''			for i, cs := range ch {
				v, _ := it.Single(cs)
				W[i] += eta * math.Exp(v+pv)
			}
			if norm {
				Normalize(W)
			}
''','''			for i := range W {
				v, _ := it.Single(ch[i])
				W[i] += math.Exp(pv+v) * eta
			}
			if norm {
				Normalize(W)
			}
''')]),
('r4-deriveweights-fn','',[('@1',DE,'''		for _, cs := range ch {
			if cs.Type() != "leaf" && !visited[cs] {
				c.Give(cs)
				visited[cs] = true
			}
		}
''','''		enqueueInner(ch, visited, c)
'''),(DE,'func Normalize(v','''func enqueueInner(ch []spn.SPN, visited map[spn.SPN]bool, c common.Collection) {
	for _, s := range ch {
		if visited[s] || s.Type() == "leaf" {
			continue
		}
		visited[s] = true
		c.Give(s)
	}
}

func Normalize(v''')]),
('r4-norm-one','',[(DE,'''	var norm float64
	for i := range v {
		norm += v[i]
	}
	//var c float64
	for i := range v {
		v[i] /= norm
''','''	total := 0.0
	for _, x := range v {
		total += x
	}
	//var c float64
	for i, x := range v {
		v[i] = x / total
''')]),
('r4-uf-iter','',[(UF,'''	if x != x.Pa {
		x.Pa = Find(x.Pa)
	}
	return x.Pa
''','''	r := x
	for r.Pa != r {
		r = r.Pa
	}
	for x.Pa != r {
		x, x.Pa = x.Pa, r
	}
	return r
''')]),
('r4-uf-swap','',[(UF,'''	if x.rank > y.rank {
		y.Pa = x
		x.Ch = append(x.Ch, y)
		return x, 1
	}
	x.Pa = y
	y.Ch = append(y.Ch, x)
	if x.rank == y.rank {
		y.rank++
	}
	return y, 2
''','''	w := 2
	if x.rank > y.rank {
		x, y = y, x
		w = 1
	}
	if x.rank == y.rank {
		y.rank++
	}
	y.Ch = append(y.Ch, x)
	x.Pa = y
	return y, w
''')]),
('r4-uf-varids','',[(UF,'''	n := len(x.Ch)

	if n == 0 {
		return []int{x.varid}
	}

	ch := []int{x.varid}

	for i := 0; i < n; i++ {
		ch = append(ch, UFVarids(x.Ch[i])...)
	}

	return ch
''','''	ids := []int{x.varid}
	for _, c := range x.Ch {
		ids = append(ids, UFVarids(c)...)
	}
	return ids
''')]),
('r4-uf-varids-stack','',[(UF,'''	n := len(x.Ch)

	if n == 0 {
		return []int{x.varid}
	}

	ch := []int{x.varid}

	for i := 0; i < n; i++ {
		ch = append(ch, UFVarids(x.Ch[i])...)
	}

	return ch
''','''	var ids []int
	var walk func(u *UFNode)
	walk = func(u *UFNode) {
		ids = append(ids, u.varid)
		for _, c := range u.Ch {
			walk(c)
		}
	}
	walk(x)
	return ids
''')]),
('r4-ig-table','',[('@2',IG,'''			p, q := data[i].Categories, data[j].Categories
			mdata := make([][]int, p+1)
			for k := 0; k < p+1; k++ {
				mdata[k] = make([]int, q+1)
			}

			// len(data[i].Data) == len(data[j].Data) by definition.
			m := len(data[i].Data)
			for k := 0; k < m; k++ {
				mdata[data[i].Data[k]][data[j].Data[k]]++
			}

			//sys.Println("Counting totals and assigning to edges...")
			// Total on the x axis, y axis and x+y respectively.
			tx, ty, tt := make([]int, q), 0, 0
			//sys.Println("Y-axis...")
			for x := 0; x < p; x++ {
				ty = 0
				for y := 0; y < q; y++ {
					ty += mdata[x][y]
					tx[y] += mdata[x][y]
				}
				mdata[x][q] = ty
			}
			// Compute total on the x axis.
			//sys.Println("X-axis...")
			for y := 0; y < q; y++ {
				mdata[p][y] = tx[y]
				tt += tx[y]
			}
			// Total total.
			mdata[p][q] = tt
''','''			p, q := data[i].Categories, data[j].Categories
			mdata := contingency(data[i], data[j])
'''),(IG,'// NewUFIndepGraph creates','''func contingency(a, b *utils.VarData) [][]int {
	p, q := a.Categories, b.Categories
	t := make([][]int, p+1)
	for k := range t {
		t[k] = make([]int, q+1)
	}
	for k, u := range a.Data {
		v := b.Data[k]
		t[u][v]++
		t[u][q]++
		t[p][v]++
		t[p][q]++
	}
	return t
}

// NewUFIndepGraph creates''')]),
('r4-ig-union','',[('@1',IG,'''			if utils.Find(sets[i]) == utils.Find(sets[rv2]) {
				continue
			}

			utils.Union(sets[i], sets[rv2])
''','''			utils.Union(sets[i], sets[rv2])
''')]),
('r4-ig-range','',[('@1',IG,'''		v1 := ids[i]
		m := len(igraph.adjlist[v1])
		for j := 0; j < m; j++ {
			v2 := igraph.adjlist[v1][j]
			rv2 := rids[v2]

			if utils.Find(sets[i]) == utils.Find(sets[rv2]) {
				continue
			}

			utils.Union(sets[i], sets[rv2])
		}
''','''		for _, v := range igraph.adjlist[ids[i]] {
			if a, b := sets[i], sets[rids[v]]; utils.Find(a) != utils.Find(b) {
				utils.Union(a, b)
			}
		}
''')]),
('r4-ig-kset','',[('@2',IG,'''	for i := 0; i < n; i++ {
		if sets[i] == sets[i].Pa {
			igraph.Kset = append(igraph.Kset, utils.UFVarids(sets[i]))
		}
	}
''','''	for _, s := range sets {
		if utils.Find(s) != s {
			continue
		}
		igraph.Kset = append(igraph.Kset, utils.UFVarids(s))
	}
''')]),
('r4-gtest-noE','',[(GT,'''	E := make([][]float64, p)
	for i := 0; i < p; i++ {
		E[i] = make([]float64, q)
	}

	for i := 0; i < p; i++ {
		for j := 0; j < q; j++ {
			E[i][j] = float64(data[p][j]*data[i][q]) / float64(data[p][q])
		}
	}

''',''),(GT,'''			if E[i][j] == 0 {
				continue
			}
			o := float64(data[i][j])
''','''			e := float64(data[p][j]*data[i][q]) / float64(data[p][q])
			o := float64(data[i][j])
			if e == 0 {
				continue
			}
'''),(GT,'o * math.Log(o/E[i][j])','o * math.Log(o/e)')]),
('r4-chisq-inline','',[(CH,'''	cs := distuv.ChiSquared{K: float64(df), Src: nil}
	return cs.CDF(chi)
''','''	return distuv.ChiSquared{K: float64(df)}.CDF(chi)
''')]),
('r4-chitest-guard','',[(CH,'''			if E[i][j] == 0 && data[i][j] == 0 {
				continue
			}
			diff := float64(data[i][j]) - E[i][j]
			chi += (diff * diff) / E[i][j]
''','''			if o, e := float64(data[i][j]), E[i][j]; e != 0 || o != 0 {
				chi += (o - e) * (o - e) / e
			}
''')]),
('r4-stats-musigma','',[(ST,'''func StdDev(c []int) float64 {
	var n int
	var m float64
	for i := range c {
		n += c[i]
	}
	for i := range c {
		m += float64(c[i]) / float64(n) * float64(i)
	}
	var s float64
	for i := range c {
		d := float64(i) - m
		s += (float64(c[i]) / float64(n)) * d * d
	}
	return math.Sqrt(s)
}
''','''func StdDev(c []int) float64 {
	_, s := MuSigma(c)
	return s
}
''')]),
('r4-stats-quant','',[(ST,'''		var Q []int
		for j := p; j < q && j < k; j++ {
			Q = append(Q, X[j])
		}
''','''		if q > k {
			q = k
		}
		var Q []int
		if p < q {
			Q = X[p:q]
		}
''')]),
('r4-stats-meanvar','',[(ST,'''		var mu, sigma float64
		n := float64(len(Q))
		for _, x := range Q {
			mu += float64(x)
		}
		mu /= n
		for _, x := range Q {
			d := float64(x) - mu
			sigma += d * d
		}
		sigma = math.Sqrt(sigma / n)
''','''		n := float64(len(Q))
		mu, sigma := moments(Q)
'''),(ST,'// PartitionQuantiles takes','''func moments(Q []int) (float64, float64) {
	var mu, sigma float64
	for _, x := range Q {
		mu += float64(x)
	}
	n := float64(len(Q))
	mu /= n
	for _, x := range Q {
		d := float64(x) - mu
		sigma += d * d
	}
	return mu, math.Sqrt(sigma / n)
}

// PartitionQuantiles takes''')]),
('r4-stor-entry','',[(SO,'''	v, err := s[S]
	if !err {
		return 0, err
	}
	p, q := v[l]
	return p, q
''','''	p, q := s[S][l]
	return p, q
''')]),
('r4-stor-store','',[(SO,'''	_, err := t[S]
	if !err {
		t[S] = make(map[int]float64)
		t[S][l] = e
	} else {
		t[S][l] = e
	}
	return true
''','''	m, ok := t[S]
	if !ok {
		m = make(map[int]float64)
		t[S] = m
	}
	m[l] = e
	return true
''')]),
('r4-stor-reset','',[(SO,'''	for _, k := range K {
		delete(s.tables, k)
		s.tables[k] = make(StorerTable)
	}
	sys.Free()
''','''	for _, k := range K {
		s.Reset(k)
	}
''')]),
('r4-stor-purge','',[(SO,'''	for k, _ := range s.tables {
		delete(s.tables, k)
	}
	s.tickets = 0
''','''	s.tables = make(map[int]StorerTable)
	s.tickets = 0
''')]),
('r4-stor-value','',[(SO,'''	t, err := s.tables[k]
	if !err {
		return nil, err
	}
	return t.Value(S)
''','''	if t, ok := s.tables[k]; ok {
		return t.Value(S)
	}
	return nil, false
''')]),
('r4-kmeans-share','',[(KM,'''	O := make(mc.Observations, len(D))
	for i, I := range D {
		O[i] = mc.Coordinates(I)
	}
	ci := mk.New()
	C, err := ci.PartitionPoints(O, k)
	if err != nil {
		panic(err)
	}
	G := make([]map[int][]float64, k)
''','''	C := kmeansMuesli(k, D)
	G := make([]map[int][]float64, k)
''')]),
('r4-kmeans-key','',[('@1',KM,'''		var u int
		if sc == nil {
			u = i
		} else {
			u = sc[i]
		}
		G[c][u] = make([]float64, len(J))
		copy(G[c][u], J)
''','''		u := i
		if sc != nil {
			u = sc[i]
		}
		G[c][u] = append([]float64(nil), J...)
''')]),
('r4-kmeans-rowsM','',[(KM,'''		G[c][u] = make([]int, len(J))
		for l, v := range J {
			G[c][u][l] = int(v)
		}
''','''		row := make([]int, len(J))
		copy(row, M[i])
		G[c][u] = row
''')]),
('r4-kmode-out','',[(KO,'''	i = 0
	for i < n {
		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
		i++
	}
''','''	for i, row := range data {
		c := make([]int, len(row))
		copy(c, row)
		clusters[chkdata[i]][i] = c
	}
''')]),
('r4-kmode-mod','',[(KO,'''		i++
		if i >= n {
			i = 0
		}
''','''		i = (i + 1) % n
''')]),
('r4-dbscan-range','',[(DB,'''			chs := utils.UFVarids(rgs[i])
			nchs := len(chs)
			for j := 0; j < nchs; j++ {
				l := chs[j]
				clusters[k][l] = make([]int, m)
				copy(clusters[k][l], data[l])
			}
			k++
''','''			for _, l := range utils.UFVarids(rgs[i]) {
				row := make([]int, m)
				copy(row, data[l])
				clusters[k][l] = row
			}
			k++
''')]),
('r4-dbscan-build','',[(DB,'''			clusters = append(clusters, make(map[int][]int))
			chs := utils.UFVarids(rgs[i])
			nchs := len(chs)
			for j := 0; j < nchs; j++ {
				l := chs[j]
				clusters[k][l] = make([]int, m)
				copy(clusters[k][l], data[l])
			}
			k++
''','''			c := make(map[int][]int)
			for _, l := range utils.UFVarids(rgs[i]) {
				c[l] = make([]int, m)
				copy(c[l], data[l])
			}
			clusters = append(clusters, c)
'''),(DB,'''	k := 0
	var clusters''','''	var clusters''')]),
('r4-dbscan-cond','',[(DB,'''			if (i != p) && (dmatrix[p][i] <= eps) && (utils.Find(rgs[i]) != utils.Find(rgs[p])) {
				nbh.Enqueue(i)
			}
''','''			if i == p || dmatrix[p][i] > eps {
				continue
			}
			if utils.Find(rgs[i]) != utils.Find(rgs[p]) {
				nbh.Enqueue(i)
			}
''')]),
('r4-guess-row','',[(CL,'''		I := make(map[int]int)
		for j := range M[i] {
			I[Sc[j]] = int(M[i][j])
		}
		C[g] = append(C[g], I)
''','''		C[g] = append(C[g], toInstance(M[i], Sc))
'''),(CL,'func guessToData','''func toInstance(r []float64, Sc map[int]int) map[int]int {
	I := make(map[int]int, len(r))
	for j, v := range r {
		I[Sc[j]] = int(v)
	}
	return I
}

func guessToData''')]),
('r4-print-guard','',[(PR,'''	if !Verbose {
		return
	}
	if len(vals) == 0 {
		fmt.Fprintf(fout, str)
	} else {
		fmt.Fprintf(fout, str, vals...)
	}
''','''	if Verbose {
		fmt.Fprintf(fout, str, vals...)
	}
''')]),
('r4-print-println','',[(PR,'''	if Verbose {
		fmt.Fprintln(fout, str)
	}
''','''	Printf("%s\\n", str)
''')]),
('r4-rand-seedcall','',[(SR,'''	Random = rand.New(rand.NewSource(seed))
	r := Random
''','''	Random.Seed(seed)
	r := Random
''')]),
('r4-rand-maker','',[(SR,'''	Random = rand.New(rand.NewSource(seed))
	r := Random
''','''	Random = newRandom(seed)
	r := Random
'''),(SR,'func RandIntn(','''func newRandom(s int64) *rand.Rand {
	return rand.New(rand.NewSource(s))
}

func RandIntn(''')]),
# ---- bugs
('b4-rand-seedreport','C08',[(SR,'	s := seed\n','	s := seed + 1\n')]),
('b4-rand-seedcall','C08',[(SR,'''	Random = rand.New(rand.NewSource(seed))
	r := Random
''','''	Random.Seed(101010101)
	r := Random
''')]),
('b4-search-noskip','C09',[(SE,'if !V[c] && r == 0 {','if !V[c] {')]),

('b4-par-exists-unlocked','C05',[(PA,'''	mu.Lock()
	_, e := bindings[p]
	mu.Unlock()
	return e
''','''	_, e := bindings[p]
	return e
''')]),
('b4-par-rlock-write','C05',[(PA,'	mu sync.Mutex\n','	mu sync.RWMutex\n'),(PA,'''	mu.Lock()
	bindings[e] = p
	mu.Unlock()
''','''	mu.RLock()
	bindings[e] = p
	mu.RUnlock()
''')]),
('b4-par-swap','C16',[(PA,'return &P{norm, hw, sm, t, eta, eps, bs, l, i}','return &P{norm, hw, sm, t, eps, eta, bs, l, i}')]),
('b4-rand-refresh','C08',[(SR,'''	seed = s
	Random = rand.New(rand.NewSource(seed))
	r := Random
''','''	if s != seed {
		seed = s
		Random = rand.New(rand.NewSource(seed))
	}
	r := Random
''')]),
('b4-rand-perm','C08',[(SR,'	K := Random.Perm(n)\n','	K := rand.Perm(n)\n')]),
('b4-rand-shuffle-unlock','C05',[(SR,'''	mu.Lock()
	Random.Shuffle(n, swap)
	mu.Unlock()
''','''	mu.Lock()
	r := Random
	mu.Unlock()
	r.Shuffle(n, swap)
''')]),
('b4-ind-max','C13',[(IN,'''	retval[i.varid] = u
	if u == i.v {
		return retval, 0
	}
''','''	retval[i.varid] = i.v
	if u == i.v {
		return retval, 0
	}
''')]),
('b4-search-visited-late','C09',[(SE,'''				C.Give(c)
				V[c] = true
''','''				C.Give(c)
				V[u] = true
''')]),
('b4-search-skip-all','C09',[(SE,'		if r > 0 {','		if r != 0 {')]),
('b4-topo-func-v','C09',[('@2',TO,'''			if !V[u] {
				V[u] = true
				C.Give(u)
''','''			if !V[u] {
				C.Give(u)
''')]),
('b4-post-root','',[(TO,'''	V[G] = true
	postOrderRec(G, V, C)
''','''	V[G] = len(G.Ch()) > 0
	postOrderRec(G, V, C)
''')]),
('b4-gen-lasterr','C16',[('@1',GE,'''		if i%bSize != 0 {
''','''		if i%bSize != 0 && i > bSize {
''')]),
('b4-gen-reset-d','C16',[('@1',GE,'''				applyFastGD(S, eta, wtk, storage, norm, bSize)
				storage.Reset(wtk)
''','''				applyFastGD(S, eta, wtk, storage, norm, bSize)
''')]),
('b4-gen-hard-batch1','C16',[(GE,'			applyHGD(S, eta, dtk, storage, norm, 1)','			applyHGD(S, eta, dtk, storage, norm, n)')]),
('b4-gen-eps','C16',[(GE,'return GenerativeHardGD(S, P.Eta, P.Epsilon, D','return GenerativeHardGD(S, P.Epsilon, P.Eta, D')]),
('b4-apply-lambda','C15',[(GE,'''			for i := range W {
				delta := eta * math.Exp(dW[i])
				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
''','''			for i := range W {
				delta := eta * math.Exp(dW[i])
				W[i] += (delta - 2*P.Lambda*W[i]) / float64(b)
''')]),
('b4-derive-missing','C12',[(DE,'''					table.StoreSingle(cs, math.Log(W[i])+pv)
				} else {
					table''','''					table.StoreSingle(cs, math.Log(W[i])+pv)
				} else if v < pv {
					table''')]),
('b4-derive-hard-v','C12',[(DE,'tab.Store(s, mi, v+1)','tab.Store(s, mi, math.Max(v, 1))')]),
('b4-derive-hard-leafv','C12',[(DE,'''			mi, e := T[s]
			if e {''','''			mi, e := T[s]
			if e && mi > 0 {''')]),
('b4-dwb-max','C12',[(DE,'ndw = utils.LogSumExpPair(ndw, dw)','ndw = math.Max(ndw, dw)')]),
('b4-norm-min','C15',[(DE,'''			v[i] -= min
''','''			v[i] += min
''')]),
('b4-uf-rank','?',[(UF,'''	if x.rank == y.rank {
		y.rank++
''','''	if x.rank < y.rank {
		y.rank++
''')]),
('b4-uf-child','C21',[(UF,'''	x.Pa = y
	y.Ch = append(y.Ch, x)
''','''	x.Pa = y
	if x.rank == y.rank {
		y.Ch = append(y.Ch, x)
	}
''')]),
('b4-ig-totals','?',[('@2',IG,'''				mdata[p][y] = tx[y]
''','''				mdata[p][y] += tt
''')]),
('b4-ig-data','C21',[('@1',IG,'			m := len(data[i].Data)\n','			m := len(data[i].Data) - 1\n')]),
('b4-ig-edge','C21',[('@1',IG,'''				igraph.adjlist[v1] = append(igraph.adjlist[v1], v2)
				igraph.adjlist[v2]''','''				if j == i+1 {
					igraph.adjlist[v1] = append(igraph.adjlist[v1], v2)
				}
				igraph.adjlist[v2]''')]),
('b4-gtest-df','C21',[(GT,'df := (p - 1) * (q - 1)','df := p*q - 1')]),
('b4-chi-diff','C21',[(CH,'chi += (diff * diff) / E[i][j]','chi += (diff * diff) / float64(data[i][j])')]),
('b4-stats-std','C19',[('@1',ST,'	return math.Sqrt(s)','	return math.Sqrt(s * float64(n) / float64(n-1))')]),
('b4-stor-purge','?',[(SO,'''	for k, _ := range s.tables {
		delete(s.tables, k)
	}
	s.tickets = 0
''','''	for k := 0; k < len(s.tables); k++ {
		delete(s.tables, k)
	}
	s.tickets = 0
''')]),
('b4-stor-delete','C17',[(SO,'''func (s *Storer) Delete(k int) {
	delete(s.tables, k)
''','''func (s *Storer) Delete(k int) {
	delete(s.tables, k)
	s.tickets--
''')]),
('b4-stor-exists','C17',[(SO,'''	_, e := t[S][i]
	return e
''','''	v := t[S][i]
	return v != 0
''')]),
('b4-kmeansF-key','C25',[('@2',KM,'''			u = sc[i]
''','''			u = sc[c]
''')]),
('b4-dbscan-row','C25',[(DB,'copy(clusters[k][l], data[l])','copy(clusters[k][l], data[j])')]),
('b4-dbscan-g','?',[(DB,'''			for _, c := range ch {
				G[c] = k
			}
			k++
''','''			for _, c := range ch {
				G[c] = k
			}
			if len(ch) > 1 {
				k++
			}
''')]),
('b4-kmode-share','C25',[(KO,'''		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
''','''		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], means[chkdata[i]])
''')]),
('b4-print','C22',[(PR,'''	if Verbose {
		fmt.Fprintln(fout, str)
	}
''','''	if Verbose || fout != os.Stdout {
		fmt.Fprintln(fout, str)
	}
''')]),
('b4-log-stderr','?',[(KM,'''	G, err := ci.PartitionPoints(O, k)
	if err != nil {
		panic(err)
	}
''','''	G, err := ci.PartitionPoints(O, k)
	if err != nil {
		println("k-means failed")
		return make([]int, len(M))
	}
''')]),
('b4-setlog','?',[(PR,'	f, err := os.Create(filename)\n','	os.Remove(filename + ".old")\n	os.Rename(filename, filename+".old")\n	f, err := os.Create(filename)\n')]),
]
