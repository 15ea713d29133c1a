G='learn/generative.go'; D='learn/discriminative.go'; Q='common/queue.go'; K='common/stack.go'
I='utils/indep/indgraph.go'; U='utils/unionfind.go'; S='spn/storer.go'; C='utils/cluster/cluster.go'
KM='utils/cluster/kmode.go'; KD='utils/cluster/kmedoid.go'; DB='utils/cluster/dbscan.go'; GT='utils/indep/gtest.go'; CH='utils/indep/chisq.go'
M=[
# ---- behaviour-preserving
('r6-fastgd-helper','',[(G,'''			for i, d := range dW {
				delta := eta * math.Exp(d)
				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
			}
			if norm {
				Normalize(W)
			}
		}
	}
}
''','''			stepAll(W, dW, eta, P.Lambda, b)
			if norm {
				Normalize(W)
			}
		}
	}
}

func stepAll(W []float64, dW map[int]float64, eta, lambda float64, b int) {
	for i, d := range dW {
		W[i] = step(W[i], math.Exp(d), eta, lambda, b)
	}
}

func step(w, d, eta, lambda float64, b int) float64 {
	return w + eta*d/float64(b) - 2*lambda*w
}
''')]),
('r6-fastgd-inv','',[(G,'''				delta := eta * math.Exp(d)
				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
			}
			if norm {
				Normalize(W)
			}
		}
	}
}
''','''				w := W[i]
				W[i] = w*(1-2*P.Lambda) + eta/float64(b)*math.Exp(d)
			}
			if norm {
				Normalize(W)
			}
		}
	}
}
''')]),
('r6-fastgd-assert','',[('@1',G,'''		if s.Type() == "sum" {
			W := s.(*spn.Sum).Weights()
			for i, d := range dW {
				delta''','''		if sum, ok := s.(*spn.Sum); ok {
			W := sum.Weights()
			for i, d := range dW {
				delta''')]),
('r6-applygd-early','',[(G,'''			if cs.Type() != "leaf" && !visited[cs] {
				c.Give(cs)
				visited[cs] = true
			}
		}
	}
	visited = nil''','''			if visited[cs] {
				continue
			}
			visited[cs] = true
			if cs.Type() == "leaf" {
				continue
			}
			c.Give(cs)
		}
	}
	visited = nil''')]),
('r6-applyhgd-inv','',[(G,'''			v, e := tab.Value(s)
			if e {
				W := s.(*spn.Sum).Weights()
				for i, d := range v {
					w := W[i]
					delta := eta * (d / (w * float64(b)))
					W[i] = w + delta - 2*P.Lambda*w
				}
				if norm {
					Normalize(W)
				}
			}''','''			if v, e := tab.Value(s); e {
				W := s.(*spn.Sum).Weights()
				for i, d := range v {
					W[i] = W[i] + eta*d/(float64(b)*W[i]) - P.Lambda*W[i]*2
				}
				if norm {
					Normalize(W)
				}
			}''')]),
('r6-gd-reset','',[('@1',G,'''			storage.Reset(itk)
			storage.Reset(stk)
''','''			storage.ResetTickets(itk, stk)
''')]),
('r6-gd-iter','',[('@1',G,'''		n := len(data)
		var i int
		for _, I := range data {
''','''		n := len(data)
		var i int
		for r := 0; r < n; r++ {
			I := data[r]
''')]),
('r6-gd-epoch','',[('@1',G,'''			DeriveApplyWeights(S, eta, storage, stk, itk, c, norm)
			//applyGD(S, eta, wtk, storage, c, norm)
			// Reset DP tables.
			storage.Reset(itk)
			storage.Reset(stk)
''','''			DeriveApplyWeights(S, eta, storage, stk, itk, c, norm)
			resetAll(storage, stk, itk)
'''),('@1',G,'''// GenerativeHardGD performs''','''func resetAll(st *spn.Storer, T ...int) {
	for _, t := range T {
		st.Reset(t)
	}
}

// GenerativeHardGD performs''')]),
('r6-dgd-helper','',[('@1',D,'''			spn.StoreInference(S, I, s, st)
			DeriveSPN(S, st, d, s, Q)
			DeriveWeights(S, st, w, d, s, Q)
			J := hideValues(I, Y)
			spn.StoreInference(S, J, z, st)
			DeriveSPN(S, st, p, z, Q)
			DeriveWeights(S, st, u, p, z, Q)
''','''			gradients(S, I, st, s, d, w, Q)
			gradients(S, hideValues(I, Y), st, z, p, u, Q)
'''),('@1',D,'''// hideValues returns''','''func gradients(S spn.SPN, I spn.VarSet, st *spn.Storer, s, d, w int, Q *common.Queue) {
	spn.StoreInference(S, I, s, st)
	DeriveSPN(S, st, d, s, Q)
	DeriveWeights(S, st, w, d, s, Q)
}

// hideValues returns''')]),
('r6-hide-set','',[(D,'''	J := make(spn.VarSet)
	for k, v := range I {
		J[k] = v
	}
	for _, v := range Y {
		delete(J, v.Varid)
	}
	return J''','''	hidden := make(map[int]bool)
	for _, v := range Y {
		hidden[v.Varid] = true
	}
	J := make(spn.VarSet, len(I))
	for k, v := range I {
		if !hidden[k] {
			J[k] = v
		}
	}
	return J''')]),
('r6-bgd-count','',[(D,'''			j++
			if j%b == 0 {
				applyDGDFrom(S, l, st, eta, norm, b)
				st.Reset(l)
			}
		}
	}
	if j%b != 0 {
		applyDGDFrom(S, l, st, eta, norm, b)
		st.Reset(l)
	}
''','''			if j++; j == b {
				applyDGDFrom(S, l, st, eta, norm, b)
				st.Reset(l)
				j = 0
			}
		}
	}
	if j > 0 {
		applyDGDFrom(S, l, st, eta, norm, b)
		st.Reset(l)
	}
''')]),
('r6-hdgd-diff','',[(D,'''			C[s][i] = C[s][i] - c
''','''			C[s][i] -= c
'''),(D,'''	for s, cnts := range dt {
		if _, e := C[s]; !e {
			C[s] = make(map[int]float64)
		}
		for i, c := range cnts {
			C[s][i] = c
		}
	}
''','''	for s, cnts := range dt {
		m := make(map[int]float64, len(cnts))
		for i, c := range cnts {
			m[i] = c
		}
		C[s] = m
	}
''')]),
('r6-dgd-pair','',[('@1',D,'''				delta := eta * (math.Exp(dW[i]-vS) - math.Exp(dU[i]-vZ))
				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
''','''				up, down := math.Exp(dW[i]-vS), math.Exp(dU[i]-vZ)
				W[i] += eta*(up-down)/float64(b) - 2*P.Lambda*W[i]
''')]),
('r6-queue-deq','',[(Q,'''	n := len(q.data)
	e := q.data[0]
	q.data[0] = nil
	q.data = q.data[1:n]
	if q.cap''','''	e := q.Peek()
	q.data[0], q.data = nil, q.data[1:]
	if q.cap''')]),
('r6-queue-shrink','',[(Q,'''	sys.Free()
	q.cap = len(q.data)
''','''	d := make([]interface{}, len(q.data))
	copy(d, q.data)
	q.data = d
	sys.Free()
	q.cap = len(q.data)
''')]),
('r6-queue-tryshrink','',[('@1',Q,'''	if q.cap > sys.MemLowBoundShrink && q.cap >= (len(q.data)<<1) {
		q.Shrink()
	}
	return e
}
''','''	q.shrinkIfSparse()
	return e
}

func (q *Queue) shrinkIfSparse() {
	if q.cap <= sys.MemLowBoundShrink || q.cap < 2*len(q.data) {
		return
	}
	q.Shrink()
}
''')]),
('r6-queue-invert','',[(Q,'''	l := make([]interface{}, n)
	for i, v := range q.data {
		l[n-i-1] = v
	}
	q.cap, q.data = n, l
	return q''','''	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		q.data[i], q.data[j] = q.data[j], q.data[i]
	}
	q.cap = n
	return q''')]),
('r6-stack-invert','',[(K,'''	l := make([]interface{}, n)
	for i, v := range s.data {
		l[n-i-1] = v
	}
	s.cap, s.data = n, l
	return s''','''	l := make([]interface{}, 0, n)
	for i := n - 1; i >= 0; i-- {
		l = append(l, s.data[i])
	}
	s.cap, s.data = n, l
	return s''')]),
('r6-stack-pop','',[(K,'''	n := len(s.data) - 1
	e := s.data[n]
	s.data[n] = nil
	s.data = s.data[:n]
''','''	top := s.Size() - 1
	e := s.Peek()
	s.data[top] = nil
	s.data = s.data[:top]
''')]),
('r6-stor-reset','',[(S,'''	for _, k := range K {
		delete(s.tables, k)
		s.tables[k] = make(StorerTable)
	}
	sys.Free()''','''	for i := range K {
		s.tables[K[i]] = make(StorerTable)
	}
	sys.Free()''')]),
('r6-stor-store','',[(S,'''	_, err := t[S]
	if !err {
		t[S] = make(map[int]float64)
		t[S][l] = e
	} else {
		t[S][l] = e
	}
	return true''','''	row, ok := t[S]
	if !ok {
		row = make(map[int]float64)
		t[S] = row
	}
	row[l] = e
	return true''')]),
('r6-stor-purge','',[(S,'''	for k, _ := range s.tables {
		delete(s.tables, k)
	}
	s.tickets = 0''','''	s.tables = make(map[int]StorerTable)
	s.tickets = 0''')]),
('r6-uf-find','',[(U,'''	if x != x.Pa {
		x.Pa = Find(x.Pa)
	}
	return x.Pa''','''	r := x
	for r != r.Pa {
		r = r.Pa
	}
	for x != r {
		x, x.Pa = x.Pa, r
	}
	return r''')]),
('r6-uf-union','',[(U,'''	if x.rank > y.rank {
		y.Pa = x
		x.Ch = append(x.Ch, y)
		return x, 1
	}
	x.Pa = y
	y.Ch = append(y.Ch, x)
	if x.rank == y.rank {
		y.rank++
	}
	return y, 2''','''	which := 2
	root, child := y, x
	if x.rank > y.rank {
		which = 1
		root, child = x, y
	}
	child.Pa = root
	root.Ch = append(root.Ch, child)
	if root.rank == child.rank {
		root.rank++
	}
	return root, which''')]),
('r6-uf-varids','',[(U,'''	n := len(x.Ch)

	if n == 0 {
		return []int{x.varid}
	}

	ch := []int{x.varid}

	for i := 0; i < n; i++ {
		ch = append(ch, UFVarids(x.Ch[i])...)
	}

	return ch''','''	var ids []int
	stack := []*UFNode{x}
	for len(stack) > 0 {
		u := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		ids = append(ids, u.varid)
		stack = append(stack, u.Ch...)
	}
	return ids''')]),
('r6-ig-table','',[('@1',I,'''			p, q := data[i].Categories, data[j].Categories
			mdata := make([][]int, p+1)
			for k := 0; k < p+1; k++ {
				mdata[k] = make([]int, q+1)
			}

			// len(data[i].Data) == len(data[j].Data) by definition.
			m := len(data[i].Data)
			for k := 0; k < m; k++ {
				mdata[data[i].Data[k]][data[j].Data[k]]++
			}

			//sys.Println("Counting totals and assigning to edges...")
			// Total on the x axis, y axis and x+y respectively.
			tx, ty, tt := make([]int, q), 0, 0
			//sys.Println("Y-axis...")
			for x := 0; x < p; x++ {
				ty = 0
				for y := 0; y < q; y++ {
					ty += mdata[x][y]
					tx[y] += mdata[x][y]
				}
				mdata[x][q] = ty
			}
			// Compute total on the x axis.
			//sys.Println("X-axis...")
			for y := 0; y < q; y++ {
				mdata[p][y] = tx[y]
				tt += tx[y]
			}
			// Total total.
			mdata[p][q] = tt
''','''			p, q := data[i].Categories, data[j].Categories
			mdata := contingency(data[i], data[j])
'''),('@1',I,'''// NewUFIndepGraph creates''','''func contingency(a, b *utils.VarData) [][]int {
	p, q := a.Categories, b.Categories
	t := make([][]int, p+1)
	for k := range t {
		t[k] = make([]int, q+1)
	}
	for k, x := range a.Data {
		y := b.Data[k]
		t[x][y]++
		t[x][q]++
		t[p][y]++
		t[p][q]++
	}
	return t
}

// NewUFIndepGraph creates''')]),
('r6-ig-both','',[('@1',I,'''			for x := 0; x < p; x++ {
				ty = 0
				for y := 0; y < q; y++ {
					ty += mdata[x][y]
					tx[y] += mdata[x][y]
				}
				mdata[x][q] = ty
			}''','''			for x := 0; x < p; x++ {
				for y := 0; y < q; y++ {
					mdata[x][q] += mdata[x][y]
					tx[y] += mdata[x][y]
				}
			}
			_ = ty''')]),
('r6-ig-direct','',[(I,'''	sets := make([]*utils.UFNode, n)

	// At first every vertex has its own set.
	for i := 0; i < n; i++ {
		sets[i] = utils.MakeSet(ids[i])
	}

	sys.Println("Preparing''','''	var sets []*utils.UFNode
	for _, id := range ids {
		sets = append(sets, utils.MakeSet(id))
	}

	sys.Println("Preparing'''),(I,'''		v1 := ids[i]
		m := len(igraph.adjlist[v1])
		for j := 0; j < m; j++ {
			v2 := igraph.adjlist[v1][j]
			rv2 := rids[v2]

			if utils.Find(sets[i]) == utils.Find(sets[rv2]) {
				continue
			}

			utils.Union(sets[i], sets[rv2])
		}''','''		for _, v := range igraph.adjlist[ids[i]] {
			utils.Union(sets[i], sets[rids[v]])
		}''')]),
('r6-gtest-inline','',[(GT,'''	E := make([][]float64, p)
	for i := 0; i < p; i++ {
		E[i] = make([]float64, q)
	}

	for i := 0; i < p; i++ {
		for j := 0; j < q; j++ {
			E[i][j] = float64(data[p][j]*data[i][q]) / float64(data[p][q])
		}
	}

''',''),(GT,'''			if E[i][j] == 0 {
				continue
			}
			o := float64(data[i][j])''','''			e := float64(data[p][j]*data[i][q]) / float64(data[p][q])
			if e == 0 {
				continue
			}
			o := float64(data[i][j])'''),(GT,'math.Log(o/E[i][j])','math.Log(o/e)')]),
('r6-gtest-split','',[(GT,'''			sum += o * math.Log(o/E[i][j])
		}
	}

	sum *= 2
	cmp := 1.0 - ChiSquare(sum, df)''','''			sum += 2 * o * (math.Log(o) - math.Log(E[i][j]))
		}
	}

	cmp := 1.0 - ChiSquare(sum, df)''')]),
('r6-chisq-sq','',[(CH,'''			diff := float64(data[i][j]) - E[i][j]
			chi += (diff * diff) / E[i][j]''','''			chi += math.Pow(float64(data[i][j])-E[i][j], 2) / E[i][j]''')]),
('r6-tocluster','',[(C,'''		I := D[i]
		J := make([]int, len(I))
		for l, v := range I {
			J[l] = int(v)
		}
		C[j-1][i] = J''','''		C[j-1][i] = append([]int(nil), D[i]...)''')]),
('r6-guess','',[(C,'''	C := make([][]map[int]int, k)
	for i, g := range G {
		I := make(map[int]int)
		for j := range M[i] {
			I[Sc[j]] = int(M[i][j])
		}
		C[g] = append(C[g], I)
	}
	return C''','''	C := make([][]map[int]int, k)
	for i, row := range M {
		I := make(map[int]int, len(row))
		for j, v := range row {
			I[Sc[j]] = int(v)
		}
		g := G[i]
		C[g] = append(C[g], I)
	}
	return C''')]),
('r6-kmode-out','',[(KM,'''	i = 0
	for i < n {
		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
		i++
	}
	return clusters''','''	for j, row := range data {
		c := make([]int, len(row))
		copy(c, row)
		clusters[chkdata[j]][j] = c
	}
	return clusters''')]),
('r6-kmode-which','',[(KM,'''		min, which := len(data[i])+1, -1
		if v, ok := chkdata[i]; ok {
			which = v
			min = metrics.Hamming(means[which], data[i])
		}
		for j := 0; j < k; j++ {
			if j != which {
				t := metrics.Hamming(means[j], data[i])
				if t < min {
					min, which = t, j
				}
			}
		}
		v, ok := chkdata[i]''','''		v, ok := chkdata[i]
		min, which := len(data[i])+1, -1
		if ok {
			which, min = v, metrics.Hamming(means[v], data[i])
		}
		for j := 0; j < k; j++ {
			if t := metrics.Hamming(means[j], data[i]); t < min {
				min, which = t, j
			}
		}''')]),
('r6-kmed-out','',[(KD,'''	for i < n {
		//fmt.Println("i",i,"chkdata",chkdata[i],"len",len(data[i]))
		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
		i++
	}''','''	for ; i < n; i++ {
		g := chkdata[i]
		clusters[g][i] = append(make([]int, 0, len(data[i])), data[i]...)
	}''')]),
('r6-dbscan-out','',[(DB,'''			chs := utils.UFVarids(rgs[i])
			nchs := len(chs)
			for j := 0; j < nchs; j++ {
				l := chs[j]
				clusters[k][l] = make([]int, m)
				copy(clusters[k][l], data[l])
			}
			k++''','''			for _, l := range utils.UFVarids(rgs[i]) {
				row := make([]int, m)
				copy(row, data[l])
				clusters[k][l] = row
			}
			k++''')]),
('r6-dbscan-find','',[(DB,'''	for _, u := range rgs {
		if u.Pa == u {
			ch := utils.UFVarids(u)
			for _, c := range ch {
				G[c] = k
			}
			k++
		}
	}''','''	label := make(map[*utils.UFNode]int)
	for i, u := range rgs {
		r := utils.Find(u)
		g, ok := label[r]
		if !ok {
			g = k
			label[r] = g
			k++
		}
		G[i] = g
	}''')]),
# ---- breaking
('b6-hide-none','C16',[('@1',D,'''			J := hideValues(I, Y)
			spn.StoreInference(S, J, z, st)''','''			J := hideValues(I, nil)
			spn.StoreInference(S, J, z, st)''')]),
('b6-dgd-reset','?',[('@1',D,'''			applyDGD(S, s, d, w, z, p, u, st, eta, norm, Q, 1)
			st.ResetTickets(s, d, w, z, p, u)''','''			applyDGD(S, s, d, w, z, p, u, st, eta, norm, Q, 1)
			st.ResetTickets(s, d, w, z, p)''')]),
('b6-bgd-norst','C16',[('@1',D,'''				applyDGDFrom(S, l, st, eta, norm, b)
				st.Reset(l)
			}''','''				applyDGDFrom(S, l, st, eta, norm, b)
			}''')]),
('b6-bgd-left','C16',[(D,'''	if j%b != 0 {
		applyDGDFrom(S, l, st, eta, norm, b)
		st.Reset(l)
	}
''','')]),
('b6-gbgd-left','C16',[('@1',G,'''		if i%bSize != 0 {
			sys.Println("Applying gradient descent...")
			applyFastGD(S, eta, wtk, storage, norm, bSize)
			storage.Reset(wtk)
		}''','''		if i%bSize != 0 {
			storage.Reset(wtk)
		}''')]),
('b6-gd-swap','C16',[('@1',G,'DeriveApplyWeights(S, eta, storage, stk, itk, c, norm)','DeriveApplyWeights(S, eta, storage, itk, stk, c, norm)')]),
('b6-hgd-nolam','C15',[(G,'''					W[i] = w + delta - 2*P.Lambda*w
				}
				if norm {
					Normalize(W)
				}
			}''','''					W[i] = w + delta - P.Lambda*w
				}
				if norm {
					Normalize(W)
				}
			}''')]),
('b6-fasthgd-old','C15',[('@1',G,'''				delta := eta * (d / (w * float64(b)))
				W[i] = w + delta''','''				delta := eta * (d / (w + float64(b)))
				W[i] = w + delta''')]),
('b6-dgd-sign','C15',[('@1',D,'math.Exp(dW[i]-vS) - math.Exp(dU[i]-vZ))','math.Exp(dW[i]-vZ) - math.Exp(dU[i]-vS))')]),
('b6-store-over','C12',[(D,'lt.Store(n, i, v+delta)','lt.Store(n, i, v*delta)')]),
('b6-hdgd-plus','C15',[(D,'C[s][i] = C[s][i] - c','C[s][i] = C[s][i] + c')]),
('b6-norm-skip','C15',[('@1',G,'''			if norm {
				Normalize(W)
			}''','''			if norm && P.Lambda > 0 {
				Normalize(W)
			}''')]),
('b6-queue-shrink','C17',[(Q,'''	sys.Free()
	q.cap = len(q.data)
''','''	d := make([]interface{}, len(q.data))
	copy(d, q.data[1:])
	q.data = d
	sys.Free()
	q.cap = len(q.data)
''')]),
('b6-queue-invert','C17',[(Q,'''	l := make([]interface{}, n)
	for i, v := range q.data {
		l[n-i-1] = v
	}
	q.cap, q.data = n, l
	return q''','''	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		q.data[i] = q.data[j]
	}
	q.cap = n
	return q''')]),
('b6-queue-back','C17',[(Q,'''	n := len(q.data) - 1
	e := q.data[n]
	q.data[n] = nil
	q.data = q.data[:n]''','''	n := len(q.data) - 1
	e := q.data[n]
	q.data[n] = nil
	if n > 0 {
		q.data = q.data[:n]
	}''')]),
('b6-stack-get','?',[(K,'	return s.data[i]\n','	return s.data[len(s.data)-1-i]\n')]),
('b6-stor-purge','?',[(S,'	s.tickets = 0\n	sys.Free()','	sys.Free()')]),
('b6-stor-reset','C17',[(S,'''	for _, k := range K {
		delete(s.tables, k)
		s.tables[k] = make(StorerTable)
	}''','''	t := make(StorerTable)
	for _, k := range K {
		delete(s.tables, k)
		s.tables[k] = t
	}''')]),
('b6-uf-rank','C21',[(U,'''	if x.rank > y.rank {
		y.Pa = x
		x.Ch = append(x.Ch, y)
		return x, 1
	}''','''	if x.rank > y.rank {
		y.Pa = x
		return x, 1
	}''')]),
('b6-uf-noroot','C21',[(U,'	x, y = Find(x), Find(y)\n','	x = Find(x)\n')]),
('b6-ig-edge','C21',[('@1',I,'''			if !indep {
				//sys.Println("Not''','''			if !indep && j > i+1 {
				//sys.Println("Not''')]),
('b6-ig-rid','C21',[(I,'rv2 := rids[v2]','rv2 := rids[v1] + 0*v2')]),
('b6-ig-count','C21',[('@2',I,'			for k := 0; k < m; k++ {\n				mdata','			for k := 1; k < m; k++ {\n				mdata')]),
('b6-gtest-df','C21',[(GT,'df := (p - 1) * (q - 1)','df := p*q - 1')]),
('b6-gtest-exp','C21',[(GT,'float64(data[p][j]*data[i][q]) / float64(data[p][q])','float64(data[p][i]*data[j][q]) / float64(data[p][q])')]),
('b6-guess-col','C25',[(C,'I[Sc[j]] = int(M[i][j])','I[j] = int(M[i][j])')]),
('b6-tocluster','C25',[(C,'''		I := D[i]
		J := make([]float64, len(I))
		copy(J, I)
		C[j-1][i] = J''','''		I := D[j-1]
		J := make([]float64, len(I))
		copy(J, I)
		C[j-1][i] = J''')]),
('b6-kmode-skip','C25',[(KM,'''	i = 0
	for i < n {
		clusters[chkdata[i]][i]''','''	i = 1
	for i < n {
		clusters[chkdata[i]][i]''')]),
('b6-kmed-key','C25',[(KD,'''		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
		i++''','''		clusters[chkdata[i]][chkdata[i]] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][chkdata[i]], data[i])
		i++''')]),
('b6-dbscan-k','?',[(DB,'''				copy(clusters[k][l], data[l])
			}
			k++''','''				copy(clusters[k][l], data[l])
			}
			k = len(chs)''')]),
]
