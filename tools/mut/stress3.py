U='spn/utils.go'; SM='spn/sum.go'; PR='spn/product.go'; ST='spn/storer.go'; DM='data/manipulate.go'; SE='spn/serial.go'; TP='spn/topo.go'; ML='spn/multinom.go'; GA='spn/gaussian.go'; SC='score/score.go'; CQ='conc/queue.go'
INFSUM='''			sum := s.(*Sum)
			ch := sum.Ch()
			W := sum.Weights()
			n := len(ch)
			vals := make([]float64, n)
			for i, cs := range ch {
				v := V[cs]
				vals[i] = v + math.Log(W[i])
			}
			V[s] = sum.Compute(vals)
'''
INF='''func Inference(S SPN, I VarSet) float64 {
	if len(S.Ch()) == 0 && S.Type() != "leaf" {
		return 0
	}
	O := common.Queue{}
	TopSortTarjan(S, &O)
	V := make(map[SPN]float64)
	for !O.Empty() {
		s := O.Dequeue().(SPN)
		switch t := s.Type(); t {
		case "leaf":
			V[s] = s.Value(I)
		case "sum":
'''+INFSUM+'''		case "product":
			prod := s.(*Product)
			ch := prod.Ch()
			n := len(ch)
			vals := make([]float64, n)
			for i, ch := range ch {
				vals[i] = V[ch]
			}
			V[s] = prod.Compute(vals)
		}
	}
	return V[S]
}
'''
QUEUE='''	q.c.L.Lock()
	for q.k >= q.n {
		q.c.Wait()
	}
	q.k++
	q.c.L.Unlock()
	q.wg.Add(1)
	go func(id int) {
		defer q.wg.Done()
		f(id)
		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Signal()
	}(i)
'''
M=[
# ---- refactorings
('r3-inf-eval-fn','',[(U,INF,'''func Inference(S SPN, I VarSet) float64 {
	if len(S.Ch()) == 0 && S.Type() != "leaf" {
		return 0
	}
	O := common.Queue{}
	TopSortTarjan(S, &O)
	V := make(map[SPN]float64)
	for !O.Empty() {
		s := O.Dequeue().(SPN)
		V[s] = nodeValue(s, I, V)
	}
	return V[S]
}

func nodeValue(s SPN, I VarSet, V map[SPN]float64) float64 {
	switch s.Type() {
	case "sum":
		sum := s.(*Sum)
		W := sum.Weights()
		vals := make([]float64, len(sum.Ch()))
		for i, c := range sum.Ch() {
			vals[i] = V[c] + math.Log(W[i])
		}
		return sum.Compute(vals)
	case "product":
		var r float64
		for _, c := range s.Ch() {
			r += V[c]
		}
		return r
	}
	return s.Value(I)
}
''')]),
('r3-inf-typeswitch','',[(U,INF,INF.replace('switch t := s.Type(); t {\n		case "leaf":\n			V[s] = s.Value(I)\n		case "sum":\n			sum := s.(*Sum)','switch sum := s.(type) {\n		case *Sum:').replace('case "product":\n			prod := s.(*Product)\n			ch := prod.Ch()','case *Product:\n			prod := sum\n			ch := prod.Ch()').replace('''		}
	}
	return V[S]''','''		default:
			V[s] = s.Value(I)
		}
	}
	return V[S]'''))]),
('r3-inf-via-store','',[(U,INF,'''func Inference(S SPN, I VarSet) float64 {
	if len(S.Ch()) == 0 && S.Type() != "leaf" {
		return 0
	}
	st := NewStorer()
	_, tk := StoreInference(S, I, -1, st)
	v, _ := st.Single(tk, S)
	return v
}
''')]),
('r3-infy-via-copy','',[(U,'	J := map[int]int{Y: y}\n','	J := make(VarSet)\n	J[Y] = y\n')]),
('r3-sumvalue-range','',[(SM,'''	n := len(s.ch)

	vals := make([]float64, n)
	for i := 0; i < n; i++ {
		v, w := s.ch[i].Value(val), math.Log(s.w[i])
		vals[i] = v + w
	}

	l := s.Compute(vals)
	return l
''','''	vals := make([]float64, 0, len(s.ch))
	for i, c := range s.ch {
		vals = append(vals, math.Log(s.w[i])+c.Value(val))
	}
	return utils.LogSumExp(vals)
''')]),
('r3-summax-helper','',[(SM,'''	max := math.Inf(-1)
	n := len(s.ch)

	for i := 0; i < n; i++ {
		cv := math.Log(s.w[i]) + s.ch[i].Max(val)
		if cv > max {
			max = cv
		}
	}

	return max
}
''','''	_, max := s.best(val)
	return max
}

func (s *Sum) best(val VarSet) (SPN, float64) {
	max := math.Inf(-1)
	var mch SPN
	for i, c := range s.ch {
		cv := math.Log(s.w[i]) + c.Max(val)
		if mch == nil || cv > max {
			mch, max = c, cv
		}
	}
	return mch, max
}
'''),(SM,'''	n, max := len(s.ch), math.Inf(-1)
	var mch SPN

	for i := 0; i < n; i++ {
		ch := s.ch[i]
		m := math.Log(s.w[i]) + ch.Max(val)
		if mch == nil || m > max {
			max, mch = m, ch
		}
	}

	amax, _ := mch.ArgMax(val)
''','''	mch, max := s.best(val)
	amax, _ := mch.ArgMax(val)
''')]),
('r3-summax-mathmax','',[(SM,'''		cv := math.Log(s.w[i]) + s.ch[i].Max(val)
		if cv > max {
			max = cv
		}
''','''		max = math.Max(max, math.Log(s.w[i])+s.ch[i].Max(val))
''')]),
('r3-prodmax-range','',[(PR,'''	n := len(p.ch)
	var v float64

	for i := 0; i < n; i++ {
		v += (p.ch[i]).Max(val)
	}

	return v
''','''	v := 0.0
	for _, c := range p.ch {
		v += c.Max(val)
	}
	return v
''')]),
('r3-prodargmax-rev','',[(PR,'''	for i := 0; i < n; i++ {
		chargs, chmap := p.ch[i].ArgMax(val)
		v += chmap
		for k, val := range chargs {
			argmax[k] = val
		}
	}
''','''	for _, c := range p.ch {
		chargs, chmap := c.ArgMax(val)
		merge(argmax, chargs)
		v += chmap
	}
	_ = n
'''),(PR,'''// AddChild adds a child.''','''func merge(dst, src VarSet) {
	for k, v := range src {
		dst[k] = v
	}
}

// AddChild adds a child.''')]),
('r3-store-helper','',[(ST,'''	_, err := t[S]
	if !err {
		t[S] = make(map[int]float64)
		t[S][l] = e
	} else {
		t[S][l] = e
	}
	return true
''','''	m, ok := t[S]
	if !ok {
		m = make(map[int]float64)
		t[S] = m
	}
	m[l] = e
	return true
''')]),
('r3-exists-entry','',[(ST,'''	_, e := s.tables[k][S][i]
	return e
''','''	_, e := s.Entry(k, S, i)
	return e
''')]),
('r3-reset-delete','',[(ST,'''	delete(s.tables, k)
	sys.Free()
	s.tables[k] = make(StorerTable)
	return k
''','''	s.tables[k] = StorerTable{}
	sys.Free()
	return k
''')]),
('r3-storemap-split','',[(U,'''	Q := common.Queue{}
	V := make(map[SPN]bool)
	Q.Enqueue(S)
	V[S] = true
	M := make(VarSet)

	// Find MAP states.
''','''	return S, tk, mapStates(S, I, tab)
}

func mapStates(S SPN, I VarSet, tab StorerTable) VarSet {
	Q := common.Queue{}
	V := make(map[SPN]bool)
	Q.Enqueue(S)
	V[S] = true
	M := make(VarSet)

	// Find MAP states.
'''),(U,'''	return S, tk, M
}
''','''	return M
}
''')]),
('r3-storemap-lazy','',[(U,'''			var mv []SPN
			for i, c := range ch {
				v, _ := tab.Single(c)
				u := math.Log(W[i]) + v
				if u > m {
					mv, m = []SPN{c}, u
				} else if u == m {
					mv = append(mv, c)
				}
			}
''','''			for i, c := range ch {
				v, _ := tab.Single(c)
				if u := v + math.Log(W[i]); u > m {
					m = u
				}
			}
			var mv []SPN
			for i, c := range ch {
				v, _ := tab.Single(c)
				if v+math.Log(W[i]) == m {
					mv = append(mv, c)
				}
			}
''')]),
('r3-norm-split','',[(U,'''	var min float64
	for _, u := range v {
		if u < min {
			min = u
		}
	}
	if min < 0 {
		for i := range v {
			v[i] -= min
		}
	}

	var norm float64
''','''	shiftUp(v)

	var norm float64
'''),(U,'func NormalizeSPN(','''func shiftUp(v []float64) {
	min := 0.0
	for _, u := range v {
		min = math.Min(min, u)
	}
	if min == 0 {
		return
	}
	for i := range v {
		v[i] -= min
	}
}

func NormalizeSPN(''')]),
('r3-norm-one','',[(U,'''	var norm float64
	for i := range v {
		norm += v[i]
	}
	for i := range v {
		v[i] /= norm
	}
''','''	norm := 0.0
	for _, u := range v {
		norm += u
	}
	for i, u := range v {
		v[i] = u / norm
	}
''')]),
('r3-marshal-helper','',[(SE,'''		list = append(list, []uint32{})
		M[Z] = n
		// Invariant: because of topological order, any child of Z has already been visited.
		for _, c := range Z.Ch() {
			p := M[c]
			list[n] = append(list[n], p)
		}
''','''		M[Z] = n
		// Invariant: because of topological order, any child of Z has already been visited.
		ids := []uint32{}
		for _, c := range Z.Ch() {
			ids = append(ids, M[c])
		}
		list = append(list, ids)
''')]),
('r3-unmarshal-idx','',[(SE,'''	for i, ch := range list {
		S := M[i]
		for _, c := range ch {
			Z := M[c]
			S.AddChild(Z)
		}
	}
''','''	for i := 0; i < len(list); i++ {
		for j := range list[i] {
			M[i].AddChild(M[list[i][j]])
		}
	}
''')]),
('r3-topo-emit','',[(TP,'''		if P[u] {
			// A node may have been pushed by more than one parent: emit it only once.
			if !V[u] {
				V[u] = true
				C.Give(u)
			}
			continue
		}
		S.Push(u)
		P[u] = true
		ch := u.Ch()
		for _, c := range ch {
			if !P[c] {
				S.Push(c)
			}
		}
	}
	return C
}

// TopSortTarjanFunc''','''		if !P[u] {
			P[u] = true
			S.Push(u)
			for _, c := range u.Ch() {
				if P[c] {
					continue
				}
				S.Push(c)
			}
		} else if !V[u] {
			V[u] = true
			C.Give(u)
		}
	}
	return C
}

// TopSortTarjanFunc''')]),
('r3-topo-viafunc','',[(TP,'''	S := common.Stack{}
	P := make(map[SPN]bool)
	V := make(map[SPN]bool)
	S.Push(G)
	for !S.Empty() {
		u := S.Pop().(SPN)
		if P[u] {
			// A node may have been pushed by more than one parent: emit it only once.
			if !V[u] {
				V[u] = true
				C.Give(u)
			}
			continue
		}
		S.Push(u)
		P[u] = true
		ch := u.Ch()
		for _, c := range ch {
			if !P[c] {
				S.Push(c)
			}
		}
	}
	return C
}

// TopSortTarjanFunc''','''	return TopSortTarjanFunc(G, C, func(SPN) bool { return true })
}

// TopSortTarjanFunc''')]),
('r3-mult-newcounting','',[(ML,'''	n := len(counts)

	pr := make([]float64, n)
	s := 0.0
	for i := 0; i < n; i++ {
		s += 1.0 + float64(counts[i])
		pr[i] = float64(1 + counts[i])
	}

	for i := 0; i < n; i++ {
		pr[i] /= float64(s)
	}

	m := -1.0
	var mi int
	miv := make([]int, n)
	nmi := 0
	for i := 0; i < n; i++ {
		if pr[i] > m {
			m = pr[i]
			miv[0] = i
			mi = i
			nmi = 1
		} else {
			if pr[i] == m {
				miv[nmi] = i
				nmi++
			}
		}
	}
	if nmi > 1 {
		mi = miv[sys.RandIntn(nmi)]
	}

	return &Multinomial{Node{sc: []int{varid}}, varid, pr, Mode{mi, m}}
''','''	total := len(counts)
	for _, c := range counts {
		total += c
	}
	pr := make([]float64, len(counts))
	for i, c := range counts {
		pr[i] = float64(c+1) / float64(total)
	}
	return NewMultinomial(varid, pr)
''')]),
('r3-mult-value','',[(ML,'''	v, ok := val[m.varid]
	if ok {
		return math.Log(m.pr[v])
	}
	return 0.0 // ln(1.0) = 0.0
''','''	if v, ok := val[m.varid]; ok {
		return m.logProb(v)
	}
	return 0
}

func (m *Multinomial) logProb(v int) float64 {
	return math.Log(m.pr[v])
''')]),
('r3-mult-argmax','',[(ML,'''	retval := make(VarSet)
	v, ok := val[m.varid]

	if ok {
		retval[m.varid] = v
		return retval, math.Log(m.pr[v])
	}

	retval[m.varid] = m.mode.index
	return retval, math.Log(m.mode.val)
''','''	v, ok := val[m.varid]
	if !ok {
		v = m.mode.index
	}
	return VarSet{m.varid: v}, m.Max(val)
''')]),
('r3-mult-stddev','',[(ML,'''func (m *Multinomial) StdDev() float64 {
	mu := m.Mean()
	var sd float64
	for i, p := range m.pr {
		d := float64(i) - mu
		sd += p * d * d
	}
	sd = math.Sqrt(sd)
	return sd
''','''func (m *Multinomial) StdDev() float64 {
	_, sd := m.MuSigma()
	return sd
''')]),
('r3-mult-var2','?',[(ML,'''func (m *Multinomial) StdDev() float64 {
	mu := m.Mean()
	var sd float64
	for i, p := range m.pr {
		d := float64(i) - mu
		sd += p * d * d
	}
	sd = math.Sqrt(sd)
	return sd
''','''func (m *Multinomial) StdDev() float64 {
	mu := m.Mean()
	var sq float64
	for i, p := range m.pr {
		sq += p * float64(i*i)
	}
	return math.Sqrt(sq - mu*mu)
''')]),
('r3-data-clone','',[(DM,'''		M := make(map[int]int)
		copyMap(M, D[i])
		S[l] = append(S[l], M)
''','''		S[l] = append(S[l], clone(D[i]))
'''),(DM,'''func copySlice(''','''func clone(I map[int]int) map[int]int {
	J := make(map[int]int, len(I))
	copyMap(J, I)
	return J
}

func copySlice(''')]),
('r3-data-divide-helper','',[(DM,'''			M := make(map[int]int)
			copyMap(M, D[p])
			Gd[i] = append(Gd[i], M)
			Gl[i] = append(Gl[i], L[p])
		}
	}
	for i := 0; i < l; i++ {
		p := m - i - 1
		M := make(map[int]int)
		copyMap(M, D[p])
		Gd[i] = append(Gd[i], M)
		Gl[i] = append(Gl[i], L[p])
	}
''','''			take(i, p)
		}
	}
	for i := 0; i < l; i++ {
		take(i, m-i-1)
	}
'''),(DM,'''	Gl := make([][]int, n)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {''','''	Gl := make([][]int, n)
	take := func(g, p int) {
		M := make(map[int]int)
		copyMap(M, D[p])
		Gd[g] = append(Gd[g], M)
		Gl[g] = append(Gl[g], L[p])
	}
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {''')]),
('r3-data-sublabel-cont','',[(DM,'''			t := make(map[int]int)
			copyMap(t, D[i])
			T = append(T, t)
			Q = append(Q, l)
		} else {
			s := make(map[int]int)
			copyMap(s, D[i])
			S = append(S, s)
			P = append(P, L[i])
		}
''','''			t := make(map[int]int)
			copyMap(t, D[i])
			T, Q = append(T, t), append(Q, L[i])
			continue
		}
		s := make(map[int]int)
		copyMap(s, D[i])
		S, P = append(S, s), append(P, L[i])
''')]),
('r3-data-ident-early','',[(DM,'''	for i, I := range D {
		J := E[i]
		if len(I) != len(J) {
			return false
		}
		for k, v := range I {
			if u, e := J[k]; !e || u != v {
				return false
			}
		}
	}
	for i, l := range L {
		if M[i] != l {
			return false
		}
	}
	return true
''','''	for i := range L {
		if L[i] != M[i] {
			return false
		}
	}
	for i := range D {
		if !sameInstance(D[i], E[i]) {
			return false
		}
	}
	return true
}

func sameInstance(I, J map[int]int) bool {
	if len(I) != len(J) {
		return false
	}
	for k, v := range I {
		u, e := J[k]
		if !e || u != v {
			return false
		}
	}
	return true
''')]),
('r3-queue-sem','',[(CQ,QUEUE,'''	q.acquire()
	q.wg.Add(1)
	go q.work(f, i)
'''),(CQ,'// Wait waits','''func (q *SingleQueue) acquire() {
	q.c.L.Lock()
	defer q.c.L.Unlock()
	for q.k >= q.n {
		q.c.Wait()
	}
	q.k++
}

func (q *SingleQueue) release() {
	q.c.L.Lock()
	q.k--
	q.c.L.Unlock()
	q.c.Signal()
}

func (q *SingleQueue) work(f func(int), id int) {
	defer q.wg.Done()
	f(id)
	q.release()
}

// Wait waits''')]),
('r3-queue-chan','',[(CQ,QUEUE,'''	q.sem <- struct{}{}
	q.wg.Add(1)
	go func(id int) {
		defer q.wg.Done()
		f(id)
		<-q.sem
	}(i)
'''),(CQ,'''	k  int // Number of currently running processes.
	c  *sync.Cond
''','''	sem chan struct{} // One slot per running process.
'''),(CQ,'&SingleQueue{n: n, k: 0, c: sync.NewCond(&sync.Mutex{})}','&SingleQueue{n: n, sem: make(chan struct{}, n)}')]),
('r3-queue-defer-release','',[(CQ,QUEUE,QUEUE.replace('''		defer q.wg.Done()
		f(id)
		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Signal()
''','''		defer q.wg.Done()
		defer func() {
			q.c.L.Lock()
			q.k--
			q.c.L.Unlock()
			q.c.Signal()
		}()
		f(id)
'''))]),
('r3-queue-broadcast','',[(CQ,QUEUE,QUEUE.replace('		q.c.L.Unlock()\n		q.c.Signal()\n','		q.c.Broadcast()\n		q.c.L.Unlock()\n'))]),
('r3-score-predict','',[(SC,'''		I := copyExcept(T[i], v)
		spn.StoreInference(N, I, tk, st)
		pe, _ := st.Single(tk, N)
		mp := math.Inf(-1)
		var ml int
		for j := 0; j < classVar.Categories; j++ {
			st.Reset(tk)
			I[v] = j
			spn.StoreInference(N, I, tk, st)
			pj, _ := st.Single(tk, N)
			if pd := pj - pe; pd > mp {
				mp, ml = pd, j
			}
			delete(I, v)
		}
		s.Register(ml, L[i])
		st.Reset(tk)
''','''		s.Register(mostProbable(N, copyExcept(T[i], v), classVar, tk, st), L[i])
		st.Reset(tk)
'''),(SC,'func copyExcept(','''func mostProbable(N spn.SPN, I spn.VarSet, classVar *learn.Variable, tk int, st *spn.Storer) int {
	v := classVar.Varid
	spn.StoreInference(N, I, tk, st)
	pe, _ := st.Single(tk, N)
	mp := math.Inf(-1)
	var ml int
	for j := 0; j < classVar.Categories; j++ {
		st.Reset(tk)
		I[v] = j
		spn.StoreInference(N, I, tk, st)
		pj, _ := st.Single(tk, N)
		if pd := pj - pe; pd > mp {
			mp, ml = pd, j
		}
		delete(I, v)
	}
	return ml
}

func copyExcept(''')]),
('r3-score-progress','',[(SC,'''	n := len(T) / 10
	for i, I := range T {
		if n > 0 && i > 0 && i%n == 0 {
			sys.Printf("... %d%% ...\\n", int(100.0*(float64(i)/float64(len(T)))))
		}
		_, _, M''','''	for i, I := range T {
		progress(i, len(T))
		_, _, M'''),(SC,'func copyExcept(','''func progress(i, total int) {
	n := total / 10
	if n > 0 && i > 0 && i%n == 0 {
		sys.Printf("... %d%% ...\\n", int(100.0*(float64(i)/float64(total))))
	}
}

func copyExcept(''')]),
('r3-gauss-helper','',[(GA,'''	for i := range counts {
		N += counts[i]
	}

	for i := 0; i < n; i++ {
		mean += float64(counts[i]) / float64(N) * float64(i)
	}

	for i := 0; i < n; i++ {
		d := float64(i) - mean
		sd += (float64(counts[i]) / float64(N)) * d * d
	}
	sd = math.Sqrt(sd)

	//sys''','''	for _, c := range counts {
		N += c
	}

	for i, c := range counts {
		mean += float64(i*c) / float64(N)
	}

	for i := n - 1; i >= 0; i-- {
		d := mean - float64(i)
		sd += d * d * float64(counts[i]) / float64(N)
	}
	sd = math.Sqrt(sd)

	//sys''')]),
('r3-compl-sort','',[(U,'''			k := len(ch) + 1
			for _, u := range v {
				if u != k {
					sys.Printf("u=%d != k=%d\\n", u, k)
					return false
				}
			}
''','''			for _, u := range v {
				if k := 1 + len(ch); k != u {
					sys.Printf("u=%d != k=%d\\n", u, k)
					return false
				}
			}
''')]),
('r3-gob-strconv','',[(SM,'''	var b bytes.Buffer
	fmt.Fprintf(&b, "%d", len(s.w))
	for _, w := range s.w {
		fmt.Fprintf(&b, " %g", w)
	}
	return b.Bytes(), nil
''','''	b := new(bytes.Buffer)
	fmt.Fprintf(b, "%d", len(s.w))
	for i := range s.w {
		fmt.Fprintf(b, " %g", s.w[i])
	}
	return b.Bytes(), nil
''')]),
('r3-gob-sprint','',[(SM,'''	var b bytes.Buffer
	fmt.Fprintf(&b, "%d", len(s.w))
	for _, w := range s.w {
		fmt.Fprintf(&b, " %g", w)
	}
	return b.Bytes(), nil
''','''	out := fmt.Sprintf("%d", len(s.w))
	for _, w := range s.w {
		out += fmt.Sprintf(" %g", w)
	}
	return []byte(out), nil
''')]),
# ---- bugs
('b3-inf-cache-leaf','C10',[(U,INF,INF.replace('			V[s] = s.Value(I)\n','			if _, ok := I[s.Sc()[0]]; ok {\n				V[s] = s.Value(I)\n			}\n			if len(I) == 0 {\n				V[s] = s.Max(I)\n			}\n'))]),
('b3-infy-prod','',[(U,'''			if varid := s.Sc()[0]; varid == Y {
				V[s] = s.Value(J)
			} else {
				V[s] = s.Value(I)
			}
''','''			if varid := s.Sc()[0]; varid == Y {
				V[s] = s.Value(J)
			} else if _, ok := I[varid]; ok {
				V[s] = s.Value(I)
			} else {
				V[s] = s.Value(J)
			}
''')]),
('b3-infy-stale','C10',[(U,'varid == Y {','varid == Y && y >= 0 {')]),
('b3-sumvalue-eps','C10',[(SM,'v, w := s.ch[i].Value(val), math.Log(s.w[i])','v, w := s.ch[i].Value(val), math.Log(s.w[i]+1e-9)')]),
('b3-storemap-visit-early','?',[(U,'''			if mvc != nil && !V[mvc] {
				Q.Enqueue(mvc)
				V[mvc] = true
			}
''','''			for _, c := range ch {
				if c == mvc && !V[c] {
					Q.Enqueue(c)
				}
				V[c] = true
			}
''')]),
('b3-storemap-tie','C11',[(U,'				} else if u == m {\n					mv = append(mv, c)','				} else if u >= m-0.1 {\n					mv = append(mv, c)')]),
('b3-computehard','?',[(SM,'v += s.w[i] * math.Exp(cv[i]-max)','v += math.Exp(cv[i]-max)')]),
('b3-norm-first','C15',[(U,'	if min < 0 {\n		for i := range v {\n			v[i] -= min','	if min < 0 {\n		for i := range v[:len(v)-1] {\n			v[i] -= min')]),
('b3-norm-spn-leafprod','?',[(U,'''			if !V[c] {
				Q.Enqueue(c)
				V[c] = true
			}
		}
	}

	return S
}''','''			if !V[c] && len(c.Ch()) > 1 {
				Q.Enqueue(c)
				V[c] = true
			}
		}
	}

	return S
}''')]),
('b3-height-last','?',[(U,'if h := H[c] + 1; h > H[s] {','if h := H[c] + 1; h > H[s] || len(c.Ch()) > 0 {')]),
('b3-complete-dup','',[(U,'				if len(csc) != len(sc) {\n','				if len(csc) > len(sc) {\n')]),
('b3-unmarshal-dedup','C23',[(SE,'			S.AddChild(Z)\n','			if k := len(S.Ch()); k > 0 && S.Ch()[k-1] == Z {\n				continue\n			}\n			S.AddChild(Z)\n')]),
('b3-marshal-u8','?',[(SE,'p := M[c]','p := M[c] & 0xffff')]),
('b3-gob-prec','C23',[(SM,'" %g", w','" %.15g", w')]),
('b3-sum-decode-neg','C23',[(SM,'''			return err
		}
	}
	return nil''','''			return err
		}
		if s.w[i] < 0 {
			s.w[i] = 0
		}
	}
	return nil''')]),
('b3-ticket-reuse','C17',[(ST,'''	delete(s.tables, k)
	sys.Free()
}''','''	delete(s.tables, k)
	if len(s.tables) == 0 {
		s.tickets = 0
	}
	sys.Free()
}''')]),
('b3-resettickets-share','C17',[(ST,'''	for _, k := range K {
		delete(s.tables, k)
		s.tables[k] = make(StorerTable)
	}''','''	t := make(StorerTable)
	for _, k := range K {
		delete(s.tables, k)
		s.tables[k] = t
	}''')]),
('b3-split-alias','C03',[(DM,'''		M := make(map[int]int)
		copyMap(M, D[i])
		S[l] = append(S[l], M)
''','''		if l == c-1 {
			S[l] = append(S[l], D[i])
			continue
		}
		M := make(map[int]int)
		copyMap(M, D[i])
		S[l] = append(S[l], M)
''')]),
('b3-split-drop','C04',[(DM,'''		M := make(map[int]int)
		copyMap(M, D[i])
		S[l] = append(S[l], M)
''','''		if len(D[i]) == 0 {
			continue
		}
		M := make(map[int]int)
		copyMap(M, D[i])
		S[l] = append(S[l], M)
''')]),
('b3-divide-tail','C04',[(DM,'p := m - i - 1','p := m - l + i - i/2')]),
('b3-copy-short','C04',[(DM,'''		if L != nil {
			nL[i] = L[i]
		}
	}
	return nD, nL''','''		if L != nil && i < len(L)-1 {
			nL[i] = L[i]
		}
	}
	return nD, nL''')]),
('b3-merge-inplace','C03',[(DM,'''		T[i] = make(map[int]int)
		copyMap(T[i], I)
		T[i][v] = L[i]
''','''		T[i] = I
		if _, ok := I[v]; !ok {
			T[i] = make(map[int]int)
			copyMap(T[i], I)
		}
		T[i][v] = L[i]
''')]),
('b3-ident-labels','?',[(DM,'		if M[i] != l {','		if i < len(D)-1 && M[i] != l {')]),
('b3-queue-lateunlock','C06',[(CQ,'	for q.k >= q.n {\n		q.c.Wait()\n	}\n','	if q.k >= q.n {\n		q.c.Wait()\n	}\n')]),
('b3-queue-panic','?',[(CQ,'		defer q.wg.Done()\n		f(id)\n','		f(id)\n		defer q.wg.Done()\n')]),
('b3-queue-done-first','C06',[(CQ,'		defer q.wg.Done()\n		f(id)\n','		q.wg.Done()\n		f(id)\n')]),
('b3-score-eval-reset','?',[(SC,'''		s.Register(M[v], L[i])
		st.Reset(tk)
''','''		s.Register(M[v], L[i])
''')]),
('b3-score-conc-lastclass','C20',[(SC,'for u := 0; u < c; u++ {','for u := 0; u < c-1; u++ {')]),
('b3-score-conc-few','?',[(SC,'	if len(D) < k {\n		s.EvaluatePosterior(D, L, N, classVar)','	if len(D) < k {\n		s.Evaluate(D, L, N, classVar)')]),
('b3-mult-max-mode','C13',[(ML,'''	if ok {
		return math.Log(m.pr[v])
	}
	return math.Log(m.mode.val)
''','''	if ok && v != m.mode.index {
		return math.Log(m.pr[v])
	}
	return math.Log(m.mode.val + 1e-12)
''')]),
('b3-mult-argmax-neg','C13',[(ML,'''	if ok {
		retval[m.varid] = v
		return''','''	if ok && m.pr[v] > 0 {
		retval[m.varid] = v
		return''')]),
('b3-mode-last','C14',[(ML,'	var m float64\n	var mi int\n\n	for i := 0; i < n; i++ {','	var m float64\n	var mi int\n\n	for i := 0; i < n-1; i++ {')]),
('b3-decode-mode0','C23',[(ML,'	imode, mode := computeMode(m.pr)\n','	imode, mode := computeMode(m.pr[:n/2+1])\n')]),
]
