Q='conc/queue.go'; S='score/score.go'; G='learn/gens/gens.go'; R='sys/rand.go'; PP='learn/parameters/parameters.go'; A='app/image.go'
M=[
('q-if-instead-of-for','C06',[(Q,'	for q.k >= q.n {','	if q.k >= q.n {')]),
('q-gt','C06',[(Q,'q.k >= q.n','q.k > q.n')]),
('q-inc-after-unlock','C06',[(Q,'	q.k++\n	q.c.L.Unlock()\n','	q.c.L.Unlock()\n	q.k++\n')]),
('q-no-dec','C06',[(Q,'		q.k--\n','')]),
('q-no-signal','C06',[(Q,'		q.c.Signal()\n','')]),
('q-signal-before','C06',[(Q,'		q.c.Signal()\n',''),(Q,'		q.c.L.Lock()\n		q.k--','		q.c.Signal()\n		q.c.L.Lock()\n		q.k--')]),
('q-add-in-worker','C06',[(Q,'	q.wg.Add(1)\n',''),(Q,'		defer q.wg.Done()\n','		q.wg.Add(1)\n		defer q.wg.Done()\n')]),
('q-done-before-f','C06',[(Q,'		defer q.wg.Done()\n','		q.wg.Done()\n')]),
('q-dec-before-f','C06',[(Q,'		f(id)\n		q.c.L.Lock()\n		q.k--\n		q.c.L.Unlock()\n','		q.c.L.Lock()\n		q.k--\n		q.c.L.Unlock()\n		f(id)\n')]),
('q-dec-unlocked','C06',[(Q,'		q.c.L.Lock()\n		q.k--\n		q.c.L.Unlock()\n','		q.k--\n')]),
('q-limit','C06',[(Q,'if n <= 0','if n < 0')]),
('q-capture','C06',[(Q,'		f(id)','		f(q.k)')]),
('score-nolock','C07',[(S,'				mu.Lock()\n','				_ = mu\n'),(S,'				mu.Unlock()\n','')]),
('score-nowait','C06',[(S,'	Q.Wait()\n','')]),
('score-shared-storer','C07',[(S,'			st := spn.NewStorer()\n			tk := st.NewTicket()\n			for j, I','			tk := st.NewTicket()\n			for j, I'),(S,'	k = Q.Allowed()\n','	k = Q.Allowed()\n	st := spn.NewStorer()\n')]),
('score-capture-i','C07',[(S,'g, h := G[id], H[id]','g, h := G[i], H[i]')]),
('score-register-after-unlock','C07',[(S,'				mu.Unlock()\n				st.Reset(tk)','				st.Reset(tk)'),(S,'				s.Register(ml, h[j])\n				if _n','				mu.Unlock()\n				s.Register(ml, h[j])\n				if _n')]),
('gens-nolock-sum','C07',[(G,'''		mu.Lock()
		sum.AddChildW(nc, float64(len(clusters[id]))/float64(len(D)))
		mu.Unlock()
''','''		_ = mu
		sum.AddChildW(nc, float64(len(clusters[id]))/float64(len(D)))
''')]),
('gens-lock-split','C07',[(G,'''		sum.AddChildW(nc, float64(len(clusters[id]))/float64(len(D)))
		mu.Unlock()
''','''		sum.AddChild(nc)
		mu.Unlock()
		sum.AddWeight(float64(len(clusters[id]))/float64(len(D)))
''')]),
('gens-local-mutex','C07',[(G,'''		mu.Lock()
		prod.AddChild(nc)
		mu.Unlock()
''','''		mu := &sync.Mutex{}
		mu.Lock()
		prod.AddChild(nc)
		mu.Unlock()
'''),(G,'''	mu := &sync.Mutex{}
	prod, m,''','''	prod, m,''')]),
('gens-nowait','C06',[(G,'''	if np != 1 {
		Q.Wait()
	}
	return prod''','''	return prod''')]),
('gens-wait-wrongcond','C06',[(G,'''	if np != 1 {
		Q.Wait()
	}
	return sum''','''	if np > 1 {
		Q.Wait()
	}
	return sum''')]),
('gens-shared-nsc','C07',[(G,'''	step := func(id int) {
		nsc := learn.ReflectScope(Sc)
''','''	nsc := make(map[int]*learn.Variable)
	step := func(id int) {
		for k, v := range Sc {
			nsc[k] = v
		}
''')]),
('rand-nolock','C05',[(R,'''	mu.Lock()
	r := Random.Float64()
	mu.Unlock()
	return r''','''	return Random.Float64()''')]),
('rand-early-return','C05',[(R,'''	mu.Lock()
	r := Random.Intn(n)
''','''	mu.Lock()
	if n == 1 {
		return 0
	}
	r := Random.Intn(n)
''')]),
('params-nolock','C05',[(PP,'''	mu.Lock()
	delete(''','''	delete('''),]),
('refac-rand-defer','',[(R,'''	mu.Lock()
	r := Random.Float64()
	mu.Unlock()
	return r''','''	mu.Lock()
	defer mu.Unlock()
	return Random.Float64()''')]),
('refac-queue-acquire','',[(Q,'''	q.c.L.Lock()
	for q.k >= q.n {
		q.c.Wait()
	}
	q.k++
	q.c.L.Unlock()
	q.wg.Add(1)
	go func(id int) {
		defer q.wg.Done()
		f(id)
		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Signal()
	}(i)
}
''','''	q.acquire()
	q.wg.Add(1)
	go func(id int) {
		defer q.wg.Done()
		f(id)
		q.release()
	}(i)
}

func (q *SingleQueue) acquire() {
	q.c.L.Lock()
	defer q.c.L.Unlock()
	for {
		if q.k < q.n {
			break
		}
		q.c.Wait()
	}
	q.k = q.k + 1
}

func (q *SingleQueue) release() {
	q.c.L.Lock()
	q.k -= 1
	q.c.Signal()
	q.c.L.Unlock()
}
''')]),
('refac-queue-worker-method','',[(Q,'''	go func(id int) {
		defer q.wg.Done()
		f(id)
		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Signal()
	}(i)
}
''','''	go q.work(f, i)
}

func (q *SingleQueue) work(f func(int), id int) {
	defer func() {
		q.c.L.Lock()
		q.k--
		q.c.L.Unlock()
		q.c.Broadcast()
		q.wg.Done()
	}()
	f(id)
}
''')]),
('refac-queue-add-first','',[(Q,'	q.c.L.Lock()\n	for','	q.wg.Add(1)\n	q.c.L.Lock()\n	for'),(Q,'	q.c.L.Unlock()\n	q.wg.Add(1)\n','	q.c.L.Unlock()\n')]),
('refac-gens-helper','',[(G,'''	for i := range clusters {
		if np != 1 {
			Q.Run(step, i)
		} else {
			step(i)
		}
	}
	if np != 1 {
		Q.Wait()
	}
	return sum''','''	runAll(np, len(clusters), step)
	return sum'''),(G,'''	Q := conc.NewSingleQueue(np)
	mu := &sync.Mutex{}
	var clusters''','''	mu := &sync.Mutex{}
	var clusters'''),(G,'func clusterStep(','''func runAll(np, m int, step func(int)) {
	if np == 1 {
		for i := 0; i < m; i++ {
			step(i)
		}
		return
	}
	Q := conc.NewSingleQueue(np)
	for i := 0; i < m; i++ {
		Q.Run(step, i)
	}
	Q.Wait()
}

func clusterStep(''')]),
('refac-gens-conc-var','',[(G,'''	for i := range clusters {
		if np != 1 {
			Q.Run(step, i)
		} else {
			step(i)
		}
	}
	if np != 1 {
		Q.Wait()
	}
	return sum''','''	parallel := np != 1
	for i := 0; i < len(clusters); i++ {
		if !parallel {
			step(i)
			continue
		}
		Q.Run(step, i)
	}
	if parallel {
		Q.Wait()
	}
	return sum''')]),
('refac-score-worker','',[(S,'''				mu.Lock()
				s.Register(ml, h[j])
				if _n, p := s.total, len(D)/10; p > 0 && _n > 0 && _n%p == 0 {
					sys.Printf("... %d%% ...\\n", int(100.0*(float64(_n)/float64(len(D)))))
				}
				mu.Unlock()
''','''				func() {
					mu.Lock()
					defer mu.Unlock()
					s.Register(ml, h[j])
					if _n, p := s.total, len(D)/10; p > 0 && _n > 0 && _n%p == 0 {
						sys.Printf("... %d%% ...\\n", int(100.0*(float64(_n)/float64(len(D)))))
					}
				}()
''')]),
('refac-score-slices','',[(S,'			g, h := G[id], H[id]\n			st','			st'),(S,'for j, I := range g {\n				delete(I, v)','for j := 0; j < len(G[id]); j++ {\n				I := G[id][j]\n				delete(I, v)'),(S,'h[j])\n				if _n','H[id][j])\n				if _n')]),
]
