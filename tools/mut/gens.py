G='learn/gens/gens.go'
SUM='''		sum.AddChildW(nc, float64(len(clusters[id]))/float64(len(D)))'''
STEPC='''		nsc := learn.ReflectScope(Sc)
		var nc spn.SPN
		if g > 0 {
			nc = LearnGauss(nsc, clusters[id], k, pval, eps, mp, g)
		} else {
			nc = Learn(nsc, clusters[id], k, pval, eps, mp)
		}
'''
FILL='''			for l := 0; l < s; l++ {
				k := (*kset)[id][l]
				tdata[j][k] = D[j][k]
			}
'''
NSC='''		for j := 0; j < s; j++ {
			t := (*kset)[id][j]
			nsc[t] = &learn.Variable{Varid: t, Categories: Sc[t].Categories, Name: ""}
		}
'''
CNT='''	counts := make([]int, v.Categories)
	for i := range data {
		counts[data[i][v.Varid]]++
	}
	return spn.NewCountingMultinomial(v.Varid, counts)
'''
LOOP='''	for i := range clusters {
		if np != 1 {
			Q.Run(step, i)
		} else {
			step(i)
		}
	}
'''
ILOOP='''	for i := 0; i < m; i++ {
		if np != 1 {
			Q.Run(step, i)
		} else {
			step(i)
		}
	}
'''
M=[
('g-weight-total','C26',[(G,SUM,'''		sum.AddChildW(nc, 1.0/float64(len(clusters)))''')]),
('g-weight-laplace','C26',[(G,SUM,'''		sum.AddChildW(nc, float64(len(clusters[id])+1)/float64(len(D)+len(clusters)))''')]),
('g-clusterdata','C26',[(G,'''			nc = Learn(nsc, clusters[id], k, pval, eps, mp)''','''			nc = Learn(nsc, D, k, pval, eps, mp)''')]),
('g-k-dec','C26',[(G,'''			nc = LearnGauss(nsc, clusters[id], k, pval, eps, mp, g)''','''			nc = LearnGauss(nsc, clusters[id], k-1, pval, eps, mp, g)''')]),
('g-gauss-lost','C26',[(G,'''		if g > 0 {
			nc = LearnGauss(nsc, clusters[id], k, pval, eps, mp, g)''','''		if g > 1 {
			nc = LearnGauss(nsc, clusters[id], k, pval, eps, mp, g)''')]),
('g-indep-data-last','C26',[(G,FILL,FILL.replace('l < s','l < s-1'))]),
('g-indep-wrongrow','C26',[(G,FILL,FILL.replace('D[j][k]','D[0][k]'))]),
('g-indep-key','C26',[(G,FILL,FILL.replace('tdata[j][k] =','tdata[j][l] ='))]),
('g-indep-skipzero','C26',[(G,FILL,FILL.replace('				tdata[j][k] = D[j][k]','				if v := D[j][k]; v > 0 {\n					tdata[j][k] = v\n				}'))]),
('g-indep-cats','C26',[(G,NSC,NSC.replace('Sc[t].Categories','Sc[(*kset)[id][0]].Categories'))]),
('g-indep-varid','C26',[(G,NSC,NSC.replace('Varid: t','Varid: j'))]),
('g-indep-all','C26',[(G,'m, kset := spn.NewProduct(), len(igraph.Kset), &igraph.Kset','m, kset := spn.NewProduct(), len(igraph.Kset)-1, &igraph.Kset')]),
('g-kset-ge','C26',[(G,'''	if len(igraph.Kset) > 1 {
		return indepStep(procs, kclusters, 0,''','''	if len(igraph.Kset) > 2 {
		return indepStep(procs, kclusters, 0,''')]),
('g-lt-k','?',[(G,'''		if len(D) < k {''','''		if len(D) <= k {''')]),
('g-c-le','C26',[(G,'''	if c := len(clusters); c == 1 {''','''	if c := len(clusters); c <= 2 {''')]),
('g-eps-mp','C26',[(G,'cluster.DBSCANData(D, eps, mp)','cluster.DBSCANData(D, pval, mp)')]),
('g-pval-eps','C26',[(G,'return clusterStep(1, kclusters, 0, pval, eps, mp, data, sc)','return clusterStep(1, kclusters, 0, eps, pval, mp, data, sc)')]),
('g-conc-g','C26',[(G,'''		return indepStep(procs, kclusters, g, pval, eps, mp, data, sc, igraph)''','''		return indepStep(procs, kclusters, 0, pval, eps, mp, data, sc, igraph)''')]),
('g-counts-part','C26',[(G,CNT,CNT.replace('range data {\n','range data[1:] {\n'))]),
('g-counts-clip','C26',[(G,'''			for i := 0; i < m; i++ {
				counts[D[i][v.Varid]]++
			}''','''			for i := 1; i < m; i++ {
				counts[D[i][v.Varid]]++
			}''')]),
('g-mix-weight','C26',[(G,'''		s.AddChildW(spn.NewGaussianParams(varid, q[0], q[1]), 1.0/float64(len(Q)))''','''		s.AddChildW(spn.NewGaussianParams(varid, q[0], q[1]), 1.0/float64(g))''')]),
('g-mix-params','C26',[(G,'''			z.AddChildW(spn.NewGaussianParams(v.Varid, q[0], q[1]), 1.0/float64(len(Q)))''' if 0 else '''				z.AddChildW(spn.NewGaussianParams(v.Varid, q[0], q[1]), 1.0/float64(len(Q)))''','''				z.AddChildW(spn.NewGaussianParams(v.Varid, q[1], q[0]), 1.0/float64(len(Q)))''')]),
('g-binded','C26',[(G,'return Learn(sc, data, kclusters, pval, eps, mp)','return Learn(sc, data, kclusters, eps, pval, mp)')]),
('g-skip-empty','C26',[(G,LOOP,LOOP.replace('		if np != 1 {','		if len(clusters[i]) < 2 {\n			continue\n		}\n		if np != 1 {',1))]),
('g-break','C26',[(G,ILOOP,ILOOP.replace('		if np != 1 {','		if len(igraph.Kset[i]) == 0 {\n			break\n		}\n		if np != 1 {',1))]),
# same behaviour
('q-weight','',[(G,SUM,'''		w := float64(len(clusters[id])) / float64(len(D))
		sum.AddChildW(nc, w)''')]),
('q-scope-direct','',[(G,STEPC,STEPC.replace('learn.ReflectScope(Sc)','learn.CopyScope(Sc)'))]),
('q-scope-same','',[(G,STEPC,STEPC.replace('learn.ReflectScope(Sc)','Sc'))]),
('q-fill-range','',[(G,FILL,'''			for _, k := range (*kset)[id] {
				tdata[j][k] = D[j][k]
			}
''')]),
('q-nsc-range','',[(G,NSC,'''		for _, t := range (*kset)[id] {
			v := &learn.Variable{Varid: t}
			v.Categories = Sc[t].Categories
			nsc[t] = v
		}
''')]),
('q-kset-var','',[(G,'''		s := len((*kset)[id])
''','''		group := (*kset)[id]
		s := len(group)
''')]),
('q-helper','',[(G,STEPC,'''		nc := sub(learn.ReflectScope(Sc), clusters[id], k, g, mp, pval, eps)
'''),(G,'''		var nc spn.SPN
		if g > 0 {
			nc = LearnGauss(nsc, tdata, kc, pval, eps, mp, g)
		} else {
			nc = Learn(nsc, tdata, kc, pval, eps, mp)
		}
''','''		nc := sub(nsc, tdata, kc, g, mp, pval, eps)
'''),(G,'''func newMultinom(''','''func sub(sc map[int]*learn.Variable, data []map[int]int, k, g, mp int, pval, eps float64) spn.SPN {
	if g <= 0 {
		return Learn(sc, data, k, pval, eps, mp)
	}
	return LearnGauss(sc, data, k, pval, eps, mp, g)
}

func newMultinom(''')]),
('q-delegate','',[(G,'''	n := len(sc)
	// If the data's scope is unary, then we return a leaf (i.e. a univariate distribution).
''','''	return LearnConcurrent(sc, data, kclusters, pval, eps, mp, 1)
}

func oldLearn(sc map[int]*learn.Variable, data []map[int]int, kclusters int, pval, eps float64, mp int) spn.SPN {
	n := len(sc)
''')]),
('q-factor-helper','',[(G,'''			counts := make([]int, v.Categories)
			for i := 0; i < m; i++ {
				counts[D[i][v.Varid]]++
			}
			leaf := spn.NewCountingMultinomial(v.Varid, counts)
			prod.AddChild(leaf)
''','''			prod.AddChild(newMultinom(v, D))
'''),(G,'''		m := len(D)
		for _, v''','''		for _, v'''),(G,'''			X := learn.ExtractInstance(v.Varid, D)
			Q := utils.PartitionQuantiles(X, g)
			z := spn.NewSum()
			for _, q := range Q {
				z.AddChildW(spn.NewGaussianParams(v.Varid, q[0], q[1]), 1.0/float64(len(Q)))
			}
			prod.AddChild(z)
''','''			prod.AddChild(newGaussMix(v.Varid, g, D))
''')]),
('q-mix-idx','',[(G,'''	for _, q := range Q {
		s.AddChildW(spn.NewGaussianParams(varid, q[0], q[1]), 1.0/float64(len(Q)))
	}
	return s''','''	n := float64(len(Q))
	for i := 0; i < len(Q); i++ {
		mean, sd := Q[i][0], Q[i][1]
		leaf := spn.NewGaussianParams(varid, mean, sd)
		s.AddChildW(leaf, 1.0/n)
	}
	return s''')]),
('q-invert-if','',[(G,'''	if len(igraph.Kset) > 1 {
		return indepStep(1, kclusters, 0, pval, eps, mp, data, sc, igraph)
	}
	igraph = nil
	// Else we perform k-clustering on the instances.
	return clusterStep(1, kclusters, 0, pval, eps, mp, data, sc)''','''	if len(igraph.Kset) <= 1 {
		return clusterStep(1, kclusters, 0, pval, eps, mp, data, sc)
	}
	return indepStep(1, kclusters, 0, pval, eps, mp, data, sc, igraph)''')]),
('q-early-single','',[(G,'''		if np != 1 {
			Q.Run(step, i)
		} else {
			step(i)
		}
	}
	if np != 1 {
		Q.Wait()
	}
	return sum''','''		if np == 1 {
			step(i)
			continue
		}
		Q.Run(step, i)
	}
	Q.Wait()
	return sum''')]),
('q-cluster-switch','',[(G,'''	var clusters [][]map[int]int
	if k > 0 {
		if len(D) < k {
			return newFullyFactorized(g, D, Sc)
		}
		clusters = cluster.KMeansDataI(k, D)
	} else {
		clusters = cluster.DBSCANData(D, eps, mp)
	}
''','''	var clusters [][]map[int]int
	switch {
	case k <= 0:
		clusters = cluster.DBSCANData(D, eps, mp)
	case len(D) < k:
		return newFullyFactorized(g, D, Sc)
	default:
		clusters = cluster.KMeansDataI(k, D)
	}
''')]),
('q-two-loops','',[(G,LOOP+'''	if np != 1 {
		Q.Wait()
	}
''','''	if np == 1 {
		for i := range clusters {
			step(i)
		}
		return sum
	}
	for i := range clusters {
		Q.Run(step, i)
	}
	Q.Wait()
''')]),
('q-len-helper','',[(G,'''	if c := len(clusters); c == 1 {''','''	single := len(clusters) == 1
	if single {''')]),
('q-only','',[(G,'''		var tv *learn.Variable
		for _, v := range sc {
			tv = v
		}
		return newMultinom(tv, data)
	}

	//''','''		for _, v := range sc {
			return newMultinom(v, data)
		}
	}

	//''')]),
]
M+=[
('q-goroutines','C06',[(G,LOOP+'''	if np != 1 {
		Q.Wait()
	}
''','''	if np == 1 {
		for i := range clusters {
			step(i)
		}
		return sum
	}
	var wg sync.WaitGroup
	for i := range clusters {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			step(id)
		}(i)
	}
	wg.Wait()
	Q.Wait()
''')]),
('q-collect','',[(G,'''	step := func(id int) {
		nsc := learn.ReflectScope(Sc)''','''	nodes := make([]spn.SPN, len(clusters))
	step := func(id int) {
		nsc := learn.ReflectScope(Sc)'''),(G,'''		mu.Lock()
		sum.AddChildW(nc, float64(len(clusters[id]))/float64(len(D)))
		mu.Unlock()
''','''		mu.Lock()
		nodes[id] = nc
		mu.Unlock()
'''),(G,'''	if np != 1 {
		Q.Wait()
	}
	return sum''','''	if np != 1 {
		Q.Wait()
	}
	for i, nc := range nodes {
		sum.AddChildW(nc, float64(len(clusters[i]))/float64(len(D)))
	}
	return sum''')]),
('q-deferunlock','',[(G,'''		mu.Lock()
		prod.AddChild(nc)
		mu.Unlock()
''','''		mu.Lock()
		defer mu.Unlock()
		prod.AddChild(nc)
''')]),
('q-method','',[(G,'''		tdata := make([]map[int]int, tn)
		s := len((*kset)[id])
		for j := 0; j < tn; j++ {
			tdata[j] = make(map[int]int)
			for l := 0; l < s; l++ {
				k := (*kset)[id][l]
				tdata[j][k] = D[j][k]
			}
		}
''','''		s := len((*kset)[id])
		tdata := restrict(D, (*kset)[id])
'''),(G,'	tn := len(D)\n',''),(G,'func newMultinom(','''func restrict(D []map[int]int, vars []int) []map[int]int {
	var out []map[int]int
	for _, row := range D {
		m := make(map[int]int, len(vars))
		for _, v := range vars {
			m[v] = row[v]
		}
		out = append(out, m)
	}
	return out
}

func newMultinom(''')]),
]
