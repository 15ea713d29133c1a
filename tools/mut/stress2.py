D='learn/derive.go'; G='learn/generative.go'; DI='learn/discriminative.go'
AF='''			for i, d := range dW {
				delta := eta * math.Exp(d)
				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
			}
'''
AG='''			for i := range W {
				delta := eta * math.Exp(dW[i])
				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
			}
'''
AH='''					w := W[i]
					delta := eta * (d / (w * float64(b)))
					W[i] = w + delta - 2*P.Lambda*w
'''
DD='''				delta := eta * (math.Exp(dW[i]-vS) - math.Exp(dU[i]-vZ))
'''
M=[
# C12
('y-derive-root-val','C12',[(D,'	table.StoreSingle(S, 0.0)\n','	lv, _ := inf.Single(S)\n	table.StoreSingle(S, -lv)\n')]),
('y-derive-sib-before','C12',[(D,'					if j != i {\n						_v','					if j < i {\n						_v')]),
('y-derive-sib-ptr','C12',[(D,'					if j != i {\n						_v','					if ch[j] != cs {\n						_ = i\n						_v')]),
('y-derive-prod-over','C12',[(D,'''				if !e {
					table.StoreSingle(cs, t)
				} else {''','''				if !e || v < t {
					table.StoreSingle(cs, t)
				} else {''')]),
('y-derive-sum-pv','C12',[(D,'					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))','					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i]))+pv)')]),
('y-derive-zero-skip','C12',[(D,'''			for i, cs := range ch {
				v, e := table.Single(cs)
				if !e {''','''			for i, cs := range ch {
				if W[i] == 0 {
					continue
				}
				v, e := table.Single(cs)
				if !e {''')]), # equivalent? entry missing rather than -inf
('y-dw-node-value','C12',[(D,'''				v, _ := it.Single(cs)
				wt.Store(s, i, v+pv)''','''				v, _ := it.Single(s)
				_ = cs
				wt.Store(s, i, v+pv)''')]),
('y-dwb-max','C12',[(D,'					ndw = utils.LogSumExpPair(ndw, dw)\n','					ndw = math.Max(ndw, dw)\n')]),
('y-dwb-log','C12',[(D,'					ndw = utils.LogSumExpPair(ndw, dw)\n','					ndw = ndw + dw\n')]),
('y-hard-all','C12',[(D,'				tab.Store(s, mi, v+1)\n','				tab.Store(s, mi, 1)\n				_ = v\n')]),
('y-hard-idx0','C12',[(D,'				v, _ := tab.Entry(s, mi)\n','				v, _ := tab.Entry(s, 0)\n')]),
('y-hard-stop','C12',[(D,'''				if mc := ch[mi]; !V[mc] {
					Q.Enqueue(mc)
					V[mc] = true
				}''','''				if mc := ch[mi]; !V[mc] && mc.Type() == "product" {
					Q.Enqueue(mc)
					V[mc] = true
				}''')]),
('y-hard-trace-nil','C12',[(D,'	T := spn.TraceMAP(S, I)\n','	T := spn.TraceMAP(S, nil)\n')]),
# refactors
('y-r-derive-helper','',[(D,'''				if !e {
					table.StoreSingle(cs, t)
				} else {
					//table.StoreSingle(cs, math.Log(math.Exp(v)+math.Exp(t)))
					table.StoreSingle(cs, utils.LogSumExpPair(v, t))
				}''','''				if e {
					t = utils.LogSumExpPair(v, t)
				}
				table.StoreSingle(cs, t)''')]),
('y-r-derive-helper2','',[(D,'''				v, e := table.Single(cs)
				if !e {
					table.StoreSingle(cs, math.Log(W[i])+pv)
				} else {
					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
				}''','''				accumulate(table, cs, math.Log(W[i])+pv)'''),(D,'// DeriveWeights ','''func accumulate(table spn.StorerTable, s spn.SPN, d float64) {
	if v, e := table.Single(s); e {
		d = utils.LogSumExpPair(v, d)
	}
	table.StoreSingle(s, d)
}

// DeriveWeights ''')]) ,
('y-r-total-minus','?',[(D,'''			for i, cs := range ch {
				v, e := table.Single(cs)
				t := pv
				for j := range ch {
					if j != i {
						_v, _ := inf.Single(ch[j])
						t += _v
					}
				}
''','''			for i, cs := range ch {
				v, e := table.Single(cs)
				t := pv
				for j, o := range ch {
					if j == i {
						continue
					}
					_v, _ := inf.Single(o)
					t += _v
				}
''')]),
# C15
('y-af-first-only','C15',[(G,AF,AF.replace('				delta :=','				if i >= len(W)-1 && i > 0 {\n					continue\n				}\n				delta :='))]),
('y-af-lambda-sign','C15',[(G,AF,AF.replace('- 2*P','+ 2*P'))]),
('y-af-clip','C15',[(G,AF,AF.replace('				W[i] +=','				if delta > 1 {\n					delta = 1\n				}\n				W[i] +='))]),
('y-af-intdiv','C15',[(G,AF,AF.replace('(delta / float64(b))','delta*float64(1/b)'))]),
('y-ag-norm-inloop','C15',[(G,AG+'''			if norm {
				Normalize(W)
			}
''',AG.replace('*W[i]\n','*W[i]\n				if norm {\n					Normalize(W)\n				}\n'))]),
('y-ag-lambda-b','C15',[(G,AG,AG.replace('(delta / float64(b)) - 2*P.Lambda*W[i]','(delta - 2*P.Lambda*W[i]) / float64(b)'))]),
('y-ah-nob','C15',[(G,AH,AH.replace('w + delta - 2*P.Lambda*w','w + delta - 2*P.Lambda*W[0]'))]),
('y-dgd-swap','C15',[(DI,DD,DD.replace('math.Exp(dW[i]-vS)','math.Exp(dW[i]-vZ+vS-vS)').replace('dW[i]-vZ+vS-vS','dW[i]-math.Max(vS, vZ)'))]),
('y-dgd-seen','C15',[(DI,DD,'				if dW[i] == 0 {\n					continue\n				}\n'+DD)]),
('y-sdgd-overwrite','C12',[(DI,'				lt.Store(n, i, v+delta)\n','				lt.Store(n, i, delta)\n				_ = v\n')]),
('y-hdgd-skipp','C15',[(DI,'			C[s][i] = C[s][i] - c\n','			if _, e := C[s][i]; e {\n				C[s][i] = C[s][i] - c\n			}\n')]),
('y-hdgd-w','C15',[(DI,'				W[i] += eta*(delta/(w*float64(b))) - 2*l*w\n','				W[i] += eta*(delta/(w*float64(b))) - 2*l*w*float64(b)\n')]),
('y-norm-abs','C15',[(D,'''	var norm float64
	for i := range v {
		norm += v[i]
	}''','''	var norm float64
	for i := range v {
		norm += math.Abs(v[i])
	}''')]), # equal since v >= 0 after shift
('y-norm-max','C15',[(D,'''	var norm float64
	for i := range v {
		norm += v[i]
	}''','''	var norm float64
	for i := range v {
		norm = math.Max(norm, v[i])
	}''')]),
('y-norm-minonly','C15',[(D,'''		for i := range v {
			v[i] -= min
		}''','''		for i := range v {
			if v[i] < 0 {
				v[i] -= min
			}
		}''')]),
('y-daw-eta','C15',[(D,'				W[i] += eta * math.Exp(v+pv)\n','				W[i] += eta * math.Exp(v) * pv\n')]),
('y-daw-norm-prev','C15',[(D,'				W[i] += eta * math.Exp(v+pv)\n			}\n			if norm {\n','				W[i] += eta * math.Exp(v+pv)\n			}\n			if norm && len(W) > 2 {\n')]),
# C02/C01
('y-hide-inplace','C02',[(DI,'''	J := make(spn.VarSet)
	for k, v := range I {
		J[k] = v
	}
	for _, v := range Y''','''	J := I
	for _, v := range Y''')]),
# learner protocol (new property)
('y-gd-no-reset','C16',[(G,'''			storage.Reset(itk)
			storage.Reset(stk)
			//applyGD(S, eta, wtk, storage, c, norm)
''','''			storage.Reset(itk)
''')]),
('y-bgd-tail','C16',[(G,'''		if i%bSize != 0 {
			sys.Println("Applying gradient descent...")
			applyFastGD(S, eta, wtk, storage, norm, bSize)
''','''		if i%bSize == 1 {
			sys.Println("Applying gradient descent...")
			applyFastGD(S, eta, wtk, storage, norm, bSize)
''')]),
('y-bgd-reset-each','C16',[(G,'''			storage.Reset(itk)
			storage.Reset(stk)
			// Add current log-value to log-likelihood.
			sys.Printf("Log-value ln(S(X)) = %.3f\\n", lv)
			llh += lv
			i++
			if i%bSize''','''			storage.ResetTickets(itk, stk, wtk)
			sys.Printf("Log-value ln(S(X)) = %.3f\\n", lv)
			llh += lv
			i++
			if i%bSize''')]),
('y-hbgd-noreset','C16',[(G,'''				applyFastHGD(S, eta, dtk, storage, norm, bSize)
				storage.Reset(dtk)
			}
			// Add''','''				applyFastHGD(S, eta, dtk, storage, norm, bSize)
			}
			// Add''')]),
('y-dgd-reset-less','C16',[(DI,'			st.ResetTickets(s, d, w, z, p, u)\n		}\n	}\n	return S','			st.ResetTickets(s, d, w, z, u)\n		}\n	}\n	return S')]),
('y-disp-swap','C16',[(G,'		return GenerativeBGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize, P.BatchSize)','		return GenerativeBGD(S, P.Epsilon, P.Eta, D, nil, P.Normalize, P.BatchSize)')]),
('y-disp-hard','C16',[(DI,'			return DiscriminativeHardBGD(S,','			return DiscriminativeBGD(S,')]),
('y-epoch-off','C16',[(DI,'''	d, p := st.NewTicket(), st.NewTicket()
	P := S.Parameters()
	for i := 0; i < P.Iterations; i++ {''','''	d, p := st.NewTicket(), st.NewTicket()
	P := S.Parameters()
	for i := 1; i < P.Iterations; i++ {''')]),
('y-dgd-tickets','C16',[(DI,'			DeriveSPN(S, st, p, z, Q)\n			DeriveWeights(S, st, u, p, z, Q)\n			applyDGD','			DeriveSPN(S, st, p, s, Q)\n			DeriveWeights(S, st, u, p, z, Q)\n			applyDGD')]),
]
