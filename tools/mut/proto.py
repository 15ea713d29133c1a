D='learn/derive.go'; G='learn/generative.go'; DI='learn/discriminative.go'; P='learn/parameters/parameters.go'
GD='''	for i := 0; i < P.Iterations; i++ {
		for _, I := range D {
			DeriveHard(S, st, d, I)
			J := hideValues(I, Y)
			DeriveHard(S, st, p, J)
			applyHDGD(S, d, p, st, eta, P.Lambda, norm, 1)
			st.ResetTickets(d, p)
		}
	}
'''
TAIL='''	if j%b != 0 {
		applyDGDFrom(S, l, st, eta, norm, b)
		st.Reset(l)
	}
'''
INB='''			if j%b == 0 {
				applyDGDFrom(S, l, st, eta, norm, b)
				st.Reset(l)
			}
'''
M=[
('p-r-helper','',[(DI,GD,'''	for i := 0; i < P.Iterations; i++ {
		for _, I := range D {
			hardStep(S, st, d, p, I, Y, eta, norm)
		}
	}
'''),(DI,'// applyDGD computes','''func hardStep(S spn.SPN, st *spn.Storer, d, p int, I spn.VarSet, Y []*Variable, eta float64, norm bool) {
	DeriveHard(S, st, d, I)
	J := hideValues(I, Y)
	DeriveHard(S, st, p, J)
	applyHDGD(S, d, p, st, eta, S.Parameters().Lambda, norm, 1)
	st.Reset(p)
	st.Reset(d)
}

// applyDGD computes''')]),
('p-r-index','',[(DI,GD,GD.replace('for _, I := range D {','for k := 0; k < len(D); k++ {\n			I := D[k]'))]),
('p-r-epochs1','',[(DI,GD,GD.replace('for i := 0; i < P.Iterations; i++','for i := 1; i <= P.Iterations; i++'))]),
('p-r-down','',[(DI,GD,GD.replace('for i := 0; i < P.Iterations; i++','for i := P.Iterations; i > 0; i--'))]),
('p-r-order','',[(DI,GD,GD.replace('			DeriveHard(S, st, d, I)\n			J := hideValues(I, Y)\n			DeriveHard(S, st, p, J)\n','			J := hideValues(I, Y)\n			DeriveHard(S, st, p, J)\n			DeriveHard(S, st, d, I)\n'))]),
('p-r-flushfn','',[(DI,INB,INB.replace('				applyDGDFrom(S, l, st, eta, norm, b)\n				st.Reset(l)\n','				flush()\n')),(DI,TAIL,TAIL.replace('		applyDGDFrom(S, l, st, eta, norm, b)\n		st.Reset(l)\n','		flush()\n')),(DI,'	l := st.NewTicket()\n','	l := st.NewTicket()\n	flush := func() {\n		applyDGDFrom(S, l, st, eta, norm, b)\n		st.Reset(l)\n	}\n')]),
('p-r-tailret','',[(DI,TAIL,'''	if j%b == 0 {
		return S
	}
	applyDGDFrom(S, l, st, eta, norm, b)
	st.Reset(l)
''')]),
('p-r-gtail','',[(G,'''		if i%bSize != 0 {
			sys.Println("Applying gradient descent...")
			applyFastGD(S, eta, wtk, storage, norm, bSize)
			storage.Reset(wtk)
''','''		if r := n % bSize; r > 0 {
			sys.Println("Applying gradient descent...")
			applyFastGD(S, eta, wtk, storage, norm, bSize)
			storage.Reset(wtk)
''')]),
('p-r-inend','',[(G,'''			if i%bSize == 0 {
				sys.Println("Applying gradient descent...")
				applyFastGD(S, eta, wtk, storage, norm, bSize)''','''			if i%bSize == 0 || i == n {
				sys.Println("Applying gradient descent...")
				applyFastGD(S, eta, wtk, storage, norm, bSize)'''),(G,'''		// Apply gradient descent.
		if i%bSize != 0 {
			sys.Println("Applying gradient descent...")
			applyFastGD(S, eta, wtk, storage, norm, bSize)
			storage.Reset(wtk)
		}
''','')]),
('p-r-disp','',[(G,'''	b := P.BatchSize > 1
	if parameters.Hardness(P.LearningType) == parameters.Hard {
		if b {
			return GenerativeHardBGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize, P.BatchSize)
		}
		return GenerativeHardGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize)
	}
	if b {
		return GenerativeBGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize, P.BatchSize)
	}
	return GenerativeGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize)
''','''	hard := parameters.Hardness(P.LearningType) == parameters.Hard
	switch batch := P.BatchSize >= 2; {
	case hard && batch:
		return GenerativeHardBGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize, P.BatchSize)
	case hard:
		return GenerativeHardGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize)
	case batch:
		return GenerativeBGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize, P.BatchSize)
	default:
		return GenerativeGD(S, P.Eta, P.Epsilon, D, nil, P.Normalize)
	}
''')]),
('p-r-hide','',[(DI,'''	J := make(spn.VarSet)
	for k, v := range I {
		J[k] = v
	}
	for _, v := range Y {
		delete(J, v.Varid)
	}
''','''	hidden := make(map[int]bool)
	for _, v := range Y {
		hidden[v.Varid] = true
	}
	J := make(spn.VarSet, len(I))
	for k, v := range I {
		if !hidden[k] {
			J[k] = v
		}
	}
''')]),
('p-r-inithere','',[(DI,'''	s, d, w := st.NewTicket(), st.NewTicket(), st.NewTicket()
	z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
	P := S.Parameters()
	for i := 0; i < P.Iterations; i++ {
		for _, I := range D {
			spn.StoreInference(S, I, s, st)
''','''	P := S.Parameters()
	for i := 0; i < P.Iterations; i++ {
		for _, I := range D {
			s, d, w := st.NewTicket(), st.NewTicket(), st.NewTicket()
			z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
			spn.StoreInference(S, I, s, st)
''')]),
# bugs
('p-hard-nohide','C16',[(DI,GD,GD.replace('			DeriveHard(S, st, p, J)','			_ = J\n			DeriveHard(S, st, p, I)'))]),
('p-hard-swap','C16',[(DI,GD,GD.replace('applyHDGD(S, d, p,','applyHDGD(S, p, d,'))]),
('p-hard-reset-d','C16',[(DI,GD,GD.replace('st.ResetTickets(d, p)','st.Reset(d)'))]),
('p-hard-lambda','C16',[(DI,GD,GD.replace('P.Lambda','P.Epsilon'))]),
('p-hard-eta','C16',[(DI,GD,GD.replace('st, eta,','st, eps,'))]),
('p-hard-batch','C16',[(DI,GD,GD.replace('norm, 1)','norm, len(D))'))]),
('p-hard-skip','C16',[(DI,GD,GD.replace('range D {','range D[1:] {'))]),
('p-hard-skipempty','C16',[(DI,GD,GD.replace('			DeriveHard(S, st, d, I)\n','			if len(I) == 0 {\n				continue\n			}\n			DeriveHard(S, st, d, I)\n'))]),
('p-bgd-noreset-tail','',[(DI,TAIL,TAIL.replace('		st.Reset(l)\n',''))]), # table is not used again
('p-bgd-notail','C16',[(DI,TAIL,'')]),
('p-bgd-tail-always','?',[(DI,TAIL,TAIL.replace('if j%b != 0 {','{'))]), # applying an empty table changes nothing
('p-bgd-tail-inepoch','C16',[(DI,INB+'''		}
	}
'''+TAIL,INB+'''		}
		st.Reset(l)
	}
'''+TAIL)]),
('p-bgd-gt','C16',[(DI,INB,INB.replace('j%b == 0','j%b == 1'))]),
('p-bgd-1','C16',[(DI,INB,INB.replace('norm, b)','norm, 1)'))]),
('p-bgd-noreset','C16',[(DI,INB,INB.replace('				st.Reset(l)\n',''))]),
('p-gbgd-i','C16',[(G,'''			llh += lv
			i++
			if i%bSize == 0 {''','''			llh += lv
			if i%bSize == 0 {'''),(G,'''				applyFastGD(S, eta, wtk, storage, norm, bSize)
				storage.Reset(wtk)
			}
			sys''','''				applyFastGD(S, eta, wtk, storage, norm, bSize)
				storage.Reset(wtk)
			}
			i++
			sys''')]),
('p-gd-swap','C16',[(G,'			DeriveApplyWeights(S, eta, storage, stk, itk, c, norm)','			DeriveApplyWeights(S, eta, storage, itk, stk, c, norm)')]),
('p-gd-norm','C16',[(G,'			DeriveApplyWeights(S, eta, storage, stk, itk, c, norm)','			DeriveApplyWeights(S, eta, storage, stk, itk, c, true)')]),
('p-hgd-fam','C16',[(G,'			applyHGD(S, eta, dtk, storage, norm, 1)','			applyFastGD(S, eta, dtk, storage, norm, 1)')]),
('p-disp-b0','C16',[(G,'	b := P.BatchSize > 1\n','	b := P.BatchSize > 0\n')]),
('p-disp-b2','C16',[(G,'	b := P.BatchSize > 1\n','	b := P.BatchSize > 2\n')]),
('p-disp-soft','C16',[(DI,'LearningType) == parameters.Hard {','LearningType) != parameters.Soft-1+1 {\n		_ = 0')]) if 0 else ('p-disp-soft','C16',[(DI,'LearningType) == parameters.Hard {','LearningType) == parameters.Soft {')]),
('p-disp-method','C16',[(DI,'parameters.Hardness(P.LearningType)','parameters.Method(P.LearningType)')]),
('p-default-it','C16',[(P,'0, 0.01, 4}','0, 0.01, 5}')]),
('p-hardness','C16',[(P,'	if t%2 == 0 {\n		return Hard','	if t%2 != 0 {\n		return Hard')]),
('p-new-swap','C16',[(P,'t, eta, eps, bs','t, eps, eta, bs')]),
('p-param-nobind','?',[('spn/sum.go','		parameters.Bind(s, p)\n','')]),
('p-param-bindother','?',[('spn/sum.go','		parameters.Bind(s, p)\n','		parameters.Bind(s, parameters.Default())\n')]),
('p-hide-one','C16',[(DI,'		delete(J, v.Varid)\n','		delete(J, v.Varid)\n		break\n')]),
('p-hide-cat','C16',[(DI,'		delete(J, v.Varid)\n','		delete(J, v.Categories)\n')]),
('p-hide-if','C16',[(DI,'		delete(J, v.Varid)\n','		if v.Categories > 2 {\n			delete(J, v.Varid)\n		}\n')]),
('p-break','C16',[(DI,GD,GD.replace('			st.ResetTickets(d, p)\n','			st.ResetTickets(d, p)\n			if len(I) < 2 {\n				break\n			}\n'))]),
('p-hide-outside','C16',[(DI,GD,GD.replace('	for i := 0','	J := hideValues(D[0], Y)\n	for i := 0').replace('			J := hideValues(I, Y)\n',''))]),
('p-dgd-twice','C16',[(DI,'''			DeriveSPN(S, st, p, z, Q)
			DeriveWeights(S, st, u, p, z, Q)
			applyDGD''','''			DeriveSPN(S, st, p, z, Q)
			DeriveWeights(S, st, u, p, s, Q)
			applyDGD''')]),
]
