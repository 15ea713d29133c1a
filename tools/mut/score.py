F='score/score.go'
M=[
('reg-gt','C20',[(F,"	if predicted == expected {\n","	if predicted >= expected {\n")]),
('reg-total','C20',[(F,"	s.total++\n	s.pred","	s.total += s.misses\n	s.pred")]),
('reg-total-hit','C20',[(F,"		s.hits++\n","		s.hits++\n		s.total++\n"),(F,"	s.total++\n	s.pred","	s.pred")]),
('reg-pair-swap','C20',[(F,"Pair{predicted, expected}","Pair{expected, predicted}")]),
('reg-pair-prepend','C20',[(F,"s.predictions = append(s.predictions, Pair{predicted, expected})","s.predictions = append([]Pair{Pair{predicted, expected}}, s.predictions...)")]),
('misses-getter','C20',[(F,"return s.misses }","return s.total }")]),
('merge-hits','C20',[(F,"	s.misses += t.misses\n","	s.misses += t.hits\n")]),
('merge-total','C20',[(F,"	s.total += t.total\n","	s.total = t.total\n")]),
('merge-preds','C20',[(F,"	s.predictions = append(s.predictions, t.predictions...)\n","	s.predictions = append(s.predictions, s.predictions...)\n")]),
('merge-preds-drop','C20',[(F,"	s.predictions = append(s.predictions, t.predictions...)\n","	s.predictions = append(s.predictions, t.predictions[1:]...)\n")]),
('add-missing','C20',[(F,"	m.predictions = append(m.predictions, t.predictions...)\n","")]),
('add-misses','C20',[(F,"	m.misses = s.misses + t.misses\n","	m.misses = s.misses + t.hits\n")]),
('clear-preds','C20',[(F,"	s.predictions = nil\n","")]),
('clear-total','C20',[(F,"s.hits, s.misses, s.total = 0, 0, 0","s.hits, s.misses = 0, 0")]),
('conf-swap','C20',[(F,"M[p.Expected][p.Predicted]++","M[p.Predicted][p.Expected]++")]),
('conf-miss','?',[(F,"		M[p.Expected][p.Predicted]++","		if p.Expected != p.Predicted || M[p.Expected][p.Predicted] == 0 {\n			M[p.Expected][p.Predicted]++\n		}")]),
('conf-skip','C20',[(F,"	for _, p := range s.predictions {\n		M","	for _, p := range s.predictions[1:] {\n		M")]),
('eval-label-shift','C20',[(F,"		s.Register(M[v], L[i])\n","		s.Register(M[v], L[len(L)-1-i])\n")]),
('eval-swap','C20',[(F,"		s.Register(M[v], L[i])\n","		s.Register(L[i], M[v])\n")]),
('eval-evidence','C20',[(F,"spn.StoreMAP(N, copyExcept(I, v), tk, st)","spn.StoreMAP(N, copyExcept(T[len(I)-1], v), tk, st)")]),
('eval-with-label','C20',[(F,"		if k != x {\n			U[k] = v\n		}","		if k != x || v > 0 {\n			U[k] = v\n		}")]),
('eval-except-gt','C20',[(F,"		if k != x {\n","		if k < x {\n")]),
('eval-skip-miss','?',[(F,"		s.Register(M[v], L[i])\n","		if _, e := M[v]; e {\n			s.Register(M[v], L[i])\n		}\n")]),
('post-cat-1','C20',[(F,"for j := 0; j < classVar.Categories; j++ {","for j := 1; j < classVar.Categories; j++ {")]),
('post-cat-less','C20',[(F,"for j := 0; j < classVar.Categories; j++ {","for j := 0; j < classVar.Categories-1; j++ {")]),
('post-init','?',[(F,"		mp := math.Inf(-1)\n		var ml int\n		for j","		mp := 0.0\n		var ml int\n		for j")]),
('post-ge','?',[(F,"			if pd := pj - pe; pd > mp {\n				mp, ml = pd, j","			if pd := pj - pe; pd >= mp {\n				mp, ml = pd, j")]),
('post-lt','C20',[(F,"			if pd := pj - pe; pd > mp {\n				mp, ml = pd, j","			if pd := pe - pj; pd > mp {\n				mp, ml = pd, j")]),
('post-order','C20',[(F,"			I[v] = j\n			spn.StoreInference(N, I, tk, st)\n","			spn.StoreInference(N, I, tk, st)\n			I[v] = j\n")]),
('post-class','C20',[(F,"			I[v] = j\n","			I[v] = i\n")]),
('post-nomp','?',[(F,"				mp, ml = pd, j\n","				ml = j\n")]),
('conc-label','C20',[(F,"				s.Register(ml, h[j])\n","				s.Register(ml, h[len(h)-1-j])\n")]),
('conc-label-L','C20',[(F,"				s.Register(ml, h[j])\n","				s.Register(ml, L[j+0*len(h)])\n")]),
# quiet
('q-reg-inc','',[(F,"	if predicted == expected {\n		s.hits++\n	} else {\n		s.misses++\n	}\n	s.total++\n","	s.total++\n	if predicted != expected {\n		s.misses = s.misses + 1\n	} else {\n		s.hits += 1\n	}\n")]),
('q-reg-pair','',[(F,"	s.predictions = append(s.predictions, Pair{predicted, expected})\n","	p := Pair{Expected: expected, Predicted: predicted}\n	s.predictions = append(s.predictions, p)\n")]),
('q-reg-early','',[(F,"	if predicted == expected {\n		s.hits++\n	} else {\n		s.misses++\n	}\n	s.total++\n	s.predictions = append(s.predictions, Pair{predicted, expected})\n","	s.total++\n	s.predictions = append(s.predictions, Pair{predicted, expected})\n	if predicted == expected {\n		s.hits++\n		return\n	}\n	s.misses++\n")]),
('q-total','',[(F,"return s.total }","return s.hits + s.misses }")]),
('q-merge-loop','',[(F,"	s.predictions = append(s.predictions, t.predictions...)\n","	for _, p := range t.predictions {\n		s.predictions = append(s.predictions, p)\n	}\n")]),
('q-add-merge','',[(F,"	m.hits = s.hits + t.hits\n	m.misses = s.misses + t.misses\n	m.total = s.total + t.total\n	m.predictions = append(m.predictions, s.predictions...)\n	m.predictions = append(m.predictions, t.predictions...)\n","	m.Merge(s)\n	m.Merge(t)\n")]),
('q-add-lit','',[(F,"	m := NewScore()\n	m.hits = s.hits + t.hits\n	m.misses = s.misses + t.misses\n	m.total = s.total + t.total\n","	m := &S{hits: s.hits + t.hits, misses: s.misses + t.misses, total: s.total + t.total}\n")]),
('q-clear','',[(F,"	s.hits, s.misses, s.total = 0, 0, 0\n	s.predictions = nil\n","	*s = S{}\n")]),
('q-clear2','',[(F,"	s.hits, s.misses, s.total = 0, 0, 0\n	s.predictions = nil\n","	s.hits = 0\n	s.misses = 0\n	s.total = 0\n	s.predictions = s.predictions[:0]\n")]),
('q-conf-idx','',[(F,"	for _, p := range s.predictions {\n		M[p.Expected][p.Predicted]++\n	}","	for i := 0; i < len(s.predictions); i++ {\n		p := s.predictions[i]\n		row := M[p.Expected]\n		row[p.Predicted] += 1\n	}")]),
('q-eval-helper','',[(F,"		_, _, M := spn.StoreMAP(N, copyExcept(I, v), tk, st)\n		s.Register(M[v], L[i])\n","		s.Register(predict(N, I, v, tk, st), L[i])\n"),(F,"func copyExcept(","func predict(N spn.SPN, I spn.VarSet, v int, tk int, st *spn.Storer) int {\n	_, _, M := spn.StoreMAP(N, copyExcept(I, v), tk, st)\n	return M[v]\n}\n\nfunc copyExcept(")]),
('q-eval-delete','',[(F,"	U := make(spn.VarSet)\n	for k, v := range V {\n		if k != x {\n			U[k] = v\n		}\n	}\n","	U := make(spn.VarSet, len(V))\n	for k, v := range V {\n		U[k] = v\n	}\n	delete(U, x)\n")]),
('q-post-helper','',[(F,'''		I := copyExcept(T[i], v)
		spn.StoreInference(N, I, tk, st)
		pe, _ := st.Single(tk, N)
		mp := math.Inf(-1)
		var ml int
		for j := 0; j < classVar.Categories; j++ {
			st.Reset(tk)
			I[v] = j
			spn.StoreInference(N, I, tk, st)
			pj, _ := st.Single(tk, N)
			if pd := pj - pe; pd > mp {
				mp, ml = pd, j
			}
			delete(I, v)
		}
		s.Register(ml, L[i])
''','''		s.Register(best(N, copyExcept(T[i], v), classVar, tk, st), L[i])
'''),(F,"func copyExcept(",'''func best(N spn.SPN, I spn.VarSet, classVar *learn.Variable, tk int, st *spn.Storer) int {
	v := classVar.Varid
	spn.StoreInference(N, I, tk, st)
	pe, _ := st.Single(tk, N)
	mp := math.Inf(-1)
	var ml int
	for j := 0; j < classVar.Categories; j++ {
		st.Reset(tk)
		I[v] = j
		spn.StoreInference(N, I, tk, st)
		pj, _ := st.Single(tk, N)
		if pd := pj - pe; pd > mp {
			mp, ml = pd, j
		}
	}
	return ml
}

func copyExcept(''')]),
('q-post-norm','',[(F,'''			if pd := pj - pe; pd > mp {
				mp, ml = pd, j
			}
			delete(I, v)
		}
		s.Register(ml, L[i])
''','''			if pj > mp {
				mp, ml = pj, j
			}
			delete(I, v)
		}
		s.Register(ml, L[i])
'''),(F,"		spn.StoreInference(N, I, tk, st)\n		pe, _ := st.Single(tk, N)\n		mp","		mp")]),
('q-post-nodelete','',[(F,'''				mp, ml = pd, j
			}
			delete(I, v)
''','''				mp, ml = pd, j
			}
''')]),
('q-conc-loop','',[(F,"			for j, I := range g {\n				delete(I, v)\n","			for j := 0; j < len(g); j++ {\n				I := g[j]\n				delete(I, v)\n")]),
('q-conc-copy','',[(F,"			for j, I := range g {\n				delete(I, v)\n","			for j := range g {\n				I := copyExcept(g[j], v)\n")]),
]
