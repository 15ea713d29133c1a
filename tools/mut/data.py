F='data/manipulate.go'
M=[
('copy-label-shift','C04',[(F,"			nL[i] = L[i]\n","			nL[i] = L[n-1-i]\n")]),
('copy-row-first','C04',[(F,"		copyMap(nD[i], D[i])\n","		copyMap(nD[i], D[i%2])\n")]),
('join-label-mix','C04',[(F,"			P[i] = M[i-n]\n","			P[i] = M[o-1-i]\n")]),
('join-from-m','C04',[(F,"		copyMap(F[i], E[i-n])\n","		copyMap(F[i], E[o-1-i])\n")]),
('join-rows-only-short','C04',[(F,"	for i := n; i < o; i++ {\n","	for i := n; i < o-1; i++ {\n")]),
('sublabel-swap','C04',[(F,"			P = append(P, L[i])\n","			P = append(P, l)\n")]),
('sublabel-row','?',[(F,"			copyMap(s, D[i])\n			S = append","			copyMap(s, D[len(S)])\n			S = append")]),
('sublabel-order','?',[(F,"			S = append(S, s)\n","			S = append([]map[int]int{s}, S...)\n")]),
('subvar-less','C04',[(F,"			if k != u {\n","			if k < u {\n")]),
('subvar-key0','C04',[(F,"			if k != u {\n","			if k != u && k != 0 {\n")]),
('merge-label-last','C04',[(F,"		T[i][v] = L[i]\n","		T[i][v] = L[len(L)-1-i]\n")]),
('merge-key-name','C04',[(F,"		T[i][v] = L[i]\n","		T[i][v+1] = L[i]\n")]),
('merge-before-copy','?',[(F,"		copyMap(T[i], I)\n		T[i][v] = L[i]\n","		T[i][v] = L[i]\n		copyMap(T[i], I)\n")]),
('divide-p','C04',[(F,"			Gl[i] = append(Gl[i], L[p])\n		}\n","			Gl[i] = append(Gl[i], L[j*n+i])\n		}\n")]),
('divide-rows','C04',[(F,"			p := i*k + j\n","			p := j*k + i\n")]),
('split-by-index','C04',[(F,"		copyMap(M, D[i])\n		S[l]","		copyMap(M, D[len(L)-1-i])\n		S[l]")]),
('extract-wrong-key','C04',[(F,"		l := I[k]\n","		l := I[n-1]\n")]),
('extract-delete','C04',[(F,"		delete(M[i], k)\n","		delete(M[i], n-1)\n")]),
('extract-k1','?',[(F,"			if p > k {\n","			if v > k {\n")]),
('identical-values','C04',[(F,"!e || u != v","!e && u != v")]),
('identical-nolabels','C04',[(F,"		if M[i] != l {\n","		if M[i] != M[i] || l != l {\n")]),
('identical-novalue','C04',[(F,"if u, e := J[k]; !e || u != v {","if _, e := J[k]; !e || v != v {")]),
('shuffle-labels-i','C04',[(F,"			L[i], L[j] = L[j], L[i]\n","			L[i], L[j] = L[i], L[j]\n")]),
('shuffle-n-1','C04',[(F,"	rand.Shuffle(len(D), func","	rand.Shuffle(len(D)-1, func")]),
('shuffle-labels-drop','C04',[(F,"		if L != nil {\n			L[i], L[j] = L[j], L[i]\n		}\n","")]),
('pbl-u','C04',[(F,"				l := R[j][K[j]]\n","				l := R[j][u]\n")]),
('pbl-k-i','C04',[(F,"				l := R[j][K[j]]\n","				l := R[j][K[i]]\n")]),
('pbl-noinc','C04',[(F,"				t++\n				K[j]++\n","				t++\n")]),
('pbl-label-l','C04',[(F,"				U[i][t] = j\n","				U[i][t] = i\n")]),
('pbl-label-left','C04',[(F,"			U[di] = append(U[di], i)\n","			U[di] = append(U[di], di)\n")]),
('pbl-class','C04',[(F,"		C[l] = append(C[l], i)\n","		C[l] = append(C[l], l)\n")]),
('part-restart','C04',[(F,"			copyMap(M[i][j], D[R[k]])\n","			copyMap(M[i][j], D[R[j]])\n")]),
# quiet
('q-clone','',[(F,"func copySlice(","func clone(s map[int]int) map[int]int {\n	d := make(map[int]int, len(s))\n	for k, v := range s {\n		d[k] = v\n	}\n	return d\n}\n\nfunc copySlice("),
  (F,"		F[i] = make(map[int]int)\n		copyMap(F[i], D[i])\n","		F[i] = clone(D[i])\n"),
  (F,"		nD[i] = make(map[int]int)\n		copyMap(nD[i], D[i])\n","		nD[i] = clone(D[i])\n"),
  (F,"		T[i] = make(map[int]int)\n		copyMap(T[i], I)\n","		T[i] = clone(I)\n"),
  (F,"			M[i][j] = make(map[int]int)\n			copyMap(M[i][j], D[R[k]])\n","			M[i][j] = clone(D[R[k]])\n"),
  (F,"				M[i][t] = make(map[int]int)\n				copyMap(M[i][t], D[u])\n","				M[i][t] = clone(D[u])\n"),
  (F,"			M := make(map[int]int)\n			copyMap(M, D[p])\n			Gd","			M := clone(D[p])\n			Gd")]),
('q-copy-append','',[(F,"	nD := make([]map[int]int, n)\n","	nD := make([]map[int]int, 0, n)\n"),(F,"		nD[i] = make(map[int]int)\n		copyMap(nD[i], D[i])\n","		c := make(map[int]int)\n		copyMap(c, D[i])\n		nD = append(nD, c)\n")]),
('q-copy-slice','',[(F,"	if L != nil {\n		nL = make([]int, n)\n	}\n	for i := 0; i < n; i++ {\n		nD[i]","	if L != nil {\n		nL = copySlice(L)\n	}\n	for i := 0; i < n; i++ {\n		nD[i]"),(F,"		if L != nil {\n			nL[i] = L[i]\n		}\n","")]),
('q-join-range','',[(F,"	for i := n; i < o; i++ {\n		F[i] = make(map[int]int)\n		copyMap(F[i], E[i-n])\n		if c {\n			P[i] = M[i-n]\n		}\n	}\n","	for i, e := range E {\n		F[n+i] = make(map[int]int)\n		copyMap(F[n+i], e)\n		if c {\n			P[n+i] = M[i]\n		}\n	}\n")]),
('q-join-append','',[(F,"	F := make([]map[int]int, o)\n","	F := make([]map[int]int, 0, o)\n"),(F,"		F[i] = make(map[int]int)\n		copyMap(F[i], D[i])\n","		x := make(map[int]int)\n		copyMap(x, D[i])\n		F = append(F, x)\n"),(F,"		F[i] = make(map[int]int)\n		copyMap(F[i], E[i-n])\n","		x := make(map[int]int)\n		copyMap(x, E[i-n])\n		F = append(F, x)\n")]),
('q-join-copy','',[(F,"		if c {\n			P[i] = L[i]\n		}\n",""),(F,"		if c {\n			P[i] = M[i-n]\n		}\n",""),(F,"		P = make([]int, o)\n","		P = make([]int, o)\n		copy(P, L)\n		copy(P[n:], M)\n")]),
('q-sublabel-common','',[(F,'''		if L[i] == l {
			t := make(map[int]int)
			copyMap(t, D[i])
			T = append(T, t)
			Q = append(Q, l)
		} else {
			s := make(map[int]int)
			copyMap(s, D[i])
			S = append(S, s)
			P = append(P, L[i])
		}
''','''		t := make(map[int]int)
		copyMap(t, D[i])
		if L[i] != l {
			S = append(S, t)
			P = append(P, L[i])
			continue
		}
		T = append(T, t)
		Q = append(Q, L[i])
''')]),
('q-subvar-delete','',[(F,'''		for k, v := range I {
			if k != u {
				E[i][k] = v
			}
		}
''','''		copyMap(E[i], I)
		delete(E[i], u)
''')]),
('q-subvar-continue','',[(F,'''			if k != u {
				E[i][k] = v
			}
''','''			if k == u {
				continue
			}
			E[i][k] = v
''')]),
('q-merge-local','',[(F,"		T[i] = make(map[int]int)\n		copyMap(T[i], I)\n		T[i][v] = L[i]\n","		t := make(map[int]int, len(I)+1)\n		copyMap(t, I)\n		t[v] = L[i]\n		T[i] = t\n")]),
('q-divide-window','',[(F,"		for j := 0; j < k; j++ {\n			p := i*k + j\n","		for p := i * k; p < (i+1)*k; p++ {\n")]),
('q-divide-one','',[(F,"			Gd[i] = append(Gd[i], M)\n			Gl[i] = append(Gl[i], L[p])\n		}\n	}\n","			Gl[i] = append(Gl[i], L[p])\n			Gd[i] = append(Gd[i], M)\n		}\n	}\n")]),
('q-divide-tail','',[(F,"		p := m - i - 1\n","		p := n*k + i\n")]),
('q-extract-split','',[(F,'''		k := 0
		M[i] = make(map[int]int)
		for p, v := range I {
			if p > k {
				k = p
			}
			M[i][p] = v
		}
		l := I[k]
		L[i] = l
		delete(M[i], k)
''','''		k := lastVar(I)
		r := make(map[int]int)
		for p, v := range I {
			if p != k {
				r[p] = v
			}
		}
		M[i], L[i] = r, I[k]
'''),(F,"func copySlice(","func lastVar(I map[int]int) int {\n	k := 0\n	for p := range I {\n		if p > k {\n			k = p\n		}\n	}\n	return k\n}\n\nfunc copySlice(")]),
('q-identical-helper','',[(F,'''		J := E[i]
		if len(I) != len(J) {
			return false
		}
		for k, v := range I {
			if u, e := J[k]; !e || u != v {
				return false
			}
		}
''','''		if !sameRow(I, E[i]) {
			return false
		}
'''),(F,"func copySlice(","func sameRow(I, J map[int]int) bool {\n	if len(I) != len(J) {\n		return false\n	}\n	for k, v := range I {\n		u, e := J[k]\n		if !e || u != v {\n			return false\n		}\n	}\n	return true\n}\n\nfunc copySlice(")]),
('q-shuffle-own','',[(F,'''	rand.Shuffle(len(D), func(i, j int) {
		D[i], D[j] = D[j], D[i]
		if L != nil {
			L[i], L[j] = L[j], L[i]
		}
	})
''','''	swap := func(i, j int) {
		D[i], D[j] = D[j], D[i]
		if L == nil {
			return
		}
		L[i], L[j] = L[j], L[i]
	}
	rand.Shuffle(len(D), swap)
''')]),
('q-shuffle-tmp','',[(F,"		D[i], D[j] = D[j], D[i]\n","		t := D[i]\n		D[i] = D[j]\n		D[j] = t\n")]),
('q-pbl-labels','',[(F,"				U[i][t] = j\n","				U[i][t] = L[u]\n")]),
('q-pbl-order','',[(F,"				l := R[j][K[j]]\n				u := C[j][l]\n","				l := R[j][K[j]]\n				K[j]++\n				u := C[j][l]\n"),(F,"				t++\n				K[j]++\n","				t++\n")]),
('q-pbl-range','',[(F,"	for i := range D {\n		l := L[i]\n		C[l]","	for i, l := range L {\n		C[l]")]),
('q-part-append','',[(F,"		M[i] = make([]map[int]int, s)\n		for j := 0; j < s; j++ {\n			M[i][j] = make(map[int]int)\n			copyMap(M[i][j], D[R[k]])\n			k++\n		}\n","		for _, r := range R[k : k+s] {\n			m := make(map[int]int)\n			copyMap(m, D[r])\n			M[i] = append(M[i], m)\n		}\n		k += s\n")]),
('q-part-cnt','',[(F,"			copyMap(M[i][j], D[R[k]])\n			k++\n","			r := R[k]\n			k++\n			copyMap(M[i][j], D[r])\n")]),
]
