SR='spn/search.go'; UT='spn/utils.go'; LO='utils/log.go'; CL='utils/cluster/cluster.go'; GE='learn/gens/gens.go'
BODY='''	V := make(map[SPN]bool)
	C.Give(G)
	V[G] = true
	for !C.Empty() {
		u := C.Take().(SPN)
		r := f(u)
		if r > 0 {
			return
		}
		ch := u.Ch()
		for _, c := range ch {
			if !V[c] && r == 0 {
				C.Give(c)
				V[c] = true
			}
		}
	}
}
'''
NORM='''	for !Q.Empty() {
		s := Q.Dequeue().(SPN)
		if s.Type() == "sum" {
			z := s.(*Sum)
			W := z.Weights()
			norm(W)
		}
		ch := s.Ch()
		for _, c := range ch {
			if !V[c] {
				Q.Enqueue(c)
				V[c] = true
			}
		}
	}

	return S
}
'''
M=[
('r11-search-drain','',[(SR,BODY,'''	V := map[SPN]bool{G: true}
	C.Give(G)
	drain(f, C, V)
}

func drain(f func(SPN) int, C common.Collection, V map[SPN]bool) {
	for !C.Empty() {
		u := C.Take().(SPN)
		r := f(u)
		if r > 0 {
			return
		}
		if r < 0 {
			continue
		}
		for _, c := range u.Ch() {
			if !V[c] {
				C.Give(c)
				V[c] = true
			}
		}
	}
}
''')]),
('r11-search-push','',[(SR,BODY,'''	V := make(map[SPN]bool)
	push(G, C, V)
	for !C.Empty() {
		u := C.Take().(SPN)
		r := f(u)
		if r > 0 {
			return
		} else if r < 0 {
			continue
		}
		for _, c := range u.Ch() {
			push(c, C, V)
		}
	}
}

func push(s SPN, C common.Collection, V map[SPN]bool) {
	if V[s] {
		return
	}
	V[s] = true
	C.Give(s)
}
''')]),
('r11-search-pushall','',[(SR,BODY,'''	V := make(map[SPN]bool)
	pushAll([]SPN{G}, C, V)
	for !C.Empty() {
		u := C.Take().(SPN)
		r := f(u)
		if r > 0 {
			return
		}
		if r == 0 {
			pushAll(u.Ch(), C, V)
		}
	}
}

func pushAll(S []SPN, C common.Collection, V map[SPN]bool) {
	for _, s := range S {
		if !V[s] {
			V[s] = true
			C.Give(s)
		}
	}
}
''')]),
('r11-norm-bfs','',[(UT,'''	Q := common.Queue{}
	V := make(map[SPN]bool)

	Q.Enqueue(S)
	V[S] = true

'''+NORM,'''	BreadthFirst(S, func(s SPN) int {
		if z, ok := s.(*Sum); ok {
			norm(z.Weights())
		}
		return 0
	})
	return S
}
''')]),
('r11-norm-step','',[(UT,NORM,'''	for !Q.Empty() {
		normStep(&Q, V)
	}

	return S
}

func normStep(Q *common.Queue, V map[SPN]bool) {
	s := Q.Dequeue().(SPN)
	if s.Type() == "sum" {
		norm(s.(*Sum).Weights())
	}
	for _, c := range s.Ch() {
		if !V[c] {
			Q.Enqueue(c)
			V[c] = true
		}
	}
}
''')]),
('r11-logsum-shifted','',[(LO,'''	lg := 0.0
	for i := 0; i < n; i++ {
		lg += math.Exp(math.Log(p[i]) - pi)
	}
	lg = pi + math.Log(lg)

	return lg
}
''','''	return logShifted(p, pi)
}

// logShifted: the log of the sum of p, computed relative to exp(m).
func logShifted(p []float64, m float64) float64 {
	var s float64
	for _, q := range p {
		s += math.Exp(math.Log(q) - m)
	}
	return m + math.Log(s)
}
''')]),
('r11-logsum-expsum','',[(LO,'''	lg := 0.0
	for i := 0; i < n; i++ {
		lg += math.Exp(math.Log(p[i]) - pi)
	}
	lg = pi + math.Log(lg)

	return lg
}
''','''	return pi + math.Log(sumExp(p, pi))
}

func sumExp(p []float64, m float64) (s float64) {
	for _, q := range p {
		s += math.Exp(math.Log(q) - m)
	}
	return
}
''')]),
('b11-logsum-shifted','?',[(LO,'''	lg := 0.0
	for i := 0; i < n; i++ {
		lg += math.Exp(math.Log(p[i]) - pi)
	}
	lg = pi + math.Log(lg)

	return lg
}
''','''	return logShifted(p, 0)
}

func logShifted(p []float64, m float64) float64 {
	var s float64
	for _, q := range p {
		s += math.Exp(math.Log(q) - m)
	}
	return m + math.Log(s)
}
''')]),
('r11-decomp-helper','',[(UT,'''			sc := s.rawSc()
			v := make(map[int]int)
			for _, u := range sc {
				v[u]++
			}
			n := len(sc)
			for _, c := range ch {
				csc := c.rawSc()
				// Invariant: ComputeScope guarantees that there will be no duplicates.
				for _, u := range csc {
					_, e := v[u]
					if !e {
						return false
					}
					v[u]++
				}
				n -= len(csc)
			}
			for _, u := range v {
				if u != 2 {
					return false
				}
			}
			if n != 0 {
				return false
			}
''','''			if !disjoint(ch) {
				return false
			}
'''),(UT,'// Decomposable returns','''func disjoint(ch []SPN) bool {
	seen := make(map[int]bool)
	for _, c := range ch {
		for _, u := range c.rawSc() {
			if seen[u] {
				return false
			}
			seen[u] = true
		}
	}
	return true
}

// Decomposable returns''')]),
('r11-tocluster-part','',[(CL,'''	C := make([]map[int][]int, k)
	for i := range C {
		C[i] = make(map[int][]int)
	}
	for i, j := range G {
		I := D[i]
		J := make([]int, len(I))
		for l, v := range I {
			J[l] = int(v)
		}
		C[j-1][i] = J
	}
	return C
}
''','''	C := emptyClusters(k)
	for i, j := range G {
		C[j-1][i] = copyRow(D[i])
	}
	return C
}

func copyRow(I []int) []int {
	J := make([]int, len(I))
	copy(J, I)
	return J
}

func emptyClusters(k int) []map[int][]int {
	C := make([]map[int][]int, k)
	for i := range C {
		C[i] = make(map[int][]int)
	}
	return C
}
''')]),
('r11-gens-leaf','',[('@1',GE,'''	if n == 1 {
		var tv *learn.Variable
		for _, v := range sc {
			tv = v
		}
		return newMultinom(tv, data)
	}
''','''	if n == 1 {
		for _, v := range sc {
			return newMultinom(v, data)
		}
	}
''')]),
('r11-gens-counts','',[(GE,'''	counts := make([]int, v.Categories)
	for i := range data {
		counts[data[i][v.Varid]]++
	}
	return spn.NewCountingMultinomial(v.Varid, counts)
''','''	return spn.NewCountingMultinomial(v.Varid, tally(v.Varid, v.Categories, data))
'''),(GE,'func newMultinom(','''func tally(id, n int, data []map[int]int) []int {
	counts := make([]int, n)
	for _, I := range data {
		counts[I[id]]++
	}
	return counts
}

func newMultinom(''')]),
('r11-height-rec','',[(UT,'''		for _, c := range s.Ch() {
			if h := H[c] + 1; h > H[s] {
				H[s] = h
			}
		}
''','''		H[s] = tallest(s.Ch(), H)
'''),(UT,'// ComputeHeight computes','''func tallest(ch []SPN, H map[SPN]int) int {
	var t int
	for _, c := range ch {
		if h := H[c] + 1; h > t {
			t = h
		}
	}
	return t
}

// ComputeHeight computes''')]),
('r11-scope-helper','',[(UT,'''			msc := make(map[int]bool)
			for _, c := range ch {
				csc := c.rawSc()
				for _, v := range csc {
					msc[v] = true
				}
			}
			var sc []int
			for k, _ := range msc {
				sc = append(sc, k)
			}
			s.setRawSc(sc)
''','''			s.setRawSc(joinScopes(ch))
'''),(UT,'// ComputeScope computes','''func joinScopes(ch []SPN) []int {
	seen := make(map[int]bool)
	var sc []int
	for _, c := range ch {
		for _, v := range c.rawSc() {
			if !seen[v] {
				seen[v] = true
				sc = append(sc, v)
			}
		}
	}
	return sc
}

// ComputeScope computes''')]),
]
