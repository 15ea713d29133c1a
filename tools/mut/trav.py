T='spn/topo.go'; U='spn/utils.go'; S='spn/search.go'; D='learn/derive.go'; G='learn/generative.go'
TARJ='''		S.Push(u)
		P[u] = true
		ch := u.Ch()
		for _, c := range ch {
			if !P[c] {
				S.Push(c)
			}
		}
	}
	return C
}

// TopSortTarjanFunc'''
M=[
('tarjan-mark-child','C09',[(T,TARJ,TARJ.replace('''			if !P[c] {
				S.Push(c)''','''			if !P[c] {
				P[c] = true
				S.Push(c)'''))]),
('tarjan-push-after','C09',[(T,TARJ,TARJ.replace('''		S.Push(u)
		P[u] = true
''','''		P[u] = true
''').replace('''				S.Push(c)
			}
		}
''','''				S.Push(c)
			}
		}
		S.Push(u)
'''))]),
('tarjan-skip-leaf','C09',[(T,TARJ,TARJ.replace('if !P[c] {','if !P[c] && c.Type() != "leaf" {'))]),
('tarjan-skip-first','C09',[(T,TARJ,TARJ.replace('range ch {','range ch[1:] {'))]),
('tarjan-no-once','C09',[(T,'''			if !V[u] {
				V[u] = true
				C.Give(u)
			}
			continue''','''			V[u] = true
			C.Give(u)
			continue''')]),
('tarjan-r-nocheck','',[(T,TARJ,TARJ.replace('''			if !P[c] {
				S.Push(c)
			}''','''			S.Push(c)'''))]),
('tarjan-r-else','',[(T,'''		if P[u] {
			// A node may have been pushed by more than one parent: emit it only once.
			if !V[u] {
				V[u] = true
				C.Give(u)
			}
			continue
		}
'''+TARJ,'''		if !P[u] {
			P[u] = true
			S.Push(u)
			for i := range u.Ch() {
				c := u.Ch()[i]
				if P[c] {
					continue
				}
				S.Push(c)
			}
		} else if !V[u] {
			C.Give(u)
			V[u] = true
		}
	}
	return C
}

// TopSortTarjanFunc''')]),
('dfs-emit-early','C09',[(T,'''				S.Push(s)
				for _, c := range m {''','''				V[s] = true
				C.Give(s)
				for _, c := range m {''')]),
('dfs-push-after','C09',[(T,'''				S.Push(s)
				for _, c := range m {
					S.Push(c)
				}''','''				for _, c := range m {
					S.Push(c)
				}
				S.Push(s)''')]),
('dfs-r-first-only','',[(T,'''				S.Push(s)
				for _, c := range m {
					S.Push(c)
				}''','''				S.Push(s)
				S.Push(m[0])''')]),
('visit-emit-first','C09',[(T,'''	ch := S.Ch()
	for _, c := range ch {
		visit(c, C, V)
	}
	C.Give(S)''','''	C.Give(S)
	ch := S.Ch()
	for _, c := range ch {
		visit(c, C, V)
	}''')]),
('visit-nomark','C09',[(T,'''	V[S] = true
	ch := S.Ch()''','''	ch := S.Ch()''')]),
('post-nomark','C09',[(T,'''				V[c] = true
				postOrderRec''','''				postOrderRec''')]),
('post-inloop','C09',[(T,'''		for _, c := range ch {
			if !V[c] {
				V[c] = true
				postOrderRec(c, V, C)
			}
		}
	}
	C.Give(n)''','''		for i := 1; i < len(ch); i++ {
			c := ch[i]
			if !V[c] {
				V[c] = true
				postOrderRec(c, V, C)
			}
		}
	}
	C.Give(n)''')]),
('search-nomark','C09',[(S,'''				C.Give(c)
				V[c] = true''','''				C.Give(c)
				V[u] = true''')]),
('search-leaf','C09',[(S,'if !V[c] && r == 0 {','if !V[c] && r == 0 && c.Type() != "leaf" {')]),
('search-r-lazy','',[(S,'''		u := C.Take().(SPN)
		r := f(u)''','''		u := C.Take().(SPN)
		if V[u] {
			continue
		}
		V[u] = true
		r := f(u)'''),(S,'''				C.Give(c)
				V[c] = true''','''				C.Give(c)'''),(S,'''	C.Give(G)
	V[G] = true''','''	C.Give(G)''')]),
('search-r-neg','',[(S,'''		for _, c := range ch {
			if !V[c] && r == 0 {
				C.Give(c)
				V[c] = true
			}
		}''','''		if r < 0 {
			continue
		}
		for i := 0; i < len(ch); i++ {
			if c := ch[i]; !V[c] {
				V[c] = true
				C.Give(c)
			}
		}''')]),
('inference-lifo','C09',[(U,'''	for !O.Empty() {
		s := O.Dequeue().(SPN)
		switch t := s.Type(); t {
		case "leaf":
			V[s] = s.Value(I)''','''	for !O.Empty() {
		s := O.DequeueBack().(SPN)
		switch t := s.Type(); t {
		case "leaf":
			V[s] = s.Value(I)''')]),
('derive-queue','C09',[(D,'T := &common.Stack{}','T := &common.Queue{}')]),
('norm-sumonly','C09',[(U,'''			norm(W)
		}
		ch := s.Ch()
		for _, c := range ch {
			if !V[c] {
				Q.Enqueue(c)
				V[c] = true
			}
		}''','''			norm(W)
			for _, c := range s.Ch() {
				if !V[c] {
					Q.Enqueue(c)
					V[c] = true
				}
			}
		}''')]),
('norm-break','C09',[(U,'''		s := Q.Dequeue().(SPN)
		if s.Type() == "sum" {
			z := s.(*Sum)
			W := z.Weights()''','''		s := Q.Dequeue().(SPN)
		if len(s.Ch()) == 0 {
			break
		}
		if s.Type() == "sum" {
			z := s.(*Sum)
			W := z.Weights()''')]),
('norm-r-empty','',[(U,'''	for !Q.Empty() {
		s := Q.Dequeue().(SPN)
		if s.Type() == "sum" {
			z := s.(*Sum)
			W := z.Weights()''','''	for {
		if Q.Empty() {
			break
		}
		s := Q.Dequeue().(SPN)
		if s.Type() == "leaf" {
			continue
		}
		if s.Type() == "sum" {
			z := s.(*Sum)
			W := z.Weights()''')]),
('applygd-childbreak','C09',[(G,'''			if cs.Type() != "leaf" && !visited[cs] {
				c.Give(cs)
				visited[cs] = true
			}
		}
	}
	visited = nil
	c = nil
	sys.Free()
}''','''			if cs.Type() != "leaf" && !visited[cs] {
				c.Give(cs)
				visited[cs] = true
				break
			}
		}
	}
	visited = nil
	c = nil
	sys.Free()
}''')]),
('applyhgd-leafbreak','C09',[(G,'''		for _, c := range ch {
			if !V[c] && c.Type() != "leaf" {
				Q.Enqueue(c)
				V[c] = true
			}
		}
	}
}''','''		for _, c := range ch {
			if c.Type() == "leaf" {
				break
			}
			if !V[c] {
				Q.Enqueue(c)
				V[c] = true
			}
		}
	}
}''')]),
('weights-nomark','C09',[(D,'''				wt.Store(s, i, v+pv)
			}
		}

		for _, cs := range ch {
			if cs.Type() != "leaf" && !visited[cs] {
				c.Give(cs)
				visited[cs] = true
			}
		}''','''				wt.Store(s, i, v+pv)
			}
		}

		for _, cs := range ch {
			if cs.Type() != "leaf" && !visited[cs] {
				c.Give(cs)
			}
		}
		visited[s] = true''')]),
('batch-r-helper','',[(D,'''				//sys.Printf("ndw: %.10f, v: %.10f, pv: %.10f, dw: %.10f\\n", ndw, v, pv, dw)
				wt.Store(s, i, ndw)
			}
		}

		for _, cs := range ch {
			if cs.Type() != "leaf" && !visited[cs] {
				c.Give(cs)
				visited[cs] = true
			}
		}''','''				wt.Store(s, i, ndw)
			}
		}
		enqueueInner(ch, visited, c)'''),(D,'''func Normalize(v []float64) {''','''func enqueueInner(ch []spn.SPN, visited map[spn.SPN]bool, c common.Collection) {
	for _, cs := range ch {
		if cs.Type() == "leaf" || visited[cs] {
			continue
		}
		visited[cs] = true
		c.Give(cs)
	}
}

func Normalize(v []float64) {''')]),
('complete-r-struct','',[(U,'''		for _, c := range ch {
			if !V[c] && c.Type() != "leaf" {
				Q.Enqueue(c)
				V[c] = true
			}
		}
	}

	return true
}

// Decomposable''','''		for _, c := range ch {
			if _, seen := V[c]; seen || len(c.Ch()) == 0 {
				continue
			}
			V[c] = true
			Q.Enqueue(c)
		}
	}

	return true
}

// Decomposable''')]),
]
