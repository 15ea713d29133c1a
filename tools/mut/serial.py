SU='spn/sum.go';GA='spn/gaussian.go';MU='spn/multinom.go';IN='spn/indicator.go';SE='spn/serial.go';IO='io/spn.go'
M=[
('s-sum-f','C23',[(SU,'" %g", w)','" %f", w)')]),
('s-sum-prec','C23',[(SU,'" %g", w)','" %.6g", w)')]),
('s-sum-nosep','C23',[(SU,'" %g", w)','"%g", w)')]),
('s-sum-skip','C23',[(SU,'''		fmt.Fprintf(&b, " %g", w)''','''		if w == 0 {
			continue
		}
		fmt.Fprintf(&b, " %g", w)''')]),
('s-sum-count','C23',[(SU,'fmt.Fprintf(&b, "%d", len(s.w))','fmt.Fprintf(&b, "%d", len(s.ch))')]),
('s-sum-short','C23',[(SU,'''	for i := 0; i < n; i++ {
		_, err = fmt.Fscanf(b, " %f", &s.w[i])''','''	for i := 0; i < n-1; i++ {
		_, err = fmt.Fscanf(b, " %f", &s.w[i])''')]),
('s-sum-rev','C23',[(SU,'&s.w[i])\n\t\tif err','&s.w[n-1-i])\n\t\tif err')]),
('s-sum-log','C23',[(SU,'" %g", w)','" %g", math.Log(w))')]),
('s-gauss-swap','C23',[(GA,'&g.varid, &g.dist.Mu, &g.dist.Sigma)','&g.varid, &g.dist.Sigma, &g.dist.Mu)')]),
('s-gauss-nosigma','C23',[(GA,'g.varid, g.dist.Mu, g.dist.Sigma)\n\treturn b','g.varid, g.dist.Mu)\n\treturn b'),(GA,'&g.varid, &g.dist.Mu, &g.dist.Sigma)','&g.varid, &g.dist.Mu)')]),
('s-gauss-printf','C23',[(GA,'fmt.Fprintln(&b, g.varid, g.dist.Mu, g.dist.Sigma)','fmt.Fprintf(&b, "%d %.4f %.4f\\n", g.varid, g.dist.Mu, g.dist.Sigma)')]),
('s-gauss-early','C23',[(GA,'''	_, err := fmt.Fscanln(b, &g.varid, &g.dist.Mu, &g.dist.Sigma)
	g.sc = []int{g.varid}''','''	g.sc = []int{g.varid}
	_, err := fmt.Fscanln(b, &g.varid, &g.dist.Mu, &g.dist.Sigma)''')]),
('s-gauss-var','C23',[(GA,'g.varid, g.dist.Mu, g.dist.Sigma)\n\treturn b','g.varid, g.dist.Mu, g.dist.Sigma*g.dist.Sigma)\n\treturn b')]),
('s-mult-nomode','C23',[(MU,'''	imode, mode := computeMode(m.pr)
	m.mode.index, m.mode.val = imode, mode
	return nil
}

// SubType''','''	return nil
}

// SubType''')]),
('s-mult-mode','C23',[(MU,'	m.mode.index, m.mode.val = imode, mode\n','	m.mode.index, m.mode.val = imode, mode/float64(n)\n')]),
('s-mult-modeearly','C23',[(MU,'''	m.pr = make([]float64, n)
	for i := 0; i < n; i++ {
		_, err = fmt.Fscanf(b, "%f", &m.pr[i])
		if err != nil {
			return err
		}
	}
	imode, mode := computeMode(m.pr)
''','''	m.pr = make([]float64, n)
	imode, mode := computeMode(m.pr)
	for i := 0; i < n; i++ {
		_, err = fmt.Fscanf(b, "%f", &m.pr[i])
		if err != nil {
			return err
		}
	}
''')]),
('s-mult-size','C23',[(MU,'	m.pr = make([]float64, n)\n','	m.pr = make([]float64, n+1)\n')]),
('s-ind-sc','C23',[(IN,'i.sc = []int{i.varid}\n\treturn err','i.sc = []int{i.v}\n\treturn err')]),
('s-ind-swap','C23',[(IN,'fmt.Fprintln(&b, i.varid, i.v)','fmt.Fprintln(&b, i.v, i.varid)')]),
('s-unreg','C23',[(SE,'	gob.Register(&Indicator{})\n','')]),
('s-unm-root','C23',[(SE,'return M[n-1]','return M[0]')]),
('s-unm-order','C23',[(SE,'''		for _, c := range ch {
			Z := M[c]
			S.AddChild(Z)
		}''','''		for j := range ch {
			Z := M[ch[len(ch)-1-j]]
			S.AddChild(Z)
		}''')]),
('s-unm-first','C23',[(SE,'''		for _, c := range ch {
			Z := M[c]
			S.AddChild(Z)''','''		for _, c := range ch[1:] {
			Z := M[c]
			S.AddChild(Z)''')]),
('s-unm-dup','C23',[(SE,'''			Z := M[c]
			S.AddChild(Z)''','''			Z := M[c]
			if c == 0 {
				continue
			}
			S.AddChild(Z)''')]),
('s-mar-leaf','C23',[(SE,'''			p := M[c]
			list[n]''','''			if c.Type() == "leaf" && len(Z.Ch()) == 1 {
				continue
			}
			p := M[c]
			list[n]''')]),
('s-mar-rev','C23',[(SE,'''		for _, c := range Z.Ch() {
			p := M[c]
			list''','''		for i := range Z.Ch() {
			p := M[Z.Ch()[len(Z.Ch())-1-i]]
			list''')]),
('s-hdr','C23',[(SE,'n := binary.LittleEndian.Uint32','n := binary.BigEndian.Uint32')]),
('s-save-err','C23',[(IO,'''	_, err = f.Write(bytes)
	return err''','''	f.Write(bytes)
	return nil''')]),
('s-save-append','C23',[(IO,'f, err := os.Create(filename)','f, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)')]),
('s-save-part','C23',[(IO,'f.Write(bytes)','f.Write(bytes[:len(bytes)-1])')]),
('q-sum-println','',[(SU,'''	fmt.Fprintf(&b, "%d", len(s.w))
	for _, w := range s.w {
		fmt.Fprintf(&b, " %g", w)
	}''','''	n := len(s.w)
	fmt.Fprintf(&b, "%d ", n)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "%g ", s.w[i])
	}''')]),
('q-sum-fscan','',[(SU,'fmt.Fscanf(b, " %f", &s.w[i])','fmt.Fscan(b, &s.w[i])')]),
('q-sum-append','',[(SU,'''	s.w = make([]float64, n)
	for i := 0; i < n; i++ {
		_, err = fmt.Fscanf(b, " %f", &s.w[i])
		if err != nil {
			return err
		}
	}''','''	w := make([]float64, 0, n)
	for i := 0; i < n; i++ {
		var v float64
		_, err = fmt.Fscanf(b, " %f", &v)
		if err != nil {
			return err
		}
		w = append(w, v)
	}
	s.w = w''')]),
('q-sum-local','',[(SU,'''	s.w = make([]float64, n)
	for i := 0; i < n; i++ {
		_, err = fmt.Fscanf(b, " %f", &s.w[i])
		if err != nil {
			return err
		}
	}''','''	w := make([]float64, n)
	for i := range w {
		if _, err = fmt.Fscanf(b, " %f", &w[i]); err != nil {
			return err
		}
	}
	s.w = w''')]),
('q-gauss-fmt','',[(GA,'fmt.Fprintln(&b, g.varid, g.dist.Mu, g.dist.Sigma)','fmt.Fprintf(&b, "%d %v %v\\n", g.varid, g.dist.Mu, g.dist.Sigma)')]),
('q-gauss-vars','',[(GA,'''	_, err := fmt.Fscanln(b, &g.varid, &g.dist.Mu, &g.dist.Sigma)
	g.sc = []int{g.varid}
	return err''','''	var v int
	var mu, sigma float64
	_, err := fmt.Fscanln(b, &v, &mu, &sigma)
	g.varid, g.dist.Mu, g.dist.Sigma = v, mu, sigma
	g.sc = []int{v}
	return err''')]),
('q-gauss-whole','',[(GA,'''	_, err := fmt.Fscanln(b, &g.varid, &g.dist.Mu, &g.dist.Sigma)
	g.sc = []int{g.varid}
	return err''','''	var v int
	var mu, sigma float64
	if _, err := fmt.Fscanln(b, &v, &mu, &sigma); err != nil {
		return err
	}
	*g = *NewGaussianParams(v, mu, sigma)
	return nil''')]),
('q-mult-helper','',[(MU,'''	m.pr = make([]float64, n)
	for i := 0; i < n; i++ {
		_, err = fmt.Fscanf(b, "%f", &m.pr[i])
		if err != nil {
			return err
		}
	}
''','''	if m.pr, err = scanFloats(b, n); err != nil {
		return err
	}
'''),(MU,'// GobEncode serializes this multi','''func scanFloats(b *bytes.Buffer, n int) ([]float64, error) {
	v := make([]float64, n)
	for i := range v {
		if _, err := fmt.Fscanf(b, "%f", &v[i]); err != nil {
			return nil, err
		}
	}
	return v, nil
}

// GobEncode serializes this multi''')]),
('q-mult-mode','',[(MU,'''	imode, mode := computeMode(m.pr)
	m.mode.index, m.mode.val = imode, mode
	return nil
}

// SubType''','''	m.mode.index, m.mode.val = computeMode(m.pr)
	return nil
}

// SubType''')]),
('q-mult-struct','',[(MU,'''	imode, mode := computeMode(m.pr)
	m.mode.index, m.mode.val = imode, mode
	return nil
}

// SubType''','''	imode, mode := computeMode(m.pr)
	m.mode = Mode{imode, mode}
	return nil
}

// SubType''')]),
('q-unm','',[(SE,'''		S := M[i]
		for _, c := range ch {
			Z := M[c]
			S.AddChild(Z)
		}''','''		for j := 0; j < len(ch); j++ {
			M[i].AddChild(M[ch[j]])
		}''')]),
('q-unm-root','',[(SE,'return M[n-1]','return M[len(M)-1]')]),
('q-mar','',[(SE,'''		list = append(list, []uint32{})
		M[Z] = n
		// Invariant: because of topological order, any child of Z has already been visited.
		for _, c := range Z.Ch() {
			p := M[c]
			list[n] = append(list[n], p)
		}
''','''		M[Z] = n
		ch := Z.Ch()
		ids := make([]uint32, len(ch))
		for i, c := range ch {
			ids[i] = M[c]
		}
		list = append(list, ids)
''')]),
('q-mar-id','',[(SE,'''		list = append(list, []uint32{})
		M[Z] = n
		// Invariant: because of topological order, any child of Z has already been visited.
		for _, c := range Z.Ch() {
			p := M[c]
			list[n] = append(list[n], p)
		}
		enc.Encode(n)
		encodeSPN(enc, Z)
		n++
''','''		id := n
		n++
		M[Z] = id
		var ids []uint32
		for _, c := range Z.Ch() {
			ids = append(ids, M[c])
		}
		list = append(list, ids)
		enc.Encode(id)
		encodeSPN(enc, Z)
''')]),
('q-save','',[(IO,'''	bytes := spn.Marshal(S)
	_, err = f.Write(bytes)
	return err''','''	if _, err := f.Write(spn.Marshal(S)); err != nil {
		return err
	}
	return nil''')]),
('q-save2','',[(IO,'''	f, err := os.Create(filename)
	if err != nil {
		return err
	}
	defer f.Close()
	bytes := spn.Marshal(S)
	_, err = f.Write(bytes)
	return err''','''	return ioutil.WriteFile(filename, spn.Marshal(S), 0666)'''),(IO,'	"os"\n','')]),
('q-save-close','',[(IO,'''	defer f.Close()
	bytes := spn.Marshal(S)
	_, err = f.Write(bytes)
	return err''','''	_, err = f.Write(spn.Marshal(S))
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return err''')]),
('q-load','',[(IO,'''	S := spn.Unmarshal(data)
	return S, nil''','''	return spn.Unmarshal(data), nil''')]),
('q-marshal-commaok','',[(SE,"""			p := M[c]
			list[n] = append(list[n], p)
""","""			if p, ok := M[c]; ok {
				list[n] = append(list[n], p)
			}
""")]),
('q-marshal-panic','',[(SE,"""			p := M[c]
			list[n] = append(list[n], p)
""","""			p, ok := M[c]
			if !ok {
				panic("child not visited")
			}
			list[n] = append(list[n], p)
""")]),
]
