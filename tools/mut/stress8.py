MA='data/manipulate.go'; VA='learn/variable.go'; ST='utils/stats.go'; MU='spn/multinom.go'; GA='spn/gaussian.go'; IN='spn/indicator.go'; SE='spn/serial.go'; SR='spn/search.go'; IO='io/spn.go'; LO='utils/log.go'
M=[
# --- refactorings
('r8-extract','',[(MA,'''		k := 0
		M[i] = make(map[int]int)
		for p, v := range I {
			if p > k {
				k = p
			}
			M[i][p] = v
		}
		l := I[k]
		L[i] = l
		delete(M[i], k)''','''		k := 0
		for p := range I {
			if p > k {
				k = p
			}
		}
		J := make(map[int]int, len(I))
		for p, v := range I {
			if p != k {
				J[p] = v
			}
		}
		M[i], L[i] = J, I[k]''')]),
('r8-partition','',[(MA,'''		M[i] = make([]map[int]int, s)
		for j := 0; j < s; j++ {
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[R[k]])
			k++
		}''','''		part := make([]map[int]int, 0, s)
		for _, r := range R[k : k+s] {
			I := make(map[int]int)
			copyMap(I, D[r])
			part = append(part, I)
		}
		M[i] = part
		k += s''')]),
('r8-copyof','',[(MA,'''		M := make(map[int]int)
		copyMap(M, D[i])
		S[l] = append(S[l], M)''','''		S[l] = append(S[l], clone(D[i]))'''),(MA,'func copySlice(','''func clone(s map[int]int) map[int]int {
	d := make(map[int]int, len(s))
	for k, v := range s {
		d[k] = v
	}
	return d
}

func copySlice(''')]),
('r8-copy-labels','',[(MA,'''	var nL []int
	if L != nil {
		nL = make([]int, n)
	}
	for i := 0; i < n; i++ {
		nD[i] = make(map[int]int)
		copyMap(nD[i], D[i])
		if L != nil {
			nL[i] = L[i]
		}
	}
	return nD, nL''','''	for i, I := range D {
		J := make(map[int]int)
		copyMap(J, I)
		nD[i] = J
	}
	if L == nil {
		return nD, nil
	}
	return nD, copySlice(L)''')]),
('r8-join','',[(MA,'''	for i := n; i < o; i++ {
		F[i] = make(map[int]int)
		copyMap(F[i], E[i-n])
		if c {
			P[i] = M[i-n]
		}
	}''','''	for j := range E {
		F[n+j] = make(map[int]int)
		copyMap(F[n+j], E[j])
		if c {
			P[n+j] = M[j]
		}
	}''')]),
('r8-sub','',[(MA,'''		if L[i] == l {
			t := make(map[int]int)
			copyMap(t, D[i])
			T = append(T, t)
			Q = append(Q, l)
		} else {
			s := make(map[int]int)
			copyMap(s, D[i])
			S = append(S, s)
			P = append(P, L[i])
		}''','''		c := make(map[int]int)
		copyMap(c, D[i])
		if L[i] != l {
			S, P = append(S, c), append(P, L[i])
			continue
		}
		T, Q = append(T, c), append(Q, L[i])''')]),
('r8-ident','',[(MA,'''		for k, v := range I {
			if u, e := J[k]; !e || u != v {
				return false
			}
		}
	}
	for i, l := range L {
		if M[i] != l {
			return false
		}
	}
	return true''','''		if !sameInstance(I, J) {
			return false
		}
		if c && L[i] != M[i] {
			return false
		}
	}
	return true'''),(MA,'func copySlice(','''func sameInstance(I, J map[int]int) bool {
	for k, v := range I {
		u, e := J[k]
		if !e {
			return false
		}
		if u != v {
			return false
		}
	}
	return true
}

func copySlice(''')]),
('r8-divide','',[(MA,'''	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			p := i*k + j
			M := make(map[int]int)
			copyMap(M, D[p])
			Gd[i] = append(Gd[i], M)
			Gl[i] = append(Gl[i], L[p])
		}
	}''','''	put := func(g, p int) {
		M := make(map[int]int)
		copyMap(M, D[p])
		Gd[g] = append(Gd[g], M)
		Gl[g] = append(Gl[g], L[p])
	}
	for p := 0; p < n*k; p++ {
		put(p/k, p)
	}''')]),
('r8-divide2','',[(MA,'''	for i := 0; i < l; i++ {
		p := m - i - 1
		M := make(map[int]int)
		copyMap(M, D[p])
		Gd[i] = append(Gd[i], M)
		Gl[i] = append(Gl[i], L[p])
	}
	return Gd, Gl''','''	for i, p := 0, m-1; i < l; i, p = i+1, p-1 {
		M := make(map[int]int, len(D[p]))
		copyMap(M, D[p])
		Gd[i], Gl[i] = append(Gd[i], M), append(Gl[i], L[p])
	}
	return Gd, Gl''')]),
('r8-shuffle','',[(MA,'''	rand.Shuffle(len(D), func(i, j int) {
		D[i], D[j] = D[j], D[i]
		if L != nil {
			L[i], L[j] = L[j], L[i]
		}
	})''','''	swap := func(i, j int) { D[i], D[j] = D[j], D[i] }
	if L != nil {
		swap = func(i, j int) {
			D[i], D[j] = D[j], D[i]
			L[i], L[j] = L[j], L[i]
		}
	}
	rand.Shuffle(len(D), swap)''')]),
('r8-bylab-left','',[(MA,'''		for K[i] < len(R[i]) {
			l := R[i][K[i]]
			V := make(map[int]int)
			copyMap(V, D[C[i][l]])
			M[di] = append(M[di], V)
			U[di] = append(U[di], i)
			K[i]++
		}''','''		for _, l := range R[i][K[i]:] {
			V := make(map[int]int)
			copyMap(V, D[C[i][l]])
			M[di], U[di] = append(M[di], V), append(U[di], i)
		}''')]),
('r8-d2m','',[('@1',VA,'''			if t, e := Z[k]; !e {
				Z[k] = u
				S[u] = k
				M[i][u] = v
				u++
			} else {
				M[i][t] = v
			}''','''			t, e := Z[k]
			if !e {
				t = u
				Z[k], S[t] = t, k
				u++
			}
			M[i][t] = v''')]),
('r8-vdata','',[(VA,'''	vdata, l := make([]*utils.VarData, n), 0
	for _, v := range Sc {
		tn := len(D)
		tdata := make([]int, tn)
		for j := 0; j < tn; j++ {
			tdata[j] = D[j][v.Varid]
		}
		vdata[l] = utils.NewVarData(v.Varid, v.Categories, tdata)
		l++
	}
	return vdata''','''	vdata := make([]*utils.VarData, 0, n)
	for _, v := range Sc {
		vdata = append(vdata, utils.NewVarData(v.Varid, v.Categories, ExtractInstance(v.Varid, D)))
	}
	return vdata''')]),
('r8-scope','',[(VA,'''		nsc[u] = &Variable{Varid: v.Varid, Categories: v.Categories, Name: v.Name}''','''		w := *v
		nsc[u] = &w''')]),
('r8-musigma','',[(ST,'''func StdDev(c []int) float64 {
	var n int
	var m float64
	for i := range c {
		n += c[i]
	}
	for i := range c {
		m += float64(c[i]) / float64(n) * float64(i)
	}
	var s float64
	for i := range c {
		d := float64(i) - m
		s += (float64(c[i]) / float64(n)) * d * d
	}
	return math.Sqrt(s)
}''','''func StdDev(c []int) float64 {
	_, s := MuSigma(c)
	return s
}''')]),
('r8-mean','',[('@1',ST,'''	var n int
	var m float64
	for i := range c {
		n += c[i]
	}
	for i := range c {
		m += float64(c[i]) / float64(n) * float64(i)
	}
	return m''','''	var n, m float64
	for i, k := range c {
		n += float64(k)
		m += float64(k) * float64(i)
	}
	return m / n''')]),
('r8-multi-norm','',[('@1',MU,'''	s := 0.0
	for i := 0; i < n; i++ {
		s += 1.0 + float64(counts[i])
		pr[i] = float64(1 + counts[i])
	}

	for i := 0; i < n; i++ {
		pr[i] /= float64(s)
	}
''','''	total := n
	for _, c := range counts {
		total += c
	}
	for i, c := range counts {
		pr[i] = float64(c+1) / float64(total)
	}
''')]),
('r8-multi-value','',[('@1',MU,'''	v, ok := val[m.varid]
	if ok {
		return math.Log(m.pr[v])
	}
	return 0.0 // ln(1.0) = 0.0''','''	if v, ok := val[m.varid]; !ok {
		return 0
	} else {
		return math.Log(m.pr[v])
	}''')]),
('r8-multi-argmax','',[(MU,'''	retval := make(VarSet)
	v, ok := val[m.varid]

	if ok {
		retval[m.varid] = v
		return retval, math.Log(m.pr[v])
	}

	retval[m.varid] = m.mode.index
	return retval, math.Log(m.mode.val)''','''	x, ok := val[m.varid]
	if !ok {
		x = m.mode.index
	}
	return VarSet{m.varid: x}, m.Max(val)''')]),
('r8-multi-sd','',[(MU,'''func (m *Multinomial) StdDev() float64 {
	mu := m.Mean()
	var sd float64
	for i, p := range m.pr {
		d := float64(i) - mu
		sd += p * d * d
	}
	sd = math.Sqrt(sd)
	return sd
}''','''func (m *Multinomial) StdDev() float64 {
	_, sd := m.MuSigma()
	return sd
}''')]),
('r8-multi-empty','',[(MU,'''	for i := 0; i < m; i++ {
		pr[i] = 1.0 / float64(m)
	}

	return &Multinomial{Node{sc: []int{varid}}, varid, pr, Mode{0, pr[0]}}''','''	u := 1 / float64(m)
	for i := range pr {
		pr[i] = u
	}

	return &Multinomial{Node{sc: []int{varid}}, varid, pr, Mode{0, u}}''')]),
('r8-gauss-max','',[(GA,'''	if g.dist.Sigma == 0 {
		if !ok {
			return 0.0 // ln(1.0) = 0.0
		}
		return zeroSigma(v, ok, g.dist.Mu)
	} else if ok {
		return g.dist.LogProb(float64(v))
	}
	return g.dist.LogProb(g.dist.Mu)''','''	if ok {
		return g.Value(val)
	}
	_ = v
	if g.dist.Sigma == 0 {
		return 0
	}
	return g.dist.LogProb(g.dist.Mu)''')]),
('r8-gauss-argmax','',[(GA,'''	if g.dist.Sigma == 0 {
		if ok {
			retval[g.varid] = v
			return retval, zeroSigma(v, ok, g.dist.Mu)
		}
		retval[g.varid] = int(g.dist.Mu)
		return retval, 0.0
	} else if ok {
		retval[g.varid] = v
		z := g.dist.LogProb(float64(v))
		return retval, z
	}
''','''	switch {
	case ok && g.dist.Sigma == 0:
		retval[g.varid] = v
		return retval, zeroSigma(v, ok, g.dist.Mu)
	case ok:
		retval[g.varid] = v
		return retval, g.dist.LogProb(float64(v))
	case g.dist.Sigma == 0:
		retval[g.varid] = int(g.dist.Mu)
		return retval, 0
	}
''')]),
('r8-gauss-counts','',[('@1',GA,'''	for i := 0; i < n; i++ {
		d := float64(i) - mean
		sd += (float64(counts[i]) / float64(N)) * d * d
	}
	sd = math.Sqrt(sd)
''','''	for i := 0; i < n; i++ {
		d := float64(i) - mean
		sd += float64(counts[i]) * d * d
	}
	sd = math.Sqrt(sd / float64(N))
''')]),
('r8-gauss-utils','',[('@1',GA,'''	var mean, sd float64
	var N int
	n := len(counts)

	for i := range counts {
		N += counts[i]
	}

	for i := 0; i < n; i++ {
		mean += float64(counts[i]) / float64(N) * float64(i)
	}

	for i := 0; i < n; i++ {
		d := float64(i) - mean
		sd += (float64(counts[i]) / float64(N)) * d * d
	}
	sd = math.Sqrt(sd)
''','''	mean, sd := utils.MuSigma(counts)
'''),(GA,'	"gonum.org','	"github.com/RenatoGeh/gospn/utils"\n	"gonum.org')]),
('r8-ind','',[(IN,'''	if !e {
		retval[i.varid] = i.v
		return retval, 0
	}
	retval[i.varid] = u
	if u == i.v {
		return retval, 0
	}
	return retval, utils.LogZero''','''	if !e {
		u = i.v
	}
	retval[i.varid] = u
	return retval, i.Value(val)''')]),
('r8-ind-max','',[('@2',IN,'''	u, e := val[i.varid]
	if !e || u == i.v {
		return 0
	}
	return utils.LogZero''','''	return i.Value(val)''')]),
('r8-search','',[(SR,'''		ch := u.Ch()
		for _, c := range ch {
			if !V[c] && r == 0 {
				C.Give(c)
				V[c] = true
			}
		}''','''		if r < 0 {
			continue
		}
		for _, c := range u.Ch() {
			if V[c] {
				continue
			}
			V[c] = true
			C.Give(c)
		}''')]),
('r8-count','',[(SR,'''		if t := S.Type(); t == "sum" {
			s++
		} else if t == "product" {
			p++
		} else {
			l++
		}
		return 0''','''		switch S.Type() {
		case "sum":
			s++
		case "product":
			p++
		default:
			l++
		}
		return 0''')]),
('r8-marshal','',[(SE,'''		list = append(list, []uint32{})
		M[Z] = n
		// Invariant: because of topological order, any child of Z has already been visited.
		for _, c := range Z.Ch() {
			p := M[c]
			list[n] = append(list[n], p)
		}
''','''		M[Z] = n
		ids := make([]uint32, 0, len(Z.Ch()))
		for _, c := range Z.Ch() {
			ids = append(ids, M[c])
		}
		list = append(list, ids)
''')]),
('r8-unmarshal','',[(SE,'''	for i, ch := range list {
		S := M[i]
		for _, c := range ch {
			Z := M[c]
			S.AddChild(Z)
		}
	}
''','''	for i := range list {
		connect(M[i], list[i], M)
	}
'''),(SE,'func Marshal(','''func connect(S SPN, ch []uint32, M []SPN) {
	for _, c := range ch {
		S.AddChild(M[c])
	}
}

func Marshal(''')]),
('r8-save','',[(IO,'''	f, err := os.Create(filename)
	if err != nil {
		return err
	}
	defer f.Close()
	bytes := spn.Marshal(S)
	_, err = f.Write(bytes)
	return err''','''	return ioutil.WriteFile(filename, spn.Marshal(S), 0666)'''),(IO,'	"os"\n','')]),
('r8-load','',[(IO,'''	data, err := ioutil.ReadFile(filename)
	if err != nil {
		return nil, err
	}
	S := spn.Unmarshal(data)
	return S, nil''','''	f, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	data, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}
	return spn.Unmarshal(data), nil''')]),
('r8-lse-pair','',[(LO,'''	if math.IsInf(max, 0) {
		return max
	} else if math.IsInf(min, 0) {
		// When min=LogZero=-inf (i.e. exp(min)=0), ln(exp(max) + exp(min))=ln(exp(max))=max.
		return max
	}
	return math.Log(1.0+math.Exp(min-max)) + max''','''	if math.IsInf(max, 0) || math.IsInf(min, 0) {
		return max
	}
	return max + math.Log1p(math.Exp(min-max))''')]),
('r8-lse','',[(LO,'''	max := a[0]
	for _, v := range a {
		if v > max {
			max = v
		}
	}
	if math.IsInf(max, 0) {
		return max
	}
	var l float64''','''	max := a[0]
	for _, v := range a[1:] {
		max = math.Max(max, v)
	}
	if math.IsInf(max, 0) {
		return max
	}
	var l float64''')]),
# --- bugs
('b8-extract-lv','?',[(MA,'''			if p > k {
				k = p
			}
			M[i][p] = v
		}
		l := I[k]''','''			if v > k {
				k = p
			}
			M[i][p] = v
		}
		l := I[k]''')]),
('b8-part-perm','C04',[(MA,'''			copyMap(M[i][j], D[R[k]])
			k++
		}
	}
	return M''','''			copyMap(M[i][j], D[R[k%(n-1)]])
			k++
		}
	}
	return M''')]),
('b8-part-k','C04',[(MA,'''	var k int
	for i, s := range S {
		M[i] = make([]map[int]int, s)''','''	for i, s := range S {
		k := i
		M[i] = make([]map[int]int, s)''')]),
('b8-bylab-c','C04',[(MA,'''				u := C[j][l]
''','''				u := C[i%c][l]
''')]),
('b8-bylab-k','C04',[(MA,'''				t++
				K[j]++
''','''				t++
				if u+1 < N[j] {
					K[j]++
				}
''')]),
('b8-split-lab','?',[(MA,'''	for i, l := range L {
		M := make(map[int]int)
		copyMap(M, D[i])
		S[l] = append(S[l], M)''','''	for i, l := range L {
		M := make(map[int]int)
		copyMap(M, D[i])
		if len(M) == 0 {
			continue
		}
		S[l] = append(S[l], M)''')]),
('b8-copy-nil','C03',[(MA,'''		nD[i] = make(map[int]int)
		copyMap(nD[i], D[i])
		if L''','''		nD[i] = make(map[int]int)
		if len(D[i]) == 1 {
			nD[i] = D[i]
		}
		copyMap(nD[i], D[i])
		if L''')]),
('b8-copy-lab','C03',[(MA,'''	if L != nil {
		nL = make([]int, n)
	}
	for i''','''	if L != nil {
		nL = L[:n:n]
	}
	for i''')]),
('b8-join-one','C04',[(MA,'''		copyMap(F[i], E[i-n])
		if c {
			P[i] = M[i-n]
		}''','''		copyMap(F[i], E[i-n])
		if c {
			P[i] = M[m-1-(i-n)]
		}''')]),
('b8-merge-exists','?',[(MA,'''		T[i][v] = L[i]
''','''		if _, e := I[v]; !e {
			T[i][v] = L[i]
		}
''')]),
('b8-ident-ext','C04',[(MA,'''		if len(I) != len(J) {
			return false
		}
''','')]),
('b8-divide-l','C04',[(MA,'p := m - i - 1\n','p := m - l - i - 1 + l*(i/(n+1))\n')]),
('b8-shuffle-lab','C04',[(MA,'			L[i], L[j] = L[j], L[i]\n','			L[i], L[j] = L[j], D[i][0]\n')]),
('b8-d2m-row','C25',[('@1',VA,'''			} else {
				M[i][t] = v
			}''','''			} else if v != 0 || i > 0 {
				M[i][t] = v
			} else {
				M[i][t] = -1
			}''')]),
('b8-d2m-z','C25',[('@1',VA,'''				Z[k] = u
				S[u] = k
				M[i][u] = v''','''				Z[k] = u
				S[u] = u
				M[i][u] = v''')]),
('b8-vdata-cat','C25',[(VA,'utils.NewVarData(v.Varid, v.Categories, tdata)','utils.NewVarData(v.Varid, len(tdata), tdata)')]),
('b8-extract-i','?',[(VA,'		p[i] = I[v]\n','		if x, e := I[v]; e {\n			p[i] = x\n		} else if i > 0 {\n			p[i] = p[i-1]\n		}\n')]),
('b8-copyscope','?',[(VA,'nsc[u] = &Variable{Varid: v.Varid,','nsc[u] = &Variable{Varid: len(nsc),')]),
('b8-multi-sd','C14',[('@1',MU,'		sd += p * d * d\n','		sd += p * math.Abs(d)\n')]),
('b8-multi-smooth','C14',[('@2',MU,'''		s += 1.0 + float64(counts[i])
		pr[i] = float64(1 + counts[i])''','''		s += 1.0 + float64(counts[i])
		pr[i] = float64(1 + counts[i])
		if counts[i] == 0 {
			s -= 1
			pr[i] = 0
		}''')]),
('b8-multi-mode','C14',[('@1',MU,'''	if nmi > 1 {
		mi = miv[sys.RandIntn(nmi)]
	}''','''	if nmi > 1 {
		mi = sys.RandIntn(nmi)
	}''')]),
('b8-multi-max','C13',[(MU,'	return math.Log(m.mode.val)\n}','	return math.Log(m.pr[0])\n}')]),
('b8-multi-am','?',[(MU,'''	retval[m.varid] = m.mode.index
''','''	for k, x := range val {
		retval[k] = x
	}
	retval[m.varid] = m.mode.index
''')]),
('b8-gauss-zero','C13',[(GA,'	if ok && g.dist.Sigma == 0 {\n','	if g.dist.Sigma == 0 {\n')]),
('b8-gauss-am','C13',[(GA,'		retval[g.varid] = int(g.dist.Mu)\n		return retval, 0.0','		retval[g.varid] = int(g.dist.Sigma)\n		return retval, 0.0')]),
('b8-gauss-amv','C13',[(GA,'''		retval[g.varid] = v
		z := g''','''		retval[g.varid] = int(math.Abs(float64(v)))
		z := g''')]),
('b8-ind-obs','C13',[(IN,'	retval[i.varid] = u\n','	retval[i.varid] = i.v\n')]),
('b8-gauss-mode','?',[(GA,'		d := float64(i) - mean\n		sd += (c / float64(N)) * d * d','		d := float64(i) - mode\n		sd += (c / float64(N)) * d * d')]),
('b8-gauss-fit','C14',[(GA,'		sample[i] = float64(i)\n','		sample[i] = float64(i + 1)\n')]),
('b8-search-neg','C09',[(SR,'		if r > 0 {\n			return','		if r != 0 {\n			return')]),
('b8-marshal-dup','C23',[(SE,'''		for _, c := range Z.Ch() {
			p := M[c]
			list[n] = append(list[n], p)
		}''','''		seen := make(map[uint32]bool)
		for _, c := range Z.Ch() {
			p := M[c]
			if seen[p] {
				continue
			}
			seen[p] = true
			list[n] = append(list[n], p)
		}''')]),
('b8-save-err','C23',[(IO,'	_, err = f.Write(bytes)\n	return err','	f.Write(bytes)\n	return nil')]),
('b8-save-app','C23',[(IO,'os.Create(filename)','os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0666)')]),
('b8-load-err','C23',[(IO,'		return nil, err\n','		return nil, nil\n')]),
('b8-std','C19',[('@1',ST,'		s += (float64(c[i]) / float64(n)) * d * d\n','		s += (float64(c[i]) / float64(n-1)) * d * d\n')]),
('b8-lse-inf','C19',[(LO,'''	max := a[0]
	for _, v := range a {
		if v > max {
			max = v
		}
	}
	if math.IsInf(max, 0) {
		return max
	}
''','''	max := a[0]
	for _, v := range a {
		if v > max {
			max = v
		}
	}
''')]),
('b8-pair-swap','C19',[(LO,'math.Log(1.0+math.Exp(min-max)) + max','math.Log(1.0+math.Exp(max-min)) + min')]),
]
