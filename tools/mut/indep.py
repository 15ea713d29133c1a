G='utils/indep/gtest.go'; C='utils/indep/chisq.go'; I='utils/indep/indgraph.go'; U='utils/unionfind.go'
HEADU='''// NewUFIndepGraph creates'''
def uf(old,new):
    # the second occurrence
    return ('@2',I,old,new)
M=[
('g-df','C21',[(G,'df := (p - 1) * (q - 1)','df := p*q - 1')]),
('g-sum2','C21',[(G,'	sum *= 2\n','')]),
('g-cmp','C21',[(G,'return cmp >= sigval','return cmp <= sigval')]),
('g-cmp-strict','?',[(G,'return cmp >= sigval','return cmp > sigval')]),
('g-tail','C21',[(G,'cmp := 1.0 - ChiSquare(sum, df)','cmp := ChiSquare(sum, df)')]),
('g-expected','C21',[(G,'float64(data[p][j]*data[i][q]) / float64(data[p][q])','float64(data[p][j]*data[i][q]) / float64(n)')]),
('g-expected2','C21',[(G,'float64(data[p][j]*data[i][q])','float64(data[p][j]*data[i][j])')]),
('g-nolog0','C21',[(G,'''			if o == 0 {
				continue
			}
''','')]),
('g-break','C21',[(G,'''			if o == 0 {
				continue
			}
''','''			if o == 0 {
				break
			}
''')]),
('g-lograt','C21',[(G,'math.Log(o/E[i][j])','math.Log(E[i][j]/o)')]),
('g-ok-noE','',[(G,'''			if E[i][j] == 0 {
				continue
			}
''','')]),
('g-ok-inline','',[(G,'''	E := make([][]float64, p)
	for i := 0; i < p; i++ {
		E[i] = make([]float64, q)
	}

	for i := 0; i < p; i++ {
		for j := 0; j < q; j++ {
			E[i][j] = float64(data[p][j]*data[i][q]) / float64(data[p][q])
		}
	}
''',''),(G,'''			if E[i][j] == 0 {
				continue
			}
			o := float64(data[i][j])
''','''			e := float64(data[p][j]) * float64(data[i][q]) / float64(data[p][q])
			o := float64(data[i][j])
'''),(G,'o/E[i][j]','o/e')]),
('g-ok-helper','',[(G,'''	E := make([][]float64, p)
	for i := 0; i < p; i++ {
		E[i] = make([]float64, q)
	}

	for i := 0; i < p; i++ {
		for j := 0; j < q; j++ {
			E[i][j] = float64(data[p][j]*data[i][q]) / float64(data[p][q])
		}
	}
''','''	E := expectedCounts(p, q, data)
'''),(G,'// GTest is the','''func expectedCounts(p, q int, data [][]int) [][]float64 {
	E := make([][]float64, p)
	for i := range E {
		row := make([]float64, q)
		for j := range row {
			row[j] = float64(data[p][j]*data[i][q]) / float64(data[p][q])
		}
		E[i] = row
	}
	return E
}

// GTest is the''')]),
('g-ok-merged','',[(G,'''			o := float64(data[i][j])
''','''			o := float64(data[i][j])
			if o > 0 {
				sum += o * (math.Log(o) - math.Log(E[i][j]))
			}
			continue
''')]),
('c-df','C21',[(C,'df := (p - 1) * (q - 1)','df := (p - 1) * q')]),
('c-sq','C21',[(C,'(diff * diff) / E[i][j]','(diff * diff)')]),
('c-guard','C21',[(C,'''			if E[i][j] == 0 && data[i][j] == 0 {
				continue
			}
''','')]),
('c-guard-weak','C21',[(C,'if E[i][j] == 0 && data[i][j] == 0 {','if data[i][j] == 0 {')]),
('c-ok-guard','',[(C,'if E[i][j] == 0 && data[i][j] == 0 {','if E[i][j] == 0 {')]),
('c-tail','C21',[(C,'cmp := 1.0 - ChiSquare(chi, df)','cmp := 1.0 - ChiSquare(chi*chi, df)')]),
('chi-k','C21',[(C,'K: float64(df)','K: float64(df + 1)')]),
('i-edge-indep','C21',[(I,'''			if !indep {
				//sys.Println("Not independent. Creating edge...")
				igraph.adjlist[v1] = append(igraph.adjlist[v1], v2)
				igraph.adjlist[v2] = append(igraph.adjlist[v2], v1)
			} //else {''','''			if indep {
				//sys.Println("Not independent. Creating edge...")
				igraph.adjlist[v1] = append(igraph.adjlist[v1], v2)
				igraph.adjlist[v2] = append(igraph.adjlist[v2], v1)
			} //else {''')]),
('i-edge-self','C21',[(I,'''				igraph.adjlist[v1] = append(igraph.adjlist[v1], v2)
				igraph.adjlist[v2] = append(igraph.adjlist[v2], v1)
			} //else {''','''				igraph.adjlist[v1] = append(igraph.adjlist[v1], v1)
				igraph.adjlist[v2] = append(igraph.adjlist[v2], v1)
			} //else {''')]),
('i-union-skip','C21',[(I,'''		m := len(igraph.adjlist[v1])
		for j := 0; j < m; j++ {''','''		m := len(igraph.adjlist[v1])
		for j := 1; j < m; j++ {''')]),
('i-union-first','C21',[(I,'''	for i := 0; i < n; i++ {
		v1 := ids[i]
		m :=''','''	for i := 0; i < n/2; i++ {
		v1 := ids[i]
		m :=''')]),
('i-union-break','C21',[(I,'''			if utils.Find(sets[i]) == utils.Find(sets[rv2]) {
				continue
			}
''','''			if utils.Find(sets[i]) == utils.Find(sets[rv2]) {
				break
			}
''')]),
('u-find-inverted','C21',[(I,'''			if utils.Find(sets[i]) == utils.Find(sets[j]) {
				continue''','''			if utils.Find(sets[i]) != utils.Find(sets[j]) {
				continue''')]),
('u-union-args','C21',[(I,'utils.Union(sets[i], sets[j])','utils.Union(sets[i], sets[i])')]),
('u-union-always','C21',[(I,'''				utils.Union(sets[i], sets[j])
			} //else {''','''			} //else {
			utils.Union(sets[i], sets[j])''')]),
('u-find-break','C21',[(I,'''			if utils.Find(sets[i]) == utils.Find(sets[j]) {
				continue''','''			if utils.Find(sets[i]) == utils.Find(sets[j]) {
				break''')]),
('u-pairs','C21',[(I,'''		for j := i + 1; j < n; j++ {
			v1, v2 := ids[i], ids[j]

			//if u''','''		for j := i + 2; j < n; j++ {
			v1, v2 := ids[i], ids[j]

			//if u''')]),
('u-pairs-ok','',[(I,'''		for j := i + 1; j < n; j++ {
			v1, v2 := ids[i], ids[j]

			//if u''','''		for j := 0; j < i; j++ {
			v1, v2 := ids[i], ids[j]

			//if u''')]),
('u-cat','C21',[(I,'''			//sys.Println("Initializing contingency matrix...")
			p, q := data[i].Categories, data[j].Categories''','''			//sys.Println("Initializing contingency matrix...")
			p, q := data[i].Categories, data[i].Categories''')]),
('u-adj-break','C21',[(I,'''				igraph.adjlist[v2] = append(igraph.adjlist[v2], v1)
				utils.Union(sets[i], sets[j])
			} //else {''','''				igraph.adjlist[v2] = append(igraph.adjlist[v2], v1)
				utils.Union(sets[i], sets[j])
				break
			} //else {''')]),
('u-table-tx','C21',[(I,'''				mdata[p][y] = tx[y]
				tt += tx[y]
			}
			// Total total.
			mdata[p][q] = tt

			// Checks if variables i, j are independent.
			//sys.Println("Checking for pairwise independence...")
			//indep''','''				mdata[p][y] = tx[y]
				tt += ty
			}
			// Total total.
			mdata[p][q] = tt

			// Checks if variables i, j are independent.
			//sys.Println("Checking for pairwise independence...")
			//indep''')]),
('u-table-n','C21',[(I,'''			// Total total.
			mdata[p][q] = tt

			// Checks if variables i, j are independent.
			//sys.Println("Checking for pairwise independence...")
			//indep''','''			// Total total.
			mdata[p][q] = n

			// Checks if variables i, j are independent.
			//sys.Println("Checking for pairwise independence...")
			//indep''')]),
('u-table-m-ok','',[(I,'''			// Total total.
			mdata[p][q] = tt

			// Checks if variables i, j are independent.
			//sys.Println("Checking for pairwise independence...")
			//indep''','''			// Total total.
			mdata[p][q] = m

			// Checks if variables i, j are independent.
			//sys.Println("Checking for pairwise independence...")
			//indep''')]),
('u-pval','C21',[(I,'''			//chidep := ChiSquareTest(p, q, mdata, n-1)
			indep := GTest(p, q, mdata, n*(n-1)/2, pval)''','''			//chidep := ChiSquareTest(p, q, mdata, n-1)
			indep := GTest(p, q, mdata, n*(n-1)/2, pval/float64(n))''')]),
('u-chi-ok','',[(I,'''			//chidep := ChiSquareTest(p, q, mdata, n-1)
			indep := GTest(p, q, mdata, n*(n-1)/2, pval)''','''			//chidep := ChiSquareTest(p, q, mdata, n-1)
			indep := ChiSquareTest(p, q, mdata, pval)''')]),
('u-count-half','C21',[(I,'''			m := len(data[i].Data)
			for k := 0; k < m; k++ {
				mdata[data[i].Data[k]][data[j].Data[k]]++
			}

			//sys.Println("Counting totals and assigning to edges...")
			// Total on the x axis, y axis and x+y respectively.
			tx, ty, tt := make([]int, q), 0, 0
			//sys.Println("Y-axis...")
			for x := 0; x < p; x++ {
				ty = 0
				for y := 0; y < q; y++ {
					ty += mdata[x][y]
					tx[y] += mdata[x][y]
				}
				mdata[x][q] = ty
			}
			// Compute total on the x axis.
			//sys.Println("X-axis...")
			for y := 0; y < q; y++ {
				mdata[p][y] = tx[y]
				tt += tx[y]
			}
			// Total total.
			mdata[p][q] = tt

			// Checks if variables i, j are independent.
			//sys.Println("Checking for pairwise independence...")
			//indep''','''			m := len(data[i].Data)
			for k := 1; k < m; k++ {
				mdata[data[i].Data[k]][data[j].Data[k]]++
			}

			//sys.Println("Counting totals and assigning to edges...")
			// Total on the x axis, y axis and x+y respectively.
			tx, ty, tt := make([]int, q), 0, 0
			//sys.Println("Y-axis...")
			for x := 0; x < p; x++ {
				ty = 0
				for y := 0; y < q; y++ {
					ty += mdata[x][y]
					tx[y] += mdata[x][y]
				}
				mdata[x][q] = ty
			}
			// Compute total on the x axis.
			//sys.Println("X-axis...")
			for y := 0; y < q; y++ {
				mdata[p][y] = tx[y]
				tt += tx[y]
			}
			// Total total.
			mdata[p][q] = tt

			// Checks if variables i, j are independent.
			//sys.Println("Checking for pairwise independence...")
			//indep''')]),
('u-helper-ok','',[(I,'''			p, q := data[i].Categories, data[j].Categories
			mdata := make([][]int, p+1)
			for k := 0; k < p+1; k++ {
				mdata[k] = make([]int, q+1)
			}

			// len(data[i].Data) == len(data[j].Data) by definition.
			m := len(data[i].Data)
			for k := 0; k < m; k++ {
				mdata[data[i].Data[k]][data[j].Data[k]]++
			}

			//sys.Println("Counting totals and assigning to edges...")
			// Total on the x axis, y axis and x+y respectively.
			tx, ty, tt := make([]int, q), 0, 0
			//sys.Println("Y-axis...")
			for x := 0; x < p; x++ {
				ty = 0
				for y := 0; y < q; y++ {
					ty += mdata[x][y]
					tx[y] += mdata[x][y]
				}
				mdata[x][q] = ty
			}
			// Compute total on the x axis.
			//sys.Println("X-axis...")
			for y := 0; y < q; y++ {
				mdata[p][y] = tx[y]
				tt += tx[y]
			}
			// Total total.
			mdata[p][q] = tt

			// Checks if variables i, j are independent.
			//sys.Println("Checking for pairwise independence...")
			//indep''','''			p, q := data[i].Categories, data[j].Categories
			mdata := contingency(data[i], data[j])
			//indep'''),(I,'// NewUFIndepGraph creates','''func contingency(a, b *utils.VarData) [][]int {
	p, q := a.Categories, b.Categories
	t := make([][]int, p+1)
	for k := range t {
		t[k] = make([]int, q+1)
	}
	for k, v := range a.Data {
		t[v][b.Data[k]]++
	}
	for x := 0; x < p; x++ {
		for y := 0; y < q; y++ {
			t[x][q] += t[x][y]
			t[p][y] += t[x][y]
			t[p][q] += t[x][y]
		}
	}
	return t
}

// NewUFIndepGraph creates''')]),
('kset-all','C21',[('@2',I,'		if sets[i] == sets[i].Pa {\n','		if sets[i] != nil {\n')]),
('kset-non','C21',[('@2',I,'		if sets[i] == sets[i].Pa {\n','		if sets[i] != sets[i].Pa {\n')]),
('kset-find-ok','',[('@2',I,'		if sets[i] == sets[i].Pa {\n','		if utils.Find(sets[i]) == sets[i] {\n')]),
('kset-short','C21',[('@2',I,'''	igraph.Kset = nil
	for i := 0; i < n; i++ {''','''	igraph.Kset = nil
	for i := 1; i < n; i++ {''')]),
('sets-varid','C21',[('@2',I,'sets[i] = utils.MakeSet(ids[i])','sets[i] = utils.MakeSet(i)')]),
('mk-pa','C21',[(U,'	set.Pa = set\n','')]),
('find-nocompress-ok','',[(U,'''	if x != x.Pa {
		x.Pa = Find(x.Pa)
	}
	return x.Pa''','''	if x != x.Pa {
		return Find(x.Pa)
	}
	return x''')]),
('find-one','C21',[(U,'''	if x != x.Pa {
		x.Pa = Find(x.Pa)
	}
	return x.Pa''','''	return x.Pa''')]),
('find-loop-ok','',[(U,'''	if x != x.Pa {
		x.Pa = Find(x.Pa)
	}
	return x.Pa''','''	r := x
	for r != r.Pa {
		r = r.Pa
	}
	for x != r {
		x, x.Pa = x.Pa, r
	}
	return r''')]),
('find-moves','C21',[(U,'''		x.Pa = Find(x.Pa)
''','''		r := Find(x.Pa)
		if x.Pa != r {
			r.Ch = append(r.Ch, x)
		}
		x.Pa = r
''')]),
('union-nofind','C21',[(U,'	x, y = Find(x), Find(y)\n','')]),
('union-noch','C21',[(U,'	y.Ch = append(y.Ch, x)\n','')]),
('union-ch-own','C21',[(U,'	y.Ch = append(y.Ch, x)\n','	y.Ch = append(y.Ch, x.Ch...)\n')]),
('union-wrongch','C21',[(U,'		x.Ch = append(x.Ch, y)\n','		x.Ch = append(y.Ch, y)\n')]),
('union-nopa','C21',[(U,'		y.Pa = x\n','')]),
('union-same','C21',[(U,'''	if x == y {
		return nil, -1
	}

''','')]),
('union-rank-ok','',[(U,'if x.rank > y.rank {','if x.rank >= y.rank {')]),
('union-ok-swap','',[(U,'''	if x.rank > y.rank {
		y.Pa = x
		x.Ch = append(x.Ch, y)
		return x, 1
	}
	x.Pa = y
	y.Ch = append(y.Ch, x)
	if x.rank == y.rank {
		y.rank++
	}
	return y, 2''','''	parent, child, which := y, x, 2
	if x.rank > y.rank {
		parent, child, which = x, y, 1
	}
	if x.rank == y.rank {
		y.rank++
	}
	child.Pa = parent
	parent.Ch = append(parent.Ch, child)
	return parent, which''')]),
('union-ok-helper','',[(U,'''	if x.rank > y.rank {
		y.Pa = x
		x.Ch = append(x.Ch, y)
		return x, 1
	}
	x.Pa = y
	y.Ch = append(y.Ch, x)''','''	if x.rank > y.rank {
		attach(x, y)
		return x, 1
	}
	attach(y, x)'''),(U,'// UFVarids returns','''func attach(pa, ch *UFNode) {
	ch.Pa = pa
	pa.Ch = append(pa.Ch, ch)
}

// UFVarids returns''')]),
('vars-skip','C21',[(U,'for i := 0; i < n; i++ {','for i := 1; i < n; i++ {')]),
('vars-noroot','C21',[(U,'	ch := []int{x.varid}\n','	var ch []int\n')]),
('vars-shallow','C21',[(U,'ch = append(ch, UFVarids(x.Ch[i])...)','ch = append(ch, x.Ch[i].varid)')]),
('vars-ok-range','',[(U,'''	n := len(x.Ch)

	if n == 0 {
		return []int{x.varid}
	}

	ch := []int{x.varid}

	for i := 0; i < n; i++ {
		ch = append(ch, UFVarids(x.Ch[i])...)
	}

	return ch''','''	vars := []int{x.varid}
	for _, c := range x.Ch {
		vars = append(vars, UFVarids(c)...)
	}
	return vars''')]),
]
