K='utils/cluster/kmeans.go'; C='utils/cluster/cluster.go'; D='utils/cluster/dbscan.go'; O='utils/cluster/kmode.go'; E='utils/cluster/kmedoid.go'; V='learn/variable.go'
OLD='''	for i := 0; i < n; i++ {
		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
	}
	return clusters
}'''
MODE='''	i = 0
	for i < n {
		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
		i++
	}
'''
MF='''		G[c][u] = make([]float64, len(J))
		copy(G[c][u], J)
'''
MI='''		G[c][u] = make([]int, len(J))
		for l, v := range J {
			G[c][u][l] = int(v)
		}
'''
SC='''		var u int
		if sc == nil {
			u = i
		} else {
			u = sc[i]
		}
		G[c][u] = make([]float64'''
GD='''		I := make(map[int]int)
		for j := range M[i] {
			I[Sc[j]] = int(M[i][j])
		}
		C[g] = append(C[g], I)
'''
OF='''	for i := range D {
		c := C[i]
		O[c][i] = make([]float64, n)
		copy(O[c][i], D[i])
	}
'''
DM='''				Z[k] = u
				S[u] = k
				M[i][u] = v
				u++
'''
MD='''		D[i] = make(map[int]int)
		for j, e := range L {
			D[i][j] = e
		}
'''
DB='''				l := chs[j]
				clusters[k][l] = make([]int, m)
				copy(clusters[k][l], data[l])
'''
VD='''		tn := len(D)
		tdata := make([]int, tn)
		for j := 0; j < tn; j++ {
			tdata[j] = D[j][v.Varid]
		}
		vdata[l] = utils.NewVarData(v.Varid, v.Categories, tdata)
		l++
'''
M=[
('cl-old-from1','C25',[(K,OLD,OLD.replace('i := 0','i := 1'))]),
('cl-old-key','C25',[(K,OLD,OLD.replace('[chkdata[i]][i]','[chkdata[i]][len(clusters[chkdata[i]])]'))]),
('cl-old-share','?',[(K,OLD,OLD.replace('make([]int, len(data[i]))','data[i]').replace('		copy(clusters[chkdata[i]][i], data[i])\n',''))]),
('cl-old-skip','?',[(K,OLD,OLD.replace('		clusters[chkdata[i]][i] =','		if chkdata[i] == 0 && i > k {\n			continue\n		}\n		clusters[chkdata[i]][i] ='))]),
('cl-old-nocopy','C25',[(K,OLD,OLD.replace('		copy(clusters[chkdata[i]][i], data[i])\n','		copy(clusters[chkdata[i]][i], means[chkdata[i]])\n'))]),
('cl-old-trunc','C25',[(K,OLD,OLD.replace('copy(clusters[chkdata[i]][i], data[i])','copy(clusters[chkdata[i]][i], data[i][:len(data[i])-1])'))]),
('cl-old-short','C25',[(K,OLD,OLD.replace('make([]int, len(data[i]))','make([]int, len(data[i])-1)'))]),
('cl-old-helper','',[(K,OLD,OLD.replace('''		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
	}
	return clusters
}''','''		row := make([]int, len(data[i]))
		copy(row, data[i])
		clusters[chkdata[i]][i] = row
	}
	return clusters
}'''))]),
('cl-old-append','',[(K,OLD,OLD.replace('make([]int, len(data[i]))','append([]int(nil), data[i]...)').replace('		copy(clusters[chkdata[i]][i], data[i])\n',''))]),
('cl-old-range','',[(K,OLD,OLD.replace('i := 0; i < n; i++','i, d := range data').replace('data[i])\n','d)\n'))]),
('cl-old-fn','',[(K,OLD,OLD.replace('''		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
''','''		putRow(clusters[chkdata[i]], i, data[i])
''')+'''

func putRow(c map[int][]int, i int, row []int) {
	c[i] = make([]int, len(row))
	copy(c[i], row)
}''')]),
('cl-old-fnbad','?',[(K,OLD,OLD.replace('''		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
''','''		putRow(clusters[chkdata[i]], i, data[i])
''')+'''

func putRow(c map[int][]int, i int, row []int) {
	c[len(c)] = make([]int, len(row))
	copy(c[i], row)
}''')]),
('cl-mode-nochange','',[(O,MODE,MODE.replace('	i = 0\n	for i < n {','	for i := 0; i < n; i++ {').replace('		i++\n',''))]),
('cl-mode-skipfirst','C25',[(O,MODE,MODE.replace('i = 0','i = 1'))]),
('cl-mode-step','?',[(O,MODE,MODE.replace('i++','i += k'))]),
('cl-mode-row','C25',[(O,MODE,MODE.replace('copy(clusters[chkdata[i]][i], data[i])','copy(clusters[chkdata[i]][i], data[chkdata[i]])'))]),
('cl-med-row','?',[(E,'''		copy(clusters[chkdata[i]][i], data[i])
		i++''','''		copy(clusters[chkdata[i]][i], data[means[chkdata[i]]])
		i++''')]),
('cl-mf-u','C25',[(K,MF,MF.replace('[c][u]','[c][u+c]'))]),
('cl-mf-sc','C25',[(K,SC,SC.replace('u = sc[i]','u = sc[c]'))]),
('cl-mf-scnil','C25',[(K,SC,SC.replace('sc == nil','sc != nil'))]),
('cl-mf-scsimple','',[(K,SC,SC.replace('''		var u int
		if sc == nil {
			u = i
		} else {
			u = sc[i]
		}''','''		u := i
		if sc != nil {
			u = sc[i]
		}'''))]),
('cl-mi-round','',[(K,MI,MI.replace('make([]int, len(J))','make([]int, len(M[i]))'))]),
('cl-mi-col','C25',[(K,MI,MI.replace('range J','range J[1:]'))]),
('cl-mi-val','C25',[(K,MI,MI.replace('int(v)','int(v+D[c][l])'))]),
('cl-mi-copy','',[(K,MI,'''		G[c][u] = make([]int, len(M[i]))
		copy(G[c][u], M[i])
		_ = J
''')]),
('cl-data-sc','C25',[(K,'D, _ := learn.DataToMatrix(data)\n	return KMeansMuesli(k, D, nil)','D, sc := learn.DataToMatrix(data)\n	return KMeansMuesli(k, D, sc)')]),
('cl-data-half','C25',[(K,'	return KMeansMuesli(k, D, nil)\n}\n\n','	return KMeansMuesli(k, D[1:], nil)\n}\n\n')]),
('cl-data-k','C25',[(K,'	E, _ := learn.DataToMatrixF(D)\n	return KMeansMuesliF(k,','	E, _ := learn.DataToMatrixF(D)\n	return KMeansMuesliF(k+1,')]),
('cl-datai-swap','C25',[(C,GD,GD.replace('I[Sc[j]]','I[j]'))]),
('cl-gd-row','C25',[(C,GD,GD.replace('int(M[i][j])','int(M[g][j])'))]),
('cl-gd-from1','C25',[(C,GD,GD.replace('j := range M[i] {','j := 1; j < len(M[i]); j++ {'))]),
('cl-gd-zero','C25',[(C,GD,GD.replace('			I[Sc','			if M[i][j] == 0 {\n				continue\n			}\n			I[Sc'))]),
('cl-gd-hoist','C25',[(C,'	for i, g := range G {\n		I := make(map[int]int)\n','	I := make(map[int]int)\n	for i, g := range G {\n')]),
('cl-gd-set','C25',[(C,GD,GD.replace('append(C[g], I)','append(C[g][:0], I)'))]),
('cl-gd-loop','',[(C,GD,GD.replace('''for j := range M[i] {
			I[Sc[j]] = int(M[i][j])''','''for j, x := range M[i] {
			v := Sc[j]
			I[v] = int(x)'''))]),
('cl-gd-index','',[(C,'for i, g := range G {','for i := 0; i < len(G); i++ {\n		g := G[i]')]),
('cl-of-n','C25',[(K,OF,OF.replace('make([]float64, n)','make([]float64, k)'))]),
('cl-of-copyM','C25',[(K,OF,OF.replace('D[i])','M[c])'))]),
('cl-of-ok','',[(K,OF,OF.replace('range D','0; i < m; i++').replace('make([]float64, n)','make([]float64, len(D[i]))').replace('i := 0','i := 0') )]),
('cl-toc','',[(C,'''		J := make([]int, len(I))
		for l, v := range I {
			J[l] = int(v)
		}
		C[j-1][i] = J
''','''		J := make([]int, len(I))
		copy(J, I)
		C[j-1][i] = J
''')]),
('cl-toc-key','C25',[(C,'''		copy(J, I)
		C[j-1][i] = J
''','''		copy(J, I)
		C[j-1][j-1] = J
''')]),
('cl-db-root','C25',[(D,'		if rgs[i].Pa == rgs[i] {','		if rgs[i].Pa == rgs[i] && len(rgs[i].Ch) > 0 {')]),
('cl-db-key','C25',[(D,DB,DB.replace('clusters[k][l]','clusters[k][j]'))]),
('cl-db-row','C25',[(D,DB,DB.replace('data[l]','data[i]'))]),
('cl-db-j1','C25',[(D,'for j := 0; j < nchs; j++','for j := 0; j < nchs-1; j++')]),
('cl-db-range','',[(D,'''			for j := 0; j < nchs; j++ {
				l := chs[j]''','''			for _, l := range chs[:nchs] {''')]),
('cl-db-range2','',[(D,'''			nchs := len(chs)
			for j := 0; j < nchs; j++ {
				l := chs[j]''','''			for _, l := range chs {''')]),
('cl-dbd-num','C25',[(D,'G[c] = k','G[i] = k'),(D,'for _, u := range rgs','for i, u := range rgs'),(D,'for _, c := range ch','for range ch')]),
('cl-dbd-root','C25',[(D,'if u.Pa == u {','if u.Pa != u {')]),
('cl-dm-u','C25',[(V,DM,DM.replace('S[u] = k','S[i] = k'))]),
('cl-dm-uu','C25',[(V,DM,DM.replace('				M[i][u] = v\n				u++\n','				u++\n				M[i][u%m] = v\n'))]),
('cl-dm-else','?',[(V,'''			} else {
				M[i][t] = v
''','''			} else if v != 0 && t < m-1 {
				M[i][t] = v
''')]),
('cl-dm-order','',[(V,DM,'''				S[u] = k
				M[i][u] = v
				Z[k] = u
				u++
''')]),
('cl-dm-flat','',[(V,'''			if t, e := Z[k]; !e {
				Z[k] = u
				S[u] = k
				M[i][u] = v
				u++
			} else {
				M[i][t] = v
			}
''','''			t, e := Z[k]
			if !e {
				t = u
				Z[k] = t
				S[t] = k
				u++
			}
			M[i][t] = v
''')]),
('cl-dm-swap','C25',[(V,'				S[u] = k\n				//fmt','				S[k] = u\n				//fmt')]),
('cl-cd-key','C25',[(V,'M[i][k] = v','M[i][m-1-k] = v')]),
('cl-cd-pos','C25',[(V,'			M[i][k] = float64(v)','			_ = k\n			M[i][i] = float64(v)')]),
('cl-md-off','C25',[(V,MD,MD.replace('D[i][j] = e','D[i][j+1] = e'))]),
('cl-md-skip0','C25',[(V,MD,MD.replace('			D[i][j] = e','			if e == 0 {\n				continue\n			}\n			D[i][j] = e'))]),
('cl-md-idx','',[(V,MD,MD.replace('j, e := range L','j := range L').replace('= e','= M[i][j]'))]),
('cl-md-fill','',[(V,MD,'''		I := make(map[int]int)
		for j, e := range L {
			I[j] = e
		}
		D[i] = I
''')]),
('cl-rs-filter','C25',[(V,'		nsc[u] = v\n','		if v.Categories > 1 {\n			nsc[u] = v\n		}\n')]),
('cl-rs-key','',[(V,'		nsc[u] = v\n','		_ = u\n		nsc[v.Varid] = v\n')]),
('cl-cs-cat','C25',[(V,'nsc[u] = &Variable{Varid: v.Varid, Categories: v.Categories,','nsc[u] = &Variable{Varid: v.Varid, Categories: len(Sc),')]),
('cl-cs-deref','',[(V,'nsc[u] = &Variable{Varid: v.Varid, Categories: v.Categories, Name: v.Name}','c := *v\n		nsc[u] = &c')]),
('cl-vd-varid','C25',[(V,VD,VD.replace('NewVarData(v.Varid','NewVarData(l'))]),
('cl-vd-col','C25',[(V,VD,VD.replace('D[j][v.Varid]','D[j][l]'))]),
('cl-vd-cat','C25',[(V,VD,VD.replace('v.Categories, tdata','v.Categories-1, tdata'))]),
('cl-vd-from1','C25',[(V,VD,VD.replace('j := 0','j := 1'))]),
('cl-vd-l','C25',[(V,VD,VD.replace('		vdata[l] = utils.NewVarData(v.Varid, v.Categories, tdata)\n		l++','		vdata[v.Varid%n] = utils.NewVarData(v.Varid, v.Categories, tdata)\n		l++'))]),
('cl-vd-range','',[(V,VD,VD.replace('for j := 0; j < tn; j++ {\n			tdata[j] = D[j][v.Varid]','for j, I := range D {\n			tdata[j] = I[v.Varid]'))]),
('cl-vd-extract','',[(V,VD,'''		vdata[l] = utils.NewVarData(v.Varid, v.Categories, ExtractInstance(v.Varid, D))
		l++
''')]),
('cl-ex-col','?',[(V,'p[i] = I[v]','_ = i\n		p[v%len(D)] = I[v]')]),
('cl-ex-append','',[(V,'''	p := make([]int, len(D))
	for i, I := range D {
		p[i] = I[v]
	}''','''	p := make([]int, 0, len(D))
	for _, I := range D {
		p = append(p, I[v])
	}''')]),
]
