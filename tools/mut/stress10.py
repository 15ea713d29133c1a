KM='utils/cluster/kmedoid.go'; PR='spn/print.go'; OU='io/output.go'; DE='learn/dennis/dennis.go'; PO='learn/poon/poon.go'; SP='sys/print.go'; HA='utils/cluster/metrics/hamming.go'
FIN='''	clusters = make([]map[int][]int, k)
	for i = 0; i < k; i++ {
		clusters[i] = make(map[int][]int)
	}
	i = 0
	for i < n {
		//fmt.Println("i",i,"chkdata",chkdata[i],"len",len(data[i]))
		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
		i++
	}
	return clusters'''
M=[
('r10-kmed-fin','',[(KM,FIN,'''	out := make([]map[int][]int, k)
	for j := range out {
		out[j] = make(map[int][]int)
	}
	for j, row := range data {
		c := chkdata[j]
		out[c][j] = append([]int(nil), row...)
	}
	return out''')]),
('r10-kmed-helper','',[(KM,FIN,'''	return gather(k, data, chkdata)'''),(KM,'func KMedoid(','''func gather(k int, data [][]int, of map[int]int) []map[int][]int {
	clusters := make([]map[int][]int, k)
	for i := 0; i < k; i++ {
		clusters[i] = make(map[int][]int)
	}
	for i := 0; i < len(data); i++ {
		r := make([]int, len(data[i]))
		copy(r, data[i])
		clusters[of[i]][i] = r
	}
	return clusters
}

func KMedoid(''')]),
('b10-kmed-share','C02',[(KM,'		clusters[chkdata[i]][i] = make([]int, len(data[i]))\n		copy(clusters[chkdata[i]][i], data[i])\n		i++','		clusters[chkdata[i]][i] = data[i]\n		if chkdata[i] > k {\n			clusters[chkdata[i]][i][0] = 0\n		}\n		i++')]),
('b10-kmed-row','?',[(KM,'		copy(clusters[chkdata[i]][i], data[i])\n		i++','		copy(clusters[chkdata[i]][i], data[means[chkdata[i]]])\n		i++')]),
('b10-kmed-n','C25',[(KM,'	for i < n {\n','	for i < n-1 {\n')]),
('b10-kmed-key','C25',[(KM,'''		clusters[chkdata[i]][i] = make([]int, len(data[i]))
		copy(clusters[chkdata[i]][i], data[i])
		i++''','''		c := chkdata[i]
		l := len(clusters[c])
		clusters[c][l] = make([]int, len(data[i]))
		copy(clusters[c][l], data[i])
		i++''')]),
('b10-kmed-rand','C08',[(KM,'r = sys.RandIntn(n)','r = int(time.Now().UnixNano() % int64(n))'),(KM,'import (','import (\n	"time"\n'),(KM,'	"github.com/RenatoGeh/gospn/sys"\n','')]),
('r10-print','',[(PR,'''	TopSortTarjanFunc(S, &common.Queue{}, func(Z SPN) bool {
		t := Z.Type()
		var c rune
		var p int
		switch t {
		case "sum":
			c, p = 'S', cS
		case "product":
			c, p = 'P', cP
		default:
			c, p = 'L', cL
		}
''','''	TopSortTarjanFunc(S, &common.Queue{}, func(Z SPN) bool {
		c, p := 'L', cL
		if t := Z.Type(); t == "sum" {
			c, p = 'S', cS
		} else if t == "product" {
			c, p = 'P', cP
		}
''')]),
('b10-print-norm','C01',[(PR,'			W = s.(*Sum).Weights()\n','			W = s.(*Sum).Weights()\n			for i := range W {\n				if W[i] < 0 {\n					W[i] = 0\n				}\n			}\n')]),
('b10-print-stdout','C22',[(PR,'			fmt.Fprintf(f, "  %.5f %.5f\\n", mu, sigma)\n','			if sigma < 0 {\n				fmt.Printf("negative %.5f\\n", sigma)\n			}\n			fmt.Fprintf(f, "  %.5f %.5f\\n", mu, sigma)\n')]),
('b10-print-name','C18',[(PR,'	f, err := os.Create(filename)\n','	os.Remove("out.txt")\n	f, err := os.Create(filename)\n')]),
('b10-draw-png','C18',[('@1',OU,'	outname := utils.StringConcat(','	os.Create("graph.log")\n	outname := utils.StringConcat(')]),
('b10-draw-sc','C01',[('@1',OU,'				_id := c.Sc()[0]\n','				_sc := c.Sc()\n				if len(_sc) > 1 {\n					_sc[0], _sc[1] = _sc[1], _sc[0]\n				}\n				_id := _sc[0]\n')]),
('r10-dennis-region','',[(DE,'''	for _, s := range S {
		if s.subsetOf(sn) && !s.equal(sn) {
			if s.similarTo(s1, s2, t) {
				s1, s2 = s, sn.minus(s)
				//sys.Printf("  Found similar scopes of size: %d, %d\\n", len(s1), len(s2))
				break
			}
		}
	}
''','''	for _, s := range S {
		if !s.subsetOf(sn) || s.equal(sn) || !s.similarTo(s1, s2, t) {
			continue
		}
		s1, s2 = s, sn.minus(s)
		break
	}
''')]),
('b10-dennis-rand','C08',[(DE,'float64(sys.RandIntn(10)+1)','float64(rand.Intn(10)+1)'),(DE,'import (','import (\n	"math/rand"\n')]),
('b10-dennis-data','C02',[(DE,'		C := dataToCluster(D)\n		P := transpose(C)\n','		C := dataToCluster(D)\n		if len(D) > 100 {\n			D[0] = D[99]\n		}\n		P := transpose(C)\n')]),
('b10-poon-i','C02',[(PO,'			mapInference(m, g, r, I, L, st, E, P, Q)\n			sys.Printf("mapInf','			I[-1] = i\n			mapInference(m, g, r, I, L, st, E, P, Q)\n			delete(I, -1)\n			sys.Printf("mapInf')]),
('b10-poon-print','C22',[(PO,'			sys.Printf("Finished instance %d\\n", i)\n','			if i%1000 == 999 {\n				println("Finished instance", i)\n			}\n')]),
('b10-sys-print','C22',[(SP,'	if len(vals) == 0 {\n','	if len(vals) == 0 || Verbose {\n'),(SP,'''	if !Verbose {
		return
	}
''','''	if !Verbose && len(vals) > 0 {
		return
	}
''')]),
('b10-sys-printerr','C22',[(SP,'	if Verbose {\n		fmt.Fprintln(fout, str)','	if Verbose || fout != os.Stdout {\n		fmt.Fprintln(fout, str)')]),
('r10-sys-print','',[(SP,'''	if !Verbose {
		return
	}
	if len(vals) == 0 {
		fmt.Fprintf(fout, str)
	} else {
		fmt.Fprintf(fout, str, vals...)
	}
''','''	if Verbose {
		if len(vals) > 0 {
			str = fmt.Sprintf(str, vals...)
		}
		fmt.Fprint(fout, str)
	}
''')]),
]
