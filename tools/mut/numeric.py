L='utils/log.go'
M=[
('n-naive-lse','C19',[(L,'''		l += math.Exp(v - max)
	}
	return math.Log(l) + max''','''		l += math.Exp(v)
	}
	return math.Log(l)''')]),
('n-min-shift','C19',[(L,'''		if v > max {
			max = v
		}
	}
	if math.IsInf(max, 0) {''','''		if v < max {
			max = v
		}
	}
	if math.IsInf(max, 0) {''')]),
('n-noinf','C19',[(L,'''	if math.IsInf(max, 0) {
		return max
	}
	var l float64''','''	var l float64''')]),
('n-noinf-logsum','C19',[(L,'''	if math.IsInf(pi, 0) {
		return pi
	}

''','')]),
('n-inf-zero','C19',[(L,'''	if math.IsInf(pi, 0) {
		return pi
	}
''','''	if math.IsInf(pi, 0) {
		return 0
	}
''')]),
('n-pair-minmax','C19',[(L,'return math.Log(1.0+math.Exp(min-max)) + max','return math.Log(1.0+math.Exp(max-min)) + min')]),
('n-pair-forget','C19',[(L,'return math.Log(1.0+math.Exp(min-max)) + max','return math.Log(1.0+math.Exp(min-max)) + l')]),
('n-pair-noguard','C19',[(L,'''	if math.IsInf(max, 0) {
		return max
	} else if math.IsInf(min, 0) {
		// When min=LogZero=-inf (i.e. exp(min)=0), ln(exp(max) + exp(min))=ln(exp(max))=max.
		return max
	}
''','')]),
('n-derive-naive','C19',[('learn/derive.go','table.StoreSingle(cs, utils.LogSumExpPair(v, t))','table.StoreSingle(cs, math.Log(math.Exp(v)+math.Exp(t)))')]),
('n-sum-naive','C19',[('spn/sum.go','return utils.LogSumExp(cv)','''var l float64
	for _, c := range cv {
		l += math.Exp(c)
	}
	return math.Log(l)''')]),
('n-sum-naive2','C19',[('spn/sum.go','return utils.LogSumExp(cv)','''var l float64
	for _, c := range cv {
		l += utils.AntiLog(c)
	}
	return utils.Log(l)''')]),
('n-sum-first','C19',[('spn/sum.go','return utils.LogSumExp(cv)','''var l float64
	for _, c := range cv {
		l += math.Exp(c - cv[0])
	}
	return math.Log(l) + cv[0]''')]),
('n-mean','C19',[('@1','utils/stats.go','m += float64(c[i]) / float64(n) * float64(i)','m += float64(c[i]) / float64(len(c)) * float64(i)')]),
('n-musig','C19',[('@2','utils/stats.go','s += (float64(c[i]) / float64(n)) * d * d','s += (float64(c[i]) / float64(n-1)) * d * d')]),
('n-euc','C19',[('utils/cluster/metrics/euclid.go','l := float64(p - p2[i])\n\t\ts += l * l','l := float64(p - p2[i])\n\t\ts += math.Abs(l)')]),
('n-ham','C19',[('@1','utils/cluster/metrics/hamming.go','n, s := len(p1), 0\n\tfor i := 0;','n, s := len(p1), 0\n\tfor i := 1;')]),
('q-lse-min','',[(L,'return math.Log(l) + max','return max + math.Log(l)')]),
('q-lse-range','',[(L,'''	max := a[0]
	for _, v := range a {
		if v > max {
			max = v
		}
	}''','''	max := LogZero
	for i := range a {
		max = math.Max(max, a[i])
	}''')]),
('q-lse-eq','',[('@1',L,'''	if math.IsInf(max, 0) {
		return max
	}
''','''	if max == LogZero || max == math.Inf(1) {
		return max
	}
''')]),
('q-lse-helper','',[(L,'''	max := a[0]
	for _, v := range a {
		if v > max {
			max = v
		}
	}''','''	max := largest(a)'''),(L,'// Trim removes','''func largest(a []float64) float64 {
	m := a[0]
	for _, v := range a[1:] {
		if v > m {
			m = v
		}
	}
	return m
}

// Trim removes''')]),
('q-lse-else','',[(L,'''	var l float64
	for _, v := range a {
		l += math.Exp(v - max)
	}
	return math.Log(l) + max''','''	return max + math.Log(expsum(a, max))'''),(L,'// Trim removes','''func expsum(a []float64, c float64) float64 {
	var l float64
	for _, v := range a {
		l += math.Exp(v - c)
	}
	return l
}

// Trim removes''')]),
('q-pair-log1p','',[(L,'return math.Log(1.0+math.Exp(min-max)) + max','return max + math.Log1p(math.Exp(min-max))')]),
('q-pair-call','',[(L,'''	var max, min float64
	if l >= r {
		max, min = l, r
	} else {
		max, min = r, l
	}''','''	max, min := math.Max(l, r), math.Min(l, r)''')]),
('q-pair-swap','',[(L,'''	var max, min float64
	if l >= r {
		max, min = l, r
	} else {
		max, min = r, l
	}''','''	max, min := l, r
	if r > l {
		max, min = r, l
	}''')]),
('q-pair-slice','',[(L,'''	var max, min float64
	if l >= r {
		max, min = l, r
	} else {
		max, min = r, l
	}
	if math.IsInf(max, 0) {
		return max
	} else if math.IsInf(min, 0) {
		// When min=LogZero=-inf (i.e. exp(min)=0), ln(exp(max) + exp(min))=ln(exp(max))=max.
		return max
	}
	return math.Log(1.0+math.Exp(min-max)) + max''','''	return LogSumExp([]float64{l, r})''')]),
('q-musig','',[('utils/stats.go','''func MuSigma(c []int) (float64, float64) {
	var n int
	var m float64
	for i := range c {
		n += c[i]
	}
	for i := range c {
		m += float64(c[i]) / float64(n) * float64(i)
	}
	var s float64
	for i := range c {
		d := float64(i) - m
		s += (float64(c[i]) / float64(n)) * d * d
	}
	return m, math.Sqrt(s)''','''func MuSigma(c []int) (float64, float64) {
	return Mean(c), StdDev(c)''')]),
('q-stddev','',[('utils/stats.go','''func StdDev(c []int) float64 {
	var n int
	var m float64
	for i := range c {
		n += c[i]
	}
	for i := range c {
		m += float64(c[i]) / float64(n) * float64(i)
	}
''','''func StdDev(c []int) float64 {
	var n int
	for _, k := range c {
		n += k
	}
	m := Mean(c)
''')]),
('q-euc-pow','',[('utils/cluster/metrics/euclid.go','l := float64(p - p2[i])\n\t\ts += l * l','s += math.Pow(float64(p-p2[i]), 2)')]),
('q-hamF','',[('utils/cluster/metrics/hamming.go','''	n, s := len(p1), 0.0
	for i := 0; i < n; i++ {
		if p1[i] != p2[i] {
			s++
		}
	}
	return s''','''	return float64(Hamming(p1, p2))''')]),
('q-ham-eq','',[('@1','utils/cluster/metrics/hamming.go','''	n, s := len(p1), 0
	for i := 0; i < n; i++ {
		if p1[i] != p2[i] {
			s++
		}
	}
	return s''','''	s := len(p1)
	for i, p := range p1 {
		if p == p2[i] {
			s--
		}
	}
	return s''')]),
]
