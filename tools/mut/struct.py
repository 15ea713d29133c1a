SU='spn/sum.go';PR='spn/product.go';NO='spn/node.go';UT='spn/utils.go'
HT='''		for _, c := range s.Ch() {
			if h := H[c] + 1; h > H[s] {
				H[s] = h
			}
		}
'''
SC='''			for _, c := range ch {
				csc := c.rawSc()
				for _, v := range csc {
					msc[v] = true
				}
			}
'''
CT='''			k := len(ch) + 1
			for _, u := range v {
				if u != k {
'''
M=[
('k-addw-order','C24',[(SU,'''	s.AddChild(c)
	s.AddWeight(w)
''','''	s.AddChild(c)
	if w > 0 {
		s.AddWeight(w)
	}
''')]),
('k-addchild-w','C24',[(SU,'''	s.ch = append(s.ch, c)
}''','''	s.ch = append(s.ch, c)
	if len(s.w) < len(s.ch) {
		s.w = append(s.w, 1.0)
	}
}''')]),
('k-addchild-dup','C24',[(PR,'''	p.ch = append(p.ch, c)
''','''	for _, o := range p.ch {
		if o == c {
			return
		}
	}
	p.ch = append(p.ch, c)
''')]),
('k-addchild-front','C24',[(PR,'''	p.ch = append(p.ch, c)
''','''	p.ch = append([]SPN{c}, p.ch...)
''')]),
('k-ch-copy','?',[(NO,'	return n.ch\n','	return append([]SPN{}, n.ch...)\n')]),
('k-weights','C24',[(SU,'	return s.w\n','	return s.w[:len(s.ch)-1]\n')]),
('k-height-0','C24',[(NO,'''			if t > v {
				v = t
			}
''','''			if t < v || i == 0 {
				v = t
			}
''')]),
('k-height-1','C24',[(NO,'		for i := 0; i < nc; i++ {\n			t := n.ch[i].Height()','		for i := 1; i < nc; i++ {\n			t := n.ch[i].Height()')]),
('k-height-noplus','C24',[(NO,'		return (v + 1)','		return v')]),
('k-cheight-last','C24',[(UT,HT,'''		for _, c := range s.Ch() {
			H[s] = H[c] + 1
		}
''')]),
('k-cheight-noplus','C24',[(UT,HT,'''		for _, c := range s.Ch() {
			if h := H[c]; h > H[s] {
				H[s] = h
			}
		}
''')]),
('k-cheight-cmp','C24',[(UT,HT,'''		for _, c := range s.Ch() {
			if H[c] > H[s] {
				H[s] = H[c] + 1
			}
		}
''')]),
('k-cheight-first','C24',[(UT,HT,'''		for _, c := range s.Ch() {
			if h := H[c] + 1; h > H[s] {
				H[s] = h
				break
			}
		}
''')]),
('q-cheight-local','',[(UT,HT,'''		max := 0
		for _, c := range s.Ch() {
			if h := H[c] + 1; h > max {
				max = h
			}
		}
		H[s] = max
''')]),
('q-cheight-local2','',[(UT,HT,'''		max := -1
		for _, c := range s.Ch() {
			if H[c] > max {
				max = H[c]
			}
		}
		H[s] = max + 1
''')]),
('k-cheight-local','?',[(UT,HT,'''		max := 0
		for _, c := range s.Ch() {
			if H[c] > max {
				max = H[c]
			}
		}
		H[s] = max + 1
''')]),
('q-cheight-flip','',[(UT,HT,'''		for _, c := range s.Ch() {
			h := H[c] + 1
			if H[s] < h {
				H[s] = h
			}
		}
''')]),
('k-cheight-min','C24',[(UT,HT,'''		for i, c := range s.Ch() {
			if h := H[c] + 1; i == 0 || h < H[s] {
				H[s] = h
			}
		}
''')]),
('k-cscope-sum','C24',[(UT,'		if len(ch) > 0 {\n			msc','		if len(ch) > 0 && s.Type() == "product" {\n			msc')]),
('k-cscope-first','C24',[(UT,SC,SC.replace('range ch {','range ch[:1] {'))]),
('k-cscope-break','C24',[(UT,SC,'''			for _, c := range ch {
				csc := c.rawSc()
				for _, v := range csc {
					msc[v] = true
				}
				if s.Type() == "sum" {
					break
				}
			}
''')]),
('k-cscope-one','C24',[(UT,SC,'''			for _, c := range ch {
				csc := c.rawSc()
				msc[csc[0]] = true
			}
''')]),
('k-cscope-guard','C24',[(UT,SC,SC.replace('msc[v] = true','if v > 0 {\nmsc[v] = true\n}'))]),
('k-cscope-cached','C24',[(UT,'		if len(ch) > 0 {\n			msc','		if len(ch) > 0 && s.rawSc() == nil {\n			msc')]),
('q-cscope-commaok','',[(UT,SC,SC.replace('msc[v] = true','if !msc[v] {\nmsc[v] = true\n}'))]),
('q-cscope-direct','',[(UT,SC,'''			for i := range ch {
				for _, v := range ch[i].rawSc() {
					msc[v] = true
				}
			}
''')]),
('q-cscope-list','',[(UT,SC+'''			var sc []int
			for k, _ := range msc {
				sc = append(sc, k)
			}
''','''			var sc []int
			for _, c := range ch {
				for _, v := range c.rawSc() {
					if !msc[v] {
						msc[v] = true
						sc = append(sc, v)
					}
				}
			}
''')]),
('q-cscope-cont','',[(UT,'''		if len(ch) > 0 {
			msc := make(map[int]bool)
			for _, c := range ch {
				csc := c.rawSc()
				for _, v := range csc {
					msc[v] = true
				}
			}
			var sc []int
			for k, _ := range msc {
				sc = append(sc, k)
			}
			s.setRawSc(sc)
		}
''','''		if len(ch) == 0 {
			continue
		}
		msc := make(map[int]bool)
		for _, c := range ch {
			csc := c.rawSc()
			for _, v := range csc {
				msc[v] = true
			}
		}
		sc := make([]int, 0, len(msc))
		for k := range msc {
			sc = append(sc, k)
		}
		s.setRawSc(sc)
''')]),
('k-psc-skip','C24',[(PR,'for i := range p.ch {\n			p.sc','for i := range p.ch[1:] {\n			p.sc')]),
('k-complete-all','C24',[(UT,'''				if len(csc) != len(sc) {
''','''				if len(csc) > len(sc) {
'''),(UT,CT,CT.replace('u != k','u > k'))]),
('k-complete-nolen','',[(UT,'''				if len(csc) != len(sc) {
''','''				if len(csc) > len(sc) {
''')]),
('q-complete-lt','',[(UT,CT,CT.replace('u != k','u < k'))]),
('k-complete-type','C24',[(UT,'		if s.Type() == "sum" {\n			sc := s.rawSc()','		if s.Type() == "product" {\n			sc := s.rawSc()')]),
('k-complete-k','C24',[(UT,CT,CT.replace('len(ch) + 1','len(ch)'))]),
('k-complete-big','C24',[(UT,'		if s.Type() == "sum" {\n			sc := s.rawSc()','		if s.Type() == "sum" && len(ch) > 2 {\n			sc := s.rawSc()')]),
('k-complete-eq','C24',[(UT,'if len(csc) != len(sc) {','if len(csc) == len(sc) {')]),
('k-dec-all','C24',[(UT,'if u != 2 {','if u > 3 {'),(UT,'if n != 0 {','if n > 0 {')]),
('q-dec-one','',[(UT,'if u != 2 {','if u > 2 {')]),
('k-dec-type','C24',[(UT,'if s.Type() == "product" {\n			sc := s.rawSc()','if s.Type() == "sum" {\n			sc := s.rawSc()')]),
('k-dec-first','',[(UT,'''				n -= len(csc)
			}
			for _, u := range v {
				if u != 2 {
					return false
				}
			}
''','''				n -= len(csc)
			}
''')] ),
('k-dec-bigger','C24',[(UT,'''			for _, u := range v {
				if u != 2 {
					return false
				}
			}
			if n != 0 {
				return false
			}
''','''			if n > 0 {
				return false
			}
''')]),
('k-dec-ret','C24',[(UT,'''			if n != 0 {
				return false
			}
''','''			if n != 0 {
				return true
			}
''')]),
('q-dec-switch','',[(UT,'''			if n != 0 {
				return false
			}
''','''			ok := n == 0
			if !ok {
				return false
			}
''')]),
('k-norm-leaf','C24',[(UT,'			norm(W)\n','			if len(W) > 1 {\n				norm(W)\n			}\n')]),
('k-norm-copy','C24',[(UT,'			norm(W)\n','			norm(append([]float64{}, W...))\n')]),
('q-norm-inline','',[(UT,'''			z := s.(*Sum)
			W := z.Weights()
			norm(W)
''','''			norm(s.(*Sum).w)
''')]),
('q-type-switch','',[(UT,'''		if s.Type() == "sum" {
			z := s.(*Sum)
			W := z.Weights()
			norm(W)
		}
''','''		switch z := s.(type) {
		case *Sum:
			norm(z.Weights())
		}
''')]),
('k-type','?',[(PR,'return "product"','return "prod"')]),
]
