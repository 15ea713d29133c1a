Q='common/queue.go'; K='common/stack.go'; S='spn/storer.go'
NT='''	k := s.tickets
	s.tickets++
	s.tables[k] = make(StorerTable)
	return k
'''
ST='''	_, err := t[S]
	if !err {
		t[S] = make(map[int]float64)
		t[S][l] = e
	} else {
		t[S][l] = e
	}
	return true
'''
QS='''	sys.Free()
	q.cap = len(q.data)
'''
KS='''	sys.Free()
	s.cap = len(s.data)
'''
DQ='''	n := len(q.data)
	e := q.data[0]
	q.data[0] = nil
	q.data = q.data[1:n]
'''
POP='''	n := len(s.data) - 1
	e := s.data[n]
	s.data[n] = nil
	s.data = s.data[:n]
'''
QI='''	n := len(q.data)
	l := make([]interface{}, n)
	for i, v := range q.data {
		l[n-i-1] = v
	}
	q.cap, q.data = n, l
'''
RT='''	for _, k := range K {
		delete(s.tables, k)
		s.tables[k] = make(StorerTable)
	}
'''
PG='''	for k, _ := range s.tables {
		delete(s.tables, k)
	}
	s.tickets = 0
'''
ENT='''	v, err := s[S]
	if !err {
		return 0, err
	}
	p, q := v[l]
	return p, q
'''
M=[
('ticket-len','C17',[(S,NT,NT.replace('k := s.tickets','k := len(s.tables)'))]),
('ticket-noinc','C17',[(S,NT,NT.replace('	s.tickets++\n',''))]),
('ticket-notable','?',[(S,NT,NT.replace('	s.tables[k] = make(StorerTable)\n',''))]),
('ticket-preinc','',[(S,NT,'''	s.tickets = s.tickets + 1
	s.tables[s.tickets-1] = StorerTable{}
	return s.tickets - 1
''')]),
('store-always-make','C17',[(S,ST,ST.replace('''		t[S][l] = e
	} else {
		t[S][l] = e
	}''','''		t[S][l] = e
	} else {
		t[S] = make(map[int]float64)
		t[S][l] = e
	}'''))]),
('store-zero','C17',[(S,ST,ST.replace('''	} else {
		t[S][l] = e''','''	} else if e != 0 {
		t[S][l] = e'''))]),
('store-keep','C17',[(S,ST,ST.replace('''	} else {
		t[S][l] = e''','''	} else if _, ok := t[S][l]; !ok {
		t[S][l] = e'''))]),
('store-pos','C17',[(S,ST,ST.replace('''make(map[int]float64)
		t[S][l] = e''','''make(map[int]float64)
		t[S][0] = e'''))]),
('store-refactor','',[(S,ST,'''	row, ok := t[S]
	if !ok {
		row = make(map[int]float64)
		t[S] = row
	}
	row[l] = e
	return true
''')]),
('store-refactor2','',[(S,ST,'''	if t[S] == nil {
		t[S] = map[int]float64{l: e}
		return true
	}
	t[S][l] = e
	return true
''')]),
('entry-refactor','',[(S,ENT,'''	if v, ok := s[S]; ok {
		p, q := v[l]
		return p, q
	}
	return 0, false
''')]),
('entry-flag','C17',[(S,ENT,ENT.replace('p, q := v[l]\n	return p, q','return v[l], true'))]),
('single-one','C17',[(S,'return t.Entry(S, 0) }','return t.Entry(S, 1) }')]),
('storesingle-key','C17',[(S,'return s.Store(k, S, 0, v) }','return s.Store(k, S, k, v) }')]),
('exists-first','C17',[(S,'	_, e := t[S][i]\n','	_, e := t[S]\n')]),
('resettickets-skip','C17',[(S,RT,RT.replace('range K {','range K[1:] {'))]),
('resettickets-nomake','C17',[(S,RT,RT.replace('		s.tables[k] = make(StorerTable)\n',''))]),
('resettickets-reset','',[(S,RT,'''	for _, k := range K {
		s.Reset(k)
	}
''')]),
('resettickets-idx','',[(S,RT,'''	for i := 0; i < len(K); i++ {
		s.tables[K[i]] = make(StorerTable)
	}
''')]),
('resettickets-i','C17',[(S,RT,RT.replace('_, k := range','k := range'))]),
('reset-newticket','C17',[(S,'''	delete(s.tables, k)
	sys.Free()
	s.tables[k] = make(StorerTable)
	return k''','''	delete(s.tables, k)
	sys.Free()
	return s.NewTicket()''')]),
('delete-dec','C17',[(S,'''	delete(s.tables, k)
	sys.Free()
}''','''	delete(s.tables, k)
	s.tickets--
	sys.Free()
}''')]),
('purge-notables','C17',[(S,PG,'	s.tickets = 0\n')]),
('purge-map','',[(S,PG,'	s.tables, s.tickets = make(map[int]StorerTable), 0\n')]),
('purge-keys','',[(S,PG,PG.replace('k, _ :=','k :='))]),
('purge-clear','?',[(S,PG,'''	for i := 0; i < s.tickets; i++ {
		delete(s.tables, i)
	}
	s.tickets = 0
''')]),
('q-shrink-copy','',[(Q,QS,'''	d := make([]interface{}, len(q.data))
	copy(d, q.data)
	q.data = d
	sys.Free()
	q.cap = len(q.data)
''')]),
('q-shrink-append','',[(Q,QS,'''	q.data = append([]interface{}{}, q.data...)
	sys.Free()
	q.cap = len(q.data)
''')]),
('q-shrink-empty','C17',[(Q,QS,'''	d := make([]interface{}, 0, len(q.data))
	copy(d, q.data)
	q.data = d
	sys.Free()
	q.cap = len(q.data)
''')]),
('q-shrink-one','C17',[(Q,QS,'''	d := make([]interface{}, len(q.data))
	copy(d, q.data[1:])
	q.data = d
	sys.Free()
	q.cap = len(q.data)
''')]),
('k-shrink-cut','C17',[(K,KS,KS+'	if s.cap > 1000 {\n		s.data = s.data[:1000]\n	}\n')]),
('q-dq-swap','C17',[(Q,DQ,'''	n := len(q.data) - 1
	e := q.data[0]
	q.data[0] = q.data[n]
	q.data = q.data[:n]
''')]),
('q-dq-copy','',[(Q,DQ,'''	n := len(q.data) - 1
	e := q.data[0]
	copy(q.data, q.data[1:])
	q.data[n] = nil
	q.data = q.data[:n]
''')]),
('q-dq-nonil','',[(Q,DQ,DQ.replace('	q.data[0] = nil\n',''))]),
('q-dq-nilafter','C17',[(Q,DQ,'''	n := len(q.data)
	e := q.data[0]
	q.data = q.data[1:n]
	if len(q.data) > 0 {
		q.data[0] = nil
	}
''')]),
('k-pop-direct','',[(K,POP,'''	last := len(s.data) - 1
	e := s.data[last]
	s.data = s.data[:last]
''')]),
('k-pop-peek','',[(K,POP,'''	e := s.Peek()
	n := s.Size() - 1
	s.data[n] = nil
	s.data = s.data[:n]
''')]),
('k-pop-reset','C17',[(K,POP,POP+'''	if n == 1 {
		s.Reset()
	}
''')]),
('k-peek-first','C17',[(K,'return s.data[len(s.data)-1]','return s.data[0]')]),
('q-take-back','C17',[(Q,'return q.Dequeue() }','return q.DequeueBack() }')]),
('q-invert-off','C17',[(Q,QI,QI.replace('l[n-i-1] = v','l[i] = v'))]),
('q-invert-swap','?',[(Q,QI,'''	n := len(q.data)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		q.data[i], q.data[j] = q.data[j], q.data[i]
	}
	q.cap = n
''')]),
('q-invert-append','?',[(Q,QI,'''	n := len(q.data)
	l := make([]interface{}, 0, n)
	for i := n - 1; i >= 0; i-- {
		l = append(l, q.data[i])
	}
	q.cap, q.data = n, l
''')]),
('q-empty-cap','C17',[(Q,'return len(q.data) == 0 }','return q.cap == 0 }')]),
('q-size-cap','C17',[(Q,'return len(q.data) }','return q.cap }')]),
('k-empty-size','',[(K,'return len(s.data) == 0 }','return s.Size() < 1 }')]),
('k-reset-slice','',[(K,'s.data, s.cap = nil, 0','s.data, s.cap = s.data[:0], 0')]),
('k-push-cap','',[(K,'''	s.data = append(s.data, e)
	s.cap++''','''	s.cap++
	s.data = append(s.data, e)
	if s.cap < len(s.data) {
		s.cap = len(s.data)
	}''')]),
('q-give-dup','C17',[(Q,'''	q.data = append(q.data, e)
	q.cap++''','''	if len(q.data) > 0 && q.data[len(q.data)-1] == e {
		return
	}
	q.data = append(q.data, e)
	q.cap++''')]),
('q-give-front','C17',[(Q,'''	q.data = append(q.data, e)
	q.cap++''','''	q.data = append([]interface{}{e}, q.data...)
	q.cap++''')]),
]
