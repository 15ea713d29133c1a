MA='data/manipulate.go'
P='''	var k int
	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j := 0; j < s; j++ {
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[R[k]])
			k++
		}
	}
	return M'''
def part(new): return [(MA,P,new)]
B='''			for u := 0; u < z; u++ {
				l := R[j][K[j]]
				u := C[j][l]
				M[i][t] = make(map[int]int)
				copyMap(M[i][t], D[u])
				U[i][t] = j
				t++
				K[j]++
			}
'''
def byl(new): return [(MA,B,new)]
M=[
('r9-part-slice','',part('''	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j, r := range R[:s] {
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[r])
		}
		R = R[s:]
	}
	return M''')),
('r9-part-off','',part('''	var off int
	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j := range M[i] {
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[R[off+j]])
		}
		off += s
	}
	return M''')),
('r9-part-down','',part('''	k := n - 1
	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j := 0; j < s; j++ {
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[R[k]])
			k--
		}
	}
	return M''')),
('r9-part-end','',part('''	var k int
	for i, s := range S {
		M[i] = make([]map[int]int, 0, s)
		for end := k + s; k < end; k++ {
			I := make(map[int]int)
			copyMap(I, D[R[k]])
			M[i] = append(M[i], I)
		}
	}
	return M''')),
('r9-part-pre','',part('''	var k int
	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j := 0; j < s; j++ {
			r := R[k]
			k++
			I := make(map[int]int, len(D[r]))
			copyMap(I, D[r])
			M[i][j] = I
		}
	}
	return M''')),
('r9-part-minus1','',part('''	k := -1
	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j := 0; j < s; j++ {
			k++
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[R[k]])
		}
	}
	return M''')),
('r9-part-flat','',part('''	i := 0
	for _, r := range R {
		for i < m && len(M[i]) == S[i] {
			i++
		}
		if i == m {
			break
		}
		I := make(map[int]int)
		copyMap(I, D[r])
		M[i] = append(M[i], I)
	}
	return M''')),
('r9-byl-pop','',byl('''			for u := 0; u < z; u++ {
				l := R[j][K[j]]
				K[j]++
				I := make(map[int]int)
				copyMap(I, D[C[j][l]])
				M[i][t] = I
				U[i][t] = j
				t++
			}
''')),
('r9-byl-local','',byl('''			k := K[j]
			for u := 0; u < z; u++ {
				M[i][t] = make(map[int]int)
				copyMap(M[i][t], D[C[j][R[j][k]]])
				U[i][t] = j
				t++
				k++
			}
			K[j] = k
''')),
('r9-byl-off','',byl('''			for u := 0; u < z; u++ {
				M[i][t] = make(map[int]int)
				copyMap(M[i][t], D[C[j][R[j][K[j]+u]]])
				U[i][t] = j
				t++
			}
			K[j] += z
''')),
('r9-byl-class','',byl('''			rj, cj := R[j], C[j]
			for end := t + z; t < end; t++ {
				x := cj[rj[K[j]]]
				M[i][t] = make(map[int]int)
				copyMap(M[i][t], D[x])
				U[i][t] = j
				K[j] = K[j] + 1
			}
''')),
('b9-byl-off','?',byl('''			for u := 0; u < z; u++ {
				M[i][t] = make(map[int]int)
				copyMap(M[i][t], D[C[j][R[j][K[j]+u]]])
				U[i][t] = j
				t++
				K[j]++
			}
''')),
('b9-part-off','C04',part('''	var off int
	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j := range M[i] {
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[R[off+j]])
		}
		off++
	}
	return M''')),
('b9-part-two','C04',part('''	var k int
	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j := 0; j < s; j++ {
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[R[k]])
			if j+1 < s {
				k++
			}
		}
	}
	return M''')),
('b9-part-step','?',part('''	var k int
	for i, s := range S {
		M[i] = make([]map[int]int, s)
		for j := 0; j < s; j++ {
			M[i][j] = make(map[int]int)
			copyMap(M[i][j], D[R[k%n]])
			k += 2
		}
	}
	return M''')),
]
