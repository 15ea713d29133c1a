From d1f748045105e0ed2d74f8117e2871e716d0d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:48 +0000
Subject: [PATCH 01/44] fix: topological sorters emit a node only after all of
 its children

Marking nodes as visited on push let a shared child that sits deeper in the
stack be emitted after one of its parents.
---
 spn/topo.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/spn/topo.go b/spn/topo.go
index a8572fd..10fcba2 100644
--- a/spn/topo.go
+++ b/spn/topo.go
@@ -43,20 +43,22 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
-			C.Give(u)
+			// A node may have been pushed by more than one parent: emit it only once.
+			if !V[u] {
+				V[u] = true
+				C.Give(u)
+			}
 			continue
 		}
 		S.Push(u)
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -77,13 +79,16 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
-			C.Give(u)
-			if !f(u) {
-				return C
+			// A node may have been pushed by more than one parent: emit it only once.
+			if !V[u] {
+				V[u] = true
+				C.Give(u)
+				if !f(u) {
+					return C
+				}
 			}
 			continue
 		}
@@ -91,9 +96,8 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -111,12 +115,16 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 	}
 
 	S.Push(G)
-	V[G] = true
 
 	for !S.Empty() {
 		s := S.Pop().(SPN)
+		if V[s] {
+			// Already emitted through another parent.
+			continue
+		}
 		ch := s.Ch()
 		if len(ch) == 0 {
+			V[s] = true
 			C.Give(s)
 		} else {
 			var m []SPN
@@ -126,12 +134,12 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 				}
 			}
 			if len(m) == 0 {
+				V[s] = true
 				C.Give(s)
 			} else {
 				S.Push(s)
 				for _, c := range m {
 					S.Push(c)
-					V[c] = true
 				}
 			}
 		}
-- 
2.43.0


From 82a00daa105b2df5aa35391ed5ae19db3d768bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:48 +0000
Subject: [PATCH 02/44] fix: Complete and Decomposable inspect every node, not
 only the root

---
 spn/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index e0d5e1a..749cd45 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -402,7 +402,7 @@ func Complete(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
@@ -453,7 +453,7 @@ func Decomposable(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
-- 
2.43.0


From ce4e6181e7ddfb452130bddc4a620abbf5ee0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:48 +0000
Subject: [PATCH 03/44] fix: NormalizeSPN shifts negative weights up instead of
 further down

---
 spn/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/utils.go b/spn/utils.go
index 749cd45..3fe836b 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -265,7 +265,7 @@ func norm(v []float64) {
 	}
 	if min < 0 {
 		for i := range v {
-			v[i] += min
+			v[i] -= min
 		}
 	}
 
-- 
2.43.0


From 71952016c37c00a6ff8a2c72e8205c45bf3a9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:48 +0000
Subject: [PATCH 04/44] fix: Sum.Sc returns its children's scope instead of nil

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index 790eaaf..8a5c9cb 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -33,7 +33,7 @@ func (s *Sum) AddChildW(c SPN, w float64) {
 // Sc returns the scope of this node.
 func (s *Sum) Sc() []int {
 	if s.sc == nil {
-		copy(s.sc, s.ch[0].Sc())
+		s.sc = append(s.sc, s.ch[0].Sc()...)
 	}
 	return s.sc
 }
-- 
2.43.0


From 2e008aeadfd1da036ece9a6498a4595bb7849278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 05/44] fix: DeriveSPN processes nodes in topological order

A breadth- or depth-first order used the derivative of a shared node before all
of its parents had contributed to it.
---
 learn/derive.go | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/learn/derive.go b/learn/derive.go
index 61344cf..7942660 100644
--- a/learn/derive.go
+++ b/learn/derive.go
@@ -18,28 +18,24 @@ import (
 // of such sum are the products of each parent node multiplied by all its siblings.
 // It is relevant to note that since GoSPN treats values in logspace, all the derivatives are too
 // in logspace. Argument tk is the ticket to be used for storing the derivatives. Argument itk is
-// the ticket for the stored values of S(X) (i.e. soft inference). A Collection is required for the
-// graph search, though if Collection c is nil, then we use a Queue. If a Queue is used, then the
-// graph search is a breadth-first, if a Stack is used, then it performs a depth-first search.
+// the ticket for the stored values of S(X) (i.e. soft inference). Nodes are processed in topological
+// order, so Collection c is not used and is kept for compatibility only.
 // If tk < 0, then a new ticket will be created and returned alongside the SPN S.
 // Returns the SPN S and the ticket used.
 func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection) (spn.SPN, int) {
 	if tk < 0 {
 		tk = storage.NewTicket()
 	}
-	if c == nil {
-		c = &common.Queue{}
-	}
 
 	table, _ := storage.Table(tk)
 	inf, _ := storage.Table(itk)
-	visited := make(map[spn.SPN]bool)
 	table.StoreSingle(S, 0.0)
-	c.Give(S)
-	visited[S] = true
+	// A node's derivative is complete only once all of its parents have been processed.
+	T := &common.Stack{}
+	spn.TopSortTarjan(S, T)
 
-	for !c.Empty() {
-		s := c.Take().(spn.SPN)
+	for !T.Empty() {
+		s := T.Take().(spn.SPN)
 		ch := s.Ch()
 		pv, _ := table.Single(s)
 		//sys.Printf("pv=%f, parent: %s\n", pv, s.Type())
@@ -54,7 +50,7 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
 				}
 			}
-		} else /* there can never be a case where s is a leaf, therefore s is a product */ {
+		} else /* s is a product, or a leaf (which has no children) */ {
 			for i, cs := range ch {
 				v, e := table.Single(cs)
 				t := pv
@@ -73,17 +69,8 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 				}
 			}
 		}
-
-		for _, cs := range ch {
-			if cs.Type() != "leaf" && !visited[cs] {
-				c.Give(cs)
-				visited[cs] = true
-			}
-		}
 	}
 
-	visited = nil
-	c = nil
 	sys.Free()
 	return S, tk
 }
-- 
2.43.0


From bb6fe3329d4fb6dddf958eaccfd8657d13cb56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:37 +0000
Subject: [PATCH 06/44] fix: discriminative gradient descent updates every sum
 node, not only the root

---
 learn/discriminative.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 7daa85a..70ba825 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -208,7 +208,7 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
@@ -244,7 +244,7 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
-- 
2.43.0


From 6d459d354afa8a9da4b1d7ef6a623a10c90d6410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:38 +0000
Subject: [PATCH 07/44] fix: discriminative gradient is scaled by the network's
 root values S(Y|X) and S(1|X)

---
 learn/discriminative.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 70ba825..60e04f9 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -188,6 +188,8 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 	dut, _ := st.Table(u)
 	ist, _ := st.Table(s)
 	izt, _ := st.Table(z)
+	vS, _ := ist.Single(S)
+	vZ, _ := izt.Single(S)
 	P := S.Parameters()
 	for !Q.Empty() {
 		n := Q.Dequeue().(spn.SPN)
@@ -197,10 +199,8 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			W := sum.Weights()
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
 			for i := range W {
-				delta := eta * (math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i]))
+				delta := eta * (math.Exp(dW[i]-vS) - math.Exp(dU[i]-vZ))
 				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
 			}
 			if norm {
@@ -226,6 +226,8 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 	dut, _ := st.Table(u)
 	ist, _ := st.Table(s)
 	izt, _ := st.Table(z)
+	vS, _ := ist.Single(S)
+	vZ, _ := izt.Single(S)
 	lt, _ := st.Table(l)
 	for !Q.Empty() {
 		n := Q.Dequeue().(spn.SPN)
@@ -235,10 +237,8 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			nw := len(sum.Weights())
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
 			for i := 0; i < nw; i++ {
-				delta := math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i])
+				delta := math.Exp(dW[i]-vS) - math.Exp(dU[i]-vZ)
 				v, _ := lt.Entry(n, i)
 				lt.Store(n, i, v+delta)
 			}
-- 
2.43.0


From 447a375115e1d30ddb62b6c85f87393019bdc78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:39 +0000
Subject: [PATCH 08/44] fix: discriminative learning does not modify the
 caller's dataset

Restoring the hidden labels also inserted label 0 where none was observed.
---
 learn/discriminative.go | 42 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 60e04f9..b1144b1 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -30,18 +30,16 @@ func Discriminative(S spn.SPN, D spn.Dataset, Y []*Variable) spn.SPN {
 	return DiscriminativeGD(S, P.Eta, P.Epsilon, D, Y, P.Normalize)
 }
 
-func pullValues(I spn.VarSet, Y []*Variable, y []int) {
-	for i, v := range Y {
-		u := v.Varid
-		y[i] = I[u]
-		delete(I, u)
+// hideValues returns a copy of instance I in which the variables Y are not observed.
+func hideValues(I spn.VarSet, Y []*Variable) spn.VarSet {
+	J := make(spn.VarSet)
+	for k, v := range I {
+		J[k] = v
 	}
-}
-
-func pushValues(I spn.VarSet, Y []*Variable, y []int) {
-	for i, v := range Y {
-		I[v.Varid] = y[i]
+	for _, v := range Y {
+		delete(J, v.Varid)
 	}
+	return J
 }
 
 // DiscriminativeGD performs discriminative gradient descent on SPN S given data D. Argument eta is
@@ -53,17 +51,15 @@ func DiscriminativeGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable,
 	s, d, w := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			spn.StoreInference(S, I, s, st)
 			DeriveSPN(S, st, d, s, Q)
 			DeriveWeights(S, st, w, d, s, Q)
-			pullValues(I, Y, y)
-			spn.StoreInference(S, I, z, st)
+			J := hideValues(I, Y)
+			spn.StoreInference(S, J, z, st)
 			DeriveSPN(S, st, p, z, Q)
 			DeriveWeights(S, st, u, p, z, Q)
-			pushValues(I, Y, y)
 			applyDGD(S, s, d, w, z, p, u, st, eta, norm, Q, 1)
 			st.ResetTickets(s, d, w, z, p, u)
 		}
@@ -78,13 +74,11 @@ func DiscriminativeHardGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Varia
 	st := spn.NewStorer()
 	d, p := st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			DeriveHard(S, st, d, I)
-			pullValues(I, Y, y)
-			DeriveHard(S, st, p, I)
-			pushValues(I, Y, y)
+			J := hideValues(I, Y)
+			DeriveHard(S, st, p, J)
 			applyHDGD(S, d, p, st, eta, P.Lambda, norm, 1)
 			st.ResetTickets(d, p)
 		}
@@ -103,18 +97,16 @@ func DiscriminativeBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable
 	z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	l := st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	var j int
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			spn.StoreInference(S, I, s, st)
 			DeriveSPN(S, st, d, s, Q)
 			DeriveWeights(S, st, w, d, s, Q)
-			pullValues(I, Y, y)
-			spn.StoreInference(S, I, z, st)
+			J := hideValues(I, Y)
+			spn.StoreInference(S, J, z, st)
 			DeriveSPN(S, st, p, z, Q)
 			DeriveWeights(S, st, u, p, z, Q)
-			pushValues(I, Y, y)
 			storeDGD(S, s, d, w, z, p, u, l, st, eta, norm, Q)
 			st.ResetTickets(s, d, w, z, p, u)
 			j++
@@ -139,7 +131,6 @@ func DiscriminativeHardBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Vari
 	st := spn.NewStorer()
 	d, p := st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	var j int
 
 	u := st.NewTicket()
@@ -156,9 +147,8 @@ func DiscriminativeHardBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Vari
 			sys.Printf("Log-likelihood = %.3f\n", llh)
 
 			DeriveHard(S, st, d, I)
-			pullValues(I, Y, y)
-			DeriveHard(S, st, p, I)
-			pushValues(I, Y, y)
+			J := hideValues(I, Y)
+			DeriveHard(S, st, p, J)
 			j++
 			if j%b == 0 {
 				sys.Println("Applying gradient.")
-- 
2.43.0


From 6a85045711e2c4ae90b746b7a91fef69e22e9310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:06 +0000
Subject: [PATCH 09/44] fix: evaluating fewer than ten instances does not
 divide by zero

---
 score/score.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/score/score.go b/score/score.go
index 0265655..275cf27 100644
--- a/score/score.go
+++ b/score/score.go
@@ -73,7 +73,7 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -94,7 +94,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -166,7 +166,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 				}
 				mu.Lock()
 				s.Register(ml, h[j])
-				if _n := s.total; (_n > 0) && (_n%(len(D)/10) == 0) {
+				if _n, p := s.total, len(D)/10; p > 0 && _n > 0 && _n%p == 0 {
 					sys.Printf("... %d%% ...\n", int(100.0*(float64(_n)/float64(len(D)))))
 				}
 				mu.Unlock()
-- 
2.43.0


From 5953a3b0375f7bf01c2bedb1d48ff5d9c909047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:07 +0000
Subject: [PATCH 10/44] fix: Evaluate and EvaluatePosterior do not modify the
 caller's dataset

Restoring the label also inserted label 0 into instances that had none.
---
 score/score.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/score/score.go b/score/score.go
index 275cf27..5c79cca 100644
--- a/score/score.go
+++ b/score/score.go
@@ -76,12 +76,9 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
-		delete(I, v)
-		_, _, M := spn.StoreMAP(N, I, tk, st)
+		_, _, M := spn.StoreMAP(N, copyExcept(I, v), tk, st)
 		s.Register(M[v], L[i])
 		st.Reset(tk)
-		I[v] = l
 	}
 }
 
@@ -93,12 +90,11 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 	v := classVar.Varid
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
-	for i, I := range T {
+	for i := range T {
 		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
-		delete(I, v)
+		I := copyExcept(T[i], v)
 		spn.StoreInference(N, I, tk, st)
 		pe, _ := st.Single(tk, N)
 		mp := math.Inf(-1)
@@ -115,7 +111,6 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		}
 		s.Register(ml, L[i])
 		st.Reset(tk)
-		I[v] = l
 	}
 }
 
-- 
2.43.0


From 4c0be38f7dffd88db1f22a75b089e9a4eb3fb72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:08 +0000
Subject: [PATCH 11/44] fix: score.Add does not share its predictions with the
 added scores

---
 score/score.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/score.go b/score/score.go
index 5c79cca..7dc0cf1 100644
--- a/score/score.go
+++ b/score/score.go
@@ -200,7 +200,8 @@ func Add(s, t *S) *S {
 	m.hits = s.hits + t.hits
 	m.misses = s.misses + t.misses
 	m.total = s.total + t.total
-	m.predictions = append(s.predictions, t.predictions...)
+	m.predictions = append(m.predictions, s.predictions...)
+	m.predictions = append(m.predictions, t.predictions...)
 	return m
 }
 
-- 
2.43.0


From 317a2f51b27de4c27a83d73c6ce0f2c7a896076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:09 +0000
Subject: [PATCH 12/44] fix: PartitionByLabels assigns leftover instances to
 their own class

---
 data/manipulate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index cdcb80c..c146b20 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -157,7 +157,7 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 		for K[i] < len(R[i]) {
 			l := R[i][K[i]]
 			V := make(map[int]int)
-			copyMap(V, D[l])
+			copyMap(V, D[C[i][l]])
 			M[di] = append(M[di], V)
 			U[di] = append(U[di], i)
 			K[i]++
-- 
2.43.0


From 573a9250c20abaf769ccc3989e179de1d1c5efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 13/44] fix: Divide does not panic when there are fewer
 instances than parts

---
 data/manipulate.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index c146b20..66e09d9 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -329,17 +329,6 @@ func MergeLabel(D []map[int]int, L []int, V *learn.Variable) []map[int]int {
 func Divide(D []map[int]int, L []int, n int) ([][]map[int]int, [][]int) {
 	m := len(D)
 	k, l := m/n, m%n
-	if k == 0 {
-		Gd := make([][]map[int]int, 1)
-		Gl := make([][]int, 1)
-		for i, I := range D {
-			M := make(map[int]int)
-			copyMap(M, I)
-			Gd[0][i] = M
-			Gl[0][i] = L[i]
-		}
-		return Gd, Gl
-	}
 	Gd := make([][]map[int]int, n)
 	Gl := make([][]int, n)
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 19468ee6f0d76f10c39172fa2d4ea3a15ff275c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:11 +0000
Subject: [PATCH 14/44] fix: Identical tells apart datasets of different length
 or scope

---
 data/manipulate.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 66e09d9..bacb717 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -294,10 +294,16 @@ func Identical(D []map[int]int, E []map[int]int, L []int, M []int) bool {
 	if c && (len(L) != len(D) || len(M) != len(E)) {
 		panic("Length of dataset does not match length of labels.")
 	}
+	if len(D) != len(E) || len(L) != len(M) {
+		return false
+	}
 	for i, I := range D {
 		J := E[i]
+		if len(I) != len(J) {
+			return false
+		}
 		for k, v := range I {
-			if v != J[k] {
+			if u, e := J[k]; !e || u != v {
 				return false
 			}
 		}
-- 
2.43.0


From d9fcf2cdb5bcc32e35638b8ca9f1ba96ce7e149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:12 +0000
Subject: [PATCH 15/44] fix: pullMNIST reports a failed download of the
 training set

---
 data/datasets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/datasets.go b/data/datasets.go
index f7029f5..d5e35b8 100644
--- a/data/datasets.go
+++ b/data/datasets.go
@@ -189,6 +189,9 @@ func pullMNIST(n, b int) (map[int]*learn.Variable, []map[int]int, []map[int]int)
 		return nil, nil, nil
 	}
 	e = io.DownloadFromURL(ur, pr, false)
+	if e != nil {
+		return nil, nil, nil
+	}
 	v, dt := io.ParseData(pt)
 	_, dr := io.ParseData(pr)
 	return v, dt, dr
-- 
2.43.0


From e04a63725cca1608ff9e92aa3c9a48334a218faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:50 +0000
Subject: [PATCH 16/44] fix: Queue.DequeueBack removes only the last element

---
 common/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/queue.go b/common/queue.go
index a837b68..a54e6db 100644
--- a/common/queue.go
+++ b/common/queue.go
@@ -33,7 +33,7 @@ func (q *Queue) DequeueBack() interface{} {
 	n := len(q.data) - 1
 	e := q.data[n]
 	q.data[n] = nil
-	q.data = q.data[1:n]
+	q.data = q.data[:n]
 	if q.cap > sys.MemLowBoundShrink && q.cap >= (len(q.data)<<1) {
 		q.Shrink()
 	}
-- 
2.43.0


From 85cab99edb4f1ccac84f15befa4b9093c51917e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:52 +0000
Subject: [PATCH 17/44] fix: a zero-variance Gaussian marginalises unobserved
 variables and keeps evidence

---
 spn/gaussian.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 9a2f630..acc31a0 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -126,7 +126,7 @@ func zeroSigma(v int, ok bool, mu float64) float64 {
 func (g *Gaussian) Value(val VarSet) float64 {
 	v, ok := val[g.varid]
 	var l float64
-	if g.dist.Sigma == 0 {
+	if ok && g.dist.Sigma == 0 {
 		return zeroSigma(v, ok, g.dist.Mu)
 	} else if ok {
 		l = g.dist.LogProb(float64(v))
@@ -141,6 +141,9 @@ func (g *Gaussian) Value(val VarSet) float64 {
 func (g *Gaussian) Max(val VarSet) float64 {
 	v, ok := val[g.varid]
 	if g.dist.Sigma == 0 {
+		if !ok {
+			return 0.0 // ln(1.0) = 0.0
+		}
 		return zeroSigma(v, ok, g.dist.Mu)
 	} else if ok {
 		return g.dist.LogProb(float64(v))
@@ -154,6 +157,10 @@ func (g *Gaussian) ArgMax(val VarSet) (VarSet, float64) {
 	v, ok := val[g.varid]
 
 	if g.dist.Sigma == 0 {
+		if ok {
+			retval[g.varid] = v
+			return retval, zeroSigma(v, ok, g.dist.Mu)
+		}
 		retval[g.varid] = int(g.dist.Mu)
 		return retval, 0.0
 	} else if ok {
-- 
2.43.0


From cbc7890432f7d52125b1cf358b6fe50bb1c8b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 18/44] fix: Indicator.ArgMax completes its variable with the
 indicated value and keeps evidence

---
 spn/indicator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spn/indicator.go b/spn/indicator.go
index 4268f1d..a1f3de1 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -47,8 +47,12 @@ func (i *Indicator) Max(val VarSet) float64 {
 func (i *Indicator) ArgMax(val VarSet) (VarSet, float64) {
 	retval := make(VarSet)
 	u, e := val[i.varid]
-	if !e || u == i.v {
-		retval[i.varid] = u
+	if !e {
+		retval[i.varid] = i.v
+		return retval, 0
+	}
+	retval[i.varid] = u
+	if u == i.v {
 		return retval, 0
 	}
 	return retval, utils.LogZero
-- 
2.43.0


From a2f65d34843cb57884a554c3776f4a59ec47812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:54 +0000
Subject: [PATCH 19/44] fix: decoding an Indicator restores its scope

---
 spn/indicator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spn/indicator.go b/spn/indicator.go
index a1f3de1..d8b8dea 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -75,5 +75,6 @@ func (i *Indicator) GobEncode() ([]byte, error) {
 func (i *Indicator) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
 	_, err := fmt.Fscanf(b, "%d %d", &i.varid, &i.v)
+	i.sc = []int{i.varid}
 	return err
 }
-- 
2.43.0


From 672689df0fc704e99f6548a1e847dfcf0d766d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 20/44] fix: Indicator reports its own subtype

---
 spn/indicator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spn/indicator.go b/spn/indicator.go
index d8b8dea..23f2aea 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -78,3 +78,6 @@ func (i *Indicator) GobDecode(data []byte) error {
 	i.sc = []int{i.varid}
 	return err
 }
+
+// SubType returns this leaf's subtype.
+func (i *Indicator) SubType() string { return "indicator" }
-- 
2.43.0


From 14119ec00c4f5443a5a3a6c81f24747c3883905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 21/44] fix: serialised weights and probabilities keep their
 full precision

---
 spn/multinom.go | 2 +-
 spn/sum.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 9043ac6..5945fe5 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -220,7 +220,7 @@ func (m *Multinomial) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d %d", m.varid, len(m.pr))
 	for _, p := range m.pr {
-		fmt.Fprintf(&b, " %f", p)
+		fmt.Fprintf(&b, " %g", p)
 	}
 	return b.Bytes(), nil
 }
diff --git a/spn/sum.go b/spn/sum.go
index 8a5c9cb..bc8cec3 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -138,7 +138,7 @@ func (s *Sum) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d", len(s.w))
 	for _, w := range s.w {
-		fmt.Fprintf(&b, " %f", w)
+		fmt.Fprintf(&b, " %g", w)
 	}
 	return b.Bytes(), nil
 }
-- 
2.43.0


From c5577931f869f9fbc13fa4c45222ff17d4868796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:58 +0000
Subject: [PATCH 22/44] fix: PrintSPN handles indicator leaves

---
 spn/print.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spn/print.go b/spn/print.go
index f9e4c3b..12732d8 100644
--- a/spn/print.go
+++ b/spn/print.go
@@ -63,9 +63,10 @@ func PrintSPN(S SPN, filename string) {
 			if st == "*spn.Multinomial" {
 				cc := s.(*Multinomial)
 				mu, sigma = cc.MuSigma()
-			} else /* Gaussian */ {
-				cc := s.(*Gaussian)
+			} else if cc, ok := s.(*Gaussian); ok {
 				mu, sigma = cc.dist.Mu, cc.dist.Sigma
+			} else if cc, ok := s.(*Indicator); ok {
+				mu, sigma = float64(cc.v), 0
 			}
 			//fmt.Printf("%.5f %.5f\n", mu, sigma)
 			fmt.Fprintf(f, "  %.5f %.5f\n", mu, sigma)
-- 
2.43.0


From 4d981e1c2017df66a9ab1bcd6133896c34663fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 23/44] fix: ComputeHeight returns the longest path to a leaf
 on networks with shared nodes

---
 spn/utils.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 3fe836b..18b949d 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -307,28 +307,21 @@ func NormalizeSPN(S SPN) SPN {
 
 // ComputeHeight computes the height of a certain SPN S.
 func ComputeHeight(S SPN) int {
-	T := common.Stack{}
-	V := make(map[SPN]int)
-
-	T.Push(S)
-	V[S] = 0
+	T := common.Queue{}
+	TopSortTarjan(S, &T)
 
-	var h int
+	// Height of each node: one more than its tallest child.
+	H := make(map[SPN]int)
 	for !T.Empty() {
-		s := T.Pop().(SPN)
-		if s.Type() == "leaf" && V[s] > h {
-			h = V[s]
-		}
-		ch := s.Ch()
-		for _, c := range ch {
-			if _, e := V[c]; !e {
-				T.Push(c)
-				V[c] = V[s] + 1
+		s := T.Dequeue().(SPN)
+		for _, c := range s.Ch() {
+			if h := H[c] + 1; h > H[s] {
+				H[s] = h
 			}
 		}
 	}
 
-	return h
+	return H[S]
 }
 
 // ComputeScope computes the scope of a certain SPN S.
-- 
2.43.0


From 5692df2f7b23baebaa7eeb551ce9cd1878ce4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:23 +0000
Subject: [PATCH 24/44] fix: inference on a network made of a single leaf
 evaluates that leaf

---
 spn/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 18b949d..9793282 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -21,7 +21,7 @@ import (
 // InferenceY returns the value of S(I, Y=y). This convenience function allows for fast computation
 // of soft inference values without having to create another VarSet for each valuation of Y.
 func InferenceY(S SPN, I VarSet, Y, y int) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	J := map[int]int{Y: y}
@@ -64,7 +64,7 @@ func InferenceY(S SPN, I VarSet, Y, y int) float64 {
 
 // Inference simply returns the value of S(I), without storing values for later use.
 func Inference(S SPN, I VarSet) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	O := common.Queue{}
@@ -104,7 +104,7 @@ func Inference(S SPN, I VarSet) float64 {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreInference creates a new ticket).
 func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1
 	}
 
@@ -162,7 +162,7 @@ func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreMAP creates a new ticket).
 func StoreMAP(S SPN, I VarSet, tk int, storage *Storer) (SPN, int, VarSet) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1, nil
 	}
 
-- 
2.43.0


From c8d61c571eea5d025001e0ee41ebf3ca4090a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:24 +0000
Subject: [PATCH 25/44] fix: leaves return the parameters bound to them

---
 spn/gaussian.go  | 12 ++++++++++++
 spn/indicator.go | 12 ++++++++++++
 spn/multinom.go  | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index acc31a0..e7534e5 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -4,6 +4,7 @@ import (
 	//"github.com/RenatoGeh/gospn/sys"
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"gonum.org/v1/gonum/stat/distuv"
 	"math"
 )
@@ -203,3 +204,14 @@ func (g *Gaussian) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (g *Gaussian) SubType() string { return "gaussian" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (g *Gaussian) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(g)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(g, p)
+	}
+	return p
+}
diff --git a/spn/indicator.go b/spn/indicator.go
index 23f2aea..09a86b4 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/utils"
 )
 
@@ -81,3 +82,14 @@ func (i *Indicator) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (i *Indicator) SubType() string { return "indicator" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (i *Indicator) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(i)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(i, p)
+	}
+	return p
+}
diff --git a/spn/multinom.go b/spn/multinom.go
index 5945fe5..aa880eb 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/sys"
 	"math"
 )
@@ -248,3 +249,14 @@ func (m *Multinomial) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (m *Multinomial) SubType() string { return "multinomial" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (m *Multinomial) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(m)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(m, p)
+	}
+	return p
+}
-- 
2.43.0


From 1cd51b59f47159ab4f80e4b3cd0fed0ba03622a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:26 +0000
Subject: [PATCH 26/44] fix: log-sums of empty or all-zero terms are ln(0), not
 a panic or NaN

---
 utils/log.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/log.go b/utils/log.go
index 49de4a3..810eeb3 100644
--- a/utils/log.go
+++ b/utils/log.go
@@ -50,6 +50,9 @@ func LogSum(p []float64) float64 {
 			pi = lp
 		}
 	}
+	if math.IsInf(pi, 0) {
+		return pi
+	}
 
 	lg := 0.0
 	for i := 0; i < n; i++ {
@@ -110,6 +113,9 @@ func Trim(a []float64, c float64) []float64 {
 // LogSumExp takes a slice of floats a={a_1,...,a_n} and computes ln(exp(a_1)+...+exp(a_n)).
 func LogSumExp(a []float64) float64 {
 	//a = Trim(a, LogZero)
+	if len(a) == 0 {
+		return LogZero
+	}
 	max := a[0]
 	for _, v := range a {
 		if v > max {
-- 
2.43.0


From d0639d469e842e8c9faebf0acf5d15ea65cd15b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:27 +0000
Subject: [PATCH 27/44] fix: poon.LearnGD does not write a debug file to the
 working directory

---
 learn/poon/poon.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 4077f0f..a16c2af 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -651,6 +651,5 @@ func LearnGD(D spn.Dataset, m, g, r int, eta, eps float64) spn.SPN {
 	sys.Printf("Sums: %d, Prods: %d, Leaves: %d\nTotal:%d\n", sums, prods, leaves, sums+prods+leaves)
 	learn.GenerativeHardBGD(S, eta, eps, D, nil, true, 50)
 	//spn.NormalizeSPN(S)
-	spn.PrintSPN(S, "test_after.spn")
 	return S
 }
-- 
2.43.0


From 5c3e5d151622550c3d6fa36d75464ac80897a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:15 +0000
Subject: [PATCH 28/44] fix: ReadFromFile does not truncate the file it reads

---
 io/input.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/input.go b/io/input.go
index 7abf64f..bf1e9db 100644
--- a/io/input.go
+++ b/io/input.go
@@ -336,9 +336,9 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 
 // ReadFromFile reads an SPN from an spn mdl file.
 func ReadFromFile(filename string) spn.SPN {
-	file, err := os.Create(filename)
+	file, err := os.Open(filename)
 	if err != nil {
-		fmt.Printf("Error. Could not create file [%s].\n", filename)
+		fmt.Printf("Error. Could not open file [%s].\n", filename)
 		panic(err)
 	}
 	defer file.Close()
-- 
2.43.0


From 600df3e211a88fd88a31e47de92ebf2859c4d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:17 +0000
Subject: [PATCH 29/44] fix: a failed download neither panics nor leaves an
 empty file behind

The empty file made the next call report that the dataset already existed.
---
 io/http.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/io/http.go b/io/http.go
index f316395..ee16816 100644
--- a/io/http.go
+++ b/io/http.go
@@ -36,19 +36,19 @@ func DownloadFromURL(u, p string, override bool) error {
 		fmt.Println(e)
 		return e
 	}
-	out, e := os.Create(f)
-	defer out.Close()
+	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
+	d, e := http.Get(u)
 	if e != nil {
-		fmt.Println("Error when trying to create file [%s].\n", f)
+		fmt.Println("Error while downloading [%s].\nStopping download.", u)
 		return e
 	}
-	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
-	d, e := http.Get(u)
 	defer d.Body.Close()
+	out, e := os.Create(f)
 	if e != nil {
-		fmt.Println("Error while downloading [%s].\nStopping download.", u)
+		fmt.Println("Error when trying to create file [%s].\n", f)
 		return e
 	}
+	defer out.Close()
 	_, e = io.Copy(out, d.Body)
 	if e != nil {
 		fmt.Println("Error while copying download to local directory.")
-- 
2.43.0


From dc39fa21190308057a6fe46fc034ad45b7922440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:18 +0000
Subject: [PATCH 30/44] fix: NewNpyReader closes the file when it rejects it

---
 io/npy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index f7e9423..61937f7 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -54,14 +54,17 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	}
 	r, err := npyio.NewReader(f)
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	s := r.Header.Descr.Shape
 	if len(s) != 2 {
+		f.Close()
 		return nil, ErrNonDatasetShape
 	}
 	t := isValid(r.Header.Descr.Type)
 	if t < 0 {
+		f.Close()
 		return nil, ErrNonIntegerType
 	}
 	return &NpyReader{f, r, t, [2]int{s[0], s[1]}}, nil
-- 
2.43.0


From 8f0d0054033f4e240c6a8c6e07347983171ea0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:19 +0000
Subject: [PATCH 31/44] fix: ImgTestParallel names each output after its own
 instance

The loop variable is shared with the goroutines.
---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 5de9eef..963a4d1 100644
--- a/app/image.go
+++ b/app/image.go
@@ -320,7 +320,7 @@ func ImgTestParallel(filename string, m, g, r int, eta, eps float64, concurrents
 			S := dennis.LearnGD(train, lsc, 1, m, g, 0.95, P, id)
 			for _, q := range io.Quadrants {
 				cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
+				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, id), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 			}
 			sys.Printf("Ending job %d\n", id)
 
-- 
2.43.0


From 4649e08c37643a284adbdb98673dd8aede818046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:21 +0000
Subject: [PATCH 32/44] fix: every access to the shared random generator holds
 its lock

---
 app/image.go |  2 +-
 sys/rand.go  | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/app/image.go b/app/image.go
index 963a4d1..ad83116 100644
--- a/app/image.go
+++ b/app/image.go
@@ -266,7 +266,7 @@ func ImgTestParallel(filename string, m, g, r int, eta, eps float64, concurrents
 	ndata := len(D)
 	P := parameters.New(true, false, 0.01, parameters.HardGD, eta, eps, 1, 0.1, 1)
 
-	sys.Random.Shuffle(len(D), func(i, j int) {
+	sys.RandShuffle(len(D), func(i, j int) {
 		D[i], D[j] = D[j], D[i]
 	})
 
diff --git a/sys/rand.go b/sys/rand.go
index c63d83e..9563afa 100644
--- a/sys/rand.go
+++ b/sys/rand.go
@@ -21,8 +21,9 @@ func RefreshRandom(s int64) *rand.Rand {
 	mu.Lock()
 	seed = s
 	Random = rand.New(rand.NewSource(seed))
+	r := Random
 	mu.Unlock()
-	return Random
+	return r
 }
 
 func RandIntn(n int) int {
@@ -47,7 +48,19 @@ func RandNormFloat64() float64 {
 }
 
 // Seed returns the pseudo-random seed.
-func Seed() int64 { return seed }
+func Seed() int64 {
+	mu.Lock()
+	s := seed
+	mu.Unlock()
+	return s
+}
+
+// RandShuffle pseudo-randomizes the order of n elements through function swap.
+func RandShuffle(n int, swap func(i, j int)) {
+	mu.Lock()
+	Random.Shuffle(n, swap)
+	mu.Unlock()
+}
 
 func RandomComb(u int, v int, m int) [][2]int {
 	n := u * v
-- 
2.43.0


From ac2446b740d99d1d46b4d251d4c2bc0f91f590d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:23 +0000
Subject: [PATCH 33/44] fix: SetLogFile redirects the log to the given file

---
 sys/print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sys/print.go b/sys/print.go
index b5acc08..e026bd8 100644
--- a/sys/print.go
+++ b/sys/print.go
@@ -17,6 +17,9 @@ func SetLogFile(filename string) (*os.File, error) {
 		return nil, nil
 	}
 	f, err := os.Create(filename)
+	if err == nil {
+		fout = f
+	}
 	return f, err
 }
 
-- 
2.43.0


From 7fa96e06187567ff0e20dacd806c61f9cefdc172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 34/44] fix: DBSCANData numbers clusters consecutively

---
 utils/cluster/dbscan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 5d52a7a..63dfd04 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -108,11 +108,11 @@ func DBSCANData(data []map[int]int, eps float64, mp int) [][]map[int]int {
 	rgs := dbscanInternal(M, eps, mp)
 	G := make([]int, len(M))
 	var k int
-	for i, u := range rgs {
+	for _, u := range rgs {
 		if u.Pa == u {
 			ch := utils.UFVarids(u)
 			for _, c := range ch {
-				G[c] = i
+				G[c] = k
 			}
 			k++
 		}
-- 
2.43.0


From d85c7f0eb90902691a624dc0f556e57a4da6e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:33 +0000
Subject: [PATCH 35/44] fix: KMode does not print debugging output

---
 utils/cluster/kmode.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/utils/cluster/kmode.go b/utils/cluster/kmode.go
index 49342f1..7b69be7 100644
--- a/utils/cluster/kmode.go
+++ b/utils/cluster/kmode.go
@@ -1,7 +1,6 @@
 package cluster
 
 import (
-	"fmt"
 	"github.com/RenatoGeh/gospn/sys"
 	"github.com/RenatoGeh/gospn/utils/cluster/metrics"
 )
@@ -89,12 +88,10 @@ func KMode(k int, data [][]int) []map[int][]int {
 		// Instance i has no attached cluster.
 		if !ok {
 			chkdata[i] = which
-			fmt.Println(data[i], " to cluster ", which)
 			kModeInsert(which, means, clusters, data[i])
 			nochange = 0
 		} else if v != which {
 			// If instance has an earlier attached cluster.
-			fmt.Println(data[i], " from ", chkdata[i], " to cluster ", which)
 			kModeRemove(chkdata[i], means, clusters, data[i])
 			chkdata[i] = which
 			kModeInsert(which, means, clusters, data[i])
@@ -106,7 +103,6 @@ func KMode(k int, data [][]int) []map[int][]int {
 		if i >= n {
 			i = 0
 		}
-		fmt.Println("0:", means[0], "  1:", means[1])
 	}
 	//fmt.Println("Converged. Returning clusters...")
 	clusters = make([]map[int][]int, k)
-- 
2.43.0


From e066864e7ce7432629a429f44593d8c8b0af0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 36/44] fix: k-mode and k-means recompute a mode by comparing
 counts

---
 utils/cluster/kmeans.go | 2 +-
 utils/cluster/kmode.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index b83441a..670e530 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -27,7 +27,7 @@ func kMeansRemove(which int, means map[int][]int, clusters []map[int][]int, v []
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
diff --git a/utils/cluster/kmode.go b/utils/cluster/kmode.go
index 7b69be7..31f7baf 100644
--- a/utils/cluster/kmode.go
+++ b/utils/cluster/kmode.go
@@ -23,7 +23,7 @@ func kModeRemove(which int, means map[int][]int, clusters []map[int][]int, v []i
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
-- 
2.43.0


From 8bc8004bddca97e940068ec047a5651432cd25e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:35 +0000
Subject: [PATCH 37/44] fix: KMeansData and KMeansFData keep every instance

The column-to-variable map was used to number rows.
---
 utils/cluster/kmeans.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index 670e530..88a9649 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -123,8 +123,8 @@ func KMeans(k int, data [][]int) []map[int][]int {
 }
 
 func KMeansData(k int, data []map[int]int) []map[int][]int {
-	D, Sc := learn.DataToMatrix(data)
-	return KMeansMuesli(k, D, Sc)
+	D, _ := learn.DataToMatrix(data)
+	return KMeansMuesli(k, D, nil)
 }
 
 func OldKMeans(k int, data [][]int) []map[int][]int {
@@ -220,8 +220,8 @@ func KMeansF(k int, D [][]float64, sc map[int]int) []map[int][]float64 {
 }
 
 func KMeansFData(k int, D []map[int]int) []map[int][]float64 {
-	E, Sc := learn.DataToMatrixF(D)
-	return KMeansMuesliF(k, E, Sc)
+	E, _ := learn.DataToMatrixF(D)
+	return KMeansMuesliF(k, E, nil)
 }
 
 func OldKMeansF(k int, D [][]float64, F metrics.MetricF) []map[int][]float64 {
-- 
2.43.0


From cbda8221aa9a4d4c9e5173844373d5e9f9262d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 38/44] fix: VarSetToPPM labels its ASCII pixels as plain PPM

---
 io/ppm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/ppm.go b/io/ppm.go
index 76e5555..27ccc54 100644
--- a/io/ppm.go
+++ b/io/ppm.go
@@ -17,7 +17,7 @@ func VarSetToPPM(filename string, state spn.VarSet, w, h, max int) {
 	}
 	defer file.Close()
 
-	fmt.Fprintf(file, "P6\n%d %d\n%d\n", w, h, max)
+	fmt.Fprintf(file, "P3\n%d %d\n%d\n", w, h, max)
 
 	n := len(state)
 	pixels := make([]int, n)
-- 
2.43.0


From a4f17b8b2a6ea55b23833099051d3c929ba57437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 39/44] fix: Sum.ArgMax does not panic on impossible evidence

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index bc8cec3..4666fe3 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -100,7 +100,7 @@ func (s *Sum) ArgMax(val VarSet) (VarSet, float64) {
 	for i := 0; i < n; i++ {
 		ch := s.ch[i]
 		m := math.Log(s.w[i]) + ch.Max(val)
-		if m > max {
+		if mch == nil || m > max {
 			max, mch = m, ch
 		}
 	}
-- 
2.43.0


From 7efcb22825759350af8415d407a715dae26d5805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:25 +0000
Subject: [PATCH 40/44] fix: a multinomial's standard deviation weighs each
 value by its probability

---
 spn/multinom.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index aa880eb..16b42ca 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -196,11 +196,11 @@ func (m *Multinomial) Mean() float64 {
 func (m *Multinomial) StdDev() float64 {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return sd
 }
 
@@ -208,11 +208,11 @@ func (m *Multinomial) StdDev() float64 {
 func (m *Multinomial) MuSigma() (float64, float64) {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return mu, sd
 }
 
-- 
2.43.0


From d4d8cf9196ea3bfce980a0126b6bd84489456880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:27 +0000
Subject: [PATCH 41/44] fix: NewGaussianMode is centered on the mode

---
 spn/gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index e7534e5..14431fd 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -90,7 +90,7 @@ func NewGaussianMode(varid int, counts []int) *Gaussian {
 	for i := 0; i < n; i++ {
 		c := float64(counts[i])
 		if c > max {
-			max = c
+			max, mode = c, float64(i)
 		}
 		d := float64(i) - mean
 		sd += (c / float64(N)) * d * d
-- 
2.43.0


From 9a8bc05cb2d8600cc0bea9e0f8613662fd215b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 42/44] fix: single Gaussian regions are fitted to the values,
 not to a histogram

---
 learn/dennis/region.go | 4 ++--
 learn/poon/poon.go     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 0e805dd..4f2397a 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -30,8 +30,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 		}
 		X := learn.ExtractInstance(v, D)
 		if g > len(D) {
-			mu, sigma := utils.MuSigma(X)
-			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
+			q := utils.PartitionQuantiles(X, 1)[0]
+			r.rep = []spn.SPN{spn.NewGaussianParams(v, q[0], q[1])}
 		} else {
 			r.rep = make([]spn.SPN, g)
 			Q := utils.PartitionQuantiles(X, g)
diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index a16c2af..72d9465 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -104,8 +104,8 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	}
 
 	if n == 1 {
-		mu, sigma := utils.MuSigma(V)
-		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, mu, sigma)}, 1)
+		q := utils.PartitionQuantiles(V, 1)[0]
+		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, q[0], q[1])}, 1)
 	}
 
 	sort.Ints(V)
-- 
2.43.0


From 250a902b2829d2fb215a6bc266acd70ff3f9681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 43/44] fix: quantiles without values of their own are not NaN

---
 utils/stats.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/stats.go b/utils/stats.go
index 5f240b6..c294d96 100644
--- a/utils/stats.go
+++ b/utils/stats.go
@@ -67,12 +67,16 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 	}
 	P := make([][]float64, m)
 	for i := 0; i < m; i++ {
-		q := (i + 1) * l
+		p, q := i*l, (i+1)*l
 		if i == m-1 {
 			q = k
 		}
+		if p >= k && k > 0 {
+			// No values left: stay at the largest one.
+			p = k - 1
+		}
 		var Q []int
-		for j := i * l; j < q && j < k; j++ {
+		for j := p; j < q && j < k; j++ {
 			Q = append(Q, X[j])
 		}
 		// Compute mean and standard deviation.
-- 
2.43.0


From c967ecb6ec9fd388ee3c57c1653f40c57184e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 44/44] fix: Sum.ComputeHard shifts by the largest term, not
 the largest weight

Children's values are log-probabilities: subtracting the largest weight left
exponentials that underflow (e.g. {-800, -801} gave log 0).
---
 spn/sum.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/spn/sum.go b/spn/sum.go
index 4666fe3..fdb5877 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -60,15 +60,14 @@ func (s *Sum) Compute(cv []float64) float64 {
 // ComputeHard returns the soft value using hard weights (unit weights). Expects only children
 // values, and not weighted child value. Parameter scount is the smooth sum count constant.
 func (s *Sum) ComputeHard(cv []float64, scount float64) float64 {
-	imax, max := -1, -1.0
-	for i := range s.ch {
-		w := s.w[i]
-		if imax < 0 || max < w {
-			imax, max = i, w
+	max := utils.LogZero
+	for _, v := range cv {
+		if v > max {
+			max = v
 		}
 	}
-	if imax < 0 {
-		return utils.LogZero
+	if math.IsInf(max, 0) {
+		return max
 	}
 	var v float64
 	for i := range cv {
-- 
2.43.0

