From 28b400c19ccdb68cbcaafa8bf6c2967623a02083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:20 +0000
Subject: [PATCH 01/69] fix: emit every node after all its children in
 topological sorts of DAGs

TopSortTarjan, TopSortTarjanFunc and TopSortDFS marked a node as visited when
it was pushed, so a node shared by several parents could be emitted after one
of its parents.
---
 spn/topo.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/spn/topo.go b/spn/topo.go
index a8572fd..38dc69a 100644
--- a/spn/topo.go
+++ b/spn/topo.go
@@ -43,20 +43,22 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
-			C.Give(u)
+			// A node may have been pushed by several parents, but it must only be given once.
+			if !V[u] {
+				V[u] = true
+				C.Give(u)
+			}
 			continue
 		}
 		S.Push(u)
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -77,13 +79,16 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
-			C.Give(u)
-			if !f(u) {
-				return C
+			// A node may have been pushed by several parents, but it must only be given once.
+			if !V[u] {
+				V[u] = true
+				C.Give(u)
+				if !f(u) {
+					return C
+				}
 			}
 			continue
 		}
@@ -91,9 +96,8 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -111,12 +115,16 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 	}
 
 	S.Push(G)
-	V[G] = true
 
 	for !S.Empty() {
 		s := S.Pop().(SPN)
+		// A node may have been pushed by several parents, but it must only be given once.
+		if V[s] {
+			continue
+		}
 		ch := s.Ch()
 		if len(ch) == 0 {
+			V[s] = true
 			C.Give(s)
 		} else {
 			var m []SPN
@@ -126,12 +134,12 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 				}
 			}
 			if len(m) == 0 {
+				V[s] = true
 				C.Give(s)
 			} else {
 				S.Push(s)
 				for _, c := range m {
 					S.Push(c)
-					V[c] = true
 				}
 			}
 		}
-- 
2.43.0


From 1696b4abb4165f329ce817e865959afe3df3258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:39 +0000
Subject: [PATCH 02/69] fix: evaluate networks that consist of a single leaf in
 Inference, InferenceY, StoreInference and StoreMAP

---
 spn/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index e0d5e1a..6264960 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -21,7 +21,7 @@ import (
 // InferenceY returns the value of S(I, Y=y). This convenience function allows for fast computation
 // of soft inference values without having to create another VarSet for each valuation of Y.
 func InferenceY(S SPN, I VarSet, Y, y int) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	J := map[int]int{Y: y}
@@ -64,7 +64,7 @@ func InferenceY(S SPN, I VarSet, Y, y int) float64 {
 
 // Inference simply returns the value of S(I), without storing values for later use.
 func Inference(S SPN, I VarSet) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	O := common.Queue{}
@@ -104,7 +104,7 @@ func Inference(S SPN, I VarSet) float64 {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreInference creates a new ticket).
 func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1
 	}
 
@@ -162,7 +162,7 @@ func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreMAP creates a new ticket).
 func StoreMAP(S SPN, I VarSet, tk int, storage *Storer) (SPN, int, VarSet) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1, nil
 	}
 
-- 
2.43.0


From e4793f269c33c05c8e7c3be237a52f368d855103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:39 +0000
Subject: [PATCH 03/69] fix: report the indicated value as the MAP state of an
 unset indicator

---
 spn/indicator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/indicator.go b/spn/indicator.go
index 4268f1d..a9e0fd0 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -48,7 +48,7 @@ func (i *Indicator) ArgMax(val VarSet) (VarSet, float64) {
 	retval := make(VarSet)
 	u, e := val[i.varid]
 	if !e || u == i.v {
-		retval[i.varid] = u
+		retval[i.varid] = i.v
 		return retval, 0
 	}
 	return retval, utils.LogZero
-- 
2.43.0


From 65392df573976ab10e826003d736f0785cd187d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:34 +0000
Subject: [PATCH 04/69] fix: do not dereference nil in Sum.ArgMax when the
 evidence has probability zero

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index 790eaaf..e454e19 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -100,7 +100,7 @@ func (s *Sum) ArgMax(val VarSet) (VarSet, float64) {
 	for i := 0; i < n; i++ {
 		ch := s.ch[i]
 		m := math.Log(s.w[i]) + ch.Max(val)
-		if m > max {
+		if mch == nil || m > max {
 			max, mch = m, ch
 		}
 	}
-- 
2.43.0


From 000f63269ab865de171b8aca4abfdada0bcd8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:58 +0000
Subject: [PATCH 05/69] fix: examine every node, not only the root, in Complete
 and Decomposable

---
 spn/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 6264960..b6e2477 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -402,7 +402,7 @@ func Complete(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
@@ -453,7 +453,7 @@ func Decomposable(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
-- 
2.43.0


From b91c85eb9abec9fe5f630401a7360e5b2b55eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:58 +0000
Subject: [PATCH 06/69] fix: return the scope of the children from Sum.Sc

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index e454e19..e032cd9 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -33,7 +33,7 @@ func (s *Sum) AddChildW(c SPN, w float64) {
 // Sc returns the scope of this node.
 func (s *Sum) Sc() []int {
 	if s.sc == nil {
-		copy(s.sc, s.ch[0].Sc())
+		s.sc = append(s.sc, s.ch[0].Sc()...)
 	}
 	return s.sc
 }
-- 
2.43.0


From 6c89b466879f0e7ec7248efb877c81689b882ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:59 +0000
Subject: [PATCH 07/69] fix: compute the longest path in ComputeHeight when
 nodes are shared

---
 spn/utils.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index b6e2477..899c046 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -307,28 +307,20 @@ func NormalizeSPN(S SPN) SPN {
 
 // ComputeHeight computes the height of a certain SPN S.
 func ComputeHeight(S SPN) int {
-	T := common.Stack{}
-	V := make(map[SPN]int)
-
-	T.Push(S)
-	V[S] = 0
+	T := common.Queue{}
+	TopSortTarjan(S, &T)
+	H := make(map[SPN]int)
 
-	var h int
 	for !T.Empty() {
-		s := T.Pop().(SPN)
-		if s.Type() == "leaf" && V[s] > h {
-			h = V[s]
-		}
-		ch := s.Ch()
-		for _, c := range ch {
-			if _, e := V[c]; !e {
-				T.Push(c)
-				V[c] = V[s] + 1
+		s := T.Dequeue().(SPN)
+		for _, c := range s.Ch() {
+			if h := H[c] + 1; h > H[s] {
+				H[s] = h
 			}
 		}
 	}
 
-	return h
+	return H[S]
 }
 
 // ComputeScope computes the scope of a certain SPN S.
-- 
2.43.0


From 5934ec92985682440cffd9fb8c0801829267acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:47 +0000
Subject: [PATCH 08/69] fix: visit nodes in topological order in DeriveSPN so
 that derivatives of shared nodes are complete

---
 learn/derive.go | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/learn/derive.go b/learn/derive.go
index 61344cf..aecd53f 100644
--- a/learn/derive.go
+++ b/learn/derive.go
@@ -18,28 +18,24 @@ import (
 // of such sum are the products of each parent node multiplied by all its siblings.
 // It is relevant to note that since GoSPN treats values in logspace, all the derivatives are too
 // in logspace. Argument tk is the ticket to be used for storing the derivatives. Argument itk is
-// the ticket for the stored values of S(X) (i.e. soft inference). A Collection is required for the
-// graph search, though if Collection c is nil, then we use a Queue. If a Queue is used, then the
-// graph search is a breadth-first, if a Stack is used, then it performs a depth-first search.
+// the ticket for the stored values of S(X) (i.e. soft inference). Nodes are visited in topological
+// order, parents before children, whatever the Collection c.
 // If tk < 0, then a new ticket will be created and returned alongside the SPN S.
 // Returns the SPN S and the ticket used.
 func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection) (spn.SPN, int) {
 	if tk < 0 {
 		tk = storage.NewTicket()
 	}
-	if c == nil {
-		c = &common.Queue{}
-	}
 
 	table, _ := storage.Table(tk)
 	inf, _ := storage.Table(itk)
-	visited := make(map[spn.SPN]bool)
+	O := &common.Stack{}
+	spn.TopSortTarjan(S, O)
 	table.StoreSingle(S, 0.0)
-	c.Give(S)
-	visited[S] = true
 
-	for !c.Empty() {
-		s := c.Take().(spn.SPN)
+	// A node's derivative is complete only once all its parents have been visited.
+	for !O.Empty() {
+		s := O.Take().(spn.SPN)
 		ch := s.Ch()
 		pv, _ := table.Single(s)
 		//sys.Printf("pv=%f, parent: %s\n", pv, s.Type())
@@ -54,7 +50,7 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
 				}
 			}
-		} else /* there can never be a case where s is a leaf, therefore s is a product */ {
+		} else /* s is a product, or a leaf, which has no children */ {
 			for i, cs := range ch {
 				v, e := table.Single(cs)
 				t := pv
@@ -73,17 +69,8 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 				}
 			}
 		}
-
-		for _, cs := range ch {
-			if cs.Type() != "leaf" && !visited[cs] {
-				c.Give(cs)
-				visited[cs] = true
-			}
-		}
 	}
 
-	visited = nil
-	c = nil
 	sys.Free()
 	return S, tk
 }
-- 
2.43.0


From 0dc8f4a18d047e04c25b17de96224e4baa544633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:47 +0000
Subject: [PATCH 09/69] fix: descend below the root in the discriminative
 gradient

---
 learn/discriminative.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 7daa85a..70ba825 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -208,7 +208,7 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
@@ -244,7 +244,7 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
-- 
2.43.0


From c033baea508086ea9203e4fca4e99bf46a0b36c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:48 +0000
Subject: [PATCH 10/69] fix: divide the discriminative gradient by the value of
 the network

---
 learn/discriminative.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 70ba825..4c44093 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -188,6 +188,9 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 	dut, _ := st.Table(u)
 	ist, _ := st.Table(s)
 	izt, _ := st.Table(z)
+	// Values of the whole network, S(Y|X) and S(1|X).
+	iS, _ := ist.Single(S)
+	iZ, _ := izt.Single(S)
 	P := S.Parameters()
 	for !Q.Empty() {
 		n := Q.Dequeue().(spn.SPN)
@@ -197,10 +200,8 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			W := sum.Weights()
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
 			for i := range W {
-				delta := eta * (math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i]))
+				delta := eta * (math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ))
 				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
 			}
 			if norm {
@@ -226,6 +227,9 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 	dut, _ := st.Table(u)
 	ist, _ := st.Table(s)
 	izt, _ := st.Table(z)
+	// Values of the whole network, S(Y|X) and S(1|X).
+	iS, _ := ist.Single(S)
+	iZ, _ := izt.Single(S)
 	lt, _ := st.Table(l)
 	for !Q.Empty() {
 		n := Q.Dequeue().(spn.SPN)
@@ -235,10 +239,8 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			nw := len(sum.Weights())
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
 			for i := 0; i < nw; i++ {
-				delta := math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i])
+				delta := math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ)
 				v, _ := lt.Entry(n, i)
 				lt.Store(n, i, v+delta)
 			}
-- 
2.43.0


From 1877420af7eedf4901a23f5ae78dc20751bd9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:48 +0000
Subject: [PATCH 11/69] fix: shift negative weights up, not further down, in
 NormalizeSPN

---
 spn/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/utils.go b/spn/utils.go
index 899c046..0563d72 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -265,7 +265,7 @@ func norm(v []float64) {
 	}
 	if min < 0 {
 		for i := range v {
-			v[i] += min
+			v[i] -= min
 		}
 	}
 
-- 
2.43.0


From 7b3d61afdaa57f95ea0f60f918b8604d54481b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:06 +0000
Subject: [PATCH 12/69] fix: serialise weights and probabilities at full
 precision

---
 spn/multinom.go | 2 +-
 spn/sum.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 9043ac6..5945fe5 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -220,7 +220,7 @@ func (m *Multinomial) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d %d", m.varid, len(m.pr))
 	for _, p := range m.pr {
-		fmt.Fprintf(&b, " %f", p)
+		fmt.Fprintf(&b, " %g", p)
 	}
 	return b.Bytes(), nil
 }
diff --git a/spn/sum.go b/spn/sum.go
index e032cd9..4666fe3 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -138,7 +138,7 @@ func (s *Sum) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d", len(s.w))
 	for _, w := range s.w {
-		fmt.Fprintf(&b, " %f", w)
+		fmt.Fprintf(&b, " %g", w)
 	}
 	return b.Bytes(), nil
 }
-- 
2.43.0


From 5f085d935fdfff40fd74a5aa6514db19dfbafc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:06 +0000
Subject: [PATCH 13/69] fix: restore the scope of an indicator when it is
 decoded

---
 spn/indicator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spn/indicator.go b/spn/indicator.go
index a9e0fd0..7b49d7c 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -71,5 +71,6 @@ func (i *Indicator) GobEncode() ([]byte, error) {
 func (i *Indicator) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
 	_, err := fmt.Fscanf(b, "%d %d", &i.varid, &i.v)
+	i.sc = []int{i.varid}
 	return err
 }
-- 
2.43.0


From bb6a2a4c7d8a5ed1d3977adaa927a988c7fa3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:06 +0000
Subject: [PATCH 14/69] fix: decode variables whose name is empty or contains
 spaces

---
 learn/variable.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/learn/variable.go b/learn/variable.go
index fcc9157..abbc2f1 100644
--- a/learn/variable.go
+++ b/learn/variable.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/RenatoGeh/gospn/spn"
 	"github.com/RenatoGeh/gospn/utils"
+	"strings"
 )
 
 func init() {
@@ -29,8 +30,13 @@ func (v *Variable) GobEncode() ([]byte, error) {
 
 func (v *Variable) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
-	_, err := fmt.Fscanln(b, &v.Varid, &v.Categories, &v.Name)
-	return err
+	_, err := fmt.Fscan(b, &v.Varid, &v.Categories)
+	if err != nil {
+		return err
+	}
+	// The name is whatever is left: it may be empty or contain spaces.
+	v.Name = strings.TrimSuffix(strings.TrimPrefix(b.String(), " "), "\n")
+	return nil
 }
 
 type Scope map[int]*Variable
-- 
2.43.0


From 242a8ef08c8638a09f983099ac8d9c2a165404b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:56 +0000
Subject: [PATCH 15/69] fix: return ln 0 instead of NaN from LogSum and
 LogSumPair when there is nothing to add up

---
 utils/log.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/log.go b/utils/log.go
index 49de4a3..a14f8f2 100644
--- a/utils/log.go
+++ b/utils/log.go
@@ -50,6 +50,9 @@ func LogSum(p []float64) float64 {
 			pi = lp
 		}
 	}
+	if pi == LogZero {
+		return pi
+	}
 
 	lg := 0.0
 	for i := 0; i < n; i++ {
@@ -86,6 +89,12 @@ func AntiLog(l float64) float64 {
 // LogSumPair is the result of the operation:
 // 	ln(p1+p2)=ln(p1)+ln(1+p2/p1)
 func LogSumPair(p1, p2 float64) float64 {
+	if p1 < p2 {
+		p1, p2 = p2, p1
+	}
+	if p1 == 0 {
+		return LogZero
+	}
 	return Log(p1) + Log(1.0+(p2/p1))
 }
 
-- 
2.43.0


From 061f9310fe6cef74aa2640805caa4d624da94c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 16/69] fix: sum out an unset Gaussian of zero deviation
 instead of returning probability zero

---
 spn/gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 9a2f630..330aa09 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -115,7 +115,7 @@ func NewGaussianFit(varid int, counts []float64) *Gaussian {
 func (g *Gaussian) Type() string { return "leaf" }
 
 func zeroSigma(v int, ok bool, mu float64) float64 {
-	if ok && v == int(mu) {
+	if !ok || v == int(mu) {
 		return 0
 	}
 	return math.Inf(-1)
-- 
2.43.0


From 3b40de47459264c952588a67ff450e0631573c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 17/69] fix: respect the evidence in ArgMax of a Gaussian of
 zero deviation

---
 spn/gaussian.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 330aa09..bcb6d77 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -154,8 +154,11 @@ func (g *Gaussian) ArgMax(val VarSet) (VarSet, float64) {
 	v, ok := val[g.varid]
 
 	if g.dist.Sigma == 0 {
-		retval[g.varid] = int(g.dist.Mu)
-		return retval, 0.0
+		if !ok {
+			v = int(g.dist.Mu)
+		}
+		retval[g.varid] = v
+		return retval, zeroSigma(v, ok, g.dist.Mu)
 	} else if ok {
 		retval[g.varid] = v
 		z := g.dist.LogProb(float64(v))
-- 
2.43.0


From 21f14b79c343b0803e480dd88952541caa1ef73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 18/69] fix: centre NewGaussianMode on the mode

---
 spn/gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index bcb6d77..5a03fa2 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -89,7 +89,7 @@ func NewGaussianMode(varid int, counts []int) *Gaussian {
 	for i := 0; i < n; i++ {
 		c := float64(counts[i])
 		if c > max {
-			max = c
+			max, mode = c, float64(i)
 		}
 		d := float64(i) - mean
 		sd += (c / float64(N)) * d * d
-- 
2.43.0


From 655e35252ff53ec1bcc16ffb38d0ff27343393b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 19/69] fix: weight the deviations by their probability in
 Multinomial.StdDev and MuSigma

---
 spn/multinom.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 5945fe5..b60859e 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -195,11 +195,11 @@ func (m *Multinomial) Mean() float64 {
 func (m *Multinomial) StdDev() float64 {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return sd
 }
 
@@ -207,11 +207,11 @@ func (m *Multinomial) StdDev() float64 {
 func (m *Multinomial) MuSigma() (float64, float64) {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return mu, sd
 }
 
-- 
2.43.0


From 81deb7a419fdb8ea1877a01d8b54e61438c6d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:14 +0000
Subject: [PATCH 20/69] fix: keep the first element of a queue when its last
 one is removed

---
 common/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/queue.go b/common/queue.go
index a837b68..a54e6db 100644
--- a/common/queue.go
+++ b/common/queue.go
@@ -33,7 +33,7 @@ func (q *Queue) DequeueBack() interface{} {
 	n := len(q.data) - 1
 	e := q.data[n]
 	q.data[n] = nil
-	q.data = q.data[1:n]
+	q.data = q.data[:n]
 	if q.cap > sys.MemLowBoundShrink && q.cap >= (len(q.data)<<1) {
 		q.Shrink()
 	}
-- 
2.43.0


From 80754ef1dadc7e71151255958344383a9e925a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:27 +0000
Subject: [PATCH 21/69] fix: never round the size of a part of a partition
 below zero

---
 data/manipulate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index cdcb80c..c792cc2 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -13,7 +13,8 @@ func cascadeRounding(p []float64) []int {
 	var t int
 	for i := range p {
 		s += p[i]
-		q[i] = int(math.Round(s - float64(t)))
+		// Round halves up, so that no part gets a negative size.
+		q[i] = int(math.Floor(s - float64(t) + 0.5))
 		t += q[i]
 	}
 	return q
-- 
2.43.0


From 1a14cabf13d14dd99222d3769a18491b8e5cff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:27 +0000
Subject: [PATCH 22/69] fix: give the leftover instances of their own class to
 the partition in PartitionByLabels

---
 data/manipulate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index c792cc2..6ced05c 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -158,7 +158,7 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 		for K[i] < len(R[i]) {
 			l := R[i][K[i]]
 			V := make(map[int]int)
-			copyMap(V, D[l])
+			copyMap(V, D[C[i][l]])
 			M[di] = append(M[di], V)
 			U[di] = append(U[di], i)
 			K[i]++
-- 
2.43.0


From b162e43296c2ed8a51adcda4f85a4b11bc4394c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:27 +0000
Subject: [PATCH 23/69] fix: compare lengths and the variables present in
 Identical

---
 data/manipulate.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 6ced05c..b4cfb2e 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -295,17 +295,25 @@ func Identical(D []map[int]int, E []map[int]int, L []int, M []int) bool {
 	if c && (len(L) != len(D) || len(M) != len(E)) {
 		panic("Length of dataset does not match length of labels.")
 	}
+	if len(D) != len(E) {
+		return false
+	}
 	for i, I := range D {
 		J := E[i]
+		if len(I) != len(J) {
+			return false
+		}
 		for k, v := range I {
-			if v != J[k] {
+			if u, e := J[k]; !e || v != u {
 				return false
 			}
 		}
 	}
-	for i, l := range L {
-		if M[i] != l {
-			return false
+	if c {
+		for i, l := range L {
+			if M[i] != l {
+				return false
+			}
 		}
 	}
 	return true
-- 
2.43.0


From be633f40efbb8f27cd60d05b6b3efeff7ba4e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:27 +0000
Subject: [PATCH 24/69] fix: do not write to nil slices when Divide gets fewer
 instances than parts

---
 data/manipulate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index b4cfb2e..77b6a85 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -344,8 +344,8 @@ func Divide(D []map[int]int, L []int, n int) ([][]map[int]int, [][]int) {
 		for i, I := range D {
 			M := make(map[int]int)
 			copyMap(M, I)
-			Gd[0][i] = M
-			Gl[0][i] = L[i]
+			Gd[0] = append(Gd[0], M)
+			Gl[0] = append(Gl[0], L[i])
 		}
 		return Gd, Gl
 	}
-- 
2.43.0


From caf0da6b50dab52c3059b97ebdf3495627cc8d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:03 +0000
Subject: [PATCH 25/69] fix: do not divide by zero when scoring fewer than ten
 instances

---
 score/score.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/score/score.go b/score/score.go
index 0265655..88709a8 100644
--- a/score/score.go
+++ b/score/score.go
@@ -73,7 +73,7 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -94,7 +94,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -166,7 +166,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 				}
 				mu.Lock()
 				s.Register(ml, h[j])
-				if _n := s.total; (_n > 0) && (_n%(len(D)/10) == 0) {
+				if _n, d := s.total, len(D)/10; d > 0 && _n%d == 0 {
 					sys.Printf("... %d%% ...\n", int(100.0*(float64(_n)/float64(len(D)))))
 				}
 				mu.Unlock()
-- 
2.43.0


From 8b9a0f373af03e974392b2fbaec7d32e99066652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:03 +0000
Subject: [PATCH 26/69] fix: do not add a label to unlabelled instances when
 scoring them

---
 score/score.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/score/score.go b/score/score.go
index 88709a8..10f188e 100644
--- a/score/score.go
+++ b/score/score.go
@@ -76,12 +76,14 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
+		l, labelled := I[v]
 		delete(I, v)
 		_, _, M := spn.StoreMAP(N, I, tk, st)
 		s.Register(M[v], L[i])
 		st.Reset(tk)
-		I[v] = l
+		if labelled {
+			I[v] = l
+		}
 	}
 }
 
@@ -97,7 +99,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
+		l, labelled := I[v]
 		delete(I, v)
 		spn.StoreInference(N, I, tk, st)
 		pe, _ := st.Single(tk, N)
@@ -115,7 +117,9 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		}
 		s.Register(ml, L[i])
 		st.Reset(tk)
-		I[v] = l
+		if labelled {
+			I[v] = l
+		}
 	}
 }
 
-- 
2.43.0


From e430d175378df6290dc4b8a467d9e0addbedac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:03 +0000
Subject: [PATCH 27/69] fix: start one job per part in EvaluatePosteriorConc
 when there are fewer instances than jobs

---
 score/score.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/score.go b/score/score.go
index 10f188e..4389342 100644
--- a/score/score.go
+++ b/score/score.go
@@ -147,7 +147,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 
 	k = Q.Allowed()
 	G, H := data.Divide(D, L, k)
-	for i := 0; i < k; i++ {
+	for i := range G {
 		Q.Run(func(id int) {
 			g, h := G[id], H[id]
 			st := spn.NewStorer()
-- 
2.43.0


From 7efb321fa5dca63e820c5cb2415f8a74b7a68d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:03 +0000
Subject: [PATCH 28/69] fix: do not share memory between a score and a sum of
 scores

---
 score/score.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/score.go b/score/score.go
index 4389342..e3fb826 100644
--- a/score/score.go
+++ b/score/score.go
@@ -209,7 +209,8 @@ func Add(s, t *S) *S {
 	m.hits = s.hits + t.hits
 	m.misses = s.misses + t.misses
 	m.total = s.total + t.total
-	m.predictions = append(s.predictions, t.predictions...)
+	m.predictions = append(m.predictions, s.predictions...)
+	m.predictions = append(m.predictions, t.predictions...)
 	return m
 }
 
-- 
2.43.0


From a6d7d990d66074016ea4c4174990cba5bfc27ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:54 +0000
Subject: [PATCH 29/69] fix: DBSCANData labels instances with the index of
 their cluster

It used the index of the cluster's representative instance, which is out of
range of the clusters it returns.
---
 utils/cluster/dbscan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 5d52a7a..63dfd04 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -108,11 +108,11 @@ func DBSCANData(data []map[int]int, eps float64, mp int) [][]map[int]int {
 	rgs := dbscanInternal(M, eps, mp)
 	G := make([]int, len(M))
 	var k int
-	for i, u := range rgs {
+	for _, u := range rgs {
 		if u.Pa == u {
 			ch := utils.UFVarids(u)
 			for _, c := range ch {
-				G[c] = i
+				G[c] = k
 			}
 			k++
 		}
-- 
2.43.0


From fa03be677185fe0a345df7402e32e53ee8a6b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:54 +0000
Subject: [PATCH 30/69] fix: DBSCAN counts every neighbour of a point for its
 density

Neighbours already in the point's cluster were left out, so a core point
reached from another one stopped being a core point and the clusters
depended on the order of the instances.
---
 utils/cluster/dbscan.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 63dfd04..b764ef3 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -36,22 +36,25 @@ func dbscanInternal(data [][]float64, eps float64, mp int) []*utils.UFNode {
 		p := queue.Dequeue().(int)
 
 		// Neighbourhood of p.
-		nbh := common.Queue{}
+		nbh, dens := common.Queue{}, 0
 
 		for i := 0; i < n; i++ {
 			// Clause 1 (i != p):
 			//  Pairs must be distinct.
 			// Clause 2 (dmatrix[p][i] <= eps):
 			//  Distance must be <= the epsilon parameter of max distance.
-			// Clause 3 (utils.Find(rgs[i]) != utils.Find(rgs[p])):
-			//  Pair is not already in the same cluster.
-			if (i != p) && (dmatrix[p][i] <= eps) && (utils.Find(rgs[i]) != utils.Find(rgs[p])) {
-				nbh.Enqueue(i)
+			if (i != p) && (dmatrix[p][i] <= eps) {
+				dens++
+				// Clause 3 (utils.Find(rgs[i]) != utils.Find(rgs[p])):
+				//  Pair is not already in the same cluster.
+				if utils.Find(rgs[i]) != utils.Find(rgs[p]) {
+					nbh.Enqueue(i)
+				}
 			}
 		}
 
 		// Found dense neighbourhood.
-		if nbh.Size() >= mp {
+		if dens >= mp {
 			for !nbh.Empty() {
 				q := nbh.Dequeue().(int)
 				utils.Union(rgs[p], rgs[q])
-- 
2.43.0


From 9829cb60e9ab38043aed927d74c935709006b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:54 +0000
Subject: [PATCH 31/69] fix: KMedoid no longer panics when there are fewer
 distinct instances than clusters

---
 utils/cluster/kmedoid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cluster/kmedoid.go b/utils/cluster/kmedoid.go
index debe94b..86e94c7 100644
--- a/utils/cluster/kmedoid.go
+++ b/utils/cluster/kmedoid.go
@@ -91,7 +91,7 @@ func KMedoid(k int, data [][]int) []map[int][]int {
 			which = v
 			min = metrics.Hamming(clusters[which][means[which]], data[i])
 		}
-		for j := 0; j < k; j++ {
+		for j := range means {
 			if j != which {
 				t := metrics.Hamming(clusters[j][means[j]], data[i])
 				if t < min {
-- 
2.43.0


From ffc457159f81ac329c4491ed21e1a7cc3fb33d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:54 +0000
Subject: [PATCH 32/69] fix: OPTICS no longer panics on core points and expands
 their neighbours

The list of distances started with n nil entries, the seeds updated were the
point itself rather than its neighbours, and the queue was used without
keeping the heap ordered.
---
 utils/cluster/optics.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/cluster/optics.go b/utils/cluster/optics.go
index 7d95bc2..1bb6232 100644
--- a/utils/cluster/optics.go
+++ b/utils/cluster/optics.go
@@ -83,7 +83,7 @@ func getCoreDist(nb []*object, o *object, eps float64, mp int) float64 {
 	if n < mp {
 		return undef
 	}
-	dists, p1 := make([]*objDist, n), o.data
+	dists, p1 := make([]*objDist, 0, n), o.data
 	for i := 0; i < n; i++ {
 		dists = append(dists, &objDist{dist: distance(p1, nb[i].data), index: i})
 	}
@@ -141,12 +141,12 @@ func seedsUpdate(nb []*object, o *object, pq *pQueue) {
 	for i := 0; i < n; i++ {
 		if !nb[i].vst {
 			rdist := max(cdist, distance(p1, nb[i].data))
-			if o.rdist == undef {
-				o.rdist = rdist
-				pq.Push(&item{obj: o, p: rdist})
-			} else if rdist < o.rdist {
-				o.rdist = rdist
-				pq.update(o, rdist)
+			if nb[i].rdist == undef {
+				nb[i].rdist = rdist
+				heap.Push(pq, &item{obj: nb[i], p: rdist})
+			} else if rdist < nb[i].rdist {
+				nb[i].rdist = rdist
+				pq.update(nb[i], rdist)
 			}
 		}
 	}
@@ -161,7 +161,7 @@ func expand(set []*object, o *object, eps float64, mp int, order *qObj, pq *pQue
 	if o.cdist != undef {
 		seedsUpdate(nb, o, pq)
 		for len(*pq) != 0 {
-			co := pq.Pop().(*item).obj
+			co := heap.Pop(pq).(*item).obj
 			nb := getNeighbors(set, co, eps)
 			co.vst = true
 			co.cdist = getCoreDist(nb, co, eps, mp)
-- 
2.43.0


From b04d68b9401bd6ccfbb81f50c65f1d0b4bf114e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:54 +0000
Subject: [PATCH 33/69] fix: KMeansData and KMeansFData no longer lose
 instances

They keyed the instances of a cluster by the map from columns to variables.
---
 utils/cluster/kmeans.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index b83441a..a680e01 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -123,8 +123,8 @@ func KMeans(k int, data [][]int) []map[int][]int {
 }
 
 func KMeansData(k int, data []map[int]int) []map[int][]int {
-	D, Sc := learn.DataToMatrix(data)
-	return KMeansMuesli(k, D, Sc)
+	D, _ := learn.DataToMatrix(data)
+	return KMeansMuesli(k, D, nil)
 }
 
 func OldKMeans(k int, data [][]int) []map[int][]int {
@@ -220,8 +220,8 @@ func KMeansF(k int, D [][]float64, sc map[int]int) []map[int][]float64 {
 }
 
 func KMeansFData(k int, D []map[int]int) []map[int][]float64 {
-	E, Sc := learn.DataToMatrixF(D)
-	return KMeansMuesliF(k, E, Sc)
+	E, _ := learn.DataToMatrixF(D)
+	return KMeansMuesliF(k, E, nil)
 }
 
 func OldKMeansF(k int, D [][]float64, F metrics.MetricF) []map[int][]float64 {
-- 
2.43.0


From 5019f6c89135eca06928659d729412d47c64717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:35 +0000
Subject: [PATCH 34/69] fix: k-modes keeps the mode of a cluster when an
 instance leaves it

The counts of values were compared with an index instead of with the best
count.
---
 utils/cluster/kmeans.go | 2 +-
 utils/cluster/kmode.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index a680e01..88a9649 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -27,7 +27,7 @@ func kMeansRemove(which int, means map[int][]int, clusters []map[int][]int, v []
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
diff --git a/utils/cluster/kmode.go b/utils/cluster/kmode.go
index 49342f1..359cd29 100644
--- a/utils/cluster/kmode.go
+++ b/utils/cluster/kmode.go
@@ -24,7 +24,7 @@ func kModeRemove(which int, means map[int][]int, clusters []map[int][]int, v []i
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
-- 
2.43.0


From 52e7eb19258596cf88f4ca369897386b5a6503b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:32 +0000
Subject: [PATCH 35/69] fix: no Gaussians with undefined parameters for
 quantiles without values

With fewer values than quantiles, or when rounding leaves nothing for the last
one, PartitionQuantiles returned a mean and deviation of 0/0.
---
 learn/dennis/region.go |  2 +-
 learn/poon/poon.go     |  2 +-
 utils/stats.go         | 10 +++++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 0e805dd..76b605e 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -33,8 +33,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 			mu, sigma := utils.MuSigma(X)
 			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
 		} else {
-			r.rep = make([]spn.SPN, g)
 			Q := utils.PartitionQuantiles(X, g)
+			r.rep = make([]spn.SPN, len(Q))
 			for i, q := range Q {
 				r.rep[i] = spn.NewGaussianParams(v, q[0], q[1])
 			}
diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 4077f0f..aea69a2 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -111,7 +111,7 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	sort.Ints(V)
 	//sys.Printf("p: %d\n", p)
 	Q := utils.PartitionQuantiles(V, n)
-	S := make([]spn.SPN, n)
+	S := make([]spn.SPN, len(Q))
 	//s := spn.NewSum()
 	for i, q := range Q {
 		g := spn.NewGaussianParams(p, q[0], q[1])
diff --git a/utils/stats.go b/utils/stats.go
index 5f240b6..edc6221 100644
--- a/utils/stats.go
+++ b/utils/stats.go
@@ -56,7 +56,7 @@ func MuSigma(c []int) (float64, float64) {
 
 // PartitionQuantiles takes a slice of values X of a single variable from the dataset and the
 // number m of quantiles to partition the data. Returns a slice of pair of values containing mean
-// and standard deviation (in this order).
+// and standard deviation (in this order). Quantiles with no values are left out.
 func PartitionQuantiles(X []int, m int) [][]float64 {
 	k := len(X)
 	var l int
@@ -65,7 +65,7 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 	} else {
 		l = int(floats.Round(float64(k)/float64(m), 0))
 	}
-	P := make([][]float64, m)
+	P := make([][]float64, 0, m)
 	for i := 0; i < m; i++ {
 		q := (i + 1) * l
 		if i == m-1 {
@@ -75,6 +75,10 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 		for j := i * l; j < q && j < k; j++ {
 			Q = append(Q, X[j])
 		}
+		// There may be fewer values than quantiles.
+		if len(Q) == 0 {
+			continue
+		}
 		// Compute mean and standard deviation.
 		var mu, sigma float64
 		n := float64(len(Q))
@@ -90,7 +94,7 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 		if sigma == 0 {
 			sigma = 0.5
 		}
-		P[i] = []float64{mu, sigma, n}
+		P = append(P, []float64{mu, sigma, n})
 	}
 	return P
 }
-- 
2.43.0


From 45cfbd0083a6f67411bc57a456bd268b5535ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:33 +0000
Subject: [PATCH 36/69] fix: PartitionQuantiles sorts the values it partitions

Only one of its callers did, so the others fitted Gaussians to blocks of
arbitrary values and learned networks that depended on the order of the data.
---
 utils/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/stats.go b/utils/stats.go
index edc6221..f887fb2 100644
--- a/utils/stats.go
+++ b/utils/stats.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"gonum.org/v1/gonum/floats"
 	"math"
+	"sort"
 )
 
 // Mean returns the mean of a slice.
@@ -59,6 +60,8 @@ func MuSigma(c []int) (float64, float64) {
 // and standard deviation (in this order). Quantiles with no values are left out.
 func PartitionQuantiles(X []int, m int) [][]float64 {
 	k := len(X)
+	X = append([]int(nil), X...)
+	sort.Ints(X)
 	var l int
 	if k/m <= 1 {
 		l = 1
-- 
2.43.0


From 846b353b24f90847327a523b18d2bb03d90ca091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:13 +0000
Subject: [PATCH 37/69] fix: fit a single Gaussian to the values of a variable

MuSigma takes counts, but the values themselves were passed to it.
---
 learn/dennis/region.go | 4 ++--
 learn/poon/poon.go     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 76b605e..88c1cb3 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -30,8 +30,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 		}
 		X := learn.ExtractInstance(v, D)
 		if g > len(D) {
-			mu, sigma := utils.MuSigma(X)
-			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
+			q := utils.PartitionQuantiles(X, 1)[0]
+			r.rep = []spn.SPN{spn.NewGaussianParams(v, q[0], q[1])}
 		} else {
 			Q := utils.PartitionQuantiles(X, g)
 			r.rep = make([]spn.SPN, len(Q))
diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index aea69a2..9d35158 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -104,8 +104,8 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	}
 
 	if n == 1 {
-		mu, sigma := utils.MuSigma(V)
-		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, mu, sigma)}, 1)
+		q := utils.PartitionQuantiles(V, 1)[0]
+		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, q[0], q[1])}, 1)
 	}
 
 	sort.Ints(V)
-- 
2.43.0


From f12f0686669d5c7ca3484184e1ad0ef51eddd8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:14 +0000
Subject: [PATCH 38/69] fix: poon no longer panics with a resolution of one

Regions of sum nodes had no room for their best decompositions when the step
between regions was one.
---
 learn/poon/poon.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 9d35158..9973cf5 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -58,9 +58,7 @@ type decomp struct {
 
 func newRegion(id int, inner []spn.SPN, step int) *region {
 	var d []*decomp
-	if step == 1 {
-		d = nil
-	} else {
+	if id != gmixtureId {
 		d = make([]*decomp, len(inner))
 	}
 	return &region{id, inner, step, -1, 100, 100, d}
-- 
2.43.0


From cd4300303830ec080a3b5e6e34db955270c37086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:14 +0000
Subject: [PATCH 39/69] fix: poon has a single root when the image is a single
 coarse block

The region of the whole image had several sum nodes then, and the first of
them, used or not, was returned.
---
 learn/poon/poon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 9973cf5..e2a84ea 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -162,7 +162,11 @@ func createRegions(D spn.Dataset, m, g, r int) map[uint64]*region {
 							if x == 1 && y == 1 {
 								R = createUnitRegion(x1, y1, g, D)
 							} else {
-								R = createRegion(m, r)
+								if x == w && y == h {
+									_, R = createSum(x1, y1, x2, y2, r)
+								} else {
+									R = createRegion(m, r)
+								}
 								if x2-x1 <= r || y2-y1 <= r {
 									R.step = 1
 								}
-- 
2.43.0


From 1ce0b8b791a6ef611076b2f941bcab48bf45dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:15 +0000
Subject: [PATCH 40/69] fix: poon connects the chosen sum node to an existing
 decomposition

When another sum node of the region already had the decomposition, the chosen
one was left without children though products above refer to it, so that
the network was neither complete nor over all pixels.
---
 learn/poon/poon.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index e2a84ea..fe0cba4 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -458,6 +458,7 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 	}
 	R.mapIndex = mapSumOpts[sys.RandIntn(len(mapSumOpts))]
 	bD := R.bestDecomp[R.mapIndex]
+	sum := R.inner[R.mapIndex].(*spn.Sum)
 	if !existsDecomp(bD, existingDecomps) {
 		pi := spn.NewProduct()
 		S, T := L[bD.p], L[bD.q]
@@ -465,7 +466,6 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 		pi.AddChild(s)
 		pi.AddChild(t)
 		//sys.Printf("(%d, %d, %d, %d)\n", x1, y1, x2, y2)
-		sum := R.inner[R.mapIndex].(*spn.Sum)
 		sum.AddChildW(pi, 1.0)
 		storeDecomp(bD, existingDecomps)
 		storeProd(pi, bD, decompToProd)
@@ -474,11 +474,23 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 		counts.StoreSingle(pi, c+1.0)
 	} else {
 		pi := extractProd(bD, decompToProd)
+		if !hasChild(sum, pi) {
+			sum.AddChildW(pi, 1.0)
+		}
 		c, _ := counts.Single(pi)
 		counts.StoreSingle(pi, c+1.0)
 	}
 }
 
+func hasChild(s *spn.Sum, p spn.SPN) bool {
+	for _, c := range s.Ch() {
+		if c == p {
+			return true
+		}
+	}
+	return false
+}
+
 func equalsDecomp(d, e *decomp) bool {
 	return d.p == e.p && d.q == e.q && d.r == e.r && d.s == e.s
 }
-- 
2.43.0


From 8c37adae798f342d171e5a77464f8f5cbc5546c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 41/69] fix: ParsePartitionedData honours a new seed

---
 io/input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/input.go b/io/input.go
index 7abf64f..69e503b 100644
--- a/io/input.go
+++ b/io/input.go
@@ -294,7 +294,7 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 	if rseed < 0 {
 		rint = rand.Intn
 	} else {
-		if glrseed < 0 {
+		if glrseed != rseed {
 			glrand, glrseed = rand.New(rand.NewSource(rseed)), rseed
 		}
 		rint = glrand.Intn
-- 
2.43.0


From aaf337ea21ba42e5448b43729fe1c5600da27bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 42/69] fix: ParseArff gives an undeclared class its own
 category

---
 io/arff.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index 7f8c736..f83c16d 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -290,8 +290,10 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 				} else /* class */ {
 					tk := v[j]
 					if _, e := labels[j][tk]; !e {
-						labels[j][tk] = counts[j]
-						counts[j]++
+						_tv := sc[j]
+						labels[j][tk] = _tv.Categories
+						_tv.Categories++
+						sc[j] = _tv
 					}
 					vals[i][j] = labels[j][tk]
 				}
-- 
2.43.0


From dd838adc406c44893837e54fa9056ce9f2c7a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 43/69] fix: ParseArff skips empty lines

---
 io/arff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/io/arff.go b/io/arff.go
index f83c16d..478d401 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -262,6 +262,10 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 			v := strings.FieldsFunc(line, func(c rune) bool {
 				return c == ' ' || c == ','
 			})
+			// Empty lines are no instances.
+			if len(v) == 0 {
+				continue
+			}
 
 			vals = append(vals, make(map[int]int))
 			for j := range v {
-- 
2.43.0


From cd8e1feb465d053c9bddbd54a890a988c400faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 44/69] fix: ARFFToData skips comments and empty lines in the
 data

---
 io/arff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/arff.go b/io/arff.go
index 478d401..c8cf87e 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -80,7 +80,7 @@ func ARFFToData(dirname, fname, dname string) {
 				}
 			}
 
-		} else {
+		} else if trimmed := strings.TrimSpace(line); trimmed != "" && trimmed[0] != '%' {
 			// start saving your instances
 			instance := strings.Split(line, ",")
 			for i, att := range instance {
-- 
2.43.0


From 16b215951509fa950e66abacc958f48572cc0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 45/69] fix: ARFFToData writes each value once

---
 io/arff.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/io/arff.go b/io/arff.go
index c8cf87e..c70bb78 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -136,7 +136,6 @@ func ARFFToData(dirname, fname, dname string) {
 
 			fmt.Fprintf(write, "%s ", val)
 		}
-		fmt.Fprintf(write, "%s ", inst[len(inst)-1])
 		fmt.Fprintf(write, "\n")
 		fmt.Println("Instance written")
 	}
-- 
2.43.0


From b14e8aa3a192f0b978b5d55bc0546dcf4a33a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 46/69] fix: ARFFToData accepts spaces between classes

---
 io/arff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/arff.go b/io/arff.go
index c70bb78..1d2b476 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -86,7 +86,7 @@ func ARFFToData(dirname, fname, dname string) {
 			for i, att := range instance {
 				// iterate through the attributes in the instance and map them
 				for j, class := range classes[i] {
-					if att == class {
+					if strings.TrimSpace(att) == strings.TrimSpace(class) {
 						instance[i] = strconv.Itoa(j)
 						//fmt.Println("Conversion to string")
 					}
-- 
2.43.0


From 9ae67ee1356e392d99a853b5344d327cb932cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:22 +0000
Subject: [PATCH 47/69] fix: evidence labels point at the first instance of
 each class

---
 io/pbm.go | 2 +-
 io/pgm.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/pbm.go b/io/pbm.go
index 88c49b9..2297751 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -306,6 +306,7 @@ func PBMFToEvidence(dirname, dname string) {
 
 		spath := utils.StringConcat(utils.StringConcat(tpath, subdirs[i]), "/")
 		nsf := len(sf)
+		slabels = append(slabels, len(instreams))
 		for j := 0; j < nsf; j++ {
 			f, err := os.Open(utils.StringConcat(spath, sf[j]))
 
@@ -317,7 +318,6 @@ func PBMFToEvidence(dirname, dname string) {
 
 			instreams = append(instreams, bufio.NewScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
 	}
 
 	// Create compiled folder.
diff --git a/io/pgm.go b/io/pgm.go
index 06a42ef..3d34d30 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -438,6 +438,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 		spath := utils.StringConcat(utils.StringConcat(tpath, subdirs[i]), "/")
 		nsf := len(sf)
+		slabels = append(slabels, len(instreams))
 		for j := 0; j < nsf; j++ {
 			f, err := os.Open(utils.StringConcat(spath, sf[j]))
 
@@ -449,7 +450,6 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 			instreams = append(instreams, bufio.NewScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
 	}
 
 	// Create compiled folder.
-- 
2.43.0


From 7be6afb15bd1dc8d0136989b91a24465bf255f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:22 +0000
Subject: [PATCH 48/69] fix: PGMFToEvidence invents no pixels for blanks at the
 end of a line

---
 io/pgm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/io/pgm.go b/io/pgm.go
index 3d34d30..d63f565 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -516,8 +516,10 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 			tokens := strings.Split(line, " ")
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
-				tkn, _ := strconv.Atoi(tokens[j])
-				fmt.Fprintf(out, "%d ", tkn)
+				tkn, err := strconv.Atoi(tokens[j])
+				if err == nil {
+					fmt.Fprintf(out, "%d ", tkn)
+				}
 			}
 		}
 
-- 
2.43.0


From 0dc88e12e6b41bdb9420dac9c1c810d543c05557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:21 +0000
Subject: [PATCH 49/69] fix: VarSetToPPM declares the text pixmap it writes

---
 io/ppm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/ppm.go b/io/ppm.go
index 76e5555..27ccc54 100644
--- a/io/ppm.go
+++ b/io/ppm.go
@@ -17,7 +17,7 @@ func VarSetToPPM(filename string, state spn.VarSet, w, h, max int) {
 	}
 	defer file.Close()
 
-	fmt.Fprintf(file, "P6\n%d %d\n%d\n", w, h, max)
+	fmt.Fprintf(file, "P3\n%d %d\n%d\n", w, h, max)
 
 	n := len(state)
 	pixels := make([]int, n)
-- 
2.43.0


From 2f02376cee5fa8899016e02fde7c34d5b17807da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:22 +0000
Subject: [PATCH 50/69] fix: the separator of a completed image is no brighter
 than its maximum

---
 io/pgm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/pgm.go b/io/pgm.go
index d63f565..03f6263 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -587,7 +587,7 @@ func ImgCmplToPGM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h, ma
 	n, j := w*h, 0
 	for i := 0; i < n; i++ {
 		if mid(i) {
-			common.DrawColor(file, common.Red)
+			common.DrawColorRGB(file, max, 0, 0)
 			goto cleanup
 		} else if v, eo := orig[j]; eo {
 			common.DrawColorRGB(file, v, v, v)
-- 
2.43.0


From 4e6599d9ad1f6786be3a02cb5e297014f9986139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 51/69] fix: the separator of a completed image lies between
 its halves

---
 io/pbm.go | 5 +++--
 io/pgm.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/io/pbm.go b/io/pbm.go
index 2297751..96b70a5 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -425,15 +425,16 @@ func ImgCmplToPPM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h int
 
 	var mid func(int) bool
 	if typ == Top || typ == Bottom {
+		q := w * (h / 2)
 		h++
 		mid = func(p int) bool {
-			q := w * (h / 2)
 			return p >= q && p < q+w
 		}
 	} else {
+		q := w / 2
 		w++
 		mid = func(p int) bool {
-			return p%w == w/2
+			return p%w == q
 		}
 	}
 
diff --git a/io/pgm.go b/io/pgm.go
index 03f6263..ce2668a 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -569,15 +569,16 @@ func ImgCmplToPGM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h, ma
 
 	var mid func(int) bool
 	if typ == Top || typ == Bottom {
+		q := w * (h / 2)
 		h++
 		mid = func(p int) bool {
-			q := w * (h / 2)
 			return p >= q && p < q+w
 		}
 	} else {
+		q := w / 2
 		w++
 		mid = func(p int) bool {
-			return p%w == w/2
+			return p%w == q
 		}
 	}
 
-- 
2.43.0


From 17d4759c33b1340f3c4accf411eb8d0929954ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 52/69] fix: SplitHalf splits between rows

---
 io/images.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/images.go b/io/images.go
index 8adcb61..b3c39ce 100644
--- a/io/images.go
+++ b/io/images.go
@@ -11,7 +11,7 @@ func SplitHalf(O spn.VarSet, t CmplType, w, h int) (spn.VarSet, spn.VarSet) {
 	n := w * h
 	if t == Top || t == Bottom {
 		for i := 0; i < n; i++ {
-			if i < n/2 {
+			if i < w*(h/2) {
 				P[i] = O[i]
 			} else {
 				Q[i] = O[i]
-- 
2.43.0


From dc781e2c21394615a3e4d3b1850c2fd44060c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 53/69] fix: hues between 300 and 360 degrees are not black

---
 common/color.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/color.go b/common/color.go
index 8a233c8..7c7b5b9 100644
--- a/common/color.go
+++ b/common/color.go
@@ -151,7 +151,6 @@ func hsv2rgb(in hsv) rgb {
 		out.r = t
 		out.g = p
 		out.b = in.v
-	case 5:
 	default:
 		out.r = in.v
 		out.g = p
-- 
2.43.0


From f2bc4b9eb1db6fb4be2fcce7410c1f9244ce8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:50 +0000
Subject: [PATCH 54/69] fix: PrintSPN accepts indicators

---
 spn/print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spn/print.go b/spn/print.go
index f9e4c3b..b07b88e 100644
--- a/spn/print.go
+++ b/spn/print.go
@@ -63,6 +63,8 @@ func PrintSPN(S SPN, filename string) {
 			if st == "*spn.Multinomial" {
 				cc := s.(*Multinomial)
 				mu, sigma = cc.MuSigma()
+			} else if st == "*spn.Indicator" {
+				mu = float64(s.(*Indicator).v)
 			} else /* Gaussian */ {
 				cc := s.(*Gaussian)
 				mu, sigma = cc.dist.Mu, cc.dist.Sigma
-- 
2.43.0


From e6f7784e9571ed118779403788ffb195df90e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:50 +0000
Subject: [PATCH 55/69] fix: drawings of a single leaf show its variable

---
 io/output.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/output.go b/io/output.go
index 7ddadd5..009cabd 100644
--- a/io/output.go
+++ b/io/output.go
@@ -57,7 +57,7 @@ func DrawGraphTools(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "add_node(\"X\")\n\n")
+		fmt.Fprintf(file, "X0 = add_node(\"X_%d\", \"#0066ff\")\n\n", s.Sc()[0])
 		fmt.Fprintf(file, "g.vertex_properties[\"name\"]=vnames\n")
 		fmt.Fprintf(file, "g.vertex_properties[\"color\"]=vcolors\n")
 		fmt.Fprintf(file, "\ngraph_draw(g, vertex_text=g.vertex_properties[\"name\"], "+
@@ -167,7 +167,7 @@ func DrawGraph(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "X1 [label=<X<sub>1</sub>>,shape=circle];\n")
+		fmt.Fprintf(file, "X0 [label=<X<sub>%d</sub>>,shape=circle];\n", s.Sc()[0])
 		fmt.Fprintf(file, "}")
 		file.Close()
 		return
-- 
2.43.0


From e4b48e8181f35f3978d79b1b7fb8df3e94bbef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:52 +0000
Subject: [PATCH 56/69] fix: ImgTest draws each completion by its own half

---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 5de9eef..48de62f 100644
--- a/app/image.go
+++ b/app/image.go
@@ -255,7 +255,7 @@ func ImgTest(filename string, m, g, r int, eta, eps float64) {
 		//spn.NormalizeSPN(S)
 		for _, q := range io.Quadrants {
 			cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, io.Left, sys.Width, sys.Height, sys.Max)
+			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 		}
 	}
 }
-- 
2.43.0


From 7e50c5a23df87669dbd96428f2be77f6699c829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:52 +0000
Subject: [PATCH 57/69] fix: the jobs of ImgTestParallel name their files by
 their own instance

---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 48de62f..3289119 100644
--- a/app/image.go
+++ b/app/image.go
@@ -320,7 +320,7 @@ func ImgTestParallel(filename string, m, g, r int, eta, eps float64, concurrents
 			S := dennis.LearnGD(train, lsc, 1, m, g, 0.95, P, id)
 			for _, q := range io.Quadrants {
 				cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
+				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, id), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 			}
 			sys.Printf("Ending job %d\n", id)
 
-- 
2.43.0


From 6074887d52a5018bb64713ed056ca1b7affc1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:05 +0000
Subject: [PATCH 58/69] fix: matrix forms of an empty dataset

---
 learn/variable.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/learn/variable.go b/learn/variable.go
index abbc2f1..7fa0d83 100644
--- a/learn/variable.go
+++ b/learn/variable.go
@@ -55,7 +55,7 @@ func ExtractInstance(v int, D spn.Dataset) []int {
 // variable's varid in D's scope is equivalent to its map position and the scope's maximum varid is
 // equal to the number of variables in D plus one (i.e. there are no "holes" in the scope).
 func CompleteDataToMatrix(D spn.Dataset) [][]int {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil
 	}
 	n := len(D)
@@ -72,7 +72,7 @@ func CompleteDataToMatrix(D spn.Dataset) [][]int {
 
 // DataToMatrix returns a Dataset's matrix form. Assumes a consistent dataset.
 func DataToMatrix(D spn.Dataset) ([][]int, map[int]int) {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil, nil
 	}
 	n := len(D)
@@ -104,7 +104,7 @@ func DataToMatrix(D spn.Dataset) ([][]int, map[int]int) {
 // variable's varid in D's scope is equivalent to its map position and the scope's maximum varid is
 // equal to the number of variables in D plus one (i.e. there are no "holes" in the scope).
 func CompleteDataToMatrixF(D spn.Dataset) [][]float64 {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil
 	}
 	n := len(D)
@@ -121,7 +121,7 @@ func CompleteDataToMatrixF(D spn.Dataset) [][]float64 {
 
 // DataToMatrixF returns a Dataset's matrix form. Assumes a consistent dataset.
 func DataToMatrixF(D spn.Dataset) ([][]float64, map[int]int) {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil, nil
 	}
 	n := len(D)
-- 
2.43.0


From 94625677e082fc324ca57a16c921dc9b475f1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:06 +0000
Subject: [PATCH 59/69] fix: SetLogFile sets the log file

---
 sys/print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sys/print.go b/sys/print.go
index b5acc08..268140e 100644
--- a/sys/print.go
+++ b/sys/print.go
@@ -17,7 +17,11 @@ func SetLogFile(filename string) (*os.File, error) {
 		return nil, nil
 	}
 	f, err := os.Create(filename)
-	return f, err
+	if err != nil {
+		return nil, err
+	}
+	fout = f
+	return f, nil
 }
 
 // LogFile returns the log file. The default log file is os.Stdout, which is the standard output
-- 
2.43.0


From c5f1ea980949674ad62a5e42b789853e595b6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:08 +0000
Subject: [PATCH 60/69] fix: leaves report the parameters bound to them

---
 spn/gaussian.go  | 12 ++++++++++++
 spn/indicator.go | 12 ++++++++++++
 spn/multinom.go  | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 5a03fa2..baa9845 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -1,6 +1,7 @@
 package spn
 
 import (
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	//"github.com/RenatoGeh/gospn/sys"
 	"bytes"
 	"fmt"
@@ -199,3 +200,14 @@ func (g *Gaussian) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (g *Gaussian) SubType() string { return "gaussian" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (g *Gaussian) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(g)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(g, p)
+	}
+	return p
+}
diff --git a/spn/indicator.go b/spn/indicator.go
index 7b49d7c..f3368ed 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/utils"
 )
 
@@ -74,3 +75,14 @@ func (i *Indicator) GobDecode(data []byte) error {
 	i.sc = []int{i.varid}
 	return err
 }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (i *Indicator) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(i)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(i, p)
+	}
+	return p
+}
diff --git a/spn/multinom.go b/spn/multinom.go
index b60859e..16b42ca 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/sys"
 	"math"
 )
@@ -248,3 +249,14 @@ func (m *Multinomial) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (m *Multinomial) SubType() string { return "multinomial" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (m *Multinomial) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(m)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(m, p)
+	}
+	return p
+}
-- 
2.43.0


From 746050798f574a95a256ac38c917b528f737411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:58 +0000
Subject: [PATCH 61/69] fix: ReadFromFile reads the file instead of emptying it

---
 io/input.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/io/input.go b/io/input.go
index 69e503b..2d6be41 100644
--- a/io/input.go
+++ b/io/input.go
@@ -336,12 +336,10 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 
 // ReadFromFile reads an SPN from an spn mdl file.
 func ReadFromFile(filename string) spn.SPN {
-	file, err := os.Create(filename)
+	S, err := LoadSPN(filename)
 	if err != nil {
-		fmt.Printf("Error. Could not create file [%s].\n", filename)
+		fmt.Printf("Error. Could not open file [%s].\n", filename)
 		panic(err)
 	}
-	defer file.Close()
-
-	return nil
+	return S
 }
-- 
2.43.0


From 4248b17653c220109e3fc9ce8cada42d1d02d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:47 +0000
Subject: [PATCH 62/69] fix: npy readers invent no instances past the end of
 the data

---
 io/npy.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/io/npy.go b/io/npy.go
index f7e9423..32c7cb1 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -3,6 +3,7 @@ package io
 import (
 	"errors"
 	"github.com/sbinet/npyio"
+	"io"
 	"os"
 )
 
@@ -20,6 +21,7 @@ var (
 
 	ErrNonIntegerType  = errors.New("gospn: npy data type is non integer.")
 	ErrNonDatasetShape = errors.New("gospn: npy data does not have dimension two.")
+	ErrNotEnoughData   = errors.New("gospn: npy data has fewer instances than requested.")
 )
 
 func integerType(t int) int {
@@ -38,6 +40,20 @@ func isValid(t string) int {
 	return -1
 }
 
+// npySource reads from a .npy file. Package npyio takes the end of the file for data, so npySource
+// reports it as an error of its own.
+type npySource struct {
+	f *os.File
+}
+
+func (s npySource) Read(p []byte) (int, error) {
+	n, err := io.ReadFull(s.f, p)
+	if err == io.EOF || err == io.ErrUnexpectedEOF {
+		err = ErrNotEnoughData
+	}
+	return n, err
+}
+
 // NpyReader is a .npy reader. GoSPN supports only integer data for now.
 type NpyReader struct {
 	f *os.File      // File stream.
@@ -52,7 +68,7 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if err != nil {
 		return nil, err
 	}
-	r, err := npyio.NewReader(f)
+	r, err := npyio.NewReader(npySource{f})
 	if err != nil {
 		return nil, err
 	}
@@ -85,6 +101,9 @@ func new_counts(n int, k int) []int {
 // number of entries for each label in the resulting dataset. Argument c is the number of classes
 // in the dataset.
 func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
+	if n > r.s[0] {
+		return nil, nil, ErrNotEnoughData
+	}
 	D := make([]map[int]int, n)
 	L := make([]int, n)
 	y := r.s[1]
@@ -219,6 +238,9 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 
 // read reads .npy file from an *NpyReader, pulling n entries.
 func read(r *NpyReader, n int) ([]map[int]int, []int, error) {
+	if n > r.s[0] {
+		return nil, nil, ErrNotEnoughData
+	}
 	k := n * r.s[1]
 	u := make([]map[int]int, n)
 	l := make([]int, n)
@@ -391,7 +413,7 @@ func (r *NpyReader) ReadBalanced(n int, c int) ([]map[int]int, []int, error) {
 // Reset resets the file pointer so it points to the beginning of data.
 func (r *NpyReader) Reset() error {
 	r.f.Seek(0, 0)
-	nr, err := npyio.NewReader(r.f)
+	nr, err := npyio.NewReader(npySource{r.f})
 	r.r = nr
 	return err
 }
-- 
2.43.0


From 4de4a82a33d59804a46bbe804d8503b56f5dffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:49 +0000
Subject: [PATCH 63/69] fix: reading no instances of npy data gives none

---
 io/npy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index 32c7cb1..0b5c6b2 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -245,6 +245,9 @@ func read(r *NpyReader, n int) ([]map[int]int, []int, error) {
 	u := make([]map[int]int, n)
 	l := make([]int, n)
 	y := r.s[1]
+	if n == 0 {
+		return u, l, nil
+	}
 	switch r.t {
 	case 0:
 		m := make([]uint8, k)
-- 
2.43.0


From 4a74db6cd6e4bf6cd849d245f084530a9f85652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:51 +0000
Subject: [PATCH 64/69] fix: npy data stored by columns are refused instead of
 misread

---
 io/npy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index 0b5c6b2..73ff3f3 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -21,6 +21,7 @@ var (
 
 	ErrNonIntegerType  = errors.New("gospn: npy data type is non integer.")
 	ErrNonDatasetShape = errors.New("gospn: npy data does not have dimension two.")
+	ErrFortranOrder    = errors.New("gospn: npy data is stored by columns (Fortran order).")
 	ErrNotEnoughData   = errors.New("gospn: npy data has fewer instances than requested.")
 )
 
@@ -76,6 +77,9 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if len(s) != 2 {
 		return nil, ErrNonDatasetShape
 	}
+	if r.Header.Descr.Fortran {
+		return nil, ErrFortranOrder
+	}
 	t := isValid(r.Header.Descr.Type)
 	if t < 0 {
 		return nil, ErrNonIntegerType
-- 
2.43.0


From 92245c5272a54488ca1a7d7cd77cd8fb280495de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:18 +0000
Subject: [PATCH 65/69] fix: a download that cannot be started is an error
 instead of a panic

---
 io/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/http.go b/io/http.go
index f316395..8c7cb1a 100644
--- a/io/http.go
+++ b/io/http.go
@@ -44,11 +44,11 @@ func DownloadFromURL(u, p string, override bool) error {
 	}
 	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
 	d, e := http.Get(u)
-	defer d.Body.Close()
 	if e != nil {
-		fmt.Println("Error while downloading [%s].\nStopping download.", u)
+		fmt.Printf("Error while downloading [%s].\nStopping download.\n", u)
 		return e
 	}
+	defer d.Body.Close()
 	_, e = io.Copy(out, d.Body)
 	if e != nil {
 		fmt.Println("Error while copying download to local directory.")
-- 
2.43.0


From fed80d035539e930133e8243a60cb5d7d0699a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:20 +0000
Subject: [PATCH 66/69] fix: the page of an HTTP error is not taken for the
 file

---
 io/http.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/http.go b/io/http.go
index 8c7cb1a..2f1f97f 100644
--- a/io/http.go
+++ b/io/http.go
@@ -49,6 +49,9 @@ func DownloadFromURL(u, p string, override bool) error {
 		return e
 	}
 	defer d.Body.Close()
+	if d.StatusCode != http.StatusOK {
+		return fmt.Errorf("gospn: could not download [%s]: %s", u, d.Status)
+	}
 	_, e = io.Copy(out, d.Body)
 	if e != nil {
 		fmt.Println("Error while copying download to local directory.")
-- 
2.43.0


From b4c04314ce16fd2e4a80f144a7fbd2b32de9d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:23 +0000
Subject: [PATCH 67/69] fix: a failed download leaves no incomplete file behind

---
 io/http.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/io/http.go b/io/http.go
index 2f1f97f..8416dad 100644
--- a/io/http.go
+++ b/io/http.go
@@ -36,12 +36,6 @@ func DownloadFromURL(u, p string, override bool) error {
 		fmt.Println(e)
 		return e
 	}
-	out, e := os.Create(f)
-	defer out.Close()
-	if e != nil {
-		fmt.Println("Error when trying to create file [%s].\n", f)
-		return e
-	}
 	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
 	d, e := http.Get(u)
 	if e != nil {
@@ -52,9 +46,23 @@ func DownloadFromURL(u, p string, override bool) error {
 	if d.StatusCode != http.StatusOK {
 		return fmt.Errorf("gospn: could not download [%s]: %s", u, d.Status)
 	}
+	// The download goes to a temporary file first, so that f is never an incomplete one.
+	t := f + ".part"
+	out, e := os.Create(t)
+	if e != nil {
+		fmt.Printf("Error when trying to create file [%s].\n", t)
+		return e
+	}
 	_, e = io.Copy(out, d.Body)
+	if ce := out.Close(); e == nil {
+		e = ce
+	}
+	if e == nil {
+		e = os.Rename(t, f)
+	}
 	if e != nil {
 		fmt.Println("Error while copying download to local directory.")
+		os.Remove(t)
 		return e
 	}
 	sys.Printf("Download finished.")
-- 
2.43.0


From bc0803cd9f8b1d70416f0080f56340672d8e3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:24 +0000
Subject: [PATCH 68/69] fix: MNIST without its training part is nil instead of
 a panic

---
 data/datasets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/datasets.go b/data/datasets.go
index f7029f5..d5e35b8 100644
--- a/data/datasets.go
+++ b/data/datasets.go
@@ -189,6 +189,9 @@ func pullMNIST(n, b int) (map[int]*learn.Variable, []map[int]int, []map[int]int)
 		return nil, nil, nil
 	}
 	e = io.DownloadFromURL(ur, pr, false)
+	if e != nil {
+		return nil, nil, nil
+	}
 	v, dt := io.ParseData(pt)
 	_, dr := io.ParseData(pr)
 	return v, dt, dr
-- 
2.43.0


From 27b73f6bedd06a5eb146ed8e019fe8314f4497ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 10:24:38 +0000
Subject: [PATCH 69/69] fix: read lines of any length in data, ARFF and image
 files

---
 io/arff.go  |  4 ++--
 io/input.go | 14 +++++++++++---
 io/pbm.go   |  6 +++---
 io/pgm.go   |  8 ++++----
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index 1d2b476..61f4a90 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -34,7 +34,7 @@ func ARFFToData(dirname, fname, dname string) {
 	defer input.Close()
 
 	var lines []string
-	scanner := bufio.NewScanner(input)
+	scanner := newScanner(input)
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
@@ -203,7 +203,7 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 	}
 	defer in.Close()
 
-	stream := bufio.NewScanner(in)
+	stream := newScanner(in)
 	labels = make(map[int]map[string]int)
 	sc = make(map[int]*learn.Variable)
 	var typs []string
diff --git a/io/input.go b/io/input.go
index 2d6be41..055b140 100644
--- a/io/input.go
+++ b/io/input.go
@@ -15,6 +15,14 @@ import (
 	"github.com/RenatoGeh/gospn/spn"
 )
 
+// newScanner returns a line scanner that, unlike bufio's default, does not give up on long lines (an
+// instance of a large image takes a single line).
+func newScanner(f *os.File) *bufio.Scanner {
+	s := bufio.NewScanner(f)
+	s.Buffer(nil, 1<<30)
+	return s
+}
+
 func GetDataPath(dataset string) string {
 	in, _ := filepath.Abs("data/" + dataset + "/compiled")
 	return in
@@ -44,7 +52,7 @@ func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
 
 	sc := make(map[int]*learn.Variable)
 
-	scanner := bufio.NewScanner(file)
+	scanner := newScanner(file)
 
 	var line string
 
@@ -116,7 +124,7 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 
 	sc := make(map[int]*learn.Variable)
 
-	scanner := bufio.NewScanner(file)
+	scanner := newScanner(file)
 
 	var line string
 
@@ -198,7 +206,7 @@ func ParseEvidence(filename string) (map[int]*learn.Variable, []map[int]int, []i
 
 	sc := make(map[int]*learn.Variable)
 
-	scanner := bufio.NewScanner(file)
+	scanner := newScanner(file)
 
 	var line string
 
diff --git a/io/pbm.go b/io/pbm.go
index 96b70a5..8b7074d 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -91,7 +91,7 @@ func PBMFToData(dirname, dname string) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 			labels = append(labels, i)
 		}
 	}
@@ -188,7 +188,7 @@ func PBMToData(dirname, dname string, class int) {
 		}
 		defer in[i].Close()
 
-		instream[i] = bufio.NewScanner(in[i])
+		instream[i] = newScanner(in[i])
 	}
 
 	out, err := os.Create(dname)
@@ -316,7 +316,7 @@ func PBMFToEvidence(dirname, dname string) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 		}
 	}
 
diff --git a/io/pgm.go b/io/pgm.go
index ce2668a..949e24a 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -95,7 +95,7 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 			labels = append(labels, i)
 		}
 	}
@@ -271,7 +271,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 		f.Close()
 		panic(err)
 	}
-	stream := bufio.NewScanner(f)
+	stream := newScanner(f)
 	files = files[1:]
 
 	// Deal with magical number.
@@ -328,7 +328,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 			}
 			mutex.Unlock()
 			defer lf.Close()
-			lstream := bufio.NewScanner(lf)
+			lstream := newScanner(lf)
 			// Magical number.
 			lstream.Scan()
 			// Width, height.
@@ -448,7 +448,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 		}
 	}
 
-- 
2.43.0

