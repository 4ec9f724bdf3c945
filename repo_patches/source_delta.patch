From 30d88499c593ea3df0e3227965108e4e95139bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 01/26] fix: check that the highscore list is populated before
 reading its best score

BestScore is zero for an empty list. When the first model was inserted between the
call to BestScore and the call to Len, subtrees were pruned against a score of zero.
---
 featselect/optimize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 14ce9d2..d713835 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -249,7 +249,9 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
-	if child.Lower > -h.BestScore() && h.Len() > 0 {
+	// The highscore list never becomes empty again. Thus, Len has to be checked before BestScore, which is
+	// zero for an empty list
+	if h.Len() > 0 && child.Lower > -h.BestScore() {
 		return nil
 	}
 	return child
-- 
2.43.0


From 9747496bbbf4ab08fcee524e58a27f59c634b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 02/26] fix: let the last child worker of SelectModel end

When the search is over, one worker is blocked sending on childReady, and leaked.
---
 featselect/optimize.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index d713835..2fd1d05 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -164,6 +164,8 @@ exploreLoop:
 			wantChildNode <- node
 		}
 	}
+	// One worker is always about to ask for a new parent when the loop ends
+	<-childReady
 	close(node)
 	close(wantChildNode)
 	close(pruneCh)
-- 
2.43.0


From ba58f262773e5e3c99d27b61fa3fe9e4ac1549e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 03/26] fix: explore all models with fewer features than data
 points

A child was discarded with its whole subtree when its own model had too many
features, although these may be start model features that can still be switched off.
Models without features are no longer put into the highscore list.
---
 featselect/optimize.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 2fd1d05..b64312f 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -71,7 +71,7 @@ func NewSelectModelOptParams() *SelectModelOptParams {
 func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProgress, params *SelectModelOptParams) {
 	queue := list.New()
 
-	_, ncols := X.Dims()
+	nrows, ncols := X.Dims()
 
 	if params == nil {
 		params = NewSelectModelOptParams()
@@ -121,7 +121,7 @@ exploreLoop:
 			numInProgress--
 			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
-			if isNewNode(ns) {
+			if isNewNode(ns) && isScorable(ns.Model, nrows) {
 				highscore.Insert(ns)
 				numChecked++
 
@@ -216,17 +216,21 @@ func isNewNode(node *Node) bool {
 	return node.WasFlipped
 }
 
+// isScorable returns true if the model has at least one feature and less features than there are data points
+func isScorable(model []bool, nrows int) bool {
+	n := NumFeatures(model)
+	return n > 0 && n < nrows
+}
+
 // ScoreWorker is a function that calculates the score of a node
 func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []float64) {
 	nrows, _ := X.Dims()
 	for n := range nodeCh {
-		numFeat := NumFeatures(n.Model)
-
-		if numFeat > 0 && isNewNode(n) {
+		if isNewNode(n) && isScorable(n.Model, nrows) {
 			design := GetDesignMatrix(n.Model, X)
 			n.Coeff = Fit(design, y)
 			rss := Rss(design, n.Coeff, y)
-			n.Score = -Aicc(numFeat, nrows, rss)
+			n.Score = -Aicc(NumFeatures(n.Model), nrows, rss)
 		} else {
 			n.Score = -math.MaxFloat64
 		}
@@ -238,10 +242,10 @@ func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []fl
 // is lower than the current best score
 func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float64, h *Highscore) *Node {
 	child := node.GetChildNode(flip)
-	n := NumFeatures(child.Model)
 	nrows, _ := X.Dims()
-	if n < nrows {
-		if n > 0 {
+	// Only the features up to the level are common to all models below the child
+	if NumFeatures(child.Model[:child.Level]) < nrows {
+		if NumFeatures(child.Model) > 0 {
 			child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
 		} else {
 			child.Lower = -1e100
-- 
2.43.0


From c97f69d7aa042a9f1465d4c65b8cf3238fbc6bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 04/26] fix: score the start model of SelectModel

The start model itself was never scored. When it was the best model, the search
reported a worse one.
---
 featselect/optimize.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index b64312f..de6382a 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -101,6 +101,14 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 	pruneCh := make(chan int)
 	currentBestScore := -1e100
 
+	// The model of the root node is not among the new models met during the search
+	if isScorable(rootNode.Model, nrows) {
+		scoreNode(rootNode, X, y)
+		highscore.Insert(rootNode)
+		numChecked++
+		currentBestScore = highscore.BestScore()
+	}
+
 	numScoreWorkers := 8
 	for i := 0; i < numScoreWorkers; i++ {
 		go ScoreWorker(node, score, X, y)
@@ -222,15 +230,21 @@ func isScorable(model []bool, nrows int) bool {
 	return n > 0 && n < nrows
 }
 
+// scoreNode fits the model of the node and stores its coefficients and score
+func scoreNode(n *Node, X mat.Matrix, y []float64) {
+	nrows, _ := X.Dims()
+	design := GetDesignMatrix(n.Model, X)
+	n.Coeff = Fit(design, y)
+	rss := Rss(design, n.Coeff, y)
+	n.Score = -Aicc(NumFeatures(n.Model), nrows, rss)
+}
+
 // ScoreWorker is a function that calculates the score of a node
 func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []float64) {
 	nrows, _ := X.Dims()
 	for n := range nodeCh {
 		if isNewNode(n) && isScorable(n.Model, nrows) {
-			design := GetDesignMatrix(n.Model, X)
-			n.Coeff = Fit(design, y)
-			rss := Rss(design, n.Coeff, y)
-			n.Score = -Aicc(NumFeatures(n.Model), nrows, rss)
+			scoreNode(n, X, y)
 		} else {
 			n.Score = -math.MaxFloat64
 		}
-- 
2.43.0


From 06761ef129f296c66fd148a7f83a9a3500cf6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 05/26] fix: make Highscore safe for concurrent use

The branch and bound workers, the progress output and the saving of the list use it
while the search inserts models into it.
---
 featselect/highscore.go | 55 +++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 7fbfed2..c5a2cc4 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,12 +3,15 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"sync"
 )
 
-// Highscore is a structure that holds a list of Nodes sorted by their score
+// Highscore is a structure that holds a list of Nodes sorted by their score. Its methods
+// can be called from several goroutines.
 type Highscore struct {
 	Items    *list.List
 	MaxItems int
+	rwlock   sync.RWMutex
 }
 
 // NewHighscore creates a new highscore list with maxItems entries
@@ -21,7 +24,9 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
-	if h.Len() == h.MaxItems-1 {
+	h.rwlock.Lock()
+	defer h.rwlock.Unlock()
+	if h.Items.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
 		if last.Value.(*Node).Score > node.Score {
 			return
@@ -43,18 +48,22 @@ func (h *Highscore) Insert(node *Node) {
 		}
 	}
 
-	if !itemInserted && h.Len() < h.MaxItems {
+	if !itemInserted && h.Items.Len() < h.MaxItems {
 		h.Items.PushBack(node)
 	}
 }
 
 // Len returns the number of items in the highscore list
 func (h *Highscore) Len() int {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	return h.Items.Len()
 }
 
 // BestScore returns the best score
 func (h *Highscore) BestScore() float64 {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	front := h.Items.Front()
 
 	if front == nil {
@@ -65,28 +74,33 @@ func (h *Highscore) BestScore() float64 {
 
 // Scores returns all the scores in the highscore list
 func (h *Highscore) Scores() []float64 {
-	scores := make([]float64, h.Len())
-	i := 0
-	for item := h.Items.Front(); item != nil; item = item.Next() {
-		scores[i] = item.Value.(*Node).Score
-		i++
+	nodes, _ := h.snapshot()
+	scores := make([]float64, len(nodes))
+	for i, node := range nodes {
+		scores[i] = node.Score
 	}
 	return scores
 }
 
+// snapshot returns the nodes currently in the list (best first) and the maximum number of items
+func (h *Highscore) snapshot() ([]*Node, int) {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	nodes := make([]*Node, 0, h.Items.Len())
+	for item := h.Items.Front(); item != nil; item = item.Next() {
+		nodes = append(nodes, item.Value.(*Node))
+	}
+	return nodes, h.MaxItems
+}
+
 // MarshalJSON creates a JSON representation of the highscore list
 func (h *Highscore) MarshalJSON() ([]byte, error) {
-	data := make([]*Node, h.Len())
-	counter := 0
-	for e := h.Items.Front(); e != nil; e = e.Next() {
-		data[counter] = e.Value.(*Node)
-		counter++
-	}
+	data, maxItems := h.snapshot()
 	return json.Marshal(&struct {
 		MaxItems int     `json:"maxItems"`
 		Items    []*Node `json:"items"`
 	}{
-		MaxItems: h.MaxItems,
+		MaxItems: maxItems,
 		Items:    data,
 	})
 }
@@ -101,7 +115,9 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
+	h.rwlock.Lock()
 	h.MaxItems = aux.MaxItems
+	h.rwlock.Unlock()
 
 	for _, n := range aux.Items {
 		h.Insert(n)
@@ -109,13 +125,16 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// Equal returns true if the two lists have the same size and hold the same nodes
 func (h *Highscore) Equal(h2 *Highscore) bool {
-	if h.MaxItems != h2.MaxItems || h.Len() != h2.Len() {
+	nodes1, maxItems1 := h.snapshot()
+	nodes2, maxItems2 := h2.snapshot()
+	if maxItems1 != maxItems2 || len(nodes1) != len(nodes2) {
 		return false
 	}
 
-	for e1, e2 := h.Items.Front(), h2.Items.Front(); e1 != nil; e1, e2 = e1.Next(), e2.Next() {
-		if !NodesEqual(e1.Value.(*Node), e2.Value.(*Node)) {
+	for i := range nodes1 {
+		if !NodesEqual(nodes1[i], nodes2[i]) {
 			return false
 		}
 	}
-- 
2.43.0


From a5e7aca57bd698c35549b8933b52601c37520e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 06/26] fix: allow a highscore list with a single item

Inserting into NewHighscore(1) dereferenced the last item of an empty list.
---
 featselect/highscore.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index c5a2cc4..c24a79a 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -26,8 +26,7 @@ func NewHighscore(maxItems int) *Highscore {
 func (h *Highscore) Insert(node *Node) {
 	h.rwlock.Lock()
 	defer h.rwlock.Unlock()
-	if h.Items.Len() == h.MaxItems-1 {
-		last := h.Items.Back()
+	if last := h.Items.Back(); last != nil && h.Items.Len() == h.MaxItems-1 {
 		if last.Value.(*Node).Score > node.Score {
 			return
 		}
-- 
2.43.0


From 52ef6e4b8d701816dab043901b86ebaf7a076baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 07/26] fix: restore all items when decoding a highscore list

Inserting them one by one dropped the last of MaxItems items, and decoding into a
zero value panicked.
---
 featselect/highscore.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index c24a79a..f7d86c8 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -115,11 +115,11 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	h.rwlock.Lock()
+	defer h.rwlock.Unlock()
 	h.MaxItems = aux.MaxItems
-	h.rwlock.Unlock()
-
+	h.Items = list.New()
 	for _, n := range aux.Items {
-		h.Insert(n)
+		h.Items.PushBack(n)
 	}
 	return nil
 }
-- 
2.43.0


From 6122047742e3a91ca2f8c8ff4bf1757c85232392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 08/26] fix: end the workers of the lasso path, Cohen's kappa
 and threshold calculations

Their goroutines were left blocked forever. The threshold calculation also started
one more work item than it waited for.
---
 featselect/cohens_kappa.go | 1 +
 featselect/lassoCrdDesc.go | 1 +
 featselect/thresholdCov.go | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 604498c..d1491ef 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -108,6 +108,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 			workChannel <- work
 		}
 	}
+	close(workChannel)
 
 	srt := Argsort(allKappas)
 	fmt.Printf("-------------------------------------------------------------------\n")
diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 0cc2e5f..a70a26e 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -244,6 +244,7 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 			workChan <- wrk
 		}
 	}
+	close(workChan)
 
 	firstModelWithFeatures := 0
 	for i := range nodes {
diff --git a/featselect/thresholdCov.go b/featselect/thresholdCov.go
index dfb8288..819e5b5 100644
--- a/featselect/thresholdCov.go
+++ b/featselect/thresholdCov.go
@@ -109,7 +109,7 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 				work.gr = 0
 				gridPt = 1
 			}
-			if gridPt <= numGrid {
+			if gridPt <= numGrid && numReceives < numSamples*numGrid {
 				workChannel <- work
 			}
 		case <-ticker:
@@ -117,6 +117,8 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 		}
 	}
 
+	close(workChannel)
+
 	minIdx := Argmin(meanNormDiff)
 	var op ThresholdOperator
 	op.threshold = getThreshold(minIdx, step)
-- 
2.43.0


From ccaf322324b69bb6dad54b5985267f3a3a93142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 09/26] fix: do not share the state of CLasso between the
 workers of LassoCrdDescPath

The workers solve for different lambda values at the same time, and each of them
updates the correction in every iteration.
---
 featselect/lassoCorrections.go | 11 +++++++++++
 featselect/lassoCrdDesc.go     |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/featselect/lassoCorrections.go b/featselect/lassoCorrections.go
index b43d608..7b502bd 100644
--- a/featselect/lassoCorrections.go
+++ b/featselect/lassoCorrections.go
@@ -38,6 +38,17 @@ func NewCLasso(numFeat int, eta float64) *CLasso {
 	return &cl
 }
 
+// copyCorrection returns a correction that can be used independently of the one passed. Corrections
+// without a state are returned as they are.
+func copyCorrection(corr LassoCorrection) LassoCorrection {
+	if cl, ok := corr.(*CLasso); ok {
+		cpy := NewCLasso(len(cl.beta), cl.eta)
+		copy(cpy.beta, cl.beta)
+		return cpy
+	}
+	return corr
+}
+
 // Update updates the feature covariance matrix
 func (cl *CLasso) Update(beta []float64) {
 	copy(cl.beta, beta)
diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index a70a26e..a56a02d 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -207,7 +207,7 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 		wrk.cov = cov
 		wrk.maxIter = maxIter
 		wrk.tol = tol
-		wrk.corr = correction
+		wrk.corr = copyCorrection(correction)
 		workChan <- wrk
 	}
 
@@ -240,7 +240,7 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 			wrk.cov = cov
 			wrk.maxIter = maxIter
 			wrk.tol = tol
-			wrk.corr = correction
+			wrk.corr = copyCorrection(correction)
 			workChan <- wrk
 		}
 	}
-- 
2.43.0


From 4d946dfd62d4b637c8c0ab746602bcd6dccba6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 10/26] fix: store the coefficients when a full SAScore list
 replaces its worst item

The new selection was listed with the coefficients of the model it replaced.
---
 featselect/saScore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/saScore.go b/featselect/saScore.go
index f5a345a..7ca7602 100644
--- a/featselect/saScore.go
+++ b/featselect/saScore.go
@@ -65,6 +65,7 @@ func (s *SAScore) Insert(item *SAItem) {
 	} else {
 		if item.Score > s.WorstItem.Score {
 			s.WorstItem.Selection = item.Selection
+			s.WorstItem.Coeff = item.Coeff
 			s.WorstItem.Score = item.Score
 
 			if item.Score > s.BestItem.Score {
-- 
2.43.0


From 4c5d7f6792558b8ec77d16a866f21d988f19c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 11/26] fix: never leave an incomplete result file and report
 failing writes

The bnb, lasso and sasearch commands truncated their output file before they wrote
the new content, ignored errors and announced results that were not stored.
---
 cmd/bnb.go         | 23 ++++++++++++----------
 cmd/lasso.go       | 10 ++++------
 cmd/sasearch.go    | 14 +++++++-------
 cmd/writeResult.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 72 insertions(+), 23 deletions(-)
 create mode 100644 cmd/writeResult.go

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 74bd5d9..d2a7e04 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -18,9 +18,7 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
-	"io/ioutil"
 	"log"
-	"os"
 	"sync"
 	"time"
 
@@ -63,12 +61,12 @@ func init() {
 	bnbCmd.Flags().Int("maxqueue", 10000000, "Maximum size of the queue. If this limit is reached, subtrees will be removed. If you run out of memory, this number should be lowered.")
 }
 
-func saveHighscoreList(fname string, h *featselect.Highscore) {
-	file, _ := os.Open(fname)
-	defer file.Close()
-
-	highscoreJSON, _ := json.Marshal(h)
-	ioutil.WriteFile(fname, highscoreJSON, 0644)
+func saveHighscoreList(fname string, h *featselect.Highscore) error {
+	highscoreJSON, err := json.Marshal(h)
+	if err != nil {
+		return err
+	}
+	return writeResult(fname, highscoreJSON)
 }
 
 func setSearchFinished(finished chan int) {
@@ -114,12 +112,17 @@ timeloop:
 		case <-c:
 			score, numChecked, log2Pruned := progress.Get()
 			fmt.Printf("%v: Score: %f, Num. checked: %d, Log2 pruned: %f\n", time.Now().Format(time.RFC3339), score, numChecked, log2Pruned)
-			saveHighscoreList(outfile, highscore)
+			if err := saveHighscoreList(outfile, highscore); err != nil {
+				log.Printf("Could not save the highscore list: %v", err)
+			}
 		case <-searchFinished:
 			break timeloop
 		}
 	}
-	saveHighscoreList(outfile, highscore)
+	err := saveHighscoreList(outfile, highscore)
 	wg.Wait()
+	if err != nil {
+		log.Fatalf("Could not save the final highscore list: %v", err)
+	}
 	fmt.Printf("Selection finished\n")
 }
diff --git a/cmd/lasso.go b/cmd/lasso.go
index d4eabc1..8be64fe 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -18,8 +18,7 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
-	"io/ioutil"
-	"os"
+	"log"
 
 	"github.com/davidkleiven/goselect/featselect"
 	"github.com/spf13/cobra"
@@ -115,9 +114,8 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 		return
 	}
 
-	file, _ := os.Create(out)
-	defer file.Close()
-
-	ioutil.WriteFile(out, js, 0644)
+	if err := writeResult(out, js); err != nil {
+		log.Fatalf("Could not write the results to %s: %v", out, err)
+	}
 	fmt.Printf("LASSO-LARS results written to %s\n", out)
 }
diff --git a/cmd/sasearch.go b/cmd/sasearch.go
index dd2549e..37ffaf2 100644
--- a/cmd/sasearch.go
+++ b/cmd/sasearch.go
@@ -18,10 +18,8 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
-	"io/ioutil"
 	"log"
 	"math/rand"
-	"os"
 	"time"
 
 	"github.com/davidkleiven/goselect/featselect"
@@ -66,11 +64,13 @@ func saSearch(csvfile string, targetCol int, out string, sweeps int) {
 	rand.Seed(time.Now().UTC().UnixNano())
 	dset := featselect.ReadCSV(csvfile, targetCol)
 	res := featselect.SelectModelSA(dset.X, dset.Y, sweeps, featselect.Aicc)
-	file, _ := os.Open(out)
-	defer file.Close()
-
-	highscoreJSON, _ := json.Marshal(res.Scores)
-	ioutil.WriteFile(out, highscoreJSON, 0644)
+	highscoreJSON, err := json.Marshal(res.Scores)
+	if err != nil {
+		log.Fatalf("Could not encode the highscore list: %v", err)
+	}
+	if err := writeResult(out, highscoreJSON); err != nil {
+		log.Fatalf("Could not write the highscore list to %s: %v", out, err)
+	}
 
 	fmt.Printf("SA highscore list written to %s", out)
 }
diff --git a/cmd/writeResult.go b/cmd/writeResult.go
new file mode 100644
index 0000000..d2c7420
--- /dev/null
+++ b/cmd/writeResult.go
@@ -0,0 +1,48 @@
+package cmd
+
+import (
+	"io/ioutil"
+	"os"
+	"path/filepath"
+)
+
+// writeResult stores data in the file fname. The data is first written to a temporary file in the
+// same directory, which replaces fname when it is complete. Thus, a failure or a crash never leaves
+// an incomplete result in fname, and an existing file is kept if the new one can't be stored.
+func writeResult(fname string, data []byte) error {
+	if target, err := filepath.EvalSymlinks(fname); err == nil {
+		fname = target
+	}
+
+	perm := os.FileMode(0644)
+	if info, err := os.Stat(fname); err == nil {
+		if !info.Mode().IsRegular() {
+			// For example /dev/stdout
+			return ioutil.WriteFile(fname, data, perm)
+		}
+		perm = info.Mode().Perm()
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(fname), filepath.Base(fname)+".tmp")
+	if err != nil {
+		return err
+	}
+
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(perm)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), fname)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+	return err
+}
-- 
2.43.0


From f7335988e5e983f9a0b4c0a0e376ead9775a4042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 12/26] fix: nestedlasso does not announce results that could
 not be written

---
 cmdDepreciated/goselect-nestedlasso/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmdDepreciated/goselect-nestedlasso/main.go b/cmdDepreciated/goselect-nestedlasso/main.go
index 46df44b..ca738c9 100644
--- a/cmdDepreciated/goselect-nestedlasso/main.go
+++ b/cmdDepreciated/goselect-nestedlasso/main.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"fmt"
 	"io/ioutil"
+	"log"
 
 	"github.com/davidkleiven/goselect/featselect"
 )
@@ -20,7 +21,9 @@ func nestedLasso(csvfile string, targetCol int, out string, lambMin float64, kee
 		return
 	}
 
-	ioutil.WriteFile(out, js, 0644)
+	if err := ioutil.WriteFile(out, js, 0644); err != nil {
+		log.Fatalf("Could not write the results to %s: %v", out, err)
+	}
 	fmt.Printf("Nested LASSO-LARS results written to %s\n", out)
 }
 
-- 
2.43.0


From af025a5d4d14fdcac963ceb7f67a6886c305730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 13/26] fix: read numbers surrounded by blanks in CSV files

They were silently replaced by zero, although the data file format in README pads the columns.
---
 featselect/csvIO.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 045718b..83f354f 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"gonum.org/v1/gonum/floats"
 
@@ -135,7 +136,7 @@ func ParseCSV(handle io.Reader, targetCol int) *Dataset {
 		} else {
 			row := make([]float64, len(line))
 			for i, v := range line {
-				if fl, err := strconv.ParseFloat(v, 64); err == nil {
+				if fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
 					row[i] = fl
 				}
 			}
-- 
2.43.0


From f254af0a895721a7a12c82ef7e21361eaeb1290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:09 +0000
Subject: [PATCH 14/26] fix: fall back to the SVD of the transpose when the SVD
 of a design matrix does not converge

---
 featselect/fit.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/featselect/fit.go b/featselect/fit.go
index a32a915..71e4235 100644
--- a/featselect/fit.go
+++ b/featselect/fit.go
@@ -19,12 +19,18 @@ func Fit(X mat.Matrix, y []float64) []float64 {
 	yvec := mat.NewVecDense(len(y), y)
 
 	var svd mat.SVD
-	svd.Factorize(X, mat.SVDThin)
-
-	s := svd.Values(nil)
 	var u, v mat.Dense
-	svd.UTo(&u)
-	svd.VTo(&v)
+	if svd.Factorize(X, mat.SVDThin) {
+		svd.UTo(&u)
+		svd.VTo(&v)
+	} else if svd.Factorize(X.T(), mat.SVDThin) {
+		// In rare cases the SVD does not converge for a matrix, but does so for its transpose
+		svd.UTo(&v)
+		svd.VTo(&u)
+	} else {
+		panic("Fit: SVD of the design matrix failed")
+	}
+	s := svd.Values(nil)
 
 	var uTdoty mat.Dense
 	uTdoty.Mul(u.T(), yvec)
-- 
2.43.0


From 866b810d6e376be9a11f8b740d155a3686de5fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 15/26] fix: print names of Cohen's kappa targets that contain
 percent signs

---
 featselect/cohens_kappa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index d1491ef..d432741 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -92,7 +92,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 
 		numReceives++
 		hyper := res.target.HyperParameters()
-		fmt.Printf(res.target.StringRep()+" kappa: %3.3f\n", res.kappa)
+		fmt.Printf("%s kappa: %3.3f\n", res.target.StringRep(), res.kappa)
 
 		if res.kappa > bestKappa {
 			bestKappa = res.kappa
-- 
2.43.0


From fd195e26483aafc2b7415106a06b71996638eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:27 +0000
Subject: [PATCH 16/26] fix: NestedLasso leaves the data set it is given
 unchanged

---
 featselect/nestedLasso.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 9796d10..c5ad1b1 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -25,9 +25,6 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	var res NestedLassoLars
 
 	iter := 0
-	yCpy := make([]float64, len(data.Y))
-	copy(yCpy, data.Y)
-
 	res.Dset = data
 	curDset := data.Copy()
 	normD := NewNormalizedData(curDset.X, curDset.Y)
@@ -65,8 +62,9 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		normD = NewNormalizedData(curDset.X, curDset.Y)
 	}
 
-	// Undo the normalisation of all paths before returning
-	normD = NewNormalizedData(data.X, data.Y)
+	// Undo the normalisation of all paths before returning. The normalisation alters its arguments
+	dataCpy := data.Copy()
+	normD = NewNormalizedData(dataCpy.X, dataCpy.Y)
 	for _, v := range res.Paths {
 		Path2Unnormalized(normD, v.Nodes)
 	}
-- 
2.43.0


From dbad5822215eb87edc7170dc022597f89ee69371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 17/26] fix: plotlasso reports a figure that could not be
 stored

The error of saving a figure was ignored and the figure announced as
written all the same.
---
 cmdDepreciated/goselect-plotlasso/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index d247c65..08af1e0 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -3,9 +3,11 @@ package main
 import (
 	"flag"
 	"fmt"
+	"log"
 	"math"
 
 	"github.com/davidkleiven/goselect/featselect"
+	"gonum.org/v1/plot"
 	"gonum.org/v1/plot/vg"
 )
 
@@ -15,25 +17,32 @@ func analyseLasso(jsonfile string, prefix string, ext string, coeffRng *featsele
 	fname := prefix + "_entrance." + ext
 	w := 4 * vg.Inch
 	h := 4 * vg.Inch
-	entrance.Save(w, h, fname)
+	saveFigure(entrance, w, h, fname)
 	fmt.Printf("Entrance times written to %s\n", fname)
 
 	quality := path.PlotQualityScores()
 	fname = prefix + "_quality." + ext
-	quality.Save(w, h, fname)
+	saveFigure(quality, w, h, fname)
 	fmt.Printf("Quality score written to %s\n", fname)
 
 	dev := path.PlotDeviations()
 	fname = prefix + "_dev." + ext
-	dev.Save(w, h, fname)
+	saveFigure(dev, w, h, fname)
 	fmt.Printf("Dev. score written to %s\n", fname)
 
 	coeff := path.PlotPath(coeffRng)
 	fname = prefix + "_path." + ext
-	coeff.Save(w, h, fname)
+	saveFigure(coeff, w, h, fname)
 	fmt.Printf("LASSO-LARS path written to %s\n", fname)
 }
 
+// saveFigure ends the program if the figure could not be stored
+func saveFigure(fig *plot.Plot, w, h vg.Length, fname string) {
+	if err := fig.Save(w, h, fname); err != nil {
+		log.Fatalf("Could not write the figure to %s: %v", fname, err)
+	}
+}
+
 func main() {
 	lassoPathJSON := flag.String("json", "", "JSON file with the LASSO path")
 	lassoPathOutPrefix := flag.String("prefix", "lassofig", "Prefix used in front of all figures")
-- 
2.43.0


From 2966a167584900c2910c0fee0d91ede66013e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 18/26] fix: nested lasso assigned coefficients to wrong
 features unless the target was the last column

Selections were mapped by looking up their position among the column names,
which include the target. Map them by feature number instead.
---
 featselect/nestedLasso.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index c5ad1b1..e5b0525 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -28,6 +28,13 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	res.Dset = data
 	curDset := data.Copy()
 	normD := NewNormalizedData(curDset.X, curDset.Y)
+
+	// Feature numbers in data of the features in the current dataset
+	_, numFeat := data.X.Dims()
+	features := make([]int, numFeat)
+	for i := range features {
+		features[i] = i
+	}
 	for {
 		iter++
 		newPath := LassoLars(normD, lambMin, estimator)
@@ -50,7 +57,9 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 
 		// Map selection
 		for _, v := range newPath {
-			v.Selection = MapSelectionByName(data, curDset.Names, v.Selection)
+			for i, f := range v.Selection {
+				v.Selection[i] = features[f]
+			}
 		}
 
 		if newNum <= 2 {
@@ -59,6 +68,10 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 
 		// Update the current dataset and the normalized dataset
 		curDset = curDset.GetSubset(survivors)
+		for i, f := range survivors {
+			survivors[i] = features[f]
+		}
+		features = survivors
 		normD = NewNormalizedData(curDset.X, curDset.Y)
 	}
 
-- 
2.43.0


From e0294144a1a0fa33a9981c377399ec847a8abdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:03 +0000
Subject: [PATCH 19/26] fix: the path of the last feature was missing from the
 plot of a lasso path

---
 featselect/lassoPlot.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 392d13d..a45119c 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -222,9 +222,9 @@ func (p *LassoLarsPath) PlotPath(cr *AxisRange) *plot.Plot {
 		panic(err)
 	}
 
-	_, numFeat := p.MaxMinFeatNo()
+	_, maxFeat := p.MaxMinFeatNo()
 
-	for featNo := 0; featNo < numFeat; featNo++ {
+	for featNo := 0; featNo <= maxFeat; featNo++ {
 		xy := p.ExtractPath(featNo)
 		line, err := plotter.NewLine(xy)
 
-- 
2.43.0


From a97e1b52369c77e63270b3d92e1b65192e803c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:52 +0000
Subject: [PATCH 20/26] fix: plotlasso ignored the requested range of
 coefficients

The flags were read before they were parsed.
---
 cmdDepreciated/goselect-plotlasso/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index 08af1e0..1607b76 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -50,6 +50,8 @@ func main() {
 	lassoPathCoeffMin := flag.Float64("coeffmin", 0.0, "Minumum coefficient value in plot")
 	lassoPathCoeffMax := flag.Float64("coeffmax", 0.0, "Maximum coefficient value in plot. If equal to the minimum value, the range is autoscaled")
 
+	flag.Parse()
+
 	coeffMin := *lassoPathCoeffMin
 	coeffMax := *lassoPathCoeffMax
 	var coeffRng featselect.AxisRange
@@ -62,6 +64,5 @@ func main() {
 		coeffRngPtr = nil
 	}
 
-	flag.Parse()
 	analyseLasso(*lassoPathJSON, *lassoPathOutPrefix, *lassoPathType, coeffRngPtr)
 }
-- 
2.43.0


From aabfeb15a892ff8bb74f1aefd84795e1cd0afbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:34 +0000
Subject: [PATCH 21/26] fix: rows of an iterated product overwrote each other
 for four or more factors

---
 featselect/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/util.go b/featselect/util.go
index b6bf3b4..72bc1c1 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -49,7 +49,9 @@ func IterProduct(values []int, repeat int) [][]int {
 		updatedRes := make([][]int, 0)
 		for j := 0; j < nItems; j++ {
 			for i := 0; i < len(values); i++ {
-				newRow := append(res[j], values[i])
+				newRow := make([]int, r+1)
+				copy(newRow, res[j])
+				newRow[r] = values[i]
 				updatedRes = append(updatedRes, newRow)
 			}
 		}
-- 
2.43.0


From b60a808994a5aedc817be3d4c89c2ac693a21697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:31 +0000
Subject: [PATCH 22/26] fix: the progress of a search counted pruned models
 twice

---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index de6382a..6f30aad 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -285,7 +285,7 @@ func CreateChildNodes(parentCh <-chan *Node, pruneCh chan<- int, nodeCh chan<- *
 			for _, flip := range []bool{false, true} {
 				n := CreateChild(parent, flip, X, y, cutoff, h)
 				if n == nil {
-					pruneCh <- parent.Level
+					pruneCh <- parent.Level + 1
 				} else {
 					nodeCh <- n
 				}
-- 
2.43.0


From 1ebf481fa0916870eae5a44b1bd4507d94b2117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:58 +0000
Subject: [PATCH 23/26] fix: kappa targets sharing a covariance correction
 disturbed each other

---
 featselect/lassoCrdDesc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index a56a02d..6b986a9 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -300,7 +300,7 @@ func (p *pureLassoCohen) GetSelection(indices []int) []int {
 	}
 
 	normD := NewNormalizedData(X, y)
-	coeff := p.lasso(normD, p.Lamb, p.Cov, p.x0, p.MaxIter, p.Tol, p.Correction)
+	coeff := p.lasso(normD, p.Lamb, p.Cov, p.x0, p.MaxIter, p.Tol, copyCorrection(p.Correction))
 	p.x0 = coeff
 	selection := []int{}
 
-- 
2.43.0


From fa0d053cc9576e534dbc0e43de1425d779674961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:12 +0000
Subject: [PATCH 24/26] fix: features dropped early never came back into a
 coordinate descent lasso

The KKT conditions of the zero coefficients were tested on the wrong scale and
with the comparison reversed, so that no dropped feature was ever picked up again.
A path that needed no coefficient at all never counted as converged (0/0).
---
 featselect/lassoCrdDesc.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 6b986a9..55abc14 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -9,6 +9,9 @@ import (
 
 const lassoCrdDescZero = 1e-16
 
+// lassoCrdDescKKTTol is how much the KKT conditions of a zero coefficient can be off
+const lassoCrdDescKKTTol = 1e-10
+
 // CorrectableLasso is a function that implements the lasso method with corrections
 type CorrectableLasso = func(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64, maxIter int, tol float64, corr LassoCorrection) []float64
 
@@ -62,7 +65,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			}
 		}
 
-		converged = maxChange/maxCoeff < tol
+		converged = maxChange <= tol*maxCoeff
 
 		numActive := 0
 		for _, j := range iterIndices {
@@ -76,10 +79,11 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 		copy(betaOld, beta)
 
 		if converged {
-			unsatisfied := UnsatisfiedKKTConditions(XTy, covDotBeta, beta, lamb, corr)
+			unsatisfied := UnsatisfiedKKTConditions(XTy, covDotBeta, beta, lamb, corr, nr)
 			if len(unsatisfied) == 0 {
 				break
 			} else {
+				converged = false
 				iterIndices = UnionInt(iterIndices, unsatisfied)
 			}
 		}
@@ -101,13 +105,13 @@ func SoftThreshold(x float64, threshold float64) float64 {
 	return 0.0
 }
 
-// UnsatisfiedKKTConditions returns the indices where KKT conditions are not met
-func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection) []int {
+// UnsatisfiedKKTConditions returns the indices of the zero coefficients where the KKT conditions are
+// not met. nr is the number of data points
+func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection, nr int) []int {
 	unsatisfied := []int{}
-	nr := Xy.Len()
 	for i := 1; i < len(covDotBeta); i++ {
-		value := math.Abs(Xy.AtVec(i) - covDotBeta[i]*float64(nr) - correction.Deriv(coeff, i))
-		if value < lamb && math.Abs(coeff[i]) > lassoCrdDescZero {
+		value := math.Abs(Xy.AtVec(i)/float64(nr) - covDotBeta[i] - correction.Deriv(coeff, i))
+		if value > lamb*(1.0+lassoCrdDescKKTTol)+lassoCrdDescKKTTol && math.Abs(coeff[i]) <= lassoCrdDescZero {
 			unsatisfied = append(unsatisfied, i)
 		}
 	}
-- 
2.43.0


From 1049076b8eeaa20e157c6770a665d16bd6f5a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:12 +0000
Subject: [PATCH 25/26] fix: coordinate descent never selected the first
 column, bias or not

---
 featselect/lassoCrdDesc.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 55abc14..7c95c0b 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -29,9 +29,12 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	XTy := mat.NewVecDense(nFeat, nil)
 	XTy.MulVec(dset.X.T(), yVec)
 
-	iterIndices := make([]int, nFeat-1)
-	for i := 1; i < nFeat; i++ {
-		iterIndices[i-1] = i
+	// The bias is not part of the optimization
+	iterIndices := []int{}
+	for i := 0; i < nFeat; i++ {
+		if i > 0 || !dset.HasBias {
+			iterIndices = append(iterIndices, i)
+		}
 	}
 
 	betaOld := make([]float64, nFeat)
@@ -109,7 +112,7 @@ func SoftThreshold(x float64, threshold float64) float64 {
 // not met. nr is the number of data points
 func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection, nr int) []int {
 	unsatisfied := []int{}
-	for i := 1; i < len(covDotBeta); i++ {
+	for i := 0; i < len(covDotBeta); i++ {
 		value := math.Abs(Xy.AtVec(i)/float64(nr) - covDotBeta[i] - correction.Deriv(coeff, i))
 		if value > lamb*(1.0+lassoCrdDescKKTTol)+lassoCrdDescKKTTol && math.Abs(coeff[i]) <= lassoCrdDescZero {
 			unsatisfied = append(unsatisfied, i)
-- 
2.43.0


From dfa4f6577674fff2555c70dcc0262e6cce7b302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:12 +0000
Subject: [PATCH 26/26] fix: the kappa of two selections of everything was not
 a number

---
 featselect/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/util.go b/featselect/util.go
index 72bc1c1..e01fc65 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -466,5 +466,9 @@ func CohenKappa(s1 []int, s2 []int, totNum int) float64 {
 
 	PrA := float64(n11+n22) / float64(totNum)
 	PrE := float64((n11+n12)*(n11+n21))/float64(totNum*totNum) + float64((n12+n22)*(n21+n22))/float64(totNum*totNum)
+	if n11 == totNum {
+		// Everything is selected in both sets
+		return 1.0
+	}
 	return (PrA - PrE) / (1. - PrE)
 }
-- 
2.43.0

