From 3381e13f75049c13f6b035b366f71583904933ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:59 +0000
Subject: [PATCH 1/7] fix: report the last group of coincident vertices as a
 planar self-intersection

---
 lnr/fc.go   | 9 ++++++---
 lnr/self.go | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lnr/fc.go b/lnr/fc.go
index 505e9a6..d640af7 100644
--- a/lnr/fc.go
+++ b/lnr/fc.go
@@ -34,9 +34,12 @@ func FCPlanarSelfIntersection(featureClass []*FC) map[int][]int {
 	var a, b *vertex
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		bln = false
+		if i < n-1 { // last group of equal points ends with the points
+			a, b = &points[i], &points[i+1]
+			bln = a.Equals2D(b.Point)
+		}
 		if bln {
 			if d == 0 {
 				indexes = append(indexes, a, b)
diff --git a/lnr/self.go b/lnr/self.go
index b541027..001d334 100644
--- a/lnr/self.go
+++ b/lnr/self.go
@@ -35,9 +35,12 @@ func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
 	var results = ctx.NewContexts()
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		bln = false
+		if i < n-1 { // last group of equal points ends with the points
+			a, b = &points[i], &points[i+1]
+			bln = a.Equals2D(b.Point)
+		}
 		if bln {
 			if d == 0 {
 				indices = append(indices, a.index, b.index)
-- 
2.43.0


From 5a5228426e2547d9ae5660de58bd3fa21454d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 2/7] fix: write features in input order when some input lines
 yield no polyline

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 20239a1..fe01c72 100644
--- a/encode.go
+++ b/encode.go
@@ -38,7 +38,7 @@ func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
 	var dictionary = groupById(plns)
 	var indxs = indices(dictionary)
 	var jsons = make([]string, 0, len(plns))
-	for idx := range indxs {
+	for _, idx := range indxs {
 		var plns = dictionary[idx]
 		sort.SliceStable(plns, func(i, j int) bool {
 			return plns[i].pos < plns[j].pos
-- 
2.43.0


From fecb0f6195987cdea86e4f0fbcea6f4e6b94b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 3/7] fix: select every deformable hull when hulls of different
 features share a range

---
 deform/cls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deform/cls.go b/deform/cls.go
index 9c109be..e5aaa14 100644
--- a/deform/cls.go
+++ b/deform/cls.go
@@ -26,7 +26,7 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 	var n int
 	var h *node.Node
 	var inters, contig bool
-	var dict = make(map[[2]int]*node.Node, 0)
+	var dict = make(map[int]*node.Node, 0) // ranges are not unique across features
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	ctxHulls = optimizeNeighbours(hull, ctxHulls)
@@ -64,10 +64,10 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 
 		// add candidate deformation hulls to selection list
 		if sa != nil {
-			dict[sa.Range.AsArray()] = sa
+			dict[sa.Id] = sa
 		}
 		if sb != nil {
-			dict[sb.Range.AsArray()] = sb
+			dict[sb.Id] = sb
 		}
 	}
 
-- 
2.43.0


From 1e79a252ca2527b4f3a9f94a5d719859904c1561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:34 +0000
Subject: [PATCH 4/7] fix: keep every fragment of a constrained split within
 the simplification threshold

---
 constdp/decompose.go | 35 +++++++++++++++++++++++++++++++++++
 constdp/simple_1.go  |  2 +-
 constdp/simplify.go  |  1 +
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/constdp/decompose.go b/constdp/decompose.go
index 64a8d9e..d598c8d 100644
--- a/constdp/decompose.go
+++ b/constdp/decompose.go
@@ -5,6 +5,7 @@ import (
 	"github.com/TopoSimplify/plugin/decompose"
 	"github.com/TopoSimplify/plugin/node"
 	"github.com/TopoSimplify/plugin/offset"
+	"github.com/TopoSimplify/plugin/split"
 	"github.com/intdxdt/iter"
 )
 
@@ -26,3 +27,37 @@ func (self *ConstDP) Decompose(id *iter.Igen) []node.Node {
 		id, self.Polyline, decomp, common.Geometry, self,
 	)
 }
+
+//atThreshold - splits nodes until each one observes the simplification threshold,
+//a fragment of a node within the threshold is not necessarily within it
+func (self *ConstDP) atThreshold(id *iter.Igen, nodes ...node.Node) []node.Node {
+	var score = self.Score
+	var relation = self.ScoreRelation
+
+	if self.SquareScore != nil {
+		score = self.SquareScore
+		relation = self.SquareScoreRelation
+	}
+
+	var results = make([]node.Node, 0, len(nodes))
+	var stack []node.Node
+
+	for i := range nodes {
+		stack = append(stack, nodes[i])
+
+		for len(stack) != 0 {
+			var n = len(stack) - 1
+			var hull = stack[n]
+			stack = stack[:n]
+
+			var _, val = score(hull.Coordinates())
+			if hull.Range.Size() <= 1 || relation(val) {
+				results = append(results, hull)
+			} else {
+				var ha, hb = split.AtScoreSelection(id, &hull, score, common.Geometry)
+				stack = append(stack, hb, ha)
+			}
+		}
+	}
+	return results
+}
diff --git a/constdp/simple_1.go b/constdp/simple_1.go
index 306dc6b..1c65c6e 100644
--- a/constdp/simple_1.go
+++ b/constdp/simple_1.go
@@ -22,7 +22,7 @@ func deformNodes(id *iter.Igen, nodes map[*node.Node]struct{}) []node.Node {
 
 		if hull.Range.Size() > 1 {
 			ha, hb = split.AtScoreSelection(id, hull, scoreFn, common.Geometry)
-			results = append(results, ha, hb)
+			results = append(results, self.atThreshold(id, ha, hb)...)
 			hull.Instance.State().MarkDirty() //after split mark instance as dirty
 		} else {
 			results = append(results, *hull)
diff --git a/constdp/simplify.go b/constdp/simplify.go
index 374a9a1..5727b21 100644
--- a/constdp/simplify.go
+++ b/constdp/simplify.go
@@ -26,6 +26,7 @@ func (self *ConstDP) Simplify(id *iter.Igen, constVertices ...[]int) *ConstDP {
 	self.Hulls, _, constVertexSet = constrain.ToSelfIntersects(
 		id, self.Hulls, self.Polyline, self.Options(), constVerts,
 	)
+	self.Hulls = self.atThreshold(id, self.Hulls...)
 
 	var db = hdb.NewHdb()
 	var selections map[*node.Node]struct{}
-- 
2.43.0


From 633214f721b695afea1bc4f1998173bef384bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 5/7] fix: validate collinear hulls that extend beyond their
 segment

---
 constdp/simple_0.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 5fc1b33..b8f86a1 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -35,12 +35,8 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			var hull = in[i]
 			var self = hull.Instance.(*ConstDP)
 
-			if hull.Range.Size() == 1 { //segment
-				continue
-			}
-
-			//if hull geometry is line then points are collinear
-			if _, ok := hull.Geom.(*geom.LineString); ok {
+			// a hull that is its own segment has the same relations as its segment
+			if isSegment(hull) {
 				continue
 			}
 
@@ -79,6 +75,22 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 	return results
 }
 
+//isSegment - is hull the segment of its end points
+func isSegment(hull *node.Node) bool {
+	if hull.Range.Size() == 1 {
+		return true
+	}
+	//if hull geometry is line then points are collinear
+	//collinear points can extend beyond the end points
+	var ln, ok = hull.Geom.(*geom.LineString)
+	if !ok {
+		return false
+	}
+	var i, j = hull.SegmentPoints()
+	var a, b = ln.Coordinates.First(), ln.Coordinates.Last()
+	return (a.Equals2D(i) && b.Equals2D(j)) || (a.Equals2D(j) && b.Equals2D(i))
+}
+
 func chunkTasks(vals []*node.Node, concurrency int) [][]*node.Node {
 	var n = len(vals)
 	var chunkSize = n / concurrency
-- 
2.43.0


From 2fd3c1fc72a449f0373bb699567b36f58cadfd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:02 +0000
Subject: [PATCH 6/7] fix: check hulls against new segments even when the new
 hulls are segments

---
 constdp/simple_0.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index b8f86a1..4bb212f 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -35,23 +35,21 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			var hull = in[i]
 			var self = hull.Instance.(*ConstDP)
 
-			// a hull that is its own segment has the same relations as its segment
-			if isSegment(hull) {
-				continue
-			}
-
 			// self intersection constraint
 			if self.Opts.AvoidNewSelfIntersects {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
 			}
 
 			// short circuit, if invalid, skip context validation
-			if bln {
+			// a hull that is its own segment has the same relations as its segment
+			if bln && !isSegment(hull) {
 				bln = self.ValidateContextRelation(hull, &selections)
 			}
 
 			for _, o := range selections {
-				out <- o
+				if o.Range.Size() > 1 { // a segment can not be deformed
+					out <- o
+				}
 			}
 			selections = selections[:0]
 		}
-- 
2.43.0


From 72b097b7c2979425feb483a4346810ec30234009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:37 +0000
Subject: [PATCH 7/7] fix: validate a merge with the previous fragment in the
 presence of the next fragment

When the merge of a single segment with its next fragment was refused, the
next fragment stayed out of the index while the merge with the previous one
was validated; the result could hold fragments in conflict with it.
---
 constdp/node_aggregates.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constdp/node_aggregates.go b/constdp/node_aggregates.go
index 891dce6..1a1860c 100644
--- a/constdp/node_aggregates.go
+++ b/constdp/node_aggregates.go
@@ -92,7 +92,8 @@ func (self *ConstDP) AggregateSimpleSegments(
 				merged = true
 			} else {
 				merged = false
-				insertList = append(insertList, *nxt)
+				//merge with prev is validated in the presence of next
+				db.Load([]node.Node{*nxt})
 			}
 		}
 
-- 
2.43.0

