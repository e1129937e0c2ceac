From 35fd905c4714b5b6a82e1630757dc2652b1d60c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 01/89] fix: keep off-mesh connection flags and side in
 serialized tiles

Flags and Side were read and written at absolute offsets 30 and 31 of the
tile payload instead of relative to the connection, corrupting vertex data on
save and losing the connection's direction and end side on load.
---
 detour/tile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/detour/tile.go b/detour/tile.go
index 31dcf75..9a57d2c 100644
--- a/detour/tile.go
+++ b/detour/tile.go
@@ -191,8 +191,8 @@ func (s *MeshTile) unserialize(hdr *MeshHeader, src []byte) {
 		o.Pos[5] = math.Float32frombits(little.Uint32(src[off+20:]))
 		o.Rad = math.Float32frombits(little.Uint32(src[off+24:]))
 		o.Poly = little.Uint16(src[off+28:])
-		o.Flags = src[30]
-		o.Side = src[31]
+		o.Flags = src[off+30]
+		o.Side = src[off+31]
 		o.UserID = little.Uint32(src[off+32:])
 		off += 36
 	}
@@ -286,8 +286,8 @@ func serializeTileData(dst []byte,
 		little.PutUint32(dst[off+20:], uint32(math.Float32bits(o.Pos[5])))
 		little.PutUint32(dst[off+24:], uint32(math.Float32bits(o.Rad)))
 		little.PutUint16(dst[off+28:], o.Poly)
-		dst[30] = o.Flags
-		dst[31] = o.Side
+		dst[off+30] = o.Flags
+		dst[off+31] = o.Side
 		little.PutUint32(dst[off+32:], o.UserID)
 		off += 36
 	}
-- 
2.43.0


From 530513f97ff6ff03bfe7988ad2f753792769cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 02/89] fix: land off-mesh connections on the polygon nearest
 to their end points

The search used while linking skipped the first slot of its result buffer,
missed the last candidate, took points outside of a polygon to be at distance
zero and did not report where the connection lands, so connections were linked
to the wrong polygons or not at all.
---
 detour/mesh.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 82ac9ca..db76d36 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -806,7 +806,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 		// Find polygon to connect to.
 		p = con.Pos[0:3] // First vertex
 		nearestPt := make([]float32, 3)
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.findLandingPoly(tile, p, ext, nearestPt)
 		if ref == 0 {
 			continue
 		}
@@ -850,6 +850,31 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 	}
 }
 
+// anyPolyFilter is a QueryFilter that lets every polygon through.
+type anyPolyFilter struct{}
+
+func (anyPolyFilter) PassFilter(ref PolyRef, tile *MeshTile, poly *Poly) bool { return true }
+
+func (anyPolyFilter) Cost(pa, pb d3.Vec3,
+	prevRef PolyRef, prevTile *MeshTile, prevPoly *Poly,
+	curRef PolyRef, curTile *MeshTile, curPoly *Poly,
+	nextRef PolyRef, nextTile *MeshTile, nextPoly *Poly) float32 {
+	return pa.Dist(pb)
+}
+
+// findLandingPoly finds the polygon of tile on which an off-mesh connection
+// end-point should land, and sets nearestPt to the position of that point on
+// the polygon. It returns 0 if there's no polygon in range.
+func (m *NavMesh) findLandingPoly(tile *MeshTile, center, extents, nearestPt d3.Vec3) PolyRef {
+	q := &NavMeshQuery{nav: m}
+	query := newFindNearestPolyQuery(q, center)
+	q.queryPolygonsInTile(tile, center.Sub(extents), center.Add(extents), anyPolyFilter{}, query)
+	if query.nearestRef != 0 {
+		nearestPt.Assign(query.nearestPoint)
+	}
+	return query.nearestRef
+}
+
 // FindNearestPolyInTile finds the nearest polygon within a tile.
 func (m *NavMesh) FindNearestPolyInTile(tile *MeshTile, center, extents, nearestPt d3.Vec3) PolyRef {
 	bmin := center.Sub(extents)
@@ -1168,7 +1193,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		// Find polygon to connect to.
 		p := targetCon.Pos[3:6]
 		nearestPt := d3.NewVec3()
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.findLandingPoly(tile, p, ext, nearestPt)
 		if ref == 0 {
 			continue
 		}
-- 
2.43.0


From 71ff123cf08eec1604bbf5625bc694308fd6ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 03/89] fix: use the off-mesh connection's own vertices as its
 entry portal

The portal from a polygon to an off-mesh connection was read from the vertices
of the polygon being left, and not from those of the connection.
---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 1dd9e18..5b3bfd4 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := toPoly.Verts[v] * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
-- 
2.43.0


From 696e990305689e1ac829cfc197c0314c16211440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 04/89] fix: reset the output of a raycast before casting

Raycast kept the hit parameter, path count and path cost found in the
RaycastHit it was given, so reusing one reported the previous ray's results.
---
 detour/query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 5b3bfd4..7e06e34 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1459,6 +1459,9 @@ func (q *NavMeshQuery) Raycast(
 	lastPos = d3.NewVec3()
 	curPos = d3.NewVec3From(startPos)
 	dir = endPos.Sub(startPos)
+	hit.T = 0
+	hit.PathCount = 0
+	hit.PathCost = 0
 	hit.HitNormal = d3.NewVec3()
 
 	st = Success
-- 
2.43.0


From 87c20eea3fe6f9c1f3135195a503bf24cfbab81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 05/89] fix: accept node limits below four and reject those
 below one in NewNavMeshQuery

A limit of 1 to 3 nodes, within the documented range, created a node pool with
no hash bucket, and searching with it panicked.
---
 detour/query.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 7e06e34..1809fec 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -109,7 +109,7 @@ func newQueryData() queryData {
 // functions are used.
 // This function can be used multiple times.
 func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
-	if maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
+	if maxNodes <= 0 || maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
 		return Failure | InvalidParam, nil
 	}
 
@@ -120,7 +120,11 @@ func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
 		if q.nodePool != nil {
 			q.nodePool = nil
 		}
-		q.nodePool = newNodePool(maxNodes, int32(math32.NextPow2(uint32(maxNodes/4))))
+		hashSize := int32(math32.NextPow2(uint32(maxNodes / 4)))
+		if hashSize == 0 {
+			hashSize = 1
+		}
+		q.nodePool = newNodePool(maxNodes, hashSize)
 		if q.nodePool == nil {
 			return Failure | OutOfMemory, nil
 		}
-- 
2.43.0


From 77660258429d9fd0ad274b9a545aab538f773dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 06/89] fix: skip off-mesh connections when querying a tile
 without bounding volumes

---
 detour/query.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 1809fec..36770b2 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1311,8 +1311,6 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 			p := &tile.Polys[i]
 			// Do not return off-mesh connection polygons.
 			if p.Type() == polyTypeOffMeshConnection {
-
-				log.Fatalf("do return off-mesh connection polygons")
 				continue
 			}
 			// Must pass filter
-- 
2.43.0


From 0ad074d3e6695d7b54a745a6e189c3b0fd6b6288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 07/89] fix: address vertices past index 21845 of a tile

---
 detour/mesh.go          | 12 ++++++------
 detour/navmeshcreate.go | 18 +++++++++---------
 detour/poly.go          |  2 +-
 detour/query.go         | 28 ++++++++++++++--------------
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index db76d36..2d545df 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -815,7 +815,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 			continue
 		}
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = tile.Verts[poly.Verts[0]*3 : poly.Verts[0]*3+3]
+		var v d3.Vec3 = tile.Verts[int(poly.Verts[0])*3 : int(poly.Verts[0])*3+3]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1204,7 +1204,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		}
 
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = target.Verts[targetPoly.Verts[1]*3:]
+		var v d3.Vec3 = target.Verts[int(targetPoly.Verts[1])*3:]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1301,8 +1301,8 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 			}
 
 			// Create new links
-			va := tile.Verts[poly.Verts[j]*3:]
-			vb := tile.Verts[poly.Verts[(j+1)%int32(nv)]*3:]
+			va := tile.Verts[int(poly.Verts[j])*3:]
+			vb := tile.Verts[int(poly.Verts[(j+1)%int32(nv)])*3:]
 			nei := make([]PolyRef, 4)
 			neia := make([]float32, 4*2)
 			nnei := m.findConnectingPolys(va, vb, target, oppositeTile(dir), nei, neia, 4)
@@ -1381,9 +1381,9 @@ func (m *NavMesh) findConnectingPolys(
 				continue
 			}
 
-			idx := poly.Verts[j] * 3
+			idx := int(poly.Verts[j]) * 3
 			vc := tile.Verts[idx : idx+3]
-			idx = poly.Verts[(j+1)%nv] * 3
+			idx = int(poly.Verts[(j+1)%nv]) * 3
 			vd := tile.Verts[idx : idx+3]
 			bpos := slabCoord(vc, side)
 
diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5512bd1..8e2e03c 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -291,9 +291,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 		} else {
 			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
-			it.BMin[0] = params.Verts[p[0]*3+0]
-			it.BMin[1] = params.Verts[p[0]*3+1]
-			it.BMin[2] = params.Verts[p[0]*3+2]
+			it.BMin[0] = params.Verts[int(p[0])*3+0]
+			it.BMin[1] = params.Verts[int(p[0])*3+1]
+			it.BMin[2] = params.Verts[int(p[0])*3+2]
 
 			it.BMax[0] = it.BMin[0]
 			it.BMax[1] = it.BMin[1]
@@ -303,9 +303,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 				if p[j] == meshNullIdx {
 					break
 				}
-				x := params.Verts[p[j]*3+0]
-				y := params.Verts[p[j]*3+1]
-				z := params.Verts[p[j]*3+2]
+				x := params.Verts[int(p[j])*3+0]
+				y := params.Verts[int(p[j])*3+1]
+				z := params.Verts[int(p[j])*3+2]
 
 				if x < it.BMin[0] {
 					it.BMin[0] = x
@@ -831,13 +831,13 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// The nav polygon vertices are stored as the first vertices on each mesh.
 	// We compress the mesh data by skipping them and using the navmesh coordinates.
 	if params.DetailMeshes != nil && len(params.DetailMeshes) > 0 {
-		var vbase uint16
+		var vbase uint32
 		for i2 := int32(0); i2 < params.PolyCount; i2++ {
 			dtl := &navDMeshes[i2]
 			vb := params.DetailMeshes[i2*4+0]
 			ndv := params.DetailMeshes[i2*4+1]
 			nv := int32(navPolys[i2].VertCount)
-			dtl.VertBase = uint32(vbase)
+			dtl.VertBase = vbase
 			dtl.VertCount = uint8(ndv - nv)
 			dtl.TriBase = uint32(params.DetailMeshes[i2*4+2])
 			dtl.TriCount = uint8(params.DetailMeshes[i2*4+3])
@@ -845,7 +845,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 			if ndv-nv != 0 {
 				start, length := int32(vb+nv)*3, 3*int32(ndv-nv)
 				copy(navDVerts[vbase*3:], params.DetailVerts[start:start+length])
-				vbase += uint16(ndv - nv)
+				vbase += uint32(ndv - nv)
 			}
 		}
 		// Store triangles.
diff --git a/detour/poly.go b/detour/poly.go
index 86c4026..eba0917 100644
--- a/detour/poly.go
+++ b/detour/poly.go
@@ -59,7 +59,7 @@ func CalcPolyCenter(idx []uint16, nidx int32, verts []float32) d3.Vec3 {
 	tc := d3.NewVec3()
 	var j int32
 	for j = 0; j < nidx; j++ {
-		start := idx[j] * 3
+		start := int(idx[j]) * 3
 		v := verts[start : start+3]
 		tc[0] += v[0]
 		tc[1] += v[1]
diff --git a/detour/query.go b/detour/query.go
index 36770b2..11a30fe 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -834,7 +834,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if fromTile.Links[i].Ref == to {
 				// TODO: AR, repass here and test
 				v := fromTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := int(fromPoly.Verts[v]) * 3
 				copy(left, fromTile.Verts[vidx:vidx+3])
 				copy(right, fromTile.Verts[vidx:vidx+3])
 				return Success
@@ -848,7 +848,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := toPoly.Verts[v] * 3
+				vidx := int(toPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
@@ -862,9 +862,9 @@ func (q *NavMeshQuery) portalPoints8(
 	v1 := fromPoly.Verts[(link.Edge+1)%fromPoly.VertCount]
 
 	// TODO: AR TO BE TESTED!
-	v0idx := v0 * 3
+	v0idx := int(v0) * 3
 	copy(left, fromTile.Verts[v0idx:v0idx+3])
-	v1idx := v1 * 3
+	v1idx := int(v1) * 3
 	copy(right, fromTile.Verts[v1idx:v1idx+3])
 
 	// If the link is at tile boundary, clamp the vertices to
@@ -962,9 +962,9 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		vidx := poly.Verts[0] * 3
+		vidx := int(poly.Verts[0]) * 3
 		v0 = tile.Verts[vidx : vidx+3]
-		vidx = poly.Verts[1] * 3
+		vidx = int(poly.Verts[1]) * 3
 		v1 = tile.Verts[vidx : vidx+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
@@ -987,7 +987,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:idx+3], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1027,7 +1027,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 		var k int
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				idx = int(poly.Verts[t[k]] * 3)
+				idx = int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[idx : idx+3]
 			} else {
 				idx = int((pd.VertBase + uint32(t[k]-poly.VertCount)) * 3)
@@ -1069,7 +1069,7 @@ func (q *NavMeshQuery) ClosestPointOnPolyBoundary(ref PolyRef, pos, closest d3.V
 		nv    int32
 	)
 	for i := uint8(0); i < poly.VertCount; i++ {
-		copy(verts[nv*3:nv*3+3], tile.Verts[poly.Verts[i]*3:poly.Verts[i]*3+3])
+		copy(verts[nv*3:nv*3+3], tile.Verts[int(poly.Verts[i])*3:int(poly.Verts[i])*3+3])
 		nv++
 	}
 
@@ -1319,12 +1319,12 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 				continue
 			}
 			// Calc polygon bounds.
-			vidx := p.Verts[0] * 3
+			vidx := int(p.Verts[0]) * 3
 			v := tile.Verts[vidx : vidx+3]
 			bmin.Assign(v)
 			bmax.Assign(v)
 			for j := uint8(1); j < p.VertCount; j++ {
-				vidx = p.Verts[j] * 3
+				vidx = int(p.Verts[j]) * 3
 				v = tile.Verts[vidx : vidx+3]
 				d3.Vec3Min(bmin, v)
 				d3.Vec3Max(bmax, v)
@@ -1491,7 +1491,7 @@ func (q *NavMeshQuery) Raycast(
 		// Collect vertices.
 		var nv int
 		for i := 0; i < int(poly.VertCount); i++ {
-			copy(verts[nv*3:], tile.Verts[poly.Verts[i]*3:3+poly.Verts[i]*3])
+			copy(verts[nv*3:], tile.Verts[int(poly.Verts[i])*3:3+int(poly.Verts[i])*3])
 			nv++
 		}
 
@@ -1574,8 +1574,8 @@ func (q *NavMeshQuery) Raycast(
 			}
 
 			// Check for partial edge links.
-			v0 := poly.Verts[link.Edge]
-			v1 := poly.Verts[(link.Edge+1)%poly.VertCount]
+			v0 := int(poly.Verts[link.Edge])
+			v1 := int(poly.Verts[(link.Edge+1)%poly.VertCount])
 			left := tile.Verts[v0*3 : 3+v0*3]
 			right := tile.Verts[v1*3 : 3+v1*3]
 
-- 
2.43.0


From 911b3ee7e34bb2658d726557cd5f9e8e0bf51f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 08/89] fix: address vertices past index 21845 of a poly mesh

---
 recast/mesh.go       |  8 ++++----
 recast/meshdetail.go | 14 +++++++-------
 recast/polymesh.go   |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 1596911..15cdf5c 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -395,22 +395,22 @@ func getPolyMergeValue(pa, pb []uint16,
 	va = pa[(*ea+na-1)%na]
 	vb = pa[*ea]
 	vc = pb[(*eb+2)%nb]
-	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
+	if !uleft(verts[int(va)*3:], verts[int(vb)*3:], verts[int(vc)*3:]) {
 		return -1
 	}
 
 	va = pb[(*eb+nb-1)%nb]
 	vb = pb[*eb]
 	vc = pa[(*ea+2)%na]
-	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
+	if !uleft(verts[int(va)*3:], verts[int(vb)*3:], verts[int(vc)*3:]) {
 		return -1
 	}
 
 	va = pa[*ea]
 	vb = pa[(*ea+1)%na]
 
-	dx := int32(verts[va*3+0]) - int32(verts[vb*3+0])
-	dy := int32(verts[va*3+2]) - int32(verts[vb*3+2])
+	dx := int32(verts[int(va)*3+0]) - int32(verts[int(vb)*3+0])
+	dy := int32(verts[int(va)*3+2]) - int32(verts[int(vb)*3+2])
 
 	return dx*dx + dy*dy
 }
diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 5ed97ef..f5f5cc3 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -387,7 +387,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int(p[j])*3:]
 			*xmin = iMin(*xmin, int32(v[0]))
 			*xmax = iMax(*xmax, int32(v[0]))
 			*ymin = iMin(*ymin, int32(v[2]))
@@ -428,7 +428,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int(p[j])*3:]
 			poly[j*3+0] = float32(v[0]) * cs
 			poly[j*3+1] = float32(v[1]) * ch
 			poly[j*3+2] = float32(v[2]) * cs
@@ -1063,9 +1063,9 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	)
 	for j := int32(0); j < npoly && dmin > 0; j++ {
 		for k := int32(0); k < 9 && dmin > 0; k++ {
-			ax := int32(verts[poly[j]*3+0]) + bsOffset[k*2+0]
-			ay := int32(verts[poly[j]*3+1])
-			az := int32(verts[poly[j]*3+2]) + bsOffset[k*2+1]
+			ax := int32(verts[int(poly[j])*3+0]) + bsOffset[k*2+0]
+			ay := int32(verts[int(poly[j])*3+1])
+			az := int32(verts[int(poly[j])*3+2]) + bsOffset[k*2+1]
 			if ax < hp.xmin || ax >= hp.xmin+hp.width ||
 				az < hp.ymin || az >= hp.ymin+hp.height {
 				continue
@@ -1091,8 +1091,8 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	// Find center of the polygon
 	var pcx, pcy int32
 	for j := int32(0); j < npoly; j++ {
-		pcx += int32(verts[poly[j]*3+0])
-		pcy += int32(verts[poly[j]*3+2])
+		pcx += int32(verts[int(poly[j])*3+0])
+		pcy += int32(verts[int(poly[j])*3+2])
 	}
 	pcx /= npoly
 	pcy /= npoly
diff --git a/recast/polymesh.go b/recast/polymesh.go
index 2ae38e1..22239ac 100644
--- a/recast/polymesh.go
+++ b/recast/polymesh.go
@@ -282,8 +282,8 @@ func BuildPolyMesh(ctx *BuildContext, cset *ContourSet, nvp int32) (*PolyMesh, b
 				if nj >= nvp || p[nj] == meshNullIdx {
 					nj = 0
 				}
-				va := mesh.Verts[p[j]*3:]
-				vb := mesh.Verts[p[nj]*3:]
+				va := mesh.Verts[int(p[j])*3:]
+				vb := mesh.Verts[int(p[nj])*3:]
 
 				if int32(va[0]) == 0 && int32(vb[0]) == 0 {
 					p[nvp+j] = 0x8000 | 0
-- 
2.43.0


From 16764aa3cdf74d802e53564b9c1fd25134065b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 09/89] fix: look at both edges of a vertex when deciding on
 its removal

---
 recast/mesh.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 15cdf5c..5ff8811 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -496,8 +496,7 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 		nv := countPolyVerts(p, nvp)
 
 		// Collect edges which touches the removed vertex.
-		var j int32
-		for k := nv - 1; j < nv; k = j {
+		for j, k := int32(0), nv-1; j < nv; k, j = j, j+1 {
 			if p[j] == rem || p[k] == rem {
 				// Arrange edge so that a=rem.
 				a, b := p[j], p[k]
@@ -524,7 +523,6 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 					nedges++
 				}
 			}
-			j++
 		}
 	}
 
-- 
2.43.0


From 0d272fd4188983eafd0c05e94f5cfa76260199fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 10/89] fix: merge poly mesh vertices whichever of the two is
 higher

---
 recast/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 5ff8811..08ccff1 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -112,7 +112,7 @@ func addVertex(x, y, z uint16, verts []uint16, firstVert, nextVert []int32, nv *
 
 	for i != -1 {
 		v := verts[i*3:]
-		if v[0] == x && (iAbs(int32(v[1]-y)) <= 2) && v[2] == z {
+		if v[0] == x && (iAbs(int32(v[1])-int32(y)) <= 2) && v[2] == z {
 			return uint16(i)
 		}
 		i = nextVert[i] // next
-- 
2.43.0


From fe234252840aab57ca2c398773fb101f655c2934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 11/89] fix: clear the previous neighbour of a compact span in
 SetCon

---
 recast/recast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/recast.go b/recast/recast.go
index dd10b7c..6d6fd86 100644
--- a/recast/recast.go
+++ b/recast/recast.go
@@ -238,7 +238,7 @@ func init() {
 func SetCon(s *CompactSpan, dir, i int32) {
 	shift := uint32(uint32(dir * 6))
 	con := uint32(s.Con)
-	s.Con = (con ^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
+	s.Con = (con &^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
 }
 
 // GetCon gets neighbor connection data for the specified direction.
-- 
2.43.0


From da405b1f0a2a9a337e7e93f12f642068b7251eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 12/89] fix: saturate the distances computed while eroding the
 walkable area

---
 recast/area.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 8f2b833..e7cf8a8 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -83,7 +83,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(0)
 					ai := int32(chf.Cells[ax+ay*w].Index) + int32(GetCon(s, 0))
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -93,7 +93,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(3)
 						aay := ay + GetDirOffsetY(3)
 						aai := int32(chf.Cells[aax+aay*w].Index) + int32(GetCon(as, 3))
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -106,7 +106,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(3)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 3)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -116,7 +116,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(2)
 						aay := ay + GetDirOffsetY(2)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 2)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -140,7 +140,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(2)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 2)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -150,7 +150,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(1)
 						aay := ay + GetDirOffsetY(1)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 1)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -162,7 +162,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(1)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 1)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -172,7 +172,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(0)
 						aay := ay + GetDirOffsetY(0)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 0)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
-- 
2.43.0


From 8075c410abe7cc6572c8232c32511f59e5c74d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 13/89] fix: count the vertices of a convex volume, not their
 coordinates

---
 recast/area.go      | 2 +-
 recast/inputgeom.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index e7cf8a8..95b3cf1 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -222,7 +222,7 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	var bmin, bmax [3]float32
 	copy(bmin[:], verts[:3])
 	copy(bmax[:], verts[:3])
-	for i := int32(1); i*3 < nverts; i++ {
+	for i := int32(1); i < nverts; i++ {
 		v := verts[i*3:]
 		d3.Vec3Min(bmin[:], v)
 		d3.Vec3Max(bmax[:], v)
diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index eec5939..bb5277e 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -219,7 +219,7 @@ func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area u
 	copy(vol.Verts[:], verts)
 	vol.HMin = minh
 	vol.HMax = maxh
-	vol.NVerts = int32(len(verts))
+	vol.NVerts = int32(len(verts) / 3)
 	vol.Area = int32(area)
 }
 
-- 
2.43.0


From 24a6efe3a07a9f311f433bb0071f5241337e1b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 14/89] fix: make room for rows with many layers in
 BuildRegionsMonotone

---
 recast/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index dbeebdd..7807589 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -102,6 +102,10 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 				if previd == 0 {
 					previd = rid
 					rid++
+					if int(previd) >= len(sweeps) {
+						// A row may hold more runs of spans than cells.
+						sweeps = append(sweeps, make([]sweepSpan, len(sweeps)+1)...)
+					}
 					sweeps[previd].rid = previd
 					sweeps[previd].ns = 0
 					sweeps[previd].nei = 0
-- 
2.43.0


From f83448d249bd4b27a1eb1a9ba8a8b6feaa17448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 15/89] fix: keep border vertices in between two areas

---
 recast/contour.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index c5e07f5..3c1daf4 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -11,11 +11,11 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 	ch = int32(s.Y)
 	dirp := (dir + 1) & 0x3
 
-	regs := [4]uint16{0, 0, 0, 0}
+	regs := [4]uint32{0, 0, 0, 0}
 
 	// Combine region and area codes in order to prevent
 	// border vertices which are in between two areas to be removed.
-	regs[0] = uint16(uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16))
+	regs[0] = uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16)
 
 	if GetCon(s, dir) != notConnected {
 		ax := x + GetDirOffsetX(dir)
@@ -23,13 +23,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dir)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[1] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[1] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dirp) != notConnected {
 			ax2 := ax + GetDirOffsetX(dirp)
 			ay2 := ay + GetDirOffsetY(dirp)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dirp)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 	if GetCon(s, dirp) != notConnected {
@@ -38,13 +38,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dirp)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[3] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[3] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dir) != notConnected {
 			ax2 := ax + GetDirOffsetX(dir)
 			ay2 := ay + GetDirOffsetY(dir)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dir)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 
@@ -57,9 +57,9 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 
 		// The vertex is a border vertex there are two same exterior cells in a row,
 		// followed by two interior cells and none of the regions are out of bounds.
-		twoSameExts := (regs[a]&regs[b]&borderReg) != 0 && regs[a] == regs[b]
-		twoInts := ((regs[c] | regs[d]) & borderReg) == 0
-		intsSameArea := (uint32(regs[c]) >> 16) == (uint32(regs[d]) >> 16)
+		twoSameExts := (regs[a]&regs[b]&uint32(borderReg)) != 0 && regs[a] == regs[b]
+		twoInts := ((regs[c] | regs[d]) & uint32(borderReg)) == 0
+		intsSameArea := (regs[c] >> 16) == (regs[d] >> 16)
 		noZeros := regs[a] != 0 && regs[b] != 0 && regs[c] != 0 && regs[d] != 0
 		if twoSameExts && twoInts && intsSameArea && noZeros {
 			isBorderVertex = true
-- 
2.43.0


From 60ad53c355ca3046695c632fee676d37c6ac87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 16/89] fix: expand the contour set when regions have more
 contours than expected

---
 recast/contour.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/recast/contour.go b/recast/contour.go
index 3c1daf4..ce2c3b6 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -303,7 +303,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 				// Create contour.
 				if len(simplified)/4 >= 3 {
 					if cset.NConts >= maxContours {
-						panic("ENTERING")
 						// Allocate more contours.
 						// This happens when a region has holes.
 						oldMax := maxContours
-- 
2.43.0


From ae1e5110185bdf70b345fe346647f245700552a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 17/89] fix: merge the holes of a region into its outline

---
 recast/contour.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index ce2c3b6..8e0543f 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -104,7 +104,8 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 
 	maxVerts := region.outline.NVerts
 	for i := int32(0); i < region.nholes; i++ {
-		maxVerts += region.holes[i].contour.NVerts
+		// Joining a hole duplicates one vertex on each side.
+		maxVerts += region.holes[i].contour.NVerts + 2
 	}
 
 	diags := make([]potentionalDiagonal, maxVerts)
@@ -140,13 +141,13 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 
 			// Sort potential diagonals by distance, we want to make the connection as short as possible.
 			//qsort(diags, ndiags, sizeof(rcPotentialDiagonal), compareDiagDist);
-			sort.Sort(compareDiagDist(diags))
+			sort.Sort(compareDiagDist(diags[:ndiags]))
 
 			// Find a diagonal that is not intersecting the outline not the remaining holes.
 			index = -1
 			for j := int32(0); j < ndiags; j++ {
 				pt := outline.Verts[diags[j].vert*4:]
-				intersect := intersectSegCountour(pt, corner, diags[i].vert, outline.NVerts, outline.Verts)
+				intersect := intersectSegCountour(pt, corner, diags[j].vert, outline.NVerts, outline.Verts)
 				for k := i; k < region.nholes && !intersect; k++ {
 					intersect = intersect || intersectSegCountour(pt, corner, -1, region.holes[k].contour.NVerts, region.holes[k].contour.Verts)
 				}
@@ -355,13 +356,13 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 	// Merge holes if needed.
 	if cset.NConts > 0 {
 		// Calculate winding of all polygons.
-		winding := make([]uint8, cset.NConts)
+		winding := make([]int8, cset.NConts)
 		var nholes int32
 		for i := int32(0); i < cset.NConts; i++ {
 			cont := &cset.Conts[i]
 			// If the contour is wound backwards, it is a hole.
 			if calcAreaOfPolygon2D(cont.Verts, cont.NVerts) < 0 {
-				winding[i] = 0xff
+				winding[i] = -1
 			} else {
 				winding[i] = 1
 			}
@@ -371,7 +372,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 		}
 
 		if nholes > 0 {
-			panic("UNTESTED")
 			// Collect outline contour and holes contours per region.
 			// We assume that there is one outline and multiple holes.
 			nregions := chf.MaxRegions + 1
@@ -393,7 +393,7 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 			index := int32(0)
 			for i := uint16(0); i < nregions; i++ {
 				if regions[i].nholes > 0 {
-					regions[i].holes = holes[index:]
+					regions[i].holes = holes[index : index+regions[i].nholes]
 					index += regions[i].nholes
 					regions[i].nholes = 0
 				}
-- 
2.43.0


From 699b48d2068e6ef208adffee631a0862e3f2288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 18/89] fix: drop the dangling faces of a detail mesh

---
 recast/meshdetail.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index f5f5cc3..9c5f035 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -701,7 +701,6 @@ func delaunayHull(ctx *BuildContext, npts int32, pts []float32,
 		t := (*tris)[i*4:]
 		if t[0] == -1 || t[1] == -1 || t[2] == -1 {
 			ctx.Warningf("delaunayHull: Removing dangling face %d [%d,%d,%d].", i, t[0], t[1], t[2])
-			panic("untested")
 			// TODO: simplify
 			t[0] = (*tris)[len(*tris)-4]
 			t[1] = (*tris)[len(*tris)-3]
-- 
2.43.0


From d383899c3cd20bb6d124aa293bdb339b87bd64be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 19/89] fix: build the detail mesh when height sampling is
 disabled

---
 recast/meshdetail.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 9c5f035..845f31e 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -923,6 +923,12 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 			}
 			j = i
 		}
+	} else {
+		// Without sampling, the hull is the polygon itself.
+		for i := int32(0); i < nin; i++ {
+			hull[nhull] = i
+			nhull++
+		}
 	}
 
 	// If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From 05e87ee49d294c4a5a9ea449ad8f13a9177e127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 20/89] fix: report OBJ faces with missing vertices as an error

---
 recast/meshloaderobj.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/recast/meshloaderobj.go b/recast/meshloaderobj.go
index 2a1909e..21980fb 100644
--- a/recast/meshloaderobj.go
+++ b/recast/meshloaderobj.go
@@ -1,6 +1,7 @@
 package recast
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/arl/gobj"
@@ -28,7 +29,7 @@ func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 		obj *gobj.OBJFile
 		err error
 	)
-	obj, err = gobj.Decode(r)
+	obj, err = decodeOBJ(r)
 	if err != nil {
 		return err
 	}
@@ -86,6 +87,19 @@ func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 	return nil
 }
 
+// decodeOBJ decodes the OBJ geometry read from r.
+//
+// The decoder panics on faces that refer to vertices it has not read, this is
+// reported as an error.
+func decodeOBJ(r io.Reader) (obj *gobj.OBJFile, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			obj, err = nil, fmt.Errorf("invalid OBJ geometry: %v", e)
+		}
+	}()
+	return gobj.Decode(r)
+}
+
 func (mlo *MeshLoaderOBJ) Scale() float32 {
 	return mlo.scale
 }
-- 
2.43.0


From 92f85f8180d00c40d771a1f1239a77574da80096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 21/89] fix: report an OBJ mesh without vertices as an error

---
 recast/inputgeom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index bb5277e..8582380 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -102,6 +102,9 @@ func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
 	if err = ig.mesh.Load(r); err != nil {
 		return err
 	}
+	if ig.mesh.VertCount() == 0 {
+		return fmt.Errorf("no vertices in the mesh")
+	}
 
 	CalcBounds(ig.mesh.Verts(), ig.mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
 
-- 
2.43.0


From b4219885152d04770e0426b9512464c1e7f42a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 22/89] fix: build the bounding volume tree of tiles without
 detail mesh

---
 detour/navmeshcreate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 8e2e03c..5f2f7ff 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -289,7 +289,6 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[1] = uint16(int32Clamp(int32((bmax[1]-params.BMin[1])*quantFactor), 0, 0xffff))
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
 		} else {
-			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
 			it.BMin[0] = params.Verts[int(p[0])*3+0]
 			it.BMin[1] = params.Verts[int(p[0])*3+1]
-- 
2.43.0


From c0a27038889b521246ee7a02c9cc3b52c918e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 23/89] fix: create tiles without bounding volume tree

---
 detour/navmeshcreate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5f2f7ff..61dcb59 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -718,7 +718,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	navDMeshes := make([]PolyDetail, params.PolyCount)
 	navDVerts := make([]float32, 3*uniqueDetailVertCount)
 	navDTris := make([]uint8, 4*detailTriCount)
-	navBvtree := make([]BvNode, params.PolyCount*2)
+	var navBvtree []BvNode
+	if params.BuildBvTree {
+		navBvtree = make([]BvNode, params.PolyCount*2)
+	}
 	offMeshCons := make([]OffMeshConnection, storedOffMeshConCount)
 
 	// Fill header
-- 
2.43.0


From 97eefa879c5beea18da87841f1c9d59de1fca245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 24/89] fix: don't take the padding of a bounding volume tree
 for a polygon

---
 detour/query.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 11a30fe..6b3415b 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1249,6 +1249,11 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 
 		nodeIdx = 0
 		endIdx = tile.Header.BvNodeCount
+		// A tree of n leaves has 2n-1 nodes, room for more is padding and
+		// doesn't refer to any polygon.
+		if nnodes := 2*(tile.Header.PolyCount-tile.Header.OffMeshConCount) - 1; endIdx > nnodes {
+			endIdx = nnodes
+		}
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
 		tbmax = d3.NewVec3From(tile.Header.BMax[:])
-- 
2.43.0


From 38c082e4a80148da08969a2fa80f9c3b79e07f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 25/89] fix: read whole tiles from readers that return less
 than asked

---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 2d545df..55e355a 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -111,7 +111,7 @@ func Decode(r io.Reader) (*NavMesh, error) {
 		if data == nil {
 			break
 		}
-		_, err = r.Read(data)
+		_, err = io.ReadFull(r, data)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From c4eecf30225e8ba424c8323b71288db6b0e1c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 26/89] fix: reject wrong tile sizes in Decode

---
 detour/mesh.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 55e355a..f2fdef2 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"log"
 	"math"
 	"os"
@@ -107,14 +108,18 @@ func Decode(r io.Reader) (*NavMesh, error) {
 			break
 		}
 
-		data := make([]byte, tileHdr.DataSize)
-		if data == nil {
-			break
+		if tileHdr.DataSize < 0 {
+			return nil, fmt.Errorf("wrong size for tile %d: %d", i, tileHdr.DataSize)
 		}
-		_, err = io.ReadFull(r, data)
+
+		// Don't allocate more than what can actually be read.
+		data, err := ioutil.ReadAll(io.LimitReader(r, int64(tileHdr.DataSize)))
 		if err != nil {
 			return nil, err
 		}
+		if len(data) != int(tileHdr.DataSize) {
+			return nil, io.ErrUnexpectedEOF
+		}
 		status, _ := mesh.AddTile(data, tileHdr.TileRef)
 		if status&Failure != 0 {
 			return nil, fmt.Errorf("couldn't add tile %d(), status: 0x%x", i, status)
-- 
2.43.0


From 59a9ba07413faa303ff9bd04a525ce40fc256c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 27/89] fix: reject meshes with more tiles and polygons than
 references can hold

---
 detour/mesh.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index f2fdef2..9134c60 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -247,6 +247,13 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 //
 // Return the status flags for the operation.
 func (m *NavMesh) Init(params *NavMeshParams) Status {
+	// References are made of 32 bits, at least 8 of them are for the salt.
+	const maxRefBits = 24
+	if params.MaxTiles > 1<<maxRefBits || params.MaxPolys > 1<<maxRefBits ||
+		math32.Ilog2(math32.NextPow2(params.MaxTiles))+math32.Ilog2(math32.NextPow2(params.MaxPolys)) > maxRefBits {
+		return Failure | InvalidParam
+	}
+
 	m.Params = *params
 	m.Orig = d3.NewVec3From(params.Orig[0:3])
 	m.TileWidth = params.TileWidth
-- 
2.43.0


From 531397af2880ab0938d9baf1d76b2a78acbce380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 28/89] fix: give its flags to the tile of a single tile mesh

---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 9134c60..a7b0434 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -236,7 +236,11 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 		return status
 	}
 
-	status, _ = m.AddTile(data, TileRef(flags))
+	status, ref := m.AddTile(data, 0)
+	if StatusFailed(status) {
+		return status
+	}
+	m.TileByRef(ref).Flags = int32(flags)
 	return status
 }
 
-- 
2.43.0


From aa094f2ae7b7c2b96e41bab3237b20febd21126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 29/89] fix: report tiles that can't be added instead of
 exiting

---
 detour/mesh.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index a7b0434..c44ad03 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
-	"log"
 	"math"
 	"os"
 	"unsafe"
@@ -352,7 +351,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		// Try to relocate the tile to specific index with same salt.
 		tileIndex := int32(m.decodePolyIDTile(PolyRef(lastRef)))
 		if tileIndex >= m.MaxTiles {
-			log.Fatalln("tileIndex >= m.m_maxTiles", tileIndex, m.MaxTiles)
 			return Failure | OutOfMemory, 0
 		}
 		// Try to find the specific tile id from the free list.
@@ -365,7 +363,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		}
 		// Could not find the correct location.
 		if tile != target {
-			log.Fatalln("couldn't find the correct tile location")
 			return Failure | OutOfMemory, 0
 		}
 		// Remove from freelist
@@ -381,7 +378,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 
 	// Make sure we could allocate a tile.
 	if tile == nil {
-		log.Fatalln("couldn't allocate tile")
 		return Failure | OutOfMemory, 0
 	}
 
-- 
2.43.0


From d10d736ca1167bf85d5f0ded87caa0189517f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 30/89] fix: reject the removal of tiles that are not in the
 mesh

---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index c44ad03..6e33482 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -472,7 +472,7 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 		return data, Failure | InvalidParam
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return data, Failure | InvalidParam
 	}
 	if tile.Data != nil {
-- 
2.43.0


From 3c213e486ee730cf223ce28d13d947bad755aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 31/89] fix: close the files navigation meshes are saved to

---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 6e33482..0df58c5 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -134,7 +134,11 @@ func (m *NavMesh) SaveToFile(fn string) error {
 		return err
 	}
 
-	return m.ToWriter(f)
+	if err := m.ToWriter(f); err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
 }
 
 // ToWriter writes binary navigation mesh to io.Writer.
-- 
2.43.0


From 5d668d47d43a998d3ed5c9c9b1160aa583bf6421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 32/89] fix: reject tiles with less data than their header
 tells

---
 detour/mesh.go    | 20 ++++++++++++++++----
 detour/structs.go | 25 +++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 0df58c5..9d8c95f 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -217,6 +217,9 @@ func (m *NavMesh) Size() int32 {
 //	see CreateNavMeshData
 func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 	var header MeshHeader
+	if len(data) < header.size() {
+		return Failure | InvalidParam
+	}
 	header.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -226,6 +229,9 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 	if header.Version != navMeshVersion {
 		return Failure | WrongVersion
 	}
+	if size := header.tileSize(); size < 0 || size > int64(len(data)) {
+		return Failure | InvalidParam
+	}
 
 	var params NavMeshParams
 	copy(params.Orig[:], header.BMin[:])
@@ -328,6 +334,9 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 // see CreateNavMeshData, removeTileBvTree
 func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	var hdr MeshHeader
+	if len(data) < hdr.size() {
+		return Failure | InvalidParam, 0
+	}
 	hdr.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -337,6 +346,9 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	if hdr.Version != navMeshVersion {
 		return Failure | WrongVersion, 0
 	}
+	if size := hdr.tileSize(); size < 0 || size > int64(len(data)) {
+		return Failure | InvalidParam, 0
+	}
 
 	// Make sure the location is free.
 	if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {
@@ -398,12 +410,12 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	}
 
 	// Build links freelist
-	tile.LinksFreeList = 0
-	tile.Links[hdr.MaxLinkCount-1].Next = nullLink
+	tile.LinksFreeList = nullLink
 
 	var i int32
-	for ; i < hdr.MaxLinkCount-1; i++ {
-		tile.Links[i].Next = uint32(i + 1)
+	for i = hdr.MaxLinkCount - 1; i >= 0; i-- {
+		tile.Links[i].Next = tile.LinksFreeList
+		tile.LinksFreeList = uint32(i)
 	}
 
 	// Init tile.
diff --git a/detour/structs.go b/detour/structs.go
index a5bfd7d..a2d0532 100644
--- a/detour/structs.go
+++ b/detour/structs.go
@@ -111,6 +111,31 @@ func (s *MeshHeader) size() int {
 	return 100
 }
 
+// tileSize returns the size of the data of the tile described by the header,
+// header included, or -1 if there's no such tile.
+func (s *MeshHeader) tileSize() int64 {
+	size := int64(s.size())
+	for _, part := range [...]struct {
+		count int32
+		size  int64
+	}{
+		{s.VertCount, 12},
+		{s.PolyCount, 32},
+		{s.MaxLinkCount, 12},
+		{s.DetailMeshCount, 12},
+		{s.DetailVertCount, 12},
+		{s.DetailTriCount, 4},
+		{s.BvNodeCount, 16},
+		{s.OffMeshConCount, 36},
+	} {
+		if part.count < 0 {
+			return -1
+		}
+		size += int64(part.count) * part.size
+	}
+	return size
+}
+
 func (s *MeshHeader) serialize(dst []byte) {
 	if len(dst) < s.size() {
 		panic("undersized buffer for MeshHeader")
-- 
2.43.0


From 080cc89f296ccc171bcaca6ac70f589c0702c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 33/89] fix: reject tiles with more polygons than references
 can hold

---
 detour/mesh.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index 9d8c95f..216d27f 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -350,6 +350,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		return Failure | InvalidParam, 0
 	}
 
+	// Make sure references can address all the polygons of the tile.
+	if int64(hdr.PolyCount) > int64(1)<<m.polyBits {
+		return Failure | InvalidParam, 0
+	}
+
 	// Make sure the location is free.
 	if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {
 		return Failure, 0
-- 
2.43.0


From c716bb0ba75e9daf2c8216a387168076c0aa1e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 34/89] fix: don't overwrite files nor panic when there's
 nobody to confirm it

---
 cmd/recast/cmd/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/recast/cmd/utils.go b/cmd/recast/cmd/utils.go
index ac367c9..7df6885 100644
--- a/cmd/recast/cmd/utils.go
+++ b/cmd/recast/cmd/utils.go
@@ -30,7 +30,11 @@ func askForConfirmation(msg string) bool {
 
 	for {
 		input, _ := reader.ReadString('\n')
-		c := string([]byte(input)[0])[0]
+		if len(input) == 0 {
+			// no answer to come
+			return false
+		}
+		c := input[0]
 		if c == 10 {
 			// ENTER
 			c = defaultInput
-- 
2.43.0


From 67459ac223484202426fdab39636f3a1bf96b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 35/89] fix: build tiles made of more than 512 chunks of
 triangles

---
 sample/tilemesh/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index eae53f1..83d0eae 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -284,8 +284,8 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tbmin[1] = tm.cfg.BMin[2]
 	tbmax[0] = tm.cfg.BMax[0]
 	tbmax[1] = tm.cfg.BMax[2]
-	var cid [512]int32 // TODO: Make grow when returning too many items.
-	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid[:])
+	cid := make([]int32, len(chunkyMesh.Nodes))
+	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid)
 	if ncid == 0 {
 		return nil
 	}
-- 
2.43.0


From 07e963a50dd696ccacfab5bc45008c1c7c4fd65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 36/89] fix: don't find polygons out of reach above or below a
 tile

---
 detour/common.go | 23 +++++++++++++++++++++++
 detour/mesh.go   | 22 +++++-----------------
 detour/query.go  | 24 +++++-------------------
 3 files changed, 33 insertions(+), 36 deletions(-)

diff --git a/detour/common.go b/detour/common.go
index a95e6c8..1309c49 100644
--- a/detour/common.go
+++ b/detour/common.go
@@ -37,6 +37,29 @@ func IntersectSegSeg2D(ap, aq, bp, bq d3.Vec3) (hit bool, s, t float32) {
 	return true, v.Perp2D(w) / d, u.Perp2D(w) / d
 }
 
+// quantizeQueryBox converts the box [qmin, qmax] to the units of the bounding
+// volume tree of a tile having tmin as lower bound and qfac as quantization
+// factor. It returns false if the box ends below the lower bound.
+func quantizeQueryBox(qmin, qmax, tmin []float32, qfac float32) (bmin, bmax [3]uint16, ok bool) {
+	quantize := func(f float32) uint16 {
+		switch {
+		case f >= 0xffff:
+			return 0xffff
+		case f > 0:
+			return uint16(f)
+		}
+		return 0
+	}
+	for i := range bmin {
+		if qmax[i] < tmin[i] {
+			return bmin, bmax, false
+		}
+		bmin[i] = quantize(qfac*(qmin[i]-tmin[i])) & 0xfffe
+		bmax[i] = quantize(qfac*(qmax[i]-tmin[i])+1) | 1
+	}
+	return bmin, bmax, true
+}
+
 // OverlapQuantBounds determines if two axis-aligned bounding boxes overlap.
 //
 //	amin   Minimum bounds of box A. [(x, y, z)]
diff --git a/detour/mesh.go b/detour/mesh.go
index 216d27f..5991a24 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -966,32 +966,20 @@ func (m *NavMesh) queryPolygonsInTile(
 		var (
 			node            *BvNode
 			nodeIdx, endIdx int32
-			tbmin, tbmax    d3.Vec3
+			tbmin           d3.Vec3
 			qfac            float32
-			bmin, bmax      [3]uint16
 		)
 		nodeIdx = 0
 		endIdx = tile.Header.BvNodeCount
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
-		tbmax = d3.NewVec3From(tile.Header.BMax[:])
 		qfac = tile.Header.BvQuantFactor
 
 		// Calculate quantized box
-		// clamp query box to world box.
-		minx := f32.Clamp(qmin[0], tbmin[0], tbmax[0]) - tbmin[0]
-		miny := f32.Clamp(qmin[1], tbmin[1], tbmax[1]) - tbmin[1]
-		minz := f32.Clamp(qmin[2], tbmin[2], tbmax[2]) - tbmin[2]
-		maxx := f32.Clamp(qmax[0], tbmin[0], tbmax[0]) - tbmin[0]
-		maxy := f32.Clamp(qmax[1], tbmin[1], tbmax[1]) - tbmin[1]
-		maxz := f32.Clamp(qmax[2], tbmin[2], tbmax[2]) - tbmin[2]
-		// Quantize
-		bmin[0] = uint16(uint32(qfac*minx) & 0xfffe)
-		bmin[1] = uint16(uint32(qfac*miny) & 0xfffe)
-		bmin[2] = uint16(uint32(qfac*minz) & 0xfffe)
-		bmax[0] = uint16(uint32(qfac*maxx+1) | 1)
-		bmax[1] = uint16(uint32(qfac*maxy+1) | 1)
-		bmax[2] = uint16(uint32(qfac*maxz+1) | 1)
+		bmin, bmax, ok := quantizeQueryBox(qmin, qmax, tbmin, qfac)
+		if !ok {
+			return 0
+		}
 
 		// Traverse tree
 		base := m.polyRefBase(tile)
diff --git a/detour/query.go b/detour/query.go
index 6b3415b..d1b70ef 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -6,7 +6,6 @@ import (
 	"unsafe"
 
 	assert "github.com/arl/assertgo"
-	"github.com/arl/gogeo/f32"
 	"github.com/arl/gogeo/f32/d3"
 	"github.com/arl/math32"
 )
@@ -1243,7 +1242,7 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		var (
 			node            *BvNode
 			nodeIdx, endIdx int32
-			tbmin, tbmax    d3.Vec3
+			tbmin           d3.Vec3
 			qfac            float32
 		)
 
@@ -1256,26 +1255,13 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		}
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
-		tbmax = d3.NewVec3From(tile.Header.BMax[:])
 		qfac = tile.Header.BvQuantFactor
 
 		// Calculate quantized box
-		var bmin, bmax [3]uint16
-
-		// Clamp query box to world box.
-		minx := f32.Clamp(qmin[0], tbmin[0], tbmax[0]) - tbmin[0]
-		miny := f32.Clamp(qmin[1], tbmin[1], tbmax[1]) - tbmin[1]
-		minz := f32.Clamp(qmin[2], tbmin[2], tbmax[2]) - tbmin[2]
-		maxx := f32.Clamp(qmax[0], tbmin[0], tbmax[0]) - tbmin[0]
-		maxy := f32.Clamp(qmax[1], tbmin[1], tbmax[1]) - tbmin[1]
-		maxz := f32.Clamp(qmax[2], tbmin[2], tbmax[2]) - tbmin[2]
-		// Quantize
-		bmin[0] = uint16(qfac*minx) & 0xfffe
-		bmin[1] = uint16(qfac*miny) & 0xfffe
-		bmin[2] = uint16(qfac*minz) & 0xfffe
-		bmax[0] = uint16(qfac*maxx+1) | 1
-		bmax[1] = uint16(qfac*maxy+1) | 1
-		bmax[2] = uint16(qfac*maxz+1) | 1
+		bmin, bmax, ok := quantizeQueryBox(qmin, qmax, tbmin, qfac)
+		if !ok {
+			return
+		}
 
 		// Traverse tree
 		base := q.nav.polyRefBase(tile)
-- 
2.43.0


From b975b05e0b5e06cf976b5ae6d5393ab560d00322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 37/89] fix: don't write past the output when finalizing a
 sliced path query

---
 detour/query.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index d1b70ef..f6d7e7a 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2095,12 +2095,11 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				if path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
-			} else {
+			} else if n < maxPath {
 				path[n] = node.ID
 				n++
-				if n >= maxPath {
-					status = BufferTooSmall
-				}
+			} else {
+				status = BufferTooSmall
 			}
 
 			if (status & StatusDetailMask) != 0 {
@@ -2210,12 +2209,11 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				if path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
-			} else {
+			} else if n < maxPath {
 				path[n] = node[0].ID
 				n++
-				if n >= maxPath {
-					status = BufferTooSmall
-				}
+			} else {
+				status = BufferTooSmall
 			}
 
 			if (status & StatusDetailMask) != 0 {
-- 
2.43.0


From 5c261510576cc051a961c139849eadc407d6b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 38/89] fix: refuse to finalize a sliced path query that wasn't
 initialized

---
 detour/query.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index f6d7e7a..4887861 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2039,8 +2039,8 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 //
 // TODO: should remove maxPath as it should be the length of the path slice
 func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (pathCount int, st Status) {
-	if StatusFailed(q.query.status) {
-		// Reset query.
+	if !StatusSucceed(q.query.status) && !StatusInProgress(q.query.status) {
+		// The search has failed, or there's none. Reset query.
 		q.query = queryData{}
 		return 0, Failure
 	}
@@ -2142,8 +2142,8 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 		return 0, Failure
 	}
 
-	if StatusFailed(q.query.status) {
-		// Reset query.
+	if !StatusSucceed(q.query.status) && !StatusInProgress(q.query.status) {
+		// The search has failed, or there's none. Reset query.
 		q.query = queryData{}
 		return 0, Failure
 	}
-- 
2.43.0


From e7551c618690f9f8c8eea738f3397714710b5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 39/89] fix: find straight paths around corners where tiles
 have different heights

The funnel compares its apex with its sides in the ground plane: at a corner
shared by polygons of tiles whose border vertices have different heights, the
sides weren't recognized as being at the apex, and the path took a detour.
---
 detour/common.go | 5 +++++
 detour/query.go  | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/detour/common.go b/detour/common.go
index 1309c49..165f55b 100644
--- a/detour/common.go
+++ b/detour/common.go
@@ -23,6 +23,11 @@ func TriArea2D(a, b, c d3.Vec3) float32 {
 	return acx*abz - abx*acz
 }
 
+// approx2D reports whether a and b are approximately equal on the xz-plane.
+func approx2D(a, b d3.Vec3) bool {
+	return math32.Approx(a[0], b[0]) && math32.Approx(a[2], b[2])
+}
+
 // IntersectSegSeg2D returns whether two segments intersect, and their
 // intersection point.
 func IntersectSegSeg2D(ap, aq, bp, bq d3.Vec3) (hit bool, s, t float32) {
diff --git a/detour/query.go b/detour/query.go
index 4887861..786a4f3 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -525,7 +525,7 @@ func (q *NavMeshQuery) FindStraightPath(
 
 			// Right vertex.
 			if TriArea2D(portalApex, portalRight, right) <= 0.0 {
-				if portalApex.Approx(portalRight) || TriArea2D(portalApex, portalLeft, right) > 0.0 {
+				if approx2D(portalApex, portalRight) || TriArea2D(portalApex, portalLeft, right) > 0.0 {
 					portalRight.Assign(right)
 					if i+1 < len(path) {
 						rightPolyRef = path[i+1]
@@ -580,7 +580,7 @@ func (q *NavMeshQuery) FindStraightPath(
 
 			// Left vertex.
 			if TriArea2D(portalApex, portalLeft, left) >= 0.0 {
-				if portalApex.Approx(portalLeft) || TriArea2D(portalApex, portalRight, left) < 0.0 {
+				if approx2D(portalApex, portalLeft) || TriArea2D(portalApex, portalRight, left) < 0.0 {
 					portalLeft.Assign(left)
 					if i+1 < len(path) {
 						leftPolyRef = path[i+1]
-- 
2.43.0


From 860117ddc37d7a31b88384978e5f2124d3a2e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 40/89] fix: flag off-mesh connections entered at a corner of
 straight paths

When an off-mesh connection starts at a corner of the straight path (or at the
start of the path) the vertex wasn't flagged as the start of the connection.
---
 detour/query.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 786a4f3..278ab8d 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -466,6 +466,7 @@ func (q *NavMeshQuery) FindStraightPath(
 			rightIndex    int
 			leftPolyType  uint8
 			rightPolyType uint8
+			atApex        = true // all portals since the apex go through it
 		)
 
 		leftPolyRef := path[0]
@@ -509,12 +510,22 @@ func (q *NavMeshQuery) FindStraightPath(
 					return count, stat
 				}
 
-				// If starting really close the portal, advance.
-				if i == 0 {
+				if atApex {
 					var t float32
-					if distancePtSegSqr2D(portalApex, left, right, &t) < math32.Sqr(0.001) {
-						continue
+					atApex = distancePtSegSqr2D(portalApex, left, right, &t) < math32.Sqr(0.001)
+				}
+				if atApex && toType == uint8(polyTypeOffMeshConnection) && approx2D(portalApex, left) {
+					// The off-mesh connection starts at the last vertex.
+					apexIndex = i
+					stat = q.appendVertex(left, StraightPathOffMeshConnection, path[i+1],
+						straightPath, straightPathFlags, straightPathRefs,
+						&count)
+					if stat != InProgress {
+						return count, stat
 					}
+				} else if i == 0 && atApex {
+					// If starting really close the portal, advance.
+					continue
 				}
 			} else {
 				// End of the path.
@@ -572,6 +583,7 @@ func (q *NavMeshQuery) FindStraightPath(
 					rightIndex = apexIndex
 
 					// Restart
+					atApex = true
 					i = apexIndex
 
 					continue
@@ -627,6 +639,7 @@ func (q *NavMeshQuery) FindStraightPath(
 					rightIndex = apexIndex
 
 					// Restart
+					atApex = true
 					i = apexIndex
 
 					continue
-- 
2.43.0


From f845391da17ae2199226516a4f18aa61b935c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 41/89] fix: don't write past the output of straight paths
 interrupted by an invalid polygon

When the crossings of polygon borders (see StraightPathAllCrossings) fill the
output, the vertex added after them doesn't fit any more.
---
 detour/query.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 278ab8d..286a047 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -755,6 +755,11 @@ func (q *NavMeshQuery) appendVertex(
 			straightPathRefs[*straightPathCount-1] = ref
 		}
 	} else {
+		// There may be no space left, if the caller ignored it before.
+		if (*straightPathCount) >= len(straightPath) {
+			return Success | BufferTooSmall
+		}
+
 		// Append new vertex.
 		straightPath[*straightPathCount].Assign(pos)
 		if len(straightPathFlags) > 0 {
-- 
2.43.0


From 172009b708a0b63f65155883a56755fb946ec0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 42/89] fix: reset the edge index of ray casts from off-mesh
 connections

A ray that starts in an off-mesh connection left the edge index of the ray cast
before.
---
 detour/query.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/detour/query.go b/detour/query.go
index 286a047..0fe80db 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1474,6 +1474,7 @@ func (q *NavMeshQuery) Raycast(
 	hit.PathCount = 0
 	hit.PathCost = 0
 	hit.HitNormal = d3.NewVec3()
+	hit.HitEdgeIndex = 0
 
 	st = Success
 
-- 
2.43.0


From 3ae293dc39f54c5c4862f4a32f80c40e0853356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 43/89] fix: refuse to create tiles whose indices don't fit in
 16 bits

With more than 32767 polygons, neighbours past that one were taken for tile
borders; with off-mesh connections added to a mesh close to the limit of
vertices, the connections were given other vertices than theirs.
---
 detour/navmeshcreate.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 61dcb59..4ee382d 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -556,6 +556,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	if params.PolyCount == 0 || params.Polys == nil {
 		return nil, fmt.Errorf("wrong value for params.PolyCount or params.Polys")
 	}
+	if params.PolyCount >= int32(extLink) {
+		// neighbours are stored as polygon index + 1, below the extLink flag.
+		return nil, fmt.Errorf("wrong value for params.PolyCount")
+	}
 
 	nvp := params.Nvp
 
@@ -626,6 +630,14 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// Off-mesh connectionss are stored as polygons, adjust values.
 	totPolyCount := int(params.PolyCount + storedOffMeshConCount)
 	totVertCount := int(params.VertCount + storedOffMeshConCount*2)
+	if totVertCount > 0x10000 {
+		// vertex indices are stored as 16-bit values.
+		return nil, fmt.Errorf("wrong value for params.VertCount and params.OffMeshConCount")
+	}
+	if totPolyCount > 0x10000 {
+		// polygon indices are stored as 16-bit values.
+		return nil, fmt.Errorf("wrong value for params.PolyCount and params.OffMeshConCount")
+	}
 
 	// Find portal edges which are at tile borders.
 	var (
-- 
2.43.0


From c9ec24bf3aa46e934a02d3bdd64b8f72a5641048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 44/89] fix: keep the area of the taller span when merging
 spans

---
 recast/heightfield.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/recast/heightfield.go b/recast/heightfield.go
index 2928aa2..f597d90 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -146,6 +146,17 @@ func (hf *Heightfield) addSpan(x, y int32, smin, smax uint16,
 			prev = cur
 			cur = cur.next
 		} else {
+			// Merge flags.
+			mergeFlags := int32(s.smax) - int32(cur.smax)
+			if iAbs(mergeFlags) <= flagMergeThr {
+				if cur.area > s.area {
+					s.area = cur.area
+				}
+			} else if mergeFlags < 0 {
+				// The top of the merged span is the one of the current span.
+				s.area = cur.area
+			}
+
 			// Merge spans.
 			if cur.smin < s.smin {
 				s.smin = cur.smin
@@ -154,17 +165,6 @@ func (hf *Heightfield) addSpan(x, y int32, smin, smax uint16,
 				s.smax = cur.smax
 			}
 
-			// Merge flags.
-			mergeFlags := int32(s.smax) - int32(cur.smax)
-			if mergeFlags < 0 {
-				mergeFlags = -mergeFlags
-			}
-			if mergeFlags <= flagMergeThr {
-				if cur.area > s.area {
-					s.area = cur.area
-				}
-			}
-
 			// Remove current span.
 			next := cur.next
 			hf.freeSpan(cur)
-- 
2.43.0


From 47d1d53cc504f11ae368ec01fe752d76991b3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 45/89] fix: cut triangles at the lower bounds of the
 heightfield when rasterizing

---
 recast/rasterization.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/recast/rasterization.go b/recast/rasterization.go
index ff6f20c..8034e88 100644
--- a/recast/rasterization.go
+++ b/recast/rasterization.go
@@ -152,9 +152,10 @@ func rasterizeTri(v0, v1, v2 []float32,
 	}
 
 	// Calculate the footprint of the triangle on the grid's y-axis
-	y0 := int32((tmin[2] - bmin[2]) * ics)
+	y0 := int32(math32.Floor((tmin[2] - bmin[2]) * ics))
 	y1 := int32((tmax[2] - bmin[2]) * ics)
-	y0 = int32Clamp(y0, 0, h-1)
+	// Start at -1 to cut off what lies before the first row.
+	y0 = int32Clamp(y0, -1, h-1)
 	y1 = int32Clamp(y1, 0, h-1)
 
 	// Clip the triangle into all grid cells it touches.
@@ -177,7 +178,7 @@ func rasterizeTri(v0, v1, v2 []float32,
 		cz := bmin[2] + float32(y)*cs
 		nvrow, nvIn = dividePoly(in, nvIn, inrow, p1, cz+cs, 2)
 		in, p1 = p1, in
-		if nvrow < 3 {
+		if nvrow < 3 || y < 0 {
 			continue
 		}
 
@@ -191,9 +192,10 @@ func rasterizeTri(v0, v1, v2 []float32,
 				maxX = inrow[i*3]
 			}
 		}
-		x0 := int32((minX - bmin[0]) * ics)
+		x0 := int32(math32.Floor((minX - bmin[0]) * ics))
 		x1 := int32((maxX - bmin[0]) * ics)
-		x0 = int32Clamp(x0, 0, w-1)
+		// Start at -1 to cut off what lies before the first column.
+		x0 = int32Clamp(x0, -1, w-1)
 		x1 = int32Clamp(x1, 0, w-1)
 
 		var nv, nv2 int32
@@ -204,7 +206,7 @@ func rasterizeTri(v0, v1, v2 []float32,
 			cx := bmin[0] + float32(x)*cs
 			nv, nv2 = dividePoly(inrow, nv2, p1, p2, cx+cs, 0)
 			inrow, p2 = p2, inrow
-			if nv < 3 {
+			if nv < 3 || x < 0 {
 				continue
 			}
 
-- 
2.43.0


From 338167f563d3d8941694e8af00f13f1dcbc13892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 46/89] fix: erode by radiuses of 128 cells and more

---
 recast/area.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 95b3cf1..63c637f 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -30,11 +30,11 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 	ctx.StartTimer(TimerErodeArea)
 	defer ctx.StopTimer(TimerErodeArea)
 
-	dist := make([]uint8, chf.SpanCount)
+	dist := make([]uint16, chf.SpanCount)
 
 	// Init distance.
 	for i := range dist {
-		dist[i] = 0xff
+		dist[i] = 0xffff
 	}
 
 	// Mark boundary cells.
@@ -67,7 +67,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	var nd uint8
+	var nd uint16
 
 	// Pass 1
 	for y := int32(0); y < h; y++ {
@@ -83,7 +83,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(0)
 					ai := int32(chf.Cells[ax+ay*w].Index) + int32(GetCon(s, 0))
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, int32(0xffff)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -93,7 +93,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(3)
 						aay := ay + GetDirOffsetY(3)
 						aai := int32(chf.Cells[aax+aay*w].Index) + int32(GetCon(as, 3))
-						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, int32(0xffff)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -106,7 +106,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(3)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 3)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, int32(0xffff)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -116,7 +116,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(2)
 						aay := ay + GetDirOffsetY(2)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 2)
-						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, int32(0xffff)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -140,7 +140,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(2)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 2)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, int32(0xffff)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -150,7 +150,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(1)
 						aay := ay + GetDirOffsetY(1)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 1)
-						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, int32(0xffff)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -162,7 +162,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(1)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 1)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, int32(0xffff)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -172,7 +172,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(0)
 						aay := ay + GetDirOffsetY(0)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 0)
-						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, int32(0xffff)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -182,7 +182,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	thr := uint8(radius * 2)
+	thr := uint16(radius * 2)
 	for i := int32(0); i < chf.SpanCount; i++ {
 		if dist[i] < thr {
 			chf.Areas[i] = nullArea
-- 
2.43.0


From 09366c76058c658b9c550f695a42f788d32d7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 47/89] fix: tell holes of one cell apart from outlines

---
 recast/contour.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/contour.go b/recast/contour.go
index 8e0543f..54659ca 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -764,6 +764,10 @@ func calcAreaOfPolygon2D(verts []int32, nverts int32) int32 {
 		area += vi[0]*vj[2] - vj[0]*vi[2]
 		j = i
 	}
+	if area < 0 {
+		// Round away from zero, as the sign tells outlines and holes apart.
+		return (area - 1) / 2
+	}
 	return (area + 1) / 2
 }
 
-- 
2.43.0


From 85122bcb429b01e322d46e1a90977241a103e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 48/89] fix: check both ends of diagonals when triangulating
 contours merged with holes

---
 recast/mesh.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 08ccff1..953b112 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -151,7 +151,9 @@ func inCone5(i, j, n int32, verts []int32, indices []int64) bool {
 // Returns T iff (v_i, v_j) is a proper internal
 // diagonal of P.
 func diagonal(i, j, n int32, verts []int32, indices []int64) bool {
-	return inCone5(i, j, n, verts, indices) && diagonalie(i, j, n, verts, indices)
+	// Both ends have to be checked, as there may be other vertices at the same
+	// place as an end, where holes have been merged into the contour.
+	return inCone5(i, j, n, verts, indices) && inCone5(j, i, n, verts, indices) && diagonalie(i, j, n, verts, indices)
 }
 
 func diagonalieLoose(i, j, n int32, verts []int32, indices []int64) bool {
-- 
2.43.0


From b02a44c7d6809bab1ae9f5cd5c399d4f29614c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 49/89] fix: keep the height of detail mesh positions without
 any surface nearby

---
 recast/meshdetail.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 845f31e..a9f6bcf 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -257,6 +257,11 @@ func getHeight(fx, fy, fz, cs, ics, ch float32, radius int32, hp *HeightPatch) u
 			x += dx
 			z += dz
 		}
+
+		if uint32(h) == unsetHeight {
+			// There's no surface nearby, keep the height of the position.
+			h = uint16(int32Clamp(int32(fy/ch), 0, unsetHeight-1))
+		}
 	}
 	return h
 }
-- 
2.43.0


From 68cf4ebf653169fcdf4b0af7e30d8fff8047494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 50/89] fix: ignore degenerate triangles when measuring the
 error of detail meshes

---
 recast/meshdetail.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index a9f6bcf..a16bdc3 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -100,8 +100,15 @@ func distPtTri(p, a, b, c []float32) float32 {
 	dot11 := vdot2(v1[:], v1[:])
 	dot12 := vdot2(v1[:], v2[:])
 
+	// Degenerate triangles don't cover anything, and their barycentric
+	// coordinates are meaningless.
+	denom := dot00*dot11 - dot01*dot01
+	if denom <= 1e-6*dot00*dot11 {
+		return math.MaxFloat32
+	}
+
 	// Compute barycentric coordinates
-	invDenom := float32(1.0 / (dot00*dot11 - dot01*dot01))
+	invDenom := float32(1.0 / denom)
 	u := (dot11*dot02 - dot01*dot12) * invDenom
 	v := (dot00*dot12 - dot01*dot02) * invDenom
 
-- 
2.43.0


From 1a146703e2d5f0838ca7c17a1d40f8956b7f763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 51/89] fix: don't add triangles overlapping others to detail
 meshes

---
 recast/meshdetail.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index a16bdc3..5f22519 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -564,6 +564,12 @@ func overlapEdges(pts []float32, edges []int32, nedges, s1, t1 int32) bool {
 	return false
 }
 
+// overlapNewEdge tells if the edge s1-t1 overlaps others, if it isn't one of
+// them yet.
+func overlapNewEdge(pts []float32, edges []int32, nedges, s1, t1 int32) bool {
+	return findEdge(edges, nedges, s1, t1) == EV_UNDEF && overlapEdges(pts, edges, nedges, s1, t1)
+}
+
 func completeFacet(ctx *BuildContext, pts []float32, npts int32, edges []int32, nedges *int32, maxEdges int32, nfaces *int32, e int32) {
 	const EPS float32 = 1e-5
 
@@ -592,6 +598,9 @@ func completeFacet(ctx *BuildContext, pts []float32, npts int32, edges []int32,
 		}
 		if vcross2(pts[s*3:], pts[t*3:], pts[u*3:]) > EPS {
 			if r < 0 {
+				if overlapNewEdge(pts, edges, *nedges, s, u) || overlapNewEdge(pts, edges, *nedges, t, u) {
+					continue
+				}
 				// The circle is not updated yet, do it now.
 				pt = u
 				r, _ = circumCircle(pts[s*3:], pts[t*3:], pts[u*3:], c[:])
@@ -603,6 +612,9 @@ func completeFacet(ctx *BuildContext, pts []float32, npts int32, edges []int32,
 				// Outside current circumcircle, skip.
 				continue
 			} else if d < r*(1-tol) {
+				if overlapNewEdge(pts, edges, *nedges, s, u) || overlapNewEdge(pts, edges, *nedges, t, u) {
+					continue
+				}
 				// Inside safe circumcircle, update circle.
 				pt = u
 				r, _ = circumCircle(pts[s*3:], pts[t*3:], pts[u*3:], c[:])
-- 
2.43.0


From 0a9bb7f2ea0fd39ec42d4e2713378f3a7775de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 52/89] fix: fail building tile meshes when tiles could not be
 added

---
 sample/tilemesh/builder.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 83d0eae..239737a 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -111,9 +111,7 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
-	tm.buildAllTiles()
-
-	return &tm.navMesh, true
+	return tm.buildAllTiles()
 }
 
 func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
@@ -143,7 +141,12 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 				// Remove any previous data (navmesh owns and deletes the data).
 				tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(x, y, 0))
 				// Let the navmesh own the data.
-				tm.navMesh.AddTile(data, detour.TileRef(0))
+				status, _ := tm.navMesh.AddTile(data, detour.TileRef(0))
+				if detour.StatusFailed(status) {
+					tm.ctx.StopTimer(recast.TimerTemp)
+					tm.ctx.Errorf("TileMesh.Build: Could not add tile (%d,%d) to navmesh", x, y)
+					return nil, false
+				}
 			}
 		}
 	}
@@ -153,7 +156,6 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 
 	tm.totalBuildTime = tm.ctx.AccumulatedTime(recast.TimerTemp)
 
-	// TODO: probably useless
 	return &tm.navMesh, true
 }
 
-- 
2.43.0


From c592862e1f43de16dc3c8518c9880fa04258ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 53/89] fix: space tiles by their actual size when the tile
 size setting is not a whole number

---
 sample/tilemesh/builder.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 239737a..db308ad 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -96,8 +96,8 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		status detour.Status
 	)
 	copy(params.Orig[:], tm.geom.NavMeshBoundsMin()[:3])
-	params.TileWidth = tm.settings.TileSize * tm.settings.CellSize
-	params.TileHeight = tm.settings.TileSize * tm.settings.CellSize
+	params.TileWidth = tm.tileSize()
+	params.TileHeight = tm.tileSize()
 	params.MaxTiles = tm.maxTiles
 	params.MaxPolys = tm.maxPolysPerTile
 	status = tm.navMesh.Init(&params)
@@ -121,7 +121,7 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 	ts := int32(tm.settings.TileSize)
 	tw := (gw + ts - 1) / ts
 	th := (gh + ts - 1) / ts
-	tcs := tm.settings.TileSize * tm.settings.CellSize
+	tcs := tm.tileSize()
 
 	// Start the build process.
 	tm.ctx.StartTimer(recast.TimerTemp)
@@ -532,11 +532,17 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	return navData
 }
 
+// tileSize returns the size of the tiles in world units, that's always a whole
+// number of cells.
+func (tm *TileMesh) tileSize() float32 {
+	return float32(int32(tm.settings.TileSize)) * tm.settings.CellSize
+}
+
 func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
 
-	ts := tm.settings.TileSize * tm.settings.CellSize
+	ts := tm.tileSize()
 	tx := int32((pos[0] - bmin[0]) / ts)
 	ty := int32((pos[2] - bmin[2]) / ts)
 
@@ -570,7 +576,7 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 func (tm *TileMesh) TilePos(pos d3.Vec3) (x, y int32) {
 	bmin := tm.geom.NavMeshBoundsMin()
 
-	ts := tm.settings.TileSize * tm.settings.CellSize
+	ts := tm.tileSize()
 	return int32((pos[0] - bmin[0]) / ts), int32((pos[2] - bmin[2]) / ts)
 }
 
@@ -578,7 +584,7 @@ func (tm *TileMesh) RemoveTile(pos d3.Vec3) {
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
 
-	ts := tm.settings.TileSize * tm.settings.CellSize
+	ts := tm.tileSize()
 	tx := int32((pos[0] - bmin[0]) / ts)
 	ty := int32((pos[2] - bmin[2]) / ts)
 
-- 
2.43.0


From 2665007d8881a1a79d48dda16e598bdc2efd9dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 54/89] fix: refuse to build meshes with settings that can't be
 used

---
 recast/inputgeom.go        | 18 ++++++++++++++++++
 sample/solomesh/builder.go |  8 ++++++++
 sample/tilemesh/builder.go | 12 ++++++++++++
 3 files changed, 38 insertions(+)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index 8582380..490d093 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -67,6 +67,24 @@ type BuildSettings struct {
 	TileSize float32
 }
 
+// Check returns an error if no navigation mesh can be built with those
+// settings.
+func (s *BuildSettings) Check() error {
+	if !(s.CellSize > 0) {
+		return fmt.Errorf("CellSize should be > 0")
+	}
+	if !(s.CellHeight > 0) {
+		return fmt.Errorf("CellHeight should be > 0")
+	}
+	if !(s.AgentRadius >= 0) {
+		return fmt.Errorf("AgentRadius should be >= 0")
+	}
+	if int32(s.VertsPerPoly) < 3 {
+		return fmt.Errorf("VertsPerPoly should be >= 3")
+	}
+	return nil
+}
+
 // InputGeom gathers the geometry used as input for navigation mesh building.
 type InputGeom struct {
 	chunkyMesh *ChunkyTriMesh
diff --git a/sample/solomesh/builder.go b/sample/solomesh/builder.go
index 37ab521..8c8a0a4 100644
--- a/sample/solomesh/builder.go
+++ b/sample/solomesh/builder.go
@@ -54,6 +54,14 @@ func (sm *SoloMesh) Build() (*detour.NavMesh, bool) {
 		// TODO: error "no vertices and triangles"
 		return nil, false
 	}
+	if err := sm.settings.Check(); err != nil {
+		sm.ctx.Errorf("SoloMesh.Build: %v", err)
+		return nil, false
+	}
+	if int32(sm.settings.VertsPerPoly) > int32(detour.VertsPerPolygon) {
+		sm.ctx.Errorf("detour doesn't handle so many vertices per polygon. should be <= %v", detour.VertsPerPolygon)
+		return nil, false
+	}
 
 	bmin := sm.geom.NavMeshBoundsMin()
 	bmax := sm.geom.NavMeshBoundsMax()
diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index db308ad..1959528 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -76,6 +76,18 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		// TODO: error "no vertices and triangles"
 		return nil, false
 	}
+	if err := tm.settings.Check(); err != nil {
+		tm.ctx.Errorf("TileMesh.Build: %v", err)
+		return nil, false
+	}
+	if int32(tm.settings.TileSize) < 1 {
+		tm.ctx.Errorf("TileMesh.Build: TileSize should be >= 1")
+		return nil, false
+	}
+	if int32(tm.settings.VertsPerPoly) > int32(detour.VertsPerPolygon) {
+		tm.ctx.Errorf("detour doesn't handle so many vertices per polygon. should be <= %v", detour.VertsPerPolygon)
+		return nil, false
+	}
 
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
-- 
2.43.0


From 4f8dedf8c833b4dbf93a933f1339b3bce1483583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 55/89] fix: don't panic when searching for polygons in tiles
 without BV tree or with many polygons

---
 detour/mesh.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 5991a24..e7b83b2 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -990,7 +990,7 @@ func (m *NavMesh) queryPolygonsInTile(
 			isLeafNode := node.I >= 0
 
 			if isLeafNode && overlap {
-				if n < maxPolys {
+				if n < maxPolys-1 {
 					n++
 					polys[n] = base | PolyRef(node.I)
 				}
@@ -1020,17 +1020,19 @@ func (m *NavMesh) queryPolygonsInTile(
 			continue
 		}
 		// Calc polygon bounds.
-		v := tile.Verts[p.Verts[0]*3 : 3]
+		vidx := int(p.Verts[0]) * 3
+		v := tile.Verts[vidx : vidx+3]
 		d3.Vec3(bmin[:]).Assign(v)
 		d3.Vec3(bmax[:]).Assign(v)
 		var j uint8
 		for j = 1; j < p.VertCount; j++ {
-			v = tile.Verts[p.Verts[j]*3 : 3]
+			vidx = int(p.Verts[j]) * 3
+			v = tile.Verts[vidx : vidx+3]
 			d3.Vec3Min(bmin[:], v)
 			d3.Vec3Max(bmax[:], v)
 		}
 		if OverlapBounds(qmin, qmax, bmin[:], bmax[:]) {
-			if n < maxPolys {
+			if n < maxPolys-1 {
 				n++
 				polys[n] = base | PolyRef(i)
 			}
-- 
2.43.0


From c970254584fc0a21f47e9031c81ebe26815bd756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 56/89] fix: report -1 for timers that are disabled or were
 never started

---
 recast/buildcontext.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/recast/buildcontext.go b/recast/buildcontext.go
index 84b1920..74363a6 100644
--- a/recast/buildcontext.go
+++ b/recast/buildcontext.go
@@ -38,10 +38,14 @@ type BuildContext struct {
 // NewBuildContext returns an initialized buildcontext where state indicated if
 // logging and performance tracking are enabled.
 func NewBuildContext(state bool) *BuildContext {
-	return &BuildContext{
+	ctx := &BuildContext{
 		logEnabled:   state,
 		timerEnabled: state,
 	}
+	for i := range ctx.accTime {
+		ctx.accTime[i] = -1
+	}
+	return ctx
 }
 
 // EnableLog enables or disables logging.
@@ -65,7 +69,7 @@ func (ctx *BuildContext) ResetLog() {
 func (ctx *BuildContext) ResetTimers() {
 	if ctx.timerEnabled {
 		for i := 0; i < maxTimers; i++ {
-			ctx.accTime[i] = time.Duration(0)
+			ctx.accTime[i] = -1
 		}
 	}
 }
@@ -149,7 +153,7 @@ func (ctx *BuildContext) StartTimer(label TimerLabel) {
 func (ctx *BuildContext) StopTimer(label TimerLabel) {
 	if ctx.timerEnabled {
 		deltaTime := time.Since(ctx.startTime[label])
-		if ctx.accTime[label] == 0 {
+		if ctx.accTime[label] == -1 {
 			ctx.accTime[label] = deltaTime
 		} else {
 			ctx.accTime[label] += deltaTime
@@ -166,5 +170,5 @@ func (ctx *BuildContext) AccumulatedTime(label TimerLabel) time.Duration {
 	if ctx.timerEnabled {
 		return ctx.accTime[label]
 	}
-	return time.Duration(0)
+	return -1
 }
-- 
2.43.0


From 76b7a54cfbf038a6a87137af8a304301c97a98fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 57/89] fix: skip portals that go through the last corner of a
 straight path

The funnel was set up from portals that contain its apex, such as several
portals sharing one corner with slightly different coordinates, or one the
end position lies on. Straight paths then cut corners of the corridor or went
forth and back along a portal.
---
 detour/query.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 0fe80db..76a6acd 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -510,9 +510,12 @@ func (q *NavMeshQuery) FindStraightPath(
 					return count, stat
 				}
 
+				var through bool // the portal goes through the apex
 				if atApex {
 					var t float32
-					atApex = distancePtSegSqr2D(portalApex, left, right, &t) < math32.Sqr(0.001)
+					d := distancePtSegSqr2D(portalApex, left, right, &t)
+					atApex = d < math32.Sqr(0.001)
+					through = d < math32.Sqr(1.0/16384.0)
 				}
 				if atApex && toType == uint8(polyTypeOffMeshConnection) && approx2D(portalApex, left) {
 					// The off-mesh connection starts at the last vertex.
@@ -523,8 +526,9 @@ func (q *NavMeshQuery) FindStraightPath(
 					if stat != InProgress {
 						return count, stat
 					}
-				} else if i == 0 && atApex {
-					// If starting really close the portal, advance.
+				} else if i == 0 && atApex || through {
+					// If starting really close the portal, or at the last
+					// vertex, advance.
 					continue
 				}
 			} else {
-- 
2.43.0


From 507a5841fa5eb21f64bd63231012f37aa22e520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:43 +0000
Subject: [PATCH 58/89] fix: only take shortcuts of any-angle searches that end
 at the neighbour

A ray cast from the parent of a node could reach the position of a neighbour in
another polygon, above, below or sharing a border, and the resulting path had
consecutive polygons without a link between them.
---
 detour/query.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 76a6acd..190aa0e 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1838,8 +1838,12 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 		return Failure
 	}
 
-	var rayHit RaycastHit
-	rayHit.MaxPath = 0
+	var (
+		rayHit  RaycastHit
+		rayPath [256]PolyRef
+	)
+	rayHit.Path = rayPath[:]
+	rayHit.MaxPath = len(rayPath)
 
 	var iter int
 	for iter < maxIter && !q.openList.empty() {
@@ -1961,8 +1965,13 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 			rayHit.PathCost = 0
 			rayHit.T = 0
 			if tryLOS {
-				_ = q.Raycast(parentRef, parentNode.Pos, neighbourNode.Pos, q.query.filter, RaycastUseCosts, &rayHit, grandpaRef)
-				foundShortCut = rayHit.T >= 1.0
+				rayStatus := q.Raycast(parentRef, parentNode.Pos, neighbourNode.Pos, q.query.filter, RaycastUseCosts, &rayHit, grandpaRef)
+				if rayStatus == Success && rayHit.T >= 1.0 && rayHit.PathCount > 0 {
+					// The ray may also end in another polygon that is
+					// above, below or touches the border.
+					last := rayPath[rayHit.PathCount-1]
+					foundShortCut = last == bestRef || last == neighbourRef
+				}
 			}
 
 			// update move cost
-- 
2.43.0


From e347358a285f5113d78aef30a960dc0bf96e5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:52 +0000
Subject: [PATCH 59/89] fix: don't panic when finalizing an any-angle search
 whose polygons were removed

Casting the ray again gives no polygons then.
---
 detour/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 190aa0e..44950f4 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2124,7 +2124,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				m, _, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
+				if n > 0 && path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
 			} else if n < maxPath {
@@ -2238,7 +2238,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				m, _, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
+				if n > 0 && path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
 			} else if n < maxPath {
-- 
2.43.0


From 205b7c6e13bf490e75bca5b162ff42630551623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 60/89] fix: tell neighbours of poly meshes with more than
 65534 edges

---
 recast/mesh.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 953b112..22aa0b0 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -11,7 +11,8 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	// http://www.terathon.com/code/edges.php
 
 	maxEdgeCount := npolys * vertsPerPoly
-	firstEdge := make([]uint16, nverts+maxEdgeCount)
+	// There can be more edges than the 65535 vertices indices can tell apart.
+	firstEdge := make([]int32, nverts+maxEdgeCount)
 	nextEdge := firstEdge[nverts:]
 	var edgeCount int32
 
@@ -21,7 +22,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	}
 
 	for i := int32(0); i < nverts; i++ {
-		firstEdge[i] = meshNullIdx
+		firstEdge[i] = -1
 	}
 
 	for i := int32(0); i < npolys; i++ {
@@ -48,7 +49,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				edge.polyEdge[1] = 0
 				// Insert edge
 				nextEdge[edgeCount] = firstEdge[v0]
-				firstEdge[v0] = uint16(edgeCount)
+				firstEdge[v0] = edgeCount
 				edgeCount++
 			}
 		}
@@ -68,7 +69,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				v1 = t[j+1]
 			}
 			if v0 > v1 {
-				for e := uint16(firstEdge[v1]); e != meshNullIdx; e = nextEdge[e] {
+				for e := firstEdge[v1]; e != -1; e = nextEdge[e] {
 					edge := edges[e]
 					if edge.vert[1] == v0 && edge.poly[0] == edge.poly[1] {
 						edge.poly[1] = uint16(i)
-- 
2.43.0


From 54afa1182d8c69c62405608917ee524296caa5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:10 +0000
Subject: [PATCH 61/89] fix: don't triangulate holes of less than 3 vertices in
 poly meshes

---
 recast/mesh.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recast/mesh.go b/recast/mesh.go
index 22aa0b0..dae11da 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -687,6 +687,11 @@ func removeVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16, maxTris int32)
 		}
 	}
 
+	// Polygons that overlap don't always leave a hole which can be filled.
+	if nhole < 3 {
+		return true
+	}
+
 	tris := make([]int32, nhole*3)
 	tverts := make([]int32, nhole*4)
 	thole := make([]int64, nhole)
-- 
2.43.0


From e9f4ec07223b8092da091ff31e7046c585929681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:30 +0000
Subject: [PATCH 62/89] fix: ignore convex volumes of too many vertices, which
 can't be stored

---
 recast/inputgeom.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index 490d093..7df273a 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -230,9 +230,10 @@ func (ig *InputGeom) OffMeshConnectionCount() int32 {
 // AddConvexVolume adds a new convex volume to the input geometry.
 //
 // The convex volume is defined by the verts slice [x, y, z] * Number of
-// vertices.
+// vertices. It's ignored if it has more than 12 vertices, or if there are 256
+// volumes already.
 func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area uint8) {
-	if ig.volumeCount >= maxVolumes {
+	if ig.volumeCount >= maxVolumes || len(verts) > maxConvexVolPts*3 {
 		return
 	}
 	vol := &ig.volumes[ig.volumeCount]
-- 
2.43.0


From 9f13a069e3371d2d1d109065f15368b7849588ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 63/89] fix: keep no geometry when loading it fails

A builder whose geometry couldn't be loaded was left with a mesh but no
chunks of triangles, of which TileMesh.Build made an empty mesh instead of
failing.
---
 recast/inputgeom.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index 7df273a..36431bf 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -116,21 +116,24 @@ func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
 	ig.offMeshConCount = 0
 	ig.volumeCount = 0
 
-	ig.mesh = NewMeshLoaderOBJ()
-	if err = ig.mesh.Load(r); err != nil {
+	mesh := NewMeshLoaderOBJ()
+	if err = mesh.Load(r); err != nil {
 		return err
 	}
-	if ig.mesh.VertCount() == 0 {
+	if mesh.VertCount() == 0 {
 		return fmt.Errorf("no vertices in the mesh")
 	}
 
-	CalcBounds(ig.mesh.Verts(), ig.mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
+	CalcBounds(mesh.Verts(), mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
 
-	ig.chunkyMesh = new(ChunkyTriMesh)
-	if !createChunkyTriMesh(ig.mesh.Verts(), ig.mesh.Tris(), ig.mesh.TriCount(), 256, ig.ChunkyMesh()) {
+	chunkyMesh := new(ChunkyTriMesh)
+	if !createChunkyTriMesh(mesh.Verts(), mesh.Tris(), mesh.TriCount(), 256, chunkyMesh) {
 		return fmt.Errorf("failed to build chunky mesh")
 	}
 
+	// There's no geometry if loading it fails.
+	ig.mesh = mesh
+	ig.chunkyMesh = chunkyMesh
 	return nil
 }
 
-- 
2.43.0


From c696b231ef754e05440c26f80fd40857b694a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:18 +0000
Subject: [PATCH 64/89] fix: place positions before the bounds in no tile

Positions up to a tile before the bounds of the geometry were rounded to the
first tiles, so that RemoveTile removed one which isn't there.
---
 sample/tilemesh/builder.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 1959528..87758c4 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -555,8 +555,7 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 	bmax := tm.geom.NavMeshBoundsMax()
 
 	ts := tm.tileSize()
-	tx := int32((pos[0] - bmin[0]) / ts)
-	ty := int32((pos[2] - bmin[2]) / ts)
+	tx, ty := tm.TilePos(pos)
 
 	tm.lastBuiltTileBMin[0] = bmin[0] + float32(tx)*ts
 	tm.lastBuiltTileBMin[1] = bmin[1]
@@ -585,11 +584,13 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 	tm.ctx.DumpLog(os.Stdout, "Build Tile (%d,%d):", tx, ty)
 }
 
+// TilePos returns the location of the tile at pos (negative for positions
+// before the bounds of the geometry).
 func (tm *TileMesh) TilePos(pos d3.Vec3) (x, y int32) {
 	bmin := tm.geom.NavMeshBoundsMin()
 
 	ts := tm.tileSize()
-	return int32((pos[0] - bmin[0]) / ts), int32((pos[2] - bmin[2]) / ts)
+	return int32(math32.Floor((pos[0] - bmin[0]) / ts)), int32(math32.Floor((pos[2] - bmin[2]) / ts))
 }
 
 func (tm *TileMesh) RemoveTile(pos d3.Vec3) {
@@ -597,8 +598,7 @@ func (tm *TileMesh) RemoveTile(pos d3.Vec3) {
 	bmax := tm.geom.NavMeshBoundsMax()
 
 	ts := tm.tileSize()
-	tx := int32((pos[0] - bmin[0]) / ts)
-	ty := int32((pos[2] - bmin[2]) / ts)
+	tx, ty := tm.TilePos(pos)
 
 	tm.lastBuiltTileBMin[0] = bmin[0] + float32(tx)*ts
 	tm.lastBuiltTileBMin[1] = bmin[1]
-- 
2.43.0


From 94b1242766132504f16ba256c35140f9ccb953b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:20 +0000
Subject: [PATCH 65/89] fix: make room in tiles for the links of connections to
 other tiles

The pool of links of a tile had room for two links for each off-mesh
connection starting in it and ending in another tile, though it has three:
from the polygon it starts on, back to it, and to the polygon at its end.
In tiles with many connections and few edges, some were left unlinked.
---
 detour/navmeshcreate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 4ee382d..1c3e7b9 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -619,6 +619,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 			}
 			if offMeshConClass[i*2+1] == 0xff {
 				offMeshConLinkCount++
+			} else if offMeshConClass[i*2+0] == 0xff {
+				// The connection is linked to the polygon at its end, though
+				// that's in another tile.
+				offMeshConLinkCount++
 			}
 
 			if offMeshConClass[i*2+0] == 0xff {
-- 
2.43.0


From 831a9bef8ed832847d81cc8dfe45557c84c5c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:09 +0000
Subject: [PATCH 66/89] fix: don't drop the end of a connection starting at the
 last corner

FindStraightPath kept the corner before an off-mesh connection as the apex
of the funnel when the connection starts within the tolerance of it, but not
exactly at it: the start of the connection then took the place of its end.
---
 detour/query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 44950f4..5e5c05e 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -526,6 +526,9 @@ func (q *NavMeshQuery) FindStraightPath(
 					if stat != InProgress {
 						return count, stat
 					}
+					portalApex.Assign(left)
+					portalLeft.Assign(left)
+					portalRight.Assign(left)
 				} else if i == 0 && atApex || through {
 					// If starting really close the portal, or at the last
 					// vertex, advance.
-- 
2.43.0


From 4a7a1638ceae09ee4311845c602266d37f67d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:10 +0000
Subject: [PATCH 67/89] fix: don't skip a connection that's started at from
 less than a millimetre

FindStraightPath skipped the first portal when starting within a millimetre
of it, even if it was the start of an off-mesh connection: its vertex, and
the flag that tells to cross it, were missing from the path.
---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 5e5c05e..8e7c096 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -517,7 +517,7 @@ func (q *NavMeshQuery) FindStraightPath(
 					atApex = d < math32.Sqr(0.001)
 					through = d < math32.Sqr(1.0/16384.0)
 				}
-				if atApex && toType == uint8(polyTypeOffMeshConnection) && approx2D(portalApex, left) {
+				if atApex && toType == uint8(polyTypeOffMeshConnection) && (i == 0 || approx2D(portalApex, left)) {
 					// The off-mesh connection starts at the last vertex.
 					apexIndex = i
 					stat = q.appendVertex(left, StraightPathOffMeshConnection, path[i+1],
-- 
2.43.0


From 663a2592f7e616dc67d1239c5c655952cc9d21e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 68/89] fix: keep the crossings of straight paths on the
 portals

Where a straight path starts or turns within a millimetre of a portal almost
parallel to it, the crossing was placed on the line through the portal, some
centimetres off the path.
---
 detour/query.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 8e7c096..a95ae95 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -729,6 +729,8 @@ func (q *NavMeshQuery) appendPortals(
 
 		// Append intersection
 		if hit, _, t := IntersectSegSeg2D(startPos, endPos, left, right); hit {
+			// The lines may meet off the portal, close to one of its ends.
+			t = math32.Max(0, math32.Min(1, t))
 			pt := d3.NewVec3()
 			d3.Vec3Lerp(pt, left, right, t)
 
-- 
2.43.0


From 459d7147504ae6fa145baae65fcba9c3a50bbb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 69/89] fix: don't lose a connection that starts at the
 position of the apex

Positions are considered equal with a tolerance that grows with the
coordinates. FindStraightPath left a connection out if it started further
than a millimetre from the last corner, but within that tolerance of it.
---
 detour/query.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index a95ae95..a825923 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -510,14 +510,18 @@ func (q *NavMeshQuery) FindStraightPath(
 					return count, stat
 				}
 
-				var through bool // the portal goes through the apex
+				var (
+					through bool // the portal goes through the apex
+					near    bool // the portal starts at the apex
+				)
 				if atApex {
 					var t float32
+					near = approx2D(portalApex, left)
 					d := distancePtSegSqr2D(portalApex, left, right, &t)
 					atApex = d < math32.Sqr(0.001)
 					through = d < math32.Sqr(1.0/16384.0)
 				}
-				if atApex && toType == uint8(polyTypeOffMeshConnection) && (i == 0 || approx2D(portalApex, left)) {
+				if toType == uint8(polyTypeOffMeshConnection) && (i == 0 && atApex || near) {
 					// The off-mesh connection starts at the last vertex.
 					apexIndex = i
 					stat = q.appendVertex(left, StraightPathOffMeshConnection, path[i+1],
@@ -529,6 +533,7 @@ func (q *NavMeshQuery) FindStraightPath(
 					portalApex.Assign(left)
 					portalLeft.Assign(left)
 					portalRight.Assign(left)
+					atApex = true
 				} else if i == 0 && atApex || through {
 					// If starting really close the portal, or at the last
 					// vertex, advance.
-- 
2.43.0


From 6b485015881d0332c0a28b7c0cc5c673cc6ebb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:56 +0000
Subject: [PATCH 70/89] fix: don't panic in FindNearestPolyInTile on tiles of
 many vertices

The offset of a vertex was computed on 16 bits: from the 21846th one on it
was that of another vertex, or a slice whose end is before its start.
---
 detour/mesh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index e7b83b2..0f71cd5 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -1094,7 +1094,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1134,7 +1134,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 		)
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				vidx := poly.Verts[t[k]] * 3
+				vidx := int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[vidx : vidx+3]
 			} else {
 				vidx := (pd.VertBase + uint32(t[k]-poly.VertCount)) * 3
-- 
2.43.0


From eefd92197b9a9b2c3b3e4d5b6ef7213b9ca9abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:28 +0000
Subject: [PATCH 71/89] fix: find the height of positions over thin detail
 triangles

The barycentric coordinates were computed from dot products, which loses most
of the precision on thin triangles. No triangle was then found at positions
close to an edge of one, whose height was left unchanged.
---
 detour/common.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/detour/common.go b/detour/common.go
index 165f55b..5611678 100644
--- a/detour/common.go
+++ b/detour/common.go
@@ -205,16 +205,14 @@ func closestHeightPointTriangle(p, a, b, c d3.Vec3, h *float32) bool {
 	v1 := b.Sub(a)
 	v2 := p.Sub(a)
 
-	dot00 := v0.Dot2D(v0)
-	dot01 := v0.Dot2D(v1)
-	dot02 := v0.Dot2D(v2)
-	dot11 := v1.Dot2D(v1)
-	dot12 := v1.Dot2D(v2)
-
-	// Compute barycentric coordinates
-	invDenom := 1.0 / (dot00*dot11 - dot01*dot01)
-	u := (dot11*dot02 - dot01*dot12) * invDenom
-	v := (dot00*dot12 - dot01*dot02) * invDenom
+	// Compute barycentric coordinates, scaled by twice the area. (Not from dot
+	// products, that lose most of the precision on thin triangles.)
+	denom := v0[0]*v1[2] - v0[2]*v1[0]
+	if denom == 0 {
+		return false
+	}
+	u := (v1[2]*v2[0] - v1[0]*v2[2]) / denom
+	v := (v0[0]*v2[2] - v0[2]*v2[0]) / denom
 
 	// The (sloppy) epsilon is needed to allow to get height of points which
 	// are interpolated along the edges of the triangles.
-- 
2.43.0


From e8a4ab65ccefe53c9ff95c7494e295b0ebc4eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:30 +0000
Subject: [PATCH 72/89] fix: find the height of positions far from the origin

With large coordinates, a position clamped to the outline of a polygon, or
over it, may be in none of its detail triangles. ClosestPointOnPoly and
FindNearestPoly then left its height unchanged. Use the nearest edge.
---
 detour/query.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index a825923..f72330e 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1051,6 +1051,8 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	// Find height at the location.
 	var j uint8
 	var idx int
+	edgeDist := float32(math.MaxFloat32)
+	edgeHeight := closest[1]
 	for j = 0; j < pd.TriCount; j++ {
 		idx = int((pd.TriBase + uint32(j)) * 4)
 		t := tile.DetailTris[idx : idx+3]
@@ -1068,9 +1070,22 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 		var h float32
 		if closestHeightPointTriangle(closest, v[0], v[1], v[2], &h) {
 			closest[1] = h
-			break
+			return Success
+		}
+		// Keep the height at the nearest edge.
+		for k = 0; k < 3; k++ {
+			var u float32
+			va, vb := v[k], v[(k+1)%3]
+			if d := distancePtSegSqr2D(closest, va, vb, &u); d < edgeDist {
+				edgeDist = d
+				edgeHeight = va[1] + (vb[1]-va[1])*u
+			}
 		}
 	}
+
+	// With large coordinates, a point that's next to the edge of a triangle may
+	// be in none of them.
+	closest[1] = edgeHeight
 	return Success
 }
 
-- 
2.43.0


From 6f1716fe474071f4daa6074d4cf8d25c32253ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 73/89] fix: resolve no reference to an empty slot of a mesh

---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 0f71cd5..98020f9 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -1605,7 +1605,7 @@ func (m *NavMesh) TileByRef(ref TileRef) *MeshTile {
 		return nil
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return nil
 	}
 	return tile
-- 
2.43.0


From 53515dc4227d6c36fba0c0dc357ebc75d94be478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:05 +0000
Subject: [PATCH 74/89] fix: refuse to partition into more regions than their
 numbers allow

---
 recast/region.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index 7807589..aa9b2c6 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -137,6 +137,11 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 			if sweeps[i].nei != RC_NULL_NEI && sweeps[i].nei != 0 && prev[sweeps[i].nei] == int32(sweeps[i].ns) {
 				sweeps[i].id = sweeps[i].nei
 			} else {
+				if id >= borderReg {
+					// Further IDs would be taken for those of border regions.
+					ctx.Errorf("BuildRegionsMonotone: Region ID overflow")
+					return false
+				}
 				sweeps[i].id = id
 				id++
 			}
-- 
2.43.0


From 7ab12b31ccaced0cd893f2b0dc876aac9cf05bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:05 +0000
Subject: [PATCH 75/89] fix: count more than 255 spans in a column of a compact
 heightfield

---
 recast/heightfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/heightfield.go b/recast/heightfield.go
index f597d90..c74b3e3 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -193,7 +193,7 @@ func (hf *Heightfield) addSpan(x, y int32, smin, smax uint16,
 // compact heightfield.
 type CompactCell struct {
 	Index uint32 // Index to the first span in the column.
-	Count uint8  // Number of spans in the column.
+	Count uint16 // Number of spans in the column.
 }
 
 // CompactSpan represents a span of unobstructed space within a compact
-- 
2.43.0


From c56a0610432d518f8cea9203e7ca4c620d8fb5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:06 +0000
Subject: [PATCH 76/89] fix: erode by radiuses of 32768 cells and more

---
 recast/area.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 63c637f..66344e0 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -182,9 +182,9 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	thr := uint16(radius * 2)
+	thr := iMin(radius, 0x8000) * 2
 	for i := int32(0); i < chf.SpanCount; i++ {
-		if dist[i] < thr {
+		if int32(dist[i]) < thr {
 			chf.Areas[i] = nullArea
 		}
 	}
-- 
2.43.0


From 4f15590d4d2de4744b4a67dbf9e817a6bdba0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:06 +0000
Subject: [PATCH 77/89] fix: keep the bounding volumes of tall tiles from
 overflowing

---
 detour/navmeshcreate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 1c3e7b9..f8300fc 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -327,8 +327,8 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 				}
 			}
 			// Remap y
-			it.BMin[1] = uint16(math32.Floor(float32(it.BMin[1]) * params.Ch / params.Cs))
-			it.BMax[1] = uint16(math32.Ceil(float32(it.BMax[1]) * params.Ch / params.Cs))
+			it.BMin[1] = uint16(int32Clamp(int32(math32.Floor(float32(it.BMin[1])*params.Ch/params.Cs)), 0, 0xffff))
+			it.BMax[1] = uint16(int32Clamp(int32(math32.Ceil(float32(it.BMax[1])*params.Ch/params.Cs)), 0, 0xffff))
 		}
 	}
 
-- 
2.43.0


From 905a6a148395cc46543df6478d8e048262a169ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:06 +0000
Subject: [PATCH 78/89] fix: refuse detail meshes of more vertices or triangles
 than tiles can count

---
 detour/navmeshcreate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index f8300fc..5b3605d 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -686,6 +686,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 				nv++
 			}
 			ndv -= nv
+			if ndv > 0xff || params.DetailMeshes[i*4+3] > 0xff {
+				// the counts of a polygon are stored as 8-bit values.
+				return nil, fmt.Errorf("wrong value for params.DetailMeshes")
+			}
 			uniqueDetailVertCount += ndv
 		}
 	} else {
-- 
2.43.0


From d5ab78c9243ba1d5f38b9546d616eaeb2973b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:06 +0000
Subject: [PATCH 79/89] fix: create tiles whose detail mesh is empty

---
 detour/navmeshcreate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5b3605d..2429015 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -672,7 +672,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 		uniqueDetailVertCount int32
 		detailTriCount        int32
 	)
-	if params.DetailMeshes != nil {
+	if len(params.DetailMeshes) > 0 {
 		// Has detail mesh, count unique detail vertex count and use input detail tri count.
 		detailTriCount = params.DetailTriCount
 		for i := int32(0); i < params.PolyCount; i++ {
-- 
2.43.0


From 3d83438cfaf37a96f28f0559bfa28d3c2febea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:21 +0000
Subject: [PATCH 80/89] fix: don't split contour edges for limits of 46341
 cells and more

---
 recast/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/contour.go b/recast/contour.go
index 54659ca..2723e2c 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -701,7 +701,7 @@ func simplifyContour(points, simplified *[]int32,
 			if tess {
 				dx := bx - ax
 				dz := bz - az
-				if dx*dx+dz*dz > maxEdgeLen*maxEdgeLen {
+				if int64(dx)*int64(dx)+int64(dz)*int64(dz) > int64(maxEdgeLen)*int64(maxEdgeLen) {
 					// Round based on the segments in lexilogical order so that the
 					// max tesselation is consistent regardles in which direction
 					// segments are traversed.
-- 
2.43.0


From c4b7dcd1d800592fd541b47e4d44b0b1ee64ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:52 +0000
Subject: [PATCH 81/89] fix: trace outlines of any length

---
 recast/contour.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index 2723e2c..fdc110c 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -444,9 +444,8 @@ func walkContour2(x, y, i int32,
 
 	area := chf.Areas[i]
 
-	iter := int32(0)
-	for iter+1 < 40000 {
-		iter++
+	// The outline passes each direction of each span once at most.
+	for iter := int32(0); iter < 4*chf.SpanCount; iter++ {
 		if (flags[i] & (1 << uint(dir))) != 0 {
 			// Choose the edge corner
 			isBorderVertex := false
-- 
2.43.0


From f6ea360bceae01102724a677cc7db4fcd713deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:52 +0000
Subject: [PATCH 82/89] fix: find the neighbours of regions with outlines of
 any length

---
 recast/region.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recast/region.go b/recast/region.go
index aa9b2c6..a63ffb6 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -843,7 +843,8 @@ func walkContour(x, y, i, dir int32,
 	}
 	*cont = append(*cont, int32(curReg))
 
-	for iter := int32(1); iter < 39999; iter++ {
+	// The outline passes each direction of each span once at most.
+	for iter := int32(0); iter < 4*chf.SpanCount; iter++ {
 		s := &chf.Spans[i]
 
 		if isSolidEdge(chf, srcReg, x, y, i, dir) {
-- 
2.43.0


From a438c0fc4c92dd09db197f3a202ca787930be0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:27 +0000
Subject: [PATCH 83/89] fix: refuse settings that can't be counted in cells

---
 recast/inputgeom.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index 36431bf..ac0c35d 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -82,6 +82,22 @@ func (s *BuildSettings) Check() error {
 	if int32(s.VertsPerPoly) < 3 {
 		return fmt.Errorf("VertsPerPoly should be >= 3")
 	}
+	// Numbers of cells are counted with 32 bits.
+	for _, c := range []struct {
+		name  string
+		cells float32
+	}{
+		{"AgentHeight", s.AgentHeight / s.CellHeight},
+		{"AgentMaxClimb", s.AgentMaxClimb / s.CellHeight},
+		{"AgentRadius", s.AgentRadius / s.CellSize},
+		{"EdgeMaxLen", s.EdgeMaxLen / s.CellSize},
+		{"RegionMinSize", s.RegionMinSize * s.RegionMinSize},
+		{"RegionMergeSize", s.RegionMergeSize * s.RegionMergeSize},
+	} {
+		if !(c.cells > -1<<31 && c.cells < 1<<31) {
+			return fmt.Errorf("%s is out of range", c.name)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 06f083ebfde60240368bc37517a2cf756bbb056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:02 +0000
Subject: [PATCH 84/89] fix: refuse to build meshes of more cells or tiles than
 can be counted

---
 sample/solomesh/builder.go |  5 +++++
 sample/tilemesh/builder.go | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/sample/solomesh/builder.go b/sample/solomesh/builder.go
index 8c8a0a4..943c012 100644
--- a/sample/solomesh/builder.go
+++ b/sample/solomesh/builder.go
@@ -2,6 +2,7 @@ package solomesh
 
 import (
 	"io"
+	"math"
 
 	"github.com/arl/go-detour/detour"
 	"github.com/arl/go-detour/recast"
@@ -121,6 +122,10 @@ func (sm *SoloMesh) Build() (*detour.NavMesh, bool) {
 	copy(sm.cfg.BMin[:], bmin[:3])
 	copy(sm.cfg.BMax[:], bmax[:3])
 	sm.cfg.Width, sm.cfg.Height = recast.CalcGridSize(sm.cfg.BMin[:], sm.cfg.BMax[:], sm.cfg.Cs)
+	if sm.cfg.Width < 0 || sm.cfg.Height < 0 || int64(sm.cfg.Width)*int64(sm.cfg.Height) > math.MaxInt32 {
+		sm.ctx.Errorf("SoloMesh.Build: the geometry takes too many cells, %d x %d", sm.cfg.Width, sm.cfg.Height)
+		return nil, false
+	}
 
 	// Reset build times gathering.
 	sm.ctx.ResetTimers()
diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 87758c4..0a5fbc2 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -2,6 +2,7 @@ package tilemesh
 
 import (
 	"io"
+	"math"
 	"os"
 	"time"
 
@@ -84,6 +85,12 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		tm.ctx.Errorf("TileMesh.Build: TileSize should be >= 1")
 		return nil, false
 	}
+	// The cells of a tile, with its border, are indexed with 32 bits.
+	size := float64(tm.settings.TileSize + 2*(math32.Ceil(tm.settings.AgentRadius/tm.settings.CellSize)+3))
+	if !(size*size <= math.MaxInt32) {
+		tm.ctx.Errorf("TileMesh.Build: tiles have too many cells")
+		return nil, false
+	}
 	if int32(tm.settings.VertsPerPoly) > int32(detour.VertsPerPolygon) {
 		tm.ctx.Errorf("detour doesn't handle so many vertices per polygon. should be <= %v", detour.VertsPerPolygon)
 		return nil, false
@@ -95,6 +102,10 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 	ts := int32(tm.settings.TileSize)
 	tw := (gw + ts - 1) / ts
 	th := (gh + ts - 1) / ts
+	if gw < 0 || gh < 0 || int64(tw)*int64(th) > math.MaxInt32 {
+		tm.ctx.Errorf("TileMesh.Build: the geometry takes too many tiles, %d x %d", tw, th)
+		return nil, false
+	}
 
 	// Max tiles and max polys affect how the tile IDs are caculated.
 	// There are 22 bits available for identifying a tile and a polygon.
-- 
2.43.0


From a74c1b5a2ea2c16d9a58b155b46bc8451d3b063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:39 +0000
Subject: [PATCH 85/89] fix: mark volumes without limits

---
 recast/area.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 66344e0..978e592 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -2,6 +2,7 @@ package recast
 
 import (
 	assert "github.com/arl/assertgo"
+	"github.com/arl/gogeo/f32"
 	"github.com/arl/gogeo/f32/d3"
 )
 
@@ -194,6 +195,12 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 	return true
 }
 
+// cellAt returns the cell of size cs, counted from orig, at v. Cells further
+// than any heightfield reaches are taken for the last one that can be counted.
+func cellAt(v, orig, cs float32) int32 {
+	return int32(f32.Clamp((v-orig)/cs, -1<<30, 1<<30))
+}
+
 // MarkConvexPolyArea applies the area id to the all spans within the specified
 // convex polygon.
 //
@@ -230,12 +237,12 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	bmin[1] = hmin
 	bmax[1] = hmax
 
-	minx := int32(((bmin[0] - chf.BMin[0]) / chf.Cs))
-	miny := int32(((bmin[1] - chf.BMin[1]) / chf.Ch))
-	minz := int32(((bmin[2] - chf.BMin[2]) / chf.Cs))
-	maxx := int32(((bmax[0] - chf.BMin[0]) / chf.Cs))
-	maxy := int32(((bmax[1] - chf.BMin[1]) / chf.Ch))
-	maxz := int32(((bmax[2] - chf.BMin[2]) / chf.Cs))
+	minx := cellAt(bmin[0], chf.BMin[0], chf.Cs)
+	miny := cellAt(bmin[1], chf.BMin[1], chf.Ch)
+	minz := cellAt(bmin[2], chf.BMin[2], chf.Cs)
+	maxx := cellAt(bmax[0], chf.BMin[0], chf.Cs)
+	maxy := cellAt(bmax[1], chf.BMin[1], chf.Ch)
+	maxz := cellAt(bmax[2], chf.BMin[2], chf.Cs)
 
 	if maxx < 0 {
 		return
-- 
2.43.0


From c64f4e58e0e3ed88dca1d80a78780ee53ee2aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:50 +0000
Subject: [PATCH 86/89] fix: link and find tiles at locations of more than 32
 layers

---
 detour/mesh.go  | 44 ++++++++++++++++++++++++--------------------
 detour/query.go |  7 +++----
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 98020f9..a24afac 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -438,14 +438,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	m.connectExtOffMeshLinks(tile, tile, -1)
 
 	// Create connections with neighbour tiles.
-	maxNeis := int32(32)
-	neis := make([]*MeshTile, maxNeis)
-	var nneis int32
+	neis := make([]*MeshTile, 0, 32)
 
 	// Connect with layers in current tile.
-	nneis = m.TilesAt(hdr.X, hdr.Y, neis, maxNeis)
-	var j int32
-	for j = 0; j < nneis; j++ {
+	neis = m.appendTilesAt(neis[:0], hdr.X, hdr.Y)
+	for j := range neis {
 		if neis[j] == tile {
 			continue
 		}
@@ -458,8 +455,8 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 
 	// Connect with neighbour tiles.
 	for i = 0; i < 8; i++ {
-		nneis = m.neighbourTilesAt(hdr.X, hdr.Y, i, neis, maxNeis)
-		for j = 0; j < nneis; j++ {
+		neis = m.appendNeighbourTilesAt(neis[:0], hdr.X, hdr.Y, i)
+		for j := range neis {
 			m.connectExtLinks(tile, neis[j], i)
 			m.connectExtLinks(neis[j], tile, oppositeTile(i))
 			m.connectExtOffMeshLinks(tile, neis[j], i)
@@ -520,15 +517,11 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 	}
 
 	// Remove connections to neighbour tiles.
-	const MAX_NEIS = 32
-	var (
-		neis  [MAX_NEIS]*MeshTile
-		nneis int
-	)
+	neis := make([]*MeshTile, 0, 32)
 
 	// Disconnect from other layers in current tile.
-	nneis = int(m.TilesAt(tile.Header.X, tile.Header.Y, neis[:], MAX_NEIS))
-	for j := 0; j < nneis; j++ {
+	neis = m.appendTilesAt(neis[:0], tile.Header.X, tile.Header.Y)
+	for j := range neis {
 		if neis[j] == tile {
 			continue
 		}
@@ -537,8 +530,8 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 
 	// Disconnect from neighbour tiles.
 	for i := 0; i < 8; i++ {
-		nneis = int(m.neighbourTilesAt(tile.Header.X, tile.Header.Y, int32(i), neis[:], MAX_NEIS))
-		for j := 0; j < nneis; j++ {
+		neis = m.appendNeighbourTilesAt(neis[:0], tile.Header.X, tile.Header.Y, int32(i))
+		for j := range neis {
 			m.unconnectLinks(neis[j], tile)
 		}
 	}
@@ -1298,6 +1291,17 @@ func (m *NavMesh) TilesAt(x, y int32, tiles []*MeshTile, maxTiles int32) int32 {
 	return n
 }
 
+// appendTilesAt appends all tiles at the specified grid location. (All layers.)
+func (m *NavMesh) appendTilesAt(tiles []*MeshTile, x, y int32) []*MeshTile {
+	h := computeTileHash(x, y, m.TileLUTMask)
+	for tile := m.posLookup[h]; tile != nil; tile = tile.Next {
+		if tile.Header != nil && tile.Header.X == x && tile.Header.Y == y {
+			tiles = append(tiles, tile)
+		}
+	}
+	return tiles
+}
+
 // Builds external polygon links for a tile.
 func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 	if tile == nil {
@@ -1539,8 +1543,8 @@ func overlapSlabs(amin, amax, bmin, bmax d3.Vec3, px, py float32) bool {
 	return false
 }
 
-// Returns neighbour tile based on side.
-func (m *NavMesh) neighbourTilesAt(x, y, side int32, tiles []*MeshTile, maxTiles int32) int32 {
+// Appends neighbour tiles based on side.
+func (m *NavMesh) appendNeighbourTilesAt(tiles []*MeshTile, x, y, side int32) []*MeshTile {
 	nx := x
 	ny := y
 	switch side {
@@ -1566,7 +1570,7 @@ func (m *NavMesh) neighbourTilesAt(x, y, side int32, tiles []*MeshTile, maxTiles
 		ny--
 	}
 
-	return m.TilesAt(nx, ny, tiles, maxTiles)
+	return m.appendTilesAt(tiles, nx, ny)
 }
 
 // TileRefAt returns the tile reference for the tile at specified grid location.
diff --git a/detour/query.go b/detour/query.go
index f72330e..7075275 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1256,13 +1256,12 @@ func (q *NavMeshQuery) queryPolygons4(
 	minx, miny := q.nav.CalcTileLoc(bmin)
 	maxx, maxy := q.nav.CalcTileLoc(bmax)
 
-	const maxNeis int32 = 32
-	neis := make([]*MeshTile, maxNeis)
+	neis := make([]*MeshTile, 0, 32)
 
 	for y := miny; y <= maxy; y++ {
 		for x := minx; x <= maxx; x++ {
-			nneis := q.nav.TilesAt(x, y, neis, maxNeis)
-			for j := int32(0); j < nneis; j++ {
+			neis = q.nav.appendTilesAt(neis[:0], x, y)
+			for j := range neis {
 				q.queryPolygonsInTile(neis[j], bmin[:], bmax[:], filter, query)
 			}
 		}
-- 
2.43.0


From 7920d13e34132db84b585c671a2087f093fac88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:32 +0000
Subject: [PATCH 87/89] fix: search boxes larger than the range of tile
 coordinates, or of many locations

---
 detour/mesh.go  | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 detour/query.go | 11 +++++++++++
 2 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index a24afac..84e3ae3 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -7,6 +7,7 @@ import (
 	"io/ioutil"
 	"math"
 	"os"
+	"sort"
 	"unsafe"
 
 	"github.com/arl/gogeo/f32"
@@ -1302,6 +1303,38 @@ func (m *NavMesh) appendTilesAt(tiles []*MeshTile, x, y int32) []*MeshTile {
 	return tiles
 }
 
+// moreLocsThanTiles tells if there are more locations in a range of tile
+// coordinates than tiles in the mesh.
+func (m *NavMesh) moreLocsThanTiles(minx, miny, maxx, maxy int32) bool {
+	ntiles := int64(len(m.Tiles))
+	nx, ny := int64(maxx)-int64(minx)+1, int64(maxy)-int64(miny)+1
+	return nx > 0 && ny > 0 && (nx > ntiles || ny > ntiles || nx*ny > ntiles)
+}
+
+// tileLocs returns the locations there are tiles at in a range of tile
+// coordinates, row by row.
+func (m *NavMesh) tileLocs(minx, miny, maxx, maxy int32) [][2]int32 {
+	var locs [][2]int32
+	seen := make(map[[2]int32]bool)
+	for i := range m.Tiles {
+		hdr := m.Tiles[i].Header
+		if hdr == nil || hdr.X < minx || hdr.X > maxx || hdr.Y < miny || hdr.Y > maxy {
+			continue
+		}
+		if loc := [2]int32{hdr.X, hdr.Y}; !seen[loc] {
+			seen[loc] = true
+			locs = append(locs, loc)
+		}
+	}
+	sort.Slice(locs, func(i, j int) bool {
+		if locs[i][1] != locs[j][1] {
+			return locs[i][1] < locs[j][1]
+		}
+		return locs[i][0] < locs[j][0]
+	})
+	return locs
+}
+
 // Builds external polygon links for a tile.
 func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 	if tile == nil {
@@ -1699,7 +1732,17 @@ func (m *NavMesh) TileAndPolyByRef(ref PolyRef, tile **MeshTile, poly **Poly) St
 //	 [out]tx   The tile's x-location. (x, y)
 //	 [out]ty   The tile's y-location. (x, y)
 func (m *NavMesh) CalcTileLoc(pos d3.Vec3) (tx, ty int32) {
-	tx = int32(math32.Floor((pos[0] - m.Orig[0]) / m.TileWidth))
-	ty = int32(math32.Floor((pos[2] - m.Orig[2]) / m.TileHeight))
+	tx = tileCoord((pos[0] - m.Orig[0]) / m.TileWidth)
+	ty = tileCoord((pos[2] - m.Orig[2]) / m.TileHeight)
 	return tx, ty
 }
+
+// tileCoord returns the tile coordinate for a position in tiles, the first or
+// last one a position can have if it's out of range.
+func tileCoord(f float32) int32 {
+	const (
+		first = -1 << 31
+		last  = 1<<31 - 1<<7 // the last one before 1<<31 in single precision
+	)
+	return int32(math32.Max(first, math32.Min(last, math32.Floor(f))))
+}
diff --git a/detour/query.go b/detour/query.go
index 7075275..7cd1655 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1258,6 +1258,17 @@ func (q *NavMeshQuery) queryPolygons4(
 
 	neis := make([]*MeshTile, 0, 32)
 
+	if q.nav.moreLocsThanTiles(minx, miny, maxx, maxy) {
+		// Only visit the locations there's a tile at.
+		for _, loc := range q.nav.tileLocs(minx, miny, maxx, maxy) {
+			neis = q.nav.appendTilesAt(neis[:0], loc[0], loc[1])
+			for j := range neis {
+				q.queryPolygonsInTile(neis[j], bmin[:], bmax[:], filter, query)
+			}
+		}
+		return Success
+	}
+
 	for y := miny; y <= maxy; y++ {
 		for x := minx; x <= maxx; x++ {
 			neis = q.nav.appendTilesAt(neis[:0], x, y)
-- 
2.43.0


From c71e2b69422f94e8f974996c37f599f70691b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:43 +0000
Subject: [PATCH 88/89] fix: don't overwrite the mesh of an earlier build with
 the same tile mesh builder

---
 sample/tilemesh/builder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 0a5fbc2..17d7b7d 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -20,7 +20,7 @@ import (
 type TileMesh struct {
 	ctx               *recast.BuildContext
 	geom              recast.InputGeom
-	navMesh           detour.NavMesh
+	navMesh           *detour.NavMesh
 	meshName          string
 	cfg               recast.Config
 	partitionType     sample.PartitionType
@@ -47,6 +47,7 @@ type TileMesh struct {
 func New(ctx *recast.BuildContext) *TileMesh {
 	sm := &TileMesh{
 		settings:          DefaultSettings(),
+		navMesh:           &detour.NavMesh{},
 		lastBuiltTileBMin: d3.NewVec3(),
 		lastBuiltTileBMax: d3.NewVec3(),
 	}
@@ -123,12 +124,14 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 	params.TileHeight = tm.tileSize()
 	params.MaxTiles = tm.maxTiles
 	params.MaxPolys = tm.maxPolysPerTile
+	// Don't overwrite the mesh of an earlier build.
+	tm.navMesh = &detour.NavMesh{}
 	status = tm.navMesh.Init(&params)
 	if detour.StatusFailed(status) {
 		tm.ctx.Errorf("TileMesh.Build: Could not init navmesh")
 		return nil, false
 	}
-	status, _ = detour.NewNavMeshQuery(&tm.navMesh, 2048)
+	status, _ = detour.NewNavMeshQuery(tm.navMesh, 2048)
 	if detour.StatusFailed(status) {
 		tm.ctx.Errorf("TileMesh.Build: Could not init detour navmesh query")
 		return nil, false
@@ -179,7 +182,7 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 
 	tm.totalBuildTime = tm.ctx.AccumulatedTime(recast.TimerTemp)
 
-	return &tm.navMesh, true
+	return tm.navMesh, true
 }
 
 func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
-- 
2.43.0


From 9e90a1c174488f5824ed4f1e769613fad82aa4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:23 +0000
Subject: [PATCH 89/89] fix: fail to build a tiled mesh when a tile can't be
 built

A tile of which a step failed, for example because of more vertices than
indices can address, was silently left out of a mesh said to be built.
---
 sample/tilemesh/builder.go | 42 +++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 17d7b7d..f01a2ed 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -162,7 +162,12 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 			tm.lastBuiltTileBMax[1] = bmax[1]
 			tm.lastBuiltTileBMax[2] = bmin[2] + float32(y+1)*tcs
 
-			data := tm.buildTileMesh(x, y, tm.lastBuiltTileBMin[:], tm.lastBuiltTileBMax[:])
+			data, ok := tm.buildTileMesh(x, y, tm.lastBuiltTileBMin[:], tm.lastBuiltTileBMax[:])
+			if !ok {
+				tm.ctx.StopTimer(recast.TimerTemp)
+				tm.ctx.Errorf("TileMesh.Build: Could not build tile (%d,%d)", x, y)
+				return nil, false
+			}
 			if data != nil {
 				// Remove any previous data (navmesh owns and deletes the data).
 				tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(x, y, 0))
@@ -185,10 +190,12 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 	return tm.navMesh, true
 }
 
-func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
+// buildTileMesh builds the data of a tile, nil if it has no surface. It returns
+// false if a step of the build fails.
+func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) ([]byte, bool) {
 	if tm.geom.Mesh() == nil || tm.geom.ChunkyMesh() == nil {
 		tm.ctx.Errorf("buildNavigation: Input mesh is not specified.")
-		return nil
+		return nil, false
 	}
 
 	tm.tileMemUsage = 0
@@ -315,7 +322,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	cid := make([]int32, len(chunkyMesh.Nodes))
 	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid)
 	if ncid == 0 {
-		return nil
+		return nil, true
 	}
 
 	tm.tileTriCount = 0
@@ -334,7 +341,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 			verts, nverts, ctris, nctris, tm.triAreas)
 
 		if !recast.RasterizeTriangles(tm.ctx, verts, nverts, ctris, tm.triAreas, nctris, tm.solid, tm.cfg.WalkableClimb) {
-			return nil
+			return nil, false
 		}
 	}
 
@@ -355,13 +362,13 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.chf = &recast.CompactHeightfield{}
 	if !recast.BuildCompactHeightfield(tm.ctx, tm.cfg.WalkableHeight, tm.cfg.WalkableClimb, tm.solid, tm.chf) {
 		tm.ctx.Errorf("buildNavigation: Could not build compact data.")
-		return nil
+		return nil, false
 	}
 
 	// Erode the walkable area by agent radius.
 	if !recast.ErodeWalkableArea(tm.ctx, tm.cfg.WalkableRadius, tm.chf) {
 		tm.ctx.Errorf("buildNavigation: Could not erode.")
-		return nil
+		return nil, false
 	}
 
 	// (Optional) Mark areas.
@@ -427,7 +434,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 		// Monotone partitioning does not need distancefield.
 		if !recast.BuildRegionsMonotone(tm.ctx, tm.chf, tm.cfg.BorderSize, tm.cfg.MinRegionArea, tm.cfg.MergeRegionArea) {
 			tm.ctx.Errorf("buildNavigation: Could not build monotone regions.")
-			return nil
+			return nil, false
 		}
 	} else {
 		// SAMPLE_PARTITION_LAYERS
@@ -446,11 +453,11 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.cset = &recast.ContourSet{}
 	if !recast.BuildContours(tm.ctx, tm.chf, tm.cfg.MaxSimplificationError, tm.cfg.MaxEdgeLen, tm.cset, recast.ContourTessWallEdges) {
 		tm.ctx.Errorf("buildNavigation: Could not create contours.")
-		return nil
+		return nil, false
 	}
 
 	if tm.cset.NConts == 0 {
-		return nil
+		return nil, true
 	}
 
 	//
@@ -462,7 +469,10 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.pmesh, ret = recast.BuildPolyMesh(tm.ctx, tm.cset, tm.cfg.MaxVertsPerPoly)
 	if !ret {
 		tm.ctx.Errorf("buildNavigation: Could not triangulate contours.")
-		return nil
+		return nil, false
+	}
+	if tm.pmesh.NPolys == 0 {
+		return nil, true
 	}
 
 	//
@@ -472,7 +482,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.dmesh, ret = recast.BuildPolyMeshDetail(tm.ctx, tm.pmesh, tm.chf, tm.cfg.DetailSampleDist, tm.cfg.DetailSampleMaxError)
 	if !ret {
 		tm.ctx.Errorf("buildNavigation: Could not build detail mesh.")
-		return nil
+		return nil, false
 	}
 
 	//
@@ -489,7 +499,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 		if tm.pmesh.NVerts >= 0xffff {
 			// The vertex indices are ushorts, and cannot point to more than 0xffff vertices.
 			tm.ctx.Errorf("Too many vertices per tile %d (max: %d).", tm.pmesh.NVerts, 0xffff)
-			return nil
+			return nil, false
 		}
 
 		// Update poly flags from areas.
@@ -543,7 +553,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 
 		if navData, err = detour.CreateNavMeshData(&params); err != nil {
 			tm.ctx.Errorf("Could not build Detour navmesh: %v", err)
-			return nil
+			return nil, false
 		}
 	}
 
@@ -555,7 +565,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.ctx.Progressf(">> Polymesh: %d vertices  %d polygons", tm.pmesh.NVerts, tm.pmesh.NPolys)
 	tm.tileBuildTime = tm.ctx.AccumulatedTime(recast.TimerTotal)
 
-	return navData
+	return navData, true
 }
 
 // tileSize returns the size of the tiles in world units, that's always a whole
@@ -581,7 +591,7 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 
 	tm.ctx.ResetLog()
 
-	data := tm.buildTileMesh(tx, ty, tm.lastBuiltTileBMin, tm.lastBuiltTileBMax)
+	data, _ := tm.buildTileMesh(tx, ty, tm.lastBuiltTileBMin, tm.lastBuiltTileBMax)
 
 	// Remove any previous data (navmesh owns and deletes the data).
 	tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(tx, ty, 0))
-- 
2.43.0

