package main

// S01: what a built mesh covers and connects. S02: tiled builds.

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/tilemesh"
	"github.com/arl/gogeo/f32/d3"
)

func init() {
	register(&Prop{ID: "S01", Quick: 1500, Thorough: 30000, CPU: 200,
		Rule:  "scenes of slabs, buildings, walls, steps, ceilings, ramps, platforms and stairs of random sizes, and agents of random radius, height, step height and slope, are built as a single tile; where agents surely can stand, and where they surely can't, is estimated from the solids alone on samples half a cell apart, and compared with the polygons at each sample; places surely joined or surely separated are compared with path searches. A case is non-trivial when polygons were found at sure places.",
		MinEv: []string{"sure places covered", "polygon samples allowed", "places joined", "places separated"},
		Run:   func(t *T) { runScene(t, false) }})
	register(&Prop{ID: "S02", Quick: 600, Thorough: 12000, CPU: 200,
		Rule:  "scenes as for S01 are built as tiles of 16 to 48 cells and as a single tile; the tiled mesh is compared with the same estimates, and both meshes with one another: a place covered with a margin by one is covered by the other at the same height, and places are joined by a path in both or in none. A case is non-trivial when there were two tiles with polygons or more.",
		MinEv: []string{"sure places covered", "polygon samples allowed", "places joined", "places separated", "meshes compared", "places compared", "pairs compared", "links between tiles", "tiles built again", "tiles outside of the geometry"},
		Run: func(t *T) {
			switch {
			case t.Idx == 1:
				manyTiles(t)
			case t.Idx == 2:
				manyTriangles(t)
			default:
				runScene(t, true)
			}
		}})
}

// meshIndex finds the ground polygons of a mesh at a place.
type meshIndex struct {
	m       *detour.NavMesh
	q       *detour.NavMeshQuery
	ox, oz  float64
	s       float64
	w, h    int
	buckets [][]int
	polys   []ipoly
}

type ipoly struct {
	ref    detour.PolyRef
	v      []V3
	lo, hi float64 // heights of its detail mesh
}

// off tells how far a height is from those of a polygon: long triangles of
// detail meshes may be far off the surface at steps.
func (p *ipoly) off(y float64) float64 {
	return math.Max(0, math.Max(p.lo-y, y-p.hi))
}

func indexMesh(t *T, m *detour.NavMesh, x0, z0, x1, z1, s float64) *meshIndex {
	ix := &meshIndex{m: m, ox: x0, oz: z0, s: s}
	ix.w, ix.h = int((x1-x0)/s)+1, int((z1-z0)/s)+1
	ix.buckets = make([][]int, ix.w*ix.h)
	n := 0
	for i := range m.Tiles {
		tl := &m.Tiles[i]
		if tl.Header == nil {
			continue
		}
		base := detour.PolyRef(m.TileRef(tl))
		for j := range tl.Polys {
			p := &tl.Polys[j]
			if p.Type() != 0 {
				continue
			}
			ip := ipoly{ref: base | detour.PolyRef(j)}
			for k := 0; k < int(p.VertCount); k++ {
				ip.v = append(ip.v, v3(tl.Verts[p.Verts[k]*3:p.Verts[k]*3+3]))
			}
			lo, hi := ip.v[0], ip.v[0]
			for _, v := range ip.v {
				for a := range v {
					lo[a], hi[a] = math.Min(lo[a], v[a]), math.Max(hi[a], v[a])
				}
			}
			ip.lo, ip.hi = lo[1], hi[1]
			if len(tl.DetailMeshes) > j {
				dm := &tl.DetailMeshes[j]
				for k := int(dm.VertBase); k < int(dm.VertBase)+int(dm.VertCount); k++ {
					y := float64(tl.DetailVerts[3*k+1])
					ip.lo, ip.hi = math.Min(ip.lo, y), math.Max(ip.hi, y)
				}
			}
			id := len(ix.polys)
			ix.polys = append(ix.polys, ip)
			a0, a1 := int((lo[0]-x0)/s), int((hi[0]-x0)/s)
			b0, b1 := int((lo[2]-z0)/s), int((hi[2]-z0)/s)
			for b := b0; b <= b1; b++ {
				for a := a0; a <= a1; a++ {
					if a < 0 || b < 0 || a >= ix.w || b >= ix.h {
						t.Fatalf("polygon %x (%v) is out of the bounds of the geometry", uint32(ip.ref), ip.v)
					}
					ix.buckets[a+b*ix.w] = append(ix.buckets[a+b*ix.w], id)
				}
			}
			n++
		}
	}
	st, q := detour.NewNavMeshQuery(m, int32(4*n+16))
	if detour.StatusFailed(st) {
		t.Fatalf("no query object for a built mesh")
	}
	ix.q = q
	return ix
}

type hit struct {
	id int
	y  float64
}

// at has the polygons over or under a place.
func (ix *meshIndex) at(t *T, x, z float64) (r []hit) {
	a, b := int((x-ix.ox)/ix.s), int((z-ix.oz)/ix.s)
	if x < ix.ox || z < ix.oz || a >= ix.w || b >= ix.h {
		return
	}
next:
	for _, id := range ix.buckets[a+b*ix.w] {
		p := &ix.polys[id]
		for i, j := 0, len(p.v)-1; i < len(p.v); j, i = i, i+1 {
			if cross2(p.v[j], p.v[i], V3{x, 0, z}) > 1e-9 {
				continue next
			}
		}
		out := make([]float32, 3)
		var over bool
		if st := ix.q.ClosestPointOnPoly(p.ref, []float32{float32(x), float32(p.v[0][1]), float32(z)}, out, &over); detour.StatusFailed(st) {
			t.Fatalf("ClosestPointOnPoly fails on polygon %x", uint32(p.ref))
		}
		r = append(r, hit{id, float64(out[1])})
	}
	return
}

// reach tells if a path search between polygons reaches its end.
func (ix *meshIndex) reach(t *T, a, b int, pa, pb V3) bool {
	f := detour.NewStandardQueryFilter()
	path := make([]detour.PolyRef, len(ix.polys)+8)
	n, st := ix.q.FindPath(ix.polys[a].ref, ix.polys[b].ref, pa.f32(), pb.f32(), f, path)
	if detour.StatusFailed(st) || n == 0 {
		t.Fatalf("FindPath fails: 0x%x", uint32(st))
	}
	if st&detour.OutOfNodes != 0 || st&detour.BufferTooSmall != 0 {
		t.Fatalf("FindPath runs out of nodes or room: 0x%x", uint32(st))
	}
	full := path[n-1] == ix.polys[b].ref
	if full != (st&detour.PartialResult == 0) {
		t.Fatalf("FindPath ends at %x for %x with the status 0x%x", uint32(path[n-1]), uint32(ix.polys[b].ref), uint32(st))
	}
	return full
}

type spot struct {
	x, z float64
	n    int32 // node of the strict estimate
	id   int
	y    float64
}

func runScene(t *T, tiled bool) {
	r := t.R
	size := 24 + r.Intn(40)
	if tiled {
		size = 40 + r.Intn(60)
	}
	sc := randScene(r, size)
	b := sc.B
	cs, ch := float64(b.CellSize), float64(b.CellHeight)
	ctx := recast.NewBuildContext(r.Intn(2) == 0)
	var (
		m   *detour.NavMesh
		tm  *tilemesh.TileMesh
		err error
	)
	if tiled {
		tm, m, err = buildTiles(sc, r, ctx)
	} else {
		m, err = buildScene(sc, r, false, ctx)
	}
	t.Mix(sc.obj(r), b)

	strict, loose := sc.estimate(true), sc.estimate(false)
	R := math.Ceil(float64(b.AgentRadius) / cs)
	maxErr := float64(b.EdgeMaxError)
	if b.EdgeMaxLen > 0 {
		maxErr *= 2
	}
	inner := (R + 3 + maxErr) * cs
	strict.components(inner)
	outer := math.Max(0, .943*R-2-maxErr) * cs
	loose.components(outer)
	minArea := float64(b.RegionMinSize * b.RegionMinSize)
	big := func(c int) bool { return c >= 0 && float64(strict.compSize[c])/4 > minArea*1.1+4 }

	if err != nil {
		for i := range strict.N {
			if big(strict.N[i].comp) {
				t.Fatalf("the build failed (%v) though agents can stand on %d samples", err, strict.compSize[strict.N[i].comp])
			}
		}
		t.Count("scenes without room", 1)
		return
	}
	x0, z0, x1, z1 := sc.bounds()
	pad := 2 * cs
	ix := indexMesh(t, m, x0-pad, z0-pad, x1+pad, z1+pad, 4*cs)

	// Surfaces flat for as far as detail samples reach.
	flatR := int(2*float64(b.DetailSampleDist)*2) + 2
	flat := func(x, y int, h float64) bool {
		for dy := -flatR; dy <= flatR; dy += 2 {
			for dx := -flatR; dx <= flatR; dx += 2 {
				ax, ay := x+dx, y+dy
				if ax < 0 || ay < 0 || ax >= loose.W || ay >= loose.H {
					continue
				}
				c := ax + ay*loose.W
				for i := loose.cell[c]; i < loose.cell[c+1]; i++ {
					if d := math.Abs(loose.N[i].h - h); d > 1e-3*ch && d < float64(b.AgentHeight) {
						return false
					}
				}
			}
		}
		return true
	}
	rough := float64(b.AgentMaxClimb) + 4*ch + 6*cs*math.Tan(math.Min(60, float64(b.AgentMaxSlope))*math.Pi/180)
	// Corners of polygons are on a surface nearby (or in a solid, they're hollow).
	for i := range ix.polys {
		for _, v := range ix.polys[i].v {
			ok := false
			for j := range sc.S {
				s := &sc.S[j]
				tol := 3.1 * ch
				if s.axis >= 0 {
					tol += 2 * cs * math.Tan(s.slope()*math.Pi/180)
				}
				if s.covers(v[0], v[2], 2*cs) && v[1] > s.lo-3.1*ch && v[1] < s.hi(v[0], v[2])+tol {
					ok = true
				}
			}
			if !ok {
				t.Fatalf("corner %v of polygon %x isn't on any surface around", v, uint32(ix.polys[i].ref))
			}
			t.Count("corners on a surface", 1)
		}
	}
	var spots []spot
	for y := 0; y < strict.H; y++ {
		for x := 0; x < strict.W; x++ {
			px, pz := strict.pos(x, y)
			hits := ix.at(t, px, pz)
			// Sure places.
			for i := strict.cell[x+y*strict.W]; i < strict.cell[x+y*strict.W+1]; i++ {
				n := &strict.N[i]
				if !big(n.comp) {
					continue
				}
				tol := rough
				fl := r.Intn(4) == 0 && flat(x, y, n.h)
				if fl {
					tol = ch*(2+2*float64(b.DetailSampleMaxError)) + 1e-3
				}
				best := math.Inf(1)
				var bh hit
				for _, h := range hits {
					if d := math.Abs(h.y - n.h); d < best {
						best, bh = d, h
					}
				}
				if fl && len(hits) > 0 {
					// Corners may be on a step nearby, and their polygons bent.
					for _, v := range ix.polys[bh.id].v {
						if math.Abs(v[1]-ix.polys[bh.id].v[0][1]) > ch/2 {
							fl, tol = false, rough
						}
					}
				}
				for _, h := range hits {
					if !fl && best > tol {
						best, bh = math.Min(best, ix.polys[h.id].off(n.h)), h
					}
				}
				if best > tol {
					t.Fatalf("no polygon at (%g, %g, %g), %.3g cells from any obstacle or edge (agent radius %g cells, %s): polygons at heights %v, tolerance %g", px, n.h, pz, n.dist/cs, R, sc.kind, hits, tol)
				}
				t.Count("sure places covered", 1)
				if fl {
					t.Count("flat places at the right height", 1)
				}
				t.Nontrivial()
				if r.Intn(1+strict.compSize[n.comp]/12) == 0 {
					spots = append(spots, spot{px, pz, i, bh.id, bh.y})
				}
			}
			// Polygons where nobody can stand.
			for _, h := range hits {
				sc.checkAllowed(t, loose, ix, x, y, h, outer, R, maxErr, rough)
			}
		}
	}

	// Connections.
	r.Shuffle(len(spots), func(i, j int) { spots[i], spots[j] = spots[j], spots[i] })
	if len(spots) > 60 {
		spots = spots[:60]
	}
	looseComp := func(s spot) int { // the generous component of a sure place
		n := &strict.N[s.n]
		x, y := int((s.x-loose.ox)/loose.s), int((s.z-loose.oz)/loose.s)
		for i := loose.cell[x+y*loose.W]; i < loose.cell[x+y*loose.W+1]; i++ {
			if math.Abs(loose.N[i].h-n.h) < 1e-6 {
				return loose.N[i].comp
			}
		}
		return -1
	}
	joined := func(ix *meshIndex, a, b spot) bool {
		return ix.reach(t, a.id, b.id, V3{a.x, a.y, a.z}, V3{b.x, b.y, b.z})
	}
	for k := 0; k < 120 && len(spots) > 1; k++ {
		a, c := spots[r.Intn(len(spots))], spots[r.Intn(len(spots))]
		la, lc := looseComp(a), looseComp(c)
		switch {
		case strict.N[a.n].comp == strict.N[c.n].comp:
			if !joined(ix, a, c) {
				t.Fatalf("no path from (%g, %g, %g) to (%g, %g, %g), though agents can walk there with %g cells to spare around them", a.x, a.y, a.z, c.x, c.y, c.z, inner/cs-R)
			}
			t.Count("places joined", 1)
		case la >= 0 && lc >= 0 && la != lc:
			if joined(ix, a, c) {
				t.Fatalf("there's a path from (%g, %g, %g) to (%g, %g, %g), which agents of %g cells and step height %g can't walk", a.x, a.y, a.z, c.x, c.y, c.z, R, b.AgentMaxClimb)
			}
			t.Count("places separated", 1)
		}
	}
	t.Desc("%s of %d solids, %dx%d samples, %d polygons", sc.kind, len(sc.S), strict.W, strict.H, len(ix.polys))
	if tiled {
		if sc.posts {
			compareTiled(t, sc, r, ix, spots, strict)
		}
		rebuildTiles(t, sc, r, tm, m)
	}
}

// checkAllowed checks that a polygon over a sample is where agents may stand.
func (sc *Scene) checkAllowed(t *T, f *field, ix *meshIndex, x, y int, h hit, outer, R, maxErr, tol float64) {
	cs := float64(sc.B.CellSize)
	px, pz := f.pos(x, y)
	// Solids are hollow: their inside, far enough from their sides, doesn't matter.
	for i := range sc.S {
		s := &sc.S[i]
		if h.y > s.lo-tol && h.y < s.hi(px, pz) && px-s.x0 > outer && s.x1-px > outer && pz-s.z0 > outer && s.z1-pz > outer {
			t.Count("samples inside of solids", 1)
			return
		}
	}
	c := x + y*f.W
	for i := f.cell[c]; i < f.cell[c+1]; i++ {
		if f.N[i].comp >= 0 && ix.polys[h.id].off(f.N[i].h) <= tol {
			t.Count("polygon samples allowed", 1)
			return
		}
	}
	// The outline may be off by the simplification.
	k := int(math.Ceil(2 * math.Max(0, maxErr+2-.943*R)))
	for dy := -k; dy <= k; dy++ {
		for dx := -k; dx <= k; dx++ {
			ax, ay := x+dx, y+dy
			if ax < 0 || ay < 0 || ax >= f.W || ay >= f.H {
				continue
			}
			c := ax + ay*f.W
			for i := f.cell[c]; i < f.cell[c+1]; i++ {
				if f.N[i].comp >= 0 && ix.polys[h.id].off(f.N[i].h) <= tol {
					t.Count("polygon samples allowed", 1)
					return
				}
			}
		}
	}
	var near []float64
	for i := f.cell[c]; i < f.cell[c+1]; i++ {
		near = append(near, f.N[i].h, f.N[i].dist/cs)
	}
	t.Fatalf("polygon %x covers (%g, %g, %g), where agents can't stand: heights and distances in cells from the border are %v there, radius %g cells", uint32(ix.polys[h.id].ref), px, h.y, pz, near, R)
}

// inner has the places of a grid, a cell apart, which are covered by a mesh at
// about the same height for a distance around them, joined in components.
type inner struct {
	x, z, y float64
	id      int
	comp    int
}

func (ix *meshIndex) inner(t *T, x0, z0, x1, z1, cs, d, tol, step float64) (l []inner) {
	w, h := int((x1-x0)/cs)+1, int((z1-z0)/cs)+1
	cells := make([][]hit, w*h)
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			cells[i+j*w] = ix.at(t, x0+float64(i)*cs, z0+float64(j)*cs)
		}
	}
	has := func(i, j int, y, tol float64) bool {
		if i < 0 || j < 0 || i >= w || j >= h {
			return false
		}
		for _, k := range cells[i+j*w] {
			if math.Abs(k.y-y) <= tol {
				return true
			}
		}
		return false
	}
	r := int(d / cs)
	first := make([]int, w*h+1)
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			first[i+j*w] = len(l)
		hits:
			for _, k := range cells[i+j*w] {
				for b := -r; b <= r; b++ {
					for a := -r; a <= r; a++ {
						if float64(a*a+b*b)*cs*cs <= d*d && !has(i+a, j+b, k.y, tol) {
							continue hits
						}
					}
				}
				l = append(l, inner{x0 + float64(i)*cs, z0 + float64(j)*cs, k.y, k.id, -1})
			}
		}
	}
	first[w*h] = len(l)
	n := 0
	for c := 0; c < w*h; c++ {
		for s := first[c]; s < first[c+1]; s++ {
			if l[s].comp >= 0 {
				continue
			}
			l[s].comp = n
			for todo := [][2]int{{c, s}}; len(todo) > 0; {
				k := todo[len(todo)-1]
				todo = todo[:len(todo)-1]
				for _, o := range dir8[:4] {
					x, y := k[0]%w+o[0], k[0]/w+o[1]
					if x < 0 || y < 0 || x >= w || y >= h {
						continue
					}
					for m := first[x+y*w]; m < first[x+y*w+1]; m++ {
						if l[m].comp < 0 && math.Abs(l[m].y-l[k[1]].y) <= step {
							l[m].comp = n
							todo = append(todo, [2]int{x + y*w, m})
						}
					}
				}
			}
			n++
		}
	}
	return
}

// pieces numbers the pieces of ground joined by links, and has their areas.
func (ix *meshIndex) pieces() (comp []int, area []float64) {
	id := map[detour.PolyRef]int{}
	for i := range ix.polys {
		id[ix.polys[i].ref] = i
	}
	comp = make([]int, len(ix.polys))
	for i := range comp {
		comp[i] = -1
	}
	for i := range comp {
		if comp[i] >= 0 {
			continue
		}
		c := len(area)
		area = append(area, 0)
		comp[i] = c
		for todo := []int{i}; len(todo) > 0; {
			k := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			v := ix.polys[k].v
			for j := 2; j < len(v); j++ {
				area[c] += math.Abs(cross2(v[0], v[j-1], v[j])) / 2
			}
			for _, r := range linkedPolys(ix.m, ix.polys[k].ref) {
				if j, ok := id[r]; ok && comp[j] < 0 {
					comp[j] = c
					todo = append(todo, j)
				}
			}
		}
	}
	return
}

func linkedPolys(m *detour.NavMesh, ref detour.PolyRef) (l []detour.PolyRef) {
	var (
		tl *detour.MeshTile
		p  *detour.Poly
	)
	m.TileAndPolyByRefUnsafe(ref, &tl, &p)
	for i := p.FirstLink; i != 0xffffffff; i = tl.Links[i].Next {
		l = append(l, tl.Links[i].Ref)
	}
	return
}

// compareTiled compares a tiled mesh with one of a single tile.
func compareTiled(t *T, sc *Scene, r *rand.Rand, ix *meshIndex, spots []spot, f *field) {
	cs, ch := float64(sc.B.CellSize), float64(sc.B.CellHeight)
	tiles, links := 0, 0
	for i := range ix.m.Tiles {
		if ix.m.Tiles[i].Header != nil {
			tiles++
		}
	}
	for i := range ix.polys {
		for _, l := range linkedPolys(ix.m, ix.polys[i].ref) {
			var salt, a, b, ip uint32
			ix.m.DecodePolyID(l, &salt, &a, &ip)
			ix.m.DecodePolyID(ix.polys[i].ref, &salt, &b, &ip)
			if a != b {
				links++
			}
		}
	}
	t.Count("links between tiles", links)
	m, err := buildScene(sc, r, false, recast.NewBuildContext(false))
	compA, areaA := ix.pieces()
	minArea := float64(sc.B.RegionMinSize*sc.B.RegionMinSize) * cs * cs
	if err != nil {
		for c, a := range areaA {
			if a > 2*minArea+4*cs*cs {
				t.Fatalf("no single tile could be built, though the tiled mesh has a piece %d of %g cells", c, a/cs/cs)
			}
		}
		return
	}
	x0, z0, x1, z1 := sc.bounds()
	pad := 2 * cs
	sx := indexMesh(t, m, x0-pad, z0-pad, x1+pad, z1+pad, 4*cs)
	compB, areaB := sx.pieces()
	t.Count("meshes compared", 1)
	maxErr := float64(sc.B.EdgeMaxError)
	if sc.B.EdgeMaxLen > 0 {
		maxErr *= 2
	}
	margin := (2*maxErr + 2) * cs
	step := float64(sc.B.AgentMaxClimb) + 2*ch + 2*cs*math.Tan(math.Min(60, float64(sc.B.AgentMaxSlope))*math.Pi/180)
	tol := math.Min(float64(sc.B.AgentMaxClimb)*2+4*ch, float64(sc.B.AgentHeight)/2)
	step = math.Min(step, tol)
	type place struct {
		a, b hit
		x, z float64
	}
	one := func(from, to *meshIndex, comp []int, area []float64, name string) {
		l := from.inner(t, x0+.37*cs, z0+.41*cs, x1, z1, cs, margin, tol, step)
		by := map[int][]place{}
		for _, p := range l {
			if area[comp[p.id]] < 2*minArea+8*cs*cs || r.Intn(3) != 0 {
				continue
			}
			best := hit{-1, math.Inf(1)}
			for _, k := range to.at(t, p.x, p.z) {
				if math.Abs(k.y-p.y) < math.Abs(best.y-p.y) {
					best = k
				}
			}
			if d := math.Abs(best.y - p.y); d > tol && (best.id < 0 || math.Max(to.polys[best.id].off(p.y), 0) > tol && from.polys[p.id].off(best.y) > tol) {
				t.Fatalf("%s (%g, %g, %g) and %g cells around it, but the other mesh has nothing there (within %g)", name, p.x, p.y, p.z, margin/cs, tol)
			}
			t.Count("places compared", 1)
			by[p.comp] = append(by[p.comp], place{hit{p.id, p.y}, best, p.x, p.z})
			if tiles > 1 {
				t.Nontrivial()
			}
		}
		n := 0
		for c := 0; n < 60 && c < len(l); c++ {
			pl := by[c]
			for k := 0; k < 12 && len(pl) > 1; k++ {
				a, b := pl[r.Intn(len(pl))], pl[r.Intn(len(pl))]
				for i, m := range []*meshIndex{from, to} {
					p, q := a.a, b.a
					if i == 1 {
						p, q = a.b, b.b
					}
					if !m.reach(t, p.id, q.id, V3{a.x, p.y, a.z}, V3{b.x, q.y, b.z}) {
						t.Fatalf("%s (%g, %g, %g) and (%g, %g, %g) and the places between, but a path between them is missing in %s mesh", name, a.x, a.a.y, a.z, b.x, b.a.y, b.z, []string{"this", "the other"}[i])
					}
				}
				t.Count("pairs compared", 1)
				n++
			}
		}
	}
	if float64(sc.B.AgentHeight) < 2*float64(sc.B.AgentMaxClimb)+2*ch {
		// Tiles are linked at up to twice the step height, so that small
		// pieces left out of the single tile may be part of large ones.
		for i := range areaA {
			areaA[i] = 0
		}
	}
	one(ix, sx, compA, areaA, "the tiled mesh covers")
	one(sx, ix, compB, areaB, "the single tile covers")
}

// tileTexts describes the tiles of a mesh by location.
func tileTexts(m *detour.NavMesh) map[[2]int32]string {
	r := map[[2]int32]string{}
	for i := range m.Tiles {
		tl := &m.Tiles[i]
		if tl.Header == nil {
			continue
		}
		var b strings.Builder
		fmt.Fprint(&b, *tl.Header, tl.Verts, tl.DetailVerts, tl.DetailTris, tl.DetailMeshes, tl.BvTree, len(tl.Links))
		for j := range tl.Polys {
			p := &tl.Polys[j]
			fmt.Fprint(&b, p.Verts[:p.VertCount], p.Neis[:p.VertCount], p.Flags, p.Area(), p.Type())
		}
		r[[2]int32{tl.Header.X, tl.Header.Y}] = b.String()
	}
	return r
}

// rebuildTiles removes and rebuilds tiles: nothing else changes, and in the
// end the mesh is what it was.
func rebuildTiles(t *T, sc *Scene, r *rand.Rand, tm *tilemesh.TileMesh, m *detour.NavMesh) {
	texts, links := tileTexts(m), snapshotLinks(m)
	ts := float32(int32(sc.B.TileSize)) * sc.B.CellSize
	g := tm.InputGeom().NavMeshBoundsMin()
	var at [][2]int32
	for i := range m.Tiles {
		if h := m.Tiles[i].Header; h != nil {
			at = append(at, [2]int32{h.X, h.Y})
		}
	}
	r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
	if len(at) > 4 && r.Intn(3) != 0 {
		at = at[:1+r.Intn(4)]
	}
	pos := func(a [2]int32) d3.Vec3 {
		return d3.Vec3{g[0] + (float32(a[0])+.1+.8*r.Float32())*ts, g[1] + r.Float32(), g[2] + (float32(a[1])+.1+.8*r.Float32())*ts}
	}
	gone := map[[2]int32]bool{}
	compare := func(what string) {
		now := tileTexts(m)
		for a, x := range texts {
			if y, ok := now[a]; ok == gone[a] || ok && x != y {
				t.Fatalf("%s: tile %v is there: %v (expected %v), same: %v", what, a, ok, !gone[a], x == y)
			}
		}
		if len(now) != len(texts)-len(gone) {
			t.Fatalf("%s: %d tiles instead of %d", what, len(now), len(texts)-len(gone))
		}
	}
	remove := func(a [2]int32) {
		p := pos(a)
		if x, y := tm.TilePos(p); x != a[0] || y != a[1] {
			t.Fatalf("TilePos(%v) = %d, %d, expected %v", p, x, y, a)
		}
		tm.RemoveTile(p)
		gone[a] = true
		compare("after RemoveTile")
		for _, l := range snapshotLinks(m) {
			if strings.Contains(l, "invalid") {
				t.Fatalf("link to a polygon of a removed tile: %s", l)
			}
		}
	}
	for n := r.Intn(3); n > 0; n-- { // no tiles there
		gm := tm.InputGeom().NavMeshBoundsMax()
		w, h := recast.CalcGridSize(g, gm, sc.B.CellSize)
		k := [2]int32{(w-1)/int32(sc.B.TileSize) + 1, (h-1)/int32(sc.B.TileSize) + 1} // tiles each way
		a := [2]int32{r.Int31n(k[0]+2) - 1, r.Int31n(k[1]+2) - 1}
		i := r.Intn(2)
		a[i] = []int32{-1, -1, -2, k[i], k[i] + 1}[r.Intn(5)]
		p := pos(a)
		if x, y := tm.TilePos(p); x != a[0] || y != a[1] {
			t.Fatalf("TilePos(%v) = %d, %d, expected %v", p, x, y, a)
		}
		if r.Intn(2) == 0 {
			tm.RemoveTile(p)
			compare("after RemoveTile outside of the geometry")
		} else {
			tm.BuildTile(p)
			compare("after BuildTile outside of the geometry")
		}
		if l := snapshotLinks(m); strings.Join(l, "\n") != strings.Join(links, "\n") {
			t.Fatalf("other links after building or removing a tile outside of the geometry: %d, %d before", len(l), len(links))
		}
		t.Count("tiles outside of the geometry", 1)
	}
	for len(at) > 0 {
		n := 1 + r.Intn(3)
		if n > len(at) {
			n = len(at)
		}
		now := at[:n]
		at = at[n:]
		if r.Intn(4) != 0 { // rather than rebuilding existing tiles
			for _, a := range now {
				remove(a)
			}
		}
		r.Shuffle(n, func(i, j int) { now[i], now[j] = now[j], now[i] })
		for _, a := range now {
			tm.BuildTile(pos(a))
			delete(gone, a)
			compare("after BuildTile")
			t.Count("tiles built again", 1)
		}
		if l := snapshotLinks(m); strings.Join(l, "\n") != strings.Join(links, "\n") {
			t.Fatalf("other links after building tiles %v again: %d, %d before", now, len(l), len(links))
		}
	}
}

// manyTriangles builds tiles that overlap very many triangles: a floor of small
// ones, with a step in it.
func manyTriangles(t *T) {
	r := t.R
	sc := &Scene{B: tilemesh.DefaultSettings(), kind: "many triangles"}
	sc.B.TileSize = float32(40 + r.Intn(20))
	sc.B.AgentRadius = .3
	n := 265 + r.Intn(30)
	side := 11 + r.Float64()
	var b strings.Builder
	for i := 0; i <= n; i++ {
		for k := 0; k <= n; k++ {
			fmt.Fprintf(&b, "v %.5f %.5f %.5f\n", float64(k)*side/float64(n), .2*float64(i*2/n), float64(i)*side/float64(n))
		}
	}
	for i := 0; i < n; i++ {
		for k := 0; k < n; k++ {
			a := i*(n+1) + k + 1
			fmt.Fprintf(&b, "f %d %d %d\nf %d %d %d\n", a, a+n+1, a+n+2, a, a+n+2, a+1)
		}
	}
	sc.text = b.String()
	_, m, err := buildTiles(sc, r, recast.NewBuildContext(false))
	if err != nil {
		t.Fatalf("tiles of %g cells of a floor of %d triangles: %v", sc.B.TileSize, 2*n*n, err)
	}
	ix := indexMesh(t, m, -1, -1, side+1, side+1, 1)
	margin := 1.2
	for x := margin; x < side-margin; x += .31 {
		for z := margin; z < side-margin; z += .31 {
			h := ix.at(t, x, z)
			y := 0.
			if z > side/2 {
				y = .2
			}
			if len(h) == 0 {
				t.Fatalf("tiles of %g cells of a floor of %d triangles, %g wide: nothing at (%g,%g)", sc.B.TileSize, 2*n*n, side, x, z)
			}
			if math.Abs(z-side/2) > 1 && math.Abs(h[0].y-y) > .45 {
				t.Fatalf("tiles of %g cells of a floor of %d triangles: height %g at (%g,%g) instead of %g", sc.B.TileSize, 2*n*n, h[0].y, x, z, y)
			}
			t.Count("sure places covered", 1)
		}
	}
	t.Mix(n, side)
	t.Count("tiles of many triangles", 1)
	t.Nontrivial()
}

// manyTiles builds more tiles than a mesh can hold: they're all there, or the
// build fails.
func manyTiles(t *T) {
	sc := &Scene{B: tilemesh.DefaultSettings(), kind: "many tiles"}
	sc.B.TileSize, sc.B.AgentRadius = 2, .2
	side := .6 * float64(130+t.R.Intn(6))
	sc.box(0, 0, side, side, -1, 0)
	ctx := recast.NewBuildContext(false)
	tm, m, err := buildTiles(sc, t.R, ctx)
	_ = tm
	t.Mix(side)
	t.Nontrivial()
	if err != nil {
		t.Count("builds with too many tiles refused", 1)
		return
	}
	n := 0
	for i := range m.Tiles {
		if m.Tiles[i].Header != nil {
			n++
		}
	}
	if k := int(side/.6) - 2; n < k*k {
		t.Fatalf("%d tiles of a world of %gx%g tiles were built", n, side/.6, side/.6)
	}
	t.Count("worlds of many tiles", 1)
}
