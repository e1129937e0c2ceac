package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

func init() {
	register(&Prop{ID: "D12", Quick: 20000, Thorough: 300000, Run: runD12,
		Rule:  "a case is a random mesh (up to 9 tiles, layers, with and without bounding volume trees and detail meshes) with 25 nearest polygon queries with random points, search boxes (from points to larger than the mesh, and endless ones) and filters, compared with the nearest polygon of the whole mesh by exhaustion; plus the listed finding on FindNearestPolyInTile; non-trivial if several candidates were in a box; distinct by points and candidates",
		MinEv: []string{"queries", "found", "nothing_found", "several_candidates", "over_polygon", "clamped_to_outline", "across_tiles", "without_bvtree", "with_bvtree", "batches", "endless_boxes", "invalid_args", "offsets_over_65535"}})
	register(&Prop{ID: "D13", Quick: 60000, Thorough: 300000, Run: runD13,
		Rule:  "a case is a random mesh with 40 positions (inside, outside, far away, on edges, at vertices) relative to random polygons, off-mesh connections included; results are compared with exact geometry in double precision; non-trivial if positions inside and outside were used; distinct by positions",
		MinEv: []string{"inside", "outside", "on_edge", "offmesh", "detail_heights", "invalid_refs", "vertices", "far from the origin"}})
	register(&Prop{ID: "D14", Quick: 20000, Thorough: 300000, Run: runD14,
		Rule:  "a case is a random mesh with 30 rays cast from points inside of polygons, compared with a walk over the linked polygons computed in double precision; rays that come too close to a vertex or to the limit of a portal are left out; non-trivial if a ray crossed at least two polygons; distinct by polygons visited",
		MinEv: []string{"rays", "hits", "reached", "tile_crossings", "partial_portals", "left_out", "small_lists", "costs", "dirty_outputs", "filtered_walls", "invalid_args", "close rays that end", "close rays that hit"}})
}

// distTri2D is the distance in the ground plane from p to the triangle, and
// the height of the triangle there.
func distTri2D(p, a, b, c V3) (float64, float64) {
	den := cross2(a, b, c)
	if math.Abs(den) > 1e-9 {
		u, v, w := cross2(b, c, p)/den, cross2(c, a, p)/den, cross2(a, b, p)/den
		if u >= 0 && v >= 0 && w >= 0 {
			return 0, u*a[1] + v*b[1] + w*c[1]
		}
	}
	best, h := math.Inf(1), 0.0
	for _, e := range [][2]V3{{a, b}, {b, c}, {c, a}} {
		if d, s := distSeg2D(p, e[0], e[1]); d < best {
			best, h = d, e[0].lerp(e[1], s)[1]
		}
	}
	return best, h
}

// surface returns the range of heights of the detail surface of a polygon at
// a point (within eps of it).
func (x *MPoly) surface(p V3, eps float64) (lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	best, bh := math.Inf(1), 0.0
	pt := func(i int) V3 {
		if i < len(x.V) {
			return x.V[i]
		}
		return x.G.DV[i-len(x.V)]
	}
	for _, t := range x.G.DT {
		d, h := distTri2D(p, pt(t[0]), pt(t[1]), pt(t[2]))
		if d <= eps {
			lo, hi = math.Min(lo, h), math.Max(hi, h)
		}
		// slivers have no accurate slope
		long := 0.0
		for e := 0; e < 3; e++ {
			long = math.Max(long, pt(t[e]).dist2D(pt(t[(e+1)%3])))
		}
		if math.Abs(cross2(pt(t[0]), pt(t[1]), pt(t[2]))) < 0.05*long*long && d <= 0.01*long {
			for _, i := range t {
				lo, hi = math.Min(lo, pt(i)[1]), math.Max(hi, pt(i)[1])
			}
		}
		if d < best {
			best, bh = d, h
		}
	}
	if lo > hi {
		lo, hi = bh, bh
	}
	return
}

// closest is the point of a polygon closest to p: over tells that p is over
// the polygon and edge that it's so close to its outline that it may be or
// not. lo and hi bound the height.
func (x *MPoly) closest(p V3) (c V3, over, edge bool, lo, hi float64) {
	in := inPoly2D(p, x.V)
	c, out := clampToOutline(x, p)
	over = !out
	edge = math.Abs(in) < 1e-3
	lo, hi = x.surface(c, 2e-3)
	c[1] = (lo + hi) / 2
	return
}

// bounds of a polygon, including its detail mesh.
func (x *MPoly) bounds(detail bool) (lo, hi V3) {
	for i := range lo {
		lo[i], hi[i] = math.Inf(1), math.Inf(-1)
	}
	vs := append([]V3{}, x.V...)
	if detail && x.G != nil {
		vs = append(vs, x.G.DV...)
	}
	for _, v := range vs {
		for i := range v {
			lo[i], hi[i] = math.Min(lo[i], v[i]), math.Max(hi[i], v[i])
		}
	}
	return
}

func overlaps(alo, ahi, blo, bhi V3, margin V3) bool {
	for i := range alo {
		if alo[i] > bhi[i]+margin[i] || ahi[i] < blo[i]-margin[i] {
			return false
		}
	}
	return true
}

// searchTiles searches single tiles: what's found is a polygon of the tile
// touching the box, if any. (It isn't always the nearest one, see the listed
// finding.)
func searchTiles(t *T, mp *MeshPolys) {
	r := t.R
	if mp.M.Tiles[0].Header == nil {
		return
	}
	// coordinates of vertices at round offsets
	var far []V3
	for i, x := range mp.L {
		if i < 10000 {
			continue
		}
		for _, v := range x.P.Verts[:x.P.VertCount] {
			if o := (int(v)*3 + 3) & 0xffff; o < 8 {
				far = append(far, x.center())
				t.Count("offsets_over_65535", 1)
			}
		}
	}
	w0 := 8 * mp.L[0].slack()
	for i := 0; i < 4+len(far); i++ {
		x := mp.L[r.Intn(len(mp.L))]
		p := x.randPoint(r)
		ext := V3{r.Float64() * 6, r.Float64() * 6, r.Float64() * 6}
		if r.Intn(3) == 0 {
			ext = V3{1000, 1000, 1000}
		}
		if i >= 4 {
			p = far[i-4]
			ext = V3{w0 * r.Float64(), 1000, w0 * r.Float64()}
		}
		pt := d3.NewVec3()
		ref := mp.M.FindNearestPolyInTile(x.Tile, p.f32(), ext.f32(), pt)
		t.Count("single_tiles_searched", 1)
		if ref == 0 {
			continue
		}
		j, ok := mp.I[ref]
		if !ok || mp.L[j].Tile != x.Tile || !mp.L[j].ground() {
			t.Fatalf("FindNearestPolyInTile gave 0x%x, which isn't a ground polygon of the tile", uint32(ref))
		}
		a, b := mp.L[j].bounds(true)
		for k := range a {
			if a[k] > p[k]+ext[k]+x.slack() || b[k] < p[k]-ext[k]-x.slack() {
				t.Fatalf("FindNearestPolyInTile gave 0x%x, whose bounds %v %v are out of the box around %v, %v", uint32(ref), a, b, p, ext)
			}
		}
	}
}

// slack is the resolution of bounding volume trees.
func (x *MPoly) slack() float64 {
	if q := float64(x.Tile.Header.BvQuantFactor); q > 0 {
		return 3.1/q + .01
	}
	return .01
}

func runD12(t *T) {
	r := t.R
	if t.Idx == 0 {
		// the listed finding
		f, err := os.Open(filepath.Join(repoDir(), "testdata", "mesh2.bin"))
		if err == nil {
			m, err := detour.Decode(f)
			f.Close()
			if err == nil {
				st, q := detour.NewNavMeshQuery(m, 64)
				pt := d3.NewVec3XYZ(5, 0, 10)
				ext := d3.NewVec3XYZ(0, 1, 0)
				if detour.StatusSucceed(st) {
					_, ref, _ := q.FindNearestPoly(pt, ext, detour.NewStandardQueryFilter())
					n := d3.NewVec3()
					tx, ty := m.CalcTileLoc(pt)
					got := m.FindNearestPolyInTile(m.TileAt(tx, ty, 0), pt, ext, n)
					if got != ref {
						t.Known(fmt.Sprintf("FindNearestPolyInTile-mesh2.bin-(5,0,10)-gives-0x%x-instead-of-0x%x", uint32(got), uint32(ref)), "FindNearestPolyInTile((5,0,10), extents (0,1,0)) on testdata/mesh2.bin returns polygon 0x%x at %v, the nearest one is 0x%x", uint32(got), n, uint32(ref))
					}
				}
			}
		}
	}
	w, mp := pathWorld(t, r.Intn(4) == 0)
	if r.Intn(40) == 0 {
		// many polygons in a tile
		o := randOpt(r)
		o.N, o.TX, o.TY = 12+r.Intn(6), 1, 1
		w = makeWorld(r, o)
		mp = newMeshPolys(w.build()).attach(w)
	}
	m := mp.M
	searchTiles(t, mp)
	st, q := detour.NewNavMeshQuery(m, 64)
	if detour.StatusFailed(st) {
		t.Fatalf("NewNavMeshQuery: 0x%x", uint32(st))
	}
	t.Desc("%s", w.desc())
	for _, x := range w.Tiles {
		if x.P.BuildBvTree {
			t.Count("with_bvtree", 1)
		} else {
			t.Count("without_bvtree", 1)
		}
	}
	var lo, hi V3
	for i := range lo {
		lo[i], hi[i] = math.Inf(1), math.Inf(-1)
	}
	for _, x := range mp.L {
		a, b := x.bounds(true)
		for i := range lo {
			lo[i], hi[i] = math.Min(lo[i], a[i]), math.Max(hi[i], b[i])
		}
	}
	for k := 0; k < 25; k++ {
		f := randFilter(r, 0)
		var p V3
		switch r.Intn(5) {
		case 0:
			for i := range p {
				p[i] = lo[i] + (hi[i]-lo[i])*(1.4*r.Float64()-0.2)
			}
		case 1:
			x := mp.L[r.Intn(len(mp.L))]
			p = x.V[r.Intn(len(x.V))].lerp(x.V[r.Intn(len(x.V))], r.Float64())
			p = p.add(V3{r.NormFloat64() * 0.3, r.NormFloat64() * 0.5, r.NormFloat64() * 0.3})
		default:
			x := mp.L[r.Intn(len(mp.L))]
			p = x.aligned(r, x.randPoint(r))
			p[1] += r.NormFloat64() * []float64{0, 0.1, 1, 5}[r.Intn(4)]
		}
		var ext V3
		s := []float64{0, 0.3, 2, 10, 200}[r.Intn(5)]
		for i := range ext {
			ext[i] = s * r.Float64()
			if r.Intn(8) == 0 {
				ext[i] = 200
			}
		}
		if r.Intn(8) == 0 {
			// boxes of more than any mesh
			for i := range ext {
				ext[i] = []float64{1e3, 1e6, 1e10, 1e20, 3e38, math.Inf(1)}[r.Intn(6)]
			}
			if r.Intn(3) == 0 {
				ext[2*r.Intn(2)] = 10 * r.Float64()
			}
			t.Count("endless_boxes", 1)
		}
		pf, ef := d3.Vec3(p.f32()), d3.Vec3(ext.f32())
		p, ext = v3(pf), v3(ef)
		st, ref, pt := q.FindNearestPoly(pf, ef, f.F)
		t.Count("queries", 1)
		what := fmt.Sprintf("query %d at %v, extents %v", k, p, ext)
		if st != detour.Success {
			t.Fatalf("%s: status 0x%x", what, uint32(st))
		}
		blo, bhi := p.sub(ext), p.add(ext)
		best, bestRef := math.Inf(1), detour.PolyRef(0)
		cands := 0
		tiles := map[*detour.MeshTile]int{}
		for _, x := range mp.L {
			if !x.ground() || !f.pass(x.P) {
				continue
			}
			plo, phi := x.bounds(false)
			if !overlaps(plo, phi, blo, bhi, V3{-2e-3, -2e-3, -2e-3}) {
				// (thin boxes and polygons)
				if !overlaps(plo, phi, blo, bhi, V3{}) || boundary(plo, phi, blo, bhi, 2e-3) {
					continue
				}
			}
			cands++
			tiles[x.Tile]++
			if _, d := x.distance(p); d < best {
				best, bestRef = d, x.Ref
			}
		}
		for _, n := range tiles {
			if n > 32 {
				t.Count("batches", 1)
			}
		}
		if cands > 1 {
			t.Nontrivial()
			t.Mix(p, cands)
			t.Count("several_candidates", 1)
		}
		if len(tiles) > 1 {
			t.Count("across_tiles", 1)
		}
		if ref == 0 {
			if pt != nil {
				t.Fatalf("%s: no polygon, but the point %v", what, pt)
			}
			if cands > 0 {
				t.Fatalf("%s: no polygon found, but %s is in the search box", what, refName(m, bestRef))
			}
			t.Count("nothing_found", 1)
			continue
		}
		t.Count("found", 1)
		i, ok := mp.I[ref]
		if !ok {
			t.Fatalf("%s: the polygon found, 0x%x, doesn't exist", what, uint32(ref))
		}
		x := mp.L[i]
		if !x.ground() {
			t.Fatalf("%s: the off-mesh connection %s is returned", what, refName(m, ref))
		}
		if !f.pass(x.P) {
			t.Fatalf("%s: %s doesn't pass the filter", what, refName(m, ref))
		}
		plo, phi := x.bounds(true)
		cs := w.O.Cs
		if !overlaps(plo, phi, blo, bhi, V3{3.1*cs + 1e-3, 3.1*cs + 1e-3, 3.1*cs + 1e-3}) {
			t.Fatalf("%s: %s is out of the search box", what, refName(m, ref))
		}
		c, over, edge, hlo, hhi := x.closest(p)
		d2 := c.dist2D(v3(pt))
		if d2 > 2e-3 && !sameClamp(V3{float64(pt[0]), c[1], float64(pt[2])}, c, p, x, 2e-3) || float64(pt[1]) < hlo-0.03-d2 || float64(pt[1]) > hhi+0.03+d2 {
			t.Fatalf("%s: the nearest point of %s is %v, not %v (heights %f to %f)", what, refName(m, ref), c, pt, hlo, hhi)
		}
		if over && !edge {
			t.Count("over_polygon", 1)
		} else if !edge {
			t.Count("clamped_to_outline", 1)
		}
		if d, _ := x.distance(p); d > best*(1+1e-3)+0.02 {
			t.Fatalf("%s: %s is at distance %f, but %s is at distance %f", what, refName(m, ref), d, refName(m, bestRef), best)
		}
	}
	p := d3.Vec3{0, 0, 0}
	for i, c := range []struct {
		a, b d3.Vec3
		f    detour.QueryFilter
	}{{nil, p, detour.NewStandardQueryFilter()}, {p, nil, detour.NewStandardQueryFilter()}, {p[:2], p, detour.NewStandardQueryFilter()}, {p, p, nil}} {
		if st, ref, pt := q.FindNearestPoly(c.a, c.b, c.f); i != 0 && i != 2 && (!detour.StatusFailed(st) || ref != 0 || pt != nil) {
			t.Fatalf("nearest polygon with invalid arguments (%d): status 0x%x, polygon 0x%x", i, uint32(st), uint32(ref))
		}
		t.Count("invalid_args", 1)
	}
}

// boundary tells if two boxes only touch, within eps, in a direction in which
// they're both not thin.
func boundary(alo, ahi, blo, bhi V3, eps float64) bool {
	for i := range alo {
		if math.Min(ahi[i], bhi[i])-math.Max(alo[i], blo[i]) < eps {
			// touching within eps: sure only if one is inside of the other
			in := alo[i] > blo[i]+eps && ahi[i] < bhi[i]-eps || blo[i] > alo[i]+eps && bhi[i] < ahi[i]-eps
			if !in {
				return true
			}
		}
	}
	return false
}

// distance bounds the distance between a point and a polygon, as defined for
// nearest polygon queries.
func (x *MPoly) distance(p V3) (lo, hi float64) {
	c, over, edge, hlo, hhi := x.closest(p)
	climb := float64(x.Tile.Header.WalkableClimb)
	lo, hi = math.Inf(1), 0
	for _, y := range []float64{hlo, hhi, math.Max(hlo, math.Min(hhi, p[1]))} {
		c[1] = y
		var ds []float64
		if over || edge {
			ds = append(ds, math.Max(math.Abs(p[1]-y)-climb, 0))
		}
		if !over || edge {
			ds = append(ds, p.dist(c))
		}
		for _, d := range ds {
			lo, hi = math.Min(lo, d), math.Max(hi, d)
		}
	}
	return
}

// aligned moves p, at times, in line with a vertex.
func (x *MPoly) aligned(r *rand.Rand, p V3) V3 {
	if r.Intn(4) == 0 {
		k := []int{0, 2, 2}[r.Intn(3)]
		p[k] = x.V[r.Intn(len(x.V))][k]
	}
	return p
}

// farHeights checks, far from the origin where coordinates are less precise, that
// positions on polygons have the height of the polygon.
func farHeights(t *T) {
	r := t.R
	o := randOpt(r)
	o.N, o.Offs = 2+r.Intn(4), 0
	d := math.Pow(10, 4.2+r.Float64())
	a := 2 * math.Pi * r.Float64()
	o.Orig = V3{math.Round(d * math.Cos(a)), float64(r.Intn(100) - 50), math.Round(d * math.Sin(a))}
	w := makeWorld(r, o)
	mp := newMeshPolys(w.build()).attach(w)
	st, q := detour.NewNavMeshQuery(mp.M, 64)
	if detour.StatusFailed(st) {
		t.Fatalf("NewNavMeshQuery: 0x%x", uint32(st))
	}
	t.Desc("%s", w.desc())
	for k := 0; k < 200; k++ {
		x := mp.L[r.Intn(len(mp.L))]
		p := x.aligned(r, x.randPoint(r))
		switch e := r.Intn(len(x.V)); r.Intn(4) {
		case 0:
			p = p.add(V3{r.NormFloat64() * 3, 0, r.NormFloat64() * 3})
		case 1, 2:
			p = x.V[e].lerp(x.V[(e+1)%len(x.V)], r.Float64())
		}
		p[1] += 20 * r.NormFloat64()
		cl := d3.NewVec3()
		if st := q.ClosestPointOnPoly(x.Ref, p.f32(), cl, nil); st != detour.Success {
			t.Fatalf("position %v: ClosestPointOnPoly: status 0x%x", p, uint32(st))
		}
		lo, hi := x.bounds(true)
		for i := range lo {
			if m := 2 * o.Cs; float64(cl[i]) < lo[i]-m-o.Ch || float64(cl[i]) > hi[i]+m+o.Ch {
				t.Fatalf("position %v and polygon %s %v: ClosestPointOnPoly gives %v, out of its bounds %v to %v", p, refName(mp.M, x.Ref), x.V, cl, lo, hi)
			}
		}
		t.Count("far from the origin", 1)
	}
}

func runD13(t *T) {
	r := t.R
	if t.Idx%20 == 7 {
		farHeights(t)
		return
	}
	w, mp := pathWorld(t, r.Intn(4) == 0)
	m := mp.M
	st, q := detour.NewNavMeshQuery(m, 64)
	if detour.StatusFailed(st) {
		t.Fatalf("NewNavMeshQuery: 0x%x", uint32(st))
	}
	t.Desc("%s", w.desc())
	in, out := false, false
	for k := 0; k < 40; k++ {
		x := mp.L[r.Intn(len(mp.L))]
		if len(w.Off) > 0 && r.Intn(4) == 0 {
			x = mp.L[len(mp.L)-1-r.Intn(min(len(mp.L), 8))]
		}
		n := len(x.V)
		p := x.aligned(r, x.randPoint(r))
		kind := r.Intn(6)
		switch kind {
		case 0:
			p = x.aligned(r, p.add(V3{r.NormFloat64() * 3, r.NormFloat64() * 3, r.NormFloat64() * 3}))
		case 1:
			p = p.add(V3{r.NormFloat64() * 50, r.NormFloat64() * 50, r.NormFloat64() * 50})
		case 2:
			e := r.Intn(n)
			p = x.V[e].lerp(x.V[(e+1)%n], r.Float64())
			t.Count("on_edge", 1)
		case 3:
			p = x.V[r.Intn(n)]
			t.Count("vertices", 1)
		default:
			p[1] += r.NormFloat64()
		}
		pf := p.f32()
		p = v3(pf)
		what := fmt.Sprintf("position %v and polygon %s %v", p, refName(m, x.Ref), x.V)
		orig := append([]float32{}, pf...)
		cl := d3.Vec3{-777, -777, -777}
		over := r.Intn(2) == 0
		var po *bool
		if r.Intn(8) != 0 {
			po = &over
		}
		if st := q.ClosestPointOnPoly(x.Ref, pf, cl, po); st != detour.Success {
			t.Fatalf("%s: ClosestPointOnPoly: status 0x%x", what, uint32(st))
		}
		cb := d3.Vec3{-777, -777, -777}
		if st := q.ClosestPointOnPolyBoundary(x.Ref, pf, cb); st != detour.Success {
			t.Fatalf("%s: ClosestPointOnPolyBoundary: status 0x%x", what, uint32(st))
		}
		for i := range pf {
			if pf[i] != orig[i] {
				t.Fatalf("%s: the position is modified", what)
			}
		}
		t.Mix(p)
		if !x.ground() {
			t.Count("offmesh", 1)
			// a point of the connection, at the ratio of the distances
			d0, d1 := p.dist(x.V[0]), p.dist(x.V[1])
			if d0+d1 < 1e-3 {
				continue
			}
			c := x.V[0].lerp(x.V[1], d0/(d0+d1))
			if c.dist(v3(cl)) > 1e-3*(1+x.V[0].dist(x.V[1])) {
				t.Fatalf("%s: ClosestPointOnPoly gives %v instead of %v", what, cl, c)
			}
			if po != nil && over {
				t.Fatalf("%s: reported as over an off-mesh connection", what)
			}
			d, s := distSeg2D(p, x.V[0], x.V[1])
			b := x.V[0].lerp(x.V[1], s)
			if b.dist(v3(cb)) > 1e-3*(1+p.dist(b)) && math.Abs(p.dist2D(v3(cb))-d) > 1e-4*(1+d) {
				t.Fatalf("%s: ClosestPointOnPolyBoundary gives %v instead of %v", what, cb, b)
			}
			continue
		}
		c, isover, edge, lo, hi := x.closest(p)
		if !edge {
			if isover {
				in = true
				t.Count("inside", 1)
			} else {
				out = true
				t.Count("outside", 1)
			}
			if po != nil && over != isover {
				t.Fatalf("%s: over the polygon: %v", what, over)
			}
			if isover && (cl[0] != pf[0] || cl[2] != pf[2]) {
				t.Fatalf("%s: ClosestPointOnPoly gives %v for a position over the polygon", what, cl)
			}
			if isover && (cb[0] != pf[0] || cb[1] != pf[1] || cb[2] != pf[2]) {
				t.Fatalf("%s: ClosestPointOnPolyBoundary gives %v for a position over the polygon", what, cb)
			}
		}
		d2 := c.dist2D(v3(cl))
		if d2 > 2e-3 && !sameClamp(V3{float64(cl[0]), c[1], float64(cl[2])}, c, p, x, 2e-3) || float64(cl[1]) < lo-0.02-d2 || float64(cl[1]) > hi+0.02+d2 {
			t.Fatalf("%s: ClosestPointOnPoly gives %v instead of %v (heights %f to %f)", what, cl, c, lo, hi)
		}
		t.Max("height_error", math.Max(lo-float64(cl[1]), float64(cl[1])-hi))
		if len(x.G.DV) > 0 {
			t.Count("detail_heights", 1)
		}
		b, _ := clampToOutline(x, p)
		if !isover || edge {
			if edge && v3(cb) == p {
				continue
			}
			if !sameClamp(v3(cb), b, p, x, 2e-3) {
				t.Fatalf("%s: ClosestPointOnPolyBoundary gives %v instead of %v", what, cb, b)
			}
			// at the height of the outline
			e := math.Inf(1)
			for i := range x.V {
				if d, s := distSeg2D(v3(cb), x.V[i], x.V[(i+1)%n]); d < 2e-3 {
					e = math.Min(e, math.Abs(x.V[i].lerp(x.V[(i+1)%n], s)[1]-float64(cb[1])))
				}
			}
			if e > 0.01 {
				t.Fatalf("%s: ClosestPointOnPolyBoundary gives %v, not on the outline", what, cb)
			}
		}
	}
	if in && out {
		t.Nontrivial()
	}
	for k := 0; k < 5; k++ {
		bad := detour.PolyRef(r.Uint32())
		if k == 0 {
			bad = 0
		}
		if _, ok := mp.I[bad]; ok {
			continue
		}
		var po bool
		cl := d3.NewVec3()
		s1 := q.ClosestPointOnPoly(bad, d3.NewVec3(), cl, &po)
		s2 := q.ClosestPointOnPolyBoundary(bad, d3.NewVec3(), cl)
		for _, s := range []detour.Status{s1, s2} {
			if !detour.StatusFailed(s) || !detour.StatusDetail(s, detour.InvalidParam) {
				t.Fatalf("closest point on the invalid polygon 0x%x: status 0x%x", uint32(bad), uint32(s))
			}
		}
		t.Count("invalid_refs", 1)
	}
}

// rayResult is the walk of a ray.
type rayResult struct {
	path    []detour.PolyRef
	t       float64
	reached bool
	edge    int
	normal  V3
	cost    float64
	tiles   int
	partial int
	walls   int // edges with links, none of which passes the filter
}

// castRay walks along the surface; it returns false if the ray comes too close
// to a vertex or to the limit of a portal.
func (mp *MeshPolys) castRay(start int, a, b V3, f *Filt) (*rayResult, bool) {
	const m = 2e-3
	res := &rayResult{}
	cur := start
	d := V3{b[0] - a[0], 0, b[2] - a[2]}
	if d.len() < 0.01 {
		return nil, false
	}
	pos, tprev := a, 0.0
	for steps := 0; steps < 1000; steps++ {
		x := mp.L[cur]
		res.path = append(res.path, x.Ref)
		// the edge through which the ray leaves
		n := len(x.V)
		exit, tmax := -1, 1.0
		for e := range x.V {
			A, B := x.V[e], x.V[(e+1)%n]
			l := A.dist2D(B)
			ca, cb := -cross2(A, B, a)/l, -cross2(A, B, b)/l // positive inside
			if ca-cb <= 1e-6 {
				if ca < m && cb < m && steps == 0 {
					return nil, false
				}
				continue
			}
			if s := ca / (ca - cb); s < tmax {
				exit, tmax = e, s
			}
			if math.Abs(cb) < m {
				// the end is close to the line of the edge
				if dd, _ := distSeg2D(b, A, B); dd < 2*m {
					return nil, false
				}
			}
		}
		// margin to the vertices
		for _, v := range x.V {
			if dd, _ := distSeg2D(v, a, b); dd < m {
				return nil, false
			}
		}
		if exit < 0 {
			res.reached = true
			res.cost += pos.dist(b) * f.Cost[x.P.Area()]
			return res, true
		}
		if tmax < tprev {
			return nil, false
		}
		A, B := x.V[exit], x.V[(exit+1)%n]
		hit := a.lerp(b, tmax)
		s := A.dist2D(hit) / A.dist2D(B)
		np := A.lerp(B, s)
		res.cost += pos.dist(np) * f.Cost[x.P.Area()]
		pos, tprev = np, tmax
		next := -1
		cand := 0
		for _, k := range mp.links(cur) {
			if int(k.edge) != exit {
				continue
			}
			j := mp.I[k.ref]
			y := mp.L[j]
			if !y.ground() {
				continue
			}
			cand++
			if k.side != 0xff && (k.bmin != 0 || k.bmax != 255) {
				l := A.dist2D(B)
				s0, s1 := float64(k.bmin)/255, float64(k.bmax)/255
				if math.Abs(s-s0)*l < m || math.Abs(s-s1)*l < m {
					return nil, false
				}
				if s < s0 || s > s1 {
					continue
				}
				res.partial++
				// the limits of portals are rounded
				out := math.Inf(1)
				for e := range y.V {
					dd, _ := distSeg2D(np, y.V[e], y.V[(e+1)%len(y.V)])
					out = math.Min(out, dd)
				}
				if out > m {
					return nil, false
				}
			}
			if !f.pass(y.P) {
				res.walls++
				continue
			}
			if next >= 0 {
				return nil, false // two layers
			}
			next = j
		}
		if next < 0 {
			res.t, res.edge = tmax, exit
			nn := V3{B[2] - A[2], 0, -(B[0] - A[0])}
			res.normal = nn.mul(1 / nn.len())
			return res, true
		}
		if mp.L[next].Tile != x.Tile {
			res.tiles++
		}
		cur = next
	}
	return nil, false
}

// checkCloseRay checks what holds for all rays, also those that pass too close to
// a vertex, or end too close to an edge, to tell where they lead.
func (mp *MeshPolys) checkCloseRay(t *T, q *detour.NavMeshQuery, x *MPoly, a, b V3, f *Filt) {
	const size = 300
	m := mp.M
	tol := 2e-3 + 1e-5*a.dist2D(b)
	af, bf := d3.Vec3(a.f32()), d3.Vec3(b.f32())
	hit := &detour.RaycastHit{Path: make([]detour.PolyRef, size), MaxPath: size}
	st := q.Raycast(x.Ref, af, bf, f.F, 0, hit, 0)
	what := fmt.Sprintf("close ray from %v in %s to %v", a, refName(m, x.Ref), b)
	if !detour.StatusSucceed(st) {
		t.Fatalf("%s: status 0x%x", what, uint32(st))
	}
	if detour.StatusDetail(st, detour.BufferTooSmall) {
		return
	}
	n := hit.PathCount
	if n > 0 && hit.Path[0] != x.Ref {
		t.Fatalf("%s: visits %s first", what, refName(m, hit.Path[0]))
	}
	for i := 1; i < n; i++ {
		y, ok := mp.I[hit.Path[i]]
		if !ok || !mp.linked(hit.Path[i-1], hit.Path[i]) || !mp.L[y].ground() || !f.pass(mp.L[y].P) {
			t.Fatalf("%s: visits 0x%x after 0x%x", what, uint32(hit.Path[i]), uint32(hit.Path[i-1]))
		}
	}
	margin := math.Inf(1) // of the start, to the border of its polygon
	for e := range x.V {
		A, B := x.V[e], x.V[(e+1)%len(x.V)]
		margin = math.Min(margin, -cross2(A, B, a)/A.dist2D(B))
	}
	if (n == 0 || a[0] == b[0] && a[2] == b[2] && (n != 1 || hit.T != math.MaxFloat32)) && margin > tol {
		t.Fatalf("%s: %d polygons visited, hit at %v", what, n, hit.T)
	}
	if hit.T == math.MaxFloat32 {
		if n == 0 {
			t.Fatalf("%s: the end is reached through no polygon", what)
		}
		y := mp.L[mp.I[hit.Path[n-1]]]
		for e := range y.V {
			A, B := y.V[e], y.V[(e+1)%len(y.V)]
			if c := -cross2(A, B, b) / A.dist2D(B); c < -tol {
				t.Fatalf("%s: the end is reached, but it's out of %s by %v", what, refName(m, y.Ref), -c)
			}
		}
		t.Count("close rays that end", 1)
		return
	}
	if hit.T < 0 || hit.T > 1+1e-4 {
		t.Fatalf("%s: hit at %v", what, hit.T)
	}
	nrm := v3(hit.HitNormal)
	if n == 0 || nrm.len() == 0 {
		t.Count("close rays that fail", 1)
		return
	}
	y := mp.L[mp.I[hit.Path[n-1]]]
	if hit.HitEdgeIndex < 0 || hit.HitEdgeIndex >= len(y.V) {
		t.Fatalf("%s: hits edge %d of a polygon of %d", what, hit.HitEdgeIndex, len(y.V))
	}
	A, B := y.V[hit.HitEdgeIndex], y.V[(hit.HitEdgeIndex+1)%len(y.V)]
	p := a.lerp(b, float64(hit.T))
	if d, _ := distSeg2D(p, A, B); d > tol {
		t.Fatalf("%s: hit at %v, %v from edge %d of %s", what, hit.T, d, hit.HitEdgeIndex, refName(m, y.Ref))
	}
	want := V3{B[2] - A[2], 0, -(B[0] - A[0])}
	if nrm.dist(want.mul(1/want.len())) > 1e-3 {
		t.Fatalf("%s: normal %v at edge %d of %s", what, nrm, hit.HitEdgeIndex, refName(m, y.Ref))
	}
	l := A.dist2D(B)
	s := A.dist2D(p)
	for _, k := range mp.links(mp.I[y.Ref]) {
		z := mp.L[mp.I[k.ref]]
		if int(k.edge) != hit.HitEdgeIndex || !z.ground() || !f.pass(z.P) {
			continue
		}
		s0, s1 := 0., l
		if k.side != 0xff {
			s0, s1 = l*float64(k.bmin)/255, l*float64(k.bmax)/255
		}
		if s > s0+tol && s < s1-tol {
			t.Fatalf("%s: hits edge %d of %s, beyond which %s is walkable", what, hit.HitEdgeIndex, refName(m, y.Ref), refName(m, z.Ref))
		}
	}
	t.Count("close rays that hit", 1)
}

func runD14(t *T) {
	r := t.R
	w, mp := pathWorld(t, r.Intn(4) == 0)
	m := mp.M
	st, q := detour.NewNavMeshQuery(m, 64)
	if detour.StatusFailed(st) {
		t.Fatalf("NewNavMeshQuery: 0x%x", uint32(st))
	}
	t.Desc("%s", w.desc())
	guard := detour.PolyRef(0xdeadbeef)
	for k := 0; k < 30; k++ {
		f := randFilter(r, r.Intn(3))
		if r.Intn(2) == 0 {
			f = randFilter(rand.New(rand.NewSource(1)), 0)
			f.Inc, f.Exc = 0xffff, 0
			f.F.SetIncludeFlags(0xffff)
			f.F.SetExcludeFlags(0)
		}
		si := r.Intn(len(mp.L))
		x := mp.L[si]
		if !x.ground() {
			continue
		}
		a := x.randPoint(r)
		b := a.add(V3{r.NormFloat64(), r.NormFloat64() * 0.2, r.NormFloat64()}.mul([]float64{1, 5, 20, 100}[r.Intn(4)]))
		if len(mp.L) > 5000 && r.Intn(2) == 0 { // across hundreds of polygons
			b = a.add(V3{r.NormFloat64(), 0, r.NormFloat64()}.mul(500))
		}
		if r.Intn(3) == 0 {
			b = mp.L[r.Intn(len(mp.L))].randPoint(r)
		}
		switch r.Intn(8) {
		case 0: // along an axis
			if r.Intn(2) == 0 {
				b = a.add(V3{b[0] - a[0], b[1] - a[1], 0})
			} else {
				b = a.add(V3{0, b[1] - a[1], b[2] - a[2]})
			}
		case 1:
			special(r, mp, x, mp.L[r.Intn(len(mp.L))], &a, &b)
		}
		af, bf := d3.Vec3(a.f32()), d3.Vec3(b.f32())
		a, b = v3(af), v3(bf)
		want, ok := mp.castRay(si, a, b, f)
		if !ok {
			t.Count("left_out", 1)
			mp.checkCloseRay(t, q, x, a, b, f)
			continue
		}
		t.Count("rays", 1)
		n := len(want.path)
		for _, mode := range []int{0, 1, 2} {
			size := n + 4
			opts := 0
			switch mode {
			case 1:
				opts = int(detour.RaycastUseCosts)
				t.Count("costs", 1)
			case 2:
				size = r.Intn(n + 2)
				t.Count("small_lists", 1)
			}
			path := make([]detour.PolyRef, size+2)
			for i := range path {
				path[i] = guard
			}
			hit := &detour.RaycastHit{Path: path[:size:size], MaxPath: size}
			if r.Intn(2) == 0 {
				// leftovers of another ray
				hit.T = float32(r.Float64() * 10)
				hit.PathCost = 1234
				hit.PathCount = r.Intn(9)
				hit.HitEdgeIndex = r.Intn(9)
				hit.HitNormal = d3.Vec3{1, 2, 3}
				if r.Intn(2) == 0 {
					hit.T = math.MaxFloat32
				}
				t.Count("dirty_outputs", 1)
			}
			st := q.Raycast(x.Ref, af, bf, f.F, opts, hit, 0)
			what := fmt.Sprintf("ray %d from %v in %s to %v, output of %d, options %d", k, a, refName(m, x.Ref), b, size, opts)
			small := size < n
			if !detour.StatusSucceed(st) || detour.StatusDetail(st, detour.BufferTooSmall) != small {
				t.Fatalf("%s: status 0x%x, %d polygons being crossed", what, uint32(st), n)
			}
			if hit.PathCount != min(n, size) {
				t.Fatalf("%s: %d polygons visited instead of %d", what, hit.PathCount, n)
			}
			for i := range path {
				if i < hit.PathCount && path[i] != want.path[i] {
					t.Fatalf("%s: polygon %d is %s instead of %s", what, i, refName(m, path[i]), refName(m, want.path[i]))
				}
				if i >= hit.PathCount && path[i] != guard {
					t.Fatalf("%s: written past the polygons visited", what)
				}
			}
			if want.reached {
				if hit.T != math.MaxFloat32 {
					t.Fatalf("%s: hit reported at %f, but the end is reached", what, hit.T)
				}
				t.Count("reached", 1)
			} else {
				if math.Abs(float64(hit.T)-want.t)*a.dist2D(b) > 2e-3+1e-5*a.dist2D(b) {
					t.Fatalf("%s: hit at %f instead of %f", what, hit.T, want.t)
				}
				if v3(hit.HitNormal).dist(want.normal) > 1e-3 {
					t.Fatalf("%s: normal %v instead of %v", what, hit.HitNormal, want.normal)
				}
				if hit.HitEdgeIndex != want.edge {
					t.Fatalf("%s: edge %d instead of %d", what, hit.HitEdgeIndex, want.edge)
				}
				t.Count("hits", 1)
				if want.walls > 0 {
					t.Count("filtered_walls", 1)
				}
			}
			if mode == 1 {
				if math.Abs(float64(hit.PathCost)-want.cost) > 1e-3*(1+want.cost)+2e-3*float64(n) {
					t.Fatalf("%s: cost %f instead of %f", what, hit.PathCost, want.cost)
				}
			} else if hit.PathCost != 0 {
				t.Fatalf("%s: cost %f", what, hit.PathCost)
			}
			// the other entry point
			if mode != 1 {
				for i := range path {
					path[i] = guard
				}
				nrm := d3.Vec3{5, 5, 5}
				c, tt, st2 := q.Raycast2(x.Ref, af, bf, f.F, nrm, path[:size:size], size)
				if st2 != st || c != hit.PathCount || tt != hit.T || nrm[0] != hit.HitNormal[0] || nrm[1] != hit.HitNormal[1] || nrm[2] != hit.HitNormal[2] {
					t.Fatalf("%s: Raycast2 gives %d polygons, t %f, normal %v, status 0x%x", what, c, tt, nrm, uint32(st2))
				}
				for i := 0; i < c; i++ {
					if path[i] != want.path[i] {
						t.Fatalf("%s: Raycast2 gives other polygons", what)
					}
				}
			}
			if v3(af) != a || v3(bf) != b {
				t.Fatalf("%s: the arguments are modified", what)
			}
		}
		t.Count("tile_crossings", want.tiles)
		t.Count("partial_portals", want.partial)
		if n >= 2 {
			t.Nontrivial()
			t.Mix(want.path)
		}
	}
	bad := detour.PolyRef(0)
	for k := 0; k < 6; k++ {
		x := detour.PolyRef(r.Uint32())
		if _, ok := mp.I[x]; !ok {
			bad = x
		}
	}
	f := detour.NewStandardQueryFilter()
	p := mp.L[0].center().f32()
	for i, c := range [][2]detour.PolyRef{{0, 0}, {bad, 0}, {mp.L[0].Ref, bad}} {
		if i == 2 && bad == 0 {
			continue
		}
		hit := &detour.RaycastHit{Path: make([]detour.PolyRef, 4), MaxPath: 4}
		if st := q.Raycast(c[0], p, p, f, 0, hit, c[1]); !detour.StatusFailed(st) || !detour.StatusDetail(st, detour.InvalidParam) {
			t.Fatalf("ray with invalid arguments (%d): status 0x%x", i, uint32(st))
		}
		t.Count("invalid_args", 1)
	}
}
