package main

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/recast"
)

func init() {
	register(&Prop{ID: "R11", Quick: 20000, Thorough: 200000,
		Rule:   "a case builds the detail mesh of a polygon mesh made from a random compact heightfield, with random sampling distance and error, and checks the triangulation of each convex polygon, its edge flags, and the heights of its vertices and of the sample positions against the spans of the region; non-trivial if there are polygons with vertices of their own",
		MinEv:  []string{"polygons", "triangles", "edge_vertices", "inner_vertices", "heights_compared", "samples_compared", "edge_samples_compared", "edges_shared", "boundary_edges", "inner_edges", "points_compared", "heights_next_to_the_region", "heights_with_alternatives"},
		Assume: []string{"Polygons that aren't strictly convex (from contours crossing themselves) aren't judged.", "Heights are compared with those of a model that follows connections from the region (or from the vertices of polygons of several regions) to the cells of the polygon; where several storeys could be met first, any of their heights is accepted."},
		Run: func(t *T) {
			r := t.R
			var chf *recast.CompactHeightfield
			var at []cspan
			var desc string
			rough := false
			if t.Idx%20000 == 23 {
				chf, at, desc = manyRegions(t)
			} else if t.Idx%800 == 24 {
				chf, at, desc = roughGround(t)
				rough = true
			} else if t.Idx%4 == 1 {
				for ok := false; !ok; { // not the long strips
					_, chf, at, desc, _ = partition(t, 24, true)
					ok = chf.Width <= 100 && chf.Height <= 100
				}
			} else {
				for ok := false; !ok; {
					_, chf, at, desc, _ = partition(t, 24)
					ok = chf.Width <= 100 && chf.Height <= 100
				}
			}
			cset := &recast.ContourSet{}
			maxErr := []float32{0, 1, 1.3, r.Float32() * 3}[r.Intn(4)]
			maxLen := int32(r.Intn(3) * r.Intn(12))
			if rough {
				maxLen = 0
			}
			ctx := recast.NewBuildContext(false)
			if !recast.BuildContours(ctx, chf, maxErr, maxLen, cset, 1) {
				t.Fatalf("%s: no contours", desc)
			}
			nvp := mergeable(cset, 3+r.Intn(4))
			pm, ok := recast.BuildPolyMesh(ctx, cset, int32(nvp))
			if !ok {
				t.Fatalf("%s: no polygon mesh", desc)
			}
			sd := []float32{0, chf.Cs, chf.Cs * 2, chf.Cs * 6, chf.Cs * (.5 + 6*r.Float32())}[r.Intn(5)]
			se := []float32{0, chf.Ch * .5, chf.Ch, chf.Ch * 3, chf.Ch * 3 * r.Float32()}[r.Intn(5)]
			if rough { // keep as many samples as possible
				sd, se = chf.Cs*(.45+.6*r.Float32()), 0
			}
			desc = fmt.Sprintf("%s, maximal error %g, length %d, %d vertices, samples each %g (%g cells) with error %g", desc, maxErr, maxLen, nvp, sd, sd/chf.Cs, se)
			was := fmt.Sprint(pm, chf.Spans)
			dm, ok := recast.BuildPolyMeshDetail(ctx, pm, chf, sd, se)
			if !ok {
				t.Fatalf("%s: failed", desc)
			}
			if fmt.Sprint(pm, chf.Spans) != was {
				t.Fatalf("%s: the polygon mesh or the heightfield was changed", desc)
			}
			checkDetailMesh(t, desc, chf, at, pm, dm, float64(sd), float64(se))
			t.Mix(dm.Verts[:dm.NVerts*3], dm.Tris[:dm.NTris*4])
			t.Desc("%s: %d polygons, %d triangles", desc, pm.NPolys, dm.NTris)
		}})
}

// roughGround makes a single region of which no two cells have the same height.
func roughGround(t *T) (*recast.CompactHeightfield, []cspan, string) {
	r := t.R
	g := &GField{W: 28 + r.Intn(10), H: 28 + r.Intn(10), Top: 400, cs: .3, ch: .2, kind: "rough"}
	g.C = make([][]mspan, g.W*g.H)
	for i := range g.C {
		g.C[i] = []mspan{{0, 100 + r.Intn(40), 63}}
	}
	for n := 1 + r.Intn(4); n > 0; n-- { // corners cut
		k := r.Intn(8)
		x, z := r.Intn(2), r.Intn(2)
		for b := 0; b < k; b++ {
			for a := 0; a < k-b; a++ {
				g.C[x*(g.W-1)+a*(1-2*x)+g.W*(z*(g.H-1)+b*(1-2*z))] = nil
			}
		}
	}
	ctx := recast.NewBuildContext(false)
	chf := &recast.CompactHeightfield{}
	recast.BuildCompactHeightfield(ctx, 10, 40, g.heightfield(ctx), chf)
	at := chfCells(t, chf)
	recast.BuildRegionsMonotone(ctx, chf, 0, 0, 0)
	for i := range chf.Spans {
		chf.Spans[i].Reg = 1
	}
	return chf, at, g.desc()
}

// manyRegions makes a terrain whose polygon mesh has more vertices than most: a
// region for nearly each of its cells.
func manyRegions(t *T) (*recast.CompactHeightfield, []cspan, string) {
	r := t.R
	g := &GField{W: 300 + r.Intn(20), H: 300 + r.Intn(10), Top: 400, cs: .3, ch: .2, kind: "many regions"}
	g.C = make([][]mspan, g.W*g.H)
	h := noise(r, g.W, g.H, 15)
	for i := range g.C {
		g.C[i] = []mspan{{0, imax(1, 50+int(h[i])), 63}}
	}
	ctx := recast.NewBuildContext(false)
	chf := &recast.CompactHeightfield{}
	recast.BuildCompactHeightfield(ctx, 10, 8, g.heightfield(ctx), chf)
	at := chfCells(t, chf)
	for i, s := range at {
		if chf.Areas[i] = 63; s.x%4 == 3 || s.y%4 == 3 {
			chf.Areas[i] = 0
		}
	}
	recast.BuildRegionsMonotone(ctx, chf, 0, 0, 0)

	return chf, at, fmt.Sprintf("%s, cut in squares", g.desc())
}

func checkDetailMesh(t *T, desc string, chf *recast.CompactHeightfield, at []cspan, pm *recast.PolyMesh, dm *recast.PolyMeshDetail, sd, se float64) {
	n := int(pm.NPolys)
	if int(dm.NMeshes) != n {
		t.Fatalf("%s: %d detail meshes for %d polygons", desc, dm.NMeshes, n)
	}
	cs, ch, bs := float64(chf.Cs), float64(chf.Ch), int(chf.BorderSize)
	radius := imax(1, int(math.Ceil(float64(pm.MaxEdgeError))))
	vb, tb := 0, 0
	orig := V3{float64(pm.BMin[0]), float64(pm.BMin[1]), float64(pm.BMin[2])}
	eps := 1e-5*(math.Abs(orig[0])+math.Abs(orig[1])+math.Abs(orig[2])+50) + 1e-4*cs
	high := 0.
	for i := range at {
		high = math.Max(high, float64(chf.Spans[i].Y)*ch)
	}
	eps += 2.5e-7 * high // single precision
	// Surface of a region in a column (of the mesh).
	type cell struct{ x, z int }
	byCell := map[cell][]int{}
	for i := range at {
		c := cell{at[i].x - bs, at[i].y - bs}
		byCell[c] = append(byCell[c], i)
	}
	cellOf := func(x, z float64) (c cell, sure bool) {
		fx, fz := x/cs+.01, z/cs+.01
		c = cell{int(math.Floor(fx)), int(math.Floor(fz))}
		const m = 1e-3
		sure = fx-math.Floor(fx) > m && fx-math.Floor(fx) < 1-m && fz-math.Floor(fz) > m && fz-math.Floor(fz) < 1-m
		return
	}
	ofRegion := func(reg int, c cell) bool {
		for _, i := range byCell[c] {
			if int(chf.Spans[i].Reg) == reg && reg != 0 {
				return true
			}
		}
		return false
	}
	type ekey struct{ a, b int }
	type eside struct {
		poly int
		vs   []V3
		full bool // all samples known
	}
	sides := map[ekey][]eside{}
	for i := 0; i < n; i++ {
		m := dm.Meshes[i*4 : i*4+4]
		if int(m[0]) != vb || int(m[2]) != tb {
			t.Fatalf("%s: the detail mesh of polygon %d starts at vertex %d and triangle %d, want %d and %d", desc, i, m[0], m[2], vb, tb)
		}
		nv, nt := int(m[1]), int(m[3])
		vb, tb = vb+nv, tb+nt
		if vb > int(dm.NVerts) || tb > int(dm.NTris) || vb*3 > len(dm.Verts) || tb*4 > len(dm.Tris) {
			t.Fatalf("%s: the detail mesh of polygon %d ends at vertex %d of %d and triangle %d of %d", desc, i, vb, dm.NVerts, tb, dm.NTris)
		}
		l := meshPoly(pm, i)
		reg := int(pm.Regs[i])
		vs := make([]V3, nv) // relative to the origin of the mesh
		for k := range vs {
			for a := 0; a < 3; a++ {
				vs[k][a] = float64(dm.Verts[(int(m[0])+k)*3+a]) - orig[a]
			}
			vs[k][1] -= ch
		}
		if nv < len(l) {
			t.Fatalf("%s: polygon %d of %d vertices has %d detail vertices", desc, i, len(l), nv)
		}
		if nv > 127 || nt > 255 {
			t.Fatalf("%s: polygon %d has %d detail vertices and %d triangles", desc, i, nv, nt)
		}
		poly := make([]V3, len(l))
		convex := true
		minY, maxY := math.Inf(1), math.Inf(-1)
		p2 := polyPts(pm, l)
		lo, hi := p2[0], p2[0]
		for k, v := range l {
			poly[k] = V3{float64(pm.Verts[v*3]) * cs, float64(pm.Verts[v*3+1]) * ch, float64(pm.Verts[v*3+2]) * cs}
			if vs[k].dist(poly[k]) > eps {
				t.Fatalf("%s: detail vertex %d of polygon %d is at %v, that of the polygon at %v", desc, k, i, vs[k], poly[k])
			}
			minY, maxY = math.Min(minY, poly[k][1]), math.Max(maxY, poly[k][1])
			convex = convex && crossI(p2[k], p2[(k+1)%len(l)], p2[(k+2)%len(l)]) < 0
			lo, hi = pt2{imin(lo.x, p2[k].x), imin(lo.z, p2[k].z)}, pt2{imax(hi.x, p2[k].x), imax(hi.z, p2[k].z)}
		}
		convex = convex && simple(p2)
		tris := make([][3]int, nt)
		for k := range tris {
			for a := 0; a < 3; a++ {
				tris[k][a] = int(dm.Tris[(int(m[2])+k)*4+a])
				if tris[k][a] >= nv {
					t.Fatalf("%s: triangle %d of polygon %d refers to vertex %d of %d", desc, k, i, tris[k][a], nv)
				}
			}
		}
		if !convex {
			t.Count("left_out_polygons_not_convex", 1)
			continue
		}
		t.Count("polygons", 1)
		t.Count("triangles", nt)
		// Vertices inside the outline; on which edges are they?
		on := make([][]bool, nv)
		nearE := make([][]bool, nv)
		for k, v := range vs {
			on[k] = make([]bool, len(l))
			nearE[k] = make([]bool, len(l))
			for e := range poly {
				a, b := poly[e], poly[(e+1)%len(l)]
				ln := a.dist2D(b)
				// Clockwise: inside is where the cross product is negative.
				d := ((b[0]-a[0])*(v[2]-a[2]) - (v[0]-a[0])*(b[2]-a[2])) / ln
				if d > 1e-3+eps {
					t.Fatalf("%s: detail vertex %d of polygon %d at %v is %g outside of its edge %d", desc, k, i, v, d, e)
				}
				on[k][e] = d > -5e-4
				nearE[k][e] = d > -2e-3
			}
		}
		// Triangles.
		sum := 0.0
		maxGrad := 0.0
		for k, tr := range tris {
			a, b, c := vs[tr[0]], vs[tr[1]], vs[tr[2]]
			ar := ((b[0]-a[0])*(c[2]-a[2]) - (c[0]-a[0])*(b[2]-a[2])) / 2
			sum -= ar
			if math.Abs(ar) > 1e-3*cs*cs {
				gx := ((b[1]-a[1])*(c[2]-a[2]) - (c[1]-a[1])*(b[2]-a[2])) / (2 * ar)
				gz := ((c[1]-a[1])*(b[0]-a[0]) - (b[1]-a[1])*(c[0]-a[0])) / (2 * ar)
				maxGrad = math.Max(maxGrad, math.Hypot(gx, gz))
			}
			fl := dm.Tris[(int(m[2])+k)*4+3]
			for e := 0; e < 3; e++ {
				u, v := tr[e], tr[(e+1)%3]
				got := int(fl>>(2*uint(e))) & 3
				yes, maybe := false, false
				for s := range poly {
					yes = yes || on[u][s] && on[v][s]
					maybe = maybe || nearE[u][s] && nearE[v][s]
				}
				switch {
				case yes && got != 1, !yes && !maybe && got != 0:
					t.Fatalf("%s: edge %d of triangle %d (%v %v %v) of polygon %d has flag %d, on the boundary: %v", desc, e, k, a, b, c, i, got, yes)
				case yes:
					t.Count("boundary_edges", 1)
				default:
					t.Count("inner_edges", 1)
				}
			}
			if fl>>6 != 0 {
				t.Fatalf("%s: triangle %d of polygon %d has the flags %#x", desc, k, i, fl)
			}
		}
		want := float64(area2(p2)) / 2 * cs * cs
		if math.Abs(sum-want) > 1e-3*want+eps*cs*8 {
			t.Fatalf("%s: the %d triangles of polygon %d (%d vertices of which %d are its own: %v) have an area of %g, the polygon %g", desc, nt, i, nv, len(l), vs, sum, want)
		}
		// Points.
		for z := lo.z; z < hi.z; z++ {
			for x := lo.x; x < hi.x; x++ {
				px, pz := (float64(x)+.50123)*cs, (float64(z)+.49871)*cs
				if distToPoly(poly, px, pz) > -.02*cs {
					continue
				}
				c, edge := 0, false
				for _, tr := range tris {
					w := triSide(vs[tr[0]], vs[tr[1]], vs[tr[2]], px, pz)
					edge = edge || math.Abs(w) < 1e-3*cs
					if w > 0 {
						c++
					}
				}
				t.Count("points_compared", 1)
				if c != 1 && !edge {
					t.Fatalf("%s: %d detail triangles of polygon %d are at %g,%g: %v of %v", desc, c, i, px, pz, tris, vs)
				}
			}
		}
		// Heights of the additional vertices.
		var hp *hpatch
		patch := func() *hpatch {
			if hp == nil {
				py := make([]int, len(l))
				for k, v := range l {
					py[k] = int(pm.Verts[v*3+1])
				}
				hp = newPatch(chf, at, p2, py, reg)
			}
			return hp
		}
		one := func(c cell, y float64) (float64, bool) {
			can, ok := patch().heights(c.x, c.z, y, ch, radius)
			if !ok || !same(can) {
				return 0, false
			}
			return can[0], true
		}
		midY := (minY + maxY) / 2
		ext := minExtent(poly)
		for k := len(l); k < nv; k++ {
			v := vs[k]
			inner := true
			for e := range poly {
				inner = inner && !on[k][e]
			}
			x, z := v[0], v[2]
			if inner {
				t.Count("inner_vertices", 1)
				if ext < 2*sd-eps {
					t.Fatalf("%s: polygon %d is only %g wide, but has the inner vertex %v", desc, i, ext, v)
				}
				// Vertices are moved a bit away from the sample position.
				x, z = math.Round(x/sd)*sd, math.Round(z/sd)*sd
				if math.Abs(x-v[0]) > .1*cs+eps || math.Abs(z-v[2]) > .1*cs+eps {
					t.Fatalf("%s: the inner vertex %d of polygon %d at %v is not at a sample position", desc, k, i, v)
				}
			} else {
				t.Count("edge_vertices", 1)
			}
			t.Nontrivial()
			c, sure := cellOf(x, z)
			if !sure {
				continue
			}
			y := midY
			if !inner {
				y = edgeY(poly, on[k], x, z)
			}
			can, ok := patch().heights(c.x, c.z, y, ch, radius)
			if !ok {
				t.Count("heights_unknown", 1)
				continue
			}
			ok = false
			for _, h := range can {
				ok = ok || math.Abs(h-v[1]) < eps
			}
			if !ok {
				t.Fatalf("%s: the detail vertex %d of polygon %d at %v (%v) isn't at one of the heights %v there (region %d)", desc, k, i, v, c, can, reg)
			}
			switch {
			case same(can) && ofRegion(reg, c):
				t.Count("heights_compared", 1)
			case same(can):
				t.Count("heights_next_to_the_region", 1)
			default:
				t.Count("heights_with_alternatives", 1)
			}
		}
		if sd == 0 {
			if nv != len(l) {
				t.Fatalf("%s: polygon %d has %d detail vertices without sampling", desc, i, nv)
			}
			continue
		}
		t.Max("detail_vertices", float64(nv))
		// Samples along the edges.
		if nv < 127-33 {
			for e := range poly {
				a, b := poly[e], poly[(e+1)%len(l)]
				swapped := a[0] > b[0]+1e-6 || math.Abs(a[0]-b[0]) <= 1e-6 && a[2] > b[2]
				if swapped {
					a, b = b, a
				}
				ln := a.dist2D(b)
				if f := ln / sd; math.Abs(f-math.Round(f)) < 1e-4 {
					continue // one sample more or less
				}
				nn := imin(31, 1+int(math.Floor(ln/sd)))
				full, own := true, true
				sm := make([]V3, nn+1)
				for k := range sm {
					sm[k] = a.lerp(b, float64(k)/float64(nn))
					c, sure := cellOf(sm[k][0], sm[k][2])
					var ok bool
					sm[k][1], ok = one(c, sm[k][1])
					full, own = full && ok && sure, own && ok && sure && ofRegion(reg, c)
				}
				var chain []int
				last := 0
				chain = append(chain, 0)
				var vv []V3
				for k := 1; k < nn; k++ {
					for q := len(l); q < nv; q++ {
						if vs[q].dist2D(sm[k]) < eps {
							chain = append(chain, k)
							vv = append(vv, vs[q])
							last = k
							break
						}
					}
				}
				_ = last
				chain = append(chain, nn)
				ka, kb := l[e], l[(e+1)%len(l)]
				if ka > kb {
					ka, kb = kb, ka
				}
				sides[ekey{ka, kb}] = append(sides[ekey{ka, kb}], eside{i, vv, own})
				if !full {
					continue
				}
				for s := 0; s+1 < len(chain); s++ {
					for k := chain[s] + 1; k < chain[s+1]; k++ {
						t.Count("edge_samples_compared", 1)
						if d := ptSeg3(sm[k], sm[chain[s]], sm[chain[s+1]]); d > se+eps {
							t.Fatalf("%s: at sample %d of edge %d of polygon %d, the detail mesh is %g from the surface", desc, k, e, i, d)
						}
					}
				}
			}
		}
		// Samples inside.
		if ext < 2*sd+eps || nv >= 127 {
			continue
		}
		// Samples at less than this from the outline aren't taken (the library
		// compares the squared distance with half the sampling distance).
		margin := math.Max(sd/2, math.Sqrt(sd/2))
		jit := .1 * cs * math.Sqrt2
		for z := int(math.Floor(float64(lo.z) * cs / sd)); z <= int(float64(hi.z)*cs/sd); z++ {
			for x := int(math.Floor(float64(lo.x) * cs / sd)); x <= int(float64(hi.x)*cs/sd); x++ {
				px, pz := float64(x)*sd, float64(z)*sd
				if distToPoly(poly, px, pz) > -margin-eps {
					continue
				}
				c, sure := cellOf(px, pz)
				h, ok := one(c, midY)
				if !ok || !sure {
					continue
				}
				best := math.Inf(1)
				for _, tr := range tris {
					a, b, c := vs[tr[0]], vs[tr[1]], vs[tr[2]]
					if triSide(a, b, c, px, pz) < -1e-3*cs {
						continue
					}
					ar := (b[0]-a[0])*(c[2]-a[2]) - (c[0]-a[0])*(b[2]-a[2])
					if math.Abs(ar) < 1e-9 {
						continue
					}
					u := ((px-a[0])*(c[2]-a[2]) - (c[0]-a[0])*(pz-a[2])) / ar
					v := ((b[0]-a[0])*(pz-a[2]) - (px-a[0])*(b[2]-a[2])) / ar
					best = math.Min(best, math.Abs(a[1]+u*(b[1]-a[1])+v*(c[1]-a[1])-h))
				}
				t.Count("samples_compared", 1)
				if best > se+maxGrad*jit+eps {
					t.Fatalf("%s: at the sample position %g,%g of polygon %d, the detail mesh is %g from the height %g of the surface", desc, px, pz, i, best, h)
				}
			}
		}
	}
	if vb != int(dm.NVerts) || tb != int(dm.NTris) {
		t.Fatalf("%s: there are %d vertices and %d triangles in all, the detail meshes have %d and %d", desc, dm.NVerts, dm.NTris, vb, tb)
	}
	// Edges shared by polygons of one region fit together.
	for _, s := range sides {
		if len(s) != 2 || !s[0].full || !s[1].full || pm.Regs[s[0].poly] != pm.Regs[s[1].poly] {
			continue
		}
		t.Count("edges_shared", 1)
		a, b := s[0].vs, s[1].vs
		ok := len(a) == len(b)
		for k := 0; ok && k < len(a); k++ {
			ok = a[k].dist(b[k]) < eps
		}
		if !ok {
			t.Fatalf("%s: the detail meshes of the polygons %d and %d have different vertices along the edge they share: %v and %v", desc, s[0].poly, s[1].poly, a, b)
		}
	}
}

// triSide is the distance of a point to the border of a triangle in the ground
// plane (of any winding), positive inside.
func triSide(a, b, c V3, px, pz float64) float64 {
	s := 1.0
	if (b[0]-a[0])*(c[2]-a[2])-(c[0]-a[0])*(b[2]-a[2]) < 0 {
		s = -1
	}
	d := math.Inf(1)
	for _, e := range [][2]V3{{a, b}, {b, c}, {c, a}} {
		p, q := e[0], e[1]
		if ln := p.dist2D(q); ln > 0 {
			d = math.Min(d, s*((q[0]-p[0])*(pz-p[2])-(px-p[0])*(q[2]-p[2]))/ln)
		}
	}
	return d
}

// distToPoly is the distance of a point to the border of a convex polygon wound
// clockwise, negative inside.
func distToPoly(l []V3, px, pz float64) float64 {
	d := math.Inf(-1)
	for i := range l {
		a, b := l[i], l[(i+1)%len(l)]
		d = math.Max(d, ((b[0]-a[0])*(pz-a[2])-(px-a[0])*(b[2]-a[2]))/a.dist2D(b))
	}
	return d
}

func ptSeg3(p, a, b V3) float64 {
	d := b.sub(a)
	s := 0.0
	if dd := d.dot(d); dd > 0 {
		s = math.Max(0, math.Min(1, p.sub(a).dot(d)/dd))
	}
	return p.dist(a.lerp(b, s))
}

// minExtent is the smallest extent of a polygon over one of its edges.
func minExtent(l []V3) float64 {
	m := math.Inf(1)
	for i := range l {
		a, b := l[i], l[(i+1)%len(l)]
		far := 0.0
		for _, p := range l {
			p[1], a[1], b[1] = 0, 0, 0
			far = math.Max(far, ptSeg3(p, a, b))
		}
		m = math.Min(m, far)
	}
	return m
}

func same(l []float64) bool {
	for _, h := range l {
		if h != l[0] {
			return false
		}
	}
	return len(l) > 0
}

// edgeY is the height of a polygon's edge at a position on it.
func edgeY(poly []V3, on []bool, x, z float64) float64 {
	best, y := math.Inf(1), 0.0
	for e := range poly {
		a, b := poly[e], poly[(e+1)%len(poly)]
		if !on[e] {
			continue
		}
		d := b.sub(a)
		s := ((x-a[0])*d[0] + (z-a[2])*d[2]) / (d[0]*d[0] + d[2]*d[2])
		s = math.Max(0, math.Min(1, s))
		q := a.lerp(b, s)
		if f := math.Hypot(q[0]-x, q[2]-z); f < best {
			best, y = f, q[1]
		}
	}
	return y
}
