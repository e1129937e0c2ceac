package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/arl/go-detour/recast"
)

// --- R01 ---------------------------------------------------------------

// mergeSolid is the model of a column: what is added is merged with all the
// solids it overlaps or touches, from the lowest to the highest; the area of two
// merged solids is the one of the taller, or the larger id if their tops are
// within the threshold.
func mergeSolid(c []mspan, s mspan, thr int) []mspan {
	var n []mspan
	for _, o := range c {
		if o.hi < s.lo || o.lo > s.hi {
			n = append(n, o)
			continue
		}
		d := s.hi - o.hi
		if d < 0 {
			d = -d
		}
		if d <= thr {
			if o.area > s.area {
				s.area = o.area
			}
		} else if o.hi > s.hi {
			s.area = o.area
		}
		if o.lo < s.lo {
			s.lo = o.lo
		}
		if o.hi > s.hi {
			s.hi = o.hi
		}
	}
	n = append(n, s)
	sort.Slice(n, func(i, j int) bool { return n[i].lo < n[j].lo })
	return n
}

func checkColumns(t *T, hf *recast.Heightfield, want [][]mspan, what string) {
	walk := 0
	for i, w := range want {
		g := columnOf(hf, i)
		if !sameColumn(g, w) {
			t.Fatalf("%s: column %d,%d holds %v, want %v", what, i%int(hf.Width), i/int(hf.Width), g, w)
		}
		for _, s := range w {
			if s.area != 0 {
				walk++
			}
		}
	}
	if n := hf.GetHeightFieldSpanCount(recast.NewBuildContext(false)); int(n) != walk {
		t.Fatalf("%s: %d walkable spans reported, there are %d", what, n, walk)
	}
}

func init() {
	register(&Prop{ID: "R01", Quick: 12000, Thorough: 400000,
		Rule:   "a case adds hundreds of random solids (triangles inside a column), mixing stacked, touching, nested and spanning ones, to some columns of a heightfield and compares all columns with the model after every addition (or every few); non-trivial if solids merged",
		MinEv:  []string{"solids_added", "merges", "merges_of_several", "touching_merges", "area_from_lower", "area_from_taller_old", "walkable_counts_compared"},
		Assume: []string{"Heights are whole cells (cell height 1), so that the range of a solid is exact."},
		Run: func(t *T) {
			r := t.R
			ctx := recast.NewBuildContext(false)
			w, h := 1+r.Intn(4), 1+r.Intn(4)
			top := []int{12, 40, 200, 65535}[r.Intn(4)]
			hf := recast.NewHeightfield(int32(w), int32(h), []float32{0, 0, 0}, []float32{float32(w), float32(top), float32(h)}, 1, 1)
			model := make([][]mspan, w*h)
			n := 1 + r.Intn(150)
			if r.Intn(200) == 0 {
				n = 2000 + r.Intn(5000) // more than a pool of spans
			}
			every := 1
			if n > 200 {
				every = 97
			}
			maxlen := []int{1, 3, 8, top}[r.Intn(4)]
			thr := r.Intn(4)
			areas := []uint8{0, 63, 1, 7, uint8(r.Intn(64))}
			maxspans := 0
			for i := 0; i < n; i++ {
				x, y := r.Intn(w), r.Intn(h)
				c := &model[x+y*w]
				lo := r.Intn(top)
				l := 1 + r.Intn(maxlen)
				if len(*c) > 0 && r.Intn(3) == 0 { // close to what is there
					o := (*c)[r.Intn(len(*c))]
					lo = []int{o.lo, o.hi, o.lo - l, o.hi - 1, o.hi + 1, o.lo - l - 1, o.hi - l}[r.Intn(7)]
				}
				if r.Intn(60) == 0 {
					lo, l = r.Intn(top), top
				}
				if lo < 0 {
					lo = 0
				}
				hi := lo + l
				if hi > top {
					hi = top
				}
				if lo >= hi {
					lo = hi - 1
				}
				if r.Intn(5) == 0 {
					thr = r.Intn(4)
				}
				s := mspan{lo, hi, areas[r.Intn(len(areas))]}
				k := 0
				for _, o := range *c {
					if o.hi >= s.lo && o.lo <= s.hi {
						k++
						if o.hi == s.lo || o.lo == s.hi {
							t.Count("touching_merges", 1)
						}
						if o.hi < s.hi && s.hi-o.hi <= thr && o.area > s.area {
							t.Count("area_from_lower", 1)
						}
						if o.hi > s.hi+thr && s.area > o.area {
							t.Count("area_from_taller_old", 1)
						}
					}
				}
				if k > 0 {
					t.Count("merges", 1)
					t.Nontrivial()
				}
				if k > 1 {
					t.Count("merges_of_several", 1)
				}
				before := *c
				*c = mergeSolid(*c, s, thr)
				if len(*c) > maxspans {
					maxspans = len(*c)
				}
				if !addSolid(ctx, hf, x, y, s, int32(thr)) {
					t.Fatalf("adding %v to column %d,%d failed", s, x, y)
				}
				t.Count("solids_added", 1)
				if i%every == 0 || i == n-1 {
					checkColumns(t, hf, model, fmt.Sprintf("after solid %d, %v added to %v of column %d,%d, threshold %d", i, s, before, x, y, thr))
					t.Count("walkable_counts_compared", 1)
				}
			}
			t.Max("spans_in_a_column", float64(maxspans))
			t.State("columns", fmt.Sprint(model))
			t.Mix(w, h, top, n, model)
			t.Desc("%d solids up to %d high into %dx%d columns of height %d, at most %d in a column", n, maxlen, w, h, top, maxspans)
		}})

	// --- R02 -----------------------------------------------------------
	register(&Prop{ID: "R02", Quick: 40000, Thorough: 1200000,
		Rule:   "a case rasterizes a few triangles (large, small, thin, steep, vertical, degenerate, crossing the bounds or out of them) into a grid of random position and scale, one by one, and compares each column with the triangle clipped in double precision, then all of them through the three entry points; non-trivial if a column was marked",
		MinEv:  []string{"triangles", "columns_marked", "columns_required", "triangles_across_the_bounds", "triangles_out_of_bounds", "vertical_triangles", "entry_points_compared", "spans_clamped", "on_lines_of_the_grid", "long_grids", "high_grids"},
		Assume: []string{"Rounding: a column may miss what reaches into it by less than 1/1000 of a cell plus 4 ulps of the coordinates (more on long grids, as errors add up), and include what comes that close."},
		Run: func(t *T) {
			r := t.R
			ctx := recast.NewBuildContext(false)
			w, h := 1+r.Intn(12), 1+r.Intn(12)
			if r.Intn(80) == 0 { // a long strip
				if w, h = 250+r.Intn(800), 1+r.Intn(4); r.Intn(2) == 0 {
					w, h = h, w
				}
				t.Count("long_grids", 1)
			}
			cs := .1 + r.Float32()
			ch := .05 + r.Float32()*.5
			var bmin [3]float32
			if r.Intn(3) > 0 {
				sc := []float32{1, 10, 100}[r.Intn(3)]
				for i := range bmin {
					bmin[i] = (r.Float32() - .5) * sc
				}
			}
			if r.Intn(4) == 0 {
				cs, ch = .5, .25
				for i := range bmin {
					bmin[i] = float32(math.Floor(float64(bmin[i])))
				}
			}
			hh := 5 + r.Float32()*20
			if r.Intn(20) == 0 { // tens of thousands of height cells
				hh = ch * float32(8000+r.Intn(57000))
				t.Count("high_grids", 1)
			}
			bmax := [3]float32{bmin[0] + float32(w)*cs, bmin[1] + hh, bmin[2] + float32(h)*cs}
			pt := func(grid bool) []float32 {
				var p [3]float32
				ext := float32(.4)
				if r.Intn(3) == 0 {
					ext = 2
				}
				for k := 0; k < 3; k++ {
					l := bmax[k] - bmin[k]
					p[k] = bmin[k] + (r.Float32()*(1+2*ext)-ext)*l
					if grid && k != 1 { // on a line of the grid
						p[k] = bmin[k] + float32(r.Intn([]int{w, 0, h}[k]+3)-1)*cs
					}
				}
				return p[:]
			}
			var verts []float32
			var areas []uint8
			nt := 1 + r.Intn(5)
			for i := 0; i < nt; i++ {
				grid := r.Intn(5) == 0 || cs == .5 && r.Intn(2) == 0
				a, b, c := pt(grid), pt(grid), pt(grid)
				switch r.Intn(9) {
				case 0: // small
					for k := range b {
						b[k] = a[k] + (r.Float32()-.5)*cs
						c[k] = a[k] + (r.Float32()-.5)*cs
					}
				case 1: // vertical
					copy(b, a)
					b[1] = a[1] + r.Float32()*10
				case 2: // flat
					b[1], c[1] = a[1], a[1]
				case 3: // thin
					for k := range c {
						c[k] = a[k] + (b[k]-a[k])*.5
					}
					c[0] += r.Float32() * .1 * cs
				case 4: // along an axis
					k := r.Intn(2) * 2
					b[k] = a[k]
					if r.Intn(2) == 0 {
						c[k] = a[k]
					}
				case 5:
					if r.Intn(4) == 0 { // degenerate
						copy(b, a)
						if r.Intn(2) == 0 {
							copy(c, a)
						}
					}
				}
				verts = append(append(append(verts, a...), b...), c...)
				areas = append(areas, uint8(1+r.Intn(63)))
			}
			grid := func() *recast.Heightfield {
				return recast.NewHeightfield(int32(w), int32(h), bmin[:], bmax[:], cs, ch)
			}
			for i := 0; i < nt; i++ {
				hf := grid()
				v := verts[i*9:]
				recast.RasterizeTriangle(ctx, v[:3], v[3:6], v[6:9], areas[i], hf, 1)
				checkTriangle(t, hf, v[:9], areas[i])
				checkAligned(t, hf, v[:9])
				t.Count("triangles", 1)
			}
			// The entry points.
			thr := int32(r.Intn(3))
			h1, h2, h3 := grid(), grid(), grid()
			// shared and permuted vertices
			perm := r.Perm(nt * 3)
			iv := make([]float32, nt*9)
			tris := make([]int32, nt*3)
			for i, p := range perm {
				copy(iv[p*3:p*3+3], verts[i*3:i*3+3])
				tris[i] = int32(p)
			}
			for i := 0; i < nt; i++ {
				v := verts[i*9:]
				recast.RasterizeTriangle(ctx, v[:3], v[3:6], v[6:9], areas[i], h1, thr)
			}
			recast.RasterizeTriangles(ctx, iv, int32(nt*3), tris, areas, int32(nt), h2, thr)
			recast.RasterizeTriangles2(ctx, verts, areas, int32(nt), h3, thr)
			c1, c2, c3 := columnsOf(h1), columnsOf(h2), columnsOf(h3)
			marked := 0
			for i := range c1 {
				if !sameColumn(c1[i], c2[i]) || !sameColumn(c1[i], c3[i]) {
					t.Fatalf("column %d of %dx%d: one by one %v, indexed %v, expanded %v", i, w, h, c1[i], c2[i], c3[i])
				}
				marked += len(c1[i])
			}
			t.Count("entry_points_compared", 1)
			if marked > 0 {
				t.Nontrivial()
			}
			t.Mix(verts, w, h, cs, bmin)
			t.Desc("%d triangles into %dx%d columns of %g at %v: %d spans", nt, w, h, cs, bmin, marked)
		}})

	// --- R03 -----------------------------------------------------------
	register(&Prop{ID: "R03", Quick: 60000, Thorough: 2000000,
		Rule:   "a case marks, then clears, a mesh of random triangles (shared vertices, both windings, slopes near and far from the limit) and compares each mark with the angle computed in double precision; non-trivial if some are walkable and some aren't",
		MinEv:  []string{"walkable", "not_walkable", "downward", "cleared", "kept", "near_the_limit"},
		Assume: []string{"Slopes within 0.01 degree of the limit, and triangles with less area than 1/10000 of the square of their longest side, aren't judged."},
		Run: func(t *T) {
			r := t.R
			ctx := recast.NewBuildContext(false)
			nv, nt := 3+r.Intn(20), 1+r.Intn(20)
			sc := []float32{.1, 1, 100}[r.Intn(3)]
			var verts []float32
			for i := 0; i < nv; i++ {
				verts = append(verts, (r.Float32()-.5)*sc, (r.Float32()-.5)*sc*.7, (r.Float32()-.5)*sc)
			}
			var tris []int32
			slope := r.Float32() * 90
			if r.Intn(5) == 0 {
				slope = []float32{0, 45, 60, 89.9, 30}[r.Intn(5)]
			}
			for i := 0; i < nt; i++ {
				if r.Intn(4) == 0 { // a triangle of a slope near the limit
					d := float64(slope) + (r.Float64()-.5)*[]float64{.2, 2}[r.Intn(2)]
					dir := r.Float64() * 7
					g := math.Tan(d / 180 * math.Pi)
					a := len(verts) / 3
					for k := 0; k < 3; k++ {
						x, z := (r.Float64()-.5)*float64(sc), (r.Float64()-.5)*float64(sc)
						verts = append(verts, float32(x), float32((x*math.Cos(dir)+z*math.Sin(dir))*g), float32(z))
					}
					tri := []int32{int32(a), int32(a + 1), int32(a + 2)}
					if r.Intn(2) == 0 {
						tri[1], tri[2] = tri[2], tri[1]
					}
					tris = append(tris, tri...)
					continue
				}
				p := r.Perm(nv)
				tris = append(tris, int32(p[0]), int32(p[1]), int32(p[2]))
			}
			areas := make([]uint8, nt+2)
			for i := range areas {
				areas[i] = uint8(r.Intn(3)) * 7
			}
			before := append([]uint8{}, areas...)
			vb := fmt.Sprint(verts, tris)
			recast.MarkWalkableTriangles(ctx, slope, verts, int32(len(verts)/3), tris, int32(nt), areas)
			marked := append([]uint8{}, areas...)
			for i := range areas {
				areas[i] = uint8(1 + r.Intn(63))
			}
			b2 := append([]uint8{}, areas...)
			recast.ClearUnwalkableTriangles(ctx, slope, verts, int32(len(verts)/3), tris, int32(nt), areas)
			if fmt.Sprint(verts, tris) != vb {
				t.Fatalf("the triangles were changed")
			}
			yes, no := 0, 0
			for i := range areas {
				wm, wc := before[i], b2[i]
				if i < nt {
					a, b, c := v3(verts[tris[i*3]*3:]), v3(verts[tris[i*3+1]*3:]), v3(verts[tris[i*3+2]*3:])
					ab, ac, bc := b.sub(a), c.sub(a), c.sub(b)
					n := V3{ab[1]*ac[2] - ab[2]*ac[1], ab[2]*ac[0] - ab[0]*ac[2], ab[0]*ac[1] - ab[1]*ac[0]}
					l := math.Sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2])
					long := math.Max(ab.dot(ab), math.Max(ac.dot(ac), bc.dot(bc)))
					if l < 1e-4*long {
						continue
					}
					ang := math.Acos(n[1]/l) / math.Pi * 180
					if math.Abs(ang-float64(slope)) < .01 || float64(slope) < .1 && ang < .15 {
						continue
					}
					if math.Abs(ang-float64(slope)) < .5 {
						t.Count("near_the_limit", 1)
					}
					if ang > 90 {
						t.Count("downward", 1)
					}
					if ang < float64(slope) {
						wm = recast.WalkableArea
						yes++
						t.Count("kept", 1)
					} else {
						wc = 0
						no++
						t.Count("cleared", 1)
					}
					if marked[i] != wm {
						t.Fatalf("triangle %d of slope %g (limit %g) was marked %d, want %d (%d before)", i, ang, slope, marked[i], wm, before[i])
					}
					if areas[i] != wc {
						t.Fatalf("triangle %d of slope %g (limit %g) with area %d has %d after clearing, want %d", i, ang, slope, b2[i], areas[i], wc)
					}
				} else if marked[i] != wm || areas[i] != wc {
					t.Fatalf("area %d past the %d triangles was changed", i, nt)
				}
			}
			t.Count("walkable", yes)
			t.Count("not_walkable", no)
			if yes > 0 && no > 0 {
				t.Nontrivial()
			}
			t.Mix(verts, tris, slope)
			t.Desc("%d triangles, limit %g degrees: %d walkable, %d not", nt, slope, yes, no)
		}})
}

// clipAxis clips a convex polygon to the side of a plane where
// sign*(coordinate-at) >= 0.
func clipAxis(p []V3, axis int, at, sign float64) (out []V3) {
	for i := range p {
		a, b := p[i], p[(i+1)%len(p)]
		da, db := sign*(a[axis]-at), sign*(b[axis]-at)
		if da >= 0 {
			out = append(out, a)
		}
		if da > 0 && db < 0 || da < 0 && db > 0 {
			s := da / (da - db)
			q := V3{a[0] + (b[0]-a[0])*s, a[1] + (b[1]-a[1])*s, a[2] + (b[2]-a[2])*s}
			q[axis] = at
			out = append(out, q)
		}
	}
	return
}

// checkTriangle compares a heightfield into which one triangle was rasterized
// with the triangle.
func checkTriangle(t *T, hf *recast.Heightfield, v []float32, area uint8) {
	tri := []V3{v3(v), v3(v[3:]), v3(v[6:])}
	w, h := int(hf.Width), int(hf.Height)
	cs, ch := float64(hf.Cs), float64(hf.Ch)
	bmin := v3(hf.BMin[:])
	by := float64(hf.BMax[1] - hf.BMin[1])
	lo, hi := tri[0], tri[0]
	mag := 0.0
	for _, p := range tri {
		for k := range p {
			lo[k], hi[k] = math.Min(lo[k], p[k]), math.Max(hi[k], p[k])
			mag = math.Max(mag, math.Abs(p[k]))
		}
	}
	for k := range bmin {
		mag = math.Max(mag, math.Abs(bmin[k])+cs*float64(w+h))
	}
	// Rows and columns are cut off one after the other: errors add up.
	f := math.Max(1, float64(w+h)/24)
	eps := cs*1e-3 + mag*1e-6*f
	epsy := ch*1e-2 + mag*4e-6*f
	out := false
	cross := false
	for k := 0; k < 3; k++ {
		if hi[k] < float64(hf.BMin[k]) || lo[k] > float64(hf.BMax[k]) {
			out = true
		} else if lo[k] < float64(hf.BMin[k]) || hi[k] > float64(hf.BMax[k]) {
			cross = true
		}
	}
	if out {
		t.Count("triangles_out_of_bounds", 1)
	} else if cross {
		t.Count("triangles_across_the_bounds", 1)
	}
	if ab, ac := tri[1].sub(tri[0]), tri[2].sub(tri[0]); math.Abs(ab[0]*ac[2]-ab[2]*ac[0]) < 1e-9 {
		t.Count("vertical_triangles", 1)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := columnOf(hf, x+y*w)
			x0, x1 := bmin[0]+cs*float64(x), bmin[0]+cs*float64(x+1)
			z0, z1 := bmin[2]+cs*float64(y), bmin[2]+cs*float64(y+1)
			rng := func(e float64) (a, b float64, ok bool) {
				p := clipAxis(clipAxis(clipAxis(clipAxis(tri, 0, x0-e, 1), 0, x1+e, -1), 2, z0-e, 1), 2, z1+e, -1)
				if len(p) == 0 {
					return 0, 0, false
				}
				a, b = math.Inf(1), math.Inf(-1)
				for _, q := range p {
					a, b = math.Min(a, q[1]-bmin[1]), math.Max(b, q[1]-bmin[1])
				}
				return a, b, true
			}
			// The widest and the narrowest range that rounding allows.
			wa, wb, wok := rng(eps)
			na, nb, nok := rng(-eps)
			if len(c) > 1 {
				t.Fatalf("one triangle %v marked column %d,%d with %v", v, x, y, c)
			}
			if len(c) == 1 {
				s := c[0]
				t.Count("columns_marked", 1)
				if out {
					t.Fatalf("triangle %v, out of bounds %v %v, marked column %d,%d with %v", v, hf.BMin, hf.BMax, x, y, s)
				}
				if !wok {
					t.Fatalf("triangle %v doesn't touch column %d,%d (of %dx%d, from %v, size %g), which was marked with %v", v, x, y, w, h, hf.BMin, cs, s)
				}
				if wb < -epsy || wa > by+epsy {
					t.Fatalf("triangle %v is at heights %g to %g in column %d,%d, out of the bounds 0 to %g: marked with %v", v, wa, wb, x, y, by, s)
				}
				ca, cb := math.Max(wa, 0), math.Min(wb, by)
				if ca != wa || cb != wb {
					t.Count("spans_clamped", 1)
				}
				if s.area != area {
					t.Fatalf("triangle of area %d marked column %d,%d with area %d", area, x, y, s.area)
				}
				a, b := float64(s.lo)*ch, float64(s.hi)*ch
				if a < ca-ch-epsy || b > cb+ch+epsy && s.hi != s.lo+1 || b > cb+2*ch+epsy {
					t.Fatalf("triangle %v is at heights %g to %g in column %d,%d, which was marked from %g to %g (cells of %g)", v, wa, wb, x, y, a, b, ch)
				}
				if s.hi <= s.lo {
					t.Fatalf("triangle %v marked column %d,%d with an empty span %v", v, x, y, s)
				}
			}
			// Required: a part with an area in the ground plane or a height.
			if nok && !out && nb >= epsy && na <= by-epsy {
				t.Count("columns_required", 1)
				ca, cb := math.Max(na, 0), math.Min(nb, by)
				if len(c) == 0 {
					if degenerate(tri) {
						continue
					}
					t.Fatalf("triangle %v is at heights %g to %g in column %d,%d (of %dx%d, from %v, size %g), which wasn't marked", v, na, nb, x, y, w, h, hf.BMin, cs)
				}
				s := c[0]
				a, b := float64(s.lo)*ch, float64(s.hi)*ch
				if a > ca+epsy || b < cb-epsy {
					t.Fatalf("triangle %v is at heights %g to %g in column %d,%d, which was marked from %g to %g only", v, na, nb, x, y, a, b)
				}
			}
		}
	}
}

// checkAligned requires a triangle that stands on a line of the grid to be in
// the columns on one of its sides, on grids whose lines are at exact positions.
func checkAligned(t *T, hf *recast.Heightfield, v []float32) {
	tri := []V3{v3(v), v3(v[3:]), v3(v[6:])}
	cs, ch := float64(hf.Cs), float64(hf.Ch)
	bmin := v3(hf.BMin[:])
	by := float64(hf.BMax[1] - hf.BMin[1])
	mag := 0.0
	for _, p := range tri {
		for k := range p {
			mag = math.Max(mag, math.Max(math.Abs(p[k]), math.Abs(bmin[k])))
		}
	}
	eps, epsy := cs*1e-3+mag*1e-6, ch*1e-2+mag*4e-6
	if degenerate(tri) || hf.Cs != .5 || bmin[0] != math.Floor(bmin[0]) || bmin[2] != math.Floor(bmin[2]) {
		return // positions of lines are rounded
	}
	for axis := 0; axis < 3; axis += 2 {
		n, along := int(hf.Width), int(hf.Height)
		if axis == 2 {
			n, along = along, n
		}
		if tri[0][axis] != tri[1][axis] || tri[1][axis] != tri[2][axis] {
			continue
		}
		line := (tri[0][axis] - bmin[axis]) / cs
		k := int(math.Round(line))
		if math.Abs(line-float64(k))*cs > eps || k < 0 || k > n || k == 0 && line < 0 || k == n && line > float64(n) {
			continue
		}
		for j := 0; j < along; j++ {
			at := bmin[2-axis] + cs*float64(j)
			p := clipAxis(clipAxis(tri, 2-axis, at+eps, 1), 2-axis, at+cs-eps, -1)
			a, b := math.Inf(1), math.Inf(-1)
			for _, q := range p {
				a, b = math.Min(a, q[1]-bmin[1]), math.Max(b, q[1]-bmin[1])
			}
			if len(p) < 3 || b < epsy || a > by-epsy || b-a < 2*epsy {
				continue
			}
			a, b = math.Max(a, 0), math.Min(b, by)
			found := false
			var cols [][]mspan
			for _, i := range []int{k - 1, k} {
				if i < 0 || i >= n {
					continue
				}
				x, y := i, j
				if axis == 2 {
					x, y = j, i
				}
				c := columnOf(hf, x+y*int(hf.Width))
				cols = append(cols, c)
				found = found || len(c) > 0 && float64(c[0].lo)*ch <= a+epsy && float64(c[0].hi)*ch >= b-epsy
			}
			if !found {
				t.Fatalf("triangle %v stands on line %d of axis %d of the grid (of %dx%d, from %v, size %g), at heights %g to %g in row %d, but the columns hold %v", v, k, axis, hf.Width, hf.Height, hf.BMin, cs, a, b, j, cols)
			}
			t.Count("on_lines_of_the_grid", 1)
		}
	}
}

// degenerate tells if a triangle has no extent (two vertices at the same place).
func degenerate(tri []V3) bool {
	return tri[0] == tri[1] || tri[1] == tri[2] || tri[2] == tri[0]
}
