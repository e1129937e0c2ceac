package main

import (
	"math"
	"sort"

	"github.com/arl/go-detour/detour"
)

func init() {
	register(&Prop{ID: "D21", Quick: 80000, Thorough: 2000000, Run: runD21,
		Rule:  "a case is a mesh of neighbouring tiles, with layers, whose polygons have edges on (or near to) the borders at random extents and heights, loaded in a random order with some removed and added again; the links of each polygon to other tiles are compared with those the geometry of the edges calls for; non-trivial if edges were linked; distinct by links",
		MinEv: []string{"links", "pairs_linked", "pairs_too_high", "pairs_apart_along", "pairs_apart_across", "crossing_edges", "partial_extents", "corner_touch", "layer_links", "many_neighbours", "unsure", "diagonal_pairs", "towers"},
		Assume: []string{"edges within 1e-3 of a limit (1/100 across, 2/100 of overlap, twice the step height) may or may not be linked",
			"tiles whose pool of links is used up aren't judged"}})
}

// bEdge is an edge marked as being on a border of its tile.
type bEdge struct {
	g    *GTile
	poly int
	edge int
	dir  int // 0: x+, 2: z+, 4: x-, 6: z-
	a, b V3
}

func borderWorld(t *T) *GWorld {
	r := t.R
	w := &GWorld{}
	o := &w.O
	o.Cs, o.Ch = []float64{0.25, 0.3, 0.5}[r.Intn(3)], 0.2
	o.Orig = V3{float64(r.Intn(40) - 20), float64(r.Intn(6) - 3), float64(r.Intn(40) - 20)}
	size := 16 + r.Intn(30)
	w.TW = float64(size) * o.Cs
	o.Climb = float64(1+r.Intn(5)) * 0.2
	if r.Intn(3) == 0 {
		o.Climb = 0.1 + r.Float64()
	}
	o.TX, o.TY = 1+r.Intn(3), 1+r.Intn(2)
	if r.Intn(3) == 0 {
		o.BX, o.BY = r.Intn(9)-6, r.Intn(9)-6
	}
	H := 4 + r.Intn(30)
	many := r.Intn(6) == 0
	maxP := 0
	for y := 0; y < o.TY; y++ {
		for x := 0; x < o.TX; x++ {
			nl := 1 + r.Intn(2)
			if r.Intn(20) == 0 {
				nl = 1 + r.Intn(12)
			}
			if r.Intn(400) == 0 {
				nl = 30 + r.Intn(20)
				t.Count("towers", 1)
			}
			for l := 0; l < nl; l++ {
				t := &GTile{X: int32(x + o.BX), Y: int32(y + o.BY), Layer: int32(l)}
				p := &t.P
				p.Cs, p.Ch, p.Nvp = float32(o.Cs), float32(o.Ch), 4
				p.TileX, p.TileY, p.TileLayer = t.X, t.Y, t.Layer
				p.WalkableClimb, p.WalkableHeight, p.WalkableRadius = float32(o.Climb), 2, 0.6
				b := o.Orig.add(V3{float64(x) * w.TW, 0, float64(y) * w.TW})
				if r.Intn(3) == 0 { // not quite on the grid
					s := []float64{0.004, 0.008, 0.012, 0.015, 0.025, 0.05}[r.Intn(6)]
					b[2*r.Intn(2)] += s * float64(2*r.Intn(2)-1)
				}
				for a := 0; a < 3; a++ {
					p.BMin[a] = float32(b[a])
				}
				p.BMax = [3]float32{p.BMin[0] + float32(w.TW), p.BMin[1] + float32(H+2)*p.Ch, p.BMin[2] + float32(w.TW)}
				np := 2 + r.Intn(10)
				for k := 0; k < np; k++ {
					gp := GPoly{Flags: 1, Area: uint8(r.Intn(3))}
					lo, hi := r.Intn(size), 0
					hi = lo + 1 + r.Intn(size-lo)
					if many && r.Intn(3) != 0 {
						hi = min(size, lo+1+r.Intn(3))
					}
					if r.Intn(4) == 0 {
						lo, hi = lo/4*4, min(size, (hi+3)/4*4)
					}
					dep := 1 + r.Intn(5)
					off := 0
					if r.Intn(8) == 0 {
						off = 1
					}
					side := r.Intn(4)
					var x0, x1, z0, z1 int
					switch side {
					case 0:
						x0, x1, z0, z1 = off, off+dep, lo, hi
					case 1:
						x0, x1, z0, z1 = lo, hi, size-dep-off, size-off
					case 2:
						x0, x1, z0, z1 = size-dep-off, size-off, lo, hi
					case 3:
						x0, x1, z0, z1 = lo, hi, off, off+dep
					}
					if r.Intn(12) == 0 {
						x0, x1, z0, z1 = 0, size, 0, size // all of the tile
					}
					c := [4][2]int{{x0, z0}, {x0, z1}, {x1, z1}, {x1, z0}}
					idx := []int{0, 1, 2, 3}
					if r.Intn(4) == 0 {
						d := (side + 2 + r.Intn(2)) % 4
						idx = append(append([]int{}, idx[:d]...), idx[d+1:]...)
					}
					rot := r.Intn(len(idx))
					idx = append(append([]int{}, idx[rot:]...), idx[:rot]...)
					y := r.Intn(H)
					for i, ci := range idx {
						vy := y
						switch r.Intn(3) {
						case 0:
							vy = r.Intn(H)
						case 1:
							vy = min(H, y+r.Intn(4))
						}
						v := len(t.Verts)
						p.Verts = append(p.Verts, uint16(c[ci][0]), uint16(vy), uint16(c[ci][1]))
						t.Verts = append(t.Verts, V3{float64(p.BMin[0] + float32(c[ci][0])*p.Cs), float64(p.BMin[1] + float32(vy)*p.Ch), float64(p.BMin[2] + float32(c[ci][1])*p.Cs)})
						gp.VI = append(gp.VI, v)
						gp.V = append(gp.V, t.Verts[v])
						nx := idx[(i+1)%len(idx)]
						nei := -1
						if nx == (ci+1)%4 {
							// on (or near) that border, usually marked
							near := false
							switch ci {
							case 0:
								near = x0 <= 1
							case 1:
								near = z1 >= size-1
							case 2:
								near = x1 >= size-1
							case 3:
								near = z0 <= 1
							}
							if near && r.Intn(8) != 0 {
								nei = -2 - ci
							} else if r.Intn(30) == 0 {
								nei = -2 - ci
							}
						}
						gp.Nei = append(gp.Nei, nei)
					}
					for k := 2; k < len(gp.V); k++ {
						gp.DT = append(gp.DT, [3]int{0, k - 1, k})
					}
					t.Polys = append(t.Polys, gp)
				}
				maxP = max(maxP, np)
				p.BuildBvTree = r.Intn(2) == 0
				w.Tiles = append(w.Tiles, t)
			}
		}
	}
	for i := 0; i < 3; i++ {
		w.Params.Orig[i] = float32(o.Orig[i])
	}
	w.Params.Orig[0] = float32(o.Orig[0] - float64(o.BX)*w.TW)
	w.Params.Orig[2] = float32(o.Orig[2] - float64(o.BY)*w.TW)
	w.Params.TileWidth, w.Params.TileHeight = float32(w.TW), float32(w.TW)
	w.Params.MaxTiles, w.Params.MaxPolys = uint32(len(w.Tiles)), uint32(maxP)
	for _, t := range w.Tiles {
		t.fill(w, r)
	}
	return w
}

// touch tells if two edges on opposite borders are to be linked (1), not (-1),
// or are too close to a limit (0), and the common extent, as parameters of a.
func touch(t *T, a, b *bEdge, climb float64) (int, float64, float64) {
	ax, cx := 2, 0 // along, across
	if a.dir == 2 || a.dir == 6 {
		ax, cx = 0, 2
	}
	gap := math.Abs(a.a[cx] - b.a[cx])
	lo := math.Max(math.Min(a.a[ax], a.b[ax]), math.Min(b.a[ax], b.b[ax]))
	hi := math.Min(math.Max(a.a[ax], a.b[ax]), math.Max(b.a[ax], b.b[ax]))
	unsure := false
	switch {
	case gap > 0.011:
		t.Count("pairs_apart_across", 1)
		return -1, 0, 0
	case gap > 0.009:
		unsure = true
	}
	switch {
	case hi-lo < 0.019:
		t.Count("pairs_apart_along", 1)
		if math.Abs(hi-lo) < 1e-3 {
			t.Count("corner_touch", 1)
		}
		return -1, 0, 0
	case hi-lo < 0.021:
		unsure = true
	}
	at := func(e *bEdge, x float64) float64 {
		return e.a.lerp(e.b, (x-e.a[ax])/(e.b[ax]-e.a[ax]))[1]
	}
	d0 := at(b, lo+0.01) - at(a, lo+0.01)
	d1 := at(b, hi-0.01) - at(a, hi-0.01)
	m := math.Min(math.Abs(d0), math.Abs(d1))
	res := -1
	switch {
	case d0*d1 < 0 && m > 1e-3:
		res = 1
		if m > 2*climb {
			t.Count("crossing_edges", 1)
		}
	case m <= 2*climb-1e-3:
		res = 1
	case m < 2*climb+1e-3:
		unsure = true
	}
	if unsure {
		t.Count("unsure", 1)
		res = 0
	} else if res < 0 {
		t.Count("pairs_too_high", 1)
	}
	t0, t1 := (lo-a.a[ax])/(a.b[ax]-a.a[ax]), (hi-a.a[ax])/(a.b[ax]-a.a[ax])
	if t0 > t1 {
		t0, t1 = t1, t0
	}
	return res, math.Max(0, t0), math.Min(1, t1)
}

func runD21(t *T) {
	r := t.R
	w := borderWorld(t)
	m := w.initMesh()
	refs := map[*GTile]detour.TileRef{}
	add := func(g *GTile) {
		g.create()
		st, ref := m.AddTile(cloneBytes(g.Data), 0)
		if detour.StatusFailed(st) {
			t.Fatalf("AddTile: 0x%x", uint32(st))
		}
		refs[g] = ref
	}
	for _, i := range r.Perm(len(w.Tiles)) {
		add(w.Tiles[i])
	}
	full := map[*GTile]bool{}
	isFull := func() {
		for _, g := range w.Tiles {
			if tl := m.TileByRef(refs[g]); tl.Header != nil && tl.LinksFreeList == 0xffffffff {
				full[g] = true
			}
		}
	}
	isFull()
	for k := r.Intn(4); k > 0; k-- {
		g := w.Tiles[r.Intn(len(w.Tiles))]
		if _, st := m.RemoveTile(refs[g]); detour.StatusFailed(st) {
			t.Fatalf("RemoveTile: 0x%x", uint32(st))
		}
		add(g)
		isFull()
	}
	dirs := map[int]int{-2: 4, -3: 2, -4: 0, -5: 6}
	step := map[int][2]int32{0: {1, 0}, 2: {0, 1}, 4: {-1, 0}, 6: {0, -1}}
	var edges []bEdge
	for _, g := range w.Tiles {
		for i := range g.Polys {
			gp := &g.Polys[i]
			for e, n := range gp.Nei {
				if n <= -2 {
					edges = append(edges, bEdge{g, i, e, dirs[n], gp.V[e], gp.V[(e+1)%len(gp.V)]})
				}
			}
		}
	}
	type key struct {
		g    *GTile
		poly int
	}
	type want struct {
		sure   bool
		t0, t1 float64
		hit    bool
		edge   int // of the target
	}
	for ei := range edges {
		e := &edges[ei]
		wants := map[key]*want{}
		for oi := range edges {
			o := &edges[oi]
			if o.g == e.g || o.dir != (e.dir+4)%8 {
				continue
			}
			dx, dy := o.g.X-e.g.X, o.g.Y-e.g.Y
			s := step[e.dir]
			same := dx == 0 && dy == 0
			if !same && (dx != s[0] || dy != s[1]) {
				if dx != 0 && dy != 0 {
					t.Count("diagonal_pairs", 1)
				}
				continue
			}
			res, t0, t1 := touch(t, e, o, w.O.Climb)
			if res < 0 {
				continue
			}
			if res > 0 {
				t.Count("pairs_linked", 1)
				if same {
					t.Count("layer_links", 1)
				}
			}
			k := key{o.g, o.poly}
			if x := wants[k]; x != nil {
				// linked once to a polygon
				x.t0, x.t1, x.sure = math.Min(x.t0, t0), math.Max(x.t1, t1), x.sure || res > 0
				x.edge = -1
				continue
			}
			wants[k] = &want{sure: res > 0, t0: t0, t1: t1, edge: o.edge}
		}
		tile := m.TileByRef(refs[e.g])
		perTile := map[*GTile]int{}
		var rec []int
		for _, l := range linksOf(tile, &tile.Polys[e.poly]) {
			if int(l.edge) != e.edge {
				continue
			}
			t.Count("links", 1)
			t.Nontrivial()
			var s, it, ip uint32
			m.DecodePolyID(l.ref, &s, &it, &ip)
			var g *GTile
			for x, ref := range refs {
				if m.TileByRef(ref) == &m.Tiles[it] {
					g = x
				}
			}
			if !m.IsValidPolyRef(l.ref) || g == nil {
				t.Fatalf("link to polygon 0x%x, which isn't in the mesh", uint32(l.ref))
			}
			x := wants[key{g, int(ip)}]
			if x == nil {
				t.Fatalf("edge %d (%v %v, direction %d) of polygon %d of tile (%d,%d,%d) is linked to polygon %d of tile (%d,%d,%d), which doesn't touch it; step height %f", e.edge, e.a, e.b, e.dir, e.poly, e.g.X, e.g.Y, e.g.Layer, ip, g.X, g.Y, g.Layer, w.O.Climb)
			}
			if x.hit {
				t.Fatalf("edge %d of polygon %d of tile (%d,%d,%d) is linked twice to polygon %d of tile (%d,%d,%d)", e.edge, e.poly, e.g.X, e.g.Y, e.g.Layer, ip, g.X, g.Y, g.Layer)
			}
			x.hit = true
			perTile[g]++
			if int(l.side) != e.dir {
				t.Fatalf("link on side %d for an edge in direction %d", l.side, e.dir)
			}
			if x.edge >= 0 {
				if math.Abs(float64(l.bmin)/255-x.t0) > 1.0/255+1e-3 || math.Abs(float64(l.bmax)/255-x.t1) > 1.0/255+1e-3 {
					t.Fatalf("edge %d (%v %v) of polygon %d of tile (%d,%d,%d) is linked to polygon %d of tile (%d,%d,%d) from %f to %f instead of %f to %f", e.edge, e.a, e.b, e.poly, e.g.X, e.g.Y, e.g.Layer, ip, g.X, g.Y, g.Layer, float64(l.bmin)/255, float64(l.bmax)/255, x.t0, x.t1)
				}
				if x.t0 > 1e-3 || x.t1 < 1-1e-3 {
					t.Count("partial_extents", 1)
				}
			}
			rec = append(rec, int(l.ref), int(l.bmin), int(l.bmax))
		}
		for g, n := range perTile {
			if n > 4 {
				t.Fatalf("%d links from an edge to tile (%d,%d,%d)", n, g.X, g.Y, g.Layer)
			}
		}
		sort.Ints(rec)
		t.Mix(rec)
		missing := map[*GTile]int{}
		for k, x := range wants {
			if x.sure && !x.hit {
				missing[k.g]++
			}
		}
		for k, x := range wants {
			if !x.sure || x.hit {
				continue
			}
			if perTile[k.g] >= 4 {
				t.Count("many_neighbours", 1)
				continue
			}
			if full[e.g] {
				t.Count("pools_full", 1)
				continue
			}
			t.Fatalf("edge %d (%v %v, direction %d) of polygon %d of tile (%d,%d,%d) isn't linked to polygon %d of tile (%d,%d,%d), which it touches from %f to %f; step height %f, %d links to the tile", e.edge, e.a, e.b, e.dir, e.poly, e.g.X, e.g.Y, e.g.Layer, k.poly, k.g.X, k.g.Y, k.g.Layer, x.t0, x.t1, w.O.Climb, perTile[k.g])
		}
	}
	// nothing else is linked
	for _, g := range w.Tiles {
		tile := m.TileByRef(refs[g])
		for i := range g.Polys {
			for _, l := range linksOf(tile, &tile.Polys[i]) {
				if int(l.edge) >= len(g.Polys[i].Nei) || g.Polys[i].Nei[l.edge] > -2 {
					t.Fatalf("link 0x%x from edge %d of polygon %d of tile (%d,%d,%d), which isn't on a border", uint32(l.ref), l.edge, i, g.X, g.Y, g.Layer)
				}
			}
		}
	}
	t.Desc("%d tiles of a %dx%d grid, %d border edges, step height %f", len(w.Tiles), w.O.TX, w.O.TY, len(edges), w.O.Climb)
}
