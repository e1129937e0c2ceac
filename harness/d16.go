package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

func init() {
	register(&Prop{ID: "D16", Quick: 60000, Thorough: 400000, Run: runD16,
		Rule:  "a case is a random world with 1-12 connections within a tile, to other layers and to tiles in all directions, loaded in a random order with some tiles removed and added again (some are missing at the end); the links of each connection, and of the polygons at its ends, are compared with where it should land, then it's crossed in both directions by path searches and straight paths; non-trivial if a connection has both ends attached; distinct by links",
		MinEv: []string{"connections", "starts_attached", "ends_attached", "ends_in_same_tile", "ends_in_other_layers", "ends_in_neighbours", "ends_in_diagonals", "ends_of_missing_tiles", "starts_out_of_reach", "ends_out_of_reach", "one_way", "both_ways", "crossed", "crossed_back", "refused_back", "removals", "many", "started_close"},
		Assume: []string{"where several polygons are equally near to an end, within 2 cm, it may land on any of them",
			"polygons within the resolution of a bounding volume tree (3 cells) of the box around an end may be taken into account",
			"tiles where the pool of links may be used up as connections land in several layers aren't judged"}})
}

// landing tells on which polygons of a tile the end p of a connection may
// land, and if it may land on none.
func landing(polys []*MPoly, p V3, rad, climb, cs float64) (acc map[detour.PolyRef]bool, none bool) {
	ext := V3{rad, climb, rad}
	lo, hi := p.sub(ext), p.add(ext)
	best := math.Inf(1)
	for _, x := range polys {
		plo, phi := x.bounds(false)
		if !overlaps(plo, phi, lo, hi, V3{-2e-3, -2e-3, -2e-3}) {
			if !overlaps(plo, phi, lo, hi, V3{}) || boundary(plo, phi, lo, hi, 2e-3) {
				continue
			}
		}
		_, d := x.distance(p)
		best = math.Min(best, d)
	}
	acc = map[detour.PolyRef]bool{}
	none = math.IsInf(best, 1)
	for _, x := range polys {
		plo, phi := x.bounds(true)
		s := 3.1*cs + 1e-3
		if !overlaps(plo, phi, lo, hi, V3{s, s, s}) {
			continue
		}
		d, _ := x.distance(p)
		if d > best*(1+1e-3)+0.02 {
			continue
		}
		c, _, _, _, _ := x.closest(p)
		h := c.dist2D(p)
		if h <= rad+2e-3 {
			acc[x.Ref] = true
		}
		if h >= rad-2e-3 {
			none = true
		}
	}
	return
}

var sideStep = [8][2]int32{{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}}

func offWorld(r *rand.Rand) *GWorld {
	o := randOpt(r)
	if r.Intn(2) == 0 {
		o.TX, o.TY = 3, 3
	}
	o.N = 1 + r.Intn(4)
	o.Offs = 1 + r.Intn(12)
	many := r.Intn(20) == 0
	if many { // for tiles of few edges
		o.N, o.Merge, o.Layers = 1, 1, 0
		o.Offs = 5 + r.Intn(60)
	}
	w := makeWorld(r, o)
	var from, to *GTile
	all := false
	if many && r.Intn(3) != 0 {
		from, to = w.Tiles[r.Intn(len(w.Tiles))], w.Tiles[r.Intn(len(w.Tiles))]
		if r.Intn(4) != 0 && (from.X == to.X && from.Y == to.Y || len(to.Polys) == 0) {
			for _, g := range w.Tiles {
				if (g.X != from.X || g.Y != from.Y) && len(g.Polys) > 0 {
					to = g
				}
			}
		}
		if len(from.Polys) == 0 || len(to.Polys) == 0 {
			from = nil
		}
		all = r.Intn(2) == 0
	}
	// most of them to a near tile
	var near []GOff
	for _, f := range w.Off {
		if r.Intn(3) != 0 {
			a := w.Tiles[r.Intn(len(w.Tiles))]
			s := sideStep[r.Intn(8)]
			for _, b := range w.Tiles {
				if b.X == a.X+s[0] && b.Y == a.Y+s[1] && len(b.Polys) > 0 && len(a.Polys) > 0 {
					f.A = randAround(r, a, o)
					f.B = randAround(r, b, o)
				}
			}
		}
		if from != nil && (all || r.Intn(8) != 0) {
			f.A, f.B = randAround(r, from, o), randAround(r, to, o)
		}
		switch r.Intn(6) {
		case 0:
			f.Rad = 0
		case 1:
			f.Rad *= 3
		}
		f.Rad = float64(float32(f.Rad))
		near = append(near, f)
	}
	w.Off = near
	for _, t := range w.Tiles {
		p := &t.P
		p.OffMeshConVerts, p.OffMeshConRad, p.OffMeshConFlags, p.OffMeshConAreas, p.OffMeshConDir, p.OffMeshConUserID = nil, nil, nil, nil, nil, nil
		p.PolyAreas, p.PolyFlags = nil, nil
		t.fill(w, r)
	}
	return w
}

// poolExcused tells that links may be missing as a tile has more of them than it
// has room for: one for each edge, two more for each on the border, and those of
// the connections that start in it or end in it, in one layer each.
// The room for a connection that starts or ends out of the bounds of the tile
// isn't reserved.
func poolExcused(w *GWorld, m *detour.NavMesh) bool {
	at := map[[2]int32]int{}
	for i := range m.Tiles {
		if h := m.Tiles[i].Header; h != nil {
			at[[2]int32{h.X, h.Y}]++
		}
	}
	for i := range m.Tiles {
		tl := &m.Tiles[i]
		if tl.Header == nil || tl.LinksFreeList != nullLink {
			continue
		}
		room := 0
		for j := range tl.Polys {
			p := &tl.Polys[j]
			if p.Type() == 1 {
				continue
			}
			for e := 0; e < int(p.VertCount); e++ {
				room++
				if p.Neis[e]&0x8000 != 0 {
					room += 2
				}
			}
			for _, l := range linksOf(tl, p) {
				if l.edge != 0xff {
					room--
				}
			}
		}
		if room < 0 {
			return true
		}
		lo, hi := v3(tl.Header.BMin[:]), v3(tl.Header.BMax[:])
		for _, f := range w.Off {
			b := f.B
			d := math.Hypot(math.Max(0, math.Max(lo[0]-b[0], b[0]-hi[0])), math.Max(0, math.Max(lo[2]-b[2], b[2]-hi[2])))
			if d > 0 && d <= 1.5*f.Rad+0.01 {
				return true
			}
		}
		for dx := int32(-1); dx <= 1; dx++ {
			for dy := int32(-1); dy <= 1; dy++ {
				if at[[2]int32{tl.Header.X + dx, tl.Header.Y + dy}] > 1 {
					return true
				}
			}
		}
	}
	return false
}

func randAround(r *rand.Rand, t *GTile, o WOpt) V3 {
	gp := &t.Polys[r.Intn(len(t.Polys))]
	k := 2 + r.Intn(len(gp.V)-2)
	v := gp.V[0].lerp(gp.V[k-1], r.Float64()).lerp(gp.V[k], r.Float64())
	v[1] += (r.Float64() - 0.5) * o.Climb * 2.5
	if r.Intn(3) == 0 {
		v[0] += r.NormFloat64() * o.Cs * 3
		v[2] += r.NormFloat64() * o.Cs * 3
	}
	return V3{float64(float32(v[0])), float64(float32(v[1])), float64(float32(v[2]))}
}

// onlyFilter accepts given polygons.
type onlyFilter struct{ ok map[detour.PolyRef]bool }

func (f *onlyFilter) PassFilter(ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	return f.ok[ref]
}

func (f *onlyFilter) Cost(pa, pb d3.Vec3, prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly,
	curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly,
	nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	return pa.Dist(pb)
}

func runD16(t *T) {
	r := t.R
	w := offWorld(r)
	m := w.initMesh()
	refs := map[*GTile]detour.TileRef{}
	add := func(g *GTile) {
		g.create()
		st, ref := m.AddTile(cloneBytes(g.Data), 0)
		if detour.StatusFailed(st) {
			t.Fatalf("AddTile: 0x%x", uint32(st))
		}
		refs[g] = ref
	}
	t.Desc("%s", w.desc())
	for _, i := range r.Perm(len(w.Tiles)) {
		add(w.Tiles[i])
	}
	for g := range refs {
		if h := m.TileByRef(refs[g]).Header; h.OffMeshConCount >= 8 && h.OffMeshBase <= 2 {
			t.Count("many", 1)
		}
	}
	if poolsFull(m) {
		t.Count("pools_full", 1)
		if poolExcused(w, m) {
			return
		}
	}
	for k := r.Intn(6); k > 0; k-- {
		g := w.Tiles[r.Intn(len(w.Tiles))]
		if ref, ok := refs[g]; ok {
			if _, st := m.RemoveTile(ref); detour.StatusFailed(st) {
				t.Fatalf("RemoveTile: 0x%x", uint32(st))
			}
			t.Count("removals", 1)
			delete(refs, g)
			if r.Intn(3) == 0 {
				continue
			}
		}
		add(g)
		if poolsFull(m) {
			t.Count("pools_full", 1)
			if poolExcused(w, m) {
				return
			}
		}
	}
	mp := newMeshPolys(m).attach(w)
	byTile := map[*detour.MeshTile][]*MPoly{}
	for _, x := range mp.L {
		if x.ground() {
			byTile[x.Tile] = append(byTile[x.Tile], x)
		}
	}
	// links to connections, of all polygons
	type pair struct{ from, to detour.PolyRef }
	back := map[pair][]linkRec{}
	for i, x := range mp.L {
		for _, l := range mp.links(i) {
			if j, ok := mp.I[l.ref]; ok && !mp.L[j].ground() {
				back[pair{x.Ref, l.ref}] = append(back[pair{x.Ref, l.ref}], l)
			}
		}
	}
	accounted := map[pair]int{}
	st, q := detour.NewNavMeshQuery(m, 256)
	if detour.StatusFailed(st) {
		t.Fatalf("NewNavMeshQuery: 0x%x", uint32(st))
	}
	climb := w.O.Climb
	for _, g := range w.Tiles {
		if _, ok := refs[g]; !ok {
			continue
		}
		tile := m.TileByRef(refs[g])
		for ci := range tile.OffMeshCons {
			con := &tile.OffMeshCons[ci]
			t.Count("connections", 1)
			cref := polyRef(m, tile, int(con.Poly))
			x := mp.L[mp.I[cref]]
			a, b := v3(con.Pos[:3]), v3(con.Pos[3:])
			what := fmt.Sprintf("connection %s from %v to %v (radius %v, side %d)", refName(m, cref), a, b, con.Rad, con.Side)
			var start detour.PolyRef
			ends := map[*detour.MeshTile]detour.PolyRef{}
			for _, l := range mp.links(mp.I[cref]) {
				j, ok := mp.I[l.ref]
				if !ok {
					t.Fatalf("%s is linked to 0x%x, which isn't in the mesh", what, uint32(l.ref))
				}
				y := mp.L[j]
				switch l.edge {
				case 0:
					if start != 0 {
						t.Fatalf("%s has its start attached twice", what)
					}
					if l.side != 0xff || y.Tile != tile {
						t.Fatalf("%s has its start attached to %s, on side %d", what, refName(m, l.ref), l.side)
					}
					start = l.ref
				case 1:
					if ends[y.Tile] != 0 {
						t.Fatalf("%s has its end attached twice to tile (%d,%d,%d)", what, y.Tile.Header.X, y.Tile.Header.Y, y.Tile.Header.Layer)
					}
					if l.side != con.Side {
						t.Fatalf("%s has its end attached on side %d", what, l.side)
					}
					ends[y.Tile] = l.ref
				default:
					t.Fatalf("%s has a link on edge %d", what, l.edge)
				}
				if !y.ground() {
					t.Fatalf("%s is attached to %s, which is a connection", what, refName(m, l.ref))
				}
			}
			acc, none := landing(byTile[tile], a, float64(con.Rad), climb, w.O.Cs)
			if start == 0 {
				if !none {
					t.Fatalf("%s has its start attached to nothing, instead of one of %v", what, names(m, acc))
				}
				t.Count("starts_out_of_reach", 1)
				if len(ends) > 0 {
					t.Fatalf("%s has its end attached, but not its start", what)
				}
				continue
			}
			if !acc[start] {
				t.Fatalf("%s has its start attached to %s, instead of one of %v", what, refName(m, start), names(m, acc))
			}
			t.Count("starts_attached", 1)
			accounted[pair{start, cref}]++
			// the start of the connection is moved to the polygon
			checkEnd := func(v V3, p V3, ref detour.PolyRef) string {
				y := mp.L[mp.I[ref]]
				c, _, _, lo, hi := y.closest(p)
				d := v.dist2D(c)
				if d > 2e-3 && !sameClamp(V3{v[0], c[1], v[2]}, c, p, y, 2e-3) || v[1] < lo-0.03-d || v[1] > hi+0.03+d {
					return fmt.Sprintf("its end at %v is at %v, and not at the closest point of %s, %v (heights %f to %f)", p, v, refName(m, ref), c, lo, hi)
				}
				return ""
			}
			if msg := checkEnd(x.V[0], a, start); msg != "" {
				t.Fatalf("%s: %s", what, msg)
			}
			// the tiles at its end
			s := [2]int32{}
			if con.Side < 8 {
				s = sideStep[con.Side]
			}
			at, all := 0, true
			endMsg, endOK := "", false
			for _, h := range w.Tiles {
				if _, ok := refs[h]; !ok && h.X == g.X+s[0] && h.Y == g.Y+s[1] {
					all = false
				}
				if _, ok := refs[h]; !ok || h.X != g.X+s[0] || h.Y != g.Y+s[1] {
					continue
				}
				at++
				et := m.TileByRef(refs[h])
				acc, none := landing(byTile[et], b, float64(con.Rad), climb, w.O.Cs)
				e := ends[et]
				delete(ends, et)
				if e == 0 {
					if !none {
						t.Fatalf("%s has its end attached to nothing in tile (%d,%d,%d), instead of one of %v", what, h.X, h.Y, h.Layer, names(m, acc))
					}
					t.Count("ends_out_of_reach", 1)
					continue
				}
				if !acc[e] {
					t.Fatalf("%s has its end attached to %s, instead of one of %v", what, refName(m, e), names(m, acc))
				}
				t.Count("ends_attached", 1)
				if msg := checkEnd(x.V[1], b, e); msg != "" {
					endMsg = msg
				} else {
					endOK = true
				}
				t.Nontrivial()
				t.Mix(cref, start, e)
				switch {
				case h == g:
					t.Count("ends_in_same_tile", 1)
				case con.Side == 0xff:
					t.Count("ends_in_other_layers", 1)
				case con.Side%2 == 1:
					t.Count("ends_in_diagonals", 1)
				default:
					t.Count("ends_in_neighbours", 1)
				}
				bidir := con.Flags&1 != 0
				if bidir {
					accounted[pair{e, cref}]++
					t.Count("both_ways", 1)
				} else {
					t.Count("one_way", 1)
				}
				crossConnection(t, q, mp, what, start, cref, e, x, bidir)
			}
			if all && endMsg != "" && !endOK {
				t.Fatalf("%s: %s", what, endMsg)
			}
			if at == 0 {
				t.Count("ends_of_missing_tiles", 1)
			}
			for et, e := range ends {
				t.Fatalf("%s has its end attached to %s, in tile (%d,%d,%d)", what, refName(m, e), et.Header.X, et.Header.Y, et.Header.Layer)
			}
		}
	}
	for k, l := range back {
		if len(l) != accounted[k] {
			t.Fatalf("polygon %s has %d links to connection %s instead of %d", refName(m, k.from), len(l), refName(m, k.to), accounted[k])
		}
	}
	for k, n := range accounted {
		if len(back[k]) != n {
			t.Fatalf("polygon %s has %d links to connection %s instead of %d", refName(m, k.from), len(back[k]), refName(m, k.to), n)
		}
	}
}

func names(m *detour.NavMesh, acc map[detour.PolyRef]bool) (s []string) {
	for k := range acc {
		s = append(s, refName(m, k))
	}
	return
}

// crossConnection goes from s to e through the connection c, and back.
func crossConnection(t *T, q *detour.NavMeshQuery, mp *MeshPolys, what string, s, c, e detour.PolyRef, x *MPoly, bidir bool) {
	if s == e {
		return
	}
	f := &onlyFilter{map[detour.PolyRef]bool{s: true, c: true, e: true}}
	path := make([]detour.PolyRef, 8)
	ps, pe := mp.L[mp.I[s]].randPoint(t.R), mp.L[mp.I[e]].randPoint(t.R)
	if !mp.linked(s, e) && !mp.linked(e, s) {
		n, st := q.FindPath(s, e, ps.f32(), pe.f32(), f, path)
		if detour.StatusFailed(st) || n != 3 || path[0] != s || path[1] != c || path[2] != e || detour.StatusDetail(st, detour.PartialResult) {
			t.Fatalf("%s: path from its start to its end %v, status 0x%x", what, path[:n], uint32(st))
		}
		t.Count("crossed", 1)
		n, st = q.FindPath(e, s, pe.f32(), ps.f32(), f, path)
		full := n == 3 && path[0] == e && path[1] == c && path[2] == s && !detour.StatusDetail(st, detour.PartialResult)
		if detour.StatusFailed(st) || full != bidir {
			t.Fatalf("%s: path from its end to its start %v, status 0x%x (both ways: %v)", what, path[:n], uint32(st), bidir)
		}
		if bidir {
			t.Count("crossed_back", 1)
		} else {
			t.Count("refused_back", 1)
		}
	}
	cross := func(from, to detour.PolyRef, a, b V3, va, vb V3) {
		if t.R.Intn(3) == 0 { // from next to where it starts
			d := math.Pow(10, -1-4*t.R.Float64())
			a = V3{va[0] + d*(2*t.R.Float64()-1), va[1], va[2] + d*(2*t.R.Float64()-1)}
			t.Count("started_close", 1)
		}
		if t.R.Intn(4) == 0 {
			d := math.Pow(10, -1-4*t.R.Float64())
			b = V3{vb[0] + d*(2*t.R.Float64()-1), vb[1], vb[2] + d*(2*t.R.Float64()-1)}
		}
		sp, fl, rf := vecs(8), make([]uint8, 8), make([]detour.PolyRef, 8)
		n, st := q.FindStraightPath(a.f32(), b.f32(), []detour.PolyRef{from, c, to}, sp, fl, rf, 0)
		if st != detour.Success {
			t.Fatalf("%s: straight path through it: 0x%x", what, uint32(st))
		}
		ok := false
		// (positions equal by their precision are joined)
		tol := 2e-3 + 2e-5*math.Max(math.Abs(va[0])+math.Abs(va[2]), math.Abs(vb[0])+math.Abs(vb[2]))
		for i := 0; i+1 < n; i++ {
			if fl[i] == detour.StraightPathOffMeshConnection && rf[i] == c {
				d0, d1 := v3(sp[i]).dist(va), v3(sp[i+1]).dist(vb)
				if d0 < tol && (d1 < tol || va.dist2D(vb) < 5*tol) {
					ok = true
				}
			}
		}
		if !ok && va.dist2D(vb) > 5*tol {
			t.Fatalf("%s: straight path through it from %v to %v, that doesn't cross it from %v to %v: %v %v %v", what, a, b, va, vb, sp[:n], fl[:n], rf[:n])
		}
	}
	cross(s, e, ps, pe, x.V[0], x.V[1])
	if bidir {
		cross(e, s, pe, ps, x.V[1], x.V[0])
	}
}
