package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/arl/go-detour/detour"
)

func init() {
	register(&Prop{ID: "D20", Quick: 30000, Thorough: 600000, Run: runD20,
		Rule:  "a case is the polygon meshes of the tiles of a random world (one in 200: a mesh close to the limits of the format), to which connections inside, outside and on the borders of the tile are added; the tile made from each is read back through a mesh and compared with what it was made from, and input that can't be represented is refused; non-trivial if a tile was compared; distinct by tile data",
		MinEv: []string{"tiles", "polygons", "portal_marks", "internal_neighbours", "detail_meshes", "made_up_triangulations", "bv_leaves", "connections_stored", "connections_elsewhere", "connections_too_high_or_low", "big_tiles", "refusals", "dense_detail_meshes", "wide_tiles", "tiles_of_many_detail_triangles", "tall_tiles", "empty_detail_meshes"},
		Assume: []string{"bounding volumes are compared within one unit of their resolution (the cell size)",
			"connections whose height is within 1e-4 of the limits may or may not be stored"}})
}

func deepParams(p *detour.NavMeshCreateParams) detour.NavMeshCreateParams {
	c := *p
	c.Verts = append([]uint16(nil), p.Verts...)
	c.Polys = append([]uint16(nil), p.Polys...)
	c.PolyFlags = append([]uint16(nil), p.PolyFlags...)
	c.PolyAreas = append([]uint8(nil), p.PolyAreas...)
	c.DetailMeshes = append([]int32(nil), p.DetailMeshes...)
	c.DetailVerts = append([]float32(nil), p.DetailVerts...)
	c.DetailTris = append([]uint8(nil), p.DetailTris...)
	c.OffMeshConVerts = append([]float32(nil), p.OffMeshConVerts...)
	c.OffMeshConRad = append([]float32(nil), p.OffMeshConRad...)
	c.OffMeshConFlags = append([]uint16(nil), p.OffMeshConFlags...)
	c.OffMeshConAreas = append([]uint8(nil), p.OffMeshConAreas...)
	c.OffMeshConDir = append([]uint8(nil), p.OffMeshConDir...)
	c.OffMeshConUserID = append([]uint32(nil), p.OffMeshConUserID...)
	return c
}

// addCons gives the parameters connections of all kinds.
func addCons(r *rand.Rand, p *detour.NavMeshCreateParams, n int) {
	p.OffMeshConVerts, p.OffMeshConRad, p.OffMeshConFlags, p.OffMeshConAreas, p.OffMeshConDir, p.OffMeshConUserID = nil, nil, nil, nil, nil, nil
	ids := r.Intn(4) != 0
	for i := 0; i < n; i++ {
		for k := 0; k < 2; k++ {
			var v [3]float32
			for a := 0; a < 3; a++ {
				lo, hi := p.BMin[a], p.BMax[a]
				switch r.Intn(8) {
				case 0:
					v[a] = lo
				case 1:
					v[a] = hi
				case 2:
					v[a] = math.Nextafter32(lo, -1e9)
				case 3:
					v[a] = math.Nextafter32(hi, -1e9)
				case 4:
					v[a] = lo + (hi-lo)*(3*r.Float32()-1)
				default:
					v[a] = lo + (hi-lo)*r.Float32()
				}
			}
			p.OffMeshConVerts = append(p.OffMeshConVerts, v[:]...)
		}
		p.OffMeshConRad = append(p.OffMeshConRad, r.Float32()*3)
		p.OffMeshConFlags = append(p.OffMeshConFlags, uint16(r.Intn(1<<16)))
		p.OffMeshConAreas = append(p.OffMeshConAreas, uint8(r.Intn(64)))
		p.OffMeshConDir = append(p.OffMeshConDir, uint8(r.Intn(2)))
		if ids {
			p.OffMeshConUserID = append(p.OffMeshConUserID, r.Uint32())
		}
	}
	p.OffMeshConCount = int32(n)
}

// bigTile makes a tile close to the limits: separate polygons of as many
// vertices as possible, or a lattice of as many polygons as possible.
func bigTile(r *rand.Rand, lattice bool, npolys, extra int) *GTile {
	t := &GTile{}
	p := &t.P
	p.Cs, p.Ch = 0.5, 0.25
	p.WalkableClimb, p.WalkableHeight, p.WalkableRadius = 1, 2, 0.6
	p.BMin = [3]float32{-50, 3, 20}
	p.Nvp = 4 + r.Int31n(3)
	p.BuildBvTree = r.Intn(3) != 0
	addV := func(x, y, z int) int {
		p.Verts = append(p.Verts, uint16(x), uint16(y), uint16(z))
		t.Verts = append(t.Verts, V3{float64(p.BMin[0] + float32(x)*p.Cs), float64(p.BMin[1] + float32(y)*p.Ch), float64(p.BMin[2] + float32(z)*p.Cs)})
		return len(t.Verts) - 1
	}
	const W = 181
	var lat []int
	if lattice {
		for j := 0; j*W < npolys+W; j++ {
			for i := 0; i <= W; i++ {
				lat = append(lat, addV(i*3, r.Intn(3), j*3))
			}
		}
	}
	for k := 0; k < npolys; k++ {
		gp := GPoly{Area: uint8(r.Intn(64)), Flags: uint16(r.Intn(1 << 16))}
		i, j := k%W, k/W
		if lattice {
			a := j*(W+1) + i
			gp.VI = []int{lat[a], lat[a+W+1], lat[a+W+2], lat[a+1]}
			nei := func(c bool, q int) int {
				if c && q < npolys {
					return q
				}
				return -1
			}
			gp.Nei = []int{nei(i > 0, k-1), nei(true, k+W), nei(i < W-1, k+1), nei(j > 0, k-W)}
		} else {
			y := r.Intn(3)
			gp.VI = []int{addV(i*6, y, j*6), addV(i*6, y, j*6+4), addV(i*6+4, y, j*6+4), addV(i*6+4, y, j*6)}
			gp.Nei = []int{-1, -1, -1, -1}
		}
		for _, v := range gp.VI {
			gp.V = append(gp.V, t.Verts[v])
		}
		for k := 2; k < len(gp.V); k++ {
			gp.DT = append(gp.DT, [3]int{0, k - 1, k})
		}
		t.Polys = append(t.Polys, gp)
	}
	for ; extra > 0; extra-- {
		addV(r.Intn(1000), r.Intn(3), r.Intn(1000))
	}
	p.BMax = [3]float32{p.BMin[0] + 6*W*p.Cs, p.BMin[1] + 4*p.Ch, p.BMin[2] + float32(6*(npolys/W+2))*p.Cs}
	t.fill(&GWorld{}, r)
	return t
}

// denseDetail gives each polygon of the tile a detail mesh of any vertices and
// triangles, up to many.
func denseDetail(r *rand.Rand, g *GTile, most int) {
	p := &g.P
	p.DetailMeshes, p.DetailVerts, p.DetailTris = nil, nil, nil
	add := func(v [3]float32) {
		p.DetailVerts = append(p.DetailVerts, v[:]...)
	}
	for i := range g.Polys {
		gp := &g.Polys[i]
		nv, nt := r.Intn(most/2), 1+r.Intn(most)
		lo, hi := gp.V[0], gp.V[0]
		vb, tb := len(p.DetailVerts)/3, len(p.DetailTris)/4
		for _, v := range gp.V {
			for a := range v {
				lo[a], hi[a] = math.Min(lo[a], v[a]), math.Max(hi[a], v[a])
			}
			add([3]float32{float32(v[0]), float32(v[1]), float32(v[2])})
		}
		gp.DV = nil
		for k := 0; k < nv; k++ {
			v := V3{lo[0] + (hi[0]-lo[0])*r.Float64(), lo[1] + (hi[1]-lo[1])*r.Float64(), lo[2] + (hi[2]-lo[2])*r.Float64()}
			if r.Intn(20) == 0 {
				v[1] += 10 * (r.Float64() - .5)
			}
			f := [3]float32{float32(v[0]), float32(v[1]), float32(v[2])}
			add(f)
			gp.DV = append(gp.DV, v3(f[:]))
		}
		all := len(gp.V) + nv
		for k := 0; k < nt; k++ {
			p.DetailTris = append(p.DetailTris, uint8(r.Intn(all)), uint8(r.Intn(all)), uint8(r.Intn(all)), uint8(r.Intn(64)))
		}
		p.DetailMeshes = append(p.DetailMeshes, int32(vb), int32(all), int32(tb), int32(nt))
	}
	p.DetailVertsCount, p.DetailTriCount = int32(len(p.DetailVerts)/3), int32(len(p.DetailTris)/4)
}

// detailOf gives the polygons detail meshes of one triangle, and polygon k one
// of nv vertices and nt triangles.
func detailOf(p *detour.NavMeshCreateParams, g *GTile, k, nv, nt int) {
	p.DetailMeshes, p.DetailVerts, p.DetailTris = nil, nil, nil
	for i := range g.Polys {
		n, m := len(g.Polys[i].VI), 1
		if i == k {
			n, m = nv, nt
		}
		p.DetailMeshes = append(p.DetailMeshes, int32(len(p.DetailVerts)/3), int32(n), int32(len(p.DetailTris)/4), int32(m))
		for j := 0; j < n; j++ {
			v := g.Polys[i].V[j%len(g.Polys[i].V)]
			p.DetailVerts = append(p.DetailVerts, float32(v[0]), float32(v[1]), float32(v[2]))
		}
		for j := 0; j < m; j++ {
			p.DetailTris = append(p.DetailTris, 0, 1, 2, 0)
		}
	}
	p.DetailVertsCount, p.DetailTriCount = int32(len(p.DetailVerts)/3), int32(len(p.DetailTris)/4)
}

// widen spreads the polygons of a tile, vertices and all, over a larger one.
func widen(r *rand.Rand, g *GTile) (tall bool) {
	p := &g.P
	k := [2]int{60000 / 1086, 1}
	if r.Intn(2) == 0 {
		k = [2]int{1, 60000 / (6 * (len(g.Polys)/181 + 2))}
	}
	ky := 1
	if r.Intn(2) == 0 { // tall, too
		ky = 1 + r.Intn(20000)
		p.Ch = []float32{0.25, 0.5, 1, 4}[r.Intn(4)]
		tall = true
	}
	for i := range g.Verts {
		p.Verts[i*3] *= uint16(k[0])
		p.Verts[i*3+1] *= uint16(ky)
		p.Verts[i*3+2] *= uint16(k[1])
		g.Verts[i] = V3{float64(p.BMin[0] + float32(p.Verts[i*3])*p.Cs), float64(p.BMin[1] + float32(p.Verts[i*3+1])*p.Ch), float64(p.BMin[2] + float32(p.Verts[i*3+2])*p.Cs)}
	}
	p.BMax[0] = p.BMin[0] + (p.BMax[0]-p.BMin[0])*float32(k[0])
	p.BMax[1] = p.BMin[1] + float32(4*ky)*p.Ch
	p.BMax[2] = p.BMin[2] + (p.BMax[2]-p.BMin[2])*float32(k[1])
	for i := range g.Polys {
		for j, v := range g.Polys[i].VI {
			g.Polys[i].V[j] = g.Verts[v]
		}
	}
	return tall
}

func runD20(t *T) {
	r := t.R
	if t.Idx%200 == 7 {
		bigD20(t)
		return
	}
	o := randOpt(r)
	if r.Intn(4) == 0 {
		o.N = 5 + r.Intn(8)
	}
	o.TX, o.TY = 1+r.Intn(2), 1+r.Intn(2)
	w := makeWorld(r, o)
	for _, g := range w.Tiles {
		if r.Intn(3) != 0 {
			addCons(r, &g.P, r.Intn(12))
		}
		if r.Intn(8) == 0 {
			denseDetail(r, g, []int{10, 60, 250}[r.Intn(3)])
			t.Count("dense_detail_meshes", 1)
		}
		if g.P.DetailMeshes == nil && r.Intn(4) == 0 { // none all the same
			g.P.DetailMeshes, g.P.DetailVerts, g.P.DetailTris = []int32{}, []float32{}, []uint8{}
			t.Count("empty_detail_meshes", 1)
		}
		checkTileData(t, g)
		refusals(t, g)
	}
	t.Desc("%s", w.desc())
}

func bigD20(t *T) {
	r := t.R
	t.Count("big_tiles", 1)
	inside := func(g *GTile, n int) {
		p := &g.P
		addCons(r, p, n)
		for i := 0; i < n; i++ { // all of them stored
			for a := 0; a < 3; a++ {
				p.OffMeshConVerts[i*6+a] = (p.BMin[a] + p.BMax[a]) / 2
			}
			p.OffMeshConVerts[i*6+1] = p.BMin[1] + p.Ch
		}
	}
	refused := func(g *GTile, what string) {
		t.Count("refusals", 1)
		if d, err := detour.CreateNavMeshData(&g.P); err == nil || d != nil {
			t.Fatalf("%s: accepted", what)
		}
	}
	switch (t.Idx / 200) % 8 {
	case 0: // most vertices
		g := bigTile(r, false, 16383, 2)
		checkTileData(t, g)
	case 1: // most vertices, with as many connections as there's room for
		g := bigTile(r, false, 16380, r.Intn(8))
		n := (65536 - int(g.P.VertCount)) / 2
		inside(g, n)
		checkTileData(t, g)
		inside(g, n+1)
		refused(g, fmt.Sprintf("%d vertices and %d connections", g.P.VertCount, n+1))
	case 2: // most polygons
		checkTileData(t, bigTile(r, true, 32767, 0))
	case 3: // too many of them
		refused(bigTile(r, true, 32768+r.Intn(3), 0), "more than 32767 polygons")
	case 4: // between signed and unsigned
		checkTileData(t, bigTile(r, false, 8192+r.Intn(3)-1, r.Intn(4)))
	case 5: // past a third of the indices
		checkTileData(t, bigTile(r, false, 5461+r.Intn(20), r.Intn(4)))
	case 6: // over 60000 cells
		g := bigTile(r, r.Intn(2) == 0, 100+r.Intn(500), 0)
		if widen(r, g) {
			t.Count("tall_tiles", 1)
		}
		if r.Intn(2) == 0 {
			denseDetail(r, g, 20)
		}
		checkTileData(t, g)
		t.Count("wide_tiles", 1)
	case 7: // more than 65536 detail triangles
		g := bigTile(r, false, 600+r.Intn(500), 0)
		denseDetail(r, g, 250)
		checkTileData(t, g)
		t.Count("tiles_of_many_detail_triangles", 1)
	}
	t.Desc("big tile, kind %d", (t.Idx/200)%8)
}

func refusals(t *T, g *GTile) {
	r := t.R
	refuse := func(what string, f func(p *detour.NavMeshCreateParams)) {
		p := g.P
		f(&p)
		t.Count("refusals", 1)
		if d, err := detour.CreateNavMeshData(&p); err == nil || d != nil {
			t.Fatalf("tile with %s: accepted (%d bytes)", what, len(d))
		}
	}
	switch r.Intn(7) {
	case 0:
		refuse("more than 6 vertices per polygon", func(p *detour.NavMeshCreateParams) {
			p.Nvp = int32(7 + r.Intn(10))
			p.Polys = make([]uint16, int(p.PolyCount)*2*int(p.Nvp))
		})
	case 1:
		refuse("65535 vertices or more", func(p *detour.NavMeshCreateParams) {
			p.VertCount = int32(65535 + r.Intn(3))
			p.Verts = make([]uint16, 3*p.VertCount)
		})
	case 2:
		refuse("no vertices", func(p *detour.NavMeshCreateParams) { p.VertCount = 0 })
	case 3:
		refuse("no vertices", func(p *detour.NavMeshCreateParams) { p.Verts = nil })
	case 4:
		refuse("no polygons", func(p *detour.NavMeshCreateParams) { p.PolyCount = 0 })
	case 5:
		refuse("no polygons", func(p *detour.NavMeshCreateParams) { p.Polys = nil })
	case 6:
		k := r.Intn(len(g.Polys))
		if r.Intn(2) == 0 {
			nv := len(g.Polys[k].VI) + 256 + r.Intn(3)
			refuse(fmt.Sprintf("a detail mesh of %d vertices", nv), func(p *detour.NavMeshCreateParams) {
				detailOf(p, g, k, nv, 1)
			})
			return
		}
		nt := 256 + r.Intn(3)
		refuse(fmt.Sprintf("a detail mesh of %d triangles", nt), func(p *detour.NavMeshCreateParams) {
			detailOf(p, g, k, len(g.Polys[k].VI), nt)
		})
	}
}

func checkTileData(t *T, g *GTile) {
	p := &g.P
	before := deepParams(p)
	data, err := detour.CreateNavMeshData(p)
	if err != nil {
		t.Fatalf("tile of %d vertices, %d polygons, %d connections refused: %v", p.VertCount, p.PolyCount, p.OffMeshConCount, err)
	}
	after := deepParams(p)
	if !reflect.DeepEqual(before, after) {
		t.Fatalf("creating tile data modified its parameters")
	}
	data2, err := detour.CreateNavMeshData(&after)
	if err != nil || !bytes.Equal(data, data2) {
		t.Fatalf("creating tile data twice from the same parameters gives different data (%v)", err)
	}
	var m detour.NavMesh
	if st := m.InitForSingleTile(data, 0); detour.StatusFailed(st) {
		t.Fatalf("the tile data can't be loaded: 0x%x", uint32(st))
	}
	tile := m.TileAt(g.X, g.Y, g.Layer)
	if tile == nil || tile.Header == nil {
		t.Fatalf("the tile isn't at (%d,%d,%d)", g.X, g.Y, g.Layer)
	}
	t.Count("tiles", 1)
	t.Nontrivial()
	t.Mix(hashBytes(data))
	checkTileContents(&m, tile, g)
	h := tile.Header
	if h.BMin != p.BMin || h.BMax != p.BMax || h.WalkableClimb != p.WalkableClimb || h.WalkableHeight != p.WalkableHeight || h.WalkableRadius != p.WalkableRadius {
		t.Fatalf("tile header %+v, made from bounds %v %v, agent %v %v %v", *h, p.BMin, p.BMax, p.WalkableHeight, p.WalkableRadius, p.WalkableClimb)
	}
	// vertices
	for i, v := range g.Verts {
		for a := 0; a < 3; a++ {
			if math.Abs(float64(tile.Verts[i*3+a])-v[a]) > 1e-5*(1+math.Abs(v[a])) {
				t.Fatalf("vertex %d is %v instead of %v", i, tile.Verts[i*3:i*3+3], v)
			}
		}
	}
	stored := storedCons(t, p)
	var kept []int
	k := 0
	for i := range stored {
		if stored[i] > 0 || stored[i] == 0 && k < len(tile.OffMeshCons) && sameCon(&tile.OffMeshCons[k], p, i) {
			kept = append(kept, i)
			k++
		}
	}
	if len(tile.Polys) != len(g.Polys)+len(kept) || len(tile.OffMeshCons) != len(kept) {
		t.Fatalf("%d polygons and %d connections made from %d polygons and %d connections, %d of which start in the tile", len(tile.Polys), len(tile.OffMeshCons), len(g.Polys), p.OffMeshConCount, len(kept))
	}
	if len(tile.Verts) != 3*(len(g.Verts)+2*len(kept)) {
		t.Fatalf("%d vertices made from %d and %d connections", len(tile.Verts)/3, len(g.Verts), len(kept))
	}
	checkNeighbours(t, &m, tile, g)
	checkDetail(t, tile, g)
	checkBV(t, tile, g)
	// connections
	usedPoly := map[int]bool{}
	for n, i := range kept {
		con := &tile.OffMeshCons[n]
		if !sameCon(con, p, i) {
			t.Fatalf("connection %d of the tile, %+v, isn't connection %d of its parameters, %v", n, *con, i, p.OffMeshConVerts[i*6:i*6+6])
		}
		if con.Rad != p.OffMeshConRad[i] || con.Flags&1 != p.OffMeshConDir[i] || con.Side != sideOf(p, p.OffMeshConVerts[i*6+3:]) {
			t.Fatalf("connection %d: %+v, made from radius %v, direction %d, end on side %d", i, *con, p.OffMeshConRad[i], p.OffMeshConDir[i], sideOf(p, p.OffMeshConVerts[i*6+3:]))
		}
		id := uint32(0)
		if len(p.OffMeshConUserID) > 0 {
			id = p.OffMeshConUserID[i]
		}
		if con.UserID != id {
			t.Fatalf("connection %d: user id %d instead of %d", i, con.UserID, id)
		}
		ip := int(con.Poly)
		if ip < len(g.Polys) || ip >= len(tile.Polys) || usedPoly[ip] {
			t.Fatalf("connection %d is polygon %d", i, ip)
		}
		usedPoly[ip] = true
		q := &tile.Polys[ip]
		if q.VertCount != 2 || q.Type() != 1 || q.Flags != p.OffMeshConFlags[i] || q.Area() != p.OffMeshConAreas[i] {
			t.Fatalf("connection %d: polygon %+v, made from flags 0x%x, area %d", i, *q, p.OffMeshConFlags[i], p.OffMeshConAreas[i])
		}
		for e := 0; e < 2; e++ {
			vi := int(q.Verts[e])
			if vi != len(g.Verts)+2*n+e {
				t.Fatalf("connection %d: end %d is vertex %d of %d", i, e, vi, len(tile.Verts)/3)
			}
			v, c := v3(tile.Verts[vi*3:]), v3(p.OffMeshConVerts[i*6+e*3:])
			// (ends are moved to the polygons they land on)
			if v.dist2D(c) > float64(con.Rad)*(1+1e-4)+1e-4 {
				t.Fatalf("connection %d: end %d at %v, made from %v (radius %v)", i, e, v, c, con.Rad)
			}
		}
		t.Count("connections_stored", 1)
	}
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func sameCon(con *detour.OffMeshConnection, p *detour.NavMeshCreateParams, i int) bool {
	for k := 0; k < 6; k++ {
		if con.Pos[k] != p.OffMeshConVerts[i*6+k] {
			return false
		}
	}
	return true
}

// sideOf is the side of the tile a point is at: 0xff inside, and otherwise
// 0 to 7 from x+ counterclockwise.
func sideOf(p *detour.NavMeshCreateParams, v []float32) uint8 {
	dx, dz := 0, 0
	if v[0] >= p.BMax[0] {
		dx = 1
	} else if v[0] < p.BMin[0] {
		dx = -1
	}
	if v[2] >= p.BMax[2] {
		dz = 1
	} else if v[2] < p.BMin[2] {
		dz = -1
	}
	switch [2]int{dx, dz} {
	case [2]int{1, 0}:
		return 0
	case [2]int{1, 1}:
		return 1
	case [2]int{0, 1}:
		return 2
	case [2]int{-1, 1}:
		return 3
	case [2]int{-1, 0}:
		return 4
	case [2]int{-1, -1}:
		return 5
	case [2]int{0, -1}:
		return 6
	case [2]int{1, -1}:
		return 7
	}
	return 0xff
}

// storedCons tells which connections start in the tile (1: yes, -1: no, 0: too close to tell).
func storedCons(t *T, p *detour.NavMeshCreateParams) []int {
	lo, hi := math.Inf(1), math.Inf(-1)
	if len(p.DetailVerts) > 0 {
		for i := 1; i < len(p.DetailVerts); i += 3 {
			lo, hi = math.Min(lo, float64(p.DetailVerts[i])), math.Max(hi, float64(p.DetailVerts[i]))
		}
	} else {
		for i := 1; i < len(p.Verts); i += 3 {
			y := float64(p.BMin[1] + float32(p.Verts[i])*p.Ch)
			lo, hi = math.Min(lo, y), math.Max(hi, y)
		}
	}
	lo, hi = lo-float64(p.WalkableClimb), hi+float64(p.WalkableClimb)
	s := make([]int, p.OffMeshConCount)
	for i := range s {
		v := p.OffMeshConVerts[i*6 : i*6+3]
		y := float64(v[1])
		switch {
		case sideOf(p, v) != 0xff:
			s[i] = -1
			t.Count("connections_elsewhere", 1)
		case y < lo-1e-4 || y > hi+1e-4:
			s[i] = -1
			t.Count("connections_too_high_or_low", 1)
		case y > lo+1e-4 && y < hi-1e-4:
			s[i] = 1
		}
	}
	return s
}

// checkNeighbours checks the neighbours and border marks of the polygons, and
// the links made from them.
func checkNeighbours(t *T, m *detour.NavMesh, tile *detour.MeshTile, g *GTile) {
	marks := map[int]uint16{-2: 4, -3: 2, -4: 0, -5: 6}
	for i := range g.Polys {
		gp, p := &g.Polys[i], &tile.Polys[i]
		t.Count("polygons", 1)
		var ls [8]int
		for e := range ls {
			ls[e] = -1
		}
		for _, l := range linksOf(tile, p) {
			if int(l.edge) >= len(gp.VI) {
				continue // of a connection
			}
			var s, it, ip uint32
			m.DecodePolyID(l.ref, &s, &it, &ip)
			if tile.Polys[ip].Type() == 1 {
				continue
			}
			if ls[l.edge] >= 0 || l.side != 0xff {
				t.Fatalf("polygon %d has several links on edge %d, or one to another tile", i, l.edge)
			}
			ls[l.edge] = int(ip)
		}
		for e, n := range gp.Nei {
			x := p.Neis[e]
			switch {
			case n >= 0:
				t.Count("internal_neighbours", 1)
				if int(x) != n+1 || ls[e] != n {
					t.Fatalf("edge %d of polygon %d has neighbour 0x%x and is linked to %d, instead of polygon %d", e, i, x, ls[e], n)
				}
			case n == -1:
				if x != 0 || ls[e] >= 0 {
					t.Fatalf("edge %d of polygon %d has neighbour 0x%x and is linked to %d, instead of none", e, i, x, ls[e])
				}
			default:
				t.Count("portal_marks", 1)
				if x != 0x8000|marks[n] || ls[e] >= 0 {
					t.Fatalf("edge %d of polygon %d, on side %d of the tile, has neighbour 0x%x and is linked to %d", e, i, -2-n, x, ls[e])
				}
			}
		}
	}
}

// checkDetail checks the detail meshes of the polygons.
func checkDetail(t *T, tile *detour.MeshTile, g *GTile) {
	p := &g.P
	if len(tile.DetailMeshes) != len(g.Polys) {
		t.Fatalf("%d detail meshes for %d polygons", len(tile.DetailMeshes), len(g.Polys))
	}
	for i := range g.Polys {
		gp := &g.Polys[i]
		d := &tile.DetailMeshes[i]
		if (int(d.VertBase)+int(d.VertCount))*3 > len(tile.DetailVerts) || (int(d.TriBase)+int(d.TriCount))*4 > len(tile.DetailTris) {
			t.Fatalf("detail mesh of polygon %d out of the tile: %+v", i, *d)
		}
		if len(p.DetailMeshes) > 0 {
			t.Count("detail_meshes", 1)
			vb, nv, tb, nt := int(p.DetailMeshes[i*4]), int(p.DetailMeshes[i*4+1])-len(gp.VI), int(p.DetailMeshes[i*4+2]), int(p.DetailMeshes[i*4+3])
			if int(d.VertCount) != nv || int(d.TriCount) != nt {
				t.Fatalf("detail mesh of polygon %d has %d vertices and %d triangles instead of %d and %d", i, d.VertCount, d.TriCount, nv, nt)
			}
			for k := 0; k < 3*nv; k++ {
				if a, b := tile.DetailVerts[int(d.VertBase)*3+k], p.DetailVerts[(vb+len(gp.VI))*3+k]; a != b {
					t.Fatalf("detail vertices of polygon %d differ", i)
				}
			}
			if !bytes.Equal(tile.DetailTris[int(d.TriBase)*4:][:nt*4], p.DetailTris[tb*4:][:nt*4]) {
				t.Fatalf("detail triangles of polygon %d differ", i)
			}
			continue
		}
		t.Count("made_up_triangulations", 1)
		nv := len(gp.VI)
		if d.VertCount != 0 || int(d.TriCount) != nv-2 {
			t.Fatalf("made up detail mesh of polygon %d has %d vertices, %d triangles", i, d.VertCount, d.TriCount)
		}
		area, sum := 0.0, 0.0
		for k := 2; k < nv; k++ {
			area += cross2(gp.V[0], gp.V[k-1], gp.V[k])
		}
		for k := 0; k < int(d.TriCount); k++ {
			tr := tile.DetailTris[(int(d.TriBase)+k)*4:][:4]
			if int(tr[0]) >= nv || int(tr[1]) >= nv || int(tr[2]) >= nv {
				t.Fatalf("made up detail triangle %v of polygon %d of %d vertices", tr, i, nv)
			}
			a := cross2(gp.V[tr[0]], gp.V[tr[1]], gp.V[tr[2]])
			if a >= 0 {
				t.Fatalf("made up detail triangle %v of polygon %d is upside down", tr, i)
			}
			sum += a
			for e := 0; e < 3; e++ {
				x, y := int(tr[e]), int(tr[(e+1)%3])
				out := (x+1)%nv == y || (y+1)%nv == x
				if (tr[3]>>uint(2*e)&3 != 0) != out {
					t.Fatalf("made up detail triangle %v of polygon %d: edge %d flagged as %d", tr, i, e, tr[3]>>uint(2*e)&3)
				}
			}
		}
		if math.Abs(sum-area) > 1e-4*math.Abs(area) {
			t.Fatalf("made up detail triangles of polygon %d cover %f instead of %f", i, -sum/2, -area/2)
		}
	}
}

// checkBV checks the bounding volume tree: each polygon is in one leaf, and
// nodes enclose all that's below them.
func checkBV(t *T, tile *detour.MeshTile, g *GTile) {
	p := &g.P
	if !p.BuildBvTree {
		if len(tile.BvTree) != 0 {
			t.Fatalf("tile with a bounding volume tree that wasn't asked for")
		}
		return
	}
	if len(tile.BvTree) < 2*len(g.Polys)-1 {
		t.Fatalf("bounding volume tree of %d nodes for %d polygons", len(tile.BvTree), len(g.Polys))
	}
	leaves := make([]int, len(g.Polys))
	type frame struct{ node, end int }
	var stack []frame
	n := 2*len(g.Polys) - 1
	q := float64(tile.Header.BvQuantFactor)
	if math.Abs(q*float64(p.Cs)-1) > 1e-6 {
		t.Fatalf("bounding volumes in units of 1/%v, cells of %v", q, p.Cs)
	}
	for i := 0; i < n; i++ {
		for len(stack) > 0 && stack[len(stack)-1].end <= i {
			stack = stack[:len(stack)-1]
		}
		nd := &tile.BvTree[i]
		if len(stack) > 0 {
			up := &tile.BvTree[stack[len(stack)-1].node]
			for a := 0; a < 3; a++ {
				if nd.BMin[a] < up.BMin[a] || nd.BMax[a] > up.BMax[a] {
					t.Fatalf("node %d of the bounding volume tree, %+v, isn't inside of its parent %+v", i, *nd, *up)
				}
			}
		} else if i > 0 {
			t.Fatalf("node %d of the bounding volume tree is out of the tree of the root", i)
		}
		if nd.I < 0 {
			end := i - int(nd.I)
			if end > n || len(stack) > 0 && end > stack[len(stack)-1].end || end <= i+1 {
				t.Fatalf("node %d of the bounding volume tree escapes to %d, past its parent's end", i, end)
			}
			stack = append(stack, frame{i, end})
			continue
		}
		if int(nd.I) >= len(g.Polys) {
			t.Fatalf("leaf of polygon %d of %d in the bounding volume tree", nd.I, len(g.Polys))
		}
		leaves[nd.I]++
		t.Count("bv_leaves", 1)
		gp := &g.Polys[nd.I]
		pts := append(append([]V3{}, gp.V...), gp.DV...)
		for _, v := range pts {
			for a := 0; a < 3; a++ {
				x := (v[a] - float64(p.BMin[a])) * q
				x = math.Max(0, math.Min(65535, x))
				if x < float64(nd.BMin[a])-1e-2 || x > float64(nd.BMax[a])+1.01 {
					t.Fatalf("polygon %d, with vertex %v (%f on axis %d), isn't inside of its bounding volume %+v", nd.I, v, x, a, *nd)
				}
			}
		}
	}
	for i, k := range leaves {
		if k != 1 {
			t.Fatalf("polygon %d is in %d leaves of the bounding volume tree", i, k)
		}
	}
}
