package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"math/rand"

	"github.com/arl/go-detour/detour"
)

func init() {
	register(&Prop{ID: "D01", Quick: 2400, Thorough: 40000, Run: runD01,
		Rule:  "a case is a random history of 60-400 additions, restorations at a previous reference, removals (of live, stale and arbitrary references) and refused operations over the tiles of a random world, checked after each operation against a model of the live tiles; non-trivial if at least one slot was reused and one operation refused; distinct by the sequence of operations and results",
		MinEv: []string{"adds", "restores", "removes", "refused_adds", "refused_removes", "stale_refs_checked", "slot_reuses", "salt_wraps", "too many polygons", "as many polygons as possible"}})
	register(&Prop{ID: "D02", Quick: 8000, Thorough: 200000, Run: runD02,
		Rule:  "a case is a random history of 20-60 additions and removals over the tiles (neighbours, diagonals, layers, off-mesh connections) of a random world; after each operation all link chains are walked and accounted for, and the links are compared with those of a mesh into which only the live tiles were loaded, in another order; non-trivial if links between tiles were observed and removed; distinct by the live sets",
		MinEv: []string{"operations", "links_checked", "links_between_tiles", "history_comparisons", "offmesh_links"}})
	register(&Prop{ID: "D03", Quick: 6000, Thorough: 60000, Run: runD03,
		Rule:  "a case is a capacity configuration (the first ones enumerate all pairs of bit lengths around the limit); references of slots at both ends and powers of two with several generations are composed and decomposed, tiles are put at the last slot with as many polygons as can be addressed, and arbitrary references are looked up; non-trivial if references of an accepted configuration were decomposed or a configuration was refused; distinct by configuration",
		MinEv: []string{"configs_accepted", "configs_refused", "refs_decomposed", "arbitrary_refs", "tiles_refused"}})
}

// liveTile is a tile of the model.
type liveTile struct {
	g    *GTile
	ref  detour.TileRef
	data []byte
}

// checkTileContents compares a tile of the mesh with what it should contain.
func checkTileContents(m *detour.NavMesh, tile *detour.MeshTile, g *GTile) {
	fail := func(f string, a ...interface{}) {
		panic(violated{fmt.Sprintf("tile (%d,%d,%d): ", g.X, g.Y, g.Layer) + fmt.Sprintf(f, a...)})
	}
	h := tile.Header
	if h == nil {
		fail("no header")
	}
	if h.X != g.X || h.Y != g.Y || h.Layer != g.Layer || h.UserID != g.P.UserID {
		fail("header (%d,%d,%d) user %d", h.X, h.Y, h.Layer, h.UserID)
	}
	if len(tile.Polys) < len(g.Polys) {
		fail("%d polygons instead of %d", len(tile.Polys), len(g.Polys))
	}
	for i := range g.Polys {
		gp, p := &g.Polys[i], &tile.Polys[i]
		if int(p.VertCount) != len(gp.VI) || p.Area() != gp.Area || p.Flags != gp.Flags || p.Type() != 0 {
			fail("polygon %d: %+v instead of %+v", i, *p, *gp)
		}
		for e, v := range gp.VI {
			if int(p.Verts[e]) != v {
				fail("polygon %d: vertices %v instead of %v", i, p.Verts, gp.VI)
			}
		}
	}
}

type d01 struct {
	t       *T
	m       *detour.NavMesh
	live    map[*GTile]*liveTile
	bySlot  map[uint32]*liveTile
	issued  map[detour.TileRef]bool           // every reference ever seen
	forget  map[uint32]map[detour.TileRef]int // dead refs per slot -> removals of the slot when they died
	removed map[uint32]int
	period  int
	maxT    uint32
}

func (d *d01) slot(ref detour.TileRef) uint32 {
	var s, it, ip uint32
	d.m.DecodePolyID(detour.PolyRef(ref), &s, &it, &ip)
	return it
}

func (d *d01) checkAll(full bool) {
	t, m := d.t, d.m
	for g, l := range d.live {
		tile := m.TileByRef(l.ref)
		if tile == nil || tile.Header == nil || tile.Header.X != g.X || tile.Header.Y != g.Y || tile.Header.Layer != g.Layer {
			t.Fatalf("reference 0x%x doesn't resolve to its tile (%d,%d,%d)", uint32(l.ref), g.X, g.Y, g.Layer)
		}
		if m.TileAt(g.X, g.Y, g.Layer) != tile {
			t.Fatalf("TileAt(%d,%d,%d) isn't the tile of reference 0x%x", g.X, g.Y, g.Layer, uint32(l.ref))
		}
		if r := m.TileRefAt(g.X, g.Y, g.Layer); r != l.ref {
			t.Fatalf("TileRefAt(%d,%d,%d) = 0x%x, not 0x%x", g.X, g.Y, g.Layer, uint32(r), uint32(l.ref))
		}
		if r := m.TileRef(tile); r != l.ref {
			t.Fatalf("TileRef = 0x%x, not 0x%x", uint32(r), uint32(l.ref))
		}
		np := len(tile.Polys)
		step := 1
		if !full {
			step = 1 + np/3
		}
		for ip := 0; ip < np; ip += step {
			ref := detour.PolyRef(l.ref) | detour.PolyRef(ip)
			var tl *detour.MeshTile
			var p *detour.Poly
			if !m.IsValidPolyRef(ref) {
				t.Fatalf("polygon reference 0x%x of a live tile isn't valid", uint32(ref))
			}
			if st := m.TileAndPolyByRef(ref, &tl, &p); detour.StatusFailed(st) || tl != tile || p != &tile.Polys[ip] {
				t.Fatalf("polygon reference 0x%x doesn't resolve to polygon %d of its tile: 0x%x", uint32(ref), ip, uint32(st))
			}
		}
		if full {
			checkTileContents(m, tile, g)
		}
		if m.IsValidPolyRef(detour.PolyRef(l.ref) | detour.PolyRef(np)) {
			// may be the base reference of another tile when all bits are used
			if o := d.bySlot[d.slot(detour.TileRef(detour.PolyRef(l.ref)|detour.PolyRef(np)))]; o == nil || detour.PolyRef(o.ref)&^detour.PolyRef(0) != detour.PolyRef(l.ref)|detour.PolyRef(np) {
				t.Fatalf("polygon %d of a tile with %d polygons is valid", np, np)
			}
		}
	}
	for ref := range d.issued {
		l := d.bySlot[d.slot(ref)]
		if l != nil && l.ref == ref {
			continue
		}
		t.Count("stale_refs_checked", 1)
		if tile := m.TileByRef(ref); tile != nil {
			t.Fatalf("reference 0x%x of a removed tile still resolves to a tile", uint32(ref))
		}
		if m.IsValidPolyRef(detour.PolyRef(ref)) {
			t.Fatalf("polygon reference 0x%x of a removed tile is valid", uint32(ref))
		}
		var tl *detour.MeshTile
		var p *detour.Poly
		if st := m.TileAndPolyByRef(detour.PolyRef(ref), &tl, &p); !detour.StatusFailed(st) {
			t.Fatalf("polygon reference 0x%x of a removed tile resolves", uint32(ref))
		}
	}
}

func (d *d01) checkLocation(x, y int32, maxN int32) {
	t, m := d.t, d.m
	want := map[*detour.MeshTile]bool{}
	for g, l := range d.live {
		if g.X == x && g.Y == y {
			want[m.TileByRef(l.ref)] = true
		}
	}
	buf := make([]*detour.MeshTile, maxN)
	n := m.TilesAt(x, y, buf, maxN)
	exp := int32(len(want))
	if exp > maxN {
		exp = maxN
	}
	if n != exp {
		t.Fatalf("TilesAt(%d,%d) found %d tiles, not %d", x, y, n, exp)
	}
	seen := map[*detour.MeshTile]bool{}
	for _, tl := range buf[:n] {
		if !want[tl] || seen[tl] {
			t.Fatalf("TilesAt(%d,%d) returned a wrong or repeated tile", x, y)
		}
		seen[tl] = true
	}
	t.Count("location_lookups", 1)
}

func smallWorld(r *rand.Rand) *GWorld {
	o := randOpt(r)
	o.TX, o.TY = 1+r.Intn(3), 1+r.Intn(3)
	o.N = 1 + r.Intn(3)
	o.Layers = []float64{0, 0.5, 1}[r.Intn(3)]
	o.MissTiles = 0
	if r.Intn(12) == 0 {
		o.tower(r)
	}
	w := makeWorld(r, o)
	dx, dy := int32(r.Intn(9)-4), int32(r.Intn(9)-4)
	if r.Intn(6) == 0 {
		dx, dy = int32(r.Intn(1<<30))-1<<29, int32(r.Intn(1<<30))-1<<29
	}
	// Locations and layers that are the same but for some of their bits.
	fx, fy, fl := int32(1), int32(1), int32(1)
	if r.Intn(6) == 0 {
		for _, f := range []*int32{&fx, &fy, &fl} {
			if r.Intn(2) == 0 {
				*f = []int32{1 << 8, 1 << 15, 1 << 16, 1 << 20, 1 << 24, -1 << 8, -1 << 16}[r.Intn(7)]
			}
		}
	}
	for _, g := range w.Tiles {
		g.X, g.Y, g.Layer = g.X*fx+dx, g.Y*fy+dy, g.Layer*fl
		g.P.TileLayer = g.Layer
		g.P.TileX, g.P.TileY = g.X, g.Y
		if r.Intn(2) == 0 && g.Layer == 1 && o.NLayers == 0 && fl == 1 {
			g.Layer += int32(r.Intn(3))
			g.P.TileLayer = g.Layer
		}
	}
	return w
}

// runD01Wrap follows one slot through all its generations, or, when there are
// many, through the last and first ones (after a restoration close to them).
func runD01Wrap(t *T) {
	r := t.R
	g := smallWorld(r).Tiles[0]
	g.create()
	// The polygons of the tile must be addressable.
	tb := r.Intn(8)
	pb := bits.Len(uint(len(g.Polys)+len(g.P.OffMeshConFlags))) + r.Intn(3)
	if r.Intn(3) != 0 && tb+pb < 17 {
		pb = 17 + r.Intn(8) - tb
	}
	if tb+pb > 24 {
		pb = 24 - tb
	}
	m := &detour.NavMesh{}
	if st := m.Init(&detour.NavMeshParams{TileWidth: 10, TileHeight: 10, MaxTiles: 1 << uint(tb), MaxPolys: 1 << uint(pb)}); detour.StatusFailed(st) {
		t.Fatalf("%d tile and %d polygon bits refused", tb, pb)
	}
	sb := 32 - tb - pb
	if sb > 31 {
		sb = 31
	}
	period := 1<<uint(sb) - 1
	t.Mix("wrap", tb, pb)
	st0, ref := m.AddTile(cloneBytes(g.Data), 0)
	st := st0
	slot0 := uint32(ref) & (1<<uint(tb+pb) - 1)
	n := period + 5
	if period > 1<<15 {
		// Restore the tile a few generations before the last one.
		m.RemoveTile(ref)
		ref = detour.TileRef(uint32(period-r.Intn(3))<<uint(tb+pb) | slot0)
		var got detour.TileRef
		if st, got = m.AddTile(cloneBytes(g.Data), ref); detour.StatusFailed(st) || got != ref {
			t.Fatalf("the tile can't be restored (%d+%d bits, first 0x%x) at 0x%x: 0x%x, got 0x%x", tb, pb, uint32(st0), uint32(ref), uint32(st), uint32(got))
		}
		n = 8
	}
	seen := map[detour.TileRef]bool{}
	var last []detour.TileRef
	for i := 0; i < n; i++ {
		if detour.StatusFailed(st) || ref == 0 || m.TileRefAt(g.X, g.Y, g.Layer) != ref || m.TileByRef(ref) == nil || m.TileByRef(ref) != m.TileAt(g.X, g.Y, g.Layer) || !m.IsValidPolyRef(detour.PolyRef(ref)) {
			t.Fatalf("generation %d (of %d) of a slot has the reference 0x%x, which doesn't resolve to its tile (status 0x%x)", i, period, uint32(ref), uint32(st))
		}
		if seen[ref] && i < period {
			t.Fatalf("reference 0x%x was given again after %d generations of %d", uint32(ref), i, period)
		}
		seen[ref] = true
		for _, l := range last {
			if tl := m.TileByRef(l); tl != nil || m.IsValidPolyRef(detour.PolyRef(l)) {
				t.Fatalf("reference 0x%x of a removed tile resolves", uint32(l))
			}
			t.Count("stale_refs_checked", 1)
		}
		if last = append(last, ref); len(last) > 3 {
			last = last[1:]
		}
		if _, st := m.RemoveTile(ref); detour.StatusFailed(st) {
			t.Fatalf("tile 0x%x can't be removed", uint32(ref))
		}
		st, ref = m.AddTile(cloneBytes(g.Data), 0)
		t.Count("adds", 1)
		t.Count("removes", 1)
		t.Count("slot_reuses", 1)
	}
	t.Count("salt_wraps", 1)
	t.Count("slots followed around their generations", 1)
	t.Nontrivial()
}

// runD01Single makes meshes of one tile: they have its parameters, its flags
// and no room for another one, until it is removed.
func runD01Single(t *T, w *GWorld) {
	r := t.R
	for _, g := range w.Tiles {
		g.create()
		m := &detour.NavMesh{}
		flags := []int{0, 1, 2, 3, r.Intn(1 << 31)}[r.Intn(5)]
		if st := m.InitForSingleTile(cloneBytes(g.Data), flags); !detour.StatusSucceed(st) {
			t.Fatalf("InitForSingleTile(flags 0x%x): status 0x%x", flags, uint32(st))
		}
		t.Mix("single", g.X, g.Y, g.Layer, flags)
		t.Count("single tile meshes", 1)
		ref := m.TileRefAt(g.X, g.Y, g.Layer)
		tile := m.TileAt(g.X, g.Y, g.Layer)
		if ref == 0 || tile == nil || m.TileByRef(ref) != tile || m.TileRef(tile) != ref {
			t.Fatalf("the tile of a mesh made of one (flags 0x%x) has reference 0x%x, which doesn't resolve to it", flags, uint32(ref))
		}
		checkTileContents(m, tile, g)
		if int(tile.Flags) != flags {
			t.Fatalf("the tile of a mesh made of one has the flags 0x%x instead of 0x%x", tile.Flags, flags)
		}
		for ip := range tile.Polys {
			var tl *detour.MeshTile
			var p *detour.Poly
			pr := detour.PolyRef(ref) | detour.PolyRef(ip)
			if st := m.TileAndPolyByRef(pr, &tl, &p); !m.IsValidPolyRef(pr) || detour.StatusFailed(st) || tl != tile || p != &tile.Polys[ip] {
				t.Fatalf("reference 0x%x doesn't resolve to polygon %d of a mesh of one tile (flags 0x%x)", uint32(pr), ip, flags)
			}
		}
		for _, o := range w.Tiles {
			o.create()
			before := snapshotMesh(m)
			if st, _ := m.AddTile(cloneBytes(o.Data), 0); !detour.StatusFailed(st) {
				t.Fatalf("tile (%d,%d,%d) was added to a mesh made of one tile", o.X, o.Y, o.Layer)
			}
			if s := snapshotMesh(m); s != before {
				t.Fatalf("a refused addition changed a mesh of one tile")
			}
			t.Count("refused_adds", 1)
		}
		if _, st := m.RemoveTile(ref); detour.StatusFailed(st) {
			t.Fatalf("the tile of a mesh of one can't be removed")
		}
		if tl := m.TileByRef(ref); tl != nil || m.IsValidPolyRef(detour.PolyRef(ref)) || m.TileAt(g.X, g.Y, g.Layer) != nil || m.TileRefAt(g.X, g.Y, g.Layer) != 0 {
			t.Fatalf("the tile removed from a mesh of one is still found")
		}
		st, ref2 := m.AddTile(cloneBytes(g.Data), 0)
		if detour.StatusFailed(st) || ref2 == ref || m.TileRefAt(g.X, g.Y, g.Layer) != ref2 {
			t.Fatalf("the tile removed from a mesh of one can't be added again: 0x%x, reference 0x%x after 0x%x", uint32(st), uint32(ref2), uint32(ref))
		}
		checkTileContents(m, m.TileByRef(ref2), g)
		t.Count("adds", 2)
		t.Count("removes", 1)
		t.Count("slot_reuses", 1)
	}
	t.Nontrivial()
}

// checkPolyLimit checks that a tile is added if and only if references of the mesh
// can address all its polygons.
func checkPolyLimit(t *T, w *GWorld) {
	r := t.R
	for _, g := range w.Tiles {
		g.create()
		single := &detour.NavMesh{}
		if st := single.InitForSingleTile(cloneBytes(g.Data), 0); detour.StatusFailed(st) {
			t.Fatalf("InitForSingleTile: 0x%x", uint32(st))
		}
		n := uint32(single.Tiles[0].Header.PolyCount)
		b := uint(bits.Len32(n))
		for _, max := range []uint32{n, n - 1, 1 << b, 1 << b >> 1, 1 << b >> 2, 1<<b>>1 - 1, 1<<b>>1 + 1, 1 + uint32(r.Intn(int(n)))} {
			if max == 0 || max > 1<<20 {
				continue
			}
			p := w.Params
			p.MaxTiles, p.MaxPolys = uint32(1+r.Intn(4)), max
			m := &detour.NavMesh{}
			if st := m.Init(&p); detour.StatusFailed(st) {
				t.Fatalf("Init: 0x%x", uint32(st))
			}
			before := snapshotMesh(m)
			st, ref := m.AddTile(cloneBytes(g.Data), 0)
			want := n <= 1<<uint(bits.Len32(max-1))
			if detour.StatusSucceed(st) != want || (ref != 0) != want {
				t.Fatalf("a tile of %d polygons added to a mesh made for %d: status 0x%x, reference 0x%x", n, max, uint32(st), uint32(ref))
			}
			if !want {
				t.Count("too many polygons", 1)
				if s := snapshotMesh(m); s != before {
					t.Fatalf("a refused addition changed the mesh")
				}
				continue
			}
			t.Count("as many polygons as possible", 1)
			for _, ip := range []uint32{0, n - 1, uint32(r.Intn(int(n)))} {
				var tl *detour.MeshTile
				var q *detour.Poly
				pr := detour.PolyRef(ref) | detour.PolyRef(ip)
				if st := m.TileAndPolyByRef(pr, &tl, &q); detour.StatusFailed(st) || tl != m.TileByRef(ref) || q != &tl.Polys[ip] {
					t.Fatalf("reference 0x%x doesn't resolve to polygon %d of %d in a mesh made for %d", uint32(pr), ip, n, max)
				}
			}
		}
	}
}

func runD01(t *T) {
	r := t.R
	if t.Idx%25 == 1 {
		runD01Wrap(t)
		return
	}
	w := smallWorld(r)
	checkPolyLimit(t, w)
	if t.Idx%10 == 3 {
		runD01Single(t, w)
		return
	}
	wrap := t.Idx%20 == 0
	if wrap { // few generations: one or two slots, as many polygon bits as possible
		w.Params.MaxTiles = uint32(1 + r.Intn(2))
		w.Params.MaxPolys = 1 << uint(24-bits.Len32(w.Params.MaxTiles-1))
	} else if r.Intn(3) == 0 && len(w.Tiles) > 1 { // not enough slots
		w.Params.MaxTiles = uint32(1 + r.Intn(len(w.Tiles)))
	}
	for _, g := range w.Tiles {
		g.create()
	}
	m := w.initMesh()
	tb := bits.Len32(w.Params.MaxTiles - 1)
	pb := bits.Len32(w.Params.MaxPolys - 1)
	sb := 32 - tb - pb
	if sb > 31 {
		sb = 31
	}
	d := &d01{t: t, m: m, live: map[*GTile]*liveTile{}, bySlot: map[uint32]*liveTile{}, issued: map[detour.TileRef]bool{}, forget: map[uint32]map[detour.TileRef]int{}, removed: map[uint32]int{}, period: 1<<uint(sb) - 1, maxT: w.Params.MaxTiles}
	// data handed back by removals, used by later additions
	datas := map[*GTile][]byte{}
	for _, g := range w.Tiles {
		datas[g] = g.Data
	}
	var refs []detour.TileRef // references to play with
	lastRefOf := map[*GTile]detour.TileRef{}
	nops := 60 + r.Intn(100)
	if wrap {
		nops = 1200
	}
	refused, reuses := 0, 0
	add := func(g *GTile, data []byte, last detour.TileRef) {
		occupied := d.live[g] != nil
		expect := !occupied
		if last == 0 {
			expect = expect && uint32(len(d.live)) < d.maxT
		} else {
			it := d.slot(last)
			expect = expect && it < d.maxT && d.bySlot[it] == nil
		}
		var before string
		if !expect {
			before = snapshotMesh(m)
		}
		in := cloneBytes(data)
		st, ref := m.AddTile(in, last)
		if !bytes.Equal(in, data) {
			t.Fatalf("adding a tile changed the data passed")
		}
		// The buffer is the caller's again.
		for i := range in {
			in[i] ^= 0x55
		}
		t.Mix("add", g.X, g.Y, g.Layer, last, ref)
		if !expect {
			refused++
			t.Count("refused_adds", 1)
			if !detour.StatusFailed(st) {
				t.Fatalf("adding tile (%d,%d,%d) with last ref 0x%x succeeded though location occupied=%v, %d of %d slots used", g.X, g.Y, g.Layer, uint32(last), occupied, len(d.live), d.maxT)
			}
			if s := snapshotMesh(m); s != before {
				t.Fatalf("a refused addition changed the mesh:\n%s\ninstead of\n%s", s, before)
			}
			return
		}
		if !detour.StatusSucceed(st) || ref == 0 {
			t.Fatalf("adding tile (%d,%d,%d) with last ref 0x%x failed: status 0x%x, ref 0x%x (%d of %d slots used)", g.X, g.Y, g.Layer, uint32(last), uint32(st), uint32(ref), len(d.live), d.maxT)
		}
		it := d.slot(ref)
		if it >= d.maxT || d.bySlot[it] != nil {
			t.Fatalf("tile added to slot %d, which isn't free", it)
		}
		if last != 0 {
			if ref != last {
				t.Fatalf("tile restored at 0x%x instead of 0x%x", uint32(ref), uint32(last))
			}
			t.Count("restores", 1)
			d.forget[it] = map[detour.TileRef]int{}
		} else {
			t.Count("adds", 1)
			if at, dead := d.forget[it][ref]; dead && d.removed[it]-at < d.period-1 {
				t.Fatalf("reference 0x%x, of a removed tile, was given to another tile after %d reuses of the slot (there are %d generations)", uint32(ref), d.removed[it]-at, d.period)
			} else if dead {
				t.Count("salt_wraps", 1)
			}
			if d.removed[it] > 0 {
				reuses++
				t.Count("slot_reuses", 1)
			}
		}
		l := &liveTile{g, ref, data}
		d.live[g], d.bySlot[it] = l, l
		d.issued[ref] = true
		if len(d.issued) > 400 {
			for k := range d.issued { // keep it bounded, live ones are known anyway
				delete(d.issued, k)
				break
			}
		}
		lastRefOf[g] = ref
		refs = append(refs, ref)
		t.State("live_set", len(d.live), g.X, g.Y, g.Layer, it)
	}
	remove := func(ref detour.TileRef) {
		var l *liveTile
		if ref != 0 {
			l = d.bySlot[d.slot(ref)]
			// any reference into the tile's polygons designates the tile
			if l != nil {
				var s1, s2, it, ip uint32
				m.DecodePolyID(detour.PolyRef(ref), &s1, &it, &ip)
				m.DecodePolyID(detour.PolyRef(l.ref), &s2, &it, &ip)
				if s1 != s2 {
					l = nil
				}
			}
		}
		t.Mix("rm", ref)
		if l == nil {
			before := snapshotMesh(m)
			_, st := m.RemoveTile(ref)
			refused++
			t.Count("refused_removes", 1)
			if !detour.StatusFailed(st) {
				t.Fatalf("removing the tile of reference 0x%x, which isn't in the mesh, succeeded", uint32(ref))
			}
			if s := snapshotMesh(m); s != before {
				t.Fatalf("a refused removal changed the mesh:\n%s\ninstead of\n%s", s, before)
			}
			return
		}
		data, st := m.RemoveTile(l.ref)
		if !detour.StatusSucceed(st) {
			t.Fatalf("removing tile 0x%x failed: 0x%x", uint32(l.ref), uint32(st))
		}
		if len(data) != len(l.data) || !bytes.Equal(data[:100], l.data[:100]) {
			t.Fatalf("the data handed back by the removal (%d bytes) isn't that of the tile (%d bytes)", len(data), len(l.data))
		}
		t.Count("removes", 1)
		it := d.slot(l.ref)
		delete(d.live, l.g)
		delete(d.bySlot, it)
		if d.forget[it] == nil {
			d.forget[it] = map[detour.TileRef]int{}
		}
		d.removed[it]++
		d.forget[it][l.ref] = d.removed[it]
		datas[l.g] = cloneBytes(data)
	}
	for op := 0; op < nops; op++ {
		g := w.Tiles[r.Intn(len(w.Tiles))]
		k := r.Intn(20)
		if wrap {
			k = []int{0, 12, 12, 0, 10}[r.Intn(5)]
			if r.Intn(200) == 0 {
				k = 6
			}
		}
		switch {
		case k < 6:
			add(g, datas[g], 0)
		case k < 9 && lastRefOf[g] != 0:
			add(g, datas[g], lastRefOf[g])
		case k == 9 && len(refs) > 0: // at the reference some other tile had, or out of range
			last := refs[r.Intn(len(refs))]
			if r.Intn(3) == 0 {
				last = m.TileRef(&m.Tiles[r.Intn(len(m.Tiles))])
			}
			add(g, datas[g], last)
		case k < 16 && d.live[g] != nil:
			remove(d.live[g].ref)
		case k < 18 && len(refs) > 0:
			remove(refs[r.Intn(len(refs))])
		case k == 18:
			// reference of a free slot, of a slot out of range, or zero
			switch r.Intn(3) {
			case 0:
				remove(0)
			case 1:
				i := uint32(r.Intn(len(m.Tiles)))
				if d.bySlot[i] == nil {
					remove(m.TileRef(&m.Tiles[i]))
				}
			case 2:
				ref := detour.TileRef(r.Uint32())
				if d.slot(ref) >= d.maxT {
					remove(ref)
				}
			}
		case k == 19: // bad data
			bad := cloneBytes(datas[g])
			switch r.Intn(3) {
			case 0:
				bad[r.Intn(4)] ^= byte(1 + r.Intn(255))
			case 1:
				bad[4+r.Intn(4)] ^= byte(1 + r.Intn(255))
			case 2:
				bad = bad[:r.Intn(len(bad))]
			}
			before := snapshotMesh(m)
			st, _ := m.AddTile(bad, 0)
			refused++
			t.Count("refused_adds", 1)
			if !detour.StatusFailed(st) {
				t.Fatalf("adding damaged tile data succeeded")
			}
			if s := snapshotMesh(m); s != before {
				t.Fatalf("a refused addition changed the mesh")
			}
		}
		if !wrap || op%50 == 0 {
			d.checkAll(r.Intn(8) == 0)
		}
		if r.Intn(2) == 0 {
			d.checkLocation(g.X+int32(r.Intn(2)), g.Y, 40)
			d.checkLocation(g.X, g.Y, int32(1+r.Intn(3)))
		}
		absent := true
		for h := range d.live {
			absent = absent && (h.X != g.X || h.Y != g.Y || h.Layer != g.Layer+7)
		}
		if absent && m.TileAt(g.X, g.Y, g.Layer+7) != nil || m.TileRefAt(g.X, g.Y, -1) != 0 {
			t.Fatalf("a tile was found in a layer without tile")
		}
	}
	d.checkAll(true)
	if reuses > 0 && refused > 0 {
		t.Nontrivial()
	}
	t.Desc("%s; capacity %d tiles; %d operations, %d slot reuses, %d refused", w.desc(), w.Params.MaxTiles, nops, reuses, refused)
}

// auditLinks checks the soundness of all the links of a mesh and returns
// whether a link pool is exhausted.
func auditLinks(t *T, m *detour.NavMesh) (exhausted bool, between int) {
	type key struct{ a, b detour.PolyRef }
	ground := map[key]bool{}
	for i := range m.Tiles {
		tile := &m.Tiles[i]
		if tile.Header == nil {
			continue
		}
		owner := make([]int, len(tile.Links))
		for k := range owner {
			owner[k] = -1
		}
		for ip := range tile.Polys {
			p := &tile.Polys[ip]
			n := 0
			for k := p.FirstLink; k != nullLink; k = tile.Links[k].Next {
				if int(k) >= len(tile.Links) {
					t.Fatalf("link index %d of polygon %d is out of the %d of the tile", k, ip, len(tile.Links))
				}
				if owner[k] >= 0 {
					t.Fatalf("link slot %d of tile %s is used by polygons %d and %d", k, refName(m, polyRef(m, tile, 0)), owner[k], ip)
				}
				owner[k] = ip
				n++
				l := &tile.Links[k]
				if !m.IsValidPolyRef(l.Ref) {
					t.Fatalf("polygon %s has a link to invalid reference 0x%x", refName(m, polyRef(m, tile, ip)), uint32(l.Ref))
				}
				var tt *detour.MeshTile
				var tp *detour.Poly
				m.TileAndPolyByRef(l.Ref, &tt, &tp)
				t.Count("links_checked", 1)
				if tt != tile {
					between++
					t.Count("links_between_tiles", 1)
				}
				if p.Type() == 1 || tp.Type() == 1 {
					t.Count("offmesh_links", 1)
					continue
				}
				if l.Edge >= p.VertCount {
					t.Fatalf("link of polygon %s at edge %d of %d", refName(m, polyRef(m, tile, ip)), l.Edge, p.VertCount)
				}
				ground[key{polyRef(m, tile, ip), l.Ref}] = true
			}
		}
		nfree := 0
		for k := tile.LinksFreeList; k != nullLink; k = tile.Links[k].Next {
			if int(k) >= len(tile.Links) {
				t.Fatalf("free link index %d out of %d", k, len(tile.Links))
			}
			if owner[k] >= 0 {
				t.Fatalf("link slot %d of tile %s is both free and used by polygon %d", k, refName(m, polyRef(m, tile, 0)), owner[k])
			}
			if owner[k] == -2 {
				t.Fatalf("the list of free links of tile %s is cyclic", refName(m, polyRef(m, tile, 0)))
			}
			owner[k] = -2
			nfree++
		}
		for k := range owner {
			if owner[k] == -1 {
				t.Fatalf("link slot %d of tile %s has leaked: neither free nor used", k, refName(m, polyRef(m, tile, 0)))
			}
		}
		if nfree == 0 {
			exhausted = true
		}
	}
	for k := range ground {
		if !ground[key{k.b, k.a}] {
			t.Fatalf("polygon %s is linked to %s, but not the other way around", refName(m, k.a), refName(m, k.b))
		}
	}
	return
}

func runD02(t *T) {
	r := t.R
	o := randOpt(r)
	if r.Intn(4) != 0 {
		o.TX, o.TY = 2+r.Intn(2), 2+r.Intn(2)
	}
	o.N = 1 + r.Intn(3)
	o.MissTiles = 0
	if r.Intn(2) == 0 {
		o.Offs = 2 + r.Intn(10)
	}
	if t.Idx%8 == 7 {
		o.tower(r)
		t.Count("towers", 1)
	}
	w := makeWorld(r, o)
	w.Params.MaxPolys += 20
	for _, g := range w.Tiles {
		g.create()
	}
	m := w.initMesh()
	live := map[*GTile]detour.TileRef{}
	last := map[*GTile]detour.TileRef{}
	nops := 20 + r.Intn(40)
	exh := false
	crossSeen, removedCross := 0, 0
	for op := 0; op < nops; op++ {
		g := w.Tiles[r.Intn(len(w.Tiles))]
		fill := op < len(w.Tiles) && r.Intn(3) != 0
		if fill {
			g = w.Tiles[op]
		}
		t.Count("operations", 1)
		if ref, ok := live[g]; ok {
			if fill {
				continue
			}
			data, st := m.RemoveTile(ref)
			if detour.StatusFailed(st) {
				t.Fatalf("removal failed: 0x%x", uint32(st))
			}
			if r.Intn(2) == 0 {
				g.Data = cloneBytes(data)
			}
			delete(live, g)
			if crossSeen > 0 {
				removedCross++
			}
		} else {
			var lr detour.TileRef
			if r.Intn(3) == 0 && last[g] != 0 {
				lr = last[g]
				free := true
				for _, x := range live {
					var s, it, it2, ip uint32
					m.DecodePolyID(detour.PolyRef(x), &s, &it, &ip)
					m.DecodePolyID(detour.PolyRef(lr), &s, &it2, &ip)
					if it == it2 {
						free = false
					}
				}
				if !free {
					lr = 0
				}
			}
			st, ref := m.AddTile(cloneBytes(g.Data), lr)
			if detour.StatusFailed(st) {
				t.Fatalf("addition of tile (%d,%d,%d) failed: 0x%x", g.X, g.Y, g.Layer, uint32(st))
			}
			live[g] = ref
			last[g] = ref
		}
		e, between := auditLinks(t, m)
		exh = exh || e
		crossSeen = between
		if exh {
			t.Count("pool_exhausted", 1)
			continue
		}
		if r.Intn(3) == 0 || op == nops-1 {
			f := w.initMesh()
			var gs []*GTile
			for _, g := range w.Tiles {
				if _, ok := live[g]; ok {
					gs = append(gs, g)
				}
			}
			r.Shuffle(len(gs), func(i, j int) { gs[i], gs[j] = gs[j], gs[i] })
			for _, g := range gs {
				if st, _ := f.AddTile(cloneBytes(g.Data), 0); detour.StatusFailed(st) {
					t.Fatalf("addition to the fresh mesh failed: 0x%x", uint32(st))
				}
				if e, _ := auditLinks(t, f); e {
					exh = true
				}
			}
			if exh {
				continue
			}
			a, b := snapshotLinks(m), snapshotLinks(f)
			t.Count("history_comparisons", 1)
			if s := diffStrings(a, b); s != "" {
				t.Fatalf("the links after a history of %d operations differ from those of a mesh loaded at once (- history, + fresh):\n%s", op+1, s)
			}
			t.State("link_graphs", a)
			t.Mix(len(a), a)
		}
	}
	if crossSeen > 0 && removedCross > 0 {
		t.Nontrivial()
	}
	t.Desc("%s; %d operations, %d links between tiles at the end", w.desc(), nops, crossSeen)
}

func runD03(t *T) {
	r := t.R
	var mt, mp uint32
	if t.Idx < 300 {
		// all pairs of bit lengths near the limit, at, below and above powers of two
		tb := uint(t.Idx % 15)
		sum := 20 + t.Idx/15%10
		pb := sum - int(tb)
		mt = 1 << tb
		mp = 1 << uint(pb)
		switch t.Idx % 3 {
		case 1:
			mt++
		case 2:
			mp += 1
		}
	} else {
		mt = uint32(1 + r.Intn(1<<uint(1+r.Intn(14))))
		mp = uint32(1 + r.Intn(1<<uint(1+r.Intn(22))))
	}
	tb, pb := bits.Len32(mt-1), bits.Len32(mp-1)
	t.Mix(mt, mp)
	t.Desc("%d tiles, %d polygons: %d+%d bits", mt, mp, tb, pb)
	var m detour.NavMesh
	params := detour.NavMeshParams{TileWidth: 10, TileHeight: 10, MaxTiles: mt, MaxPolys: mp}
	st := m.Init(&params)
	if tb+pb > 24 {
		t.Count("configs_refused", 1)
		t.Nontrivial()
		if !detour.StatusFailed(st) {
			t.Fatalf("%d tiles of %d polygons, which leave %d bits for generations, were accepted", mt, mp, 32-tb-pb)
		}
		return
	}
	if detour.StatusFailed(st) {
		t.Fatalf("%d tiles of %d polygons were refused: 0x%x", mt, mp, uint32(st))
	}
	t.Count("configs_accepted", 1)
	t.Nontrivial()
	if int(m.MaxTiles) != int(mt) || len(m.Tiles) != int(mt) {
		t.Fatalf("%d tiles instead of %d", m.MaxTiles, mt)
	}
	sb := 32 - tb - pb
	if sb > 31 {
		sb = 31
	}
	its := []uint32{0, 1, mt / 2, mt - 1, uint32(r.Intn(int(mt)))}
	ips := []uint32{0, 1, mp / 2, mp - 1, uint32(r.Intn(int(mp)))}
	for b := uint(0); b < 24; b++ {
		its = append(its, 1<<b-1, 1<<b)
		ips = append(ips, 1<<b-1, 1<<b)
	}
	salts := []uint32{1, 2, 127, 128, 255, 1<<uint(sb) - 1, 1 << uint(sb-1)}
	seen := map[detour.PolyRef][3]uint32{}
	for _, it := range its {
		if it >= mt {
			continue
		}
		tile := &m.Tiles[it]
		old := tile.Salt
		for _, salt := range salts {
			tile.Salt = salt
			base := m.TileRef(tile)
			for _, ip := range ips {
				if ip >= mp {
					continue
				}
				ref := detour.PolyRef(base) | detour.PolyRef(ip)
				var s, i, p uint32
				m.DecodePolyID(ref, &s, &i, &p)
				t.Count("refs_decomposed", 1)
				if s != salt || i != it || p != ip {
					t.Fatalf("reference 0x%x of generation %d, tile %d, polygon %d decomposes into %d, %d, %d", uint32(ref), salt, it, ip, s, i, p)
				}
				k := [3]uint32{salt, it, ip}
				if o, ok := seen[ref]; ok && o != k {
					t.Fatalf("reference 0x%x stands for both %v and %v", uint32(ref), o, k)
				}
				if ref == 0 {
					t.Fatalf("the reference of %v is zero", k)
				}
				seen[ref] = k
			}
		}
		tile.Salt = old
	}

	// Real tiles: at the last slot, at a random one, with as many polygons
	// as can be addressed.
	o := randOpt(r)
	o.TX, o.TY, o.Layers, o.MissTiles, o.Block, o.Offs = 2, 1, 0, 0, 0, 0
	o.N = 1 + r.Intn(2)
	o.Merge = 0
	w := makeWorld(r, o)
	live := map[detour.PolyRef]bool{}
	var bases []detour.PolyRef
	for i, g := range w.Tiles {
		g.create()
		it := mt - 1
		if i == 1 {
			if mt == 1 {
				break
			}
			it = uint32(r.Intn(int(mt - 1)))
		}
		np := uint32(len(g.Polys))
		slot := &m.Tiles[it]
		st, ref := m.AddTile(cloneBytes(g.Data), m.TileRef(slot))
		if np > 1<<uint(pb) {
			t.Count("tiles_refused", 1)
			if !detour.StatusFailed(st) {
				t.Fatalf("a tile with %d polygons was accepted though references address %d", np, 1<<uint(pb))
			}
			continue
		}
		if np > mp {
			// more than announced, but they can be addressed: either is fine
			if detour.StatusFailed(st) {
				continue
			}
		}
		if detour.StatusFailed(st) {
			t.Fatalf("a tile with %d polygons was refused at slot %d: 0x%x", np, it, uint32(st))
		}
		t.Count("tiles_placed", 1)
		for ip := uint32(0); ip < np; ip++ {
			pr := detour.PolyRef(ref) | detour.PolyRef(ip)
			live[pr] = true
			var tl *detour.MeshTile
			var p *detour.Poly
			if st := m.TileAndPolyByRef(pr, &tl, &p); detour.StatusFailed(st) || tl != slot || p != &slot.Polys[ip] {
				t.Fatalf("polygon %d of the tile in slot %d doesn't resolve (0x%x)", ip, it, uint32(pr))
			}
			var tl2 *detour.MeshTile
			var p2 *detour.Poly
			m.TileAndPolyByRefUnsafe(pr, &tl2, &p2)
			if tl2 != tl || p2 != p {
				t.Fatalf("polygon %d resolves differently without checks", ip)
			}
		}
		bases = append(bases, detour.PolyRef(ref))
	}
	if len(live) != 0 {
		n := 0
		for ref := range live {
			for b := uint(0); b < 32; b++ {
				x := ref ^ 1<<b
				n++
				if v := m.IsValidPolyRef(x); v != live[x] {
					t.Fatalf("validity of reference 0x%x: %v", uint32(x), v)
				}
				var tl *detour.MeshTile
				var p *detour.Poly
				if st := m.TileAndPolyByRef(x, &tl, &p); detour.StatusFailed(st) == live[x] {
					t.Fatalf("resolution of reference 0x%x: 0x%x", uint32(x), uint32(st))
				}
			}
			if n > 4000 {
				break
			}
		}
		for k := 0; k < 500; k++ {
			x := detour.PolyRef(r.Uint32())
			if k%2 == 0 {
				x = bases[r.Intn(len(bases))] + detour.PolyRef(r.Intn(1<<uint(pb)+2))
			}
			n++
			if v := m.IsValidPolyRef(x); v != live[x] {
				t.Fatalf("validity of reference 0x%x: %v", uint32(x), v)
			}
		}
		t.Count("arbitrary_refs", n)
	}
}
