package main

// D18: queries, writes and builds at the same time, watched by the race
// detector (run.sh builds the harness with -race for this one), and compared
// with their results one after the other. Goroutines don't communicate while
// they run, so that nothing hides races.

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/tilemesh"
	"github.com/arl/gogeo/f32/d3"
)

func init() {
	register(&Prop{ID: "D18", Quick: 600, Thorough: 15000, Workers: 4, CPU: 600,
		Rule:  "case i runs 2 to 8 goroutines at a time under the race detector: queries of all kinds (sliced ones interrupted by yields and short sleeps), look-ups, creation of query objects, and writes of one shared mesh; builds of single tile and tiled meshes (also rebuilding tiles) from shared geometry with a context each; the steps of the library from regions to detail meshes; decoding of shared bytes; or all of it together. Results are compared with those obtained sequentially; non-trivial when operations of different goroutines overlapped in time; interleavings are identified by the order in which operations started and ended",
		MinEv: []string{"operations", "overlapping operations", "queries", "writes", "builds", "decodes", "look-ups", "library steps", "same operations at the same time", "mixed cases"},
		Assume: []string{
			"The race detector only sees the accesses of the executions run; it doesn't depend on the order in which they happened.",
		},
		Run: runD18})
}

// yieldFilter yields now and then.
type yieldFilter struct{ f detour.QueryFilter }

func (y yieldFilter) PassFilter(ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	if ref%5 == 0 {
		runtime.Gosched()
	}
	return y.f.PassFilter(ref, tile, poly)
}

func (y yieldFilter) Cost(pa, pb d3.Vec3,
	prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly,
	curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly,
	nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	if curRef%3 == 0 {
		runtime.Gosched()
	}
	return y.f.Cost(pa, pb, prevRef, prevTile, prevPoly, curRef, curTile, curPoly, nextRef, nextTile, nextPoly)
}

// op is an operation whose result is a text. Operations have no state but the
// query object they're given.
type op struct {
	kind string
	run  func(q *detour.NavMeshQuery) string
}

// lookUps uses everything in a mesh that doesn't need a query object.
func lookUps(m *detour.NavMesh, mp *MeshPolys, r *rand.Rand) string {
	var b strings.Builder
	for i := 0; i < 6; i++ {
		x := mp.L[r.Intn(len(mp.L))]
		p := x.randPoint(r)
		tx, ty := m.CalcTileLoc(p.f32())
		t := m.TileAt(tx, ty, 0)
		tiles := make([]*detour.MeshTile, 8)
		n := m.TilesAt(tx, ty, tiles, 8)
		ref := m.TileRefAt(x.Tile.Header.X, x.Tile.Header.Y, x.Tile.Header.Layer)
		fmt.Fprint(&b, tx, ty, t != nil, n, ref, m.TileByRef(ref) == x.Tile, m.TileRef(x.Tile), m.IsValidPolyRef(x.Ref), m.IsValidPolyRef(detour.PolyRef(r.Uint32())))
		var tile *detour.MeshTile
		var poly *detour.Poly
		st := m.TileAndPolyByRef(x.Ref, &tile, &poly)
		fmt.Fprint(&b, uint32(st), tile == x.Tile, poly == x.P)
		m.TileAndPolyByRefUnsafe(x.Ref, &tile, &poly)
		var salt, it, ip uint32
		m.DecodePolyID(x.Ref, &salt, &it, &ip)
		pt := d3.NewVec3()
		nr := m.FindNearestPolyInTile(x.Tile, p.f32(), d3.Vec3{1, 1, 1}, pt)
		fmt.Fprintln(&b, salt, it, ip, poly == x.P, nr, pt, m.Size())
	}
	return b.String()
}

func buildOp(sc *Scene, obj string, vols []*volume, tiled bool, log bool) op {
	return op{kind: "builds", run: func(*detour.NavMeshQuery) string {
		b, err := loadBuilder(tiled, recast.NewBuildContext(log), obj)
		if err != nil {
			return err.Error()
		}
		for _, v := range vols {
			v.add(b.InputGeom())
		}
		b.SetSettings(sc.B)
		m, ok := b.Build()
		if !ok {
			return "failed"
		}
		if tm, isTiled := b.(*tilemesh.TileMesh); isTiled {
			x0, z0, x1, z1 := sc.bounds()
			for i := 0; i < 2; i++ {
				p := d3.Vec3{float32(x0 + (x1-x0)*.3*float64(i+1)), 0, float32(z0 + (z1-z0)*.4)}
				tm.RemoveTile(p)
				tm.BuildTile(p)
			}
		}
		data, err := meshBytes(m)
		return fmt.Sprintf("%v %x", err, hashBytes(data))
	}}
}

// stepsOp builds contours, polygons and details of a field partitioned by
// hand, whose regions have holes the builders don't make.
func stepsOp(t *T) op {
	_, chf, _, _, _ := partition(t, 24)
	for chf.Width > 100 || chf.Height > 100 { // too slow under the race detector
		_, chf, _, _, _ = partition(t, 24)
	}
	r := t.R
	maxErr, maxLen, nvp := []float32{0, 1, 1.3}[r.Intn(3)], int32(r.Intn(20)), int32(3+r.Intn(4))
	dist, derr := chf.Cs*float32(1+r.Intn(6)), chf.Ch
	radius, minA, mergeA := int32(r.Intn(3)), int32(r.Intn(10)), int32(r.Intn(100))
	clone := func() *recast.CompactHeightfield {
		c := *chf
		c.Cells = append([]recast.CompactCell{}, c.Cells...)
		c.Spans = append([]recast.CompactSpan{}, c.Spans...)
		c.Dist = append([]uint16{}, c.Dist...)
		c.Areas = append([]uint8{}, c.Areas...)
		return &c
	}
	return op{"library steps", func(*detour.NavMeshQuery) string {
		ctx := recast.NewBuildContext(false)
		c := clone()
		s := fmt.Sprint(recast.ErodeWalkableArea(ctx, radius, c), recast.BuildRegionsMonotone(ctx, c, 0, minA, mergeA), c.Areas, c.Spans)
		var cset recast.ContourSet
		c = clone()
		s += fmt.Sprint(recast.BuildContours(ctx, c, maxErr, maxLen, &cset, 1), cset.NConts, cset.Conts)
		pm, ok := recast.BuildPolyMesh(ctx, &cset, nvp)
		if !ok {
			return s
		}
		s += fmt.Sprintf("%+v", *pm)
		if pm.NPolys > 0 {
			dm, ok := recast.BuildPolyMeshDetail(ctx, pm, c, dist, derr)
			if !ok {
				return s
			}
			s += fmt.Sprint(dm.Meshes, dm.Verts, dm.Tris)
		}
		return fmt.Sprintf("%x", hashBytes([]byte(s)))
	}}
}

// pillarScene is a floor with many obstacles, for regions with many holes.
func pillarScene(r *rand.Rand) *Scene {
	sc := randScene(r, 12)
	sc.S = nil
	cs := float64(sc.B.CellSize)
	sc.B.AgentRadius, sc.B.RegionMinSize, sc.B.RegionMergeSize = 0, 2, 150
	n := 3 + r.Intn(4)
	w := float64(n*7) * cs
	sc.box(0, 0, w, w, -1, 0)
	h := float64(sc.B.AgentMaxClimb + sc.B.AgentHeight)
	for i := 0; i < n*n; i++ {
		if r.Intn(4) == 0 {
			continue
		}
		x, z := (float64(i%n*7)+2)*cs, (float64(i/n*7)+2)*cs
		sc.box(x, z, x+float64(1+r.Intn(3))*cs, z+float64(1+r.Intn(3))*cs, 0, 2*h)
	}
	return sc
}

func runD18(t *T) {
	r := t.R
	kind := t.Idx % 4 // 0, 1: queries, 2: builds, 3: everything
	var pool []op
	var m *detour.NavMesh
	var mp *MeshPolys
	if kind != 2 {
		for m == nil || len(mp.L) == 0 {
			if r.Intn(3) == 0 {
				sc := randScene(r, 20+r.Intn(30))
				x, err := buildScene(sc, r, r.Intn(2) == 0, recast.NewBuildContext(false))
				if err != nil {
					continue
				}
				m = x
				mp = newMeshPolys(m)
			} else {
				_, mp = pathWorld(t, false)
				m = mp.M
			}
		}
		_, aux := detour.NewNavMeshQuery(m, 512)
		filters := make([]detour.QueryFilter, 3)
		for i := range filters {
			filters[i] = yieldFilter{randFilter(r, i%3).F}
			if i == 0 {
				filters[i] = detour.NewStandardQueryFilter()
			}
		}
		var specs []*qspec
		for i := 12 + r.Intn(20); i > 0; i-- {
			specs = append(specs, randQuery(r, mp, aux, filters[r.Intn(3)]))
		}
		for _, s := range specs {
			s := s
			pool = append(pool, op{"queries", func(q *detour.NavMeshQuery) string { return s.run(q, nil) }})
		}
		for i := 0; i < 2; i++ {
			seed := r.Int63()
			pool = append(pool, op{"look-ups", func(*detour.NavMeshQuery) string {
				return lookUps(m, mp, rand.New(rand.NewSource(seed)))
			}})
		}
		pool = append(pool, op{"writes", func(*detour.NavMeshQuery) string {
			b, err := meshBytes(m)
			return fmt.Sprint(err, hashBytes(b))
		}})
		dir := os.TempDir()
		base := fmt.Sprintf("d18-%d-%d-", os.Getpid(), t.Idx)
		pool = append(pool, op{"writes", func(*detour.NavMeshQuery) string {
			f, err := ioutil.TempFile(dir, base)
			if err != nil {
				panic(err)
			}
			f.Close()
			defer os.Remove(f.Name())
			if err := m.SaveToFile(f.Name()); err != nil {
				return err.Error()
			}
			b, err := ioutil.ReadFile(f.Name())
			return fmt.Sprint(err, hashBytes(b))
		}})
		s := specs[0]
		pool = append(pool, op{"query objects", func(*detour.NavMeshQuery) string {
			st, q := detour.NewNavMeshQuery(m, 64)
			return fmt.Sprint(uint32(st)) + s.run(q, nil)
		}})
		data, err := meshBytes(m)
		if err != nil {
			t.Fatalf("can't write the mesh: %v", err)
		}
		pool = append(pool, op{"decodes", func(*detour.NavMeshQuery) string {
			x, err := detour.Decode(bytes.NewReader(data))
			if err != nil {
				return err.Error()
			}
			b, err := meshBytes(x)
			return fmt.Sprint(err, hashBytes(b), hashBytes([]byte(snapshotMesh(x))))
		}})
	}
	if kind >= 2 {
		for i := r.Intn(4); i > 0; i-- {
			pool = append(pool, stepsOp(t))
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			sc := randScene(r, 12+r.Intn(24))
			if r.Intn(4) == 0 {
				sc = pillarScene(r)
				t.Count("scenes of pillars", 1)
			}
			obj := sc.obj(r)
			var vols []*volume
			if r.Intn(2) == 0 {
				vols = append(vols, randVolume(r, sc))
			}
			for j := 0; j < 2; j++ {
				pool = append(pool, buildOp(sc, obj, vols, r.Intn(2) == 0, r.Intn(2) == 0))
			}
		}
	}
	newQuery := func(n int32) *detour.NavMeshQuery {
		if m == nil {
			return nil
		}
		st, q := detour.NewNavMeshQuery(m, n)
		if detour.StatusFailed(st) {
			t.Fatalf("can't create a query object: 0x%x", uint32(st))
		}
		return q
	}

	// One after the other.
	nodes := int32([]int{64, 512, 2048}[r.Intn(3)])
	q := newQuery(nodes)
	want := make([]string, len(pool))
	for i, o := range pool {
		want[i] = o.run(q)
	}
	before := ""
	if m != nil {
		before = snapshotMesh(m)
	}

	// All together.
	G := 2 + r.Intn(7)
	type event struct {
		at  int64
		g   int
		end bool
		k   int
	}
	type work struct {
		ops    []int
		sleeps []int
		bad    string
		events []event
		q      *detour.NavMeshQuery
	}
	ws := make([]*work, G)
	same := r.Intn(3) == 0
	mainSeq := r.Perm(len(pool))
	n := 10 + r.Intn(30)
	if kind == 2 {
		n = 2 + r.Intn(3)
	}
	for g := range ws {
		w := &work{q: newQuery(nodes)}
		for k := 0; k < n; k++ {
			i := r.Intn(len(pool))
			if same {
				i = mainSeq[k%len(mainSeq)]
			}
			if pool[i].kind == "builds" && kind == 3 && r.Intn(3) > 0 && !same {
				i = r.Intn(len(pool))
			}
			w.ops = append(w.ops, i)
			w.sleeps = append(w.sleeps, r.Intn(12))
		}
		ws[g] = w
	}
	start := make(chan bool)
	var wg sync.WaitGroup
	t0 := time.Now()
	for g, w := range ws {
		wg.Add(1)
		go func(g int, w *work) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					w.bad = fmt.Sprintf("panic: %v", x)
				}
			}()
			<-start
			for k, i := range w.ops {
				switch s := w.sleeps[k]; {
				case s == 0:
					time.Sleep(time.Duration(20+g*7) * time.Microsecond)
				case s < 4:
					runtime.Gosched()
				}
				w.events = append(w.events, event{int64(time.Since(t0)), g, false, i})
				got := pool[i].run(w.q)
				w.events = append(w.events, event{int64(time.Since(t0)), g, true, i})
				if got != want[i] {
					w.bad = fmt.Sprintf("%s: alone\n%s\nwith %d other goroutines\n%s", pool[i].kind, tailStr(want[i], 600), G-1, tailStr(got, 600))
					return
				}
			}
		}(g, w)
	}
	close(start)
	wg.Wait()
	var all []event
	for g, w := range ws {
		if w.bad != "" {
			t.Fatalf("goroutine %d: %s", g, w.bad)
		}
		all = append(all, w.events...)
	}
	if m != nil && snapshotMesh(m) != before {
		t.Fatalf("the mesh was modified by queries")
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].at < all[j].at })
	var order []int
	live, overlap, sameTime := map[int]int{}, 0, 0
	for _, e := range all {
		o := e.g * 2
		if e.end {
			o++
			delete(live, e.g)
		} else {
			if len(live) > 0 {
				overlap++
			}
			for _, k := range live {
				if pool[k].kind == pool[e.k].kind {
					sameTime++
					break
				}
			}
			live[e.g] = e.k
			t.Count(pool[e.k].kind, 1)
			t.Count("operations", 1)
		}
		order = append(order, o)
	}
	t.Count("overlapping operations", overlap)
	t.Count("same operations at the same time", sameTime)
	if kind == 3 {
		t.Count("mixed cases", 1)
	}
	t.State("interleavings", order)
	t.Max("goroutines", float64(G))
	t.Mix(want, kind, G)
	t.Desc("%d goroutines, %d operations each of %d, kind %d", G, n, len(pool), kind)
	if overlap > 0 {
		t.Nontrivial()
	}
}
