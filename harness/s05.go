package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
)

// S05: builders take every step, with the settings converted to cells.

func init() {
	register(&Prop{ID: "S05", Quick: 5000, Thorough: 60000,
		Rule:   "a case builds a random scene, with settings at random (also ones at which roundings matter, or the builder's own defaults) and volumes, as one mesh or in tiles, and compares the serialized mesh with the one got by calling the library's steps one after another with settings converted to cells; non-trivial if there is a mesh",
		MinEv:  []string{"solo meshes compared", "tiled meshes compared", "tiles compared", "tiles without surface", "builds that fail alike", "default settings", "no detail sampling", "volumes marked", "builders used again", "builds without geometry", "unusable settings refused", "fields of islands", "tiles that fail"},
		Assume: []string{"The steps themselves are judged by R01 to R16 and D04 to D06; this property is about the settings they get."},
		Run:    runS05})
}

// refConfig converts settings to cells.
type refConfig struct {
	b                      recast.BuildSettings
	height, climb, radius  int32
	edgeLen                int32
	minRegion, mergeRegion int32
	nvp                    int32
	sampleDist, sampleErr  float32
}

func newRefConfig(b recast.BuildSettings) *refConfig {
	c := &refConfig{b: b}
	c.height = int32(math.Ceil(float64(b.AgentHeight / b.CellHeight)))
	c.climb = int32(math.Floor(float64(b.AgentMaxClimb / b.CellHeight)))
	c.radius = int32(math.Ceil(float64(b.AgentRadius / b.CellSize)))
	c.edgeLen = int32(b.EdgeMaxLen / b.CellSize)
	c.minRegion = int32(b.RegionMinSize * b.RegionMinSize)
	c.mergeRegion = int32(b.RegionMergeSize * b.RegionMergeSize)
	c.nvp = int32(b.VertsPerPoly)
	if b.DetailSampleDist >= .9 {
		c.sampleDist = b.CellSize * b.DetailSampleDist
	}
	c.sampleErr = b.CellHeight * b.DetailSampleMaxError
	return c
}

// refTile makes the data of a tile with the steps of the library; nil if it has
// no surface, or false if a step fails. Triangles come in lists.
func refTile(t *T, c *refConfig, g *recast.InputGeom, lists [][]int32, bmin, bmax [3]float32, w, h, border, tx, ty int32) ([]byte, bool) {
	b := &c.b
	ctx := recast.NewBuildContext(false)
	verts, nverts := g.Mesh().Verts(), g.Mesh().VertCount()
	hf := recast.NewHeightfield(w, h, bmin[:], bmax[:], b.CellSize, b.CellHeight)
	for _, l := range lists {
		n := int32(len(l) / 3)
		areas := make([]uint8, n)
		recast.MarkWalkableTriangles(ctx, b.AgentMaxSlope, verts, nverts, l, n, areas)
		if !recast.RasterizeTriangles(ctx, verts, nverts, l, areas, n, hf, c.climb) {
			t.Fatalf("rasterization failed")
		}
	}
	recast.FilterLowHangingWalkableObstacles(ctx, c.climb, hf)
	recast.FilterLedgeSpans(ctx, c.height, c.climb, hf)
	recast.FilterWalkableLowHeightSpans(ctx, c.height, hf)
	chf := &recast.CompactHeightfield{}
	if !recast.BuildCompactHeightfield(ctx, c.height, c.climb, hf, chf) {
		return nil, false
	}
	if !recast.ErodeWalkableArea(ctx, c.radius, chf) {
		return nil, false
	}
	for _, v := range g.ConvexVolumes()[:g.ConvexVolumesCount()] {
		recast.MarkConvexPolyArea(ctx, v.Verts[:3*v.NVerts], v.NVerts, v.HMin, v.HMax, uint8(v.Area), chf)
		t.Count("volumes marked", 1)
	}
	if !recast.BuildRegionsMonotone(ctx, chf, border, c.minRegion, c.mergeRegion) {
		return nil, false
	}
	cset := &recast.ContourSet{}
	if !recast.BuildContours(ctx, chf, b.EdgeMaxError, c.edgeLen, cset, recast.ContourTessWallEdges) {
		return nil, false
	}
	if cset.NConts == 0 {
		return nil, true
	}
	pm, ok := recast.BuildPolyMesh(ctx, cset, c.nvp)
	if !ok {
		return nil, false
	}
	if pm.NPolys == 0 {
		return nil, true
	}
	dm, ok := recast.BuildPolyMeshDetail(ctx, pm, chf, c.sampleDist, c.sampleErr)
	if !ok {
		return nil, false
	}
	for i := range pm.Flags[:pm.NPolys] {
		if pm.Areas[i] == recast.WalkableArea {
			pm.Areas[i] = sample.PolyAreaGround
		}
		switch pm.Areas[i] {
		case sample.PolyAreaGround, sample.PolyAreaGrass, sample.PolyAreaRoad:
			pm.Flags[i] = sample.PolyFlagsWalk
		case sample.PolyAreaWater:
			pm.Flags[i] = sample.PolyFlagsSwim
		case sample.PolyAreaDoor:
			pm.Flags[i] = sample.PolyFlagsWalk | sample.PolyFlagsDoor
		}
	}
	p := detour.NavMeshCreateParams{
		Verts: pm.Verts, VertCount: pm.NVerts, Polys: pm.Polys, PolyAreas: pm.Areas, PolyFlags: pm.Flags, PolyCount: pm.NPolys, Nvp: pm.Nvp,
		DetailMeshes: dm.Meshes, DetailVerts: dm.Verts, DetailVertsCount: dm.NVerts, DetailTris: dm.Tris, DetailTriCount: dm.NTris,
		WalkableHeight: b.AgentHeight, WalkableRadius: b.AgentRadius, WalkableClimb: b.AgentMaxClimb,
		TileX: tx, TileY: ty, BMin: pm.BMin, BMax: pm.BMax, Cs: b.CellSize, Ch: b.CellHeight, BuildBvTree: true,
	}
	data, err := detour.CreateNavMeshData(&p)
	if err != nil {
		return nil, false
	}
	return data, true
}

// refBuild makes the mesh a builder is expected to make.
func refBuild(t *T, b recast.BuildSettings, g *recast.InputGeom, tiled bool) *detour.NavMesh {
	c := newRefConfig(b)
	var bmin, bmax [3]float32
	copy(bmin[:], g.NavMeshBoundsMin())
	copy(bmax[:], g.NavMeshBoundsMax())
	w, h := recast.CalcGridSize(bmin[:], bmax[:], b.CellSize)
	m := &detour.NavMesh{}
	if !tiled {
		tris := g.Mesh().Tris()
		data, _ := refTile(t, c, g, [][]int32{tris}, bmin, bmax, w, h, 0, 0, 0)
		if data == nil {
			return nil
		}
		if detour.StatusFailed(m.InitForSingleTile(data, 0)) {
			t.Fatalf("the data made with the library's steps is refused")
		}
		return m
	}
	ts := int32(b.TileSize)
	tw, th := (w+ts-1)/ts, (h+ts-1)/ts
	bits := uint32(0)
	for 1<<bits < int(tw*th) && bits < 14 {
		bits++
	}
	size := float32(ts) * b.CellSize
	par := detour.NavMeshParams{Orig: bmin, TileWidth: size, TileHeight: size, MaxTiles: 1 << bits, MaxPolys: 1 << (22 - bits)}
	if detour.StatusFailed(m.Init(&par)) {
		return nil
	}
	cm := g.ChunkyMesh()
	border := c.radius + 3
	for y := int32(0); y < th; y++ {
		for x := int32(0); x < tw; x++ {
			lo := [3]float32{bmin[0] + float32(x)*size, bmin[1], bmin[2] + float32(y)*size}
			hi := [3]float32{bmin[0] + float32(x+1)*size, bmax[1], bmin[2] + float32(y+1)*size}
			for a := 0; a < 3; a += 2 {
				lo[a] -= float32(border) * b.CellSize
				hi[a] += float32(border) * b.CellSize
			}
			var lists [][]int32
			for _, n := range cm.Nodes[:cm.Nnodes] {
				if n.I >= 0 && n.BMin[0] <= hi[0] && n.BMax[0] >= lo[0] && n.BMin[1] <= hi[2] && n.BMax[1] >= lo[2] {
					lists = append(lists, cm.Tris[n.I*3:(n.I+n.N)*3])
				}
			}
			var data []byte
			if len(lists) > 0 {
				ok := false
				if data, ok = refTile(t, c, g, lists, lo, hi, ts+2*border, ts+2*border, border, x, y); !ok {
					t.Count("tiles that fail", 1)
					return nil
				}
			}
			if data == nil {
				t.Count("tiles without surface", 1)
				continue
			}
			t.Count("tiles compared", 1)
			if st, _ := m.AddTile(data, 0); detour.StatusFailed(st) {
				t.Fatalf("the tile %d,%d made with the library's steps is refused", x, y)
			}
		}
	}
	return m
}

// wildSettings changes some settings to values at which roundings matter.
func wildSettings(r *rand.Rand, b *recast.BuildSettings) {
	f := r.Float32
	for n := r.Intn(8); n > 0; n-- {
		switch r.Intn(13) {
		case 0:
			b.AgentHeight = b.CellHeight * float32(3+r.Intn(12))
		case 1:
			b.AgentHeight = b.CellHeight * (2 + 12*f())
		case 2:
			b.AgentMaxClimb = b.CellHeight * float32(r.Intn(8))
		case 3:
			b.AgentMaxClimb = b.CellHeight * 8 * f()
		case 4:
			b.AgentRadius = b.CellSize * float32(r.Intn(6))
		case 5:
			b.AgentRadius = b.CellSize * 4 * f()
		case 6:
			b.AgentMaxSlope = []float32{0, 10, 44.9, 45, 45.1, 75, 89}[r.Intn(7)]
		case 7:
			b.RegionMinSize, b.RegionMergeSize = 12*f(), 30*f()
		case 8:
			b.EdgeMaxLen = []float32{0, b.CellSize * 30 * f(), b.CellSize * float32(r.Intn(20))}[r.Intn(3)]
		case 9:
			b.EdgeMaxError = 3 * f()
		case 10:
			b.DetailSampleDist = []float32{0, .5, .89, .9, 1, 2.5, 8 * f()}[r.Intn(7)]
		case 11:
			b.DetailSampleMaxError = 3 * f()
		case 12:
			b.VertsPerPoly = 3 + 3.9*f()
			b.TileSize = 10 + 40*f()
		}
	}
}

// badGeometry builds with a geometry that can't be loaded.
func badGeometry(t *T, tiled bool, b recast.BuildSettings, obj string) {
	r := t.R
	mb, err := loadBuilder(tiled, recast.NewBuildContext(false), obj)
	if err != nil {
		t.Fatalf("can't load the geometry: %v", err)
	}
	mb.SetSettings(b)
	if r.Intn(2) == 0 {
		mb.Build()
	}
	bad := []string{"", "v 1 2 3\nv 1 2 4\nv 3 2 1\n", "v 1 2 3\nf 1 2 3\n", "v 1 2 x\n", obj + "f 1 2 1000000\n", "f 1 1 1\n"}[r.Intn(6)]
	if reloadBuilder(mb, bad) == nil {
		t.Fatalf("a bad geometry was loaded")
	}
	t.Mix(obj, bad)
	if _, ok := mb.Build(); ok {
		t.Fatalf("a mesh was built though the geometry can't be loaded: %.50q", bad)
	}
	t.Count("builds without geometry", 1)
	t.Nontrivial()
}

// unusableSettings builds with settings with which there can't be a mesh.
func unusableSettings(t *T, tiled bool, sc *Scene) {
	r := t.R
	b, obj := sc.B, sc.obj(r)
	far := func(cells float32) float32 { // beyond the cells that can be counted
		return []float32{float32(nan()), float32(math.Inf(1)), float32(math.Inf(-1)), cells * (1<<31 + 1<<31*10*r.Float32()), -cells * (1<<31 + 1<<31*10*r.Float32())}[r.Intn(5)]
	}
	bad := func(l ...float32) float32 { return append(l, float32(nan()), float32(math.Inf(-1)))[r.Intn(len(l)+2)] }
	what := ""
	switch k := r.Intn(15); k {
	case 0:
		b.CellSize, what = bad(0, -b.CellSize), "cell size"
	case 1:
		b.CellHeight, what = bad(0, -b.CellHeight), "cell height"
	case 2:
		b.AgentRadius, what = bad(-b.CellSize, -.001), "radius"
	case 3:
		b.VertsPerPoly, what = []float32{0, 1, 2, 2.9, 7, 7.5, 12, -3}[r.Intn(8)], "vertices per polygon"
	case 4:
		b.AgentHeight, what = far(b.CellHeight), "height"
	case 5:
		b.AgentMaxClimb, what = far(b.CellHeight), "step height"
	case 6:
		b.AgentRadius, what = far(b.CellSize), "radius"
	case 7:
		b.EdgeMaxLen, what = far(b.CellSize), "edge length"
	case 8:
		b.RegionMinSize, what = []float32{46342, 1e6, 1e30, float32(math.Inf(1)), float32(nan())}[r.Intn(5)], "minimum region"
	case 9:
		b.RegionMergeSize, what = []float32{46342, 1e6, 1e30, float32(math.Inf(1)), float32(nan())}[r.Intn(5)], "merge region"
	case 10: // the product of width and height wraps around to a small number
		tiled, what = false, "cells of the geometry"
		b.CellSize, b.AgentRadius = 1, 1
		obj = fmt.Sprintf("v 0 0 0\nv 10 0 0\nv 0 0 10\nv %d 0 %d\nv %d 0 %[2]d\nv %[1]d 0 %[4]d\nf 1 3 2\nf 4 5 6\n", 65536+r.Intn(5), 65536+r.Intn(5), 65530, 65530)
	case 11: // wider than can be counted
		what = "width of the geometry"
		b.CellSize, b.AgentRadius = 1, 1
		obj = fmt.Sprintf("v 0 0 0\nv 10 0 0\nv 0 0 10\nv %d 0 20\nf 1 3 2\nf 1 3 4\n", int64(1<<31)*int64(1+r.Intn(100)))
	case 12:
		tiled, what = true, "cells of a tile"
		b.TileSize = float32(65536 + r.Intn(5) - 2*(int(math.Ceil(float64(b.AgentRadius/b.CellSize)))+3))
	case 14: // more tiles than can be counted
		tiled, what = true, "number of tiles"
		b.CellSize, b.AgentRadius, b.TileSize = 1, 1, float32(10+r.Intn(10))
		w := 950000 + r.Intn(1000000)
		obj = fmt.Sprintf("v 0 0 0\nv 10 0 0\nv 0 0 10\nv %d 0 %d\nv %d 0 %[2]d\nv %[1]d 0 %[4]d\nf 1 3 2\nf 4 5 6\n", w, w, w-6, w-6)
	case 13:
		tiled, what = true, "size of tiles"
		b.TileSize = []float32{0, .9, -1, float32(nan()), float32(math.Inf(1)), 1e6, 1e9, 1e30}[r.Intn(8)]
	}
	mb, err := loadBuilder(tiled, recast.NewBuildContext(false), obj)
	if err != nil {
		t.Fatalf("can't load the geometry: %v", err)
	}
	t.Mix(obj, b, tiled)
	t.Desc("unusable %s, tiled: %v, %+v", what, tiled, b)
	mb.SetSettings(b)
	if m, ok := mb.Build(); ok || m != nil {
		t.Fatalf("unusable %s: a mesh is built (tiled: %v) with the settings %+v", what, tiled, b)
	}
	t.Count("unusable settings refused", 1)
	t.Nontrivial()
}

// manyIslands is a field of islands of two cells, besides a floor.
// Beyond 16383 islands there are more vertices in a tile than can be numbered.
func manyIslands(r *rand.Rand, b *recast.BuildSettings) (obj string, islands int) {
	b.CellSize, b.CellHeight = 1, .5
	b.AgentHeight, b.AgentMaxClimb, b.AgentRadius = 2, 1, 0
	b.AgentMaxSlope = 45
	b.RegionMinSize, b.RegionMergeSize = 0, 0
	b.EdgeMaxLen, b.EdgeMaxError = 0, .25
	b.DetailSampleDist = 0
	b.TileSize = 740
	w := 110 + r.Intn(38)
	h := (16384 + []int{-300, -w, -1, w, 300}[r.Intn(5)]) / w
	var o bytes.Buffer
	n := 0
	quad := func(x0, z0, x1, z1 int) {
		fmt.Fprintf(&o, "v %d 0 %d\nv %d 0 %d\nv %d 0 %d\nv %d 0 %d\n", x0, z0, x0, z1, x1, z1, x1, z0)
		n += 4
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			quad(5*x, 4*y, 5*x+4, 4*y+3)
		}
	}
	quad(780, 10, 800, 30)
	for i := 1; i <= n; i += 4 {
		fmt.Fprintf(&o, "f %d %d %d\nf %d %d %d\n", i, i+1, i+2, i, i+2, i+3)
	}
	return o.String(), w * h
}

func runS05(t *T) {
	r := t.R
	tiled := t.Idx%3 == 0
	size := 20 + r.Intn(30)
	if tiled {
		size = 20 + r.Intn(60)
	}
	sc := randScene(r, size)
	wildSettings(r, &sc.B)
	obj := sc.obj(r)
	if t.Idx%25 == 4 {
		unusableSettings(t, tiled, sc)
		return
	}
	if t.Idx%25 == 3 {
		badGeometry(t, tiled, sc.B, obj)
		return
	}
	islands := 0
	if t.Idx%600 == 12 || t.Idx%1200 == 100 {
		sc.kind = "islands"
		obj, islands = manyIslands(r, &sc.B)
	}
	mb, err := loadBuilder(tiled, recast.NewBuildContext(false), obj)
	if err != nil {
		t.Fatalf("can't load the geometry: %v", err)
	}
	if islands == 0 && t.Idx%25 < 2 { // as the builder was made
		sc.B = solomesh.DefaultSettings()
		if tiled {
			sc.B = tilemesh.DefaultSettings()
		}
		if x0, z0, x1, z1 := sc.bounds(); (x1-x0)*(z1-z0) > 300*300*float64(sc.B.CellSize*sc.B.CellSize) {
			return
		}
		t.Count("default settings", 1)
	} else {
		mb.SetSettings(sc.B)
	}
	if sc.B.DetailSampleDist < .9 {
		t.Count("no detail sampling", 1)
	}
	if islands == 0 && t.Idx%4 == 2 { // a builder which was used before
		other := sc.B
		wildSettings(r, &other)
		wildSettings(r, &other)
		mb.SetSettings(other)
		if _, ok := mb.Build(); ok {
			t.Count("builders used again", 1)
		}
		mb.SetSettings(sc.B)
	}
	for n := r.Intn(4); islands == 0 && n > 0; n-- {
		randVolume(r, sc).add(mb.InputGeom())
	}
	t.Mix(obj, sc.B, tiled)
	t.Desc("%s, tiled: %v, %+v", sc.kind, tiled, sc.B)
	want := refBuild(t, sc.B, mb.InputGeom(), tiled)
	got, ok := mb.Build()
	if ok != (want != nil) {
		t.Fatalf("%s, tiled %v: the build returns %v, with the library's steps there's a mesh: %v (settings %+v)", sc.kind, tiled, ok, want != nil, sc.B)
	}
	if islands > 0 {
		t.Count("fields of islands", 1)
	}
	if !ok {
		t.Count("builds that fail alike", 1)
		return
	}
	wb, err1 := meshBytes(want)
	gb, err2 := meshBytes(got)
	if err1 != nil || err2 != nil {
		t.Fatalf("can't serialize: %v, %v", err1, err2)
	}
	if !bytes.Equal(wb, gb) {
		ws, gs := tileTexts(want), tileTexts(got)
		what := ""
		for k := range ws {
			if ws[k] != gs[k] {
				what += " " + firstDiff(ws[k], gs[k])
				break
			}
		}
		t.Fatalf("%s, tiled %v: the mesh of %d bytes (%d tiles) isn't the one of %d bytes (%d tiles) which the library's steps make (settings %+v)%s", sc.kind, tiled, len(gb), len(gs), len(wb), len(ws), sc.B, what)
	}
	t.Nontrivial()
	if tiled {
		t.Count("tiled meshes compared", 1)
	} else {
		t.Count("solo meshes compared", 1)
	}
}
