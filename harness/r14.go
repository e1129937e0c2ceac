package main

// R14: builds are deterministic, and leave their input alone.

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
)

func init() {
	register(&Prop{ID: "R14", Quick: 1500, Thorough: 30000,
		Rule:  "case i builds a random scene (solids of random sizes and settings, with convex volumes in half of the cases) as a single tile or as tiles, with a new builder and context; then again with logging and timers enabled, with the same builder (after builds with other settings, refused settings, and other geometry), with a shared context used up by other builds, and with builders of other types in between; non-trivial when the mesh has polygons",
		MinEv: []string{"builds compared", "builds with logs", "reused builders", "geometries unmodified", "refused builds in between", "builds with volumes", "tiled builds", "earlier meshes unmodified"},
		Run:   runR14})
}

// meshBuilder is what both builders have in common.
type meshBuilder interface {
	SetSettings(recast.BuildSettings)
	InputGeom() *recast.InputGeom
	Build() (*detour.NavMesh, bool)
}

func loadBuilder(tiled bool, ctx *recast.BuildContext, obj string) (meshBuilder, error) {
	if tiled {
		b := tilemesh.New(ctx)
		return b, b.LoadGeometry(strings.NewReader(obj))
	}
	b := solomesh.New(ctx)
	return b, b.LoadGeometry(strings.NewReader(obj))
}

func reloadBuilder(b meshBuilder, obj string) error {
	switch x := b.(type) {
	case *tilemesh.TileMesh:
		return x.LoadGeometry(strings.NewReader(obj))
	case *solomesh.SoloMesh:
		return x.LoadGeometry(strings.NewReader(obj))
	}
	return nil
}

func meshBytes(m *detour.NavMesh) ([]byte, error) {
	var b bytes.Buffer
	err := m.ToWriter(&b)
	return b.Bytes(), err
}

// volume is a convex volume of the input geometry.
type volume struct {
	v      []float32
	lo, hi float64
	area   uint8
}

func (v *volume) add(g *recast.InputGeom) {
	g.AddConvexVolume(v.v, float32(v.lo), float32(v.hi), v.area)
}

// randVolume makes a volume within the bounds of a scene.
func randVolume(r *rand.Rand, sc *Scene) *volume {
	x0, z0, x1, z1 := sc.bounds()
	y0, y1 := sc.S[0].lo, sc.S[0].lo
	for _, s := range sc.S {
		if s.lo < y0 {
			y0 = s.lo
		}
		for _, h := range []float64{s.h0, s.h1} {
			if h > y1 {
				y1 = h
			}
		}
	}
	cx, cz := x0+r.Float64()*(x1-x0), z0+r.Float64()*(z1-z0)
	size := (.1 + .6*r.Float64()) * (x1 - x0)
	p := convexPolygon(r, 3+r.Intn(5), cx, cz, size)
	v := &volume{}
	for _, q := range p {
		v.v = append(v.v, float32(q[0]), 0, float32(q[1]))
	}
	if r.Intn(3) > 0 {
		v.lo, v.hi = y0-10, y1+10
	} else {
		v.lo = y0 + r.Float64()*(y1-y0) - .5
		v.hi = v.lo + r.Float64()*(y1-y0+1)
	}
	v.area = []uint8{0, 1, 2, 3, 4, 5, 7, 20, 62, 63}[r.Intn(10)]
	return v
}

func geomText(g *recast.InputGeom) string {
	m := g.Mesh()
	c := g.ChunkyMesh()
	return fmt.Sprint(m.Verts(), m.Tris(), m.VertCount(), m.TriCount(), g.NavMeshBoundsMin(), g.NavMeshBoundsMax(),
		g.MeshBoundsMin(), g.MeshBoundsMax(), g.ConvexVolumesCount(), g.ConvexVolumes()[:g.ConvexVolumesCount()],
		g.OffMeshConnectionCount(), c.Nodes, c.Tris, c.MaxTrisPerChunk)
}

func runR14(t *T) {
	sc := randScene(t.R, 20+t.R.Intn(50))
	tiled := t.Idx%2 == 0
	other := randScene(t.R, 15+t.R.Intn(25))
	obj, obj2 := sc.obj(t.R), other.obj(t.R)
	var vols []*volume
	if t.R.Intn(2) == 0 {
		for i := 1 + t.R.Intn(4); i > 0; i-- {
			vols = append(vols, randVolume(t.R, sc))
		}
	}
	t.Mix(obj, sc.B, tiled)
	t.Desc("%s, tiled: %v, %d solids, %d volumes, %+v", sc.kind, tiled, len(sc.S), len(vols), sc.B)

	addVolumes := func(b meshBuilder) {
		for _, v := range vols {
			v.add(b.InputGeom())
		}
	}
	var want []byte
	wantOK := false
	first := true
	// build builds the scene, which always gives the same.
	build := func(b meshBuilder, what string) *detour.NavMesh {
		b.SetSettings(sc.B)
		before := geomText(b.InputGeom())
		m, ok := b.Build()
		if geomText(b.InputGeom()) != before {
			t.Fatalf("%s: the input geometry was modified by the build", what)
		}
		t.Count("geometries unmodified", 1)
		if first {
			wantOK, first = ok, false
		} else if ok != wantOK {
			t.Fatalf("%s: the build returned %v, it returned %v at first", what, ok, wantOK)
		}
		if !ok {
			if m != nil {
				t.Fatalf("%s: a build that failed gave a mesh", what)
			}
			return nil
		}
		got, err := meshBytes(m)
		if err != nil {
			t.Fatalf("%s: can't write the mesh: %v", what, err)
		}
		if want == nil {
			want = got
			for i := range m.Tiles {
				if h := m.Tiles[i].Header; h != nil && h.PolyCount > 0 {
					t.Nontrivial()
				}
			}
		} else if !bytes.Equal(got, want) {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			t.Fatalf("%s: the mesh differs from the first one built, %d bytes and %d, from byte %d", what, len(got), len(want), i)
		}
		t.Count("builds compared", 1)
		if tiled {
			t.Count("tiled builds", 1)
		}
		if len(vols) > 0 {
			t.Count("builds with volumes", 1)
		}
		return m
	}
	fresh := func(tiled bool, ctx *recast.BuildContext, obj string) meshBuilder {
		b, err := loadBuilder(tiled, ctx, obj)
		if err != nil {
			t.Fatalf("can't load the geometry: %v", err)
		}
		return b
	}
	otherBuild := func(tiled bool, ctx *recast.BuildContext) {
		b := fresh(tiled, ctx, obj2)
		b.SetSettings(other.B)
		b.Build()
	}

	ctx := recast.NewBuildContext(false)
	b0 := fresh(tiled, ctx, obj)
	addVolumes(b0)
	m0 := build(b0, "first build")

	// With a log, and timers.
	shared := recast.NewBuildContext(true)
	b1 := fresh(tiled, shared, obj)
	addVolumes(b1)
	build(b1, "build with logging and timers")
	if wantOK && shared.LogCount() == 0 {
		t.Fatalf("nothing was logged by a build")
	}
	t.Count("builds with logs", 1)

	for n := 2 + t.R.Intn(3); n > 0; n-- {
		switch t.R.Intn(6) {
		case 0:
			// The builder again.
			build(b0, "build by the same builder")
			t.Count("reused builders", 1)
		case 1:
			// The builder, after other settings.
			b1.SetSettings(other.B)
			keep, _ := b1.Build()
			var kept []byte
			if keep != nil {
				kept, _ = meshBytes(keep)
			}
			build(b1, "build by the same builder, after other settings")
			t.Count("reused builders", 1)
			if kept != nil {
				if again, _ := meshBytes(keep); !bytes.Equal(kept, again) {
					t.Fatalf("a mesh was modified by the next build")
				}
				t.Count("earlier meshes unmodified", 1)
			}
		case 2:
			// The builder, after refused settings.
			bad := sc.B
			switch t.R.Intn(4) {
			case 0:
				bad.CellSize = 0
			case 1:
				bad.CellHeight = -1
			case 2:
				bad.VertsPerPoly = 2
			case 3:
				bad.VertsPerPoly = 7
			}
			b0.SetSettings(bad)
			if _, ok := b0.Build(); ok {
				t.Fatalf("settings that can't be used were used: %+v", bad)
			}
			build(b0, "build by the same builder, after refused settings")
			t.Count("refused builds in between", 1)
		case 3:
			// The builder, after other geometry.
			if err := reloadBuilder(b0, obj2); err != nil {
				t.Fatalf("can't load the geometry: %v", err)
			}
			if t.R.Intn(2) == 0 {
				randVolume(t.R, other).add(b0.InputGeom())
			}
			b0.SetSettings(other.B)
			b0.Build()
			if err := reloadBuilder(b0, obj); err != nil {
				t.Fatalf("can't load the geometry: %v", err)
			}
			addVolumes(b0)
			build(b0, "build by the same builder, after other geometry")
			t.Count("reused builders", 1)
		case 4:
			// The context, after other builds.
			shared.EnableLog(t.R.Intn(2) == 0)
			shared.EnableTimer(t.R.Intn(2) == 0)
			otherBuild(t.R.Intn(2) == 0, shared)
			if t.R.Intn(2) == 0 {
				shared.ResetLog()
				shared.ResetTimers()
			}
			shared.DumpLog(ioutil.Discard, "log")
			b := fresh(tiled, shared, obj)
			addVolumes(b)
			build(b, "build with a used context")
			t.Count("reused contexts", 1)
		case 5:
			// With the log full.
			full := recast.NewBuildContext(true)
			for i := 0; i < 999+t.R.Intn(3); i++ {
				full.Progressf("message %d", i)
			}
			b := fresh(tiled, full, obj)
			addVolumes(b)
			build(b, "build with a full log")
			if full.LogCount() < 999 || full.LogText(998) != "PROG message 998" {
				t.Fatalf("messages of a full log were lost")
			}
			t.Count("full logs", 1)
		}
	}

	if m0 != nil {
		if again, _ := meshBytes(m0); !bytes.Equal(want, again) {
			t.Fatalf("the first mesh was modified by later builds")
		}
		t.Count("earlier meshes unmodified", 1)
	}
}

// convexPolygon makes a convex polygon around a place.
func convexPolygon(r *rand.Rand, n int, cx, cz, size float64) (p [][2]float64) {
	a := make([]float64, n)
	for i := range a {
		a[i] = (float64(i) + .8*r.Float64()) / float64(n) * 2 * math.Pi
	}
	sx, sz := size*(.3+.7*r.Float64()), size*(.3+.7*r.Float64())
	if r.Intn(3) == 0 {
		// along the axes
		return [][2]float64{{cx - sx, cz - sz}, {cx - sx, cz + sz}, {cx + sx, cz + sz}, {cx + sx, cz - sz}}
	}
	for _, x := range a {
		p = append(p, [2]float64{cx + sx*math.Cos(x), cz + sz*math.Sin(x)})
	}
	if r.Intn(2) == 0 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}
