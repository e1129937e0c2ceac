package main

// S04: areas marked by convex volumes reach the built meshes.

import (
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
)

func init() {
	register(&Prop{ID: "S04", Quick: 2000, Thorough: 40000,
		Rule:  "case i builds a scene without and with 1 to 4 random convex volumes (areas of all kinds, any height range), as a single tile or as tiles; each polygon is sampled once per cell, and places whose surroundings are all within, or all out of, the same volumes must have the area of the last of them (or no polygon, if it's none); non-trivial when places of marked areas were found",
		MinEv: []string{"places of marked areas", "places of unmarked ground", "places cut out", "polygons with the right flags", "marked places covered", "places joined across areas", "tiled builds", "overlapping volumes"},
		Assume: []string{
			"Places closer to the outline of a volume than contours may be off it when simplified, or with heights around the limits of a volume, aren't judged.",
		},
		Run: runS04})
}

// at tells if a place is surely inside (1) or surely outside (0) of a volume,
// or none (-1).
func (v *volume) at(x, z, lo, hi, margin, hmargin float64) int {
	n := len(v.v) / 3
	in := false
	d := math.Inf(1)
	for i, j := 0, n-1; i < n; j, i = i, i+1 {
		ax, az, bx, bz := float64(v.v[3*j]), float64(v.v[3*j+2]), float64(v.v[3*i]), float64(v.v[3*i+2])
		if (az > z) != (bz > z) && x < (bx-ax)*(z-az)/(bz-az)+ax {
			in = !in
		}
		l := (bx-ax)*(bx-ax) + (bz-az)*(bz-az)
		u := 0.
		if l > 0 {
			u = clampF(((x-ax)*(bx-ax)+(z-az)*(bz-az))/l, 0, 1)
		}
		d = math.Min(d, math.Hypot(x-ax-u*(bx-ax), z-az-u*(bz-az)))
	}
	if d > margin && !in {
		return 0
	}
	if hi < v.lo-hmargin || lo > v.hi+hmargin {
		return 0
	}
	if d > margin && lo > v.lo+hmargin && hi < v.hi-hmargin {
		return 1
	}
	return -1
}

// areaAt is the area of a place (0: none, 63: unmarked), or -1 if that isn't sure.
func areaAt(vols []*volume, x, z, lo, hi, margin, hmargin float64) int {
	area := 63
	for _, v := range vols {
		switch v.at(x, z, lo, hi, margin, hmargin) {
		case -1:
			// Marked or not, it's gone already or the same.
			if area != 0 && int(v.area) != area {
				return -1
			}
		case 1:
			if area != 0 {
				area = int(v.area)
			}
		}
	}
	return area
}

// areaFlags are the flags of the polygons of an area.
func areaFlags(area int) uint16 {
	switch area {
	case 0, 2, 4, 63: // ground, road, grass
		return 1
	case 1: // water
		return 2
	case 3: // door
		return 5
	}
	return 0
}

func runS04(t *T) {
	r := t.R
	tiled := t.Idx%2 == 1
	size := 24 + r.Intn(30)
	if tiled {
		size = 36 + r.Intn(40)
	}
	sc := randScene(r, size)
	b := sc.B
	cs, ch := float64(b.CellSize), float64(b.CellHeight)
	var vols []*volume
	single := r.Intn(3) == 0 // one area to walk through
	n := 1 + r.Intn(4)
	if single {
		n = 1
	}
	for i := 0; i < n; i++ {
		v := randVolume(r, sc)
		if single {
			v.area = uint8(1 + r.Intn(4))
		}
		vols = append(vols, v)
	}
	obj := sc.obj(r)
	t.Mix(obj, b, n, tiled)
	build := func(vols []*volume) *detour.NavMesh {
		mb, err := loadBuilder(tiled, recast.NewBuildContext(false), obj)
		if err != nil {
			t.Fatalf("can't load the geometry: %v", err)
		}
		mb.SetSettings(b)
		for _, v := range vols {
			v.add(mb.InputGeom())
		}
		m, ok := mb.Build()
		if !ok {
			return nil
		}
		return m
	}
	m0, m1 := build(nil), build(vols)
	if m0 == nil {
		t.Count("scenes without room", 1)
		return
	}
	if tiled {
		t.Count("tiled builds", 1)
	}
	x0, z0, x1, z1 := sc.bounds()
	pad := 2 * cs
	ix0 := indexMesh(t, m0, x0-pad, z0-pad, x1+pad, z1+pad, 4*cs)
	var ix1 *meshIndex
	if m1 != nil {
		ix1 = indexMesh(t, m1, x0-pad, z0-pad, x1+pad, z1+pad, 4*cs)
	}
	maxErr := float64(b.EdgeMaxError)
	if b.EdgeMaxLen > 0 {
		maxErr *= 2
	}
	near := maxErr + 2                                     // cells a contour may be off
	far := math.Max(near+1, .6*float64(b.RegionMinSize)+1) // so much is never left out
	rough := float64(b.AgentMaxClimb) + 4*ch + 6*cs*math.Tan(math.Min(60, float64(b.AgentMaxSlope))*math.Pi/180)
	hm := 2.5 * ch

	// Flags of all polygons.
	if m1 != nil {
		for i := range ix1.polys {
			var tile *detour.MeshTile
			var p *detour.Poly
			if detour.StatusFailed(m1.TileAndPolyByRef(ix1.polys[i].ref, &tile, &p)) {
				t.Fatalf("polygon %x isn't in the mesh", uint32(ix1.polys[i].ref))
			}
			a := int(p.Area())
			if a == 63 {
				t.Fatalf("polygon %x has the area of unmarked surfaces, which isn't converted to that of the ground", uint32(ix1.polys[i].ref))
			}
			if p.Flags != areaFlags(a) {
				t.Fatalf("polygon %x of area %d has the flags 0x%x instead of 0x%x", uint32(ix1.polys[i].ref), a, p.Flags, areaFlags(a))
			}
			known := a == 0
			for _, v := range vols {
				known = known || int(v.area) == a
			}
			if !known {
				t.Fatalf("polygon %x has the area %d, which no volume has", uint32(ix1.polys[i].ref), a)
			}
			t.Count("polygons with the right flags", 1)
		}
	}
	// around tells the area of all places around, -1 if that isn't sure.
	around := func(x, z, lo, hi, d float64) int {
		a := -2
		k := int(math.Ceil(d))
		for j := -k; j <= k; j++ {
			for i := -k; i <= k; i++ {
				if float64(i*i+j*j) > d*d {
					continue
				}
				e := areaAt(vols, x+float64(i)*cs, z+float64(j)*cs, lo, hi, .75*cs, hm)
				if a == -2 {
					a = e
				}
				if e < 0 || e != a {
					return -1
				}
			}
		}
		return a
	}
	overlap := 0
	type place struct {
		x, z   float64
		h0, h1 hit
	}
	var places []place
	for gz := z0 + cs/2; gz < z1; gz += cs {
		for gx := x0 + cs/2; gx < x1; gx += cs {
			px, pz := gx+(r.Float64()-.5)*.8*cs, gz+(r.Float64()-.5)*.8*cs
			var hits1 []hit
			if ix1 != nil {
				hits1 = ix1.at(t, px, pz)
			}
			// What's there has the right area.
			for _, h := range hits1 {
				p := &ix1.polys[h.id]
				e := around(px, pz, math.Min(p.lo, h.y)-rough, math.Max(p.hi, h.y)+rough, near)
				if e < 0 {
					continue
				}
				if e == 0 {
					t.Fatalf("there's a polygon at (%g, %g, %g), which a volume cuts out, for %g cells around", px, h.y, pz, near)
				}
				var tile *detour.MeshTile
				var poly *detour.Poly
				m1.TileAndPolyByRef(p.ref, &tile, &poly)
				if int(poly.Area()) != e%63 {
					t.Fatalf("polygon %x at (%g, %g, %g) has the area %d, it should have %d, as for %g cells around", uint32(p.ref), px, h.y, pz, poly.Area(), e%63, near)
				}
				if e == 63 {
					t.Count("places of unmarked ground", 1)
				} else {
					t.Count("places of marked areas", 1)
					t.Nontrivial()
					k := 0
					for _, v := range vols {
						if v.at(px, pz, h.y, h.y, 0, 0) == 1 {
							k++
						}
					}
					if k > 1 {
						overlap++
					}
				}
			}
			// What was there still is, or was cut out.
			for _, h := range ix0.at(t, px, pz) {
				p := &ix0.polys[h.id]
				lo, hi := math.Min(p.lo, h.y)-rough, math.Max(p.hi, h.y)+rough
				e := around(px, pz, lo, hi, far)
				if e < 0 {
					continue
				}
				covered := true
				for k := 0; k < 12 && covered; k++ {
					a := float64(k) * math.Pi / 6
					for _, f := range []float64{1, .5} {
						ok := false
						for _, g := range ix0.at(t, px+f*far*cs*math.Cos(a), pz+f*far*cs*math.Sin(a)) {
							ok = ok || math.Abs(g.y-h.y) < rough
						}
						covered = covered && ok
					}
				}
				if !covered {
					continue
				}
				if e == 0 {
					t.Count("places cut out", 1)
					continue // polygons there were looked for above
				}
				found := false
				for _, g := range hits1 {
					q := &ix1.polys[g.id]
					if math.Abs(g.y-h.y) < rough || q.off(h.y) < rough {
						found = true
						if single && len(hits1) == 1 && len(ix0.at(t, px, pz)) == 1 {
							places = append(places, place{px, pz, h, g})
						}
					}
				}
				if !found {
					t.Fatalf("no polygon at (%g, %g, %g) with volumes, where all is of area %d for %g cells around", px, h.y, pz, e, far)
				}
				t.Count("marked places covered", 1)
			}
		}
	}
	t.Count("overlapping volumes", overlap)
	for k := 0; k < 40 && len(places) > 1; k++ {
		a, c := places[r.Intn(len(places))], places[r.Intn(len(places))]
		j0 := ix0.reach(t, a.h0.id, c.h0.id, V3{a.x, a.h0.y, a.z}, V3{c.x, c.h0.y, c.z})
		j1 := ix1.reach(t, a.h1.id, c.h1.id, V3{a.x, a.h1.y, a.z}, V3{c.x, c.h1.y, c.z})
		if j1 && !j0 {
			t.Fatalf("(%g, %g, %g) and (%g, %g, %g) are only joined with a volume", a.x, a.h0.y, a.z, c.x, c.h0.y, c.z)
		}
		if j0 && j1 {
			t.Count("places joined across areas", 1)
		}
		if j0 && !j1 {
			t.Fatalf("(%g, %g, %g) and (%g, %g, %g) aren't joined any more with a volume, that can be walked through", a.x, a.h0.y, a.z, c.x, c.h0.y, c.z)
		}
	}
	t.Desc("%s, %d volumes, tiled: %v, %d polygons", sc.kind, len(vols), tiled, len(ix0.polys))
}
