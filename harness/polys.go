package main

import (
	"math"
	"math/rand"

	"github.com/arl/go-detour/detour"
)

// MPoly is a polygon of a mesh.
type MPoly struct {
	Ref  detour.PolyRef
	Tile *detour.MeshTile
	P    *detour.Poly
	IP   int
	V    []V3
	G    *GPoly // what it was made from, if known
}

// MeshPolys lists the polygons of a mesh.
type MeshPolys struct {
	M *detour.NavMesh
	L []*MPoly
	I map[detour.PolyRef]int
}

func newMeshPolys(m *detour.NavMesh) *MeshPolys {
	mp := &MeshPolys{M: m, I: map[detour.PolyRef]int{}}
	for i := range m.Tiles {
		tile := &m.Tiles[i]
		if tile.Header == nil {
			continue
		}
		for ip := range tile.Polys {
			p := &tile.Polys[ip]
			x := &MPoly{Ref: polyRef(m, tile, ip), Tile: tile, P: p, IP: ip}
			for k := 0; k < int(p.VertCount); k++ {
				v := int(p.Verts[k]) * 3
				x.V = append(x.V, v3(tile.Verts[v:v+3]))
			}
			mp.I[x.Ref] = len(mp.L)
			mp.L = append(mp.L, x)
		}
	}
	return mp
}

// attach associates the polygons to those of a world they were made from.
func (mp *MeshPolys) attach(w *GWorld) *MeshPolys {
	for _, x := range mp.L {
		for _, g := range w.Tiles {
			if x.Tile.Header.X == g.X && x.Tile.Header.Y == g.Y && x.Tile.Header.Layer == g.Layer && x.IP < len(g.Polys) {
				x.G = &g.Polys[x.IP]
			}
		}
	}
	return mp
}

func (x *MPoly) ground() bool { return x.P.Type() == 0 }

func (x *MPoly) center() V3 {
	var c V3
	for _, v := range x.V {
		c = c.add(v.mul(1 / float64(len(x.V))))
	}
	return c
}

// randPoint is a random point over the polygon, at the height of its outline
// (triangle fan).
func (x *MPoly) randPoint(r *rand.Rand) V3 {
	if len(x.V) < 3 {
		return x.V[0].lerp(x.V[1], r.Float64())
	}
	c := x.center()
	e := r.Intn(len(x.V))
	a, b := x.V[e], x.V[(e+1)%len(x.V)]
	u := math.Sqrt(r.Float64()) * 0.98
	p := c.lerp(a.lerp(b, r.Float64()), u)
	return V3{float64(float32(p[0])), float64(float32(p[1])), float64(float32(p[2]))}
}

// special makes a or b, now and then, a position that coincides with others: of
// the ends with one another, or with vertices or middles of edges.
func special(r *rand.Rand, mp *MeshPolys, x, y *MPoly, a, b *V3) {
	if r.Intn(5) != 0 {
		return
	}
	at := func(p *MPoly) V3 {
		i := r.Intn(len(p.V))
		v := p.V[i]
		if r.Intn(2) == 0 {
			v = v.lerp(p.V[(i+1)%len(p.V)], .5)
		}
		return V3{float64(float32(v[0])), float64(float32(v[1])), float64(float32(v[2]))}
	}
	switch r.Intn(8) {
	case 0:
		*b = *a
	case 1:
		*a = *b
	case 2:
		(*b)[0], (*b)[2] = (*a)[0], (*a)[2]
	case 3:
		*a = at(x)
	case 4:
		*b = at(y)
	case 5:
		*a, *b = at(x), at(y)
	case 6:
		*a = at(x)
		*b = *a
	case 7: // where other polygons are entered
		*b = at(mp.L[r.Intn(len(mp.L))])
	}
}

// Filt is a filter known to the oracles.
type Filt struct {
	F        *detour.StandardQueryFilter
	Inc, Exc uint16
	Cost     [64]float64
	Uniform  bool
}

func (f *Filt) pass(p *detour.Poly) bool { return p.Flags&f.Inc != 0 && p.Flags&f.Exc == 0 }

// randFilter makes a filter; the kinds of its area costs are 0: one, 1: one
// factor for all, 2: various, not below 1.
func randFilter(r *rand.Rand, costKind int) *Filt {
	f := &Filt{F: detour.NewStandardQueryFilter(), Inc: 0xffff, Uniform: costKind < 2}
	switch r.Intn(4) {
	case 0:
		f.Inc = uint16(r.Intn(1 << 16))
		f.Exc = uint16(r.Intn(1<<16)) & uint16(r.Intn(1<<16)) & uint16(r.Intn(1<<16))
	case 1:
		f.Exc = 1 << uint(r.Intn(16))
	case 2:
		f.Inc = 1 | uint16(r.Intn(1<<16))
	}
	f.F.SetIncludeFlags(f.Inc)
	f.F.SetExcludeFlags(f.Exc)
	k := 1.0
	if costKind == 1 {
		k = float64(float32(1 + 3*r.Float64()))
	}
	for i := range f.Cost {
		c := k
		if costKind == 2 {
			switch r.Intn(3) {
			case 1:
				c = float64(float32(1 + 2*r.Float64()))
			case 2:
				c = float64(float32(1 + 15*r.Float64()))
			}
		}
		f.Cost[i] = c
		f.F.SetAreaCost(int32(i), float32(c))
	}
	return f
}
