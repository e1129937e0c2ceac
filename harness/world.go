package main

// Random navigation meshes made from scratch: a world is a grid of tiles, each
// with random convex polygons, given to the library as polygon meshes. What
// the tiles contain is known independently from the library (the "truth").

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/arl/go-detour/detour"
)

type V3 [3]float64

func (a V3) sub(b V3) V3             { return V3{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a V3) add(b V3) V3             { return V3{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a V3) mul(s float64) V3        { return V3{a[0] * s, a[1] * s, a[2] * s} }
func (a V3) dot(b V3) float64        { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a V3) len() float64            { return math.Sqrt(a.dot(a)) }
func (a V3) dist(b V3) float64       { return a.sub(b).len() }
func (a V3) dist2D(b V3) float64     { return math.Hypot(a[0]-b[0], a[2]-b[2]) }
func (a V3) lerp(b V3, t float64) V3 { return a.add(b.sub(a).mul(t)) }
func (a V3) f32() []float32          { return []float32{float32(a[0]), float32(a[1]), float32(a[2])} }
func v3(f []float32) V3              { return V3{float64(f[0]), float64(f[1]), float64(f[2])} }

// cross2 is twice the signed area of a, b, c in the ground plane; it's
// negative for the winding of the polygons.
func cross2(a, b, c V3) float64 {
	return (b[0]-a[0])*(c[2]-a[2]) - (c[0]-a[0])*(b[2]-a[2])
}

// GPoly is a polygon of a tile.
type GPoly struct {
	VI    []int
	V     []V3
	Area  uint8
	Flags uint16
	// Nei has for each edge the index of the neighbour, or -1 if there's none,
	// or -2-d for the tile border in direction d (0: x-, 1: z+, 2: x+, 3: z-).
	Nei []int
	DV  []V3     // detail vertices (additional ones)
	DT  [][3]int // detail triangles
}

// GOff is an off-mesh connection.
type GOff struct {
	A, B   V3
	Rad    float64
	Area   uint8
	Flags  uint16
	Bidir  bool
	UserID uint32
}

// GTile is a tile.
type GTile struct {
	X, Y, Layer int32
	P           detour.NavMeshCreateParams
	Verts       []V3
	Polys       []GPoly
	Offs        []GOff // connections that start in the tile
	Data        []byte
}

// WOpt tells how to make a world.
type WOpt struct {
	TX, TY     int
	N          int     // lattice cells per tile side
	U          int     // voxels per lattice cell
	Cs, Ch     float64 // voxel size
	Orig       V3
	Block      float64 // probability of blocked cells
	Jitter     bool
	Mismatch   bool // borders of adjacent tiles have different vertices
	Merge      float64
	Areas      int
	FlagBits   int
	Amp        int // height amplitude, in voxels
	Detail     int // 0: none, 1: all tiles, 2: some tiles
	BV         int // 0: none, 1: all tiles, 2: some tiles
	Layers     float64
	LayerH     int
	Offs       int // number of off-mesh connections
	Climb      float64
	Nvp        int
	MissTiles  float64 // probability of a missing tile
	DetailKind int     // 0: center vertex, 1: center and edge vertices
	NLayers    int     // number of layers above the first one, if any
	Quads      bool    // cells aren't split into triangles
	BX, BY     int     // coordinates of the first tile
}

// GWorld is a set of tiles for one navigation mesh.
type GWorld struct {
	O      WOpt
	Params detour.NavMeshParams
	Tiles  []*GTile
	TW     float64
	Off    []GOff
}

func hash64(a ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, x := range a {
		h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h ^= h >> 30
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 27
		h *= 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

func randOpt(r *rand.Rand) WOpt {
	o := WOpt{
		TX: 1 + r.Intn(3), TY: 1 + r.Intn(3),
		N: 2 + r.Intn(4), U: 6 + r.Intn(11),
		Cs: []float64{0.25, 0.3, 0.5, 1}[r.Intn(4)], Ch: []float64{0.1, 0.2, 0.25}[r.Intn(3)],
		Orig:   V3{float64(r.Intn(200) - 100), float64(r.Intn(20) - 10), float64(r.Intn(200) - 100)},
		Block:  []float64{0, 0.15, 0.3}[r.Intn(3)],
		Jitter: r.Intn(4) != 0, Mismatch: r.Intn(3) == 0,
		Merge: []float64{0, 0.5, 0.9, 1}[r.Intn(4)],
		Areas: []int{1, 3, 63}[r.Intn(3)], FlagBits: []int{0, 3, 16}[r.Intn(3)],
		Amp: r.Intn(5), Detail: r.Intn(3), BV: []int{1, 1, 0, 2}[r.Intn(4)],
		Layers: []float64{0, 0.5}[r.Intn(2)], LayerH: 40 + r.Intn(20),
		Nvp: 3 + r.Intn(4), MissTiles: []float64{0, 0, 0.15}[r.Intn(3)],
		DetailKind: r.Intn(2),
	}
	if r.Intn(3) == 0 {
		o.Offs = 1 + r.Intn(6)
	}
	o.Climb = float64(1+r.Intn(4)) * o.Ch
	if r.Intn(3) == 0 {
		// The origin of the mesh isn't the corner of its first tile.
		o.BX, o.BY = r.Intn(13)-8, r.Intn(13)-8
	}
	return o
}

// tower makes a world of few places, with many layers.
func (o *WOpt) tower(r *rand.Rand) {
	o.TX, o.TY, o.N, o.MissTiles = 1+r.Intn(2), 1+r.Intn(2), 1+r.Intn(2), 0
	o.NLayers, o.Layers = 3+r.Intn(28), .9
	if r.Intn(4) == 0 {
		o.NLayers = 33 + r.Intn(40)
	}
}

// bigWorld makes a world of a tile close to the limits of the format.
func bigWorld(r *rand.Rand, single bool) *GWorld {
	o := randOpt(r)
	o.N, o.U, o.Quads, o.Merge, o.TX, o.TY = 150+r.Intn(31), 6, true, 0, 1, 1
	o.Nvp, o.MissTiles, o.Layers, o.Block = 4+r.Intn(3), 0, 0, []float64{0, .1}[r.Intn(2)]
	o.Detail = 1
	if o.Block == 0 && r.Intn(2) == 0 {
		o.Detail = 0
	}
	if single {
		o.Offs = 0
	}
	return makeWorld(r, o)
}

func makeWorld(r *rand.Rand, o WOpt) *GWorld {
	w := &GWorld{O: o}
	seed := uint64(r.Int63())
	n, U := o.N, o.U
	w.TW = float64(n*U) * o.Cs
	ntiles := 0
	maxPolys := 0
	type lt struct{ x, y, l int }
	var list []lt
	for y := 0; y < o.TY; y++ {
		for x := 0; x < o.TX; x++ {
			if r.Float64() < o.MissTiles {
				continue
			}
			list = append(list, lt{x, y, 0})
			for l := 1; l == 1 || l <= o.NLayers; l++ {
				if r.Float64() < o.Layers {
					list = append(list, lt{x, y, l})
				}
			}
		}
	}
	if len(list) == 0 {
		list = append(list, lt{0, 0, 0})
	}
	for _, l := range list {
		t := w.makeTile(r, seed, l.x, l.y, l.l)
		if t == nil {
			continue
		}
		w.Tiles = append(w.Tiles, t)
		ntiles++
		if len(t.Polys) > maxPolys {
			maxPolys = len(t.Polys)
		}
	}
	if o.Offs > 0 {
		w.makeOffs(r)
	}
	for i := 0; i < 3; i++ {
		w.Params.Orig[i] = float32(o.Orig[i])
	}
	w.Params.Orig[0] = float32(o.Orig[0] - float64(o.BX)*w.TW)
	w.Params.Orig[2] = float32(o.Orig[2] - float64(o.BY)*w.TW)
	w.Params.TileWidth = float32(w.TW)
	w.Params.TileHeight = float32(w.TW)
	w.Params.MaxTiles = uint32(ntiles + r.Intn(4))
	w.Params.MaxPolys = uint32(maxPolys + o.Offs + r.Intn(8))
	for _, t := range w.Tiles {
		t.fill(w, r)
	}
	return w
}

func (w *GWorld) makeTile(r *rand.Rand, seed uint64, tx, ty, layer int) *GTile {
	o := &w.O
	n, U := o.N, o.U
	t := &GTile{X: int32(tx + o.BX), Y: int32(ty + o.BY), Layer: int32(layer)}
	size := n * U
	J := U / 5
	// lattice vertices
	type iv struct{ x, y, z int }
	lat := make([]iv, (n+1)*(n+1))
	for j := 0; j <= n; j++ {
		for i := 0; i <= n; i++ {
			gx, gz := uint64(tx*n+i), uint64(ty*n+j)
			h := hash64(seed, gx, gz, uint64(layer))
			border := i == 0 || i == n || j == 0 || j == n
			if o.Mismatch && border {
				h = hash64(seed, gx, gz, uint64(layer), uint64(tx), uint64(ty), 7)
			}
			v := iv{i * U, 1, j * U}
			if o.Jitter && J > 0 {
				dx := int(h%uint64(2*J+1)) - J
				dz := int((h>>16)%uint64(2*J+1)) - J
				if i != 0 && i != n {
					v.x += dx
				}
				if j != 0 && j != n {
					v.z += dz
				}
			}
			if o.Amp > 0 {
				v.y += int((h >> 32) % uint64(o.Amp+1))
			}
			v.y += layer * o.LayerH
			lat[j*(n+1)+i] = v
		}
	}
	blocked := make([]bool, n*n)
	free := 0
	for c := range blocked {
		blocked[c] = r.Float64() < o.Block
		if !blocked[c] {
			free++
		}
	}
	if free == 0 {
		blocked[0] = false
	}
	type cpoly struct {
		v     []int
		area  uint8
		flags uint16
	}
	var cps []cpoly
	for j := 0; j < n; j++ {
		for i := 0; i < n; i++ {
			if blocked[j*n+i] {
				continue
			}
			a, b, c, d := j*(n+1)+i, (j+1)*(n+1)+i, (j+1)*(n+1)+i+1, j*(n+1)+i+1
			var area uint8
			flags := uint16(1)
			if o.Areas > 1 {
				area = uint8(r.Intn(o.Areas))
			}
			if o.FlagBits > 0 {
				flags = uint16(r.Intn(1 << uint(o.FlagBits)))
				if r.Intn(8) != 0 {
					flags |= 1
				}
			}
			if o.Quads {
				cps = append(cps, cpoly{[]int{a, b, c, d}, area, flags})
			} else if r.Intn(2) == 0 {
				cps = append(cps, cpoly{[]int{a, b, c}, area, flags}, cpoly{[]int{a, c, d}, area, flags})
			} else {
				cps = append(cps, cpoly{[]int{a, b, d}, area, flags}, cpoly{[]int{b, c, d}, area, flags})
			}
		}
	}
	// merge at random
	icross := func(a, b, c int) int {
		A, B, C := lat[a], lat[b], lat[c]
		return (B.x-A.x)*(C.z-A.z) - (C.x-A.x)*(B.z-A.z)
	}
	tries := int(o.Merge * float64(len(cps)) * 4)
	for k := 0; k < tries && len(cps) > 1; k++ {
		pi := r.Intn(len(cps))
		p := cps[pi]
		e := r.Intn(len(p.v))
		ea, eb := p.v[e], p.v[(e+1)%len(p.v)]
		qi, f := -1, 0
		for x := range cps {
			if x == pi {
				continue
			}
			for y := range cps[x].v {
				if cps[x].v[y] == eb && cps[x].v[(y+1)%len(cps[x].v)] == ea {
					qi, f = x, y
				}
			}
		}
		if qi < 0 {
			continue
		}
		q := cps[qi]
		if len(p.v)+len(q.v)-2 > o.Nvp || (q.area != p.area || q.flags != p.flags) && r.Intn(3) != 0 {
			continue
		}
		var m []int
		for x := 0; x < len(p.v)-1; x++ {
			m = append(m, p.v[(e+1+x)%len(p.v)])
		}
		for x := 0; x < len(q.v)-1; x++ {
			m = append(m, q.v[(f+1+x)%len(q.v)])
		}
		ok := true
		for x := range m {
			if icross(m[x], m[(x+1)%len(m)], m[(x+2)%len(m)]) >= 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		cps[pi].v = m
		cps[qi] = cps[len(cps)-1]
		cps = cps[:len(cps)-1]
	}
	r.Shuffle(len(cps), func(i, j int) { cps[i], cps[j] = cps[j], cps[i] })
	// rotate the polygons at random
	for i := range cps {
		k := r.Intn(len(cps[i].v))
		cps[i].v = append(append([]int{}, cps[i].v[k:]...), cps[i].v[:k]...)
	}
	// used vertices
	idx := map[int]int{}
	p := &t.P
	p.Cs, p.Ch = float32(o.Cs), float32(o.Ch)
	p.Nvp = int32(o.Nvp)
	p.TileX, p.TileY, p.TileLayer = t.X, t.Y, t.Layer
	p.UserID = uint32(r.Intn(1000))
	p.WalkableClimb = float32(o.Climb)
	p.WalkableHeight = 2
	p.WalkableRadius = 0.6
	bx, bz := o.Orig[0]+float64(tx)*w.TW, o.Orig[2]+float64(ty)*w.TW
	p.BMin = [3]float32{float32(bx), float32(o.Orig[1]), float32(bz)}
	p.BMax = [3]float32{float32(bx + float64(size)*o.Cs), float32(o.Orig[1] + float64(layer*o.LayerH+o.Amp+3)*o.Ch), float32(bz + float64(size)*o.Cs)}
	edge := map[[2]int][2]int{}
	for pi, c := range cps {
		for e := range c.v {
			edge[[2]int{c.v[e], c.v[(e+1)%len(c.v)]}] = [2]int{pi, e}
		}
	}
	for _, c := range cps {
		gp := GPoly{Area: c.area, Flags: c.flags}
		for e, v := range c.v {
			k, ok := idx[v]
			if !ok {
				k = len(t.Verts)
				idx[v] = k
				l := lat[v]
				p.Verts = append(p.Verts, uint16(l.x), uint16(l.y), uint16(l.z))
				// as the library does: bmin + float32(v)*cs
				t.Verts = append(t.Verts, V3{float64(p.BMin[0] + float32(l.x)*p.Cs), float64(p.BMin[1] + float32(l.y)*p.Ch), float64(p.BMin[2] + float32(l.z)*p.Cs)})
			}
			gp.VI = append(gp.VI, k)
			gp.V = append(gp.V, t.Verts[k])
			b := c.v[(e+1)%len(c.v)]
			nei := -1
			if q, ok := edge[[2]int{b, v}]; ok {
				nei = q[0]
			} else {
				A, B := lat[v], lat[b]
				switch {
				case A.x == 0 && B.x == 0:
					nei = -2
				case A.z == size && B.z == size:
					nei = -3
				case A.x == size && B.x == size:
					nei = -4
				case A.z == 0 && B.z == 0:
					nei = -5
				}
			}
			gp.Nei = append(gp.Nei, nei)
		}
		t.Polys = append(t.Polys, gp)
	}
	// detail meshes
	if o.Detail == 1 || o.Detail == 2 && r.Intn(2) == 0 {
		t.makeDetail(r, o)
	} else {
		for i := range t.Polys {
			gp := &t.Polys[i]
			for k := 2; k < len(gp.V); k++ {
				gp.DT = append(gp.DT, [3]int{0, k - 1, k})
			}
		}
	}
	p.BuildBvTree = o.BV == 1 || o.BV == 2 && r.Intn(2) == 0
	return t
}

// makeDetail gives polygons a center vertex and optionally vertices in the
// middle of edges.
func (t *GTile) makeDetail(r *rand.Rand, o *WOpt) {
	p := &t.P
	for i := range t.Polys {
		gp := &t.Polys[i]
		nv := len(gp.V)
		var c V3
		for _, v := range gp.V {
			c = c.add(v.mul(1 / float64(nv)))
		}
		vb, tb := len(p.DetailVerts)/3, len(p.DetailTris)/4
		all := append([]V3{}, gp.V...)
		f32v := func(v V3) V3 { return V3{float64(float32(v[0])), float64(float32(v[1])), float64(float32(v[2]))} }
		k := r.Intn(3)
		if o.Quads {
			k = r.Intn(20)
		}
		switch {
		case k == 0:
			for k := 2; k < nv; k++ {
				gp.DT = append(gp.DT, [3]int{0, k - 1, k})
			}
		default:
			c[1] += float64(r.Intn(5)-2) * o.Ch
			c = f32v(c)
			ci := len(all)
			all = append(all, c)
			for e := 0; e < nv; e++ {
				e2 := (e + 1) % nv
				if o.DetailKind == 1 && gp.Nei[e] == -1 && r.Intn(2) == 0 {
					// middle vertex, on an edge without neighbour
					m := gp.V[e].lerp(gp.V[e2], 0.5)
					m[1] += float64(r.Intn(3)-1) * o.Ch
					m = f32v(m)
					mi := len(all)
					all = append(all, m)
					gp.DT = append(gp.DT, [3]int{e, mi, ci}, [3]int{mi, e2, ci})
				} else {
					gp.DT = append(gp.DT, [3]int{e, e2, ci})
				}
			}
		}
		gp.DV = all[nv:]
		for _, v := range all {
			p.DetailVerts = append(p.DetailVerts, float32(v[0]), float32(v[1]), float32(v[2]))
		}
		onEdge := func(a, b int) bool { // is a-b on the outline?
			if a < nv && b < nv {
				return (a+1)%nv == b || (b+1)%nv == a
			}
			for e := 0; e < nv; e++ {
				A, B := gp.V[e], gp.V[(e+1)%nv]
				if math.Abs(cross2(A, B, all[a])) < 1e-4 && math.Abs(cross2(A, B, all[b])) < 1e-4 {
					return true
				}
			}
			return false
		}
		for _, tr := range gp.DT {
			fl := uint8(0)
			for e := 0; e < 3; e++ {
				if onEdge(tr[e], tr[(e+1)%3]) {
					fl |= 1 << uint(2*e)
				}
			}
			p.DetailTris = append(p.DetailTris, uint8(tr[0]), uint8(tr[1]), uint8(tr[2]), fl)
		}
		p.DetailMeshes = append(p.DetailMeshes, int32(vb), int32(len(all)), int32(tb), int32(len(gp.DT)))
	}
	p.DetailVertsCount = int32(len(p.DetailVerts) / 3)
	p.DetailTriCount = int32(len(p.DetailTris) / 4)
}

func (w *GWorld) makeOffs(r *rand.Rand) {
	o := &w.O
	randPt := func(t *GTile) V3 {
		gp := &t.Polys[r.Intn(len(t.Polys))]
		// random point of a triangle of the polygon
		k := 2 + r.Intn(len(gp.V)-2)
		a, b := 0.1+0.8*r.Float64(), 0.1+0.8*r.Float64()
		v := gp.V[0].lerp(gp.V[k-1], a).lerp(gp.V[k], b)
		v[1] += (r.Float64() - 0.5) * o.Climb
		if r.Intn(4) == 0 {
			v[0] += (r.Float64() - 0.5) * o.Cs * 2
			v[2] += (r.Float64() - 0.5) * o.Cs * 2
		}
		return V3{float64(float32(v[0])), float64(float32(v[1])), float64(float32(v[2]))}
	}
	for i := 0; i < o.Offs; i++ {
		ta := w.Tiles[r.Intn(len(w.Tiles))]
		tb := w.Tiles[r.Intn(len(w.Tiles))]
		f := GOff{A: randPt(ta), B: randPt(tb), Rad: float64(float32(o.Cs * (0.5 + 3*r.Float64()))), Area: uint8(r.Intn(o.Areas)), Flags: 1, Bidir: r.Intn(2) == 0, UserID: uint32(r.Intn(1 << 20))}
		if o.FlagBits > 0 {
			f.Flags = uint16(r.Intn(1<<uint(o.FlagBits))) | 1
		}
		w.Off = append(w.Off, f)
	}
}

// fill completes the creation parameters.
func (t *GTile) fill(w *GWorld, r *rand.Rand) {
	p := &t.P
	nvp := int(p.Nvp)
	p.VertCount = int32(len(p.Verts) / 3)
	p.PolyCount = int32(len(t.Polys))
	p.Polys = make([]uint16, len(t.Polys)*2*nvp)
	for i := range p.Polys {
		p.Polys[i] = 0xffff
	}
	for i := range t.Polys {
		gp := &t.Polys[i]
		for e := range gp.VI {
			p.Polys[i*2*nvp+e] = uint16(gp.VI[e])
			switch n := gp.Nei[e]; {
			case n >= 0:
				p.Polys[i*2*nvp+nvp+e] = uint16(n)
			case n == -1:
				p.Polys[i*2*nvp+nvp+e] = 0xffff
			default:
				p.Polys[i*2*nvp+nvp+e] = 0x8000 | uint16(-2-n)
			}
		}
		p.PolyAreas = append(p.PolyAreas, gp.Area)
		p.PolyFlags = append(p.PolyFlags, gp.Flags)
	}
	for _, f := range w.Off {
		p.OffMeshConVerts = append(p.OffMeshConVerts, append(f.A.f32(), f.B.f32()...)...)
		p.OffMeshConRad = append(p.OffMeshConRad, float32(f.Rad))
		p.OffMeshConFlags = append(p.OffMeshConFlags, f.Flags)
		p.OffMeshConAreas = append(p.OffMeshConAreas, f.Area)
		d := uint8(0)
		if f.Bidir {
			d = 1
		}
		p.OffMeshConDir = append(p.OffMeshConDir, d)
		p.OffMeshConUserID = append(p.OffMeshConUserID, f.UserID)
	}
	p.OffMeshConCount = int32(len(w.Off))
}

// create makes the data of the tile.
func (t *GTile) create() {
	if t.Data != nil {
		return
	}
	d, err := detour.CreateNavMeshData(&t.P)
	if err != nil {
		panic(violated{fmt.Sprintf("CreateNavMeshData refused a valid polygon mesh: %v", err)})
	}
	t.Data = d
}

func cloneBytes(b []byte) []byte { return append([]byte{}, b...) }

// initMesh makes an empty mesh with the parameters of the world.
func (w *GWorld) initMesh() *detour.NavMesh {
	var m detour.NavMesh
	p := w.Params
	if st := m.Init(&p); detour.StatusFailed(st) {
		panic(violated{fmt.Sprintf("Init refused %+v: 0x%x", p, st)})
	}
	return &m
}

// build makes a mesh with all the tiles of the world.
func (w *GWorld) build() *detour.NavMesh {
	m := w.initMesh()
	for _, t := range w.Tiles {
		t.create()
		if st, ref := m.AddTile(cloneBytes(t.Data), 0); detour.StatusFailed(st) || ref == 0 {
			panic(violated{fmt.Sprintf("AddTile refused tile (%d,%d,%d): status 0x%x ref 0x%x", t.X, t.Y, t.Layer, st, ref)})
		}
	}
	return m
}

func (w *GWorld) desc() string {
	np := 0
	for _, t := range w.Tiles {
		np += len(t.Polys)
	}
	o := &w.O
	return fmt.Sprintf("%d tiles of a %dx%d grid, %d polygons, nvp %d, jitter %v, mismatch %v, detail %d, bv %d, %d off-mesh", len(w.Tiles), o.TX, o.TY, np, o.Nvp, o.Jitter, o.Mismatch, o.Detail, o.BV, len(w.Off))
}
