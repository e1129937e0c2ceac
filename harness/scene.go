package main

// Scenes made of solids (boxes and wedges), for the checks of whole builds,
// with two independent estimates of where agents can stand and move: a strict
// one (surely possible) and a generous one (anything else is impossible).

import (
	"container/heap"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
)

// solid is a box, or a wedge whose top rises along an axis.
type solid struct {
	x0, z0, x1, z1 float64
	lo, h0, h1     float64 // bottom, height of the top at both ends of the axis
	axis           int     // -1: flat, 0: along x, 2: along z
}

func (s *solid) hi(x, z float64) float64 {
	switch s.axis {
	case 0:
		return s.h0 + (s.h1-s.h0)*clampF((x-s.x0)/(s.x1-s.x0), 0, 1)
	case 2:
		return s.h0 + (s.h1-s.h0)*clampF((z-s.z0)/(s.z1-s.z0), 0, 1)
	}
	return s.h0
}

func clampF(x, a, b float64) float64 { return math.Max(a, math.Min(b, x)) }

// slope is the angle of the top, in degrees.
func (s *solid) slope() float64 {
	l := s.x1 - s.x0
	switch s.axis {
	case -1:
		return 0
	case 2:
		l = s.z1 - s.z0
	}
	return math.Atan2(math.Abs(s.h1-s.h0), l) * 180 / math.Pi
}

func (s *solid) covers(x, z, d float64) bool {
	return x >= s.x0-d && x <= s.x1+d && z >= s.z0-d && z <= s.z1+d
}

// Scene is a set of solids and the settings to build a mesh for it.
type Scene struct {
	S     []solid
	B     recast.BuildSettings
	kind  string
	text  string
	snap  bool // solids end at the limits of cells
	posts bool // posts set the limits of the scene
}

func (sc *Scene) box(x0, z0, x1, z1, lo, hi float64) {
	sc.S = append(sc.S, solid{x0, z0, x1, z1, lo, hi, hi, -1})
}

// obj is the geometry in OBJ format.
func (sc *Scene) obj(r *rand.Rand) string {
	if sc.text != "" {
		return sc.text
	}
	var verts [][3]float64
	var faces [][]int
	// Sides may be divided, for there to be many triangles.
	div := 1
	if r.Intn(5) == 0 && len(sc.S) < 200 {
		div = 2 + r.Intn(7)
	}
	var quad func(p ...[3]float64)
	quad = func(p ...[3]float64) {
		if div > 1 {
			n, m := 1+r.Intn(div), 1+r.Intn(div)
			at := func(i, j int) (v [3]float64) {
				a, b := float64(i)/float64(n), float64(j)/float64(m)
				for k := range v {
					v[k] = (p[0][k]*(1-a)+p[3][k]*a)*(1-b) + (p[1][k]*(1-a)+p[2][k]*a)*b
				}
				return v
			}
			d := div
			div = 1
			for i := 0; i < n; i++ {
				for j := 0; j < m; j++ {
					quad(at(i, j), at(i, j+1), at(i+1, j+1), at(i+1, j))
				}
			}
			div = d
			return
		}
		n := len(verts)
		verts = append(verts, p...)
		switch r.Intn(3) {
		case 0:
			faces = append(faces, []int{n, n + 1, n + 2, n + 3})
		case 1:
			faces = append(faces, []int{n, n + 1, n + 2}, []int{n, n + 2, n + 3})
		case 2:
			faces = append(faces, []int{n + 1, n + 2, n + 3}, []int{n + 1, n + 3, n})
		}
	}
	for _, s := range sc.S {
		c := [4][2]float64{{s.x0, s.z0}, {s.x0, s.z1}, {s.x1, s.z1}, {s.x1, s.z0}}
		var t, b [4][3]float64
		for i, p := range c {
			t[i] = [3]float64{p[0], s.hi(p[0], p[1]), p[1]}
			b[i] = [3]float64{p[0], s.lo, p[1]}
		}
		quad(t[0], t[1], t[2], t[3])
		quad(b[3], b[2], b[1], b[0])
		for i := range c {
			j := (i + 1) % 4
			quad(b[i], b[j], t[j], t[i])
		}
	}
	r.Shuffle(len(faces), func(i, j int) { faces[i], faces[j] = faces[j], faces[i] })
	var o strings.Builder
	for _, v := range verts {
		fmt.Fprintf(&o, "v %v %v %v\n", float32(v[0]), float32(v[1]), float32(v[2]))
	}
	for _, f := range faces {
		o.WriteString("f")
		for _, i := range f {
			fmt.Fprintf(&o, " %d", i+1)
		}
		o.WriteString("\n")
	}
	sc.text = o.String()
	return sc.text
}

// randScene makes a scene of about size cells across.
func randScene(r *rand.Rand, size int) *Scene {
	sc := &Scene{}
	cs := []float64{.3, .2, .5, .1, 1}[r.Intn(5)]
	ch := cs * []float64{.5, .67, 1}[r.Intn(3)]
	f := func(a, b float64) float64 { return a + r.Float64()*(b-a) }
	height := ch * f(6, 14)
	climb := ch * f(2.5, 5.5)
	radius := cs * f(.6, 5)
	slope := []float64{45, 30, 60}[r.Intn(3)]
	sc.B = solomesh.DefaultSettings()
	sc.B.CellSize, sc.B.CellHeight = float32(cs), float32(ch)
	sc.B.AgentHeight, sc.B.AgentRadius, sc.B.AgentMaxClimb = float32(height), float32(radius), float32(climb)
	sc.B.AgentMaxSlope = float32(slope)
	sc.B.RegionMinSize = float32([]int{8, 3, 2, 5}[r.Intn(4)])
	sc.B.RegionMergeSize = float32([]int{20, 5, 50}[r.Intn(3)])
	sc.B.EdgeMaxLen = float32(cs * []float64{40, 12, 0}[r.Intn(3)])
	sc.B.EdgeMaxError = []float32{1.3, 0.5, 1, .1}[r.Intn(4)]
	sc.B.VertsPerPoly = float32(3 + r.Intn(4))
	sc.B.DetailSampleDist = []float32{6, 3, 10}[r.Intn(3)]
	sc.B.DetailSampleMaxError = 1
	sc.B.TileSize = []float32{32, 16, 24, 48, 33, 20.5}[r.Intn(6)]

	w, d := cs*float64(size)*f(.7, 1.3), cs*float64(size)*f(.7, 1.3)
	ox, oy, oz := 0., 0., 0.
	if r.Intn(2) == 0 {
		ox, oy, oz = f(-50, 50), f(-20, 20), f(-50, 50)
	}
	snap := r.Intn(4) == 0
	sc.snap = snap
	g := func(x float64) float64 {
		if snap {
			return math.Round(x/cs) * cs
		}
		return x
	}
	box := func(x0, z0, x1, z1, lo, hi float64) {
		sc.box(ox+g(x0), oz+g(z0), ox+g(x1), oz+g(z1), oy+lo, oy+hi)
	}
	rect := func(a, b float64) (x0, z0, x1, z1 float64) {
		l, m := cs*f(a, b), cs*f(a, b)
		l, m = math.Min(l, w), math.Min(m, d)
		x0, z0 = f(0, w-l), f(0, d-m)
		return x0, z0, x0 + l, z0 + m
	}
	thick := ch * f(2, 5)
	// The ground: one slab, or several.
	var ground []float64 // heights of the slabs
	S := float64(size)
	switch r.Intn(4) {
	case 0:
		sc.kind = "slabs"
		n := 2 + r.Intn(5)
		h := 0.
		for i := 0; i < n; i++ {
			switch r.Intn(4) {
			case 0:
				h += climb * f(-2, 2)
			case 1:
				h += climb * f(-.6, .6)
			case 2:
				h = height * f(-2, 2)
			}
			x0, z0, x1, z1 := rect(.25*S, .8*S)
			box(x0, z0, x1, z1, h-thick, h)
			ground = append(ground, h)
		}
	case 1:
		sc.kind = "checker"
		n := 2 + r.Intn(3)
		gap := cs * f(0, 6)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if r.Intn(5) == 0 {
					continue
				}
				h := 0.
				if r.Intn(3) == 0 {
					h = climb * f(-1.5, 1.5)
				}
				fw, fd := w/float64(n), d/float64(n)
				box(fw*float64(i), fd*float64(j), fw*float64(i+1)-gap*float64(r.Intn(2)), fd*float64(j+1)-gap*float64(r.Intn(2)), h-thick, h)
				ground = append(ground, h)
			}
		}
		if len(ground) == 0 {
			box(0, 0, w, d, -thick, 0)
			ground = append(ground, 0)
		}
	default:
		sc.kind = "slab"
		box(0, 0, w, d, -thick, 0)
		ground = append(ground, 0)
	}
	gh := func() float64 { return ground[r.Intn(len(ground))] }
	n := r.Intn(9)
	if r.Intn(4) == 0 {
		n = 6 + r.Intn(14)
	}
	for i := 0; i < n; i++ {
		h := gh()
		switch r.Intn(7) {
		case 0: // a pillar or building
			x0, z0, x1, z1 := rect(2.2, .25*S)
			box(x0, z0, x1, z1, h-thick*.7, h+height*f(.6, 2))
		case 1: // a wall
			x0, z0, x1, z1 := rect(2.2, 4)
			l := cs * f(.3*S, S)
			if r.Intn(2) == 0 {
				x1 = math.Min(x0+l, w)
			} else {
				z1 = math.Min(z0+l, d)
			}
			box(x0, z0, x1, z1, h-thick*.7, h+height*f(.6, 2))
		case 2: // a step
			x0, z0, x1, z1 := rect(.1*S, .5*S)
			box(x0, z0, x1, z1, h-thick*.7, h+climb*f(.2, 2))
		case 3: // a ceiling
			x0, z0, x1, z1 := rect(.1*S, .6*S)
			c := h + height*f(.5, 1.8)
			box(x0, z0, x1, z1, c, c+ch*f(2, 4))
		case 4, 5: // a ramp to a platform
			x0, z0, x1, z1 := rect(.2*S, .4*S)
			a := slope + f(6, 25)
			if r.Intn(3) != 0 {
				a = slope * f(.2, .85)
			}
			if a > 80 {
				a = 80
			}
			axis := 2 * r.Intn(2)
			l := x1 - x0
			if axis == 2 {
				l = z1 - z0
			}
			rise := l * math.Tan(a*math.Pi/180)
			s := solid{ox + x0, oz + z0, ox + x1, oz + z1, oy + h - thick*.7, oy + h, oy + h + rise, axis}
			up := r.Intn(2) == 0
			if !up {
				s.h0, s.h1 = s.h1, s.h0
			}
			sc.S = append(sc.S, s)
			if r.Intn(3) != 0 { // the platform at its top
				pl := cs * f(.15, .3) * S
				q := [4]float64{x0, z0, x1, z1}
				if axis == 0 && up {
					q[0], q[2] = x1-cs*.3, x1+pl
				} else if axis == 0 {
					q[0], q[2] = x0-pl, x0+cs*.3
				} else if up {
					q[1], q[3] = z1-cs*.3, z1+pl
				} else {
					q[1], q[3] = z0-pl, z0+cs*.3
				}
				box(q[0], q[1], q[2], q[3], h+rise-math.Min(rise*.5, thick), h+rise)
				ground = append(ground, h+rise)
			}
		case 6: // stairs
			x0, z0, x1, z1 := rect(.15*S, .3*S)
			rise := climb * f(.4, 1.3)
			run := cs * f(3, 7)
			k := 2 + r.Intn(5)
			axis := r.Intn(2)
			for j := 0; j < k; j++ {
				o := run * float64(j)
				top := h + rise*float64(j+1)
				if axis == 0 {
					box(x0+o, z0, x0+o+run, z1, h-thick*.7, top)
				} else {
					box(x0, z0+o, x1, z0+o+run, h-thick*.7, top)
				}
			}
		}
	}
	if !snap && r.Intn(3) != 0 {
		// Posts, so that no solid agents stand on ends at the limits of cells
		// or of the grid.
		x0, z0, x1, z1 := sc.bounds()
		sc.box(x0-2.6*cs, z0-2.6*cs, x0-2.3*cs, z0-2.3*cs, oy, oy+ch)
		sc.box(x1+2.3*cs, z1+2.3*cs, x1+2.6*cs, z1+2.6*cs, oy, oy+ch)
		sc.posts = true
	}
	return sc
}

// snode is a place to stand: a height at a sample point.
type snode struct {
	h     float64
	gap   float64 // height of what's above
	slope bool
	dist  float64 // distance to the border
	comp  int     // connected component, -1 when too close to the border
	nb    [8][]int32
	flat  bool // with the same surface all around
}

// field is an estimate of where agents can stand.
type field struct {
	W, H     int
	s        float64 // distance between samples
	ox, oz   float64
	N        []snode
	cell     []int32 // first node of each sample, W*H+1 values
	strict   bool
	compSize []int
}

func (f *field) pos(x, y int) (float64, float64) {
	return f.ox + (float64(x)+.5)*f.s, f.oz + (float64(y)+.5)*f.s
}

var dir8 = [8][2]int{{-1, 0}, {0, 1}, {1, 0}, {0, -1}, {-1, 1}, {1, 1}, {1, -1}, {-1, -1}}

var opp8 = [8]int{2, 3, 0, 1, 6, 7, 4, 5}

type sceneItem struct {
	d float64
	i int32
}
type sceneHeap []sceneItem

func (h sceneHeap) Len() int            { return len(h) }
func (h sceneHeap) Less(i, j int) bool  { return h[i].d < h[j].d }
func (h sceneHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *sceneHeap) Push(x interface{}) { *h = append(*h, x.(sceneItem)) }
func (h *sceneHeap) Pop() interface{} {
	o := *h
	n := len(o)
	x := o[n-1]
	*h = o[:n-1]
	return x
}

func (sc *Scene) bounds() (x0, z0, x1, z1 float64) {
	x0, z0, x1, z1 = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, s := range sc.S {
		x0, z0 = math.Min(x0, s.x0), math.Min(z0, s.z0)
		x1, z1 = math.Max(x1, s.x1), math.Max(z1, s.z1)
	}
	return
}

// estimate makes the strict or the generous estimate.
func (sc *Scene) estimate(strict bool) *field {
	cs, ch := float64(sc.B.CellSize), float64(sc.B.CellHeight)
	height, climb := float64(sc.B.AgentHeight), float64(sc.B.AgentMaxClimb)
	f := &field{s: cs / 2, strict: strict}
	x0, z0, x1, z1 := sc.bounds()
	pad := 2.
	f.ox, f.oz = x0-pad*cs, z0-pad*cs
	f.W, f.H = int((x1-x0)/f.s)+1+int(4*pad), int((z1-z0)/f.s)+1+int(4*pad)
	f.cell = make([]int32, 0, f.W*f.H+1)

	step := climb - 2*ch
	need := height + 4.1*ch
	floorD, obstD := 0., cs
	if !strict {
		step, need = climb+2*ch, height-2.5*ch
		floorD, obstD = cs, 0
	}
	walk := make([]bool, len(sc.S))
	for i := range sc.S {
		walk[i] = sc.S[i].slope() < float64(sc.B.AgentMaxSlope)
	}
	// top of a solid within a distance of the point
	topNear := func(s *solid, x, z, d float64) float64 {
		return math.Max(math.Max(s.hi(x-d, z-d), s.hi(x+d, z+d)), s.hi(x, z))
	}
	var cand []snode
	for y := 0; y < f.H; y++ {
		for x := 0; x < f.W; x++ {
			px, pz := f.pos(x, y)
			f.cell = append(f.cell, int32(len(f.N)))
			cand = cand[:0]
			for i := range sc.S {
				s := &sc.S[i]
				if !s.covers(px, pz, floorD) {
					continue
				}
				h := s.hi(px, pz)
				if !walk[i] {
					if strict {
						continue
					}
					// The foot of a steep slope may be taken as walkable.
					ok := false
					for j := range sc.S {
						o := &sc.S[j]
						if walk[j] && o.covers(px, pz, floorD) && math.Abs(h-o.hi(px, pz)) <= climb+3*ch+cs*math.Tan(s.slope()*math.Pi/180) {
							ok = true
						}
					}
					if !ok {
						continue
					}
				}
				c := snode{h: h, gap: math.Inf(1), comp: -1, slope: s.axis >= 0}
				ok := true
				for j := range sc.S {
					o := &sc.S[j]
					if !o.covers(px, pz, obstD) || j == i {
						continue
					}
					top, low := topNear(o, px, pz, obstD), o.lo
					if o.covers(px, pz, 0) && o.hi(px, pz) > h+1e-9 && low < h+need {
						ok = false // inside of it, or too low under it
					}
					if strict {
						if !walk[j] && top > h && low < h+need {
							ok = false
						}
						if top > h+step && low < h+need {
							ok = false
						}
					} else if top > h+step && low < h+need {
						ok = false
					}
					if low > h && low < c.gap {
						c.gap = low
					}
				}
				if c.gap-h < need {
					ok = false
				}
				for _, k := range cand {
					if math.Abs(k.h-h) < 1e-9 {
						ok = false
					}
				}
				if ok {
					cand = append(cand, c)
				}
			}
			f.N = append(f.N, cand...)
		}
	}
	f.cell = append(f.cell, int32(len(f.N)))

	if strict {
		// Surfaces too uneven within two cells.
		const k = 4
		bad := make([]bool, len(f.N))
		for y := 0; y < f.H; y++ {
			for x := 0; x < f.W; x++ {
				for i := f.cell[x+y*f.W]; i < f.cell[x+y*f.W+1]; i++ {
					n := &f.N[i]
					lo, hi := n.h, n.h
					for dy := -k; dy <= k; dy++ {
						for dx := -k; dx <= k; dx++ {
							if x+dx < 0 || y+dy < 0 || x+dx >= f.W || y+dy >= f.H {
								continue
							}
							c := x + dx + (y+dy)*f.W
							for j := f.cell[c]; j < f.cell[c+1]; j++ {
								if h := f.N[j].h; math.Abs(h-n.h) < 2*climb+3*ch {
									lo, hi = math.Min(lo, h), math.Max(hi, h)
								}
							}
						}
					}
					bad[i] = hi-lo > step
				}
			}
		}
		var keep []snode
		cell := make([]int32, 0, len(f.cell))
		for c := 0; c < f.W*f.H; c++ {
			cell = append(cell, int32(len(keep)))
			for i := f.cell[c]; i < f.cell[c+1]; i++ {
				if !bad[i] {
					keep = append(keep, f.N[i])
				}
			}
		}
		f.N, f.cell = keep, append(cell, int32(len(keep)))
	}

	// Links.
	for y := 0; y < f.H; y++ {
		for x := 0; x < f.W; x++ {
			for i := f.cell[x+y*f.W]; i < f.cell[x+y*f.W+1]; i++ {
				n := &f.N[i]
				for d, o := range dir8 {
					ax, ay := x+o[0], y+o[1]
					if ax < 0 || ay < 0 || ax >= f.W || ay >= f.H {
						continue
					}
					c := ax + ay*f.W
					for j := f.cell[c]; j < f.cell[c+1]; j++ {
						m := &f.N[j]
						if math.Abs(m.h-n.h) <= step && math.Min(m.gap, n.gap)-math.Max(m.h, n.h) >= need {
							n.nb[d] = append(n.nb[d], j)
						}
					}
				}
			}
		}
	}

	// Distances to the border.
	h := &sceneHeap{}
	for i := range f.N {
		n := &f.N[i]
		n.dist = math.Inf(1)
		dirs := 8
		if !strict {
			dirs = 4
		}
		for d := 0; d < dirs; d++ {
			if len(n.nb[d]) == 0 {
				n.dist = 0
				heap.Push(h, sceneItem{0, int32(i)})
				break
			}
		}
	}
	for h.Len() > 0 {
		it := heap.Pop(h).(sceneItem)
		n := &f.N[it.i]
		if it.d > n.dist {
			continue
		}
		for d, js := range n.nb {
			l := f.s
			if d >= 4 {
				l *= math.Sqrt2
			}
			for _, j := range js {
				if m := &f.N[j]; !strict && (len(m.nb[opp8[d]]) > 1 || math.Abs(m.h-n.h) > climb-2*ch || math.Min(m.gap, n.gap)-math.Max(m.h, n.h) < height+4.1*ch) {
					continue // they may not be joined
				}
				if nd := it.d + l; nd < f.N[j].dist {
					f.N[j].dist = nd
					heap.Push(h, sceneItem{nd, j})
				}
			}
		}
	}
	return f
}

// components joins the nodes at a distance of min or more from the border.
func (f *field) components(min float64) {
	for i := range f.N {
		f.N[i].comp = -1
	}
	var stack []int32
	dirs := 8
	if f.strict {
		dirs = 4
	}
	f.compSize = nil
	for i := range f.N {
		if f.N[i].comp >= 0 || f.N[i].dist < min {
			continue
		}
		c := len(f.compSize)
		f.N[i].comp = c
		stack = append(stack[:0], int32(i))
		size := 0
		for len(stack) > 0 {
			k := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			size++
			for d := 0; d < dirs; d++ {
				for _, j := range f.N[k].nb[d] {
					if f.N[j].comp < 0 && f.N[j].dist >= min {
						f.N[j].comp = c
						stack = append(stack, j)
					}
				}
			}
		}
		f.compSize = append(f.compSize, size)
	}
}

// buildTiles builds a scene as tiles.
func buildTiles(sc *Scene, r *rand.Rand, ctx *recast.BuildContext) (*tilemesh.TileMesh, *detour.NavMesh, error) {
	tm := tilemesh.New(ctx)
	tm.SetSettings(sc.B)
	if err := tm.LoadGeometry(strings.NewReader(sc.obj(r))); err != nil {
		return nil, nil, err
	}
	m, ok := tm.Build()
	if !ok {
		return nil, nil, fmt.Errorf("the build failed")
	}
	return tm, m, nil
}

// buildScene builds a scene as a single tile or as tiles.
func buildScene(sc *Scene, r *rand.Rand, tiled bool, ctx *recast.BuildContext) (*detour.NavMesh, error) {
	if tiled {
		_, m, err := buildTiles(sc, r, ctx)
		return m, err
	}
	sm := solomesh.New(ctx)
	sm.SetSettings(sc.B)
	if err := sm.LoadGeometry(strings.NewReader(sc.obj(r))); err != nil {
		return nil, err
	}
	m, ok := sm.Build()
	if !ok {
		return nil, fmt.Errorf("the build failed")
	}
	return m, nil
}
