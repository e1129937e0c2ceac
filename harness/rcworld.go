package main

// Worlds for the checks of the recast package: columns of solid spans, put into
// a heightfield with triangles that fit into one column each.

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/arl/go-detour/recast"
)

// mspan is a solid span of a column, in height cells.
type mspan struct {
	lo, hi int
	area   uint8
}

var spanOffs = func() (o struct{ smin, smax, area, next uintptr }) {
	t := reflect.TypeOf(recast.Span{})
	for n, p := range map[string]*uintptr{"smin": &o.smin, "smax": &o.smax, "area": &o.area, "next": &o.next} {
		f, ok := t.FieldByName(n)
		if !ok {
			panic("recast.Span has no field " + n)
		}
		*p = f.Offset
	}
	return
}()

// columnOf reads the spans of a column of a heightfield.
func columnOf(hf *recast.Heightfield, i int) (c []mspan) {
	for s := hf.Spans[i]; s != nil; {
		p := unsafe.Pointer(s)
		c = append(c, mspan{int(*(*uint16)(unsafe.Add(p, spanOffs.smin))), int(*(*uint16)(unsafe.Add(p, spanOffs.smax))), *(*uint8)(unsafe.Add(p, spanOffs.area))})
		s = *(**recast.Span)(unsafe.Add(p, spanOffs.next))
		if len(c) > 70000 {
			panic(violated{fmt.Sprintf("the list of spans of column %d never ends", i)})
		}
	}
	return
}

func columnsOf(hf *recast.Heightfield) [][]mspan {
	c := make([][]mspan, len(hf.Spans))
	for i := range c {
		c[i] = columnOf(hf, i)
	}
	return c
}

func sameColumn(a, b []mspan) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// addSolid adds a solid to a column of a heightfield (cell size 1, height 1,
// at the origin) by means of a triangle that lies in the column, by one entry
// point or another.
func addSolid(ctx *recast.BuildContext, hf *recast.Heightfield, x, y int, s mspan, thr int32) bool {
	fx, fz := float32(x)+.25, float32(y)+.25
	lo, hi := float32(s.lo), float32(s.hi)
	v := []float32{fx, lo, fz, fx + .5, hi, fz, fx, lo, fz + .5}
	switch (x + y + s.lo + 5*s.hi + int(s.area)) % 4 {
	case 0:
		return recast.RasterizeTriangles(ctx, v, 3, []int32{0, 1, 2}, []uint8{s.area}, 1, hf, thr)
	case 1:
		return recast.RasterizeTriangles2(ctx, v, []uint8{s.area}, 1, hf, thr)
	}
	return recast.RasterizeTriangle(ctx, v[:3], v[3:6], v[6:], s.area, hf, thr)
}

// GField is a field of columns.
type GField struct {
	W, H   int
	Top    int // height of the field in cells
	C      [][]mspan
	bmin   [3]float32
	cs, ch float32
	kind   string
}

func (g *GField) at(x, y int) *[]mspan { return &g.C[x+y*g.W] }

// heightfield makes a heightfield with these columns.
func (g *GField) heightfield(ctx *recast.BuildContext) *recast.Heightfield {
	hf := recast.NewHeightfield(int32(g.W), int32(g.H), []float32{0, 0, 0}, []float32{float32(g.W), float32(g.Top), float32(g.H)}, 1, 1)
	for y := 0; y < g.H; y++ {
		for x := 0; x < g.W; x++ {
			for _, s := range *g.at(x, y) {
				addSolid(ctx, hf, x, y, s, 0)
			}
		}
	}
	// The world position and scale of the field.
	hf.Cs, hf.Ch = g.cs, g.ch
	hf.BMin = g.bmin
	hf.BMax = [3]float32{g.bmin[0] + float32(g.W)*g.cs, g.bmin[1] + float32(g.Top)*g.ch, g.bmin[2] + float32(g.H)*g.cs}
	return hf
}

// noise makes a smooth random height map.
func noise(r *rand.Rand, w, h int, amp float64) []float64 {
	type wave struct{ a, fx, fy, p float64 }
	var ws []wave
	for i := 0; i < 4; i++ {
		f := (.1 + r.Float64()) * .6
		a := r.Float64() * 2 * math.Pi
		ws = append(ws, wave{r.Float64(), f * math.Cos(a), f * math.Sin(a), r.Float64() * 7})
	}
	m := make([]float64, w*h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for _, v := range ws {
				m[x+y*w] += amp * v.a * math.Sin(v.fx*float64(x)+v.fy*float64(y)+v.p)
			}
		}
	}
	return m
}

// randField makes a random field: noise, terraces, floors with holes and
// obstacles, several storeys, stacked random spans.
func randField(r *rand.Rand, maxSize int) *GField {
	g := randField0(r, maxSize)
	if r.Intn(5) > 0 {
		return g
	}
	// High above the lower bound of the field.
	top := 0
	for _, c := range g.C {
		if n := len(c); n > 0 {
			top = imax(top, c[n-1].hi)
		}
	}
	d := []int{r.Intn(300), 4096 - top/2, 8192 - top/2, 32768 - top/2, r.Intn(65000), 0xfffe - top - r.Intn(20)}[r.Intn(6)]
	d = imax(0, imin(d, 0xfffe-top))
	for _, c := range g.C {
		for i := range c {
			c[i].lo += d
			c[i].hi += d
		}
	}
	g.Top += d
	g.kind += fmt.Sprintf(" %d up", d)
	return g
}

func randField0(r *rand.Rand, maxSize int) *GField {
	g := &GField{W: 1 + r.Intn(maxSize), H: 1 + r.Intn(maxSize), Top: 400, cs: 1, ch: 1}
	if r.Intn(50) == 0 { // a long strip
		long, wide := 250+r.Intn(500), 1+r.Intn(4)
		if r.Intn(12) == 0 {
			long, wide = 4000+r.Intn(300), 1
		}
		if g.W, g.H = long, wide; r.Intn(2) == 0 {
			g.W, g.H = wide, long
		}
	}
	if r.Intn(3) > 0 {
		g.cs = .1 + r.Float32()
		g.ch = .05 + r.Float32()*.5
		for i := range g.bmin {
			g.bmin[i] = (r.Float32() - .5) * 100
		}
	}
	g.C = make([][]mspan, g.W*g.H)
	areas := []uint8{63, 63, 63, 63, 0, 1, 5}
	if r.Intn(2) == 0 {
		areas = []uint8{63}
	}
	area := func() uint8 { return areas[r.Intn(len(areas))] }
	put := func(x, y int, s mspan) {
		if x < 0 || y < 0 || x >= g.W || y >= g.H || s.lo >= s.hi || s.lo < 0 || s.hi > g.Top {
			return
		}
		c := g.at(x, y)
		// Keep the column sorted and without contacts: what overlaps is replaced.
		var n []mspan
		done := false
		for _, o := range *c {
			if o.hi < s.lo {
				n = append(n, o)
				continue
			}
			if o.lo > s.hi {
				if !done {
					n, done = append(n, s), true
				}
				n = append(n, o)
				continue
			}
			// union, the top decides
			if o.hi > s.hi {
				s.area = o.area
				s.hi = o.hi
			}
			if o.lo < s.lo {
				s.lo = o.lo
			}
		}
		if !done {
			n = append(n, s)
		}
		*c = n
	}
	rect := func(f func(x, y int)) {
		x0, y0 := r.Intn(g.W), r.Intn(g.H)
		x1, y1 := x0+1+r.Intn(g.W), y0+1+r.Intn(g.H)
		if r.Intn(2) == 0 {
			x1, y1 = x0+1+r.Intn(1+g.W/3), y0+1+r.Intn(1+g.H/3)
		}
		for y := y0; y < y1 && y < g.H; y++ {
			for x := x0; x < x1 && x < g.W; x++ {
				f(x, y)
			}
		}
	}
	k := r.Intn(6)
	if k == 5 && imax(g.W, g.H) > 1000 {
		k = 3 // not too many spans
	}
	switch k {
	case 0:
		g.kind = "terrain"
		m := noise(r, g.W, g.H, 1+r.Float64()*6)
		a := area()
		for y := 0; y < g.H; y++ {
			for x := 0; x < g.W; x++ {
				h := 60 + int(m[x+y*g.W])
				put(x, y, mspan{h - 1 - r.Intn(3), h, a})
			}
		}
	case 1, 2:
		g.kind = "floor"
		a := area()
		for y := 0; y < g.H; y++ {
			for x := 0; x < g.W; x++ {
				put(x, y, mspan{40, 41, a})
			}
		}
	case 3, 4:
		g.kind = "storeys"
		n := 1 + r.Intn(4)
		for l := 0; l < n; l++ {
			m := noise(r, g.W, g.H, r.Float64()*4)
			hole := noise(r, g.W, g.H, 1)
			a := area()
			for y := 0; y < g.H; y++ {
				for x := 0; x < g.W; x++ {
					if hole[x+y*g.W] > 1 {
						continue
					}
					h := 20 + l*(6+r.Intn(2)+n) + int(m[x+y*g.W])
					put(x, y, mspan{h, h + 1, a})
				}
			}
		}
	case 5:
		g.kind = "random"
		for i := range g.C {
			for h := r.Intn(20); h < 100; h += 1 + r.Intn(20) {
				t := h + 1 + r.Intn(8)
				g.C[i] = append(g.C[i], mspan{h, t, area()})
				h = t
			}
		}
		return g
	}
	// Things added and taken away.
	for n := r.Intn(8); n > 0; n-- {
		switch r.Intn(4) {
		case 0: // hole
			rect(func(x, y int) { *g.at(x, y) = nil })
		case 1: // box
			h := 30 + r.Intn(30)
			a := area()
			rect(func(x, y int) { put(x, y, mspan{20 + r.Intn(2), h, a}) })
		case 2: // ramp
			h, a := 35+r.Intn(10), area()
			sx, sy := r.Intn(5)-2, r.Intn(5)-2
			rect(func(x, y int) { t := h + (x*sx+y*sy)/2; put(x, y, mspan{t - 2, t, a}) })
		case 3: // area change
			a := area()
			rect(func(x, y int) {
				for i := range *g.at(x, y) {
					(*g.at(x, y))[i].area = a
				}
			})
		}
	}
	return g
}

func (g *GField) desc() string {
	n := 0
	for _, c := range g.C {
		n += len(c)
	}
	return fmt.Sprintf("%s %dx%d cells, %d spans, cs %g", g.kind, g.W, g.H, n, g.cs)
}
