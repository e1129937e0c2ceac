package main

import (
	"math"
	"math/rand"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

func init() {
	register(&Prop{ID: "D22", Quick: 6000, Thorough: 200000, Run: runD22,
		Rule:  "a case calls the exported geometric functions on 300 random configurations of integer coordinates (so that the exact answer is known), many of them degenerate: equal, aligned, touching or parallel ones; non-trivial always",
		MinEv: []string{"triangles left", "triangles right", "aligned points", "boxes apart", "boxes touching", "boxes overlapping", "cases of small coordinates", "lines crossing", "lines parallel", "segments inside", "segments cut", "segments missing", "segments along an edge", "centers"}})
}

func runD22(t *T) {
	r := t.R
	size := []int{2, 5, 30, 1000}[r.Intn(4)]
	c := func() int { return r.Intn(2*size+1) - size }
	t.Nontrivial()
	t.Mix(size, r.Int63())
	// Coordinates are multiples of a power of two, which keeps them exact; the
	// smallest triangles remain larger than what counts as degenerate.
	f := float32(1)
	if size < 1000 {
		f /= float32(int(1) << uint(r.Intn(9)))
	} else if r.Intn(2) == 0 {
		f *= 4
	}
	if f < 1 {
		t.Count("cases of small coordinates", 1)
	}
	vec := func() (d3.Vec3, [3]int) {
		p := [3]int{c(), c(), c()}
		return d3.Vec3{f * float32(p[0]), f * float32(p[1]), f * float32(p[2])}, p
	}
	for k := 0; k < 300; k++ {
		a, ai := vec()
		b, bi := vec()
		p, pi := vec()
		q, qi := vec()
		switch r.Intn(6) {
		case 0:
			b, bi = a, ai
		case 1: // parallel
			for i := range q {
				qi[i] = pi[i] + bi[i] - ai[i]
				q[i] = f * float32(qi[i])
			}
		case 2: // aligned
			for i := range p {
				pi[i] = 2*bi[i] - ai[i]
				p[i] = f * float32(pi[i])
			}
		}
		was := [4][3]int{ai, bi, pi, qi}
		// Area of a triangle: positive when c is on the right.
		area := (pi[0]-ai[0])*(bi[2]-ai[2]) - (bi[0]-ai[0])*(pi[2]-ai[2])
		if g := detour.TriArea2D(a, b, p); g != f*f*float32(area) {
			t.Fatalf("TriArea2D(%v,%v,%v) = %g instead of %g", a, b, p, g, f*f*float32(area))
		}
		switch {
		case area < 0:
			t.Count("triangles left", 1)
		case area > 0:
			t.Count("triangles right", 1)
		default:
			t.Count("aligned points", 1)
		}
		// Boxes.
		lo, hi := [2][3]int{}, [2][3]int{}
		var flo, fhi [2][]float32
		var ulo, uhi [2][]uint16
		for i, s := range [2][2][3]int{{ai, bi}, {pi, qi}} {
			for k := 0; k < 3; k++ {
				lo[i][k], hi[i][k] = imin(s[0][k], s[1][k]), imax(s[0][k], s[1][k])
				if r.Intn(3) == 0 && i == 1 { // touching, or one apart
					d := hi[0][k] + r.Intn(3) - lo[1][k]
					if r.Intn(2) == 0 {
						d = lo[0][k] - r.Intn(3) - hi[1][k]
					}
					lo[1][k] += d
					hi[1][k] += d
				}
				flo[i] = append(flo[i], f*float32(lo[i][k]))
				fhi[i] = append(fhi[i], f*float32(hi[i][k]))
				ulo[i] = append(ulo[i], uint16(lo[i][k]+8000))
				uhi[i] = append(uhi[i], uint16(hi[i][k]+8000))
			}
		}
		over, touch := true, false
		for k := 0; k < 3; k++ {
			over = over && lo[0][k] <= hi[1][k] && lo[1][k] <= hi[0][k]
			touch = touch || lo[0][k] == hi[1][k] || lo[1][k] == hi[0][k]
		}
		if g := detour.OverlapBounds(flo[0], fhi[0], flo[1], fhi[1]); g != over {
			t.Fatalf("OverlapBounds(%v,%v) = %v", lo, hi, g)
		}
		if g := detour.OverlapQuantBounds(ulo[0], uhi[0], ulo[1], uhi[1]); g != over {
			t.Fatalf("OverlapQuantBounds(%v,%v) = %v", ulo, uhi, g)
		}
		switch {
		case !over:
			t.Count("boxes apart", 1)
		case touch:
			t.Count("boxes touching", 1)
		default:
			t.Count("boxes overlapping", 1)
		}
		// Where two lines cross.
		ux, uz, vx, vz := bi[0]-ai[0], bi[2]-ai[2], qi[0]-pi[0], qi[2]-pi[2]
		wx, wz := ai[0]-pi[0], ai[2]-pi[2]
		d := uz*vx - ux*vz
		hit, s, u := detour.IntersectSegSeg2D(a, b, p, q)
		if hit != (d != 0) {
			t.Fatalf("IntersectSegSeg2D(%v,%v,%v,%v) = %v", a, b, p, q, hit)
		}
		if hit {
			es, eu := float64(vz*wx-vx*wz)/float64(d), float64(uz*wx-ux*wz)/float64(d)
			if math.Abs(float64(s)-es) > 1e-5*(1+math.Abs(es)) || math.Abs(float64(u)-eu) > 1e-5*(1+math.Abs(eu)) {
				t.Fatalf("IntersectSegSeg2D(%v,%v,%v,%v): crossing at %g and %g instead of %g and %g", a, b, p, q, s, u, es, eu)
			}
			// The two places are one.
			for _, k := range []int{0, 2} {
				x, y := float64(ai[k])+es*float64(bi[k]-ai[k]), float64(pi[k])+eu*float64(qi[k]-pi[k])
				if math.Abs(x-y) > 1e-6*(1+math.Abs(x)+math.Abs(es)*float64(size)) {
					panic("the oracle is wrong")
				}
			}
			t.Count("lines crossing", 1)
		} else {
			t.Count("lines parallel", 1)
		}
		for i, v := range []d3.Vec3{a, b, p, q} {
			for k := range v {
				if v[k] != f*float32(was[i][k]) {
					t.Fatalf("an argument of IntersectSegSeg2D or TriArea2D was changed")
				}
			}
		}
		checkSegPoly(t, r, size, f, a, b, ai, bi)
	}
	t.Desc("coordinates up to %d", size)
}

// checkSegPoly clips a segment by a convex polygon, and finds its center.
func checkSegPoly(t *T, r *rand.Rand, size int, f float32, a, b d3.Vec3, ai, bi [3]int) {
	// The convex hull of a few points.
	pts := make([]pt2, 3+r.Intn(10))
	for i := range pts {
		pts[i] = pt2{r.Intn(2*size+1) - size, r.Intn(2*size+1) - size}
	}
	h := convexHull(pts)
	n := len(h)
	if n < 3 || n > 6 {
		return
	}
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 { // polygons wind the other way
		h[i], h[j] = h[j], h[i]
	}
	verts := make([]float32, 0, 3*n)
	for _, p := range h {
		verts = append(verts, f*float32(p.x), f*float32(r.Intn(5)), f*float32(p.z))
	}
	if r.Intn(5) == 0 { // along an edge
		i := r.Intn(n)
		u, v := h[i], h[(i+1)%n]
		ai[0], ai[2] = 2*u.x-v.x, 2*u.z-v.z
		bi[0], bi[2] = 2*v.x-u.x, 2*v.z-u.z
		if r.Intn(2) == 0 {
			ai, bi = bi, ai
		}
		a, b = d3.Vec3{f * float32(ai[0]), 0, f * float32(ai[2])}, d3.Vec3{f * float32(bi[0]), 0, f * float32(bi[2])}
	}
	was := append([]float32{}, verts...)
	tmin, tmax, smin, smax, res := detour.IntersectSegmentPoly2D(a, b, verts, n)
	for i := range was {
		if was[i] != verts[i] {
			t.Fatalf("IntersectSegmentPoly2D changed the polygon")
		}
	}
	// Exact clipping: inside of an edge is where its line has the others.
	lo, hi := 0., 1.
	miss, unsure, along := false, false, false
	dx, dz := bi[0]-ai[0], bi[2]-ai[2]
	ts := make([]float64, n) // per edge, starting with vertex j
	in := make([]int, n)
	for j := 0; j < n; j++ {
		u, v := h[j], h[(j+1)%n]
		side := (v.z-u.z)*(ai[0]-u.x) - (v.x-u.x)*(ai[2]-u.z) // > 0: inside
		rate := (v.z-u.z)*dx - (v.x-u.x)*dz
		ts[j] = math.NaN()
		if rate == 0 {
			if side < 0 {
				miss = true
			}
			if side == 0 {
				along = true
			}
			continue
		}
		x := -float64(side) / float64(rate)
		ts[j] = x
		if in[j] = sgn(rate); rate > 0 {
			lo = math.Max(lo, x)
		} else {
			hi = math.Min(hi, x)
		}
	}
	if math.Abs(lo-hi) < 1e-6 {
		unsure = true
	}
	miss = miss || lo > hi
	if unsure && !(miss && lo < hi) {
		t.Count("touching segments left out", 1)
		return
	}
	if res == miss {
		t.Fatalf("IntersectSegmentPoly2D(%v,%v,%v) = %v; the segment is inside from %g to %g", a, b, h, res, lo, hi)
	}
	if miss {
		t.Count("segments missing", 1)
		return
	}
	if math.Abs(float64(tmin)-lo) > 1e-5 || math.Abs(float64(tmax)-hi) > 1e-5 {
		t.Fatalf("IntersectSegmentPoly2D(%v,%v,%v) from %g to %g instead of %g to %g", a, b, verts, tmin, tmax, lo, hi)
	}
	ok := func(s int, x, end float64, sign int) bool {
		if s == -1 {
			return math.Abs(x-end) < 1e-6
		}
		return s >= 0 && s < n && in[s] == sign && math.Abs(ts[s]-x) < 1e-5
	}
	if !ok(smin, lo, 0, 1) || !ok(smax, hi, 1, -1) {
		t.Fatalf("IntersectSegmentPoly2D(%v,%v,%v) enters by edge %d and leaves by %d; from %g to %g; edges at %v", a, b, h, smin, smax, lo, hi, ts)
	}
	switch {
	case along:
		t.Count("segments along an edge", 1)
	case lo == 0 && hi == 1:
		t.Count("segments inside", 1)
	default:
		t.Count("segments cut", 1)
	}
	// The center: the mean of the vertices.
	pool := make([]float32, 3*(n+5))
	idx := make([]uint16, n)
	var m [3]float64
	for i, k := range r.Perm(n + 5)[:n] {
		idx[i] = uint16(k)
		copy(pool[k*3:], verts[i*3:i*3+3])
		for j := range m {
			m[j] += float64(verts[i*3+j]) / float64(n)
		}
	}
	g := detour.CalcPolyCenter(idx, int32(n), pool)
	for j := range m {
		if math.Abs(float64(g[j])-m[j]) > 1e-5*float64(f)*float64(1+size) {
			t.Fatalf("CalcPolyCenter(%v) = %v instead of %v", verts, g, m)
		}
	}
	t.Count("centers", 1)
}

// convexHull gives the strictly convex hull of points, counterclockwise.
func convexHull(p []pt2) []pt2 {
	var h []pt2
	start := p[0]
	for _, q := range p {
		if q.x < start.x || q.x == start.x && q.z < start.z {
			start = q
		}
	}
	for cur := start; ; {
		h = append(h, cur)
		next := p[0]
		for _, q := range p {
			if q == cur {
				continue
			}
			if next == cur {
				next = q
				continue
			}
			c := (next.x-cur.x)*(q.z-cur.z) - (next.z-cur.z)*(q.x-cur.x)
			d := func(a pt2) int { return (a.x-cur.x)*(a.x-cur.x) + (a.z-cur.z)*(a.z-cur.z) }
			if c < 0 || c == 0 && d(q) > d(next) {
				next = q
			}
		}
		if next == start || next == cur || len(h) > len(p) {
			return h
		}
		cur = next
	}
}
