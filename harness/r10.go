package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/arl/go-detour/recast"
)

type pt2 struct{ x, z int }

func crossI(a, b, c pt2) int { return (b.x-a.x)*(c.z-a.z) - (c.x-a.x)*(b.z-a.z) }

func sgn(a int) int {
	switch {
	case a > 0:
		return 1
	case a < 0:
		return -1
	}
	return 0
}

func between2(a, b, c pt2) bool { // c is on the line through a and b
	return imin(a.x, b.x) <= c.x && c.x <= imax(a.x, b.x) && imin(a.z, b.z) <= c.z && c.z <= imax(a.z, b.z)
}

func touch2(a, b, c, d pt2) bool {
	p, q, r, s := sgn(crossI(a, b, c)), sgn(crossI(a, b, d)), sgn(crossI(c, d, a)), sgn(crossI(c, d, b))
	if p*q < 0 && r*s < 0 {
		return true
	}
	return p == 0 && between2(a, b, c) || q == 0 && between2(a, b, d) || r == 0 && between2(c, d, a) || s == 0 && between2(c, d, b)
}

// simple tells if a polygon touches itself nowhere.
func simple(l []pt2) bool {
	n := len(l)
	if n < 3 {
		return false
	}
	for i := 0; i < n; i++ {
		a, b := l[i], l[(i+1)%n]
		if a == b {
			return false
		}
		// Edges that turn back.
		if c := l[(i+2)%n]; crossI(a, b, c) == 0 && (b.x-a.x)*(c.x-b.x)+(b.z-a.z)*(c.z-b.z) <= 0 {
			return false
		}
		for k := i + 2; k < n; k++ {
			if i == 0 && k == n-1 {
				continue
			}
			if touch2(a, b, l[k], l[(k+1)%n]) {
				return false
			}
		}
	}
	return true
}

// winding is the number of times a polygon winds around a point which isn't on
// any of its edges; positive as contours are.
func winding(l []pt2, px, pz float64) (w int) {
	for i := range l {
		a, b := l[i], l[(i+1)%len(l)]
		if (float64(a.z) > pz) == (float64(b.z) > pz) {
			continue
		}
		if cx := float64(a.x) + (pz-float64(a.z))/float64(b.z-a.z)*float64(b.x-a.x); cx < px {
			if b.z > a.z {
				w++
			} else {
				w--
			}
		}
	}
	return
}

func area2(l []pt2) (a int) { // twice, positive as contours are
	for i := range l {
		p, q := l[i], l[(i+1)%len(l)]
		a += q.x*p.z - p.x*q.z
	}
	return
}

func contourPts(c *recast.Contour) (l []pt2) {
	for i := 0; i < int(c.NVerts); i++ {
		l = append(l, pt2{int(c.Verts[i*4]), int(c.Verts[i*4+2])})
	}
	return
}

// starContours makes contours by hand: star-shaped polygons next to one
// another, combs and plain rectangles.
func starContours(r *rand.Rand) (*recast.ContourSet, string) {
	cset := &recast.ContourSet{Cs: .5, Ch: .25, MaxError: 1.5}
	n := 1 + r.Intn(3)
	scale := []int{8, 40, 400, 4000}[r.Intn(4)]
	cset.Width, cset.Height = int32(scale*3*n), int32(scale*3)
	cset.BMax = [3]float32{float32(cset.Width) * .5, 100, float32(cset.Height) * .5}
	for k := 0; k < n; k++ {
		var l []pt2
		cx, cz := scale*3*k+scale*3/2, scale*3/2
		switch r.Intn(3) {
		case 0: // star
			m := 3 + r.Intn(30)
			for i := 0; i < m; i++ {
				// Angles decrease: clockwise as contours are.
				a := -2 * math.Pi * (float64(i) + r.Float64()*.9) / float64(m)
				d := (.1 + 1.3*r.Float64()) * float64(scale)
				l = append(l, pt2{cx + int(d*math.Cos(a)), cz + int(d*math.Sin(a))})
			}
		case 1: // comb
			m := 1 + r.Intn(12)
			x0, w := scale*3*k, scale*3/(2*m+2)
			if w == 0 {
				w = 1
			}
			for i := 0; i < m; i++ {
				h := 1 + r.Intn(scale)
				l = append(l, pt2{x0 + 2*i*w, scale + h}, pt2{x0 + (2*i+1)*w, scale + h})
				h = r.Intn(scale)
				l = append(l, pt2{x0 + (2*i+1)*w, scale + h/2}, pt2{x0 + (2*i+2)*w, scale + h/2})
			}
			last := l[len(l)-1]
			l = append(l, pt2{last.x, r.Intn(scale)}, pt2{x0, r.Intn(scale)})
		default: // convex, with vertices on its edges
			m := 1 + r.Intn(6)
			s := 1 + r.Intn(scale/m+1)
			for i := 0; i < m; i++ {
				l = append(l, pt2{cx, cz + i*s})
			}
			for i := 0; i < m; i++ {
				l = append(l, pt2{cx + i*s, cz + m*s})
			}
			for i := 0; i < m; i++ {
				l = append(l, pt2{cx + m*s, cz + (m-i)*s})
			}
			for i := 0; i < m; i++ {
				l = append(l, pt2{cx + (m-i)*s, cz})
			}
		}
		if area2(l) < 0 {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		if r.Intn(4) > 0 { // another vertex first
			i := r.Intn(len(l))
			l = append(append([]pt2{}, l[i:]...), l[:i]...)
		}
		if !simple(l) {
			continue
		}
		c := recast.Contour{NVerts: int32(len(l)), Reg: uint16(k + 1), Area: uint8(1 + r.Intn(63))}
		y := r.Intn(100)
		for _, p := range l {
			c.Verts = append(c.Verts, int32(p.x), int32(y+r.Intn(5)), int32(p.z), 0)
		}
		cset.Conts = append(cset.Conts, c)
	}
	cset.NConts = int32(len(cset.Conts))
	return cset, fmt.Sprintf("%d contours by hand, size %d", len(cset.Conts), scale)
}

// manyContours makes more vertices than most meshes have: an array of octagons,
// with nearly as many vertices as indices can tell apart.
func manyContours(r *rand.Rand, most bool) (*recast.ContourSet, string) {
	cset := &recast.ContourSet{Cs: .5, Ch: .25}
	nx := 70 + r.Intn(18)
	nz := (22500 + r.Intn(42000)) / 8 / nx
	if most {
		nz = 64500 / 8 / nx
	}
	cset.Width, cset.Height = int32(10*nx), int32(10*nz)
	cset.BMax = [3]float32{float32(cset.Width) * .5, 100, float32(cset.Height) * .5}
	for k := 0; k < nx*nz; k++ {
		x, z := k%nx*10, k/nx*10
		a := 1 + r.Intn(3)
		c := recast.Contour{NVerts: 8, Reg: uint16(k + 1), Area: uint8(1 + r.Intn(63))}
		for _, p := range [8]pt2{{a, 0}, {0, a}, {0, 8 - a}, {a, 8}, {8 - a, 8}, {8, 8 - a}, {8, a}, {8 - a, 0}} {
			c.Verts = append(c.Verts, int32(x+p.x), int32(10+r.Intn(3)), int32(z+p.z), 0)
		}
		cset.Conts = append(cset.Conts, c)
	}
	cset.NConts = int32(len(cset.Conts))
	return cset, fmt.Sprintf("%dx%d octagons", nx, nz)
}

// longContour makes one contour of more vertices than most have: a comb.
func longContour(r *rand.Rand, teeth int) (*recast.ContourSet, string) {
	cset := &recast.ContourSet{Cs: .5, Ch: .25, Width: int32(2*teeth + 2), Height: 60}
	cset.BMax = [3]float32{float32(cset.Width) * .5, 100, 30}
	var l []pt2
	for i := 0; i < teeth; i++ {
		h, d := 31+r.Intn(20), 20+r.Intn(10)
		l = append(l, pt2{2 * i, d}, pt2{2 * i, h}, pt2{2*i + 1, h}, pt2{2*i + 1, 20 + r.Intn(10)})
	}
	l = append(l, pt2{l[len(l)-1].x, 1 + r.Intn(15)}, pt2{0, 1 + r.Intn(15)})
	if i := r.Intn(len(l)); area2(l) < 0 {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		l = append(append([]pt2{}, l[i:]...), l[:i]...)
	}
	c := recast.Contour{NVerts: int32(len(l)), Reg: 1, Area: uint8(1 + r.Intn(63))}
	y := r.Intn(100)
	for _, p := range l {
		c.Verts = append(c.Verts, int32(p.x), int32(y+r.Intn(5)), int32(p.z), 0)
	}
	cset.Conts, cset.NConts = []recast.Contour{c}, 1
	return cset, fmt.Sprintf("a contour of %d vertices", len(l))
}

// mergeable is the number of vertices per polygon to use: merging triangles
// takes the cube of their number.
func mergeable(cset *recast.ContourSet, nvp int) int {
	for _, c := range cset.Conts[:cset.NConts] {
		if c.NVerts > 1000 {
			return 3
		}
	}
	return nvp
}

// overlapping makes contours as simplification leaves them when regions are
// thin: the second one has a spike, and lies on the wrong side of the border.
func overlapping(r *rand.Rand) (*recast.ContourSet, string) {
	dx, dz := int32(r.Intn(50)), int32(r.Intn(50))
	cset := &recast.ContourSet{Cs: .5, Ch: .25, Width: 100, Height: 100, BMax: [3]float32{50, 50, 50}, BorderSize: 1}
	for k, l := range [][]int32{
		{0, 41, 8, 32772, 17, 41, 8, 65538, 18, 41, 8, 98308, 20, 41, 8, 32770, 20, 41, 0, 32771, 15, 41, 0, 65540, 3, 41, 0, 98307, 0, 41, 0, 32769},
		{6, 41, 5, 0, 5, 41, 4, 0, 6, 41, 5, 1, 15, 41, 0, 98307, 3, 41, 0, 65537}} {
		for i := 0; i < len(l); i += 4 {
			l[i] += dx
			l[i+2] += dz
		}
		cset.Conts = append(cset.Conts, recast.Contour{Verts: l, NVerts: int32(len(l) / 4), Reg: uint16(k + 1), Area: 63})
	}
	cset.NConts = 2
	return cset, fmt.Sprintf("contours that overlap at %d,%d", dx, dz)
}

func meshPoly(pm *recast.PolyMesh, i int) (l []int) {
	for _, v := range pm.Polys[i*2*int(pm.Nvp) : (i*2+1)*int(pm.Nvp)] {
		if v == 0xffff {
			break
		}
		l = append(l, int(v))
	}
	return
}

func polyPts(pm *recast.PolyMesh, l []int) (p []pt2) {
	for _, v := range l {
		p = append(p, pt2{int(pm.Verts[v*3]), int(pm.Verts[v*3+2])})
	}
	return
}

func init() {
	register(&Prop{ID: "R10", Quick: 50000, Thorough: 400000,
		Rule:   "a case builds a polygon mesh from the contours of a random compact heightfield or from ones made by hand, and compares polygons, their areas, neighbours and borders with the contours, by exact areas and by the number of times contours wind around a point of each cell; non-trivial if there are polygons",
		MinEv:  []string{"polygons", "points_compared", "contours", "contours_merged_with_holes", "neighbour_edges", "portal_edges", "border_vertices_removed", "meshes_of_many_edges", "meshes_too_large", "border_vertices_that_have_to_stay", "regions_compared", "merge_pairs_tried", "long_contours"},
		Assume: []string{"Contours that touch or cross themselves (where simplification was too aggressive) aren't claimed to be partitioned.", "Meshes have at most 32767 polygons: larger indices can't be told from border marks."},
		Run: func(t *T) {
			r := t.R
			var cset *recast.ContourSet
			var desc string
			if t.Idx%6000 == 17 {
				cset, desc = manyContours(r, t.Idx > 6000)
			} else if t.Idx%1000 == 19 {
				cset, desc = overlapping(r)
			} else if k := t.Idx % 3000; k == 20 || k == 21 {
				cset, desc = longContour(r, []int{140, 600 + 500*(t.Idx/3000%2)}[k-20])
				t.Count("long_contours", 1)
			} else if r.Intn(4) == 0 {
				cset, desc = starContours(r)
			} else {
				var bordered []bool
				if t.Idx%4 == 1 {
					bordered = []bool{true}
				}
				_, chf, _, d, _ := partition(t, 24, bordered...)
				cset = &recast.ContourSet{}
				maxErr := []float32{0, 1, 1.3, r.Float32() * 3}[r.Intn(4)]
				maxLen := int32(r.Intn(3) * r.Intn(12))
				if !recast.BuildContours(recast.NewBuildContext(false), chf, maxErr, maxLen, cset, 1) {
					t.Fatalf("%s: no contours", d)
				}
				desc = fmt.Sprintf("%s, maximal error %g, length %d", d, maxErr, maxLen)
				if cset.MaxError != maxErr {
					t.Fatalf("%s: the contours tell a maximal error of %g", desc, cset.MaxError)
				}
			}
			if t.Idx%6000 == 18 { // more vertices than indices
				c := recast.Contour{Reg: 1, Area: 1, NVerts: 4}
				cset = &recast.ContourSet{Cs: .5, Ch: .25, Width: 450, Height: 330, BMax: [3]float32{225, 10, 165}}
				for i := 0; i < 16385; i++ {
					x, z := int32(i%150*3), int32(i/150*3)
					c.Verts = []int32{x, 0, z, 0, x, 0, z + 1, 0, x + 1, 0, z + 1, 0, x + 1, 0, z, 0}
					cset.Conts = append(cset.Conts, c)
				}
				cset.NConts = 16385
				if _, ok := recast.BuildPolyMesh(recast.NewBuildContext(false), cset, 6); ok {
					t.Fatalf("a mesh of %d vertices was built, of which indices can't tell apart more than 65535", 4*cset.NConts)
				}
				t.Count("meshes_too_large", 1)
				return
			}
			conts := cset.Conts[:cset.NConts]
			nvp := 3 + r.Intn(4)
			if r.Intn(6) == 0 {
				nvp = 3 + r.Intn(10)
			}
			if t.Idx%6000 == 17 { // neighbours past 32767 can't be told from borders
				if t.Idx == 6017 {
					nvp = 4
				}
				per := 6
				if nvp > 3 {
					per = 5
				}
				conts = conts[:imin(len(conts), 32767/per)]
				cset.NConts = int32(len(conts))
				desc += fmt.Sprintf(" (%d)", len(conts))
			}
			nvp = mergeable(cset, nvp)
			desc += fmt.Sprintf(", %d vertices per polygon", nvp)
			was := fmt.Sprint(conts)
			pm, ok := recast.BuildPolyMesh(recast.NewBuildContext(false), cset, int32(nvp))
			if !ok {
				t.Fatalf("%s: failed", desc)
			}
			if fmt.Sprint(conts) != was {
				t.Fatalf("%s: the contours were changed", desc)
			}
			if pm.BMin != cset.BMin || pm.BMax != cset.BMax || pm.Cs != cset.Cs || pm.Ch != cset.Ch || int(pm.Nvp) != nvp || pm.BorderSize != cset.BorderSize || pm.MaxEdgeError != cset.MaxError || len(pm.Flags) != int(pm.NPolys) {
				t.Fatalf("%s: the header differs: %v %v %g %g %d %d %g, %d flags", desc, pm.BMin, pm.BMax, pm.Cs, pm.Ch, pm.Nvp, pm.BorderSize, pm.MaxEdgeError, len(pm.Flags))
			}
			checkPolyMesh(t, desc, cset, pm)
			t.Mix(pm.Verts[:pm.NVerts*3], pm.Polys[:int(pm.NPolys)*nvp*2])
			t.Desc("%s: %d contours, %d polygons, %d vertices", desc, len(conts), pm.NPolys, pm.NVerts)
		}})
}

func checkPolyMesh(t *T, desc string, cset *recast.ContourSet, pm *recast.PolyMesh) {
	conts := cset.Conts[:cset.NConts]
	nvp := int(pm.Nvp)
	// Which contours can be compared?
	type cinfo struct {
		l    []pt2
		area int
		good bool
		weak bool // merged with holes
	}
	reg := map[int]*cinfo{}
	regArea := map[int]uint8{}
	allGood, weak := true, false
	corners := map[pt2][][2]int{}
	nb := map[[3]int]bool{}
	for i := range conts {
		c := &conts[i]
		l := contourPts(c)
		for k := range l {
			corners[l[k]] = append(corners[l[k]], [2]int{int(c.Verts[k*4+1]), int(c.Reg)})
			if c.Verts[k*4+3]&ctBorderVertex != 0 {
				nb[[3]int{l[k].x, int(c.Verts[k*4+1]), l[k].z}] = true
			}
		}
		if len(l) < 3 {
			continue
		}
		t.Count("contours", 1)
		ci := &cinfo{l: l, area: area2(l), good: simple(l) && area2(l) > 0}
		if !ci.good && area2(l) > 0 && c.NVerts > 3 {
			if bridged(l) {
				ci.good, ci.weak = true, true
				weak = true
				t.Count("contours_merged_with_holes", 1)
			}
		}
		if reg[int(c.Reg)] != nil {
			ci.good = false // more than one of a region
		}
		reg[int(c.Reg)] = ci
		regArea[int(c.Reg)] = c.Area
		if !ci.good {
			allGood = false
			t.Count("left_out_contours_crossing_themselves", 1)
		}
	}
	for id, ci := range reg {
		if !ci.good {
			delete(reg, id)
		}
	}
	// Vertices.
	at := map[pt2][]int{}
	for i := 0; i < int(pm.NVerts); i++ {
		p, y := pt2{int(pm.Verts[i*3]), int(pm.Verts[i*3+2])}, int(pm.Verts[i*3+1])
		ok := false
		for _, c := range corners[p] {
			ok = ok || c[0] == y
		}
		if !ok {
			t.Fatalf("%s: vertex %d at %d,%d,%d isn't one of the contours", desc, i, p.x, y, p.z)
		}
		for _, o := range at[p] {
			if iabs(o-y) <= 2 {
				t.Fatalf("%s: two vertices at %d,%d with the heights %d and %d weren't merged", desc, p.x, p.z, o, y)
			}
		}
		at[p] = append(at[p], y)
	}
	removed, bent := 0, false
	for p := range corners {
		for _, c := range corners[p] {
			ok := false
			for _, y := range at[p] {
				ok = ok || iabs(y-c[0]) <= 2
			}
			if ok {
				continue
			}
			// Removed, or without a triangle.
			border := false
			for k := range nb {
				border = border || k[0] == p.x && k[2] == p.z && iabs(k[1]-c[0]) <= 2
			}
			if border {
				removed++
				if !straight(conts, p, c[0]) {
					// The corner of a region next to surface without contour.
					allGood, bent = false, true
					t.Count("left_out_bent_border_vertices", 1)
				}
			} else if reg[c[1]] != nil {
				t.Fatalf("%s: the corner %d,%d,%d of region %d isn't a vertex", desc, p.x, c[0], p.z, c[1])
			}
		}
	}
	t.Count("border_vertices_removed", removed)
	// Polygons.
	n := int(pm.NPolys)
	polys := make([][]int, n)
	pts := make([][]pt2, n)
	sum := map[int]int{}
	type de struct{ a, b int }
	type pe struct{ p, e int }
	edges := map[de][]pe{}
	total := 0
	if bent {
		reg = map[int]*cinfo{}
	}
	for i := range polys {
		l := meshPoly(pm, i)
		polys[i] = l
		if len(l) < 3 {
			t.Fatalf("%s: polygon %d has %d vertices", desc, i, len(l))
		}
		row := pm.Polys[i*2*nvp : (i+1)*2*nvp]
		for k := len(l); k < nvp; k++ {
			if row[k] != 0xffff || row[nvp+k] != 0xffff {
				t.Fatalf("%s: polygon %d has something behind its %d vertices: %v", desc, i, len(l), row)
			}
		}
		for k, v := range l {
			if v >= int(pm.NVerts) {
				t.Fatalf("%s: polygon %d refers to vertex %d of %d", desc, i, v, pm.NVerts)
			}
			for m := range l[:k] {
				if l[m] == v && allGood {
					t.Fatalf("%s: polygon %d refers to vertex %d twice", desc, i, v)
				}
			}
			edges[de{v, l[(k+1)%len(l)]}] = append(edges[de{v, l[(k+1)%len(l)]}], pe{i, k})
		}
		p := polyPts(pm, l)
		pts[i] = p
		id := int(pm.Regs[i])
		if reg[id] != nil || allGood {
			for k := range p {
				c := crossI(p[k], p[(k+1)%len(p)], p[(k+2)%len(p)])
				if c > 0 || c == 0 && (reg[id] == nil && !weak || reg[id] != nil && !reg[id].weak) {
					t.Fatalf("%s: polygon %d isn't convex, or not wound as the others, at its vertex %d: %v", desc, i, (k+1)%len(p), p)
				}
			}
			t.Count("polygons", 1)
			t.Nontrivial()
		}
		if a, ok := regArea[id]; ok && a != pm.Areas[i] {
			t.Fatalf("%s: polygon %d of region %d has area %d, want %d", desc, i, id, pm.Areas[i], a)
		} else if !ok && (id != 0 || removed == 0) {
			t.Fatalf("%s: polygon %d has region %d, of which there's no contour", desc, i, id)
		}
		sum[id] += area2(p)
		total += area2(p)
	}
	// Areas.
	want := 0
	for id, ci := range reg {
		want += ci.area
		if removed == 0 && sum[id] != ci.area {
			t.Fatalf("%s: the polygons of region %d have an area of %g, its contour %g", desc, id, float64(sum[id])/2, float64(ci.area)/2)
		}
		t.Count("regions_compared", 1)
	}
	if allGood && total != want {
		t.Fatalf("%s: the polygons have an area of %g, the contours %g", desc, float64(total)/2, float64(want)/2)
	}
	// Points.
	step := imax(1, int(cset.Width)/24)
	for z := 0; z < int(cset.Height); z += step {
		for x := 0; x < int(cset.Width); x += step {
			px, pz := float64(x)+.50123*float64(step), float64(z)+.49871*float64(step)
			var in []int
			for i, p := range pts {
				if winding(p, px, pz) > 0 {
					in = append(in, i)
				}
			}
			all, areas := 0, map[uint8]int{}
			for id, ci := range reg {
				w := winding(ci.l, px, pz)
				all += w
				if w > 0 {
					areas[regArea[id]]++
				}
				t.Count("points_compared", 1)
				have := 0
				for _, i := range in {
					if int(pm.Regs[i]) == id {
						have++
					}
				}
				if removed > 0 && !bent && have > w {
					t.Fatalf("%s: %d polygons of region %d are at %g,%g, where its contour winds %d times (vertices were removed)", desc, have, id, px, pz, w)
				}
				if removed == 0 && have != w {
					t.Fatalf("%s: %d polygons of region %d are at %g,%g, where its contour winds %d times", desc, have, id, px, pz, w)
				}
			}
			if allGood && len(in) != all {
				t.Fatalf("%s: %d polygons are at %g,%g, want %d", desc, len(in), px, pz, all)
			}
			if allGood {
				for _, i := range in {
					areas[pm.Areas[i]]--
				}
				for a, c := range areas {
					if c != 0 {
						t.Fatalf("%s: there are %+d polygons of area %d at %g,%g", desc, -c, a, px, pz)
					}
				}
			}
		}
	}
	// Marked vertices which are left can't be removed.
	type corner struct {
		x, y, z int
		nb      bool
	}
	var made []corner // in the order of the vertices
	if len(nb) > 0 {
		find := map[pt2][]int{}
		for i := range conts {
			c := &conts[i]
			if c.NVerts < 3 {
				continue
			}
			for k := 0; k < int(c.NVerts); k++ {
				v := c.Verts[k*4:]
				q, id := pt2{int(v[0]), int(v[2])}, -1
				for _, m := range find[q] {
					if iabs(made[m].y-int(v[1])) <= 2 {
						id = m // the newest one first, as in the mesh
					}
				}
				if id < 0 {
					id = len(made)
					find[q] = append(find[q], id)
					made = append(made, corner{q.x, int(v[1]), q.z, false})
				}
				made[id].nb = made[id].nb || v[3]&ctBorderVertex != 0
			}
		}
		// Vertices keep their order.
		order := make([]int, pm.NVerts)
		gone := make([]bool, len(made))
		k := 0
		for m, c := range made {
			if k < len(order) && int(pm.Verts[k*3]) == c.x && int(pm.Verts[k*3+1]) == c.y && int(pm.Verts[k*3+2]) == c.z {
				order[k] = m
				k++
			} else {
				gone[m] = true
			}
		}
		if k < len(order) {
			t.Count("left_out_vertex_orders", 1)
			order = nil
		}
		last := -1
		for m, g := range gone {
			if g {
				last = m
			}
		}
		touching := make([][]int, len(order))
		for i, l := range polys {
			for _, v := range l {
				if v < len(touching) && made[order[v]].nb {
					touching[v] = append(touching[v], i)
				}
			}
		}
		for v, m := range order {
			if !made[m].nb || len(touching[v]) == 0 {
				continue
			}
			later := m < last // polygons changed afterwards
			remaining, ends := 0, map[int]int{}
			for _, i := range touching[v] {
				n := 0
				for k, w := range polys[i] {
					if w == v {
						n++
						ends[polys[i][(k+1)%len(polys[i])]]++
						ends[polys[i][(k+len(polys[i])-1)%len(polys[i])]]++
					}
				}
				remaining += len(polys[i]) - n - 1
			}
			open := 0
			for _, n := range ends {
				if n < 2 {
					open++
				}
			}
			if later {
				t.Count("left_out_before_other_removals", 1)
				continue
			}
			if remaining > 2 && open <= 2 {
				t.Fatalf("%s: vertex %d at %v is on a tile border only and could be removed: %d polygons meet there, with %d other edges, %d edges of one polygon", desc, v, made[m], len(touching[v]), remaining, open)
			}
			t.Count("border_vertices_that_have_to_stay", 1)
		}
	}
	// Neighbours.
	nedges := 0
	for _, l := range polys {
		for k := range l {
			if l[k] < l[(k+1)%len(l)] {
				nedges++
			}
		}
	}
	if nedges > 65535 {
		t.Count("meshes_of_many_edges", 1)
	}
	w, h := int(cset.Width), int(cset.Height)
	for i, l := range polys {
		row := pm.Polys[i*2*nvp : (i+1)*2*nvp]
		for k := range l {
			a, b := l[k], l[(k+1)%len(l)]
			others := edges[de{b, a}]
			nei := int(row[nvp+k])
			if nei < 0x8000 {
				ok := false
				for _, o := range others {
					if o.p == nei && int(pm.Polys[o.p*2*nvp+nvp+o.e]) == i {
						ok = true
					}
				}
				if !ok {
					t.Fatalf("%s: edge %d of polygon %d tells the neighbour %d, which doesn't share it or doesn't tell so", desc, k, i, nei)
				}
				t.Count("neighbour_edges", 1)
				continue
			}
			if len(others) == 1 && len(edges[de{a, b}]) == 1 && others[0].p != i {
				t.Fatalf("%s: edge %d of polygon %d is shared with polygon %d, but has neighbour %#x", desc, k, i, others[0].p, nei)
			}
			side := 0xffff
			if cset.BorderSize > 0 {
				p, q := pts[i][k], pts[i][(k+1)%len(l)]
				switch {
				case p.x == 0 && q.x == 0:
					side = 0x8000
				case p.z == h && q.z == h:
					side = 0x8001
				case p.x == w && q.x == w:
					side = 0x8002
				case p.z == 0 && q.z == 0:
					side = 0x8003
				}
				if side != 0xffff {
					t.Count("portal_edges", 1)
				}
			}
			if nei != side {
				t.Fatalf("%s: edge %d of polygon %d without neighbour has %#x, want %#x", desc, k, i, nei, side)
			}
		}
	}
	// Nothing left to merge.
	if nvp > 3 && removed == 0 {
		for e, f := range edges {
			g := edges[de{e.b, e.a}]
			if e.a > e.b || len(f) != 1 || len(g) != 1 {
				continue
			}
			i, j := f[0].p, g[0].p
			if i == j || pm.Regs[i] != pm.Regs[j] || reg[int(pm.Regs[i])] == nil || len(polys[i])+len(polys[j])-2 > nvp {
				continue
			}
			t.Count("merge_pairs_tried", 1)
			ni, nj := len(polys[i]), len(polys[j])
			c1 := crossI(pts[i][(f[0].e+ni-1)%ni], pts[i][f[0].e], pts[j][(g[0].e+2)%nj])
			c2 := crossI(pts[j][(g[0].e+nj-1)%nj], pts[j][g[0].e], pts[i][(f[0].e+2)%ni])
			if c1 < 0 && c2 < 0 {
				t.Fatalf("%s: the polygons %d and %d (of %d and %d vertices) of region %d could be merged", desc, i, j, ni, nj, pm.Regs[i])
			}
		}
	}
}

// straight tells if the outline of the contours that meet at a border vertex
// passes it straight on.
func straight(conts []recast.Contour, p pt2, y int) bool {
	type e struct{ a, b pt2 }
	n := map[e]int{}
	for i := range conts {
		c := &conts[i]
		l := contourPts(c)
		for k, v := range l {
			if v == p && iabs(int(c.Verts[k*4+1])-y) <= 2 {
				for _, d := range []e{{l[(k+len(l)-1)%len(l)], p}, {p, l[(k+1)%len(l)]}} {
					if n[e{d.b, d.a}] > 0 {
						n[e{d.b, d.a}]--
					} else {
						n[d]++
					}
				}
			}
		}
	}
	var in, out []pt2
	for d, k := range n {
		for ; k > 0; k-- {
			if d.b == p {
				in = append(in, d.a)
			} else {
				out = append(out, d.b)
			}
		}
	}
	return len(in) == 1 && len(out) == 1 && crossI(in[0], p, out[0]) == 0
}

// bridged tells if a polygon touches itself only along edges there and back, as
// outlines merged with their holes do, and winds at most once around anything.
func bridged(l []pt2) bool {
	n := len(l)
	lo, hi := l[0], l[0]
	for i := 0; i < n; i++ {
		a, b := l[i], l[(i+1)%n]
		lo, hi = pt2{imin(lo.x, a.x), imin(lo.z, a.z)}, pt2{imax(hi.x, a.x), imax(hi.z, a.z)}
		if a == b {
			return false
		}
		for k := i + 1; k < n; k++ {
			c, d := l[k], l[(k+1)%n]
			if a == c { // only ends of bridges are there twice
				if l[(k+n-1)%n] != b && d != l[(i+n-1)%n] {
					return false
				}
			}
			if a == d && b == c {
				if k == i+1 || i == 0 && k == n-1 {
					return false // a spike
				}
				continue // there and back
			}
			p, q, r, s := sgn(crossI(a, b, c)), sgn(crossI(a, b, d)), sgn(crossI(c, d, a)), sgn(crossI(c, d, b))
			if p*q < 0 && r*s < 0 {
				return false
			}
			// Corners in the middle of edges, or edges on one another.
			in := func(a, b, c pt2, s int) bool { return s == 0 && c != a && c != b && between2(a, b, c) }
			if in(a, b, c, p) || in(a, b, d, q) || in(c, d, a, r) || in(c, d, b, s) || a == c && b == d {
				return false
			}
		}
	}
	for z := lo.z; z < hi.z; z++ {
		for x := lo.x; x < hi.x; x++ {
			if w := winding(l, float64(x)+.50123, float64(z)+.49871); w < 0 || w > 1 {
				return false
			}
		}
	}
	return true
}
