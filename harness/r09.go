package main

import (
	"fmt"
	"math"
	"math/rand"
	"slices"
	"sort"

	"github.com/arl/go-detour/recast"
)

const (
	ctBorderVertex = 0x10000
	ctAreaBorder   = 0x20000
)

// relabel replaces the regions inside the border by others: connected pieces of
// one area as a whole (which may have holes), or cut at random. Pieces that
// would have two spans of a column in a region are left out.
func relabel(r *rand.Rand, chf *recast.CompactHeightfield, at []cspan, areas []uint8, cut bool) {
	id := 0
	seen := make([]bool, len(at))
	inside := func(i int) bool { return areas[i] != 0 && chf.Spans[i].Reg&borderReg == 0 }
	lab := make([]int, len(at))
	for i := range at {
		if seen[i] || !inside(i) || id > 30000 {
			continue
		}
		c := component(chf, at, i, func(k int) bool { return inside(k) && areas[k] == areas[i] }, seen)
		n := 1
		if cut {
			n = 1 + r.Intn(4)
		}
		// Grow n seeds, breadth first or at random.
		var q []int
		cols := make([]map[int]bool, n)
		for k := 0; k < n; k++ {
			s := c[r.Intn(len(c))]
			cols[k] = map[int]bool{}
			if lab[s] == 0 {
				lab[s] = id + 1 + k
				cols[k][at[s].x+at[s].y*int(chf.Width)] = true
				q = append(q, s)
			}
		}
		rnd := r.Intn(2) == 0
		for len(q) > 0 {
			k := 0
			if rnd {
				k = r.Intn(len(q))
			}
			s := q[k]
			q[k] = q[len(q)-1]
			q = q[:len(q)-1]
			for d := 0; d < 4; d++ {
				m := neighbour(chf, at[s], d)
				if m < 0 || lab[m] != 0 || !inside(m) || areas[m] != areas[i] {
					continue
				}
				l := lab[s] - id - 1
				col := at[m].x + at[m].y*int(chf.Width)
				if cols[l][col] {
					continue // above or below the same region: stays out
				}
				cols[l][col] = true
				lab[m] = lab[s]
				q = append(q, m)
			}
		}
		id += n
	}
	for i := range at {
		if inside(i) {
			chf.Spans[i].Reg = uint16(lab[i])
		} else if chf.Spans[i].Reg&borderReg == 0 {
			chf.Spans[i].Reg = 0
		}
	}
	chf.MaxRegions = uint16(id)
}

// partition makes a compact heightfield with regions, the way the library does
// it or by hand.
func partition(t *T, size int, bordered ...bool) (g *GField, chf *recast.CompactHeightfield, at []cspan, desc string, kind int) {
	r := t.R
	g, chf, at, agent := randCompact(t, size)
	border := int32(0)
	if r.Intn(3) == 0 {
		border = int32(r.Intn(5))
	}
	kind = r.Intn(3)
	if len(bordered) > 0 { // many regions along borders
		border, kind = int32(1+r.Intn(3)), imin(1, r.Intn(4))*2
	}
	if kind == 1 && r.Intn(2) == 0 { // holes
		a := []uint8{0, 0, 0, 5}[r.Intn(4)]
		for n := 2 + r.Intn(7); n > 0; n-- {
			x0, y0, w, h := r.Intn(g.W), r.Intn(g.H), 1+r.Intn(4), 1+r.Intn(4)
			diag := r.Intn(3) == 0
			for i, s := range at {
				if s.x >= x0 && s.x < x0+w && s.y >= y0 && s.y < y0+h && chf.Areas[i] != 0 && (!diag || s.x-x0 <= s.y-y0) {
					chf.Areas[i] = a
				}
			}
		}
	}
	minA, mergeA := int32(r.Intn(10)), int32(r.Intn(100))
	if kind > 0 {
		minA, mergeA = 0, 0
	}
	recast.BuildRegionsMonotone(recast.NewBuildContext(false), chf, border, minA, mergeA)
	if kind > 0 {
		relabel(r, chf, at, chf.Areas, kind == 2)
	}
	return g, chf, at, fmt.Sprintf("%s, %s, border %d, %s regions", g.desc(), agent, border, []string{"monotone", "whole", "cut"}[kind]), kind
}

// combField makes a field in the form of a comb, with some columns missing.
func combField(t *T, n, missing int) *GField {
	r := t.R
	g := &GField{kind: "comb", W: n, H: n, Top: 100, cs: 1, ch: 1}
	g.C = make([][]mspan, n*n)
	gap, along, period := 1+r.Intn(3), r.Intn(2) == 0, 2+r.Intn(2)
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			tooth, depth := y, x
			if along {
				tooth, depth = x, y
			}
			if tooth%period != 1 || depth < gap {
				*g.at(x, y) = append(*g.at(x, y), mspan{0, 3 + r.Intn(2), 63})
			}
		}
	}
	for ; missing > 0; missing-- {
		*g.at(r.Intn(n), r.Intn(n)) = nil
	}
	return g
}

// combRegion makes a region with a very long outline: a comb.
func combRegion(t *T) (g *GField, chf *recast.CompactHeightfield, at []cspan, desc string) {
	r := t.R
	g = combField(t, 100+r.Intn(100), 0)
	n := g.W
	chf = compact(t, g, 3, 1)
	at = chfCells(t, chf)
	merge := r.Intn(n * n)
	recast.BuildRegionsMonotone(recast.NewBuildContext(false), chf, 0, 0, int32(merge))
	regs := map[uint16]bool{}
	longest := 0
	for reg, spans := range regionsOf(chf) {
		regs[uint16(reg)] = true
		for _, l := range traceLoops(chf, at, reg, spans) {
			longest = imax(longest, len(l))
		}
	}
	if longest > 20000 {
		t.Count("very_long_outlines", 1)
	}
	return g, chf, at, fmt.Sprintf("comb of %dx%d columns with teeth, %d regions, longest outline %d edges", n, n, len(regs), longest)
}

// rawVert is a vertex of the outline of a region: the end of an edge of a cell,
// with the height of the corner and what is on the other side of the edge.
type rawVert struct{ x, y, z, r int }

// traceLoops traces the outlines of a region: from edge to edge, always keeping
// to the same cell when a corner has a choice.
func traceLoops(chf *recast.CompactHeightfield, at []cspan, reg int, spans []int) (loops [][]rawVert) {
	type edge struct{ i, d int }
	open := func(i, d int) bool { // is it an edge of the region?
		n := neighbour(chf, at[i], d)
		return n < 0 || int(chf.Spans[n].Reg) != reg
	}
	done := map[edge]bool{}
	for _, s := range spans {
		for d := 0; d < 4; d++ {
			e := edge{s, d}
			if !open(s, d) || done[e] {
				continue
			}
			var l []rawVert
			for !done[e] {
				done[e] = true
				l = append(l, rawCorner(chf, at, e.i, e.d))
				// The next edge starts at the end of this one.
				i, d := e.i, (e.d+1)&3
				for !open(i, d) {
					i = neighbour(chf, at[i], d)
					d = (d + 3) & 3
				}
				e = edge{i, d}
			}
			loops = append(loops, l)
		}
	}
	return
}

// rawCorner gives the vertex at the end of the edge of span i in direction d.
func rawCorner(chf *recast.CompactHeightfield, at []cspan, i, d int) rawVert {
	s := at[i]
	v := rawVert{x: s.x, z: s.y, y: int(chf.Spans[i].Y)}
	switch d { // clockwise: the corner between the directions d and d+1
	case 0:
		v.z++
	case 1:
		v.x++
		v.z++
	case 2:
		v.x++
	}
	dp := (d + 1) & 3
	around := [4]int{i, neighbour(chf, s, d), -1, neighbour(chf, s, dp)}
	for _, k := range []struct{ n, d int }{{around[1], dp}, {around[3], d}} {
		if k.n >= 0 {
			if n := neighbour(chf, at[k.n], k.d); n >= 0 {
				around[2] = n
				v.y = imax(v.y, int(chf.Spans[n].Y))
			}
		}
	}
	all := true
	for _, n := range around {
		if n >= 0 {
			v.y = imax(v.y, int(chf.Spans[n].Y))
		}
		// Regions and areas: all of the cells must be there.
		if n < 0 || chf.Spans[n].Reg == 0 && chf.Areas[n] == 0 {
			all = false
		}
	}
	if o := around[1]; o >= 0 {
		v.r = int(chf.Spans[o].Reg)
		if chf.Areas[o] != chf.Areas[i] {
			v.r |= ctAreaBorder
		}
	}
	if all {
		for j := 0; j < 4; j++ {
			a, b, c, e := around[j], around[(j+1)&3], around[(j+2)&3], around[(j+3)&3]
			ext := chf.Spans[a].Reg&borderReg != 0 && chf.Spans[a].Reg == chf.Spans[b].Reg && chf.Areas[a] == chf.Areas[b]
			in := chf.Spans[c].Reg&borderReg == 0 && chf.Spans[e].Reg&borderReg == 0 && chf.Areas[c] == chf.Areas[e]
			if ext && in {
				v.r |= ctBorderVertex
			}
		}
	}
	return v
}

func rawKey(l []rawVert) string {
	// Rotate the smallest rotation first: start at the smallest vertex sequence.
	best := 0
	less := func(a, b int) bool {
		for k := range l {
			x, y := l[(a+k)%len(l)], l[(b+k)%len(l)]
			if x != y {
				if x.x != y.x {
					return x.x < y.x
				}
				if x.z != y.z {
					return x.z < y.z
				}
				if x.y != y.y {
					return x.y < y.y
				}
				return x.r < y.r
			}
		}
		return false
	}
	for i := range l {
		if less(i, best) {
			best = i
		}
	}
	return fmt.Sprint(append(append([]rawVert{}, l[best:]...), l[:best]...))
}

func ringArea(l []rawVert) (a int) {
	for i := range l {
		p, q := l[i], l[(i+1)%len(l)]
		a += q.x*p.z - p.x*q.z
	}
	return a // twice the area
}

func vertsOf(v []int32, n int32) (l []rawVert) {
	for i := 0; i < int(n); i++ {
		l = append(l, rawVert{int(v[i*4]), int(v[i*4+1]), int(v[i*4+2]), int(v[i*4+3])})
	}
	return
}

func ptSeg(p, a, b rawVert) float64 {
	ax, az, bx, bz := float64(a.x), float64(a.z), float64(b.x), float64(b.z)
	px, pz := float64(p.x), float64(p.z)
	d := (bx-ax)*(bx-ax) + (bz-az)*(bz-az)
	s := 0.0
	if d > 0 {
		s = math.Max(0, math.Min(1, ((px-ax)*(bx-ax)+(pz-az)*(bz-az))/d))
	}
	return math.Hypot(ax+s*(bx-ax)-px, az+s*(bz-az)-pz)
}

func sameContours(a, b *recast.ContourSet) bool {
	if a.NConts != b.NConts {
		return false
	}
	for i := range a.Conts[:a.NConts] {
		p, q := &a.Conts[i], &b.Conts[i]
		if p.Reg != q.Reg || p.Area != q.Area || !slices.Equal(p.Verts[:p.NVerts*4], q.Verts[:q.NVerts*4]) || !slices.Equal(p.RVerts[:p.NRVerts*4], q.RVerts[:q.NRVerts*4]) {
			return false
		}
	}
	return true
}

func init() {
	register(&Prop{ID: "R09", Quick: 40000, Thorough: 500000,
		Rule:   "a case makes the contours of the regions of a random compact heightfield, partitioned by the library, by connected pieces (with holes) or cut at random, and compares raw outlines with the edges of the regions traced independently, and simplified ones with their raw outlines; non-trivial if there are contours",
		MinEv:  []string{"contours", "raw_vertices", "holes_found", "regions_merged_with_holes", "simplified_edges", "edges_between_regions", "edges_matched_from_both_sides", "border_vertices", "area_borders", "long_edges_split", "dropped_contours", "merged_outlines_checked", "bridges_checked", "limits_out_of_reach", "very_long_outlines"},
		Assume: []string{"Simplified outlines are matched with their raw ones up to vertices at the same place, which may have been removed."},
		Run: func(t *T) {
			r := t.R
			size := 24
			if t.Idx%500 == 499 {
				size = 90
			}
			if t.Idx%50 == 7 {
				size = 50
			}
			g, chf, at, desc, _ := partition(t, size)
			if t.Idx%1000 == 777 {
				g, chf, at, desc = combRegion(t)
			}
			maxErr := []float32{0, 0, 1, 1.3, r.Float32() * 4}[r.Intn(5)]
			maxLen := int32(0)
			flags := int32(r.Intn(4))
			if r.Intn(2) == 0 {
				maxLen = int32(r.Intn(14))
			}
			desc = fmt.Sprintf("%s, maximal error %g, length %d, flags %d", desc, maxErr, maxLen, flags)
			before := append([]recast.CompactSpan{}, chf.Spans...)
			cset := &recast.ContourSet{}
			if !recast.BuildContours(recast.NewBuildContext(false), chf, maxErr, maxLen, cset, flags) {
				t.Fatalf("%s: failed", desc)
			}
			for i := range before {
				if before[i] != chf.Spans[i] {
					t.Fatalf("%s: span %d was changed", desc, i)
				}
			}
			bs := chf.BorderSize
			pad := float32(bs) * chf.Cs
			wmin, wmax := [3]float32{chf.BMin[0] + pad, chf.BMin[1], chf.BMin[2] + pad}, [3]float32{chf.BMax[0] - pad, chf.BMax[1], chf.BMax[2] - pad}
			if cset.BMin != wmin || cset.BMax != wmax || cset.Width != chf.Width-2*bs || cset.Height != chf.Height-2*bs || cset.BorderSize != bs || cset.Cs != chf.Cs || cset.Ch != chf.Ch {
				t.Fatalf("%s: the header differs: %v %v %d %d, want %v %v", desc, cset.BMin, cset.BMax, cset.Width, cset.Height, wmin, wmax)
			}
			conts := cset.Conts[:cset.NConts]
			if maxLen == 0 && r.Intn(8) == 0 {
				// A limit above the length of any edge is none.
				free := g.W + g.H + r.Intn(5)
				huge := []int{free, free, 46340, 46341, 65535, 65536, 92682, 1<<24 + 1, 1 << 30, math.MaxInt32}[r.Intn(10)]
				other := &recast.ContourSet{}
				if !recast.BuildContours(recast.NewBuildContext(false), chf, maxErr, int32(huge), other, flags) || !sameContours(cset, other) {
					t.Fatalf("%s: a limit to the length of edges of %d cells, on %dx%d columns, changes the contours", desc, huge, g.W, g.H)
				}
				t.Count("limits_out_of_reach", 1)
			}
			regs := regionsOf(chf)
			var ids []int
			for reg := range regs {
				if reg != 0 && reg&borderReg == 0 {
					ids = append(ids, reg)
				}
			}
			sort.Ints(ids)
			byReg := map[int][]*recast.Contour{}
			for i := range conts {
				c := &conts[i]
				byReg[int(c.Reg)] = append(byReg[int(c.Reg)], c)
			}
			total := 0
			type dedge struct{ ax, az, bx, bz, reg, to int }
			edges := map[dedge]bool{}
			holed := map[int]bool{}
			irregular := map[int]bool{}
			runs := map[runKey]*run{}
			for _, reg := range ids {
				spans := regs[reg]
				area := chf.Areas[spans[0]]
				loops := traceLoops(chf, at, reg, spans)
				have := map[string][]*recast.Contour{}
				for _, c := range byReg[reg] {
					if c.Area != area {
						t.Fatalf("%s: the contour of region %d has area %d, want %d", desc, reg, c.Area, area)
					}
					raw := vertsOf(c.RVerts, c.NRVerts)
					have[rawKey(raw)] = append(have[rawKey(raw)], c)
				}
				exact := maxErr == 0 // the simplified outlines should be the raw ones
				outlines, nholes, slits := 0, 0, 0
				for _, l := range loops {
					for i := range l {
						l[i].x -= int(bs)
						l[i].z -= int(bs)
						if l[i].r&ctBorderVertex != 0 {
							t.Count("border_vertices", 1)
						}
						if l[i].r&ctAreaBorder != 0 {
							t.Count("area_borders", 1)
						}
					}
					switch a := ringArea(l); {
					case a < 0:
						nholes++
						t.Count("holes_found", 1)
					case a == 0: // a step in the middle of the region
						slits++
						t.Count("slits_found", 1)
					default:
						outlines++
					}
					k := rawKey(l)
					cs := have[k]
					ok := false
					if len(cs) > 0 {
						c := cs[0]
						have[k] = cs[1:]
						total++
						t.Count("raw_vertices", len(l))
						if c.NVerts > 0 && c.NVerts < 3 {
							t.Fatalf("%s: a contour of region %d has %d vertices", desc, reg, c.NVerts)
						}
						ok = true
					} else {
						if !droppable(l, len(spans), float64(maxErr)) {
							t.Fatalf("%s: region %d of %d cells has no contour with the raw outline of %d edges %.2000s", desc, reg, len(spans), len(l), fmt.Sprint(l))
						}
						t.Count("dropped_contours", 1)
						exact = false
					}
					_ = ok
					// Where the outline follows another region it's cut short.
					n := 0
					for i := range l {
						p, q, s := l[i], l[(i+1)%len(l)], l[(i+2)%len(l)]
						if q.r&0xffff != 0 && q.r&ctAreaBorder == 0 && q.r&0xffff == s.r&0xffff && (p.x-q.x != q.x-s.x || p.z-q.z != q.z-s.z) {
							exact = false
						}
						if q.r&0xffff == 0 {
							n++
						}
					}
				}
				for k, cs := range have {
					if len(cs) > 0 {
						t.Fatalf("%s: region %d has a contour more, with the raw outline %.2000s", desc, reg, k)
					}
				}
				if outlines != 1 {
					t.Fatalf("%s: region %d has %d outlines, the check expects one", desc, reg, outlines)
				}
				if nholes > 0 || slits > 0 {
					holed[reg] = true
				}
				for _, l := range loops {
					addRuns(runs, l, reg)
				}
				// Simplified outlines.
				for _, c := range byReg[reg] {
					raw, sv := vertsOf(c.RVerts, c.NRVerts), vertsOf(c.Verts, c.NVerts)
					if nholes > 0 || slits > 0 {
						continue // holes may have been merged into it
					}
					if len(sv) == 0 {
						t.Fatalf("%s: region %d has an empty contour and no hole", desc, reg)
					}
					if !checkSimplified(t, raw, sv, float64(maxErr), int(maxLen), int(flags)) {
						dup := false
						seen := map[[2]int]bool{}
						for _, v := range raw {
							dup = dup || seen[[2]int{v.x, v.z}]
							seen[[2]int{v.x, v.z}] = true
						}
						if !dup {
							t.Fatalf("%s: the simplified outline of region %d\n%v\nisn't the raw one\n%v\nwithin the tolerance, with its changes of neighbours", desc, reg, sv, raw)
						}
						t.Count("left_out_touching_itself", 1)
						irregular[reg] = true
					}
					for i := range sv {
						a, b := sv[i], sv[(i+1)%len(sv)]
						if to := a.r & 0xffff; to != 0 && to&borderReg == 0 {
							edges[dedge{a.x, a.z, b.x, b.z, reg, to}] = true
							t.Count("edges_between_regions", 1)
						}
						t.Count("simplified_edges", 1)
					}
				}
				if nholes > 0 && slits == 0 {
					checkHoled(t, desc, reg, byReg[reg], exact && (maxLen == 0 || flags == 0), spans, at, int(bs), float64(maxErr), int(maxLen), int(flags))
				}
				// Holes are merged into the outline.
				if exact && nholes > 0 && slits == 0 && (maxLen == 0 || flags == 0) {
					checkMerged(t, desc, reg, spans, at, int(bs), byReg[reg])
					t.Count("regions_merged_with_holes", 1)
				}
			}
			for reg := range byReg {
				if len(regs[reg]) == 0 {
					t.Fatalf("%s: a contour of region %d, which doesn't exist", desc, reg)
				}
			}
			// Both sides agree.
			for e := range edges {
				if holed[e.reg] || holed[e.to] || irregular[e.reg] || irregular[e.to] || len(byReg[e.to]) == 0 || !mirrored(runs, e.ax, e.az, e.reg, e.to) {
					continue
				}
				if !edges[dedge{e.bx, e.bz, e.ax, e.az, e.to, e.reg}] {
					t.Fatalf("%s: the contour of region %d has an edge next to region %d from %d,%d to %d,%d, which region %d doesn't have", desc, e.reg, e.to, e.ax, e.az, e.bx, e.bz, e.to)
				}
				t.Count("edges_matched_from_both_sides", 1)
			}
			t.Count("contours", total)
			if total > 0 {
				t.Nontrivial()
			}
			t.Mix(g.C, chf.Spans, maxErr, maxLen, flags)
			t.Desc("%s: %d contours", desc, total)
		}})
}

// run is a stretch of the outline of a region along which the neighbour is the
// same: its corners from the first to the last.
type run struct {
	pts  [][2]int
	bad  bool // more than one run goes there
	area bool
}

type runKey struct{ x, z, reg, to int } // a corner it passes

// addRuns adds the runs of an outline, by the corners edges of them start at.
func addRuns(runs map[runKey]*run, l []rawVert, reg int) {
	n := len(l)
	key := func(i int) int { return l[i%n].r & (0xffff | ctAreaBorder) }
	s := -1
	for i := range l {
		if key(i) != key(i+1) {
			s = i
			break
		}
	}
	if s < 0 {
		return
	}
	for i := 0; i < n; {
		ru := &run{pts: [][2]int{{l[(s+i)%n].x, l[(s+i)%n].z}}, area: key(s+i+1)&ctAreaBorder != 0}
		k := key(s + i + 1)
		for i < n && key(s+i+1) == k {
			a := runKey{l[(s+i)%n].x, l[(s+i)%n].z, reg, k & 0xffff}
			if o := runs[a]; o != nil {
				o.bad, ru.bad = true, true
			}
			runs[a] = ru
			i++
			ru.pts = append(ru.pts, [2]int{l[(s+i)%n].x, l[(s+i)%n].z})
		}
	}
}

// mirrored tells if the other region has the run of a region next to it, the
// other way around.
func mirrored(runs map[runKey]*run, x, z, reg, to int) bool {
	a := runs[runKey{x, z, reg, to}]
	if a == nil || a.bad {
		return false
	}
	e := a.pts[len(a.pts)-1]
	b := runs[runKey{e[0], e[1], to, reg}]
	if b == nil || b.bad || len(a.pts) != len(b.pts) || a.area != b.area {
		return false
	}
	for i, p := range a.pts {
		if b.pts[len(b.pts)-1-i] != p {
			return false
		}
	}
	return true
}

// droppable tells if an outline may be left out as it's nothing once simplified.
func droppable(l []rawVert, cells int, maxErr float64) bool {
	if cells == 1 {
		return true
	}
	dup := map[[2]int]bool{}
	for _, v := range l {
		k := [2]int{v.x, v.z}
		if dup[k] {
			return true // touching itself: vertices at the same place are removed
		}
		dup[k] = true
	}
	if len(l) == 4 { // a single cell, the edges of which are all open
		return true
	}
	var keep []int
	any := false
	for i := range l {
		any = any || l[i].r&0xffff != 0
	}
	for i := range l {
		n := l[(i+1)%len(l)]
		if any && (l[i].r&0xffff != n.r&0xffff || l[i].r&ctAreaBorder != n.r&ctAreaBorder) {
			keep = append(keep, i)
		}
	}
	if len(keep) > 2 {
		return false
	}
	if len(keep) == 0 { // leftmost and rightmost
		a, b := 0, 0
		for i, v := range l {
			if v.x < l[a].x || v.x == l[a].x && v.z < l[a].z {
				a = i
			}
			if v.x > l[b].x || v.x == l[b].x && v.z > l[b].z {
				b = i
			}
		}
		keep = []int{a, b}
	}
	for i, v := range l {
		if i == keep[0] || i == keep[1] {
			continue
		}
		if (v.r&0xffff == 0 || v.r&ctAreaBorder != 0) && ptSeg(v, l[keep[0]], l[keep[1]]) > maxErr+1e-4 {
			return false
		}
	}
	return true
}

// checkSimplified tells if a simplified outline is made of vertices of the raw
// one, in order, keeps those where the neighbour changes, and stays within the
// tolerance along walls and other areas.
func checkSimplified(t *T, raw, sv []rawVert, maxErr float64, maxLen, flags int) bool {
	n := len(raw)
	conn := false
	for _, v := range raw {
		conn = conn || v.r&0xffff != 0
	}
	tess := maxLen > 0 && flags != 0
	lim := maxErr + 1e-3
	if tess {
		lim = 2*maxErr + 1e-3
	}
	pos := map[[3]int][]int{}
	for i, v := range raw {
		k := [3]int{v.x, v.y, v.z}
		pos[k] = append(pos[k], i)
	}
	at := func(v rawVert) []int { return pos[[3]int{v.x, v.y, v.z}] }
	edge := func(ai, bi, k int) bool {
		steps := (bi - ai + n) % n
		if steps == 0 {
			steps = n
		}
		first := raw[(ai+1)%n]
		a, b := sv[k], sv[(k+1)%len(sv)]
		wall := first.r&0xffff == 0
		if a.r != first.r&(0xffff|ctAreaBorder)|raw[ai].r&ctBorderVertex {
			return false
		}
		for s := 1; s <= steps; s++ {
			v := raw[(ai+s)%n]
			if conn && (v.r&0xffff != first.r&0xffff || v.r&ctAreaBorder != first.r&ctAreaBorder) {
				return false
			}
			if s < steps && (wall || first.r&ctAreaBorder != 0) && ptSeg(v, a, b) > lim {
				// The vertices at which a long edge is split may be anywhere along it.
				near := false
				for m := range sv {
					near = near || tess && ptSeg(v, sv[m], sv[(m+1)%len(sv)]) <= lim
				}
				if !near {
					return false
				}
			}
		}
		// Length.
		if tess && (flags&1 != 0 && wall || flags&2 != 0 && first.r&ctAreaBorder != 0) {
			if l := (a.x-b.x)*(a.x-b.x) + (a.z-b.z)*(a.z-b.z); l > maxLen*maxLen && steps > 1 {
				return false
			}
			t.Count("long_edges_split", 1)
		}
		return true
	}
	budget := 100000
	var rec func(k, start, cur, gone int) bool
	rec = func(k, start, cur, gone int) bool {
		if budget--; budget < 0 {
			return false
		}
		if k == len(sv)-1 {
			return edge(cur, start, k)
		}
		for _, c := range at(sv[k+1]) {
			d := (c - cur + n) % n
			if d == 0 || gone+d >= n {
				continue
			}
			if edge(cur, c, k) && rec(k+1, start, c, gone+d) {
				return true
			}
		}
		return false
	}
	for _, s := range at(sv[0]) {
		if rec(0, s, s, 0) {
			return true
		}
	}
	return false
}

// checkMerged checks that the contour of a region with holes encloses exactly
// the cells of the region.
func checkMerged(t *T, desc string, reg int, spans []int, at []cspan, bs int, cs []*recast.Contour) {
	var sv []rawVert
	n := 0
	for _, c := range cs {
		if c.NVerts > 0 {
			n++
			sv = vertsOf(c.Verts, c.NVerts)
		}
	}
	if n != 1 {
		m := ""
		for _, c := range cs {
			if c.NVerts > 0 {
				m += fmt.Sprintf(" %v (area %g)", vertsOf(c.Verts, c.NVerts), float64(ringArea(vertsOf(c.Verts, c.NVerts)))/2)
			}
		}
		t.Fatalf("%s: region %d has %d contours left, its holes should be merged into one:%s", desc, reg, n, m)
	}
	in := map[[2]int]bool{}
	for _, i := range spans {
		in[[2]int{at[i].x - bs, at[i].y - bs}] = true
	}
	if a := ringArea(sv); a != 2*len(spans) {
		t.Fatalf("%s: region %d has %d cells, its contour %v has area %g", desc, reg, len(spans), sv, float64(a)/2)
	}
	// Winding number of the centre of each cell around, by crossings of a ray to -x.
	lo, hi := sv[0], sv[0]
	for _, v := range sv {
		lo.x, lo.z, hi.x, hi.z = imin(lo.x, v.x), imin(lo.z, v.z), imax(hi.x, v.x), imax(hi.z, v.z)
	}
	for z := lo.z; z < hi.z; z++ {
		for x := lo.x; x < hi.x; x++ {
			px, pz := float64(x)+.5, float64(z)+.4999
			w := 0
			for i := range sv {
				a, b := sv[i], sv[(i+1)%len(sv)]
				if (float64(a.z) > pz) == (float64(b.z) > pz) {
					continue
				}
				if cx := float64(a.x) + (pz-float64(a.z))/float64(b.z-a.z)*float64(b.x-a.x); cx < px {
					if b.z > a.z {
						w++
					} else {
						w--
					}
				}
			}
			want := 0
			if in[[2]int{x, z}] {
				want = 1
			}
			if w != want && w != -want {
				t.Fatalf("%s: the contour of region %d (merged with its holes) winds %d times around the cell %d,%d, want %d: %v", desc, reg, w, x, z, want, sv)
			}
		}
	}
}

// splitBridges takes a merged contour apart: into the outline and the holes it
// was made of, and the bridges between them.
func splitBridges(sv []rawVert) (rings [][]rawVert, bridges [][2]rawVert) {
	n := len(sv)
	for i := 0; i < n; i++ {
		u, v := sv[i], sv[(i+1)%n]
		for d := 2; d < n-1; d++ { // from v around a ring, and back to it
			j := (i + d) % n
			if sv[j] != v || sv[(j+1)%n] != u {
				continue
			}
			take := func(from, m int) (l []rawVert) {
				for k := 0; k < m; k++ {
					l = append(l, sv[(from+k)%n])
				}
				return
			}
			a, ab := splitBridges(take(i+1, d-1))
			b, bb := splitBridges(take(j+1, n-d-1))
			return append(a, b...), append(append(append(bridges, ab...), bb...), [2]rawVert{u, v})
		}
	}
	return [][]rawVert{sv}, nil
}

func side2(a, b, c rawVert) int {
	return (b.x-a.x)*(c.z-a.z) - (c.x-a.x)*(b.z-a.z)
}

// crossing tells if two segments cross, each having its ends on both sides of the other.
func crossing(a, b, c, d rawVert) bool {
	s := func(x int) int {
		switch {
		case x > 0:
			return 1
		case x < 0:
			return -1
		}
		return 0
	}
	return s(side2(a, b, c))*s(side2(a, b, d)) < 0 && s(side2(c, d, a))*s(side2(c, d, b)) < 0
}

func samePlace(a, b rawVert) bool { return a.x == b.x && a.z == b.z }

// touching tells if two segments meet anywhere other than at common ends.
func touching(a, b, c, d rawVert) bool {
	if crossing(a, b, c, d) {
		return true
	}
	on := func(p, a, b rawVert) bool { return ptSeg(p, a, b) < 1e-9 && !samePlace(p, a) && !samePlace(p, b) }
	return on(a, c, d) || on(b, c, d) || on(c, a, b) || on(d, a, b)
}

// checkHoled checks the contours of a region with holes: taken apart, they're
// the simplified outlines of the region and of its holes, and the bridges don't
// leave the region.
func checkHoled(t *T, desc string, reg int, cs []*recast.Contour, exact bool, spans []int, at []cspan, bs int, maxErr float64, maxLen, flags int) {
	var rings [][]rawVert
	var bridges [][2]rawVert
	left := 0
	for _, c := range cs {
		if c.NVerts == 0 {
			continue
		}
		left++
		a, b := splitBridges(vertsOf(c.Verts, c.NVerts))
		rings, bridges = append(rings, a...), append(bridges, b...)
	}
	simple := true
	for _, c := range cs {
		seen := map[[2]int]bool{}
		for _, v := range vertsOf(c.RVerts, c.NRVerts) {
			simple = simple && !seen[[2]int{v.x, v.z}]
			seen[[2]int{v.x, v.z}] = true
		}
	}
	if !simple {
		t.Count("left_out_holed_touching_itself", 1)
		return
	}
	t.Count("holed_regions_taken_apart", 1)
	// Each raw outline has its ring.
	if len(rings) != len(cs) {
		t.Fatalf("%s: the contours of region %d consist of %d outlines, joined by %d bridges, instead of %d:\n%v", desc, reg, len(rings), len(bridges), len(cs), rings)
	}
	used := make([]bool, len(rings))
	for _, c := range cs {
		raw := vertsOf(c.RVerts, c.NRVerts)
		ok := false
		for k, l := range rings {
			if !used[k] && checkSimplified(t, raw, l, maxErr, maxLen, flags) {
				used[k], ok = true, true
				break
			}
		}
		if !ok {
			t.Fatalf("%s: none of the outlines\n%v\nwhich make up the contour of region %d is the raw one\n%v\nwithin the tolerance, with its changes of neighbours", desc, rings, reg, raw)
		}
		t.Count("merged_outlines_checked", 1)
	}
	// Do the outlines keep clear of each other?
	type seg struct {
		a, b rawVert
		ring int
	}
	var segs []seg
	for k, l := range rings {
		for i := range l {
			segs = append(segs, seg{l[i], l[(i+1)%len(l)], k})
		}
	}
	for i, a := range segs {
		for _, b := range segs[:i] {
			if touching(a.a, a.b, b.a, b.b) || a.ring != b.ring && (samePlace(a.a, b.a) || samePlace(a.a, b.b) || samePlace(a.b, b.a)) {
				t.Count("left_out_crossing_outlines", 1)
				return
			}
		}
	}
	// Is it a region with holes still?
	outlines := 0
	for k, l := range rings {
		switch a := ringArea(l); {
		case a > 0:
			outlines++
			for m, h := range rings {
				if m != k && !insideRing(l, h[0]) {
					outlines++ // a hole that's out of it
				}
			}
		case a == 0:
			outlines++
		default:
			for m, h := range rings {
				if m != k && insideRing(l, h[0]) {
					outlines++
				}
			}
		}
	}
	if outlines != 1 || len(rings) < 2 {
		t.Count("left_out_crossing_outlines", 1)
		return
	}
	if left != 1 {
		t.Fatalf("%s: %d contours of region %d are left, its holes should be merged into one:\n%v", desc, left, reg, rings)
	}
	in := map[[2]int]bool{}
	for _, i := range spans {
		in[[2]int{at[i].x - bs, at[i].y - bs}] = true
	}
	for i, b := range bridges {
		for _, s := range segs {
			if touching(b[0], b[1], s.a, s.b) {
				t.Fatalf("%s: the bridge from %v to %v of the contour of region %d meets the edge from %v to %v", desc, b[0], b[1], reg, s.a, s.b)
			}
		}
		for _, o := range bridges[:i] {
			if touching(b[0], b[1], o[0], o[1]) {
				t.Fatalf("%s: the bridges from %v to %v and from %v to %v of the contour of region %d meet", desc, b[0], b[1], o[0], o[1], reg)
			}
		}
		t.Count("bridges_checked", 1)
		for k := 0; exact && k < 64; k++ {
			f := (float64(k) + .5) / 64
			x, z := float64(b[0].x)+f*float64(b[1].x-b[0].x), float64(b[0].z)+f*float64(b[1].z-b[0].z)
			ok := false
			for _, dx := range []float64{-1e-6, 1e-6} {
				for _, dz := range []float64{-1e-6, 1e-6} {
					ok = ok || in[[2]int{int(math.Floor(x + dx)), int(math.Floor(z + dz))}]
				}
			}
			if !ok {
				t.Fatalf("%s: the bridge from %v to %v of the contour of region %d leaves it at %g,%g", desc, b[0], b[1], reg, x, z)
			}
		}
	}
}

// insideRing tells if a point which isn't on a ring is inside it.
func insideRing(l []rawVert, p rawVert) bool {
	in := false
	for i, a := range l {
		b := l[(i+1)%len(l)]
		if (a.z > p.z) != (b.z > p.z) && float64(p.x) < float64(a.x)+float64(p.z-a.z)/float64(b.z-a.z)*float64(b.x-a.x) {
			in = !in
		}
	}
	return in
}
