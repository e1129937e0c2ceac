package main

import (
	"fmt"

	"github.com/arl/go-detour/recast"
)

const borderReg = 0x8000

// randCompact makes a random compact heightfield, eroded or not, with area
// patches, on which connections are symmetric.
func randCompact(t *T, size int) (*GField, *recast.CompactHeightfield, []cspan, string) {
	r := t.R
	g := randField(r, size)
	height, climb := randAgent(r)
	if climb > height {
		climb = height
	}
	ctx := recast.NewBuildContext(false)
	hf := g.heightfield(ctx)
	if r.Intn(2) == 0 {
		recast.FilterLedgeSpans(ctx, height, climb, hf)
	}
	if r.Intn(2) == 0 {
		recast.FilterWalkableLowHeightSpans(ctx, height, hf)
	}
	chf := &recast.CompactHeightfield{}
	recast.BuildCompactHeightfield(ctx, height, climb, hf, chf)
	if r.Intn(3) == 0 {
		recast.ErodeWalkableArea(ctx, int32(1+r.Intn(2)), chf)
	}
	at := chfCells(t, chf)
	// patches
	for n := r.Intn(4); n > 0; n-- {
		a := []uint8{0, 63, 2, 9}[r.Intn(4)]
		x0, y0, w, h := r.Intn(g.W), r.Intn(g.H), 1+r.Intn(1+g.W/3), 1+r.Intn(1+g.H/3)
		for i, s := range at {
			if s.x >= x0 && s.x < x0+w && s.y >= y0 && s.y < y0+h && chf.Areas[i] != 0 {
				chf.Areas[i] = a
			}
		}
	}
	if r.Intn(3) == 0 { // speckles
		p := 5 + r.Intn(40)
		for i := range at {
			if r.Intn(p) == 0 {
				chf.Areas[i] = 0
			}
		}
	}
	return g, chf, at, fmt.Sprintf("agent %d high, step %d", height, climb)
}

// regionsOf groups the spans by region.
func regionsOf(chf *recast.CompactHeightfield) map[int][]int {
	m := map[int][]int{}
	for i := range chf.Spans {
		m[int(chf.Spans[i].Reg)] = append(m[int(chf.Spans[i].Reg)], i)
	}
	return m
}

// component finds the spans connected to span i through spans for which in is
// true, and marks them.
func component(chf *recast.CompactHeightfield, at []cspan, i int, in func(i int) bool, seen []bool) []int {
	seen[i] = true
	c := []int{i}
	for k := 0; k < len(c); k++ {
		for d := 0; d < 4; d++ {
			if n := neighbour(chf, at[c[k]], d); n >= 0 && !seen[n] && in(n) {
				seen[n] = true
				c = append(c, n)
			}
		}
	}
	return c
}

// outerNeighbours walks around the outer contour of a region and gives the
// cyclic sequence of the regions along it, without repetitions.
func outerNeighbours(chf *recast.CompactHeightfield, at []cspan, spans []int) (seq []int) {
	// The first span in scan order is on the outer contour, with its side to -x.
	s := spans[0]
	for _, i := range spans {
		if at[i].y < at[s].y || at[i].y == at[s].y && at[i].x < at[s].x {
			s = i
		}
	}
	reg := chf.Spans[s].Reg
	other := func(i, d int) int {
		if n := neighbour(chf, at[i], d); n >= 0 {
			return int(chf.Spans[n].Reg)
		}
		return 0
	}
	i, d := s, 0
	for n := 0; ; n++ {
		if o := other(i, d); o != int(reg) {
			if len(seq) == 0 || seq[len(seq)-1] != o {
				seq = append(seq, o)
			}
			d = (d + 1) & 3
		} else {
			i = neighbour(chf, at[i], d)
			d = (d + 3) & 3
		}
		if i == s && d == 0 || n > 39990 {
			break
		}
	}
	for len(seq) > 1 && seq[0] == seq[len(seq)-1] {
		seq = seq[:len(seq)-1]
	}
	return
}

// tooManyRegions partitions a field of separate spans, about as many as there are
// region numbers.
func tooManyRegions(t *T) {
	r := t.R
	layers := 1 + r.Intn(3)
	border := int32(r.Intn(2) * (1 + r.Intn(3)))
	want := 32000 + r.Intn(1500)
	switch r.Intn(4) {
	case 0:
		want = 32760 + r.Intn(12)
	case 1:
		want = 33000 + r.Intn(60000)
	}
	W := 100 + r.Intn(200)
	g := &GField{kind: "separate spans", W: W + 2*int(border), Top: 1000, cs: 1, ch: 1}
	g.H = 2*want/(W*layers) + 2 + 2*int(border)
	g.C = make([][]mspan, g.W*g.H)
	n := 0
	for y := int(border); y < g.H-int(border); y++ {
		for x := int(border); x < g.W-int(border); x++ {
			if (x+y)%2 == 0 {
				for l := 0; l < layers && n < want; l++ {
					*g.at(x, y) = append(*g.at(x, y), mspan{l * 20, l*20 + 1 + r.Intn(5), 63})
					n++
				}
			}
		}
	}
	ids := n
	if border > 0 {
		ids += 4
	}
	chf := compact(t, g, 3, 1)
	at := chfCells(t, chf)
	what := fmt.Sprintf("%dx%d columns, %d spans with no neighbours, border %d", g.W, g.H, n, border)
	ctx := recast.NewBuildContext(true)
	ok := recast.BuildRegionsMonotone(ctx, chf, border, 0, int32(r.Intn(20)))
	if ids > borderReg-1 {
		t.Count("partitions_refused", 1)
		if ok || ctx.LogCount() == 0 {
			t.Fatalf("%s: partitioned (%v, %d messages), though there are %d region numbers", what, ok, ctx.LogCount(), borderReg-1)
		}
	} else {
		t.Count("partitions_of_many_regions", 1)
		if !ok {
			t.Fatalf("%s: failed", what)
		}
		seen := map[uint16]bool{}
		for i := range chf.Spans {
			reg := chf.Spans[i].Reg
			if reg == 0 || reg&borderReg != 0 || seen[reg] || reg > chf.MaxRegions {
				t.Fatalf("%s: span %d at %d,%d is in region 0x%x of %d, that's another span's: %v", what, i, at[i].x, at[i].y, reg, chf.MaxRegions, seen[reg])
			}
			seen[reg] = true
		}
	}
	t.Nontrivial()
	t.Mix(g.W, g.H, n, border, layers)
	t.Desc("%s: %v", what, ok)
}

func init() {
	register(&Prop{ID: "R08", Quick: 40000, Thorough: 700000,
		Rule:  "a case partitions a random compact heightfield (storeys, holes, obstacles, area patches, speckles; eroded or not) with random border, minimum and merge areas, and checks the partition span by span; non-trivial if there are at least two regions",
		MinEv: []string{"regions", "spans_in_regions", "spans_left_out", "border_spans", "small_pieces_at_the_border_kept", "neighbours_not_mergeable", "columns_of_several_layers", "several_areas", "small_regions_left", "partitions_refused", "partitions_of_many_regions", "fields_of_combs"},
		Run: func(t *T) {
			r := t.R
			if t.Idx%2500 == 11 {
				tooManyRegions(t)
				return
			}
			g, chf, at, agent := randCompact(t, 26)
			if t.Idx%1500 == 12 {
				g = combField(t, 170+r.Intn(60), r.Intn(3))
				chf = compact(t, g, 3, 1)
				at = chfCells(t, chf)
				for k := 1 + r.Intn(8); k > 0; k-- { // small patches at the ends of teeth
					x0, y0 := r.Intn(g.W), r.Intn(g.W)
					if r.Intn(2) == 0 {
						x0 = g.W - 1 - r.Intn(3)
					} else {
						y0 = g.W - 1 - r.Intn(3)
					}
					for i, s := range at {
						if chf.Areas[i] != 0 && s.x >= x0 && s.x < x0+3 && s.y >= y0 && s.y < y0+3 {
							chf.Areas[i] = 5
						}
					}
				}
				agent = "height 3, climb 1"
				t.Count("fields_of_combs", 1)
			}
			border := int32(0)
			if r.Intn(3) == 0 {
				border = int32(r.Intn(6))
				if r.Intn(8) == 0 {
					border = int32(6 + r.Intn(5))
				}
			}
			minA, mergeA := int32(0), int32(0)
			if r.Intn(3) > 0 {
				minA = int32(r.Intn(40))
			}
			if r.Intn(3) > 0 {
				mergeA = int32(r.Intn(120))
			}
			if g.kind == "comb" {
				minA, mergeA = int32(r.Intn(100)), int32(r.Intn(500)*r.Intn(2))
			}
			areas := append([]uint8{}, chf.Areas...)
			before := append([]recast.CompactSpan{}, chf.Spans...)
			ctx := recast.NewBuildContext(false)
			if !recast.BuildRegionsMonotone(ctx, chf, border, minA, mergeA) {
				t.Fatalf("failed")
			}
			what := fmt.Sprintf("%s, %s, border %d, minimum %d, merge %d", g.desc(), agent, border, minA, mergeA)
			for i, a := range areas {
				b := before[i]
				b.Reg = chf.Spans[i].Reg
				if chf.Areas[i] != a || chf.Spans[i] != b {
					t.Fatalf("%s: span %d was changed", what, i)
				}
			}
			if border > 0 && chf.BorderSize != border {
				t.Fatalf("%s: the border size is %d", what, chf.BorderSize)
			}
			inBorder := func(i int) bool {
				s := at[i]
				return int32(s.x) < border || int32(s.y) < border || int32(s.x) >= chf.Width-border || int32(s.y) >= chf.Height-border
			}
			for i := range at {
				reg := chf.Spans[i].Reg
				switch {
				case areas[i] == 0:
					if reg != 0 {
						t.Fatalf("%s: span %d at %d,%d isn't walkable and is in region %d", what, i, at[i].x, at[i].y, reg)
					}
				case inBorder(i):
					if reg&borderReg == 0 {
						t.Fatalf("%s: span %d at %d,%d, in the border, has region %d", what, i, at[i].x, at[i].y, reg)
					}
					t.Count("border_spans", 1)
				default:
					if reg&borderReg != 0 || reg > chf.MaxRegions {
						t.Fatalf("%s: span %d at %d,%d has region %d of %d", what, i, at[i].x, at[i].y, reg, chf.MaxRegions)
					}
				}
			}
			// Pieces of walkable surface are in or out as a whole.
			inside := func(i int) bool { return areas[i] != 0 && !inBorder(i) }
			seen := make([]bool, len(at))
			for i := range at {
				if !inside(i) || seen[i] {
					continue
				}
				c := component(chf, at, i, inside, seen)
				touch := false
				for _, k := range c {
					for d := 0; d < 4; d++ {
						if n := neighbour(chf, at[k], d); n >= 0 && chf.Spans[n].Reg&borderReg != 0 {
							touch = true
						}
					}
				}
				out := len(c) < int(minA) && !touch
				if touch && len(c) < int(minA) {
					t.Count("small_pieces_at_the_border_kept", 1)
				}
				for _, k := range c {
					if (chf.Spans[k].Reg == 0) != out {
						t.Fatalf("%s: span %d at %d,%d is in a piece of %d spans (next to the border: %v) and has region %d", what, k, at[k].x, at[k].y, len(c), touch, chf.Spans[k].Reg)
					}
				}
				if out {
					t.Count("spans_left_out", len(c))
				} else {
					t.Count("spans_in_regions", len(c))
				}
			}
			// Regions.
			m := regionsOf(chf)
			used := 0
			kinds := map[uint8]bool{}
			cols := map[int]map[int]bool{}
			for reg, spans := range m {
				if reg == 0 || reg&borderReg != 0 {
					continue
				}
				used++
				sn := make([]bool, len(at))
				if c := component(chf, at, spans[0], func(i int) bool { return int(chf.Spans[i].Reg) == reg }, sn); len(c) != len(spans) {
					t.Fatalf("%s: region %d isn't connected: %d spans of %d are reached from %d,%d", what, reg, len(c), len(spans), at[spans[0]].x, at[spans[0]].y)
				}
				cols[reg] = map[int]bool{}
				for _, i := range spans {
					if areas[i] != areas[spans[0]] {
						t.Fatalf("%s: region %d has areas %d and %d", what, reg, areas[spans[0]], areas[i])
					}
					c := at[i].x + at[i].y*g.W
					if cols[reg][c] {
						t.Fatalf("%s: region %d has two spans in column %d,%d", what, reg, at[i].x, at[i].y)
					}
					cols[reg][c] = true
				}
				kinds[areas[spans[0]]] = true
			}
			if len(kinds) > 1 {
				t.Count("several_areas", 1)
			}
			for _, c := range chf.Cells {
				if c.Count > 1 {
					t.Count("columns_of_several_layers", 1)
					break
				}
			}
			// Nothing that should be merged is left.
			seqs := map[int][]int{}
			for reg, spans := range m {
				if reg != 0 && reg&borderReg == 0 {
					seqs[reg] = outerNeighbours(chf, at, spans)
				}
			}
			times := func(s []int, v int) (n int) {
				for _, x := range s {
					if x == v {
						n++
					}
				}
				return
			}
			for a, sa := range seqs {
				if len(m[a]) > int(mergeA) && times(sa, 0) > 0 {
					continue // large enough and along a wall
				}
				t.Count("small_regions_left", 1)
				for _, b := range sa {
					if b == 0 || b&borderReg != 0 {
						continue
					}
					sb := seqs[b]
					over := false
					for c := range cols[a] {
						over = over || cols[b][c]
					}
					if areas[m[a][0]] != areas[m[b][0]] || times(sa, b) != 1 || times(sb, a) != 1 || over {
						t.Count("neighbours_not_mergeable", 1)
						continue
					}
					t.Fatalf("%s: region %d of %d spans wasn't merged with its neighbour %d", what, a, len(m[a]), b)
				}
			}
			t.Count("regions", used)
			if used > 1 {
				t.Nontrivial()
			}
			t.State("partitions", fmt.Sprint(m))
			t.Mix(g.C, areas, border, minA, mergeA)
			t.Desc("%s: %d regions", what, used)
		}})
}
