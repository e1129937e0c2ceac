package main

import (
	"container/heap"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/arl/go-detour/recast"
)

const notConn = 0x3f

// cspan is a span of a compact heightfield, with where it is.
type cspan struct{ x, y, i int }

// chfCells checks that the cells of a compact heightfield partition its spans
// and returns where each span is.
func chfCells(t *T, chf *recast.CompactHeightfield) []cspan {
	if len(chf.Cells) != int(chf.Width*chf.Height) || len(chf.Spans) != int(chf.SpanCount) || len(chf.Areas) != int(chf.SpanCount) {
		t.Fatalf("%d cells, %d spans, %d areas for %dx%d cells and %d spans", len(chf.Cells), len(chf.Spans), len(chf.Areas), chf.Width, chf.Height, chf.SpanCount)
	}
	at := make([]cspan, chf.SpanCount)
	seen := make([]bool, chf.SpanCount)
	n := 0
	for c, cell := range chf.Cells {
		for k := 0; k < int(cell.Count); k++ {
			i := int(cell.Index) + k
			if i >= len(at) || seen[i] {
				t.Fatalf("span %d of cell %d doesn't exist or is in two cells", i, c)
			}
			seen[i] = true
			at[i] = cspan{c % int(chf.Width), c / int(chf.Width), i}
			n++
		}
	}
	if n != len(at) {
		t.Fatalf("%d of %d spans are in cells", n, len(at))
	}
	return at
}

// neighbour gives the span a span is connected to in a direction, or -1.
func neighbour(chf *recast.CompactHeightfield, s cspan, dir int) int {
	c := recast.GetCon(&chf.Spans[s.i], int32(dir))
	if c == notConn {
		return -1
	}
	x, y := s.x+dirX[dir], s.y+dirY[dir]
	if x < 0 || y < 0 || x >= int(chf.Width) || y >= int(chf.Height) {
		return -1
	}
	return int(chf.Cells[x+y*int(chf.Width)].Index) + int(c)
}

var (
	dirX = [4]int{-1, 0, 1, 0}
	dirY = [4]int{0, 1, 0, -1}
)

// compact makes the compact heightfield of a random field.
func compact(t *T, g *GField, height, climb int32) *recast.CompactHeightfield {
	ctx := recast.NewBuildContext(false)
	hf := g.heightfield(ctx)
	chf := &recast.CompactHeightfield{}
	if !recast.BuildCompactHeightfield(ctx, height, climb, hf, chf) {
		t.Fatalf("no compact heightfield")
	}
	return chf
}

func randAgent(r *rand.Rand) (height, climb int32) {
	height = int32(3 + r.Intn(8))
	climb = int32(r.Intn(5))
	if r.Intn(20) == 0 {
		height = int32(1 + r.Intn(100))
		climb = int32(r.Intn(20))
	}
	return
}

func init() {
	register(&Prop{ID: "R04", Quick: 12000, Thorough: 400000,
		Rule:  "a case applies the three span filters, in random order, to a heightfield made of random terrain, storeys, holes, boxes, ramps or random columns, and compares all spans with the definition of each filter; non-trivial if filters changed spans",
		MinEv: []string{"obstacles_made_walkable", "obstacles_left", "drops_removed", "slopes_removed", "ledge_spans_kept", "low_spans_removed", "low_spans_kept", "border_spans"},
		Run: func(t *T) {
			r := t.R
			g := randField(r, 14)
			height, climb := randAgent(r)
			ctx := recast.NewBuildContext(false)
			hf := g.heightfield(ctx)
			cols := columnsOf(hf)
			for i := range cols {
				if !sameColumn(cols[i], g.C[i]) {
					t.Fatalf("column %d holds %v instead of %v", i, cols[i], g.C[i])
				}
			}
			changed := 0
			order := r.Perm(3)
			for _, k := range order {
				want := make([][]mspan, len(cols))
				for i := range want {
					want[i] = append([]mspan{}, cols[i]...)
				}
				var name string
				switch k {
				case 0:
					name = "low hanging obstacles"
					recast.FilterLowHangingWalkableObstacles(ctx, climb, hf)
					for i, c := range cols {
						for j := 1; j < len(c); j++ {
							if c[j].area == 0 && c[j-1].area != 0 {
								if c[j].hi-c[j-1].hi <= int(climb) {
									want[i][j].area = c[j-1].area
									t.Count("obstacles_made_walkable", 1)
								} else {
									t.Count("obstacles_left", 1)
								}
							}
						}
					}
				case 1:
					name = "ledges"
					recast.FilterLedgeSpans(ctx, height, climb, hf)
					for i, c := range cols {
						for j, s := range c {
							if s.area != 0 && isLedge(t, g, cols, i, j, int(height), int(climb)) {
								want[i][j].area = 0
							}
						}
					}
				case 2:
					name = "low ceilings"
					recast.FilterWalkableLowHeightSpans(ctx, height, hf)
					for i, c := range cols {
						for j := range c {
							if c[j].area == 0 {
								continue
							}
							if roof(c, j)-c[j].hi <= int(height) {
								want[i][j].area = 0
								t.Count("low_spans_removed", 1)
							} else {
								t.Count("low_spans_kept", 1)
							}
						}
					}
				}
				got := columnsOf(hf)
				for i := range want {
					if !sameColumn(got[i], want[i]) {
						t.Fatalf("filter of %s, agent %d high, step %d: column %d,%d of %dx%d was %v, is %v, should be %v", name, height, climb, i%g.W, i/g.W, g.W, g.H, cols[i], got[i], want[i])
					}
					if !sameColumn(want[i], cols[i]) {
						changed++
					}
				}
				cols = got
			}
			if changed > 0 {
				t.Nontrivial()
			}
			t.State("fields", fmt.Sprint(cols))
			t.Mix(g.C, order, height, climb)
			t.Desc("%s, agent %d high, step %d, filters %v: %d columns changed", g.desc(), height, climb, order, changed)
		}})

	// --- R05 -----------------------------------------------------------
	register(&Prop{ID: "R05", Quick: 12000, Thorough: 400000,
		Rule:  "a case compacts a random heightfield (with up to 99 walkable layers, or 539 in places, of which 63 can be connected) and compares cells, spans, areas and connections with the columns; then sets and reads back random connections; non-trivial if spans are connected",
		MinEv: []string{"spans", "connected", "too_steep", "too_low", "out_of_grid", "heights_clamped", "connections_set", "columns_of_several_layers", "connections_too_deep", "columns_of_more_than_255_layers"},
		Run: func(t *T) {
			r := t.R
			g := randField(r, 14)
			height, climb := randAgent(r)
			if r.Intn(10) == 0 && g.W*g.H < 400 { // many layers
				g.kind = "layers"
				g.Top = 1000
				deep := r.Intn(2) == 0
				tower := r.Intn(12) == 0 // more floors than a byte can count
				if tower {
					g.W, g.H, g.Top = 1+r.Intn(3), 1+r.Intn(2), 4000
					g.C = make([][]mspan, g.W*g.H)
				}
				for i := range g.C {
					g.C[i] = nil
					h := 0
					n := r.Intn(64)
					if deep {
						n = 40 + r.Intn(60)
					}
					if tower {
						n = 240 + r.Intn(300)
						if n > 255 {
							t.Count("columns_of_more_than_255_layers", 1)
						}
					}
					for ; n > 0; n-- {
						h += 1 + r.Intn(5)
						g.C[i] = append(g.C[i], mspan{h, h + 1, 63})
						h++
					}
				}
				height = int32(1 + r.Intn(4))
			}
			logs := r.Intn(2) == 0
			ctx := recast.NewBuildContext(logs)
			hf := g.heightfield(ctx)
			chf := &recast.CompactHeightfield{}
			if !recast.BuildCompactHeightfield(ctx, height, climb, hf, chf) {
				t.Fatalf("failed")
			}
			for i, c := range columnsOf(hf) {
				if !sameColumn(c, g.C[i]) {
					t.Fatalf("column %d of the heightfield was changed from %v to %v", i, g.C[i], c)
				}
			}
			at := chfCells(t, chf)
			if chf.BMin != hf.BMin || chf.Cs != hf.Cs || chf.Ch != hf.Ch || chf.WalkableClimb != climb || chf.WalkableHeight != height || int(chf.Width) != g.W || int(chf.Height) != g.H {
				t.Fatalf("the header differs: %v %v %v %v %v", chf.BMin, chf.Cs, chf.Ch, chf.WalkableHeight, chf.WalkableClimb)
			}
			if w := [3]float32{hf.BMax[0], hf.BMax[1] + float32(height)*hf.Ch, hf.BMax[2]}; chf.BMax != w {
				t.Fatalf("upper bounds are %v, want %v", chf.BMax, w)
			}
			type open struct{ y, h, area int }
			fl := make([][]open, len(g.C))
			n := 0
			for i, c := range g.C {
				for j, s := range c {
					if s.area == 0 {
						continue
					}
					h := roof(c, j) - s.hi
					if h > 255 {
						h = 255
						t.Count("heights_clamped", 1)
					}
					fl[i] = append(fl[i], open{s.hi, h, int(s.area)})
				}
				n += len(fl[i])
				if len(fl[i]) > 1 {
					t.Count("columns_of_several_layers", 1)
				}
			}
			if n != int(chf.SpanCount) {
				t.Fatalf("%d spans, want %d", chf.SpanCount, n)
			}
			t.Count("spans", n)
			con, tooDeep := 0, false
			for i := range fl {
				if int(chf.Cells[i].Count) != len(fl[i]) {
					t.Fatalf("column %d has %d spans, want %d", i, chf.Cells[i].Count, len(fl[i]))
				}
				for k, o := range fl[i] {
					si := int(chf.Cells[i].Index) + k
					s := &chf.Spans[si]
					if int(s.Y) != o.y || int(s.H) != o.h || int(chf.Areas[si]) != o.area {
						t.Fatalf("span %d of column %d is at %d, %d high, area %d, want %v", k, i, s.Y, s.H, chf.Areas[si], o)
					}
					for d := 0; d < 4; d++ {
						x, y := at[si].x+dirX[d], at[si].y+dirY[d]
						want := notConn
						if x >= 0 && y >= 0 && x < g.W && y < g.H {
							for q, p := range fl[x+y*g.W] {
								if iabs(p.y-o.y) > int(climb) {
									t.Count("too_steep", 1)
									continue
								}
								lo, hi := imax(p.y, o.y), imin(p.y+p.h, o.y+o.h)
								if hi-lo < int(height) {
									t.Count("too_low", 1)
									continue
								}
								if q > 62 {
									t.Count("connections_too_deep", 1)
									tooDeep = true
									break
								}
								want = q
								break
							}
						} else {
							t.Count("out_of_grid", 1)
						}
						if g := int(recast.GetCon(s, int32(d))); g != want {
							t.Fatalf("span %d (%v) of column %d,%d, direction %d: connected to %d, want %d among %v, agent %d high, step %d", k, o, at[si].x, at[si].y, d, g, want, fl[i], height, climb)
						}
						if want != notConn {
							con++
						}
					}
				}
			}
			if got := ctx.LogCount() > 0; logs && got != tooDeep {
				t.Fatalf("an error was logged: %v, connections left out for being too deep: %v", got, tooDeep)
			}
			t.Count("connected", con)
			if con > 0 {
				t.Nontrivial()
			}
			// Packing of connections.
			var s recast.CompactSpan
			var m [4]int32
			for i := 0; i < 20; i++ {
				d, v := r.Intn(4), int32(r.Intn(64))
				recast.SetCon(&s, int32(d), v)
				m[d] = v
				for d := range m {
					if g := recast.GetCon(&s, int32(d)); g != m[d] {
						t.Fatalf("connection %d is %d after setting %d to %d, want %d", d, g, d, v, m[d])
					}
				}
				t.Count("connections_set", 1)
			}
			t.State("fields", fmt.Sprint(chf.Spans))
			t.Mix(g.C, height, climb)
			t.Desc("%s, agent %d high, step %d: %d spans, %d connections", g.desc(), height, climb, n, con)
		}})

	// --- R06 -----------------------------------------------------------
	register(&Prop{ID: "R06", Quick: 15000, Thorough: 500000,
		Rule:  "a case erodes the walkable area of a random compact heightfield by a random radius and compares with distances found by a shortest path search over the connections; non-trivial if some of the surface was eroded and some wasn't",
		MinEv: []string{"eroded", "kept", "kept_at_the_limit", "fields_of_several_layers", "wide_radius", "huge_radius"},
		Run: func(t *T) {
			r := t.R
			size := 30
			wide := r.Intn(250) == 0
			if wide {
				size = 300
			}
			g := randField(r, size)
			if wide {
				g.W = 200 + r.Intn(400)
				g.H = g.W
				g.kind = "wide floor"
				g.C = make([][]mspan, g.W*g.H)
				for i := range g.C {
					g.C[i] = []mspan{{3, 4, 63}}
				}
			}
			height, climb := randAgent(r)
			if climb > height { // several spans could match
				climb = height
			}
			chf := compact(t, g, height, climb)
			at := chfCells(t, chf)
			for i := range chf.Areas {
				if r.Intn(200) == 0 {
					chf.Areas[i] = 0
				}
			}
			radius := int32(1 + r.Intn(6))
			if r.Intn(5) == 0 {
				radius = int32(1 + r.Intn(30))
			}
			if wide {
				radius = int32(60 + r.Intn(195))
				t.Count("wide_radius", 1)
			} else if r.Intn(40) == 0 { // wider than any field
				radius = []int32{255, 256, 32766, 32767, 32768, 32769, 65536, 1 << 24, 1<<30 - 1}[r.Intn(9)]
				t.Count("huge_radius", 1)
			}
			before := append([]uint8{}, chf.Areas...)
			sb := append([]recast.CompactSpan{}, chf.Spans...)
			if spiral(chf, at) {
				t.Count("left_out_spirals", 1)
				return
			}
			dist := borderDistances(chf, at)
			if !recast.ErodeWalkableArea(recast.NewBuildContext(false), radius, chf) {
				t.Fatalf("failed")
			}
			for i := range sb {
				if sb[i] != chf.Spans[i] {
					t.Fatalf("span %d was changed", i)
				}
			}
			er, kept := 0, 0
			for i, a := range before {
				w := a
				if dist[i] < 2*int(radius) {
					w = 0
				}
				if a != 0 {
					if w == 0 {
						er++
					} else {
						kept++
						if dist[i] == 2*int(radius) {
							t.Count("kept_at_the_limit", 1)
						}
					}
				}
				if chf.Areas[i] != w {
					t.Fatalf("span %d at %d,%d of %dx%d (area %d), at distance %d of the border (2 per cell), has area %d after eroding by %d (%s, agent %d high, step %d)", i, at[i].x, at[i].y, g.W, g.H, a, dist[i], chf.Areas[i], radius, g.kind, height, climb)
				}
			}
			for _, c := range chf.Cells {
				if c.Count > 1 {
					t.Count("fields_of_several_layers", 1)
					break
				}
			}
			t.Count("eroded", er)
			t.Count("kept", kept)
			if er > 0 && kept > 0 {
				t.Nontrivial()
			}
			t.Mix(g.C, radius, height, climb, before)
			t.Desc("%s, agent %d high, step %d, radius %d: %d spans eroded, %d kept", g.desc(), height, climb, radius, er, kept)
		}})

	// --- R07 -----------------------------------------------------------
	register(&Prop{ID: "R07", Quick: 40000, Thorough: 1200000,
		Rule:   "a case marks a few convex volumes (3 to 12 vertices, both windings, in, across and out of the grid) in a random compact heightfield and compares each span with the volume in double precision; and adds and deletes volumes of an input geometry against a list; non-trivial if spans were marked",
		MinEv:  []string{"marked", "out_of_the_outline", "below_or_above", "not_walkable_inside", "volumes_across_the_border", "volumes_added", "volumes_deleted", "volumes_ignored", "geometries_loaded", "volumes_beyond_the_limit", "endless_volumes", "unmarked_with_area_0", "at_the_limits"},
		Assume: []string{"Columns whose centre is within 1/1000 of a cell of the outline, and spans within a height cell of the limits of the volume (but for those exactly at a limit), aren't judged."},
		Run: func(t *T) {
			r := t.R
			g := randField(r, 14)
			height, climb := randAgent(r)
			chf := compact(t, g, height, climb)
			at := chfCells(t, chf)
			for n := 1 + r.Intn(3); n > 0; n-- {
				var verts []float32
				nv := 3 + r.Intn(10)
				cx, cz := r.Float64()*float64(g.W)*1.4-.2*float64(g.W), r.Float64()*float64(g.H)*1.4-.2*float64(g.H)
				rx, rz := r.Float64()*float64(g.W), r.Float64()*float64(g.H)
				a0 := r.Float64() * 7
				ccw := float64(1 - 2*r.Intn(2))
				box := r.Intn(4) == 0
				snap := r.Intn(3) == 0
				var ang []float64
				for i := 0; i < nv; i++ {
					ang = append(ang, r.Float64()*2*math.Pi)
				}
				sortFloats(ang)
				if box {
					nv = 4
				}
				wide := box && r.Intn(3) == 0 // reaches far over the grid
				if wide {
					rx, rz = math.Pow(10, 3+r.Float64()*20), math.Pow(10, 3+r.Float64()*20)
					t.Count("endless_volumes", 1)
				}
				for i := 0; i < nv; i++ {
					x, z := cx+rx*math.Cos(a0+ccw*ang[i%len(ang)]), cz+rz*math.Sin(a0+ccw*ang[i%len(ang)])
					if box {
						x, z = cx+rx*[]float64{-1, 1, 1, -1}[i], cz+rz*[]float64{-1, -1, 1, 1}[i]*ccw
					}
					if snap { // lines through the centres of columns
						x, z = math.Floor(x)+.5, math.Floor(z)+.5
					}
					verts = append(verts, g.bmin[0]+float32(x)*g.cs, (r.Float32()-.5)*1000, g.bmin[2]+float32(z)*g.cs)
				}
				hmin := g.bmin[1] + float32(r.Float64()*90-10)*g.ch
				hmax := hmin + float32(r.Float64()*60)*g.ch
				exact := g.cs == 1 && g.ch == 1 && g.bmin == [3]float32{}
				if exact && r.Intn(2) == 0 { // from and to heights of the surface
					hmin = float32(math.Floor(float64(hmin)))
					hmax = hmin + float32(r.Intn(30))
					if len(chf.Spans) > 0 && r.Intn(2) == 0 {
						hmin = float32(chf.Spans[r.Intn(len(chf.Spans))].Y)
						hmax = hmin + float32(r.Intn(3)*10)
					}
				}
				endless := func(sign float32) float32 {
					return sign * []float32{1e5, 1e9, 1e10, 1e20, math.MaxFloat32, float32(math.Inf(1))}[r.Intn(6)]
				}
				if r.Intn(8) == 0 { // without limits in height
					if k := r.Intn(3); k != 0 {
						hmin = endless(-1)
						if k == 1 {
							hmax = endless(1)
						}
					} else {
						hmax = endless(1)
					}
					t.Count("endless_volumes", 1)
				}
				area := uint8(r.Intn(64))
				if r.Intn(6) == 0 {
					area = 0
				}
				across := false
				var out [][2]float64
				for i := 0; i < nv; i++ {
					out = append(out, [2]float64{float64(verts[i*3]), float64(verts[i*3+2])})
				}
				before := append([]uint8{}, chf.Areas...)
				sb := append([]recast.CompactSpan{}, chf.Spans...)
				vb := fmt.Sprint(verts)
				recast.MarkConvexPolyArea(recast.NewBuildContext(false), verts, int32(nv), hmin, hmax, area, chf)
				if fmt.Sprint(verts) != vb {
					t.Fatalf("the outline was changed")
				}
				for i := range sb {
					if sb[i] != chf.Spans[i] {
						t.Fatalf("span %d was changed", i)
					}
				}
				cs, ch := float64(g.cs), float64(g.ch)
				for i, a := range before {
					px, pz := float64(g.bmin[0])+(float64(at[i].x)+.5)*cs, float64(g.bmin[2])+(float64(at[i].y)+.5)*cs
					in, d := inOutline(out, px, pz)
					if d < 1e-3*cs {
						continue
					}
					y := float64(g.bmin[1]) + float64(chf.Spans[i].Y)*ch
					tol := ch * 1.01
					ambig := y < float64(hmin) && y > float64(hmin)-tol || y > float64(hmax) && y < float64(hmax)+tol || math.Abs(y-float64(hmin)) < .01*ch || math.Abs(y-float64(hmax)) < .01*ch
					if exact && (y == float64(hmin) || y == float64(hmax)) {
						ambig = false
						t.Count("at_the_limits", 1)
					}
					inh := y >= float64(hmin) && y <= float64(hmax)
					if at[i].x == 0 || at[i].y == 0 {
						if in {
							across = true
						}
					}
					w := a
					switch {
					case a == 0:
						if in && inh {
							t.Count("not_walkable_inside", 1)
						}
					case in && ambig:
						continue
					case in && inh:
						w = area
						t.Count("marked", 1)
						t.Nontrivial()
						if area == 0 {
							t.Count("unmarked_with_area_0", 1)
						}
					case in:
						t.Count("below_or_above", 1)
					default:
						t.Count("out_of_the_outline", 1)
					}
					if chf.Areas[i] != w {
						t.Fatalf("span %d at %d,%d, height %g, centre %g,%g (in the outline: %v) of area %d got %d, want %d; volume %v from %g to %g, area %d", i, at[i].x, at[i].y, y, px, pz, in, a, chf.Areas[i], w, out, hmin, hmax, area)
					}
				}
				if across {
					t.Count("volumes_across_the_border", 1)
				}
				t.Mix(verts, hmin, hmax, area)
			}
			checkVolumes(t)
			t.Mix(g.C)
			t.Desc("%s", g.desc())
		}})
}

func sortFloats(a []float64) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// inOutline tells if a point is inside an outline, and its distance to it.
func inOutline(p [][2]float64, x, y float64) (in bool, d float64) {
	d = math.Inf(1)
	for i := range p {
		a, b := p[i], p[(i+1)%len(p)]
		if (a[1] > y) != (b[1] > y) && x < a[0]+(b[0]-a[0])*(y-a[1])/(b[1]-a[1]) {
			in = !in
		}
		ex, ey := b[0]-a[0], b[1]-a[1]
		l := ex*ex + ey*ey
		s := 0.0
		if l > 0 {
			s = math.Max(0, math.Min(1, ((x-a[0])*ex+(y-a[1])*ey)/l))
		}
		d = math.Min(d, math.Hypot(x-a[0]-s*ex, y-a[1]-s*ey))
	}
	return
}

func roof(c []mspan, j int) int {
	if j+1 < len(c) {
		return c[j+1].lo
	}
	return 0xffff
}

func iabs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// isLedge decides if a walkable span is next to a drop or on a steep slope. The
// places an agent could go to from it are the gaps of the neighbour columns
// which have more than its height in common with the gap above the span: if it
// falls by more than a step in one of them (the ground below the lowest span of
// a column is a step below the field, and there's only void beyond the grid) it's
// a drop; if the heights of those within a step differ by more than a step it's
// a steep slope.
func isLedge(t *T, g *GField, cols [][]mspan, i, j, height, climb int) bool {
	x, y := i%g.W, i/g.W
	bot, top := cols[i][j].hi, roof(cols[i], j)
	lo, hi := bot, bot
	drop := false
	for d := 0; d < 4; d++ {
		nx, ny := x+dirX[d], y+dirY[d]
		if nx < 0 || ny < 0 || nx >= g.W || ny >= g.H {
			t.Count("border_spans", 1)
			// A void at minus the step height.
			if -climb-bot < -climb {
				drop = true
			}
			continue
		}
		n := cols[nx+ny*g.W]
		fit := func(fl, ceil int) bool { return imin(top, ceil)-imax(bot, fl) > height }
		first := 0xffff
		if len(n) > 0 {
			first = n[0].lo
		}
		if fit(-climb, first) && -climb-bot < -climb {
			drop = true
		}
		for k := range n {
			if !fit(n[k].hi, roof(n, k)) {
				continue
			}
			if bot-n[k].hi > climb {
				drop = true
			}
			if iabs(n[k].hi-bot) <= climb {
				lo, hi = imin(lo, n[k].hi), imax(hi, n[k].hi)
			}
		}
	}
	switch {
	case drop:
		t.Count("drops_removed", 1)
		return true
	case hi-lo > climb:
		t.Count("slopes_removed", 1)
		return true
	}
	t.Count("ledge_spans_kept", 1)
	return false
}

type distHeap []struct{ d, i int }

func (h distHeap) Len() int            { return len(h) }
func (h distHeap) Less(i, j int) bool  { return h[i].d < h[j].d }
func (h distHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *distHeap) Push(v interface{}) { *h = append(*h, v.(struct{ d, i int })) }
func (h *distHeap) Pop() interface{} {
	o := *h
	v := o[len(o)-1]
	*h = o[:len(o)-1]
	return v
}

// borderDistances finds for each span the distance to the border of the
// walkable area (spans which aren't walkable or lack a walkable neighbour), 2
// per step to a neighbour and 3 per step to a diagonal neighbour.
func borderDistances(chf *recast.CompactHeightfield, at []cspan) []int {
	const inf = 1 << 30
	dist := make([]int, len(at))
	// into[i]: the spans from which i is a neighbour
	type arc struct{ from, c int }
	into := make([][]arc, len(at))
	var h distHeap
	for i, s := range at {
		dist[i] = inf
		n := 0
		for d := 0; d < 4; d++ {
			k := neighbour(chf, s, d)
			if k < 0 {
				continue
			}
			into[k] = append(into[k], arc{i, 2})
			if chf.Areas[k] != 0 {
				n++
			}
			// the diagonal neighbour: next, then turn
			if q := neighbour(chf, at[k], (d+3)%4); q >= 0 {
				into[q] = append(into[q], arc{i, 3})
			}
		}
		if chf.Areas[i] == 0 || n != 4 {
			dist[i] = 0
			h = append(h, struct{ d, i int }{0, i})
		}
	}
	heap.Init(&h)
	for len(h) > 0 {
		e := heap.Pop(&h).(struct{ d, i int })
		if e.d > dist[e.i] {
			continue
		}
		for _, a := range into[e.i] {
			if n := e.d + a.c; n < dist[a.from] {
				dist[a.from] = n
				heap.Push(&h, struct{ d, i int }{n, a.from})
			}
		}
	}
	return dist
}

// spiral tells if there's a span from which the two ways to a diagonal
// neighbour lead to different spans, as around the top of a spiral ramp.
func spiral(chf *recast.CompactHeightfield, at []cspan) bool {
	for _, s := range at {
		for d := 0; d < 4; d++ {
			a, b := neighbour(chf, s, d), neighbour(chf, s, (d+3)%4)
			if a < 0 || b < 0 {
				continue
			}
			p, q := neighbour(chf, at[a], (d+3)%4), neighbour(chf, at[b], d)
			if p >= 0 && q >= 0 && p != q {
				return true
			}
		}
	}
	return false
}

// checkVolumes compares the volumes of an input geometry with a list.
func checkVolumes(t *T) {
	r := t.R
	ig := &recast.InputGeom{}
	type vol struct {
		v    []float32
		a, b float32
		area uint8
	}
	var m []vol
	n := 1 + r.Intn(12)
	if r.Intn(200) == 0 { // more than there's room for
		n = 300
	}
	del, load := 3, 15
	if n > 12 {
		del, load = 25, 1000
	}
	for ; n > 0; n-- {
		if r.Intn(load) == 0 { // volumes go with the geometry they were added to
			if ig.LoadOBJMesh(strings.NewReader("v 0 0 0\nv 0 0 1\nv 1 0 0\nf 1 2 3\n")) != nil {
				t.Fatalf("a triangle can't be loaded")
			}
			m = m[:0]
			t.Count("geometries_loaded", 1)
		} else if r.Intn(10) == 0 { // can't be stored
			v := make([]float32, 3*(13+r.Intn(10)))
			for k := range v {
				v[k] = r.Float32()
			}
			ig.AddConvexVolume(v, 0, 1, 5)
			t.Count("volumes_ignored", 1)
		} else if len(m) > 0 && r.Intn(del) == 0 {
			i := r.Intn(len(m))
			ig.DeleteConvexVolume(i)
			m[i] = m[len(m)-1]
			m = m[:len(m)-1]
			t.Count("volumes_deleted", 1)
		} else {
			v := vol{a: r.Float32(), b: 1 + r.Float32(), area: uint8(r.Intn(64))}
			for k := 3 * (3 + r.Intn(10)); k > 0; k-- {
				v.v = append(v.v, r.Float32())
			}
			ig.AddConvexVolume(v.v, v.a, v.b, v.area)
			if len(m) < 256 {
				m = append(m, v)
				t.Count("volumes_added", 1)
			} else {
				t.Count("volumes_beyond_the_limit", 1)
			}
		}
		vs := ig.ConvexVolumes()
		if int(ig.ConvexVolumesCount()) != len(m) || len(vs) < len(m) {
			t.Fatalf("%d volumes (%d listed), want %d", ig.ConvexVolumesCount(), len(vs), len(m))
		}
		for i, w := range m {
			g := vs[i]
			if int(g.NVerts) != len(w.v)/3 || g.HMin != w.a || g.HMax != w.b || g.Area != int32(w.area) {
				t.Fatalf("volume %d has %d vertices, heights %g to %g, area %d; want %d, %g to %g, %d", i, g.NVerts, g.HMin, g.HMax, g.Area, len(w.v)/3, w.a, w.b, w.area)
			}
			for k := range w.v {
				if g.Verts[k] != w.v[k] {
					t.Fatalf("coordinate %d of volume %d is %g, want %g", k, i, g.Verts[k], w.v[k])
				}
			}
		}
	}
}
