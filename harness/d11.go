package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

func init() {
	register(&Prop{ID: "D11", Quick: 16000, Thorough: 300000, Run: runD11,
		Rule:  "a case is a random mesh with 12 corridors (paths found by searches, and random walks along links, off-mesh connections included), start and end positions inside and outside of the first and last polygons; the straight path, with each option and several output sizes, is compared with the shortest polyline through the portals computed by a visibility graph; non-trivial if a straight path has at least one corner; distinct by corridors",
		MinEv: []string{"straight_paths", "corners", "offmesh_vertices", "crossings_checked", "area_crossings_checked", "small_outputs", "clamped_starts", "clamped_ends", "invalid_in_corridor", "invalid_small_outputs", "random_walks", "partial_portals"},
		Assume: []string{"portals nearly parallel to the part of the straight path that crosses them are left out of the claim about crossings",
			"the claim about lengths leaves out corridors in which a corner is inside of another portal (portals to other tiles are rounded to 1/255 of an edge)",
			"polylines are compared within the precision at which the library merges vertices (2e-5 of the coordinates)"}})
}

// crossParam is the lowest parameter, not below prev, at which the segment
// a, b crosses the portal l, r.
func crossParam(a, b, l, r V3, prev float64) (float64, bool) {
	d := V3{b[0] - a[0], 0, b[2] - a[2]}
	len2 := d.dot(d)
	if len2 < 1e-14 {
		x, _ := distSeg2D(a, l, r)
		return prev, x < 1e-7
	}
	ln := math.Sqrt(len2)
	cl, cr := cross2(a, b, l)/ln, cross2(a, b, r)/ln // signed distances
	par := func(p V3) float64 { return (d[0]*(p[0]-a[0]) + d[2]*(p[2]-a[2])) / len2 }
	const e = 1e-9
	if math.Abs(cl) <= e && math.Abs(cr) <= e {
		t0, t1 := par(l), par(r)
		if t0 > t1 {
			t0, t1 = t1, t0
		}
		t := math.Max(prev, math.Max(t0, 0))
		return math.Min(t, 1), t <= t1+e && t <= 1+e
	}
	if cl > e && cr > e || cl < -e && cr < -e {
		return 0, false
	}
	s := cl / (cl - cr)
	s = math.Max(0, math.Min(1, s))
	t := par(l.lerp(r, s))
	if t < -e || t > 1+e || t < prev-e {
		return 0, false
	}
	return math.Max(t, prev), true
}

// shortest2D is the length of the shortest polyline from a to b through the
// portals, in order, and that polyline.
func shortest2D(a, b V3, pl, pr []V3) (float64, []V3) {
	n := len(pl)
	type node struct {
		p V3
		k int
	}
	nodes := []node{{a, -1}}
	for k := range pl {
		nodes = append(nodes, node{pl[k], k})
		if pl[k] != pr[k] {
			nodes = append(nodes, node{pr[k], k})
		}
	}
	nodes = append(nodes, node{b, n})
	best := make([]float64, len(nodes))
	for i := range best {
		best[i] = math.Inf(1)
	}
	best[0] = 0
	prev := make([]int, len(nodes))
	for i := range nodes {
		if math.IsInf(best[i], 1) {
			continue
		}
		for j := i + 1; j < len(nodes); j++ {
			if nodes[j].k == nodes[i].k {
				continue
			}
			d := best[i] + nodes[i].p.dist2D(nodes[j].p)
			if d >= best[j] {
				continue
			}
			ok := true
			t := 0.0
			for k := nodes[i].k + 1; k < nodes[j].k && ok; k++ {
				t, ok = crossParam(nodes[i].p, nodes[j].p, pl[k], pr[k], t)
			}
			if ok {
				best[j] = d
				prev[j] = i
			}
		}
	}
	var pts []V3
	for i := len(nodes) - 1; i > 0; i = prev[i] {
		pts = append([]V3{nodes[i].p}, pts...)
	}
	return best[len(nodes)-1], append([]V3{a}, pts...)
}

// segSegDist is the distance in the ground plane between the point a+t(b-a)
// and the segment l, r.
func entryParam(a, b, l, r V3, from, eps float64) (float64, bool) {
	f := func(t float64) float64 {
		d, _ := distSeg2D(a.lerp(b, t), l, r)
		return d
	}
	if f(from) <= eps {
		return from, true
	}
	// the distance is convex along the segment
	lo, hi := from, 1.0
	for k := 0; k < 80; k++ {
		m1, m2 := lo+(hi-lo)/3, hi-(hi-lo)/3
		if f(m1) <= f(m2) {
			hi = m2
		} else {
			lo = m1
		}
	}
	m := (lo + hi) / 2
	if f(1) < f(m) {
		m = 1
	}
	if f(m) > eps {
		return 0, false
	}
	lo, hi = from, m
	for k := 0; k < 60; k++ {
		x := (lo + hi) / 2
		if f(x) <= eps {
			hi = x
		} else {
			lo = x
		}
	}
	return hi, true
}

// followsPortals tells whether the polyline goes through the portals in
// order, within eps; it returns the first one it misses.
func followsPortals(pts, pl, pr []V3, eps float64) (int, bool) {
	s, t := 0, 0.0
	for k := range pl {
		for {
			if s >= len(pts)-1 {
				if d, _ := distSeg2D(pts[len(pts)-1], pl[k], pr[k]); d <= eps {
					break
				}
				return k, false
			}
			x, ok := entryParam(pts[s], pts[s+1], pl[k], pr[k], t, eps)
			if ok {
				t = x
				break
			}
			s, t = s+1, 0
		}
	}
	return 0, true
}

func polyline2D(pts []V3) float64 {
	l := 0.0
	for i := 1; i < len(pts); i++ {
		l += pts[i].dist2D(pts[i-1])
	}
	return l
}

// clampToOutline is the position itself if it's over the polygon, and the
// closest point of its outline otherwise.
func clampToOutline(x *MPoly, p V3) (V3, bool) {
	if len(x.V) > 2 && inPoly2D(p, x.V) > 0 {
		return p, false
	}
	best, bp := math.Inf(1), V3{}
	for e := range x.V {
		a, b := x.V[e], x.V[(e+1)%len(x.V)]
		if d, s := distSeg2D(p, a, b); d < best {
			best, bp = d, a.lerp(b, s)
		}
	}
	return bp, true
}

// sameClamp tells if p is as good as c as the point of the outline of x
// closest to pos, given the precision of the distances.
func sameClamp(p, c, pos V3, x *MPoly, eps float64) bool {
	if p.dist(c) <= eps {
		return true
	}
	q, _ := clampToOutline(x, p)
	return q.dist2D(p) <= eps && math.Abs(pos.dist2D(p)-pos.dist2D(c)) <= 1e-5*(1+pos.dist2D(c))
}

func vecs(n int) []d3.Vec3 {
	v := make([]d3.Vec3, n)
	for i := range v {
		v[i] = d3.NewVec3XYZ(-777, -777, -777)
	}
	return v
}

// randWalk is a random chain of linked polygons, none twice.
func (mp *MeshPolys) randWalk(r *rand.Rand, n int) []detour.PolyRef {
	i := r.Intn(len(mp.L))
	seen := map[int]bool{i: true}
	path := []detour.PolyRef{mp.L[i].Ref}
	for len(path) < n {
		var c []int
		for _, l := range mp.links(i) {
			if j, ok := mp.I[l.ref]; ok && !seen[j] {
				if _, _, ok := mp.portal(i, j); ok {
					c = append(c, j)
				}
			}
		}
		if len(c) == 0 {
			break
		}
		i = c[r.Intn(len(c))]
		seen[i] = true
		path = append(path, mp.L[i].Ref)
	}
	return path
}

func runD11(t *T) {
	r := t.R
	w, mp := pathWorld(t, r.Intn(4) == 0)
	m := mp.M
	st, q := detour.NewNavMeshQuery(m, 2048)
	if detour.StatusFailed(st) {
		t.Fatalf("NewNavMeshQuery: 0x%x", uint32(st))
	}
	buf := make([]detour.PolyRef, 256)
	for k := 0; k < 12; k++ {
		a, b := mp.L[r.Intn(len(mp.L))], mp.L[r.Intn(len(mp.L))]
		pa, pb := a.randPoint(r), b.randPoint(r)
		var path []detour.PolyRef
		if r.Intn(3) == 0 {
			path = mp.randWalk(r, 1+r.Intn(30))
			t.Count("random_walks", 1)
			b = mp.L[mp.I[path[len(path)-1]]]
			a = mp.L[mp.I[path[0]]]
			pa, pb = a.randPoint(r), b.randPoint(r)
		} else {
			f := randFilter(r, r.Intn(3))
			n, st := q.FindPath(a.Ref, b.Ref, pa.f32(), pb.f32(), f.F, buf)
			if detour.StatusFailed(st) {
				t.Fatalf("FindPath: 0x%x", uint32(st))
			}
			path = append([]detour.PolyRef{}, buf[:n]...)
		}
		switch r.Intn(5) {
		case 0: // positions away from the polygons
			pa = pa.add(V3{(r.Float64() - 0.5) * 20, 0, (r.Float64() - 0.5) * 20})
			pb = pb.add(V3{(r.Float64() - 0.5) * 20, 0, (r.Float64() - 0.5) * 20})
		case 1: // at a vertex
			pa = a.V[r.Intn(len(a.V))]
		case 2:
			if r.Intn(3) == 0 {
				pb = pa
			}
		case 3:
			special(r, mp, a, mp.L[mp.I[path[len(path)-1]]], &pa, &pb)
		}
		if r.Intn(4) == 0 { // at the end of an off-mesh connection
			for j := len(path) - 2; j > 0; j-- {
				x := mp.L[mp.I[path[j]]]
				if x.P.Type() != 1 {
					continue
				}
				path = path[imax(0, j-1-r.Intn(3)):]
				pa = x.V[r.Intn(2)]
				if r.Intn(3) == 0 {
					pb = x.V[r.Intn(2)]
				}
				t.Count("corridors from the end of a connection", 1)
				break
			}
		}
		for i := range pa {
			pa[i], pb[i] = float64(float32(pa[i])), float64(float32(pb[i]))
		}
		seen := map[detour.PolyRef]int{}
		dup := false
		for _, p := range path {
			seen[p]++
			dup = dup || seen[p] > 1
		}
		if dup {
			continue // going back and forth through an off-mesh connection
		}
		checkStraight(t, mp, q, path, pa, pb, fmt.Sprintf("corridor %d", k))
	}
	t.Desc("%s", w.desc())
}

func checkStraight(t *T, mp *MeshPolys, q *detour.NavMeshQuery, path []detour.PolyRef, pa, pb V3, what string) {
	r := t.R
	m := mp.M
	// vertices that are approximately equal are merged
	mx := 0.0
	for _, x := range mp.L {
		for _, v := range x.V {
			mx = math.Max(mx, math.Max(math.Abs(v[0]), math.Abs(v[2])))
		}
	}
	eps := 2e-5*(1+mx) + 2e-3
	n := len(path)
	ids := make([]int, n)
	for i := range path {
		ids[i] = mp.I[path[i]]
	}
	what += fmt.Sprintf(" of %d polygons from %s (%v to %v)", n, refName(m, path[0]), pa, pb)
	var pl, pr []V3
	for i := 0; i+1 < n; i++ {
		l, rr, ok := mp.portal(ids[i], ids[i+1])
		if !ok {
			t.Fatalf("%s: polygons %d and %d aren't linked", what, i, i+1)
		}
		pl, pr = append(pl, l), append(pr, rr)
		for _, k := range mp.links(ids[i]) {
			if k.ref == path[i+1] && k.side != 0xff && (k.bmin != 0 || k.bmax != 255) {
				t.Count("partial_portals", 1)
			}
		}
	}
	cs, c1 := clampToOutline(mp.L[ids[0]], pa)
	ce, c2 := clampToOutline(mp.L[ids[n-1]], pb)
	if c1 {
		t.Count("clamped_starts", 1)
	}
	if c2 {
		t.Count("clamped_ends", 1)
	}
	opt, optPts := shortest2D(cs, ce, pl, pr)
	if math.IsInf(opt, 1) {
		panic("no polyline through the portals")
	}
	flat := false
	for k := range pl {
		// a corridor through a polygon from one to another part of a straight
		// border meets both edge-on
		if k > 0 && pl[k].dist2D(pr[k]) > 1e-4 && pl[k-1].dist2D(pr[k-1]) > 1e-4 {
			d := V3{pr[k][0] - pl[k][0], 0, pr[k][2] - pl[k][2]}
			l := d.len()
			if math.Abs(cross2(pl[k], pr[k], pl[k-1])) < 5e-3*l && math.Abs(cross2(pl[k], pr[k], pr[k-1])) < 5e-3*l {
				t.Count("left_out_edge_on", 1)
				return
			}
		}
		if pl[k].dist2D(pr[k]) > 1e-4 && crossedFlat(optPts, pl[k], pr[k], 5e-3) {
			t.Count("left_out_edge_on", 1)
			return
		}
		// the positions of crossings are imprecise then
		flat = flat || pl[k].dist2D(pr[k]) > 1e-4 && crossedFlat(optPts, pl[k], pr[k], 2.5e-2)
	}
	taut := true
	for k := range pl {
		for i, c := range optPts {
			end := i == 0 && k == 0 || i == len(optPts)-1 && k == len(pl)-1
			near := math.Min(c.dist2D(pl[k]), c.dist2D(pr[k]))
			if d, _ := distSeg2D(c, pl[k], pr[k]); d < 1e-3 && near > 2e-5 && (!end || near < 0.06) {
				taut = false
			}
		}
	}
	// portals are rounded to 1/255 of edges, so that corners of one can be a
	// little inside of the next
	for k := range pl {
		for _, j := range []int{k - 1, k + 1} {
			if j < 0 || j >= len(pl) {
				continue
			}
			for _, c := range []V3{pl[j], pr[j]} {
				near := math.Min(c.dist2D(pl[k]), c.dist2D(pr[k]))
				if d, _ := distSeg2D(c, pl[k], pr[k]); d < 1e-3 && near > 2e-5 && near < 0.5 && pl[j].dist2D(pr[j]) > 1e-4 {
					taut = false
				}
			}
		}
	}
	if !taut {
		t.Count("corner_inside_portal", 1)
	}
	size := 3*n + 8
	type result struct {
		pts   []V3
		flags []uint8
		refs  []detour.PolyRef
	}
	var base result
	for _, option := range []int32{0, int32(detour.StraightPathAreaCrossings), int32(detour.StraightPathAllCrossings)} {
		what := fmt.Sprintf("%s, options %d", what, option)
		if flat && option != 0 {
			t.Count("left_out_flat_crossings", 1)
			continue
		}
		sp, fl, rf := vecs(size), make([]uint8, size), make([]detour.PolyRef, size)
		cnt, st := q.FindStraightPath(pa.f32(), pb.f32(), append([]detour.PolyRef{}, path...), sp, fl, rf, option)
		t.Count("straight_paths", 1)
		if st != detour.Success {
			t.Fatalf("%s: status 0x%x", what, uint32(st))
		}
		if cnt < 1 || cnt >= size {
			t.Fatalf("%s: %d vertices", what, cnt)
		}
		res := result{nil, fl[:cnt], rf[:cnt]}
		for i := 0; i < cnt; i++ {
			res.pts = append(res.pts, v3(sp[i]))
		}
		for i := cnt; i < size; i++ {
			if sp[i][0] != -777 || fl[i] != 0 || rf[i] != 0 {
				t.Fatalf("%s: written past the %d vertices reported", what, cnt)
			}
		}
		if !sameClamp(res.pts[0], cs, pa, mp.L[ids[0]], eps) {
			t.Fatalf("%s: starts at %v instead of %v", what, res.pts[0], cs)
		}
		if !sameClamp(res.pts[cnt-1], ce, pb, mp.L[ids[n-1]], eps) {
			t.Fatalf("%s: ends at %v instead of %v", what, res.pts[cnt-1], ce)
		}
		slack := res.pts[0].dist2D(cs) + res.pts[cnt-1].dist2D(ce)
		if l := polyline2D(res.pts); taut && l > opt*(1+1e-4)+2*eps+slack {
			t.Fatalf("%s: of length %f, the shortest being %f: %v", what, l, opt, res.pts)
		}
		if k, ok := followsPortals(res.pts, pl, pr, eps); !ok {
			t.Fatalf("%s: leaves the corridor between polygons %d and %d: %v", what, k, k+1, res.pts)
		}
		// flags and references
		last := -1 // portal of the last vertex
		for i := 0; i < cnt; i++ {
			f, ref := res.flags[i], res.refs[i]
			if i == cnt-1 {
				if f != detour.StraightPathEnd || ref != 0 {
					t.Fatalf("%s: the last vertex has flags %d, reference %s", what, f, refName(m, ref))
				}
				continue
			}
			if i == 0 && f == detour.StraightPathStart && ref == path[0] {
				continue
			}
			// (flags and reference are those of the last event at a position)
			if f == detour.StraightPathEnd || f == detour.StraightPathStart && i > 0 {
				t.Fatalf("%s: vertex %d has flags %d", what, i, f)
			}
			// a portal with the vertex, through which the polygon is entered
			found := -1
			for k := 0; k < n-1; k++ {
				if path[k+1] == ref && (k > last || k == last && res.pts[i].dist2D(res.pts[i-1]) <= eps) {
					found = k
				}
			}
			if found < 0 {
				if i == 0 && ref == path[0] {
					t.Fatalf("%s: the first vertex has flags %d", what, f)
				}
				t.Fatalf("%s: vertex %d (%v) has reference %s, which isn't entered after portal %d", what, i, res.pts[i], refName(m, ref), last)
			}
			d, s := distSeg2D(res.pts[i], pl[found], pr[found])
			if d > eps {
				t.Fatalf("%s: vertex %d (%v) is tagged with %s, the portal to which (%v, %v) is at %f", what, i, res.pts[i], refName(m, ref), pl[found], pr[found], d)
			}
			if y := pl[found].lerp(pr[found], s)[1]; i > 0 && math.Abs(y-res.pts[i][1]) > 0.02 && pl[found].dist2D(pr[found]) > 0.1 {
				t.Fatalf("%s: vertex %d is at height %f instead of %f", what, i, res.pts[i][1], y)
			}
			if i > 0 && option == 0 {
				if res.pts[i].dist(pl[found]) > eps && res.pts[i].dist(pr[found]) > eps {
					t.Fatalf("%s: vertex %d (%v) isn't a corner of a portal", what, i, res.pts[i])
				}
				t.Count("corners", 1)
				t.Nontrivial()
				t.Mix(path)
			}
			off := !mp.L[ids[found+1]].ground()
			if option == 0 && i > 0 && off != (f == detour.StraightPathOffMeshConnection) {
				t.Fatalf("%s: vertex %d enters %s, flags %d", what, i, refName(m, ref), f)
			}
			if off && f == detour.StraightPathOffMeshConnection {
				t.Count("offmesh_vertices", 1)
			}
			last = found
		}
		// each off-mesh connection crossed has its vertex
		for k := range pl {
			if mp.L[ids[k+1]].ground() || k+1 == n-1 {
				continue
			}
			ok := false
			for i := 0; i < cnt; i++ {
				ok = ok || res.refs[i] == path[k+1] && res.flags[i] == detour.StraightPathOffMeshConnection
			}
			if !ok && pl[k].dist2D(pl[k+1]) > 4*eps {
				t.Fatalf("%s: no vertex flagged at %v, where an off-mesh connection is entered: %v %v", what, pl[k], res.pts, res.flags)
			}
		}
		if option == 0 {
			base = res
		} else {
			// the same shape
			for _, x := range base.pts {
				best := math.Inf(1)
				for _, y := range res.pts {
					best = math.Min(best, x.dist2D(y))
				}
				if best > eps {
					t.Fatalf("%s: vertex %v of the path without options is missing", what, x)
				}
			}
			for i, x := range res.pts {
				best := math.Inf(1)
				for k := 0; k+1 < len(base.pts); k++ {
					d, _ := distSeg2D(x, base.pts[k], base.pts[k+1])
					best = math.Min(best, d)
				}
				if len(base.pts) == 1 {
					best = x.dist2D(base.pts[0])
				}
				if best > eps {
					t.Fatalf("%s: vertex %d, %v, is %f away from the path without options", what, i, x, best)
				}
			}
			for k := range pl {
				A, B := mp.L[ids[k]], mp.L[ids[k+1]]
				if option == int32(detour.StraightPathAreaCrossings) && A.P.Area() == B.P.Area() {
					continue
				}
				if pl[k].dist2D(pr[k]) <= 1e-4 {
					continue
				}
				best := math.Inf(1)
				for _, x := range res.pts {
					d, _ := distSeg2D(x, pl[k], pr[k])
					best = math.Min(best, d)
				}
				if best > eps {
					t.Fatalf("%s: no vertex at the border (%v, %v) between polygons %d and %d: %v", what, pl[k], pr[k], k, k+1, res.pts)
				}
				if option == int32(detour.StraightPathAreaCrossings) {
					t.Count("area_crossings_checked", 1)
				} else {
					t.Count("crossings_checked", 1)
				}
			}
			if option == int32(detour.StraightPathAreaCrossings) {
				// and no vertices elsewhere
				for i := 1; i < cnt-1; i++ {
					isbase := false
					for _, y := range base.pts {
						isbase = isbase || y.dist2D(res.pts[i]) <= eps
					}
					if isbase {
						continue
					}
					ok := false
					for k := range pl {
						if mp.L[ids[k]].P.Area() != mp.L[ids[k+1]].P.Area() {
							d, _ := distSeg2D(res.pts[i], pl[k], pr[k])
							ok = ok || d <= eps
						}
					}
					if !ok {
						t.Fatalf("%s: vertex %d, %v, isn't at a change of area", what, i, res.pts[i])
					}
				}
			}
		}
		// without flags and references
		sp2 := vecs(size)
		if c, st2 := q.FindStraightPath(pa.f32(), pb.f32(), path, sp2, nil, nil, option); c != cnt || st2 != st {
			t.Fatalf("%s: %d vertices, status 0x%x without flags and references, %d with them", what, c, uint32(st2), cnt)
		}
		for i := 0; i < cnt; i++ {
			if v3(sp2[i]) != res.pts[i] {
				t.Fatalf("%s: vertex %d differs without flags and references", what, i)
			}
		}
		// small outputs
		for _, s := range []int{1, cnt, 1 + r.Intn(cnt)} {
			sp, fl, rf := vecs(size), make([]uint8, size), make([]detour.PolyRef, size)
			c, st := q.FindStraightPath(pa.f32(), pb.f32(), path, sp[:s:s], fl[:s:s], rf[:s:s], option)
			t.Count("small_outputs", 1)
			if c != s || !detour.StatusSucceed(st) || !detour.StatusDetail(st, detour.BufferTooSmall) {
				t.Fatalf("%s: %d vertices with an output of %d, status 0x%x", what, c, s, uint32(st))
			}
			for i := range sp {
				if i >= s && sp[i][0] != -777 {
					t.Fatalf("%s: written past an output of %d", what, s)
				}
				if i < s && v3(sp[i]) != res.pts[i] {
					t.Fatalf("%s: vertex %d is %v with an output of %d, and %v with enough room", what, i, sp[i], s, res.pts[i])
				}
				if i < s-1 && (fl[i] != res.flags[i] || rf[i] != res.refs[i]) {
					t.Fatalf("%s: vertex %d has other flags with an output of %d", what, i, s)
				}
			}
		}
	}
	// a corridor with an invalid polygon, or polygons that aren't linked
	if n >= 2 && r.Intn(3) == 0 {
		k := 1 + r.Intn(n-1)
		bad := append([]detour.PolyRef{}, path...)
		if k == n-1 || r.Intn(2) == 0 {
			if k == n-1 {
				bad = append(bad, path[0])
			}
			bad[k] = 0
		} else {
			o := mp.L[r.Intn(len(mp.L))].Ref
			if mp.linked(bad[k-1], o) || bad[k-1] == o {
				return
			}
			bad[k] = o
		}
		sp, fl, rf := vecs(size), make([]uint8, size), make([]detour.PolyRef, size)
		cnt, st := q.FindStraightPath(pa.f32(), pb.f32(), bad, sp, fl, rf, 0)
		t.Count("invalid_in_corridor", 1)
		if !detour.StatusSucceed(st) || !detour.StatusDetail(st, detour.PartialResult) || cnt < 1 {
			t.Fatalf("%s: with polygon %d replaced, %d vertices, status 0x%x", what, k, cnt, uint32(st))
		}
		ce, _ := clampToOutline(mp.L[ids[k-1]], pb)
		if e := v3(sp[cnt-1]); !sameClamp(e, ce, pb, mp.L[ids[k-1]], eps) {
			t.Fatalf("%s: with polygon %d replaced, the path ends at %v instead of %v", what, k, e, ce)
		}
		for _, opt := range []int32{0, int32(detour.StraightPathAreaCrossings), int32(detour.StraightPathAllCrossings)} {
			full := vecs(size)
			cnt, _ := q.FindStraightPath(pa.f32(), pb.f32(), bad, full, fl, rf, opt)
			for _, sz := range []int{1, 1 + r.Intn(cnt), cnt, max(1, cnt-1), cnt + 1} {
				sp := vecs(sz + 1)
				c, st := q.FindStraightPath(pa.f32(), pb.f32(), bad, sp[:sz:sz], make([]uint8, sz), make([]detour.PolyRef, sz), opt)
				t.Count("invalid_small_outputs", 1)
				if c != min(sz, cnt) || !detour.StatusSucceed(st) || detour.StatusDetail(st, detour.BufferTooSmall) != (sz <= cnt) {
					t.Fatalf("%s: with polygon %d replaced and options %d, %d vertices in an output of %d instead of %d, status 0x%x", what, k, opt, c, sz, cnt, uint32(st))
				}
				for i := 0; i < c; i++ {
					if v3(sp[i]) != v3(full[i]) {
						t.Fatalf("%s: with polygon %d replaced and options %d, vertex %d is %v in an output of %d and %v with enough room", what, k, opt, i, sp[i], sz, full[i])
					}
				}
			}
		}
	}
	sp := vecs(4)
	for i, c := range []struct {
		p []detour.PolyRef
		o []d3.Vec3
	}{{nil, sp}, {path, nil}, {append([]detour.PolyRef{0}, path[1:]...), sp}, {append(append([]detour.PolyRef{}, path...), 0), sp}} {
		if cnt, st := q.FindStraightPath(pa.f32(), pb.f32(), c.p, c.o, nil, nil, 0); cnt != 0 || !detour.StatusFailed(st) || !detour.StatusDetail(st, detour.InvalidParam) {
			t.Fatalf("%s: invalid arguments (%d): %d vertices, status 0x%x", what, i, cnt, uint32(st))
		}
	}
}

// crossedFlat tells if the portal l, r is nearly parallel to a part of the
// polyline that comes close to it.
// (sine of the angle under lim)
func crossedFlat(pts []V3, l, r V3, lim float64) bool {
	d := V3{r[0] - l[0], 0, r[2] - l[2]}
	dl := d.len()
	for i := 0; i+1 < len(pts); i++ {
		u := V3{pts[i+1][0] - pts[i][0], 0, pts[i+1][2] - pts[i][2]}
		ul := u.len()
		if ul < 1e-4 {
			continue
		}
		if s := (u[0]*d[2] - u[2]*d[0]) / ul / dl; math.Abs(s) < lim {
			a1, _ := distSeg2D(l, pts[i], pts[i+1])
			a2, _ := distSeg2D(r, pts[i], pts[i+1])
			a3, _ := distSeg2D(pts[i], l, r)
			a4, _ := distSeg2D(pts[i+1], l, r)
			if math.Min(math.Min(a1, a2), math.Min(a3, a4)) < 0.05 {
				return true
			}
		}
	}
	return false
}
