package main

import (
	"container/heap"
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

func init() {
	register(&Prop{ID: "D07", Quick: 16000, Thorough: 300000, Run: runD07,
		Rule:  "a case is a random mesh (1 to 9 tiles, layers, off-mesh connections) with 30 path searches between random polygons with random filters, node limits (from one up) and output sizes (from one up), each path being checked polygon by polygon against the links of the mesh, plus searches with invalid arguments; non-trivial if a path of at least 3 polygons was found; distinct by the paths found",
		MinEv: []string{"paths", "complete", "partial", "out_of_nodes", "buffer_too_small", "invalid_args", "offmesh_crossed", "tile_crossings"}})
	register(&Prop{ID: "D08", Quick: 16000, Thorough: 300000, Run: runD08,
		Rule:  "a case is a random mesh with random blockings, 12 random filters and start polygons; the search is compared, for many end polygons, with a breadth first search over the links; non-trivial if both reachable and unreachable ends were seen; distinct by the reachable sets",
		MinEv: []string{"searches", "reachable", "unreachable", "rejected_end", "partial_ends_checked"}})
	register(&Prop{ID: "D09", Quick: 16000, Thorough: 300000, Run: runD09,
		Rule:  "a case is a random mesh with 12 searches with random area costs not below one (or a custom cost function); the cost of the path is compared with the lowest one computed by Dijkstra's algorithm over the same positions; non-trivial if the cheapest path has at least 3 polygons and isn't the one with the fewest polygons or lowest uniform cost; distinct by path",
		MinEv: []string{"searches", "compared", "various_costs", "detours", "custom_costs"}})
	register(&Prop{ID: "D10", Quick: 12000, Thorough: 250000, Run: runD10,
		Rule:  "a case is a random mesh with 10 searches, each done in slices with several sequences of iteration budgets, in one go, and at once by FindPath, finalized at the end or early, with random output sizes and options; non-trivial if slices of at least two updates found a path of at least 3 polygons; distinct by the paths and budgets",
		MinEv: []string{"sliced_searches", "updates", "early_finalized", "partial_finalized", "refused", "any_angle", "compared_with_findpath", "restarted", "queries_between_updates"}})
}

// pathWorld makes a mesh for path searches.
func pathWorld(t *T, single bool) (*GWorld, *MeshPolys) {
	r := t.R
	if t.Idx%4000 == 2999 {
		t.Count("big_tiles", 1)
		w := bigWorld(r, single)
		return w, newMeshPolys(w.build()).attach(w)
	}
	o := randOpt(r)
	o.N = 2 + r.Intn(5)
	if o.TX*o.TY > 4 {
		o.N = 2 + r.Intn(3)
	}
	if single {
		o.TX, o.TY, o.Layers, o.Offs = 1, 1, 0, 0
		o.N = 3 + r.Intn(6)
	}
	if !single && r.Intn(2) == 0 {
		o.Offs = 1 + r.Intn(6)
	}
	if !single && t.Idx%50 == 49 {
		o.tower(r)
		t.Count("towers", 1)
	}
	w := makeWorld(r, o)
	mp := newMeshPolys(w.build()).attach(w)
	// flags and areas of a few polygons change after the creation, as the
	// format provides
	if r.Intn(4) == 0 {
		for _, x := range mp.L {
			if r.Intn(10) == 0 {
				x.P.Flags = uint16(r.Intn(1 << 16))
				x.P.SetArea(uint8(r.Intn(64)))
			}
		}
	}
	return w, mp
}

func (mp *MeshPolys) links(i int) []linkRec { return linksOf(mp.L[i].Tile, mp.L[i].P) }

// linked tells if there's a link from a to b.
func (mp *MeshPolys) linked(a, b detour.PolyRef) bool {
	i, ok := mp.I[a]
	if !ok {
		return false
	}
	for _, l := range mp.links(i) {
		if l.ref == b {
			return true
		}
	}
	return false
}

// checkCorridor checks that path is a chain of linked polygons that pass the
// filter, starting at start.
func (mp *MeshPolys) checkCorridor(t *T, what string, path []detour.PolyRef, start detour.PolyRef, pass func(*detour.Poly) bool) {
	if len(path) == 0 {
		t.Fatalf("%s: the path is empty", what)
	}
	if path[0] != start {
		t.Fatalf("%s: the path starts with 0x%x instead of 0x%x", what, uint32(path[0]), uint32(start))
	}
	for k := range path {
		i, ok := mp.I[path[k]]
		if !ok {
			t.Fatalf("%s: polygon %d of the path, 0x%x, doesn't exist", what, k, uint32(path[k]))
		}
		if k == 0 {
			continue
		}
		if !pass(mp.L[i].P) {
			t.Fatalf("%s: polygon %d of the path, %s, doesn't pass the filter", what, k, refName(mp.M, path[k]))
		}
		if !mp.linked(path[k-1], path[k]) {
			t.Fatalf("%s: polygon %d of the path, %s, isn't linked to the next, %s", what, k-1, refName(mp.M, path[k-1]), refName(mp.M, path[k]))
		}
	}
}

func runD07(t *T) {
	r := t.R
	w, mp := pathWorld(t, r.Intn(4) == 0)
	m := mp.M
	limits := []int32{1, 2, 3, 4, 5, int32(6 + r.Intn(30)), int32(6 + r.Intn(30)), 4096, 4096, 4096}
	limit := limits[r.Intn(len(limits))]
	st, q := detour.NewNavMeshQuery(m, limit)
	if detour.StatusFailed(st) {
		t.Fatalf("a query with %d nodes is refused: 0x%x", limit, uint32(st))
	}
	t.Desc("%s; %d nodes", w.desc(), limit)
	enough := int(limit) >= 4*len(mp.L)+1
	for k := 0; k < 30; k++ {
		f := randFilter(r, r.Intn(3))
		a, b := mp.L[r.Intn(len(mp.L))], mp.L[r.Intn(len(mp.L))]
		pa, pb := a.randPoint(r), b.randPoint(r)
		special(r, mp, a, b, &pa, &pb)
		if r.Intn(10) == 0 {
			pb = pb.add(V3{r.NormFloat64() * 3, r.NormFloat64(), r.NormFloat64() * 3})
		}
		size := []int{1, 2, 3, 1 + r.Intn(10), 512, 512, 512}[r.Intn(7)]
		const guard = 0xdeadbeef
		full := make([]detour.PolyRef, size+2)
		for i := range full {
			full[i] = guard
		}
		sa, sb := pa.f32(), pb.f32()
		n, st := q.FindPath(a.Ref, b.Ref, sa, sb, f.F, full[:size:size])
		what := fmt.Sprintf("search %d from %s to %s (%d nodes, output of %d)", k, refName(m, a.Ref), refName(m, b.Ref), limit, size)
		t.Count("paths", 1)
		if !detour.StatusSucceed(st) || detour.StatusFailed(st) || detour.StatusInProgress(st) {
			t.Fatalf("%s: status 0x%x", what, uint32(st))
		}
		if n > size || n < 1 {
			t.Fatalf("%s: %d polygons", what, n)
		}
		if full[size] != guard || full[size+1] != guard {
			t.Fatalf("%s: written past the output", what)
		}
		for i := n; i < size; i++ {
			if full[i] != guard {
				t.Fatalf("%s: written past the %d polygons reported", what, n)
			}
		}
		path := full[:n]
		mp.checkCorridor(t, what, path, a.Ref, f.pass)
		small := detour.StatusDetail(st, detour.BufferTooSmall)
		partial := detour.StatusDetail(st, detour.PartialResult)
		oon := detour.StatusDetail(st, detour.OutOfNodes)
		if small && n != size {
			t.Fatalf("%s: the output is too small, yet only %d polygons were written", what, n)
		}
		if !small && !partial && path[n-1] != b.Ref {
			t.Fatalf("%s: the path ends at %s with status 0x%x", what, refName(m, path[n-1]), uint32(st))
		}
		if !small && partial && path[n-1] == b.Ref {
			t.Fatalf("%s: a complete path is flagged as partial", what)
		}
		if oon && enough {
			t.Fatalf("%s: out of nodes, with %d polygons", what, len(mp.L))
		}
		if uint32(st)&detour.StatusDetailMask&^(detour.BufferTooSmall|detour.PartialResult|detour.OutOfNodes) != 0 {
			t.Fatalf("%s: status 0x%x", what, uint32(st))
		}
		if pn := q.NodePool().NodeCount(); pn > limit {
			t.Fatalf("%s: %d nodes", what, pn)
		}
		if small {
			t.Count("buffer_too_small", 1)
			// the beginning of the path found with enough room
			big := make([]detour.PolyRef, 4096)
			n2, st2 := q.FindPath(a.Ref, b.Ref, sa, sb, f.F, big)
			if n2 <= n || detour.StatusDetail(st2, detour.BufferTooSmall) {
				t.Fatalf("%s: flagged as too small, but the whole path has %d polygons (status 0x%x)", what, n2, uint32(st2))
			}
			for i := range path {
				if path[i] != big[i] {
					t.Fatalf("%s: polygon %d isn't that of the whole path", what, i)
				}
			}
		}
		if f.Uniform && !oon && !small && !partial {
			// (a partial path may end by entering polygons again elsewhere)
			seen := map[detour.PolyRef]int{}
			for i, p := range path {
				if j, ok := seen[p]; ok {
					t.Fatalf("%s: polygon %s occurs at %d and %d", what, refName(m, p), j, i)
				}
				seen[p] = i
			}
		}
		if partial {
			t.Count("partial", 1)
		} else if !small {
			t.Count("complete", 1)
		}
		if oon {
			t.Count("out_of_nodes", 1)
		}
		if n >= 3 {
			t.Nontrivial()
			t.Mix(path)
		}
		for i := range path {
			x := mp.L[mp.I[path[i]]]
			if !x.ground() {
				t.Count("offmesh_crossed", 1)
			}
			if i > 0 && mp.L[mp.I[path[i-1]]].Tile != x.Tile {
				t.Count("tile_crossings", 1)
			}
		}
		t.Max("path_length", float64(n))
	}
	// invalid arguments
	f := detour.NewStandardQueryFilter()
	a := mp.L[r.Intn(len(mp.L))]
	p := a.center().f32()
	out := make([]detour.PolyRef, 8)
	bad := detour.PolyRef(0)
	for k := 0; k < 6; k++ {
		x := detour.PolyRef(r.Uint32())
		if _, ok := mp.I[x]; !ok {
			bad = x
		}
	}
	for i, c := range []struct {
		s, e   detour.PolyRef
		sp, ep d3.Vec3
		f      detour.QueryFilter
		o      []detour.PolyRef
	}{
		{0, a.Ref, p, p, f, out}, {a.Ref, 0, p, p, f, out}, {bad, a.Ref, p, p, f, out}, {a.Ref, bad, p, p, f, out}, {bad, bad, p, p, f, out},
		{a.Ref, a.Ref, nil, p, f, out}, {a.Ref, a.Ref, p, nil, f, out}, {a.Ref, a.Ref, p[:2], p, f, out}, {a.Ref, a.Ref, p, p, nil, out}, {a.Ref, a.Ref, p, p, f, nil}, {a.Ref, a.Ref, p, p, f, out[:0]},
	} {
		n, st := q.FindPath(c.s, c.e, c.sp, c.ep, c.f, c.o)
		if n != 0 || !detour.StatusFailed(st) || !detour.StatusDetail(st, detour.InvalidParam) {
			t.Fatalf("search with invalid arguments (%d): %d polygons, status 0x%x", i, n, uint32(st))
		}
		t.Count("invalid_args", 1)
	}
}

// reach computes the polygons that can be reached from start.
func (mp *MeshPolys) reach(start int, pass func(*detour.Poly) bool) map[int]bool {
	seen := map[int]bool{start: true}
	todo := []int{start}
	for len(todo) > 0 {
		i := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, l := range mp.links(i) {
			j, ok := mp.I[l.ref]
			if !ok {
				panic(violated{fmt.Sprintf("link to 0x%x, which doesn't exist", uint32(l.ref))})
			}
			if !seen[j] && pass(mp.L[j].P) {
				seen[j] = true
				todo = append(todo, j)
			}
		}
	}
	return seen
}

func runD08(t *T) {
	r := t.R
	w, mp := pathWorld(t, r.Intn(4) == 0)
	m := mp.M
	limit := int32(imin(4*len(mp.L)+4, 65535))
	st, q := detour.NewNavMeshQuery(m, limit)
	if detour.StatusFailed(st) {
		t.Fatalf("NewNavMeshQuery: 0x%x", uint32(st))
	}
	out := make([]detour.PolyRef, limit)
	sawR, sawU := false, false
	for k := 0; k < 12; k++ {
		f := randFilter(r, r.Intn(3))
		si := r.Intn(len(mp.L))
		a := mp.L[si]
		pa := a.randPoint(r)
		reach := mp.reach(si, f.pass)
		t.Mix(len(reach))
		ends := []int{}
		for j := 0; j < 8; j++ {
			ends = append(ends, r.Intn(len(mp.L)))
		}
		for _, ei := range ends {
			b := mp.L[ei]
			pa, pb := pa, b.randPoint(r)
			special(r, mp, a, b, &pa, &pb)
			if pa == pb {
				t.Count("searches to the start's position", 1)
			}
			n, st := q.FindPath(a.Ref, b.Ref, pa.f32(), pb.f32(), f.F, out)
			t.Count("searches", 1)
			what := fmt.Sprintf("search %d from %s to %s", k, refName(m, a.Ref), refName(m, b.Ref))
			if detour.StatusFailed(st) || n < 1 {
				t.Fatalf("%s: status 0x%x", what, uint32(st))
			}
			if detour.StatusDetail(st, detour.OutOfNodes) {
				t.Fatalf("%s: out of nodes (%d for %d polygons)", what, limit, len(mp.L))
			}
			partial := detour.StatusDetail(st, detour.PartialResult)
			if reach[ei] == partial || reach[ei] != (out[n-1] == b.Ref) {
				t.Fatalf("%s: reachable %v, but the status is 0x%x and the path ends at %s", what, reach[ei], uint32(st), refName(m, out[n-1]))
			}
			if reach[ei] {
				sawR = true
				t.Count("reachable", 1)
				continue
			}
			sawU = true
			t.Count("unreachable", 1)
			if !f.pass(b.P) {
				t.Count("rejected_end", 1)
			}
			// the path leads to the explored polygon closest to the end,
			// all the reachable ones being explored
			last := math.Inf(1)
			best, bestRef := math.Inf(1), detour.PolyRef(0)
			np := q.NodePool()
			explored := map[detour.PolyRef]bool{}
			for i := int32(1); i <= np.NodeCount(); i++ {
				nd := np.NodeAtIdx(i)
				explored[nd.ID] = true
				d := v3(nd.Pos).dist(pb)
				if d < best {
					best, bestRef = d, nd.ID
				}
				if nd.ID == out[n-1] && d < last {
					last = d
				}
			}
			for i := range reach {
				if !explored[mp.L[i].Ref] {
					t.Fatalf("%s: %s is reachable, but wasn't explored", what, refName(m, mp.L[i].Ref))
				}
			}
			if len(explored) != len(reach) {
				t.Fatalf("%s: %d polygons are reachable, but %d were explored", what, len(reach), len(explored))
			}
			if last > best*(1+1e-4)+1e-3 {
				t.Fatalf("%s: the partial path ends at %s, entered %f from the end, but %s is entered %f from it", what, refName(m, out[n-1]), last, refName(m, bestRef), best)
			}
			t.Count("partial_ends_checked", 1)
		}
	}
	if sawR && sawU {
		t.Nontrivial()
	}
	t.Desc("%s", w.desc())
}

// costFilter is a filter with a custom cost function, never below the distance.
type costFilter struct {
	*Filt
	seed  uint64
	calls int
}

func (c *costFilter) PassFilter(ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	return c.pass(poly)
}

func (c *costFilter) factor(cur, next detour.PolyRef) float64 {
	// depends on the pair crossed: a custom cost can make edges dear
	return 1 + float64(hash64(c.seed, uint64(cur), uint64(next))%1000)/200
}

func (c *costFilter) Cost(pa, pb d3.Vec3, prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly,
	curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly,
	nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	c.calls++
	return float32(float64(pa.Dist(pb)) * c.factor(curRef, nextRef))
}

type dnode struct {
	i int
	c float64
}
type dheap []dnode

func (h dheap) Len() int            { return len(h) }
func (h dheap) Less(i, j int) bool  { return h[i].c < h[j].c }
func (h dheap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *dheap) Push(x interface{}) { *h = append(*h, x.(dnode)) }
func (h *dheap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// searchState is what a search has recorded in its nodes.
type searchState struct {
	id     []detour.PolyRef
	state  []uint8
	pos    []V3
	parent []int // -1: none
	cost   []float64
	idx    map[[2]uint64]int
}

func readSearch(q *detour.NavMeshQuery) *searchState {
	np := q.NodePool()
	s := &searchState{idx: map[[2]uint64]int{}}
	for i := int32(1); i <= np.NodeCount(); i++ {
		nd := np.NodeAtIdx(i)
		s.id = append(s.id, nd.ID)
		s.state = append(s.state, nd.State)
		s.pos = append(s.pos, v3(nd.Pos))
		s.parent = append(s.parent, int(nd.PIdx)-1)
		s.cost = append(s.cost, float64(nd.Cost))
		s.idx[[2]uint64{uint64(nd.ID), uint64(nd.State)}] = int(i - 1)
	}
	return s
}

// dijkstra computes the lowest cost from the first node to the end polygon
// over the recorded positions; cost gives the cost of going from a to b in
// polygon cur, towards polygon next (0 at the end).
func (mp *MeshPolys) dijkstra(s *searchState, end detour.PolyRef, endPos V3, pass func(*detour.Poly) bool, cost func(a, b V3, cur, next detour.PolyRef) float64) (float64, bool) {
	dist := make([]float64, len(s.id))
	for i := range dist {
		dist[i] = math.Inf(1)
	}
	dist[0] = 0
	h := &dheap{{0, 0}}
	done := make([]bool, len(s.id))
	for h.Len() > 0 {
		x := heap.Pop(h).(dnode)
		if done[x.i] {
			continue
		}
		done[x.i] = true
		if s.id[x.i] == end {
			return x.c, true
		}
		var pref detour.PolyRef
		if s.parent[x.i] >= 0 {
			pref = s.id[s.parent[x.i]]
		}
		for _, l := range mp.links(mp.I[s.id[x.i]]) {
			// the search doesn't go straight back to where it came from
			if l.ref == pref || !pass(mp.L[mp.I[l.ref]].P) {
				continue
			}
			var cs uint8
			if l.side != 0xff {
				cs = l.side >> 1
			}
			j, ok := s.idx[[2]uint64{uint64(l.ref), uint64(cs)}]
			if !ok {
				continue
			}
			c := x.c + cost(s.pos[x.i], s.pos[j], s.id[x.i], l.ref)
			if l.ref == end {
				c += cost(s.pos[j], endPos, l.ref, 0)
			}
			if c < dist[j] {
				dist[j] = c
				heap.Push(h, dnode{j, c})
			}
		}
	}
	return 0, false
}

// pathCost sums the cost of a path up along the positions of its nodes.
func (s *searchState) pathCost(path []detour.PolyRef, endPos V3, cost func(a, b V3, cur, next detour.PolyRef) float64) (float64, string) {
	// the nodes of the path, backwards along the parents from one of the
	// nodes of the last polygon
	for i := range s.id {
		if s.id[i] != path[len(path)-1] {
			continue
		}
		var chain []int
		for k := i; k >= 0; k = s.parent[k] {
			chain = append(chain, k)
			if len(chain) > len(s.id) {
				return 0, "the parents of the nodes form a cycle"
			}
		}
		if len(chain) != len(path) {
			continue
		}
		ok := true
		for k := range path {
			if s.id[chain[len(chain)-1-k]] != path[k] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		c := 0.0
		for k := len(chain) - 1; k > 0; k-- {
			a, b := chain[k], chain[k-1]
			c += cost(s.pos[a], s.pos[b], s.id[a], s.id[b])
		}
		c += cost(s.pos[i], endPos, s.id[i], 0)
		return c, ""
	}
	return 0, "the path isn't along the parents of the nodes"
}

func runD09(t *T) {
	r := t.R
	w, mp := pathWorld(t, r.Intn(3) == 0)
	m := mp.M
	limit := int32(imin(4*len(mp.L)+4, 65535))
	_, q := detour.NewNavMeshQuery(m, limit)
	out := make([]detour.PolyRef, limit)
	t.Desc("%s", w.desc())
	for k := 0; k < 12; k++ {
		kind := r.Intn(4)
		f := randFilter(r, kind%3)
		if r.Intn(2) == 0 {
			f.Inc, f.Exc = 0xffff, 0
			f.F.SetIncludeFlags(f.Inc)
			f.F.SetExcludeFlags(f.Exc)
		}
		var qf detour.QueryFilter = f.F
		cost := func(a, b V3, cur, next detour.PolyRef) float64 {
			return a.dist(b) * f.Cost[mp.L[mp.I[cur]].P.AreaAndType&0x3f]
		}
		if kind == 3 {
			cf := &costFilter{Filt: f, seed: uint64(r.Int63())}
			qf = cf
			cost = func(a, b V3, cur, next detour.PolyRef) float64 { return a.dist(b) * cf.factor(cur, next) }
			t.Count("custom_costs", 1)
		} else if kind == 2 {
			t.Count("various_costs", 1)
		}
		a, b := mp.L[r.Intn(len(mp.L))], mp.L[r.Intn(len(mp.L))]
		if a == b {
			continue
		}
		pa, pb := a.randPoint(r), b.randPoint(r)
		special(r, mp, a, b, &pa, &pb)
		n, st := q.FindPath(a.Ref, b.Ref, pa.f32(), pb.f32(), qf, out)
		t.Count("searches", 1)
		if detour.StatusFailed(st) || uint32(st)&detour.StatusDetailMask != 0 {
			continue
		}
		what := fmt.Sprintf("search %d from %s to %s (cost kind %d)", k, refName(m, a.Ref), refName(m, b.Ref), kind)
		s := readSearch(q)
		got, msg := s.pathCost(out[:n], pb, cost)
		if msg != "" {
			t.Fatalf("%s: %s", what, msg)
		}
		// positions are in the middle of a portal the polygon is entered through
		for i := 1; i < len(s.id); i++ {
			ok := false
			for _, l := range mp.links(mp.I[s.id[i]]) {
				j, lk := mp.I[l.ref]
				if !lk {
					continue
				}
				if pl, pr, has := mp.portal(j, mp.I[s.id[i]]); has && pl.lerp(pr, 0.5).dist(s.pos[i]) < 1e-3 {
					ok = true
				}
			}
			if !ok && !offmeshEntry(mp, mp.I[s.id[i]]) {
				t.Fatalf("%s: %s is entered at %v, which is in the middle of none of its portals", what, refName(m, s.id[i]), s.pos[i])
			}
			t.Count("positions_checked", 1)
		}
		best, ok := mp.dijkstra(s, b.Ref, pb, f.pass, cost)
		if !ok {
			t.Fatalf("%s: the nodes of the search don't lead to the end", what)
		}
		t.Count("compared", 1)
		tol := best*2e-5 + 1e-3
		if got > best+tol {
			t.Fatalf("%s: the path of %d polygons costs %f, but there's one that costs %f", what, n, got, best)
		}
		if got < best-tol {
			t.Fatalf("%s: the path of %d polygons costs %f, less than the cheapest, %f", what, n, got, best)
		}
		t.Max("relative_error", math.Abs(got-best)/(best+1))
		if n >= 3 {
			// would the fewest polygons or the shortest way do?
			uni, ok2 := mp.dijkstra(s, b.Ref, pb, f.pass, func(a, b V3, cur, next detour.PolyRef) float64 { return a.dist(b) })
			du, _ := s.pathCost(out[:n], pb, func(a, b V3, cur, next detour.PolyRef) float64 { return a.dist(b) })
			if ok2 && du > uni*(1+1e-3) {
				t.Count("detours", 1)
				t.Nontrivial()
				t.Mix(out[:n])
			}
			if kind < 2 {
				t.Nontrivial()
				t.Mix(out[:n])
			}
		}
	}
}

type slicedResult struct {
	passed  int // polygons that passed the filter
	path    []detour.PolyRef
	st      detour.Status
	iters   int
	updates int
	done    bool
}

// offmeshEntry tells if a polygon can be entered from an off-mesh connection
// to which there's no link back (a connection in one direction).
func offmeshEntry(mp *MeshPolys, i int) bool {
	for j, x := range mp.L {
		if !x.ground() && mp.linked(x.Ref, mp.L[i].Ref) && !mp.linked(mp.L[i].Ref, mp.L[j].Ref) {
			return true
		}
	}
	return false
}

func runD10(t *T) {
	r := t.R
	single := r.Intn(2) == 0
	w, mp := pathWorld(t, single)
	m := mp.M
	layered := false
	for _, g := range w.Tiles {
		if g.Layer > 0 {
			layered = true
		}
	}
	limits := []int32{2, int32(3 + r.Intn(30)), 4096, 4096, 4096}
	limit := limits[r.Intn(len(limits))]
	_, q := detour.NewNavMeshQuery(m, limit)
	_, q2 := detour.NewNavMeshQuery(m, limit)
	_, qb := detour.NewNavMeshQuery(m, 4096)
	enough := int(limit) >= 4*len(mp.L)+4
	t.Desc("%s; %d nodes", w.desc(), limit)
	refused := func(what string, q *detour.NavMeshQuery) {
		out := make([]detour.PolyRef, 8)
		x := 12345
		if st := q.UpdateSlicedFindPath(10, &x); detour.StatusSucceed(st) || detour.StatusInProgress(st) {
			t.Fatalf("%s: updating gives status 0x%x", what, uint32(st))
		}
		if r.Intn(2) == 0 {
			if n, st := q.FinalizeSlicedFindPath(out, 8); n != 0 || !detour.StatusFailed(st) {
				t.Fatalf("%s: finalizing gives %d polygons, status 0x%x", what, n, uint32(st))
			}
		}
		if n, st := q.FinalizeSlicedFindPathPartial([]detour.PolyRef{mp.L[0].Ref}, 1, out, 8); n != 0 || !detour.StatusFailed(st) {
			t.Fatalf("%s: finalizing partially gives %d polygons, status 0x%x", what, n, uint32(st))
		}
		t.Count("refused", 1)
	}
	refused("no search was started", q)
	for k := 0; k < 10; k++ {
		costKind := r.Intn(3)
		f := randFilter(r, costKind)
		a, b := mp.L[r.Intn(len(mp.L))], mp.L[r.Intn(len(mp.L))]
		pa, pb := a.randPoint(r), b.randPoint(r)
		special(r, mp, a, b, &pa, &pb)
		var opt uint32
		if r.Intn(3) == 0 {
			opt = detour.FindPathAnyAngle
			t.Count("any_angle", 1)
			if layered {
				t.Count("any_angle_layered", 1)
			}
		}
		size := []int{1, 2, 3, 4, 1 + r.Intn(12), 512, 512, 512, 512}[r.Intn(9)]
		what := fmt.Sprintf("search %d from %s to %s (%d nodes, output of %d, options %d)", k, refName(m, a.Ref), refName(m, b.Ref), limit, size, opt)
		finalize := func(q *detour.NavMeshQuery, existing []detour.PolyRef) ([]detour.PolyRef, detour.Status) {
			const guard = 0xdeadbeef
			out := make([]detour.PolyRef, size+2)
			for i := range out {
				out[i] = guard
			}
			o := out[:size:size]
			if r.Intn(2) == 0 {
				o = out // the limit given is to be respected nevertheless
			}
			var n int
			var st detour.Status
			if existing != nil {
				n, st = q.FinalizeSlicedFindPathPartial(existing, len(existing), o, size)
			} else {
				n, st = q.FinalizeSlicedFindPath(o, size)
			}
			if n > size || out[size] != guard || out[size+1] != guard {
				t.Fatalf("%s: %d polygons, or written past the output", what, n)
			}
			return out[:n], st
		}
		// run does the search with budgets given by next; it stops after
		// maxUpd updates.
		run := func(q *detour.NavMeshQuery, next func() int, maxUpd int) (res slicedResult) {
			rec := &recFilter{f.F, map[detour.PolyRef]bool{a.Ref: true}, map[detour.PolyRef]bool{}}
			defer func() {
				res.passed = len(rec.passed)
			}()
			st := q.InitSlicedFindPath(a.Ref, b.Ref, pa.f32(), pb.f32(), rec, opt)
			if a.Ref == b.Ref {
				if !detour.StatusSucceed(st) {
					t.Fatalf("%s: status 0x%x of the search for its start", what, uint32(st))
				}
				res.done = true
				return
			}
			if !detour.StatusInProgress(st) {
				t.Fatalf("%s: status 0x%x after initialization", what, uint32(st))
			}
			for res.updates < maxUpd {
				bud := next()
				done := -1
				var dp *int
				if r.Intn(8) != 0 {
					dp = &done
				}
				rec.from = map[detour.PolyRef]bool{}
				st = q.UpdateSlicedFindPath(bud, dp)
				res.updates++
				// each iteration goes on from one polygon
				if n := len(rec.from); opt == 0 && (n > bud || dp != nil && n > done) {
					t.Fatalf("%s: an update for %d iterations went on from %d polygons and reports %d iterations", what, bud, n, done)
				}
				t.Count("updates", 1)
				// Queries that need no search may be done in between.
				if r.Intn(6) == 0 {
					z := mp.L[r.Intn(len(mp.L))]
					p := z.randPoint(r)
					switch r.Intn(5) {
					case 0:
						q.FindNearestPoly(p.f32(), []float32{1, 2, 1}, f.F)
					case 1:
						c := make([]float32, 3)
						q.ClosestPointOnPoly(z.Ref, p.f32(), c, nil)
						q.ClosestPointOnPolyBoundary(z.Ref, p.f32(), c)
					case 2:
						hit := &detour.RaycastHit{Path: make([]detour.PolyRef, 8), MaxPath: 8}
						q.Raycast(z.Ref, p.f32(), pb.f32(), f.F, 0, hit, 0)
					case 3:
						out := make([]detour.PolyRef, 8)
						qb.FindPath(z.Ref, b.Ref, p.f32(), pb.f32(), f.F, out)
					case 4:
						q.FindPath(z.Ref, z.Ref+1<<31, p.f32(), pb.f32(), f.F, nil) // refused
						q.IsValidPolyRef(z.Ref, f.F)
					}
					t.Count("queries_between_updates", 1)
				}
				if detour.StatusFailed(st) {
					t.Fatalf("%s: status 0x%x after update %d", what, uint32(st), res.updates)
				}
				if dp != nil {
					if done < 0 || done > bud {
						t.Fatalf("%s: %d iterations of %d allowed", what, done, bud)
					}
					res.iters += done
				} else {
					res.iters = -1 << 40 // unknown
				}
				if detour.StatusInProgress(st) {
					if detour.StatusSucceed(st) {
						t.Fatalf("%s: status 0x%x", what, uint32(st))
					}
					if dp != nil && done != bud {
						t.Fatalf("%s: in progress after %d iterations of %d allowed", what, done, bud)
					}
					if res.updates > 200000 {
						t.Fatalf("%s: in progress after %d updates", what, res.updates)
					}
					continue
				}
				if !detour.StatusSucceed(st) {
					t.Fatalf("%s: status 0x%x", what, uint32(st))
				}
				res.done = true
				break
			}
			if res.done {
				if st2 := q.UpdateSlicedFindPath(5, nil); st2 != st {
					t.Fatalf("%s: status 0x%x after completion with 0x%x", what, uint32(st2), uint32(st))
				}
			}
			return
		}
		one := run(q, func() int { return 1 << 30 }, 1)
		if !one.done {
			t.Fatalf("%s: in progress after 2^30 iterations", what)
		}
		var endCost float64 = -1
		if a != b {
			if nd := q.NodePool().FindNode(b.Ref, 0); nd != nil {
				endCost = float64(nd.Cost)
			}
		}
		one.path, one.st = finalize(q, nil)
		// each polygon considered takes a node
		checkNodes := func(s *slicedResult) {
			if oon := detour.StatusDetail(s.st, detour.OutOfNodes); opt == 0 && a != b && oon != (s.passed > int(limit)) {
				t.Fatalf("%s: %d polygons considered with %d nodes, status 0x%x", what, s.passed, limit, uint32(s.st))
			} else if oon {
				t.Count("out_of_nodes", 1)
			}
		}
		checkNodes(&one)
		t.Count("sliced_searches", 1)
		checkPath := func(p []detour.PolyRef, st detour.Status, done bool) {
			if !detour.StatusSucceed(st) || detour.StatusFailed(st) || detour.StatusInProgress(st) {
				t.Fatalf("%s: final status 0x%x", what, uint32(st))
			}
			mp.checkCorridor(t, what, p, a.Ref, f.pass)
			small, partial := detour.StatusDetail(st, detour.BufferTooSmall), detour.StatusDetail(st, detour.PartialResult)
			if small && opt == 0 && len(p) != size {
				t.Fatalf("%s: the output is too small, yet %d polygons were written", what, len(p))
			}
			if !small && (p[len(p)-1] == b.Ref) == partial {
				t.Fatalf("%s: the path ends at %s with status 0x%x", what, refName(m, p[len(p)-1]), uint32(st))
			}
		}
		checkPath(one.path, one.st, true)
		refused("the search is over", q)

		// at once
		big := make([]detour.PolyRef, 4096)
		nb, stb := qb.FindPath(a.Ref, b.Ref, pa.f32(), pb.f32(), f.F, big)
		if enough {
			partial, partialB := detour.StatusDetail(one.st, detour.PartialResult), detour.StatusDetail(stb, detour.PartialResult)
			if partial != partialB {
				t.Fatalf("%s: status 0x%x at once, 0x%x in slices", what, uint32(stb), uint32(one.st))
			}
			t.Count("compared_with_findpath", 1)
			if len(w.Tiles) == 1 && len(w.Off) == 0 && opt == 0 && !partial && a != b {
				if nd := qb.NodePool().FindNode(b.Ref, 0); f.Uniform && (nd == nil || math.Abs(float64(nd.Cost)-endCost) > 1e-3+1e-4*endCost) {
					t.Fatalf("%s: the path found in slices costs %f, that found at once %v", what, endCost, nd)
				}
				t.Count("costs_compared", 1)
			}
		}
		// in slices
		var budgets []func() int
		budgets = append(budgets, func() int { return 1 })
		c := 1 + r.Intn(7)
		budgets = append(budgets, func() int { return c }, func() int { return r.Intn(4) }, func() int { return 1 << uint(r.Intn(12)) })
		for bi, next := range budgets {
			if bi > 1 && r.Intn(2) == 0 {
				continue
			}
			if r.Intn(4) == 0 { // abandon another search before
				q2.InitSlicedFindPath(b.Ref, a.Ref, pb.f32(), pa.f32(), f.F, 0)
				q2.UpdateSlicedFindPath(r.Intn(5), nil)
				t.Count("restarted", 1)
			}
			s := run(q2, next, 1<<30)
			s.path, s.st = finalize(q2, nil)
			t.Count("sliced_searches", 1)
			if s.st != one.st || fmt.Sprint(s.path) != fmt.Sprint(one.path) {
				t.Fatalf("%s: status 0x%x and path %v in slices (budgets %d, %d updates), 0x%x and %v with one update", what, uint32(s.st), s.path, bi, s.updates, uint32(one.st), one.path)
			}
			if s.iters >= 0 && one.iters >= 0 && s.iters != one.iters {
				t.Fatalf("%s: %d iterations in slices, %d with one update", what, s.iters, one.iters)
			}
			if s.updates >= 2 && len(s.path) >= 3 {
				t.Nontrivial()
				t.Mix(s.path, s.updates)
			}
		}
		// finalized early
		{
			s := run(q2, func() int { return 1 }, r.Intn([]int{2, 10, 60}[r.Intn(3)]))
			type ex struct {
				d  float64
				id detour.PolyRef
			}
			best := math.Inf(1)
			var visited = map[detour.PolyRef]bool{}
			dist := map[detour.PolyRef]float64{}
			np := q2.NodePool()
			if a != b {
				for i := int32(1); i <= np.NodeCount(); i++ {
					nd := np.NodeAtIdx(i)
					visited[nd.ID] = true
					d := v3(nd.Pos).dist(pb)
					dist[nd.ID] = d
					if d < best {
						best = d
					}
				}
			}
			var existing []detour.PolyRef
			switch r.Intn(3) {
			case 1:
				if nb > 0 {
					existing = append(existing, big[:nb]...)
				}
			case 2:
				for i := 0; i < 1+r.Intn(6); i++ {
					existing = append(existing, mp.L[r.Intn(len(mp.L))].Ref)
				}
			}
			var furthest detour.PolyRef
			for _, p := range existing {
				if visited[p] {
					furthest = p
				}
			}
			s.path, s.st = finalize(q2, existing)
			checkNodes(&s)
			if !detour.StatusSucceed(s.st) || detour.StatusFailed(s.st) {
				t.Fatalf("%s: status 0x%x when finalized after %d updates", what, uint32(s.st), s.updates)
			}
			mp.checkCorridor(t, what+" (finalized early)", s.path, a.Ref, f.pass)
			small, partial := detour.StatusDetail(s.st, detour.BufferTooSmall), detour.StatusDetail(s.st, detour.PartialResult)
			last := s.path[len(s.path)-1]
			if a != b && !small {
				switch {
				case furthest != 0:
					if last != furthest {
						t.Fatalf("%s: finalized after %d updates with existing path %v, the path ends at %s instead of %s", what, s.updates, existing, refName(m, last), refName(m, furthest))
					}
					t.Count("partial_finalized", 1)
				case existing != nil:
					if !partial {
						t.Fatalf("%s: nothing of the existing path was visited, yet the status is 0x%x", what, uint32(s.st))
					}
					t.Count("partial_finalized", 1)
				default:
					if partial == (last == b.Ref) {
						t.Fatalf("%s: finalized after %d updates, the path ends at %s with status 0x%x", what, s.updates, refName(m, last), uint32(s.st))
					}
					t.Count("early_finalized", 1)
				}
				if furthest == 0 && last != b.Ref && dist[last] > best*(1+1e-4)+1e-3 && !visited[b.Ref] {
					t.Fatalf("%s: finalized after %d updates, the path ends at %s, entered %f from the end, but a polygon entered at %f was explored", what, s.updates, refName(m, last), dist[last], best)
				}
			}
		}
		// refused
		bad := detour.PolyRef(r.Uint32())
		if _, ok := mp.I[bad]; ok {
			bad = 0
		}
		s, e := a.Ref, bad
		if r.Intn(2) == 0 {
			s, e = bad, a.Ref
		}
		if r.Intn(4) == 0 {
			s, e = bad, bad
		}
		if st := q.InitSlicedFindPath(s, e, pa.f32(), pb.f32(), f.F, 0); !detour.StatusFailed(st) {
			t.Fatalf("%s: a search from 0x%x to 0x%x is accepted with status 0x%x", what, uint32(s), uint32(e), uint32(st))
		}
		refused("the search was refused", q)
	}
	// tiles removed during the search
	for try := 0; try < 6 && len(w.Tiles) > 1; try++ {
		a, b := mp.L[r.Intn(len(mp.L))], mp.L[r.Intn(len(mp.L))]
		opt := uint32(r.Intn(2)) * detour.FindPathAnyAngle
		if st := q.InitSlicedFindPath(a.Ref, b.Ref, a.randPoint(r).f32(), b.randPoint(r).f32(), detour.NewStandardQueryFilter(), opt); !detour.StatusInProgress(st) {
			continue
		}
		if st := q.UpdateSlicedFindPath(r.Intn(30), nil); !detour.StatusInProgress(st) {
			continue
		}
		for i := 0; i < 1+r.Intn(3); i++ {
			g := w.Tiles[r.Intn(len(w.Tiles))]
			m.RemoveTile(m.TileRefAt(g.X, g.Y, g.Layer))
		}
		t.Count("tiles removed during searches", 1)
		gone := !m.IsValidPolyRef(a.Ref) || !m.IsValidPolyRef(b.Ref)
		upd := r.Intn(4) != 0
		var st detour.Status
		for i := 0; upd && i < 1<<20; i++ {
			if st = q.UpdateSlicedFindPath(1+r.Intn(20), nil); !detour.StatusInProgress(st) {
				break
			}
			if gone {
				t.Fatalf("the search goes on without its start or end: status 0x%x", uint32(st))
			}
		}
		if upd && detour.StatusInProgress(st) || gone && upd && detour.StatusSucceed(st) {
			t.Fatalf("status 0x%x after tiles were removed (start or end gone: %v)", uint32(st), gone)
		}
		if upd && detour.StatusFailed(st) {
			refused("the search failed", q)
			t.Count("searches failed for tiles removed", 1)
			return
		}
		out := make([]detour.PolyRef, 64)
		n, st2 := 0, detour.Status(0)
		if r.Intn(2) == 0 {
			n, st2 = q.FinalizeSlicedFindPath(out, len(out))
		} else {
			n, st2 = q.FinalizeSlicedFindPathPartial([]detour.PolyRef{a.Ref, b.Ref}, 2, out, len(out))
		}
		if n < 0 || n > len(out) || !gone && (!detour.StatusSucceed(st2) || n < 1 || out[0] != a.Ref) {
			t.Fatalf("%d polygons from %s with status 0x%x after tiles were removed", n, refName(m, out[0]), uint32(st2))
		}
		refused("the search is over", q)
		return
	}
}

// recFilter records the polygons that pass a filter.
type recFilter struct {
	detour.QueryFilter
	passed map[detour.PolyRef]bool
	from   map[detour.PolyRef]bool // polygons from which costs to others were asked
}

func (f *recFilter) Cost(pa, pb d3.Vec3, prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly,
	curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly,
	nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	if nextRef != 0 {
		f.from[curRef] = true
	}
	return f.QueryFilter.Cost(pa, pb, prevRef, prevTile, prevPoly, curRef, curTile, curPoly, nextRef, nextTile, nextPoly)
}

func (f *recFilter) PassFilter(ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	ok := f.QueryFilter.PassFilter(ref, tile, poly)
	if ok {
		f.passed[ref] = true
	}
	return ok
}
