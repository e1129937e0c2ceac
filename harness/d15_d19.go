package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

func init() {
	register(&Prop{ID: "D15", Quick: 8000, Thorough: 250000, Run: runD15,
		Rule:  "a case is a random mesh with 20 queries of all kinds done with a user-defined filter (arbitrary decisions and costs by polygon) that records and checks each call it gets, and the same queries done with a standard filter and with a user-defined filter of the same decisions; plus 60 random decisions and costs of standard filters; non-trivial if the filter has rejected polygons while a query returned some; distinct by the calls",
		MinEv: []string{"decisions_asked", "costs_asked", "rejections", "polygons_returned", "equal_to_standard", "standard_decisions", "validity_queries"}})
	register(&Prop{ID: "D17", Quick: 8000, Thorough: 250000, Run: runD17,
		Rule:  "a case is a random mesh and a random sequence of 30 queries of all kinds (valid, invalid, out of nodes, with small outputs, sliced, finalized early, abandoned) (one in three an earlier one again, or with one argument altered) done with one query object and dirty outputs, filters, polygon flags and areas changing and tiles being removed and added in between, each compared bit for bit with a fresh query object; mesh, filters and arguments are compared before and after; non-trivial if at least 8 kinds were mixed; distinct by the sequence of results",
		MinEv: []string{"queries", "failed", "out_of_nodes", "abandoned", "mesh_comparisons", "repeated", "filters_changed", "meshes_changed"}})
	register(&Prop{ID: "D19", Quick: 6000, Thorough: 150000, Run: runD19,
		Rule:  "a case is a random history of up to 600 requests, lookups and clears of a node pool (of a capacity from 1 to 65535, references being drawn so that they collide), checked against a map; non-trivial if the pool was filled or cleared and nodes were found again; distinct by history",
		MinEv: []string{"created", "found_again", "not_found", "refused_full", "clears", "multi_state", "index_conversions", "shared_buckets"}})
}

// spyFilter decides and costs by polygon and checks how it's called.
type spyFilter struct {
	mp       *MeshPolys
	seed     uint64
	rate     uint64 // percents accepted
	bad      string
	asked    map[detour.PolyRef]bool
	nAsk     int
	nCost    int
	rejected int
	inner    detour.QueryFilter
	anyAngle bool // parents aren't adjacent
}

func (s *spyFilter) decide(ref detour.PolyRef) bool {
	return hash64(s.seed, uint64(ref))%100 < s.rate
}

func (s *spyFilter) fail(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

func (s *spyFilter) match(what string, ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	i, ok := s.mp.I[ref]
	if !ok {
		s.fail("%s: polygon 0x%x doesn't exist", what, uint32(ref))
		return false
	}
	x := s.mp.L[i]
	if tile != x.Tile {
		s.fail("%s: the tile given isn't that of polygon %s", what, refName(s.mp.M, ref))
		return false
	}
	if poly != x.P {
		s.fail("%s: the polygon given isn't %s", what, refName(s.mp.M, ref))
		return false
	}
	return true
}

func (s *spyFilter) PassFilter(ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	s.nAsk++
	s.match("PassFilter", ref, tile, poly)
	ok := s.decide(ref)
	if s.inner != nil {
		ok = s.inner.PassFilter(ref, tile, poly)
	}
	if !ok {
		s.rejected++
	}
	s.asked[ref] = ok
	return ok
}

func (s *spyFilter) Cost(pa, pb d3.Vec3, prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly,
	curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly,
	nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	s.nCost++
	s.match("Cost, current polygon", curRef, curTile, curPoly)
	if prevRef != 0 && s.match("Cost, previous polygon", prevRef, prevTile, prevPoly) && !s.anyAngle && !s.mp.linked(prevRef, curRef) {
		s.fail("Cost: the previous polygon %s isn't linked to %s", refName(s.mp.M, prevRef), refName(s.mp.M, curRef))
	}
	if nextRef != 0 && s.match("Cost, next polygon", nextRef, nextTile, nextPoly) {
		if nextRef != curRef && !s.mp.linked(curRef, nextRef) {
			s.fail("Cost: %s isn't linked to the next polygon %s", refName(s.mp.M, curRef), refName(s.mp.M, nextRef))
		}
		if ok, was := s.asked[nextRef]; nextRef != curRef && (!was || !ok) {
			s.fail("Cost: the cost of walking into %s, which the filter has rejected or wasn't asked about, is requested", refName(s.mp.M, nextRef))
		}
	}
	if len(pa) != 3 || len(pb) != 3 {
		s.fail("Cost: positions %v, %v", pa, pb)
		return 1
	}
	if s.inner != nil {
		return s.inner.Cost(pa, pb, prevRef, prevTile, prevPoly, curRef, curTile, curPoly, nextRef, nextTile, nextPoly)
	}
	return pa.Dist(pb) * float32(1+float64(hash64(s.seed, 5, uint64(curRef))%1000)/300)
}

// returned extracts the polygons a query may only return if they pass.
func (s *qspec) returned(q *detour.NavMeshQuery) []detour.PolyRef {
	out := make([]detour.PolyRef, 256)
	a, b := d3.Vec3(s.a.f32()), d3.Vec3(s.b.f32())
	var n int
	var st detour.Status
	skip := 1
	switch s.kind {
	case "path":
		n, st = q.FindPath(s.start, s.end, a, b, s.f, out)
	case "nearest":
		var ref detour.PolyRef
		st, ref, _ = q.FindNearestPoly(a, s.ext.f32(), s.f)
		if ref != 0 {
			out[0], n = ref, 1
		}
		skip = 0
	case "ray", "ray2":
		hit := &detour.RaycastHit{Path: out, MaxPath: len(out)}
		st = q.Raycast(s.start, a, b, s.f, s.opts, hit, 0)
		n = hit.PathCount
	case "sliced", "sliced-early":
		st = q.InitSlicedFindPath(s.start, s.end, a, b, s.f, uint32(s.opts))
		for i := 0; detour.StatusInProgress(st); i++ {
			bud := s.budgets[len(s.budgets)-1]
			if i < len(s.budgets) {
				bud = s.budgets[i]
			}
			st = q.UpdateSlicedFindPath(bud, nil)
			if s.kind == "sliced-early" && i == s.abandonAfter {
				break
			}
		}
		n, st = q.FinalizeSlicedFindPath(out, len(out))
	}
	if detour.StatusFailed(st) || n < skip {
		return nil
	}
	return out[skip:n]
}

func runD15(t *T) {
	r := t.R
	w, mp := pathWorld(t, r.Intn(4) == 0)
	m := mp.M
	limit := int32(4096)
	if r.Intn(4) == 0 {
		limit = int32(4 + r.Intn(30))
	}
	_, q := detour.NewNavMeshQuery(m, limit)
	t.Desc("%s", w.desc())
	saw := false
	for k := 0; k < 20; k++ {
		spy := &spyFilter{mp: mp, seed: r.Uint64(), rate: uint64([]int{60, 80, 95, 100, 0}[r.Intn(5)]), asked: map[detour.PolyRef]bool{}}
		s := randQuery(r, mp, q, spy)
		spy.anyAngle = strings.HasPrefix(s.kind, "sliced") && s.opts != 0
		refs := s.returned(q)
		what := fmt.Sprintf("query %d (%s)", k, s.kind)
		if spy.bad != "" {
			t.Fatalf("%s: %s", what, spy.bad)
		}
		for _, ref := range refs {
			t.Count("polygons_returned", 1)
			if _, ok := mp.I[ref]; !ok {
				t.Fatalf("%s: polygon 0x%x returned doesn't exist", what, uint32(ref))
			}
			if !spy.decide(ref) {
				t.Fatalf("%s: polygon %s returned is rejected by the filter", what, refName(m, ref))
			}
			if _, asked := spy.asked[ref]; !asked {
				t.Fatalf("%s: the filter wasn't asked about polygon %s returned", what, refName(m, ref))
			}
		}
		if len(refs) > 0 && spy.rejected > 0 {
			saw = true
		}
		t.Count("decisions_asked", spy.nAsk)
		t.Count("costs_asked", spy.nCost)
		t.Count("rejections", spy.rejected)
		t.Mix(s.kind, refs, spy.nAsk, spy.nCost)
		// validity
		x := mp.L[r.Intn(len(mp.L))].Ref
		if v := q.IsValidPolyRef(x, spy); v != spy.decide(x) {
			t.Fatalf("IsValidPolyRef of %s, which the filter decides as %v, is %v", refName(m, x), spy.decide(x), v)
		}
		if x = detour.PolyRef(r.Uint32()); q.IsValidPolyRef(x, spy) != (mp.has(x) && spy.decide(x)) {
			t.Fatalf("IsValidPolyRef of 0x%x is wrong", uint32(x))
		}
		if spy.bad != "" {
			t.Fatalf("IsValidPolyRef: %s", spy.bad)
		}
		t.Count("validity_queries", 2)

		// a standard filter and a user-defined one with the same decisions
		f := randFilter(r, r.Intn(3))
		s.f = f.F
		want := s.run(q, nil)
		same := &spyFilter{mp: mp, asked: map[detour.PolyRef]bool{}, inner: f.F, anyAngle: s.opts != 0}
		s.f = same
		if got := s.run(q, nil); got != want {
			t.Fatalf("%s: a user-defined filter deciding as the standard one gives\n%s\ninstead of\n%s", what, got, want)
		}
		if same.bad != "" {
			t.Fatalf("%s: %s", what, same.bad)
		}
		s.f = f.F
		for _, ref := range s.returned(q) {
			if !f.pass(mp.L[mp.I[ref]].P) {
				t.Fatalf("%s: polygon %s (flags %x) returned is rejected by the standard filter (include %x, exclude %x)", what, refName(m, ref), mp.L[mp.I[ref]].P.Flags, f.Inc, f.Exc)
			}
		}
		t.Count("equal_to_standard", 1)
	}
	// decisions of standard filters
	def := detour.NewStandardQueryFilter()
	if def.IncludeFlags() != 0xffff || def.ExcludeFlags() != 0 {
		t.Fatalf("new filter with flags %x, %x", def.IncludeFlags(), def.ExcludeFlags())
	}
	f := detour.NewStandardQueryFilter()
	var costs [64]float32
	for i := range costs {
		if def.AreaCost(int32(i)) != 1 {
			t.Fatalf("new filter with a cost of %f for area %d", def.AreaCost(int32(i)), i)
		}
		costs[i] = float32(r.Float64() * 20)
		f.SetAreaCost(int32(i), costs[i])
	}
	for k := 0; k < 60; k++ {
		bitsOf := func() uint16 {
			switch r.Intn(4) {
			case 0:
				return 1 << uint(r.Intn(16))
			case 1:
				return uint16(r.Intn(1 << 16))
			case 2:
				return uint16(r.Intn(1<<16)) & uint16(r.Intn(1<<16)) & uint16(r.Intn(1<<16))
			}
			return 0
		}
		inc, exc := bitsOf(), bitsOf()
		f.SetIncludeFlags(inc)
		f.SetExcludeFlags(exc)
		p := detour.Poly{Flags: bitsOf()}
		area := uint8(r.Intn(64))
		p.SetArea(area)
		p.SetType(uint8(r.Intn(2)))
		want := false
		for b := uint(0); b < 16; b++ {
			want = want || p.Flags>>b&1 == 1 && inc>>b&1 == 1
		}
		for b := uint(0); b < 16; b++ {
			want = want && !(p.Flags>>b&1 == 1 && exc>>b&1 == 1)
		}
		if f.PassFilter(1, nil, &p) != want || f.IncludeFlags() != inc || f.ExcludeFlags() != exc {
			t.Fatalf("filter of flags %x and %x decides %v on flags %x", inc, exc, !want, p.Flags)
		}
		var o, nx detour.Poly
		o.SetArea(uint8(r.Intn(64)))
		nx.SetArea(uint8(r.Intn(64)))
		a, b := V3{r.NormFloat64() * 10, r.NormFloat64(), r.NormFloat64() * 10}, V3{r.NormFloat64() * 10, r.NormFloat64(), r.NormFloat64() * 10}
		c := float64(f.Cost(a.f32(), b.f32(), 1, nil, &o, 2, nil, &p, 3, nil, &nx))
		want2 := a.dist(b) * float64(costs[area])
		if math.Abs(c-want2) > 1e-4*(1+want2) || f.AreaCost(int32(area)) != costs[area] {
			t.Fatalf("cost %f over a distance of %f in area %d of cost %f", c, a.dist(b), area, costs[area])
		}
		t.Count("standard_decisions", 1)
	}
	if saw {
		t.Nontrivial()
	}
}

func (mp *MeshPolys) has(ref detour.PolyRef) bool { _, ok := mp.I[ref]; return ok }

func runD17(t *T) {
	r := t.R
	w, mp := pathWorld(t, r.Intn(4) == 0)
	m := mp.M
	limit := []int32{1, int32(2 + r.Intn(10)), int32(10 + r.Intn(30)), 2048, 2048}[r.Intn(5)]
	st, q := detour.NewNavMeshQuery(m, limit)
	if detour.StatusFailed(st) {
		t.Fatalf("NewNavMeshQuery: 0x%x", uint32(st))
	}
	if q.AttachedNavMesh() != m {
		t.Fatalf("AttachedNavMesh isn't the mesh")
	}
	_, aux := detour.NewNavMeshQuery(m, 2048)
	before := snapshotMesh(m)
	t.Desc("%s; %d nodes", w.desc(), limit)
	kinds := map[string]bool{}
	var fs []*Filt
	var fdesc []string
	for i := 0; i < 3; i++ {
		f := randFilter(r, r.Intn(3))
		fs = append(fs, f)
		fdesc = append(fdesc, fmt.Sprint(*f.F))
	}
	var hist []string
	var specs []*qspec
	for k := 0; k < 30; k++ {
		f := fs[r.Intn(3)]
		// Now and then the filter or the mesh changes between queries.
		if r.Intn(12) == 0 {
			i := r.Intn(3)
			g := randFilter(r, r.Intn(3))
			*fs[i].F = *g.F
			*fs[i] = Filt{fs[i].F, g.Inc, g.Exc, g.Cost, g.Uniform}
			fdesc[i] = fmt.Sprint(*fs[i].F)
			hist = append(hist, fmt.Sprintf("(filter %d was changed)", i))
			t.Count("filters_changed", 1)
		}
		if r.Intn(12) == 0 {
			x := mp.L[r.Intn(len(mp.L))]
			if r.Intn(2) == 0 {
				for i := r.Intn(4); i >= 0; i-- {
					if _, st := x.Tile.Header, m.IsValidPolyRef(x.Ref); st {
						x.P.Flags = uint16(r.Intn(1 << 16))
						x.P.SetArea(uint8(r.Intn(64)))
					}
					x = mp.L[r.Intn(len(mp.L))]
				}
				hist = append(hist, "(polygons were changed)")
			} else if x.Tile.Header != nil {
				ref := m.TileRef(x.Tile)
				data, st := m.RemoveTile(ref)
				if detour.StatusFailed(st) {
					t.Fatalf("removing a tile: 0x%x", uint32(st))
				}
				hist = append(hist, fmt.Sprintf("(tile 0x%x was removed)", uint32(ref)))
				if r.Intn(3) > 0 {
					last := detour.TileRef(0)
					if r.Intn(2) == 0 {
						last = ref
					}
					st, ref := m.AddTile(data, last)
					if detour.StatusFailed(st) {
						t.Fatalf("adding a tile again: 0x%x", uint32(st))
					}
					hist = append(hist, fmt.Sprintf("(tile was added again as 0x%x)", uint32(ref)))
				}
			}
			if now := snapshotMesh(m); now != before {
				t.Count("meshes_changed", 1)
				before = now
			}
		}
		s := randQuery(r, mp, aux, f.F)
		// Often, an earlier query is repeated, or one that hardly differs.
		if len(specs) > 0 && r.Intn(3) == 0 {
			c := *specs[max(0, len(specs)-1-r.Intn(4))]
			switch r.Intn(6) {
			case 0:
				c.f = f.F
			case 1:
				c.b, c.end = s.b, s.end
			case 2:
				c.a, c.start = s.a, s.start
			case 3:
				c.size = s.size
			case 4:
				if c.kind == "nearest" {
					c.ext = c.ext.mul(.2 + 2*r.Float64())
					c.ext = v3(c.ext.f32())
				} else {
					c.kind = []string{"path", "closest", "boundary", "ray", "ray2"}[r.Intn(5)]
					c.opts = 0
				}
			}
			s = &c
			t.Count("repeated", 1)
		}
		specs = append(specs, s)
		kinds[s.kind] = true
		_, fresh := detour.NewNavMeshQuery(m, limit)
		want := s.run(fresh, nil)
		got := s.run(q, r)
		if got != want {
			t.Fatalf("query %d from %s to %s gives\n%s\ninstead of\n%s\nafter the queries %s", k, refName(m, s.start), refName(m, s.end), got, want, strings.Join(hist, "\n"))
		}
		if strings.Contains(got, "MODIFIED") {
			t.Fatalf("query %d: %s", k, got)
		}
		if strings.Contains(got, "init 0x2") {
			if a, b := q.NodePool().NodeCount(), fresh.NodePool().NodeCount(); a != b {
				t.Fatalf("query %d (%s) uses %d nodes instead of %d", k, s.kind, a, b)
			}
		}
		hist = append(hist, tailStr(got, 200))
		t.Count("queries", 1)
		t.Mix(got)
		if strings.Contains(got, "0x8") {
			t.Count("failed", 1)
		}
		if strings.Contains(got, "0x40000060") || strings.Contains(got, "0x40000020") {
			t.Count("out_of_nodes", 1)
		}
		if s.kind == "abandoned" {
			t.Count("abandoned", 1)
		}
		if r.Intn(20) == 0 || k == 29 {
			if now := snapshotMesh(m); now != before {
				t.Fatalf("the mesh was changed by query %d or the ones before: %s", k, firstDiff(before, now))
			}
			t.Count("mesh_comparisons", 1)
		}
	}
	for i, f := range fs {
		if s := fmt.Sprint(*f.F); s != fdesc[i] {
			t.Fatalf("the filter was changed by queries: %s instead of %s", s, fdesc[i])
		}
	}
	if len(kinds) >= 8 {
		t.Nontrivial()
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("%q instead of %q", b[lo:min(len(b), i+60)], a[lo:min(len(a), i+60)])
}

func runD19(t *T) {
	r := t.R
	limit := []int32{1, 2, 3, 4, int32(1 + r.Intn(20)), int32(1 + r.Intn(200)), int32(200 + r.Intn(400))}[r.Intn(7)]
	if t.Idx%200 == 0 {
		limit = []int32{65535, 65534, 32768, 40000}[t.Idx/200%4]
	}
	w := smallWorldCached()
	m := w
	st, q := detour.NewNavMeshQuery(m, limit)
	if detour.StatusFailed(st) {
		t.Fatalf("a query with %d nodes is refused: 0x%x", limit, uint32(st))
	}
	for _, bad := range []int32{0, -1, 65536, math.MaxInt32, -65536} {
		if st, x := detour.NewNavMeshQuery(m, bad); !detour.StatusFailed(st) || x != nil {
			t.Fatalf("a query with %d nodes is accepted", bad)
		}
	}
	np := q.NodePool()
	if np.MaxNodes() != limit || np.NodeCount() != 0 {
		t.Fatalf("new pool of %d nodes with %d, %d used", limit, np.MaxNodes(), np.NodeCount())
	}
	hs := np.HashSize()
	if hs < 1 || hs&(hs-1) != 0 {
		t.Fatalf("hash size %d", hs)
	}
	type key struct {
		id detour.PolyRef
		st uint8
	}
	type rec struct {
		n    *detour.Node
		idx  uint32
		vals [4]uint32
	}
	model := map[key]*rec{}
	byIdx := map[uint32]key{}
	dead := map[uint32]bool{}
	_ = dead
	var keys []key
	pool := 1 + r.Intn(int(min(limit*2, 1200)))
	var ids []detour.PolyRef
	stride := []uint32{1, 1 << 15, 1 << 20, 0x10001, 7919}[r.Intn(5)]
	base := r.Uint32()
	for i := 0; i < pool; i++ {
		ids = append(ids, detour.PolyRef(base+uint32(i)*stride))
	}
	if r.Intn(3) == 0 {
		ids = append(ids, 0, 0xffffffff, 1)
	}
	checkVals := func(k key, x *rec) {
		n := x.n
		if n.ID != k.id || n.State != k.st {
			t.Fatalf("node of polygon 0x%x, state %d has become that of 0x%x, state %d", uint32(k.id), k.st, uint32(n.ID), n.State)
		}
		if v := [4]uint32{math.Float32bits(n.Cost), math.Float32bits(n.Total), n.PIdx, uint32(n.Flags)}; v != x.vals {
			t.Fatalf("the values of the node of polygon 0x%x, state %d have changed: %v instead of %v", uint32(k.id), k.st, v, x.vals)
		}
	}
	ops := 600
	if limit > 10000 {
		ops = 3
	}
	request := func(k key) {
		n := np.Node(k.id, k.st)
		t.Mix(k)
		if x := model[k]; x != nil {
			t.Count("found_again", 1)
			if n != x.n {
				t.Fatalf("polygon 0x%x, state %d gets another node", uint32(k.id), k.st)
			}
			checkVals(k, x)
			return
		}
		if len(model) >= int(limit) {
			t.Count("refused_full", 1)
			if n != nil {
				t.Fatalf("a full pool of %d nodes gives a node for polygon 0x%x, state %d", limit, uint32(k.id), k.st)
			}
			return
		}
		if n == nil {
			t.Fatalf("no node for polygon 0x%x, state %d, with %d of %d nodes used", uint32(k.id), k.st, len(model), limit)
		}
		idx := np.NodeIdx(n)
		if idx < 1 || idx > uint32(limit) || np.NodeAtIdx(int32(idx)) != n {
			t.Fatalf("node index %d, of a pool of %d, isn't that of the node", idx, limit)
		}
		if o, ok := byIdx[idx]; ok {
			t.Fatalf("polygons 0x%x, state %d and 0x%x, state %d have the same node", uint32(k.id), k.st, uint32(o.id), o.st)
		}
		if n.Cost != 0 || n.Total != 0 || n.PIdx != 0 || n.Flags != 0 || n.ID != k.id || n.State != k.st {
			t.Fatalf("new node %+v for polygon 0x%x, state %d", *n, uint32(k.id), k.st)
		}
		n.Cost, n.Total, n.PIdx, n.Flags = r.Float32(), r.Float32(), r.Uint32()%(1<<24), detour.NodeFlags(r.Intn(8))
		model[k] = &rec{n, idx, [4]uint32{math.Float32bits(n.Cost), math.Float32bits(n.Total), n.PIdx, uint32(n.Flags)}}
		byIdx[idx] = k
		keys = append(keys, k)
		t.Count("created", 1)
		if k.st != 0 {
			t.Count("multi_state", 1)
		}
	}
	randKey := func() key {
		k := key{ids[r.Intn(len(ids))], 0}
		if r.Intn(2) == 0 {
			k.st = uint8(r.Intn(4))
		}
		return k
	}
	audit := func() {
		if int(np.NodeCount()) != len(model) {
			t.Fatalf("%d nodes instead of %d", np.NodeCount(), len(model))
		}
		for k, x := range model {
			checkVals(k, x)
			if np.FindNode(k.id, k.st) != x.n {
				t.Fatalf("node of polygon 0x%x, state %d isn't found", uint32(k.id), k.st)
			}
			if np.NodeIdx(x.n) != x.idx || np.NodeAtIdx(int32(x.idx)) != x.n {
				t.Fatalf("index of the node of polygon 0x%x, state %d", uint32(k.id), k.st)
			}
			t.Count("index_conversions", 1)
		}
		// the chains hold each node once
		seen := map[detour.NodeIndex]bool{}
		for b := int32(0); b < hs; b++ {
			n := 0
			for i := np.First(b); i != 0xffff; i = np.Next(int32(i)) {
				if seen[i] {
					t.Fatalf("node %d is twice in the hash chains", i)
				}
				seen[i] = true
				n++
			}
			if n > 1 {
				t.Count("shared_buckets", 1)
			}
		}
		if len(seen) != len(model) {
			t.Fatalf("%d nodes in the hash chains instead of %d", len(seen), len(model))
		}
	}
	refilled := false
	for op := 0; op < ops; op++ {
		switch c := r.Intn(20); {
		case limit > 10000: // fill it
			for i := 0; len(model) < int(limit); i++ {
				request(key{detour.PolyRef(base + uint32(i)*(stride|1)), uint8(i & 3)})
				if i > int(limit)+10 {
					t.Fatalf("%d nodes of %d after as many requests", len(model), limit)
				}
			}
			request(key{detour.PolyRef(base) + 0x7777777, 0})
			if op > 0 {
				np.Clear()
				model, byIdx, keys = map[key]*rec{}, map[uint32]key{}, nil
				t.Count("clears", 1)
				refilled = true
			} else {
				audit()
			}
		case c < 10:
			request(randKey())
		case c < 15:
			k := randKey()
			n := np.FindNode(k.id, k.st)
			x := model[k]
			if x == nil {
				t.Count("not_found", 1)
				if n != nil {
					t.Fatalf("a node is found for polygon 0x%x, state %d, which wasn't requested", uint32(k.id), k.st)
				}
			} else if n != x.n {
				t.Fatalf("the node of polygon 0x%x, state %d isn't found", uint32(k.id), k.st)
			}
		case c < 18:
			k := randKey()
			want := map[*detour.Node]bool{}
			for s := uint8(0); s < 4; s++ {
				if x := model[key{k.id, s}]; x != nil {
					want[x.n] = true
				}
			}
			maxN := int32(r.Intn(6))
			buf := make([]*detour.Node, maxN+2)
			n := np.FindNodes(k.id, buf, maxN)
			if int(n) != min(len(want), int(maxN)) || buf[maxN] != nil || buf[maxN+1] != nil {
				t.Fatalf("%d nodes found for polygon 0x%x in an output of %d, instead of %d", n, uint32(k.id), maxN, len(want))
			}
			for _, x := range buf[:n] {
				if !want[x] {
					t.Fatalf("wrong or repeated node found for polygon 0x%x", uint32(k.id))
				}
				delete(want, x)
			}
		case c == 18:
			audit()
		case c == 19 && r.Intn(6) == 0:
			if len(model) == int(limit) {
				refilled = true
			}
			np.Clear()
			model, byIdx, keys = map[key]*rec{}, map[uint32]key{}, nil
			if np.NodeCount() != 0 {
				t.Fatalf("%d nodes after clearing", np.NodeCount())
			}
			t.Count("clears", 1)
			refilled = true
		}
	}
	audit()
	if np.NodeIdx(nil) != 0 || np.NodeAtIdx(0) != nil {
		t.Fatalf("index of no node")
	}
	if refilled || len(model) == int(limit) {
		t.Nontrivial()
	}
	t.Desc("pool of %d nodes, %d buckets, %d requested", limit, hs, len(keys))
}

var cachedMesh *detour.NavMesh

func smallWorldCached() *detour.NavMesh {
	if cachedMesh == nil {
		cachedMesh = smallMesh(rand.New(rand.NewSource(1)))
	}
	return cachedMesh
}
