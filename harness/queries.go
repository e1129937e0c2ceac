package main

// Random queries of all kinds, described by value, so that they can be run on
// any query object, any number of times.

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

type qspec struct {
	kind           string
	start, end     detour.PolyRef
	a, b, ext      V3
	f              detour.QueryFilter
	opts           int
	size           int
	path           []detour.PolyRef
	budgets        []int
	abandonAfter   int
	partialResults bool
}

// randQuery makes a random query; aux is a query object used to make up
// arguments.
func randQuery(r *rand.Rand, mp *MeshPolys, aux *detour.NavMeshQuery, f detour.QueryFilter) *qspec {
	x, y := mp.L[r.Intn(len(mp.L))], mp.L[r.Intn(len(mp.L))]
	s := &qspec{start: x.Ref, end: y.Ref, a: x.randPoint(r), b: y.randPoint(r), f: f}
	special(r, mp, x, y, &s.a, &s.b)
	s.size = []int{1, 2, 3, 1 + r.Intn(10), 256, 256}[r.Intn(6)]
	if r.Intn(25) == 0 {
		s.start = detour.PolyRef(r.Uint32())
	}
	if r.Intn(25) == 0 {
		s.end = detour.PolyRef(r.Uint32())
	}
	budgets := func() {
		for k := 1 + r.Intn(4); k > 0; k-- {
			s.budgets = append(s.budgets, 1+r.Intn(12))
		}
		s.budgets = append(s.budgets, 1<<20)
		if r.Intn(3) == 0 {
			s.opts = int(detour.FindPathAnyAngle)
		}
	}
	switch r.Intn(12) {
	case 0, 1:
		s.kind = "path"
	case 2, 3:
		s.kind = "straight"
		out := make([]detour.PolyRef, 256)
		n, _ := aux.FindPath(x.Ref, y.Ref, s.a.f32(), s.b.f32(), detour.NewStandardQueryFilter(), out)
		s.path = out[:n]
		if n > 1 && r.Intn(8) == 0 {
			s.path[r.Intn(n)] = detour.PolyRef(r.Uint32())
		}
		s.opts = []int{0, 0, int(detour.StraightPathAreaCrossings), int(detour.StraightPathAllCrossings)}[r.Intn(4)]
	case 4:
		s.kind = "nearest"
		s.a = s.a.add(V3{r.NormFloat64() * 2, r.NormFloat64(), r.NormFloat64() * 2})
		s.ext = V3{r.Float64() * 6, r.Float64() * 6, r.Float64() * 6}
	case 5:
		s.kind = "closest"
	case 6:
		s.kind = "boundary"
	case 7:
		s.kind = "ray"
		if r.Intn(3) == 0 {
			s.opts = int(detour.RaycastUseCosts)
		}
	case 8:
		s.kind = "ray2"
	case 9:
		s.kind = "sliced"
		budgets()
	case 10:
		s.kind = "sliced-early"
		budgets()
		s.abandonAfter = r.Intn(3)
		s.partialResults = r.Intn(2) == 0
		if s.partialResults {
			out := make([]detour.PolyRef, 64)
			n, _ := aux.FindPath(x.Ref, y.Ref, s.a.f32(), s.b.f32(), detour.NewStandardQueryFilter(), out)
			s.path = out[:n]
		}
	case 11:
		s.kind = "abandoned"
		budgets()
		s.abandonAfter = r.Intn(3)
	}
	s.a, s.b, s.ext = v3(s.a.f32()), v3(s.b.f32()), v3(s.ext.f32())
	return s
}

// run does the query and describes its result exactly. The output arguments
// are filled with leftovers if dirty isn't nil.
func (s *qspec) run(q *detour.NavMeshQuery, dirty *rand.Rand) string {
	a, b, ext := d3.Vec3(s.a.f32()), d3.Vec3(s.b.f32()), d3.Vec3(s.ext.f32())
	path := append([]detour.PolyRef{}, s.path...)
	junkRef := func() detour.PolyRef {
		if dirty == nil {
			return 0
		}
		return detour.PolyRef(dirty.Uint32())
	}
	junk := func() float32 {
		if dirty == nil {
			return 0
		}
		switch dirty.Intn(4) {
		case 0:
			return math.MaxFloat32
		case 1:
			return float32(math.Inf(-1))
		}
		return float32(dirty.NormFloat64() * 100)
	}
	out := make([]detour.PolyRef, s.size)
	for i := range out {
		out[i] = junkRef()
	}
	vec := func() d3.Vec3 { return d3.Vec3{junk(), junk(), junk()} }
	res := s.kind + ": "
	slices := func(max int) detour.Status {
		st := q.InitSlicedFindPath(s.start, s.end, a, b, s.f, uint32(s.opts))
		res += fmt.Sprintf("init 0x%x", uint32(st))
		for i := 0; detour.StatusInProgress(st) && i < max; i++ {
			bud := s.budgets[len(s.budgets)-1]
			if i < len(s.budgets) {
				bud = s.budgets[i]
			}
			done := -1
			st = q.UpdateSlicedFindPath(bud, &done)
			res += fmt.Sprintf(", update 0x%x after %d", uint32(st), done)
		}
		return st
	}
	switch s.kind {
	case "path":
		n, st := q.FindPath(s.start, s.end, a, b, s.f, out)
		res += fmt.Sprintf("%x 0x%x", out[:n], uint32(st))
	case "straight":
		pts := make([]d3.Vec3, s.size)
		fl := make([]uint8, s.size)
		for i := range pts {
			pts[i] = vec()
			fl[i] = uint8(junkRef())
		}
		n, st := q.FindStraightPath(a, b, path, pts, fl, out, int32(s.opts))
		res += fmt.Sprintf("%v %v %x 0x%x", pts[:n], fl[:n], out[:n], uint32(st))
	case "nearest":
		st, ref, pt := q.FindNearestPoly(a, ext, s.f)
		res += fmt.Sprintf("0x%x %x", uint32(st), ref)
		if ref != 0 {
			res += fmt.Sprint(pt)
		}
	case "closest":
		c := vec()
		over := dirty != nil && dirty.Intn(2) == 0
		st := q.ClosestPointOnPoly(s.start, b, c, &over)
		res += fmt.Sprintf("0x%x", uint32(st))
		if !detour.StatusFailed(st) {
			res += fmt.Sprint(c, over)
		}
	case "boundary":
		c := vec()
		st := q.ClosestPointOnPolyBoundary(s.start, b, c)
		res += fmt.Sprintf("0x%x", uint32(st))
		if !detour.StatusFailed(st) {
			res += fmt.Sprint(c)
		}
	case "ray":
		hit := &detour.RaycastHit{Path: out, MaxPath: s.size}
		if dirty != nil {
			hit.T, hit.PathCost, hit.PathCount, hit.HitEdgeIndex, hit.HitNormal = junk(), junk(), dirty.Intn(5), dirty.Intn(5), vec()
		}
		st := q.Raycast(s.start, a, b, s.f, s.opts, hit, 0)
		res += fmt.Sprintf("0x%x", uint32(st))
		if !detour.StatusFailed(st) {
			res += fmt.Sprintf(" %v %v %x", hit.T, hit.PathCost, hit.Path[:hit.PathCount])
			if hit.T != math.MaxFloat32 {
				res += fmt.Sprint(hit.HitNormal, hit.HitEdgeIndex)
			}
		}
	case "ray2":
		nrm := vec()
		n, tt, st := q.Raycast2(s.start, a, b, s.f, nrm, out, s.size)
		res += fmt.Sprintf("0x%x", uint32(st))
		if !detour.StatusFailed(st) {
			res += fmt.Sprintf(" %v %x", tt, out[:n])
			if tt != math.MaxFloat32 {
				res += fmt.Sprint(nrm)
			}
		}
	case "sliced":
		slices(1 << 20)
		n, st := q.FinalizeSlicedFindPath(out, s.size)
		res += fmt.Sprintf(", finalized %x 0x%x", out[:n], uint32(st))
	case "sliced-early":
		slices(s.abandonAfter)
		var n int
		var st detour.Status
		if s.partialResults {
			n, st = q.FinalizeSlicedFindPathPartial(path, len(path), out, s.size)
		} else {
			n, st = q.FinalizeSlicedFindPath(out, s.size)
		}
		res += fmt.Sprintf(", finalized %x 0x%x", out[:n], uint32(st))
	case "abandoned":
		slices(s.abandonAfter)
	}
	if v3(a) != s.a || v3(b) != s.b || v3(ext) != s.ext {
		res += " POSITIONS MODIFIED"
	}
	for i := range path {
		if path[i] != s.path[i] {
			res += " PATH MODIFIED"
			break
		}
	}
	return res
}
