package main

import (
	"math"

	"github.com/arl/go-detour/recast"
)

// hpatch models the heights a polygon's detail mesh is made of: those of the
// region's surface, elsewhere those of surface connected with it, elsewhere
// those of the cells nearby that have one.
type hpatch struct {
	x0, z0, w, h int
	set          map[int][]float64 // the possible heights of cells
	sure         map[int]bool      // cells that can't be without a height
	any          bool              // nothing is known
}

// newPatch follows connections from the surface of the region, or from that
// next to the polygon's vertices where there's none of the region.
func newPatch(chf *recast.CompactHeightfield, at []cspan, p2 []pt2, py []int, reg int) *hpatch {
	bs := int(chf.BorderSize)
	lo, hi := p2[0], p2[0]
	for _, p := range p2 {
		lo, hi = pt2{imin(lo.x, p.x), imin(lo.z, p.z)}, pt2{imax(hi.x, p.x), imax(hi.z, p.z)}
	}
	p := &hpatch{x0: imax(0, lo.x-1), z0: imax(0, lo.z-1), set: map[int][]float64{}, sure: map[int]bool{}}
	p.w, p.h = imin(int(chf.Width), hi.x+1)-p.x0, imin(int(chf.Height), hi.z+1)-p.z0
	ch := float64(chf.Ch)
	idx := func(s cspan) int {
		x, z := s.x-bs-p.x0, s.y-bs-p.z0
		if x < 0 || z < 0 || x >= p.w || z >= p.h {
			return -1
		}
		return x + z*p.w
	}
	spans := map[int][]int{} // spans that can have given a cell its height
	level := map[int]int{}
	fixed := map[int]bool{}
	seen := map[int]bool{}
	var queue []int
	unique := true
	if reg != 0 {
		for z := 0; z < p.h; z++ {
			for x := 0; x < p.w; x++ {
				c := chf.Cells[p.x0+x+bs+(p.z0+z+bs)*int(chf.Width)]
				for i := int(c.Index); i < int(c.Index)+int(c.Count); i++ {
					if int(chf.Spans[i].Reg) == reg {
						k := x + z*p.w
						spans[k], fixed[k], p.sure[k] = []int{i}, true, true
						queue, seen[i] = append(queue, i), true
						break
					}
				}
			}
		}
	}
	region := len(queue) > 0
	if !region { // the polygon's vertices
		best := 0xffff
		for k := range p2 {
			for dz := -1; dz <= 1; dz++ {
				for dx := -1; dx <= 1; dx++ {
					x, z := p2[k].x+dx, p2[k].z+dz
					if x < p.x0 || z < p.z0 || x >= p.x0+p.w || z >= p.z0+p.h {
						continue
					}
					c := chf.Cells[x+bs+(z+bs)*int(chf.Width)]
					for i := int(c.Index); i < int(c.Index)+int(c.Count); i++ {
						d := iabs(py[k] - int(chf.Spans[i].Y))
						if d > best {
							continue
						}
						if d < best {
							best, queue = d, nil
						}
						queue = append(queue, i)
					}
				}
			}
		}
		if len(queue) == 0 {
			p.any = true
			return p
		}
		for _, i := range queue {
			seen[i] = true
			k := idx(at[i])
			spans[k] = append(spans[k], i)
			unique = unique && len(spans[k]) < 2
		}
	}
	// All that could be reached, level by level.
	for l := 1; len(queue) > 0; l++ {
		var next []int
		for _, i := range queue {
			for d := 0; d < 4; d++ {
				n := neighbour(chf, at[i], d)
				if n < 0 || seen[n] {
					continue
				}
				k := idx(at[n])
				if k < 0 || fixed[k] {
					continue
				}
				seen[n] = true
				if len(spans[k]) == 0 {
					level[k] = l
				}
				spans[k] = append(spans[k], n)
				unique = unique && len(spans[k]) < 2
				next = append(next, n)
			}
		}
		queue = next
	}
	// From several seeds, only the ones connected with one another are sure.
	if !region {
		for k := range spans {
			level[k] = 0
		}
		if unique {
			// Is everything connected?
			start, mark := -1, map[int]bool{}
			for _, s := range spans {
				start = s[0]
				break
			}
			q := []int{start}
			mark[start] = true
			for len(q) > 0 {
				i := q[0]
				q = q[1:]
				for d := 0; d < 4; d++ {
					if n := neighbour(chf, at[i], d); n >= 0 && idx(at[n]) >= 0 && !mark[n] {
						mark[n] = true
						q = append(q, n)
					}
				}
			}
			unique = len(mark) == len(spans)
		}
	}
	if unique {
		for k := range spans {
			p.sure[k] = true
		}
	} else if region {
		// A cell gets its height for sure if all of what another that has
		// one for sure can be leads there, as early as anything else. Its
		// height is one of those reached that early.
		for l := 1; ; l++ {
			more := false
			for k, lv := range level {
				if lv != l {
					continue
				}
				more = true
				x, z := k%p.w, k/p.w
				var can []int
				sure := false
				for d := 0; d < 4; d++ {
					nx, nz := x+dirX[d], z+dirY[d]
					if nx < 0 || nz < 0 || nx >= p.w || nz >= p.h {
						continue
					}
					nk := nx + nz*p.w
					if len(spans[nk]) == 0 || level[nk] != l-1 {
						continue
					}
					all := p.sure[nk]
					for _, s := range spans[nk] {
						if n := neighbour(chf, at[s], (d+2)%4); n >= 0 {
							can = append(can, n)
						} else {
							all = false
						}
					}
					sure = sure || all
				}
				if sure {
					p.sure[k] = true
					spans[k] = can
				}
			}
			if !more {
				break
			}
		}
	}
	for k, l := range spans {
		for _, s := range l {
			p.set[k] = append(p.set[k], float64(chf.Spans[s].Y)*ch)
		}
	}
	return p
}

// heights gives the possible heights at a cell, for a position at height y; nil
// if there's nothing to compare with, exact if it can't be another one.
func (p *hpatch) heights(x, z int, y, ch float64, radius int) (l []float64, ok bool) {
	if p.any || p.w <= 0 || p.h <= 0 {
		return nil, false
	}
	x, z = imax(0, imin(x-p.x0, p.w-1)), imax(0, imin(z-p.z0, p.h-1))
	k := x + z*p.w
	if p.sure[k] {
		return p.set[k], true
	}
	l = append(l, p.set[k]...)
	// The nearest ring.
	for r := 1; r <= radius; r++ {
		best := math.Inf(1) // the worst of the best ones
		var ring [][]float64
		sure := false
		for dz := -r; dz <= r; dz++ {
			for dx := -r; dx <= r; dx++ {
				if imax(iabs(dx), iabs(dz)) != r || x+dx < 0 || z+dz < 0 || x+dx >= p.w || z+dz >= p.h {
					continue
				}
				n := x + dx + (z+dz)*p.w
				if len(p.set[n]) == 0 {
					continue
				}
				ring = append(ring, p.set[n])
				if p.sure[n] {
					sure = true
					far := 0.0
					for _, h := range p.set[n] {
						far = math.Max(far, math.Abs(h-y))
					}
					best = math.Min(best, far)
				}
			}
		}
		for _, c := range ring {
			for _, h := range c {
				if math.Abs(h-y) <= best+1e-3*ch {
					l = append(l, h)
				}
			}
		}
		if sure {
			return l, true
		}
	}
	if len(l) > 0 { // perhaps there's none
		l = append(l, math.Trunc(math.Max(0, y/ch+1e-4))*ch, math.Trunc(math.Max(0, y/ch-1e-4))*ch)
		return l, true
	}
	return []float64{math.Trunc(math.Max(0, y/ch+1e-4)) * ch, math.Trunc(math.Max(0, y/ch-1e-4)) * ch}, true
}
