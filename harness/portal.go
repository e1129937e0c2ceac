package main

import "math"

// portal computes the segment through which one goes from polygon i to
// polygon j, from the links and vertices of the mesh; ok is false if they
// aren't linked. Both ends are the same for off-mesh connections.
func (mp *MeshPolys) portal(i, j int) (l, r V3, ok bool) {
	a, b := mp.L[i], mp.L[j]
	for _, k := range mp.links(i) {
		if k.ref != b.Ref {
			continue
		}
		if !a.ground() {
			return a.V[k.edge], a.V[k.edge], true
		}
		if !b.ground() {
			for _, k2 := range mp.links(j) {
				if k2.ref == a.Ref {
					return b.V[k2.edge], b.V[k2.edge], true
				}
			}
			return
		}
		v0, v1 := a.V[k.edge], a.V[(int(k.edge)+1)%len(a.V)]
		if k.side != 0xff && (k.bmin != 0 || k.bmax != 255) {
			return v0.lerp(v1, float64(k.bmin)/255), v0.lerp(v1, float64(k.bmax)/255), true
		}
		return v0, v1, true
	}
	return
}

// distSeg2D is the distance from p to the segment a, b in the ground plane,
// and the parameter of the closest point.
func distSeg2D(p, a, b V3) (float64, float64) {
	d := V3{b[0] - a[0], 0, b[2] - a[2]}
	l := d.dot(d)
	t := 0.0
	if l > 0 {
		t = (d[0]*(p[0]-a[0]) + d[2]*(p[2]-a[2])) / l
		t = math.Max(0, math.Min(1, t))
	}
	return p.dist2D(a.lerp(b, t)), t
}

// inPoly2D tells by how much p is inside of the convex polygon v (negative
// outside; then it's not the distance, but a bound of its sign).
func inPoly2D(p V3, v []V3) float64 {
	d := math.Inf(1)
	for e := range v {
		a, b := v[e], v[(e+1)%len(v)]
		l := a.dist2D(b)
		if l == 0 {
			continue
		}
		if x := -cross2(a, b, p) / l; x < d {
			d = x
		}
	}
	return d
}
