package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arl/go-detour/detour"
)

const nullLink = 0xffffffff

// polyRef composes the reference of a polygon of a tile.
func polyRef(m *detour.NavMesh, t *detour.MeshTile, ip int) detour.PolyRef {
	return detour.PolyRef(m.TileRef(t)) | detour.PolyRef(ip)
}

type linkRec struct {
	ref        detour.PolyRef
	edge, side uint8
	bmin, bmax uint8
}

// linksOf returns the links of a polygon; it fails on broken chains.
func linksOf(tile *detour.MeshTile, p *detour.Poly) []linkRec {
	var out []linkRec
	n := 0
	for k := p.FirstLink; k != nullLink; k = tile.Links[k].Next {
		if int(k) >= len(tile.Links) {
			panic(violated{fmt.Sprintf("link index %d out of %d", k, len(tile.Links))})
		}
		l := &tile.Links[k]
		out = append(out, linkRec{l.Ref, l.Edge, l.Side, l.BMin, l.BMax})
		if n++; n > len(tile.Links) {
			panic(violated{"cycle in the links of a polygon"})
		}
	}
	return out
}

// refName names a polygon by location rather than by reference, so that
// meshes with different loading histories can be compared.
func refName(m *detour.NavMesh, ref detour.PolyRef) string {
	var tile *detour.MeshTile
	var poly *detour.Poly
	if st := m.TileAndPolyByRef(ref, &tile, &poly); detour.StatusFailed(st) {
		return fmt.Sprintf("invalid(0x%x)", uint32(ref))
	}
	var s, it, ip uint32
	m.DecodePolyID(ref, &s, &it, &ip)
	return fmt.Sprintf("%d,%d,%d#%d", tile.Header.X, tile.Header.Y, tile.Header.Layer, ip)
}

// snapshotLinks describes the links of all polygons by location.
func snapshotLinks(m *detour.NavMesh) []string {
	var out []string
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		for ip := range t.Polys {
			for _, l := range linksOf(t, &t.Polys[ip]) {
				out = append(out, fmt.Sprintf("%d,%d,%d#%d -> %s edge %d side %d [%d,%d]", t.Header.X, t.Header.Y, t.Header.Layer, ip, refName(m, l.ref), l.edge, l.side, l.bmin, l.bmax))
			}
		}
	}
	sort.Strings(out)
	return out
}

// snapshotMesh describes everything observable in a mesh, by slot.
func snapshotMesh(m *detour.NavMesh) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%+v %v %v %v %d\n", m.Params, m.Orig, m.TileWidth, m.TileHeight, m.MaxTiles)
	for i := range m.Tiles {
		t := &m.Tiles[i]
		fmt.Fprintf(&b, "tile %d salt %d", i, t.Salt)
		if t.Header == nil {
			fmt.Fprintf(&b, " free %d %d\n", len(t.Polys), t.DataSize)
			continue
		}
		fmt.Fprintf(&b, " %+v flags %d free %d size %d\n", *t.Header, t.Flags, t.LinksFreeList, t.DataSize)
		fmt.Fprintln(&b, t.Polys, t.Verts, t.Links, t.DetailMeshes, t.DetailVerts, t.DetailTris, t.BvTree, t.OffMeshCons)
	}
	return b.String()
}

func diffStrings(a, b []string) string {
	ma, mb := map[string]int{}, map[string]int{}
	for _, s := range a {
		ma[s]++
	}
	for _, s := range b {
		mb[s]++
	}
	var out []string
	for s, n := range ma {
		if mb[s] != n {
			out = append(out, fmt.Sprintf("- %dx %s", n-mb[s], s))
		}
	}
	for s, n := range mb {
		if ma[s] == 0 {
			out = append(out, fmt.Sprintf("+ %dx %s", n, s))
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], "...")
	}
	return strings.Join(out, "\n")
}
