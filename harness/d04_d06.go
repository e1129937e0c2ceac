package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"

	"github.com/arl/go-detour/detour"
)

func init() {
	register(&Prop{ID: "D04", Quick: 6000, Thorough: 120000, Run: runD04,
		Rule:  "a case is a random mesh after a random history of additions and removals (the first cases are the golden meshes of the repository); it's saved and decoded, the contents of each slot and all connections are compared, the loaded mesh is saved again (twice, and compared byte by byte) and queried; non-trivial if at least one tile with links was saved; distinct by the bytes saved",
		MinEv: []string{"meshes_saved", "tiles_compared", "links_compared", "queries_compared", "with_offmesh", "with_free_slots", "with_detail", "without_bvtree", "resaved_identical"}})
	register(&Prop{ID: "D05", Quick: 2000, Thorough: 20000, Run: runD05, Level: "fault_enumeration",
		Rule:  "a case is a small random mesh (some with several tiles, some golden) saved, and then decoded under every fault of a kind: cut at each offset, reader failing at each offset, each reader slicing, each header field altered; and each of its tiles added cut at each length or altered; non-trivial if faults were injected; distinct by the bytes of the mesh and the kind of fault",
		MinEv: []string{"truncations", "reader_errors", "slicings", "set_header_faults", "tile_header_faults", "tile_truncations", "init_truncations", "size_faults"}})
	register(&Prop{ID: "D06", Quick: 6000, Thorough: 60000, Run: runD06, Level: "fault_enumeration",
		Rule:  "a case is a small random mesh saved to a writer which fails at every byte offset, in one of several ways, or to files that can't be written; non-trivial if faults were injected; distinct by the bytes of the mesh and the kind of fault",
		MinEv: []string{"writer_faults", "transient_faults", "short_writes", "healthy_saves", "file_saves", "file_faults"}})
}

func saveMesh(m *detour.NavMesh) []byte {
	var b bytes.Buffer
	if err := m.ToWriter(&b); err != nil {
		panic(violated{fmt.Sprintf("saving to memory failed: %v", err)})
	}
	return b.Bytes()
}

// historyMesh makes a mesh with a random history; ordered tells that the tiles
// were added in the order of their slots.
func historyMesh(r *rand.Rand, w *GWorld) (m *detour.NavMesh, live []*GTile, ordered bool) {
	w.Params.MaxTiles += uint32(r.Intn(3))
	m = w.initMesh()
	refs := map[*GTile]detour.TileRef{}
	add := func(g *GTile) {
		g.create()
		st, ref := m.AddTile(cloneBytes(g.Data), 0)
		if detour.StatusFailed(st) {
			panic(violated{fmt.Sprintf("AddTile failed: 0x%x", uint32(st))})
		}
		refs[g] = ref
	}
	tl := append([]*GTile{}, w.Tiles...)
	if r.Intn(2) == 0 {
		r.Shuffle(len(tl), func(i, j int) { tl[i], tl[j] = tl[j], tl[i] })
	}
	for _, g := range tl {
		add(g)
	}
	ordered = true
	if n := r.Intn(3); n > 0 {
		for i := 0; i < 6*(n-1)+r.Intn(4); i++ {
			g := w.Tiles[r.Intn(len(w.Tiles))]
			if ref, ok := refs[g]; ok {
				if _, st := m.RemoveTile(ref); detour.StatusFailed(st) {
					panic(violated{fmt.Sprintf("RemoveTile failed: 0x%x", uint32(st))})
				}
				delete(refs, g)
			} else {
				add(g)
			}
			ordered = false
		}
	}
	for _, g := range w.Tiles {
		if _, ok := refs[g]; ok {
			live = append(live, g)
		}
	}
	return
}

func poolsFull(m *detour.NavMesh) bool {
	for i := range m.Tiles {
		if m.Tiles[i].Header != nil && m.Tiles[i].LinksFreeList == nullLink {
			return true
		}
	}
	return false
}

// compareMeshes compares two meshes slot by slot, apart from the links.
func compareMeshes(t *T, a, b *detour.NavMesh) {
	if a.Params != b.Params || a.MaxTiles != b.MaxTiles || a.TileWidth != b.TileWidth || a.TileHeight != b.TileHeight || !reflect.DeepEqual([]float32(a.Orig[:3]), []float32(b.Orig[:3])) {
		t.Fatalf("parameters %+v became %+v", a.Params, b.Params)
	}
	for i := range a.Tiles {
		x, y := &a.Tiles[i], &b.Tiles[i]
		if (x.Header == nil) != (y.Header == nil) {
			t.Fatalf("slot %d: tile present %v, and %v after loading", i, x.Header != nil, y.Header != nil)
		}
		if x.Header == nil {
			t.Count("free_slots", 1)
			continue
		}
		t.Count("tiles_compared", 1)
		if a.TileRef(x) != b.TileRef(y) || x.Salt != y.Salt {
			t.Fatalf("slot %d: reference 0x%x became 0x%x", i, a.TileRef(x), b.TileRef(y))
		}
		if *x.Header != *y.Header {
			t.Fatalf("slot %d: header %+v became %+v", i, *x.Header, *y.Header)
		}
		if x.DataSize != y.DataSize {
			t.Fatalf("slot %d: data size %d became %d", i, x.DataSize, y.DataSize)
		}
		px := append([]detour.Poly{}, x.Polys...)
		py := append([]detour.Poly{}, y.Polys...)
		for k := range px {
			px[k].FirstLink = 0
		}
		for k := range py {
			py[k].FirstLink = 0
		}
		for _, c := range []struct {
			name string
			u, v interface{}
			n    int
		}{{"vertices", x.Verts, y.Verts, len(x.Verts)}, {"polygons", px, py, len(px)}, {"detail meshes", x.DetailMeshes, y.DetailMeshes, len(x.DetailMeshes)}, {"detail vertices", x.DetailVerts, y.DetailVerts, len(x.DetailVerts)},
			{"detail triangles", x.DetailTris, y.DetailTris, len(x.DetailTris)}, {"bounding volumes", x.BvTree, y.BvTree, len(x.BvTree)}, {"off-mesh connections", x.OffMeshCons, y.OffMeshCons, len(x.OffMeshCons)}} {
			if c.n == 0 && reflect.ValueOf(c.v).Len() == 0 {
				continue
			}
			if !reflect.DeepEqual(c.u, c.v) {
				t.Fatalf("slot %d: %s changed: %v became %v", i, c.name, c.u, c.v)
			}
		}
	}
	if s := diffStrings(snapshotLinks(a), snapshotLinks(b)); s != "" {
		t.Fatalf("connections changed by saving and loading:\n%s", s)
	}
}

func goldenFiles() []string {
	var out []string
	for _, g := range []string{"testdata/*.bin", "sample/*/testdata/*.bin", "testdata/sample/*/*.bin", "testdata/sample/*.bin"} {
		m, _ := filepath.Glob(filepath.Join(repoDir(), g))
		out = append(out, m...)
	}
	return out
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func runD04(t *T) {
	r := t.R
	var m *detour.NavMesh
	var w *GWorld
	ordered := true
	gf := goldenFiles()
	if t.Idx < len(gf) {
		buf, err := ioutil.ReadFile(gf[t.Idx])
		if err != nil {
			return
		}
		m, err = detour.Decode(bytes.NewReader(buf))
		if err != nil {
			return // golden file of another kind
		}
		t.Desc("golden mesh %s", filepath.Base(gf[t.Idx]))
	} else {
		o := randOpt(r)
		o.N = 1 + r.Intn(4)
		if r.Intn(2) == 0 {
			o.Offs = 1 + r.Intn(5)
		}
		w = makeWorld(r, o)
		switch r.Intn(8) {
		case 0: // a single tile mesh
			g := w.Tiles[0]
			g.create()
			m = &detour.NavMesh{}
			if st := m.InitForSingleTile(cloneBytes(g.Data), 0); detour.StatusFailed(st) {
				t.Fatalf("InitForSingleTile failed: 0x%x", uint32(st))
			}
			t.Count("single_tile", 1)
		default:
			m, _, ordered = historyMesh(r, w)
		}
		t.Desc("%s; in slot order %v", w.desc(), ordered)
	}
	if poolsFull(m) {
		t.Count("pool_exhausted", 1)
		return
	}
	before := snapshotMesh(m)
	b1 := saveMesh(m)
	t.Count("meshes_saved", 1)
	t.Count("bytes_saved", len(b1))
	if len(b1) != int(m.Size()) {
		t.Fatalf("%d bytes written, %d announced", len(b1), m.Size())
	}
	if snapshotMesh(m) != before {
		t.Fatalf("saving modified the mesh")
	}
	d1, err := detour.Decode(bytes.NewReader(b1))
	if err != nil || d1 == nil {
		t.Fatalf("decoding a saved mesh failed: %v", err)
	}
	compareMeshes(t, m, d1)
	free, nl := false, 0
	for i := range m.Tiles {
		x := &m.Tiles[i]
		if x.Header == nil {
			free = true
			continue
		}
		if len(x.OffMeshCons) > 0 {
			t.Count("with_offmesh", 1)
		}
		if len(x.DetailVerts) > 0 {
			t.Count("with_detail", 1)
		}
		if len(x.BvTree) == 0 {
			t.Count("without_bvtree", 1)
		}
		for k := range x.Polys {
			nl += len(linksOf(x, &x.Polys[k]))
		}
	}
	if free {
		t.Count("with_free_slots", 1)
	}
	t.Count("links_compared", nl)
	b2 := saveMesh(d1)
	if len(b2) != int(d1.Size()) || len(b2) != len(b1) {
		t.Fatalf("the loaded mesh takes %d bytes, %d announced, instead of %d", len(b2), d1.Size(), len(b1))
	}
	d2, err := detour.Decode(bytes.NewReader(b2))
	if err != nil {
		t.Fatalf("decoding failed the second time: %v", err)
	}
	if b3 := saveMesh(d2); !bytes.Equal(b2, b3) {
		t.Fatalf("saving what was loaded again gives other bytes")
	}
	t.Count("resaved_identical", 1)
	if snapshotMesh(d1) != snapshotMesh(d2) {
		t.Fatalf("the mesh loaded the second time differs")
	}
	if nl > 0 {
		t.Nontrivial()
	}
	t.Mix(len(b1), string(b1))
	// same answers, whatever the order of links
	p1, p2 := newMeshPolys(m), newMeshPolys(d1)
	if len(p1.L) == 0 {
		return
	}
	_, q1 := detour.NewNavMeshQuery(m, 4096)
	_, q2 := detour.NewNavMeshQuery(d1, 4096)
	f := detour.NewStandardQueryFilter()
	for k := 0; k < 8; k++ {
		i := r.Intn(len(p1.L))
		if p1.L[i].Ref != p2.L[i].Ref {
			t.Fatalf("polygon reference 0x%x became 0x%x", uint32(p1.L[i].Ref), uint32(p2.L[i].Ref))
		}
		c := p1.L[i].center()
		j := r.Intn(len(p1.L))
		c2 := p1.L[j].center()
		// links may come in another order, which decides between equally good paths
		out1, out2 := make([]detour.PolyRef, 2048), make([]detour.PolyRef, 2048)
		n1, s1 := q1.FindPath(p1.L[i].Ref, p1.L[j].Ref, c.f32(), c2.f32(), f, out1)
		n2, s2 := q2.FindPath(p1.L[i].Ref, p1.L[j].Ref, c.f32(), c2.f32(), f, out2)
		if s1 != s2 || n1 == 0 && n2 > 0 {
			t.Fatalf("path from 0x%x to 0x%x: status 0x%x, 0x%x after loading", uint32(p1.L[i].Ref), uint32(p1.L[j].Ref), uint32(s1), uint32(s2))
		}
		var o1, o2 bool
		r1, r2 := make([]float32, 3), make([]float32, 3)
		z1 := q1.ClosestPointOnPoly(p1.L[i].Ref, c2.f32(), r1, &o1)
		z2 := q2.ClosestPointOnPoly(p1.L[i].Ref, c2.f32(), r2, &o2)
		if z1 != z2 || o1 != o2 || !reflect.DeepEqual(r1, r2) {
			t.Fatalf("closest point on 0x%x: %v, %v after loading", uint32(p1.L[i].Ref), r1, r2)
		}
		st1, ref1, n1p := q1.FindNearestPoly(c.f32(), []float32{1, 1, 1}, f)
		st2, ref2, n2p := q2.FindNearestPoly(c.f32(), []float32{1, 1, 1}, f)
		if st1 != st2 || ref1 != ref2 || !reflect.DeepEqual(n1p, n2p) {
			t.Fatalf("nearest polygon 0x%x at %v, 0x%x at %v after loading", uint32(ref1), n1p, uint32(ref2), n2p)
		}
		t.Count("queries_compared", 3)
	}
}

// chunkReader slices the data in a given way and can fail at an offset.
type chunkReader struct {
	data    []byte
	r       *rand.Rand
	mode    int
	failAt  int // -1: never
	err     error
	withEOF bool // return io.EOF along with the last data
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch c.mode {
	case 1:
		n = 1
	case 2:
		n = (n + 1) / 2
	case 3:
		n = 1 + c.r.Intn(n)
	case 4:
		if c.r.Intn(4) == 0 {
			return 0, nil // allowed, if discouraged
		}
		n = 1 + c.r.Intn(n)
	case 5:
		n = 7
	case 6:
		n = 101
	}
	if n > len(p) {
		n = len(p)
	}
	if c.failAt >= 0 {
		if c.failAt == 0 {
			return 0, c.err
		}
		if n > c.failAt {
			n = c.failAt
		}
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if c.failAt > 0 {
		c.failAt -= n
		if c.failAt == 0 && c.withEOF {
			return n, c.err
		}
	}
	if n == 0 || len(c.data) == 0 && c.withEOF {
		return n, io.EOF
	}
	return n, nil
}

// smallMesh makes a mesh of few bytes.
func smallMesh(r *rand.Rand) *detour.NavMesh {
	o := randOpt(r)
	o.TX, o.TY, o.N = 1+r.Intn(2), 1+r.Intn(2), 1+r.Intn(2)
	o.Layers = 0
	if o.Offs > 2 {
		o.Offs = 2
	}
	w := makeWorld(r, o)
	w.Params.MaxTiles += uint32(r.Intn(2))
	return w.build()
}

var errInjected = errors.New("injected fault")

func runD05(t *T) {
	r := t.R
	m := smallMesh(r)
	buf := saveMesh(m)
	ref := snapshotMesh(func() *detour.NavMesh {
		d, err := detour.Decode(bytes.NewReader(buf))
		if err != nil {
			t.Fatalf("decoding a valid mesh failed: %v", err)
		}
		return d
	}())
	mustFail := func(rd io.Reader, f string, a ...interface{}) {
		d, err := detour.Decode(rd)
		if err == nil || d != nil {
			t.Fatalf("%s: Decode returned mesh %v, error %v", fmt.Sprintf(f, a...), d != nil, err)
		}
	}
	le := binary.LittleEndian
	const setHdr = 40
	// offsets of the tiles in the file
	type tl struct{ hdr, data, size int }
	var tiles []tl
	for off := setHdr; off < len(buf); {
		sz := int(le.Uint32(buf[off+4:]))
		tiles = append(tiles, tl{off, off + 8, sz})
		off += 8 + sz
	}
	kind := t.Idx % 7
	t.Mix(kind, string(buf))
	t.Nontrivial()
	t.Desc("kind %d on a mesh of %d bytes, %d tiles", kind, len(buf), len(tiles))
	switch kind {
	case 0:
		mode := r.Intn(7)
		for k := 0; k < len(buf); k++ {
			mustFail(&chunkReader{data: buf[:k], r: r, mode: mode, failAt: -1, withEOF: k%2 == 0}, "cut at byte %d of %d (reader mode %d)", k, len(buf), mode)
			t.Count("truncations", 1)
		}
	case 1:
		for k := 0; k < len(buf); k++ {
			mode := k % 7
			d, err := detour.Decode(&chunkReader{data: buf, r: r, mode: mode, failAt: k, err: errInjected, withEOF: r.Intn(2) == 0})
			if d != nil || err == nil {
				t.Fatalf("reader failing at byte %d of %d (mode %d): mesh %v, error %v", k, len(buf), mode, d != nil, err)
			}
			t.Count("reader_errors", 1)
		}
	case 2:
		for mode := 0; mode <= 6; mode++ {
			for _, we := range []bool{false, true} {
				for rep := 0; rep < 3; rep++ {
					trail := cloneBytes(buf)
					if rep == 2 {
						trail = append(trail, make([]byte, r.Intn(200))...)
					}
					d, err := detour.Decode(&chunkReader{data: trail, r: r, mode: mode, failAt: -1, withEOF: we})
					if err != nil || d == nil {
						t.Fatalf("a valid mesh of %d bytes (and %d more) isn't decoded from a reader slicing it (mode %d, data along with EOF %v): %v", len(buf), len(trail)-len(buf), mode, we, err)
					}
					if snapshotMesh(d) != ref {
						t.Fatalf("the mesh decoded from a reader slicing it (mode %d) differs", mode)
					}
					t.Count("slicings", 1)
				}
			}
		}
	case 3:
		// magic and version of the set
		for off := 0; off < 8; off++ {
			for bit := 0; bit < 8; bit++ {
				b := cloneBytes(buf)
				b[off] ^= 1 << uint(bit)
				mustFail(bytes.NewReader(b), "bit %d of byte %d of the header altered", bit, off)
				t.Count("set_header_faults", 1)
			}
		}
		// more tiles announced than there are
		for _, n := range []int{1, 2, 1000, 1 << 30} {
			b := cloneBytes(buf)
			le.PutUint32(b[8:], le.Uint32(b[8:])+uint32(n))
			mustFail(bytes.NewReader(b), "%d tiles too many announced", n)
			t.Count("set_header_faults", 1)
		}
	case 4:
		for i, tt := range tiles {
			for off := 0; off < 8; off++ {
				for bit := 0; bit < 8; bit++ {
					b := cloneBytes(buf)
					b[tt.data+off] ^= 1 << uint(bit)
					mustFail(bytes.NewReader(b), "tile %d: bit %d of byte %d of its header altered", i, bit, off)
					t.Count("tile_header_faults", 1)
				}
			}
		}
	case 5:
		for i, tt := range tiles {
			for _, sz := range []int64{-1, -1 << 31, 1<<31 - 1, int64(tt.size) * 1000, 1, 4, 99, 100, 101, int64(tt.size) - 1, int64(tt.size) - 4, int64(tt.size) / 2, int64(r.Intn(tt.size-1) + 1)} {
				b := cloneBytes(buf)
				le.PutUint32(b[tt.hdr+4:], uint32(int32(sz)))
				mustFail(bytes.NewReader(b), "tile %d of %d bytes: size altered to %d", i, tt.size, sz)
				t.Count("size_faults", 1)
			}
			for k := 0; k < 10; k++ { // any outcome but a crash
				b := cloneBytes(buf)
				le.PutUint32(b[tt.hdr+4:], uint32(tt.size+1+r.Intn(300)))
				detour.Decode(bytes.NewReader(b))
				t.Count("size_faults", 1)
			}
		}
	case 6:
		// tiles given directly
		mm := m
		if r.Intn(2) == 0 {
			var e detour.NavMesh
			p := m.Params
			p.MaxTiles += 2
			e.Init(&p)
			mm = &e
		} else {
			// a free location: the first tile is taken out again
			if _, st := m.RemoveTile(m.TileRef(&m.Tiles[0])); detour.StatusFailed(st) {
				t.Fatalf("RemoveTile failed")
			}
		}
		snap := snapshotMesh(mm)
		tt := tiles[0]
		data := buf[tt.data : tt.data+tt.size]
		for k := 0; k <= len(data); k++ {
			st, rf := mm.AddTile(cloneBytes(data[:k]), 0)
			if k == len(data) {
				if detour.StatusFailed(st) {
					t.Fatalf("after failed additions, a valid tile is refused: 0x%x", uint32(st))
				}
				if _, st := mm.RemoveTile(rf); detour.StatusFailed(st) {
					t.Fatalf("RemoveTile failed: 0x%x", uint32(st))
				}
				break
			}
			if !detour.StatusFailed(st) || rf != 0 {
				t.Fatalf("tile cut at %d of %d bytes: status 0x%x, reference 0x%x", k, len(data), uint32(st), uint32(rf))
			}
			t.Count("tile_truncations", 1)
			if k%37 == 0 || k == len(data)-1 {
				if snapshotMesh(mm) != snap {
					t.Fatalf("the addition of a tile cut at %d of %d bytes changed the mesh", k, len(data))
				}
			}
			var im detour.NavMesh
			if st := im.InitForSingleTile(cloneBytes(data[:k]), 0); !detour.StatusFailed(st) {
				t.Fatalf("InitForSingleTile with a tile cut at %d of %d bytes: 0x%x", k, len(data), uint32(st))
			}
			t.Count("init_truncations", 1)
		}
		snap = snapshotMesh(mm)
		for off := 0; off < 8; off++ {
			for bit := 0; bit < 8; bit++ {
				b := cloneBytes(data)
				b[off] ^= 1 << uint(bit)
				want := uint32(detour.WrongMagic)
				if off >= 4 {
					want = detour.WrongVersion
				}
				st, rf := mm.AddTile(b, 0)
				if !detour.StatusFailed(st) || rf != 0 || !detour.StatusDetail(st, want) {
					t.Fatalf("tile with bit %d of byte %d altered: status 0x%x, reference 0x%x", bit, off, uint32(st), uint32(rf))
				}
				var im detour.NavMesh
				if st := im.InitForSingleTile(cloneBytes(b), 0); !detour.StatusFailed(st) || !detour.StatusDetail(st, want) {
					t.Fatalf("InitForSingleTile with bit %d of byte %d altered: status 0x%x", bit, off, uint32(st))
				}
				t.Count("tile_header_faults", 1)
			}
		}
		if snapshotMesh(mm) != snap {
			t.Fatalf("the addition of tiles with altered headers changed the mesh")
		}
	}
}

// faultyWriter accepts bytes up to an offset, then fails.
type faultyWriter struct {
	got    bytes.Buffer
	failAt int
	mode   int // 0: error with nothing accepted, 1: partial write and error, 2: partial write and io.ErrShortWrite, 3: fails once, partially, 4: fails once, 5: accepts all but reports an error once
	failed int
	total  int
}

func (f *faultyWriter) Write(p []byte) (int, error) {
	f.total += len(p)
	once := f.mode >= 3
	if once && f.failed > 0 {
		f.got.Write(p)
		return len(p), nil
	}
	if f.failed == 0 && f.got.Len()+len(p) <= f.failAt {
		f.got.Write(p)
		return len(p), nil
	}
	n := f.failAt - f.got.Len()
	if n < 0 || f.mode == 0 || f.mode == 4 || f.failed > 0 {
		n = 0
	}
	f.failed++
	if f.mode == 5 {
		n = len(p)
	}
	f.got.Write(p[:n])
	if f.mode == 2 {
		return n, io.ErrShortWrite
	}
	return n, errInjected
}

func runD06(t *T) {
	r := t.R
	m := smallMesh(r)
	if r.Intn(3) == 0 {
		m.RemoveTile(m.TileRef(&m.Tiles[0]))
	}
	before := snapshotMesh(m)
	buf := saveMesh(m)
	if len(buf) != int(m.Size()) {
		t.Fatalf("%d bytes written, %d announced", len(buf), m.Size())
	}
	mode := t.Idx % 7
	t.Mix(mode, string(buf))
	t.Nontrivial()
	t.Desc("mode %d on a mesh of %d bytes", mode, len(buf))
	if mode < 6 {
		for k := 0; k <= len(buf)+2; k++ {
			fw := &faultyWriter{failAt: k, mode: mode}
			err := m.ToWriter(fw)
			if fw.total > len(buf) {
				t.Fatalf("writer failing at byte %d of %d (mode %d): %d bytes handed over", k, len(buf), mode, fw.total)
			}
			if fw.failed > 0 {
				if err == nil {
					t.Fatalf("writer failing at byte %d of %d (mode %d): saving succeeded with %d bytes written", k, len(buf), mode, fw.got.Len())
				}
				t.Count("writer_faults", 1)
				if mode == 2 {
					t.Count("short_writes", 1)
				}
				if mode >= 3 {
					t.Count("transient_faults", 1)
				}
			} else {
				if err != nil {
					t.Fatalf("saving failed on a healthy writer: %v", err)
				}
				if !bytes.Equal(fw.got.Bytes(), buf) {
					t.Fatalf("saving twice gave other bytes")
				}
				t.Count("healthy_saves", 1)
			}
			if n := fw.got.Len(); mode < 3 && !bytes.Equal(fw.got.Bytes(), buf[:n]) {
				t.Fatalf("writer failing at byte %d (mode %d): what was written isn't the beginning of the mesh", k, mode)
			}
		}
	} else {
		dir, err := ioutil.TempDir("", "d06-")
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "m.bin")
		if r.Intn(2) == 0 { // over a longer file
			ioutil.WriteFile(fn, make([]byte, len(buf)+1+r.Intn(500)), 0644)
		}
		if err := m.SaveToFile(fn); err != nil {
			t.Fatalf("saving to a file failed: %v", err)
		}
		got, err := ioutil.ReadFile(fn)
		if err != nil || !bytes.Equal(got, buf) {
			t.Fatalf("the file holds %d bytes which aren't the %d of the mesh (%v)", len(got), len(buf), err)
		}
		t.Count("file_saves", 1)
		bad := []string{dir, filepath.Join(dir, "none", "m.bin"), filepath.Join(fn, "m.bin"), ""}
		if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
			bad = append(bad, "/dev/full")
		}
		for _, b := range bad {
			if err := m.SaveToFile(b); err == nil {
				t.Fatalf("saving to %q succeeded", b)
			}
			t.Count("file_faults", 1)
		}
		// files are closed: not left to the garbage collector
		old := debug.SetGCPercent(-1)
		n0 := countFDs()
		for k := 0; k < 20; k++ {
			m.SaveToFile(fn)
			m.SaveToFile("/dev/full")
		}
		n1 := countFDs()
		debug.SetGCPercent(old)
		if n1 > n0+10 {
			t.Fatalf("after 40 saves %d more files are open", n1-n0)
		}
		t.Count("open_files_checked", 1)
	}
	if snapshotMesh(m) != before {
		t.Fatalf("saving modified the mesh")
	}
}

func countFDs() int {
	d, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}
