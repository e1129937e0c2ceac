package main

// R12: the spatial index of the input triangles. R13: reading geometry files.

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/arl/go-detour/recast"
)

// soup is a triangle soup, with the OBJ text which describes it.
type soup struct {
	verts [][3]float32
	tris  [][3]int32
}

func (s *soup) add(a, b, c [3]float32) {
	n := int32(len(s.verts))
	s.verts = append(s.verts, a, b, c)
	s.tris = append(s.tris, [3]int32{n, n + 1, n + 2})
}

func (s *soup) obj() string {
	var b strings.Builder
	for _, v := range s.verts {
		fmt.Fprintf(&b, "v %v %v %v\n", v[0], v[1], v[2])
	}
	for _, t := range s.tris {
		fmt.Fprintf(&b, "f %d %d %d\n", t[0]+1, t[1]+1, t[2]+1)
	}
	return b.String()
}

// randSoup makes n triangles, spread in one of several ways.
func randSoup(r *rand.Rand, n int) *soup {
	s := &soup{}
	kind := r.Intn(5)
	w, h := float32(1+r.Intn(100)), float32(1+r.Intn(100))
	size := float32(math.Pow(10, r.Float64()*3-2))
	grid := r.Intn(3) == 0 // coordinates that coincide
	c := func(x float32) float32 {
		if grid {
			return float32(math.Round(float64(x)))
		}
		return x
	}
	off := [2]float32{float32(r.NormFloat64() * 50), float32(r.NormFloat64() * 50)}
	for i := 0; i < n; i++ {
		var x, z float32
		switch kind {
		case 0:
			x, z = r.Float32()*w, r.Float32()*h
		case 1: // a line
			x, z = r.Float32()*w, .5
		case 2: // clusters
			x, z = float32(r.Intn(3))*w+r.Float32(), float32(r.Intn(3))*h+r.Float32()
		case 3: // all in the same place
			x, z = 1, 1
		case 4: // a heap
			x, z = float32(r.NormFloat64())*w, float32(r.NormFloat64())*h
		}
		var v [3][3]float32
		for k := range v {
			v[k] = [3]float32{off[0] + c(x+size*(r.Float32()-.5)), r.Float32() * 10, off[1] + c(z+size*(r.Float32()-.5))}
		}
		s.add(v[0], v[1], v[2])
	}
	return s
}

func triBounds(verts []float32, t []int32) (bmin, bmax [2]float32) {
	for k := 0; k < 3; k++ {
		x, z := verts[t[k]*3], verts[t[k]*3+2]
		if k == 0 {
			bmin, bmax = [2]float32{x, z}, [2]float32{x, z}
		}
		for a, v := range []float32{x, z} {
			if v < bmin[a] {
				bmin[a] = v
			}
			if v > bmax[a] {
				bmax[a] = v
			}
		}
	}
	return
}

func init() {
	register(&Prop{ID: "R12", Quick: 20000, Thorough: 800000,
		Rule:  "triangle soups of 0 to some thousands of triangles (rarely some 65000) (spread evenly, in clusters, on lines, all alike, with coincident coordinates), loaded into an input geometry which may have held another one before; each chunk is looked at, and rectangles of any size and position, among them ones aligned with the bounds of chunks, are searched with outputs of any size. A case is non-trivial when it has more than one chunk.",
		MinEv: []string{"chunks", "rectangles", "results cut to the output", "touching rectangles", "geometries refused", "over 64999 triangles"},
		Run:   runR12})
	register(&Prop{ID: "R13", Quick: 60000, Thorough: 6000000,
		Rule:  "geometry files made of vertex, face, comment, normal, texture and unknown lines in any order that defines vertices before they are used, with faces of 1 to some thousands of vertices, or one of several kinds of damage, read by readers that give any number of bytes at a time, give the last ones along with the end of file, or fail. A case is non-trivial when it has a face or is damaged.",
		MinEv: []string{"files read", "faces", "normals", "normals of tiny triangles", "large faces", "over 65536 vertices", "damaged files refused", "reader failures reported"},
		Run:   runR13})
}

func runR12(t *T) {
	r := t.R
	var n int
	switch r.Intn(8) {
	case 0:
		n = []int{1, 2, 255, 256, 257, 258, 511, 512, 513, 514, 767, 768, 769, 1024, 1025, 2048, 2049}[r.Intn(17)]
	case 1:
		n = 0
	case 2:
		n = 1 + r.Intn(300)
	case 3:
		n = 1 + r.Intn(6000)
	default:
		n = 1 + r.Intn(1500)
	}
	if t.Idx%5000 == 3700 {
		n = 65000 + r.Intn(4000)
		t.Count("over 64999 triangles", 1)
	}
	s := randSoup(r, n)
	if n == 0 {
		s.verts = [][3]float32{{1, 2, 3}}
	}
	var ig recast.InputGeom
	if r.Intn(3) == 0 {
		ig.LoadOBJMesh(strings.NewReader(randSoup(r, r.Intn(400)).obj()))
	}
	err := ig.LoadOBJMesh(strings.NewReader(s.obj()))
	t.Mix(n, s.verts[0], s.verts[len(s.verts)-1])
	if n == 0 {
		if err == nil {
			t.Fatalf("a geometry without triangles was accepted")
		}
		t.Count("geometries refused", 1)
		return
	}
	if err != nil {
		t.Fatalf("%d triangles were refused: %v", n, err)
	}
	cm := ig.ChunkyMesh()
	verts := ig.Mesh().Verts()
	if int(cm.Ntris) != n || int(cm.Nnodes) > len(cm.Nodes) {
		t.Fatalf("%d triangles announced instead of %d, %d nodes of %d", cm.Ntris, n, cm.Nnodes, len(cm.Nodes))
	}
	if cm.MaxTrisPerChunk > 256 {
		t.Fatalf("chunks of %d triangles instead of 256 at most", cm.MaxTrisPerChunk)
	}

	// Each triangle is in one chunk, whose bounds enclose it.
	left := map[[3]int32]int{}
	for _, tr := range s.tris {
		left[tr]++
	}
	var leaves []int32
	for i := int32(0); i < cm.Nnodes; i++ {
		nd := cm.Nodes[i]
		if nd.I < 0 {
			continue
		}
		leaves = append(leaves, i)
		if nd.N < 1 || nd.N > cm.MaxTrisPerChunk {
			t.Fatalf("chunk %d has %d triangles, more than the %d announced or none", i, nd.N, cm.MaxTrisPerChunk)
		}
		for j := int32(0); j < nd.N; j++ {
			tr := cm.Tris[(nd.I+j)*3 : (nd.I+j)*3+3]
			k := [3]int32{tr[0], tr[1], tr[2]}
			if left[k] == 0 {
				t.Fatalf("chunk %d has the triangle %v, which isn't in the input or was in another chunk", i, k)
			}
			left[k]--
			bmin, bmax := triBounds(verts, tr)
			for a := 0; a < 2; a++ {
				if bmin[a] < nd.BMin[a] || bmax[a] > nd.BMax[a] {
					t.Fatalf("triangle %v (%v %v) isn't enclosed by the bounds %v %v of its chunk", k, bmin, bmax, nd.BMin, nd.BMax)
				}
			}
		}
		t.Count("chunks", 1)
	}
	for k, c := range left {
		if c != 0 {
			t.Fatalf("triangle %v isn't in any chunk", k)
		}
	}
	if len(leaves) > 1 {
		t.Nontrivial()
	}

	// Rectangles.
	for q := 0; q < 30; q++ {
		var bmin, bmax [2]float32
		nd := cm.Nodes[r.Intn(int(cm.Nnodes))]
		switch r.Intn(5) {
		case 0: // touches a node
			a := r.Intn(2)
			bmin, bmax = nd.BMin, nd.BMax
			w := r.Float32() * 10
			if r.Intn(2) == 0 {
				bmin[a], bmax[a] = nd.BMax[a], nd.BMax[a]+w
			} else {
				bmin[a], bmax[a] = nd.BMin[a]-w, nd.BMin[a]
			}
			t.Count("touching rectangles", 1)
		case 1: // a point
			bmin = [2]float32{nd.BMin[0] + r.Float32()*(nd.BMax[0]-nd.BMin[0]), nd.BMin[1] + r.Float32()*(nd.BMax[1]-nd.BMin[1])}
			bmax = bmin
		case 2: // everything
			bmin, bmax = cm.Nodes[0].BMin, cm.Nodes[0].BMax
		default:
			root := cm.Nodes[0]
			for a := 0; a < 2; a++ {
				w := root.BMax[a] - root.BMin[a]
				x := root.BMin[a] + w*(r.Float32()*1.4-.2)
				y := x + w*float32(math.Pow(r.Float64(), 3))
				bmin[a], bmax[a] = x, y
			}
		}
		var want []int32
		for _, i := range leaves {
			l := cm.Nodes[i]
			if bmin[0] <= l.BMax[0] && bmax[0] >= l.BMin[0] && bmin[1] <= l.BMax[1] && bmax[1] >= l.BMin[1] {
				want = append(want, i)
			}
		}
		size := len(cm.Nodes)
		if r.Intn(3) == 0 {
			size = r.Intn(len(want) + 2)
		}
		ids := make([]int32, size+3)
		for i := range ids {
			ids[i] = -7
		}
		got := cm.ChunksOverlappingRect(bmin, bmax, ids[:size:size])
		exp := len(want)
		if exp > size {
			exp = size
			t.Count("results cut to the output", 1)
		}
		if got != exp {
			t.Fatalf("%d chunks found in %v %v instead of %d (output of %d)", got, bmin, bmax, exp, size)
		}
		in := map[int32]bool{}
		for _, w := range want {
			in[w] = true
		}
		for _, i := range ids[:got] {
			if !in[i] {
				t.Fatalf("chunk %d was found in %v %v but it doesn't overlap it, or twice", i, bmin, bmax)
			}
			delete(in, i)
		}
		for _, i := range ids[got:] {
			if i != -7 {
				t.Fatalf("the output was written past the %d results", got)
			}
		}
		t.Count("rectangles", 1)
	}
	t.Desc("%d triangles in %d chunks", n, len(leaves))
}

// objReader gives its data in pieces, and may fail.
type objReader struct {
	data  []byte
	r     *rand.Rand
	max   int
	fail  int // offset of a failure, -1 for none
	off   int
	eof   bool // end of file along with the last data
	fails error
}

func (c *objReader) Read(p []byte) (int, error) {
	end := len(c.data)
	if c.fail >= 0 {
		end = c.fail
	}
	if c.off >= end {
		if c.fail >= 0 {
			return 0, c.fails
		}
		return 0, io.EOF
	}
	n := 1 + c.r.Intn(c.max)
	if n > len(p) {
		n = len(p)
	}
	if n > end-c.off {
		n = end - c.off
	}
	copy(p, c.data[c.off:c.off+n])
	c.off += n
	if c.off == end && c.eof {
		if c.fail >= 0 {
			return n, c.fails
		}
		return n, io.EOF
	}
	return n, nil
}

func runR13(t *T) {
	r := t.R
	var (
		lines []string
		verts [][3]float64
		tris  [][3]int32
		faces int
	)
	tiny := r.Intn(10) == 0
	num := func() (string, float64) {
		var f float64
		switch r.Intn(6) {
		case 0:
			f = float64(r.Intn(200) - 100)
		case 1:
			f = r.NormFloat64() * math.Pow(10, float64(r.Intn(6)-3))
		default:
			f = math.Round(r.NormFloat64()*1e5) / 1e3
		}
		if tiny {
			f *= 1e-4
		}
		s := fmt.Sprint(f)
		switch r.Intn(8) {
		case 0:
			s = fmt.Sprintf("%e", f)
		case 1:
			s = fmt.Sprintf("%.6f", f)
		}
		fmt.Sscan(s, &f)
		return s, f
	}
	nl := 1 + r.Intn(60)
	if r.Intn(10) == 0 {
		nl = 1 + r.Intn(1500)
	}
	order := r.Intn(2) // vertices first, or faces in between
	if t.Idx%3000 == 1700 {
		t.Count("over 65536 vertices", 1)
		for i := 66000 + r.Intn(2000); i > 0; i-- {
			v := [3]float64{float64(i), float64(r.Intn(100)), float64(r.Intn(1000))}
			lines = append(lines, fmt.Sprintf("v %d %d %d", int(v[0]), int(v[1]), int(v[2])))
			verts = append(verts, v)
		}
	}
	for i := 0; i < nl; i++ {
		k := r.Intn(10)
		if order == 0 {
			if i < nl/2 && k >= 4 && k <= 8 {
				k = 0
			}
			if i > nl/2 && k < 4 {
				k = 5
			}
		}
		switch {
		case k < 4:
			var v [3]float64
			var s [3]string
			for a := range v {
				s[a], v[a] = num()
			}
			l := "v " + strings.Join(s[:], " ")
			if r.Intn(10) == 0 {
				l += " 1.0"
			}
			lines = append(lines, l)
			verts = append(verts, v)
		case k < 9:
			if len(verts) == 0 {
				continue
			}
			n := 3 + r.Intn(6)
			if r.Intn(3) != 0 {
				n = 3
			} else if r.Intn(10) == 0 {
				n = 9 + r.Intn(40)
				if r.Intn(40) == 0 {
					n = 50 + r.Intn(2500)
				}
				t.Count("large faces", 1)
			}
			if r.Intn(20) == 0 {
				n = 1 + r.Intn(2)
			}
			l := "f"
			var f []int32
			kind := r.Intn(4)
			for j := 0; j < n; j++ {
				vi := r.Intn(len(verts))
				if r.Intn(10) == 0 {
					vi = len(verts) - 1
				}
				f = append(f, int32(vi))
				switch kind {
				case 0:
					l += fmt.Sprintf(" %d/%d/%d", vi+1, r.Intn(9)+1, r.Intn(9)+1)
				case 1:
					l += fmt.Sprintf(" %d//%d", vi+1, r.Intn(9)+1)
				default:
					l += fmt.Sprintf(" %d", vi+1)
				}
			}
			for j := 2; j < n; j++ {
				tris = append(tris, [3]int32{f[0], f[j-1], f[j]})
			}
			faces++
			lines = append(lines, l)
		default:
			lines = append(lines, []string{"# a comment", "", "vn 0 1 0", "vt 0.5 0.5", "g group", "usemtl a b c", "s off", "o v 1 2 3", "#v 1 2 3", "#f 1 2 3"}[r.Intn(10)])
		}
	}
	if r.Intn(8) == 0 { // some more lines at the end, and no newline
		lines = append(lines, "# end")
	}

	// Damage.
	damage := ""
	if r.Intn(2) == 0 {
		bad := func(l string) {
			i := r.Intn(len(lines) + 1)
			lines = append(lines[:i:i], append([]string{l}, lines[i:]...)...)
		}
		a, _ := num()
		b, _ := num()
		word := []string{"x", "1.2.3", "0x", "--1", "1,5", "1e", "e5", "+-2", "1_000.5.2", "nul"}[r.Intn(10)]
		switch r.Intn(9) {
		case 0:
			damage = "malformed coordinate " + word
			l := []string{a, b, word}
			r.Shuffle(3, func(i, j int) { l[i], l[j] = l[j], l[i] })
			bad("v " + strings.Join(l, " "))
		case 1:
			damage = "malformed index " + word
			bad("f 1 1 " + word)
		case 2:
			damage = "index past the vertices"
			bad(fmt.Sprintf("f %d %d %d", len(verts)+1+r.Intn(3), 1, 1))
		case 3:
			damage = "index past the vertices in a polygon"
			bad(fmt.Sprintf("f 1 1 1 %d 1", len(verts)+1+r.Intn(1000000)))
		case 4:
			damage = "index 0"
			bad("f 1 1 0")
		case 5:
			damage = "negative index"
			bad(fmt.Sprintf("f 1 %d 1", -1-r.Intn(5)))
		case 6:
			damage = "too many coordinates"
			bad("v 1 2 3 4 5")
		case 7:
			damage = "line of 100000 characters"
			bad("# " + strings.Repeat("x", 100000))
		case 8:
			damage = "empty index"
			bad("f /1 /2 /3")
		}
	}
	sep := "\n"
	if r.Intn(6) == 0 {
		sep = "\r\n"
	}
	text := strings.Join(lines, sep)
	if r.Intn(4) != 0 {
		text += sep
	}

	cr := &objReader{data: []byte(text), r: r, max: 1 + r.Intn(4096), fail: -1, eof: r.Intn(2) == 0, fails: errors.New("the reader failed")}
	if damage == "" && r.Intn(4) == 0 {
		cr.fail = r.Intn(len(text) + 1)
	}
	t.Mix(text, cr.fail)

	ml := recast.NewMeshLoaderOBJ()
	err := ml.Load(cr)
	geomToo := r.Intn(2) == 0
	var ig recast.InputGeom
	var gerr error
	if geomToo {
		if r.Intn(3) == 0 {
			ig.LoadOBJMesh(strings.NewReader("v 100 100 100\nv -100 -100 -100\nv 1 0 0\nf 1 2 3\n"))
		}
		cr2 := *cr
		cr2.off = 0
		gerr = ig.LoadOBJMesh(&cr2)
	}
	switch {
	case damage != "":
		t.Nontrivial()
		if err == nil || geomToo && gerr == nil {
			t.Fatalf("no error for a file with a %s\n%s", damage, tailStr(text, 2000))
		}
		t.Count("damaged files refused", 1)
		t.Count("damage: "+strings.SplitN(damage, " ", 2)[0], 1)
		return
	case cr.fail >= 0:
		t.Nontrivial()
		if err == nil || geomToo && gerr == nil {
			t.Fatalf("no error though the reader failed after %d bytes of %d", cr.fail, len(text))
		}
		t.Count("reader failures reported", 1)
		return
	}
	if err != nil {
		t.Fatalf("a valid file was refused: %v\n%s", err, tailStr(text, 2000))
	}
	check := func(ml *recast.MeshLoaderOBJ) {
		if int(ml.VertCount()) != len(verts) || len(ml.Verts()) != 3*len(verts) {
			t.Fatalf("%d vertices instead of %d", ml.VertCount(), len(verts))
		}
		for i, v := range verts {
			for a := range v {
				if ml.Verts()[i*3+a] != float32(v[a]) {
					t.Fatalf("vertex %d is %v instead of %v", i, ml.Verts()[i*3:i*3+3], v)
				}
			}
		}
		if int(ml.TriCount()) != len(tris) || len(ml.Tris()) != 3*len(tris) || len(ml.Normals()) != 3*len(tris) {
			t.Fatalf("%d triangles instead of %d", ml.TriCount(), len(tris))
		}
		for i, tr := range tris {
			got := ml.Tris()[i*3 : i*3+3]
			if got[0] != tr[0] || got[1] != tr[1] || got[2] != tr[2] {
				t.Fatalf("triangle %d is %v instead of %v", i, got, tr)
			}
			f := func(k int32) V3 {
				v := verts[k]
				return V3{float64(float32(v[0])), float64(float32(v[1])), float64(float32(v[2]))}
			}
			a, b, c := f(tr[0]), f(tr[1]), f(tr[2])
			e0, e1 := b.sub(a), c.sub(a)
			n := V3{e0[1]*e1[2] - e0[2]*e1[1], e0[2]*e1[0] - e0[0]*e1[2], e0[0]*e1[1] - e0[1]*e1[0]}
			// Slivers, and triangles far from the origin for their size, are
			// left out: their normals are lost to rounding.
			big := math.Max(a.len(), math.Max(b.len(), c.len()))
			for _, x := range ml.Normals()[i*3 : i*3+3] {
				if big < 1e6 && !(x >= -1.001 && x <= 1.001) {
					t.Fatalf("the normal of triangle %d is %v", i, ml.Normals()[i*3:i*3+3])
				}
			}
			if n.len() == 0 {
				t.Count("normals of triangles with no area", 1)
			}
			if n.len() < 1e-3*e0.len()*e1.len() || n.len() < 1e-17 || e0.len() < 1e-4*big || e1.len() < 1e-4*big {
				continue
			}
			n = n.mul(1 / n.len())
			g := v3(ml.Normals()[i*3 : i*3+3])
			if g.dist(n) > 2e-3 {
				t.Fatalf("the normal of triangle %d is %v instead of %v", i, g, n)
			}
			t.Count("normals", 1)
			if e0.len() < 1e-2 && e1.len() < 1e-2 {
				t.Count("normals of tiny triangles", 1)
			}
		}
	}
	check(ml)
	if geomToo {
		if (gerr == nil) != (len(verts) > 0 && len(tris) > 0) {
			t.Fatalf("error %v for %d vertices and %d triangles", gerr, len(verts), len(tris))
		}
		if gerr == nil {
			check(ig.Mesh())
			for a := 0; a < 3; a++ {
				var c []float64
				for _, v := range verts {
					c = append(c, float64(float32(v[a])))
				}
				sort.Float64s(c)
				lo, hi := float32(c[0]), float32(c[len(c)-1])
				if ig.MeshBoundsMin()[a] != lo || ig.MeshBoundsMax()[a] != hi || ig.NavMeshBoundsMin()[a] != lo || ig.NavMeshBoundsMax()[a] != hi {
					t.Fatalf("the bounds on axis %d are %v..%v instead of %v..%v", a, ig.MeshBoundsMin()[a], ig.MeshBoundsMax()[a], lo, hi)
				}
			}
			t.Count("geometries", 1)
		}
	}
	t.Count("files read", 1)
	t.Count("faces", faces)
	if faces > 0 {
		t.Nontrivial()
	}
	t.Desc("%d vertices, %d faces", len(verts), faces)
}
