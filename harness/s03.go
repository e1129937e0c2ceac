package main

// S03: the command line tool, run on the files of a scratch directory whose
// contents are compared with a model after each command.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
)

func init() {
	register(&Prop{ID: "S03", Quick: 1000, Thorough: 20000,
		Rule: "case i runs a sequence of 8 to 16 random commands of the tool (built from the tree) in a directory of its own: config, build and infos of all mesh types, on generated, random, incomplete, refused, damaged and missing configurations and geometries, to new, existing and unwritable files, with all kinds of answers; after each one, all files of the directory are compared with a model, and built meshes with those of the library; non-trivial when a mesh was built",
		MinEv: []string{"configs written", "configs equal to the defaults", "meshes built", "meshes equal to the library's", "builds with defaults", "overwritten", "not overwritten", "answers missing",
			"configs refused", "geometries refused", "settings refused", "writes refused", "infos of meshes", "infos refused", "unknown types", "no input given"},
		Run: runS03})
}

type toolDir struct {
	t     *T
	dir   string
	files map[string][]byte // nil: a directory
	log   []string
}

func (d *toolDir) fatalf(f string, a ...interface{}) {
	d.t.Fatalf("%s\ncommands:\n%s", fmt.Sprintf(f, a...), strings.Join(d.log, "\n"))
}

// put writes a file.
func (d *toolDir) put(name string, data []byte) {
	if err := ioutil.WriteFile(filepath.Join(d.dir, name), data, 0644); err != nil {
		panic(err)
	}
	d.files[name] = append([]byte{}, data...)
}

// run runs a command, and tells what it printed and how it ended.
func (d *toolDir) run(stdin string, args ...string) (string, int) {
	d.log = append(d.log, fmt.Sprintf("recast %q, answers %q", args, stdin))
	// CPU time and file sizes are limited, not the time it takes.
	cmd := exec.Command("/bin/sh", append([]string{"-c", `ulimit -t 100 -f 200000; exec "$0" "$@"`, os.Getenv("VERIF_TOOL")}, args...)...)
	cmd.Dir = d.dir
	cmd.Env = []string{"HOME=" + d.dir, "PATH=/usr/bin:/bin", "TMPDIR=" + d.dir}
	cmd.Stdin = strings.NewReader(stdin)
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	err := cmd.Run()
	code := 0
	if err != nil {
		e, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		ws := e.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			d.fatalf("the tool was ended by a signal (%v)\n%s", ws.Signal(), tailStr(o.String(), 3000))
		}
		code = ws.ExitStatus()
	}
	if s := o.String(); code == 2 || strings.Contains(s, "goroutine ") || strings.Contains(s, "panic:") {
		d.fatalf("the tool crashed (status %d)\n%s", code, tailStr(s, 3000))
	}
	d.t.Count("commands", 1)
	return o.String(), code
}

// compare compares the directory with the model, apart from a file.
func (d *toolDir) compare(but string) {
	l, err := ioutil.ReadDir(d.dir)
	if err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	for _, e := range l {
		n := e.Name()
		seen[n] = true
		want, ok := d.files[n]
		if n == but {
			continue
		}
		if !ok {
			d.fatalf("file %q appeared", n)
		}
		if e.IsDir() != (want == nil) {
			d.fatalf("%q was replaced", n)
		}
		if want == nil {
			continue
		}
		got, err := ioutil.ReadFile(filepath.Join(d.dir, n))
		if err != nil || !bytes.Equal(got, want) {
			d.fatalf("the contents of file %q changed: %d bytes instead of %d (%v)", n, len(got), len(want), err)
		}
	}
	for n := range d.files {
		if !seen[n] && n != but {
			d.fatalf("file %q disappeared", n)
		}
	}
	d.t.Count("files compared", len(seen))
}

// answers to the question whether to overwrite a file.
var answers = []struct {
	text string
	yes  bool
}{{"y\n", true}, {"Y\n", true}, {"yes\n", true}, {"n\n", false}, {"N\n", false}, {"no\n", false}, {"\n", false}, {"", false},
	{"maybe\ny\n", true}, {"maybe\nn\ny\n", false}, {"q\nz\n", false}, {"y", true}, {"\ny\n", false}, {"1\n\n", false}, {"n\ny\n", false}}

func settingsYAML(b *recast.BuildSettings, skip string) string {
	var o strings.Builder
	v := reflect.ValueOf(*b)
	for i := 0; i < v.NumField(); i++ {
		n := strings.ToLower(v.Type().Field(i).Name)
		if n == skip {
			continue
		}
		if v.Field(i).Kind() == reflect.Float32 {
			s := strconv.FormatFloat(v.Field(i).Float(), 'f', -1, 32)
			switch {
			case v.Field(i).Float() != v.Field(i).Float():
				s = ".nan"
			}
			fmt.Fprintf(&o, "%s: %s\n", n, s)
		} else {
			fmt.Fprintf(&o, "%s: %d\n", n, v.Field(i).Int())
		}
	}
	return o.String()
}

// parseSettings reads a configuration.
func parseSettings(data []byte) (map[string]float64, error) {
	m := map[string]float64{}
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		i := strings.IndexByte(l, ':')
		if i < 0 {
			return nil, fmt.Errorf("line %q", l)
		}
		x, err := strconv.ParseFloat(strings.TrimSpace(l[i+1:]), 64)
		if err != nil {
			return nil, err
		}
		k := strings.TrimSpace(l[:i])
		if _, ok := m[k]; ok {
			return nil, fmt.Errorf("%q is there twice", k)
		}
		m[k] = x
	}
	return m, nil
}

var tinySettings = []string{"cellsize", "cellheight", "vertsperpoly"}

func runS03(t *T) {
	if os.Getenv("VERIF_TOOL") == "" {
		panic("VERIF_TOOL isn't set")
	}
	r := t.R
	dir, err := ioutil.TempDir("", "s03-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	d := &toolDir{t: t, dir: dir, files: map[string][]byte{}}
	if err := os.Mkdir(filepath.Join(dir, "folder"), 0755); err != nil {
		panic(err)
	}
	d.files["folder"] = nil

	sc := randScene(r, 20+r.Intn(30))
	obj := sc.obj(r)
	d.put("scene.obj", []byte(obj))
	d.put("damaged.obj", []byte(damageText(r.Intn, obj)))
	d.put("empty.obj", nil)
	random := sc.B
	settings := map[string]recast.BuildSettings{"random.yml": random}
	d.put("random.yml", []byte(settingsYAML(&random, "")))
	// Refused settings.
	bad := random
	switch r.Intn(7) {
	case 0:
		bad.CellSize = 0
	case 1:
		bad.CellHeight = -.5
	case 2:
		bad.VertsPerPoly = float32(r.Intn(3))
	case 3:
		bad.VertsPerPoly = float32(7 + r.Intn(5))
	case 4:
		bad.CellSize = -bad.CellSize
	case 5:
		bad.AgentRadius = -1
	case 6:
		bad.CellSize = float32(nan())
	}
	settings["bad.yml"] = bad
	d.put("bad.yml", []byte(settingsYAML(&bad, "")))
	part := random
	switch skip := tinySettings[r.Intn(3)]; skip {
	case "cellsize":
		part.CellSize = 0
		d.put("part.yml", []byte(settingsYAML(&random, skip)))
	case "cellheight":
		part.CellHeight = 0
		d.put("part.yml", []byte(settingsYAML(&random, skip)))
	default:
		part.VertsPerPoly = 0
		d.put("part.yml", []byte(settingsYAML(&random, skip)))
	}
	settings["part.yml"] = part
	d.put("garbage.yml", []byte([]string{"cellsize: [", "\tcellsize: 1", "cellsize: abc\n", "{", "- 1\n- 2\n", "cellsize: 1\n  cellheight: 2\n:"}[r.Intn(6)]))
	d.put("other.txt", []byte("something else"))
	t.Mix(obj, sc.B)
	t.Desc("%s, %+v", sc.kind, sc.B)

	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	for n := 8 + r.Intn(9); n > 0; n-- {
		ans := answers[r.Intn(len(answers))]
		switch k := r.Intn(10); {
		case k < 2:
			d.config(pick("solo", "tile", "solo", "tile", "", "", "grid"), pick("", "", "a.yml", "b.yml", "other.txt", "random.yml", "folder", "none/a.yml", "/dev/full"), ans.text, ans.yes, settings)
		case k < 6:
			// most likely to be built
			d.build(pick("solo", "tile", ""), pick("random.yml", "random.yml", "", "a.yml", "b.yml"), "scene.obj", pick("", "mesh.bin", "other.txt"), ans.text, ans.yes, settings)
		case k < 8:
			d.build(pick("solo", "tile", "", "solo", "tile", "tiles"), pick("", "random.yml", "random.yml", "a.yml", "b.yml", "bad.yml", "part.yml", "garbage.yml", "none.yml", "folder"),
				pick("scene.obj", "scene.obj", "scene.obj", "scene.obj", "damaged.obj", "none.obj", "empty.obj", "folder", ""),
				pick("", "", "mesh.bin", "mesh.bin", "other.txt", "scene.obj", "folder", "none/mesh.bin", "/dev/full"), ans.text, ans.yes, settings)
		default:
			name := pick("navmesh.bin", "mesh.bin", "navmesh.bin", "mesh.bin", "other.txt", "none.bin", "folder", "scene.obj", "")
			if b := d.files[name]; len(b) > 100 && r.Intn(2) == 0 {
				// damaged
				b = append([]byte{}, b...)
				switch r.Intn(4) {
				case 0:
					b = b[:r.Intn(len(b))]
				case 1:
					b[r.Intn(8)] ^= byte(1 << uint(r.Intn(8)))
				case 2:
					b = b[:len(b)-1-r.Intn(8)]
				case 3:
					b[44+r.Intn(4)] ^= byte(1 << uint(r.Intn(8))) // size of the first tile
				}
				name = "damaged.bin"
				d.put(name, b)
			}
			d.infos(name)
		}
	}
}

func nan() float64 {
	z := 0.
	return z / z
}

// damageText damages an OBJ file, possibly without effect.
func damageText(intn func(int) int, s string) string {
	l := strings.Split(s, "\n")
	i := intn(len(l))
	switch intn(6) {
	case 0:
		l[i] = "v 1 2 x"
	case 1:
		l[i] = "f 1 2"
	case 2:
		l[i] = "f 1 2 999999"
	case 3:
		l[i] = "v 1"
	case 4:
		l = l[:i]
	case 5:
		l[i] = "# " + l[i]
	}
	return strings.Join(l, "\n")
}

// exists tells if there's a file of that name.
func (d *toolDir) exists(name string) bool {
	if name == "/dev/full" {
		return true
	}
	_, ok := d.files[name]
	return ok
}

func (d *toolDir) refused(what, out string, code int, words ...string) {
	if strings.Contains(out, "success") {
		d.fatalf("%s: success was reported\n%s", what, tailStr(out, 2000))
	}
	for _, w := range words {
		if strings.Contains(out, w) {
			return
		}
	}
	d.fatalf("%s: nothing was reported (status %d)\n%s", what, code, tailStr(out, 2000))
}

func (d *toolDir) config(typ, file, stdin string, yes bool, settings map[string]recast.BuildSettings) {
	args := []string{"config"}
	name := "recast.yml"
	if file != "" {
		name = file
		args = append(args, file)
	}
	if typ != "" {
		args = append(args, "--type", typ)
	}
	out, code := d.run(stdin, args...)
	t := d.t
	existed := d.exists(name)
	switch {
	case typ == "grid":
		d.compare("")
		d.refused("configuration of an unknown type", out, code, "unknown")
		t.Count("unknown types", 1)
	case existed && !yes:
		d.compare("")
		d.refused("overwriting wasn't confirmed", out, code, "aborted")
		t.Count("not overwritten", 1)
		if stdin == "" {
			t.Count("answers missing", 1)
		}
	case name == "folder" || name == "none/a.yml" || name == "/dev/full":
		d.compare("")
		d.refused("writing "+name, out, code, "error")
		if code == 0 {
			d.fatalf("writing %s failed with status 0", name)
		}
		t.Count("writes refused", 1)
	default:
		if code != 0 || !strings.Contains(out, "success") {
			d.fatalf("the configuration should have been written, status %d\n%s", code, out)
		}
		d.compare(name)
		got, err := ioutil.ReadFile(filepath.Join(d.dir, name))
		if err != nil {
			d.fatalf("the configuration wasn't written: %v", err)
		}
		def := solomesh.DefaultSettings()
		if typ == "tile" {
			def = tilemesh.DefaultSettings()
		}
		m, err := parseSettings(got)
		if err != nil {
			d.fatalf("the configuration isn't valid: %v\n%s", err, got)
		}
		v := reflect.ValueOf(def)
		for i := 0; i < v.NumField(); i++ {
			k := strings.ToLower(v.Type().Field(i).Name)
			x, ok := m[k]
			var want float64
			if v.Field(i).Kind() == reflect.Float32 {
				x, want = float64(float32(x)), v.Field(i).Float()
			} else {
				want = float64(v.Field(i).Int())
			}
			if !ok || x != want {
				d.fatalf("%s is %v (%v) in the configuration, %v by default\n%s", k, x, ok, want, got)
			}
		}
		if len(m) != v.NumField() {
			d.fatalf("the configuration has %d fields instead of %d\n%s", len(m), v.NumField(), got)
		}
		d.files[name] = got
		settings[name] = def
		t.Count("configs written", 1)
		t.Count("configs equal to the defaults", 1)
		if existed {
			t.Count("overwritten", 1)
		}
	}
}

func (d *toolDir) build(typ, cfg, input, file, stdin string, yes bool, settings map[string]recast.BuildSettings) {
	t := d.t
	args := []string{"build"}
	name := "navmesh.bin"
	if file != "" {
		name = file
		args = append(args, file)
	}
	cfgName := "recast.yml"
	if cfg != "" {
		cfgName = cfg
		args = append(args, "--config", cfg)
	}
	if input != "" {
		args = append(args, "--input", input)
	}
	if typ != "" {
		args = append(args, "--type", typ)
	}
	tiled := typ == "tile"
	b, haveCfg := settings[cfgName]
	// A file which isn't a configuration any more, or isn't what it was.
	if name2 := cfgName; haveCfg && d.files[name2] == nil {
		haveCfg = false
	}
	// What the library does. Generated settings may be too fine for a scene.
	var want []byte
	loadErr, built := false, false
	obj, isFile := d.files[input]
	if input != "" && typ != "tiles" && haveCfg && isFile && obj != nil {
		lb, err := loadBuilder(tiled, recast.NewBuildContext(true), string(obj))
		if err != nil {
			loadErr = true
		} else {
			lb.SetSettings(b)
			var m *detour.NavMesh
			if m, built = lb.Build(); built {
				var err error
				if want, err = meshBytes(m); err != nil {
					d.fatalf("can't write the mesh: %v", err)
				}
			}
		}
	}
	existed := d.exists(name)
	out, code := d.run(stdin, args...)
	fail := func(what string, words ...string) {
		d.compare("")
		d.refused(what, out, code, words...)
	}
	switch {
	case input == "":
		fail("build without input", "missing input")
		t.Count("no input given", 1)
	case typ == "tiles":
		fail("build of an unknown type", "unknown")
		t.Count("unknown types", 1)
	case !haveCfg:
		fail("build with configuration "+cfgName, "error")
		t.Count("configs refused", 1)
	case !isFile || obj == nil || loadErr:
		fail("build of "+input, "error")
		if code == 0 {
			d.fatalf("reading %s failed with status 0", input)
		}
		t.Count("geometries refused", 1)
	case !built:
		fail("build of "+input+" with "+cfgName, "couldn't build")
		if cfgName == "bad.yml" || cfgName == "part.yml" {
			t.Count("settings refused", 1)
		} else {
			t.Count("failed builds", 1)
		}
	case existed && !yes:
		fail("overwriting wasn't confirmed", "aborted")
		t.Count("not overwritten", 1)
		if stdin == "" {
			t.Count("answers missing", 1)
		}
	case name == "folder" || name == "none/mesh.bin" || name == "/dev/full":
		fail("writing "+name, "error")
		if code == 0 {
			d.fatalf("writing %s failed with status 0", name)
		}
		t.Count("writes refused", 1)
	default:
		if code != 0 || !strings.Contains(out, "success") {
			d.fatalf("the mesh should have been built, status %d\n%s", code, tailStr(out, 2000))
		}
		d.compare(name)
		got, err := ioutil.ReadFile(filepath.Join(d.dir, name))
		if err != nil {
			d.fatalf("the mesh wasn't written: %v", err)
		}
		if !bytes.Equal(got, want) {
			d.fatalf("the mesh isn't that of the library for the same settings: %d bytes instead of %d", len(got), len(want))
		}
		d.files[name] = got
		delete(settings, name)
		t.Count("meshes built", 1)
		t.Count("meshes equal to the library's", 1)
		if cfgName != "random.yml" {
			t.Count("builds with defaults", 1)
		}
		if existed {
			t.Count("overwritten", 1)
		}
		t.Nontrivial()
		d.infos(name)
	}
}

func (d *toolDir) infos(name string) {
	t := d.t
	data, ok := d.files[name]
	var m *detour.NavMesh
	if ok && data != nil {
		if x, err := detour.Decode(bytes.NewReader(data)); err == nil {
			m = x
		}
	}
	args := []string{"infos"}
	if name != "" {
		args = append(args, name)
	}
	out, code := d.run("", args...)
	d.compare("")
	if m == nil {
		d.refused("infos of "+name, out, code, "error", "no input")
		t.Count("infos refused", 1)
		return
	}
	i := strings.Index(out, "{")
	if code != 0 || !strings.Contains(out, "successfully loaded") || i < 0 {
		d.fatalf("infos of %s failed, status %d\n%s", name, code, out)
	}
	var p detour.NavMeshParams
	if err := json.Unmarshal([]byte(out[i:]), &p); err != nil {
		d.fatalf("infos of %s: %v\n%s", name, err, out)
	}
	if p != m.Params {
		d.fatalf("infos of %s tell %+v, the mesh has %+v", name, p, m.Params)
	}
	t.Count("infos of meshes", 1)
}
