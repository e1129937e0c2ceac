package main

// Framework: a check is a deterministic list of cases, each decided by the
// oracles of its property. Cases are run by worker processes, so that a crash,
// an exit or a hang of the code under test is attributed to a case.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is the machinery of one property.
type Prop struct {
	ID       string
	Rule     string   // how cases are made and what makes one non-trivial
	Quick    int      // number of cases of the quick tier
	Thorough int      // number of cases of the thorough tier
	Workers  int      // worker processes (0: number of CPUs)
	CPU      float64  // CPU seconds a case may use (0: 60)
	Assume   []string // assumptions
	MinEv    []string // counters which must not be zero at the end of a run
	Level    string
	Run      func(t *T)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// T is the context of a case.
type T struct {
	Prop  *Prop
	Tier  string
	Seed  int64
	Idx   int
	R     *rand.Rand
	stats *Stats
	nontr bool
	hash  uint64
	desc  string
}

// Stats are the observations of a worker.
type Stats struct {
	Evals       int                        `json:"evals"`
	Counts      map[string]int64           `json:"counts"`
	Maxes       map[string]float64         `json:"maxes"`
	Distinct    map[uint64]bool            `json:"-"`
	Hashes      []uint64                   `json:"hashes"`
	States      map[string]map[uint64]bool `json:"-"`
	StateHashes map[string][]uint64        `json:"states"`
	Samples     []string                   `json:"samples"`
	Known       map[string]string          `json:"known"`
	Viol        []Violation                `json:"viol"`
	CPUMax      float64                    `json:"cpumax"`
	Done        bool                       `json:"done"`
}

// Violation is a violation of the property by a case.
type Violation struct {
	Prop string `json:"property"`
	Tier string `json:"tier"`
	Seed int64  `json:"seed"`
	Idx  int    `json:"case"`
	Msg  string `json:"what"`
}

type violated struct{ msg string }

// Fatalf reports a violation and ends the case.
func (t *T) Fatalf(f string, a ...interface{}) {
	panic(violated{fmt.Sprintf(f, a...)})
}

// Count adds n to the number of events observed with that name.
func (t *T) Count(name string, n int) { t.stats.Counts[name] += int64(n) }

// Max records the maximum of a measure.
func (t *T) Max(name string, v float64) {
	if o, ok := t.stats.Maxes[name]; !ok || v > o {
		t.stats.Maxes[name] = v
	}
}

// Nontrivial tells that the case has exercised its property.
func (t *T) Nontrivial() { t.nontr = true }

// Mix adds values to the identity of the case.
func (t *T) Mix(a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, t.hash, a)
	t.hash = h.Sum64()
}

// State records that a state (identified by its contents) was observed.
func (t *T) State(kind string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	m := t.stats.States[kind]
	if m == nil {
		m = map[uint64]bool{}
		t.stats.States[kind] = m
	}
	if len(m) < 200000 {
		m[h.Sum64()] = true
	}
}

// Desc describes the case, for the samples.
func (t *T) Desc(f string, a ...interface{}) { t.desc = fmt.Sprintf(f, a...) }

// Known reports the failure of a listed finding, or a violation if it isn't listed.
func (t *T) Known(key, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if knownKeys()[t.Prop.ID+" "+key] {
		t.stats.Known[key] = msg
		return
	}
	panic(violated{"[" + key + "] " + msg})
}

var (
	knownOnce sync.Once
	knownMap  map[string]bool
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// KNOWN_FINDINGS.txt has lines "known: property=ID key=KEY what" and
// "fixed: property=ID commit what"; the latter suppress nothing.
func knownKeys() map[string]bool {
	knownOnce.Do(func() {
		knownMap = map[string]bool{}
		f, err := os.Open(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
		if err != nil {
			return
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			w := strings.Fields(sc.Text())
			if len(w) >= 3 && w[0] == "known:" {
				knownMap[strings.TrimPrefix(w[1], "property=")+" "+strings.TrimPrefix(w[2], "key=")] = true
			}
		}
	})
	return knownMap
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func newStats() *Stats {
	return &Stats{Counts: map[string]int64{}, Maxes: map[string]float64{}, Distinct: map[uint64]bool{}, Known: map[string]string{}, States: map[string]map[uint64]bool{}}
}

func caseSeed(id string, seed int64, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, id, "/", seed, "/", idx)
	return int64(h.Sum64())
}

func runCase(p *Prop, tier string, seed int64, idx int, st *Stats) (v *Violation) {
	t := &T{Prop: p, Tier: tier, Seed: seed, Idx: idx, stats: st, R: rand.New(rand.NewSource(caseSeed(p.ID, seed, idx)))}
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(violated); ok {
				v = &Violation{p.ID, tier, seed, idx, x.msg}
			} else {
				v = &Violation{p.ID, tier, seed, idx, fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
			}
		}
		st.Evals++
		if t.nontr {
			if t.hash == 0 {
				t.Mix(idx)
			}
			if !st.Distinct[t.hash] && len(st.Samples) < 3 && t.desc != "" {
				st.Samples = append(st.Samples, fmt.Sprintf("case %d: %s", idx, t.desc))
			}
			st.Distinct[t.hash] = true
		}
	}()
	p.Run(t)
	return nil
}

func numCases(p *Prop, tier string) int {
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n, _ := strconv.Atoi(s)
		return n
	}
	if tier == "thorough" {
		return p.Thorough
	}
	return p.Quick
}

func worker(p *Prop, tier string, seed int64, w, nw int, out string) {
	debug.SetGCPercent(200)
	st := newStats()
	prog, err := os.Create(out + ".prog")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	limit := p.CPU
	if limit == 0 {
		limit = 60
	}
	var cur, start int64
	atomic.StoreInt64(&cur, -1)
	go func() { // logical watchdog: CPU time of the case, not wall clock
		for {
			time.Sleep(200 * time.Millisecond)
			c0 := atomic.LoadInt64(&cur)
			used := cpuSeconds() - float64(atomic.LoadInt64(&start))/1e6
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if atomic.LoadInt64(&cur) != c0 || c0 < 0 {
				continue
			}
			if used > limit {
				fmt.Fprintf(os.Stderr, "HANG: the case has used %.0f s of CPU time (cases normally take a fraction of a second)\n", used)
				os.Exit(77)
			}
			if ms.HeapAlloc > 3<<30 {
				fmt.Fprintf(os.Stderr, "MEMORY: the case has allocated %d MB\n", ms.HeapAlloc>>20)
				os.Exit(78)
			}
		}
	}()
	n := numCases(p, tier)
	for i := w; i < n; i += nw {
		c0 := cpuSeconds()
		atomic.StoreInt64(&start, int64(c0*1e6))
		atomic.StoreInt64(&cur, int64(i))
		prog.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		v := runCase(p, tier, seed, i, st)
		if d := cpuSeconds() - c0; d > st.CPUMax {
			st.CPUMax = d
		}
		if v != nil {
			st.Viol = append(st.Viol, *v)
			break
		}
	}
	atomic.StoreInt64(&cur, -1)
	for h := range st.Distinct {
		st.Hashes = append(st.Hashes, h)
	}
	st.StateHashes = map[string][]uint64{}
	for k, m := range st.States {
		for h := range m {
			st.StateHashes[k] = append(st.StateHashes[k], h)
		}
	}
	st.Done = true
	buf, _ := json.Marshal(st)
	if err := ioutil.WriteFile(out, buf, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func check(p *Prop, tier string, seed int64) int {
	t0 := time.Now()
	nw := p.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if n := numCases(p, tier); nw > n {
		nw = n
	}
	dir, err := ioutil.TempDir("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	type res struct {
		st   *Stats
		viol *Violation
	}
	results := make([]res, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			out := filepath.Join(dir, fmt.Sprint("w", w))
			cmd := exec.Command(self, "worker", p.ID, tier, fmt.Sprint(seed), fmt.Sprint(w), fmt.Sprint(nw), out)
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GORACE=halt_on_error=1 exitcode=66")
			if p.Workers == 0 {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
			}
			var eb, ob strings.Builder
			cmd.Stderr = &eb
			cmd.Stdout = &ob
			rerr := cmd.Run()
			if buf, err := ioutil.ReadFile(out); err == nil {
				st := newStats()
				if json.Unmarshal(buf, st) == nil && st.Done {
					results[w].st = st
				}
			}
			if results[w].st == nil || rerr != nil {
				b, _ := ioutil.ReadFile(out + ".prog")
				idx, err := strconv.Atoi(strings.TrimSpace(string(b)))
				if err != nil {
					idx = -1
				}
				results[w].viol = &Violation{p.ID, tier, seed, idx, fmt.Sprintf("the process running the case ended: %v\n%s", rerr, tailStr(ob.String()+eb.String(), 8000))}
			}
		}(w)
	}
	wg.Wait()

	tot := newStats()
	var viols []Violation
	crash := 0
	for _, r := range results {
		if r.viol != nil {
			if r.viol.Idx < 0 {
				fmt.Println("inconclusive: a worker didn't start:", r.viol.Msg)
				return 2
			}
			crash++
			viols = append(viols, *r.viol)
		}
		if r.st == nil {
			continue
		}
		tot.Evals += r.st.Evals
		for k, v := range r.st.Counts {
			tot.Counts[k] += v
		}
		for k, v := range r.st.Maxes {
			if o, ok := tot.Maxes[k]; !ok || v > o {
				tot.Maxes[k] = v
			}
		}
		for _, h := range r.st.Hashes {
			tot.Distinct[h] = true
		}
		for k, hs := range r.st.StateHashes {
			m := tot.States[k]
			if m == nil {
				m = map[uint64]bool{}
				tot.States[k] = m
			}
			for _, h := range hs {
				m[h] = true
			}
		}
		if len(r.st.Samples) > 0 && len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, r.st.Samples[0])
		}
		for k, v := range r.st.Known {
			tot.Known[k] = v
		}
		viols = append(viols, r.st.Viol...)
		if r.st.CPUMax > tot.CPUMax {
			tot.CPUMax = r.st.CPUMax
		}
	}
	wall := time.Since(t0).Seconds()

	cov := map[string]interface{}{
		"evaluations":         tot.Evals,
		"distinct_nontrivial": len(tot.Distinct),
		"rule":                p.Rule,
		"samples":             tot.Samples,
		"max_case_cpu_s":      float64(int(tot.CPUMax*1000)) / 1000,
	}
	obs := map[string]int64{}
	for k, v := range tot.Counts {
		obs[k] = v
	}
	cov["observed_events"] = obs
	if len(tot.States) > 0 {
		ds := map[string]int{}
		for k, m := range tot.States {
			ds[k] = len(m)
		}
		cov["distinct_observed"] = ds
	}
	if len(tot.Maxes) > 0 {
		cov["observed_maxima"] = tot.Maxes
	}
	lvl := p.Level
	if lvl == "" {
		lvl = "exploration"
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": lvl,
		"coverage": cov, "assumptions": p.Assume, "wall_s": float64(int(wall*100)) / 100, "violations": len(viols),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	buf, _ := json.MarshalIndent(ev, "", " ")
	evdir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evdir, 0755)
	if err := ioutil.WriteFile(filepath.Join(evdir, p.ID+".json"), append(buf, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}

	var keys []string
	for k := range tot.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, tot.Known[k])
	}
	if len(viols) > 0 {
		sort.Slice(viols, func(i, j int) bool { return viols[i].Idx < viols[j].Idx })
		for i, v := range viols {
			rd := filepath.Join(verifDir(), ".replays")
			os.MkdirAll(rd, 0755)
			rp := filepath.Join(rd, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, tier, seed, v.Idx))
			b, _ := json.MarshalIndent(v, "", " ")
			ioutil.WriteFile(rp, append(b, '\n'), 0644)
			if i < 3 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
				fmt.Println(tailStr(v.Msg, 3000))
			}
		}
		return 1
	}
	var names []string
	for k := range tot.Counts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, m := range p.MinEv {
		if tot.Counts[m] == 0 {
			fmt.Printf("inconclusive: no %q event was observed\n", m)
			return 2
		}
	}
	fmt.Printf("%s %s: held on %d cases (%d distinct non-trivial), %.1f s", p.ID, tier, tot.Evals, len(tot.Distinct), wall)
	for _, k := range names {
		fmt.Printf(", %s=%d", k, tot.Counts[k])
	}
	for k, v := range tot.Maxes {
		fmt.Printf(", max %s=%.4g", k, v)
	}
	fmt.Println()
	return 0
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: check ID TIER SEED | replay FILE | worker ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "check":
		p := props[os.Args[2]]
		if p == nil {
			fmt.Println("no such property", os.Args[2])
			os.Exit(3)
		}
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		os.Exit(check(p, os.Args[3], seed))
	case "worker":
		p := props[os.Args[2]]
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		w, _ := strconv.Atoi(os.Args[5])
		nw, _ := strconv.Atoi(os.Args[6])
		worker(p, os.Args[3], seed, w, nw, os.Args[7])
	case "replay":
		buf, err := ioutil.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var v Violation
		if err := json.Unmarshal(buf, &v); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		st := newStats()
		r := runCase(props[v.Prop], v.Tier, v.Seed, v.Idx, st)
		if r == nil {
			fmt.Println("the case passes")
			return
		}
		fmt.Println(r.Msg)
		os.Exit(1)
	}
}
