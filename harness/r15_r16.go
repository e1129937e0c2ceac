package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/arl/go-detour/recast"
)

func init() {
	register(&Prop{ID: "R15", Quick: 3000, Thorough: 60000, Run: runR15,
		Rule:  "a case is a random sequence of up to 2500 messages, resets and switches of logging and timing, and starts and stops of timers (around short stretches of work, measured from the inside and from the outside), on a build context, compared with a list and with the measures; non-trivial if messages were kept and timers accumulated",
		MinEv: []string{"messages kept", "messages dropped", "messages without logging", "logs reset", "dumps", "timers measured", "timers accumulated over several stretches", "timers never started", "timers disabled", "timers reset", "reports"}})
	register(&Prop{ID: "R16", Quick: 10000, Thorough: 400000, Run: runR16,
		Rule:  "a case computes the bounds of random vertices, grid sizes for random boxes and cell sizes, heightfields of them, and all directions; non-trivial if there were several vertices",
		MinEv: []string{"bounds", "grid sizes", "connections set", "directions", "heightfields"}})
}

func runR15(t *T) {
	r := t.R
	on := r.Intn(4) > 0
	ctx := recast.NewBuildContext(on)
	log, tim := on, on
	var want []string
	const max = 1000
	type span struct{ in, out time.Duration }
	timers := map[recast.TimerLabel]*span{}
	stretches := map[recast.TimerLabel]int{}
	labels := []recast.TimerLabel{recast.TimerTotal, recast.TimerTemp, recast.TimerRasterizeTriangles, recast.TimerBuildContours, recast.TimerBuildLayers, recast.TimerMergePolyMeshDetail, recast.TimerErodeArea}
	n := 20 + r.Intn(200)
	if r.Intn(6) == 0 {
		n = 2500
	}
	check := func(what string) {
		if ctx.LogCount() != len(want) {
			t.Fatalf("%d messages after %s instead of %d", ctx.LogCount(), what, len(want))
		}
		for i := 0; i < len(want); i += 1 + len(want)/20 {
			if s := ctx.LogText(int32(i)); s != want[i] {
				t.Fatalf("message %d after %s is %q instead of %q", i, what, s, want[i])
			}
		}
		for _, l := range labels {
			got, w := ctx.AccumulatedTime(l), timers[l]
			switch {
			case !tim:
				if got != -1 {
					t.Fatalf("timer %d after %s: %v instead of -1 as timers are disabled", l, what, got)
				}
				t.Count("timers disabled", 1)
			case w == nil:
				if got != -1 {
					t.Fatalf("timer %d after %s: %v instead of -1 as it was never started", l, what, got)
				}
				t.Count("timers never started", 1)
			default:
				if got < w.in || got > w.out {
					t.Fatalf("timer %d after %s: %v, not from %v to %v (%d stretches)", l, what, got, w.in, w.out, stretches[l])
				}
				t.Count("timers measured", 1)
				if stretches[l] > 1 {
					t.Count("timers accumulated over several stretches", 1)
				}
			}
		}
	}
	kept, timed := 0, 0
	for i := 0; i < n; i++ {
		what := ""
		k := r.Intn(14)
		if n == 2500 && k > 6 && r.Intn(10) > 0 {
			k = 0
		}
		switch {
		case k <= 6:
			a, b := r.Intn(1000), fmt.Sprint("x", r.Intn(100))
			f := []string{"plain %% text", "number %d", "%[2]s then %03[1]d", "%v"}[r.Intn(4)]
			if r.Intn(40) == 0 {
				f = f + strings.Repeat("#", 1<<uint(6+r.Intn(9)))
				t.Count("long messages", 1)
			}
			args := []interface{}{a, b}
			switch f[0] {
			case 'p':
				args = nil
			case 'n':
				args = args[:1]
			case '%':
				if f == "%v" {
					args = args[1:]
				}
			}
			c := []string{"PROG ", "WARN ", "ERR "}[r.Intn(3)]
			switch c[0] {
			case 'P':
				ctx.Progressf(f, args...)
			case 'W':
				ctx.Warningf(f, args...)
			default:
				ctx.Errorf(f, args...)
			}
			what = "a message"
			switch {
			case !log:
				t.Count("messages without logging", 1)
			case len(want) == max:
				t.Count("messages dropped", 1)
			default:
				want = append(want, c+fmt.Sprintf(f, args...))
				t.Count("messages kept", 1)
				kept++
			}
		case k == 7 && log && r.Intn(3) == 0:
			ctx.ResetLog()
			want = nil
			what = "a reset of the log"
			t.Count("logs reset", 1)
		case k == 8 && tim && r.Intn(3) == 0:
			ctx.ResetTimers()
			timers, stretches = map[recast.TimerLabel]*span{}, map[recast.TimerLabel]int{}
			what = "a reset of timers"
			t.Count("timers reset", 1)
		case k == 9 && r.Intn(3) == 0:
			log = r.Intn(3) > 0
			ctx.EnableLog(log)
			what = fmt.Sprintf("switching logging to %v", log)
		case k == 10 && r.Intn(3) == 0:
			tim = r.Intn(3) > 0
			ctx.EnableTimer(tim)
			what = fmt.Sprintf("switching timers to %v", tim)
		case k == 11:
			var w strings.Builder
			ctx.DumpLog(&w, "%d messages%s", len(want), ":")
			s := fmt.Sprintf("%d messages:\n", len(want))
			if len(want) > 0 {
				s += strings.Join(want, "\n") + "\n"
			}
			if w.String() != s {
				t.Fatalf("DumpLog wrote %d bytes instead of %d", w.Len(), len(s))
			}
			what = "a dump"
			t.Count("dumps", 1)
		case k == 12 && log && len(want) < max-60 && r.Intn(4) == 0:
			total := time.Duration(1+r.Intn(1e9)) * time.Nanosecond
			recast.LogBuildTimes(ctx, total)
			m := ctx.LogCount()
			if m < len(want)+2 || m > max {
				t.Fatalf("LogBuildTimes left %d messages after %d", m, len(want))
			}
			lines := 0
			for _, x := range labels[2:] {
				if tim && timers[x] != nil {
					lines++
				}
			}
			if m-len(want)-2 != lines {
				t.Fatalf("LogBuildTimes reports %d timers instead of the %d used", m-len(want)-2, lines)
			}
			for i := len(want); i < m; i++ {
				want = append(want, ctx.LogText(int32(i)))
			}
			if w := fmt.Sprintf("%v", total); !strings.Contains(want[m-1], w) {
				t.Fatalf("LogBuildTimes ends with %q, without the total of %s", want[m-1], w)
			}
			what = "a report"
			t.Count("reports", 1)
		default:
			l := labels[r.Intn(len(labels))]
			t0 := time.Now()
			ctx.StartTimer(l)
			t1 := time.Now()
			x := 0
			for i := r.Intn(2000); i > 0; i-- {
				x += i
			}
			if r.Intn(300) == 0 {
				time.Sleep(time.Millisecond)
			}
			t2 := time.Now()
			ctx.StopTimer(l)
			t3 := time.Now()
			what = "timing"
			if tim && x >= 0 {
				if timers[l] == nil {
					timers[l] = &span{}
				}
				timers[l].in += t2.Sub(t1)
				timers[l].out += t3.Sub(t0)
				stretches[l]++
				timed++
			}
		}
		if n < 300 || i%50 == 0 || len(want) >= max-3 && i%7 == 0 {
			check(what)
		}
	}
	check("all")
	t.Mix(n, want)
	if kept > 0 && timed > 0 {
		t.Nontrivial()
	}
	t.Desc("%d operations, %d messages", n, len(want))
}

func runR16(t *T) {
	r := t.R
	n := 1 + r.Intn(40)
	verts := make([]float32, 3*n)
	scale := float32(math.Pow(10, float64(r.Intn(7)-3)))
	for i := range verts {
		verts[i] = (r.Float32() - .5) * scale
		if r.Intn(5) == 0 {
			verts[i] = verts[r.Intn(i+1)]
		}
	}
	if r.Intn(4) == 0 { // all on one side of the origin
		for i := range verts {
			verts[i] = float32(math.Abs(float64(verts[i]))) * float32(1-2*(t.Idx&1))
		}
	}
	bmin, bmax := make([]float32, 3), make([]float32, 3)
	for i := range bmin { // what they contained doesn't matter
		bmin[i], bmax[i] = (r.Float32()-.5)*9e9, (r.Float32()-.5)*9e9
	}
	m := 1 + r.Intn(n)
	was := append([]float32{}, verts...)
	recast.CalcBounds(verts, int32(m), bmin, bmax)
	for k := 0; k < 3; k++ {
		lo, hi := float32(math.Inf(1)), float32(math.Inf(-1))
		for i := 0; i < m; i++ {
			if v := verts[i*3+k]; v < lo {
				lo = v
			}
			if v := verts[i*3+k]; v > hi {
				hi = v
			}
		}
		if bmin[k] != lo || bmax[k] != hi {
			t.Fatalf("CalcBounds of %d of %d vertices: %g to %g instead of %g to %g in coordinate %d", m, n, bmin[k], bmax[k], lo, hi, k)
		}
	}
	for i := range was {
		if was[i] != verts[i] {
			t.Fatalf("CalcBounds changed vertex coordinate %d", i)
		}
	}
	t.Count("bounds", 1)
	for k := 0; k < 10; k++ {
		cs := float32(.01 + r.Float64()*3)
		b0 := []float32{(r.Float32() - .5) * 1000, (r.Float32() - .5) * 1000, (r.Float32() - .5) * 1000}
		b1 := []float32{b0[0] + r.Float32()*500*cs, b0[1] + r.Float32()*50, b0[2] + r.Float32()*500*cs}
		w, h := recast.CalcGridSize(b0, b1, cs)
		for i, g := range [2]int32{w, h} {
			d := (float64(b1[2*i])-float64(b0[2*i]))/float64(cs) + .5
			eps := 1e-3 + 1e-6*math.Abs(float64(b0[2*i]))/float64(cs)
			if float64(g) > d+eps || float64(g) < d-1-eps || g < 0 {
				t.Fatalf("CalcGridSize(%v,%v,%g): %d cells instead of %g rounded down", b0, b1, cs, g, d)
			}
		}
		t.Count("grid sizes", 1)
		if k == 0 && int(w)*int(h) < 50000 {
			ch := float32(.01 + r.Float64())
			hf := recast.NewHeightfield(w, h, b0, b1, cs, ch)
			if hf.Width != w || hf.Height != h || hf.Cs != cs || hf.Ch != ch || hf.BMin != [3]float32{b0[0], b0[1], b0[2]} || hf.BMax != [3]float32{b1[0], b1[1], b1[2]} || len(hf.Spans) != int(w*h) {
				t.Fatalf("NewHeightfield(%d,%d,%v,%v,%g,%g): %dx%d, %d columns, %v to %v, cells %g, %g", w, h, b0, b1, cs, ch, hf.Width, hf.Height, len(hf.Spans), hf.BMin, hf.BMax, hf.Cs, hf.Ch)
			}
			for i, s := range hf.Spans {
				if s != nil {
					t.Fatalf("column %d of a new heightfield isn't empty", i)
				}
			}
			t.Count("heightfields", 1)
		}
	}
	// Directions, in turn: left, up (towards greater z), right, down.
	for d, o := range [4][2]int32{{-1, 0}, {0, 1}, {1, 0}, {0, -1}} {
		for _, e := range []int32{int32(d), int32(d) + 4, int32(d) + 8} {
			if x, y := recast.GetDirOffsetX(e), recast.GetDirOffsetY(e); x != o[0] || y != o[1] {
				t.Fatalf("direction %d has the offset (%d,%d) instead of %v", e, x, y, o)
			}
		}
		if g := recast.GetDirForOffset(o[0], o[1]); g != int32(d) {
			t.Fatalf("the direction for %v is %d instead of %d", o, g, d)
		}
		t.Count("directions", 1)
	}
	// The connections of a span: one of 64 values (63 for none) per direction,
	// each setting of one leaving the others as they were.
	span := recast.CompactSpan{Y: uint16(r.Intn(1 << 16)), Reg: uint16(r.Intn(1 << 16)), H: uint8(r.Intn(256))}
	var con [4]int32
	for d := range con {
		con[d] = recast.GetCon(&span, int32(d))
		if con[d] != 0 {
			t.Fatalf("a new span is connected to %d in direction %d", con[d], d)
		}
	}
	y, reg, h := span.Y, span.Reg, span.H
	for k := 0; k < 40; k++ {
		d := r.Intn(4)
		con[d] = int32(r.Intn(64))
		if r.Intn(3) == 0 {
			con[d] = 63
		}
		recast.SetCon(&span, int32(d), con[d])
		for e := range con {
			if g := recast.GetCon(&span, int32(e)); g != con[e] {
				t.Fatalf("after setting the connection in direction %d to %d, the one in direction %d is %d instead of %d", d, con[d], e, g, con[e])
			}
		}
		if span.Y != y || span.Reg != reg || span.H != h {
			t.Fatalf("setting a connection changed the span from %d,%d,%d to %d,%d,%d", y, reg, h, span.Y, span.Reg, span.H)
		}
		t.Count("connections set", 1)
	}
	t.Mix(verts, m)
	if m > 1 {
		t.Nontrivial()
	}
	t.Desc("%d vertices, scale %g", m, scale)
}
