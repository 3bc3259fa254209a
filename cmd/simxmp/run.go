package main

// One simulated run: a function of its choices (and, in replay, of the
// recorded context switches).

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// Workload decides one property.
type Workload struct {
	Prop  string
	Run   func(r *R)
	Race  bool  // build with the race detector
	Quick int   // runs in the quick tier
	Limit int64 // step budget per run
	Rule  string
	Real  string
	Stub  string
}

var workloads = map[string]*Workload{}

func register(w *Workload) {
	if w.Limit == 0 {
		w.Limit = 30_000_000
	}
	workloads[w.Prop] = w
}

type violation struct{ class, msg string }

// R is the context of a run.
type R struct {
	*Src
	prop       string
	stats      map[string]int64
	h          uint64
	tracing    bool
	tr         []string
	nontrivial bool
	desc       string
	skipNS     map[string]bool  // namespaces not to use for new properties
	sw         [][]simrt.Switch // recorded context switches per concurrent phase
	rsw        [][]simrt.Switch // to replay
	replaySw   bool
	ilv        []uint64 // interleaving / state hashes reached
	uniq       int
	thorough   bool
	quiet      bool            // in a concurrent task: no texts
	had        map[string]bool // properties since removed, others may hold copies
}

func (r *R) orHad(has func(string) bool) func(string) bool {
	if r.had == nil {
		return has
	}
	return func(b string) bool { return r.had[b] || has(b) }
}

func (r *R) Count(k string, n int64) { r.stats[k] += n }
func (r *R) Fault(k string)          { r.stats["fault."+k]++ }

// Mix feeds an observation into the run's event hash.
func (r *R) Mix(s string) { r.h = mix64(r.h ^ strHash(s)) }

func (r *R) Logf(f string, a ...interface{}) {
	if r.quiet {
		return
	}
	s := fmt.Sprintf(f, a...)
	r.h = mix64(r.h ^ strHash(s))
	if r.tracing {
		r.tr = append(r.tr, s)
	}
}

// State records a reached state for the diversity measure.
func (r *R) State(h uint64) { r.ilv = append(r.ilv, h) }

// Fail ends the run with a violation.
func (r *R) Fail(class, f string, a ...interface{}) {
	panic(violation{class, fmt.Sprintf(f, a...)})
}

// Unique returns a text not used before in this run.
func (r *R) Unique(p string) string { r.uniq++; return fmt.Sprintf("%s%d", p, r.uniq) }

// Outcome of a run.
type Outcome struct {
	Class    string           `json:"class,omitempty"` // "" held
	Msg      string           `json:"msg,omitempty"`
	Harness  string           `json:"harness,omitempty"` // machinery trouble
	Hash     uint64           `json:"hash,string"`
	Choices  []uint32         `json:"choices,omitempty"`
	Switches [][]simrt.Switch `json:"switches,omitempty"`
	Trace    []string         `json:"trace,omitempty"`
	Stats    map[string]int64 `json:"stats,omitempty"`
	States   []uint64         `json:"states,omitempty"`
	Nontriv  bool             `json:"nontrivial,omitempty"`
	Desc     string           `json:"desc,omitempty"`
	Steps    int64            `json:"steps"`
	WallUS   int64            `json:"wall_us"`
}

// Job identifies a run.
type Job struct {
	Prop     string           `json:"property"`
	Seed     uint64           `json:"seed"`
	Index    uint64           `json:"index"`
	Replay   bool             `json:"replay"` // use Choices instead of the seed
	Choices  []uint32         `json:"choices,omitempty"`
	ReplaySw bool             `json:"replay_switches"`
	Switches [][]simrt.Switch `json:"switches,omitempty"`
	Trace    bool             `json:"trace_wanted,omitempty"`
	Thorough bool             `json:"thorough,omitempty"`
}

const libPath = "github.com/trimmer-io/go-xmp/"

// topFrame classifies a panic by the innermost frame that belongs to the
// library or the harness.
func topFrame(stack string) (fn string, lib bool) {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.gopanic") {
			start = i
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, libPath) {
			f := strings.TrimPrefix(l, libPath)
			if i := strings.LastIndexByte(f, '('); i > 0 {
				f = f[:i]
			}
			return f, true
		}
		if strings.HasPrefix(l, "main.") {
			return l, false
		}
	}
	return "?", false
}

func classifyPanic(v interface{}, stack string) (class, msg, harness string) {
	switch e := v.(type) {
	case violation:
		return e.class, e.msg, ""
	case simrt.StepLimitError:
		return "hang", e.Error() + "\n" + clipStack(stack), ""
	}
	f, lib := topFrame(stack)
	if lib {
		return "panic:" + f, fmt.Sprintf("panic: %v\n%s", v, clipStack(stack)), ""
	}
	return "", "", fmt.Sprintf("harness panic: %v\n%s", v, stack)
}

func clipStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, libPath) || strings.HasPrefix(l, "main.") {
			out = append(out, "  at "+strings.TrimPrefix(l, libPath))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var raceSeen int

func runOnce(w *Workload, j *Job) (o Outcome) {
	src := &Src{}
	if j.Replay {
		src.replay, src.replaying = j.Choices, true
	} else {
		src.rng = mix64(mix64(j.Seed)^strHash(j.Prop)) ^ mix64(j.Index*0x9e3779b97f4a7c15+1)
	}
	r := &R{Src: src, prop: j.Prop, stats: map[string]int64{}, tracing: j.Trace, rsw: j.Switches, replaySw: j.ReplaySw, thorough: j.Thorough}
	reinit()
	simrt.SetMapOrder(0)
	simrt.SetClock(time.Unix(1700000000, 0).UTC())
	simrt.Begin(w.Limit)
	t0 := time.Now()
	func() {
		defer func() {
			if v := recover(); v != nil {
				o.Class, o.Msg, o.Harness = classifyPanic(v, string(debug.Stack()))
			}
		}()
		w.Run(r)
	}()
	o.Steps = simrt.End() + r.stats["steps.concurrent"]
	if n := simrt.RaceErrors(); n > raceSeen {
		raceSeen = n
		rep := raceReport()
		cls, msg := classifyRace(rep)
		if o.Class == "" && o.Harness == "" {
			o.Class, o.Msg = cls, msg
		}
	}
	if r.stats["switch-log-overflow"] > 0 { // replays from the choices
		r.sw = nil
	}
	o.WallUS = time.Since(t0).Microseconds()
	o.Hash = mix64(r.h ^ strHash(o.Class))
	o.Choices, o.Switches, o.Trace, o.Stats, o.States, o.Nontriv, o.Desc = src.rec, r.sw, r.tr, r.stats, r.ilv, r.nontrivial, r.desc
	return
}

// raceReport returns what the race detector has written so far.
func raceReport() string {
	p := os.Getenv("SIM_RACELOG")
	if p == "" {
		return ""
	}
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	return string(b)
}

// classifyRace reduces the last report to the two functions involved.
func classifyRace(rep string) (string, string) {
	parts := strings.Split(rep, "WARNING: DATA RACE")
	last := parts[len(parts)-1]
	if len(parts) > 1 {
		last = parts[1]
	}
	var fns []string
	want := false
	for _, l := range strings.Split(last, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous ") || strings.HasPrefix(t, "Atomic") {
			want = true
			continue
		}
		if strings.HasPrefix(t, "Goroutine ") {
			want = false
		}
		if want && strings.HasPrefix(t, libPath) {
			f := strings.TrimPrefix(t, libPath)
			if i := strings.LastIndexByte(f, '('); i > 0 {
				f = f[:i]
			}
			fns = append(fns, f)
			want = false
		}
	}
	sort.Strings(fns)
	if len(last) > 4000 {
		last = last[:4000]
	}
	return "race:" + strings.Join(fns, "+"), "data race\n" + last
}

// Concurrent runs the functions as simulated tasks under a schedule drawn from
// the choices, or the recorded one.
func (r *R) Concurrent(limit int64, fns []func()) simrt.Result {
	cfg := simrt.Config{Mode: 1}
	k := r.N(8)
	seed := uint64(r.N(1<<30))<<30 | uint64(r.N(1<<30))
	cfg.Seed = seed
	switch {
	case k == 0: // serial, in order
		cfg.Mode = 0
	case k <= 4: // random preemption, dense at shared state
		cfg.P = pick(r.Src, []uint32{0, 16, 200, 2000, 20000})
		cfg.PHot = pick(r.Src, []uint32{800, 4000, 16000, 32000, 60000})
	default: // priorities with few change points
		cfg.Mode = 2
		cfg.NCh = 1 + r.N(4)
		hot := r.N(4) != 0
		for i := 0; i < cfg.NCh; i++ {
			n := int32(1 + r.Small(pick(r.Src, []int{8, 60, 400, 3000})))
			if !hot {
				n = -(n * 8)
			}
			cfg.Change[i] = n
		}
	}
	if r.replaySw {
		cfg = simrt.Config{Mode: 3}
		if len(r.sw) < len(r.rsw) {
			cfg.Replay = r.rsw[len(r.sw)]
		}
	}
	before := simrt.End()
	res := simrt.Run(cfg, limit, fns)
	r.stats["steps.concurrent"] += before + simrt.Steps()
	r.sw = append(r.sw, res.Switches)
	r.stats["switches"] += int64(len(res.Switches))
	r.stats["points.hot"] += res.Hot
	r.State(res.Hash)
	simrt.Begin(limit)
	if res.Overflow {
		r.stats["switch-log-overflow"]++
	}
	return res
}

// checkTasks turns panics and deadlocks of tasks into violations.
func (r *R) checkTasks(res simrt.Result) {
	for i, p := range res.Panics {
		if p == "" {
			continue
		}
		st := res.Stacks[i]
		if strings.Contains(p, "no end after") && strings.Contains(p, "simulated steps") {
			r.Fail("hang", "task %d: %s\n%s", i, p, clipStack(st))
		}
		f, lib := topFrame(st)
		if !lib {
			panic(fmt.Sprintf("harness panic in task %d: %s\n%s", i, p, st))
		}
		r.Fail("panic:"+f, "task %d: panic: %s\n%s", i, p, clipStack(st))
	}
	if res.Deadlock {
		r.Fail("deadlock", "all remaining tasks wait for locks: %v", res.Blocked)
	}
}

func gomaxprocs1() { runtime.GOMAXPROCS(1) }
