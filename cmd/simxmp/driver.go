package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/simrt"

	"github.com/trimmer-io/go-xmp/verifall"
)

// ---- messages from workers ---------------------------------------------------

type batch struct {
	Kind   string           `json:"k"` // stat, viol, harness, done
	Runs   int64            `json:"runs,omitempty"`
	NonT   int64            `json:"nont,omitempty"`
	Steps  int64            `json:"steps,omitempty"`
	BusyUS int64            `json:"busy,omitempty"`
	Stats  map[string]int64 `json:"stats,omitempty"`
	Hashes []uint64         `json:"hashes,omitempty"` // of non-trivial runs
	States []uint64         `json:"states,omitempty"`
	Cover  []int32          `json:"cover,omitempty"`
	Index  uint64           `json:"index,omitempty"`
	Out    *Outcome         `json:"out,omitempty"`
	Known  map[string]int64 `json:"known,omitempty"`
}

// Finding is an entry of known_findings.json.
type Finding struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`           // exact violation class
	Match    []string `json:"match,omitempty"` // substrings that must all occur in the message
	What     string   `json:"what"`
}

type findingsFile struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func loadFindings(path string) (f findingsFile) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(2)
	}
	return
}

func (f *findingsFile) match(prop, class, msg string) *Finding {
next:
	for i := range f.Findings {
		k := &f.Findings[i]
		if k.Property != prop || k.Class != class {
			continue
		}
		for _, m := range k.Match {
			if !strings.Contains(msg, m) {
				continue next
			}
		}
		return k
	}
	return nil
}

// ---- worker -------------------------------------------------------------------

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	start := fs.Uint64("start", 0, "")
	stride := fs.Uint64("stride", 1, "")
	end := fs.Uint64("end", 0, "")
	until := fs.Int64("until", 0, "unix ms")
	progress := fs.String("progress", "", "")
	known := fs.String("known", "", "")
	thorough := fs.Bool("thorough", false, "")
	fs.Parse(args)
	gomaxprocs1()
	debug.SetGCPercent(200)
	w := workloads[*prop]
	kf := loadFindings(*known)
	pf, err := os.OpenFile(*progress, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	b := batch{Kind: "stat", Stats: map[string]int64{}, Known: map[string]int64{}}
	last := time.Now()
	states := map[uint64]struct{}{}
	flush := func() {
		enc.Encode(&b)
		out.Flush()
		b = batch{Kind: "stat", Stats: map[string]int64{}, Known: map[string]int64{}}
		last = time.Now()
	}
	var buf [16]byte
	for i := *start; i < *end; i += *stride {
		now := time.Now()
		if *until > 0 && now.UnixMilli() >= *until {
			break
		}
		binary.LittleEndian.PutUint64(buf[:8], i+1)
		binary.LittleEndian.PutUint64(buf[8:], uint64(now.UnixMilli()))
		pf.WriteAt(buf[:], 0)
		o := runOnce(w, &Job{Prop: *prop, Seed: *seed, Index: i, Thorough: *thorough})
		b.Runs++
		b.Steps += o.Steps
		b.BusyUS += o.WallUS
		for k, v := range o.Stats {
			b.Stats[k] += v
		}
		for _, s := range o.States {
			if len(states) < 2_000_000 {
				if _, ok := states[s]; !ok {
					states[s] = struct{}{}
					b.States = append(b.States, s)
				}
			}
		}
		if o.Nontriv {
			b.NonT++
			b.Hashes = append(b.Hashes, o.Hash)
		}
		if o.Harness != "" {
			o.Trace = nil
			enc.Encode(&batch{Kind: "harness", Index: i, Out: &o})
			out.Flush()
			os.Exit(2)
		}
		if o.Class != "" {
			if k := kf.match(*prop, o.Class, o.Msg); k != nil {
				b.Known[k.What]++
			} else {
				enc.Encode(&batch{Kind: "viol", Index: i, Out: &o})
				out.Flush()
			}
		}
		if time.Since(last) > 500*time.Millisecond {
			flush()
		}
	}
	b.Cover = simrt.CoverBits()
	flush()
	enc.Encode(&batch{Kind: "done"})
	out.Flush()
}

// ---- exec: one run in a fresh process -------------------------------------------

func execMain(args []string) {
	gomaxprocs1()
	var j Job
	var rd io.Reader = os.Stdin
	if err := json.NewDecoder(rd).Decode(&j); err != nil {
		fmt.Fprintln(os.Stderr, "exec:", err)
		os.Exit(2)
	}
	w := workloads[j.Prop]
	if w == nil {
		fmt.Fprintln(os.Stderr, "exec: unknown property", j.Prop)
		os.Exit(2)
	}
	o := runOnce(w, &j)
	json.NewEncoder(os.Stdout).Encode(&o)
}

type runner struct {
	self string
	dir  string
	n    int
	mu   sync.Mutex
	race bool
}

const (
	hangWall = 40 * time.Second
	memLimit = 3 << 30
)

// exec runs one job in a fresh process.
func (x *runner) exec(j *Job, wall time.Duration) (o Outcome) {
	x.mu.Lock()
	x.n++
	id := x.n
	x.mu.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), wall)
	defer cancel()
	js, _ := json.Marshal(j)
	cmd := exec.CommandContext(ctx, x.self, "exec")
	cmd.Stdin = bytes.NewReader(js)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	rl := filepath.Join(x.dir, fmt.Sprintf("race-e%d", id))
	cmd.Env = x.env(rl)
	if err := cmd.Start(); err != nil {
		o.Harness = err.Error()
		return
	}
	stop := make(chan struct{})
	memKill := false
	go func() {
		t := time.NewTicker(100 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
				if rss(cmd.Process.Pid) > memLimit {
					memKill = true
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	err := cmd.Wait()
	close(stop)
	os.Remove(fmt.Sprintf("%s.%d", rl, cmd.Process.Pid))
	if memKill {
		return Outcome{Class: "memory", Msg: fmt.Sprintf("more than %d MB used", memLimit>>20), Choices: j.Choices, Switches: j.Switches}
	}
	if ctx.Err() != nil {
		return Outcome{Class: "hang", Msg: fmt.Sprintf("no end after %v", wall), Choices: j.Choices, Switches: j.Switches}
	}
	if err != nil {
		s := se.String()
		if strings.Contains(s, "fatal error:") || strings.Contains(s, "goroutine stack exceeds") || strings.Contains(s, "unexpected fault") {
			i := strings.Index(s, "fatal error:")
			if i < 0 {
				i = 0
			}
			line := s[i:]
			if k := strings.IndexByte(line, '\n'); k > 0 {
				line = line[:k]
			}
			return Outcome{Class: "crash:" + line, Msg: clip2(s[i:], 3000), Choices: j.Choices, Switches: j.Switches}
		}
		o.Harness = fmt.Sprintf("exec: %v: %s", err, clip2(s, 2000))
		return
	}
	if err := json.Unmarshal(so.Bytes(), &o); err != nil {
		o.Harness = "exec output: " + err.Error()
	}
	return
}

func (x *runner) env(racelog string) []string {
	e := append(os.Environ(), "SIM_RACELOG="+racelog)
	e = append(e, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path="+racelog)
	return e
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// ---- parent ---------------------------------------------------------------------

type replayFile struct {
	Property string           `json:"property"`
	Class    string           `json:"class"`
	Msg      string           `json:"msg"`
	Seed     uint64           `json:"seed"`
	Index    uint64           `json:"index"`
	Choices  []uint32         `json:"choices"`
	Switches [][]simrt.Switch `json:"switches"`
	Hash     uint64           `json:"hash,string"`
	Thorough bool             `json:"thorough,omitempty"`
	Note     string           `json:"note"`
	Trace    []string         `json:"trace"`
}

type total struct {
	batch
	hashes map[uint64]struct{}
	states map[uint64]struct{}
	cover  map[int32]struct{}
	deaths int
}

func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	root := fs.String("root", "/verif", "")
	dir := fs.String("dir", "", "scratch")
	runs := fs.Int("runs", 0, "override")
	secs := fs.Int("secs", 0, "override")
	workers := fs.Int("workers", 8, "")
	keep := fs.Bool("keepgoing", false, "report all violation classes, minimise none (development)")
	fs.Parse(args)
	w := workloads[*prop]
	if w == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	t0 := time.Now()
	self, _ := os.Executable()
	x := &runner{self: self, dir: *dir, race: w.Race}
	knownPath := filepath.Join(*root, "known_findings.json")
	kf := loadFindings(knownPath)
	thorough := *tier == "thorough"
	end := uint64(w.Quick)
	wall := 240 * time.Second
	if thorough {
		end = 1 << 60
		wall = 600 * time.Second
	}
	if *runs > 0 {
		end = uint64(*runs)
	}
	if *secs > 0 {
		wall = time.Duration(*secs) * time.Second
		if *runs == 0 {
			end = 1 << 60
		}
	}
	deadline := t0.Add(wall)
	tot := &total{hashes: map[uint64]struct{}{}, states: map[uint64]struct{}{}, cover: map[int32]struct{}{}}
	tot.Stats, tot.Known = map[string]int64{}, map[string]int64{}
	type hit struct {
		idx uint64
		out Outcome
	}
	var mu sync.Mutex
	var hits []hit
	var harness []string
	classes := map[string]int{}
	exemplar := map[string]hit{}
	stopAll := make(chan struct{})
	var once sync.Once
	stop := func() { once.Do(func() { close(stopAll) }) }
	var wg sync.WaitGroup
	nw := uint64(*workers)
	for wi := uint64(0); wi < nw; wi++ {
		wg.Add(1)
		go func(wi uint64) {
			defer wg.Done()
			start := wi
			for restart := 0; ; restart++ {
				prog := filepath.Join(*dir, fmt.Sprintf("progress-%d-%d", wi, restart))
				a := []string{"worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(nw),
					"-end", fmt.Sprint(end), "-until", fmt.Sprint(deadline.UnixMilli()), "-progress", prog, "-known", knownPath}
				if thorough {
					a = append(a, "-thorough")
				}
				cmd := exec.Command(self, a...)
				var se bytes.Buffer
				cmd.Stderr = &se
				cmd.Env = x.env(filepath.Join(*dir, fmt.Sprintf("race-w%d-%d", wi, restart)))
				so, err := cmd.StdoutPipe()
				if err == nil {
					err = cmd.Start()
				}
				if err != nil {
					mu.Lock()
					harness = append(harness, err.Error())
					mu.Unlock()
					stop()
					return
				}
				fin := make(chan struct{})
				reason := ""
				go func() { // watchdog
					t := time.NewTicker(200 * time.Millisecond)
					defer t.Stop()
					for {
						select {
						case <-fin:
							return
						case <-stopAll:
							reason = "stop"
							cmd.Process.Kill()
							return
						case <-t.C:
							if b, err := os.ReadFile(prog); err == nil && len(b) == 16 {
								ms := int64(binary.LittleEndian.Uint64(b[8:]))
								if time.Now().UnixMilli()-ms > hangWall.Milliseconds() {
									reason = "hang"
									cmd.Process.Kill()
									return
								}
							}
							if rss(cmd.Process.Pid) > memLimit {
								reason = "memory"
								cmd.Process.Kill()
								return
							}
						}
					}
				}()
				dec := json.NewDecoder(so)
				done := false
				for {
					var b batch
					if err := dec.Decode(&b); err != nil {
						break
					}
					mu.Lock()
					switch b.Kind {
					case "stat":
						tot.Runs += b.Runs
						tot.NonT += b.NonT
						tot.Steps += b.Steps
						tot.BusyUS += b.BusyUS
						for k, v := range b.Stats {
							tot.Stats[k] += v
						}
						for k, v := range b.Known {
							tot.Known[k] += v
						}
						for _, h := range b.Hashes {
							tot.hashes[h] = struct{}{}
						}
						for _, h := range b.States {
							tot.states[h] = struct{}{}
						}
						for _, c := range b.Cover {
							tot.cover[c] = struct{}{}
						}
					case "viol":
						classes[b.Out.Class]++
						if _, ok := exemplar[b.Out.Class]; !ok {
							exemplar[b.Out.Class] = hit{b.Index, *b.Out}
						}
						if !*keep {
							hits = append(hits, hit{b.Index, *b.Out})
							stop()
						}
					case "harness":
						harness = append(harness, fmt.Sprintf("run %d: %s", b.Index, b.Out.Harness))
						stop()
					case "done":
						done = true
					}
					mu.Unlock()
				}
				cmd.Wait()
				close(fin)
				if done || reason == "stop" {
					return
				}
				select {
				case <-stopAll:
					return
				default:
				}
				// the worker died: find out whether its last run kills a fresh process too
				b, err := os.ReadFile(prog)
				if err != nil || len(b) != 16 {
					mu.Lock()
					harness = append(harness, "worker died at start: "+clip2(se.String(), 1000))
					mu.Unlock()
					stop()
					return
				}
				idx := binary.LittleEndian.Uint64(b) - 1
				j := &Job{Prop: *prop, Seed: *seed, Index: idx, Thorough: thorough}
				o := x.exec(j, hangWall)
				if o.Class != "" && kf.match(*prop, o.Class, o.Msg) == nil {
					mu.Lock()
					classes[o.Class]++
					exemplar[o.Class] = hit{idx, o}
					if !*keep {
						hits = append(hits, hit{idx, o})
					}
					mu.Unlock()
					if !*keep {
						stop()
						return
					}
				} else if o.Class == "" {
					mu.Lock()
					tot.deaths++
					d := tot.deaths
					fmt.Fprintf(os.Stderr, "worker died (%s) in run %d, which is fine in a fresh process: %s\n", reason, idx, clip2(se.String(), 600))
					mu.Unlock()
					if d > 5 {
						mu.Lock()
						harness = append(harness, "workers keep dying")
						mu.Unlock()
						stop()
						return
					}
				}
				start = idx + nw
				if time.Now().After(deadline) {
					return
				}
			}
		}(wi)
	}
	wg.Wait()
	if *keep {
		var l []string
		for c := range classes {
			l = append(l, c)
		}
		sort.Strings(l)
		for _, c := range l {
			h := exemplar[c]
			fmt.Printf("== %s x%d idx=%d\n%s\n", c, classes[c], h.idx, clip2(h.out.Msg, 1500))
		}
		for _, h := range harness {
			fmt.Println("HARNESS", clip2(h, 3000))
		}
		fmt.Printf("runs %d nontrivial %d distinct %d states %d wall %.1fs stats %v known %v\n", tot.Runs, tot.NonT, len(tot.hashes), len(tot.states), time.Since(t0).Seconds(), tot.Stats, tot.Known)
		return 0
	}
	if len(hits) == 0 && len(harness) > 0 {
		for _, h := range harness {
			fmt.Fprintln(os.Stderr, "HARNESS:", h)
		}
		return 2
	}
	rc := 0
	nviol := 0
	if len(hits) > 0 {
		sort.Slice(hits, func(a, b int) bool { return hits[a].idx < hits[b].idx })
		reported := false
		for _, h := range hits {
			rf, ok := x.confirm(*prop, *seed, h.idx, h.out, thorough, &kf)
			if !ok {
				fmt.Fprintf(os.Stderr, "run %d: %s not reproduced in a fresh process\n%s\n", h.idx, h.out.Class, clip2(h.out.Msg, 2000))
				continue
			}
			os.MkdirAll(filepath.Join(*root, "replays"), 0o755)
			p := filepath.Join(*root, "replays", fmt.Sprintf("%s-%d-%d.json", *prop, *seed, h.idx))
			js, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(p, js, 0o644)
			fmt.Printf("%s: %s\n", rf.Class, rf.Msg)
			fmt.Printf("seed %d run %d, %d choices, %d context switches after minimisation\n", rf.Seed, rf.Index, len(rf.Choices), countSw(rf.Switches))
			for _, l := range clipLines(rf.Trace, 40) {
				fmt.Println("  |", l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			nviol++
			reported = true
			rc = 1
			break
		}
		if !reported {
			rc = 2
		}
	}
	// determinism: the first runs once more, in fresh processes, twice each
	var samples []interface{}
	det, same := 0, 0
	if rc == 0 {
		for i := uint64(0); i < 6 && i < end; i++ {
			j := &Job{Prop: *prop, Seed: *seed, Index: i * 7, Trace: true, Thorough: thorough}
			if j.Index >= end {
				break
			}
			a := x.exec(j, hangWall)
			b := x.exec(&Job{Prop: *prop, Seed: *seed, Replay: true, Choices: a.Choices, ReplaySw: true, Switches: a.Switches, Thorough: thorough}, hangWall)
			if a.Harness != "" {
				fmt.Fprintln(os.Stderr, "HARNESS:", a.Harness)
				rc = 2
				break
			}
			det++
			if a.Class == b.Class && (len(a.Switches) > 0 || a.Hash == b.Hash) {
				same++
			}
			if len(samples) < 3 {
				samples = append(samples, map[string]interface{}{"seed": *seed, "run": j.Index, "choices": len(a.Choices), "steps": a.Steps, "trace": clipLines(a.Trace, 25)})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "violation reported, see replay file")
	}
	for i := range kf.Findings {
		if kf.Findings[i].Property == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", *prop, kf.Findings[i].What, tot.Known[kf.Findings[i].What])
		}
	}
	wallS := time.Since(t0).Seconds()
	faults, other := map[string]int64{}, map[string]int64{}
	for k, v := range tot.Stats {
		if strings.HasPrefix(k, "fault.") {
			faults[k[6:]] = v
		} else {
			other[k] = v
		}
	}
	var sites []struct{}
	json.Unmarshal(verifall.Sites, &sites)
	if f := os.Getenv("SIM_COVER"); f != "" {
		dumpCover(f, tot.cover)
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "wall_s": wallS, "violations": nviol,
		"coverage": map[string]interface{}{
			"evaluations": tot.Runs, "distinct_nontrivial": len(tot.hashes), "rule": w.Rule, "samples": samples,
			"runs_per_hour": int64(float64(tot.Runs) / wallS * 3600), "seeds_per_hour": int64(float64(tot.Runs) / wallS * 3600),
			"seed_rule":                 "run i uses the seed mix(VERIF_SEED, property, i); each run is one seed",
			"simulated_time":            fmt.Sprintf("%d simulated steps (instrumented statements executed under the simulator); the library has no timers, its clock reads go to a simulated clock", tot.Steps),
			"simulated_steps":           tot.Steps,
			"faults_injected":           faults,
			"counters":                  other,
			"distinct_states":           len(tot.states),
			"states_measure":            "distinct context-switch sequences of concurrent phases, and (sequential workloads) distinct content states reached",
			"library_sites_hit":         len(tot.cover),
			"library_sites":             len(sites),
			"real_components":           w.Real,
			"stub_components":           w.Stub,
			"replayed_in_fresh_process": det, "replayed_identically": same, "worker_deaths_not_reproduced": tot.deaths,
			"known_findings_seen": tot.Known,
		},
		"assumptions": []string{"scheduling points lie between statements of the library; a preemption inside one statement is only seen through the race detector",
			"encoding/xml, encoding/json, bufio and reflect are trusted and run unmodified"},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), js, 0o644)
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial), %d steps, %d faults, %.1fs, exit %d\n", *prop, *tier, tot.Runs, len(tot.hashes), tot.Steps, sum(faults), wallS, rc)
	return rc
}

func sum(m map[string]int64) (n int64) {
	for _, v := range m {
		n += v
	}
	return
}

func countSw(l [][]simrt.Switch) (n int) {
	for _, x := range l {
		n += len(x)
	}
	return
}

func clipLines(l []string, n int) []string {
	var out []string
	for i, s := range l {
		if i == n {
			out = append(out, fmt.Sprintf("... %d more", len(l)-n))
			break
		}
		out = append(out, clip2(s, 300))
	}
	return out
}

// confirm reproduces a violation in fresh processes and minimises it.
func (x *runner) confirm(prop string, seed, idx uint64, o Outcome, thorough bool, kf *findingsFile) (*replayFile, bool) {
	mk := func(c []uint32, sw [][]simrt.Switch) *Job {
		return &Job{Prop: prop, Seed: seed, Index: idx, Replay: true, Choices: c, ReplaySw: sw != nil, Switches: sw, Thorough: thorough}
	}
	wall := hangWall
	isHang := o.Class == "hang"
	// from the seed first
	var a Outcome
	ok := false
	for try := 0; try < 3 && !ok; try++ {
		a = x.exec(&Job{Prop: prop, Seed: seed, Index: idx, Thorough: thorough}, wall)
		ok = a.Class != "" && kf.match(prop, a.Class, a.Msg) == nil
	}
	if !ok {
		// try the recorded choices and switches
		a = x.exec(mk(o.Choices, nz(o.Switches)), wall)
		if a.Class == "" {
			return nil, false
		}
	}
	class := a.Class
	crashed := len(a.Choices) == 0 // process died: no record of its choices
	best, bestSw := a.Choices, a.Switches
	if crashed {
		rf := &replayFile{Property: prop, Class: class, Msg: a.Msg, Seed: seed, Index: idx, Thorough: thorough, Note: "the run ends its process; it is identified by seed and index"}
		return rf, true
	}
	deadline := time.Now().Add(40 * time.Second)
	if isHang {
		deadline = time.Now().Add(60 * time.Second)
		wall = 15 * time.Second
	}
	same := func(r Outcome) bool {
		return r.Harness == "" && r.Class == class && kf.match(prop, r.Class, r.Msg) == nil
	}
	useSw := len(a.Switches) > 0
	try := func(cands []*Job) (int, *Outcome) {
		outs := make([]Outcome, len(cands))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for i := range cands {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- struct{}{}
				outs[i] = x.exec(cands[i], wall)
				<-sem
			}(i)
		}
		wg.Wait()
		for i := range outs {
			if same(outs[i]) {
				return i, &outs[i]
			}
		}
		return -1, nil
	}
	swArg := func() [][]simrt.Switch {
		if useSw {
			return bestSw
		}
		return nil
	}
	// reproduce with explicit choices and switches
	if i, _ := try([]*Job{mk(best, swArg())}); i < 0 {
		useSw = false
		if i, _ := try([]*Job{mk(best, nil)}); i < 0 {
			return &replayFile{Property: prop, Class: class, Msg: a.Msg, Seed: seed, Index: idx, Thorough: thorough, Note: "not minimised; identified by seed and index"}, true
		}
	}
	accept := func(o *Outcome) bool {
		if len(o.Choices) < len(best) || len(o.Choices) == len(best) && lessSum(o.Choices, best) || len(o.Choices) <= len(best) && countSw(o.Switches) < countSw(bestSw) {
			best = o.Choices
			if useSw {
				bestSw = o.Switches
			}
			return true
		}
		return false
	}
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		// delete chunks
		for size := len(best) / 2; size >= 1 && time.Now().Before(deadline); size /= 2 {
			for pos := 0; pos < len(best) && time.Now().Before(deadline); {
				var cands []*Job
				var at []int
				for k := 0; k < 8 && pos+k*size < len(best); k++ {
					p := pos + k*size
					e := p + size
					if e > len(best) {
						e = len(best)
					}
					c := append(append([]uint32(nil), best[:p]...), best[e:]...)
					cands = append(cands, mk(c, swArg()))
					at = append(at, p)
				}
				i, o := try(cands)
				if i >= 0 && accept(o) {
					progress = true
					pos = at[i]
					continue
				}
				pos += 8 * size
			}
		}
		// zero choices
		for size := len(best) / 2; size >= 1 && time.Now().Before(deadline); size /= 2 {
			for pos := 0; pos < len(best) && time.Now().Before(deadline); {
				var cands []*Job
				var at []int
				for k := 0; len(cands) < 8 && pos+k*size < len(best); k++ {
					p := pos + k*size
					e := p + size
					if e > len(best) {
						e = len(best)
					}
					c := append([]uint32(nil), best...)
					nzv := false
					for q := p; q < e; q++ {
						nzv = nzv || c[q] != 0
						c[q] = 0
					}
					if nzv {
						cands = append(cands, mk(c, swArg()))
						at = append(at, p)
					}
				}
				if len(cands) == 0 {
					pos += 8 * size
					continue
				}
				i, o := try(cands)
				if i >= 0 && accept(o) {
					progress = true
					pos = at[i] + size
					continue
				}
				pos += 8 * size
			}
		}
		// remove context switches
		if useSw {
			for ph := range bestSw {
				for size := (len(bestSw[ph]) + 1) / 2; size >= 1 && time.Now().Before(deadline); size /= 2 {
					for pos := 0; ph < len(bestSw) && pos < len(bestSw[ph]) && time.Now().Before(deadline); {
						var cands []*Job
						var at []int
						for k := 0; k < 8 && pos+k*size < len(bestSw[ph]); k++ {
							p := pos + k*size
							e := p + size
							if e > len(bestSw[ph]) {
								e = len(bestSw[ph])
							}
							sw := append([][]simrt.Switch(nil), bestSw...)
							sw[ph] = append(append([]simrt.Switch(nil), bestSw[ph][:p]...), bestSw[ph][e:]...)
							cands = append(cands, mk(best, sw))
							at = append(at, p)
						}
						i, o := try(cands)
						if i >= 0 && countSw(o.Switches) < countSw(bestSw) {
							bestSw = o.Switches
							progress = true
							pos = at[i]
							continue
						}
						pos += 8 * size
					}
					if size == 1 {
						break
					}
				}
			}
		}
	}
	fin := mk(best, swArg())
	fin.Trace = true
	r1 := x.exec(fin, hangWall)
	r2 := x.exec(fin, hangWall)
	rf := &replayFile{Property: prop, Class: class, Msg: r1.Msg, Seed: seed, Index: idx, Choices: best, Switches: swArg(), Hash: r1.Hash, Trace: r1.Trace, Thorough: thorough}
	if !same(r1) || r1.Hash != r2.Hash {
		rf.Note = "replay differs between processes"
		rf.Msg = a.Msg
	} else {
		rf.Note = "replayed twice with identical event hash"
	}
	return rf, true
}

func nz(l [][]simrt.Switch) [][]simrt.Switch {
	if len(l) == 0 {
		return nil
	}
	return l
}

func lessSum(a, b []uint32) bool {
	var x, y uint64
	for _, v := range a {
		x += uint64(v)
	}
	for _, v := range b {
		y += uint64(v)
	}
	return x < y
}

func replayMain(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	dir, _ := os.MkdirTemp("", "simreplay")
	defer os.RemoveAll(dir)
	x := &runner{self: self, dir: dir}
	j := &Job{Prop: rf.Property, Seed: rf.Seed, Index: rf.Index, Trace: true, Thorough: rf.Thorough}
	if len(rf.Choices) > 0 {
		j.Replay, j.Choices, j.Switches, j.ReplaySw = true, rf.Choices, rf.Switches, len(rf.Switches) > 0
	}
	o := x.exec(j, hangWall)
	for _, l := range o.Trace {
		fmt.Println("  |", l)
	}
	if o.Harness != "" {
		fmt.Println(o.Harness)
		return 2
	}
	if o.Class == "" {
		fmt.Println("the violation does not occur")
		return 0
	}
	fmt.Printf("%s: %s\nsame class: %v, same event hash: %v\n", o.Class, o.Msg, o.Class == rf.Class, o.Hash == rf.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	return 1
}
