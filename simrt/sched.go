package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"
)

// The scheduler runs real goroutines one at a time. The baton (cur) is a plain
// variable accessed only from functions the race detector does not instrument,
// and waiting goroutines spin with Gosched under GOMAXPROCS(1): handing over
// the baton therefore creates no happens-before edge, so in a -race build the
// detector judges the library's own synchronisation on exactly the schedule
// the simulator chose. The scheduler uses fixed arrays only, because the
// runtime instruments maps and growing slices even in norace functions.

const (
	MaxTasks    = 16
	MaxSwitches = 1 << 17
)

// Switch is one scheduling decision: task Task, at its At-th scheduling point,
// handed over to task To. At is -1-count when it blocked or ended after count
// points.
type Switch struct {
	Task int16 `json:"t"`
	To   int16 `json:"to"`
	At   int32 `json:"at"`
}

// Config selects how schedules are generated.
type Config struct {
	Mode   int      `json:"mode"` // 0 run to block, 1 random, 2 priorities with change points, 3 replay
	Seed   uint64   `json:"seed"`
	P      uint32   `json:"p"`  // switch probability at ordinary points, in 1/65536
	PHot   uint32   `json:"ph"` // at points touching shared state
	Change [8]int32 `json:"-"`  // mode 2: global point counts at which the running task loses priority
	NCh    int      `json:"-"`
	Replay []Switch `json:"-"`
}

const (
	tRunnable = iota
	tBlocked
	tDone
)

type task struct {
	state   int32
	waitKey unsafe.Pointer
	count   int32
	prio    int32
	cursor  int32
	panicV  interface{}
	stack   []byte
}

// Sched is one concurrent simulated run.
type Sched struct {
	cur    int32
	n      int32
	alive  int32
	abort  bool
	dead   bool
	tasks  [MaxTasks]task
	rng    uint64
	cfg    Config
	points int64
	hots   int64
	nsw    int32
	over   bool
	log    [MaxSwitches]Switch
	// replay entries per task
	rep  [MaxTasks][]Switch
	wg   sync.WaitGroup
	hash uint64
	low  int32
	fns  [MaxTasks]func()

	stuck [MaxTasks]bool
}

var sched *Sched

// Result of a concurrent run.
type Result struct {
	Panics   []string // per task, "" if none
	Stacks   []string
	Deadlock bool
	Blocked  []int
	Switches []Switch
	Overflow bool
	Points   int64
	Hot      int64
	Hash     uint64 // identifies the interleaving
}

type abortPanic struct{}

//go:norace
func (s *Sched) rand() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Run executes the functions as simulated tasks.
func Run(cfg Config, limit int64, fns []func()) Result {
	s := new(Sched)
	s.cfg = cfg
	s.rng = cfg.Seed
	n := len(fns)
	if n > MaxTasks-2 {
		panic("simrt: too many tasks")
	}
	for _, r := range cfg.Replay {
		if r.Task >= 0 && int(r.Task) < MaxTasks {
			s.rep[r.Task] = append(s.rep[r.Task], r)
		}
	}
	s.cur = -1
	for i := 0; i < n; i++ {
		s.tasks[i].prio = int32(s.rand()>>40) + 1000
	}
	s.start(n, limit)
	for i := 0; i < n; i++ {
		s.wg.Add(1)
		go s.body(int32(i), fns[i])
	}
	s.kick()
	s.wg.Wait()
	return s.finish()
}

//go:norace
func (s *Sched) start(n int, limit int64) {
	s.n, s.alive = int32(n), int32(n)
	steps, stepLimit = 0, limit
	sched = s
	mode = 1
}

//go:norace
func (s *Sched) kick() {
	first := int32(0)
	switch s.cfg.Mode {
	case 1:
		first = int32(s.rand() % uint64(s.n))
	case 2:
		first = s.best()
	case 3:
		for i := range s.cfg.Replay {
			if s.cfg.Replay[i].Task == -1 {
				first = int32(s.cfg.Replay[i].To)
			}
		}
		if first < 0 || first >= s.n {
			first = 0
		}
	}
	s.record(-1, first, 0)
	s.cur = first
}

//go:norace
func (s *Sched) record(from, to, at int32) {
	if s.nsw < MaxSwitches {
		s.log[s.nsw] = Switch{int16(from), int16(to), at}
		s.nsw++
	} else {
		s.over = true
	}
	s.hash = mix(s.hash ^ uint64(uint32(from+1))<<40 ^ uint64(uint32(to))<<32 ^ uint64(uint32(at)))
}

func (s *Sched) finish() Result {
	r := Result{}
	s.collect(&r)
	return r
}

//go:norace
func (s *Sched) collect(r *Result) {
	mode = 0
	sched = nil
	r.Deadlock, r.Overflow, r.Points, r.Hot, r.Hash = s.dead, s.over, s.points, s.hots, s.hash
	for i := int32(0); i < s.n; i++ {
		t := &s.tasks[i]
		p, st := "", ""
		if t.panicV != nil {
			p = fmt.Sprint(t.panicV)
			if p == "" {
				p = "panic"
			}
			st = string(t.stack)
		}
		if s.stuck[i] {
			r.Blocked = append(r.Blocked, int(i))
		}
		r.Panics = append(r.Panics, p)
		r.Stacks = append(r.Stacks, st)
	}
	r.Switches = append(r.Switches, s.log[:s.nsw]...)
}

func (s *Sched) body(id int32, f func()) {
	defer s.wg.Done()
	s.wait(id)
	s.call(id, f)
	s.exit(id)
}

func (s *Sched) call(id int32, f func()) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(abortPanic); ok {
				return
			}
			s.setPanic(id, v, debug.Stack())
		}
	}()
	f()
}

//go:norace
func (s *Sched) setPanic(id int32, v interface{}, st []byte) {
	s.tasks[id].panicV = v
	s.tasks[id].stack = st
}

//go:norace
func (s *Sched) wait(id int32) {
	for s.cur != id {
		runtime.Gosched()
	}
}

//go:norace
func (s *Sched) best() int32 {
	b := int32(-1)
	for i := int32(0); i < s.n; i++ {
		if s.tasks[i].state == tRunnable && (b < 0 || s.tasks[i].prio > s.tasks[b].prio) {
			b = i
		}
	}
	return b
}

// pick chooses a runnable task other than id (forced hand-over); -1 if none.
//
//go:norace
func (s *Sched) pick(id int32) int32 {
	var l [MaxTasks]int32
	n := int32(0)
	for k := int32(1); k <= s.n; k++ {
		i := (id + k) % s.n
		if i != id && s.tasks[i].state == tRunnable {
			l[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	switch s.cfg.Mode {
	case 1:
		return l[s.rand()%uint64(n)]
	case 2:
		return s.best()
	case 3:
		t := &s.tasks[id]
		s.skip(id)
		if int(t.cursor) < len(s.rep[id]) && s.rep[id][t.cursor].At == -1-t.count {
			to := int32(s.rep[id][t.cursor].To)
			t.cursor++
			for i := int32(0); i < n; i++ {
				if l[i] == to {
					return to
				}
			}
		}
	}
	return l[0]
}

//go:norace
func (s *Sched) exit(id int32) {
	t := &s.tasks[id]
	t.state = tDone
	s.alive--
	if s.alive == 0 {
		return
	}
	s.forward(id)
}

// forward hands the baton on when the current task cannot continue.
//
//go:norace
func (s *Sched) forward(id int32) {
	to := s.pick(id)
	if to < 0 {
		// nobody can run: deadlock unless all are done
		s.dead = true
		s.abort = true
		for i := int32(0); i < s.n; i++ {
			if s.tasks[i].state == tBlocked {
				s.stuck[i] = true
				s.tasks[i].state = tRunnable
			}
		}
		for i := int32(0); i < s.n; i++ {
			if s.tasks[i].state == tRunnable {
				to = i
				break
			}
		}
		if to < 0 {
			return
		}
	}
	s.record(id, to, -1-s.tasks[id].count)
	s.cur = to
}

// skip passes recorded switches of earlier points.
//
//go:norace
func (s *Sched) skip(id int32) {
	t := &s.tasks[id]
	for int(t.cursor) < len(s.rep[id]) {
		at := s.rep[id][t.cursor].At
		if at < 0 {
			at = -1 - at
		}
		if at >= t.count {
			return
		}
		t.cursor++
	}
}

//go:norace
func (s *Sched) point(site int32, hot bool) {
	if s.abort {
		return
	}
	id := s.cur
	t := &s.tasks[id]
	t.count++
	s.points++
	if hot {
		s.hots++
	}
	to := int32(-1)
	switch s.cfg.Mode {
	case 1:
		p := s.cfg.P
		if hot {
			p = s.cfg.PHot
		}
		if p > 0 {
			r := s.rand()
			if uint32(r&0xffff) < p {
				var l [MaxTasks]int32
				n := int32(0)
				for i := int32(0); i < s.n; i++ {
					if i != id && s.tasks[i].state == tRunnable {
						l[n] = i
						n++
					}
				}
				if n > 0 {
					to = l[(r>>20)%uint64(n)]
				}
			}
		}
	case 2:
		for i := 0; i < s.cfg.NCh; i++ {
			c := s.cfg.Change[i]
			// positive: counted over hot points, negative: over all points
			if c > 0 && hot && int64(c) == s.hots || c < 0 && int64(-c) == s.points {
				s.low--
				t.prio = s.low
			}
		}
		if b := s.best(); b != id {
			to = b
		}
	case 3:
		s.skip(id)
		if int(t.cursor) < len(s.rep[id]) && s.rep[id][t.cursor].At == t.count {
			x := int32(s.rep[id][t.cursor].To)
			if x >= 0 && x < s.n && x != id && s.tasks[x].state == tRunnable {
				to = x
				t.cursor++
			}
		}
	}
	if to >= 0 {
		s.record(id, to, t.count)
		s.cur = to
		s.wait(id)
		if s.abort {
			s.aborted()
		}
	}
}

func (s *Sched) aborted() {}

// Active reports whether a concurrent simulation is running.
//
//go:norace
func Active() bool { return sched != nil }

// Aborting reports whether the run is being torn down after a deadlock.
//
//go:norace
func Aborting() bool { return sched != nil && sched.abort }

// Block parks the current task until Unblock(key). Outside a concurrent run
// it panics: nobody could ever wake the caller.
//
//go:norace
func Block(key unsafe.Pointer) {
	s := sched
	if s == nil {
		panic("deadlock: blocked forever on a lock this goroutine holds")
	}
	if s.abort {
		panic(abortPanic{})
	}
	id := s.cur
	t := &s.tasks[id]
	t.state = tBlocked
	t.waitKey = key
	s.forward(id)
	s.wait(id)
	if s.abort {
		panic(abortPanic{})
	}
}

// Unblock makes all tasks parked on key runnable.
//
//go:norace
func Unblock(key unsafe.Pointer) {
	s := sched
	if s == nil {
		return
	}
	for i := int32(0); i < s.n; i++ {
		t := &s.tasks[i]
		if t.state == tBlocked && t.waitKey == key {
			t.state = tRunnable
			t.waitKey = nil
		}
	}
}

// Point is a scheduling point for harness code (always hot).
//
//go:norace
func Point() {
	if mode != 0 {
		point(-1, true)
	}
}

// Seq returns the global event number, a total order of scheduling points.
//
//go:norace
func Seq() int64 { return steps }

// CurTask is the running task.
//
//go:norace
func CurTask() int { return int(sched.cur) }

// Go starts f as a further task (or a real goroutine outside a concurrent run).
//
//go:norace
func Go(f func()) {
	s := sched
	if s == nil {
		f()
		return
	}
	if s.n >= MaxTasks {
		panic("simrt: too many tasks")
	}
	id := s.n
	s.tasks[id].prio = int32(s.rand()>>40) + 1000
	s.n++
	s.alive++
	s.wg.Add(1)
	go s.body(id, f)
}
