package main

// C01: documents used by different goroutines do not affect each other.

import (
	"strings"

	"verif.local/sim/simrt"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C01", Run: runC01, Race: true, Quick: 700, Limit: 60_000_000,
		Rule: "one run = two to four tasks, each with its own generated history on its own documents (loads, listings, edits, merges, removals, syncs, saves with failing destinations, closes), executed alone and then concurrently under one schedule, in a race-detector build; every observation of a task is compared with its lone execution; non-trivial when the schedule switched between tasks while two of them were unfinished",
		Real: "all loading, editing, merging, removal, sync and saving code, all models, node recycling, namespace registry, sync primitives of the library (simulated blocking, real happens-before)", Stub: "goroutine scheduler, clock, destinations, map iteration order (fixed)"})
}

// taskURI gives each task its own unknown namespaces, under the same prefixes.
func taskURI(t int) func(i int) string {
	return func(i int) string {
		return "http://sim.example/t" + string(rune('0'+t)) + "/" + string(rune('a'+i)) + "/"
	}
}

// sub makes the context of one task.
func (r *R) sub(src *Src, t int) *R {
	return &R{Src: src, prop: r.prop, stats: map[string]int64{}, thorough: r.thorough, uniq: t * 1000}
}

// program is what one task does.
type program func(r *R, t int) *orderRun

// guard runs a program as a task; violations inside stay with the task.
func guard(f func(), bad **violation) func() {
	return func() {
		defer func() {
			if v := recover(); v != nil {
				if e, ok := v.(violation); ok {
					*bad = &e
					return
				}
				panic(v)
			}
		}()
		f()
	}
}

// loneAndTogether runs the programs alone, one after the other, and then
// concurrently, and compares what they saw.
func (r *R) loneAndTogether(ps []program, warm bool, before func()) {
	n := len(ps)
	segs := make([][]uint32, n)
	lone := make([]*orderRun, n)
	for t, p := range ps {
		reinit()
		simrt.SetMapOrder(0)
		if before != nil {
			before()
		}
		start := len(r.rec)
		s := r.sub(r.Src, t)
		s.tracing = r.tracing
		r.Logf("task %d alone:", t)
		lone[t] = p(s, t)
		lone[t].render()
		for _, l := range s.tr {
			r.tr = append(r.tr, "  "+l)
		}
		r.h = mix64(r.h ^ s.h)
		segs[t] = append([]uint32(nil), r.rec[start:]...)
	}
	if !warm {
		reinit()
	}
	simrt.SetMapOrder(0)
	if before != nil {
		before()
	}
	runs := make([]*orderRun, n)
	bad := make([]*violation, n)
	fns := make([]func(), n)
	subs := make([]*R, n)
	for t, p := range ps {
		subs[t] = r.sub(&Src{replay: segs[t], replaying: true}, t)
		subs[t].quiet = true
		fns[t] = guard(func() { runs[t] = p(subs[t], t) }, &bad[t])
	}
	res := r.Concurrent(w01Limit, fns)
	r.checkTasks(res)
	r.Logf("together: %d switches", len(res.Switches))
	for t := range ps {
		for k, v := range subs[t].stats {
			r.stats[k] += v
		}
		if bad[t] != nil {
			r.Fail("task-"+bad[t].class, "task %d, which succeeds alone: %s", t, bad[t].msg)
		}
		runs[t].render()
		for j := range lone[t].steps {
			a, b := lone[t].steps[j], "nothing"
			if j < len(runs[t].steps) {
				b = runs[t].steps[j]
			}
			if a == b {
				continue
			}
			what := a
			if k := strings.IndexByte(a, ':'); k > 0 {
				what = a[:k]
			}
			r.Fail("differs-"+strings.Fields(what)[0], "task %d, step %d (%s), alone (first) and with %d other tasks (second): %s", t, j, what, n-1, firstDiff(a, b))
		}
		if len(runs[t].steps) > len(lone[t].steps) {
			r.Fail("differs-length", "task %d makes %d observations alone and %d with others", t, len(lone[t].steps), len(runs[t].steps))
		}
		r.Count("observations", int64(len(lone[t].steps)))
	}
	if len(res.Switches) >= n {
		r.nontrivial = true
	}
	r.Count("tasks", int64(n))
}

const w01Limit = 60_000_000

func runC01(r *R) {
	loadData()
	loadMirrors()
	n := 2 + r.N(3)
	var ps []program
	reg := r.N(4) == 3
	for t := 0; t < n; t++ {
		if reg && t == n-1 {
			ps = append(ps, registrar)
			continue
		}
		ps = append(ps, func(r *R, t int) *orderRun {
			return r.orderHistory(&histOpt{uri: taskURI(t), own: true, n: 5})
		})
	}
	r.loneAndTogether(ps, r.N(3) == 0, nil)
}

// registrar adds namespaces that no document uses.
func registrar(r *R, t int) *orderRun {
	o := &orderRun{}
	var l []*xmp.Namespace
	for i, n := 0, 1+r.N(12); i < n; i++ {
		ns := &xmp.Namespace{Name: "rg" + string(rune('a'+i)), URI: "http://sim.example/reg/" + string(rune('a'+i)) + "/", Factory: func(string) xmp.Model { return nil }}
		var groups []xmp.NamespaceGroup
		for j := r.N(3); j > 0; j-- {
			groups = append(groups, pick(r.Src, []xmp.NamespaceGroup{xmp.ImageMetadata, xmp.XmpMetadata, "simgroup"}))
		}
		xmp.Register(ns, groups...)
		l = append(l, ns)
		x := pick(r.Src, l)
		got, err := xmp.GetNamespace(x.Name)
		o.note("get %s: %v %v %s", x.Name, got == x, errStr(err), xmp.NsRegistry.GetPrefix(x.URI))
		all := false
		for _, y := range xmp.NsRegistry.Namespaces() {
			all = all || y == ns
		}
		for _, g := range groups {
			gl, err := xmp.GetGroupNamespaces(g)
			k := false
			for _, y := range gl {
				k = k || y == ns
			}
			o.note("group %s: %v %v", g, k, errStr(err))
		}
		o.note("registered: %v", all)
	}
	r.Logf("registers %d namespaces", len(l))
	return o
}
