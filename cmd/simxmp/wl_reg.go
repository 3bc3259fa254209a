package main

// C02: registry operations are linearizable.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C02", Run: runC02, Race: true, Quick: 40000,
		Rule: "one run = two to six tasks with three to eight registry operations each (registrations and re-registrations of custom namespaces with groups, lookups by prefix and URI, listings whose results the caller then overwrites) under one schedule in a race-detector build, the recorded history checked for linearizability against a sequential registry; non-trivial when two operations of different tasks overlap and one of them is a registration",
		Real: "namespace registry, its lock (simulated blocking, real happens-before), namespace groups", Stub: "goroutine scheduler, map iteration order"})
}

const (
	rRegister = iota
	rName
	rURI
	rShort
	rAll
	rPrefixes
	rGroup
	rGroup2
	rIn
	rFind
)

var regOps = []string{"register", "lookup of prefix", "lookup of URI", "short name of", "list of namespaces", "list of prefixes", "list of group", "namespaces of group", "is in group", "lookup in new document"}

type regOp struct {
	task, kind int
	ns         *xmp.Namespace
	id         string
	arg        string
	groups     []xmp.NamespaceGroup
	call, ret  int64
	out        string
	rawNS      *xmp.Namespace
	rawList    xmp.NamespaceList
	rawStrs    []string
	rawErr     bool
	rawStr     string
	rawBool    bool
}

func (o *regOp) String() string {
	a := o.arg
	if o.kind == rRegister {
		a = fmt.Sprintf("%s %s=%s %v", o.id, o.ns.Name, o.ns.URI, o.groups)
	}
	return fmt.Sprintf("[%d..%d] task %d: %s %s -> %s", o.call, o.ret, o.task, regOps[o.kind], a, o.out)
}

var regClock int64

//go:norace
func regTick() int64 { regClock++; return regClock }

// do performs the operation; results are only stored, texts are made later.
func (o *regOp) do() {
	c := regTick()
	switch o.kind {
	case rRegister:
		if o.task%2 == 0 {
			xmp.Register(o.ns, o.groups...)
		} else {
			xmp.NsRegistry.RegisterNamespace(o.ns, o.groups)
		}
	case rName:
		var err error
		if o.task%2 == 0 {
			o.rawNS, err = xmp.GetNamespace(o.arg)
		} else {
			o.rawNS, err = xmp.NsRegistry.GetNamespace(o.arg)
		}
		o.rawErr = err != nil
	case rFind:
		o.rawNS = xmp.NewDocument().FindNs(o.arg+":x", "")
		o.rawErr = o.rawNS == nil
	case rURI:
		o.rawStr = xmp.NsRegistry.GetPrefix(o.arg)
	case rShort:
		o.rawStr = xmp.NsRegistry.Short(o.arg, "x")
	case rAll:
		o.rawList = append(o.rawList, xmp.NsRegistry.Namespaces()...)
	case rPrefixes:
		o.rawStrs = append(o.rawStrs, xmp.NsRegistry.Prefixes()...)
	case rGroup, rGroup2:
		var l xmp.NamespaceList
		if o.kind == rGroup {
			x, err := xmp.GetGroupNamespaces(xmp.NamespaceGroup(o.arg))
			l, o.rawErr = x, err != nil
		} else {
			l = xmp.NamespaceGroup(o.arg).Namespaces()
			o.rawErr = l == nil
		}
		o.rawList = append(o.rawList, l...)
		// the list belongs to the caller
		for i := range l {
			l[i] = regJunk
		}
		if len(l) > 0 {
			l = append(l[:len(l)-1], regJunk, regJunk)
		}
		if cap(l) > len(l) {
			l[:cap(l)][len(l)] = regJunk
		}
	case rIn:
		o.rawBool = xmp.NamespaceGroup(o.arg).Contains(o.ns)
	}
	o.call, o.ret = c, regTick()
}

var regJunk = &xmp.Namespace{Name: "junk", URI: "http://sim.example/junk/"}

// regWorld knows the built-in entries and the custom ones.
type regWorld struct {
	ids     map[*xmp.Namespace]string
	builtin map[string]string // what listings hold besides custom entries
}

func (w *regWorld) list(what string, l xmp.NamespaceList) (custom string, rest string) {
	c, b := map[string]bool{}, map[string]bool{}
	for _, n := range l {
		if n == nil {
			b["nil"] = true
		} else if id, ok := w.ids[n]; ok {
			c[id] = true
		} else {
			b[n.GetName()+"="+n.GetURI()] = true
		}
	}
	return strings.Join(sortedSet(c), " "), strings.Join(sortedSet(b), " ")
}

// result turns raw results into comparable text.
func (w *regWorld) result(o *regOp) {
	switch o.kind {
	case rRegister:
		o.out = "done"
	case rName, rFind:
		switch {
		case o.rawErr:
			o.out = "none"
		case w.ids[o.rawNS] != "":
			o.out = w.ids[o.rawNS]
		default:
			o.out = "builtin " + o.rawNS.GetName()
		}
	case rURI, rShort:
		o.out = o.rawStr
	case rAll, rGroup, rGroup2:
		c, b := w.list("", o.rawList)
		key := "all"
		if o.kind != rAll {
			key = "group " + o.arg
		}
		if b != w.builtin[key] {
			c += " !! " + firstDiff(w.builtin[key], b)
		}
		if o.rawErr && len(o.rawList) == 0 {
			c = "none"
		}
		o.out = c
	case rPrefixes:
		c, b := map[string]bool{}, map[string]bool{}
		for _, p := range o.rawStrs {
			if strings.HasPrefix(p, "cx") {
				c[p] = true
			} else {
				b[p] = true
			}
		}
		o.out = strings.Join(sortedSet(c), " ")
		if x := strings.Join(sortedSet(b), " "); x != w.builtin["prefixes"] {
			o.out += " !! " + firstDiff(w.builtin["prefixes"], x)
		}
	case rIn:
		o.out = fmt.Sprint(o.rawBool)
	}
}

// regState is the sequential registry, custom part only.
type regState struct {
	name, uri map[string]string // -> id
	group     map[string]string // -> ids
}

func (s *regState) clone() *regState {
	n := &regState{map[string]string{}, map[string]string{}, map[string]string{}}
	for k, v := range s.name {
		n.name[k] = v
	}
	for k, v := range s.uri {
		n.uri[k] = v
	}
	for k, v := range s.group {
		n.group[k] = v
	}
	return n
}

func (s *regState) key() string {
	var b strings.Builder
	for _, m := range []map[string]string{s.name, s.uri, s.group} {
		for _, k := range sortedKeys(m) {
			b.WriteString(k + "=" + m[k] + ";")
		}
	}
	return b.String()
}

// apply gives the state after o, or nil when o cannot have this result here.
func (s *regState) apply(o *regOp, nss map[string]*xmp.Namespace, builtin map[string]string) *regState {
	want := ""
	switch o.kind {
	case rRegister:
		n := s.clone()
		n.name[o.ns.Name] = o.id
		n.uri[o.ns.URI] = o.id
		for _, g := range o.groups {
			if g == xmp.NoMetadata {
				continue
			}
			m := map[string]bool{o.id: true}
			for _, x := range strings.Fields(n.group[string(g)]) {
				m[x] = true
			}
			n.group[string(g)] = strings.Join(sortedSet(m), " ")
		}
		return n
	case rName, rFind:
		want = s.name[o.arg]
		if want == "" {
			want = "none"
		}
	case rURI, rShort:
		if id := s.uri[o.arg]; id != "" {
			want = nss[id].Name
			if o.kind == rShort {
				want += ":x"
			}
		} else if o.kind == rShort {
			want = "x"
		}
	case rAll:
		m := map[string]bool{}
		for _, id := range s.uri {
			m[id] = true
		}
		want = strings.Join(sortedSet(m), " ")
	case rPrefixes:
		want = strings.Join(sortedKeys(s.name), " ")
	case rGroup, rGroup2:
		want = s.group[o.arg]
		if want == "" && builtin["group "+o.arg] == "" {
			want = "none"
		}
	case rIn:
		in := false
		for _, id := range strings.Fields(s.group[o.arg]) {
			in = in || nss[id].Name == o.ns.Name
		}
		want = fmt.Sprint(in)
	}
	if o.out != want {
		return nil
	}
	return s
}

// linearizable looks for an order of the operations that is consistent with
// real time and explains all results.
func linearizable(ops []*regOp, nss map[string]*xmp.Namespace, builtin map[string]string) bool {
	seen := map[string]bool{}
	done := make([]bool, len(ops))
	var try func(left int, s *regState) bool
	try = func(left int, s *regState) bool {
		if left == 0 {
			return true
		}
		k := fmt.Sprint(done) + s.key()
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int64(1) << 62 // an operation may come next if none of the others ended before it began
		for i, o := range ops {
			if !done[i] && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if done[i] || o.call > first {
				continue
			}
			if n := s.apply(o, nss, builtin); n != nil {
				done[i] = true
				if try(left-1, n) {
					return true
				}
				done[i] = false
			}
		}
		return false
	}
	return try(len(ops), &regState{map[string]string{}, map[string]string{}, map[string]string{}})
}

func runC02(r *R) {
	regClock = 0
	w := &regWorld{map[*xmp.Namespace]string{}, map[string]string{}}
	groups := []string{"image", "xmp", "cxgroup", "cxother", "vfx"}
	for _, g := range groups {
		l, _ := xmp.GetGroupNamespaces(xmp.NamespaceGroup(g))
		_, w.builtin["group "+g] = w.list("", l)
	}
	_, w.builtin["all"] = w.list("", xmp.NsRegistry.Namespaces())
	p := append([]string(nil), xmp.NsRegistry.Prefixes()...)
	sort.Strings(p)
	w.builtin["prefixes"] = strings.Join(p, " ")

	nnames := 1 + r.N(4)
	shared := r.N(3) == 0 // prefixes and URIs are paired freely
	nss := map[string]*xmp.Namespace{}
	mk := func() *xmp.Namespace {
		i := r.N(nnames)
		j := i
		if shared {
			j = r.N(nnames)
		}
		id := fmt.Sprintf("ns%d", len(nss))
		n := xmp.NewNamespace(fmt.Sprintf("cx%d", i), fmt.Sprintf("http://sim.example/cx/%d/", j), nil)
		nss[id] = n
		w.ids[n] = id
		return n
	}
	var known []*xmp.Namespace
	draw := func(task int) *regOp {
		o := &regOp{task: task}
		if r.N(3) == 0 || len(known) == 0 {
			o.kind = rRegister
			if len(known) > 0 && r.N(5) == 4 {
				o.ns = pick(r.Src, known) // again
			} else {
				o.ns = mk()
				known = append(known, o.ns)
			}
			o.id = w.ids[o.ns]
			for i, n := 0, r.N(3); i < n; i++ {
				o.groups = append(o.groups, xmp.NamespaceGroup(pick(r.Src, append(groups, ""))))
			}
			return o
		}
		o.kind = 1 + r.N(9)
		o.ns = pick(r.Src, known)
		switch o.kind {
		case rName, rFind:
			o.arg = o.ns.Name
		case rURI, rShort:
			o.arg = o.ns.URI
		case rGroup, rGroup2, rIn:
			o.arg = pick(r.Src, groups)
		}
		if o.kind == rGroup || o.kind == rGroup2 || o.kind == rAll {
			o.rawList = make(xmp.NamespaceList, 0, 200)
		}
		if o.kind == rPrefixes {
			o.rawStrs = make([]string, 0, 200)
		}
		return o
	}
	nt := 2 + r.N(5)
	var all []*regOp
	tasks := make([][]*regOp, nt)
	n := 3 + r.N(6)
	for i := 0; i < n; i++ {
		for t := range tasks {
			tasks[t] = append(tasks[t], draw(t))
		}
	}
	var pre []*regOp
	for i := r.N(4); i > 0; i-- { // history before the tasks start
		o := draw(nt)
		o.do()
		pre = append(pre, o)
	}
	fns := make([]func(), nt)
	for t := range tasks {
		l := tasks[t]
		fns[t] = func() {
			for _, o := range l {
				o.do()
			}
		}
	}
	res := r.Concurrent(2_000_000, fns)
	r.checkTasks(res)
	all = append(all, pre...)
	for _, l := range tasks {
		all = append(all, l...)
	}
	// what is registered in the end
	final := func(kind int, arg string, ns *xmp.Namespace) {
		o := &regOp{task: nt + 1, kind: kind, arg: arg, ns: ns}
		o.do()
		all = append(all, o)
	}
	for i := 0; i < nnames; i++ {
		final(rName, fmt.Sprintf("cx%d", i), nil)
		final(rURI, fmt.Sprintf("http://sim.example/cx/%d/", i), nil)
	}
	final(rAll, "", nil)
	final(rPrefixes, "", nil)
	for _, g := range groups {
		final(rGroup, g, nil)
	}
	for _, o := range all {
		w.result(o)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].call < all[j].call })
	overlap := false
	for i, a := range all {
		r.Logf("%s", a)
		for _, b := range all[i+1:] {
			if b.call < a.ret && (a.kind == rRegister || b.kind == rRegister) {
				overlap = true
			}
		}
	}
	r.nontrivial = overlap
	r.Count("operations", int64(len(all)))
	for _, o := range all {
		if strings.Contains(o.out, "!!") {
			r.Fail("foreign", "entries the operations do not account for: %s", o)
		}
	}
	if !linearizable(all, nss, w.builtin) {
		var b strings.Builder
		for _, o := range all {
			fmt.Fprintf(&b, "\n%s", o)
		}
		r.Fail("not-linearizable", "no order of the %d operations explains their results:%s", len(all), b.String())
	}
}
