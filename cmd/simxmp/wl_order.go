package main

// C05: results do not depend on the iteration order of hash maps.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"strings"

	"verif.local/sim/simrt"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C05", Run: runC05, Quick: 5000,
		Rule: "one run = one generated history (loads, edits, merges, removals, syncs, saves, restarts) executed in full under three to six iteration orders of all hash maps and compared step by step; non-trivial when the history has a save of two or more properties",
		Real: "all loading, editing, merging, removal, sync and saving code, all models", Stub: "hash map iteration order (chosen by the simulator), process (state reset before each execution)"})
}

type orderRun struct {
	raw   []func() string
	steps []string
	big   bool
	weird bool // malformed paths may have made names that are not XML
	saves int
}

// note records a step; texts are made afterwards, so that concurrent runs do
// not synchronise in the harness.
func (o *orderRun) note(f string, a ...interface{}) {
	o.raw = append(o.raw, func() string {
		for i, x := range a {
			if g, ok := x.(func() string); ok {
				a[i] = g()
			}
		}
		return fmt.Sprintf(f, a...)
	})
}

func (o *orderRun) render() {
	for _, f := range o.raw {
		o.steps = append(o.steps, f())
	}
	o.raw = nil
}

// histOpt adapts histories to their use.
type histOpt struct {
	uri   func(i int) string // unknown namespaces
	weird bool               // malformed paths
	own   bool               // no other task may be affected: no process restart
	n     int                // most steps
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return "refused"
}

func runC05(r *R) {
	loadData()
	main := r.Src
	var first *orderRun
	start := len(main.rec)
	n := 3 + r.N(2)
	if r.thorough {
		n = 4 + r.N(3)
	}
	orders := []uint64{0, 1}
	for len(orders) < n {
		orders = append(orders, 2+uint64(r.N(1<<30)))
	}
	start = len(main.rec)
	tracing, uniq := r.tracing, r.uniq
	for i, o := range orders {
		reinit()
		simrt.SetMapOrder(o)
		r.uniq = uniq
		if i > 0 {
			r.Src = &Src{replay: main.rec[start:], replaying: true}
			r.tracing = false
		}
		run := r.orderHistory(&histOpt{uri: unkURI, weird: true, n: 10})
		run.render()
		r.Src, r.tracing = main, tracing
		if first == nil {
			first = run
			continue
		}
		for j := range first.steps {
			a := first.steps[j]
			b := "nothing"
			if j < len(run.steps) {
				b = run.steps[j]
			}
			if a == b {
				continue
			}
			what := a
			if k := strings.IndexByte(a, ':'); k > 0 {
				what = a[:k]
			}
			r.Fail("order-"+strings.Fields(what)[0], "step %d (%s) depends on the iteration order of hash maps: with order 0 (first) and order %d (second): %s", j, what, o, firstDiff(a, b))
		}
		r.Count("executions", 1)
	}
	if first.big {
		r.nontrivial = true
	}
}

func (r *R) orderHistory(opt *histOpt) *orderRun {
	o := &orderRun{}
	gen := func() []Prop {
		return r.genProps(&GenOpt{InKnown: true, N: 1 + r.Small(16), Unknown: pick(r.Src, []int{0, 1, 3, 8}), NUnknown: 5, UnkURI: opt.uri, SameLang: true})
	}
	var docs []*xmp.Document
	var stored [][]byte
	load := func(b []byte) {
		d := &xmp.Document{}
		err := xmp.Unmarshal(b, d)
		o.note("load: %v", errStr(err))
		if err != nil {
			r.Fail("load-error", "Unmarshal: %v", err)
		}
		docs = append(docs, d)
	}
	list := func(d *xmp.Document) []string {
		pv, err := d.ListPaths()
		var l []string
		for _, p := range pv {
			l = append(l, string(p.Path))
		}
		o.note("listing: %v\n%s", errStr(err), func() string {
			var b strings.Builder
			for _, p := range pv {
				fmt.Fprintf(&b, "%s = %q\n", p.Path, p.Value)
			}
			return b.String()
		})
		return l
	}
	paths := map[*xmp.Document][]string{}
	look := func(d *xmp.Document) {
		paths[d] = list(d)
		var b strings.Builder
		for _, p := range paths[d] {
			v, err := d.GetPath(xmp.Path(p))
			b.WriteString(p + " = " + v + " " + errStr(err) + "\n")
		}
		o.note("values: %s", b.String())
		ns := map[string]bool{}
		for _, n := range d.Namespaces() {
			ns[n.GetName()+"="+n.GetURI()] = true
		}
		o.note("namespaces: %s", strings.Join(sortedSet(ns), "\n"))
	}
	storedText := func(what string, b []byte) {
		o.saves++
		weird := o.weird
		o.note("%s: %s", what, func() string {
			q, err := refParse(b)
			if err != nil && weird {
				return "unreadable"
			}
			if err != nil {
				r.Fail("unreadable", "saved data: %v", err)
			}
			if len(q) > 1 {
				o.big = true
			}
			if x := badDecl(b); x != "" && !weird {
				r.Fail("declarations", "saved data: %s", x)
			}
			var s strings.Builder
			fmt.Fprintf(&s, "%d bytes\n", len(b))
			l := canonLeaves(q, false)
			for _, k := range sortedKeys(l) {
				fmt.Fprintf(&s, "%s = %q\n", shortURI(k), l[k])
			}
			return s.String()
		})
	}
	jsonText := func(b []byte) {
		o.saves++
		o.note("json: %s", func() string {
			var v interface{}
			if err := json.Unmarshal(b, &v); err != nil {
				r.Fail("unreadable", "saved JSON: %v", err)
			}
			var s strings.Builder
			fmt.Fprintf(&s, "%d bytes\n", len(b))
			dumpJSON("", v, &s)
			return s.String()
		})
	}
	for i, m := 0, 1+r.N(2); i < m; i++ {
		props := gen()
		b := writePacket(props, r.style(), r.N(2) == 0, r.N(2) == 1)
		r.Logf("document %d: %s", i, describe(props))
		if r.tracing {
			r.Logf("xml %s", clip2(string(b), 3000))
		}
		load(b)
		look(docs[i])
	}
	n := 2 + r.Small(opt.n)
	weird := opt.weird && r.N(3) == 2
	kinds := 14
	if opt.own {
		kinds = 16
	}
	for i := 0; i < n; i++ {
		k := r.N(kinds)
		di := r.N(len(docs))
		d := docs[di]
		switch {
		case k < 3: // any edit
			pv := xmp.PathValue{Flags: r.anyFlags()}
			if weird {
				pv.Path = r.anyPath(paths[d])
				o.weird = true
			} else {
				pv.Path = r.plainPath(paths[d])
			}
			pv.Value = pick(r.Src, []string{r.text(), "", "1", "2020-01-02T03:04:05Z", "1/2"})
			if r.N(3) == 2 {
				pv.Namespace = opt.uri(r.N(6))
			}
			err := d.SetPath(pv)
			r.Logf("SetPath(%s = %q, %s, ns %q): %v", clip(string(pv.Path)), clip(pv.Value), flagStr(pv.Flags), pv.Namespace, err)
			o.note("edit: %v", errStr(err))
		case k < 5: // new property of some namespace
			ps := gen()
			w := wantListing(ps)
			for _, key := range sortedKeys(Leaves(w)) {
				pv := xmp.PathValue{Path: r.rawPath(d, key), Value: w[key], Flags: r.anyFlags()}
				pv.Namespace = key[1:strings.IndexByte(key, '}')]
				if pv.Path[0] == ':' {
					pv.Path = "u" + xmp.Path(pv.Namespace[len(pv.Namespace)-2:len(pv.Namespace)-1]) + pv.Path
				}
				err := d.SetPath(pv)
				r.Logf("SetPath(%s = %q, %s, ns %q): %v", clip(string(pv.Path)), clip(pv.Value), flagStr(pv.Flags), pv.Namespace, err)
				o.note("create: %s %v", pv.Path, errStr(err))
			}
		case k == 5 && len(docs) > 1:
			f := r.anyFlags()
			err := d.Merge(docs[1-di], f)
			r.Logf("merge %d <- %d, %s: %v", di, 1-di, flagStr(f), err)
			o.note("merge: %v", errStr(err))
			look(docs[1-di])
		case k == 6:
			var names []string
			have := map[string]bool{}
			for _, p := range paths[d] {
				if j := strings.IndexByte(p, ':'); j > 0 && !have[p[:j]] {
					have[p[:j]] = true
					names = append(names, p[:j])
				}
			}
			sortStrings(names)
			names = append(names, "dc", "nosuch", "xmpMM")
			x := pick(r.Src, names)
			var ok bool
			switch r.N(3) {
			case 0:
				ok = d.RemoveNamespaceByName(x)
				r.Logf("remove %s: %v", x, ok)
			case 1:
				f := xmp.ParseFilter("-" + x + "," + pick(r.Src, []string{"-image", "sound", "+movie", "-" + pick(r.Src, names)}))
				ok = f.Apply(d)
				r.Logf("filter %s: %v", f, ok)
			default:
				var l xmp.NamespaceList
				for j, m := 0, 1+r.N(6); j < m; j++ {
					if ns := d.FindNs(pick(r.Src, names), ""); ns != nil {
						l = append(l, ns)
					}
				}
				ok = d.FilterNamespaces(l)
				r.Logf("keep %d namespaces: %v", len(l), ok)
			}
			o.note("removal: %v", ok)
		case k == 7:
			err := d.SyncModels()
			r.Logf("SyncModels: %v", err)
			o.note("sync: %v", errStr(err))
		case k == 8:
			if len(paths[d]) > 0 {
				s, t := pick(r.Src, paths[d]), pick(r.Src, paths[d])
				f := r.anyFlags()
				err := d.Sync(xmp.Path(s), xmp.Path(t), f, nil, nil)
				r.Logf("Sync(%s, %s, %s): %v", s, t, flagStr(f), err)
				o.note("sync: %v", errStr(err))
			}
		case k <= 10:
			so := r.saveOpt()
			if so.flags&xmp.Xpadding != 0 {
				so.max = 100000
			}
			b, _, err := so.save(d, &WritePlan{})
			r.Logf("XMP save: %v", err)
			if err != nil {
				o.note("saved: %v", errStr(err))
				break
			}
			storedText("saved", b)
			stored = append(stored, b)
			if r.N(2) == 1 {
				r.Logf("restart")
				d = &xmp.Document{}
				err := xmp.Unmarshal(b, d)
				o.note("reload: %v", errStr(err))
				if err != nil {
					d = xmp.NewDocument()
				}
				docs[di] = d
				if r.tracing {
					r.Logf("saved %s", clip2(string(b), 3000))
				}
			}
		case k <= 12:
			b, err := json.Marshal(d)
			r.Logf("JSON save: %v", err)
			if err != nil {
				o.note("json: %v", errStr(err))
				break
			}
			jsonText(b)
			if r.N(3) != 0 {
				r.Logf("restart")
				if !opt.own && r.N(2) == 1 {
					reinit() // all other documents are gone
					docs = []*xmp.Document{nil}
					di = 0
				}
				d = &xmp.Document{}
				err := json.Unmarshal(b, d)
				o.note("reload: %v", errStr(err))
				if err != nil {
					d = xmp.NewDocument()
				}
				docs[di] = d
				if r.tracing {
					r.Logf("json %s", clip2(string(b), 3000))
				}
			}
		case k > 13: // end of a document, others follow
			d.Close()
			o.note("closed")
			r.Logf("close %d", di)
			delete(paths, d)
			d = &xmp.Document{}
			var b []byte
			if len(stored) > 0 && r.N(2) == 1 {
				b = stored[r.N(len(stored))]
			} else {
				b = writePacket(gen(), r.style(), true, false)
			}
			err := xmp.Unmarshal(b, d)
			o.note("load: %v", errStr(err))
			if err != nil {
				d = xmp.NewDocument()
			}
			docs[di] = d
		default:
			if len(docs) < 2 && r.N(2) == 1 {
				if len(stored) > 0 && r.N(2) == 1 {
					load(stored[r.N(len(stored))])
				} else {
					load(writePacket(gen(), r.style(), true, false))
				}
				d = docs[len(docs)-1]
			} else {
				x, _, _ := (&SaveOpt{}).save(d, &WritePlan{})
				p := r.writePlan(len(x))
				_, _, err := (&SaveOpt{}).save(d, p)
				r.Logf("save to destination with %v: %v", p, err)
				o.note("failing save: %v", errStr(err))
			}
		}
		look(d)
	}
	for _, d := range docs {
		b, _, err := (&SaveOpt{}).save(d, &WritePlan{})
		if err != nil {
			o.note("final: %v", errStr(err))
			continue
		}
		storedText("final", b)
		j, err := json.Marshal(d)
		if err != nil {
			o.note("final json: %v", errStr(err))
			continue
		}
		jsonText(j)
	}
	return o
}

// plainPath makes a well-formed path near a known one.
func (r *R) plainPath(known []string) xmp.Path {
	if len(known) == 0 || r.N(6) == 5 {
		return xmp.Path(pick(r.Src, []string{"dc", "xmp", "xmpMM", "exif", "xmpDM", "ua", "ub", "qt", "stEvt"}) + ":" + pick(r.Src, append([]string{"title", "subject", "creator", "History", "when"}, unkNames...)))
	}
	p := pick(r.Src, known)
	switch r.N(6) {
	case 0:
		if i := strings.LastIndexByte(p, '['); i > 0 {
			return xmp.Path(p[:i] + pick(r.Src, []string{"", "[0]", "[1]", "[3]", "[]", "[de]"}))
		}
	case 1:
		if i := strings.LastIndexByte(p, '/'); i > 0 {
			return xmp.Path(p[:i])
		}
	case 2:
		if i := strings.IndexByte(p, ':'); i > 0 {
			return xmp.Path(p[:i+1] + pick(r.Src, unkNames))
		}
	}
	return xmp.Path(p)
}

func dumpJSON(path string, v interface{}, b *strings.Builder) {
	switch t := v.(type) {
	case map[string]interface{}:
		var keys []string
		for k := range t {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			dumpJSON(path+"/"+k, t[k], b)
		}
	case []interface{}:
		for i, x := range t {
			dumpJSON(fmt.Sprintf("%s[%d]", path, i), x, b)
		}
	default:
		fmt.Fprintf(b, "%s = %#v\n", path, t)
	}
}

// badDecl looks for prefixes that are declared more than once on an element,
// or used without declaration, and namespaces with two prefixes on one element.
func badDecl(b []byte) string {
	d := xml.NewDecoder(bytes.NewReader(b))
	stack := []map[string]string{{"xml": "http://www.w3.org/XML/1998/namespace"}}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			return ""
		}
		if err != nil {
			return err.Error()
		}
		switch t := t.(type) {
		case xml.StartElement:
			m := map[string]string{}
			for k, v := range stack[len(stack)-1] {
				m[k] = v
			}
			seen, uris := map[string]bool{}, map[string]string{}
			for _, a := range t.Attr {
				n := a.Name.Space + ":" + a.Name.Local
				if seen[n] {
					return fmt.Sprintf("attribute %s twice on element %s:%s", n, t.Name.Space, t.Name.Local)
				}
				seen[n] = true
				if a.Name.Space == "xmlns" {
					m[a.Name.Local] = a.Value
					if p, ok := uris[a.Value]; ok {
						return fmt.Sprintf("namespace %s declared as %s and %s on element %s:%s", a.Value, p, a.Name.Local, t.Name.Space, t.Name.Local)
					}
					uris[a.Value] = a.Name.Local
				}
			}
			for _, a := range append([]xml.Attr{{Name: t.Name}}, t.Attr...) {
				if p := a.Name.Space; p != "" && p != "xmlns" && m[p] == "" {
					return fmt.Sprintf("prefix %s of %s is not declared on element %s:%s", p, a.Name.Local, t.Name.Space, t.Name.Local)
				}
			}
			stack = append(stack, m)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		}
	}
}
