package main

// C03: many readers of one unchanged document.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C03", Run: runC03, Race: true, Quick: 1800, Limit: 60_000_000,
		Rule: "one run = one generated document (loaded, or edited and then saved) and two to five readers with generated programs of read operations, each executed alone on a fresh copy and then concurrently on one shared document under one schedule, in a race-detector build; every observation is compared with the lone execution, the content of the shared document afterwards with its content before; non-trivial when the schedule switched between unfinished readers",
		Real: "all listing, path, lookup, merge-source and saving code, all models, caches, node recycling", Stub: "goroutine scheduler, clock, destinations, map iteration order (fixed)"})
}

func runC03(r *R) {
	loadData()
	loadMirrors()
	props := r.genProps(&GenOpt{InKnown: true, N: 1 + r.Small(20), Unknown: pick(r.Src, []int{0, 1, 3, 8}), NUnknown: 4, SameLang: true})
	b := writePacket(props, r.style(), r.N(2) == 0, r.N(2) == 1)
	r.Logf("document: %s", describe(props))
	if r.tracing {
		r.Logf("xml %s", clip2(string(b), 3000))
	}
	how := r.N(6)
	var js []byte
	if how == 5 {
		d := &xmp.Document{}
		if err := xmp.Unmarshal(b, d); err != nil {
			r.Fail("load-error", "Unmarshal: %v", err)
		}
		j, err := json.Marshal(d)
		if err != nil {
			r.Fail("json-error", "Marshal: %v", err)
		}
		js = j
	}
	type edit struct {
		pv   xmp.PathValue
		drop string
	}
	var edits []edit
	if how == 3 || how == 4 {
		d := &xmp.Document{}
		if err := xmp.Unmarshal(b, d); err != nil {
			r.Fail("load-error", "Unmarshal: %v", err)
		}
		pv, err := d.ListPaths()
		if err != nil {
			r.Fail("list-error", "ListPaths: %v", err)
		}
		var known []string
		for _, p := range pv {
			known = append(known, string(p.Path))
		}
		for i, n := 0, 1+r.N(4); i < n; i++ {
			e := edit{pv: xmp.PathValue{Path: r.plainPath(known), Flags: r.anyFlags(), Namespace: unkURI(r.N(5)),
				Value: pick(r.Src, []string{r.text(), "", "1", "2020-01-02T03:04:05Z", "1/2"})}}
			if r.N(6) == 5 {
				e.drop = e.pv.Path.NamespacePrefix()
			}
			edits = append(edits, e)
			r.Logf("edit %s = %q %s %s", e.pv.Path, e.pv.Value, flagStr(e.pv.Flags), e.drop)
		}
	}
	var shared *xmp.Document
	var want string
	content := func() string {
		var s strings.Builder
		pv, err := shared.ListPaths()
		for _, p := range pv {
			fmt.Fprintf(&s, "%s = %q\n", p.Path, p.Value)
		}
		x, err2 := xmp.Marshal(shared)
		fmt.Fprintf(&s, "%v %v\n%s", errStr(err), errStr(err2), savedText(x)())
		return s.String()
	}
	before := func() {
		if want != "" {
			if got := content(); got != want {
				r.Fail("changed", "reading changed the document, before (first) and after (second): %s", firstDiff(want, got))
			}
		}
		shared = &xmp.Document{}
		var err error
		switch how {
		case 5:
			err = json.Unmarshal(js, shared)
		case 2:
			shared, err = xmp.Read(bytes.NewReader(b))
		default:
			err = xmp.Unmarshal(b, shared)
		}
		if err != nil {
			r.Fail("load-error", "load: %v", err)
		}
		if len(edits) > 0 {
			for _, e := range edits {
				shared.SetPath(e.pv)
				if e.drop != "" {
					shared.RemoveNamespaceByName(e.drop)
				}
			}
			if how == 3 {
				_, err = xmp.Marshal(shared)
			} else {
				_, err = json.Marshal(shared)
			}
			if err != nil {
				r.Logf("not savable: %v", err)
				edits = nil
				shared = &xmp.Document{}
				if err := xmp.Unmarshal(b, shared); err != nil {
					r.Fail("load-error", "load: %v", err)
				}
			}
		}
	}
	before()
	want = content()
	before()
	n := 2 + r.N(4)
	var ps []program
	for t := 0; t < n; t++ {
		ps = append(ps, func(r *R, t int) *orderRun { return r.reader(shared, t) })
	}
	r.loneAndTogether(ps, r.N(3) == 0, before)
	if got := content(); got != want {
		r.Fail("changed", "concurrent readers changed the document, before (first) and after (second): %s", firstDiff(want, got))
	}
}

// reader only reads d.
func (r *R) reader(d *xmp.Document, t int) *orderRun {
	o := &orderRun{}
	var known []string
	n := 2 + r.Small(8)
	for i := 0; i < n; i++ {
		switch k := r.N(16); k {
		case 0, 1:
			pv, err := d.ListPaths()
			known = nil
			for _, p := range pv {
				known = append(known, string(p.Path))
			}
			r.Logf("list")
			o.note("listing: %s %s", errStr(err), func() string {
				var b strings.Builder
				for _, p := range pv {
					fmt.Fprintf(&b, "%s = %q %s\n", p.Path, p.Value, p.Namespace)
				}
				return b.String()
			})
		case 2, 3:
			if known == nil {
				pv, _ := d.ListPaths()
				for _, p := range pv {
					known = append(known, string(p.Path))
				}
			}
			for j, m := 0, 1+r.N(12); j < m && len(known) > 0; j++ {
				p := xmp.Path(pick(r.Src, known))
				if r.N(4) == 3 {
					p = r.anyPath(known)
				}
				v, err := d.GetPath(p)
				ns, err2 := p.Namespace(d)
				r.Logf("get %s", p)
				o.note("value: %s = %q %s %v %s", string(p), v, errStr(err), ns, errStr(err2))
			}
		case 4, 5:
			for _, ns := range pickNS(r, d) {
				m := d.FindModel(ns)
				nd := d.FindNode(ns)
				r.Logf("look up %s", ns.GetName())
				var pv xmp.PathValueList
				var err error
				x := ""
				if m != nil {
					pv, err = xmp.ListModelPaths(m)
					for j, p := range pv {
						if j%3 == 0 {
							v, e := xmp.GetModelPath(m, p.Path)
							x += v + errStr(e)
						}
					}
					l := m.Namespaces()
					x += " " + m.Namespaces()[len(l)-1].GetURI()
				}
				y := ""
				if nd != nil {
					y = nd.Name() + nd.FullName() + nd.Namespace()
					for _, z := range nd.Namespaces(d) {
						y += " " + z.GetName()
					}
					y += fmt2(nd.IsZero()) + fmt2(nd.IsArray()) + string(nd.ArrayType())
					for _, c := range nd.Nodes {
						y += c.FullName() + c.Value
					}
					for _, p := range known {
						if strings.HasPrefix(p, nd.Name()+":") && len(y) < 5000 {
							v, e := nd.GetPath(xmp.Path(p))
							y += v + errStr(e)
						}
					}
				}
				o.note("model: %s %v %s %s %s %s", ns.GetName(), m != nil, x, y, errStr(err), func() string {
					var b strings.Builder
					for _, p := range pv {
						fmt.Fprintf(&b, "%s = %q\n", p.Path, p.Value)
					}
					return b.String()
				})
			}
		case 6:
			var l []string
			for _, ns := range d.Namespaces() {
				l = append(l, ns.GetName()+"="+ns.GetURI())
			}
			for _, nd := range d.Nodes() {
				l = append(l, nd.Name())
			}
			sortStrings(l)
			if ns := d.FindNs("", unkURI(r.N(3))); ns != nil {
				l = append(l, ns.GetName())
			}
			r.Logf("namespaces")
			o.note("namespaces: %v %v", strings.Join(l, " "), d.IsDirty())
		case 7, 8:
			b, err := xmp.Marshal(d)
			r.Logf("save")
			o.note("saved: %s %s", errStr(err), savedText(b))
		case 9:
			b, err := xmp.MarshalIndent(d, "", " ")
			r.Logf("save indented")
			o.note("saved: %s %s", errStr(err), savedText(b))
		case 10:
			so := r.saveOpt()
			so.max = int64(pick(r.Src, []int{0, 100000, 300, 3000}))
			b, _, err := so.save(d, &WritePlan{})
			r.Logf("save %+v", *so)
			o.note("saved: %s %v %s", errStr(err), errors.Is(err, xmp.ErrOverflow), savedText(b))
		case 11:
			p := r.writePlan(pick(r.Src, []int{0, 500, 2000}))
			b, _, err := (&SaveOpt{}).save(d, p)
			r.Logf("save, destination %v", p)
			o.note("saved: %s %v %d", errStr(err), err == p.err, len(b))
		case 12, 13:
			b, err := d.MarshalJSON()
			r.Logf("save as JSON")
			o.note("json: %s %s", errStr(err), savedJSON(b))
		case 14:
			b, err := json.MarshalIndent(d, "", "  ")
			r.Logf("save as JSON")
			o.note("json: %s %s", errStr(err), savedJSON(b))
		default: // copy into a document of its own
			x := xmp.NewDocument()
			if r.N(3) == 2 {
				if pv, err := d.ListPaths(); err == nil && len(pv) > 0 {
					p := pick(r.Src, pv)
					p.Value, p.Flags = "1", 0
					x.SetPath(p)
				}
			}
			f := pick(r.Src, []xmp.SyncFlags{xmp.MERGE, xmp.EXTEND, xmp.DEFAULT, xmp.REPLACE})
			err := x.Merge(d, f)
			pv, err2 := x.ListPaths()
			b, err3 := xmp.Marshal(x)
			r.Logf("merge into another document")
			o.note("merged: %s %s %s %s", errStr(err)+errStr(err2)+errStr(err3), savedText(b), func() string {
				var b strings.Builder
				for _, p := range pv {
					fmt.Fprintf(&b, "%s = %q\n", p.Path, p.Value)
				}
				return b.String()
			})
			if r.N(2) == 1 {
				x.Close()
			}
		}
	}
	return o
}

func fmt2(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

func pickNS(r *R, d *xmp.Document) xmp.NamespaceList {
	l := d.Namespaces()
	sort.Slice(l, func(i, j int) bool { return l[i].GetURI() < l[j].GetURI() })
	if len(l) > 3 {
		i := r.N(len(l) - 2)
		l = l[i : i+3]
	}
	return l
}

// savedText gives the content of saved XMP, the order of namespaces is free.
func savedText(b []byte) func() string {
	return func() string {
		q, err := refParse(b)
		if err != nil {
			return string(b)
		}
		var s strings.Builder
		fmt.Fprintf(&s, "%d bytes\n", len(b))
		l := canonLeaves(q, false)
		for _, k := range sortedKeys(l) {
			fmt.Fprintf(&s, "%s = %q\n", shortURI(k), l[k])
		}
		return s.String()
	}
}

func savedJSON(b []byte) func() string {
	return func() string {
		var v interface{}
		if err := json.Unmarshal(b, &v); err != nil {
			return string(b)
		}
		var s strings.Builder
		fmt.Fprintf(&s, "%d bytes\n", len(b))
		dumpJSON("", v, &s)
		return s.String()
	}
}
