package main

// C13, C14: histories of edits, acknowledged and failed saves, crashes and
// restarts; the bytes of the last acknowledged save are all that survives.

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C13", Run: func(r *R) { runStore(r, false) }, Quick: 40000,
		Rule: "one run = one generated document, a history of edits, acknowledged and failed saves, crashes and restarts; non-trivial when at least one restart follows an acknowledged save of two or more properties",
		Real: "xmp.Encoder, xmp.Unmarshal/Read, SetPath, all models, encoding/xml", Stub: "io.Writer and io.Reader (simulated disk), process (state reset at a crash)"})
	register(&Workload{Prop: "C14", Run: func(r *R) { runStore(r, true) }, Quick: 40000,
		Rule: "one run = one generated document, a history of edits, JSON and XMP saves, crashes and restarts; non-trivial when at least one restart follows an acknowledged JSON save of two or more properties",
		Real: "Document.MarshalJSON/UnmarshalJSON, xmp.Encoder, xmp.Unmarshal, SetPath, all models, encoding/json, encoding/xml", Stub: "storage (bytes kept by the simulator), process (state reset at a crash)"})
}

// SaveOpt is a way to save as XMP.
type SaveOpt struct {
	flags          int
	max            int64
	prefix, indent string
}

func (r *R) saveOpt() *SaveOpt {
	o := &SaveOpt{}
	o.flags = pick(r.Src, []int{0, xmp.Xpacket, xmp.Xpacket | xmp.Xpadding})
	switch r.N(4) {
	case 2:
		o.indent = pick(r.Src, []string{" ", "\t", "    "})
	case 3:
		o.prefix = pick(r.Src, []string{" ", "\n"})
		o.indent = "  "
	}
	return o
}

func (o *SaveOpt) encoder(w *simWriter) *xmp.Encoder {
	e := xmp.NewEncoder(w)
	e.SetFlags(o.flags)
	if o.max > 0 {
		e.SetMaxSize(o.max)
	}
	if o.prefix != "" || o.indent != "" {
		e.Indent(o.prefix, o.indent)
	}
	return e
}

// save writes d to a destination.
func (o *SaveOpt) save(d *xmp.Document, p *WritePlan) ([]byte, *simWriter, error) {
	w := &simWriter{p: p}
	err := o.encoder(w).Encode(d)
	return w.buf, w, err
}

// canonLeaves gives content in a form that is independent of the order of
// languages; loose treats all arrays but languages as ordered.
func canonLeaves(props []Prop, loose bool) Leaves {
	l := Leaves{}
	for _, p := range props {
		canonVal("{"+p.NS+"}"+p.Name, p.V, l, loose)
	}
	return l
}

func canonVal(path string, v Val, l Leaves, loose bool) {
	switch v.Kind {
	case KText:
		if v.Text != "" {
			l.add(path, v.Text, nil)
		}
	case KStruct:
		for _, f := range v.Fields {
			canonVal(path+"/{"+f.NS+"}"+f.Name, f.V, l, loose)
		}
	default:
		kind := v.Kind
		if loose && (kind == KBag || kind == KAlt && len(v.Items) > 0 && v.Items[0].Kind != KText) {
			kind = KSeq
		}
		for i, it := range v.Items {
			k := strconv.Itoa(i)
			if v.Kind == KAlt && it.Kind == KText {
				k = it.Lang
				if k == "" {
					k = "x-default"
				}
			}
			canonVal(path+"["+kind+" "+k+"]", it, l, loose)
		}
	}
}

// cmpStored compares the properties found in saved bytes with the expected ones.
func cmpStored(r *R, want, got []Prop, loose bool, pre string) {
	w, g := canonLeaves(want, loose), canonLeaves(got, loose)
	has := hasBase(w)
	for _, k := range sortedKeys(w) {
		x, ok := g[k]
		if ok && x == w[k] {
			continue
		}
		if altDefault(k, w) || mirrored(k, has) {
			continue
		}
		if !ok {
			r.Fail(pre+"lost", "saved data lack %s = %q%s", shortURI(k), clip(w[k]), near(k, g))
		}
		r.Fail(pre+"changed", "saved data have %s = %q instead of %q", shortURI(k), clip(x), clip(w[k]))
	}
	for _, k := range sortedKeys(g) {
		if _, ok := w[k]; !ok && !alwaysWritten(k, g[k]) && !altDefault(k, g) && !related(k, r.orHad(has)) {
			r.Fail(pre+"invented", "saved data have %s = %q, which is not in the document", shortURI(k), clip(g[k]))
		}
	}
}

// altDefault: k is an x-default item that equals another language.
func altDefault(k string, l Leaves) bool {
	s := "[Alt x-default]"
	if !strings.HasSuffix(k, s) {
		return false
	}
	base := strings.TrimSuffix(k, "x-default]")
	for g, v := range l {
		if g != k && strings.HasPrefix(g, base) && v == l[k] {
			return true
		}
	}
	return false
}

// leafRef finds the values behind listed paths.
func leafRefs(props []Prop) map[string]*Val {
	m := map[string]*Val{}
	var walk func(path string, v *Val)
	walk = func(path string, v *Val) {
		switch v.Kind {
		case KText:
			m[path] = v
		case KStruct:
			for i := range v.Fields {
				walk(path+"/{"+v.Fields[i].NS+"}"+v.Fields[i].Name, &v.Fields[i].V)
			}
		default:
			for i := range v.Items {
				k := strconv.Itoa(i)
				if v.Kind == KAlt && v.Items[i].Kind == KText {
					k = v.Items[i].Lang
					if k == "" {
						k = "x-default"
					}
				}
				walk(path+"["+k+"]", &v.Items[i])
			}
		}
	}
	for i := range props {
		walk("{"+props[i].NS+"}"+props[i].Name, &props[i].V)
	}
	return m
}

func cloneProps(p []Prop) []Prop {
	c := append([]Prop(nil), p...)
	for i := range c {
		c[i].V = c[i].V.clone()
	}
	return c
}

// rawPaths maps expanded paths to the library's own.
func rawPaths(r *R, d *xmp.Document) map[string]xmp.Path {
	pv, err := d.ListPaths()
	if err != nil {
		r.Fail("list-error", "ListPaths: %v", err)
	}
	m := map[string]xmp.Path{}
	for _, p := range pv {
		k, ok := expandPath(d, string(p.Path))
		if !ok {
			r.Fail("unknown-prefix", "listed path with a prefix that is not a namespace of the document: %s", p.Path)
		}
		m[k] = p.Path
	}
	return m
}

// checkDoc compares a live document with the expected properties.
func checkDoc(r *R, d *xmp.Document, props []Prop, pre string) map[string]string {
	got, bad, err := listing(d)
	if err != nil {
		r.Fail(pre+"list-error", "ListPaths: %v", err)
	}
	if len(bad) > 0 {
		r.Fail(pre+"unknown-prefix", "listed path with a prefix that is not a namespace of the document: %v", bad)
	}
	want := wantListing(props)
	no := pathless(props)
	for _, m := range []map[string]string{want, got} {
		for k := range m {
			if no[baseOf(k)] {
				delete(m, k)
			}
		}
	}
	cmpListing(r, want, got, pre)
	return got
}

// editable lists the expanded paths whose value may be replaced by any text.
func editable(props []Prop) []string {
	loadMirrors()
	var l []string
	w := wantListing(props)
	no := pathless(props)
	for k, v := range leafRefs(props) {
		if no[baseOf(k)] || !v.Free || mirrorOf[baseOf(k)] != nil || v.Text == "" || inventedDefault(k, w) {
			continue
		}
		if strings.HasSuffix(k, "]") && v.Lang != "" { // equal to the default?
			if x, ok := w[k[:strings.LastIndexByte(k, '[')]+"[x-default]"]; ok && x == v.Text {
				continue
			}
		}
		l = append(l, k)
	}
	sortStrings(l)
	return l
}

// editOne replaces one value.
func editOne(r *R, d *xmp.Document, props []Prop) bool {
	l := editable(props)
	if len(l) == 0 {
		return false
	}
	k := pick(r.Src, l)
	p, ok := rawPaths(r, d)[k]
	if !ok {
		return false // a value without path of its own
	}
	v := r.text()
	r.Logf("set %s = %q", p, clip(v))
	if err := d.SetPath(xmp.PathValue{Path: p, Value: v, Flags: pick(r.Src, []xmp.SyncFlags{xmp.REPLACE, xmp.REPLACE | xmp.CREATE})}); err != nil {
		r.Fail("edit-refused", "SetPath(%s) with REPLACE: %v", p, err)
	}
	leafRefs(props)[k].Text = v
	return true
}

// addOne adds a new simple property to a (possibly new) unknown namespace.
func addOne(r *R, d *xmp.Document, props *[]Prop) {
	i := r.N(6)
	u := unkURI(i)
	prefix := "u" + string(rune('a'+i))
	n := r.Unique("New")
	if i == 5 { // of a known namespace
		u = pick(r.Src, nsList)
		prefix = xmp.NsRegistry.GetPrefix(u)
		n = r.Unique("SimNew")
		if prefix == "" || r.skipNS[u] {
			return
		}
	}
	for _, ns := range d.Namespaces() {
		if ns.GetURI() == u {
			prefix = ns.GetName()
		} else if ns.GetName() == prefix {
			return
		}
	}
	p := xmp.Path(prefix + ":" + n)
	v := r.text()
	r.Logf("add %s = %q", p, clip(v))
	if err := d.SetPath(xmp.PathValue{Path: p, Namespace: u, Value: v, Flags: xmp.CREATE}); err != nil {
		r.Fail("edit-refused", "SetPath(%s) with CREATE: %v", p, err)
	}
	*props = append(*props, Prop{u, n, Val{Kind: KText, Text: v, Free: true}})
}

func loadBytes(r *R, b []byte, asJSON bool) *xmp.Document {
	d := &xmp.Document{}
	if asJSON {
		if err := json.Unmarshal(b, d); err != nil {
			r.Fail("load-error", "restart: json.Unmarshal: %v", err)
		}
		return d
	}
	if r.N(3) == 2 {
		p := r.readPlan(nil)
		d, err := xmp.Read(newReader(p, b))
		if err != nil {
			r.Fail("load-error", "restart: Read (%v): %v", p, err)
		}
		return d
	}
	if err := xmp.Unmarshal(b, d); err != nil {
		r.Fail("load-error", "restart: Unmarshal: %v", err)
	}
	return d
}

func runStore(r *R, useJSON bool) {
	loadData()
	r.mapOrder()
	props := r.genProps(&GenOpt{N: 1 + r.Small(20), Unknown: pick(r.Src, []int{0, 1, 2, 8}), NoMirror: true, InKnown: true, SameLang: true})
	st := r.style()
	if r.N(3) == 2 {
		st.About = "uuid:" + r.text()
	}
	b := writePacket(props, st, r.N(2) == 0, r.N(2) == 1)
	r.Logf("document of %d properties: %s", len(props), describe(props))
	if r.tracing {
		r.Logf("xml %s", clip2(string(b), 3000))
	}
	d := loadBytes(r, b, false)
	durable, durProps, durJSON := b, cloneProps(props), false
	loose := false // external arrays have become ordered
	n := 1 + r.Small(9)
	if r.thorough {
		n = 1 + r.Small(25)
	}
	saved := false
	for i := 0; i < n; i++ {
		switch k := r.N(8); {
		case k <= 2 || i == n-1: // acknowledged save
			if useJSON && (k == 0 || i == n-1) {
				j, err := json.Marshal(d)
				if err != nil {
					r.Fail("save-error", "json.Marshal: %v", err)
				}
				if r.tracing {
					r.Logf("json %s", clip2(string(j), 3000))
				}
				r.Logf("JSON save, %d bytes", len(j))
				durable, durJSON = j, true
				loose = true
			} else {
				o := r.saveOpt()
				if o.flags&xmp.Xpadding != 0 {
					_, w, err := (&SaveOpt{flags: xmp.Xpacket, prefix: o.prefix, indent: o.indent}).save(d, &WritePlan{})
					if err != nil {
						r.Fail("save-error", "Encode: %v", err)
					}
					o.max = int64(len(w.buf) + r.Small(5000))
				}
				x, _, err := o.save(d, &WritePlan{})
				if err != nil {
					r.Fail("save-error", "Encode %+v: %v", *o, err)
				}
				r.Logf("XMP save %+v, %d bytes", *o, len(x))
				if r.tracing {
					r.Logf("saved %s", clip2(string(x), 3000))
				}
				q, err := refParse(x)
				if err != nil {
					r.Fail("unreadable", "saved data: %v", err)
				}
				cmpStored(r, props, q, loose, "stored-")
				if l := refAbout(x); len(l) != 0 && (len(l) > 1 || l[0] != st.About) {
					r.Fail("stored-about", "saved data are about %q instead of %q", l, st.About)
				}
				durable, durJSON = x, false
			}
			durProps = cloneProps(props)
			saved = true
			if r.N(3) != 0 && i < n-1 {
				break
			}
			// restart right after the save
			r.Fault("crash.after-save")
			reinit()
			d = loadBytes(r, durable, durJSON)
			r.checkGet(d, checkDoc(r, d, props, "restart-"))
			r.Count("restarts", 1)
			if len(props) > 1 && (!useJSON || durJSON) {
				r.nontrivial = true
			}
			if durJSON {
				x, _, err := (&SaveOpt{}).save(d, &WritePlan{})
				if err != nil {
					r.Fail("save-error", "Encode after JSON restart: %v", err)
				}
				q, err := refParse(x)
				if err != nil {
					r.Fail("unreadable", "XMP saved after JSON restart: %v", err)
				}
				cmpStored(r, props, q, true, "json-stored-")
				if l := refAbout(x); len(l) != 0 && (len(l) > 1 || l[0] != st.About) {
					r.Fail("json-stored-about", "XMP saved after JSON restart is about %q instead of %q", l, st.About)
				}
			}
		case k == 3: // failed save
			x, _, err := (&SaveOpt{}).save(d, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode: %v", err)
			}
			p := r.writePlan(len(x))
			_, w, err := (&SaveOpt{}).save(d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			if r.N(2) == 1 { // crash, unacknowledged edits are gone
				r.Fault("crash.after-failed-save")
				r.Logf("crash and restart")
				reinit()
				d = loadBytes(r, durable, durJSON)
				props = cloneProps(durProps)
				checkDoc(r, d, props, "restart-")
			}
		case k == 4: // crash
			r.Fault("crash.unsaved")
			r.Logf("crash and restart")
			reinit()
			d = loadBytes(r, durable, durJSON)
			props = cloneProps(durProps)
			checkDoc(r, d, props, "restart-")
		case k == 5:
			addOne(r, d, &props)
		default:
			for j, m := 0, 1+r.N(3); j < m; j++ {
				editOne(r, d, props)
			}
			checkDoc(r, d, props, "edit-")
		}
	}
	_ = saved
}
