package main

// C16: removed or filtered namespaces are gone for good, all else is kept.

import (
	"encoding/json"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C16", Run: runC16, Quick: 40000,
		Rule: "one run = one generated document and a history of namespace removals and filters, edits, saves, failed saves, crashes and restarts; non-trivial when a removal left some and took some properties",
		Real: "Document.RemoveNamespace(s), RemoveNamespaceByName, FilterNamespaces, Filter, ListPaths, GetPath, Encoder, Unmarshal, JSON, all models", Stub: "io.Writer and io.Reader (simulated disk), process (state reset at a crash)"})
}

var nsGroups = map[string][]string{
	"xmp":    {"dc", "pdf", "xmp", "xmpBJ", "xmpDM", "xmpMM", "xmpRights", "xmpTPg", "digiKam"},
	"image":  {"aux", "crs", "exif", "exifEX", "photomechanic", "photoshop", "tiff"},
	"music":  {"iTunes", "id3"},
	"movie":  {"mp4", "qt"},
	"sound":  {"iXML", "riffinfo"},
	"camera": {"drone-dji", "qt"},
	"rights": {"cc", "xmpRights"},
}

// nsName is the name of a namespace in the document.
func nsName(d *xmp.Document, uri string) string {
	for _, n := range d.Namespaces() {
		if n.GetURI() == uri {
			return n.GetName()
		}
	}
	return xmp.NsRegistry.GetPrefix(uri)
}

type nsHist struct {
	props   []Prop
	gone    map[string]bool   // removed namespaces without new properties, false after a restart
	removed map[string]string // listing of removed properties: paths as they were
}

func (h *nsHist) clone() *nsHist {
	c := &nsHist{props: cloneProps(h.props), gone: map[string]bool{}, removed: map[string]string{}}
	for k, v := range h.gone {
		c.gone[k] = v
	}
	for k, v := range h.removed {
		c.removed[k] = v
	}
	return c
}

// isGone: property k of namespace u must not be there. After a restart native
// models may fill it in from their own properties.
func (h *nsHist) isGone(r *R, u, k string, has func(string) bool) bool {
	strict, ok := h.gone[u]
	return ok && (strict || !related(k, r.orHad(has)))
}

// checkNS compares the document with what is expected.
func (r *R) checkNS(d *xmp.Document, h *nsHist, pre string) map[string]string {
	got := checkDoc(r, d, h.props, pre)
	if r.N(3) == 2 {
		r.checkGet(d, got)
	}
	has := hasBase(wantListing(h.props))
	for _, k := range sortedKeys(Leaves(got)) {
		if u := k[1:strings.IndexByte(k, '}')]; got[k] != "" && h.isGone(r, u, k, has) {
			r.Fail(pre+"removed-listed", "%s = %q is listed after the removal of its namespace", shortURI(k), clip(got[k]))
		}
	}
	for p := range h.removed {
		if !h.gone[h.removed[p]] {
			continue
		}
		if v, _ := d.GetPath(xmp.Path(p)); v != "" {
			r.Fail(pre+"removed-readable", "GetPath(%s) = %q after the removal of its namespace", p, clip(v))
		}
	}
	return got
}

// checkStoredNS looks for removed namespaces in saved data.
func (r *R) checkStoredNS(h *nsHist, q []Prop) {
	has := hasBase(wantListing(h.props))
	for i := range q {
		k := "{" + q[i].NS + "}" + q[i].Name
		if h.isGone(r, q[i].NS, k, has) {
			l, _ := leavesOf(q[i : i+1])
			for _, x := range sortedKeys(l) {
				if l[x] != "" && !alwaysWritten(x, l[x]) {
					r.Fail("removed-stored", "saved data have %s = %q of a removed namespace", shortURI(x), clip(l[x]))
				}
			}
		}
	}
}

func runC16(r *R) {
	loadData()
	r.mapOrder()
	h := &nsHist{gone: map[string]bool{}, removed: map[string]string{}}
	// a model is removed with the first of its namespaces
	r.skipNS = map[string]bool{simURI2: true}
	h.props = r.genProps(&GenOpt{InKnown: true, SkipNS: r.skipNS, N: 2 + r.Small(16), Unknown: pick(r.Src, []int{0, 1, 2, 6}), NUnknown: 5, NoMirror: true})
	b := writePacket(h.props, r.style(), r.N(2) == 0, r.N(2) == 1)
	r.Logf("document: %s", describe(h.props))
	if r.tracing {
		r.Logf("xml %s", clip2(string(b), 3000))
	}
	d := loadBytes(r, b, false)
	durable, durHist, durJSON := b, h.clone(), false
	loose := false
	n := 2 + r.Small(8)
	if r.thorough {
		n = 2 + r.Small(20)
	}
	save := func() {
		x := r.ackSave(d, h.props, &loose, r.N(3) == 2, &durJSON)
		if !durJSON {
			q, _ := refParse(x)
			r.checkStoredNS(h, q)
		} else {
			r.checkJSONNS(d, x, h)
		}
		durable, durHist = x, h.clone()
	}
	crash := func() {
		reinit()
		d = loadBytes(r, durable, durJSON)
		h = durHist.clone()
		for u := range h.gone {
			h.gone[u] = false
		}
		h.removed = map[string]string{}
		r.checkNS(d, h, "restart-")
	}
	for i := 0; i < n; i++ {
		switch k := r.N(10); {
		case k < 4:
			r.removeSome(d, h)
			r.checkNS(d, h, "removal-")
		case k < 6:
			for j, m := 0, 1+r.N(3); j < m; j++ {
				if len(h.props) == 0 || r.N(2) == 1 {
					r.editSome(d, &h.props)
					for i := range h.props {
						delete(h.gone, h.props[i].NS)
					}
				} else {
					editOne(r, d, h.props)
				}
			}
			r.checkNS(d, h, "edit-")
		case k == 6:
			had := len(h.props)
			if addOne(r, d, &h.props); len(h.props) > had {
				delete(h.gone, h.props[had].NS)
			}
			r.checkNS(d, h, "edit-")
		case k == 7:
			x, _, err := (&SaveOpt{}).save(d, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode: %v", err)
			}
			p := r.writePlan(len(x))
			_, w, err := (&SaveOpt{}).save(d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			r.checkNS(d, h, "failed-save-")
		case k == 8:
			r.Fault("crash.unsaved")
			r.Logf("crash and restart")
			crash()
		default:
			save()
			r.checkNS(d, h, "save-")
			if r.N(2) == 1 {
				r.Fault("crash.after-save")
				r.Logf("crash and restart")
				crash()
			}
		}
	}
	save()
	r.Fault("crash.after-save")
	crash()
}

// checkJSONNS looks for removed namespaces in saved JSON.
func (r *R) checkJSONNS(d *xmp.Document, x []byte, h *nsHist) {
	var doc struct {
		Namespaces map[string]string                 `json:"namespaces"`
		Models     map[string]map[string]interface{} `json:"models"`
	}
	if err := json.Unmarshal(x, &doc); err != nil {
		r.Fail("unreadable", "saved JSON: %v", err)
	}
	has := hasBase(wantListing(h.props))
	for m, fields := range doc.Models {
		for name := range fields {
			i := strings.IndexByte(name, ':')
			if i < 0 {
				continue
			}
			u := doc.Namespaces[name[:i]]
			if u == "" {
				u = nsURI(d, name[:i])
			}
			if k := "{" + u + "}" + name[i+1:]; h.isGone(r, u, k, has) && !(u == "http://ns.adobe.com/exif/1.0/") {
				r.Fail("removed-stored", "saved JSON has %s in %s, its namespace was removed", name, m)
			}
		}
	}
}

// removeSome removes namespaces in one of the ways the library offers.
func (r *R) removeSome(d *xmp.Document, h *nsHist) {
	var uris []string // of the document
	seen := map[string]bool{}
	for i := range h.props {
		if u := h.props[i].NS; !seen[u] {
			seen[u] = true
			uris = append(uris, u)
		}
	}
	other := []string{"dc", "xmpDM", "photoshop", "riffinfo", "nosuch", "xmpMM", "stRef", "tiff", "xmp", "image", "x1"}
	name := func() string { // of a namespace, mostly of the document
		if len(uris) > 0 && r.N(4) != 3 {
			return nsName(d, pick(r.Src, uris))
		}
		return pick(r.Src, other)
	}
	ns := func(name string) *xmp.Namespace {
		for _, n := range d.Namespaces() {
			if n.GetName() == name {
				return n
			}
		}
		if n, err := xmp.GetNamespace(name); err == nil {
			return n
		}
		return &xmp.Namespace{Name: name}
	}
	names := map[string]string{}
	for _, u := range uris {
		names[u] = nsName(d, u)
	}
	// paths of everything there is
	paths := rawPaths(r, d)
	var out func(name string) bool
	removed := false
	switch k := r.N(6); k {
	case 0:
		x := name()
		removed = d.RemoveNamespace(ns(x))
		r.Logf("RemoveNamespace(%s): %v", x, removed)
		out = func(n string) bool { return n == x }
	case 1:
		x := name()
		removed = d.RemoveNamespaceByName(x)
		r.Logf("RemoveNamespaceByName(%s): %v", x, removed)
		out = func(n string) bool { return n == x }
	case 2, 3:
		var l xmp.NamespaceList
		set := map[string]bool{}
		for i, m := 0, 1+r.N(4); i < m; i++ {
			x := name()
			set[x] = true
			l = append(l, ns(x))
		}
		if k == 2 {
			removed = d.RemoveNamespaces(l)
			r.Logf("RemoveNamespaces(%v): %v", sortedSet(set), removed)
			out = func(n string) bool { return set[n] }
		} else {
			removed = d.FilterNamespaces(l)
			r.Logf("FilterNamespaces(%v): %v", sortedSet(set), removed)
			out = func(n string) bool { return !set[n] }
		}
	default:
		inc, exc := map[string]bool{}, map[string]bool{}
		var s []string
		only := r.N(3) // 0 both, 1 exclude, 2 include
		strict := true
		for i, m := 0, 1+r.N(4); i < m; i++ {
			var x string
			var l []string
			if r.N(3) == 2 {
				x = pick(r.Src, []string{"xmp", "image", "music", "movie", "sound", "camera", "rights"})
				l = nsGroups[x]
			} else {
				x = name()
				l = []string{x}
				if g := nsGroups[x]; g != nil {
					l = g
				}
				if _, err := xmp.GetNamespace(x); err != nil && nsGroups[x] == nil {
					strict = false
				}
			}
			to, sign := exc, "-"
			if only == 2 || only == 0 && r.N(2) == 1 {
				to, sign = inc, pick(r.Src, []string{"+", "", "+"})
			}
			for _, n := range l {
				to[n] = true
			}
			s = append(s, sign+x)
			if r.N(10) == 9 {
				s = append(s, "")
			}
		}
		text := strings.Join(s, ",")
		var f *xmp.Filter
		how := r.N(4)
		if how == 1 && !strict {
			how = 0
			if _, err := xmp.ParseFilterStrict(text); err == nil {
				r.Fail("filter-accepted", "ParseFilterStrict(%q) accepts names that are not registered", text)
			}
		}
		switch how {
		case 0:
			f = xmp.ParseFilter(text)
		case 1:
			var err error
			if f, err = xmp.ParseFilterStrict(text); err != nil {
				r.Fail("filter-refused", "ParseFilterStrict(%q): %v", text, err)
			}
		case 2:
			f = &xmp.Filter{}
			if err := f.UnmarshalText([]byte(text)); err != nil {
				r.Fail("filter-refused", "Filter.UnmarshalText(%q): %v", text, err)
			}
		default:
			var il, el xmp.NamespaceList
			for _, x := range sortedSet(inc) {
				il = append(il, ns(x))
			}
			for _, x := range sortedSet(exc) {
				el = append(el, ns(x))
			}
			f = xmp.NewFilter(il, el)
		}
		removed = f.Apply(d)
		r.Logf("filter %q (%d): %v", text, how, removed)
		out = func(n string) bool { return len(inc) > 0 && !inc[n] || exc[n] }
	}
	goneNow := map[string]bool{}
	for _, u := range uris {
		if out(names[u]) {
			goneNow[u] = true
		}
	}
	// known namespaces the document might have copies in
	for u, p := range pool.Prefixes {
		if xmp.NsRegistry.GetPrefix(u) == p && out(p) {
			h.gone[u] = true
		}
	}
	var kept []Prop
	some := false
	for i, p := range h.props {
		if goneNow[p.NS] {
			l, _ := leavesOf(h.props[i : i+1])
			for _, v := range l {
				some = some || v != ""
			}
			if r.had == nil {
				r.had = map[string]bool{}
			}
			r.had["{"+p.NS+"}"+p.Name] = true
			continue
		}
		kept = append(kept, p)
	}
	if len(kept) < len(h.props) {
		if some && !removed {
			r.Fail("removal-unreported", "properties of %v had to be removed, but the result is false", sortedSet(goneNow))
		}
		if len(kept) > 0 {
			r.nontrivial = true
		}
		r.Count("removals", 1)
	}
	h.props = kept
	for u := range goneNow {
		h.gone[u] = true
	}
	for k, p := range paths {
		if u := k[1:strings.IndexByte(k, '}')]; h.gone[u] {
			h.removed[string(p)] = u
		}
	}
}

func sortedSet(m map[string]bool) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sortStrings(l)
	return l
}
