package main

// C23: the media management model records history, versions, ingredients and
// embedded documents.

import (
	"fmt"
	"strings"
	"time"

	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C23", Run: runC23, Quick: 40000,
		Rule: "one run = a document with media management properties and two documents to embed, and a history of recorded events, versions, changes, ingredients and embedded documents, with edits of all documents, failed saves, saves, closes, crashes and restarts in between, every open document checked after every step against a reference model; non-trivial when an event, a version or a document was recorded",
		Real: "xmpmm.AddHistory, AddVersion, AppendVersionHistory, AddPantry, SelfResourceRef and queries, ResourceRefArray, PartList, Document.Merge, ListPaths, SetPath, Encoder, Unmarshal, JSON", Stub: "io.Writer and io.Reader (simulated disk), process (state reset at a crash)"})
}

const (
	mmURI    = "http://ns.adobe.com/xap/1.0/mm/"
	stEvtURI = "http://ns.adobe.com/xap/1.0/sType/ResourceEvent#"
	stRefURI = "http://ns.adobe.com/xap/1.0/sType/ResourceRef#"
	stVerURI = "http://ns.adobe.com/xap/1.0/sType/Version#"
)

func findProp(props []Prop, ns, name string) *Prop {
	for i := range props {
		if props[i].NS == ns && props[i].Name == name {
			return &props[i]
		}
	}
	return nil
}

// list returns an array property, made if missing.
func mmList(props *[]Prop, name, kind string) *Val {
	if p := findProp(*props, mmURI, name); p != nil {
		return &p.V
	}
	*props = append(*props, Prop{mmURI, name, Val{Kind: kind}})
	return &(*props)[len(*props)-1].V
}

func textOf(props []Prop, ns, name string) string {
	if p := findProp(props, ns, name); p != nil {
		return p.V.Text
	}
	return ""
}

func structVal(ns string, kv ...string) Val {
	v := Val{Kind: KStruct}
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i+1] != "" {
			v.Fields = append(v.Fields, Prop{ns, kv[i], textVal(kv[i+1])})
		}
	}
	return v
}

func fieldText(v *Val, ns, name string) string {
	if v == nil {
		return ""
	}
	return textOf(v.Fields, ns, name)
}

func (r *R) mmDate() (xmp.Date, string) {
	if r.N(5) == 4 {
		return xmp.Date{}, ""
	}
	t := time.Date(1990+r.N(50), time.Month(1+r.N(12)), 1+r.N(28), r.N(24), r.N(60), r.N(60), r.N(3)*250e6, time.UTC)
	if r.N(3) == 2 {
		t = t.In(time.FixedZone("", (r.N(49)-24)*1800))
	}
	return xmp.Date(t), t.Format(time.RFC3339Nano)
}

func (r *R) part() string {
	return pick(r.Src, []string{"/", "/metadata", "/content", "/content/audio", "metadata", "content/video/", "/metadata/xmpMM", "/metadata/dc:title/"})
}

func partText(s string) string {
	if !strings.HasPrefix(s, "/") {
		s = "/" + s
	}
	if !strings.HasSuffix(s, "/") {
		s += "/"
	}
	return s
}

func (r *R) parts() (xmpdm.PartList, string) {
	var l, t []string
	for i := r.N(4); i > 0; i-- {
		p := r.part()
		l, t = append(l, p), append(t, partText(p))
	}
	pl := xmpdm.NewPartList(l...)
	if r.N(4) == 3 {
		p := r.part()
		t = append(t, partText(p))
		if r.N(2) == 0 {
			pl.Add(p)
		} else {
			pl.AddPart(xmpdm.Part{Path: p})
		}
	}
	return pl, strings.Join(t, ";")
}

func (r *R) action() xmpmm.ActionType {
	return pick(r.Src, []xmpmm.ActionType{xmpmm.ActionSaved, xmpmm.ActionEdited, xmpmm.ActionCropped, xmpmm.ActionCreated, xmpmm.ActionMerged, xmpmm.ActionPublished})
}

func (r *R) mmEvent() (xmpmm.ResourceEvent, Val) {
	e := xmpmm.ResourceEvent{Action: r.action(), InstanceID: xmp.GUID(r.Unique("xmp.iid:e"))}
	var when, changed string
	e.Changed, changed = r.parts()
	e.When, when = r.mmDate()
	if r.N(2) == 1 {
		e.Parameters = r.text()
	}
	if r.N(2) == 1 {
		e.SoftwareAgent = xmp.AgentName(pick(r.Src, []string{"Editor 1.2", "Tool (Linux)", "X"}))
	}
	v := structVal(stEvtURI, "action", string(e.Action), "changed", changed, "instanceID", string(e.InstanceID), "parameters", e.Parameters, "softwareAgent", string(e.SoftwareAgent), "when", when)
	return e, v
}

func (r *R) mmVersion(ver string) (*xmpmm.StVersion, Val) {
	var ev Val
	x := &xmpmm.StVersion{Version: ver, Modifier: pick(r.Src, []string{"", "me", "you & me", "Jörg"})}
	x.Event, ev = r.mmEvent()
	var date string
	x.ModifyDate, date = r.mmDate()
	if r.N(2) == 1 {
		x.Comments = r.text()
	}
	v := structVal(stVerURI, "comments", x.Comments, "modifier", x.Modifier, "modifyDate", date, "version", ver)
	v.Fields = append(v.Fields, Prop{stVerURI, "event", ev})
	return x, v
}

// selfRef is the reference to a document with these properties.
func selfRef(props []Prop, version string) Val {
	var when string
	if h := findProp(props, mmURI, "History"); h != nil && len(h.V.Items) > 0 {
		when = fieldText(&h.V.Items[len(h.V.Items)-1], stEvtURI, "when")
	}
	g := func(n string) string { return textOf(props, mmURI, n) }
	return structVal(stRefURI, "originalDocumentID", g("OriginalDocumentID"), "documentID", g("DocumentID"), "instanceID", g("InstanceID"),
		"lastModifyDate", when, "manager", g("Manager"), "managerVariant", g("ManagerVariant"), "manageTo", g("ManageTo"), "manageUI", g("ManageUI"),
		"maskMarkers", "None", "renditionClass", g("RenditionClass"), "renditionParams", g("RenditionParams"), "versionID", version)
}

func setProp(props *[]Prop, ns, name string, v Val) {
	if p := findProp(*props, ns, name); p != nil {
		p.V = v
		return
	}
	*props = append(*props, Prop{ns, name, v})
}

func delProp(props *[]Prop, ns, name string) {
	for i := range *props {
		if p := &(*props)[i]; p.NS == ns && p.Name == name {
			*props = append((*props)[:i:i], (*props)[i+1:]...)
			return
		}
	}
}

// checkMM compares the answers of the model to the reference.
func (r *R) checkMM(x *xmpmm.XmpMM, props []Prop) {
	items := func(n string) []Val {
		if p := findProp(props, mmURI, n); p != nil {
			return p.V.Items
		}
		return nil
	}
	h, v, in := items("History"), items("Versions"), items("Ingredients")
	same := func(what, got, want string) {
		if got != want {
			r.Fail("mm-answer", "%s is %q, want %q", what, clip(got), clip(want))
		}
	}
	if e := x.GetLastEvent(); (e != nil) != (len(h) > 0) {
		r.Fail("mm-answer", "GetLastEvent is %v with %d recorded events", e, len(h))
	} else if e != nil {
		w := &h[len(h)-1]
		same("action of the last event", string(e.Action), fieldText(w, stEvtURI, "action"))
		same("instance of the last event", string(e.InstanceID), fieldText(w, stEvtURI, "instanceID"))
		same("parameters of the last event", e.Parameters, fieldText(w, stEvtURI, "parameters"))
		same("parts changed in the last event", e.Changed.String(), fieldText(w, stEvtURI, "changed"))
	}
	ver := func(what string, g *xmpmm.StVersion, id string, at int) {
		if at < 0 {
			if g != nil || id != "" {
				r.Fail("mm-answer", "%s is %v %q with %d recorded versions", what, g, id, len(v))
			}
			return
		}
		if g == nil {
			r.Fail("mm-answer", "%s is missing with %d recorded versions", what, len(v))
		}
		w := &v[at]
		same("id of "+what, id, fieldText(w, stVerURI, "version"))
		same("number of "+what, g.Version, fieldText(w, stVerURI, "version"))
		same("modifier of "+what, g.Modifier, fieldText(w, stVerURI, "modifier"))
		same("comments of "+what, g.Comments, fieldText(w, stVerURI, "comments"))
		for i := range w.Fields {
			if w.Fields[i].Name == "event" {
				same("instance of "+what, string(g.Event.InstanceID), fieldText(&w.Fields[i].V, stEvtURI, "instanceID"))
				same("changes of "+what, g.Event.Changed.String(), fieldText(&w.Fields[i].V, stEvtURI, "changed"))
			}
		}
	}
	ver("last version", x.GetLastVersion(), x.GetLastVersionId(), len(v)-1)
	prev := len(v) - 2
	if prev < 0 {
		prev = -1
	}
	ver("previous version", x.GetPreviousVersion(), x.GetPreviousVersionId(), prev)
	if len(x.Ingredients) != len(in) {
		r.Fail("mm-answer", "%d ingredients, want %d", len(x.Ingredients), len(in))
	}
	seen := map[string]bool{}
	for i := range in {
		id := fieldText(&in[i], stRefURI, "documentID")
		if g := x.Ingredients.Index(xmp.GUID(id)); !seen[id] && g != i || g < 0 || g > i {
			r.Fail("mm-answer", "ingredient %q found at %d, want %d", id, g, i)
		}
		seen[id] = true
	}
	if g := x.Ingredients.Index("xmp.did:none"); g != -1 {
		r.Fail("mm-answer", "ingredient that does not exist found at %d", g)
	}
}

func runC23(r *R) {
	loadData()
	loadMirrors()
	r.mapOrder()
	have := map[string]bool{}
	gen := func(n, unknown int, skip map[string]bool) []Prop {
		var l []Prop
		for _, p := range r.genProps(&GenOpt{InKnown: true, N: n, Unknown: unknown, NoMirror: true, Have: have, SkipNS: skip, Skip: func(e *Entry) bool {
			return noPath(e) || preset(&e.P) || mirrorOf["{"+e.P.NS+"}"+e.P.Name] != nil
		}}) {
			if !zeroLike(&p) && !noDefault(p.V, inModel("{"+p.NS+"}"+p.Name)) {
				l = append(l, p)
			}
		}
		return l
	}
	r.had = map[string]bool{}
	noPreset := map[string]bool{exifURI: true, "http://ns.adobe.com/ixml/1.0/": true}
	noMM := map[string]bool{mmURI: true}
	docs := []*mdoc{{name: "A"}}
	a := docs[0]
	a.props = gen(r.Small(5), pick(r.Src, []int{0, 1, 3}), noMM)
	mmText := func(name string) string {
		switch name {
		case "DocumentID", "InstanceID", "OriginalDocumentID":
			return r.Unique("xmp.did:m")
		case "Manager":
			return pick(r.Src, []string{"Editor 1.2", "X"})
		case "ManageTo", "ManageUI":
			return r.Unique("file:///x/")
		case "RenditionClass":
			return pick(r.Src, []string{"default", "proof", "thumbnail:jpeg"})
		case "VersionID":
			return pick(r.Src, []string{"1", "2", "3", "a b"})
		}
		return r.text()
	}
	mmNames := []string{"DocumentID", "InstanceID", "OriginalDocumentID", "Manager", "ManagerVariant", "ManageTo", "ManageUI", "RenditionClass", "RenditionParams", "VersionID"}
	for _, n := range mmNames {
		if r.N(3) > 0 {
			if t := mmText(n); t != "" {
				a.props = append(a.props, Prop{mmURI, n, textVal(t)})
			}
		}
	}
	for i := r.N(3); i > 0; i-- { // embedded documents that are there from the start
		have = map[string]bool{}
		v := Val{Kind: KStruct}
		for _, p := range gen(1+r.Small(5), pick(r.Src, []int{0, 1, 3}), noPreset) {
			if xmp.NsRegistry.GetPrefix(p.NS) == "" || registered(p.NS, p.V) && hasField(r, p) {
				v.Fields = append(v.Fields, p)
			}
		}
		if r.N(3) == 2 {
			q := Prop{"http://purl.org/dc/elements/1.1/", "date", Val{Kind: KSeq, Items: []Val{textVal("2001-01-01T00:00:00Z"), textVal(refused)}}}
			if findProp(v.Fields, q.NS, q.Name) == nil {
				v.Fields = append(v.Fields, q)
			}
		}
		if len(v.Fields) > 0 {
			unFree(&v)
			l := mmList(&a.props, "Pantry", KBag)
			l.Items = append(l.Items, v)
		}
	}
	for i := 1 + r.N(2); i > 0; i-- {
		have = map[string]bool{}
		m := &mdoc{name: string(rune('A' + len(docs)))}
		for _, p := range gen(1+r.Small(8), 0, noPreset) { // names of unregistered namespaces mean nothing in another document
			if inModel("{"+p.NS+"}"+p.Name) && registered(p.NS, p.V) && hasField(r, p) {
				m.props = append(m.props, p)
			}
		}
		docs = append(docs, m)
	}
	for _, m := range docs {
		for _, p := range m.props {
			r.had["{"+p.NS+"}"+p.Name] = true
		}
		r.Logf("document %s: %s", m.name, describe(m.props))
		m.durable = writePacket(m.props, r.style(), true, false)
		m.durProp = cloneProps(m.props)
		m.d = loadBytes(r, m.durable, false)
	}
	check := func(pre string) {
		for _, m := range docs {
			if m.d == nil {
				continue
			}
			if v := try(func() { checkDoc(r, m.d, withoutRefused(m.props), pre) }); v != nil {
				r.Fail(v.class, "document %s: %s", m.name, v.msg)
			}
		}
		if a.d != nil {
			if x := xmpmm.FindModel(a.d); x != nil {
				r.checkMM(x, a.props)
			}
		}
	}
	check("load-")
	n := 3 + r.Small(12)
	if r.thorough {
		n = 3 + r.Small(30)
	}
	for i := 0; i < n; i++ {
		if a.d == nil {
			r.Logf("open A")
			a.reopen(r)
			check("restart-")
		}
		k := r.N(20)
		if k < 12 {
			x, err := xmpmm.MakeModel(a.d)
			if err != nil {
				r.Fail("model-refused", "MakeModel: %v", err)
			}
			r.record(x, docs, k, mmText, mmNames)
			if r.N(2) == 1 {
				a.d.SetDirty()
			}
			check("record-")
			continue
		}
		m := docs[r.N(len(docs))]
		if m.d == nil {
			r.Logf("open %s", m.name)
			m.reopen(r)
			check("restart-")
			continue
		}
		switch k {
		case 12, 13:
			if r.N(3) == 2 && m == a {
				addOne(r, m.d, &m.props)
			} else {
				editOne(r, m.d, m.props)
			}
			check("edit-")
		case 14:
			r.Logf("close %s", m.name)
			m.d.Close()
			m.d = nil
			check("close-")
		case 15:
			b, _, err := (&SaveOpt{}).save(m.d, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode: %v", err)
			}
			p := r.writePlan(len(b))
			_, w, err := (&SaveOpt{}).save(m.d, p)
			r.Logf("save of %s to destination with %v: %v", m.name, p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			check("failed-save-")
		case 16:
			r.Fault("crash.unsaved")
			r.Logf("crash and restart")
			reinit()
			for _, m := range docs {
				if m.d != nil {
					m.reopen(r)
				}
			}
			check("restart-")
		default:
			m.durable = r.ackSave(m.d, m.props, &m.loose, r.N(3) == 2, &m.durJSON)
			m.durProp = cloneProps(m.props)
			check("save-")
			if r.N(2) == 1 {
				r.Logf("restart of %s", m.name)
				m.d.Close()
				m.reopen(r)
				check("restart-")
			}
		}
	}
	if a.d == nil {
		a.reopen(r)
	}
	a.durable = r.ackSave(a.d, a.props, &a.loose, r.N(3) == 2, &a.durJSON)
	a.durProp = cloneProps(a.props)
	r.Fault("crash.after-save")
	r.Logf("crash and restart")
	reinit()
	for _, m := range docs {
		m.reopen(r)
	}
	check("restart-")
}

// refused is a value no date has. In embedded documents such values are kept,
// but have no path.
const refused = "some day"

func hasRefused(v *Val) bool {
	z := false
	v.eachText(func(t *Val) { z = z || t.Text == refused })
	return z
}

func withoutRefused(props []Prop) []Prop {
	p := findProp(props, mmURI, "Pantry")
	if p == nil || !hasRefused(&p.V) {
		return props
	}
	props = cloneProps(props)
	p = findProp(props, mmURI, "Pantry")
	for i := range p.V.Items {
		var l []Prop
		for _, f := range p.V.Items[i].Fields {
			if !hasRefused(&f.V) {
				l = append(l, f)
			}
		}
		p.V.Items[i].Fields = l
	}
	return props
}

// hasField: properties of a namespace that its model does not know have no
// place in an embedded document.
func hasField(r *R, p Prop) bool {
	d := &xmp.Document{}
	if err := xmp.Unmarshal(writePacket([]Prop{p}, plainStyle(func(u string) string { return pool.Prefixes[u] }), true, false), d); err != nil {
		r.Fail("load-error", "Unmarshal of %s: %v", shortName(p), err)
	}
	defer d.Close()
	for _, n := range d.Nodes() {
		if n.Model == nil {
			continue
		}
		l, err := xmp.ListModelPaths(n.Model)
		if err != nil {
			r.Fail("list-error", "ListModelPaths: %v", err)
		}
		for _, pv := range l {
			if k, ok := expandPath(d, string(pv.Path)); ok && baseOf(k) == "{"+p.NS+"}"+p.Name {
				return true
			}
		}
	}
	return false
}

// record is one call of the media management model.
func (r *R) record(x *xmpmm.XmpMM, docs []*mdoc, k int, mmText func(string) string, names []string) {
	a := docs[0]
	p := &a.props
	switch k {
	case 0, 1:
		e, v := r.mmEvent()
		r.Logf("record event %s", v.brief())
		x.AddHistory(&e)
		l := mmList(p, "History", KSeq)
		l.Items = append(l.Items, v)
		r.Count("events", 1)
		r.nontrivial = true
	case 2:
		y, v := r.mmVersion(mmText("VersionID"))
		r.Logf("record version %s", v.brief())
		x.AddVersion(y)
		l := mmList(p, "Versions", KBag)
		l.Items = append(l.Items, v)
		r.Count("versions", 1)
		r.nontrivial = true
	case 3, 4, 5:
		act, mod, changed := r.action(), pick(r.Src, []string{"", "me", "you & me"}), r.part()
		date, when := r.mmDate()
		r.Logf("record change of %s by %q at %s, %s", changed, mod, when, act)
		x.AppendVersionHistory(act, mod, changed, date)
		id := textOf(*p, mmURI, "VersionID")
		l := mmList(p, "Versions", KBag)
		if n := len(l.Items); n == 0 || fieldText(&l.Items[n-1], stVerURI, "version") != id {
			v := structVal(stVerURI, "modifier", mod, "modifyDate", when, "version", id)
			ev := structVal(stEvtURI, "action", string(act), "changed", partText(changed), "instanceID", textOf(*p, mmURI, "InstanceID"), "softwareAgent", "Go XMP SDK 1.0", "when", when)
			v.Fields = append(v.Fields, Prop{stVerURI, "event", ev})
			l.Items = append(l.Items, v)
			r.Count("versions", 1)
		} else {
			for i := range l.Items[n-1].Fields {
				if f := &l.Items[n-1].Fields[i]; f.Name == "event" {
					t := fieldText(&f.V, stEvtURI, "changed")
					if t != "" {
						t += ";"
					}
					setProp(&f.V.Fields, stEvtURI, "changed", textVal(t+partText(changed)))
				}
			}
			r.Count("changes", 1)
		}
		r.nontrivial = true
	case 6, 7: // identifiers change outside
		n := pick(r.Src, names)
		t := mmText(n)
		if n == "VersionID" || r.N(2) == 0 {
			n, t = "VersionID", mmText("VersionID")
		}
		if t == "" {
			return
		}
		r.Logf("set %s = %q", n, clip(t))
		switch n {
		case "DocumentID":
			x.DocumentID = xmp.GUID(t)
		case "InstanceID":
			x.InstanceID = xmp.GUID(t)
		case "OriginalDocumentID":
			x.OriginalDocumentID = xmp.GUID(t)
		case "Manager":
			x.Manager = xmp.AgentName(t)
		case "ManagerVariant":
			x.ManagerVariant = t
		case "ManageTo":
			x.ManageTo = xmp.Uri(t)
		case "ManageUI":
			x.ManageUI = xmp.Uri(t)
		case "RenditionClass":
			x.RenditionClass = xmpdm.RenditionClass(t)
		case "RenditionParams":
			x.RenditionParams = t
		case "VersionID":
			x.VersionID = t
		}
		setProp(p, mmURI, n, textVal(t))
	case 8:
		ver := mmText("VersionID")
		v := selfRef(*p, ver)
		switch r.N(5) {
		case 0:
			r.Logf("DerivedFrom self, version %q", ver)
			x.DerivedFrom = x.SelfResourceRef(ver)
			setProp(p, mmURI, "DerivedFrom", v)
		case 1:
			r.Logf("ManagedFrom self, version %q", ver)
			x.ManagedFrom = x.SelfResourceRef(ver)
			setProp(p, mmURI, "ManagedFrom", v)
		default:
			r.Logf("ingredient self, version %q", ver)
			x.Ingredients = append(x.Ingredients, x.SelfResourceRef(ver))
			l := mmList(p, "Ingredients", KBag)
			l.Items = append(l.Items, v)
		}
		r.Count("references", 1)
	case 9:
		l := mmList(p, "Ingredients", KBag)
		for n := 1 + r.N(4); len(l.Items) < n; {
			ver := r.Unique("v")
			x.Ingredients = append(x.Ingredients, x.SelfResourceRef(ver))
			l.Items = append(l.Items, selfRef(*p, ver))
		}
		i := r.N(len(l.Items)+3) - 1
		r.Logf("delete ingredient %d of %d", i, len(l.Items))
		x.Ingredients.DeleteIndex(i)
		if i >= 0 && i < len(l.Items) {
			l.Items = append(l.Items[:i:i], l.Items[i+1:]...)
			r.Count("deleted", 1)
		}
	default:
		m := docs[1+r.N(len(docs)-1)]
		if m.d == nil || len(m.props) == 0 {
			return
		}
		r.Logf("embed %s: %s", m.name, describe(m.props))
		x.AddPantry(m.d)
		l := mmList(p, "Pantry", KBag)
		v := Val{Kind: KStruct}
		mergeProps(&v.Fields, m.props, xmp.MERGE)
		unFree(&v)
		if len(v.Fields) > 0 {
			l.Items = append(l.Items, v)
		}
		r.Count("embedded", 1)
		r.nontrivial = true
	}
	for _, n := range []string{"History", "Versions", "Ingredients", "Pantry"} {
		if q := findProp(*p, mmURI, n); q != nil && len(q.V.Items) == 0 {
			delProp(p, mmURI, n)
		}
	}
}

// unFree keeps editOne off a value.
func unFree(v *Val) {
	v.Free = false
	for i := range v.Fields {
		unFree(&v.Fields[i].V)
	}
	for i := range v.Items {
		unFree(&v.Items[i])
	}
}

func (v *Val) brief() string {
	var l []string
	for i := range v.Fields {
		l = append(l, fmt.Sprintf("%s=%s", v.Fields[i].Name, clip(v.Fields[i].V.Text)))
	}
	return strings.Join(l, " ")
}
