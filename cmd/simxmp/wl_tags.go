package main

// C22: native tags. Histories set, read and list native tags of the models in
// a document, with saves, failed saves, crashes and restarts in between.

import (
	"encoding/json"
	"strconv"
	"strings"
	"sync"

	"github.com/trimmer-io/go-xmp/xmp"
	"verif.local/sim/data"
)

func init() {
	register(&Workload{Prop: "C22", Run: runC22, Quick: 40000,
		Rule: "one run = one document with models of native formats and a history of SetTag, SetLocaleField, GetTag, CanTag and ListTags calls with valid, empty and invalid values, known and unknown tags, with saves, failed saves, crashes and restarts in between; non-trivial when at least one tag was set",
		Real: "SetNativeField, GetNativeField, SetLocaleField, GetLocaleField, ListNativeFields, tag methods of all models, Encoder, Unmarshal", Stub: "io.Writer and io.Reader (simulated disk), process (state reset at a crash)"})
}

// TagEntry is one native tag of a model.
type TagEntry struct {
	Model  string   `json:"m"`           // prefix of the model
	Tag    string   `json:"t"`           // native name
	Key    string   `json:"k,omitempty"` // the property that holds it
	Kind   string   `json:"a,omitempty"` // Seq, Bag, Alt: of a list
	List   bool     `json:"l,omitempty"`
	Vals   []string `json:"v,omitempty"` // values; any text if none are given
	Stays  bool     `json:"d,omitempty"` // survives a restart
	Leaves []string `json:"s,omitempty"` // where it is stored
	Strict bool     `json:"x,omitempty"` // refuses the invalid texts
	Alias  []string `json:"n,omitempty"` // other names
}

var invalidTexts = []string{"no such value", "☃", "12 monkeys"}

var (
	tagOnce sync.Once
	tagList []TagEntry
	tagsOf  map[string][]int
	tagMods []string
)

func loadTags() {
	loadData()
	tagOnce.Do(func() {
		if err := json.Unmarshal(data.Tags, &tagList); err != nil {
			panic(err)
		}
		tagsOf = map[string][]int{}
		for i, t := range tagList {
			if len(tagsOf[t.Model]) == 0 {
				tagMods = append(tagMods, t.Model)
			}
			tagsOf[t.Model] = append(tagsOf[t.Model], i)
		}
	})
}

// localeTagger: models with language methods of their own.
type localeTagger interface {
	GetLocaleTag(string, string) (string, error)
	SetLocaleTag(string, string, string) error
}

func getLocaleTag(m xmp.Model, lang, tag string) (string, error) {
	if l, ok := m.(localeTagger); ok {
		return l.GetLocaleTag(lang, tag)
	}
	return xmp.GetLocaleField(m, lang, tag)
}

func setLocaleTag(m xmp.Model, lang, tag, v string) error {
	if l, ok := m.(localeTagger); ok {
		return l.SetLocaleTag(lang, tag, v)
	}
	return xmp.SetLocaleField(m, lang, tag, v)
}

// tagName picks one of the names of a tag.
func (r *R) tagName(e *TagEntry) string {
	if n := len(e.Alias); n > 0 && r.N(3) == 2 {
		return e.Alias[r.N(n)]
	}
	return e.Tag
}

type tagger interface {
	CanTag(string) bool
	GetTag(string) (string, error)
	SetTag(string, string) error
}

// anyTag: models which take tags they do not know.
func anyTag(model string) bool { return model == "id3" || model == "iTunes" || model == "qt" }

func (r *R) tagText() string {
	for {
		if s := strings.TrimSpace(r.text()); s != "" && !strings.ContainsAny(s, "\r\n\t") {
			return s
		}
	}
}

// putKey makes a property.
func putKey(props *[]Prop, key string, v Val) {
	segs := expandedSegs(key)
	for i, s := range segs {
		at := -1
		for j := range *props {
			if (*props)[j].NS == s[0] && (*props)[j].Name == s[1] {
				at = j
			}
		}
		last := i == len(segs)-1
		if at < 0 {
			p := Prop{NS: s[0], Name: s[1], V: Val{Kind: KStruct}}
			if last {
				p.V = v
			}
			*props = append((*props)[:len(*props):len(*props)], p)
			at = len(*props) - 1
		} else if last {
			(*props)[at].V = v
		}
		props = &(*props)[at].V.Fields
	}
}

// taggers lists the models of a document.
func taggers(d *xmp.Document) map[string]tagger {
	m := map[string]tagger{}
	for _, n := range d.Nodes() {
		if n.Model != nil {
			if t, ok := n.Model.(tagger); ok {
				p := n.Model.Namespaces()[0].GetName()
				if len(tagsOf[p]) > 0 && m[p] == nil {
					m[p] = t
				}
			}
		}
	}
	return m
}

// tagText gives what a tag should read.
func wantTag(e *TagEntry, w map[string]string) (string, bool) {
	if e.Kind == "" {
		v, ok := w[e.Key]
		return v, ok
	}
	var l []string
	for i := 0; ; i++ {
		v, ok := w[e.Key+"["+strconv.Itoa(i)+"]"]
		if !ok {
			break
		}
		l = append(l, v)
	}
	return strings.Join(l, "\n"), len(l) > 0
}

// checkTags compares all tags with the content of the document.
func (r *R) checkTags(d *xmp.Document, props []Prop, pre string) {
	w := wantListing(props)
	ms := taggers(d)
	for _, mn := range tagMods {
		t := ms[mn]
		if t == nil {
			continue
		}
		set := map[string]string{}
		for _, i := range tagsOf[mn] {
			e := &tagList[i]
			if e.Kind == "Alt" {
				for k, v := range w {
					if strings.HasPrefix(k, e.Key+"[") && strings.Count(k, "[") == 1 {
						lang := k[len(e.Key)+1 : len(k)-1]
						g, err := getLocaleTag(t.(xmp.Model), lang, e.Tag)
						if err != nil || g != v {
							r.Fail(pre+"locale", "%s: GetLocaleField(%s, %s) = %q, %v; the document has %q", mn, lang, e.Tag, clip(g), err, clip(v))
						}
					}
				}
				continue
			}
			if e.Key == "" {
				continue
			}
			v, ok := wantTag(e, w)
			g, err := t.GetTag(e.Tag)
			if err != nil {
				r.Fail(pre+"tag-error", "%s: GetTag(%s): %v; the document has %q", mn, e.Tag, err, clip(v))
			}
			if !t.CanTag(e.Tag) {
				r.Fail(pre+"cantag", "%s: CanTag(%s) is false", mn, e.Tag)
			}
			for _, a := range e.Alias {
				if x, err := t.GetTag(a); err != nil || x != g {
					r.Fail(pre+"tag", "%s: GetTag(%s) = %q, %v; GetTag(%s) = %q", mn, a, clip(x), err, e.Tag, clip(g))
				}
				if !t.CanTag(a) {
					r.Fail(pre+"cantag", "%s: CanTag(%s) is false", mn, a)
				}
			}
			if ok && g != v && !strings.HasSuffix(e.Key, "}timeValue") && !(g == "" && alwaysWritten(e.Key, v)) || !ok && g != "" && !alwaysWritten(e.Key, g) {
				r.Fail(pre+"tag", "%s: GetTag(%s) = %q; the document has %q (%v)", mn, e.Tag, clip(g), clip(v), ok)
			}
			if g != "" {
				set[e.Tag] = g
			}
		}
		l, ok := t.(interface {
			ListTags() (xmp.TagList, error)
		})
		if !ok {
			continue
		}
		tl, err := l.ListTags()
		if err != nil {
			continue // a tag without text form
		}
		r.Count("tags.listed", 1)
		seen := map[string]bool{}
		for _, x := range tl {
			if x.Lang != "" {
				continue
			}
			if seen[x.Key] {
				r.Fail(pre+"list-tags", "%s: ListTags has %s twice", mn, x.Key)
			}
			seen[x.Key] = true
			if g, err := t.GetTag(x.Key); err == nil && g != x.Value {
				r.Fail(pre+"list-tags", "%s: ListTags has %s = %q, GetTag %q", mn, x.Key, clip(x.Value), clip(g))
			}
		}
		for _, k := range sortedKeys(Leaves(set)) {
			if !seen[k] {
				r.Fail(pre+"list-tags", "%s: ListTags lacks %s = %q", mn, k, clip(set[k]))
			}
		}
	}
}

// tagModel picks a model of the document or makes one.
func (r *R) tagModel(d *xmp.Document) (string, tagger) {
	ms := taggers(d)
	if len(ms) > 0 && r.N(4) != 3 {
		var l []string
		for _, m := range tagMods {
			if ms[m] != nil {
				l = append(l, m)
			}
		}
		m := pick(r.Src, l)
		return m, ms[m]
	}
	m := pick(r.Src, tagMods)
	ns, err := xmp.NsRegistry.GetNamespace(m)
	if err != nil {
		r.Fail("model-refused", "GetNamespace(%s): %v", m, err)
	}
	x, err := d.MakeModel(ns)
	if err != nil {
		r.Fail("model-refused", "MakeModel(%s): %v", m, err)
	}
	return m, x.(tagger)
}

// setTag performs one SetTag call and judges it.
func (r *R) setTag(d *xmp.Document, props *[]Prop) {
	loadMirrors()
	w := wantListing(*props)
	had := taggers(d)
	mn, t := r.tagModel(d)
	if had[mn] == nil { // making the model must not matter
		checkDoc(r, d, *props, "make-")
	}
	if mn == "iXML" && had[mn] == nil {
		*props = append(*props, Prop{NS: "http://ns.adobe.com/ixml/1.0/", Name: "version", V: Val{Kind: KText, Text: "2.0"}})
		w = wantListing(*props)
	}
	same := outcome{cloneProps(*props), false}
	refused := outcome{same.props, true}
	if r.N(8) == 7 && !anyTag(mn) { // unknown
		tag := pick(r.Src, []string{"NoSuchTag", "ZZZZ", "0xfffe", "", "x:y", "Title ", "xmp:NoSuch", ":", "zz:Title"})
		if t.CanTag(tag) {
			r.Fail("cantag", "%s: CanTag(%q) is true", mn, tag)
		}
		if g, err := t.GetTag(tag); g != "" || err == nil {
			r.Fail("unknown-tag", "%s: GetTag(%q) = %q, %v", mn, tag, g, err)
		}
		err := t.SetTag(tag, "value")
		r.Logf("%s SetTag(%q) unknown: %v", mn, tag, err)
		r.judge(d, props, []outcome{refused}, err, mn+" SetTag("+tag+")")
		return
	}
	if r.N(5) == 4 && r.setComposed(d, props, mn, t) {
		return
	}
	e := &tagList[pick(r.Src, tagsOf[mn])]
	if e.Key == "" {
		return
	}
	if e.Kind == "Alt" {
		r.setLocale(d, props, mn, t, e)
		return
	}
	// where the property is
	var at *target
	for _, x := range targets(props, func(b string) bool { return false }) {
		if x.key == e.Key {
			y := x
			at = &y
		}
	}
	if at == nil {
		for k := range w {
			if k == e.Key || strings.HasPrefix(k, e.Key+"/") || strings.HasPrefix(k, e.Key+"[") {
				return
			}
		}
	} else if at.v.Kind != KText || alwaysWritten(e.Key, at.v.Text) {
		return
	}
	tag := r.tagName(e)
	apply := func(f func()) outcome {
		f()
		o := outcome{cloneProps(*props), false}
		*props = cloneProps(same.props)
		return o
	}
	if e.Strict && r.N(6) == 5 {
		v := pick(r.Src, invalidTexts)
		err := t.SetTag(tag, v)
		r.Logf("%s SetTag(%s, %q) invalid: %v", mn, tag, v, err)
		r.judge(d, props, []outcome{refused}, err, mn+" SetTag("+tag+", "+v+")")
		r.checkTags(d, *props, "refused-")
		r.Count("tags.refused", 1)
		return
	}
	var v string
	if len(e.Vals) > 0 {
		v = pick(r.Src, e.Vals)
	} else {
		v = r.tagText()
	}
	var out outcome
	switch {
	case e.Kind == "" && at != nil && !at.sole && !holdsCopies(d, at.base, "tiff", "exif", "exifEX", "riffinfo", "qt", "pdf", "iXML", "id3", "photoshop", "aux") && r.N(6) == 5:
		v = ""
		out = apply(at.remove)
	case at != nil:
		out = apply(func() { at.v.Text = v })
	default:
		x := Val{Kind: KText, Text: v, Alts: e.Vals, Free: len(e.Vals) == 0}
		switch e.Kind {
		case "Seq":
			x = Val{Kind: KSeq, Items: []Val{x}}
		case "Bag":
			x = Val{Kind: KBag, Items: []Val{x}}
		}
		out = apply(func() { putKey(props, e.Key, x) })
	}
	err := t.SetTag(tag, v)
	d.SetDirty()
	r.Logf("%s SetTag(%s, %q): %v", mn, tag, clip(v), err)
	g, gerr := t.GetTag(tag)
	if err == nil && (g != v || gerr != nil) {
		r.Fail("tag-read", "%s: SetTag(%s, %q), then GetTag = %q, %v", mn, tag, clip(v), clip(g), gerr)
	}
	r.judge(d, props, []outcome{out}, err, mn+" SetTag("+tag+", "+clip(v)+")")
	r.nontrivial = true
	r.Count("tags.set", 1)
}

// setLocale sets one language.
func (r *R) setLocale(d *xmp.Document, props *[]Prop, mn string, t tagger, e *TagEntry) {
	m := t.(xmp.Model)
	if mirrorOf[e.Key] != nil {
		return
	}
	var at *Val
	for i := range *props {
		if p := &(*props)[i]; "{"+p.NS+"}"+p.Name == e.Key {
			at = &p.V
		}
	}
	lang := pick(r.Src, langs)
	v := r.tagText()
	if at == nil {
		lang = "x-default"
	} else {
		if at.Kind != KAlt {
			return
		}
		def := false
		for _, it := range at.Items {
			def = def || it.Lang == "x-default"
			if it.Text == v || it.Lang == "" {
				return
			}
			for _, o := range at.Items {
				if &o != &it && o.Lang != it.Lang && o.Text == it.Text {
					return
				}
			}
		}
		if !def {
			return
		}
	}
	if r.N(8) == 7 { // not a language alternative
		for _, i := range tagsOf[mn] {
			if o := &tagList[i]; o.Kind == "" {
				if err := xmp.SetLocaleField(m, lang, o.Tag, v); err == nil {
					r.Fail("locale-unreported", "%s: SetLocaleField(%s, %s) reported success", mn, lang, o.Tag)
				}
				if _, err := xmp.GetLocaleField(m, lang, o.Tag); err == nil {
					r.Fail("locale-unreported", "%s: GetLocaleField(%s, %s) reported success", mn, lang, o.Tag)
				}
				break
			}
		}
		checkDoc(r, d, *props, "refused-")
		return
	}
	tag := r.tagName(e)
	err := setLocaleTag(m, lang, tag, v)
	r.Logf("%s SetLocaleField(%s, %s, %q): %v", mn, lang, tag, clip(v), err)
	x := Val{Kind: KText, Text: v, Lang: lang, Free: true}
	np := cloneProps(*props)
	if at == nil {
		putKey(&np, e.Key, Val{Kind: KAlt, Items: []Val{x}})
	} else {
		for i := range np {
			p := &np[i]
			if "{"+p.NS+"}"+p.Name != e.Key {
				continue
			}
			done := false
			for j := range p.V.Items {
				if p.V.Items[j].Lang == lang {
					p.V.Items[j].Text = v
					done = true
				}
			}
			if !done {
				p.V.Items = append(p.V.Items, x)
			}
		}
	}
	d.SetDirty()
	r.judge(d, props, []outcome{{np, false}}, err, mn+" SetLocaleField("+lang+", "+tag+", "+clip(v)+")")
	r.nontrivial = true
	r.Count("tags.locale", 1)
}

// apart: tags that share a property.
var apart = map[string]int{"id3/TDAT": 1, "id3/TIME": 1, "id3/TYER": 1, "id3/TDRC": 1, "id3/TLAN": 2, "id3/TIT2": 2, "id3/TCOP": 2,
	"riffinfo/IDIT": 3, "riffinfo/DTIM": 3, "riffinfo/IENC": 4, "riffinfo/CODE": 4, "riffinfo/STAR": 5, "riffinfo/ISTR": 5,
	"exif/0x8827": 6, "tiff/Artist": 7, "tiff/X_Artist": 7, "tiff/DateTime": 8, "tiff/X_DateTime": 8, "tiff/Software": 9, "tiff/X_Software": 9}

// soloTags: a document with one native model, whose tags include those that
// are kept in step with standard properties.
func (r *R) soloTags() {
	mn := pick(r.Src, tagMods)
	ns, err := xmp.NsRegistry.GetNamespace(mn)
	if err != nil {
		r.Fail("model-refused", "GetNamespace(%s): %v", mn, err)
	}
	d := xmp.NewDocument()
	x, err := d.MakeModel(ns)
	if err != nil {
		r.Fail("model-refused", "MakeModel(%s): %v", mn, err)
	}
	t := x.(tagger)
	vals := map[int]string{} // what was set
	group := map[int]bool{}
	kept := map[int]bool{}   // values that a save has copied elsewhere
	stored := map[int]bool{} // since the last restart
	n := 1 + r.Small(20)
	check := func(pre string) {
		for _, i := range tagsOf[mn] {
			e := &tagList[i]
			if v, ok := vals[i]; ok {
				if g, err := t.GetTag(e.Tag); err != nil || g != v {
					r.Fail(pre+"tag", "%s: GetTag(%s) = %q, %v after SetTag with %q", mn, e.Tag, clip(g), err, clip(v))
				}
			} else if e.Key != "" && e.Kind != "Alt" {
				if apart[mn+"/"+e.Tag] > 0 && group[apart[mn+"/"+e.Tag]] {
					continue // a copy of another tag
				}
				if g, err := t.GetTag(e.Tag); err != nil || g != "" && !alwaysWritten(e.Key, g) {
					r.Fail(pre+"tag", "%s: GetTag(%s) = %q, %v, never set", mn, e.Tag, clip(g), err)
				}
			}
		}
	}
	var durable []byte
	durVals := map[int]string{}
	durGroup := map[int]bool{}
	load := func(b []byte) {
		d = loadBytes(r, b, false)
		x := d.FindModel(ns)
		if x == nil {
			if x, err = d.MakeModel(ns); err != nil {
				r.Fail("model-refused", "MakeModel(%s): %v", mn, err)
			}
			if err := x.SyncFromXMP(d); err != nil {
				r.Fail("model-refused", "SyncFromXMP: %v", err)
			}
		}
		t = x.(tagger)
	}
	for j := 0; j < n; j++ {
		switch k := r.N(12); {
		case k < 8:
			i := pick(r.Src, tagsOf[mn])
			e := &tagList[i]
			if e.Kind == "Alt" {
				continue
			}
			if _, ok := vals[i]; ok && e.List {
				continue
			}
			if e.Key == "" && kept[i] {
				continue // the copy takes precedence
			}
			if g := apart[mn+"/"+e.Tag]; g > 0 {
				if _, ok := vals[i]; group[g] && !ok {
					continue
				}
				group[g] = true
			}
			tag := r.tagName(e)
			if e.Strict && r.N(6) == 5 {
				v := pick(r.Src, invalidTexts)
				err := t.SetTag(tag, v)
				r.Logf("%s SetTag(%s, %q) invalid: %v", mn, tag, v, err)
				if err == nil {
					r.Fail("tag-unreported", "%s: SetTag(%s, %q) reported success", mn, tag, v)
				}
				check("refused-")
				if _, ok := vals[i]; !ok {
					if g, err := t.GetTag(tag); err != nil || g != "" && g != "0" {
						r.Fail("refused-tag", "%s: refused SetTag(%s, %q), then GetTag = %q, %v", mn, tag, v, clip(g), err)
					}
				}
				continue
			}
			var v string
			if len(e.Vals) > 0 {
				v = pick(r.Src, e.Vals)
			} else {
				v = r.tagText()
			}
			if _, ok := vals[i]; ok && e.Key != "" && !kept[i] && apart[mn+"/"+e.Tag] == 0 && r.N(6) == 5 {
				v = ""
			}
			err := t.SetTag(tag, v)
			r.Logf("%s SetTag(%s, %q): %v", mn, tag, clip(v), err)
			if err != nil {
				r.Fail("tag-refused", "%s: SetTag(%s, %q): %v", mn, tag, clip(v), err)
			}
			vals[i] = v
			if v == "" {
				delete(vals, i)
			}
			stored[i] = true
			d.SetDirty()
			check("")
			r.nontrivial = true
			r.Count("tags.set", 1)
		case k == 8:
			p := r.writePlan(2000)
			_, w, err := (&SaveOpt{}).save(d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			for i := range vals {
				kept[i] = true
			}
			check("failed-save-")
		case k == 9 && durable != nil:
			r.Fault("crash.unsaved")
			r.Logf("crash and restart")
			reinit()
			load(durable)
			vals, group = map[int]string{}, map[int]bool{}
			for i, v := range durVals {
				if tagList[i].Stays {
					vals[i] = v
				}
			}
			for g := range durGroup {
				group[g] = true
			}
			stored = map[int]bool{}
			check("restart-")
		default:
			o := r.saveOpt()
			o.flags &^= xmp.Xpadding
			b, _, err := o.save(d, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode %+v: %v", *o, err)
			}
			r.Logf("XMP save %+v, %d bytes", *o, len(b))
			if r.tracing {
				r.Logf("saved %s", clip2(string(b), 3000))
			}
			q, err := refParse(b)
			if err != nil {
				r.Fail("unreadable", "saved data: %v", err)
			}
			l := canonLeaves(q, false)
			for _, i := range tagsOf[mn] {
				e := &tagList[i]
				for _, k := range e.Leaves {
					if stored[i] && l[k] != vals[i] && !(vals[i] == "" && alwaysWritten(k, l[k])) {
						r.Fail("stored-tag", "%s: SetTag(%s, %q), saved data have %s = %q", mn, e.Tag, clip(vals[i]), shortURI(k), clip(l[k]))
					}
				}
			}
			check("saved-")
			durable, durVals, durGroup = b, map[int]string{}, map[int]bool{}
			for i, v := range vals {
				durVals[i] = v
				kept[i] = true
			}
			for g := range group {
				durGroup[g] = true
			}
		}
	}
}

func runC22(r *R) {
	loadTags()
	loadMirrors()
	r.mapOrder()
	r.skipNS = map[string]bool{simURI2: true}
	switch r.N(12) {
	case 8, 9, 10:
		r.soloTags()
		return
	case 11:
		if r.N(2) == 1 {
			r.ixmlChunks()
		} else {
			r.embedded()
		}
		return
	}
	props := r.genProps(&GenOpt{InKnown: true, N: 1 + r.Small(12), Unknown: pick(r.Src, []int{0, 1, 3}), NoMirror: true, SkipNS: r.skipNS})
	b := writePacket(props, r.style(), true, false)
	r.Logf("document: %s", describe(props))
	if r.tracing {
		r.Logf("xml %s", clip2(string(b), 3000))
	}
	d := loadBytes(r, b, false)
	r.checkTags(d, props, "")
	durable, durProps, durJSON := b, cloneProps(props), false
	loose := false
	n := 1 + r.Small(12)
	if r.thorough {
		n = 1 + r.Small(30)
	}
	for i := 0; i < n; i++ {
		switch k := r.N(16); {
		case k < 9:
			for j, m := 0, 1+r.N(4); j < m; j++ {
				r.setTag(d, &props)
			}
			r.checkTags(d, props, "")
		case k == 9:
			r.editSome(d, &props)
			r.checkTags(d, props, "edited-")
		case k == 10: // failed save
			x, _, err := (&SaveOpt{}).save(d, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode: %v", err)
			}
			p := r.writePlan(len(x))
			_, w, err := (&SaveOpt{}).save(d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			checkDoc(r, d, props, "failed-save-")
			r.checkTags(d, props, "failed-save-")
		case k == 11:
			r.Fault("crash.unsaved")
			r.Logf("crash and restart")
			reinit()
			d = loadBytes(r, durable, durJSON)
			props = cloneProps(durProps)
			checkDoc(r, d, props, "restart-")
			r.checkTags(d, props, "restart-")
		default:
			x := r.ackSave(d, props, &loose, r.N(4) == 3, &durJSON)
			durable, durProps = x, cloneProps(props)
			r.checkTags(d, props, "saved-")
			if r.N(2) == 1 {
				r.Fault("crash.after-save")
				r.Logf("crash and restart")
				reinit()
				d = loadBytes(r, durable, durJSON)
				checkDoc(r, d, props, "restart-")
				r.checkTags(d, props, "restart-")
			}
		}
	}
	x := r.ackSave(d, props, &loose, false, &durJSON)
	r.Fault("crash.after-save")
	reinit()
	d = loadBytes(r, x, false)
	checkDoc(r, d, props, "restart-")
	r.checkTags(d, props, "restart-")
}

// embedded: packets handed to a model as the native tag of a container format
// become part of the document when it is saved.
func (r *R) embedded() {
	have := map[string]bool{}
	gen := func(n int, mirrors bool) []Prop {
		var l []Prop
		for _, p := range r.genProps(&GenOpt{InKnown: true, N: n, Unknown: pick(r.Src, []int{0, 1, 3}), NoMirror: true, Have: have, Skip: func(e *Entry) bool {
			return noPath(e) || preset(&e.P) || e.P.NS == "http://ns.apple.com/quicktime/1.0/" || !mirrors && mirrorOf["{"+e.P.NS+"}"+e.P.Name] != nil
		}}) {
			if !zeroLike(&p) && !noDefault(p.V, inModel("{"+p.NS+"}"+p.Name)) {
				l = append(l, p)
			}
		}
		return l
	}
	shared := gen(1+r.Small(6), false)
	part := func() []Prop {
		var l []Prop
		for j := range shared {
			if r.N(4) != 3 {
				l = append(l, r.variant(&shared[j]))
			}
		}
		return append(l, gen(r.Small(5), true)...)
	}
	props := part()
	note := func(l []Prop) {
		for _, p := range l {
			r.had["{"+p.NS+"}"+p.Name] = true
		}
	}
	r.had = map[string]bool{}
	note(props)
	durable, durProps, durJSON := writePacket(props, r.style(), true, false), cloneProps(props), false
	r.Logf("document: %s", describe(props))
	if r.tracing {
		r.Logf("xml %s", clip2(string(durable), 3000))
	}
	d := loadBytes(r, durable, false)
	var emb []Prop
	synced := func() {
		if emb != nil {
			mergeProps(&props, emb, xmp.MERGE)
		}
	}
	restart := func() {
		r.Logf("crash and restart")
		reinit()
		d = loadBytes(r, durable, durJSON)
		props, emb = cloneProps(durProps), nil
		checkDoc(r, d, props, "restart-")
	}
	loose := true
	for i, n := 0, 2+r.Small(8); i < n; i++ {
		switch k := r.N(8); {
		case k < 3:
			x, err := d.MakeModel(mustNS(r, "qt"))
			if err != nil {
				r.Fail("model-refused", "MakeModel(qt): %v", err)
			}
			t := x.(tagger)
			l := part()
			b := writePacket(l, r.style(), true, false)
			if r.N(4) == 3 {
				b = b[:1+r.N(len(b)-1)]
				if _, err := refParse(b); err != nil {
					err := t.SetTag("XMP_", string(b))
					r.Logf("SetTag(XMP_) with %d bytes, cut off: %v", len(b), err)
					if err == nil {
						r.Fail("tag-unreported", "SetTag(XMP_) of a cut-off packet reported success: %s", clip2(string(b), 300))
					}
					checkDoc(r, d, props, "refused-")
				}
				continue
			}
			err = t.SetTag("XMP_", string(b))
			r.Logf("SetTag(XMP_): %v, %s", err, describe(l))
			if r.tracing {
				r.Logf("xml %s", clip2(string(b), 3000))
			}
			if err != nil {
				r.Fail("tag-refused", "SetTag(XMP_): %v", err)
			}
			if !t.CanTag("XMP_") {
				r.Fail("cantag", "CanTag(XMP_) is false")
			}
			d.SetDirty()
			emb = l
			note(l)
			synced() // listing does it
			checkDoc(r, d, props, "tag-")
			r.nontrivial = true
			r.Count("tags.embedded", 1)
		case k == 3:
			if emb == nil {
				r.editSome(d, &props)
				note(props)
				checkDoc(r, d, props, "edited-")
			}
		case k == 4:
			p := r.writePlan(2000)
			_, w, err := (&SaveOpt{}).save(d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			synced()
			checkDoc(r, d, props, "failed-save-")
		case k == 5:
			r.Fault("crash.unsaved")
			restart()
		default:
			synced()
			durable = r.ackSave(d, props, &loose, r.N(3) == 2, &durJSON)
			durProps = cloneProps(props)
			checkDoc(r, d, props, "saved-")
			if r.N(2) == 1 {
				r.Fault("crash.after-save")
				restart()
			}
		}
	}
	synced()
	durable = r.ackSave(d, props, &loose, false, &durJSON)
	durProps = cloneProps(props)
	r.Fault("crash.after-save")
	restart()
}

func mustNS(r *R, p string) *xmp.Namespace {
	ns, err := xmp.NsRegistry.GetNamespace(p)
	if err != nil {
		r.Fail("model-refused", "GetNamespace(%s): %v", p, err)
	}
	return ns
}
