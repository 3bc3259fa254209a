package main

// C17: merging transfers every property and entangles nothing.

import (
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C17", Run: runC17, Quick: 40000,
		Rule: "one run = two to four generated documents sharing some properties and a history of merges with the documented flags, edits, saves, failed saves, closes and restarts on all of them, every open document checked after every step; non-trivial when a merge changed its destination",
		Real: "Document.Merge, SetPath, GetPath, ListPaths, Encoder, Unmarshal, JSON, Close, all models", Stub: "io.Writer and io.Reader (simulated disk), process (state reset at a crash)"})
}

// zeroLike values read like missing ones.
func zeroLike(p *Prop) bool {
	if !inModel("{" + p.NS + "}" + p.Name) {
		return false
	}
	z := false
	p.V.eachText(func(t *Val) { z = z || zeroText(t.Text) })
	return z
}

// preset: properties with a value even if missing.
func preset(p *Prop) bool {
	if p.NS == "http://ns.adobe.com/exif/1.0/" {
		switch p.Name {
		case "ColorSpace", "Contrast", "CustomRendered", "ExposureMode", "ExposureProgram", "FileSource", "FocalPlaneResolutionUnit", "GainControl", "LightSource", "MeteringMode", "Saturation", "SceneCaptureType", "SceneType", "SensingMethod", "Sharpness", "SubjectDistanceRange", "WhiteBalance", "Flash":
			return true
		}
	}
	return p.NS == "http://ns.adobe.com/ixml/1.0/" && p.Name == "version"
}

func zeroText(s string) bool {
	s = strings.ToLower(s)
	return s == "0" || s == "false" || s == "0, 0" || s == "00:00:00:00" || s == "0.0" || s == "0/1"
}

// variant is another value of the same shape.
func (r *R) variant(p *Prop) Prop {
	q := Prop{p.NS, p.Name, p.V.clone()}
	known := inModel("{" + p.NS + "}" + p.Name)
	var walk func(v *Val)
	walk = func(v *Val) {
		switch v.Kind {
		case KText:
			switch {
			case r.N(3) == 2:
			case v.Free:
				v.Text = r.text()
			case len(v.Alts) > 0:
				if a := pick(r.Src, v.Alts); a != freeText && !(known && zeroText(a)) {
					v.Text = a
				}
			}
		case KStruct:
			for i := range v.Fields {
				walk(&v.Fields[i].V)
			}
			if !known && len(v.Fields) > 1 && r.N(3) == 2 {
				i := r.N(len(v.Fields))
				v.Fields = append(v.Fields[:i:i], v.Fields[i+1:]...)
			}
		default:
			for i := range v.Items {
				walk(&v.Items[i])
			}
			if n := len(v.Items); n > 1 && v.Kind != KAlt && !known && r.N(3) == 2 {
				v.Items = v.Items[:1+r.N(n)]
			}
			if v.Kind == KAlt && len(v.Items) > 1 && v.Items[0].Kind == KText && r.N(3) == 2 {
				i := 1 + r.N(len(v.Items)-1)
				v.Items = append(v.Items[:i:i], v.Items[i+1:]...)
			}
		}
	}
	walk(&q.V)
	return q
}

// mergeProps is the reference merge: property by property, item by item.
// refused counts what the flags don't allow.
func mergeProps(dst *[]Prop, src []Prop, f xmp.SyncFlags) (refused, changed int) {
	create, replace := f&xmp.CREATE != 0, f&xmp.REPLACE != 0
	var val func(d *Val, s *Val)
	fields := func(d *[]Prop, s []Prop) {
		for i := range s {
			found := false
			for j := range *d {
				if (*d)[j].NS == s[i].NS && (*d)[j].Name == s[i].Name {
					val(&(*d)[j].V, &s[i].V)
					found = true
				}
			}
			if !found {
				l, _ := leavesOf(s[i : i+1])
				switch {
				case len(l) == 0:
				case !create:
					refused++
				default:
					*d = append(*d, Prop{s[i].NS, s[i].Name, s[i].V.clone()})
					changed++
				}
			}
		}
	}
	val = func(d *Val, s *Val) {
		switch s.Kind {
		case KText:
			switch {
			case d.Text == s.Text:
			case d.Text == "" && !create || d.Text != "" && !replace:
				refused++
			default:
				d.Text = s.Text
				changed++
			}
		case KStruct:
			fields(&d.Fields, s.Fields)
		default:
			for i := range s.Items {
				at := -1
				if s.Kind == KAlt && s.Items[i].Kind == KText {
					for j := range d.Items {
						if altLang(&d.Items[j]) == altLang(&s.Items[i]) {
							at = j
						}
					}
				} else if i < len(d.Items) {
					at = i
				}
				switch {
				case at >= 0:
					val(&d.Items[at], &s.Items[i])
				case !create:
					refused++
				default:
					d.Items = append(d.Items, s.Items[i].clone())
					changed++
				}
			}
		}
	}
	fields(dst, src)
	return
}

func altLang(v *Val) string {
	if v.Lang == "" {
		return "x-default"
	}
	return v.Lang
}

type mdoc struct {
	name    string
	d       *xmp.Document // nil: closed
	props   []Prop
	durable []byte
	durProp []Prop
	durJSON bool
	loose   bool
}

func (m *mdoc) reopen(r *R) {
	m.d = loadBytes(r, m.durable, m.durJSON)
	m.props = cloneProps(m.durProp)
	m.loose = true
}

func runC17(r *R) {
	loadData()
	r.mapOrder()
	// properties of all documents
	nd := 2 + r.Small(3)
	docs := make([]*mdoc, nd)
	have := map[string]bool{}
	var shared []Prop
	loadMirrors()
	gen := func(n int, mirrors bool) []Prop {
		var l []Prop
		for _, p := range r.genProps(&GenOpt{InKnown: true, N: n, Unknown: pick(r.Src, []int{0, 1, 3, 8}), NoMirror: true, Have: have, Skip: func(e *Entry) bool {
			return noPath(e) || preset(&e.P) || !mirrors && mirrorOf["{"+e.P.NS+"}"+e.P.Name] != nil
		}}) {
			if !zeroLike(&p) && !noDefault(p.V, inModel("{"+p.NS+"}"+p.Name)) {
				l = append(l, p)
			}
		}
		return l
	}
	shared = gen(1+r.Small(8), false)
	r.had = map[string]bool{}
	for i := range docs {
		m := &mdoc{name: string(rune('A' + i))}
		for j := range shared {
			if r.N(4) != 3 {
				m.props = append(m.props, r.variant(&shared[j]))
			}
		}
		m.props = append(m.props, gen(r.Small(8), true)...)
		for _, p := range m.props {
			r.had["{"+p.NS+"}"+p.Name] = true
		}
		m.durable = writePacket(m.props, r.style(), true, false)
		m.durProp = cloneProps(m.props)
		r.Logf("document %s: %s", m.name, describe(m.props))
		if r.tracing {
			r.Logf("xml %s", clip2(string(m.durable), 3000))
		}
		if i == 0 && r.N(4) == 3 { // a new document
			m.props, m.durProp = nil, nil
			m.d = xmp.NewDocument()
			m.durable = writePacket(nil, r.style(), true, false)
		} else {
			m.d = loadBytes(r, m.durable, false)
		}
		docs[i] = m
	}
	check := func(pre string) {
		for _, m := range docs {
			if m.d == nil {
				continue
			}
			if v := try(func() { checkDoc(r, m.d, m.props, pre) }); v != nil {
				r.Fail(v.class, "document %s: %s", m.name, v.msg)
			}
		}
	}
	check("load-")
	n := 2 + r.Small(8)
	if r.thorough {
		n = 2 + r.Small(20)
	}
	for i := 0; i < n; i++ {
		a := docs[r.N(nd)]
		k := r.N(12)
		if i == 0 {
			k = 0
		}
		if a.d == nil {
			r.Logf("open %s", a.name)
			a.reopen(r)
			check("restart-")
			continue
		}
		switch {
		case k < 4:
			b := docs[r.N(nd)]
			if b == a || b.d == nil {
				continue
			}
			r.merge(a, b)
			check("merge-")
			if r.N(3) == 2 {
				r.checkGet(a.d, nil)
			}
		case k < 7:
			for j, l := 0, 1+r.N(3); j < l; j++ {
				r.editSome(a.d, &a.props)
				for _, p := range a.props {
					r.had["{"+p.NS+"}"+p.Name] = true
				}
			}
			check("edit-")
		case k == 7:
			r.Logf("close %s", a.name)
			a.d.Close()
			a.d = nil
			check("close-")
		case k == 8:
			x, _, err := (&SaveOpt{}).save(a.d, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode: %v", err)
			}
			p := r.writePlan(len(x))
			_, w, err := (&SaveOpt{}).save(a.d, p)
			r.Logf("save of %s to destination with %v: %v", a.name, p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			check("failed-save-")
		case k == 9:
			r.Fault("crash.unsaved")
			r.Logf("crash and restart")
			reinit()
			for _, m := range docs {
				if m.d != nil {
					m.reopen(r)
				}
			}
			check("restart-")
		default:
			a.durable = r.ackSave(a.d, a.props, &a.loose, r.N(3) == 2, &a.durJSON)
			a.durProp = cloneProps(a.props)
			check("save-")
			if r.N(2) == 1 {
				r.Logf("restart of %s", a.name)
				a.d.Close()
				a.reopen(r)
				check("restart-")
			}
		}
	}
	for _, m := range docs {
		if m.d != nil {
			m.durable = r.ackSave(m.d, m.props, &m.loose, r.N(3) == 2, &m.durJSON)
			m.durProp = cloneProps(m.props)
		}
	}
	r.Fault("crash.after-save")
	r.Logf("crash and restart")
	reinit()
	for _, m := range docs {
		m.reopen(r)
	}
	check("restart-")
}

// noDefault: alternatives without default get one, and which is a matter of
// order.
func noDefault(v Val, known bool) bool {
	for _, f := range v.Fields {
		if noDefault(f.V, known) {
			return true
		}
	}
	for _, it := range v.Items {
		if noDefault(it, known) {
			return true
		}
	}
	if v.Kind != KAlt || len(v.Items) == 0 || v.Items[0].Kind != KText {
		return false
	}
	return altLang(&v.Items[0]) != "x-default"
}

func (r *R) merge(a, b *mdoc) {
	f := pick(r.Src, []xmp.SyncFlags{xmp.MERGE, xmp.EXTEND, xmp.CREATE | xmp.NOFAIL, xmp.CREATE | xmp.REPLACE, xmp.CREATE | xmp.REPLACE | xmp.NOFAIL, xmp.REPLACE | xmp.NOFAIL, xmp.ADD, 0, xmp.DEFAULT, xmp.CREATE})
	eff := f
	if eff == 0 {
		eff = xmp.DEFAULT
	}
	old := cloneProps(a.props)
	merged := cloneProps(a.props)
	refused, changed := mergeProps(&merged, b.props, eff)
	err := a.d.Merge(b.d, f)
	r.Logf("merge %s into %s, %s: %v (%d changes, %d refused)", b.name, a.name, flagStr(f), err, changed, refused)
	r.Count("merges", 1)
	a.loose = true
	if err != nil {
		if eff&xmp.NOFAIL != 0 || refused == 0 {
			r.Fail("merge-refused", "Merge with %s: %v", flagStr(f), err)
		}
		// part of it may have happened
		r.Count("merges.refused", 1)
		got, _, lerr := listing(a.d)
		if lerr != nil {
			r.Fail("merge-list-error", "ListPaths after refused merge: %v", lerr)
		}
		o, m := wantListing(old), wantListing(merged)
		has := hasBase(m)
		for _, k := range sortedKeys(Leaves(o)) {
			if v, ok := got[k]; !ok && !inventedDefault(k, o) && !mirrored(k, has) || ok && v != o[k] && v != m[k] {
				r.Fail("merge-refused-changed", "refused merge with %s: %s was %q and is %q", flagStr(f), shortURI(k), clip(o[k]), clip(v))
			}
		}
		for _, k := range sortedKeys(Leaves(got)) {
			if _, ok := m[k]; !ok && !alwaysWritten(k, got[k]) && !inventedDefault(k, got) && !related(k, r.orHad(has)) {
				r.Fail("merge-refused-invented", "refused merge with %s: %s = %q is in neither document", flagStr(f), shortURI(k), clip(got[k]))
			}
		}
		a.d.Close()
		a.reopen(r)
		return
	}
	if refused > 0 && eff&xmp.NOFAIL == 0 {
		r.Fail("merge-unreported", "Merge with %s reported success, but %d values had to be refused", flagStr(f), refused)
	}
	a.props = merged
	if changed > 0 {
		r.nontrivial = true
	}
}
