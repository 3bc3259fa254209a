package main

// C15: acknowledged edits are what later reads see, refused edits change
// nothing. A reference model applies the documented flag rules to the
// canonical properties; histories interleave edits with saves, failed saves,
// crashes and restarts.

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C15", Run: runC15, Quick: 80000,
		Rule: "one run = one generated document and a history of SetPath calls with seeded flags on simple values, list items, whole lists, languages, new properties and arbitrary paths, edits through typed models and Sync calls, with saves, failed saves, crashes and restarts in between; non-trivial when at least one edit took effect",
		Real: "Document.SetPath, GetPath, ListPaths, Sync, SyncMulti, MakeModel, list types, Encoder, Unmarshal, all models", Stub: "io.Writer and io.Reader (simulated disk), process (state reset at a crash)"})
}

// target is an editable place of the reference document.
type target struct {
	key    string // expanded path, without index
	base   string
	fields *[]Prop // where the property or field is kept
	fi     int
	v      *Val
	sole   bool // its removal would empty an array item
	nested bool // array in an array
}

func (t *target) known() bool { return inModel(t.key) }

// remove takes the whole property out of the document.
func (t *target) remove() {
	*t.fields = append((*t.fields)[:t.fi:t.fi], (*t.fields)[t.fi+1:]...)
}

// targets lists simple values, lists of texts and language alternatives.
func targets(props *[]Prop, skip func(base string) bool) []target {
	var l []target
	var walk func(pre string, fields *[]Prop, sole bool)
	var val func(key string, fields *[]Prop, i int, v *Val, sole bool)
	inner := func(key string, v *Val, n int) {
		for _, it := range v.Items {
			if it.Kind != KText {
				return
			}
		}
		l = append(l, target{key, baseOf(key), nil, 0, v, true, true})
	}
	val = func(key string, fields *[]Prop, i int, v *Val, sole bool) {
		switch v.Kind {
		case KText:
			l = append(l, target{key, baseOf(key), fields, i, v, sole, false})
		case KStruct:
			walk(key+"/", &v.Fields, sole)
		default:
			texts := true
			for _, it := range v.Items {
				texts = texts && it.Kind == KText
			}
			if texts {
				l = append(l, target{key, baseOf(key), fields, i, v, sole, false})
				return
			}
			for j := range v.Items {
				k := key + "[" + strconv.Itoa(j) + "]"
				if it := &v.Items[j]; it.Kind == KStruct {
					walk(k+"/", &it.Fields, true)
				} else if it.isArray() {
					inner(k, it, len(v.Items))
				}
			}
		}
	}
	walk = func(pre string, fields *[]Prop, sole bool) {
		for i := range *fields {
			f := &(*fields)[i]
			key := pre + "{" + f.NS + "}" + f.Name
			if pre == "" && skip(key) {
				continue
			}
			val(key, fields, i, &f.V, sole && len(*fields) == 1)
		}
	}
	walk("", props, false)
	return l
}

// rawPath writes an expanded path with the prefixes of the document.
func (r *R) rawPath(d *xmp.Document, key string) xmp.Path { return r.rawPathTo(d, key, false) }

// rawPathTo: exact paths name the namespaces of all fields.
func (r *R) rawPathTo(d *xmp.Document, key string, exact bool) xmp.Path {
	uris := map[string]string{}
	for _, n := range d.Namespaces() {
		if p, ok := uris[n.GetURI()]; !ok || n.GetName() < p {
			uris[n.GetURI()] = n.GetName()
		}
	}
	out, top := "", ""
	for i, s := range expandedSegs(key) {
		p := uris[s[0]]
		if p == "" {
			p = xmp.NsRegistry.GetPrefix(s[0])
		}
		switch {
		case i == 0:
			out, top = p+":"+s[1], p
		case !exact && p == top && r.N(2) == 0 && !strings.Contains(out, "/"): // the library lists it so
			out += "/" + s[1]
		default:
			out += "/" + p + ":" + s[1]
		}
	}
	return xmp.Path(strings.ReplaceAll(out, "][", "]/["))
}

// expandedSegs splits {uri}name[i]/{uri}name.
func expandedSegs(key string) [][2]string {
	var l [][2]string
	for len(key) > 0 {
		i := strings.IndexByte(key, '}')
		u := key[1:i]
		rest := key[i+1:]
		j := strings.Index(rest, "/{")
		if j < 0 {
			return append(l, [2]string{u, rest})
		}
		l = append(l, [2]string{u, rest[:j]})
		key = rest[j+1:]
	}
	return l
}

// outcome is one admissible result of an edit.
type outcome struct {
	props []Prop
	err   bool
}

// try catches a violation.
func try(f func()) (v *violation) {
	defer func() {
		if x := recover(); x != nil {
			if y, ok := x.(violation); ok {
				v = &y
				return
			}
			panic(x)
		}
	}()
	f()
	return nil
}

// edit of the reference document
type edit struct {
	key  string // expanded path including the last index
	idx  string // the last index, "" none
	v    string
	f    xmp.SyncFlags
	kind string
}

func (r *R) editFlags(v string) xmp.SyncFlags {
	if r.N(4) == 3 {
		return xmp.SyncFlags(r.N(64))
	}
	if v == "" {
		return pick(r.Src, []xmp.SyncFlags{xmp.DELETE, xmp.DEFAULT, 0, xmp.DELETE | xmp.NOFAIL, xmp.MERGE, xmp.REPLACE})
	}
	return pick(r.Src, []xmp.SyncFlags{xmp.CREATE, xmp.REPLACE, xmp.CREATE | xmp.REPLACE, 0, xmp.DEFAULT, xmp.MERGE, xmp.EXTEND, xmp.APPEND, xmp.UNIQUE, xmp.CREATE | xmp.APPEND, xmp.CREATE | xmp.UNIQUE, xmp.CREATE | xmp.DELETE, xmp.DELETE})
}

// outcomes applies the flag rules. t refers into props and is nil when the
// property does not exist; create then makes it.
func outcomes(props *[]Prop, t *target, e *edit, create func(*[]Prop)) []outcome {
	f := e.f
	if f == 0 {
		f = xmp.DEFAULT
	}
	nofail := f&xmp.NOFAIL != 0
	has := func(x xmp.SyncFlags) bool { return f&x != 0 }
	orig := cloneProps(*props)
	refused := outcome{orig, !nofail}
	same := outcome{orig, false}
	apply := func(g func()) outcome {
		g()
		o := outcome{cloneProps(*props), false}
		*props = cloneProps(orig)
		return o
	}
	isList := t != nil && (t.v.Kind == KSeq || t.v.Kind == KBag)
	isAlt := t != nil && t.v.Kind == KAlt
	// current value
	cur, at := "", -1
	if t != nil {
		switch {
		case t.v.Kind == KText:
			cur = t.v.Text
		case isAlt:
			k := e.idx
			for i, it := range t.v.Items {
				if it.Lang == k || k == "" && it.Lang == "x-default" || k == "x-default" && it.Lang == "" {
					at = i
				}
			}
			if at >= 0 {
				cur = t.v.Items[at].Text
			} else if k == "" && len(t.v.Items) > 0 {
				cur = t.v.Items[0].Text
			}
		default:
			at = 0
			if e.idx != "" {
				at, _ = strconv.Atoi(e.idx)
			}
			if at < len(t.v.Items) {
				cur = t.v.Items[at].Text
			}
		}
	}
	listAppend := f&(xmp.APPEND|xmp.UNIQUE) == xmp.APPEND
	switch {
	case e.v == "" && !has(xmp.DELETE):
		return []outcome{refused}
	case cur == e.v && e.v == "":
		return []outcome{same}
	case cur == e.v && !listAppend:
		return []outcome{same}
	case cur == "" && !has(xmp.CREATE|xmp.APPEND|xmp.UNIQUE):
		return []outcome{refused}
	case cur != "" && e.v != "" && !has(xmp.REPLACE|xmp.APPEND|xmp.UNIQUE):
		return []outcome{refused}
	}
	text := func() Val {
		v := Val{Kind: KText, Text: e.v, Free: true}
		if t != nil && len(t.v.Items) > 0 {
			v.Alts, v.Free = t.v.Items[0].Alts, t.v.Items[0].Free
		}
		return v
	}
	switch {
	case t == nil: // new property
		made := apply(func() { create(props) })
		if has(xmp.CREATE) {
			return []outcome{made}
		}
		return []outcome{made, refused}
	case t.v.Kind == KText:
		switch {
		case e.v == "":
			return []outcome{apply(t.remove)}
		case has(xmp.REPLACE):
			return []outcome{apply(func() { t.v.Text = e.v })}
		case cur == e.v:
			return []outcome{same, refused}
		}
		return []outcome{refused}
	case isList && e.idx == "":
		switch {
		case e.v == "":
			return []outcome{apply(t.remove)}
		case has(xmp.UNIQUE | xmp.APPEND):
			if has(xmp.UNIQUE) {
				for _, it := range t.v.Items {
					if it.Text == e.v {
						return []outcome{same, refused}
					}
				}
			}
			return []outcome{apply(func() { t.v.Items = append(t.v.Items, text()) })}
		}
		return []outcome{apply(func() { t.v.Items = []Val{text()} })}
	case isList:
		switch {
		case e.v == "" && len(t.v.Items) == 1:
			return []outcome{apply(t.remove)}
		case e.v == "":
			return []outcome{apply(func() { t.v.Items = append(t.v.Items[:at:at], t.v.Items[at+1:]...) })}
		case at < len(t.v.Items):
			if has(xmp.REPLACE) {
				return []outcome{apply(func() { t.v.Items[at].Text = e.v })}
			}
			if cur == e.v {
				return []outcome{same, refused}
			}
			return []outcome{refused}
		}
		grown := apply(func() { t.v.Items = append(t.v.Items, text()) })
		if has(xmp.CREATE) {
			return []outcome{grown}
		}
		return []outcome{grown, refused}
	case isAlt && e.idx == "":
		switch {
		case e.v == "":
			return []outcome{apply(t.remove)}
		case has(xmp.UNIQUE | xmp.APPEND):
			switch {
			case at < 0: // no default so far
				return []outcome{apply(func() {
					x := text()
					x.Lang = "x-default"
					t.v.Items = append([]Val{x}, t.v.Items...)
				}), refused}
			case has(xmp.REPLACE):
				return []outcome{apply(func() { t.v.Items[at].Text = e.v })}
			case cur == e.v:
				return []outcome{same, refused}
			}
			return []outcome{refused}
		}
		return []outcome{apply(func() {
			x := text()
			x.Lang = "x-default"
			t.v.Items = []Val{x}
		})}
	case isAlt:
		switch {
		case e.v == "" && len(t.v.Items) == 1:
			return []outcome{apply(t.remove)}
		case e.v == "":
			return []outcome{apply(func() { t.v.Items = append(t.v.Items[:at:at], t.v.Items[at+1:]...) })}
		case at < 0:
			return []outcome{apply(func() {
				x := text()
				x.Lang = e.idx
				t.v.Items = append(t.v.Items, x)
			})}
		case has(xmp.REPLACE):
			return []outcome{apply(func() { t.v.Items[at].Text = e.v })}
		case cur == e.v:
			return []outcome{same, refused}
		}
		return []outcome{refused}
	}
	panic("outcomes")
}

// judge compares the result of an edit with its admissible outcomes.
func (r *R) judge(d *xmp.Document, props *[]Prop, outs []outcome, err error, what string) {
	var first *violation
	seen := false
	for _, o := range outs {
		if o.err != (err != nil) {
			continue
		}
		seen = true
		v := try(func() { checkDoc(r, d, o.props, "edit-") })
		if v == nil {
			*props = o.props
			return
		}
		if first == nil {
			first = v
		}
	}
	if !seen {
		if err != nil {
			r.Fail("edit-refused", "%s: %v", what, err)
		}
		first = try(func() { checkDoc(r, d, outs[0].props, "edit-") })
		if first == nil {
			r.Fail("edit-unreported", "%s: success reported, but the edit had no effect", what)
		}
		r.Fail("edit-unprescribed", "%s: must be refused, but success was reported; %s", what, first.msg)
	}
	cl := first.class
	if err != nil {
		cl = "refused-" + cl
	}
	r.Fail(cl, "%s (%v): %s", what, err, first.msg)
}

// copied: properties that models of native formats keep copies of.
func noDelete(d *xmp.Document, base string) bool {
	return holdsCopies(d, base, "pdf", "iXML", "id3")
}

func holdsCopies(d *xmp.Document, base string, models ...string) bool {
	has := false
	if !inModel(base) {
		return false
	}
	switch shortURI(base) {
	case "exif:Flash", "tiff:YCbCrSubSampling":
		return true // not apart from other parts
	case "exif:OECF", "exif:SpatialFrequencyResponse", "exif:CFAPattern", "exif:DeviceSettingDescription":
		return true // tables without columns or rows count as empty
	}
	for _, n := range d.Nodes() {
		if n.Model == nil {
			continue
		}
		if contains(models, n.Namespace()) {
			has = true
		}
	}
	if !has {
		return false
	}
	switch pool.Prefixes[base[1:strings.IndexByte(base, '}')]] {
	case "dc", "xmp", "xmpDM", "xmpRights", "photoshop", "tiff", "exif", "aux", "exifEX":
		return true
	}
	return false
}

var flagNames = []string{"CREATE", "REPLACE", "DELETE", "APPEND", "UNIQUE", "NOFAIL"}

func flagStr(f xmp.SyncFlags) string {
	if f == 0 {
		return "none"
	}
	var l []string
	for i, n := range flagNames {
		if f&(1<<uint(i)) != 0 {
			l = append(l, n)
		}
	}
	return strings.Join(l, "|")
}

// editAny performs one edit with seeded flags and judges it.
func (r *R) editAny(d *xmp.Document, props *[]Prop) {
	loadMirrors()
	no := pathless(*props)
	l := targets(props, func(b string) bool { return no[b] || mirrorOf[b] != nil })
	e := &edit{}
	var t *target
	var create func(*[]Prop)
	ns, exact := "", false
	k := r.N(10)
	if len(l) == 0 && k < 7 {
		k = 7
	}
	switch {
	case k < 7:
		t = &l[r.N(len(l))]
		e.key = t.key
		del := r.N(5) == 4 && !strings.HasSuffix(t.key, "}timeValue") && // has a default
			!t.sole && !noDelete(d, t.base)
		val := func(v *Val) string {
			if v.Free && len(t.v.Items) > 0 && r.N(5) == 4 { // near or like an item
				x := pick(r.Src, t.v.Items).Text
				if x == "" || t.v.Kind == KAlt && r.N(2) == 0 {
					return r.text()
				}
				return pick(r.Src, []string{x, swapCase(x), x + "x", "x" + x})
			}
			if v.Free && (len(v.Alts) == 0 || r.N(8) != 7) {
				return r.text()
			}
			if len(v.Alts) == 0 {
				return v.Text
			}
			return pick(r.Src, v.Alts)
		}
		switch t.v.Kind {
		case KText:
			if alwaysWritten(t.key, t.v.Text) { // cannot be told from a missing value
				return
			}
			e.kind = "simple value"
			if s := strings.ToLower(t.v.Text); t.known() && (s == "false" || s == "0") {
				return // reads like a missing value
			}
			if !del {
				e.v = val(t.v)
			}
		case KAlt:
			hasDef := false
			for _, it := range t.v.Items {
				hasDef = hasDef || it.Lang == "x-default" || it.Lang == ""
			}
			switch m := r.N(4); {
			case m == 0: // the alternative as a whole
				e.kind = "alternative"
				if !hasDef && t.known() || t.nested {
					return
				}
			case m <= 2: // existing language
				it := &t.v.Items[r.N(len(t.v.Items))]
				e.kind, e.idx = "language", it.Lang
				if e.idx == "" {
					e.idx = "x-default"
				}
				if del && e.idx == "x-default" && len(t.v.Items) > 1 {
					return
				}
				// without default the first language is the default
				if !hasDef {
					return
				}
			default:
				e.kind, e.idx = "language", pick(r.Src, langs)
				if !hasDef {
					return
				}
			}
			if !del {
				e.v = val(&t.v.Items[0])
				for _, it := range t.v.Items {
					if it.Text == e.v && it.Lang != e.idx {
						return // would become the same as another language
					}
				}
			} else {
				// languages equal to the default are merged with it
				for i, it := range t.v.Items {
					for _, it2 := range t.v.Items[:i] {
						if it.Text == it2.Text {
							return
						}
					}
				}
			}
		default:
			switch m := r.N(4); {
			case m == 0:
				e.kind = "list"
				if t.nested || strings.HasSuffix(t.key, "}YCbCrSubSampling") { // has a native form as a whole
					return
				}
			case m <= 2:
				e.kind, e.idx = "item", strconv.Itoa(r.N(len(t.v.Items)))
			default:
				e.kind, e.idx = "new item", strconv.Itoa(len(t.v.Items))
				del = false
			}
			if e.idx != "" && t.sole && len(t.v.Items) == 1 {
				del = false
			}
			if !del {
				e.v = val(&t.v.Items[r.N(len(t.v.Items))])
			}
			for _, it := range t.v.Items {
				if it.Text == "0, 0" || it.Text == "0" && t.known() { // reads like a missing value
					return
				}
			}
		}
		if e.idx != "" {
			e.key += "[" + e.idx + "]"
		}
	case k < 9: // new property of an unknown namespace
		i := r.N(5)
		ns = unkURI(i)
		name := r.Unique("New")
		e.kind = "new property"
		base := "{" + ns + "}" + name
		e.v = r.text()
		v := Val{Kind: KText, Text: e.v, Free: true}
		e.key = base
		switch r.N(6) {
		case 2:
			e.key += "[0]"
			v = Val{Kind: KSeq, Items: []Val{v}}
		case 3:
			lg := pick(r.Src, []string{"x-default", "de", "en-US"})
			e.key += "[" + lg + "]"
			v.Lang = lg
			v = Val{Kind: KAlt, Items: []Val{v}}
		case 4:
			e.key += "/{" + ns + "}fa"
			v = Val{Kind: KStruct, Fields: []Prop{{ns, "fa", v}}}
		case 5:
			e.key += "[0]/{" + ns + "}fa"
			v = Val{Kind: KSeq, Items: []Val{{Kind: KStruct, Fields: []Prop{{ns, "fa", v}}}}}
		}
		create = func(p *[]Prop) { *p = append(*p, Prop{ns, name, v.clone()}) }
	default: // new field of an existing unknown structure
		type place struct {
			key    string
			fields *[]Prop
			ns     string
		}
		var pl []place
		var walk func(key, ns string, v *Val)
		walk = func(key, ns string, v *Val) {
			has := Leaves{}
			canonVal("", *v, has, false)
			if len(has) == 0 {
				return // not kept
			}
			if v.Kind == KStruct {
				pl = append(pl, place{key, &v.Fields, ns})
				for i := range v.Fields {
					walk(key+"/{"+v.Fields[i].NS+"}"+v.Fields[i].Name, v.Fields[i].NS, &v.Fields[i].V)
				}
			}
			for i := range v.Items {
				walk(key+"["+strconv.Itoa(i)+"]", ns, &v.Items[i])
			}
		}
		for i := range *props {
			p := &(*props)[i]
			if !inModel("{"+p.NS+"}"+p.Name) && !no["{"+p.NS+"}"+p.Name] {
				walk("{"+p.NS+"}"+p.Name, p.NS, &p.V)
			}
		}
		if len(pl) == 0 {
			return
		}
		p := pl[r.N(len(pl))]
		name := r.Unique("fld")
		if r.N(3) == 2 { // of another namespace, possibly with the name of another field
			for _, n := range d.Namespaces() {
				if u := n.GetURI(); strings.HasPrefix(u, "http://sim.example/") && r.N(2) == 1 {
					p.ns = u
					break
				}
			}
			if len(*p.fields) > 0 && r.N(2) == 1 {
				name = (*p.fields)[r.N(len(*p.fields))].Name
			}
			for _, f := range *p.fields {
				if f.NS == p.ns && f.Name == name {
					name = r.Unique("fld")
				}
				exact = exact || f.Name == name // a short path could mean the other one
			}
		}
		e.kind, e.v, e.key = "new field", r.text(), p.key+"/{"+p.ns+"}"+name
		create = func(*[]Prop) {
			*p.fields = append(*p.fields, Prop{p.ns, name, Val{Kind: KText, Text: e.v, Free: true}})
		}
	}
	e.f = r.editFlags(e.v)
	if t == nil && r.N(3) != 0 {
		e.f |= xmp.CREATE
	}
	var path xmp.Path
	if ns != "" { // possibly a new namespace
		prefix := "u" + ns[len(ns)-2:len(ns)-1]
		for _, n := range d.Namespaces() {
			if n.GetURI() == ns {
				prefix = n.GetName()
			} else if n.GetName() == prefix {
				return
			}
		}
		out := ""
		for i, s := range expandedSegs(e.key) {
			if i == 0 {
				out = prefix + ":" + s[1]
			} else if r.N(2) == 0 {
				out += "/" + s[1]
			} else {
				out += "/" + prefix + ":" + s[1]
			}
		}
		path = xmp.Path(out)
	} else {
		path = r.rawPathTo(d, e.key, exact)
	}
	outs := outcomes(props, t, e, create)
	what := fmt.Sprintf("SetPath(%s = %q, %s) of a %s", path, clip(e.v), flagStr(e.f), e.kind)
	err := d.SetPath(xmp.PathValue{Path: path, Namespace: ns, Value: e.v, Flags: e.f})
	r.Logf("%s: %v", what, err)
	r.judge(d, props, outs, err, what)
	if err == nil && len(outs) == 1 && !outs[0].err {
		r.nontrivial = true
	}
	r.Count("edits", 1)
	if err != nil {
		r.Count("edits.refused", 1)
	}
	// an acknowledged value is what the path reads
	if err == nil && e.v != "" && e.f&xmp.NOFAIL == 0 && e.idx != "" || t != nil && t.v.Kind == KText && err == nil && e.v != "" && e.f&xmp.NOFAIL == 0 {
		if v, gerr := d.GetPath(path); gerr != nil || v != e.v {
			r.Fail("edit-invisible", "%s: GetPath says %q, %v", what, clip(v), gerr)
		}
	}
}

// createKnown adds a property of a known model leaf by leaf.
func (r *R) createKnown(d *xmp.Document, props *[]Prop) {
	have := map[string]bool{}
	for i := range *props {
		have["{"+(*props)[i].NS+"}"+(*props)[i].Name] = true
	}
	add := r.genProps(&GenOpt{N: 1, NoMirror: true, SkipNS: r.skipNS, Have: have, Skip: func(e *Entry) bool {
		loadMirrors()
		return noPath(e) || mirrorOf["{"+e.P.NS+"}"+e.P.Name] != nil || !registered(e.P.NS, e.P.V)
	}})
	if len(add) == 0 {
		return
	}
	p := add[0]
	w := wantListing(add)
	for k := range w { // some models always have a value
		if alwaysWritten(k, w[k]) {
			return
		}
	}
	for k := range w { // some models always have a value
		if v, err := d.GetPath(r.rawPath(d, k)); err == nil && v != "" || strings.HasPrefix(k, "{http://ns.adobe.com/ixml/1.0/}version") {
			return
		}
	}
	keys := sortedKeys(Leaves(w))
	// defaults of alternatives first
	for i, k := range keys {
		if strings.HasSuffix(k, "[x-default]") {
			pre := strings.TrimSuffix(k, "x-default]")
			for j := 0; j < i; j++ {
				if strings.HasPrefix(keys[j], pre) {
					copy(keys[j+1:i+1], keys[j:i])
					keys[j] = k
					break
				}
			}
		}
	}
	for _, k := range keys {
		path := r.rawPath(d, k)
		f := pick(r.Src, []xmp.SyncFlags{xmp.CREATE, 0, xmp.MERGE, xmp.CREATE | xmp.REPLACE})
		if strings.HasPrefix(k, "{http://ns.adobe.com/exif/1.0/}") {
			f |= xmp.CREATE | xmp.REPLACE // enumerations always have a value
		}
		err := d.SetPath(xmp.PathValue{Path: path, Value: w[k], Flags: f})
		r.Logf("SetPath(%s = %q, %s) creating: %v", path, clip(w[k]), flagStr(f), err)
		if err != nil {
			r.Fail("create-refused", "SetPath(%s = %q, %s): %v", path, clip(w[k]), flagStr(f), err)
		}
	}
	*props = append(*props, p)
	checkDoc(r, d, *props, "create-")
	r.nontrivial = true
}

// registered: the library knows all namespaces of a property.
func registered(ns string, v Val) bool {
	if xmp.NsRegistry.GetPrefix(ns) == "" {
		return false
	}
	for _, f := range v.Fields {
		if !registered(f.NS, f.V) {
			return false
		}
	}
	for _, it := range v.Items {
		if !registered(ns, it) {
			return false
		}
	}
	return true
}

// anyEdit applies an arbitrary edit to a copy.
func (r *R) anyEdit(d *xmp.Document, props []Prop) {
	b, _, err := (&SaveOpt{}).save(d, &WritePlan{})
	if err != nil {
		r.Fail("save-error", "Encode: %v", err)
	}
	c := &xmp.Document{}
	if err := xmp.Unmarshal(b, c); err != nil {
		r.Fail("load-error", "Unmarshal: %v", err)
	}
	pl, err := c.ListPaths()
	if err != nil {
		r.Fail("list-error", "ListPaths: %v", err)
	}
	var known []string
	for _, p := range pl {
		known = append(known, string(p.Path))
	}
	before, _, _ := listing(c)
	q0, err := refParse([]byte(content(r, c)))
	if err != nil {
		r.Fail("unreadable", "saved data: %v", err)
	}
	pv := xmp.PathValue{Path: r.anyPath(known), Flags: r.anyFlags()}
	switch r.N(4) {
	case 0:
	case 1:
		pv.Value = r.text()
	case 2:
		pv.Value = pick(r.Src, []string{"1", "true", "2020-01-02T03:04:05Z", "1/2", "text", "x:y", "-1.5", "0"})
	default:
		pv.Value = r.weird()
	}
	err = c.SetPath(pv)
	r.Logf("arbitrary SetPath(%s = %q, %s): %v", clip(string(pv.Path)), clip(pv.Value), flagStr(pv.Flags), err)
	what := fmt.Sprintf("SetPath(%s = %q, %s): %v", clip(string(pv.Path)), clip(pv.Value), flagStr(pv.Flags), err)
	after, _, lerr := listing(c)
	if lerr != nil {
		r.Fail("any-list-error", "%s, then ListPaths: %v", what, lerr)
	}
	x, _, serr := (&SaveOpt{}).save(c, &WritePlan{})
	if serr != nil {
		if err != nil {
			r.Fail("any-save-error", "%s, then Encode: %v", what, serr)
		}
		return
	}
	q1, perr := refParse(x)
	if perr != nil {
		if err != nil {
			r.Fail("any-unreadable", "%s, then saved data: %v", what, perr)
		}
		return
	}
	s0, s1 := canonLeaves(q0, false), canonLeaves(q1, false)
	if err != nil {
		r.Count("edits.refused", 1)
		r.sameLeaves(before, after, nil, "any-refused-list", what)
		r.sameLeaves(s0, s1, nil, "any-refused-stored", what)
		return
	}
	// nothing else may change
	s := string(pv.Path)
	i := strings.IndexByte(s, ':')
	if strings.Count(s, "[") != strings.Count(s, "]") || oddIndex.MatchString(s) {
		return
	}
	name := s[i+1:]
	for strings.HasPrefix(name, "/") {
		name = name[1:]
	}
	if j := strings.IndexAny(name, "[/"); j >= 0 {
		name = name[:j]
	}
	if j := strings.LastIndexByte(name, ':'); j >= 0 {
		name = name[j+1:]
	}
	if name == "" || strings.Count(s, ":") > 1 && !strings.ContainsAny(s[:strings.LastIndexByte(s, ':')], "/[") {
		return
	}
	has := hasBase(after)
	own := func(k string) bool {
		b := baseOf(k)
		return b[strings.IndexByte(b, '}')+1:] == name || related(k, has) || copiedBase(b)
	}
	r.sameLeaves(before, after, own, "any-other-list", what)
	r.sameLeaves(s0, s1, own, "any-other-stored", what)
}

var oddIndex = regexp.MustCompile(`\][^/\[]`)

// copiedBase: kept in step with other properties by one of the models.
func copiedBase(base string) bool {
	if !inModel(base) {
		return false
	}
	switch pool.Prefixes[base[1:strings.IndexByte(base, '}')]] {
	case "dc", "xmp", "xmpDM", "xmpRights", "exif", "tiff", "photoshop", "riffinfo", "qt", "id3", "iXML", "pdf":
		return true
	}
	return false
}

func (r *R) sameLeaves(a, b map[string]string, skip func(string) bool, class, what string) {
	for _, k := range sortedKeys(Leaves(a)) {
		if skip != nil && skip(k) || alwaysWritten(k, a[k]) || altDefault(k, a) || inventedDefault(k, a) {
			continue
		}
		if v, ok := b[k]; !ok || v != a[k] {
			r.Fail(class, "%s: %s was %q and is %q (%v)", what, shortURI(k), clip(a[k]), clip(v), ok)
		}
	}
	for _, k := range sortedKeys(Leaves(b)) {
		if skip != nil && skip(k) || alwaysWritten(k, b[k]) || altDefault(k, b) || inventedDefault(k, b) || copiedBase(baseOf(k)) {
			continue
		}
		if _, ok := a[k]; !ok {
			r.Fail(class, "%s: %s = %q is new", what, shortURI(k), clip(b[k]))
		}
	}
}

func runC15(r *R) {
	loadData()
	r.mapOrder()
	props := r.genProps(&GenOpt{InKnown: true, N: 1 + r.Small(12), Unknown: pick(r.Src, []int{0, 1, 3, 8}), NoMirror: true})
	for len(props) == 0 {
		props = r.genProps(&GenOpt{N: 1, Unknown: 8})
	}
	b := writePacket(props, r.style(), true, false)
	r.Logf("document: %s", describe(props))
	if r.tracing {
		r.Logf("xml %s", clip2(string(b), 3000))
	}
	d := loadBytes(r, b, false)
	durable, durProps, durJSON := b, cloneProps(props), false
	loose := false
	n := 1 + r.Small(12)
	if r.thorough {
		n = 1 + r.Small(30)
	}
	before := paths(r, d)
	for i := 0; i < n; i++ {
		if i > 0 {
			after := paths(r, d)
			r.checkDiff(before, after)
			before = after
		}
		switch k := r.N(20); {
		case k >= 18:
			r.typedCreate(d, &props)
		case k >= 16:
			for j, m := 0, 1+r.N(3); j < m; j++ {
				for k := 0; k < 5; k++ {
					if r.N(3) == 2 && r.syncEdit(d, &props) || r.typedEdit(d, &props) {
						break
					}
				}
			}
		case k < 9:
			for j, m := 0, 1+r.N(3); j < m; j++ {
				r.editAny(d, &props)
			}
		case k == 9:
			r.anyEdit(d, props)
		case k == 10 || k == 11:
			r.createKnown(d, &props)
		case k == 12: // failed save
			x, _, err := (&SaveOpt{}).save(d, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode: %v", err)
			}
			p := r.writePlan(len(x))
			_, w, err := (&SaveOpt{}).save(d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			checkDoc(r, d, props, "failed-save-")
		case k == 13:
			r.Fault("crash.unsaved")
			r.Logf("crash and restart")
			reinit()
			d = loadBytes(r, durable, durJSON)
			props = cloneProps(durProps)
			checkDoc(r, d, props, "restart-")
		default:
			x := r.ackSave(d, props, &loose, r.N(3) == 2, &durJSON)
			durable, durProps = x, cloneProps(props)
			if r.N(2) == 1 || i == n-1 {
				r.Fault("crash.after-save")
				r.Logf("crash and restart")
				reinit()
				d = loadBytes(r, durable, durJSON)
				r.checkGet(d, checkDoc(r, d, props, "restart-"))
			}
		}
	}
	x := r.ackSave(d, props, &loose, false, &durJSON)
	r.Fault("crash.after-save")
	reinit()
	d = loadBytes(r, x, false)
	checkDoc(r, d, props, "restart-")
}

func paths(r *R, d *xmp.Document) xmp.PathValueList {
	l, err := d.ListPaths()
	if err != nil {
		r.Fail("list-error", "ListPaths: %v", err)
	}
	return l
}

// checkDiff: the difference of two listings names what changed, no more.
func (r *R) checkDiff(a, b xmp.PathValueList) {
	if len(a) == 0 || len(b) == 0 {
		return
	}
	x, y, want := map[string]string{}, map[string]string{}, map[string]xmp.SyncFlags{}
	for _, v := range b {
		y[string(v.Path)] = v.Value
	}
	for _, v := range a {
		p := string(v.Path)
		x[p] = v.Value
		if o, ok := y[p]; !ok {
			want[p] = xmp.DELETE
		} else if o != v.Value {
			want[p] = xmp.REPLACE
		}
	}
	for p := range y {
		if _, ok := x[p]; !ok {
			want[p] = xmp.CREATE
		}
	}
	for _, v := range a.Diff(b) {
		p := string(v.Path)
		if f, ok := want[p]; !ok || f != v.Flags {
			r.Fail("diff", "Diff has %s with %s, expected %s (%v): before %q, after %q", p, flagStr(v.Flags), flagStr(f), ok, clip(x[p]), clip(y[p]))
		}
		delete(want, p)
	}
	for _, v := range append(append(xmp.PathValueList(nil), a...), b...) {
		if f, ok := want[string(v.Path)]; ok {
			r.Fail("diff", "Diff lacks %s, %s", v.Path, flagStr(f))
		}
	}
}

// ackSave saves and checks what arrived.
func (r *R) ackSave(d *xmp.Document, props []Prop, loose *bool, useJSON bool, isJSON *bool) []byte {
	if useJSON {
		j, err := json.Marshal(d)
		if err != nil {
			r.Fail("save-error", "json.Marshal: %v", err)
		}
		r.Logf("JSON save, %d bytes", len(j))
		if r.tracing {
			r.Logf("saved %s", j)
		}
		*isJSON, *loose = true, true
		return j
	}
	o := r.saveOpt()
	o.flags &^= xmp.Xpadding
	x, _, err := o.save(d, &WritePlan{})
	if err != nil {
		r.Fail("save-error", "Encode %+v: %v", *o, err)
	}
	r.Logf("XMP save %+v, %d bytes", *o, len(x))
	if r.tracing {
		r.Logf("saved %s", clip2(string(x), 3000))
	}
	q, err := refParse(x)
	if err != nil {
		r.Fail("unreadable", "saved data: %v", err)
	}
	cmpStored(r, props, q, *loose, "stored-")
	*isJSON = false
	return x
}
