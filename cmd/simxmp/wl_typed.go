package main

// Edits through the typed models, as programs make them: fields are assigned
// and the methods of the framework's list types called.

import (
	"encoding"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

var (
	textType = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	xmpType  = reflect.TypeOf((*xmp.Marshaler)(nil)).Elem()
	attrType = reflect.TypeOf((*xmp.MarshalerAttr)(nil)).Elem()
)

// fieldOf finds the field of a struct with the given expanded name.
func fieldOf(v reflect.Value, uri, name string, list xmp.NamespaceList) (reflect.Value, bool) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("xmp")
		if f.Anonymous && tag == "" {
			x := v.Field(i)
			if x.Kind() == reflect.Ptr {
				if x.IsNil() {
					continue
				}
				x = x.Elem()
			}
			if x.Kind() == reflect.Struct {
				if y, ok := fieldOf(x, uri, name, list); ok {
					return y, true
				}
			}
			continue
		}
		if f.PkgPath != "" || tag == "-" || tag == "" {
			continue
		}
		tag = strings.SplitN(tag, ",", 2)[0]
		j := strings.IndexByte(tag, ':')
		if j < 0 || tag[j+1:] != name {
			continue
		}
		for _, n := range list {
			if n.GetName() == tag[:j] && n.GetURI() == uri {
				return v.Field(i), true
			}
		}
		if n, err := xmp.NsRegistry.GetNamespace(tag[:j]); err == nil && n.GetURI() == uri {
			return v.Field(i), true
		}
	}
	return reflect.Value{}, false
}

// typedField finds the Go value behind an expanded path.
func typedField(m xmp.Model, key string) (reflect.Value, bool) {
	v := reflect.ValueOf(m)
	for i, s := range expandedSegs(key) {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct || i > 0 && (v.Type().Implements(xmpType) || reflect.PtrTo(v.Type()).Implements(xmpType)) {
			return v, false
		}
		name, idx := s[1], ""
		if j := strings.IndexByte(name, '['); j >= 0 {
			name, idx = name[:j], name[j+1:len(name)-1]
		}
		var ok bool
		if v, ok = fieldOf(v, s[0], name, m.Namespaces()); !ok {
			return v, false
		}
		if idx != "" {
			for v.Kind() == reflect.Ptr && !v.IsNil() {
				v = v.Elem()
			}
			n, err := strconv.Atoi(idx)
			if err != nil || v.Kind() != reflect.Slice || n >= v.Len() {
				return v, false
			}
			v = v.Index(n)
		}
	}
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, v.CanAddr()
}

// plain: a value without a text form of its own.
func plain(v reflect.Value) bool {
	for _, t := range []reflect.Type{v.Type(), reflect.PtrTo(v.Type())} {
		if t.Implements(textType) || t.Implements(xmpType) || t.Implements(attrType) {
			return false
		}
	}
	return true
}

type stringList interface {
	Add(string) error
	AddUnique(string) error
	Remove(string)
	Contains(string) bool
	Index(string) int
}

// typedEdit performs an edit through one of the models of the document, if the
// one it draws is possible.
func (r *R) typedEdit(d *xmp.Document, props *[]Prop) bool {
	loadMirrors()
	no := pathless(*props)
	type place struct {
		t target
		m xmp.Model
		v reflect.Value
	}
	var pl []place
	for _, t := range targets(props, func(b string) bool { return no[b] || mirrorOf[b] != nil }) {
		if !t.known() {
			continue
		}
		var p place
		n := 0
		for _, nd := range d.Nodes() {
			if nd.Model == nil {
				continue
			}
			if v, ok := typedField(nd.Model, t.key); ok {
				p = place{t, nd.Model, v}
				n++
			}
		}
		if n == 1 {
			pl = append(pl, p)
		}
	}
	if len(pl) == 0 {
		return false
	}
	p := pl[r.N(len(pl))]
	t := &p.t
	what := ""
	orig := cloneProps(*props)
	same := outcome{orig, false}
	apply := func(g func()) outcome {
		g()
		o := outcome{cloneProps(*props), false}
		*props = cloneProps(orig)
		return o
	}
	del := !t.sole && !noDelete(d, t.base) && !strings.HasSuffix(t.key, "}timeValue")
	out := same
	var err error
	switch t.v.Kind {
	case KText:
		if alwaysWritten(t.key, t.v.Text) || !plain(p.v) {
			return false
		}
		switch p.v.Kind() {
		case reflect.String:
			if p.v.String() != t.v.Text || !t.v.Free {
				return false
			}
			x := r.text()
			if del && r.N(5) == 4 {
				x = ""
				out = apply(t.remove)
			} else {
				out = apply(func() { t.v.Text = x })
			}
			what = fmt.Sprintf("%s assigned %q", shortURI(t.key), clip(x))
			p.v.SetString(x)
		case reflect.Int, reflect.Int64, reflect.Int32:
			if strconv.FormatInt(p.v.Int(), 10) != t.v.Text || t.v.Text == "0" {
				return false
			}
			x := 1 + int64(r.N(1000))
			if r.N(4) == 3 {
				x = x*1000003 + 7
			}
			what = fmt.Sprintf("%s assigned %d", shortURI(t.key), x)
			p.v.SetInt(x)
			out = apply(func() { t.v.Text = strconv.FormatInt(x, 10) })
		default:
			return false
		}
	case KAlt:
		a, ok := p.v.Addr().Interface().(*xmp.AltString)
		if !ok || t.nested || len(*a) != len(t.v.Items) {
			return false
		}
		seen := map[string]bool{}
		hasDef := false
		for _, it := range t.v.Items {
			if seen[it.Text] || !it.Free || it.Lang == "" {
				return false
			}
			seen[it.Text] = true
			hasDef = hasDef || it.Lang == "x-default"
		}
		if !hasDef {
			return false
		}
		at := func(lang string) int {
			for i, it := range t.v.Items {
				if it.Lang == lang {
					return i
				}
			}
			return -1
		}
		lang := pick(r.Src, langs)
		if r.N(2) == 1 {
			lang = pick(r.Src, t.v.Items).Lang
		}
		i := at(lang)
		x := r.text()
		if r.N(8) == 7 {
			x = ""
		}
		add := func() {
			if x == "" {
				return
			}
			if i >= 0 {
				t.v.Items[i].Text = x
				return
			}
			n := t.v.Items[0].clone()
			n.Text, n.Lang = x, lang
			t.v.Items = append(t.v.Items, n)
		}
		if i >= 0 && (a.Get(lang) != t.v.Items[i].Text || a.Index(lang) < 0) || i < 0 && a.Get(lang) != "" {
			r.Fail("typed-read", "%s: Get(%s) = %q, Index %d", shortURI(t.key), lang, clip(a.Get(lang)), a.Index(lang))
		}
		if a.Default() != t.v.Items[at("x-default")].Text {
			r.Fail("typed-read", "%s: Default() = %q", shortURI(t.key), clip(a.Default()))
		}
		switch k := r.N(4); {
		case k == 0:
			what = fmt.Sprintf("%s.Set(%s, %q)", shortURI(t.key), lang, clip(x))
			a.Set(lang, x)
			out = apply(add)
		case k == 1 && i < 0:
			what = fmt.Sprintf("%s.Add(%s, %q)", shortURI(t.key), lang, clip(x))
			a.Add(lang, x)
			out = apply(add)
		case k == 2:
			if i >= 0 {
				x = t.v.Items[i].Text
			}
			what = fmt.Sprintf("%s.AddUnique(%s, %q)", shortURI(t.key), lang, clip(x))
			if a.AddUnique(lang, x) != (i < 0 && x != "") {
				r.Fail("typed-result", "%s: wrong result", what)
			}
			out = apply(add)
		default:
			if i >= 0 && (lang == "x-default" || len(t.v.Items) == 1) {
				return false
			}
			what = fmt.Sprintf("%s.RemoveLang(%s)", shortURI(t.key), lang)
			a.RemoveLang(lang)
			if i >= 0 {
				out = apply(func() { t.v.Items = append(t.v.Items[:i:i], t.v.Items[i+1:]...) })
			}
		}
	default:
		if t.nested || p.v.Kind() != reflect.Slice || p.v.Len() != len(t.v.Items) {
			return false
		}
		switch a := p.v.Addr().Interface().(type) {
		case stringList:
			for i, it := range t.v.Items {
				if it.Text != p.v.Index(i).String() || !it.Free {
					return false
				}
			}
			x := r.text()
			if r.N(3) != 0 {
				x = pick(r.Src, t.v.Items).Text
				if r.N(4) == 3 {
					x = swapCase(x)
				}
			} else if r.N(8) == 7 {
				x = ""
			}
			at := -1
			for i, it := range t.v.Items {
				if it.Text == x && at < 0 {
					at = i
				}
			}
			if a.Index(x) != at || a.Contains(x) != (at >= 0) {
				r.Fail("typed-read", "%s: Index(%q) = %d, Contains %v, is at %d", shortURI(t.key), clip(x), a.Index(x), a.Contains(x), at)
			}
			add := func() {
				if x != "" {
					n := t.v.Items[0].clone()
					n.Text = x
					t.v.Items = append(t.v.Items, n)
				}
			}
			switch r.N(3) {
			case 0:
				what = fmt.Sprintf("%s.Add(%q)", shortURI(t.key), clip(x))
				err = a.Add(x)
				out = apply(add)
			case 1:
				what = fmt.Sprintf("%s.AddUnique(%q)", shortURI(t.key), clip(x))
				err = a.AddUnique(x)
				if at < 0 {
					out = apply(add)
				}
			default:
				if at >= 0 && len(t.v.Items) == 1 && !del {
					return false
				}
				what = fmt.Sprintf("%s.Remove(%q)", shortURI(t.key), clip(x))
				a.Remove(x)
				if at >= 0 && len(t.v.Items) == 1 {
					out = apply(t.remove)
				} else if at >= 0 {
					out = apply(func() { t.v.Items = append(t.v.Items[:at:at], t.v.Items[at+1:]...) })
				}
			}
		case interface{ Add(int) error }:
			x := 1 + r.N(1000)
			what = fmt.Sprintf("%s.Add(%d)", shortURI(t.key), x)
			err = a.Add(x)
			out = apply(func() {
				t.v.Items = append(t.v.Items, Val{Kind: KText, Text: strconv.Itoa(x), Alts: []string{strconv.Itoa(x)}})
			})
		default:
			return false
		}
	}
	d.SetDirty()
	r.Logf("typed edit: %s: %v", what, err)
	r.judge(d, props, []outcome{out}, err, "typed edit: "+what)
	r.nontrivial = true
	r.Count("edits.typed", 1)
	return true
}

// typedCreate fills a property of a model which is made for it if necessary.
func (r *R) typedCreate(d *xmp.Document, props *[]Prop) {
	have := map[string]bool{}
	for i := range *props {
		have["{"+(*props)[i].NS+"}"+(*props)[i].Name] = true
	}
	add := r.genProps(&GenOpt{N: 8, NoMirror: true, SkipNS: r.skipNS, Have: have, Skip: func(e *Entry) bool {
		loadMirrors()
		return noPath(e) || mirrorOf["{"+e.P.NS+"}"+e.P.Name] != nil || !registered(e.P.NS, e.P.V)
	}})
	for i := range add {
		p := add[i]
		ns, err := xmp.NsRegistry.GetNamespace(xmp.NsRegistry.GetPrefix(p.NS))
		if err != nil {
			continue
		}
		w := wantListing(add[i : i+1])
		skip := false
		for k := range w {
			v, err := d.GetPath(r.rawPath(d, k))
			skip = skip || alwaysWritten(k, w[k]) || err == nil && v != "" || strings.HasPrefix(k, "{http://ns.adobe.com/ixml/1.0/}version")
		}
		if skip {
			continue
		}
		texts := func() bool {
			for _, it := range p.V.Items {
				if it.Kind != KText || !it.Free {
					return false
				}
			}
			return true
		}
		// whether it can be done
		key := "{" + p.NS + "}" + p.Name
		try := ns.NewModel()
		if try == nil {
			continue
		}
		v, ok := typedField(try, key)
		if !ok {
			continue
		}
		set := func(v reflect.Value) bool {
			switch p.V.Kind {
			case KText:
				if v.Kind() != reflect.String || !plain(v) || !p.V.Free {
					return false
				}
				v.SetString(p.V.Text)
				return true
			case KSeq, KBag:
				a, ok := v.Addr().Interface().(stringList)
				if !ok || !texts() {
					return false
				}
				for _, it := range p.V.Items {
					if err := a.Add(it.Text); err != nil {
						r.Fail("typed-refused", "%s: Add(%q): %v", shortURI(key), clip(it.Text), err)
					}
				}
				return true
			case KAlt:
				a, ok := v.Addr().Interface().(*xmp.AltString)
				if !ok || !texts() {
					return false
				}
				seen := map[string]bool{}
				for j, it := range p.V.Items {
					if it.Lang == "" || seen[it.Text] || j == 0 && it.Lang != "x-default" {
						return false
					}
					seen[it.Text] = true
				}
				for _, it := range p.V.Items {
					a.Set(it.Lang, it.Text)
				}
				return true
			}
			return false
		}
		if !set(v) {
			continue
		}
		m, err := r.makeTyped(d, ns)
		if err != nil {
			r.Fail("model-refused", "MakeModel(%s): %v", ns.GetName(), err)
		}
		if v, ok = typedField(m, key); !ok || !set(v) {
			r.Fail("model-refused", "MakeModel(%s): no field for %s", ns.GetName(), shortURI(key))
		}
		d.SetDirty()
		r.Logf("typed creation of %s", describe(add[i:i+1]))
		*props = append(*props, p)
		checkDoc(r, d, *props, "typed-")
		r.nontrivial = true
		r.Count("edits.typed", 1)
	}
}

// syncEdit copies one property of the document to another one by Sync.
func (r *R) syncEdit(d *xmp.Document, props *[]Prop) bool {
	loadMirrors()
	no := pathless(*props)
	var l []target
	var from []string
	for _, t := range targets(props, func(b string) bool { return no[b] || mirrorOf[b] != nil }) {
		if !t.known() {
			continue
		}
		free := t.v.Free || t.v.Kind != KText
		for _, it := range t.v.Items {
			free = free && it.Free
		}
		known := false
		for _, n := range d.Nodes() {
			if n.Model != nil && !known {
				_, known = typedField(n.Model, t.key)
			}
		}
		if !free || !known || strings.HasSuffix(t.key, "}YCbCrSubSampling") {
			continue
		}
		l = append(l, t)
		switch t.v.Kind {
		case KText:
			from = append(from, t.key)
		case KAlt:
			for _, it := range t.v.Items {
				if it.Lang != "" {
					from = append(from, t.key+"["+it.Lang+"]")
				}
			}
		default:
			from = append(from, t.key, t.key+"["+strconv.Itoa(r.N(len(t.v.Items)))+"]")
		}
	}
	if len(l) == 0 {
		return false
	}
	src := pick(r.Src, from)
	t := &l[r.N(len(l))]
	e := &edit{key: t.key}
	flags := r.editFlags("x")
	if r.N(6) == 5 { // nothing to copy
		u := t.base[1:strings.IndexByte(t.base, '}')]
		en := &pool.Entries[byNS[u][r.N(len(byNS[u]))]]
		src = "{" + u + "}" + en.P.Name
		known := false
		for _, n := range d.Nodes() {
			if n.Model != nil && !known {
				_, known = typedField(n.Model, src)
			}
		}
		if v, err := d.GetPath(r.rawPath(d, src)); !known || en.P.V.Kind != KText || noPath(en) || err != nil || v != "" {
			return false
		}
		flags = r.editFlags("")
	}
	switch t.v.Kind {
	case KText:
		if alwaysWritten(t.key, t.v.Text) {
			return false
		}
	case KAlt:
		hasDef := false
		seen := map[string]bool{}
		for _, it := range t.v.Items {
			hasDef = hasDef || it.Lang == "x-default"
			if it.Lang == "" || seen[it.Text] {
				return false
			}
			seen[it.Text] = true
		}
		if !hasDef {
			return false
		}
		e.idx = pick(r.Src, langs)
		if r.N(2) == 1 {
			e.idx = pick(r.Src, t.v.Items).Lang
		}
	default:
		switch m := r.N(4); {
		case m == 0 && !t.nested:
		default:
			e.idx = strconv.Itoa(r.N(len(t.v.Items)))
		}
	}
	if e.idx != "" {
		e.key += "[" + e.idx + "]"
	}
	sp, dp := r.rawPath(d, src), r.rawPath(d, e.key)
	var err error
	if e.v, err = d.GetPath(sp); err != nil {
		e.v = ""
	}
	var conv xmp.ConverterFunc
	if r.N(3) == 2 && e.v != "" {
		conv = func(s string) string { return "+" + s }
		if r.N(3) == 2 {
			if x, err := d.GetPath(dp); err == nil && x != "" { // meets the value there
				conv = func(string) string { return x }
			}
		}
		e.v = conv(e.v)
	}
	cur, err := d.GetPath(dp)
	if err != nil {
		cur = ""
	}
	f := flags
	if f == 0 {
		f = xmp.DEFAULT
	}
	if e.v == "" && (t.v.Kind == KAlt || t.sole || noDelete(d, t.base) || strings.HasSuffix(t.key, "}timeValue")) {
		return false
	}
	same := outcome{cloneProps(*props), false}
	outs := []outcome{same}
	switch {
	case e.v == cur, e.v == "" && f&xmp.DELETE == 0, cur == "" && f&xmp.CREATE == 0,
		cur != "" && e.v != "" && f&(xmp.REPLACE|xmp.APPEND|xmp.UNIQUE) == 0:
	default:
		if t.v.Kind == KAlt {
			for _, it := range t.v.Items {
				if it.Text == e.v && it.Lang != e.idx {
					return false
				}
			}
		}
		e.f = flags
		outs = outcomes(props, t, e, nil)
	}
	var m xmp.Model
	if r.N(2) == 1 {
		for _, n := range d.Nodes() {
			if n.Model != nil {
				if n.Model.Namespaces()[0].GetURI() == t.base[1:strings.IndexByte(t.base, '}')] {
					m = n.Model
				}
			}
		}
	}
	var what string
	if r.N(3) == 2 {
		what = fmt.Sprintf("SyncMulti(%s, %s, %s)", sp, dp, flagStr(flags))
		err = d.SyncMulti(xmp.SyncDescList{{Source: sp, Dest: dp, Flags: flags, Convert: conv}}, m)
	} else {
		what = fmt.Sprintf("Sync(%s, %s, %s)", sp, dp, flagStr(flags))
		err = d.Sync(sp, dp, flags, m, conv)
	}
	r.Logf("%s with %q: %v", what, clip(e.v), err)
	r.judge(d, props, outs, err, what)
	r.Count("edits.sync", 1)
	return true
}

// editSome performs an edit of any kind.
func (r *R) editSome(d *xmp.Document, props *[]Prop) {
	switch r.N(6) {
	case 4:
		r.syncEdit(d, props)
	case 5:
		r.typedEdit(d, props)
	default:
		r.editAny(d, props)
	}
}
