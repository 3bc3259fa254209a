package main

// Offline calibration of native tags. Not used by checks.

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/xmp"
)

type tagField struct {
	tag, xmpName string
	typ          reflect.Type
}

func tagFields(t reflect.Type, keys []string, out *[]tagField) {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := ""
		for _, k := range keys {
			if s := f.Tag.Get(k); s != "" {
				tag = s
				break
			}
		}
		if tag == "-" {
			x := f.Type
			if x.Kind() == reflect.Ptr && x.Elem().Kind() == reflect.Struct && x.Elem().PkgPath() == t.PkgPath() {
				tagFields(x, keys, out)
			}
			continue
		}
		if f.Anonymous {
			tagFields(f.Type, keys, out)
			continue
		}
		if f.PkgPath != "" {
			continue
		}
		tag = strings.SplitN(tag, ",", 2)[0]
		if tag == "" {
			tag = f.Name
		}
		x := strings.SplitN(f.Tag.Get("xmp"), ",", 2)
		n := x[0]
		if len(x) > 1 && strings.Contains(x[1], "omit") {
			n = "-"
		}
		*out = append(*out, tagField{tag, n, f.Type})
	}
}

// tagsMain writes data/tags.json: which native tags hold which values, and in
// which property they are stored.
func tagsMain() {
	loadData()
	var pre []string
	for _, p := range pool.Prefixes {
		pre = append(pre, p)
	}
	for _, n := range xmp.NsRegistry.Namespaces() {
		pre = append(pre, n.GetName())
	}
	sort.Strings(pre)
	entries := map[string]*Entry{}
	for i := range pool.Entries {
		e := &pool.Entries[i]
		entries["{"+e.P.NS+"}"+e.P.Name] = e
	}
	last := ""
	done := map[string]bool{}
	var out []TagEntry
	for _, p := range pre {
		if p == last || strings.HasPrefix(p, "sim") {
			continue
		}
		last = p
		ns, err := xmp.NsRegistry.GetNamespace(p)
		if err != nil {
			continue
		}
		m := ns.NewModel()
		if m == nil || done[reflect.TypeOf(m).String()] {
			continue
		}
		done[reflect.TypeOf(m).String()] = true
		key := m.Namespaces()[0].GetName()
		var fl []tagField
		tagFields(reflect.TypeOf(m), []string{key}, &fl)
		noise, _ := probeTag(ns, "", "")
		seen := map[string]bool{}
		for _, f := range fl {
			if seen[f.tag] {
				continue
			}
			seen[f.tag] = true
			base := ""
			if i := strings.IndexByte(f.xmpName, ':'); i > 0 {
				if n, err := xmp.NsRegistry.GetNamespace(f.xmpName[:i]); err == nil {
					base = "{" + n.GetURI() + "}" + f.xmpName[i+1:]
				}
			}
			te := TagEntry{Model: p, Tag: f.tag}
			if f.typ == reflect.TypeOf(xmp.AltString{}) {
				if strings.HasPrefix(base, "{"+ns.GetURI()+"}") {
					out = append(out, TagEntry{Model: p, Tag: f.tag, Key: base, Kind: "Alt", Alias: tagAlias(p, f.tag)})
				}
				continue
			}
			keys := map[string]bool{}
			vol := false
			stays := true
			var leaves map[string]bool
			try := func(v string) bool {
				res, ok := probeTag(ns, f.tag, v)
				if !ok {
					return false
				}
				k := ""
				stays = stays && res["reload"] != "no"
				had := map[string]bool{}
				for l, x := range res {
					if x == v && (leaves == nil || leaves[l]) && noise[l] != x {
						had[l] = true
					}
				}
				leaves = had
				for l, x := range res {
					if noise[l] != x || noise[l] == "" {
						if x != v || k != "" {
							k = "-"
							break
						}
						k = l
					}
				}
				if res["reload"] == "no" || k == "-" || k == "" || !strings.HasPrefix(k, "{"+ns.GetURI()+"}") || mirrored(k, func(string) bool { return true }) {
					vol = true
					k = ""
				}
				keys[k] = true
				return true
			}
			free := true
			for _, v := range []string{"Free text \u00e9", "x", "a < b & \"c\" 'd'", "1234567", "a;b, c/d", strings.Repeat("long ", 60) + "x"} {
				free = free && try(v)
			}
			if !free {
				keys, vol, stays, leaves = map[string]bool{}, false, true, nil
				var vals []string
				if e := entries[base]; e != nil {
					v := e.P.V
					if len(v.Items) > 0 {
						v = v.Items[0]
					}
					if v.Kind == KText && len(e.Alts) > 0 {
						vals = append([]string{}, e.Alts[0]...)
					}
				}
				vals = append(vals, "3", "1/2", "2020-01-02T03:04:05Z", "2019-10-11", "True", "true", "1.5", "-7.25", "1330", "2001", "12/15", "5", "2001:02:03 04:05:06", "one", "10 20", "en-US")
				had := map[string]bool{}
				for _, v := range vals {
					if !had[v] && v != "0" && !strings.EqualFold(v, "false") && try(v) {
						te.Vals = append(te.Vals, v)
					}
					had[v] = true
				}
				if len(te.Vals) == 0 {
					continue
				}
			}
			if f.typ.Kind() == reflect.Slice {
				te.List = true
			}
			te.Stays = stays
			for l := range leaves {
				te.Leaves = append(te.Leaves, l)
			}
			sort.Strings(te.Leaves)
			te.Strict = !free
			for _, x := range invalidTexts {
				te.Strict = te.Strict && ns.NewModel().(tagger).SetTag(f.tag, x) != nil
			}
			if !vol && len(keys) == 1 {
				for k := range keys {
					te.Key = k
				}
				if i := strings.IndexByte(te.Key, '['); i > 0 {
					te.Kind = strings.TrimRight(te.Key[i+1:], " 0]")
					te.Key = te.Key[:i]
				}
			}
			te.Alias = tagAlias(p, f.tag)
			out = append(out, te)
		}
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	fmt.Println("[")
	for i := range out {
		b, _ := json.Marshal(out[i])
		c := ","
		if i == len(out)-1 {
			c = ""
		}
		fmt.Printf("%s%s\n", b, c)
	}
	fmt.Println("]")
}

// tagAlias lists other names of a tag.
func tagAlias(m, tag string) (l []string) {
	switch {
	case m == "id3":
		for _, t := range []map[string]string{id3.V11_TO_V24_TAGS, id3.V22_TO_V24_TAGS} {
			for k, v := range t {
				if v == tag {
					l = append(l, k)
				}
			}
		}
		sort.Strings(l)
	case m == "exif" && strings.HasPrefix(tag, "0x"):
		l = []string{"0X" + strings.ToUpper(tag[2:]), "0x" + strings.ToUpper(tag[2:])}
	case strings.Contains(tag, ":"):
		l = []string{tag[strings.Index(tag, ":")+1:]}
	}
	return
}

// probeTag sets a tag and returns what is stored.
func probeTag(ns *xmp.Namespace, tag, v string) (map[string]string, bool) {
	m := ns.NewModel()
	t := m.(tagger)
	if tag != "" {
		if !t.CanTag(tag) || t.SetTag(tag, v) != nil {
			return nil, false
		}
		if g, err := t.GetTag(tag); err != nil || g != v {
			return nil, false
		}
	}
	d := xmp.NewDocument()
	d.AddModel(m)
	b, err := xmp.Marshal(d)
	if err != nil {
		return nil, false
	}
	q, err := refParse(b)
	if err != nil {
		return nil, false
	}
	l := canonLeaves(q, false)
	d2 := &xmp.Document{}
	if err := xmp.Unmarshal(b, d2); err != nil {
		return nil, false
	}
	m2 := d2.FindModel(ns)
	if tag != "" {
		l2 := map[string]string{}
		for k, v := range l {
			l2[k] = v
		}
		if m2 == nil {
			l2["reload"] = "no"
		} else if g2, err := m2.(tagger).GetTag(tag); g2 != v || err != nil {
			l2["reload"] = "no"
		}
		return l2, true
	}
	return l, true
}
