package main

// Generator of documents: canonical properties of the known models (see
// data/props.json), properties of unknown namespaces, and serialisations.

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"

	"github.com/trimmer-io/go-xmp/xmp"
	"verif.local/sim/data"
)

const freeText = "Freier Text <&>\"' 7"

var (
	dataOnce sync.Once
	pool     dataFile
	byNS     map[string][]int // entry numbers per namespace
	nsList   []string
	langs    = []string{"de", "en", "en-US", "fr", "x-klingon", "zh-Hant"}
)

// further values for properties with a syntax of their own
var moreAlts = map[string][]string{
	"id3:trackNumber": {"3/12", "12/12"},
	"id3:partOfASet":  {"1/2"},
}

func loadData() {
	dataOnce.Do(func() {
		if err := json.Unmarshal(data.JSON, &pool); err != nil {
			panic(err)
		}
		byNS = map[string][]int{}
		kept := pool.Entries[:0]
		for _, e := range pool.Entries {
			// RDF's own vocabulary (rdf:type of a struct) is syntax, not content
			var alts [][]string
			n := 0
			var drop func(v *Val)
			drop = func(v *Val) {
				if v.Kind == KText {
					alts = append(alts, e.Alts[n])
					n++
				}
				var fs []Prop
				for _, f := range v.Fields {
					if f.NS == uriRDF {
						f.V.eachText(func(*Val) { n++ })
						continue
					}
					drop(&f.V)
					fs = append(fs, f)
				}
				v.Fields = fs
				for i := range v.Items {
					drop(&v.Items[i])
				}
			}
			drop(&e.P.V)
			e.Alts = alts
			if l, _ := leavesOf([]Prop{e.P}); len(l) > 0 {
				kept = append(kept, e)
			}
		}
		pool.Entries = kept
		for i := range pool.Entries {
			e := &pool.Entries[i]
			e.Alts[0] = append(e.Alts[0], moreAlts[pool.Prefixes[e.P.NS]+":"+e.P.Name]...)
			if len(byNS[e.P.NS]) == 0 {
				nsList = append(nsList, e.P.NS)
			}
			byNS[e.P.NS] = append(byNS[e.P.NS], i)
		}
	})
}

// GenOpt selects what a generated document contains.
type GenOpt struct {
	N        int                 // number of properties
	Unknown  int                 // of these in unknown namespaces, in eighths
	NS       []string            // restrict known namespaces (URIs)
	SkipNS   map[string]bool     // exclude known namespaces
	Skip     func(e *Entry) bool // exclude entries
	Have     map[string]bool     // taken property names
	NUnknown int                 // number of unknown namespaces (default 3)
	UnkURI   func(i int) string  // their URIs
	NoMirror bool                // at most one of two properties that mirror each other
	Flat     bool                // unknown: only addressable structures
	NoText   bool                // keep calibrated texts
	InKnown  bool                // also unknown properties in known namespaces
	SameLang bool                // also language alternatives with equal texts
}

func unkURI(i int) string { return fmt.Sprintf("http://sim.example/ns/%c/", 'a'+i) }

var textBits = []string{"alpha", "β-Wert", "x y", "a&b", "<tag>", "\"q\"", "it's", "日本", "😀", "]]>", "tab\tx", "line\nbreak", "--", "100%", "{}", "[3]", "a/b:c", "x, y", "p; q", "\u00a0nb", "\u2028"}

// text makes a unique text value without leading or trailing white space.
func (r *R) text() string {
	s := r.Unique("v")
	switch r.N(5) {
	case 4: // looks like a number
		switch n := r.uniq; r.N(6) {
		case 0:
			return fmt.Sprintf("%d", n+1000)
		case 1:
			return fmt.Sprintf("9%d%017d", r.N(10), n)
		case 2:
			return fmt.Sprintf("-%d.%03d0", r.N(100), n)
		case 3:
			return fmt.Sprintf("0%d", n+1000) // small ones name genres
		case 4:
			return fmt.Sprintf("%de%d", n+1, 1+r.N(400))
		default:
			return fmt.Sprintf("+%d.", n)
		}
	case 1, 2:
		s += " " + pick(r.Src, textBits) + " end"
	case 3:
		for i, n := 0, r.N(6); i < n; i++ {
			s += " " + pick(r.Src, textBits)
		}
		s += "."
		if r.N(12) == 11 {
			s += strings.Repeat(" long text", 40+r.N(800)) + "!"
		}
	}
	return s
}

// swapCase exchanges upper and lower case.
func swapCase(s string) string {
	return strings.Map(func(c rune) rune {
		switch {
		case c >= 'a' && c <= 'z':
			return c - 32
		case c >= 'A' && c <= 'Z':
			return c + 32
		}
		return c
	}, s)
}

func (r *R) genProps(o *GenOpt) []Prop {
	loadData()
	if o.Have == nil {
		o.Have = map[string]bool{}
	}
	if o.UnkURI == nil {
		o.UnkURI = unkURI
	}
	if o.NUnknown == 0 {
		o.NUnknown = 3
	}
	var out []Prop
	// sometimes concentrate on few namespaces
	ns := o.NS
	if ns == nil && r.N(2) == 1 {
		for i, n := 0, 1+r.N(3); i < n; i++ {
			ns = append(ns, pick(r.Src, nsList))
		}
	}
	for i := 0; i < o.N; i++ {
		var p Prop
		if o.Unknown > 0 && r.N(8) >= 8-o.Unknown {
			p = r.unknownProp(o)
		} else {
			var e *Entry
			if ns != nil {
				l := byNS[pick(r.Src, ns)]
				e = &pool.Entries[l[r.N(len(l))]]
			} else {
				e = &pool.Entries[r.N(len(pool.Entries))]
			}
			if o.SkipNS[e.P.NS] || o.Skip != nil && o.Skip(e) {
				continue
			}
			p = r.instance(e, o.NoText)
		}
		k := "{" + p.NS + "}" + p.Name
		if o.Have[k] || o.NoMirror && mirrorTaken(k, o.Have) {
			continue
		}
		if l, _ := leavesOf([]Prop{p}); len(l) == 0 {
			continue
		}
		if o.SameLang && r.N(6) == 5 {
			r.sameLangs(&p.V)
		}
		o.Have[k] = true
		out = append(out, p)
	}
	return out
}

// sameLangs gives languages of alternatives the text of another one.
func (r *R) sameLangs(v *Val) {
	if v.Kind == KAlt {
		for _, it := range v.Items {
			if it.Kind != KText || !it.Free {
				return
			}
		}
		m := r.N(3)
		for _, l := range langs {
			dup := false
			for _, it := range v.Items {
				dup = dup || it.Lang == l
			}
			if !dup && len(v.Items) < 2+m && v.Items[0].Lang != "" {
				x := v.Items[0].clone()
				x.Lang = l
				v.Items = append(v.Items, x)
			}
		}
		for i := 1; i < len(v.Items); i++ {
			if r.N(3) != 0 {
				v.Items[i].Text = v.Items[r.N(i)].Text
			}
		}
		return
	}
	for i := range v.Items {
		r.sameLangs(&v.Items[i])
	}
	for i := range v.Fields {
		r.sameLangs(&v.Fields[i].V)
	}
}

// instance draws an instance of a calibrated property.
func (r *R) instance(e *Entry, noText bool) Prop {
	p := e.P
	p.V = p.V.clone()
	mode := r.N(3) // 0 as calibrated
	i := 0
	p.V.eachText(func(t *Val) {
		a := e.Alts[i]
		i++
		t.Alts = a
		if mode == 0 && r.uniq > 0 && noText {
			return
		}
		free := false
		for _, x := range a {
			free = free || x == freeText
		}
		if free && !noText {
			t.Text = r.text()
			t.Free = true
		} else if len(a) > 0 && mode != 0 {
			t.Text = pick(r.Src, a)
		}
	})
	if n := len(p.V.Items); n > 1 && p.V.Kind != KAlt && r.N(16) == 15 {
		// a long list
		free := true
		for _, it := range p.V.Items {
			free = free && it.Kind == KText && it.Free
		}
		for m := 9 + r.N(5); free && n < m; n++ {
			it := p.V.Items[0].clone()
			it.Text = r.text()
			p.V.Items = append(p.V.Items, it)
		}
	}
	if e.Split && mode == 2 {
		// a subset of the leaves
		den := 2 + r.N(3)
		var drop func(v Val) (Val, bool)
		drop = func(v Val) (Val, bool) {
			switch v.Kind {
			case KText:
				return v, r.N(den) != den-1
			case KStruct:
				w := Val{Kind: KStruct, Lang: v.Lang}
				for _, f := range v.Fields {
					if x, ok := drop(f.V); ok {
						w.Fields = append(w.Fields, Prop{f.NS, f.Name, x})
					}
				}
				return w, len(w.Fields) > 0
			}
			w := Val{Kind: v.Kind, Lang: v.Lang}
			for j, it := range v.Items {
				x, ok := drop(it)
				if ok || v.Kind == KAlt && j == 0 {
					if !ok {
						x = it
					}
					w.Items = append(w.Items, x)
				}
			}
			return w, len(w.Items) > 0
		}
		if v, ok := drop(p.V); ok {
			p.V = v
		}
	}
	return p
}

var unkNames = []string{"Alpha", "beta", "Gamma1", "title", "creator", "History", "x.y", "a-b", "_z", "Größe", "rating"}

// inModel: the property of path k is one that a model knows.
func inModel(k string) bool {
	i := strings.IndexByte(k, '}')
	return pool.Prefixes[k[1:i]] != "" && !strings.HasPrefix(k[i+1:], "Sim")
}

func (r *R) unknownProp(o *GenOpt) Prop {
	if o.InKnown && r.N(5) == 4 {
		u := pick(r.Src, nsList)
		if !o.SkipNS[u] {
			return Prop{u, "Sim" + pick(r.Src, unkNames), r.unknownVal(o, 0, u)}
		}
	}
	u := o.UnkURI(r.N(o.NUnknown))
	return Prop{u, pick(r.Src, unkNames), r.unknownVal(o, 0, u)}
}

func (r *R) unknownVal(o *GenOpt, depth int, u string) Val {
	k := r.N(8)
	if depth >= 3 {
		k = 0
	}
	switch k {
	default:
		return Val{Kind: KText, Free: true, Text: r.text()}
	case 4:
		v := Val{Kind: KStruct}
		n := 1 + r.N(4)
		have := map[string]bool{}
		for i := 0; i < n; i++ {
			fu := u
			if r.N(4) == 3 {
				fu = o.UnkURI(r.N(o.NUnknown))
			}
			nm := pick(r.Src, unkNames)
			if have[fu+nm] {
				continue
			}
			have[fu+nm] = true
			v.Fields = append(v.Fields, Prop{fu, nm, r.unknownVal(o, depth+1, u)})
		}
		return v
	case 5, 6:
		v := Val{Kind: pick(r.Src, []string{KSeq, KBag})}
		n := 1 + r.N(4)
		if depth == 0 && r.N(24) == 23 {
			n = 9 + r.N(5)
		}
		st := r.N(3) == 2 && depth < 2
		nested := !st && depth < 2 && r.N(6) == 5
		if st && r.N(4) == 3 {
			v.Kind = KAlt // alternative structures
		}
		for i := 0; i < n; i++ {
			it := Val{Kind: KText, Free: true, Text: r.text()}
			if nested {
				for it = r.unknownVal(o, depth+1, u); !it.isArray(); it = r.unknownVal(o, depth+1, u) {
				}
			}
			if st {
				it = Val{Kind: KStruct, Fields: []Prop{{u, "f1", Val{Kind: KText, Free: true, Text: r.text()}}, {u, "f2", r.unknownVal(o, depth+2, u)}}}
			}
			v.Items = append(v.Items, it)
		}
		return v
	case 7:
		v := Val{Kind: KAlt}
		if r.N(4) != 0 {
			v.Items = append(v.Items, Val{Kind: KText, Free: true, Text: r.text(), Lang: "x-default"})
		}
		for i, n := 0, r.N(4); i < n; i++ {
			l := langs[(i+r.N(2))%len(langs)]
			dup := false
			for _, it := range v.Items {
				dup = dup || it.Lang == l
			}
			if !dup {
				v.Items = append(v.Items, Val{Kind: KText, Free: true, Text: r.text(), Lang: l})
			}
		}
		if len(v.Items) == 0 {
			v.Items = append(v.Items, Val{Kind: KText, Free: true, Text: r.text(), Lang: "x-default"})
		}
		return v
	}
}

// style draws a serialisation style.
func (r *R) style() *Style {
	st := &Style{}
	st.Indent = r.N(2) == 1
	seed := uint64(r.N(1 << 20))
	if seed == 0 {
		st.Pick = func(int) int { return 0 }
	} else {
		s := seed
		st.Pick = func(n int) int { s = mix64(s); return int(s>>8&0xffffff) % n }
		st.Fancy = r.N(2) == 1
	}
	scheme := r.N(5)
	m := map[string]string{}
	used := map[string]bool{"rdf": true, "xml": true, "x": true, "xmlns": true, "RDF": true}
	names := []string{"dc", "xmp", "xmpMM", "exif", "tiff", "ns1", "ns2", "xap", "foo", "stRef", "iXML", "crs", "Iptc4xmpCore", "a", "b"}
	st.Prefix = func(u string) string {
		if p, ok := m[u]; ok {
			return p
		}
		p := pool.Prefixes[u]
		switch {
		case scheme == 1 || p == "": // own names
			p = fmt.Sprintf("p%d", len(m))
		case scheme == 2: // names of other namespaces
			seed = mix64(seed)
			p = names[seed%uint64(len(names))]
		case scheme == 4: // names that differ in case only
			p = fmt.Sprintf("%c%d", "nN"[len(m)%2], len(m)/2)
		case scheme == 3: // mixed
			if len(m)%2 == 1 {
				p = names[(len(m)*7)%len(names)]
			}
		}
		for i := 0; used[p]; i++ {
			p = fmt.Sprintf("q%d%s", i, pick2(names, len(m)))
		}
		used[p] = true
		m[u] = p
		return p
	}
	return st
}

func pick2(l []string, i int) string { return l[i%len(l)] }

// ---- listing -------------------------------------------------------------------

// listing converts ListPaths output to {uri}name segments.
func listing(d *xmp.Document) (map[string]string, []string, error) {
	pv, err := d.ListPaths()
	if err != nil {
		return nil, nil, err
	}
	m := map[string]string{}
	var bad []string
	for _, p := range pv {
		k, ok := expandPath(d, string(p.Path))
		if !ok {
			bad = append(bad, string(p.Path))
			continue
		}
		m[k] = p.Value
	}
	return m, bad, nil
}

func nsURI(d *xmp.Document, prefix string) string {
	if n := d.FindNs(prefix, ""); n != nil {
		return n.GetURI()
	}
	if n, err := xmp.GetNamespace(prefix); err == nil {
		return n.GetURI()
	}
	return ""
}

func expandPath(d *xmp.Document, p string) (string, bool) {
	c := strings.IndexByte(p, ':')
	if c < 0 {
		return "", false
	}
	top := p[:c]
	topURI := nsURI(d, top)
	if topURI == "" {
		return "", false
	}
	out := ""
	for i, seg := range splitSegs(p[c+1:]) {
		u := topURI
		br := strings.IndexByte(seg, '[')
		if br == 0 && i > 0 { // array of arrays
			out += seg
			continue
		}
		name, idx := seg, ""
		if br >= 0 {
			name, idx = seg[:br], seg[br:]
		}
		if k := strings.IndexByte(name, ':'); k >= 0 {
			u = nsURI(d, name[:k])
			name = name[k+1:]
			if u == "" {
				return "", false
			}
		}
		if i > 0 {
			out += "/"
		}
		out += "{" + u + "}" + name + idx
	}
	return out, true
}

func splitSegs(s string) []string { return strings.Split(s, "/") }

// wantListing gives the listing expected of properties.
func wantListing(props []Prop) map[string]string {
	m := map[string]string{}
	for _, p := range props {
		listVal("{"+p.NS+"}"+p.Name, p.V, m)
	}
	return m
}

func listVal(path string, v Val, m map[string]string) {
	switch v.Kind {
	case KText:
		if v.Text != "" {
			m[path] = v.Text
		}
	case KStruct:
		for _, f := range v.Fields {
			listVal(path+"/{"+f.NS+"}"+f.Name, f.V, m)
		}
	default:
		for i, it := range v.Items {
			k := strconv.Itoa(i)
			if v.Kind == KAlt && it.Kind == KText {
				k = it.Lang
				if k == "" {
					k = "x-default"
				}
			}
			listVal(path+"["+k+"]", it, m)
		}
	}
}

func describe(props []Prop) string {
	l, _ := leavesOf(props)
	var b strings.Builder
	for i, k := range sortedKeys(l) {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "%s=%q", shortURI(k), clip2(l[k], 30))
		if b.Len() > 1500 {
			b.WriteString("...")
			break
		}
	}
	return b.String()
}

func shortURI(k string) string {
	for u, p := range pool.Prefixes {
		if strings.Contains(k, "{"+u+"}") {
			k = strings.ReplaceAll(k, "{"+u+"}", p+":")
		}
	}
	return k
}

// Models of native container formats mirror properties of the standard models
// when a document is loaded or, after an edit, saved. A mirrored property may
// follow its counterpart.
var mirrorPairs = [][2]string{
	{"id3:titleDescription", "dc:title"}, {"id3:copyright", "dc:rights"}, {"id3:recordingTime", "xmp:CreateDate"},
	{"id3:date_v23", "xmp:CreateDate"}, {"id3:time_v23", "xmp:CreateDate"}, {"id3:year_v23", "xmp:CreateDate"},
	{"id3:leadPerformer", "xmpDM:artist"}, {"id3:albumTitle", "xmpDM:album"}, {"id3:comments", "xmpDM:logComment"},
	{"id3:contentType", "xmpDM:genre"}, {"id3:trackNumber", "xmpDM:trackNumber"}, {"id3:isCompilation", "xmpDM:partOfCompilation"},
	{"id3:composer", "xmpDM:composer"}, {"id3:modifiedBy", "xmpDM:engineer"}, {"id3:partOfASet", "xmpDM:discNumber"},
	{"id3:unsynchronizedLyrics", "xmpDM:lyrics"}, {"id3:copyrightInformation", "xmpRights:WebStatement"},
	{"id3:language", "dc:title"}, {"id3:language", "dc:rights"},
	{"pdf:Copyright", "dc:rights"}, {"riffinfo:name", "dc:title"},
	{"iXML:soundRoll", "xmpDM:tapeName"}, {"iXML:sceneName", "xmpDM:scene"}, {"iXML:take", "xmpDM:trackNumber"},
	{"iXML:note", "xmpDM:logComment"}, {"iXML:project", "xmpDM:projectName"}, {"iXML:circled", "xmpDM:good"},
	{"iXML:speed", "xmpDM:startTimecode"}, {"iXML:speed", "xmpDM:audioSampleRate"},
	{"photoshop:DateCreated", "exif:DateTimeOriginal"},
	{"exif:GPSTimeStamp", "exif:GPSDateStamp"}, {"exif:PhotographicSensitivity", "exif:ISOSpeedRatings"}, {"exifEX:PhotographicSensitivity", "exif:ISOSpeedRatings"},
}

// related: like mirrored, through any number of counterparts.
func related(k string, has func(base string) bool) bool {
	loadMirrors()
	seen := map[string]bool{}
	l := []string{baseOf(k)}
	for len(l) > 0 {
		b := l[0]
		l = l[1:]
		for _, o := range mirrorOf[b] {
			if has(o) {
				return true
			}
			if !seen[o] {
				seen[o] = true
				l = append(l, o)
			}
		}
	}
	return false
}

func mirrorTaken(k string, have map[string]bool) bool {
	return related(k, func(b string) bool { return have[b] })
}

var mirrorOf map[string][]string

func baseOf(k string) string {
	i := strings.IndexByte(k, '}')
	if i < 0 {
		return k
	}
	if j := strings.IndexAny(k[i:], "[/"); j > 0 {
		return k[:i+j]
	}
	return k
}

// mirrored: the property of leaf k follows a counterpart for which has() holds.
func mirrored(k string, has func(base string) bool) bool {
	loadMirrors()
	for _, o := range mirrorOf[baseOf(k)] {
		if has(o) {
			return true
		}
	}
	return false
}

func loadMirrors() {
	loadData()
	mirrorOnce.Do(func() {
		mirrorOf = map[string][]string{}
		uri := map[string]string{}
		for u, p := range pool.Prefixes {
			uri[p] = u
		}
		x := func(s string) string {
			i := strings.IndexByte(s, ':')
			if uri[s[:i]] == "" {
				panic("mirror " + s)
			}
			return "{" + uri[s[:i]] + "}" + s[i+1:]
		}
		for _, p := range mirrorPairs {
			a, b := x(p[0]), x(p[1])
			mirrorOf[a] = append(mirrorOf[a], b)
			mirrorOf[b] = append(mirrorOf[b], a)
		}
	})
}

var mirrorOnce sync.Once

// hasBase tells which properties occur among leaves.
func hasBase(l map[string]string) func(string) bool {
	m := map[string]bool{}
	for k := range l {
		m[baseOf(k)] = true
	}
	return func(b string) bool { return m[b] }
}

// noPath: entries whose leaves have no path of their own (arrays of arrays,
// identifiers with a scheme, which read as one text).
func noPath(e *Entry) bool {
	return propNoPath(&e.P)
}

func propNoPath(p *Prop) bool {
	return p.Name == "Identifier" && p.NS == "http://ns.adobe.com/xap/1.0/"
}

// pathless lists the properties without paths for their leaves.
func pathless(props []Prop) map[string]bool {
	m := map[string]bool{}
	for i := range props {
		if propNoPath(&props[i]) {
			m["{"+props[i].NS+"}"+props[i].Name] = true
		}
	}
	return m
}

func nestedArray(v Val) bool {
	for _, it := range v.Items {
		if it.isArray() || nestedArray(it) {
			return true
		}
	}
	for _, f := range v.Fields {
		if nestedArray(f.V) {
			return true
		}
	}
	return false
}
