package main

// Offline calibration, part 2: properties for all fields of all models, with
// candidate values per leaf. Writes /verif/data/props.json. Not used by checks.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// candidates for text leaves, tried one by one
var candidates = []string{
	"Freier Text <&>\"' 7", "Word7", "7", "42", "1234567", "3", "2", "4", "1", "65535", "-5", "0.5", "2.25", "True", "False",
	"1/3", "72/1", "100/3", "2019-03-04T05:06:07Z", "2001-12-31T23:59:59+02:00", "2015-07-08T09:10:11.123Z", "2018-06-05",
	"12,34.5N", "123,45.75W", "http://example.com/a?b=c&d", "uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8",
	"xmp.did:1234-5678", "image/png", "en-US", "f25s3", "100f25", "50000f254016000000", "Pop", "DVCPROHD 29.97", "00:01:02:03", "25Timecode", "29.97",
	"SGVsbG8gV29ybGQ=", "0220", "1:2", "Tue, 02 Jan 2018", "#00FF00", "red", "CMYK", "A 12", "2.2.0.0", "v1.2", "10 20", "10 20 30",
	"1, 2, 3, 0", "0,0", "128, 130", "10, 20", "0.25 0.5", "0.5, 0.25",
	"inch", "mm", "cm", "Project", "PIXEL", "Gray", "sha-1", "X:Y", "I", "M8", "C maj", "32-bit", "8Int", "Stereo", "24 000",
	"00:00:10.000", "25", "23976", "PAL", "NTSC", "Progressive", "Upper", "straight", "none", "Alpha", "Linear", "crs:7", "4/4", "major", "mono", "stereo",
	"sRGB", "pre-multiplied", "both", "Full", "0 1 2 3", "2 1 2 1", "1 2", "USD 1.50", "1", "8", "9", "16", "32", "64", "128", "255",
	"0:1:2:3", "1:0:4:2", "101112+0100", "/metadata/", "/content/a/", "(mpaa|PG-13|300|x)", "1,3", "TRUE", "FALSE", "15/1", "24000/1001",
	"a:x y", "k=v", "a b=", "<b>", "true", "12:34:56+01:00", "23:00:01-05:30", "7s", "1h2m3.5s", "-250ms", "4000000000", "-1e+300", "1e-07", "NaN", "+Inf", "-Inf",
	"M", "T", "N", "S", "K", "R", "V", "A", "E",
}

var (
	tArray  = reflect.TypeOf((*xmp.Array)(nil)).Elem()
	tTextM  = reflect.TypeOf((*interface{ MarshalText() ([]byte, error) })(nil)).Elem()
	tXMP    = reflect.TypeOf((*xmp.Marshaler)(nil)).Elem()
	tAlt    = reflect.TypeOf(xmp.AltString{})
	tTime   = reflect.TypeOf(xmp.Date{})
	skipped []string
)

func implem(t, i reflect.Type) bool { return t.Implements(i) || reflect.PtrTo(t).Implements(i) }

// template of a type: text leaves have Text "?"
func tmpl(t reflect.Type, depth int, path string) (Val, bool) {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	txt := Val{Kind: KText, Text: "?"}
	if depth > 8 {
		return txt, false
	}
	if implem(t, tArray) {
		if t.Kind() != reflect.Slice && t.Kind() != reflect.Array {
			skipped = append(skipped, path+" "+t.String())
			return txt, false
		}
		if strings.Contains(t.String(), "Extension") {
			skipped = append(skipped, path+" "+t.String())
			return txt, false
		}
		var arr xmp.Array
		if t.Implements(tArray) {
			arr = reflect.Zero(t).Interface().(xmp.Array)
		} else {
			arr = reflect.New(t).Interface().(xmp.Array)
		}
		v := Val{Kind: string(arr.Typ())}
		if t.Elem() == reflect.PtrTo(tAlt) {
			a := Val{Kind: KAlt, Items: []Val{{Kind: KText, Text: "?", Lang: "x-default"}, {Kind: KText, Text: "?", Lang: "de"}}}
			v.Items = []Val{a, a.clone()}
			return v, true
		}
		if t == tAlt || strings.HasSuffix(t.String(), "AltString") && v.Kind == KAlt {
			v.Items = []Val{{Kind: KText, Text: "?", Lang: "x-default"}, {Kind: KText, Text: "?", Lang: "de"}}
			return v, true
		}
		e, ok := tmpl(t.Elem(), depth+1, path+"[]")
		if !ok {
			return txt, false
		}
		v.Items = []Val{e, e.clone()}
		if t.Kind() == reflect.Array {
			v.Items = nil
			for i := 0; i < t.Len(); i++ {
				v.Items = append(v.Items, e.clone())
			}
		}
		return v, true
	}
	if implem(t, tTextM) {
		return txt, true
	}
	switch t.Kind() {
	case reflect.Struct:
		v := Val{Kind: KStruct}
		structFields(t, depth, path, &v.Fields)
		if len(v.Fields) == 0 {
			skipped = append(skipped, path+" "+t.String())
			return txt, false
		}
		return v, true
	case reflect.Map:
		skipped = append(skipped, path+" "+t.String())
		return txt, false
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return txt, true
		}
		e, ok := tmpl(t.Elem(), depth+1, path+"[]")
		return Val{Kind: KSeq, Items: []Val{e, e.clone()}}, ok
	}
	return txt, true
}

func structFields(t reflect.Type, depth int, path string, out *[]Prop) {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("xmp")
		if f.Anonymous {
			structFields(f.Type, depth, path, out)
			continue
		}
		if f.PkgPath != "" || tag == "-" {
			continue
		}
		tok := strings.Split(tag, ",")
		name := tok[0]
		if name == "" {
			skipped = append(skipped, path+"/"+f.Name+" without tag")
			continue
		}
		omit := false
		for _, x := range tok[1:] {
			if x == "omit" || x == "any" || x == "flat" {
				omit = true
			}
		}
		if omit {
			skipped = append(skipped, path+"/"+name+" "+tag)
			continue
		}
		c := strings.IndexByte(name, ':')
		if c < 0 {
			skipped = append(skipped, path+"/"+name+" without prefix")
			continue
		}
		ns, err := xmp.GetNamespace(name[:c])
		if err != nil {
			skipped = append(skipped, path+"/"+name+" unregistered prefix")
			continue
		}
		v, ok := tmpl(f.Type, depth+1, path+"/"+name)
		if !ok {
			continue
		}
		*out = append(*out, Prop{ns.GetURI(), name[c+1:], v})
	}
}

// roundtrip of one property; "" if identical
func rtProp(p Prop, prefix func(string) string) string {
	pk := writePacket([]Prop{p}, plainStyle(prefix), true, false)
	want, _ := leavesOf([]Prop{p})
	out, err := rtXML(pk)
	if err != nil {
		return "error " + err.Error()
	}
	ps, err := refParse(out)
	if err != nil {
		return "output " + err.Error()
	}
	got, _ := leavesOf(ps)
	return diffLeaves(want, dropInvented(want, got))
}

// keepOnly returns a copy of v in which all text leaves but n are dropped
// together with the empty containers this leaves behind. -1 keeps none.
func keepOnly(v Val, cnt *int, n int, text string) (Val, bool) {
	switch v.Kind {
	case KText:
		i := *cnt
		*cnt++
		if i == n {
			v.Text = text
			return v, true
		}
		return v, false
	case KStruct:
		w := Val{Kind: KStruct, Lang: v.Lang}
		for _, f := range v.Fields {
			x, ok := keepOnly(f.V, cnt, n, text)
			if ok {
				w.Fields = append(w.Fields, Prop{f.NS, f.Name, x})
			}
		}
		return w, len(w.Fields) > 0
	}
	w := Val{Kind: v.Kind, Lang: v.Lang}
	for _, it := range v.Items {
		x, ok := keepOnly(it, cnt, n, text)
		if ok {
			w.Items = append(w.Items, x)
		}
	}
	return w, len(w.Items) > 0
}

func setLeaves(v *Val, f func(i int, t *Val)) {
	n := 0
	v.eachText(func(t *Val) { f(n, t); n++ })
}

func ps(ns string, kv ...interface{}) []Prop {
	var l []Prop
	for i := 0; i < len(kv); i += 2 {
		v, ok := kv[i+1].(Val)
		if !ok {
			v = Val{Kind: KText, Text: kv[i+1].(string)}
		}
		n, u := kv[i].(string), ns
		if c := strings.IndexByte(n, ':'); c > 0 {
			x, err := xmp.GetNamespace(n[:c])
			if err != nil {
				panic(n)
			}
			u, n = x.GetURI(), n[c+1:]
		}
		l = append(l, Prop{u, n, v})
	}
	return l
}

func st(l []Prop) Val { return Val{Kind: KStruct, Fields: l} }
func ar(k string, l ...interface{}) Val {
	v := Val{Kind: k}
	for _, x := range l {
		switch x := x.(type) {
		case string:
			v.Items = append(v.Items, Val{Kind: KText, Text: x})
		case Val:
			v.Items = append(v.Items, x)
		}
	}
	return v
}

func handwritten() []Prop {
	uri := func(p string) string { ns, _ := xmp.GetNamespace(p); return ns.GetURI() }
	e, t, dm, mm, id, it, ix := uri("exif"), uri("tiff"), uri("xmpDM"), uri("xmpMM"), uri("id3"), uri("iTunes"), uri("iXML")
	_ = id
	oecf := st(ps(e, "Columns", "2", "Rows", "1", "Names", ar(KBag, "red", "blue"), "Values", ar(KSeq, "1/2", "3/4")))
	oecf2 := st(ps(e, "Columns", "2", "Rows", "1", "Names", ar(KSeq, "red", "blue"), "Values", ar(KSeq, "1/2", "3/4")))
	var l []Prop
	l = append(l, ps(e, "OECF", oecf, "SpatialFrequencyResponse", oecf, "OECF", oecf2, "SpatialFrequencyResponse", oecf2,
		"CFAPattern", st(ps(e, "Columns", "2", "Rows", "2", "Values", ar(KSeq, "1", "2", "3", "1"))),
		"CFAPattern", st(ps(e, "Columns", "2", "Rows", "2", "Values", "1 2 3 1")),
		"CFAPattern", st(ps(e, "Columns", "2", "Rows", "2", "Values", "0 1 1 2")),
		"DeviceSettingDescription", st(ps(e, "Columns", "2", "Rows", "1", "Values", ar(KSeq, "abc", "def"))),
		"DeviceSettingDescription", st(ps(e, "Columns", "2", "Rows", "1", "Values", ar(KBag, "abc", "def"))),
		"Flash", st(ps(e, "Fired", "True", "Function", "False", "Mode", "2", "RedEyeMode", "True", "Return", "3")))...)
	l = append(l, ps(t, "YCbCrSubSampling", ar(KSeq, "2", "1"), "YCbCrSubSampling", ar(KSeq, "2", "2"))...)
	l = append(l, ps(dm, "altTimecode", st(ps(dm, "timeFormat", "25Timecode", "timeValue", "01:02:03:04")),
		"startTimecode", st(ps(dm, "timeFormat", "2997DropTimecode", "timeValue", "01;02;03;04")))...)
	l = append(l, ps(mm, "Pantry", ar(KBag,
		st(ps(mm, "InstanceID", "xmp.iid:aa-1", "dc:format", "image/png", "dc:title", Val{Kind: KAlt, Items: []Val{{Kind: KText, Text: "Titel", Lang: "x-default"}}},
			"xmp:CreatorTool", "tool", "History", ar(KSeq, st(ps(mm, "stEvt:action", "created", "stEvt:softwareAgent", "ag"))))),
		st(ps(mm, "InstanceID", "xmp.iid:bb-2", "xmpDM:artist", "someone", "dc:creator", ar(KSeq, "c1", "c2")))))...)
	l = append(l, Prop{uri("xmp"), "extension", st([]Prop{{"http://ext.example/a/", "Ext1", st([]Prop{{"http://ext.example/a/", "f1", Val{Kind: KText, Text: "x1"}}, {"http://ext.example/a/", "f2", Val{Kind: KText, Text: "x2"}}})}})})
	l = append(l, Prop{ix, "extension", st([]Prop{{"http://ext.example/a/", "Ext1", st([]Prop{{"http://ext.example/a/", "f1", Val{Kind: KText, Text: "x1"}}})}})})
	l = append(l, ps(it, "ContentRating", "(mpaa|PG-13|300|why)", "extension", st(ps(it, "foo", "bar", "baz", "qux")))...)
	l = append(l, ps(uri("id3"), "extension", st(ps(uri("id3"), "XABC", "bar")))...)
	l = append(l, ps(uri("qt"), "extension", st(ps(uri("qt"), "abcd", "bar")))...)
	return l
}

func sampleProps(dir string, prefixes map[string]string) []Prop {
	files, _ := filepath.Glob(dir + "/*.xmp")
	more, _ := filepath.Glob(dir + "/*/*.xmp")
	files = append(files, more...)
	seen := map[string]bool{}
	var out []Prop
	for _, f := range files {
		b, _ := os.ReadFile(f)
		if i := bytes.Index(b, []byte("<?xpacket")); i > 0 {
			b = b[i:]
		}
		l, err := refParse(b)
		if err != nil {
			continue
		}
		prefixesOf(b, prefixes)
		for _, p := range l {
			js, _ := json.Marshal(p)
			if seen[string(js)] || len(js) > 6000 {
				continue
			}
			seen[string(js)] = true
			out = append(out, p)
		}
	}
	return out
}

func modelProps() []Prop {
	prefs := xmp.NsRegistry.Prefixes()
	sort.Strings(prefs)
	seen := map[string]bool{}
	var out []Prop
	for _, p := range prefs {
		ns, _ := xmp.GetNamespace(p)
		m := ns.NewModel()
		if m == nil {
			continue
		}
		t := reflect.TypeOf(m).Elem()
		if seen[t.String()] {
			continue
		}
		seen[t.String()] = true
		structFields(t, 0, t.String(), &out)
	}
	return out
}

func calib2Main(out, only string) {
	reinit()
	prefixes := map[string]string{}
	for _, ns := range xmp.NsRegistry.Namespaces() {
		prefixes[ns.GetURI()] = ns.GetName()
	}
	models := modelProps()
	var samples []Prop
	limit := 8
	if only != "" {
		k := models[:0]
		for _, m := range models {
			if m.NS == simURI || m.NS == simURI2 {
				k = append(k, m)
			}
		}
		models = k
		limit = 12
		candidates = append([]string{freeText, "k=v w", "4000000000", "-1e+300", "1e-07", "0.1", "-9", "255", "-128", "65535", "9223372036854775807", "18446744073709551615", "NaN", "+Inf", "-Inf", "abcd", "a<4>"}, candidates...)
	} else {
		samples = sampleProps("/repo/samples", prefixes)
	}
	nn := 0
	prefix := func(u string) string {
		if p, ok := prefixes[u]; ok {
			return p
		}
		nn++
		prefixes[u] = fmt.Sprintf("ns%d", nn)
		return prefixes[u]
	}
	var entries []Entry
	alts := func(e *Entry) {
		n := 0
		e.P.V.eachText(func(*Val) { n++ })
		for i := 0; i < n; i++ {
			var a []string
			for _, c := range candidates {
				q := e.P
				q.V = q.V.clone()
				k := 0
				same := false
				q.V.eachText(func(t *Val) {
					if k == i {
						same = t.Text == c
						t.Text = c
					}
					k++
				})
				if same || len(a) < limit && rtProp(q, prefix) == "" {
					a = append(a, c)
				}
			}
			e.Alts = append(e.Alts, a)
		}
	}
	total := len(models)
	for _, pr := range models {
		name := prefix(pr.NS) + ":" + pr.Name
		nl := 0
		pr.V.eachText(func(*Val) { nl++ })
		val := make([]string, nl)
		for l := 0; l < nl; l++ {
			first := ""
			for _, c := range candidates {
				cnt := 0
				v, _ := keepOnly(pr.V, &cnt, l, c)
				r := rtProp(Prop{pr.NS, pr.Name, v}, prefix)
				if r == "" {
					val[l] = c
					break
				} else if first == "" || !strings.HasPrefix(r, "error") && strings.HasPrefix(first, "error") {
					first = r
				}
			}
			if val[l] == "" {
				fmt.Printf("BADLEAF %s leaf %d: %s\n", name, l, clip2(first, 250))
			}
		}
		n := 0
		var drop func(v Val) (Val, bool)
		drop = func(v Val) (Val, bool) {
			switch v.Kind {
			case KText:
				i := n
				n++
				v.Text = val[i]
				return v, v.Text != ""
			case KStruct:
				w := Val{Kind: KStruct, Lang: v.Lang}
				for _, f := range v.Fields {
					if x, ok := drop(f.V); ok {
						w.Fields = append(w.Fields, Prop{f.NS, f.Name, x})
					}
				}
				return w, len(w.Fields) > 0
			}
			w := Val{Kind: v.Kind, Lang: v.Lang}
			for _, it := range v.Items {
				if x, ok := drop(it); ok {
					w.Items = append(w.Items, x)
				}
			}
			return w, len(w.Items) > 0
		}
		w, ok := drop(pr.V)
		if !ok {
			fmt.Printf("NONE %s\n", name)
			continue
		}
		e := Entry{P: Prop{pr.NS, pr.Name, w}, Split: true}
		if r := rtProp(e.P, prefix); r != "" {
			fmt.Printf("BADWHOLE %s %s\n", name, clip2(r, 400))
			continue
		}
		alts(&e)
		entries = append(entries, e)
	}
	fmt.Println("models", total, "good", len(entries))
	hand := handwritten()
	if only != "" {
		hand = ps(simURI, "Four", "a<4>")
	}
	for i, l := range [][]Prop{hand, samples} {
		shapes := map[string]int{}
		bad := map[string]int{}
		for _, p := range l {
			key := prefix(p.NS) + ":" + p.Name
			want, _ := leavesOf([]Prop{p})
			if len(want) == 0 {
				continue
			}
			if r := rtProp(p, prefix); r != "" {
				bad[key]++
				if bad[key] <= 2 {
					fmt.Printf("BAD%d %s %s\n", i, key, clip2(r, 300))
				}
				continue
			}
			sk := key + shape(p.V)
			shapes[sk]++
			shapes[key]++
			if shapes[sk] > 1 || shapes[key] > 6 {
				continue
			}
			e := Entry{P: p}
			alts(&e)
			entries = append(entries, e)
		}
	}
	sort.Strings(skipped)
	for _, s := range skipped {
		fmt.Println("SKIP", s)
	}
	fmt.Println("entries", len(entries))
	f := dataFile{Entries: entries, Prefixes: prefixes}
	js, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(out, js, 0o644)
}

// dropInvented removes leaves the exif model always writes.
func dropInvented(want, got Leaves) Leaves {
	l := Leaves{}
	for k, v := range got {
		if _, ok := want[k]; !ok && alwaysWritten(k, v) {
			continue
		}
		l[k] = v
	}
	return l
}

// alwaysWritten: properties some models write even if unset (zero valued
// enumerations of exif, the version of iXML).
func alwaysWritten(k, v string) bool {
	if strings.HasPrefix(k, "{http://ns.adobe.com/exif/1.0/}") && v == "0" {
		return true
	}
	return k == "{http://ns.adobe.com/ixml/1.0/}version" && v == "2.0"
}
