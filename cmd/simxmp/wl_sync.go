package main

// C21: values that a document holds both as native tag of a container format
// and as standard XMP property stay in step.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C21", Run: runC21, Quick: 40000,
		Rule: "one run = one document with standard properties and models of native formats that hold the same values, and a history of native tags and standard properties set, changed and removed, with saves, failed saves, crashes and restarts in between, against a reference model of which value wins; or a history of identifiers gathered by SyncModels; non-trivial when a native value was saved or an identifier gathered",
		Real: "SyncFromXMP, SyncToXMP and SyncModel of all models, Document.Sync, SetPath, native tag methods, Encoder, Unmarshal", Stub: "io.Writer and io.Reader (simulated disk), process (state reset at a crash)"})
}

// syncRow is a native tag with a standard counterpart.
type syncRow struct {
	Model, Tag string
	Base       string // prefix:name
	Form       string // of the counterpart
	Over       bool   // the native value replaces a standard one
	Stored     bool   // is also stored under a name of its own
	Free       bool   // restart does not copy the standard value back
	Vals       []string
	Sub        string // tag with fractions of a second, or reference of a coordinate
	Path       string // property of the native model, for tags without text form
}

var isoDates = []string{"2019-03-04T05:06:07Z", "2001-12-31T23:59:59+02:00", "2015-07-08T09:10:11.123Z", "2020-01-02T03:04:05Z", "1999-06-07T08:09:10.5-03:30"}
var exifDates = []string{"2001:02:03 04:05:06", "2019:12:31 23:59:59", "1998:07:08 09:10:11"}
var syncInts = []string{"300", "4242", "1234567", "65535", "777"}
var syncRats = []string{"1/3", "72/1", "100/3", "4/4", "24000/1001"}

var syncRows = []syncRow{
	{Model: "exif", Tag: "0x013b", Base: "dc:creator", Form: "list;"},
	{Model: "exif", Tag: "0x010e", Base: "dc:description", Form: "alt"},
	{Model: "exif", Tag: "0x8298", Base: "dc:rights", Form: "alt"},
	{Model: "exif", Tag: "0x0131", Base: "xmp:CreatorTool", Form: "text"},
	{Model: "exif", Tag: "0x0132", Base: "xmp:ModifyDate", Form: "exifdate", Vals: exifDates, Sub: "0x9290"},
	{Model: "exif", Tag: "0x9003", Base: "photoshop:DateCreated", Form: "exifdate", Vals: exifDates, Sub: "0x9291"},
	{Model: "exif", Tag: "0x9004", Base: "exif:DateTimeDigitized", Form: "exifdate", Vals: exifDates, Sub: "0x9292", Over: true},
	{Model: "exif", Tag: "0x0002", Base: "exif:GPSLatitude", Form: "gps", Vals: []string{"12.51|N", "0.25|S", "89.755|N", "7|S"}, Sub: "0x0001", Over: true, Free: true},
	{Model: "exif", Tag: "0x0004", Base: "exif:GPSLongitude", Form: "gps", Vals: []string{"12.51|E", "0.25|W", "179.755|E", "7|W"}, Sub: "0x0003", Over: true, Free: true},
	{Model: "exif", Tag: "0x0014", Base: "exif:GPSDestLatitude", Form: "gps", Vals: []string{"12.51|N", "0.25|S", "89.755|N", "7|S"}, Sub: "0x0013", Over: true, Free: true},
	{Model: "exif", Tag: "0x0016", Base: "exif:GPSDestLongitude", Form: "gps", Vals: []string{"12.51|E", "0.25|W", "179.755|E", "7|W"}, Sub: "0x0015", Over: true, Free: true},
	{Model: "exif", Tag: "0x001d", Base: "exif:GPSTimeStamp", Form: "exifdate", Vals: exifDates, Over: true, Free: true},
	{Model: "exif", Tag: "0x010f", Base: "tiff:Make", Form: "text"},
	{Model: "exif", Tag: "0x0110", Base: "tiff:Model", Form: "text"},
	{Model: "exif", Tag: "0x0100", Base: "tiff:ImageWidth", Form: "text", Vals: syncInts},
	{Model: "exif", Tag: "0x0101", Base: "tiff:ImageLength", Form: "text", Vals: syncInts},
	{Model: "exif", Tag: "0x0103", Base: "tiff:Compression", Form: "text", Vals: syncInts},
	{Model: "exif", Tag: "0x0112", Base: "tiff:Orientation", Form: "text", Vals: []string{"1", "3", "6", "8"}},
	{Model: "exif", Tag: "0x0106", Base: "tiff:PhotometricInterpretation", Form: "text", Vals: syncInts},
	{Model: "exif", Tag: "0x011c", Base: "tiff:PlanarConfiguration", Form: "text", Vals: []string{"1", "2"}},
	{Model: "exif", Tag: "0x0128", Base: "tiff:ResolutionUnit", Form: "text", Vals: []string{"2", "3"}},
	{Model: "exif", Tag: "0x0115", Base: "tiff:SamplesPerPixel", Form: "text", Vals: syncInts},
	{Model: "exif", Tag: "0x0213", Base: "tiff:YCbCrPositioning", Form: "text", Vals: []string{"1", "2"}},
	{Model: "exif", Tag: "0x011a", Base: "tiff:XResolution", Form: "text", Vals: syncRats},
	{Model: "exif", Tag: "0x011b", Base: "tiff:YResolution", Form: "text", Vals: syncRats},

	{Model: "riffinfo", Tag: "IART", Base: "xmpDM:artist", Form: "text"},
	{Model: "riffinfo", Tag: "ICMT", Base: "xmpDM:logComment", Form: "text"},
	{Model: "riffinfo", Tag: "IENG", Base: "xmpDM:engineer", Form: "text"},
	{Model: "riffinfo", Tag: "IGNR", Base: "xmpDM:genre", Form: "text"},
	{Model: "riffinfo", Tag: "ICRD", Base: "xmp:CreateDate", Form: "text", Vals: isoDates},
	{Model: "riffinfo", Tag: "IMED", Base: "dc:source", Form: "text"},
	{Model: "riffinfo", Tag: "ISFT", Base: "xmp:CreatorTool", Form: "text"},

	{Model: "riffinfo", Tag: "IDIT", Base: "riffinfo:DateTimeOriginal", Form: "text", Free: true},
	{Model: "riffinfo", Tag: "IENC", Base: "riffinfo:EncodedBy", Form: "text", Free: true},
	{Model: "riffinfo", Tag: "STAR", Base: "riffinfo:Starring", Form: "text", Free: true},

	{Model: "riffinfo", Tag: "INAM", Base: "dc:title", Form: "alt", Path: "riffinfo:name", Stored: true},
	{Model: "riffinfo", Tag: "ICOP", Base: "dc:rights", Form: "alt", Path: "dc:rights"},
	{Model: "riffinfo", Tag: "ISBJ", Base: "dc:description", Form: "alt", Path: "dc:description"},
	{Model: "riffinfo", Tag: "IKEY", Base: "dc:subject", Form: "list", Path: "dc:subject"},
	{Model: "riffinfo", Tag: "ISRF", Base: "dc:type", Form: "list", Path: "dc:type"},

	{Model: "pdf", Tag: "Title", Base: "dc:title", Form: "alt", Path: "dc:title"},
	{Model: "pdf", Tag: "Subject", Base: "dc:description", Form: "alt", Path: "dc:description"},
	{Model: "pdf", Tag: "Author", Base: "dc:creator", Form: "list"},
	{Model: "pdf", Tag: "Creator", Base: "xmp:CreatorTool", Form: "text"},
	{Model: "pdf", Tag: "CreationDate", Base: "xmp:CreateDate", Form: "text", Vals: isoDates},
	{Model: "pdf", Tag: "ModifyDate", Base: "xmp:ModifyDate", Form: "text", Vals: isoDates},
	{Model: "pdf", Tag: "Copyright", Base: "dc:rights", Form: "alt", Stored: true},

	{Model: "tiff", Tag: "ImageDescription", Base: "dc:description", Form: "alt", Path: "dc:description"},
	{Model: "tiff", Tag: "Copyright", Base: "dc:rights", Form: "alt", Path: "dc:rights"},
	{Model: "tiff", Tag: "X_Artist", Base: "dc:creator", Form: "list,", Free: true},
	{Model: "tiff", Tag: "X_DateTime", Base: "xmp:ModifyDate", Form: "text", Vals: isoDates, Free: true},
	{Model: "tiff", Tag: "X_Software", Base: "xmp:CreatorTool", Form: "text", Free: true},
	{Model: "tiff", Tag: "Artist", Base: "dc:creator", Form: "list"},
	{Model: "tiff", Tag: "DateTime", Base: "xmp:ModifyDate", Form: "text", Vals: isoDates},
	{Model: "tiff", Tag: "Software", Base: "xmp:CreatorTool", Form: "text"},

	{Model: "id3", Tag: "TIT2", Base: "dc:title", Form: "alt", Stored: true},
	{Model: "id3", Tag: "TCOP", Base: "dc:rights", Form: "alt", Stored: true},
	{Model: "id3", Tag: "TALB", Base: "xmpDM:album", Form: "text", Over: true, Stored: true},
	{Model: "id3", Tag: "COMM", Base: "xmpDM:logComment", Form: "text", Over: true, Stored: true},
	{Model: "id3", Tag: "TCOM", Base: "xmpDM:composer", Form: "text", Over: true, Stored: true},
	{Model: "id3", Tag: "TPE1", Base: "xmpDM:artist", Form: "text", Over: true, Stored: true},
	{Model: "id3", Tag: "TPE4", Base: "xmpDM:engineer", Form: "text", Over: true, Stored: true},
	{Model: "id3", Tag: "TCON", Base: "xmpDM:genre", Form: "once", Over: true, Stored: true},
	{Model: "id3", Tag: "USLT", Base: "xmpDM:lyrics", Form: "once", Over: true, Stored: true, Vals: []string{"line one", "one\ntwo", "one\n\nthree\nfour", "x"}},
	{Model: "id3", Tag: "TRCK", Base: "xmpDM:trackNumber", Form: "track", Over: true, Stored: true, Vals: []string{"300", "301/400", "777/1000", "4242"}},
	{Model: "id3", Tag: "TPOS", Base: "xmpDM:discNumber", Form: "track", Over: true, Stored: true, Vals: []string{"300", "301/400", "777/1000", "4242"}},
	{Model: "id3", Tag: "TCMP", Base: "xmpDM:partOfCompilation", Form: "flag", Over: true, Stored: true, Vals: []string{"1"}},
	{Model: "id3", Tag: "TDRC", Base: "xmp:CreateDate", Form: "text", Over: true, Stored: true, Vals: isoDates},
	{Model: "id3", Tag: "WCOP", Base: "xmpRights:WebStatement", Form: "text", Over: true, Stored: true},

	{Model: "iXML", Tag: "SoundRoll", Base: "xmpDM:tapeName", Form: "text", Over: true, Stored: true, Free: true},
	{Model: "iXML", Tag: "SceneName", Base: "xmpDM:scene", Form: "text", Over: true, Stored: true, Free: true},
	{Model: "iXML", Tag: "Note", Base: "xmpDM:logComment", Form: "text", Over: true, Stored: true, Free: true},
	{Model: "iXML", Tag: "Project", Base: "xmpDM:projectName", Form: "text", Over: true, Stored: true, Free: true},
	{Model: "iXML", Tag: "IsCircled", Base: "xmpDM:good", Form: "flag", Over: true, Stored: true, Free: true, Vals: []string{"TRUE"}},
	{Model: "iXML", Tag: "Take", Base: "xmpDM:trackNumber", Form: "text", Over: true, Stored: true, Free: true, Vals: syncInts},
}

var syncModels = []string{"exif", "riffinfo", "pdf", "tiff", "id3", "iXML"}

// toStd gives the standard value that follows from a native one, as list of
// leaf and text.
func (e *syncRow) toStd(v string) string {
	switch e.Form {
	case "list":
		return "[Seq 0]=" + v
	case "flag":
		return "=True"
	case "gps":
		d, err := strconv.ParseFloat(v[:strings.IndexByte(v, '|')], 64)
		if err != nil {
			panic(err)
		}
		return fmt.Sprintf("=%d,%.3f%s", int(d), (d-float64(int(d)))*60, v[strings.IndexByte(v, '|')+1:])
	case "list;", "list,":
		var l []string
		for i, s := range strings.Split(v, e.Form[4:]) {
			l = append(l, fmt.Sprintf("[Seq %d]=%s", i, s))
		}
		return strings.Join(l, "\n")
	case "alt":
		return "[Alt x-default]=" + v
	case "exifdate":
		sub := ""
		if i := strings.IndexByte(v, '|'); i > 0 {
			v, sub = v[:i], strings.TrimRight(v[i+1:], "0")
		}
		t, err := time.Parse("2006:01:02 15:04:05", v)
		if err != nil {
			panic(err)
		}
		s := t.Format("2006-01-02T15:04:05")
		if sub != "" {
			s += "." + sub
		}
		return "=" + s + "Z"
	case "track":
		if i := strings.IndexByte(v, '/'); i > 0 {
			v = v[:i]
		}
	}
	return "=" + v
}

// fromStd gives the native value that follows from a standard one.
func (e *syncRow) fromStd(s string) string {
	if s == "" {
		return ""
	}
	switch e.Form {
	case "flag":
		return e.Vals[0]
	case "list", "list;":
		var l []string
		for _, x := range strings.Split(s, "\n") {
			l = append(l, x[strings.Index(x, "]=")+2:])
		}
		if e.Form == "list" {
			return l[0]
		}
		return strings.Join(l, ";")
	case "alt":
		const p = "[Alt x-default]="
		for _, x := range strings.Split(s, "\n") {
			if strings.HasPrefix(x, p) {
				return x[len(p):]
			}
		}
		panic("no default in " + s)
	case "exifdate":
		t, err := time.Parse(time.RFC3339Nano, s[1:])
		if err != nil {
			panic(err)
		}
		v := t.Format("2006:01:02 15:04:05")
		if f := t.Format(".999999999"); f != "" {
			v += "|" + f[1:]
		}
		return v
	}
	return s[1:]
}

func stdForm(base string) string {
	for i := range syncRows {
		if e := &syncRows[i]; e.Base == base {
			switch e.Form {
			case "list", "list;", "list,":
				return "list"
			case "alt":
				return "alt"
			}
		}
	}
	return "text"
}

// syncState is the reference model.
type syncState struct {
	d    *xmp.Document
	std  map[string]string          // by base, after the last save
	alt  map[string]map[string]bool // other values it may take at the next save
	nat  map[int]string             // by row: what the model holds
	set  map[int]bool               // since the last save
	live map[int]bool               // set since the last restart
	// the value came from a native tag since the last restart
	derived map[string]bool
}

func (s *syncState) clone() *syncState {
	c := &syncState{std: map[string]string{}, alt: map[string]map[string]bool{}, nat: map[int]string{}, set: map[int]bool{}, live: map[int]bool{}, derived: map[string]bool{}}
	for k, v := range s.std {
		c.std[k] = v
	}
	for k, v := range s.nat {
		c.nat[k] = v
	}
	return c
}

var expandedBase = map[string]string{}

func loadSync(r *R) {
	loadData()
	for u, p := range pool.Prefixes {
		expandedBase[p] = u
	}
}

func syncKey(base string) string {
	i := strings.IndexByte(base, ':')
	return "{" + expandedBase[base[:i]] + "}" + base[i+1:]
}

func stdVal(l Leaves, base string) string {
	k := syncKey(base)
	var x []string
	for p, v := range l {
		if strings.HasPrefix(p, k) && (len(p) == len(k) || p[len(k)] == '[' || p[len(k)] == '/') {
			x = append(x, strings.Replace(p[len(k):], "[Bag ", "[Seq ", 1)+"="+v)
		}
	}
	sort.Strings(x)
	return canonGPS(base, strings.Join(x, "\n"))
}

// canonGPS rounds the minutes of a coordinate, which passed through binary
// fractions.
func canonGPS(base, v string) string {
	i := strings.IndexByte(v, ',')
	if !strings.HasPrefix(base, "exif:GPS") || i < 0 {
		return v
	}
	m, err := strconv.ParseFloat(v[i+1:len(v)-1], 64)
	if err != nil {
		return v
	}
	return fmt.Sprintf("%s,%.3f%s", v[:i], m, v[len(v)-1:])
}

func (r *R) natValue(e *syncRow) string {
	if len(e.Vals) > 0 {
		v := pick(r.Src, e.Vals)
		if e.Form == "exifdate" && e.Sub != "" && r.N(3) == 2 {
			v += "|" + pick(r.Src, []string{"5", "123", "005", "250"})
		}
		return v
	}
	clean := func() string {
		for {
			if s := r.tagText(); !strings.ContainsAny(s, ";,|") {
				return s
			}
		}
	}
	v := clean()
	if e.Form == "list;" || e.Form == "list," {
		for i := r.N(3); i > 0; i-- {
			v += e.Form[4:] + clean()
		}
	}
	return v
}

// stdText makes a standard value: what stdVal returns, and the property.
func (r *R) stdText(base string) (string, Val) {
	var src *syncRow
	for i := range syncRows {
		if e := &syncRows[i]; e.Base == base {
			src = e
			if e.Form != "exifdate" && e.Form != "list;" && e.Form != "list," {
				break
			}
		}
	}
	switch src.Form {
	case "flag":
		return "=True", Val{Kind: KText, Text: "True"}
	case "gps":
		t := pick(r.Src, []string{"1,2.5N", "10,20.25E", "33,0W"})
		return canonGPS(base, "="+t), Val{Kind: KText, Text: t}
	case "list", "list;", "list,":
		v := Val{Kind: KSeq}
		if base == "dc:subject" || base == "dc:type" {
			v.Kind = KBag
		}
		var l []string
		for i := 0; i < 1+r.N(3); i++ {
			t := r.natValue(&syncRow{})
			v.Items = append(v.Items, Val{Kind: KText, Text: t})
			l = append(l, fmt.Sprintf("[Seq %d]=%s", i, t))
		}
		return strings.Join(l, "\n"), v
	case "alt":
		t := r.natValue(&syncRow{})
		v := Val{Kind: KAlt, Items: []Val{{Kind: KText, Text: t, Lang: "x-default"}}}
		s := "[Alt x-default]=" + t
		if r.N(3) == 2 {
			t := r.natValue(&syncRow{})
			v.Items = append(v.Items, Val{Kind: KText, Text: t, Lang: "de"})
			s = "[Alt de]=" + t + "\n" + s
		}
		return s, v
	case "exifdate":
		t := pick(r.Src, isoDates)
		return "=" + t, Val{Kind: KText, Text: t}
	case "track":
		t := pick(r.Src, syncInts)
		return "=" + t, Val{Kind: KText, Text: t}
	}
	t := r.natValue(src)
	return "=" + t, Val{Kind: KText, Text: t}
}

// allowed lists the values a standard property may have when it is saved.
func (s *syncState) allowed(base string) map[string]bool {
	cur := s.std[base]
	ok := map[string]bool{}
	var over, fill []int
	for i := range syncRows {
		e := &syncRows[i]
		if v := s.nat[i]; e.Base == base && v != "" {
			if e.Over {
				over = append(over, i)
			} else if s.live[i] || e.Stored {
				fill = append(fill, i)
			}
		}
	}
	if len(over) > 0 {
		for _, i := range over {
			ok[syncRows[i].toStd(s.nat[i])] = true
		}
	} else if cur != "" {
		ok[cur] = true
		for _, i := range fill {
			if s.set[i] && s.derived[base] {
				ok[syncRows[i].toStd(s.nat[i])] = true
			}
		}
	} else {
		for _, i := range fill {
			ok[syncRows[i].toStd(s.nat[i])] = true
		}
		if len(fill) == 0 {
			ok[""] = true
		}
	}
	for v := range s.alt[base] {
		ok[v] = true
	}
	return ok
}

func runC21(r *R) {
	loadSync(r)
	loadMirrors()
	r.mapOrder()
	switch r.N(10) {
	case 7:
		r.derivedGroups()
		return
	case 8, 9:
		r.gatherIDs()
		return
	}
	rowKey := map[string]bool{}
	for i := range syncRows {
		rowKey[syncKey(syncRows[i].Base)] = true
	}
	skip := map[string]bool{simURI2: true}
	for _, p := range []string{"exif", "tiff", "exifEX", "aux", "pdf", "riffinfo", "id3", "iXML", "iTunes", "qt"} {
		if u := expandedBase[p]; u != "" {
			skip[u] = true
		}
	}
	other := r.genProps(&GenOpt{InKnown: true, N: r.Small(6), Unknown: pick(r.Src, []int{0, 1, 3}), SkipNS: skip, Skip: func(e *Entry) bool {
		k := "{" + e.P.NS + "}" + e.P.Name
		return rowKey[k] || mirrorOf[k] != nil || noPath(e)
	}})
	var kept []Prop
	for _, p := range other {
		if k := "{" + p.NS + "}" + p.Name; !rowKey[k] && !skip[p.NS] && !zeroLike(&p) && mirrorOf[k] == nil {
			kept = append(kept, p)
		}
	}
	other = kept
	// the models of this document and the properties they share
	var mods []string
	for i := 1 + r.N(2); i > 0; i-- {
		m := pick(r.Src, syncModels)
		if !contains(mods, m) {
			mods = append(mods, m)
		}
	}
	var rows []int
	var bases []string
	for i := range syncRows {
		if e := &syncRows[i]; contains(mods, e.Model) && r.N(2) == 0 {
			rows = append(rows, i)
			if !contains(bases, e.Base) {
				bases = append(bases, e.Base)
			}
		}
	}
	if len(rows) == 0 {
		return
	}
	s := (&syncState{}).clone()
	props := cloneProps(other)
	for _, b := range bases {
		if r.N(3) == 2 {
			t, v := r.stdText(b)
			s.std[b] = t
			i := strings.IndexByte(b, ':')
			props = append(props, Prop{NS: expandedBase[b[:i]], Name: b[i+1:], V: v})
		}
	}
	b := writePacket(props, r.style(), true, false)
	r.Logf("models %v, document: %s", mods, describe(props))
	if r.tracing {
		r.Logf("xml %s", clip2(string(b), 3000))
	}
	s.d = loadBytes(r, b, false)
	durable, dur, durJSON, loose := b, s.clone(), false, false
	model := func(name string) tagger {
		ns := mustNS(r, name)
		x := s.d.FindModel(ns)
		if x == nil {
			var err error
			if x, err = s.d.MakeModel(ns); err != nil {
				r.Fail("model-refused", "MakeModel(%s): %v", name, err)
			}
			if err := x.SyncFromXMP(s.d); err != nil {
				r.Fail("model-refused", "SyncFromXMP(%s): %v", name, err)
			}
			for i := range syncRows {
				if e := &syncRows[i]; e.Model == name && e.Over && !e.Free && s.nat[i] == "" {
					if g, _ := x.(tagger).GetTag(e.Tag); g != "" && e.Form == "once" || g == e.fromStd(s.std[e.Base]) {
						s.nat[i] = e.fromStd(s.std[e.Base])
					} else { // a failed save may have made the standard value
						for v := range s.allowed(e.Base) {
							if v != "" && (g == e.fromStd(v) || e.Form == "once" && strings.Contains(g, e.fromStd(v))) {
								s.nat[i] = e.fromStd(v)
							}
						}
					}
				}
			}
		}
		return x.(tagger)
	}
	get := func(e *syncRow) string {
		t := model(e.Model)
		if e.Form == "gps" {
			return ""
		}
		if e.Path != "" || e.Form == "list" {
			p := e.Path
			if p == "" {
				p = e.Base
			}
			p += "[x-default]"
			if e.Form == "list" {
				p = e.Base + "[0]"
			}
			g, err := xmp.GetModelPath(t.(xmp.Model), xmp.Path(p))
			if err != nil {
				g = ""
			}
			return g
		}
		g, err := t.GetTag(e.Tag)
		if err != nil {
			r.Fail("tag-error", "%s: GetTag(%s): %v", e.Model, e.Tag, err)
		}
		if e.Sub != "" {
			f, err := t.GetTag(e.Sub)
			if err != nil {
				r.Fail("tag-error", "%s: GetTag(%s): %v", e.Model, e.Sub, err)
			}
			if f = strings.TrimRight(f, "0"); f != "" {
				g += "|" + f
			}
		}
		return g
	}
	readBack := func(pre string) {
		for _, i := range rows {
			e := &syncRows[i]
			if e.Form == "gps" || e.Form == "once" {
				continue
			}
			g := get(e)
			std, nat := s.std[e.Base], s.nat[i]
			want := e.fromStd(std)
			if e.Free || want == "" && e.Stored || e.Form == "track" && e.toStd(nat) == std {
				want = nat
			}
			if e.Sub != "" {
				want = trimSub(want)
			}
			if g != want && !(g == "0" && want == "") {
				r.Fail(pre+"native-tag", "%s tag %s reads %q, %s is %q", e.Model, e.Tag, clip(g), e.Base, clip(std))
			}
		}
	}
	load := func() {
		s = dur.clone()
		s.d = loadBytes(r, durable, durJSON)
		for i := range syncRows {
			e := &syncRows[i]
			if !e.Stored {
				delete(s.nat, i)
			} else if std := s.std[e.Base]; std != "" && !e.Free && s.nat[i] != "" && e.toStd(s.nat[i]) != std {
				s.nat[i] = e.fromStd(std)
			}
		}
	}
	restart := func(pre string) {
		r.Logf("crash and restart")
		reinit()
		load()
		readBack(pre)
		// a model that reads the standard value holds it
		for i := range syncRows {
			e := &syncRows[i]
			if e.Stored && !e.Free && s.std[e.Base] != "" && (e.Form == "once" || s.nat[i] == "") && contains(mods, e.Model) && s.d.FindModel(mustNS(r, e.Model)) != nil {
				s.nat[i] = e.fromStd(s.std[e.Base])
			}
		}
	}
	check := func(l Leaves, pre string) {
		w := canonLeaves(other, loose)
		for _, k := range sortedKeys(w) {
			if x, ok := l[k]; (!ok || x != w[k]) && !altDefault(k, w) {
				r.Fail(pre+"lost", "%s = %q instead of %q", shortURI(k), clip(x), clip(w[k]))
			}
		}
		for _, b := range bases {
			ok := s.allowed(b)
			got := stdVal(l, b)
			if !ok[got] {
				var a []string
				for v := range ok {
					a = append(a, fmt.Sprintf("%q", clip(v)))
				}
				sort.Strings(a)
				r.Fail(pre+"standard-value", "%s is %q, expected %s", b, clip(got), strings.Join(a, " or "))
			}
			if got != s.std[b] {
				s.derived[b] = true
			}
			s.std[b] = got
		}
		for _, k := range sortedKeys(l) {
			if _, ok := w[k]; !ok && !rowKey[baseOf(k)] && !alwaysWritten(k, l[k]) && !altDefault(k, l) {
				if nsOf(k) != "" && skip[nsOf(k)] {
					continue
				}
				r.Fail(pre+"invented", "%s = %q, which nobody set", shortURI(k), clip(l[k]))
			}
		}
		s.alt = map[string]map[string]bool{}
		s.set = map[int]bool{}
	}
	saved := func() {
		if r.N(4) == 3 {
			j, err := json.Marshal(s.d)
			if err != nil {
				r.Fail("save-error", "json.Marshal: %v", err)
			}
			r.Logf("JSON save, %d bytes", len(j))
			durable, durJSON, loose = j, true, true
			d := &xmp.Document{}
			if err := json.Unmarshal(j, d); err != nil {
				r.Fail("load-error", "json.Unmarshal: %v", err)
			}
			x, err := xmp.Marshal(d)
			if err != nil {
				r.Fail("save-error", "Encode: %v", err)
			}
			q, err := refParse(x)
			if err != nil {
				r.Fail("unreadable", "saved data: %v", err)
			}
			check(canonLeaves(q, loose), "json-")
		} else {
			o := r.saveOpt()
			o.flags &^= xmp.Xpadding
			x, _, err := o.save(s.d, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode %+v: %v", *o, err)
			}
			r.Logf("XMP save %+v, %d bytes", *o, len(x))
			if r.tracing {
				r.Logf("saved %s", clip2(string(x), 3000))
			}
			q, err := refParse(x)
			if err != nil {
				r.Fail("unreadable", "saved data: %v", err)
			}
			durJSON = false
			check(canonLeaves(q, loose), "saved-")
			durable = x
		}
		dur = s.clone()
		if r.N(2) == 1 {
			r.Fault("crash.after-save")
			restart("restart-")
		}
	}
	n := 2 + r.Small(10)
	if r.thorough {
		n = 2 + r.Small(25)
	}
	for j := 0; j < n; j++ {
		switch k := r.N(12); {
		case k < 5: // native tag
			for c := 1 + r.N(3); c > 0; c-- {
				i := pick(r.Src, rows)
				e := &syncRows[i]
				if (e.Form == "once" || e.Form == "list" || e.Path != "") && (s.nat[i] != "" || s.std[e.Base] != "") {
					continue
				}
				if (e.Form == "once" || e.Form == "list" || e.Path != "") && get(e) != "" {
					continue
				}
				v := r.natValue(e)
				t := model(e.Model)
				set := func(tag, v string) {
					if err := t.SetTag(tag, v); err != nil {
						r.Fail("tag-refused", "%s: SetTag(%s, %q): %v", e.Model, tag, clip(v), err)
					}
				}
				if e.Path != "" {
					p := xmp.Path(e.Path)
					if e.Form == "alt" {
						p += "[x-default]"
					}
					if err := xmp.SetModelPath(t.(xmp.Model), p, v, xmp.CREATE|xmp.REPLACE); err != nil {
						r.Fail("tag-refused", "%s: SetModelPath(%s, %q): %v", e.Model, p, clip(v), err)
					}
				} else if e.Sub != "" {
					p := strings.Split(v+"|", "|")
					set(e.Sub, p[1])
					set(e.Tag, p[0])
				} else {
					set(e.Tag, v)
				}
				r.Logf("%s SetTag(%s, %q) for %s", e.Model, e.Tag, clip(v), e.Base)
				s.d.SetDirty()
				s.nat[i], s.set[i], s.live[i] = v, true, true
				if e.Form != "gps" {
					if g := get(e); g != v && g != trimSub(v) {
						r.Fail("native-tag", "%s: GetTag(%s) = %q after SetTag with %q", e.Model, e.Tag, clip(g), clip(v))
					}
				}
				r.nontrivial = true
				r.Count("sync.native", 1)
			}
		case k < 7: // standard property
			b := pick(r.Src, bases)
			if stdForm(b) != "text" {
				continue
			}
			t, v := r.stdText(b)
			txt := v.Text
			if s.std[b] != "" && r.N(4) == 3 {
				t, txt = "", ""
			}
			has := map[string]bool{}
			for _, m := range syncModels { // hold copies, too
				has[m] = s.d.FindModel(mustNS(r, m)) != nil
			}
			err := s.d.SetPath(xmp.PathValue{Path: xmp.Path(b), Value: txt})
			r.Logf("SetPath(%s, %q): %v", b, clip(txt), err)
			if err != nil {
				r.Fail("edit-refused", "SetPath(%s, %q): %v", b, clip(txt), err)
			}
			if s.alt[b] == nil {
				s.alt[b] = map[string]bool{}
			}
			held := false
			for i := range syncRows {
				e := &syncRows[i]
				if e.Base != b {
					continue
				}
				if txt == "" && !e.Stored {
					// the copy is removed, too
					delete(s.nat, i)
					delete(s.set, i)
					continue
				}
				if s.nat[i] != "" {
					s.alt[b][e.toStd(s.nat[i])] = true
				}
				if s.nat[i] != "" || has[e.Model] {
					held = true
				}
			}
			if txt == "" && !held {
				delete(s.alt, b)
			}
			if held {
				s.alt[b][s.std[b]] = true
				s.alt[b][t] = true
			}
			s.std[b] = t
			r.Count("sync.standard", 1)
		case k == 7:
			p := r.writePlan(2000)
			_, w, err := (&SaveOpt{}).save(s.d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			for _, b := range bases { // values are in step already
				for v := range s.allowed(b) {
					if v != s.std[b] {
						if s.alt[b] == nil {
							s.alt[b] = map[string]bool{}
						}
						s.alt[b][v] = true
						s.derived[b] = true
					}
				}
			}
		case k == 8:
			r.Fault("crash.unsaved")
			restart("restart-")
		default:
			saved()
		}
	}
	saved()
	reinit()
	load()
	readBack("restart-")
}

func trimSub(v string) string {
	if i := strings.IndexByte(v, '|'); i > 0 {
		return strings.TrimRight(strings.TrimRight(v, "0"), "|")
	}
	return v
}

func nsOf(k string) string {
	if i := strings.IndexByte(k, '}'); i > 0 {
		return k[1:i]
	}
	return ""
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// idSources are identifiers that SyncModels adds to xmp:Identifier.
var idSources = [][2]string{
	{"exif:ImageUniqueID", "uuid:exif:"}, {"iXML:fileUid", "uuid:ixml:"}, {"qt:mdta/ContentIdentifier", "uuid:cid:"},
	{"iTunes:StoreFrontID", "uuid:sfid:"}, {"qt:udta/GUID", "uuid:guid:"}, {"qt:udta/ISRCCode", "uuid:isrc:"},
	{"qt:udta/ContentID", "uuid:cid:"}, {"qt:proapps/ClipID", "uuid:clipid:"}, {"id3:podcastID", "uuid:podcast:"},
	{"id3:uniqueFileIdentifier", "uuid:id3:"},
}

// gatherIDs: each identifier of a format is listed once among the identifiers
// of the document, next to those that were there before.
func (r *R) gatherIDs() {
	src := map[int]string{}
	var ids []string
	var props []Prop
	id := func() string { return r.Unique("id") }
	if u := expandedBase["xmp"]; u != "" {
		props = append(props, Prop{NS: u, Name: "Nickname", V: Val{Kind: KText, Text: "nick"}})
	}
	at := map[string]int{}
	for i, e := range idSources {
		if r.N(3) == 2 {
			src[i] = id()
			f := strings.Split(strings.Replace(e[0], ":", "/", 1), "/")
			v := Val{Kind: KText, Text: src[i]}
			if len(f) == 3 {
				p := Prop{NS: expandedBase[f[0]], Name: f[2], V: v}
				if j, ok := at[f[1]]; ok {
					props[j].V.Fields = append(props[j].V.Fields, p)
					continue
				}
				v = Val{Kind: KStruct, Fields: []Prop{p}}
			}
			at[f[1]] = len(props)
			props = append(props, Prop{NS: expandedBase[f[0]], Name: f[1], V: v})
		}
	}
	if r.N(2) == 1 {
		v := Val{Kind: KBag}
		for i := 1 + r.N(3); i > 0; i-- {
			t := id()
			if j := r.N(len(idSources)); src[j] != "" && r.N(2) == 1 {
				t = idSources[j][1] + src[j]
				if r.N(3) == 2 {
					t = src[j]
				}
			}
			if !contains(ids, t) {
				ids = append(ids, t)
				v.Items = append(v.Items, Val{Kind: KText, Text: t})
			}
		}
		props = append(props, Prop{NS: expandedBase["xmp"], Name: "Identifier", V: v})
	}
	durable := writePacket(props, r.style(), true, false)
	r.Logf("identifiers, document: %s", describe(props))
	d := loadBytes(r, durable, false)
	durJSON := false
	copySrc := func(m map[int]string) map[int]string {
		c := map[int]string{}
		for k, v := range m {
			c[k] = v
		}
		return c
	}
	durSrc, durIDs := copySrc(src), ids
	check := func(d *xmp.Document, pre string) {
		b, err := xmp.Marshal(d)
		if err != nil {
			r.Fail("save-error", "Marshal: %v", err)
		}
		q, err := refParse(b)
		if err != nil {
			r.Fail("unreadable", "saved data: %v", err)
		}
		l := canonLeaves(q, true)
		var got []string
		for i := 0; ; i++ {
			x, ok := l[fmt.Sprintf("%s[Seq %d]", syncKey("xmp:Identifier"), i)]
			if !ok {
				break
			}
			got = append(got, x)
		}
		if strings.Join(got, "\n") != strings.Join(ids, "\n") {
			r.Fail(pre+"identifiers", "identifiers are %q, expected %q", got, ids)
		}
		for i, e := range idSources {
			x := strings.Split(strings.Replace(e[0], ":", "/", 1), "/")
			k := syncKey(x[0] + ":" + x[1])
			if len(x) == 3 {
				k += "/" + syncKey(x[0]+":"+x[2])
			}
			if l[k] != src[i] {
				r.Fail(pre+"identifier-source", "%s = %q instead of %q", e[0], l[k], src[i])
			}
		}
	}
	check(d, "loaded-")
	gather := func(want []string) { // keeps the order of those before
		var extra []string
		for i, e := range idSources {
			if v := src[i]; v != "" && !contains(want, e[1]+v) && !contains(extra, e[1]+v) {
				extra = append(extra, e[1]+v)
			}
		}
		ids = append(append([]string{}, want...), extra...)
	}
	for n := 2 + r.Small(8); n > 0; n-- {
		switch k := r.N(8); {
		case k < 3:
			if err := d.SyncModels(); err != nil {
				r.Fail("sync-error", "SyncModels: %v", err)
			}
			gather(ids)
			r.Logf("SyncModels: %d identifiers", len(ids))
			check(d, "gathered-")
			r.nontrivial = r.nontrivial || len(ids) > 0
			r.Count("sync.identifiers", 1)
		case k < 5:
			i := r.N(len(idSources))
			v := id()
			if r.N(4) == 3 {
				v = ""
			} else if len(ids) > 0 && r.N(6) == 5 {
				v = pick(r.Src, ids)
			}
			err := d.SetPath(xmp.PathValue{Path: xmp.Path(idSources[i][0]), Value: v})
			r.Logf("SetPath(%s, %q): %v", idSources[i][0], v, err)
			if err != nil {
				r.Fail("edit-refused", "SetPath(%s, %q): %v", idSources[i][0], v, err)
			}
			src[i] = v
			check(d, "edited-")
		case k == 5:
			p := r.writePlan(1500)
			_, w, err := (&SaveOpt{}).save(d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
		case k == 6:
			r.Fault("crash.unsaved")
			r.Logf("crash and restart")
			reinit()
			d = loadBytes(r, durable, durJSON)
			src, ids = copySrc(durSrc), durIDs
			check(d, "restart-")
		default:
			var err error
			if durJSON = r.N(3) == 2; durJSON {
				durable, err = json.Marshal(d)
			} else {
				o := r.saveOpt()
				o.flags &^= xmp.Xpadding
				durable, _, err = o.save(d, &WritePlan{})
			}
			if err != nil {
				r.Fail("save-error", "save: %v", err)
			}
			r.Logf("save, JSON %v", durJSON)
			durSrc, durIDs = copySrc(src), ids
			r.Fault("crash.after-save")
			reinit()
			d = loadBytes(r, durable, durJSON)
			check(d, "restart-")
		}
	}
}

// derivedGroups: values that follow from several native ones, the start time
// code from the iXML speed group and the location from QuickTime tags.
func (r *R) derivedGroups() {
	type state struct {
		speed map[string]string // by field
		loc   map[string]string // by field, nil before it was made
		tag   map[string]string
		std   map[string]string // derived from speed before it was removed
		id3   map[string]string // day, time and year by tag
		gps   [4]string         // date, hours, minutes, seconds
		at    map[string]string // dates derived from them
	}
	cp := func(m map[string]string) map[string]string {
		if m == nil {
			return nil
		}
		c := map[string]string{}
		for k, v := range m {
			c[k] = v
		}
		return c
	}
	ixml, dm, qt := expandedBase["iXML"], expandedBase["xmpDM"], expandedBase["qt"]
	st := &state{speed: map[string]string{}, tag: map[string]string{}, std: map[string]string{}, id3: map[string]string{}, at: map[string]string{}}
	rates := []string{"24/1", "25/1", "30/1", "50/1", "24000/1001", "30000/1001", "60000/1001"}
	formats := map[string]string{"24/1": "24Timecode", "25/1": "25Timecode", "30/1": "30Timecode", "50/1": "50Timecode",
		"24000/1001": "23976Timecode", "30000/1001": "2997NonDropTimecode", "60000/1001": "5994NonDropTimecode",
		"30000/1001DF": "2997DropTimecode", "60000/1001DF": "5994DropTimecode"}
	fps := map[string]int{"24/1": 24, "25/1": 25, "30/1": 30, "50/1": 50, "24000/1001": 24, "30000/1001": 30, "60000/1001": 60}
	field := func(k string) string {
		switch k {
		case "timecodeRate":
			return pick(r.Src, rates)
		case "timecodeFlag":
			return pick(r.Src, []string{"DF", "NDF"})
		case "fileSampleRate":
			return pick(r.Src, []string{"48000/1", "44100/1", "96000/1"})
		case "timestampSampleRate":
			return pick(r.Src, []string{"48000", "44100", "96000"})
		case "timestampSamplesSinceMidnightLO":
			return fmt.Sprint(1 + r.N(4000000000)/2)
		}
		return "1"
	}
	speedFields := []string{"timecodeRate", "timecodeFlag", "timestampSampleRate", "timestampSamplesSinceMidnightLO", "fileSampleRate"}
	var props []Prop
	props = append(props, Prop{NS: dm, Name: "artist", V: Val{Kind: KText, Text: r.natValue(&syncRow{})}})
	artist := props[0].V.Text
	if r.N(3) > 0 {
		v := Val{Kind: KStruct}
		for i, k := range speedFields {
			if i == 4 && r.N(2) == 0 {
				break
			}
			st.speed[k] = field(k)
			v.Fields = append(v.Fields, Prop{NS: ixml, Name: k, V: Val{Kind: KText, Text: st.speed[k]}})
		}
		props = append(props, Prop{NS: ixml, Name: "speed", V: v})
	}
	durable, durJSON := writePacket(props, r.style(), true, false), false
	r.Logf("groups, document: %s", describe(props))
	d := loadBytes(r, durable, false)
	dur := &state{speed: cp(st.speed), tag: map[string]string{}, std: map[string]string{}}
	created, stamp := "{"+expandedBase["xmp"]+"}CreateDate", "{"+expandedBase["exif"]+"}GPSTimeStamp"
	derive := func() {
		if s := st.speed; s["timecodeRate"] != "" {
			rate := mustInt(s["timestampSampleRate"])
			n := mustInt(s["timestampSamplesSinceMidnightLO"])
			sec, f := n/rate, n%rate*int64(fps[s["timecodeRate"]])/rate
			sep, flag := ":", ""
			if s["timecodeFlag"] == "DF" {
				sep, flag = ";", "DF"
			}
			st.std["timeValue"] = fmt.Sprintf("%02d%s%02d%s%02d%s%02d", sec/3600, sep, sec/60%60, sep, sec%60, sep, f)
			if flag != "" && formats[s["timecodeRate"]+flag] == "" {
				flag = ""
			}
			st.std["timeFormat"] = formats[s["timecodeRate"]+flag]
		}
		if s := st.speed["fileSampleRate"]; s != "" {
			st.std["audioSampleRate"] = s[:len(s)-2]
		}
		if t := st.id3; len(t) > 0 {
			st.at[created] = fmt.Sprintf("%s-%s-%sT%s:%s:00Z", t["TYER"], t["TDAT"][2:], t["TDAT"][:2], t["TIME"][:2], t["TIME"][2:])
		}
		if g := st.gps; g[0] != "" {
			st.at[stamp] = fmt.Sprintf("%sT%s:%s:%sZ", strings.ReplaceAll(g[0], ":", "-"), g[1], g[2], g[3])
		}
		if st.loc == nil && len(st.tag) > 0 {
			st.loc = map[string]string{}
			for k, v := range st.tag {
				if k != "iso6709" {
					st.loc[strings.ToUpper(k[:1])+k[1:]] = v
					continue
				}
				v = strings.TrimSuffix(v, "/")
				i := 1 + strings.IndexAny(v[1:], "+-")
				j := i + 1 + strings.IndexAny(v[i+1:], "+-")
				st.loc["Latitude"] = v[:i]
				if j > i {
					st.loc["Longitude"], st.loc["Altitude"] = v[i:j], strings.TrimPrefix(v[j:], "+")
				} else {
					st.loc["Longitude"] = v[i:]
				}
			}
		}
	}
	model := func() tagger {
		ns := mustNS(r, "qt")
		x := d.FindModel(ns)
		if x == nil {
			var err error
			if x, err = d.MakeModel(ns); err != nil {
				r.Fail("model-refused", "MakeModel(qt): %v", err)
			}
		}
		return x.(tagger)
	}
	check := func(l Leaves, pre string) {
		want := map[string]string{"{" + dm + "}artist": artist}
		for k, v := range st.std {
			if k == "audioSampleRate" {
				want["{"+dm+"}"+k] = v
			} else {
				want["{"+dm+"}startTimecode/{"+dm+"}"+k] = v
			}
		}
		for k, v := range st.at {
			want[k] = v
		}
		for k, v := range st.loc {
			want["{"+qt+"}mdta/{"+qt+"}Location/{"+qt+"}"+k] = v
		}
		for k, v := range st.speed {
			want["{"+ixml+"}speed/{"+ixml+"}"+k] = v
		}
		for _, k := range sortedKeys(want) {
			if l[k] != want[k] {
				r.Fail(pre+"group-value", "%s = %q, expected %q", shortURI(k), clip(l[k]), clip(want[k]))
			}
		}
		for _, k := range sortedKeys(l) {
			if want[k] == "" && (strings.Contains(k, "}startTimecode") || strings.Contains(k, "}Location") || k == created || k == stamp || strings.Contains(k, "}audioSampleRate")) {
				r.Fail(pre+"group-invented", "%s = %q, which nobody set", shortURI(k), clip(l[k]))
			}
		}
	}
	restart := func() {
		r.Logf("crash and restart")
		reinit()
		st = &state{speed: cp(dur.speed), loc: cp(dur.loc), tag: map[string]string{}, std: cp(dur.std), id3: map[string]string{}, at: cp(dur.at)}
		if st.at == nil {
			st.at = map[string]string{}
		}
		d = loadBytes(r, durable, durJSON)
		if st.loc == nil {
			return
		}
		iso := ""
		if st.loc["Latitude"] != "" {
			iso = st.loc["Latitude"] + st.loc["Longitude"]
			if a := st.loc["Altitude"]; a != "" {
				if a[0] != '-' {
					iso += "+"
				}
				iso += a
			}
			iso += "/"
		}
		for k, v := range map[string]string{"body": st.loc["Body"], "date": st.loc["Date"], "name": st.loc["Name"], "note": st.loc["Note"], "iso6709": iso} {
			g, err := model().GetTag("com.apple.quicktime.location." + k)
			if err != nil || g != v {
				r.Fail("restart-group-tag", "location.%s reads %q, %v instead of %q", k, clip(g), err, clip(v))
			}
		}
	}
	edit := false
	for n := 3 + r.Small(9); n > 0; n-- {
		switch k := r.N(11); {
		case k == 8 && (len(st.id3) > 0 || st.at[created] == ""):
			x, err := d.MakeModel(mustNS(r, "id3"))
			if err != nil {
				r.Fail("model-refused", "MakeModel(id3): %v", err)
			}
			some := len(st.id3) > 0
			for _, t := range []string{"TDAT", "TIME", "TYER"} {
				if some && r.N(2) == 1 {
					continue
				}
				v := fmt.Sprint(1900 + r.N(200))
				switch t {
				case "TDAT":
					v = fmt.Sprintf("%02d%02d", 1+r.N(28), 1+r.N(12))
				case "TIME":
					v = fmt.Sprintf("%02d%02d", r.N(24), r.N(60))
				}
				err := x.(tagger).SetTag(t, v)
				r.Logf("SetTag(%s, %s): %v", t, v, err)
				if err != nil {
					r.Fail("tag-refused", "SetTag(%s, %q): %v", t, v, err)
				}
				st.id3[t] = v
			}
			d.SetDirty()
			edit, r.nontrivial = true, true
		case k == 9:
			x, err := exif.MakeModel(d)
			if err != nil {
				r.Fail("model-refused", "MakeModel(exif): %v", err)
			}
			if st.gps[0] == "" || r.N(2) == 1 {
				v := fmt.Sprintf("%d:%02d:%02d", 1900+r.N(200), 1+r.N(12), 1+r.N(28))
				err := x.SetTag("0x001d", v)
				r.Logf("SetTag(0x001d, %s): %v", v, err)
				if err != nil {
					r.Fail("tag-refused", "SetTag(0x001d, %q): %v", v, err)
				}
				st.gps[0] = v
				for i := 1; i < 4; i++ {
					if st.gps[i] == "" {
						st.gps[i] = "00"
					}
				}
			}
			if r.N(2) == 1 {
				m := int64(1 + r.N(20))
				h, mi, sec := r.N(24), r.N(60), r.N(60)
				x.GPSTimeStamp = xmp.RationalArray{{Num: int64(h) * m, Den: m}, {Num: int64(mi), Den: 1}, {Num: int64(sec) * m, Den: m}}
				st.gps[1], st.gps[2], st.gps[3] = fmt.Sprintf("%02d", h), fmt.Sprintf("%02d", mi), fmt.Sprintf("%02d", sec)
				r.Logf("GPSTimeStamp = %v", x.GPSTimeStamp)
			}
			d.SetDirty()
			edit, r.nontrivial = true, true
		case k < 2 && len(st.speed) > 0:
			f := pick(r.Src, speedFields)
			v := field(f)
			err := d.SetPath(xmp.PathValue{Path: xmp.Path("iXML:speed/" + f), Value: v})
			r.Logf("SetPath(iXML:speed/%s, %s): %v", f, v, err)
			if err != nil {
				r.Fail("edit-refused", "SetPath(iXML:speed/%s, %q): %v", f, v, err)
			}
			edit = edit || st.speed[f] != v
			st.speed[f] = v
		case k < 4 && st.loc == nil:
			f := pick(r.Src, []string{"body", "date", "iso6709", "name", "note", "role"})
			v := ""
			switch f {
			case "date":
				v = pick(r.Src, isoDates)
			case "role":
				v = pick(r.Src, []string{"1", "2"})
			case "iso6709":
				v = pick(r.Src, []string{"+43.5968+005.4797+362.9/", "-12.5+130.25/", "+40.75-074-3.5/", "-00.5-179.75/"})
			default:
				v = r.natValue(&syncRow{})
			}
			t := "com.apple.quicktime.location." + f
			err := model().SetTag(t, v)
			r.Logf("SetTag(%s, %s): %v", t, v, err)
			if err != nil {
				r.Fail("tag-refused", "SetTag(%s, %q): %v", t, v, err)
			}
			d.SetDirty()
			st.tag[f], edit = v, true
			r.nontrivial = true
		case k < 4 && st.loc != nil:
			f := pick(r.Src, []string{"Body", "Name", "Note", "Longitude", "Latitude"})
			if st.loc[f] == "" {
				continue
			}
			v := r.natValue(&syncRow{})
			if f[0] == 'L' {
				v = pick(r.Src, []string{"+01.5", "-77.25"})
			}
			p := xmp.Path("qt:mdta/Location/" + f)
			err := d.SetPath(xmp.PathValue{Path: p, Value: v})
			r.Logf("SetPath(%s, %s): %v", p, v, err)
			if err != nil {
				r.Fail("edit-refused", "SetPath(%s, %q): %v", p, v, err)
			}
			edit = edit || st.loc[f] != v
			st.loc[f] = v
		case k == 4:
			p := r.writePlan(1500)
			_, w, err := (&SaveOpt{}).save(d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			if edit {
				derive()
			}
		case k == 5:
			r.Fault("crash.unsaved")
			restart()
			edit = false
		default:
			if edit {
				derive()
			}
			r.nontrivial = r.nontrivial || edit
			var err error
			if durJSON = r.N(4) == 3; durJSON {
				durable, err = json.Marshal(d)
			} else {
				o := r.saveOpt()
				o.flags &^= xmp.Xpadding
				durable, _, err = o.save(d, &WritePlan{})
			}
			if err != nil {
				r.Fail("save-error", "save: %v", err)
			}
			r.Logf("save, JSON %v, %d bytes", durJSON, len(durable))
			dur = &state{speed: cp(st.speed), loc: cp(st.loc), std: cp(st.std), at: cp(st.at)}
			x := durable
			if durJSON {
				if x, err = xmp.Marshal(loadBytes(r, durable, true)); err != nil {
					r.Fail("save-error", "Marshal: %v", err)
				}
			}
			q, err := refParse(x)
			if err != nil {
				r.Fail("unreadable", "saved data: %v", err)
			}
			check(canonLeaves(q, durJSON), "saved-")
			r.Count("sync.groups", 1)
			if r.N(2) == 1 {
				r.Fault("crash.after-save")
				restart()
				edit = false
			}
		}
	}
}

func mustInt(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}
