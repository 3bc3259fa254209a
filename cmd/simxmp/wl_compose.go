package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// composedTag: native tags whose text stands for several values or has a form
// of its own.
type composedTag struct {
	model, tag, key string
	gen             func(r *R) (string, Val)
	bad             []string // texts that are refused
	struc           bool     // has no text form to read
}

func textVal(s string) Val { return Val{Kind: KText, Text: s} }

const (
	exifURI   = "http://ns.adobe.com/exif/1.0/"
	itunesURI = "http://ns.apple.com/itunes/1.0/"
	qtURI     = "http://ns.apple.com/quicktime/1.0/"
)

// genOECF: columns, rows, names of the columns and values.
func genOECF(r *R) (string, Val) {
	c, rows := 1+r.N(3), 1+r.N(2)
	t := []string{strconv.Itoa(c), strconv.Itoa(rows)}
	n, v := Val{Kind: KBag}, Val{Kind: KSeq}
	for i := 0; i < c; i++ {
		s := pick(r.Src, []string{"red", "blue", "green", "c1", "Y"})
		t = append(t, s)
		n.Items = append(n.Items, textVal(s))
	}
	for i := 0; i < c*rows; i++ {
		s := fmt.Sprintf("%d/%d", 1+r.N(9), 1+r.N(9))
		t = append(t, s)
		v.Items = append(v.Items, textVal(s))
	}
	return strings.Join(t, " "), Val{Kind: KStruct, Fields: []Prop{
		{NS: exifURI, Name: "Columns", V: textVal(t[0])}, {NS: exifURI, Name: "Rows", V: textVal(t[1])},
		{NS: exifURI, Name: "Names", V: n}, {NS: exifURI, Name: "Values", V: v}}}
}

func boolText(b bool) string {
	if b {
		return "True"
	}
	return "False"
}

func genPoint(r *R) (string, Val) {
	x, y := 1+r.N(4000), r.N(3000)
	return fmt.Sprintf("%d%s%d", x, pick(r.Src, []string{",", "/", ":", " ", ";"}), y), textVal(fmt.Sprintf("%d,%d", x, y))
}

func genRating(r *R) (string, Val) {
	s := pick(r.Src, []string{"mpaa|PG-13|300|violence", "us-tv|TV-14|500|", "mpaa|R|400|because", "de-movie|ab 12 Jahren|75|x"})
	v := textVal("(" + s + ")")
	switch r.N(3) {
	case 1:
		s = "(" + s + ")"
	case 2:
		s = " " + s + " "
	}
	return s, v
}

var composedTags = []composedTag{
	{"exif", "0x8828", "{" + exifURI + "}OECF", genOECF, []string{"2 x", "x", "1 1 red x", "1 1 red 1/"}, true},
	{"exif", "0xa20c", "{" + exifURI + "}SpatialFrequencyResponse", genOECF, []string{"2 x", "x", "2 1 red blue x"}, true},
	{"exif", "0xa302", "{" + exifURI + "}CFAPattern", func(r *R) (string, Val) {
		c, rows := 1+r.N(3), 1+r.N(3)
		l := make([]string, c*rows)
		for i := range l {
			l[i] = strconv.Itoa(r.N(256))
		}
		return fmt.Sprintf("%d %d %s", c, rows, strings.Join(l, " ")), Val{Kind: KStruct, Fields: []Prop{
			{NS: exifURI, Name: "Columns", V: textVal(strconv.Itoa(c))}, {NS: exifURI, Name: "Rows", V: textVal(strconv.Itoa(rows))},
			{NS: exifURI, Name: "Values", V: textVal(strings.Join(l, " "))}}}
	}, []string{"x", "2 x", "1 1 x", "1 1 256"}, true},
	{"exif", "0xa40b", "{" + exifURI + "}DeviceSettingDescription", func(r *R) (string, Val) {
		c, rows := 1+r.N(2), 1+r.N(2)
		v := Val{Kind: KBag}
		t := fmt.Sprintf("%d %d", c, rows)
		for i := 0; i < c*rows; i++ {
			s := pick(r.Src, []string{"auto", "f2.8", "iso", "x"})
			v.Items = append(v.Items, textVal(s))
			t += " " + s
		}
		return t, Val{Kind: KStruct, Fields: []Prop{
			{NS: exifURI, Name: "Columns", V: textVal(strconv.Itoa(c))}, {NS: exifURI, Name: "Rows", V: textVal(strconv.Itoa(rows))},
			{NS: exifURI, Name: "Values", V: v}}}
	}, []string{"x", "2 x"}, true},
	{"exif", "0x9209", "{" + exifURI + "}Flash", func(r *R) (string, Val) {
		v := 1 + r.N(127)
		return strconv.Itoa(v), Val{Kind: KStruct, Fields: []Prop{
			{NS: exifURI, Name: "Fired", V: textVal(boolText(v&1 > 0))}, {NS: exifURI, Name: "Function", V: textVal(boolText(v&32 > 0))},
			{NS: exifURI, Name: "Mode", V: textVal(strconv.Itoa(v >> 3 & 3))}, {NS: exifURI, Name: "RedEyeMode", V: textVal(boolText(v&64 > 0))},
			{NS: exifURI, Name: "Return", V: textVal(strconv.Itoa(v >> 1 & 3))}}}
	}, []string{"x", "0x01", "1.5"}, true},
	{"iTunes", "iTunSMPB", "{" + itunesURI + "}SMPB", func(r *R) (string, Val) {
		n := [4]int{1 + r.N(5000), 1 + r.N(5000), 1 + r.N(90000000), 1 + r.N(90000000)}
		return fmt.Sprintf("%s00000000 %08X %08X %016X 00000000 %08X 00000000 00000000", pick(r.Src, []string{"", " "}), n[0], n[1], n[2], n[3]),
			Val{Kind: KStruct, Fields: []Prop{
				{NS: itunesURI, Name: "EncoderDelay", V: textVal(strconv.Itoa(n[0]))}, {NS: itunesURI, Name: "EndPadding", V: textVal(strconv.Itoa(n[1]))},
				{NS: itunesURI, Name: "OriginalSampleCount", V: textVal(strconv.Itoa(n[2]))}, {NS: itunesURI, Name: "EndOffset", V: textVal(strconv.Itoa(n[3]))}}}
	}, []string{"0 x", "0 1 2 3 4 z"}, true},
	{"iTunes", "iTunEXTC", "{" + itunesURI + "}ContentRating", genRating, nil, false},
	{"qt", "WLOC", "{" + qtURI + "}udta/{" + qtURI + "}WindowLocation", genPoint, []string{"x", "1", "1,x"}, false},
	{"qt", "com.apple.quicktime.windowlocation", "{" + qtURI + "}mdta/{" + qtURI + "}WindowLocation", genPoint, []string{"x", "1", "1,x"}, false},
}

// setComposed sets one of them.
func (r *R) setComposed(d *xmp.Document, props *[]Prop, mn string, t tagger) bool {
	var l []*composedTag
	for i := range composedTags {
		if composedTags[i].model == mn {
			l = append(l, &composedTags[i])
		}
	}
	if len(l) == 0 {
		return false
	}
	e := pick(r.Src, l)
	if !t.CanTag(e.tag) {
		r.Fail("cantag", "%s: CanTag(%s) is false", mn, e.tag)
	}
	v, x := e.gen(r)
	same := cloneProps(*props)
	var want []outcome
	if len(e.bad) > 0 && r.N(4) == 3 {
		v = pick(r.Src, e.bad)
		want = []outcome{{same, true}}
	} else {
		putKey(props, e.key, x)
		want = []outcome{{cloneProps(*props), false}}
		*props = cloneProps(same)
	}
	err := t.SetTag(e.tag, v)
	d.SetDirty()
	r.Logf("%s SetTag(%s, %q) composed: %v", mn, e.tag, v, err)
	if !e.struc && err == nil {
		if g, gerr := t.GetTag(e.tag); g != x.Text || gerr != nil {
			r.Fail("tag-read", "%s: SetTag(%s, %q), then GetTag = %q, %v, expected %q", mn, e.tag, v, clip(g), gerr, x.Text)
		}
	}
	r.judge(d, props, want, err, mn+" SetTag("+e.tag+", "+v+")")
	r.nontrivial = true
	r.Count("tags.composed", 1)
	return true
}
