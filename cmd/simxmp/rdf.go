package main

// Independent reference implementation of the RDF/XML subset XMP uses. It
// shares no code with the library under test (both stand on encoding/xml's
// tokenizer) and is the oracle for "what properties are in this packet".

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"
)

const (
	uriRDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	uriXML = "http://www.w3.org/XML/1998/namespace"
	uriX   = "adobe:ns:meta/"
)

// Kinds of values.
const (
	KText   = "t"
	KStruct = "s"
	KSeq    = "Seq"
	KBag    = "Bag"
	KAlt    = "Alt"
)

// Val is an XMP value.
type Val struct {
	Kind   string   `json:"k"`
	Text   string   `json:"t,omitempty"`
	Lang   string   `json:"l,omitempty"` // xml:lang qualifier
	Fields []Prop   `json:"f,omitempty"`
	Items  []Val    `json:"i,omitempty"`
	Free   bool     `json:"-"` // any text is a valid value
	Alts   []string `json:"-"` // other valid values
}

// Prop is a named property.
type Prop struct {
	NS   string `json:"ns"`
	Name string `json:"n"`
	V    Val    `json:"v"`
}

func (v Val) clone() Val {
	c := v
	c.Fields = append([]Prop(nil), v.Fields...)
	for i := range c.Fields {
		c.Fields[i].V = c.Fields[i].V.clone()
	}
	c.Items = append([]Val(nil), v.Items...)
	for i := range c.Items {
		c.Items[i] = c.Items[i].clone()
	}
	return c
}

// eachText visits all text leaves.
func (v *Val) eachText(f func(*Val)) {
	if v.Kind == KText {
		f(v)
	}
	for i := range v.Fields {
		v.Fields[i].V.eachText(f)
	}
	for i := range v.Items {
		v.Items[i].eachText(f)
	}
}

func (v Val) size() int {
	n := 1
	for _, f := range v.Fields {
		n += f.V.size()
	}
	for _, it := range v.Items {
		n += it.size()
	}
	return n
}

func (v Val) isArray() bool { return v.Kind == KSeq || v.Kind == KBag || v.Kind == KAlt }

// Leaves is the canonical content: fully expanded path -> value.
type Leaves map[string]string

func (l Leaves) add(k, v string, dups *[]string) {
	if o, ok := l[k]; ok && o != v {
		if dups != nil {
			*dups = append(*dups, k)
		}
		k += "#dup"
		for {
			if _, ok := l[k]; !ok {
				break
			}
			k += "+"
		}
	}
	l[k] = v
}

// flatten adds the leaves of a value below path.
func (v Val) flatten(path string, l Leaves, dups *[]string) {
	switch v.Kind {
	case KText:
		if v.Text != "" {
			l.add(path, v.Text, dups)
		}
	case KStruct:
		for _, f := range v.Fields {
			f.V.flatten(path+"/{"+f.NS+"}"+f.Name, l, dups)
		}
	default:
		for i, it := range v.Items {
			p := fmt.Sprintf("%s[%s%d]", path, v.Kind, i)
			if it.Lang != "" {
				p += "@" + it.Lang
			}
			it.flatten(p, l, dups)
		}
	}
}

func leavesOf(props []Prop) (Leaves, []string) {
	l := Leaves{}
	var dups []string
	for _, p := range props {
		p.V.flatten("{"+p.NS+"}"+p.Name, l, &dups)
	}
	return l, dups
}

// diffLeaves describes the first differences; "" when equal.
func diffLeaves(want, got Leaves) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var out []string
	for _, k := range keys {
		w, okw := want[k]
		g, okg := got[k]
		switch {
		case okw && !okg:
			out = append(out, fmt.Sprintf("lost %s=%q", k, clip(w)))
		case !okw && okg:
			out = append(out, fmt.Sprintf("invented %s=%q", k, clip(g)))
		case w != g:
			out = append(out, fmt.Sprintf("changed %s: %q became %q", k, clip(w), clip(g)))
		}
		if len(out) >= 4 {
			out = append(out, "...")
			break
		}
	}
	return strings.Join(out, "; ")
}

// diffClass gives a coarse class of the first difference.
func diffClass(want, got Leaves) string {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return "lost"
		}
		if g != want[k] {
			return "changed"
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return "invented"
		}
	}
	return ""
}

func sortedKeys(l Leaves) []string {
	keys := make([]string, 0, len(l))
	for k := range l {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:77] + "..."
	}
	return s
}

// ---- parsing ---------------------------------------------------------------

type elem struct {
	name xml.Name
	attr []xml.Attr
	kids []*elem
	text string
}

func parseXML(b []byte) (*elem, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var stack []*elem
	var root *elem
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			e := &elem{name: t.Name, attr: append([]xml.Attr(nil), t.Attr...)}
			seen := map[xml.Name]bool{}
			for _, a := range t.Attr {
				if seen[a.Name] {
					return nil, fmt.Errorf("duplicate attribute %s:%s on element %s", a.Name.Space, a.Name.Local, t.Name.Local)
				}
				seen[a.Name] = true
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, e)
			} else if root == nil {
				root = e
			} else {
				return nil, fmt.Errorf("second root element %s", t.Name.Local)
			}
			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(t)
			}
		}
	}
	if root == nil || len(stack) > 0 {
		return nil, io.ErrUnexpectedEOF
	}
	return root, nil
}

func isXMLNS(a xml.Attr) bool {
	return a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns"
}

// refParse reads a packet (with or without wrappers) into its properties.
func refParse(b []byte) ([]Prop, error) {
	root, err := parseXML(b)
	if err != nil {
		return nil, err
	}
	if root.name.Space == uriX {
		if len(root.kids) != 1 {
			return nil, fmt.Errorf("x:xmpmeta has %d children", len(root.kids))
		}
		root = root.kids[0]
	}
	if root.name.Space != uriRDF || root.name.Local != "RDF" {
		return nil, fmt.Errorf("root is {%s}%s, not rdf:RDF", root.name.Space, root.name.Local)
	}
	var props []Prop
	for _, d := range root.kids {
		if d.name.Space != uriRDF || d.name.Local != "Description" {
			return nil, fmt.Errorf("unexpected {%s}%s below rdf:RDF", d.name.Space, d.name.Local)
		}
		p, err := refProps(d)
		if err != nil {
			return nil, err
		}
		props = append(props, p...)
	}
	return props, nil
}

// refAbout lists the distinct rdf:about values of a packet.
func refAbout(b []byte) []string {
	root, err := parseXML(b)
	if err != nil {
		return nil
	}
	if root.name.Space == uriX && len(root.kids) == 1 {
		root = root.kids[0]
	}
	var l []string
	for _, d := range root.kids {
		for _, a := range d.attr {
			if a.Name.Space == uriRDF && a.Name.Local == "about" && (len(l) == 0 || l[0] != a.Value) {
				l = append(l, a.Value)
			}
		}
	}
	return l
}

func refProps(d *elem) ([]Prop, error) {
	var props []Prop
	for _, a := range d.attr {
		if isXMLNS(a) || a.Name.Space == uriRDF || a.Name.Space == uriXML {
			continue
		}
		if a.Name.Space == "" {
			return nil, fmt.Errorf("attribute %q without namespace on %s", a.Name.Local, d.name.Local)
		}
		props = append(props, Prop{a.Name.Space, a.Name.Local, Val{Kind: KText, Text: strings.TrimSpace(a.Value)}})
	}
	for _, k := range d.kids {
		if k.name.Space == "" {
			return nil, fmt.Errorf("element %q without namespace", k.name.Local)
		}
		if k.name.Space == uriRDF && k.name.Local == "type" {
			continue
		}
		v, err := refVal(k)
		if err != nil {
			return nil, err
		}
		props = append(props, Prop{k.name.Space, k.name.Local, v})
	}
	return props, nil
}

func refVal(e *elem) (Val, error) {
	v := Val{Kind: KText}
	for _, a := range e.attr {
		if a.Name.Space == uriXML && a.Name.Local == "lang" {
			v.Lang = a.Value
		}
	}
	// resource reference
	var fields []Prop
	for _, a := range e.attr {
		if a.Name.Space == uriRDF && a.Name.Local == "resource" {
			v.Text = a.Value
			return v, nil
		}
		if isXMLNS(a) || a.Name.Space == uriRDF || a.Name.Space == uriXML {
			continue
		}
		if a.Name.Space == "" {
			return v, fmt.Errorf("attribute %q without namespace on %s", a.Name.Local, e.name.Local)
		}
		fields = append(fields, Prop{a.Name.Space, a.Name.Local, Val{Kind: KText, Text: strings.TrimSpace(a.Value)}})
	}
	if len(e.kids) == 1 && e.kids[0].name.Space == uriRDF {
		k := e.kids[0]
		switch k.name.Local {
		case "Seq", "Bag", "Alt":
			v.Kind = k.name.Local
			for _, li := range k.kids {
				if li.name.Space != uriRDF || li.name.Local != "li" {
					return v, fmt.Errorf("unexpected %s in rdf:%s", li.name.Local, k.name.Local)
				}
				it, err := refVal(li)
				if err != nil {
					return v, err
				}
				v.Items = append(v.Items, it)
			}
			return v, nil
		case "Description":
			p, err := refProps(k)
			if err != nil {
				return v, err
			}
			for _, a := range k.attr {
				if a.Name.Space == uriXML && a.Name.Local == "lang" {
					v.Lang = a.Value
				}
			}
			// rdf:value with qualifiers
			v.Kind = KStruct
			v.Fields = append(fields, p...)
			return v, nil
		}
	}
	if len(e.kids) > 0 || len(fields) > 0 {
		p := fields
		for _, k := range e.kids {
			if k.name.Space == uriRDF && k.name.Local == "Description" {
				q, err := refProps(k)
				if err != nil {
					return v, err
				}
				p = append(p, q...)
				continue
			}
			if k.name.Space == "" {
				return v, fmt.Errorf("element %q without namespace", k.name.Local)
			}
			w, err := refVal(k)
			if err != nil {
				return v, err
			}
			p = append(p, Prop{k.name.Space, k.name.Local, w})
		}
		v.Kind = KStruct
		v.Fields = p
		if t := strings.TrimSpace(e.text); t != "" {
			v.Fields = append(v.Fields, Prop{uriRDF, "value", Val{Kind: KText, Text: t}})
		}
		return v, nil
	}
	v.Text = strings.TrimSpace(e.text)
	return v, nil
}

// ---- writing ---------------------------------------------------------------

// Style selects among equivalent serialisations. Pick(n) returns a choice in
// [0,n); 0 is the plainest form.
type Style struct {
	Pick   func(n int) int
	Prefix func(uri string) string
	Indent bool
	Fancy  bool // comments, CDATA, character references, quotes, declarations elsewhere
	About  string
	rdf    string
	decl   int // where namespaces are declared
}

func xmlEsc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// attr writes an attribute.
func (st *Style) attr(b *bytes.Buffer, name, val string) {
	q := "\""
	if st.Fancy && st.Pick(4) == 3 {
		q = "'"
	}
	sp := " "
	if st.Fancy && st.Pick(12) == 11 {
		sp = "\n\t"
	}
	fmt.Fprintf(b, "%s%s=%s%s%s", sp, name, q, st.chars(val, true), q)
}

// chars writes character data.
func (st *Style) chars(s string, attr bool) string {
	if !st.Fancy || st.Pick(3) != 2 {
		return xmlEsc(s)
	}
	rs := []rune(s)
	var b strings.Builder
	for i := 0; i < len(rs); {
		k := 1 + st.Pick(6)
		if k > len(rs)-i {
			k = len(rs) - i
		}
		part := string(rs[i : i+k])
		i += k
		switch st.Pick(5) {
		case 0:
			for _, c := range part {
				if st.Pick(2) == 0 {
					fmt.Fprintf(&b, "&#x%X;", c)
				} else {
					fmt.Fprintf(&b, "&#%d;", c)
				}
			}
		case 1:
			if !attr && !strings.Contains(part, "]]>") {
				b.WriteString("<![CDATA[" + part + "]]>")
				continue
			}
			b.WriteString(xmlEsc(part))
		case 2:
			b.WriteString(xmlEsc(part))
			if !attr {
				b.WriteString("<!-- a comment <x>&amp; -->")
			}
		default:
			b.WriteString(xmlEsc(part))
		}
	}
	return b.String()
}

func (st *Style) misc(b *bytes.Buffer) {
	if !st.Fancy {
		return
	}
	switch st.Pick(12) {
	case 10:
		b.WriteString("<!-- <dc:title>comment</dc:title> -->")
	case 11:
		b.WriteString("<?pi some <data?>")
	}
}

// uris lists the namespaces used by properties in order of appearance.
func uris(ps []Prop) []string {
	seen := map[string]bool{}
	var l []string
	var walk func(ps []Prop)
	var walkv func(v Val)
	walkv = func(v Val) {
		walk(v.Fields)
		for _, it := range v.Items {
			walkv(it)
		}
	}
	walk = func(ps []Prop) {
		for _, p := range ps {
			if p.NS != uriRDF && p.NS != uriXML && !seen[p.NS] {
				seen[p.NS] = true
				l = append(l, p.NS)
			}
			walkv(p.V)
		}
	}
	walk(ps)
	return l
}

func (st *Style) declare(b *bytes.Buffer, l []string) {
	for _, u := range l {
		st.attr(b, "xmlns:"+st.Prefix(u), u)
	}
}

// writePacket serialises properties as an RDF packet.
func writePacket(props []Prop, st *Style, wrapMeta, wrapPacket bool) []byte {
	var b bytes.Buffer
	st.rdf = "rdf"
	st.decl = 0
	if st.Fancy {
		st.decl = st.Pick(5)
		if st.Pick(5) == 4 {
			st.rdf = "RDF"
		}
	}
	all := uris(props)
	if wrapPacket {
		b.WriteString("<?xpacket begin=\"\ufeff\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n")
	} else if st.Fancy && st.Pick(4) == 3 {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	if wrapMeta {
		b.WriteString(`<x:xmpmeta xmlns:x="adobe:ns:meta/" x:xmptk="sim"`)
		if st.decl == 2 {
			st.declare(&b, all)
		}
		b.WriteString(">")
		st.misc(&b)
	}
	b.WriteString("<" + st.rdf + `:RDF xmlns:` + st.rdf + `="` + uriRDF + `"`)
	switch {
	case st.decl == 1 || st.decl == 2 && !wrapMeta:
		st.declare(&b, all)
	case st.decl == 4: // the same prefixes for something else, to be hidden below
		for i, u := range all {
			st.attr(&b, "xmlns:"+st.Prefix(u), fmt.Sprintf("http://sim.example/decoy/%d/", i))
		}
	}
	b.WriteString(">")
	// group by namespace, or everything in one description, or mixed
	var groups [][]Prop
	switch st.Pick(3) {
	case 0:
		idx := map[string]int{}
		for _, p := range props {
			i, ok := idx[p.NS]
			if !ok {
				i = len(groups)
				idx[p.NS] = i
				groups = append(groups, nil)
			}
			groups[i] = append(groups[i], p)
		}
	case 1:
		groups = [][]Prop{props}
	case 2:
		groups = make([][]Prop, 1+st.Pick(4))
		for _, p := range props {
			i := st.Pick(len(groups))
			groups[i] = append(groups[i], p)
		}
	}
	for _, g := range groups {
		if len(g) == 0 {
			continue
		}
		st.nl(&b)
		st.misc(&b)
		b.WriteString("<" + st.rdf + ":Description")
		st.attr(&b, st.rdf+":about", st.About)
		if st.decl == 0 || st.decl == 4 {
			st.declare(&b, uris(g))
		}
		var rest, attrs []Prop
		for _, p := range g {
			if p.V.Kind == KText && p.V.Lang == "" && p.V.Text != "" && st.Pick(2) == 1 {
				attrs = append(attrs, p)
			} else {
				rest = append(rest, p)
			}
		}
		if st.decl == 3 {
			st.declare(&b, uris(attrs))
		}
		for _, p := range attrs {
			st.attr(&b, st.Prefix(p.NS)+":"+p.Name, p.V.Text)
		}
		if len(rest) == 0 && st.Fancy && st.Pick(2) == 1 {
			b.WriteString("/>")
			continue
		}
		b.WriteString(">")
		for _, p := range rest {
			st.nl(&b)
			st.misc(&b)
			tag := st.Prefix(p.NS) + ":" + p.Name
			extra := ""
			if st.decl == 3 {
				var x bytes.Buffer
				if st.Pick(3) == 2 { // default namespace
					tag = p.Name
					st.attr(&x, "xmlns", p.NS)
				}
				l := uris([]Prop{p})
				if tag == p.Name {
					l = uris([]Prop{{uriRDF, "x", p.V}}) // the prefix may remain undeclared
				}
				st.declare(&x, l)
				extra = x.String()
			}
			if st.Fancy && uriProps[shortName(p)] && p.V.Kind == KText && p.V.Lang == "" && st.Pick(2) == 1 {
				var x bytes.Buffer
				st.attr(&x, st.rdf+":resource", p.V.Text)
				fmt.Fprintf(&b, "<%s%s%s/>", tag, extra, x.String())
				continue
			}
			st.writeVal(&b, tag, extra, p.V)
		}
		st.nl(&b)
		b.WriteString("</" + st.rdf + ":Description>")
	}
	st.nl(&b)
	b.WriteString("</" + st.rdf + ":RDF>")
	if wrapMeta {
		st.misc(&b)
		b.WriteString("</x:xmpmeta>")
	}
	if wrapPacket {
		b.WriteString("\n<?xpacket end=\"w\"?>")
	}
	return b.Bytes()
}

// properties of type URI, which may be written as rdf:resource
var uriProps = map[string]bool{"xmp:BaseURL": true, "id3:uniqueFileIdentifier": true, "xmpMM:ManageTo": true, "photoshop:AncestorID": true, "xmpDM:relativePeakAudioFilePath": true}

func shortName(p Prop) string { return pool.Prefixes[p.NS] + ":" + p.Name }

func (st *Style) nl(b *bytes.Buffer) {
	if st.Indent {
		b.WriteString("\n  ")
	}
}

func (st *Style) name(ns, n string) string {
	if ns == uriRDF {
		return st.rdf + ":" + n
	}
	return st.Prefix(ns) + ":" + n
}

func (st *Style) writeVal(b *bytes.Buffer, tag, extra string, v Val) {
	if v.Lang != "" {
		extra += fmt.Sprintf(" xml:lang=\"%s\"", xmlEsc(v.Lang))
	}
	switch v.Kind {
	case KText:
		fmt.Fprintf(b, "<%s%s>%s</%s>", tag, extra, st.chars(v.Text, false), tag)
	case KStruct:
		simple := true
		for _, f := range v.Fields {
			if f.V.Kind != KText || f.V.Lang != "" || f.V.Text == "" || f.NS == uriRDF {
				simple = false
			}
		}
		forms := 2
		if simple {
			forms = 3
		}
		switch st.Pick(forms) {
		case 0: // parseType Resource
			fmt.Fprintf(b, "<%s%s %s:parseType=\"Resource\">", tag, extra, st.rdf)
			for _, f := range v.Fields {
				st.nl(b)
				st.misc(b)
				st.writeVal(b, st.name(f.NS, f.Name), "", f.V)
			}
			st.nl(b)
			fmt.Fprintf(b, "</%s>", tag)
		case 1: // nested description, simple fields as attributes or elements
			fmt.Fprintf(b, "<%s%s>", tag, extra)
			st.nl(b)
			fmt.Fprintf(b, "<%s:Description", st.rdf)
			var rest []Prop
			for _, f := range v.Fields {
				if f.V.Kind == KText && f.V.Lang == "" && f.V.Text != "" && f.NS != uriRDF && st.Pick(2) == 1 {
					st.attr(b, st.name(f.NS, f.Name), f.V.Text)
				} else {
					rest = append(rest, f)
				}
			}
			b.WriteString(">")
			for _, f := range rest {
				st.nl(b)
				st.writeVal(b, st.name(f.NS, f.Name), "", f.V)
			}
			st.nl(b)
			fmt.Fprintf(b, "</%s:Description>", st.rdf)
			st.nl(b)
			fmt.Fprintf(b, "</%s>", tag)
		case 2: // attribute shorthand
			fmt.Fprintf(b, "<%s%s", tag, extra)
			for _, f := range v.Fields {
				st.attr(b, st.name(f.NS, f.Name), f.V.Text)
			}
			b.WriteString("/>")
		}
	default:
		fmt.Fprintf(b, "<%s%s>", tag, extra)
		st.nl(b)
		fmt.Fprintf(b, "<%s:%s>", st.rdf, v.Kind)
		for _, it := range v.Items {
			st.nl(b)
			st.misc(b)
			st.writeVal(b, st.rdf+":li", "", it)
		}
		st.nl(b)
		fmt.Fprintf(b, "</%s:%s>", st.rdf, v.Kind)
		st.nl(b)
		fmt.Fprintf(b, "</%s>", tag)
	}
}

func plainStyle(prefix func(string) string) *Style {
	return &Style{Pick: func(int) int { return 0 }, Prefix: prefix}
}
