package main

// C09: corrupted input never crashes or hangs the program.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"regexp"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C09", Run: runC09, Quick: 150000, Limit: 60_000_000,
		Rule: "one run = one generated document as XMP or JSON, damaged by seeded byte, block and structure faults, loaded, and if accepted put through a history of listing, reads, edits, saves, merges and closes with arbitrary paths; non-trivial when the damaged document was accepted",
		Real: "all of xmp and models, encoding/xml, encoding/json", Stub: "io.Reader and storage (simulated damage)"})
}

// xn is an element of a generic XML tree.
type xn struct {
	name  string
	attrs [][2]string
	kids  []*xn
	text  string
}

func parseXN(b []byte) *xn {
	d := xml.NewDecoder(bytes.NewReader(b))
	root := &xn{}
	st := []*xn{root}
	q := func(n xml.Name) string {
		if n.Space != "" {
			return n.Space + ":" + n.Local
		}
		return n.Local
	}
	for {
		t, err := d.RawToken()
		if err != nil {
			return root
		}
		top := st[len(st)-1]
		switch t := t.(type) {
		case xml.StartElement:
			n := &xn{name: q(t.Name)}
			for _, a := range t.Attr {
				n.attrs = append(n.attrs, [2]string{q(a.Name), a.Value})
			}
			top.kids = append(top.kids, n)
			st = append(st, n)
		case xml.EndElement:
			if len(st) > 1 {
				st = st[:len(st)-1]
			}
		case xml.CharData:
			top.text += strings.TrimSpace(string(t))
		}
	}
}

func (n *xn) write(b *bytes.Buffer) {
	if n.name == "" {
		xml.EscapeText(b, []byte(n.text))
		for _, k := range n.kids {
			k.write(b)
		}
		return
	}
	b.WriteString("<" + n.name)
	for _, a := range n.attrs {
		b.WriteString(" " + a[0] + `="`)
		xml.EscapeText(b, []byte(a[1]))
		b.WriteString(`"`)
	}
	b.WriteString(">")
	xml.EscapeText(b, []byte(n.text))
	for _, k := range n.kids {
		k.write(b)
	}
	b.WriteString("</" + n.name + ">")
}

func (n *xn) all(l *[]*xn) {
	*l = append(*l, n)
	for _, k := range n.kids {
		k.all(l)
	}
}

var weird = []string{"", " ", "0", "-1", "1", "2", "99999999999999999999", "-9223372036854775808", "4294967296", "1e999", "NaN", "Inf", "1/0", "0/0", "-1/2147483648", "/", "1/", "/2", "1/2/3",
	"2001-13-45T99:99:99Z", "0000-00-00", "2006-01-02T15:04:05.999999999+99:99", "2004-02-30", "20040-1", "T", "10:20", "true", "True", "yes", "0x", "1,2,3", ",,,", ",", ":::", ":", "%", "uuid:", "-", "+", ".", "1 2 3", "10 Hz", "1f2", "f", "01:02:03:04", "99:99", "x-default",
	"12,34.5X", "N", "360,0N", "1,2,3W", "1,2", "aaa,b", "<", "\u00a0", "ü", "(1/2)", "(9)", "|", "a|b", "(Rock)", "#", "//", "[0]", "dc:title", "rdf:li", "\xff\xfe", "1.", "1..2", "1.2.3.4.5", "1_", "''", `"`, "{}", "[]", "null", "0 0 0 0 0 0 0 0 0 0 0 0", "1;2", "=", "a=b;c=d", "00:00:00;00", "0/1", "-1/1", "1/1", "0.0", "-0.5", "3/12", "/12", "3/", "2147483648", "9223372036854775807", "2020-01-02T03:04:05Z", "2020-01-02", "2020", "03:04", "0001-01-01T00:00:00Z", "DF", "NDF", "24000/1001", "{3}", "(4)(5)", "a\nb", "1\n", "\n", "image/jpeg", "1/2/", "N12,34.5", "34,12.3S", "2.3.0.0", "0221", "0, 0", "1, 2, 3, 4"}

func (r *R) weird() string {
	switch r.N(8) {
	case 6:
		return strings.Repeat(pick(r.Src, weird), 1+r.N(60))
	case 7:
		return pick(r.Src, weird) + pick(r.Src, weird)
	}
	return pick(r.Src, weird)
}

// damageValue keeps most of the form of a value.
func (r *R) damageValue(s string) string {
	if r.N(3) == 2 {
		return r.weird()
	}
	for i, n := 0, 1+r.N(2); i < n && s != ""; i++ {
		num := digits.FindAllStringIndex(s, -1)
		k := r.N(6)
		if len(num) == 0 && k < 3 {
			k += 3
		}
		j := r.N(len(s))
		switch k {
		case 0, 1, 2:
			x := pick(r.Src, num)
			s = s[:x[0]] + pick(r.Src, []string{"0", "0", "-1", "1", "", "2147483648", "99999999999999999999", "00", "60", "1.5"}) + s[x[1]:]
		case 3:
			s = s[:j] + s[j+1:]
		case 4:
			s = s[:j] + s[j:j+1] + s[j:]
		default:
			s = s[:j]
		}
	}
	return strings.ToValidUTF8(s, "")
}

// firstDigits replaces the first number of a value.
func firstDigits(s, by string) string {
	if x := digits.FindStringIndex(s); x != nil {
		return s[:x[0]] + by + s[x[1]:]
	}
	return s
}

var digits = regexp.MustCompile(`[0-9]+`)

var specialNames = []string{"rdf:Bag", "rdf:Seq", "rdf:Alt", "rdf:li", "rdf:Description", "rdf:value", "rdf:RDF", "x:xmpmeta", "rdf:type", "xml:lang", "x", "dc:title", "dc:subject", "xmpMM:History", "xmp:Thumbnails", "stEvt:action", "iXML:extension", "xmp:extension", "xmpMM:Pantry", "xmpDM:Tracks", "li", "Seq"}
var specialAttrs = [][2]string{{"rdf:parseType", "Resource"}, {"rdf:parseType", "Literal"}, {"rdf:resource", "http://x/"}, {"xml:lang", "de"}, {"xml:lang", "x-default"}, {"rdf:about", "other"}, {"rdf:value", "v"}, {"xmlns:dc", "http://evil/"}, {"xmlns", "http://default/"}, {"xmlns:xmp", ""}, {"xmlns:q", "http://purl.org/dc/elements/1.1/"}, {"dc:format", "image/x"}, {"lang", "en"}, {"stEvt:action", "saved"}, {"rdf:ID", "a"}, {"rdf:nodeID", "n"}, {"rdf:datatype", "t"}, {"noprefix", "v"}, {"unknown:attr", "v"}}

// damageTree applies one structural fault.
func (r *R) damageTree(root *xn) string {
	var l []*xn
	root.all(&l)
	l = l[1:]
	if len(l) == 0 {
		return "nothing"
	}
	n := pick(r.Src, l)
	parent := func(c *xn) *xn {
		var all []*xn
		root.all(&all)
		for _, p := range all {
			for _, k := range p.kids {
				if k == c {
					return p
				}
			}
		}
		return nil
	}
	remove := func(c *xn) {
		p := parent(c)
		for i, k := range p.kids {
			if k == c {
				p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
				return
			}
		}
	}
	within := func(c, x *xn) bool {
		var all []*xn
		c.all(&all)
		for _, k := range all {
			if k == x {
				return true
			}
		}
		return false
	}
	k := r.N(20)
	switch k {
	case 15, 16, 17, 18: // value of one property or field
		var leaf []*xn
		na := 0
		for _, c := range l {
			na += len(c.attrs)
			if len(c.kids) == 0 && c.text != "" {
				leaf = append(leaf, c)
			}
		}
		if len(leaf)+na == 0 {
			return "nothing"
		}
		i := r.N(len(leaf) + na)
		if i < len(leaf) {
			leaf[i].text = r.damageValue(leaf[i].text)
			return fmt.Sprintf("value %q for %s", clip(leaf[i].text), leaf[i].name)
		}
		i -= len(leaf)
		for _, c := range l {
			if i < len(c.attrs) {
				c.attrs[i][1] = r.damageValue(c.attrs[i][1])
				return fmt.Sprintf("value %q for %s", clip(c.attrs[i][1]), c.attrs[i][0])
			}
			i -= len(c.attrs)
		}
		return "nothing"
	case 0:
		remove(n)
		return "remove " + n.name
	case 1:
		p := parent(n)
		for i, m := 0, 1+r.N(3); i < m; i++ {
			p.kids = append(p.kids, n)
		}
		return "duplicate " + n.name
	case 2, 3:
		m := pick(r.Src, l)
		if !within(n, m) {
			remove(n)
			m.kids = append(m.kids, n)
		}
		return "move " + n.name + " into " + m.name
	case 4:
		o := n.name
		n.name = pick(r.Src, l).name
		return "rename " + o + " " + n.name
	case 5:
		o := n.name
		n.name = pick(r.Src, specialNames)
		return "rename " + o + " " + n.name
	case 6:
		n.text = r.weird()
		return "text of " + n.name
	case 7:
		a := pick(r.Src, specialAttrs)
		n.attrs = append(n.attrs, a)
		return "add attribute " + a[0] + " to " + n.name
	case 8:
		if len(n.attrs) > 0 {
			i := r.N(len(n.attrs))
			a := n.attrs[i][0]
			switch r.N(4) {
			case 0:
				n.attrs = append(n.attrs[:i:i], n.attrs[i+1:]...)
				return "drop attribute " + a
			case 1:
				n.attrs = append(n.attrs, n.attrs[i])
				return "duplicate attribute " + a
			default:
				n.attrs[i][1] = r.weird()
				return "value of attribute " + a
			}
		}
		n.text = r.weird()
		return "text of " + n.name
	case 9: // unwrap
		p := parent(n)
		for i, c := range p.kids {
			if c == n {
				p.kids = append(append(append([]*xn{}, p.kids[:i]...), n.kids...), p.kids[i+1:]...)
				p.text += n.text
				break
			}
		}
		return "unwrap " + n.name
	case 10: // wrap
		w := pick(r.Src, specialNames)
		d := 1
		if r.N(50) == 49 {
			d = 50 + r.N(200)
		}
		for i := 0; i < d; i++ {
			c := *n
			*n = xn{name: w, kids: []*xn{&c}}
		}
		return fmt.Sprint("wrap into ", d, " ", w)
	case 11:
		n.kids, n.text = nil, ""
		return "empty " + n.name
	case 12:
		m := pick(r.Src, l)
		if !within(n, m) && !within(m, n) {
			n.kids, m.kids = m.kids, n.kids
			n.text, m.text = m.text, n.text
		}
		return "swap contents of " + n.name + ", " + m.name
	case 13:
		m := pick(r.Src, l)
		n.attrs = append(n.attrs, m.attrs...)
		return "attributes of " + m.name + " for " + n.name
	default: // element to attribute
		p := parent(n)
		remove(n)
		p.attrs = append(p.attrs, [2]string{n.name, n.text})
		return "make " + n.name + " an attribute"
	}
}

// ---- JSON -----------------------------------------------------------------------------

type jslot struct {
	get func() interface{}
	set func(interface{})
	del func()
	key string
}

func jsonSlots(v interface{}, l *[]jslot) {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			k := k
			*l = append(*l, jslot{func() interface{} { return x[k] }, func(v interface{}) { x[k] = v }, func() { delete(x, k) }, k})
			jsonSlots(x[k], l)
		}
	case []interface{}:
		for i := range x {
			i := i
			*l = append(*l, jslot{func() interface{} { return x[i] }, func(v interface{}) { x[i] = v }, func() { x[i] = nil }, fmt.Sprint("[", i, "]")})
			jsonSlots(x[i], l)
		}
	}
}

func (r *R) weirdJSON() interface{} {
	switch r.N(14) {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return float64(r.N(1000)) / 7
	case 3:
		return -1e300
	case 4:
		return []interface{}{}
	case 5:
		return map[string]interface{}{}
	case 6:
		return []interface{}{nil, "x", 1.0, []interface{}{"y"}, map[string]interface{}{"dc:a": "b"}}
	case 7:
		return map[string]interface{}{"": "x", "rdf:value": "y", "x": []interface{}{"z"}}
	case 8:
		return []interface{}{map[string]interface{}{"lang": "de", "value": "v", "isDefault": true}, map[string]interface{}{"lang": 5.0, "value": nil, "isDefault": "x"}}
	case 9:
		return []interface{}{map[string]interface{}{"lang": "x-default", "value": ""}}
	case 10:
		return []interface{}{[]interface{}{[]interface{}{}}, nil}
	default:
		return strings.ToValidUTF8(r.weird(), "?")
	}
}

func (r *R) damageJSON(root map[string]interface{}) string {
	var l []jslot
	jsonSlots(root, &l)
	if len(l) == 0 {
		root["models"] = r.weirdJSON()
		return "models"
	}
	s := pick(r.Src, l)
	switch r.N(8) {
	case 0, 1, 2:
		s.set(r.weirdJSON())
		return "value of " + s.key
	case 3:
		s.del()
		return "delete " + s.key
	case 4:
		t := pick(r.Src, l)
		t.set(deepCopyJSON(s.get()))
		return "copy " + s.key + " to " + t.key
	case 5:
		s.set([]interface{}{s.get()})
		return "array of " + s.key
	case 6:
		s.set(map[string]interface{}{pick(r.Src, append(append([]string{}, specialNames...), "", ":", "a:", ":b", "a b", "<", "a:b:c", "a/b", "a[0]")): s.get()})
		return "object of " + s.key
	default:
		if m, ok := s.get().(map[string]interface{}); ok {
			m[pick(r.Src, append(append([]string{}, specialNames...), "", ":", "a:", ":b", "a b", "<", "a:b:c"))] = r.weirdJSON()
		} else {
			s.set(r.weirdJSON())
		}
		return "entry of " + s.key
	}
}

func deepCopyJSON(v interface{}) interface{} {
	b, _ := json.Marshal(v)
	var x interface{}
	json.Unmarshal(b, &x)
	return x
}

// damageBytes applies one fault of a storage medium or line.
func (r *R) damageBytes(b []byte) ([]byte, string) {
	if len(b) == 0 {
		return []byte(r.weird()), "replaced"
	}
	i := r.cutPoint(b, len(b))
	n := 1 + r.Small(min(600, len(b)-i))
	if i+n > len(b) {
		n = len(b) - i
	}
	switch r.N(9) {
	case 0:
		c := append([]byte(nil), b...)
		c[i] ^= 1 << r.N(8)
		return c, fmt.Sprintf("bit flip at %d", i)
	case 1:
		return append(append([]byte(nil), b[:i]...), b[i+n:]...), fmt.Sprintf("%d bytes lost at %d", n, i)
	case 2:
		return append(append([]byte(nil), b[:i+n]...), b[i:]...), fmt.Sprintf("%d bytes repeated at %d", n, i)
	case 3:
		c := append([]byte(nil), b...)
		for k := i; k < i+n; k++ {
			c[k] = 0
		}
		return c, fmt.Sprintf("%d zero bytes at %d", n, i)
	case 4:
		return append([]byte(nil), b[:i]...), fmt.Sprintf("truncated at %d", i)
	case 5: // a block from elsewhere
		c := append([]byte(nil), b...)
		copy(c[i:i+n], b[r.N(len(b)):])
		return c, fmt.Sprintf("misplaced block of %d at %d", n, i)
	case 6:
		t := pick(r.Src, []string{"<", ">", "/>", "</", "&", "&#0;", "&#xD800;", "&lt;", "]]>", "<![CDATA[", "<!--", "-->", "<?xpacket end='w'?>", "<?x ", "\"", "'", "=", "\xff", "\x00", "\xc3", "\xed\xa0\x80", "{", "}", "[", "]", ",", ":", "null", "\\u0000", "\\ud800", "<rdf:li>", "</rdf:li>", "<rdf:Bag>", "</rdf:Bag>", "<a:b/>", " xmlns:a='b'", "<!DOCTYPE x [<!ENTITY a 'b'>]>", "\ufeff"})
		return append(append(append([]byte(nil), b[:i]...), t...), b[i:]...), fmt.Sprintf("%q inserted at %d", t, i)
	case 7: // swap of two blocks
		j := r.N(len(b))
		m := min(n, len(b)-max(i, j))
		c := append([]byte(nil), b...)
		copy(c[i:i+m], b[j:j+m])
		copy(c[j:j+m], b[i:i+m])
		return c, fmt.Sprintf("blocks of %d at %d and %d swapped", m, i, j)
	default:
		c := append([]byte(nil), b...)
		for k := 0; k < 1+r.N(8); k++ {
			c[r.N(len(c))] = byte(r.N(256))
		}
		return c, "random bytes"
	}
}

// anyPath makes an arbitrary path.
func (r *R) anyPath(known []string) xmp.Path {
	base := ""
	if len(known) > 0 && r.N(4) != 0 {
		base = pick(r.Src, known)
	} else {
		base = pick(r.Src, []string{"dc", "xmp", "xmpMM", "exif", "crs", "iXML", "qt", "id3", "mp4", "digiKam", "rdf", "nosuch", "ua", "xmpDM", "tiff", "stEvt", "xmlns"}) + ":" + pick(r.Src, append([]string{"title", "subject", "creator", "History", "Thumbnails", "extension", "Pantry", "Tracks", "nosuch", "", "Ingredients", "DerivedFrom", "markers"}, unkNames...))
	}
	switch r.N(12) {
	case 0, 1:
		return xmp.Path(base)
	case 2: // other index
		if i := strings.IndexByte(base, '['); i > 0 {
			j := strings.IndexByte(base[i:], ']')
			if j > 0 {
				return xmp.Path(base[:i] + r.anyIndex() + base[i+j+1:])
			}
		}
		return xmp.Path(base + r.anyIndex())
	case 3: // shorter
		segs := strings.Split(base, "/")
		return xmp.Path(strings.Join(segs[:1+r.N(len(segs))], "/"))
	case 4: // longer
		for i, n := 0, 1+r.N(3); i < n; i++ {
			base += "/" + pick(r.Src, append([]string{"stRef:instanceID", "dc:title", "a", "", "rdf:value", "x:y:z"}, unkNames...))
			if r.N(3) == 2 {
				base += r.anyIndex()
			}
		}
		return xmp.Path(base)
	case 5: // no index
		if i := strings.IndexByte(base, '['); i > 0 {
			return xmp.Path(base[:i])
		}
		return xmp.Path(base)
	case 6: // tail of another path
		if len(known) > 0 {
			o := pick(r.Src, known)
			return xmp.Path(base + o[r.N(len(o)):])
		}
		return xmp.Path(base)
	case 7: // damaged
		b, _ := r.damageBytes([]byte(base))
		return xmp.Path(b)
	case 8:
		return xmp.Path(r.weird())
	case 9:
		if i := strings.IndexByte(base, ':'); i > 0 {
			return xmp.Path(base[:i+1])
		}
		return xmp.Path(base)
	default:
		return xmp.Path(base + r.anyIndex())
	}
}

func (r *R) anyIndex() string {
	return pick(r.Src, []string{"[0]", "[1]", "[2]", "[7]", "[]", "[", "[-1]", "[-2]", "[99]", "[5000]", "[1048577]", "[9223372036854775807]", "[4611686018427387904]", "[99999999999999999999]", "[de]", "[x-default]", "[0][0]", "[0]x", "]", "[[", "[ ]", "[-]", "[+1]", "[0x1]"})
}

func (r *R) anyFlags() xmp.SyncFlags {
	if r.N(3) == 2 {
		return xmp.SyncFlags(r.N(64))
	}
	return pick(r.Src, []xmp.SyncFlags{0, xmp.CREATE, xmp.REPLACE, xmp.CREATE | xmp.REPLACE, xmp.DELETE, xmp.DEFAULT, xmp.MERGE, xmp.EXTEND, xmp.CREATE | xmp.APPEND, xmp.APPEND, xmp.UNIQUE})
}

func runC09(r *R) {
	loadData()
	r.mapOrder()
	g := r.smallDoc(10, r.N(3) == 2)
	useJSON := r.N(3) == 2
	if r.N(4) == 3 { // typed values of a few properties
		props := r.genProps(&GenOpt{N: 1 + r.N(3), SameLang: true})
		if r.N(2) == 1 { // in documents with many models
			props = append(props, Prop{"http://purl.org/dc/elements/1.1/", "format", Val{Kind: KText, Text: "x/y"}})
		}
		all, num := r.N(3) == 2, pick(r.Src, []string{"0", "0", "-1", "1", "99999999999999999999", ""})
		for i := range props {
			props[i].V.eachText(func(v *Val) {
				if all && r.N(6) != 5 {
					v.Text = firstDigits(v.Text, num)
				} else if r.N(3) != 2 {
					v.Text = r.damageValue(v.Text)
				}
			})
		}
		r.Fault("damage.values")
		g = &genDoc{xml: writePacket(props, r.style(), true, false)}
	}
	data := g.xml
	if useJSON {
		d := &xmp.Document{}
		if err := xmp.Unmarshal(data, d); err != nil {
			if g.props == nil {
				return
			}
			r.Fail("load-error", "Unmarshal: %v", err)
		}
		j, err := json.Marshal(d)
		if err != nil {
			if g.props == nil {
				return
			}
			r.Fail("save-error", "json.Marshal: %v", err)
		}
		data = j
	}
	// structural damage, then damage of bytes
	m := r.N(6)
	if g.props == nil && r.N(3) != 2 {
		m = 0
	}
	if m > 0 {
		if useJSON {
			root := map[string]interface{}{}
			json.Unmarshal(data, &root)
			for i := 0; i < m; i++ {
				r.Logf("damage: %s", r.damageJSON(root))
				r.Fault("damage.structure")
			}
			data, _ = json.Marshal(root)
		} else {
			root := parseXN(g.xml)
			for i := 0; i < m; i++ {
				r.Logf("damage: %s", clip(r.damageTree(root)))
				r.Fault("damage.structure")
			}
			var b bytes.Buffer
			root.write(&b)
			if b.Len() > 1<<20 {
				return
			}
			data = b.Bytes()
			if bytes.HasPrefix(g.xml, []byte("<?xpacket")) {
				data = append(append([]byte(`<?xpacket begin="" id="W5M0MpCehiHzreSzNTczkc9d"?>`), data...), `<?xpacket end="w"?>`...)
			}
		}
	}
	if r.N(3) == 2 && (g.props != nil || r.N(4) == 3) {
		for i, m := 0, 1+r.Small(6); i < m; i++ {
			var what string
			data, what = r.damageBytes(data)
			r.Logf("damage: %s", what)
			r.Fault("damage.bytes")
		}
	}
	if r.N(400) == 399 && !useJSON { // endless nesting
		i := bytes.LastIndex(data, []byte("</"))
		if i > 0 {
			n := pick(r.Src, []int{300, 12000, 100000})
			data = append(append(append([]byte(nil), data[:i]...), bytes.Repeat([]byte("<a>"), n)...), append(bytes.Repeat([]byte("</a>"), n), data[i:]...)...)
			r.Logf("damage: %d nested elements", n)
			r.Fault("damage.nesting")
		}
	}
	if r.tracing {
		r.Logf("data %s", clip2(string(data), 3000))
	}
	d := &xmp.Document{}
	var err error
	switch how := r.N(4); {
	case useJSON && how%2 == 0:
		err = json.Unmarshal(data, d)
	case useJSON:
		err = d.UnmarshalJSON(data)
	case how == 0:
		err = xmp.Unmarshal(data, d)
	case how == 1:
		p := r.readPlan(nil)
		pk, e := xmp.ScanPackets(newReader(p, data))
		if e != nil || len(pk) == 0 {
			r.Logf("ScanPackets: %v", e)
			err = xmp.Unmarshal(data, d)
			break
		}
		err = xmp.Unmarshal(pk[0], d)
	case how == 2:
		d, err = xmp.Scan(newReader(r.readPlan(nil), data))
	default:
		d, err = xmp.Read(newReader(r.readPlan(nil), data))
	}
	r.Logf("load: %v", err)
	if err != nil {
		r.Count("rejected", 1)
		return
	}
	r.Count("accepted", 1)
	r.nontrivial = true
	r.useDoc(d)
}

// useDoc puts an accepted document through a history of operations.
func (r *R) useDoc(d *xmp.Document) {
	var known []string
	list := func() {
		l, err := d.ListPaths()
		r.Logf("list: %d, %v", len(l), err)
		known = known[:0]
		for _, p := range l {
			known = append(known, string(p.Path))
			if len(known) < 400 {
				d.GetPath(p.Path)
			}
		}
	}
	if r.N(3) == 2 { // unsaved changes
		d.SetPath(xmp.PathValue{Path: "dc:format", Value: "x/y"})
	}
	list()
	n := 1 + r.N(8)
	for i := 0; i < n; i++ {
		switch r.N(12) {
		case 0, 1, 2:
			for j, m := 0, 1+r.N(4); j < m; j++ {
				p := r.anyPath(known)
				v, err := d.GetPath(p)
				r.Logf("get %s: %q, %v", clip(string(p)), clip(v), err)
				pathOps(p)
			}
		case 3, 4, 5, 6:
			for j, m := 0, 1+r.N(4); j < m; j++ {
				pv := xmp.PathValue{Path: r.anyPath(known), Flags: r.anyFlags()}
				if r.N(4) != 0 {
					pv.Value = pick(r.Src, []string{"text", r.weird(), r.weird()})
				}
				if r.N(3) == 2 {
					pv.Namespace = pick(r.Src, []string{unkURI(r.N(5)), "", "http://purl.org/dc/elements/1.1/", "x"})
				}
				if r.tracing {
					r.Logf("setting %s = %q flags %d ns %s", clip(string(pv.Path)), clip(pv.Value), pv.Flags, pv.Namespace)
				}
				err := d.SetPath(pv)
				r.Logf("set %s = %q flags %d: %v", clip(string(pv.Path)), clip(pv.Value), pv.Flags, err)
			}
			if r.N(2) == 1 {
				list()
			}
		case 7:
			o := r.saveOpt()
			b, _, err := o.save(d, &WritePlan{})
			r.Logf("save: %d, %v", len(b), err)
		case 8:
			b, err := json.Marshal(d)
			r.Logf("JSON save: %d, %v", len(b), err)
			if err == nil && r.N(3) == 2 {
				x := &xmp.Document{}
				r.Logf("reload: %v", json.Unmarshal(b, x))
				x.Close()
			}
		case 9:
			x := xmp.NewDocument()
			fl := r.anyFlags()
			err := x.Merge(d, fl)
			r.Logf("merge into empty: %v", err)
			if r.N(2) == 1 {
				x.Close()
			}
		case 10:
			ns := d.Namespaces()
			sortNS(ns)
			if len(ns) > 0 {
				k := pick(r.Src, ns)
				switch r.N(3) {
				case 0:
					r.Logf("remove %s: %v", k.GetName(), d.RemoveNamespace(k))
				case 1:
					m := d.FindModel(k)
					r.Logf("model of %s: %v", k.GetName(), m != nil)
					if m != nil {
						t := pick(r.Src, []string{"TIT2", "title", "INAM", "©nam", "Artist", "0x010e", "com.apple.quicktime.title", "x", ""})
						v := r.weird()
						m.CanTag(t)
						r.Logf("tag %s: %v", t, m.SetTag(t, v))
						m.GetTag(t)
					}
				default:
					_, err := d.MakeModel(k)
					r.Logf("make model %s: %v", k.GetName(), err)
				}
			}
		default:
			if r.N(3) == 0 {
				r.Logf("sync: %v", d.SyncModels())
				break
			}
			s, t, fl := r.anyPath(known), r.anyPath(known), r.anyFlags()
			var conv xmp.ConverterFunc
			if r.N(3) == 2 {
				w := r.weird()
				conv = func(v string) string { return w }
			}
			r.Logf("syncing %s to %s flags %d", clip(string(s)), clip(string(t)), fl)
			if r.N(2) == 1 {
				var m xmp.Model
				if ns := d.FindNs(string(t), ""); ns != nil && r.N(2) == 1 {
					m = d.FindModel(ns)
				}
				r.Logf("sync: %v", d.Sync(s, t, fl, m, conv))
			} else {
				r.Logf("sync: %v", d.SyncMulti(xmp.SyncDescList{{Source: s, Dest: t, Flags: fl, Convert: conv}}, nil))
			}
		}
	}
	list()
	if r.N(2) == 1 {
		b, _, err := (&SaveOpt{}).save(d, &WritePlan{})
		r.Logf("save: %d, %v", len(b), err)
	}
	d.Close()
	if r.N(4) == 3 {
		d.Close()
	}
}

func pathOps(p xmp.Path) {
	_ = p.String()
	_ = p.IsXmpPath()
	_ = p.NamespacePrefix()
	_ = p.Len()
	f := p.Fields()
	p.AppendIndex(1)
	p.AppendIndexString("x")
	p.Push(f...)
	p.Pop()
	p.PopFront()
	p.PeekNamespacePrefix()
	p.Namespace(nil2)
	var q xmp.Path
	q.UnmarshalText([]byte(p))
}

var nil2 = xmp.NewDocument()

func sortNS(l xmp.NamespaceList) {
	for i := range l {
		for j := i; j > 0 && l[j].GetName()+l[j].GetURI() < l[j-1].GetName()+l[j-1].GetURI(); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}
