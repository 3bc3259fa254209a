package main

// C04: recycling never leaks or corrupts content across documents.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C04", Run: runC04, Quick: 30000,
		Rule: "one run = a history over up to six documents and hand-made nodes: open, failing open, close (also again), edit, merge, namespace removal, save, failing save, restart; all open documents and nodes checked after every step; non-trivial when something was opened after a close",
		Real: "NewNode, Node.Close, Document.Close, all loading, editing, saving and removal code, all models", Stub: "io.Writer and io.Reader (simulated disk), process (state reset at a crash)"})
}

// handNode is a tree of nodes made by the caller.
type handNode struct {
	n    *xmp.Node
	want string
}

func dumpNode(n *xmp.Node) string {
	var b bytes.Buffer
	var walk func(n *xmp.Node)
	walk = func(n *xmp.Node) {
		fmt.Fprintf(&b, "%s|%s=%q", n.XMLName.Space, n.XMLName.Local, n.Value)
		if n.Model != nil {
			fmt.Fprintf(&b, " model %T", n.Model)
		}
		for _, a := range n.Attr {
			fmt.Fprintf(&b, " @%s=%q", a.Name.Local, a.Value)
		}
		b.WriteString(" (")
		for _, c := range n.Nodes {
			walk(c)
		}
		b.WriteString(")")
	}
	walk(n)
	return b.String()
}

func (r *R) freshNode() *xmp.Node {
	name := xml.Name{Local: "sim:" + r.Unique("n")}
	n := xmp.NewNode(name)
	if n.XMLName != name || n.Value != "" || len(n.Attr) != 0 || len(n.Nodes) != 0 || n.Model != nil {
		r.Fail("dirty-node", "NewNode(%s) is not empty: %s", name.Local, clip(dumpNode(n)))
	}
	return n
}

func (r *R) handMade() *handNode {
	n := r.freshNode()
	for i, m := 0, r.N(4); i < m; i++ {
		c := r.freshNode()
		c.Value = r.text()
		if r.N(2) == 1 {
			c.AddAttr(xmp.Attr{Name: xml.Name{Local: "sim:a"}, Value: r.text()})
		}
		n.AddNode(c)
		if r.N(3) == 2 {
			g := r.freshNode()
			g.Value = r.text()
			c.AddNode(g)
		}
	}
	n.AddAttr(xmp.Attr{Name: xml.Name{Local: "sim:b"}, Value: r.text()})
	return &handNode{n, dumpNode(n)}
}

func runC04(r *R) {
	loadData()
	r.mapOrder()
	loadMirrors()
	have := map[string]bool{}
	r.had = map[string]bool{}
	// a model is removed with the first of its namespaces
	r.skipNS = map[string]bool{simURI2: true}
	gen := func(n int) []Prop {
		var l []Prop
		for _, p := range r.genProps(&GenOpt{InKnown: true, SkipNS: r.skipNS, N: n, Unknown: pick(r.Src, []int{0, 1, 3, 8}), NoMirror: true, Have: have, Skip: func(e *Entry) bool {
			return noPath(e) || preset(&e.P)
		}}) {
			if !zeroLike(&p) && !noDefault(p.V, inModel("{"+p.NS+"}"+p.Name)) {
				l = append(l, p)
			}
			delete(have, "{"+p.NS+"}"+p.Name)
			if mirrorOf["{"+p.NS+"}"+p.Name] != nil {
				have["{"+p.NS+"}"+p.Name] = true // once
			}
		}
		return l
	}
	var docs []*mdoc
	var closed []*xmp.Document
	var nodes []*handNode
	names := 0
	note := func(m *mdoc) {
		for _, p := range m.props {
			r.had["{"+p.NS+"}"+p.Name] = true
		}
	}
	check := func(pre string) {
		for _, m := range docs {
			if v := try(func() { checkDoc(r, m.d, m.props, pre) }); v != nil {
				r.Fail(v.class, "document %s: %s", m.name, v.msg)
			}
		}
		for _, h := range nodes {
			if s := dumpNode(h.n); s != h.want {
				r.Fail(pre+"node-changed", "a node made by the caller changed: %s", firstDiff(h.want, s))
			}
		}
	}
	open := func() {
		m := &mdoc{name: string(rune('A' + names)), props: gen(1 + r.Small(8))}
		names++
		note(m)
		m.durable = writePacket(m.props, r.style(), true, r.N(2) == 1)
		m.durProp = cloneProps(m.props)
		r.Logf("open document %s: %s", m.name, describe(m.props))
		if r.tracing {
			r.Logf("xml %s", clip2(string(m.durable), 2500))
		}
		if r.N(5) == 4 { // built instead of loaded
			m.d = xmp.NewDocument()
			if l, err := m.d.ListPaths(); err != nil || len(l) > 0 {
				r.Fail("new-not-empty", "a new document lists %v, %v", l, err)
			}
			m.props, m.durProp = nil, nil
			m.durable = writePacket(nil, r.style(), true, false)
			for j := 0; j < 2; j++ {
				r.createKnown(m.d, &m.props)
			}
			note(m)
			m.loose = true
		} else {
			m.d = loadBytes(r, m.durable, false)
		}
		if len(closed) > 0 {
			r.nontrivial = true
		}
		docs = append(docs, m)
	}
	closeDoc := func(i int) {
		m := docs[i]
		r.Logf("close %s", m.name)
		m.d.Close()
		closed = append(closed, m.d)
		docs = append(docs[:i:i], docs[i+1:]...)
		r.Count("closes", 1)
	}
	if r.N(40) == 39 {
		// more released nodes than are kept for reuse
		r.Logf("fill the free list")
		for i := 0; i < 5100; i++ {
			nodes = append(nodes, &handNode{n: xmp.NewNode(xml.Name{Local: "sim:x"})})
		}
		for _, h := range nodes {
			h.n.Value = "stale"
			h.n.Attr = append(h.n.Attr, xmp.Attr{Name: xml.Name{Local: "sim:s"}, Value: "stale"})
		}
		for _, h := range nodes {
			h.n.Close()
		}
		nodes = nil
	}
	open()
	check("load-")
	n := 4 + r.Small(16)
	if r.thorough {
		n = 4 + r.Small(40)
	}
	for i := 0; i < n; i++ {
		k := r.N(16)
		if len(docs) == 0 {
			k = 0
		}
		var a *mdoc
		if len(docs) > 0 {
			a = docs[r.N(len(docs))]
		}
		switch {
		case k < 3:
			if len(docs) < 6 {
				open()
				check("load-")
			}
		case k < 6:
			closeDoc(r.N(len(docs)))
			check("close-")
		case k == 6:
			if len(closed) > 0 {
				r.Logf("close again")
				closed[r.N(len(closed))].Close()
				r.Count("closes.repeated", 1)
				check("close-again-")
			}
		case k == 7 || k == 8: // failing loads
			r.failLoad(a, gen)
			check("failed-load-")
		case k == 9:
			for j, m := 0, 1+r.N(3); j < m; j++ {
				r.editSome(a.d, &a.props)
				note(a)
			}
			check("edit-")
		case k == 10:
			if b := docs[r.N(len(docs))]; b != a && compatible(a.props, b.props) {
				r.merge(a, b)
				check("merge-")
			}
		case k == 11:
			h := &nsHist{props: a.props, gone: map[string]bool{}, removed: map[string]string{}}
			r.Logf("removal from %s", a.name)
			nt := r.nontrivial
			r.removeSome(a.d, h)
			r.nontrivial = nt
			a.props = h.props
			a.loose = true
			check("removal-")
		case k == 12: // failing saves
			x, _, err := (&SaveOpt{}).save(a.d, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode: %v", err)
			}
			if r.N(3) == 2 {
				o := &SaveOpt{max: int64(1 + r.N(len(x)))}
				_, _, err = o.save(a.d, &WritePlan{})
				r.Logf("save of %s with limit %d: %v", a.name, o.max, err)
			} else {
				p := r.writePlan(len(x))
				_, w, err := (&SaveOpt{}).save(a.d, p)
				r.Logf("save of %s to destination with %v: %v", a.name, p, err)
				if w.fired > 0 && err == nil {
					r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
				}
			}
			check("failed-save-")
		case k == 13:
			switch {
			case len(nodes) > 0 && r.N(2) == 1:
				j := r.N(len(nodes))
				nodes[j].n.Close()
				nodes = append(nodes[:j:j], nodes[j+1:]...)
				r.Logf("close node")
			default:
				nodes = append(nodes, r.handMade())
				r.Logf("make node")
			}
			check("node-")
		default:
			var isJSON bool
			a.durable = r.ackSave(a.d, a.props, &a.loose, r.N(3) == 2, &isJSON)
			a.durJSON, a.durProp = isJSON, cloneProps(a.props)
			check("save-")
			if r.N(2) == 1 {
				r.Logf("second document from the data of %s", a.name)
				m := &mdoc{name: string(rune('A' + names)), props: cloneProps(a.props), durProp: a.durProp, durable: a.durable, durJSON: isJSON, loose: true}
				names++
				m.d = loadBytes(r, m.durable, isJSON)
				if len(closed) > 0 {
					r.nontrivial = true
				}
				docs = append(docs, m)
				check("load-")
				if r.N(2) == 1 {
					closeDoc(r.N(len(docs)))
					check("close-")
				}
			}
		}
	}
	for _, m := range docs {
		m.durable = r.ackSave(m.d, m.props, &m.loose, r.N(3) == 2, &m.durJSON)
		m.durProp = cloneProps(m.props)
	}
	for len(docs) > 1 {
		m := docs[0]
		closeDoc(0)
		check("close-")
		// what was saved before is still good
		m.reopen(r)
		if v := try(func() { checkDoc(r, m.d, m.props, "reload-") }); v != nil {
			r.Fail(v.class, "document %s: %s", m.name, v.msg)
		}
	}
	reinit()
}

// failLoad loads damaged or incomplete data, into a new or an open document.
func (r *R) failLoad(a *mdoc, gen func(int) []Prop) {
	props := gen(1 + r.Small(10))
	data := writePacket(props, r.style(), true, false)
	asJSON := r.N(4) == 3
	if asJSON {
		d := &xmp.Document{}
		if err := xmp.Unmarshal(data, d); err != nil {
			r.Fail("load-error", "Unmarshal: %v", err)
		}
		j, err := json.Marshal(d)
		if err != nil {
			r.Fail("save-error", "json.Marshal: %v", err)
		}
		data = j
		d.Close()
	}
	kind := ""
	switch r.N(3) {
	case 0:
		data = data[:r.cutPoint(data, len(data))]
		kind = "truncated"
		r.Fault("read.truncated")
	case 1:
		kind = "bad value"
		r.Fault("damage.values")
		bad := []string{
			`<rdf:Description xmlns:tiff="http://ns.adobe.com/tiff/1.0/" rdf:about="" tiff:ImageWidth="12x"/>`,
			`<rdf:Description xmlns:xmp="http://ns.adobe.com/xap/1.0/" rdf:about=""><xmp:CreateDate>yesterday</xmp:CreateDate></rdf:Description>`,
			`<rdf:Description xmlns:dc="http://purl.org/dc/elements/1.1/" rdf:about=""><dc:subject>plain</dc:subject><dc:title><rdf:Bag><rdf:li>x</rdf:li></rdf:Bag></dc:title></rdf:Description>`,
			`<rdf:Description xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" xmlns:stEvt="http://ns.adobe.com/xap/1.0/sType/ResourceEvent#" rdf:about=""><xmpMM:History><rdf:Seq><rdf:li stEvt:when="never"/></rdf:Seq></xmpMM:History></rdf:Description>`,
		}
		if asJSON {
			data = bytes.Replace(data, []byte(`"models":{`), []byte(`"models":{"tiff":{"tiff:ImageWidth":"12x","tiff:New":["a",{"tiff:b":"c"}]},`), 1)
			data = bytes.Replace(data, []byte(`"namespaces":{`), []byte(`"namespaces":{"tiff":"http://ns.adobe.com/tiff/1.0/",`), 1)
		} else {
			at := bytes.LastIndex(data, []byte("</"))
			if i := bytes.LastIndex(data[:at], []byte("</")); i > 0 {
				at = i
			}
			// before the end of rdf:RDF, whatever its prefix
			x := bytes.Replace([]byte(pick(r.Src, bad)), []byte("rdf:"), []byte("rdfq:"), -1)
			x = bytes.Replace(x, []byte("<rdfq:Description"), []byte(`<rdfq:Description xmlns:rdfq="http://www.w3.org/1999/02/22-rdf-syntax-ns#"`), 1)
			data = append(append(append([]byte(nil), data[:at]...), x...), data[at:]...)
		}
	default:
		kind = "damaged"
		r.Fault("damage.bytes")
		data = append([]byte(nil), data...)
		for j, m := 0, 1+r.N(4); j < m; j++ {
			data[r.N(len(data))] = pick(r.Src, []byte("<>\"'&/ x:={}[],0\x00\xff"))
		}
	}
	d := &xmp.Document{}
	var err error
	switch how := r.N(3); {
	case asJSON:
		err = json.Unmarshal(data, d)
	case how == 0:
		err = xmp.Unmarshal(data, d)
	case how == 1:
		var x *xmp.Document
		x, err = xmp.Read(newReader(r.readPlan(nil), data))
		if x != nil {
			d = x
		}
	default:
		err = xmp.NewDecoder(newReader(r.readPlan(nil), data)).Decode(d)
	}
	r.Logf("load of %s data (JSON: %v): %v", kind, asJSON, err)
	r.Count("loads.failing", 1)
	if err != nil {
		r.Count("loads.failed", 1)
	}
	if err == nil || r.N(2) == 1 {
		d.Close()
	}
}

// compatible: common properties have the same structure.
func compatible(a, b []Prop) bool {
	for _, l := range [][]Prop{a, b} {
		for i := range l {
			if preset(&l[i]) {
				return false
			}
		}
	}
	for i := range a {
		for j := range b {
			if a[i].NS == b[j].NS && a[i].Name == b[j].Name && !sameShape(&a[i].V, &b[j].V) {
				return false
			}
		}
	}
	return true
}

func sameShape(a, b *Val) bool {
	if a.Kind != b.Kind || !compatible(a.Fields, b.Fields) {
		return false
	}
	for i := range a.Items {
		for j := range b.Items {
			if !sameShape(&a.Items[i], &b.Items[j]) {
				return false
			}
		}
	}
	return true
}
