package main

// C08, C10, C11, C12: faults of streams and destinations.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"

	"verif.local/sim/simrt"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C08", Run: runC08, Quick: 30000,
		Rule: "one run = one generated document whose XMP or JSON bytes are cut or fail at several seeded positions, delivered through simulated readers; non-trivial when at least one load failed as it must",
		Real: "xmp.Read/Scan/ScanPackets/Unmarshal/NewDecoder.Decode, Document.UnmarshalJSON, encoding/xml, encoding/json, bufio", Stub: "io.Reader (simulated delivery and faults)"})
	register(&Workload{Prop: "C10", Run: runC10, Quick: 30000,
		Rule: "one run = one generated document saved with a seeded layout to a healthy and to several faulty destinations; non-trivial when at least one fault was delivered",
		Real: "xmp.Encoder (header, body, padding, footer, size limit), encoding/xml", Stub: "io.Writer (simulated destination)"})
	register(&Workload{Prop: "C11", Run: runC11, Quick: 30000,
		Rule: "one run = one generated document saved with a seeded layout under several size limits around interesting sizes; non-trivial when both an overflow and a success occurred",
		Real: "xmp.Encoder (size limit, padding)", Stub: "io.Writer (simulated destination)"})
	register(&Workload{Prop: "C12", Run: runC12, Quick: 20000,
		Rule: "one run = one history of edits and saves applied to a document and to an undisturbed twin; failed saves (destination, size limit, a model that refuses) hit the first only; non-trivial when at least one save failed",
		Real: "xmp.Encoder, Document.MarshalJSON, ListPaths, SetPath, all models", Stub: "io.Writer (simulated destination); one harness model that fails on request"})
}

// mapOrder draws the iteration order of hash maps for the rest of the run.
func (r *R) mapOrder() {
	switch k := r.N(4); k {
	case 0, 1:
		simrt.SetMapOrder(uint64(k))
	default:
		simrt.SetMapOrder(2 + uint64(r.N(1<<30)))
	}
}

type genDoc struct {
	props []Prop
	want  map[string]string
	xml   []byte
}

// smallDoc makes a document and its bytes.
func (r *R) smallDoc(n int, wrapPacket bool) *genDoc {
	g := &genDoc{}
	g.props = r.genProps(&GenOpt{InKnown: true, N: 1 + r.Small(n), Unknown: pick(r.Src, []int{0, 1, 2, 8}), NoMirror: true, Skip: noPath})
	for len(g.props) == 0 {
		g.props = r.genProps(&GenOpt{N: 1, Unknown: 8})
	}
	g.want = wantListing(g.props)
	g.xml = writePacket(g.props, r.style(), r.N(2) == 0, wrapPacket)
	return g
}

// xmlEnd is the length of the data up to the end tag of the root element.
func xmlEnd(b []byte) int {
	for _, t := range []string{"xmpmeta>", "RDF>"} {
		if i := bytes.LastIndex(b, []byte(t)); i >= 0 {
			return i + len(t)
		}
	}
	return len(b)
}

// cutPoint draws a position in [0,n).
func (r *R) cutPoint(b []byte, n int) int {
	if n <= 1 {
		return 0
	}
	switch r.N(5) {
	case 0:
		return r.N(n)
	case 1:
		return r.N(min(n, 100))
	case 2:
		return n - 1 - r.N(min(n, 100))
	default: // next to markup
		i := r.N(n)
		for k := 0; k < 200 && i+k < n; k++ {
			switch b[i+k] {
			case '<', '>', '{', '}', '[', ']', '"', ',', '&':
				return i + k
			}
		}
		return i
	}
}

func content(r *R, d *xmp.Document) string {
	defer simrt.SetMapOrder(simrt.SetMapOrder(0))
	b, err := xmp.Marshal(d)
	if err != nil {
		r.Fail("save-error", "Marshal: %v", err)
	}
	return string(b)
}

func runC08(r *R) {
	loadData()
	r.mapOrder()
	g := r.smallDoc(12, r.N(2) == 1)
	r.Logf("document: %s", describe(g.props))
	useJSON := r.N(3) == 2
	data := g.xml
	// another document that must not be affected
	og := r.smallDoc(6, false)
	other := &xmp.Document{}
	if err := xmp.Unmarshal(og.xml, other); err != nil {
		r.Fail("load-error", "Unmarshal: %v", err)
	}
	before := content(r, other)
	isPacket := bytes.HasPrefix(data, []byte("<?xpacket"))
	if useJSON {
		d := &xmp.Document{}
		if err := xmp.Unmarshal(data, d); err != nil {
			r.Fail("load-error", "Unmarshal: %v", err)
		}
		j, err := json.Marshal(d)
		if err != nil {
			r.Fail("save-error", "json.Marshal: %v", err)
		}
		data = j
		isPacket = false
	}
	n := 2 + r.N(5)
	for i := 0; i < n; i++ {
		end := len(data)
		how := r.N(6)
		if useJSON {
			how = 6 + how%3
		} else if how == 0 && isPacket {
			end = len(data)
		} else {
			end = xmlEnd(data)
		}
		cut := r.cutPoint(data, end)
		p := r.readPlan(packetMarks(data[:cut]))
		kind := "truncated"
		if r.N(2) == 1 {
			p.err = r.readErr()
			kind = "error " + p.err.Error()
			if r.N(3) == 2 && how != 8 { // json.Decoder itself retries
				p.rest = data[cut:]
				kind = "one-off " + kind
				r.Fault("read.error-once")
			}
		} else {
			r.Fault("read.truncated")
		}
		part := data[:cut:cut]
		var d *xmp.Document
		var err error
		what := ""
		switch {
		case how == 0 && isPacket:
			what = "Scan"
			d, err = xmp.Scan(newReader(p, append([]byte("junk <?"), part...)))
		case how == 1 && isPacket:
			what = "ScanPackets"
			pp, e := xmp.ScanPackets(newReader(p, part))
			err = e
			if len(pp) > 0 && p.rest == nil {
				r.Fail("packet-of-failed-stream", "ScanPackets, %s at %d of %d: %d packets", kind, cut, len(data), len(pp))
			}
			if e == nil {
				r.Fail("failure-unreported", "ScanPackets, %s at %d of %d: no error", kind, cut, len(data))
			}
		case how == 2:
			what = "Unmarshal"
			kind = "truncated"
			x := &xmp.Document{}
			if err = xmp.Unmarshal(append([]byte(nil), part...), x); err == nil {
				d = x
			}
			leftEmpty(r, x, err, what)
		case how == 3:
			what = "Decode"
			x := &xmp.Document{}
			if err = xmp.NewDecoder(newReader(p, part)).Decode(x); err == nil {
				d = x
			}
			leftEmpty(r, x, err, what)
		case how == 6:
			what = "json.Unmarshal"
			x := &xmp.Document{}
			if err = json.Unmarshal(append([]byte(nil), part...), x); err == nil {
				d = x
			}
			leftEmpty(r, x, err, what)
		case how == 7:
			what = "UnmarshalJSON"
			x := &xmp.Document{}
			if err = x.UnmarshalJSON(append([]byte(nil), part...)); err == nil {
				d = x
			}
			leftEmpty(r, x, err, what)
		case how == 8:
			what = "json.Decoder"
			x := &xmp.Document{}
			if err = json.NewDecoder(newReader(p, part)).Decode(x); err == nil {
				d = x
			}
			leftEmpty(r, x, err, what)
		default:
			what = "Read"
			d, err = xmp.Read(newReader(p, part))
		}
		r.Logf("%s, %v, %s at %d of %d: %v", what, p, kind, cut, end, err)
		if err == nil {
			r.Fail("failure-unreported", "%s, %s at %d of %d (%q): no error", what, kind, cut, len(data), clip(tail(part, 40)))
		}
		if d != nil {
			r.Fail("document-of-failed-load", "%s, %s at %d of %d: returned a document together with %v", what, kind, cut, len(data), err)
		}
		r.nontrivial = true
		if c := content(r, other); c != before {
			r.Fail("other-document", "a failed load changed another document: %s", firstDiff(before, c))
		}
		if r.N(2) == 1 || i == n-1 { // healthy stream afterwards
			var d *xmp.Document
			if useJSON {
				d = &xmp.Document{}
				err = json.Unmarshal(data, d)
			} else {
				p := r.readPlan(packetMarks(data))
				d, err = xmp.Read(newReader(p, data))
			}
			if err != nil {
				r.Fail("load-error", "healthy load after a failed one: %v", err)
			}
			checkDoc(r, d, g.props, "healthy-")
			if r.N(2) == 1 {
				d.Close()
			}
		}
	}
	checkDoc(r, other, og.props, "other-")
}

// leftEmpty: the document given to a failed load has no content.
func leftEmpty(r *R, d *xmp.Document, err error, what string) {
	if err == nil {
		return
	}
	l, e := d.ListPaths()
	if e != nil {
		r.Fail("list-error", "%s failed, then ListPaths: %v", what, e)
	}
	if len(l) > 0 {
		r.Fail("partial-document", "%s failed (%v) but left %d properties in the document, e.g. %s=%q", what, err, len(l), l[0].Path, clip(l[0].Value))
	}
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func firstDiff(a, b string) string {
	n := min(len(a), len(b))
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	lo := max(0, i-30)
	return fmt.Sprintf("lengths %d and %d, at %d %q versus %q", len(a), len(b), i, a[lo:min(len(a), i+40)], b[lo:min(len(b), i+40)])
}

// ---- destinations ---------------------------------------------------------------

func runC10(r *R) {
	loadData()
	g := r.smallDoc(pick(r.Src, []int{4, 12, 40}), false)
	d := &xmp.Document{}
	if err := xmp.Unmarshal(g.xml, d); err != nil {
		r.Fail("load-error", "Unmarshal: %v", err)
	}
	r.Logf("document: %s", describe(g.props))
	n := 1 + r.N(4)
	for i := 0; i < n; i++ {
		if r.N(3) == 2 {
			editOne(r, d, g.props)
		}
		o := r.saveOpt()
		free := &SaveOpt{flags: o.flags &^ xmp.Xpadding, prefix: o.prefix, indent: o.indent}
		full, _, err := free.save(d, &WritePlan{})
		if err != nil {
			r.Fail("save-error", "Encode %+v: %v", *o, err)
		}
		switch r.N(4) {
		case 1:
			o.max = int64(len(full) + r.Small(9000))
		case 2:
			o.max = int64(1 + r.N(len(full)+200))
		case 3:
			o.max = int64(len(full) + r.Small(20))
		}
		healthy, _, herr := o.save(d, &WritePlan{})
		r.Logf("layout %+v: %d bytes, %v", *o, len(healthy), herr)
		if herr != nil && (o.max == 0 || o.max >= int64(len(full))) {
			r.Fail("save-error", "Encode %+v to a healthy destination: %v", *o, herr)
		}
		if len(healthy) == 0 {
			continue
		}
		for j, m := 0, 1+r.N(3); j < m; j++ {
			p := r.writePlan(len(healthy))
			got, w, err := o.save(d, p)
			r.Logf("destination with %v: %d bytes, fired %d, %v", p, len(got), w.fired, err)
			if w.fired > 0 {
				r.nontrivial = true
				if err == nil {
					r.Fail("unreported:"+writeKinds[p.kind], "layout %+v, destination with %v: %d of %d bytes arrived, the save reported success", *o, p, len(got), len(healthy))
				}
			}
			if w.after {
				r.Fail("write-after-fault:"+writeKinds[p.kind], "layout %+v, destination with %v: the save continued after the failed write", *o, p)
			}
			if !bytes.HasPrefix(healthy, got) {
				r.Fail("not-a-prefix", "layout %+v, destination with %v: %s", *o, p, firstDiff(string(healthy), string(got)))
			}
			if err == nil && len(got) != len(healthy) {
				r.Fail("incomplete", "layout %+v, destination with %v: success reported, %d of %d bytes arrived", *o, p, len(got), len(healthy))
			}
			if (err == nil) != (herr == nil) && w.fired == 0 {
				r.Fail("spurious-error", "layout %+v, destination with %v: no fault was delivered but the save reports %v", *o, p, err)
			}
		}
	}
}

func runC11(r *R) {
	loadData()
	g := r.smallDoc(pick(r.Src, []int{3, 12, 40}), false)
	d := &xmp.Document{}
	if err := xmp.Unmarshal(g.xml, d); err != nil {
		r.Fail("load-error", "Unmarshal: %v", err)
	}
	r.Logf("document: %s", describe(g.props))
	over, ok := false, false
	for i, n := 0, 1+r.N(3); i < n; i++ {
		if r.N(4) == 3 {
			editOne(r, d, g.props)
		}
		o := r.saveOpt()
		free := &SaveOpt{flags: o.flags &^ xmp.Xpadding, prefix: o.prefix, indent: o.indent}
		full, fw, err := free.save(d, &WritePlan{})
		if err != nil {
			r.Fail("save-error", "Encode %+v: %v", *o, err)
		}
		if o.flags&xmp.Xpadding != 0 && r.N(4) == 3 { // padding needs a limit
			got, _, err := o.save(d, &WritePlan{})
			if err != nil || !bytes.Equal(got, full) {
				r.Fail("padding-without-limit", "Encode %+v: %v, %s", *o, err, firstDiff(string(full), string(got)))
			}
		}
		F := len(full)
		for j, m := 0, 2+r.N(6); j < m; j++ {
			L := F
			switch r.N(6) {
			case 1:
				L = F + r.N(130) - 60
			case 2:
				L = 1 + r.N(F)
			case 3:
				L = F + r.N(9000)
			case 4: // boundaries between writes
				L = 0
				for k := 0; k <= r.N(len(fw.sizes)); k++ {
					L += fw.sizes[k]
				}
				L += r.N(3) - 1
			case 5:
				L = (1+r.N(1+F/4096))*4096 + r.N(3) - 1
			}
			if L < 1 {
				L = 1
			}
			o.max = int64(L)
			p := &WritePlan{}
			faulty := r.N(6) == 5
			if faulty {
				p = r.writePlan(min(L, F))
			}
			got, w, err := o.save(d, p)
			r.Logf("layout %+v, full size %d, destination %v: %d bytes, %v", *o, F, p, len(got), err)
			if len(got) > L {
				r.Fail("limit-exceeded", "layout %+v: %d bytes delivered, limit %d", *o, len(got), L)
			}
			if w.fired > 0 {
				if err == nil {
					r.Fail("unreported:"+writeKinds[p.kind], "layout %+v, destination with %v: success reported", *o, p)
				}
				continue
			}
			if F > L {
				over = true
				if err == nil {
					r.Fail("overflow-unreported", "layout %+v: output has %d bytes, limit %d, success reported with %d bytes", *o, F, L, len(got))
				}
				if !errors.Is(err, xmp.ErrOverflow) {
					r.Fail("overflow-error", "layout %+v: output has %d bytes, limit %d: error is %v instead of ErrOverflow", *o, F, L, err)
				}
				if !bytes.HasPrefix(full, got) && o.flags&xmp.Xpadding == 0 {
					r.Fail("not-a-prefix", "layout %+v: %s", *o, firstDiff(string(full), string(got)))
				}
				continue
			}
			ok = true
			if err != nil {
				r.Fail("refused", "layout %+v: output of %d bytes fits into limit %d but the save reports %v", *o, F, L, err)
			}
			if o.flags&xmp.Xpadding == 0 || o.flags&xmp.Xpacket == 0 {
				if !bytes.Equal(got, full) {
					r.Fail("output-differs", "layout %+v: output with limit %d differs from output without: %s", *o, L, firstDiff(string(full), string(got)))
				}
				continue
			}
			if len(got) != L {
				r.Fail("padded-length", "layout %+v: padded packet has %d bytes, limit %d", *o, len(got), L)
			}
			const foot = `<?xpacket end="w"?>`
			fi := bytes.LastIndex(full, []byte(foot))
			gi := bytes.LastIndex(got, []byte(foot))
			if fi < 0 || gi < 0 || !bytes.HasPrefix(got, bytes.TrimRight(full[:fi], " \n")) || len(bytes.TrimSpace(got[gi+len(foot):])) > 0 {
				r.Fail("padded-form", "layout %+v: %s", *o, firstDiff(string(full), string(got)))
			}
			if pad := got[len(bytes.TrimRight(full[:fi], " \n")):gi]; len(bytes.Trim(pad, " \n")) > 0 {
				r.Fail("padded-form", "layout %+v: padding contains %q", *o, clip(string(bytes.Trim(pad, " \n"))))
			}
			if j == 0 {
				x, err := xmp.Scan(bytes.NewReader(got))
				if err != nil {
					r.Fail("padded-load", "Scan of a padded packet: %v", err)
				}
				checkDoc(r, x, g.props, "padded-")
			}
		}
	}
	r.nontrivial = over && ok
}

// ---- failing models -----------------------------------------------------------------

const failURI = "http://sim.example/fail/"

type failText string

func (t failText) MarshalText() ([]byte, error) {
	if failMode == 2 && failArmed {
		return nil, errModel
	}
	return []byte(t), nil
}

func (t *failText) UnmarshalText(b []byte) error { *t = failText(b); return nil }

type failModel struct {
	A string   `xmp:"simfail:A"`
	L failText `xmp:"simfail:L"`
	Z string   `xmp:"simfail:Z"`
}

var (
	errModel  = errors.New("simulated model failure")
	failArmed bool
	failMode  int
	failNS    = &xmp.Namespace{Name: "simfail", URI: failURI, Factory: func(string) xmp.Model { return &failModel{} }}
)

func (m *failModel) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{failNS} }
func (m *failModel) Can(n string) bool                 { return n == "simfail" }
func (m *failModel) SyncModel(d *xmp.Document) error   { return nil }
func (m *failModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (m *failModel) CanTag(tag string) bool            { return false }
func (m *failModel) GetTag(tag string) (string, error) { return "", nil }
func (m *failModel) SetTag(tag, value string) error    { return nil }
func (m *failModel) SyncToXMP(d *xmp.Document) error {
	if failArmed && failMode == 1 {
		return errModel
	}
	return nil
}

func runC12(r *R) {
	loadData()
	failArmed = false
	xmp.Register(failNS)
	g := r.smallDoc(12, false)
	if r.N(2) == 1 {
		k := r.N(len(g.props) + 1)
		t := func() Val { return Val{Kind: KText, Text: r.text(), Free: true} }
		f := []Prop{{failURI, "L", t()}, {failURI, "A", t()}}
		g.props = append(g.props[:k:k], append(f, g.props[k:]...)...)
		g.xml = writePacket(g.props, r.style(), true, false)
	}
	hasFail := hasBase(canonLeaves(g.props, false))("{" + failURI + "}L")
	r.Logf("document: %s", describe(g.props))
	load := func(b []byte) *xmp.Document {
		d := &xmp.Document{}
		if err := xmp.Unmarshal(b, d); err != nil {
			r.Fail("load-error", "Unmarshal: %v", err)
		}
		return d
	}
	d, twin := load(g.xml), load(g.xml)
	og := r.smallDoc(5, false)
	other := load(og.xml)
	before := content(r, other)
	twinSaves := r.N(2) == 1 // the twin saves at the same points, successfully
	r.Logf("twin saves: %v", twinSaves)
	props := g.props
	n := 2 + r.Small(8)
	failed := 0
	for i := 0; i < n; i++ {
		switch k := r.N(6); {
		case k == 0: // edit both
			for j, m := 0, 1+r.N(3); j < m; j++ {
				l := editable(props)
				if len(l) == 0 {
					break
				}
				key, v := pick(r.Src, l), r.text()
				fl := pick(r.Src, []xmp.SyncFlags{xmp.REPLACE, xmp.REPLACE | xmp.CREATE})
				r.Logf("set %s = %q", shortURI(key), clip(v))
				for _, x := range []*xmp.Document{d, twin} {
					p, ok := rawPaths(r, x)[key]
					if !ok {
						continue
					}
					if err := x.SetPath(xmp.PathValue{Path: p, Value: v, Flags: fl}); err != nil {
						r.Fail("edit-refused", "SetPath(%s): %v", p, err)
					}
				}
				leafRefs(props)[key].Text = v
			}
		case k == 1: // add to both
			nm, v := r.Unique("New"), r.text()
			r.Logf("add ue:%s = %q", nm, clip(v))
			for _, x := range []*xmp.Document{d, twin} {
				if err := x.SetPath(xmp.PathValue{Path: xmp.Path("ue:" + nm), Namespace: unkURI(4), Value: v, Flags: xmp.CREATE}); err != nil {
					r.Fail("edit-refused", "SetPath(%s): %v", nm, err)
				}
			}
			props = append(props, Prop{unkURI(4), nm, Val{Kind: KText, Text: v, Free: true}})
		default: // failed save of d
			o := r.saveOpt()
			mode := r.N(4)
			if !hasFail && mode >= 2 {
				mode -= 2
			}
			var err error
			what := ""
			switch mode {
			case 0:
				p := r.writePlan(1 + r.Small(len(g.xml)+1500))
				var w *simWriter
				_, w, err = o.save(d, p)
				what = fmt.Sprintf("destination with %v", p)
				if w.fired == 0 {
					what = "no fault delivered"
				} else if err == nil {
					r.Fail("unreported", "layout %+v, %s: success reported", *o, what)
				}
			case 1:
				o.max = int64(1 + r.Small(len(g.xml)))
				_, _, err = o.save(d, &WritePlan{})
				what = fmt.Sprintf("limit %d", o.max)
				r.Fault("save.limit")
			default:
				failArmed, failMode = true, mode-1
				op := r.N(3)
				switch op {
				case 0:
					_, err = json.Marshal(d)
				case 1:
					_, err = d.ListPaths()
				default:
					_, _, err = o.save(d, &WritePlan{})
				}
				failArmed = false
				what = fmt.Sprintf("model failure %d in operation %d", failMode, op)
				r.Fault([]string{"model.sync", "model.marshal"}[failMode-1])
			}
			if err != nil {
				failed++
			}
			r.Logf("failing save %+v, %s: %v", *o, what, err)
			if twinSaves {
				if _, _, err := (&SaveOpt{}).save(twin, &WritePlan{}); err != nil {
					r.Fail("save-error", "Encode of the twin: %v", err)
				}
			}
			if r.N(2) == 1 {
				r.compareTwins(d, twin)
			}
			if c := content(r, other); c != before {
				r.Fail("other-document", "a failed save changed another document: %s", firstDiff(before, c))
			}
		}
	}
	r.compareTwins(d, twin)
	checkDoc(r, d, props, "")
	x, _, err := (&SaveOpt{}).save(d, &WritePlan{})
	if err != nil {
		r.Fail("save-error", "Encode: %v", err)
	}
	q, err := refParse(x)
	if err != nil {
		r.Fail("unreadable", "saved data: %v", err)
	}
	cmpStored(r, props, q, false, "stored-")
	r.nontrivial = failed > 0
}

// compareTwins saves both documents and compares the outputs.
func (r *R) compareTwins(d, twin *xmp.Document) {
	order := r.N(3)
	do := func(k int) {
		switch k {
		case 0:
			o := r.saveOpt()
			a, _, err := o.save(d, &WritePlan{})
			if err != nil {
				r.Fail("retry-failed", "save after a failed save: %v", err)
			}
			b, _, err := o.save(twin, &WritePlan{})
			if err != nil {
				r.Fail("save-error", "Encode of the twin: %v", err)
			}
			if !bytes.Equal(a, b) && !sameXMP(r, a, b) {
				r.Fail("retry-differs", "save after a failed save (first) differs from the save of a document without failure (second): %s", firstDiff(string(a), string(b)))
			}
		case 1:
			a, err := json.Marshal(d)
			if err != nil {
				r.Fail("retry-failed", "JSON save after a failed save: %v", err)
			}
			b, err := json.Marshal(twin)
			if err != nil {
				r.Fail("save-error", "JSON save of the twin: %v", err)
			}
			if !bytes.Equal(a, b) && !sameJSON(r, a, b) {
				r.Fail("retry-differs-json", "JSON save after a failed save (first) differs from the save of a document without failure (second): %s", firstDiff(string(a), string(b)))
			}
		case 2:
			a, _, err := listing(d)
			if err != nil {
				r.Fail("retry-failed", "ListPaths after a failed save: %v", err)
			}
			b, _, err := listing(twin)
			if err != nil {
				r.Fail("list-error", "ListPaths of the twin: %v", err)
			}
			if x := diffLeaves(b, a); x != "" {
				r.Fail("listing-differs", "after a failed save: %s", shortURI(x))
			}
		}
	}
	for i := 0; i < 3; i++ {
		do((order + i) % 3)
	}
}

// sameXMP: two saves have the same content, in possibly different order of
// top-level properties.
func sameXMP(r *R, a, b []byte) bool {
	p, err := refParse(a)
	if err != nil {
		r.Fail("unreadable", "saved data: %v", err)
	}
	q, err := refParse(b)
	if err != nil {
		r.Fail("unreadable", "saved data: %v", err)
	}
	return len(a) == len(b) && reflect.DeepEqual(canonLeaves(p, false), canonLeaves(q, false))
}

func sameJSON(r *R, a, b []byte) bool {
	var x, y interface{}
	if err := json.Unmarshal(a, &x); err != nil {
		r.Fail("unreadable", "saved data: %v", err)
	}
	if err := json.Unmarshal(b, &y); err != nil {
		r.Fail("unreadable", "saved data: %v", err)
	}
	return reflect.DeepEqual(x, y)
}
