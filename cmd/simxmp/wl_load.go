package main

// C07: reading yields every property, however the bytes arrive.

import (
	"fmt"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func init() {
	register(&Workload{Prop: "C07", Run: runC07, Quick: 25000,
		Rule: "one run = one generated document (known models, unknown namespaces, random serialisation, prefixes and nesting) loaded through up to three simulated deliveries; non-trivial when it has at least two properties",
		Real: "xmp.Read/Scan/Unmarshal, all models, encoding/xml", Stub: "io.Reader (simulated delivery)"})
}

// packetMarks are offsets near which cuts are interesting.
func packetMarks(b []byte) []int {
	var l []int
	for i, c := range b {
		if c == '<' || c == '&' || c >= 0x80 {
			l = append(l, i+1)
		}
	}
	return l
}

func runC07(r *R) {
	loadData()
	r.mapOrder()
	props := r.genProps(&GenOpt{N: 1 + r.Small(24), Unknown: pick(r.Src, []int{0, 1, 2, 8}), InKnown: true, SameLang: true, Skip: noPath})
	st := r.style()
	wrapPacket := r.N(2) == 1
	wrapMeta := r.N(2) == 0
	b := writePacket(props, st, wrapMeta, wrapPacket)
	want := wantListing(props)
	r.Logf("document of %d properties, %d bytes: %s", len(props), len(b), describe(props))
	if r.tracing {
		r.Logf("xml %s", clip2(string(b), 3000))
	}
	if len(props) > 1 {
		r.nontrivial = true
	}
	marks := packetMarks(b)
	n := 1 + r.N(3)
	for i := 0; i < n; i++ {
		var d *xmp.Document
		var err error
		how := ""
		switch k := r.N(4); {
		case k == 0:
			d = &xmp.Document{}
			err = xmp.Unmarshal(append([]byte(nil), b...), d)
			how = "Unmarshal"
		case k == 1 && wrapPacket:
			p := r.readPlan(marks)
			d, err = xmp.Scan(newReader(p, append(append([]byte("junk <?x"), b...), " junk"...)))
			how = "Scan, " + p.String()
		default:
			p := r.readPlan(marks)
			d, err = xmp.Read(newReader(p, b))
			how = "Read, " + p.String()
		}
		r.Logf("%s: %v", how, err)
		if err != nil {
			r.Fail("load-error", "%s: %v", how, err)
		}
		got, bad, err := listing(d)
		if err != nil {
			r.Fail("list-error", "%s: ListPaths: %v", how, err)
		}
		if len(bad) > 0 {
			r.Fail("unknown-prefix", "listed path with a prefix that is not a namespace of the document: %v", bad)
		}
		cmpListing(r, want, got, "")
		r.checkGet(d, got)
		if i < n-1 && r.N(2) == 0 {
			d.Close()
		}
	}
}

// checkGet reads every listed path.
func (r *R) checkGet(d *xmp.Document, lst map[string]string) {
	pv, err := d.ListPaths()
	if err != nil {
		r.Fail("list-error", "second ListPaths: %v", err)
	}
	for _, p := range pv {
		if k, ok := expandPath(d, string(p.Path)); ok && lst != nil {
			if _, ok := lst[k]; !ok {
				continue
			}
		}
		v, err := d.GetPath(p.Path)
		if err != nil {
			r.Fail("get-error", "GetPath(%s): %v (listed as %q)", p.Path, err, clip(p.Value))
		}
		if v != p.Value {
			r.Fail("get-differs", "GetPath(%s) = %q but the listing says %q", p.Path, clip(v), clip(p.Value))
		}
	}
}

// cmpListing compares an expected listing with an actual one.
func cmpListing(r *R, want, got map[string]string, pre string) {
	w := Leaves(want)
	has := hasBase(want)
	for _, k := range sortedKeys(w) {
		g, ok := got[k]
		if !ok && inventedDefault(k, want) {
			continue // kept as the default mark of the equal language
		}
		if (!ok || g != want[k]) && mirrored(k, has) {
			continue
		}
		if !ok {
			r.Fail(pre+"lost", "lost %s = %q%s", shortURI(k), clip(want[k]), near(k, got))
		}
		if g != want[k] {
			r.Fail(pre+"changed", "%s is %q instead of %q", shortURI(k), clip(g), clip(want[k]))
		}
	}
	for _, k := range sortedKeys(Leaves(got)) {
		if _, ok := want[k]; !ok && !alwaysWritten(k, got[k]) && !inventedDefault(k, got) && !related(k, r.orHad(has)) {
			r.Fail(pre+"invented", "%s = %q is not in the document", shortURI(k), clip(got[k]))
		}
	}
}

func near(k string, got map[string]string) string {
	base := k
	if i := strings.IndexAny(base, "[/"); i > 0 {
		base = base[:i]
	}
	if i := strings.Index(k, "}"); i > 0 {
		if j := strings.IndexAny(k[i:], "[/"); j > 0 {
			base = k[:i+j]
		} else {
			base = k
		}
	}
	s := ""
	for _, g := range sortedKeys(Leaves(got)) {
		if strings.HasPrefix(g, base) {
			s += fmt.Sprintf("; there is %s = %q", shortURI(g), clip(got[g]))
		}
		if len(s) > 300 {
			break
		}
	}
	return s
}

// inventedDefault: the library adds an x-default item to alternatives without one.
func inventedDefault(k string, got map[string]string) bool {
	if !strings.HasSuffix(k, "[x-default]") {
		return false
	}
	base := strings.TrimSuffix(k, "[x-default]")
	for g, v := range got {
		if g != k && strings.HasPrefix(g, base+"[") && v == got[k] {
			return true
		}
	}
	return false
}
