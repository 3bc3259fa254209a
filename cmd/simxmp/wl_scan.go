package main

// C06: scanning finds exactly the embedded packets.

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/trimmer-io/go-xmp/xmp"
)

const xpMagic = "W5M0MpCehiHzreSzNTczkc9d"

func init() {
	register(&Workload{Prop: "C06", Run: runC06, Quick: 60000,
		Rule: "one run = one stream of junk, packets, look-alikes and cut-off packets, delivered under several read plans; non-trivial when it carries at least one packet or look-alike and the plan splits the stream",
		Real: "xmp.ScanPackets, xmp.Scan, splitPacket, isXmpPacket, bufio.Scanner", Stub: "io.Reader (simulated delivery)"})
}

var junkFrag = []string{"<?xpacket", "<?xpacket begi", "<?xpacket en", "xpacket begin", xpMagic, "<?", "<", "?>", "\x00\x00", "\xff\xd8\xff\xe1", "http://ns.adobe.com/xap/1.0/\x00",
	"<?xpacket endd=\"w\"?>"[:12], "<?xpacket  begin", "<?XPACKET BEGIN", " ", "\n", "packet end=\"w\"?>", "=\"w\"?>", "<<?xpacke", "<?xpacket <?xpacket"}

func cleanJunk(b []byte) []byte {
	b = bytes.ReplaceAll(b, []byte("<?xpacket begin"), []byte("<?xpacket_begin"))
	return bytes.ReplaceAll(b, []byte("<?xpacket end"), []byte("<?xpacket_end"))
}

func (r *R) junk(big bool) []byte {
	var b []byte
	n := r.Small(7)
	for i := 0; i < n; i++ {
		switch r.N(3) {
		case 0:
			b = append(b, pick(r.Src, junkFrag)...)
		case 1:
			k := r.Small(pick(r.Src, []int{8, 60, 3000}))
			s := uint64(r.N(1 << 20))
			for j := 0; j < k; j++ {
				s = mix64(s)
				b = append(b, byte(s))
			}
		case 2:
			k := r.N(64)
			if big {
				k = pick(r.Src, []int{4000, 4096, 4097, 65536, 65530, 70000, 140000}) + r.N(40) - 20
			}
			b = append(b, bytes.Repeat([]byte{pick(r.Src, []byte{' ', 0, '<', 'x'})}, k)...)
		}
	}
	return cleanJunk(b)
}

func (r *R) rawPacket(valid bool) []byte {
	var b bytes.Buffer
	q := pick(r.Src, []string{"\"", "'"})
	begin := pick(r.Src, []string{"\ufeff", "", "\xff\xfe"})
	magic := xpMagic
	tail := ""
	if valid {
		tail = pick(r.Src, []string{"", " bytes=" + q + "1234" + q, " encoding=" + q + "UTF-8" + q})
	} else {
		switch r.N(4) {
		case 0:
			magic = "W5M0MpCehiHzreSzNTczkc9x"
		case 1:
			magic = ""
		case 2:
			magic = xpMagic[1:]
		case 3: // magic only further behind
			magic = "none"
			tail = " x=" + q + "                    " + xpMagic + q
		}
	}
	fmt.Fprintf(&b, "<?xpacket begin=%s%s%s id=%s%s%s%s?>", q, begin, q, q, magic, q, tail)
	if !valid {
		b.WriteString("<!-- no magic within the header: 51 bytes -->")
	}
	switch r.N(4) {
	case 0:
		fmt.Fprintf(&b, `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="%s"><rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/" dc:format="f%d"/></rdf:RDF></x:xmpmeta>`, uriRDF, r.N(1000))
	case 1:
		b.Write(r.junk(r.N(12) == 11))
	case 2:
		b.Write(bytes.Repeat([]byte(" "), r.Small(5000)))
	case 3:
		if !valid && r.N(2) == 1 {
			b.WriteString(xpMagic)
		} else if r.N(30) == 29 {
			b.Write(bytes.Repeat([]byte("0123456789"), 6500+r.N(30000)))
		}
	}
	fmt.Fprintf(&b, "<?xpacket end=%s%s%s?>", q, pick(r.Src, []string{"w", "r"}), q)
	return b.Bytes()
}

func runC06(r *R) {
	var stream []byte
	var want [][]byte
	var marks []int
	big := r.N(10) == 9
	n := r.N(6)
	kinds := ""
	special := 0
	for i := 0; i < n; i++ {
		if r.N(4) != 3 {
			stream = append(stream, r.junk(big)...)
		}
		marks = append(marks, len(stream))
		switch k := r.N(8); k {
		default: // packet
			p := r.rawPacket(true)
			stream = append(stream, p...)
			want = append(want, p)
			kinds += "P"
		case 4, 5: // wrapper without magic
			stream = append(stream, r.rawPacket(false)...)
			kinds += "W"
			special++
		case 6: // end marker without start
			stream = append(stream, "<?xpacket end=\"w\"?>"...)
			kinds += "E"
			special++
		case 7: // start of a packet that never ends, with or without magic, before the next
			p := r.rawPacket(r.N(2) == 0)
			cut := bytes.Index(p, []byte("<?xpacket end"))
			stream = append(stream, p[:16+r.N(cut-15)]...)
			kinds += "U"
			special++
			// only what follows up to the next start is open; an end marker directly after would complete it
			p = r.rawPacket(true)
			stream = append(stream, p...)
			want = append(want, p)
			kinds += "P"
		}
		marks = append(marks, len(stream))
	}
	// a stray end marker after an unfinished start without a packet between cannot occur by construction
	if r.N(3) == 2 {
		stream = append(stream, r.junk(big)...)
	}
	end := len(stream)
	nwant := len(want)
	// packets complete at an offset
	complete := func(cut int) [][]byte {
		var l [][]byte
		pos := 0
		for _, w := range want[:nwant] {
			i := indexFrom(stream, w, pos)
			if i+len(w) <= cut {
				l = append(l, w)
			}
			pos = i + len(w)
		}
		return l
	}
	tails := 0
	if r.N(4) == 3 { // cut off packet at the end of the stream
		p := r.rawPacket(true)
		cut := 1 + r.N(len(p)-1)
		if r.N(2) == 1 {
			cut = len(p) - 1 - r.N(8)
		}
		stream = append(stream, p[:cut]...)
		marks = append(marks, end, len(stream))
		kinds += "T"
		tails = 1
		special++
	}
	r.Logf("stream %s of %d bytes", kinds, len(stream))
	if (len(want) > 0 || special > 0) && len(stream) > 0 {
		r.nontrivial = true
	}
	r.State(strHash(kinds))
	_ = tails
	plans := 1 + r.N(4)
	for k := 0; k < plans; k++ {
		p := r.readPlan(marks)
		data := stream
		exp := complete(len(stream))
		switch r.N(5) {
		case 3: // device error somewhere
			p.err = r.readErr()
			data = stream[:r.cutNear(len(stream), marks)]
		case 4: // stream ends early
			data = stream[:r.cutNear(len(stream), marks)]
			exp = complete(len(data))
			r.Fault("read.truncated")
		}
		rd := newReader(p, data)
		got, err := xmp.ScanPackets(rd)
		r.Logf("plan %v over %d of %d bytes: %d packets, err %v", p, len(data), len(stream), len(got), err)
		checkScan(r, p, got, err, exp)
		if r.N(3) == 0 && p.err == io.EOF {
			// Scan: the document of the first packet, or an error
			d, serr := xmp.Scan(newReader(p, data))
			switch {
			case len(exp) == 0:
				if serr != io.EOF || d != nil {
					r.Fail("scan-nopacket", "Scan without packet returned %v, %v", d, serr)
				}
			default:
				d2 := &xmp.Document{}
				uerr := xmp.Unmarshal(append([]byte(nil), exp[0]...), d2)
				if (uerr == nil) != (serr == nil) {
					r.Fail("scan-doc", "Scan: %v, Unmarshal of the first packet: %v", serr, uerr)
				}
				if serr == nil {
					a, _ := d.GetPath("dc:format")
					b, _ := d2.GetPath("dc:format")
					if a != b {
						r.Fail("scan-doc", "Scan loaded another packet: dc:format %q instead of %q", a, b)
					}
				} else if d != nil {
					r.Fail("scan-doc", "Scan returned a document together with error %v", serr)
				}
			}
		}
	}
}

func (r *R) cutNear(n int, marks []int) int {
	c := 0
	if len(marks) > 0 && r.N(3) != 0 {
		c = pick(r.Src, marks) + r.N(50) - 25
	} else {
		c = r.N(n + 1)
	}
	if c < 0 {
		c = 0
	}
	if c > n {
		c = n
	}
	return c
}

func indexFrom(b, w []byte, pos int) int {
	i := bytes.Index(b[pos:], w)
	if i < 0 {
		panic("packet not in stream")
	}
	return pos + i
}

func checkScan(r *R, p *ReadPlan, got [][]byte, err error, exp [][]byte) {
	if p.err != io.EOF {
		if err == nil {
			r.Fail("error-swallowed", "the reader failed with %q but ScanPackets returned %d packets and no error", p.err, len(got))
		}
		if !errors.Is(err, p.err) {
			r.Fail("error-changed", "the reader failed with %q but ScanPackets reported %q", p.err, err)
		}
		if got != nil {
			r.Fail("error-with-data", "packets returned together with the reader's error")
		}
		return
	}
	if len(exp) == 0 {
		if err != io.EOF {
			r.Fail("no-packet", "no complete packet in the stream: got %d packets, err %v", len(got), err)
		}
		return
	}
	if err != nil {
		r.Fail("spurious-error", "%d packets expected, got error %v", len(exp), err)
	}
	if len(got) != len(exp) {
		r.Fail("packets", "%d packets expected, got %d", len(exp), len(got))
	}
	for i := range exp {
		if !bytes.Equal(got[i], exp[i]) {
			r.Fail("packet-content", "packet %d differs: expected %d bytes %q, got %d bytes %q", i, len(exp[i]), clip(string(exp[i])), len(got[i]), clip(string(got[i])))
		}
	}
}
