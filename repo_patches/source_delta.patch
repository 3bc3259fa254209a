From af4a8aa35a008abf70b9d761f97cb9cd69fd6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 001/128] fix: check packet magic within the packet only

A wrapper shorter than 51 bytes made the check read beyond the packet or panic.
---
 xmp/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 4b999ed..09d799f 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -67,7 +67,10 @@ var packet_end = []byte("<?xpacket end")       // plus suffix `"w"?>`
 var magic = []byte("W5M0MpCehiHzreSzNTczkc9d") // len 24
 
 func isXmpPacket(b []byte) bool {
-	return bytes.Index(b[:51], magic) > -1
+	if len(b) > 51 {
+		b = b[:51]
+	}
+	return bytes.Index(b, magic) > -1
 }
 
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
-- 
2.43.0


From 728e655cd6b0722bd8f6d90be6266937dab9bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 002/128] fix: find packets in all partitions of a stream into
 reads

A packet start that was cut by a read boundary was discarded, and data in
front of an incomplete packet stayed in the scan buffer.
---
 xmp/reader.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 09d799f..4b399ab 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -73,14 +73,19 @@ func isXmpPacket(b []byte) bool {
 	return bytes.Index(b, magic) > -1
 }
 
+// Splits a stream into XMP packets. Everything in front of a packet start is
+// discarded early, but never the bytes that may be the beginning of a packet
+// start which continues in the next chunk.
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	start := bytes.Index(data, packet_start)
 	if start == -1 {
-		ofs := len(data) - len(packet_start)
-		if ofs > 0 {
+		if atEOF {
+			return len(data), nil, nil
+		}
+		if ofs := len(data) - len(packet_start) + 1; ofs > 0 {
 			return ofs, nil, nil
 		}
-		return len(data), nil, nil
+		return 0, nil, nil
 	}
 	end := bytes.Index(data[start:], packet_end)
 	last := start + end + len(packet_end) + 6
@@ -88,7 +93,13 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		if atEOF {
 			return len(data), nil, nil
 		}
-		return 0, nil, nil
+		if end == -1 {
+			// packets don't nest, a later start obsoletes an unfinished one
+			start = bytes.LastIndex(data, packet_start)
+		}
+		return start, nil, nil
 	}
+	// skip unfinished packets in front
+	start += bytes.LastIndex(data[start:start+end], packet_start)
 	return last, data[start:last], nil
 }
-- 
2.43.0


From 1cc79001b1948dff724d359854b0fce296400ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 003/128] fix: scan packets larger than 64 kB

---
 xmp/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmp/reader.go b/xmp/reader.go
index 4b399ab..b220a25 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -18,6 +18,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"math"
 )
 
 func Read(r io.Reader) (*Document, error) {
@@ -44,6 +45,7 @@ func Scan(r io.Reader) (*Document, error) {
 func ScanPackets(r io.Reader) ([][]byte, error) {
 	packets := make([][]byte, 0)
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt32)
 	s.Split(splitPacket)
 	for s.Scan() {
 		b := s.Bytes()
-- 
2.43.0


From b52c9dbc354838dc8fba5008e634823ebe5e6cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 004/128] fix: don't panic on malformed array items

Array items have no field description, formatting it in the error message
dereferenced a nil pointer.
---
 xmp/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index e64d069..90feb06 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -281,7 +281,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	} else {
 		// otherwise set simple value directly
 		if err := setValue(val, src.Value); err != nil {
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
 		}
 	}
 
@@ -317,7 +317,7 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) e
 		// Recur to read element into slice.
 		if err := d.unmarshalAttr(val.Index(n), nil, src); err != nil {
 			val.SetLen(n)
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.Name.Local, err)
 		}
 		return nil
 	}
-- 
2.43.0


From ca2a6e10a3026c6bca54e0e2b01a87a81f419033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 005/128] fix: don't panic on malformed language alternatives
 in JSON

---
 xmp/json.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 59931ce..501ebd6 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -327,11 +327,11 @@ func jsonToNode(name string, v interface{}, node *Node) {
 		for _, av := range v.([]interface{}) {
 			linode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
 			anode.Nodes = append(anode.Nodes, linode)
-			if typ == ArrayTypeAlternative {
+			if typ == ArrayTypeAlternative && isArrayItemType(av) {
 				item := av.(map[string]interface{})
-				def := item["isDefault"].(bool)
-				lang := item["lang"].(string)
-				val := item["value"].(string)
+				def, _ := item["isDefault"].(bool)
+				lang, _ := item["lang"].(string)
+				val, _ := item["value"].(string)
 
 				// add single node when default || !default && lang != ""
 				if def || !def && lang != "" {
-- 
2.43.0


From 361e08790bf88ef404730219c6a498ede64e8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 006/128] fix: don't panic on language alternatives without
 default

---
 xmp/array.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/array.go b/xmp/array.go
index b75ab40..8e9bd63 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -108,7 +108,10 @@ func (a *AltString) EnsureDefault() {
 				}
 			}
 		}
-		if idx != 0 {
+		switch {
+		case idx < 0:
+			(*a)[0].IsDefault = true
+		case idx > 0:
 			(*a)[idx], (*a)[0] = (*a)[0], (*a)[idx]
 		}
 	} else if l == 1 {
-- 
2.43.0


From 6a59b95c728f16c2e335f245ae2063351a1cebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 007/128] fix: data race on node pool counters

---
 xmp/node.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8aec5eb..81a8689 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 var (
@@ -80,14 +81,14 @@ func NewNode(name xml.Name) *Node {
 	var n *Node
 	select {
 	case n = <-nodePool: // Try to get one from the nodePool
-		npHits++
+		atomic.AddInt64(&npHits, 1)
 		n.XMLName = name
 		n.Attr = nil
 		n.Nodes = nil
 		n.Model = nil
 		n.Value = ""
 	default: // All in use, create a new, temporary:
-		npAllocs++
+		atomic.AddInt64(&npAllocs, 1)
 		n = &Node{
 			XMLName: name,
 			Attr:    nil,
@@ -111,9 +112,9 @@ func (n *Node) Close() {
 	n.Value = ""
 	select {
 	case nodePool <- n: // try to put back into the nodePool
-		npReturns++
+		atomic.AddInt64(&npReturns, 1)
 	default: // pool is full, will be garbage collected
-		npFrees++
+		atomic.AddInt64(&npFrees, 1)
 	}
 }
 
-- 
2.43.0


From 7173c703eda70d60eace164f3183795e8cf88505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 008/128] fix: read identifiers with scheme as written by
 Marshal

---
 models/xmp_base/types.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index e939097..089422c 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -76,17 +76,17 @@ func (x *Identifier) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) e
 		ID:     x.ID,
 		Scheme: x.Scheme,
 	}
-	var err error
-	if len(node.Nodes) == 0 && len(node.Attr) == 0 {
-		err = d.DecodeElement(&id.ID, node) // value-only from node.Value
-	} else if len(node.Nodes) == 0 {
-		err = d.DecodeElement(&id.ID, node) // value from node.Value
-		err = d.DecodeElement(&id, node)    // scheme from attr
-	} else {
-		err = d.DecodeElement(&id, node.Nodes[0]) // both from child nodes
+	if len(node.Nodes) == 0 || node.Value != "" {
+		// value from node.Value
+		if err := d.DecodeElement(&id.ID, node); err != nil {
+			return err
+		}
 	}
-	if err != nil {
-		return err
+	if len(node.Nodes) > 0 || len(node.Attr) > 0 {
+		// scheme from attr, or scheme and value from child nodes
+		if err := d.DecodeElement(&id, node); err != nil {
+			return err
+		}
 	}
 	x.ID = id.ID
 	x.Scheme = id.Scheme
-- 
2.43.0


From 2e88c96e460aee52edcadd7e6ef94dc649cc77b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 009/128] fix: nil dereference when setting a path in a named
 extension

---
 xmp/path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmp/path.go b/xmp/path.go
index 11bda49..38ff18b 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -680,6 +680,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					// Type 1: model and nodes on top-level (name not empty)
 					node = ext.FindNodeByName(name)
 					if node == nil {
+						node = (*Node)(ext).AddNode(NewNode(NewName(name)))
 						if ns, err := GetNamespace(name); err == nil {
 							node.Model = ns.NewModel()
 						}
-- 
2.43.0


From 58f61b737de7564233b001a25cd0363e07459740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 010/128] fix: update and delete external properties held in
 attributes

The new value was assigned to a copy of the attribute, so the edit was
reported as done but had no effect.
---
 xmp/node.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 81a8689..3870847 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -456,21 +456,31 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		return nil
 	}
 
+	node := n.Nodes.FindNodeByName(stripPrefix(name))
+
 	// handle attribute
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
-		switch {
-		case flags&REPLACE > 0 && value != "":
-			attr[0].Value = value
-			return nil
-		case flags&DELETE > 0 && value == "":
-			attr[0].Value = value
-			// will be ignored on next marshal
-			return nil
+	if node == nil && path.Len() == 0 && idx == -1 && lang == "" {
+		for i := range n.Attr {
+			attr := &n.Attr[i]
+			if stripPrefix(attr.Name.Local) != stripPrefix(name) {
+				continue
+			}
+			switch {
+			case flags&REPLACE > 0 && value != "",
+				flags&CREATE > 0 && value != "" && attr.Value == "":
+				attr.Value = value
+				return nil
+			case flags&DELETE > 0 && value == "":
+				attr.Value = value
+				// will be ignored on next marshal
+				return nil
+			default:
+				return fmt.Errorf("unsupported flag combination %v for %s", flags, name)
+			}
 		}
 	}
 
 	// handle nodes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
 	if node == nil {
 		if flags&CREATE > 0 && value != "" {
 			if name != "" && !hasPrefix(name) {
-- 
2.43.0


From 1ccfbf4e693a6ec968d3a0ab48156c4b7a351d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 011/128] fix: require REPLACE to overwrite external properties

CREATE promises to do nothing when the property exists, and merging without
REPLACE must keep existing values.
---
 xmp/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 3870847..62aabde 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -637,7 +637,8 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		}
 		// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name)
 		switch {
-		case flags&(REPLACE|CREATE) > 0 && value != "":
+		case flags&REPLACE > 0 && value != "",
+			flags&CREATE > 0 && value != "" && node.Value == "":
 			node.Value = value
 			return nil
 		case flags&DELETE > 0 && value == "":
-- 
2.43.0


From bea2038a82c6185a2f71629ac7a6c09b3db96e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 012/128] fix: create missing languages in external properties

The edit was reported as done but had no effect.
---
 xmp/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmp/node.go b/xmp/node.go
index 62aabde..a7ccfa5 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -604,6 +604,12 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 					}
 				}
 			}
+			if flags&CREATE == 0 {
+				return fmt.Errorf("CREATE flag required to add language '%s' to '%s'", lang, name)
+			}
+			li := arr.AppendNode(NewNode(NewName("rdf:li")))
+			li.AddStringAttr("xml:lang", lang)
+			li.Value = value
 
 		case flags&(REPLACE|CREATE) > 0 && value != "" && lang == "":
 			// replace entire AltString with a new version
-- 
2.43.0


From 3fea6afce12ef4ce7aa4ec468baa3cd9a1230f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 013/128] fix: list simple array items and item attributes of
 external properties

They were missing in listings and hence got lost when merging documents.
---
 xmp/node.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index a7ccfa5..9d10b59 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -667,17 +667,11 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 		for i, li := range n.Nodes {
 			_, walker := path.Pop()
 			walker = walker.AppendIndex(i)
-			for _, v := range li.Nodes {
-				name := v.Name()
-				if v.Namespace() != path.NamespacePrefix() {
-					name = v.FullName()
-				}
-				r, err := v.ListPaths(walker.Push(name))
-				if err != nil {
-					return nil, err
-				}
-				l = append(l, r...)
+			r, err := li.ListPaths(walker)
+			if err != nil {
+				return nil, err
 			}
+			l = append(l, r...)
 		}
 	case "rdf:Alt":
 		for _, li := range n.Nodes {
-- 
2.43.0


From f1f2eb7f51995212e2f1ffaa3325e8b9f4ede2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 014/128] fix: address the default language of alternatives as
 x-default

Listings show the default item as [x-default], but reading this path found
nothing, and setting it added a second x-default item.
---
 xmp/array.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index 8e9bd63..2b3147a 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -130,7 +130,7 @@ func (a AltString) Default() string {
 
 func (a AltString) Index(lang string) int {
 	for i, v := range a {
-		if v.Lang == lang {
+		if v.Lang == lang || lang == "x-default" && v.IsDefault {
 			return i
 		}
 	}
@@ -141,10 +141,8 @@ func (a AltString) Get(lang string) string {
 	if lang == "" {
 		return a.Default()
 	}
-	for _, v := range a {
-		if v.Lang == lang {
-			return v.Value
-		}
+	if i := a.Index(lang); i > -1 {
+		return a[i].Value
 	}
 	return ""
 }
@@ -183,6 +181,10 @@ func (a *AltString) Add(lang string, value string) {
 	if value == "" {
 		return
 	}
+	if lang == "x-default" && a.Index(lang) == -1 {
+		a.AddDefault("", value)
+		return
+	}
 	*a = append(*a, AltItem{
 		Value:     value,
 		Lang:      lang,
@@ -203,14 +205,7 @@ func (a *AltString) Set(lang string, value string) {
 }
 
 func (a *AltString) RemoveLang(lang string) {
-	idx := -1
-	for i, v := range *a {
-		if v.Lang == lang {
-			idx = i
-			break
-		}
-	}
-	if idx > -1 {
+	if idx := a.Index(lang); idx > -1 {
 		*a = append((*a)[:idx], (*a)[idx+1:]...)
 		a.EnsureDefault()
 	}
-- 
2.43.0


From 28f9179ea2368a70547ed1c31325b51c11932d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 015/128] fix: load properties whose namespace is declared
 outside rdf:Description

Declarations on rdf:RDF or x:xmpmeta made loading fail, those on inner
elements were written back as broken attributes.
---
 xmp/node.go      |  8 ++++++++
 xmp/unmarshal.go | 24 ++++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 9d10b59..5702ae5 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -727,6 +727,14 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 
 func (n *Node) translate(d *Decoder) {
 	d.translate(&n.XMLName)
+	// namespace declarations are kept in the document
+	attr := make(AttrList, 0, len(n.Attr))
+	for _, v := range n.Attr {
+		if v.Name.Space != "xmlns" {
+			attr = append(attr, v)
+		}
+	}
+	n.Attr = attr
 	// Note: don't use `for .. range` here because it copies
 	// structures, but we intend to alter the node tree
 	for i, l := 0, len(n.Attr); i < l; i++ {
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 90feb06..a323d5b 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -82,7 +82,10 @@ func (d *Decoder) Decode(x *Document) error {
 		return fmt.Errorf("xmp: parsing xml failed: %v", err)
 	}
 
-	// 2  skip top-level `x:xmpmeta` (optional) and `rdf:RDF` nodes
+	// 2  extract document namespaces
+	d.addNamespaces(root)
+
+	// 3  skip top-level `x:xmpmeta` (optional) and `rdf:RDF` nodes
 	if root.FullName() == "x:xmpmeta" {
 		if a := root.GetAttr(nsX.GetURI(), "xmptk"); len(a) > 0 {
 			x.toolkit = strings.TrimSpace(a[0].Value)
@@ -100,13 +103,6 @@ func (d *Decoder) Decode(x *Document) error {
 		return fmt.Errorf("xmp: invalid XML format: missing rdf:RDF node, found %s:%s", root.Namespace(), root.Name())
 	}
 
-	// 3  extract document namespaces
-	for _, n := range root.Nodes {
-		for _, v := range n.GetAttr("xmlns", "") {
-			d.addNamespace(v.Name.Local, v.Value)
-		}
-	}
-
 	// 4  walk node tree and create model instances
 	for _, n := range root.Nodes {
 		// we expect outer nodes
@@ -345,6 +341,18 @@ func (d Decoder) translate(n *xml.Name) {
 	}
 }
 
+// Namespaces may be declared on any element.
+func (d *Decoder) addNamespaces(n *Node) {
+	for _, v := range n.GetAttr("xmlns", "") {
+		if v.Value != nsX.GetURI() && v.Value != nsRDF.GetURI() {
+			d.addNamespace(v.Name.Local, v.Value)
+		}
+	}
+	for _, v := range n.Nodes {
+		d.addNamespaces(v)
+	}
+}
+
 // Keep track of all used namespaces (registered and unknown).
 // In XML a local name's prefix may differ from the XMP standard
 // prefix. Even Adobe used to use `xap` instead of `xmp` as prefix
-- 
2.43.0


From 40d394913fc5bbec202c2227b7cd9ae4d586eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 016/128] fix: keep namespaces apart that use the same prefix

Files may bind a prefix to different namespaces, or one that is registered
for another namespace. Their properties were mixed up and saved with either
URI at random.
---
 xmp/unmarshal.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index a323d5b..7e482c6 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -345,7 +345,11 @@ func (d Decoder) translate(n *xml.Name) {
 func (d *Decoder) addNamespaces(n *Node) {
 	for _, v := range n.GetAttr("xmlns", "") {
 		if v.Value != nsX.GetURI() && v.Value != nsRDF.GetURI() {
-			d.addNamespace(v.Name.Local, v.Value)
+			prefix := v.Name.Local
+			if d.extNsMap[v.Value] == nil {
+				prefix = uniquePrefix(d.extNsMap, prefix)
+			}
+			d.addNamespace(prefix, v.Value)
 		}
 	}
 	for _, v := range n.Nodes {
@@ -370,6 +374,25 @@ func (d *Decoder) addNamespace(prefix, uri string) {
 	}
 }
 
+// returns prefix, or a variation of it when it's taken by another namespace
+func uniquePrefix(m map[string]*Namespace, prefix string) string {
+	name := prefix
+	for i := 1; isPrefixUsed(m, name); i++ {
+		name = prefix + strconv.Itoa(i)
+	}
+	return name
+}
+
+func isPrefixUsed(m map[string]*Namespace, prefix string) bool {
+	for _, v := range m {
+		if v.GetName() == prefix {
+			return true
+		}
+	}
+	_, err := NsRegistry.GetNamespace(prefix)
+	return err == nil
+}
+
 func (d Decoder) _findNsByURI(uri string) *Namespace {
 	if v, ok := d.intNsMap[uri]; ok {
 		return v
-- 
2.43.0


From c8fbb51cc00eabdf67ab76d233ee4b44cfb747ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 017/128] fix: merge documents that use different prefixes for
 unknown namespaces

Overwriting the prefix left properties of the destination without namespace,
so it could not be saved any more, or mixed two namespaces.
---
 xmp/path.go | 21 +++++++++++++++++++++
 xmp/sync.go | 22 ++++++++++++++++++++--
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 38ff18b..7434d94 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -239,6 +239,27 @@ func (x Path) PeekNamespacePrefix() string {
 	}
 }
 
+// replaces namespace prefixes in all segments
+func (x Path) rename(prefixes map[string]string) Path {
+	if len(prefixes) == 0 {
+		return x
+	}
+	ns := x.NamespacePrefix()
+	if p, ok := prefixes[ns]; ok {
+		ns = p
+	}
+	f := x.Fields()
+	for i, v := range f {
+		if !hasPrefix(v) {
+			continue
+		}
+		if p, ok := prefixes[getPrefix(v)]; ok {
+			f[i] = p + ":" + stripPrefix(v)
+		}
+	}
+	return NewPath(ns, f...)
+}
+
 func (x *Path) UnmarshalText(data []byte) error {
 	p := Path(string(data))
 	if !p.IsXmpPath() {
diff --git a/xmp/sync.go b/xmp/sync.go
index 588833e..3a7aae3 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -60,6 +60,7 @@ package xmp
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -257,12 +258,29 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	for n, v := range b.intNsMap {
 		d.intNsMap[n] = v
 	}
-	for n, v := range b.extNsMap {
-		d.extNsMap[n] = v
+
+	// copy unknown namespaces, their prefixes may differ between documents
+	uris := make([]string, 0, len(b.extNsMap))
+	for n := range b.extNsMap {
+		uris = append(uris, n)
+	}
+	sort.Strings(uris)
+	rename := make(map[string]string)
+	for _, n := range uris {
+		prefix := b.extNsMap[n].GetName()
+		ns, ok := d.extNsMap[n]
+		if !ok {
+			ns = &Namespace{uniquePrefix(d.extNsMap, prefix), n, emptyFactory}
+			d.extNsMap[n] = ns
+		}
+		if ns.GetName() != prefix {
+			rename[prefix] = ns.GetName()
+		}
 	}
 
 	// copy content
 	for _, v := range p {
+		v.Path = v.Path.rename(rename)
 		v.Flags = flags
 		if err := d.SetPath(v); err != nil {
 			return err
-- 
2.43.0


From 76ad63e721153fd30cc8cd2f2a515d2cb62ea1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 018/128] fix: report short writes of packet header and footer

The XML encoder checks what it writes itself, but nobody checked header,
padding and footer.
---
 xmp/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 11fcda8..6b54f8a 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -88,6 +88,9 @@ func (w *countWriter) Write(b []byte) (int, error) {
 	} else {
 		n, err := w.w.Write(b)
 		w.n += int64(n)
+		if err == nil && n < len(b) {
+			err = io.ErrShortWrite
+		}
 		return n, err
 	}
 }
-- 
2.43.0


From 7df8576ef4cf3993efa5b4c272f330c0031bfc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 019/128] fix: load structs that have a native text form

---
 xmp/unmarshal.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 7e482c6..3a59017 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -228,7 +228,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	}
 
 	// Text
-	if val.CanAddr() {
+	if val.CanAddr() && !d.isStructNode(val, src) {
 		pv := val.Addr()
 		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
 			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
@@ -284,6 +284,27 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
+// Some types have a text form in native tags only and are stored as struct in
+// XMP (i.e. they don't implement TextMarshaler).
+func (d *Decoder) isStructNode(val reflect.Value, src *Node) bool {
+	if val.Kind() != reflect.Struct || val.Addr().Type().Implements(textMarshalerType) {
+		return false
+	}
+	if len(src.Nodes) > 0 {
+		return true
+	}
+	if src.Value != "" {
+		return false
+	}
+	for _, a := range src.Attr {
+		d.translate(&a.Name)
+		if !skipField(a.Name) {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) error {
 	// Load value from interface
 	val = derefValue(val)
-- 
2.43.0


From 8a50668e83ceb67fbaf71e40d80bce5b00de490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 020/128] fix: keep resource references that only have a
 manageUI

---
 models/xmp_mm/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index 0cf33b1..104f8de 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -52,6 +52,7 @@ func (x ResourceRef) IsZero() bool {
 		x.Manager.IsZero() &&
 		x.ManagerVariant == "" &&
 		x.ManageTo == "" &&
+		x.ManageUI == "" &&
 		x.MaskMarkers == "" &&
 		x.PartMapping == "" &&
 		x.RenditionClass == "" &&
-- 
2.43.0


From 5995e6375ca8596d034719de7cf30a834f263325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 021/128] fix: save iTunes asset info as element

---
 models/itunes/movieinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/itunes/movieinfo.go b/models/itunes/movieinfo.go
index 90dca48..d679b5d 100644
--- a/models/itunes/movieinfo.go
+++ b/models/itunes/movieinfo.go
@@ -20,7 +20,7 @@ import (
 )
 
 type MovieInfo struct {
-	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo,attr"`
+	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo"`
 	Studio        string      `plist:"studio"        xmp:"iTunes:Studio,attr"`
 	Cast          PersonArray `plist:"cast"          xmp:"iTunes:Cast"`
 	Directors     PersonArray `plist:"directors"     xmp:"iTunes:Directors"`
-- 
2.43.0


From 2030e1b3131aa2f6b44e2f34e5e66899d80a0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 022/128] fix: don't swap width and height of thumbnails

---
 models/xmp_base/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index 089422c..8dfe38d 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -169,8 +169,8 @@ func (x *IdentifierArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Mod
 // Part 2: 1.2.2.4 Thumbnail
 type Thumbnail struct {
 	Format string `xmp:"xmpGImg:format"`
-	Width  int64  `xmp:"xmpGImg:height"`
-	Height int64  `xmp:"xmpGImg:width"`
+	Width  int64  `xmp:"xmpGImg:width"`
+	Height int64  `xmp:"xmpGImg:height"`
 	Image  []byte `xmp:"xmpGImg:image"`
 }
 
-- 
2.43.0


From 265a3cc3f1ef1f6594b15112665e7c55f26d9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 023/128] fix: don't lose text around comments and CDATA
 sections

---
 xmp/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 5702ae5..b9024f1 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -367,6 +367,7 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 
 func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	var nodes []*Node
+	var text []byte
 	var done bool
 	for !done {
 		t, err := d.Token()
@@ -375,7 +376,8 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 		switch t := t.(type) {
 		case xml.CharData:
-			n.Value = strings.TrimSpace(string(t))
+			// comments and CDATA sections split text
+			text = append(text, t...)
 		case xml.StartElement:
 			x := NewNode(emptyName)
 			x.UnmarshalXML(d, t)
@@ -387,6 +389,7 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	n.XMLName = start.Name
 	n.Attr.From(start.Attr)
 	n.Nodes = nodes
+	n.Value = strings.TrimSpace(string(text))
 	return nil
 }
 
-- 
2.43.0


From fd07f31c92c083f3d7064679eafc4cb1ad1039f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 024/128] fix: read iTunes content ratings as they are written

---
 models/itunes/types.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index be6b280..e0c44fc 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -88,6 +88,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
@@ -99,13 +100,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
-- 
2.43.0


From 18a4ebe58cde85199a5942ab3fc9e9f85c17b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 025/128] fix: don't write duplicate attributes to named
 extensions

---
 xmp/xmp_ext.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 88a513b..aba1c47 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -183,7 +183,9 @@ func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 		ext := NewNode(NewName(v.XMLName.Local))
 		ext.AddAttr(rdfResourceAttr)
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
-		ext.Attr = append(ext.Attr, v.Attr...)
+		for _, a := range v.Attr {
+			ext.AddAttr(a)
+		}
 		node.AddNode(ext)
 	}
 	return nil
-- 
2.43.0


From 72bb159efae6e040b3cbe8edd3858b67794129bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 026/128] fix: keep fractions of seconds in dates

---
 xmp/xmp_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 7c2a014..716c078 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -105,7 +105,7 @@ func (x Date) Value() time.Time {
 }
 
 func (x Date) String() string {
-	return time.Time(x).Format(time.RFC3339)
+	return time.Time(x).Format(time.RFC3339Nano)
 }
 
 func (x Date) IsZero() bool {
-- 
2.43.0


From 51ac8e67fd2a35c603db40872dee6adada795c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 027/128] fix: save ToneCurve and RetouchInfo as ordered arrays

---
 models/crs/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/crs/model.go b/models/crs/model.go
index a557b7f..5c38850 100644
--- a/models/crs/model.go
+++ b/models/crs/model.go
@@ -85,7 +85,7 @@ type CameraRawInfo struct {
 	Sharpness            int64           `xmp:"crs:Sharpness"`
 	Temperature          int64           `xmp:"crs:Temperature"`
 	Tint                 int64           `xmp:"crs:Tint"`
-	ToneCurve            xmp.StringArray `xmp:"crs:ToneCurve"`
+	ToneCurve            xmp.StringList  `xmp:"crs:ToneCurve"`
 	ToneCurveName        ToneCurve       `xmp:"crs:ToneCurveName"`
 	Version              string          `xmp:"crs:Version"`
 	VignetteAmount       int64           `xmp:"crs:VignetteAmount"`
@@ -154,7 +154,7 @@ type CameraRawInfo struct {
 	GrayMixerBlue                         int64           `xmp:"crs:GrayMixerBlue"`
 	GrayMixerPurple                       int64           `xmp:"crs:GrayMixerPurple"`
 	GrayMixerMagenta                      int64           `xmp:"crs:GrayMixerMagenta"`
-	RetouchInfo                           xmp.StringArray `xmp:"crs:RetouchInfo"`
+	RetouchInfo                           xmp.StringList  `xmp:"crs:RetouchInfo"`
 	RedEyeInfo                            xmp.StringArray `xmp:"crs:RedEyeInfo"`
 	CropUnit                              int64           `xmp:"crs:CropUnit"`
 	PostCropVignetteAmount                int64           `xmp:"crs:PostCropVignetteAmount"`
-- 
2.43.0


From c1ea751e4a13c6aa911cc894337f732147c18332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 028/128] fix: find fields of unknown structs written with
 rdf:Description

---
 xmp/node.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xmp/node.go b/xmp/node.go
index b9024f1..b5cfa88 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -393,7 +393,17 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	return nil
 }
 
+// Structures may wrap their fields into an rdf:Description element which is
+// not part of a field's path.
+func (n *Node) structNode() *Node {
+	if len(n.Nodes) == 1 && n.Nodes[0].FullName() == "rdf:Description" {
+		return n.Nodes[0]
+	}
+	return n
+}
+
 func (n *Node) GetPath(path Path) (string, error) {
+	n = n.structNode()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
 	if idx < -1 {
@@ -445,6 +455,7 @@ func (n *Node) GetPath(path Path) (string, error) {
 }
 
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
+	n = n.structNode()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
 	if idx < -1 {
@@ -664,6 +675,7 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 }
 
 func (n *Node) ListPaths(path Path) (PathValueList, error) {
+	n = n.structNode()
 	l := make(PathValueList, 0)
 	switch n.FullName() {
 	case "rdf:Seq", "rdf:Bag":
-- 
2.43.0


From 5184daaf27004c6fb354dc080e925abdd0831649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 029/128] fix: don't panic on ID3 v2.3 recording dates

---
 models/id3/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 1621a9e..2626e01 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -169,7 +169,7 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.RecordingTime.IsZero() && !x.Date_v23.IsZero() && !x.Time_v23.IsZero() {
 		_, mm, dd := x.Date_v23.Value().Date()
 		h, m, s := x.Time_v23.Value().Clock()
-		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, nil))
+		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, time.UTC))
 	}
 	if !x.RecordingTime.IsZero() {
 		base, err := xmpbase.MakeModel(d)
-- 
2.43.0


From 39f156576bf94461080dbaa99f060e0ae372af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 030/128] fix: don't clear xmpDM properties missing in iXML

---
 models/ixml/model.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index 99a73f2..4fad183 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -115,12 +115,25 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 	if err != nil {
 		return err
 	}
-	dm.TapeName = x.SoundRoll
-	dm.Scene = x.SceneName
-	dm.TrackNumber = x.Take
-	dm.LogComment = x.Note
-	dm.ProjectName = x.Project
-	dm.Good = xmp.Bool(x.IsCircled.Value())
+	// don't clear XMP properties without iXML counterpart
+	if x.SoundRoll != "" {
+		dm.TapeName = x.SoundRoll
+	}
+	if x.SceneName != "" {
+		dm.Scene = x.SceneName
+	}
+	if x.Take != 0 {
+		dm.TrackNumber = x.Take
+	}
+	if x.Note != "" {
+		dm.LogComment = x.Note
+	}
+	if x.Project != "" {
+		dm.ProjectName = x.Project
+	}
+	if x.IsCircled.Value() {
+		dm.Good = xmp.Bool(true)
+	}
 	if x.Speed != nil {
 		dm.StartTimecode = x.Speed.XmpTimecode()
 		dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
-- 
2.43.0


From df80304e12489ae06c02880aed3f90ad13dc09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 031/128] fix: address model fields by their own namespace
 first

---
 xmp/path.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 7434d94..a2bbcab 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -299,6 +299,15 @@ func (d *Document) GetPath(path Path) (string, error) {
 	}
 }
 
+// Prefers the field in the path's own namespace when a model contains
+// equal names from different namespaces.
+func findPathField(val reflect.Value, prefix, name string) (*fieldInfo, error) {
+	if finfo, err := findField(val, prefix+":"+name, "xmp"); err == nil && finfo.flags&fAny == 0 {
+		return finfo, nil
+	}
+	return findField(val, name, "xmp")
+}
+
 func GetModelPath(v Model, path Path) (string, error) {
 	val := derefIndirect(v)
 	l := path.Len()
@@ -309,7 +318,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 			return "", fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
-		finfo, err := findField(val, name, "xmp")
+		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			return "", errNotFound
 			// return "", fmt.Errorf("path field %d (%s) not found: %v", i, name, err)
@@ -580,7 +589,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 		// using the short-form of name here to find attribute names across namespaces
 		// (e.g. some models use different namespace structs internally)
-		finfo, err := findField(val, name, "xmp")
+		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			// special error is catched by caller to retry setting as raw node
 			return errNotFound
-- 
2.43.0


From 6f4d906373f2c1e84e119d897715a522ce11c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 032/128] fix: address model types based on AltString by
 language

---
 xmp/path.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index a2bbcab..d79014f 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -308,6 +308,18 @@ func findPathField(val reflect.Value, prefix, name string) (*fieldInfo, error) {
 	return findField(val, name, "xmp")
 }
 
+// Models may define types based on AltString.
+func asAltString(v reflect.Value) reflect.Value {
+	t := reflect.TypeOf(AltString{})
+	if v.Kind() == reflect.Ptr {
+		t = reflect.PtrTo(t)
+	}
+	if v.Type() != t && v.Type().ConvertibleTo(t) {
+		return v.Convert(t)
+	}
+	return v
+}
+
 func GetModelPath(v Model, path Path) (string, error) {
 	val := derefIndirect(v)
 	l := path.Len()
@@ -363,7 +375,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 		}
 
 		if isArray {
-			switch arr := av.Interface().(type) {
+			switch arr := asAltString(av).Interface().(type) {
 			case ExtensionArray:
 				if walker.Len() == 0 || fv.Len() <= idx {
 					return "", errNotFound
@@ -680,7 +692,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			av = fv.Addr()
 		}
 		if av.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || av.Type().Implements(arrayType)) {
-			switch arr := av.Interface().(type) {
+			switch arr := asAltString(av).Interface().(type) {
 			case *ExtensionArray:
 				// unwrap extension namespace and keep path remainder
 				name = walker.PeekNamespacePrefix()
@@ -1108,7 +1120,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		}
 
 		if isArray {
-			switch arr := av.Interface().(type) {
+			switch arr := asAltString(av).Interface().(type) {
 			case ExtensionArray:
 				for i, v := range arr {
 					subpath := path.Push(fname).AppendIndex(i)
-- 
2.43.0


From 8182a510059a2193d8e29426525f958f5ed99e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 033/128] fix: don't panic when reading extensions without
 index

---
 xmp/path.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index d79014f..243ae87 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -377,6 +377,10 @@ func GetModelPath(v Model, path Path) (string, error) {
 		if isArray {
 			switch arr := asAltString(av).Interface().(type) {
 			case ExtensionArray:
+				// sanitize array index
+				if idx < 0 {
+					idx = 0
+				}
 				if walker.Len() == 0 || fv.Len() <= idx {
 					return "", errNotFound
 				}
-- 
2.43.0


From 4326588fa118462f9296b2727514af3ca36f9936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 034/128] fix: read named extensions by their listed paths

---
 xmp/path.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 243ae87..b1289d2 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -397,6 +397,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 				return node.GetPath(walker)
 
 			case NamedExtensionArray:
+				name, walker = walker.PopFront()
 				node := arr.FindNodeByName(name)
 				if node == nil {
 					return "", errNotFound
@@ -1164,7 +1165,11 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 			case NamedExtensionArray:
 				for _, v := range arr {
 					node := (*Node)(v)
-					if l, err := node.ListPaths(path.Push(fname, node.Name())); err != nil {
+					name := node.Name()
+					if node.Namespace() != path.NamespacePrefix() {
+						name = node.FullName()
+					}
+					if l, err := node.ListPaths(path.Push(fname, name)); err != nil {
 						return nil, err
 					} else {
 						pvl = append(pvl, l...)
-- 
2.43.0


From dd79a6966adefe9c173530b8a866bd839139facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 035/128] fix: unwrap named extensions written with
 rdf:Description

---
 xmp/xmp_ext.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index aba1c47..d26459a 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -192,11 +192,16 @@ func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 }
 
 func (x *NamedExtensionArray) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
-	for _, v := range node.Nodes {
+	for _, v := range node.structNode().Nodes {
 		v.translate(d)
 		ext := (*Extension)(NewNode(NewName(v.XMLName.Local)))
-		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
 		ext.Attr = append(ext.Attr, v.Attr...)
+		// unwrap fields
+		if s := v.structNode(); s != v {
+			ext.Attr = append(ext.Attr, s.Attr...)
+			v = s
+		}
+		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
 		*x = append(*x, ext)
 	}
 	return nil
-- 
2.43.0


From 77c5871c25a26363843b57ed9d15a36617cf5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 036/128] fix: keep id3:isCompilation next to other xmpDM
 properties

---
 models/id3/model.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 2626e01..b80114c 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -120,8 +120,6 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 		}
 		if dm.PartOfCompilation.Value() {
 			x.IsCompilation = True
-		} else {
-			x.IsCompilation = False
 		}
 		if dm.Composer != "" {
 			x.Composer = dm.Composer
-- 
2.43.0


From bf39c7967159030b1d41a2c8c32d06f35cdb0daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 037/128] fix: read URIs written as rdf:resource

---
 xmp/xmp_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 716c078..9e85141 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -451,7 +451,7 @@ func NewUri(u string) Uri {
 // }
 
 func (x *Uri) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
-	if attr := node.GetAttr("rdf", "resource"); len(attr) > 0 {
+	if attr := node.GetAttr("", "resource"); len(attr) > 0 {
 		*x = Uri(attr[0].Value)
 		return nil
 	}
-- 
2.43.0


From d96a7667b50e704cb3d56d24d468be46be3075e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 038/128] fix: read default namespace declarations

---
 xmp/node.go      |  2 +-
 xmp/unmarshal.go | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index b5cfa88..d2b4ea3 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -745,7 +745,7 @@ func (n *Node) translate(d *Decoder) {
 	// namespace declarations are kept in the document
 	attr := make(AttrList, 0, len(n.Attr))
 	for _, v := range n.Attr {
-		if v.Name.Space != "xmlns" {
+		if !isNsDecl(v.Name) {
 			attr = append(attr, v)
 		}
 	}
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 3a59017..6553c27 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -364,9 +364,13 @@ func (d Decoder) translate(n *xml.Name) {
 
 // Namespaces may be declared on any element.
 func (d *Decoder) addNamespaces(n *Node) {
-	for _, v := range n.GetAttr("xmlns", "") {
-		if v.Value != nsX.GetURI() && v.Value != nsRDF.GetURI() {
+	for _, v := range n.Attr {
+		if isNsDecl(v.Name) && v.Value != "" && v.Value != nsX.GetURI() && v.Value != nsRDF.GetURI() {
 			prefix := v.Name.Local
+			if v.Name.Space == "" {
+				// default namespaces have no prefix
+				prefix = "ns"
+			}
 			if d.extNsMap[v.Value] == nil {
 				prefix = uniquePrefix(d.extNsMap, prefix)
 			}
@@ -570,8 +574,12 @@ func setValue(dst reflect.Value, src string) error {
 	return nil
 }
 
+func isNsDecl(n xml.Name) bool {
+	return n.Space == "xmlns" || n.Space == "" && n.Local == "xmlns"
+}
+
 func skipField(n xml.Name) bool {
-	if n.Space == "xmlns" {
+	if isNsDecl(n) {
 		return true
 	}
 
-- 
2.43.0


From 1c1e1e2eed4f4b85ece4b820083a237f92246f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 039/128] fix: address fields of unknown structs by their own
 namespace first

---
 xmp/node.go | 36 +++++++++++++++++++++++++++++++-----
 xmp/path.go | 11 +++++++++++
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index d2b4ea3..0a8ace1 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -402,6 +402,28 @@ func (n *Node) structNode() *Node {
 	return n
 }
 
+// Equal names may exist in several namespaces, prefer an exact match.
+func (n *Node) findNode(prefix, name string) *Node {
+	for _, v := range n.Nodes {
+		if v.FullName() == prefix+":"+name {
+			return v
+		}
+	}
+	if n.findAttr(prefix, name) != nil {
+		return nil
+	}
+	return n.Nodes.FindNodeByName(name)
+}
+
+func (n *Node) findAttr(prefix, name string) *Attr {
+	for i := range n.Attr {
+		if n.Attr[i].Name.Local == prefix+":"+name {
+			return &n.Attr[i]
+		}
+	}
+	return nil
+}
+
 func (n *Node) GetPath(path Path) (string, error) {
 	n = n.structNode()
 	name, path := path.PopFront()
@@ -419,7 +441,7 @@ func (n *Node) GetPath(path Path) (string, error) {
 	}
 
 	// lookup name in node list or attributes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
+	node := n.findNode(path.NamespacePrefix(), stripPrefix(name))
 	if node != nil {
 		switch {
 		case idx > -1:
@@ -448,6 +470,9 @@ func (n *Node) GetPath(path Path) (string, error) {
 		}
 	}
 
+	if attr := n.findAttr(path.NamespacePrefix(), stripPrefix(name)); attr != nil {
+		return attr.Value, nil
+	}
 	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
 		return attr[0].Value, nil
 	}
@@ -470,13 +495,14 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		return nil
 	}
 
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
+	node := n.findNode(path.NamespacePrefix(), stripPrefix(name))
 
 	// handle attribute
 	if node == nil && path.Len() == 0 && idx == -1 && lang == "" {
+		exact := n.findAttr(path.NamespacePrefix(), stripPrefix(name))
 		for i := range n.Attr {
 			attr := &n.Attr[i]
-			if stripPrefix(attr.Name.Local) != stripPrefix(name) {
+			if exact != nil && attr != exact || stripPrefix(attr.Name.Local) != stripPrefix(name) {
 				continue
 			}
 			switch {
@@ -707,7 +733,7 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 				continue
 			}
 			name := a.Name.Local
-			if hasPrefix(name) && getPrefix(name) == path.NamespacePrefix() {
+			if hasPrefix(name) && getPrefix(name) == path.NamespacePrefix() && getPrefix(name) == path.lastPrefix() {
 				name = stripPrefix(name)
 			}
 			l = append(l, PathValue{
@@ -720,7 +746,7 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 				continue
 			}
 			name := v.Name()
-			if v.Namespace() != path.NamespacePrefix() {
+			if v.Namespace() != path.NamespacePrefix() || v.Namespace() != path.lastPrefix() {
 				name = v.FullName()
 			}
 			r, err := v.ListPaths(path.Push(name))
diff --git a/xmp/path.go b/xmp/path.go
index b1289d2..1e08a87 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -227,6 +227,17 @@ func (x Path) PopFront() (string, Path) {
 	}
 }
 
+// namespace prefix of the last segment
+func (x Path) lastPrefix() string {
+	ns := x.NamespacePrefix()
+	for _, v := range x.Fields() {
+		if hasPrefix(v) {
+			ns = getPrefix(v)
+		}
+	}
+	return ns
+}
+
 func (x Path) PeekNamespacePrefix() string {
 	switch f := x.Fields(); len(f) {
 	case 0:
-- 
2.43.0


From b82e5059a4a1867d5e6e8aea0349bcdab899ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 040/128] fix: read ID3 genre lists as they are written

---
 models/id3/types.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 7f991dc..a4aa50e 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -144,22 +144,23 @@ func ParseGenreV1(s string) (GenreV1, error) {
 type Genre []string
 
 func (x *Genre) UnmarshalText(data []byte) error {
-	value := string(data)
-	for _, v := range strings.Split(value, ",") {
+	var l Genre
+	for _, v := range strings.Split(string(data), ",") {
 		v = strings.TrimSpace(v)
 		if g, err := ParseGenreV1(v); err == nil {
-			*x = append(*x, g.String())
+			l = append(l, g.String())
 			continue
 		}
-		switch value {
+		switch v {
 		case "RX":
-			*x = append(*x, "Remix")
+			l = append(l, "Remix")
 		case "CR":
-			*x = append(*x, "Cover")
+			l = append(l, "Cover")
 		default:
-			*x = append(*x, value)
+			l = append(l, v)
 		}
 	}
+	*x = l
 	return nil
 }
 
-- 
2.43.0


From 8d7e05233fd66d6c994f8cef8d9e8cad5f6eb3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 041/128] fix: don't overwrite properties with outdated copies
 of other models

---
 xmp/marshal.go | 31 +++++++++++++++++++++++++++++++
 xmp/path.go    | 29 +++++++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 6b54f8a..ddc57bb 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -297,6 +297,12 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 		return nil
 	}
 
+	// top-level model
+	var model Model
+	if withWrapper && val.CanInterface() {
+		model, _ = val.Interface().(Model)
+	}
+
 	// Drill into interfaces and pointers.
 	// This can turn into an infinite loop given a cyclic chain,
 	// but it matches the Go 1 behavior.
@@ -422,6 +428,9 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 				dest = NewNode(ns.XMLName(""))
 				node.AddNode(dest)
 			}
+			if isCopy(dest, model, ns, finfo.name) {
+				continue
+			}
 		} else {
 			dest = node
 		}
@@ -475,6 +484,9 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 				dest = NewNode(ns.XMLName(""))
 				node.AddNode(dest)
 			}
+			if isCopy(dest, model, ns, finfo.name) {
+				continue
+			}
 		} else {
 			dest = node
 		}
@@ -497,6 +509,25 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	return nil
 }
 
+// Some models contain copies of properties from other namespaces. They must
+// not overwrite what another model has already written.
+func isCopy(dest *Node, model Model, ns *Namespace, name string) bool {
+	if model == nil || model.Can(ns.GetName()) {
+		return false
+	}
+	for _, v := range dest.Nodes {
+		if v.XMLName.Local == name {
+			return true
+		}
+	}
+	for _, v := range dest.Attr {
+		if v.Name.Local == name {
+			return true
+		}
+	}
+	return false
+}
+
 func isEmptyValue(v reflect.Value) bool {
 	if v.CanInterface() && v.Type().Implements(zeroType) {
 		return v.Interface().(Zero).IsZero()
diff --git a/xmp/path.go b/xmp/path.go
index 1e08a87..872df83 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -227,6 +227,15 @@ func (x Path) PopFront() (string, Path) {
 	}
 }
 
+// prefix and name of the top-level property without index
+func (x Path) property() string {
+	s := x.String()
+	if i := strings.IndexAny(s, "[/"); i > -1 {
+		return s[:i]
+	}
+	return s
+}
+
 // namespace prefix of the last segment
 func (x Path) lastPrefix() string {
 	ns := x.NamespacePrefix()
@@ -1039,12 +1048,23 @@ func (d *Document) ListPaths() (PathValueList, error) {
 		return nil, err
 	}
 	l := make(PathValueList, 0)
+	// some models contain copies of properties from other namespaces, list
+	// them only when no model of that namespace has the property
+	var copies PathValueList
+	owned := make(map[string]bool)
 	for _, v := range d.nodes {
 		if v.Model != nil {
 			if pvl, err := ListModelPaths(v.Model); err != nil {
 				return nil, err
 			} else {
-				l = append(l, pvl...)
+				for _, pv := range pvl {
+					if v.Model.Can(pv.Path.NamespacePrefix()) {
+						owned[pv.Path.property()] = true
+						l = append(l, pv)
+					} else {
+						copies = append(copies, pv)
+					}
+				}
 			}
 		}
 		r, err := v.ListPaths(NewPath(v.Name()))
@@ -1053,7 +1073,12 @@ func (d *Document) ListPaths() (PathValueList, error) {
 		}
 		l = append(l, r...)
 	}
-	sort.Sort(byPath(l))
+	for _, pv := range copies {
+		if !owned[pv.Path.property()] {
+			l = append(l, pv)
+		}
+	}
+	sort.Stable(byPath(l))
 	return l.Unique(), nil
 }
 
-- 
2.43.0


From 1d2e2f9b0132bfe3a43da8629e6851292864d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 042/128] fix: don't lose track totals and line breaks of ID3
 properties

---
 models/id3/model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index b80114c..900de3b 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -113,7 +113,7 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 				return err
 			}
 		}
-		if dm.TrackNumber > 0 {
+		if dm.TrackNumber > 0 && dm.TrackNumber != x.TrackNumber.Track {
 			x.TrackNumber = TrackNum{
 				Track: dm.TrackNumber,
 			}
@@ -127,12 +127,12 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 		if dm.Engineer != "" {
 			x.ModifiedBy = dm.Engineer
 		}
-		if dm.DiscNumber > 0 {
+		if dm.DiscNumber > 0 && dm.DiscNumber != x.PartOfASet.Track {
 			x.PartOfASet = TrackNum{
 				Track: dm.DiscNumber,
 			}
 		}
-		if dm.Lyrics != "" {
+		if dm.Lyrics != "" && dm.Lyrics != strings.Join(x.UnsynchronizedLyrics, "\n") {
 			x.UnsynchronizedLyrics = strings.Split(dm.Lyrics, "\n")
 		}
 	}
-- 
2.43.0


From 08a6ad7c948b25dcd12e68d310051beb141f6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 043/128] fix: don't lose languages of external properties in
 JSON

---
 xmp/json.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 501ebd6..b72bf71 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -195,16 +195,13 @@ func nodeToJson(n *Node) (interface{}, error) {
 					}
 					a = append(a, ai)
 				}
-				// mark the default item
-				if defLangContent != "" && len(a) > 1 {
-					for i, l := 0, len(a); i < l; i++ {
-						if a[i].Value == defLangContent {
-							a[i].IsDefault = true
-						}
-					}
-					// remove the duplicate default element
-					if defLangIndex > -1 {
+				// mark the item equal to the default item
+				for i, l := 0, len(a); i < l && defLangContent != ""; i++ {
+					if i != defLangIndex && a[i].Value == defLangContent {
+						a[i].IsDefault = true
+						// remove the duplicate default element
 						a = append(a[:defLangIndex], a[defLangIndex+1:]...)
+						break
 					}
 				}
 				return a, nil
@@ -351,7 +348,7 @@ func jsonToNode(name string, v interface{}, node *Node) {
 				}
 
 				// add second node for default && lang != ""
-				if def && lang != "" {
+				if def && lang != "" && lang != "x-default" {
 					linode = NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
 					anode.Nodes = append(anode.Nodes, linode)
 					linode.Attr = append(linode.Attr, Attr{
-- 
2.43.0


From 57202af8bee6bc4f7313fa363013fc05c5fa64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 044/128] fix: load arrays of arrays from JSON

---
 xmp/json.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index b72bf71..62465f8 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -309,14 +309,13 @@ func jsonToNode(name string, v interface{}, node *Node) {
 		}
 
 	case isArrayValue(v):
-		// arrays of arrays are not supported in XMP
-		if name == "" {
-			return
+		// add arrays as Seq/li or Alt/li child nodes, items of arrays of
+		// arrays have no name
+		containerNode := node
+		if name != "" {
+			containerNode = NewNode(xml.Name{Local: name})
+			node.Nodes = append(node.Nodes, containerNode)
 		}
-
-		// add arrays as Seq/li or Alt/li child nodes
-		containerNode := NewNode(xml.Name{Local: name})
-		node.Nodes = append(node.Nodes, containerNode)
 		typ := getArrayType(v)
 		anode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: string(typ)})
 		containerNode.Nodes = append(containerNode.Nodes, anode)
-- 
2.43.0


From 5451b1f9f1e569f26a468f82dd57d470d3ac55e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 045/128] fix: limit the depth of nested elements when reading
 XML

---
 xmp/node.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 0a8ace1..4dbcc75 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -365,7 +365,17 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 	}
 }
 
+// limits recursion when reading nested elements (same as in encoding/xml)
+const maxDepth = 10000
+
 func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	return n.unmarshalXML(d, start, 1)
+}
+
+func (n *Node) unmarshalXML(d *xml.Decoder, start xml.StartElement, depth int) error {
+	if depth > maxDepth {
+		return fmt.Errorf("xmp: exceeded max depth")
+	}
 	var nodes []*Node
 	var text []byte
 	var done bool
@@ -380,7 +390,9 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			text = append(text, t...)
 		case xml.StartElement:
 			x := NewNode(emptyName)
-			x.UnmarshalXML(d, t)
+			if err := x.unmarshalXML(d, t, depth+1); err != nil {
+				return err
+			}
 			nodes = append(nodes, x)
 		case xml.EndElement:
 			done = true
-- 
2.43.0


From 27582872564e3491ccd8de79281d22def78b484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 046/128] fix: don't panic on huge array indexes when setting
 values

---
 xmp/node.go | 2 +-
 xmp/path.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 4dbcc75..545c20f 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -495,7 +495,7 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	n = n.structNode()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
-	if idx < -1 {
+	if idx < -1 || idx > maxIndex {
 		return fmt.Errorf("path field %s: invalid index", name)
 	}
 
diff --git a/xmp/path.go b/xmp/path.go
index 872df83..e74b2bf 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -620,7 +620,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 	l := path.Len()
 	for n, walker := path.PopFront(); n != ""; n, walker = walker.PopFront() {
 		name, idx, lang := parsePathSegment(n)
-		if idx < -1 {
+		if idx < -1 || idx > maxIndex {
 			return fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
@@ -1340,6 +1340,9 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 	return pvl, nil
 }
 
+// largest array index accepted when setting values, arrays grow up to the index
+const maxIndex = 1 << 20
+
 func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
-- 
2.43.0


From a61286a39a0493701ad2cc83d5065755f2341978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 047/128] fix: don't recurse endlessly on extensions written as
 attribute

---
 xmp/xmp_ext.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index d26459a..d805057 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"encoding/xml"
+	"fmt"
 )
 
 // Raw nodes are used to keep custom data models inside a container. This
@@ -74,7 +75,8 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 }
 
 func (x *Extension) UnmarshalXMPAttr(d *Decoder, a Attr) error {
-	return d.decodeAttribute(&x.Nodes, a)
+	// extensions are structures, they can't be written as attribute
+	return fmt.Errorf("xmp: unexpected attribute value for extension %s", a.Name.Local)
 }
 
 func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
-- 
2.43.0


From 94668b4cc6de4f02e6dbcc4ee79d0575ec551e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 048/128] fix: don't add a language twice when setting language
 alternatives

---
 xmp/node.go | 28 ++++++----------------------
 xmp/path.go | 17 ++++++++++-------
 2 files changed, 16 insertions(+), 29 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 545c20f..f070916 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -627,36 +627,20 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 			arr = node.AddNode(NewNode(NewName("rdf:Alt")))
 		}
 		switch {
-		case flags&UNIQUE > 0 && value != "":
-			// append source when not exist
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang && v.Value == value {
-						return nil
-					}
-				}
-			}
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.AddStringAttr("xml:lang", lang)
-			li.Value = value
-
-		case flags&APPEND > 0 && value != "":
-			// append source value
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.AddStringAttr("xml:lang", lang)
-			li.Value = value
-
-		case flags&(REPLACE|CREATE) > 0 && value != "" && lang != "":
-			// replace single entry
+		case flags&(REPLACE|CREATE|APPEND|UNIQUE) > 0 && value != "" && lang != "":
+			// replace single entry, each language exists only once
 			for _, v := range arr.Nodes {
 				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
 					if attr[0].Value == lang {
+						if flags&REPLACE == 0 && v.Value != "" {
+							return fmt.Errorf("REPLACE flag required for overwriting language '%s' of '%s'", lang, name)
+						}
 						v.Value = value
 						return nil
 					}
 				}
 			}
-			if flags&CREATE == 0 {
+			if flags&(CREATE|APPEND|UNIQUE) == 0 {
 				return fmt.Errorf("CREATE flag required to add language '%s' to '%s'", lang, name)
 			}
 			li := arr.AppendNode(NewNode(NewName("rdf:li")))
diff --git a/xmp/path.go b/xmp/path.go
index e74b2bf..c5e81ba 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -802,14 +802,17 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 			case *AltString:
 				switch {
-				case flags&UNIQUE > 0 && value != "":
-					// append source when not exist
-					if !arr.AddUnique(lang, value) {
-						return fmt.Errorf("equal value exists for %s on path %s", name, path)
+				case flags&(UNIQUE|APPEND) > 0 && value != "":
+					// append source when not exist, each language exists only once
+					// and values without language are the default
+					key := lang
+					if key == "" {
+						key = "x-default"
 					}
-				case flags&APPEND > 0 && value != "":
-					// append source value
-					arr.Add(lang, value)
+					if arr.Index(key) > -1 && flags&REPLACE == 0 {
+						return fmt.Errorf("REPLACE flag required for overwriting language %s on path %s", key, path)
+					}
+					arr.Set(key, value)
 				case flags&(REPLACE|CREATE) > 0 && value != "":
 					// replace entire AltString with a new version
 					if lang != "" {
-- 
2.43.0


From 7531d49231834f078b3b96d3f6f09a72552226ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 049/128] fix: don't overwrite array items without replace flag

---
 xmp/node.go | 3 +++
 xmp/path.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/xmp/node.go b/xmp/node.go
index f070916..8d3008c 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -602,6 +602,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 					arr.AppendNode(NewNode(NewName("rdf:li")))
 				}
 			}
+			if flags&REPLACE == 0 && arr.Nodes[idx].Value != "" {
+				return fmt.Errorf("REPLACE flag required for overwriting item %d of array '%s'", idx, name)
+			}
 			arr.Nodes[idx].Value = value
 
 		case flags&DELETE > 0 && value == "" && idx == -1:
diff --git a/xmp/path.go b/xmp/path.go
index c5e81ba..866ea44 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -975,6 +975,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 				case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
 					// replace or create slice element at index
+					if flags&REPLACE == 0 && idx < fv.Len() && !isEmptyValue(derefValue(fv.Index(idx))) {
+						return fmt.Errorf("REPLACE flag required for overwriting item %d on path %s", idx, path)
+					}
 					v := reflect.New(fv.Type().Elem())
 					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
 						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-- 
2.43.0


From 742289ecb399da0977db9e898bd01f460c07da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 050/128] fix: don't overwrite values with the delete flag

---
 xmp/path.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 866ea44..306d2c7 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -582,8 +582,9 @@ func (d *Document) SetPath(desc PathValue) error {
 		return fmt.Errorf("xmp: create flag required to make new attribute at '%s'", path.String())
 	}
 
-	// existing destination values require replace/delete/append/unique flag
-	if dest != "" && flags&(REPLACE|DELETE|APPEND|UNIQUE) == 0 {
+	// existing destination values require replace/append/unique flag (or delete
+	// flag when the new value is empty)
+	if dest != "" && value != "" && flags&(REPLACE|APPEND|UNIQUE) == 0 {
 		if flags&NOFAIL > 0 {
 			return nil
 		}
-- 
2.43.0


From 42ee0176f4f654402316662dfac279ffb662a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 051/128] fix: append values that equal the first item of a
 list

---
 xmp/path.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 306d2c7..c10d336 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -569,8 +569,9 @@ func (d *Document) SetPath(desc PathValue) error {
 		return err
 	}
 
-	// skip when equal
-	if dest == value {
+	// skip when equal (paths to lists yield the first item, but a list may
+	// contain the same value more than once)
+	if dest == value && (value == "" || flags&(APPEND|UNIQUE) != APPEND) {
 		return nil
 	}
 
-- 
2.43.0


From c44b54ac834add13b367251ef9b552b3fcf4e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 052/128] fix: don't delete a namespace when its path is set to
 a value

---
 xmp/path.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index c10d336..1ab1378 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -553,8 +553,9 @@ func (d *Document) SetPath(desc PathValue) error {
 	}
 
 	// delete model when only namespace is set
-	if path.Len() == 0 && flags&DELETE > 0 {
+	if path.Len() == 0 && value == "" {
 		d.RemoveNamespace(ns)
+		return nil
 	}
 
 	// get current version of path value
-- 
2.43.0


From 840a16d2e2dba5ca29b277a8cb0bacf7d14a395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 053/128] fix: read and edit external arrays as a whole and
 keep their structure

---
 xmp/node.go | 99 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 96 insertions(+), 3 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8d3008c..b55b9ff 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -294,6 +294,15 @@ func (n Node) IsArray() bool {
 	}
 }
 
+func (n Node) isStructArray() bool {
+	for _, v := range n.Nodes {
+		if v.isStruct() {
+			return true
+		}
+	}
+	return false
+}
+
 func (n Node) ArrayType() ArrayType {
 	if len(n.Nodes) == 1 {
 		switch n.Nodes[0].FullName() {
@@ -461,7 +470,7 @@ func (n *Node) GetPath(path Path) (string, error) {
 			if len(node.Nodes) == 0 || len(node.Nodes[0].Nodes) <= idx {
 				return "", nil
 			}
-			return node.Nodes[0].Nodes[idx].GetPath(path)
+			node = node.Nodes[0].Nodes[idx]
 		case lang != "":
 			// drill two levels deep into alt-array nodes alt+li
 			if len(node.Nodes) == 0 || len(node.Nodes[0].Nodes) == 0 {
@@ -477,9 +486,17 @@ func (n *Node) GetPath(path Path) (string, error) {
 				}
 			}
 			return "", nil
-		default:
-			return node.GetPath(path)
+		case node.IsArray() && path.Len() > 0:
+			// same as index zero
+			if len(node.Nodes[0].Nodes) == 0 {
+				return "", nil
+			}
+			node = node.Nodes[0].Nodes[0]
 		}
+		if path.Len() == 0 {
+			return node.getValue()
+		}
+		return node.GetPath(path)
 	}
 
 	if attr := n.findAttr(path.NamespacePrefix(), stripPrefix(name)); attr != nil {
@@ -491,6 +508,43 @@ func (n *Node) GetPath(path Path) (string, error) {
 	return "", nil
 }
 
+// The value of an array is its first item or default language, structures
+// have no value.
+func (n *Node) getValue() (string, error) {
+	n = n.structNode()
+	switch {
+	case n.IsArray():
+		l := n.Nodes[0].Nodes
+		for _, v := range l {
+			if attr := v.GetAttr("", "lang"); len(attr) > 0 && attr[0].Value == "x-default" {
+				return v.Value, nil
+			}
+		}
+		if len(l) == 0 {
+			return "", nil
+		}
+		return l[0].getValue()
+	case n.isStruct():
+		return "", fmt.Errorf("xmp: structure '%s' has no value", n.FullName())
+	}
+	return n.Value, nil
+}
+
+// External properties are structures when they have non-empty fields.
+func (n *Node) isStruct() bool {
+	for _, v := range n.Attr {
+		if !skipField(v.Name) && v.Value != "" {
+			return true
+		}
+	}
+	for _, v := range n.Nodes {
+		if v.Value != "" || v.isStruct() {
+			return true
+		}
+	}
+	return false
+}
+
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	n = n.structNode()
 	name, path := path.PopFront()
@@ -532,6 +586,24 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		}
 	}
 
+	// edits must match the structure of an existing property
+	if node == nil {
+		if attr := n.findAttr(path.NamespacePrefix(), stripPrefix(name)); attr != nil && attr.Value != "" {
+			return fmt.Errorf("'%s' is a simple value", name)
+		}
+	} else {
+		switch {
+		case node.Value != "" && (idx > -1 || lang != "" || path.Len() > 0):
+			return fmt.Errorf("'%s' is a simple value", name)
+		case node.IsArray():
+			if lang != "" && node.ArrayType() != ArrayTypeAlternative {
+				return fmt.Errorf("'%s' is not a language alternative", name)
+			}
+		case node.isStruct() && (idx > -1 || lang != ""):
+			return fmt.Errorf("'%s' is not an array", name)
+		}
+	}
+
 	// handle nodes
 	if node == nil {
 		if flags&CREATE > 0 && value != "" {
@@ -543,12 +615,26 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 			return fmt.Errorf("CREATE flag required to make node '%s'", name)
 		}
 	}
+	// replace or delete all languages when no language is given
+	if idx == -1 && lang == "" && path.Len() == 0 && node.ArrayType() == ArrayTypeAlternative && !node.Nodes[0].isStructArray() {
+		lang = "x-default"
+		if value == "" || flags&(APPEND|UNIQUE) == 0 && flags&REPLACE > 0 {
+			node.Clear()
+			if value == "" {
+				return nil
+			}
+			flags |= CREATE
+		}
+	}
 	switch {
 	case idx > -1 || (node.IsArray() && lang == ""):
 		arr := node.Nodes.FindNodeByName("Seq")
 		if arr == nil {
 			arr = node.Nodes.FindNodeByName("Bag")
 		}
+		if arr == nil {
+			arr = node.Nodes.FindNodeByName("Alt")
+		}
 		if arr == nil && flags&CREATE == 0 {
 			return fmt.Errorf("CREATE flag required to make array '%s'", name)
 		}
@@ -602,6 +688,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 					arr.AppendNode(NewNode(NewName("rdf:li")))
 				}
 			}
+			if arr.Nodes[idx].isStruct() {
+				return fmt.Errorf("item %d of array '%s' is a structure", idx, name)
+			}
 			if flags&REPLACE == 0 && arr.Nodes[idx].Value != "" {
 				return fmt.Errorf("REPLACE flag required for overwriting item %d of array '%s'", idx, name)
 			}
@@ -681,6 +770,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 			return node.SetPath(path, value, flags)
 		}
 		// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name)
+		if value != "" && node.isStruct() {
+			return fmt.Errorf("'%s' is a structure", name)
+		}
 		switch {
 		case flags&REPLACE > 0 && value != "",
 			flags&CREATE > 0 && value != "" && node.Value == "":
@@ -689,6 +781,7 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		case flags&DELETE > 0 && value == "":
 			node.Value = value
 			node.Clear()
+			node.Attr = nil
 			// will be ignored on next marshal
 			return nil
 		default:
-- 
2.43.0


From 44067ffaf949195679a2b412cb98d1e00ae89eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 054/128] fix: delete values that cannot be parsed from an
 empty string

---
 xmp/path.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 1ab1378..0e08231 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -643,6 +643,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 		if fv.Type().Kind() == reflect.Ptr && fv.IsNil() && fv.CanSet() {
 			fv.Set(reflect.New(fv.Type().Elem()))
 		}
+		field := fv
 		fv = derefValue(fv)
 
 		// continue loop when field is a struct and we're not at the end
@@ -1037,6 +1038,12 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 		}
 
+		// clear deleted values, most types cannot be parsed from an empty string
+		if flags&DELETE > 0 && value == "" && field.CanSet() {
+			field.Set(reflect.Zero(field.Type()))
+			return nil
+		}
+
 		// Text
 		if fv.CanAddr() {
 			pv := fv.Addr()
-- 
2.43.0


From 18c293781a632b44b3b639c14ec4a3f4701b493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 055/128] fix: don't bring back deleted items when growing
 arrays

---
 xmp/path.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 0e08231..9c19cb1 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1389,5 +1389,9 @@ func growSlice(v reflect.Value, n int) {
 			v.Set(nv)
 		}
 		v.SetLen(n + 1)
+		// clear previously deleted items
+		for ; l <= n; l++ {
+			v.Index(l).Set(reflect.Zero(v.Type().Elem()))
+		}
 	}
 }
-- 
2.43.0


From 6110d67a6d4b3df6aadebda6a1b8ee322d8fbd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 056/128] fix: refuse paths that are not valid XML names

---
 xmp/path.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 9c19cb1..f034f87 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -21,6 +21,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 type Path string
@@ -138,6 +139,41 @@ func (x Path) Namespace(d *Document) (*Namespace, error) {
 	return nil, fmt.Errorf("xmp: invalid path '%s'", x.String())
 }
 
+// names in a path become names of XML elements
+func (x Path) hasValidNames() bool {
+	if !isValidName(x.NamespacePrefix()) {
+		return false
+	}
+	for i, v := range x.Fields() {
+		name, idx, lang := parsePathSegment(v)
+		if i == 0 && name == "" && (idx > -1 || lang != "") {
+			return false
+		}
+		if hasPrefix(name) {
+			if !isValidName(getPrefix(name)) {
+				return false
+			}
+			name = stripPrefix(name)
+		}
+		if name != "" && !isValidName(name) {
+			return false
+		}
+	}
+	return true
+}
+
+func isValidName(s string) bool {
+	for i, c := range s {
+		switch {
+		case unicode.IsLetter(c) || c == '_':
+		case i > 0 && (unicode.IsDigit(c) || unicode.IsMark(c) || c == '-' || c == '.'):
+		default:
+			return false
+		}
+	}
+	return s != ""
+}
+
 func (x Path) MatchNamespace(ns *Namespace) bool {
 	if ns == nil {
 		return false
@@ -512,7 +548,7 @@ func (d *Document) SetPath(desc PathValue) error {
 	if flags == 0 {
 		flags = DEFAULT
 	}
-	if !path.IsXmpPath() {
+	if !path.IsXmpPath() || !path.hasValidNames() {
 		return fmt.Errorf("xmp: invalid path '%s'", path.String())
 	}
 
-- 
2.43.0


From 0151182cafb5da3e9bec11917d83cef892390ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 057/128] fix: create named extensions with namespace

---
 xmp/path.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index f034f87..f0b4273 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -833,9 +833,12 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					if flags&(CREATE|APPEND) == 0 && value != "" {
 						return fmt.Errorf("CREATE flag required to add extension %s on path %s", name, path)
 					}
-					node = NewNode(NewName(name))
-					ext := (*Extension)(node)
-					fv.Set(reflect.Append(fv, reflect.ValueOf(ext)))
+					node = NewNode(NewName(walker.NamespacePrefix() + ":" + name))
+					if err := node.SetPath(walker, value, flags); err != nil {
+						return err
+					}
+					fv.Set(reflect.Append(fv, reflect.ValueOf((*Extension)(node))))
+					return nil
 				}
 				// store as child node
 				return node.SetPath(walker, value, flags)
-- 
2.43.0


From 000103050cda1a05a8a47f0357895b6c35d5400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 058/128] fix: address items of nested arrays

---
 xmp/node.go | 12 +++++++++---
 xmp/path.go |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index b55b9ff..309b309 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -461,8 +461,11 @@ func (n *Node) GetPath(path Path) (string, error) {
 		return n.GetPath(path)
 	}
 
-	// lookup name in node list or attributes
-	node := n.findNode(path.NamespacePrefix(), stripPrefix(name))
+	// lookup name in node list or attributes, arrays of arrays have no names
+	node := n
+	if name != "" {
+		node = n.findNode(path.NamespacePrefix(), stripPrefix(name))
+	}
 	if node != nil {
 		switch {
 		case idx > -1:
@@ -561,7 +564,10 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		return nil
 	}
 
-	node := n.findNode(path.NamespacePrefix(), stripPrefix(name))
+	node := n
+	if name != "" {
+		node = n.findNode(path.NamespacePrefix(), stripPrefix(name))
+	}
 
 	// handle attribute
 	if node == nil && path.Len() == 0 && idx == -1 && lang == "" {
diff --git a/xmp/path.go b/xmp/path.go
index f0b4273..c4c12a9 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1402,7 +1402,7 @@ func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
 	// split lang or array index from name, be safe with slice indexes
-	if k := strings.Index(name, "["); k > 0 && len(name) > k+1 {
+	if k := strings.Index(name, "["); k > -1 && len(name) > k+1 {
 		s := strings.TrimSuffix(name[k+1:], "]")
 		if len(s) == 0 {
 			idx = 0
-- 
2.43.0


From ce9b586fa22966e56b367129fed327127ae83145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 059/128] fix: don't list deleted attributes

---
 xmp/node.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 309b309..8ce6eab 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -583,8 +583,7 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 				attr.Value = value
 				return nil
 			case flags&DELETE > 0 && value == "":
-				attr.Value = value
-				// will be ignored on next marshal
+				n.Attr = append(n.Attr[:i], n.Attr[i+1:]...)
 				return nil
 			default:
 				return fmt.Errorf("unsupported flag combination %v for %s", flags, name)
-- 
2.43.0


From 4aa37ca498d65631ab582c78ba899d59c40e4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 060/128] fix: list structured alternatives by index

---
 xmp/node.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8ce6eab..8e32e64 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -812,13 +812,19 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 			l = append(l, r...)
 		}
 	case "rdf:Alt":
-		for _, li := range n.Nodes {
-			lang := "x-default"
-			if attr := li.GetAttr("", "lang"); len(attr) > 0 {
-				lang = attr[0].Value
-			}
+		for i, li := range n.Nodes {
 			_, walker := path.Pop()
-			walker = walker.AppendIndexString(lang)
+			attr := li.GetAttr("", "lang")
+			if len(attr) == 0 || li.isStruct() {
+				// other alternatives are addressed like lists
+				r, err := li.ListPaths(walker.AppendIndex(i))
+				if err != nil {
+					return nil, err
+				}
+				l = append(l, r...)
+				continue
+			}
+			walker = walker.AppendIndexString(attr[0].Value)
 			l = append(l, PathValue{
 				Path:  walker,
 				Value: li.Value,
-- 
2.43.0


From 5d06479060fc057ac0f7354844d28d3759c95f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 061/128] fix: save edited timecode values

---
 models/xmp_dm/types.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index da17002..fb00fd6 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -584,6 +584,7 @@ type Timecode struct {
 	S           int            `xmp:"-"`
 	F           int            `xmp:"-"`
 	IsDropFrame bool           `xmp:"-"`
+	packed      string         // Value the numbers belong to
 }
 
 func (x Timecode) String() string {
@@ -636,15 +637,31 @@ func (x *Timecode) Unpack() error {
 	if x.F, err = strconv.Atoi(fields[3]); err != nil {
 		return err
 	}
+	x.packed = x.Value
 	return nil
 }
 
+// Pack updates Value from the numbers unless Value itself was changed.
+func (x *Timecode) pack() {
+	if x.Value != x.packed {
+		tc := Timecode{
+			Value:       x.Value,
+			Format:      x.Format,
+			IsDropFrame: strings.Contains(x.Value, ";"),
+		}
+		if x.Value == "" || tc.Unpack() == nil {
+			*x = tc
+		}
+	}
+	x.Value = x.String()
+}
+
 func (x Timecode) IsZero() bool {
 	return x.Value == "" && x.Format == ""
 }
 
 func (x Timecode) MarshalJSON() ([]byte, error) {
-	x.Value = x.String()
+	x.pack()
 	type _t Timecode
 	return json.Marshal(_t(x))
 }
@@ -673,7 +690,7 @@ func (x *Timecode) UnmarshalJSON(data []byte) error {
 }
 
 func (x Timecode) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
-	x.Value = x.String()
+	x.pack()
 	type _t Timecode
 	return e.EncodeElement(_t(x), node)
 }
-- 
2.43.0


From cfe4c6c5f76033c4172725ebc474fc25833d9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 062/128] fix: keep part of compilation when syncing id3

---
 models/id3/model.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 900de3b..88b8024 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -188,7 +188,9 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.AlbumTitle != "" {
 		dm.Album = x.AlbumTitle
 	}
-	dm.PartOfCompilation = xmp.Bool(x.IsCompilation.Value())
+	if x.IsCompilation.Value() {
+		dm.PartOfCompilation = xmp.True
+	}
 	if x.Composer != "" {
 		dm.Composer = x.Composer
 	}
-- 
2.43.0


From f93164bd91bcd73406a846ba2663df93d6bca51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 063/128] fix: don't divide by zero rates in iXML speed

---
 models/ixml/model.go | 8 ++++++--
 models/ixml/types.go | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index 4fad183..a7d8553 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -135,8 +135,12 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 		dm.Good = xmp.Bool(true)
 	}
 	if x.Speed != nil {
-		dm.StartTimecode = x.Speed.XmpTimecode()
-		dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
+		if tc := x.Speed.XmpTimecode(); !tc.IsZero() {
+			dm.StartTimecode = tc
+		}
+		if !x.Speed.FileSampleRate.IsZero() {
+			dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
+		}
 	}
 	return nil
 }
diff --git a/models/ixml/types.go b/models/ixml/types.go
index b0b69ba..476aa4e 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -151,6 +151,9 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	if rate == 0 {
 		rate = int64(x.TimecodeRate.Value() * 1000)
 	}
+	if rate <= 0 {
+		return xmpdm.Timecode{}
+	}
 	sec := samples / rate
 	h := sec / 3600
 	m := (sec - h*3600) / 60
-- 
2.43.0


From 1e704f2206ecfa819b8591788f43fb4ea2db12d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 064/128] fix: don't lose structured alternatives written as
 attributes in JSON

---
 xmp/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/json.go b/xmp/json.go
index 62465f8..04f913f 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -163,7 +163,7 @@ func nodeToJson(n *Node) (interface{}, error) {
 
 		case "rdf:Alt":
 			// determine content type (strings or objects)
-			if len(v.Nodes) > 0 && len(v.Nodes[0].Nodes) > 0 {
+			if len(v.Nodes) > 0 && (len(v.Nodes[0].Nodes) > 0 || v.Nodes[0].isStruct()) {
 				// object type: skip outer node and insert interface
 				a := make([]interface{}, 0)
 				for _, vv := range v.Nodes {
-- 
2.43.0


From 265acdcab9274d198c2f2c1a12966acb32340fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 065/128] fix: refuse invalid indexes before changing anything

---
 xmp/path.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index c4c12a9..788b840 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -139,14 +139,14 @@ func (x Path) Namespace(d *Document) (*Namespace, error) {
 	return nil, fmt.Errorf("xmp: invalid path '%s'", x.String())
 }
 
-// names in a path become names of XML elements
-func (x Path) hasValidNames() bool {
+// names in a path become names of XML elements and indexes length of arrays
+func (x Path) isValid() bool {
 	if !isValidName(x.NamespacePrefix()) {
 		return false
 	}
 	for i, v := range x.Fields() {
 		name, idx, lang := parsePathSegment(v)
-		if i == 0 && name == "" && (idx > -1 || lang != "") {
+		if i == 0 && name == "" && (idx > -1 || lang != "") || idx < -1 || idx > maxIndex {
 			return false
 		}
 		if hasPrefix(name) {
@@ -548,7 +548,7 @@ func (d *Document) SetPath(desc PathValue) error {
 	if flags == 0 {
 		flags = DEFAULT
 	}
-	if !path.IsXmpPath() || !path.hasValidNames() {
+	if !path.IsXmpPath() || !path.isValid() {
 		return fmt.Errorf("xmp: invalid path '%s'", path.String())
 	}
 
-- 
2.43.0


From 7541088743f3b8e631589b105ba1198ff0d39cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 066/128] fix: list start timecodes taken from iXML

---
 models/ixml/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index 476aa4e..5d14e9a 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -160,7 +160,7 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	s := sec - h*3600 - m*60
 	f := int((samples % rate) * x.TimecodeRate.Num / rate / 1000)
 	isDrop := x.TimecodeFlag == TimecodeFlagDF
-	return xmpdm.Timecode{
+	tc := xmpdm.Timecode{
 		Format:      xmpdm.ParseTimecodeFormat(x.TimecodeRate.Value(), isDrop),
 		H:           int(h),
 		M:           int(m),
@@ -168,6 +168,8 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 		F:           f,
 		IsDropFrame: isDrop,
 	}
+	tc.Value = tc.String()
+	return tc
 }
 
 type History struct {
-- 
2.43.0


From aa8358d236411da94ed2fb12d776751b68c7ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 067/128] fix: save edited digitizing dates

---
 models/exif/model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index f1d5308..cc230cb 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -249,6 +249,8 @@ type ExifInfo struct {
 	AuxFirmware                                           string       `xmp:"exif:Firmware"`                                           // 1.2.5
 	AuxOwnerName                                          string       `xmp:"exif:OwnerName"`                                          // unknown
 	// AuxLensSerialNumber                                   string        `xmp:"exif:LensSerialNumber"`
+
+	digitized Date // DateTimeDigitized as taken from XMP
 }
 
 func (m *ExifInfo) Namespaces() xmp.NamespaceList {
@@ -267,6 +269,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if !x.DateTimeDigitizedXMP.IsZero() {
 		x.DateTimeDigitized = Date(x.DateTimeDigitizedXMP.Value())
+		x.digitized = x.DateTimeDigitized
 		x.SubSecTimeDigitized = strconv.Itoa(x.DateTimeDigitizedXMP.Value().Nanosecond())
 	}
 
@@ -333,7 +336,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 	if !x.DateTimeOriginal.IsZero() {
 		x.DateTimeOriginalXMP, _ = convertDateToXMP(x.DateTimeOriginal, x.SubSecTimeOriginal)
 	}
-	if !x.DateTimeDigitized.IsZero() {
+	if !x.DateTimeDigitized.IsZero() && !x.DateTimeDigitized.Value().Equal(x.digitized.Value()) {
 		x.DateTimeDigitizedXMP, _ = convertDateToXMP(x.DateTimeDigitized, x.SubSecTimeDigitized)
 	}
 	if !x.DateTime.IsZero() {
-- 
2.43.0


From 802a8ae10621abf027418617beea4ebbd105b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 068/128] fix: keep namespaces declared that fields of other
 properties use

---
 xmp/document.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index 2c895b0..989fd6d 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -196,13 +196,21 @@ func (d *Document) RemoveNamespace(ns *Namespace) bool {
 		if v.Name() == name {
 			d.nodes = append(d.nodes[:i], d.nodes[i+1:]...)
 			removed = true
-			delete(d.intNsMap, ns.GetURI())
-			delete(d.extNsMap, ns.GetURI())
 			v.Close()
 			d.SetDirty()
 			break
 		}
 	}
+	if removed {
+		// fields of other properties may still use the namespace
+		for _, v := range d.nodes {
+			if v.Namespaces(d).Contains(ns) {
+				return true
+			}
+		}
+		delete(d.intNsMap, ns.GetURI())
+		delete(d.extNsMap, ns.GetURI())
+	}
 	return removed
 }
 
-- 
2.43.0


From 6025454709e00f83159617003109b1a3867e4704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 069/128] fix: don't bring back removed namespaces

---
 xmp/document.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/xmp/document.go b/xmp/document.go
index 989fd6d..fc06c73 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -36,6 +36,10 @@ type Document struct {
 
 	// local namespace map for tracking unknown namespaces
 	extNsMap map[string]*Namespace
+
+	// names of removed namespaces, implicit sync must not bring them back
+	removed map[string]bool
+	syncing bool
 }
 
 // high-level XMP document interface
@@ -97,6 +101,8 @@ func (d *Document) syncToXMP() error {
 	if !d.dirty {
 		return nil
 	}
+	d.syncing = true
+	defer func() { d.syncing = false }()
 	for _, n := range d.nodes {
 		if n.Model != nil {
 			if err := n.Model.SyncToXMP(d); err != nil {
@@ -104,10 +110,40 @@ func (d *Document) syncToXMP() error {
 			}
 		}
 	}
+	d.clearRemoved()
 	d.dirty = false
 	return nil
 }
 
+// clears copies of removed properties in models of other namespaces
+func (d *Document) clearRemoved() {
+	for name := range d.removed {
+		for _, n := range d.nodes {
+			if n.Model != nil && !n.Model.Can(name) {
+				clearFields(n.Model, name)
+			}
+		}
+	}
+}
+
+func clearFields(m Model, prefix string) {
+	val := derefIndirect(m)
+	if val.Kind() != reflect.Struct {
+		return
+	}
+	tinfo, err := getTypeInfo(val.Type(), "xmp")
+	if err != nil {
+		return
+	}
+	for _, finfo := range tinfo.fields {
+		if getPrefix(finfo.name) == prefix {
+			if fv := finfo.value(val); fv.CanSet() {
+				fv.Set(reflect.Zero(fv.Type()))
+			}
+		}
+	}
+}
+
 func (d *Document) Namespaces() NamespaceList {
 	var l NamespaceList
 	for _, v := range d.intNsMap {
@@ -149,6 +185,9 @@ func (d Document) FindNs(name, uri string) *Namespace {
 }
 
 func (d *Document) MakeModel(ns *Namespace) (Model, error) {
+	if d.syncing && d.removed[ns.GetName()] {
+		return ns.NewModel(), nil
+	}
 	m := d.FindModel(ns)
 	if m == nil {
 		if m = ns.NewModel(); m == nil {
@@ -173,6 +212,9 @@ func (d *Document) AddModel(v Model) (*Node, error) {
 	if len(ns) == 0 {
 		return nil, fmt.Errorf("xmp: model '%s' must implement at least one namespace", reflect.TypeOf(v).String())
 	}
+	if d.syncing && d.removed[ns[0].GetName()] {
+		return NewNode(ns[0].XMLName("")), nil
+	}
 	for _, v := range ns {
 		d.intNsMap[v.GetURI()] = v
 	}
@@ -201,6 +243,7 @@ func (d *Document) RemoveNamespace(ns *Namespace) bool {
 			break
 		}
 	}
+	d.markRemoved(name)
 	if removed {
 		// fields of other properties may still use the namespace
 		for _, v := range d.nodes {
@@ -214,6 +257,14 @@ func (d *Document) RemoveNamespace(ns *Namespace) bool {
 	return removed
 }
 
+func (d *Document) markRemoved(name string) {
+	if d.removed == nil {
+		d.removed = make(map[string]bool)
+	}
+	d.removed[name] = true
+	d.clearRemoved()
+}
+
 func (d *Document) RemoveNamespaceByName(n string) bool {
 	ns := d.findNsByPrefix(n)
 	return d.RemoveNamespace(ns)
@@ -248,6 +299,11 @@ func (d *Document) FilterNamespaces(keep NamespaceList) bool {
 			removed = removed || r
 		}
 	}
+	for _, v := range NsRegistry.Namespaces() {
+		if !keep.Contains(v) {
+			d.markRemoved(v.GetName())
+		}
+	}
 	return removed
 }
 
-- 
2.43.0


From 639f8378a25df798339dbd03b705a4257f7b6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 070/128] fix: load JSON documents whose prefixes differ from
 the registered ones

---
 xmp/json.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 04f913f..ec5926c 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -19,6 +19,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 )
 
@@ -240,8 +241,20 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	// register namespaces
 	dec.about = in.About
 	dec.toolkit = in.Toolkit
-	for prefix, uri := range in.Namespaces {
-		dec.addNamespace(prefix, uri)
+	prefixes := make([]string, 0, len(in.Namespaces))
+	for prefix := range in.Namespaces {
+		prefixes = append(prefixes, prefix)
+	}
+	sort.Strings(prefixes)
+	rename := make(map[string]string)
+	for _, prefix := range prefixes {
+		uri := in.Namespaces[prefix]
+		if ns := dec._findNsByURI(uri); ns == nil {
+			dec.addNamespace(uniquePrefix(dec.extNsMap, prefix), uri)
+		}
+		if ns := dec._findNsByURI(uri); ns.GetName() != prefix {
+			rename[prefix] = ns.GetName()
+		}
 	}
 
 	// build node tree from JSON models
@@ -258,6 +271,7 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 			jsonToNode(n, v, node)
 		}
 	}
+	renameNodes(root.Nodes, rename)
 
 	// run node tree through xmp unmarshaler
 	for _, n := range root.Nodes {
@@ -284,6 +298,25 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	return d.syncFromXMP()
 }
 
+// Prefixes in a JSON document may differ from the ones in use here.
+func renameNodes(l NodeList, prefixes map[string]string) {
+	if len(prefixes) == 0 {
+		return
+	}
+	fn := func(name *xml.Name) {
+		if p, ok := prefixes[getPrefix(name.Local)]; ok && hasPrefix(name.Local) {
+			name.Local = p + ":" + stripPrefix(name.Local)
+		}
+	}
+	for _, n := range l {
+		fn(&n.XMLName)
+		for i := range n.Attr {
+			fn(&n.Attr[i].Name)
+		}
+		renameNodes(n.Nodes, prefixes)
+	}
+}
+
 func jsonToNode(name string, v interface{}, node *Node) {
 	switch {
 	case isSimpleValue(v):
-- 
2.43.0


From 52c044d01906b7286d5432c7f3368ca3a99b2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 071/128] fix: keep equal names of different namespaces apart
 in unknown structures

---
 xmp/node.go | 16 +++++++++-------
 xmp/path.go | 26 ++++++++++++++++++--------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8e32e64..db85943 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -424,13 +424,13 @@ func (n *Node) structNode() *Node {
 }
 
 // Equal names may exist in several namespaces, prefer an exact match.
-func (n *Node) findNode(prefix, name string) *Node {
+func (n *Node) findNode(prefix, name string, exact bool) *Node {
 	for _, v := range n.Nodes {
 		if v.FullName() == prefix+":"+name {
 			return v
 		}
 	}
-	if n.findAttr(prefix, name) != nil {
+	if exact || n.findAttr(prefix, name) != nil {
 		return nil
 	}
 	return n.Nodes.FindNodeByName(name)
@@ -447,6 +447,7 @@ func (n *Node) findAttr(prefix, name string) *Attr {
 
 func (n *Node) GetPath(path Path) (string, error) {
 	n = n.structNode()
+	exact := path.isExact()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
 	if idx < -1 {
@@ -464,7 +465,7 @@ func (n *Node) GetPath(path Path) (string, error) {
 	// lookup name in node list or attributes, arrays of arrays have no names
 	node := n
 	if name != "" {
-		node = n.findNode(path.NamespacePrefix(), stripPrefix(name))
+		node = n.findNode(path.NamespacePrefix(), stripPrefix(name), exact)
 	}
 	if node != nil {
 		switch {
@@ -505,7 +506,7 @@ func (n *Node) GetPath(path Path) (string, error) {
 	if attr := n.findAttr(path.NamespacePrefix(), stripPrefix(name)); attr != nil {
 		return attr.Value, nil
 	}
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
+	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 && !exact {
 		return attr[0].Value, nil
 	}
 	return "", nil
@@ -550,6 +551,7 @@ func (n *Node) isStruct() bool {
 
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	n = n.structNode()
+	exact := path.isExact()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
 	if idx < -1 || idx > maxIndex {
@@ -566,15 +568,15 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 
 	node := n
 	if name != "" {
-		node = n.findNode(path.NamespacePrefix(), stripPrefix(name))
+		node = n.findNode(path.NamespacePrefix(), stripPrefix(name), exact)
 	}
 
 	// handle attribute
 	if node == nil && path.Len() == 0 && idx == -1 && lang == "" {
-		exact := n.findAttr(path.NamespacePrefix(), stripPrefix(name))
+		match := n.findAttr(path.NamespacePrefix(), stripPrefix(name))
 		for i := range n.Attr {
 			attr := &n.Attr[i]
-			if exact != nil && attr != exact || stripPrefix(attr.Name.Local) != stripPrefix(name) {
+			if (exact || match != nil) && attr != match || stripPrefix(attr.Name.Local) != stripPrefix(name) {
 				continue
 			}
 			switch {
diff --git a/xmp/path.go b/xmp/path.go
index 788b840..2cc8c76 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -295,23 +295,33 @@ func (x Path) PeekNamespacePrefix() string {
 	}
 }
 
-// replaces namespace prefixes in all segments
+// true when the first segment has its own namespace prefix
+func (x Path) isExact() bool {
+	f := x.Fields()
+	return len(f) > 0 && hasPrefix(f[0])
+}
+
+// replaces namespace prefixes in all segments and makes them explicit
 func (x Path) rename(prefixes map[string]string) Path {
-	if len(prefixes) == 0 {
-		return x
-	}
 	ns := x.NamespacePrefix()
 	if p, ok := prefixes[ns]; ok {
 		ns = p
 	}
 	f := x.Fields()
+	last := ns
 	for i, v := range f {
-		if !hasPrefix(v) {
-			continue
+		explicit := hasPrefix(v)
+		if explicit {
+			last = getPrefix(v)
+			if p, ok := prefixes[last]; ok {
+				last = p
+			}
+			v = stripPrefix(v)
 		}
-		if p, ok := prefixes[getPrefix(v)]; ok {
-			f[i] = p + ":" + stripPrefix(v)
+		if explicit || i > 0 && !strings.HasPrefix(v, "[") {
+			v = last + ":" + v
 		}
+		f[i] = v
 	}
 	return NewPath(ns, f...)
 }
-- 
2.43.0


From 0ec219cb2388944bdc7ab1ca0a8a766a4af28814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 072/128] fix: merge namespaces that only the registry knows
 under one prefix

---
 xmp/document.go | 14 ++++++++++++++
 xmp/sync.go     | 15 +++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index fc06c73..abf42d9 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -155,6 +155,20 @@ func (d *Document) Namespaces() NamespaceList {
 	return l
 }
 
+// namespaces by URI, including such that are only known to the registry
+func (d *Document) usedNamespaces() map[string]*Namespace {
+	m := make(map[string]*Namespace)
+	for _, n := range d.nodes {
+		for _, v := range n.Namespaces(d) {
+			m[v.GetURI()] = v
+		}
+	}
+	for _, v := range d.Namespaces() {
+		m[v.GetURI()] = v
+	}
+	return m
+}
+
 func (d *Document) Nodes() NodeList {
 	return d.nodes
 }
diff --git a/xmp/sync.go b/xmp/sync.go
index 3a7aae3..dc348f6 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -260,18 +260,21 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	}
 
 	// copy unknown namespaces, their prefixes may differ between documents
-	uris := make([]string, 0, len(b.extNsMap))
-	for n := range b.extNsMap {
+	src, dst := b.usedNamespaces(), d.usedNamespaces()
+	uris := make([]string, 0, len(src))
+	for n := range src {
 		uris = append(uris, n)
 	}
 	sort.Strings(uris)
 	rename := make(map[string]string)
 	for _, n := range uris {
-		prefix := b.extNsMap[n].GetName()
-		ns, ok := d.extNsMap[n]
+		prefix := src[n].GetName()
+		ns, ok := dst[n]
 		if !ok {
-			ns = &Namespace{uniquePrefix(d.extNsMap, prefix), n, emptyFactory}
-			d.extNsMap[n] = ns
+			if ns = d.findNsByPrefix(prefix); ns == nil || ns.GetURI() != n {
+				ns = &Namespace{uniquePrefix(d.extNsMap, prefix), n, emptyFactory}
+				d.extNsMap[n] = ns
+			}
 		}
 		if ns.GetName() != prefix {
 			rename[prefix] = ns.GetName()
-- 
2.43.0


From 5b2e72289093586a007ebed9f8a5b453b9fd41fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 073/128] fix: keep the default language when merging

---
 xmp/sync.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index dc348f6..439c0ec 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -248,6 +248,11 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 	return nil
 }
 
+// sorts the default in front of all other languages
+func mergeKey(p Path) string {
+	return strings.Replace(p.String(), "[x-default]", "[]", -1)
+}
+
 func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	p, err := b.ListPaths()
 	if err != nil {
@@ -281,7 +286,10 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 		}
 	}
 
-	// copy content
+	// copy content, alternatives start with their default
+	sort.SliceStable(p, func(i, j int) bool {
+		return mergeKey(p[i].Path) < mergeKey(p[j].Path)
+	})
 	for _, v := range p {
 		v.Path = v.Path.rename(rename)
 		v.Flags = flags
-- 
2.43.0


From 9b37635202753a2a56867dd55ef16267fc9271cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 074/128] fix: don't lose or refuse unknown iXML properties

---
 models/ixml/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index a7d8553..91d0b16 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -91,7 +91,7 @@ type IXML struct {
 	TrackList            TrackList               `xml:"TRACK_LIST,omitempty"              xmp:"iXML:trackList"`
 	UserData             *UserData               `xml:"USER,omitempty"                    xmp:"iXML:userData"`
 	Location             *Location               `xml:"LOCATION,omitempty"                xmp:"iXML:location"`
-	Extension            xmp.NamedExtensionArray `xml:",any"                              xmp:"iXML:extension,any"`
+	Extension            xmp.NamedExtensionArray `xml:",any"                              xmp:"iXML:extension"`
 }
 
 func (m *IXML) Namespaces() xmp.NamespaceList {
-- 
2.43.0


From f050ee113ed8709d36e44fd583958d256078cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 075/128] fix: don't panic when syncing to a namespace without
 model

---
 xmp/sync.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index 439c0ec..2f2294f 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -194,7 +194,10 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		if flags&CREATE == 0 {
 			return nil
 		}
-		dModel = dNs.NewModel()
+		// skip when the dPath namespace has no model
+		if dModel = dNs.NewModel(); dModel == nil {
+			return nil
+		}
 		d.AddModel(dModel)
 	}
 
-- 
2.43.0


From 50991a376b798204e0e9934b16c0a1030f197806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 076/128] fix: keep text and arrays in named extensions

---
 xmp/xmp_ext.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index d805057..77030bd 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -183,7 +183,9 @@ func (x *NamedExtensionArray) FindNodeByName(name string) *Node {
 func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 	for _, v := range x {
 		ext := NewNode(NewName(v.XMLName.Local))
-		ext.AddAttr(rdfResourceAttr)
+		if ext.Value = v.Value; v.Value == "" && (*Node)(v).ArrayType() == "" {
+			ext.AddAttr(rdfResourceAttr)
+		}
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
 		for _, a := range v.Attr {
 			ext.AddAttr(a)
@@ -197,6 +199,7 @@ func (x *NamedExtensionArray) UnmarshalXMP(d *Decoder, node *Node, m Model) erro
 	for _, v := range node.structNode().Nodes {
 		v.translate(d)
 		ext := (*Extension)(NewNode(NewName(v.XMLName.Local)))
+		ext.Value = v.Value
 		ext.Attr = append(ext.Attr, v.Attr...)
 		// unwrap fields
 		if s := v.structNode(); s != v {
-- 
2.43.0


From a17188e60bfd9fbb8c7d3496968b23985802f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 077/128] fix: refuse values for named extensions without name

---
 xmp/path.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 2cc8c76..43f95c1 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -836,6 +836,13 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			case *NamedExtensionArray:
 				// Named extensions do not contain models
 				// unwrap extension namespace and keep path remainder
+				if walker.Len() == 0 {
+					if flags&DELETE > 0 && value == "" {
+						fv.Set(reflect.Zero(fv.Type()))
+						return nil
+					}
+					return fmt.Errorf("extension name required on path %s", path)
+				}
 				name, walker = walker.PopFront()
 				node := arr.FindNodeByName(name)
 				if node == nil {
-- 
2.43.0


From 6a23ff43464cde8f0462cd5442392cd01ba83094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 078/128] fix: load JSON in a defined order

---
 xmp/json.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index ec5926c..4849b7b 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -260,15 +260,20 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	// build node tree from JSON models
 	root := NewNode(emptyName)
 	defer root.Close()
-	for name, b := range in.Models {
+	names := make([]string, 0, len(in.Models))
+	for name := range in.Models {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
 		node := NewNode(xml.Name{Local: name})
 		root.Nodes = append(root.Nodes, node)
 		content := make(map[string]interface{})
-		if err := json.Unmarshal(b, &content); err != nil {
+		if err := json.Unmarshal(in.Models[name], &content); err != nil {
 			return fmt.Errorf("xmp: json unmarshal model '%s' failed: %v", name, err)
 		}
-		for n, v := range content {
-			jsonToNode(n, v, node)
+		for _, n := range sortedNames(content) {
+			jsonToNode(n, content[n], node)
 		}
 	}
 	renameNodes(root.Nodes, rename)
@@ -401,16 +406,27 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			onode = NewNode(xml.Name{Local: name})
 			node.Nodes = append(node.Nodes, onode)
 		}
-		for on, ov := range v.(map[string]interface{}) {
+		obj := v.(map[string]interface{})
+		for _, on := range sortedNames(obj) {
 			if isArrayItemType(v) && on == "value" {
-				jsonToNode("", ov, onode)
+				jsonToNode("", obj[on], onode)
 			} else {
-				jsonToNode(on, ov, onode)
+				jsonToNode(on, obj[on], onode)
 			}
 		}
 	}
 }
 
+// nodes are created in a defined order, not the random order of maps
+func sortedNames(m map[string]interface{}) []string {
+	names := make([]string, 0, len(m))
+	for n := range m {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // JSON unmarshal helpers
 func isSimpleValue(v interface{}) bool {
 	switch v.(type) {
-- 
2.43.0


From 7a6a9adc560c084a6b55354583ffaea68a3ef8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 079/128] fix: keep namespaces of new paths in their document

SetPath registered an unknown namespace globally, so a prefix used in one
document decided the namespace of that prefix in all others.
---
 xmp/document.go | 16 ++++++++++++++++
 xmp/path.go     |  6 ++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index abf42d9..b2c388c 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -345,6 +345,22 @@ func (d Document) findNsByURI(uri string) *Namespace {
 	return nil
 }
 
+// unknown namespaces belong to the document that uses them
+func (d *Document) addNamespace(prefix, uri string) *Namespace {
+	if ns := d.findNsByURI(uri); ns != nil {
+		return ns
+	}
+	if ns, err := NsRegistry.GetNamespace(NsRegistry.GetPrefix(uri)); err == nil {
+		return ns
+	}
+	ns := &Namespace{prefix, uri, emptyFactory}
+	if d.extNsMap == nil {
+		d.extNsMap = make(map[string]*Namespace)
+	}
+	d.extNsMap[uri] = ns
+	return ns
+}
+
 func (d Document) findNsByPrefix(pre string) *Namespace {
 	for _, v := range d.intNsMap {
 		if v.GetName() == pre {
diff --git a/xmp/path.go b/xmp/path.go
index 43f95c1..f6c088d 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -565,8 +565,10 @@ func (d *Document) SetPath(desc PathValue) error {
 	ns, err := path.Namespace(d)
 	if ns == nil || err != nil {
 		if desc.Namespace != "" {
-			ns = &Namespace{path.NamespacePrefix(), desc.Namespace, nil}
-			Register(ns)
+			ns = d.addNamespace(path.NamespacePrefix(), desc.Namespace)
+			if pre := path.NamespacePrefix(); pre != ns.GetName() {
+				path = path.rename(map[string]string{pre: ns.GetName()})
+			}
 		} else {
 			return err
 		}
-- 
2.43.0


From 2ddb1f60631adc76fb0817cebce003fb5500d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 080/128] fix: keep genre numbers beyond the ID3v1 range

---
 models/id3/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index a4aa50e..1add04b 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -135,7 +135,7 @@ func ParseGenreV1(s string) (GenreV1, error) {
 			return i, nil
 		}
 	}
-	if t, err := strconv.Atoi(s); err == nil {
+	if t, err := strconv.ParseUint(s, 10, 8); err == nil {
 		return GenreV1(t), nil
 	}
 	return 0xff, fmt.Errorf("id3: invalid genre '%s'", s)
-- 
2.43.0


From 48e0f79439839a298947cf23840b99725d296522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 081/128] fix: save pointers to types that marshal with pointer
 receivers

---
 xmp/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index ddc57bb..c8aeab6 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -318,7 +318,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	typ := val.Type()
 
 	// call marshaler interface
-	if val.CanInterface() && (finfo != nil && finfo.flags&fMarshal > 0 || typ.Implements(marshalerType)) {
+	if val.CanInterface() && typ.Implements(marshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalXMP on %v for %s\n", val.Type(), name)
 		return val.Interface().(Marshaler).MarshalXMP(e, node, nil)
 	}
@@ -332,7 +332,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	}
 
 	// Check for text marshaler and marshal as node value
-	if val.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+	if val.CanInterface() && typ.Implements(textMarshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalText on %v for %s\n", val.Type(), name)
 		b, err := val.Interface().(encoding.TextMarshaler).MarshalText()
 		if err != nil || b == nil {
-- 
2.43.0


From 7fb7d9170b2f5e80d182ac682ec0717d6929531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 082/128] fix: read arrays that have no methods of their own

---
 xmp/unmarshal.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 6553c27..4ca78a2 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -235,6 +235,11 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		}
 	}
 
+	// arrays without methods of their own, the opposite of what marshalValue does
+	if isPlainArray(val) && val.CanAddr() {
+		return UnmarshalArray(d, src, ArrayTypeOrdered, val.Addr().Interface())
+	}
+
 	// structs
 	if val.Kind() == reflect.Struct {
 		// process attributes first
@@ -284,6 +289,14 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
+func isPlainArray(val reflect.Value) bool {
+	switch val.Kind() {
+	case reflect.Slice, reflect.Array:
+		return val.Type().Elem().Kind() != reflect.Uint8
+	}
+	return false
+}
+
 // Some types have a text form in native tags only and are stored as struct in
 // XMP (i.e. they don't implement TextMarshaler).
 func (d *Decoder) isStructNode(val reflect.Value, src *Node) bool {
-- 
2.43.0


From cfb889905b656d6ca72f6034b5caa0709522e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 083/128] fix: read all values of SplitInt

---
 xmp/units.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 31f3c82..7373bb1 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -109,12 +109,12 @@ func (x *SplitInt) UnmarshalText(data []byte) error {
 		return nil
 	default:
 		// parse integer
-		if i, err := strconv.ParseInt(d, 10, 32); err == nil {
+		if i, err := strconv.ParseInt(d, 10, 33); err == nil {
 			*x = SplitInt(i)
 		} else if f := strings.Split(d, ":"); len(f) == 4 {
 			var u uint32
 			for i := 0; i < 4; i++ {
-				if v, err := strconv.ParseInt(f[i], 10, 8); err != nil {
+				if v, err := strconv.ParseUint(f[i], 10, 8); err != nil {
 					return fmt.Errorf("xmp: parsing SplitInt '%s': invalid syntax", d)
 				} else {
 					u += uint32(v) << uint32((3-i)*8)
-- 
2.43.0


From 05a775445ead8a093857af38bd3a323d5c4bc2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 084/128] fix: read byte arrays of fixed size

---
 xmp/unmarshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 4ca78a2..c9d0347 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -581,6 +581,12 @@ func setValue(dst reflect.Value, src string) error {
 		if dst.Type().Elem().Kind() == reflect.Uint8 {
 			dst.SetBytes([]byte(src))
 		}
+	case reflect.Array:
+		// [...]byte
+		if dst.Type().Elem().Kind() != reflect.Uint8 || dst.Len() != len(src) {
+			return fmt.Errorf("xmp: invalid value for type %s", dst0.Type().String())
+		}
+		reflect.Copy(dst, reflect.ValueOf([]byte(src)))
 	default:
 		return fmt.Errorf("xmp: no method for unmarshalling type %s", dst0.Type().String())
 	}
-- 
2.43.0


From 88c95f47cdd1edf020dceb7ba6b6bcef700354c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 085/128] fix: list the paths of models with empty list items

---
 xmp/path.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index f6c088d..fee88cb 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -991,7 +991,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 						if isText {
 							b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-							if err != nil || b == nil {
+							if err != nil {
 								return err
 							}
 							if value == string(b) {
@@ -1310,7 +1310,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 					if isText {
 						b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-						if err != nil || b == nil {
+						if err != nil {
 							return nil, err
 						}
 						pvl.Add(path.Push(fname).AppendIndex(i), string(b))
@@ -1354,9 +1354,12 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 		if isText {
 			b, err := av.Interface().(encoding.TextMarshaler).MarshalText()
-			if err != nil || b == nil {
+			if err != nil {
 				return nil, err
 			}
+			if b == nil {
+				continue
+			}
 			pvl.Add(path.Push(fname), string(b))
 			continue
 		}
-- 
2.43.0


From 501c3491e8bd25bd78c68d11de55a22808321d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 086/128] fix: get paths of pointers to types that marshal with
 pointer receivers

---
 xmp/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index fee88cb..97a7c3c 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -503,7 +503,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 		// Check for text marshaler and marshal as string
 		av = fv
 		isText := false
-		if fv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+		if fv.CanInterface() && fv.Type().Implements(textMarshalerType) {
 			isText = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
@@ -1342,7 +1342,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		// Check for text marshaler and marshal as string
 		av = fv
 		isText := false
-		if fv.CanInterface() && (finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+		if fv.CanInterface() && fv.Type().Implements(textMarshalerType) {
 			isText = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
-- 
2.43.0


From b57e10b8df10af9e535e3f751d6335ed67f88049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 087/128] fix: list, get and set paths in arrays that have no
 methods of their own

---
 xmp/path.go      | 11 ++++-------
 xmp/unmarshal.go | 13 +++++++++----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 97a7c3c..d135b2b 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -403,7 +403,6 @@ func GetModelPath(v Model, path Path) (string, error) {
 		}
 
 		fv := finfo.value(val)
-		typ := fv.Type()
 
 		// ignore empty fields
 		if !fv.IsValid() {
@@ -430,7 +429,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 		// handle XMP array types
 		av := fv
 		isArray := false
-		if fv.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || typ.Implements(arrayType)) {
+		if fv.CanInterface() && (fv.Type().Implements(arrayType) || isPlainArray(fv)) {
 			isArray = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
@@ -494,7 +493,6 @@ func GetModelPath(v Model, path Path) (string, error) {
 						return "", errNotFound
 					}
 					fv = derefValue(av.Index(idx))
-					typ = fv.Type()
 					finfo = nil
 				}
 			}
@@ -533,12 +531,11 @@ func GetModelPath(v Model, path Path) (string, error) {
 			}
 			// process as simple value below
 			fv = val
-			typ = val.Type()
 		}
 
 		// simple values are just fine, but any other type (slice, array, struct)
 		// without textmarshaler will fail here
-		if s, b, err := marshalSimple(typ, fv); err != nil {
+		if s, b, err := marshalSimple(fv.Type(), fv); err != nil {
 			return "", err
 		} else {
 			if b != nil {
@@ -768,7 +765,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 		if fv.CanAddr() {
 			av = fv.Addr()
 		}
-		if av.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || av.Type().Implements(arrayType)) {
+		if av.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || av.Type().Implements(arrayType) || isPlainArray(fv)) {
 			switch arr := asAltString(av).Interface().(type) {
 			case *ExtensionArray:
 				// unwrap extension namespace and keep path remainder
@@ -1224,7 +1221,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		// handle XMP array types
 		av := fv
 		isArray := false
-		if fv.CanInterface() && (finfo.flags&fArray > 0 || typ.Implements(arrayType)) {
+		if fv.CanInterface() && (fv.Type().Implements(arrayType) || isPlainArray(fv)) {
 			isArray = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index c9d0347..d5bc92c 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -290,11 +290,16 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 }
 
 func isPlainArray(val reflect.Value) bool {
-	switch val.Kind() {
-	case reflect.Slice, reflect.Array:
-		return val.Type().Elem().Kind() != reflect.Uint8
+	if val.Kind() != reflect.Slice && val.Kind() != reflect.Array || val.Type().Elem().Kind() == reflect.Uint8 {
+		return false
 	}
-	return false
+	pt := reflect.PtrTo(val.Type())
+	for _, t := range []reflect.Type{marshalerType, unmarshalerType, textMarshalerType, textUnmarshalerType} {
+		if pt.Implements(t) {
+			return false
+		}
+	}
+	return true
 }
 
 // Some types have a text form in native tags only and are stored as struct in
-- 
2.43.0


From 074b042b4c729d02c78a18d219eab14be56fad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 088/128] fix: list and get paths in arrays with pointer
 receivers

---
 xmp/path.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index d135b2b..0136aee 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -434,7 +434,6 @@ func GetModelPath(v Model, path Path) (string, error) {
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
 			if pv.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || pv.Type().Implements(arrayType)) {
-				av = pv
 				isArray = true
 			}
 		}
@@ -1226,7 +1225,6 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
 			if pv.CanInterface() && (finfo.flags&fArray > 0 || pv.Type().Implements(arrayType)) {
-				av = pv
 				isArray = true
 			}
 		}
-- 
2.43.0


From 313e2779e831179c73724a093492b5711104b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 089/128] fix: do not save pointers to empty arrays

---
 xmp/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index c8aeab6..e391b98 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -545,7 +545,7 @@ func isEmptyValue(v reflect.Value) bool {
 	case reflect.Float32, reflect.Float64:
 		return v.Float() == 0
 	case reflect.Interface, reflect.Ptr:
-		return v.IsNil()
+		return v.IsNil() || v.Elem().Kind() == reflect.Slice && v.Elem().Len() == 0
 	}
 	return false
 }
-- 
2.43.0


From 6ab7bd0603402aca5075d5470ec0da0f1d000e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 090/128] fix: do not write to models when listing and reading
 paths

---
 xmp/path.go     |  4 ++--
 xmp/typeinfo.go | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 0136aee..d087f61 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -402,7 +402,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 			// return "", fmt.Errorf("path field %d (%s) not found: %v", i, name, err)
 		}
 
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		// ignore empty fields
 		if !fv.IsValid() {
@@ -1182,7 +1182,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 	// walk all fields
 	for _, finfo := range tinfo.fields {
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		if !fv.IsValid() {
 			continue
diff --git a/xmp/typeinfo.go b/xmp/typeinfo.go
index c84ba01..39893f9 100644
--- a/xmp/typeinfo.go
+++ b/xmp/typeinfo.go
@@ -355,6 +355,21 @@ func (finfo *fieldInfo) value(v reflect.Value) reflect.Value {
 	return v
 }
 
+// peek is like value, but it doesn't initialize pointers. Readers of a model
+// may run concurrently.
+func (finfo *fieldInfo) peek(v reflect.Value) reflect.Value {
+	for i, x := range finfo.idx {
+		if i > 0 && v.Kind() == reflect.Ptr && v.Type().Elem().Kind() == reflect.Struct {
+			if v.IsNil() {
+				return reflect.Zero(v.Type().Elem().FieldByIndex(finfo.idx[i:]).Type)
+			}
+			v = v.Elem()
+		}
+		v = v.Field(x)
+	}
+	return v
+}
+
 // Load value from interface, but only if the result will be
 // usefully addressable.
 func derefIndirect(v interface{}) reflect.Value {
-- 
2.43.0


From ee2ba105283ecbc15a9a93047413011770f2bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 091/128] fix: do not write to models when saving

---
 xmp/document.go | 2 +-
 xmp/marshal.go  | 4 ++--
 xmp/native.go   | 6 +++---
 xmp/typeinfo.go | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index b2c388c..6de06e6 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -137,7 +137,7 @@ func clearFields(m Model, prefix string) {
 	}
 	for _, finfo := range tinfo.fields {
 		if getPrefix(finfo.name) == prefix {
-			if fv := finfo.value(val); fv.CanSet() {
+			if fv := finfo.peek(val); fv.CanSet() {
 				fv.Set(reflect.Zero(fv.Type()))
 			}
 		}
diff --git a/xmp/marshal.go b/xmp/marshal.go
index e391b98..7f10cf4 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -403,7 +403,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 			continue
 		}
 
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		if (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr) && fv.IsNil() {
 			// log.Debugf("xmp: marshalValue attr field %s is nil\n", finfo.name)
@@ -459,7 +459,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 			continue
 		}
 
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		if (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr) && fv.IsNil() {
 			// log.Debugf("xmp: marshalValue node field %s is nil\n", finfo.name)
diff --git a/xmp/native.go b/xmp/native.go
index b9c579d..c037277 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -74,7 +74,7 @@ func GetNativeField(v Model, name string) (string, error) {
 		return "", err
 	}
 
-	fv := finfo.value(val)
+	fv := finfo.peek(val)
 	typ := fv.Type()
 
 	if !fv.IsValid() {
@@ -226,7 +226,7 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 		return "", err
 	}
 
-	f := finfo.value(val)
+	f := finfo.peek(val)
 
 	if f.Kind() != reflect.Slice && f.Type().Elem() != reflect.TypeOf(AltItem{}) {
 		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
@@ -259,7 +259,7 @@ func ListNativeFields(v Model) (TagList, error) {
 
 	// go through all fields
 	for _, finfo := range tinfo.fields {
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		if !fv.IsValid() {
 			continue
diff --git a/xmp/typeinfo.go b/xmp/typeinfo.go
index 39893f9..531557a 100644
--- a/xmp/typeinfo.go
+++ b/xmp/typeinfo.go
@@ -361,7 +361,7 @@ func (finfo *fieldInfo) peek(v reflect.Value) reflect.Value {
 	for i, x := range finfo.idx {
 		if i > 0 && v.Kind() == reflect.Ptr && v.Type().Elem().Kind() == reflect.Struct {
 			if v.IsNil() {
-				return reflect.Zero(v.Type().Elem().FieldByIndex(finfo.idx[i:]).Type)
+				return reflect.New(v.Type().Elem().FieldByIndex(finfo.idx[i:]).Type).Elem()
 			}
 			v = v.Elem()
 		}
-- 
2.43.0


From e3b98087be933678fd5000268195ffc0eb180122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 092/128] fix: remove one value from string lists

---
 xmp/array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index 2b3147a..82b414f 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -393,7 +393,7 @@ func (x *StringList) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -497,7 +497,7 @@ func (x *StringArray) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
-- 
2.43.0


From 0c1f7cd480c553b5cdadeeede148e98c10d08800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 093/128] fix: don't overwrite existing values in Sync without
 replace flag

---
 xmp/sync.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index 2f2294f..51248b6 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -231,8 +231,9 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return nil
 	}
 
-	// existing destination values require replace/delete/append/unique flag
-	if dValue != "" && flags&(REPLACE|DELETE|APPEND|UNIQUE) == 0 {
+	// existing destination values require replace/append/unique flag (or delete
+	// flag when the source is empty)
+	if dValue != "" && sValue != "" && flags&(REPLACE|APPEND|UNIQUE) == 0 {
 		return nil
 	}
 
-- 
2.43.0


From 98df94649018be1dbf782f40b3fb716350a31803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 094/128] fix: don't overwrite values behind pointers without
 replace flag

---
 xmp/path.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index d087f61..1cee810 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -684,6 +684,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 		if !fv.IsValid() {
 			return nil
 		}
+		isSet := fv.Type().Kind() == reflect.Ptr && !fv.IsNil()
 		if fv.Type().Kind() == reflect.Ptr && fv.IsNil() && fv.CanSet() {
 			fv.Set(reflect.New(fv.Type().Elem()))
 		}
@@ -1088,7 +1089,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 		}
 
 		// for simple values, check current value before replacing
-		if flags&REPLACE == 0 && value != "" && !isEmptyValue(fv) {
+		if flags&REPLACE == 0 && value != "" && (isSet || !isEmptyValue(fv)) {
 			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 		}
 
-- 
2.43.0


From bfa6d30729f3dba2cabc2c83a891dd93f3d7ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 095/128] fix: RIFF tags refused because of two doubly used
 tags

---
 models/riff/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/riff/model.go b/models/riff/model.go
index ef04520..c27825a 100644
--- a/models/riff/model.go
+++ b/models/riff/model.go
@@ -79,7 +79,7 @@ type RiffInfo struct {
 	SoundSchemeTitle    string `riffinfo:"DISP" xmp:"riffinfo:SoundSchemeTitle"`
 	DateTimeOriginal    string `riffinfo:"DTIM" xmp:"riffinfo:DateTimeOriginal"`
 	Genre2              string `riffinfo:"GENR" xmp:"riffinfo:Genre"`
-	ArchivalLocation    string `riffinfo:"IARL" xmp:"riffinfo:ArchivalLocation"`
+	ArchivalLocation    string `riffinfo:"-"    xmp:"riffinfo:ArchivalLocation"`
 	FirstLanguage       string `riffinfo:"IAS1" xmp:"riffinfo:FirstLanguage"`
 	SecondLanguage      string `riffinfo:"IAS2" xmp:"riffinfo:SecondLanguage"`
 	ThirdLanguage       string `riffinfo:"IAS3" xmp:"riffinfo:ThirdLanguage"`
@@ -92,7 +92,7 @@ type RiffInfo struct {
 	BaseURL             string `riffinfo:"IBSU" xmp:"riffinfo:BaseURL"`
 	DefaultAudioStream  string `riffinfo:"ICAS" xmp:"riffinfo:DefaultAudioStream"`
 	CostumeDesigner     string `riffinfo:"ICDS" xmp:"riffinfo:CostumeDesigner"`
-	Commissioned        string `riffinfo:"ICMS" xmp:"riffinfo:Commissioned"`
+	Commissioned        string `riffinfo:"-"    xmp:"riffinfo:Commissioned"`
 	Cinematographer     string `riffinfo:"ICNM" xmp:"riffinfo:Cinematographer"`
 	Country             string `riffinfo:"ICNT" xmp:"riffinfo:Country"`
 	Cropped             string `riffinfo:"ICRP" xmp:"riffinfo:Cropped"`
-- 
2.43.0


From be06082ca34eccfedf46daf9e135e588345c3283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 096/128] fix: find EXIF tags of the exifEX model and in any
 case

---
 models/exif/model.go | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index cc230cb..1ba3eaa 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -379,6 +379,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ExifInfo) CanTag(tag string) bool {
+	tag = strings.ToLower(tag)
 	_, err := xmp.GetNativeField(x, tag)
 	return err == nil
 }
@@ -418,25 +419,25 @@ func (x *ExifInfo) SetLocaleTag(lang string, tag, value string) error {
 }
 
 type ExifEXInfo struct {
-	InteroperabilityIndex     InteropMode       `exif:"0x0001" xmp:"exifEX:InteroperabilityIndex"`
-	InteroperabilityVersion   string            `exif:"0x0002" xmp:"exifEX:InteroperabilityVersion"`
-	RelatedImageFileFormat    string            `exif:"0x1000" xmp:"exifEX:RelatedImageFileFormat"`
-	RelatedImageWidth         int               `exif:"0x1001" xmp:"exifEX:RelatedImageWidth"`
-	RelatedImageLength        int               `exif:"0x1002" xmp:"exifEX:RelatedImageLength"`
-	PhotographicSensitivity   int               `exif:"0x8827" xmp:"exifEX:PhotographicSensitivity"`
-	SensitivityType           SensitivityType   `exif:"0x8830" xmp:"exifEX:SensitivityType"`
-	StandardOutputSensitivity int               `exif:"0x8831" xmp:"exifEX:StandardOutputSensitivity"`
-	RecommendedExposureIndex  int               `exif:"0x8832" xmp:"exifEX:RecommendedExposureIndex"`
-	ISOSpeed                  int               `exif:"0x8833" xmp:"exifEX:ISOSpeed"`
-	ISOSpeedLatitudeyyy       int               `exif:"0x8834" xmp:"exifEX:ISOSpeedLatitudeyyy"`
-	ISOSpeedLatitudezzz       int               `exif:"0x8835" xmp:"exifEX:ISOSpeedLatitudezzz"`
-	CameraOwnerName           string            `exif:"0xa430" xmp:"exifEX:CameraOwnerName"`
-	BodySerialNumber          string            `exif:"0xa431" xmp:"exifEX:BodySerialNumber"`
-	LensSpecification         xmp.RationalArray `exif:"0xa432" xmp:"exifEX:LensSpecification"` // 4 components: min/max [mm] + min/max [f-stop]
-	LensMake                  string            `exif:"0xa433" xmp:"exifEX:LensMake"`
-	LensModel                 string            `exif:"0xa434" xmp:"exifEX:LensModel"`
-	LensSerialNumber          string            `exif:"0xa435" xmp:"exifEX:LensSerialNumber"`
-	Gamma                     xmp.Rational      `exif:"0xa500" xmp:"exifEX:Gamma"`
+	InteroperabilityIndex     InteropMode       `exifEX:"0x0001" xmp:"exifEX:InteroperabilityIndex"`
+	InteroperabilityVersion   string            `exifEX:"0x0002" xmp:"exifEX:InteroperabilityVersion"`
+	RelatedImageFileFormat    string            `exifEX:"0x1000" xmp:"exifEX:RelatedImageFileFormat"`
+	RelatedImageWidth         int               `exifEX:"0x1001" xmp:"exifEX:RelatedImageWidth"`
+	RelatedImageLength        int               `exifEX:"0x1002" xmp:"exifEX:RelatedImageLength"`
+	PhotographicSensitivity   int               `exifEX:"0x8827" xmp:"exifEX:PhotographicSensitivity"`
+	SensitivityType           SensitivityType   `exifEX:"0x8830" xmp:"exifEX:SensitivityType"`
+	StandardOutputSensitivity int               `exifEX:"0x8831" xmp:"exifEX:StandardOutputSensitivity"`
+	RecommendedExposureIndex  int               `exifEX:"0x8832" xmp:"exifEX:RecommendedExposureIndex"`
+	ISOSpeed                  int               `exifEX:"0x8833" xmp:"exifEX:ISOSpeed"`
+	ISOSpeedLatitudeyyy       int               `exifEX:"0x8834" xmp:"exifEX:ISOSpeedLatitudeyyy"`
+	ISOSpeedLatitudezzz       int               `exifEX:"0x8835" xmp:"exifEX:ISOSpeedLatitudezzz"`
+	CameraOwnerName           string            `exifEX:"0xa430" xmp:"exifEX:CameraOwnerName"`
+	BodySerialNumber          string            `exifEX:"0xa431" xmp:"exifEX:BodySerialNumber"`
+	LensSpecification         xmp.RationalArray `exifEX:"0xa432" xmp:"exifEX:LensSpecification"` // 4 components: min/max [mm] + min/max [f-stop]
+	LensMake                  string            `exifEX:"0xa433" xmp:"exifEX:LensMake"`
+	LensModel                 string            `exifEX:"0xa434" xmp:"exifEX:LensModel"`
+	LensSerialNumber          string            `exifEX:"0xa435" xmp:"exifEX:LensSerialNumber"`
+	Gamma                     xmp.Rational      `exifEX:"0xa500" xmp:"exifEX:Gamma"`
 }
 
 func (m *ExifEXInfo) Namespaces() xmp.NamespaceList {
-- 
2.43.0


From e5beab0b537b1548eef85ed554637bb5e0b484c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 097/128] fix: find QuickTime tags with copyright sign and
 report known tags

---
 models/qt/model.go | 51 ++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 76ebc1b..377b562 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -54,6 +54,7 @@ package qt
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/trimmer-io/go-xmp/models/ixml"
 	"github.com/trimmer-io/go-xmp/xmp"
@@ -175,28 +176,34 @@ func (x QtInfo) SyncToXMP(d *xmp.Document) error {
 
 func (x *QtInfo) CanTag(tag string) bool {
 	switch {
-	case len(tag) == 4:
+	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+		return true
+	case isFourCC(tag):
 		v := &QtUserdata{}
 		_, err := xmp.GetNativeField(v, tag)
 		return err == nil
-	case strings.HasPrefix("com.apple.quicktime.player", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
 		v := &QtPlayer{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.quicktime", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime"):
 		v := &QtMetadata{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.proapps", tag):
+	case strings.HasPrefix(tag, "com.apple.proapps"):
 		v := &QtProApps{}
 		return v.CanTag(tag)
-	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
-		return true
 	}
 	return false
 }
 
+// isFourCC tells whether tag is a user data atom name. The copyright sign such
+// names may begin with is one byte in a file, but two in a Go string.
+func isFourCC(tag string) bool {
+	return utf8.RuneCountInString(tag) == 4
+}
+
 func (x *QtInfo) GetTag(tag string) (string, error) {
 	switch {
-	case len(tag) == 4:
+	case isFourCC(tag):
 		if x.Udta == nil {
 			return "", nil
 		}
@@ -238,7 +245,21 @@ func (x *QtInfo) GetTag(tag string) (string, error) {
 
 func (x *QtInfo) SetTag(tag, value string) error {
 	switch {
-	case len(tag) == 4:
+	case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+		i := &ixml.IXML{}
+		if err := i.ParseXML([]byte(value)); err != nil {
+			return fmt.Errorf("%s: parsing ixml: %v", NsQuicktime.GetName(), err)
+		} else {
+			x.IXML = i
+		}
+	case tag == "XMP_":
+		v := xmp.NewDocument()
+		if err := xmp.Unmarshal([]byte(value), v); err != nil {
+			return fmt.Errorf("%s: parsing embedded xmp: %v", NsQuicktime.GetName(), err)
+		} else {
+			x.XMP = v
+		}
+	case isFourCC(tag):
 		if x.Udta == nil {
 			x.Udta = &QtUserdata{}
 		}
@@ -266,20 +287,6 @@ func (x *QtInfo) SetTag(tag, value string) error {
 		if err := xmp.SetNativeField(x.ProApps, tag, value); err != nil {
 			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
 		}
-	case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
-		i := &ixml.IXML{}
-		if err := i.ParseXML([]byte(value)); err != nil {
-			return fmt.Errorf("%s: parsing ixml: %v", NsQuicktime.GetName(), err)
-		} else {
-			x.IXML = i
-		}
-	case tag == "XMP_":
-		v := xmp.NewDocument()
-		if err := xmp.Unmarshal([]byte(value), v); err != nil {
-			return fmt.Errorf("%s: parsing embedded xmp: %v", NsQuicktime.GetName(), err)
-		} else {
-			x.XMP = v
-		}
 	default:
 		// silently ignore all other sorts of tags
 	}
-- 
2.43.0


From f9398e1323bb5793ab6f18d9aa77d126c9025c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 098/128] fix: report native tags that cannot be stored

---
 xmp/native.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/native.go b/xmp/native.go
index c037277..2621341 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -173,6 +173,11 @@ func SetNativeField(v Model, name, value string) error {
 		return f.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
 	}
 
+	// arrays without text form cannot hold a native value
+	if f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8 {
+		return fmt.Errorf("field '%s' has type '%s' which cannot be set from a text value", name, f.Type().String())
+	}
+
 	// otherwise set simple field value directly or fail
 	return setValue(f, value)
 }
-- 
2.43.0


From 7ef3c78e5a96b15d81c95828961d9322a258732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 099/128] fix: no panic when reading languages of a tag without
 languages

---
 xmp/native.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/native.go b/xmp/native.go
index 2621341..2fefd8f 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -233,7 +233,7 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 
 	f := finfo.peek(val)
 
-	if f.Kind() != reflect.Slice && f.Type().Elem() != reflect.TypeOf(AltItem{}) {
+	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
 		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
 	}
 
-- 
2.43.0


From 8182ea669d49b2c9655615cbd325d18439133de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 100/128] fix: list the tags of all parts of QuickTime metadata

---
 models/qt/model.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 377b562..5de01c0 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -294,9 +294,26 @@ func (x *QtInfo) SetTag(tag, value string) error {
 }
 
 func (x *QtInfo) ListTags() (xmp.TagList, error) {
-	if l, err := xmp.ListNativeFields(x); err != nil {
-		return nil, fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-	} else {
-		return l, nil
+	var models []xmp.Model
+	if x.Udta != nil {
+		models = append(models, x.Udta)
+	}
+	if x.Mdta != nil {
+		models = append(models, x.Mdta)
+	}
+	if x.Player != nil {
+		models = append(models, x.Player)
+	}
+	if x.ProApps != nil {
+		models = append(models, x.ProApps)
+	}
+	list := append(xmp.TagList{}, x.Extension...)
+	for _, m := range models {
+		l, err := xmp.ListNativeFields(m)
+		if err != nil {
+			return nil, fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
+		}
+		list = append(list, l...)
 	}
+	return list, nil
 }
-- 
2.43.0


From 5f4bacd27c2ff3c6f982ecadcbc3e99c3c385738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 101/128] fix: no panic when listing tags with binary values

---
 xmp/native.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index 2fefd8f..3cbbaeb 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -290,7 +290,7 @@ func ListNativeFields(v Model) (TagList, error) {
 		}
 
 		// Check for text marshaler and marshal as node value
-		if fv.CanInterface() && typ.Implements(textMarshalerType) {
+		if fv.CanInterface() && fv.Type().Implements(textMarshalerType) {
 			b, err := fv.Interface().(encoding.TextMarshaler).MarshalText()
 			if err != nil {
 				return nil, err
@@ -337,7 +337,7 @@ func ListNativeFields(v Model) (TagList, error) {
 
 		// simple values are just fine, but any other type (slice, array, struct)
 		// without textmarshaler will fail here
-		if s, b, err := marshalSimple(typ, fv); err != nil {
+		if s, b, err := marshalSimple(fv.Type(), fv); err != nil {
 			return nil, err
 		} else {
 			if b != nil {
-- 
2.43.0


From b6ba349b6dffeb096b6d890444291f9708d15577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 102/128] fix: read the ID3 v2.2 content type as genre

---
 models/id3/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 88b8024..ae2a53b 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -364,7 +364,7 @@ var V22_TO_V24_TAGS map[string]string = map[string]string{
 	"TAL": "TALB", //   Album/Movie/Show title
 	"TBP": "TBPM", //   BPM (Beats Per Minute)
 	"TCM": "TCOM", //   Composer
-	"TCO": "TMED", //   Content type
+	"TCO": "TCON", //   Content type
 	"TCR": "TCOP", //   Copyright message
 	"TDA": "TDRC", // # Date, arguably this could also be release date TDRL
 	"TDY": "TDLY", //   Playlist delay
-- 
2.43.0


From f662d33e1371aecec5973c8fcfeed75ecaeee4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 103/128] fix: set languages through older ID3 tag names

---
 models/id3/model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index ae2a53b..e39f224 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -479,7 +479,11 @@ func (x *ID3) GetLocaleTag(lang string, tag string) (string, error) {
 }
 
 func (x *ID3) SetLocaleTag(lang string, tag, value string) error {
-	if err := xmp.SetLocaleField(x, lang, tag, value); err != nil {
+	t, err := mapTagToV24(tag)
+	if err != nil {
+		return err
+	}
+	if err := xmp.SetLocaleField(x, lang, t, value); err != nil {
 		return fmt.Errorf("%s: %v", NsID3.GetName(), err)
 	}
 	return nil
-- 
2.43.0


From e2f8362bdc89fd57827f4c7ea6cd3a8b6405363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:37 +0000
Subject: [PATCH 104/128] fix: clear native fields that are set to an empty
 string

---
 xmp/native.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmp/native.go b/xmp/native.go
index 3cbbaeb..b9ff592 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -142,6 +142,12 @@ func SetNativeField(v Model, name, value string) error {
 
 	f := finfo.value(val)
 
+	// many types cannot be parsed from an empty string, clear them instead
+	if value == "" && f.CanSet() {
+		f.Set(reflect.Zero(f.Type()))
+		return nil
+	}
+
 	// allocate memory for pointer values in structs
 	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
 		f.Set(reflect.New(f.Type().Elem()))
-- 
2.43.0


From 92ec093a389290bcce9430274d7c0c99f6cd081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:37 +0000
Subject: [PATCH 105/128] fix: join EXIF artists with the separator they are
 split at

---
 models/exif/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index 1ba3eaa..980e0a9 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -282,7 +282,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if m := dc.FindModel(d); m != nil {
 		x.ArtistXMP = m.Creator
-		x.Artist = strings.Join(m.Creator, ",")
+		x.Artist = strings.Join(m.Creator, ";")
 		x.ImageDescriptionXMP = m.Description
 		x.ImageDescription = m.Description.Default()
 		x.CopyrightXMP = m.Rights
-- 
2.43.0


From 87c0646b3316616bce45bd703d1354e0cf2923af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:37 +0000
Subject: [PATCH 106/128] fix: take the EXIF software from the creator tool

---
 models/exif/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index 980e0a9..ecbe9ec 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -294,7 +294,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 			x.DateTime = Date(base.ModifyDate.Value())
 			x.SubSecTime = strconv.Itoa(base.ModifyDate.Value().Nanosecond())
 		}
-		if base.CreatorTool.IsZero() {
+		if !base.CreatorTool.IsZero() {
 			x.SoftwareXMP = base.CreatorTool
 			x.Software = base.CreatorTool.String()
 		}
-- 
2.43.0


From f6bca71fe340c359e306d651d8210dd7fb35089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:01 +0000
Subject: [PATCH 107/128] fix: keep the subseconds of EXIF dates

---
 models/exif/model.go |  7 +++----
 models/exif/types.go | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index ecbe9ec..91b6aae 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -27,7 +27,6 @@ package exif
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/dc"
@@ -270,7 +269,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 	if !x.DateTimeDigitizedXMP.IsZero() {
 		x.DateTimeDigitized = Date(x.DateTimeDigitizedXMP.Value())
 		x.digitized = x.DateTimeDigitized
-		x.SubSecTimeDigitized = strconv.Itoa(x.DateTimeDigitizedXMP.Value().Nanosecond())
+		x.SubSecTimeDigitized = subSecond(x.DateTimeDigitizedXMP.Value())
 	}
 
 	if len(x.ISOSpeedRatings) > 0 {
@@ -292,7 +291,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !base.ModifyDate.IsZero() {
 			x.DateTimeXMP = base.ModifyDate
 			x.DateTime = Date(base.ModifyDate.Value())
-			x.SubSecTime = strconv.Itoa(base.ModifyDate.Value().Nanosecond())
+			x.SubSecTime = subSecond(base.ModifyDate.Value())
 		}
 		if !base.CreatorTool.IsZero() {
 			x.SoftwareXMP = base.CreatorTool
@@ -325,7 +324,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !m.DateCreated.IsZero() {
 			x.DateTimeOriginalXMP = m.DateCreated
 			x.DateTimeOriginal = Date(m.DateCreated.Value())
-			x.SubSecTimeOriginal = strconv.Itoa(m.DateCreated.Value().Nanosecond())
+			x.SubSecTimeOriginal = subSecond(m.DateCreated.Value())
 		}
 	}
 	return nil
diff --git a/models/exif/types.go b/models/exif/types.go
index 3f9c9be..a90711d 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -121,19 +121,26 @@ func convertDateToXMP(d Date, s string) (xmp.Date, error) {
 	}
 	xd := xmp.Date(d)
 	s = strings.TrimSpace(s)
-	if s != "" {
+	if s == "" {
 		return xd, nil
 	}
-	if i, err := strconv.ParseInt(s, 10, 64); err != nil {
+	if len(s) > 9 {
+		s = s[:9]
+	}
+	if i, err := strconv.ParseUint(s, 10, 32); err != nil {
 		return xd, fmt.Errorf("exif: invalid subsecond format '%s': %v", s, err)
 	} else {
-		sec := d.Value().Unix()
-		nsec := i * int64(math.Pow10(9-len(s)))
-		xd = xmp.Date(time.Unix(sec, nsec))
+		nsec := int64(i) * int64(math.Pow10(9-len(s)))
+		xd = xmp.Date(d.Value().Truncate(time.Second).Add(time.Duration(nsec)))
 	}
 	return xd, nil
 }
 
+// subSecond returns the decimal fraction of seconds as used in SubSecTime tags
+func subSecond(t time.Time) string {
+	return strings.TrimRight(fmt.Sprintf("%09d", t.Nanosecond()), "0")
+}
+
 type ComponentArray []Component
 
 func (x ComponentArray) String() string {
-- 
2.43.0


From dc43aa9a51703136cea558e846c4a9ff67a27265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 108/128] fix: keep the software given under its old TIFF name

---
 models/tiff/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/tiff/model.go b/models/tiff/model.go
index 9e7d205..f1bc30b 100644
--- a/models/tiff/model.go
+++ b/models/tiff/model.go
@@ -157,6 +157,9 @@ func (x TiffInfo) SyncToXMP(d *xmp.Document) error {
 	if base.CreatorTool.IsZero() && x.Software != "" {
 		base.CreatorTool = xmp.AgentName(x.Software)
 	}
+	if base.CreatorTool.IsZero() && x.X_Software != "" {
+		base.CreatorTool = xmp.AgentName(x.X_Software)
+	}
 	return nil
 }
 
-- 
2.43.0


From 7de26f12721591b798762f49575e60dbccf4fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 109/128] fix: read values under old TIFF and EXIF names
 without an edit

---
 models/exif/model.go |  3 +++
 models/tiff/model.go | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/models/exif/model.go b/models/exif/model.go
index 91b6aae..d019627 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -327,6 +327,9 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 			x.SubSecTimeOriginal = subSecond(m.DateCreated.Value())
 		}
 	}
+	if x.DateTimeOriginalXMP.IsZero() && !x.DateTimeOriginal.IsZero() {
+		x.DateTimeOriginalXMP, _ = convertDateToXMP(x.DateTimeOriginal, x.SubSecTimeOriginal)
+	}
 	return nil
 }
 
diff --git a/models/tiff/model.go b/models/tiff/model.go
index f1bc30b..c0cd908 100644
--- a/models/tiff/model.go
+++ b/models/tiff/model.go
@@ -115,6 +115,22 @@ func (x *TiffInfo) SyncFromXMP(d *xmp.Document) error {
 			x.Software = m.CreatorTool.String()
 		}
 	}
+	// values under wrong names stand in for missing ones
+	if len(x.Artist) == 0 && x.X_Artist != "" {
+		x.Artist = strings.Split(x.X_Artist, ",")
+	}
+	if len(x.ImageDescription) == 0 {
+		x.ImageDescription = x.X_ImageDescription
+	}
+	if len(x.Copyright) == 0 {
+		x.Copyright = x.X_Copyright
+	}
+	if x.DateTime.IsZero() {
+		x.DateTime = x.X_DateTime
+	}
+	if x.Software == "" {
+		x.Software = x.X_Software
+	}
 	return nil
 }
 
-- 
2.43.0


From 21d5b060ccd311cb959df7f6463049f9398f119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 110/128] fix: keep QuickTime locations

---
 models/qt/qt_metadata.go | 23 +++--------------------
 models/qt/types.go       | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/models/qt/qt_metadata.go b/models/qt/qt_metadata.go
index ea385fc..bc376cd 100644
--- a/models/qt/qt_metadata.go
+++ b/models/qt/qt_metadata.go
@@ -16,8 +16,6 @@ package qt
 
 import (
 	"fmt"
-	"strconv"
-	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/tiff"
 	"github.com/trimmer-io/go-xmp/xmp"
@@ -126,11 +124,7 @@ func (x *QtMetadata) SyncFromXMP(d *xmp.Document) error {
 	if x.Location != nil {
 		x.LocationBody = x.Location.Body
 		x.LocationDate = x.Location.Date
-		x.LocationISO6709 = strings.Join([]string{
-			string(x.Location.Latitude),
-			string(x.Location.Longitude),
-			strconv.FormatFloat(x.Location.Altitude, 'f', -1, 64),
-		}, "+")
+		x.LocationISO6709 = formatISO6709(x.Location)
 		x.LocationName = x.Location.Name
 		x.LocationNote = x.Location.Note
 		x.LocationRole = x.Location.Role
@@ -139,7 +133,7 @@ func (x *QtMetadata) SyncFromXMP(d *xmp.Document) error {
 }
 
 func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
-	if x.Location == nil && x.LocationISO6709 != "" && x.LocationName != "" {
+	if x.Location == nil && (x.LocationISO6709 != "" || x.LocationName != "") {
 		x.Location = &Location{
 			Body: x.LocationBody,
 			Date: x.LocationDate,
@@ -147,18 +141,7 @@ func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
 			Note: x.LocationNote,
 			Role: x.LocationRole,
 		}
-		// "+43.5968+005.4797+362.904/",
-		for i, v := range strings.Split(x.LocationISO6709, "+") {
-			switch i {
-			case 0:
-				x.Location.Latitude = xmp.GPSCoord(v)
-			case 1:
-				x.Location.Longitude = xmp.GPSCoord(v)
-			case 2:
-				v = strings.TrimSuffix(v, "/")
-				x.Location.Altitude, _ = strconv.ParseFloat(v, 64)
-			}
-		}
+		parseISO6709(x.LocationISO6709, x.Location)
 	}
 	return nil
 }
diff --git a/models/qt/types.go b/models/qt/types.go
index 2719b95..d8615d2 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -57,6 +57,45 @@ type Location struct {
 	Role      LocationRole `xmp:"qt:Role,attr"`
 }
 
+// parseISO6709 splits text such as "+43.5968+005.4797+362.904/" at the signs
+func parseISO6709(s string, x *Location) {
+	var vals []string
+	for _, c := range strings.TrimSuffix(s, "/") {
+		if c == '+' || c == '-' || len(vals) == 0 {
+			vals = append(vals, "")
+		}
+		vals[len(vals)-1] += string(c)
+	}
+	for i, v := range vals {
+		switch i {
+		case 0:
+			x.Latitude = xmp.GPSCoord(v)
+		case 1:
+			x.Longitude = xmp.GPSCoord(v)
+		case 2:
+			x.Altitude, _ = strconv.ParseFloat(v, 64)
+		}
+	}
+}
+
+func formatISO6709(x *Location) string {
+	if x.Latitude == "" && x.Longitude == "" {
+		return ""
+	}
+	s := signed(string(x.Latitude)) + signed(string(x.Longitude))
+	if x.Altitude != 0 {
+		s += signed(strconv.FormatFloat(x.Altitude, 'f', -1, 64))
+	}
+	return s + "/"
+}
+
+func signed(s string) string {
+	if s == "" || strings.HasPrefix(s, "-") || strings.HasPrefix(s, "+") {
+		return s
+	}
+	return "+" + s
+}
+
 func (x *Location) UnmarshalText(data []byte) error {
 	// todo: need sample data
 	return nil
-- 
2.43.0


From 47fe63f3c04e5d95358d8b1bd43e79c6055e45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 111/128] fix: remove the copies of a removed property

---
 models/exif/model.go | 18 ++++++++++++++++++
 models/tiff/model.go | 16 ++++++++++++++++
 xmp/document.go      | 32 +++++++++++++++++++++++++++++++-
 xmp/path.go          |  6 ++++++
 xmp/registry.go      |  7 +++++++
 xmp/sync.go          |  3 +++
 6 files changed, 81 insertions(+), 1 deletion(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index d019627..c7c105c 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -264,6 +264,24 @@ func (x *ExifInfo) SyncModel(d *xmp.Document) error {
 	return nil
 }
 
+// ClearProperty removes native values of a removed XMP property.
+func (x *ExifInfo) ClearProperty(name string) {
+	switch name {
+	case "dc:creator":
+		x.Artist = ""
+	case "dc:description":
+		x.ImageDescription = ""
+	case "dc:rights":
+		x.Copyright = ""
+	case "xmp:CreatorTool":
+		x.Software = ""
+	case "xmp:ModifyDate":
+		x.DateTime, x.SubSecTime = Date{}, ""
+	case "photoshop:DateCreated":
+		x.DateTimeOriginal, x.SubSecTimeOriginal = Date{}, ""
+	}
+}
+
 func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if !x.DateTimeDigitizedXMP.IsZero() {
diff --git a/models/tiff/model.go b/models/tiff/model.go
index c0cd908..ef7a89b 100644
--- a/models/tiff/model.go
+++ b/models/tiff/model.go
@@ -103,6 +103,22 @@ func (x *TiffInfo) SyncModel(d *xmp.Document) error {
 	return nil
 }
 
+// ClearProperty removes native values of a removed XMP property.
+func (x *TiffInfo) ClearProperty(name string) {
+	switch name {
+	case "dc:creator":
+		x.X_Artist = ""
+	case "dc:description":
+		x.X_ImageDescription = nil
+	case "dc:rights":
+		x.X_Copyright = nil
+	case "xmp:CreatorTool":
+		x.X_Software = ""
+	case "xmp:ModifyDate":
+		x.X_DateTime = xmp.Date{}
+	}
+}
+
 func (x *TiffInfo) SyncFromXMP(d *xmp.Document) error {
 	if m := dc.FindModel(d); m != nil {
 		x.Artist = m.Creator
diff --git a/xmp/document.go b/xmp/document.go
index 6de06e6..a7e0707 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -126,7 +126,37 @@ func (d *Document) clearRemoved() {
 	}
 }
 
+// clears copies of a property that has been removed from model m in all other
+// models, implicit sync would bring it back
+func (d *Document) clearCopies(m Model, path Path) {
+	name := path.property()
+	val := derefIndirect(m)
+	if val.Kind() != reflect.Struct {
+		return
+	}
+	finfo, err := findField(val, name, "xmp")
+	if err != nil || finfo.name != name {
+		return
+	}
+	if fv := finfo.peek(val); path.String() != name && !fv.IsZero() && !isEmptyValue(fv) {
+		return // only a part is gone
+	}
+	for _, n := range d.nodes {
+		if n.Model == nil || n.Model == m {
+			continue
+		}
+		clearMatchingFields(n.Model, func(s string) bool { return s == name })
+		if c, ok := n.Model.(PropertyClearer); ok {
+			c.ClearProperty(name)
+		}
+	}
+}
+
 func clearFields(m Model, prefix string) {
+	clearMatchingFields(m, func(s string) bool { return getPrefix(s) == prefix })
+}
+
+func clearMatchingFields(m Model, match func(string) bool) {
 	val := derefIndirect(m)
 	if val.Kind() != reflect.Struct {
 		return
@@ -136,7 +166,7 @@ func clearFields(m Model, prefix string) {
 		return
 	}
 	for _, finfo := range tinfo.fields {
-		if getPrefix(finfo.name) == prefix {
+		if match(finfo.name) {
 			if fv := finfo.peek(val); fv.CanSet() {
 				fv.Set(reflect.Zero(fv.Type()))
 			}
diff --git a/xmp/path.go b/xmp/path.go
index 1cee810..9b48a5c 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -617,6 +617,9 @@ func (d *Document) SetPath(desc PathValue) error {
 	// skip when equal (paths to lists yield the first item, but a list may
 	// contain the same value more than once)
 	if dest == value && (value == "" || flags&(APPEND|UNIQUE) != APPEND) {
+		if m != nil && value == "" {
+			d.clearCopies(m, path)
+		}
 		return nil
 	}
 
@@ -646,6 +649,9 @@ func (d *Document) SetPath(desc PathValue) error {
 	}
 	if err == nil {
 		d.SetDirty()
+		if m != nil && value == "" {
+			d.clearCopies(m, path)
+		}
 	}
 
 	if flags&NOFAIL > 0 {
diff --git a/xmp/registry.go b/xmp/registry.go
index ee93c51..83d8f5f 100644
--- a/xmp/registry.go
+++ b/xmp/registry.go
@@ -34,6 +34,13 @@ type Model interface {
 	SetTag(tag, value string) error
 }
 
+// PropertyClearer is an optional interface for models that keep native copies of
+// XMP properties. ClearProperty is called with the name of a property that has
+// been removed from a document, e.g. `dc:creator`.
+type PropertyClearer interface {
+	ClearProperty(name string)
+}
+
 func emptyFactory(name string) Model {
 	return nil
 }
diff --git a/xmp/sync.go b/xmp/sync.go
index 51248b6..2d3962c 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -249,6 +249,9 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return err
 	}
 	d.SetDirty()
+	if sValue == "" {
+		d.clearCopies(dModel, dPath)
+	}
 	return nil
 }
 
-- 
2.43.0


From 2e250ed6e10a57e0a91737d990604efc0f942030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:35 +0000
Subject: [PATCH 112/128] fix: compare the converted value when syncing

---
 xmp/sync.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index 2d3962c..3dde0eb 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -216,6 +216,11 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return err
 	}
 
+	// convert the source value if requested
+	if f != nil && sValue != "" {
+		sValue = f(sValue)
+	}
+
 	// skip when equal
 	if sValue == dValue {
 		return nil
@@ -237,11 +242,6 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return nil
 	}
 
-	// convert the source value if requested
-	if f != nil {
-		sValue = f(sValue)
-	}
-
 	if err = SetModelPath(dModel, dPath, sValue, flags); err != nil {
 		if flags&NOFAIL > 0 {
 			return nil
-- 
2.43.0


From 839bf8712256e47767f398f99b4071c6f1bb705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 113/128] fix: remove native EXIF values of removed properties

A property that the EXIF model stores under the XMP name itself also came
back from the date and GPS tags the model had written.
---
 models/exif/model.go | 12 ++++++++++++
 xmp/document.go      |  6 ++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index c7c105c..d65b5bb 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -279,6 +279,18 @@ func (x *ExifInfo) ClearProperty(name string) {
 		x.DateTime, x.SubSecTime = Date{}, ""
 	case "photoshop:DateCreated":
 		x.DateTimeOriginal, x.SubSecTimeOriginal = Date{}, ""
+	case "exif:DateTimeDigitized":
+		x.DateTimeDigitized, x.SubSecTimeDigitized = Date{}, ""
+	case "exif:GPSLatitude":
+		x.GPSLatitude, x.GPSLatitudeRef = GPSCoord{}, ""
+	case "exif:GPSLongitude":
+		x.GPSLongitude, x.GPSLongitudeRef = GPSCoord{}, ""
+	case "exif:GPSDestLatitude":
+		x.GPSDestLatitude, x.GPSDestLatitudeRef = GPSCoord{}, ""
+	case "exif:GPSDestLongitude":
+		x.GPSDestLongitude, x.GPSDestLongitudeRef = GPSCoord{}, ""
+	case "exif:GPSTimeStamp":
+		x.GPSDateStamp, x.GPSTimeStamp = Date{}, nil
 	}
 }
 
diff --git a/xmp/document.go b/xmp/document.go
index a7e0707..c3f612b 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -142,10 +142,12 @@ func (d *Document) clearCopies(m Model, path Path) {
 		return // only a part is gone
 	}
 	for _, n := range d.nodes {
-		if n.Model == nil || n.Model == m {
+		if n.Model == nil {
 			continue
 		}
-		clearMatchingFields(n.Model, func(s string) bool { return s == name })
+		if n.Model != m {
+			clearMatchingFields(n.Model, func(s string) bool { return s == name })
+		}
 		if c, ok := n.Model.(PropertyClearer); ok {
 			c.ClearProperty(name)
 		}
-- 
2.43.0


From fa12fd2432c8df8442f08758cd382d9c7474d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 114/128] fix: save new subseconds of an unchanged digitizing
 date

The date was only written when it differed from the one loaded, without
looking at the subseconds tag.
---
 models/exif/model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index d65b5bb..9cdfb95 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -249,7 +249,8 @@ type ExifInfo struct {
 	AuxOwnerName                                          string       `xmp:"exif:OwnerName"`                                          // unknown
 	// AuxLensSerialNumber                                   string        `xmp:"exif:LensSerialNumber"`
 
-	digitized Date // DateTimeDigitized as taken from XMP
+	digitized       Date   // DateTimeDigitized as taken from XMP
+	subSecDigitized string // SubSecTimeDigitized as taken from XMP
 }
 
 func (m *ExifInfo) Namespaces() xmp.NamespaceList {
@@ -300,6 +301,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		x.DateTimeDigitized = Date(x.DateTimeDigitizedXMP.Value())
 		x.digitized = x.DateTimeDigitized
 		x.SubSecTimeDigitized = subSecond(x.DateTimeDigitizedXMP.Value())
+		x.subSecDigitized = x.SubSecTimeDigitized
 	}
 
 	if len(x.ISOSpeedRatings) > 0 {
@@ -368,7 +370,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 	if !x.DateTimeOriginal.IsZero() {
 		x.DateTimeOriginalXMP, _ = convertDateToXMP(x.DateTimeOriginal, x.SubSecTimeOriginal)
 	}
-	if !x.DateTimeDigitized.IsZero() && !x.DateTimeDigitized.Value().Equal(x.digitized.Value()) {
+	if !x.DateTimeDigitized.IsZero() && (!x.DateTimeDigitized.Value().Equal(x.digitized.Value()) || x.SubSecTimeDigitized != x.subSecDigitized) {
 		x.DateTimeDigitizedXMP, _ = convertDateToXMP(x.DateTimeDigitized, x.SubSecTimeDigitized)
 	}
 	if !x.DateTime.IsZero() {
-- 
2.43.0


From f31fdc4b6557b730465634ad24df99cdcb554dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:57 +0000
Subject: [PATCH 115/128] fix: remove the second RIFF tags of removed
 properties

DateTimeOriginal, EncodedBy and Starring came back from IDIT, IENC and STAR.
---
 models/riff/model.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/models/riff/model.go b/models/riff/model.go
index c27825a..0ab9b8f 100644
--- a/models/riff/model.go
+++ b/models/riff/model.go
@@ -219,6 +219,18 @@ func (x *RiffInfo) SyncToXMP(d *xmp.Document) error {
 	return nil
 }
 
+// ClearProperty implements xmp.PropertyClearer.
+func (x *RiffInfo) ClearProperty(name string) {
+	switch name {
+	case "riffinfo:DateTimeOriginal":
+		x.DateTimeOriginal2 = ""
+	case "riffinfo:EncodedBy":
+		x.EncodedBy2 = ""
+	case "riffinfo:Starring":
+		x.Starring2 = ""
+	}
+}
+
 func (x *RiffInfo) CanTag(tag string) bool {
 	_, err := xmp.GetNativeField(x, tag)
 	return err == nil
-- 
2.43.0


From 325a89992c72b95df63607fa8c5bd43ab9dded96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:13 +0000
Subject: [PATCH 116/128] fix: gather identifiers of QuickTime user data

The table named the fields as if they belonged to the QuickTime model
itself, so they were never found.
---
 models/xmp_base/model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/xmp_base/model.go b/models/xmp_base/model.go
index c630a32..6b4205c 100644
--- a/models/xmp_base/model.go
+++ b/models/xmp_base/model.go
@@ -93,9 +93,9 @@ var identifierDesc = xmp.SyncDescList{
 	&xmp.SyncDesc{"iXML:fileUid", "xmp:Identifier", xmp.MERGE, prefixer("uuid:ixml")},
 	&xmp.SyncDesc{"qt:mdta/ContentIdentifier", "xmp:Identifier", xmp.MERGE, prefixer("uuid:cid")},
 	&xmp.SyncDesc{"iTunes:StoreFrontID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:sfid")},
-	&xmp.SyncDesc{"qt:GUID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:guid")},
-	&xmp.SyncDesc{"qt:ISRCCode", "xmp:Identifier", xmp.MERGE, prefixer("uuid:isrc")},
-	&xmp.SyncDesc{"qt:ContentID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:cid")},
+	&xmp.SyncDesc{"qt:udta/GUID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:guid")},
+	&xmp.SyncDesc{"qt:udta/ISRCCode", "xmp:Identifier", xmp.MERGE, prefixer("uuid:isrc")},
+	&xmp.SyncDesc{"qt:udta/ContentID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:cid")},
 	&xmp.SyncDesc{"qt:ClipID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:clipid")},
 	&xmp.SyncDesc{"qt:proapps/ClipID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:clipid")},
 	&xmp.SyncDesc{"bext:umid", "xmp:Identifier", xmp.MERGE, prefixer("umid:smpte")},
-- 
2.43.0


From 18be7bb3801495ed3d8cd57abd03311f0e58fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:00 +0000
Subject: [PATCH 117/128] fix: keep writing a digitizing date once it was
 changed

Setting the date back to the one loaded, or again after it was removed,
was taken for no change.
---
 models/exif/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/models/exif/model.go b/models/exif/model.go
index 9cdfb95..73b480a 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -282,6 +282,7 @@ func (x *ExifInfo) ClearProperty(name string) {
 		x.DateTimeOriginal, x.SubSecTimeOriginal = Date{}, ""
 	case "exif:DateTimeDigitized":
 		x.DateTimeDigitized, x.SubSecTimeDigitized = Date{}, ""
+		x.digitized, x.subSecDigitized = Date{}, ""
 	case "exif:GPSLatitude":
 		x.GPSLatitude, x.GPSLatitudeRef = GPSCoord{}, ""
 	case "exif:GPSLongitude":
@@ -372,6 +373,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 	}
 	if !x.DateTimeDigitized.IsZero() && (!x.DateTimeDigitized.Value().Equal(x.digitized.Value()) || x.SubSecTimeDigitized != x.subSecDigitized) {
 		x.DateTimeDigitizedXMP, _ = convertDateToXMP(x.DateTimeDigitized, x.SubSecTimeDigitized)
+		x.digitized = Date{} // leads from now on
 	}
 	if !x.DateTime.IsZero() {
 		x.DateTimeXMP, _ = convertDateToXMP(x.DateTime, x.SubSecTime)
-- 
2.43.0


From a51ace254bc4f5fa2bce05bdded0f82d315be200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:28 +0000
Subject: [PATCH 118/128] fix: frames of time codes with whole frame rates

The numerator of the rate was divided by 1000, which gives the frames of
24000/1001 but 0 for 25/1.
---
 models/ixml/types.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index 5d14e9a..b0a484d 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -158,7 +158,12 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	h := sec / 3600
 	m := (sec - h*3600) / 60
 	s := sec - h*3600 - m*60
-	f := int((samples % rate) * x.TimecodeRate.Num / rate / 1000)
+	f := 0
+	if x.TimecodeRate.Den > 0 {
+		// nominal frames per second, e.g. 24 for 24000/1001
+		fps := (x.TimecodeRate.Num + x.TimecodeRate.Den - 1) / x.TimecodeRate.Den
+		f = int((samples % rate) * fps / rate)
+	}
 	isDrop := x.TimecodeFlag == TimecodeFlagDF
 	tc := xmpdm.Timecode{
 		Format:      xmpdm.ParseTimecodeFormat(x.TimecodeRate.Value(), isDrop),
-- 
2.43.0


From f60a95153d81542fb05ccdfe49a01fc2e2880ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:28 +0000
Subject: [PATCH 119/128] fix: format of 59.94 non-drop time codes

---
 models/xmp_dm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index fb00fd6..12e2f08 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -567,7 +567,7 @@ func ParseTimecodeFormat(f float64, isdrop bool) TimecodeFormat {
 		if isdrop {
 			return TimecodeFormat5994
 		} else {
-			return TimecodeFormat5994
+			return TimecodeFormat5994ND
 		}
 	case f == 60:
 		return TimecodeFormat60
-- 
2.43.0


From 2845a3b66838e884a96f87a5f1678bb072848d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:28 +0000
Subject: [PATCH 120/128] fix: keep QuickTime locations without name and
 coordinates

---
 models/qt/qt_metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/qt/qt_metadata.go b/models/qt/qt_metadata.go
index bc376cd..7896729 100644
--- a/models/qt/qt_metadata.go
+++ b/models/qt/qt_metadata.go
@@ -133,7 +133,8 @@ func (x *QtMetadata) SyncFromXMP(d *xmp.Document) error {
 }
 
 func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
-	if x.Location == nil && (x.LocationISO6709 != "" || x.LocationName != "") {
+	if x.Location == nil && (x.LocationISO6709 != "" || x.LocationName != "" || x.LocationBody != "" ||
+		!x.LocationDate.IsZero() || x.LocationNote != "" || x.LocationRole != LocationRoleShooting) {
 		x.Location = &Location{
 			Body: x.LocationBody,
 			Date: x.LocationDate,
-- 
2.43.0


From 003dbd0a6e3edf3a6bc4c3febe1560d26f308fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 121/128] fix: leave an unset field unset when its native value
 is refused

---
 xmp/native.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index b9ff592..92733d3 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -128,7 +128,7 @@ func GetNativeField(v Model, name string) (string, error) {
 	}
 }
 
-func SetNativeField(v Model, name, value string) error {
+func SetNativeField(v Model, name, value string) (err error) {
 	nsName, err := getNamespaceName(v)
 	if err != nil {
 		return err
@@ -150,7 +150,15 @@ func SetNativeField(v Model, name, value string) error {
 
 	// allocate memory for pointer values in structs
 	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
-		f.Set(reflect.New(f.Type().Elem()))
+		ptr := f
+		ptr.Set(reflect.New(f.Type().Elem()))
+
+		// a refused value leaves the field unset
+		defer func() {
+			if err != nil {
+				ptr.Set(reflect.Zero(ptr.Type()))
+			}
+		}()
 	}
 
 	// load and potentially create value
-- 
2.43.0


From 5b182d40345c2caaf5c5d31eb7371b59fdd182b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 122/128] fix: number of column names in native OECF values

---
 models/exif/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index a90711d..ae5a3b6 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -196,7 +196,7 @@ func (x *OECF) UnmarshalText(data []byte) error {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
 			o.Values = make(xmp.RationalArray, 0, o.Columns*o.Rows)
-		case i > 1 && i < o.Columns+1:
+		case i > 1 && i < o.Columns+2:
 			o.Names = append(o.Names, v)
 		default:
 			r := xmp.Rational{}
-- 
2.43.0


From 9b0197ec3a3d8b440f5fbcf6c992b660bfa04995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 123/128] fix: order of day and month in ID3 v2.3 dates

---
 models/id3/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 1add04b..41449b7 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -35,7 +35,7 @@ import (
 
 const (
 	TIME_FORMAT_23 = "1504" // HHMM
-	DATE_FORMAT_23 = "0102" // DDMM
+	DATE_FORMAT_23 = "0201" // DDMM
 )
 
 type Bool int // 0 no, 1 yes
-- 
2.43.0


From 3ee65578a86306479de661c8ef8e4e9e5a8dab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 124/128] fix: native tags are known even while their value has
 no text form

---
 models/cc/model.go         |  3 +--
 models/crs/model.go        |  3 +--
 models/dc/model.go         |  3 +--
 models/digikam/model.go    |  3 +--
 models/dji/dji.go          |  3 +--
 models/exif/model.go       |  9 +++------
 models/id3/model.go        |  3 +--
 models/itunes/model.go     |  3 +--
 models/ixml/model.go       |  3 +--
 models/mp4/model.go        |  3 +--
 models/pdf/model.go        |  3 +--
 models/pm/model.go         |  3 +--
 models/ps/model.go         |  3 +--
 models/qt/qt_metadata.go   |  3 +--
 models/qt/qt_player.go     |  3 +--
 models/qt/qt_proapps.go    |  3 +--
 models/qt/qt_userdata.go   |  3 +--
 models/riff/model.go       |  3 +--
 models/tiff/model.go       |  3 +--
 models/xmp_base/model.go   |  3 +--
 models/xmp_bj/model.go     |  3 +--
 models/xmp_dm/model.go     |  3 +--
 models/xmp_mm/model.go     |  3 +--
 models/xmp_rights/model.go |  3 +--
 models/xmp_tpg/model.go    |  3 +--
 xmp/native.go              | 11 +++++++++++
 26 files changed, 38 insertions(+), 54 deletions(-)

diff --git a/models/cc/model.go b/models/cc/model.go
index 530daac..85e3b9b 100644
--- a/models/cc/model.go
+++ b/models/cc/model.go
@@ -82,8 +82,7 @@ func (x CC) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *CC) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *CC) GetTag(tag string) (string, error) {
diff --git a/models/crs/model.go b/models/crs/model.go
index 5c38850..47c73d9 100644
--- a/models/crs/model.go
+++ b/models/crs/model.go
@@ -270,8 +270,7 @@ func (x CameraRawInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *CameraRawInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *CameraRawInfo) GetTag(tag string) (string, error) {
diff --git a/models/dc/model.go b/models/dc/model.go
index 03d1cd7..3a67e7e 100644
--- a/models/dc/model.go
+++ b/models/dc/model.go
@@ -90,8 +90,7 @@ func (x DublinCore) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *DublinCore) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *DublinCore) GetTag(tag string) (string, error) {
diff --git a/models/digikam/model.go b/models/digikam/model.go
index 3c1c222..c4f45e1 100644
--- a/models/digikam/model.go
+++ b/models/digikam/model.go
@@ -67,8 +67,7 @@ func (x Digikam) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *Digikam) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *Digikam) GetTag(tag string) (string, error) {
diff --git a/models/dji/dji.go b/models/dji/dji.go
index f35c428..eb800a9 100644
--- a/models/dji/dji.go
+++ b/models/dji/dji.go
@@ -69,8 +69,7 @@ func (x DJI) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *DJI) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *DJI) GetTag(tag string) (string, error) {
diff --git a/models/exif/model.go b/models/exif/model.go
index 73b480a..3033333 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -416,8 +416,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 
 func (x *ExifInfo) CanTag(tag string) bool {
 	tag = strings.ToLower(tag)
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *ExifInfo) GetTag(tag string) (string, error) {
@@ -497,8 +496,7 @@ func (x ExifEXInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ExifEXInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *ExifEXInfo) GetTag(tag string) (string, error) {
@@ -564,8 +562,7 @@ func (x ExifAuxInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ExifAuxInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *ExifAuxInfo) GetTag(tag string) (string, error) {
diff --git a/models/id3/model.go b/models/id3/model.go
index e39f224..047f65b 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -437,8 +437,7 @@ func (x *ID3) CanTag(tag string) bool {
 	if err != nil {
 		return false
 	}
-	_, err = xmp.GetNativeField(x, t)
-	return err == nil
+	return xmp.HasNativeField(x, t)
 }
 
 func (x *ID3) GetTag(tag string) (string, error) {
diff --git a/models/itunes/model.go b/models/itunes/model.go
index 4148018..a7ea4ad 100644
--- a/models/itunes/model.go
+++ b/models/itunes/model.go
@@ -72,8 +72,7 @@ func (x ITunesMetadata) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ITunesMetadata) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *ITunesMetadata) GetTag(tag string) (string, error) {
diff --git a/models/ixml/model.go b/models/ixml/model.go
index 91d0b16..d303e8e 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -146,8 +146,7 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *IXML) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *IXML) GetTag(tag string) (string, error) {
diff --git a/models/mp4/model.go b/models/mp4/model.go
index d1fe29c..44ca881 100644
--- a/models/mp4/model.go
+++ b/models/mp4/model.go
@@ -75,8 +75,7 @@ func (x MP4Info) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *MP4Info) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *MP4Info) GetTag(tag string) (string, error) {
diff --git a/models/pdf/model.go b/models/pdf/model.go
index 25f04d1..91925d3 100644
--- a/models/pdf/model.go
+++ b/models/pdf/model.go
@@ -131,8 +131,7 @@ func (x PDFInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *PDFInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *PDFInfo) GetTag(tag string) (string, error) {
diff --git a/models/pm/model.go b/models/pm/model.go
index 8396e48..2297024 100644
--- a/models/pm/model.go
+++ b/models/pm/model.go
@@ -76,8 +76,7 @@ func (x Photomechanic) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *Photomechanic) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *Photomechanic) GetTag(tag string) (string, error) {
diff --git a/models/ps/model.go b/models/ps/model.go
index c3abcd2..4a77287 100644
--- a/models/ps/model.go
+++ b/models/ps/model.go
@@ -99,8 +99,7 @@ func (x PhotoshopInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *PhotoshopInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *PhotoshopInfo) GetTag(tag string) (string, error) {
diff --git a/models/qt/qt_metadata.go b/models/qt/qt_metadata.go
index 7896729..f536d6f 100644
--- a/models/qt/qt_metadata.go
+++ b/models/qt/qt_metadata.go
@@ -148,8 +148,7 @@ func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *QtMetadata) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *QtMetadata) GetTag(tag string) (string, error) {
diff --git a/models/qt/qt_player.go b/models/qt/qt_player.go
index c8a16b6..4a4681a 100644
--- a/models/qt/qt_player.go
+++ b/models/qt/qt_player.go
@@ -54,8 +54,7 @@ func (x *QtPlayer) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *QtPlayer) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *QtPlayer) GetTag(tag string) (string, error) {
diff --git a/models/qt/qt_proapps.go b/models/qt/qt_proapps.go
index d2a4b56..05c9274 100644
--- a/models/qt/qt_proapps.go
+++ b/models/qt/qt_proapps.go
@@ -92,8 +92,7 @@ func (x *QtProApps) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *QtProApps) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *QtProApps) GetTag(tag string) (string, error) {
diff --git a/models/qt/qt_userdata.go b/models/qt/qt_userdata.go
index 5976236..b06fda2 100644
--- a/models/qt/qt_userdata.go
+++ b/models/qt/qt_userdata.go
@@ -186,8 +186,7 @@ func (x QtUserdata) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *QtUserdata) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *QtUserdata) GetTag(tag string) (string, error) {
diff --git a/models/riff/model.go b/models/riff/model.go
index 0ab9b8f..12540b1 100644
--- a/models/riff/model.go
+++ b/models/riff/model.go
@@ -232,8 +232,7 @@ func (x *RiffInfo) ClearProperty(name string) {
 }
 
 func (x *RiffInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *RiffInfo) GetTag(tag string) (string, error) {
diff --git a/models/tiff/model.go b/models/tiff/model.go
index ef7a89b..689fb78 100644
--- a/models/tiff/model.go
+++ b/models/tiff/model.go
@@ -196,8 +196,7 @@ func (x TiffInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *TiffInfo) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *TiffInfo) GetTag(tag string) (string, error) {
diff --git a/models/xmp_base/model.go b/models/xmp_base/model.go
index 6b4205c..e6e8025 100644
--- a/models/xmp_base/model.go
+++ b/models/xmp_base/model.go
@@ -123,8 +123,7 @@ func (x XmpBase) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *XmpBase) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *XmpBase) GetTag(tag string) (string, error) {
diff --git a/models/xmp_bj/model.go b/models/xmp_bj/model.go
index 8977531..a595d9a 100644
--- a/models/xmp_bj/model.go
+++ b/models/xmp_bj/model.go
@@ -75,8 +75,7 @@ func (x JobTicket) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *JobTicket) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *JobTicket) GetTag(tag string) (string, error) {
diff --git a/models/xmp_dm/model.go b/models/xmp_dm/model.go
index 50b9623..8acddff 100644
--- a/models/xmp_dm/model.go
+++ b/models/xmp_dm/model.go
@@ -148,8 +148,7 @@ func (x XmpDM) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *XmpDM) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *XmpDM) GetTag(tag string) (string, error) {
diff --git a/models/xmp_mm/model.go b/models/xmp_mm/model.go
index e5041ff..0bbaa0d 100644
--- a/models/xmp_mm/model.go
+++ b/models/xmp_mm/model.go
@@ -95,8 +95,7 @@ func (x XmpMM) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *XmpMM) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *XmpMM) GetTag(tag string) (string, error) {
diff --git a/models/xmp_rights/model.go b/models/xmp_rights/model.go
index 41c3807..ba40e7d 100644
--- a/models/xmp_rights/model.go
+++ b/models/xmp_rights/model.go
@@ -77,8 +77,7 @@ func (x XmpRights) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *XmpRights) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *XmpRights) GetTag(tag string) (string, error) {
diff --git a/models/xmp_tpg/model.go b/models/xmp_tpg/model.go
index 4c4a6dc..a9e3a1d 100644
--- a/models/xmp_tpg/model.go
+++ b/models/xmp_tpg/model.go
@@ -85,8 +85,7 @@ func (x PagedText) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *PagedText) CanTag(tag string) bool {
-	_, err := xmp.GetNativeField(x, tag)
-	return err == nil
+	return xmp.HasNativeField(x, tag)
 }
 
 func (x *PagedText) GetTag(tag string) (string, error) {
diff --git a/xmp/native.go b/xmp/native.go
index 92733d3..e920540 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -128,6 +128,17 @@ func GetNativeField(v Model, name string) (string, error) {
 	}
 }
 
+// HasNativeField returns true when the model has a field for the native tag,
+// no matter whether the current value of this field has a text form.
+func HasNativeField(v Model, name string) bool {
+	nsName, err := getNamespaceName(v)
+	if err != nil {
+		return false
+	}
+	_, err = findField(derefIndirect(v), name, nsName)
+	return err == nil
+}
+
 func SetNativeField(v Model, name, value string) (err error) {
 	nsName, err := getNamespaceName(v)
 	if err != nil {
-- 
2.43.0


From 4a74d2f8095a959e7ac82defd93ecae22d7a30d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:37 +0000
Subject: [PATCH 125/128] fix: keep the properties of a document added to the
 pantry only once

---
 models/xmp_mm/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_mm/model.go b/models/xmp_mm/model.go
index 0bbaa0d..31cf76d 100644
--- a/models/xmp_mm/model.go
+++ b/models/xmp_mm/model.go
@@ -114,7 +114,7 @@ func (x *XmpMM) SetTag(tag, value string) error {
 }
 
 func (x *XmpMM) AddPantry(d *xmp.Document) {
-	node := xmp.NewNode(xmp.NewName("rdf:Description"))
+	node := xmp.NewNode(xmp.EmptyName)
 	cpy := xmp.NewDocument()
 	cpy.Merge(d, xmp.MERGE)
 	node.Nodes = cpy.Nodes()
-- 
2.43.0


From 13610e65b2ed85fa3227c307833f9c7e4906baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:37 +0000
Subject: [PATCH 126/128] fix: save the unknown attributes of pantry entries

---
 xmp/xmp_ext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 77030bd..a045deb 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -58,6 +58,9 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 
 		// unwrap one extra layer that we keep for identifying extensions
 		if x.XMLName.Local == "" {
+			for _, a := range ext.Attr {
+				node.AddAttr(a)
+			}
 			for _, child := range ext.Nodes {
 				if child.Model != nil {
 					if err := e.EncodeElement(child.Model, node); err != nil {
-- 
2.43.0


From 5226c4c09aa66350197c72c95883e26b825bbfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 127/128] fix: keep the name of pantry properties whose value
 is refused

---
 xmp/xmp_ext.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index a045deb..3dfa4e4 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -17,6 +17,7 @@ package xmp
 import (
 	"encoding/xml"
 	"fmt"
+	"reflect"
 )
 
 // Raw nodes are used to keep custom data models inside a container. This
@@ -99,7 +100,19 @@ func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
 		}
 		if err := d.decodeNode(&x.Nodes, child); err != nil {
 			// when decoding fails, store as raw child node
-			x.Nodes = append(x.Nodes, copyNode(child))
+			node, e := d.lookupNode(&x.Nodes, child.XMLName)
+			if e != nil {
+				x.Nodes = append(x.Nodes, copyNode(child))
+				continue
+			}
+			if node.Model != nil {
+				// forget what has been decoded before the failure
+				if _, f := d.findStructField(derefIndirect(node.Model), child.FullName()); f.IsValid() {
+					f.Set(reflect.Zero(f.Type()))
+				}
+			}
+			child.translate(d)
+			node.AddNode(copyNode(child))
 		}
 	}
 	return nil
-- 
2.43.0


From e6df82fcc593de7bfd6ff0ec589037916a93dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:36 +0000
Subject: [PATCH 128/128] fix: deleting the ingredient behind the last one

---
 models/xmp_mm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index 104f8de..dd19b01 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -81,7 +81,7 @@ func (x ResourceRefArray) Index(did xmp.GUID) int {
 }
 
 func (x *ResourceRefArray) DeleteIndex(idx int) {
-	if idx < 0 || idx > len(*x) {
+	if idx < 0 || idx >= len(*x) {
 		return
 	}
 	*x = append((*x)[:idx], ((*x)[idx+1:])...)
-- 
2.43.0

