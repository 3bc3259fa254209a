package main

// Offline calibration: collects property instances from samples and from
// populated models. Not used by checks.

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func prefixesOf(b []byte, m map[string]string) {
	d := xml.NewDecoder(bytes.NewReader(b))
	for {
		t, err := d.RawToken()
		if err != nil {
			return
		}
		if s, ok := t.(xml.StartElement); ok {
			for _, a := range s.Attr {
				if a.Name.Space == "xmlns" {
					if _, ok := m[a.Value]; !ok {
						m[a.Value] = a.Name.Local
					}
				}
			}
		}
	}
}

func safe(f func() error) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("panic: %v", v)
		}
	}()
	return f()
}

func rtXML(in []byte) (out []byte, err error) {
	err = safe(func() error {
		d := &xmp.Document{}
		if err := xmp.Unmarshal(in, d); err != nil {
			return err
		}
		out, err = xmp.Marshal(d)
		d.Close()
		return err
	})
	return
}

func shape(v Val) string {
	switch v.Kind {
	case KText:
		c := map[string]bool{}
		for _, r := range v.Text {
			switch {
			case r >= '0' && r <= '9':
				c["9"] = true
			case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z':
				c["a"] = true
			case r > 127:
				c["u"] = true
			default:
				c[string(r)] = true
			}
		}
		var l []string
		for k := range c {
			l = append(l, k)
		}
		sort.Strings(l)
		return "t" + strings.Join(l, "")
	case KStruct:
		s := "{"
		for _, f := range v.Fields {
			s += f.Name + ":" + shape(f.V) + ","
		}
		return s + "}"
	}
	s := v.Kind + "["
	for _, it := range v.Items {
		x := shape(it)
		if !strings.Contains(s, x) {
			s += x + ","
		}
	}
	return s + "]"
}

func clip2(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
