package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/trimmer-io/go-xmp/verifall"
	"github.com/trimmer-io/go-xmp/xmp"
)

// listAllMain prints the calibrated properties whose listing differs from
// the expected one (development aid).
func listAllMain() {
	loadData()
	seen := map[string]bool{}
	for _, e := range pool.Entries {
		if nestedArray(e.P.V) {
			continue
		}
		for alt := 0; alt < 4; alt++ {
			p := e.P
			p.V = p.V.clone()
			i := 0
			p.V.eachText(func(t *Val) {
				if alt > 0 && len(e.Alts[i]) >= alt {
					t.Text = e.Alts[i][alt-1]
				}
				i++
			})
			b := writePacket([]Prop{p}, plainStyle(func(u string) string {
				if pool.Prefixes[u] != "" {
					return pool.Prefixes[u]
				}
				return "zz" + fmt.Sprint(len(u))
			}), true, false)
			d := &xmp.Document{}
			if err := xmp.Unmarshal(b, d); err != nil {
				fmt.Println("ERR", shortURI("{"+p.NS+"}"+p.Name), err)
				continue
			}
			want := wantListing([]Prop{p})
			got, bad, err := listing(d)
			func() {
				defer func() {
					if v, ok := recover().(violation); ok {
						k := v.class + baseOf(v.msg)
						_ = k
						m := shortURI("{"+p.NS+"}"+p.Name) + " " + v.class
						if !seen[m] {
							seen[m] = true
							fmt.Println(m, ":", clip2(v.msg, 260))
						}
					}
				}()
				r := &R{Src: &Src{}, stats: map[string]int64{}}
				if len(bad) > 0 || err != nil {
					r.Fail("bad", "%v %v", bad, err)
				}
				cmpListing(r, want, got, "")
				r.checkGet(d, got)
			}()
		}
	}
}

// dumpCover writes the library sites reached (development).
func dumpCover(file string, hit map[int32]struct{}) {
	var l []json.RawMessage
	json.Unmarshal(verifall.Sites, &l)
	f, err := os.OpenFile(file, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	for i, s := range l {
		_, ok := hit[int32(i)]
		fmt.Fprintf(f, "%v %s\n", ok, s)
	}
}
