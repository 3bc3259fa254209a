package main

// A model of our own, registered next to the built-in ones: the kinds of
// fields the framework offers to authors of models, of which the built-in
// models use only some.

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/trimmer-io/go-xmp/verifall"
	"github.com/trimmer-io/go-xmp/xmp"
)

const (
	simURI  = "http://sim.example/model/1.0/"
	simURI2 = "http://sim.example/model/2.0/"
)

var (
	simNS  = &xmp.Namespace{Name: "simm", URI: simURI, Factory: newSimModel}
	simNS2 = &xmp.Namespace{Name: "simx", URI: simURI2, Factory: newSimModel}
)

// reinit restores the state of a fresh process which registers our model.
func reinit() {
	verifall.Reinit()
	xmp.Register(simNS)
	xmp.Register(simNS2)
}

func newSimModel(string) xmp.Model { return &simModel{} }

type (
	simInt    int
	simString string
	simText   struct{ A, B string } // text on both sides
	simPText  struct{ A, B string } // pointer receivers
	simXMP    struct {              // XMP on both sides
		A string   `xmp:"simm:xA"`
		B xmp.GUID `xmp:"simm:xB"`
	}
	simPXMP  simXMP             // pointer receivers
	simPArr  []string           // pointer receivers
	simAttr  struct{ v string } // attribute on both sides
	simArr   []simText          // array without methods
	simTable []simRow           // array with methods
	simPtrs  []*simRow          // array of pointers
	simFour  [4]byte
	simDates []xmp.Date // Bag of dates
)

func (t simText) MarshalText() ([]byte, error) {
	if t.A == "" && t.B == "" {
		return nil, nil
	}
	return []byte(t.A + "=" + t.B), nil
}
func (t *simText) UnmarshalText(b []byte) error {
	i := bytes.IndexByte(b, '=')
	if i < 0 {
		return fmt.Errorf("no = in %q", b)
	}
	t.A, t.B = string(b[:i]), string(b[i+1:])
	return nil
}
func (t simText) IsZero() bool { return t.A == "" && t.B == "" }

func (t *simPText) MarshalText() ([]byte, error) { return simText(*t).MarshalText() }
func (t *simPText) UnmarshalText(b []byte) error { return (*simText)(t).UnmarshalText(b) }
func (t simPText) IsZero() bool                  { return t.A == "" && t.B == "" }

func (t simXMP) IsZero() bool { return t == simXMP{} }
func (t simXMP) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	type plain simXMP
	return e.EncodeElement(plain(t), n)
}
func (t *simXMP) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	type plain simXMP
	return d.DecodeElement((*plain)(t), n)
}

func (t simPXMP) IsZero() bool { return t == simPXMP{} }
func (t *simPXMP) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return simXMP(*t).MarshalXMP(e, n, m)
}
func (t *simPXMP) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	return (*simXMP)(t).UnmarshalXMP(d, n, m)
}

func (x *simPArr) Typ() xmp.ArrayType { return xmp.ArrayTypeUnordered }
func (x *simPArr) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, n, x.Typ(), *x)
}
func (x *simPArr) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, n, x.Typ(), x)
}

func (t simAttr) IsZero() bool { return t.v == "" }
func (t simAttr) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	return xmp.Attr{Name: name, Value: "a:" + t.v}, nil
}
func (t *simAttr) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
	if !strings.HasPrefix(a.Value, "a:") {
		return fmt.Errorf("no a: in %q", a.Value)
	}
	t.v = a.Value[2:]
	return nil
}
func (t simAttr) MarshalText() ([]byte, error) { return []byte("a:" + t.v), nil }
func (t *simAttr) UnmarshalText(b []byte) error {
	return t.UnmarshalXMPAttr(nil, xmp.Attr{Value: string(b)})
}

func (x simTable) Typ() xmp.ArrayType { return xmp.ArrayTypeOrdered }
func (x simTable) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, n, x.Typ(), x)
}
func (x *simTable) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, n, x.Typ(), x)
}
func (x simPtrs) Typ() xmp.ArrayType { return xmp.ArrayTypeUnordered }
func (x simPtrs) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, n, x.Typ(), x)
}
func (x *simPtrs) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, n, x.Typ(), x)
}
func (x simFour) IsZero() bool        { return x == simFour{} }
func (x simDates) Typ() xmp.ArrayType { return xmp.ArrayTypeUnordered }
func (x simDates) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, n, x.Typ(), x)
}
func (x *simDates) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, n, x.Typ(), x)
}

type simRow struct {
	Name  string         `xmp:"simm:rName"`
	Count int            `xmp:"simm:rCount"`
	When  xmp.Date       `xmp:"simm:rWhen"`
	Tags  xmp.StringList `xmp:"simm:rTags"`
	Title xmp.AltString  `xmp:"simm:rTitle"`
	Sub   *simSub        `xmp:"simm:rSub"`
	Other string         `xmp:"simx:rOther"`
}

func (x simRow) IsZero() bool {
	return x.Name == "" && x.Count == 0 && x.When.IsZero() && len(x.Tags) == 0 && len(x.Title) == 0 && x.Sub == nil && x.Other == ""
}

type simSub struct {
	Key   string      `xmp:"simm:sKey"`
	Value *float64    `xmp:"simm:sValue"`
	Bags  xmp.IntList `xmp:"simm:sInts"`
}

type simAttrs struct {
	A string  `xmp:"simm:aA,attr"`
	B int     `xmp:"simm:aB,attr"`
	T simText `xmp:"simm:aT,attr"`
}

func (x simAttrs) IsZero() bool { return x == simAttrs{} }

type SimEmbedded struct {
	Emb  string         `xmp:"simx:Emb"`
	Embs xmp.StringList `xmp:"simx:Embs"`
}

type SimEmbeddedPtr struct {
	EmbP int `xmp:"simx:EmbP"`
}

type simModel struct {
	Str   string    `xmp:"simm:Str"`
	NStr  simString `xmp:"simm:NStr"`
	Int   int       `xmp:"simm:Int"`
	NInt  simInt    `xmp:"simm:NInt"`
	I8    int8      `xmp:"simm:I8"`
	I16   int16     `xmp:"simm:I16"`
	I32   int32     `xmp:"simm:I32"`
	I64   int64     `xmp:"simm:I64"`
	Uint  uint      `xmp:"simm:Uint"`
	U8    uint8     `xmp:"simm:U8"`
	U64   uint64    `xmp:"simm:U64"`
	F32   float32   `xmp:"simm:F32"`
	F64   float64   `xmp:"simm:F64"`
	Bool  bool      `xmp:"simm:Bool"`
	XBool xmp.Bool  `xmp:"simm:XBool"`
	Bytes []byte    `xmp:"simm:Bytes"`

	PStr   *string   `xmp:"simm:PStr"`
	PInt   *int      `xmp:"simm:PInt"`
	PBool  *bool     `xmp:"simm:PBool"`
	PXB    *xmp.Bool `xmp:"simm:PXB"`
	PF     *float64  `xmp:"simm:PF"`
	PDate  *xmp.Date `xmp:"simm:PDate"`
	PText  *simText  `xmp:"simm:PText"`
	PPT    *simPText `xmp:"simm:PPT"`
	PXMP   *simPXMP  `xmp:"simm:PXMP"`
	PXMV   *simXMP   `xmp:"simm:PXMV"`
	VXMP   simPXMP   `xmp:"simm:VXMP"`
	PArr   simPArr   `xmp:"simm:PArr"`
	PPAr   *simPArr  `xmp:"simm:PPAr"`
	PBytes *[]byte   `xmp:"simm:PBytes"`

	PList *xmp.StringList `xmp:"simm:PList"`
	PAlt  *xmp.AltString  `xmp:"simm:PAlt"`

	AStr  string   `xmp:"simm:AStr,attr"`
	AInt  int      `xmp:"simm:AInt,attr"`
	ABool xmp.Bool `xmp:"simm:ABool,attr"`
	ADate xmp.Date `xmp:"simm:ADate,attr"`
	AF    float64  `xmp:"simm:AF,attr"`
	AU    uint16   `xmp:"simm:AU,attr"`
	AText simText  `xmp:"simm:AText,attr"`
	AAttr simAttr  `xmp:"simm:AAttr,attr"`
	APInt *int     `xmp:"simm:APInt,attr"`
	APStr *string  `xmp:"simm:APStr,attr"`
	AByte []byte   `xmp:"simm:AByte,attr"`
	AX    string   `xmp:"simx:AX,attr"`

	Text  simText  `xmp:"simm:Text"`
	PtTxt simPText `xmp:"simm:PtTxt"`
	XMP   simXMP   `xmp:"simm:XMP"`
	Attrs simAttrs `xmp:"simm:Attrs"`
	Row   simRow   `xmp:"simm:Row"`
	PRow  *simRow  `xmp:"simm:PRow"`
	Table simTable `xmp:"simm:Table"`
	Ptrs  simPtrs  `xmp:"simm:Ptrs"`
	Four  simFour  `xmp:"simm:Four"`
	Arr   simArr   `xmp:"simm:Arr"`
	Strs  []string `xmp:"simm:Strs"`
	Ints  []int    `xmp:"simm:Ints"`
	Rows  []simRow `xmp:"simm:Rows"`
	Dates simDates `xmp:"simm:Dates"`

	Date   xmp.Date        `xmp:"simm:Date"`
	Time   xmp.Time        `xmp:"simm:Time"`
	Agent  xmp.AgentName   `xmp:"simm:Agent"`
	GUID   xmp.GUID        `xmp:"simm:GUID"`
	Url    xmp.Url         `xmp:"simm:Url"`
	Uri    xmp.Uri         `xmp:"simm:Uri"`
	Ratio  xmp.Rational    `xmp:"simm:Ratio"`
	GPS    xmp.GPSCoord    `xmp:"simm:GPS"`
	NlInt  xmp.NullInt     `xmp:"simm:NlInt"`
	NlBool xmp.NullBool    `xmp:"simm:NlBool"`
	NlF    xmp.NullFloat   `xmp:"simm:NlF"`
	NlF64  xmp.NullFloat64 `xmp:"simm:NlF64"`
	Dur    xmp.Duration    `xmp:"simm:Dur"`
	Split  xmp.SplitInt    `xmp:"simm:Split"`

	Alt   xmp.AltString     `xmp:"simm:Alt"`
	IntA  xmp.IntArray      `xmp:"simm:IntA"`
	IntL  xmp.IntList       `xmp:"simm:IntL"`
	StrA  xmp.StringArray   `xmp:"simm:StrA"`
	StrL  xmp.StringList    `xmp:"simm:StrL"`
	DateL xmp.DateList      `xmp:"simm:DateL"`
	GUIDL xmp.GUIDList      `xmp:"simm:GUIDL"`
	UrlA  xmp.UrlArray      `xmp:"simm:UrlA"`
	UrlL  xmp.UrlList       `xmp:"simm:UrlL"`
	UriA  xmp.UriArray      `xmp:"simm:UriA"`
	UriL  xmp.UriList       `xmp:"simm:UriL"`
	RatA  xmp.RationalArray `xmp:"simm:RatA"`

	V1 string `xmp:"simm:V1,v1.0+"`
	V2 string `xmp:"simm:V2,v2.0-"`
	V3 int    `xmp:"simm:V3,v1.0<2.0"`

	SimEmbedded
	*SimEmbeddedPtr

	hidden string
	Hidden string `xmp:"-"`
}

func (m *simModel) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{simNS, simNS2} }
func (m *simModel) Can(n string) bool                 { return n == "simm" || n == "simx" }
func (m *simModel) SyncModel(d *xmp.Document) error   { return nil }
func (m *simModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (m *simModel) SyncToXMP(d *xmp.Document) error   { return nil }
func (m *simModel) CanTag(tag string) bool            { return false }
func (m *simModel) GetTag(tag string) (string, error) { return "", nil }
func (m *simModel) SetTag(tag, value string) error    { return nil }
