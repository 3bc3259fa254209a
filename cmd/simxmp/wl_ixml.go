package main

// C22, continued: the iXML chunk of a sound file as native form of the iXML
// properties.

import (
	"encoding/xml"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/xmp"
)

const uriIXML = "http://ns.adobe.com/ixml/1.0/"

// ixmlOld: take types that were elements of their own.
var ixmlOld = map[string]string{"NO_GOOD": "NO_GOOD", "FALSE_START": "FALSE_START", "WILD_TRACK": "WILD_TRACK"}

const preRecord = "upgrade from deprecated property root.PRE_RECORD_SAMPLECOUNT"

// ixmlNames: the native names by XMP path.
var ixmlNames = map[string]string{
	"version":                               "IXML_VERSION",
	"project":                               "PROJECT",
	"sceneName":                             "SCENE",
	"soundRoll":                             "TAPE",
	"take":                                  "TAKE",
	"takeType":                              "TAKE_TYPE",
	"circled":                               "CIRCLED",
	"fileUid":                               "FILE_UID",
	"userBits":                              "UBITS",
	"note":                                  "NOTE",
	"syncPoints":                            "SYNC_POINT_LIST",
	"syncPoints/syncPointType":              "SYNC_POINT_TYPE",
	"syncPoints/syncPointFunction":          "SYNC_POINT_FUNCTION",
	"syncPoints/syncPointComment":           "SYNC_POINT_COMMENT",
	"syncPoints/syncPointLow":               "SYNC_POINT_LOW",
	"syncPoints/syncPointHigh":              "SYNC_POINT_HIGH",
	"syncPoints/syncPointEventDuration":     "SYNC_POINT_EVENT_DURATION",
	"speed":                                 "SPEED",
	"speed/note":                            "NOTE",
	"speed/masterSpeed":                     "MASTER_SPEED",
	"speed/currentSpeed":                    "CURRENT_SPEED",
	"speed/timecodeRate":                    "TIMECODE_RATE",
	"speed/timecodeFlag":                    "TIMECODE_FLAG",
	"speed/fileSampleRate":                  "FILE_SAMPLE_RATE",
	"speed/audioBitDepth":                   "AUDIO_BIT_DEPTH",
	"speed/digitizerSampleRate":             "DIGITIZER_SAMPLE_RATE",
	"speed/timestampSamplesSinceMidnightHI": "TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_HI",
	"speed/timestampSamplesSinceMidnightLO": "TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_LO",
	"speed/timestampSampleRate":             "TIMESTAMP_SAMPLE_RATE",
	"history":                               "HISTORY",
	"history/originalFilename":              "ORIGINAL_FILENAME",
	"history/parentFilename":                "PARENT_FILENAME",
	"history/parentUID":                     "PARENT_UID",
	"fileSet":                               "FILE_SET",
	"fileSet/totalFiles":                    "TOTAL_FILES",
	"fileSet/familyUID":                     "FAMILY_UID",
	"fileSet/familyName":                    "FAMILY_NAME",
	"fileSet/fileSetIndex":                  "FILE_SET_INDEX",
	"trackList":                             "TRACK_LIST",
	"trackList/channelIndex":                "CHANNEL_INDEX",
	"trackList/interleaveIndex":             "INTERLEAVE_INDEX",
	"trackList/name":                        "NAME",
	"trackList/function":                    "FUNCTION",
	"trackList/defaultMix":                  "DEFAULT_MIX",
	"trackList/defaultMix/level":            "LEVEL",
	"trackList/defaultMix/pan":              "PAN",
	"userData":                              "USER",
	"userData/comment":                      ",chardata",
	"userData/fullTitle":                    "FULL_TITLE",
	"userData/directorName":                 "DIRECTOR_NAME",
	"userData/productionName":               "PRODUCTION_NAME",
	"userData/productionAddress":            "PRODUCTION_ADDRESS",
	"userData/productionEmail":              "PRODUCTION_EMAIL",
	"userData/productionPhone":              "PRODUCTION_PHONE",
	"userData/productionNote":               "PRODUCTION_NOTE",
	"userData/soundMixerName":               "SOUND_MIXER_NAME",
	"userData/soundMixerAddress":            "SOUND_MIXER_ADDRESS",
	"userData/soundMixerEmail":              "SOUND_MIXER_EMAIL",
	"userData/soundMixerPhone":              "SOUND_MIXER_PHONE",
	"userData/soundMixerNote":               "SOUND_MIXER_NOTE",
	"userData/audioRecorderModel":           "AUDIO_RECORDER_MODEL",
	"userData/audioRecorderSerialNumber":    "AUDIO_RECORDER_SERIAL_NUMBER",
	"userData/audioRecorderFirmware":        "AUDIO_RECORDER_FIRMWARE",
	"location":                              "LOCATION",
	"location/locationName":                 "LOCATION_NAME",
	"location/locationGps":                  "LOCATION_GPS",
	"location/locationAltitude":             "LOCATION_ALTITUDE",
	"location/locationType":                 "LOCATION_TYPE",
	"location/locationTime":                 "LOCATION_TIME",
}

func chunkEsc(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// ixmlChunk writes properties as native XML.
func (r *R) ixmlChunk(props []Prop) []byte {
	var b strings.Builder
	ws := pick(r.Src, []string{"", "\n", "\n\t", "  "})
	if r.N(2) == 1 {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	var walk func(p *Prop, path string)
	fields := func(v *Val, path string) {
		for i := range v.Fields {
			walk(&v.Fields[i], path+"/")
		}
	}
	walk = func(p *Prop, path string) {
		path += p.Name
		x := ixmlNames[path]
		if x == ",chardata" {
			b.WriteString(chunkEsc(p.V.Text))
			return
		}
		if r.N(8) == 7 {
			b.WriteString("<!-- " + strings.ToLower(x) + " -->")
		}
		b.WriteString(ws + "<" + x + ">")
		switch p.V.Kind {
		case KText:
			if r.N(6) == 5 && !strings.Contains(p.V.Text, "]]>") {
				b.WriteString("<![CDATA[" + p.V.Text + "]]>")
			} else {
				b.WriteString(chunkEsc(p.V.Text))
			}
		case KStruct:
			fields(&p.V, path)
		default:
			item := strings.TrimSuffix(x, "_LIST")
			if r.N(3) != 2 {
				b.WriteString("<" + item + "_COUNT>" + strconv.Itoa(len(p.V.Items)) + "</" + item + "_COUNT>")
			}
			for i := range p.V.Items {
				b.WriteString(ws + "<" + item + ">")
				fields(&p.V.Items[i], path)
				b.WriteString("</" + item + ">")
			}
			b.WriteString(ws)
		}
		b.WriteString("</" + x + ">")
	}
	b.WriteString("<BWFXML>")
	for i := range props {
		p := &props[i]
		switch old := ixmlOld[p.V.Text]; {
		case p.Name == "takeType" && old != "" && r.N(3) != 2:
			b.WriteString(ws + "<" + old + ">TRUE</" + old + ">")
			continue
		case p.Name == "syncPoints" && len(p.V.Items) == 1 && len(p.V.Items[0].Fields) == 4 && p.V.Items[0].Fields[2].V.Text == preRecord:
			b.WriteString(ws + "<PRE_RECORD_SAMPLECOUNT>" + p.V.Items[0].Fields[3].V.Text + "</PRE_RECORD_SAMPLECOUNT>")
			continue
		}
		walk(p, "")
	}
	b.WriteString(ws + "</BWFXML>")
	return []byte(b.String())
}

// writable tells if a property has a native form.
func ixmlWritable(p *Prop, path string) bool {
	if p.NS != uriIXML || ixmlNames[path+p.Name] == "" {
		return false
	}
	for i := range p.V.Fields {
		if !ixmlWritable(&p.V.Fields[i], path+p.Name+"/") {
			return false
		}
	}
	for i := range p.V.Items {
		for j := range p.V.Items[i].Fields {
			if !ixmlWritable(&p.V.Items[i].Fields[j], path+p.Name+"/") {
				return false
			}
		}
	}
	return true
}

// genIXML makes iXML properties.
func (r *R) genIXML() []Prop {
	var l []Prop
	for _, p := range r.genProps(&GenOpt{N: 1 + r.Small(8), NS: []string{uriIXML}}) {
		if ixmlWritable(&p, "") && p.Name != "version" && !zeroLike(&p) {
			l = append(l, p)
		}
	}
	had := map[string]bool{}
	for _, p := range l {
		had[p.Name] = true
	}
	text := func(n, s string) Prop { return Prop{NS: uriIXML, Name: n, V: Val{Kind: KText, Text: s}} }
	if !had["takeType"] && r.N(3) == 2 {
		l = append(l, text("takeType", pick(r.Src, sortedKeys(Leaves(ixmlOld)))))
	}
	if !had["syncPoints"] && r.N(4) == 3 {
		l = append(l, Prop{NS: uriIXML, Name: "syncPoints", V: Val{Kind: KSeq, Items: []Val{{Kind: KStruct, Fields: []Prop{
			text("syncPointType", "RELATIVE"), text("syncPointFunction", "PRE_RECORD_SAMPLECOUNT"), text("syncPointComment", preRecord), text("syncPointLow", "4711")}}}}})
	}
	return append(l, Prop{NS: uriIXML, Name: "version", V: Val{Kind: KText, Text: pick(r.Src, []string{"2.0", "1.5", "2.10"})}})
}

// ixmlChunks: a document whose iXML properties come from chunks.
func (r *R) ixmlChunks() {
	skip := map[string]bool{uriIXML: true, "http://ns.adobe.com/xmp/1.0/DynamicMedia/": true}
	props := r.genProps(&GenOpt{InKnown: true, N: r.Small(6), Unknown: pick(r.Src, []int{0, 1, 3}), NoMirror: true, SkipNS: skip})
	durable, durProps, durJSON := writePacket(props, r.style(), true, false), cloneProps(props), false
	r.Logf("document: %s", describe(props))
	d := loadBytes(r, durable, false)
	r.had = map[string]bool{}
	note := func() {
		for _, p := range props {
			r.had["{"+p.NS+"}"+p.Name] = true
		}
	}
	restart := func() {
		r.Logf("crash and restart")
		reinit()
		d = loadBytes(r, durable, durJSON)
		props = cloneProps(durProps)
		checkDoc(r, d, props, "restart-")
	}
	others := func() (l []Prop) {
		for _, p := range props {
			if p.NS != uriIXML {
				l = append(l, p)
			}
		}
		return
	}
	loose := true
	direct := false
	once := false
	for i, n := 0, 2+r.Small(8); i < n; i++ {
		switch k := r.N(8); {
		case k < 4:
			l := r.genIXML()
			b := r.ixmlChunk(l)
			damaged := r.N(4) == 3
			if damaged {
				b = b[:len("<BWFXML>")+r.N(len(b)-1-len("<BWFXML>"))]
			} else if once {
				continue // values kept in step with xmpDM are not removed
			}
			m, err := d.MakeModel(mustNS(r, "iXML"))
			if err != nil {
				r.Fail("model-refused", "MakeModel(iXML): %v", err)
			}
			x := m.(*ixml.IXML)
			direct = r.N(2) == 1
			if direct {
				err = x.ParseXML(b)
			} else {
				m, e := d.MakeModel(mustNS(r, "qt"))
				if e != nil {
					r.Fail("model-refused", "MakeModel(qt): %v", e)
				}
				err = m.(tagger).SetTag(pick(r.Src, []string{"iXML", "info.ixml.xml"}), string(b))
			}
			r.Logf("iXML chunk %s: %v", clip2(string(b), 2000), err)
			d.SetDirty()
			if damaged {
				if err == nil {
					r.Fail("tag-unreported", "iXML chunk cut off reported success: %s", clip2(string(b), 300))
				}
				if !once { // the new model has a version
					props = append(others(), Prop{NS: uriIXML, Name: "version", V: Val{Kind: KText, Text: "2.0"}})
				}
				checkDoc(r, d, props, "refused-")
				continue
			}
			if err != nil {
				r.Fail("tag-refused", "iXML chunk: %v", err)
			}
			props = append(others(), l...)
			once = true
			note()
			checkDoc(r, d, props, "tag-")
			r.ixmlBack(d, l)
			r.nontrivial = true
			r.Count("tags.ixml", 1)
		case k == 4:
			p := r.writePlan(2000)
			_, w, err := (&SaveOpt{}).save(d, p)
			r.Logf("save to destination with %v: %v", p, err)
			if w.fired > 0 && err == nil {
				r.Fail("ack-of-failed-save", "destination with %v, save reported success", p)
			}
			checkDoc(r, d, props, "failed-save-")
		case k == 5:
			r.Fault("crash.unsaved")
			restart()
			once = len(props) != len(others())
		default:
			durable = r.ackSave(d, props, &loose, r.N(3) == 2, &durJSON)
			durProps = cloneProps(props)
			checkDoc(r, d, props, "saved-")
			if r.N(2) == 1 {
				r.Fault("crash.after-save")
				restart()
			}
		}
	}
	durable = r.ackSave(d, props, &loose, false, &durJSON)
	durProps = cloneProps(props)
	r.Fault("crash.after-save")
	restart()
}

// ixmlBack writes the chunk and reads it again.
func (r *R) ixmlBack(d *xmp.Document, l []Prop) {
	x := ixml.FindModel(d)
	if x == nil {
		r.Fail("tag-lost", "no iXML model after an iXML chunk was set")
	}
	b, err := xml.Marshal(x)
	if err != nil {
		r.Fail("chunk-error", "xml.Marshal: %v", err)
	}
	y := &ixml.IXML{}
	if err := y.ParseXML(b); err != nil {
		r.Fail("chunk-error", "ParseXML of a written chunk: %v, %s", err, clip2(string(b), 2000))
	}
	e := xmp.NewDocument()
	defer e.Close()
	e.AddModel(y)
	checkDoc(r, e, l, "chunk-")
}
