package main

import (
	"github.com/trimmer-io/go-xmp/models/cc"
	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/digikam"
	"github.com/trimmer-io/go-xmp/models/dji"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pdf"
	"github.com/trimmer-io/go-xmp/models/pm"
	psmodel "github.com/trimmer-io/go-xmp/models/ps"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/models/tiff"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpbj "github.com/trimmer-io/go-xmp/models/xmp_bj"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	xmprights "github.com/trimmer-io/go-xmp/models/xmp_rights"
	xmptpg "github.com/trimmer-io/go-xmp/models/xmp_tpg"
	"github.com/trimmer-io/go-xmp/xmp"
)

// accessor: the functions of a model package which find and make its model.
type accessor struct {
	ns         *xmp.Namespace
	find, make func(d *xmp.Document) (xmp.Model, error)
}

var accessors = []accessor{
	{cc.NsCC, func(d *xmp.Document) (xmp.Model, error) {
		if m := cc.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := cc.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{crs.NsCrs, func(d *xmp.Document) (xmp.Model, error) {
		if m := crs.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := crs.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{dc.NsDc, func(d *xmp.Document) (xmp.Model, error) {
		if m := dc.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := dc.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{digikam.NsDk, func(d *xmp.Document) (xmp.Model, error) {
		if m := digikam.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := digikam.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{dji.NsDJI, func(d *xmp.Document) (xmp.Model, error) {
		if m := dji.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := dji.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{exif.NsExif, func(d *xmp.Document) (xmp.Model, error) {
		if m := exif.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := exif.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{id3.NsID3, func(d *xmp.Document) (xmp.Model, error) {
		if m := id3.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := id3.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{itunes.NsITunes, func(d *xmp.Document) (xmp.Model, error) {
		if m := itunes.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := itunes.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{ixml.NsIXML, func(d *xmp.Document) (xmp.Model, error) {
		if m := ixml.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := ixml.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{pdf.NsPDF, func(d *xmp.Document) (xmp.Model, error) {
		if m := pdf.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := pdf.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{pm.NsPm, func(d *xmp.Document) (xmp.Model, error) {
		if m := pm.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := pm.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{psmodel.NsPhotoshop, func(d *xmp.Document) (xmp.Model, error) {
		if m := psmodel.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := psmodel.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{riff.NsRiff, func(d *xmp.Document) (xmp.Model, error) {
		if m := riff.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := riff.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{tiff.NsTiff, func(d *xmp.Document) (xmp.Model, error) {
		if m := tiff.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := tiff.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{xmpbase.NsXmp, func(d *xmp.Document) (xmp.Model, error) {
		if m := xmpbase.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := xmpbase.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{xmpbj.NsXmpBJ, func(d *xmp.Document) (xmp.Model, error) {
		if m := xmpbj.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := xmpbj.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{xmpdm.NsXmpDM, func(d *xmp.Document) (xmp.Model, error) {
		if m := xmpdm.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := xmpdm.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{xmpmm.NsXmpMM, func(d *xmp.Document) (xmp.Model, error) {
		if m := xmpmm.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := xmpmm.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{xmprights.NsXmpRights, func(d *xmp.Document) (xmp.Model, error) {
		if m := xmprights.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := xmprights.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
	{xmptpg.NsXmpTPg, func(d *xmp.Document) (xmp.Model, error) {
		if m := xmptpg.FindModel(d); m != nil {
			return m, nil
		}
		return nil, nil
	}, func(d *xmp.Document) (xmp.Model, error) {
		m, err := xmptpg.MakeModel(d)
		if m == nil {
			return nil, err
		}
		return m, err
	}},
}

// typedModels: the packages find the models the document has.
func (r *R) typedModels(d *xmp.Document) {
	for i := range accessors {
		a := &accessors[i]
		var want xmp.Model
		for _, n := range d.Nodes() {
			if n.Model != nil && n.Name() == a.ns.GetName() {
				want = n.Model
			}
		}
		if m, _ := a.find(d); m != want {
			r.Fail("typed-model", "FindModel of %s gives %T %v, the document has %T", a.ns.GetName(), m, m == nil, want)
		}
	}
}

// makeTyped makes a model the way its package offers.
func (r *R) makeTyped(d *xmp.Document, ns *xmp.Namespace) (xmp.Model, error) {
	r.typedModels(d)
	for i := range accessors {
		if a := &accessors[i]; a.ns.GetURI() == ns.GetURI() && r.N(2) == 1 {
			m, err := a.make(d)
			if err != nil {
				return nil, err
			}
			if m == nil || d.FindModel(ns) != m {
				r.Fail("typed-model", "MakeModel of %s made %T, the document has %T", ns.GetName(), m, d.FindModel(ns))
			}
			r.typedModels(d)
			return m, nil
		}
	}
	return d.MakeModel(ns)
}
