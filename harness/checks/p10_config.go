package checks

import (
	"bytes"
	"image"
	"image/color"
	"io"
	"reflect"

	"jxverif/rt"

	jxl_go "github.com/kpfaulkner/jxl-go"
	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"
)

func init() {
	rt.Register(&rt.Check{ID: "P10", Quick: 4000, Thorough: 50000, Batch: 50,
		Rule: "random images of every depth, channel set, colour encoding, orientation and container form, and the sample files; the size, colour model and header of the header query, of the package's DecodeConfig and of the standard library's image.DecodeConfig are compared with the coded ones and with those of the fully decoded image; queries run on seekable, non-seekable and fragmenting readers, on data cut off after the header, and before and after decodes on the same decoder",
		Need: []string{"large", "queries", "bare", "container", "std_config", "std_decode", "cut", "rotated", "grey", "alpha", "deep", "corpus", "same_decoder", "parse_only"},
		Run:  p10})
}

// onlyReader hides every method but Read.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

func p10(t *rt.T) {
	r := t.R
	var data []byte
	var c *outCase
	if t.Index%97 == 5 {
		fs := corpus()
		data = fs[t.Index/97%len(fs)]
		t.Count("corpus", 1)
	} else {
		c = genOut(r)
		c.note(t)
		data = c.cs
		if c.m.Orient > 1 {
			t.Count("rotated", 1)
		}
		if r.P(0.6) {
			data = randContainer(r, c.cs, t.Count)
			t.Count("container", 1)
		} else {
			t.Count("bare", 1)
		}
	}
	reader := func() io.Reader {
		switch r.N(3) {
		case 0:
			return bytes.NewReader(data)
		case 1:
			return onlyReader{bytes.NewReader(data)}
		}
		return newFrag(r, data, r.N(4))
	}

	full, ferr := jxl_go.Decode(bytes.NewReader(data))
	if ferr != nil {
		if c != nil {
			t.Failf("decode", "valid image rejected: %v", ferr)
		}
		return
	}
	check := func(what string, cfg image.Config, err error) bool {
		t.Count("queries", 1)
		if err != nil {
			t.Failf(what+"-error", "%s of an image that decodes: %v", what, err)
			return false
		}
		b := full.Bounds()
		if cfg.Width != b.Dx() || cfg.Height != b.Dy() || cfg.ColorModel != full.ColorModel() {
			t.Failf(what, "%s says %dx%d model %s, the decoded image is %T %v", what, cfg.Width, cfg.Height, modelName(cfg.ColorModel), full, b)
			return false
		}
		if c != nil {
			if w, h := c.size(); cfg.Width != w || cfg.Height != h {
				t.Failf(what+"-size", "%s says %dx%d, coded %dx%d", what, cfg.Width, cfg.Height, w, h)
				return false
			}
		}
		return true
	}
	cfg, err := jxl_go.DecodeConfig(reader())
	if !check("DecodeConfig", cfg, err) {
		return
	}
	std := true
	if c == nil || bytes.HasPrefix(data, []byte("\xff\x0a")) || bytes.HasPrefix(data, []byte("\x00\x00\x00\x0cJXL \x0d\x0a\x87\x0a")) {
		cfg, name, err := image.DecodeConfig(reader())
		if !check("image.DecodeConfig", cfg, err) {
			return
		}
		if name != "jxl" {
			t.Failf("name", "image.DecodeConfig calls the format %q", name)
			return
		}
		t.Count("std_config", 1)
	} else {
		std = false
	}
	if std && r.P(0.5) {
		im, name, err := image.Decode(reader())
		if err != nil || name != "jxl" {
			t.Failf("image.Decode", "image.Decode of an image that decodes: format %q, error %v", name, err)
			return
		}
		if !sameImage(im, full) {
			t.Failf("image.Decode-pixels", "image.Decode gives another image than Decode")
			return
		}
		t.Count("std_decode", 1)
	}

	// the header, alone and on a decoder that also decodes
	d := core.NewJXLDecoder(bytes.NewReader(data), nil)
	h1, err := d.GetImageHeader()
	if err != nil {
		t.Failf("header", "GetImageHeader of an image that decodes: %v", err)
		return
	}
	ref := *h1
	if c != nil {
		if s := headerDiff(t, h1, c.m); s != "" {
			t.Failf("header-content", "GetImageHeader: %s", s)
			return
		}
	}
	for k := r.R(1, 4); k > 0; k-- {
		if r.P(0.5) {
			img, err := d.Decode()
			if err != nil {
				t.Failf("decode-after", "Decode after GetImageHeader on one decoder: %v", err)
				return
			}
			if int(img.Width) != full.Bounds().Dx() || int(img.Height) != full.Bounds().Dy() {
				t.Failf("decode-size", "the decoded image is %dx%d, converted %v", img.Width, img.Height, full.Bounds())
				return
			}
			if g, err := img.ToImage(); err != nil || !sameImage(g, full) {
				t.Failf("decode-again", "Decode on a decoder used before gives another image (error %v)", err)
				return
			}
		} else {
			h, err := d.GetImageHeader()
			if err != nil {
				t.Failf("header-after", "GetImageHeader on a decoder used before: %v", err)
				return
			}
			if !reflect.DeepEqual(*h, ref) {
				t.Failf("header-again", "GetImageHeader on a decoder used before gives another header")
				return
			}
		}
		t.Count("same_decoder", 1)
	}

	// no more than the header is needed
	if c != nil && data[0] == 0xff {
		cut := data[:c.m.HdrBytes+r.N(len(data)-c.m.HdrBytes)]
		cfg, err := jxl_go.DecodeConfig(bytes.NewReader(cut))
		if !check("DecodeConfig-cut", cfg, err) {
			return
		}
		t.Count("cut", 1)
	}
	// walking over the frames without decoding them
	parse := data
	if t.Index%11 == 3 {
		parse = genVarDCT(r, 4).cs
		t.Count("parse_lf_frames", 1)
	}
	po := &options.JXLOptions{ParseOnly: true}
	if img, err := decode(parse, po); err != nil || img != nil {
		t.Failf("parse-only", "parse-only decoding of a valid image: image %v, error %v", img != nil, err)
		return
	}
	t.Count("parse_only", 1)
	if c != nil && data[0] == 0xff {
		if _, err := decode(data[:r.N(len(data))], po); err == nil {
			t.Failf("parse-only-cut", "parse-only decoding of a cut off image gives no error")
			return
		}
	}
	t.Key("%T/%d bytes %x/%v/%v/%v", full, len(data), data[len(data)-min(8, len(data)):], data[0] == 0xff, c == nil, c != nil && c.m.Orient > 4)
}

func modelName(m color.Model) string {
	switch m {
	case color.GrayModel:
		return "Gray"
	case color.Gray16Model:
		return "Gray16"
	case color.NRGBAModel:
		return "NRGBA"
	case color.NRGBA64Model:
		return "NRGBA64"
	case color.RGBAModel:
		return "RGBA"
	}
	return "other"
}
