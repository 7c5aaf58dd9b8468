package checks

import (
	"bytes"
	"image"
	"image/color"
	"math"

	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
)

func init() {
	rt.Register(&rt.Check{ID: "P13", Quick: 16000, Thorough: 80000, Batch: 60,
		Rule: "random lossless and XYB images of 1 to 16 bits, grey and RGB, with extra channels of every kind, premultiplied and plain alpha in any place, embedded profiles, transfer curves, Display P3 and other white points; every pixel of the converted image is compared with the decoded samples converted by independent formulas, single-channel conversions likewise, then conversions and writers run again in random order and must give the same while the decoded planes stay untouched",
		Need: []string{"large", "pixels", "repeats", "channel_images", "alpha", "alpha_not_first", "premultiplied", "grey", "deep", "kind_srgb", "kind_xyb", "float", "very_deep", "kind_icc", "kind_tf", "kind_hdr", "pq_pixels"},
		Run:  p13})
}

// nrgba gives a pixel as non-premultiplied values on a 0..1 scale and the precision it is stored with.
func nrgba(c color.Color) (v [4]float64, unit float64) {
	switch p := c.(type) {
	case color.Gray:
		g := float64(p.Y) / 255
		return [4]float64{g, g, g, 1}, 1.0 / 255
	case color.Gray16:
		g := float64(p.Y) / 65535
		return [4]float64{g, g, g, 1}, 1.0 / 65535
	case color.NRGBA:
		return [4]float64{float64(p.R) / 255, float64(p.G) / 255, float64(p.B) / 255, float64(p.A) / 255}, 1.0 / 255
	case color.NRGBA64:
		return [4]float64{float64(p.R) / 65535, float64(p.G) / 65535, float64(p.B) / 65535, float64(p.A) / 65535}, 1.0 / 65535
	}
	r, g, b, a := c.RGBA()
	if p, ok := c.(color.RGBA); ok && p.A == 255 {
		return [4]float64{float64(p.R) / 255, float64(p.G) / 255, float64(p.B) / 255, 1}, 1.0 / 255
	}
	if p, ok := c.(color.RGBA64); ok && p.A == 65535 {
		return [4]float64{float64(p.R) / 65535, float64(p.G) / 65535, float64(p.B) / 65535, 1}, 1.0 / 65535
	}
	if a == 0 {
		return [4]float64{}, 1
	}
	return [4]float64{float64(r) / float64(a), float64(g) / float64(a), float64(b) / float64(a), float64(a) / 65535}, 2 / float64(a) * 257
}

func sameImage(a, b image.Image) bool {
	if a.Bounds() != b.Bounds() || a.ColorModel() != b.ColorModel() {
		return false
	}
	for y := a.Bounds().Min.Y; y < a.Bounds().Max.Y; y++ {
		for x := a.Bounds().Min.X; x < a.Bounds().Max.X; x++ {
			if a.At(x, y) != b.At(x, y) {
				return false
			}
		}
	}
	return true
}

// compareShown checks every pixel of an image made from a decoded one.
func (c *outCase) compareShown(t *rt.T, what string, got image.Image, dec *core.JXLImage) bool {
	W, H := c.size()
	if b := got.Bounds(); b.Min.X != 0 || b.Min.Y != 0 || b.Dx() != W || b.Dy() != H {
		t.Failf(what+"-size", "image of %dx%d came out with bounds %v", W, H, b)
		return false
	}
	if c.hdr && !c.pq {
		return true
	}
	if c.pq {
		t.Count("pq_pixels", W*H)
	}
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			want, slack := c.shown(dec, x, y)
			v, unit := nrgba(got.At(x, y))
			if c.m.BD.Bits > 8 && unit > 1.0/65535 {
				t.Failf(what+"-depth", "image of %d bits came out as %T with 8 bits a sample", c.m.BD.Bits, got)
				return false
			}
			for k := range v {
				if k < 3 && want[3] == 0 && c.alpha >= 0 && c.m.EC[c.alpha-c.m.NColor()].Premult {
					continue // a fully transparent premultiplied pixel has no colour
				}
				tk := unit*0.51 + 1e-9
				if k < 3 && !c.plain() {
					tk = unit*0.5001 + slack[k]
				}
				if !(math.Abs(v[k]-want[k]) <= tk) {
					t.Failf(what+"-sample", "(%d,%d) component %d is %.6f, decoded samples give %.6f (tolerance %.6f)", x, y, k, v[k], want[k], tk)
					return false
				}
			}
		}
	}
	t.Count("pixels", W*H)
	return true
}

func p13(t *rt.T) {
	r := t.R
	c := genOut(r)
	c.note(t)
	dec, err := decode(c.cs, nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	if len(dec.Buffer) != c.m.NColor()+len(c.m.EC) {
		t.Failf("channels", "%d channels decoded of %d", len(dec.Buffer), c.m.NColor()+len(c.m.EC))
		return
	}
	snap := copyImg(dec)
	img, err := dec.ToImage()
	if err != nil {
		t.Failf("toimage", "converting a decoded image failed: %v", err)
		return
	}
	if !c.compareShown(t, "image", img, snap) {
		return
	}
	W, H := c.size()
	for step := r.R(1, 4); step > 0; step-- {
		switch r.N(4) {
		case 0, 1:
			k := r.N(len(dec.Buffer))
			ci, err := dec.ChannelToImage(k)
			if err != nil {
				t.Failf("channel", "converting channel %d failed: %v", k, err)
				return
			}
			if ci.Bounds().Dx() != W || ci.Bounds().Dy() != H {
				t.Failf("channel-size", "channel image is %v", ci.Bounds())
				return
			}
			t.Count("channel_images", 1)
			if c.hdr || c.m.XYB && k < c.m.NColor() {
				break
			}
			for y := 0; y < H; y++ {
				for x := 0; x < W; x++ {
					want := math.Min(1, math.Max(0, c.rel(snap, k, x, y)))
					v, unit := nrgba(ci.At(x, y))
					if c.bits(k) > 8 && unit > 1.0/65535 {
						unit = 1.0 / 255
					}
					if math.Abs(v[0]-want) > unit*0.51+1e-9 {
						t.Failf("channel-sample", "channel %d (%d,%d) is %.6f, decoded %.6f", k, x, y, v[0], want)
						return
					}
				}
			}
		case 2:
			var b bytes.Buffer
			if err := (&core.PNGWriter{}).WritePNG(dec, &b); err != nil {
				t.Failf("png", "writing PNG failed: %v", err)
				return
			}
		case 3:
			var b bytes.Buffer
			if err := core.WritePFM(dec, &b); err != nil {
				t.Failf("pfm", "writing PFM failed: %v", err)
				return
			}
		}
		again, err := dec.ToImage()
		if err != nil || !sameImage(img, again) {
			t.Failf("repeat", "converting the image again gives another picture (error %v)", err)
			return
		}
		t.Count("repeats", 1)
		if d := diffImages(snap, dec); d != "" {
			t.Failf("mutated", "converting changed the decoded image: %s", d)
			return
		}
	}
}
