package checks

import (
	"jxverif/jx"
	"jxverif/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "P05", Quick: 6000, Thorough: 30000, Batch: 50,
		Rule: "random lossless images with every orientation, sizes down to one row or column, grey, RGB and extra channels, integer and floating-point (XYB) planes; every decoded sample is compared with the coded one at the place the orientation puts it, and XYB images with their un-oriented decode; non-trivial when the orientation is not 1",
		Need: []string{"int", "float", "orient_1", "orient_2", "orient_3", "orient_4", "orient_5", "orient_6", "orient_7", "orient_8"},
		Run:  p05})
}

func p05(t *rt.T) {
	r := t.R
	c := genMod(r, r.P(0.2))
	o := t.Index%8 + 1
	xyb := r.P(0.3) && len(c.b.Chans) >= 3 && c.m.NColor() == 3
	c.m.XYB = xyb
	c.m.Orient = o
	s := r.U64()
	cs := jx.Codestream(jx.NewRng(s), c.m, []*jx.BuiltFrame{c.b}, false)
	t.Desc("%dx%d, %d channels, orientation %d, xyb %v", c.m.W, c.m.H, len(c.b.Chans), o, xyb)
	if o > 1 {
		t.Key("%d/%v/%dx%d/%d", o, xyb, c.m.W, c.m.H, len(c.b.Chans))
	}
	img, err := decode(cs, nil)
	if err != nil {
		t.Failf("error", "valid image with orientation %d rejected: %v", o, err)
		return
	}
	t.Count("orient_"+string(rune('0'+o)), 1)
	W, H := c.m.W, c.m.H
	if o > 4 {
		W, H = H, W
	}
	if int(img.Width) != W || int(img.Height) != H {
		t.Failf("size", "%dx%d image with orientation %d reported as %dx%d", c.m.W, c.m.H, o, img.Width, img.Height)
		return
	}
	h, err := headerOf(cs, nil)
	if err != nil || int(h.Orientation) != o || int(h.OrientedWidth) != W || int(h.OrientedHeight) != H || int(h.Size.Width) != c.m.W || int(h.Size.Height) != c.m.H {
		t.Failf("header", "header reports orientation %d, %dx%d oriented %dx%d (error %v), coded %d, %dx%d", h.Orientation, h.Size.Width, h.Size.Height, h.OrientedWidth, h.OrientedHeight, err, o, c.m.W, c.m.H)
		return
	}
	if !xyb {
		t.Count("int", 1)
		var want []*jx.Chan
		for _, ch := range c.b.Chans {
			want = append(want, orient(ch, o))
		}
		compareExact(t, img, want, chanBits(c.m))
		return
	}
	t.Count("float", 1)
	c.m.Orient = 1
	ref, err := decode(jx.Codestream(jx.NewRng(s), c.m, []*jx.BuiltFrame{c.b}, false), nil)
	if err != nil {
		t.Failf("error-plain", "valid image rejected: %v", err)
		return
	}
	for k := range ref.Buffer {
		a, b := &ref.Buffer[k], &img.Buffer[k]
		if s := shapeErr(b); s != "" || int(b.Width) != W || int(b.Height) != H {
			t.Failf("shape", "channel %d is %dx%d %s", k, b.Width, b.Height, s)
			return
		}
		for y := 0; y < c.m.H; y++ {
			for x := 0; x < c.m.W; x++ {
				X, Y := orientXY(o, x, y, c.m.W, c.m.H)
				if u, v := planeAt(a, x, y), planeAt(b, X, Y); u != v {
					t.Failf("sample", "channel %d: (%d,%d)=%v should be at (%d,%d), found %v", k, x, y, u, X, Y, v)
					return
				}
			}
		}
		t.Count("samples", c.m.W*c.m.H)
	}
}
