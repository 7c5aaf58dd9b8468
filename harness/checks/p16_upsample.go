package checks

import (
	"jxverif/jx"
	"jxverif/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "P16", Quick: 1600, Thorough: 10000, Batch: 20,
		Rule: "random frames coded at 1/2, 1/4 or 1/8 of the image's size (lossless grey, RGB and floating point; lossy RGB, YCbCr with subsampled chroma and XYB, in one or many groups), with extra channels enlarged by factors of their own, the default weights or random ones, sizes from one sample up and not multiples of the factor; every delivered sample is compared with the weighted sum of its mirrored 5x5 neighbourhood, limited to the neighbourhood's range, in double precision; non-trivial when something is enlarged",
		Need: []string{"colour_samples", "up2", "up4", "up8", "custom", "lossy", "xyb", "ec_up", "tiny", "multi_group", "negative"},
		Run:  p16})
}

// randUpWeights sometimes replaces the kernels.
func randUpWeights(t *rt.T, r *jx.Rng, m *jx.Meta) {
	if r.P(0.4) {
		return
	}
	kernel := func(def []float64) []float64 {
		if r.P(0.3) {
			return nil
		}
		o := make([]float64, len(def))
		for i, v := range def {
			switch r.N(3) {
			case 0:
				o[i] = jx.F16Round(v)
			case 1:
				o[i] = jx.F16Round(v*0.8 + 0.1*(r.F()-0.4))
			default:
				o[i] = jx.F16Round(0.25 * (r.F() - 0.3))
			}
		}
		t.Count("custom", 1)
		return o
	}
	if m.XformDef {
		m.XformDef = false
		m.Opsin = jx.Opsin{}
	}
	m.Up2, m.Up4, m.Up8 = kernel(jx.DefaultUp2), kernel(jx.DefaultUp4), kernel(jx.DefaultUp8)
}

func p16(t *rt.T) {
	r := t.R
	up := []int{2, 4, 8, 2, 1}[t.Index%5]
	note := func(m *jx.Meta, f *jx.FrameHdr, groups int) {
		if f.Up > 1 {
			t.Count(map[int]string{2: "up2", 4: "up4", 8: "up8"}[f.Up], 1)
		}
		for i, e := range m.EC {
			if f.EcUp[i] > 1 {
				t.Count("ec_up", 1)
			}
			t.Tag("resolution", [2]int{max(f.Up, 1), f.EcUp[i] << uint(e.DimShift)})
		}
		if m.W <= 8 || m.H <= 8 {
			t.Count("tiny", 1)
		}
		if groups > 1 {
			t.Count("multi_group", 1)
		}
		t.Key("%dx%d/%d/%v/%+v", m.W, m.H, f.Up, f.EcUp, m.BD)
	}
	size := func(big bool) (int, int) {
		W, H := r.R(1, 120), r.R(1, 120)
		switch {
		case r.P(0.25):
			W, H = r.R(1, 20), r.R(1, 20)
		case big:
			W, H = r.R(1, 300), r.R(1, 300)
		}
		return W, H
	}
	if t.Index%2 == 1 {
		mode := 0
		if t.Index%20 == 11 {
			mode = 1
		}
		c := genVarDCTWith(r, mode, func(c *vdctCase) {
			c.m.EC, c.f.EcUp = nil, nil
			c.f.Up = up
			if mode == 0 {
				c.m.W, c.m.H = size(true)
			} else {
				c.f.Up = 2
				c.m.W, c.m.H = r.R(513, 700), r.R(16, 60)
				if r.Bool() {
					c.m.W, c.m.H = c.m.H, c.m.W
				}
			}
			n := r.Pick(0, 1, 2)
			if c.f.Up == 1 {
				n = r.R(1, 3)
			}
			randExtras(r, c.m, c.f, n, func() jx.BitDepth { return jx.BitDepth{Bits: r.Pick(8, 12)} })
			randUpWeights(t, r, c.m)
		})
		t.Desc("lossy %dx%d enlarged %d times, xyb %v ycbcr %v %v, extra %+v coded at 1/%v, kernels %v %v %v", c.m.W, c.m.H, c.f.Up, c.m.XYB, c.f.YCbCr, c.f.JpegUp, c.m.EC, c.f.EcUp, c.m.Up2 != nil, c.m.Up4 != nil, c.m.Up8 != nil)
		note(c.m, c.f, c.b.Stats.Groups)
		t.Count("lossy", 1)
		if c.m.XYB {
			t.Count("xyb", 1)
		}
		img, err := decode(c.cs, nil)
		if err != nil {
			t.Failf("error", "valid lossy frame rejected: %v", err)
			return
		}
		c.acceptPinned = true
		compareVarDCT(t, c, img)
		t.Count("colour_samples", 3*c.m.W*c.m.H)
		return
	}
	W, H := size(true)
	m := &jx.Meta{W: W, H: H, BD: jx.BitDepth{Bits: r.Pick(8, 8, 1, 4, 12, 16)}, CE: jx.SRGBEnc(), XformDef: true}
	if r.P(0.4) {
		m.CE = jx.GrayEnc()
	}
	if r.P(0.25) {
		m.BD = jx.BitDepth{Float: true, Bits: 16, Exp: 5}
		t.Count("negative", 1)
	}
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: up, GroupShift: r.N(4), Pass: jx.PassSpec{Num: 1}}
	if r.P(0.3) {
		m.W, m.H, f.GroupShift = r.R(250, 700), r.R(20, 300), 0
		W, H = m.W, m.H
	}
	n := r.Pick(0, 1, 2)
	if up == 1 {
		n = r.R(1, 3)
	}
	randExtras(r, m, f, n, func() jx.BitDepth {
		if r.P(0.2) {
			return jx.BitDepth{Float: true, Bits: 16, Exp: 5}
		}
		return jx.BitDepth{Bits: r.Pick(8, 12, 1, 16)}
	})
	randUpWeights(t, r, m)
	o := jx.ModOpts{}
	o.Trans = jx.TransformOpts{Kinds: []int{jx.TrRCT, jx.TrPalette, jx.TrSqueeze}, Max: r.R(0, 2)}
	depthOpts(r, m, &o)
	ch := jx.CodedSizes(m, f)
	nc := m.NColor()
	for k, c := range ch {
		bd := m.BD
		if k >= nc {
			bd = m.EC[k-nc].BD
		}
		fillDepth(r, c, bd, false)
	}
	b := jx.BuildModFrame(r, m, f, ch, o)
	t.Desc("%dx%d, %d colour channels of %+v enlarged %d times, extra %+v coded at 1/%v, kernels %v %v %v", W, H, nc, m.BD, f.Up, m.EC, f.EcUp, m.Up2 != nil, m.Up4 != nil, m.Up8 != nil)
	note(m, f, b.Stats.Groups)
	img, err := decode(jx.Codestream(r, m, []*jx.BuiltFrame{b}, r.P(0.2)), nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	if len(img.Buffer) != len(b.Chans) {
		t.Failf("channels", "decoded %d channels, coded %d", len(img.Buffer), len(b.Chans))
		return
	}
	for k, c := range b.Chans {
		bd, d := m.BD, f.Up
		if k >= nc {
			bd, d = m.EC[k-nc].BD, f.EcUp[k-nc]<<uint(m.EC[k-nc].DimShift)
		}
		if s := compareChan(&img.Buffer[k], c, m, bd, d, W, H); s != "" {
			t.Failf("sample", "channel %d (%+v): %s", k, bd, s)
			return
		}
		t.Count("colour_samples", W*H)
	}
}
