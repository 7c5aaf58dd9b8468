package checks

import (
	"jxverif/jx"
	"jxverif/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "P26", Quick: 2500, Thorough: 12500, Batch: 20,
		Rule: "random lossless and lossy frames with up to 8 extra channels of every type, each with its own integer (1 to 31 bits) or floating point (16, 24, 32 and odd bits) depth, dim shift and upsampling, in one or many groups and passes; every delivered sample of every extra channel, and of the colour channels of lossless frames, is compared with what was coded (channels at a lower resolution through the specified upsampling); non-trivial when a frame has an extra channel",
		Need: []string{"extra_samples", "dim_shift", "ec_up", "float", "deep", "multi_group", "lossy", "resampled"},
		Run:  p26})
}

func randDepth(r *jx.Rng) jx.BitDepth {
	switch r.N(8) {
	case 0:
		return jx.BitDepth{Bits: r.R(1, 24)}
	case 1:
		return jx.BitDepth{Bits: r.R(25, 31)}
	case 2:
		return jx.BitDepth{Float: true, Bits: 16, Exp: 5}
	case 3:
		d := jx.BitDepth{Float: true, Bits: r.Pick(24, 32), Exp: 8}
		if d.Bits == 24 {
			d.Exp = 7
		}
		return d
	case 4:
		d := jx.BitDepth{Float: true, Exp: r.R(2, 8)}
		d.Bits = d.Exp + 1 + r.R(2, min(23, 31-d.Exp))
		return d
	}
	return jx.BitDepth{Bits: r.Pick(8, 8, 1, 10, 12, 16)}
}

// randExtras adds extra channels, each with a depth and resolution of its own.
func randExtras(r *jx.Rng, m *jx.Meta, f *jx.FrameHdr, n int, depth func() jx.BitDepth) {
	for ; n > 0; n-- {
		e := jx.ExtraCh{Type: r.Pick(jx.ECAlpha, jx.ECDepth, jx.ECSpot, jx.ECSel, jx.ECBlack, jx.ECCFA, jx.ECTherm, jx.ECOpt), BD: depth()}
		if e.Type == jx.ECSpot {
			for k := range e.Spot {
				e.Spot[k] = jx.F16Round(r.F())
			}
		}
		e.Premult = r.Bool()
		if e.Type == jx.ECCFA {
			e.CFA = r.Pick(1, 2, 5, 30)
		}
		up := 0
		for {
			e.DimShift, up = r.Pick(0, 0, 1, 2, 3), r.Pick(1, 1, 1, 2, 4, 8)
			if d := up << uint(e.DimShift); d <= 8 && d >= max(f.Up, 1) {
				break
			}
		}
		m.EC = append(m.EC, e)
		f.EcUp = append(f.EcUp, up)
	}
}

// depthOpts limits the coding tools to what the depths allow.
func depthOpts(r *jx.Rng, m *jx.Meta, o *jx.ModOpts) (wide bool) {
	bits, fl := m.BD.Bits, m.BD.Float
	for _, e := range m.EC {
		bits, fl = max(bits, e.BD.Bits), fl || e.BD.Float
	}
	o.FixedPred = -1
	if fl {
		o.Tree.NoMul = true
	}
	if bits > 24 || fl {
		o.Trans.Kinds = nil
		o.Trans.Max = 0
	}
	if bits > 24 {
		o.FixedPred = r.Pick(0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13)
		if bits == 32 && r.Bool() {
			o.FixedPred, wide = 0, true
		}
	}
	return
}

func p26(t *rt.T) {
	r := t.R
	if t.Index%5 == 4 {
		p26Lossy(t)
		return
	}
	W, H := r.R(1, 60), r.R(1, 60)
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: 1, GroupShift: r.N(4)}
	switch {
	case t.Index%40 == 11: // several LF groups, some channels in their sections
		W, H, f.GroupShift = r.R(1025, 1200), r.R(2, 12), 0
		if r.Bool() {
			W, H = H, W
		}
	case r.P(0.4):
		W, H, f.GroupShift = r.R(100, 330), r.R(20, 200), 0
		if r.Bool() {
			W, H = H, W
		}
	}
	m := &jx.Meta{W: W, H: H, BD: randDepth(r), CE: jx.SRGBEnc(), XformDef: true}
	if r.P(0.4) {
		m.CE = jx.GrayEnc()
	}
	f.Up = r.Pick(1, 1, 1, 1, 2, 4, 8)
	randExtras(r, m, f, r.Pick(1, 1, 2, 3, 4, 5, 8), func() jx.BitDepth {
		if r.Bool() {
			return m.BD
		}
		return randDepth(r)
	})
	f.Pass = jx.RandPasses(r)
	o := jx.ModOpts{}
	o.Trans = jx.TransformOpts{Kinds: []int{jx.TrRCT, jx.TrPalette, jx.TrSqueeze}, Max: r.R(0, 2)}
	o.LocalTrans, o.LocalTree = r.Bool(), r.Bool()
	wide := depthOpts(r, m, &o)
	if o.Trans.Max == 0 {
		o.LocalTrans = false
	}
	nc := m.NColor()
	var b *jx.BuiltFrame
	for {
		ch := jx.CodedSizes(m, f)
		for k, c := range ch {
			bd := m.BD
			if k >= nc {
				bd = m.EC[k-nc].BD
			}
			fillDepth(r, c, bd, wide)
		}
		b = jx.BuildModFrame(r, m, f, ch, o)
		ok := true
		for _, c := range b.Chans {
			for _, v := range c.D {
				if o.FixedPred < 0 && (v > 1<<27 || v < -(1<<27)) {
					ok = false
				}
			}
		}
		if ok {
			break
		}
	}
	t.Desc("%dx%d, group shift %d, %d colour channels of %+v enlarged %d times, extra %+v coded at 1/%v, %d groups, %d LF groups, %d passes, predictor %d, transforms %v", W, H, f.GroupShift, nc, m.BD, f.Up, m.EC, f.EcUp, b.Stats.Groups, b.Stats.LFGroups, b.Stats.Passes, o.FixedPred, b.Stats.Trans)
	noteExtras(t, m, f)
	if b.Stats.Groups > 1 {
		t.Count("multi_group", 1)
	}
	if b.Stats.LFGroups > 1 {
		t.Count("multi_lfgroup", 1)
	}
	img, err := decode(jx.Codestream(r, m, []*jx.BuiltFrame{b}, r.P(0.2)), nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	if len(img.Buffer) != len(b.Chans) {
		t.Failf("channels", "decoded %d channels, coded %d", len(img.Buffer), len(b.Chans))
		return
	}
	for k, c := range b.Chans {
		bd, d := m.BD, f.Up
		if k >= nc {
			bd, d = m.EC[k-nc].BD, f.EcUp[k-nc]<<uint(m.EC[k-nc].DimShift)
		}
		if s := compareChan(&img.Buffer[k], c, m, bd, d, W, H); s != "" {
			what := "colour"
			if k >= nc {
				what = "extra"
			}
			t.Failf(what, "%s channel %d (%+v): %s", what, k, bd, s)
			return
		}
		if k >= nc {
			t.Count("extra_samples", W*H)
		} else {
			t.Count("colour_samples", W*H)
		}
	}
}

func noteExtras(t *rt.T, m *jx.Meta, f *jx.FrameHdr) {
	for i, e := range m.EC {
		d := f.EcUp[i] << uint(e.DimShift)
		if e.DimShift > 0 {
			t.Count("dim_shift", 1)
		}
		if f.EcUp[i] > 1 {
			t.Count("ec_up", 1)
		}
		if e.BD.Float {
			t.Count("float", 1)
		}
		if e.BD.Bits > 24 {
			t.Count("deep", 1)
		}
		if d > 1 {
			t.Count("resampled", 1)
		}
		t.Tag("extra_type", e.Type)
		t.Tag("extra_depth", e.BD)
		t.Tag("resolution", [2]int{max(f.Up, 1), d})
	}
	t.Key("%dx%d/%+v/%v/%d", m.W, m.H, m.EC, f.EcUp, f.Up)
}

// p26Lossy puts extra channels beside lossy colour.
func p26Lossy(t *rt.T) {
	r := t.R
	mode := 0
	if t.Index%20 == 4 {
		mode = 1
	}
	c := genVarDCTWith(r, mode, func(c *vdctCase) {
		c.m.EC, c.f.EcUp = nil, nil
		randExtras(r, c.m, c.f, r.Pick(1, 2, 4), func() jx.BitDepth { return randDepth(r) })
		c.wide = depthOpts(r, c.m, &c.o.Mod)
	})
	t.Desc("lossy %dx%d, extra %+v coded at 1/%v, predictor %d", c.m.W, c.m.H, c.m.EC, c.f.EcUp, c.o.Mod.FixedPred)
	noteExtras(t, c.m, c.f)
	t.Count("lossy", 1)
	img, err := decode(c.cs, nil)
	if err != nil {
		t.Failf("error", "valid lossy frame rejected: %v", err)
		return
	}
	c.acceptPinned = true
	compareVarDCT(t, c, img)
}
