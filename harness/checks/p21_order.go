package checks

import (
	"jxverif/jx"
	"jxverif/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "P21", Quick: 1500, Thorough: 12000, Batch: 25,
		Rule: "images of several groups and passes whose sections are stored in random order, decoded through normal and fragmenting readers and compared sample by sample with what was coded, and the same samples coded with different pass layouts; non-trivial when the frame has more than one section and the order is not the natural one",
		Need: []string{"permuted", "over_64_sections", "multi_pass", "multi_lfgroup", "permuted_vardct"},
		Run:  p21})
}

func p21(t *rt.T) {
	r := t.R
	if t.Index%6 == 5 {
		v := genVarDCT(r, 1)
		v.acceptPinned = true
		v.note(t)
		v.cs = jx.Codestream(r, v.m, v.frames, true)
		t.Count("permuted", 1)
		t.Count("permuted_vardct", 1)
		img, err := decode(v.cs, nil)
		if err != nil {
			t.Failf("error", "lossy image with permuted sections rejected: %v", err)
			return
		}
		compareVarDCT(t, v, img)
		return
	}
	c := genMod(r, true)
	for c.b.Stats.Groups*c.b.Stats.Passes == 1 {
		c = genMod(r, true)
	}
	long := t.Index%20 == 4 // hundreds of sections
	if t.Index%20 == 3 || long {
		c.m.W, c.m.H, c.f.GroupShift = r.R(1025, 1300), r.R(1, 40), 0
		if long {
			c.m.W, c.m.H = r.R(8000, 20000), r.R(1, 3)
		}
		if r.Bool() {
			c.m.W, c.m.H = c.m.H, c.m.W
		}
		c.f.EcUp, c.m.EC, c.m.CE = nil, nil, jx.GrayEnc()
		c.ch = jx.CodedSizes(c.m, c.f)
		for _, x := range c.ch {
			jx.FillChan(r, x, 0, 1<<uint(c.m.BD.Bits)-1)
		}
		c.b = jx.BuildModFrame(r, c.m, c.f, c.ch, c.o)
	}
	noteMod(t, c)
	if len(c.b.Sections) > 66 {
		t.Count("over_64_sections", 1)
	}
	for i := 0; i < 2; i++ {
		cs := jx.Codestream(r, c.m, []*jx.BuiltFrame{c.b}, true)
		t.Count("permuted", 1)
		t.Max("sections", len(c.b.Sections))
		img, err := decode(cs, nil)
		if err != nil {
			t.Failf("error", "image with permuted sections rejected: %v", err)
			return
		}
		if !compareExact(t, img, c.b.Chans, chanBits(c.m)) {
			return
		}
	}
	// other pass layouts of the same samples, as long as the transforms cannot lose anything
	c.f.Pass = jx.RandPasses(r)
	if c.f.Pass.Num > 1 {
		t.Count("multi_pass", 1)
	}
	b := jx.BuildModFrame(r, c.m, c.f, c.ch, c.o)
	cs := jx.Codestream(r, c.m, []*jx.BuiltFrame{b}, r.Bool())
	img, err := decode(cs, nil)
	if err != nil {
		t.Failf("error", "image with %d passes rejected: %v", c.f.Pass.Num, err)
		return
	}
	compareExact(t, img, b.Chans, chanBits(c.m))
}
