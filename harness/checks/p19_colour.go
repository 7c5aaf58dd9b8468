package checks

import (
	"math"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/core"
)

func init() {
	rt.Register(&rt.Check{ID: "P19", Quick: 4000, Thorough: 20000, Batch: 30,
		Rule: "images with colour transforms written by an independent encoder: lossless and lossy XYB frames with default and custom opsin matrices, biases and LF multipliers, intensity targets, declared primaries and white points (standard and custom), grey; lossless YCbCr frames with every chroma subsampling; plus the transfer curves through the exported API; every sample is compared with a double-precision evaluation of the defining equations; non-trivial when samples were compared",
		Need: []string{"xyb_lossless", "xyb_lossy", "ycbcr", "subsampled", "grey", "custom_opsin", "custom_lf_mult", "intensity", "primaries", "white_point", "custom_primaries", "curves", "samples"},
		Run:  p19})
}

// randGamut declares primaries and a white point.
func randGamut(r *jx.Rng, e *jx.ColorEnc) {
	jit := func(v [2]float64, a float64) jx.XY {
		return jx.XY{X: int(math.Round((v[0] + a*(2*r.F()-1)) * 1e6)), Y: int(math.Round((v[1] + a*(2*r.F()-1)) * 1e6))}
	}
	if e.Space == 0 {
		e.Prim = r.Pick(1, 9, 11, 2)
		if e.Prim == 2 {
			base := [][3][2]float64{primSRGB, primP3, prim2100}[r.N(3)]
			for i := range base {
				e.PrimXY[i] = jit(base[i], 0.03)
			}
		}
	}
	e.White = r.Pick(1, 1, 10, 11, 2)
	if e.White == 2 {
		e.WhiteXY = jit([][2]float64{whiteD65, whiteE, whiteDCI}[r.N(3)], 0.02)
	}
}

func randOpsin(r *jx.Rng, m *jx.Meta) {
	m.XformDef = false
	m.Opsin = jx.DefaultOpsin()
	m.Opsin.Set = true
	for i := range m.Opsin.M {
		m.Opsin.M[i] = jx.F16Round(m.Opsin.M[i] * (0.9 + 0.2*r.F()))
	}
	for i := range m.Opsin.Bias {
		m.Opsin.Bias[i] = jx.F16Round(m.Opsin.Bias[i] * (2.5*r.F() - 0.5))
	}
	for i := range m.Opsin.QBias {
		m.Opsin.QBias[i] = jx.F16Round(m.Opsin.QBias[i] * (0.7 + 0.5*r.F()))
	}
}

// randXYBHeader declares an XYB image: colour space, intensity target, opsin parameters.
func randXYBHeader(r *jx.Rng, m *jx.Meta) {
	m.XYB = true
	if r.P(0.15) {
		m.CE = jx.GrayEnc()
	}
	if r.P(0.6) {
		randGamut(r, &m.CE)
	}
	m.CE.TF = r.Pick(13, 13, 1, 8, 16, 17, 18)
	if r.P(0.15) {
		m.CE.HaveGamma, m.CE.Gamma = true, r.R(3000000, 10000000)
	}
	m.CE.Intent = r.N(4)
	if r.P(0.5) {
		in := jx.F16Round(math.Exp2(3 + 11*r.F()))
		if r.P(0.4) {
			in = []float64{255, 100, 250, 1000, 4000, 10000, 1}[r.N(7)]
		}
		m.TM = jx.ToneMap{Set: true, Intensity: in, MinNits: jx.F16Round(in * r.F() * 0.5), RelativeToMax: r.Bool()}
		m.TM.LinearBelow = jx.F16Round(r.F())
	}
	if m.CE.Space == 0 && r.P(0.4) {
		randOpsin(r, m)
	} else {
		m.XformDef = r.Bool()
	}
}

func (c *vdctCase) noteColour(t *rt.T) {
	yes := func(n string, v bool) {
		if v {
			t.Count(n, 1)
		}
	}
	e := c.m.CE
	yes("grey", c.m.NColor() == 1)
	yes("custom_opsin", !c.m.XformDef && c.m.Opsin.Set)
	yes("intensity", c.m.TM.Set && c.m.TM.Intensity != 255)
	yes("primaries", e.Space == 0 && e.Prim != 1)
	yes("custom_primaries", e.Prim == 2)
	yes("white_point", e.White != 1)
	yes("custom_white", e.White == 2)
	t.Tag("gamut", e.Prim*100+e.White)
}

func p19(t *rt.T) {
	switch {
	case t.Index%30 == 7:
		p19Curves(t)
	case t.Index%6 == 1:
		p19Lossy(t)
	case t.Index%3 == 0:
		p19YCbCr(t)
	default:
		p19Lossless(t)
	}
}

// lossless makes the case of a modular frame.
func p19Frame(t *rt.T, m *jx.Meta) (c *vdctCase) {
	r := t.R
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: 1, GroupShift: r.N(4), Pass: jx.PassSpec{Num: 1}}
	if r.P(0.25) {
		f.Pass = jx.RandPasses(r)
	}
	if r.P(0.15) {
		f.Up = r.Pick(2, 4, 8)
	}
	for k := r.Pick(0, 0, 1, 2); k > 0; k-- {
		m.EC = append(m.EC, jx.ExtraCh{Type: r.Pick(jx.ECAlpha, jx.ECDepth), BD: jx.BitDepth{Bits: r.Pick(8, 8, 1, 12, 16)}})
		f.EcUp = append(f.EcUp, f.Up)
	}
	return &vdctCase{m: m, f: f}
}

// build codes the channels and fills in the planes they stand for.
func (c *vdctCase) buildLossless(r *jx.Rng, chans []*jx.Chan, o jx.ModOpts, value func(b []*jx.Chan, k int, x, y int) float64) {
	bf := jx.BuildModFrame(r, c.m, c.f, chans, o)
	c.b = &jx.VFrame{BuiltFrame: *bf}
	if c.f.YCbCr {
		c.b.SX, c.b.SY = jx.JpegShift(c.f.JpegUp)
	}
	b := c.b
	for k := 0; k < 3; k++ {
		w, h := bf.Chans[k].W, bf.Chans[k].H
		b.P[k], b.Mag[k] = mat(h, w), mat(h/8+1, w/8+1)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				v := value(bf.Chans, k, x, y)
				b.P[k][y][x] = v
				b.Mag[k][y/8][x/8] = math.Max(b.Mag[k][y/8][x/8], math.Abs(v))
			}
		}
	}
	b.EC = bf.Chans[3:]
	c.frames = []*jx.BuiltFrame{bf}
	c.cs = jx.Codestream(r, c.m, c.frames, r.P(0.2))
}

func p19Size(t *rt.T, m *jx.Meta, f *jx.FrameHdr) {
	r := t.R
	m.W, m.H = r.R(1, 60), r.R(1, 60)
	if r.P(0.15) {
		m.W, m.H = r.R(120, 400), r.R(4, 60)
		f.GroupShift = 0
		if r.Bool() {
			m.W, m.H = m.H, m.W
		}
	}
}

func p19Lossless(t *rt.T) {
	r := t.R
	m := &jx.Meta{W: 1, H: 1, BD: jx.BitDepth{Bits: r.Pick(8, 8, 8, 10, 16)}, CE: jx.SRGBEnc(), XformDef: true}
	if r.P(0.1) {
		m.BD = jx.BitDepth{Float: true, Bits: 32, Exp: 8}
		if r.Bool() {
			m.BD.Bits, m.BD.Exp = 16, 5
		}
	}
	randXYBHeader(r, m)
	c := p19Frame(t, m)
	p19Size(t, m, c.f)
	o := jx.ModOpts{FixedPred: r.N(6), DefWP: true}
	if r.P(0.3) && m.CE.Space == 0 { // such trees may change the samples
		o.FixedPred = -1
	}
	if r.P(0.3) && m.CE.Space == 0 {
		o.Trans = jx.TransformOpts{Max: 2, Kinds: []int{jx.TrRCT, jx.TrSqueeze, jx.TrPalette}}
		o.LocalTrans = r.Bool()
	}
	dq := [3]float64{1.0 / 4096, 1.0 / 512, 1.0 / 256}
	if r.P(0.5) {
		for i := range dq {
			dq[i] = jx.F16Round(dq[i]*128*math.Exp2(4*r.F()-2)) / 128
		}
		o.LfDq = &dq
		t.Count("custom_lf_mult", 1)
	}
	ch := jx.CodedSizes(m, c.f)
	lim := func(v float64, q float64) int64 { return int64(math.Max(1, v/q)) }
	for i, x := range ch {
		switch {
		case i == 0:
			jx.FillChan(r, x, -lim(0.02, dq[1]), lim(1.1, dq[1]))
		case i == 1:
			if m.CE.Space == 0 {
				jx.FillChan(r, x, -lim(0.04, dq[0]), lim(0.04, dq[0]))
			}
		case i == 2:
			if m.CE.Space == 0 {
				jx.FillChan(r, x, -lim(0.4, dq[2]), lim(0.4, dq[2]))
			}
		default:
			fillDepth(r, x, m.EC[i-3].BD, false)
		}
	}
	if m.CE.Space == 1 { // X = 0 and B = Y make a neutral image
		dq[2] = dq[1]
		o.LfDq = &dq
	}
	c.buildLossless(r, ch, o, func(b []*jx.Chan, k, x, y int) float64 {
		switch k {
		case 0:
			return dq[0] * float64(b[1].At(x, y))
		case 1:
			return dq[1] * float64(b[0].At(x, y))
		}
		return dq[2] * (float64(b[2].At(x, y)) + float64(b[0].At(x, y)))
	})
	t.Count("xyb_lossless", 1)
	t.Desc("lossless XYB %dx%d, %+v, colour %+v, tone mapping %+v, own opsin %v, LF multipliers %v, enlarged %d times, passes %+v, %d groups, %d extra, entropy %+v", m.W, m.H, m.BD, m.CE, m.TM, !m.XformDef && m.Opsin.Set, dq, c.f.Up, c.f.Pass, c.b.Lay.NG, len(m.EC), c.b.Stats.Ent)
	t.Key("x%dx%d/%+v/%v/%v", m.W, m.H, m.CE, m.TM.Intensity, dq)
	c.judgeColour(t)
}

func p19Lossy(t *rt.T) {
	mode := 0
	if t.Index%60 == 1 {
		mode = 1
	}
	c := genVarDCTWith(t.R, mode, func(c *vdctCase) {
		r := t.R
		c.m.XformDef, c.m.Opsin = true, jx.Opsin{}
		c.f.YCbCr, c.f.JpegUp = false, [3]int{}
		c.f.Xqm, c.f.Bqm = r.N(8), r.N(8)
		c.m.CE = jx.SRGBEnc()
		for {
			randXYBHeader(r, c.m)
			if c.m.CE.Space == 0 { // grey would need neutral coefficients
				break
			}
			c.m.CE = jx.SRGBEnc()
		}
		c.f.Flags |= 128
		c.o.Amp = 0
	})
	c.note(t)
	t.Count("xyb_lossy", 1)
	t.Desc("lossy XYB; colour %+v, tone mapping %+v", c.m.CE, c.m.TM)
	c.judgeColour(t)
}

func p19YCbCr(t *rt.T) {
	r := t.R
	m := &jx.Meta{BD: jx.BitDepth{Bits: r.Pick(8, 8, 8, 10, 12, 16)}, CE: jx.SRGBEnc(), XformDef: true}
	if r.P(0.2) {
		m.CE = jx.GrayEnc()
	}
	if r.P(0.3) {
		randGamut(r, &m.CE)
		m.CE.TF = r.Pick(13, 1, 8)
	}
	c := p19Frame(t, m)
	f := c.f
	f.YCbCr = true
	if r.P(0.6) {
		f.JpegUp = [3]int{r.N(4), r.N(4), r.N(4)}
		if r.P(0.6) {
			f.JpegUp = [][3]int{{0, 1, 0}, {0, 2, 0}, {0, 3, 0}}[r.N(3)]
		}
	}
	p19Size(t, m, f)
	o := jx.ModOpts{FixedPred: r.N(6), DefWP: true}
	if r.P(0.3) && m.CE.Space == 0 { // such trees may change the samples
		o.FixedPred = -1
	}
	if r.P(0.3) && m.CE.Space == 0 {
		o.Trans = jx.TransformOpts{Max: 2, Kinds: []int{jx.TrRCT, jx.TrSqueeze, jx.TrPalette}}
		o.LocalTrans = r.Bool()
	}
	ch := jx.CodedSizes(m, f)
	top := int64(1)<<uint(m.BD.Bits) - 1
	for i, x := range ch {
		switch {
		case i == 1:
			jx.FillChan(r, x, -top/2, top-top/2)
		case i < 3:
			if m.CE.Space == 0 {
				jx.FillChan(r, x, -top/2, top/2)
			}
		default:
			fillDepth(r, x, m.EC[i-3].BD, false)
		}
	}
	c.buildLossless(r, ch, o, func(b []*jx.Chan, k, x, y int) float64 { return float64(b[k].At(x, y)) / float64(top) })
	t.Count("ycbcr", 1)
	for k := range c.b.SX {
		if c.b.SX[k]+c.b.SY[k] > 0 {
			t.Count("subsampled", 1)
			break
		}
	}
	t.Desc("lossless YCbCr %dx%d, %d bits, sampling %v, colour %+v, enlarged %d times, passes %+v, %d groups, %d extra, entropy %+v", m.W, m.H, m.BD.Bits, f.JpegUp, m.CE, f.Up, f.Pass, c.b.Lay.NG, len(m.EC), c.b.Stats.Ent)
	t.Key("y%dx%d/%v/%d", m.W, m.H, f.JpegUp, m.BD.Bits)
	c.judgeColour(t)
}

// judgeColour decodes and compares every sample.
func (c *vdctCase) judgeColour(t *rt.T) {
	c.noteColour(t)
	img, err := decode(c.cs, nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	if c.m.NColor() == 1 { // compare as if all three channels had come out
		if img == nil || len(img.Buffer) != 1+len(c.m.EC) {
			t.Failf("channels", "decoded %d channels, coded %d", len(img.Buffer), 1+len(c.m.EC))
			return
		}
		g := &core.JXLImage{}
		g.Buffer = append(append(g.Buffer, img.Buffer[0], img.Buffer[0]), img.Buffer...)
		img = g
	}
	for k := 0; k < 3 && c.f.Modular; k++ { // such samples leave what 32 bits hold on the way
		for _, v := range c.b.Chans[k].D {
			if v > 1<<20 || v < -1<<20 {
				t.Count("huge_samples", 1)
				return
			}
		}
	}
	c.acceptPinned = true
	compareVarDCT(t, c, img)
}

// p19Curves checks the transfer curves of the exported API against their definitions.
func p19Curves(t *rt.T) {
	r := t.R
	type curve struct {
		name string
		id   int32
		lin  func(v float64) float64
	}
	const m1, m2 = 2610.0 / 16384, 2523.0 / 32
	const c1, c2, c3 = 3424.0 / 4096, 2413.0 / 128, 2392.0 / 128
	cs := []curve{
		{"linear", colour.TF_LINEAR, func(v float64) float64 { return v }},
		{"sRGB", colour.TF_SRGB, func(v float64) float64 { return refToLinear(jx.ColorEnc{TF: 13}, v) }},
		{"BT.709", colour.TF_BT709, func(v float64) float64 { return refToLinear(jx.ColorEnc{TF: 1}, v) }},
		{"DCI", colour.TF_DCI, func(v float64) float64 { return refToLinear(jx.ColorEnc{TF: 17}, v) }},
		{"PQ", colour.TF_PQ, func(v float64) float64 {
			p := math.Pow(v, 1/m2)
			return math.Pow(math.Max(p-c1, 0)/(c2-c3*p), 1/m1)
		}},
	}
	g := r.R(1000000, 10000000)
	cs = append(cs, curve{"gamma", int32(g), func(v float64) float64 { return refToLinear(jx.ColorEnc{HaveGamma: true, Gamma: g}, v) }})
	for _, c := range cs {
		tf, err := colour.GetTransferFunction(c.id)
		if err != nil {
			t.Failf("curve", "no %s curve: %v", c.name, err)
			return
		}
		for i := 0; i < 200; i++ {
			v := r.F()
			switch r.N(6) {
			case 0:
				v = math.Exp2(-40 * r.F())
			case 1:
				v = float64(r.N(256)) / 255
			case 2:
				v = float64(r.Pick(0, 1))
			}
			want := c.lin(v)
			got := tf.ToLinear(v)
			if !(math.Abs(got-want) <= 1e-6*math.Abs(want)+1e-9) {
				t.Failf("curve-"+c.name, "%s curve (gamma %d): %.9g is %.9g in linear light, specified %.9g", c.name, g, v, got, want)
				return
			}
			// and back: want is linear light whose code value is v
			if c.name == "PQ" && v < 1e-5 {
				continue
			}
			back := tf.FromLinear(want)
			if !(math.Abs(back-v) <= 1e-6) {
				t.Failf("curve-"+c.name, "%s curve (gamma %d): linear light %.9g coded as %.9g, specified %.9g", c.name, g, want, back, v)
				return
			}
			t.Count("curve_points", 1)
		}
	}
	t.Count("curves", len(cs))
	t.Key("curves/%d", g)
	t.Desc("transfer curves, gamma %d", g)
}
