package checks

import (
	"bytes"
	"fmt"
	"math"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/bundle"
)

func init() {
	rt.Register(&rt.Check{ID: "P11", Quick: 16000, Thorough: 120000, Batch: 100,
		Rule: "random valid image headers: every size form and ratio up to the level limits, orientation, intrinsic and preview sizes, bit depths (integer and floating point), up to 20 extra channels of every type with names, colour encodings with custom white point, primaries and gamma, tone mapping, opsin matrix, upsampling weights, extensions of any bit length and ICC profiles, in a random choice of the encodings the format allows; every exported header field is compared with the coded value, and for decodable images a frame follows directly and must decode to the coded samples",
		Need: []string{"fields", "frames_after", "ext", "icc", "custom_white", "custom_prim", "gamma", "opsin", "tone", "up2", "up4", "up8", "spot", "cfa", "named", "float_depth", "ratio", "big_size", "preview", "intrinsic", "all_default", "level10_size"},
		Run:  p11})
}

func randXY(r *jx.Rng) jx.XY {
	return jx.XY{X: r.Pick(0, 127000, 312700, 345678, 640000, r.R(0, 999999)), Y: r.Pick(329000, 60000, 1, r.R(1, 999999))}
}

func randF16(r *jx.Rng) float64 {
	v := r.G() * math.Pow(2, float64(r.R(-14, 10)))
	if r.P(0.1) {
		v = 0
	} else if r.P(0.06) { // the ends of the range
		v = []float64{math.Pow(2, -24), math.Pow(2, -14), 65504, math.Pow(2, -14) - math.Pow(2, -24)}[r.N(4)]
		if r.Bool() {
			v = -v
		}
		return jx.F16Round(v)
	}
	return jx.F16Round(math.Max(-60000, math.Min(60000, v)))
}

func randBD(r *jx.Rng, float bool) jx.BitDepth {
	if float {
		e := r.R(2, 8)
		return jx.BitDepth{Float: true, Exp: e, Bits: 1 + e + r.R(2, 23)}
	}
	return jx.BitDepth{Bits: r.Pick(8, 10, 12, 16, r.R(1, 31))}
}

// randMeta makes a random valid header. frame reports that a plain frame can follow and decode.
func randMeta(t *rt.T) (m *jx.Meta, frame bool) {
	r := t.R
	m = &jx.Meta{CE: jx.SRGBEnc(), BD: jx.BitDepth{Bits: 8}, XformDef: true}
	frame = r.P(0.5)
	m.W, m.H = r.R(1, 40), r.R(1, 40)
	if r.P(0.4) {
		rs := [][2]int{{1, 1}, {12, 10}, {4, 3}, {3, 2}, {16, 9}, {5, 4}, {2, 1}}[r.N(7)]
		m.W = max(1, m.H*rs[0]/rs[1])
		t.Count("ratio", 1)
	}
	if r.P(0.2) {
		m.W, m.H = 8*r.R(1, 5), 8*r.R(1, 5)
	}
	if !frame {
		switch r.N(4) {
		case 0:
			m.W, m.H = r.R(1, 1<<18), r.R(1, 4096)
			if r.Bool() {
				m.W, m.H = min(m.H, m.W), max(m.H, m.W)
			}
			t.Count("big_size", 1)
		case 1:
			m.H = 8 * r.R(1, 32)
			m.W = 8 * r.R(1, 32)
		}
	}
	if r.P(0.08) && !frame {
		m.AllDefault = true
		t.Count("all_default", 1)
	}
	m.ExtraFields = r.P(0.5)
	if r.P(0.4) {
		m.Orient = r.R(1, 8)
	}
	if r.P(0.2) {
		m.ExtraFields = true
		m.Intrinsic = [2]int{r.R(1, 5000), r.R(1, 5000)}
		t.Count("intrinsic", 1)
	}
	if !frame && r.P(0.2) {
		m.Preview = true
		m.PreviewSz = [2]int{r.R(1, 4096), r.R(1, 4096)}
		if r.Bool() {
			m.PreviewSz = [2]int{8 * r.Pick(16, 32, r.R(1, 33), r.R(1, 512)), 8 * r.Pick(16, 32, r.R(1, 33), r.R(1, 512))}
		}
		t.Count("preview", 1)
	}
	if m.AllDefault {
		m.XYB = true
		m.ExtraFields, m.Preview, m.Orient, m.Intrinsic, m.PreviewSz = false, false, 0, [2]int{}, [2]int{}
	} else {
		m.BD = randBD(r, !frame && r.P(0.3))
		if frame {
			m.BD.Bits = min(m.BD.Bits, 16)
		}
		if m.BD.Float {
			t.Count("float_depth", 1)
		}
		m.Mod16 = r.Bool()
		for k := r.Pick(0, 0, 1, 2, 3, 6, 20); k > 0; k-- {
			e := jx.ExtraCh{AllDefault: r.P(0.2), BD: randBD(r, !frame && r.P(0.2))}
			if e.AllDefault {
				e.BD = jx.BitDepth{Bits: 8}
				m.EC = append(m.EC, e)
				continue
			}
			if frame {
				e.BD.Bits = min(e.BD.Bits, 16)
			}
			e.Type = r.Pick(jx.ECAlpha, jx.ECDepth, jx.ECSpot, jx.ECSel, jx.ECBlack, jx.ECCFA, jx.ECTherm, jx.ECOpt)
			if frame && e.Type == jx.ECSpot { // spot colours are a rendering matter
				e.Type = jx.ECTherm
			}
			if !frame {
				e.DimShift = r.Pick(0, 0, 3, 4, 1, 2, r.R(1, 8))
				e.DimShift = min(e.DimShift, 8)
			}
			if r.Bool() {
				n := r.Pick(1, 15, 16, 17, 47, 48, 49, 100, r.R(1, 1071))
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(r.R(32, 126))
				}
				e.Name = string(b)
				t.Count("named", 1)
			}
			switch e.Type {
			case jx.ECAlpha:
				e.Premult = r.Bool()
			case jx.ECSpot:
				for i := range e.Spot {
					e.Spot[i] = randF16(r)
				}
				t.Count("spot", 1)
			case jx.ECCFA:
				e.CFA = r.Pick(1, 0, 2, 3, 18, 19, 274, r.R(0, 274))
				t.Count("cfa", 1)
			}
			m.EC = append(m.EC, e)
		}
		m.XYB = !frame && r.P(0.4)
		m.CE = jx.ColorEnc{Space: r.Pick(0, 0, 0, 1, 1, 2, 3), White: r.Pick(1, 2, 10, 11), Prim: r.Pick(1, 2, 9, 11), TF: r.Pick(1, 2, 8, 13, 16, 17, 18), Intent: r.N(4), AllDefault: r.P(0.1)}
		if r.P(0.25) {
			m.CE.ICC = true
			m.ICC = jx.GenICC(r)
		}
		if m.CE.AllDefault {
			m.CE = jx.SRGBEnc()
			m.CE.AllDefault = true
			m.ICC = nil
		}
		if r.P(0.3) && !m.CE.AllDefault {
			m.CE.HaveGamma, m.CE.Gamma = true, r.R(1, 10000000)
		}
		m.CE.WhiteXY = randXY(r)
		for i := range m.CE.PrimXY {
			m.CE.PrimXY[i] = randXY(r)
		}
		if r.P(0.4) {
			m.TM = jx.ToneMap{Set: true, Intensity: min(math.Abs(randF16(r))+1, 65504), MinNits: 0, RelativeToMax: r.Bool(), LinearBelow: 0}
			m.TM.Intensity = jx.F16Round(m.TM.Intensity)
			m.TM.MinNits = jx.F16Round(m.TM.Intensity * r.F() * 0.9)
			m.TM.LinearBelow = jx.F16Round(r.F())
			if r.P(0.1) {
				m.TM.LinearBelow = 1
			}
			if r.P(0.1) {
				m.TM.MinNits = m.TM.Intensity
			}
			if !m.TM.RelativeToMax && r.Bool() {
				m.TM.LinearBelow = math.Abs(randF16(r))
			}
		}
		if r.P(0.4) {
			for i := r.R(1, 4); i > 0; i-- {
				m.Ext |= 1 << uint(r.N(64))
			}
			for i := 0; i < 64; i++ {
				if m.Ext>>uint(i)&1 == 1 {
					m.ExtLens = append(m.ExtLens, r.Pick(0, 1, 5, 7, 8, 9, 16, 64, r.R(0, 300)))
				}
			}
		}
	}
	if r.P(0.5) {
		m.XformDef = false
		if m.XYB && r.Bool() {
			m.Opsin.Set = true
			for _, p := range [][]float64{m.Opsin.M[:], m.Opsin.Bias[:], m.Opsin.QBias[:]} {
				for i := range p {
					p[i] = randF16(r)
				}
			}
		}
		for i, p := range []*[]float64{&m.Up2, &m.Up4, &m.Up8} {
			if r.P(0.4) {
				for k := [3]int{15, 55, 210}[i]; k > 0; k-- {
					*p = append(*p, randF16(r))
				}
			}
		}
	}
	return
}

func f32s(v []float64) (o []float32) {
	for _, x := range v {
		o = append(o, float32(x))
	}
	return
}

func sameF32(a []float32, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != float32(b[i]) {
			return false
		}
	}
	return true
}

func near(a float32, b float64) bool { return math.Abs(float64(a)-b) <= 2e-7*math.Max(1, math.Abs(b)) }

// headerDiff compares a parsed header with what was coded.
func headerDiff(t *rt.T, h *bundle.ImageHeader, m *jx.Meta) string {
	bad := ""
	eq := func(name string, ok bool, got, want any) {
		t.Count("fields", 1)
		if !ok && bad == "" {
			bad = fmt.Sprintf("%s is %v, coded %v", name, got, want)
		}
	}
	eqI := func(name string, got, want int64) { eq(name, got == want, got, want) }
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	eqI("width", int64(h.Size.Width), int64(m.W))
	eqI("height", int64(h.Size.Height), int64(m.H))
	o := max(m.Orient, 1)
	eqI("orientation", int64(h.Orientation), int64(o))
	ow, oh := m.W, m.H
	if o > 4 {
		ow, oh = oh, ow
	}
	eqI("oriented width", int64(h.OrientedWidth), int64(ow))
	eqI("oriented height", int64(h.OrientedHeight), int64(oh))
	if m.Preview {
		if h.PreviewSize == nil {
			return "preview size is missing"
		}
		eq("preview size", int(h.PreviewSize.Width) == m.PreviewSz[0] && int(h.PreviewSize.Height) == m.PreviewSz[1], *h.PreviewSize, m.PreviewSz)
	} else {
		eq("preview", h.PreviewSize == nil, h.PreviewSize, nil)
	}
	eq("animation", h.AnimationHeader == nil, h.AnimationHeader, nil)
	bd := func(name string, g bundle.BitDepthHeader, w jx.BitDepth) {
		eqI(name+" bits", int64(g.BitsPerSample), int64(w.Bits))
		eqI(name+" exponent bits", int64(g.ExpBits), int64(w.Exp))
		eqI(name+" float", b2i(g.UsesFloatSamples), b2i(w.Float))
	}
	bd("image", *h.BitDepth, m.BD)
	if !m.AllDefault {
		eqI("modular 16 bit", b2i(h.Modular16BitBuffers), b2i(m.Mod16))
	} else {
		eqI("modular 16 bit", b2i(h.Modular16BitBuffers), 1)
	}
	if len(h.ExtraChannelInfo) != len(m.EC) {
		return fmt.Sprintf("%d extra channels, coded %d", len(h.ExtraChannelInfo), len(m.EC))
	}
	var alphas []int32
	for i, e := range m.EC {
		g := h.ExtraChannelInfo[i]
		n := fmt.Sprintf("extra channel %d ", i)
		if e.Type == jx.ECAlpha {
			alphas = append(alphas, int32(i))
		}
		eqI(n+"type", int64(g.EcType), int64(e.Type))
		eq(n+"name", g.Name == e.Name, g.Name, e.Name)
		eqI(n+"shift", int64(g.DimShift), int64(e.DimShift))
		bd(n, g.BitDepth, e.BD)
		eqI(n+"associated", b2i(g.AlphaAssociated), b2i(e.Premult))
		if e.Type == jx.ECSpot {
			eq(n+"spot colour", sameF32([]float32{g.Red, g.Green, g.Blue, g.Solidity}, e.Spot[:]), g, e.Spot)
		}
		if e.Type == jx.ECCFA {
			eqI(n+"cfa", int64(g.CfaIndex), int64(e.CFA))
		}
	}
	eq("alpha indices", fmt.Sprint(alphas) == fmt.Sprint(h.AlphaIndices), h.AlphaIndices, alphas)
	eq("has alpha", h.HasAlpha() == (len(alphas) > 0), h.HasAlpha(), len(alphas))
	eqI("colour channels", int64(h.GetColourChannelCount()), int64(m.NColor()))
	eqI("all channels", int64(h.GetTotalChannelCount()), int64(m.NColor()+len(m.EC)))
	eqI("xyb", b2i(h.XybEncoded), b2i(m.XYB))
	ce, g := m.CE, h.ColourEncoding
	eqI("profile flag", b2i(g.UseIccProfile), b2i(ce.ICC))
	eqI("colour space", int64(g.ColourEncoding), int64(ce.Space))
	wp, pr, tf, in := ce.White, ce.Prim, 1<<24+ce.TF, ce.Intent
	if ce.HaveGamma {
		tf = ce.Gamma
	}
	if ce.Space == 2 || ce.ICC {
		wp = 1
	}
	if ce.Space == 2 || ce.Space == 1 || ce.ICC {
		pr = 1
	}
	if ce.ICC {
		tf, in = 1<<24+13, 1
	}
	eqI("white point", int64(g.WhitePoint), int64(wp))
	eqI("primaries", int64(g.Primaries), int64(pr))
	if ce.Space != 2 || ce.ICC {
		eqI("transfer function", int64(g.Tf), int64(tf))
	}
	eqI("rendering intent", int64(g.RenderingIntent), int64(in))
	e := ce
	e.White, e.Prim = wp, pr
	w := whiteOf(e)
	eq("white point", g.White != nil && near(g.White.X, w[0]) && near(g.White.Y, w[1]), g.White, w)
	p := primOf(e)
	eq("primaries", g.Prim != nil && near(g.Prim.Red.X, p[0][0]) && near(g.Prim.Red.Y, p[0][1]) && near(g.Prim.Green.X, p[1][0]) && near(g.Prim.Green.Y, p[1][1]) && near(g.Prim.Blue.X, p[2][0]) && near(g.Prim.Blue.Y, p[2][1]), g.Prim, p)
	tm := jx.ToneMap{Intensity: 255}
	if m.TM.Set {
		tm = m.TM
		t.Count("tone", 1)
	}
	eq("intensity target", h.ToneMapping.IntensityTarget == float32(tm.Intensity), h.ToneMapping, tm)
	eq("min nits", h.ToneMapping.MinNits == float32(tm.MinNits), h.ToneMapping, tm)
	eq("relative to max display", h.ToneMapping.RelativeToMaxDisplay == tm.RelativeToMax, h.ToneMapping, tm)
	eq("linear below", h.ToneMapping.LinearBelow == float32(tm.LinearBelow), h.ToneMapping, tm)
	eq("extension set", h.Extensions.ExtensionsKey == m.Ext, h.Extensions.ExtensionsKey, m.Ext)
	k := 0
	for i := 0; i < 64; i++ {
		n := 0
		if m.Ext>>uint(i)&1 == 1 {
			n = m.ExtLens[k]
			k++
			t.Count("ext", 1)
		}
		want := make([]byte, (n+7)/8)
		for j := 0; j < n; j++ {
			want[j/8] |= byte(j&1) << uint(j%8)
		}
		eq(fmt.Sprintf("extension %d of %d bits", i, n), bytes.Equal(h.Extensions.Payloads[i], want), h.Extensions.Payloads[i], want)
	}
	op := jx.DefaultOpsin()
	if m.Opsin.Set {
		op = m.Opsin
		t.Count("opsin", 1)
	}
	q := h.OpsinInverseMatrix
	var mm []float32
	for _, row := range q.Matrix {
		mm = append(mm, row...)
	}
	eq("opsin matrix", sameF32(mm, op.M[:]), mm, op.M)
	eq("opsin bias", sameF32(q.OpsinBias, op.Bias[:]), q.OpsinBias, op.Bias)
	eq("quantiser bias", sameF32(append(append([]float32{}, q.QuantBias...), q.QuantBiasNumerator), op.QBias[:]), q, op.QBias)
	for i, u := range [][]float64{m.Up2, m.Up4, m.Up8} {
		got := [][]float32{h.Up2Weights, h.Up4Weights, h.Up8Weights}[i]
		want := [][]float64{jx.DefaultUp2, jx.DefaultUp4, jx.DefaultUp8}[i]
		if u != nil {
			want = u
			t.Count([]string{"up2", "up4", "up8"}[i], 1)
		}
		eq(fmt.Sprintf("upsampling weights %d", 2<<uint(i)), sameF32(got, want), got, want)
	}
	if ce.ICC {
		icc, err := h.GetDecodedICC()
		eq("profile", err == nil && bytes.Equal(icc, m.ICC), fmt.Sprintf("%d bytes (%v)", len(icc), err), len(m.ICC))
		t.Count("icc", 1)
	}
	if ce.White == 2 && wp == 2 {
		t.Count("custom_white", 1)
	}
	if pr == 2 {
		t.Count("custom_prim", 1)
	}
	if ce.HaveGamma && !ce.ICC && ce.Space != 2 {
		t.Count("gamma", 1)
	}
	return bad
}

func p11(t *rt.T) {
	r := t.R
	m, frame := randMeta(t)
	level10 := !frame && r.P(0.15)
	if level10 {
		m.W, m.H = r.R(1, 1<<28), r.R(1, 4096)
		if r.Bool() {
			m.W, m.H = m.H, m.W
		}
		t.Count("level10_size", 1)
	}
	t.Desc("%+v", *m)
	t.Key("%+v", *m)
	var cs []byte
	var bf *jx.BuiltFrame
	if frame {
		f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: 1, Pass: jx.PassSpec{Num: 1}}
		for range m.EC {
			f.EcUp = append(f.EcUp, 1)
		}
		ch := jx.CodedSizes(m, f)
		for k, x := range ch {
			b := m.BD.Bits
			if k >= m.NColor() {
				b = m.EC[k-m.NColor()].BD.Bits
			}
			jx.FillChan(r, x, 0, 1<<uint(b)-1)
		}
		bf = jx.BuildModFrame(r, m, f, ch, jx.ModOpts{FixedPred: r.N(6)})
		cs = jx.Codestream(r, m, []*jx.BuiltFrame{bf}, false)
	} else {
		w := &jx.BitWriter{}
		m.Write(w, r)
		cs = w.Bytes()
	}
	in := cs
	if level10 {
		in = jx.Container([]jx.Box{{Type: "jxll", Data: []byte{10}}, {Type: "jxlc", Data: cs}})
	}
	h, err := headerOf(in, nil)
	if err != nil {
		t.Failf("error", "valid header rejected: %v", err)
		return
	}
	if d := headerDiff(t, h, m); d != "" {
		t.Failf("field", "%s", d)
		return
	}
	if !frame {
		return
	}
	img, err := decode(in, nil)
	if err != nil {
		t.Failf("frame-error", "header read, but the image behind it is rejected: %v", err)
		return
	}
	var want []*jx.Chan
	for _, ch := range bf.Chans {
		want = append(want, orient(ch, max(m.Orient, 1)))
	}
	compareExact(t, img, want, chanBits(m))
	t.Count("frames_after", 1)
}
