package checks

import (
	"math"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
	image2 "github.com/kpfaulkner/jxl-go/image"
)

// outCase is a small image for the output and header checks.
type outCase struct {
	m     *jx.Meta
	f     *jx.FrameHdr
	b     *jx.BuiltFrame
	cs    []byte
	hdr   bool // output colour space is not sRGB
	pq    bool // and is that of the PQ curve the image is coded with
	alpha int  // buffer index of the first alpha channel, -1 none
	kind  string
}

// genOut makes a random lossless image covering the depths, channels and colour encodings output code distinguishes.
func genOut(r *jx.Rng) *outCase {
	W, H := r.R(1, 24), r.R(1, 24)
	if r.P(0.1) {
		W, H = r.R(100, 300), r.R(1, 5)
	}
	if r.P(0.012) { // more samples than one block of an output buffer holds
		W, H = r.R(130, 260), r.R(130, 260)
	}
	bits := r.Pick(8, 8, 8, 16, 16, 1, 2, 4, 7, 9, 10, 12, 14)
	m := &jx.Meta{W: W, H: H, BD: jx.BitDepth{Bits: bits}, CE: jx.SRGBEnc(), XformDef: true}
	deep := r.P(0.12) // more bits than the output has, or floating point
	if deep {
		m.BD = outDepth(r)
		bits = m.BD.Bits
	}
	if r.P(0.35) {
		m.CE = jx.GrayEnc()
	}
	c := &outCase{m: m, alpha: -1}
	for k := r.Pick(0, 0, 1, 1, 1, 2, 3); k > 0; k-- {
		e := jx.ExtraCh{Type: r.Pick(jx.ECAlpha, jx.ECAlpha, jx.ECDepth, jx.ECTherm, jx.ECSel, jx.ECOpt), BD: jx.BitDepth{Bits: bits}}
		if r.P(0.4) {
			e.BD.Bits = r.Pick(8, 16, 1, 4, 10)
		}
		if deep {
			e.BD = outDepth(r)
		}
		if e.Type == jx.ECAlpha {
			e.Premult = r.P(0.3)
			if c.alpha < 0 {
				c.alpha = m.NColor() + len(m.EC)
			}
		}
		m.EC = append(m.EC, e)
	}
	c.kind = "srgb"
	switch {
	case r.P(0.2):
		m.XYB = true
		c.kind = "xyb"
	case r.P(0.15):
		m.CE.ICC = true
		m.ICC = jx.GenICC(r)
		c.kind = "icc"
	case r.P(0.25):
		m.CE.TF = r.Pick(1, 17, 13)
		c.kind = "tf"
		if r.P(0.3) {
			m.CE.HaveGamma, m.CE.Gamma = true, r.R(3000000, 10000000)
		}
		if m.CE.Space == 0 && r.P(0.5) {
			m.CE.Prim = 11
		}
		if r.P(0.3) {
			m.CE.White = r.Pick(10, 11)
		}
	case r.P(0.1):
		m.CE.TF = r.Pick(8, 16, 16, 16)
		m.CE.Prim = r.Pick(1, 9, 9, 11)
		if m.CE.Space == 0 && r.P(0.2) {
			m.CE.White = r.Pick(10, 11)
		}
		c.hdr = true
		c.pq = m.CE.TF == 16
		c.kind = "hdr"
	}
	m.CE.Intent = r.N(4)
	if r.P(0.4) {
		m.Orient = r.R(1, 8)
	}
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: 1, GroupShift: r.N(4)}
	for range m.EC {
		f.EcUp = append(f.EcUp, 1)
	}
	f.Pass = jx.PassSpec{Num: 1}
	o := jx.ModOpts{FixedPred: r.N(6)}
	if deep {
		depthOpts(r, m, &o)
		for _, e := range append([]jx.ExtraCh{{BD: m.BD}}, m.EC...) {
			if e.BD.Bits > 30 {
				o.FixedPred = 0 // differences need more than 32 bits
			}
		}
	}
	ch := jx.CodedSizes(m, f)
	nc := m.ModColor(true)
	for k, x := range ch {
		lo, hi := int64(0), int64(1)<<uint(bits)-1
		if k >= nc {
			hi = int64(1)<<uint(m.EC[k-nc].BD.Bits) - 1
		} else if m.XYB {
			lo, hi = [3]int64{0, -60, -120}[k], [3]int64{400, 60, 120}[k]
		} else if !c.pq && r.P(0.15) { // the PQ curve ends at 1
			lo, hi = -5, hi+5 // clamped on output
		}
		bd := m.BD
		if k >= nc {
			bd = m.EC[k-nc].BD
		}
		if bd.Float && !(m.XYB && k < nc) {
			fillBlend(r, x, bd, c.pq || r.P(0.8), k == c.alpha)
			continue
		}
		jx.FillChan(r, x, lo, hi)
	}
	c.f = f
	c.b = jx.BuildModFrame(r, m, f, ch, o)
	c.cs = jx.Codestream(r, m, []*jx.BuiltFrame{c.b}, false)
	return c
}

// outDepth is a depth that output code has to convert down.
func outDepth(r *jx.Rng) jx.BitDepth {
	switch r.N(4) {
	case 0:
		return jx.BitDepth{Float: true, Bits: 16, Exp: 5}
	case 1:
		return jx.BitDepth{Float: true, Bits: 32, Exp: 8}
	case 2:
		return jx.BitDepth{Bits: r.R(25, 30)}
	}
	return jx.BitDepth{Bits: r.R(17, 24)}
}

// size of the image as shown.
func (c *outCase) size() (int, int) {
	if c.m.Orient > 4 {
		return c.m.H, c.m.W
	}
	return c.m.W, c.m.H
}

func (c *outCase) bits(k int) int {
	if nc := c.m.NColor(); k >= nc {
		return c.m.EC[k-nc].BD.Bits
	}
	return c.m.BD.Bits
}

// rel is a decoded sample on the scale where 1 is white or opaque.
func (c *outCase) rel(img *core.JXLImage, k, x, y int) float64 {
	v := planeAt(&img.Buffer[k], x, y)
	if img.Buffer[k].BufferType == image2.TYPE_INT {
		v /= float64(uint64(1)<<uint(c.bits(k)) - 1)
	}
	return v
}

func refSRGB(v float64) float64 {
	if v <= 0.0031306684425005883 {
		return 12.92 * v
	}
	return 1.055*math.Pow(v, 1/2.4) - 0.055
}

// refToLinear inverts a coded transfer curve.
func refToLinear(e jx.ColorEnc, v float64) float64 {
	if e.HaveGamma {
		return math.Pow(math.Max(v, 0), 1e7/float64(e.Gamma))
	}
	switch e.TF {
	case 13:
		if v <= 0.040448236277105 {
			return v / 12.92
		}
		return math.Pow((v+0.055)/1.055, 2.4)
	case 1:
		if v <= 0.0812428582986315 {
			return v / 4.5
		}
		return math.Pow((v+0.09929682680944)/1.09929682680944, 1/0.45)
	case 17:
		return math.Pow(math.Max(v, 0), 2.6)
	}
	return v
}

type mat3 [3][3]float64

func (a mat3) mul(b mat3) (o mat3) {
	for i := range o {
		for j := range o {
			for k := range o {
				o[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return
}

func (a mat3) vec(v [3]float64) (o [3]float64) {
	for i := range o {
		for k := range o {
			o[i] += a[i][k] * v[k]
		}
	}
	return
}

func (a mat3) inv() (o mat3) {
	det := a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0])
	for i := range o {
		for j := range o {
			i1, i2, j1, j2 := (j+1)%3, (j+2)%3, (i+1)%3, (i+2)%3
			o[i][j] = (a[i1][j1]*a[i2][j2] - a[i1][j2]*a[i2][j1]) / det
		}
	}
	return
}

func xyzOf(x, y float64) [3]float64 { return [3]float64{x / y, 1, (1 - x - y) / y} }

// rgbToXYZ maps linear RGB of the given primaries and white point to XYZ.
func rgbToXYZ(p [3][2]float64, w [2]float64) mat3 {
	var m mat3
	for c := range p {
		v := xyzOf(p[c][0], p[c][1])
		for i := range v {
			m[i][c] = v[i]
		}
	}
	s := m.inv().vec(xyzOf(w[0], w[1]))
	for i := range m {
		for c := range m {
			m[i][c] *= s[c]
		}
	}
	return m
}

var (
	primSRGB = [3][2]float64{{0.639998686, 0.330010138}, {0.300003784, 0.600003357}, {0.150002046, 0.059997204}}
	primP3   = [3][2]float64{{0.68, 0.32}, {0.265, 0.69}, {0.15, 0.06}}
	prim2100 = [3][2]float64{{0.708, 0.292}, {0.17, 0.797}, {0.131, 0.046}}
	whiteD65 = [2]float64{0.3127, 0.329}
	whiteE   = [2]float64{1.0 / 3, 1.0 / 3}
	whiteDCI = [2]float64{0.314, 0.351}
	bradford = mat3{{0.8951, 0.2664, -0.1614}, {-0.7502, 1.7135, 0.0367}, {0.0389, -0.0685, 1.0296}}
)

func primOf(e jx.ColorEnc) [3][2]float64 {
	switch e.Prim {
	case 11:
		return primP3
	case 9:
		return prim2100
	case 2:
		var p [3][2]float64
		for i := range p {
			p[i] = [2]float64{float64(e.PrimXY[i].X) * 1e-6, float64(e.PrimXY[i].Y) * 1e-6}
		}
		return p
	}
	return primSRGB
}

func whiteOf(e jx.ColorEnc) [2]float64 {
	switch e.White {
	case 10:
		return whiteE
	case 11:
		return whiteDCI
	case 2:
		return [2]float64{float64(e.WhiteXY.X) * 1e-6, float64(e.WhiteXY.Y) * 1e-6}
	}
	return whiteD65
}

// refConv maps linear RGB between colour spaces, adapting the white point with the Bradford transform.
func refConv(p1 [3][2]float64, w1 [2]float64, p2 [3][2]float64, w2 [2]float64) mat3 {
	a, b := bradford.vec(xyzOf(w1[0], w1[1])), bradford.vec(xyzOf(w2[0], w2[1]))
	ad := bradford.inv().mul(mat3{{b[0] / a[0]}, {0, b[1] / a[1]}, {0, 0, b[2] / a[2]}}).mul(bradford)
	return rgbToXYZ(p2, w2).inv().mul(ad).mul(rgbToXYZ(p1, w1))
}

// shown gives the colour samples (and alpha, 1 without) output formats should show at a place, on a 0..1 scale.
// slack is how far each colour sample may be off beyond rounding.
func (c *outCase) shown(img *core.JXLImage, x, y int) (v [4]float64, slack [3]float64) {
	nc := c.m.NColor()
	for k := range slack {
		slack[k] = 4e-5
		if c.plain() {
			slack[k] = 1e-9
		}
	}
	for k := 0; k < nc; k++ {
		v[k] = c.rel(img, k, x, y)
	}
	v[3] = 1
	if c.alpha >= 0 {
		v[3] = c.rel(img, c.alpha, x, y)
	}
	e := c.m.CE
	switch {
	case c.m.XYB:
		for k := 0; k < nc; k++ {
			v[k] = refSRGB(v[k])
		}
	case e.ICC, c.plain():
	case c.pq && nc == 3 && (e.Prim != 9 || e.White != 1):
		l := [3]float64{refFromPQ(v[0]), refFromPQ(v[1]), refFromPQ(v[2])}
		m := refConv(primOf(e), whiteOf(e), prim2100, whiteD65)
		o := m.vec(l)
		for k := range o {
			s := 0.0
			for i := range l {
				s += math.Abs(m[k][i] * l[i])
			}
			v[k] = refToPQ(o[k])
			s = 4e-5*s + 1e-12
			slack[k] += math.Max(refToPQ(o[k]+s)-v[k], v[k]-refToPQ(o[k]-s))
		}
	case c.pq:
	case nc == 1 && (e.TF != 13 || e.HaveGamma):
		v[0] = refSRGB(refToLinear(e, v[0]))
	case nc == 3 && (e.Prim != 1 || e.White != 1 || e.TF != 13 || e.HaveGamma):
		l := [3]float64{refToLinear(e, v[0]), refToLinear(e, v[1]), refToLinear(e, v[2])}
		if e.Prim != 1 || e.White != 1 {
			l = refConv(primOf(e), whiteOf(e), primSRGB, whiteD65).vec(l)
		}
		for k := range l {
			v[k] = refSRGB(l[k])
		}
	}
	if c.alpha >= nc && c.m.EC[c.alpha-nc].Premult && v[3] > 0 {
		for k := 0; k < nc; k++ {
			v[k] /= v[3]
			slack[k] /= v[3]
		}
	}
	for k := range v {
		v[k] = math.Min(1, math.Max(0, v[k]))
	}
	if nc == 1 {
		v[1], v[2] = v[0], v[0]
		slack[1], slack[2] = slack[0], slack[0]
	}
	return
}

// the PQ curve of SMPTE ST 2084, 1 being the brightest
const pqM1, pqM2, pqC1, pqC2, pqC3 = 2610.0 / 16384, 2523.0 / 4096 * 128, 3424.0 / 4096, 2413.0 / 4096 * 32, 2392.0 / 4096 * 32

func refFromPQ(v float64) float64 {
	if v <= 0 {
		return 0
	}
	d := math.Pow(v, 1/pqM2)
	return math.Pow(math.Max(d-pqC1, 0)/(pqC2-pqC3*d), 1/pqM1)
}

func refToPQ(v float64) float64 {
	if v <= 0 {
		return 0
	}
	d := math.Pow(v, pqM1)
	return math.Pow((pqC1+pqC2*d)/(1+pqC3*d), pqM2)
}

// plain reports that shown samples are the coded ones, without any conversion.
func (c *outCase) plain() bool {
	e := c.m.CE
	return !c.m.XYB && (e.ICC || c.pq && (e.Space == 1 || e.Prim == 9 && e.White == 1) || e.TF == 13 && !e.HaveGamma && (e.Space == 1 || e.Prim == 1 && e.White == 1)) && !(c.alpha >= 0 && c.m.EC[c.alpha-c.m.NColor()].Premult)
}

func (c *outCase) note(t *rt.T) {
	W, H := c.size()
	t.Desc("%dx%d, %d bits, %s, colour %+v, %d extra channels, alpha in channel %d, orientation %d", W, H, c.m.BD.Bits, c.kind, c.m.CE, len(c.m.EC), c.alpha, c.m.Orient)
	t.Count("kind_"+c.kind, 1)
	if W*H > 16000 {
		t.Count("large", 1)
	}
	if c.alpha >= 0 {
		t.Count("alpha", 1)
		if c.m.EC[c.alpha-c.m.NColor()].Premult {
			t.Count("premultiplied", 1)
		}
		if c.alpha > c.m.NColor() {
			t.Count("alpha_not_first", 1)
		}
	}
	if c.m.NColor() == 1 {
		t.Count("grey", 1)
	}
	if c.m.BD.Bits > 8 {
		t.Count("deep", 1)
	}
	if c.m.BD.Float {
		t.Count("float", 1)
	} else if c.m.BD.Bits > 16 {
		t.Count("very_deep", 1)
	}
	t.Key("%d/%s/%v/%d/%d/%dx%d", c.m.BD.Bits, c.kind, c.m.CE.Space, len(c.m.EC), c.alpha, W, H)
}

// copyImg keeps the planes of an image as they are now.
func copyImg(img *core.JXLImage) *core.JXLImage {
	o := &core.JXLImage{Width: img.Width, Height: img.Height}
	for i := range img.Buffer {
		o.Buffer = append(o.Buffer, *image2.NewImageBufferFromImageBuffer(&img.Buffer[i], true))
	}
	return o
}
