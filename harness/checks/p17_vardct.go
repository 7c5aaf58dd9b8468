package checks

import (
	"fmt"
	"math"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
	image2 "github.com/kpfaulkner/jxl-go/image"
)

func init() {
	rt.Register(&rt.Check{ID: "P17", Quick: 1200, Thorough: 12000, Batch: 20,
		Rule: "random lossy frames written by an independent encoder: every block transform at aligned and unaligned places, random coefficients, all quantisation-table modes, custom coefficient orders, block contexts, histogram presets, several passes, chroma-from-luma, LF smoothing, chroma subsampling, extra channels, several groups and LF groups; every sample is compared with a double-precision reconstruction from the specification; non-trivial when a frame has non-zero coefficients",
		Need: []string{"samples", "multi_group", "multi_pass", "smoothed", "subsampled", "custom_orders", "custom_tables", "block_ctx", "presets", "cfl", "xyb", "extra", "lf_frames", "lf_frame_lf_groups"},
		Run:  p17})
}

type vdctCase struct {
	m  *jx.Meta
	f  *jx.FrameHdr
	b  *jx.VFrame
	cs []byte

	frames   []*jx.BuiltFrame
	o        jx.VOpts
	lfFrames int

	wide   bool                         // floating point samples of any sign and exponent
	filter func(v, tol *[3][][]float64) // restoration filters

	acceptPinned bool // LF smoothing is judged elsewhere
}

// genVarDCT makes a random single-frame lossy image without restoration filters.
func genVarDCT(r *jx.Rng, mode int) *vdctCase { return genVarDCTWith(r, mode, nil) }

// genVarDCTWith lets the caller change the headers before the frame is coded.
func genVarDCTWith(r *jx.Rng, mode int, tweak func(c *vdctCase)) *vdctCase {
	c := &vdctCase{}
	W, H := r.R(1, 80), r.R(1, 80)
	o := jx.VOpts{Mod: jx.ModOpts{FixedPred: r.Pick(-1, 0, 5)}, Tables: r.P(0.35)}
	if mode == 2 || mode == 6 {
		o.Tables = r.P(0.8)
	}
	switch {
	case mode == 4: // with an LF frame
		W, H = r.R(1, 200), r.R(1, 120)
	case mode == 6: // with an LF frame, several LF groups
		W, H = r.R(2049, 2100), r.R(1, 24)
		if r.P(0.3) {
			W = r.R(4097, 6200)
		}
		if r.Bool() {
			W, H = H, W
		}
	case mode == 1: // several groups
		W, H = r.R(257, 540), r.R(8, 120)
		if r.Bool() {
			W, H = H, W
		}
		o.MaxBlock = 8
	case mode == 2: // several LF groups
		W, H = r.R(2049, 2200), r.R(1, 24)
		if r.P(0.4) {
			W, H = r.R(1, 3)*2048+r.R(1, 2048), r.R(1, 9)
		}
		if r.Bool() {
			W, H = H, W
		}
	case mode == 5: // LF groups in both directions
		W, H = r.R(2049, 2090), r.R(2049, 2090)
	case mode == 3: // the largest transforms
		W, H = r.R(120, 300), r.R(120, 300)
		o.Types = []int{18, 19, 20, 21, 22, 23, 24, 25, 26}
	case r.P(0.3):
		W, H = r.R(64, 160), r.R(64, 160)
	case r.P(0.1):
		W, H = r.R(1, 8), r.R(1, 8)
	default:
		o.MaxBlock = 8
	}
	m := &jx.Meta{W: W, H: H, BD: jx.BitDepth{Bits: r.Pick(8, 8, 10, 16)}, CE: jx.SRGBEnc(), XformDef: true}
	f := &jx.FrameHdr{IsLast: true, RF: jx.NoRF(), Up: 1, Xqm: 2, Bqm: 2}
	switch r.N(10) {
	case 0, 1, 2:
		m.XYB = true
		f.Xqm, f.Bqm = r.N(8), r.N(8)
		if r.P(0.5) {
			m.XformDef = false
			m.Opsin = jx.DefaultOpsin()
			m.Opsin.Set = true
			for i := range m.Opsin.M {
				m.Opsin.M[i] = jx.F16Round(m.Opsin.M[i] * (0.9 + 0.2*r.F()))
			}
			for i := range m.Opsin.Bias {
				m.Opsin.Bias[i] = jx.F16Round(m.Opsin.Bias[i] * (0.5 + r.F()))
			}
			for i := range m.Opsin.QBias {
				m.Opsin.QBias[i] = jx.F16Round(m.Opsin.QBias[i] * (0.7 + 0.5*r.F()))
			}
		}
	case 3, 4:
		f.YCbCr = true
		f.Flags |= 128
		f.JpegUp = [3]int{r.N(4), r.N(4), r.N(4)}
		if r.P(0.6) {
			f.JpegUp = [][3]int{{0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {0, 0, 0}}[r.N(4)]
		}
	}
	if !f.YCbCr && r.P(0.4) {
		f.Flags |= 128
	}
	for k := r.Pick(0, 0, 0, 1, 2); k > 0; k-- {
		m.EC = append(m.EC, jx.ExtraCh{Type: r.Pick(jx.ECAlpha, jx.ECDepth), BD: m.BD})
		f.EcUp = append(f.EcUp, 1)
	}
	if m.BD.Bits > 12 && mode == 2 || mode == 5 {
		m.EC, f.EcUp = nil, nil
	}
	if mode == 4 || mode == 6 {
		f.YCbCr, f.JpegUp = false, [3]int{}
		f.Flags |= 32
	}
	f.Pass = jx.PassSpec{Num: 1}
	if r.P(0.3) {
		for f.Pass.Num < 2 {
			f.Pass = jx.RandPasses(r)
		}
	}
	if r.P(0.1) && !m.XYB && !f.YCbCr {
		o.Amp = float64(r.Pick(1, 4, 20)) / 4
	}
	if r.P(0.1) {
		o.Plain = true
	}
	c.m, c.f, c.o = m, f, o
	if tweak != nil {
		tweak(c)
		o = c.o
	}
	var frames []*jx.BuiltFrame
	if mode == 4 || mode == 6 {
		o.LF, o.LFAbs, frames = genLFFrames(r, m, 1, r.Bool())
		c.lfFrames = len(frames)
	}
	c.o = o
	c.b = jx.BuildVarDCT(r, m, f, randExtra(r, m, f, c.wide), o)
	frames = append(frames, &c.b.BuiltFrame)
	c.frames = frames
	c.cs = jx.Codestream(r, m, frames, r.P(0.2))
	return c
}

func randExtra(r *jx.Rng, m *jx.Meta, f *jx.FrameHdr, wide bool) (ec []*jx.Chan) {
	for i, x := range jx.CodedSizes(m, f) {
		fillDepth(r, x, m.EC[i].BD, wide)
		ec = append(ec, x)
	}
	return
}

// genLFFrames makes the frame (and those it depends on) which gives the LF image at a level.
func genLFFrames(r *jx.Rng, m *jx.Meta, level int, lossy bool) (lf, abs [3][][]float64, frames []*jx.BuiltFrame) {
	f := &jx.FrameHdr{Type: jx.FrLF, LfLevel: level, RF: jx.NoRF(), Up: 1, Xqm: 2, Bqm: 2, Pass: jx.PassSpec{Num: 1}, Flags: 128}
	for range m.EC {
		f.EcUp = append(f.EcUp, 1)
	}
	if lossy {
		o := jx.VOpts{Mod: jx.ModOpts{FixedPred: r.Pick(-1, 0, 5)}, MaxBlock: 8, Tables: r.P(0.5)}
		if level < 3 && r.P(0.3) {
			f.Flags |= 32
			o.LF, o.LFAbs, frames = genLFFrames(r, m, level+1, r.Bool())
		}
		b := jx.BuildVarDCT(r, m, f, randExtra(r, m, f, false), o)
		w, h := f.Dim(m)
		for c := range lf {
			lf[c] = mat(h, w)
			for y := range lf[c] {
				copy(lf[c][y], b.P[c][y])
			}
			abs[c] = mat(h, w)
			for y := range abs[c] {
				for x := range abs[c][y] {
					abs[c][y][x] = b.Mag[c][y/8][x/8]
				}
			}
		}
		return lf, abs, append(frames, &b.BuiltFrame)
	}
	f.Modular = true
	chans := jx.CodedSizes(m, f)
	for i, x := range chans {
		if m.XYB && i < 3 {
			jx.FillChan(r, x, []int64{-20, -60, -60}[i], []int64{400, 60, 60}[i])
		} else {
			jx.FillChan(r, x, 0, 1<<uint(m.BD.Bits)-1)
		}
	}
	b := jx.BuildModFrame(r, m, f, chans, jx.ModOpts{FixedPred: r.Pick(-1, 0, 5)})
	w, h := f.Dim(m)
	for c := range lf {
		lf[c], abs[c] = mat(h, w), mat(h, w)
		for y := range lf[c] {
			for x := range lf[c][y] {
				g := func(i int) float64 { return float64(b.Chans[i].At(x, y)) }
				switch {
				case !m.XYB:
					lf[c][y][x] = g(c) / float64(uint64(1)<<uint(m.BD.Bits)-1)
				case c == 0:
					lf[c][y][x] = g(1) / 4096
				case c == 1:
					lf[c][y][x] = g(0) / 512
				default:
					lf[c][y][x] = (g(2) + g(0)) / 256
				}
				abs[c][y][x] = math.Abs(lf[c][y][x])
			}
		}
	}
	return lf, abs, append(frames, b)
}

func (c *vdctCase) note(t *rt.T) {
	b, in := c.b, c.b.Info
	names := ""
	for i, n := range in.Types {
		if n > 0 {
			names += " " + jx.VTypeNames[i]
			t.Tag("transform", jx.VTypeNames[i])
		}
	}
	t.Desc("%dx%d, %d bits, XYB %v YCbCr %v sampling %v flags %d, %d extra, %d groups, %d LF groups, passes %+v, %+v, qm %d %d, entropy %+v;%s", c.m.W, c.m.H, c.m.BD.Bits, c.m.XYB, c.f.YCbCr, c.f.JpegUp, c.f.Flags, len(c.m.EC), b.Lay.NG, b.Lay.NLF, c.f.Pass, in, c.f.Xqm, c.f.Bqm, b.Stats.Ent, names)
	if in.Nonzero > 0 {
		t.Key("%dx%d/%v/%d/%d", c.m.W, c.m.H, in.Types, in.Nonzero, in.Presets)
	}
	t.Count("coefficients", in.Nonzero)
	t.Count("blocks", len(b.Blocks))
	t.Count("smoothed", in.Smoothed)
	t.Count("custom_orders", in.Orders)
	t.Count("straddling_tiles", in.Straddle)
	for i, n := range in.Tables {
		t.Count("custom_tables", n)
		if n > 0 {
			t.Tag("table_mode", i)
		}
	}
	yes := func(n string, v bool) {
		if v {
			t.Count(n, 1)
		}
	}
	yes("multi_group", b.Lay.NG > 1)
	yes("multi_lfgroup", b.Lay.NLF > 1)
	yes("multi_pass", in.Passes > 1)
	yes("subsampled", in.Subsampled)
	yes("block_ctx", in.BlockCtx)
	yes("presets", in.Presets > 1)
	yes("cfl", in.CfL)
	yes("xyb", c.m.XYB)
	yes("ycbcr", c.f.YCbCr)
	yes("lf_frames", c.lfFrames > 0)
	yes("lf_frame_chain", c.lfFrames > 1)
	yes("lf_frame_lf_groups", c.lfFrames > 0 && b.Lay.NLF > 1)
	yes("extra", len(c.m.EC) > 0)
}

// upChroma doubles a plane in one direction the way chroma upsampling is specified.
func upChroma(p [][]float64, horiz bool) [][]float64 {
	h, w := len(p), len(p[0])
	cl := func(i, n int) int { return min(max(i, 0), n-1) }
	if horiz {
		o := mat(h, 2*w)
		for y := range p {
			for x := range p[y] {
				o[y][2*x] = 0.75*p[y][x] + 0.25*p[y][cl(x-1, w)]
				o[y][2*x+1] = 0.75*p[y][x] + 0.25*p[y][cl(x+1, w)]
			}
		}
		return o
	}
	o := mat(2*h, w)
	for y := range p {
		for x := range p[y] {
			o[2*y][x] = 0.75*p[y][x] + 0.25*p[cl(y-1, h)][x]
			o[2*y+1][x] = 0.75*p[y][x] + 0.25*p[cl(y+1, h)][x]
		}
	}
	return o
}

// invXYB turns XYB into linear RGB.
func invXYB(o jx.Opsin, intensity float64, v [3]float64) (rgb [3]float64) {
	g := [3]float64{v[1] + v[0], v[1] - v[0], v[2]}
	for i := range g {
		g[i] -= math.Cbrt(o.Bias[i])
		g[i] = g[i]*g[i]*g[i] + o.Bias[i]
		g[i] *= 255 / intensity
	}
	for i := range rgb {
		for k := range g {
			rgb[i] += o.M[i*3+k] * g[k]
		}
	}
	return
}

func (c *vdctCase) opsin() jx.Opsin {
	if !c.m.XformDef && c.m.Opsin.Set {
		return c.m.Opsin
	}
	return jx.DefaultOpsin()
}

func ceilShift(n int, s uint) int { return (n + 1<<s - 1) >> s }

// cropPlane returns the top left part of a plane.
func cropPlane(p [][]float64, w, h int) [][]float64 {
	out := make([][]float64, h)
	for y := range out {
		out[y] = p[y][:w:w]
	}
	return out
}

// expect computes the samples of the frame and how far each may be off.
func (c *vdctCase) expect(planes [3][][]float64) (v, tol [3][][]float64) {
	b := c.b
	fw, fh := c.f.Dim(c.m)
	W, H := c.f.Size(c.m)
	for k := 0; k < 3; k++ {
		v[k] = cropPlane(planes[k], ceilShift(fw, b.SX[k]), ceilShift(fh, b.SY[k]))
		tol[k] = mat(len(v[k]), len(v[k][0]))
		for y := range tol[k] {
			for x := range tol[k][y] {
				tol[k][y][x] = b.Mag[k][y/8][x/8]
			}
		}
		for s := uint(0); s < b.SX[k]; s++ {
			v[k], tol[k] = upChroma(v[k], true), upChroma(tol[k], true)
		}
		for s := uint(0); s < b.SY[k]; s++ {
			v[k], tol[k] = upChroma(v[k], false), upChroma(tol[k], false)
		}
		v[k], tol[k] = cropPlane(v[k], fw, fh), cropPlane(tol[k], fw, fh)
	}
	if c.filter != nil {
		c.filter(&v, &tol)
	}
	for k := 0; k < 3; k++ {
		if u := c.f.Up; u > 1 {
			var ar [][]float64
			v[k], tol[k], ar = upsample(v[k], tol[k], u, upWeights(c.m, u), W, H)
			for y := range ar {
				for x := range ar[y] {
					tol[k][y][x] += 0.1 * ar[y][x]
				}
			}
		}
	}
	if !c.m.XYB && !c.f.YCbCr {
		return
	}
	op, intensity := c.opsin(), 255.0
	if c.m.TM.Set {
		intensity = c.m.TM.Intensity
	}
	if e := c.m.CE; c.m.XYB && !c.m.AllDefault && (e.White != 1 || e.Space == 0 && e.Prim != 1) { // linear light of the declared primaries and white point
		conv := refConv(primSRGB, whiteD65, primOf(e), whiteOf(e))
		var om mat3
		for i, v := range op.M {
			om[i/3][i%3] = v
		}
		om = conv.mul(om)
		for i := range op.M {
			op.M[i] = om[i/3][i%3]
		}
	}
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			p := [3]float64{v[0][y][x], v[1][y][x], v[2][y][x]}
			s := tol[0][y][x] + tol[1][y][x] + tol[2][y][x]
			if c.f.YCbCr {
				yy := p[1] + 128.0/255
				p = [3]float64{yy + 1.402*p[2], yy - 0.114*1.772/0.587*p[0] - 0.299*1.402/0.587*p[2], yy + 1.772*p[0]}
				s = 2*s + 1
				for k := range p {
					v[k][y][x], tol[k][y][x] = p[k], s
				}
				continue
			}
			q := invXYB(op, intensity, p)
			m := math.Max(math.Abs(p[1]+p[0]), math.Max(math.Abs(p[1]-p[0]), math.Abs(p[2]))) + 0.2
			for k := range q {
				g := 0.0
				for j := 0; j < 3; j++ {
					g += math.Abs(op.M[k*3+j])
				}
				v[k][y][x], tol[k][y][x] = q[k], 255/intensity*g*m*m*(3*s+2*m)
			}
		}
	}
	return
}

const p17Tol = 4e-5

func compareVarDCT(t *rt.T, c *vdctCase, img *core.JXLImage) {
	if img == nil || len(img.Buffer) != 3+len(c.m.EC) {
		t.Failf("channels", "decoded %d channels, coded %d", len(img.Buffer), 3+len(c.m.EC))
		return
	}
	for k := 0; k < 3; k++ {
		p := &img.Buffer[k]
		if int(p.Width) != c.m.W || int(p.Height) != c.m.H {
			t.Failf("size", "channel %d decoded as %dx%d, coded %dx%d", k, p.Width, p.Height, c.m.W, c.m.H)
			return
		}
		if s := shapeErr(p); s != "" {
			t.Failf("shape", "channel %d: %s", k, s)
			return
		}
	}
	worst, n, msg := c.comparePlanes(img, c.b.P)
	if msg != "" {
		sig := "sample"
		if c.b.Info.Smooth {
			if _, _, m := c.comparePlanes(img, c.b.Pinned); m == "" {
				sig = "lf-smoothing"
			}
		}
		if sig == "sample" || !c.acceptPinned {
			t.Failf(sig, "%s", msg)
		}
		if sig == "sample" {
			return
		}
	} else {
		t.Max("error_ppb", int(worst*1e9))
		t.Count("samples", n)
	}
	for i, ch := range c.b.EC {
		if s := compareChan(&img.Buffer[3+i], ch, c.m, c.m.EC[i].BD, c.f.EcUp[i]<<uint(c.m.EC[i].DimShift), c.m.W, c.m.H); s != "" {
			t.Failf("extra", "extra channel %d (%+v): %s", i, c.m.EC[i].BD, s)
			return
		}
		t.Count("extra_samples", ch.W*ch.H)
	}
}

// comparePlanes compares the decoded colour channels with what these planes stand for.
func (c *vdctCase) comparePlanes(img *core.JXLImage, planes [3][][]float64) (worst float64, n int, msg string) {
	v, tol := c.expect(planes)
	for k := 0; k < 3; k++ {
		p := &img.Buffer[k]
		for y := 0; y < c.m.H; y++ {
			for x := 0; x < c.m.W; x++ {
				g := planeAt(p, x, y)
				if p.BufferType == image2.TYPE_INT {
					g /= float64(uint64(1)<<uint(c.m.BD.Bits) - 1)
				}
				d := math.Abs(g - v[k][y][x])
				e := d / (tol[k][y][x] + 0.01)
				worst = math.Max(worst, e)
				n++
				if e > p17Tol || math.IsNaN(g) {
					return worst, n, fmt.Sprintf("channel %d (%d,%d) in a %s block decoded %.7g, specified %.7g (off by %.3g, allowed %.3g)", k, x, y, jx.VTypeNames[c.blockAt(x, y)], g, v[k][y][x], d, p17Tol*(tol[k][y][x]+0.01))
				}
			}
		}
	}
	return
}

func (c *vdctCase) blockAt(x, y int) int {
	for _, k := range c.b.Blocks {
		if h, w := jx.VTypeSize(k.T); x/8 >= k.X && y/8 >= k.Y && x/8 < k.X+w && y/8 < k.Y+h {
			return k.T
		}
	}
	return 0
}

func p17(t *rt.T) {
	mode := 0
	switch t.Index % 50 {
	case 3, 13, 23, 33, 43:
		mode = 1
	case 17:
		mode = 2
	case 27, 47:
		mode = 3
	case 8, 18, 28, 38, 48:
		mode = 4
	}
	switch {
	case t.Index%350 == 9:
		mode = 5
	case t.Index%50 == 21:
		mode = 6
	}
	c := genVarDCT(t.R, mode)
	c.note(t)
	img, err := decode(c.cs, nil)
	if err != nil {
		t.Failf("error", "valid lossy frame rejected: %v", err)
		return
	}
	compareVarDCT(t, c, img)
}
