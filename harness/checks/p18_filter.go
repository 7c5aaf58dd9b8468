package checks

import (
	"math"

	"jxverif/jx"
	"jxverif/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "P18", Quick: 1500, Thorough: 10000, Batch: 20,
		Rule: "random lossless (RGB) and lossy frames with the smoothing filter (default and own weights per channel) and 0 to 3 passes of the edge-preserving filter (default and own sharpness table, channel weights, sigma scales, border factor), in one or several groups, with and without enlarging and chroma subsampling; every sample is compared with a double-precision model of the filters applied to what was coded; non-trivial when the edge-preserving filter mixed a sample with a neighbour of another value, or the smoothing filter was on",
		Need: []string{"samples", "gab", "gab_custom", "epf1", "epf2", "epf3", "mixed", "partial_weights", "skipped_blocks", "lossy", "lossless", "multi_group", "all_default"},
		Run:  p18})
}

// gaborish smooths a plane with the given weights.
func gaborish(p plane, w1, w2 float64) plane {
	h, w := len(p.v), len(p.v[0])
	o := zeroPlane(w, h)
	k := 1 / (1 + 4*(w1+w2))
	at := func(m [][]float64, x, y int) float64 { return m[mirror(y, h)][mirror(x, w)] }
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			var s, t, a float64
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					q := k
					switch dx*dx + dy*dy {
					case 1:
						q *= w1
					case 2:
						q *= w2
					}
					v := at(p.v, x+dx, y+dy)
					s += q * v
					a += math.Abs(q * v)
					t += math.Abs(q) * at(p.t, x+dx, y+dy)
				}
			}
			o.v[y][x], o.t[y][x] = s, t+4e-7*a
		}
	}
	return o
}

type epfStats struct{ mixed, partial, skipped int }

var epfPlus = [][2]int{{0, 0}, {-1, 0}, {1, 0}, {0, -1}, {0, 1}}
var epfWide = [][2]int{{0, 0}, {-1, 0}, {1, 0}, {0, -1}, {0, 1}, {-1, -1}, {1, -1}, {-1, 1}, {1, 1}, {-2, 0}, {2, 0}, {0, -2}, {0, 2}}

// epf applies the edge-preserving filter; inv is the inverse of sigma of each 8x8 block.
func epf(p []plane, rf jx.RestFilter, inv [][]float64, st *epfStats) []plane {
	h, w := len(p[0].v), len(p[0].v[0])
	const step = 1.65 * 4 * (1 - math.Sqrt2/2)
	for pass := 0; pass < 3; pass++ {
		if pass == 0 && rf.EpfIters < 3 || pass == 2 && rf.EpfIters < 2 {
			continue
		}
		nb, plus, scale := epfPlus, epfPlus, step
		switch pass {
		case 0:
			nb, scale = epfWide, step*rf.P0Scale
		case 2:
			plus, scale = epfPlus[:1], step*rf.P2Scale
		}
		out := make([]plane, len(p))
		for c := range out {
			out[c] = zeroPlane(w, h)
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				s := inv[y/8][x/8]
				if math.Abs(s-1/0.3) < 1e-5 { // on the edge between filtering and not
					for c := range p {
						out[c].v[y][x], out[c].t[y][x] = p[c].v[y][x], math.Inf(1)
					}
					continue
				}
				if s > 1/0.3 {
					st.skipped++
					for c := range p {
						out[c].v[y][x], out[c].t[y][x] = p[c].v[y][x], p[c].t[y][x]
					}
					continue
				}
				q := s * scale
				if x%8 == 0 || x%8 == 7 || y%8 == 0 || y%8 == 7 {
					q *= rf.BorderMul
				}
				var wt, we [13]float64
				sum := 0.0
				for i, d := range nb {
					dist, de := 0.0, 0.0
					for c := range p {
						for _, k := range plus {
							y0, x0 := mirror(y+k[1], h), mirror(x+k[0], w)
							y1, x1 := mirror(y+k[1]+d[1], h), mirror(x+k[0]+d[0], w)
							a, b := p[c].v[y0][x0], p[c].v[y1][x1]
							dist += math.Abs(a-b) * rf.ChScale[c]
							if y0 != y1 || x0 != x1 {
								de += (p[c].t[y0][x0] + p[c].t[y1][x1] + 3e-7*math.Abs(a-b)) * math.Abs(rf.ChScale[c])
							}
						}
					}
					wt[i] = math.Max(0, 1-dist*q)
					if dist*q < 1+de*math.Abs(q) {
						we[i] = de*math.Abs(q) + 2e-7
					}
					sum += wt[i]
					if i > 0 && wt[i] > 0 && dist > 0 {
						st.mixed++
						if wt[i] < 0.95 {
							st.partial++
						}
					}
				}
				for c := range p {
					var o, mt, mv float64
					for i, d := range nb {
						yy, xx := mirror(y+d[1], h), mirror(x+d[0], w)
						o += wt[i] * p[c].v[yy][xx]
						if wt[i] > 0 || we[i] > 0 {
							mt = math.Max(mt, p[c].t[yy][xx])
							mv = math.Max(mv, math.Abs(p[c].v[yy][xx]))
						}
					}
					o /= sum
					e := 0.0
					for i, d := range nb {
						e += we[i] * math.Abs(p[c].v[mirror(y+d[1], h)][mirror(x+d[0], w)]-o)
					}
					out[c].v[y][x], out[c].t[y][x] = o, mt+e/sum+1e-6*mv
				}
			}
		}
		p = out
	}
	return p
}

func randRF(r *jx.Rng, t *rt.T) jx.RestFilter {
	if r.P(0.12) {
		t.Count("all_default", 1)
		return jx.DefaultRF()
	}
	f := jx.NoRF()
	f.Gab = r.P(0.6)
	if f.Gab && r.P(0.5) {
		f.GabCustom = true
		for i := range f.GabW {
			f.GabW[i] = jx.F16Round((r.F() - 0.15) * 0.3)
		}
	}
	f.EpfIters = r.N(4)
	if !f.Gab && r.P(0.8) {
		f.EpfIters = r.R(1, 3)
	}
	if f.EpfIters > 0 {
		if r.P(0.4) {
			f.SharpCustom = true
			for i := range f.SharpLut {
				f.SharpLut[i] = jx.F16Round(r.F() * 2)
			}
		}
		if r.P(0.08) {
			f.WCustom = true
			for i := range f.ChScale {
				f.ChScale[i] = jx.F16Round(r.F() * 40)
			}
		}
		if r.P(0.4) {
			f.SigCustom = true
			f.QuantMul = jx.F16Round(0.2 + r.F())
			f.P0Scale = jx.F16Round(0.2 + 2*r.F())
			f.P2Scale = jx.F16Round(0.5 + 9*r.F())
			f.BorderMul = jx.F16Round(r.F() * 1.5)
		}
		f.SigmaMod = jx.F16Round(math.Exp2(r.F()*8 - 2.2))
	}
	return f
}

func p18(t *rt.T) {
	r := t.R
	rf := randRF(r, t)
	if rf.Gab {
		t.Count("gab", 1)
	}
	if rf.GabCustom {
		t.Count("gab_custom", 1)
	}
	if rf.EpfIters > 0 {
		t.Count("epf"+string(rune('0'+rf.EpfIters)), 1)
	}
	if t.Index%2 == 0 {
		p18Lossy(t, rf)
	} else {
		p18Lossless(t, rf)
	}
}

// smooth fills a channel with soft content, so that neighbours differ little.
func smoothFill(r *jx.Rng, c *jx.Chan, mx int64) {
	amp := math.Exp2(-r.F() * 7)
	base := r.F() * (1 - amp)
	fx, fy, ph := r.F()*0.8, r.F()*0.8, r.F()*6
	noise := r.F() * r.F()
	for y := 0; y < c.H; y++ {
		for x := 0; x < c.W; x++ {
			v := (1-noise)*(0.5+0.5*math.Sin(fx*float64(x)+fy*float64(y)+ph)) + noise*r.F()
			c.Set(x, y, int32(math.Round((base+amp*v)*float64(mx))))
		}
	}
}

func p18Lossless(t *rt.T, rf jx.RestFilter) {
	r := t.R
	W, H := r.R(1, 48), r.R(1, 48)
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: rf, Up: r.Pick(1, 1, 1, 1, 2, 4), GroupShift: r.N(4), Pass: jx.PassSpec{Num: 1}}
	if t.Index%8 == 3 {
		W, H, f.GroupShift = r.R(129, 200), r.R(20, 60), 0
		if r.Bool() {
			W, H = H, W
		}
	}
	m := &jx.Meta{W: W, H: H, BD: jx.BitDepth{Bits: r.Pick(8, 8, 10, 12, 16)}, CE: jx.SRGBEnc(), XformDef: true}
	if rf.EpfIters == 0 && r.P(0.4) {
		m.CE = jx.GrayEnc()
	}
	if r.P(0.3) {
		m.EC = []jx.ExtraCh{{Type: jx.ECAlpha, BD: m.BD}}
		f.EcUp = []int{f.Up}
	}
	nc := m.NColor()
	ch := jx.CodedSizes(m, f)
	for _, c := range ch {
		if r.P(0.8) {
			smoothFill(r, c, int64(1)<<uint(m.BD.Bits)-1)
		} else {
			jx.FillChan(r, c, 0, int64(1)<<uint(m.BD.Bits)-1)
		}
	}

	b := jx.BuildModFrame(r, m, f, ch, jx.ModOpts{FixedPred: r.Pick(-1, 0, 5)})
	fw, fh := f.Dim(m)
	t.Desc("lossless %dx%d, %d bits, %d colour channels, enlarged %d times, %d groups, filter %+v", W, H, m.BD.Bits, nc, f.Up, b.Stats.Groups, rf)
	t.Key("%dx%d/%+v", W, H, rf)
	t.Count("lossless", 1)
	if b.Stats.Groups > 1 {
		t.Count("multi_group", 1)
	}
	ps := make([]plane, nc)
	for c := range ps {
		ps[c] = codedPlane(b.Chans[c], m, m.BD, 1, fw, fh)
	}
	var es epfStats
	if rf.Gab {
		for c := range ps {
			ps[c] = gaborish(ps[c], rf.GabW[2*c], rf.GabW[2*c+1])
		}
	}
	if rf.EpfIters > 0 {
		inv := mat((fh+7)/8, (fw+7)/8)
		for y := range inv {
			for x := range inv[y] {
				inv[y][x] = 1 / rf.SigmaMod
			}
		}
		ps = epf(ps, rf, inv, &es)
	}
	es.note(t)
	if u := f.Up; u > 1 {
		for c := range ps {
			v, tv, ar := upsample(ps[c].v, ps[c].t, u, upWeights(m, u), W, H)
			for y := range ar {
				for x := range ar[y] {
					tv[y][x] += 2e-6 * ar[y][x]
				}
			}
			ps[c] = plane{v, tv}
		}
	}
	try := func(cs []byte) string {
		img, err := decode(cs, nil)
		if err != nil {
			return "valid image rejected: " + err.Error()
		}
		if len(img.Buffer) != len(b.Chans) {
			return "wrong number of channels"
		}
		for c := range b.Chans {
			if c >= nc {
				if s := compareChan(&img.Buffer[c], b.Chans[c], m, m.BD, f.Up, W, H); s != "" {
					return "extra channel: " + s
				}
			} else if s := comparePlane(&img.Buffer[c], ps[c], m.BD); s != "" {
				return s
			}
		}
		return ""
	}

	p18Judge(t, f, func() []byte { return jx.Codestream(r, m, []*jx.BuiltFrame{b}, false) }, try)
	if !t.Failed() {
		t.Count("samples", W*H*nc)
	}
}

func (s *epfStats) note(t *rt.T) {
	t.Count("mixed", s.mixed)
	t.Count("partial_weights", s.partial)
	t.Count("skipped_blocks", s.skipped)
}

// p18Judge decodes what the format specifies. Where that fails, the same frame in the header layout
// that the unit tests pin tells a known defect of the header from a fault of the filters.
func p18Judge(t *rt.T, f *jx.FrameHdr, code func() []byte, try func([]byte) string) {
	msg := try(code())
	if msg == "" {
		return
	}
	if f.RF.EpfIters > 0 && !f.RF.AllDefault {
		if f.RF.WCustom {
			t.Failf("epf-flag", "own channel weights: %s", msg)
			return
		}
		f.RF.Pinned = true
		msg2 := try(code())
		f.RF.Pinned = false
		if msg2 == "" {
			t.Count("pinned_layout", 1)
			t.Failf("epf-flag", "%s", msg)
			return
		}
		msg = msg2
	}
	t.Failf("sample", "%s", msg)
}

func p18Lossy(t *rt.T, rf jx.RestFilter) {
	r := t.R
	mode := 0
	if t.Index%20 == 4 {
		mode = 1
	}
	if t.Index%60 == 10 {
		mode = 2
	}
	c := genVarDCTWith(r, mode, func(c *vdctCase) {
		c.f.RF = rf
		c.f.Flags |= 128 // no LF smoothing, which is judged elsewhere
		if r.P(0.2) {
			c.f.Up = r.Pick(2, 4)
			for i := range c.f.EcUp {
				c.f.EcUp[i] = c.f.Up
			}
		}
		if c.o.Amp == 0 && r.P(0.6) {
			c.o.Amp = math.Exp2(-r.F() * 6)
		}
	})
	t.Desc("lossy %dx%d, XYB %v YCbCr %v sampling %v, enlarged %d times, %d groups, filter %+v", c.m.W, c.m.H, c.m.XYB, c.f.YCbCr, c.f.JpegUp, c.f.Up, c.b.Lay.NG, rf)
	t.Key("%dx%d/%+v", c.m.W, c.m.H, rf)
	t.Count("lossy", 1)
	if c.b.Lay.NG > 1 {
		t.Count("multi_group", 1)
	}
	var es epfStats
	c.filter = func(v, tol *[3][][]float64) {
		ps := make([]plane, 3)
		for k := range ps {
			ps[k] = plane{v[k], mat(len(v[k]), len(v[k][0]))}
			for y := range v[k] {
				for x := range v[k][y] {
					ps[k].t[y][x] = p17Tol * (tol[k][y][x] + 0.01)
				}
			}
			if rf.Gab {
				ps[k] = gaborish(ps[k], rf.GabW[2*k], rf.GabW[2*k+1])
			}
		}
		if rf.EpfIters > 0 {
			inv := mat(c.b.BH, c.b.BW)
			for _, k := range c.b.Blocks {
				hh, ww := jx.VTypeSize(k.T)
				for y := k.Y; y < k.Y+hh; y++ {
					for x := k.X; x < k.X+ww; x++ {
						sg := rf.QuantMul * rf.SharpLut[c.b.Sharp[y][x]] * 65536 / float64(c.b.GS) / float64(k.Mul)
						inv[y][x] = 1 / math.Max(sg, 1e-4)
					}
				}
			}
			ps = epf(ps, rf, inv, &es)
		}
		for k := range ps {
			v[k] = ps[k].v
			tol[k] = ps[k].t
			for y := range v[k] {
				for x := range v[k][y] {
					tol[k][y][x] = math.Max(0, tol[k][y][x]/p17Tol-0.01)
				}
			}
		}
	}
	n := 0
	try := func(cs []byte) string {
		img, err := decode(cs, nil)
		if err != nil {
			return "valid frame rejected: " + err.Error()
		}
		if len(img.Buffer) != 3+len(c.m.EC) {
			return "wrong number of channels"
		}
		for k := range img.Buffer {
			if p := &img.Buffer[k]; int(p.Width) != c.m.W || int(p.Height) != c.m.H || shapeErr(p) != "" {
				return "wrong size"
			}
		}
		es = epfStats{}
		var msg string
		_, n, msg = c.comparePlanes(img, c.b.P)
		return msg
	}
	p18Judge(t, c.f, func() []byte { return jx.Codestream(r, c.m, c.frames, false) }, try)
	es.note(t)
	if !t.Failed() {
		t.Count("samples", n)
	}
}
