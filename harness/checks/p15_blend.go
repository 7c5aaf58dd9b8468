package checks

import (
	"fmt"
	"math"

	image2 "github.com/kpfaulkner/jxl-go/image"

	"jxverif/jx"
	"jxverif/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "P15", Quick: 2400, Thorough: 16000, Batch: 20,
		Rule: "random still images made of 2 to 6 frames (regular, skip-progressive and reference-only; whole, cropped, hanging over every edge or outside the image; grey or RGB, 0 to 3 extra channels, straight and premultiplied alpha, integer and floating point samples), every frame with its own blend mode, alpha channel, clamping, source and reference slot per channel; every delivered sample is compared with the composition computed in double precision from the coded samples; non-trivial when some sample of the result depends on a reference slot",
		Need: []string{"samples", "mode_replace", "mode_add", "mode_blend", "mode_muladd", "mode_mul", "crop", "outside", "reference_only", "premultiplied", "straight", "clamp", "empty_slot", "transparent", "lossy_frames", "long"},
		Run:  p15})
}

// plane is a channel of the model: values and error bounds.
type plane struct{ v, t [][]float64 }

func zeroPlane(w, h int) plane { return plane{mat(h, w), mat(h, w)} }

// codedPlane gives the samples of a coded channel at the size of its frame.
func codedPlane(ch *jx.Chan, m *jx.Meta, bd jx.BitDepth, k, W, H int) plane {
	in := mat(ch.H, ch.W)
	scale := float64(uint64(1)<<uint(bd.Bits) - 1)
	for y := range in {
		for x := range in[y] {
			if c := ch.At(x, y); bd.Float {
				in[y][x] = floatSample(bd, c)
			} else {
				in[y][x] = float64(c) / scale
			}
		}
	}
	p := zeroPlane(W, H)
	if k == 1 {
		for y := 0; y < H; y++ {
			for x := 0; x < W; x++ {
				p.v[y][x] = in[y][x]
				p.t[y][x] = 2e-7 * math.Abs(in[y][x])
			}
		}
		return p
	}
	v, _, ar := upsample(in, nil, k, upWeights(m, k), W, H)
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			p.v[y][x], p.t[y][x] = v[y][x], 2e-6*ar[y][x]
		}
	}
	return p
}

func clamp01(v float64) float64 { return math.Min(math.Max(v, 0), 1) }

// blendSample composes one sample: background b and foreground f with their alphas, as specified.
func blendSample(mode int, clamp, self, haveAlpha, premult bool, b, f, ba, fa [2]float64) (float64, float64) {
	const e = 4e-7
	switch mode {
	case jx.BlReplace:
		return f[0], f[1]
	case jx.BlAdd:
		return b[0] + f[0], b[1] + f[1] + e*(math.Abs(b[0])+math.Abs(f[0]))
	case jx.BlMul:
		if clamp {
			f[0] = clamp01(f[0])
		}
		return b[0] * f[0], math.Abs(b[0])*f[1] + math.Abs(f[0])*b[1] + e*math.Abs(b[0]*f[0])
	case jx.BlMulAdd:
		if self {
			return b[0], b[1]
		}
		if !haveAlpha {
			return blendSample(jx.BlAdd, false, false, false, false, b, f, ba, fa)
		}
		if clamp {
			fa[0] = clamp01(fa[0])
		}
		return b[0] + fa[0]*f[0], b[1] + math.Abs(fa[0])*f[1] + math.Abs(f[0])*fa[1] + e*(math.Abs(b[0])+math.Abs(fa[0]*f[0]))
	}
	if !haveAlpha {
		return f[0], f[1]
	}
	if clamp {
		fa[0] = clamp01(fa[0])
	}
	na := 1 - (1-fa[0])*(1-ba[0])
	nt := math.Abs(1-ba[0])*fa[1] + math.Abs(1-fa[0])*ba[1] + e*(1+math.Abs(fa[0])+math.Abs(ba[0])+math.Abs(fa[0]*ba[0]))
	if fa[0] == 0 && fa[1] == 0 && ba[0] == 0 && ba[1] == 0 {
		na, nt = 0, 0
	}
	if self {
		return na, nt
	}
	if premult {
		return f[0] + b[0]*(1-fa[0]), f[1] + math.Abs(1-fa[0])*b[1] + math.Abs(b[0])*fa[1] + e*(math.Abs(f[0])+math.Abs(b[0])*(1+math.Abs(fa[0])))
	}
	if na == 0 && nt == 0 {
		return 0, 0
	}
	if na < 20*nt {
		return 0, math.Inf(1) // what is left of nearly nothing
	}
	k := ba[0] * (1 - fa[0])
	kt := math.Abs(1-fa[0])*ba[1] + math.Abs(ba[0])*fa[1] + e*(math.Abs(ba[0])+math.Abs(ba[0]*fa[0]))
	num := f[0]*fa[0] + b[0]*k
	out := num / na
	tn := math.Abs(f[0])*fa[1] + math.Abs(fa[0])*f[1] + math.Abs(b[0])*kt + math.Abs(k)*b[1] + e*(math.Abs(f[0]*fa[0])+math.Abs(b[0]*k))
	return out, (tn+math.Abs(out)*nt)/(na-nt) + e*math.Abs(out)
}

func p15Depth(r *jx.Rng) jx.BitDepth {
	switch r.N(6) {
	case 0:
		return jx.BitDepth{Bits: r.R(1, 16)}
	case 1:
		return jx.BitDepth{Float: true, Bits: 16, Exp: 5}
	case 2:
		return jx.BitDepth{Float: true, Bits: 32, Exp: 8}
	}
	return jx.BitDepth{Bits: r.Pick(8, 8, 8, 10, 12, 16)}
}

// fillBlend fills a channel; unless tame, some samples leave the nominal range.
func fillBlend(r *jx.Rng, c *jx.Chan, bd jx.BitDepth, tame, alpha bool) {
	if bd.Float {
		mb := uint(bd.Bits - bd.Exp - 1)
		bias := int64(1)<<uint(bd.Exp-1) - 1
		lo, hi := (bias-10)<<mb, bias<<mb
		if !tame {
			hi = (bias+2)<<mb - 1
		}
		jx.FillChan(r, c, lo, hi)
		for i := range c.D {
			if !tame && r.P(0.3) {
				c.D[i] = int32(uint32(c.D[i]) | 1<<uint(bd.Bits-1))
			}
		}
	} else {
		mx := int64(1)<<uint(bd.Bits) - 1
		lo, hi := int64(0), mx
		if !tame {
			lo, hi = -(mx+1)/2, mx+(mx+1)/2
		}
		jx.FillChan(r, c, lo, hi)
	}
	if alpha && r.P(0.7) { // areas without anything and solid areas
		one := int32(1)<<uint(bd.Bits) - 1
		if bd.Float {
			one = int32((int64(1)<<uint(bd.Exp-1) - 1) << uint(bd.Bits-bd.Exp-1))
		}
		p := r.F()
		for i := range c.D {
			if r.P(p) {
				c.D[i] = one * int32(r.N(2))
			}
		}
	}
}

func p15(t *rt.T) {
	r := t.R
	W, H := r.R(1, 48), r.R(1, 48)
	big := t.Index%16 == 7
	if big {
		W, H = r.R(130, 300), r.R(20, 160)
	}
	long := t.Index%32 == 13 // origins and sizes that need the long codes
	if long {
		t.Count("long", 1)
		W, H = r.Pick(r.R(300, 1500), r.R(1500, 10000), r.R(10000, 22000)), r.R(1, 3)
		if r.Bool() {
			W, H = H, W
		}
	}
	m := &jx.Meta{W: W, H: H, BD: p15Depth(r), CE: jx.SRGBEnc(), XformDef: true}
	lossy := t.Index%6 == 2 && !long
	if lossy {
		m.BD = jx.BitDepth{Bits: r.Pick(8, 10, 12)}
		m.XYB = r.P(0.3)
	} else if r.P(0.3) {
		m.CE = jx.GrayEnc()
	}
	nec := r.Pick(0, 1, 1, 1, 2, 3)
	for i := 0; i < nec; i++ {
		e := jx.ExtraCh{Type: r.Pick(jx.ECAlpha, jx.ECAlpha, jx.ECAlpha, jx.ECDepth, jx.ECSel, jx.ECOpt), BD: m.BD, Premult: r.Bool(), DimShift: r.Pick(0, 0, 0, 0, 1)}
		if r.P(0.4) {
			e.BD = p15Depth(r)
		}
		m.EC = append(m.EC, e)
	}
	var alphas []int
	for i, e := range m.EC {
		if e.Type == jx.ECAlpha {
			alphas = append(alphas, i)
		}
	}
	nc := m.NColor()
	depthOf := func(k int) jx.BitDepth {
		if k < nc {
			return m.BD
		}
		return m.EC[k-nc].BD
	}
	var slots [4][]plane
	var barred [4]bool // saved before the colour transform: not to be blended with
	uses := [4]bool{}
	n := r.R(2, 6)
	if big || long {
		n = r.R(2, 3)
	}
	var frames []*jx.BuiltFrame
	var out []plane
	desc := ""
	for fi := 0; fi < n; fi++ {
		last := fi == n-1
		f := &jx.FrameHdr{Modular: true, IsLast: last, RF: jx.NoRF(), Up: r.Pick(1, 1, 1, 1, 1, 1, 2, 4), GroupShift: r.N(4)}
		if big {
			f.GroupShift = 0
		}
		f.Type = r.Pick(jx.FrRegular, jx.FrRegular, jx.FrRegular, jx.FrSkip)
		if !last && r.P(0.2) {
			f.Type = jx.FrRef
		}
		for _, e := range m.EC {
			u := f.Up
			if e.DimShift > 0 && u > 1 && r.Bool() {
				u /= 2
			}
			f.EcUp = append(f.EcUp, u)
		}
		if f.Type != jx.FrRef && (long || r.P(0.6)) {
			f.Crop = true
			f.W, f.H = r.R(1, W+W/2), r.R(1, H+H/2)
			if r.P(0.08) { // nothing of it is seen
				f.X0, f.Y0 = r.Pick(-f.W-r.N(9), W+r.N(9), -f.W), r.R(-f.H, H)
				if r.Bool() {
					f.X0, f.Y0 = r.R(-f.W, W), r.Pick(-f.H-r.N(9), H+r.N(9), -f.H, H)
				}
			} else {
				f.X0, f.Y0 = r.R(1-f.W, W-1), r.R(1-f.H, H-1)
			}
			if r.P(0.2) { // covers everything
				f.X0, f.Y0 = -r.N(5), -r.N(5)
				f.W, f.H = W-f.X0+r.N(5), H-f.Y0+r.N(5)
			}
		}
		full := f.Full(m)
		source := func() int {
			for {
				if s := r.N(4); !barred[s] {
					return s
				}
			}
		}
		// blending
		f.EcBlend = make([]jx.BlendInfo, nec)
		self := make([]bool, nec) // alpha channels that have to stay within the nominal range
		if f.Type != jx.FrRef {
			b := jx.BlendInfo{Mode: r.Pick(jx.BlReplace, jx.BlAdd, jx.BlBlend, jx.BlBlend, jx.BlMulAdd, jx.BlMul), Clamp: r.Bool(), Source: source()}
			if len(alphas) > 0 {
				b.Alpha = alphas[r.N(len(alphas))]
			}
			f.Blend = b
			for i := range f.EcBlend {
				e := jx.BlendInfo{Mode: r.Pick(jx.BlReplace, jx.BlAdd, jx.BlMul), Clamp: r.Bool(), Source: source()}
				if r.P(0.6) {
					e.Source = b.Source
				}
				if len(alphas) > 0 && r.P(0.5) {
					e.Mode = r.Pick(jx.BlBlend, jx.BlMulAdd)
					e.Alpha = alphas[r.N(len(alphas))]
				}
				if b.Mode == jx.BlBlend && len(alphas) > 0 && i == b.Alpha {
					e = b
				}
				f.EcBlend[i] = e
			}
			if m.XYB { // mixing depends on the colour space of the output
				f.Blend.Mode = jx.BlReplace
			}
			for i, e := range f.EcBlend {
				if e.Mode == jx.BlBlend && e.Alpha == i {
					self[i] = true
				}
			}
			// what is not coded
			for i := -1; i < nec; i++ {
				p := &f.Blend
				if i >= 0 {
					p = &f.EcBlend[i]
				}
				if p.Mode == jx.BlReplace && full {
					p.Source = 0
				}
				if al := p.Mode == jx.BlBlend || p.Mode == jx.BlMulAdd; !(al && nec > 0 || p.Mode == jx.BlMul) {
					p.Clamp = false
				}
			}
		}
		if !last {
			f.SaveRef = r.N(4)
			if f.Type == jx.FrRef || full && f.Blend.Mode == jx.BlReplace {
				nb := 0
				for _, b := range barred {
					if b {
						nb++
					}
				}
				f.SaveBeforeCT = r.P(0.2) && nb < 2
			}
		}
		f.Pass = jx.RandPasses(r)
		if f.Type == jx.FrRef {
			f.Pass = jx.PassSpec{Num: 1}
		}
		o := jx.ModOpts{Trans: jx.TransformOpts{Kinds: []int{jx.TrRCT, jx.TrPalette, jx.TrSqueeze}, Max: r.R(0, 1)}}
		depthOpts(r, m, &o)
		ch := jx.CodedSizes(m, f)
		wild := r.P(0.4)
		if wild && o.FixedPred > 0 { // negative 32-bit floating point samples are far from positive ones
			o.FixedPred = 0
		}
		for k, c := range ch {
			al := k >= nc && m.EC[k-nc].Type == jx.ECAlpha
			tame := !wild || al && self[k-nc] || al && f.Blend.Mode == jx.BlBlend && !m.EC[k-nc].Premult
			fillBlend(r, c, depthOf(k), tame, al)
		}
		var bf *jx.BuiltFrame
		var vc *vdctCase
		var coded []*jx.Chan
		if lossy && (m.XYB || r.P(0.6)) {
			t.Count("lossy_frames", 1)
			f.Modular = false
			f.GroupShift = 0
			f.Xqm, f.Bqm = 2, 2
			f.Flags |= 128
			if !m.XYB && r.P(0.3) {
				f.YCbCr = true
				f.JpegUp = [][3]int{{0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {0, 0, 0}}[r.N(4)]
			}
			vc = &vdctCase{m: m, f: f, o: jx.VOpts{Mod: o, MaxBlock: 8}}
			vc.b = jx.BuildVarDCT(r, m, f, ch[nc:], vc.o)
			bf = &vc.b.BuiltFrame
			coded = append(make([]*jx.Chan, 3), vc.b.EC...)
		} else {
			bf = jx.BuildModFrame(r, m, f, ch, o)
			coded = bf.Chans
		}
		frames = append(frames, bf)

		// the model
		fw, fh := f.Size(m)
		fp := make([]plane, len(coded))
		if vc != nil {
			v, tol := vc.expect(vc.b.P)
			for k := range v {
				fp[k] = plane{v[k], tol[k]}
				for y := range tol[k] {
					for x := range tol[k][y] {
						tol[k][y][x] = p17Tol * (tol[k][y][x] + 0.01)
					}
				}
			}
		}
		for k, c := range coded {
			if c == nil {
				continue
			}
			d := f.Up
			if k >= nc {
				d = f.EcUp[k-nc] << uint(m.EC[k-nc].DimShift)
			}
			fp[k] = codedPlane(c, m, depthOf(k), d, fw, fh)
		}
		desc += fmt.Sprintf(" [type %d", f.Type)
		if f.Crop {
			desc += fmt.Sprintf(" %dx%d%+d%+d", f.W, f.H, f.X0, f.Y0)
			t.Count("crop", 1)
		}
		if f.Type != jx.FrRef {
			desc += fmt.Sprintf(" blend %+v extra %+v", f.Blend, f.EcBlend)
		}
		desc += fmt.Sprintf(" up %d/%v save %d early %v]", f.Up, f.EcUp, f.SaveRef, f.SaveBeforeCT)
		if f.Type == jx.FrRef {
			t.Count("reference_only", 1)
			slots[f.SaveRef], barred[f.SaveRef] = fp, f.SaveBeforeCT
			continue
		}
		out = make([]plane, len(fp))
		for k := range fp {
			bi := f.Blend
			if k >= nc {
				bi = f.EcBlend[k-nc]
			}
			bg := slots[bi.Source]
			if bg == nil {
				bg = make([]plane, len(fp))
				for i := range bg {
					bg[i] = zeroPlane(W, H)
				}
				if bi.Mode != jx.BlReplace || !full {
					t.Count("empty_slot", 1)
				}
			} else if bi.Mode != jx.BlReplace || !full {
				uses[bi.Source] = true
			}
			have := len(alphas) > 0
			premult := have && m.EC[bi.Alpha].Premult
			o := zeroPlane(W, H)
			t.Count("mode_"+[]string{"replace", "add", "blend", "muladd", "mul"}[bi.Mode], 1)
			if bi.Clamp {
				t.Count("clamp", 1)
			}
			if have && bi.Mode == jx.BlBlend && k < nc {
				if premult {
					t.Count("premultiplied", 1)
				} else {
					t.Count("straight", 1)
				}
			}
			seen, clear := 0, 0
			for y := 0; y < H; y++ {
				for x := 0; x < W; x++ {
					b := [2]float64{bg[k].v[y][x], bg[k].t[y][x]}
					fx, fy := x-f.X0, y-f.Y0
					if !f.Crop {
						fx, fy = x, y
					}
					if fx < 0 || fy < 0 || fx >= fw || fy >= fh {
						o.v[y][x], o.t[y][x] = b[0], b[1]
						continue
					}
					seen++
					g := [2]float64{fp[k].v[fy][fx], fp[k].t[fy][fx]}
					var ba, fa [2]float64
					if have {
						a := nc + bi.Alpha
						ba = [2]float64{bg[a].v[y][x], bg[a].t[y][x]}
						fa = [2]float64{fp[a].v[fy][fx], fp[a].t[fy][fx]}
						if bi.Mode == jx.BlBlend && fa == [2]float64{} && ba == [2]float64{} {
							clear++
						}
					}
					o.v[y][x], o.t[y][x] = blendSample(bi.Mode, bi.Clamp, have && k == nc+bi.Alpha, have, premult, b, g, ba, fa)
				}
			}
			if seen == 0 {
				t.Count("outside", 1)
			}
			if clear > 0 {
				t.Count("transparent", 1)
			}
			out[k] = o
		}
		if !last {
			slots[f.SaveRef], barred[f.SaveRef] = out, f.SaveBeforeCT
			if f.SaveBeforeCT {
				slots[f.SaveRef] = nil
			}
		}
	}
	t.Desc("%dx%d, %d colour channels of %+v, extra %+v, frames%s", W, H, nc, m.BD, m.EC, desc)
	t.Key("%s", desc)
	for _, u := range uses {
		if u {
			t.Count("composed", 1)
			break
		}
	}
	img, err := decode(jx.Codestream(r, m, frames, r.P(0.2)), nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	if len(img.Buffer) != len(out) {
		t.Failf("channels", "decoded %d channels, specified %d", len(img.Buffer), len(out))
		return
	}
	for k := range out {
		if s := comparePlane(&img.Buffer[k], out[k], depthOf(k)); s != "" {
			t.Failf("sample", "channel %d: %s", k, s)
			return
		}
		t.Count("samples", W*H)
	}
}

func hasFloat(m *jx.Meta) bool {
	for _, e := range m.EC {
		if e.BD.Float {
			return true
		}
	}
	return m.BD.Float
}

func comparePlane(p *image2.ImageBuffer, w plane, bd jx.BitDepth) string {
	H, W := len(w.v), len(w.v[0])
	if int(p.Width) != W || int(p.Height) != H {
		return fmt.Sprintf("decoded as %dx%d, specified %dx%d", p.Width, p.Height, W, H)
	}
	if s := shapeErr(p); s != "" {
		return s
	}
	scale := float64(uint64(1)<<uint(bd.Bits) - 1)
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			g := planeAt(p, x, y)
			if p.BufferType == image2.TYPE_INT {
				g /= scale
			}
			if math.IsNaN(w.t[y][x]) || math.IsInf(w.t[y][x], 1) { // what is left of nearly nothing
				continue
			}
			if d := math.Abs(g - w.v[y][x]); !(d <= w.t[y][x]+1e-7*math.Abs(w.v[y][x])+1e-12) {
				return fmt.Sprintf("(%d,%d) decoded %.8g, specified %.8g (off by %.3g, allowed %.3g)", x, y, g, w.v[y][x], d, w.t[y][x])
			}
		}
	}
	return ""
}
