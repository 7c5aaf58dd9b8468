package checks

import (
	"fmt"
	"math"

	image2 "github.com/kpfaulkner/jxl-go/image"

	"jxverif/jx"
)

// floatSample is the value of a floating point sample stored as the bits v.
func floatSample(bd jx.BitDepth, v int32) float64 {
	mb := uint(bd.Bits - bd.Exp - 1)
	u := uint32(v)
	m := float64(u & (1<<mb - 1))
	e := int(u>>mb) & (1<<uint(bd.Exp) - 1)
	bias := 1<<uint(bd.Exp-1) - 1
	x := math.Ldexp(m, 1-bias-int(mb))
	if e > 0 {
		x = math.Ldexp(1+m/float64(uint64(1)<<mb), e-bias)
	}
	if u>>uint(bd.Bits-1)&1 == 1 {
		x = -x
	}
	return x
}

// fillDepth fills a channel with samples valid at a depth.
func fillDepth(r *jx.Rng, c *jx.Chan, bd jx.BitDepth, wide bool) {
	if !bd.Float {
		jx.FillChan(r, c, 0, int64(1)<<uint(bd.Bits)-1)
		return
	}
	mb := uint(bd.Bits - bd.Exp - 1)
	top := int64(1)<<uint(bd.Exp) - 2 // largest exponent of a finite number
	bias := int64(1)<<uint(bd.Exp-1) - 1
	lo, hi := int64(0), (top+1)<<mb-1
	switch {
	case r.P(0.4): // between 0 and 1
		hi = bias << mb
	case bd.Bits == 32 && !wide:
		lo, hi = (bias-14)<<mb, bias<<mb
	}
	jx.FillChan(r, c, lo, hi)
	if (bd.Bits < 32 || wide) && r.P(0.4) { // some negative
		for i := range c.D {
			if r.P(0.3) {
				c.D[i] = int32(uint32(c.D[i]) | 1<<uint(bd.Bits-1))
			}
		}
	}
}

// upKernel gives the weights of output phase (ky,kx) of a factor k from the coded half kernel.
func upKernel(w []float64, k, ky, kx, iy, ix int) float64 {
	h := k / 2
	if ky >= h {
		ky, iy = k-1-ky, 4-iy
	}
	if kx >= h {
		kx, ix = k-1-kx, 4-ix
	}
	j, i := iy+5*ky, ix+5*kx
	y, x := min(i, j), max(i, j)
	return w[5*h*y-y*(y-1)/2+x-y]
}

func mirror(i, n int) int {
	for i < 0 || i >= n {
		if i < 0 {
			i = -1 - i
		} else {
			i = 2*n - 1 - i
		}
	}
	return i
}

func upWeights(m *jx.Meta, k int) []float64 {
	w := map[int][]float64{2: m.Up2, 4: m.Up4, 8: m.Up8}[k]
	if w == nil || m.XformDef {
		w = map[int][]float64{2: jx.DefaultUp2, 4: jx.DefaultUp4, 8: jx.DefaultUp8}[k]
	}
	return w
}

// upsample enlarges a plane by k and cuts it to W x H. The second plane holds error bounds of the
// samples on input and of the result on output, apart from the arithmetic of the enlarging, which is the third.
func upsample(p, tol [][]float64, k int, w []float64, W, H int) (v, tv, ar [][]float64) {
	v, tv, ar = mat(H, W), mat(H, W), mat(H, W)
	ph, pw := len(p), len(p[0])
	ker := make([][25]float64, k*k)
	for ky := 0; ky < k; ky++ {
		for kx := 0; kx < k; kx++ {
			for i := 0; i < 25; i++ {
				ker[ky*k+kx][i] = upKernel(w, k, ky, kx, i/5, i%5)
			}
		}
	}
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			kr := &ker[y%k*k+x%k]
			lo, hi, s, a, e, mt := math.Inf(1), math.Inf(-1), 0.0, 0.0, 0.0, 0.0
			for i := 0; i < 25; i++ {
				yy, xx := mirror(y/k+i/5-2, ph), mirror(x/k+i%5-2, pw)
				q := p[yy][xx]
				lo, hi = math.Min(lo, q), math.Max(hi, q)
				s += kr[i] * q
				a += math.Abs(kr[i] * q)
				if tol != nil {
					e += math.Abs(kr[i]) * tol[yy][xx]
					mt = math.Max(mt, tol[yy][xx])
				}
			}
			v[y][x] = math.Min(math.Max(s, lo), hi)
			tv[y][x] = math.Max(e, mt)
			ar[y][x] = a + math.Abs(v[y][x])
		}
	}
	return
}

// compareChan compares a delivered channel with what was coded for it at depth bd and enlarged k times.
func compareChan(p *image2.ImageBuffer, ch *jx.Chan, m *jx.Meta, bd jx.BitDepth, k, W, H int) string {
	if int(p.Width) != W || int(p.Height) != H {
		return fmt.Sprintf("decoded as %dx%d, specified %dx%d", p.Width, p.Height, W, H)
	}
	if s := shapeErr(p); s != "" {
		return s
	}
	scale := float64(uint64(1)<<uint(bd.Bits) - 1)
	val := func(v int32) float64 {
		if bd.Float {
			return floatSample(bd, v)
		}
		return float64(v) / scale
	}
	if k == 1 {
		for y := 0; y < H; y++ {
			for x := 0; x < W; x++ {
				c := ch.At(x, y)
				if bd.Float {
					if p.BufferType != image2.TYPE_FLOAT {
						return "floating point samples delivered as integers"
					}
					if g := p.FloatBuffer[y][x]; g != float32(val(c)) {
						return fmt.Sprintf("(%d,%d) decoded %g, coded %g (bits %#x)", x, y, g, val(c), uint32(c))
					}
				} else if g := sampleInt(p, x, y, bd.Bits); g != int64(c) {
					return fmt.Sprintf("(%d,%d) decoded %d, coded %d", x, y, g, c)
				}
			}
		}
		return ""
	}
	in := mat(ch.H, ch.W)
	for y := range in {
		for x := range in[y] {
			in[y][x] = val(ch.At(x, y))
		}
	}
	v, _, ar := upsample(in, nil, k, upWeights(m, k), W, H)
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			if ar[y][x] > 1e37 { // close to the end of single precision
				continue
			}
			g := planeAt(p, x, y)
			if p.BufferType == image2.TYPE_INT {
				g /= scale
			}
			if d := math.Abs(g - v[y][x]); !(d <= 2e-6*ar[y][x]+1e-30) {
				return fmt.Sprintf("(%d,%d) enlarged %d times decoded %.8g, specified %.8g (off by %.3g)", x, y, k, g, v[y][x], d)
			}
		}
	}
	return ""
}
