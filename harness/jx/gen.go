package jx

import "math"

// FillChan fills a channel with one of several kinds of synthetic content within [lo,hi].
func FillChan(r *Rng, c *Chan, lo, hi int64) {
	if c.W == 0 || c.H == 0 {
		return
	}
	rg := hi - lo
	clip := func(v int64) int32 {
		if v < lo {
			v = lo
		}
		if v > hi {
			v = hi
		}
		return int32(v)
	}
	rnd := func() int64 { return lo + int64(r.U64()%uint64(rg+1)) }
	switch r.N(6) {
	case 0: // noise
		for i := range c.D {
			c.D[i] = int32(rnd())
		}
	case 1: // gradient plus small noise
		a, b, n := r.G()*float64(rg)/float64(c.W+c.H), r.G()*float64(rg)/float64(c.W+c.H), r.Pick(0, 1, 4)
		base := float64(rnd())
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				c.Set(x, y, clip(int64(base+a*float64(x)+b*float64(y))+int64(r.R(-n, n))))
			}
		}
	case 2: // flat
		v := int32(rnd())
		for i := range c.D {
			c.D[i] = v
		}
	case 3: // few colours in blocks
		k := r.R(2, 12)
		pal := make([]int32, k)
		for i := range pal {
			pal[i] = int32(rnd())
		}
		bs := r.Pick(1, 2, 5, 16)
		seed := r.U64()
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				c.Set(x, y, pal[NewRng(seed, uint64(x/bs), uint64(y/bs)).N(k)])
			}
		}
	case 4: // waves
		fx, fy, ph := r.F()*0.6, r.F()*0.6, r.F()*6
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				c.Set(x, y, clip(lo+rg/2+int64(float64(rg)/2*math.Sin(fx*float64(x)+fy*float64(y)+ph))))
			}
		}
	case 5: // flat with outliers
		v := int32(rnd())
		for i := range c.D {
			c.D[i] = v
			if r.P(0.02) {
				c.D[i] = int32(rnd())
			}
		}
	}
}

// Corr copies part of one channel into another so that channels correlate.
func Corr(r *Rng, a, b *Chan) {
	if a.W != b.W || a.H != b.H || !r.P(0.5) {
		return
	}
	for i := range b.D {
		b.D[i] = a.D[i] + b.D[i]/16
	}
}

// Codestream is the concatenated header and frames.
func Codestream(r *Rng, m *Meta, frames []*BuiltFrame, perm bool) []byte {
	w := &BitWriter{}
	m.Write(w, r)
	m.HdrBytes = len(w.Bytes())
	for _, f := range frames {
		f.WriteFrame(w, r, m, perm)
	}
	w.Align()
	return w.Bytes()
}
