package checks

import (
	"math"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/util"
)

func init() {
	rt.Register(&rt.Check{ID: "P24", Quick: 20000, Thorough: 100000, Batch: 50,
		Rule: "random blocks (noise, impulses at every kind of position, ramps, large dynamic range) of every power-of-two shape up to 256x256 at random positions in larger buffers, through the inverse transform in both output orders and the forward transform, in place and not, compared with a double-precision evaluation of the defining sums; round trips in both directions; writes outside the destination region are detected by guard values; non-trivial when the block has more than one sample",
		Need: []string{"inverse", "inverse_transposed", "forward", "roundtrip", "guards", "in_place", "nonsquare"},
		Run:  p24})
}

// refIDCT evaluates out[y][x] = sum of in[v][u]*cy(v,y)*cx(u,x), with c(0,.)=1 and c(k,n)=sqrt(2)cos(pi k (n+1/2)/N).
func dctBasis(n int) [][]float64 {
	b := make([][]float64, n)
	for k := range b {
		b[k] = make([]float64, n)
		for x := range b[k] {
			b[k][x] = 1
			if k > 0 {
				b[k][x] = math.Sqrt2 * math.Cos(math.Pi*float64(k)*(float64(x)+0.5)/float64(n))
			}
		}
	}
	return b
}

func refIDCT(in [][]float64, h, w int) [][]float64 {
	by, bx := dctBasis(h), dctBasis(w)
	tmp := mat(h, w)
	for v := 0; v < h; v++ {
		for u := 0; u < w; u++ {
			if c := in[v][u]; c != 0 {
				for x := 0; x < w; x++ {
					tmp[v][x] += c * bx[u][x]
				}
			}
		}
	}
	out := mat(h, w)
	for v := 0; v < h; v++ {
		for y := 0; y < h; y++ {
			c := by[v][y]
			for x := 0; x < w; x++ {
				out[y][x] += tmp[v][x] * c
			}
		}
	}
	return out
}

func refDCT(in [][]float64, h, w int) [][]float64 {
	by, bx := dctBasis(h), dctBasis(w)
	tmp := mat(h, w)
	for y := 0; y < h; y++ {
		for u := 0; u < w; u++ {
			s := 0.0
			for x := 0; x < w; x++ {
				s += in[y][x] * bx[u][x]
			}
			tmp[y][u] = s / float64(w)
		}
	}
	out := mat(h, w)
	for v := 0; v < h; v++ {
		for y := 0; y < h; y++ {
			c := by[v][y] / float64(h)
			for u := 0; u < w; u++ {
				out[v][u] += tmp[y][u] * c
			}
		}
	}
	return out
}

func mat(h, w int) [][]float64 {
	m := make([][]float64, h)
	for i := range m {
		m[i] = make([]float64, w)
	}
	return m
}

func fmat(h, w int, v float32) [][]float32 {
	m := make([][]float32, h)
	for i := range m {
		m[i] = make([]float32, w)
		for j := range m[i] {
			m[i][j] = v
		}
	}
	return m
}

func p24(t *rt.T) {
	r := t.R
	lg := func() int {
		if t.Index%40 == 0 {
			return r.R(5, 8)
		}
		return r.Pick(0, 1, 2, 3, 3, 3, 4, 4, 5, 6)
	}
	h, w := 1<<uint(lg()), 1<<uint(lg())
	if h != w {
		t.Count("nonsquare", 1)
	}
	x0, y0 := r.N(20), r.N(20)
	X0, Y0 := r.N(20), r.N(20)
	in := mat(h, w)
	sumAbs := 0.0
	scale := math.Pow(10, float64(r.R(-4, 4)))
	kind := r.N(4)
	for y := range in {
		for x := range in[y] {
			v := 0.0
			switch kind {
			case 0:
				v = r.G()
			case 1:
				v = r.G() / float64(1+x*x+y*y)
			case 2:
				v = float64(x) - 0.5*float64(y)
			}
			in[y][x] = float64(float32(v * scale))
		}
	}
	if kind == 3 {
		for k := r.R(1, 4); k > 0; k-- {
			in[r.N(h)][r.N(w)] = float64(float32(r.G() * scale * 10))
		}
	}
	for y := range in {
		for x := range in[y] {
			sumAbs += math.Abs(in[y][x])
		}
	}
	S := max(h, w)
	pad := r.R(0, 5)
	scr := func() [][]float32 { return fmat(S+pad, S+pad, 7777) }
	guard := float32(-98765)
	place := func(H, W int, data [][]float64, ox, oy int) [][]float32 {
		m := fmat(H, W, guard)
		for y := range data {
			for x := range data[y] {
				m[oy+y][ox+x] = float32(data[y][x])
			}
		}
		return m
	}
	BH, BW := 20+S+r.N(6), 20+S+r.N(6)
	src := place(BH, BW, in, x0, y0)
	pt := func(x, y int) util.Point { return util.Point{X: int32(x), Y: int32(y)} }
	dim := util.Dimension{Width: uint32(w), Height: uint32(h)}
	check := func(what string, got [][]float32, ox, oy int, want [][]float64, tol float64) bool {
		H, W := len(want), len(want[0])
		for y := range got {
			for x := range got[y] {
				inside := x >= ox && x < ox+W && y >= oy && y < oy+H
				v := got[y][x]
				if inside {
					if d := math.Abs(float64(v) - want[y-oy][x-ox]); !(d <= tol) {
						t.Failf(what, "%s %dx%d block (kind %d) at %d,%d: sample %d,%d is %v, definition %v (tolerance %v)", what, h, w, kind, ox, oy, x-ox, y-oy, v, want[y-oy][x-ox], tol)
						return false
					}
				} else if v != guard && what != "in-place" {
					t.Failf(what+"-guard", "%s %dx%d block at %d,%d: wrote %v outside it at %d,%d", what, h, w, ox, oy, v, x, y)
					return false
				}
			}
		}
		t.Count("guards", BH*BW-H*W)
		return true
	}
	same := func(what string) bool {
		for y := range in {
			for x := range in[y] {
				if float64(src[y0+y][x0+x]) != in[y][x] {
					t.Failf(what+"-src", "%s %dx%d changed its source at %d,%d", what, h, w, x, y)
					return false
				}
			}
		}
		return true
	}
	// single precision arithmetic with cosines evaluated in single precision (argument up to pi*n)
	eps := (2e-6 + 1.2e-7*float64(S)) * 2
	want := refIDCT(in, h, w)
	dst := fmat(BH, BW, guard)
	if err := util.InverseDCT2D(src, dst, pt(x0, y0), pt(X0, Y0), dim, scr(), scr(), false); err != nil {
		t.Failf("error", "inverse %dx%d: %v", h, w, err)
		return
	}
	t.Count("inverse", 1)
	tol := eps*sumAbs*5 + 1e-30
	if !check("inverse", dst, X0, Y0, want, tol) || !same("inverse") {
		return
	}
	// transposed output
	wt := mat(w, h)
	for y := range want {
		for x := range want[y] {
			wt[x][y] = want[y][x]
		}
	}
	dst = fmat(BH, BW, guard)
	if err := util.InverseDCT2D(src, dst, pt(x0, y0), pt(X0, Y0), dim, scr(), scr(), true); err != nil {
		t.Failf("error", "transposed inverse %dx%d: %v", h, w, err)
		return
	}
	t.Count("inverse_transposed", 1)
	if !check("inverse-transposed", dst, X0, Y0, wt, tol) || !same("inverse-transposed") {
		return
	}
	// forward
	wf := refDCT(in, h, w)
	mx := 0.0
	for y := range in {
		for x := range in[y] {
			mx = max(mx, math.Abs(in[y][x]))
		}
	}
	dst = fmat(BH, BW, guard)
	if err := util.ForwardDCT2D(src, dst, pt(x0, y0), pt(X0, Y0), dim, scr(), scr(), r.Bool()); err != nil {
		t.Failf("error", "forward %dx%d: %v", h, w, err)
		return
	}
	t.Count("forward", 1)
	if !check("forward", dst, X0, Y0, wf, eps*2*mx*2+1e-30) || !same("forward") {
		return
	}
	// round trip both ways
	t.Count("roundtrip", 1)
	back := fmat(BH, BW, guard)
	if err := util.InverseDCT2D(dst, back, pt(X0, Y0), pt(x0, y0), dim, scr(), scr(), false); err != nil {
		t.Failf("error", "inverse after forward %dx%d: %v", h, w, err)
		return
	}
	sf := 0.0
	for y := range wf {
		for x := range wf[y] {
			sf += math.Abs(wf[y][x])
		}
	}
	if !check("roundtrip", back, x0, y0, in, eps*4*(sf+mx*math.Sqrt(float64(h*w)))+1e-30) {
		return
	}
	// in place
	if r.P(0.4) {
		t.Count("in_place", 1)
		if err := util.InverseDCT2D(src, src, pt(x0, y0), pt(x0, y0), dim, scr(), scr(), false); err != nil {
			t.Failf("error", "inverse in place %dx%d: %v", h, w, err)
			return
		}
		if !check("in-place", src, x0, y0, want, tol) {
			return
		}
	}
	_ = jx.BlReplace
	if h*w > 1 {
		t.Key("%dx%d/%d/%g", h, w, kind, scale)
	}
	t.Tag("shape", [2]int{h, w})
	t.Desc("%dx%d block, kind %d, scale %g", h, w, kind, scale)
}
