package jx

import (
	"math"
	"slices"
)

// Lossy (VarDCT) frames: a random-coefficient encoder and a double-precision reference reconstruction.

type vtrans struct {
	H, W   int // in blocks
	Param  int
	Order  int
	Method int
}

const (
	mDCT = iota
	mDCT2
	mDCT4
	mHorn
	mDCT84
	mDCT48
	mAFV
)

var vtypes = [27]vtrans{
	{1, 1, 0, 0, mDCT}, {1, 1, 1, 1, mHorn}, {1, 1, 2, 1, mDCT2}, {1, 1, 3, 1, mDCT4},
	{2, 2, 4, 2, mDCT}, {4, 4, 5, 3, mDCT}, {2, 1, 6, 4, mDCT}, {1, 2, 6, 4, mDCT},
	{4, 1, 7, 5, mDCT}, {1, 4, 7, 5, mDCT}, {4, 2, 8, 6, mDCT}, {2, 4, 8, 6, mDCT},
	{1, 1, 9, 1, mDCT48}, {1, 1, 9, 1, mDCT84},
	{1, 1, 10, 1, mAFV}, {1, 1, 10, 1, mAFV}, {1, 1, 10, 1, mAFV}, {1, 1, 10, 1, mAFV},
	{8, 8, 11, 7, mDCT}, {8, 4, 12, 8, mDCT}, {4, 8, 12, 8, mDCT},
	{16, 16, 13, 9, mDCT}, {16, 8, 14, 10, mDCT}, {8, 16, 14, 10, mDCT},
	{32, 32, 15, 11, mDCT}, {32, 16, 16, 12, mDCT}, {16, 32, 16, 12, mDCT},
}

// sizes of the coefficient orders and of the quantisation tables, blocks, short side first
var orderDim = [13][2]int{{1, 1}, {1, 1}, {2, 2}, {4, 4}, {1, 2}, {1, 4}, {2, 4}, {8, 8}, {4, 8}, {16, 16}, {8, 16}, {32, 32}, {16, 32}}
var paramDim = [17][2]int{{1, 1}, {1, 1}, {1, 1}, {1, 1}, {2, 2}, {4, 4}, {1, 2}, {1, 4}, {2, 4}, {1, 1}, {1, 1}, {8, 8}, {4, 8}, {16, 16}, {8, 16}, {32, 32}, {16, 32}}

// VTypeNames names the block transforms.
var VTypeNames = [27]string{"8x8", "hornuss", "2x2", "4x4", "16x16", "32x32", "16x8", "8x16", "32x8", "8x32", "32x16", "16x32", "4x8", "8x4", "afv0", "afv1", "afv2", "afv3", "64x64", "64x32", "32x64", "128x128", "128x64", "64x128", "256x256", "256x128", "128x256"}

// naturalOrder lists coefficient indices (row-major in the wide layout) in coding order.
func naturalOrder(o int) []int32 {
	cy, cx := orderDim[o][0], orderDim[o][1]
	out := make([]int32, cx*cy*64)
	ratio := cx / cy
	xsm, lg := ratio-1, ceilLog2(ratio)
	cur := cx * cy
	put := func(x, y int) {
		if y&xsm != 0 {
			return
		}
		y >>= uint(lg)
		v := 0
		if x < cx && y < cy {
			v = y*cx + x
		} else {
			v = cur
			cur++
		}
		out[v] = int32(y*cx*8 + x)
	}
	for i := 0; i < cx*8; i++ {
		for j := 0; j <= i; j++ {
			x, y := j, i-j
			if i%2 == 1 {
				x, y = y, x
			}
			put(x, y)
		}
	}
	for ip := cx*8 - 1; ip > 0; ip-- {
		i := ip - 1
		for j := 0; j <= i; j++ {
			x, y := cx*8-1-(i-j), cx*8-1-j
			if i%2 == 1 {
				x, y = y, x
			}
			put(x, y)
		}
	}
	return out
}

var coefFreqCtx = [64]int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14,
	15, 15, 16, 16, 17, 17, 18, 18, 19, 19, 20, 20, 21, 21, 22, 22,
	23, 23, 23, 23, 24, 24, 24, 24, 25, 25, 25, 25, 26, 26, 26, 26,
	27, 27, 27, 27, 28, 28, 28, 28, 29, 29, 29, 29, 30, 30, 30, 30}

var coefNzCtx = [64]int{-1, 0, 31, 62, 62, 93, 93, 93, 93, 123, 123, 123, 123, 152, 152,
	152, 152, 152, 152, 152, 152, 180, 180, 180, 180, 180, 180, 180,
	180, 180, 180, 180, 180, 206, 206, 206, 206, 206, 206, 206, 206,
	206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206,
	206, 206, 206, 206, 206, 206, 206, 206, 206, 206}

// QTable is one quantisation table as coded.
type QTable struct {
	Mode int
	P    [3][]float64 // fixed parameters
	D    [3][]float64 // bands
	E    [3][]float64 // second bands (AFV)
	Den  float64
	Raw  *ModStream
}

const (
	qLib = iota
	qHorn
	qDCT2
	qDCT4
	qDCT48
	qAFV
	qDCT
	qRaw
)

func fl(v ...float64) []float64 { return v }

var (
	seqA      = fl(-1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671)
	seqB      = fl(-0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037)
	seqC      = fl(-1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5)
	dct44Def  = [3][]float64{{2200, 0, 0, 0}, {392, 0, 0, 0}, {112, -0.25, -0.25, -0.5}}
	dct48Def  = [3][]float64{{2198.050556016380522, -0.96269623020744692, -0.76194253026666783, -0.6551140670773547}, {764.3655248643528689, -0.92630200888366945, -0.9675229603596517, -0.27845290869168118}, {527.107573587542228, -1.4594385811273854, -1.450082094097871593, -1.5843722511996204}}
	afvFreqs  = [16]float64{0, 0, 0.8517778890324296, 5.37778436506804, 0, 0, 4.734747904497923, 5.449245381693219, 1.6598270267479331, 4, 7.275749096817861, 10.423227632456525, 2.662932286148962, 7.630657783650829, 8.962388608184032, 12.97166202570235}
	defTables = [17]QTable{
		{Mode: qDCT, D: [3][]float64{{3150, 0, -0.4, -0.4, -0.4, -2}, {560, 0, -0.3, -0.3, -0.3, -0.3}, {512, -2, -1, 0, -1, -2}}},
		{Mode: qHorn, P: [3][]float64{{280, 3160, 3160}, {60, 864, 864}, {18, 200, 200}}},
		{Mode: qDCT2, P: [3][]float64{{3840, 2560, 1280, 640, 480, 300}, {960, 640, 320, 180, 140, 120}, {640, 320, 128, 64, 32, 16}}},
		{Mode: qDCT4, D: dct44Def, P: [3][]float64{{1, 1}, {1, 1}, {1, 1}}},
		{Mode: qDCT, D: [3][]float64{{8996.8725711814115328, -1.3000777393353804, -0.49424529824571225, -0.439093774457103443, -0.6350101832695744, -0.90177264050827612, -1.6162099239887414}, {3191.48366296844234752, -0.67424582104194355, -0.80745813428471001, -0.44925837484843441, -0.35865440981033403, -0.31322389111877305, -0.37615025315725483}, {1157.50408145487200256, -2.0531423165804414, -1.4, -0.50687130033378396, -0.42708730624733904, -1.4856834539296244, -4.9209142884401604}}},
		{Mode: qDCT, D: [3][]float64{{15718.40830982518931456, -1.025, -0.98, -0.9012, -0.4, -0.48819395464, -0.421064, -0.27}, {7305.7636810695983104, -0.8041958212306401, -0.7633036457487539, -0.55660379990111464, -0.49785304658857626, -0.43699592683512467, -0.40180866526242109, -0.27321683125358037}, {3803.53173721215041536, -3.060733579805728, -2.0413270132490346, -2.0235650159727417, -0.5495389509954993, -0.4, -0.4, -0.3}}},
		{Mode: qDCT, D: [3][]float64{{7240.7734393502, -0.7, -0.7, -0.2, -0.2, -0.2, -0.5}, {1448.15468787004, -0.5, -0.5, -0.5, -0.2, -0.2, -0.2}, {506.854140754517, -1.4, -0.2, -0.5, -0.5, -1.5, -3.6}}},
		{Mode: qDCT, D: [3][]float64{{16283.2494710648897, -1.7812845336559429, -1.6309059012653515, -1.0382179034313539, -0.85, -0.7, -0.9, -1.2360638576849587}, {5089.15750884921511936, -0.320049391452786891, -0.35362849922161446, -0.30340000000000003, -0.61, -0.5, -0.5, -0.6}, {3397.77603275308720128, -0.321327362693153371, -0.34507619223117997, -0.70340000000000003, -0.9, -1.0, -1.0, -1.1754605576265209}}},
		{Mode: qDCT, D: [3][]float64{{13844.97076442300573, -0.97113799999999995, -0.658, -0.42026, -0.22712, -0.2206, -0.226, -0.6}, {4798.964084220744293, -0.61125308982767057, -0.83770786552491361, -0.79014862079498627, -0.2692727459704829, -0.38272769465388551, -0.22924222653091453, -0.20719098826199578}, {1807.236946760964614, -1.2, -1.2, -0.7, -0.7, -0.7, -0.4, -0.5}}},
		{Mode: qDCT48, D: dct48Def, P: [3][]float64{{1}, {1}, {1}}},
		{Mode: qAFV, D: dct48Def, E: dct44Def, P: [3][]float64{{3072, 3072, 256, 256, 256, 414, 0, 0, 0}, {1024, 1024, 50, 50, 50, 58, 0, 0, 0}, {384, 384, 12, 12, 12, 22, -0.25, -0.25, -0.25}}},
		{Mode: qDCT, D: seqTab(23966.1665298448605, 8380.19148390090414, 4493.02378009847706)},
		{Mode: qDCT, D: seqTab(15358.89804933239925, 5597.360516150652990, 2919.961618960011210)},
		{Mode: qDCT, D: seqTab(47932.3330596897210, 16760.38296780180828, 8986.04756019695412)},
		{Mode: qDCT, D: seqTab(30717.796098664792, 11194.72103230130598, 5839.92323792002242)},
		{Mode: qDCT, D: seqTab(95864.6661193794420, 33520.76593560361656, 17972.09512039390824)},
		{Mode: qDCT, D: seqTab(61435.5921973295970, 24209.44206460261196, 12979.84647584004484)},
	}
)

func seqTab(a, b, c float64) [3][]float64 {
	return [3][]float64{append([]float64{a}, seqA...), append([]float64{b}, seqB...), append([]float64{c}, seqC...)}
}

func bandMul(v float64) float64 {
	if v > 0 {
		return 1 + v
	}
	return 1 / (1 - v)
}

func bandsOf(p []float64) []float64 {
	b := []float64{p[0]}
	for _, v := range p[1:] {
		b = append(b, b[len(b)-1]*bandMul(v))
	}
	return b
}

func interpBand(pos float64, b []float64) float64 {
	if len(b) == 1 {
		return b[0]
	}
	i := int(pos)
	if i+1 > len(b)-1 {
		return b[len(b)-1]
	}
	return b[i] * math.Pow(b[i+1]/b[i], pos-float64(i))
}

func bandTable(rows, cols int, p []float64) []float64 {
	b := bandsOf(p)
	sc := float64(len(b)-1) / (math.Sqrt2 + 1e-6)
	o := make([]float64, rows*cols)
	for y := 0; y < rows; y++ {
		for x := 0; x < cols; x++ {
			dy, dx := float64(y)*sc/float64(rows-1), float64(x)*sc/float64(cols-1)
			o[y*cols+x] = interpBand(math.Sqrt(dx*dx+dy*dy), b)
		}
	}
	return o
}

// multipliers gives the dequantisation multipliers of a table, wide layout.
func (q *QTable) multipliers(idx, c int) []float64 {
	if q.Mode == qLib {
		return defTables[idx].multipliers(idx, c)
	}
	rows, cols := 8*paramDim[idx][0], 8*paramDim[idx][1]
	w := make([]float64, rows*cols)
	set := func(y, x int, v float64) { w[y*8+x] = v }
	switch q.Mode {
	case qDCT:
		w = bandTable(rows, cols, q.D[c])
	case qHorn:
		for i := range w {
			w[i] = q.P[c][0]
		}
		set(0, 1, q.P[c][1])
		set(1, 0, q.P[c][1])
		set(1, 1, q.P[c][2])
	case qDCT2:
		p := q.P[c]
		for y := 0; y < 8; y++ {
			for x := 0; x < 8; x++ {
				m := max(x, y)
				both := func(n int) bool { return x >= n && y >= n }
				switch {
				case m >= 4 && both(4):
					set(y, x, p[5])
				case m >= 4:
					set(y, x, p[4])
				case m >= 2 && both(2):
					set(y, x, p[3])
				case m >= 2:
					set(y, x, p[2])
				case both(1):
					set(y, x, p[1])
				case m == 1:
					set(y, x, p[0])
				default:
					set(y, x, 1)
				}
			}
		}
	case qDCT4:
		b := bandTable(4, 4, q.D[c])
		for y := 0; y < 8; y++ {
			for x := 0; x < 8; x++ {
				set(y, x, b[y/2*4+x/2])
			}
		}
		w[1] /= q.P[c][0]
		w[8] /= q.P[c][0]
		w[9] /= q.P[c][1]
	case qDCT48:
		b := bandTable(4, 8, q.D[c])
		for y := 0; y < 8; y++ {
			for x := 0; x < 8; x++ {
				set(y, x, b[y/2*8+x])
			}
		}
		w[8] /= q.P[c][0]
	case qAFV:
		p := q.P[c]
		b48, b44 := bandTable(4, 8, q.D[c]), bandTable(4, 4, q.E[c])
		bands := bandsOf([]float64{p[5], p[6], p[7], p[8]})
		w[0] = 1
		set(1, 0, p[0])
		set(0, 1, p[1])
		set(2, 0, p[2])
		set(0, 2, p[3])
		set(2, 2, p[4])
		lo, hi := afvFreqs[2], afvFreqs[15]
		for y := 0; y < 4; y++ {
			for x := 0; x < 4; x++ {
				if x < 2 && y < 2 {
					continue
				}
				set(2*y, 2*x, interpBand((afvFreqs[y*4+x]-lo)*3/(hi-lo+1e-6), bands))
			}
		}
		for y := 0; y < 4; y++ {
			for x := 0; x < 8; x++ {
				if x+y > 0 {
					set(2*y+1, x, b48[y*8+x])
				}
			}
			for x := 0; x < 4; x++ {
				if x+y > 0 {
					set(2*y, 2*x+1, b44[y*4+x])
				}
			}
		}
	case qRaw:
		for i := range w {
			w[i] = float64(q.Raw.Img.Ch[c].D[i]) * q.Den
		}
		return w
	}
	for i := range w {
		w[i] = 1 / w[i]
	}
	return w
}

// write emits a table; raw tables also need their modular stream.
func (q *QTable) write(w *BitWriter, p *ModPlan) {
	w.Bits(uint64(q.Mode), 3)
	f := func(t [3][]float64, n64 int) {
		for c := range t {
			for i, v := range t[c] {
				if i < n64 {
					v /= 64
				}
				w.F16(v)
			}
		}
	}
	d := func(t [3][]float64) {
		w.Bits(uint64(len(t[0])-1), 4)
		if fault("band-negative") {
			c := len(t[0]) % 3
			t[c] = append([]float64{-t[c][0]}, t[c][1:]...)
		}
		f(t, 1)
	}
	switch q.Mode {
	case qHorn, qDCT2:
		f(q.P, 9)
	case qDCT4, qDCT48:
		f(q.P, 0)
		d(q.D)
	case qAFV:
		f(q.P, 6)
		d(q.D)
		d(q.E)
	case qDCT:
		d(q.D)
	case qRaw:
		w.F16(q.Den)
		p.WriteStream(w, q.Raw)
	}
}

func randTable(r *Rng, idx int, lay Layout) (q QTable) {
	small := paramDim[idx] == [2]int{1, 1}
	for {
		q.Mode = r.Pick(qLib, qLib, qDCT, qDCT, qHorn, qDCT2, qDCT4, qDCT48, qAFV, qRaw)
		if q.Mode >= qHorn && q.Mode <= qAFV && !small {
			continue
		}
		if q.Mode == qRaw && (paramDim[idx][0] != paramDim[idx][1] || paramDim[idx][0] > 4) {
			continue
		}
		break
	}
	v := func(base float64) float64 { return F16Round(base*(0.3+r.F()*2)/64) * 64 }
	bands := func() (o [3][]float64) {
		n := r.R(1, 16)
		if r.P(0.6) {
			n = r.R(3, 8)
		}
		for c := range o {
			o[c] = []float64{v([]float64{3000, 600, 500}[c])}
			for i := 1; i < n; i++ {
				o[c] = append(o[c], F16Round((r.F()-0.8)*1.2))
			}
		}
		return
	}
	fix := func(n int) (o [3][]float64) {
		for c := range o {
			for i := 0; i < n; i++ {
				o[c] = append(o[c], v([]float64{2000, 400, 300}[c]))
			}
		}
		return
	}
	mult := func(n int) (o [3][]float64) {
		for c := range o {
			for i := 0; i < n; i++ {
				o[c] = append(o[c], F16Round(0.25+r.F()*3))
			}
		}
		return
	}
	defer func() { // channels may well be alike
		if q.Mode == qRaw || !r.P(0.2) {
			return
		}
		b := r.N(3)
		a := (b + r.R(1, 2)) % 3
		for _, p := range []*[3][]float64{&q.P, &q.D, &q.E} {
			p[a] = slices.Clone(p[b])
			if r.P(0.3) {
				p[r.N(3)] = slices.Clone(p[b])
			}
		}
	}()
	switch q.Mode {
	case qHorn:
		q.P = fix(3)
	case qDCT2:
		q.P = fix(6)
	case qDCT4:
		q.P, q.D = mult(2), bands()
	case qDCT48:
		q.P, q.D = mult(1), bands()
	case qAFV:
		q.P = fix(6)
		for c := range q.P {
			for i := 0; i < 3; i++ {
				q.P[c] = append(q.P[c], F16Round((r.F()-0.8)*1.2))
			}
		}
		q.D, q.E = bands(), bands()
	case qDCT:
		q.D = bands()
	case qRaw:
		q.Den = F16Round(1 / (2000 + r.F()*3000))
		img := &ModImg{}
		for c := 0; c < 3; c++ {
			ch := NewChan(8*paramDim[idx][1], 8*paramDim[idx][0])
			FillChan(r, ch, 1, int64(r.Pick(2, 20, 255)))
			img.Ch = append(img.Ch, ch)
		}
		q.Raw = &ModStream{ID: 1 + 3*lay.NLF + idx, Img: img, WP: DefaultWP(), UseGlobal: true, NCoded: 3}
	}
	return q
}

var afvBasis = [16][16]float64{
	{0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25},
	{0.876902929799142, 0.2206518106944235, -0.10140050393753763, -0.1014005039375375, 0.2206518106944236, -0.10140050393753777, -0.10140050393753772, -0.10140050393753763, -0.10140050393753758, -0.10140050393753769, -0.1014005039375375, -0.10140050393753768, -0.10140050393753768, -0.10140050393753759, -0.10140050393753763, -0.10140050393753741},
	{0.0, 0.0, 0.40670075830260755, 0.44444816619734445, 0.0, 0.0, 0.19574399372042936, 0.2929100136981264, -0.40670075830260716, -0.19574399372042872, 0.0, 0.11379074460448091, -0.44444816619734384, -0.29291001369812636, -0.1137907446044814, 0.0},
	{0.0, 0.0, -0.21255748058288748, 0.3085497062849767, 0.0, 0.4706702258572536, -0.1621205195722993, 0.0, -0.21255748058287047, -0.16212051957228327, -0.47067022585725277, -0.1464291867126764, 0.3085497062849487, 0.0, -0.14642918671266536, 0.4251149611657548},
	{0.0, -0.7071067811865474, 0.0, 0.0, 0.7071067811865476, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0},
	{-0.4105377591765233, 0.6235485373547691, -0.06435071657946274, -0.06435071657946266, 0.6235485373547694, -0.06435071657946284, -0.0643507165794628, -0.06435071657946274, -0.06435071657946272, -0.06435071657946279, -0.06435071657946266, -0.06435071657946277, -0.06435071657946277, -0.06435071657946273, -0.06435071657946274, -0.0643507165794626},
	{0.0, 0.0, -0.4517556589999482, 0.15854503551840063, 0.0, -0.04038515160822202, 0.0074182263792423875, 0.39351034269210167, -0.45175565899994635, 0.007418226379244351, 0.1107416575309343, 0.08298163094882051, 0.15854503551839705, 0.3935103426921022, 0.0829816309488214, -0.45175565899994796},
	{0.0, 0.0, -0.304684750724869, 0.5112616136591823, 0.0, 0.0, -0.290480129728998, -0.06578701549142804, 0.304684750724884, 0.2904801297290076, 0.0, -0.23889773523344604, -0.5112616136592012, 0.06578701549142545, 0.23889773523345467, 0.0},
	{0.0, 0.0, 0.3017929516615495, 0.25792362796341184, 0.0, 0.16272340142866204, 0.09520022653475037, 0.0, 0.3017929516615503, 0.09520022653475055, -0.16272340142866173, -0.35312385449816297, 0.25792362796341295, 0.0, -0.3531238544981624, -0.6035859033230976},
	{0.0, 0.0, 0.40824829046386274, 0.0, 0.0, 0.0, 0.0, -0.4082482904638628, -0.4082482904638635, 0.0, 0.0, -0.40824829046386296, 0.0, 0.4082482904638634, 0.408248290463863, 0.0},
	{0.0, 0.0, 0.1747866975480809, 0.0812611176717539, 0.0, 0.0, -0.3675398009862027, -0.307882213957909, -0.17478669754808135, 0.3675398009862011, 0.0, 0.4826689115059883, -0.08126111767175039, 0.30788221395790305, -0.48266891150598584, 0.0},
	{0.0, 0.0, -0.21105601049335784, 0.18567180916109802, 0.0, 0.0, 0.49215859013738733, -0.38525013709251915, 0.21105601049335806, -0.49215859013738905, 0.0, 0.17419412659916217, -0.18567180916109904, 0.3852501370925211, -0.1741941265991621, 0.0},
	{0.0, 0.0, -0.14266084808807264, -0.3416446842253372, 0.0, 0.7367497537172237, 0.24627107722075148, -0.08574019035519306, -0.14266084808807344, 0.24627107722075137, 0.14883399227113567, -0.04768680350229251, -0.3416446842253373, -0.08574019035519267, -0.047686803502292804, -0.14266084808807242},
	{0.0, 0.0, -0.13813540350758585, 0.3302282550303788, 0.0, 0.08755115000587084, -0.07946706605909573, -0.4613374887461511, -0.13813540350758294, -0.07946706605910261, 0.49724647109535086, 0.12538059448563663, 0.3302282550303805, -0.4613374887461554, 0.12538059448564315, -0.13813540350758452},
	{0.0, 0.0, -0.17437602599651067, 0.0702790691196284, 0.0, -0.2921026642334881, 0.3623817333531167, 0.0, -0.1743760259965108, 0.36238173335311646, 0.29210266423348785, -0.4326608024727445, 0.07027906911962818, 0.0, -0.4326608024727457, 0.34875205199302267},
	{0.0, 0.0, 0.11354987314994337, -0.07417504595810355, 0.0, 0.19402893032594343, -0.435190496523228, 0.21918684838857466, 0.11354987314994257, -0.4351904965232251, 0.5550443808910661, -0.25468277124066463, -0.07417504595810233, 0.2191868483885728, -0.25468277124066413, 0.1135498731499429},
}

// VOpts steers the lossy frame builder.
type VOpts struct {
	Mod      ModOpts
	Types    []int   // block transforms used; nil: all
	Amp      float64 // scale of the sample values
	Plain    bool    // simplest syntax
	LF       [3][][]float64
	LFAbs    [3][][]float64 // sizes of the terms the LF samples were summed from, for tolerances
	MaxBlock int            // largest side, blocks
	Dense    float64
	Tables   bool // custom quantisation tables
}

// VBlock is one placed transform.
type VBlock struct{ X, Y, T, Mul int } // block coordinates in the frame

// VFrame is a lossy frame with what it must reconstruct to.
type VFrame struct {
	BuiltFrame
	SX, SY  [3]uint
	BW, BH  int // padded size in blocks
	P       [3][][]float64
	Pinned  [3][][]float64 // the planes with the LF smoothing the unit tests pin, if there is smoothing // reconstructed samples, padded, before upsampling and colour transforms
	Mag     [3][][]float64 // per 8x8 block (channel resolution): sum of coefficient magnitudes
	Blocks  []VBlock
	Info    VInfo
	EC      []*Chan
	LFSteps [3]float64
	GS      int     // global scale
	Sharp   [][]int // sharpness of each 8x8 block
}

// VInfo counts what a frame exercises.
type VInfo struct {
	Types          [27]int
	Coefs, Nonzero int
	Presets        int
	Orders         int
	BlockCtx       bool
	LFCtx          int
	Tables         [8]int
	Smooth         bool
	Smoothed       int // LF samples changed by smoothing
	CfL            bool
	Passes         int
	Subsampled     bool
	XtraPrec       int
	Straddle       int
}

func plane(w, h int) [][]float64 {
	m := make([][]float64, h)
	for i := range m {
		m[i] = make([]float64, w)
	}
	return m
}

func dctTab(n int) [][]float64 {
	b := plane(n, n)
	for k := range b {
		for x := range b[k] {
			b[k][x] = 1
			if k > 0 {
				b[k][x] = math.Sqrt2 * math.Cos(math.Pi*float64(k)*(float64(x)+0.5)/float64(n))
			}
		}
	}
	return b
}

var dctTabs = func() map[int][][]float64 {
	m := map[int][][]float64{}
	for n := 1; n <= 256; n *= 2 {
		m[n] = dctTab(n)
	}
	return m
}()

// idct evaluates out[y][x] = sum in(v,u) cos_v(y) cos_u(x).
func idct(h, w int, in func(v, u int) float64, out [][]float64, oy, ox int) {
	by, bx := dctTabs[h], dctTabs[w]
	tmp := plane(w, h)
	used := make([]bool, h)
	for v := 0; v < h; v++ {
		for u := 0; u < w; u++ {
			if c := in(v, u); c != 0 {
				used[v] = true
				for x, b := range bx[u] {
					tmp[v][x] += c * b
				}
			}
		}
	}
	for y := 0; y < h; y++ {
		o := out[oy+y][ox : ox+w]
		for x := range o {
			o[x] = 0
		}
		for v := 0; v < h; v++ {
			if used[v] {
				c := by[v][y]
				for x, t := range tmp[v] {
					o[x] += c * t
				}
			}
		}
	}
}

// reconstruct turns the coefficients of one block (wide layout) into samples.
func reconstruct(t int, cf []float64, out [][]float64, oy, ox int) {
	v := vtypes[t]
	at := func(y, x int) float64 { return cf[y*8+x] }
	quad := func() [4]float64 {
		a, b, c, d := at(0, 0), at(0, 1), at(1, 0), at(1, 1)
		return [4]float64{a + b + c + d, a + b - c - d, a - b + c - d, a - b - c + d}
	}
	switch v.Method {
	case mDCT:
		h, w := v.H*8, v.W*8
		if h < w {
			idct(h, w, func(y, x int) float64 { return cf[y*w+x] }, out, oy, ox)
		} else {
			idct(h, w, func(y, x int) float64 { return cf[x*h+y] }, out, oy, ox)
		}
	case mHorn:
		dcs := quad()
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				sum := 0.0
				for iy := 0; iy < 4; iy++ {
					for ix := 0; ix < 4; ix++ {
						if ix+iy > 0 {
							sum += at(y+iy*2, x+ix*2)
						}
					}
				}
				mid := dcs[y*2+x] - sum/16
				for iy := 0; iy < 4; iy++ {
					for ix := 0; ix < 4; ix++ {
						s := mid
						switch {
						case ix == 1 && iy == 1:
						case ix == 0 && iy == 0:
							s += at(y+2, x+2)
						default:
							s += at(y+iy*2, x+ix*2)
						}
						out[oy+y*4+iy][ox+x*4+ix] = s
					}
				}
			}
		}
	case mDCT2:
		b := append([]float64(nil), cf...)
		for n := 1; n <= 4; n *= 2 {
			t := append([]float64(nil), b...)
			for y := 0; y < n; y++ {
				for x := 0; x < n; x++ {
					p, q, r, s := b[y*8+x], b[y*8+n+x], b[(y+n)*8+x], b[(y+n)*8+n+x]
					t[y*16+x*2] = p + q + r + s
					t[y*16+x*2+1] = p + q - r - s
					t[y*16+8+x*2] = p - q + r - s
					t[y*16+8+x*2+1] = p - q - r + s
				}
			}
			b = t
		}
		for y := 0; y < 8; y++ {
			copy(out[oy+y][ox:ox+8], b[y*8:y*8+8])
		}
	case mDCT4:
		dcs := quad()
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				idct(4, 4, func(v, u int) float64 {
					if v+u == 0 {
						return dcs[y*2+x]
					}
					return at(y+u*2, x+v*2)
				}, out, oy+y*4, ox+x*4)
			}
		}
	case mDCT84:
		dcs := [2]float64{at(0, 0) + at(1, 0), at(0, 0) - at(1, 0)}
		for x := 0; x < 2; x++ {
			idct(8, 4, func(v, u int) float64 {
				if v+u == 0 {
					return dcs[x]
				}
				return at(x+u*2, v)
			}, out, oy, ox+x*4)
		}
	case mDCT48:
		dcs := [2]float64{at(0, 0) + at(1, 0), at(0, 0) - at(1, 0)}
		for y := 0; y < 2; y++ {
			idct(4, 8, func(v, u int) float64 {
				if v+u == 0 {
					return dcs[y]
				}
				return at(y+v*2, u)
			}, out, oy+y*4, ox)
		}
	case mAFV:
		fx, fy := (t-14)&1, (t-14)/2
		for iy := 0; iy < 4; iy++ {
			for ix := 0; ix < 4; ix++ {
				sy, sx := iy, ix
				if fy == 1 {
					sy = 3 - iy
				}
				if fx == 1 {
					sx = 3 - ix
				}
				s := 0.0
				for j := 0; j < 16; j++ {
					c := at(j/4*2, j%4*2)
					if j == 0 {
						c = (at(0, 0) + at(1, 0) + at(0, 1)) * 4
					}
					s += c * afvBasis[j][sy*4+sx]
				}
				out[oy+fy*4+iy][ox+fx*4+ix] = s
			}
		}
		idct(4, 4, func(v, u int) float64 {
			if v+u == 0 {
				return at(0, 0) + at(1, 0) - at(0, 1)
			}
			return at(u*2, v*2+1)
		}, out, oy+fy*4, ox+4-4*fx)
		idct(4, 8, func(v, u int) float64 {
			if v+u == 0 {
				return at(0, 0) - at(1, 0)
			}
			return at(1+v*2, u)
		}, out, oy+4-4*fy, ox)
	}
}

// lowFreq gives the low-frequency coefficients of a block from its LF samples.
func lowFreq(v vtrans, lf [][]float64, y0, x0 int) [][]float64 {
	by, bx := dctTabs[v.H], dctTabs[v.W]
	o := plane(v.W, v.H)
	sc := func(i, n int) float64 {
		a := math.Pi * float64(i) / float64(8*n)
		return 1 / (math.Cos(a/2) * math.Cos(a) * math.Cos(2*a))
	}
	for j := 0; j < v.H; j++ {
		for i := 0; i < v.W; i++ {
			s := 0.0
			for y := 0; y < v.H; y++ {
				for x := 0; x < v.W; x++ {
					s += lf[y0+y][x0+x] * by[j][y] * bx[i][x]
				}
			}
			o[j][i] = s / float64(v.W*v.H) * sc(j, v.H) * sc(i, v.W)
		}
	}
	return o
}

func smoothLF(lf [3][][]float64, step [3]float64, info *VInfo) [3][][]float64 {
	h, w := len(lf[0]), len(lf[0][0])
	var o [3][][]float64
	for c := range o {
		o[c] = plane(w, h)
		for y := range o[c] {
			copy(o[c][y], lf[c][y])
		}
	}
	const wS, wD, wC = 0.20345139757231578, 0.0334829185968739, 0.05226273532324128
	for y := 1; y < h-1; y++ {
		for x := 1; x < w-1; x++ {
			gap := 0.5
			var sm [3]float64
			for c := range lf {
				p := lf[c]
				sm[c] = wC*p[y][x] + wS*(p[y-1][x]+p[y+1][x]+p[y][x-1]+p[y][x+1]) + wD*(p[y-1][x-1]+p[y-1][x+1]+p[y+1][x-1]+p[y+1][x+1])
				gap = math.Max(gap, math.Abs((p[y][x]-sm[c])/step[c]))
			}
			f := math.Max(0, 3-4*gap)
			if f > 0 {
				info.Smoothed++
			}
			for c := range lf {
				o[c][y][x] = lf[c][y][x] + (sm[c]-lf[c][y][x])*f
			}
		}
	}
	return o
}

// pinnedSmoothLF is the smoothing the unit tests of the repository pin, which differs from the
// specification: it multiplies by the step, blends the other way round and works per LF group.
func pinnedSmoothLF(lf [3][][]float64, step [3]float64) [3][][]float64 {
	h, w := len(lf[0]), len(lf[0][0])
	var o [3][][]float64
	for c := range o {
		o[c] = plane(w, h)
		for y := range o[c] {
			copy(o[c][y], lf[c][y])
		}
	}
	const wS, wD, wC = 0.20345139757231578, 0.0334829185968739, 0.05226273532324128
	for y := 1; y < h-1; y++ {
		for x := 1; x < w-1; x++ {
			if y&255 == 0 || y&255 == 255 || x&255 == 0 || x&255 == 255 {
				continue
			}
			gap := 0.5
			var sm [3]float64
			for c := range lf {
				p := lf[c]
				sm[c] = wC*p[y][x] + wS*(p[y-1][x]+p[y+1][x]+p[y][x-1]+p[y][x+1]) + wD*(p[y-1][x-1]+p[y-1][x+1]+p[y+1][x-1]+p[y+1][x+1])
				gap = math.Max(gap, math.Abs((p[y][x]-sm[c])*step[c]))
			}
			f := math.Max(0, 3-4*gap)
			for c := range lf {
				o[c][y][x] = (lf[c][y][x]-sm[c])*f + sm[c]
			}
		}
	}
	return o
}

// JpegShift converts the three sampling modes to shifts.
func JpegShift(m [3]int) (sx, sy [3]uint) {
	kh, kv := [4]uint{0, 1, 1, 0}, [4]uint{0, 1, 0, 1}
	mh, mv := uint(0), uint(0)
	for _, v := range m {
		mh, mv = max(mh, kh[v]), max(mv, kv[v])
	}
	for c, v := range m {
		sx[c], sy[c] = mh-kh[v], mv-kv[v]
	}
	return
}

var ordDist = [4]D{{0x5F, 0}, {0x13, 0}, {0, 0}, {0, 13}}

// BuildVarDCT encodes a random lossy frame; ec are the extra channels.
func BuildVarDCT(r *Rng, m *Meta, f *FrameHdr, ec []*Chan, o VOpts) *VFrame {
	f.Modular = false
	w, h := f.Dim(m)
	np := max(f.Pass.Num, 1)
	lay := MakeLayout(w, h, 256, np)
	b := &VFrame{}
	b.H, b.Lay = f, lay
	b.Stats.Groups, b.Stats.LFGroups, b.Stats.Passes = lay.NG, lay.NLF, np
	b.Info.Passes = np
	if f.YCbCr {
		b.SX, b.SY = JpegShift(f.JpegUp)
	}
	var mx, my uint
	for c := 0; c < 3; c++ {
		mx, my = max(mx, b.SX[c]), max(my, b.SY[c])
	}
	sub := mx > 0 || my > 0
	b.Info.Subsampled = sub
	b.BW, b.BH = ceilDiv(w, 8<<mx)<<mx, ceilDiv(h, 8<<my)<<my
	useLF := f.Flags&32 != 0
	if o.Amp == 0 {
		o.Amp = 1
	}
	if o.MaxBlock == 0 {
		o.MaxBlock = 32
	}

	// ---- parameters
	lfDeq := [3]float64{1.0 / 4096, 1.0 / 512, 1.0 / 256}
	lfDeqDef := o.Plain || r.P(0.6)
	if !lfDeqDef {
		for c := range lfDeq {
			lfDeq[c] = F16Round(lfDeq[c]*128*(0.3+2*r.F())) / 128
		}
	}
	gs := r.R(1000, 12000)
	if r.P(0.3) {
		gs = r.Pick(r.R(1, 2048), r.R(2049, 4096), r.R(4097, 8192), r.R(8193, 73728))
	}
	b.GS = gs
	for y := 0; y < b.BH; y++ {
		b.Sharp = append(b.Sharp, make([]int, b.BW))
	}
	qlf := r.Pick(16, r.R(1, 32), r.R(1, 256), r.R(1, 2000))
	for c := range lfDeq {
		b.LFSteps[c] = 65536 * lfDeq[c] / float64(gs*qlf)
	}
	type blkCtx struct {
		def  bool
		lf   [3][]int32
		qf   []int
		cmap []int
		n    int
	}
	bc := blkCtx{def: o.Plain || r.P(0.4)}
	bc.cmap = []int{0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14}
	bc.n = 15

	// ---- LF samples
	var lfq [3]*Chan // plane order
	xp := r.Pick(0, 0, 1, 2, 3)
	if !useLF {
		b.Info.XtraPrec = xp
		for c := range lfq {
			ch := NewChan(b.BW>>b.SX[c], b.BH>>b.SY[c])
			st := b.LFSteps[c] / float64(int(1)<<uint(xp))
			span := o.Amp
			if m.XYB && c == 0 {
				span *= 0.05
			}
			n := int64(math.Min(math.Max(span/st, 2), 20000))
			lo := int64(0)
			if f.YCbCr || m.XYB && c != 1 {
				lo, n = -n/2, n/2
			}
			FillChan(r, ch, lo, n)
			if r.P(0.4) { // gentle steps, where smoothing acts
				base := int64(r.N(int(n) + 1))
				FillChan(r, ch, base-2, base+2)
			}
			lfq[c] = ch
		}
	}
	if !bc.def {
		b.Info.BlockCtx = true
		for {
			nctx := 1
			for c := range bc.lf {
				bc.lf[c] = nil
				for k := r.Pick(0, 0, 1, 2, 3); k > 0; k-- {
					v := int32(r.R(-300, 300))
					if !useLF && r.P(0.7) {
						v = lfq[c].D[r.N(len(lfq[c].D))] - int32(r.N(2))
					}
					if r.P(0.05) {
						v = int32(r.R(-200000, 200000))
					}
					bc.lf[c] = append(bc.lf[c], v)
				}
				nctx *= len(bc.lf[c]) + 1
			}
			bc.qf = nil
			for k := r.Pick(0, 0, 1, 2, 4); k > 0; k-- {
				bc.qf = append(bc.qf, r.Pick(r.R(1, 5), r.R(1, 60), r.R(1, 256)))
			}
			if nctx*(len(bc.qf)+1) <= 64 {
				b.Info.LFCtx = nctx
				break
			}
		}
		n := 39 * b.Info.LFCtx * (len(bc.qf) + 1)
		bc.cmap = make([]int, n)
		bc.n = r.R(1, 16)
		for i := range bc.cmap {
			bc.cmap[i] = r.N(bc.n)
		}
		for i := 0; i < bc.n; i++ { // every cluster appears
			bc.cmap[(i*17+3)%n] = i
		}
		seen := map[int]bool{}
		for _, v := range bc.cmap {
			seen[v] = true
		}
		for i := 0; i < bc.n; i++ {
			if !seen[i] {
				bc.cmap = make([]int, n)
				bc.n = 1
			}
		}
	}
	// ---- chroma from luma
	cflDef := o.Plain || r.P(0.4)
	colF, baseX, baseB, lfx, lfb := 84, 0.0, 1.0, 128, 128
	if !cflDef {
		colF = r.Pick(84, 256, r.R(2, 257), r.R(258, 1000))
		baseX, baseB = F16Round((r.F()-0.5)*0.6), F16Round((r.F()-0.5)*2)
		lfx, lfb = r.N(256), r.N(256)
		if colF < 60 {
			lfx, lfb = r.R(120, 136), r.R(120, 136)
		}
	}
	// ---- blocks
	owner := make([]int, b.BW*b.BH)
	for i := range owner {
		owner[i] = -1
	}
	types := o.Types
	if types == nil {
		for i := range vtypes {
			types = append(types, i)
		}
		if r.P(0.3) {
			types = []int{r.N(27), r.N(27), 0}
		}
	}
	var usable []int
	for _, t := range types {
		v := vtypes[t]
		if v.H > o.MaxBlock || v.W > o.MaxBlock || sub && v.H*v.W > 1 {
			continue
		}
		usable = append(usable, t)
	}
	usable = append(usable, 0)
	preferBig := r.Bool()
	align := r.P(0.6)
	mulMax := r.Pick(1, 4, 16, 256)
	perLFG := make([][]int, lay.NLF) // block indices in decoding order
	for g := range perLFG {
		gx0, gy0 := g%lay.LX*256, g/lay.LX*256
		gx1, gy1 := min(gx0+256, b.BW), min(gy0+256, b.BH)
		for y := gy0; y < gy1; y++ {
			for x := gx0; x < gx1; x++ {
				if owner[y*b.BW+x] >= 0 {
					continue
				}
				fits := func(t int) bool {
					v := vtypes[t]
					if x+v.W > gx1 || y+v.H > gy1 || x%32+v.W > 32 || y%32+v.H > 32 {
						return false
					}
					if align && (x%v.W != 0 || y%v.H != 0) {
						return false
					}
					for j := 0; j < v.H; j++ {
						for i := 0; i < v.W; i++ {
							if owner[(y+j)*b.BW+x+i] >= 0 {
								return false
							}
						}
					}
					return true
				}
				t := 0
				for try := 0; try < 6; try++ {
					k := usable[r.N(len(usable))]
					if fits(k) && (t == 0 || preferBig && vtypes[k].H*vtypes[k].W > vtypes[t].H*vtypes[t].W) {
						t = k
					}
					if t != 0 && !preferBig {
						break
					}
				}
				v := vtypes[t]
				id := len(b.Blocks)
				for j := 0; j < v.H; j++ {
					for i := 0; i < v.W; i++ {
						owner[(y+j)*b.BW+x+i] = id
					}
				}
				b.Blocks = append(b.Blocks, VBlock{x, y, t, r.R(1, mulMax)})
				b.Info.Types[t]++
				perLFG[g] = append(perLFG[g], id)
			}
		}
	}
	// ---- metadata streams
	var extra []*ModStream
	lfStreams := make([]*ModStream, lay.NLF)
	mdStreams := make([]*ModStream, lay.NLF)
	var xf, bf [][]int // per frame tile
	tw, th := ceilDiv(b.BW, 8), ceilDiv(b.BH, 8)
	mk := func() [][]int {
		q := make([][]int, th)
		kind := r.N(3)
		for y := range q {
			q[y] = make([]int, tw)
			for x := range q[y] {
				switch kind {
				case 1:
					q[y][x] = r.R(-20, 20)
				case 2:
					q[y][x] = r.R(-128, 127)
				}
				if q[y][x] != 0 {
					b.Info.CfL = true
				}
			}
		}
		return q
	}
	xf, bf = mk(), mk()
	for again := true; again; { // one factor for every tile a block touches
		again = false
		for _, k := range b.Blocks {
			v := vtypes[k.T]
			ty, tx := k.Y/8, k.X/8
			for y := ty; y <= (k.Y+v.H-1)/8; y++ {
				for x := tx; x <= (k.X+v.W-1)/8; x++ {
					if y != ty || x != tx {
						if xf[y][x] != xf[ty][tx] || bf[y][x] != bf[ty][tx] {
							// adopt the smaller label so that this settles
							nx, nb := min(xf[y][x], xf[ty][tx]), min(bf[y][x], bf[ty][tx])
							xf[y][x], xf[ty][tx], bf[y][x], bf[ty][tx] = nx, nx, nb, nb
							again = true
						}
					}
				}
			}
		}
	}
	for _, k := range b.Blocks {
		v := vtypes[k.T]
		if (k.X+v.W-1)/8 != k.X/8 || (k.Y+v.H-1)/8 != k.Y/8 {
			b.Info.Straddle++
		}
	}
	more := make([]int, lay.NLF) // declared but missing blocks, or the other way round
	for g := 0; g < lay.NLF; g++ {
		gx0, gy0 := g%lay.LX*256, g/lay.LX*256
		gw, gh := min(256, b.BW-gx0), min(256, b.BH-gy0)
		if len(perLFG[g]) < gw*gh && fault("blocks-many") {
			more[g] = 1
		} else if len(perLFG[g]) > 1 && fault("blocks-few") {
			more[g] = -1
		}
		if !useLF {
			img := &ModImg{}
			for _, c := range []int{1, 0, 2} {
				cr := lfq[c].Crop(gx0>>b.SX[c], gy0>>b.SY[c], gw>>b.SX[c], gh>>b.SY[c])
				img.Ch = append(img.Ch, cr)
			}
			lfStreams[g] = &ModStream{ID: 1 + g, Img: img, WP: DefaultWP(), UseGlobal: true, NCoded: 3}
			extra = append(extra, lfStreams[g])
		}
		img := &ModImg{}
		cx, cb := NewChan(ceilDiv(gw, 8), ceilDiv(gh, 8)), NewChan(ceilDiv(gw, 8), ceilDiv(gh, 8))
		for y := 0; y < cx.H; y++ {
			for x := 0; x < cx.W; x++ {
				cx.Set(x, y, int32(xf[gy0/8+y][gx0/8+x]))
				cb.Set(x, y, int32(bf[gy0/8+y][gx0/8+x]))
			}
		}
		inf := NewChan(len(perLFG[g])+more[g], 2)
		for i, id := range perLFG[g] {
			if i == inf.W {
				break
			}
			inf.Set(i, 0, int32(b.Blocks[id].T))
			inf.Set(i, 1, int32(b.Blocks[id].Mul-1))
			if fault("block-type-large") {
				inf.Set(i, 0, int32(27+b.Blocks[id].T))
			} else if fault("block-type-negative") {
				inf.Set(i, 0, int32(-1-b.Blocks[id].T))
			}
		}
		sh := NewChan(gw, gh)
		FillChan(r, sh, 0, 7)
		for y := 0; y < gh; y++ {
			for x := 0; x < gw; x++ {
				b.Sharp[gy0+y][gx0+x] = int(sh.At(x, y))
				if f.RF.EpfIters > 0 && fault("sharpness") {
					sh.Set(x, y, int32([]int{8, -1, 9}[(x+y)%3]))
				}
			}
		}
		img.Ch = []*Chan{cx, cb, inf, sh}
		mdStreams[g] = &ModStream{ID: 1 + 2*lay.NLF + g, Img: img, WP: DefaultWP(), UseGlobal: true, NCoded: 4}
		extra = append(extra, mdStreams[g])
	}
	var tables [17]QTable
	tabDef := o.Plain || !o.Tables
	if !tabDef {
		for i := range tables {
			tables[i] = randTable(r, i, lay)
			b.Info.Tables[tables[i].Mode]++
			if tables[i].Raw != nil {
				extra = append(extra, tables[i].Raw)
				if lay.NLF > 1 {
					o.Mod.Tree.Around = tables[i].Raw.ID
				}
			}
		}
	}
	o.Mod.Tree.NoMul = true
	plan := PlanModular(r, f, lay, ec, m.BD.Bits, o.Mod, &b.Stats, extra, nil)

	// ---- coefficients: q[block][channel] total, per pass contributions
	presets := 1
	if lay.NG > 1 && !o.Plain {
		presets = r.R(1, min(lay.NG, 5))
	}
	b.Info.Presets = presets
	passShift := func(p int) uint {
		if p < len(f.Pass.Shift) {
			return uint(f.Pass.Shift[p])
		}
		return 0
	}
	dense := o.Dense
	if dense == 0 {
		dense = []float64{0.02, 0.1, 0.4}[r.N(3)]
	}
	qmax := r.Pick(1, 3, 20, 200)
	total := make([][3][]int32, len(b.Blocks))
	part := make([][][3][]int32, np)
	for p := range part {
		part[p] = make([][3][]int32, len(b.Blocks))
	}
	for id, k := range b.Blocks {
		v := vtypes[k.T]
		n := v.W * v.H * 64
		for c := 0; c < 3; c++ {
			if k.X>>b.SX[c]<<b.SX[c] != k.X || k.Y>>b.SY[c]<<b.SY[c] != k.Y {
				continue
			}
			total[id][c] = make([]int32, n)
			for p := 0; p < np; p++ {
				q := make([]int32, n)
				nz := 0
				switch {
				case r.P(0.3):
				case r.P(0.05):
					nz = n
				case r.P(0.5):
					nz = r.N(4)
				default:
					nz = r.N(1 + int(dense*float64(n)))
				}
				low := r.P(0.5)
				for ; nz > 0; nz-- {
					i := r.N(n)
					if low {
						i = int(float64(n) * math.Pow(r.F(), 3))
					}
					val := int32(r.R(-qmax, qmax))
					if r.P(0.5) {
						val = int32(r.R(-1, 1))
					}
					if r.P(0.002) {
						val = int32(r.R(-3000, 3000))
					}
					q[i] = val
				}
				wide := max(v.W, v.H) * 8
				for y := 0; y < min(v.W, v.H); y++ {
					for x := 0; x < max(v.W, v.H); x++ {
						q[y*wide+x] = 0
					}
				}
				part[p][id][c] = q
				for i := range q {
					total[id][c][i] += q[i] << passShift(p)
					if q[i] != 0 {
						b.Info.Nonzero++
					}
				}
				b.Info.Coefs += n
			}
		}
	}
	lfCtxOf := func(x, y int) int {
		if bc.def || useLF {
			return 0
		}
		var ix [3]int
		for c := range ix {
			for _, t := range bc.lf[c] {
				if lfq[c].At(x>>b.SX[c], y>>b.SY[c]) > t {
					ix[c]++
				}
			}
		}
		return (ix[0]*(len(bc.lf[2])+1)+ix[2])*(len(bc.lf[1])+1) + ix[1]
	}
	blockCtx := func(c int, k VBlock) int {
		i := c
		if c < 2 {
			i = c ^ 1
		}
		qi := 0
		for _, t := range bc.qf {
			if k.Mul > t {
				qi++
			}
		}
		nlf := 1
		if !bc.def {
			nlf = b.Info.LFCtx
		}
		return bc.cmap[((i*13+vtypes[k.T].Order)*(len(bc.qf)+1)+qi)*nlf+lfCtxOf(k.X, k.Y)]
	}
	groupOf := func(k VBlock) int { return k.Y/32*lay.GX + k.X/32 }
	perG := make([][]int, lay.NG)
	for g := range perLFG {
		for _, id := range perLFG[g] {
			gi := groupOf(b.Blocks[id])
			perG[gi] = append(perG[gi], id)
		}
	}
	preset := make([]int, lay.NG)
	for i := range preset {
		preset[i] = r.N(presets)
	}
	type passCode struct {
		used   uint32
		perms  *EntCode
		psyms  []esym
		orders [13][3][]int32
		code   *EntCode
		syms   [][]esym
	}
	passes := make([]passCode, np)
	present := uint32(0)
	for _, k := range b.Blocks {
		present |= 1 << uint(vtypes[k.T].Order)
	}
	for p := range passes {
		pc := &passes[p]
		if !o.Plain {
			switch r.N(4) {
			case 0:
				pc.used = uint32(r.Pick(0x5F, 0x13))
			case 1:
				pc.used = uint32(r.N(1<<13)) & (present | uint32(r.N(1<<7)))
			case 2:
				pc.used = present
			}
		}
		var toks []Tok
		for i := 0; i < 13; i++ {
			nat := naturalOrder(i)
			for c := 0; c < 3; c++ {
				pc.orders[i][c] = nat
				if pc.used>>uint(i)&1 == 0 {
					continue
				}
				n, skip := len(nat), len(nat)/64
				perm, leh, end := randPerm(r, n, skip)
				b.Info.Orders++
				toks = append(toks, permToks(n, skip, leh, end)...)
				od := make([]int32, n)
				for j := range od {
					od[j] = nat[perm[j]]
				}
				pc.orders[i][c] = od
			}
		}
		if pc.used != 0 {
			var s [][]esym
			pc.perms, s = BuildEnt(r, 8, []TokSection{{Toks: toks}}, o.Mod.Ent)
			pc.psyms = s[0]
		}
		secs := make([]TokSection, lay.NG)
		for g := range secs {
			off := 495 * bc.n * preset[g]
			var nzs [3][32][32]int
			var ts []Tok
			for _, id := range perG[g] {
				k := b.Blocks[id]
				v := vtypes[k.T]
				nb := v.W * v.H
				for _, c := range []int{1, 0, 2} {
					q := part[p][id][c]
					if q == nil {
						continue
					}
					sx, sy := k.X%32>>b.SX[c], k.Y%32>>b.SY[c]
					od := pc.orders[v.Order][c]
					n := 0
					for _, val := range q {
						if val != 0 {
							n++
						}
					}
					pr := 32
					switch {
					case sx == 0 && sy == 0:
					case sx == 0:
						pr = nzs[c][sy-1][0]
					case sy == 0:
						pr = nzs[c][0][sx-1]
					default:
						pr = (nzs[c][sy-1][sx] + nzs[c][sy][sx-1] + 1) / 2
					}
					bctx := blockCtx(c, k)
					bk := pr
					if pr >= 8 {
						bk = 4 + min(pr, 64)/2
					}
					left := n
					if nb+n < len(od) && fault("coefficients-left") {
						left++
					} else if fault("coefficients-many") {
						left = len(od)
					}
					ts = append(ts, Tok{off + bctx + bc.n*bk, uint32(left)})
					n = left
					for j := 0; j < v.H; j++ {
						for i := 0; i < v.W; i++ {
							nzs[c][sy+j][sx+i] = (n + nb - 1) / nb
						}
					}
					prev := 1
					if n > len(od)/16 {
						prev = 0
					}
					for i := nb; left > 0 && i < len(od); i++ {
						val := q[od[i]]
						ctx := off + bc.n*37 + 458*bctx + min(457, (coefNzCtx[min(63, (left+nb-1)/nb)]+coefFreqCtx[i/nb])*2+prev)
						ts = append(ts, Tok{ctx, PackSigned(val)})
						prev = 0
						if val != 0 {
							prev = 1
							left--
						}
					}
				}
			}
			secs[g].Toks = ts
		}
		pc.code, pc.syms = BuildEnt(r, 495*presets*bc.n, secs, o.Mod.Ent)
	}

	// ---- write
	secs := make([]*BitWriter, lay.NSec())
	for i := range secs {
		secs[i] = &BitWriter{}
	}
	at := func(i int) *BitWriter {
		if len(secs) == 1 {
			return secs[0]
		}
		return secs[i]
	}
	g := at(0)
	if o.Mod.Pre != nil {
		o.Mod.Pre(g)
	}
	g.Bool(lfDeqDef)
	if !lfDeqDef {
		for _, v := range lfDeq {
			g.F16(v * 128)
		}
	}
	g.U32R(r, uint32(gs), [4]D{{1, 11}, {2049, 11}, {4097, 12}, {8193, 16}})
	g.U32R(r, uint32(qlf), [4]D{{16, 0}, {1, 5}, {1, 8}, {1, 16}})
	g.Bool(bc.def)
	if !bc.def {
		many := fault("block-contexts")
		if many { // 65 or more for each order
			for len(bc.lf[0]) < 15 {
				bc.lf[0] = append(append([]int32{}, bc.lf[0]...), 1000)
			}
			for len(bc.lf[1]) < 4 {
				bc.lf[1] = append(append([]int32{}, bc.lf[1]...), 1000)
			}
		}
		for c := range bc.lf {
			g.Bits(uint64(len(bc.lf[c])), 4)
			for _, t := range bc.lf[c] {
				g.U32R(r, PackSigned(t), [4]D{{0, 4}, {16, 8}, {272, 16}, {65808, 32}})
			}
		}
		g.Bits(uint64(len(bc.qf)), 4)
		for _, t := range bc.qf {
			g.U32R(r, uint32(t-1), [4]D{{0, 2}, {4, 3}, {12, 5}, {44, 8}})
		}
		cm, n := bc.cmap, bc.n
		if many {
			cm = append([]int{}, cm...)
			for len(cm) < 39*(len(bc.qf)+1)*(len(bc.lf[0])+1)*(len(bc.lf[1])+1)*(len(bc.lf[2])+1) {
				cm = append(cm, 0)
			}
		} else if fault("block-clusters") {
			cm, n = append([]int{}, cm...), 17
			cm[r.N(len(cm))] = 16
		}
		WriteClusterMap(g, r, cm, n, &b.Stats.Ent)
	}
	g.Bool(cflDef)
	if !cflDef {
		g.U32R(r, uint32(colF), [4]D{{84, 0}, {256, 0}, {2, 8}, {258, 16}})
		g.F16(baseX)
		g.F16(baseB)
		g.Bits(uint64(lfx), 8)
		g.Bits(uint64(lfb), 8)
	}
	g.Bool(true)
	plan.WriteTree(g, r, o.Mod.Ent)
	plan.WriteStream(g, plan.Global)
	for lg := 0; lg < lay.NLF; lg++ {
		s := at(lay.SecLF(lg))
		if !useLF {
			s.Bits(uint64(xp), 2)
			plan.WriteStream(s, lfStreams[lg])
		}
		plan.WriteParts(s, lay.SecLF(lg))
		gx0, gy0 := lg%lay.LX*256, lg/lay.LX*256
		gw, gh := min(256, b.BW-gx0), min(256, b.BH-gy0)
		s.Bits(uint64(len(perLFG[lg])+more[lg]-1), ceilLog2(gw*gh))
		plan.WriteStream(s, mdStreams[lg])
	}
	s := at(lay.SecHF())
	s.Bool(tabDef)
	if !tabDef {
		for i := range tables {
			if i > 3 && i != 9 && i != 10 && fault("table-mode") {
				s.Bits(1, 3)
				s.Bits(0, 32)
			}
			tables[i].write(s, plan)
		}
	}
	s.Bits(uint64(presets-1), ceilLog2(lay.NG))
	for p := range passes {
		s.U32R(r, passes[p].used, ordDist)
		if passes[p].used != 0 {
			passes[p].perms.WriteHeader(s)
			passes[p].perms.WriteSyms(s, passes[p].psyms)
		}
		passes[p].code.WriteHeader(s)
	}
	for p := range passes {
		for gr := 0; gr < lay.NG; gr++ {
			s := at(lay.SecPass(p, gr))
			if nb := ceilLog2(presets); presets < 1<<uint(nb) && fault("preset") {
				s.Bits(uint64(presets), nb)
			} else {
				s.Bits(uint64(preset[gr]), nb)
			}
			passes[p].code.WriteSyms(s, passes[p].syms[gr])
			plan.WriteParts(s, lay.SecPass(p, gr))
		}
	}
	for _, s := range secs {
		s.Align()
		b.Sections = append(b.Sections, s.Bytes())
	}
	b.EC = plan.Result()
	b.Chans = b.EC

	// ---- reconstruct
	lf := o.LF
	var plainLF [3][][]float64
	lfAbs := o.LFAbs // what chroma from luma added, for the tolerance
	if !useLF {
		for c := range lf {
			lf[c] = plane(lfq[c].W, lfq[c].H)
			st := b.LFSteps[c] / float64(int(1)<<uint(xp))
			for y := range lf[c] {
				for x := range lf[c][y] {
					lf[c][y][x] = float64(lfq[c].At(x, y)) * st
				}
			}
		}
		if !sub {
			kx, kb := baseX+float64(lfx-128)/float64(colF), baseB+float64(lfb-128)/float64(colF)
			lfAbs[0], lfAbs[2] = plane(lfq[1].W, lfq[1].H), plane(lfq[1].W, lfq[1].H)
			for y := range lf[1] {
				for x := range lf[1][y] {
					lf[0][y][x] += kx * lf[1][y][x]
					lf[2][y][x] += kb * lf[1][y][x]
					lfAbs[0][y][x] = math.Abs(kx * lf[1][y][x])
					lfAbs[2][y][x] = math.Abs(kb * lf[1][y][x])
				}
			}
		}
		if f.Flags&128 == 0 {
			b.Info.Smooth = true
			plainLF = lf
			lf = smoothLF(lf, b.LFSteps, &b.Info)
		}
	}
	var mult [17][3][]float64
	qb := m.quantBias()
	var dst [3][][]float64
	rec := func() {
		for c := 0; c < 3; c++ {
			dst[c] = plane(b.BW*8>>b.SX[c], b.BH*8>>b.SY[c])
			b.Mag[c] = plane(b.BW>>b.SX[c], b.BH>>b.SY[c])
		}
		for id, k := range b.Blocks {
			v := vtypes[k.T]
			for c := 0; c < 3; c++ {
				if mult[v.Param][c] == nil {
					tq := &tables[v.Param]
					mult[v.Param][c] = tq.multipliers(v.Param, c)
				}
			}
			var cf [3][]float64
			for c := 0; c < 3; c++ {
				q := total[id][c]
				if q == nil {
					continue
				}
				sc := 65536 / float64(gs) / float64(k.Mul)
				if m.XYB {
					if c == 0 {
						sc *= math.Pow(0.8, float64(f.Xqm-2))
					} else if c == 2 {
						sc *= math.Pow(0.8, float64(f.Bqm-2))
					}
				}
				cf[c] = make([]float64, len(q))
				for i, n := range q {
					var d float64
					switch {
					case n == 0:
						continue
					case n == 1:
						d = qb[c]
					case n == -1:
						d = -qb[c]
					default:
						d = float64(n) - qb[3]/float64(n)
					}
					cf[c][i] = d * sc * mult[v.Param][c][i]
				}
			}
			var cfl [3]float64
			if !sub {
				kx := baseX + float64(xf[k.Y/8][k.X/8])/float64(colF)
				kb := baseB + float64(bf[k.Y/8][k.X/8])/float64(colF)
				for i := range cf[1] {
					cf[0][i] += kx * cf[1][i]
					cf[2][i] += kb * cf[1][i]
					cfl[0] += math.Abs(kx * cf[1][i])
					cfl[2] += math.Abs(kb * cf[1][i])
				}
			}
			for c := 0; c < 3; c++ {
				if cf[c] == nil {
					continue
				}
				bx, by := k.X>>b.SX[c], k.Y>>b.SY[c]
				ll := lowFreq(v, lf[c], by, bx)
				wide := max(v.W, v.H) * 8
				for y := range ll {
					for x := range ll[y] {
						if v.H < v.W || v.Method != mDCT {
							cf[c][y*wide+x] = ll[y][x]
						} else {
							cf[c][x*wide+y] = ll[y][x]
						}
					}
				}
				mag := cfl[c]
				for j := 0; lfAbs[c] != nil && j < v.H; j++ {
					for i := 0; i < v.W; i++ {
						mag += lfAbs[c][by+j][bx+i]
					}
				}
				for i := range cf[c] {
					mag += math.Abs(cf[c][i])
				}
				if max(v.H, v.W) >= 8 { // float32 transforms lose more at these sizes
					mag *= 4
				}
				for j := 0; j < v.H; j++ {
					for i := 0; i < v.W; i++ {
						b.Mag[c][by+j][bx+i] = mag
					}
				}
				reconstruct(k.T, cf[c], dst[c], by*8, bx*8)
			}
		}
	}
	if b.Info.Smooth {
		lfs := lf
		lf = pinnedSmoothLF(plainLF, b.LFSteps)
		rec()
		b.Pinned, lf = dst, lfs
	}
	rec()
	b.P = dst
	return b
}

func (m *Meta) quantBias() [4]float64 {
	if m.XYB && !m.XformDef && m.Opsin.Set {
		return m.Opsin.QBias
	}
	return DefaultOpsin().QBias
}

// randPerm makes a permutation leaving the first skip entries alone, with its Lehmer code.
func randPerm(r *Rng, n, skip int) (perm []int, leh []int, end int) {
	m := r.Pick(0, 1, 5, 60)
	if n <= 256 && r.Bool() {
		m = n - skip
	}
	m = min(m, n-skip)
	end = skip + m
	avail := make([]int, n-skip)
	for i := range avail {
		avail[i] = skip + i
	}
	leh = make([]int, n)
	perm = make([]int, 0, n)
	for i := 0; i < skip; i++ {
		perm = append(perm, i)
	}
	near := r.Bool()
	for i := skip; i < end; i++ {
		k := r.N(len(avail))
		if near {
			k = r.N(min(len(avail), 6))
		}
		leh[i] = k
		perm = append(perm, avail[k])
		copy(avail[k:], avail[k+1:])
		avail = avail[:len(avail)-1]
	}
	perm = append(perm, avail...)
	return
}

func permToks(n, skip int, leh []int, end int) []Tok {
	ctx := func(x int) int { return min(7, ceilLog2(x+1)) }
	toks := []Tok{{ctx(n), uint32(end - skip)}}
	if fault("permutation-end") {
		toks[0].Val = uint32(n - skip + 1)
	}
	last := 0
	for i := skip; i < end; i++ {
		k := leh[i]
		if fault("permutation-entry") {
			k = n - i + last%3
		}
		toks = append(toks, Tok{ctx(last), uint32(k)})
		last = k
	}
	return toks
}

// WriteFrame appends the frame (the embedded method, restated for clarity).
func (b *VFrame) Frame() *BuiltFrame { return &b.BuiltFrame }

// VTypeSize is the size of a block transform in blocks.
func VTypeSize(t int) (h, w int) { return vtypes[t].H, vtypes[t].W }
