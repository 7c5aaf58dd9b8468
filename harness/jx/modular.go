package jx

import "fmt"

// Chan is one modular channel.
type Chan struct {
	W, H   int
	HS, VS int
	D      []int32
}

func NewChan(w, h int) *Chan { return &Chan{W: w, H: h, D: make([]int32, w*h)} }

func (c *Chan) At(x, y int) int32     { return c.D[y*c.W+x] }
func (c *Chan) Set(x, y int, v int32) { c.D[y*c.W+x] = v }
func (c *Chan) Clone() *Chan {
	n := *c
	n.D = append([]int32{}, c.D...)
	return &n
}

// Crop copies a rectangle (must be inside).
func (c *Chan) Crop(x0, y0, w, h int) *Chan {
	o := NewChan(w, h)
	o.HS, o.VS = c.HS, c.VS
	for y := 0; y < h; y++ {
		copy(o.D[y*w:(y+1)*w], c.D[(y0+y)*c.W+x0:])
	}
	return o
}

func (c *Chan) Paste(x0, y0 int, s *Chan) {
	for y := 0; y < s.H; y++ {
		copy(c.D[(y0+y)*c.W+x0:(y0+y)*c.W+x0+s.W], s.D[y*s.W:(y+1)*s.W])
	}
}

func cloneChans(cs []*Chan) []*Chan {
	o := make([]*Chan, len(cs))
	for i, c := range cs {
		o[i] = c.Clone()
	}
	return o
}

// ---- MA tree ----

type MANode struct {
	Prop   int // -1 for a leaf
	Val    int32
	L, R   *MANode // L taken when property > Val
	Ctx    int
	Pred   int
	Off    int32
	MulLog int
	MulB   int
}

func (n *MANode) Mul() int64 { return int64(n.MulB+1) << uint(n.MulLog) }

// MATree is a tree with its leaf count and features.
type MATree struct {
	Root    *MANode
	NumCtx  int
	UsesWP  bool
	Lossy   bool // has multipliers/offset needing perturbation
	MaxProp int
}

type TreeOpts struct {
	MaxDepth  int
	MaxStream int
	Around    int // a stream index to split near
	MaxChan   int
	MaxW      int
	MaxH      int
	NoMul     bool
	Range     int // typical sample range
	Preds     []int
	MaxProp   int
	NoSplit   bool
}

func RandTree(r *Rng, o TreeOpts) *MATree {
	t := &MATree{}
	preds := o.Preds
	if preds == nil {
		switch r.N(4) {
		case 0:
			preds = []int{r.N(14)}
		case 1:
			preds = []int{r.N(14), r.N(14), r.N(14)}
		default:
			preds = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
		}
	}
	maxProp := o.MaxProp
	if maxProp == 0 {
		maxProp = 15 + 4*r.Pick(0, 0, 1, 2, 3)
	}
	depth := r.R(0, o.MaxDepth)
	if o.NoSplit {
		depth = 0
	}
	pmul := 0.0
	if !o.NoMul && r.P(0.25) {
		pmul = 0.4
	}
	poff := 0.0
	if r.P(0.3) {
		poff = 0.4
	}
	leaves := 0
	var build func(d int) *MANode
	build = func(d int) *MANode {
		if d == 0 || (d < depth && r.P(0.25)) || leaves > 60 {
			n := &MANode{Prop: -1, Pred: preds[r.N(len(preds))]}
			leaves++
			if r.P(poff) {
				n.Off = int32(r.R(-20, 20))
				if r.P(0.1) {
					n.Off = int32(r.R(-100000, 100000))
				}
			}
			if r.P(pmul) {
				n.MulLog = r.Pick(0, 0, 1, 2, 5)
				n.MulB = r.Pick(0, 1, 2, 6)
				if r.P(0.08) { // the largest ones
					n.MulLog = r.Pick(0, 1, 13, 29, 30)
					n.MulB = 1<<uint(31-n.MulLog) - 2
				}
				if n.Mul() != 1 {
					t.Lossy = true
				}
			}
			if n.Pred == 6 {
				t.UsesWP = true
			}
			return n
		}
		p := r.R(0, maxProp)
		if r.P(0.15) {
			p = 15
		}
		if r.P(0.15) {
			p = r.R(0, 3)
		}
		if p == 15 {
			t.UsesWP = true
		}
		if p > t.MaxProp {
			t.MaxProp = p
		}
		near := o.Around > 0 && r.P(0.25)
		if near {
			p = 1
		}
		var v int
		switch p {
		case 0:
			v = r.R(0, max(o.MaxChan, 1))
		case 1:
			v = r.R(0, max(o.MaxStream, 1))
			if near {
				v = max(o.Around-r.Pick(1, 1, 1, 2, 3), 0)
			}
		case 2:
			v = r.R(0, max(o.MaxH, 1))
		case 3:
			v = r.R(0, max(o.MaxW, 1))
		default:
			g := max(o.Range, 8)
			v = r.R(-g, g)
			if r.P(0.5) {
				v = r.R(-6, 6)
			}
		}
		n := &MANode{Prop: p, Val: int32(v)}
		n.L = build(d - 1)
		n.R = build(d - 1)
		return n
	}
	t.Root = build(depth)
	t.number()
	return t
}

// FixedTree is a single-leaf tree.
func FixedTree(pred int) *MATree {
	t := &MATree{Root: &MANode{Prop: -1, Pred: pred}, UsesWP: pred == 6}
	t.number()
	return t
}

// number assigns leaf contexts in breadth-first order.
func (t *MATree) number() {
	q := []*MANode{t.Root}
	t.NumCtx = 0
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if n.Prop < 0 {
			n.Ctx = t.NumCtx
			t.NumCtx++
			continue
		}
		q = append(q, n.L, n.R)
	}
}

// Write encodes the tree itself (entropy coded with six contexts).
func (t *MATree) Write(w *BitWriter, r *Rng, o EntOpts) *EntCode {
	var toks []Tok
	q := []*MANode{t.Root}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if n.Prop < 0 {
			leaf := []Tok{{1, 0}, {2, uint32(n.Pred)}, {3, PackSigned(n.Off)}, {4, uint32(n.MulLog)}, {5, uint32(n.MulB)}}
			switch {
			case fault("tree-predictor"):
				leaf[1].Val = 14 + uint32(n.Ctx)%5
			case fault("tree-shift"):
				leaf[3].Val = 31 + uint32(n.Ctx)%5
			case fault("tree-multiplier"):
				leaf[4].Val = 1<<uint(31-n.MulLog) - 1
			}
			toks = append(toks, leaf...)
			continue
		}
		toks = append(toks, Tok{1, uint32(n.Prop + 1)}, Tok{0, PackSigned(n.Val)})
		q = append(q, n.L, n.R)
	}
	e, syms := BuildEnt(r, 6, []TokSection{{Toks: toks}}, o)
	e.WriteHeader(w)
	e.WriteSyms(w, syms[0])
	return e
}

// ---- WP ----

type WPParams struct {
	Default bool
	P1, P2  int
	P3      [5]int
	W       [4]int
}

func DefaultWP() WPParams {
	return WPParams{Default: true, P1: 16, P2: 10, P3: [5]int{7, 7, 7, 0, 0}, W: [4]int{13, 12, 12, 12}}
}

func RandWP(r *Rng) WPParams {
	if r.P(0.5) {
		return DefaultWP()
	}
	p := WPParams{P1: r.N(32), P2: r.N(32)}
	for i := range p.P3 {
		p.P3[i] = r.N(32)
	}
	for i := range p.W {
		p.W[i] = r.N(16)
	}
	return p
}

func (p WPParams) Write(w *BitWriter) {
	w.Bool(p.Default)
	if p.Default {
		return
	}
	w.Bits(uint64(p.P1), 5)
	w.Bits(uint64(p.P2), 5)
	for _, v := range p.P3 {
		w.Bits(uint64(v), 5)
	}
	for _, v := range p.W {
		w.Bits(uint64(v), 4)
	}
}

type wpState struct {
	p    WPParams
	w    int
	err  []int64
	perr [4][]int64
	pred [4]int64
	out  int64
}

func newWP(p WPParams, w int) *wpState {
	s := &wpState{p: p, w: w, err: make([]int64, 2*(w+2))}
	for i := range s.perr {
		s.perr[i] = make([]int64, 2*(w+2))
	}
	return s
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (s *wpState) weight(x int64, mw int) int64 {
	sh := floorLog2(uint32(x+1)) - 5
	if sh < 0 {
		sh = 0
	}
	return 4 + ((int64(mw) * ((1 << 24) / ((x >> uint(sh)) + 1))) >> uint(sh))
}

func (s *wpState) predict(x, y int, N, W, NE, NW, NN int64) (int64, int64) {
	cur, prev := s.w+2, 0
	if y&1 == 1 {
		cur, prev = 0, s.w+2
	}
	pN := prev + x
	pNE, pNW := pN, pN
	if x < s.w-1 {
		pNE = pN + 1
	}
	if x > 0 {
		pNW = pN - 1
	}
	var wt [4]int64
	for i := range wt {
		wt[i] = s.weight(s.perr[i][pN]+s.perr[i][pNE]+s.perr[i][pNW], s.p.W[i])
	}
	N, W, NE, NW, NN = N<<3, W<<3, NE<<3, NW<<3, NN<<3
	var teW int64
	if x > 0 {
		teW = s.err[cur+x-1]
	}
	teN, teNW, teNE := s.err[pN], s.err[pNW], s.err[pNE]
	prop := teW
	for _, t := range []int64{teN, teNW, teNE} {
		if abs64(t) > abs64(prop) {
			prop = t
		}
	}
	s.pred[0] = W + NE - N
	s.pred[1] = N - (((teN + teW + teNE) * int64(s.p.P1)) >> 5)
	s.pred[2] = W - (((teN + teW + teNW) * int64(s.p.P2)) >> 5)
	s.pred[3] = N - ((teNW*int64(s.p.P3[0]) + teN*int64(s.p.P3[1]) + teNE*int64(s.p.P3[2]) + (NN-N)*int64(s.p.P3[3]) + (NW-W)*int64(s.p.P3[4])) >> 5)
	sum := int64(0)
	for _, v := range wt {
		sum += v
	}
	lw := floorLog2(uint32(sum))
	ws := int64(0)
	for i := range wt {
		wt[i] >>= uint(lw - 4)
		ws += wt[i]
	}
	acc := (ws >> 1) - 1
	for i := range wt {
		acc += s.pred[i] * wt[i]
	}
	out := (acc * ((1 << 24) / ws)) >> 24
	if ((teN ^ teW) | (teN ^ teNW)) <= 0 {
		mx := max(W, NE, N)
		mn := min(W, NE, N)
		out = max(mn, min(mx, out))
	}
	s.out = out
	return (out + 3) >> 3, prop
}

func (s *wpState) update(x, y int, v int64) {
	cur, prev := s.w+2, 0
	if y&1 == 1 {
		cur, prev = 0, s.w+2
	}
	v <<= 3
	s.err[cur+x] = s.out - v
	for i := range s.pred {
		e := (abs64(s.pred[i]-v) + 3) >> 3
		s.perr[i][cur+x] = e
		s.perr[i][prev+x+1] += e
	}
}

func clampGrad(w, n, nw int64) int64 {
	mn, mx := min(w, n), max(w, n)
	if nw > mx {
		return mn
	}
	if nw < mn {
		return mx
	}
	return w + n - nw
}

// hood is the causal neighbourhood of one sample.
type hood struct{ W, N, NW, NE, NN, WW, NEE int64 }

func neighbours(c *Chan, x, y int) (h hood) {
	at := func(x, y int) int64 { return int64(c.D[y*c.W+x]) }
	if x > 0 {
		h.W = at(x-1, y)
	} else if y > 0 {
		h.W = at(x, y-1)
	}
	if y > 0 {
		h.N = at(x, y-1)
	} else {
		h.N = h.W
	}
	if x > 0 && y > 0 {
		h.NW = at(x-1, y-1)
	} else {
		h.NW = h.W
	}
	if x+1 < c.W && y > 0 {
		h.NE = at(x+1, y-1)
	} else {
		h.NE = h.N
	}
	if y > 1 {
		h.NN = at(x, y-2)
	} else {
		h.NN = h.N
	}
	if x > 1 {
		h.WW = at(x-2, y)
	} else {
		h.WW = h.W
	}
	if x+2 < c.W && y > 0 {
		h.NEE = at(x+2, y-1)
	} else {
		h.NEE = h.NE
	}
	return
}

func predictOne(k int, h hood, wp int64) int64 {
	switch k {
	case 0:
		return 0
	case 1:
		return h.W
	case 2:
		return h.N
	case 3:
		return (h.W + h.N) / 2
	case 4:
		p := h.W + h.N - h.NW
		if abs64(p-h.W) < abs64(p-h.N) {
			return h.W
		}
		return h.N
	case 5:
		return clampGrad(h.W, h.N, h.NW)
	case 6:
		return wp
	case 7:
		return h.NE
	case 8:
		return h.NW
	case 9:
		return h.WW
	case 10:
		return (h.W + h.NW) / 2
	case 11:
		return (h.N + h.NW) / 2
	case 12:
		return (h.N + h.NE) / 2
	case 13:
		return (6*h.N - 2*h.NN + 7*h.W + h.WW + h.NEE + 3*h.NE + 8) / 16
	}
	panic("predictor")
}

// EncodeChannels tokenises chans; samples may be modified when the tree has multipliers.
func EncodeChannels(chans []*Chan, t *MATree, wp WPParams, stream int) []Tok {
	var toks []Tok
	for ci, c := range chans {
		if c.W == 0 || c.H == 0 {
			continue
		}
		var refs []*Chan
		if t.MaxProp > 15 {
			for j := ci - 1; j >= 0; j-- {
				q := chans[j]
				if q.W == c.W && q.H == c.H && q.HS == c.HS && q.VS == c.VS {
					refs = append(refs, q)
				}
			}
		}
		var ws *wpState
		if t.UsesWP {
			ws = newWP(wp, c.W)
		}
		for y := 0; y < c.H; y++ {
			prev9 := int64(0)
			for x := 0; x < c.W; x++ {
				h := neighbours(c, x, y)
				var wpp, wprop int64
				if ws != nil {
					wpp, wprop = ws.predict(x, y, h.N, h.W, h.NE, h.NW, h.NN)
				}
				grad := h.W + h.N - h.NW
				n := t.Root
				for n.Prop >= 0 {
					var p int64
					switch n.Prop {
					case 0:
						p = int64(ci)
					case 1:
						p = int64(stream)
					case 2:
						p = int64(y)
					case 3:
						p = int64(x)
					case 4:
						p = abs64(h.N)
					case 5:
						p = abs64(h.W)
					case 6:
						p = h.N
					case 7:
						p = h.W
					case 8:
						p = h.W - prev9
					case 9:
						p = grad
					case 10:
						p = h.W - h.NW
					case 11:
						p = h.NW - h.N
					case 12:
						p = h.N - h.NE
					case 13:
						p = h.N - h.NN
					case 14:
						p = h.W - h.WW
					case 15:
						p = wprop
					default:
						k := (n.Prop - 16) / 4
						if k < len(refs) {
							q := refs[k]
							v := int64(q.At(x, y))
							var vl, vt, vtl int64
							if x > 0 {
								vl = int64(q.At(x-1, y))
							}
							if y > 0 {
								vt = int64(q.At(x, y-1))
							} else {
								vt = vl
							}
							if x > 0 && y > 0 {
								vtl = int64(q.At(x-1, y-1))
							} else {
								vtl = vl
							}
							d := v - clampGrad(vl, vt, vtl)
							switch (n.Prop - 16) % 4 {
							case 0:
								p = abs64(v)
							case 1:
								p = v
							case 2:
								p = abs64(d)
							case 3:
								p = d
							}
						}
					}
					if p > int64(n.Val) {
						n = n.L
					} else {
						n = n.R
					}
				}
				prev9 = grad
				pred := predictOne(n.Pred, h, wpp) + int64(n.Off)
				v := int64(c.At(x, y))
				m := n.Mul()
				d := v - pred
				q := d / m
				if m > 1 {
					v = pred + q*m
					c.Set(x, y, int32(v))
				}
				if int64(int32(q)) != q {
					panic(fmt.Sprintf("residual overflow %d", q))
				}
				toks = append(toks, Tok{n.Ctx, PackSigned(int32(q))})
				if ws != nil {
					ws.update(x, y, v)
				}
			}
		}
	}
	return toks
}

// ---- transforms ----

const (
	TrRCT     = 0
	TrPalette = 1
	TrSqueeze = 2
)

type SqStep struct {
	Horiz, InPlace bool
	Begin, Num     int
}

type Transform struct {
	Kind     int
	Begin    int
	RCT      int
	NumC     int
	NbCol    int
	NbDelta  int
	DPred    int
	Steps    []SqStep // explicit if Explicit
	Explicit bool
	Meta     bool // applies to meta channels

	metaBefore int // palettes ahead of it in the list
}

func (t Transform) Write(w *BitWriter, r *Rng) {
	if fault("transform-kind") {
		w.Bits(3, 2)
		w.Bits(0, 24)
		w = &BitWriter{} // the rest goes nowhere, but draws what it always does
	}
	w.Bits(uint64(t.Kind), 2)
	if t.Kind != TrSqueeze && fault("transform-channel") {
		t.Begin += 5200
	}
	if t.Kind != TrSqueeze {
		w.U32R(r, uint32(t.Begin), [4]D{{0, 3}, {8, 6}, {72, 10}, {1096, 13}})
	}
	switch t.Kind {
	case TrRCT:
		if fault("rct-type") {
			t.RCT += 42 - t.RCT/32*32
		}
		w.U32R(r, uint32(t.RCT), [4]D{{6, 0}, {0, 2}, {2, 4}, {10, 6}})
	case TrPalette:
		w.U32R(r, uint32(t.NumC), [4]D{{1, 0}, {3, 0}, {4, 0}, {1, 13}})
		w.U32R(r, uint32(t.NbCol), [4]D{{0, 8}, {256, 10}, {1280, 12}, {5376, 16}})
		w.U32R(r, uint32(t.NbDelta), [4]D{{0, 0}, {1, 8}, {257, 10}, {1281, 16}})
		w.Bits(uint64(t.DPred), 4)
	case TrSqueeze:
		n := 0
		if t.Explicit {
			n = len(t.Steps)
		}
		if !t.Explicit && t.metaBefore > 0 {
			bad := SqStep{Horiz: true, Begin: -1}
			switch {
			case fault("squeeze-meta"):
				bad = SqStep{Horiz: true, Begin: 0, Num: 1}
			case fault("squeeze-across"):
				bad = SqStep{Horiz: true, InPlace: true, Begin: t.metaBefore - 1, Num: 2}
			}
			if bad.Begin >= 0 {
				t.Explicit, t.Steps, t.metaBefore, n = true, []SqStep{bad}, 0, 1
			}
		}
		w.U32R(r, uint32(n), [4]D{{0, 0}, {1, 4}, {9, 6}, {41, 8}})
		if t.Explicit {
			for i, s := range t.Steps {
				w.Bool(s.Horiz)
				if fault("squeeze-channel") {
					s.Begin += 5200
				}
				if t.metaBefore > 0 && i == 0 {
					switch {
					case fault("squeeze-meta"):
						s.Begin, s.Num, s.InPlace = 0, 1, false
					case fault("squeeze-across"):
						s.Begin, s.Num, s.InPlace = t.metaBefore-1, 2, true
					}
				}
				w.Bool(s.InPlace)
				w.U32R(r, uint32(s.Begin), [4]D{{0, 3}, {8, 6}, {72, 10}, {1096, 13}})
				w.U32R(r, uint32(s.Num), [4]D{{1, 0}, {2, 0}, {3, 0}, {4, 4}})
			}
		}
	}
}

var rctPerm = [6][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}}

// ModImg is a list of channels with meta channels first.
type ModImg struct {
	Ch     []*Chan
	NbMeta int
}

func sameDim(cs []*Chan) bool {
	for _, c := range cs[1:] {
		if c.W != cs[0].W || c.H != cs[0].H || c.HS != cs[0].HS || c.VS != cs[0].VS {
			return false
		}
	}
	return true
}

func fwdRCT(cs []*Chan, begin, typ int) {
	p := rctPerm[typ/7]
	k := typ % 7
	var v [3]*Chan
	for j := 0; j < 3; j++ {
		v[j] = cs[begin+p[j]]
	}
	for i := range v[0].D {
		a, b, c := v[0].D[i], v[1].D[i], v[2].D[i]
		switch k {
		case 1:
			c -= a
		case 2:
			b -= a
		case 3:
			b -= a
			c -= a
		case 4:
			b -= (a + c) >> 1
		case 5:
			b -= (a + c) >> 1
			c -= a
		case 6:
			co := a - c
			tmp := c + (co >> 1)
			cg := b - tmp
			a, b, c = tmp+(cg>>1), co, cg
		}
		v[0].D[i], v[1].D[i], v[2].D[i] = a, b, c
	}
	for j := 0; j < 3; j++ {
		cs[begin+j] = v[j]
	}
}

func invRCT(cs []*Chan, begin, typ int) {
	p := rctPerm[typ/7]
	k := typ % 7
	v := [3]*Chan{cs[begin], cs[begin+1], cs[begin+2]}
	for i := range v[0].D {
		a, b, c := v[0].D[i], v[1].D[i], v[2].D[i]
		switch k {
		case 1:
			c += a
		case 2:
			b += a
		case 3:
			b += a
			c += a
		case 4:
			b += (a + c) >> 1
		case 5:
			c += a
			b += (a + c) >> 1
		case 6:
			tmp := a - (c >> 1)
			g := c + tmp
			bl := tmp - (b >> 1)
			rd := bl + b
			a, b, c = rd, g, bl
		}
		v[0].D[i], v[1].D[i], v[2].D[i] = a, b, c
	}
	for j := 0; j < 3; j++ {
		cs[begin+p[j]] = v[j]
	}
}

func tendency(B, a, n int64) int64 {
	var d int64
	if B >= a && a >= n {
		d = (4*B - 3*n - a + 6) / 12
		if d-(d&1) > 2*(B-a) {
			d = 2*(B-a) + 1
		}
		if d+(d&1) > 2*(a-n) {
			d = 2 * (a - n)
		}
	} else if B <= a && a <= n {
		d = (4*B - 3*n - a - 6) / 12
		if d+(d&1) < 2*(B-a) {
			d = 2*(B-a) - 1
		}
		if d-(d&1) < 2*(a-n) {
			d = 2 * (a - n)
		}
	}
	return d
}

// line access helpers for squeeze
func fwdSqueezeLine(get func(i int) int64, n int, setA, setR func(i int, v int64)) {
	na := (n + 1) / 2
	avg := func(i int) int64 {
		if 2*i+1 >= n {
			return get(2 * i)
		}
		a, b := get(2*i), get(2*i+1)
		s := a + b
		if a > b {
			s++
		}
		return s >> 1
	}
	for i := 0; i < na; i++ {
		setA(i, avg(i))
	}
	for i := 0; i < n/2; i++ {
		a, b := get(2*i), get(2*i+1)
		m := avg(i)
		next := m
		if i+1 < na {
			next = avg(i + 1)
		}
		left := m
		if i > 0 {
			left = get(2*i - 1)
		}
		setR(i, a-b-tendency(left, m, next))
	}
}

func invSqueezeLine(getA, getR func(i int) int64, na, nr int, get func(i int) int64, set func(i int, v int64)) {
	for i := 0; i < nr; i++ {
		m := getA(i)
		next := m
		if i+1 < na {
			next = getA(i + 1)
		}
		left := m
		if i > 0 {
			left = get(2*i - 1)
		}
		d := getR(i) + tendency(left, m, next)
		a := m + d/2
		set(2*i, a)
		set(2*i+1, a-d)
	}
	if na > nr {
		set(2*nr, getA(nr))
	}
}

func fwdSqueezeCh(c *Chan, horiz bool) (a, r *Chan) {
	if horiz {
		a, r = NewChan((c.W+1)/2, c.H), NewChan(c.W/2, c.H)
		for y := 0; y < c.H; y++ {
			fwdSqueezeLine(func(i int) int64 { return int64(c.At(i, y)) }, c.W,
				func(i int, v int64) { a.Set(i, y, int32(v)) }, func(i int, v int64) { r.Set(i, y, int32(v)) })
		}
		a.HS, a.VS = c.HS+1, c.VS
	} else {
		a, r = NewChan(c.W, (c.H+1)/2), NewChan(c.W, c.H/2)
		for x := 0; x < c.W; x++ {
			fwdSqueezeLine(func(i int) int64 { return int64(c.At(x, i)) }, c.H,
				func(i int, v int64) { a.Set(x, i, int32(v)) }, func(i int, v int64) { r.Set(x, i, int32(v)) })
		}
		a.HS, a.VS = c.HS, c.VS+1
	}
	r.HS, r.VS = a.HS, a.VS
	return
}

func invSqueezeCh(a, r *Chan, horiz bool) *Chan {
	if horiz {
		c := NewChan(a.W+r.W, a.H)
		c.HS, c.VS = a.HS-1, a.VS
		for y := 0; y < c.H; y++ {
			invSqueezeLine(func(i int) int64 { return int64(a.At(i, y)) }, func(i int) int64 { return int64(r.At(i, y)) }, a.W, r.W,
				func(i int) int64 { return int64(c.At(i, y)) }, func(i int, v int64) { c.Set(i, y, int32(v)) })
		}
		return c
	}
	c := NewChan(a.W, a.H+r.H)
	c.HS, c.VS = a.HS, a.VS-1
	for x := 0; x < c.W; x++ {
		invSqueezeLine(func(i int) int64 { return int64(a.At(x, i)) }, func(i int) int64 { return int64(r.At(x, i)) }, a.H, r.H,
			func(i int) int64 { return int64(c.At(x, i)) }, func(i int, v int64) { c.Set(x, i, int32(v)) })
	}
	return c
}

// DefaultSqueeze is the implicit step list.
func DefaultSqueeze(m *ModImg) []SqStep {
	first := m.NbMeta
	n := len(m.Ch) - first
	w, h := m.Ch[first].W, m.Ch[first].H
	var s []SqStep
	if n > 2 && m.Ch[first+1].W == w && m.Ch[first+1].H == h {
		s = append(s, SqStep{true, false, first + 1, 2}, SqStep{false, false, first + 1, 2})
	}
	if h >= w && h > 8 {
		s = append(s, SqStep{false, true, first, n})
		h = (h + 1) / 2
	}
	for w > 8 || h > 8 {
		if w > 8 {
			s = append(s, SqStep{true, true, first, n})
			w = (w + 1) / 2
		}
		if h > 8 {
			s = append(s, SqStep{false, true, first, n})
			h = (h + 1) / 2
		}
	}
	return s
}

func fwdSqueeze(m *ModImg, steps []SqStep) {
	for _, s := range steps {
		end := s.Begin + s.Num
		off := len(m.Ch)
		if s.InPlace {
			off = end
		}
		var res []*Chan
		for c := s.Begin; c < end; c++ {
			a, r := fwdSqueezeCh(m.Ch[c], s.Horiz)
			m.Ch[c] = a
			res = append(res, r)
		}
		if s.Begin < m.NbMeta {
			m.NbMeta += s.Num
		}
		m.Ch = append(m.Ch[:off:off], append(res, m.Ch[off:]...)...)
	}
}

func invSqueeze(m *ModImg, steps []SqStep) {
	for i := len(steps) - 1; i >= 0; i-- {
		s := steps[i]
		end := s.Begin + s.Num
		off := len(m.Ch) - s.Num
		if s.InPlace {
			off = end
		}
		for c := s.Begin; c < end; c++ {
			m.Ch[c] = invSqueezeCh(m.Ch[c], m.Ch[off+c-s.Begin], s.Horiz)
		}
		m.Ch = append(m.Ch[:off:off], m.Ch[off+s.Num:]...)
		if s.Begin < m.NbMeta {
			m.NbMeta -= s.Num
		}
	}
}

var deltaPal = [72][3]int32{
	{0, 0, 0}, {4, 4, 4}, {11, 0, 0}, {0, 0, -13}, {0, -12, 0}, {-10, -10, -10},
	{-18, -18, -18}, {-27, -27, -27}, {-18, -18, 0}, {0, 0, -32}, {-32, 0, 0}, {-37, -37, -37},
	{0, -32, -32}, {24, 24, 45}, {50, 50, 50}, {-45, -24, -24}, {-24, -45, -45}, {0, -24, -24},
	{-34, -34, 0}, {-24, 0, -24}, {-45, -45, -24}, {64, 64, 64}, {-32, 0, -32}, {0, -32, 0},
	{-32, 0, 32}, {-24, -45, -24}, {45, 24, 45}, {24, -24, -45}, {-45, -24, 24}, {80, 80, 80},
	{64, 0, 0}, {0, 0, -64}, {0, -64, -64}, {-24, -24, 45}, {96, 96, 96}, {64, 64, 0},
	{45, -24, -24}, {34, -34, 0}, {112, 112, 112}, {24, -45, -45}, {45, 45, -24}, {0, -32, 32},
	{24, -24, 45}, {0, 96, 96}, {45, -24, 24}, {24, -45, -24}, {-24, -45, 24}, {0, -64, 0},
	{96, 0, 0}, {128, 128, 128}, {64, 0, 64}, {144, 144, 144}, {96, 96, 0}, {-36, -36, 36},
	{45, -24, -45}, {45, -45, -24}, {0, 0, -96}, {0, 128, 128}, {0, 96, 0}, {45, 24, -45},
	{-128, 0, 0}, {24, -45, 24}, {-45, 24, -45}, {64, 0, -64}, {64, -64, -64}, {96, 0, 96},
	{45, -45, 24}, {24, 45, -45}, {64, 64, -64}, {128, 128, 0}, {0, 0, -128}, {-24, 45, -45},
}

func paletteValue(pal *Chan, idx int32, c int, nb int, bitDepth int) int32 {
	if idx < 0 {
		if c >= 3 {
			return 0
		}
		i := (-(int64(idx) + 1)) % 143
		v := deltaPal[(i+1)>>1][c]
		if i&1 == 0 {
			v = -v
		}
		if bitDepth > 8 {
			v *= 1 << uint(bitDepth-8)
		}
		return v
	}
	if int(idx) < nb {
		return pal.At(int(idx), c)
	}
	if c >= 3 {
		return 0
	}
	i := int64(idx) - int64(nb)
	mx := int64(1)<<uint(bitDepth) - 1
	if i < 64 {
		i >>= uint(2 * c)
		return int32((i%4)*mx/4 + 1<<uint(max(0, bitDepth-3)))
	}
	i -= 64
	for k := 0; k < c; k++ {
		i /= 5
	}
	return int32((i % 5) * mx / 4)
}

func invPalette(m *ModImg, t Transform, wp WPParams, bitDepth int) {
	pal := m.Ch[0]
	idx := m.Ch[t.Begin+1]
	outs := make([]*Chan, t.NumC)
	for c := range outs {
		o := NewChan(idx.W, idx.H)
		o.HS, o.VS = idx.HS, idx.VS
		outs[c] = o
		var ws *wpState
		if t.NbDelta > 0 && t.DPred == 6 {
			ws = newWP(wp, idx.W)
		}
		for y := 0; y < idx.H; y++ {
			for x := 0; x < idx.W; x++ {
				i := idx.At(x, y)
				v := int64(paletteValue(pal, i, c, t.NbCol, bitDepth))
				h := neighbours(o, x, y)
				var wpp int64
				if ws != nil && i < int32(t.NbDelta) {
					wpp, _ = ws.predict(x, y, h.N, h.W, h.NE, h.NW, h.NN)
				}
				if i < int32(t.NbDelta) {
					v += predictOne(t.DPred, h, wpp)
				}
				o.Set(x, y, int32(v))
				if ws != nil {
					ws.update(x, y, int64(int32(v)))
				}
			}
		}
	}
	// nb_meta bookkeeping
	if t.Begin+1 <= m.NbMeta-1 {
		m.NbMeta -= 2 - t.NumC
	} else {
		m.NbMeta--
	}
	rest := append([]*Chan{}, m.Ch[t.Begin+2:]...)
	m.Ch = append(append(m.Ch[1:t.Begin+1:t.Begin+1], outs...), rest...)
}

// InverseTransforms applies the reference inverse.
func InverseTransforms(m *ModImg, ts []Transform, wp WPParams, bitDepth int) {
	for i := len(ts) - 1; i >= 0; i-- {
		switch ts[i].Kind {
		case TrRCT:
			invRCT(m.Ch, ts[i].Begin, ts[i].RCT)
		case TrSqueeze:
			invSqueeze(m, ts[i].Steps)
		case TrPalette:
			invPalette(m, ts[i], wp, bitDepth)
		}
	}
}

// TransformOpts restricts which transforms RandTransforms picks.
type TransformOpts struct {
	Kinds    []int // allowed kinds
	Max      int
	BitDepth int
	// Lossy is set when the forward pass changed the image (palette quantisation)
}

// RandTransforms applies random forward transforms in place, returning them in bitstream order.
func RandTransforms(r *Rng, m *ModImg, o TransformOpts) []Transform {
	var ts []Transform
	n := r.R(0, o.Max)
	// meta channels (palettes) are transformed as well now and then
	within := func(b, num int) bool {
		return b >= m.NbMeta || b+num <= m.NbMeta && r.P(0.4)
	}
	for k := 0; k < n && len(o.Kinds) > 0; k++ {
		kind := o.Kinds[r.N(len(o.Kinds))]
		switch kind {
		case TrRCT:
			var cand []int
			for b := 0; b+3 <= len(m.Ch); b++ {
				if within(b, 3) && sameDim(m.Ch[b:b+3]) && m.Ch[b].W > 0 {
					cand = append(cand, b)
				}
			}
			if len(cand) == 0 {
				continue
			}
			t := Transform{Kind: TrRCT, Begin: cand[r.N(len(cand))], RCT: r.N(42)}
			if r.P(0.2) || len(m.Ch) > 1000 && r.P(0.6) {
				t.Begin = cand[len(cand)-1-r.N(min(4, len(cand)))]
			}
			t.Meta = t.Begin < m.NbMeta
			if r.P(0.3) {
				t.RCT = 6
			}
			fwdRCT(m.Ch, t.Begin, t.RCT)
			ts = append(ts, t)
		case TrSqueeze:
			if len(m.Ch) == m.NbMeta {
				continue
			}
			many := len(m.Ch) > 40
			t := Transform{Kind: TrSqueeze}
			if !many && r.P(0.5) {
				ok := true
				for _, c := range m.Ch[m.NbMeta:] {
					if c.W == 0 || c.H == 0 {
						ok = false
					}
				}
				if !ok {
					continue
				}
				t.Steps = DefaultSqueeze(m)
				if (len(m.Ch)-m.NbMeta)*(1+len(t.Steps)) > 200 {
					continue
				}
				// the default list can squeeze small channels down to nothing; only when sizes are uniform
				fwdSqueeze(m, t.Steps)
				if len(t.Steps) == 0 {
					// still a legal transform with no effect
				}
			} else {
				t.Explicit = true
				ns, most, cap := r.R(1, 3), 4, max(120, len(m.Ch)+20)
				want := 296 // what the format can count
				if !many && r.P(0.1) {
					ns = r.Pick(r.R(4, 20), r.R(20, 60))
				}
				if !many && r.P(0.04) && len(m.Ch) > m.NbMeta && m.Ch[m.NbMeta].W >= 16 && m.Ch[m.NbMeta].H >= 16 {
					ns, most, cap, want = 3000, 1, 340, r.R(60, 296)
				}
				for s := 0; s < ns && len(t.Steps) < want; s++ {
					b := r.R(m.NbMeta, len(m.Ch)-1)
					if r.P(0.1) || len(m.Ch) > 1000 && r.P(0.6) {
						b = max(m.NbMeta, len(m.Ch)-1-r.N(4))
					}
					num := r.R(1, min(most, len(m.Ch)-b))
					st := SqStep{r.Bool(), r.Bool(), b, num}
					if m.NbMeta > 0 && r.P(0.2) {
						st.Begin = r.N(m.NbMeta)
						st.Num = r.R(1, min(4, m.NbMeta-st.Begin))
						st.InPlace = true
						b, num = st.Begin, st.Num
						t.Meta = true
					}
					ok := len(m.Ch)+num < cap
					for _, c := range m.Ch[b : b+num] {
						if c.W == 0 || c.H == 0 || c.HS > 4 || c.VS > 4 {
							ok = false
						}
						if st.Horiz && c.W < 2 || !st.Horiz && c.H < 2 {
							ok = false
						}
					}
					if !ok {
						continue
					}
					fwdSqueeze(m, []SqStep{st})
					t.Steps = append(t.Steps, st)
				}
				if len(t.Steps) == 0 {
					continue
				}
			}
			ts = append(ts, t)
		case TrPalette:
			var cand [][2]int
			most := r.Pick(4, 4, 4, 4, 40)
			for b := 0; b < len(m.Ch); b++ {
				for num := 1; num <= most && b+num <= len(m.Ch); num++ {
					if within(b, num) && sameDim(m.Ch[b:b+num]) && m.Ch[b].W > 0 && m.Ch[b].H > 0 {
						cand = append(cand, [2]int{b, num})
					}
				}
			}
			if len(cand) == 0 {
				continue
			}
			c := cand[r.N(len(cand))]
			if r.P(0.2) || len(m.Ch) > 1000 && r.P(0.6) { // near the end of the list
				c = cand[len(cand)-1-r.N(min(4, len(cand)))]
			}
			if r.P(0.6) { // prefer the longest
				for _, q := range cand {
					if q[1] > c[1] {
						c = q
					}
				}
			}
			t := fwdPalette(r, m, c[0], c[1], o.BitDepth)
			ts = append(ts, t)
		}
	}
	return ts
}

// fwdPalette replaces channels by an index channel; the image may change (it is re-derived by the inverse).
func fwdPalette(r *Rng, m *ModImg, b, num int, bitDepth int) Transform {
	src := m.Ch[b : b+num]
	w, h := src[0].W, src[0].H
	t := Transform{Kind: TrPalette, Begin: b, NumC: num}
	maxCol := r.Pick(1, 2, 5, 16, 60, 255, 256, 300, 700)
	if r.P(0.1) && num < 5 {
		maxCol = r.Pick(1279, 1280, 1300, 2000, 5376, 6000, 12000)
	}
	pal := map[string]int{}
	var cols [][]int32
	idx := NewChan(w, h)
	idx.HS, idx.VS = src[0].HS, src[0].VS
	for i := 0; i < w*h; i++ {
		key := ""
		col := make([]int32, num)
		for c := range src {
			col[c] = src[c].D[i]
			key += fmt.Sprint(col[c], ",")
		}
		k, ok := pal[key]
		if !ok {
			if len(cols) < maxCol {
				k = len(cols)
				cols = append(cols, col)
				pal[key] = k
			} else {
				k = int(uint32(i*7+int(col[0])) % uint32(len(cols)))
			}
		}
		idx.D[i] = int32(k)
	}
	t.NbCol = len(cols)
	switch r.N(4) {
	case 0: // deltas
		t.NbDelta = r.R(1, t.NbCol)
		t.DPred = r.N(14)
		for k := 0; k < t.NbDelta; k++ {
			for c := range cols[k] {
				cols[k][c] = int32(r.R(-6, 6))
			}
		}
		for k := 0; k < 40 && r.Bool(); k++ {
			idx.D[r.N(len(idx.D))] = int32(-1 - r.N(300))
		}
		if t.DPred == 6 {
			// with plain entries in between, the weighted predictor's stale state can grow without bound
			for k := range idx.D {
				if idx.D[k] >= int32(t.NbDelta) {
					idx.D[k] %= int32(t.NbDelta)
				}
			}
		}
	case 1: // implicit colours
		for k := 0; k < w*h/2; k++ {
			idx.D[r.N(len(idx.D))] = int32(t.NbCol + r.N(64+125))
		}
		if r.P(0.2) {
			t.NbCol = 0
			cols = nil
			for k := range idx.D {
				idx.D[k] = int32(r.N(64 + 125))
			}
		}
	}
	pc := NewChan(t.NbCol, num)
	for k, col := range cols {
		for c, v := range col {
			pc.Set(k, c, v)
		}
	}
	pc.HS, pc.VS = -1, -1
	rest := append([]*Chan{}, m.Ch[b+num:]...)
	head := append([]*Chan{pc}, m.Ch[:b]...)
	m.Ch = append(append(head, idx), rest...)
	if b < m.NbMeta {
		t.Meta = true
		m.NbMeta += 2 - num
	} else {
		m.NbMeta++
	}
	return t
}

// ModStream is one modular sub-bitstream ready for tokenising.
type ModStream struct {
	ID        int
	Img       *ModImg
	Trans     []Transform
	WP        WPParams
	UseGlobal bool
	Tree      *MATree // tree in effect
	Toks      []Tok
	NCoded    int // channels actually coded here (rest go to groups)
	DistMult  int
	r         *Rng
	ent       *EntCode // local code
	syms      []esym
	EntO      EntOpts
	Empty     bool
}

// Tokenise predicts and tokenises the coded channels.
func (s *ModStream) Tokenise() {
	mw := 0
	for _, c := range s.Img.Ch[:s.NCoded] {
		if c.H > 0 && c.W > mw {
			mw = c.W
		}
	}
	s.DistMult = mw
	s.Toks = EncodeChannels(s.Img.Ch[:s.NCoded], s.Tree, s.WP, s.ID)
	if !s.UseGlobal {
		var sy [][]esym
		s.ent, sy = BuildEnt(s.r, s.Tree.NumCtx, []TokSection{{s.Toks, s.DistMult}}, s.EntO)
		s.syms = sy[0]
	}
}

// Write emits the sub-bitstream. syms must be given when the global code is used.
func (s *ModStream) Write(w *BitWriter, global *EntCode, gsyms []esym) {
	if s.Empty {
		return
	}
	w.Bool(s.UseGlobal)
	s.WP.Write(w)
	w.U32(uint32(len(s.Trans)), [4]D{{0, 0}, {1, 0}, {2, 4}, {18, 8}})
	metas := 0
	for _, t := range s.Trans {
		t.metaBefore = metas
		t.Write(w, s.r)
		if t.Kind == TrPalette {
			metas++
			if t.Meta {
				metas = -1000 // the count is more involved then
			}
		}
	}
	if s.UseGlobal {
		global.WriteSyms(w, gsyms)
		return
	}
	s.Tree.Write(w, s.r, s.EntO)
	s.ent.WriteHeader(w)
	s.ent.WriteSyms(w, s.syms)
}

// Dump renders a tree.
func (t *MATree) Dump() string {
	var rec func(n *MANode, ind string) string
	rec = func(n *MANode, ind string) string {
		if n.Prop < 0 {
			return fmt.Sprintf("%sleaf ctx %d pred %d off %d mul %d<<%d\n", ind, n.Ctx, n.Pred, n.Off, n.MulB+1, n.MulLog)
		}
		return fmt.Sprintf("%sp%d > %d\n", ind, n.Prop, n.Val) + rec(n.L, ind+"  ") + rec(n.R, ind+"  ")
	}
	return rec(t.Root, "")
}
