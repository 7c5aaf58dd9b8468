package jx

// CustomXY in units of 1e-6.
type XY struct{ X, Y int }

func (c XY) write(w *BitWriter, r *Rng) {
	d := [4]D{{0, 19}, {524288, 19}, {1048576, 20}, {2097152, 21}}
	w.U32(PackSigned(int32(c.X)), d)
	w.U32(PackSigned(int32(c.Y)), d)
}

// ColorEnc is a colour encoding bundle.
type ColorEnc struct {
	AllDefault bool
	ICC        bool
	Space      int // 0 RGB 1 Gray 2 XYB 3 unknown
	White      int // 1 D65 2 custom 10 E 11 DCI
	WhiteXY    XY
	Prim       int // 1 sRGB 2 custom 9 2100 11 P3
	PrimXY     [3]XY
	HaveGamma  bool
	Gamma      int // 1e-7 units
	TF         int // 1 709 2 unknown 8 linear 13 sRGB 16 PQ 17 DCI 18 HLG
	Intent     int
}

func SRGBEnc() ColorEnc { return ColorEnc{Space: 0, White: 1, Prim: 1, TF: 13, Intent: 1} }
func GrayEnc() ColorEnc { return ColorEnc{Space: 1, White: 1, Prim: 1, TF: 13, Intent: 1} }

func (c ColorEnc) write(w *BitWriter, r *Rng) {
	w.Bool(c.AllDefault)
	if c.AllDefault {
		return
	}
	w.Bool(c.ICC)
	w.Enum(c.Space)
	if c.ICC {
		return
	}
	if c.Space != 2 {
		w.Enum(c.White)
		if c.White == 2 {
			c.WhiteXY.write(w, r)
		}
		if c.Space != 1 {
			w.Enum(c.Prim)
			if c.Prim == 2 {
				for _, p := range c.PrimXY {
					p.write(w, r)
				}
			}
		}
		w.Bool(c.HaveGamma)
		if c.HaveGamma {
			w.Bits(uint64(c.Gamma), 24)
		} else {
			w.Enum(c.TF)
		}
	}
	w.Enum(c.Intent)
}

// BitDepth of samples.
type BitDepth struct {
	Float bool
	Bits  int
	Exp   int
}

func (b BitDepth) write(w *BitWriter, r *Rng) {
	w.Bool(b.Float)
	if !b.Float {
		w.U32R(r, uint32(b.Bits), [4]D{{8, 0}, {10, 0}, {12, 0}, {1, 6}})
		return
	}
	w.U32R(r, uint32(b.Bits), [4]D{{32, 0}, {16, 0}, {24, 0}, {1, 6}})
	w.Bits(uint64(b.Exp-1), 4)
}

// Extra channel types.
const (
	ECAlpha = 0
	ECDepth = 1
	ECSpot  = 2
	ECSel   = 3
	ECBlack = 4
	ECCFA   = 5
	ECTherm = 6
	ECOpt   = 16
)

type ExtraCh struct {
	AllDefault bool
	Type       int
	BD         BitDepth
	DimShift   int
	Name       string
	Premult    bool
	Spot       [4]float64
	CFA        int
}

func (e ExtraCh) write(w *BitWriter, r *Rng) {
	w.Bool(e.AllDefault)
	if e.AllDefault {
		return
	}
	w.Enum(e.Type)
	e.BD.write(w, r)
	w.U32R(r, uint32(e.DimShift), [4]D{{0, 0}, {3, 0}, {4, 0}, {1, 3}})
	w.U32R(r, uint32(len(e.Name)), [4]D{{0, 0}, {0, 4}, {16, 5}, {48, 10}})
	w.AppendBytes([]byte(e.Name))
	switch e.Type {
	case ECAlpha:
		w.Bool(e.Premult)
	case ECSpot:
		for _, v := range e.Spot {
			w.F16(v)
		}
	case ECCFA:
		w.U32R(r, uint32(e.CFA), [4]D{{1, 0}, {0, 2}, {3, 4}, {19, 8}})
	}
}

type ToneMap struct {
	Set           bool // not all-default
	Intensity     float64
	MinNits       float64
	RelativeToMax bool
	LinearBelow   float64
}

type Opsin struct {
	Set   bool
	M     [9]float64
	Bias  [3]float64
	QBias [4]float64
}

func DefaultOpsin() Opsin {
	return Opsin{
		M: [9]float64{11.031566901960783, -9.866943921568629, -0.16462299647058826,
			-3.254147380392157, 4.418770392156863, -0.16462299647058826,
			-3.6588512862745097, 2.7129230470588235, 1.9459282392156863},
		Bias:  [3]float64{-0.0037930732552754493, -0.0037930732552754493, -0.0037930732552754493},
		QBias: [4]float64{1 - 0.05465007330715401, 1 - 0.07005449891748593, 1 - 0.049935103337343655, 0.145},
	}
}

// Meta is the image header.
type Meta struct {
	HdrBytes int // length of the image header as written

	W, H        int
	Small       bool // allow small/ratio forms
	AllDefault  bool
	ExtraFields bool
	Orient      int
	Intrinsic   [2]int
	BD          BitDepth
	Mod16       bool
	EC          []ExtraCh
	XYB         bool
	CE          ColorEnc
	TM          ToneMap
	Ext         uint64
	ExtLens     []int // bits
	XformDef    bool  // custom transform data all-default
	Opsin       Opsin
	Up2         []float64
	Up4         []float64
	Up8         []float64
	ICC         []byte
	Preview     bool
	PreviewSz   [2]int // 0: 8x8
	Anim        bool
	AnimTC      bool // with time codes
}

func (m *Meta) NColor() int {
	if m.CE.Space == 1 && !m.AllDefault {
		return 1
	}
	return 3
}

// ModColor is the number of colour channels of a modular/VarDCT frame.
func (m *Meta) ModColor(modular bool) int {
	if m.NColor() == 1 && !m.XYB && modular {
		return 1
	}
	return 3
}

func writeSize(w *BitWriter, r *Rng, W, H int) {
	ratio := 0
	rs := [8][2]int{{0, 0}, {1, 1}, {12, 10}, {4, 3}, {3, 2}, {16, 9}, {5, 4}, {2, 1}}
	for i := 1; i < 8; i++ {
		if H*rs[i][0]/rs[i][1] == W && r.P(0.8) {
			ratio = i
			break
		}
	}
	small := H%8 == 0 && H <= 256 && (ratio != 0 || W%8 == 0 && W <= 256) && r.P(0.8)
	w.Bool(small)
	d := [4]D{{1, 9}, {1, 13}, {1, 18}, {1, 30}}
	if small {
		w.Bits(uint64(H/8-1), 5)
	} else {
		w.U32R(r, uint32(H), d)
	}
	w.Bits(uint64(ratio), 3)
	if ratio == 0 {
		if small {
			w.Bits(uint64(W/8-1), 5)
		} else {
			w.U32R(r, uint32(W), d)
		}
	}
}

func writePreview(w *BitWriter, r *Rng, sz [2]int) {
	W, H := sz[0], sz[1]
	if W == 0 {
		W, H = 8, 8
	}
	ratio := 0
	rs := [8][2]int{{0, 0}, {1, 1}, {12, 10}, {4, 3}, {3, 2}, {16, 9}, {5, 4}, {2, 1}}
	for i := 1; i < 8; i++ {
		if H*rs[i][0]/rs[i][1] == W && r.P(0.8) {
			ratio = i
			break
		}
	}
	div8 := H%8 == 0 && (ratio != 0 || W%8 == 0) && r.P(0.8)
	w.Bool(div8)
	put := func(v int) {
		if div8 {
			w.U32R(r, uint32(v/8), [4]D{{16, 0}, {32, 0}, {1, 5}, {33, 9}})
		} else {
			w.U32R(r, uint32(v), [4]D{{1, 6}, {65, 8}, {321, 10}, {1345, 12}})
		}
	}
	put(H)
	w.Bits(uint64(ratio), 3)
	if ratio == 0 {
		put(W)
	}
}

func writeExt(w *BitWriter, ext uint64, lens []int) {
	w.U64(ext)
	if ext == 0 {
		return
	}
	k := 0
	for i := 0; i < 64; i++ {
		if ext>>uint(i)&1 == 1 {
			w.U64(uint64(lens[k]))
			k++
		}
	}
	for _, n := range lens {
		for i := 0; i < n; i++ {
			w.Bits(uint64(i&1), 1)
		}
	}
}

// Write emits the header including signature, and ICC, padded to a byte.
func (m *Meta) Write(w *BitWriter, r *Rng) {
	if fault("signature") {
		w.Bits(0x0bff, 16)
	} else {
		w.Bits(0x0aff, 16)
	}
	writeSize(w, r, m.W, m.H)
	w.Bool(m.AllDefault)
	if !m.AllDefault {
		xf := m.ExtraFields || m.Orient > 1 || m.TM.Set || m.Preview || m.Anim
		w.Bool(xf)
		if xf {
			o := m.Orient
			if o == 0 {
				o = 1
			}
			w.Bits(uint64(o-1), 3)
			w.Bool(m.Intrinsic[0] > 0)
			if m.Intrinsic[0] > 0 {
				writeSize(w, r, m.Intrinsic[0], m.Intrinsic[1])
			}
			w.Bool(m.Preview)
			if m.Preview {
				writePreview(w, r, m.PreviewSz)
			}
			w.Bool(m.Anim)
			if m.Anim {
				w.U32R(r, uint32(r.Pick(100, 1000, 1+r.N(1024))), [4]D{{100, 0}, {1000, 0}, {1, 10}, {1, 30}})
				w.U32R(r, uint32(r.Pick(1, 1001, 1+r.N(256))), [4]D{{1, 0}, {1001, 0}, {1, 8}, {1, 10}})
				w.U32R(r, uint32(r.Pick(0, r.N(8))), [4]D{{0, 0}, {0, 3}, {0, 16}, {0, 32}})
				w.Bool(m.AnimTC)
			}
		}
		m.BD.write(w, r)
		w.Bool(m.Mod16)
		w.U32R(r, uint32(len(m.EC)), [4]D{{0, 0}, {1, 0}, {2, 4}, {1, 12}})
		for _, e := range m.EC {
			e.write(w, r)
		}
		w.Bool(m.XYB)
		m.CE.write(w, r)
		if xf {
			w.Bool(!m.TM.Set)
			if m.TM.Set {
				tm := m.TM
				switch {
				case fault("tone-intensity"):
					tm.Intensity = -tm.Intensity
				case fault("tone-min-negative"):
					tm.MinNits = -1
				case fault("tone-min"):
					tm.Intensity, tm.MinNits = 255, 256
				case fault("tone-below"):
					tm.LinearBelow = -1
				case tm.RelativeToMax && fault("tone-relative"):
					tm.LinearBelow = 1.5
				}
				w.F16(tm.Intensity)
				w.F16(tm.MinNits)
				w.Bool(tm.RelativeToMax)
				w.F16(tm.LinearBelow)
			}
		}
		writeExt(w, m.Ext, m.ExtLens)
	}
	w.Bool(m.XformDef)
	if !m.XformDef {
		if m.XYB || m.AllDefault {
			w.Bool(!m.Opsin.Set)
			if m.Opsin.Set {
				for _, v := range m.Opsin.M {
					w.F16(v)
				}
				for _, v := range m.Opsin.Bias {
					w.F16(v)
				}
				for _, v := range m.Opsin.QBias {
					w.F16(v)
				}
			}
		}
		mask := 0
		if m.Up2 != nil {
			mask |= 1
		}
		if m.Up4 != nil {
			mask |= 2
		}
		if m.Up8 != nil {
			mask |= 4
		}
		w.Bits(uint64(mask), 3)
		for _, u := range [][]float64{m.Up2, m.Up4, m.Up8} {
			for _, v := range u {
				w.F16(v)
			}
		}
	}
	if m.CE.ICC && !m.AllDefault {
		WriteICC(w, r, m.ICC)
	}
	w.Align()
}

// ---- frame header ----

type BlendInfo struct {
	Mode, Alpha int
	Clamp       bool
	Source      int
}

const (
	BlReplace = 0
	BlAdd     = 1
	BlBlend   = 2
	BlMulAdd  = 3
	BlMul     = 4
)

func (b BlendInfo) write(w *BitWriter, nec int, alpha, full bool) {
	mode := b.Mode
	if fault("blend-mode") {
		mode = 5 + mode%2
	}
	w.U32(uint32(mode), [4]D{{0, 0}, {1, 0}, {2, 0}, {3, 2}})
	al := b.Mode == BlBlend || b.Mode == BlMulAdd
	if nec > 0 && al {
		if alpha && nec < 10 && fault("blend-alpha") {
			b.Alpha = nec + b.Alpha%(10-nec)
		}
		w.U32(uint32(b.Alpha), [4]D{{0, 0}, {1, 0}, {2, 0}, {3, 3}})
	}
	if nec > 0 && al || b.Mode == BlMul {
		w.Bool(b.Clamp)
	}
	if b.Mode != BlReplace || !full {
		w.Bits(uint64(b.Source), 2)
	}
}

type RestFilter struct {
	AllDefault  bool
	Gab         bool
	GabCustom   bool
	GabW        [6]float64 // x1 x2 y1 y2 b1 b2
	EpfIters    int
	SharpCustom bool
	SharpLut    [8]float64
	WCustom     bool
	ChScale     [3]float64
	ZeroFlush   [2]float64
	SigCustom   bool
	QuantMul    float64
	P0Scale     float64
	P2Scale     float64
	BorderMul   float64
	SigmaMod    float64
	Pinned      bool // leave out the flag of the channel weights, as the unit tests have it
}

func DefaultRF() RestFilter {
	r := RestFilter{AllDefault: true, Gab: true, EpfIters: 2}
	r.fill()
	return r
}

// NoRF disables all filters.
func NoRF() RestFilter {
	r := RestFilter{}
	r.fill()
	return r
}

func (r *RestFilter) fill() {
	r.GabW = [6]float64{0.115169525, 0.061248592, 0.115169525, 0.061248592, 0.115169525, 0.061248592}
	for i := range r.SharpLut {
		r.SharpLut[i] = float64(i) / 7
	}
	r.ChScale = [3]float64{40, 5, 3.5}
	r.ZeroFlush = [2]float64{0.45, 0.6}
	r.QuantMul = 0.46
	r.P0Scale = 0.9
	r.P2Scale = 6.5
	r.BorderMul = 2.0 / 3
	r.SigmaMod = 1
}

func (f RestFilter) write(w *BitWriter, modular bool) {
	w.Bool(f.AllDefault)
	if f.AllDefault {
		return
	}
	w.Bool(f.Gab)
	if f.Gab {
		w.Bool(f.GabCustom)
		if f.GabCustom {
			for _, v := range f.GabW {
				w.F16(v)
			}
		}
	}
	w.Bits(uint64(f.EpfIters), 2)
	if f.EpfIters > 0 {
		if !modular {
			w.Bool(f.SharpCustom)
			if f.SharpCustom {
				for _, v := range f.SharpLut {
					w.F16(v)
				}
			}
		}
		if !f.Pinned {
			w.Bool(f.WCustom)
		}
		if f.WCustom {
			for _, v := range f.ChScale {
				w.F16(v)
			}
			for _, v := range f.ZeroFlush {
				w.F16(v)
			}
		}
		w.Bool(f.SigCustom)
		if f.SigCustom {
			if !modular {
				w.F16(f.QuantMul)
			}
			w.F16(f.P0Scale)
			w.F16(f.P2Scale)
			w.F16(f.BorderMul)
		}
		if modular {
			w.F16(f.SigmaMod)
		}
	}
	w.U64(0)
}

type PassSpec struct {
	Num    int
	Shift  []int
	Ds     []int // 1,2,4,8
	LastPs []int
}

const (
	FrRegular = 0
	FrLF      = 1
	FrRef     = 2
	FrSkip    = 3
)

type FrameHdr struct {
	AllDefault   bool
	Type         int
	Modular      bool
	Flags        uint64
	YCbCr        bool
	JpegUp       [3]int
	Up           int
	EcUp         []int
	GroupShift   int
	Xqm, Bqm     int
	Pass         PassSpec
	LfLevel      int
	Crop         bool
	X0, Y0, W, H int
	Blend        BlendInfo
	EcBlend      []BlendInfo
	IsLast       bool
	SaveRef      int
	SaveBeforeCT bool
	Name         string
	RF           RestFilter
	Ext          uint64
	ExtLens      []int
	Duration     uint32 // of animation frames
}

// Size is the frame size in image pixels (before division by upsampling).
func (f *FrameHdr) Size(m *Meta) (int, int) {
	if f.Crop {
		return f.W, f.H
	}
	return m.W, m.H
}

// Dim is the coded colour size.
func (f *FrameHdr) Dim(m *Meta) (int, int) {
	w, h := f.Size(m)
	u := max(f.Up, 1)
	w, h = ceilDiv(w, u), ceilDiv(h, u)
	d := 1 << uint(3*f.LfLevel)
	return ceilDiv(w, d), ceilDiv(h, d)
}

func (f *FrameHdr) GroupDim() int {
	if f.Modular {
		return 128 << uint(f.GroupShift)
	}
	return 256
}

func (f *FrameHdr) Full(m *Meta) bool {
	if !f.Crop {
		return true
	}
	x0, y0 := f.X0, f.Y0
	if f.Type == FrRef {
		x0, y0 = 0, 0
	}
	return x0 <= 0 && y0 <= 0 && x0+f.W >= m.W && y0+f.H >= m.H
}

func (f *FrameHdr) Write(w *BitWriter, r *Rng, m *Meta) {
	w.Bool(f.AllDefault)
	if f.AllDefault {
		return
	}
	w.Bits(uint64(f.Type), 2)
	w.Bool(f.Modular)
	fl := f.Flags
	if !f.Modular && fl&(32|128) == 128 && f.YCbCr && f.subsampled() && fault("smoothing-subsampled") {
		fl &^= 128
	}
	w.U64(fl)
	if !m.XYB && !m.AllDefault {
		w.Bool(f.YCbCr)
	}
	if f.YCbCr && f.Flags&32 == 0 {
		for _, j := range f.JpegUp {
			w.Bits(uint64(j), 2)
		}
	}
	lg := map[int]uint64{0: 0, 1: 0, 2: 1, 4: 2, 8: 3}
	if f.Flags&32 == 0 {
		w.Bits(lg[f.Up], 2)
		for i := range m.EC {
			u := 1
			if i < len(f.EcUp) {
				u = f.EcUp[i]
			}
			switch {
			case f.Up > 1 && m.EC[i].DimShift == 0 && fault("extra-upsampling-small"):
				w.Bits(0, 2)
			case m.EC[i].DimShift > 0 && fault("extra-upsampling-large"):
				w.Bits(3, 2)
			default:
				w.Bits(lg[u], 2)
			}
		}
	}
	if f.Modular {
		w.Bits(uint64(f.GroupShift), 2)
	} else if m.XYB || m.AllDefault {
		w.Bits(uint64(f.Xqm), 3)
		w.Bits(uint64(f.Bqm), 3)
	}
	if f.Type != FrRef {
		np := max(f.Pass.Num, 1)
		w.U32(uint32(np), [4]D{{1, 0}, {2, 0}, {3, 0}, {4, 3}})
		if np != 1 {
			w.U32(uint32(len(f.Pass.Ds)), [4]D{{0, 0}, {1, 0}, {2, 0}, {3, 1}})
			for i := 0; i < np-1; i++ {
				w.Bits(uint64(f.Pass.Shift[i]), 2)
			}
			for _, d := range f.Pass.Ds {
				w.Bits(lg[d], 2)
			}
			for _, l := range f.Pass.LastPs {
				w.U32(uint32(l), [4]D{{0, 0}, {1, 0}, {2, 0}, {0, 3}})
			}
		}
	}
	if f.Type == FrLF {
		w.Bits(uint64(f.LfLevel-1), 2)
	} else {
		w.Bool(f.Crop)
	}
	d := [4]D{{0, 8}, {256, 11}, {2304, 14}, {18688, 30}}
	if f.Crop {
		if f.Type != FrRef {
			w.U32R(r, PackSigned(int32(f.X0)), d)
			w.U32R(r, PackSigned(int32(f.Y0)), d)
		}
		w.U32R(r, uint32(f.W), d)
		w.U32R(r, uint32(f.H), d)
	}
	full := f.Full(m)
	normal := f.Type == FrRegular || f.Type == FrSkip
	if normal {
		alpha := false
		for _, e := range m.EC {
			alpha = alpha || e.AllDefault || e.Type == ECAlpha
		}
		f.Blend.write(w, len(m.EC), alpha, full)
		for i := range m.EC {
			b := BlendInfo{}
			if i < len(f.EcBlend) {
				b = f.EcBlend[i]
			}
			b.write(w, len(m.EC), alpha, full)
		}
		if m.Anim {
			w.U32R(r, f.Duration, [4]D{{0, 0}, {1, 0}, {0, 8}, {0, 32}})
			if m.AnimTC {
				w.Bits(r.U64()>>32, 32)
			}
		}
		w.Bool(f.IsLast)
	}
	if f.Type != FrLF && !f.IsLast {
		w.Bits(uint64(f.SaveRef), 2)
	}
	if f.Type == FrRef || full && normal && !f.IsLast && f.Blend.Mode == BlReplace {
		w.Bool(f.SaveBeforeCT)
	}
	w.U32R(r, uint32(len(f.Name)), [4]D{{0, 0}, {0, 4}, {16, 5}, {48, 10}})
	w.AppendBytes([]byte(f.Name))
	f.RF.write(w, f.Modular)
	writeExt(w, f.Ext, f.ExtLens)
}

// subsampled tells whether some channel is smaller than another.
func (f *FrameHdr) subsampled() bool {
	sx, sy := JpegShift(f.JpegUp)
	return sx != [3]uint{} || sy != [3]uint{}
}

var tocDist = [4]D{{0, 10}, {1024, 14}, {17408, 22}, {4211712, 30}}

// WriteTOC writes the table of contents; perm[i] = physical slot of logical section i (nil: in order).
func WriteTOC(w *BitWriter, r *Rng, sizes []int, perm []int) {
	w.Bool(perm != nil)
	if perm != nil {
		WritePerm(w, r, perm, 0)
	}
	w.Align()
	for _, s := range sizes {
		w.U32R(r, uint32(s), tocDist)
	}
	w.Align()
}

// WritePerm writes a permutation with Lehmer code, entropy coded.
func WritePerm(w *BitWriter, r *Rng, perm []int, skip int) {
	n := len(perm)
	lehmer := make([]int, n)
	var avail []int
	for i := range perm {
		avail = append(avail, i)
	}
	for i, p := range perm {
		for k, a := range avail {
			if a == p {
				lehmer[i] = k
				avail = append(avail[:k:k], avail[k+1:]...)
				break
			}
		}
	}
	end := n
	for end > skip && lehmer[end-1] == 0 {
		end--
	}
	toks := permToks(n, skip, lehmer, end)
	e, syms := BuildEnt(r, 8, []TokSection{{Toks: toks}}, EntOpts{})
	e.WriteHeader(w)
	e.WriteSyms(w, syms[0])
}

// AssembleFrame concatenates header, TOC and sections. perm as in WriteTOC.
func AssembleFrame(w *BitWriter, r *Rng, f *FrameHdr, m *Meta, sections [][]byte, perm []int) {
	f.Write(w, r, m)
	n := len(sections)
	sizes := make([]int, n)
	phys := make([][]byte, n)
	for i, s := range sections {
		p := i
		if perm != nil {
			p = perm[i]
		}
		phys[p] = s
		sizes[p] = len(s)
	}
	WriteTOC(w, r, sizes, perm)
	for _, s := range phys {
		w.AppendBytes(s)
	}
}

// ---- container ----

type Box struct {
	Type  string
	Data  []byte
	Large bool // 64-bit size
	ToEOF bool
}

func (b Box) Bytes() []byte {
	var o []byte
	switch {
	case b.Type == "jxll" && fault("level-size"):
		b.Data = append(append([]byte{}, b.Data...), 0)
	case b.Type == "jxll" && fault("level-value"):
		b.Data = []byte{6 + b.Data[0]%3}
	case b.Type == "jxlp" && fault("part-short"):
		b.Data, b.Large, b.ToEOF = b.Data[:3], false, false
	}
	n := len(b.Data) + 8
	be32 := func(v uint32) { o = append(o, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	switch {
	case b.ToEOF:
		be32(0)
		o = append(o, b.Type...)
	case b.Large:
		be32(1)
		o = append(o, b.Type...)
		if fault("box-size-large") {
			n %= 8
		}
		be32(uint32(uint64(n+8) >> 32))
		be32(uint32(n + 8))
	default:
		if fault("box-size") {
			be32(2 + uint32(n)%6)
		} else {
			be32(uint32(n))
		}
		o = append(o, b.Type...)
	}
	return append(o, b.Data...)
}

// Container wraps boxes with the signature and ftyp boxes.
func Container(boxes []Box) []byte {
	o := []byte{0, 0, 0, 12, 'J', 'X', 'L', ' ', 13, 10, 0x87, 10}
	o = append(o, Box{Type: "ftyp", Data: []byte("jxl \x00\x00\x00\x00jxl ")}.Bytes()...)
	for _, b := range boxes {
		o = append(o, b.Bytes()...)
	}
	return o
}

// JxlpBoxes splits a codestream at the given cut points.
func JxlpBoxes(cs []byte, cuts []int) []Box {
	var out []Box
	prev := 0
	for i := 0; i <= len(cuts); i++ {
		end := len(cs)
		if i < len(cuts) {
			end = cuts[i]
		}
		idx := uint32(i)
		if i == len(cuts) {
			idx |= 1 << 31
		}
		d := []byte{byte(idx >> 24), byte(idx >> 16), byte(idx >> 8), byte(idx)}
		out = append(out, Box{Type: "jxlp", Data: append(d, cs[prev:end]...)})
		prev = end
	}
	return out
}
