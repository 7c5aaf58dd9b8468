package jx

// ModOpts steers the modular frame builder.
type ModOpts struct {
	Trans      TransformOpts
	LocalTrans bool // allow per-group transforms
	LocalTree  bool // allow per-group trees
	Tree       TreeOpts
	Ent        EntOpts
	FixedPred  int // >=0: single-leaf tree
	NoGlobal   bool
	TreeFn     func(r *Rng) *MATree
	DefWP      bool
	Perm       bool // permute the TOC
	NoWPMix    bool
	Pre        func(w *BitWriter) // frame features at the start of LFGlobal
	LfDq       *[3]float64        // LF multipliers to declare (XYB frames are scaled by them)
}

// FrameStats describes what a built frame exercises.
type FrameStats struct {
	Groups, LFGroups, Passes, Streams, LocalStreams int
	Trans                                           map[string]int
	Ent                                             EntStats
	Permuted                                        bool
	Preds                                           map[int]int
	UsesWP                                          bool
	Desc                                            []Transform
}

func (s *FrameStats) addTrans(ts []Transform) {
	s.Desc = append(s.Desc, ts...)
	if len(ts) >= 18 {
		s.Trans["long_list"]++
	}
	for _, t := range ts {
		if t.Meta {
			s.Trans["meta"]++
		}
		if t.Begin >= 1096 {
			s.Trans["begin1096"]++
		}
		if t.Begin >= 72 {
			s.Trans["begin72"]++
		}
		if t.Begin >= 1096 {
			s.Trans["begin1096"]++
		}
		if t.NbCol >= 1280 {
			s.Trans["bigpalette"]++
		}
		if t.NumC > 4 {
			s.Trans["widepalette"]++
		}
		if len(t.Steps) >= 9 && t.Explicit {
			s.Trans["sqlong"]++
		}
		if len(t.Steps) > 72 && t.Explicit {
			s.Trans["sqvlong"]++
		}
		switch t.Kind {
		case TrRCT:
			s.Trans["rct"]++
		case TrPalette:
			if t.NbDelta > 0 {
				s.Trans["deltapal"]++
			} else {
				s.Trans["palette"]++
			}
		case TrSqueeze:
			if t.Explicit {
				s.Trans["sqexplicit"]++
			} else {
				s.Trans["squeeze"]++
			}
		}
	}
}

func (t *MATree) preds(m map[int]int) {
	var rec func(n *MANode)
	rec = func(n *MANode) {
		if n.Prop < 0 {
			m[n.Pred]++
			return
		}
		rec(n.L)
		rec(n.R)
	}
	rec(t.Root)
}

// GroupPart is one group's share of the modular channels.
type groupPart struct {
	st   *ModStream
	img  *ModImg
	dst  []int // global channel index per local channel (before local transforms)
	x, y []int
	sec  int
}

// ModPlan is a tokenised set of modular streams of one frame.
type ModPlan struct {
	Global *ModStream
	Tree   *MATree
	Img    *ModImg
	parts  []*groupPart
	trans  []Transform
	wp     WPParams
	extra  []*ModStream // other streams using the global tree (VarDCT)
	code   *EntCode
	syms   [][]esym
	all    []*ModStream
	idx    map[*ModStream]int
	bd     int
}

// Sections layout helper.
type Layout struct {
	W, H, GD       int
	GX, GY, LX, LY int
	NG, NLF, NP    int
}

func MakeLayout(w, h, gd, np int) Layout {
	l := Layout{W: w, H: h, GD: gd, NP: max(np, 1)}
	l.GX, l.GY = ceilDiv(w, gd), ceilDiv(h, gd)
	l.LX, l.LY = ceilDiv(w, gd*8), ceilDiv(h, gd*8)
	l.NG, l.NLF = l.GX*l.GY, l.LX*l.LY
	return l
}

func (l Layout) NSec() int {
	if l.NG == 1 && l.NP == 1 {
		return 1
	}
	return 2 + l.NLF + l.NG*l.NP
}
func (l Layout) SecLF(g int) int      { return 1 + g }
func (l Layout) SecHF() int           { return 1 + l.NLF }
func (l Layout) SecPass(p, g int) int { return 2 + l.NLF + p*l.NG + g }

func (p PassSpec) bracket(pass, np int) (int, int) {
	maxS, minS := 2, 3
	for i := 0; ; i++ {
		for j := range p.Ds {
			if i == p.LastPs[j] {
				minS = map[int]int{1: 0, 2: 1, 4: 2, 8: 3}[p.Ds[j]]
			}
		}
		if i == np-1 {
			minS = 0
		}
		if i == pass {
			return minS, maxS
		}
		maxS = minS - 1
	}
}

func randTreeFor(r *Rng, o ModOpts, nstream, nchan, w, h int) *MATree {
	if o.TreeFn != nil {
		return o.TreeFn(r)
	}
	if o.FixedPred >= 0 {
		return FixedTree(o.FixedPred)
	}
	t := o.Tree
	if t.MaxDepth == 0 {
		t.MaxDepth = r.Pick(0, 1, 3, 5)
	}
	t.MaxStream, t.MaxChan, t.MaxW, t.MaxH = nstream, nchan, w, h
	return RandTree(r, t)
}

// globalChans counts the channels that are coded in the global stream.
func globalChans(m *ModImg, lay Layout) int {
	for i, c := range m.Ch {
		if i >= m.NbMeta && (c.W > lay.GD || c.H > lay.GD) {
			return i
		}
	}
	return len(m.Ch)
}

// splittable reports whether every channel left to the groups has samples in each of them: after very many squeezes a
// group would be less than one sample, which the format does not define.
func splittable(m *ModImg, lay Layout) bool {
	for _, c := range m.Ch[globalChans(m, lay):] {
		dim := lay.GD
		if min(c.HS, c.VS) >= 3 {
			dim *= 8
		}
		if c.W > 0 && c.H > 0 && (dim>>uint(c.HS) == 0 || dim>>uint(c.VS) == 0) {
			return false
		}
	}
	return true
}

// PlanModular applies transforms, splits into groups and tokenises. chans may be empty.
func PlanModular(r *Rng, f *FrameHdr, lay Layout, chans []*Chan, bitDepth int, o ModOpts, st *FrameStats, extra []*ModStream, treeShared *MATree) *ModPlan {
	if st.Trans == nil {
		st.Trans = map[string]int{}
		st.Preds = map[int]int{}
	}
	p := &ModPlan{Img: &ModImg{Ch: cloneChans(chans)}, bd: bitDepth, idx: map[*ModStream]int{}}
	o.Trans.BitDepth = bitDepth
	p.trans = RandTransforms(r, p.Img, o.Trans)
	for try := 0; !splittable(p.Img, lay); try++ {
		p.Img = &ModImg{Ch: cloneChans(chans)}
		p.trans = nil
		if try < 5 {
			p.trans = RandTransforms(r, p.Img, o.Trans)
		}
	}
	st.addTrans(p.trans)
	p.wp = DefaultWP()
	if !o.DefWP {
		p.wp = RandWP(r)
	}
	nst := 1 + 3*lay.NLF + 17 + lay.NG*lay.NP
	p.Tree = treeShared
	if p.Tree == nil {
		p.Tree = randTreeFor(r, o, nst, len(p.Img.Ch), lay.W, lay.H)
	}
	ncoded := globalChans(p.Img, lay)
	anyCoded := false
	for _, c := range p.Img.Ch[:ncoded] {
		if c.W > 0 && c.H > 0 {
			anyCoded = true
		}
	}
	g := &ModStream{ID: 0, Img: p.Img, Trans: p.trans, WP: p.wp, UseGlobal: true, Tree: p.Tree, NCoded: ncoded, r: r, EntO: o.Ent}
	if len(p.Img.Ch) == 0 {
		g.Empty = true
	}
	if o.LocalTree && anyCoded && r.P(0.15) {
		g.UseGlobal = false
		g.Tree = randTreeFor(r, o, nst, len(p.Img.Ch), lay.W, lay.H)
		st.LocalStreams++
	}
	p.Global = g
	g.Tokenise()
	p.all = append(p.all, g)
	// remaining channels to groups
	add := func(sec, id int, gx, gy, dim int, sel func(s int) bool) {
		part := &groupPart{img: &ModImg{}, sec: sec}
		for i := ncoded; i < len(p.Img.Ch); i++ {
			c := p.Img.Ch[i]
			if !sel(min(c.HS, c.VS)) {
				continue
			}
			x0, y0 := gx*dim>>uint(c.HS), gy*dim>>uint(c.VS)
			x1, y1 := min(x0+dim>>uint(c.HS), c.W), min(y0+dim>>uint(c.VS), c.H)
			if x1 <= x0 || y1 <= y0 {
				continue
			}
			part.img.Ch = append(part.img.Ch, c.Crop(x0, y0, x1-x0, y1-y0))
			part.dst = append(part.dst, i)
			part.x = append(part.x, x0)
			part.y = append(part.y, y0)
		}
		s := &ModStream{ID: id, Img: part.img, WP: DefaultWP(), UseGlobal: true, Tree: p.Tree, r: r, EntO: o.Ent}
		part.st = s
		p.parts = append(p.parts, part)
		if len(part.img.Ch) == 0 {
			s.Empty = true
			return
		}
		if !o.DefWP {
			s.WP = RandWP(r)
		}
		if o.LocalTrans && r.P(0.4) {
			s.Trans = RandTransforms(r, part.img, o.Trans)
			st.addTrans(s.Trans)
		}
		if o.LocalTree && r.P(0.2) {
			s.UseGlobal = false
			s.Tree = randTreeFor(r, o, nst, len(part.img.Ch), dim, dim)
			st.LocalStreams++
		}
		s.NCoded = len(part.img.Ch)
		s.Tokenise()
		p.all = append(p.all, s)
	}
	for lg := 0; lg < lay.NLF; lg++ {
		add(lay.SecLF(lg), 1+lay.NLF+lg, lg%lay.LX, lg/lay.LX, lay.GD*8, func(s int) bool { return s >= 3 })
	}
	for ps := 0; ps < lay.NP; ps++ {
		lo, hi := f.Pass.bracket(ps, lay.NP)
		for gr := 0; gr < lay.NG; gr++ {
			add(lay.SecPass(ps, gr), 1+3*lay.NLF+17+lay.NG*ps+gr, gr%lay.GX, gr/lay.GX, lay.GD, func(s int) bool { return s >= lo && s <= hi })
		}
	}
	for _, s := range extra {
		s.r = r
		if s.Tree == nil {
			s.Tree = p.Tree
		}
		if !s.Empty {
			s.Tokenise()
			p.all = append(p.all, s)
		}
	}
	// shared code
	var secs []TokSection
	for _, s := range p.all {
		if s.Tree != nil {
			s.Tree.preds(st.Preds)
			st.UsesWP = st.UsesWP || s.Tree.UsesWP
		}
		if s.UseGlobal {
			p.idx[s] = len(secs)
			secs = append(secs, TokSection{s.Toks, s.DistMult})
		}
	}
	p.code, p.syms = BuildEnt(r, p.Tree.NumCtx, secs, o.Ent)
	st.Ent = p.code.Stats
	st.Streams += len(p.all)
	return p
}

// WriteTree writes the global tree and its code (after the presence flag).
func (p *ModPlan) WriteTree(w *BitWriter, r *Rng, o EntOpts) {
	p.Tree.Write(w, r, o)
	p.code.WriteHeader(w)
}

func (p *ModPlan) WriteStream(w *BitWriter, s *ModStream) {
	if s.UseGlobal && !s.Empty {
		s.Write(w, p.code, p.syms[p.idx[s]])
		return
	}
	s.Write(w, nil, nil)
}

// WriteParts writes the group parts belonging to one section.
func (p *ModPlan) WriteParts(w *BitWriter, sec int) {
	for _, q := range p.parts {
		if q.sec == sec {
			p.WriteStream(w, q.st)
		}
	}
}

// Result gives the channels a correct decoder reconstructs.
func (p *ModPlan) Result() []*Chan {
	img := &ModImg{Ch: cloneChans(p.Img.Ch), NbMeta: p.Img.NbMeta}
	for _, q := range p.parts {
		l := &ModImg{Ch: cloneChans(q.img.Ch), NbMeta: q.img.NbMeta}
		InverseTransforms(l, q.st.Trans, q.st.WP, p.bd)
		for i, c := range l.Ch {
			img.Ch[q.dst[i]].Paste(q.x[i], q.y[i], c)
		}
	}
	InverseTransforms(img, p.trans, p.wp, p.bd)
	return img.Ch
}

// BuiltFrame is an encoded frame and what it must decode to.
type BuiltFrame struct {
	H        *FrameHdr
	Sections [][]byte
	Chans    []*Chan // expected channel samples
	Stats    FrameStats
	Lay      Layout
	PlanCh   []*Chan
	Toks     []Tok
	Tree     *MATree
}

// RandPasses picks a pass layout for a modular frame.
func RandPasses(r *Rng) PassSpec {
	if r.P(0.6) {
		return PassSpec{Num: 1}
	}
	np := r.R(2, 4)
	if r.P(0.15) {
		np = r.R(5, 11)
	}
	ps := PassSpec{Num: np}
	for i := 0; i < np-1; i++ {
		ps.Shift = append(ps.Shift, r.Pick(0, 0, 1, 2, 3))
	}
	last := 0
	for _, d := range []int{8, 4, 2, 1} {
		if r.P(0.6) && last < np && (d > 1 || r.Bool()) {
			if r.P(0.3) {
				last += r.N(np - last)
			}
			last = min(last, 7)
			ps.Ds = append(ps.Ds, d)
			ps.LastPs = append(ps.LastPs, last)
			last++
			if last > 7 {
				break
			}
		}
	}
	return ps
}

// BuildModFrame encodes a modular frame holding the given channels (colour then extra).
func BuildModFrame(r *Rng, m *Meta, f *FrameHdr, chans []*Chan, o ModOpts) *BuiltFrame {
	f.Modular = true
	w, h := f.Dim(m)
	np := max(f.Pass.Num, 1)
	lay := MakeLayout(w, h, f.GroupDim(), np)
	b := &BuiltFrame{H: f, Lay: lay}
	b.Stats.Groups, b.Stats.LFGroups, b.Stats.Passes = lay.NG, lay.NLF, np
	p := PlanModular(r, f, lay, chans, m.BD.Bits, o, &b.Stats, nil, nil)
	secs := make([]*BitWriter, lay.NSec())
	for i := range secs {
		secs[i] = &BitWriter{}
	}
	at := func(i int) *BitWriter {
		if len(secs) == 1 {
			return secs[0]
		}
		return secs[i]
	}
	g := at(0)
	if o.Pre != nil {
		o.Pre(g)
	}
	g.Bool(o.LfDq == nil)
	if o.LfDq != nil {
		for _, v := range o.LfDq {
			g.F16(v * 128)
		}
	}
	g.Bool(true) // global tree present
	p.WriteTree(g, r, o.Ent)
	p.WriteStream(g, p.Global)
	for i := 1; i < 2+lay.NLF+lay.NG*np; i++ {
		p.WriteParts(at(i), i)
	}
	for _, s := range secs {
		s.Align()
		b.Sections = append(b.Sections, s.Bytes())
	}
	b.Chans = p.Result()
	b.PlanCh = p.Img.Ch
	b.Tree = p.Global.Tree
	b.Toks = p.Global.Toks
	return b
}

// WriteFrame appends a built frame to a codestream.
func (b *BuiltFrame) WriteFrame(w *BitWriter, r *Rng, m *Meta, permute bool) {
	w.Align()
	var perm []int
	if permute && len(b.Sections) > 1 {
		perm = r.Perm(len(b.Sections))
		b.Stats.Permuted = true
	}
	AssembleFrame(w, r, b.H, m, b.Sections, perm)
}

// CodedSizes lists the channel sizes a modular frame codes: colour then extra channels.
func CodedSizes(m *Meta, f *FrameHdr) []*Chan {
	var o []*Chan
	w, h := f.Dim(m)
	n := m.ModColor(f.Modular)
	if f.Modular {
		var sx, sy [3]uint
		if f.YCbCr {
			n = 3
			sx, sy = JpegShift(f.JpegUp)
		}
		for i := 0; i < n; i++ {
			c := NewChan(w, h)
			if f.YCbCr {
				c = NewChan(ceilDiv(w, 1<<sx[i]), ceilDiv(h, 1<<sy[i]))
				c.HS, c.VS = int(sx[i]), int(sy[i])
			}
			o = append(o, c)
		}
	}
	fw, fh := f.Size(m)
	lf := 3 * f.LfLevel
	for i, e := range m.EC {
		up := 1
		if i < len(f.EcUp) {
			up = f.EcUp[i]
		}
		d := up << uint(e.DimShift)
		c := NewChan(ceilDiv(ceilDiv(fw, d), 1<<uint(lf)), ceilDiv(ceilDiv(fh, d), 1<<uint(lf)))
		s := ceilLog2(d) - ceilLog2(max(f.Up, 1))
		c.HS, c.VS = s, s
		o = append(o, c)
	}
	return o
}
