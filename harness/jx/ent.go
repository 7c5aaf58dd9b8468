package jx

import (
	"fmt"
	"sort"
)

// Tok is one integer coded in context Ctx.
type Tok struct {
	Ctx int
	Val uint32
}

// TokSection is a token sequence with its own ANS state / LZ77 window.
type TokSection struct {
	Toks     []Tok
	DistMult int
}

// HybCfg is a hybrid integer configuration.
type HybCfg struct{ Split, Msb, Lsb int }

// Enc splits v in token, extra bit count and extra bits.
func (c HybCfg) Enc(v uint32) (tok int, nb int, bits uint32) {
	if v < 1<<uint(c.Split) {
		return int(v), 0, 0
	}
	n := floorLog2(v)
	m := v - (1 << uint(n))
	tok = (1 << uint(c.Split)) + ((n - c.Split) << uint(c.Msb+c.Lsb)) + int(m>>uint(n-c.Msb))<<uint(c.Lsb) + int(m&((1<<uint(c.Lsb))-1))
	nb = n - c.Msb - c.Lsb
	bits = (v >> uint(c.Lsb)) & ((1 << uint(nb)) - 1)
	return
}

func (c HybCfg) write(w *BitWriter, logAlpha int) {
	w.Bits(uint64(c.Split), ceilLog2(logAlpha+1))
	if c.Split == logAlpha {
		return
	}
	if mb := ceilLog2(c.Split + 1); c.Split+1 < 1<<uint(mb) && fault("hybrid-msb") {
		c.Msb = c.Split + 1
		w.Bits(uint64(c.Msb), mb)
		return
	}
	if lb := ceilLog2(c.Split - c.Msb + 1); c.Split-c.Msb+1 < 1<<uint(lb) && fault("hybrid-lsb") {
		c.Lsb = c.Split - c.Msb + 1
	}
	w.Bits(uint64(c.Msb), ceilLog2(c.Split+1))
	w.Bits(uint64(c.Lsb), ceilLog2(c.Split-c.Msb+1))
}

func randHyb(r *Rng, logAlpha int) HybCfg {
	if r.P(0.4) {
		return HybCfg{4, 2, 0}
	}
	if r.P(0.1) {
		return HybCfg{0, 0, 0}
	}
	s := r.R(0, logAlpha)
	if s == logAlpha {
		return HybCfg{s, 0, 0}
	}
	m := r.R(0, s)
	if m > 4 {
		m = r.R(0, 4)
	}
	l := 0
	if r.Bool() {
		l = r.R(0, s-m)
		if l > 3 {
			l = 3
		}
	}
	return HybCfg{s, m, l}
}

var lzSpecial = [120][2]int{
	{0, 1}, {1, 0}, {1, 1}, {-1, 1}, {0, 2}, {2, 0}, {1, 2}, {-1, 2}, {2, 1}, {-2, 1}, {2, 2},
	{-2, 2}, {0, 3}, {3, 0}, {1, 3}, {-1, 3}, {3, 1}, {-3, 1}, {2, 3}, {-2, 3}, {3, 2},
	{-3, 2}, {0, 4}, {4, 0}, {1, 4}, {-1, 4}, {4, 1}, {-4, 1}, {3, 3}, {-3, 3}, {2, 4},
	{-2, 4}, {4, 2}, {-4, 2}, {0, 5}, {3, 4}, {-3, 4}, {4, 3}, {-4, 3}, {5, 0}, {1, 5},
	{-1, 5}, {5, 1}, {-5, 1}, {2, 5}, {-2, 5}, {5, 2}, {-5, 2}, {4, 4}, {-4, 4}, {3, 5},
	{-3, 5}, {5, 3}, {-5, 3}, {0, 6}, {6, 0}, {1, 6}, {-1, 6}, {6, 1}, {-6, 1}, {2, 6},
	{-2, 6}, {6, 2}, {-6, 2}, {4, 5}, {-4, 5}, {5, 4}, {-5, 4}, {3, 6}, {-3, 6}, {6, 3},
	{-6, 3}, {0, 7}, {7, 0}, {1, 7}, {-1, 7}, {5, 5}, {-5, 5}, {7, 1}, {-7, 1}, {4, 6},
	{-4, 6}, {6, 4}, {-6, 4}, {2, 7}, {-2, 7}, {7, 2}, {-7, 2}, {3, 7}, {-3, 7}, {7, 3},
	{-7, 3}, {5, 6}, {-5, 6}, {6, 5}, {-6, 5}, {8, 0}, {4, 7}, {-4, 7}, {7, 4}, {-7, 4},
	{8, 1}, {8, 2}, {6, 6}, {-6, 6}, {8, 3}, {5, 7}, {-5, 7}, {7, 5}, {-7, 5}, {8, 4}, {6, 7},
	{-6, 7}, {7, 6}, {-7, 6}, {8, 5}, {7, 7}, {-7, 7}, {8, 6}, {8, 7},
}

// EntOpts controls the entropy encoder.
type EntOpts struct {
	NoLZ     bool
	ForceLZ  bool
	ForcePfx bool
	ForceANS bool
	Plain    bool // simplest settings
}

// EntCode is a built entropy code.
type EntCode struct {
	nctx       int // excluding the LZ distance context
	cmap       []int
	nclust     int
	prefix     bool
	logAlpha   int
	cfgs       []HybCfg
	lz         bool
	lzMinSym   int
	lzMinLen   int
	lzCfg      HybCfg
	freqs      [][]int // per cluster normalised (ANS)
	flat       []bool
	alpha      []int // per cluster alphabet size
	rev        [][][]uint16
	plens      [][]int
	pcodes     [][]uint32
	rng        *Rng
	ansHdr     []*BitWriter
	ansRunHint bool
	singles    map[int]int
	Stats      EntStats
}

// EntStats describes what the code exercises.
type EntStats struct {
	Prefix, LZ, Simple, Flat, RLE, RLE0, MTF bool
	Copies, SpecialCopies                    int
	BlockLens                                int // prefix codes with long runs of equal lengths
	ZeroCopies, ClampedCopies                int
	FarCopies                                int // reaching back more than 65536 symbols
	VeryFarCopies                            int // reaching back more than half of the window
	Clusters                                 int
}

type lzOp struct {
	ctx  int
	val  uint32
	n    int // copy length if >0
	dist uint32
}

func (e *EntCode) lzSection(s TokSection) []lzOp {
	toks := s.Toks
	ops := make([]lzOp, 0, len(toks))
	if !e.lz {
		for _, t := range toks {
			ops = append(ops, lzOp{ctx: t.Ctx, val: t.Val})
		}
		return ops
	}
	last := map[uint64]int{}
	key := func(i int) uint64 {
		return uint64(toks[i].Val)*0x9e3779b97f4a7c15 ^ uint64(toks[i+1].Val)*0xc2b2ae3d27d4eb4f ^ uint64(toks[i+2].Val)
	}
	mlen := func(i, d int) int {
		n := 0
		for i+n < len(toks) && toks[i+n].Val == toks[i+n-d].Val {
			n++
		}
		return n
	}
	r := e.rng
	for i := 0; i < len(toks); {
		bestN, bestD := 0, 0
		var cands []int
		if i+2 < len(toks) {
			if j, ok := last[key(i)]; ok {
				cands = append(cands, i-j)
			}
		}
		cands = append(cands, 1)
		if s.DistMult > 0 {
			for k := 0; k < 4; k++ {
				sp := lzSpecial[r.N(120)]
				cands = append(cands, sp[0]+s.DistMult*sp[1])
			}
			cands = append(cands, s.DistMult)
		}
		if i == 0 {
			// a copy before anything was decoded yields zeros
			n := 0
			for n < len(toks) && toks[n].Val == 0 {
				n++
			}
			if n >= e.lzMinLen && r.P(0.5) {
				ops = append(ops, lzOp{ctx: toks[0].Ctx, n: n, dist: uint32(r.Pick(0, 1, 5, 200, 1<<20+300))})
				e.Stats.Copies++
				e.Stats.ZeroCopies++
				i += n
				continue
			}
		}
		if i > 0 && i < 2000 {
			cands = append(cands, i)
		}
		for _, d := range cands {
			if d < 1 || d > i || d > 1<<20 {
				continue
			}
			if n := mlen(i, d); n > bestN || n == bestN && r.Bool() {
				bestN, bestD = n, d
			}
		}
		if bestN >= e.lzMinLen && r.P(0.9) {
			n := bestN
			if n > e.lzMinLen && r.P(0.2) {
				n = r.R(e.lzMinLen, n)
			}
			if n > 60000 {
				n = 60000
			}
			var code uint32
			if s.DistMult == 0 {
				code = uint32(bestD - 1)
			} else {
				var sp []int
				for k, q := range lzSpecial {
					d := q[0] + s.DistMult*q[1]
					if d < 1 {
						d = 1
					}
					if d == bestD {
						sp = append(sp, k)
					}
				}
				if len(sp) > 0 && !r.P(0.2) {
					code = uint32(sp[r.N(len(sp))])
					e.Stats.SpecialCopies++
				} else {
					code = uint32(bestD + 119)
				}
			}
			if bestD == i && r.P(0.3) {
				// distances beyond the start of the stream mean its start
				code = uint32(bestD + 119 + r.Pick(1, 7, 1000, 1<<20))
				e.Stats.ClampedCopies++
			}
			if bestD == 1<<20 && r.P(0.3) {
				// distances beyond the window mean its start
				code = uint32(bestD + 119 + r.Pick(1, 7, 1000, 1<<20))
				e.Stats.ClampedCopies++
			}
			if bestD > 1<<16 {
				e.Stats.FarCopies++
			}
			if bestD > 1<<19 {
				e.Stats.VeryFarCopies++
			}
			ops = append(ops, lzOp{ctx: toks[i].Ctx, n: n, dist: code})
			e.Stats.Copies++
			for k := 0; k < n; k++ {
				if i+k+2 < len(toks) {
					last[key(i+k)] = i + k
				}
			}
			i += n
			continue
		}
		if i+2 < len(toks) {
			last[key(i)] = i
		}
		ops = append(ops, lzOp{ctx: toks[i].Ctx, val: toks[i].Val})
		i++
	}
	return ops
}

type esym struct {
	cl   int
	tok  int
	nb   int
	bits uint32
}

func (e *EntCode) symbols(ops []lzOp) []esym {
	out := make([]esym, 0, len(ops))
	for _, o := range ops {
		cl := e.cmap[o.ctx]
		if o.n == 0 {
			t, nb, b := e.cfgs[cl].Enc(o.val)
			out = append(out, esym{cl, t, nb, b})
			continue
		}
		t, nb, b := e.lzCfg.Enc(uint32(o.n - e.lzMinLen))
		out = append(out, esym{cl, e.lzMinSym + t, nb, b})
		dcl := e.cmap[e.nctx]
		t, nb, b = e.cfgs[dcl].Enc(o.dist)
		out = append(out, esym{dcl, t, nb, b})
	}
	return out
}

// BuildEnt builds a code for all the sections; Encode must be called with the same sections.
func BuildEnt(r *Rng, nctx int, secs []TokSection, o EntOpts) (*EntCode, [][]esym) {
	r = NewRng(r.U64(), 77)
	e := &EntCode{nctx: nctx, rng: r}
	total := 0
	for _, s := range secs {
		total += len(s.Toks)
	}
	pLZ := 0.25
	if o.Plain {
		pLZ = 0
	}
	e.lz = !o.NoLZ && (o.ForceLZ || r.P(pLZ))
	e.prefix = o.ForcePfx || (!o.ForceANS && r.P(0.35))
	if e.lz {
		e.lzMinLen = r.Pick(3, 3, 4, 5, 6, 8, 9, 20)
		e.lzCfg = randHyb(r, 8)
	}
	ops := make([][]lzOp, len(secs))
	for i, s := range secs {
		ops[i] = e.lzSection(s)
	}
	nc := nctx
	if e.lz {
		nc++
	}
	used := make([]bool, nc)
	for _, os := range ops {
		for _, op := range os {
			used[op.ctx] = true
			if op.n > 0 {
				used[nc-1] = true
			}
		}
	}
	// clustering
	e.cmap = make([]int, nc)
	maxC := 1
	switch r.N(5) {
	case 0:
		maxC = 1
	case 1:
		maxC = nc
	case 2:
		maxC = r.R(1, min(nc, 8))
	case 3:
		maxC = r.R(1, min(nc, 4))
	default:
		maxC = r.R(1, min(nc, 256))
	}
	if maxC > 256 {
		maxC = 256
	}
	for i := range e.cmap {
		e.cmap[i] = r.N(maxC)
	}
	if maxC == nc {
		for i := range e.cmap {
			e.cmap[i] = i % 256
		}
		if nc <= 256 && r.Bool() {
			e.cmap = r.Perm(nc)
		}
	}
	// renumber without holes (random order of first use kept)
	ids := map[int]int{}
	var keys []int
	for _, c := range e.cmap {
		if _, ok := ids[c]; !ok {
			ids[c] = 0
			keys = append(keys, c)
		}
	}
	if r.Bool() {
		sort.Ints(keys)
	}
	for i, k := range keys {
		ids[k] = i
	}
	for i, c := range e.cmap {
		e.cmap[i] = ids[c]
	}
	e.nclust = len(keys)
	e.Stats.Clusters = e.nclust
	e.Stats.LZ = e.lz
	e.Stats.Prefix = e.prefix

	// hybrid configs: retry until every token fits
	maxLit := make([]uint32, e.nclust)
	maxLen := 0
	for _, os := range ops {
		for _, op := range os {
			if op.n > 0 {
				if op.n > maxLen {
					maxLen = op.n
				}
				dcl := e.cmap[nc-1]
				if op.dist > maxLit[dcl] {
					maxLit[dcl] = op.dist
				}
			} else if op.val > maxLit[e.cmap[op.ctx]] {
				maxLit[e.cmap[op.ctx]] = op.val
			}
		}
	}
	for try := 0; ; try++ {
		if e.prefix {
			e.logAlpha = 15
		} else {
			e.logAlpha = r.R(5, 8)
			if e.lz || try > 6 {
				e.logAlpha = 8
			}
		}
		limit := 1 << uint(e.logAlpha)
		if e.prefix {
			limit = 1 << 14
			if r.P(0.8) {
				limit = 1 << 9
			}
		}
		e.cfgs = make([]HybCfg, e.nclust)
		maxTok := 0
		for c := range e.cfgs {
			if try > 12 {
				e.cfgs[c] = HybCfg{4, 1, 0}
			} else {
				e.cfgs[c] = randHyb(r, e.logAlpha)
			}
			// token is monotone in v only approximately; scan boundary values
			m := maxToken(e.cfgs[c], maxLit[c])
			if m > maxTok {
				maxTok = m
			}
		}
		if e.lz {
			if try > 12 {
				e.lzCfg = HybCfg{4, 1, 0}
			}
			lt := 0
			if maxLen > 0 {
				lt = maxToken(e.lzCfg, uint32(maxLen-e.lzMinLen))
			}
			opts := []int{224, 512, 4096}
			ms := opts[r.N(3)]
			if r.P(0.3) || try > 12 {
				ms = maxTok + 1 + r.N(20)
				if ms < 8 {
					ms = 8
				}
			}
			if ms <= maxTok || ms+lt >= limit {
				if try > 40 {
					panic(fmt.Sprintf("lz config does not fit ms=%d maxTok=%d lt=%d limit=%d", ms, maxTok, lt, limit))
				}
				continue
			}
			e.lzMinSym = ms
		}
		if maxTok >= limit {
			if try > 40 {
				panic("entropy config does not fit")
			}
			continue
		}
		break
	}
	syms := make([][]esym, len(secs))
	hist := make([][]int, e.nclust)
	for i := range hist {
		hist[i] = nil
	}
	for i := range ops {
		syms[i] = e.symbols(ops[i])
		for _, s := range syms[i] {
			for len(hist[s.cl]) <= s.tok {
				hist[s.cl] = append(hist[s.cl], 0)
			}
			hist[s.cl][s.tok]++
		}
	}
	if e.prefix {
		e.plens = make([][]int, e.nclust)
		e.pcodes = make([][]uint32, e.nclust)
		e.alpha = make([]int, e.nclust)
		for c := range hist {
			e.buildPrefix(c, hist[c])
		}
	} else {
		e.freqs = make([][]int, e.nclust)
		e.rev = make([][][]uint16, e.nclust)
		e.flat = make([]bool, e.nclust)
		e.alpha = make([]int, e.nclust)
	}
	if !e.prefix {
		e.ansHdr = make([]*BitWriter, e.nclust)
		for c := range hist {
			e.buildANS(c, hist[c])
		}
	} else {
		e.ansHdr = nil
	}
	return e, syms
}

func maxToken(c HybCfg, v uint32) int {
	m, _, _ := c.Enc(v)
	if v >= 1<<uint(c.Split) {
		n := floorLog2(v)
		// the largest token of this bit length
		t, _, _ := c.Enc(uint32(uint64(1)<<uint(n+1) - 1))
		if t > m {
			m = t
		}
	} else {
		m = int(v)
	}
	return m
}

func (e *EntCode) buildPrefix(c int, h []int) {
	r := e.rng
	n := len(h)
	if n == 0 {
		n = 1
		h = []int{1}
	}
	// random slack in alphabet and random spurious symbols
	h = append([]int{}, h...)
	if r.P(0.3) && n > 1 {
		for k := 0; k < r.R(1, 3); k++ {
			h[r.N(n)]++
		}
	}
	usedN := 0
	for _, x := range h {
		if x > 0 {
			usedN++
		}
	}
	a := n
	if r.P(0.3) {
		a += r.N(10)
	}
	if a > 1<<15 {
		a = 1 << 15
	}
	for len(h) < a {
		h = append(h, 0)
	}
	if usedN == 1 && a > 1 && r.P(0.5) {
		// make it two symbols
		for i := range h {
			if h[i] == 0 {
				h[i] = 1
				break
			}
		}
	}
	e.alpha[c] = a
	if e.singles == nil {
		e.singles = map[int]int{}
	}
	for i, x := range h {
		if x > 0 {
			e.singles[c] = i
		}
	}
	lens := huffLens(h, 15)
	if usedN >= 2 && r.P(0.15) {
		lens = e.blockLens(h)
		e.alpha[c] = len(lens)
	}
	e.plens[c] = lens
	e.pcodes[c] = canonical(lens)
}

// blockLens gives the used symbols, and runs of unused ones, lengths that come in long runs with gaps between them.
func (e *EntCode) blockLens(h []int) []int {
	r := e.rng
	a := min(1<<15, len(h)+r.N(80))
	u := make([]bool, a)
	for i, x := range h {
		u[i] = x > 0
	}
	for k := r.R(1, 6); k > 0; k-- {
		for i, n := r.N(a), r.R(1, 30); n > 0 && i < a; i, n = i+1, n-1 {
			u[i] = true
		}
	}
	n := 0
	for _, x := range u {
		if x {
			n++
		}
	}
	L := ceilLog2(n)
	short := 1<<uint(L) - n // symbols with one bit less
	at := r.N(n - short + 1)
	lens := make([]int, a)
	k := 0
	for i := range lens {
		if !u[i] {
			continue
		}
		lens[i] = L
		if k >= at && k < at+short {
			lens[i] = L - 1
		}
		k++
	}
	e.Stats.BlockLens++
	return lens
}

// huffLens computes a complete length-limited Huffman code. A single symbol gets length 0.
func huffLens(h []int, limit int) []int {
	type node struct {
		w    int
		l, r int
		s    int
	}
	lens := make([]int, len(h))
	hh := append([]int{}, h...)
	for {
		var nodes []node
		var q []int
		for i, x := range hh {
			if x > 0 {
				nodes = append(nodes, node{x, -1, -1, i})
				q = append(q, len(nodes)-1)
			}
		}
		if len(q) <= 1 {
			return lens
		}
		for len(q) > 1 {
			sort.SliceStable(q, func(a, b int) bool { return nodes[q[a]].w > nodes[q[b]].w })
			a, b := q[len(q)-1], q[len(q)-2]
			q = q[:len(q)-2]
			nodes = append(nodes, node{nodes[a].w + nodes[b].w, a, b, -1})
			q = append(q, len(nodes)-1)
		}
		maxD := 0
		var walk func(i, d int)
		walk = func(i, d int) {
			if nodes[i].s >= 0 {
				lens[nodes[i].s] = d
				if d > maxD {
					maxD = d
				}
				return
			}
			walk(nodes[i].l, d+1)
			walk(nodes[i].r, d+1)
		}
		walk(q[0], 0)
		if maxD <= limit {
			return lens
		}
		for i := range hh {
			if hh[i] > 0 {
				hh[i] = hh[i]/2 + 1
			}
		}
	}
}

// canonical returns bit-reversed canonical codes.
func canonical(lens []int) []uint32 {
	codes := make([]uint32, len(lens))
	code := uint32(0)
	for l := 1; l <= 15; l++ {
		for s, sl := range lens {
			if sl == l {
				codes[s] = revBits(code, l)
				code++
			}
		}
		code <<= 1
	}
	return codes
}

func revBits(v uint32, n int) uint32 {
	var o uint32
	for i := 0; i < n; i++ {
		o = o<<1 | (v>>uint(i))&1
	}
	return o
}

var clOrder = []int{1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15}
var clStatic = [6][2]uint32{{0, 2}, {7, 4}, {3, 3}, {2, 2}, {1, 2}, {15, 4}}

func (e *EntCode) writePrefixCode(w *BitWriter, c int) {
	a := e.alpha[c]
	if a == 1 {
		return
	}
	lens := e.plens[c]
	var used []int
	for s, l := range lens {
		if l > 0 {
			used = append(used, s)
		}
	}
	sb := ceilLog2(a)
	if len(used) == 0 { // single symbol: find it via zero-length marker: the only symbol in hist
		w.Bits(1, 2)
		w.Bits(0, 2)
		w.Bits(uint64(e.single(c)), sb)
		return
	}
	if len(used) <= 4 && e.rng.P(0.7) {
		byLen := append([]int{}, used...)
		sort.SliceStable(byLen, func(i, j int) bool { return lens[byLen[i]] < lens[byLen[j]] })
		w.Bits(1, 2)
		w.Bits(uint64(len(used)-1), 2)
		// random order inside equal lengths: decoder must sort
		if e.rng.Bool() {
			if len(used) == 2 {
				byLen[0], byLen[1] = byLen[1], byLen[0]
			} else if len(used) == 3 {
				byLen[1], byLen[2] = byLen[2], byLen[1]
			} else if lens[byLen[0]] == 2 {
				p := e.rng.Perm(4)
				byLen = []int{byLen[p[0]], byLen[p[1]], byLen[p[2]], byLen[p[3]]}
			} else {
				byLen[2], byLen[3] = byLen[3], byLen[2]
			}
		}
		for _, s := range byLen {
			w.Bits(uint64(s), sb)
		}
		if len(used) == 4 {
			w.Bool(lens[byLen[0]] != 2 || lens[byLen[3]] != 2)
		}
		e.Stats.Simple = true
		return
	}
	// complex. Build the code-length token sequence.
	lastUsed := used[len(used)-1]
	if lens[lastUsed] < 15 && fault("prefix-incomplete") {
		lens = append([]int{}, lens...)
		lens[lastUsed]++
	} else if lens[lastUsed] > 1 && fault("prefix-oversubscribed") {
		lens = append([]int{}, lens...)
		lens[lastUsed]--
	}
	type clt struct{ s, x, nb int }
	var seq []clt
	space := 32768
	r2 := e.rng
	useRep := e.rng.P(0.8)
	prev := 8
	for i := 0; i < len(lens) && space > 0; {
		l := lens[i]
		run := 1
		for i+run < len(lens) && lens[i+run] == l {
			run++
		}
		emitRep := func(n int, sym, nb int) {
			// n >= 3
			var ex []int
			reps := n - 3
			for {
				ex = append(ex, reps&((1<<uint(nb))-1))
				reps >>= uint(nb)
				if reps == 0 {
					break
				}
				reps--
			}
			for k := len(ex) - 1; k >= 0; k-- {
				seq = append(seq, clt{sym, ex[k], nb})
			}
		}
		if l == 0 {
			if useRep && run >= 3 {
				emitRep(run, 17, 3)
			} else {
				for k := 0; k < run; k++ {
					seq = append(seq, clt{0, 0, 0})
				}
			}
			i += run
			continue
		}
		// nonzero
		k := 0
		if useRep && run > 4 && r2.P(0.2) {
			run = r2.R(4, run) // a long run in parts
		}
		fresh := len(seq) == 0 || seq[len(seq)-1].s != 16
		if !(useRep && l == prev && run >= 3 && fresh && r2.P(0.7)) {
			seq = append(seq, clt{l, 0, 0})
			k = 1
		}
		if useRep && run-k >= 3 {
			emitRep(run-k, 16, 2)
		} else {
			for ; k < run; k++ {
				seq = append(seq, clt{l, 0, 0})
			}
		}
		space -= run * (32768 >> uint(l))
		prev = l
		i += run
	}
	h := make([]int, 18)
	for _, t := range seq {
		h[t.s]++
	}
	cl := huffLens(h, 5)
	single := -1
	n := 0
	for s, x := range h {
		if x > 0 {
			n++
			single = s
		}
	}
	if n == 1 {
		cl[single] = e.rng.R(1, 5)
	}
	if n > 1 {
		k := 17
		for cl[clOrder[k]] == 0 {
			k--
		}
		if l := cl[clOrder[k]]; l < 5 && fault("prefix-lengths-incomplete") {
			cl[clOrder[k]]++
		} else if l > 1 && fault("prefix-lengths-oversubscribed") {
			cl[clOrder[k]]--
		}
	}
	// hskip
	hskip := 0
	if cl[1] == 0 && cl[2] == 0 {
		hskip = 2
		if cl[3] == 0 {
			hskip = 3
		}
		if e.rng.P(0.2) {
			hskip = 0
		}
	}
	w.Bits(uint64(hskip), 2)
	sp := 32
	for i := hskip; i < 18; i++ {
		l := cl[clOrder[i]]
		w.Bits(uint64(clStatic[l][0]), int(clStatic[l][1]))
		if l > 0 {
			sp -= 32 >> uint(l)
		}
		if sp <= 0 {
			break
		}
	}
	var codes []uint32
	if n > 1 {
		codes = canonical(cl)
	}
	for _, t := range seq {
		if n > 1 {
			w.Bits(uint64(codes[t.s]), cl[t.s])
		}
		w.Bits(uint64(t.x), t.nb)
	}
}

func (e *EntCode) single(c int) int { return e.singles[c] }

// ---- ANS ----

func (e *EntCode) buildANS(c int, h []int) {
	r := e.rng
	w := &BitWriter{}
	e.ansHdr[c] = w
	size := 1 << uint(e.logAlpha)
	used := 0
	last := -1
	for i, x := range h {
		if x > 0 {
			used++
			last = i
		}
	}
	if used == 0 {
		last = 0
		if r.P(0.3) {
			last = r.N(min(size, 256))
		}
		used = 1
		h = make([]int, last+1)
		h[last] = 1
	}
	f := make([]int, size)
	switch {
	case used == 1 && r.P(0.9):
		w.Bits(1, 1)
		w.Bits(0, 1)
		if size <= 128 && fault("ans-single-beyond") {
			w.U8(size + last%(256-size))
		} else {
			w.U8(last)
		}
		f[last] = 4096
		e.Stats.Simple = true
	case used == 2 && r.P(0.7):
		a := -1
		for i, x := range h {
			if x > 0 {
				a = i
				break
			}
		}
		b := last
		if r.Bool() {
			a, b = b, a
		}
		fa := h[a] * 4096 / (h[a] + h[b])
		fa = max(1, min(4095, fa))
		f[a], f[b] = fa, 4096-fa
		w.Bits(1, 1)
		w.Bits(1, 1)
		switch {
		case fault("ans-dual-same"):
			w.U8(a)
			w.U8(a)
		case size <= 128 && fault("ans-dual-beyond"):
			w.U8(a)
			w.U8(size + b%(256-size))
		default:
			w.U8(a)
			w.U8(b)
		}
		w.Bits(uint64(fa), 12)
		e.Stats.Simple = true
	case last < 256 && (used > 1 || last == 0) && r.P(0.15):
		// flat
		n := last + 1
		if r.P(0.3) {
			n = min(min(size, 256), n+r.N(8))
		}
		for i := 0; i < n; i++ {
			f[i] = 4096 / n
			if i < 4096%n {
				f[i]++
			}
		}
		w.Bits(0, 1)
		w.Bits(1, 1)
		if size <= 128 && fault("ans-flat-beyond") {
			w.U8(size + n%(256-size))
		} else {
			w.U8(n - 1)
		}
		e.Stats.Flat = true
	default:
		hh := make([]int, size)
		copy(hh, h)
		if used == 1 {
			// need at least two for the general form
			k := last + 1
			if k >= size {
				k = last - 1
			}
			hh[k] = 1
		}
		if r.P(0.3) { // spurious symbols
			for k := 0; k < r.R(1, 12); k++ {
				hh[r.N(size)]++
			}
		}
		if r.P(0.3) { // runs of equal probabilities to exercise RLE
			a := r.N(size)
			b := min(size, a+r.R(5, 20))
			for i := a; i < b; i++ {
				hh[i]++
			}
			e.ansRunHint = true
		}
		e.generalANS(w, hh, f)
	}
	e.freqs[c] = f
	// alias table -> reverse map
	e.rev[c] = aliasReverse(f, e.logAlpha)
}

func popPrecision(logcount, shift int) int {
	r := min(logcount, shift-((12-logcount)>>1))
	if r < 0 {
		return 0
	}
	return r
}

func (e *EntCode) generalANS(w *BitWriter, h []int, f []int) {
	r := e.rng
	n := 0
	tot := 0
	cnt := 0
	for i, x := range h {
		if x > 0 {
			n = i + 1
			cnt++
		}
		tot += x
	}
	shift := 13
	if r.P(0.6) {
		shift = r.R(0, 13)
	}
	q := make([]int, n)
	for {
		sum := 0
		for i := 0; i < n; i++ {
			q[i] = 0
			if h[i] == 0 {
				continue
			}
			x := int(int64(h[i]) * int64(4096-cnt) / int64(tot))
			if x < 1 {
				x = 1
			}
			lc := floorLog2(uint32(x))
			p := popPrecision(lc, shift)
			x = x >> uint(lc-p) << uint(lc-p)
			q[i] = x
			sum += x
		}
		if sum <= 4096 {
			break
		}
		panic("ans normalisation")
	}
	if n > 258 {
		panic("ans alphabet")
	}
	// omit pos = first with the largest logcount
	omit, best := -1, -1
	for i, x := range q {
		if x > 0 {
			if lc := floorLog2(uint32(x)) + 1; lc > best {
				best, omit = lc, i
			}
		}
	}
	sum := 0
	for i, x := range q {
		if i != omit {
			sum += x
		}
	}
	q[omit] = 4096 - sum
	copy(f, q)
	al := max(n, 3)
	if r.P(0.2) {
		al = min(len(h), al+r.N(10))
		al = max(al, 3)
	}
	for len(q) < al {
		q = append(q, 0)
	}
	w.Bits(0, 1)
	w.Bits(0, 1)
	// shift: unary length then bits
	if fault("ans-shift") {
		shift = 14
	}
	l := floorLog2(uint32(shift + 1))
	for i := 0; i < l; i++ {
		w.Bits(1, 1)
	}
	if l < 3 {
		w.Bits(0, 1)
	}
	w.Bits(uint64(shift+1-(1<<uint(l))), l)
	if len(h) <= 128 && fault("ans-alphabet") {
		w.U8(len(h) - 2 + al)
	} else {
		w.U8(al - 3)
	}
	blen := []int{5, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 6, 7, 7}
	bsym := []uint64{17, 11, 15, 3, 9, 7, 4, 2, 5, 6, 0, 33, 1, 65}
	lcs := make([]int, al)
	for i, x := range q {
		if x > 0 {
			lcs[i] = floorLog2(uint32(x)) + 1
		}
	}
	// the coded logcount of omit must strictly exceed earlier ones and be >= later ones
	if lcs[omit] < best {
		lcs[omit] = best
	}
	tooMuch := false
	if al >= 4 && fault("ans-sum") {
		// four symbols of a half each
		tooMuch = true
	}
	rle := r.P(0.7)
	skip := make([]bool, al)
	for i := 0; i < al; {
		if tooMuch {
			w.Bits(bsym[12], blen[12])
			i++
			continue
		}
		if i-1 == omit && fault("ans-omit") {
			w.Bits(bsym[13], blen[13])
			w.U8(0)
			i++
			continue
		}
		if rle && i-1 != omit && i != omit {
			// a run repeats the symbol before it; at the start there is none, and zeros are repeated
			prev := 0
			if i > 0 {
				prev = q[i-1]
			}
			run := 0
			for i+run < al && i+run != omit && q[i+run] == prev {
				run++
			}
			if run >= 4 && run <= 259 {
				w.Bits(bsym[13], blen[13])
				w.U8(run - 4)
				for k := 0; k < run; k++ {
					skip[i+k] = true
				}
				e.Stats.RLE = true
				if i == 0 {
					e.Stats.RLE0 = true
				}
				i += run
				continue
			}
		}
		w.Bits(bsym[lcs[i]], blen[lcs[i]])
		i++
	}
	for i, x := range q {
		if skip[i] || i == omit || x == 0 || lcs[i] == 1 {
			continue
		}
		lc := lcs[i] - 1
		p := popPrecision(lc, shift)
		w.Bits(uint64((x-(1<<uint(lc)))>>uint(lc-p)), p)
	}
}

func aliasReverse(f []int, logAlpha int) [][]uint16 {
	size := 1 << uint(logAlpha)
	logB := 12 - logAlpha
	bs := 1 << uint(logB)
	cut := make([]int, size)
	right := make([]int, size)
	off := make([]int, size)
	uniq := -1
	for s, x := range f {
		if x == 4096 {
			uniq = s
		}
	}
	if uniq >= 0 {
		for i := range cut {
			right[i] = uniq
			off[i] = i * bs
		}
	} else {
		var over, under []int
		for i := 0; i < size; i++ {
			cut[i] = f[i]
			if cut[i] > bs {
				over = append(over, i)
			} else if cut[i] < bs {
				under = append(under, i)
			}
		}
		for len(over) > 0 {
			o := over[len(over)-1]
			over = over[:len(over)-1]
			u := under[len(under)-1]
			under = under[:len(under)-1]
			by := bs - cut[u]
			cut[o] -= by
			right[u] = o
			off[u] = cut[o]
			if cut[o] < bs {
				under = append(under, o)
			} else if cut[o] > bs {
				over = append(over, o)
			}
		}
		for i := range cut {
			if cut[i] == bs {
				right[i], off[i], cut[i] = i, 0, 0
			} else {
				off[i] -= cut[i]
			}
		}
	}
	rev := make([][]uint16, len(f))
	for s, x := range f {
		rev[s] = make([]uint16, x)
	}
	seen := 0
	for res := 0; res < 4096; res++ {
		i := res >> uint(logB)
		pos := res & (bs - 1)
		var s, o int
		if pos >= cut[i] {
			s, o = right[i], off[i]+pos
		} else {
			s, o = i, pos
		}
		if s < len(rev) && o < len(rev[s]) {
			rev[s][o] = uint16(res)
			seen++
		} else {
			panic("alias table")
		}
	}
	return rev
}

// WriteHeader writes the whole histogram header.
func (e *EntCode) WriteHeader(w *BitWriter) {
	r := e.rng
	w.Bool(e.lz)
	if e.lz {
		w.U32R(r, uint32(e.lzMinSym), [4]D{{224, 0}, {512, 0}, {4096, 0}, {8, 15}})
		w.U32R(r, uint32(e.lzMinLen), [4]D{{3, 0}, {4, 0}, {5, 2}, {9, 8}})
		e.lzCfg.write(w, 8)
	}
	if len(e.cmap) > 1 {
		e.writeClusterMap(w)
	}
	w.Bool(e.prefix)
	if !e.prefix {
		w.Bits(uint64(e.logAlpha-5), 2)
	}
	for _, c := range e.cfgs {
		c.write(w, e.logAlpha)
	}
	if e.prefix {
		for _, a := range e.alpha {
			if a == 1 {
				w.Bits(0, 1)
				continue
			}
			w.Bits(1, 1)
			n := floorLog2(uint32(a - 1))
			w.Bits(uint64(n), 4)
			w.Bits(uint64(a-1-(1<<uint(n))), n)
		}
		for c := range e.alpha {
			e.writePrefixCode(w, c)
		}
		return
	}
	for c := range e.ansHdr {
		w.Append(e.ansHdr[c])
	}
}

func (e *EntCode) writeClusterMap(w *BitWriter) {
	WriteClusterMap(w, e.rng, e.cmap, e.nclust, &e.Stats)
}

// WriteClusterMap writes a context map.
func WriteClusterMap(w *BitWriter, r *Rng, cmap []int, nclust int, st *EntStats) {
	if len(cmap) > 1 && len(cmap) < 256 && fault("clusters-many") { // more of them than contexts
		cmap = append([]int{}, cmap...)
		cmap[len(cmap)-1] = len(cmap)
		nclust = len(cmap) + 1
	}
	if nclust <= 8 && r.P(0.6) {
		w.Bool(true)
		nb := ceilLog2(nclust)
		if nb < 3 && r.P(0.2) {
			nb = r.R(nb, 3)
		}
		w.Bits(uint64(nb), 2)
		for _, c := range cmap {
			w.Bits(uint64(c), nb)
		}
		return
	}
	w.Bool(false)
	mtf := r.Bool()
	w.Bool(mtf)
	st.MTF = st.MTF || mtf
	toks := make([]Tok, len(cmap))
	tab := make([]int, 256)
	for i := range tab {
		tab[i] = i
	}
	for i, c := range cmap {
		if mtf {
			k := 0
			for tab[k] != c {
				k++
			}
			toks[i] = Tok{0, uint32(k)}
			copy(tab[1:k+1], tab[:k])
			tab[0] = c
		} else {
			toks[i] = Tok{0, uint32(c)}
		}
	}
	o := EntOpts{NoLZ: len(cmap) <= 2}
	if len(cmap) <= 2 && fault("nested-lz") {
		o = EntOpts{ForceLZ: true}
	}
	sub, syms := BuildEnt(r, 1, []TokSection{{Toks: toks}}, o)
	sub.WriteHeader(w)
	sub.WriteSyms(w, syms[0])
}

// WriteSyms writes one section's symbols (with the ANS state if applicable).
func (e *EntCode) WriteSyms(w *BitWriter, syms []esym) {
	if e.prefix {
		for _, s := range syms {
			w.Bits(uint64(e.pcodes[s.cl][s.tok]), e.plens[s.cl][s.tok])
			w.Bits(uint64(s.bits), s.nb)
		}
		return
	}
	if len(syms) == 0 {
		return
	}
	type out struct {
		v  uint64
		nb int
	}
	var rev []out
	x := uint32(0x130000)
	if fault("ans-state") {
		x += 1 + uint32(len(syms))*977%0x40000
	}
	for i := len(syms) - 1; i >= 0; i-- {
		s := syms[i]
		rev = append(rev, out{uint64(s.bits), s.nb})
		f := uint32(e.freqs[s.cl][s.tok])
		if f == 0 {
			panic("ans: zero frequency")
		}
		if (x >> 20) >= f {
			rev = append(rev, out{uint64(x & 0xffff), 16})
			x >>= 16
		}
		x = (x/f)<<12 | uint32(e.rev[s.cl][s.tok][x%f])
	}
	w.Bits(uint64(x), 32)
	for i := len(rev) - 1; i >= 0; i-- {
		w.Bits(rev[i].v, rev[i].nb)
	}
}
