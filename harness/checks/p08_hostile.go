package checks

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"math/bits"
	"runtime"
	"runtime/metrics"
	"syscall"
	"time"

	"jxverif/jx"
	"jxverif/rt"

	jxl_go "github.com/kpfaulkner/jxl-go"
	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"
)

func init() {
	rt.Register(&rt.Check{ID: "P08", Quick: 600, Thorough: 12000, Batch: 20, CaseLimit: 25 * time.Second, MemMB: 6000,
		Rule: "hostile byte strings: streams of every generator of this suite (lossless and lossy, one or many sections, LF frames, compositions, profiles, features, containers) and the sample files, written with single header fields, tree nodes, code tables or symbols replaced while every length and the table of contents stay consistent, or with bits flipped, bytes overwritten, pieces deleted, repeated, exchanged, cut off or replaced by noise, plus hand-built extremes (largest dimensions, counts, lengths and box sizes) and noise; each goes through header query, decoding with 1 to 8 goroutines, image registration and, when accepted, every output; monitors watch for panics in any goroutine, process exits, hangs, processor time and memory beyond what the input's length and declared size allow, and goroutines left behind; non-trivial when the decoder consumed the input and the outcome was judged",
		Need: []string{"runs", "accepted", "rejected", "field_mutants", "byte_mutants", "section_mutants", "extremes", "bombs", "noise", "multi_section", "many_sections", "outputs"},
		Run:  p08})
}

var errTapped = errors.New("tapped")

// tapStream runs a case of another check and takes the n-th stream it would have decoded.
func tapStream(id string, index int, seed uint64, n int) (out []byte) {
	defer func() {
		tap = nil
		if e := recover(); e != nil && e != errTapped {
			// a generator may stumble over its own mutated output
			out = nil
		}
	}()
	tap = func(b []byte) {
		if n--; n < 0 {
			out = append([]byte{}, b...)
			panic(errTapped)
		}
	}
	c := rt.Get(id)
	p := rt.Probe(c, jx.NewRng(seed))
	p.Index = index
	p.Tier = "quick"
	c.Run(p)
	return
}

// sources of well-formed streams: check and how many kinds its case index selects
var tapIDs = []string{"P01", "P01", "P05", "P09", "P11", "P15", "P15", "P16", "P17", "P17", "P17", "P18", "P18", "P19", "P20", "P22", "P22", "P26"}

// wellFormed makes one well-formed stream; fuzz, when set, replaces written values.
func wellFormed(id string, index int, seed uint64, fuzz func(uint64, int) uint64) []byte {
	jx.Fuzz = fuzz
	defer func() { jx.Fuzz = nil }()
	return tapStream(id, index, seed, 0)
}

// fieldMutant replaces k of the values written.
func fieldMutant(r *jx.Rng, id string, index int, seed uint64) []byte {
	n := 0
	if wellFormed(id, index, seed, func(v uint64, _ int) uint64 { n++; return v }) == nil || n == 0 {
		return nil
	}
	hit := map[int]bool{}
	for k := r.Pick(1, 1, 1, 2, 3, 6); k > 0; k-- {
		switch r.N(4) {
		case 0:
			hit[r.N(min(n, 200))] = true
		case 1:
			hit[n-1-r.N(min(n, 300))] = true
		default:
			hit[r.N(n)] = true
		}
	}
	i := 0
	return wellFormed(id, index, seed, func(v uint64, nb int) uint64 {
		i++
		if !hit[i-1] {
			return v
		}
		switch r.N(7) {
		case 0:
			return ^uint64(0)
		case 1:
			return 0
		case 2:
			return v ^ 1<<uint(r.N(nb))
		case 3:
			return v + 1
		case 4:
			return v - 1
		}
		return r.U64()
	})
}

// byteMutant damages a stream.
func byteMutant(r *jx.Rng, b []byte) []byte {
	b = append([]byte{}, b...)
	pos := func() int {
		if len(b) == 0 {
			return 0
		}
		if r.P(0.4) {
			return r.N(min(len(b), 60))
		}
		return r.N(len(b))
	}
	for k := r.Pick(1, 1, 1, 2, 3, 8); k > 0 && len(b) > 0; k-- {
		p := pos()
		n := min(r.R(1, 20), len(b)-p)
		switch r.N(9) {
		case 0, 1:
			b[p] ^= 1 << uint(r.N(8))
		case 2:
			b[p] = byte(r.Pick(0, 255, 127, 128, r.N(256)))
		case 3:
			b = append(b[:p:p], b[p+n:]...)
		case 4:
			b = append(b[:p+n:p+n], b[p:]...)
		case 5:
			q := pos()
			m := min(n, len(b)-q)
			tmp := append([]byte{}, b[p:p+m%(len(b)-p+1)]...)
			copy(b[p:], b[q:q+m])
			copy(b[q:], tmp)
		case 6:
			for i := p; i < p+n; i++ {
				b[i] = byte(r.U64())
			}
		case 7:
			for i := p; i < len(b); i++ {
				b[i] = byte(r.U64())
			}
		case 8:
			v := byte(r.Pick(0, 255))
			for i := p; i < p+n; i++ {
				b[i] = v
			}
		}
	}
	return b
}

// extreme builds headers with the largest values their fields can hold and little data behind them.
func extreme(r *jx.Rng) ([]byte, string) {
	w := &jx.BitWriter{}
	big := func() int { return r.Pick(1, 8, 300, 65535, 1<<18, 1<<24, 1<<28, 1<<29+7, 1<<30) }
	m := &jx.Meta{W: big(), H: big(), BD: jx.BitDepth{Bits: r.Pick(8, 16, 32)}, CE: jx.SRGBEnc(), XformDef: true}
	if r.P(0.3) {
		m.W, m.H = r.R(1, 300), r.R(1, 300)
	}
	m.XYB = r.P(0.3)
	for k := r.Pick(0, 0, 1, 3, 40); k > 0; k-- {
		m.EC = append(m.EC, jx.ExtraCh{Type: r.Pick(jx.ECAlpha, jx.ECDepth), BD: m.BD, Name: string(make([]byte, r.Pick(0, 0, 0, 1000)))})
	}
	m.Write(w, r)
	desc := fmt.Sprintf("%dx%d, %d extra channels", m.W, m.H, len(m.EC))
	for k := r.Pick(1, 1, 2); k > 0; k-- {
		f := &jx.FrameHdr{Type: r.Pick(0, 0, 0, 1, 2, 3), Modular: r.Bool(), RF: jx.NoRF(), Up: r.Pick(1, 1, 1, 2, 8), GroupShift: r.N(4), Pass: jx.PassSpec{Num: 1}, Xqm: 3, Bqm: 2}
		f.IsLast = f.Type == 0 && k == 1
		for range m.EC {
			f.EcUp = append(f.EcUp, 1)
			f.EcBlend = append(f.EcBlend, jx.BlendInfo{})
		}
		if r.P(0.3) {
			f.Pass = jx.RandPasses(r)
		}
		if f.Type == 1 {
			f.LfLevel = r.R(1, 4)
		}
		if r.P(0.4) {
			f.Crop = true
			f.X0, f.Y0 = r.Pick(0, 0, -5, 1<<28, -(1<<28)), r.Pick(0, 0, 7, 1<<28, -(1<<28))
			f.W, f.H = big(), big()
			if r.P(0.1) {
				f.W = 0
			}
			if r.P(0.1) {
				f.H = 0
			}
			desc += fmt.Sprintf(", frame %dx%d at %d,%d", f.W, f.H, f.X0, f.Y0)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					desc += ", no frame header" // not representable
				}
			}()
			ww := &jx.BitWriter{}
			f.Write(ww, r, m)
			w.Append(ww)
		}()
	}
	// the table of contents
	if r.P(0.2) {
		w.Bits(1, 1)
	} else {
		w.Bits(0, 1)
		w.Align()
	}
	n := r.Pick(0, 1, 3, 20, 400)
	for i := 0; i < n; i++ {
		s := r.Pick(0, 0, 1, 2, 3)
		w.Bits(uint64(s), 2)
		nb := [4]int{10, 14, 22, 30}[s]
		v := r.U64()
		if r.P(0.4) {
			v = 0
		} else if r.P(0.3) {
			v = ^uint64(0)
		}
		w.Bits(v&(1<<uint(nb)-1), nb)
	}
	w.Align()
	tail := make([]byte, r.Pick(0, 1, 10, 100, 3000))
	if r.Bool() {
		fillBytes(r, tail)
	}
	w.AppendBytes(tail)
	b := append([]byte{}, w.Bytes()...)
	if r.P(0.2) {
		// a box said to be far larger than the file
		ct := jx.Container([]jx.Box{{Type: "jxlc", Data: b, Large: r.Bool()}})
		for i := range ct {
			if i+8 < len(ct) && string(ct[i+4:i+8]) == "jxlc" {
				fillBytes(r, ct[i:i+r.R(1, 4)])
			}
		}
		return ct, desc + ", box size overwritten"
	}
	return b, desc
}

// bomb builds short streams whose fields ask for as much work as their encoding allows.
func bomb(t *rt.T) ([]byte, string) {
	r := t.R
	dim := func() int { return r.Pick(1, 1, 8, 64, 300, 1024) }
	switch r.N(8) {
	case 0:
		n := uint64(1) << uint(r.R(8, 33))
		if r.P(0.3) {
			n = r.U64() >> uint(r.N(40))
		}
		return jx.ICCBomb(r, n), fmt.Sprintf("profile of %d bytes without data", n)
	case 1:
		return jx.ModularBomb(r, dim(), dim(), 0, func(w *jx.BitWriter) {
			w.Bits(1, 1)
			jx.ConstCode(w, 6, r.R(1, 17))
		}), "tree without end"
	case 2:
		d := r.Pick(100, 3000, 30000)
		if t.Thorough() {
			d = r.Pick(d, 300000)
		}
		root := &jx.MANode{Prop: -1}
		for i := 0; i < d; i++ {
			n := &jx.MANode{Prop: r.Pick(2, 3, 4, 9), Val: int32(i - d/2)}
			leaf := &jx.MANode{Prop: -1}
			if r.Bool() {
				n.L, n.R = root, leaf
			} else {
				n.L, n.R = leaf, root
			}
			root = n
		}
		return jx.ModularBomb(r, r.R(1, 20), r.R(1, 20), 0, func(w *jx.BitWriter) {
			w.Bits(1, 1)
			(&jx.MATree{Root: root}).Write(w, r, jx.EntOpts{})
			jx.ConstCode(w, d+1, 0)
			w.Bits(1, 1)
			w.Bits(1, 1)
			w.Bits(0, 2)
		}), fmt.Sprintf("tree of depth %d", d)
	case 3, 4:
		steps, k := r.R(1, 296), r.Pick(1, 1, 2, 4)
		return jx.ModularBomb(r, dim(), dim(), r.Pick(0, 20), func(w *jx.BitWriter) {
			w.Bits(1, 1)
			jx.ConstTree(w)
			w.Bits(1, 1)
			w.Bits(1, 1)
			w.U32(uint32(k), jx.NumTransD)
			ch := 3
			for i := 0; i < k; i++ {
				tr := jx.Transform{Kind: jx.TrSqueeze, Explicit: r.P(0.9)}
				for j := 0; tr.Explicit && j < steps; j++ {
					n := min(ch, 19)
					if r.P(0.1) {
						n = r.R(1, n)
					}
					tr.Steps = append(tr.Steps, jx.SqStep{Horiz: r.Bool(), InPlace: r.Bool(), Begin: min(r.N(ch-n+1), 9000), Num: n})
					ch += n
				}
				tr.Write(w, nil)
			}
		}), fmt.Sprintf("%d squeezes of %d steps", k, steps)
	case 5:
		nec := r.Pick(0, 0, 5, 60)
		k := r.Pick(1, 1, 3, 18, 273)
		return jx.ModularBomb(r, dim(), dim(), nec, func(w *jx.BitWriter) {
			w.Bits(1, 1)
			jx.ConstTree(w)
			w.Bits(1, 1)
			w.Bits(1, 1)
			w.U32(uint32(k), jx.NumTransD)
			for i := 0; i < k; i++ {
				n := r.Pick(1, 1, 1, 2, 3, 3+nec, 8192)
				tr := jx.Transform{Kind: jx.TrPalette, Begin: r.Pick(0, 0, i, 1), NumC: n, NbCol: r.Pick(0, 1, 70911), NbDelta: r.Pick(0, 0, 66816), DPred: r.N(16)}
				tr.Write(w, nil)
			}
		}), fmt.Sprintf("%d palettes", k)
	case 6:
		k := r.Pick(1, 18, 273)
		return jx.ModularBomb(r, dim(), dim(), 0, func(w *jx.BitWriter) {
			w.Bits(1, 1)
			jx.ConstTree(w)
			w.Bits(1, 1)
			w.Bits(1, 1)
			w.U32(uint32(k), jx.NumTransD)
			for i := 0; i < k; i++ {
				tr := jx.Transform{Kind: jx.TrRCT, Begin: r.Pick(0, 0, 0, 0, 1), RCT: r.N(42)}
				tr.Write(w, nil)
			}
		}), fmt.Sprintf("%d colour transforms", k)
	}
	// a table of contents in an order whose code takes no bits
	w := &jx.BitWriter{}
	m := &jx.Meta{W: r.Pick(300, 5000, 1<<18), H: r.Pick(300, 4096), BD: jx.BitDepth{Bits: 8}, CE: jx.SRGBEnc(), XformDef: true}
	m.Write(w, r)
	f := &jx.FrameHdr{Modular: true, RF: jx.NoRF(), Up: 1, GroupShift: r.N(4), IsLast: true, Pass: jx.PassSpec{Num: 1}}
	if r.Bool() {
		f.Pass = jx.RandPasses(r)
	}
	f.Write(w, r, m)
	w.Bits(1, 1)
	v := r.Pick(0, 1, 2, 10, 300, 5000, 32767)
	jx.ConstCode(w, 8, v)
	w.Align()
	w.AppendBytes(make([]byte, r.Pick(0, 10, 3000)))
	return w.Bytes(), fmt.Sprintf("%dx%d with an order of constant code %d", m.W, m.H, v)
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// budget is the memory and processor time an input may cost, from its length and the size it declares.
func budget(data []byte, hdr *bundle.ImageHeader) (mem uint64, cpu time.Duration) {
	mem, cpu = 256<<20, 6*time.Second
	mem += uint64(len(data)) * 20000
	cpu += time.Duration(len(data)) * 200 * time.Microsecond
	if hdr != nil {
		hi, lo := bits.Mul64(uint64(hdr.Size.Width), uint64(hdr.Size.Height))
		if hi == 0 && lo <= 1<<22 {
			px := lo * uint64(3+len(hdr.ExtraChannelInfo))
			mem += px * 1000
			cpu += time.Duration(px) * 20 * time.Microsecond
		}
	}
	return
}

// hostile runs every entry point over data.
func hostile(t *rt.T, data []byte, what string) bool {
	dump(data)
	r := t.R
	base := runtime.NumGoroutine()
	var hdr *bundle.ImageHeader
	run := func(name string, f func() (bool, error)) bool {
		m, c := budget(data, hdr)
		a0, c0 := allocated(), cpuTime()
		var got bool
		var err error
		if p := rt.Guard(func() { got, err = f() }); p != "" {
			t.Failf("panic", "%s of %s (%d bytes): %s", name, what, len(data), p)
			return false
		}
		a, c1 := allocated()-a0, cpuTime()-c0
		t.Count("runs", 1)
		t.Max("max_alloc_mb", int(a>>20))
		t.Max("max_cpu_ms", int(c1.Milliseconds()))
		if got == (err != nil) {
			t.Failf("outcome", "%s of %s: result %v, error %v", name, what, got, err)
			return false
		}
		if a > m {
			t.Failf("memory", "%s of %s (%d bytes) allocates %d MB, allowed %d MB; error %v", name, what, len(data), a>>20, m>>20, err)
			return false
		}
		// a busy machine can slow one run down, not several
		for i := 0; i < 3 && c1 > c; i++ {
			c0 = cpuTime()
			rt.Guard(func() { f() })
			c1 = min(c1, cpuTime()-c0)
		}
		if c1 > c {
			t.Failf("time", "%s of %s (%d bytes) takes %v of processor time, allowed %v; error %v", name, what, len(data), c1, c, err)
			return false
		}
		return true
	}
	if !run("GetImageHeader", func() (bool, error) {
		h, err := core.NewJXLDecoder(bytes.NewReader(data), nil).GetImageHeader()
		hdr = h
		return h != nil, err
	}) {
		return false
	}
	if hdr != nil {
		if !run("GetDecodedICC", func() (bool, error) { _, err := hdr.GetDecodedICC(); return err == nil, err }) {
			return false
		}
	}
	if r.P(0.3) && !run("DecodeConfig", func() (bool, error) {
		c, err := jxl_go.DecodeConfig(bytes.NewReader(data))
		return c.ColorModel != nil, err
	}) {
		return false
	}
	if r.P(0.2) && !run("parse-only Decode", func() (bool, error) {
		_, err := core.NewJXLDecoder(bytes.NewReader(data), &options.JXLOptions{ParseOnly: true}).Decode()
		return err == nil, err
	}) {
		return false
	}
	var img *core.JXLImage
	if !run("Decode", func() (bool, error) {
		var in io.ReadSeeker = bytes.NewReader(data)
		if r.P(0.3) {
			in = newFrag(r, data, r.N(5))
		}
		var err error
		img, err = core.NewJXLDecoder(in, &options.JXLOptions{MaxGoroutines: r.Pick(1, 2, 8, 8)}).Decode()
		return img != nil, err
	}) {
		return false
	}
	if img == nil {
		t.Count("rejected", 1)
	} else {
		t.Count("accepted", 1)
		t.Count("outputs", 1)
		if !run("WritePNG", func() (bool, error) {
			w := &core.PNGWriter{}
			err := w.WritePNG(img, io.Discard)
			return err == nil, err
		}) || !run("WritePFM", func() (bool, error) {
			err := core.WritePFM(img, io.Discard)
			return err == nil, err
		}) {
			return false
		}
	}
	if r.P(0.3) || img != nil {
		if !run("image.Decode", func() (bool, error) {
			g, _, err := image.Decode(bytes.NewReader(data))
			return g != nil, err
		}) {
			return false
		}
	}
	for i := 0; runtime.NumGoroutine() > base; i++ {
		if i > 200 {
			t.Failf("goroutines", "%s leaves %d goroutines behind", what, runtime.NumGoroutine()-base)
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

func p08(t *rt.T) {
	r := t.R
	kind := r.N(20)
	id := tapIDs[r.N(len(tapIDs))]
	index, seed := r.N(1<<20), r.U64()
	n := 8
	var base []byte
	switch {
	case kind < 8: // fields
		for k := 0; k < n; k++ {
			b := fieldMutant(r, id, index, seed)
			if b == nil {
				continue
			}
			t.Count("field_mutants", 1)
			if !hostile(t, b, fmt.Sprintf("%s stream with fields replaced", id)) {
				return
			}
		}
		t.Key("fields %s %d", id, seed)
	case kind < 13: // bytes
		if r.P(0.4) {
			c := corpus()
			base = c[r.N(len(c))]
			for len(base) > 20000 && r.P(0.8) {
				base = c[r.N(len(c))]
			}
			id = "sample file"
		} else {
			base = wellFormed(id, index, seed, nil)
		}
		if base == nil {
			return
		}
		if r.P(0.15) {
			base = randContainer(r, base, func(string, int) {})
		}
		if len(base) > 20000 {
			n = 2
		}
		for k := 0; k < n; k++ {
			t.Count("byte_mutants", 1)
			if !hostile(t, byteMutant(r, base), id+" damaged") {
				return
			}
		}
		t.Key("bytes %s %d", id, seed)
	case kind < 17: // sections
		var m *jx.Meta
		var frames []*jx.BuiltFrame
		if r.Bool() {
			c := genMod(r, r.P(0.3))
			m, frames = c.m, []*jx.BuiltFrame{c.b}
		} else {
			v := genVarDCT(r, r.Pick(0, 0, 1, 2, 2, 3, 4))
			m, frames = v.m, v.frames
		}
		for k := 0; k < n; k++ {
			f := frames[r.N(len(frames))]
			secs := f.Sections
			f.Sections = append([][]byte{}, secs...)
			i := r.N(len(secs))
			f.Sections[i] = byteMutant(r, secs[i])
			what := fmt.Sprintf("stream with section %d of %d damaged", i, len(secs))
			if len(secs) > 1 {
				t.Count("multi_section", 1)
			}
			if nlf := f.Lay.NLF; len(secs) > 1 && r.Bool() { // many sections of a kind
				from, to := 1, 1+nlf
				if r.Bool() && len(secs) > 2+nlf {
					from, to = 2+nlf, len(secs)
				}
				p, how := r.Pick(3, 10, 10), r.N(4)
				for i := from; i < to; i++ {
					if r.N(10) >= p || len(secs[i]) == 0 {
						continue
					}
					switch how {
					case 0:
						f.Sections[i] = byteMutant(r, secs[i])
					case 1:
						f.Sections[i] = nil
					case 2:
						f.Sections[i] = secs[i][:r.N(len(secs[i]))]
					default:
						s := make([]byte, len(secs[i]))
						fillBytes(r, s)
						f.Sections[i] = s
					}
				}
				what = fmt.Sprintf("stream with sections %d to %d of %d damaged", from, to-1, len(secs))
				t.Count("many_sections", 1)
			}
			b := jx.Codestream(r, m, frames, r.P(0.3))
			f.Sections = secs
			t.Count("section_mutants", 1)
			if !hostile(t, b, what) {
				return
			}
		}
		t.Key("section %d", seed)
	case kind < 19:
		for k := 0; k < n; k++ {
			b, desc := extreme(r)
			if k%2 == 1 {
				b, desc = bomb(t)
				t.Count("bombs", 1)
			}
			t.Count("extremes", 1)
			if !hostile(t, b, desc) {
				return
			}
		}
		t.Key("extreme %d", seed)
	default:
		for k := 0; k < n; k++ {
			b := make([]byte, r.Pick(0, 1, 2, 5, 12, 40, 300, 5000))
			fillBytes(r, b)
			if r.P(0.8) {
				copy(b, []byte{0xff, 0x0a})
			}
			t.Count("noise", 1)
			if !hostile(t, b, "noise") {
				return
			}
		}
		t.Key("noise %d", seed)
	}
	t.Desc("%s", id)
}

// fillBytes fills b with noise.
func fillBytes(r *jx.Rng, b []byte) {
	for i := range b {
		b[i] = byte(r.U64())
	}
}
