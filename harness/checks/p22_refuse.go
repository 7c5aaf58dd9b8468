package checks

import (
	"bytes"
	"embed"
	"fmt"
	"image"

	"jxverif/jx"
	"jxverif/rt"

	jxl_go "github.com/kpfaulkner/jxl-go"
	"github.com/kpfaulkner/jxl-go/core"
)

func init() {
	rt.Register(&rt.Check{ID: "P22", Quick: 600, Thorough: 8000, Batch: 16,
		Rule: "valid images of every kind of frame (lossless and lossy, several groups, LF frames, reference frames, compositions) in which one or more frames use noise, patches or splines, images which are animations or have a preview, the sample files with such features, and images in transfer curves output cannot convert; each must be refused with an error by every decoding entry point, without an image and without a panic, while the same image without the feature must decode; non-trivial when the image without the feature decoded and the one with it was judged",
		Need: []string{"noise", "patches", "splines", "animation", "preview", "curve", "samples_files", "controls", "refused", "lossy", "lf_frame", "ref_frame", "multi_frame"},
		Run:  p22})
}

//go:embed refused/*.jxl
var refusedFS embed.FS

// refusedFile is one of the project's sample files with an unsupported feature.
func refusedFile(name string) []byte {
	b, err := refusedFS.ReadFile("refused/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

// mustRefuse runs every decoding entry point; none may give an image.
func mustRefuse(t *rt.T, what string, data []byte) bool {
	try := func(name string, f func() (bool, error)) (ok bool) {
		defer func() {
			if p := recover(); p != nil {
				t.Failf("panic", "%s of an image with %s panics: %v", name, what, p)
				ok = false
			}
		}()
		got, err := f()
		if err == nil || got {
			t.Failf("decoded-"+what, "%s of an image with %s gives image %v, error %v", name, what, got, err)
			return false
		}
		t.Count("refused", 1)
		return true
	}
	ok := try("JXLDecoder.Decode", func() (bool, error) {
		img, err := decode(data, nil)
		return img != nil, err
	}) && try("Decode", func() (bool, error) {
		img, err := jxl_go.Decode(bytes.NewReader(data))
		return img != nil, err
	}) && try("image.Decode", func() (bool, error) {
		img, _, err := image.Decode(bytes.NewReader(data))
		return img != nil, err
	}) && try("JXLDecoder.Decode after the header query", func() (bool, error) {
		d := core.NewJXLDecoder(bytes.NewReader(data), nil)
		d.GetImageHeader()
		img, err := d.Decode()
		return img != nil, err
	}) && try("a second JXLDecoder.Decode", func() (bool, error) {
		d := core.NewJXLDecoder(bytes.NewReader(data), nil)
		d.Decode()
		img, err := d.Decode()
		return img != nil, err
	})
	return ok
}

const (
	featNoise = 1 << iota
	featPatches
	featSplines
	featAnim
	featPreview
)

type featCase struct {
	m     *jx.Meta
	cs    []byte
	desc  string
	count map[string]bool
}

// genFeature makes an image; the same generator state without the features gives its plain version.
func genFeature(r *jx.Rng, feat int) *featCase {
	c := &featCase{count: map[string]bool{}}
	m := &jx.Meta{W: r.R(1, 60), H: r.R(1, 60), BD: jx.BitDepth{Bits: r.Pick(8, 8, 10, 16)}, CE: jx.SRGBEnc(), XformDef: true}
	if r.P(0.1) {
		m.W, m.H = r.R(257, 300), r.R(10, 40)
	}
	kind := r.N(5) // lossless, lossy, LF frame + lossy, several frames, several lossy frames
	switch {
	case kind == 1 || kind == 2 || kind == 4:
		m.XYB = r.Bool()
		c.count["lossy"] = true
	case r.P(0.25):
		m.CE = jx.GrayEnc()
	}
	for k := r.Pick(0, 0, 1, 2); k > 0; k-- {
		m.EC = append(m.EC, jx.ExtraCh{Type: r.Pick(jx.ECAlpha, jx.ECDepth), BD: m.BD})
	}
	if r.P(0.2) {
		m.Orient = r.R(1, 8)
	}
	c.m = m
	nf := 1
	if kind >= 3 {
		nf = r.R(2, 4)
		c.count["multi_frame"] = true
	}
	lfk := kind == 2
	target := r.N(nf) // the frame with the feature
	onLF := lfk && r.P(0.3)
	all := r.P(0.15)
	refAt := -1
	patchable := nf > 1
	if feat&featPatches != 0 && nf == 1 {
		nf, target, patchable = 2, 1, true
	}
	if patchable {
		refAt = r.N(nf - 1)
		if target <= refAt {
			target = refAt + 1
		}
	}
	type frm struct {
		b *jx.BuiltFrame
		m *jx.Meta
	}
	var frames []frm
	w := &jx.BitWriter{}
	if feat&featAnim != 0 {
		m.Anim, m.AnimTC = true, r.Bool()
	}
	if feat&featPreview != 0 {
		m.Preview, m.PreviewSz = true, [2]int{r.R(1, 40), r.R(1, 40)}
		if r.P(0.3) {
			m.PreviewSz = [2]int{0, 0}
		}
		pm := *m
		pm.W, pm.H = max(m.PreviewSz[0], 8), max(m.PreviewSz[1], 8)
		if m.PreviewSz[0] > 0 {
			pm.W, pm.H = m.PreviewSz[0], m.PreviewSz[1]
		}
		pf := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: 1, Pass: jx.PassSpec{Num: 1}}
		for range m.EC {
			pf.EcUp = append(pf.EcUp, 1)
		}
		ch := jx.CodedSizes(&pm, pf)
		for _, x := range ch {
			jx.FillChan(r, x, 0, 255)
		}
		frames = append(frames, frm{jx.BuildModFrame(r, &pm, pf, ch, jx.ModOpts{FixedPred: r.N(6)}), &pm})
	}
	pre := func(f *jx.FrameHdr, mine bool) func(w *jx.BitWriter) {
		fe := feat & (featNoise | featPatches | featSplines)
		if !mine && !all || fe == 0 {
			return nil
		}
		fw, fh := f.Size(m)
		if f.Type == jx.FrLF {
			fw, fh = f.Dim(m)
		}
		rw, rh := m.W, m.H
		seed := r.U64()
		if fe&featNoise != 0 {
			f.Flags |= 1
		}
		if fe&featPatches != 0 && patchable && mine && f.Type != jx.FrLF {
			f.Flags |= 2
		}
		if fe&featSplines != 0 {
			f.Flags |= 16
		}
		return func(w *jx.BitWriter) {
			r := jx.NewRng(seed)
			if f.Flags&2 != 0 {
				jx.WritePatches(w, r, m, 3, rw, rh, fw, fh)
			}
			if f.Flags&16 != 0 {
				jx.WriteSplines(w, r, fw, fh)
			}
			if f.Flags&1 != 0 {
				jx.WriteNoise(w, r)
			}
		}
	}
	for i := 0; i < nf; i++ {
		last := i == nf-1
		f := &jx.FrameHdr{IsLast: last, RF: jx.NoRF(), Up: 1, Xqm: 2, Bqm: 2, Pass: jx.PassSpec{Num: 1}}
		for range m.EC {
			f.EcUp = append(f.EcUp, 1)
		}
		f.Modular = kind == 0 || kind == 3
		f.Duration = uint32(r.Pick(0, 1, r.N(256), r.N(1<<20)))
		if last && m.Anim && f.Duration == 0 {
			f.Duration = 1
		}
		if i == refAt {
			f.SaveRef = 3
			if r.Bool() {
				f.Type = jx.FrRef
			}
			c.count["ref_frame"] = true
		} else if nf > 1 && i > 0 && r.P(0.5) {
			f.Blend = jx.BlendInfo{Mode: jx.BlAdd, Source: 0}
		}
		if f.Modular {
			f.Flags = 0
			if r.P(0.3) {
				f.GroupShift = r.N(4)
			}
			p := pre(f, i == target)
			ch := jx.CodedSizes(m, f)
			for k, x := range ch {
				hi := int64(1)<<uint(m.BD.Bits) - 1
				if m.XYB && k < 3 {
					hi = 100
				}
				jx.FillChan(r, x, 0, hi)
			}
			b := jx.BuildModFrame(r, m, f, ch, jx.ModOpts{FixedPred: r.N(6), Pre: p})
			frames = append(frames, frm{b, m})
			continue
		}
		f.Flags = 128
		o := jx.VOpts{Mod: jx.ModOpts{FixedPred: r.N(6)}, MaxBlock: 8}
		if lfk && i == nf-1 && kind == 2 {
			f.Flags |= 32
			lf := &jx.FrameHdr{Type: jx.FrLF, LfLevel: 1, RF: jx.NoRF(), Up: 1, Xqm: 2, Bqm: 2, Pass: jx.PassSpec{Num: 1}, Flags: 128}
			for range m.EC {
				lf.EcUp = append(lf.EcUp, 1)
			}
			lo := jx.VOpts{Mod: jx.ModOpts{FixedPred: r.N(6)}, MaxBlock: 8}
			lo.Mod.Pre = pre(lf, onLF && feat&^featPatches != 0)
			lb := jx.BuildVarDCT(r, m, lf, randExtra(r, m, lf, false), lo)
			lw, lh := lf.Dim(m)
			for k := range o.LF {
				o.LF[k] = mat(lh, lw)
				o.LFAbs[k] = mat(lh, lw)
				for y := range o.LF[k] {
					copy(o.LF[k][y], lb.P[k][y])
				}
			}
			frames = append(frames, frm{&lb.BuiltFrame, m})
			c.count["lf_frame"] = true
		}
		o.Mod.Pre = pre(f, i == target && !(onLF && feat&featPatches == 0))
		b := jx.BuildVarDCT(r, m, f, randExtra(r, m, f, false), o)
		frames = append(frames, frm{&b.BuiltFrame, m})
	}
	m.Write(w, r)
	for _, f := range frames {
		f.b.WriteFrame(w, r, f.m, r.P(0.1))
	}
	w.Align()
	c.cs = w.Bytes()
	c.desc = fmt.Sprintf("%dx%d, kind %d, %d frames, feature frame %d, on the LF frame %v, XYB %v, grey %v, %d extra", m.W, m.H, kind, len(frames), target, onLF, m.XYB, m.NColor() == 1, len(m.EC))
	return c
}

var featNames = []string{"noise", "patches", "splines", "animation", "preview"}

func p22(t *rt.T) {
	r := t.R
	switch {
	case t.Index%200 < 3:
		name := []string{"patches-lossless.jxl", "patches.jxl", "wb-rainbow.jxl"}[t.Index%200]
		t.Desc("sample file %s", name)
		if mustRefuse(t, "features of "+name, refusedFile(name)) {
			t.Count("samples_files", 1)
			t.Key("%s", name)
		}
		return
	case t.Index%20 == 13:
		p22Curve(t)
		return
	}
	seed := r.U64()
	k := r.N(len(featNames))
	feat := 1 << uint(k)
	if r.P(0.15) {
		feat |= 1 << uint(r.N(len(featNames)))
	}
	what := ""
	for i, n := range featNames {
		if feat>>uint(i)&1 == 1 {
			t.Count(n, 1)
			if what != "" {
				what += "+"
			}
			what += n
		}
	}
	plain := genFeature(jx.NewRng(seed), 0)
	t.Desc("%s; %s", what, plain.desc)
	img, err := decode(plain.cs, nil)
	if err != nil || img == nil {
		t.Failf("control", "the image without the feature is rejected: %v", err)
		return
	}
	t.Count("controls", 1)
	c := genFeature(jx.NewRng(seed), feat)
	t.Desc("%s; %s", what, c.desc)
	for n := range c.count {
		t.Count(n, 1)
	}
	data := c.cs
	if r.P(0.3) {
		data = randContainer(r, data, t.Count)
	}
	if mustRefuse(t, what, data) {
		t.Key("%s/%s", what, c.desc)
	}
}

// p22Curve: output in a transfer curve that cannot be converted is an error.
func p22Curve(t *rt.T) {
	r := t.R
	m := &jx.Meta{W: r.R(1, 20), H: r.R(1, 20), BD: jx.BitDepth{Bits: r.Pick(8, 10, 16)}, CE: jx.SRGBEnc(), XformDef: true}
	if r.P(0.3) {
		m.CE = jx.GrayEnc()
	}
	m.CE.TF = r.Pick(18, 2)
	if m.CE.Space == 0 {
		m.CE.Prim = r.Pick(1, 9, 11)
	}
	if r.P(0.3) {
		m.EC = []jx.ExtraCh{{Type: jx.ECAlpha, BD: m.BD}}
	}
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: 1, Pass: jx.PassSpec{Num: 1}}
	for range m.EC {
		f.EcUp = append(f.EcUp, 1)
	}
	ch := jx.CodedSizes(m, f)
	for _, x := range ch {
		jx.FillChan(r, x, 0, int64(1)<<uint(m.BD.Bits)-1)
	}
	b := jx.BuildModFrame(r, m, f, ch, jx.ModOpts{FixedPred: r.N(6)})
	cs := jx.Codestream(r, m, []*jx.BuiltFrame{b}, false)
	t.Desc("curve %d, primaries %d, grey %v, %dx%d, %d bits", m.CE.TF, m.CE.Prim, m.CE.Space == 1, m.W, m.H, m.BD.Bits)
	t.Count("curve", 1)
	img, err := decode(cs, nil)
	if err != nil { // refused as a whole
		t.Count("refused", 1)
		t.Key("curve/%d/%d/%d", m.CE.TF, m.CE.Prim, m.CE.Space)
		return
	}
	defer func() {
		if p := recover(); p != nil {
			t.Failf("panic", "output of an image in transfer curve %d panics: %v", m.CE.TF, p)
		}
	}()
	if _, err := img.ToImage(); err == nil {
		t.Failf("curve", "ToImage converts from transfer curve %d, which it does not know", m.CE.TF)
		return
	}
	if _, err := jxl_go.Decode(bytes.NewReader(cs)); err == nil {
		t.Failf("curve", "Decode converts from transfer curve %d, which it does not know", m.CE.TF)
		return
	}
	var out bytes.Buffer
	if err := (&core.PNGWriter{}).WritePNG(img, &out); err == nil {
		t.Failf("curve", "WritePNG converts from transfer curve %d, which it does not know", m.CE.TF)
		return
	}
	t.Count("refused", 3)
	t.Key("curve/%d/%d/%d", m.CE.TF, m.CE.Prim, m.CE.Space)
}
