package checks

import (
	"bytes"
	"sort"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
)

// faultKinds are the contradictions planted, by family of images they appear in.
var faultKinds = []string{
	"ans-state", "ans-single-beyond", "ans-dual-same", "ans-dual-beyond", "ans-flat-beyond", "ans-shift", "ans-alphabet", "ans-sum", "ans-omit",
	"prefix-incomplete", "prefix-oversubscribed", "prefix-lengths-incomplete", "prefix-lengths-oversubscribed", "hybrid-msb", "hybrid-lsb", "nested-lz",
	"tree-predictor", "tree-shift", "tree-multiplier", "transform-kind", "transform-channel", "rct-type", "squeeze-channel",
	"permutation-end", "permutation-entry", "signature", "enum-unknown", "enum-large", "float-inf", "float-nan",
	"tone-intensity", "tone-min-negative", "tone-min", "tone-below", "tone-relative",
	"smoothing-subsampled", "extra-upsampling-small", "extra-upsampling-large", "blend-mode", "blend-alpha", "box-size", "box-size-large", "level-size", "level-value", "part-short", "clusters-many", "block-clusters", "block-contexts",
	"icc-longer", "icc-shorter", "icc-commands", "icc-command", "icc-tag", "icc-width", "icc-order", "icc-stride-large", "icc-stride-small",
	"band-negative", "table-mode", "coefficients-left", "coefficients-many", "blocks-many", "blocks-few", "block-type-large", "block-type-negative", "sharpness", "preset", "lf-missing",
}

func init() {
	rt.Register(&rt.Check{ID: "P29", Quick: 1000, Thorough: 8000, Batch: 8,
		Rule: "valid images of every kind (lossless, lossy with one or several groups, filters, compositions, profiles, every header field, containers), each encoded again with one contradiction at a random place where its kind is possible: entropy coder final states and probability tables, code lengths, integer configurations, prediction trees, transforms, permutations, signature, enumerations, numbers, tone mapping, upsampling, blending, boxes, profile commands, weight tables, coefficient counts, block layout and contexts, sharpness and presets; the valid image must decode, the other must be refused with an error and without an image; non-trivial when at least one contradiction was planted and judged",
		Need: append([]string{"controls", "contradictions", "header_only"}, faultKinds...),
		Run:  p29})
}

// p29Case makes the image; headerOnly means that there is no frame behind the header.
func p29Case(t *rt.T, pinned bool) (cs []byte, headerOnly bool) {
	r := t.R
	switch t.Index % 8 {
	case 0, 1: // lossless
		base := r.U64()
		for k := uint64(0); ; k++ {
			r := jx.NewRng(base, k) // what one attempt draws does not matter to the next
			c := genModOnce(r, k == 0 && r.P(0.2))
			if len(c.b.Toks) < 30000 && c.inRange() {
				return jx.Codestream(r, c.m, []*jx.BuiltFrame{c.b}, r.P(0.3)), false
			}
		}
	case 2, 3: // lossy
		mode := r.Pick(0, 0, 0, 4)
		if t.Index%16 == 3 {
			mode = 1
		}
		c := genVarDCTWith(r, mode, func(c *vdctCase) {
			if mode == 1 && r.P(0.7) {
				c.m.W, c.m.H = r.R(513, 1100), r.R(8, 60)
			}
			if r.P(0.4) {
				c.f.RF.EpfIters = r.R(1, 3)
				c.f.RF.Pinned = pinned
			}
			if r.P(0.3) {
				c.m.Orient = r.R(1, 8)
			}
		})
		if c.lfFrames > 0 && jx.PlantFault("lf-missing") {
			return jx.Codestream(r, c.m, c.frames[c.lfFrames:], false), false
		}
		return c.cs, false
	case 4: // every header field
		m, frame := randMeta(t)
		if !frame {
			w := &jx.BitWriter{}
			m.Write(w, r)
			return w.Bytes(), true
		}
		return p29Frames(r, m), false
	case 5: // profiles
		icc := jx.GenICC(r)
		if r.P(0.2) {
			icc = append(icc, make([]byte, r.R(0, 300))...)
		}
		m := &jx.Meta{W: r.R(1, 12), H: r.R(1, 12), BD: jx.BitDepth{Bits: 8}, CE: jx.SRGBEnc(), XformDef: true, ICC: icc}
		m.CE.ICC = true
		return p29Frames(r, m), false
	case 6: // compositions
		m := &jx.Meta{W: r.R(1, 40), H: r.R(1, 40), BD: jx.BitDepth{Bits: 8}, CE: jx.SRGBEnc(), XformDef: true}
		for k := r.Pick(0, 1, 1, 2); k > 0; k-- {
			m.EC = append(m.EC, jx.ExtraCh{Type: r.Pick(jx.ECAlpha, jx.ECAlpha, jx.ECDepth), BD: m.BD, DimShift: r.Pick(0, 0, 0, 1, 2, 3)})
		}
		return p29Frames(r, m), false
	}
	// containers
	m := &jx.Meta{W: r.R(1, 20), H: r.R(1, 20), BD: jx.BitDepth{Bits: 8}, CE: jx.SRGBEnc(), XformDef: true}
	return randContainer(r, p29Frames(r, m), func(string, int) {}), false
}

// p29Frames codes a composition of one or more small lossless frames.
func p29Frames(r *jx.Rng, m *jx.Meta) []byte {
	n := r.Pick(1, 1, 2, 3)
	var frames []*jx.BuiltFrame
	up := 1
	if r.P(0.3) {
		up = r.Pick(2, 4, 8)
	}
	for _, e := range m.EC {
		up = max(up, 1<<uint(e.DimShift))
	}
	for i := 0; i < n; i++ {
		f := &jx.FrameHdr{Modular: true, IsLast: i == n-1, RF: jx.NoRF(), Up: up, GroupShift: r.N(4), Pass: jx.PassSpec{Num: 1}}
		for _, e := range m.EC {
			f.EcUp = append(f.EcUp, up>>uint(e.DimShift))
			f.EcBlend = append(f.EcBlend, jx.BlendInfo{})
		}
		if i > 0 {
			mode := func() int {
				if len(m.EC) == 0 {
					return r.Pick(jx.BlAdd, jx.BlMul)
				}
				return r.R(0, 4)
			}
			f.Blend = jx.BlendInfo{Mode: mode(), Alpha: r.N(min(11, max(1, len(m.EC))))}
			for k := range f.EcBlend {
				f.EcBlend[k] = jx.BlendInfo{Mode: mode(), Alpha: r.N(min(11, len(m.EC)))}
			}
		}
		ch := jx.CodedSizes(m, f)
		for k, x := range ch {
			b := m.BD
			if k >= m.NColor() {
				b = m.EC[k-m.NColor()].BD
			}
			jx.FillChan(r, x, 0, 1<<uint(min(b.Bits, 8))-1)
		}
		frames = append(frames, jx.BuildModFrame(r, m, f, ch, jx.ModOpts{FixedPred: r.Pick(-1, r.N(6))}))
	}
	return jx.Codestream(r, m, frames, r.P(0.4))
}

func p29(t *rt.T) {
	seed := t.R.U64()
	pick := jx.NewRng(seed, 29)
	pinned := true // as p18 does: headers of this filter are read in one of two ways
	gen := func(kind string, at int) ([]byte, bool, *jx.Fault) {
		t.R = jx.NewRng(seed)
		jx.Flt = &jx.Fault{Kind: kind, At: at, Seen: map[string]int{}}
		defer func() { jx.Flt = nil }()
		b, h := p29Case(t, pinned)
		return b, h, jx.Flt
	}
	plain, headerOnly, places := gen("", 0)
	judge := func(b []byte) (bool, error) {
		if headerOnly {
			h, err := core.NewJXLDecoder(bytes.NewReader(b), nil).GetImageHeader()
			if err == nil {
				_, err = h.GetDecodedICC()
			}
			return h != nil, err
		}
		img, err := decode(b, nil)
		return img != nil, err
	}
	ok, err := judge(plain)
	if err != nil {
		pinned = false
		plain, headerOnly, places = gen("", 0)
		ok, err = judge(plain)
	}
	if err != nil || !ok {
		t.Failf("control", "the valid image is rejected: %v", err)
		return
	}
	t.Count("controls", 1)
	if headerOnly {
		t.Count("header_only", 1)
	}
	var kinds []string
	for k := range places.Seen {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	n := 9
	for _, k := range []string{"preset", "smoothing-subsampled", "rct-type", "sharpness", "squeeze-channel", "squeeze-meta", "squeeze-across", "block-clusters", "block-contexts", "extra-upsampling-small", "extra-upsampling-large", "blend-alpha"} {
		if places.Seen[k] > 0 { // which few images have room for
			kinds = append(kinds, k)
			n++
		}
	}
	done := map[string]bool{}
	order := pick.Perm(len(kinds))
	sort.SliceStable(order, func(a, b int) bool { return order[a] >= len(places.Seen) && order[b] < len(places.Seen) })
	for _, i := range order[:min(len(kinds), n)] {
		kind := kinds[i]
		if done[kind] {
			continue
		}
		done[kind] = true
		at := pick.N(places.Seen[kind])
		bad, _, f := gen(kind, at)
		if !f.Hit || bytes.Equal(bad, plain) {
			t.Count("places_unused", 1) // in a part which the encoder gave up
			continue
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Failf("panic", "%s, place %d of %d: %v", kind, at, places.Seen[kind], p)
				}
			}()
			if img, err := judge(bad); err == nil || img && !headerOnly {
				t.Failf("accepted-"+kind, "an image with a contradiction (%s, place %d of %d) is accepted: image %v, error %v", kind, at, places.Seen[kind], img, err)
			}
		}()
		if t.Failed() {
			return
		}
		t.Count(kind, 1)
		t.Count("contradictions", 1)
		t.Key("%d/%s/%d", seed, kind, at)
	}
}
