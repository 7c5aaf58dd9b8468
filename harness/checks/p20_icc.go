package checks

import (
	"bytes"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
)

func init() {
	rt.Register(&rt.Check{ID: "P20", Quick: 6000, Thorough: 40000, Batch: 50,
		Rule: "synthetic and random profiles from 1 byte to several kilobytes, command-coded with random choices among all valid commands (tag lists with every tag code, inserted, shuffled, predicted with every width, order and stride, typed starts), entropy coded in random ways and embedded in colour and grey images; the profile the header reports, the one still reported after a second call, and the samples of the image behind it are compared with what was embedded; non-trivial when the profile is longer than the predicted header",
		Need: []string{"icc_insert", "icc_shuffle2", "icc_shuffle3", "icc_predict", "icc_xyz", "icc_type", "icc_tags", "icc_notags", "icc_tagoff", "icc_tagsize", "icc_tag1", "icc_tag2", "icc_tag3", "icc_tag4", "short_profiles", "images"},
		Run:  p20})
}

func p20(t *rt.T) {
	r := t.R
	var icc []byte
	switch {
	case r.P(0.75):
		icc = jx.GenICC(r)
	case r.Bool():
		icc = make([]byte, r.R(1, 400))
		for i := range icc {
			icc[i] = byte(r.Pick(r.N(256), r.N(256), 0, 255, 'a'))
		}
	default:
		icc = append(jx.GenICC(r), make([]byte, r.R(0, 3000))...)
		for k := r.R(0, 50); k > 0; k-- {
			icc[r.N(len(icc))] = byte(r.N(256))
		}
	}
	if len(icc) <= 128 {
		t.Count("short_profiles", 1)
	}
	t.Max("profile_bytes", len(icc))
	m := &jx.Meta{W: r.R(1, 12), H: r.R(1, 12), BD: jx.BitDepth{Bits: 8}, CE: jx.SRGBEnc(), XformDef: true, ICC: icc}
	if r.P(0.3) {
		m.CE = jx.GrayEnc()
	}
	m.CE.ICC = true
	if r.P(0.3) {
		m.Orient = r.R(1, 8)
	}
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: 1, GroupShift: 1}
	ch := jx.CodedSizes(m, f)
	for _, c := range ch {
		jx.FillChan(r, c, 0, 255)
	}
	b := jx.BuildModFrame(r, m, f, ch, jx.ModOpts{FixedPred: r.N(6)})
	// writing the header draws the encoding of the profile from the generator: replay it for its statistics
	seed := r.U64()
	var st jx.ICCStats
	jx.OnICC = func(s jx.ICCStats) { st = s }
	cs := jx.Codestream(jx.NewRng(seed), m, []*jx.BuiltFrame{b}, false)
	jx.OnICC = nil
	for k, v := range st {
		t.Count("icc_"+k, v)
	}
	hdr, err := core.NewJXLDecoder(bytes.NewReader(cs), nil).GetImageHeader()
	if err != nil {
		t.Failf("header-error", "header with a %d byte profile rejected: %v (%v)", len(icc), err, st)
		return
	}
	for i := 0; i < 2; i++ {
		got, err := hdr.GetDecodedICC()
		if err != nil {
			t.Failf("icc-error", "%d byte profile rejected: %v (%v)", len(icc), err, st)
			return
		}
		if !bytes.Equal(got, icc) {
			k := 0
			for k < len(got) && k < len(icc) && got[k] == icc[k] {
				k++
			}
			t.Failf("icc-bytes", "call %d: profile of %d bytes decoded to %d bytes, first difference at %d (%v)", i+1, len(icc), len(got), k, st)
			return
		}
	}
	img, err := decode(cs, nil)
	if err != nil {
		t.Failf("error", "image with a %d byte profile rejected: %v (%v)", len(icc), err, st)
		return
	}
	if !img.HasICCProfile() {
		t.Failf("lost", "decoded image of a file with a %d byte profile reports none", len(icc))
	}
	t.Count("images", 1)
	var want []*jx.Chan
	for _, c := range b.Chans {
		o := m.Orient
		if o == 0 {
			o = 1
		}
		want = append(want, orient(c, o))
	}
	compareExact(t, img, want, chanBits(m))
	if len(icc) > 128 {
		t.Key("%d/%v", len(icc), st)
	}
	t.Desc("%d byte profile, commands %v", len(icc), st)
}
