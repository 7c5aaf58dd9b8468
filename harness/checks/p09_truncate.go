package checks

import (
	"bytes"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"
)

func init() {
	rt.Register(&rt.Check{ID: "P09", Quick: 330, Thorough: 10000, Batch: 12,
		Rule: "random images of one or several frames and sections, bare and in containers, cut at every byte (sampled when long, always at the ends of frames and sections), read through sources that fail at every byte, and with single sections cut short while everything else stays in place; each decode must return an error and no image; each uncut original must decode; non-trivial when at least one cut lies inside the frame data",
		Need: []string{"several_frames", "borders", "truncations", "faults", "short_sections", "container_truncations", "bad_sections_multi", "vardct", "multi_lfgroup"},
		Run:  p09})
}

func p09(t *rt.T) {
	r := t.R
	var m *jx.Meta
	vdct := false
	var frames []*jx.BuiltFrame
	if t.Index%3 == 2 {
		mode := r.Pick(0, 0, 4)
		if t.Index%30 == 2 {
			mode = 1
		}
		v := genVarDCT(r, mode)
		if t.Index%90 == 17 {
			v = genVarDCT(r, 2)
		}
		for t.Index%90 != 17 && v.m.W*v.m.H > 5000 && (t.Index%30 != 2 || v.m.W*v.m.H > 20000) {
			v = genVarDCT(r, mode)
		}
		v.note(t)
		t.Count("vardct", 1)
		if v.b.Lay.NLF > 1 {
			t.Count("multi_lfgroup", 1)
		}
		vdct = true
		m, frames = v.m, v.frames
	} else {
		c := genMod(r, false)
		if r.P(0.3) {
			for c.b.Stats.Groups*c.b.Stats.Passes == 1 {
				c = genMod(r, true)
			}
		}
		noteMod(t, c)
		m = c.m
		// some images have frames before the last one
		for k := r.Pick(0, 0, 1, 2); k > 0 && len(c.b.Toks) < 60000; k-- {
			h, b := *c.b.H, *c.b
			h.IsLast, h.SaveRef, h.SaveBeforeCT = false, r.N(4), r.Bool()
			b.H = &h
			frames = append(frames, &b)
		}
		frames = append(frames, c.b)
		if len(frames) > 1 {
			t.Count("several_frames", 1)
		}
	}
	last := frames[r.N(len(frames))]
	seed := r.U64()
	perm := r.P(0.2)
	cs := jx.Codestream(jx.NewRng(seed), m, frames, perm)
	if _, err := decode(cs, nil); err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	empty := true
	for _, s := range frames[len(frames)-1].Sections {
		if len(s) > 0 {
			empty = false
		}
	}
	if empty {
		return
	}
	N := 60
	if t.Thorough() {
		N = 250
	}
	if vdct && !t.Thorough() {
		N = 12
	}
	cuts := func(n int) []int {
		var o []int
		if n <= N {
			for i := 0; i < n; i++ {
				o = append(o, i)
			}
			return o
		}
		for i := 0; i < N/3; i++ {
			o = append(o, i, n-1-i, r.N(n))
		}
		return o
	}
	// the ends of the frames and of the sections of the last one
	var ends []int
	for k := range frames {
		b := jx.Codestream(jx.NewRng(seed), m, frames[:k], perm)
		if bytes.HasPrefix(cs, b) {
			ends = append(ends, len(b))
		}
	}
	if !perm {
		k := len(cs)
		for s := frames[len(frames)-1].Sections; len(s) > 0; s = s[:len(s)-1] {
			if k -= len(s[len(s)-1]); k < len(cs) {
				ends = append(ends, k)
			}
		}
	}
	for len(ends) > 12 {
		ends[len(frames)+r.N(len(ends)-len(frames))] = ends[len(ends)-1]
		ends = ends[:len(ends)-1]
	}
	t.Count("borders", len(ends))
	// how much of the stream is needed: all of it up to the end of the last non-empty stored section
	for _, k := range append(cuts(len(cs)), ends...) {
		img, err := decode(cs[:k:k], nil)
		t.Count("truncations", 1)
		if err == nil || img != nil {
			t.Failf("truncated", "%d of %d bytes: image %v, error %v", k, len(cs), img != nil, err)
			return
		}
	}
	for _, k := range append(cuts(len(cs)), ends...) {
		fr := newFrag(r, cs, r.N(5))
		fr.failAt = int64(k)
		img, err := core.NewJXLDecoder(fr, nil).Decode()
		t.Count("faults", 1)
		if err == nil || img != nil {
			t.Failf("fault", "source failing after %d of %d bytes: image %v, error %v", k, len(cs), img != nil, err)
			return
		}
	}
	// containers cut inside the codestream
	{
		ct := jx.Container([]jx.Box{{Type: "jxlc", Data: cs, ToEOF: r.Bool(), Large: r.Bool()}})
		if r.Bool() {
			ct = jx.Container(jx.JxlpBoxes(cs, []int{r.N(len(cs)), len(cs)}[:1]))
		}
		if _, err := decode(ct, nil); err != nil {
			t.Failf("container", "valid container rejected: %v", err)
			return
		}
		for i := 0; i < 12; i++ {
			k := r.N(len(ct))
			img, err := decode(ct[:k], nil)
			t.Count("container_truncations", 1)
			if err == nil || img != nil {
				t.Failf("container-truncated", "%d of %d container bytes: image %v, error %v", k, len(ct), img != nil, err)
				return
			}
		}
		// the box ends early and other boxes follow
		k := r.N(len(cs))
		if r.Bool() {
			k = ends[r.N(len(ends))]
		}
		ct = jx.Container([]jx.Box{{Type: "jxlc", Data: cs[:k]}, {Type: "abcd", Data: bytes.Repeat(cs, 2)}})
		img, err := decode(ct, nil)
		if err == nil || img != nil {
			t.Failf("short-box", "codestream box with %d of %d bytes, another box following: image %v, error %v", k, len(cs), img != nil, err)
			return
		}
	}
	// one section ends early while all others are complete
	secs := last.Sections
	for i := 0; i < 20; i++ {
		k := r.N(len(secs))
		if len(secs[k]) == 0 {
			continue
		}
		cut := r.R(1, min(3, len(secs[k])))
		if r.P(0.2) {
			cut = r.R(1, len(secs[k]))
		}
		last.Sections = append([][]byte{}, secs...)
		last.Sections[k] = secs[k][:len(secs[k])-cut]
		for j := 1; i%4 == 3 && j < len(secs); j++ { // others too
			if n := len(secs[j]); n > 0 && r.P(0.7) {
				last.Sections[j] = secs[j][:n-r.R(1, min(3, n))]
			}
		}
		b := jx.Codestream(r, m, frames, r.P(0.3))
		b = append(b, make([]byte, 16)...)
		last.Sections = secs
		t.Count("short_sections", 1)
		if len(secs) > 1 {
			t.Count("bad_sections_multi", 1)
		}
		img, err := decode(b, &options.JXLOptions{MaxGoroutines: r.Pick(0, 2, 3)})
		if err == nil || img != nil {
			t.Failf("short-section", "section %d of %d has %d of its %d bytes: image %v, error %v", k, len(secs), len(secs[k])-cut, len(secs[k]), img != nil, err)
			return
		}
	}
}
