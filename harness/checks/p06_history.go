package checks

import (
	"fmt"
	"io"
	"runtime"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/options"
	"github.com/kpfaulkner/jxl-go/util"
)

func init() {
	rt.Register(&rt.Check{ID: "P06", Quick: 150, Thorough: 2500, Batch: 6,
		Rule: "histories of decodes in one process over sample files, generated images of several groups (also several of the same layout with different content) and damaged variants, under different goroutine limits, scheduler widths and with recycled buffers dirtied in between; the outcome of every decode is compared with the outcome of the same bytes decoded first thing in a fresh process; non-trivial when some image follows a different one",
		Need: []string{"decodes", "repeats", "broken_decodes", "multi_group", "vardct", "vardct_generated", "fresh_processes", "taken_alike", "taken_P15", "taken_P18", "taken_P26"},
		Run:  p06})
	rt.Aux["outcome"] = func(in io.Reader, out io.Writer) {
		b, _ := io.ReadAll(in)
		fmt.Fprint(out, outcome(decode(b, nil)))
	}
}

// dirtyPools takes matrices of a shape from every pool, fills them with rubbish and gives them back.
func dirtyPools(r *jx.Rng, h, w int) {
	var a [][][]float32
	var b [][][]int32
	for i := r.R(1, 4); i > 0; i-- {
		f2 := util.MakeMatrix2DPooled[float32](h, w)
		i2 := util.MakeMatrix2DPooled[int32](h, w)
		for y := range f2 {
			for x := range f2[y] {
				f2[y][x], i2[y][x] = 1e9, 1<<28
			}
		}
		a, b = append(a, f2), append(b, i2)
	}
	f3 := util.MakeMatrix3DPooled[float32](3, h, w)
	i3 := util.MakeMatrix3DPooled[int32](3, h, w)
	for c := range f3 {
		for y := range f3[c] {
			for x := range f3[c][y] {
				f3[c][y][x], i3[c][y][x] = -1e9, -1<<28
			}
		}
	}
	util.ReturnMatrix3DToPool(f3)
	util.ReturnMatrix3DToPool(i3)
	for i := range a {
		util.ReturnMatrix2DToPool(a[i])
		util.ReturnMatrix2DToPool(b[i])
	}
}

type histImg struct {
	name string
	b    []byte
	w, h int
	gd   int
	ok   bool
}

// histImages picks sample files, generated images and damaged variants.
func histImages(t *rt.T, r *jx.Rng) (imgs []histImg) {
	names := []string{"lenna.jxl", "tiny2.jxl", "tiny2.jxl", "grayscale.jxl", "alpha-triangles.jxl", "quilt.jxl", "art.jxl", "upsampling.jxl", "white.jxl", "wb-rainbow.jxl", "bbb-small.jxl"}
	for i := 0; i < 2; i++ {
		n := names[r.N(len(names))]
		imgs = append(imgs, histImg{n, corpus(n)[0], r.Pick(256, 64, 8), r.Pick(256, 64, 8), 256, n != "wb-rainbow.jxl"})
		if n == "lenna.jxl" || n == "tiny2.jxl" || n == "bbb.jxl" {
			t.Count("vardct", 1)
		}
	}
	c := genMod(r, true)
	for c.b.Stats.Groups == 1 || c.m.W*c.m.H > 60000 {
		c = genMod(r, true)
	}
	t.Count("multi_group", 1)
	add := func(c *modCase) {
		imgs = append(imgs, histImg{"generated", jx.Codestream(r, c.m, []*jx.BuiltFrame{c.b}, r.Bool()), c.m.W, c.m.H, c.f.GroupDim(), true})
	}
	add(c)
	// the same layout with other content
	d := *c
	d.ch = jx.CodedSizes(d.m, d.f)
	for _, x := range d.ch {
		jx.FillChan(r, x, 0, 1<<uint(d.m.BD.Bits)-1)
	}
	d.b = jx.BuildModFrame(r, d.m, d.f, d.ch, d.o)
	add(&d)
	add(genMod(r, false))
	// the same for lossy frames
	mode := r.Pick(0, 1, 1, 4)
	v := genVarDCT(r, mode)
	for v.m.W*v.m.H > 60000 {
		v = genVarDCT(r, mode)
	}
	t.Count("vardct_generated", 1)
	addV := func(b *jx.VFrame) {
		fr := append(append([]*jx.BuiltFrame{}, v.frames[:len(v.frames)-1]...), &b.BuiltFrame)
		imgs = append(imgs, histImg{"generated lossy", jx.Codestream(r, v.m, fr, r.Bool()), v.m.W, v.m.H, v.f.GroupDim(), true})
	}
	addV(v.b)
	addV(jx.BuildVarDCT(r, v.m, v.f, randExtra(r, v.m, v.f, false), v.o))
	// streams of the other checks
	same := t.Index%2 == 1 // several of the same check, which differ in few things
	one := []string{"P01", "P05", "P11", "P15", "P16", "P16", "P17", "P18", "P19", "P20", "P26"}[t.Index/2%11]
	for k := 0; k < 2 || same && k < 6; k++ {
		id := raceTaps[r.N(len(raceTaps))]
		if same {
			id = one
		}
		if b := tapStream(id, r.N(1000), r.U64(), 0); b != nil && len(b) < 100000 {
			imgs = append(imgs, histImg{"stream of " + id, b, r.Pick(256, 64, 8), r.Pick(256, 64, 8), 256, id != "P22" && id != "P18" && id != "P11"})
			t.Count("taken_"+id, 1)
			if same {
				t.Count("taken_alike", 1)
			}
		}
	}
	// damaged variants
	for i := 0; i < 2; i++ {
		s := imgs[r.N(len(imgs))]
		b := append([]byte{}, s.b...)
		if r.Bool() {
			b = b[:r.R(len(b)/4, len(b)-1)]
		} else {
			for k := r.R(1, 6); k > 0; k-- {
				b[r.R(len(b)/2, len(b)-1)] ^= byte(1 << uint(r.N(8)))
			}
		}
		imgs = append(imgs, histImg{"damaged " + s.name, b, s.w, s.h, s.gd, false})
	}
	return
}

func p06(t *rt.T) {
	r := t.R
	imgs := histImages(t, r)
	// outcome of each in a fresh process
	want := make([]string, len(imgs))
	for i, im := range imgs {
		o, err := rt.SelfRun("outcome", im.b)
		if err != nil {
			t.Failf("fresh", "%s: decoding in a fresh process failed: %v", im.name, err)
			return
		}
		want[i] = o
		t.Count("fresh_processes", 1)
		if im.ok && o == "error" {
			t.Failf("fresh-error", "%s rejected in a fresh process", im.name)
			return
		}
	}
	steps := 24
	if t.Thorough() {
		steps = 40
	}
	last := -1
	hist := ""
	procs := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(procs)
	for s := 0; s < steps; s++ {
		k := r.N(len(imgs))
		im := imgs[k]
		var o *options.JXLOptions
		mg := r.Pick(-1, 0, 1, 2, 3, 8, 33)
		if mg >= 0 {
			o = &options.JXLOptions{MaxGoroutines: mg}
		}
		if r.P(0.2) {
			runtime.GOMAXPROCS(r.Pick(1, 2, 4, procs))
		}
		if r.P(0.4) {
			q := imgs[r.N(len(imgs))]
			switch r.N(3) {
			case 0:
				dirtyPools(r, q.h, q.w)
			case 1:
				dirtyPools(r, min(q.gd, q.h), min(q.gd, q.w))
			case 2:
				dirtyPools(r, (q.h+7)/8*8, (q.w+7)/8*8)
			}
			t.Count("dirtied", 1)
		}
		if r.P(0.1) {
			runtime.GC()
		}
		hist += fmt.Sprintf(" %d/%d", k, mg)
		img, err := decode(im.b, o)
		t.Count("decodes", 1)
		if !im.ok {
			t.Count("broken_decodes", 1)
		}
		if last == k {
			t.Count("repeats", 1)
		}
		last = k
		got := outcome(img, err)
		if got != want[k] {
			t.Failf("history", "step %d: %s (%d bytes) with goroutine limit %d decodes to %s after other decodes but to %s in a fresh process (history%s; error now: %v)", s, im.name, len(im.b), mg, got, want[k], hist, err)
			return
		}
	}
	t.Key("%v", want)
	t.Desc("%d images, history%s", len(imgs), hist)
}
