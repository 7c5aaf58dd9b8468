package checks

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"
	"github.com/kpfaulkner/jxl-go/util"
)

func init() {
	rt.Register(&rt.Check{ID: "P23", Quick: 900, Thorough: 6000, Batch: 10,
		Rule: "random sequences of takes and returns of pooled matrices of every supported type by several goroutines at once, each held matrix filled with its holder's mark and checked for shape, zeroed content and foreign marks; and decodes of generated and sample images, whole and damaged, after which recycled memory of every likely shape is overwritten and the returned image re-read, and the goroutines counted; non-trivial when a taken matrix had been returned before or an image survived the overwriting",
		Need: []string{"lossy", "drained", "takes", "returns", "reused", "images_rechecked", "goroutine_checks", "failed_decodes", "irregular_returns"},
		Run:  p23})
}

type num interface{ ~int32 | ~float32 | ~uint8 }

type held[T num] struct {
	m3   [][][]T
	mark T
}

// poolWork takes and returns matrices and reports the first broken promise.
func poolWork[T num](r *jx.Rng, seen *sync.Map, shapes [][3]int, steps int, markBase int, cnt func(string, int)) string {
	var hs []held[T]
	mark := markBase
	check := func(h held[T]) string {
		for c := range h.m3 {
			for y := range h.m3[c] {
				for x := range h.m3[c][y] {
					if h.m3[c][y][x] != h.mark {
						return fmt.Sprintf("held matrix marked %v holds %v at %d,%d,%d", h.mark, h.m3[c][y][x], c, y, x)
					}
				}
			}
		}
		return ""
	}
	for s := 0; s < steps; s++ {
		switch {
		case r.P(0.55) || len(hs) == 0:
			sh := shapes[r.N(len(shapes))]
			var h held[T]
			d, hh, w := sh[0], sh[1], sh[2]
			if d == 0 {
				m := util.MakeMatrix2DPooled[T](hh, w)
				h.m3 = [][][]T{m}
				d = 1
			} else {
				h.m3 = util.MakeMatrix3DPooled[T](d, hh, w)
			}
			cnt("takes", 1)
			if len(h.m3) != d {
				return fmt.Sprintf("asked for %d planes, got %d", d, len(h.m3))
			}
			for c := range h.m3 {
				if len(h.m3[c]) != hh {
					return fmt.Sprintf("asked for %dx%d, got %d rows", hh, w, len(h.m3[c]))
				}
				for y := range h.m3[c] {
					if len(h.m3[c][y]) != w {
						return fmt.Sprintf("asked for %dx%d, row %d has %d", hh, w, y, len(h.m3[c][y]))
					}
					for x := range h.m3[c][y] {
						if h.m3[c][y][x] != 0 {
							return fmt.Sprintf("matrix %dx%dx%d taken with %v at %d,%d,%d", d, hh, w, h.m3[c][y][x], c, y, x)
						}
					}
				}
			}
			if hh > 0 && w > 0 {
				p := &h.m3[0][0][0]
				if _, ok := seen.LoadOrStore(p, true); ok {
					cnt("reused", 1)
				}
			}
			mark++
			h.mark = T(mark % 100)
			if h.mark == 0 {
				h.mark = 1
			}
			for c := range h.m3 {
				for y := range h.m3[c] {
					for x := range h.m3[c][y] {
						h.m3[c][y][x] = h.mark
					}
				}
			}
			hs = append(hs, h)
		default:
			k := r.N(len(hs))
			h := hs[k]
			if m := check(h); m != "" {
				return m
			}
			hs = append(hs[:k], hs[k+1:]...)
			if r.P(0.15) {
				runtime.Gosched()
			}
			if r.P(0.08) && len(h.m3) > 0 && len(h.m3[0]) > 1 {
				// a caller's ragged or foreign matrix must not come back out
				cnt("irregular_returns", 1)
				m := h.m3[0]
				m[len(m)-1] = m[len(m)-1][:len(m[len(m)-1])/2]
			}
			if len(h.m3) == 1 && r.Bool() {
				util.ReturnMatrix2DToPool(h.m3[0])
			} else {
				util.ReturnMatrix3DToPool(h.m3)
			}
			cnt("returns", 1)
		}
	}
	for _, h := range hs {
		if m := check(h); m != "" {
			return m
		}
	}
	return ""
}

func p23(t *rt.T) {
	if t.Index%2 == 0 {
		p23model(t)
		return
	}
	p23images(t)
}

func p23model(t *rt.T) {
	r := t.R
	var shapes [][3]int
	for i := r.R(2, 6); i > 0; i-- {
		shapes = append(shapes, [3]int{r.Pick(0, 0, 0, 1, 2, 3), r.Pick(0, 1, 2, 3, 8, 16, 33), r.Pick(0, 1, 2, 5, 8, 16, 40)})
	}
	var mu sync.Mutex
	cnt := map[string]int{}
	add := func(k string, n int) { mu.Lock(); cnt[k] += n; mu.Unlock() }
	var wg sync.WaitGroup
	var bad []string
	var seen, seenI, seenB sync.Map
	n := r.R(1, 6)
	for g := 0; g < n; g++ {
		rg := jx.NewRng(r.U64())
		kind := r.N(5)
		wg.Add(1)
		go func() {
			defer wg.Done()
			var m string
			switch kind {
			case 0, 1:
				m = poolWork[float32](rg, &seen, shapes, 120, g*17, add)
			case 2, 3:
				m = poolWork[int32](rg, &seenI, shapes, 120, g*17, add)
			case 4:
				m = poolWork[uint8](rg, &seenB, shapes, 40, g*17, add)
			}
			if m != "" {
				mu.Lock()
				bad = append(bad, m)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for k, v := range cnt {
		t.Count(k, v)
	}
	if len(bad) > 0 {
		t.Failf("pool", "%s (shapes %v, %d goroutines)", bad[0], shapes, n)
	}
	if cnt["reused"] > 0 {
		t.Key("model/%v/%d", shapes, n)
	}
	t.Desc("pool model: shapes %v, %d goroutines, %d takes of which %d recycled", shapes, n, cnt["takes"], cnt["reused"])
}

// scribble overwrites what the pools hold for a shape.
func scribble(h, w int) {
	if h <= 0 || w <= 0 {
		return
	}
	var f [][][]float32
	var n [][][]int32
	for i := 0; i < 12; i++ {
		f = append(f, util.MakeMatrix2DPooled[float32](h, w))
		n = append(n, util.MakeMatrix2DPooled[int32](h, w))
	}
	f3, n3 := util.MakeMatrix3DPooled[float32](3, h, w), util.MakeMatrix3DPooled[int32](3, h, w)
	for _, g := range [][][][]float32{f, f3} {
		for _, p := range g {
			for _, row := range p {
				for x := range row {
					row[x] = -12345
				}
			}
		}
	}
	for _, g := range [][][][]int32{n, n3} {
		for _, p := range g {
			for _, row := range p {
				for x := range row {
					row[x] = -12345
				}
			}
		}
	}
	// not returned: they would only be cleared again
}

// drain takes matrices of a shape out of the pools, which must be separate, of that shape and clear, and gives them back.
func drain(t *rt.T, h, w int) bool {
	if h <= 0 || w <= 0 || h*w > 1<<20 {
		return true
	}
	n, d := 20, 5
	if h*w > 1<<14 {
		n, d = 4, 2
	}
	s := ""
	seenF, seenI := map[*float32]bool{}, map[*int32]bool{}
	var f [][][]float32
	var i [][][]int32
	for k := 0; k < n; k++ {
		f = append(f, util.MakeMatrix2DPooled[float32](h, w))
		i = append(i, util.MakeMatrix2DPooled[int32](h, w))
	}
	var f3 [][][][]float32
	var i3 [][][][]int32
	for k := 0; k < d; k++ {
		for _, p := range []int{3, 5} {
			f3 = append(f3, util.MakeMatrix3DPooled[float32](p, h, w))
			i3 = append(i3, util.MakeMatrix3DPooled[int32](p, h, w))
		}
	}
	for _, g := range append(f3, f) {
		for _, p := range g {
			s += drained(seenF, p, h, w)
		}
	}
	for _, g := range append(i3, i) {
		for _, p := range g {
			s += drained(seenI, p, h, w)
		}
	}
	if s != "" {
		t.Failf("pool-state", "%dx%d matrices out of the pools after decoding: %.200s", h, w, s)
		return false
	}
	for k := range f {
		util.ReturnMatrix2DToPool(f[k])
		util.ReturnMatrix2DToPool(i[k])
	}
	for k := range f3 {
		util.ReturnMatrix3DToPool(f3[k])
		util.ReturnMatrix3DToPool(i3[k])
	}
	t.Count("drained", len(f)+len(i)+len(f3)+len(i3))
	return true
}

func drained[T int32 | float32](seen map[*T]bool, p [][]T, h, w int) string {
	if len(p) != h {
		return "wrong height; "
	}
	for _, row := range p {
		if len(row) != w {
			return "wrong width; "
		}
		if seen[&row[0]] {
			return "a row is in two matrices at once; "
		}
		seen[&row[0]] = true
		for _, v := range row {
			if v != 0 {
				return "not cleared; "
			}
		}
	}
	return ""
}

func p23images(t *rt.T) {
	r := t.R
	var b []byte
	name := "generated"
	w, h, gd := 256, 256, 256
	if r.P(0.3) {
		names := []string{"tiny2.jxl", "lenna.jxl", "grayscale.jxl", "bbb-small.jxl", "upsampling.jxl", "alpha-triangles.jxl"}
		name = names[r.N(len(names))]
		b = corpus(name)[0]
	} else if r.P(0.5) {
		c := genVarDCT(r, r.Pick(0, 0, 1, 4, 4))
		for c.m.W*c.m.H > 200000 {
			c = genVarDCT(r, 4)
		}
		b, w, h = c.cs, c.m.W, c.m.H
		t.Count("lossy", 1)
	} else {
		c := genMod(r, r.Bool())
		b = jx.Codestream(r, c.m, []*jx.BuiltFrame{c.b}, false)
		w, h, gd = c.m.W, c.m.H, c.f.GroupDim()
	}
	base := runtime.NumGoroutine()
	var o *options.JXLOptions
	if mg := r.N(5); mg > 0 {
		o = &options.JXLOptions{MaxGoroutines: mg}
	}
	img, err := decode(b, o)
	if err != nil {
		t.Failf("error", "%s rejected: %v", name, err)
		return
	}
	want := imgHash(img)
	w2, h2 := int(img.Width), int(img.Height)
	state := func() bool {
		for _, s := range [][2]int{{8, 8}, {4, 8}, {4, 4}, {8, 16}, {16, 8}, {16, 16}, {32, 8}, {32, 16}, {16, 32}, {32, 32}, {64, 32}, {64, 64}, {128, 64}, {128, 128}, {256, 256}, {h, w}, {h2, w2}, {(h2 + 7) / 8, (w2 + 7) / 8}, {(h2 + 7) / 8 * 8, (w2 + 7) / 8 * 8}, {min(gd, h), min(gd, w)}} {
			if !drain(t, s[0], s[1]) {
				return false
			}
		}
		return true
	}
	if r.Bool() && !state() {
		return
	}
	p8 := func(v int) int { return (v + 7) / 8 * 8 }
	for _, s := range [][2]int{{h, w}, {h2, w2}, {w2, h2}, {p8(h2), p8(w2)}, {p8(h), p8(w)}, {min(gd, h), min(gd, w)}, {h2 - (h2-1)/gd*gd, w2 - (w2-1)/gd*gd}, {min(gd, h), w2 - (w2-1)/gd*gd}, {h2 - (h2-1)/gd*gd, min(gd, w)}, {256, 256}, {(h2 + 7) / 8, (w2 + 7) / 8}} {
		scribble(s[0], s[1])
	}
	if r.Bool() {
		if _, err := decode(b, o); err != nil {
			t.Failf("error", "%s rejected the second time: %v", name, err)
			return
		}
	}
	t.Count("images_rechecked", 1)
	if got := imgHash(img); got != want {
		t.Failf("alias", "%s (%dx%d): the returned image changed when recycled memory was written to", name, w2, h2)
		return
	}
	// broken variants, then count goroutines
	for i := 0; i < 4; i++ {
		d := append([]byte{}, b...)
		if r.Bool() {
			d = d[:r.R(0, len(d)-1)]
		} else {
			for k := r.R(1, 5); k > 0; k-- {
				d[r.R(len(d)/3, len(d)-1)] ^= byte(1 << uint(r.N(8)))
			}
		}
		fr := newFrag(r, d, r.N(5))
		if r.P(0.3) {
			fr.failAt = int64(r.N(len(d) + 1))
		}
		if _, err := core.NewJXLDecoder(fr, o).Decode(); err != nil {
			t.Count("failed_decodes", 1)
		}
	}
	if !state() {
		return
	}
	t.Count("goroutine_checks", 1)
	for i := 0; ; i++ {
		n := runtime.NumGoroutine()
		if n <= base {
			break
		}
		if i > 300 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			t.Failf("goroutine-leak", "%d goroutines before decoding %s and %d long after\n%s", base, name, n, buf)
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Key("img/%s/%dx%d/%s", name, w2, h2, want)
	t.Desc("%s %dx%d: image re-read after overwriting recycled memory, goroutines back to %d", name, w2, h2, base)
}
