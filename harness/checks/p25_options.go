package checks

import (
	"bytes"
	"runtime"
	"strings"
	"time"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"
)

func init() {
	rt.Register(&rt.Check{ID: "P25", Quick: 120, Thorough: 3000, Batch: 8, Workers: 4,
		Rule: "decodes of lossless, lossy, filtered and enlarged images of many sections under goroutine limits from 1 to 6 and unset ones, while a sampler takes snapshots of all goroutines and counts the decoder's working ones; the option structures are compared before and after, changed after the decoder was made, and shared between decoders; the outcome is compared with the one of a decode without options",
		Need: []string{"limited_decodes", "snapshots", "working_snapshots", "limit_1", "limit_2", "limit_reached", "options_objects", "lossy", "lossless"},
		Run:  p25})
}

// workers counts the goroutines started by the decoder which are at work, rather than starting, ending or waiting; and
// for each place that starts goroutines those which are inside a call made there.
func workers(dump []byte) (n int, stages map[string]int) {
	stages = map[string]int{}
	for _, g := range bytes.Split(dump, []byte("\n\n")) {
		s := string(g)
		i := strings.IndexByte(s, '\n')
		if i < 0 || !strings.Contains(s[:i], "[running") && !strings.Contains(s[:i], "[runnable") {
			continue
		}
		c := strings.LastIndex(s, "created by ")
		if c < 0 || !strings.HasPrefix(s[c+len("created by "):], "github.com/kpfaulkner/jxl-go") {
			continue
		}
		var names []string
		for _, l := range strings.Split(s[i+1:c], "\n") {
			if l != "" && l[0] != '\t' && !strings.HasPrefix(l, "runtime.") && !strings.HasPrefix(l, "sync.") {
				if k := strings.LastIndexByte(l, '('); k > 0 {
					l = l[:k]
				}
				names = append(names, l)
			}
		}
		if len(names) == 0 {
			continue
		}
		n++
		bottom := names[len(names)-1]
		for _, f := range names {
			if !strings.HasPrefix(f, bottom) {
				stages[bottom]++
				break
			}
		}
	}
	return
}

// manySections makes an image whose decoding keeps several goroutines busy.
func manySections(t *rt.T, r *jx.Rng) []byte {
	if r.P(0.5) {
		t.Count("lossy", 1)
		c := genVarDCTWith(r, 1, func(c *vdctCase) {
			c.m.W, c.m.H = r.R(700, 1100), r.R(500, 800)
			c.m.EC, c.f.EcUp = nil, nil
			c.f.Pass = jx.PassSpec{Num: 1}
			c.f.RF = jx.DefaultRF()
		})
		return c.cs
	}
	t.Count("lossless", 1)
	m := &jx.Meta{W: r.R(600, 900), H: r.R(500, 700), BD: jx.BitDepth{Bits: 8}, CE: jx.SRGBEnc(), XformDef: true}
	f := &jx.FrameHdr{Modular: true, IsLast: true, RF: jx.NoRF(), Up: r.Pick(1, 1, 2), GroupShift: 0}
	f.Pass = jx.PassSpec{Num: 1}
	o := jx.ModOpts{FixedPred: r.N(6)}
	ch := jx.CodedSizes(m, f)
	for _, x := range ch {
		jx.FillChan(r, x, 0, 255)
	}
	b := jx.BuildModFrame(r, m, f, ch, o)
	return jx.Codestream(r, m, []*jx.BuiltFrame{b}, false)
}

func p25(t *rt.T) {
	r := t.R
	// the options object itself
	for k := 0; k < 8; k++ {
		in := options.JXLOptions{MaxGoroutines: r.Pick(-5, -1, 0, 1, 2, 3, 7, 64, 4000), ParseOnly: r.Bool()}
		was := in
		o := options.NewJXLOptions(&in)
		want := in.MaxGoroutines
		if want < 1 {
			want = runtime.GOMAXPROCS(-1)
		}
		if o == nil || o == &in || in != was || o.MaxGoroutines != want || o.ParseOnly != in.ParseOnly {
			t.Failf("object", "NewJXLOptions(%+v) gives %+v, argument now %+v", was, o, in)
			return
		}
		t.Count("options_objects", 1)
	}
	if o := options.NewJXLOptions(nil); o == nil || o.MaxGoroutines < 1 || o.ParseOnly || o.RenderVarblocks {
		t.Failf("default", "NewJXLOptions(nil) gives %+v", o)
		return
	}
	data := manySections(t, r)
	limit := r.Pick(1, 1, 2, 2, 3, 4, 6)
	opt := options.JXLOptions{MaxGoroutines: limit}
	was := opt
	d := core.NewJXLDecoder(bytes.NewReader(data), &opt)
	if r.P(0.3) { // what the caller does to the options afterwards has no effect
		opt.MaxGoroutines, opt.ParseOnly = 50, true
		was = opt
	}
	type res struct {
		img *core.JXLImage
		err error
	}
	done := make(chan res)
	go func() {
		img, err := d.Decode()
		done <- res{img, err}
	}()
	var got res
	buf := make([]byte, 1<<20)
	snaps, working, over, worst := 0, 0, 0, 0
	stWork, stOver := map[string]int{}, map[string]int{}
	tick := time.NewTicker(time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case got = <-done:
			break loop
		case <-tick.C:
			n, st := workers(buf[:runtime.Stack(buf, true)])
			snaps++
			for k, x := range st {
				stWork[k]++
				if x > limit {
					stOver[k]++
				}
			}
			if n > 0 {
				working++
			}
			if n > limit {
				over++
			}
			if n == limit {
				t.Count("limit_reached", 1)
			}
			worst = max(worst, n)
		}
	}
	t.Count("limited_decodes", 1)
	t.Count("snapshots", snaps)
	t.Count("working_snapshots", working)
	t.Max("most_working_goroutines", worst)
	if over >= 6 {
		t.Max("over_limit_percent", over*100/working)
	}
	switch limit {
	case 1, 2:
		t.Count([]string{"limit_1", "limit_2"}[limit-1], 1)
	}
	t.Desc("%d bytes, limit %d: %d snapshots, %d with working goroutines, %d over the limit, at most %d", len(data), limit, snaps, working, over, worst)
	t.Key("%d/%d/%d", len(data), limit, worst)
	if opt != was {
		t.Failf("changed", "decoding changed the caller's options from %+v to %+v", was, opt)
		return
	}
	// goroutines that begin or end are seen at times; more at work throughout is another thing
	if over >= 6 && over*4 > working {
		t.Failf("limit", "with at most %d goroutines asked for, %d of %d snapshots with any show more at work, up to %d", limit, over, working, worst)
		return
	}
	for k, x := range stOver {
		t.Max("over_limit_snapshots_of_one_stage", x)
		if x >= 4 && x*2 > stWork[k] {
			t.Failf("limit-stage", "with at most %d goroutines asked for, %d of %d snapshots of %s show more at work", limit, x, stWork[k], k)
			return
		}
	}
	ref, err := decode(data, nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	if o := outcome(got.img, got.err); o != imgHash(ref) {
		t.Failf("result", "decoding with at most %d goroutines gives %s (%v), without options %s", limit, o, got.err, imgHash(ref))
	}
}
