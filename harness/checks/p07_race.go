package checks

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"
)

func init() {
	rt.Register(&rt.Check{ID: "P07", Quick: 24, Thorough: 1500, Batch: 1, Race: true, CaseLimit: 120 * time.Second,
		Rule: "between 2 and 8 decoders running at once over sample files and generated multi-group images, some of them damaged, with varying goroutine limits, scheduler widths and randomly delayed reads, in a race-detector build; every outcome is compared with the one of the same bytes decoded alone; non-trivial when at least two decoders overlapped",
		Need: []string{"decodes", "overlaps", "multi_group", "vardct", "vardct_generated", "header_queries", "lf_frame_lf_groups", "cold", "shared_conversions", "taken_P15", "taken_P18", "taken_P26"},
		Run:  p07})
}

// slowReader yields or sleeps at random so that decoders interleave differently each time.
type slowReader struct {
	*bytes.Reader
	r *rand.Rand
}

func (s slowReader) Read(p []byte) (int, error) {
	switch s.r.Intn(12) {
	case 0:
		time.Sleep(time.Duration(s.r.Intn(200)) * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
	if len(p) > 1 && s.r.Intn(3) == 0 {
		p = p[:1+s.r.Intn(len(p))]
	}
	return s.Reader.Read(p)
}

// raceTaps are the checks whose streams the history and race checks take.
var raceTaps = []string{"P15", "P15", "P16", "P18", "P18", "P19", "P21", "P22", "P26", "P26"}

func p07(t *rt.T) {
	r := t.R
	type item struct {
		name string
		b    []byte
		want string
	}
	var items []item
	names := []string{"tiny2.jxl", "grayscale.jxl", "bbb-small.jxl", "art.jxl", "white.jxl"}
	if t.Index%8 == 0 {
		names = []string{"lenna.jxl", "tiny2.jxl"}
	}
	for i := 0; i < 2; i++ {
		n := names[r.N(len(names))]
		items = append(items, item{name: n, b: corpus(n)[0]})
		if n == "tiny2.jxl" || n == "lenna.jxl" {
			t.Count("vardct", 1)
		}
	}
	c := genMod(r, true)
	for c.b.Stats.Groups == 1 || c.m.W*c.m.H > 20000 {
		c = genMod(r, true)
	}
	t.Count("multi_group", 1)
	items = append(items, item{name: "generated", b: jx.Codestream(r, c.m, []*jx.BuiltFrame{c.b}, r.Bool())})
	c = genMod(r, false)
	items = append(items, item{name: "generated small", b: jx.Codestream(r, c.m, []*jx.BuiltFrame{c.b}, false)})
	mode := r.Pick(0, 1, 1, 4, 6)
	if t.Index%4 == 1 {
		mode = 6
	}
	v := genVarDCT(r, mode)
	for v.m.W*v.m.H > 30000 {
		v = genVarDCT(r, mode)
	}
	t.Count("vardct_generated", 1)
	if v.lfFrames > 0 && v.b.Lay.NLF > 1 {
		t.Count("lf_frame_lf_groups", 1)
	}
	items = append(items, item{name: "generated lossy", b: v.cs})
	// in every other case nothing has been decoded in this process when the decoders start, so that whatever they
	// set up on first use is set up by several of them at once
	cold := t.Index%2 == 0
	if cold {
		t.Count("cold", 1)
	}
	// streams of the other checks: compositions, filters, enlarged frames, extra channels, colour conversions
	for k := 0; k < 3; k++ {
		id := raceTaps[r.N(len(raceTaps))]
		if b := tapStream(id, r.N(1000), r.U64(), 0); b != nil && len(b) < 60000 {
			items = append(items, item{name: "stream of " + id, b: b})
			t.Count("taken_"+id, 1)
		}
	}
	s := items[r.N(len(items))]
	db := append([]byte{}, s.b...)
	for k := r.R(1, 4); k > 0; k-- {
		db[r.R(len(db)/2, len(db)-1)] ^= byte(1 << uint(r.N(8)))
	}
	items = append(items, item{name: "damaged " + s.name, b: db})
	alone := func() {
		for i := range items {
			items[i].want = outcome(decode(items[i].b, nil))
		}
	}
	if !cold {
		alone()
	}
	procs := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(procs)
	runtime.GOMAXPROCS(r.Pick(2, 4, procs))
	n := r.R(2, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	running, maxRun := 0, 0
	start := make(chan struct{})
	var bad []string
	type result struct {
		item int
		got  string
		err  error
	}
	var results []result
	first := r.N(len(items))
	for g := 0; g < n; g++ {
		var jobs []int
		if cold {
			jobs = append(jobs, first)
		}
		for k := r.R(1, 3); k > 0; k-- {
			jobs = append(jobs, r.N(len(items)))
		}
		share := r.P(0.3)
		seed := int64(r.U64())
		mg := r.Pick(0, 2, 3, 8)
		hq := r.P(0.3)
		if hq {
			t.Count("header_queries", 1)
		}
		t.Count("decodes", len(jobs))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			mu.Lock()
			running++
			maxRun = max(maxRun, running)
			mu.Unlock()
			rr := rand.New(rand.NewSource(seed))
			for _, k := range jobs {
				if hq {
					_, _ = core.NewJXLDecoder(bytes.NewReader(items[k].b), nil).GetImageHeader()
				}
				img, err := core.NewJXLDecoder(slowReader{bytes.NewReader(items[k].b), rr}, &options.JXLOptions{MaxGoroutines: mg}).Decode()
				got := outcome(img, err)
				if err == nil && share {
					// reading one image from several goroutines
					var cw sync.WaitGroup
					for _, f := range []func(){
						func() { _, _ = img.ToImage() },
						func() { _, _ = img.ToImage() },
						func() { _, _ = img.ChannelToImage(0) },
						func() { _ = (&core.PNGWriter{}).WritePNG(img, io.Discard) },
						func() { _ = core.WritePFM(img, io.Discard) },
					} {
						cw.Add(1)
						go func() {
							defer cw.Done()
							f()
						}()
					}
					cw.Wait()
					mu.Lock()
					t.Count("shared_conversions", 1)
					mu.Unlock()
				} else if err == nil {
					switch rr.Intn(3) {
					case 0:
						_, _ = img.ToImage()
					case 1:
						_ = (&core.PNGWriter{}).WritePNG(img, io.Discard)
					case 2:
						_ = core.WritePFM(img, io.Discard)
					}
				}
				mu.Lock()
				results = append(results, result{k, got, err})
				mu.Unlock()
			}
			mu.Lock()
			running--
			mu.Unlock()
		}()
	}
	close(start)
	wg.Wait()
	if cold {
		alone()
	}
	for _, x := range results {
		if i := items[x.item]; x.got != i.want {
			bad = append(bad, fmt.Sprintf("%s: alone %s, among others %s (%v)", i.name, i.want, x.got, x.err))
		}
	}
	if maxRun > 1 {
		t.Count("overlaps", 1)
	}
	t.Max("overlap", maxRun)
	if len(bad) > 0 {
		t.Failf("concurrent", "%d decoders at once: %v", n, bad)
	}
	t.Key("%d/%v", n, items[2].want)
	t.Desc("%d decoders at once over %d images", n, len(items))
}
