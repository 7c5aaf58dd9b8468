package checks

import (
	"io"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"
)

func init() {
	rt.Register(&rt.Check{ID: "P02", Quick: 18000, Thorough: 150000, Batch: 250,
		Rule: "random token sequences (values up to 2^31, up to 300 contexts, up to 5000 symbols) coded by an independent encoder choosing at random among prefix codes (simple/complex), ANS distributions (single, two, flat, general with RLE), clusterings with and without move-to-front, hybrid-integer configurations and LZ77 with normal and special distances; non-trivial when at least two symbols are coded",
		Need: []string{"symbols", "ans", "prefix", "lz77_copies", "special_copies", "block_prefix", "zero_copies", "clamped_copies", "far_copies", "very_far_copies", "mtf", "rle", "rle-lead", "flat", "final_state_checked"},
		Run:  p02})
}

func p02(t *rt.T) {
	r := t.R
	nctx := r.Pick(1, 1, 2, 3, 6, 8, 20, 60, 300)
	n := r.Pick(0, 1, 2, 5, 50, 400, 1000, 5000)
	if t.Thorough() && r.P(0.02) {
		n = 60000
	}
	// streams longer than the parts of the LZ77 window
	long := false
	if t.Index%150 == 7 {
		long, n, nctx = true, r.R(70000, 140000), r.Pick(1, 2)
	}
	if t.Index%500 == 33 {
		long, n, nctx = true, 1<<20+r.R(1000, 200000), r.Pick(1, 2)
	}
	toks := make([]jx.Tok, n)
	mx := r.Pick(1, 3, 10, 255, 5000, 1<<20, 1<<30, 1<<31-1)
	zeros := 0
	if r.P(0.1) {
		zeros = r.N(40)
	}
	if long {
		mx = r.Pick(300, 5000, 1<<20)
	}
	for k := range toks {
		v := uint32(r.N(mx))
		if k < zeros {
			toks[k] = jx.Tok{Ctx: r.N(nctx)}
			continue
		}
		if long {
			if toks[k] == (jx.Tok{}) {
				toks[k] = jx.Tok{Ctx: r.N(nctx), Val: v}
			}
			if k > 0 && r.P(0.002) {
				d := r.R(1, min(k, 1<<20))
				if k > 1<<19 && r.P(0.5) {
					d = r.R(min(k, 1<<20)/2, min(k, 1<<20))
				}
				if k > 1<<20 && r.P(0.5) {
					d = 1 << 20
				}
				for j := k; j < min(n, k+r.R(3, 3000)); j++ {
					toks[j] = toks[j-d]
				}
			}
			continue
		}
		if r.P(0.5) && k > 0 {
			v = toks[r.N(k)].Val
		}
		if k > 20 && r.P(0.02) { // repeat a run
			d := r.R(1, 20)
			for j := k; j < min(n, k+r.R(3, 60)); j++ {
				toks[j] = toks[j-d]
			}
		}
		if toks[k] == (jx.Tok{}) {
			toks[k] = jx.Tok{Ctx: r.N(nctx), Val: v}
		}
	}
	nsec := r.Pick(1, 1, 1, 2, 3)
	var secs []jx.TokSection
	for s := 0; s < nsec; s++ {
		lo, hi := n*s/nsec, n*(s+1)/nsec
		secs = append(secs, jx.TokSection{Toks: toks[lo:hi], DistMult: r.Pick(0, 1, 2, 7, 100, 2000)})
	}
	if long {
		secs = []jx.TokSection{{Toks: toks, DistMult: r.Pick(0, 1, 300)}}
		nsec = 1
	}
	e, syms := jx.BuildEnt(r, nctx, secs, jx.EntOpts{ForceLZ: long})
	w := &jx.BitWriter{}
	e.WriteHeader(w)
	for s := range syms {
		e.WriteSyms(w, syms[s])
	}
	end := w.Len()
	w.Bits(0xa5a5a5a5a5, 40)
	b := w.Bytes()
	var src io.ReadSeeker = newFrag(r, b, r.N(5))
	br := jxlio.NewBitStreamReader(src)
	st := e.Stats
	t.Desc("contexts %d symbols %d sections %d prefix %v lz77 %v copies %d special %d clusters %d", nctx, n, nsec, st.Prefix, st.LZ, st.Copies, st.SpecialCopies, st.Clusters)
	if n >= 2 {
		t.Key("%d/%d/%d/%v/%v/%v/%v/%d/%d", nctx, n, mx, st.Prefix, st.LZ, st.MTF, st.RLE, st.Clusters, st.Copies)
	}
	if st.Prefix {
		t.Count("prefix", 1)
	} else {
		t.Count("ans", 1)
	}
	t.Count("lz77_copies", st.Copies)
	t.Count("special_copies", st.SpecialCopies)
	t.Count("block_prefix", st.BlockLens)
	t.Count("zero_copies", st.ZeroCopies)
	t.Count("clamped_copies", st.ClampedCopies)
	t.Count("far_copies", st.FarCopies)
	t.Count("very_far_copies", st.VeryFarCopies)
	for k, v := range map[string]bool{"mtf": st.MTF, "rle": st.RLE, "rle-lead": st.RLE0, "flat": st.Flat, "simple": st.Simple} {
		if v {
			t.Count(k, 1)
		}
	}
	es, err := entropy.NewEntropyStreamWithReaderAndNumDists(br, nctx, entropy.ReadClusterMap)
	if err != nil {
		t.Failf("header", "valid entropy header rejected: %v (%+v)", err, st)
		return
	}
	for s, sec := range secs {
		if s > 0 {
			es = entropy.NewEntropyStreamWithStream(es)
		}
		for k, tk := range sec.Toks {
			v, err := es.ReadSymbolWithMultiplier(br, tk.Ctx, int32(sec.DistMult))
			if err != nil {
				t.Failf("symbol-error", "section %d symbol %d/%d: %v (%+v)", s, k, len(sec.Toks), err, st)
				return
			}
			if uint32(v) != tk.Val {
				t.Failf("symbol", "section %d symbol %d/%d decoded %d, encoded %d (multiplier %d, %+v)", s, k, len(sec.Toks), v, tk.Val, sec.DistMult, st)
				return
			}
			t.Count("symbols", 1)
		}
		if len(sec.Toks) > 0 {
			if !es.ValidateFinalState() {
				t.Failf("final-state", "valid stream reported as ending in a wrong state (section %d, %+v)", s, st)
				return
			}
			t.Count("final_state_checked", 1)
		}
	}
	// exactly the coded bits were consumed
	if br.GetBitsCount() != uint64(end) {
		t.Failf("consumed", "consumed %d bits, stream has %d", br.GetBitsCount(), end)
	}
}
