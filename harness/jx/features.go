package jx

// Frame features written at the start of the LFGlobal section.

// WriteNoise writes visible noise parameters.
func WriteNoise(w *BitWriter, r *Rng) {
	for i := 0; i < 8; i++ {
		w.Bits(uint64(r.R(1, 1023)), 10)
	}
}

func writeToks(w *BitWriter, r *Rng, nctx int, toks []Tok) {
	e, syms := BuildEnt(r, nctx, []TokSection{{Toks: toks}}, EntOpts{})
	e.WriteHeader(w)
	e.WriteSyms(w, syms[0])
}

// WritePatches writes a patch dictionary which adds parts of saved frame ref (rw x rh) to a frame of w x h.
func WritePatches(w *BitWriter, r *Rng, m *Meta, ref, rw, rh, fw, fh int) {
	var t []Tok
	put := func(ctx int, v int) { t = append(t, Tok{ctx, uint32(v)}) }
	n := r.R(1, 3)
	put(0, n)
	for ; n > 0; n-- {
		put(1, ref)
		pw, ph := r.R(1, min(rw, fw)), r.R(1, min(rh, fh))
		put(3, r.N(rw-pw+1))
		put(3, r.N(rh-ph+1))
		put(2, pw-1)
		put(2, ph-1)
		k := r.R(1, 3)
		put(7, k-1)
		px, py := 0, 0
		for i := 0; i < k; i++ {
			x, y := r.N(fw-pw+1), r.N(fh-ph+1)
			if i == 0 {
				put(4, x)
				put(4, y)
			} else {
				put(6, int(PackSigned(int32(x-px))))
				put(6, int(PackSigned(int32(y-py))))
			}
			px, py = x, y
			for c := 0; c <= len(m.EC); c++ {
				mode := 1 + r.N(2) // replace or add
				if c > 0 {
					mode = r.N(3)
				}
				put(5, mode)
			}
		}
	}
	writeToks(w, r, 10, t)
}

// WriteSplines writes splines crossing a frame of w x h.
func WriteSplines(w *BitWriter, r *Rng, fw, fh int) {
	var t []Tok
	put := func(ctx int, v int) { t = append(t, Tok{ctx, uint32(v)}) }
	sgn := func(ctx int, v int) { put(ctx, int(PackSigned(int32(v)))) }
	n := r.R(1, 3)
	put(2, n-1)
	px, py := 0, 0
	for i := 0; i < n; i++ {
		x, y := r.N(fw), r.N(fh)
		if i == 0 {
			put(1, x)
			put(1, y)
		} else {
			sgn(1, x-px)
			sgn(1, y-py)
		}
		px, py = x, y
	}
	sgn(0, r.R(-3, 3))
	for i := 0; i < n; i++ {
		k := r.R(1, 4)
		put(3, k)
		for ; k > 0; k-- {
			sgn(4, r.R(-20, 20))
			sgn(4, r.R(-20, 20))
		}
		for c := 0; c < 4; c++ {
			for j := 0; j < 32; j++ {
				v := 0
				if j == 0 {
					v = r.R(20, 60)
				} else if r.P(0.1) {
					v = r.R(-4, 4)
				}
				sgn(5, v)
			}
		}
	}
	writeToks(w, r, 6, t)
}
