package jx

// ConstCode writes the header of a prefix code in which every symbol is v and takes no bits.
func ConstCode(w *BitWriter, ndist, v int) {
	w.Bits(0, 1) // no lz77
	if ndist > 1 {
		w.Bits(1, 1) // simple clustering, all to cluster 0
		w.Bits(0, 2)
	}
	w.Bits(1, 1)  // prefix code
	w.Bits(15, 4) // split exponent: tokens are values
	if v == 0 {
		w.Bits(0, 1)
		return
	}
	nb := 0
	for v>>uint(nb+1) > 0 {
		nb++
	}
	// alphabet of 2^(nb+1) symbols
	w.Bits(1, 1)
	w.Bits(uint64(nb+1), 4)
	a := 1<<uint(nb+1) + 1
	w.Bits(0, nb+1)
	l := 0
	for 1<<uint(l) < a {
		l++
	}
	w.Bits(1, 2) // simple code
	w.Bits(0, 2) // one symbol
	w.Bits(uint64(v), l)
}

// ICCBomb is an image header with a profile of n bytes which take no bits.
func ICCBomb(r *Rng, n uint64) []byte {
	w := &BitWriter{}
	w.Bits(0xff, 8)
	w.Bits(0x0a, 8)
	w.Bits(1, 1) // small
	w.Bits(uint64(r.N(32)), 5)
	w.Bits(1, 3)
	w.Bits(0, 2) // not default, no extra fields
	w.Bits(0, 1) // integer samples
	w.Bits(0, 2) // 8 bits
	w.Bits(1, 1)
	w.Bits(0, 2) // no extra channels
	w.Bits(0, 1) // not XYB
	w.Bits(0, 1)
	w.Bits(1, 1) // profile
	w.Bits(0, 2)
	w.Bits(0, 2) // extensions
	w.Bits(1, 1) // default transform data
	w.U64(n)
	ConstCode(w, 41, r.Pick(0, 0, 1, 2, 128, 255, 300))
	w.AppendBytes(make([]byte, r.N(20)))
	return w.Bytes()
}

// ModularBomb writes a lossless frame whose only section is made by f.
func ModularBomb(r *Rng, W, H, nec int, f func(w *BitWriter)) []byte {
	w := &BitWriter{}
	m := &Meta{W: W, H: H, BD: BitDepth{Bits: 8}, CE: SRGBEnc(), XformDef: true}
	for i := 0; i < nec; i++ {
		m.EC = append(m.EC, ExtraCh{Type: ECDepth, BD: m.BD})
	}
	m.Write(w, r)
	fh := &FrameHdr{Modular: true, RF: NoRF(), Up: 1, GroupShift: 3, IsLast: true, Pass: PassSpec{Num: 1}}
	for i := 0; i < nec; i++ {
		fh.EcUp = append(fh.EcUp, 1)
		fh.EcBlend = append(fh.EcBlend, BlendInfo{})
	}
	s := &BitWriter{}
	s.Bits(1, 1) // default dequantisation
	f(s)
	b := s.Bytes()
	AssembleFrame(w, r, fh, m, [][]byte{b}, nil)
	return w.Bytes()
}

// ConstTree writes a tree of one leaf with predictor zero.
func ConstTree(w *BitWriter) {
	ConstCode(w, 6, 0)
	ConstCode(w, 1, 0)
}

// NumTransD is the distribution of the number of transforms.
var NumTransD = [4]D{{0, 0}, {1, 0}, {2, 4}, {18, 8}}
