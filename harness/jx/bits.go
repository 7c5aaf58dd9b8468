// Package jx is an independent JPEG XL bitstream writer and reference model.
// It shares no code with the decoder under test.
package jx

import "math"

// BitWriter is a little-endian bit accumulator (JPEG XL bit order).
type BitWriter struct {
	Buf  []byte
	acc  uint64
	nacc uint
	n    int // total bits
}

// Fuzz, when set, may replace every value written; only hostile input generation uses it.
var Fuzz func(v uint64, n int) uint64

func (w *BitWriter) Bits(v uint64, n int) {
	for n > 32 {
		w.Bits(v&0xffffffff, 32)
		v >>= 32
		n -= 32
	}
	if n == 0 {
		return
	}
	if Fuzz != nil {
		v = Fuzz(v, n)
	}
	w.raw(v, n)
}

func (w *BitWriter) raw(v uint64, n int) {
	v &= (1 << uint(n)) - 1
	w.acc |= v << w.nacc
	w.nacc += uint(n)
	w.n += n
	for w.nacc >= 8 {
		w.Buf = append(w.Buf, byte(w.acc))
		w.acc >>= 8
		w.nacc -= 8
	}
}

func (w *BitWriter) Len() int { return w.n }

func (w *BitWriter) Bool(b bool) {
	if b {
		w.Bits(1, 1)
	} else {
		w.Bits(0, 1)
	}
}

// Align pads with zero bits.
func (w *BitWriter) Align() {
	if w.nacc > 0 {
		w.raw(0, int(8-w.nacc))
	}
}

// Bytes aligns and returns the bytes.
func (w *BitWriter) Bytes() []byte {
	w.Align()
	return w.Buf
}

// Append appends all bits of o.
func (w *BitWriter) Append(o *BitWriter) {
	for _, b := range o.Buf {
		w.raw(uint64(b), 8)
	}
	if o.nacc > 0 {
		w.raw(o.acc, int(o.nacc))
	}
}

func (w *BitWriter) AppendBytes(b []byte) {
	for _, x := range b {
		w.raw(uint64(x), 8)
	}
}

// D is one of the 4 alternatives of a U32.
type D struct {
	Off  uint32
	Bits int
}

func (d D) fits(v uint32) bool {
	if v < d.Off {
		return false
	}
	if d.Bits >= 32 {
		return true
	}
	return uint64(v-d.Off) < 1<<uint(d.Bits)
}

// U32 writes v using the first alternative that fits.
func (w *BitWriter) U32(v uint32, ds [4]D) {
	for i, d := range ds {
		if d.fits(v) {
			w.Bits(uint64(i), 2)
			w.Bits(uint64(v-d.Off), d.Bits)
			return
		}
	}
	panic("U32: value does not fit")
}

// U32Sel writes v using a random alternative that fits.
func (w *BitWriter) U32R(r *Rng, v uint32, ds [4]D) {
	var ok []int
	for i, d := range ds {
		if d.fits(v) {
			ok = append(ok, i)
		}
	}
	if len(ok) == 0 {
		panic("U32R: value does not fit")
	}
	i := ok[0]
	if r != nil && r.P(0.3) {
		i = ok[r.N(len(ok))]
	}
	w.Bits(uint64(i), 2)
	w.Bits(uint64(v-ds[i].Off), ds[i].Bits)
}

func (w *BitWriter) U64(v uint64) {
	switch {
	case v == 0:
		w.Bits(0, 2)
	case v <= 16:
		w.Bits(1, 2)
		w.Bits(v-1, 4)
	case v <= 272:
		w.Bits(2, 2)
		w.Bits(v-17, 8)
	default:
		w.Bits(3, 2)
		w.Bits(v&0xfff, 12)
		v >>= 12
		shift := 12
		for v > 0 && shift < 60 {
			w.Bits(1, 1)
			w.Bits(v&0xff, 8)
			v >>= 8
			shift += 8
		}
		if v > 0 {
			w.Bits(1, 1)
			w.Bits(v&0xf, 4)
		} else {
			w.Bits(0, 1)
		}
	}
}

func (w *BitWriter) U8(v int) {
	if v == 0 {
		w.Bits(0, 1)
		return
	}
	w.Bits(1, 1)
	n := 0
	for v>>(n+1) > 0 {
		n++
	}
	w.Bits(uint64(n), 3)
	w.Bits(uint64(v-(1<<n)), n)
}

func (w *BitWriter) Enum(v int) {
	switch {
	case fault("enum-unknown"):
		v = 45 + v%10
	case fault("enum-large"):
		v = 64 + v%18
	}
	w.U32(uint32(v), [4]D{{0, 0}, {1, 0}, {2, 4}, {18, 6}})
}

// F16 writes a half float; v must be exactly representable after F16Round.
func (w *BitWriter) F16(v float64) {
	x := F16Enc(v)
	switch {
	case fault("float-inf"):
		x = x&0x8000 | 0x7c00
	case fault("float-nan"):
		x |= 0x7e00
	}
	w.Bits(uint64(x), 16)
}

// F16Enc converts to the nearest half (truncating mantissa), normal range only plus zero/subnormals.
func F16Enc(v float64) uint16 {
	var s uint16
	if v < 0 || (v == 0 && math.Signbit(v)) {
		s = 0x8000
		v = -v
	}
	if v == 0 {
		return s
	}
	fr, ex := math.Frexp(v) // v = fr*2^ex, fr in [.5,1)
	e := ex - 1 + 15
	if e >= 31 {
		return s | 0x7bff
	}
	if e <= 0 {
		m := uint16(v * math.Pow(2, 24))
		return s | m
	}
	m := uint16((fr*2 - 1) * 1024)
	return s | uint16(e)<<10 | m
}

// F16Dec decodes a half float.
func F16Dec(h uint16) float64 {
	s := 1.0
	if h&0x8000 != 0 {
		s = -1
	}
	e := int(h>>10) & 31
	m := float64(h & 0x3ff)
	if e == 0 {
		return s * m * math.Pow(2, -24)
	}
	return s * (1 + m/1024) * math.Pow(2, float64(e-15))
}

// F16Round rounds v to a value representable as half float.
func F16Round(v float64) float64 { return F16Dec(F16Enc(v)) }

func PackSigned(v int32) uint32 {
	return uint32(v<<1) ^ uint32(v>>31)
}

func UnpackSigned(u uint32) int32 {
	return int32(u>>1) ^ -int32(u&1)
}

func ceilLog2(v int) int {
	n := 0
	for (1 << n) < v {
		n++
	}
	return n
}

func floorLog2(v uint32) int {
	n := -1
	for v > 0 {
		n++
		v >>= 1
	}
	return n
}

func ceilDiv(a, b int) int { return (a + b - 1) / b }

func absI(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// Rng is a small deterministic PRNG (splitmix64); stable across Go versions.
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	r := &Rng{s: 0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= p * 0xbf58476d1ce4e5b9
		r.U64()
	}
	return r
}

func StrSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R returns a value in [lo,hi].
func (r *Rng) R(lo, hi int) int { return lo + r.N(hi-lo+1) }

func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *Rng) P(p float64) bool { return r.F() < p }

func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

func (r *Rng) Pick(v ...int) int { return v[r.N(len(v))] }

// Gauss-ish
func (r *Rng) G() float64 {
	return r.F() + r.F() + r.F() + r.F() - 2
}

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
