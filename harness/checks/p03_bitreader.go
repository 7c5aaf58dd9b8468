package checks

import (
	"bytes"
	"math"
	"math/big"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/jxlio"
)

func init() {
	rt.Register(&rt.Check{ID: "P03", Quick: 400000, Thorough: 2000000, Batch: 2000,
		Rule: "random byte strings read through random sequences of every bit-reader operation, over sources that deliver all at once, one byte at a time, randomly short, with empty reads, with data and end-of-file together, or fail at a random offset; every result is compared with an arbitrary-precision bit model, and non-trivial when at least five operations completed",
		Need: []string{"ops", "eof_errors", "fault_errors", "peeks", "skips", "seeks", "unpacks"},
		Run:  p03})
}

// bitModel is the reference: bit i of the string is bit i%8 of byte i/8.
type bitModel struct {
	b   []byte
	pos int
}

func (m *bitModel) avail() int { return len(m.b)*8 - m.pos }
func (m *bitModel) peek(n int) (v uint64) {
	x := new(big.Int)
	for i := 0; i < n; i++ {
		p := m.pos + i
		if p/8 < len(m.b) && m.b[p/8]>>(uint(p)%8)&1 == 1 {
			x.SetBit(x, i, 1)
		}
	}
	return x.Uint64()
}
func (m *bitModel) take(n int) (uint64, bool) {
	if n > m.avail() {
		return 0, false
	}
	v := m.peek(n)
	m.pos += n
	return v, true
}
func (m *bitModel) u32(d [4][2]int) (uint32, bool) {
	s, ok := m.take(2)
	if !ok {
		return 0, false
	}
	v, ok := m.take(d[s][1])
	return uint32(d[s][0]) + uint32(v), ok
}
func (m *bitModel) u64() (uint64, bool) {
	s, ok := m.take(2)
	if !ok {
		return 0, false
	}
	switch s {
	case 0:
		return 0, true
	case 1:
		v, ok := m.take(4)
		return v + 1, ok
	case 2:
		v, ok := m.take(8)
		return v + 17, ok
	}
	v, ok := m.take(12)
	sh := 12
	for ok {
		var c uint64
		if c, ok = m.take(1); !ok {
			break
		}
		if c == 0 {
			return v, true
		}
		n := 8
		if sh == 60 {
			n = 4
		}
		var d uint64
		if d, ok = m.take(n); !ok {
			break
		}
		v |= d << uint(sh)
		if sh == 60 {
			return v, true
		}
		sh += 8
	}
	return 0, false
}
func (m *bitModel) u8() (int, bool) {
	f, ok := m.take(1)
	if !ok || f == 0 {
		return 0, ok
	}
	n, ok := m.take(3)
	if !ok {
		return 0, false
	}
	v, ok := m.take(int(n))
	return int(v) + 1<<n, ok
}

func p03(t *rt.T) {
	r := t.R
	// signed unpacking
	for i := 0; i < 20; i++ {
		u := uint32(r.U64() >> uint(r.N(64)))
		var w int64
		if u&1 == 0 {
			w = int64(u) / 2
		} else {
			w = -(int64(u) + 1) / 2
		}
		if g := jxlio.UnpackSigned(u); int64(g) != w {
			t.Failf("unpack32", "unpacking %d gave %d, want %d", u, g, w)
		}
		u2 := r.U64() >> uint(r.N(64))
		w2 := new(big.Int).SetUint64(u2)
		if u2&1 == 0 {
			w2.Rsh(w2, 1)
		} else {
			w2.Add(w2, big.NewInt(1)).Rsh(w2, 1).Neg(w2)
		}
		if g := jxlio.UnpackSigned64(u2); w2.Int64() != g {
			t.Failf("unpack64", "unpacking %d gave %d, want %v", u2, g, w2)
		}
		t.Count("unpacks", 2)
	}
	n := r.Pick(0, 1, 2, 3, 8, 20, 60, 200, 300, 400)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
		if r.P(0.2) {
			b[i] = 0
		}
		if r.P(0.2) {
			b[i] = 0xff
		}
	}
	mode := r.N(5)
	src := newFrag(r, b, mode)
	limit := len(b)
	fault := false
	if r.P(0.25) && n > 0 {
		src.failAt = int64(r.N(n))
		limit = int(src.failAt)
		fault = true
	}
	m := &bitModel{b: b[:limit]}
	var br jxlio.BitReader
	if r.P(0.1) && !fault {
		br = jxlio.NewBitStreamReader(bytes.NewReader(b))
	} else {
		br = jxlio.NewBitStreamReader(src)
	}
	steps := r.R(1, 80)
	ops := 0
	read := uint64(0) // bits consumed since creation
loop:
	for s := 0; s < steps; s++ {
		start := m.pos
		var got, want uint64
		var ok bool
		var err error
		op := r.N(19)
		name := ""
		relaxed := false // a short tail may legally be reported as an error or as data
		switch op {
		case 0, 1, 2:
			k := r.R(0, 64)
			name = "ReadBits"
			want, ok = m.take(k)
			got, err = br.ReadBits(uint32(k))
		case 3:
			name = "ReadBool"
			want, ok = m.take(1)
			var v bool
			v, err = br.ReadBool()
			if v {
				got = 1
			}
		case 4:
			name = "ReadByte"
			want, ok = m.take(8)
			var v byte
			v, err = br.ReadByte()
			got = uint64(v)
		case 5:
			name = "ReadU32"
			var d [4][2]int
			for i := range d {
				d[i] = [2]int{r.N(1 << uint(r.N(20))), r.Pick(0, 0, 1, 4, 9, 13, 22, 30, 32)}
			}
			w, o := m.u32(d)
			want, ok = uint64(w), o
			var v uint32
			v, err = br.ReadU32(d[0][0], d[0][1], d[1][0], d[1][1], d[2][0], d[2][1], d[3][0], d[3][1])
			got = uint64(v)
		case 6:
			name = "ReadU64"
			want, ok = m.u64()
			got, err = br.ReadU64()
		case 7:
			name = "ReadU8"
			w, o := m.u8()
			want, ok = uint64(w), o
			var v int
			v, err = br.ReadU8()
			got = uint64(v)
		case 8:
			name = "ReadEnum"
			w, o := m.u32([4][2]int{{0, 0}, {1, 0}, {2, 4}, {18, 6}})
			var v int32
			v, err = br.ReadEnum()
			if o && w > 63 {
				if err == nil {
					t.Failf("enum", "enum value %d accepted", w)
				}
				t.Count("rejected_enum", 1)
				return
			}
			want, ok, got = uint64(w), o, uint64(v)
		case 9:
			name = "ReadF16"
			w, o := m.take(16)
			var v float32
			v, err = br.ReadF16()
			if o && w>>10&31 == 31 {
				if err == nil {
					t.Failf("f16", "non-finite half float accepted")
				}
				t.Count("rejected_f16", 1)
				return
			}
			ok = o
			want, got = uint64(math.Float32bits(float32(jx.F16Dec(uint16(w))))), uint64(math.Float32bits(v))
		case 10, 11:
			name = "ShowBits"
			k := r.R(1, 64)
			t.Count("peeks", 1)
			var v uint64
			v, err = br.ShowBits(k)
			switch {
			case k <= m.avail():
				want, ok, got = m.peek(k), true, v
			case fault || m.avail() == 0:
				ok = false
			default:
				want, ok, got = m.peek(k), true, v // zeros beyond the end
			}
			if fault && k > m.avail() {
				relaxed = err != nil
			}
			if !ok && err != nil { // a peek must not disturb anything
				err, ok, got, want = nil, true, 0, 0
			}
		case 12, 13:
			name = "SkipBits"
			k := r.Pick(0, 1, 3, 7, 8, 9, 16, 17, 40, 64, 100)
			t.Count("skips", 1)
			if k <= m.avail() {
				m.pos += k
				ok = true
			}
			err = br.SkipBits(uint32(k))
		case 14:
			name = "Skip"
			k := r.N(6)
			t.Count("skips", 1)
			if k*8 <= m.avail() {
				m.pos += k * 8
				ok = true
			}
			_, err = br.Skip(uint32(k))
		case 15:
			name = "ZeroPadToByte"
			m.pos = (m.pos + 7) &^ 7
			ok = true
			err = br.ZeroPadToByte()
		case 16:
			name = "ReadBytesUint64"
			k := r.R(1, 8)
			if m.pos%8 != 0 {
				if _, e := br.ReadBytesUint64(k); e == nil {
					t.Failf("unaligned", "byte read accepted at bit %d", m.pos)
				}
				continue
			}
			want, ok = m.take(8 * k)
			got, err = br.ReadBytesUint64(k)
			read -= uint64(m.pos - start) // byte reads are not part of the bit count
		case 17:
			name = "AtEnd"
			g := br.AtEnd()
			if g != (m.avail() == 0) {
				t.Failf("atend", "AtEnd reports %v with %d bits left", g, m.avail())
				return
			}
			ok = true
		case 18:
			if r.P(0.3) {
				name = "Reset"
				err = br.Reset()
				m.pos = 0
			} else {
				name = "Seek"
				o := r.R(0, limit)
				_, err = br.Seek(int64(o), 0)
				m.pos = o * 8
			}
			t.Count("seeks", 1)
			ok = true
			start = m.pos
			read = br.GetBitsCount()
		}
		if relaxed {
			continue
		}
		if !ok {
			if err == nil {
				t.Failf("past-end:"+name, "%s at bit %d of %d (source kind %d, fault %v) returned %#x instead of an error", name, start, limit*8, mode, fault, got)
				return
			}
			if fault {
				t.Count("fault_errors", 1)
			} else {
				t.Count("eof_errors", 1)
			}
			break loop // state after a failed read is unspecified
		}
		if err != nil {
			t.Failf("error:"+name, "%s at bit %d of %d (source kind %d): %v", name, start, limit*8, mode, err)
			return
		}
		if got != want {
			t.Failf("value:"+name, "%s at bit %d of %d (source kind %d) returned %#x, want %#x", name, start, limit*8, mode, got, want)
			return
		}
		ops++
		t.Count("ops", 1)
		t.Tag("op", name)
		read += uint64(m.pos - start)
		if op != 16 && br.GetBitsCount() != read {
			t.Failf("count:"+name, "after %s at bit %d the consumed-bit count is %d, want %d", name, start, br.GetBitsCount(), read)
			return
		}
		read = br.GetBitsCount()
	}
	t.Tag("source", mode)
	t.Desc("%d bytes, source kind %d, fault %v, %d operations", n, mode, fault, ops)
	if ops >= 5 {
		t.Key("%d/%d/%d/%v", n, mode, ops, fault)
	}
}
