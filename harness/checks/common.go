// Package checks holds the monitored workloads, one or more files per property.
package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
	image2 "github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/options"
)

// decode runs the real decoder over a byte string.
var dumpN int // JXV_DUMP=DIR keeps every decoded stream, for building demonstrations

func decode(b []byte, o *options.JXLOptions) (*core.JXLImage, error) {
	if tap != nil {
		tap(b)
	}
	dump(b)
	return core.NewJXLDecoder(bytes.NewReader(b), o).Decode()
}

func dump(b []byte) {
	if d := os.Getenv("JXV_DUMP"); d != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/s%03d.jxl", d, dumpN), b, 0o644)
	}
}

// tap, when set, receives the streams instead of the decoder; it does not return.
var tap func([]byte)

// Plane is one decoded channel in whichever representation the decoder chose.
func planeAt(b *image2.ImageBuffer, x, y int) float64 {
	if b.BufferType == image2.TYPE_INT {
		return float64(b.IntBuffer[y][x])
	}
	return float64(b.FloatBuffer[y][x])
}

func shapeErr(b *image2.ImageBuffer) string {
	var h int
	if b.BufferType == image2.TYPE_INT {
		h = len(b.IntBuffer)
		for y := range b.IntBuffer {
			if len(b.IntBuffer[y]) != int(b.Width) {
				return fmt.Sprintf("row %d has %d samples, width says %d", y, len(b.IntBuffer[y]), b.Width)
			}
		}
	} else {
		h = len(b.FloatBuffer)
		for y := range b.FloatBuffer {
			if len(b.FloatBuffer[y]) != int(b.Width) {
				return fmt.Sprintf("row %d has %d samples, width says %d", y, len(b.FloatBuffer[y]), b.Width)
			}
		}
	}
	if h != int(b.Height) {
		return fmt.Sprintf("%d rows, height says %d", h, b.Height)
	}
	return ""
}

// sampleInt reads a sample as an integer of the given bit depth. Float planes hold value/(2^bits-1).
func sampleInt(b *image2.ImageBuffer, x, y, bits int) int64 {
	if b.BufferType == image2.TYPE_INT {
		return int64(b.IntBuffer[y][x])
	}
	return int64(math.Round(float64(b.FloatBuffer[y][x]) * float64((uint64(1)<<uint(bits))-1)))
}

// compareExact checks that decoded planes hold exactly the wanted integers.
func compareExact(t *rt.T, img *core.JXLImage, want []*jx.Chan, bits []int) bool {
	if img == nil {
		t.Failf("nil-image", "decode returned no image and no error")
		return false
	}
	if len(img.Buffer) != len(want) {
		t.Failf("channels", "decoded %d channels, encoded %d", len(img.Buffer), len(want))
		return false
	}
	for k, c := range want {
		b := &img.Buffer[k]
		if int(b.Width) != c.W || int(b.Height) != c.H {
			t.Failf("size", "channel %d decoded as %dx%d, encoded %dx%d", k, b.Width, b.Height, c.W, c.H)
			return false
		}
		if s := shapeErr(b); s != "" {
			t.Failf("shape", "channel %d: %s", k, s)
			return false
		}
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				if v := sampleInt(b, x, y, bits[k]); v != int64(c.At(x, y)) {
					t.Failf("sample", "channel %d (%d,%d) decoded %d, encoded %d", k, x, y, v, c.At(x, y))
					return false
				}
			}
		}
		t.Count("samples", c.W*c.H)
	}
	return true
}

func chanBits(m *jx.Meta) (o []int) {
	for i := 0; i < m.NColor(); i++ {
		o = append(o, m.BD.Bits)
	}
	for _, e := range m.EC {
		o = append(o, e.BD.Bits)
	}
	return
}

// hostile readers -------------------------------------------------------------------------------

var errInjected = errors.New("injected read fault")

// fragReader returns short reads, optionally together with io.EOF, and can fail at an offset.
type fragReader struct {
	b      []byte
	off    int64
	r      *jx.Rng
	mode   int
	failAt int64 // <0 never
	reads  int
	faults int
}

func newFrag(r *jx.Rng, b []byte, mode int) *fragReader {
	return &fragReader{b: b, r: r, mode: mode, failAt: -1}
}

func (f *fragReader) Read(p []byte) (int, error) {
	f.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if f.failAt >= 0 && f.off >= f.failAt {
		f.faults++
		return 0, errInjected
	}
	if f.off >= int64(len(f.b)) {
		return 0, io.EOF
	}
	n := len(p)
	switch f.mode {
	case 1:
		n = 1
	case 2:
		n = f.r.R(1, n)
	case 3:
		if f.r.P(0.2) {
			return 0, nil
		}
		n = f.r.R(1, min(n, 7))
	}
	n = min(n, len(f.b)-int(f.off))
	if f.failAt >= 0 {
		n = min(n, int(f.failAt-f.off))
	}
	copy(p, f.b[f.off:f.off+int64(n)])
	f.off += int64(n)
	if (f.mode == 2 || f.mode == 4) && f.off == int64(len(f.b)) {
		return n, io.EOF
	}
	return n, nil
}

func (f *fragReader) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		o += f.off
	case io.SeekEnd:
		o += int64(len(f.b))
	}
	if o < 0 {
		return 0, errors.New("negative seek")
	}
	f.off = o
	return o, nil
}

// planeHash identifies the decoded samples and shape of an image.
func imgHash(img *core.JXLImage) string {
	if img == nil {
		return "nil"
	}
	h := fnv.New64a()
	var b [8]byte
	put := func(v uint64) { binary.LittleEndian.PutUint64(b[:], v); h.Write(b[:]) }
	put(uint64(img.Width))
	put(uint64(img.Height))
	for i := range img.Buffer {
		p := &img.Buffer[i]
		put(uint64(p.BufferType)<<60 | uint64(p.Width)<<30 | uint64(p.Height))
		for _, r := range p.IntBuffer {
			for _, v := range r {
				put(uint64(uint32(v)))
			}
		}
		for _, r := range p.FloatBuffer {
			for _, v := range r {
				put(uint64(math.Float32bits(v)))
			}
		}
	}
	return fmt.Sprintf("%x", h.Sum64())
}

// outcome of a decode as a comparable string; error texts are not compared.
func outcome(img *core.JXLImage, err error) string {
	if err != nil {
		return "error"
	}
	return imgHash(img)
}

// diffImages describes the first difference between two decoded images, "" when identical.
func diffImages(a, b *core.JXLImage) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return "one image is missing"
	}
	if a.Width != b.Width || a.Height != b.Height {
		return fmt.Sprintf("size %dx%d and %dx%d", a.Width, a.Height, b.Width, b.Height)
	}
	if len(a.Buffer) != len(b.Buffer) {
		return fmt.Sprintf("%d and %d channels", len(a.Buffer), len(b.Buffer))
	}
	for k := range a.Buffer {
		p, q := &a.Buffer[k], &b.Buffer[k]
		if p.BufferType != q.BufferType || p.Width != q.Width || p.Height != q.Height {
			return fmt.Sprintf("channel %d: type %d %dx%d and type %d %dx%d", k, p.BufferType, p.Width, p.Height, q.BufferType, q.Width, q.Height)
		}
		if s := shapeErr(p); s != "" {
			return fmt.Sprintf("channel %d: %s", k, s)
		}
		if s := shapeErr(q); s != "" {
			return fmt.Sprintf("channel %d: %s", k, s)
		}
		for y := 0; y < int(p.Height); y++ {
			for x := 0; x < int(p.Width); x++ {
				if u, v := planeAt(p, x, y), planeAt(q, x, y); u != v && !(u != u && v != v) {
					return fmt.Sprintf("channel %d (%d,%d): %v and %v", k, x, y, u, v)
				}
			}
		}
	}
	return ""
}

// orient maps a coded channel to its oriented form.
func orient(c *jx.Chan, o int) *jx.Chan {
	w, h := c.W, c.H
	if o > 4 {
		w, h = h, w
	}
	d := jx.NewChan(w, h)
	for y := 0; y < c.H; y++ {
		for x := 0; x < c.W; x++ {
			X, Y := orientXY(o, x, y, c.W, c.H)
			d.Set(X, Y, c.At(x, y))
		}
	}
	return d
}

// orientXY gives where the coded sample (x,y) of a WxH image is shown.
func orientXY(o, x, y, W, H int) (int, int) {
	switch o {
	case 2:
		return W - 1 - x, y
	case 3:
		return W - 1 - x, H - 1 - y
	case 4:
		return x, H - 1 - y
	case 5:
		return y, x
	case 6:
		return H - 1 - y, x
	case 7:
		return H - 1 - y, W - 1 - x
	case 8:
		return y, W - 1 - x
	}
	return x, y
}

// failWriter takes left bytes, then fails: from there on, or, once, for a single call.
type failWriter struct {
	left   int
	once   bool
	failed int
}

var errWriter = errors.New("the writer failed")

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left || w.once && w.failed > 0 {
		w.left = max(w.left-len(p), 0)
		return len(p), nil
	}
	w.failed++
	n := w.left
	w.left = 0
	return n, errWriter
}

// failedWrites has write report the failure of writers that do not take all of its n bytes.
func failedWrites(t *rt.T, n int, write func(w io.Writer) error) bool {
	for k := 0; k < 3; k++ {
		at := t.R.N(n)
		switch {
		case k == 1 && n > 4:
			at = n - 1 - t.R.N(min(n, 16))
		case k == 2:
			at = t.R.N(min(n, 64))
		}
		w := &failWriter{left: at, once: t.R.Bool()}
		if err := write(w); err == nil {
			t.Failf("write-error", "a writer that fails after %d of %d bytes (once: %v, %d failures) is not reported", at, n, w.once, w.failed)
			return false
		}
		t.Count("failed_writes", 1)
	}
	return true
}
