package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"

	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
)

func init() {
	rt.Register(&rt.Check{ID: "P14", Quick: 12000, Thorough: 60000, Batch: 60,
		Rule: "the images of P13 written as PFM; the file is parsed by an independent reader (magic, size, scale and byte order, rows bottom to top, exact length) and every sample compared with the decoded one on the scale where 1 is full intensity; writers that fail at some byte, once or for good, must be reported",
		Need: []string{"large", "failed_writes", "samples", "files", "alpha", "grey", "deep", "kind_xyb", "float", "very_deep", "kind_icc", "kind_hdr"},
		Run:  p14})
}

func p14(t *rt.T) {
	r := t.R
	c := genOut(r)
	c.note(t)
	dec, err := decode(c.cs, nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	snap := copyImg(dec)
	var buf bytes.Buffer
	if err := core.WritePFM(dec, &buf); err != nil {
		t.Failf("write", "writing PFM failed: %v", err)
		return
	}
	b := buf.Bytes()
	var magic string
	var w, h int
	var scale float64
	n, err := fmt.Fscan(bytes.NewReader(b), &magic, &w, &h, &scale)
	nl := 0
	for i := range b {
		if b[i] == '\n' {
			if nl++; nl == 3 {
				b = b[i+1:]
				break
			}
		}
	}
	W, H := c.size()
	nc := c.m.NColor()
	if n != 4 || err != nil || nl < 3 || magic != map[int]string{1: "Pf", 3: "PF"}[nc] || w != W || h != H || math.Abs(scale) != 1 {
		t.Failf("header", "PFM header is %q %d %d %v for a %dx%d image of %d colour channels (error %v)", magic, w, h, scale, W, H, nc, err)
		return
	}
	if len(b) != 4*W*H*nc {
		t.Failf("length", "PFM has %d bytes of samples, %d wanted", len(b), 4*W*H*nc)
		return
	}
	var ord binary.ByteOrder = binary.BigEndian
	if scale < 0 {
		ord = binary.LittleEndian
	}
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			for k := 0; k < nc; k++ {
				v := float64(math.Float32frombits(ord.Uint32(b[4*(((H-1-y)*W+x)*nc+k):])))
				want := c.rel(snap, k, x, y)
				if !(math.Abs(v-want) <= 2e-7*math.Abs(want)) {
					t.Failf("sample", "channel %d (%d,%d) written as %v, decoded %v", k, x, y, v, want)
					return
				}
			}
		}
	}
	t.Count("samples", W*H*nc)
	t.Count("files", 1)
	if !failedWrites(t, buf.Len(), func(o io.Writer) error { return core.WritePFM(dec, o) }) {
		return
	}
	if d := diffImages(snap, dec); d != "" {
		t.Failf("mutated", "writing changed the decoded image: %s", d)
	}
}
