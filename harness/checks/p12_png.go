package checks

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image/png"
	"io"

	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
)

func init() {
	rt.Register(&rt.Check{ID: "P12", Quick: 12000, Thorough: 60000, Batch: 60,
		Rule: "the images of P13 written as PNG; the file is walked chunk by chunk (signature, order, lengths, checksums, header fields, profile or sRGB chunk), decoded with Go's own PNG decoder and every pixel compared with the decoded samples converted by independent formulas, at the depth written; writers that fail at some byte, once or for good, must be reported",
		Need: []string{"large", "failed_writes", "used_writer", "used_writer_other", "pixels", "files", "iccp", "srgb", "alpha", "alpha_not_first", "premultiplied", "grey", "deep", "kind_xyb", "float", "very_deep", "kind_tf", "pq_pixels"},
		Run:  p12})
}

type pngChunk struct {
	typ  string
	data []byte
}

func pngChunks(b []byte) (o []pngChunk, err error) {
	if !bytes.HasPrefix(b, []byte("\x89PNG\r\n\x1a\n")) {
		return nil, fmt.Errorf("no PNG signature")
	}
	for b = b[8:]; len(b) > 0; {
		if len(b) < 12 {
			return nil, fmt.Errorf("%d stray bytes", len(b))
		}
		n := int(binary.BigEndian.Uint32(b))
		if n > len(b)-12 {
			return nil, fmt.Errorf("chunk of %d bytes with %d left", n, len(b)-12)
		}
		if crc32.ChecksumIEEE(b[4:8+n]) != binary.BigEndian.Uint32(b[8+n:]) {
			return nil, fmt.Errorf("checksum of chunk %q is wrong", b[4:8])
		}
		o = append(o, pngChunk{string(b[4:8]), b[8 : 8+n]})
		b = b[12+n:]
	}
	return
}

func p12(t *rt.T) {
	r := t.R
	c := genOut(r)
	c.note(t)
	dec, err := decode(c.cs, nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	snap := copyImg(dec)
	w := &core.PNGWriter{}
	switch r.N(10) {
	case 0: // a writer used before
		w.WritePNG(dec, io.Discard)
		t.Count("used_writer", 1)
	case 1, 2: // for another image
		if o, err := decode(genOut(r).cs, nil); err == nil {
			w.WritePNG(o, io.Discard)
			t.Count("used_writer_other", 1)
		}
	}
	var buf bytes.Buffer
	if err := w.WritePNG(dec, &buf); err != nil {
		t.Failf("write", "writing PNG failed: %v", err)
		return
	}
	ch, err := pngChunks(buf.Bytes())
	if err != nil {
		t.Failf("chunks", "malformed PNG: %v", err)
		return
	}
	n := len(ch)
	if n < 3 || ch[0].typ != "IHDR" || ch[n-1].typ != "IEND" || len(ch[n-1].data) != 0 || len(ch[0].data) != 13 {
		t.Failf("layout", "PNG has chunks %v", chunkNames(ch))
		return
	}
	W, H := c.size()
	h := ch[0].data
	ct := 0
	if c.m.NColor() == 3 {
		ct = 2
	}
	if c.alpha >= 0 {
		ct += 4
	}
	depth := 8
	if c.m.BD.Bits > 8 || c.hdr {
		depth = 16
	}
	if int(binary.BigEndian.Uint32(h)) != W || int(binary.BigEndian.Uint32(h[4:])) != H || int(h[9]) != ct || h[10] != 0 || h[11] != 0 || h[12] != 0 || int(h[8]) < depth && !c.hdr {
		t.Failf("header", "PNG header % x for a %dx%d image of %d bits, colour type should be %d", h, W, H, c.m.BD.Bits, ct)
		return
	}
	var icc, srgb, idat int
	for i, k := range ch {
		switch k.typ {
		case "iCCP":
			icc++
			if idat > 0 {
				t.Failf("order", "profile after image data")
				return
			}
			z := bytes.IndexByte(k.data, 0)
			if z < 1 || z > 79 || z+2 > len(k.data) || k.data[z+1] != 0 {
				t.Failf("iccp", "malformed profile chunk")
				return
			}
			zr, err := zlib.NewReader(bytes.NewReader(k.data[z+2:]))
			var p []byte
			if err == nil {
				p, err = io.ReadAll(zr)
			}
			if err != nil || !bytes.Equal(p, c.m.ICC) {
				t.Failf("profile", "profile of %d bytes written as %d bytes (error %v)", len(c.m.ICC), len(p), err)
				return
			}
			t.Count("iccp", 1)
		case "sRGB":
			srgb++
			if idat > 0 || len(k.data) != 1 || int(k.data[0]) != c.m.CE.Intent && !c.m.CE.ICC {
				t.Failf("srgb", "sRGB chunk % x, coded rendering intent %d", k.data, c.m.CE.Intent)
				return
			}
			t.Count("srgb", 1)
		case "IDAT":
			idat++
			if idat > 1 && ch[i-1].typ != "IDAT" {
				t.Failf("order", "image data is not in one run")
				return
			}
		}
	}
	wantICC := 0
	if c.m.CE.ICC && !c.m.XYB && len(c.m.ICC) > 0 {
		wantICC = 1
	}
	if idat == 0 || icc != wantICC || srgb > 1 || icc > 0 && srgb > 0 || !c.hdr && icc == 0 && srgb == 0 || c.hdr && srgb > 0 {
		t.Failf("tags", "PNG of a %s image has chunks %v", c.kind, chunkNames(ch))
		return
	}
	got, err := png.Decode(bytes.NewReader(buf.Bytes()))
	if err != nil {
		t.Failf("decode", "PNG does not decode: %v", err)
		return
	}
	t.Count("files", 1)
	if !c.compareShown(t, "png", got, snap) {
		return
	}
	if !failedWrites(t, buf.Len(), func(o io.Writer) error { return (&core.PNGWriter{}).WritePNG(dec, o) }) {
		return
	}
	if d := diffImages(snap, dec); d != "" {
		t.Failf("mutated", "writing changed the decoded image: %s", d)
	}
}

func chunkNames(ch []pngChunk) (o []string) {
	for _, k := range ch {
		o = append(o, k.typ)
	}
	return
}
