package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"reflect"

	"jxverif/jx"
	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/core"
)

func init() {
	rt.Register(&rt.Check{ID: "P04", Quick: 2500, Thorough: 30000, Batch: 50,
		Rule: "codestreams of random lossless images (and the project's small samples) wrapped in random valid containers: one codestream box with 32-bit, 64-bit or to-end-of-file size, or one to nine partial boxes cut anywhere (also empty ones), among metadata boxes of every size encoding and order (empty to more than 4 GB) and a level box, read through well-behaved and fragmenting readers; decoded planes and header structures are compared with those of the bare codestream; non-trivial when the container has at least one more box than needed or a cut",
		Need: []string{"jxlc", "jxlc_large", "jxlc_eof", "jxlp", "extra_before", "extra_between", "extra_after", "level10", "frag", "huge_box"},
		Run:  p04})
}

func randBoxes(r *jx.Rng, n int) (o []jx.Box) {
	for ; n > 0; n-- {
		b := jx.Box{Type: []string{"Exif", "xml ", "jumb", "brob", "uuid", "abcd", "jbrd", "free"}[r.N(8)], Large: r.P(0.2)}
		b.Data = make([]byte, r.Pick(0, 0, 1, 3, 4, 8, 20, 100, 300))
		if r.P(0.02) {
			b.Data = make([]byte, r.Pick(4090, 65536, 1<<16+r.N(40), 200000))
		} else if r.P(0.002) {
			b.Data = make([]byte, 1<<24+r.N(3000000))
		}
		for i := range b.Data {
			b.Data[i] = byte(r.N(256))
		}
		if r.P(0.1) { // bytes that look like a codestream or another box
			b.Data = append([]byte{0, 0, 0, 16, 'j', 'x', 'l', 'c', 0xff, 0x0a, 0, 0}, b.Data...)
		}
		o = append(o, b)
	}
	return
}

// randContainer wraps a codestream in a random valid container.
func randContainer(r *jx.Rng, cs []byte, count func(string, int)) []byte {
	var boxes []jx.Box
	nb := r.Pick(0, 0, 1, 2)
	boxes = append(boxes, randBoxes(r, nb)...)
	count("extra_before", nb)
	if r.P(0.4) {
		lv := byte(5)
		if r.Bool() {
			lv = 10
			count("level10", 1)
		}
		boxes = append(boxes, jx.Box{Type: "jxll", Data: []byte{lv}})
		if r.P(0.3) {
			boxes = append(boxes, randBoxes(r, 1)...)
		}
	}
	after := r.Pick(0, 0, 1, 2)
	if r.Bool() {
		b := jx.Box{Type: "jxlc", Data: cs, Large: r.P(0.3)}
		if after == 0 && r.Bool() {
			b.ToEOF, b.Large = true, false
			count("jxlc_eof", 1)
		} else if b.Large {
			count("jxlc_large", 1)
		}
		count("jxlc", 1)
		boxes = append(boxes, b)
	} else {
		var cuts []int
		n := r.R(0, 8)
		p := 0
		for i := 0; i < n; i++ {
			switch r.N(4) {
			case 0:
				p += r.N(4)
			case 1:
				p += r.N(len(cs)/3 + 1)
			case 2:
				p = max(p, min(p+r.N(30), len(cs)-r.N(8)))
			}
			p = min(p, len(cs))
			cuts = append(cuts, p)
		}
		ps := jx.JxlpBoxes(cs, cuts)
		for i := range ps {
			if i > 0 && r.P(0.3) {
				k := r.R(1, 2)
				boxes = append(boxes, randBoxes(r, k)...)
				count("extra_between", k)
			}
			ps[i].Large = r.P(0.2)
			if i == len(ps)-1 && after == 0 && r.P(0.4) {
				ps[i].ToEOF, ps[i].Large = true, false
			}
			boxes = append(boxes, ps[i])
		}
		count("jxlp", len(ps))
	}
	boxes = append(boxes, randBoxes(r, after)...)
	if after > 0 && r.P(0.3) {
		boxes[len(boxes)-1].ToEOF, boxes[len(boxes)-1].Large = true, false
		count("extra_eof", 1)
	}
	count("extra_after", after)
	return jx.Container(boxes)
}

func headerOf(b []byte, r *jx.Rng) (*bundle.ImageHeader, error) {
	if r != nil {
		return core.NewJXLDecoder(newFrag(r, b, r.N(5)), nil).GetImageHeader()
	}
	return core.NewJXLDecoder(bytes.NewReader(b), nil).GetImageHeader()
}

// holeReader reads a head, a run of zeros that is stored nowhere, and a tail.
type holeReader struct {
	head, tail []byte
	hole, off  int64
}

func (h *holeReader) Read(p []byte) (int, error) {
	hl := int64(len(h.head))
	switch {
	case len(p) == 0:
		return 0, nil
	case h.off < hl:
		n := copy(p, h.head[h.off:])
		h.off += int64(n)
		return n, nil
	case h.off < hl+h.hole:
		n := min(int64(len(p)), hl+h.hole-h.off)
		clear(p[:n])
		h.off += n
		return int(n), nil
	case h.off-hl-h.hole < int64(len(h.tail)):
		n := copy(p, h.tail[h.off-hl-h.hole:])
		h.off += int64(n)
		return n, nil
	}
	return 0, io.EOF
}

func (h *holeReader) Seek(o int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		o += h.off
	case io.SeekEnd:
		o += int64(len(h.head)) + h.hole + int64(len(h.tail))
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	h.off = o
	return o, nil
}

// p04Huge puts a box too large for 32 bits in front of the codestream.
func p04Huge(t *rt.T, cs []byte, ref *core.JXLImage) {
	r := t.R
	hole := int64(r.Pick(1<<32-16, 1<<32, 1<<32+r.N(1000), 1<<32+1<<29))
	size := uint64(hole) + 16
	head := jx.Container(nil)
	head = append(head, 0, 0, 0, 1)
	head = append(head, []string{"Exif", "xml ", "uuid", "free"}[r.N(4)]...)
	head = binary.BigEndian.AppendUint64(head, size)
	var tail []byte
	if r.Bool() {
		tail = jx.Box{Type: "jxlc", Data: cs}.Bytes()
	} else {
		for _, b := range jx.JxlpBoxes(cs, []int{len(cs) / 2}) {
			tail = append(tail, b.Bytes()...)
		}
	}
	img, err := core.NewJXLDecoder(&holeReader{head: head, tail: tail, hole: hole}, nil).Decode()
	if err != nil || img == nil {
		t.Failf("huge-error", "container with a box of %d bytes rejected: image %v, error %v", size, img != nil, err)
		return
	}
	if d := diffImages(ref, img); d != "" {
		t.Failf("huge-image", "container with a box of %d bytes changes the image: %s", size, d)
		return
	}
	t.Count("huge_box", 1)
}

func p04(t *rt.T) {
	r := t.R
	var cs []byte
	if r.P(0.06) {
		cs = corpus([]string{"art.jxl", "tiny2.jxl", "grayscale.jxl", "bbb-small.jxl", "white.jxl"}[r.N(5)])[0]
		if cs[0] != 0xff {
			t.Count("skipped_container_sample", 1)
			return
		}
		t.Desc("project sample of %d bytes", len(cs))
	} else {
		c := genMod(r, false)
		if r.P(0.3) {
			c.m.Orient = r.R(1, 8)
		}
		cs = jx.Codestream(r, c.m, []*jx.BuiltFrame{c.b}, r.P(0.3))
		t.Desc("%dx%d image, %d bytes", c.m.W, c.m.H, len(cs))
	}
	ref, err := decode(cs, nil)
	if err != nil {
		t.Failf("bare-error", "valid bare codestream rejected: %v", err)
		return
	}
	href, err := headerOf(cs, nil)
	if err != nil || href == nil {
		t.Failf("bare-header", "header of a valid bare codestream: %v, %v", href, err)
		return
	}
	if t.Index%750 == 41 {
		p04Huge(t, cs, ref)
	}
	for i := 0; i < 3; i++ {
		cnt := map[string]int{}
		b := randContainer(r, cs, func(n string, k int) { cnt[n] += k; t.Count(n, k) })
		t.Key("%v", cnt)
		var img *core.JXLImage
		if r.P(0.3) {
			t.Count("frag", 1)
			img, err = core.NewJXLDecoder(newFrag(r, b, r.N(5)), nil).Decode()
		} else {
			img, err = decode(b, nil)
		}
		if err != nil || img == nil {
			t.Failf("error", "container %v rejected: image %v, error %v", cnt, img != nil, err)
			return
		}
		if d := diffImages(ref, img); d != "" {
			t.Failf("image", "container %v changes the image: %s", cnt, d)
			return
		}
		t.Count("samples", len(img.Buffer)*int(img.Width)*int(img.Height))
		var hr *jx.Rng
		if r.P(0.3) {
			hr = r
		}
		h, err := headerOf(b, hr)
		if err != nil || h == nil {
			t.Failf("header-error", "container %v: header query gives %v, error %v", cnt, h != nil, err)
			return
		}
		wl := int32(5)
		if cnt["level10"] > 0 {
			wl = 10
		}
		if h.Level != wl {
			t.Failf("level", "container %v reports level %d, coded %d", cnt, h.Level, wl)
		}
		x, y := *h, *href
		x.Level, y.Level = 0, 0
		if !reflect.DeepEqual(&x, &y) {
			t.Failf("header", "container %v changes the header: %+v and %+v", cnt, x, y)
			return
		}
	}
}
