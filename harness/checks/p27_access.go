package checks

import (
	"math"

	"jxverif/rt"

	"github.com/kpfaulkner/jxl-go/core"
	image2 "github.com/kpfaulkner/jxl-go/image"
)

func init() {
	rt.Register(&rt.Check{ID: "P27", Quick: 9000, Thorough: 200000, Batch: 150,
		Rule: "images of every depth, colour encoding and set of extra channels; everything the decoded image says about itself is compared with the coded image, channel data is fetched, replaced and converted for every index in and out of range, and random sequences of buffer operations (copy, compare, cast either way, clamp, maximum, crop, casts that must be refused) run beside a model in plain slices",
		Need: []string{"large", "images", "extra_types", "fetched", "replaced", "bad_index", "buffer_ops", "op_copy", "op_equal", "op_float", "op_int", "op_clamp", "op_max", "op_differ", "op_badcast", "op_crop", "icc_profiles", "alpha", "int_based", "float_based"},
		Run:  p27})
}

func p27(t *rt.T) {
	if t.Index%3 == 2 {
		p27Buffers(t)
		return
	}
	r := t.R
	c := genOut(r)
	c.note(t)
	img, err := decode(c.cs, nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	t.Count("images", 1)
	W, H := c.size()
	nc, n := c.m.NColor(), c.m.NColor()+len(c.m.EC)
	if int(img.Width) != W || int(img.Height) != H || len(img.Buffer) != n {
		t.Failf("size", "%dx%d image with %d channels reported as %dx%d with %d", W, H, n, img.Width, img.Height, len(img.Buffer))
		return
	}
	if (img.ColorEncoding == 1) != (nc == 1) {
		t.Failf("encoding", "colour encoding %d for %d colour channels", img.ColorEncoding, nc)
		return
	}
	if img.NumExtraChannels() != len(c.m.EC) {
		t.Failf("extra-count", "%d extra channels reported, %d coded", img.NumExtraChannels(), len(c.m.EC))
		return
	}
	for i, e := range c.m.EC {
		if ty, err := img.GetExtraChannelType(i); err != nil || int(ty) != e.Type {
			t.Failf("extra-type", "extra channel %d of type %d reported as %d, %v", i, e.Type, ty, err)
			return
		}
		t.Count("extra_types", 1)
	}
	if img.HasAlpha() != (c.alpha >= 0) {
		t.Failf("alpha", "alpha reported %v, coded %v", img.HasAlpha(), c.alpha >= 0)
		return
	}
	if icc := c.m.CE.ICC && !c.m.XYB && len(c.m.ICC) > 0; img.HasICCProfile() != icc {
		t.Failf("profile", "profile reported %v, coded %v", img.HasICCProfile(), icc)
		return
	} else if icc {
		t.Count("icc_profiles", 1)
	}
	isInt := img.Buffer[0].BufferType == image2.TYPE_INT
	if img.IsIntBased() != isInt || img.IsFloatBased() == isInt {
		t.Failf("based", "samples of type %d reported as int %v, float %v", img.Buffer[0].BufferType, img.IsIntBased(), img.IsFloatBased())
		return
	}
	if isInt {
		t.Count("int_based", 1)
	} else {
		t.Count("float_based", 1)
	}
	// indices out of range
	k := r.Pick(-1, -2, n, n+1, n+1000, math.MaxInt, math.MinInt)
	t.Count("bad_index", 1)
	if _, err := img.GetIntChannelData(k); err == nil {
		t.Failf("index", "integer data of channel %d of %d given", k, n)
	}
	if _, err := img.GetFloatChannelData(k); err == nil {
		t.Failf("index", "float data of channel %d of %d given", k, n)
	}
	if img.SetIntChannelData(k, [][]int32{{1}}) == nil || img.SetFloatChannelData(k, [][]float32{{1}}) == nil {
		t.Failf("index", "data of channel %d of %d replaced", k, n)
	}
	if ci, err := img.ChannelToImage(k); err == nil || ci != nil {
		t.Failf("index", "channel %d of %d converted", k, n)
	}
	if k > 0 {
		k -= nc
	}
	if _, err := img.GetExtraChannelType(k); err == nil {
		t.Failf("index", "type of extra channel %d of %d given", k, len(c.m.EC))
	}
	if t.Failed() {
		return
	}
	// every channel's data
	for k := 0; k < n; k++ {
		b := &img.Buffer[k]
		if b.BufferType == image2.TYPE_INT {
			d, err := img.GetIntChannelData(k)
			if err != nil || len(d) != H || len(d[0]) != W {
				t.Failf("fetch", "integer data of channel %d: %d rows, %v", k, len(d), err)
				return
			}
			for y := range d {
				for x := range d[y] {
					if d[y][x] != b.IntBuffer[y][x] {
						t.Failf("fetch", "channel %d (%d,%d) fetched as %d, decoded %d", k, x, y, d[y][x], b.IntBuffer[y][x])
						return
					}
				}
			}
		} else {
			d, err := img.GetFloatChannelData(k)
			if err != nil || len(d) != H || len(d[0]) != W {
				t.Failf("fetch", "float data of channel %d: %d rows, %v", k, len(d), err)
				return
			}
			for y := range d {
				for x := range d[y] {
					if math.Float32bits(d[y][x]) != math.Float32bits(b.FloatBuffer[y][x]) {
						t.Failf("fetch", "channel %d (%d,%d) fetched as %v, decoded %v", k, x, y, d[y][x], b.FloatBuffer[y][x])
						return
					}
				}
			}
		}
		t.Count("fetched", 1)
	}
	// data put into a channel is what the other accessors and the outputs show
	k = r.N(n)
	before := copyImg(img)
	top := 1<<uint(c.bits(k)) - 1
	if img.Buffer[k].BufferType == image2.TYPE_INT {
		d := make([][]int32, H)
		for y := range d {
			d[y] = make([]int32, W)
			for x := range d[y] {
				d[y][x] = int32(r.R(0, top))
			}
		}
		if err := img.SetIntChannelData(k, d); err != nil {
			t.Failf("replace", "replacing channel %d: %v", k, err)
			return
		}
		if g, err := img.GetIntChannelData(k); err != nil || len(g) != H || &g[0][0] != &d[0][0] {
			t.Failf("replace", "channel %d gives other data than was put in (%v)", k, err)
			return
		}
		before.Buffer[k].IntBuffer = d
	} else {
		d := make([][]float32, H)
		for y := range d {
			d[y] = make([]float32, W)
			for x := range d[y] {
				d[y][x] = float32(r.F())
			}
		}
		if err := img.SetFloatChannelData(k, d); err != nil {
			t.Failf("replace", "replacing channel %d: %v", k, err)
			return
		}
		if g, err := img.GetFloatChannelData(k); err != nil || len(g) != H || &g[0][0] != &d[0][0] {
			t.Failf("replace", "channel %d gives other data than was put in (%v)", k, err)
			return
		}
		before.Buffer[k].FloatBuffer = d
	}
	if s := diffImages(before, img); s != "" {
		t.Failf("replace-other", "replacing channel %d left the image otherwise than expected: %s", k, s)
		return
	}
	g, err := img.ToImage()
	if err != nil {
		t.Failf("replace-convert", "converting after replacing channel %d: %v", k, err)
		return
	}
	if !c.compareShown(t, "replaced", g, before) {
		return
	}
	t.Count("replaced", 1)
	// a copied image shares nothing with the first
	o, err := core.NewJXLImageFromJXLImage(img, true)
	if err != nil || diffImages(img, o) != "" {
		t.Failf("image-copy", "the copy of an image differs (%v)", err)
		return
	}
	if g2, err := o.ToImage(); err != nil || !sameImage(g, g2) {
		t.Failf("image-copy", "the copy of an image converts to another picture (%v)", err)
		return
	}
	for k := range o.Buffer {
		spoil(&o.Buffer[k])
	}
	if s := diffImages(before, img); s != "" {
		t.Failf("image-copy", "writing to the copy of an image changed the image: %s", s)
	}
}

func spoil(b *image2.ImageBuffer) {
	for y := range b.IntBuffer {
		for x := range b.IntBuffer[y] {
			b.IntBuffer[y][x] ^= 0x5555
		}
	}
	for y := range b.FloatBuffer {
		for x := range b.FloatBuffer[y] {
			b.FloatBuffer[y][x] = -b.FloatBuffer[y][x] - 3
		}
	}
}

// bufModel mirrors an image buffer.
type bufModel struct {
	isInt bool
	w, h  int
	v     []float64
}

func (m *bufModel) clone() *bufModel {
	o := *m
	o.v = append([]float64{}, m.v...)
	return &o
}

func (m *bufModel) check(b *image2.ImageBuffer) (x, y int, got float64, ok bool) {
	if int(b.Width) != m.w || int(b.Height) != m.h || b.IsInt() != m.isInt || b.IsFloat() == m.isInt || shapeErr(b) != "" {
		return -1, -1, 0, false
	}
	for y := 0; y < m.h; y++ {
		for x := 0; x < m.w; x++ {
			if g := planeAt(b, x, y); g != m.v[y*m.w+x] {
				return x, y, g, false
			}
		}
	}
	return 0, 0, 0, true
}

// p27Buffers runs operations on buffers beside the model.
func p27Buffers(t *rt.T) {
	r := t.R
	w, h := r.R(1, 9), r.R(1, 9)
	bits := r.R(1, 20)
	top := int32(1)<<uint(bits) - 1
	m := &bufModel{isInt: r.Bool(), w: w, h: h, v: make([]float64, w*h)}
	var b *image2.ImageBuffer
	if r.Bool() {
		ty := image2.TYPE_FLOAT
		if m.isInt {
			ty = image2.TYPE_INT
		}
		var err error
		b, err = image2.NewImageBuffer(ty, int32(h), int32(w))
		if err != nil {
			t.Failf("new", "new %dx%d buffer: %v", w, h, err)
			return
		}
		if _, _, g, ok := m.check(b); !ok {
			t.Failf("new", "a new buffer of %dx%d has type %d, size %dx%d or holds %v", w, h, b.BufferType, b.Width, b.Height, g)
			return
		}
	} else if m.isInt {
		d := make([][]int32, h)
		for y := range d {
			d[y] = make([]int32, w)
		}
		b = image2.NewImageBufferFromInts(d)
	} else {
		d := make([][]float32, h)
		for y := range d {
			d[y] = make([]float32, w)
		}
		b = image2.NewImageBufferFromFloats(d)
	}
	fill := func() {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if m.isInt {
					v := int32(r.R(-5, int(top)+5))
					b.IntBuffer[y][x], m.v[y*w+x] = v, float64(v)
				} else {
					v := float32(r.F()*1.2 - 0.1)
					if r.P(0.3) {
						v = float32(r.R(0, int(top))) / float32(top)
					}
					b.FloatBuffer[y][x], m.v[y*w+x] = v, float64(v)
				}
			}
		}
	}
	fill()
	ops := ""
	for k := r.R(3, 9); k > 0; k-- {
		op := []string{"copy", "equal", "float", "int", "clamp", "max", "differ", "fill", "badcast", "crop"}[r.N(10)]
		ops += " " + op
		t.Count("buffer_ops", 1)
		t.Count("op_"+op, 1)
		switch op {
		case "fill":
			fill()
		case "copy":
			o := image2.NewImageBufferFromImageBuffer(b, true)
			if _, _, _, ok := m.check(o); !ok {
				t.Failf("copy", "the copy of a buffer differs (%s)", ops)
				return
			}
			spoil(b)
			if _, _, _, ok := m.check(o); !ok {
				t.Failf("copy-shared", "writing to a buffer changed its copy (%s)", ops)
				return
			}
			e := image2.NewImageBufferFromImageBuffer(o, false)
			z := m.clone()
			clear(z.v)
			if _, _, g, ok := z.check(e); !ok {
				t.Failf("copy-blank", "a blank copy of a %dx%d buffer is %dx%d of type %d or holds %v (%s)", w, h, e.Width, e.Height, e.BufferType, g, ops)
				return
			}
			b = o
		case "equal", "differ":
			o := image2.NewImageBufferFromImageBuffer(b, true)
			if !b.Equals(*o) || !o.Equals(*b) || !image2.ImageBufferSliceEquals([]image2.ImageBuffer{*b, *o}, []image2.ImageBuffer{*o, *b}) {
				t.Failf("equal", "a buffer is not equal to its copy (%s)", ops)
				return
			}
			if image2.ImageBufferSliceEquals([]image2.ImageBuffer{*b, *o}, []image2.ImageBuffer{*o}) {
				t.Failf("equal-count", "lists of two and one buffers are equal")
				return
			}
			if op == "equal" {
				break
			}
			x, y := r.N(w), r.N(h)
			what := r.N(4)
			switch {
			case what == 0 && w > 1:
				o.Width--
			case what == 1 && h > 1:
				o.Height--
			case what == 2:
				o.BufferType ^= 1
				o.IntBuffer, o.FloatBuffer = make([][]int32, h), make([][]float32, h)
				for y := range o.IntBuffer {
					o.IntBuffer[y], o.FloatBuffer[y] = make([]int32, w), make([]float32, w)
				}
			case m.isInt:
				o.IntBuffer[y][x]++
			default:
				o.FloatBuffer[y][x] += 0.25
			}
			if b.Equals(*o) || o.Equals(*b) || image2.ImageBufferSliceEquals([]image2.ImageBuffer{*b, *b}, []image2.ImageBuffer{*b, *o}) {
				t.Failf("differ", "buffers that differ (kind %d, place %d,%d of %dx%d) are equal", what, x, y, w, h)
				return
			}
		case "badcast":
			// a maximum no sample can have is refused, and the buffer stays what it was
			bad := int32(-r.N(3))
			if err := b.CastToFloatIfMax(bad); (err != nil) != m.isInt {
				t.Failf("bad-cast", "casting to float with maximum %d, buffer of integers %v: %v (%s)", bad, m.isInt, err, ops)
				return
			}
			if err := b.CastToIntIfMax(bad); (err != nil) == m.isInt {
				t.Failf("bad-cast", "casting to int with maximum %d, buffer of integers %v: %v (%s)", bad, m.isInt, err, ops)
				return
			}
		case "crop":
			cw, ch := r.R(1, w+2), r.R(1, h+2)
			b.Crop(int32(ch), int32(cw))
			cw, ch = min(cw, w), min(ch, h)
			v := make([]float64, 0, cw*ch)
			for y := 0; y < ch; y++ {
				v = append(v, m.v[y*w:y*w+cw]...)
			}
			w, h = cw, ch
			m.w, m.h, m.v = w, h, v
		case "float":
			if err := b.CastToFloatIfMax(top); err != nil {
				t.Failf("float", "casting to float: %v (%s)", err, ops)
				return
			}
			if m.isInt {
				m.isInt = false
				for i, v := range m.v {
					y, x := i/w, i%w
					g := planeAt(b, x, y)
					if math.Abs(g-v/float64(top)) > 2e-7*math.Max(1, math.Abs(v/float64(top))) {
						t.Failf("float", "%v of %d cast to %v (%s)", v, top, g, ops)
						return
					}
					m.v[i] = g
				}
			}
		case "int":
			if err := b.CastToIntIfMax(top); err != nil {
				t.Failf("int", "casting to int: %v (%s)", err, ops)
				return
			}
			if !m.isInt {
				m.isInt = true
				for i, v := range m.v {
					y, x := i/w, i%w
					g := planeAt(b, x, y)
					e := math.Min(math.Max(v*float64(top), 0), float64(top))
					if !(math.Abs(g-e) <= 0.5+3e-7*float64(top)) {
						t.Failf("int", "%v cast to %v of %d (%s)", v, g, top, ops)
						return
					}
					m.v[i] = g
				}
			}
		case "clamp":
			err := b.Clamp(top)
			if m.isInt != (err == nil) {
				t.Failf("clamp", "clamping a buffer of integers %v: error %v (%s)", m.isInt, err, ops)
				return
			}
			if m.isInt {
				for i, v := range m.v {
					m.v[i] = math.Min(math.Max(v, 0), float64(top))
				}
			}
		case "max":
			e := 0.0
			for _, v := range m.v {
				e = math.Max(e, v)
			}
			g := 0.0
			if m.isInt {
				g = float64(b.MaxInt())
			} else {
				g = float64(b.MaxFloat())
			}
			if g != e {
				t.Failf("max", "largest sample %v reported as %v (%s)", e, g, ops)
				return
			}
		}
		if x, y, g, ok := m.check(b); !ok {
			t.Failf("state", "after%s: buffer of %dx%d, type %d, at (%d,%d) %v; model %dx%d, integers %v", ops, b.Width, b.Height, b.BufferType, x, y, g, m.w, m.h, m.isInt)
			return
		}
	}
	if _, err := image2.NewImageBuffer(r.Pick(-1, 2, 9), 3, 3); err == nil {
		t.Failf("bad-type", "a buffer of unknown type was made")
	}
	if _, err := image2.NewImageBuffer(image2.TYPE_INT, int32(r.Pick(-1, 1<<30+1)), 3); err == nil {
		t.Failf("bad-size", "a buffer of impossible size was made")
	}
	t.Desc("%dx%d, %d bits:%s", w, h, bits, ops)
	t.Key("%dx%d/%s", w, h, ops)
}
