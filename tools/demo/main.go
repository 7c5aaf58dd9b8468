// Demonstration: decodes the files of expect.txt and compares the outcome with the recorded one.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/kpfaulkner/jxl-go/core"
)

func outcome(b []byte) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = "panic"
		}
	}()
	img, err := core.NewJXLDecoder(bytes.NewReader(b), nil).Decode()
	if err != nil {
		return "error"
	}
	h := sha256.New()
	fmt.Fprintln(h, img.Width, img.Height, len(img.Buffer))
	for _, p := range img.Buffer {
		for _, r := range p.IntBuffer {
			binary.Write(h, binary.LittleEndian, r)
		}
		for _, r := range p.FloatBuffer {
			// float samples are compared at a precision no rounding difference reaches
			for _, v := range r {
				binary.Write(h, binary.LittleEndian, int32(math.Round(float64(v)*256)))
			}
		}
	}
	if hdr, err := core.NewJXLDecoder(bytes.NewReader(b), nil).GetImageHeader(); err == nil && hdr.EncodedICC != nil {
		icc, err := hdr.GetDecodedICC()
		if err != nil {
			return "icc-error"
		}
		h.Write(icc)
	}
	return fmt.Sprintf("%x/%s", h.Sum(nil)[:8], outputs(img))
}

// outputs digests what the decoded image is converted to and written as.
func outputs(img *core.JXLImage) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = "panic"
		}
	}()
	h := sha256.New()
	pixels := func(m image.Image) {
		b := m.Bounds()
		fmt.Fprintln(h, b)
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				c := color.NRGBA64Model.Convert(m.At(x, y)).(color.NRGBA64)
				fmt.Fprintln(h, (int(c.R)+128)>>8, (int(c.G)+128)>>8, (int(c.B)+128)>>8, (int(c.A)+128)>>8)
			}
		}
	}
	if m, err := img.ToImage(); err != nil {
		fmt.Fprintln(h, "ToImage failed")
	} else {
		pixels(m)
	}
	var b bytes.Buffer
	pw := core.PNGWriter{}
	if err := pw.WritePNG(img, &b); err != nil {
		fmt.Fprintln(h, "WritePNG failed")
	} else if m, err := png.Decode(bytes.NewReader(b.Bytes())); err != nil {
		fmt.Fprintln(h, "PNG invalid")
	} else {
		pixels(m)
	}
	b.Reset()
	if err := core.WritePFM(img, &b); err != nil {
		fmt.Fprintln(h, "WritePFM failed")
	} else {
		hd := 0 // end of the three header lines
		for n := 0; n < 3; hd++ {
			if b.Bytes()[hd] == '\n' {
				n++
			}
		}
		h.Write(b.Bytes()[:hd])
		var bo binary.ByteOrder = binary.LittleEndian
		if f := strings.Fields(string(b.Bytes()[:hd])); !strings.HasPrefix(f[len(f)-1], "-") {
			bo = binary.BigEndian
		}
		for d := b.Bytes()[hd:]; len(d) >= 4; d = d[4:] {
			fmt.Fprintln(h, math.Round(float64(math.Float32frombits(bo.Uint32(d)))*256))
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:8])
}

func main() {
	dir := os.Args[1]
	if len(os.Args) > 2 { // record
		fs, _ := filepath.Glob(filepath.Join(dir, "*.jxl"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			fmt.Println(filepath.Base(f), outcome(b))
		}
		return
	}
	exp, err := os.ReadFile(filepath.Join(dir, "expect.txt"))
	if err != nil {
		panic(err)
	}
	bad := 0
	for _, l := range strings.Split(strings.TrimSpace(string(exp)), "\n") {
		w := strings.Fields(l)
		b, err := os.ReadFile(filepath.Join(dir, w[0]))
		if err != nil {
			panic(err)
		}
		if got := outcome(b); got != w[1] {
			fmt.Printf("%s: got %s, want %s\n", w[0], got, w[1])
			bad++
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
	fmt.Println("all files decode as recorded")
}
