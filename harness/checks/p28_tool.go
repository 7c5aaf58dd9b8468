package checks

import (
	"bytes"
	"context"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"jxverif/jx"
	"jxverif/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "P28", Quick: 1500, Thorough: 40000, Batch: 25,
		Rule: "the jxltopng command, built from the working tree, is run as a process on the images of P13 (some in containers, some with debug logging), on truncated, damaged and unsupported ones and on missing files, into fresh and existing files and over the input itself; its exit status, its output file, its standard error and its input file are judged: the PNG holds the decoded samples, a failed run reports failure, writes no picture and leaves an existing file alone, no run panics",
		Need: []string{"good", "bad", "pixels", "iccp", "debug_runs", "existing", "bad_existing", "missing", "usage", "kind_xyb", "float", "very_deep", "kind_tf", "alpha", "grey", "deep", "unreadable", "unwritable", "in_place"},
		Run:  p28})
}

// runTool runs the command and returns its exit status (-1 if it was killed) and what it printed to standard error.
func runTool(dir string, args ...string) (status int, stderr, stdout string) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("JXV_TOOL"), args...)
	var e, o bytes.Buffer
	cmd.Stderr, cmd.Stdout, cmd.Dir = &e, &o, dir
	err := cmd.Run()
	if cmd.ProcessState == nil {
		return -2, err.Error(), ""
	}
	return cmd.ProcessState.ExitCode(), e.String(), o.String()
}

func p28(t *rt.T) {
	r := t.R
	if os.Getenv("JXV_TOOL") == "" {
		panic("JXV_TOOL names no program")
	}
	dir, err := os.MkdirTemp("", "jxv28.")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "in.jxl"), filepath.Join(dir, "out.png")
	c := genOut(r)
	c.note(t)
	data := c.cs
	if r.P(0.3) {
		data = randContainer(r, c.cs, func(string, int) {})
	}
	mode := r.Pick(0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4)
	bad := false
	switch mode {
	case 1: // an input that does not decode
		switch r.N(3) {
		case 0:
			data = c.cs[:r.N(len(c.cs))]
		case 1:
			data = randBytes(r, r.N(200))
		default:
			data = bytes.Clone(data)
			for k := r.R(1, 8); k > 0; k-- {
				data[r.N(len(data))] = byte(r.N(256))
			}
		}
		_, err := decode(data, nil)
		bad = err != nil
		if !bad {
			return
		}
	}
	var before []byte
	inPlace := mode < 2 && r.P(0.06)
	if inPlace {
		out, before = in, data
		t.Count("in_place", 1)
	} else if r.P(0.4) {
		before = randBytes(r, r.R(1, 4000))
		if err := os.WriteFile(out, before, 0o600); err != nil {
			panic(err)
		}
	}
	if err := os.WriteFile(in, data, 0o600); err != nil {
		panic(err)
	}
	args := []string{"-i", in, "-o", out}
	if r.P(0.3) && !inPlace { // relative names
		args = []string{"-o", "out.png", "-i", "in.jxl"}
	}
	switch mode {
	case 2: // an input that is not there, or cannot be read
		bad = true
		if r.P(0.5) {
			os.Remove(in)
			t.Count("missing", 1)
		} else {
			os.Remove(in)
			os.Mkdir(in, 0o700)
			t.Count("unreadable", 1)
		}
	case 3: // names missing
		bad = true
		k := 2 * r.N(2)
		args = args[k : k+2]
		t.Count("usage", 1)
	}
	if mode == 4 { // an output that cannot be written
		args[slices.Index(args, "-o")+1] = []string{"/dev/full", filepath.Join(dir, "no", "out.png"), dir}[r.N(3)]
		status, stderr, _ := runTool(dir, args...)
		if status <= 0 || strings.Contains(stderr, "panic:") {
			t.Failf("unwritten", "jxltopng %v could not write its output but ended with status %d: %.300s", args, status, stderr)
		}
		t.Count("unwritable", 1)
		return
	}
	if r.P(0.15) && mode < 2 {
		args = append([]string{"-d"}, args...)
		t.Count("debug_runs", 1)
	}
	status, stderr, _ := runTool(dir, args...)
	if strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "goroutine 1 [") || status < 0 {
		t.Failf("crash", "jxltopng %v ended with status %d: %.300s", args, status, stderr)
		return
	}
	now, rerr := os.ReadFile(out)
	if bad {
		t.Count("bad", 1)
		if status == 0 {
			t.Failf("status", "jxltopng %v failed (mode %d) but exits with status 0", args, mode)
			return
		}
		if before != nil {
			t.Count("bad_existing", 1)
			if rerr != nil || !bytes.Equal(now, before) {
				t.Failf("overwritten", "a failed run changed the existing output file (%d bytes before, %d after, %v)", len(before), len(now), rerr)
			}
		} else if rerr == nil {
			t.Failf("left", "a failed run left an output file of %d bytes", len(now))
		}
		return
	}
	t.Count("good", 1)
	if before != nil {
		t.Count("existing", 1)
	}
	if status != 0 || rerr != nil {
		t.Failf("failed", "jxltopng %v on a valid image: status %d, output %v: %.300s", args, status, rerr, stderr)
		return
	}
	if was, err := os.ReadFile(in); !inPlace && (err != nil || !bytes.Equal(was, data)) {
		t.Failf("input", "the input file was changed")
		return
	}
	ch, err := pngChunks(now)
	if err != nil {
		t.Failf("chunks", "malformed PNG: %v", err)
		return
	}
	icc := false
	for _, k := range ch {
		icc = icc || k.typ == "iCCP"
	}
	if want := c.m.CE.ICC && !c.m.XYB && len(c.m.ICC) > 0; icc != want {
		t.Failf("profile", "PNG has chunks %v, image with profile: %v", chunkNames(ch), want)
		return
	}
	if icc {
		t.Count("iccp", 1)
	}
	got, err := png.Decode(bytes.NewReader(now))
	if err != nil {
		t.Failf("decode", "PNG does not decode: %v", err)
		return
	}
	dec, err := decode(data, nil)
	if err != nil {
		t.Failf("error", "valid image rejected: %v", err)
		return
	}
	c.compareShown(t, "png", got, dec)
	files := 2
	if inPlace {
		files = 1
	}
	if l, err := os.ReadDir(dir); err != nil || len(l) != files {
		t.Failf("litter", "the run left %d files where input and output are expected", len(l))
	}
}

func randBytes(r *jx.Rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.N(256))
	}
	return b
}
