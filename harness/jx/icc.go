package jx

// OnICC, when set, is told how each profile was encoded.
var OnICC func(ICCStats)

// WriteICC writes the entropy-coded ICC stream for a profile.
func WriteICC(w *BitWriter, r *Rng, icc []byte) {
	enc, st := EncodeICCStats(r, icc)
	if OnICC != nil {
		OnICC(st)
	}
	WriteICCStream(w, r, enc)
}

// WriteICCStream entropy codes the already command-encoded ICC bytes.
func WriteICCStream(w *BitWriter, r *Rng, enc []byte) {
	w.U64(uint64(len(enc)))
	toks := make([]Tok, len(enc))
	for i, b := range enc {
		toks[i] = Tok{iccCtx(enc, i), uint32(b)}
	}
	e, syms := BuildEnt(r, 41, []TokSection{{Toks: toks}}, EntOpts{})
	e.WriteHeader(w)
	e.WriteSyms(w, syms[0])
}

func iccKind1(b byte) int {
	switch {
	case b >= 'a' && b <= 'z', b >= 'A' && b <= 'Z':
		return 0
	case b >= '0' && b <= '9', b == '.', b == ',':
		return 1
	case b <= 1:
		return 2 + int(b)
	case b > 1 && b < 16:
		return 4
	case b > 240 && b < 255:
		return 5
	case b == 255:
		return 6
	}
	return 7
}

func iccKind2(b byte) int {
	switch {
	case b >= 'a' && b <= 'z', b >= 'A' && b <= 'Z':
		return 0
	case b >= '0' && b <= '9', b == '.', b == ',':
		return 1
	case b < 16:
		return 2
	case b > 240:
		return 3
	}
	return 4
}

func iccCtx(enc []byte, i int) int {
	if i <= 128 {
		return 0
	}
	return 1 + iccKind1(enc[i-1]) + 8*iccKind2(enc[i-2])
}

func iccVarint(v uint64) []byte {
	var o []byte
	for v >= 128 {
		o = append(o, byte(v&127)|128)
		v >>= 7
	}
	return append(o, byte(v))
}

// iccPredHeader is the predicted value of header byte i given the bytes before it.
func iccPredHeader(icc []byte, i int) byte {
	n := uint32(len(icc))
	h := make([]byte, 128)
	copy(h, []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	h[8] = 4
	copy(h[12:], "mntrRGB XYZ ")
	copy(h[36:], "acsp")
	h[70], h[71], h[73], h[78], h[79] = 0xf6, 0xd6, 1, 0xd3, 0x2d
	if i >= 80 && i < 84 {
		return icc[4+i-80]
	}
	if i >= 41 && i <= 43 {
		switch icc[40] {
		case 'A':
			copy(h[41:], "PPL")
		case 'M':
			copy(h[41:], "SFT")
		case 'S':
			if i > 41 && icc[41] == 'G' {
				copy(h[42:], "I ")
			} else if i > 41 && icc[41] == 'U' {
				copy(h[42:], "NW")
			}
		}
	}
	return h[i]
}

var iccTags = []string{"cprt", "wtpt", "bkpt", "rXYZ", "gXYZ", "bXYZ", "kXYZ", "rTRC", "gTRC", "bTRC", "kTRC", "chad", "desc", "chrm", "dmnd", "dmdd", "lumi"}
var iccTypes = []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}

func be32at(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}

func put32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// iccShuffleInv lays out bytes so that the decoder's shuffle restores them.
func iccShuffleInv(b []byte, width int) []byte {
	o := make([]byte, len(b))
	h := ceilDiv(len(b), width)
	s, j := 0, 0
	for i := range b {
		o[j] = b[i]
		j += h
		if j >= len(b) {
			s++
			j = s
		}
	}
	return o
}

// ICCStats records which commands an encoding used.
type ICCStats map[string]int

// EncodeICC produces the command-coded form of a profile, choosing randomly among the valid encodings.
func EncodeICC(r *Rng, icc []byte) []byte { o, _ := EncodeICCStats(r, icc); return o }

func EncodeICCStats(r *Rng, icc []byte) ([]byte, ICCStats) {
	st := ICCStats{}
	var cmd, data []byte
	hn := min(128, len(icc))
	for i := 0; i < hn; i++ {
		data = append(data, icc[i]-iccPredHeader(icc, i))
	}
	pos := hn
	if len(icc) > 128 {
		ok := false
		if len(icc) >= 132 && r.P(0.85) {
			nt := be32at(icc, 128)
			if nt < 100 && 132+int(nt)*12 <= len(icc) {
				ok = true
				st["tags"]++
				cmd = append(cmd, iccVarint(uint64(nt)+1)...)
				pos = 132
				prevS, prevZ := 128+nt*12, uint32(0)
				for k := 0; k < int(nt); {
					e := icc[pos:]
					tag := string(e[:4])
					s, z := be32at(e, 4), be32at(e, 8)
					code, used := 1, 1
					for q, n := range iccTags {
						if n == tag && r.P(0.95) {
							code = q + 4
						}
					}
					if k+3 <= int(nt) && r.P(0.9) {
						n1, s1, z1 := string(e[12:16]), be32at(e, 16), be32at(e, 20)
						n2, s2, z2 := string(e[24:28]), be32at(e, 28), be32at(e, 32)
						if tag == "rTRC" && n1 == "gTRC" && n2 == "bTRC" && s1 == s && s2 == s && z1 == z && z2 == z {
							code, used = 2, 3
						}
						if tag == "rXYZ" && n1 == "gXYZ" && n2 == "bXYZ" && s1 == s+z && s2 == s+2*z && z1 == z && z2 == z {
							code, used = 3, 3
						}
					}
					ps, pz := prevS+prevZ, prevZ
					switch tag {
					case "rXYZ", "gXYZ", "bXYZ", "kXYZ", "wtpt", "bkpt", "lumi":
						pz = 20
					}
					c := byte(code)
					if s != ps || r.P(0.05) {
						c |= 64
					}
					if z != pz || r.P(0.05) {
						c |= 128
					}
					if fault("icc-tag") { // a code without a tag
						c = c&^63 | byte(21+(len(cmd)+int(c))%43)
					}
					cmd = append(cmd, c)
					if code == 1 {
						data = append(data, tag...)
					}
					if c&64 != 0 {
						cmd = append(cmd, iccVarint(uint64(s))...)
						st["tagoff"]++
					}
					if c&128 != 0 {
						cmd = append(cmd, iccVarint(uint64(z))...)
						st["tagsize"]++
					}
					st["tag"+string(rune('0'+min(code, 4)))]++
					prevS, prevZ = s, z
					pos += 12 * used
					k += used
				}
				if pos < len(icc) || r.Bool() {
					cmd = append(cmd, 0)
				}
			}
		}
		if !ok {
			cmd = append(cmd, 0)
			st["notags"]++
		}
	}
	for pos < len(icc) {
		rest := icc[pos:]
		if len(rest) >= 8 && r.P(0.9) && be32at(rest, 4) == 0 {
			if string(rest[:4]) == "XYZ " && len(rest) >= 20 && r.P(0.7) {
				cmd = append(cmd, 10)
				data = append(data, rest[8:20]...)
				pos += 20
				st["xyz"]++
				continue
			}
			hit := false
			for q, n := range iccTypes {
				if n == string(rest[:4]) {
					cmd = append(cmd, byte(16+q))
					st["type"]++
					hit = true
				}
			}
			if hit {
				pos += 8
				continue
			}
		}
		if fault("icc-command") {
			cmd = append(cmd, []byte{5, 9, 11, 15, 24, 200}[pos%6])
		}
		n := r.R(1, 40)
		if r.P(0.1) {
			n = r.R(41, 300)
		}
		n = min(n, len(rest))
		// stop at the next type start to give it a chance
		for k := 1; k+8 <= len(rest) && k < n; k++ {
			if be32at(rest, k+4) == 0 && rest[k] >= 'X' {
				for _, t := range iccTypes {
					if string(rest[k:k+4]) == t {
						n = k
					}
				}
			}
		}
		b := rest[:n]
		switch c := r.R(1, 4); c {
		case 1:
			cmd = append(append(cmd, 1), iccVarint(uint64(n))...)
			data = append(data, b...)
			st["insert"]++
		case 2, 3:
			cmd = append(append(cmd, byte(c)), iccVarint(uint64(n))...)
			data = append(data, iccShuffleInv(b, []int{0, 0, 2, 4}[c])...)
			st["shuffle"+string(rune('0'+c))]++
		case 4:
			width := r.Pick(1, 2, 4)
			order := r.R(0, 2)
			stride := width
			fl := byte(width-1) | byte(order<<2)
			if r.Bool() {
				stride = r.R(width, 24)
				fl |= 16
			}
			if stride*4 >= pos {
				continue
			}
			switch {
			case fault("icc-width"):
				cmd = append(cmd, 4, fl&^3|2)
			case fault("icc-order"):
				cmd = append(cmd, 4, fl|12)
			default:
				cmd = append(cmd, 4, fl)
			}
			if fl&16 != 0 {
				st := uint64(stride)
				if fault("icc-stride-large") {
					st = uint64(pos/4 + 1)
				} else if width > 1 && fault("icc-stride-small") {
					st = uint64(width - 1)
				}
				cmd = append(cmd, iccVarint(st)...)
			}
			cmd = append(cmd, iccVarint(uint64(n))...)
			res := make([]byte, n)
			for i := 0; i < n; i++ {
				base := pos + i/width*width
				pv := func(k int) uint32 {
					var v uint32
					for q := 0; q < width; q++ {
						v = v<<8 | uint32(icc[base-stride*k+q])
					}
					return v
				}
				var p uint32
				switch order {
				case 0:
					p = pv(1)
				case 1:
					p = 2*pv(1) - pv(2)
				case 2:
					p = 3*pv(1) - 3*pv(2) + pv(3)
				}
				res[i] = b[i] - byte(p>>uint(8*(width-1-i%width)))
			}
			if width > 1 {
				res = iccShuffleInv(res, width)
			}
			data = append(data, res...)
			st["predict"]++
		}
		pos += n
	}
	n, nc := len(icc), len(cmd)
	switch {
	case fault("icc-longer"):
		n++
	case n > 129 && fault("icc-shorter"):
		n--
	case fault("icc-commands"):
		nc = len(cmd) + len(data) + 1
	}
	o := iccVarint(uint64(n))
	o = append(o, iccVarint(uint64(nc))...)
	o = append(o, cmd...)
	return append(o, data...), st
}

// GenICC makes a synthetic profile of plausible structure.
func GenICC(r *Rng) []byte {
	h := make([]byte, 128)
	copy(h[4:], []string{"lcms", "appl", "ADBE", "\x00\x00\x00\x00"}[r.N(4)])
	h[8] = byte(r.Pick(2, 4))
	copy(h[12:], []string{"mntrRGB XYZ ", "scnrGRAYLab ", "prtrRGB Lab "}[r.N(3)])
	for i := 24; i < 36; i++ {
		h[i] = byte(r.N(256))
	}
	copy(h[36:], "acsp")
	copy(h[40:], []string{"APPL", "MSFT", "SGI ", "SUNW", "\x00\x00\x00\x00", "SXYZ", "TGNT"}[r.N(7)])
	h[70], h[71], h[73], h[78], h[79] = 0xf6, 0xd6, 1, 0xd3, 0x2d
	copy(h[80:], h[4:8])
	for r.P(0.4) {
		h[4+r.N(124)] = byte(r.N(256))
	}
	if r.P(0.06) {
		return h[:r.R(1, 128)]
	}
	type tag struct {
		n    string
		s, z uint32
	}
	var tags []tag
	var body []byte
	n := r.R(0, 12)
	// plan names
	var names []string
	for len(names) < n {
		switch r.N(5) {
		case 0:
			names = append(names, "rTRC", "gTRC", "bTRC")
		case 1:
			names = append(names, "rXYZ", "gXYZ", "bXYZ")
		case 2:
			names = append(names, "zz"+string(rune('a'+r.N(26)))+"q")
		default:
			names = append(names, iccTags[r.N(len(iccTags))])
		}
	}
	base := uint32(132 + 12*len(names))
	share := false
	for i, nm := range names {
		if (nm == "gTRC" || nm == "bTRC") && i > 0 && (nm == "bTRC" && share || nm == "gTRC" && names[i-1] == "rTRC" && r.P(0.7)) {
			share = true
			tags = append(tags, tag{nm, tags[i-1].s, tags[i-1].z})
			continue
		}
		share = false
		var el []byte
		ty := iccTypes[r.N(8)]
		if len(nm) == 4 && nm[1:] == "XYZ" || nm == "wtpt" || nm == "bkpt" || nm == "lumi" {
			ty = "XYZ "
		} else if nm[1:] == "TRC" {
			ty = "curv"
		}
		el = append(el, ty...)
		el = append(el, 0, 0, 0, 0)
		ln := r.R(4, 200)
		if ty == "XYZ " {
			ln = 12
		}
		v, dv := r.N(65536), r.N(300)
		for k := 0; k < ln; k++ {
			switch ty {
			case "curv":
				if k%2 == 0 {
					v += dv
					el = append(el, byte(v>>8), byte(v))
				}
			case "text", "desc", "mluc":
				el = append(el, byte(r.R(32, 126)))
			default:
				el = append(el, byte(r.Pick(0, 0, r.N(256))))
			}
		}
		for len(el)%4 != 0 && r.P(0.9) {
			el = append(el, 0)
		}
		tags = append(tags, tag{nm, base + uint32(len(body)), uint32(len(el))})
		body = append(body, el...)
	}
	out := append(h, put32(uint32(len(tags)))...)
	for _, t := range tags {
		out = append(out, t.n...)
		out = append(out, put32(t.s)...)
		out = append(out, put32(t.z)...)
	}
	out = append(out, body...)
	if r.P(0.7) {
		copy(out, put32(uint32(len(out))))
	}
	return out
}
