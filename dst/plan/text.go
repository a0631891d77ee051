package plan

import (
	"unicode/utf8"

	"verif.local/dst/model"
	"verif.local/dst/simrt"
)

type rng = simrt.Rng

// weights picks a random emphasis (swarm style): most runs use few classes.
func weights(r *rng, n int) []int {
	w := make([]int, n)
	tot := 0
	for tot == 0 {
		for i := range w {
			if r.P(1, 2) {
				w[i] = r.Intn(6)
			} else {
				w[i] = 0
			}
			tot += w[i]
		}
	}
	return w
}

func pickW(r *rng, w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// chars draws a number of characters.
func chars(r *rng) int {
	if r.P(1, 25) {
		if n := dictInt(r, 9000); n > 0 {
			return n / []int{1, 1, 2, 3}[r.Intn(4)]
		}
	}
	switch k := r.Intn(100); {
	case k < 45:
		return r.Range(0, 8)
	case k < 75:
		return r.Range(4, 40)
	case k < 90:
		return r.Range(30, 300)
	case k < 97:
		return r.Range(200, 1500)
	case k < 99:
		// around the buffer sizes of the standard wrappers
		b := []int{1024, 1365, 2048, 4096, 8192}[r.Intn(5)]
		return b/r.Range(1, 2) + r.Range(-3, 3)
	default:
		return r.Range(1500, 9000)
	}
}

func ascii(r *rng) byte {
	switch r.Intn(8) {
	case 0:
		return '\n'
	case 1:
		return byte(r.Intn(0x20))
	case 2:
		return 0x7f
	case 3:
		return '?'
	}
	return byte(0x20 + r.Intn(0x5f))
}

const hangulFirst, hangulLast = 0xB0A1, 0xC8FE

func code(r *rng, class int) uint16 {
	switch class {
	case 0: // anything defined
		return model.Codes[r.Intn(len(model.Codes))]
	case 1: // KS X 1001 syllables
		for {
			c := uint16(r.Range(0xB0, 0xC8))<<8 | uint16(r.Range(0xA1, 0xFE))
			if model.Dec[c] != 0 {
				return c
			}
		}
	case 2: // second byte in the ASCII range
		for {
			c := uint16(r.Range(0x81, 0xC6))<<8 | uint16(r.Range(0x41, 0x7A))
			if model.Dec[c] != 0 {
				return c
			}
		}
	case 3: // ends of the table and of its rows
		switch r.Intn(4) {
		case 0:
			return model.Codes[r.Intn(4)]
		case 1:
			return model.Codes[len(model.Codes)-1-r.Intn(4)]
		}
		i := r.Intn(len(model.Codes) - 1)
		for i < len(model.Codes)-1 && model.Codes[i+1] == model.Codes[i]+1 {
			i++
		}
		if r.P(1, 2) && i < len(model.Codes)-1 {
			i++
		}
		return model.Codes[i]
	case 4: // hanja and symbols
		for {
			c := uint16(r.Range(0xA1, 0xFD))<<8 | uint16(r.Range(0xA1, 0xFE))
			if model.Dec[c] != 0 && (c < hangulFirst || c > hangulLast) {
				return c
			}
		}
	case 5: // undefined, any
		return model.Undefined[r.Intn(len(model.Undefined))]
	}
	// undefined, near defined ones: lead byte ok, odd second byte
	for {
		c := uint16(r.Range(0x81, 0xFE))<<8 | uint16([]int{0x20, 0x0a, 0x00, 0x40, 0x5b, 0x60, 0x7b, 0x80, 0xff, 0xa0, 0x3f}[r.Intn(11)])
		if model.Dec[c] == 0 {
			return c
		}
	}
}

// GenCP949 draws n characters of CP949 input (undefined codes included unless
// defined is set), ending on a character boundary.
func GenCP949(r *rng, n int, defined bool) []byte {
	w := weights(r, 8)
	if defined {
		w[5], w[6] = 0, 0
		w[1]++
	}
	var b []byte
	known := r.P(1, 6) // with what the library mentions
	for i := 0; i < n; i++ {
		if known && r.P(1, 6) {
			if d := dictCP949(r); !defined || len(d) < 2 || d[0] < 0x80 || model.Dec[uint16(d[0])<<8|uint16(d[1])] != 0 {
				b = append(b, d...)
				continue
			}
		}
		k := pickW(r, w)
		if k == 7 {
			b = append(b, ascii(r))
			continue
		}
		c := code(r, k)
		b = append(b, byte(c>>8), byte(c))
	}
	return b
}

var oddRunes = []rune{0x80, 0x85, 0xa0, 0x100, 0x17f, 0x300, 0x7ff, 0x800, 0x2019, 0xd7a4, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0xffe7, 0xffee, 0x10000, 0x1f600, 0x10ffff, 0x2ac00, 0x1b0a1, 0x10041, 0x100a1, 0x24e00, 0x1f980}

// GenUTF8 draws n characters of UTF-8 input. encodable restricts it to what
// CP949 has, otherwise unencodable characters and invalid bytes are included.
func GenUTF8(r *rng, n int, encodable bool) []byte {
	w := weights(r, 11)
	if encodable {
		w[6], w[7], w[8], w[9] = 0, 0, 0, 0
		w[1]++
	}
	var b []byte
	add := func(c rune) { b = utf8.AppendRune(b, c) }
	known := r.P(1, 6)
	for i := 0; i < n; i++ {
		if known && r.P(1, 6) {
			d, ok := dictText(r), true
			for _, c := range string(d) {
				ok = ok && (!encodable || model.Encodable(c))
			}
			if ok {
				b = append(b, d...)
				continue
			}
		}
		switch k := pickW(r, w); k {
		case 0, 1, 2, 3, 4:
			add(rune(model.Dec[code(r, k)]))
		case 5: // two-byte forms
			for {
				c := rune(r.Range(0xa1, 0x451))
				if model.Enc[c] != 0 {
					add(c)
					break
				}
			}
		case 6:
			add(oddRunes[r.Intn(len(oddRunes))])
		case 7: // any scalar value, biased to those that look encodable in 16 bits
			c := rune(r.Intn(0x110000))
			if r.P(1, 3) {
				// where characters CP949 has and characters it lacks are neighbours
				b := [][2]int{{0x80, 0x17f}, {0x180, 0x4ff}, {0x2000, 0x2bff}, {0x3000, 0x33ff}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0xfe30, 0xffff}}[r.Intn(7)]
				c = rune(r.Range(b[0], b[1]))
			} else if r.P(1, 2) {
				c = rune(r.Range(1, 16))<<16 | rune(model.Dec[code(r, 0)])
			}
			if c >= 0xd800 && c < 0xe000 {
				c = 0xd7ff
			}
			add(c)
		case 8: // invalid bytes that cannot begin a character
			b = append(b, []byte{0x80, 0xbf, 0xc0, 0xc1, 0xf5, 0xfe, 0xff}[r.Intn(7)])
		case 9: // broken sequences
			s := []string{"\xea\xb0", "\xea", "\xf0\x9f\x98", "\xf0\x9f", "\xf0", "\xc2", "\xed\xa0\x80", "\xe0\x80\x80", "\xf4\x90\x80\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80"}
			b = append(b, s[r.Intn(len(s))]...)
		default:
			b = append(b, ascii(r))
		}
	}
	return b
}

// closeUTF8 appends bytes until no incomplete character is at the end.
func closeUTF8(b []byte) []byte {
	if model.Encode(b, false).Tail > 0 {
		b = append(b, '.')
	}
	return b
}

// sizes draws a cyclic list of sizes with many different characters.
func sizes(r *rng, zero bool) []int {
	var s []int
	if r.P(1, 12) {
		if n := dictInt(r, 1<<17); n > 0 {
			if r.P(1, 3) {
				return []int{n, r.Range(1, 9)}
			}
			return []int{n}
		}
	}
	switch r.Intn(8) {
	case 0:
		return []int{1}
	case 1:
		return []int{r.Range(1, 4)}
	case 2:
		s = make([]int, r.Range(1, 6))
		for i := range s {
			s[i] = r.Range(1, 4)
		}
	case 3:
		s = make([]int, r.Range(1, 8))
		for i := range s {
			s[i] = r.Range(1, 40)
		}
	case 4:
		s = []int{(1 << uint(r.Intn(13))) + r.Range(-1, 1)}
		if s[0] < 1 {
			s[0] = 1
		}
	case 5:
		s = []int{1 << 20}
	case 6:
		s = []int{r.Range(1, 3), 1 << uint(r.Range(2, 12))}
	default:
		s = make([]int, r.Range(2, 12))
		for i := range s {
			s[i] = 1 + r.Intn(1<<uint(r.Range(0, 11)))
		}
	}
	if zero && r.P(1, 2) {
		k := r.Range(1, 3)
		for ; k > 0; k-- {
			i := r.Intn(len(s) + 1)
			s = append(s[:i], append([]int{0}, s[i:]...)...)
		}
	}
	return s
}

func gaps(r *rng) []int64 {
	if r.P(1, 2) {
		return nil
	}
	g := make([]int64, r.Range(1, 4))
	for i := range g {
		switch r.Intn(4) {
		case 0:
		case 1:
			g[i] = int64(r.Range(1, 1000))
		case 2:
			g[i] = int64(r.Range(1, 1000)) * 1e6
		default:
			g[i] = int64(r.Range(1, 100)) * 6e10 // minutes
		}
	}
	return g
}
