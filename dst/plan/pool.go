package plan

import (
	"unicode/utf8"

	"verif.local/dst/model"
	"verif.local/dst/simrt"
)

var byteFuncs = []string{"cp949.From", "cp949.To", "Decoder.Bytes", "Encoder.Bytes", "Decoder.String", "Encoder.String"}
var strFuncs = []string{"EndsWithConsonant", "LastConsonant", "AppendPostposition", "hanja.Convert"}
var runeFuncs = []string{"IsHangul", "Split", "SplitCompat", "IsLead", "IsMedial", "IsTail", "IsJaeum", "IsMoeum", "SplitMultiElement", "CompatJamo", "Lead", "Medial", "Tail", "Stroke", "hanja.IsHanja"}

var postpos = [][2]string{{"이", "가"}, {"은", "는"}, {"을", "를"}, {"으로", "로"}, {"이랑", "랑"}, {"과", "와"}, {"으로", "으로"}, {"", ""}}

// edges are the first and last of what the functions tell apart.
var edges = []rune{0xAC00, 0xD7A3, 0xABFF, 0xD7A4, 0x3131, 0x314E, 0x314F, 0x3163, 0x1100, 0x1112, 0x1113, 0x1161, 0x1175, 0x1176, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0x4E00, 0x9FFF, 0xF900, 0xFAFF, 0x10FFFF, 0, -1}

func someRune(r *rng) rune {
	switch r.Intn(25) {
	case 0, 1:
		if c := dictRune(r); c != 0 {
			return c
		}
	case 2:
		return edges[r.Intn(len(edges))]
	}
	switch r.Intn(10) {
	case 0, 1, 2:
		return rune(r.Range(0xAC00, 0xD7A3))
	case 3, 4:
		return rune(r.Range(0x3130, 0x3164))
	case 5, 6:
		return rune(r.Range(0x10FE, 0x11C4))
	case 7:
		return rune(r.Range(0x4E00, 0x9FFF))
	case 8:
		return rune(model.Dec[code(r, 4)])
	}
	return rune(r.Intn(0x250))
}

// GenPool draws families of related calls: the same function and arguments that
// share a prefix, a length, a last character, low 16 bits, and so on, so that a
// result that leaks from one call into another has somewhere to leak to.
func GenPool(seed uint64, families int) *Pool {
	r := simrt.NewRng(simrt.Mix(seed, 0xb001))
	p := &Pool{Want: map[string]string{}}
	for i := 0; i < families; i++ {
		var f []*Call
		switch r.Intn(4) {
		case 0, 1: // one rune
			fn := []string{runeFuncs[r.Intn(len(runeFuncs))], runeFuncs[r.Intn(len(runeFuncs))]}
			if r.P(1, 4) {
				fn = []string{"Stroke", "SplitMultiElement"}
			}
			c := someRune(r)
			for _, d := range []rune{0, 0x10000, 0x20000, 1, -1, 28, 588, 0x100, -0x10000, 32, 0x40, 0x400, 0x1000, -0x1000} {
				for _, n := range fn {
					if d == 0 || r.P(1, 2) {
						f = append(f, &Call{F: n, R: [3]rune{c + d}})
					}
				}
			}
			if r.P(1, 2) {
				for k := 0; k < 6; k++ {
					f = append(f, &Call{F: fn[0], R: [3]rune{someRune(r)}})
				}
			}
		case 2: // Join and strings
			if r.P(1, 4) {
				l, m, t := rune(r.Range(0x10ff, 0x1113)), rune(r.Range(0x1160, 0x1176)), rune(r.Range(0x11a7, 0x11c3))
				for k := 0; k < 8; k++ {
					a := [3]rune{l, m, t}
					if r.P(1, 4) {
						a = [3]rune{[]rune{l, 0x1100, 0x1112}[r.Intn(3)], []rune{m, 0x1161, 0x1175}[r.Intn(3)], []rune{t, 0, 0x11a8, 0x11c2}[r.Intn(4)]}
					}
					switch r.Intn(6) {
					case 5:
						if c := dictRune(r); c != 0 {
							a[r.Intn(3)] = c
						}
					case 0:
						a[r.Intn(3)] = 0
					case 1:
						a[r.Intn(3)] += 0x10000
					case 2:
						a[r.Intn(3)] = rune(r.Range(0x3131, 0x3163))
					case 3:
						a[0], a[2] = a[2], a[0]
					}
					f = append(f, &Call{F: "Join", R: a})
				}
				break
			}
			fn := strFuncs[r.Intn(len(strFuncs))]
			base := words(r)
			if fn == "hanja.Convert" && r.P(2, 3) {
				base = ""
				for n := r.Range(1, 8); n > 0; n-- {
					base += string([]rune{rune(model.Dec[code(r, 4)]), rune(r.Range(0x4E00, 0x9FFF)), someRune(r)}[r.Intn(8)*3/10])
				}
			}
			for k := 0; k < 10; k++ {
				w := variant(r, base)
				c := &Call{F: fn, X: []byte(w)}
				if fn == "AppendPostposition" {
					pp := postpos[r.Intn(len(postpos))]
					c.B, c.C = pp[0], pp[1]
				}
				f = append(f, c)
			}
		default: // byte conversions
			fn := []string{byteFuncs[r.Intn(len(byteFuncs))], byteFuncs[r.Intn(len(byteFuncs))]}
			n := r.Range(0, 12)
			if r.P(1, 6) {
				n = r.Range(20, 120)
			}
			if r.P(1, 15) {
				n = []int{512, 1024, 2048, 4096, 8192, 11000}[r.Intn(6)] + r.Range(-2, 2)
			}
			if r.P(1, 15) {
				if k := dictInt(r, 11000); k > 0 {
					n = k
				}
			}
			a, b := GenCP949(r, n, false), GenUTF8(r, n, false)
			for k := 0; k < 10; k++ {
				var x []byte
				if r.P(1, 2) {
					x = mutate(r, a)
				} else {
					x = mutate(r, b)
				}
				if len(x) > 40000 {
					x = x[:40000] // calls are passed in the environment
				}
				f = append(f, &Call{F: fn[r.Intn(2)], X: x})
			}
		}
		for _, c := range f {
			if len(c.X) > 0 {
				c.Fix()
			}
		}
		p.Calls = append(p.Calls, f)
	}
	return p
}

// words draws a short text mixing Hangul, hanja and others.
func words(r *rng) string {
	var b []byte
	for n := r.Range(1, 12); n > 0; n-- {
		if r.P(1, 25) {
			b = append(b, dictText(r)...)
		}
		b = utf8.AppendRune(b, someRune(r))
	}
	return string(b)
}

func variant(r *rng, s string) string {
	rs := []rune(s)
	switch r.Intn(10) {
	case 0:
		return s
	case 7, 8: // much the same bytes
		i := len(rs) - 1
		if r.P(1, 3) {
			i = r.Intn(len(rs))
		}
		d := []rune{0x40, 0x100, 0x1000, 0x2000, 28, 588, 1}[r.Intn(7)]
		if r.P(1, 2) {
			d = -d
		}
		if c := rs[i] + d; utf8.RuneLen(c) == utf8.RuneLen(rs[i]) {
			rs[i] = c
		}
		return string(rs)
	case 9: // the same characters
		i, j := r.Intn(len(rs)), r.Intn(len(rs))
		rs[i], rs[j] = rs[j], rs[i]
		return string(rs)
	case 1:
		return string(rs[:r.Intn(len(rs)+1)])
	case 2:
		return string(rs[r.Intn(len(rs)):])
	case 3:
		rs[len(rs)-1] = someRune(r)
		return string(rs)
	case 4:
		rs[r.Intn(len(rs))] = someRune(r)
		return string(rs)
	case 5:
		return s + string([]rune{someRune(r)})
	}
	return words(r)
}

func mutate(r *rng, b []byte) []byte {
	c := append([]byte(nil), b...)
	switch r.Intn(8) {
	case 0:
	case 6: // the same bytes
		if len(c) > 1 {
			i, j := r.Intn(len(c)), r.Intn(len(c))
			c[i], c[j] = c[j], c[i]
		}
	case 7:
		if len(c) > 0 {
			c[r.Intn(len(c))] ^= 1 << r.Intn(8)
		}
	case 1:
		c = c[:r.Intn(len(c)+1)]
	case 2:
		if len(c) > 0 {
			c[r.Intn(len(c))] = byte(r.Next())
		}
	case 3:
		c = append(c, b...)
	case 4:
		if len(c) > 0 {
			c = c[r.Intn(len(c)):]
		}
	default:
		c = append(c, ascii(r))
	}
	return c
}
