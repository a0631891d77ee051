package plan

import (
	"unicode/utf8"

	"verif.local/dst/model"
)

// Dict is what the library's own text mentions: characters, words and numbers
// its functions compare with. Inputs are drawn with a bias to them, as what is
// decided by a comparison is otherwise seldom met.
type Dict struct {
	Runes []rune   `json:"runes,omitempty"`
	Strs  []string `json:"strs,omitempty"`
	Ints  []int    `json:"ints,omitempty"`
	Codes []int    `json:"codes,omitempty"` // numbers that may be characters' codes
}

// TheDict is set once, before anything is drawn.
var TheDict Dict

// dictInt draws a size, or 0.
func dictInt(r *rng, most int) int {
	l := TheDict.Ints
	if len(l) == 0 {
		return 0
	}
	n := l[r.Intn(len(l))] + []int{0, 0, 0, -1, 1, 2}[r.Intn(6)]
	if n < 1 || n > most || n > 3000 && !r.P(1, 4) {
		return 0
	}
	return n
}

// dictRune draws a character, or 0.
func dictRune(r *rng) rune {
	l := TheDict.Runes
	if len(l) == 0 {
		return 0
	}
	return l[r.Intn(len(l))]
}

// dictText draws a little text in UTF-8.
func dictText(r *rng) []byte {
	if l := TheDict.Strs; len(l) > 0 && r.P(1, 3) {
		return []byte(l[r.Intn(len(l))])
	}
	c := dictRune(r)
	if c == 0 || !utf8.ValidRune(c) {
		return nil
	}
	return utf8.AppendRune(nil, c)
}

// dictCP949 draws a little text in CP949.
func dictCP949(r *rng) []byte {
	if l := TheDict.Codes; len(l) > 0 && r.P(1, 3) {
		c := l[r.Intn(len(l))]
		return []byte{byte(c >> 8), byte(c)}
	}
	var b []byte
	for _, c := range string(dictText(r)) {
		switch {
		case c < 0x80:
			b = append(b, byte(c))
		case model.Encodable(c):
			b = append(b, byte(model.Enc[c]>>8), byte(model.Enc[c]))
		}
	}
	return b
}
