// Package model is the reference model of the conversions: a table taken from
// Python's cp949 codec and the two obvious loops. It shares nothing with the
// code under test.
package model

import (
	_ "embed"
	"sort"
	"unicode/utf8"
)

//go:embed cp949.bin
var raw []byte

// Dec maps a two-byte code to its character, 0 if undefined.
var Dec [1 << 16]uint16

// Enc maps a character of the basic plane to its two-byte code, 0 if none.
var Enc [1 << 16]uint16

// Codes lists the defined codes in order.
var Codes []uint16

// Undefined lists the undefined codes with a lead byte of 0x80 and up.
var Undefined []uint16

func init() {
	for i := 0; i < len(raw)/2; i++ {
		u := uint16(raw[2*i]) | uint16(raw[2*i+1])<<8
		c := uint16(0x8000 + i)
		if u == 0 {
			Undefined = append(Undefined, c)
			continue
		}
		Dec[c] = u
		Enc[u] = c
		Codes = append(Codes, c)
	}
}

// Unit is one converted character: source and output positions before it.
type Unit struct{ Src, Out int }

// Conv is the conversion of a whole input.
type Conv struct {
	In    []byte
	Out   []byte // the complete characters only
	Units []Unit // start of each unit, plus one entry for the end
	Tail  int    // length of an incomplete character at the end of In
	// at[i] is the number of units complete within In[:i]
	at []int32
}

func (c *Conv) unit(n int, out ...byte) {
	c.Out = append(c.Out, out...)
	last := c.Units[len(c.Units)-1]
	for j := 1; j < n; j++ {
		c.at = append(c.at, c.at[len(c.at)-1])
	}
	c.at = append(c.at, int32(len(c.Units)))
	c.Units = append(c.Units, Unit{last.Src + n, len(c.Out)})
}

func newConv(in []byte) *Conv {
	return &Conv{In: in, Units: []Unit{{0, 0}}, at: []int32{0}}
}

func (c *Conv) finish(tail int) *Conv {
	c.Tail = tail
	for j := 0; j < tail; j++ {
		c.at = append(c.at, c.at[len(c.at)-1])
	}
	return c
}

// Decode converts CP949 to UTF-8. A lone lead byte at the end is the Tail.
func Decode(in []byte) *Conv {
	c := newConv(in)
	for i := 0; i < len(in); {
		if in[i] < 0x80 {
			c.unit(1, in[i])
			i++
			continue
		}
		if i+1 == len(in) {
			return c.finish(1)
		}
		r := rune(Dec[uint16(in[i])<<8|uint16(in[i+1])])
		if r == 0 {
			r = 0xFFFD
		}
		var b [4]byte
		n := utf8.EncodeRune(b[:], r)
		c.unit(2, b[:n]...)
		i += 2
	}
	return c.finish(0)
}

// known corrects at for UTF-8: a byte sequence that turns out to be broken is
// not known to be before the byte that breaks it.
func (c *Conv) known() *Conv {
	u := 0 // first unit whose start is above n-4
	for n := range c.at {
		for u < len(c.Units)-1 && c.Units[u].Src <= n-utf8.UTFMax {
			u++
		}
		for i := u; i < len(c.Units)-1 && c.Units[i].Src < n; i++ {
			if !utf8.FullRune(c.In[c.Units[i].Src:n]) {
				c.at[n] = int32(i)
				break
			}
		}
	}
	return c
}

// Encode converts UTF-8 to CP949, '?' for what cannot be encoded. A prefix of
// a character at the end is the Tail (atEOF: '?' per byte of it).
func Encode(in []byte, atEOF bool) *Conv {
	c := newConv(in)
	for i := 0; i < len(in); {
		if in[i] < 0x80 {
			c.unit(1, in[i])
			i++
			continue
		}
		if !atEOF && !utf8.FullRune(in[i:]) {
			return c.finish(len(in) - i).known()
		}
		r, n := utf8.DecodeRune(in[i:])
		var code uint16
		if r < 0x10000 && !(r == utf8.RuneError) {
			code = Enc[r]
		}
		if code == 0 {
			c.unit(n, '?')
		} else {
			c.unit(n, byte(code>>8), byte(code))
		}
		i += n
	}
	return c.finish(0).known()
}

// OutAt is the length of the output of the characters complete within In[:n].
func (c *Conv) OutAt(n int) int { return c.Units[c.at[n]].Out }

// UnitAt is the number of characters complete within In[:n].
func (c *Conv) UnitAt(n int) int { return int(c.at[n]) }

// Boundary tells whether n is a character boundary of In.
func (c *Conv) Boundary(n int) bool { return c.Units[c.at[n]].Src == n }

// Between tells whether n is between two characters of In, known or not.
func (c *Conv) Between(n int) bool {
	k := sort.Search(len(c.Units), func(i int) bool { return c.Units[i].Src >= n })
	return k < len(c.Units) && c.Units[k].Src == n
}

// Next looks at the character that starts at source position pos: whether it is
// known whole within In[:end] (end of input: eof) and the length of its output.
func (c *Conv) Next(pos, end int, eof bool) (out int, whole bool) {
	k := sort.Search(len(c.Units), func(i int) bool { return c.Units[i].Src >= pos })
	if k >= len(c.Units)-1 || c.Units[k].Src != pos {
		return 0, false
	}
	if !(eof && end == len(c.In)) && int(c.at[end]) < k+1 {
		return 0, false
	}
	return c.Units[k+1].Out - c.Units[k].Out, true
}

// SrcOf is the source position reached when out bytes of Out (possibly ending
// inside a character) have been produced: the start of the first character
// not whole in Out[:out], and its output position.
func (c *Conv) SrcOf(out int) Unit {
	lo, hi := 0, len(c.Units)-1
	for lo < hi {
		m := (lo + hi + 1) / 2
		if c.Units[m].Out <= out {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return c.Units[lo]
}

// Encodable tells whether CP949 has the character.
func Encodable(r rune) bool { return r < 0x80 && r >= 0 || r < 0x10000 && r > 0 && Enc[r] != 0 }
