package model

import (
	"testing"

	"verif.local/dst/simrt"
)

func TestKnown(t *testing.T) {
	r := simrt.NewRng(1)
	al := []byte{0xea, 0xb0, 0x80, 'a', 0xf0, 0x9f, 0x98, 0xc2, 0xff, 0xed}
	for i := 0; i < 20000; i++ {
		b := make([]byte, r.Intn(9))
		for j := range b {
			b[j] = al[r.Intn(len(al))]
		}
		for _, eof := range []bool{false, true} {
			m := Encode(b, eof)
			for n := 0; n <= len(b); n++ {
				p := Encode(b[:n], false)
				if m.OutAt(n) != len(p.Out) || m.Boundary(n) != (p.Tail == 0) {
					t.Fatalf("%x at %d: %d %d", b, n, m.OutAt(n), len(p.Out))
				}
			}
		}
	}
}
