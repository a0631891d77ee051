package simrt

// What goes through a text in one statement counts by its length.

var noWork bool

// CountWork switches the counting of work on or off.
func CountWork(on bool) { noWork = !on }

// Work counts n bytes or characters gone through.
//
//go:norace
func Work(n int) {
	k := active
	if k == nil || noWork || k.native && k.self() == nil {
		return
	}
	k.Steps += int64(n / 8)
}

func WorkString(s string) string { Work(len(s)); return s }
func WorkBytes(b []byte) []byte  { Work(len(b)); return b }
func WorkRunes(r []rune) []rune  { Work(len(r)); return r }

// Copy is copy.
func Copy[T []byte | string](d []byte, s T) int {
	n := copy(d, s)
	Work(n)
	return n
}
