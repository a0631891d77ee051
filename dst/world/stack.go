package world

import (
	"io"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/transform"

	"verif.local/dst/model"
)

// mid stands between two layers of a stack and holds them to the contracts of
// io.Reader and io.Writer.
type midReader struct {
	c *ctx
	r io.Reader
}

func (m *midReader) Read(p []byte) (int, error) {
	n, err := m.r.Read(p)
	if n < 0 || n > len(p) {
		m.c.fail("bad-count", "Read of a %d byte buffer returned %d", len(p), n)
	}
	m.c.k.Ev("mid.read", int64(len(p)), int64(n), p[:n], "")
	return n, err
}

type midWriter struct {
	c *ctx
	w io.Writer
}

func (m *midWriter) Write(p []byte) (int, error) {
	before := string(p)
	n, err := m.w.Write(p)
	m.c.k.Ev("mid.write", int64(len(p)), int64(n), nil, "")
	if n < 0 || n > len(p) || n < len(p) && err == nil {
		m.c.fail("bad-count", "Write of %d bytes returned %d, %v", len(p), n, err)
	}
	if string(p) != before {
		m.c.fail("own-arg", "Write modified the caller's data")
	}
	return n, err
}

// rstack: a caller reads through several layers.
func (c *ctx) rstack() {
	o := c.o
	avail := o.Data
	end := error(io.EOF)
	if o.Src.Fail != nil {
		if o.Src.Fail.At < len(avail) {
			avail = avail[:o.Src.Fail.At]
		}
		end = errOf(o.Src.Fail.Kind)
	}
	src := c.newSource(o.Src, o.Data, conv(o.Enc, avail, false))
	var r io.Reader = src
	want := avail
	for _, l := range o.Layers {
		eof := end == io.EOF
		var m *model.Conv
		below := r
		if !o.Bare {
			below = &midReader{c, r}
		}
		switch l {
		case "rd":
			m = model.Decode(want)
			var err error
			if r, err = cp949.NewReader(below); err != nil {
				c.fail("constructor", "NewReader: %v", err)
			}
		case "trd":
			m = model.Decode(want)
			r = transform.NewReader(below, c.newCoder(false).t)
		case "tre":
			m = model.Encode(want, eof)
			r = transform.NewReader(below, c.newCoder(true).t)
		default:
			panic("world: unknown layer " + l)
		}
		if eof && m.Tail > 0 && l != "tre" {
			end = cp949.ErrCP949UnexpectedStream
			c.count("fault: stream truncated inside a character")
		}
		want = m.Out
	}
	c.count("situation: stacked readers")
	t := &tap{c: c, r: r}
	t.drive(o.Style, 0)
	if string(t.out) != string(want) {
		kind := "text"
		if hasPrefix(want, t.out) {
			kind = "text-lost"
		}
		c.fail(kind, "through the layers %v the caller received %s (final error: %v)", o.Layers, diff(t.out, want), t.err)
	}
	if end == io.EOF && t.err != io.EOF || end != io.EOF && !sameErr(t.err, end) {
		c.fail("final-error", "through the layers %v the caller saw %v instead of %v", o.Layers, t.err, end)
	}
}

// wstack: a caller writes through several layers.
func (c *ctx) wstack() {
	o := c.o
	s := c.newSink(o.Sink)
	for i := range s.faults {
		if o.Layers[len(o.Layers)-1] != "wr" && s.faults[i].Kind == "short" {
			s.faults[i].Kind = "full" // x/text's Writer trusts its sink not to be short
		}
	}
	want := o.Data
	cut := false // a layer's text ends inside a character
	for _, l := range o.Layers {
		switch l {
		case "twd":
			m := model.Decode(want)
			cut = cut || m.Tail > 0
			want = m.Out
		case "wr": // keeps an incomplete character
			want = model.Encode(want, false).Out
		default:
			want = model.Encode(want, true).Out
		}
	}
	var w io.Writer = s
	var closers []io.Closer // from the top
	for i := len(o.Layers) - 1; i >= 0; i-- {
		under := w
		if i < len(o.Layers)-1 && !o.Bare {
			under = &midWriter{c, w}
		}
		switch o.Layers[i] {
		case "wr":
			var err error
			if w, err = cp949.NewWriter(under); err != nil {
				c.fail("constructor", "NewWriter: %v", err)
			}
		case "twe", "twd":
			t := transform.NewWriter(under, c.newCoder(o.Layers[i] == "twe").t)
			w = t
			closers = append([]io.Closer{t}, closers...)
		default:
			panic("world: unknown layer " + o.Layers[i])
		}
	}
	c.count("situation: stacked writers")
	in := o.Data
	pos := 0
	var err error
	for i := 0; pos < len(in) && err == nil; i++ {
		c.think(i)
		n := at(o.Seg, i)
		if n > len(in)-pos {
			n = len(in) - pos
		}
		data := append(make([]byte, 0, n+guard), in[pos:pos+n]...)
		var k int
		k, err = w.Write(data)
		e := ""
		if err != nil {
			e = err.Error()
		}
		c.k.Ev("write", int64(n), int64(k), nil, e)
		if string(data) != string(in[pos:pos+n]) {
			c.fail("own-arg", "Write modified the caller's data")
		}
		if o.Own == "scribble" {
			scribble(data[:cap(data)])
		}
		if err == nil && k != n {
			c.fail("count", "Write of %d bytes returned %d, nil", n, k)
		}
		pos += n
	}
	if err == nil {
		for _, x := range closers {
			e := x.Close()
			if err == nil {
				err = e
			}
			if e != nil && !(cut && e == cp949.ErrCP949UnexpectedStream) {
				break
			}
		}
	}
	if cut && !s.failed {
		c.count("fault: stream truncated inside a character")
		if err != cp949.ErrCP949UnexpectedStream {
			c.fail("final-error", "a stream cut inside a character ended with %v under the layers %v", err, o.Layers)
		}
		err = nil
	}
	switch {
	case s.failed:
		if !hasPrefix(want, s.out) {
			c.fail("sink-content", "under the layers %v the failing sink holds %s", o.Layers, diff(s.out, want))
		}
		if !sameErr(err, s.last) && !(cut && err == cp949.ErrCP949UnexpectedStream) {
			c.fail("final-error", "the sink failed with %v but the caller of the layers %v saw %v", s.last, o.Layers, err)
		}
	case err != nil:
		c.fail("spurious-error", "writing through the layers %v failed with %v", o.Layers, err)
	case string(s.out) != string(want):
		c.fail("sink-content", "under the layers %v the sink received %s", o.Layers, diff(s.out, want))
	}
}
