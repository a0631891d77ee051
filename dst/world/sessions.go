package world

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/transform"

	"verif.local/dst/model"
	"verif.local/dst/plan"
	"verif.local/dst/simrt"
)

const guard = 16

// tap stands between the caller and the reader under test and records what
// really passes, whatever the caller's reading style does with it.
type tap struct {
	c      *ctx
	r      io.Reader
	out    []byte
	err    error // first error
	zeros  int   // consecutive reads of a non-empty buffer that gave nothing
	i      int
	maxBuf int
	pre    func(n int)
	post   func(n, got int, err error)
	use    *use             // of the source
	raw    bool             // hand the caller's own buffer through (styles other than direct)
	again  func(error) bool // the caller tries again after this error
	gaveUp bool             // and gave up in the end
	right  int              // so much of out is known to be right
}

func (t *tap) Read(p []byte) (int, error) {
	c := t.c
	if len(p) > t.maxBuf {
		t.maxBuf = len(p)
	}
	if t.pre != nil {
		t.pre(len(p))
	}
	if c.o.Own == "scribble" {
		// whatever was in the buffer is the caller's business
		scribble(p)
	}
	done := t.use.during()
	n, err := t.r.Read(p)
	done()
	if n < 0 || n > len(p) {
		c.fail("bad-count", "Read of a %d byte buffer returned %d", len(p), n)
	}
	e := ""
	if err != nil {
		e = err.Error()
	}
	c.k.Ev("read", int64(len(p)), int64(n), p[:n], e)
	if t.err != nil && n > 0 {
		c.fail("data-after-end", "a read after the final error %q returned %d more bytes", t.err, n)
	}
	t.out = append(t.out, p[:n]...)
	if t.post != nil {
		t.post(len(p), n, err)
	}
	if err != nil {
		if t.err == nil && (t.again == nil || !t.again(err)) {
			t.err = err
		}
	} else if n == 0 && len(p) > 0 {
		t.zeros++
		if t.zeros > 5000 {
			c.fail("no-progress", "5000 reads in a row returned neither text nor an error")
		}
	} else {
		t.zeros = 0
	}
	return n, err
}

// appender is a destination the stream writes itself to.
type appender struct{ t *tap }

func (a appender) Write(p []byte) (int, error) {
	a.t.c.k.Ev("read", -1, int64(len(p)), p, "")
	a.t.out = append(a.t.out, p...)
	return len(p), nil
}

// direct reads with a buffer of exactly the given size, guarded.
func (t *tap) direct(size int) (int, error) {
	b := make([]byte, size+guard)
	t.c.trackBuf(b)
	for i := size; i < len(b); i++ {
		b[i] = 0xA7
	}
	n, err := t.Read(b[:size])
	for i := size; i < len(b); i++ {
		if b[i] != 0xA7 {
			t.c.fail("own-buf", "Read of a %d byte buffer wrote beyond it", size)
		}
	}
	return n, err
}

func (t *tap) size() int {
	n := at(t.c.o.Buf, t.i)
	t.i++
	if n > 1<<18 {
		n = 1 << 18
	}
	return n
}

func (t *tap) drive(style string, stop int) {
	c := t.c
	switch style {
	case "readall":
		io.ReadAll(t)
	case "readfull":
		for t.err == nil {
			n := t.size()
			if n == 0 {
				continue
			}
			io.ReadFull(t, make([]byte, n))
			c.think(t.i)
		}
	case "copy":
		io.Copy(&bytes.Buffer{}, struct{ io.Reader }{t})
	case "runes":
		b := bufio.NewReaderSize(t, 16+t.size())
		for {
			if _, _, err := b.ReadRune(); err != nil {
				break
			}
		}
	case "lines":
		b := bufio.NewReaderSize(t, 16+t.size())
		for {
			if _, err := b.ReadString('\n'); err != nil {
				break
			}
			c.think(t.i)
			t.i++
		}
	case "onebyte":
		for t.err == nil {
			t.direct(1)
		}
	case "whole":
		defer t.use.during()()
		// io.Copy and its like prefer a WriteTo method where there is one
		_, err := io.Copy(appender{t}, t.r)
		if t.err = err; err == nil {
			t.err = io.EOF
		}
	case "own":
		defer t.use.during()()
		// what fmt.Fscan, text/scanner and others prefer where there is one
		switch r := t.r.(type) {
		case io.RuneReader:
			for t.err == nil {
				var b rune
				var n int
				if b, n, t.err = r.ReadRune(); n > 0 {
					appender{t}.Write(utf8.AppendRune(nil, b))
				}
			}
		case io.ByteReader:
			for t.err == nil {
				var b byte
				if b, t.err = r.ReadByte(); t.err == nil {
					appender{t}.Write([]byte{b})
				}
			}
		default:
			for t.err == nil {
				t.direct(t.size())
				c.think(t.i)
			}
		}
	default:
		for k := 0; t.err == nil && (stop == 0 || k < stop); k++ {
			c.think(t.i)
			t.direct(t.size())
		}
	}
}

// ok: what was received so far is right.
func (t *tap) ok(m *model.Conv) bool {
	n := t.right
	if len(t.out) > len(m.Out) || string(t.out[n:]) != string(m.Out[n:len(t.out)]) {
		return false
	}
	t.right = len(t.out)
	return true
}

// patient: a source that supplies nothing for long is no reason for the caller
// to give the stream up. What it is told then is the reader's business, unless
// it is that the stream has ended; a reader may also stay with what it said.
func (t *tap) patient(src *source) {
	long := 0
	for _, n := range src.s.Stall {
		long = max(long, n)
	}
	if st := t.c.o.Style; long <= 60 || src.s.Endless || st != "direct" && st != "onebyte" && st != "readfull" {
		return
	}
	tries, stuck, reads := 0, 0, -1
	t.again = func(err error) bool {
		if src.over || src.later != nil || err == io.EOF || errors.Is(err, cp949.ErrCP949UnexpectedStream) {
			return false
		}
		if stuck++; src.reads != reads {
			stuck = 0
		}
		reads = src.reads
		if tries++; stuck > 20 || tries > 5000 {
			t.gaveUp = true
			return false
		}
		t.c.count("situation: caller tried again after a source that supplied nothing")
		return true
	}
}

// rd: a caller reads a CP949 stream through the decoding reader.
func (c *ctx) rd() {
	o := c.o
	avail := o.Data
	if o.Src != nil && o.Src.Fail != nil && o.Src.Fail.At < len(avail) {
		avail = avail[:o.Src.Fail.At]
	}
	m := model.Decode(avail)
	src := c.newSource(o.Src, o.Data, m)
	g := c.giveSource(o.Src, src)
	done := g.use.during()
	r, err := cp949.NewReader(g.r)
	done()
	if err != nil {
		c.fail("constructor", "NewReader: %v", err)
	}
	t := &tap{c: c, r: r, use: g.use}
	defer func() { g.after(t.err != nil && (t.err == io.EOF || src.s.Fail == nil && !src.s.Endless)) }()
	c04, c05 := c.prop == "C04", c.prop == "C05"
	reads0 := 0
	hoard := ""
	if c04 {
		t.pre = func(n int) { reads0 = src.reads }
		src.onAsk = func(int) {
			if t.ok(m) && m.OutAt(src.pos) > len(t.out) {
				c.fail("withheld", "the source was asked for more while %d bytes of text of complete characters were undelivered (%d bytes of the stream supplied, %d bytes of text delivered)",
					m.OutAt(src.pos)-len(t.out), src.pos, len(t.out))
			}
			if src.reads-reads0 > 10000 {
				c.fail("polling", "one read made %d source reads without returning", src.reads-reads0)
			}
		}
		t.post = func(n, got int, err error) {
			if n > 0 && got == 0 && err == nil {
				c.fail("empty-result", "a read of a %d byte buffer returned neither text nor an error", n)
			}
			if n == 0 {
				c.count("situation: caller read with an empty buffer")
			}
		}
	}
	if c05 {
		src.onAsk = func(n int) {
			if n > allowance(t.maxBuf) {
				c.fail("read-size", "the source was asked for %d bytes although the caller's largest buffer is %d", n, t.maxBuf)
			}
		}
		t.post = func(int, int, error) {
			if hoard == "" && t.ok(m) {
				held := src.pos - m.SrcOf(len(t.out)).Src
				if held > allowance(t.maxBuf) {
					hoard = "bytes"
					c.note("hoarding", "%d bytes taken from the source are undelivered although the caller's largest buffer is %d", held, t.maxBuf)
				}
			}
		}
	}
	t.patient(src)
	t.drive(o.Style, o.Stop)
	if src.maxP > 0 && c05 {
		c.count("situation: stream read to its end")
	}
	if c05 {
		return
	}
	if t.gaveUp || o.Stop > 0 && t.err == nil { // abandoned
		if !hasPrefix(m.Out, t.out) {
			c.fail("text", "the caller received %s", diff(t.out, m.Out))
		}
		return
	}
	c.judge(t, src, m, cp949.ErrCP949UnexpectedStream)
	if src.s.Endless || c.prop == "C05" {
		return
	}
	// later reads
	for i := 0; i < 3; i++ {
		n, err := t.direct(1 + at(o.Buf, i)%64)
		if n == 0 && err == nil && c.prop == "C02" {
			c.fail("error-not-repeated", "a read after the failure %q returned neither data nor an error", t.err)
		}
		if c.prop == "C02" && src.fired && !sameErr(err, src.final) {
			c.fail("error-not-repeated", "a read after the failure %q returned %v", src.final, err)
		}
	}
	if len(avail) > 1 {
		for i := 1; i < len(m.Units); i++ {
			if m.Units[i].Src-m.Units[i-1].Src == 2 {
				c.count("situation: stream has two-byte characters")
				break
			}
		}
	}
}

func allowance(maxBuf int) int { return 65536 + 8*maxBuf }

// judge compares what a reading caller received with the model.
func (c *ctx) judge(t *tap, src *source, m *model.Conv, trunc error) {
	if string(t.out) != string(m.Out) {
		kind := "text"
		if hasPrefix(m.Out, t.out) {
			kind = "text-lost"
		}
		c.fail(kind, "the caller received %s (final error: %v)", diff(t.out, m.Out), t.err)
	}
	switch {
	case src.s.Endless:
		if t.err == nil || t.err == io.EOF {
			c.fail("final-error", "a source that endlessly supplies nothing ended as %v", t.err)
		}
	case src.s.Fail != nil:
		if !sameErr(t.err, src.final) {
			c.fail("final-error", "the source failed with %q but the caller saw %v", src.final, t.err)
		}
	case m.Tail > 0 && trunc != nil:
		if !errors.Is(t.err, trunc) {
			c.fail("final-error", "a stream cut inside a character ended with %v instead of %q", t.err, trunc)
		}
		c.count("fault: stream truncated inside a character")
	default:
		if t.err != io.EOF {
			c.fail("final-error", "a whole stream ended with %v instead of EOF", t.err)
		}
	}
}

// wr: a caller writes UTF-8 text through the encoding writer, perhaps in
// several lives.
func (c *ctx) wr() {
	o := c.o
	text := o.Data
	m := model.Encode(text, false)
	if m.Tail > 0 {
		panic("world: text of a writer session ends inside a character")
	}
	s := c.newSink(o.Sink)
	g := c.giveSink(o.Sink, s)
	defer func() { g.after(true) }()
	pos, acked, seg, step := 0, 0, 0, 0
	deficit := ""
	writing := 0
	crashes := o.Crash
	finished := false
	for life := 0; ; life++ {
		s.dead, s.crash = false, 0
		bomb := int64(0)
		if life < len(crashes) {
			if crashes[life].At > 0 {
				s.crash = crashes[life].At
			} else {
				bomb = crashes[life].Steps
			}
		}
		start, startOut := pos, len(s.out)
		crashed := c.life(bomb, func() {
			done := g.use.during()
			w, err := cp949.NewWriter(g.w)
			done()
			if err != nil {
				c.fail("constructor", "NewWriter: %v", err)
			}
			retry := 0
			for pos < len(text) {
				n := at(o.Seg, seg)
				seg++
				step++
				if n > len(text)-pos {
					n = len(text) - pos
				}
				if o.Stop > 0 && step > o.Stop {
					return
				}
				if !m.Boundary(pos + n) {
					c.count("situation: write ended inside a character")
				}
				if n == 0 {
					c.count("situation: empty write")
				}
			again:
				c.think(step)
				data := make([]byte, n+guard)
				c.trackBuf(data)
				copy(data, text[pos:pos+n])
				for i := n; i < len(data); i++ {
					data[i] = 0xA7
				}
				writing = pos + n
				before, fired := len(s.out), s.fired
				var k int
				done := g.use.during()
				switch o.Style {
				case "string":
					k, err = io.WriteString(w, string(data[:n]))
				case "copy":
					var k64 int64
					k64, err = io.Copy(w, struct{ io.Reader }{bytes.NewReader(data[:n])})
					k = int(k64)
				default:
					k, err = w.Write(data[:n])
				}
				done()
				g.pull()
				if len(o.Mark) > 0 {
					if n := o.Mark[step%len(o.Mark)]; n > 0 {
						c.count("situation: caller wrote to the sink itself")
						g.mark(bytes.Repeat([]byte{0xFF}, n))
					}
				}
				e := ""
				if err != nil {
					e = err.Error()
				}
				c.k.Ev("write", int64(n), int64(k), nil, e)
				if string(data[:n]) != string(text[pos:pos+n]) {
					c.fail("own-arg", "Write modified the caller's data")
				}
				for i := n; i < len(data); i++ {
					if data[i] != 0xA7 {
						c.fail("own-arg", "Write wrote beyond the caller's data")
					}
				}
				if k < 0 || k > n {
					c.fail("bad-count", "Write of %d bytes returned %d", n, k)
				}
				if o.Own == "scribble" {
					scribble(data)
				}
				if err != nil {
					if s.fired == fired {
						c.fail("spurious-error", "Write returned %v although the sink did not fail", err)
					}
					c.judgeFailedWrite(m, s, pos, n, k)
					took := len(s.out) - before
					if took == 0 && retry < o.Retry {
						retry++
						pos += k
						n -= k
						c.count("situation: write issued again after a failure")
						goto again
					}
					return
				}
				if s.fired != fired {
					c.fail("error-swallowed", "the sink failed (%v) but Write returned %d, nil", s.last, k)
				}
				if k != n {
					c.fail("count", "Write of %d bytes returned %d, nil", n, k)
				}
				pos += n
				acked = pos
				switch c.prop {
				case "C08":
					if len(s.out) < m.OutAt(pos) {
						c.fail("not-durable", "Write acknowledged text up to byte %d, encoded in %d bytes, but the sink holds only %d", pos, m.OutAt(pos), len(s.out))
					}
				case "C05":
					if deficit == "" && len(s.out) < m.OutAt(pos) && hasPrefix(m.Out, s.out) {
						deficit = "write"
					}
				}
			}
			finished = true
		})
		if !crashed {
			break
		}
		c.count("fault: crash")
		if !m.Boundary(acked) {
			c.count("situation: crash with an incomplete character pending")
		}
		// what this life may have written: the text from where it started
		lm := model.Encode(text[start:], false)
		if writing < start {
			writing = start
		}
		upto := m.Out[:startOut+lm.OutAt(writing-start)]
		if !hasPrefix(upto, s.out) {
			c.fail("sink-content", "at the crash the sink held %s", diff(s.out, upto))
		}
		if len(s.out) < m.OutAt(acked) {
			c.fail("not-durable", "after the crash the sink holds %d bytes but text up to byte %d, encoded in %d bytes, had been acknowledged", len(s.out), acked, m.OutAt(acked))
		}
		u := m.SrcOf(len(s.out))
		if u.Out < len(s.out) {
			c.count("situation: torn character cut off before the restart")
		}
		s.out = s.out[:u.Out:u.Out]
		pos = u.Src
	}
	switch {
	case c.prop == "C05":
		if deficit != "" && finished && hasPrefix(m.Out, s.out) {
			c.fail("retained", "after a successful write complete characters had not reached the sink")
		}
		if finished {
			c.count("situation: stream written to its end")
		}
	case finished:
		if string(s.out) != string(m.Out) {
			c.fail("sink-content", "the sink received %s", diff(s.out, m.Out))
		}
	default:
		if !hasPrefix(m.Out, s.out) {
			c.fail("sink-content", "the sink holds %s", diff(s.out, m.Out))
		}
	}
}

// judgeFailedWrite: the count covers nothing the sink did not take, and the
// sink holds a prefix of the encoding of the text so far.
func (c *ctx) judgeFailedWrite(m *model.Conv, s *sink, pos, n, k int) {
	upto := m.Out[:m.OutAt(pos+n)]
	if !hasPrefix(upto, s.out) {
		c.fail("sink-content", "after the failure the sink holds %s", diff(s.out, upto))
	}
	if m.OutAt(pos+k) > len(s.out) {
		c.fail("overclaim", "the failing Write returned %d, covering text encoded in %d bytes, but the sink took only %d", k, m.OutAt(pos+k), len(s.out))
	}
}

// life runs f as one life of the process: it ends early when a crash unwinds it.
func (c *ctx) life(bomb int64, f func()) (crashed bool) {
	defer c.k.Defuse()
	defer func() {
		v := recover()
		if v == nil {
			return
		}
		if k, ok := v.(*simrt.Kill); ok && k.Why == "crash" {
			crashed = true
			c.k.Restart()
			c.k.Ev("crash", 0, 0, nil, "")
			return
		}
		panic(v)
	}()
	if bomb > 0 {
		c.k.Bomb(bomb)
	}
	f()
	return false
}

// coder is a decoder or encoder under test.
type coder struct {
	enc bool
	t   transform.Transformer
	b   func([]byte) ([]byte, error)
	s   func(string) (string, error)
}

func (c *ctx) newCoder(enc bool) *coder {
	e := c.encoding()
	if enc {
		x := e.NewEncoder()
		track(c, aCoder, x)
		return &coder{true, x, x.Bytes, x.String}
	}
	x := e.NewDecoder()
	track(c, aCoder, x)
	return &coder{false, x, x.Bytes, x.String}
}

func conv(enc bool, in []byte, eof bool) *model.Conv {
	if enc {
		return model.Encode(in, eof)
	}
	return model.Decode(in)
}

func (cd *coder) trunc() error {
	if cd.enc {
		return nil
	}
	return cp949.ErrCP949UnexpectedStream
}

// reuse: one coder, several streams, reset in between.
func (c *ctx) reuse() {
	cd := c.newCoder(c.o.Enc)
	all := c.o
	for i, s := range all.Subs {
		c.sub = i
		c.o = s
		if i > 0 {
			c.count("situation: coder reset and used again")
		}
		if i > 0 || s.Reset == "reset" {
			cd.t.Reset()
		}
		if i == 0 {
			c.coder(cd, s, i)
			continue
		}
		h1, v1 := c.observed(func() { c.coder(cd, s, i) })
		n := c.brandNew(all.Enc)
		h2, v2 := c.observed(func() { c.coder(n, s, i) })
		if h1 != h2 {
			how := "as a new one it passes, reused"
			v := v1
			if v == nil {
				how, v = "reused it passes, as a new one", v2
			}
			if v == nil {
				v = &Violation{Msg: "it converts in other steps"}
			}
			c.fail("differs-from-new", "a coder that was reset does not do what a new one does with the same stream: %s: %s", how, v.Msg)
		}
		if v1 != nil {
			// the same with a new one: the comparison has nothing against it
			c.k.Ev("VIOLATION "+v1.Kind, 0, 0, nil, v1.Msg)
			c.w.add(v1)
			panic(abortOp{})
		}
	}
	c.o = all
}

// brandNew is a coder nobody else has anything to do with.
func (c *ctx) brandNew(enc bool) *coder {
	one := c.w.p.OneEnc
	c.w.p.OneEnc = false
	defer func() { c.w.p.OneEnc = one }()
	return c.newCoder(enc)
}

// observed runs f and tells what the caller saw of it: a hash over every call
// and result, and the first violation.
func (c *ctx) observed(f func()) (uint64, *Violation) {
	var soft []*Violation
	c.soft = &soft
	save := c.o
	h := c.t.SwapHash(1)
	func() {
		defer func() {
			c.soft, c.o = nil, save
			switch v := recover().(type) {
			case nil, abortOp:
			case *simrt.Kill:
				panic(v)
			default:
				soft = append(soft, &Violation{Kind: "panic", Msg: fmt.Sprintf("the library panicked: %v", v), Task: c.id, Op: c.op, Sub: c.sub})
			}
		}()
		f()
	}()
	h1 := c.t.SwapHash(h)
	c.k.Ev("observed", int64(h1), int64(len(soft)), nil, "")
	if len(soft) > 0 {
		return h1, soft[0]
	}
	return h1, nil
}

// coder runs one stream session of a decoder or encoder.
func (c *ctx) coder(cd *coder, o *plan.Op, sub int) {
	switch t := cd.t; o.Via {
	case "chain":
		t = transform.Chain(transform.Nop, t, transform.Nop)
		cd = &coder{cd.enc, t, func(b []byte) ([]byte, error) {
			b, _, err := transform.Bytes(t, b)
			return b, err
		}, func(s string) (string, error) {
			s, _, err := transform.String(t, s)
			return s, err
		}}
	case "append":
		cd = &coder{cd.enc, t, func(b []byte) ([]byte, error) {
			out, _, err := transform.Append(t, []byte("before"), b)
			if len(out) < 6 || string(out[:6]) != "before" {
				c.fail("text", "appending the conversion changed what was there before")
			}
			return out[6:], err
		}, cd.s}
	}
	switch o.Kind {
	case "td":
		c.direct(cd, o)
	case "tr":
		c.trReader(cd, o)
	case "tw":
		c.trWriter(cd, o)
	case "tb":
		c.oneShot(cd, o)
	default:
		panic("world: unknown coder op " + o.Kind)
	}
}

// direct drives Transform itself with arbitrary windows.
func (c *ctx) direct(cd *coder, o *plan.Op) {
	in := o.Data
	m := conv(cd.enc, in, true)
	partial := conv(cd.enc, in, false)
	var out []byte
	pos, i := 0, 0
	grow, growSrc := 0, 0
	idle := 0
	for {
		if o.Stop > 0 && i >= o.Stop {
			return
		}
		c.think(i)
		sw, dw := at(o.SrcW, i), at(o.DstW, i)
		i++
		if sw > len(in)-pos {
			sw = len(in) - pos
		}
		if sw += growSrc; sw > len(in)-pos {
			sw = len(in) - pos
		}
		dw += grow
		if dw > 1<<18 {
			dw = 1 << 18
		}
		eof := pos+sw == len(in)
		src := make([]byte, sw+guard)
		c.trackBuf(src)
		copy(src, in[pos:pos+sw])
		for j := sw; j < len(src); j++ {
			src[j] = 0xA7
		}
		dst := make([]byte, dw+guard)
		c.trackBuf(dst)
		for j := range dst {
			dst[j] = 0xA7
		}
		nDst, nSrc, err := cd.t.Transform(dst[:dw], src[:sw], eof)
		e := ""
		if err != nil {
			e = err.Error()
		}
		var made []byte
		if 0 <= nDst && nDst <= dw {
			made = dst[:nDst]
		}
		c.k.Ev("transform", int64(dw)<<32|int64(sw), int64(nDst)<<32|int64(nSrc), made, e)
		if nDst < 0 || nDst > dw || nSrc < 0 || nSrc > sw {
			c.fail("bad-count", "Transform of %d bytes into %d returned nDst=%d nSrc=%d", sw, dw, nDst, nSrc)
		}
		for j := dw; j < len(dst); j++ {
			if dst[j] != 0xA7 {
				c.fail("overrun", "Transform wrote beyond its %d byte destination", dw)
			}
		}
		if string(src[:sw]) != string(in[pos:pos+sw]) {
			c.fail("own-arg", "Transform modified its source")
		}
		if !partial.Boundary(pos + sw) {
			c.count("situation: source window ended inside a character")
		}
		out = append(out, dst[:nDst]...)
		pos += nSrc
		if !hasPrefix(m.Out, out) {
			c.fail("text", "Transform produced %s", diff(out, m.Out))
		}
		if partial.OutAt(pos) > len(out) {
			c.fail("overclaim", "Transform claimed %d bytes of source, converted to %d bytes, but produced only %d", pos, partial.OutAt(pos), len(out))
		}
		if (c.prop == "C09" || c.prop == "C10") && !partial.Between(pos) && !m.Between(pos) {
			c.fail("overclaim", "Transform claimed %d bytes of source, which end inside a character that it cannot have converted", pos)
		}
		if nDst > 0 || nSrc > 0 {
			grow, growSrc, idle = 0, 0, 0
		} else {
			idle++
		}
		switch {
		case err == nil:
			if nSrc != sw {
				c.fail("count", "Transform returned nil after %d of %d source bytes", nSrc, sw)
			}
			if eof {
				if m.Tail > 0 {
					c.fail("final-error", "an input cut inside a character was converted without an error")
				}
				if string(out) != string(m.Out) {
					c.fail("text-lost", "Transform produced %s", diff(out, m.Out))
				}
				return
			}
		case err == transform.ErrShortDst:
			c.count("situation: destination too short")
			if nDst == 0 && nSrc == 0 {
				if n, whole := whole(m, partial, pos, sw, eof); whole && n <= dw {
					c.fail("spurious-short-dst", "Transform asked for more room than %d bytes without converting anything although the next character becomes %d", dw, n)
				}
				if dw >= 16 {
					c.fail("spurious-short-dst", "Transform asked for more room than %d bytes without converting anything", dw)
				}
				grow++
			}
		case err == transform.ErrShortSrc:
			if eof {
				c.fail("short-src-at-eof", "Transform asked for more input at the end of the input")
			}
			c.count("situation: source too short")
			if nDst == 0 && nSrc == 0 {
				if n, whole := whole(m, partial, pos, sw, eof); whole && n <= dw {
					c.fail("spurious-short-src", "Transform asked for more input without converting anything although its %d bytes hold a whole character", sw)
				}
				if sw >= 16 {
					c.fail("spurious-short-src", "Transform asked for more input than %d bytes without converting anything", sw)
				}
				growSrc++
			}
		default:
			if eof && m.Tail > 0 {
				if !errors.Is(err, cp949.ErrCP949UnexpectedStream) {
					c.fail("final-error", "an input cut inside a character ended with %v", err)
				}
				if string(out) != string(m.Out) {
					c.fail("text-lost", "Transform produced %s before reporting truncation", diff(out, m.Out))
				}
				c.count("fault: stream truncated inside a character")
				return
			}
			c.fail("spurious-error", "Transform failed with %v at byte %d of %d", err, pos, len(in))
		}
		if idle > 200 {
			c.fail("no-progress", "200 Transform calls in a row converted nothing")
		}
	}
}

// whole: the window shows the next character whole, and what it becomes has n bytes.
func whole(m, partial *model.Conv, pos, sw int, eof bool) (n int, ok bool) {
	if eof {
		return m.Next(pos, pos+sw, true)
	}
	return partial.Next(pos, pos+sw, false)
}

func (c *ctx) trReader(cd *coder, o *plan.Op) {
	avail, eof := o.Data, true
	if o.Src != nil && o.Src.Fail != nil {
		eof = false
		if o.Src.Fail.At < len(avail) {
			avail = avail[:o.Src.Fail.At]
		}
	}
	m := conv(cd.enc, avail, eof)
	part := conv(cd.enc, avail, false)
	src := c.newSource(o.Src, o.Data, part)
	save := c.o
	c.o = o
	defer func() { c.o = save }()
	g := c.giveSource(o.Src, src)
	t := &tap{c: c, r: transform.NewReader(g.r, cd.t), use: g.use}
	defer func() { g.after(t.err == io.EOF) }()
	t.drive(o.Style, o.Stop)
	if t.err == nil { // abandoned
		if !hasPrefix(m.Out, t.out) {
			c.fail("text", "the caller received %s", diff(t.out, m.Out))
		}
		return
	}
	c.judge(t, src, m, cd.trunc())
}

func (c *ctx) trWriter(cd *coder, o *plan.Op) {
	in := o.Data
	m := conv(cd.enc, in, true)
	part := conv(cd.enc, in, false)
	s := c.newSink(o.Sink)
	g := c.giveSink(o.Sink, s)
	w := transform.NewWriter(g.w, cd.t)
	truncated := m.Tail > 0
	var err error
	pos := 0
	for i := 0; pos < len(in) && err == nil; i++ {
		if o.Stop > 0 && i >= o.Stop {
			if !hasPrefix(m.Out, s.out) {
				c.fail("sink-content", "the sink holds %s", diff(s.out, m.Out))
			}
			return
		}
		if len(o.Think) > 0 {
			c.w.sleep(o.Think[i%len(o.Think)])
		}
		n := at(o.Seg, i)
		if n > len(in)-pos {
			n = len(in) - pos
		}
		if !part.Boundary(pos + n) {
			c.count("situation: write ended inside a character")
		}
		data := append(make([]byte, 0, n+guard), in[pos:pos+n]...)
		c.trackBuf(data)
		var k int
		done := g.use.during()
		k, err = w.Write(data)
		done()
		g.pull()
		e := ""
		if err != nil {
			e = err.Error()
		}
		c.k.Ev("tw.write", int64(n), int64(k), nil, e)
		if string(data) != string(in[pos:pos+n]) {
			c.fail("own-arg", "the write modified the caller's data")
		}
		scribble(data[:cap(data)])
		if err == nil && k != n {
			c.fail("count", "a write of %d bytes returned %d, nil", n, k)
		}
		pos += n
	}
	werr := err
	if err == nil || !s.failed {
		done := g.use.during()
		cerr := w.Close()
		done()
		g.pull()
		if err == nil {
			err = cerr
		}
		c.k.Ev("tw.close", 0, 0, nil, "")
	}
	switch {
	case s.failed:
		if !hasPrefix(m.Out, s.out) {
			c.fail("sink-content", "the failing sink holds %s", diff(s.out, m.Out))
		}
		if !sameErr(err, s.last) {
			c.fail("final-error", "the sink failed with %v but the caller saw %v", s.last, err)
		}
	case truncated && cd.trunc() != nil:
		if string(s.out) != string(m.Out) {
			c.fail("text-lost", "the sink received %s", diff(s.out, m.Out))
		}
		if !errors.Is(err, cd.trunc()) {
			c.fail("final-error", "a stream cut inside a character ended with %v", err)
		}
		c.count("fault: stream truncated inside a character")
	default:
		if err != nil {
			c.fail("spurious-error", "writing failed with %v (write: %v)", err, werr)
		}
		if string(s.out) != string(m.Out) {
			c.fail("sink-content", "the sink received %s", diff(s.out, m.Out))
		}
	}
}

func (c *ctx) oneShot(cd *coder, o *plan.Op) {
	m := conv(cd.enc, o.Data, true)
	var out []byte
	var err error
	if o.Style == "string" {
		var s string
		s, err = cd.s(string(o.Data))
		out = []byte(s)
	} else {
		in := append(make([]byte, 0, len(o.Data)+guard), o.Data...)
		out, err = cd.b(in)
		if string(in) != string(o.Data) {
			c.fail("own-arg", "the conversion modified its input")
		}
		scribble(in[:cap(in)])
	}
	c.k.Ev("oneshot", int64(len(o.Data)), int64(len(out)), out, "")
	if m.Tail > 0 {
		if !errors.Is(err, cp949.ErrCP949UnexpectedStream) {
			c.fail("final-error", "an input cut inside a character ended with %v", err)
		}
		return
	}
	if err != nil {
		c.fail("spurious-error", "the conversion failed with %v", err)
	}
	if string(out) != string(m.Out) {
		c.fail("text", "the conversion returned %s", diff(out, m.Out))
	}
}
