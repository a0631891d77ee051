package world

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"verif.local/dst/plan"
	"verif.local/dst/simrt"
	"verif.local/dst/simsync"
)

// What a source or sink is besides an io.Reader or io.Writer: of which type,
// with which further methods. The simulated ones (plan.SrcKinds, plan.SinkKinds)
// fail and delay as scripted; the others (plan.SrcTypes, plan.SinkTypes) are
// the real types of the standard library.

// use is the time a stream may use what it was given.
type use struct {
	c    *ctx
	what string
	open int // operations of the stream in progress
	busy int
	on   bool
}

//go:norace
func (u *use) enter() {
	if !u.on {
		return
	}
	if u.open == 0 {
		u.c.note("unasked", "the stream used its %s while its caller had no operation in progress", u.what)
	}
	if u.busy > 0 {
		u.c.note("overlapping", "the stream used its %s while an earlier use was still in progress", u.what)
	}
	u.busy++
}

//go:norace
func (u *use) leave() {
	if u.on {
		u.busy--
	}
}

// during opens the use for one operation.
//
//go:norace
func (u *use) during() func() {
	if u == nil {
		return func() {}
	}
	u.open++
	return func() { u.shut() }
}

//go:norace
func (u *use) shut() { u.open-- }

func (u *use) did(what string) {
	simrt.Y()
	u.c.note("disturbed", "the stream %s its %s", what, u.what)
}

// ---- further methods

type mClose struct{ u *use }

func (m mClose) Close() error { m.u.did("closed"); return nil }

type mCloseMore struct{ u *use }

func (m mCloseMore) CloseWithError(error) error { m.u.did("closed"); return nil }
func (m mCloseMore) CloseRead() error           { m.u.did("closed"); return nil }
func (m mCloseMore) CloseWrite() error          { m.u.did("closed"); return nil }

type mDeadline struct{ u *use }

func (m mDeadline) SetDeadline(time.Time) error      { m.u.did("set a deadline on"); return nil }
func (m mDeadline) SetReadDeadline(time.Time) error  { m.u.did("set a deadline on"); return nil }
func (m mDeadline) SetWriteDeadline(time.Time) error { m.u.did("set a deadline on"); return nil }
func (m mDeadline) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (m mDeadline) RemoteAddr() net.Addr             { return &net.TCPAddr{} }

type mWrite struct{ u *use }

func (m mWrite) Write(p []byte) (int, error) { m.u.did("wrote to"); return len(p), nil }

type mRead struct{ u *use }

func (m mRead) Read(p []byte) (int, error) { m.u.did("read from"); return 0, io.EOF }

// mPipe is what a pipe or terminal opened as a file is: it has the methods and
// they fail.
type mPipe struct{}

func (mPipe) Seek(int64, int) (int64, error) {
	return 0, &fs.PathError{Op: "seek", Path: "/dev/stdin", Err: syscall.ESPIPE}
}
func (mPipe) ReadAt([]byte, int64) (int, error) {
	return 0, &fs.PathError{Op: "pread", Path: "/dev/stdin", Err: syscall.ESPIPE}
}
func (mPipe) WriteAt([]byte, int64) (int, error) {
	return 0, &fs.PathError{Op: "pwrite", Path: "/dev/stdout", Err: syscall.ESPIPE}
}
func (mPipe) Name() string               { return "/dev/stdin" }
func (mPipe) Fd() uintptr                { return ^uintptr(0) }
func (mPipe) Stat() (fs.FileInfo, error) { return info{fs.ModeNamedPipe}, nil }
func (mPipe) Sync() error {
	return &fs.PathError{Op: "sync", Path: "/dev/stdout", Err: syscall.EINVAL}
}

// info describes a file whose size is not known before it has been read.
type info struct{ m fs.FileMode }

func (info) Name() string        { return "stdin" }
func (info) Size() int64         { return 0 }
func (i info) Mode() fs.FileMode { return i.m }
func (info) ModTime() time.Time  { return time.Time{} }
func (info) IsDir() bool         { return false }
func (info) Sys() any            { return nil }

type mLen struct{ f func() int }

func (m mLen) Len() int      { return m.f() }
func (m mLen) Buffered() int { return m.f() }
func (m mLen) Size() int64   { return int64(m.f()) }

// ---- sources

type mByte struct {
	x  *source
	un *bool
}

func (m mByte) ReadByte() (byte, error) {
	var b [1]byte
	*m.un = false
	for i := 0; i < 100; i++ {
		n, err := m.x.Read(b[:])
		if n == 1 {
			if err != nil {
				m.x.later = err
			}
			*m.un = true
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (m mByte) UnreadByte() error {
	if !*m.un || m.x.pos == 0 {
		return errors.New("invalid use of UnreadByte")
	}
	*m.un = false
	m.x.pos--
	return nil
}

func (m mByte) ReadRune() (rune, int, error) {
	b, err := m.ReadByte()
	*m.un = false
	if err != nil {
		return 0, 0, err
	}
	if b < utf8.RuneSelf {
		return rune(b), 1, nil
	}
	r, n := utf8.DecodeRune(m.x.data[m.x.pos-1 : m.x.have])
	m.x.pos += n - 1
	return r, n, nil
}

type mWriteTo struct{ x *source }

func (m mWriteTo) WriteTo(w io.Writer) (int64, error) {
	var t int64
	b := make([]byte, 1+int(m.x.c.w.p.Seed%300))
	for i := 0; i < 1000; i++ {
		n, err := m.x.Read(b)
		if n > 0 {
			i = 0
			k, werr := w.Write(b[:n])
			t += int64(k)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
	return t, io.ErrNoProgress
}

type mSeek struct{ x *source }

func (m mSeek) Seek(off int64, whence int) (int64, error) {
	x := m.x
	p := off
	switch whence {
	case io.SeekCurrent:
		p += int64(x.pos)
	case io.SeekEnd:
		p += int64(x.limit)
	}
	if p < 0 {
		return 0, errors.New("negative position")
	}
	if p != int64(x.pos) {
		x.use.did("moved the position of")
		if p > int64(x.limit) {
			p = int64(x.limit)
		}
		x.pos = int(p)
		x.have = max(x.have, x.pos)
		x.over = x.over && x.pos == x.limit
	}
	return p, nil
}

func (m mSeek) ReadAt(p []byte, off int64) (int, error) {
	x := m.x
	if off < 0 || off > int64(x.limit) {
		return 0, io.EOF
	}
	n := copy(p, x.data[off:x.limit])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type readFunc func([]byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

// readValue can neither be compared nor be the key of a map.
type readValue struct {
	x   *source
	tag []string
}

func (v readValue) Read(p []byte) (int, error) { return v.x.Read(p) }

// readFD stands for whatever has its number now, like a file descriptor.
type readFD int

var sourceFDs = map[readFD]*source{}

func (f readFD) Read(p []byte) (int, error) { return sourceFDs[f].Read(p) }

// given is a source as the stream gets it, and what there is to check about it
// afterwards.
type given struct {
	r     io.Reader
	w     io.Writer
	use   *use
	pull  func()       // takes in what a real sink has got
	mark  func([]byte) // the caller uses the sink itself
	after func(ended bool)
}

func (c *ctx) giveSource(s *plan.Src, x *source) *given {
	if s == nil || c.prop != "C20" {
		return &given{r: x, after: func(bool) {}}
	}
	u := &use{c: c, what: "source", on: true}
	x.use = u
	g := &given{use: u, after: func(bool) {}}
	cl, cm, dl, wr := mClose{u}, mCloseMore{u}, mDeadline{u}, mWrite{u}
	by, wt, sk := mByte{x, new(bool)}, mWriteTo{x}, mSeek{x}
	c.count("situation: source kind " + s.As)
	data := append([]byte(nil), x.data[:x.limit]...)
	same := func() {
		if string(data) != string(x.data[:x.limit]) {
			c.note("own-arg", "the stream changed the bytes its source keeps")
		}
	}
	left := func(f func() int) func(bool) {
		return func(ended bool) {
			same()
			if n := f(); ended && n != 0 {
				c.note("disturbed", "the stream has ended and its source has %d bytes left", n)
			}
		}
	}
	switch s.As {
	case "closer":
		g.r = struct {
			*source
			mClose
		}{x, cl}
	case "pipe-end":
		g.r = struct {
			*source
			mClose
			mCloseMore
		}{x, cl, cm}
	case "conn":
		g.r = struct {
			*source
			mClose
			mCloseMore
			mDeadline
			mWrite
		}{x, cl, cm, dl, wr}
	case "stdin":
		g.r = struct {
			*source
			mClose
			mDeadline
			mPipe
			mWriteTo
		}{x, cl, dl, mPipe{}, wt}
	case "seeker":
		g.r = struct {
			*source
			mClose
			mSeek
		}{x, cl, sk}
	case "scanner":
		g.r = struct {
			*source
			mByte
		}{x, by}
	case "writer-to":
		g.r = struct {
			*source
			mWriteTo
		}{x, wt}
	case "len-0":
		g.r = struct {
			*source
			mLen
		}{x, mLen{func() int { return 0 }}}
	case "len-arrived":
		g.r = struct {
			*source
			mLen
		}{x, mLen{func() int { return x.have - x.pos }}}
	case "len-left":
		g.r = struct {
			*source
			mLen
		}{x, mLen{func() int { return x.limit - x.pos }}}
	case "len-huge":
		g.r = struct {
			*source
			mLen
		}{x, mLen{func() int { return 1 << 40 }}}
	case "all":
		g.r = struct {
			*source
			mClose
			mCloseMore
			mDeadline
			mWrite
			mByte
			mWriteTo
			mSeek
			mLen
		}{x, cl, cm, dl, wr, by, wt, sk, mLen{func() int { return x.have - x.pos }}}
	case "func":
		g.r = readFunc(x.Read)
	case "value":
		g.r = readValue{x, nil}
	case "fd":
		n := readFD(3 + c.id)
		sourceFDs[n] = x
		g.r = n
	case "bufio":
		g.r = bufio.NewReaderSize(x, 16+at(c.o.Buf, 0)%200)
	case "limited":
		g.r = io.LimitReader(x, 1<<40)
	case "limited-exact":
		g.r = io.LimitReader(x, int64(x.limit))
	case "multi":
		g.r = io.MultiReader(struct{ io.Reader }{x}, strings.NewReader(""))
	case "tee":
		b := &bytes.Buffer{}
		g.r = io.TeeReader(x, b)
		g.after = func(bool) {
			if b.String() != string(x.data[:x.pos]) {
				c.note("disturbed", "the bytes read through a TeeReader are not those the source gave")
			}
		}
	case "nop-closer":
		g.r = io.NopCloser(x)
	case "bytes.Reader":
		r := bytes.NewReader(data)
		g.r, g.after = r, left(r.Len)
	case "bytes.Buffer":
		r := bytes.NewBuffer(data)
		g.r, g.after = r, left(r.Len)
	case "strings.Reader":
		r := strings.NewReader(string(data))
		g.r, g.after = r, left(r.Len)
	case "section":
		pad := append(append([]byte("before"), data...), "after"...)
		r := io.NewSectionReader(bytes.NewReader(pad), 6, int64(len(data)))
		g.r, g.after = r, left(func() int {
			n, _ := r.Seek(0, io.SeekCurrent)
			return len(data) - int(n)
		})
	case "file":
		f := tempFile(os.O_RDWR)
		f.Write(data)
		f.Seek(0, io.SeekStart)
		g.r = f
		g.after = func(ended bool) {
			n, err := f.Seek(0, io.SeekCurrent)
			if err != nil {
				c.note("disturbed", "the stream closed its source")
			} else if ended && n != int64(len(data)) {
				c.note("disturbed", "the stream has ended and its source stands at %d of %d bytes", n, len(data))
			}
			if fi, err := f.Stat(); err == nil && fi.Size() != int64(len(data)) {
				c.note("disturbed", "the stream changed the size of its source")
			}
			f.Close()
		}
	case "os-pipe":
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		w.Write(data)
		w.Close()
		g.r = r
		g.after = func(bool) {
			if r.Close() != nil {
				c.note("disturbed", "the stream closed its source")
			}
		}
	case "":
		g.r = x
	default:
		panic("world: unknown source kind " + s.As)
	}
	return g
}

func tempFile(flag int) *os.File {
	f, err := os.CreateTemp("", "dst")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	if flag&os.O_APPEND != 0 {
		fd, err := syscall.Open(fmt.Sprintf("/proc/self/fd/%d", f.Fd()), flag, 0)
		if err != nil {
			panic(err)
		}
		f.Close()
		return os.NewFile(uintptr(fd), f.Name())
	}
	return f
}

// ---- sinks

type mString struct{ x *sink }

func (m mString) WriteString(s string) (int, error) { return m.x.Write([]byte(s)) }

type mPutByte struct{ x *sink }

func (m mPutByte) WriteByte(b byte) error {
	n, err := m.x.Write([]byte{b})
	if n == 0 && err == nil {
		err = io.ErrShortWrite
	}
	return err
}

func (m mPutByte) WriteRune(r rune) (int, error) { return m.x.Write(utf8.AppendRune(nil, r)) }

type mReadFrom struct{ x *sink }

func (m mReadFrom) ReadFrom(r io.Reader) (int64, error) {
	var t int64
	b := make([]byte, 1+int(m.x.c.w.p.Seed%300))
	for i := 0; i < 1000; i++ {
		n, err := r.Read(b)
		if n > 0 {
			i = 0
			k, werr := m.x.Write(b[:n])
			t += int64(k)
			if werr == nil && k < n {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
	return t, io.ErrNoProgress
}

// mFile is a file that can be written anywhere.
type mFile struct{ x *sink }

func (m mFile) Seek(off int64, whence int) (int64, error) {
	end := int64(len(m.x.out) + m.x.marked)
	p := off
	if whence != io.SeekStart {
		p += end
	}
	if p != end {
		m.x.use.did("moved the position of")
		p = end
	}
	return p, nil
}
func (m mFile) WriteAt(p []byte, off int64) (int, error) {
	m.x.use.did("wrote past the position of")
	return len(p), nil
}
func (m mFile) Truncate(n int64) error {
	if n != int64(len(m.x.out)+m.x.marked) {
		m.x.use.did("changed the size of")
	}
	return nil
}
func (m mFile) Sync() error { return nil }

type mReset struct{ u *use }

func (m mReset) Reset() { m.u.did("reset") }

type mGrow struct{ x *sink }

func (m mGrow) Grow(int)                {}
func (m mGrow) Len() int                { return len(m.x.out) + m.x.marked }
func (m mGrow) Available() int          { return 0 }
func (m mGrow) AvailableBuffer() []byte { return nil }
func (m mGrow) Flush() error            { return nil }

type writeFunc func([]byte) (int, error)

func (f writeFunc) Write(p []byte) (int, error) { return f(p) }

type writeValue struct {
	x   *sink
	tag []string
}

func (v writeValue) Write(p []byte) (int, error) { return v.x.Write(p) }

type writeFD int

var sinkFDs = map[writeFD]*sink{}

func (f writeFD) Write(p []byte) (int, error) { return sinkFDs[f].Write(p) }

func (c *ctx) giveSink(s *plan.Sink, x *sink) *given {
	if c.prop != "C20" {
		return &given{w: x, pull: func() {}, mark: func([]byte) {}, after: func(bool) {}}
	}
	u := &use{c: c, what: "sink", on: true}
	x.use = u
	g := &given{use: u, pull: func() {}, after: func(bool) {}}
	g.mark = func(p []byte) { x.marked += len(p) }
	cl, cm, dl, rd := mClose{u}, mCloseMore{u}, mDeadline{u}, mRead{u}
	str, by, rf, fl, gr, rs := mString{x}, mPutByte{x}, mReadFrom{x}, mFile{x}, mGrow{x}, mReset{u}
	c.count("situation: sink kind " + s.As)
	known := ""
	// real: a sink that keeps its own content
	real := func(w io.Writer, content func() string) {
		g.w = w
		g.pull = func() {
			now := content()
			if !strings.HasPrefix(now, known) {
				c.note("disturbed", "what the sink held before the operation has changed: %s", diff([]byte(now), []byte(known)))
			} else {
				x.out = append(x.out, now[len(known):]...)
			}
			known = now
		}
		g.mark = func(p []byte) {
			w.Write(p)
			known += string(p)
			if now := content(); now != known {
				c.note("disturbed", "what the caller wrote to the sink itself arrived wrong: %s", diff([]byte(now), []byte(known)))
				known = now
			}
		}
	}
	switch s.As {
	case "closer":
		g.w = struct {
			*sink
			mClose
		}{x, cl}
	case "pipe-end":
		g.w = struct {
			*sink
			mClose
			mCloseMore
		}{x, cl, cm}
	case "conn":
		g.w = struct {
			*sink
			mClose
			mCloseMore
			mDeadline
			mRead
			mReadFrom
		}{x, cl, cm, dl, rd, rf}
	case "stdout":
		g.w = struct {
			*sink
			mClose
			mDeadline
			mPipe
			mString
			mReadFrom
		}{x, cl, dl, mPipe{}, str, rf}
	case "file-like":
		g.w = struct {
			*sink
			mClose
			mFile
			mString
		}{x, cl, fl, str}
	case "string-writer":
		g.w = struct {
			*sink
			mString
		}{x, str}
	case "byte-writer":
		g.w = struct {
			*sink
			mPutByte
		}{x, by}
	case "reader-from":
		g.w = struct {
			*sink
			mReadFrom
		}{x, rf}
	case "buffer-like":
		g.w = struct {
			*sink
			mString
			mPutByte
			mGrow
			mReset
		}{x, str, by, gr, rs}
	case "all":
		g.w = struct {
			*sink
			mClose
			mCloseMore
			mDeadline
			mRead
			mString
			mPutByte
			mReadFrom
			mFile
			mGrow
			mReset
		}{x, cl, cm, dl, rd, str, by, rf, fl, gr, rs}
	case "func":
		g.w = writeFunc(x.Write)
	case "value":
		g.w = writeValue{x, nil}
	case "fd":
		n := writeFD(3 + c.id)
		sinkFDs[n] = x
		g.w = n
	case "multi":
		g.w = io.MultiWriter(x)
	case "bufio":
		b := bufio.NewWriterSize(x, 16+at(c.o.Seg, 0)%200)
		g.w, g.pull = b, func() {
			// it is the caller now who makes it write
			defer u.during()()
			b.Flush()
		}
	case "bytes.Buffer":
		b := &bytes.Buffer{}
		real(b, b.String)
	case "bytes.Buffer-drained":
		b := &bytes.Buffer{}
		g.w = b
		g.pull = func() {
			x.out = append(x.out, b.Bytes()...)
			scribble(b.Bytes())
			b.Reset()
		}
		g.mark = func(p []byte) {
			b.Write(p)
			if b.String() != string(p) {
				c.note("disturbed", "what the caller wrote to the sink itself arrived wrong")
			}
			b.Reset()
		}
	case "strings.Builder":
		b := &strings.Builder{}
		real(b, b.String)
	case "file", "file-append":
		flag := os.O_RDWR
		if s.As == "file-append" {
			flag |= os.O_APPEND
		}
		f := tempFile(flag)
		g.use.c = c
		real(f, func() string {
			fi, err := f.Stat()
			if err != nil {
				c.fail("disturbed", "the stream closed its sink")
			}
			b := make([]byte, fi.Size())
			f.ReadAt(b, 0)
			return string(b)
		})
		g.after = func(bool) {
			if f.Close() != nil {
				c.note("disturbed", "the stream closed its sink")
			}
		}
	case "":
		g.w = x
	default:
		panic("world: unknown sink kind " + s.As)
	}
	return g
}

// collect is a garbage collection: what nobody refers to is finalized, pools
// are emptied.
func (c *ctx) collect(i int) {
	o := c.o
	if len(o.Collect) == 0 || o.Collect[i%len(o.Collect)] == 0 {
		return
	}
	c.count("fault: garbage collection")
	simsync.DropPools()
	c.k.Collect()
}

// afterwards: streams that were left have time to show that they have not
// come to rest.
func (c *ctx) afterwards() {
	if c.prop != "C20" {
		return
	}
	c.collect(0)
	c.w.sleep(c.o.Idle)
}
