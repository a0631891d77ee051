package world

import (
	"bytes"
	"fmt"
	"io"

	"github.com/suapapa/go_hangul/encoding/cp949"

	"verif.local/dst/model"
	"verif.local/dst/plan"
	"verif.local/dst/simrt"
)

// network is the simulated transport between two endpoints: packets with a
// bounded size that may be delayed, lost, duplicated, reordered or cut off by
// a partition, and a sliding-window protocol with retransmission on top.
type network struct {
	k     *simrt.Kernel
	l     *plan.Link
	sent  [2]int
	acks  [2]int
	cnt   map[string]int
	pkts  int64
	think int64
	late  int64
}

func (n *network) count(s string) { n.cnt[s]++ }

func (n *network) cut(t int64) bool {
	for _, p := range n.l.Parts {
		if t >= p.From && t < p.To {
			return true
		}
	}
	return false
}

func (n *network) jitter(i int) int64 {
	if len(n.l.Jitter) == 0 {
		return 0
	}
	return n.l.Jitter[i%len(n.l.Jitter)]
}

// conn is one direction of one connection.
type conn struct {
	n      *network
	dir    int
	rst    []int // break at these many bytes carried in this direction overall
	base   int   // first unacknowledged byte
	next   int   // next byte to transmit
	buf    []byte
	fin    bool
	finA   bool
	broken bool
	// receiving side
	got     int // contiguous bytes received
	data    []byte
	held    map[int]packet // out of order
	finGot  bool
	rpos    int
	reader  *simrt.Task
	writer  *simrt.Task
	carried *int
}

type packet struct {
	seq  int
	data []byte
	fin  bool
}

func (n *network) conn(dir int, rst []int, carried *int) *conn {
	return &conn{n: n, dir: dir, rst: rst, held: map[int]packet{}, carried: carried}
}

func (c *conn) wake() {
	if c.reader != nil {
		c.n.k.Wake(c.reader)
	}
	if c.writer != nil {
		c.n.k.Wake(c.writer)
	}
}

func (c *conn) brk() {
	if c.broken {
		return
	}
	c.broken = true
	c.n.count("fault: connection reset")
	if !model.Decode(c.data).Boundary(len(c.data)) {
		c.n.count("situation: connection reset inside a character")
	}
	c.n.k.Ev("reset", int64(c.dir), int64(*c.carried), nil, "")
	c.wake()
}

// pump transmits what the window allows.
func (c *conn) pump() {
	for !c.broken && c.next < len(c.buf) && c.next-c.base < c.n.l.Window {
		n := len(c.buf) - c.next
		if n > c.n.l.MTU {
			n = c.n.l.MTU
		}
		p := packet{c.next, c.buf[c.next : c.next+n : c.next+n], false}
		c.next += n
		c.transmit(p, 0)
	}
	if !c.broken && c.fin && !c.finA && c.next == len(c.buf) && c.base == len(c.buf) {
		c.finA = true
		c.transmit(packet{len(c.buf), nil, true}, 0)
	}
}

func (c *conn) transmit(p packet, attempt uint) {
	n := c.n
	if c.broken {
		return
	}
	i := n.sent[c.dir]
	n.sent[c.dir]++
	n.pkts++
	now := n.k.Now()
	d := n.l.Delay + n.jitter(i)
	copies := 1
	if n.cut(now) {
		copies = 0
		n.count("fault: packet lost in a partition")
	}
	for _, f := range n.l.Faults {
		if f.Dir != c.dir || f.N != i || copies == 0 {
			continue
		}
		switch f.Kind {
		case "drop":
			copies = 0
			n.count("fault: packet lost")
		case "dup":
			copies = 2
			n.count("fault: packet duplicated")
		case "late":
			d += f.D
			n.late += f.D
			n.count("fault: packet late")
		}
	}
	n.k.Ev("packet", int64(c.dir)<<32|int64(i), int64(p.seq)<<8|int64(copies), p.data, "")
	for j := 0; j < copies; j++ {
		n.k.After(d+int64(j)*(n.l.Delay/2+1), func() { c.deliver(p) })
	}
	rto := n.l.RTO << min(attempt, 10) // backs off as real transports do
	n.k.After(rto+n.jitter(i+1), func() {
		if c.broken || c.base > p.seq || p.fin && c.finGot {
			return
		}
		n.count("situation: packet retransmitted")
		c.transmit(p, attempt+1)
	})
}

func (c *conn) deliver(p packet) {
	if c.broken {
		return
	}
	if p.seq > c.got {
		c.n.count("situation: packet arrived out of order")
	}
	if p.seq < c.got {
		c.n.count("situation: packet arrived again")
	}
	if p.fin {
		if p.seq == c.got {
			c.finGot = true
			c.wake()
		}
		return
	}
	if p.seq >= c.got {
		c.held[p.seq] = p
	}
	for {
		q, ok := c.held[c.got]
		if !ok {
			break
		}
		delete(c.held, c.got)
		room := len(q.data)
		for _, r := range c.rst {
			if left := r - *c.carried; left >= 0 && left < room {
				room = left
			}
		}
		c.data = append(c.data, q.data[:room]...)
		c.got += len(q.data)
		*c.carried += room
		if room < len(q.data) {
			for i, r := range c.rst {
				if r == *c.carried {
					c.rst[i] = -1
				}
			}
			c.brk()
			return
		}
	}
	c.wake()
	c.ack()
}

func (c *conn) ack() {
	n := c.n
	i := n.acks[c.dir]
	n.acks[c.dir]++
	if n.cut(n.k.Now()) {
		n.count("fault: acknowledgement lost in a partition")
		return
	}
	for _, f := range n.l.Faults {
		if f.Kind == "ackdrop" && f.Dir == c.dir && f.N == i {
			n.count("fault: acknowledgement lost")
			return
		}
	}
	got := c.got
	n.k.After(n.l.Delay+n.jitter(i+2), func() {
		if c.broken || got <= c.base {
			return
		}
		c.base = got
		c.wake()
		c.pump()
	})
}

func (c *conn) Write(p []byte) (int, error) {
	simrt.Y()
	k := c.n.k
	done := 0
	for done < len(p) {
		if c.broken {
			k.Ev("conn.write", int64(len(p)), int64(done), nil, "reset")
			return done, errOf("reset")
		}
		room := 2*c.n.l.Window - (len(c.buf) - c.base)
		if room <= 0 {
			c.n.count("situation: writer waited for the connection")
			c.writer = k.Cur()
			k.Block()
			continue
		}
		if room > len(p)-done {
			room = len(p) - done
		}
		c.buf = append(c.buf, p[done:done+room]...)
		done += room
		c.pump()
	}
	k.Ev("conn.write", int64(len(p)), int64(done), p, "")
	return done, nil
}

func (c *conn) close() {
	c.fin = true
	c.pump()
	if c.fin && !c.finA {
		// the last acknowledgement triggers it
		return
	}
}

func (c *conn) Read(p []byte) (int, error) {
	simrt.Y()
	k := c.n.k
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if c.broken {
			k.Ev("conn.read", int64(len(p)), 0, nil, "reset")
			return 0, errOf("reset")
		}
		if c.rpos < len(c.data) {
			n := copy(p, c.data[c.rpos:])
			c.rpos += n
			k.Ev("conn.read", int64(len(p)), int64(n), p[:n], "")
			return n, nil
		}
		if c.finGot {
			k.Ev("conn.read", int64(len(p)), 0, nil, "EOF")
			return 0, io.EOF
		}
		c.n.count("situation: reader waited for the connection")
		c.reader = k.Cur()
		k.Block()
	}
}

func (w *world) link(l *plan.Link) {
	n := &network{k: w.k, l: l, cnt: map[string]int{}}
	spawn := func(name string, f func(c *ctx)) {
		tc := &taskCtx{w: w, id: len(w.tasks), cnt: n.cnt, op: -1}
		w.tasks = append(w.tasks, tc)
		tc.t = w.k.Spawn(name, func() {
			c := &ctx{taskCtx: tc, o: &plan.Op{Kind: "link"}, k: w.k, prop: w.p.Prop}
			c.safely(func() { f(c) })
		})
		if len(w.tasks) > 1 {
			tc.cnt = map[string]int{} // the first task carries the network's counts
		}
	}
	if l.Mode == "dialogue" {
		w.dialogue(n, l, spawn)
		return
	}
	for d := range l.Texts {
		if d == 0 || len(l.Texts[d]) > 0 {
			w.oneWay(n, l, d, spawn)
		}
	}
}

func pause(n *network, l *plan.Link, end, i int) {
	if t := l.Think[end]; len(t) > 0 {
		d := t[i%len(t)]
		if d > 60e9 {
			d = 60e9
		}
		n.think += d
		n.k.Sleep(d)
	}
}

// oneWay sends one text in one direction, reconnecting after every reset.
func (w *world) oneWay(n *network, l *plan.Link, d int, spawn func(string, func(*ctx))) {
	text := l.Texts[d]
	var rst []int
	for _, r := range l.Resets {
		if r.Dir == d {
			rst = append(rst, r.At)
		}
	}
	carried := 0
	cur := n.conn(d, rst, &carried)
	from := 0 // where the sender starts on the current connection
	done := false
	var recv []byte
	var sender *simrt.Task
	spawn(fmt.Sprintf("sender%d", d), func(c *ctx) {
		sender = c.k.Cur()
		for !done {
			cn, pos := cur, from
			wr, err := cp949.NewWriter(cn)
			if err != nil {
				c.fail("constructor", "NewWriter: %v", err)
			}
			for i := 0; pos < len(text) && err == nil; i++ {
				pause(n, l, d, i)
				k := at(l.Seg[d], i)
				if k > len(text)-pos {
					k = len(text) - pos
				}
				data := append([]byte(nil), text[pos:pos+k]...)
				var m int
				m, err = wr.Write(data)
				if err == nil && m != k {
					c.fail("count", "Write of %d bytes returned %d, nil", k, m)
				}
				if err != nil && !cn.broken {
					c.fail("spurious-error", "Write returned %v on a working connection", err)
				}
				scribble(data)
				pos += k
			}
			if err == nil {
				cn.close()
			}
			for !done && cn == cur {
				c.k.Block()
			}
		}
	})
	spawn(fmt.Sprintf("receiver%d", d), func(c *ctx) {
		for !done {
			cn := cur
			r, err := cp949.NewReader(cn)
			if err != nil {
				c.fail("constructor", "NewReader: %v", err)
			}
			c.o = &plan.Op{Kind: "link", Buf: l.Buf[d], Own: "scribble"}
			t := &tap{c: c, r: r}
			for t.err == nil {
				pause(n, l, d, t.i)
				t.direct(t.size())
			}
			recv = append(recv, t.out...)
			if !hasPrefix(text, recv) {
				c.fail("text", "the receiver has %s", diff(recv, text))
			}
			switch {
			case t.err == io.EOF:
				if len(recv) != len(text) {
					c.fail("text-lost", "the stream ended cleanly but the receiver has %s", diff(recv, text))
				}
				done = true
			case cn.broken:
				m := model.Encode(text, true)
				u := m.SrcOf(m.OutAt(len(recv)))
				if u.Src != len(recv) {
					c.fail("text", "the text received before the reset ends inside a character")
				}
				from = len(recv)
				c.count("situation: reconnected and resumed")
				cur = n.conn(d, rst, &carried)
			default:
				c.fail("spurious-error", "the reader failed with %v on a working connection", t.err)
			}
			if sender != nil {
				c.k.Wake(sender)
			}
			cn.wake()
		}
		w.intime(c, n)
	})
}

// intime: the time the exchange took is explained by the callers' pauses, the
// partitions and what every packet may take.
func (w *world) intime(c *ctx, n *network) {
	per := n.l.RTO + 4*n.l.Delay
	for _, j := range n.l.Jitter {
		per += 2 * j
	}
	lim := n.think + n.late + (n.pkts+200)*per + 1e9
	for _, p := range n.l.Parts {
		lim += 4 * p.To
	}
	if now := c.k.Now(); now > lim {
		c.note("late", "the exchange took %d ms of simulated time; pauses, partitions and packet delays explain at most %d ms", now/1e6, lim/1e6)
	}
}

// dialogue: two endpoints take turns; each line ends with the delimiter.
func (w *world) dialogue(n *network, l *plan.Link, spawn func(string, func(*ctx))) {
	carried := [2]int{}
	conns := [2]*conn{n.conn(0, nil, &carried[0]), n.conn(1, nil, &carried[1])}
	delim := []byte(l.Delim)
	for e := 0; e < 2; e++ {
		e := e
		spawn(fmt.Sprintf("peer%d", e), func(c *ctx) {
			wr, err := cp949.NewWriter(conns[e])
			if err != nil {
				c.fail("constructor", "NewWriter: %v", err)
			}
			rd, err := cp949.NewReader(conns[1-e])
			if err != nil {
				c.fail("constructor", "NewReader: %v", err)
			}
			c.o = &plan.Op{Kind: "link", Buf: l.Buf[e], Own: "scribble"}
			t := &tap{c: c, r: rd}
			used, seg := 0, 0
			for i, line := range l.Texts {
				if i%2 == e {
					msg := append(append([]byte(nil), line...), delim...)
					for pos := 0; pos < len(msg); {
						k := at(l.Seg[e], seg)
						seg++
						if k > len(msg)-pos {
							k = len(msg) - pos
						}
						pause(n, l, e, seg)
						data := append([]byte(nil), msg[pos:pos+k]...)
						m, err := wr.Write(data)
						if err != nil || m != k {
							c.fail("spurious-error", "Write of %d bytes returned %d, %v", k, m, err)
						}
						scribble(data)
						pos += k
					}
					c.count("situation: request or reply sent")
					continue
				}
				for !bytes.Contains(t.out[used:], delim) {
					if t.err != nil {
						c.fail("spurious-error", "the reader failed with %v on a working connection", t.err)
					}
					pause(n, l, e, t.i)
					t.direct(t.size())
				}
				j := bytes.Index(t.out[used:], delim)
				got := t.out[used : used+j]
				if string(got) != string(line) {
					c.fail("text", "message %d arrived as %s", i, diff(got, line))
				}
				used += j + len(delim)
				if used != len(t.out) {
					c.fail("text", "%d bytes arrived that were never sent", len(t.out)-used)
				}
			}
			if e == 1 {
				w.intime(c, n)
			}
		})
	}
}
