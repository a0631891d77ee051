// Package plan holds the data that fully describes one simulated execution,
// its generation from a seed, and its reduction.
package plan

import (
	"encoding/json"

	"verif.local/dst/simrt"
)

// Plan is one execution: replaying it is a pure function of it and the code.
type Plan struct {
	Prop    string      `json:"prop"`
	Seed    uint64      `json:"seed"`
	Index   int         `json:"index"`
	Race    bool        `json:"race,omitempty"`
	Sched   simrt.Sched `json:"sched"`
	StepCap int64       `json:"step_cap"`
	Tasks   []*Task     `json:"tasks,omitempty"`
	Link    *Link       `json:"link,omitempty"`
	Wall    int64       `json:"wall,omitempty"`         // seconds the wall clock is off at the start
	Clock   []int64     `json:"clock,omitempty"`        // seconds it is set forward or back, pause by pause
	Host    uint64      `json:"host,omitempty"`         // what the process around the library is like
	Shift   bool        `json:"shift,omitempty"`        // it changes from operation to operation
	Proc    uint64      `json:"proc,omitempty"`         // what it is like when the process starts
	OneEnc  bool        `json:"one_encoding,omitempty"` // tasks share one encoding value
}

// Task is one caller.
type Task struct {
	Delay int64 `json:"delay,omitempty"`
	Ops   []*Op `json:"ops"`
}

// Op is one thing a caller does: a call or a whole stream session.
type Op struct {
	Kind    string  `json:"kind"` // rd wr td tr tw tb call reuse rstack wstack churn
	Enc     bool    `json:"enc,omitempty"`
	Data    []byte  `json:"data,omitempty"`
	Text    string  `json:"text,omitempty"` // Data for humans; filled when a plan is written out
	Src     *Src    `json:"src,omitempty"`
	Sink    *Sink   `json:"sink,omitempty"`
	Style   string  `json:"style,omitempty"` // how the caller reads
	Buf     []int   `json:"buf,omitempty"`   // caller buffer sizes
	Think   []int64 `json:"think,omitempty"` // pauses between operations
	Seg     []int   `json:"seg,omitempty"`   // write sizes
	Retry   int     `json:"retry,omitempty"`
	Via     string  `json:"via,omitempty"`   // chain: through the standard chain of transformers; append
	SrcW    []int   `json:"src_w,omitempty"` // Transform windows
	DstW    []int   `json:"dst_w,omitempty"`
	Crash   []Crash `json:"crash,omitempty"`
	Call    *Call   `json:"call,omitempty"`
	Want    string  `json:"want,omitempty"`
	Own     string  `json:"own,omitempty"` // what the caller does with memory: keep, scribble
	Subs    []*Op   `json:"subs,omitempty"`
	N       int     `json:"n,omitempty"`       // churn: how many streams
	Mode    string  `json:"mode,omitempty"`    // churn: what is measured
	Collect []int   `json:"collect,omitempty"` // before which steps of the caller garbage is collected
	Mark    []int   `json:"mark,omitempty"`    // what the caller writes to the sink itself between writes
	From    string  `json:"from,omitempty"`    // where the caller calls from: deep, panicking, locked
	Deep    int     `json:"deep,omitempty"`
	Idle    int64   `json:"idle,omitempty"` // time after the operation
	Stop    int     `json:"stop,omitempty"` // abandon the stream after this many steps
	Reset   string  `json:"reset,omitempty"`

	Layers []string `json:"layers,omitempty"` // rstack: bottom to top; wstack: top to bottom
	Bare   bool     `json:"bare,omitempty"`   // nothing between the layers of a stack
}

// Nest is something a source or sink does with the package itself while one of
// its reads or writes is in progress.
type Nest struct {
	At   int  `json:"at"`             // during which read or write, from 1
	Post bool `json:"post,omitempty"` // after the data has been moved instead of before
	Op   *Op  `json:"op"`
}

// Walk visits every operation of the plan, nested ones included.
func (p *Plan) Walk(f func(*Op)) {
	for _, t := range p.Tasks {
		for _, o := range t.Ops {
			o.Walk(f)
		}
	}
}

// Walk visits o and the operations inside it.
func (o *Op) Walk(f func(*Op)) {
	f(o)
	for _, s := range o.Subs {
		s.Walk(f)
	}
	if o.Src != nil {
		for _, n := range o.Src.Nest {
			n.Op.Walk(f)
		}
	}
	if o.Sink != nil {
		for _, n := range o.Sink.Nest {
			n.Op.Walk(f)
		}
	}
}

// Src scripts a simulated source.
type Src struct {
	As       string  `json:"as,omitempty"`  // what else it is
	Seg      []int   `json:"seg,omitempty"` // arriving segment sizes
	Gap      []int64 `json:"gap,omitempty"` // time between arrivals
	Coalesce bool    `json:"coalesce,omitempty"`
	Short    []int   `json:"short,omitempty"` // most bytes a read returns, 0 = any
	Stall    []int   `json:"stall,omitempty"` // empty reads before each read
	EndWith  bool    `json:"end_with,omitempty"`
	Scribble bool    `json:"scribble,omitempty"`
	Hold     int64   `json:"hold,omitempty"` // time between filling the buffer and returning
	Endless  bool    `json:"endless,omitempty"`
	Fail     *Fail   `json:"fail,omitempty"`
	Nest     []*Nest `json:"nest,omitempty"`
}

// Fail is a source failure.
type Fail struct {
	At       int    `json:"at"`
	Kind     string `json:"kind"` // an error name, or block, panic, goexit
	WithData bool   `json:"with_data,omitempty"`
	After    string `json:"after,omitempty"` // same, eof, data, other
}

// Sink scripts a simulated sink.
type Sink struct {
	As     string  `json:"as,omitempty"`
	Faults []Fault `json:"faults,omitempty"`
	Delay  []int64 `json:"delay,omitempty"`
	Nest   []*Nest `json:"nest,omitempty"`
}

// Fault happens when the sink is to take byte At.
type Fault struct {
	At    int    `json:"at"`
	Kind  string `json:"kind"` // an error name, or short, block, panic, goexit
	Times int    `json:"times,omitempty"`
	Whole bool   `json:"whole,omitempty"` // it takes the whole write and fails all the same
}

// Crash stops the process: at sink byte At, or Steps yield points on.
type Crash struct {
	At    int   `json:"at,omitempty"`
	Steps int64 `json:"steps,omitempty"`
}

// Call is a call of a public function.
type Call struct {
	F string  `json:"f"`
	A string  `json:"-"`
	X []byte  `json:"x,omitempty"` // A as bytes (JSON strings must be valid UTF-8)
	B string  `json:"b,omitempty"`
	C string  `json:"c,omitempty"`
	R [3]rune `json:"r"`
}

// Key identifies a call.
func (c *Call) Key() string {
	b, _ := json.Marshal(c)
	return string(b)
}

// Fix restores A from X after decoding.
func (c *Call) Fix() {
	if len(c.X) > 0 {
		c.A = string(c.X)
	}
}

// NewCall makes a call with a string or byte argument.
func NewCall(f string, arg []byte) *Call { return &Call{F: f, A: "", X: arg} }

// Link is the two-endpoint world.
type Link struct {
	Mode   string     `json:"mode"` // stream, dialogue
	Delim  string     `json:"delim,omitempty"`
	Texts  [][]byte   `json:"texts"` // stream: one per direction; dialogue: lines, alternating
	Seg    [2][]int   `json:"seg"`
	Buf    [2][]int   `json:"buf"`
	Style  [2]string  `json:"style"`
	Think  [2][]int64 `json:"think"`
	MTU    int        `json:"mtu"`
	Window int        `json:"window"`
	Delay  int64      `json:"delay"`
	Jitter []int64    `json:"jitter,omitempty"`
	RTO    int64      `json:"rto"`
	Faults []PFault   `json:"faults,omitempty"`
	Resets []Reset    `json:"resets,omitempty"`
	Parts  []Part     `json:"parts,omitempty"`
}

// PFault hits the n-th transmitted packet of a direction.
type PFault struct {
	Dir  int    `json:"dir"`
	N    int    `json:"n"`
	Kind string `json:"kind"` // drop, dup, late, trunc
	D    int64  `json:"d,omitempty"`
}

// Reset breaks the connection when a direction has carried At bytes.
type Reset struct {
	Dir   int  `json:"dir"`
	At    int  `json:"at"`
	Clean bool `json:"clean,omitempty"`
}

// Part is a partition.
type Part struct {
	From int64 `json:"from"`
	To   int64 `json:"to"`
}
