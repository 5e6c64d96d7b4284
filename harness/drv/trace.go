// Package drv executes scenarios (generated by TLC from the specification, or
// enumerated here) against the real gev code on the simulated kernel and
// records what happened as a trace for TLC to validate.
package drv

import (
	"encoding/json"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// M is one trace event.
type M map[string]interface{}

// Trace collects the events of one scenario.
type Trace struct {
	mu     sync.Mutex
	ev     []M
	start  time.Time
	max    int
	closed bool
	over   bool
}

// NewTrace starts a trace; times are microseconds from now.
func NewTrace() *Trace { return &Trace{start: time.Now(), max: 4000} }

// Now returns virtual microseconds since the start.
func (t *Trace) Now() int { return int(time.Since(t.start) / time.Microsecond) }

// Add appends an event, stamped with the virtual time.
func (t *Trace) Add(m M) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.closed {
		return
	}
	if len(t.ev) >= t.max {
		t.over = true
		return
	}
	m["t"] = t.Now()
	t.ev = append(t.ev, m)
}

// AddRead appends a successful read, or extends the read before it when
// nothing was observed in between.
func (t *Trace) AddRead(c, n int) {
	t.mu.Lock()
	if k := len(t.ev); k > 0 && !t.closed && t.ev[k-1]["e"] == "rd" && t.ev[k-1]["c"] == c && t.ev[k-1]["err"] == 0 && t.ev[k-1]["n"].(int) > 0 && t.ev[k-1]["t"] == t.Now() {
		t.ev[k-1]["n"] = t.ev[k-1]["n"].(int) + n
		t.mu.Unlock()
		return
	}
	t.mu.Unlock()
	t.Add(M{"e": "rd", "c": c, "n": n, "err": 0})
}

// Close ends the trace; later events are ignored.
func (t *Trace) Close() {
	t.mu.Lock()
	t.closed = true
	t.mu.Unlock()
}

// Line renders {"id":..,"ev":[..]}.
func (t *Trace) Line(id string) []byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.over {
		// a runaway execution; never silently truncated
		t.ev = append(t.ev, M{"e": "overflow", "t": t.Now()})
	}
	b, err := json.Marshal(M{"id": id, "ev": t.ev})
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

// Len returns the number of events.
func (t *Trace) Len() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.ev)
}

// Gid is the current goroutine's number.
func Gid() int {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	s := buf[len("goroutine "):n]
	for i, c := range s {
		if c == ' ' {
			g, _ := strconv.Atoi(string(s[:i]))
			return g
		}
	}
	return -1
}

// In is byte o of what the peer of connection c sends.
func In(c, o int) byte {
	x := uint32(c)*2654435761 + uint32(o)*40503 + 12345
	x ^= x >> 13
	x *= 0x85ebca6b
	x ^= x >> 16
	return byte(x)
}

// InBytes is bytes [o,o+n) of that stream.
func InBytes(c, o, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = In(c, o+i)
	}
	return b
}

func msgByte(id, i int) byte {
	x := uint32(id)*0x9e3779b1 + uint32(i)*2246822519
	x ^= x >> 15
	x *= 0xc2b2ae35
	x ^= x >> 16
	return byte(x)
}

// Msg is outgoing message id (1..63 for the small forms) of n bytes. It is
// self-delimiting, so that the peer's side can tell which message each byte
// belongs to.
func Msg(id, n int) []byte {
	b := make([]byte, n)
	h := 0
	switch {
	case n == 0:
		return b
	case n == 1:
		b[0] = 0x80 | byte(id&63)
		return b
	case n < 7:
		b[0] = 0xE0 + byte(n)
		b[1] = byte(id)
		h = 2
	default:
		b[0] = 0xF5
		b[1], b[2] = byte(id>>8), byte(id)
		b[3], b[4], b[5], b[6] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
		h = 7
	}
	for i := h; i < n; i++ {
		b[i] = msgByte(id, i)
	}
	return b
}

// Seg says that bytes [From,To) of message ID (of Len bytes) came by.
type Seg struct {
	ID   int `json:"id"`
	From int `json:"f"`
	To   int `json:"to"`
	Len  int `json:"n"`
}

// Decoder splits an output stream into messages.
type Decoder struct {
	hdr []byte
	id  int
	n   int
	pos int
	bad bool
}

// Feed returns the pieces of messages in b.
func (d *Decoder) Feed(b []byte) (out []Seg) {
	add := func(id, from, to, n int) {
		if k := len(out); k > 0 && out[k-1].ID == id && out[k-1].To == from && from > 0 {
			out[k-1].To = to
			out[k-1].Len = n
			return
		}
		out = append(out, Seg{id, from, to, n})
	}
	for _, c := range b {
		if d.bad {
			add(-1, 0, 0, 0)
			return
		}
		if d.n > 0 { // inside the body
			if c != msgByte(d.id, d.pos) {
				d.bad = true
				add(-1, d.id, d.pos, d.n)
				return
			}
			add(d.id, d.pos, d.pos+1, d.n)
			d.pos++
			if d.pos == d.n {
				d.n, d.pos, d.hdr = 0, 0, nil
			}
			continue
		}
		d.hdr = append(d.hdr, c)
		h := d.hdr[0]
		switch {
		case h&0xC0 == 0x80:
			add(int(h&63), 0, 1, 1)
			d.hdr = nil
		case h >= 0xE2 && h <= 0xE6:
			n := int(h) - 0xE0
			if len(d.hdr) == 2 {
				d.id, d.n, d.pos = int(d.hdr[1]), n, 2
				add(d.id, 0, 2, n)
				if n == 2 {
					d.n, d.hdr = 0, nil
				}
			}
		case h == 0xF5:
			if len(d.hdr) == 7 {
				d.id = int(d.hdr[1])<<8 | int(d.hdr[2])
				d.n = int(d.hdr[3])<<24 | int(d.hdr[4])<<16 | int(d.hdr[5])<<8 | int(d.hdr[6])
				d.pos = 7
				add(d.id, 0, 7, d.n)
				if d.n < 7 {
					d.bad = true
				} else if d.n == 7 {
					d.n, d.hdr = 0, nil
				}
			}
		default:
			d.bad = true
			add(-1, int(h), 0, 0)
			return
		}
	}
	return
}

// Part is the number of bytes of an incomplete message header at the end.
func (d *Decoder) Part() int {
	if d.n > 0 {
		return 0
	}
	return len(d.hdr)
}

// MsgID is the message number in an encoded message, 0 if there is none.
func MsgID(b []byte) int {
	var d Decoder
	for _, s := range d.Feed(b) {
		return s.ID
	}
	return 0
}
