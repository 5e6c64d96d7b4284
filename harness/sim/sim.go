// Package sim is a small deterministic kernel: epoll, eventfd wake-ups, TCP
// connections with explicit send-buffer capacity, peer FIN/RST and fd-number
// reuse. It implements verifhook.Kernel, so gev's own system calls land here.
//
// It is meant to be created and used inside one testing/synctest bubble: every
// blocking wait is on a channel made in the bubble, so synctest.Wait detects
// quiescence and time is virtual.
package sim

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifhook"
)

const (
	EPOLLIN      = 0x1
	EPOLLPRI     = 0x2
	EPOLLOUT     = 0x4
	EPOLLERR     = 0x8
	EPOLLHUP     = 0x10
	EPOLLRDHUP   = 0x2000
	EPOLLONESHOT = 1 << 30
	EPOLLET      = 1 << 31

	ctlAdd = 1
	ctlDel = 2
	ctlMod = 3

	fdBase = 10000
	// Unlimited send capacity.
	Unlimited = 1 << 40
	// Spin is how long a round of a busy loop takes.
	Spin = 500 * time.Microsecond
)

type kind int

const (
	kEvent kind = iota
	kListen
	kConn
	kEpoll
)

// Conn is one TCP connection, both ends.
type Conn struct {
	ID   int
	Port int
	IP   []byte
	FD   int // server-side number, -1 before accept

	rx       []byte // arrived, not yet read by the server
	Arrived  int    // bytes ever arrived
	rxFin    bool
	rst      bool
	soErr    int
	sndCap   int
	Out      []byte // bytes the server's kernel took for the peer
	shutWr   bool
	peerGone bool // peer closed both directions: a server write provokes RST
	Closed   bool // server closed its descriptor
	RstByUs  bool // closed with unread input: peer gets RST
	Accepted bool
	readErr  []int
	writeErr []int // scripted outcomes: 0 normal, >0 errno, <0 short write of -n bytes
	edgeIn   int
	edgeOut  int
}

type obj struct {
	k        kind
	conn     *Conn
	count    uint64
	nonblock bool
	sema     bool
	pend     []*Conn // listener backlog
	accE     []int   // scripted accept outcomes
	real     bool
	link     string // what a real descriptor refers to
	ep       *epoll
	edge     int
}

type interest struct {
	mask    uint32
	off     bool
	seenIn  int
	seenOut int
}

type epoll struct {
	in      map[int]*interest
	told    map[int]told
	lastVer uint64
	spun    bool
	asked   int // empty polls since askVer
	askVer  uint64
	waiting bool
}

type told struct {
	ev uint32
	n  int
}

// Sim is the kernel.
type Sim struct {
	mu      sync.Mutex
	objs    map[int]*obj
	rng     *rand.Rand
	ver     uint64
	changed chan struct{}
	dead    bool

	Fail      map[string]int
	Failed    int
	Spins     int
	BadOps    []string // operations on descriptors that are not open
	CtlFail   func(op, fd int, c *Conn) int
	WaitErr   []int // scripted EpollWait errors
	NBErr     []int // scripted SetNonblock outcomes for connections
	MaxEvents int
	OnSys     func(op string, c *Conn, n int, errno int, data []byte)
	Stable    bool // deterministic event order (by fd)
	listen    *obj // the listening socket
}

// New makes a kernel.
func New(seed int64) *Sim {
	return &Sim{objs: map[int]*obj{}, rng: rand.New(rand.NewSource(seed)), changed: make(chan struct{})}
}

func (s *Sim) bump() {
	s.ver++
	close(s.changed)
	s.changed = make(chan struct{})
}

func (s *Sim) newfd() int {
	for fd := fdBase; ; fd++ {
		if _, ok := s.objs[fd]; !ok {
			return fd
		}
	}
}

// Kill makes every goroutine that is or gets into a wait exit.
func (s *Sim) Kill() {
	s.mu.Lock()
	s.dead = true
	s.bump()
	s.mu.Unlock()
}

// Owns implements verifhook.Kernel.
func (s *Sim) Owns(fd int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.objs[fd]
	return ok || fd >= fdBase
}

func (s *Sim) get(fd int) (*obj, bool) {
	o, ok := s.objs[fd]
	if ok {
		return o, true
	}
	return nil, fd >= fdBase
}

func (s *Sim) bad(op string, fd int) {
	s.BadOps = append(s.BadOps, fmt.Sprintf("%s(%d)", op, fd))
	s.sys("bad:"+op, nil, fd, int(syscall.EBADF), nil)
}

// due says whether this call of the kind is the one to fail.
func (s *Sim) due(kind string) int {
	n, ok := s.Fail[kind]
	if !ok {
		return 0
	}
	if n--; n > 0 {
		s.Fail[kind] = n
		return 0
	}
	delete(s.Fail, kind)
	s.Failed++
	return int(syscall.EMFILE)
}

// Eventfd implements verifhook.Kernel.
func (s *Sim) Eventfd(init, flags int) (int, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if e := s.due("eventfd"); e != 0 {
		return -1, e
	}
	fd := s.newfd()
	s.objs[fd] = &obj{k: kEvent, count: uint64(init), nonblock: flags&syscall.O_NONBLOCK != 0, sema: flags&1 != 0}
	return fd, 0
}

// FailNth makes the n-th call of a kind from now on fail: epoll, eventfd, ctl
// (of a descriptor that is no connection), nonblock (of the listener).
func (s *Sim) FailNth(kind string, n int) {
	s.mu.Lock()
	s.Fail = map[string]int{}
	if kind != "" {
		s.Fail[kind] = n
	}
	s.Failed = 0
	s.mu.Unlock()
}

// EpollCreate implements verifhook.Kernel.
func (s *Sim) EpollCreate() (int, int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if e := s.due("epoll"); e != 0 {
		return -1, e, true
	}
	fd := s.newfd()
	s.objs[fd] = &obj{k: kEpoll, ep: &epoll{in: map[int]*interest{}}}
	return fd, 0, true
}

// EpollCtl implements verifhook.Kernel.
func (s *Sim) EpollCtl(epfd, op, fd int, events uint32) (int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	eo, mine := s.get(epfd)
	if eo == nil {
		if mine {
			s.bad("epoll_ctl", epfd)
		}
		return int(syscall.EBADF), mine
	}
	if eo.k != kEpoll {
		return int(syscall.EINVAL), true
	}
	o, _ := s.get(fd)
	if op == ctlAdd && fd < fdBase {
		// a real descriptor: the listening socket (or some way to wake the loop)
		l, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd))
		if err != nil {
			return int(syscall.EBADF), true
		}
		if o == nil || o.link != l { // it may have been closed and opened again
			for _, e := range s.objs {
				if e.k == kEpoll {
					delete(e.ep.in, fd)
				}
			}
			if o = (&obj{k: kEvent, real: true, link: l}); strings.Contains(l, "socket") {
				o.k = kListen
				s.listen = o
			}
			s.objs[fd] = o
		}
	}
	if o == nil {
		return int(syscall.EBADF), true
	}
	if o.conn == nil {
		if e := s.due("ctl"); e != 0 {
			return e, true
		}
	}
	if s.CtlFail != nil {
		if e := s.CtlFail(op, fd, o.conn); e != 0 {
			return e, true
		}
	}
	ep := eo.ep
	cur, ok := ep.in[fd]
	switch op {
	case ctlAdd:
		if ok {
			return int(syscall.EEXIST), true
		}
		ep.in[fd] = &interest{mask: events, seenIn: -1, seenOut: -1}
	case ctlMod:
		if !ok {
			return int(syscall.ENOENT), true
		}
		if cur.mask == events && !cur.off && events&(EPOLLET|EPOLLONESHOT) == 0 {
			return 0, true
		}
		*cur = interest{mask: events, seenIn: -1, seenOut: -1}
	case ctlDel:
		if !ok {
			return int(syscall.ENOENT), true
		}
		delete(ep.in, fd)
	default:
		return int(syscall.EINVAL), true
	}
	s.bump()
	return 0, true
}

// readiness of o, ignoring the interest mask; edges for EPOLLET.
func (o *obj) ready() (ev uint32, in, out int) {
	switch o.k {
	case kEvent:
		if o.count > 0 {
			ev |= EPOLLIN
		}
		ev |= EPOLLOUT
		return ev, o.edge, 0
	case kListen:
		if len(o.pend) > 0 || len(o.accE) > 0 {
			ev |= EPOLLIN
		}
		return ev, o.edge, 0
	case kConn:
		c := o.conn
		if len(c.rx) > 0 {
			ev |= EPOLLIN
		}
		if c.rxFin {
			ev |= EPOLLIN | EPOLLRDHUP
		}
		if c.rst {
			ev |= EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLOUT
		}
		if c.soErr != 0 {
			ev |= EPOLLERR
		}
		if c.shutWr && c.rxFin {
			ev |= EPOLLHUP
		}
		if c.shutWr || c.sndCap > 0 {
			ev |= EPOLLOUT
		}
		return ev, c.edgeIn, c.edgeOut
	}
	return 0, 0, 0
}

// EpollWait implements verifhook.Kernel.
func (s *Sim) EpollWait(epfd int, fds []int32, evs []uint32, msec int) (int, int, bool) {
	s.mu.Lock()
	eo, mine := s.get(epfd)
	if eo == nil {
		if mine && s.dead {
			s.mu.Unlock()
			runtime.Goexit()
		}
		if mine {
			s.bad("epoll_wait", epfd)
		}
		s.mu.Unlock()
		if mine { // an unbounded error loop otherwise
			runtime.Gosched()
		}
		return -1, int(syscall.EBADF), mine
	}
	if eo.k != kEpoll {
		s.mu.Unlock()
		return -1, int(syscall.EINVAL), true
	}
	ep := eo.ep
	if len(s.WaitErr) > 0 {
		e := s.WaitErr[0]
		s.WaitErr = s.WaitErr[1:]
		if e != 0 {
			s.mu.Unlock()
			return -1, e, true
		}
	}
	slept, late := false, false
	var until time.Time
	if msec > 0 {
		until = time.Now().Add(time.Duration(msec) * time.Millisecond)
	}
	for {
		if s.dead {
			s.mu.Unlock()
			runtime.Goexit()
		}
		type hit struct {
			fd int
			ev uint32
			i  *interest
			ei int
			eo int
		}
		var hits []hit
		again := false
		nums := make([]int, 0, len(ep.in))
		for fd := range ep.in {
			nums = append(nums, fd)
		}
		sort.Ints(nums)
		for _, fd := range nums {
			it := ep.in[fd]
			if it.off {
				continue
			}
			o := s.objs[fd]
			if o == nil {
				continue
			}
			r, ei, eo := o.ready()
			r &= it.mask | EPOLLERR | EPOLLHUP
			if it.mask&EPOLLET != 0 {
				if ei <= it.seenIn {
					r &^= EPOLLIN | EPOLLRDHUP | EPOLLERR | EPOLLHUP
				}
				if eo <= it.seenOut {
					r &^= EPOLLOUT
				}
			}
			if r != 0 {
				hits = append(hits, hit{fd, r, it, ei, eo})
			}
		}
		if len(hits) > 0 {
			// What was reported four times since anything last changed in the whole
			// kernel is reported again only after a moment of virtual time: the
			// loop spins, which must not keep the bubble from settling.
			if ep.lastVer != s.ver || ep.told == nil {
				if ep.lastVer != s.ver {
					ep.spun = false
				}
				ep.lastVer, ep.told = s.ver, map[int]told{}
			}
			var open []hit
			for _, h := range hits {
				if t := ep.told[h.fd]; t.n < 4 || t.ev != h.ev {
					open = append(open, h)
				}
			}
			if len(open) == 0 {
				s.Spins++
				gone := false
				for _, h := range hits {
					if o := s.objs[h.fd]; o.k == kListen && !referenced(o.link) {
						delete(ep.in, h.fd) // closed: the real kernel would not report it
						gone = true
					}
				}
				if gone {
					continue
				}
				if !ep.spun {
					ep.spun = true
					for _, h := range hits {
						s.sys("spin", s.objs[h.fd].conn, int(h.ev), 0, nil)
					}
				}
				again = true
			} else {
				if !s.Stable {
					s.rng.Shuffle(len(open), func(i, j int) { open[i], open[j] = open[j], open[i] })
				}
				max := len(fds)
				if s.MaxEvents > 0 && s.MaxEvents < max {
					max = s.MaxEvents
				}
				n := 0
				for _, h := range open {
					if n == max {
						break
					}
					fds[n], evs[n] = int32(h.fd), h.ev
					n++
					t := ep.told[h.fd]
					if t.ev != h.ev {
						t = told{ev: h.ev}
					}
					t.n++
					ep.told[h.fd] = t
					if h.ev&(EPOLLIN|EPOLLRDHUP|EPOLLERR|EPOLLHUP) != 0 {
						h.i.seenIn = h.ei
					}
					if h.ev&EPOLLOUT != 0 {
						h.i.seenOut = h.eo
					}
					if h.i.mask&EPOLLONESHOT != 0 {
						h.i.off = true
					}
				}
				s.mu.Unlock()
				return n, 0, true
			}
		} else if msec == 0 {
			// so does one that asks again and again without waiting
			if ep.asked++; ep.askVer != s.ver {
				ep.askVer, ep.asked, ep.spun = s.ver, 0, false
			}
			if ep.asked < 30 || slept {
				s.mu.Unlock()
				return 0, 0, true
			}
			s.Spins++
			if !ep.spun {
				ep.spun = true
				s.sys("spin", nil, 0, 0, nil)
			}
			again, slept = true, true
		} else if late {
			s.mu.Unlock()
			return 0, 0, true
		}
		ch := s.changed
		ep.waiting = true
		s.mu.Unlock()
		if again || msec > 0 {
			d := Spin
			if !again {
				d = time.Until(until)
			}
			tm := time.NewTimer(d)
			select {
			case <-ch:
			case <-tm.C:
				again, late = false, !again
			}
			tm.Stop()
		} else {
			<-ch
		}
		verifhook.Y("wake")
		s.mu.Lock()
		ep.waiting = false
		if !again {
			ep.told = nil
		}
		if s.objs[epfd] != eo { // closed under us: the real call keeps sleeping
			ch := s.changed
			for !s.dead {
				s.mu.Unlock()
				<-ch
				s.mu.Lock()
				ch = s.changed
			}
		}
	}
}

// referenced says whether this process has a descriptor for the file.
func referenced(link string) bool {
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return true
	}
	for _, d := range ds {
		if l, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && l == link {
			return true
		}
	}
	return false
}

func (s *Sim) sys(op string, c *Conn, n, e int, data []byte) {
	if s.OnSys != nil {
		s.OnSys(op, c, n, e, data)
	}
}

// Read implements verifhook.Kernel.
func (s *Sim) Read(fd int, p []byte) (int, int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	o, mine := s.get(fd)
	if o == nil {
		if mine {
			s.bad("read", fd)
		}
		return -1, int(syscall.EBADF), mine
	}
	switch o.k {
	case kEvent:
		if len(p) < 8 {
			return -1, int(syscall.EINVAL), true
		}
		for o.count == 0 {
			if o.nonblock {
				return -1, int(syscall.EAGAIN), true
			}
			ch := s.changed
			s.mu.Unlock()
			<-ch
			s.mu.Lock()
			if s.dead {
				s.mu.Unlock()
				defer s.mu.Lock()
				runtime.Goexit()
			}
		}
		v := o.count
		if o.sema {
			v = 1
		}
		o.count -= v
		for i := 0; i < 8; i++ {
			p[i] = byte(v >> (8 * i))
		}
		s.bump()
		return 8, 0, true
	case kConn:
		c := o.conn
		if len(c.readErr) > 0 {
			e := c.readErr[0]
			c.readErr = c.readErr[1:]
			if e > 0 {
				s.bump()
				s.sys("read", c, -1, e, nil)
				return -1, e, true
			}
			if e < 0 && len(c.rx) > 0 && len(p) > -e {
				p = p[:-e]
			}
		}
		if len(p) == 0 {
			return 0, 0, true
		}
		if len(c.rx) > 0 {
			n := copy(p, c.rx)
			c.rx = c.rx[n:]
			s.bump()
			s.sys("read", c, n, 0, nil)
			return n, 0, true
		}
		if c.soErr != 0 {
			e := c.soErr
			c.soErr = 0
			s.bump()
			s.sys("read", c, -1, e, nil)
			return -1, e, true
		}
		if c.rxFin || c.rst {
			s.sys("read", c, 0, 0, nil)
			return 0, 0, true
		}
		s.sys("read", c, -1, int(syscall.EAGAIN), nil)
		return -1, int(syscall.EAGAIN), true
	}
	return -1, int(syscall.EINVAL), true
}

// Write implements verifhook.Kernel.
func (s *Sim) Write(fd int, p []byte) (int, int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	o, mine := s.get(fd)
	if o == nil {
		if mine {
			s.bad("write", fd)
		}
		return -1, int(syscall.EBADF), mine
	}
	switch o.k {
	case kEvent:
		if len(p) < 8 {
			return -1, int(syscall.EINVAL), true
		}
		var v uint64
		for i := 0; i < 8; i++ {
			v |= uint64(p[i]) << (8 * i)
		}
		o.count += v
		o.edge++
		s.bump()
		return 8, 0, true
	case kConn:
		c := o.conn
		// what the connection has become comes before what is injected
		if c.soErr != 0 {
			e := c.soErr
			c.soErr = 0
			s.bump()
			s.sys("write", c, -1, e, p)
			return -1, e, true
		}
		if c.shutWr || c.rst {
			s.sys("write", c, -1, int(syscall.EPIPE), p)
			return -1, int(syscall.EPIPE), true
		}
		limit := len(p)
		if len(c.writeErr) > 0 && len(p) > 0 {
			e := c.writeErr[0]
			c.writeErr = c.writeErr[1:]
			if e > 0 {
				s.bump()
				s.sys("write", c, -1, e, p)
				return -1, e, true
			}
			if e < 0 && -e < limit {
				limit = -e
			}
		}
		if len(p) == 0 {
			return 0, 0, true
		}
		if c.sndCap == 0 {
			s.sys("write", c, -1, int(syscall.EAGAIN), p)
			return -1, int(syscall.EAGAIN), true
		}
		n := limit
		if n > c.sndCap {
			n = c.sndCap
		}
		if c.peerGone {
			c.rst = true
			c.soErr = int(syscall.EPIPE)
			c.edgeIn++
			s.bump()
			s.sys("write", c, n, 0, p)
			return n, 0, true
		}
		if c.sndCap < Unlimited {
			c.sndCap -= n
		}
		c.Out = append(c.Out, p[:n]...)
		s.bump()
		s.sys("write", c, n, 0, p)
		return n, 0, true
	}
	return -1, int(syscall.EINVAL), true
}

// Close implements verifhook.Kernel.
func (s *Sim) Close(fd int) (int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	o, mine := s.get(fd)
	if o == nil {
		if mine {
			s.bad("close", fd)
		}
		return int(syscall.EBADF), mine
	}
	delete(s.objs, fd)
	for _, e := range s.objs {
		if e.k == kEpoll {
			delete(e.ep.in, fd)
		}
	}
	if c := o.conn; c != nil {
		c.Closed = true
		c.RstByUs = len(c.rx) > 0
		s.sys("close", c, 0, 0, nil)
	}
	s.bump()
	return 0, !o.real
}

// Accept implements verifhook.Kernel.
func (s *Sim) Accept(fd int) (int, []byte, int, int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var ip []byte
	o, mine := s.get(fd)
	if o == nil {
		if mine {
			s.bad("accept", fd)
		}
		return -1, ip, 0, int(syscall.EBADF), mine
	}
	if o.k != kListen {
		return -1, ip, 0, int(syscall.EINVAL), true
	}
	if len(o.accE) > 0 {
		e := o.accE[0]
		o.accE = o.accE[1:]
		if e != 0 {
			s.bump()
			return -1, ip, 0, e, true
		}
	}
	if len(o.pend) == 0 {
		return -1, ip, 0, int(syscall.EAGAIN), true
	}
	c := o.pend[0]
	o.pend = o.pend[1:]
	c.FD = s.newfd()
	c.Accepted = true
	s.objs[c.FD] = &obj{k: kConn, conn: c}
	s.bump()
	s.sys("accept", c, c.FD, 0, nil)
	return c.FD, c.IP, c.Port, 0, true
}

// Shutdown implements verifhook.Kernel.
func (s *Sim) Shutdown(fd, how int) (int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	o, mine := s.get(fd)
	if o == nil {
		if mine {
			s.bad("shutdown", fd)
		}
		return int(syscall.EBADF), mine
	}
	if o.k != kConn {
		return int(syscall.ENOTCONN), true
	}
	c := o.conn
	if c.rst {
		return int(syscall.ENOTCONN), true
	}
	if how == syscall.SHUT_WR || how == syscall.SHUT_RDWR {
		c.shutWr = true
	}
	if how == syscall.SHUT_RD || how == syscall.SHUT_RDWR {
		c.rxFin = true
	}
	c.edgeIn++
	c.edgeOut++
	s.bump()
	s.sys("shutdown", c, how, 0, nil)
	return 0, true
}

// SetNonblock implements verifhook.Kernel.
func (s *Sim) SetNonblock(fd int, nb bool) (int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	o, mine := s.get(fd)
	if o == nil && mine {
		return int(syscall.EBADF), true
	}
	if !mine {
		if e := s.due("nonblock"); e != 0 {
			return e, true
		}
	}
	if o != nil && o.k == kConn && len(s.NBErr) > 0 {
		e := s.NBErr[0]
		s.NBErr = s.NBErr[1:]
		if e != 0 {
			s.sys("nbfail", o.conn, -1, e, nil)
			return e, true
		}
	}
	return 0, mine && (o == nil || !o.real)
}

// FailNonblock scripts outcomes of the next SetNonblock calls on connections.
func (s *Sim) FailNonblock(e ...int) {
	s.mu.Lock()
	s.NBErr = append(s.NBErr, e...)
	s.mu.Unlock()
}

// ---- environment

// addr is the address of peer id; one in three has an IPv6 address.
func addr(id int) []byte {
	if id%3 == 0 {
		return []byte{0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 1, byte(id >> 8), byte(id)}
	}
	return []byte{10, 0, byte(id >> 8), byte(id)}
}

// ConnectWith queues a new connection, kept in c.
func (s *Sim) ConnectWith(c *Conn, id, port, sndCap int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	*c = Conn{ID: id, Port: port, IP: addr(id), FD: -1, sndCap: sndCap}
	if o := s.listen; o != nil {
		o.pend = append(o.pend, c)
		o.edge++
	}
	s.bump()
}

// AcceptFail scripts errno outcomes (0 = succeed) of the next accepts.
func (s *Sim) AcceptFail(errs ...int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if o := s.listen; o != nil {
		o.accE = append(o.accE, errs...)
		o.edge++
	}
	s.bump()
}

// Adopt makes a server-side descriptor for a connection without a listener.
func (s *Sim) Adopt(id, port, sndCap int) *Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := &Conn{ID: id, Port: port, IP: addr(id), sndCap: sndCap, Accepted: true}
	c.FD = s.newfd()
	s.objs[c.FD] = &obj{k: kConn, conn: c}
	s.bump()
	return c
}

// Deliver makes b arrive from the peer.
func (s *Sim) Deliver(c *Conn, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if c.rxFin || c.rst || c.Closed {
		return
	}
	c.rx = append(c.rx, b...)
	c.Arrived += len(b)
	c.edgeIn++
	s.bump()
}

// Fin: the peer closed its sending side.
func (s *Sim) Fin(c *Conn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c.rxFin = true
	c.edgeIn++
	s.bump()
}

// PeerClose: the peer closed its socket: FIN now, RST if the server writes.
func (s *Sim) PeerClose(c *Conn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c.rxFin, c.peerGone = true, true
	c.edgeIn++
	s.bump()
}

// Rst: the connection was reset by the peer.
func (s *Sim) Rst(c *Conn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if c.rst {
		return
	}
	c.rst = true
	c.soErr = int(syscall.ECONNRESET)
	if c.rxFin {
		c.soErr = int(syscall.EPIPE)
	}
	c.edgeIn++
	c.edgeOut++
	s.bump()
}

// AddCap: the peer made room for n more bytes.
func (s *Sim) AddCap(c *Conn, n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if c.sndCap >= Unlimited {
		return
	}
	if c.sndCap == 0 {
		c.edgeOut++
	}
	c.sndCap += n
	if c.sndCap > Unlimited {
		c.sndCap = Unlimited
	}
	s.bump()
}

// SetCap replaces the send capacity.
func (s *Sim) SetCap(c *Conn, n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if c.sndCap == 0 && n > 0 {
		c.edgeOut++
	}
	c.sndCap = n
	s.bump()
}

// ScriptWrite/ScriptRead add scripted outcomes of the next calls.
func (s *Sim) ScriptWrite(c *Conn, o ...int) {
	s.mu.Lock()
	c.writeErr = append(c.writeErr, o...)
	s.bump()
	s.mu.Unlock()
}

// ScriptRead adds scripted outcomes of the next reads.
func (s *Sim) ScriptRead(c *Conn, o ...int) {
	s.mu.Lock()
	c.readErr = append(c.readErr, o...)
	s.bump()
	s.mu.Unlock()
}

// Interrupt makes the next EpollWait calls fail with the given errnos.
func (s *Sim) Interrupt(e ...int) {
	s.mu.Lock()
	s.WaitErr = append(s.WaitErr, e...)
	s.bump()
	s.mu.Unlock()
}

// View is a consistent snapshot of a connection.
type View struct {
	Unread, Arrived, Out, Cap int
	Closed, RstByUs, ShutWr   bool
	Accepted, Rst, RxFin      bool
}

// View returns the state of c.
func (s *Sim) View(c *Conn) View {
	s.mu.Lock()
	defer s.mu.Unlock()
	return View{len(c.rx), c.Arrived, len(c.Out), c.sndCap, c.Closed, c.RstByUs, c.shutWr, c.Accepted, c.rst, c.rxFin}
}

// OutFrom returns a copy of the bytes the peer got, from offset o.
func (s *Sim) OutFrom(c *Conn, o int) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	if o > len(c.Out) {
		return nil
	}
	return append([]byte(nil), c.Out[o:]...)
}

// OpenConns counts connection descriptors still open; OpenAll every descriptor.
func (s *Sim) OpenConns() (n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, o := range s.objs {
		if o.k == kConn {
			n++
		}
	}
	return
}

// OpenPollers counts epoll instances and eventfds still open.
func (s *Sim) OpenPollers() (n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, o := range s.objs {
		if o.k == kEpoll || o.k == kEvent && !o.real {
			n++
		}
	}
	return
}

// Watched says whether c is in some epoll interest list.
func (s *Sim) Watched(c *Conn) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range s.objs {
		if e.k == kEpoll {
			if _, ok := e.ep.in[c.FD]; ok && !c.Closed && s.objs[c.FD] != nil && s.objs[c.FD].conn == c {
				return true
			}
		}
	}
	return false
}
