package drv

import (
	"bytes"
	"net"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"verifharness/sim"
	"verifhook"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/RussellLuo/timingwheel"
)

// Op is one step of a scenario or one action of a callback.
type Op struct {
	O   string `json:"o"`
	C   int    `json:"c"`
	N   int    `json:"n"`
	L   int    `json:"l"`
	Fin int    `json:"fin"`
	E   []int  `json:"e"`
}

// Cfg is the configuration of a server scenario.
type Cfg struct {
	Loops    int    `json:"loops"`
	Proto    string `json:"proto"` // default, raw, rec, zc, ctx
	Rec      []int  `json:"rec"`
	Pkt      int    `json:"pkt"`
	UBuf     int    `json:"ubuf"`
	TQ       int    `json:"tq"`
	Idle     int    `json:"idle"` // ms
	Strategy string `json:"strategy"`
	MaxEv    int    `json:"maxev"`
	Stable   int    `json:"stable"`
	OnMsg    [][]Op `json:"onmsg"`
	OnConn   []Op   `json:"onconn"`
	OnClose  []Op   `json:"onclose"`
	NoStart  int    `json:"nostart"` // the scenario starts the server itself
	KeepUp   int    `json:"keepup"`  // do not stop at the end
	Evs      int    `json:"evs"`     // room for events, at first
	Reuse    int    `json:"reuse"`   // SO_REUSEPORT
	Inits    []Init `json:"inits"`   // attempts to make the server that fail
	Again    int    `json:"again"`   // make another one at the end
}

// Scn is a server scenario.
type Scn struct {
	ID     string   `json:"id"`
	Kind   string   `json:"kind"`
	Seed   int64    `json:"seed"`
	Mode   string   `json:"mode"` // step or sched
	Policy string   `json:"policy"`
	Pre    []int    `json:"pre"`
	Fine   bool     `json:"fine"`
	Bound  int      `json:"bound"` // preemptions, when the schedules are enumerated
	Limit  int      `json:"limit"` // of how many schedules
	Timed  int      `json:"timed"` // time passes while the threads run
	Rounds int      `json:"rounds"`
	Cfg    Cfg      `json:"cfg"`
	Steps  [][]Op   `json:"steps"`
	Par    [][]Op   `json:"par"`   // concurrent threads, after Steps
	Final  [][]Op   `json:"final"` // after Par
	Ops    []Op     `json:"ops"`
	Thr    [][]Op   `json:"thr"`
	Data   []string `json:"data"`
	Streams
}

// Init is an attempt to make a server during which the N-th call of a kind fails.
type Init struct {
	K string `json:"k"`
	N int    `json:"n"`
}

type cst struct {
	id   int
	sc   *sim.Conn
	gc   *gev.Connection
	sent int // inbound bytes generated
	cons int // inbound bytes consumed by the protocol
	rec  int
	nmsg int
	dec  Decoder
	ctx  *int
	add  int // epoll registrations to fail
	held []int
}

// Srv executes a server scenario.
type Srv struct {
	mu     sync.Mutex
	tr     *Trace
	k      *sim.Sim
	cfg    Cfg
	srv    *gev.Server
	conns  map[int]*cst
	loops  []*eventloop.EventLoop
	gids   map[int]int
	nextID int
	calls  int
	addr   string
	stops  int
	timers map[int]*timingwheel.Timer
	sch    *Sched
	pool   []*ringbuffer.RingBuffer
	started,
	noApi bool
	ret atomic.Bool     // Start has returned
	fd0 map[string]bool // descriptors of the process before the server was made
	g0  map[string]bool // goroutines that are none of this server's
}

// before notes what there is before the server is made.
func (s *Srv) before() {
	s.fd0, s.g0 = fds(), goroutines()
}

// left says what of the server there is: descriptors (of the process, epoll
// instances, connections) and goroutines.
func (s *Srv) left() M {
	nf, ng := 0, 0
	for f := range fds() {
		if !s.fd0[f] {
			nf++
		}
	}
	for g := range goroutines() {
		if !s.g0[g] {
			ng++
		}
	}
	return M{"fd": nf, "ep": s.k.OpenPollers(), "sock": s.k.OpenConns(), "g": ng, "dial": false}
}

func (s *Srv) g() int {
	g := Gid()
	s.mu.Lock()
	defer s.mu.Unlock()
	if n, ok := s.gids[g]; ok {
		return n
	}
	n := len(s.gids) + 1
	s.gids[g] = n
	return n
}

func (s *Srv) conn(id int) *cst {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.conns[id]
}

func (s *Srv) of(c *gev.Connection) *cst {
	h, p, err := net.SplitHostPort(c.PeerAddr())
	if err != nil {
		return nil
	}
	port, _ := strconv.Atoi(p)
	ip := net.ParseIP(h)
	if n := len(ip); n > 1 {
		if cs := s.conn(int(ip[n-2])<<8 | int(ip[n-1])); cs != nil && cs.sc.Port == port && ip.Equal(cs.sc.IP) {
			return cs
		}
	}
	return nil
}

func (s *Srv) newID(n int) (int, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.nextID++
	id := s.nextID
	if n == 1 && id > 63 {
		n = 2
	}
	if n > 1 && n < 7 && id > 255 {
		n = 7
	}
	return id, n
}

// callID numbers the API calls that carry no message.
func (s *Srv) callID() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	return s.calls
}

// ---- the handler

func (s *Srv) OnConnect(c *gev.Connection) {
	cs := s.of(c)
	if cs == nil {
		s.tr.Add(M{"e": "stray", "what": "OnConnect " + c.PeerAddr()})
		return
	}
	_, has := c.Get("k")
	fresh := c.Context() == nil && !has && c.ReadBufferLength() == 0 && c.WriteBufferLength() == 0
	id := cs.id
	c.SetContext(&id)
	c.Set("k", id)
	s.mu.Lock()
	cs.gc = c
	cs.ctx = &id
	s.mu.Unlock()
	s.tr.Add(M{"e": "oc", "c": cs.id, "g": s.g(), "fresh": fresh, "up": c.Connected()})
	for _, o := range s.cfg.OnConn {
		s.api(cs, o)
	}
	s.tr.Add(M{"e": "ocr", "c": cs.id})
}

func (s *Srv) own(cs *cst, c *gev.Connection) bool {
	v, ok := c.Get("k")
	return ok && v == cs.id && c.Context() == cs.ctx && cs.gc == c
}

func (s *Srv) OnMessage(c *gev.Connection, ctx interface{}, data []byte) (out interface{}) {
	cs := s.of(c)
	if cs == nil {
		s.tr.Add(M{"e": "stray", "what": "OnMessage " + c.PeerAddr()})
		return nil
	}
	d := data
	from := cs.cons
	switch s.cfg.Proto {
	case "default", "raw", "batch":
		cs.cons += len(d)
	default:
		// the protocol has consumed exactly one record
		if x, ok := ctx.([]byte); ok && len(data) == 0 {
			d = x
		}
		from = cs.rec
	}
	ok := bytes.Equal(d, InBytes(cs.id, from, len(d)))
	s.tr.Add(M{"e": "om", "c": cs.id, "g": s.g(), "f": from, "n": len(d), "ok": ok, "own": s.own(cs, c)})
	k := cs.nmsg
	cs.nmsg++
	rid, rn := 0, 0
	if len(s.cfg.OnMsg) > 0 {
		for _, o := range s.cfg.OnMsg[k%len(s.cfg.OnMsg)] {
			if o.O == "reply" {
				rid, rn = s.newID(o.N)
				out = Msg(rid, rn)
			} else {
				s.api(cs, o)
			}
		}
	}
	s.tr.Add(M{"e": "omr", "c": cs.id, "id": rid, "n": rn})
	return out
}

func (s *Srv) OnClose(c *gev.Connection) {
	cs := s.of(c)
	if cs == nil {
		s.tr.Add(M{"e": "stray", "what": "OnClose " + c.PeerAddr()})
		return
	}
	s.tr.Add(M{"e": "ox", "c": cs.id, "g": s.g(), "up": c.Connected(), "own": s.own(cs, c) || cs.gc == nil})
	for _, o := range s.cfg.OnClose {
		s.api(cs, o)
	}
	s.tr.Add(M{"e": "oxr", "c": cs.id})
}

func errName(err error) string {
	switch err {
	case nil:
		return "ok"
	case gev.ErrConnectionClosed:
		return "closed"
	}
	return "other"
}

// api performs one use of the public API.
func (s *Srv) api(self *cst, o Op) {
	cs := self
	if o.C != 0 {
		cs = s.conn(o.C)
	}
	var c *gev.Connection
	if cs != nil {
		s.mu.Lock()
		c = cs.gc
		s.mu.Unlock()
	}
	switch o.O {
	case "send", "close", "shut", "look":
		if c == nil {
			return
		}
	}
	switch o.O {
	case "send":
		id, n := s.newID(o.N)
		b := Msg(id, n)
		s.tr.Add(M{"e": "sc", "c": cs.id, "id": id, "n": n, "fin": o.Fin})
		var err error
		if o.Fin == 0 {
			err = c.Send(b)
		} else {
			err = c.Send(b, gev.SendInLoop(func(v interface{}) {
				w, ok := v.([]byte)
				ok = ok && len(w) == len(b) && bytes.Equal(w, b)
				s.tr.Add(M{"e": "fn", "c": cs.id, "id": id, "g": s.g(), "ok": ok, "wbl": int(c.WriteBufferLength())})
			}))
		}
		s.tr.Add(M{"e": "sr", "c": cs.id, "id": id, "r": errName(err)})
	case "close":
		id := s.callID()
		s.tr.Add(M{"e": "cc", "c": cs.id, "id": id})
		err := c.Close()
		s.tr.Add(M{"e": "cr", "c": cs.id, "id": id, "r": errName(err)})
	case "shut":
		id := 1000000 + s.callID()
		s.tr.Add(M{"e": "hc", "c": cs.id, "id": id})
		err := c.ShutdownWrite()
		s.tr.Add(M{"e": "hr", "c": cs.id, "id": id, "r": errName(err)})
	case "look":
		id := s.callID()
		s.tr.Add(M{"e": "lk", "c": cs.id, "id": id, "k": "call"})
		up := c.Connected()
		s.tr.Add(M{"e": "lk", "c": cs.id, "id": id, "k": "ret", "up": up})
	case "task":
		// a task in a loop, by way of the strategy's list of loops
		s.mu.Lock()
		ls := s.loops
		s.mu.Unlock()
		id := s.callID()
		if len(ls) == 0 {
			return
		}
		l := o.L % len(ls)
		s.tr.Add(M{"e": "tc", "id": id, "l": l + 1})
		ls[l].QueueInLoop(func() { s.tr.Add(M{"e": "tr", "id": id, "l": l + 1, "g": s.g()}) })
		s.tr.Add(M{"e": "tq", "id": id, "l": l + 1})
	case "stop":
		s.mu.Lock()
		s.stops++
		id := s.stops
		s.mu.Unlock()
		s.tr.Add(M{"e": "stc", "id": id})
		s.srv.Stop()
		s.tr.Add(M{"e": "str", "id": id})
	}
}

// ---- protocols

type rawProto struct {
	gev.DefaultProtocol
	s *Srv
}

func (p *rawProto) see(c *gev.Connection, b *ringbuffer.RingBuffer) *cst {
	cs := p.s.of(c)
	if cs == nil {
		p.s.tr.Add(M{"e": "stray", "what": "UnPacket " + c.PeerAddr()})
		return nil
	}
	all := b.Bytes()
	if len(all) > 0 {
		p.s.tr.Add(M{"e": "up", "c": cs.id, "f": cs.cons, "n": len(all), "ok": bytes.Equal(all, InBytes(cs.id, cs.cons, len(all)))})
	}
	return cs
}

func (p *rawProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	p.see(c, b)
	return p.DefaultProtocol.UnPacket(c, b)
}

func (p *rawProto) Packet(c *gev.Connection, data interface{}) []byte {
	cs := p.s.of(c)
	b := data.([]byte)
	if cs != nil && len(b) > 0 {
		p.s.tr.Add(M{"e": "pk", "c": cs.id, "id": MsgID(b), "g": p.s.g()})
	}
	return p.DefaultProtocol.Packet(c, data)
}

// recProto frames the stream into records of the configured sizes.
type recProto struct {
	rawProto
	kind string
}

func (p *recProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
	cs := p.see(c, b)
	if cs == nil {
		return nil, nil
	}
	k := 1
	if r := p.s.cfg.Rec; len(r) > 0 {
		k = r[cs.nmsg%len(r)]
	}
	if b.Length() < k {
		return nil, nil
	}
	cs.rec = cs.cons
	cs.cons += k
	if p.kind == "zc" { // no copy: slices of the buffer
		first, end := b.Peek(k)
		if len(end) == 0 {
			b.Retrieve(k)
			return nil, first
		}
		out = append(append([]byte(nil), first...), end...)
		b.Retrieve(k)
		return nil, out
	}
	out = make([]byte, k)
	_, _ = b.Read(out)
	if p.kind == "ctx" && cs.nmsg%2 == 1 {
		return out, nil // only a context, no data
	}
	return nil, out
}

// batchProto hands over everything once there are so many bytes of it.
type batchProto struct {
	rawProto
}

func (p *batchProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	cs := p.see(c, b)
	if cs == nil {
		return nil, nil
	}
	if r := p.s.cfg.Rec; len(r) > 0 && b.Length() < r[cs.nmsg%len(r)] {
		return nil, nil
	}
	return p.DefaultProtocol.UnPacket(c, b)
}

// ---- execution

func (s *Srv) onSys(op string, c *sim.Conn, n, e int, data []byte) {
	id := 0
	if c != nil {
		id = c.ID
	}
	switch op {
	case "read":
		if e == int(syscall.EAGAIN) {
			return
		}
		s.tr.Add(M{"e": "rd", "c": id, "n": n, "err": e})
	case "write":
		var segs []Seg
		if n > 0 {
			if cs := s.conn(id); cs != nil {
				segs = cs.dec.Feed(data[:n])
			}
		}
		if segs == nil {
			segs = []Seg{}
		}
		s.tr.Add(M{"e": "wr", "c": id, "n": n, "want": len(data), "err": e, "again": e == int(syscall.EAGAIN), "segs": segs})
	case "close":
		s.tr.Add(M{"e": "kc", "c": id})
	case "shutdown":
		s.tr.Add(M{"e": "ks", "c": id, "how": n})
	case "accept":
		s.tr.Add(M{"e": "ac", "c": id})
	case "spin":
		s.tr.Add(M{"e": "spin", "c": id, "n": n})
	case "nbfail":
		s.tr.Add(M{"e": "nb", "c": id})
	default:
		if strings.HasPrefix(op, "bad:") {
			s.tr.Add(M{"e": "bad", "op": op[4:]})
		}
	}
}

func (s *Srv) quiet() {
	s.tr.Add(s.quietEvent())
}

func (s *Srv) quietEvent() M {
	s.mu.Lock()
	ids := make([]int, 0, len(s.conns))
	for i := 1; i <= 4096 && len(ids) < len(s.conns); i++ {
		if _, ok := s.conns[i]; ok {
			ids = append(ids, i)
		}
	}
	loops := s.loops
	s.mu.Unlock()
	cs := []M{}
	for _, id := range ids {
		c := s.conn(id)
		v := s.k.View(c.sc)
		m := M{"c": id, "unread": v.Unread, "arr": v.Arrived, "cap": min(v.Cap, 1<<30), "closed": v.Closed,
			"acc": v.Accepted, "shut": v.ShutWr, "rst": v.Rst, "fin": v.RxFin, "part": c.dec.Part(),
			"known": c.gc != nil, "up": false, "wbl": 0, "rbl": 0, "own": true}
		if c.gc != nil {
			m["up"] = c.gc.Connected()
			m["wbl"] = int(c.gc.WriteBufferLength())
			m["rbl"] = int(c.gc.ReadBufferLength())
			m["own"] = s.own(c, c.gc)
		}
		cs = append(cs, m)
	}
	counts := []int{}
	for _, l := range loops {
		counts = append(counts, int(l.ConnectionCount()))
	}
	return M{"e": "q", "cs": cs, "counts": counts}
}

func (s *Srv) strategy() gev.LoadBalanceStrategy {
	var inner gev.LoadBalanceStrategy
	switch s.cfg.Strategy {
	case "lc":
		inner = gev.LeastConnection()
	case "last":
		inner = func(l []*eventloop.EventLoop) *eventloop.EventLoop { return l[len(l)-1] }
	case "first":
		inner = func(l []*eventloop.EventLoop) *eventloop.EventLoop { return l[0] }
	default:
		inner = gev.RoundRobin()
	}
	return func(l []*eventloop.EventLoop) *eventloop.EventLoop {
		s.mu.Lock()
		first := s.loops == nil
		if first {
			s.loops = append([]*eventloop.EventLoop(nil), l...)
		}
		s.mu.Unlock()
		before := []int{}
		for _, x := range l {
			before = append(before, int(x.ConnectionCount()))
		}
		p := inner(l)
		pick := 0
		after := []int{}
		for i, x := range l {
			if x == p {
				pick = i + 1
			}
			after = append(after, int(x.ConnectionCount()))
		}
		s.tr.Add(M{"e": "as", "pick": pick, "before": before, "after": after, "g": s.g()})
		if first { // find out which goroutine runs which loop
			for i := range l {
				i := i
				l[i].QueueInLoop(func() { s.tr.Add(M{"e": "lg", "l": i + 1, "g": s.g()}) })
			}
		}
		return p
	}
}

// env performs one action of the environment (peers, kernel, clock, clients).
func (s *Srv) env(o Op) {
	switch o.O {
	case "conn":
		cap := o.N
		if cap < 0 {
			cap = sim.Unlimited
		}
		s.mu.Lock()
		if _, dup := s.conns[o.C]; dup {
			s.mu.Unlock()
			return
		}
		cs := &cst{id: o.C}
		cs.sc = &sim.Conn{Port: 2000 + o.C}
		s.conns[o.C] = cs
		s.mu.Unlock()
		s.tr.Add(M{"e": "conn", "c": o.C, "cap": min(cap, 1<<30)})
		s.k.ConnectWith(cs.sc, o.C, 2000+o.C, cap)
		return
	case "acc":
		s.k.AcceptFail(o.E...)
		return
	case "nbf":
		s.k.FailNonblock(o.E...)
		return
	case "wait":
		s.k.Interrupt(o.E...)
		return
	case "adv":
		time.Sleep(time.Duration(o.N) * time.Microsecond)
		return
	case "after", "every":
		id := o.C
		d := time.Duration(o.N) * time.Microsecond
		s.tr.Add(M{"e": "ta", "id": id, "d": o.N, "every": o.O == "every", "k": "call"})
		f := func() { s.tr.Add(M{"e": "tf", "id": id}) }
		var t *timingwheel.Timer
		if o.O == "after" {
			t = s.srv.RunAfter(d, f)
		} else {
			t = s.srv.RunEvery(d, f)
		}
		s.mu.Lock()
		s.timers[id] = t
		s.mu.Unlock()
		s.tr.Add(M{"e": "ta", "id": id, "d": o.N, "every": o.O == "every", "k": "ret"})
		return
	case "tstop":
		s.mu.Lock()
		t := s.timers[o.C]
		s.mu.Unlock()
		if t != nil {
			r := t.Stop()
			s.tr.Add(M{"e": "ts", "id": o.C, "r": r})
		}
		return
	case "start":
		s.start()
		return
	case "stop":
		go s.api(nil, o)
		return
	case "stopn": // several at once
		for i := 0; i < o.N; i++ {
			go s.api(nil, Op{O: "stop"})
		}
		return
	case "dial":
		s.tr.Add(M{"e": "dial", "ok": dialable(s.addr)})
		return
	}
	cs := s.conn(o.C)
	switch o.O {
	case "in", "cap", "fin", "gone", "rst", "wr", "rd", "addf", "setcap":
		if cs == nil {
			return
		}
	}
	switch o.O {
	case "in":
		b := InBytes(o.C, cs.sent, o.N)
		v := s.k.View(cs.sc)
		if v.RxFin || v.Rst || v.Closed {
			return
		}
		s.tr.Add(M{"e": "in", "c": o.C, "n": o.N})
		cs.sent += o.N
		s.k.Deliver(cs.sc, b)
	case "cap":
		s.tr.Add(M{"e": "cap", "c": o.C, "n": o.N})
		n := o.N
		if n < 0 {
			n = sim.Unlimited
		}
		s.k.AddCap(cs.sc, n)
	case "fin":
		s.tr.Add(M{"e": "fin", "c": o.C, "k": "half"})
		s.k.Fin(cs.sc)
	case "gone":
		s.tr.Add(M{"e": "fin", "c": o.C, "k": "gone"})
		s.k.PeerClose(cs.sc)
	case "rst":
		s.tr.Add(M{"e": "fin", "c": o.C, "k": "rst"})
		s.k.Rst(cs.sc)
	case "wr":
		s.k.ScriptWrite(cs.sc, o.E...)
	case "rd":
		s.k.ScriptRead(cs.sc, o.E...)
	case "addf":
		cs.add++
	default:
		s.api(nil, o)
	}
}

func (s *Srv) start() {
	if s.started {
		return
	}
	s.started = true
	go func() {
		verifhook.Y("go")
		s.tr.Add(M{"e": "stt", "k": "call"})
		s.srv.Start()
		s.tr.Add(M{"e": "stt", "k": "ret"})
		s.ret.Store(true)
	}()
}

// RunServer executes scn inside a bubble.
func RunServer(scn *Scn, st *Stats) (line []byte) {
	oldP, oldB, oldQ := eventloop.DefaultPacketSize, eventloop.DefaultBufferSize, eventloop.DefaultTaskQueueSize
	defer func() {
		eventloop.DefaultPacketSize, eventloop.DefaultBufferSize, eventloop.DefaultTaskQueueSize = oldP, oldB, oldQ
	}()
	cfg := scn.Cfg
	loops := cfg.Loops
	if loops == 0 { // as many as there are processors
		loops = runtime.NumCPU()
	}
	if cfg.Pkt > 0 {
		eventloop.DefaultPacketSize = cfg.Pkt
	}
	if cfg.UBuf > 0 {
		eventloop.DefaultBufferSize = cfg.UBuf
	}
	if cfg.TQ > 0 {
		eventloop.DefaultTaskQueueSize = cfg.TQ
	}
	k := sim.New(scn.Seed)
	k.MaxEvents = cfg.MaxEv
	k.Stable = cfg.Stable != 0
	tr := NewTrace()
	s := &Srv{tr: tr, k: k, cfg: cfg, conns: map[int]*cst{}, gids: map[int]int{}, timers: map[int]*timingwheel.Timer{}}
	k.OnSys = s.onSys
	k.CtlFail = func(op, fd int, c *sim.Conn) int {
		if c == nil || op != 1 {
			return 0
		}
		cs := s.conn(c.ID)
		if cs != nil && cs.add > 0 {
			cs.add--
			tr.Add(M{"e": "af", "c": c.ID})
			return int(syscall.ENOMEM)
		}
		return 0
	}
	verifhook.PoolGet = func() interface{} {
		s.mu.Lock()
		defer s.mu.Unlock()
		if n := len(s.pool); n > 0 {
			b := s.pool[n-1]
			s.pool = s.pool[:n-1]
			return b
		}
		return nil
	}
	verifhook.PoolPut = func(v interface{}) bool {
		s.mu.Lock()
		s.pool = append(s.pool, v.(*ringbuffer.RingBuffer))
		s.mu.Unlock()
		return true
	}
	verifhook.SetKernel(k)
	verifhook.SetTimerTask(func() {
		time.Sleep(20 * time.Microsecond)
		verifhook.Y("timer")
	})
	defer func() {
		verifhook.SetKernel(nil)
		verifhook.SetYield(nil)
		verifhook.SetTimerTask(nil)
		verifhook.PoolGet, verifhook.PoolPut = nil, nil
	}()

	s.addr = freeAddr()
	opts := []gev.Option{gev.Address(s.addr), gev.NumLoops(cfg.Loops), gev.LoadBalance(s.strategy())}
	switch cfg.Proto {
	case "", "default":
		s.cfg.Proto = "default"
	case "raw":
		opts = append(opts, gev.CustomProtocol(&rawProto{s: s}))
	case "batch":
		opts = append(opts, gev.CustomProtocol(&batchProto{rawProto{s: s}}))
	default:
		opts = append(opts, gev.CustomProtocol(&recProto{rawProto{s: s}, cfg.Proto}))
	}
	if cfg.Idle > 0 {
		opts = append(opts, gev.IdleTime(time.Duration(cfg.Idle)*time.Microsecond))
	}
	if cfg.Reuse != 0 {
		opts = append(opts, gev.ReusePort(true))
	}
	tr.Add(M{"e": "cfg", "loops": loops, "proto": s.cfg.Proto, "strategy": cfg.Strategy, "idle": cfg.Idle})
	verifhook.SetEvents(cfg.Evs)
	defer verifhook.SetEvents(0)
	s.before()
	for _, x := range append(append([]Init(nil), cfg.Inits...), Init{}) {
		k.FailNth(x.K, x.N)
		srv, err := gev.NewServer(s, opts...)
		s.srv = srv
		hit := k.Failed > 0
		k.FailNth("", 0)
		m := s.left()
		m["e"], m["hit"], m["ok"] = "new", hit, err == nil
		if err != nil {
			m["dial"] = dialable(s.addr)
		}
		tr.Add(m)
		if err == nil {
			break
		}
	}
	if s.srv == nil {
		tr.Close()
		k.Kill()
		return tr.Line(scn.ID)
	}
	if scn.Mode == "sched" {
		s.sch = NewSched(scn.Seed, scn.Policy, scn.Pre, scn.Fine)
		verifhook.SetYield(s.sch.Yield)
	}
	settle := func() {
		if s.sch != nil {
			s.sch.Run()
			if s.sch.Over { // the rest runs freely: it must settle
				s.sch.Stop()
				synctest.Wait()
			}
		} else {
			synctest.Wait()
		}
		s.quiet()
	}
	if cfg.NoStart == 0 {
		s.start()
		synctest.Wait()
	}
	groups := func(gs [][]Op) {
		for _, g := range gs {
			for _, o := range g {
				s.env(o)
			}
			synctest.Wait()
			s.quiet()
		}
	}
	groups(scn.Steps)
	if len(scn.Par) > 0 {
		if s.sch != nil {
			s.sch.Start()
		}
		var open atomic.Int32
		if scn.Timed != 0 && s.sch != nil {
			s.sch.Pending = func() bool { return open.Load() > 0 }
			s.sch.Lag = func(d time.Duration) {
				time.Sleep(d)
				tr.Add(M{"e": "lag", "d": int(d / time.Microsecond)})
			}
		}
		for i := range scn.Par {
			th := scn.Par[i]
			open.Add(1)
			go func() {
				defer open.Add(-1)
				for _, o := range th {
					verifhook.Y("op")
					if o.O == "stop" {
						s.api(nil, o)
					} else {
						s.env(o)
					}
				}
			}()
			if scn.Policy == "enum" {
				synctest.Wait() // the same order every time
			}
		}
		if scn.Timed != 0 && s.sch != nil { // what is overdue catches up
			s.sch.Run()
			s.sch.Stop()
			time.Sleep(5 * time.Millisecond)
		}
		settle()
		if s.sch != nil {
			st.Sched(s.sch)
			s.sch.Stop()
			synctest.Wait()
			s.quiet()
		}
	}
	groups(scn.Final)
	if cfg.KeepUp == 0 && s.started {
		if s.stops == 0 {
			s.env(Op{O: "stop"})
			synctest.Wait()
			s.quiet()
		}
		s.env(Op{O: "dial"})
		if len(s.timers) > 0 || cfg.Idle > 0 { // nothing may fire any more
			time.Sleep(100 * time.Millisecond)
			synctest.Wait()
			s.quiet()
		}
		if s.ret.Load() {
			m := s.left()
			m["e"] = "left"
			tr.Add(m)
		}
		tr.Add(M{"e": "end"})
	}
	if cfg.Again != 0 && s.ret.Load() { // nothing stands in the way of another server
		srv, err := gev.NewServer(s, opts...)
		tr.Add(M{"e": "again", "ok": err == nil})
		if err == nil {
			go srv.Start()
			synctest.Wait()
			tr.Add(M{"e": "againup", "ok": dialable(s.addr)})
			go srv.Stop()
			synctest.Wait()
			m := s.left()
			m["e"] = "left"
			tr.Add(m)
		}
	}
	tr.Close()
	k.Kill()
	return tr.Line(scn.ID)
}
