package drv

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"unicode/utf8"

	"verifharness/sim"
	"verifhook"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/gev/plugins/websocket/ws/util"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/gobwas/httphead"
)

// Hdr is a header line of a handshake request: class H, spelt NM, value V.
type Hdr struct {
	H  string `json:"h"`
	NM string `json:"nm"`
	SP string `json:"sp"`
	V  string `json:"v"`
}

// Item is one unit of what a peer sends: a handshake request ("rq"), a
// WebSocket frame ("fr"), a protobuf message ("pb") or a malformed one.
type Item struct {
	K    string `json:"k"`
	RL   string `json:"rl"`
	HD   []Hdr  `json:"hd"`
	Op   int    `json:"op"`
	Fin  int    `json:"fin"`
	N    int    `json:"n"`
	Enc  int    `json:"enc"` // 7, 16 or 64
	Mask int    `json:"mask"`
	Code int    `json:"code"` // close frames; -1: no status
	Utf  int    `json:"utf"`
	Bad  int    `json:"bad"`
	TL   int    `json:"tl"`
	WL   int    `json:"wl"`
	WT   int    `json:"wt"`
}

// Hooks says what the user's handshake hooks do.
type Hooks struct {
	Req    string `json:"req"` // none, ok, rej, plain
	Host   string `json:"host"`
	Header string `json:"header"`
	Before string `json:"before"`
	Proto  string `json:"proto"` // none, chat, custom
	Ext    string `json:"ext"`   // none, deflate, all
	Srv    int    `json:"srv"`   // extra response header
}

// Streams is the configuration of a stream scenario.
type Streams struct {
	Hooks Hooks    `json:"hooks"`
	Items [][]Item `json:"items"` // of connection 1, 2, ..
}

type strm struct {
	id    int
	sc    *sim.Conn
	gc    *gev.Connection
	bytes []byte
	ends  []int
	sent  int
	nmsg  int
	dec   outDec
	up    bool
	outN  int
	outOK bool
	exp   []byte
	kept  [][]byte
	khash []int

	keptS  []string
	khashS []int
}

// keep holds on to a delivered payload.
func (x *strm) keep(b []byte) {
	x.kept = append(x.kept, b)
	x.khash = append(x.khash, hash(b))
}

type stream struct {
	mu    sync.Mutex
	kind  string
	tr    *Trace
	k     *sim.Sim
	cfg   Cfg
	st    Streams
	srv   *gev.Server
	conns map[int]*strm
	sch   *Sched
	pool  []*ringbuffer.RingBuffer
	next  int
	stops int
}

func hash(b []byte) int { return int(crc32.ChecksumIEEE(b) >> 2) }

func payload(seed, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = msgByte(seed, i)
	}
	return b
}

func ascii(seed, n int) []byte {
	b := payload(seed, n)
	for i := range b {
		b[i] = 'a' + b[i]%26
	}
	return b
}

func key(i int) string {
	return base64.StdEncoding.EncodeToString(payload(77000+i, 16))
}

func accept(k string) string {
	h := sha1.Sum([]byte(k + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

// encode renders an item; the map describes it in the trace.
func encode(it Item, c, i int) ([]byte, M) {
	seed := c*1000 + i
	switch it.K {
	case "rq":
		var b bytes.Buffer
		b.WriteString(it.RL + "\r\n")
		hd := []M{}
		for j, h := range it.HD {
			v := h.V
			if h.H == "key" {
				switch h.V {
				case "ok":
					v = key(seed*10 + j)
				case "short":
					v = key(seed*10 + j)[:20]
				case "long":
					v = key(seed*10+j) + "="
				}
			}
			if h.H == "junk" {
				b.WriteString(h.V + "\r\n")
			} else {
				b.WriteString(h.NM + ":" + h.SP + v + "\r\n")
			}
			hd = append(hd, M{"h": h.H, "v": h.V, "nm": h.NM})
		}
		b.WriteString("\r\n")
		return b.Bytes(), M{"k": "rq", "b": b.Len(), "rl": it.RL, "hd": hd}
	case "fr":
		n := it.N
		var p []byte
		utf := true
		if it.Op == 8 {
			p = nil
			if it.Code >= 0 && n >= 2 {
				p = append(p, byte(it.Code>>8), byte(it.Code))
				r := ascii(seed, n-2)
				if it.Utf == 0 && n > 2 {
					r[len(r)-1] = 0xff
					utf = utf8.Valid(r)
				}
				p = append(p, r...)
			} else {
				p = payload(seed, n)
			}
		} else {
			p = payload(seed, n)
		}
		b := []byte{byte(it.Op)}
		if it.Fin != 0 {
			b[0] |= 0x80
		}
		mb := byte(0)
		if it.Mask != 0 {
			mb = 0x80
		}
		switch it.Enc {
		case 7:
			b = append(b, mb|byte(n))
		case 16:
			b = append(b, mb|126, byte(n>>8), byte(n))
		default:
			var l [8]byte
			binary.BigEndian.PutUint64(l[:], uint64(n))
			if it.Bad != 0 {
				l[0] |= 0x80
			}
			b = append(append(b, mb|127), l[:]...)
		}
		q := append([]byte(nil), p...)
		if it.Mask != 0 {
			m := payload(seed+500000, 4)
			b = append(b, m...)
			for j := range q {
				q[j] ^= m[j%4]
			}
		}
		b = append(b, q...)
		return b, M{"k": "fr", "b": len(b), "op": it.Op, "fin": it.Fin != 0, "n": n, "h": hash(p), "enc": it.Enc,
			"mask": it.Mask != 0, "code": it.Code, "utf": utf, "bad": it.Bad != 0}
	case "pb":
		t, d := ascii(seed, it.TL), payload(seed+300000, it.N)
		if it.Bad != 0 {
			b := make([]byte, 6, 6+it.N)
			binary.BigEndian.PutUint32(b, uint32(it.WL))
			binary.BigEndian.PutUint16(b[4:], uint16(it.WT))
			b = append(b, d...)
			return b, M{"k": "pb", "b": len(b), "bad": true, "wl": it.WL, "wt": it.WT}
		}
		b := protobuf.PackMessage(string(t), d)
		return b, M{"k": "pb", "b": len(b), "bad": false, "tn": it.TL, "th": hash(t), "n": it.N, "h": hash(d)}
	}
	panic("harness: item " + it.K)
}

// outDec splits what the server sends a WebSocket client.
type outDec struct {
	buf []byte
	ws  bool // the upgrade was answered: frames from here on
}

// next decodes one item if it is complete.
func (d *outDec) next(kind string, keys []string) M {
	b := d.buf
	if len(b) == 0 {
		return nil
	}
	if !d.ws {
		i := bytes.Index(b, []byte("\r\n\r\n"))
		if i < 0 {
			if len(b) > 8192 || !bytes.HasPrefix([]byte("HTTP/1.1 "), b[:min(len(b), 9)]) {
				d.buf = nil
				return M{"k": "junk"}
			}
			return nil
		}
		lines := strings.Split(string(b[:i]), "\r\n")
		f := strings.SplitN(lines[0], " ", 3)
		st := 0
		if len(f) >= 2 && f[0] == "HTTP/1.1" {
			st, _ = strconv.Atoi(f[1])
		}
		cl := 0
		m := M{"k": "http", "st": st, "acc": 0, "up": false, "cn": false, "proto": "", "ext": []string{}, "srv": 0, "ups": 0, "rej": 0, "v13": false, "dup": false}
		seen := map[string]int{}
		for _, l := range lines[1:] {
			kv := strings.SplitN(l, ":", 2)
			if len(kv) != 2 {
				d.buf = nil
				return M{"k": "junk"}
			}
			v := strings.TrimSpace(kv[1])
			n := strings.ToLower(kv[0])
			seen[n]++
			switch n {
			case "content-length":
				cl, _ = strconv.Atoi(v)
			case "upgrade":
				m["up"] = strings.EqualFold(v, "websocket")
			case "connection":
				m["cn"] = strings.EqualFold(v, "upgrade")
			case "sec-websocket-accept":
				for j, k := range keys {
					if accept(k) == v {
						m["acc"] = j + 1
					}
				}
			case "sec-websocket-protocol":
				m["proto"] = v
			case "sec-websocket-extensions":
				e := []string{}
				for _, x := range strings.Split(v, ",") {
					e = append(e, strings.TrimSpace(strings.SplitN(x, ";", 2)[0]))
				}
				m["ext"] = e
			case "sec-websocket-version":
				m["v13"] = v == "13"
			case "x-srv":
				m["srv"] = m["srv"].(int) + 1
			case "x-up":
				m["ups"] = m["ups"].(int) + 1
			case "x-rej":
				m["rej"], _ = strconv.Atoi(v)
			}
		}
		for _, h := range []string{"upgrade", "connection", "sec-websocket-accept", "content-length", "sec-websocket-protocol"} {
			if seen[h] > 1 {
				m["dup"] = true
			}
		}
		if len(b) < i+4+cl {
			return nil
		}
		d.buf = append([]byte(nil), b[i+4+cl:]...)
		if st == 101 {
			d.ws = true
		}
		return m
	}
	if len(b) < 2 {
		return nil
	}
	n, h := int(b[1]&0x7f), 2
	switch n {
	case 126:
		if len(b) < 4 {
			return nil
		}
		n, h = int(binary.BigEndian.Uint16(b[2:])), 4
	case 127:
		if len(b) < 10 {
			return nil
		}
		v := binary.BigEndian.Uint64(b[2:])
		if v > 1<<30 {
			d.buf = nil
			return M{"k": "junk"}
		}
		n, h = int(v), 10
	}
	masked := b[1]&0x80 != 0
	if masked {
		h += 4
	}
	if len(b) < h+n {
		return nil
	}
	p := b[h : h+n]
	m := M{"k": "fr", "op": int(b[0] & 15), "fin": b[0]&0x80 != 0, "rsv": int(b[0]>>4) & 7, "masked": masked, "n": n, "h": hash(p), "code": -1, "min": true}
	m["min"] = h == 2 && n < 126 || h == 4 && n > 125 || h == 10 && n > 65535
	if b[0]&15 == 8 && n >= 2 {
		m["code"] = int(binary.BigEndian.Uint16(p))
	}
	d.buf = append([]byte(nil), b[h+n:]...)
	return m
}

func (s *stream) of(c *gev.Connection) *strm {
	a := c.PeerAddr()
	i := strings.LastIndexByte(a, ':')
	p, _ := strconv.Atoi(a[i+1:])
	s.mu.Lock()
	defer s.mu.Unlock()
	if x := s.conns[p-2000]; x != nil {
		return x
	}
	panic("harness: unknown peer " + a)
}

func (s *stream) conn(id int) *strm {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.conns[id]
}

func (s *stream) newID() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.next++
	return s.next
}

// reply makes the payload of message id.
func (s *stream) msg(n int) (int, []byte) {
	id := s.newID()
	return id, payload(900000+id, n)
}

// ---- WebSocket handler

type wsH struct{ s *stream }

func (h *wsH) OnConnect(c *gev.Connection) {
	x := h.s.of(c)
	h.s.mu.Lock()
	x.gc = c
	h.s.mu.Unlock()
	h.s.tr.Add(M{"e": "oc", "c": x.id})
}

func (h *wsH) OnClose(c *gev.Connection) {
	h.s.tr.Add(M{"e": "ox", "c": h.s.of(c).id})
}

func (h *wsH) OnMessage(c *gev.Connection, msg []byte) (t ws.MessageType, out []byte) {
	s := h.s
	x := s.of(c)
	s.tr.Add(M{"e": "om", "c": x.id, "n": len(msg), "h": hash(msg)})
	x.keep(msg)
	k := x.nmsg
	x.nmsg++
	typ, id := 1, 0
	if len(s.cfg.OnMsg) > 0 {
		for _, o := range s.cfg.OnMsg[k%len(s.cfg.OnMsg)] {
			switch o.O {
			case "echo":
				out = msg
				typ = o.L
			case "reply":
				id, out = s.msg(o.N)
				typ = o.L
			default:
				s.api(x, o)
			}
		}
	}
	s.tr.Add(M{"e": "omr", "c": x.id, "id": id, "n": len(out), "op": typ, "h": hash(out)})
	if typ == 1 {
		return ws.MessageText, out
	}
	return ws.MessageBinary, out
}

// ---- protobuf handler

type pbH struct{ s *stream }

func (h *pbH) OnConnect(c *gev.Connection) {
	x := h.s.of(c)
	h.s.mu.Lock()
	x.gc = c
	h.s.mu.Unlock()
	h.s.tr.Add(M{"e": "oc", "c": x.id})
}

func (h *pbH) OnClose(c *gev.Connection) { h.s.tr.Add(M{"e": "ox", "c": h.s.of(c).id}) }

func (h *pbH) OnMessage(c *gev.Connection, ctx interface{}, data []byte) (out interface{}) {
	s := h.s
	x := s.of(c)
	t, ok := ctx.(string)
	s.tr.Add(M{"e": "om", "c": x.id, "ok": ok, "tn": len(t), "th": hash([]byte(t)), "n": len(data), "h": hash(data)})
	x.keep(data)
	x.keptS = append(x.keptS, t)
	x.khashS = append(x.khashS, hash([]byte(t)))
	k := x.nmsg
	x.nmsg++
	if len(s.cfg.OnMsg) > 0 {
		for _, o := range s.cfg.OnMsg[k%len(s.cfg.OnMsg)] {
			if o.O == "reply" {
				_, b := s.msg(o.N)
				b = protobuf.PackMessage("r", b)
				s.mu.Lock()
				x.exp = append(x.exp, b...)
				s.mu.Unlock()
				out = b
			}
		}
	}
	return out
}

func (s *stream) api(self *strm, o Op) {
	x := self
	if o.C != 0 {
		x = s.conn(o.C)
	}
	if x == nil {
		return
	}
	s.mu.Lock()
	c, up := x.gc, x.up
	s.mu.Unlock()
	if c == nil {
		return
	}
	switch o.O {
	case "psend":
		if !up {
			return
		}
		id, p := s.msg(max(o.N, 4))
		t := ws.MessageText
		if o.L == 2 {
			t = ws.MessageBinary
		}
		b, err := util.PackData(t, p)
		if err != nil {
			s.tr.Add(M{"e": "packerr"})
			return
		}
		s.tr.Add(M{"e": "sc", "c": x.id, "id": id, "op": int(t), "n": len(p), "h": hash(p)})
		err = c.Send(b)
		s.tr.Add(M{"e": "sr", "c": x.id, "id": id, "r": errName(err)})
	case "pclose": // the application's own close frame
		if !up {
			return
		}
		id := s.newID()
		r := ascii(900000+id, max(o.N, 4))
		b, err := util.PackCloseData(string(r))
		if err != nil {
			s.tr.Add(M{"e": "packerr"})
			return
		}
		p := append([]byte{1000 >> 8, 1000 & 255}, r[:min(len(r), 123)]...)
		s.tr.Add(M{"e": "sc", "c": x.id, "id": id, "op": 8, "n": len(p), "h": hash(p)})
		err = c.Send(b)
		s.tr.Add(M{"e": "sr", "c": x.id, "id": id, "r": errName(err)})
	case "close":
		s.tr.Add(M{"e": "cc", "c": x.id})
		_ = c.Close()
	}
}

// ---- handshake hooks

func (s *stream) upgrader() *ws.Upgrader {
	h := s.st.Hooks
	u := &ws.Upgrader{}
	verdict := func(what string, code int) error {
		switch what {
		case "rej":
			return ws.RejectConnectionError(ws.RejectionStatus(code), ws.RejectionReason("no"),
				ws.RejectionHeader(ws.HandshakeHeaderString("X-Rej: "+strconv.Itoa(code)+"\r\n")))
		case "plain":
			return errors.New("plain error " + strconv.Itoa(code))
		}
		return nil
	}
	note := func(c *gev.Connection, hook string) {
		s.tr.Add(M{"e": "hook", "c": s.of(c).id, "h": hook})
	}
	if h.Req != "none" && h.Req != "" {
		u.OnRequest = func(c *gev.Connection, uri []byte) error {
			note(c, "req")
			return verdict(h.Req, 403)
		}
	}
	if h.Host != "none" && h.Host != "" {
		u.OnHost = func(c *gev.Connection, host []byte) error {
			note(c, "host")
			if string(host) == "bad.example" {
				return verdict(h.Host, 451)
			}
			return nil
		}
	}
	if h.Header != "none" && h.Header != "" {
		u.OnHeader = func(c *gev.Connection, k, v []byte) error {
			note(c, "header")
			if string(k) == "X-Bad" {
				return verdict(h.Header, 401)
			}
			return nil
		}
	}
	if h.Before != "none" && h.Before != "" {
		u.OnBeforeUpgrade = func(c *gev.Connection) (ws.HandshakeHeader, error) {
			note(c, "before")
			if err := verdict(h.Before, 429); err != nil {
				return nil, err
			}
			return ws.HandshakeHeaderString("X-Up: 1\r\n"), nil
		}
	}
	switch h.Proto {
	case "chat":
		u.Protocol = func(p []byte) bool { return string(p) == "chat" }
	case "any":
		u.Protocol = func(p []byte) bool { return string(p) == "chat" || string(p) == "superchat" }
	case "custom":
		u.ProtocolCustom = func(c *gev.Connection, v []byte) (string, bool) {
			return "custom", !bytes.Contains(v, []byte("refuse"))
		}
	}
	switch h.Ext {
	case "deflate":
		u.Extension = func(o httphead.Option) bool { return string(o.Name) == "permessage-deflate" }
	case "all":
		u.Extension = func(o httphead.Option) bool { return true }
	case "custom":
		u.ExtensionCustom = func(c *gev.Connection, v []byte, o []httphead.Option) ([]httphead.Option, bool) {
			return append(o, httphead.Option{Name: []byte("custom")}), !bytes.Contains(v, []byte("refuse"))
		}
	}
	if h.Srv != 0 {
		u.Header = ws.HandshakeHeaderString("X-Srv: gev\r\n")
	}
	return u
}

// ---- execution

func (s *stream) keys(x *strm) (ks []string) {
	if x.id > len(s.st.Items) {
		return
	}
	for i, it := range s.st.Items[x.id-1] {
		for j, h := range it.HD {
			if h.H == "key" {
				ks = append(ks, key((x.id*1000+i)*10+j))
			}
		}
	}
	return
}

func (s *stream) onSys(op string, c *sim.Conn, n, e int, data []byte) {
	if c == nil {
		if strings.HasPrefix(op, "bad:") {
			s.tr.Add(M{"e": "bad", "op": op[4:]})
		}
		return
	}
	x := s.conn(c.ID)
	switch op {
	case "read":
		if e == 0 && n > 0 {
			s.tr.AddRead(x.id, n)
		} else if e != int(syscall.EAGAIN) {
			s.tr.Add(M{"e": "rd", "c": x.id, "n": n, "err": e})
		}
	case "write":
		if e != 0 && e != int(syscall.EAGAIN) {
			s.tr.Add(M{"e": "we", "c": x.id})
		}
		if n <= 0 {
			return
		}
		if s.kind == "pb" {
			s.mu.Lock()
			ok := x.outN+n <= len(x.exp) && bytes.Equal(x.exp[x.outN:x.outN+n], data[:n])
			x.outN += n
			s.mu.Unlock()
			s.tr.Add(M{"e": "wr", "c": x.id, "n": n, "ok": ok})
			return
		}
		x.dec.buf = append(x.dec.buf, data[:n]...)
		for {
			m := x.dec.next(s.kind, s.keys(x))
			if m == nil {
				break
			}
			s.tr.Add(M{"e": "out", "c": x.id, "m": m})
			if x.dec.ws {
				s.mu.Lock()
				x.up = true
				s.mu.Unlock()
			}
		}
	case "close":
		s.tr.Add(M{"e": "kc", "c": x.id})
	case "shutdown":
		s.tr.Add(M{"e": "ks", "c": x.id, "how": n})
	default:
		if strings.HasPrefix(op, "bad:") {
			s.tr.Add(M{"e": "bad", "op": op[4:]})
		}
	}
}

func (s *stream) env(o Op) {
	if o.O == "conn" {
		s.mu.Lock()
		if s.conns[o.C] != nil || o.C > len(s.st.Items) {
			s.mu.Unlock()
			return
		}
		x := &strm{id: o.C, sc: &sim.Conn{Port: 2000 + o.C}, outOK: true}
		its := []M{}
		// all packed before any is used: a message must survive the next one
		enc := [][]byte{}
		for i, it := range s.st.Items[o.C-1] {
			b, m := encode(it, o.C, i)
			enc = append(enc, b)
			its = append(its, m)
		}
		for _, b := range enc {
			x.bytes = append(x.bytes, b...)
			x.ends = append(x.ends, len(x.bytes))
		}
		s.conns[o.C] = x
		s.mu.Unlock()
		s.tr.Add(M{"e": "conn", "c": o.C, "items": its})
		n := o.N
		if n < 0 {
			n = sim.Unlimited
		}
		s.k.ConnectWith(x.sc, o.C, 2000+o.C, n)
		return
	}
	if o.O == "stop" {
		go func() {
			s.tr.Add(M{"e": "stop"})
			s.srv.Stop()
			s.tr.Add(M{"e": "stopped"})
		}()
		return
	}
	x := s.conn(o.C)
	if x == nil {
		return
	}
	switch o.O {
	case "seg", "segi":
		n := min(o.N, len(x.bytes)-x.sent)
		if o.O == "segi" { // up to the end of item L, and N bytes more (or less)
			if o.L < 1 || o.L > len(x.ends) {
				return
			}
			n = min(x.ends[o.L-1]+o.N, len(x.bytes)) - x.sent
		} else if o.N < 0 {
			n = len(x.bytes) - x.sent
		}
		v := s.k.View(x.sc)
		if n <= 0 || v.RxFin || v.Rst || v.Closed {
			return
		}
		b := x.bytes[x.sent : x.sent+n]
		x.sent += n
		s.k.Deliver(x.sc, b)
	case "cap":
		n := o.N
		if n < 0 {
			n = sim.Unlimited
		}
		s.k.AddCap(x.sc, n)
	case "wr":
		s.k.ScriptWrite(x.sc, o.E...)
	case "rd":
		s.k.ScriptRead(x.sc, o.E...)
	case "fin":
		s.tr.Add(M{"e": "fin", "c": o.C})
		s.k.Fin(x.sc)
	case "rst":
		s.tr.Add(M{"e": "fin", "c": o.C})
		s.k.Rst(x.sc)
	default:
		s.api(nil, o)
	}
}

func (s *stream) quiet() {
	cs := []M{}
	for i := 1; i <= len(s.st.Items); i++ {
		x := s.conn(i)
		if x == nil {
			continue
		}
		v := s.k.View(x.sc)
		s.mu.Lock()
		owed := len(x.exp) - x.outN
		s.mu.Unlock()
		cs = append(cs, M{"c": i, "unread": v.Unread, "cap": min(v.Cap, 1<<30), "closed": v.Closed, "part": len(x.dec.buf), "owed": owed})
	}
	s.tr.Add(M{"e": "q", "cs": cs})
}

// RunStream executes a WebSocket or protobuf scenario inside a bubble.
func RunStream(scn *Scn, st *Stats) []byte {
	oldP, oldB, oldQ := eventloop.DefaultPacketSize, eventloop.DefaultBufferSize, eventloop.DefaultTaskQueueSize
	defer func() {
		eventloop.DefaultPacketSize, eventloop.DefaultBufferSize, eventloop.DefaultTaskQueueSize = oldP, oldB, oldQ
	}()
	cfg := scn.Cfg
	if cfg.Pkt > 0 {
		eventloop.DefaultPacketSize = cfg.Pkt
	}
	if cfg.UBuf > 0 {
		eventloop.DefaultBufferSize = cfg.UBuf
	}
	if cfg.TQ > 0 {
		eventloop.DefaultTaskQueueSize = cfg.TQ
	}
	// bound the number of reads
	total := 0
	for _, its := range scn.Items {
		for _, it := range its {
			total += it.N + it.TL + 16
		}
	}
	eventloop.DefaultPacketSize = max(eventloop.DefaultPacketSize, total/1500)
	k := sim.New(scn.Seed)
	k.MaxEvents = cfg.MaxEv
	tr := NewTrace()
	s := &stream{kind: scn.Kind, tr: tr, k: k, cfg: cfg, st: scn.Streams, conns: map[int]*strm{}}
	k.OnSys = s.onSys
	verifhook.PoolGet = func() interface{} {
		s.mu.Lock()
		defer s.mu.Unlock()
		if n := len(s.pool); n > 0 {
			b := s.pool[n-1]
			s.pool = s.pool[:n-1]
			return b
		}
		return nil
	}
	verifhook.PoolPut = func(v interface{}) bool {
		s.mu.Lock()
		s.pool = append(s.pool, v.(*ringbuffer.RingBuffer))
		s.mu.Unlock()
		return true
	}
	verifhook.SetKernel(k)
	defer func() {
		verifhook.SetKernel(nil)
		verifhook.SetYield(nil)
		verifhook.PoolGet, verifhook.PoolPut = nil, nil
	}()
	opts := []gev.Option{gev.Address(freeAddr()), gev.NumLoops(max(cfg.Loops, 1))}
	var h gev.Handler
	if scn.Kind == "ws" {
		u := s.upgrader()
		h = websocket.NewHandlerWrap(u, &wsH{s})
		opts = append(opts, gev.CustomProtocol(websocket.New(u)))
		tr.Add(M{"e": "cfg", "hooks": s.st.Hooks})
	} else {
		h = &pbH{s}
		opts = append(opts, gev.CustomProtocol(protobuf.New()))
		tr.Add(M{"e": "cfg"})
	}
	srv, err := gev.NewServer(h, opts...)
	if err != nil {
		panic(fmt.Sprintf("harness: NewServer: %v", err))
	}
	s.srv = srv
	if scn.Mode == "sched" {
		s.sch = NewSched(scn.Seed, scn.Policy, scn.Pre, scn.Fine)
		verifhook.SetYield(s.sch.Yield)
	}
	go func() {
		verifhook.Y("go")
		s.srv.Start()
		s.tr.Add(M{"e": "started"})
	}()
	synctest.Wait()
	groups := func(gs [][]Op) {
		for _, g := range gs {
			for _, o := range g {
				s.env(o)
			}
			synctest.Wait()
			s.quiet()
		}
	}
	groups(scn.Steps)
	if len(scn.Par) > 0 {
		if s.sch != nil {
			s.sch.Start()
		}
		for i := range scn.Par {
			th := scn.Par[i]
			go func() {
				for _, o := range th {
					verifhook.Y("op")
					s.env(o)
				}
			}()
		}
		if s.sch != nil {
			s.sch.Run()
			st.Sched(s.sch)
			s.sch.Stop()
		}
		synctest.Wait()
		s.quiet()
	}
	groups(scn.Final)
	s.env(Op{O: "stop"})
	synctest.Wait()
	ok := true
	for _, x := range s.conns {
		for i, b := range x.kept {
			ok = ok && hash(b) == x.khash[i]
		}
		for i, b := range x.keptS {
			ok = ok && hash([]byte(b)) == x.khashS[i]
		}
	}
	tr.Add(M{"e": "kept", "ok": ok})
	tr.Add(M{"e": "end"})
	tr.Close()
	k.Kill()
	return tr.Line(scn.ID)
}
