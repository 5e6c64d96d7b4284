From 8ca548d3c624f8b84adc767370c587572e75881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 01/21] fix: run the close tasks that Stop queued before the
 loop returns

EventLoop.Stop queues a task that calls Close on every socket; Connection.Close
queues another task. The poller returned right after the first round, so no
connection was ever closed and OnClose was never called.
---
 eventloop/eventloop.go | 3 ++-
 poller/epoll.go        | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index e5d7ee6..6eabde1 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -123,8 +123,9 @@ func (l *EventLoop) Stop() error {
 		l.sockets = nil
 	})
 
+	err := l.poll.Close()
 	_ = l.ConnCunt.Swap(0)
-	return l.poll.Close()
+	return err
 }
 
 // QueueInLoop 添加 func 到事件循环中执行
diff --git a/poller/epoll.go b/poller/epoll.go
index d233bd8..39e9e47 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -180,6 +180,10 @@ func (ep *Poller) Poll(handler func(fd int, event Event)) {
 			handler(-1, 0)
 			wake = false
 			if !ep.running.Get() {
+				// Nobody wakes the loop any more: run the tasks that were queued
+				// before Close, and then the ones these queued in their turn.
+				handler(-1, 0)
+				handler(-1, 0)
 				return
 			}
 		}
-- 
2.43.0


From ff8404ec85627a833471d4aa20ce2147d63266ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 02/21] fix: close the duplicated listening descriptor

The port kept accepting connections after Server.Stop.
---
 listener.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/listener.go b/listener.go
index 20d78a4..50242ad 100644
--- a/listener.go
+++ b/listener.go
@@ -97,6 +97,8 @@ func (l *listener) HandleEvent(fd int, events poller.Event) {
 }
 
 func (l *listener) Close() error {
+	// fd is a duplicate of the listening socket, which stays open with it
+	_ = l.file.Close()
 	return l.listener.Close()
 }
 
-- 
2.43.0


From 31c28cd945086e9a1920ffe18a8fb0a6f5ca1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 03/21] fix: concurrent Server.Stop calls closed everything
 twice

---
 server.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server.go b/server.go
index ce117d2..46115d2 100644
--- a/server.go
+++ b/server.go
@@ -107,9 +107,7 @@ func (s *Server) Start() {
 
 // Stop 关闭 Server
 func (s *Server) Stop() {
-	if s.running.Get() {
-		s.running.Set(false)
-
+	if s.running.CompareAndSwap(true, false) {
 		s.timingWheel.Stop()
 		if err := s.listener.Stop(); err != nil {
 			log.Error(err)
-- 
2.43.0


From 60f5e8c5b1b3a3e736379b4462504b7387578afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 04/21] fix: Stop during Start left the server half stopped

running was set before the loops polled; poller.Close refuses a poller that is
not polling yet, so Stop could skip some loops and Start never returned.
---
 server.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server.go b/server.go
index 46115d2..c9a3482 100644
--- a/server.go
+++ b/server.go
@@ -101,6 +101,17 @@ func (s *Server) Start() {
 	}
 
 	sw.AddAndRun(s.listener.Run)
+
+	// Stop can only stop loops that are polling
+	polling := make(chan struct{}, length+1)
+	for i := 0; i < length; i++ {
+		s.workLoops[i].QueueInLoop(func() { polling <- struct{}{} })
+	}
+	s.listener.loop.QueueInLoop(func() { polling <- struct{}{} })
+	for i := 0; i < length+1; i++ {
+		<-polling
+	}
+
 	s.running.Set(true)
 	sw.Wait()
 }
-- 
2.43.0


From 066eb5f0c5decc91868ae20809d2c9670e22f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 05/21] fix: ShutdownWrite lost queued output and could hit a
 reused descriptor

The write side was shut down at once, from any goroutine: data accepted by Send
before (or still in the write buffer, or the websocket close reply) was dropped
with EPIPE, and on a closed connection the call acted on whatever the descriptor
number had been reused for.
---
 connection.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index e986a62..6d4f43e 100644
--- a/connection.go
+++ b/connection.go
@@ -31,6 +31,7 @@ type Connection struct {
 	activeTime   atomic.Int64
 	fd           int
 	connected    atomic.Bool
+	shutdown     bool // shut the write side down once outBuffer is drained
 	buffer       *ringbuffer.RingBuffer
 	outBuffer    *ringbuffer.RingBuffer // write buffer
 	inBuffer     *ringbuffer.RingBuffer // read buffer
@@ -155,7 +156,22 @@ func (c *Connection) Close() error {
 
 // ShutdownWrite 关闭可写端，等待读取完接收缓冲区所有数据
 func (c *Connection) ShutdownWrite() error {
-	return unix.Shutdown(c.fd, unix.SHUT_WR)
+	if !c.connected.Get() {
+		return ErrConnectionClosed
+	}
+
+	// in the loop: behind what was sent before, and never on a reused fd
+	c.loop.QueueInLoop(func() {
+		if !c.connected.Get() {
+			return
+		}
+
+		c.shutdown = true
+		if c.outBuffer.IsEmpty() {
+			_ = unix.Shutdown(c.fd, unix.SHUT_WR)
+		}
+	})
+	return nil
 }
 
 // ReadBufferLength read buffer 当前积压的数据长度
@@ -280,6 +296,9 @@ func (c *Connection) handleWrite(fd int) (closed bool) {
 		if err := c.loop.EnableRead(fd); err != nil {
 			log.Error("[enableRead]", err)
 		}
+		if c.shutdown {
+			_ = unix.Shutdown(fd, unix.SHUT_WR)
+		}
 	}
 
 	return
-- 
2.43.0


From eb5aa9a32cf5a6ad69072012a56dd2c49663749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 06/21] fix: keep the last activity in nanoseconds

Whole seconds closed connections up to a second before their IdleTime, and
active connections when IdleTime is below a second.
---
 connection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index 6d4f43e..8923196 100644
--- a/connection.go
+++ b/connection.go
@@ -72,7 +72,7 @@ func NewConnection(fd int,
 	conn.connected.Set(true)
 
 	if conn.idleTime > 0 {
-		_ = conn.activeTime.Swap(time.Now().Unix())
+		_ = conn.activeTime.Swap(time.Now().UnixNano())
 		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
 		conn.timer.Store(timer)
 	}
@@ -87,7 +87,7 @@ func (c *Connection) UserBuffer() *[]byte {
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
 		now := time.Now()
-		intervals := now.Sub(time.Unix(c.activeTime.Get(), 0))
+		intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
 		if intervals >= c.idleTime {
 			_ = c.Close()
 		} else {
@@ -187,7 +187,7 @@ func (c *Connection) WriteBufferLength() int64 {
 // HandleEvent 内部使用，event loop 回调
 func (c *Connection) HandleEvent(fd int, events poller.Event) {
 	if c.idleTime > 0 {
-		_ = c.activeTime.Swap(time.Now().Unix())
+		_ = c.activeTime.Swap(time.Now().UnixNano())
 	}
 
 	if events&poller.EventErr != 0 {
-- 
2.43.0


From 496c94b3961db717a020e6bced836c6b1c62771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 07/21] fix: WriteBufferLength did not count what Send left in
 the buffer

---
 connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/connection.go b/connection.go
index 8923196..e25fd72 100644
--- a/connection.go
+++ b/connection.go
@@ -343,6 +343,7 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 		}
 	}
 
+	c.outBufferLen.Swap(int64(c.outBuffer.Length()))
 	return
 }
 
-- 
2.43.0


From 2c9ef7b8a2b8f326b74e234312b9a8abb780adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 08/21] fix: websocket frames were lost or garbled when a
 header came in pieces

VirtualReadHeader ignored short reads, so an extended length or a mask that had
not fully arrived was parsed from stale bytes; and a header that exactly emptied
the buffer marked it empty (the bytes were dropped) or, in a wrapped buffer,
made VirtualLength report a full one (a garbage payload was delivered).
---
 plugins/websocket/ws/read.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/read.go b/plugins/websocket/ws/read.go
index 1556026..9cac011 100644
--- a/plugins/websocket/ws/read.go
+++ b/plugins/websocket/ws/read.go
@@ -3,6 +3,7 @@ package ws
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	"github.com/Allenxuxu/ringbuffer"
 	"github.com/Allenxuxu/toolkit/convert"
@@ -15,9 +16,42 @@ var (
 	ErrHeaderNotReady         = fmt.Errorf("header error: not enough")
 )
 
+// frameReady reports whether in holds a complete frame (or a header that
+// VirtualReadHeader rejects).
+func frameReady(in *ringbuffer.RingBuffer) bool {
+	var head [MaxHeaderSize]byte
+	first, end := in.Peek(len(head))
+	n := copy(head[:], first)
+	n += copy(head[n:], end)
+	if n < 2 {
+		return false
+	}
+
+	size := 2
+	if head[1]&bit0 != 0 {
+		size += 4
+	}
+
+	length := uint64(head[1] & 0x7f)
+	switch length {
+	case 126:
+		size += 2
+		length = uint64(binary.BigEndian.Uint16(head[2:4]))
+	case 127:
+		size += 8
+		length = binary.BigEndian.Uint64(head[2:10])
+	}
+
+	if n < size {
+		return false
+	}
+	return length > math.MaxInt64 || uint64(in.Length()-size) >= length
+}
+
 // VirtualReadHeader reads a frame header from r.
+// It reads nothing, and returns ErrHeaderNotReady, before the whole frame is there.
 func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err error) {
-	if in.Length() < 6 {
+	if !frameReady(in) {
 		err = ErrHeaderNotReady
 		return
 	}
-- 
2.43.0


From 8b49245f979536a0e43e3fca5839141fcf57b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 09/21] fix: fail the websocket connection on an invalid frame
 length

The bad header was skipped and whatever followed it was parsed as frames.
---
 plugins/websocket/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/websocket/protocol.go b/plugins/websocket/protocol.go
index 97eecb8..a7926b7 100644
--- a/plugins/websocket/protocol.go
+++ b/plugins/websocket/protocol.go
@@ -41,6 +41,9 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 		if err != nil {
 			if err != ws.ErrHeaderNotReady {
 				log.Error(err)
+				// no frame boundary can be found any more
+				buffer.RetrieveAll()
+				_ = c.Close()
 			}
 			return
 		}
-- 
2.43.0


From 5e7c36686d33f260102125f2c670fa99f0dd6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 10/21] fix: answer websocket requests rejected at the request
 line

A bad HTTP version, a bad method and an OnRequest error got no response at all,
although Upgrade promises one.
---
 plugins/websocket/ws/ws.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 4f5f23b..5db36ec 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -224,9 +224,6 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			err = onRequest(c, req.uri)
 		}
 	}
-	if err != nil {
-		return
-	}
 
 	// Start headers read/parse loop.
 	var (
-- 
2.43.0


From 51dfe8ec797680b14e9db5c86d9a31a817c89264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 11/21] fix: find the end of a handshake request that wraps
 around the buffer

---
 plugins/websocket/ws/ws.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 5db36ec..bbf8797 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -183,7 +183,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			return
 		}
 	} else if len(end) > 0 {
-		if index := bytes.Index(end, []byte("\r\n\r\n")); index != -1 {
+		// the request wraps around the end of the buffer
+		if index := bytes.Index(in.Bytes(), []byte("\r\n\r\n")); index != -1 {
 			data = make([]byte, index+4)
 			if _, err = in.Read(data); err != nil {
 				return
-- 
2.43.0


From 065dac9a4049dc8690b139cafde5c10cddc731f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 12/21] fix: a protobuf message with neither type nor data was
 never delivered

---
 plugins/protobuf/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 83961c6..45d3f6c 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -25,7 +25,7 @@ func New() *Protocol {
 
 // UnPacket ...
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
-	if buffer.Length() > 6 {
+	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
 		if buffer.Length() >= length+4 {
 			buffer.Retrieve(4)
-- 
2.43.0


From 769d07fb15913baddb0996731bb5f07c144845d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 13/21] fix: a malformed protobuf length panicked the server

---
 plugins/protobuf/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 45d3f6c..1fabd99 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -33,10 +33,17 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 			typeLen := int(buffer.PeekUint16())
 			buffer.Retrieve(2)
 
+			dataLen := length - 2 - typeLen
+			if dataLen < 0 {
+				// no message boundary can be found any more
+				buffer.RetrieveAll()
+				_ = c.Close()
+				return
+			}
+
 			typeByte := pbytes.GetLen(typeLen)
 			_, _ = buffer.Read(typeByte)
 
-			dataLen := length - 2 - typeLen
 			data := make([]byte, dataLen)
 			_, _ = buffer.Read(data)
 
-- 
2.43.0


From 8ec49a98e754f1da657ba6116e34788928091f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 14/21] fix: close a connection that cannot be registered with
 the poller

It stayed open and connected, with a callback that never came and a peer that
was never answered. It was not counted, so it must not be uncounted either.
---
 eventloop/eventloop.go | 6 ++++--
 server.go              | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index 6eabde1..92b3baf 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -81,8 +81,10 @@ func (l *EventLoop) DeleteFdInLoop(fd int) {
 	if err := l.poll.Del(fd); err != nil {
 		log.Error("[DeleteFdInLoop]", err)
 	}
-	delete(l.sockets, fd)
-	l.ConnCunt.Add(-1)
+	if _, ok := l.sockets[fd]; ok {
+		delete(l.sockets, fd)
+		l.ConnCunt.Add(-1)
+	}
 }
 
 // AddSocketAndEnableRead 增加 Socket 到事件循环中，并注册可读事件
diff --git a/server.go b/server.go
index c9a3482..e6ce487 100644
--- a/server.go
+++ b/server.go
@@ -86,6 +86,7 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
+			c.handleClose(fd)
 		}
 	})
 }
-- 
2.43.0


From 01e1cf48fc79a0840fe3d637b082635a0efccd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 15/21] fix: answer a websocket request whose request line is
 malformed

---
 plugins/websocket/ws/ws.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index bbf8797..dacb33f 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -200,7 +200,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 
 	// Parse request line data like HTTP version, uri and method.
 	req, err := httpParseRequestLine(lines[0])
-	if err != nil {
+	if err != nil && len(data) == 0 {
+		// The request is not complete yet.
 		return
 	}
 
@@ -214,6 +215,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 	// Even if RFC says "1.1 or higher" without mentioning the part of the
 	// version, we apply it only to minor part.
 	switch {
+	case err != nil:
+		// The request line is malformed.
 	case req.major != 1 || req.minor < 1:
 		// Abort processing the whole request because we do not even know how
 		// to actually parse it.
-- 
2.43.0


From 57102f8b5c794c683966c7b3a3a7c135ba4c7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 16/21] fix: accept Connection headers with several options,
 and Upgrade in any letter case

---
 plugins/websocket/ws/http.go | 10 ++++++++++
 plugins/websocket/ws/ws.go   |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/plugins/websocket/ws/http.go b/plugins/websocket/ws/http.go
index 91d3a1e..a97ff6d 100644
--- a/plugins/websocket/ws/http.go
+++ b/plugins/websocket/ws/http.go
@@ -137,6 +137,16 @@ func httpParseHeaderLine(line []byte) (k, v []byte, ok bool) {
 	return k, v, true
 }
 
+// btsHasToken reports whether the comma separated list h contains token, in
+// any letter case.
+func btsHasToken(h, token []byte) (has bool) {
+	httphead.ScanTokens(h, func(v []byte) bool {
+		has = bytes.EqualFold(v, token)
+		return !has
+	})
+	return has
+}
+
 func btsSelectProtocol(h []byte, check func([]byte) bool) (ret string, ok bool) {
 	var selected []byte
 	ok = httphead.ScanTokens(h, func(v []byte) bool {
diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index dacb33f..7d16d1a 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -256,12 +256,12 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			}
 		case headerUpgradeCanonical:
 			headerSeen |= headerSeenUpgrade
-			if !bytes.Equal(v, specHeaderValueUpgrade) {
+			if !bytes.EqualFold(v, specHeaderValueUpgrade) {
 				err = ErrHandshakeBadUpgrade
 			}
 		case headerConnectionCanonical:
 			headerSeen |= headerSeenConnection
-			if !bytes.Equal(v, specHeaderValueConnection) && !bytes.Equal(v, specHeaderValueConnectionLower) {
+			if !bytes.Equal(v, specHeaderValueConnection) && !btsHasToken(v, specHeaderValueConnectionLower) {
 				err = ErrHandshakeBadConnection
 			}
 		case headerSecVersionCanonical:
-- 
2.43.0


From 42c05d899d3fb478e9b5fe577c161479b111d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 17/21] fix: bytes behind an invalid frame or message length
 were handled as new ones

---
 plugins/protobuf/protocol.go  | 30 +++++++++++++++++-------------
 plugins/websocket/protocol.go |  4 ++--
 plugins/websocket/ws/read.go  | 23 ++++++++++++++---------
 3 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 1fabd99..520884a 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -1,6 +1,8 @@
 package protobuf
 
 import (
+	"encoding/binary"
+
 	"github.com/Allenxuxu/gev"
 	"github.com/Allenxuxu/ringbuffer"
 	"github.com/gobwas/pool/pbytes"
@@ -26,20 +28,22 @@ func New() *Protocol {
 // UnPacket ...
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
 	if buffer.Length() >= 6 {
-		length := int(buffer.PeekUint32())
+		var head [6]byte
+		first, end := buffer.Peek(len(head))
+		copy(head[copy(head[:], first):], end)
+
+		length := int(binary.BigEndian.Uint32(head[:4]))
+		typeLen := int(binary.BigEndian.Uint16(head[4:]))
+		dataLen := length - 2 - typeLen
+		if dataLen < 0 {
+			// no message boundary can be found any more: the invalid header
+			// stays in the buffer, so that nothing behind it is handled
+			_ = c.Close()
+			return
+		}
+
 		if buffer.Length() >= length+4 {
-			buffer.Retrieve(4)
-
-			typeLen := int(buffer.PeekUint16())
-			buffer.Retrieve(2)
-
-			dataLen := length - 2 - typeLen
-			if dataLen < 0 {
-				// no message boundary can be found any more
-				buffer.RetrieveAll()
-				_ = c.Close()
-				return
-			}
+			buffer.Retrieve(6)
 
 			typeByte := pbytes.GetLen(typeLen)
 			_, _ = buffer.Read(typeByte)
diff --git a/plugins/websocket/protocol.go b/plugins/websocket/protocol.go
index a7926b7..276fd27 100644
--- a/plugins/websocket/protocol.go
+++ b/plugins/websocket/protocol.go
@@ -41,8 +41,8 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 		if err != nil {
 			if err != ws.ErrHeaderNotReady {
 				log.Error(err)
-				// no frame boundary can be found any more
-				buffer.RetrieveAll()
+				// no frame boundary can be found any more: the invalid header
+				// stays in the buffer, so that nothing behind it is handled
 				_ = c.Close()
 			}
 			return
diff --git a/plugins/websocket/ws/read.go b/plugins/websocket/ws/read.go
index 9cac011..d6028f3 100644
--- a/plugins/websocket/ws/read.go
+++ b/plugins/websocket/ws/read.go
@@ -16,15 +16,14 @@ var (
 	ErrHeaderNotReady         = fmt.Errorf("header error: not enough")
 )
 
-// frameReady reports whether in holds a complete frame (or a header that
-// VirtualReadHeader rejects).
-func frameReady(in *ringbuffer.RingBuffer) bool {
+// checkFrame returns nil if in holds a complete frame. It takes nothing out of in.
+func checkFrame(in *ringbuffer.RingBuffer) error {
 	var head [MaxHeaderSize]byte
 	first, end := in.Peek(len(head))
 	n := copy(head[:], first)
 	n += copy(head[n:], end)
 	if n < 2 {
-		return false
+		return ErrHeaderNotReady
 	}
 
 	size := 2
@@ -43,16 +42,22 @@ func frameReady(in *ringbuffer.RingBuffer) bool {
 	}
 
 	if n < size {
-		return false
+		return ErrHeaderNotReady
 	}
-	return length > math.MaxInt64 || uint64(in.Length()-size) >= length
+	if length > math.MaxInt64 {
+		return ErrHeaderLengthMSB
+	}
+	if uint64(in.Length()-size) < length {
+		return ErrHeaderNotReady
+	}
+	return nil
 }
 
 // VirtualReadHeader reads a frame header from r.
-// It reads nothing, and returns ErrHeaderNotReady, before the whole frame is there.
+// It reads nothing, and returns ErrHeaderNotReady, before the whole frame is there,
+// and it reads nothing of a header whose length is invalid.
 func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err error) {
-	if !frameReady(in) {
-		err = ErrHeaderNotReady
+	if err = checkFrame(in); err != nil {
 		return
 	}
 
-- 
2.43.0


From aff4bf0a3f6ac55cf3dcaa4634769c2d2b9d4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 18/21] fix: a loop with blocked output and unread input spun,
 and never counted the connection as idle

---
 connection.go          |  3 ++-
 eventloop/eventloop.go |  5 +++++
 poller/kqueue.go       | 20 ++++++++++++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index e25fd72..6b31e33 100644
--- a/connection.go
+++ b/connection.go
@@ -339,7 +339,8 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 		}
 
 		if !c.outBuffer.IsEmpty() {
-			_ = c.loop.EnableReadWrite(c.fd)
+			// nothing is read until the output has drained
+			_ = c.loop.EnableWrite(c.fd)
 		}
 	}
 
diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index 92b3baf..cebb831 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -104,6 +104,11 @@ func (l *EventLoop) EnableReadWrite(fd int) error {
 	return l.poll.EnableReadWrite(fd)
 }
 
+// EnableWrite 只注册可写事件
+func (l *EventLoop) EnableWrite(fd int) error {
+	return l.poll.EnableWrite(fd)
+}
+
 // EnableRead 只注册可读事件
 func (l *EventLoop) EnableRead(fd int) error {
 	return l.poll.EnableRead(fd)
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 1a47e4c..86e715d 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -101,7 +101,23 @@ func (p *Poller) EnableReadWrite(fd int) error {
 	newEvents := EventWrite | EventRead
 	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
 	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
-	if err != nil {
+	if err == nil {
+		p.sockets.Store(fd, newEvents)
+	}
+	return err
+}
+
+// EnableWrite 修改fd注册事件为可写事件
+func (p *Poller) EnableWrite(fd int) error {
+	oldEvents, ok := p.sockets.Load(fd)
+	if !ok {
+		return errors.New("sync map load error")
+	}
+
+	newEvents := EventWrite
+	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
+	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
+	if err == nil {
 		p.sockets.Store(fd, newEvents)
 	}
 	return err
@@ -117,7 +133,7 @@ func (p *Poller) EnableRead(fd int) error {
 	newEvents := EventRead
 	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
 	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
-	if err != nil {
+	if err == nil {
 		p.sockets.Store(fd, newEvents)
 	}
 	return err
-- 
2.43.0


From 452d94df1902864e6b878a5941c3ec03d80869ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 19/21] fix: an idle timer could close a connection before
 OnConnect was called

---
 connection.go | 11 +++++++++--
 server.go     |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/connection.go b/connection.go
index 6b31e33..db80c68 100644
--- a/connection.go
+++ b/connection.go
@@ -73,13 +73,20 @@ func NewConnection(fd int,
 
 	if conn.idleTime > 0 {
 		_ = conn.activeTime.Swap(time.Now().UnixNano())
-		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
-		conn.timer.Store(timer)
 	}
 
 	return conn
 }
 
+// startIdleTimer is called in the loop, so that the connection is not closed
+// before OnConnect was called
+func (c *Connection) startIdleTimer() {
+	if c.idleTime > 0 {
+		timer := c.timingWheel.AfterFunc(c.idleTime, c.closeTimeoutConn())
+		c.timer.Store(timer)
+	}
+}
+
 func (c *Connection) UserBuffer() *[]byte {
 	return c.loop.UserBuffer
 }
diff --git a/server.go b/server.go
index e6ce487..1482962 100644
--- a/server.go
+++ b/server.go
@@ -83,6 +83,7 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
 
 	loop.QueueInLoop(func() {
+		c.startIdleTimer()
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
-- 
2.43.0


From 97efd096d45f309c0ad62cc01883829e8ed95aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 20/21] fix: a NewServer that failed left the address in use
 and descriptors open

---
 eventloop/eventloop.go |  5 +++++
 listener.go            | 13 +++++++++++++
 poller/epoll.go        |  6 ++++++
 poller/kqueue.go       |  6 ++++++
 server.go              |  3 ++-
 5 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index cebb831..739b905 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -135,6 +135,11 @@ func (l *EventLoop) Stop() error {
 	return err
 }
 
+// Free 释放从未运行 Run 的事件循环
+func (l *EventLoop) Free() {
+	l.poll.Free()
+}
+
 // QueueInLoop 添加 func 到事件循环中执行
 func (l *EventLoop) QueueInLoop(f func()) {
 	l.mu.Lock()
diff --git a/listener.go b/listener.go
index 50242ad..d819c2e 100644
--- a/listener.go
+++ b/listener.go
@@ -41,20 +41,26 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 
 	l, ok := ls.(*net.TCPListener)
 	if !ok {
+		_ = ls.Close()
 		return nil, errors.New("could not get file descriptor")
 	}
 
 	file, err := l.File()
 	if err != nil {
+		_ = ls.Close()
 		return nil, err
 	}
 	fd := int(file.Fd())
 	if err = unix.SetNonblock(fd, true); err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
 	loop, err := eventloop.New()
 	if err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
@@ -66,6 +72,7 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 		loop:     loop,
 	}
 	if err = loop.AddSocketAndEnableRead(fd, listener); err != nil {
+		listener.free()
 		return nil, err
 	}
 
@@ -105,3 +112,9 @@ func (l *listener) Close() error {
 func (l *listener) Stop() error {
 	return l.loop.Stop()
 }
+
+// free releases a listener that was never run
+func (l *listener) free() {
+	_ = l.Close()
+	l.loop.Free()
+}
diff --git a/poller/epoll.go b/poller/epoll.go
index 39e9e47..0bc869c 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -86,6 +86,12 @@ func (ep *Poller) Close() (err error) {
 	return
 }
 
+// Free 释放从未运行 Poll 的 Poller
+func (ep *Poller) Free() {
+	_ = unix.Close(ep.fd)
+	_ = unix.Close(ep.eventFd)
+}
+
 func (ep *Poller) add(fd int, events uint32) error {
 	return unix.EpollCtl(ep.fd, unix.EPOLL_CTL_ADD, fd, &unix.EpollEvent{
 		Events: events,
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 86e715d..3287db6 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -32,6 +32,7 @@ func Create() (*Poller, error) {
 		Flags:  unix.EV_ADD | unix.EV_CLEAR,
 	}}, nil, nil)
 	if err != nil {
+		_ = unix.Close(fd)
 		return nil, err
 	}
 
@@ -67,6 +68,11 @@ func (p *Poller) Close() (err error) {
 	return
 }
 
+// Free 释放从未运行 Poll 的 Poller
+func (p *Poller) Free() {
+	_ = unix.Close(p.fd)
+}
+
 // AddRead 注册fd到kqueue并注册可读事件
 func (p *Poller) AddRead(fd int) error {
 	p.sockets.Store(fd, EventRead)
diff --git a/server.go b/server.go
index 1482962..514823f 100644
--- a/server.go
+++ b/server.go
@@ -56,8 +56,9 @@ func NewServer(handler Handler, opts ...Option) (server *Server, err error) {
 		l, err := eventloop.New()
 		if err != nil {
 			for j := 0; j < i; j++ {
-				_ = wloops[j].Stop()
+				wloops[j].Free()
 			}
+			server.listener.free()
 			return nil, err
 		}
 		wloops[i] = l
-- 
2.43.0


From a590b5595f62b39098dc716b4b9e0a32774fcc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 21/21] fix: waking a loop after Stop wrote to a descriptor
 that was closed

---
 poller/epoll.go  | 13 +++++++++++++
 poller/kqueue.go | 12 ++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/poller/epoll.go b/poller/epoll.go
index 0bc869c..842a30f 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -4,6 +4,7 @@ package poller
 
 import (
 	"runtime"
+	"sync"
 
 	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/toolkit/sync/atomic"
@@ -20,6 +21,9 @@ type Poller struct {
 	buf      []byte
 	running  atomic.Bool
 	waitDone chan struct{}
+
+	mu     sync.RWMutex // Wake does not write to a descriptor that was closed
+	closed bool
 }
 
 // Create 创建Poller
@@ -58,6 +62,12 @@ var wakeBytes = []byte{1, 0, 0, 0, 0, 0, 0, 0}
 
 // Wake 唤醒 epoll
 func (ep *Poller) Wake() error {
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+	if ep.closed {
+		return ErrClosed
+	}
+
 	_, err := unix.Write(ep.eventFd, wakeBytes)
 	return err
 }
@@ -81,8 +91,11 @@ func (ep *Poller) Close() (err error) {
 	}
 
 	<-ep.waitDone
+	ep.mu.Lock()
+	ep.closed = true
 	_ = unix.Close(ep.fd)
 	_ = unix.Close(ep.eventFd)
+	ep.mu.Unlock()
 	return
 }
 
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 3287db6..4b26d33 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -18,6 +18,9 @@ type Poller struct {
 	running  atomic.Bool
 	waitDone chan struct{}
 	sockets  sync.Map // [fd]events
+
+	mu     sync.RWMutex // Wake does not use a descriptor that was closed
+	closed bool
 }
 
 // Create 创建Poller
@@ -44,6 +47,12 @@ func Create() (*Poller, error) {
 
 // Wake 唤醒 kqueue
 func (p *Poller) Wake() error {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	if p.closed {
+		return ErrClosed
+	}
+
 	_, err := unix.Kevent(p.fd, []unix.Kevent_t{{
 		Ident:  0,
 		Filter: unix.EVFILT_USER,
@@ -64,7 +73,10 @@ func (p *Poller) Close() (err error) {
 	}
 
 	<-p.waitDone
+	p.mu.Lock()
+	p.closed = true
 	_ = unix.Close(p.fd)
+	p.mu.Unlock()
 	return
 }
 
-- 
2.43.0

