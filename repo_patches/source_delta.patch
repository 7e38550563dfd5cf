From 487f2c5ce1405e05f5e18f1d22941d0458cc5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 01/35] fix: do not send an empty message when closing the send
 side

---
 srpc/common-rpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 81afada..639d83b 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -121,7 +121,9 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 
 // WriteCallData writes a call data packet.
 func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
-	outPkt := NewCallDataPacket(data, len(data) == 0, complete, err)
+	// a packet which completes the call carries no message if data is empty.
+	dataIsZero := len(data) == 0 && !complete && err == nil
+	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
 	return c.writer.WritePacket(outPkt)
 }
 
-- 
2.43.0


From 37d5505b9625fe71582ac7799f2186af6bc74ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 02/35] fix: handle call cancel before the rpc writer was set

---
 srpc/common-rpc.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 639d83b..8e1d3bc 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -135,7 +135,10 @@ func (c *commonRPC) HandleStreamClose(closeErr error) {
 		}
 		c.dataClosed = true
 		c.ctxCancel()
-		_ = c.writer.Close()
+		// the writer is nil until the call was started.
+		if c.writer != nil {
+			_ = c.writer.Close()
+		}
 		broadcast()
 	})
 }
@@ -186,7 +189,10 @@ func (c *commonRPC) closeLocked(broadcast func()) {
 	if c.remoteErr == nil {
 		c.remoteErr = context.Canceled
 	}
-	_ = c.writer.Close()
+	// the writer is nil until the call was started.
+	if c.writer != nil {
+		_ = c.writer.Close()
+	}
 	broadcast()
 	c.ctxCancel()
 }
-- 
2.43.0


From 1616f8fa7ac203841ab065332dfcdda06cfdca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 03/35] fix: keep the outcome of a completed call when the
 stream closes

---
 srpc/client-rpc.go | 3 ++-
 srpc/common-rpc.go | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4271f70..c28cb1e 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -70,7 +70,8 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 // HandleStreamClose handles the stream closing optionally w/ an error.
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && r.remoteErr == nil {
+		// keep the outcome of the call if it was already completed.
+		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 8e1d3bc..e28cc06 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -130,7 +130,8 @@ func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 // HandleStreamClose handles the incoming stream closing w/ optional error.
 func (c *commonRPC) HandleStreamClose(closeErr error) {
 	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && c.remoteErr == nil {
+		// keep the outcome of the call if it was already completed.
+		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
 			c.remoteErr = closeErr
 		}
 		c.dataClosed = true
@@ -185,10 +186,11 @@ func (c *commonRPC) WriteCallCancel() error {
 
 // closeLocked releases resources held by the RPC.
 func (c *commonRPC) closeLocked(broadcast func()) {
-	c.dataClosed = true
-	if c.remoteErr == nil {
+	// keep the outcome of the call if it was already completed.
+	if c.remoteErr == nil && !c.dataClosed {
 		c.remoteErr = context.Canceled
 	}
+	c.dataClosed = true
 	// the writer is nil until the call was started.
 	if c.writer != nil {
 		_ = c.writer.Close()
-- 
2.43.0


From 90c03402e4e0a69862883f35b540111b5ef97805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 04/35] fix: continue after a partial write instead of
 repeating the packet

---
 srpc/packet-rw.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index c848891..bc4d738 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -59,10 +59,13 @@ func (r *PacketReadWriter) WritePacket(p *Packet) error {
 
 	var written, n int
 	for written < len(data) {
-		n, err = r.rw.Write(data)
+		n, err = r.rw.Write(data[written:])
 		if err != nil {
 			return err
 		}
+		if n == 0 {
+			return io.ErrShortWrite
+		}
 		written += n
 	}
 
-- 
2.43.0


From 8f838ee24f711593c9e2863dc74ded0b63f606cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 05/35] fix: Dial must construct an outbound muxed conn

---
 srpc/net.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 3bfc3f5..021a93e 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -11,7 +11,7 @@ func Dial(addr string) (Client, error) {
 	if err != nil {
 		return nil, err
 	}
-	muxedConn, err := NewMuxedConn(nconn, false, nil)
+	muxedConn, err := NewMuxedConn(nconn, true, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 96b6751886ec60c4496f338411626c8bcbb9d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 06/35] fix: serve accepted connections concurrently

---
 srpc/accept.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srpc/accept.go b/srpc/accept.go
index 9995073..470e61d 100644
--- a/srpc/accept.go
+++ b/srpc/accept.go
@@ -24,9 +24,10 @@ func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yam
 			continue
 		}
 
-		if err := srv.AcceptMuxedConn(ctx, mc); err != nil {
+		// serve the connection without blocking the accept loop.
+		go func() {
+			_ = srv.AcceptMuxedConn(ctx, mc)
 			_ = nc.Close()
-			continue
-		}
+		}()
 	}
 }
-- 
2.43.0


From 1007b4ef3bfe83b6d8eda4d2feb784328d982c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:10 +0000
Subject: [PATCH 07/35] fix: close the listener when Listen returns

---
 srpc/net.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 021a93e..8130d61 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -27,10 +27,11 @@ func Listen(ctx context.Context, addr string, srv *Server, errCh <-chan error) e
 		return err
 	}
 
+	defer lis.Close()
+
 	listenErrCh := make(chan error, 1)
 	go func() {
 		listenErrCh <- AcceptMuxedListener(ctx, lis, srv, nil)
-		_ = lis.Close()
 	}()
 
 	select {
-- 
2.43.0


From 5a0a96428537ae570a7f1d047dfa15b27457d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:10 +0000
Subject: [PATCH 08/35] fix: stop the rx pump when closing the RwcConn

---
 srpc/rwc-conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 6737d4c..4d6744d 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -172,6 +172,7 @@ func (p *RwcConn) SetWriteDeadline(t time.Time) error {
 // Close closes the connection.
 // Any blocked ReadFrom or WriteTo operations will be unblocked and return errors.
 func (p *RwcConn) Close() error {
+	p.ctxCancel()
 	return p.rwc.Close()
 }
 
-- 
2.43.0


From 7ec4c5207ce50abe96cb9431b82c6199ecdea70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:10 +0000
Subject: [PATCH 09/35] fix: report a canceled RwcConn as canceled if a
 deadline is set

---
 srpc/rwc-conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 4d6744d..ff000ad 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -84,7 +84,7 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	var ok bool
 	select {
 	case <-ctx.Done():
-		if !deadline.IsZero() {
+		if p.ctx.Err() == nil {
 			return 0, os.ErrDeadlineExceeded
 		}
 		return 0, context.Canceled
-- 
2.43.0


From e64b1cff771c53c1372797077984233841702f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:11 +0000
Subject: [PATCH 10/35] fix: release the call context if the call did not start

---
 srpc/client-rpc.go | 2 ++
 srpc/client.go     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index c28cb1e..2fc73f7 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -114,6 +114,8 @@ func (r *ClientRPC) Close() {
 		if r.writer != nil {
 			_ = r.WriteCallCancel()
 			r.closeLocked(broadcast)
+		} else {
+			r.ctxCancel()
 		}
 	})
 }
diff --git a/srpc/client.go b/srpc/client.go
index 7d0262c..687b56f 100644
--- a/srpc/client.go
+++ b/srpc/client.go
@@ -83,10 +83,12 @@ func (c *client) NewStream(ctx context.Context, service, method string, firstMsg
 	clientRPC := NewClientRPC(ctx, service, method)
 	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
 	if err != nil {
+		clientRPC.ctxCancel()
 		return nil, err
 	}
 
 	if err := clientRPC.Start(writer, firstMsg != nil, firstMsgData); err != nil {
+		clientRPC.ctxCancel()
 		return nil, err
 	}
 
-- 
2.43.0


From 311e7851875176e629d10ecb0eb868d48a3a39f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:11 +0000
Subject: [PATCH 11/35] fix: cancel the client stream context when the stream
 ends

---
 srpc/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/client.go b/srpc/client.go
index 687b56f..f8377e8 100644
--- a/srpc/client.go
+++ b/srpc/client.go
@@ -92,7 +92,7 @@ func (c *client) NewStream(ctx context.Context, service, method string, firstMsg
 		return nil, err
 	}
 
-	return NewMsgStream(ctx, clientRPC, func() {
+	return NewMsgStream(clientRPC.Context(), clientRPC, func() {
 		clientRPC.ctxCancel()
 		_ = writer.Close()
 	}), nil
-- 
2.43.0


From 13779f33e90415090f4c7e3f3ac845bdbc27a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:12 +0000
Subject: [PATCH 12/35] fix: return an error when sending on a half-closed pipe
 stream

---
 srpc/stream-pipe.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/srpc/stream-pipe.go b/srpc/stream-pipe.go
index 7f55969..9ef6cf9 100644
--- a/srpc/stream-pipe.go
+++ b/srpc/stream-pipe.go
@@ -15,15 +15,17 @@ type pipeStream struct {
 	other *pipeStream
 	// closeOnce ensures we close only once.
 	closeOnce sync.Once
+	// closedCh is closed when this end will no longer send any messages.
+	closedCh chan struct{}
 	// dataCh is the data channel
 	dataCh chan []byte
 }
 
 // NewPipeStream constructs a new in-memory stream.
 func NewPipeStream(ctx context.Context) (Stream, Stream) {
-	s1 := &pipeStream{dataCh: make(chan []byte, 5)}
+	s1 := &pipeStream{closedCh: make(chan struct{}), dataCh: make(chan []byte, 5)}
 	s1.ctx, s1.ctxCancel = context.WithCancel(ctx)
-	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5)}
+	s2 := &pipeStream{other: s1, closedCh: make(chan struct{}), dataCh: make(chan []byte, 5)}
 	s2.ctx, s2.ctxCancel = context.WithCancel(ctx)
 	s1.other = s2
 	return s1, s2
@@ -41,8 +43,15 @@ func (p *pipeStream) MsgSend(msg Message) error {
 		return err
 	}
 	select {
+	case <-p.closedCh:
+		return io.ErrClosedPipe
+	default:
+	}
+	select {
 	case <-p.ctx.Done():
 		return context.Canceled
+	case <-p.closedCh:
+		return io.ErrClosedPipe
 	case p.other.dataCh <- data:
 		return nil
 	}
@@ -54,11 +63,16 @@ func (p *pipeStream) MsgRecv(msg Message) error {
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
-	case data, ok := <-p.dataCh:
-		if !ok {
+	case data := <-p.dataCh:
+		return msg.UnmarshalVT(data)
+	case <-p.other.closedCh:
+		// read any remaining messages first
+		select {
+		case data := <-p.dataCh:
+			return msg.UnmarshalVT(data)
+		default:
 			return io.EOF
 		}
-		return msg.UnmarshalVT(data)
 	}
 }
 
@@ -75,10 +89,10 @@ func (p *pipeStream) Close() error {
 	return nil
 }
 
-// closeRemote closes the remote data channel.
+// closeRemote signals to the remote that no more messages will be sent.
 func (p *pipeStream) closeRemote() {
 	p.closeOnce.Do(func() {
-		close(p.other.dataCh)
+		close(p.closedCh)
 	})
 }
 
-- 
2.43.0


From b5b2e3423aa6646aa7026d0a939bec9c1c1ee21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:12 +0000
Subject: [PATCH 13/35] fix: call the release function even if no mux was
 returned

---
 rpcstream/rpcstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcstream/rpcstream.go b/rpcstream/rpcstream.go
index 8838fc9..fc9a737 100644
--- a/rpcstream/rpcstream.go
+++ b/rpcstream/rpcstream.go
@@ -113,7 +113,7 @@ func HandleRpcStream(stream RpcStream, getter RpcStreamGetter) error {
 	if err == nil && mux == nil {
 		err = ErrNoServerForComponent
 	}
-	if mux != nil && muxRel != nil {
+	if muxRel != nil {
 		defer muxRel()
 	}
 
-- 
2.43.0


From 6bcf7c9f9e69cace567520ef6ada174d79f96ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:12 +0000
Subject: [PATCH 14/35] fix: check the proxy caller and not the release
 function

---
 rpcstream/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7d1c82e..7e522a1 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -38,7 +38,8 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	remoteCaller, remoteComponentID, remoteCallerRel, err := getter(ctx, componentID)
 	if remoteCallerRel != nil {
 		defer remoteCallerRel()
-	} else if err == nil {
+	}
+	if err == nil && remoteCaller == nil {
 		err = ErrNoServerForComponent
 	}
 
-- 
2.43.0


From 001549e3f45d860f8db0d653c272da1bccdf9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 15/35] fix: report an error if the stream ends in the middle
 of a packet

---
 srpc/packet-rw.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index bc4d738..445e869 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -139,6 +139,11 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 		}
 	}
 
+	// closed in the middle of a packet
+	if r.buf.Len() != 0 {
+		return io.ErrUnexpectedEOF
+	}
+
 	// closed
 	return nil
 }
-- 
2.43.0


From c69f492778a19289b4f167a4ccac27bbc1d682b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:57 +0000
Subject: [PATCH 16/35] fix: keep data which does not fit into a RwcConn read

---
 srpc/rwc-conn.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index ff000ad..c00b0b7 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -30,6 +30,9 @@ type RwcConn struct {
 	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
+
+	restMtx sync.Mutex // guards rest
+	rest    []byte     // received data which did not fit in the previous Read
 }
 
 // NewRwcConn constructs a new packet conn and starts the rx pump.
@@ -72,6 +75,15 @@ func (p *RwcConn) RemoteAddr() net.Addr {
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (p *RwcConn) Read(b []byte) (n int, err error) {
+	p.restMtx.Lock()
+	if len(p.rest) != 0 {
+		n = copy(b, p.rest)
+		p.rest = p.rest[n:]
+		p.restMtx.Unlock()
+		return n, nil
+	}
+	p.restMtx.Unlock()
+
 	deadline := p.rd
 	ctx := p.ctx
 	if !deadline.IsZero() {
@@ -98,13 +110,14 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		}
 	}
 
-	pl := len(pkt)
-	copy(b, pkt)
-	p.ar.Put(&pkt)
-	if len(b) < pl {
-		return len(b), io.ErrShortBuffer
+	n = copy(b, pkt)
+	if n < len(pkt) {
+		p.restMtx.Lock()
+		p.rest = append(p.rest, pkt[n:]...)
+		p.restMtx.Unlock()
 	}
-	return pl, nil
+	p.ar.Put(&pkt)
+	return n, nil
 }
 
 // Write writes data to the connection.
-- 
2.43.0


From ec6321376c94a836d896419e53cbd5ccb9f649d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 17/35] fix: close the call if a packet can not be decoded

---
 srpc/common-rpc.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 05607b1..63bc52f 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -95,7 +95,14 @@ export class CommonRPC {
   //
   // note: closes the stream if any error is thrown.
   public async handleMessage(message: Uint8Array) {
-    return this.handlePacket(Packet.fromBinary(message))
+    let packet: Packet
+    try {
+      packet = Packet.fromBinary(message)
+    } catch (err) {
+      this.close(err as Error)
+      return
+    }
+    return this.handlePacket(packet)
   }
 
   // handlePacket handles an incoming packet.
-- 
2.43.0


From 1e8b9e92888d2aa7c4800ce228c7f675333b1c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 18/35] fix: end the messages of a call when the packet stream
 ends

---
 srpc/common-rpc.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 63bc52f..aa7760d 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -207,6 +207,8 @@ export class CommonRPC {
             await this.handlePacket(msg)
           }
         }
+        // no more messages will arrive: note: this does nothing if already ended.
+        this._rpcDataSource.end()
       } catch (err) {
         this.close(err as Error)
       }
-- 
2.43.0


From 62f563f428154ab75a13fe81461e171783836c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 19/35] fix: find only registered services and methods in the
 static mux

---
 srpc/handler.ts | 5 ++++-
 srpc/mux.ts     | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/srpc/handler.ts b/srpc/handler.ts
index a5fda2a..c6a837e 100644
--- a/srpc/handler.ts
+++ b/srpc/handler.ts
@@ -53,6 +53,9 @@ export class StaticHandler implements Handler {
     if (serviceID && serviceID !== this.service) {
       return null
     }
+    if (!Object.prototype.hasOwnProperty.call(this.methods, methodID)) {
+      return null
+    }
     return this.methods[methodID] || null
   }
 }
@@ -66,7 +69,7 @@ export function createHandler<
   serviceID = serviceID || definition.typeName
 
   // build map of method ID -> method prototype.
-  const methodMap: MethodMap = {}
+  const methodMap: MethodMap = Object.create(null)
   for (const methodInfo of Object.values(definition.methods)) {
     const methodName = methodInfo.name
     let methodProto = impl[methodName]
diff --git a/srpc/mux.ts b/srpc/mux.ts
index 5dc76ad..62f81e0 100644
--- a/srpc/mux.ts
+++ b/srpc/mux.ts
@@ -25,7 +25,8 @@ type staticMuxMethods = { [methodID: string]: Handler }
 // implements Mux
 export class StaticMux implements Mux {
   // services contains a mapping from service id to handlers.
-  private services: { [id: string]: staticMuxMethods } = {}
+  // note: has no prototype, so that only registered ids are found in it.
+  private services: { [id: string]: staticMuxMethods } = Object.create(null)
   // lookups is the list of lookup methods to call.
   // called if the method is not resolved by the services list.
   private lookups: LookupMethod[] = []
@@ -40,7 +41,8 @@ export class StaticMux implements Mux {
     if (!serviceID) {
       throw new Error('service id cannot be empty')
     }
-    const serviceMethods = this.services[serviceID] || {}
+    const serviceMethods: staticMuxMethods =
+      this.services[serviceID] || Object.create(null)
     const methodIDs = handler.getMethodIDs()
     for (const methodID of methodIDs) {
       serviceMethods[methodID] = handler
-- 
2.43.0


From 31d716eb034faa3cad33dfaa0de3a5171c25144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 20/35] fix: do not complete a call which failed

---
 srpc/invoker.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srpc/invoker.ts b/srpc/invoker.ts
index c148006..ddf747b 100644
--- a/srpc/invoker.ts
+++ b/srpc/invoker.ts
@@ -94,7 +94,8 @@ export function createInvokeFn<R extends Message<R>, O extends Message<O>>(
         asError = new Error('error calling implementation: ' + err)
       }
       // mux will return the error to the rpc caller.
-      responseSink.end()
+      // note: ending without the error would complete the call as well.
+      responseSink.end(asError)
       throw asError
     }
   }
-- 
2.43.0


From 4933c87f45a27e3fe4bb4328c2c94bcaf7732a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 21/35] fix: close the client call when its request has ended

---
 srpc/client.ts | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index 7972b60..058f5c1 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -31,13 +31,7 @@ export class Client implements ProtoRpc {
     abortSignal?: AbortSignal,
   ): Promise<Uint8Array> {
     const call = await this.startRpc(service, method, data, abortSignal)
-    for await (const data of call.rpcDataSource) {
-      call.close()
-      return data
-    }
-    const err = new Error('empty response')
-    call.close(err)
-    throw err
+    return this.readResponse(call)
   }
 
   // clientStreamingRequest starts a client side streaming request.
@@ -49,13 +43,7 @@ export class Client implements ProtoRpc {
   ): Promise<Uint8Array> {
     const call = await this.startRpc(service, method, null, abortSignal)
     call.writeCallDataFromSource(data).catch((err) => call.close(err))
-    for await (const data of call.rpcDataSource) {
-      call.close()
-      return data
-    }
-    const err = new Error('empty response')
-    call.close(err)
-    throw err
+    return this.readResponse(call)
   }
 
   // serverStreamingRequest starts a server-side streaming request.
@@ -67,7 +55,10 @@ export class Client implements ProtoRpc {
   ): AsyncIterable<Uint8Array> {
     const serverData: Pushable<Uint8Array> = pushable({ objectMode: true })
     this.startRpc(service, method, data, abortSignal)
-      .then(async (call) => writeToPushable(call.rpcDataSource, serverData))
+      .then(async (call) => {
+        await writeToPushable(call.rpcDataSource, serverData)
+        call.close()
+      })
       .catch((err) => serverData.end(err))
     return serverData
   }
@@ -101,6 +92,20 @@ export class Client implements ProtoRpc {
     return serverData
   }
 
+  // readResponse reads the single response to the call and closes the call.
+  private async readResponse(call: ClientRPC): Promise<Uint8Array> {
+    try {
+      for await (const data of call.rpcDataSource) {
+        call.close()
+        return data
+      }
+      throw new Error('empty response')
+    } catch (err) {
+      call.close(err as Error)
+      throw err
+    }
+  }
+
   // startRpc is a common utility function to begin a rpc call.
   // throws any error starting the rpc call
   // if data == null and data.length == 0, sends a separate data packet.
-- 
2.43.0


From 4522c30e07475744f4044783bde670417dfb9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 22/35] fix: do not start a call which was aborted while its
 stream was opened

---
 srpc/client.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srpc/client.ts b/srpc/client.ts
index 058f5c1..853db40 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -120,6 +120,11 @@ export class Client implements ProtoRpc {
     }
     const openStreamFn = await this.openStreamCtr.wait()
     const stream = await openStreamFn()
+    if (abortSignal?.aborted) {
+      // aborted while opening: the stream is closed when the source ends.
+      stream.sink([]).catch(() => {})
+      throw new Error(ERR_RPC_ABORT)
+    }
     const call = new ClientRPC(rpcService, rpcMethod)
     abortSignal?.addEventListener('abort', () => {
       call.writeCallCancel()
-- 
2.43.0


From 267d0278da0c1d08c251b5f04afba3ec278d599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 23/35] fix: release the stream of a call which can not be
 started

---
 srpc/client.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index 853db40..d77bdb7 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -133,7 +133,12 @@ export class Client implements ProtoRpc {
     pipe(stream, decodePacketSource, call, encodePacketSource, stream)
       .catch((err) => call.close(err))
       .then(() => call.close())
-    await call.writeCallStart(data ?? undefined)
+    try {
+      await call.writeCallStart(data ?? undefined)
+    } catch (err) {
+      call.close(err as Error)
+      throw err
+    }
     return call
   }
 }
-- 
2.43.0


From 87e9d381cdb312047172575cf2195f2c43e904f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 24/35] fix: report an error if a packet source ends in the
 middle of a packet

---
 srpc/packet.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srpc/packet.ts b/srpc/packet.ts
index 103d954..a9982ea 100644
--- a/srpc/packet.ts
+++ b/srpc/packet.ts
@@ -71,6 +71,11 @@ export async function* lengthPrefixDecode(
       buffer.consume(totalLength)
     }
   }
+
+  // The source must not end in the middle of a message.
+  if (buffer.length > 0) {
+    throw new Error('unexpected end of stream')
+  }
 }
 
 // prependLengthPrefixTransform adds a length prefix to a message source.
-- 
2.43.0


From 1db7477b3883a12d9e5390de800ce5f15e39afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 25/35] fix: end the call of a rpc stream which could not be
 opened

---
 rpcstream/rpcstream.ts | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/rpcstream/rpcstream.ts b/rpcstream/rpcstream.ts
index c15ff29..be7049b 100644
--- a/rpcstream/rpcstream.ts
+++ b/rpcstream/rpcstream.ts
@@ -40,19 +40,12 @@ export async function openRpcStream(
 
   // wait for ack, if set.
   if (waitAck) {
-    const ackPacketIt = await packetIt.next()
-    if (ackPacketIt.done) {
-      throw new Error(`rpcstream: closed before ack packet`)
-    }
-    const ackPacket = ackPacketIt.value
-    const ackBody = ackPacket?.body
-    if (!ackBody || ackBody.case !== 'ack') {
-      const msgType = ackBody?.case || 'none'
-      throw new Error(`rpcstream: expected ack packet but got ${msgType}`)
-    }
-    const errStr = ackBody.value?.error
-    if (errStr) {
-      throw new Error(`rpcstream: remote: ${errStr}`)
+    try {
+      await readAck(packetIt)
+    } catch (err) {
+      // end the call: nothing will be sent on the stream.
+      packetTx.end(err as Error)
+      throw err
     }
   }
 
@@ -60,6 +53,24 @@ export async function openRpcStream(
   return new RpcStream(packetTx, packetIt)
 }
 
+// readAck reads the ack packet and throws an error if it is not a success.
+async function readAck(packetIt: AsyncIterator<RpcStreamPacket>) {
+  const ackPacketIt = await packetIt.next()
+  if (ackPacketIt.done) {
+    throw new Error(`rpcstream: closed before ack packet`)
+  }
+  const ackPacket = ackPacketIt.value
+  const ackBody = ackPacket?.body
+  if (!ackBody || ackBody.case !== 'ack') {
+    const msgType = ackBody?.case || 'none'
+    throw new Error(`rpcstream: expected ack packet but got ${msgType}`)
+  }
+  const errStr = ackBody.value?.error
+  if (errStr) {
+    throw new Error(`rpcstream: remote: ${errStr}`)
+  }
+}
+
 // buildRpcStreamOpenStream builds a OpenStream func with a RpcStream.
 export function buildRpcStreamOpenStream(
   componentId: string,
-- 
2.43.0


From ca38d8ca5b3a9057401cde6185210ef0d19a3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 26/35] fix: keep initial values of ValueCtr which are falsy

---
 srpc/value-ctr.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/value-ctr.ts b/srpc/value-ctr.ts
index 68843c4..1ec9e91 100644
--- a/srpc/value-ctr.ts
+++ b/srpc/value-ctr.ts
@@ -7,7 +7,7 @@ export class ValueCtr<T> {
   private _waiters: ((fn: T) => void)[]
 
   constructor(initialValue?: T) {
-    this._value = initialValue || undefined
+    this._value = initialValue
     this._waiters = []
   }
 
-- 
2.43.0


From 1faac6cf5dc080df93ae4fef5f90e0b0d3405c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 27/35] fix: call the callback of waitWithCb if the value is
 already set

---
 srpc/value-ctr.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/srpc/value-ctr.ts b/srpc/value-ctr.ts
index 1ec9e91..24d7128 100644
--- a/srpc/value-ctr.ts
+++ b/srpc/value-ctr.ts
@@ -31,9 +31,14 @@ export class ValueCtr<T> {
 
   // waitWithCb adds a callback to be called when the value is not undefined.
   public waitWithCb(cb: (val: T) => void) {
-    if (cb) {
-      this._waiters.push(cb)
+    if (!cb) {
+      return
+    }
+    if (this._value !== undefined) {
+      cb(this._value)
+      return
     }
+    this._waiters.push(cb)
   }
 
   // set sets the value and calls the callbacks.
-- 
2.43.0


From 72079e11d75850e856af0b9549ea6422145917bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 28/35] fix: null is neither an abort nor an idle error

---
 srpc/errors.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/errors.ts b/srpc/errors.ts
index 150b306..7989a48 100644
--- a/srpc/errors.ts
+++ b/srpc/errors.ts
@@ -3,7 +3,7 @@ export const ERR_RPC_ABORT = 'ERR_RPC_ABORT'
 
 // isAbortError checks if the error object is ERR_RPC_ABORT.
 export function isAbortError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
@@ -15,7 +15,7 @@ export const ERR_STREAM_IDLE = 'ERR_STREAM_IDLE'
 
 // isStreamIdleError checks if the error object is ERR_STREAM_IDLE.
 export function isStreamIdleError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
-- 
2.43.0


From 57d89be6c2d42b350791334184c0910207f2806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 29/35] fix: deliver messages of a channel stream which are
 falsy

---
 srpc/channel.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 99bf8dd..0364a8a 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -275,7 +275,7 @@ export class ChannelStream<T = Uint8Array>
       this.onRemoteOpened()
     }
     const { data, closed, error: err } = msg
-    if (data) {
+    if (data !== undefined && data !== null) {
       this._source.push(data)
     }
     if (err) {
-- 
2.43.0


From cb433abb05926d0faee16ab77e5568ba28c956b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 30/35] fix: do not wait for a remote which closed the channel
 stream

---
 srpc/channel.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 0364a8a..2b7789b 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -199,12 +199,7 @@ export class ChannelStream<T = Uint8Array>
       this.channel.tx.close()
       this.channel.rx.close()
     }
-    if (!this.remoteOpen && this._remoteOpen) {
-      this._remoteOpen(error || new Error('closed'))
-    }
-    if (!this.remoteAck && this._remoteAck) {
-      this._remoteAck(error || new Error('closed'))
-    }
+    this.rejectWaiters(error)
     if (this.idleWatchdog) {
       this.idleWatchdog.clear()
       delete this.idleWatchdog
@@ -216,6 +211,16 @@ export class ChannelStream<T = Uint8Array>
     this._source.end(error)
   }
 
+  // rejectWaiters rejects waiting for a remote which has not acked or opened.
+  private rejectWaiters(error?: Error) {
+    if (!this.remoteOpen && this._remoteOpen) {
+      this._remoteOpen(error || new Error('closed'))
+    }
+    if (!this.remoteAck && this._remoteAck) {
+      this._remoteAck(error || new Error('closed'))
+    }
+  }
+
   // onLocalOpened indicates the local side has opened the read stream.
   private onLocalOpened() {
     if (!this.localOpen) {
@@ -283,6 +288,9 @@ export class ChannelStream<T = Uint8Array>
     } else if (closed) {
       this._source.end()
     }
+    if (err || closed) {
+      this.rejectWaiters(err)
+    }
   }
 }
 
-- 
2.43.0


From 7ba33674e2f34f34b07374da6b6e52e9820dfc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 31/35] fix: closing a channel stream twice, or while it sends,
 does not throw

---
 srpc/channel.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 2b7789b..7dec248 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -60,6 +60,8 @@ export class ChannelStream<T = Uint8Array>
   }
   // localId is the local identifier
   private readonly localId: string
+  // closed indicates close() was called.
+  private closed = false
   // localOpen indicates the local side has opened the stream.
   private localOpen: boolean
   // remoteOpen indicates the remote side has opened the stream.
@@ -160,7 +162,11 @@ export class ChannelStream<T = Uint8Array>
   }
 
   // postMessage writes a message to the stream.
+  // does nothing if the channels were closed.
   private postMessage(msg: Partial<ChannelStreamMessage<T>>) {
+    if (this.closed) {
+      return
+    }
     msg.from = this.localId
     if (this.channel instanceof MessagePort) {
       this.channel.postMessage(msg)
@@ -190,8 +196,12 @@ export class ChannelStream<T = Uint8Array>
 
   // close closes the broadcast channels.
   public close(error?: Error) {
+    if (this.closed) {
+      return
+    }
     // write a message to indicate the stream is now closed.
     this.postMessage({ closed: true, error })
+    this.closed = true
     // close channels
     if (this.channel instanceof MessagePort) {
       this.channel.close()
-- 
2.43.0


From 01fe0695071a5553843efeb094ae5d3e0e725014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 32/35] fix: closing a broadcast channel duplex twice does not
 throw

---
 srpc/broadcast-channel.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/srpc/broadcast-channel.ts b/srpc/broadcast-channel.ts
index 0384972..96b0872 100644
--- a/srpc/broadcast-channel.ts
+++ b/srpc/broadcast-channel.ts
@@ -22,6 +22,8 @@ export class BroadcastChannelDuplex<T>
   public sink: (source: Source<T>) => Promise<void>
   // source is the source for outgoing messages.
   public source: AsyncGenerator<T>
+  // closed indicates the channels were closed.
+  private closed?: true
 
   constructor(read: BroadcastChannel, write: BroadcastChannel) {
     this.read = read
@@ -32,6 +34,11 @@ export class BroadcastChannelDuplex<T>
 
   // close closes the message port.
   public close() {
+    // note: posting to a closed BroadcastChannel throws an error.
+    if (this.closed) {
+      return
+    }
+    this.closed = true
     this.write.postMessage(null)
     this.write.close()
     this.read.close()
-- 
2.43.0


From c626d16337b74ba21650db8dab074159c50b1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 33/35] fix: closing a message port connection tells the remote

---
 srpc/message-port.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srpc/message-port.ts b/srpc/message-port.ts
index 0c51df3..b0203a8 100644
--- a/srpc/message-port.ts
+++ b/srpc/message-port.ts
@@ -136,6 +136,7 @@ export class MessagePortConn extends StreamConn {
   // close closes the message port.
   public override close(err?: Error) {
     super.close(err)
-    this.messagePort.close()
+    // note: this also indicates the closure to the remote.
+    this._messagePort.close()
   }
 }
-- 
2.43.0


From f4cc957e7ca82dfa7ce017282ce910c8a7e52954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 34/35] fix: return the outcome of the call from Wait if the
 call ends while it is looked at

---
 srpc/common-rpc.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index e28cc06..9c14a6a 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -48,15 +48,19 @@ func (c *commonRPC) Wait(ctx context.Context) error {
 		var err error
 		var waitCh <-chan struct{}
 		var rpcCtx context.Context
+		var rpcEnded bool
 		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-			rpcCtx, err = c.ctx, c.remoteErr
+			rpcCtx = c.ctx
+			// check the context before the outcome, which is set before it is canceled.
+			rpcEnded = rpcCtx.Err() != nil
+			err = c.remoteErr
 			waitCh = getWaitCh()
 		})
 
 		if err != nil {
 			return err
 		}
-		if rpcCtx.Err() != nil {
+		if rpcEnded {
 			// rpc must have ended w/o an error being set
 			return context.Canceled
 		}
-- 
2.43.0


From cfc5b1b9293b8911376be7ce4c849fc509032adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 35/35] fix: guard the deadlines of RwcConn against concurrent
 use

---
 srpc/rwc-conn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index c00b0b7..d6607a7 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -31,7 +31,7 @@ type RwcConn struct {
 	packetCh chan []byte // packet ch
 	closeErr error
 
-	restMtx sync.Mutex // guards rest
+	restMtx sync.Mutex // guards rest, rd, wd
 	rest    []byte     // received data which did not fit in the previous Read
 }
 
@@ -82,9 +82,9 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		p.restMtx.Unlock()
 		return n, nil
 	}
+	deadline := p.rd
 	p.restMtx.Unlock()
 
-	deadline := p.rd
 	ctx := p.ctx
 	if !deadline.IsZero() {
 		var ctxCancel context.CancelFunc
@@ -159,8 +159,10 @@ func (p *RwcConn) Write(pkt []byte) (n int, err error) {
 //
 // A zero value for t means I/O operations will not time out.
 func (p *RwcConn) SetDeadline(t time.Time) error {
+	p.restMtx.Lock()
 	p.rd = t
 	p.wd = t
+	p.restMtx.Unlock()
 	return nil
 }
 
@@ -168,7 +170,9 @@ func (p *RwcConn) SetDeadline(t time.Time) error {
 // and any currently-blocked ReadFrom call.
 // A zero value for t means ReadFrom will not time out.
 func (p *RwcConn) SetReadDeadline(t time.Time) error {
+	p.restMtx.Lock()
 	p.rd = t
+	p.restMtx.Unlock()
 	return nil
 }
 
@@ -178,7 +182,9 @@ func (p *RwcConn) SetReadDeadline(t time.Time) error {
 // some of the data was successfully written.
 // A zero value for t means WriteTo will not time out.
 func (p *RwcConn) SetWriteDeadline(t time.Time) error {
+	p.restMtx.Lock()
 	p.wd = t
+	p.restMtx.Unlock()
 	return nil
 }
 
-- 
2.43.0

