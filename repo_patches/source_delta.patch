From f6aeaffd235bb612aea9daa2cb8f37f18641d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 01/39] fix: CloseSend delivered a spurious empty message to
 the remote

WriteCallData set data_is_zero for every packet without data, including the
completion packet written by CloseSend, so the receiver got an extra empty
message before the end of the stream.
---
 srpc/common-rpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 81afada..4b75665 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -121,7 +121,9 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 
 // WriteCallData writes a call data packet.
 func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
-	outPkt := NewCallDataPacket(data, len(data) == 0, complete, err)
+	// a completion without data must not look like an empty message.
+	dataIsZero := len(data) == 0 && !complete && err == nil
+	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
 	return c.writer.WritePacket(outPkt)
 }
 
-- 
2.43.0


From 50ba705264e0c6c0619ce40b9558b825587ef630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 02/39] fix: closing the transport changed the status of a
 completed call

After the remote completed the call the transport error seen while the stream
was torn down replaced the clean end of the stream.
---
 srpc/client-rpc.go | 3 ++-
 srpc/common-rpc.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4271f70..7cb1990 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -70,7 +70,8 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 // HandleStreamClose handles the stream closing optionally w/ an error.
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && r.remoteErr == nil {
+		// keep the status if the remote already completed the stream.
+		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 4b75665..ce80b45 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -130,7 +130,8 @@ func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 // HandleStreamClose handles the incoming stream closing w/ optional error.
 func (c *commonRPC) HandleStreamClose(closeErr error) {
 	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && c.remoteErr == nil {
+		// keep the status if the remote already completed the stream.
+		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
 			c.remoteErr = closeErr
 		}
 		c.dataClosed = true
-- 
2.43.0


From 4cb7bd3c271db58e17bf32e8a31b13e697fa28f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 03/39] fix: client send blocked for ever after the remote
 ended the call

When the incoming side of the stream ended the client did not close its
writer: a MsgSend blocked on flow control never returned, and the stream stayed
half-open in the muxed connection unless the caller also called Close.
---
 srpc/client-rpc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 7cb1990..375808a 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -76,6 +76,10 @@ func (r *ClientRPC) HandleStreamClose(closeErr error) {
 		}
 		r.dataClosed = true
 		r.ctxCancel()
+		// note: writer is nil if the call did not start yet.
+		if r.writer != nil {
+			_ = r.writer.Close()
+		}
 		broadcast()
 	})
 }
-- 
2.43.0


From 5703ee3d8237952415ab92c65f73cb4dfcb04c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 04/39] fix: context leaked when a call failed to open its
 stream

The call's context stayed registered with the caller's context until the
caller's context ended.
---
 srpc/client-rpc.go | 1 +
 srpc/client.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 375808a..2c371ff 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -119,5 +119,6 @@ func (r *ClientRPC) Close() {
 			_ = r.WriteCallCancel()
 			r.closeLocked(broadcast)
 		}
+		r.ctxCancel()
 	})
 }
diff --git a/srpc/client.go b/srpc/client.go
index 7d0262c..f0938ac 100644
--- a/srpc/client.go
+++ b/srpc/client.go
@@ -83,6 +83,7 @@ func (c *client) NewStream(ctx context.Context, service, method string, firstMsg
 	clientRPC := NewClientRPC(ctx, service, method)
 	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
 	if err != nil {
+		clientRPC.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 3ab7d33883811f196c8c8b6308d588a6c158d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 05/39] fix: client reported success when the transport ended
 before the call completed

If the stream ended without the remote having completed the call (remote
process stopped, proxy gone) the client returned io.EOF, which is the same as a
successful end of the call.
---
 srpc/client-rpc.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 2c371ff..465e58e 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -2,6 +2,7 @@ package srpc
 
 import (
 	"context"
+	"io"
 
 	"github.com/pkg/errors"
 )
@@ -71,7 +72,11 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 		// keep the status if the remote already completed the stream.
-		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
+		if r.remoteErr == nil && !r.dataClosed {
+			// the remote did not complete the call: this is not a clean end.
+			if closeErr == nil || closeErr == io.EOF {
+				closeErr = io.ErrUnexpectedEOF
+			}
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
-- 
2.43.0


From d14d3b5adaebc412ad7f66c25f9de7738b383d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 06/39] fix: the rpcstream proxy canceled the caller's stream
 when either side ended

A proxied call that ended cleanly reported "context canceled" to the caller and
could drop the tail of the response: copyRpcStreamTo closed both streams when one
direction ended (including on io.EOF), so CloseSend was never forwarded.
---
 rpcstream/proxy.go | 79 +++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 43 deletions(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7d1c82e..8317ffe 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -76,54 +76,47 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 		return err
 	}
 
-	errCh := make(chan error, 2)
-	go copyRpcStreamTo(remoteStrm, stream, errCh)
-	go copyRpcStreamTo(stream, remoteStrm, errCh)
-
-	// wait for both errors
-	var outErr error
-	for range 2 {
-		if err := <-errCh; err != nil && outErr == nil && err != io.EOF {
-			outErr = err
-		}
-	}
-	return outErr
-}
-
-// copies s1 to s2
-func copyRpcStreamTo(s1, s2 RpcStream, errCh chan error) {
-	rerr := func() error {
-		pkt := srpc.NewRawMessage(nil, true)
-		for {
-			err := s1.MsgRecv(pkt)
-			if err != nil {
-				return err
-			}
-			if len(pkt.GetData()) == 0 {
-				continue
-			}
-			err = s2.MsgSend(pkt)
-			pkt.Clear()
-			if err != nil {
-				return err
-			}
+	// copy the packets from the caller to the remote.
+	go func() {
+		recvErr, sendErr := copyRpcStreamTo(stream, remoteStrm)
+		switch {
+		case sendErr != nil:
+			// the remote ended the call: the other direction returns its status.
+		case recvErr == io.EOF:
+			// the caller will not send any more packets.
+			_ = remoteStrm.CloseSend()
+		default:
+			// the caller canceled the call.
+			_ = remoteStrm.Close()
 		}
 	}()
 
-	s1Err := s1.Close()
-	if rerr == nil && s1Err != nil {
-		rerr = s1Err
+	// copy the packets from the remote to the caller until the remote ends the call.
+	recvErr, sendErr := copyRpcStreamTo(remoteStrm, stream)
+	if sendErr != nil {
+		return sendErr
 	}
-	if rerr != nil {
-		if errCh != nil {
-			errCh <- rerr
-		}
-		_ = s2.Close()
-		return
+	if recvErr != io.EOF {
+		return recvErr
 	}
+	return nil
+}
 
-	rerr = s2.CloseSend()
-	if errCh != nil {
-		errCh <- rerr
+// copyRpcStreamTo copies packets from s1 to s2 until either returns an error.
+// Does not close the streams.
+func copyRpcStreamTo(s1, s2 RpcStream) (recvErr, sendErr error) {
+	pkt := srpc.NewRawMessage(nil, true)
+	for {
+		if err := s1.MsgRecv(pkt); err != nil {
+			return err, nil
+		}
+		if len(pkt.GetData()) == 0 {
+			continue
+		}
+		err := s2.MsgSend(pkt)
+		pkt.Clear()
+		if err != nil {
+			return nil, err
+		}
 	}
 }
-- 
2.43.0


From 0b250214e25404b541a2947db5199887fc25dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 07/39] fix: the rpcstream proxy ignored a caller returned
 without a release function

RpcProxyGetter reports "not found" with a nil caller; the release function is
optional. A nil caller with a release function caused a nil dereference.
---
 rpcstream/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 8317ffe..de8f0e2 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -38,7 +38,8 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	remoteCaller, remoteComponentID, remoteCallerRel, err := getter(ctx, componentID)
 	if remoteCallerRel != nil {
 		defer remoteCallerRel()
-	} else if err == nil {
+	}
+	if err == nil && remoteCaller == nil {
 		err = ErrNoServerForComponent
 	}
 
-- 
2.43.0


From e11d56969077bf82ca264d5f871c5db61117b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 08/39] fix: a short write repeated the start of the packet
 instead of sending the rest

---
 srpc/packet-rw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index c848891..670f78f 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -59,7 +59,7 @@ func (r *PacketReadWriter) WritePacket(p *Packet) error {
 
 	var written, n int
 	for written < len(data) {
-		n, err = r.rw.Write(data)
+		n, err = r.rw.Write(data[written:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 74792d4f3acdc101bf382b7499be4d915ace0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 09/39] fix: a stream that ended within a packet was reported
 as closed cleanly

---
 srpc/packet-rw.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index 670f78f..5960c3e 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -85,14 +85,14 @@ func (r *PacketReadWriter) ReadPump(cb PacketDataHandler, closed CloseHandler) {
 func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	var currLen uint32
 	buf := make([]byte, 2048)
-	isOpen := true
+	isOpen, isEOF := true, false
 
 	for isOpen {
 		// read some data into the buffer
 		n, err := r.rw.Read(buf)
 		if err != nil {
 			if err == io.EOF || err == context.Canceled {
-				isOpen = false
+				isOpen, isEOF = false, err == io.EOF
 			} else {
 				return err
 			}
@@ -136,6 +136,11 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 		}
 	}
 
+	// the stream ended within a packet
+	if isEOF && r.buf.Len() != 0 {
+		return io.ErrUnexpectedEOF
+	}
+
 	// closed
 	return nil
 }
-- 
2.43.0


From a0316a44eb237998e3003d43796b20ccbc85e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 10/39] fix: Dial set up the connection as the accepting side,
 so no call worked

---
 srpc/net.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 3bfc3f5..021a93e 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -11,7 +11,7 @@ func Dial(addr string) (Client, error) {
 	if err != nil {
 		return nil, err
 	}
-	muxedConn, err := NewMuxedConn(nconn, false, nil)
+	muxedConn, err := NewMuxedConn(nconn, true, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3d6b93c09f469d385a5d10b881f2d6f78b8a55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 11/39] fix: AcceptMuxedListener served only one connection at
 a time

---
 srpc/accept.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srpc/accept.go b/srpc/accept.go
index 9995073..588f7ee 100644
--- a/srpc/accept.go
+++ b/srpc/accept.go
@@ -24,9 +24,9 @@ func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yam
 			continue
 		}
 
-		if err := srv.AcceptMuxedConn(ctx, mc); err != nil {
+		go func() {
+			_ = srv.AcceptMuxedConn(ctx, mc)
 			_ = nc.Close()
-			continue
-		}
+		}()
 	}
 }
-- 
2.43.0


From eebd529bde808398af8a19715026da363658c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 12/39] fix: Listen left the listener open when the context was
 canceled

---
 srpc/net.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srpc/net.go b/srpc/net.go
index 021a93e..f9b13ab 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -27,6 +27,8 @@ func Listen(ctx context.Context, addr string, srv *Server, errCh <-chan error) e
 		return err
 	}
 
+	defer lis.Close()
+
 	listenErrCh := make(chan error, 1)
 	go func() {
 		listenErrCh <- AcceptMuxedListener(ctx, lis, srv, nil)
-- 
2.43.0


From 16bda6b6946d5b69b4a657a56cb48eb15733e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 13/39] fix: RwcConn.Read dropped the rest of a packet that did
 not fit into the buffer

---
 srpc/rwc-conn.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 6737d4c..1ff2a22 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -29,6 +29,8 @@ type RwcConn struct {
 	rd       time.Time   // read deadline
 	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
+	rmtx     sync.Mutex  // guards rbuf
+	rbuf     []byte      // rest of the packet read last
 	closeErr error
 }
 
@@ -72,6 +74,15 @@ func (p *RwcConn) RemoteAddr() net.Addr {
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (p *RwcConn) Read(b []byte) (n int, err error) {
+	// return the rest of the previous packet first
+	p.rmtx.Lock()
+	n = copy(b, p.rbuf)
+	p.rbuf = p.rbuf[n:]
+	p.rmtx.Unlock()
+	if n != 0 {
+		return n, nil
+	}
+
 	deadline := p.rd
 	ctx := p.ctx
 	if !deadline.IsZero() {
@@ -98,13 +109,15 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		}
 	}
 
-	pl := len(pkt)
-	copy(b, pkt)
-	p.ar.Put(&pkt)
-	if len(b) < pl {
-		return len(b), io.ErrShortBuffer
+	n = copy(b, pkt)
+	if n < len(pkt) {
+		// keep the rest for the next read
+		p.rmtx.Lock()
+		p.rbuf = append(p.rbuf, pkt[n:]...)
+		p.rmtx.Unlock()
 	}
-	return pl, nil
+	p.ar.Put(&pkt)
+	return n, nil
 }
 
 // Write writes data to the connection.
-- 
2.43.0


From 879095a4e96c9f433fe82a3b84d2bdbc82fff2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 14/39] fix: RwcConn.Close left the receive pump running

---
 srpc/rwc-conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 1ff2a22..2d3a3b9 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -185,6 +185,7 @@ func (p *RwcConn) SetWriteDeadline(t time.Time) error {
 // Close closes the connection.
 // Any blocked ReadFrom or WriteTo operations will be unblocked and return errors.
 func (p *RwcConn) Close() error {
+	p.ctxCancel()
 	return p.rwc.Close()
 }
 
-- 
2.43.0


From 5c74847ed14c9b564e7b77f0c2014bdda632ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 15/39] fix: RwcConn read deadlines did not apply to pending
 reads

---
 srpc/rwc-conn.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 2d3a3b9..3df3946 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -26,12 +26,14 @@ type RwcConn struct {
 	raddr net.Addr
 
 	ar       sync.Pool   // packet arena
-	rd       time.Time   // read deadline
 	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
-	rmtx     sync.Mutex  // guards rbuf
-	rbuf     []byte      // rest of the packet read last
 	closeErr error
+
+	rmtx sync.Mutex    // guards below fields
+	rbuf []byte        // rest of the packet read last
+	rd   time.Time     // read deadline
+	rdCh chan struct{} // closed when the read deadline changes
 }
 
 // NewRwcConn constructs a new packet conn and starts the rx pump.
@@ -53,6 +55,7 @@ func NewRwcConn(
 		laddr:     laddr,
 		raddr:     raddr,
 		packetCh:  make(chan []byte, bufferPacketN),
+		rdCh:      make(chan struct{}),
 	}
 	go func() {
 		_ = c.rxPump()
@@ -78,12 +81,12 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	p.rmtx.Lock()
 	n = copy(b, p.rbuf)
 	p.rbuf = p.rbuf[n:]
+	deadline, deadlineChanged := p.rd, p.rdCh
 	p.rmtx.Unlock()
 	if n != 0 {
 		return n, nil
 	}
 
-	deadline := p.rd
 	ctx := p.ctx
 	if !deadline.IsZero() {
 		var ctxCancel context.CancelFunc
@@ -99,6 +102,8 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 			return 0, os.ErrDeadlineExceeded
 		}
 		return 0, context.Canceled
+	case <-deadlineChanged:
+		return p.Read(b)
 	case pkt, ok = <-p.packetCh:
 		if !ok {
 			err = p.closeErr
@@ -159,16 +164,19 @@ func (p *RwcConn) Write(pkt []byte) (n int, err error) {
 //
 // A zero value for t means I/O operations will not time out.
 func (p *RwcConn) SetDeadline(t time.Time) error {
-	p.rd = t
-	p.wd = t
-	return nil
+	_ = p.SetReadDeadline(t)
+	return p.SetWriteDeadline(t)
 }
 
 // SetReadDeadline sets the deadline for future ReadFrom calls
 // and any currently-blocked ReadFrom call.
 // A zero value for t means ReadFrom will not time out.
 func (p *RwcConn) SetReadDeadline(t time.Time) error {
+	p.rmtx.Lock()
 	p.rd = t
+	close(p.rdCh)
+	p.rdCh = make(chan struct{})
+	p.rmtx.Unlock()
 	return nil
 }
 
-- 
2.43.0


From 8ac8138a2f66b01a90952d076255b0fdbadbe381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 16/39] fix: a raw rpcstream canceled the call and dropped data
 when either side ended

---
 rpcstream/raw-stream.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/rpcstream/raw-stream.go b/rpcstream/raw-stream.go
index c72dc75..bd1568b 100644
--- a/rpcstream/raw-stream.go
+++ b/rpcstream/raw-stream.go
@@ -58,26 +58,25 @@ func HandleRawRpcStream(stream RpcStream, getter RpcRawGetter) error {
 	// we re-use the rpcstream message framing here.
 	// 1 incoming message = 1 outgoing message
 	srw := NewRpcStreamReadWriter(stream)
-	errCh := make(chan error, 2)
-	go copyRwcTo(remoteRwc, srw, errCh)
-	go copyRwcTo(srw, remoteRwc, errCh)
-
-	// wait for both errors
-	var outErr error
-	for i := 0; i < 2; i++ {
-		if err := <-errCh; err != nil && outErr == nil && err != io.EOF {
-			outErr = err
+	go func() {
+		if err := copyRwcTo(srw, remoteRwc); err == nil {
+			// the caller will not send any more data.
+			if cw, ok := remoteRwc.(interface{ CloseWrite() error }); ok {
+				_ = cw.CloseWrite()
+				<-ctx.Done()
+			}
 		}
-	}
-	return outErr
+		_ = remoteRwc.Close()
+	}()
+
+	// the call ends when the remote ends.
+	return copyRwcTo(remoteRwc, srw)
 }
 
-func copyRwcTo(s1, s2 io.ReadWriteCloser, errCh chan error) {
+// copyRwcTo copies data from s1 to s2 until either returns an error.
+// Does not close the streams.
+func copyRwcTo(s1, s2 io.ReadWriteCloser) error {
 	buf := make([]byte, 8192)
 	_, err := io.CopyBuffer(s2, s1, buf)
-	_ = s1.Close()
-	_ = s2.Close()
-	if errCh != nil {
-		errCh <- err
-	}
+	return err
 }
-- 
2.43.0


From e60bc0d43eb8c7baad2797ec71f6465b206dbec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:17 +0000
Subject: [PATCH 17/39] fix: RwcConn.Read reported a timeout when the
 connection was closed or canceled

---
 srpc/rwc-conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 3df3946..8dd982f 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -98,7 +98,7 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	var ok bool
 	select {
 	case <-ctx.Done():
-		if !deadline.IsZero() {
+		if p.ctx.Err() == nil {
 			return 0, os.ErrDeadlineExceeded
 		}
 		return 0, context.Canceled
-- 
2.43.0


From 039908756afb1cea031fd1252fb3ae17fd8c66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 18/39] fix: the server accepted call data before the start of
 the call

Data that arrived before the CallStart packet was queued and handed to the
handler ahead of the first message; a completion or error before it made the
CallStart fail. The TypeScript server rejects such a packet already.
---
 srpc/server-rpc.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/srpc/server-rpc.go b/srpc/server-rpc.go
index 2404c59..ac10bc6 100644
--- a/srpc/server-rpc.go
+++ b/srpc/server-rpc.go
@@ -86,6 +86,18 @@ func (r *ServerRPC) HandleCallStart(pkt *CallStart) error {
 	return err
 }
 
+// HandleCallData handles the call data packet.
+func (r *ServerRPC) HandleCallData(pkt *CallData) error {
+	var started bool
+	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+		started = r.method != "" || r.service != ""
+	})
+	if !started {
+		return errors.New("call start must be sent before call data")
+	}
+	return r.commonRPC.HandleCallData(pkt)
+}
+
 // invokeRPC invokes the RPC after CallStart is received.
 func (r *ServerRPC) invokeRPC(serviceID, methodID string) {
 	// on the server side, the writer is closed by invokeRPC.
-- 
2.43.0


From 41e50fa6155c1864a3a0bb9ed08baf25c0ae7f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 19/39] fix: a send on a closed pipe stream panicked, and one
 to a closed peer blocked for ever

CloseSend and Close closed the channel the sends use, so a later or pending
MsgSend panicked, and a MsgSend whose peer had closed its end without reading
blocked until the own context was canceled.
---
 srpc/stream-pipe.go | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/srpc/stream-pipe.go b/srpc/stream-pipe.go
index 7f55969..cbad719 100644
--- a/srpc/stream-pipe.go
+++ b/srpc/stream-pipe.go
@@ -17,13 +17,15 @@ type pipeStream struct {
 	closeOnce sync.Once
 	// dataCh is the data channel
 	dataCh chan []byte
+	// sendDone is closed when this end will not send any more messages.
+	sendDone chan struct{}
 }
 
 // NewPipeStream constructs a new in-memory stream.
 func NewPipeStream(ctx context.Context) (Stream, Stream) {
-	s1 := &pipeStream{dataCh: make(chan []byte, 5)}
+	s1 := &pipeStream{dataCh: make(chan []byte, 5), sendDone: make(chan struct{})}
 	s1.ctx, s1.ctxCancel = context.WithCancel(ctx)
-	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5)}
+	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5), sendDone: make(chan struct{})}
 	s2.ctx, s2.ctxCancel = context.WithCancel(ctx)
 	s1.other = s2
 	return s1, s2
@@ -40,9 +42,23 @@ func (p *pipeStream) MsgSend(msg Message) error {
 	if err != nil {
 		return err
 	}
+	if p.ctx.Err() != nil {
+		return context.Canceled
+	}
+	select {
+	case <-p.sendDone:
+		return io.ErrClosedPipe
+	case <-p.other.ctx.Done():
+		return io.ErrClosedPipe
+	default:
+	}
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
+	case <-p.sendDone:
+		return io.ErrClosedPipe
+	case <-p.other.ctx.Done():
+		return io.ErrClosedPipe
 	case p.other.dataCh <- data:
 		return nil
 	}
@@ -54,31 +70,36 @@ func (p *pipeStream) MsgRecv(msg Message) error {
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
-	case data, ok := <-p.dataCh:
-		if !ok {
+	case data := <-p.dataCh:
+		return msg.UnmarshalVT(data)
+	case <-p.other.sendDone:
+		// return the messages sent before the remote closed.
+		select {
+		case data := <-p.dataCh:
+			return msg.UnmarshalVT(data)
+		default:
 			return io.EOF
 		}
-		return msg.UnmarshalVT(data)
 	}
 }
 
 // CloseSend signals to the remote that we will no longer send any messages.
 func (p *pipeStream) CloseSend() error {
-	p.closeRemote()
+	p.closeSend()
 	return nil
 }
 
 // Close closes the stream.
 func (p *pipeStream) Close() error {
 	p.ctxCancel()
-	p.closeRemote()
+	p.closeSend()
 	return nil
 }
 
-// closeRemote closes the remote data channel.
-func (p *pipeStream) closeRemote() {
+// closeSend marks this end as done sending.
+func (p *pipeStream) closeSend() {
 	p.closeOnce.Do(func() {
-		close(p.other.dataCh)
+		close(p.sendDone)
 	})
 }
 
-- 
2.43.0


From 7345f5148087b80cb09e0b1c86ea1a56388c5245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 20/39] fix: a cancel packet received before the call was
 started crashed the client

The read pump of a new stream runs before ClientRPC.Start sets the writer, and
handling a CallCancel packet then dereferenced the nil writer.
---
 srpc/common-rpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index ce80b45..02550cf 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -136,7 +136,10 @@ func (c *commonRPC) HandleStreamClose(closeErr error) {
 		}
 		c.dataClosed = true
 		c.ctxCancel()
-		_ = c.writer.Close()
+		// note: writer is nil if the call did not start yet.
+		if c.writer != nil {
+			_ = c.writer.Close()
+		}
 		broadcast()
 	})
 }
-- 
2.43.0


From bdd2ba27bb326d1da1dbb8ca8440dac041addf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 21/39] fix: a handler error with an empty text was reported to
 the client as success

---
 srpc/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/packet.go b/srpc/packet.go
index 94344a7..417dafe 100644
--- a/srpc/packet.go
+++ b/srpc/packet.go
@@ -67,6 +67,10 @@ func NewCallDataPacket(data []byte, dataIsZero bool, complete bool, err error) *
 	var errStr string
 	if err != nil {
 		errStr = err.Error()
+		// an empty error string indicates success.
+		if errStr == "" {
+			errStr = "unknown error"
+		}
 	}
 	return &Packet{Body: &Packet_CallData{
 		CallData: &CallData{
-- 
2.43.0


From 61c0cf1d4e75aae0a380bdd06a40431feab881f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 22/39] fix: guard the write deadline of RwcConn against
 concurrent use

Multiple goroutines may invoke methods on a net.Conn simultaneously:
concurrent calls of SetWriteDeadline (or SetDeadline) raced on the field.
---
 srpc/rwc-conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 8dd982f..7259aa3 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -26,13 +26,13 @@ type RwcConn struct {
 	raddr net.Addr
 
 	ar       sync.Pool   // packet arena
-	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
 
 	rmtx sync.Mutex    // guards below fields
 	rbuf []byte        // rest of the packet read last
 	rd   time.Time     // read deadline
+	wd   time.Time     // write deadline
 	rdCh chan struct{} // closed when the read deadline changes
 }
 
@@ -186,7 +186,9 @@ func (p *RwcConn) SetReadDeadline(t time.Time) error {
 // some of the data was successfully written.
 // A zero value for t means WriteTo will not time out.
 func (p *RwcConn) SetWriteDeadline(t time.Time) error {
+	p.rmtx.Lock()
 	p.wd = t
+	p.rmtx.Unlock()
 	return nil
 }
 
-- 
2.43.0


From add438d9300b7ddd2f8539ec2fb16b0d381b9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 23/39] fix: (ts) closing a BroadcastChannelDuplex twice or
 with writes pending threw

---
 srpc/broadcast-channel.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/srpc/broadcast-channel.ts b/srpc/broadcast-channel.ts
index 0384972..88eb211 100644
--- a/srpc/broadcast-channel.ts
+++ b/srpc/broadcast-channel.ts
@@ -22,6 +22,8 @@ export class BroadcastChannelDuplex<T>
   public sink: (source: Source<T>) => Promise<void>
   // source is the source for outgoing messages.
   public source: AsyncGenerator<T>
+  // closed indicates the channels have been closed already.
+  private closed?: true
 
   constructor(read: BroadcastChannel, write: BroadcastChannel) {
     this.read = read
@@ -32,6 +34,10 @@ export class BroadcastChannelDuplex<T>
 
   // close closes the message port.
   public close() {
+    if (this.closed) {
+      return
+    }
+    this.closed = true
     this.write.postMessage(null)
     this.write.close()
     this.read.close()
@@ -42,6 +48,9 @@ export class BroadcastChannelDuplex<T>
     return async (source) => {
       try {
         for await (const msg of source) {
+          if (this.closed) {
+            return
+          }
           this.write.postMessage(msg)
         }
       } catch (err: unknown) {
-- 
2.43.0


From 8e576df422f8a0f9c0f06452ef97757cdc0cc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 24/39] fix: (ts) MessagePortConn.close did not tell the peer

---
 srpc/message-port.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/message-port.ts b/srpc/message-port.ts
index 0c51df3..38932e4 100644
--- a/srpc/message-port.ts
+++ b/srpc/message-port.ts
@@ -136,6 +136,6 @@ export class MessagePortConn extends StreamConn {
   // close closes the message port.
   public override close(err?: Error) {
     super.close(err)
-    this.messagePort.close()
+    this._messagePort.close()
   }
 }
-- 
2.43.0


From 1bc7704cc239a74d26b4f8c5c49cea8878caf765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 25/39] fix: (ts) services and methods named like object
 members were not reported as not found

---
 srpc/handler.ts | 3 +++
 srpc/mux.ts     | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/srpc/handler.ts b/srpc/handler.ts
index a5fda2a..288a4a6 100644
--- a/srpc/handler.ts
+++ b/srpc/handler.ts
@@ -53,6 +53,9 @@ export class StaticHandler implements Handler {
     if (serviceID && serviceID !== this.service) {
       return null
     }
+    if (!Object.hasOwn(this.methods, methodID)) {
+      return null
+    }
     return this.methods[methodID] || null
   }
 }
diff --git a/srpc/mux.ts b/srpc/mux.ts
index 5dc76ad..492a54f 100644
--- a/srpc/mux.ts
+++ b/srpc/mux.ts
@@ -25,7 +25,7 @@ type staticMuxMethods = { [methodID: string]: Handler }
 // implements Mux
 export class StaticMux implements Mux {
   // services contains a mapping from service id to handlers.
-  private services: { [id: string]: staticMuxMethods } = {}
+  private services: { [id: string]: staticMuxMethods } = Object.create(null)
   // lookups is the list of lookup methods to call.
   // called if the method is not resolved by the services list.
   private lookups: LookupMethod[] = []
@@ -40,7 +40,7 @@ export class StaticMux implements Mux {
     if (!serviceID) {
       throw new Error('service id cannot be empty')
     }
-    const serviceMethods = this.services[serviceID] || {}
+    const serviceMethods = this.services[serviceID] || Object.create(null)
     const methodIDs = handler.getMethodIDs()
     for (const methodID of methodIDs) {
       serviceMethods[methodID] = handler
-- 
2.43.0


From 49db61ca36f885e8bcaa4f588a35c046393f6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 26/39] fix: (ts) packets handled after the call was closed
 could invoke the handler

---
 srpc/common-rpc.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 05607b1..fd3e2b6 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -103,6 +103,9 @@ export class CommonRPC {
   // note: closes the stream if any error is thrown.
   public async handlePacket(packet: Packet) {
     // console.log('handlePacket', packet)
+    if (this.closed) {
+      return
+    }
     try {
       switch (packet?.body?.case) {
         case 'callStart':
-- 
2.43.0


From d9e7d5e9c5af65f6b11395e7a803bb23534fe46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 27/39] fix: (ts) a stream that ends before the call is
 complete hung or looked like a clean end

---
 srpc/client.ts     | 4 ++--
 srpc/common-rpc.ts | 9 ++++++++-
 srpc/errors.ts     | 3 +++
 srpc/server.ts     | 5 +++--
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index 7972b60..cd38147 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -1,7 +1,7 @@
 import { pipe } from 'it-pipe'
 import { pushable, Pushable } from 'it-pushable'
 
-import { ERR_RPC_ABORT } from './errors.js'
+import { ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
 import type { ProtoRpc } from './proto-rpc.js'
 import type { OpenStreamFunc } from './stream.js'
 import { ClientRPC } from './client-rpc.js'
@@ -122,7 +122,7 @@ export class Client implements ProtoRpc {
     })
     pipe(stream, decodePacketSource, call, encodePacketSource, stream)
       .catch((err) => call.close(err))
-      .then(() => call.close())
+      .then(() => call.close(new Error(ERR_STREAM_CLOSED)))
     await call.writeCallStart(data ?? undefined)
     return call
   }
diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index fd3e2b6..255c148 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -4,7 +4,7 @@ import { CompleteMessage } from '@aptre/protobuf-es-lite'
 
 import type { CallData, CallStart } from './rpcproto.pb.js'
 import { Packet } from './rpcproto.pb.js'
-import { ERR_RPC_ABORT } from './errors.js'
+import { ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
 
 // CommonRPC is common logic between server and client RPCs.
 export class CommonRPC {
@@ -30,6 +30,8 @@ export class CommonRPC {
   // method is the rpc method
   protected method?: string
 
+  // remoteEnded indicates the remote completed its side of the call.
+  private remoteEnded?: true
   // closed indicates this rpc has been closed already.
   private closed?: true | Error
 
@@ -163,6 +165,7 @@ export class CommonRPC {
     if (packet.error) {
       this._rpcDataSource.end(new Error(packet.error))
     } else if (packet.complete) {
+      this.remoteEnded = true
       this._rpcDataSource.end()
     }
   }
@@ -203,6 +206,10 @@ export class CommonRPC {
             await this.handlePacket(msg)
           }
         }
+        // the stream ended before the remote completed the call.
+        if (!this.remoteEnded) {
+          this.close(new Error(ERR_STREAM_CLOSED))
+        }
       } catch (err) {
         this.close(err as Error)
       }
diff --git a/srpc/errors.ts b/srpc/errors.ts
index 150b306..bf3bebc 100644
--- a/srpc/errors.ts
+++ b/srpc/errors.ts
@@ -22,6 +22,9 @@ export function isStreamIdleError(err: unknown): boolean {
   return message === ERR_STREAM_IDLE
 }
 
+// ERR_STREAM_CLOSED is returned if the stream closed before the call completed.
+export const ERR_STREAM_CLOSED = 'ERR_STREAM_CLOSED'
+
 // castToError casts an object to an Error.
 // if err is a string, uses it as the message.
 // if err is undefined, returns new Error(defaultMsg)
diff --git a/srpc/server.ts b/srpc/server.ts
index 76a2618..319fad7 100644
--- a/srpc/server.ts
+++ b/srpc/server.ts
@@ -1,5 +1,6 @@
 import { pipe } from 'it-pipe'
 
+import { ERR_STREAM_CLOSED } from './errors.js'
 import { LookupMethod } from './mux.js'
 import { ServerRPC } from './server-rpc.js'
 import { decodePacketSource, encodePacketSource } from './packet.js'
@@ -23,7 +24,7 @@ export class Server implements StreamHandler {
       const rpc = this.startRpc()
       return pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)
         .catch((err: Error) => rpc.close(err))
-        .then(() => rpc.close())
+        .then(() => rpc.close(new Error(ERR_STREAM_CLOSED)))
     }
   }
 
@@ -39,7 +40,7 @@ export class Server implements StreamHandler {
     const rpc = this.startRpc()
     pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)
       .catch((err: Error) => rpc.close(err))
-      .then(() => rpc.close())
+      .then(() => rpc.close(new Error(ERR_STREAM_CLOSED)))
     return rpc
   }
 }
-- 
2.43.0


From 7442349982e48b69042416287198cfdf450a3cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 28/39] fix: (ts) calls that fail and server streaming calls
 were never closed by the client

---
 srpc/client.ts | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index cd38147..07e171f 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -31,13 +31,7 @@ export class Client implements ProtoRpc {
     abortSignal?: AbortSignal,
   ): Promise<Uint8Array> {
     const call = await this.startRpc(service, method, data, abortSignal)
-    for await (const data of call.rpcDataSource) {
-      call.close()
-      return data
-    }
-    const err = new Error('empty response')
-    call.close(err)
-    throw err
+    return readResponse(call)
   }
 
   // clientStreamingRequest starts a client side streaming request.
@@ -49,13 +43,7 @@ export class Client implements ProtoRpc {
   ): Promise<Uint8Array> {
     const call = await this.startRpc(service, method, null, abortSignal)
     call.writeCallDataFromSource(data).catch((err) => call.close(err))
-    for await (const data of call.rpcDataSource) {
-      call.close()
-      return data
-    }
-    const err = new Error('empty response')
-    call.close(err)
-    throw err
+    return readResponse(call)
   }
 
   // serverStreamingRequest starts a server-side streaming request.
@@ -67,7 +55,10 @@ export class Client implements ProtoRpc {
   ): AsyncIterable<Uint8Array> {
     const serverData: Pushable<Uint8Array> = pushable({ objectMode: true })
     this.startRpc(service, method, data, abortSignal)
-      .then(async (call) => writeToPushable(call.rpcDataSource, serverData))
+      .then(async (call) => {
+        await writeToPushable(call.rpcDataSource, serverData)
+        call.close()
+      })
       .catch((err) => serverData.end(err))
     return serverData
   }
@@ -127,3 +118,17 @@ export class Client implements ProtoRpc {
     return call
   }
 }
+
+// readResponse reads the single response to the call and closes the call.
+async function readResponse(call: ClientRPC): Promise<Uint8Array> {
+  try {
+    for await (const data of call.rpcDataSource) {
+      call.close()
+      return data
+    }
+    throw new Error('empty response')
+  } catch (err) {
+    call.close(err as Error)
+    throw err
+  }
+}
-- 
2.43.0


From 3a241fe77d1feb0859fb6b5b9e1bb85cc81eff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 29/39] fix: (ts) aborting a call while its stream is being
 opened was ignored

---
 srpc/client.ts | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index 07e171f..19a47fb 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -104,16 +104,26 @@ export class Client implements ProtoRpc {
     if (abortSignal?.aborted) {
       throw new Error(ERR_RPC_ABORT)
     }
-    const openStreamFn = await this.openStreamCtr.wait()
-    const stream = await openStreamFn()
     const call = new ClientRPC(rpcService, rpcMethod)
-    abortSignal?.addEventListener('abort', () => {
-      call.writeCallCancel()
-      call.close(new Error(ERR_RPC_ABORT))
+    const aborted = new Promise<never>((_, reject) => {
+      abortSignal?.addEventListener('abort', () => {
+        const err = new Error(ERR_RPC_ABORT)
+        call.writeCallCancel()
+        call.close(err)
+        reject(err)
+      })
     })
-    pipe(stream, decodePacketSource, call, encodePacketSource, stream)
-      .catch((err) => call.close(err))
-      .then(() => call.close(new Error(ERR_STREAM_CLOSED)))
+    aborted.catch(() => {})
+    // if the call is aborted before the stream is open, the stream is closed once open.
+    const opened = this.openStreamCtr
+      .wait()
+      .then((openStreamFn) => openStreamFn())
+      .then((stream) => {
+        pipe(stream, decodePacketSource, call, encodePacketSource, stream)
+          .catch((err) => call.close(err))
+          .then(() => call.close(new Error(ERR_STREAM_CLOSED)))
+      })
+    await Promise.race([opened, aborted])
     await call.writeCallStart(data ?? undefined)
     return call
   }
-- 
2.43.0


From ac08d3a9f896348b792c549b276fed58b1031f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 30/39] fix: (ts) ChannelStream dropped empty strings and other
 falsy values

---
 srpc/channel.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 99bf8dd..df32e55 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -275,7 +275,7 @@ export class ChannelStream<T = Uint8Array>
       this.onRemoteOpened()
     }
     const { data, closed, error: err } = msg
-    if (data) {
+    if (data !== undefined) {
       this._source.push(data)
     }
     if (err) {
-- 
2.43.0


From 3e93d4de49e257fe372ef3d836dc083947a6f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 31/39] fix: (ts) closing a ChannelStream twice or with writes
 pending threw

---
 srpc/channel.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index df32e55..bdbc413 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -62,6 +62,8 @@ export class ChannelStream<T = Uint8Array>
   private readonly localId: string
   // localOpen indicates the local side has opened the stream.
   private localOpen: boolean
+  // closed indicates the stream has been closed already.
+  private closed?: true
   // remoteOpen indicates the remote side has opened the stream.
   private remoteOpen: boolean
   // waitRemoteOpen indicates the remote side has opened the stream.
@@ -161,6 +163,9 @@ export class ChannelStream<T = Uint8Array>
 
   // postMessage writes a message to the stream.
   private postMessage(msg: Partial<ChannelStreamMessage<T>>) {
+    if (this.closed) {
+      return
+    }
     msg.from = this.localId
     if (this.channel instanceof MessagePort) {
       this.channel.postMessage(msg)
@@ -190,8 +195,12 @@ export class ChannelStream<T = Uint8Array>
 
   // close closes the broadcast channels.
   public close(error?: Error) {
+    if (this.closed) {
+      return
+    }
     // write a message to indicate the stream is now closed.
     this.postMessage({ closed: true, error })
+    this.closed = true
     // close channels
     if (this.channel instanceof MessagePort) {
       this.channel.close()
@@ -253,6 +262,9 @@ export class ChannelStream<T = Uint8Array>
 
       try {
         for await (const msg of source) {
+          if (this.closed) {
+            return
+          }
           this.postMessage({ data: msg })
         }
         this.postMessage({ closed: true })
-- 
2.43.0


From fb4614ff69566a0a1ec4ad5bc841a0fbdb2a463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 32/39] fix: (ts) setting the clock back delayed the expiry of
 the Watchdog

---
 srpc/watchdog.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/watchdog.ts b/srpc/watchdog.ts
index d02a7cc..b8c4b41 100644
--- a/srpc/watchdog.ts
+++ b/srpc/watchdog.ts
@@ -22,7 +22,7 @@ export class Watchdog {
    * This resets the timeout and reschedules the next tick.
    */
   public feed(): void {
-    this.lastFeedTimestamp = Date.now()
+    this.lastFeedTimestamp = performance.now()
     this.scheduleTickWatchdog(this.timeoutDuration)
   }
 
@@ -61,7 +61,7 @@ export class Watchdog {
       this.expiredCallback()
       return
     }
-    const elapsedSinceLastFeed = Date.now() - this.lastFeedTimestamp
+    const elapsedSinceLastFeed = performance.now() - this.lastFeedTimestamp
     if (elapsedSinceLastFeed >= this.timeoutDuration) {
       this.expiredCallback()
     } else {
-- 
2.43.0


From 8d7474707100516c3dd1b29011bdb05814aac04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 33/39] fix: (ts) ValueCtr ignored a falsy initial value

---
 srpc/value-ctr.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/value-ctr.ts b/srpc/value-ctr.ts
index 68843c4..1ec9e91 100644
--- a/srpc/value-ctr.ts
+++ b/srpc/value-ctr.ts
@@ -7,7 +7,7 @@ export class ValueCtr<T> {
   private _waiters: ((fn: T) => void)[]
 
   constructor(initialValue?: T) {
-    this._value = initialValue || undefined
+    this._value = initialValue
     this._waiters = []
   }
 
-- 
2.43.0


From 8d26f31653b5b28b581eb14cd1c424748912c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 34/39] fix: calling CloseSend twice ended the call

---
 srpc/msg-stream.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/srpc/msg-stream.go b/srpc/msg-stream.go
index bc6f31c..40738f3 100644
--- a/srpc/msg-stream.go
+++ b/srpc/msg-stream.go
@@ -2,6 +2,7 @@ package srpc
 
 import (
 	"context"
+	"sync/atomic"
 )
 
 // MsgStreamRw is the read-write interface for MsgStream.
@@ -26,6 +27,8 @@ type MsgStream struct {
 	rw MsgStreamRw
 	// closeCb is the close callback
 	closeCb func()
+	// sendClosed is set once CloseSend was called
+	sendClosed atomic.Bool
 }
 
 // NewMsgStream constructs a new Stream with a ClientRPC.
@@ -73,6 +76,10 @@ func (r *MsgStream) MsgRecv(msg Message) error {
 
 // CloseSend signals to the remote that we will no longer send any messages.
 func (r *MsgStream) CloseSend() error {
+	// the remote ends the call if it receives a second completion.
+	if r.sendClosed.Swap(true) {
+		return nil
+	}
 	return r.rw.WriteCallData(nil, true, nil)
 }
 
-- 
2.43.0


From b4825d5e75e5b559ae7ae592c25561855d685d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:18 +0000
Subject: [PATCH 35/39] fix: an empty read from RwcConn reported the end of the
 stream before its last bytes

---
 srpc/rwc-conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 7259aa3..a346cc1 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -83,7 +83,7 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	p.rbuf = p.rbuf[n:]
 	deadline, deadlineChanged := p.rd, p.rdCh
 	p.rmtx.Unlock()
-	if n != 0 {
+	if n != 0 || len(b) == 0 {
 		return n, nil
 	}
 
-- 
2.43.0


From 8ef46913753544d375f0b5998f881e02fa451f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 36/39] fix: (ts) a handler error without a message was
 reported as an abort by the caller

---
 srpc/pushable.ts   | 4 +++-
 srpc/server-rpc.ts | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/srpc/pushable.ts b/srpc/pushable.ts
index 3806ee7..ad47c2b 100644
--- a/srpc/pushable.ts
+++ b/srpc/pushable.ts
@@ -2,6 +2,8 @@ import { Message } from '@aptre/protobuf-es-lite'
 import { Pushable, pushable } from 'it-pushable'
 import { Sink, Source } from 'it-stream-types'
 
+import { castToError } from './errors.js'
+
 // messagePushable is a shortcut to build a pushable for messages.
 export function messagePushable<T extends Message<T>>(): Pushable<T> {
   return pushable<T>({ objectMode: true })
@@ -20,7 +22,7 @@ export async function writeToPushable<T>(
     }
     out.end()
   } catch (err) {
-    out.end(err as Error)
+    out.end(castToError(err))
   }
 }
 
diff --git a/srpc/server-rpc.ts b/srpc/server-rpc.ts
index 5f49d05..7128669 100644
--- a/srpc/server-rpc.ts
+++ b/srpc/server-rpc.ts
@@ -2,6 +2,7 @@ import type { Sink, Source } from 'it-stream-types'
 
 import type { CallData, CallStart } from './rpcproto.pb.js'
 import { CommonRPC } from './common-rpc.js'
+import { castToError } from './errors.js'
 import { InvokeFn } from './handler.js'
 import { LookupMethod } from './mux.js'
 
@@ -50,7 +51,7 @@ export class ServerRPC extends CommonRPC {
     try {
       await invokeFn(this.rpcDataSource, dataSink)
     } catch (err) {
-      this.close(err as Error)
+      this.close(castToError(err))
     }
   }
 
@@ -64,7 +65,7 @@ export class ServerRPC extends CommonRPC {
         await this.writeCallData(undefined, true)
         this.close()
       } catch (err) {
-        this.close(err as Error)
+        this.close(castToError(err))
       }
     }
   }
-- 
2.43.0


From 6dd8a8fd8ef18550fb3a64329a1eb72b5a3dea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 37/39] fix: (ts) a request source that failed without a
 message looked like a clean end of the call

---
 srpc/common-rpc.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 255c148..a84bf71 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -4,7 +4,7 @@ import { CompleteMessage } from '@aptre/protobuf-es-lite'
 
 import type { CallData, CallStart } from './rpcproto.pb.js'
 import { Packet } from './rpcproto.pb.js'
-import { ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
+import { ERR_RPC_ABORT, ERR_STREAM_CLOSED, castToError } from './errors.js'
 
 // CommonRPC is common logic between server and client RPCs.
 export class CommonRPC {
@@ -84,7 +84,7 @@ export class CommonRPC {
       }
       await this.writeCallData(undefined, true)
     } catch (err) {
-      this.close(err as Error)
+      this.close(castToError(err))
     }
   }
 
-- 
2.43.0


From 8ac7105f0680ec02e1ba24a30f0cafa2dd31a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 38/39] fix: Wait returns the remote error when the call ended
 while it was checking

---
 srpc/common-rpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 02550cf..d2b0420 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -46,17 +46,20 @@ func (c *commonRPC) Context() context.Context {
 func (c *commonRPC) Wait(ctx context.Context) error {
 	for {
 		var err error
+		var ended bool
 		var waitCh <-chan struct{}
 		var rpcCtx context.Context
 		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+			// check both with the lock held: the error is set before the context is canceled.
 			rpcCtx, err = c.ctx, c.remoteErr
+			ended = rpcCtx.Err() != nil
 			waitCh = getWaitCh()
 		})
 
 		if err != nil {
 			return err
 		}
-		if rpcCtx.Err() != nil {
+		if ended {
 			// rpc must have ended w/o an error being set
 			return context.Canceled
 		}
-- 
2.43.0


From 805e8a195039090c31b24cd05de2be2e348e0233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:33 +0000
Subject: [PATCH 39/39] fix: (ts) a packet with data could follow the one that
 ended the call

---
 srpc/common-rpc.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index a84bf71..7ce1fe6 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -182,13 +182,14 @@ export class CommonRPC {
     }
     this.closed = err ?? true
     // note: this does nothing if _source is already ended.
-    if (err && err.message) {
-      await this.writeCallData(undefined, true, err.message)
-    } else {
-      await this.writeCallCancel()
-    }
+    const written =
+      err && err.message ?
+        this.writeCallData(undefined, true, err.message)
+      : this.writeCallCancel()
+    // end the source before waiting: no packet may follow the last one.
     this._source.end()
     this._rpcDataSource.end(err)
+    await written
   }
 
   // _createSink returns a value for the sink field.
-- 
2.43.0

