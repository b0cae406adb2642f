From 2096dfc2bfdca1d5857f18962e306682a5383ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 01/34] fix: a late or failed receipt must not block the
 connection

A caller that has given up waiting for its receipt no longer reads the
response channel, so processLoop blocked for ever when the RECEIPT (or an
ERROR) arrived after the timeout. One response is sent per channel: buffer it.
---
 conn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 94c3108..56e029d 100644
--- a/conn.go
+++ b/conn.go
@@ -485,7 +485,7 @@ func (c *Conn) Disconnect() error {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	ch := make(chan *frame.Frame)
+	ch := make(chan *frame.Frame, 1)
 	c.writeCh <- writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
 		C:     ch,
@@ -551,7 +551,7 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1),
 		}
 
 		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
@@ -650,7 +650,7 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1),
 		}
 
 		c.writeCh <- request
-- 
2.43.0


From c93a0e1ca6cdfc52ee5e098ba54589bacd85fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 02/34] fix: refuse pending requests when the connection ends

Requests accepted into writeCh but not yet processed were never answered, so
callers waiting for a receipt (with closeMutex held) hung and subscriptions
made at that moment never saw the error; processLoop itself could deadlock on
closeMutex, and readLoop on a full readCh.
---
 conn.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 56e029d..9cb2b5a 100644
--- a/conn.go
+++ b/conn.go
@@ -311,7 +311,9 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	var writeTimeoutChannel <-chan time.Time
 	var writeTimer *time.Timer
 
-	defer c.MustDisconnect()
+	// what the callers still waiting for an answer are told
+	reason := frame.New(frame.ERROR, frame.Message, "connection closed")
+	defer func() { c.shutdown(reason) }()
 
 	for {
 		if c.readTimeout > 0 && readTimer == nil {
@@ -380,11 +382,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					close(ch)
 				}
 
-				c.closeMutex.Lock()
-				defer c.closeMutex.Unlock()
-				c.closed = true
-				c.conn.Close()
-
+				reason = f
 				return
 
 			case frame.MESSAGE:
@@ -460,6 +458,36 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	}
 }
 
+// shutdown closes the connection when processLoop has ended. Callers may be
+// blocked, some of them holding closeMutex, until a request of theirs has been
+// accepted or answered, so every request is refused from now on. Also lets
+// readLoop finish if it is blocked on a full channel.
+func (c *Conn) shutdown(reason *frame.Frame) {
+	closed := make(chan struct{})
+	go func() {
+		defer close(closed)
+		c.MustDisconnect()
+	}()
+
+	for closed != nil || len(c.writeCh) > 0 {
+		select {
+		case <-closed:
+			// there will be no further requests
+			closed = nil
+		case req, ok := <-c.writeCh:
+			if !ok {
+				<-closed
+				closed = nil
+			} else if req.C != nil {
+				req.C <- reason
+			}
+		}
+	}
+
+	for range c.readCh {
+	}
+}
+
 // Send an error to all receipt channels.
 func sendError(m map[string]chan *frame.Frame, err error) {
 	frame := frame.New(frame.ERROR, frame.Message, err.Error())
-- 
2.43.0


From 06f5ebc30d2a8122b80c57150d99539d3be8b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:08 +0000
Subject: [PATCH 03/34] fix: serialise sending on and closing a subscription's
 channel

Unsubscribe (connection already closed, or receipt timeout) raced with the
subscription's readLoop: a message or the timeout error was sent on a closed
channel, and Unsubscribe could block on a full channel or miss the wake-up
when the receipt arrived between its check and its wait.
---
 subscription.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/subscription.go b/subscription.go
index 8ca54af..feffa66 100644
--- a/subscription.go
+++ b/subscription.go
@@ -31,6 +31,7 @@ type Subscription struct {
 	closeMutex                *sync.Mutex
 	closeCond                 *sync.Cond
 	closeOnce                 sync.Once
+	sendMutex                 sync.Mutex // held while sending on C or closing it
 	unsubscribeReceiptTimeout time.Duration
 }
 
@@ -87,7 +88,7 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 	err := s.conn.sendFrame(f)
 	if errors.Is(err, ErrClosedUnexpectedly) {
 		msg := s.subscriptionErrorMessage("connection closed unexpectedly")
-		s.closeChannel(msg)
+		go s.closeChannel(msg)
 		return err
 	}
 
@@ -106,7 +107,7 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 			// the channel is still available.
 			if atomic.LoadInt32(&s.state) != subStateClosed {
 				msg := s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
-				s.C <- msg
+				go s.send(msg)
 			}
 			return err
 		}
@@ -150,11 +151,26 @@ func (s *Subscription) Read() (*Message, error) {
 	return msg, nil
 }
 
+// send delivers a message on the channel C, unless it has been closed.
+func (s *Subscription) send(msg *Message) {
+	s.sendMutex.Lock()
+	defer s.sendMutex.Unlock()
+	if atomic.LoadInt32(&s.state) != subStateClosed {
+		s.C <- msg
+	}
+}
+
 func (s *Subscription) closeChannel(msg *Message) {
 	s.closeOnce.Do(func() {
+		s.sendMutex.Lock()
+		defer s.sendMutex.Unlock()
 		if msg != nil {
 			s.C <- msg
 		}
+		// Unsubscribe must not miss the change between looking at the
+		// state and waiting for it.
+		s.closeMutex.Lock()
+		defer s.closeMutex.Unlock()
 		atomic.StoreInt32(&s.state, subStateClosed)
 		close(s.C)
 		s.closeCond.Broadcast()
@@ -192,7 +208,7 @@ func (s *Subscription) readLoop(ch chan *frame.Frame) {
 				Header:       f.Header,
 				Body:         f.Body,
 			}
-			s.C <- msg
+			s.send(msg)
 		} else if f.Command == frame.ERROR {
 			state := atomic.LoadInt32(&s.state)
 			if state == subStateActive || state == subStateClosing {
-- 
2.43.0


From 3195898d9af454db986b3a4497ed8e191dd562ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:08 +0000
Subject: [PATCH 04/34] fix: Unsubscribe must not report success when an error
 ended the subscription

---
 subscription.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subscription.go b/subscription.go
index feffa66..d7ef33b 100644
--- a/subscription.go
+++ b/subscription.go
@@ -32,6 +32,7 @@ type Subscription struct {
 	closeCond                 *sync.Cond
 	closeOnce                 sync.Once
 	sendMutex                 sync.Mutex // held while sending on C or closing it
+	closeErr                  error      // the error C was closed with, if any
 	unsubscribeReceiptTimeout time.Duration
 }
 
@@ -112,6 +113,8 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 			return err
 		}
 	}
+	// not confirmed if an error has closed the channel
+	err = s.closeErr
 	s.closeMutex.Unlock()
 	return err
 }
@@ -171,6 +174,9 @@ func (s *Subscription) closeChannel(msg *Message) {
 		// state and waiting for it.
 		s.closeMutex.Lock()
 		defer s.closeMutex.Unlock()
+		if msg != nil {
+			s.closeErr = msg.Err
+		}
 		atomic.StoreInt32(&s.state, subStateClosed)
 		close(s.C)
 		s.closeCond.Broadcast()
-- 
2.43.0


From d157c1933bef654e4569fe60940704cf408b0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:14 +0000
Subject: [PATCH 05/34] fix: unsubscribing from a temp queue delivered a
 spurious error

---
 subscription.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subscription.go b/subscription.go
index d7ef33b..165b39b 100644
--- a/subscription.go
+++ b/subscription.go
@@ -196,7 +196,10 @@ func (s *Subscription) readLoop(ch chan *frame.Frame) {
 		f, ok := <-ch
 		if !ok {
 			state := atomic.LoadInt32(&s.state)
-			if state == subStateActive || state == subStateClosing {
+			if state == subStateClosing && s.replyToSet {
+				// a temp queue is unsubscribed without asking the server
+				s.closeChannel(nil)
+			} else if state == subStateActive || state == subStateClosing {
 				msg := s.subscriptionErrorMessage("channel read failed")
 				s.closeChannel(msg)
 			}
-- 
2.43.0


From 1c659580d74db96251d08defdc8151aa239853dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:57 +0000
Subject: [PATCH 06/34] fix: a receipt for SUBSCRIBE must not close the
 subscription

The receipt id of a SUBSCRIBE frame (set with SubscribeOpt.Header) was
registered for the subscription's own channel, where a RECEIPT means
unsubscribed; an error was then sent twice to that channel and blocked.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 9cb2b5a..aaa2586 100644
--- a/conn.go
+++ b/conn.go
@@ -406,7 +406,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				sendError(channels, errors.New("write channel closed"))
 				return
 			}
-			if req.C != nil {
+			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
 					channels[receipt] = req.C
-- 
2.43.0


From a5c2e1256a91da8784b1494b4dd694f69d526125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:57 +0000
Subject: [PATCH 07/34] fix: a refused Unsubscribe option must leave the
 subscription active

---
 subscription.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subscription.go b/subscription.go
index 165b39b..ea71d58 100644
--- a/subscription.go
+++ b/subscription.go
@@ -74,10 +74,12 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 
 	for _, opt := range opts {
 		if opt == nil {
+			atomic.CompareAndSwapInt32(&s.state, subStateClosing, subStateActive)
 			return ErrNilOption
 		}
 		err := opt(f)
 		if err != nil {
+			atomic.CompareAndSwapInt32(&s.state, subStateClosing, subStateActive)
 			return err
 		}
 	}
-- 
2.43.0


From bf9ab0b5b98f9f5ef82f3f2d0613195d0a3b27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:04 +0000
Subject: [PATCH 08/34] fix: Unsubscribe hung when an option had set a receipt
 header

---
 subscription.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subscription.go b/subscription.go
index ea71d58..4626810 100644
--- a/subscription.go
+++ b/subscription.go
@@ -84,6 +84,9 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 		}
 	}
 
+	// the receipt is requested on the I/O goroutine, see below
+	f.Header.Del(frame.Receipt)
+
 	if s.replyToSet {
 		f.Header.Set(ReplyToHeader, s.id)
 	}
-- 
2.43.0


From 8710d36a4a571261abd75bd2cad8e6726a172072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:11 +0000
Subject: [PATCH 09/34] fix: no read timeout without negotiated server
 heart-beats

A server announcing 0 for its heart-beats, or a client asking for 0, must not
make the client drop a silent connection.
---
 conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index aaa2586..ab18c0d 100644
--- a/conn.go
+++ b/conn.go
@@ -209,7 +209,10 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			}
 		}
 
-		if readTimeout < options.ReadTimeout {
+		if readTimeout == 0 || options.ReadTimeout == 0 {
+			// the server cannot send heart-beats, or we did not want any
+			readTimeout = 0
+		} else if readTimeout < options.ReadTimeout {
 			readTimeout = options.ReadTimeout
 		}
 
-- 
2.43.0


From 68b5647d68fe78bb5cc7d10c0a9f48bd6a3ff2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:18 +0000
Subject: [PATCH 10/34] fix: Dial must close its network connection when
 connecting fails

---
 conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ab18c0d..1e1a64b 100644
--- a/conn.go
+++ b/conn.go
@@ -86,7 +86,12 @@ func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Co
 	// so that if host has been explicitly specified it will override.
 	opts = append([]func(*Conn) error{ConnOpt.Host(host)}, opts...)
 
-	return ConnectWithContext(ctx, c, opts...)
+	conn, err := ConnectWithContext(ctx, c, opts...)
+	if err != nil {
+		c.Close()
+		return nil, err
+	}
+	return conn, nil
 }
 
 // Connect creates a STOMP connection and performs the STOMP connect
-- 
2.43.0


From 1c5d0922dbe957b1935a996217d47c1ee7db62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:26 +0000
Subject: [PATCH 11/34] fix: DialWithContext must honour its context while
 dialing

---
 conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 1e1a64b..89fdf62 100644
--- a/conn.go
+++ b/conn.go
@@ -71,7 +71,8 @@ func Dial(network, addr string, opts ...func(*Conn) error) (*Conn, error) {
 }
 
 func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Conn) error) (*Conn, error) {
-	c, err := net.Dial(network, addr)
+	var dialer net.Dialer
+	c, err := dialer.DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 56d7c0c484ab9825c85055fbdc5b82105232b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 12/34] fix: frames that are not sent must not postpone the
 heart-beat

---
 conn.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 89fdf62..9471204 100644
--- a/conn.go
+++ b/conn.go
@@ -405,12 +405,6 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			}
 
 		case req, ok := <-c.writeCh:
-			// stop the write timeout
-			if writeTimer != nil {
-				writeTimer.Stop()
-				writeTimer = nil
-				writeTimeoutChannel = nil
-			}
 			if !ok {
 				sendError(channels, errors.New("write channel closed"))
 				return
@@ -457,6 +451,12 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			// frame to send, if enabled
 			if sendFrame {
+				// stop the write timeout
+				if writeTimer != nil {
+					writeTimer.Stop()
+					writeTimer = nil
+					writeTimeoutChannel = nil
+				}
 				err := writer.Write(req.Frame)
 				if err != nil {
 					sendError(channels, err)
-- 
2.43.0


From 2d507498af462e886ec6f318100314e1bb05d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:14 +0000
Subject: [PATCH 13/34] fix: adding a header to itself never ended

---
 frame/header.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frame/header.go b/frame/header.go
index 163f513..05e549e 100644
--- a/frame/header.go
+++ b/frame/header.go
@@ -75,7 +75,8 @@ func (h *Header) Add(key, value string) {
 // AddHeader adds all of the key value pairs in header to h.
 func (h *Header) AddHeader(header *Header) {
 	if header != nil {
-		for i := 0; i < header.Len(); i++ {
+		// header can be h itself, which grows with every entry added
+		for i, n := 0, header.Len(); i < n; i++ {
 			key, value := header.GetAt(i)
 			h.Add(key, value)
 		}
-- 
2.43.0


From de100de24db8c2effc2994a2fb41436f55b7710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:33 +0000
Subject: [PATCH 14/34] fix: a subscription whose message was acknowledged
 crashed the server

It still counted as a member of the list of unacknowledged subscriptions
when it was added to the queue's list of idle ones.
---
 server/client/subscription_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 5630517..2e5942a 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -59,6 +59,7 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 		sub := e.Value.(*Subscription)
 		if sub.id == id {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			return sub
 		}
 	}
@@ -74,6 +75,7 @@ func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsAckedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
@@ -90,6 +92,7 @@ func (sl *SubscriptionList) Nack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsNackedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
-- 
2.43.0


From 576ec94dd5ff8938ec6f7347934f92de6dbac371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:35 +0000
Subject: [PATCH 15/34] fix: ACK and NACK must apply to the message they name

The message id was never recorded in the subscription.
---
 server/client/conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index f363775..5c62e4b 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -419,6 +419,7 @@ func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 			f.Header.Del(frame.Ack)
 		} else {
 			f.Header.Set(frame.Ack, messageId)
+			sub.msgId = c.lastMsgId
 		}
 	}
 }
-- 
2.43.0


From af38b07dc6307045e3589d9281059dd115ac86ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 16/34] fix: STOMP 1.2 clients acknowledge with an id header

---
 server/client/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 5c62e4b..929c4ae 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -663,6 +663,8 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 
 	if ack, ok := f.Header.Contains(frame.Ack); ok {
 		msgId = ack
+	} else if id, ok := f.Header.Contains(frame.Id); ok && c.version == stomp.V12 {
+		msgId = id
 	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
 		return missingHeader(frame.MessageId)
 	}
@@ -706,6 +708,8 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 
 	if ack, ok := f.Header.Contains(frame.Ack); ok {
 		msgId = ack
+	} else if id, ok := f.Header.Contains(frame.Id); ok && c.version == stomp.V12 {
+		msgId = id
 	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
 		return missingHeader(frame.MessageId)
 	}
-- 
2.43.0


From 65724d26b2d6659f7f710efea51bf95940039b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 17/34] fix: a SEND frame without destination crashed the
 server

---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 929c4ae..4f477cf 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -753,6 +753,11 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 // this method is called after a SEND message is received,
 // but also after a transaction commit.
 func (c *Conn) handleSend(f *frame.Frame) error {
+	// the upper layer relies on the destination
+	if _, ok := f.Header.Contains(frame.Destination); !ok {
+		return missingHeader(frame.Destination)
+	}
+
 	// Send a receipt and remove the header
 	err := c.sendReceiptImmediately(f)
 	if err != nil {
-- 
2.43.0


From e4b04607e137bca015f18a3b2a2a0be170f58beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 18/34] fix: a SUBSCRIBE frame with an unknown ack value
 crashed the server

---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 4f477cf..631ff52 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -624,6 +624,11 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 	if !ok {
 		ack = frame.AckAuto
 	}
+	switch ack {
+	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
+	default:
+		return invalidHeaderValue
+	}
 
 	sub, ok := c.subs[id]
 	if ok {
-- 
2.43.0


From 2444efdeb2cbda52c2a4758ff1a65dbcd32254e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:35 +0000
Subject: [PATCH 19/34] fix: send a receipt only for a frame that has been
 accepted

A frame that was refused got both a RECEIPT and an ERROR without receipt-id.
---
 server/client/conn.go | 88 +++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 631ff52..e4d9857 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -536,8 +536,19 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 
 // Sends a RECEIPT frame to the client if the frame f contains
 // a receipt header. If the frame does contain a receipt header,
-// it will be removed from the frame.
+// it will be removed from the frame. Called once the frame has
+// been accepted, because a frame that is refused gets an ERROR
+// frame with its receipt instead.
 func (c *Conn) sendReceiptImmediately(f *frame.Frame) error {
+	if receipt := takeReceipt(f); receipt != nil {
+		return c.sendImmediately(receipt)
+	}
+	return nil
+}
+
+// Removes the receipt header from f and returns the RECEIPT frame
+// that it asks for, or nil if it has no receipt header.
+func takeReceipt(f *frame.Frame) *frame.Frame {
 	if receipt, ok := f.Header.Contains(frame.Receipt); ok {
 		// Remove the receipt header from the frame. This is handy
 		// for transactions, because the frame has its receipt
@@ -545,8 +556,8 @@ func (c *Conn) sendReceiptImmediately(f *frame.Frame) error {
 		// When the frame is processed upon transaction commit, it
 		// will not have a receipt header anymore.
 		f.Header.Del(frame.Receipt)
-		return c.sendImmediately(frame.New(frame.RECEIPT,
-			frame.ReceiptId, receipt))
+		return frame.New(frame.RECEIPT,
+			frame.ReceiptId, receipt)
 	}
 	return nil
 }
@@ -565,13 +576,13 @@ func (c *Conn) handleBegin(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
+		err := c.txStore.Begin(transaction)
 		if err != nil {
 			return err
 		}
 
-		return c.txStore.Begin(transaction)
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	}
 	return missingHeader(frame.Transaction)
 }
@@ -580,17 +591,18 @@ func (c *Conn) handleCommit(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
-		return c.txStore.Commit(transaction, func(f *frame.Frame) error {
+		err := c.txStore.Commit(transaction, func(f *frame.Frame) error {
 			// Call the state function (again) for each frame in the
 			// transaction. This time each frame is stripped of its transaction
 			// header (and its receipt header as well, if it had one).
 			return c.stateFunc(c, f)
 		})
+		if err != nil {
+			return err
+		}
+
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	}
 	return missingHeader(frame.Transaction)
 }
@@ -599,12 +611,13 @@ func (c *Conn) handleAbort(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
+		err := c.txStore.Abort(transaction)
 		if err != nil {
 			return err
 		}
-		return c.txStore.Abort(transaction)
+
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	}
 	return missingHeader(frame.Transaction)
 }
@@ -680,12 +693,6 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -704,7 +711,8 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 		})
 	}
 
-	return nil
+	// Send a receipt and remove the header
+	return c.sendReceiptImmediately(f)
 }
 
 func (c *Conn) handleNack(f *frame.Frame) error {
@@ -725,12 +733,6 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -751,7 +753,9 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
 		})
 	}
-	return nil
+
+	// Send a receipt and remove the header
+	return c.sendReceiptImmediately(f)
 }
 
 // Handle a SEND frame received from the client. Note that
@@ -763,23 +767,25 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		return missingHeader(frame.Destination)
 	}
 
-	// Send a receipt and remove the header
-	err := c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
-		err = c.txStore.Add(tx, f)
+		err := c.txStore.Add(tx, f)
 		if err != nil {
 			return err
 		}
-	} else {
-		// not in a transaction
-		// change from SEND to MESSAGE
-		f.Command = frame.MESSAGE
-		c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
+
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
+	}
+
+	// not in a transaction
+	// change from SEND to MESSAGE; the frame belongs
+	// to the upper layer once it has been passed on
+	receipt := takeReceipt(f)
+	f.Command = frame.MESSAGE
+	c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
+	if receipt != nil {
+		return c.sendImmediately(receipt)
 	}
 
 	return nil
-- 
2.43.0


From 96c3f324e2608b3b60219546976e3db5461b9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 20/34] fix: SUBSCRIBE and UNSUBSCRIBE frames got no receipt

---
 server/client/conn.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index e4d9857..2831a1c 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -653,7 +653,9 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 
 	// send information about new subscription to upper layer
 	c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
-	return nil
+
+	// Send a receipt and remove the header
+	return c.sendReceiptImmediately(f)
 }
 
 func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
@@ -672,7 +674,9 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 
 	// tell the upper layer of the unsubscribe
 	c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
-	return nil
+
+	// Send a receipt and remove the header
+	return c.sendReceiptImmediately(f)
 }
 
 func (c *Conn) handleAck(f *frame.Frame) error {
-- 
2.43.0


From a91676fa5275078fa1ddef08056fc536b1cbd9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:38 +0000
Subject: [PATCH 21/34] fix: acknowledging a message must not revive its ended
 subscription

Messages then went to a subscription that the client had ended, or to one
of the same id made since.
---
 server/client/conn.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 2831a1c..282036e 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -280,7 +280,7 @@ func (c *Conn) processLoop() {
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
 			// this, so we check
-			if _, ok = c.subs[sub.id]; ok {
+			if c.subs[sub.id] == sub {
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
@@ -710,8 +710,10 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless it has ended
+			if c.subs[s.id] == s {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		})
 	}
 
@@ -753,8 +755,10 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless it has ended
+			if c.subs[s.id] == s {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		})
 	}
 
-- 
2.43.0


From e616f9729379d8e20c1b611bffaed0b16b627cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:40 +0000
Subject: [PATCH 22/34] fix: a queue message was lost when it could not be
 written

---
 server/client/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 282036e..2fd4716 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -288,6 +288,10 @@ func (c *Conn) processLoop() {
 				// write the frame to the client
 				err := c.writer.Write(sub.frame)
 				if err != nil {
+					// the client has not received the frame,
+					// so it will be requeued
+					c.subList.Add(sub)
+
 					// if there is an error writing to
 					// the client, there is not much
 					// point trying to send an ERROR frame,
-- 
2.43.0


From 40b516e2714516b37c24958ba99b2bceb4a2ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:42 +0000
Subject: [PATCH 23/34] fix: a message that is not sent must not postpone the
 heart-beat

---
 server/client/conn.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 2fd4716..78ca8c3 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -271,16 +271,16 @@ func (c *Conn) processLoop() {
 			// have a frame to the client which requires
 			// acknowledgement to the upper layer
 
-			// stop the heart-beat timer
-			if timer != nil {
-				timer.Stop()
-				timer = nil
-			}
-
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
 			// this, so we check
 			if c.subs[sub.id] == sub {
+				// stop the heart-beat timer
+				if timer != nil {
+					timer.Stop()
+					timer = nil
+				}
+
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
-- 
2.43.0


From 0b4b69c97aa67374953dc082738411ef5dba7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:59 +0000
Subject: [PATCH 24/34] fix: a queue storage supplied by the user was never
 started

---
 server/processor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/processor.go b/server/processor.go
index 291845a..3e62347 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -37,8 +37,11 @@ func newRequestProcessor(server *Server) *requestProcessor {
 }
 
 func (proc *requestProcessor) Serve(l net.Listener) error {
-	go proc.Listen(l)
+	if proc.server.QueueStorage != nil {
+		proc.server.QueueStorage.Start()
+	}
 
+	go proc.Listen(l)
 	for {
 		r := <-proc.ch
 		switch r.Op {
-- 
2.43.0


From fe976454233d8161faf3c2d3b75cd3d06a97aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 25/34] fix: a client that does not read, or leaves, must not
 stall the server

The upper layer waited for room in the channels of a connection, which was
possibly itself waiting for the upper layer, blocked writing, or gone.
---
 server/client/conn.go         | 55 +++++++++++++----------------------
 server/client/mailbox.go      | 51 ++++++++++++++++++++++++++++++++
 server/client/subscription.go |  4 +--
 3 files changed, 74 insertions(+), 36 deletions(-)
 create mode 100644 server/client/mailbox.go

diff --git a/server/client/conn.go b/server/client/conn.go
index 78ca8c3..4966a63 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -15,7 +15,7 @@ import (
 // before a disconnect occurs. If the client cannot keep
 // up with the server, we do not want the server to backlog
 // pending frames indefinitely.
-const maxPendingWrites = 16
+const maxPendingWrites = 65536
 
 // Maximum number of pending frames allowed before the read
 // go routine starts blocking.
@@ -27,8 +27,8 @@ type Conn struct {
 	rw             net.Conn                            // Network connection to client
 	writer         *frame.Writer                       // Writes STOMP frames directly to the network connection
 	requestChannel chan Request                        // For sending requests to upper layer
-	subChannel     chan *Subscription                  // Receives subscription messages for client
-	writeChannel   chan *frame.Frame                   // Receives unacknowledged (topic) messages for client
+	subChannel     *mailbox                            // Receives subscription messages for client
+	writeChannel   *mailbox                            // Receives unacknowledged (topic) messages for client
 	readChannel    chan *frame.Frame                   // Receives frames from the client
 	stateFunc      func(c *Conn, f *frame.Frame) error // State processing function
 	writeTimeout   time.Duration                       // Heart beat write timeout
@@ -52,8 +52,8 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		config:         config,
 		rw:             rw,
 		requestChannel: ch,
-		subChannel:     make(chan *Subscription, maxPendingWrites),
-		writeChannel:   make(chan *frame.Frame, maxPendingWrites),
+		subChannel:     newMailbox(),
+		writeChannel:   newMailbox(),
 		readChannel:    make(chan *frame.Frame, maxPendingReads),
 		txStore:        &txStore{},
 		subList:        NewSubscriptionList(),
@@ -68,9 +68,11 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 // Write a frame to the connection without requiring
 // any acknowledgement.
 func (c *Conn) Send(f *frame.Frame) {
-	// Place the frame on the write channel. If the
-	// write channel is full, the caller will block.
-	c.writeChannel <- f
+	// Place the frame on the write channel. If the client
+	// has not kept up with the server, disconnect it.
+	if c.writeChannel.put(f) > maxPendingWrites {
+		c.rw.Close()
+	}
 }
 
 // Send and ERROR message to the client. The client
@@ -199,11 +201,10 @@ func (c *Conn) processLoop() {
 		}
 
 		select {
-		case f, ok := <-c.writeChannel:
+		case <-c.writeChannel.ready:
+			f, ok := c.writeChannel.get().(*frame.Frame)
 			if !ok {
-				// write channel has been closed, so
-				// exit go-routine (after cleaning up)
-				return
+				continue
 			}
 
 			// have a frame to the client with
@@ -261,11 +262,10 @@ func (c *Conn) processLoop() {
 				return
 			}
 
-		case sub, ok := <-c.subChannel:
+		case <-c.subChannel.ready:
+			sub, ok := c.subChannel.get().(*Subscription)
 			if !ok {
-				// subscription channel has been closed,
-				// so exit go-routine (after cleaning up)
-				return
+				continue
 			}
 
 			// have a frame to the client which requires
@@ -378,15 +378,7 @@ func (c *Conn) cleanupConn() {
 // frames or ERROR frames.
 func (c *Conn) discardWriteChannelFrames() {
 	for finished := false; !finished; {
-		select {
-		case _, ok := <-c.writeChannel:
-			if !ok {
-				finished = true
-			}
-
-		default:
-			finished = true
-		}
+		finished = c.writeChannel.get() == nil
 	}
 }
 
@@ -394,16 +386,11 @@ func (c *Conn) cleanupSubChannel() {
 	// Read the subscription channel until it is empty.
 	// Each frame should be requeued to the upper layer.
 	for finished := false; !finished; {
-		select {
-		case sub, ok := <-c.subChannel:
-			if !ok {
-				finished = true
-			} else {
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
-			}
-
-		default:
+		sub, ok := c.subChannel.get().(*Subscription)
+		if !ok {
 			finished = true
+		} else {
+			c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
 		}
 	}
 }
diff --git a/server/client/mailbox.go b/server/client/mailbox.go
new file mode 100644
index 0000000..c89d0af
--- /dev/null
+++ b/server/client/mailbox.go
@@ -0,0 +1,51 @@
+package client
+
+import (
+	"sync"
+)
+
+// A mailbox holds what the upper layer has for a client. Unlike a
+// channel it never makes the upper layer wait for a client, which
+// would hold up all other clients as well.
+type mailbox struct {
+	mutex sync.Mutex
+	items []interface{}
+	ready chan struct{} // receives a value while there are items
+}
+
+func newMailbox() *mailbox {
+	return &mailbox{ready: make(chan struct{}, 1)}
+}
+
+// Adds an item to the mailbox and returns the number of items in it.
+func (m *mailbox) put(item interface{}) int {
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+	m.items = append(m.items, item)
+	m.signal()
+	return len(m.items)
+}
+
+// Removes the oldest item from the mailbox and returns it,
+// or returns nil if the mailbox is empty.
+func (m *mailbox) get() interface{} {
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+	if len(m.items) == 0 {
+		return nil
+	}
+	item := m.items[0]
+	m.items[0] = nil
+	m.items = m.items[1:]
+	if len(m.items) > 0 {
+		m.signal()
+	}
+	return item
+}
+
+func (m *mailbox) signal() {
+	select {
+	case m.ready <- struct{}{}:
+	default:
+	}
+}
diff --git a/server/client/subscription.go b/server/client/subscription.go
index a9f1757..03ff1f2 100644
--- a/server/client/subscription.go
+++ b/server/client/subscription.go
@@ -62,7 +62,7 @@ func (s *Subscription) SendQueueFrame(f *frame.Frame) {
 
 	// let the connection deal with the subscription
 	// acknowledgement
-	s.conn.subChannel <- s
+	s.conn.subChannel.put(s)
 }
 
 // Send a message frame to the client, as part of this
@@ -73,7 +73,7 @@ func (s *Subscription) SendTopicFrame(f *frame.Frame) {
 
 	// topics are handled differently, they just go
 	// straight to the client without acknowledgement
-	s.conn.writeChannel <- f
+	s.conn.Send(f)
 }
 
 func (s *Subscription) setSubscriptionHeader(f *frame.Frame) {
-- 
2.43.0


From a7de53d16c07c9c8674c18a3f1e078e36be3be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:32 +0000
Subject: [PATCH 26/34] fix: a queue message on its way to a departing client
 was lost

The connection emptied its channel before the upper layer had handled the end
of its subscriptions. Messages are also put back in their original order.
---
 server/client/conn.go | 56 ++++++++++++++-----------------------------
 server/processor.go   | 27 ++++++++++++++-------
 2 files changed, 36 insertions(+), 47 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 4966a63..30d7164 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -336,12 +336,7 @@ func (c *Conn) cleanupConn() {
 	// clean up any pending transactions
 	c.txStore.Init()
 
-	c.discardWriteChannelFrames()
-
 	// Unsubscribe every subscription known to the upper layer.
-	// This should be done before cleaning up the subscription
-	// channel. If we requeued messages before doing this,
-	// we might end up getting them back again.
 	for _, sub := range c.subs {
 		// Note that we only really need to send a request if the
 		// subscription does not have a frame, but for simplicity
@@ -352,47 +347,32 @@ func (c *Conn) cleanupConn() {
 	// Clear out the map of subscriptions
 	c.subs = nil
 
-	// Every subscription requiring acknowledgement has a frame
-	// that needs to be requeued in the upper layer
-	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
-		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
-	}
-
-	// empty the subscription and write queue
-	c.discardWriteChannelFrames()
-	c.cleanupSubChannel()
-
-	// Tell the upper layer we are now disconnected
+	// Tell the upper layer we are now disconnected. It still sends
+	// frames to the subscriptions until it handles the requests
+	// above, so it takes back what the client has not received.
 	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
 
-	// empty the subscription and write queue one more time
-	c.discardWriteChannelFrames()
-	c.cleanupSubChannel()
-
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
 }
 
-// Discard anything on the write channel. These frames
-// do not get acknowledged, and are either topic MESSAGE
-// frames or ERROR frames.
-func (c *Conn) discardWriteChannelFrames() {
-	for finished := false; !finished; {
-		finished = c.writeChannel.get() == nil
+// Undelivered returns the queue frames that the client has not received
+// or not acknowledged, in the order in which to put them back at the head
+// of their queues: the latest first. Called by the upper layer once the
+// connection is disconnected and so does not use them anymore.
+func (c *Conn) Undelivered() []*frame.Frame {
+	var subs []*Subscription
+	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
+		subs = append(subs, sub)
 	}
-}
-
-func (c *Conn) cleanupSubChannel() {
-	// Read the subscription channel until it is empty.
-	// Each frame should be requeued to the upper layer.
-	for finished := false; !finished; {
-		sub, ok := c.subChannel.get().(*Subscription)
-		if !ok {
-			finished = true
-		} else {
-			c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
-		}
+	for sub, ok := c.subChannel.get().(*Subscription); ok; sub, ok = c.subChannel.get().(*Subscription) {
+		subs = append(subs, sub)
+	}
+	var frames []*frame.Frame
+	for i := len(subs) - 1; i >= 0; i-- {
+		frames = append(frames, subs[i].frame)
 	}
+	return frames
 }
 
 // Send a frame to the client, allocating necessary headers prior.
diff --git a/server/processor.go b/server/processor.go
index 3e62347..16afd72 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -81,16 +81,11 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 			}
 
 		case client.RequeueOp:
-			destination, ok := r.Frame.Header.Contains(frame.Destination)
-			if !ok {
-				// should not happen, already checked in lower layer
-				panic("missing destination")
-			}
+			proc.requeue(r.Frame)
 
-			// only requeue to queues, should never happen for topics
-			if isQueueDestination(destination) {
-				queue := proc.qm.Find(destination)
-				queue.Requeue(r.Frame)
+		case client.DisconnectedOp:
+			for _, f := range r.Conn.Undelivered() {
+				proc.requeue(f)
 			}
 		}
 	}
@@ -98,6 +93,20 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 	panic("not reached")
 }
 
+func (proc *requestProcessor) requeue(f *frame.Frame) {
+	destination, ok := f.Header.Contains(frame.Destination)
+	if !ok {
+		// should not happen, already checked in lower layer
+		panic("missing destination")
+	}
+
+	// only requeue to queues, should never happen for topics
+	if isQueueDestination(destination) {
+		queue := proc.qm.Find(destination)
+		queue.Requeue(f)
+	}
+}
+
 func isQueueDestination(dest string) bool {
 	return strings.HasPrefix(dest, QueuePrefix)
 }
-- 
2.43.0


From 9f897178056b3bff1a25392689759eb488ce2bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:34 +0000
Subject: [PATCH 27/34] fix: the goroutine reading from a client never ended

It waited for ever to pass on a frame after the connection had ended.
---
 server/client/conn.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 30d7164..45f3e88 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -30,6 +30,7 @@ type Conn struct {
 	subChannel     *mailbox                            // Receives subscription messages for client
 	writeChannel   *mailbox                            // Receives unacknowledged (topic) messages for client
 	readChannel    chan *frame.Frame                   // Receives frames from the client
+	done           chan struct{}                       // Closed when frames are no longer processed
 	stateFunc      func(c *Conn, f *frame.Frame) error // State processing function
 	writeTimeout   time.Duration                       // Heart beat write timeout
 	version        stomp.Version                       // Negotiated STOMP protocol version
@@ -55,6 +56,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		subChannel:     newMailbox(),
 		writeChannel:   newMailbox(),
 		readChannel:    make(chan *frame.Frame, maxPendingReads),
+		done:           make(chan struct{}),
 		txStore:        &txStore{},
 		subList:        NewSubscriptionList(),
 		subs:           make(map[string]*Subscription),
@@ -180,7 +182,12 @@ func (c *Conn) readLoop() {
 		// Add the frame to the read channel. Note that this will block
 		// if we are reading from the client quicker than the server
 		// can process frames.
-		c.readChannel <- f
+		select {
+		case c.readChannel <- f:
+		case <-c.done:
+			// the processing loop has ended
+			return
+		}
 	}
 }
 
@@ -333,6 +340,9 @@ func (c *Conn) processLoop() {
 // unsubscribing all subscriptions with the upper layer, and
 // re-queueing all unacknowledged messages to the upper layer.
 func (c *Conn) cleanupConn() {
+	// the read loop need not wait to pass on another frame
+	close(c.done)
+
 	// clean up any pending transactions
 	c.txStore.Init()
 
-- 
2.43.0


From df0bb004ef4164a057e6ea76cf5d86e18e4538eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:07 +0000
Subject: [PATCH 28/34] fix: a message on its way to an ended subscription came
 back too late

A new subscription made right after the UNSUBSCRIBE got later messages first.
---
 server/client/conn.go         | 45 +++++++++++++++++++----------------
 server/client/request.go      |  2 +-
 server/client/subscription.go |  8 +++++++
 server/processor.go           |  9 ++++++-
 4 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 45f3e88..12d16d7 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -316,11 +316,11 @@ func (c *Conn) processLoop() {
 					// subscription requires acknowledgement
 					c.subList.Add(sub)
 				}
-			} else {
-				// Subscription no longer exists, requeue
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
 			}
 
+			// If the subscription no longer exists, the upper layer
+			// requeues the frame when it handles the unsubscribe.
+
 		case _ = <-timerChannel:
 			// stop the heart-beat timer
 			if timer != nil {
@@ -351,40 +351,43 @@ func (c *Conn) cleanupConn() {
 		// Note that we only really need to send a request if the
 		// subscription does not have a frame, but for simplicity
 		// all subscriptions are unsubscribed from the upper layer.
-		c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+		c.unsubscribe(sub)
 	}
 
 	// Clear out the map of subscriptions
 	c.subs = nil
 
-	// Tell the upper layer we are now disconnected. It still sends
-	// frames to the subscriptions until it handles the requests
-	// above, so it takes back what the client has not received.
+	// Tell the upper layer we are now disconnected. It takes
+	// back what the client has not acknowledged.
 	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
 
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
 }
 
-// Undelivered returns the queue frames that the client has not received
-// or not acknowledged, in the order in which to put them back at the head
-// of their queues: the latest first. Called by the upper layer once the
+// Unacknowledged returns the queue frames that the client has not
+// acknowledged, in the order in which to put them back at the head of
+// their queues: the latest first. Called by the upper layer once the
 // connection is disconnected and so does not use them anymore.
-func (c *Conn) Undelivered() []*frame.Frame {
-	var subs []*Subscription
-	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
-		subs = append(subs, sub)
-	}
-	for sub, ok := c.subChannel.get().(*Subscription); ok; sub, ok = c.subChannel.get().(*Subscription) {
-		subs = append(subs, sub)
-	}
+func (c *Conn) Unacknowledged() []*frame.Frame {
 	var frames []*frame.Frame
-	for i := len(subs) - 1; i >= 0; i-- {
-		frames = append(frames, subs[i].frame)
+	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
+		frames = append([]*frame.Frame{sub.frame}, frames...)
 	}
 	return frames
 }
 
+// Tells the upper layer of the end of a subscription, and whether the
+// frame it last sent to the subscription is still on its way. A frame
+// that the client has received remains to be acknowledged.
+func (c *Conn) unsubscribe(sub *Subscription) {
+	r := Request{Op: UnsubscribeOp, Sub: sub}
+	if sub.subList != nil {
+		r.Frame = sub.frame
+	}
+	c.requestChannel <- r
+}
+
 // Send a frame to the client, allocating necessary headers prior.
 func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 	if f.Command == frame.MESSAGE || f.Command == frame.ACK {
@@ -654,7 +657,7 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	delete(c.subs, id)
 
 	// tell the upper layer of the unsubscribe
-	c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+	c.unsubscribe(sub)
 
 	// Send a receipt and remove the header
 	return c.sendReceiptImmediately(f)
diff --git a/server/client/request.go b/server/client/request.go
index 3b6aa40..e293f90 100644
--- a/server/client/request.go
+++ b/server/client/request.go
@@ -27,6 +27,6 @@ const (
 type Request struct {
 	Op    RequestOp     // opcode for request
 	Sub   *Subscription // SubscribeOp, UnsubscribeOp
-	Frame *frame.Frame  // EnqueueOp, RequeueOp
+	Frame *frame.Frame  // EnqueueOp, RequeueOp, and UnsubscribeOp if the client has received it
 	Conn  *Conn         // ConnectedOp, DisconnectedOp
 }
diff --git a/server/client/subscription.go b/server/client/subscription.go
index 03ff1f2..6cacf71 100644
--- a/server/client/subscription.go
+++ b/server/client/subscription.go
@@ -65,6 +65,14 @@ func (s *Subscription) SendQueueFrame(f *frame.Frame) {
 	s.conn.subChannel.put(s)
 }
 
+// TakeFrame removes the message allocated to the subscription and
+// returns it, or returns nil if there is none.
+func (s *Subscription) TakeFrame() *frame.Frame {
+	f := s.frame
+	s.frame = nil
+	return f
+}
+
 // Send a message frame to the client, as part of this
 // subscription. Called within the queue when a message
 // frame is available.
diff --git a/server/processor.go b/server/processor.go
index 16afd72..b9753c2 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -60,6 +60,13 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 				queue := proc.qm.Find(r.Sub.Destination())
 				// todo error handling
 				queue.Unsubscribe(r.Sub)
+
+				// take back a frame that has not reached the client
+				if r.Frame == nil {
+					if f := r.Sub.TakeFrame(); f != nil {
+						proc.requeue(f)
+					}
+				}
 			} else {
 				topic := proc.tm.Find(r.Sub.Destination())
 				topic.Unsubscribe(r.Sub)
@@ -84,7 +91,7 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 			proc.requeue(r.Frame)
 
 		case client.DisconnectedOp:
-			for _, f := range r.Conn.Undelivered() {
+			for _, f := range r.Conn.Unacknowledged() {
 				proc.requeue(f)
 			}
 		}
-- 
2.43.0


From 06f662166b9c3f503033da6422505e956e3b118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:08 +0000
Subject: [PATCH 29/34] fix: acknowledging a client-individual message
 acknowledged others too

---
 server/client/subscription_list.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 2e5942a..bbfbfb6 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -2,6 +2,8 @@ package client
 
 import (
 	"container/list"
+
+	"github.com/go-stomp/stomp/v3/frame"
 )
 
 // Maintains a list of subscriptions. Not thread-safe.
@@ -69,11 +71,18 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 // Finds all subscriptions in the subscription list that are acked by the
 // specified message-id (or ack) header. The subscription is removed from
 // the list and the callback function called for that subscription.
+// A message of a client-individual subscription is acknowledged alone.
 func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
+	individual := false
+	sl.ForEach(func(s *Subscription, isLast bool) {
+		if s.msgId == msgId && s.ack == frame.AckClientIndividual {
+			individual = true
+		}
+	})
 	for e := sl.subs.Front(); e != nil; {
 		next := e.Next()
 		sub := e.Value.(*Subscription)
-		if sub.IsAckedBy(msgId) {
+		if sub.IsAckedBy(msgId) && (!individual || sub.msgId == msgId) {
 			sl.subs.Remove(e)
 			sub.subList = nil
 			callback(sub)
-- 
2.43.0


From d48551f52ae20b268ae4ba0ed4567ea288fd97ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 30/34] fix: a silent client that does not read was never
 dropped

---
 server/client/conn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 12d16d7..6af8057 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -137,6 +137,13 @@ func (c *Conn) readLoop() {
 				c.log.Errorf("read failed: %v : %s", err, c.rw.RemoteAddr())
 			}
 
+			// The processing loop does not get to know of a silent
+			// client while it waits for that client to read, so the
+			// connection is closed here.
+			if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
+				c.rw.Close()
+			}
+
 			// Close the read channel so that the processing loop will
 			// know to terminate, if it has not already done so. This is
 			// the only channel that we close, because it is the only one
-- 
2.43.0


From d61b521679e64b83f2baffea54c7078db8ba7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 31/34] fix: acknowledging a message that is not outstanding
 acknowledged others

---
 server/client/subscription_list.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index bbfbfb6..a1831c9 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -71,18 +71,18 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 // Finds all subscriptions in the subscription list that are acked by the
 // specified message-id (or ack) header. The subscription is removed from
 // the list and the callback function called for that subscription.
-// A message of a client-individual subscription is acknowledged alone.
+// Only a message of a client subscription acknowledges earlier messages.
 func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
-	individual := false
+	cumulative := false
 	sl.ForEach(func(s *Subscription, isLast bool) {
-		if s.msgId == msgId && s.ack == frame.AckClientIndividual {
-			individual = true
+		if s.msgId == msgId && s.ack == frame.AckClient {
+			cumulative = true
 		}
 	})
 	for e := sl.subs.Front(); e != nil; {
 		next := e.Next()
 		sub := e.Value.(*Subscription)
-		if sub.IsAckedBy(msgId) && (!individual || sub.msgId == msgId) {
+		if sub.IsAckedBy(msgId) && (cumulative || sub.msgId == msgId) {
 			sl.subs.Remove(e)
 			sub.subList = nil
 			callback(sub)
-- 
2.43.0


From 412558c6f39831dbcabc6468f203d0b04a791188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 32/34] fix: topic messages had no ack header on acknowledging
 subscriptions

---
 server/client/conn.go         | 7 ++++++-
 server/client/subscription.go | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 6af8057..3caf605 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -406,7 +406,12 @@ func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 
 		// if there is any requirement by the client to acknowledge, set
 		// the ack header as per STOMP 1.2
-		if sub == nil || sub.ack == frame.AckAuto {
+		if sub == nil {
+			// a topic frame has an ack header if it is required
+			if _, ok := f.Header.Contains(frame.Ack); ok {
+				f.Header.Set(frame.Ack, messageId)
+			}
+		} else if sub.ack == frame.AckAuto {
 			f.Header.Del(frame.Ack)
 		} else {
 			f.Header.Set(frame.Ack, messageId)
diff --git a/server/client/subscription.go b/server/client/subscription.go
index 6cacf71..b310af8 100644
--- a/server/client/subscription.go
+++ b/server/client/subscription.go
@@ -79,6 +79,13 @@ func (s *Subscription) TakeFrame() *frame.Frame {
 func (s *Subscription) SendTopicFrame(f *frame.Frame) {
 	s.setSubscriptionHeader(f)
 
+	// the connection sets the value of the ack header
+	if s.ack == frame.AckAuto {
+		f.Header.Del(frame.Ack)
+	} else {
+		f.Header.Set(frame.Ack, "")
+	}
+
 	// topics are handled differently, they just go
 	// straight to the client without acknowledgement
 	s.conn.Send(f)
-- 
2.43.0


From c17c14f311c69b2577788e2adfdf41686b9b7102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:26 +0000
Subject: [PATCH 33/34] fix: the server must not touch frames it has handed on

The request processor owns a SEND frame once it has been passed to it, but
when its receipt could not be written the connection still read its header;
and unsubscribing read the subscription's place in its list, which the
request processor changes.
---
 server/client/conn.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 3caf605..4cc138a 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -389,9 +389,11 @@ func (c *Conn) Unacknowledged() []*frame.Frame {
 // that the client has received remains to be acknowledged.
 func (c *Conn) unsubscribe(sub *Subscription) {
 	r := Request{Op: UnsubscribeOp, Sub: sub}
-	if sub.subList != nil {
-		r.Frame = sub.frame
-	}
+	c.subList.ForEach(func(s *Subscription, isLast bool) {
+		if s == sub {
+			r.Frame = sub.frame
+		}
+	})
 	c.requestChannel <- r
 }
 
@@ -783,11 +785,12 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 	}
 
 	// not in a transaction
-	// change from SEND to MESSAGE; the frame belongs
-	// to the upper layer once it has been passed on
+	// change from SEND to MESSAGE; the header and the body
+	// belong to the upper layer once they have been passed on
 	receipt := takeReceipt(f)
-	f.Command = frame.MESSAGE
-	c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
+	message := &frame.Frame{Command: frame.MESSAGE, Header: f.Header, Body: f.Body}
+	f.Header = frame.NewHeader()
+	c.requestChannel <- Request{Op: EnqueueOp, Frame: message}
 	if receipt != nil {
 		return c.sendImmediately(receipt)
 	}
-- 
2.43.0


From ae5e0e8d7979fe7a44b297e1ea50780d6df219ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:42 +0000
Subject: [PATCH 34/34] fix: count a frame as sent when it has been written

A subscription to a temporary queue sends no frame, and a send that
times out or whose frame is lost with the connection has not sent one
either, but they were counted all the same.
---
 conn.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/conn.go b/conn.go
index 9471204..db7d33a 100644
--- a/conn.go
+++ b/conn.go
@@ -462,6 +462,9 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					sendError(channels, err)
 					return
 				}
+				if c.statsEnabled {
+					atomic.AddInt64(&c.writesSent, 1)
+				}
 			}
 		}
 	}
@@ -518,10 +521,6 @@ func (c *Conn) Disconnect() error {
 		return nil
 	}
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
-	}
-
 	ch := make(chan *frame.Frame, 1)
 	c.writeCh <- writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
@@ -580,10 +579,6 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		return err
 	}
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
-	}
-
 	if _, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
 		request := writeRequest{
@@ -679,10 +674,6 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		return ErrClosedUnexpectedly
 	}
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
-	}
-
 	if _, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
 		request := writeRequest{
@@ -788,10 +779,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 	}
 	go sub.readLoop(ch)
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
-	}
-
 	// TODO is this safe? There is no check if writeCh is actually open.
 	c.writeCh <- request
 	return sub, nil
-- 
2.43.0

