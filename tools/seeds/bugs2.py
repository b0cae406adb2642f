bug("s02-unsubscribe-by-id", "S02", [("server/client/subscription_list.go", "		if e.Value.(*Subscription) == s {\n			sl.subs.Remove(e)\n			s.subList = nil\n",
 "		if sub := e.Value.(*Subscription); sub.id == s.id {\n			sl.subs.Remove(e)\n			sub.subList = nil\n")],
 "two connections that wait for the same queue with the same subscription id, the later of which unsubscribes",
 "The other connection loses its place in the queue and messages go to the subscription that has ended.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a, b := demoLogin(t, addr), demoLogin(t, addr)
	a.send("", frame.SUBSCRIBE, "id", "1", "destination", "/queue/a")
	a.sync("a")
	b.send("", frame.SUBSCRIBE, "id", "1", "destination", "/queue/a")
	b.sync("b")
	b.send("", frame.UNSUBSCRIBE, "id", "1")
	b.sync("c")
	b.send("x", frame.SEND, "destination", "/queue/a")
	a.want(frame.MESSAGE, "x")
}''')

bug("s03-ready-before-requeue", "S03", [("server/client/conn.go", """			// send frame back to upper layer for requeue
			c.requestChannel <- Request{Op: RequeueOp, Frame: s.frame}

			// remove frame from the subscription, it has been requeued
			s.frame = nil
""", """			// remove frame from the subscription, it will be requeued
			f := s.frame
			s.frame = nil
			defer func() { c.requestChannel <- Request{Op: RequeueOp, Frame: f} }()
""")],
 "a NACK of a message behind which others wait in the queue",
 "The rejected message comes back after the ones that were behind it.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	a.send("", frame.SUBSCRIBE, "id", "1", "destination", "/queue/a", "ack", "client")
	a.send("1", frame.SEND, "destination", "/queue/a")
	a.send("2", frame.SEND, "destination", "/queue/a")
	f := a.want(frame.MESSAGE, "1")
	a.sync("s")
	a.send("", frame.NACK, "id", f.Header.Get("ack"))
	a.want(frame.MESSAGE, "1")
}''')

bug("s07-ack-in-transaction", "S07", [("server/client/conn.go", """		// handle any subscriptions that are acknowledged by this msg
		c.subList.Ack(""", """		if f.Header.Get(frame.Receipt) != "" {
			// once the acknowledgement has been handled
			defer c.sendReceiptImmediately(frame.New(frame.ACK, frame.Receipt, f.Header.Get(frame.Receipt)))
		}
		// handle any subscriptions that are acknowledged by this msg
		c.subList.Ack(""")],
 "an ACK with a receipt",
 "The receipt is sent twice.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	a.send("", frame.SUBSCRIBE, "id", "1", "destination", "/queue/a", "ack", "client")
	a.send("1", frame.SEND, "destination", "/queue/a")
	f := a.want(frame.MESSAGE, "1")
	a.send("", frame.ACK, "id", f.Header.Get("ack"), "receipt", "r")
	a.want(frame.RECEIPT, "")
	if f := a.recv(200 * time.Millisecond); f != nil {
		t.Fatalf("also %s %v", f.Command, f.Header)
	}
}''')

bug("s08-length-64-bits", "S08", [("frame/header.go", "	n, err := strconv.ParseUint(text, 10, 32)", "	n, err := strconv.ParseUint(text, 10, 64)")],
 "a frame whose content-length does not fit a signed integer",
 "The server panics.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a, b := demoLogin(t, addr), demoLogin(t, addr)
	b.send("", frame.SEND, "destination", "/queue/a", "content-length", "9223372036854775808")
	time.Sleep(100 * time.Millisecond)
	a.sync("s")
}''')

bug("s11-unsubscribe-unknown", "S11", [("server/client/conn.go", "	if !ok {\n		return subscriptionNotFound\n	}", "	if !ok {\n		// not subscribed anymore, as the client wants it to be\n		return c.sendReceiptImmediately(f)\n	}"),
  ],
 "an UNSUBSCRIBE of an id that is not subscribed",
 "It is accepted and answered by a receipt instead of an ERROR.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	a.send("", frame.SUBSCRIBE, "id", "1", "destination", "/queue/a")
	a.send("", frame.UNSUBSCRIBE, "id", "1")
	a.send("", frame.UNSUBSCRIBE, "id", "1", "receipt", "r")
	a.want(frame.ERROR, "")
}''')

bug("s13-trailing-slash", "S13", [("server/queue/manager.go", "	q, ok := qm.queues[destination]\n	if !ok {", "	destination = strings.TrimRight(destination, \"/\")\n	q, ok := qm.queues[destination]\n	if !ok {"),
 ("server/queue/manager.go", "package queue\n", "package queue\n\nimport \"strings\"\n")],
 "a queue whose name ends in a slash, with a message that has to wait for a subscription",
 "Messages are stored under one name and looked for under another.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	a.send("1", frame.SEND, "destination", "/queue/a/")
	a.send("", frame.SUBSCRIBE, "id", "1", "destination", "/queue/a/")
	a.want(frame.MESSAGE, "1")
}''')

bug("s14-heart-beat-write-failure", "S14", [("server/client/conn.go", """			err := c.writer.Write(nil)
			if err != nil {
				return
			}
""", """			err := c.writer.Write(nil)
			if err != nil {
				c.log.Warningf("heart-beat not sent: %v", err)
			}
""")],
 "a connection on which writing fails while reading does not, noticed by a heart-beat",
 "The connection is kept, with its goroutines and the messages it holds.",
 '''
type halfConn struct {
	net.Conn
	broken chan struct{}
	closed chan struct{}
	once   sync.Once
}

func (c *halfConn) Write(b []byte) (int, error) {
	select {
	case <-c.broken:
		return 0, errors.New("broken pipe")
	default:
		return c.Conn.Write(b)
	}
}

func (c *halfConn) Close() error {
	c.once.Do(func() { close(c.closed) })
	return c.Conn.Close()
}

type oneListener struct{ c chan net.Conn }

func (l oneListener) Accept() (net.Conn, error) { return <-l.c, nil }
func (l oneListener) Close() error              { return nil }
func (l oneListener) Addr() net.Addr            { return &net.TCPAddr{} }

func TestDemo(t *testing.T) {
	x, y := net.Pipe()
	h := &halfConn{Conn: y, broken: make(chan struct{}), closed: make(chan struct{})}
	l := oneListener{make(chan net.Conn, 1)}
	l.c <- h
	s := &server.Server{Log: quietLog{}, HeartBeat: 50 * time.Millisecond}
	go s.Serve(l)
	p := demoNewPeer(t, x)
	p.send("", frame.CONNECT, "accept-version", "1.2", "host", "h", "heart-beat", "0,50")
	p.want(frame.CONNECTED, "")
	close(h.broken)
	select {
	case <-h.closed:
	case <-time.After(2 * time.Second):
		t.Fatal("the connection is kept")
	}
}''')

bug("e01-heart-beat-swapped", "E01", [("server/client/conn.go", 'fmt.Sprintf("%d,%d", cy, cx))', 'fmt.Sprintf("%d,%d", cx, cy))')],
 "a client that offers and asks for different heart-beat intervals",
 "Client and server disagree on who sends how often: connections are dropped although both keep their promises, or never.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{HeartBeat: 100 * time.Millisecond})
	c, err := stomp.Dial("tcp", addr, stomp.ConnOpt.HeartBeat(100*time.Millisecond, 0), stomp.ConnOpt.HeartBeatError(10*time.Millisecond), stomp.ConnOpt.Logger(quietLog{}))
	if err != nil {
		t.Fatal(err)
	}
	sub, err := c.Subscribe("/queue/a", stomp.AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	select {
	case m := <-sub.C:
		t.Fatal(m.Err)
	case <-time.After(time.Second):
	}
}''')

bug("c01-header-replaces", "C01", [("conn_options.go", "				c.options.Header.Add(key, value)", "				c.options.Header.Set(key, value)")],
 "two custom headers of the same name",
 "Only the second of them is sent.",
 '''
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	p := demoNewPeer(t, b)
	go stomp.Connect(a, stomp.ConnOpt.Header("x", "1"), stomp.ConnOpt.Header("x", "2"))
	f := p.want(frame.CONNECT, "")
	if v := f.Header.GetAll("x"); len(v) != 2 || v[0] != "1" || v[1] != "2" {
		t.Fatalf("%q", v)
	}
}''')

bug("c02-bad-heart-beat-ignored", "C02", [("conn.go", """		readTimeout, writeTimeout, err := frame.ParseHeartBeat(heartBeat)
		if err != nil {
			return nil, Error{
				Message: err.Error(),
				Frame:   response,
			}
		}
""", """		readTimeout, writeTimeout, err := frame.ParseHeartBeat(heartBeat)
		if err != nil {
			c.log.Warningf("no heart-beats: %v", err)
		}
""")],
 "a CONNECTED frame with a malformed heart-beat entry",
 "Connecting succeeds.",
 '''
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	p := demoNewPeer(t, b)
	go func() {
		p.recv(time.Second)
		p.send("", frame.CONNECTED, "version", "1.2", "heart-beat", "a,b")
	}()
	if _, err := stomp.Connect(a, stomp.ConnOpt.Logger(quietLog{})); err == nil {
		t.Fatal("connected")
	}
}''')

bug("c03-sent-after-timeout", "C03", [("conn.go", "	case <-timer.C:\n		return ErrMsgSendTimeout\n", """	case <-timer.C:
		go func() {
			// the message can still be sent later
			defer func() { recover() }()
			ch <- request
		}()
		return ErrMsgSendTimeout
""")],
 "a server that does not read until after a send has timed out",
 "A send that failed with the timeout error still contributes its frame, behind later ones.",
 '''
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	t.Cleanup(func() { b.Close() })
	r, w := frame.NewReader(b), frame.NewWriter(b)
	go func() {
		r.Read()
		w.Write(frame.New(frame.CONNECTED, "version", "1.2"))
	}()
	c, err := stomp.Connect(a, stomp.ConnOpt.Logger(quietLog{}), stomp.ConnOpt.MsgSendTimeout(50*time.Millisecond), stomp.ConnOpt.WriteChannelCapacity(1))
	if err != nil {
		t.Fatal(err)
	}
	sent := map[string]bool{}
	for _, s := range []string{"1", "2", "3", "4", "5"} {
		sent[s] = c.Send("/queue/a", "", []byte(s)) == nil
	}
	for {
		b.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
		f, err := r.Read()
		if err != nil {
			return
		}
		if f != nil && !sent[string(f.Body)] {
			t.Fatalf("%s was sent", f.Body)
		}
	}
}''')

bug("c04-receipt-is-transaction", "C04", [("transaction.go", """	f := frame.New(frame.COMMIT, frame.Transaction, tx.id)

	if receipt {
		id := allocateId()
		f.Header.Set(frame.Receipt, id)""", """	f := frame.New(frame.COMMIT, frame.Transaction, tx.id)

	if receipt {
		f.Header.Set(frame.Receipt, tx.id)""")],
 "a commit that is tried again after its receipt did not come in time, and the first one's receipt then",
 "The second attempt succeeds on the receipt of the first.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "0,100", stomp.ConnOpt.HeartBeat(100*time.Millisecond, 0), stomp.ConnOpt.HeartBeatError(time.Millisecond))
	tx := c.Begin()
	p.want(frame.BEGIN, "")
	if tx.CommitWithReceipt() == nil {
		t.Fatal("committed without a receipt")
	}
	first := p.want(frame.COMMIT, "").Header.Get("receipt")
	done := make(chan error)
	go func() { done <- tx.CommitWithReceipt() }()
	p.want(frame.COMMIT, "")
	p.send("", frame.RECEIPT, "receipt-id", first)
	if <-done == nil {
		t.Fatal("committed by the receipt of another request")
	}
}''')

bug("c06-unsubscribe-twice", "C06", [("subscription.go", "	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {\n		return ErrCompletedSubscription\n	}\n",
 "	if !s.Active() {\n		return ErrCompletedSubscription\n	}\n	atomic.StoreInt32(&s.state, subStateClosing)\n")],
 "two goroutines that unsubscribe the same subscription at the same time",
 "Both send UNSUBSCRIBE; the server answers the second by an ERROR and the connection ends.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "")
	for i := 0; i < 20000; i++ {
		sub, err := c.Subscribe("/queue/a", stomp.AckAuto)
		if err != nil {
			t.Fatal(err)
		}
		p.want(frame.SUBSCRIBE, "")
		var wg sync.WaitGroup
		var ok int32
		start := make(chan bool)
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if sub.Unsubscribe() == nil {
					atomic.AddInt32(&ok, 1)
				}
			}()
		}
		close(start)
		p.want(frame.UNSUBSCRIBE, "")
		p.send("", frame.RECEIPT, "receipt-id", sub.Id())
		wg.Wait()
		if ok != 1 {
			t.Fatalf("%d of the calls unsubscribed", ok)
		}
		if len(p.in) > 0 {
			t.Fatal("another frame")
		}
	}
}''')

bug("c06-error-while-unsubscribing", "C06", [("subscription.go", """			state := atomic.LoadInt32(&s.state)
			if state == subStateActive || state == subStateClosing {
				message, _ :=""", """			state := atomic.LoadInt32(&s.state)
			if state == subStateActive {
				message, _ :=""")],
 "an ERROR frame that arrives while an unsubscribe waits for its confirmation",
 "The call waits for its timeout, or for ever, and the channel is not closed.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "", stomp.ConnOpt.UnsubscribeReceiptTimeout(0))
	sub, err := c.Subscribe("/queue/a", stomp.AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	p.want(frame.SUBSCRIBE, "")
	done := make(chan error)
	go func() { done <- sub.Unsubscribe() }()
	p.want(frame.UNSUBSCRIBE, "")
	p.send("", frame.ERROR, "message", "no")
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("still waiting")
	}
}''')

bug("c14-read-to-capacity", "C14", [("message.go", "	n := copy(p, msg.Body)\n", "	n := copy(p[:cap(p)], msg.Body)\n")],
 "reading into a slice whose array continues behind it",
 "Memory behind the buffer is overwritten and more bytes are counted than fit.",
 '''
func TestDemo(t *testing.T) {
	m := &stomp.Message{Body: []byte("abcdef")}
	b := []byte("123456")
	n, err := m.Read(b[:2])
	if n != 2 || err != nil || string(b) != "ab3456" {
		t.Fatalf("%d %v %s", n, err, b)
	}
}''')

bug("f03-length-with-sign", "F03", [("frame/header.go", "	n, err := strconv.ParseUint(text, 10, 32)", "	n, err := strconv.Atoi(text)")],
 "a frame with a negative content-length",
 "The reader panics.",
 '''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	f, err := frame.NewReader(strings.NewReader("SEND\\ncontent-length:-1\\n\\nx\\x00")).Read()
	if err == nil {
		t.Fatal(f)
	}
}''')

bug("f05-clone-shares-body", "F05", [("frame/frame.go", "		fc.Body = make([]byte, len(f.Body))\n		copy(fc.Body, f.Body)\n", "		// never written to, only appended to\n		fc.Body = f.Body[:len(f.Body):len(f.Body)]\n")],
 "a change of the bytes of a cloned frame's body, or of the original's",
 "The clone and the original share their body.",
 '''
func TestDemo(t *testing.T) {
	f := frame.New(frame.SEND)
	f.Body = []byte("abc")
	c := f.Clone()
	f.Body[1] = 'x'
	if string(c.Body) != "abc" {
		t.Fatal("the clone has changed")
	}
}''')

bug("f06-line-end", "F06", [("frame/heartbeat.go", '	if !heartBeatRegexp.MatchString(heartBeat) {', '	heartBeat = strings.TrimSpace(heartBeat)\n	if !heartBeatRegexp.MatchString(heartBeat) {')],
 "a heart-beat value with white space around it",
 "It is accepted.",
 '''
func TestDemo(t *testing.T) {
	for _, s := range []string{" 1,2", "1,2\\t"} {
		if _, _, err := frame.ParseHeartBeat(s); err == nil {
			t.Fatalf("%q accepted", s)
		}
	}
}''')

bug("s09-subscription-added", "S09", [("server/client/subscription.go", "	f.Header.Set(frame.Subscription, s.id)", "	f.Header.Add(frame.Subscription, s.id)")],
 "a SEND with a subscription entry of its own, or a message delivered again to another subscription",
 "The subscription a message is for is not the first of its subscription entries.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	a.send("", frame.SUBSCRIBE, "id", "1", "destination", "/queue/a")
	a.send("x", frame.SEND, "destination", "/queue/a", "subscription", "forged")
	if f := a.want(frame.MESSAGE, "x"); f.Header.Get("subscription") != "1" {
		t.Fatal(f.Header)
	}
}''')

bug("s09-message-id-wraps", "S09", [("server/client/conn.go", "		c.lastMsgId++\n", "		c.lastMsgId = c.lastMsgId%250 + 1\n")],
 "more than 250 messages delivered on one connection",
 "Message ids repeat on a connection.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	a.send("", frame.SUBSCRIBE, "id", "1", "destination", "/queue/a")
	seen := map[string]bool{}
	for i := 0; i < 300; i++ {
		a.send("x", frame.SEND, "destination", "/queue/a")
		f := a.want(frame.MESSAGE, "x")
		if seen[f.Header.Get("message-id")] {
			t.Fatal(f.Header)
		}
		seen[f.Header.Get("message-id")] = true
	}
}''')

bug("s02-queue-limit", "S02", [("server/queue/memory_queue.go", "	l.PushBack(frame)\n", "	l.PushBack(frame)\n	if l.Len() > 500 {\n		l.Remove(l.Front())\n	}\n")],
 "more than 500 messages waiting in a queue",
 "The oldest ones are lost.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	for i := 0; i < 1000; i++ {
		a.send(fmt.Sprint(i), frame.SEND, "destination", "/queue/a")
	}
	a.sync("s")
	a.send("", frame.SUBSCRIBE, "id", "1", "destination", "/queue/a")
	for i := 0; i < 1000; i++ {
		a.want(frame.MESSAGE, fmt.Sprint(i))
	}
}''')
