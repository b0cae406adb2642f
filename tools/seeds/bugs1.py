bug("c13-two-step-id", "C13", [("id.go", "	id := atomic.AddUint64(&_lastId, 1)\n	return strconv.FormatUint(id, 10)",
 "	atomic.AddUint64(&_lastId, 1)\n	return strconv.FormatUint(atomic.LoadUint64(&_lastId), 10)")],
 "two goroutines allocating an identifier at the same time, the second incrementing between the first's two steps",
 "Generated identifiers can be the same: receipts, transactions or subscriptions of concurrent calls are mixed up.",
 '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	ids := make([][]string, 8)
	for i := range ids {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 100000; n++ {
				f := frame.New(frame.SEND)
				stomp.SendOpt.Receipt(f)
				ids[i] = append(ids[i], f.Header.Get(frame.Receipt))
			}
		}(i)
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, l := range ids {
		for _, id := range l {
			if seen[id] {
				t.Fatalf("identifier %s was given out twice", id)
			}
			seen[id] = true
		}
	}
}''')

bug("c09-unlocked-send", "C09", [("conn.go", """	c.closeMutex.Lock()
	defer c.closeMutex.Unlock()
	if c.closed {
		return ErrAlreadyClosed
	}

	f, err := createSendFrame""", """	c.closeMutex.Lock()
	closed := c.closed
	c.closeMutex.Unlock()
	if closed {
		return ErrAlreadyClosed
	}

	f, err := createSendFrame""")],
 "MustDisconnect in one goroutine between a Send's check that the connection is open and its hand-over of the frame",
 "Send panics (send on a closed channel) when another goroutine ends the connection.",
 '''
func TestDemo(t *testing.T) {
	for n := 0; n < 300; n++ {
		c, p := demoConnect(t, "1.2", "")
		go func() {
			for range p.in {
			}
		}()
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for c.Send("/queue/a", "", []byte("x")) == nil {
				}
			}()
		}
		time.Sleep(time.Millisecond)
		c.MustDisconnect()
		wg.Wait()
	}
}''')

bug("c05-drop-when-busy", "C05", [("conn.go", """					if ch, ok := channels[id]; ok {
						ch <- f
					} else {
						c.log.Infof""", """					if ch, ok := channels[id]; ok {
						select {
						case ch <- f:
						case <-time.After(c.writeTimeout):
							c.log.Warningf("slow subscription: %s", id)
						}
					} else {
						c.log.Infof""")],
 "a subscriber that reads later than the client's write interval (or at once when no heart-beats were agreed) while its channel is full",
 "Messages are dropped for a subscription whose reader is slow.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "0,0")
	s, err := c.Subscribe("/queue/a", stomp.AckAuto, stomp.SubscribeOpt.Id("s"))
	if err != nil {
		t.Fatal(err)
	}
	p.want(frame.SUBSCRIBE, "")
	const n = 200
	go func() {
		for i := 0; i < n; i++ {
			p.send(strconv.Itoa(i), frame.MESSAGE, "subscription", "s", "destination", "/queue/a", "message-id", strconv.Itoa(i))
		}
	}()
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < n; i++ {
		select {
		case m := <-s.C:
			if string(m.Body) != strconv.Itoa(i) {
				t.Fatalf("message %q instead of %d", m.Body, i)
			}
		case <-time.After(3 * time.Second):
			t.Fatalf("message %d has not arrived", i)
		}
	}
}''')

bug("c10-ack-header-first", "C10", [("conn.go", """		if messageId, ok := msg.Header.Contains(frame.MessageId); ok {
			f.Header.Add(frame.MessageId, messageId)
		} else {""", """		if ack, ok := msg.Header.Contains(frame.Ack); ok {
			// servers that set an ack header expect it back
			f.Header.Add(frame.MessageId, ack)
		} else if messageId, ok := msg.Header.Contains(frame.MessageId); ok {
			f.Header.Add(frame.MessageId, messageId)
		} else {""")],
 "protocol 1.0 or 1.1 and a MESSAGE that has an ack entry different from its message-id",
 "An ACK or NACK in protocol 1.0 or 1.1 names the wrong message.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.1", "")
	s, _ := c.Subscribe("/queue/a", stomp.AckClient, stomp.SubscribeOpt.Id("s"))
	p.want(frame.SUBSCRIBE, "")
	p.send("x", frame.MESSAGE, "subscription", "s", "destination", "/queue/a", "message-id", "m1", "ack", "other")
	m := <-s.C
	if err := c.Ack(m); err != nil {
		t.Fatal(err)
	}
	f := p.want(frame.ACK, "")
	if f.Header.Get("message-id") != "m1" {
		t.Fatalf("ACK names %q", f.Header.Get("message-id"))
	}
}''')

bug("c11-transaction-added", "C11", [("transaction.go", """	f.Header.Set(frame.Transaction, tx.id)
	return tx.conn.sendFrame(f)""", """	f.Header.Add(frame.Transaction, tx.id)
	return tx.conn.sendFrame(f)""")],
 "a send inside a transaction with an option that already sets a transaction entry (a forwarded message's headers, say)",
 "The SEND frame belongs to another transaction than the one it was made on.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "")
	tx := c.Begin()
	p.want(frame.BEGIN, "")
	if err := tx.Send("/queue/a", "", []byte("x"), stomp.SendOpt.Header("transaction", "other")); err != nil {
		t.Fatal(err)
	}
	if f := p.want(frame.SEND, ""); f.Header.Get("transaction") != tx.Id() {
		t.Fatalf("sent in transaction %q instead of %q", f.Header.Get("transaction"), tx.Id())
	}
}''')

bug("c08-open-after-timeout", "C08", [("conn.go", """	if err == ErrDisconnectReceiptTimeout {
		c.closed = true
		_ = c.conn.Close()
	}
""", """	if err == ErrDisconnectReceiptTimeout {
		_ = c.conn.Close()
	}
""")],
 "a server that does not answer the DISCONNECT within the receipt timeout and an I/O goroutine slow to notice the closed transport",
 "After a Disconnect that timed out the connection still accepts requests, and a second Disconnect sends again.",
 '''
type demoStuck struct{ net.Conn }

func (s demoStuck) Close() error { return nil } // the transport lingers

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	p := demoNewPeer(t, b)
	go func() {
		p.recv(5 * time.Second)
		p.send("", frame.CONNECTED, "version", "1.2")
	}()
	c, err := stomp.Connect(demoStuck{a}, stomp.ConnOpt.Logger(quietLog{}), stomp.ConnOpt.DisconnectReceiptTimeout(50*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Disconnect(); err == nil {
		t.Fatal("Disconnect succeeded without a receipt")
	}
	if err := c.Send("/queue/a", "", []byte("x")); err == nil {
		t.Fatal("a frame was sent after Disconnect")
	}
}''')

bug("c12-heart-beat-not-counted", "C12", [("conn.go", """			// stop the read timer
			if readTimer != nil {
				readTimer.Stop()
				readTimer = nil
				readTimeoutChannel = nil
			}

			if !ok {""", """			// stop the read timer
			if readTimer != nil && (f == nil || f.Command != frame.RECEIPT) {
				readTimer.Stop()
				readTimer = nil
				readTimeoutChannel = nil
			}

			if !ok {""")],
 "a server that, within the agreed interval, sends nothing but receipts",
 "The client drops a server that keeps its heart-beat promise by sending receipts.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "200,0", stomp.ConnOpt.HeartBeat(0, 200*time.Millisecond), stomp.ConnOpt.HeartBeatError(100*time.Millisecond))
	for i := 0; i < 10; i++ {
		done := make(chan error)
		go func() { done <- c.Send("/queue/a", "", []byte("x"), stomp.SendOpt.Receipt) }()
		f := p.recv(3 * time.Second)
		if f == nil {
			t.Fatal("the client has given up")
		}
		time.Sleep(60 * time.Millisecond)
		p.send("", frame.RECEIPT, "receipt-id", f.Header.Get("receipt"))
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
}''')

bug("c07-heart-beat-failure-silent", "C07", [("conn.go", """			err := writer.Write(nil)
			if err != nil {
				sendError(channels, err)
				return
			}""", """			err := writer.Write(nil)
			if err != nil {
				c.log.Errorf("heart-beat failed: %v", err)
				return
			}""")],
 "the transport failing at the moment a heart-beat is written, with subscriptions or receipts outstanding",
 "Subscriptions and calls waiting for a receipt are never told that the connection failed.",
 '''
type demoFail struct {
	net.Conn
	fail atomic.Bool
}

func (f *demoFail) Write(b []byte) (int, error) {
	if f.fail.Load() {
		return 0, errors.New("broken")
	}
	return f.Conn.Write(b)
}

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	p := demoNewPeer(t, b)
	go func() {
		p.recv(5 * time.Second)
		p.send("", frame.CONNECTED, "version", "1.2", "heart-beat", "0,100")
	}()
	tr := &demoFail{Conn: a}
	c, err := stomp.Connect(tr, stomp.ConnOpt.Logger(quietLog{}), stomp.ConnOpt.HeartBeat(100*time.Millisecond, 0), stomp.ConnOpt.HeartBeatError(time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	s, err := c.Subscribe("/queue/a", stomp.AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	p.want(frame.SUBSCRIBE, "")
	tr.fail.Store(true)
	select {
	case m, ok := <-s.C:
		if ok && m.Err == nil {
			t.Fatal("a message")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the subscription was not told")
	}
}''')

bug("s03-requeue-at-tail", "S03", [("server/queue/queue.go", "		return q.qstore.Requeue(q.destination, f)", "		return q.qstore.Enqueue(q.destination, f)")],
 "a message that comes back unacknowledged while later messages wait in its queue",
 "A returned message is delivered after messages sent later.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a, b := demoLogin(t, addr), demoLogin(t, addr)
	a.send("", frame.SUBSCRIBE, "id", "s", "destination", "/queue/q", "ack", "client")
	a.send("1", frame.SEND, "destination", "/queue/q")
	m := a.want(frame.MESSAGE, "1")
	a.send("2", frame.SEND, "destination", "/queue/q")
	a.send("", frame.UNSUBSCRIBE, "id", "s")
	a.send("", frame.NACK, "id", m.Header.Get("ack"))
	a.sync("r")
	b.send("", frame.SUBSCRIBE, "id", "s", "destination", "/queue/q")
	b.want(frame.MESSAGE, "1")
	b.want(frame.MESSAGE, "2")
}''')

bug("s15-frame-cleared-late", "S15", [("server/client/conn.go", """					sub.frame = nil
					c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
				} else {""", """					c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
					sub.frame = nil
				} else {""")],
 "a waiting message that the request processor gives to the subscription before the connection has cleared the previous one",
 "The connection and the request processor write the subscription at the same time: the next message is lost or the server panics.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	for i := 0; i < 3000; i++ {
		a.send("x", frame.SEND, "destination", "/queue/q")
	}
	a.sync("1")
	a.send("", frame.SUBSCRIBE, "id", "s", "destination", "/queue/q")
	for i := 0; i < 3000; i++ {
		a.want(frame.MESSAGE, "x")
	}
}''', race=True)

bug("s09-keep-message-id", "S09", [("server/client/conn.go", "		f.Header.Set(frame.MessageId, messageId)\n", "		if _, ok := f.Header.Contains(frame.MessageId); !ok {\n			// keep the message-id of a message that is delivered again\n			f.Header.Add(frame.MessageId, messageId)\n		}\n")],
 "a sender that sets a message-id entry itself, or a message delivered again on another connection",
 "A sender can forge the message-id, and message ids repeat on a connection.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	a.send("", frame.SUBSCRIBE, "id", "s", "destination", "/queue/q")
	a.send("1", frame.SEND, "destination", "/queue/q", "message-id", "77")
	a.send("2", frame.SEND, "destination", "/queue/q", "message-id", "77")
	x, y := a.want(frame.MESSAGE, "1"), a.want(frame.MESSAGE, "2")
	if x.Header.Get("message-id") == y.Header.Get("message-id") {
		t.Fatal("two messages have the same message-id")
	}
}''')

bug("s10-read-limit-not-raised", "S10", [("server/client/conn.go", """				if cx > 0 && cx < min {
					cx = min
				}

				readTimeout""", """				if cx < 0 {
					cx = min
				}

				readTimeout""")],
 "a client that offers a shorter interval than the server's minimum and then sends at the interval the server announced",
 "The server drops clients that send as often as it has asked them to.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{HeartBeat: 500 * time.Millisecond})
	a := demoLogin(t, addr, "heart-beat", "10,0")
	for i := 0; i < 4; i++ {
		time.Sleep(450 * time.Millisecond)
		a.sync(strconv.Itoa(i))
	}
}''')

bug("s12-backoff-never-reset", "S12", [("server/processor.go", "		timeout = 0\n		// TODO", "		// TODO")],
 "temporary accept errors, some accepted connections, and temporary accept errors again",
 "The pause after a temporary error does not start over once accepting has worked, so a single later error delays connections by up to five seconds.",
 '''
type demoTemp struct{}

func (demoTemp) Error() string   { return "temporary" }
func (demoTemp) Timeout() bool   { return false }
func (demoTemp) Temporary() bool { return true }

type demoListener struct {
	net.Listener
	n int
}

func (l *demoListener) Accept() (net.Conn, error) {
	l.n++
	if l.n <= 9 || l.n == 11 {
		return nil, demoTemp{}
	}
	return l.Listener.Accept()
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	s := &server.Server{Log: quietLog{}}
	go s.Serve(&demoListener{Listener: l})
	demoLogin(t, l.Addr().String())
	begin := time.Now()
	p := demoDial(t, l.Addr().String())
	p.send("", frame.CONNECT, "accept-version", "1.2", "host", "h")
	if f := p.recv(time.Second); f == nil {
		t.Fatalf("not served after %v", time.Since(begin))
	}
}''')

bug("s01-no-login-no-check", "S01", [("server/client/conn.go", "	login, _ := f.Header.Contains(frame.Login)\n	passcode, _ := f.Header.Contains(frame.Passcode)\n	if !c.config.Authenticate(login, passcode) {",
 "	login, ok := f.Header.Contains(frame.Login)\n	passcode, _ := f.Header.Contains(frame.Passcode)\n	if ok && !c.config.Authenticate(login, passcode) {")],
 "a CONNECT frame without login entry to a server with an authenticator",
 "A client that gives no login is connected without being authenticated.",
 '''
type demoAuth struct{}

func (demoAuth) Authenticate(login, passcode string) bool { return login == "l" && passcode == "p" }

func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{Authenticator: demoAuth{}})
	for _, h := range [][]string{{}, {"login", "x"}, {"passcode", "p"}, {"login", "l", "passcode", "x"}} {
		p := demoDial(t, addr)
		p.send("", frame.CONNECT, append([]string{"accept-version", "1.2"}, h...)...)
		if f := p.recv(5 * time.Second); f == nil || f.Command != frame.ERROR {
			t.Fatalf("%v: %v", h, f)
		}
	}
	demoLogin(t, addr, "login", "l", "passcode", "p")
}''')

bug("s06-commit-keeps-rest", "S06", [("server/client/tx_store.go", "	if _, ok := txs.transactions[tx]; ok {\n		return txAlreadyInProgress\n	}\n\n	txs.transactions[tx] = list.New()", "	if l, ok := txs.transactions[tx]; ok && l.Len() == 0 {\n		return txAlreadyInProgress\n	}\n\n	txs.transactions[tx] = list.New()")],
 "a second BEGIN of a transaction that already has frames",
 "Beginning a transaction twice is not refused but silently discards what was done in it.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	a.send("", frame.BEGIN, "transaction", "t")
	a.send("1", frame.SEND, "destination", "/queue/q", "transaction", "t")
	a.send("", frame.BEGIN, "transaction", "t", "receipt", "r")
	a.want(frame.ERROR, "")
}''')

bug("s05-slash-topic", "S05", [("server/topic/manager.go", "	t, ok := tm.topics[destination]\n	if !ok {\n		t = newTopic(destination)", "	destination = strings.TrimRight(destination, \"/\")\n	t, ok := tm.topics[destination]\n	if !ok {\n		t = newTopic(destination)"),
 ("server/topic/manager.go", "package topic\n", "package topic\n\nimport \"strings\"\n")],
 "two topics whose names differ only in a trailing slash",
 "Subscribers of one topic get the messages of another.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	a := demoLogin(t, addr)
	a.send("", frame.SUBSCRIBE, "id", "a", "destination", "/topic/t")
	a.send("1", frame.SEND, "destination", "/topic/t/")
	a.send("2", frame.SEND, "destination", "/topic/t")
	a.want(frame.MESSAGE, "2")
}''')

bug("f01-carriage-return", "F01", [("frame/encode.go", '''		"\\\\", "\\\\\\\\",
		"\\r", "\\\\r",
''', '''		"\\\\", "\\\\\\\\",
''')],
 "a header value that ends in a carriage return",
 "Carriage returns at the end of header values are lost.",
 '''
func TestDemo(t *testing.T) {
	for _, v := range []string{"a", "a\\r", "\\r", "a\\rb", "a\\r\\n", "a:b", "\\\\"} {
		var b bytes.Buffer
		if err := frame.NewWriter(&b).Write(frame.New(frame.SEND, "k", v)); err != nil {
			t.Fatal(err)
		}
		f, err := frame.NewReader(&b).Read()
		if err != nil {
			t.Fatal(err)
		}
		if f.Header.Get("k") != v {
			t.Fatalf("%q became %q", v, f.Header.Get("k"))
		}
	}
}''')

bug("f04-flush-error", "F04", [("frame/writer.go", "	err = w.writer.Flush()\n	if err != nil {\n		return err\n	}\n\n	return nil", "	if w.writer.Buffered() > 0 {\n		defer w.writer.Flush()\n	}\n\n	return nil")],
 "a transport that fails only when the buffered frame is flushed",
 "Writing a frame reports success though the transport took none of it.",
 '''
type demoBroken struct{}

func (demoBroken) Write(p []byte) (int, error) { return 0, errors.New("broken") }

func TestDemo(t *testing.T) {
	if err := frame.NewWriter(demoBroken{}).Write(frame.New(frame.SEND, "k", "v")); err == nil {
		t.Fatal("writing to a broken transport succeeded")
	}
}''')

bug("f02-short-read", "F02", [("frame/reader.go", """		for bytesRead := 0; bytesRead < contentLength; {
			n, err := r.reader.Read(f.Body[bytesRead:contentLength])
			if err != nil {
				return nil, err
			}
			bytesRead += n
		}
""", """		for bytesRead := 0; bytesRead < contentLength; {
			n, err := r.reader.Read(f.Body[bytesRead:contentLength])
			if err != nil {
				return nil, err
			}
			if n == 0 {
				return nil, io.ErrNoProgress
			}
			bytesRead += n
		}
""")],
 "a transport whose Read returns no bytes and no error once, in the middle of a body with content-length",
 "Reading a frame fails depending on how its bytes arrive.",
 '''
type demoSlow struct {
	data []byte
	n    int
}

func (s *demoSlow) Read(p []byte) (int, error) {
	s.n++
	if s.n%2 == 0 {
		return 0, nil
	}
	n := copy(p[:1], s.data)
	s.data = s.data[n:]
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func TestDemo(t *testing.T) {
	f, err := frame.NewReader(&demoSlow{data: []byte("SEND\\ncontent-length:5\\n\\nhello\\x00")}).Read()
	if err != nil || string(f.Body) != "hello" {
		t.Fatal(f, err)
	}
}''')
