bug("c16-shared-header", "C16", [("conn_options.go", """		return func(c *Conn) error {
			if c.options.Header == nil {
				c.options.Header = frame.NewHeader(key, value)
			} else {""", """		first := frame.NewHeader(key, value)
		return func(c *Conn) error {
			if c.options.Header == nil {
				c.options.Header = first
			} else {""")],
 "the same options, two custom headers among them, used for two connections",
 "The second connection repeats the second header.",
 '''
func TestDemo(t *testing.T) {
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Header("x", "1"), stomp.ConnOpt.Header("y", "2")}
	for i := 0; i < 3; i++ {
		a, b := net.Pipe()
		p := demoNewPeer(t, b)
		go stomp.Connect(a, opts...)
		f := p.want(frame.CONNECT, "")
		if v := f.Header.GetAll("y"); len(v) != 1 {
			t.Fatalf("%d: %q", i, v)
		}
	}
}''')

bug("c17-busy-reader", "C17", [("conn.go", """		if c.statsEnabled {
			atomic.AddInt64(&c.readsReceived, 1)
		}
		c.readCh <- f""", """		select {
		case c.readCh <- f:
			if c.statsEnabled {
				atomic.AddInt64(&c.readsReceived, 1)
			}
		default:
			c.readCh <- f
		}""")],
 "statistics when more frames arrive than the read queue holds",
 "The frames that have to wait are not counted as received.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "", stomp.ConnOpt.WithStats())
	s, err := c.Subscribe("/queue/a", stomp.AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	p.want(frame.SUBSCRIBE, "")
	go func() {
		for i := 0; i < 100; i++ {
			p.send("x", frame.MESSAGE, "subscription", s.Id(), "message-id", "m", "destination", "/queue/a")
		}
	}()
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < 100; i++ {
		<-s.C
	}
	if n := c.Stats().ReadsReceived; n != 100 {
		t.Fatal(n)
	}
}''')

bug("c17-own-heart-beats-count", "C17", [("conn.go", """				sendError(channels, err)
				return
			}
			writeTimer = nil
			writeTimeoutChannel = nil

		case f, ok""", """				sendError(channels, err)
				return
			}
			if c.statsEnabled {
				atomic.AddInt64(&c.writesSent, 1)
			}
			writeTimer = nil
			writeTimeoutChannel = nil

		case f, ok""")],
 "statistics on a connection that sends heart-beats",
 "The client's heart-beats are counted as frames its calls have sent.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "0,50", stomp.ConnOpt.WithStats(), stomp.ConnOpt.HeartBeat(50*time.Millisecond, 0), stomp.ConnOpt.HeartBeatError(time.Millisecond))
	c.Send("/queue/a", "", []byte("x"))
	p.want(frame.SEND, "")
	time.Sleep(500 * time.Millisecond)
	if n := c.Stats().WritesSent; n != 1 {
		t.Fatal(n)
	}
}''')

bug("c12-stray-receipt", "C12", [("conn.go", """			if f == nil {
				// heart-beat received
				continue
			}

			switch f.Command {
			case frame.RECEIPT:
				if id, ok""", """			if f == nil {
				// heart-beat received
				continue
			}

			switch f.Command {
			case frame.RECEIPT:
				// something has just been written
				writeTimer = nil
				if id, ok""")],
 "receipts that arrive a while after the frames they are for, on a connection that otherwise only sends heart-beats",
 "The client waits for a whole interval again although it has not written anything, and the server drops it.",
 '''
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	t.Cleanup(func() { b.Close() })
	r, w := frame.NewReader(b), frame.NewWriter(b)
	ready := make(chan bool)
	go func() {
		r.Read()
		w.Write(frame.New(frame.CONNECTED, "version", "1.2", "heart-beat", "0,400"))
		close(ready)
	}()
	_, err := stomp.Connect(a, stomp.ConnOpt.Logger(quietLog{}), stomp.ConnOpt.HeartBeat(400*time.Millisecond, 0), stomp.ConnOpt.HeartBeatError(50*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	<-ready
	go func() {
		for w.Write(frame.New(frame.RECEIPT, "receipt-id", "z")) == nil {
			time.Sleep(100 * time.Millisecond)
		}
	}()
	b.SetReadDeadline(time.Now().Add(1500 * time.Millisecond))
	if f, err := r.Read(); err != nil || f != nil {
		t.Fatal(f, err)
	}
}''')

bug("c15-reader-stays", "C15", [("subscription.go", """				s.closeChannel(msg)
			}
			return
		} else if f.Command == frame.RECEIPT {""", """				s.closeChannel(msg)
			}
		} else if f.Command == frame.RECEIPT {""")],
 "a connection with a subscription that ends without an ERROR frame of the server",
 "The goroutine of every subscription stays for ever.",
 '''
func TestDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		c, p := demoConnect(t, "1.2", "")
		sub, err := c.Subscribe("/queue/a", stomp.AckAuto)
		if err != nil {
			t.Fatal(err)
		}
		p.want(frame.SUBSCRIBE, "")
		p.c.Close()
		for range sub.C {
		}
	}
	for i := 0; i < 100; i++ {
		if runtime.NumGoroutine() <= before+2 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal(runtime.NumGoroutine(), "goroutines instead of", before)
}''')

bug("c04-short-timeout", "C04", [("conn.go", "	if timeout > 0 {\n		timeoutChan = time.After(timeout)", "	if timeout >= time.Second {\n		timeoutChan = time.After(timeout)")],
 "a receipt timeout shorter than a second, and a receipt that does not come",
 "The call waits for ever.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "", stomp.ConnOpt.RcvReceiptTimeout(200*time.Millisecond))
	done := make(chan error)
	go func() { done <- c.Send("/queue/a", "", nil, stomp.SendOpt.Receipt) }()
	p.want(frame.SEND, "")
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("success")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("still waiting")
	}
}''')

bug("c01-heart-beat-rounding", "C01", [("conn_options.go", "		send := co.WriteTimeout / time.Millisecond\n		recv := co.ReadTimeout / time.Millisecond\n", "		send := int64(co.WriteTimeout.Seconds() * 1000)\n		recv := int64(co.ReadTimeout.Seconds() * 1000)\n")],
 "a heart-beat interval whose seconds are not exact in floating point",
 "CONNECT names a millisecond less.",
 '''
func TestDemo(t *testing.T) {
	for ms := 1; ms < 20000; ms += 7 {
		d := time.Duration(ms) * time.Millisecond
		a, b := net.Pipe()
		p := demoNewPeer(t, b)
		go stomp.Connect(a, stomp.ConnOpt.HeartBeat(d, d))
		f := p.want(frame.CONNECT, "")
		if want := strconv.Itoa(ms) + "," + strconv.Itoa(ms); f.Header.Get("heart-beat") != want {
			t.Fatalf("%s instead of %s", f.Header.Get("heart-beat"), want)
		}
		b.Close()
	}
}''')

bug("c06-unsubscribe-header", "C06", [("subscribe_options.go", """			if f.Command != frame.SUBSCRIBE &&
				f.Command != frame.UNSUBSCRIBE {""", """			if f.Command != frame.SUBSCRIBE {""")],
 "unsubscribing with a custom header",
 "It is refused.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "")
	sub, err := c.Subscribe("/queue/a", stomp.AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	id := p.want(frame.SUBSCRIBE, "").Header.Get("id")
	done := make(chan error)
	go func() { done <- sub.Unsubscribe(stomp.SubscribeOpt.Header("x", "1")) }()
	select {
	case err := <-done:
		t.Fatal(err)
	case f := <-p.in:
		if f.Command != frame.UNSUBSCRIBE || f.Header.Get("x") != "1" {
			t.Fatal(f)
		}
	}
	p.send("", frame.RECEIPT, "receipt-id", id)
	if err := <-done; err != nil {
		t.Fatal(err)
	}
}''')

bug("c05-short-message", "C05", [("subscription.go", "		if f.Command == frame.MESSAGE {\n", "		if f.Command == frame.MESSAGE && (f.Header.Len() > 3 || len(f.Body) > 0) {\n")],
 "an empty message with no headers beyond the required ones",
 "It is not delivered.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "")
	sub, err := c.Subscribe("/queue/a", stomp.AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	id := p.want(frame.SUBSCRIBE, "").Header.Get("id")
	p.send("", frame.MESSAGE, "subscription", id, "message-id", "1", "destination", "/queue/a")
	select {
	case m := <-sub.C:
		if m.Err != nil {
			t.Fatal(m.Err)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("nothing delivered")
	}
}''')

bug("c07-error-without-frame", "C07", [("subscription.go", "						Message: f.Header.Get(frame.Message),\n						Frame:   f,\n", "						Message: f.Header.Get(frame.Message),\n")],
 "an ERROR frame while a subscription is active",
 "The error that ends the subscription does not hold the server's frame.",
 '''
func TestDemo(t *testing.T) {
	c, p := demoConnect(t, "1.2", "")
	sub, err := c.Subscribe("/queue/a", stomp.AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	p.want(frame.SUBSCRIBE, "")
	p.send("details", frame.ERROR, "message", "boom")
	m := <-sub.C
	var e *stomp.Error
	if !errors.As(m.Err, &e) || e.Message != "boom" || e.Frame == nil || string(e.Frame.Body) != "details" {
		t.Fatal(m.Err)
	}
}''')

bug("c13-ids-start-again", "C13", [("id.go", "	return strconv.FormatUint(id, 10)", "	return strconv.FormatUint(id%1000000, 10)")],
 "more than a million identifiers in one process",
 "They are given again.",
 '''
func TestDemo(t *testing.T) {
	f := frame.New(frame.SEND)
	seen := map[string]bool{}
	for i := 0; i < 1500000; i++ {
		if err := stomp.SendOpt.Receipt(f); err != nil {
			t.Fatal(err)
		}
		id := f.Header.Get("receipt")
		if seen[id] {
			t.Fatalf("%s again after %d", id, i)
		}
		seen[id] = true
	}
}''')

bug("s05-receipt-before-subscription", "S05", [("server/client/conn.go", "	c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}\n\n	// Send a receipt and", "	defer func() { c.requestChannel <- Request{Op: SubscribeOp, Sub: sub} }()\n\n	// Send a receipt and")],
 "another client that publishes as soon as the subscriber has its receipt",
 "The message can be sent before the topic knows of the subscription and is not delivered.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	b := demoLogin(t, addr)
	for i := 0; i < 3000; i++ {
		a := demoLogin(t, addr)
		topic := "/topic/" + strconv.Itoa(i)
		a.send("", frame.SUBSCRIBE, "id", "1", "destination", topic, "receipt", "r")
		a.want(frame.RECEIPT, "")
		b.send("x", frame.SEND, "destination", topic)
		a.want(frame.MESSAGE, "x")
		a.c.Close()
	}
}''')

bug("s10-writes-at-clients-pace", "S10", [("server/client/conn.go", "	c.writeTimeout = time.Duration(cy) * time.Millisecond\n", "	c.writeTimeout = time.Duration(cy) * time.Millisecond\n	if cy > 0 && cx > cy {\n		// no more often than the client\n		c.writeTimeout = time.Duration(cx) * time.Millisecond\n	}\n"),
 ], "a client that offers heart-beats more rarely than it asks for them",
 "The server stays silent for longer than it has announced.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{HeartBeat: 50 * time.Millisecond})
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	r, w := frame.NewReader(c), frame.NewWriter(c)
	w.Write(frame.New(frame.CONNECT, "accept-version", "1.2", "host", "h", "heart-beat", "60000,100"))
	if f, err := r.Read(); err != nil || f.Header.Get("heart-beat") != "100,60000" {
		t.Fatal(f, err)
	}
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	if f, err := r.Read(); err != nil || f != nil {
		t.Fatal(f, err)
	}
}''')
