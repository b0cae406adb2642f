package main

import (
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// ---------------------------------------------------------------- C16

// pairSide is one of two connections that know nothing of each other.
type pairSide struct {
	i     int
	name  string
	p     *Peer
	c     *stomp.Conn
	sub   *stomp.Subscription
	k     *consumer
	sent  []*F // messages the server sent to the subscription
	subs  int
	wants []want
	ended bool
	cut   bool // what was sent last may be lost
	n     int
	opt   func(*frame.Frame) error // for sending
	sopt  func(*frame.Frame) error // for subscribing
}

// s send, r send with a receipt, m a message arrives, a acknowledge it,
// t a transaction, u unsubscribe and subscribe again, x a stray receipt,
// d disconnect, D forced disconnect, e ERROR, z the end of the stream
const pairAlpha = "srmatuxdDez"

func (s *pairSide) bad(format string, a ...any) {
	viol("C16", "connection %s: %s", s.name, fmt.Sprintf(format, a...))
}

func (s *pairSide) subscribe() {
	sub, err := s.c.Subscribe("/s", stomp.AckClientIndividual, stomp.SubscribeOpt.Id("same"), s.sopt)
	if err != nil {
		s.bad("subscribe: %v", err)
	}
	s.wants = append(s.wants, want{who: s.name, f: fr("SUBSCRIBE", "id", "same", "destination", "/s", "ack", "client-individual", "same", "option"), must: true})
	s.subs++
	s.sub, s.k, s.sent = sub, consume(sub, nil), nil
}

func (s *pairSide) atServer() (n int) {
	for _, f := range s.p.Frames() {
		if f.Cmd == "SUBSCRIBE" {
			n++
		}
	}
	return
}

func (s *pairSide) message() {
	// the server does not know the subscription before its frame arrives
	for s.atServer() < s.subs {
		mc.Sleep(time.Millisecond)
	}
	s.n++
	f := msgFor("same", "/s", s.i+2*s.n)
	s.sent = append(s.sent, f)
	s.p.Send(f)
}

// do performs an operation; on a connection that has ended nothing is judged.
func (s *pairSide) do(op rune) {
	if s.ended {
		return
	}
	s.n++
	b := fmt.Sprint(s.name, s.n)
	ok := func(what string, err error, f *F) {
		if err != nil {
			s.bad("%s: %v", what, err)
		}
		s.wants = append(s.wants, want{who: s.name + " " + what, f: f, must: true})
	}
	cl := fmt.Sprint(len(b))
	switch op {
	case 's':
		ok("send", s.c.Send("/d", "text/plain", []byte(b), s.opt), fr("SEND", "destination", "/d", "content-type", "text/plain", "content-length", cl, "same", "option").body(b))
	case 'r':
		ok("send with receipt", s.c.Send("/d", "", []byte(b), stomp.SendOpt.Receipt, s.opt),
			fr("SEND", "destination", "/d", "content-length", cl, "same", "option", "receipt", fmt.Sprint("$r", s.n)).body(b))
	case 'm':
		s.message()
	case 'a':
		if len(s.k.msgs) > 0 {
			m := s.k.msgs[len(s.k.msgs)-1]
			ok("ack", s.c.Ack(m), fr("ACK", "id", m.Header.Get("ack")))
		}
	case 't':
		t := s.c.Begin()
		v := t.Id()
		ok("begin", nil, fr("BEGIN", "transaction", v))
		ok("send in transaction", t.Send("/d", "", []byte(b), s.opt), fr("SEND", "destination", "/d", "content-length", cl, "same", "option", "transaction", v).body(b))
		ok("commit", t.Commit(), fr("COMMIT", "transaction", v))
	case 'u':
		err := s.sub.Unsubscribe()
		ok("unsubscribe", err, fr("UNSUBSCRIBE", "id", "same"))
		s.delivered(true)
		s.subscribe()
	case 'x':
		s.p.Send(fr("RECEIPT", "receipt-id", "nobody"))
	case 'd':
		s.ended = true
		ok("disconnect", s.c.Disconnect(), fr("DISCONNECT", "receipt", fmt.Sprint("$d", s.n)))
	case 'D':
		s.ended, s.cut = true, true
		if err := s.c.MustDisconnect(); err != nil {
			s.bad("forced disconnect: %v", err)
		}
	case 'e':
		s.ended, s.cut = true, true
		s.p.Send(fr("ERROR", "message", "boom"))
		s.p.Cut(nil)
	case 'z':
		s.ended, s.cut = true, true
		s.p.Cut(nil)
	}
}

func (s *pairSide) delivered(closed bool) {
	if closed {
		for i := 0; i < 5 && !s.k.closed; i++ {
			mc.Sleep(time.Millisecond)
		}
	}
	if len(s.k.errs) > 0 {
		s.bad("error on its subscription: %v", s.k.errs[0].Err)
	}
	if s.k.closed != closed {
		s.bad("channel closed: %v", s.k.closed)
	}
	checkDelivered("C16", "connection "+s.name, s.k, s.sent, s.c)
}

// pairFn: two connections made from the same options, each with a program of
// its own; each has to behave as if it were alone.
func pairFn(deep int) {
	hi := 1 + deep%10
	seq := deep >= 10 // one goroutine for both
	n := wordCount(pairAlpha, 0, hi)
	k := mc.Choose(n * n)
	words := [2]string{nthWord(pairAlpha, 0, k%n), nthWord(pairAlpha, 0, k/n)}
	if !seq && words[0] > words[1] {
		return // symmetric
	}
	opts := []Opt{
		stomp.ConnOpt.Logger(nolog{}), stomp.ConnOpt.Login("me", "secret"), stomp.ConnOpt.Header("x", "y"), stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.Header("z", "1"), stomp.ConnOpt.Header("x", "2"),
		stomp.ConnOpt.Host("h"), stomp.ConnOpt.AcceptVersion(stomp.V12), stomp.ConnOpt.ReadChannelCapacity(2), stomp.ConnOpt.WriteChannelCapacity(2),
	}
	opt := stomp.SendOpt.Header("same", "option")
	sopt := stomp.SubscribeOpt.Header("same", "option")
	var s [2]*pairSide
	for i := range s {
		s[i] = &pairSide{i: i, name: string(rune('A' + i)), p: newPeer(), opt: opt, sopt: sopt}
		c, err := stomp.Connect(s[i].p.e, opts...)
		if err != nil {
			s[i].bad("connect: %v", err)
		}
		s[i].c = c
		f := s[i].p.In[0]
		if f.Cmd != "CONNECT" || f.Get("login") != "me" || f.Get("passcode") != "secret" || fmt.Sprint(f.All("x")) != "[y 2]" || f.Get("z") != "1" || f.Get("host") != "h" || f.Get("accept-version") != "1.2" || len(f.H) != 8 {
			s[i].bad("was opened by %v", f)
		}
		s[i].p.In = nil
		s[i].subscribe()
	}
	mc.Quiet()
	if seq {
		for i := 0; i < hi; i++ {
			for j := range s {
				if i < len(words[j]) {
					s[j].do(rune(words[j][i]))
					mc.Quiet()
				}
			}
		}
	} else {
		var g group
		for j := range s {
			j := j
			g.Go(s[j].name, func() {
				for _, op := range words[j] {
					s[j].do(op)
				}
			})
		}
		g.Wait()
	}
	mc.Quiet()
	for _, t := range s {
		if t.ended {
			continue
		}
		// still alive and well
		t.delivered(false)
		t.do('r')
		t.do('m')
		mc.Quiet()
		t.do('a')
		t.do('u')
		t.do('m')
		mc.Quiet()
		t.delivered(false)
		if st := t.c.Version(); st != stomp.V12 {
			t.bad("version %q", st)
		}
		mc.Quiet()
	}
	for _, t := range s {
		for _, f := range t.p.Frames() {
			if f.Cmd == "UNSUBSCRIBE" {
				// a receipt of any name
				var h [][2]string
				for _, e := range f.H {
					if e[0] != "receipt" {
						h = append(h, e)
					}
				}
				f.H = h
			}
		}
		checkWire("C16", t.p.Frames(), [][]want{t.wants}, !t.cut, map[string]string{})
		was := t.ended
		t.do('d')
		mc.Quiet()
		if !t.p.e.Closed() {
			if was {
				viol("C07,C08,C15", "the transport of connection %s was not closed", t.name)
			}
			t.bad("the transport was not closed by Disconnect")
		}
	}
	if l := leftovers(); len(l) > 0 {
		viol("C15", "goroutines left: %v", l)
	}
	if words[0] == "" || words[1] == "" {
		mc.Outcome(words[0] + "|" + words[1])
	}
}

// ---------------------------------------------------------------- C17

// statsFn: the statistics after every sequence of operations.
//
// s send, R send that an option refuses, r send with a receipt, m a message,
// x a stray receipt, a ack, A ack of an auto subscription's message, N nack
// refused there, t transaction, S subscribe, B subscribe that an option
// refuses, u unsubscribe twice, d disconnect, D forced disconnect, 2 two
// goroutines send, o somebody asks while frames are sent and received, w the
// client writes heart-beats, k the server sends one, q a temporary queue
// comes and goes, T the server does not read until a send has timed out, X the
// connection is closed while frames wait
const statsAlpha = "sRrmxaANtSBudD2owkqTX"

func statsFn(deep int) {
	n := wordCount(statsAlpha, 0, 3+deep)
	k := mc.Choose(2 * n)
	w := nthWord(statsAlpha, 0, k/2)
	on := k%2 == 1
	if i := strings.IndexAny(w, "dDX"); !on && len(w) > 2 || i >= 0 && len(w) > i+2 {
		return
	}
	p := newPeer()
	opts := []Opt{stomp.ConnOpt.HeartBeat(0, 0)}
	if strings.ContainsAny(w, "wk") {
		p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "1000000,20000")
		opts = []Opt{stomp.ConnOpt.HeartBeat(20*time.Second, 1000*time.Second)}
	}
	if on {
		opts = append(opts, stomp.ConnOpt.WithStats())
	}
	if strings.ContainsAny(w, "TX") {
		opts = append(opts, stomp.ConnOpt.WriteChannelCapacity(2), stomp.ConnOpt.MsgSendTimeout(time.Second))
	}
	c := p.dial(opts...)
	p.In = nil
	recv, beats := int64(0), int64(0)
	count := func() int64 {
		// frames answered by a receipt
		n := recv
		for _, f := range p.Frames() {
			if _, ok := f.Has("receipt"); ok {
				n++
			}
		}
		return n
	}
	var prev stomp.ConnectionStats
	check := func(when string) {
		mc.Quiet()
		st := c.Stats()
		want := stomp.ConnectionStats{WritesSent: int64(len(p.Frames())), ReadsReceived: count()}
		if !on {
			want = stomp.ConnectionStats{}
		}
		if d := st.ReadsReceived - want.ReadsReceived; on && d > 0 && d <= beats {
			// heart-beats may count
			want.ReadsReceived = st.ReadsReceived
		}
		if st != want {
			viol("C17", "statistics %+v %s, %d frames were sent and %d received (statistics enabled: %v)", st, when, len(p.Frames()), count(), on)
		}
		if st.WritesSent < prev.WritesSent || st.ReadsReceived < prev.ReadsReceived {
			viol("C17", "statistics went back from %+v to %+v %s", prev, st, when)
		}
		prev = st
	}
	check("at the beginning")
	sub, err := c.Subscribe("/s", stomp.AckClient)
	auto, err2 := c.Subscribe("/a", stomp.AckAuto)
	if err != nil || err2 != nil {
		viol("*", "subscribe: %v %v", err, err2)
	}
	var last, lastAuto *stomp.Message
	consume(sub, func(m *stomp.Message) { last = m })
	consume(auto, func(m *stomp.Message) { lastAuto = m })
	refuse := func(*frame.Frame) error { return fmt.Errorf("refused") }
	check("after subscribing")
	for i, op := range w {
		switch op {
		case 's':
			c.Send("/d", "", []byte("b"))
		case 'R':
			if c.Send("/d", "", nil, refuse) == nil {
				viol("C03", "a send whose option failed succeeded")
			}
		case 'r':
			c.Send("/d", "", []byte("b"), stomp.SendOpt.Receipt)
		case 'm':
			if strings.ContainsAny(w[:i], "dDX") {
				return
			}
			recv += 2
			p.Send(msgFor(sub.Id(), "/s", i), msgFor(auto.Id(), "/a", i))
		case 'x':
			if strings.ContainsAny(w[:i], "dDX") {
				return
			}
			recv++
			p.Send(fr("RECEIPT", "receipt-id", "nobody"))
		case 'w':
			mc.Sleep(50 * time.Second)
		case 'k':
			if strings.ContainsAny(w[:i], "dDX") {
				return
			}
			beats++
			p.Send(nil)
		case 'a':
			if last == nil {
				return
			}
			c.Ack(last)
		case 'A', 'N':
			if lastAuto == nil {
				return
			}
			if op == 'A' {
				c.Ack(lastAuto)
			} else {
				c.Nack(lastAuto)
			}
		case 't':
			if t, err := c.BeginWithError(); err == nil {
				t.Send("/d", "", []byte("b"))
				t.Commit()
			}
		case 'S':
			if s, err := c.Subscribe(fmt.Sprint("/n", i), stomp.AckAuto); err == nil {
				consume(s, nil)
			}
		case 'B':
			c.Subscribe("/b", stomp.AckAuto, refuse)
		case 'u':
			sub.Unsubscribe()
			sub.Unsubscribe()
		case 'd':
			c.Disconnect()
		case 'D':
			c.MustDisconnect()
		case 'q':
			name := fmt.Sprint("/temp-queue/", i)
			t, err := c.Subscribe(name, stomp.AckAuto, stomp.SubscribeOpt.Header("reply-to", name))
			if err != nil {
				break
			}
			consume(t, nil)
			check("with a temporary queue")
			t.Unsubscribe()
		case 'T', 'X':
			if strings.ContainsAny(w[:i], "dDX") {
				return
			}
			p.e.Do(func() { p.far.SetLimit(1) })
			for j := 0; j < 5; j++ {
				c.Send("/d", "", []byte("b"))
			}
			if op == 'X' {
				c.MustDisconnect()
			}
			p.e.Do(func() { p.far.SetLimit(0) })
		case '2':
			var g group
			for j := 0; j < 2; j++ {
				g.Go("sender", func() { c.Send("/d", "", []byte("b")) })
			}
			g.Wait()
		case 'o':
			if strings.ContainsAny(w[:i], "dDX") {
				return
			}
			var g group
			g.Go("asking", func() {
				old := prev
				for j := 0; j < 3; j++ {
					st := c.Stats()
					if st.WritesSent < old.WritesSent || st.ReadsReceived < old.ReadsReceived {
						viol("C17", "statistics went back from %+v to %+v", old, st)
					}
					old = st
					mc.Yield()
				}
			})
			g.Go("sender", func() { c.Send("/d", "", []byte("b"), stomp.SendOpt.Receipt) })
			recv++
			p.Send(fr("RECEIPT", "receipt-id", "nobody"))
			g.Wait()
		}
		check(fmt.Sprintf("after %q", w[:i+1]))
	}
	mc.Outcome(fmt.Sprintf("enabled %v, %d sent, %d received", on, prev.WritesSent, prev.ReadsReceived))
}

// statsQueuesFn: what waits to be written or to be handled shows up in the
// statistics, each in its own place.
func statsQueuesFn(deep int) {
	k := mc.Choose(2 * 8)
	n := k / 2
	p := newPeer()
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.WithStats(), stomp.ConnOpt.ReadChannelCapacity(8), stomp.ConnOpt.WriteChannelCapacity(8))
	sub := mustSub(c, "/s", stomp.AckAuto)
	mc.Quiet()
	idle := func(when string) {
		mc.Quiet()
		if st := c.Stats(); st.CurrentReadChanSize != 0 || st.CurrentWriteChanSize != 0 {
			viol("C17", "%s: statistics %+v although nothing is waiting", when, st)
		}
	}
	idle("at the beginning")
	if k%2 == 0 {
		p.e.Do(func() { p.far.SetLimit(1) })
		for i := 0; i < n; i++ {
			if err := c.Send("/d", "", []byte("x")); err != nil {
				viol("C03", "send %d: %v", i, err)
			}
		}
		mc.Quiet()
		if st := c.Stats(); st.CurrentReadChanSize != 0 || st.CurrentWriteChanSize > n || st.CurrentWriteChanSize < n-2 {
			viol("C17", "%d frames on their way to a server that does not read: %+v", n, st)
		}
		p.e.Do(func() { p.far.SetLimit(0) })
		idle("when all is written")
		consume(sub, nil)
	} else {
		// many more messages than a subscription that is not read holds
		for i := 0; i < n*20; i++ {
			p.e.Do(func() { p.Reply(msgFor(sub.Id(), "/s", i)) })
		}
		mc.Quiet()
		if st := c.Stats(); st.CurrentWriteChanSize != 0 || st.CurrentReadChanSize > n*20 || n >= 3 && st.CurrentReadChanSize == 0 {
			viol("C17", "%d messages arrived for a subscription that is not read: %+v", n*20, st)
		}
		consume(sub, nil)
		idle("when all is read")
	}
	if st := c.Stats(); st.WritesSent != int64(len(p.Frames())-1) || st.ReadsReceived != int64(n*20*(k%2)) {
		viol("C17", "%d frames sent and %d received: statistics %+v", len(p.Frames())-1, n*20*(k%2), st)
	}
	mc.Outcome(fmt.Sprint(k))
	bye(p, c)
}

func init() {
	scen(&Scenario{Name: "c-stats-queues", Props: []string{"C17"},
		What:     "the statistics while frames wait to be written or handled",
		Fn:       statsQueuesFn,
		Quick:    []Bound{{Delay: true, PB: 0, Shards: 4}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 16}}})
	scen(&Scenario{Name: "c-pair", Props: []string{"C16", "C15"},
		What: "two connections made from the same options, each with a program of its own",
		Fn:   pairFn,
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Only: "C09,C16"}, {Delay: true, PB: 1, Shards: 64}, {Delay: true, PB: 0, Deep: 11, Shards: 64},
			{Delay: true, PB: 0, Deep: 1, Shards: 64, Only: "C16"}},
		Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09,C16"}, {Delay: true, PB: 2, Shards: 128}, {Delay: true, PB: 1, Deep: 1, Shards: 128}, {Delay: true, PB: 0, Deep: 12, Shards: 256}}})
	scen(&Scenario{Name: "c-stats", Props: []string{"C17"},
		What:     "the statistics after every sequence of operations",
		Fn:       statsFn,
		Quick:    []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Only: "C09,C17"}, {Delay: true, PB: 0, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 64, Only: "C09,C17"}, {Delay: true, PB: 1, Shards: 128}, {Delay: true, PB: 0, Deep: 1, Shards: 256}}})
}
