package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// ---------------------------------------------------------------- quantity

// cbulkFn: much of one thing on a client connection, for limits, counters and
// buffers that small histories do not reach.
func cbulkFn(deep int) {
	n := 200 + 800*deep
	k := mc.Choose(len(cbulks))
	p := newPeer()
	b := cbulks[k]
	b.do(p, n)
	mc.Quiet()
	p.WholeFrames()
	if l := leftovers(); len(l) > 0 && !b.open {
		viol("C15", "%s: goroutines left: %v", b.name, l)
	}
	mc.Outcome(b.name)
}

var bulkSizes = []int{0, 1, 100, 2047, 2048, 4000, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12289, 65535, 65536, 65537, 1 << 17, 1 << 20}

// sized is a body of n bytes, every one of which says where it is.
func sized(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i + i>>8 + i>>16)
	}
	return b
}

func mustSub(c *stomp.Conn, dest string, ack stomp.AckMode, opts ...func(*frame.Frame) error) *stomp.Subscription {
	s, err := c.Subscribe(dest, ack, opts...)
	if err != nil {
		viol("C05,C09,C13", "subscribe: %v", err)
	}
	return s
}

// bye disconnects, which has to succeed and end everything.
func bye(p *Peer, c *stomp.Conn) {
	if err := c.Disconnect(); err != nil {
		viol("C08,C04", "disconnect: %v", err)
	}
	mc.Quiet()
	if !p.e.Closed() {
		viol("C08,C15", "the transport was not closed by Disconnect")
	}
}

// identifiers checks that no identifier of a header entry is used twice.
func identifiers(fs []*F, cmd, key string, n int) {
	seen := map[string]bool{}
	for _, f := range fs {
		if v, ok := f.Has(key); ok && f.Cmd == cmd {
			if seen[v] {
				viol("C13", "%s %q used twice", key, v)
			}
			seen[v] = true
		}
	}
	if len(seen) != n {
		viol("C03,C13", "%d %s frames with %s instead of %d", len(seen), cmd, key, n)
	}
}

var cbulks = []struct {
	name string
	open bool // some goroutines are meant to stay
	do   func(p *Peer, n int)
}{
	{name: "a burst of messages", do: func(p *Peer, n int) {
		c := p.dial()
		s := mustSub(c, "/s", stomp.AckAuto)
		mc.Quiet()
		k := consume(s, nil)
		var fs []*F
		for i := 0; i < n*5; i++ {
			fs = append(fs, msgFor(s.Id(), "/s", i))
		}
		p.Send(fs...)
		mc.Quiet()
		checkDelivered("C05", "burst", k, fs, c)
		bye(p, c)
	}},
	{name: "a burst of messages for a late reader", do: func(p *Peer, n int) {
		c := p.dial(stomp.ConnOpt.ReadChannelCapacity(3))
		s, r := mustSub(c, "/s", stomp.AckAuto), mustSub(c, "/r", stomp.AckClient)
		mc.Quiet()
		var fs, gs []*F
		for i := 0; i < n; i++ {
			fs, gs = append(fs, msgFor(s.Id(), "/s", i)), append(gs, msgFor(r.Id(), "/r", i))
			p.Send(gs[i], fs[i])
		}
		mc.Sleep(time.Hour)
		k := readAll(s)
		mc.Sleep(time.Hour)
		j := consume(r, nil)
		mc.Quiet()
		checkDelivered("C05", "late", k, fs, c)
		checkDelivered("C05", "late", j, gs, c)
		bye(p, c)
	}},
	{name: "messages one by one", do: func(p *Peer, n int) {
		c := p.dial(stomp.ConnOpt.HeartBeat(time.Second, time.Second))
		s := mustSub(c, "/s", stomp.AckClient)
		mc.Quiet()
		var fs, acks []*F
		for i := 0; i < n; i++ {
			f := msgFor(s.Id(), "/s", i)
			fs = append(fs, f)
			p.Send(f)
			m, err := s.Read()
			if err != nil {
				viol("C05", "read: %v", err)
			}
			if r := sameMsg(m, f, c, s); r != "" {
				viol("C05", "message %d is not %v: %s", i, f, r)
			}
			if i%3 == 0 {
				err = c.Nack(m)
			} else {
				err = c.Ack(m)
			}
			if err != nil {
				viol("C10", "acknowledging: %v", err)
			}
			acks = append(acks, fr([]string{"NACK", "ACK", "ACK"}[i%3], "id", fmt.Sprint("a", i)))
		}
		mc.Quiet()
		var got []*F
		for _, f := range p.Frames() {
			if f.Cmd == "ACK" || f.Cmd == "NACK" {
				got = append(got, f)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(acks) {
			viol("C10,C03", "acknowledgements on the wire %v instead of %v", got, acks)
		}
		bye(p, c)
	}},
	{name: "messages of all sizes", do: func(p *Peer, n int) {
		c := p.dial()
		s := mustSub(c, "/s", stomp.AckAuto)
		mc.Quiet()
		k := consume(s, nil)
		var fs []*F
		for i, z := range bulkSizes {
			for pre := 0; pre < 3; pre++ {
				// with its length, without it, with a header that long
				f := msgFor(s.Id(), "/s", 0)
				switch pre {
				case 0:
					f.H = append(f.H, [2]string{"content-length", fmt.Sprint(z)})
					f.body(string(sized(z)))
				case 1:
					f.body(strings.Repeat("\x01\n:", z/3+1)[:z])
				case 2:
					if z > 1<<17 {
						continue
					}
					f.H = append(f.H, [2]string{"x", strings.Repeat(fmt.Sprint(i, ":"), z)[:z]}, [2]string{"y", "z"})
				}
				fs = append(fs, f)
			}
		}
		p.Send(fs...)
		mc.Quiet()
		checkDelivered("C05", "sizes", k, fs, c)
		// and read as streams
		var bodies [][]byte
		for _, m := range k.msgs {
			var all []byte
			buf := make([]byte, 1000)
			for {
				r, err := m.Read(buf)
				all = append(all, buf[:r]...)
				if errors.Is(err, io.EOF) {
					break
				}
				if err != nil || r == 0 {
					viol("C14", "read %d, %v", r, err)
				}
			}
			bodies = append(bodies, all)
		}
		for i, f := range fs {
			if !bytes.Equal(bodies[i], f.Body) {
				viol("C14", "reading body %d of %d bytes gave %d bytes", i, len(f.Body), len(bodies[i]))
			}
		}
		bye(p, c)
	}},
	{name: "sends of all sizes", do: func(p *Peer, n int) {
		c := p.dial()
		p.In = nil
		var w []want
		add := func(f *F, err error) {
			if err != nil {
				viol("C03,C04", "send: %v", err)
			}
			w = append(w, want{who: "send", f: f, must: true})
		}
		for i, z := range bulkSizes {
			b := sized(z)
			opts := []func(*frame.Frame) error{stomp.SendOpt.Header("i", fmt.Sprint(i))}
			f := fr("SEND", "destination", "/d", "content-length", fmt.Sprint(z), "i", fmt.Sprint(i)).body(string(b))
			if i%3 == 1 {
				opts = append(opts, stomp.SendOpt.Receipt)
				f.H = append(f.H, [2]string{"receipt", fmt.Sprint("$", i)})
			}
			add(f, c.Send("/d", "", b, opts...))
			if z > 1<<17 {
				continue
			}
			long := strings.Repeat(fmt.Sprint(i), z)[:z]
			add(fr("SEND", "destination", "/d", "content-length", "1", "x", long, "y", long).body("b"),
				c.Send("/d", "", []byte("b"), stomp.SendOpt.Header("x", long), stomp.SendOpt.Header("y", long)))
		}
		mc.Quiet()
		checkWire("C03", p.Frames(), [][]want{w}, true, map[string]string{})
		bye(p, c)
	}},
	{name: "sends without a pause", do: func(p *Peer, n int) {
		c := p.dial(stomp.ConnOpt.WriteChannelCapacity(2))
		p.In = nil
		var w [3][]want
		var g group
		for j := range w {
			j := j
			g.Go("sender", func() {
				for i := 0; i < n; i++ {
					b := fmt.Sprintf("%d %d", j, i)
					f := fr("SEND", "destination", "/d", "content-length", fmt.Sprint(len(b))).body(b)
					var opts []func(*frame.Frame) error
					if i%4 == j {
						opts = append(opts, stomp.SendOpt.Receipt)
						f.H = append(f.H, [2]string{"receipt", fmt.Sprint("$", b)})
					}
					if err := c.Send("/d", "", []byte(b), opts...); err != nil {
						viol("C03,C04", "send: %v", err)
					}
					w[j] = append(w[j], want{who: b, f: f, must: true})
				}
			})
		}
		g.Wait()
		mc.Quiet()
		checkWire("C03", p.Frames(), w[:], true, map[string]string{})
		bye(p, c)
	}},
	{name: "many waiting for receipts", do: func(p *Peer, n int) {
		c := p.dial()
		n = n/4 + 10
		var held []string
		p.On = func(p *Peer, f *F) bool {
			if r, ok := f.Has("receipt"); ok && f.Cmd == "SEND" {
				held = append(held, r)
				return true
			}
			return false
		}
		done := 0
		t := c.Begin()
		for i := 0; i < n; i++ {
			mc.Go("sender", func() {
				if err := t.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
					viol("C04", "send: %v", err)
				}
				done++
			})
			mc.Quiet()
		}
		for done < n && len(held) < n {
			// one at a time, then
			for _, r := range held {
				p.Send(fr("RECEIPT", "receipt-id", r))
			}
			mc.Quiet()
			if done == 0 {
				viol("C04", "no call returned after its receipt")
			}
		}
		if done > 0 {
			p.On = nil
			bye(p, c)
			return
		}
		for i := range held {
			// from both ends
			j := i / 2
			if i%2 == 1 {
				j = n - 1 - j
			}
			p.Send(fr("RECEIPT", "receipt-id", held[j]), fr("RECEIPT", "receipt-id", held[j]), fr("RECEIPT", "receipt-id", "x"+held[j]))
			mc.Quiet()
			if done != i+1 {
				viol("C04", "%d calls returned after %d receipts", done, i+1)
			}
		}
		p.On = nil
		identifiers(p.Frames(), "SEND", "receipt", n)
		bye(p, c)
	}},
	{name: "receipts one by one", do: func(p *Peer, n int) {
		c := p.dial()
		for i := 0; i < n; i++ {
			if err := c.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
				viol("C04", "send %d: %v", i, err)
			}
		}
		identifiers(p.Frames(), "SEND", "receipt", n)
		bye(p, c)
	}},
	{name: "receipts that come late", do: func(p *Peer, n int) {
		c := p.dial(stomp.ConnOpt.RcvReceiptTimeout(time.Second), stomp.ConnOpt.UnsubscribeReceiptTimeout(time.Second), stomp.ConnOpt.HeartBeat(0, 0))
		var held []string
		p.On = func(p *Peer, f *F) bool {
			if r, ok := f.Has("receipt"); ok && len(held) < n {
				held = append(held, r)
				return true
			}
			return false
		}
		for i := 0; i < n; i++ {
			at := mc.NowNS()
			if err := c.Send("/d", "", nil, stomp.SendOpt.Receipt); err == nil {
				viol("C04", "a call without a receipt succeeded")
			}
			if d := time.Duration(mc.NowNS() - at); d > 2*time.Second {
				viol("C04", "waited %v for a receipt instead of a second", d)
			}
			if len(held) <= i {
				viol("C03,C04", "nothing was sent")
			}
			if i%2 == 1 {
				p.Send(fr("RECEIPT", "receipt-id", held[i-1]))
			}
		}
		if err := c.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
			viol("C04", "send: %v", err)
		}
		for i := 0; i < n; i++ {
			p.Send(fr("RECEIPT", "receipt-id", held[i]))
		}
		if err := c.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
			viol("C04", "send: %v", err)
		}
		s := mustSub(c, "/s", stomp.AckAuto)
		mc.Quiet()
		k := consume(s, nil)
		p.Send(msgFor(s.Id(), "/s", 1))
		mc.Quiet()
		checkDelivered("C05", "after late receipts", k, []*F{msgFor(s.Id(), "/s", 1)}, c)
		bye(p, c)
	}},
	{name: "many subscriptions", do: func(p *Peer, n int) {
		c := p.dial()
		n = n/5 + 10
		var subs []*stomp.Subscription
		var ks []*consumer
		ws := make([][]*F, n)
		for i := 0; i < n; i++ {
			s := mustSub(c, fmt.Sprint("/", i%3), stomp.AckMode(i%3))
			subs, ks = append(subs, s), append(ks, consume(s, nil))
		}
		mc.Quiet()
		identifiers(p.Frames(), "SUBSCRIBE", "id", n)
		live := make([]bool, n)
		for i := range live {
			live[i] = true
		}
		round := func(r int) {
			for i := range subs {
				j := (i*7 + r) % n // every one, in another order
				if n%7 == 0 {
					j = i
				}
				if live[j] {
					f := msgFor(subs[j].Id(), fmt.Sprint("/", j%3), r+i)
					ws[j] = append(ws[j], f)
					p.Send(f)
				}
			}
		}
		round(0)
		round(1)
		for i := 0; i < n; i++ {
			j := (i * 3) % n
			if n%3 == 0 {
				j = n - 1 - i
			}
			if i%2 == 0 {
				if err := subs[j].Unsubscribe(); err != nil {
					viol("C06", "unsubscribe: %v", err)
				}
				live[j] = false
			}
			if i%10 == 0 {
				round(i)
			}
		}
		mc.Quiet()
		for i, k := range ks {
			checkDelivered("C05", "many", k, ws[i], c)
			if k.closed != !live[i] {
				viol("C06", "subscription %d of %d: channel closed %v, unsubscribed %v", i, n, k.closed, !live[i])
			}
			if subs[i].Active() != live[i] {
				viol("C06", "subscription %d of %d: active %v, unsubscribed %v", i, n, subs[i].Active(), !live[i])
			}
		}
		bye(p, c)
		for i, k := range ks {
			if !k.closed {
				viol("C07,C08", "subscription %d still open after the disconnect", i)
			}
		}
	}},
	{name: "subscribed again and again", do: func(p *Peer, n int) {
		c := p.dial(stomp.ConnOpt.HeartBeat(0, 0))
		for i := 0; i < n; i++ {
			var opts []func(*frame.Frame) error
			if i%2 == 1 {
				opts = append(opts, stomp.SubscribeOpt.Id("mine"))
			}
			s := mustSub(c, "/s", stomp.AckClient, opts...)
			mc.Quiet()
			k := consume(s, nil)
			fs := []*F{msgFor(s.Id(), "/s", i), msgFor(s.Id(), "/s", i+1)}
			p.Send(fs...)
			mc.Quiet()
			if err := s.Unsubscribe(); err != nil {
				viol("C06", "unsubscribe %d: %v", i, err)
			}
			mc.Quiet()
			checkDelivered("C05", "again", k, fs, c)
			if !k.closed {
				viol("C06", "channel not closed after the unsubscribe")
			}
		}
		mc.Sleep(time.Hour)
		mc.Quiet()
		if l := mc.Blocked(); len(l) > 4 {
			viol("C15", "%d goroutines after %d subscriptions: %v", len(l), n, l[:5])
		}
		bye(p, c)
	}},
	{name: "many transactions", do: func(p *Peer, n int) {
		c := p.dial()
		p.In = nil
		n = n/5 + 10
		var w []want
		add := func(what string, err error, f *F) {
			if err != nil {
				viol("C11", "%s: %v", what, err)
			}
			w = append(w, want{who: what, f: f, must: true})
		}
		var ts []*stomp.Transaction
		for i := 0; i < n; i++ {
			t := c.Begin()
			add("begin", nil, fr("BEGIN", "transaction", t.Id()))
			ts = append(ts, t)
		}
		for r := 0; r < 4; r++ {
			for i := n - 1; i >= 0; i-- {
				b := fmt.Sprint(r)
				add("send", ts[i].Send("/d", "", []byte(b)), fr("SEND", "destination", "/d", "content-length", "1", "transaction", ts[i].Id()).body(b))
			}
		}
		for i := n - 1; i >= 0; i-- {
			j := (i + n/2) % n
			if i%3 == 0 {
				add("abort", ts[j].Abort(), fr("ABORT", "transaction", ts[j].Id()))
			} else {
				add("commit", ts[j].Commit(), fr("COMMIT", "transaction", ts[j].Id()))
			}
			if ts[j].Send("/d", "", nil) == nil || ts[j].Commit() == nil || ts[j].Abort() == nil {
				viol("C11", "a finished transaction could be used")
			}
		}
		mc.Quiet()
		checkWire("C11,C03", p.Frames(), [][]want{w}, true, map[string]string{})
		identifiers(p.Frames(), "BEGIN", "transaction", n)
		bye(p, c)
	}},
	{name: "things that are for nobody", do: func(p *Peer, n int) {
		c := p.dial(stomp.ConnOpt.HeartBeat(time.Second, time.Second))
		p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "0,0")
		s := mustSub(c, "/s", stomp.AckAuto)
		mc.Quiet()
		k := consume(s, nil)
		var fs []*F
		for i := 0; i < n; i++ {
			p.Send(fr("RECEIPT", "receipt-id", fmt.Sprint("none", i)), msgFor(fmt.Sprint("none", i), "/s", i))
			if i%10 == 0 {
				f := msgFor(s.Id(), "/s", i)
				fs = append(fs, f)
				p.Send(f)
			}
			p.e.Do(func() { p.e.Inject([]byte("\n\r\n")) })
		}
		mc.Quiet()
		checkDelivered("C05", "among others'", k, fs, c)
		if err := c.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
			viol("C04,C09", "send: %v", err)
		}
		bye(p, c)
	}},
	{name: "a long time", do: func(p *Peer, n int) {
		h := hbConf{send: time.Second, recv: 2 * time.Second, a: time.Second, b: time.Second, tol: 0}
		c := hbDial(p, h)
		s := mustSub(c, "/s", stomp.AckAuto)
		k := consume(s, nil)
		gap := int64(h.gap())
		for i := 0; i < 3*n; i++ {
			mc.Sleep(h.drop() * 3 / 4)
			if p.e.Closed() || k.closed || len(k.errs) > 0 {
				viol("C12", "dropped after %d intervals, although the server spoke often enough", i)
			}
			if i%7 == 3 {
				p.Send(msgFor(s.Id(), "/s", i))
			} else {
				p.e.Do(func() { p.e.Inject([]byte("\n")) })
			}
			if i%11 == 5 {
				if err := c.Send("/d", "", nil); err != nil {
					viol("C12,C03", "send: %v", err)
				}
			}
		}
		checkGaps("for long", p, time.Duration(gap), mc.NowNS())
		at := mc.NowNS()
		for i := 0; i < 20 && !p.e.Closed(); i++ {
			mc.Sleep(h.drop() / 4)
		}
		if d := time.Duration(mc.NowNS() - at); d > 2*h.drop() {
			viol("C12", "a silent server was dropped after %v only", d)
		}
		mc.Quiet()
		if !k.closed || len(k.errs) != 1 {
			viol("C07,C12", "the subscription of a dropped connection: closed %v, %d errors", k.closed, len(k.errs))
		}
	}},
	{name: "many connections", do: func(p *Peer, n int) {
		n = n/4 + 10
		opts := []Opt{stomp.ConnOpt.HeartBeat(time.Second, time.Second), stomp.ConnOpt.Login("a", "b"), stomp.ConnOpt.Header("x", "y"), stomp.ConnOpt.Header("z", "1")}
		for i := 0; i < n; i++ {
			q := newPeer()
			q.HangUp = i%3 == 0
			q.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "1000,1000")
			c := q.dial(opts...)
			if len(q.In) != 1 || len(q.In[0].H) != 7 {
				viol("C01,C16", "connection %d was opened by %v", i, q.In)
			}
			s := mustSub(c, "/s", stomp.AckAuto)
			mc.Quiet()
			k := consume(s, nil)
			q.Send(msgFor(s.Id(), "/s", i))
			mc.Quiet()
			checkDelivered("C05", "again", k, []*F{msgFor(s.Id(), "/s", i)}, c)
			switch i % 4 {
			case 0, 1:
				bye(q, c)
			case 2:
				q.Cut(nil)
			case 3:
				c.MustDisconnect()
			}
			mc.Quiet()
			if !k.closed {
				viol("C07,C08", "the subscription of a finished connection is still open")
			}
		}
	}},
	{name: "many waiters told", do: func(p *Peer, n int) {
		// the connection ends with many calls and subscriptions open
		c := p.dial(stomp.ConnOpt.RcvReceiptTimeout(0), stomp.ConnOpt.HeartBeat(0, 0))
		n = n/5 + 10
		p.NoRcpt = true
		var ks []*consumer
		told := 0
		for i := 0; i < n; i++ {
			ks = append(ks, consume(mustSub(c, "/s", stomp.AckAuto), nil))
		}
		t := c.Begin()
		for i := 0; i < n; i++ {
			mc.Go("sender", func() {
				if err := t.Send("/d", "", nil, stomp.SendOpt.Receipt); err == nil {
					viol("C04,C07", "a call without a receipt succeeded")
				}
				told++
			})
		}
		mc.Quiet()
		p.Send(fr("ERROR", "message", "boom").body("why"))
		p.Cut(nil)
		mc.Sleep(time.Minute)
		mc.Quiet()
		if told != n {
			viol("C07", "%d of %d calls returned after the ERROR", told, n)
		}
		for i, k := range ks {
			if !k.closed || len(k.errs) != 1 {
				viol("C07", "subscription %d of %d: %d errors, closed %v", i, n, len(k.errs), k.closed)
			}
		}
		if !p.e.Closed() {
			viol("C07,C15", "the transport is still open")
		}
	}},
	{name: "identifiers of all kinds of calls", do: func(p *Peer, n int) {
		// the receipts that sends in and out of transactions ask for, with
		// as many of each before the next
		c := p.dial()
		q := newPeer()
		d := q.dial()
		for _, k := range []int{1, 2, 9, 11, 99, 1} {
			for _, x := range []*stomp.Conn{c, d} {
				for i := 0; i < k; i++ {
					if err := x.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
						viol("C04", "send: %v", err)
					}
				}
				s := mustSub(x, "/s", stomp.AckAuto, stomp.SubscribeOpt.Header("x", "y"))
				t := x.Begin()
				for i := 0; i < k; i++ {
					if err := t.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
						viol("C04,C11", "send in a transaction: %v", err)
					}
				}
				if err := s.Unsubscribe(stomp.SubscribeOpt.Header("a", "b")); err != nil {
					viol("C06", "unsubscribe: %v", err)
				}
				if err := t.Commit(); err != nil {
					viol("C11", "commit: %v", err)
				}
			}
		}
		mc.Quiet()
		fs := append(p.Frames(), q.Frames()...)
		identifiers(fs, "SEND", "receipt", 492)
		identifiers(fs, "SUBSCRIBE", "id", 12)
		identifiers(fs, "BEGIN", "transaction", 12)
		bye(p, c)
		bye(q, d)
	}},
	{name: "many header entries", do: func(p *Peer, n int) {
		c := p.dial()
		p.In = nil
		var opts []func(*frame.Frame) error
		f := fr("SEND", "destination", "/d", "content-length", "0")
		s := mustSub(c, "/s", stomp.AckAuto)
		m := msgFor(s.Id(), "/s", 0)
		p.In = nil
		for i := 0; i < n; i++ {
			k, v := fmt.Sprint("k", i%(n/2)), fmt.Sprint("v", i)
			opts = append(opts, stomp.SendOpt.Header(k, v))
			f.H = append(f.H, [2]string{k, v})
			m.H = append(m.H, [2]string{k, v})
		}
		mc.Quiet()
		p.In = nil
		for i := 0; i < 3; i++ {
			if err := c.Send("/d", "", nil, opts...); err != nil {
				viol("C03", "send: %v", err)
			}
		}
		k := consume(s, nil)
		p.Send(m, m)
		mc.Quiet()
		w := want{who: "send", f: f, must: true}
		checkWire("C03", p.Frames(), [][]want{{w, w, w}}, true, map[string]string{})
		checkDelivered("C05", "entries", k, []*F{m, m}, c)
		bye(p, c)
	}},
}

func init() {
	scen(&Scenario{Name: "c-bulk", Props: []string{"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"},
		What:     "many messages, receipts, subscriptions, transactions, connections, intervals, or large bodies and headers, on a client connection",
		Quick:    []Bound{{Delay: true, Shards: 16, Steps: 3000000}, {Delay: true, Race: true, Shards: 16, Steps: 3000000, Only: "C09"}},
		Thorough: []Bound{{Delay: true, Deep: 1, Shards: 16, Steps: 20000000}, {Delay: true, Race: true, Shards: 16, Steps: 3000000, Only: "C09"}, {Delay: true, PB: 1, Shards: 64, Steps: 3000000}},
		Fn:       cbulkFn})
}
