package main

import (
	"errors"
	"fmt"
	"strings"

	gonet "net"

	"stompmc/mc"
	"stompmc/mc/context"
	mcnet "stompmc/mc/net"
	"stompmc/mc/time"
	"stompmc/stomp"
)

// ---------------------------------------------------------------- much arrives at the end

// floodFn: more frames than the connection has room for arrive at once, and
// the connection ends, for one reason or another, before, within or behind
// them.
func floodFn(deep int) {
	cp := 1 + mc.Choose(2)
	n := cp + 1 + mc.Choose(4+2*deep)
	how := mc.Choose(6)
	kind := mc.Choose(2)
	p := newPeer()
	c := p.dial(stomp.ConnOpt.ReadChannelCapacity(cp), stomp.ConnOpt.RcvReceiptTimeout(time.Second))
	s := mustSub(c, "/s", stomp.AckAuto)
	mc.Quiet()
	k := consume(s, nil)
	var fs []*F
	for i := 0; i < n; i++ {
		switch {
		case kind == 0:
			fs = append(fs, nil) // heart-beats
		case i%3 == 0:
			fs = append(fs, msgFor(s.Id(), "/s", i))
		case i%3 == 1:
			fs = append(fs, msgFor("nobody", "/s", i))
		default:
			fs = append(fs, fr("RECEIPT", "receipt-id", "nobody"))
		}
	}
	var gr group
	switch how {
	case 0: // ERROR comes first
		p.Send(append([]*F{fr("ERROR", "message", "flood")}, fs...)...)
	case 1: // and last, after the first
		p.Send(append(append([]*F{fs[0], fr("ERROR", "message", "flood")}, fs[1:]...), fr("ERROR", "message", "again"))...)
	case 2: // the program leaves
		p.Send(fs...)
		gr.Go("must", func() { c.MustDisconnect() })
	case 3:
		gr.Go("must", func() { c.MustDisconnect() })
		p.Send(fs...)
	case 4: // the connection breaks
		p.Send(fs...)
		p.Cut(errors.New("reset"))
	case 5:
		gr.Go("leave", func() { c.Disconnect() })
		p.Send(fs...)
	}
	gr.Wait()
	mc.Sleep(time.Minute)
	mc.Quiet()
	if !p.e.Closed() {
		viol("C15,C07,C08", "the transport has not been closed")
	}
	if l := leftovers(); len(l) > 0 {
		viol("C15", "goroutines left: %v", l)
	}
	if !k.closed {
		viol("C07,C15", "the subscription's channel has not been closed")
	}
	if l := len(k.errs); l > 1 || l == 0 && (how < 2 || how == 4) {
		viol("C07", "%d messages carry an error", l)
	}
	mc.Outcome(fmt.Sprint(how, len(k.msgs), len(k.errs)))
}

// lateEndFn: the connection fails behind any number of messages that the
// program has not read yet.
func lateEndFn(deep int) {
	ns := []int{0, 1, 15, 16, 17, 18, 19, 36, 40, 2, 14, 31, 32, 33, 34, 35, 37, 38, 60}
	n := ns[mc.Choose([]int{9, len(ns)}[deep])]
	how := mc.Choose(3)
	late := mc.Choose(3) // when the program begins to read
	p := newPeer()
	c := p.dial(stomp.ConnOpt.ReadChannelCapacity(1 + mc.Choose(3)*19))
	s, r := mustSub(c, "/s", stomp.AckAuto), mustSub(c, "/r", stomp.AckAuto)
	mc.Quiet()
	kr := consume(r, nil)
	var k *consumer
	if late == 0 {
		k = consume(s, nil)
	}
	var fs []*F
	for i := 0; i < n; i++ {
		fs = append(fs, msgFor(s.Id(), "/s", i))
	}
	p.Send(fs...)
	if late == 1 {
		mc.Quiet()
	}
	switch how {
	case 0:
		p.Send(fr("ERROR", "message", "boom"))
	case 1:
		p.Cut(errors.New("reset"))
	case 2:
		p.Cut(nil)
	}
	if late > 0 {
		mc.Sleep(time.Minute)
		k = consume(s, nil)
	}
	mc.Sleep(time.Minute)
	mc.Quiet()
	for _, x := range []*consumer{k, kr} {
		if !x.closed || len(x.errs) != 1 || x.late {
			viol("C07", "%d messages then %d: closed %v with %d errors", n, how, x.closed, len(x.errs))
		}
	}
	if how == 0 && k.errs[0].Err.Error() != "boom" {
		viol("C07", "the error is %v", k.errs[0].Err)
	}
	k.errs = nil
	checkDelivered("C05,C07", "behind", k, fs, c)
	if !p.e.Closed() {
		viol("C07,C15", "the transport has not been closed")
	}
	if l := leftovers(); len(l) > 0 {
		viol("C15", "goroutines left: %v", l)
	}
	mc.Outcome(fmt.Sprint(how, n))
}

// ---------------------------------------------------------------- time passes

// lateFn: nothing depends on how long a subscription, transaction or message
// has been there.
func lateFn(deep int) {
	d := []time.Duration{11 * time.Second, 31 * time.Second, 5 * time.Hour, 30 * 24 * time.Hour}[mc.Choose(4)]
	at := mc.Choose(18) // 0: always
	beat := mc.Choose(2)
	ver := []string{"1.2", "1.1"}[mc.Choose(2)]
	p := newPeer()
	p.Conn = fr("CONNECTED", "version", ver)
	var opts []Opt
	if beat == 1 {
		opts = append(opts, stomp.ConnOpt.HeartBeat(time.Hour, 0))
		p.Conn = fr("CONNECTED", "version", ver, "heart-beat", "0,3600000")
	}
	c := p.dial(opts...)
	step := 0
	var wants []string
	next := func(what string, err error, w string) {
		if step++; at == 0 || at == step {
			mc.Sleep(d)
		}
		mc.Quiet()
		if err != nil {
			viol("C03,C04,C05,C06,C08,C10,C11", "%s, %v later: %v", what, d, err)
		}
		if w != "" {
			wants = append(wants, w)
		}
	}
	next("connect", nil, "")
	a, b := mustSub(c, "/a", stomp.AckClientIndividual), mustSub(c, "/b", stomp.AckAuto)
	ka, kb := consume(a, nil), consume(b, nil)
	next("subscribe", nil, "SUBSCRIBE SUBSCRIBE")
	ms := []*F{msgFor(a.Id(), "/a", 1), msgFor(a.Id(), "/a", 2), msgFor(a.Id(), "/a", 3)}
	for i, m := range ms {
		m.H = append(m.H, [2]string{"ack", fmt.Sprint("k", i)})
	}
	mb := msgFor(b.Id(), "/b", 4)
	get := func(i int) *stomp.Message {
		if len(ka.msgs) <= i {
			viol("C05", "message %d has not been delivered", i+1)
		}
		return ka.msgs[i]
	}
	p.Send(ms[0])
	next("message", nil, "")
	t := c.Begin()
	next("begin", nil, "BEGIN")
	next("send in the transaction", t.Send("/x", "text/plain", []byte("x")), "SEND")
	next("send with receipt", c.Send("/x", "", []byte("y"), stomp.SendOpt.Receipt), "SEND")
	p.Send(mb, ms[1])
	next("message", nil, "")
	next("ack in the transaction", t.Ack(get(0)), "ACK")
	next("commit", t.Commit(), "COMMIT")
	next("ack", c.Ack(get(1)), "ACK")
	p.Send(ms[2])
	next("message", nil, "")
	next("nack", c.Nack(get(2)), "NACK")
	u, err := c.BeginWithError()
	next("begin again", err, "BEGIN")
	if err := t.Send("/x", "", nil); err == nil {
		viol("C11", "send in the committed transaction succeeds")
	}
	next("send", c.Send("/y", "", nil), "SEND")
	next("abort", u.Abort(), "ABORT")
	next("unsubscribe", a.Unsubscribe(), "UNSUBSCRIBE")
	if !ka.closed || a.Active() {
		viol("C06", "the subscription is not at its end")
	}
	if err := a.Unsubscribe(); err != stomp.ErrCompletedSubscription {
		viol("C06", "second unsubscribe: %v", err)
	}
	if !b.Active() || kb.closed {
		viol("C05,C06", "the other subscription has ended")
	}
	next("nothing", nil, "")
	checkDelivered("C05", "late", ka, ms, c)
	bye(p, c)
	wants = append(wants, "DISCONNECT")
	checkDelivered("C05", "late", kb, []*F{mb}, c)
	have, want := "", "CONNECT"
	for _, f := range p.Frames() {
		if have != "" {
			have += " "
		}
		have += f.Cmd
	}
	for _, w := range wants {
		want += " " + w
	}
	if have != want {
		viol("C03,C04,C06,C08,C10,C11", "the server got %s instead of %s", have, want)
	}
	if l := leftovers(); len(l) > 0 {
		viol("C15", "goroutines left: %v", l)
	}
	mc.Outcome("done")
}

// deadlineFn: the context's deadline bounds the handshake, and nothing else.
func deadlineFn(deep int) {
	d := []time.Duration{-time.Second, 0, time.Millisecond, 999 * time.Millisecond, time.Second, 5 * time.Second, time.Minute, 61 * time.Second, 5 * time.Minute, time.Hour, 30 * 24 * time.Hour}[mc.Choose(11)]
	dial := mc.Choose(2) == 1
	when := mc.Choose(6)
	p := newPeer()
	p.Conn = nil
	mcnet.DialHook = func(ctx context.Context, network, addr string) (gonet.Conn, error) { return p.e, nil }
	ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(d))
	defer cancel()
	if d <= 0 && (when > 1 && when < 5 || dial) {
		return
	}
	at := time.Duration(-1)
	switch when {
	case 0: // never
	case 1:
		at = 0
	case 2:
		at = d / 2
	case 3:
		at = d - 1
	case 4:
		at = d + 1
	case 5: // not even the frame is taken
		p.far.SetLimit(1)
	}
	if d <= 0 && when == 1 {
		return // both are possible
	}
	if at >= 0 {
		mc.Go("server", func() {
			mc.Sleep(at)
			p.Send(fr("CONNECTED", "version", "1.2"))
		})
	}
	t0 := mc.NowNS()
	var c *stomp.Conn
	var err error
	opts := []Opt{stomp.ConnOpt.Logger(nolog{}), stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.RcvReceiptTimeout(time.Hour)}
	if when == 5 {
		opts = append(opts, stomp.ConnOpt.Login("user", strings.Repeat("x", 9000)))
	}
	done := false
	connect := func() {
		if dial {
			c, err = stomp.DialWithContext(ctx, "tcp", "server:61613", opts...)
		} else {
			c, err = stomp.ConnectWithContext(ctx, p.e, opts...)
		}
		done = true
	}
	if when == 5 {
		mc.Go("connect", connect)
		mc.Sleep(d + time.Millisecond)
		mc.Quiet()
		if !done {
			viol("C02", "connecting to a server that does not take the CONNECT frame has not returned at the deadline (%v, dial %v)", d, dial)
		}
	} else {
		connect()
	}
	took := time.Duration(mc.NowNS() - t0)
	what := fmt.Sprintf("deadline %v, answer %v (%d), dial %v", d, at, when, dial)
	if when == 0 || when > 3 {
		if err == nil || c != nil {
			viol("C02", "%s: connecting succeeded", what)
		}
		if max := d + time.Millisecond; took > max && d > 0 || d <= 0 && took > time.Millisecond {
			viol("C02", "%s: failed after %v", what, took)
		}
		if when != 4 && took < d {
			viol("C02", "%s: failed after %v", what, took)
		}
		mc.Sleep(time.Minute)
		mc.Quiet()
		if dial && !p.e.Closed() {
			viol("C02,C15", "%s: the connection it dialed was left open", what)
		}
		if b := leftovers(); len(b) > 0 {
			viol("C02,C15", "%s: goroutines left behind: %v", what, b)
		}
		mc.Outcome("refused")
		return
	}
	if err != nil {
		viol("C02", "%s: connecting failed: %v", what, err)
	}
	s := mustSub(c, "/s", stomp.AckAuto)
	k := consume(s, nil)
	mc.Quiet()
	var fs []*F
	for i, gap := range []time.Duration{0, d, d + time.Hour, 60 * 24 * time.Hour} {
		mc.Sleep(gap)
		f := msgFor(s.Id(), "/s", i)
		fs = append(fs, f)
		p.Send(f)
		mc.Quiet()
		if err := c.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
			viol("C02,C04", "%s: %v after the handshake: %v", what, gap, err)
		}
	}
	checkDelivered("C02,C05", what, k, fs, c)
	bye(p, c)
	mc.Outcome("connected")
}

func init() {
	scen(&Scenario{Name: "c-deadline", Props: []string{"C02", "C15"},
		What:     "the context's deadline, near and far, passed and to come, and when the server answers",
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 64}},
		Fn:       deadlineFn})
	scen(&Scenario{Name: "c-flood", Props: []string{"C15", "C07"},
		What:     "more frames than there is room for arrive at once while the connection ends",
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 128}, {PB: 2, Shards: 128}, {Delay: true, PB: 2, Deep: 4, Shards: 64}},
		Fn:       floodFn})
	scen(&Scenario{Name: "c-lateend", Props: []string{"C07", "C05", "C15"},
		What:     "the connection fails behind any number of messages that the program has not read yet",
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 1, Deep: 1, Shards: 64}, {Delay: true, PB: 2, Shards: 128}},
		Fn:       lateEndFn})
	scen(&Scenario{Name: "c-late", Props: []string{"C03", "C04", "C05", "C06", "C10", "C11"},
		What:     "a long time passes between the calls",
		Quick:    []Bound{{Delay: true, Shards: 16, Steps: 1000000}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 64, Steps: 1000000}},
		Fn:       lateFn})
}
