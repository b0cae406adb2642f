package main

import (
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// ---------------------------------------------------------------- E01

// lib is a program using the client library, connected to the server over a
// pipe. Every frame on the wire is compared with the specification of the
// broker, and what the library tells the program with the frames.
type lib struct {
	v    *srv
	name string
	ver  stomp.Version
	w    *scli // the wire, seen from the server
	up   Decoder
	c    *stomp.Conn
	subs []*lsub
	tx   map[string]*stomp.Transaction
	gone bool
	opts []Opt
	// receipts asked for by UNSUBSCRIBE frames
	unsub map[string]string
}

type lsub struct {
	s    *stomp.Subscription
	k    *consumer
	from int // frames received before
	over bool
	next int // to acknowledge
}

func (l *lib) fail(format string, a ...any) {
	viol("E01", l.name+": "+format, a...)
}

func (l *lib) connect() {
	c := &scli{v: l.v, mids: map[string]bool{}, ver: string(l.ver)}
	c.e, c.far = mc.NewPipe(fmt.Sprintf("server side of %s", l.name), l.name)
	c.far.Name = l.name
	c.e.React = c.react
	c.i = l.v.b.connect(c)
	l.v.cl = append(l.v.cl, c)
	l.unsub = map[string]string{}
	l.w, l.up, l.subs, l.tx, l.gone = c, Decoder{}, nil, map[string]*stomp.Transaction{}, false
	c.far.React = func(p []byte) {
		for _, f := range l.up.Feed(p) {
			if f != nil {
				if f.Cmd == "UNSUBSCRIBE" {
					l.unsub[f.Get("id")] = f.Get("receipt")
				}
				l.v.b.input(c.i, f)
			}
		}
		if l.up.err != nil {
			viol("E01,F01,C03", "the library wrote something that is not a frame: %v", l.up.err)
		}
	}
	c.far.OnClose = func() { l.v.b.eof(c.i, true) }
	mc.Send(l.v.l.ch, accepted{c: c.e})
	opts := append([]Opt{stomp.ConnOpt.Logger(nolog{}), stomp.ConnOpt.AcceptVersion(l.ver)}, l.opts...)
	conn, err := stomp.Connect(c.far, opts...)
	if err != nil {
		l.fail("cannot connect: %v", err)
	}
	if conn.Version() != l.ver {
		l.fail("version %v", conn.Version())
	}
	l.c = conn
}

// messages are the frames received for a subscription, and how many of them
// the program is to get at least.
func (l *lib) messages(u *lsub) (out []*F, least int) {
	over := false
	defer func() {
		if !over {
			least = len(out)
		}
		if l.gone {
			least = 0
		}
	}()
	for _, f := range l.w.in[u.from:] {
		if f != nil && f.Cmd == "RECEIPT" && f.Get("receipt-id") == l.unsub[u.s.Id()] && !over {
			over, least = true, len(out)
		}
		if f != nil && f.Cmd == "MESSAGE" && f.Get("subscription") == u.s.Id() {
			out = append(out, f)
		}
	}
	return
}

// check compares, with everything idle, what the program has got with the
// wire.
func (l *lib) check(where string) {
	for _, u := range l.subs {
		want, least := l.messages(u)
		if len(u.k.msgs) > len(want) || len(u.k.msgs) < least {
			l.fail("%s: %d messages received, %d arrived", where, len(u.k.msgs), len(want))
		}
		for i, m := range u.k.msgs {
			if s := sameMsg(m, want[i], l.c, u.s); s != "" {
				l.fail("%s: message %v is delivered as: %s", where, want[i], s)
			}
		}
		if len(u.k.errs) > 0 && !l.gone {
			l.fail("%s: error on a subscription: %v", where, u.k.errs[0].Err)
		}
		if u.k.closed != (u.over || l.gone) || u.s.Active() == (u.over || l.gone) {
			l.fail("%s: subscription closed %v, active %v", where, u.k.closed, u.s.Active())
		}
	}
}

func (l *lib) ok(what string, err error) {
	mc.Trace("%s: %s: %v", l.name, what, err)
	if err != nil {
		l.fail("%s: %v", what, err)
	}
}

func (l *lib) body() []byte { l.v.next++; return []byte(fmt.Sprint("m", l.v.next)) }

func (l *lib) subscribe(dest string, ack stomp.AckMode) {
	n := len(l.w.in)
	s, err := l.c.Subscribe(dest, ack, stomp.SubscribeOpt.Header("x-k", "v"))
	l.ok("Subscribe", err)
	u := &lsub{s: s, from: n}
	u.k = consume(s, nil)
	l.subs = append(l.subs, u)
}

// pick is the latest active (or else ended) subscription of a kind.
func (l *lib) pick(f func(u *lsub) bool) *lsub {
	for i := len(l.subs) - 1; i >= 0; i-- {
		if f(l.subs[i]) {
			return l.subs[i]
		}
	}
	return nil
}

// unacked is the first message not acknowledged.
func (l *lib) unacked() *stomp.Message {
	for _, u := range l.subs {
		if u.s.AckMode() != stomp.AckAuto && u.next < len(u.k.msgs) {
			u.next++
			return u.k.msgs[u.next-1]
		}
	}
	return nil
}

type eop struct {
	name string
	who  int
	do   func(l *lib)
}

func eoSend(who int, dest string, receipt bool) eop {
	return eop{fmt.Sprintf("%d sends to %s, receipt %v", who, dest, receipt), who, func(l *lib) {
		opts := []func(*frame.Frame) error{stomp.SendOpt.Header("k:1", "v\n")}
		if receipt {
			opts = append(opts, stomp.SendOpt.Receipt)
		}
		l.ok("Send", l.c.Send(dest, "text/plain", l.body(), opts...))
	}}
}

func eoTx(who int, what string) eop {
	return eop{fmt.Sprintf("%d tx %s", who, what), who, func(l *lib) {
		t := l.tx["t"]
		if t == nil && what != "begin" {
			return
		}
		switch what {
		case "begin":
			var err error
			if l.tx["t"], err = l.c.BeginWithError(); err != nil {
				l.ok("Begin", err)
			}
		case "send":
			l.ok("tx Send", t.Send("/queue/a", "", l.body()))
		case "ack", "nack":
			m := l.unacked()
			if m == nil {
				return
			}
			if what == "ack" {
				l.ok("tx Ack", t.Ack(m))
			} else {
				l.ok("tx Nack", t.Nack(m))
			}
		case "commit":
			l.ok("Commit", t.CommitWithReceipt())
			l.tx["t"] = nil
		case "abort":
			l.ok("Abort", t.AbortWithReceipt())
			l.tx["t"] = nil
		}
	}}
}

func eoSub(who int, dest string, ack stomp.AckMode) eop {
	return eop{fmt.Sprintf("%d subscribes to %s, %v", who, dest, ack), who, func(l *lib) { l.subscribe(dest, ack) }}
}

func eoUnsub(who int) eop {
	return eop{fmt.Sprintf("%d unsubscribes", who), who, func(l *lib) {
		if u := l.pick(func(u *lsub) bool { return !u.over }); u != nil {
			l.ok("Unsubscribe", u.s.Unsubscribe())
			u.over = true
		}
	}}
}

func eoAck(who int, ack bool) eop {
	return eop{fmt.Sprintf("%d acknowledges %v", who, ack), who, func(l *lib) {
		if m := l.unacked(); m != nil {
			if ack {
				l.ok("Ack", l.c.Ack(m))
			} else {
				l.ok("Nack", l.c.Nack(m))
			}
		}
	}}
}

func eoEnd(who int, must bool) eop {
	return eop{fmt.Sprintf("%d disconnects, forced %v", who, must), who, func(l *lib) {
		l.gone = true
		if must {
			l.ok("MustDisconnect", l.c.MustDisconnect())
		} else {
			l.ok("Disconnect", l.c.Disconnect())
		}
		l.v.idle("disconnected")
		l.check("disconnected")
		if !l.w.e.Closed() || !l.w.far.Closed() {
			l.fail("the connection is still open")
		}
		l.connect()
	}}
}

var eops = []eop{
	eoSend(0, "/queue/a", true),
	eoSend(0, "/topic/a", false),
	eoSub(1, "/queue/a", stomp.AckAuto),
	eoSub(1, "/queue/a", stomp.AckClient),
	eoSub(1, "/queue/a", stomp.AckClientIndividual),
	eoSub(1, "/topic/a", stomp.AckClient),
	eoUnsub(1),
	eoAck(1, true),
	eoAck(1, false),
	eoEnd(1, false),
	eoEnd(1, true),
	eoTx(0, "begin"),
	eoTx(0, "send"),
	eoTx(0, "commit"),
	eoTx(0, "abort"),
	eoTx(1, "begin"),
	eoTx(1, "ack"),
	eoTx(1, "nack"),
	eoTx(1, "commit"),
}

var epre = [][]eop{
	nil,
	{eoSub(1, "/queue/a", stomp.AckClient), eoSend(0, "/queue/a", false), eoSend(0, "/queue/a", true)},
	{eoSub(1, "/queue/a", stomp.AckClientIndividual), eoSub(1, "/topic/a", stomp.AckClientIndividual), eoSend(0, "/queue/a", false), eoSend(0, "/topic/a", true), eoTx(1, "begin"), eoTx(1, "ack"), eoTx(0, "begin"), eoTx(0, "send")},
}

var evers = [][2]stomp.Version{{stomp.V12, stomp.V12}, {stomp.V11, stomp.V11}, {stomp.V11, stomp.V12}}

func newLibs(vers [2]stomp.Version) (*srv, []*lib) {
	v := newSrv()
	v.b.extra = "E01"
	ls := []*lib{{v: v, name: "program 0", ver: vers[0]}, {v: v, name: "program 1", ver: vers[1]}}
	for _, l := range ls {
		l.connect()
	}
	v.idle("connected")
	return v, ls
}

// e2eFn: every sequence of operations of two programs.
func e2eFn(deep int) {
	k := mc.Choose(len(epre) * len(evers) * len(eops))
	pre, k := epre[k%len(epre)], k/len(epre)
	vers, k := evers[k%len(evers)], k/len(evers)
	v, ls := newLibs(vers)
	run := func(o eop) {
		mc.Trace("-- %s", o.name)
		o.do(ls[o.who])
		v.idle(o.name)
		for _, l := range ls {
			l.check(o.name)
		}
	}
	for _, o := range pre {
		run(o)
	}
	for i := 0; i < deep; i++ {
		if i > 0 {
			k = mc.Choose(len(eops))
		}
		run(eops[k])
	}
	for _, l := range ls {
		l.gone = true
		l.ok("Disconnect", l.c.Disconnect())
	}
	v.idle("all have disconnected")
	for _, l := range ls {
		l.check("all have disconnected")
	}
	v.finish("/queue/a")
	mc.Outcome("done")
}

// e2eConcFn: programs doing things at the same time.
func e2eConcFn(deep int) {
	k := mc.Choose(len(eProd) * len(eCons) * 2)
	p, k := eProd[k%len(eProd)], k/len(eProd)
	c, k := eCons[k%len(eCons)], k/len(eCons)
	v, ls := newLibs(evers[k])
	mc.Trace("-- %s, %s", p.name, c.name)
	if strings.HasPrefix(c.name, "subscribed") {
		ls[1].subscribe("/queue/a", stomp.AckClient)
		ls[1].subscribe("/topic/a", stomp.AckAuto)
		ls[0].ok("Send", ls[0].c.Send("/queue/a", "", ls[0].body(), stomp.SendOpt.Receipt))
		v.idle("subscribed")
	}
	var g group
	g.Go("producer", func() { p.do(ls[0]) })
	g.Go("consumer", func() { c.do(ls[1]) })
	g.Wait()
	v.idle("in the end")
	for _, l := range ls {
		l.check("in the end")
	}
	for _, l := range ls {
		if !l.gone {
			l.gone = true
			l.ok("Disconnect", l.c.Disconnect())
		}
	}
	v.idle("all have disconnected")
	v.finish("/queue/a")
	mc.Outcome(p.name + " | " + c.name)
}

var eProd = []eop{
	{"sends", 0, func(l *lib) {
		l.ok("Send", l.c.Send("/queue/a", "", l.body(), stomp.SendOpt.Receipt))
		l.ok("Send", l.c.Send("/topic/a", "", l.body()))
	}},
	{"sends from two goroutines", 0, func(l *lib) {
		var g group
		g.Go("a", func() { l.ok("Send", l.c.Send("/queue/a", "", l.body(), stomp.SendOpt.Receipt)) })
		l.ok("Send", l.c.Send("/queue/a", "", l.body(), stomp.SendOpt.Receipt))
		g.Wait()
	}},
	{"transaction", 0, func(l *lib) {
		t := l.c.Begin()
		l.ok("tx Send", t.Send("/queue/a", "", l.body()))
		l.ok("tx Send", t.Send("/topic/a", "", l.body()))
		l.ok("Commit", t.CommitWithReceipt())
	}},
	{"sends, disconnects", 0, func(l *lib) {
		l.ok("Send", l.c.Send("/queue/a", "", l.body()))
		l.gone = true
		l.ok("Disconnect", l.c.Disconnect())
	}},
}

var eCons = []eop{
	{"subscribes", 1, func(l *lib) { l.subscribe("/queue/a", stomp.AckAuto) }},
	{"subscribes, unsubscribes", 1, func(l *lib) {
		l.subscribe("/queue/a", stomp.AckClient)
		l.ok("Unsubscribe", l.subs[0].s.Unsubscribe())
		l.subs[0].over = true
	}},
	{"subscribes, disconnects", 1, func(l *lib) {
		l.subscribe("/topic/a", stomp.AckAuto)
		l.subscribe("/queue/a", stomp.AckClient)
		l.gone = true
		l.ok("Disconnect", l.c.Disconnect())
	}},
	{"subscribed, acknowledges", 1, func(l *lib) { l.ok("Ack", l.c.Ack(l.unacked())) }},
	{"subscribed, rejects", 1, func(l *lib) { l.ok("Nack", l.c.Nack(l.unacked())) }},
	{"subscribed, acknowledges, unsubscribes", 1, func(l *lib) {
		l.ok("Ack", l.c.Ack(l.unacked()))
		l.ok("Unsubscribe", l.subs[0].s.Unsubscribe())
		l.subs[0].over = true
	}},
	{"subscribed, unsubscribes both", 1, func(l *lib) {
		for _, u := range l.subs {
			l.ok("Unsubscribe", u.s.Unsubscribe())
			u.over = true
		}
	}},
	{"subscribed, disconnects", 1, func(l *lib) {
		l.gone = true
		l.ok("Disconnect", l.c.Disconnect())
	}},
	{"subscribed, disconnects by force", 1, func(l *lib) {
		l.gone = true
		l.ok("MustDisconnect", l.c.MustDisconnect())
	}},
}

// e2eHbFn: both sides with heart-beats; none is ever dropped.
func e2eHbFn(deep int) {
	vals := []time.Duration{0, time.Second, 20 * time.Second, 100 * time.Second}
	send, recv := vals[mc.Choose(len(vals))], vals[mc.Choose(len(vals))]
	v := newSrv()
	v.b.extra = "E01"
	l := &lib{v: v, name: "program", ver: stomp.V12, opts: []Opt{stomp.ConnOpt.HeartBeat(send, recv)}}
	l.connect()
	l.subscribe("/topic/a", stomp.AckAuto)
	for i := 0; i < 4; i++ {
		mc.Sleep(3 * time.Minute)
		v.idle("time passes")
		l.check("time passes")
		if i == 1 {
			l.ok("Send", l.c.Send("/topic/a", "", l.body()))
		}
	}
	l.gone = true
	l.ok("Disconnect", l.c.Disconnect())
	v.idle("disconnected")
	mc.Outcome("done")
}

func init() {
	scen(&Scenario{Name: "e-seq", Props: []string{"E01"},
		What:  "every sequence of operations of two programs using the library against the server",
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Deep: 2, Only: "S15"}, {Delay: true, Deep: 3, Shards: 32}}, Thorough: []Bound{{Delay: true, PB: 0, Race: true, Shards: 128, Deep: 3, Only: "S15"}, {Delay: true, Deep: 4, Shards: 171}, {Delay: true, PB: 1, Deep: 2, Shards: 64}},
		Fn: e2eFn})
	scen(&Scenario{Name: "e-conc", Props: []string{"E01"},
		What:     "two programs using the library against the server at the same time",
		Quick:    []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "S15"}, {Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 128, Only: "S15"}, {Delay: true, PB: 2, Shards: 72}, {Delay: true, PB: 3, Shards: 72}},
		Fn:       e2eConcFn})
	scen(&Scenario{Name: "e-hb", Props: []string{"E01", "S10", "C12"},
		What:  "library and server with every combination of heart-beat intervals",
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Deep: 0, Only: "S15"}, {Delay: true, Shards: 4}}, Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 128, Deep: 0, Only: "S15"}, {Delay: true, PB: 1, Shards: 16}},
		Fn: e2eHbFn})
}
