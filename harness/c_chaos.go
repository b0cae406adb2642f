package main

import (
	"errors"
	"fmt"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
)

// Two goroutines and the server act on one connection in every combination of
// one operation each; whatever happens nobody may panic or hang, and once the
// connection has ended everything it started must end.

// consumer reads a subscription's channel until it is closed.
type consumer struct {
	sub    *stomp.Subscription
	msgs   []*stomp.Message
	errs   []*stomp.Message
	closed bool
	late   bool // something after the error
}

func consume(sub *stomp.Subscription, on func(m *stomp.Message)) *consumer {
	k := &consumer{sub: sub}
	mc.Go("consumer", func() {
		for {
			m, ok := mc.Recv2(sub.C)
			if !ok {
				k.closed = true
				return
			}
			if len(k.errs) > 0 {
				k.late = true
			}
			if m.Err != nil {
				k.errs = append(k.errs, m)
			} else {
				k.msgs = append(k.msgs, m)
				if on != nil {
					on(m)
				}
			}
		}
	})
	return k
}

const (
	opSend = iota
	opSendReceipt
	opSubscribe
	opUnsubscribe
	opAck
	opTx
	opDisconnect
	opMust
	opUnsub2
	nOps
)

var opNames = []string{"send", "send+receipt", "subscribe", "unsubscribe", "ack", "tx", "disconnect", "mustdisconnect", "unsubscribe2"}

const (
	evNone = iota
	evError
	evEOF
	evMessage
	evWriteFail
	evNoReceipts
	evCloseErr
	evCloseErrEOF
	nEvs
)

var evNames = []string{"nothing", "ERROR", "EOF", "MESSAGE", "write failure", "no receipts", "closing reports an error", "EOF, closing reports an error"}

type world struct {
	p            *Peer
	c            *stomp.Conn
	sub0         *stomp.Subscription
	cons         []*consumer
	msg0         *stomp.Message
	ended        bool // something ended the connection
	res          []string
	two          bool
	unsubTimeout bool
}

func chaosSetup(opts ...Opt) *world {
	w := &world{p: newPeer()}
	p := w.p
	p.On = func(p *Peer, f *F) bool {
		if f.Cmd == "SUBSCRIBE" && f.Get("destination") == "/q0" {
			p.Reply(fr("MESSAGE", "destination", "/q0", "subscription", f.Get("id"), "message-id", "m0", "ack", "a0").body("x"))
		}
		return false
	}
	w.c = p.dial(opts...)
	sub, err := w.c.Subscribe("/q0", stomp.AckClient)
	if err != nil {
		viol("*", "subscribe: %v", err)
	}
	w.sub0 = sub
	m, ok := mc.Recv2(sub.C)
	if !ok || m.Err != nil {
		viol("C05,C09", "first message not delivered")
	}
	w.msg0 = m
	w.cons = append(w.cons, consume(sub, nil))
	return w
}

func (w *world) do(op int) {
	var r string
	switch op {
	case opSend:
		r = errStr(w.c.Send("/d", "", []byte("p")))
	case opSendReceipt:
		r = errStr(w.c.Send("/d", "", []byte("p"), stomp.SendOpt.Receipt))
	case opSubscribe:
		s, err := w.c.Subscribe("/t", stomp.AckAuto)
		if err == nil {
			w.cons = append(w.cons, consume(s, nil))
		}
		r = errStr(err)
	case opUnsubscribe, opUnsub2:
		err := w.sub0.Unsubscribe()
		if errors.Is(err, &stomp.ErrUnsubscribeReceiptTimeout) {
			w.unsubTimeout = true
		}
		r = errStr(err)
	case opAck:
		r = errStr(w.c.Ack(w.msg0))
	case opTx:
		tx, err := w.c.BeginWithError()
		if err == nil {
			err = tx.Send("/d", "", []byte("t"))
		}
		if err == nil {
			err = tx.Commit()
		}
		r = errStr(err)
	case opDisconnect:
		err := w.c.Disconnect()
		r = errStr(err)
		if err != nil && w.two {
			// a failed graceful disconnect is followed by a forced one
			w.c.MustDisconnect()
		}
	case opMust:
		r = errStr(w.c.MustDisconnect())
	}
	w.res = append(w.res, opNames[op]+"="+r)
}

// finish ends the connection and checks that nothing is left.
func (w *world) finish() {
	p := w.p
	// the end: a disconnect must return, and then nothing may be left
	w.c.MustDisconnect()
	mc.Quiet()
	for _, k := range w.cons {
		if !k.closed {
			viol("C06,C07,C08,C09,C15", "connection over, but the channel of subscription %s is still open", k.sub.Id())
		}
		if w.unsubTimeout && k.sub == w.sub0 {
			// told about the timeout, and about the end
			continue
		}
		if k.late {
			viol("C07,C06", "something was delivered after the error message")
		}
		if len(k.errs) > 1 {
			viol("C07", "%d error messages on one subscription", len(k.errs))
		}
	}
	if !p.e.Closed() {
		viol("C07,C08,C15", "the connection has ended but the transport was not closed")
	}
	mc.Sleep(2 * time.Hour)
	mc.Quiet()
	if b := mc.Blocked(); len(b) > 0 {
		viol("C15", "goroutines left behind: %v", b)
	}
	n := len(p.e.Written())
	// afterwards no call hangs or succeeds
	if err := w.c.Send("/d", "", []byte("late")); err == nil {
		viol("C07,C08", "Send after the end reports success")
	}
	if _, err := w.c.Subscribe("/late", stomp.AckAuto); err == nil {
		viol("C07,C08", "Subscribe after the end reports success")
	}
	if err := w.c.Ack(w.msg0); err == nil {
		viol("C07,C08", "Ack after the end reports success")
	}
	if _, err := w.c.BeginWithError(); err == nil {
		viol("C07,C08", "Begin after the end reports success")
	}
	if err := w.sub0.Unsubscribe(); err == nil {
		viol("C07,C08", "Unsubscribe after the end reports success")
	}
	if err := w.c.Disconnect(); err != nil {
		viol("C08,C07", "Disconnect after the end: %v", err)
	}
	if err := w.c.MustDisconnect(); err != nil {
		viol("C08,C07", "MustDisconnect after the end: %v", err)
	}
	mc.Quiet()
	if len(p.e.Written()) != n {
		viol("C08", "something was written after the end")
	}
	if p.e.Closed() && p.dec.Rest() > 0 && false {
		viol("C03", "partial frame")
	}
	for i, f := range p.In {
		if f != nil && f.Cmd == "DISCONNECT" && i != len(p.In)-1 {
			viol("C08", "%s follows DISCONNECT on the wire", p.In[i+1])
		}
	}
}

func chaosFn(ops []int, evs []int) func(int) {
	return func(deep int) {
		n := len(ops)
		k := mc.Choose(n * n * len(evs))
		o1, o2, ev := ops[k%n], ops[k/n%n], evs[k/n/n]
		if o1 > o2 {
			// the two goroutines are symmetric
			return
		}
		w := chaosSetup()
		p := w.p
		w.two = true
		var g group
		if ev == evNoReceipts {
			p.e.Do(func() { p.NoRcpt = true })
		}
		if ev == evCloseErr || ev == evCloseErrEOF {
			// the transport is closed all the same
			p.e.CloseErr = errors.New("close: something went wrong")
		}
		g.Go("A", func() { w.do(o1) })
		g.Go("B", func() { w.do(o2) })
		switch ev {
		case evError:
			g.Go("server", func() {
				p.Send(fr("ERROR", "message", "boom"))
			})
		case evEOF, evCloseErrEOF:
			g.Go("server", func() { p.Cut(nil) })
		case evMessage:
			g.Go("server", func() {
				p.Send(fr("MESSAGE", "destination", "/q0", "subscription", w.sub0.Id(), "message-id", "m1", "ack", "a1").body("y"))
			})
		case evWriteFail:
			g.Go("server", func() { p.e.Do(func() { p.e.BreakWrites() }) })
		}
		g.Wait()
		mc.Outcome(fmt.Sprintf("%s/%s/%s: %v", opNames[o1], opNames[o2], evNames[ev], w.res))
		w.finish()
	}
}

func init() {
	all := []int{opSend, opSendReceipt, opSubscribe, opUnsubscribe, opAck, opTx, opDisconnect, opMust}
	scen(&Scenario{
		Name:     "c-chaos",
		Props:    []string{"C09", "C15", "C07", "C08", "C06"},
		What:     "every pair of concurrent client calls x every server event: nobody hangs or panics, nothing is left behind",
		Fn:       chaosFn(all, []int{evNone, evError, evEOF, evMessage, evWriteFail, evNoReceipts}),
		Quick:    []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 32}, {Delay: true, PB: 3, Shards: 128}, {PB: 0, Shards: 128}},
	})
	scen(&Scenario{
		Name:     "c-closeerr",
		Props:    []string{"C15", "C07", "C08"},
		What:     "every pair of concurrent client calls on a transport that reports an error when it is closed",
		Fn:       chaosFn(all, []int{evCloseErr, evCloseErrEOF}),
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 128}},
	})
}
