package main

import (
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// ---------------------------------------------------------------- C04, C05, C06: names that are nearly the same

var clientIDs = []string{
	"a", "A", "ab", "b", "a ", " a", "a:", "a\n", "a\r", "a\\n", "a\\", "aa", "", "1", "01", "1 ", "+1", "1.0", "11", "-1", "0", "\u00e4", "\u00c4", "a\u0308", "/temp-queue/a", "/temp-queue/A", "/temp-queue/", "/temp-queue/ab",
}

// subNamesFn: two subscriptions are the same only if their identifiers are.
func subNamesFn(deep int) {
	a := clientIDs[mc.Choose(len(clientIDs))]
	b := clientIDs[mc.Choose(len(clientIDs))]
	how := mc.Choose(3) // by Id, the second or both by reply-to (temporary queues)
	if a == b {
		return
	}
	p := newPeer()
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0))
	own := mustSub(c, "/own", stomp.AckAuto)
	if own.Id() == a || own.Id() == b {
		return
	}
	sub := func(id string, temp bool) *stomp.Subscription {
		if temp {
			return mustSub(c, id, stomp.AckAuto, stomp.SubscribeOpt.Header("reply-to", id))
		}
		return mustSub(c, "/d", stomp.AckAuto, stomp.SubscribeOpt.Id(id))
	}
	sa, sb := sub(a, how == 2), sub(b, how >= 1)
	mc.Quiet()
	what := fmt.Sprintf("subscriptions %q and %q", a, b)
	if sa.Id() != a || sb.Id() != b {
		viol("C05", "%s: called %q and %q", what, sa.Id(), sb.Id())
	}
	if how == 0 {
		l := p.In[len(p.In)-2:]
		if l[0].Get("id") != a || l[1].Get("id") != b {
			viol("C03,C05", "%s: asked for %q and %q", what, l[0].Get("id"), l[1].Get("id"))
		}
	}
	ka, kb, ko := consume(sa, nil), consume(sb, nil), consume(own, nil)
	var ma, mb, mo []*F
	msg := func(id string, l *[]*F) {
		m := msgFor(id, "/d", len(ma)+len(mb)+len(mo))
		p.Send(m)
		if l != nil {
			*l = append(*l, m)
		}
	}
	msg(a, &ma)
	msg(b, &mb)
	msg(own.Id(), &mo)
	for _, o := range clientIDs {
		if o != a && o != b && o != own.Id() {
			msg(o, nil)
		}
	}
	msg(b, &mb)
	msg(a, &ma)
	mc.Quiet()
	check := func() {
		checkDelivered("C05", fmt.Sprintf("%s: the first", what), ka, ma, c)
		checkDelivered("C05", fmt.Sprintf("%s: the second", what), kb, mb, c)
		checkDelivered("C05", fmt.Sprintf("%s: another", what), ko, mo, c)
	}
	check()
	if err := sa.Unsubscribe(); err != nil {
		viol("C06", "%s: Unsubscribe: %v", what, err)
	}
	mc.Quiet()
	if !ka.closed || kb.closed || ko.closed || sa.Active() || !sb.Active() {
		viol("C05,C06", "%s: after Unsubscribe of the first: closed %v and %v, active %v and %v", what, ka.closed, kb.closed, sa.Active(), sb.Active())
	}
	msg(a, nil)
	msg(b, &mb)
	msg(own.Id(), &mo)
	mc.Quiet()
	check()
	bye(p, c)
	if !kb.closed || len(ka.errs) > 0 {
		viol("C07,C08", "%s: after Disconnect: closed %v, errors of the first %d", what, kb.closed, len(ka.errs))
	}
	mc.Outcome(fmt.Sprint(how, len(ma), len(mb)))
}

// rcptNamesFn: a RECEIPT answers the call that asked for it, and no other.
func rcptNamesFn(deep int) {
	call := mc.Choose(3) // Send, Unsubscribe, Disconnect
	id := ""
	if call == 1 {
		id = clientIDs[mc.Choose(len(clientIDs))]
	}
	alter := []func(string) string{
		func(r string) string { return r + " " }, func(r string) string { return " " + r }, func(r string) string { return "0" + r },
		func(r string) string { return r + "0" }, func(r string) string { return "+" + r }, func(r string) string { return r + ".0" },
		func(r string) string { return r[:len(r)/2] }, func(r string) string { return r + r }, strings.ToUpper, strings.ToLower,
		func(r string) string { return r + "\n" }, func(r string) string { return r + "\x00" }, func(r string) string { return "/temp-queue/" + r }, func(r string) string { return r + ":" }, strings.TrimSpace,
	}
	x := alter[mc.Choose(len(alter))]
	more := mc.Choose(3) // the receipt comes as well: just before the timeout, or not at all
	p := newPeer()
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.RcvReceiptTimeout(10*time.Second), stomp.ConnOpt.UnsubscribeReceiptTimeout(10*time.Second), stomp.ConnOpt.DisconnectReceiptTimeout(10*time.Second))
	var opts []func(*frame.Frame) error
	if call == 1 {
		opts = append(opts, stomp.SubscribeOpt.Id(id))
	}
	sub := mustSub(c, "/s", stomp.AckAuto, opts...)
	mc.Quiet()
	k := consume(sub, nil)
	cmd := []string{"SEND", "UNSUBSCRIBE", "DISCONNECT"}[call]
	same := false
	p.On = func(p *Peer, f *F) bool {
		if f.Cmd != cmd {
			return false
		}
		r := f.Get("receipt")
		if x(r) == r {
			same = true
		}
		p.Send(fr("RECEIPT", "receipt-id", x(r)))
		return true
	}
	if more > 0 {
		mc.Go("server", func() {
			mc.Sleep(10*time.Second - time.Duration(more))
			p.e.Do(func() {
				for _, f := range p.In {
					if f.Cmd == cmd {
						p.Receipt(f)
					}
				}
			})
		})
	}
	t0 := mc.NowNS()
	var err error
	switch call {
	case 0:
		err = c.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt)
	case 1:
		err = sub.Unsubscribe()
	case 2:
		err = c.Disconnect()
	}
	took := time.Duration(mc.NowNS() - t0)
	if !same && (took < 9*time.Second || (err == nil) != (more > 0)) {
		r := ""
		for _, f := range p.Frames() {
			if f.Cmd == cmd {
				r = f.Get("receipt")
			}
		}
		viol("C04", "%s asks for the receipt %q, the server sends %q: returned %v after %v", cmd, r, x(r), errStr(err), took)
	}
	mc.Quiet()
	c.MustDisconnect()
	mc.Sleep(20 * time.Second)
	mc.Quiet()
	if l := leftovers(); len(l) > 0 {
		viol("C15", "goroutines left: %v", l)
	}
	if !k.closed {
		viol("C07,C08", "%s: the subscription is still open at the end", cmd)
	}
	mc.Outcome(fmt.Sprint(cmd, same, errStr(err)))
}

// heldUpFn: a call that waits for its receipt fails at its timeout, whatever
// the connection is busy with meanwhile.
func heldUpFn(deep int) {
	call := mc.Choose(3) // Send, Unsubscribe, Disconnect
	full := mc.Choose(3) // messages behind the one nobody reads
	behind := []int{0, 1, 40}[full]
	rcpt := mc.Choose(3) // the receipt: never, behind the messages, and late
	p := newPeer()
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.RcvReceiptTimeout(10*time.Second), stomp.ConnOpt.UnsubscribeReceiptTimeout(10*time.Second), stomp.ConnOpt.DisconnectReceiptTimeout(10*time.Second), stomp.ConnOpt.ReadChannelCapacity(8))
	slow := mustSub(c, "/slow", stomp.AckAuto)
	sub := mustSub(c, "/s", stomp.AckAuto)
	mc.Quiet()
	cmd := []string{"SEND", "UNSUBSCRIBE", "DISCONNECT"}[call]
	var seen *F
	p.On = func(p *Peer, f *F) bool {
		if f.Cmd != cmd || seen != nil {
			return false
		}
		seen = f
		for i := 0; i < 200+behind; i++ {
			p.Send(msgFor(slow.Id(), "/slow", i))
		}
		if rcpt == 1 {
			p.Receipt(f)
		}
		return true
	}
	t0 := mc.NowNS()
	var err, want error
	switch call {
	case 0:
		err, want = c.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt), stomp.ErrMsgReceiptTimeout
	case 1:
		err, want = sub.Unsubscribe(), &stomp.ErrUnsubscribeReceiptTimeout
	case 2:
		err, want = c.Disconnect(), stomp.ErrDisconnectReceiptTimeout
	}
	took := time.Duration(mc.NowNS() - t0)
	what := fmt.Sprintf("%s while a subscription is not read, %d messages behind, receipt %d", cmd, behind, rcpt)
	if err == nil || err.Error() != want.Error() || took != 10*time.Second {
		viol("C04", "%s: %v after %v", what, errStr(err), took)
	}
	if rcpt == 2 {
		p.e.Do(func() { p.Receipt(seen) })
	}
	k, ks := consume(slow, nil), consume(sub, nil)
	mc.Quiet()
	if call != 2 {
		if len(k.msgs) != 200+behind {
			viol("C05", "%s: %d messages of %d", what, len(k.msgs), 200+behind)
		}
		p.On = nil
		if err := c.Send("/d", "", []byte("y"), stomp.SendOpt.Receipt); err != nil {
			viol("C04,C08", "%s: the next Send: %v", what, err)
		}
	}
	c.MustDisconnect()
	mc.Sleep(time.Minute)
	mc.Quiet()
	if l := leftovers(); len(l) > 0 {
		viol("C15", "%s: goroutines left: %v", what, l)
	}
	if !k.closed || !ks.closed {
		viol("C07,C08", "%s: still open at the end", what)
	}
	mc.Outcome(what)
}

func init() {
	scen(&Scenario{Name: "c-sub-names", Props: []string{"C05", "C06"},
		What:     "pairs of subscriptions of one client with nearly the same identifiers, and messages for others",
		Fn:       subNamesFn,
		Quick:    []Bound{{Delay: true, Shards: 8}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}}})
	scen(&Scenario{Name: "c-rcpt-names", Props: []string{"C04"},
		What:     "RECEIPTs with nearly the identifier that was asked for",
		Fn:       rcptNamesFn,
		Quick:    []Bound{{Delay: true, Shards: 4}},
		Thorough: []Bound{{Delay: true, PB: 1, TimeDev: true, Shards: 32}}})
	scen(&Scenario{Name: "c-heldup", Props: []string{"C04", "C05", "C15"},
		What:     "calls that wait for a receipt while a subscription is not read and frames wait behind it",
		Fn:       heldUpFn,
		Quick:    []Bound{{Delay: true, Shards: 4}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 32}}})
}
