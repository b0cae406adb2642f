package main

import (
	"errors"
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
)

// ---------------------------------------------------------------- C07

const (
	fwSend = iota // Send with receipt
	fwCommit
	fwTxSend
	fwUnsub
	fwRead
	fwDisc
	fwNone
	nFw
)

var fwNames = []string{"Send+receipt", "CommitWithReceipt", "Transaction.Send+receipt", "Unsubscribe", "Read", "Disconnect", "nothing"}

const (
	fkError = iota
	fkErrorEOF
	fkErrorBare
	fkEOF
	fkReset
	fkTimeout
	fkPartial
	fkGarbage
	fkBadReceipt
	fkWrite
	fkHbWrite
	fkErrorRcpt // about the request of the first, or of somebody unknown
	nFk
)

var fkNames = []string{"ERROR", "ERROR and EOF", "ERROR without message", "EOF", "reset", "silence", "part of a frame and EOF", "garbage", "RECEIPT without id", "write failure", "write failure of a heart-beat", "ERROR with receipt-id"}

func failFn(early bool) func(int) {
	return func(deep int) {
		n := nFw * nFw * nFk
		k := mc.Choose(n)
		wt := [2]int{k % nFw, k / nFw % nFw}
		kind := k / nFw / nFw
		if wt[0] > wt[1] || wt[0] == fwNone {
			return
		}
		withID := kind == fkErrorRcpt
		what := fmt.Sprintf("%s next to %s, then %s", fwNames[wt[0]], fwNames[wt[1]], fkNames[kind])
		if withID {
			kind = fkError
		}
		if wt[0] == fwSend && wt[1] == fwSend && kind == fkTimeout {
			// the second waits for the first
			_ = 0
		}
		p := newPeer()
		opts := []Opt{stomp.ConnOpt.ReadChannelCapacity(1), stomp.ConnOpt.WriteChannelCapacity(1), stomp.ConnOpt.HeartBeat(0, 0)}
		if kind == fkTimeout {
			p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "10000,0")
			opts = append(opts, stomp.ConnOpt.HeartBeat(0, 10*time.Second), stomp.ConnOpt.HeartBeatError(time.Second), stomp.ConnOpt.HeartBeatGracePeriodMultiplier(1))
		}
		if kind == fkHbWrite {
			p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "0,10000")
			opts = append(opts, stomp.ConnOpt.HeartBeat(10*time.Second, 0))
		}
		c := p.dial(opts...)
		sub, err := c.Subscribe("/s", stomp.AckAuto)
		var subs [4]*stomp.Subscription
		for i := range subs {
			if err == nil {
				subs[i], err = c.Subscribe(fmt.Sprint("/s", i), stomp.AckAuto)
			}
		}
		if err != nil {
			viol("*", "subscribe: %v", err)
		}
		idle := []*consumer{consume(sub, nil)}
		txs := [2]*stomp.Transaction{}
		for i := 0; i < 2; i++ {
			if wt[i] == fwCommit || wt[i] == fwTxSend {
				txs[i] = c.Begin()
			}
			if wt[i] == fwUnsub {
				idle = append(idle, consume(subs[i], nil))
			}
		}
		mc.Quiet()
		p.NoRcpt = true
		reached := [2]bool{} // the request was on the wire when it failed
		rcpt := [2]string{}
		p.On = func(p *Peer, f *F) bool {
			for i := 0; i < 2; i++ {
				switch {
				case wt[i] == fwSend && f.Get("destination") == fmt.Sprint("/w", i),
					wt[i] == fwTxSend && f.Get("destination") == fmt.Sprint("/w", i),
					wt[i] == fwCommit && f.Cmd == "COMMIT" && f.Get("transaction") == txs[i].Id(),
					wt[i] == fwUnsub && f.Cmd == "UNSUBSCRIBE" && f.Get("id") == subs[i].Id(),
					wt[i] == fwDisc && f.Cmd == "DISCONNECT":
					reached[i] = true
					rcpt[i] = f.Get("receipt")
				}
			}
			return false
		}
		var res [2]error
		var done [2]bool
		var at [2]int64
		var g group
		for i := 0; i < 2; i++ {
			i := i
			if wt[i] == fwNone {
				done[i] = true
				continue
			}
			g.Go("ab"[i:i+1], func() {
				var err error
				switch wt[i] {
				case fwSend:
					err = c.Send(fmt.Sprint("/w", i), "", []byte("x"), stomp.SendOpt.Receipt)
				case fwTxSend:
					err = txs[i].Send(fmt.Sprint("/w", i), "", []byte("x"), stomp.SendOpt.Receipt)
				case fwCommit:
					err = txs[i].CommitWithReceipt()
				case fwUnsub:
					err = subs[i].Unsubscribe()
				case fwRead:
					_, err = subs[i+2].Read()
				case fwDisc:
					err = c.Disconnect()
				}
				res[i], at[i], done[i] = err, mc.NowNS(), true
			})
		}
		if !early {
			mc.Quiet()
			for i := 0; i < 2; i++ {
				if done[i] && wt[i] != fwNone {
					viol("C04,C06,C07", "%s returned %v although nothing was answered", fwNames[wt[i]], errStr(res[i]))
				}
			}
		}
		t0 := mc.NowNS()
		var were [2]bool
		fail := func(f func()) {
			p.e.Do(func() {
				were = reached
				f()
			})
		}
		boom := fr("ERROR", "message", "boom", "content-type", "text/plain", "x", "y").body("details")
		switch kind {
		case fkError:
			fail(func() {
				if withID {
					id := rcpt[0]
					if id == "" {
						id = "somebody"
					}
					boom.H = append(boom.H, [2]string{"receipt-id", id})
				}
				p.Reply(boom)
			})
		case fkErrorEOF:
			fail(func() { p.Reply(boom); p.EOF() })
		case fkErrorBare:
			boom = fr("ERROR")
			fail(func() { p.Reply(boom) })
		case fkEOF:
			fail(func() { p.EOF() })
		case fkReset:
			fail(func() { p.dead = true; p.e.InjectEOF(mc.ErrReset); p.e.BreakWrites() })
		case fkTimeout:
			were = reached
		case fkHbWrite:
			fail(func() { p.e.BreakWrites() })
		case fkPartial:
			fail(func() {
				b := enc(msgFor(sub.Id(), "/s", 1))
				p.e.Inject(b[:len(b)-4])
				p.EOF()
			})
		case fkGarbage:
			fail(func() { p.e.Inject([]byte("HELLO WORLD\nfoo\n\n\x00")) })
		case fkBadReceipt:
			fail(func() { p.Reply(fr("RECEIPT", "x", "y")) })
		case fkWrite:
			fail(func() { p.e.BreakWrites() })
			// somebody writes; may be held up by the connection lock
			mc.Go("writer", func() { c.Ack(&stomp.Message{}); txs := c.Begin(); txs.Abort() })
			if wt[0] == fwDisc || wt[0] == fwSend || wt[1] == fwSend || wt[1] == fwDisc {
				// these may hold the lock and nothing tells them, as long
				// as nothing is written
				fail(func() { p.EOF() })
			}
		}
		mc.Outcome(what)
		if kind == fkTimeout || kind == fkHbWrite {
			mc.Sleep(11 * time.Second)
		}
		mc.Quiet()
		for i := 0; i < 2; i++ {
			if !done[i] {
				viol("C07,C09", "%s: %s hangs", what, fwNames[wt[i]])
			}
		}
		g.Wait()
		isErr := kind == fkError || kind == fkErrorEOF
		for i := 0; i < 2; i++ {
			if wt[i] == fwNone {
				continue
			}
			if res[i] == nil {
				if wt[i] == fwDisc && (!were[i] || wt[1-i] == fwDisc && res[1-i] != nil) {
					continue // it came afterwards
				}
				viol("C07", "%s: %s reports success", what, fwNames[wt[i]])
			}
			if d := time.Duration(at[i] - t0); d > 11*time.Second {
				viol("C07", "%s: %s returned after %v", what, fwNames[wt[i]], d)
			}
			if isErr && (were[i] && kind == fkError || kind == fkError && wt[i] == fwRead && !early || !early && were[i]) && res[i].Error() != "boom" {
				viol("C07", "%s: %s returned %q instead of the server's error", what, fwNames[wt[i]], res[i])
			}
		}
		for _, k := range idle {
			if k.late || len(k.errs) > 1 || len(k.msgs) > 0 {
				viol("C07", "%s: subscription %s delivered %d messages and %d errors (%v)", what, k.sub.Id(), len(k.msgs), len(k.errs), k.late)
			}
			if !k.closed {
				viol("C07", "%s: channel of subscription %s is open", what, k.sub.Id())
			}
			if k.sub == sub && len(k.errs) != 1 {
				viol("C07", "%s: an active subscription got %d errors", what, len(k.errs))
			}
			if k.sub.Active() {
				viol("C07", "%s: subscription %s is still active", what, k.sub.Id())
			}
		}
		if m := idle[0].errs[0]; kind == fkError {
			if m.Err.Error() != "boom" || string(m.Body) != "details" || m.ContentType != "text/plain" || fmt.Sprint(hdr(m.Header)) != fmt.Sprint(boom.H) {
				viol("C07", "%s: the error message is %v %v %q", what, m.Err, hdr(m.Header), m.Body)
			}
			var e *stomp.Error
			if !errors.As(m.Err, &e) || e.Frame == nil || e.Frame.Command != "ERROR" || string(e.Frame.Body) != "details" || fmt.Sprint(hdr(e.Frame.Header)) != fmt.Sprint(boom.H) {
				viol("C07", "%s: the error does not hold the server's frame", what)
			}
		}
		// subscriptions nobody read so far: the same, as soon as they are read
		for i, s := range subs {
			if i >= 2 && wt[i-2] == fwRead || i < 2 && wt[i] == fwUnsub {
				continue
			}
			k := consume(s, nil)
			mc.Quiet()
			if len(k.errs) != 1 || len(k.msgs) > 0 || !k.closed || k.late || isErr && !early && kind == fkError && k.errs[0].Err.Error() != "boom" {
				viol("C07", "%s: unread subscription: %d errors, closed %v", what, len(k.errs), k.closed)
			}
		}
		if !p.e.Closed() {
			viol("C07,C15", "%s: the transport is open", what)
		}
		nb := len(p.e.Written())
		later := []struct {
			n  string
			f  func() error
			ok bool
		}{
			{"Send", func() error { return c.Send("/l", "", nil) }, false},
			{"Send with receipt", func() error { return c.Send("/l", "", nil, stomp.SendOpt.Receipt) }, false},
			{"Subscribe", func() error { _, err := c.Subscribe("/l", stomp.AckAuto); return err }, false},
			{"Unsubscribe", func() error { return sub.Unsubscribe() }, false},
			{"Read", func() error { _, err := sub.Read(); return err }, false},
			{"BeginWithError", func() error { _, err := c.BeginWithError(); return err }, false},
			{"Disconnect", func() error { return c.Disconnect() }, true},
			{"MustDisconnect", func() error { return c.MustDisconnect() }, true},
		}
		for i, tx := range txs {
			if tx != nil && !(wt[i] == fwCommit && res[i] == nil) {
				later = append(later, []struct {
					n  string
					f  func() error
					ok bool
				}{
					{"Transaction.Send", func() error { return tx.Send("/l", "", nil) }, false},
					{"Commit", func() error { return tx.Commit() }, false},
					{"AbortWithReceipt", func() error { return tx.AbortWithReceipt() }, false},
				}...)
			}
		}
		t1 := mc.NowNS()
		for _, l := range later {
			if err := l.f(); (err == nil) != l.ok {
				viol("C07,C08", "%s: a later %s returned %v", what, l.n, errStr(err))
			}
		}
		if mc.NowNS() != t1 {
			viol("C07", "%s: later calls wait", what)
		}
		mc.Quiet()
		if len(p.e.Written()) != nb {
			viol("C07,C08", "%s: later calls write", what)
		}
		if l := leftovers(); len(l) > 0 {
			viol("C15,C07", "%s: goroutines left: %v", what, l)
		}
	}
}

// ---------------------------------------------------------------- C08

const (
	drReceipt = iota
	drReceiptEOF
	drNever
	drLate
	drEOF
	drError
	drForeign
	nDr
)

var drNames = []string{"receipt", "receipt and EOF", "no answer", "late receipt", "EOF", "ERROR", "foreign receipt"}

// ops: s send, S send with receipt, u unsubscribe, D Disconnect, M MustDisconnect
func discRun(w *wireState, g, i int, op byte) (err error) {
	name := fmt.Sprintf("%c%d", 'A'+g, i)
	switch op {
	case 's':
		err = w.c.Send("/d/"+name, "", []byte("x"))
	case 'S':
		err = w.c.Send("/d/"+name, "", []byte("x"), stomp.SendOpt.Receipt)
	case 'u':
		err = w.sub.Unsubscribe()
	case 'b':
		_, err = w.c.BeginWithError()
	case 'n':
		_, err = w.c.Subscribe("/d/"+name, stomp.AckAuto)
	case 'D':
		err = w.c.Disconnect()
	case 'M':
		err = w.c.MustDisconnect()
	}
	return err
}

func discSetup(react int) (*wireState, *int64) {
	w := wireSetup(stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.WriteChannelCapacity(2), stomp.ConnOpt.DisconnectReceiptTimeout(20*time.Second))
	rcpt := int64(-1)
	w.p.On = func(p *Peer, f *F) bool {
		if f.Cmd != "DISCONNECT" {
			return false
		}
		switch react {
		case drReceipt, drReceiptEOF:
			p.Receipt(f)
			rcpt = mc.NowNS()
			if react == drReceiptEOF {
				p.EOF()
			}
		case drLate:
			mc.Go("late", func() {
				mc.Sleep(25 * time.Second)
				p.e.Do(func() { p.Receipt(f); rcpt = mc.NowNS() })
			})
		case drEOF:
			p.EOF()
		case drError:
			p.Reply(fr("ERROR", "message", "boom"))
			p.EOF()
		case drForeign:
			p.Reply(fr("RECEIPT", "receipt-id", "x"+f.Get("receipt")))
		}
		return true
	}
	return w, &rcpt
}

// discCheck looks at the wire after everything.
func discCheck(what string, w *wireState, ds int) {
	fs := w.p.Frames()
	n := 0
	for i, f := range fs {
		if f.Cmd == "DISCONNECT" {
			n++
			if f.Get("receipt") == "" {
				viol("C08", "%s: DISCONNECT without a receipt header", what)
			}
			if i != len(fs)-1 {
				viol("C08", "%s: %s follows DISCONNECT", what, fs[i+1])
			}
		}
	}
	if n > 1 {
		viol("C08", "%s: %d DISCONNECT frames", what, n)
	}
	if n > 0 && ds == 0 {
		viol("C08", "%s: DISCONNECT sent by a forced disconnect", what)
	}
}

// one goroutine, all sequences
func discSeqFn(deep int) {
	const alpha = "sSubnDM"
	n := wordCount(alpha, 1, 3+deep)
	k := mc.Choose(n * nDr)
	word, react := nthWord(alpha, 1, k%n), k/n
	if !strings.ContainsAny(word, "DM") {
		return
	}
	w, rcpt := discSetup(react)
	cons := consume(w.sub, nil)
	what := fmt.Sprintf("calls %q, DISCONNECT answered by %s", word, drNames[react])
	ended := false  // a disconnect took effect
	failed := false // or the connection failed
	okBefore := 0   // frames of successful calls before it
	usub := false
	for i := 0; i < len(word); i++ {
		op := word[i]
		t0 := mc.NowNS()
		err := discRun(w, 0, i, op)
		took := time.Duration(mc.NowNS() - t0)
		switch {
		case op == 'D' && ended:
			if err != nil || took != 0 {
				viol("C08", "%s: repeated Disconnect: %v after %v", what, errStr(err), took)
			}
		case op == 'D' && failed:
			// may not have been noticed yet
		case op == 'D':
			switch react {
			case drReceipt, drReceiptEOF:
				if err != nil {
					viol("C08", "%s: Disconnect: %v", what, err)
				}
				ended = true
			case drNever, drLate, drForeign:
				if err != stomp.ErrDisconnectReceiptTimeout || took != 20*time.Second {
					viol("C08", "%s: Disconnect: %v after %v", what, errStr(err), took)
				}
				ended = true
			default:
				if err == nil {
					viol("C08", "%s: Disconnect reports success", what)
				}
				failed = true
			}
			if err == nil && *rcpt < 0 {
				viol("C08", "%s: Disconnect reports success without its receipt", what)
			}
			if !failed && !w.p.e.Closed() {
				viol("C08", "%s: the transport is open after Disconnect", what)
			}
			// all accepted frames are before it
			if fs := w.p.Frames(); len(fs) != okBefore+1 || fs[okBefore].Cmd != "DISCONNECT" {
				viol("C08", "%s: %s on the wire after Disconnect", what, w.p.Cmds())
			}
		case op == 'M':
			if err != nil || took != 0 {
				viol("C08", "%s: MustDisconnect: %v after %v", what, errStr(err), took)
			}
			if !w.p.e.Closed() {
				viol("C08", "%s: the transport is open after MustDisconnect", what)
			}
			ended = true
		case ended:
			if err == nil {
				viol("C08", "%s: call %d reports success after the end", what, i)
			}
			if took != 0 {
				viol("C08", "%s: call %d took %v after the end", what, i, took)
			}
		case failed:
		case op == 'u' && usub:
			if !errors.Is(err, stomp.ErrCompletedSubscription) {
				viol("C06", "%s: second unsubscribe: %v", what, errStr(err))
			}
		default:
			if err != nil {
				viol("C08,C09", "%s: call %d failed: %v", what, i, err)
			}
			okBefore++
			usub = usub || op == 'u'
		}
	}
	mc.Quiet()
	discCheck(what, w, strings.Count(word, "D"))
	mc.Outcome(what)
	if !w.p.e.Closed() {
		viol("C08,C07", "%s: the transport is open", what)
	}
	if l := leftovers(); len(l) > 0 {
		viol("C15,C08", "%s: goroutines left: %v", what, l)
	}
	if !cons.closed || len(cons.errs) > 1 {
		viol("C08,C06", "%s: subscription channel closed: %v, %d errors", what, cons.closed, len(cons.errs))
	}
}

// two goroutines
func discTwoFn(deep int) {
	words := []string{"D", "M", "sD", "sM", "s", "S", "u", "n", "DD", "DM", "Ds", "Dn", "DS", "Mu"}
	nw := len(words)
	k := mc.Choose(nw * nw * 5)
	wa, wb := words[k%nw], words[k/nw%nw]
	react := []int{drReceipt, drNever, drLate, drError, drReceiptEOF}[k/nw/nw]
	if wa > wb || !strings.ContainsAny(wa+wb, "DM") {
		return
	}
	w, rcpt := discSetup(react)
	cons := consume(w.sub, nil)
	what := fmt.Sprintf("calls %q and %q, DISCONNECT answered by %s", wa, wb, drNames[react])
	var g group
	ended, failed := false, false
	ok := map[string]bool{}
	for gi, word := range []string{wa, wb} {
		gi, word := gi, word
		g.Go("ab"[gi:gi+1], func() {
			for i := 0; i < len(word); i++ {
				before := ended
				err := discRun(w, gi, i, word[i])
				switch {
				case word[i] == 'D' && err == nil:
					if !failed && !ended && *rcpt < 0 {
						viol("C08", "%s: Disconnect reports success without its receipt", what)
					}
					ended = true
				case word[i] == 'D':
					failed = true
					if err == stomp.ErrDisconnectReceiptTimeout {
						if before {
							viol("C08", "%s: a repeated Disconnect fails", what)
						}
						ended = true
					} else if react != drError && !strings.Contains(wa+wb, "M") {
						viol("C08", "%s: Disconnect: %v", what, err)
					}
				case word[i] == 'M':
					if err != nil {
						viol("C08", "%s: MustDisconnect: %v", what, err)
					}
					ended, failed = true, true
				case before && err == nil:
					viol("C08", "%s: %c reports success after the end", what, word[i])
				case err == nil && (word[i] == 's' || word[i] == 'S'):
					ok[fmt.Sprintf("/d/%c%d", 'A'+gi, i)] = true
				}
			}
		})
	}
	g.Wait()
	mc.Quiet()
	discCheck(what, w, strings.Count(wa+wb, "D"))
	if !failed {
		// graceful: nothing that was accepted is missing
		for _, f := range w.p.Frames() {
			delete(ok, f.Get("destination"))
		}
		if len(ok) > 0 {
			viol("C08,C03", "%s: frames missing: %v", what, ok)
		}
	}
	mc.Outcome(what + fmt.Sprint(len(w.p.Frames())))
	if !w.p.e.Closed() {
		viol("C08,C07", "%s: the transport is open", what)
	}
	if l := leftovers(); len(l) > 0 {
		viol("C15,C08", "%s: goroutines left: %v", what, l)
	}
	if !cons.closed || len(cons.errs) > 1 {
		viol("C08,C06", "%s: subscription channel closed: %v, %d errors", what, cons.closed, len(cons.errs))
	}
}

func init() {
	scen(&Scenario{
		Name:     "c-fail",
		Props:    []string{"C07", "C15"},
		What:     "every pair of waiting calls against every way a connection fails",
		Fn:       failFn(false),
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 128}, {PB: 0, Shards: 128}},
	})
	scen(&Scenario{
		Name:     "c-fail-early",
		Props:    []string{"C07", "C09"},
		What:     "the same with the failure at any moment of the calls",
		Fn:       failFn(true),
		Quick:    []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 1, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 128}},
	})
	scen(&Scenario{
		Name:     "c-disc",
		Props:    []string{"C08"},
		What:     "every sequence of sends, unsubscribes and disconnects of both kinds against every answer to DISCONNECT",
		Fn:       discSeqFn,
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 128}, {Delay: true, PB: 1, Shards: 128, Deep: 1}},
	})
	scen(&Scenario{
		Name:     "c-disc-two",
		Props:    []string{"C08", "C15"},
		What:     "two goroutines with calls and disconnects",
		Fn:       discTwoFn,
		Quick:    []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 1, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 128}, {Delay: true, PB: 3, Shards: 128}},
	})
}
