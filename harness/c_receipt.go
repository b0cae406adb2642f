package main

import (
	"errors"
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
)

// Scripts: what the server does once it has seen the frame that asks for a
// receipt. One letter each:
//
//	o  the RECEIPT asked for
//	x  a RECEIPT nobody asked for
//	m  a MESSAGE for the subscription
//	h  a heart-beat
//	e  ERROR
//	z  the end of the stream
//	S  longer than every timeout passes
//	s  a second passes
const scriptAlpha = "oxmhS"

type scripted struct {
	w        *wireState
	script   string
	cmd      string // frame that triggers it
	seen     *F
	receipt  string
	failed   bool // an error or the end of the stream came first
	ownAt    int64
	msgs     int
	segments []string
}

const longTime = 40 * time.Second

// start makes the peer follow the script from frame cmd on.
func (s *scripted) start() {
	p := s.w.p
	s.ownAt = -1
	segs := []struct {
		at time.Duration
		ev string
	}{{0, ""}}
	for _, ch := range s.script {
		last := segs[len(segs)-1]
		switch ch {
		case 'S':
			segs = append(segs, struct {
				at time.Duration
				ev string
			}{last.at + longTime, ""})
		case 's':
			segs = append(segs, struct {
				at time.Duration
				ev string
			}{last.at + time.Second, ""})
		default:
			segs[len(segs)-1].ev += string(ch)
		}
	}
	p.On = func(p *Peer, f *F) bool {
		if f.Cmd != s.cmd || s.seen != nil {
			return false
		}
		s.seen = f
		s.receipt = f.Get("receipt")
		s.play(segs[0].ev)
		return true
	}
	if len(segs) > 1 {
		t0 := mc.NowNS()
		mc.Go("server", func() {
			for _, sg := range segs[1:] {
				mc.Sleep(time.Duration(t0 + int64(sg.at) - mc.NowNS()))
				ev := sg.ev
				p.e.Do(func() { s.play(ev) })
			}
		})
	}
}

func (s *scripted) play(ev string) {
	p := s.w.p
	for _, ch := range ev {
		switch ch {
		case 'o':
			if s.ownAt < 0 && !s.failed {
				s.ownAt = mc.NowNS()
			}
			p.Reply(fr("RECEIPT", "receipt-id", s.receipt))
		case 'x':
			p.Reply(fr("RECEIPT", "receipt-id", "nobody"))
		case 'm':
			s.msgs++
			p.Reply(fr("MESSAGE", "destination", "/s", "subscription", s.w.sub.Id(), "message-id", fmt.Sprint("x", s.msgs), "ack", "a"))
		case 'h':
			p.Reply(nil)
		case 'e':
			s.failed = true
			p.Reply(fr("ERROR", "message", "boom"))
			p.EOF()
		case 'z':
			s.failed = true
			p.EOF()
		}
	}
}

const (
	rcSend = iota
	rcCommit
	rcAbort
	rcDisconnect
	rcTxSend
	nRc
)

var rcNames = []string{"Send", "CommitWithReceipt", "AbortWithReceipt", "Disconnect", "Transaction.Send with a receipt"}

// receiptFn: one call and every script.
func receiptFn(alpha string, max func(int) int) func(int) {
	return func(deep int) {
		hi := max(deep)
		n := wordCount(alpha, 0, hi)
		k := mc.Choose(n * nRc)
		kind := k % nRc
		script := nthWord(alpha, 0, k/nRc)
		if (kind == rcCommit || kind == rcAbort || kind == rcTxSend) && !strings.ContainsAny(script, "oez") {
			// there is no timeout for these: the peer has to answer some time
			if !strings.Contains(script, "S") {
				return
			}
			script += "o"
		}
		w := wireSetup(stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.ReadChannelCapacity(1))
		cons := consume(w.sub, nil)
		s := &scripted{w: w, script: script}
		var tx *stomp.Transaction
		var timeout time.Duration
		var terr error
		switch kind {
		case rcSend:
			s.cmd, timeout, terr = "SEND", 30*time.Second, stomp.ErrMsgReceiptTimeout
		case rcCommit:
			s.cmd = "COMMIT"
			tx = w.c.Begin()
		case rcAbort:
			s.cmd = "ABORT"
			tx = w.c.Begin()
		case rcTxSend:
			s.cmd = "SEND"
			tx = w.c.Begin()
		case rcDisconnect:
			s.cmd, timeout, terr = "DISCONNECT", 30*time.Second, stomp.ErrDisconnectReceiptTimeout
		}
		s.start()
		t0 := mc.NowNS()
		var err error
		switch kind {
		case rcSend:
			err = w.c.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt)
		case rcCommit:
			err = tx.CommitWithReceipt()
		case rcAbort:
			err = tx.AbortWithReceipt()
		case rcTxSend:
			err = tx.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt)
		case rcDisconnect:
			err = w.c.Disconnect()
		}
		took := time.Duration(mc.NowNS() - t0)
		what := fmt.Sprintf("%s, server script %q", rcNames[kind], script)
		own := s.ownAt >= 0 && (timeout == 0 || s.ownAt < t0+int64(timeout))
		switch {
		case err == nil && (s.ownAt < 0 || s.ownAt > mc.NowNS()):
			viol("C04", "%s: success without a receipt", what)
		case err == nil && !own:
			viol("C04", "%s: success after the timeout", what)
		case err != nil && own:
			viol("C04", "%s: the receipt arrived in time, but the call failed: %v", what, err)
		case err != nil && !s.failed && timeout > 0:
			if err.Error() != terr.Error() {
				viol("C04", "%s: failed with %q instead of the timeout error", what, err)
			}
			if took != timeout {
				viol("C04", "%s: timed out after %v", what, took)
			}
		case err != nil && !s.failed:
			viol("C04", "%s: failed: %v", what, err)
		case err == nil && timeout > 0 && took > timeout:
			viol("C04", "%s: took %v", what, took)
		}
		if err == nil && mc.NowNS() != s.ownAt {
			viol("C04", "%s: the receipt came at %v, the call returned at %v", what, time.Duration(s.ownAt-t0), took)
		}
		if s.seen == nil || s.receipt == "" {
			viol("C04", "%s: returned although the frame was not written with a receipt header", what)
		}
		mc.Outcome(fmt.Sprintf("%s %v: %s", rcNames[kind], s.ownAt >= 0, errStr(err)))
		// let the rest of the script happen
		mc.Sleep(time.Duration(len(script)+1) * longTime)
		mc.Quiet()
		if kind == rcDisconnect {
			if (err == nil || errors.Is(err, stomp.ErrDisconnectReceiptTimeout)) && !w.p.e.Closed() {
				viol("C08,C04", "%s: the transport is open after %v", what, errStr(err))
			}
			if b := leftovers(); len(b) > 0 {
				viol("C15,C04", "%s: goroutines left: %v", what, b)
			}
			return
		}
		if s.failed {
			if b := leftovers(); len(b) > 0 {
				viol("C15", "%s: goroutines left: %v", what, b)
			}
			return
		}
		// all messages arrived, and later calls are not disturbed
		if len(cons.msgs) != s.msgs || len(cons.errs) != 0 || cons.closed {
			viol("C04,C05", "%s: %d messages sent, %d delivered, %d errors, closed %v", what, s.msgs, len(cons.msgs), len(cons.errs), cons.closed)
		}
		w.p.On = nil
		w.lists = [2][]want{}
		w.p.In = nil
		w.run(0, 0, wSendR)
		w.run(0, 1, wTx)
		if w.fails > 0 {
			viol("C04", "%s: a later call failed", what)
		}
		mc.Quiet()
		checkWire("C04", w.p.Frames(), w.lists[:], true, map[string]string{})
		if err := w.sub.Unsubscribe(); err != nil {
			viol("C04,C06", "%s: a later Unsubscribe failed: %v", what, err)
		}
		if err := w.c.Disconnect(); err != nil {
			viol("C04,C08", "%s: a later Disconnect failed: %v", what, err)
		}
		if b := leftovers(); len(b) > 0 {
			viol("C15", "%s: goroutines left: %v", what, b)
		}
	}
}

// two calls wait at the same time; the server answers them in some order, or
// only one of them, or one of them twice
func receiptTwoFn(deep int) {
	kinds := []int{rcSend, rcCommit, rcAbort, rcTxSend}
	orders := []string{"ab", "ba", "aab", "bba", "xab", "abab", "a", "b", "Sab", "Sba", "aSb", "bSa"}
	k := mc.Choose(len(kinds) * len(kinds) * len(orders))
	ka, kb, ord := kinds[k%len(kinds)], kinds[k/len(kinds)%len(kinds)], orders[k/len(kinds)/len(kinds)]
	if ka == rcSend && kb == rcSend {
		// Send keeps the connection to itself while it waits: no two at once
		return
	}
	w := wireSetup(stomp.ConnOpt.HeartBeat(0, 0))
	p := w.p
	ids := map[string]string{}
	got := map[string]int64{}
	asked := map[string]int64{}
	kind := map[string]int{"a": ka, "b": kb}
	txs := map[string]*stomp.Transaction{}
	for _, n := range []string{"a", "b"} {
		if kind[n] != rcSend {
			txs[n] = w.c.Begin()
		}
	}
	p.On = func(p *Peer, f *F) bool {
		r, ok := f.Has("receipt")
		if !ok {
			return false
		}
		who := "a"
		switch {
		case f.Cmd == "SEND" && f.Get("destination") == "/b",
			(f.Cmd == "COMMIT" || f.Cmd == "ABORT") && txs["b"] != nil && f.Get("transaction") == txs["b"].Id():
			who = "b"
		}
		ids[who] = r
		asked[who] = mc.NowNS()
		return true
	}
	res := map[string]error{}
	at := map[string]int64{}
	var g group
	for _, n := range []string{"a", "b"} {
		n := n
		g.Go(n, func() {
			var err error
			switch kind[n] {
			case rcSend:
				err = w.c.Send("/"+n, "", []byte("x"), stomp.SendOpt.Receipt)
			case rcCommit:
				err = txs[n].CommitWithReceipt()
			case rcAbort:
				err = txs[n].AbortWithReceipt()
			case rcTxSend:
				err = txs[n].Send("/"+n, "", []byte("x"), stomp.SendOpt.Receipt)
			}
			res[n], at[n] = err, mc.NowNS()
		})
	}
	for _, ch := range ord {
		switch ch {
		case 'S':
			mc.Sleep(longTime)
			continue
		case 'x':
			p.Send(fr("RECEIPT", "receipt-id", "nobody"))
			continue
		}
		n := string(ch)
		// the peer answers when it has the request
		for i := 0; ids[n] == "" && i < 100; i++ {
			mc.Sleep(time.Second)
		}
		id := ids[n]
		if id == "" {
			viol("C04,C03", "the request of %s was never written", n)
		}
		if _, ok := got[n]; !ok {
			got[n] = mc.NowNS()
		}
		p.Send(fr("RECEIPT", "receipt-id", id))
	}
	// whoever has no answer and no timeout of its own gets one now
	for _, n := range []string{"a", "b"} {
		if _, ok := got[n]; !ok && kind[n] != rcSend {
			mc.Quiet()
			if _, done := res[n]; done {
				viol("C04", "call %s returned %v without an answer (script %s)", n, errStr(res[n]), ord)
			}
			got[n] = mc.NowNS()
			id := ids[n]
			p.Send(fr("RECEIPT", "receipt-id", id))
		}
	}
	g.Wait()
	for _, n := range []string{"a", "b"} {
		t, ok := got[n]
		if res[n] == nil && (!ok || t > at[n]) {
			viol("C04", "call %s succeeded without its receipt (script %s)", n, ord)
		}
		// Send gives up 30 seconds after its frame
		if res[n] != nil && ok && (kind[n] != rcSend || t < asked[n]+int64(30*time.Second)) {
			viol("C04", "call %s got its receipt and failed: %v (script %s)", n, res[n], ord)
		}
	}
	mc.Outcome(fmt.Sprintf("%s/%s %s: %s, %s", rcNames[ka], rcNames[kb], ord, errStr(res["a"]), errStr(res["b"])))
	p.On = nil
	if err := w.c.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
		viol("C04", "a later Send failed: %v (script %s)", err, ord)
	}
}

// with heart-beats the receipt of a transaction call times out
func receiptHBFn(deep int) {
	k := mc.Choose(6)
	late := k%2 == 1
	p := newPeer()
	p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "0,2000")
	c := p.dial(stomp.ConnOpt.HeartBeat(2*time.Second, 0))
	tx := c.Begin()
	mc.Quiet()
	var rid string
	p.On = func(p *Peer, f *F) bool {
		if r, ok := f.Has("receipt"); ok {
			rid = r
			return true
		}
		return false
	}
	t0 := mc.NowNS()
	var err error
	switch k / 2 {
	case 0:
		err = tx.CommitWithReceipt()
	case 1:
		err = tx.AbortWithReceipt()
	case 2:
		err = tx.Send("/d", "", nil, stomp.SendOpt.Receipt)
	}
	if err == nil {
		viol("C04", "success without a receipt")
	}
	if d := time.Duration(mc.NowNS() - t0); d > time.Minute {
		viol("C04", "failed after %v", d)
	}
	p.On = nil
	if late {
		p.Send(fr("RECEIPT", "receipt-id", rid))
	}
	mc.Quiet()
	// the transaction is still open
	if err := tx.Send("/d", "", []byte("x")); err != nil {
		viol("C11,C04", "after a commit or abort that timed out: %v", err)
	}
	if err := tx.CommitWithReceipt(); err != nil {
		viol("C11,C04", "commit after a commit or abort that timed out: %v", err)
	}
	if err := tx.Commit(); !errors.Is(err, stomp.ErrCompletedTransaction) {
		viol("C11", "second commit: %v", err)
	}
	if err := c.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
		viol("C04", "a later Send failed: %v", err)
	}
	c.MustDisconnect()
	if b := leftovers(); len(b) > 0 {
		viol("C15,C04", "goroutines left: %v", b)
	}
}

// receiptRetryFn: calls made again and again, answered by the receipts of
// other attempts.
func receiptRetryFn(deep int) {
	kinds := []int{rcSend, rcCommit, rcAbort, rcTxSend}
	p := newPeer()
	p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "0,2000")
	c := p.dial(stomp.ConnOpt.HeartBeat(2*time.Second, 0), stomp.ConnOpt.RcvReceiptTimeout(2*time.Second))
	tx := c.Begin()
	var asked []string
	var answer string
	p.On = func(p *Peer, f *F) bool {
		r, ok := f.Has("receipt")
		if !ok {
			return false
		}
		asked = append(asked, r)
		id := ""
		switch n := len(asked); {
		case answer == "own":
			id = r
		case answer == "previous" && n > 1:
			id = asked[n-2]
		case answer == "first" && n > 2:
			id = asked[0]
		case answer == "foreign":
			id = "nobody"
		}
		if id != "" {
			p.Reply(fr("RECEIPT", "receipt-id", id))
		}
		return true
	}
	var log []string
	for i := 0; i < 2+deep; i++ {
		kind := kinds[mc.Choose(len(kinds))]
		answer = []string{"own", "none", "previous", "first", "foreign"}[mc.Choose(5)]
		log = append(log, rcNames[kind]+": "+answer)
		n := len(asked)
		var err error
		switch kind {
		case rcSend:
			err = c.Send("/d", "", nil, stomp.SendOpt.Receipt)
		case rcCommit:
			err = tx.CommitWithReceipt()
		case rcAbort:
			err = tx.AbortWithReceipt()
		case rcTxSend:
			err = tx.Send("/d", "", nil, stomp.SendOpt.Receipt)
		}
		mc.Quiet()
		if len(asked) != n+1 {
			viol("C04,C03", "%q: %d frames that ask for a receipt were written", log, len(asked)-n)
		}
		if (err == nil) != (answer == "own") {
			viol("C04", "%q: %v", log, errStr(err))
		}
		if err == nil && (kind == rcCommit || kind == rcAbort) {
			tx = c.Begin()
		}
	}
	mc.Outcome("done")
}

func init() {
	scen(&Scenario{
		Name:     "c-receipt-retry",
		Props:    []string{"C04", "C11"},
		What:     "every sequence of calls, some made again, answered by their receipts or by those of other attempts",
		Fn:       receiptRetryFn,
		Quick:    []Bound{{Delay: true, Deep: 1, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 1, Deep: 1, Shards: 64}, {Delay: true, Deep: 2, Shards: 64}},
	})
	scen(&Scenario{
		Name:     "c-receipt",
		Props:    []string{"C04"},
		What:     "a receipt-requesting call against every server script over {its receipt, a foreign one, MESSAGE, heart-beat, delay beyond the timeout}",
		Fn:       receiptFn("oxmhS", func(d int) int { return 3 + d }),
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 64}, {Delay: true, PB: 1, Shards: 128, Deep: 2}, {Delay: true, PB: 3, Shards: 128}},
	})
	scen(&Scenario{
		Name:     "c-receipt-fail",
		Props:    []string{"C04", "C15", "C07"},
		What:     "the same with ERROR and the end of the stream",
		Fn:       receiptFn("oxezS", func(d int) int { return 2 + d }),
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 64}, {Delay: true, PB: 2, Shards: 64, Deep: 1}},
	})
	scen(&Scenario{
		Name:     "c-receipt-two",
		Props:    []string{"C04"},
		What:     "two calls wait for receipts that come in any order, once, twice, late or not",
		Fn:       receiptTwoFn,
		Quick:    []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 3, Shards: 64}, {PB: 0, Shards: 64}},
	})
	scen(&Scenario{
		Name:     "c-receipt-hb",
		Props:    []string{"C04", "C11"},
		What:     "receipts of transaction calls time out when heart-beats are on",
		Fn:       receiptHBFn,
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 6}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 6}},
	})
}
