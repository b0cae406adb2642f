package main

import (
	"errors"
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// ---------------------------------------------------------------- C10

const (
	mkReceived = iota // all identifying headers
	mkNoMsgID         // MESSAGE without message-id
	mkNoAck           // MESSAGE without ack
	mkEmptyIDs        // both present and empty
	mkOddIDs          // values that need escaping
	mkDupIDs          // entries repeated: the first counts
	mkCopy            // a copy made by the application
	mkConsumed        // body read by the application
	mkOther           // a message of another subscription of the same connection
	mkZero            // not received: zero Message
	mkNoSub           // not received: header only
	mkNoConn          // not received: header and subscription
	mkNoHeader        // not received: connection and subscription only
	mkErr             // an error message
	nMk
)

var mkNames = []string{"plain", "without message-id", "without ack", "with empty ids", "with odd ids", "with repeated ids", "copied", "consumed", "of another subscription",
	"zero", "with a header only", "without connection", "without header", "that is an error"}

func ackFn(deep int) {
	const versions, modes, ops, prior = 3, 3, 2, 2
	k := mc.Choose(nMk * versions * modes * ops * 2 * prior)
	kind := k % nMk
	k /= nMk
	ver := k % versions
	k /= versions
	mode := []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[k%modes]
	k /= modes
	ack := k%2 == 0
	k /= 2
	inTx := k%2 == 1
	again := k/2 == 1
	p := newPeer()
	vs := []string{"1.0", "1.1", "1.2"}[ver]
	p.Conn = fr("CONNECTED", "version", vs)
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0))
	sub, err := c.Subscribe("/s", mode, stomp.SubscribeOpt.Id("my:id"))
	sub2, err2 := c.Subscribe("/s2", mode)
	if err != nil || err2 != nil {
		viol("*", "subscribe: %v", err)
	}
	f := fr("MESSAGE", "destination", "/s", "subscription", sub.Id(), "message-id", "mid-1", "ack", "ack-1").body("text")
	wantMid, wantAck := "mid-1", "ack-1"
	hasMid, hasAck := true, true
	wantSub := sub
	drop := func(h string) {
		for i, e := range f.H {
			if e[0] == h {
				f.H = append(f.H[:i], f.H[i+1:]...)
				return
			}
		}
	}
	set := func(mid, ak string) {
		f.H[2][1], f.H[3][1] = mid, ak
		wantMid, wantAck = mid, ak
	}
	switch kind {
	case mkNoMsgID:
		drop("message-id")
		hasMid = false
	case mkNoAck:
		drop("ack")
		hasAck = false
	case mkEmptyIDs:
		set("", "")
	case mkOddIDs:
		set("m:1\\n\n", "a:1\\\r")
		if vs == "1.0" {
			set("m/1 ", " a=1")
		}
	case mkDupIDs:
		f.H = append(f.H, [2]string{"message-id", "second"}, [2]string{"ack", "second"}, [2]string{"subscription", "second"})
	case mkOther:
		f.H[1][1] = sub2.Id()
		wantSub = sub2
	}
	mc.Quiet()
	p.Send(f)
	m, ok := mc.Recv2(wantSub.C)
	if !ok || m.Err != nil {
		viol("C05", "message not delivered")
	}
	received := true
	switch kind {
	case mkCopy:
		cp := *m
		m = &cp
	case mkConsumed:
		buf := make([]byte, 16)
		m.Read(buf)
		m.Body, m.Destination, m.ContentType = nil, "", ""
	case mkZero:
		m, received = &stomp.Message{}, false
	case mkNoSub:
		m, received = &stomp.Message{Header: m.Header, Conn: c}, false
	case mkNoConn:
		m, received = &stomp.Message{Header: m.Header, Subscription: sub}, false
	case mkNoHeader:
		m, received = &stomp.Message{Conn: c, Subscription: sub}, false
	case mkErr:
		m, received = &stomp.Message{Err: errors.New("x")}, false
	}
	should := received && mode != stomp.AckAuto
	if m.Subscription != nil && m.ShouldAck() != (mode != stomp.AckAuto) || m.Subscription == nil && m.ShouldAck() {
		viol("C10", "ShouldAck is %v for a message %s of an %v subscription", m.ShouldAck(), mkNames[kind], mode)
	}
	var tx *stomp.Transaction
	if inTx {
		tx = c.Begin()
	}
	mc.Quiet()
	p.In = nil
	n := 1
	if again {
		n = 2 // nothing remembers that it was done already
	}
	name := fmt.Sprintf("%s of a message %s, version %s, mode %v, tx %v", []string{"Nack", "Ack"}[b2i(ack)], mkNames[kind], vs, mode, inTx)
	for i := 0; i < n; i++ {
		var err error
		switch {
		case inTx && ack:
			err = tx.Ack(m)
		case inTx:
			err = tx.Nack(m)
		case ack:
			err = c.Ack(m)
		default:
			err = c.Nack(m)
		}
		mc.Quiet()
		fs := p.Frames()
		p.In = nil
		wantErr := !should
		switch {
		case !ack && vs == "1.0":
			wantErr = true
			should = false
		case received && mode == stomp.AckAuto:
			wantErr = !ack
		case received && vs == "1.2" && !hasAck:
			wantErr, should = true, false
		case received && vs != "1.2" && !hasMid:
			wantErr, should = true, false
		}
		if (err != nil) != wantErr {
			viol("C10", "%s: returned %v", name, errStr(err))
		}
		if !should {
			if len(fs) > 0 {
				viol("C10", "%s: wrote %v", name, fs[0])
			}
			continue
		}
		w := fr("ACK")
		if !ack {
			w.Cmd = "NACK"
		}
		if vs == "1.2" {
			w.H = append(w.H, [2]string{"id", wantAck})
		} else {
			w.H = append(w.H, [2]string{"subscription", wantSub.Id()}, [2]string{"message-id", wantMid})
		}
		if inTx {
			w.H = append(w.H, [2]string{"transaction", tx.Id()})
		}
		if len(fs) != 1 {
			viol("C10", "%s: wrote %d frames", name, len(fs))
		}
		got := fs[0]
		if got.Cmd != w.Cmd || len(got.Body) > 0 {
			viol("C10", "%s: wrote %v instead of %v", name, got, w)
		}
		// it names the message, whatever else it says
		for _, e := range w.H {
			if v, ok := got.Has(e[0]); !ok || v != e[1] || got.Count(e[0]) != 1 {
				viol("C10", "%s: wrote %v instead of %v", name, got, w)
			}
		}
		if !inTx && got.Count("transaction") > 0 {
			viol("C10,C11", "%s: wrote %v", name, got)
		}
	}
	mc.Outcome(name)
	c.MustDisconnect()
	mc.Quiet()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Ack and Nack of several messages by two goroutines, before and after an
// unsubscribe: each names its own message.
func ackTwoFn(deep int) {
	k := mc.Choose(16 * 3)
	ver := []string{"1.0", "1.1", "1.2"}[k/16]
	k %= 16
	p := newPeer()
	p.Conn = fr("CONNECTED", "version", ver)
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0))
	sub, err := c.Subscribe("/s", stomp.AckClientIndividual)
	if err != nil {
		viol("*", "subscribe: %v", err)
	}
	mc.Quiet()
	var ms []*stomp.Message
	for i := 0; i < 4; i++ {
		p.Send(fr("MESSAGE", "destination", "/s", "subscription", sub.Id(), "message-id", fmt.Sprint("m", i), "ack", fmt.Sprint("a", i)))
		m, _ := mc.Recv2(sub.C)
		ms = append(ms, m)
	}
	mc.Quiet()
	p.In = nil
	var g group
	want := map[string]bool{}
	for gi := 0; gi < 2; gi++ {
		for i := 0; i < 2; i++ {
			op := "ACK"
			if k>>(gi*2+i)&1 == 1 {
				op = "NACK"
				if ver == "1.0" {
					continue
				}
			}
			want[fmt.Sprint(op, gi*2+i)] = true
		}
		gi := gi
		g.Go("ab"[gi:gi+1], func() {
			for i := 0; i < 2; i++ {
				n := gi*2 + i
				if k>>n&1 == 1 {
					err := c.Nack(ms[n])
					if (err != nil) != (ver == "1.0") {
						viol("C10", "Nack: %v", errStr(err))
					}
				} else if err := c.Ack(ms[n]); err != nil {
					viol("C10", "Ack: %v", err)
				}
			}
		})
	}
	g.Wait()
	if err := sub.Unsubscribe(); err != nil {
		viol("C06", "unsubscribe: %v", err)
	}
	if err := c.Ack(ms[0]); err != nil {
		viol("C10", "Ack after the subscription ended: %v", err)
	}
	mc.Quiet()
	fs := p.Frames()
	for i, f := range fs {
		if f.Cmd == "UNSUBSCRIBE" || i == len(fs)-1 {
			continue
		}
		var id string
		if ver == "1.2" {
			id = strings.TrimPrefix(f.Get("id"), "a")
		} else {
			id = strings.TrimPrefix(f.Get("message-id"), "m")
		}
		if !want[f.Cmd+id] {
			viol("C10", "%v was written", f)
		}
		delete(want, f.Cmd+id)
	}
	if len(want) > 0 {
		viol("C10", "not written: %v", want)
	}
	if l := fs[len(fs)-1]; l.Cmd != "ACK" {
		viol("C10", "%v was written for an Ack after the subscription ended", l)
	}
	mc.Outcome(p.Cmds())
	c.MustDisconnect()
	mc.Quiet()
}

// ---------------------------------------------------------------- C11

// txOps: s Send, S Send with receipt, o Send with an own transaction header,
// a Ack, n Nack, c Commit, C CommitWithReceipt, b Abort, B AbortWithReceipt,
// x Send with an option that fails
const txAlpha = "sSoancCbBx"

type txRun struct {
	w     *wireState
	tx    *stomp.Transaction
	name  string
	want  []*F
	done  bool
	n     int
	optID string
}

func (r *txRun) do(op byte, fail bool) {
	w := r.w
	r.n++
	d := fmt.Sprintf("/%s/%d", r.name, r.n)
	id := r.tx.Id()
	var err error
	var f *F
	what := fmt.Sprintf("operation %c on transaction %s", op, r.name)
	wantErr := r.done
	switch op {
	case 's':
		f = fr("SEND", "content-length", "1", "destination", d, "transaction", id).body("x")
		err = r.tx.Send(d, "", []byte("x"))
	case 'S':
		f = fr("SEND", "content-length", "1", "destination", d, "transaction", id, "receipt", "$"+d).body("x")
		err = r.tx.Send(d, "", []byte("x"), stomp.SendOpt.Receipt)
		wantErr = wantErr || fail
	case 'o':
		f = fr("SEND", "content-length", "1", "destination", d, "transaction", id, "content-type", "t").body("x")
		err = r.tx.Send(d, "t", []byte("x"), stomp.SendOpt.Header("transaction", "forged"))
	case 'a':
		f = fr("ACK", "id", "a0", "transaction", id)
		err = r.tx.Ack(w.msgs[0])
	case 'n':
		f = fr("NACK", "id", "a1", "transaction", id)
		err = r.tx.Nack(w.msgs[1])
	case 'c':
		f = fr("COMMIT", "transaction", id)
		err = r.tx.Commit()
	case 'C':
		f = fr("COMMIT", "transaction", id, "receipt", "$"+d)
		err = r.tx.CommitWithReceipt()
		wantErr = wantErr || fail
	case 'b':
		f = fr("ABORT", "transaction", id)
		err = r.tx.Abort()
	case 'B':
		f = fr("ABORT", "transaction", id, "receipt", "$"+d)
		err = r.tx.AbortWithReceipt()
		wantErr = wantErr || fail
	case 'x':
		err = r.tx.Send(d, "", []byte("x"), func(*frame.Frame) error { return errOption })
		wantErr = true
	}
	if (err != nil) != wantErr {
		viol("C11", "%s: %v", what, errStr(err))
	}
	if r.done && !errors.Is(err, stomp.ErrCompletedTransaction) {
		viol("C11", "%s, which is completed: %v", what, errStr(err))
	}
	if !r.done && errors.Is(err, stomp.ErrCompletedTransaction) {
		viol("C11", "%s, which is not completed: %v", what, errStr(err))
	}
	if !r.done && f != nil {
		r.want = append(r.want, f)
	}
	if err == nil && strings.IndexByte("cCbB", op) >= 0 {
		r.done = true
	}
}

func txCheck(w *wireState, rs ...*txRun) {
	bind := map[string]string{}
	lists := map[string][]*F{}
	for _, r := range rs {
		if lists[r.tx.Id()] != nil {
			viol("C11,C13", "two transactions have the id %q", r.tx.Id())
		}
		lists[r.tx.Id()] = append([]*F{fr("BEGIN", "transaction", r.tx.Id())}, r.want...)
	}
	for _, f := range w.p.Frames() {
		t, ok := f.Has("transaction")
		if !ok {
			if f.Cmd != "ACK" {
				viol("C11", "%v on the wire without a transaction", f)
			}
			continue
		}
		l := lists[t]
		if len(l) == 0 {
			viol("C11", "%v on the wire, nothing was to be written", f)
		}
		if r := matchWant(f, l[0], bind); r != "" {
			viol("C11", "%v on the wire instead of %v: %s", f, l[0], r)
		}
		lists[t] = l[1:]
	}
	for _, l := range lists {
		if len(l) > 0 {
			viol("C11", "%v is not on the wire", l[0])
		}
	}
}

// txSeqFn: all sequences on one transaction; the server may refuse to answer
// the first receipt (heart-beats on: the wait ends)
func txSeqFn(deep int) {
	n := wordCount(txAlpha, 1, 3+deep)
	k := mc.Choose(n * 3)
	word := nthWord(txAlpha, 1, k%n)
	mute := k / n // 1: first receipt missing, 2: second
	w := wireSetup(stomp.ConnOpt.HeartBeat(2e9, 0))
	if mute > 0 {
		if strings.Count(word, "S")+strings.Count(word, "C")+strings.Count(word, "B") < mute {
			return
		}
		w.c.MustDisconnect()
		w = &wireState{p: newPeer()}
		w.p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "0,2000")
		w.c = w.p.dial(stomp.ConnOpt.HeartBeat(2e9, 0))
		sub, err := w.c.Subscribe("/s", stomp.AckClientIndividual)
		if err != nil {
			viol("*", "subscribe: %v", err)
		}
		mc.Quiet()
		for i := 0; i < 2; i++ {
			w.p.Send(fr("MESSAGE", "destination", "/s", "subscription", sub.Id(), "message-id", fmt.Sprint("m", i), "ack", fmt.Sprint("a", i)))
			m, _ := mc.Recv2(sub.C)
			w.msgs = append(w.msgs, m)
		}
		mc.Quiet()
		w.p.In = nil
	}
	rc := 0
	w.p.On = func(p *Peer, f *F) bool {
		if _, ok := f.Has("receipt"); ok {
			rc++
			return rc == mute
		}
		return false
	}
	tx, err := w.c.BeginWithError()
	if err != nil {
		viol("C11", "Begin: %v", err)
	}
	if tx.Conn() != w.c {
		viol("C11", "Conn of a transaction")
	}
	r := &txRun{w: w, tx: tx, name: "t"}
	asks := 0
	for i := 0; i < len(word); i++ {
		fail := false
		if strings.IndexByte("SCB", word[i]) >= 0 && !r.done {
			asks++
			fail = asks == mute
		}
		r.do(word[i], fail)
	}
	mc.Quiet()
	txCheck(w, r)
	mc.Outcome(word)
	w.c.MustDisconnect()
	mc.Quiet()
}

// two transactions used by two goroutines, or alternately by one
func txTwoFn(deep int) {
	words := []string{"sc", "sSC", "ab", "nB", "sas", "cs", "os"}
	n := len(words)
	k := mc.Choose(n * n * 2)
	wa, wb, alt := words[k%n], words[k/n%n], k/n/n == 1
	w := wireSetup(stomp.ConnOpt.HeartBeat(0, 0))
	var rs [2]*txRun
	var g group
	if alt {
		for i := range rs {
			rs[i] = &txRun{w: w, tx: w.c.Begin(), name: "ab"[i : i+1]}
		}
		for i := 0; i < max(len(wa), len(wb)); i++ {
			for j, word := range []string{wa, wb} {
				if i < len(word) {
					rs[j].do(word[i], false)
				}
			}
		}
	} else {
		for i, word := range []string{wa, wb} {
			i, word := i, word
			g.Go("ab"[i:i+1], func() {
				tx, err := w.c.BeginWithError()
				if err != nil {
					viol("C11", "Begin: %v", err)
				}
				rs[i] = &txRun{w: w, tx: tx, name: "ab"[i : i+1]}
				for j := range word {
					rs[i].do(word[j], false)
				}
			})
		}
		// and an ack outside of them
		if err := w.c.Ack(w.msgs[2]); err != nil {
			viol("C10", "ack: %v", err)
		}
		g.Wait()
	}
	mc.Quiet()
	txCheck(w, rs[0], rs[1])
	mc.Outcome(w.p.Cmds())
	w.c.MustDisconnect()
	mc.Quiet()
}

// a transaction on a connection that ends: open, but nothing works; Begin on
// an ended connection reports it
func txEndFn(deep int) {
	k := mc.Choose(4 * 5)
	end, op := k%4, k/4
	w := wireSetup(stomp.ConnOpt.HeartBeat(0, 0))
	tx := w.c.Begin()
	mc.Quiet()
	switch end {
	case 0:
		w.p.Cut(nil)
	case 1:
		w.c.Disconnect()
	case 2:
		w.c.MustDisconnect()
	case 3:
		w.p.Send(fr("ERROR", "message", "boom"))
	}
	mc.Quiet()
	nb := len(w.p.e.Written())
	for i := 0; i < 2; i++ {
		var err error
		switch op {
		case 0:
			err = tx.Commit()
		case 1:
			err = tx.CommitWithReceipt()
		case 2:
			err = tx.Abort()
		case 3:
			err = tx.Send("/d", "", nil)
		case 4:
			err = tx.Ack(w.msgs[0])
		}
		if err == nil || errors.Is(err, stomp.ErrCompletedTransaction) {
			viol("C11,C07", "operation %d on a transaction whose connection has ended: %v", op, errStr(err))
		}
	}
	if _, err := w.c.BeginWithError(); err == nil {
		viol("C11,C07", "Begin on an ended connection reports success")
	}
	mc.Quiet()
	if len(w.p.e.Written()) != nb {
		viol("C11,C07,C08", "something was written after the end")
	}
}

// ---------------------------------------------------------------- C13

func idsFn(conns int) func(int) {
	return func(deep int) {
		ops := []string{"sub", "tx", "send", "txsend", "commit", "abort", "unsub"}
		n := len(ops)
		k := mc.Choose(n * n)
		oa, ob := ops[k%n], ops[k/n]
		if k%n > k/n {
			return
		}
		var ps []*Peer
		var cs []*stomp.Conn
		for i := 0; i < conns; i++ {
			p := newPeer()
			ps = append(ps, p)
			cs = append(cs, p.dial(stomp.ConnOpt.HeartBeat(0, 0)))
		}
		ids := map[string]string{}
		note := func(id, what string) {
			if id == "" {
				viol("C13", "%s has no identifier", what)
			}
			if o, dup := ids[id]; dup {
				viol("C13", "identifier %s given to %s and %s", id, o, what)
			}
			ids[id] = what
		}
		run := func(who string, c *stomp.Conn, op string) {
			var err error
			switch op {
			case "sub":
				_, err = c.Subscribe("/"+who, stomp.AckAuto)
			case "unsub":
				var s *stomp.Subscription
				s, err = c.Subscribe("/"+who, stomp.AckAuto)
				if err == nil {
					err = s.Unsubscribe()
				}
			case "tx":
				_, err = c.BeginWithError()
			case "send":
				err = c.Send("/"+who, "", nil, stomp.SendOpt.Receipt)
			default:
				var tx *stomp.Transaction
				tx, err = c.BeginWithError()
				if err == nil {
					switch op {
					case "txsend":
						err = tx.Send("/"+who, "", nil, stomp.SendOpt.Receipt)
					case "commit":
						err = tx.CommitWithReceipt()
					case "abort":
						err = tx.AbortWithReceipt()
					}
				}
			}
			if err != nil {
				viol("C13,C09", "%s: %v", op, err)
			}
		}
		var g group
		for i, op := range []string{oa, ob} {
			i, op := i, op
			g.Go("ab"[i:i+1], func() {
				run(fmt.Sprint("ab"[i:i+1], 1), cs[i%conns], op)
				run(fmt.Sprint("ab"[i:i+1], 2), cs[i%conns], op)
			})
		}
		g.Wait()
		for _, c := range cs {
			if err := c.Disconnect(); err != nil {
				viol("C13,C08", "disconnect: %v", err)
			}
		}
		mc.Quiet()
		for pi, p := range ps {
			for i, f := range p.Frames() {
				what := fmt.Sprintf("%s %d of connection %d", f.Cmd, i, pi)
				switch f.Cmd {
				case "SUBSCRIBE":
					note(f.Get("id"), what)
				case "BEGIN":
					note(f.Get("transaction"), what)
				}
				if r, ok := f.Has("receipt"); ok && f.Cmd != "UNSUBSCRIBE" {
					note(r, what+" (receipt)")
				}
			}
		}
		mc.Outcome(fmt.Sprint(len(ids)))
	}
}

func init() {
	scen(&Scenario{
		Name:     "c-ack",
		Props:    []string{"C10"},
		What:     "every kind of message x version x mode x ACK/NACK x transaction: the exact frame or error",
		Fn:       ackFn,
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 64}, {Delay: true, PB: 3, Shards: 64}},
	})
	scen(&Scenario{
		Name:     "c-ack-two",
		Props:    []string{"C10"},
		What:     "two goroutines acknowledge, also after the subscription ended",
		Fn:       ackTwoFn,
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 48}, {PB: 1, Shards: 48}},
	})
	scen(&Scenario{
		Name:     "c-tx",
		Props:    []string{"C11"},
		What:     "every sequence of operations on a transaction, with a receipt missing",
		Fn:       txSeqFn,
		Quick:    []Bound{{Delay: true, PB: 0, Shards: 64}, {Delay: true, PB: 0, Shards: 64, Deep: 1}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}, {Delay: true, PB: 1, Shards: 64, Deep: 1}, {Delay: true, PB: 0, Shards: 128, Deep: 2}},
	})
	scen(&Scenario{
		Name:     "c-tx-two",
		Props:    []string{"C11", "C13"},
		What:     "two transactions, two goroutines",
		Fn:       txTwoFn,
		Quick:    []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 3, Shards: 64}, {PB: 0, Shards: 64}},
	})
	scen(&Scenario{
		Name:     "c-tx-end",
		Props:    []string{"C11", "C07"},
		What:     "transactions on a connection that has ended",
		Fn:       txEndFn,
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 20}},
	})
	scen(&Scenario{
		Name:     "c-ids",
		Props:    []string{"C13"},
		What:     "two goroutines generate identifiers of every kind on one connection",
		Fn:       idsFn(1),
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 16}, {Delay: true, PB: 1, Race: true, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 64}, {Delay: true, PB: 2, Race: true, Shards: 64}, {PB: 1, Shards: 64}},
	})
	scen(&Scenario{
		Name:     "c-ids-two",
		Props:    []string{"C13"},
		What:     "and on two connections",
		Fn:       idsFn(2),
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 16}, {Delay: true, PB: 1, Race: true, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 64}, {Delay: true, PB: 2, Race: true, Shards: 64}, {PB: 1, Shards: 64}},
	})
}
