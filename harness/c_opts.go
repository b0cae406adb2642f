package main

import (
	"errors"
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// ---------------------------------------------------------------- C03: options of Send and Subscribe

var errOpt = errors.New("the option's error")

type hdrs [][2]string

func (h *hdrs) add(k, v string) { *h = append(*h, [2]string{k, v}) }

func (h *hdrs) set(k, v string) {
	for i := range *h {
		if (*h)[i][0] == k {
			(*h)[i][1] = v
			return
		}
	}
	h.add(k, v)
}

func (h *hdrs) del(k string) {
	var out hdrs
	for _, e := range *h {
		if e[0] != k {
			out = append(out, e)
		}
	}
	*h = out
}

func (h hdrs) get(k string) (string, bool) { return refHeader(h).get(k) }

// sendOptsFn: Send and Transaction.Send with every list of options.
func sendOptsFn(deep int) {
	const alpha = "NrhdltenwmC"
	n := wordCount(alpha, 0, 2+deep)
	w := nthWord(alpha, 0, mc.Choose(n))
	bodies := []string{"", "x", "\x00", strings.Repeat("0123456789", 500)}
	b := bodies[mc.Choose(len(bodies))]
	ctype := []string{"", "text/plain"}[mc.Choose(2)]
	inTx := mc.Choose(2) == 1
	if i := strings.IndexByte(w, 'N'); i >= 0 && (strings.Contains(w[i:], "l") || strings.Contains(b, "\x00")) {
		return // not a frame
	}
	var opts []func(*frame.Frame) error
	h := hdrs{{"content-length", fmt.Sprint(len(b))}, {"destination", "/d"}}
	if ctype != "" {
		h.add("content-type", ctype)
	}
	var fail error
	for i, ch := range w {
		switch ch {
		case 'N':
			opts = append(opts, stomp.SendOpt.NoContentLength)
			h.del("content-length")
		case 'r':
			opts = append(opts, stomp.SendOpt.Receipt)
			h.set("receipt", "$r")
		case 'h':
			v := fmt.Sprint("v:\n", i)
			opts = append(opts, stomp.SendOpt.Header("x", v))
			h.add("x", v)
		case 'd':
			opts = append(opts, stomp.SendOpt.Header("destination", "/other"))
			h.add("destination", "/other")
		case 'l':
			opts = append(opts, stomp.SendOpt.Header("content-length", "7"))
			h.add("content-length", "7")
		case 't':
			opts = append(opts, stomp.SendOpt.Header("content-type", "z"))
			h.add("content-type", "z")
		case 'e':
			opts = append(opts, func(*frame.Frame) error { return errOpt })
			if fail == nil {
				fail = errOpt
			}
		case 'n':
			opts = append(opts, nil)
		case 'w':
			opts = append(opts, stomp.SubscribeOpt.Id("7"))
			if fail == nil {
				fail = stomp.ErrInvalidCommand
			}
		case 'm':
			opts = append(opts, func(f *frame.Frame) error { f.Header.Set("destination", "/custom"); return nil })
			h.set("destination", "/custom")
		case 'C':
			opts = append(opts, stomp.SendOpt.Header("transaction", "forged"))
			h.add("transaction", "forged")
		}
	}
	p := newPeer()
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0))
	p.In = nil
	send := c.Send
	var list []want
	if inTx {
		tx := c.Begin()
		list = append(list, want{who: "Begin", f: fr("BEGIN", "transaction", tx.Id()), must: true})
		send = tx.Send
		h.set("transaction", tx.Id())
	}
	what := fmt.Sprintf("Send of %d bytes with options %q, in a transaction %v", len(b), w, inTx)
	err := send("/d", ctype, []byte(b), opts...)
	mc.Quiet()
	if !errors.Is(err, fail) || (err == nil) != (fail == nil) {
		viol("C03,C11", "%s: error %v instead of %v", what, errStr(err), errStr(fail))
	}
	if fail == nil {
		f := &F{Cmd: "SEND", H: h}
		list = append(list, want{who: what, f: f.body(b), must: true})
	}
	// and another one without options
	if err := send("/after", "", []byte("after")); err != nil {
		viol("C03,C11", "after %s: %v", what, err)
	}
	mc.Quiet()
	l := fr("SEND", "content-length", "5", "destination", "/after").body("after")
	if inTx {
		tx, _ := h.get("transaction")
		l.H = append(l.H, [2]string{"transaction", tx})
	}
	list = append(list, want{who: "the next Send", f: l, must: true})
	checkWire("C03,C11", p.In, [][]want{list}, true, map[string]string{})
	mc.Outcome(fmt.Sprint(fail != nil, inTx))
}

// subOptsFn: Subscribe with every list of options, and what comes of it.
func subOptsFn(deep int) {
	const alpha = "ijhkenwmqa"
	n := wordCount(alpha, 0, 2+deep)
	w := nthWord(alpha, 0, mc.Choose(n))
	mode := []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[mc.Choose(3)]
	var opts []func(*frame.Frame) error
	h := hdrs{{"destination", "/s"}, {"ack", mode.String()}}
	var fail error
	for _, ch := range w {
		add := func(k, v string) {
			opts = append(opts, stomp.SubscribeOpt.Header(k, v))
			h.add(k, v)
		}
		switch ch {
		case 'i', 'j':
			id := "my:id\n" + string(ch)
			opts = append(opts, stomp.SubscribeOpt.Id(id))
			h.set("id", id)
		case 'h':
			add("x", "v:\n")
		case 'k':
			add("id", "by header")
		case 'a':
			add("ack", "auto")
		case 'q':
			add("reply-to", "/temp-queue/q")
		case 'e':
			opts = append(opts, func(*frame.Frame) error { return errOpt })
			if fail == nil {
				fail = errOpt
			}
		case 'n':
			opts = append(opts, nil)
		case 'w':
			opts = append(opts, stomp.SendOpt.Receipt)
			if fail == nil {
				fail = stomp.ErrInvalidCommand
			}
		case 'm':
			opts = append(opts, func(f *frame.Frame) error { f.Header.Set("destination", "/custom"); return nil })
			h.set("destination", "/custom")
		}
	}
	rt, temp := h.get("reply-to")
	if temp {
		h.set("id", rt)
	}
	if _, ok := h.get("id"); !ok {
		h.add("id", "$id")
	}
	p := newPeer()
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0))
	other := mustSub(c, "/o", stomp.AckAuto)
	mc.Quiet()
	p.In = nil
	what := fmt.Sprintf("Subscribe with options %q, mode %v", w, mode)
	sub, err := c.Subscribe("/s", mode, opts...)
	mc.Quiet()
	if !errors.Is(err, fail) || (err == nil) != (fail == nil) {
		viol("C03", "%s: error %v instead of %v", what, errStr(err), errStr(fail))
	}
	ok := consume(other, nil)
	om := []*F{msgFor(other.Id(), "/o", 0)}
	if fail != nil {
		if len(p.In) > 0 || sub != nil {
			viol("C03", "%s: %v on the wire, subscription %v", what, p.In, sub)
		}
		p.Send(om...)
		mc.Quiet()
		checkDelivered("C05", "the other subscription", ok, om, c)
		bye(p, c)
		mc.Outcome("refused")
		return
	}
	var list []want
	if !temp {
		list = append(list, want{who: what, f: &F{Cmd: "SUBSCRIBE", H: h}, must: true})
	}
	bind := map[string]string{}
	checkWire("C03", p.In, [][]want{list}, true, bind)
	id, _ := h.get("id")
	if v, ok := bind["$id"]; ok {
		id = v
	} else if v, ok := bind["id"]; ok && id == "$id" {
		id = v
	}
	if id != "$id" && sub.Id() != id {
		viol("C03,C05", "%s: the subscription's id is %q, not %q", what, sub.Id(), id)
	}
	if sub.Destination() != "/s" || sub.AckMode() != mode || !sub.Active() {
		viol("C03,C05", "%s: destination %q, mode %v, active %v", what, sub.Destination(), sub.AckMode(), sub.Active())
	}
	k := consume(sub, nil)
	sm := []*F{msgFor(sub.Id(), "/s", 0), msgFor(sub.Id(), "/s", 1)}
	p.Send(sm[0], om[0], sm[1], msgFor("by header of nobody", "/s", 2))
	mc.Quiet()
	checkDelivered("C05", what, k, sm, c)
	checkDelivered("C05", "the other subscription", ok, om, c)
	p.In = nil
	if err := sub.Unsubscribe(); err != nil {
		viol("C06", "%s: Unsubscribe: %v", what, err)
	}
	mc.Quiet()
	if !temp && (len(p.In) != 1 || p.In[0].Cmd != "UNSUBSCRIBE" || p.In[0].Get("id") != sub.Id()) || temp && len(p.In) > 0 {
		viol("C06", "%s: Unsubscribe wrote %v", what, p.In)
	}
	if !k.closed {
		viol("C06", "%s: Unsubscribe did not close the channel", what)
	}
	bye(p, c)
	mc.Outcome(fmt.Sprint("subscribed ", temp))
}

func init() {
	scen(&Scenario{Name: "c-send-opts", Props: []string{"C03", "C11"},
		What:     "Send in and out of a transaction with every list of options",
		Fn:       sendOptsFn,
		Quick:    []Bound{{Delay: true, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}, {Delay: true, Deep: 1, Shards: 64}, {Delay: true, Deep: 2, Shards: 256}}})
	scen(&Scenario{Name: "c-sub-opts", Props: []string{"C03", "C05", "C06"},
		What:     "Subscribe with every list of options",
		Fn:       subOptsFn,
		Quick:    []Bound{{Delay: true, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}, {Delay: true, Deep: 1, Shards: 64}}})
}
