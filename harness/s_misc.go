package main

import (
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp/server"
)

// ---------------------------------------------------------------- S01

var (
	acceptVersions = []string{"-", "", "1.0", "1.1", "1.2", "1.0,1.1", "1.1,1.2", "1.2,1.1", "1.2,1.0", "1.0,1.1,1.2", "1.2,1.3", "2.0,1.1", "1.3", "1", "1.1.1", "1.1;1.2", "one"}
	heartBeats     = []string{"-", "0,0", "1000,0", "0,60000", "999999999,999999999", "", "x", "1000", "1000,", ",1000", "-1,0", "1,2,3", "1.5,2", "1000, 1000", "1000000000,0", "0x10,0"}
	firstCmds      = []string{"CONNECT", "STOMP"}
	wrongFirst     = []*F{
		fr("SEND", "destination", "/queue/a").body("first"), fr("SEND", "destination", "/topic/a", "receipt", "r").body("first"),
		fr("SUBSCRIBE", "id", "s", "destination", "/queue/a", "receipt", "r"), fr("UNSUBSCRIBE", "id", "s"), fr("BEGIN", "transaction", "t"),
		fr("COMMIT", "transaction", "t"), fr("ABORT", "transaction", "t", "receipt", "r"), fr("ACK", "id", "1", "message-id", "1"),
		fr("NACK", "id", "1", "message-id", "1", "receipt", "r"), fr("DISCONNECT", "receipt", "r"), fr("MESSAGE", "destination", "/queue/a", "message-id", "1", "subscription", "s"),
		fr("RECEIPT", "receipt-id", "1"), fr("ERROR"), fr("CONNECTED", "version", "1.2"), fr("SEND"), fr("DISCONNECT"),
	}
)

// connectFn: every first frame, and what follows.
func connectFn(deep int) {
	nc := len(firstCmds) * len(acceptVersions) * len(heartBeats) * 3 * 2
	i := mc.Choose(nc + len(wrongFirst))
	after := mc.Choose(4)
	v := newSrv()
	cl := v.clients("1.2")
	cl[0].send(fr("SUBSCRIBE", "id", "s", "destination", "/queue/a"), fr("SUBSCRIBE", "id", "t", "destination", "/topic/a"))
	v.idle("witness")
	var f *F
	if i >= nc {
		f = wrongFirst[i-nc].Clone()
	} else {
		f = fr(firstCmds[i%2])
		i /= 2
		put := func(k string, l []string) {
			if s := l[i%len(l)]; s != "-" {
				f.H = append(f.H, [2]string{k, s})
			}
			i /= len(l)
		}
		put("accept-version", acceptVersions)
		put("heart-beat", heartBeats)
		put("login", []string{"-", "guest", "wrong"})
		put("receipt", []string{"-", "r"})
	}
	c := v.client()
	l := []*F{f}
	switch after {
	case 1:
		l = append(l, v.msg("/queue/a"), v.msg("/topic/a", "receipt", "r2"), fr("SUBSCRIBE", "id", "z", "destination", "/queue/a"))
	case 2:
		l = append(l, fr("CONNECT", "accept-version", "1.2", "login", "guest"), v.msg("/queue/a"))
	case 3:
		l = append(l, fr("STOMP", "accept-version", "1.1", "receipt", "again"), v.msg("/topic/a"))
	}
	c.send(l...)
	mc.Sleep(2 * time.Second) // failed authentication takes its time
	v.idle("in the end")
	if n := len(c.in); n > 0 && c.in[0] != nil && c.in[0].Cmd == "CONNECTED" {
		ver := c.in[0].Get("version")
		want, _ := v.b.connectOK(f)
		if ver != want {
			viol("S01", "version %q negotiated from %v", ver, f)
		}
	}
	w := v.clients("1.1")
	w[0].send(v.msg("/queue/a"), v.msg("/topic/a"))
	v.idle("the others go on")
	mc.Outcome(fmt.Sprintf("%v %d", c.in[0].Cmd, len(c.in)))
}

// authPolicies: who may connect.
var authPolicies = []struct {
	name string
	ok   func(login, passcode string) bool
}{
	{"nobody asks", nil},
	{"all but one", notWrong},
	{"login guest", func(l, p string) bool { return l == "guest" }},
	{"passcode guest", func(l, p string) bool { return p == "guest" }},
	{"login guest with passcode secret", func(l, p string) bool { return l == "guest" && p == "secret" }},
	{"nobody", func(l, p string) bool { return false }},
	{"only without credentials", func(l, p string) bool { return l == "" && p == "" }},
}

// authFn: every set of credentials under every policy, and what follows.
func authFn(deep int) {
	pol := authPolicies[mc.Choose(len(authPolicies))]
	f := fr(firstCmds[mc.Choose(2)])
	for _, h := range []struct {
		k string
		l []string
	}{
		{"accept-version", []string{"1.2", "1.0", "1.1,1.2"}}, {"login", []string{"-", "", "guest", "wrong", "Guest", "guest "}},
		{"passcode", []string{"-", "", "guest", "secret", "wrong"}}, {"heart-beat", []string{"-", "x"}}, {"receipt", []string{"-", "r"}},
	} {
		if x := h.l[mc.Choose(len(h.l))]; x != "-" {
			f.H = append(f.H, [2]string{h.k, x})
		}
	}
	after := mc.Choose(3)
	v := newSrv(func(s *server.Server) {
		s.Authenticator = nil
		if pol.ok != nil {
			s.Authenticator = auth(pol.ok)
		}
	})
	v.b.auth = pol.ok
	for _, cr := range [][]string{{}, {"login", "guest", "passcode", "secret"}, {"passcode", "guest"}} {
		g := fr("CONNECT", cr...)
		if pol.ok == nil || pol.ok(g.Get("login"), g.Get("passcode")) {
			v.cred = cr
		}
	}
	witness := pol.name != "nobody"
	if witness {
		cl := v.clients("1.2")
		cl[0].send(fr("SUBSCRIBE", "id", "s", "destination", "/queue/a"), fr("SUBSCRIBE", "id", "t", "destination", "/topic/a"))
		v.idle("witness")
	}
	c := v.client()
	l := []*F{f}
	switch after {
	case 1:
		l = append(l, v.msg("/queue/a"), v.msg("/topic/a", "receipt", "r2"))
	case 2:
		l = append(l, fr("CONNECT", append([]string{"accept-version", "1.2"}, v.cred...)...), v.msg("/queue/a"))
	}
	c.send(l...)
	mc.Sleep(2 * time.Second)
	v.idle("in the end")
	if witness {
		w := v.clients("1.1")
		w[0].send(v.msg("/queue/a"), v.msg("/topic/a"))
		v.idle("the others go on")
	}
	mc.Outcome(fmt.Sprintf("%s %v %d", pol.name, c.in[0].Cmd, len(c.in)))
}

// ---------------------------------------------------------------- names

var destNames = []string{
	"/queue/a", "/Queue/a", "/QUEUE/a", "/queue", "/queues/a", "/temp-queue/a", "/TOPIC/a", "/queue/a/", "/queue/A", "/queue/ab", "/queue/", "/queue//a", "/queue/a ", "/queue/ a", "/queue/a/b", "/queue/a:b", "/queue/a\nb", "/queue/a\nb\n", "/queue/\u00e4", "/queue/queue/a", "/queue/*",
	"/topic/a", "/topic/a/", "/topic/A", "/topic/ab", "/topic/", "/topic//a", "/topic/a ", "/topic/a/b", "/topic/a:b", "/topic/a\\b", "/topic/queue/a", "/topic/*", "/topic/>", "topic/a", "queue/a", " /queue/a", "/", "", "a", "//queue/a", "/topic/a\r",
}

// namesFn: two destinations are the same only if their names are.
func namesFn(deep int) {
	d1 := destNames[mc.Choose(len(destNames))]
	d2 := destNames[mc.Choose(len(destNames))]
	mode := []string{"auto", "client"}[mc.Choose(2)]
	how := mc.Choose(3)
	v := newSrv()
	cl := v.clients("1.2", "1.1")
	o, c := cl[0], cl[1]
	sub := func(id, d string) {
		c.send(fr("SUBSCRIBE", "id", id, "destination", d, "ack", mode))
		v.idle("subscribe")
	}
	send := func(d string) {
		o.send(v.msg(d))
		v.idle("send")
	}
	switch how {
	case 0:
		sub("s", d1)
		send(d2)
		send(d1)
	case 1: // what waits in one does not reach a consumer of the other
		send(d1)
		send(d2)
		send(d1)
		sub("s", d2)
		sub("t", d1)
		send(d2)
	case 2: // both are read, then one no more
		sub("s", d1)
		sub("t", d2)
		send(d1)
		send(d2)
		c.send(fr("UNSUBSCRIBE", "id", "s"))
		v.idle("unsubscribe")
		send(d2)
		send(d1)
	}
	v.finish(d1, d2)
	mc.Outcome(d1 + " " + d2)
}

// ---------------------------------------------------------------- S11

// session states in which a frame is refused
var errPre = []struct {
	name string
	do   func(v *srv, c, o *scli)
}{
	{"connected", func(v *srv, c, o *scli) {}},
	{"subscribed", func(v *srv, c, o *scli) {
		c.send(fr("SUBSCRIBE", "id", "s", "destination", "/queue/a"), fr("SUBSCRIBE", "id", "t", "destination", "/topic/a"))
	}},
	{"holding", func(v *srv, c, o *scli) {
		c.send(fr("SUBSCRIBE", "id", "s", "destination", "/queue/a", "ack", "client"), fr("SUBSCRIBE", "id", "t", "destination", "/queue/a", "ack", "client-individual"))
		v.idle("subscribe")
		o.send(v.msg("/queue/a"), v.msg("/queue/a"), v.msg("/queue/a"))
	}},
	{"in a transaction", func(v *srv, c, o *scli) {
		c.send(fr("SUBSCRIBE", "id", "s", "destination", "/queue/a", "ack", "client"))
		v.idle("subscribe")
		o.send(v.msg("/queue/a"))
		v.idle("message")
		c.send(fr("BEGIN", "transaction", "t"), v.msg("/queue/b", "transaction", "t"), v.msg("/topic/a", "transaction", "t"), c.ackFrame("ACK", c.got[0], "transaction", "t"))
	}},
}

// refused frames
func refused(ver string) []*F {
	l := []*F{
		fr("CONNECT", "accept-version", ver), fr("STOMP", "accept-version", ver),
		fr("MESSAGE", "destination", "/queue/b", "message-id", "1", "subscription", "s"), fr("RECEIPT", "receipt-id", "1"), fr("ERROR", "message", "m"), fr("CONNECTED", "version", ver),
		fr("SEND"), fr("SEND", "destination", "/queue/b", "transaction", "u"), fr("SEND", "transaction", "t"),
		fr("SUBSCRIBE"), fr("SUBSCRIBE", "id", "n"), fr("SUBSCRIBE", "destination", "/queue/b"), fr("SUBSCRIBE", "id", "n", "destination", "/queue/b", "ack", "manual"),
		fr("SUBSCRIBE", "id", "n", "destination", "/queue/b", "ack", ""), fr("SUBSCRIBE", "id", "s", "destination", "/queue/b"),
		fr("UNSUBSCRIBE"), fr("UNSUBSCRIBE", "id", "n"), fr("UNSUBSCRIBE", "destination", "/queue/a"),
		fr("BEGIN"), fr("BEGIN", "transaction", "t"), fr("COMMIT"), fr("COMMIT", "transaction", "u"), fr("ABORT"), fr("ABORT", "transaction", "u"),
	}
	for _, cmd := range []string{"ACK", "NACK"} {
		id := "id"
		if ver == "1.1" {
			id = "message-id"
		}
		l = append(l, fr(cmd), fr(cmd, "subscription", "s"), fr(cmd, id, "x"), fr(cmd, id, "-1"), fr(cmd, id, ""), fr(cmd, id, "99999999999999999999"), fr(cmd, id, "1.0"), fr(cmd, id, "0x1"), fr(cmd, id, "+1"), fr(cmd, id, " 1"), fr(cmd, id, "1 "), fr(cmd, id, "1_1"), fr(cmd, id, "1e0"), fr(cmd, id, "18446744073709551617"), fr(cmd, id, "1", "transaction", "u"), fr(cmd, id, "x", "transaction", "t"))
	}
	return l
}

// errFn: every frame that is refused, in every session state, with more
// frames behind it.
func errFn(deep int) {
	vers := []string{"1.1", "1.2"}
	ver := vers[mc.Choose(2)]
	pre := errPre[mc.Choose(len(errPre))]
	bad := refused(ver)
	f := bad[mc.Choose(len(bad))]
	after := mc.Choose(4)
	rcpt := mc.Choose(2) == 1
	// how the frames arrive: at once, one by one, and with the end of input
	how := mc.Choose(3)
	v := newSrv()
	cl := v.clients(ver, "1.2")
	c, o := cl[0], cl[1]
	pre.do(v, c, o)
	v.idle(pre.name)
	o.send(fr("SUBSCRIBE", "id", "w", "destination", "/queue/b"), fr("SUBSCRIBE", "id", "x", "destination", "/topic/a"))
	v.idle("witness")
	if rcpt {
		f.H = append(f.H, [2]string{"receipt", "bad"})
	}
	l := []*F{f}
	switch after {
	case 1:
		l = append(l, v.msg("/queue/b"), v.msg("/topic/a", "receipt", "late"))
	case 2:
		l = append(l, fr("COMMIT", "transaction", "t"), fr("SUBSCRIBE", "id", "y", "destination", "/queue/b"))
	case 3:
		l = append([]*F{v.msg("/queue/b", "receipt", "before")}, l...)
		l = append(l, fr("DISCONNECT", "receipt", "bye"))
		if len(c.got) > 0 {
			l = append(l, c.ackFrame("ACK", c.got[0]))
		}
	}
	mc.Trace("-- %s, %s, %v", ver, pre.name, l)
	switch how {
	case 0:
		c.send(l...)
	case 1:
		for _, f := range l {
			c.send(f)
			mc.Quiet()
		}
	case 2:
		c.send(l...)
		c.eof()
	}
	if deep > 0 {
		o.send(v.msg("/queue/a"), v.msg("/queue/b"))
	}
	v.idle("after the error")
	v.finish("/queue/a", "/queue/b")
	mc.Outcome(pre.name)
}

// ---------------------------------------------------------------- S08

var rawTokens = []string{
	"CONNECT\n", "SEND\n", "SUBSCRIBE\n", "ACK\n", "BOGUS\n", "\n", "\r\n", "\x00", "accept-version:1.2\n", "id:1\n", "destination:/queue/r\n", "content-length:3\n",
	"content-length:-1\n", "content-length:9223372036854775808\n", "no colon\n", ":\n", "\\:\\\n", "abc", "transaction:\n",
}

// rawFn: every sequence of tokens from a client, before or after connecting,
// then silence, the end of input or a broken connection.
func rawFn(deep int) {
	var b strings.Builder
	pre := mc.Choose(2)
	for i := 0; i < deep; i++ {
		k := mc.Choose(len(rawTokens) + 1)
		if k == len(rawTokens) {
			break
		}
		b.WriteString(rawTokens[k])
	}
	end := mc.Choose(3)
	v := newSrv()
	c := v.stranger()
	if pre == 1 {
		c.e.Do(func() { c.e.Inject([]byte("CONNECT\naccept-version:1.2\n\n\x00")) })
		mc.Quiet()
	}
	c.e.Do(func() { c.e.Inject([]byte(b.String())) })
	switch end {
	case 1:
		c.e.Do(func() { c.e.InjectEOF(nil) })
	case 2:
		c.e.Do(func() { c.e.InjectEOF(mc.ErrReset); c.e.BreakWrites() })
	}
	mc.Quiet()
	if end > 0 && !c.e.Closed() {
		viol("S08,S14", "the connection is not closed at its end")
	}
	v.alive("S08")
	mc.Outcome("done")
}

// badValues are values for any header entry.
var badValues = []string{
	"", "0", "1", "-1", "+1", "01", "0x1", "1.5", " 1", "a", ",", "1,1", "-1,-1", "1,", "999999999,999999999", "9999999999,9999999999", "1,99999999999999999999",
	"4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999",
	"/queue/a", "/queue", "/", "/topic/b", "auto", "client", "client-individual", "1.0", "1.1", "1.2", "1.2,", "s", "t", "x\ny", "\x00", "%s%d%n", strings.Repeat("long", 3000),
}

var badNames = []string{
	"accept-version", "host", "login", "passcode", "heart-beat", "destination", "id", "ack", "transaction", "receipt", "subscription", "message-id", "content-length", "content-type", "receipt-id", "version",
}

// valueFn: a client of the server sends every command with its usual entries
// except for one, which has any value or is repeated.
func valueFn(deep int) {
	cmds := []string{"CONNECT", "STOMP", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK", "BEGIN", "COMMIT", "ABORT", "DISCONNECT", "MESSAGE", "RECEIPT", "ERROR", "CONNECTED"}
	usual := map[string][]string{
		"CONNECT": {"accept-version", "1.2", "host", "h"}, "STOMP": {"accept-version", "1.2", "host", "h"},
		"SEND": {"destination", "/queue/a"}, "SUBSCRIBE": {"id", "2", "destination", "/queue/a", "ack", "client"}, "UNSUBSCRIBE": {"id", "1"},
		"ACK": {"id", "1", "message-id", "1", "subscription", "1"}, "NACK": {"id", "1", "message-id", "1", "subscription", "1"},
		"BEGIN": {"transaction", "u"}, "COMMIT": {"transaction", "t"}, "ABORT": {"transaction", "t"},
	}
	cmd := cmds[mc.Choose(len(cmds))]
	name := badNames[mc.Choose(len(badNames))]
	value := badValues[mc.Choose(len(badValues))]
	pre := mc.Choose(2)
	if pre == 0 && cmd != "CONNECT" && cmd != "STOMP" && cmd != "SEND" {
		return
	}
	mode := mc.Choose(2) // in place of the usual entry, or behind it
	then := mc.Choose(3) // what follows
	v := newSrv()
	c := v.stranger()
	put := func(fs ...*F) {
		c.e.Do(func() {
			for _, f := range fs {
				c.e.Inject(enc(f))
			}
		})
		mc.Quiet()
	}
	if pre == 1 {
		put(fr("CONNECT", "accept-version", "1.2"), fr("SUBSCRIBE", "id", "1", "destination", "/queue/a", "ack", "client"),
			fr("SEND", "destination", "/queue/a").body("m"), fr("BEGIN", "transaction", "t"), fr("SEND", "destination", "/queue/a", "transaction", "t"))
	}
	f := fr(cmd, usual[cmd]...)
	done := false
	if mode == 0 {
		for i := range f.H {
			if f.H[i][0] == name {
				f.H[i][1] = value
				done = true
			}
		}
	}
	if !done {
		f.H = append(f.H, [2]string{name, value})
	}
	switch then {
	case 0:
		put(f, fr("COMMIT", "transaction", "t"), fr("NACK", "id", "1"))
	case 1:
		put(f)
		put(fr("SEND", "destination", "/queue/a"))
		put(fr("ACK", "id", "1", "message-id", "1", "subscription", "1"))
		put(fr("ACK", "id", "2", "message-id", "2", "subscription", "2"))
		put(fr("UNSUBSCRIBE", "id", "2"))
	case 2:
		put(f)
		c.e.Do(func() { c.e.InjectEOF(nil) })
		mc.Quiet()
		if !c.e.Closed() {
			viol("S08,S14", "the connection is not closed at its end")
		}
	}
	v.alive("S08")
	mc.Outcome("done")
}

// stranger is a client outside the specification.
func (v *srv) stranger() *scli {
	c := &scli{v: v, quiet: true}
	c.e, c.far = mc.NewPipe("stranger", "server")
	mc.Send(v.l.ch, accepted{c: c.e})
	return c
}

// stuckFn: a client stops reading while much is sent to it.
func stuckFn(deep int) {
	kinds := []string{"topic", "topics", "auto", "client", "receipts", "error", "heart-beat"}
	kind := kinds[mc.Choose(len(kinds))]
	n := []int{1, 20, 150}[mc.Choose(3)]
	end := mc.Choose(3)
	limit := mc.Choose(3)
	v := newSrv()
	cl := v.clients("1.2")
	o := cl[0]
	c := v.client()
	if kind == "heart-beat" {
		c.send(fr("CONNECT", "accept-version", "1.2", "heart-beat", "0,1000"))
	} else {
		c.connect("1.2")
	}
	v.idle("connected")
	switch kind {
	case "topic":
		c.send(fr("SUBSCRIBE", "id", "s", "destination", "/topic/a"))
	case "topics":
		c.send(fr("SUBSCRIBE", "id", "s", "destination", "/topic/a"), fr("SUBSCRIBE", "id", "t", "destination", "/topic/a"))
	case "auto":
		c.send(fr("SUBSCRIBE", "id", "s", "destination", "/queue/a"))
	case "client":
		for i := 0; i < 20; i++ {
			c.send(fr("SUBSCRIBE", "id", fmt.Sprint("s", i), "destination", fmt.Sprint("/queue/a", i), "ack", "client"))
		}
	}
	v.idle("subscribed")
	// the far end has not read anything yet
	c.far.SetLimit(len(c.e.Writes()) + limit)
	v.b.stuck(c.i, true)
	for i := 0; i < n; i++ {
		switch kind {
		case "topic", "topics":
			o.send(v.msg("/topic/a"))
		case "auto":
			o.send(v.msg("/queue/a"))
		case "client":
			o.send(v.msg(fmt.Sprint("/queue/a", i%20)))
		case "receipts":
			c.send(v.msg("/topic/b", "receipt", fmt.Sprint(i)))
		case "error":
			c.send(fr("COMMIT", "transaction", "u"), v.msg("/topic/b"))
		case "heart-beat":
			mc.Sleep(1100 * time.Millisecond)
		}
	}
	v.idle("while it is stuck")
	v.alive("S08")
	switch end {
	case 0: // reads again
		v.b.stuck(c.i, false)
		mc.Go("reader", func() {
			mc.Daemon()
			buf := make([]byte, 4096)
			for {
				if _, err := c.far.Read(buf); err != nil {
					return
				}
			}
		})
		v.idle("when it reads again")
	case 1: // is gone
		v.b.stuck(c.i, false)
		c.cut()
		v.idle("when it is gone")
	}
	v.alive("S08")
	mc.Outcome(kind)
}

// ---------------------------------------------------------------- S09

var hdrSets = [][]string{
	{}, {"receipt", "r"}, {"message-id", "forged"}, {"subscription", "forged"}, {"ack", "forged"}, {"message-id", "7", "subscription", "o", "ack", "7"},
	{"content-type", "text/plain"}, {"x", "1", "x", "2"}, {"k:colon", "v\\back\nline\rret:c"}, {"empty", ""}, {"X", "a", "x", "b"}, {"transaction", "t"},
	{"receipt-id", "1"}, {"version", "1.1"}, {"heart-beat", "1,1"}, {"login", "me"}, {"spaces", "  a  "}, {"ü", "é☃"},
	{"message-id", "1", "message-id", "2"}, {"message", "m"},
}

var hdrBodies = []string{"", "b", "a\x00b", "\x00", "line\nline\r\n", "\xff\xfe", "SEND\ndestination:/queue/a\n\n\x00"}

// hdrFn: every SEND, every way to receive it.
func hdrFn(deep int) {
	h1 := hdrSets[mc.Choose(len(hdrSets))]
	h2 := hdrSets[mc.Choose(len(hdrSets))]
	body := hdrBodies[mc.Choose(len(hdrBodies))]
	cl := mc.Choose(2) // with content-length
	if cl == 0 && strings.Contains(body, "\x00") {
		return
	}
	way := mc.Choose(6)
	ver := []string{"1.1", "1.2"}[mc.Choose(2)]
	v := newSrv()
	s := v.clients(ver, ver, "1.2")
	dest := "/queue/a"
	if way >= 4 {
		dest = "/topic/a"
	}
	f := fr("SEND", "destination", dest)
	for _, h := range [][]string{h1, h2} {
		for i := 0; i < len(h); i += 2 {
			if _, dup := f.Has(h[i]); dup && h[i] == "transaction" {
				continue
			}
			f.H = append(f.H, [2]string{h[i], h[i+1]})
		}
	}
	if cl == 1 {
		f.H = append(f.H, [2]string{"content-length", fmt.Sprint(len(body))})
	}
	f.Body = []byte(body)
	sub := func(c *scli, id, ack string) {
		c.send(fr("SUBSCRIBE", "id", id, "destination", dest, "ack", ack))
		v.idle("subscribe " + id)
	}
	send := func() {
		_, tx := f.Has("transaction")
		if tx {
			s[0].send(fr("BEGIN", "transaction", "t"))
		}
		s[0].send(f)
		if tx {
			s[0].send(fr("COMMIT", "transaction", "t"))
		}
		v.idle("sent")
	}
	switch way {
	case 0:
		sub(s[1], "o:1", "auto")
		send()
	case 1:
		send()
		sub(s[1], "o", "client")
		s[1].send(s[1].ackFrame("ACK", s[1].got[0]))
		v.idle("acknowledged")
	case 2: // rejected, then taken by another
		sub(s[1], "o", "client-individual")
		send()
		s[1].send(fr("UNSUBSCRIBE", "id", "o"), s[1].ackFrame("NACK", s[1].got[0]))
		v.idle("rejected")
		sub(s[2], "\\p\n", "client")
		s[2].cut()
		v.idle("cut")
		sub(s[0], "q", "auto")
	case 3: // returned to oneself
		sub(s[1], "o", "client")
		send()
		s[1].send(s[1].ackFrame("NACK", s[1].got[0]))
		v.idle("rejected")
		s[1].cut()
		v.idle("cut")
		sub(s[2], "q", "auto")
	case 4:
		sub(s[1], "o", "client")
		send()
	case 5:
		sub(s[1], "o", "auto")
		sub(s[2], "o", "client-individual")
		sub(s[1], "p", "client")
		sub(s[0], "\\p\n", "auto")
		send()
	}
	mc.Outcome("done")
}

// ---------------------------------------------------------------- S12

type tempErr struct{ n int }

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return false }

// acceptFn: every sequence of temporary errors and connections.
func acceptFn(deep int) {
	v := newSrv()
	nerr := 0
	var first, prev time.Duration
	mc.Quiet()
	for i := 0; i < deep; i++ {
		// a run of errors, then a connection
		n := []int{0, 1, 2, 3, 12, 70}[mc.Choose(6)]
		for j := 0; j < n; j++ {
			calls, at := v.l.calls, mc.NowNS()
			if calls != nerr+len(v.cl)+1 {
				viol("S12", "Accept was called %d times", calls)
			}
			mc.Send(v.l.ch, accepted{err: tempErr{j}})
			nerr++
			mc.Quiet()
			if v.l.calls != calls {
				viol("S12", "no pause after a temporary error")
			}
			mc.Sleep(6 * time.Second)
			if v.l.calls != calls+1 {
				viol("S12", "Accept is not called again within 6 s")
			}
			d := time.Duration(v.l.callAt[calls] - at)
			if d <= 0 || d > 5*time.Second {
				viol("S12", "pause of %v after %d errors", d, j+1)
			}
			switch {
			case j == 0 && first == 0:
				first = d
				if d > time.Second {
					viol("S12", "first pause is %v", d)
				}
			case j == 0 && d != first:
				viol("S12", "the pause is %v after a success, %v the first time", d, first)
			case j > 0 && (d < prev || d == prev && d < 5*time.Second):
				viol("S12", "the pause does not grow: %v, %v", prev, d)
			}
			prev = d
		}
		calls, at := v.l.calls, mc.NowNS()
		c := v.client().connect("1.2")
		v.b.extra = "S12"
		v.idle("connecting")
		v.b.extra = ""
		if mc.NowNS() != at {
			viol("S12", "time passes")
		}
		if len(c.in) == 0 || c.in[0].Cmd != "CONNECTED" {
			viol("S12", "an accepted connection is not served")
		}
		if v.l.calls != calls+1 {
			viol("S12", "Accept is not called at once after a success")
		}
	}
	v.cl[0].send(fr("SUBSCRIBE", "id", "s", "destination", "/topic/a"))
	v.idle("")
	v.cl[len(v.cl)-1].send(v.msg("/topic/a"))
	v.idle("in the end")
	mc.Outcome("done")
}

func init() {
	scen(&Scenario{Name: "s-connect", Props: []string{"S01"},
		What:  "every first frame over an alphabet, and further frames",
		Quick: []Bound{{Delay: true, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}, {Delay: true, PB: 2, Shards: 256}},
		Fn: connectFn})
	scen(&Scenario{Name: "s-auth", Props: []string{"S01"},
		What:  "every set of credentials under every policy of the authenticator, and further frames",
		Quick: []Bound{{Delay: true, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}},
		Fn: authFn})
	scen(&Scenario{Name: "s-names", Props: []string{"S02", "S03", "S05"},
		What:  "every pair of destination names over an alphabet of similar ones: independent unless equal",
		Quick: []Bound{{Delay: true, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}},
		Fn: namesFn})
	scen(&Scenario{Name: "s-err", Props: []string{"S11", "S07", "S06"},
		What:  "every refused frame in several session states, and frames behind it",
		Quick: []Bound{{Delay: true, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 1, Shards: 64, Deep: 1}, {Delay: true, PB: 2, Shards: 64, Deep: 1}},
		Fn: errFn})
	scen(&Scenario{Name: "s-raw", Props: []string{"S08"},
		What:  "every sequence of tokens from a client",
		Quick: []Bound{{Delay: true, Deep: 3, Shards: 16}}, Thorough: []Bound{{Delay: true, Deep: 4, Shards: 64}, {Delay: true, Deep: 5, Shards: 64}},
		Fn: rawFn})
	scen(&Scenario{Name: "s-values", Props: []string{"S08"},
		What:  "every command with any value for any header entry",
		Quick: []Bound{{Delay: true, Shards: 15}}, Thorough: []Bound{{Delay: true, Shards: 15}, {Delay: true, PB: 1, Shards: 240}},
		Fn: valueFn})
	scen(&Scenario{Name: "s-stuck", Props: []string{"S08"},
		What:  "a client that stops reading, for a while or until it is gone",
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Steps: 200000, Only: "S15"}, {Delay: true, Shards: 16, Steps: 200000}}, Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 128, Steps: 200000, Only: "S15"}, {Delay: true, PB: 1, Shards: 64, Steps: 200000}},
		Fn: stuckFn})
	scen(&Scenario{Name: "s-hdr", Props: []string{"S09"},
		What:  "every SEND over an alphabet of headers and bodies, every way to receive it",
		Quick: []Bound{{Delay: true, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}},
		Fn: hdrFn})
	scen(&Scenario{Name: "s-accept", Props: []string{"S12"},
		What:  "every sequence of temporary accept errors and connections",
		Quick: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Deep: 2, Only: "S15"}, {Delay: true, Deep: 3, Shards: 8}, {Delay: true, PB: 1, Deep: 2, Shards: 8}}, Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 128, Deep: 2, Only: "S15"}, {Delay: true, Deep: 4, Shards: 16}, {Delay: true, PB: 2, Deep: 3, Shards: 16}},
		Fn: acceptFn})
}
