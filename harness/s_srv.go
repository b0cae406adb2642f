package main

import (
	"errors"
	"fmt"
	gonet "net"
	"strconv"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp/server"
)

// srv is a server with scripted clients.
type srv struct {
	b     *broker
	l     *listener
	s     *server.Server
	cl    []*scli
	next  int
	check func(where string) // further comparison when idle
	cred  []string           // headers of CONNECT
	spy   *spy
}

// listener hands out connections and errors in the order given.
type listener struct {
	ch     *mc.Chan[accepted]
	calls  int
	callAt []int64
}

type accepted struct {
	c   gonet.Conn
	err error
}

func (l *listener) Accept() (gonet.Conn, error) {
	l.calls++
	l.callAt = append(l.callAt, mc.NowNS())
	a := mc.Recv(l.ch)
	return a.c, a.err
}
func (l *listener) Close() error     { return nil }
func (l *listener) Addr() gonet.Addr { return nil }

type auth func(login, passcode string) bool

func (a auth) Authenticate(login, passcode string) bool { return a(login, passcode) }

func notWrong(login, passcode string) bool { return login != "wrong" }

// spied: the next server gets a storage that watches.
var spied bool

func newSrv(mod ...func(*server.Server)) *srv {
	v := &srv{b: newBroker(), l: &listener{ch: mc.MakeChan[accepted](16)}}
	v.b.auth = notWrong
	v.s = &server.Server{Log: nolog{}, Authenticator: auth(notWrong)}
	if spied {
		spied = false
		withSpy(v)(v.s)
	}
	for _, m := range mod {
		m(v.s)
	}
	mc.GoCode("server", func() {
		mc.Daemon()
		v.s.Serve(v.l)
	})
	return v
}

// scli is a scripted client; what the server writes is taken in at once.
type scli struct {
	v    *srv
	i    int
	e    *mc.End // the server's end
	far  *mc.End
	dec  Decoder
	in   []*F
	inAt []int64
	mids map[string]bool
	// messages received on acknowledging subscriptions: what to acknowledge
	got   []*F
	on    func(c *scli, f *F)
	ver   string
	quiet bool // not part of the specification
}

func (v *srv) client() *scli {
	c := &scli{v: v, mids: map[string]bool{}, ver: "1.2"}
	c.e, c.far = mc.NewPipe(fmt.Sprintf("client%d", len(v.cl)), "server")
	c.e.React = c.react
	c.i = v.b.connect(c)
	v.cl = append(v.cl, c)
	mc.Send(v.l.ch, accepted{c: c.e})
	return c
}

func (c *scli) react(p []byte) {
	if c.v.spy != nil && c.v.spy.started == 0 {
		viol("S13", "a client is answered before the storage has been started: %q", p)
	}
	fs := c.dec.Feed(p)
	if c.dec.err != nil {
		viol("S08,S09,F04", "the server wrote something that is not a frame: %v", c.dec.err)
	}
	for _, f := range fs {
		c.in = append(c.in, f)
		c.inAt = append(c.inAt, mc.NowNS())
		if f != nil && f.Cmd == "MESSAGE" {
			id := f.Get("message-id")
			if c.mids[id] {
				c.v.b.fail("S09,S04", "message-id %q is used twice on a connection", id)
			}
			c.mids[id] = true
			if _, ok := f.Has("ack"); ok {
				c.got = append(c.got, f)
			}
		}
		c.v.b.output(c.i, f)
		if c.on != nil && f != nil {
			c.on(c, f)
		}
	}
}

// send makes frames arrive at the server.
func (c *scli) send(fs ...*F) {
	c.e.Do(func() { c.inject(fs...) })
}

func (c *scli) inject(fs ...*F) {
	for _, f := range fs {
		if f != nil {
			c.v.b.input(c.i, f)
		}
		c.e.Inject(enc(f))
	}
}

// eof: the client shuts down its sending side; cut: it is gone.
func (c *scli) eof() {
	c.e.Do(func() { c.v.b.eof(c.i, false); c.e.InjectEOF(nil) })
}

func (c *scli) cut() {
	c.e.Do(func() { c.cutNow() })
}

func (c *scli) cutNow() {
	c.v.b.eof(c.i, true)
	c.e.InjectEOF(errors.New("connection reset"))
	c.e.BreakWrites()
}

func (c *scli) connect(ver string) *scli {
	c.ver = ver
	c.send(fr("CONNECT", append([]string{"accept-version", ver, "host", "h"}, c.v.cred...)...))
	return c
}

// clients connects n clients and waits for it.
func (v *srv) clients(vers ...string) []*scli {
	var out []*scli
	for _, ver := range vers {
		out = append(out, v.client().connect(ver))
	}
	v.idle("after connecting")
	return out
}

// idle waits until the server has nothing to do and compares.
func (v *srv) idle(where string) {
	mc.Quiet()
	for _, c := range v.cl {
		if c.dec.Rest() > 0 && !c.e.Closed() {
			v.b.fail("S08,F04", "%s: half a frame was written to client %d", where, c.i)
		}
	}
	v.b.settled(where)
	if v.check != nil {
		v.check(where)
	}
}

// msg is a SEND frame with a body of its own.
func (v *srv) msg(dest string, kv ...string) *F {
	v.next++
	return fr("SEND", append([]string{"destination", dest}, kv...)...).body("m" + strconv.Itoa(v.next))
}

func (c *scli) ackFrame(cmd string, f *F, kv ...string) *F {
	h := []string{"message-id", f.Get("message-id"), "subscription", f.Get("subscription")}
	if c.ver == "1.2" {
		h = []string{"id", f.Get("ack")}
	}
	return fr(cmd, append(h, kv...)...)
}

// finish ends all connections and looks at what remains in the queues: a
// fresh client gets every message that is not settled.
func (v *srv) finish(dests ...string) {
	for _, c := range v.cl {
		if !c.e.Closed() {
			c.cut()
			if len(v.cl) > 20 {
				v.idle("after a client left")
			}
		}
	}
	v.idle("after the clients left")
	d := v.clients("1.2")[0]
	for i, dst := range dests {
		d.send(fr("SUBSCRIBE", "id", fmt.Sprint("z", i), "destination", dst, "receipt", fmt.Sprint("rz", i)))
	}
	v.idle("when a new client reads the queues")
}

// alive checks that the server still serves others.
func (v *srv) alive(tag string) {
	old := v.b.extra
	v.b.extra = tag
	cs := v.clients("1.1", "1.2")
	cs[0].send(fr("SUBSCRIBE", "id", "w", "destination", "/queue/witness", "receipt", "1"))
	v.idle("witness")
	cs[1].send(v.msg("/queue/witness", "receipt", "2"))
	v.idle("witness")
	v.b.extra = old
}

// gone checks that nothing of the connections is left.
func (v *srv) gone(n int) {
	for _, c := range v.cl {
		if !c.e.Closed() {
			c.cut()
		}
	}
	mc.Sleep(2 * time.Hour)
	mc.Quiet()
	bl := mc.Blocked()
	if len(bl) > n {
		viol("S14", "goroutines are left when all connections have ended: %q", bl)
	}
	for _, c := range v.cl {
		if !c.e.Closed() {
			viol("S14,S08", "connection %d was never closed", c.i)
		}
	}
}
