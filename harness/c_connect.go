package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"

	"stompmc/mc"
	"stompmc/mc/context"
	mcnet "stompmc/mc/net"
	"stompmc/mc/time"
	"stompmc/stomp"
)

// ---------------------------------------------------------------- C01

var errOption = errors.New("option refused")

// copt is a connect option together with what it means for the CONNECT frame.
type copt struct {
	name string
	opt  Opt
	eff  func(x *cexp)
}

type cexp struct {
	cmd             string
	host            string
	login, pass     string
	versions        []string
	send, recv      int64
	custom          [][2]string
	err             error
	unsupportedVers bool
}

func mkLogin(l, p string) copt {
	return copt{fmt.Sprintf("Login(%s,%s)", l, p), stomp.ConnOpt.Login(l, p), func(x *cexp) { x.login, x.pass = l, p }}
}
func mkHost(h string) copt {
	return copt{"Host(" + h + ")", stomp.ConnOpt.Host(h), func(x *cexp) { x.host = h }}
}
func mkHeader(k, v string) copt {
	return copt{"Header(" + k + "," + v + ")", stomp.ConnOpt.Header(k, v), func(x *cexp) { x.custom = append(x.custom, [2]string{k, v}) }}
}
func mkVers(vs ...string) copt {
	var l []stomp.Version
	for _, v := range vs {
		l = append(l, stomp.Version(v))
	}
	return copt{fmt.Sprint("AcceptVersion", vs), stomp.ConnOpt.AcceptVersion(l...), func(x *cexp) {
		for _, v := range vs {
			if v != "1.0" && v != "1.1" && v != "1.2" {
				x.err = stomp.ErrUnsupportedVersion
				return
			}
			x.versions = append(x.versions, v)
		}
	}}
}
func mkHB(s, r time.Duration) copt {
	return copt{fmt.Sprintf("HeartBeat(%v,%v)", s, r), stomp.ConnOpt.HeartBeat(s, r), func(x *cexp) {
		x.send, x.recv = int64(s/time.Millisecond), int64(r/time.Millisecond)
	}}
}

// connectAlphabet: each group contributes at most one of its elements (each
// element is a list of options applied in order).
func connectAlphabet() [][][]copt {
	nop := func(name string, o Opt) copt { return copt{name, o, func(*cexp) {}} }
	bad := copt{"error", func(*stomp.Conn) error { return errOption }, func(x *cexp) { x.err = errOption }}
	stompO := copt{"UseStomp", stomp.ConnOpt.UseStomp, func(x *cexp) { x.cmd = "STOMP" }}
	return [][][]copt{
		{nil, {mkLogin("scott", "ti:ger")}, {mkLogin("scott", "")}, {mkLogin("", "secret")}, {mkLogin("a", "b"), mkLogin("c", "d")}},
		{nil, {mkHost("example")}, {mkHost("a"), mkHost("b\\:c")}},
		{nil, {stompO}},
		{nil, {mkVers("1.1")}, {mkVers("1.2", "1.0")}, {mkVers("1.1"), mkVers("1.2")}, {mkVers("1.2", "9.9")}, {mkVers("1.3")}, {mkVers("1.2", "1.2"), mkVers("1.2", "1.1", "1.0")}},
		{nil, {mkHB(0, 0)}, {mkHB(1500*time.Microsecond, 2*time.Second)}, {mkHB(time.Hour, 0)}, {mkHB(time.Second, time.Second), mkHB(7*time.Millisecond, 8*time.Millisecond)}},
		{nil, {mkHeader("x", "1")}, {mkHeader("host", "evil"), mkHeader("login", "evil")}, {mkHeader("x", "1"), mkHeader("x", "2"), mkHeader("accept-version", "1.0")}, {mkHeader("heart-beat", "9,9"), mkHeader("n", "a\nb")}},
		{nil, {nop("nil", nil)}, {bad}, {nop("others", func(c *stomp.Conn) error {
			for _, o := range []Opt{stomp.ConnOpt.MsgSendTimeout(time.Second), stomp.ConnOpt.RcvReceiptTimeout(time.Second), stomp.ConnOpt.DisconnectReceiptTimeout(time.Second),
				stomp.ConnOpt.UnsubscribeReceiptTimeout(time.Second), stomp.ConnOpt.HeartBeatError(time.Second), stomp.ConnOpt.HeartBeatGracePeriodMultiplier(2),
				stomp.ConnOpt.ReadChannelCapacity(1), stomp.ConnOpt.WriteChannelCapacity(1), stomp.ConnOpt.ReadBufferSize(64), stomp.ConnOpt.WriteBufferSize(64),
				stomp.ConnOpt.WithStats(), stomp.ConnOpt.Logger(nil)} {
				if err := o(c); err != nil {
					return err
				}
			}
			return nil
		})}},
	}
}

func connectFrameFn(deep int) {
	groups := connectAlphabet()
	var seq []copt
	n := 1
	for _, g := range groups {
		n *= len(g)
	}
	k := mc.Choose(n)
	var picks [][]copt
	for _, g := range groups {
		picks = append(picks, g[k%len(g)])
		k /= len(g)
	}
	// the order of groups: as listed, reversed, or rotated
	switch ord := mc.Choose(2 + deep); ord {
	case 0:
		for _, p := range picks {
			seq = append(seq, p...)
		}
	case 1:
		for i := len(picks) - 1; i >= 0; i-- {
			seq = append(seq, picks[i]...)
		}
	default:
		for i := range picks {
			seq = append(seq, picks[(i+ord)%len(picks)]...)
		}
	}
	x := cexp{cmd: "CONNECT", send: 60000, recv: 60000}
	// the address of the server and the host it names
	addrs := [][2]string{{"server:61613", "server"}, {"[fe80::1%eth0]:61613", "fe80::1%eth0"}, {"pipe", "default"}, {"10.1.2.3:5", "10.1.2.3"}}
	transport := mc.Choose(3)
	ad := addrs[0]
	if transport > 0 {
		ad = addrs[mc.Choose(len(addrs))]
		if transport == 2 && ad[0] == "pipe" {
			return
		}
	}
	opts := []Opt{stomp.ConnOpt.Logger(nolog{})}
	var names []string
	p := newPeer()
	p.at(ad[0])
	if transport == 2 {
		// Dial puts the host of the address in front of the options
		x.host = ad[1]
	}
	for _, o := range seq {
		opts = append(opts, o.opt)
		names = append(names, o.name)
		o.eff(&x)
		if x.err != nil {
			break
		}
	}
	if x.err != nil {
		opts = opts[:1]
		for _, o := range seq {
			opts = append(opts, o.opt)
		}
	}
	if x.host == "" {
		x.host = "default"
		if transport == 1 {
			x.host = ad[1]
		}
	}
	what := strings.Join(names, " ")
	var c *stomp.Conn
	var err error
	switch transport {
	case 0:
		c, err = stomp.Connect(p.e.Plain(), opts...)
	case 1:
		c, err = stomp.Connect(p.e, opts...)
	case 2:
		dialed := 0
		mcnet.DialHook = func(ctx context.Context, network, addr string) (net.Conn, error) {
			dialed++
			if network != "tcp" || addr != ad[0] {
				viol("C01", "dialed %s %s", network, addr)
			}
			return p.e, nil
		}
		c, err = stomp.Dial("tcp", ad[0], opts...)
		if dialed != 1 {
			viol("C01", "dialed %d times", dialed)
		}
	}
	if x.err != nil {
		if err == nil || c != nil {
			viol("C01,C02", "%s: connecting succeeded although an option failed", what)
		}
		if !errors.Is(err, x.err) && err.Error() != x.err.Error() {
			viol("C01", "%s: error %q instead of the option's %q", what, err, x.err)
		}
		if len(p.e.Written()) != 0 {
			viol("C01", "%s: %q written although an option failed", what, p.e.Written())
		}
		mc.Outcome("option error")
		return
	}
	if err != nil {
		viol("C01,C02", "%s: cannot connect: %v", what, err)
	}
	mc.Quiet()
	if len(p.In) != 1 || p.In[0] == nil || p.dec.Rest() != 0 {
		viol("C01", "%s: connecting wrote %q instead of one frame", what, p.e.Written())
	}
	f := p.In[0]
	want := map[string]string{"host": x.host, "heart-beat": fmt.Sprintf("%d,%d", x.send, x.recv)}
	if len(x.versions) == 0 {
		x.versions = []string{"1.0", "1.1", "1.2"}
	}
	want["accept-version"] = strings.Join(x.versions, ",")
	if x.login != "" || x.pass != "" {
		want["login"], want["passcode"] = x.login, x.pass
	}
	if f.Cmd != x.cmd || len(f.Body) != 0 {
		viol("C01", "%s: wrote %v", what, f)
	}
	for _, k := range []string{"host", "heart-beat", "accept-version", "login", "passcode"} {
		v, ok := want[k]
		if !ok {
			// only a custom entry may name it
			continue
		}
		if g, has := f.Has(k); !has || g != v {
			viol("C01", "%s: %s is %q instead of %q", what, k, g, v)
		}
	}
	if len(f.H) != len(want)+len(x.custom) {
		viol("C01", "%s: unexpected entries in %v", what, f)
	}
	for i, e := range x.custom {
		if f.H[len(want)+i] != e {
			viol("C01", "%s: custom entry %v not appended: %v", what, e, f)
		}
	}
	// the same options say the same once more
	q := newPeer()
	q.at(ad[0])
	switch transport {
	case 0:
		_, err = stomp.Connect(q.e.Plain(), opts...)
	case 1:
		_, err = stomp.Connect(q.e, opts...)
	case 2:
		mcnet.DialHook = func(ctx context.Context, network, addr string) (net.Conn, error) { return q.e, nil }
		_, err = stomp.Dial("tcp", "server:61613", opts...)
	}
	if err != nil || len(q.In) != 1 || q.In[0] == nil || q.In[0].String() != f.String() {
		viol("C01,C16", "%s: the second connection with the same options: %v, wrote %v after %v", what, errStr(err), q.In, f)
	}
	mc.Outcome(f.String())
}

// ---------------------------------------------------------------- C02

type reply struct {
	name  string
	raw   []byte
	ok    bool
	ver   string
	msg   string // must be contained in the error
	quiet bool   // nothing comes
	eof   error
	sess  string
	serv  string
}

func connectReplies() []reply {
	var out []reply
	vers := []struct {
		v  string
		ok bool
	}{{"-", true}, {"1.0", true}, {"1.1", true}, {"1.2", true}, {"1.3", false}, {"2", false}, {"1.2 ", false}, {"1.0,1.1", false}}
	hbs := []struct {
		v  string
		ok bool
	}{{"-", true}, {"0,0", true}, {"1000,2000", true}, {"a,b", false}, {"1", false}, {"-1,2", false}, {"1,2,3", false}, {"99999999999999999999,0", false}, {"0,9223372036855", false}, {"", false}, {" 1,2", false}}
	for _, v := range vers {
		for _, h := range hbs {
			for _, extra := range []bool{false, true} {
				f := fr("CONNECTED")
				if v.v != "-" {
					f.H = append(f.H, [2]string{"version", v.v})
				}
				if h.v != "-" {
					f.H = append(f.H, [2]string{"heart-beat", h.v})
				}
				r := reply{name: fmt.Sprintf("CONNECTED version=%s heart-beat=%s extra=%v", v.v, h.v, extra), ok: v.ok && h.ok, ver: v.v}
				if extra {
					f.H = append(f.H, [2]string{"session", "s:1"}, [2]string{"server", "srv/1"}, [2]string{"version", "7"}, [2]string{"session", "s2"})
					r.sess, r.serv = "s:1", "srv/1"
				}
				if v.v == "-" {
					r.ver = "1.0"
					if extra {
						r.ver, r.ok = "7", false
					}
				}
				r.raw = enc(f)
				out = append(out, r)
			}
		}
	}
	bad := func(name string, raw string, msg string) {
		out = append(out, reply{name: name, raw: []byte(raw), msg: msg})
	}
	bad("ERROR", "ERROR\nmessage:no such host\n\nbody\x00", "no such host")
	bad("ERROR with version", "ERROR\nmessage:bad\nversion:1.2\n\n\x00", "bad")
	bad("ERROR without message", "ERROR\n\n\x00", "")
	bad("ERROR empty message", "ERROR\nmessage:\n\n\x00", "")
	bad("RECEIPT", "RECEIPT\nreceipt-id:1\n\n\x00", "")
	bad("MESSAGE", "MESSAGE\nmessage:x\n\n\x00", "")
	bad("CONNECT", "CONNECT\nversion:1.2\n\n\x00", "")
	bad("heart-beat first", "\n", "")
	bad("heart-beat then CONNECTED", "\nCONNECTED\nversion:1.2\n\n\x00", "")
	bad("garbage", "HTTP/1.1 400 Bad Request\r\n\r\n", "")
	bad("lower case", "connected\nversion:1.2\n\n\x00", "")
	bad("bad header", "CONNECTED\nversion\n\n\x00", "")
	bad("empty name", "CONNECTED\n:x\n\n\x00", "")
	bad("bad content-length", "CONNECTED\ncontent-length:-1\n\n\x00", "")
	bad("content-length without NUL", "CONNECTED\ncontent-length:1\n\nxy\x00", "")
	for _, cut := range []string{"", "CONN", "CONNECTED\n", "CONNECTED\nversion:1.2\n\n", "CONNECTED\nversion:1.2\n\nbody"} {
		out = append(out, reply{name: "EOF after " + cut, raw: []byte(cut), eof: io.EOF})
		out = append(out, reply{name: "reset after " + cut, raw: []byte(cut), eof: mc.ErrReset})
	}
	for _, cut := range []string{"", "CONNECTED\nversion:1.2\n\n"} {
		out = append(out, reply{name: "silence after " + cut, raw: []byte(cut), quiet: true})
	}
	return out
}

var theReplies = connectReplies()

// the ways to connect
const (
	viaPlain = iota
	viaConnect
	viaContext
	viaDial
	viaDialContext
	viaDeadline
	viaDialDeadline
	nVia
)

var viaNames = []string{"Connect(ReadWriteCloser)", "Connect", "ConnectWithContext", "Dial", "DialWithContext", "ConnectWithContext(deadline)", "DialWithContext(deadline)"}

func connectReplyFn(deep int) {
	k := mc.Choose(len(theReplies) * nVia * 2)
	sized := k%2 == 1
	k /= 2
	r, via := theReplies[k/nVia], k%nVia
	timed := via == viaDeadline || via == viaDialDeadline
	if r.quiet && !timed {
		return
	}
	split := 0
	if deep > 0 {
		split = mc.Choose(2)
	}
	p := newPeer()
	p.On = func(p *Peer, f *F) bool {
		if f.Cmd != "CONNECT" && f.Cmd != "STOMP" {
			return false
		}
		switch {
		case split == 1 && len(r.raw) > 2:
			p.e.Inject(r.raw[:len(r.raw)/2])
			p.e.Inject(r.raw[len(r.raw)/2:])
		case len(r.raw) > 0:
			p.e.Inject(r.raw)
		}
		if r.eof != nil {
			if r.eof == io.EOF {
				p.e.InjectEOF(nil)
			} else {
				p.e.InjectEOF(r.eof)
			}
		}
		return true
	}
	mcnet.DialHook = func(ctx context.Context, network, addr string) (net.Conn, error) { return p.e, nil }
	ctx := context.Background()
	if timed {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, 5*time.Second)
		defer cancel()
	}
	var c *stomp.Conn
	var err error
	var resp []string
	opts := []Opt{stomp.ConnOpt.Logger(nolog{}), stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.ResponseHeaders(nil)}
	if sized {
		opts = append(opts, stomp.ConnOpt.ReadBufferSize(512), stomp.ConnOpt.WriteBufferSize(512), stomp.ConnOpt.ReadChannelCapacity(3), stomp.ConnOpt.WriteChannelCapacity(3),
			stomp.ConnOpt.WithStats(), stomp.ConnOpt.UseStomp, stomp.ConnOpt.Host("h"), stomp.ConnOpt.Login("l", "p"), stomp.ConnOpt.MsgSendTimeout(time.Hour), stomp.ConnOpt.RcvReceiptTimeout(time.Hour))
	}
	t0 := mc.NowNS()
	switch via {
	case viaPlain:
		c, err = stomp.Connect(p.e.Plain(), opts...)
	case viaConnect:
		c, err = stomp.Connect(p.e, opts...)
	case viaContext, viaDeadline:
		c, err = stomp.ConnectWithContext(ctx, p.e, opts...)
	case viaDial:
		c, err = stomp.Dial("tcp", "server:61613", opts...)
	case viaDialContext, viaDialDeadline:
		c, err = stomp.DialWithContext(ctx, "tcp", "server:61613", opts...)
	}
	_ = resp
	what := viaNames[via] + ", reply " + r.name
	if (err == nil) != (c != nil) {
		viol("C02", "%s: connection %v and error %v", what, c != nil, err)
	}
	if !r.ok {
		if err == nil {
			viol("C02", "%s: connecting succeeded", what)
		}
		if r.msg != "" && !strings.Contains(err.Error(), r.msg) {
			viol("C02", "%s: error %q does not carry the server's message", what, err)
		}
		if r.quiet {
			if d := mc.NowNS() - t0; d < int64(5*time.Second) || d > int64(6*time.Second) {
				viol("C02", "%s: gave up after %v", what, time.Duration(d))
			}
		} else if mc.NowNS() != t0 {
			viol("C02", "%s: took %v to fail", what, time.Duration(mc.NowNS()-t0))
		}
		mc.Quiet()
		if len(p.Frames()) != 1 {
			viol("C02", "%s: wrote %s", what, p.Cmds())
		}
		dialed := via == viaDial || via == viaDialContext || via == viaDialDeadline
		if dialed && !p.e.Closed() {
			viol("C02,C15", "%s: the connection it dialed was left open", what)
		}
		if b := leftovers(); len(b) > 0 {
			viol("C02,C15", "%s: goroutines left behind: %v", what, b)
		}
		mc.Outcome("refused: " + err.Error())
		return
	}
	if err != nil {
		viol("C02", "%s: connecting failed: %v", what, err)
	}
	if g := c.Version().String(); g != r.ver {
		viol("C02", "%s: version %q", what, g)
	}
	if c.Session() != r.sess || c.Server() != r.serv {
		viol("C02", "%s: session %q server %q", what, c.Session(), c.Server())
	}
	mc.Outcome("connected, version " + r.ver)
	// the deadline ends with the handshake: much later the connection works
	if strings.Contains(r.name, "heart-beat=1000") {
		// the peer asked for heart-beats
	}
	mc.Sleep(20 * time.Second)
	if p.e.ReadDeadlineSet() {
		viol("C02", "%s: the read deadline is still set", what)
	}
	if err := c.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt); err != nil {
		viol("C02", "%s: not usable after connecting: %v", what, err)
	}
	if err := c.Disconnect(); err != nil {
		viol("C02", "%s: disconnect: %v", what, err)
	}
	if b := leftovers(); len(b) > 0 {
		viol("C02,C15", "%s: goroutines left behind: %v", what, b)
	}
}

// a transport that fails or accepts only part of the CONNECT frame
func connectWriteFn(deep int) {
	p := newPeer()
	n := 0
	var total int
	at := mc.Choose(70)
	kind := mc.Choose(3)
	p.e.Fault = func(m int) (int, error) {
		if n+m > at {
			k := at - n
			n = at
			switch kind {
			case 0:
				return k, mc.ErrPipe
			case 1:
				if k == 0 {
					return 0, io.ErrClosedPipe
				}
				return k, io.ErrClosedPipe
			}
			return k, nil // a short write without an error
		}
		n += m
		total += m
		return m, nil
	}
	c, err := stomp.Connect(p.e, stomp.ConnOpt.Logger(nolog{}), stomp.ConnOpt.Host("h"))
	full := bytes.HasSuffix(p.e.Written(), []byte{0})
	if err == nil && !full {
		viol("C02,F04", "connecting succeeded although only %q was written", p.e.Written())
	}
	if err != nil && c != nil {
		viol("C02", "error and connection")
	}
	if err != nil {
		mc.Quiet()
		if b := mc.Blocked(); len(b) > 0 {
			viol("C02,C15", "goroutines left behind: %v", b)
		}
	}
	mc.Outcome(errStr(err))
}

// dialing itself fails, or is cut short by the context
func dialFn(deep int) {
	k := mc.Choose(4)
	p := newPeer()
	boom := errors.New("no route")
	mcnet.DialHook = func(ctx context.Context, network, addr string) (net.Conn, error) {
		switch k {
		case 0:
			return nil, boom
		case 3:
			return p.e, nil
		}
		done := ctx.Done()
		if done == nil {
			viol("C02", "the dial does not know the context's deadline")
		}
		mc.Recv(done)
		return nil, ctx.Err()
	}
	ctx := context.Background()
	if k == 1 {
		c, cancel := context.WithTimeout(ctx, time.Second)
		defer cancel()
		ctx = c
	}
	if k == 2 {
		c, cancel := context.WithDeadline(ctx, time.Now().Add(time.Second))
		defer cancel()
		ctx = c
	}
	c, err := stomp.DialWithContext(ctx, "tcp", "server:61613", stomp.ConnOpt.Logger(nolog{}))
	if k == 3 {
		if err != nil {
			viol("C02", "dial: %v", err)
		}
		c.Disconnect()
		return
	}
	if err == nil || c != nil {
		viol("C02", "dialing failed, but no error was returned")
	}
	if mc.NowNS() > int64(time.Second) {
		viol("C02", "dial returned at %v", time.Duration(mc.NowNS()))
	}
	if b := leftovers(); len(b) > 0 {
		viol("C02,C15", "goroutines left behind: %v", b)
	}
	mc.Outcome(errStr(err))
}

func init() {
	one := func(shards int) []Bound { return []Bound{{Delay: true, PB: 0, Shards: shards}} }
	scen(&Scenario{
		Name:     "c-connect-frame",
		Props:    []string{"C01"},
		What:     "every combination of connect options, in several orders, over the three kinds of transport",
		Fn:       connectFrameFn,
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 0, Shards: 64, Deep: 6}},
	})
	scen(&Scenario{
		Name:     "c-connect-reply",
		Props:    []string{"C02", "C15"},
		What:     "every reply of an alphabet of CONNECTED frames, errors, garbage, truncations and silence x every way to connect",
		Fn:       connectReplyFn,
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 64, Deep: 1}},
	})
	scen(&Scenario{
		Name:     "c-connect-write",
		Props:    []string{"C02"},
		What:     "the transport fails at every byte of the CONNECT frame",
		Fn:       connectWriteFn,
		Quick:    one(8),
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 8}},
	})
	scen(&Scenario{
		Name:     "c-dial",
		Props:    []string{"C02", "C15"},
		What:     "dialing fails or outlives the context",
		Fn:       dialFn,
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 4}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 4}},
	})
}
