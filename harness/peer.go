package main

import (
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
)

// Peer is the scripted server at the other end of a client connection. It
// reacts inside the client's writes; when its answers take effect is decided
// by the schedule of the client's reading goroutine.
type Peer struct {
	e      *mc.End // the client's end
	far    *mc.End // the server's end
	dec    Decoder
	In     []*F // frames and heart-beats (nil) from the client, in order
	InAt   []int64
	Conn   *F                       // CONNECTED to answer with
	On     func(p *Peer, f *F) bool // returns true if it handled the frame
	NoRcpt bool                     // never answer receipts
	HangUp bool                     // close after DISCONNECT's receipt
	Held   []*F                     // frames whose receipts are withheld
	dead   bool
}

func newPeer() *Peer {
	p := &Peer{Conn: fr("CONNECTED", "version", "1.2")}
	p.e, p.far = mc.NewPipe("client", "server:61613")
	p.e.React = p.onWrite
	return p
}

// at gives the server another address, before anything is connected.
func (p *Peer) at(addr string) {
	p.e, p.far = mc.NewPipe("client", addr)
	p.e.React = p.onWrite
}

func (p *Peer) onWrite(b []byte) {
	fs := p.dec.Feed(b)
	if p.dec.err != nil {
		viol("C03,C01,C04,C10,C11,F01", "the client wrote something that is not a frame: %v: %q", p.dec.err, p.e.Written())
	}
	for _, f := range fs {
		p.In = append(p.In, f)
		p.InAt = append(p.InAt, mc.NowNS())
		mc.Trace("server gets %v", f)
		if f == nil {
			continue
		}
		if p.On != nil && p.On(p, f) {
			continue
		}
		p.Default(f)
	}
}

// Default answers f as a server should.
func (p *Peer) Default(f *F) {
	switch f.Cmd {
	case "CONNECT", "STOMP":
		if p.Conn != nil {
			p.Reply(p.Conn)
		}
		return
	}
	if p.NoRcpt {
		return
	}
	p.Receipt(f)
	if f.Cmd == "DISCONNECT" && p.HangUp {
		p.EOF()
	}
}

// Receipt answers f's receipt header, if any.
func (p *Peer) Receipt(f *F) {
	if r, ok := f.Has("receipt"); ok {
		p.Reply(fr("RECEIPT", "receipt-id", r))
	}
}

// Reply sends frames from within a reaction.
func (p *Peer) Reply(fs ...*F) {
	if !p.dead {
		p.e.Inject(encAll(fs...))
	}
}

func (p *Peer) EOF() {
	p.dead = true
	p.e.InjectEOF(nil)
	p.e.BreakWrites()
}

// Send makes frames arrive, as an action of the environment.
func (p *Peer) Send(fs ...*F) {
	p.e.Do(func() { p.Reply(fs...) })
}

// Cut ends the connection from the far side.
func (p *Peer) Cut(err error) {
	p.e.Do(func() {
		p.dead = true
		p.e.InjectEOF(err)
		p.e.BreakWrites()
	})
}

// Cmds lists the commands received, heart-beats as "\n".
func (p *Peer) Cmds() string {
	var s []string
	for _, f := range p.In {
		if f == nil {
			s = append(s, "<hb>")
		} else {
			s = append(s, f.Cmd)
		}
	}
	return strings.Join(s, " ")
}

// Frames lists the frames received without heart-beats.
func (p *Peer) Frames() []*F {
	var out []*F
	for _, f := range p.In {
		if f != nil {
			out = append(out, f)
		}
	}
	return out
}

// WholeFrames checks that the client wrote whole frames only.
func (p *Peer) WholeFrames() {
	if p.dec.err != nil || p.dec.Rest() > 0 {
		viol("C03", "the bytes written are not a sequence of whole frames: %q", p.e.Written())
	}
}

type nolog struct{}

func (nolog) Debugf(format string, value ...interface{})   {}
func (nolog) Infof(format string, value ...interface{})    {}
func (nolog) Warningf(format string, value ...interface{}) {}
func (nolog) Errorf(format string, value ...interface{})   {}
func (nolog) Debug(message string)                         {}
func (nolog) Info(message string)                          {}
func (nolog) Warning(message string)                       {}
func (nolog) Error(message string)                         {}

type Opt = func(*stomp.Conn) error

// dial connects a client to p; failing is a violation.
func (p *Peer) dial(opts ...Opt) *stomp.Conn {
	opts = append([]Opt{stomp.ConnOpt.Logger(nolog{})}, opts...)
	c, err := stomp.Connect(p.e, opts...)
	if err != nil {
		viol("*", "cannot connect: %v", err)
	}
	return c
}

// ---------------------------------------------------------------- helpers

// group runs functions concurrently; Wait blocks until all have returned.
type group struct {
	n    int
	done *mc.Chan[int]
}

func (g *group) Go(name string, fn func()) {
	if g.done == nil {
		g.done = mc.MakeChan[int](64)
	}
	g.n++
	mc.Go(name, func() {
		fn()
		mc.Send(g.done, 1)
	})
}

func (g *group) Wait() {
	for ; g.n > 0; g.n-- {
		mc.Recv(g.done)
	}
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

func body(i int) []byte { return []byte(fmt.Sprintf("m%d", i)) }

// leftovers lists the goroutines that are still there long afterwards.
func leftovers() []string {
	mc.Sleep(2 * time.Hour)
	mc.Quiet()
	return mc.Blocked()
}
