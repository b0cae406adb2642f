package stomp_test

import (
	"errors"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
)

var _ = errors.New
var _ stomp.Version
var _ server.Server

type quietLog struct{}

func (quietLog) Debugf(string, ...interface{})   {}
func (quietLog) Infof(string, ...interface{})    {}
func (quietLog) Warningf(string, ...interface{}) {}
func (quietLog) Errorf(string, ...interface{})   {}
func (quietLog) Debug(string)                    {}
func (quietLog) Info(string)                     {}
func (quietLog) Warning(string)                  {}
func (quietLog) Error(string)                    {}

// demoStart serves s on a loopback port.
func demoStart(t *testing.T, s *server.Server) string {
	t.Helper()
	if s.Log == nil {
		s.Log = quietLog{}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go s.Serve(l)
	t.Cleanup(func() { l.Close() })
	return l.Addr().String()
}

// demoPeer speaks STOMP frames over one side of a connection.
type demoPeer struct {
	t  *testing.T
	c  net.Conn
	w  *frame.Writer
	mu sync.Mutex
	in chan *frame.Frame // frames received, closed at the end
}

func demoNewPeer(t *testing.T, c net.Conn) *demoPeer {
	p := &demoPeer{t: t, c: c, w: frame.NewWriter(c), in: make(chan *frame.Frame, 10000)}
	r := frame.NewReader(c)
	go func() {
		defer close(p.in)
		for {
			f, err := r.Read()
			if err != nil {
				return
			}
			if f != nil {
				p.in <- f
			}
		}
	}()
	t.Cleanup(func() { c.Close() })
	return p
}

// demoDial is a client of the server at addr, not yet connected.
func demoDial(t *testing.T, addr string) *demoPeer {
	t.Helper()
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	return demoNewPeer(t, c)
}

// demoLogin is a connected client of the server at addr.
func demoLogin(t *testing.T, addr string, headers ...string) *demoPeer {
	t.Helper()
	p := demoDial(t, addr)
	p.send("", frame.CONNECT, append([]string{"accept-version", "1.2", "host", "h"}, headers...)...)
	f := p.recv(5 * time.Second)
	if f == nil || f.Command != frame.CONNECTED {
		t.Fatalf("no CONNECTED but %v", f)
	}
	return p
}

func (p *demoPeer) send(body, command string, headers ...string) {
	f := frame.New(command, headers...)
	f.Body = []byte(body)
	p.mu.Lock()
	defer p.mu.Unlock()
	p.w.Write(f)
}

// recv is the next frame, or nil if none comes in time or the connection ends.
func (p *demoPeer) recv(d time.Duration) *frame.Frame {
	select {
	case f := <-p.in:
		return f
	case <-time.After(d):
		return nil
	}
}

// want fails the test unless the next frame is a command frame, with this body for a MESSAGE.
func (p *demoPeer) want(command, body string) *frame.Frame {
	p.t.Helper()
	f := p.recv(5 * time.Second)
	if f == nil {
		p.t.Fatalf("no %s %s", command, body)
	}
	if f.Command != command || command == frame.MESSAGE && string(f.Body) != body {
		p.t.Fatalf("%s %v %q instead of %s %s", f.Command, f.Header, f.Body, command, body)
	}
	return f
}

// sync waits until the server has handled everything sent so far.
func (p *demoPeer) sync(id string) {
	p.t.Helper()
	p.send("", frame.BEGIN, "transaction", "sync"+id)
	p.send("", frame.ABORT, "transaction", "sync"+id, "receipt", id)
	for {
		f := p.recv(5 * time.Second)
		if f == nil {
			p.t.Fatalf("no receipt %s", id)
		}
		if f.Command == frame.RECEIPT && f.Header.Get("receipt-id") == id {
			return
		}
		if f.Command == frame.ERROR {
			p.t.Fatalf("ERROR %v", f.Header)
		}
	}
}

// demoConnect is a library client connected to a server played by the peer.
func demoConnect(t *testing.T, version, heartBeat string, opts ...func(*stomp.Conn) error) (*stomp.Conn, *demoPeer) {
	t.Helper()
	a, b := net.Pipe()
	p := demoNewPeer(t, b)
	go func() {
		if f := p.recv(5 * time.Second); f != nil {
			h := []string{}
			if version != "" {
				h = append(h, "version", version)
			}
			if heartBeat != "" {
				h = append(h, "heart-beat", heartBeat)
			}
			p.send("", frame.CONNECTED, h...)
		}
	}()
	c, err := stomp.Connect(a, append([]func(*stomp.Conn) error{stomp.ConnOpt.Logger(quietLog{})}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { a.Close() })
	return c, p
}
