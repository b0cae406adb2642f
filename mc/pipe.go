package mc

import (
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- connections

// stream is one direction of a connection.
type stream struct {
	chunks [][]byte
	ch     []uint64 // hash of the write of each chunk
	cvc    []vclock
	fh     []uint64 // hashes of the reads that freed space (limited streams)
	hw, hr uint64
	weof   bool // no more data after the chunks
	werr   error
	evc    vclock
	rgone  uint64 // hash of the reader's close, 0 while open
	limit  int    // chunks in flight before a write blocks, 0: no limit
	log    []byte
	recs   []WriteRec
}

// WriteRec describes one successful write.
type WriteRec struct {
	At     int64 // virtual time
	Off, N int
}

type deadline struct {
	o       Obj
	expired bool
	tm      *Timer
}

// End is one end of a connection; it implements net.Conn.
type End struct {
	Name     string
	in, out  *stream
	peer     *End
	o        Obj
	closed   uint64 // hash of the close
	rd, wd   deadline
	laddr    net.Addr
	raddr    net.Addr
	closes   int
	CloseErr error
	// React, if set, runs in the writing thread right after each write, as
	// part of the same transition; it may Inject into the writer's end.
	React func(p []byte)
	// OnClose, if set, runs in the closing thread as part of the close.
	OnClose func()
	// Fault decides what a write of n bytes does: k bytes are accepted, and err
	// is returned if not nil. It may use ChooseFault.
	Fault func(n int) (k int, err error)
}

type strAddr string

func (a strAddr) Network() string { return "tcp" }
func (a strAddr) String() string  { return string(a) }

// NewPipe returns the two ends of a connection.
func NewPipe(a, b string) (*End, *End) {
	s, r := &stream{}, &stream{}
	x := &End{Name: a, in: s, out: r, laddr: strAddr(a), raddr: strAddr(b)}
	y := &End{Name: b, in: r, out: s, laddr: strAddr(b), raddr: strAddr(a)}
	x.peer, y.peer = y, x
	return x, y
}

// Written is everything this end has written so far.
func (e *End) Written() []byte { return e.out.log }

// Writes lists the successful writes.
func (e *End) Writes() []WriteRec { return e.out.recs }

// Closed reports whether this end has been closed, Closes how often.
func (e *End) Closed() bool { return e.closed != 0 }
func (e *End) Closes() int  { return e.closes }

// Unread is what was written to this end and not read yet.
func (e *End) Unread() int {
	n := 0
	for _, c := range e.in.chunks {
		n += len(c)
	}
	return n
}

// SetLimit bounds the chunks this end's reader may leave unread before the
// other end's writes block.
func (e *End) SetLimit(n int) { e.in.limit = n }

func (e *End) LocalAddr() net.Addr  { return e.laddr }
func (e *End) RemoteAddr() net.Addr { return e.raddr }

var errClosed = net.ErrClosed

// ErrPipe and ErrReset are what a write to a vanished reader returns.
var ErrPipe error = &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
var ErrReset error = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}

type readOp struct {
	e    *End
	p    []byte
	n    int
	err  error
	done bool
}

func (o *readOp) Alts(t *Thread) int {
	e := o.e
	if e.closed != 0 || e.rd.expired || len(e.in.chunks) > 0 || e.in.weof {
		return 1
	}
	return 0
}

func (o *readOp) Hash(t *Thread, alt int) uint64 {
	e := o.e
	switch {
	case e.closed != 0:
		return mix3(t.h, 0x4e0, e.closed)
	case e.rd.expired:
		return mix3(t.h, 0x4e1, e.rd.o.h)
	case len(e.in.chunks) > 0:
		return mix4(t.h, mix(0x4e2, uint64(len(o.p))), e.in.hr, e.in.ch[0])
	}
	return mix4(t.h, 0x4e3, e.in.hr, e.in.hw)
}

func (o *readOp) Exec(t *Thread, alt int, h uint64) {
	e := o.e
	switch {
	case e.closed != 0:
		o.err = &net.OpError{Op: "read", Net: "tcp", Err: errClosed}
		return
	case e.rd.expired:
		o.err = &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		return
	case len(e.in.chunks) > 0:
		s := e.in
		c := s.chunks[0]
		o.n = copy(o.p, c)
		s.hr = h
		if x.cfg.Race {
			t.vc.join(s.cvc[0])
			t.tick()
		}
		if o.n < len(c) {
			s.chunks[0] = c[o.n:]
			return
		}
		s.chunks = s.chunks[1:]
		s.ch = s.ch[1:]
		if x.cfg.Race {
			s.cvc = s.cvc[1:]
		}
		if s.limit > 0 {
			s.fh = append(s.fh, h)
		}
		return
	}
	if x.cfg.Race {
		t.vc.join(e.in.evc)
	}
	o.err = e.in.werr
	if o.err == nil {
		o.err = io.EOF
	}
}
func (o *readOp) String() string { return "read " + o.e.Name }

func (e *End) Read(p []byte) (int, error) {
	Cur()
	if len(p) == 0 {
		return 0, nil
	}
	o := &readOp{e: e, p: p}
	park(o)
	return o.n, o.err
}

type writeOp struct {
	e   *End
	p   []byte
	err error
}

func (o *writeOp) Alts(t *Thread) int {
	e := o.e
	if e.closed != 0 || e.wd.expired || e.out.rgone != 0 || e.out.limit == 0 || len(e.out.chunks) < e.out.limit {
		return 1
	}
	return 0
}

func (o *writeOp) Hash(t *Thread, alt int) uint64 {
	e := o.e
	var h uint64
	switch {
	case e.closed != 0:
		h = mix3(t.h, 0x3e0, e.closed)
	case e.wd.expired:
		h = mix3(t.h, 0x3e1, e.wd.o.h)
	case e.out.rgone != 0:
		h = mix3(t.h, 0x3e2, e.out.rgone)
	default:
		h = mix3(t.h, 0x3e3, e.out.hw)
		if len(e.out.fh) > 0 {
			h = mix(h, e.out.fh[0])
		}
	}
	if e.React != nil {
		h = mix(h, e.in.hw)
	}
	return h
}

func (o *writeOp) Exec(t *Thread, alt int, h uint64) {
	e := o.e
	switch {
	case e.closed != 0:
		o.err = &net.OpError{Op: "write", Net: "tcp", Err: errClosed}
		return
	case e.wd.expired:
		o.err = &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
		return
	case e.out.rgone != 0:
		o.err = ErrPipe
		return
	}
	if len(e.out.fh) > 0 {
		e.out.fh = e.out.fh[1:]
	}
	e.out.put(t, o.p, h)
	if e.React != nil {
		e.in.hw = h
	}
}
func (o *writeOp) String() string { return "write " + o.e.Name }

func (s *stream) put(t *Thread, p []byte, h uint64) {
	d := append([]byte(nil), p...)
	s.recs = append(s.recs, WriteRec{x.now, len(s.log), len(d)})
	s.log = append(s.log, d...)
	s.hw = h
	s.chunks = append(s.chunks, d)
	s.ch = append(s.ch, h)
	if x.cfg.Race {
		s.cvc = append(s.cvc, t.vc.clone())
		t.tick()
	}
}

func (e *End) Write(p []byte) (int, error) {
	Cur()
	k, ferr := len(p), error(nil)
	if e.Fault != nil {
		k, ferr = e.Fault(len(p))
	}
	o := &writeOp{e: e, p: p[:k]}
	if k > 0 || ferr == nil {
		park(o)
	}
	if o.err != nil {
		return 0, o.err
	}
	if Tracing() {
		Trace("%s wrote %q", e.Name, p[:k])
	}
	if e.React != nil && k > 0 {
		e.React(p[:k])
	}
	return k, ferr
}

// Inject makes p arrive at end e without a scheduling point: for use in a
// React function or a Do function of the same end.
func (e *End) Inject(p []byte) {
	t := Cur()
	if e.in.weof || len(p) == 0 {
		return
	}
	if Tracing() {
		Trace("%s receives %q", e.Name, p)
	}
	e.in.put(t, p, t.local(0x3e7))
}

// InjectEOF makes the other side's end of the stream arrive at e (err nil:
// io.EOF).
func (e *End) InjectEOF(err error) {
	t := Cur()
	if e.in.weof {
		return
	}
	if Tracing() {
		Trace("%s receives EOF %v", e.Name, err)
	}
	e.in.weof, e.in.werr = true, err
	e.in.hw = t.local(0x3e8)
	if x.cfg.Race {
		e.in.evc = t.vc.clone()
		t.tick()
	}
}

// BreakWrites makes all later writes of e fail.
func (e *End) BreakWrites() {
	t := Cur()
	if e.out.rgone == 0 {
		e.out.rgone = t.local(0x3e9)
	}
}

type doOp struct{ e *End }

func (o *doOp) Alts(t *Thread) int { return 1 }
func (o *doOp) Hash(t *Thread, alt int) uint64 {
	return mix4(t.h, 0x3ea, o.e.in.hw, o.e.out.hw)
}
func (o *doOp) Exec(t *Thread, alt int, h uint64) {
	o.e.in.hw = h
	o.e.out.hw = h
}
func (o *doOp) String() string { return "peer action " + o.e.Name }

// Do is a visible operation of the environment of e: f runs as part of it and
// may Inject, InjectEOF and change the state React uses.
func (e *End) Do(f func()) {
	Cur()
	park(&doOp{e})
	f()
}

type connCloseOp struct {
	e     *End
	again bool
}

func (o *connCloseOp) Alts(t *Thread) int { return 1 }
func (o *connCloseOp) Hash(t *Thread, alt int) uint64 {
	return mix4(t.h, 0x3ec, mix(o.e.o.h, o.e.in.hw), o.e.out.hw)
}
func (o *connCloseOp) Exec(t *Thread, alt int, h uint64) {
	e := o.e
	e.o.h = h
	e.closes++
	if e.closed != 0 {
		o.again = true
		return
	}
	e.closed = h
	e.in.rgone = h
	if !e.out.weof {
		e.out.weof = true
		e.out.hw = h
		if x.cfg.Race {
			e.out.evc = t.vc.clone()
			t.tick()
		}
	}
}
func (o *connCloseOp) String() string { return "close " + o.e.Name }

func (e *End) Close() error {
	Cur()
	again := &connCloseOp{e: e}
	park(again)
	if again.again {
		return &net.OpError{Op: "close", Net: "tcp", Err: errClosed}
	}
	if e.OnClose != nil {
		e.OnClose()
	}
	return e.CloseErr
}

type dlOp struct {
	e *End
	d *deadline
}

func (o *dlOp) Alts(t *Thread) int                { return 1 }
func (o *dlOp) Hash(t *Thread, alt int) uint64    { return mix4(t.h, 0x3ed, o.d.o.h, o.e.closed) }
func (o *dlOp) Exec(t *Thread, alt int, h uint64) { o.d.o.h = h }
func (o *dlOp) String() string                    { return "set deadline" }

func (e *End) setDL(d *deadline, tm time.Time) error {
	Cur()
	park(&dlOp{e, d})
	if e.closed != 0 {
		return &net.OpError{Op: "set", Net: "tcp", Err: errClosed}
	}
	if d.tm != nil {
		d.tm.t.dead = true
		d.tm = nil
	}
	d.expired = false
	if tm.IsZero() {
		return nil
	}
	left := tm.Sub(Epoch) - time.Duration(x.now)
	if left <= 0 {
		d.expired = true
		return nil
	}
	d.tm = AddTimer(int64(left), func(tag uint64) {
		d.expired = true
		d.o.h = tag
	})
	return nil
}

func (e *End) SetReadDeadline(t time.Time) error  { return e.setDL(&e.rd, t) }
func (e *End) SetWriteDeadline(t time.Time) error { return e.setDL(&e.wd, t) }
func (e *End) SetDeadline(t time.Time) error {
	if err := e.setDL(&e.rd, t); err != nil {
		return err
	}
	return e.setDL(&e.wd, t)
}

// ReadDeadlineSet reports whether a read deadline is pending or expired.
func (e *End) ReadDeadlineSet() bool { return e.rd.tm != nil || e.rd.expired }

// Plain hides everything but Read, Write and Close of e.
func (e *End) Plain() io.ReadWriteCloser { return plainConn{e} }

type plainConn struct{ e *End }

func (p plainConn) Read(b []byte) (int, error)  { return p.e.Read(b) }
func (p plainConn) Write(b []byte) (int, error) { return p.e.Write(b) }
func (p plainConn) Close() error                { return p.e.Close() }

var ErrFault = errors.New("injected transport error")

// Stop ends the execution without a verdict.
func Stop() {
	if x == nil {
		return
	}
	if !x.abort {
		x.done = true
	}
	if x.cur != nil {
		panic(abortVal())
	}
}
