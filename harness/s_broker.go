package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"stompmc/mc"
)

// broker decides whether what the clients of a server observe is explained by
// a specification of a STOMP broker. The specification is nondeterministic:
// connections handle their frames one after the other, in any interleaving
// with those of other connections, and messages reach clients in their own
// time. The set of all specification states consistent with the observations
// is carried along; when it becomes empty, or when the server is idle though
// in no state nothing is left to do, the observations have no explanation.
type broker struct {
	ins    []bIn
	msgs   []*F           // SEND frames that may become messages
	ofBody map[string]int // body to message
	txMsg  map[int]bool
	dests  []string
	states []*bst
	cl     []*scli
	extra  string // further properties at stake
	max    int    // most states at once
	log    []string
	auth   func(login, passcode string) bool
}

type bIn struct {
	f   *F
	msg int16 // for SEND
}

const (
	phNew = iota
	phConn
	phEnded
)

const ( // steps of a connection
	mEnq   = iota // message a
	mRet          // message a back to the head of its queue
	mSub          // subscription a is ready
	mReady        // the same if it has not ended
	mUnsub        // subscription a has ended
	mHeld         // return what the client holds
	mEnded        //
	mOut          // outputs from here on
	mRcpt         // RECEIPT s
	mErr          // ERROR, s is "+receipt" or ""
	mConn         // CONNECTED
)

type mic struct {
	op byte
	a  int16
	s  string
}

type bsub struct {
	id    string
	dest  int16
	mode  byte // 'a' auto, 'c' client, 'i' individual
	alive bool
	at    byte // 0 nowhere, 1 waiting at the destination, 2 msg is on its way
	msg   int16
	tout  []int16
}

type bheld struct {
	msg, sub int16
	mid      string
}

type btx struct {
	name string
	in   []int16
}

type bconn struct {
	phase       byte
	eof, broken bool
	stuck       bool
	in          []int16
	mic         []mic
	subs        []bsub
	tx          []btx
	held        []bheld
	ver         string
}

type bst struct {
	q [][]int16
	c []bconn
}

func newBroker() *broker {
	return &broker{ofBody: map[string]int{}, txMsg: map[int]bool{}, states: []*bst{{}}}
}

func cp[T any](s []T) []T { return append([]T(nil), s...) }

func (s *bst) clone() *bst {
	n := &bst{q: make([][]int16, len(s.q)), c: cp(s.c)}
	for i, q := range s.q {
		n.q[i] = cp(q)
	}
	for i := range n.c {
		c := &n.c[i]
		c.in, c.mic, c.held = cp(c.in), cp(c.mic), cp(c.held)
		c.subs = cp(c.subs)
		for j := range c.subs {
			c.subs[j].tout = cp(c.subs[j].tout)
		}
		c.tx = cp(c.tx)
		for j := range c.tx {
			c.tx[j].in = cp(c.tx[j].in)
		}
	}
	return n
}

func (s *bst) key() string {
	b := make([]byte, 0, 256)
	num := func(v []int16) {
		b = append(b, byte(len(v)))
		for _, x := range v {
			b = append(b, byte(x), byte(x>>8))
		}
	}
	str := func(v string) { b = append(append(b, byte(len(v))), v...) }
	bl := func(v bool) {
		if v {
			b = append(b, 1)
		} else {
			b = append(b, 0)
		}
	}
	for _, q := range s.q {
		num(q)
	}
	for i := range s.c {
		c := &s.c[i]
		b = append(b, 0xfe, c.phase)
		bl(c.eof)
		bl(c.broken)
		num(c.in)
		b = append(b, byte(len(c.mic)))
		for _, m := range c.mic {
			b = append(b, m.op, byte(m.a), byte(m.a>>8))
			str(m.s)
		}
		b = append(b, byte(len(c.subs)))
		for _, u := range c.subs {
			b = append(b, byte(u.dest), u.mode, u.at, byte(u.msg), byte(u.msg>>8))
			str(u.id)
			bl(u.alive)
			num(u.tout)
		}
		b = append(b, byte(len(c.tx)))
		for _, t := range c.tx {
			str(t.name)
			num(t.in)
		}
		b = append(b, byte(len(c.held)))
		for _, h := range c.held {
			b = append(b, byte(h.msg), byte(h.msg>>8), byte(h.sub))
			str(h.mid)
		}
	}
	return string(b)
}

func (b *broker) dest(d string) int16 {
	for i, x := range b.dests {
		if x == d {
			return int16(i)
		}
	}
	b.dests = append(b.dests, d)
	for _, s := range b.states {
		s.q = append(s.q, nil)
	}
	return int16(len(b.dests) - 1)
}

func (b *broker) isQueue(d int16) bool { return strings.HasPrefix(b.dests[d], "/queue") }

// ---------------------------------------------------------------- inputs

func (b *broker) connect(c *scli) int {
	b.cl = append(b.cl, c)
	for _, s := range b.states {
		s.c = append(s.c, bconn{})
	}
	return len(b.cl) - 1
}

func (b *broker) input(ci int, f *F) {
	in := bIn{f: f, msg: -1}
	if d, ok := f.Has("destination"); ok {
		b.dest(d)
	}
	if f.Cmd == "SEND" {
		if _, dup := b.ofBody[string(f.Body)]; dup {
			panic("harness: two messages have the same body")
		}
		in.msg = int16(len(b.msgs))
		b.ofBody[string(f.Body)] = len(b.msgs)
		_, b.txMsg[len(b.msgs)] = f.Has("transaction")
		b.msgs = append(b.msgs, f)
	}
	b.ins = append(b.ins, in)
	for _, s := range b.states {
		s.c[ci].in = append(s.c[ci].in, int16(len(b.ins)-1))
	}
	mc.Trace("client %d sends %v", ci, f)
}

// eof: the client has sent its last byte; cut: it reads nothing more either.
func (b *broker) eof(ci int, cut bool) {
	for _, s := range b.states {
		s.c[ci].eof = true
		s.c[ci].broken = s.c[ci].broken || cut
	}
	mc.Trace("client %d: end of input, cut %v", ci, cut)
}

// stuck: the client has stopped reading (or reads again).
func (b *broker) stuck(ci int, v bool) {
	for _, s := range b.states {
		s.c[ci].stuck = v
	}
}

// ---------------------------------------------------------------- steps

// idle lists the subscriptions waiting at a queue.
func (s *bst) idle(d int16) (out [][2]int) {
	for i := range s.c {
		for j := range s.c[i].subs {
			if u := &s.c[i].subs[j]; u.dest == d && u.at == 1 {
				out = append(out, [2]int{i, j})
			}
		}
	}
	return
}

// put adds a message to a queue, at its head or tail.
func (b *broker) put(s *bst, m int16, head bool) []*bst {
	d := b.dest(b.msgs[m].Get("destination"))
	if !b.isQueue(d) {
		for i := range s.c {
			for j := range s.c[i].subs {
				if u := &s.c[i].subs[j]; u.dest == d && u.at == 1 {
					u.tout = append(u.tout, m)
				}
			}
		}
		return []*bst{s}
	}
	ids := s.idle(d)
	if len(ids) == 0 {
		if head {
			s.q[d] = append([]int16{m}, s.q[d]...)
		} else {
			s.q[d] = append(s.q[d], m)
		}
		return []*bst{s}
	}
	var out []*bst
	for k, id := range ids {
		n := s
		if k < len(ids)-1 {
			n = s.clone()
		}
		u := &n.c[id[0]].subs[id[1]]
		u.at, u.msg = 2, m
		out = append(out, n)
	}
	return out
}

func (b *broker) subscribe(s *bst, ci, j int) {
	u := &s.c[ci].subs[j]
	if b.isQueue(u.dest) && len(s.q[u.dest]) > 0 {
		u.at, u.msg = 2, s.q[u.dest][0]
		s.q[u.dest] = cp(s.q[u.dest][1:])
		return
	}
	u.at = 1
}

// end is the end of connection ci: every way to go about it.
func (b *broker) end(s *bst, ci int) []*bst {
	c := &s.c[ci]
	c.tx = nil
	c.in = nil
	var live []int
	lim := map[int16]int{}
	perm := false
	for j := range c.subs {
		if c.subs[j].alive {
			live = append(live, j)
			if c.subs[j].at != 0 && b.isQueue(c.subs[j].dest) {
				lim[c.subs[j].dest]++
				perm = perm || lim[c.subs[j].dest] > 1
			}
		}
		c.subs[j].alive = false
	}
	orders := [][]int{live}
	if perm {
		if len(live) > 8 {
			mc.Outcome(tooMany)
			mc.Stop()
		}
		orders = perms(live)
	}
	var out []*bst
	for _, o := range orders {
		n := s.clone()
		c := &n.c[ci]
		c.mic = nil
		for _, j := range o {
			c.mic = append(c.mic, mic{op: mUnsub, a: int16(j)})
		}
		c.mic = append(c.mic, mic{op: mHeld}, mic{op: mEnded})
		out = append(out, n)
	}
	return out
}

func perms(l []int) [][]int {
	if len(l) <= 1 {
		return [][]int{l}
	}
	var out [][]int
	for i := range l {
		rest := append(cp(l[:i]), l[i+1:]...)
		for _, p := range perms(rest) {
			out = append(out, append([]int{l[i]}, p...))
		}
	}
	return out
}

// returnHeld puts back what the client held, in the order in which it got it.
func (b *broker) returnHeld(s *bst, ci int) []*bst {
	held := s.c[ci].held
	s.c[ci].held = nil
	cur := []*bst{s}
	if len(held) > 1 {
		// to consumers that are waiting, the first messages may go first
		n := s.clone()
		alt := []*bst{n}
		any := false
		byDest := map[int16][]int16{}
		var ds []int16
		for _, h := range held {
			d := b.dest(b.msgs[h.msg].Get("destination"))
			if byDest[d] == nil {
				ds = append(ds, d)
			}
			byDest[d] = append(byDest[d], h.msg)
		}
		for _, d := range ds {
			ms := byDest[d]
			k := min(len(n.idle(d)), len(ms))
			any = any || k > 0
			for _, m := range ms[:k] {
				var nx []*bst
				for _, x := range alt {
					nx = append(nx, b.put(x, m, true)...)
				}
				alt = nx
			}
			for i := len(ms) - 1; i >= k; i-- {
				for _, x := range alt {
					x.q[d] = append([]int16{ms[i]}, x.q[d]...)
				}
			}
		}
		if any {
			cur = append(cur[:0:0], s.clone())
			out := alt
			for i := len(held) - 1; i >= 0; i-- {
				var nx []*bst
				for _, x := range cur {
					nx = append(nx, b.put(x, held[i].msg, true)...)
				}
				cur = nx
			}
			return append(out, cur...)
		}
	}
	for i := len(held) - 1; i >= 0; i-- {
		var nx []*bst
		for _, x := range cur {
			nx = append(nx, b.put(x, held[i].msg, true)...)
		}
		cur = nx
	}
	return cur
}

// settle removes messages from held and readies their subscriptions.
func (c *bconn) settle(which func(bheld) bool) {
	var keep []bheld
	for _, h := range c.held {
		if which(h) {
			c.mic = append(c.mic, mic{op: mReady, a: h.sub})
		} else {
			keep = append(keep, h)
		}
	}
	c.held = keep
}

func below(a, b string) bool {
	x, e1 := strconv.ParseUint(a, 10, 64)
	y, e2 := strconv.ParseUint(b, 10, 64)
	return e1 == nil && e2 == nil && x < y
}

func ackID(ver string, f *F) (string, bool) {
	id, ok := f.Has("message-id")
	if ver == "1.2" {
		id, ok = f.Has("id")
	}
	if _, err := strconv.ParseUint(id, 10, 64); err != nil {
		ok = false
	}
	return id, ok
}

// effects appends what an accepted SEND, ACK or NACK does.
func (b *broker) effects(s *bst, ci int, in bIn) []*bst {
	c := &s.c[ci]
	switch in.f.Cmd {
	case "SEND":
		c.mic = append(c.mic, mic{op: mEnq, a: in.msg})
	case "ACK":
		id, _ := ackID(c.ver, in.f)
		var h *bheld
		for i := range c.held {
			if c.held[i].mid == id {
				h = &c.held[i]
			}
		}
		if h == nil {
			return []*bst{s}
		}
		if c.subs[h.sub].mode == 'i' {
			c.settle(func(x bheld) bool { return x.mid == id })
			return []*bst{s}
		}
		earlier := func(x bheld) bool { return c.subs[x.sub].mode == 'c' && below(x.mid, id) }
		any := false
		for _, x := range c.held {
			any = any || earlier(x)
		}
		var out []*bst
		if any {
			n := s.clone()
			n.c[ci].settle(func(x bheld) bool { return x.mid == id || earlier(x) })
			out = append(out, n)
		}
		c.settle(func(x bheld) bool { return x.mid == id })
		return append(out, s)
	case "NACK":
		id, _ := ackID(c.ver, in.f)
		for i, h := range c.held {
			if h.mid == id {
				c.held = append(cp(c.held[:i]), c.held[i+1:]...)
				c.mic = append(c.mic, mic{op: mRet, a: h.msg}, mic{op: mReady, a: h.sub})
				break
			}
		}
	}
	return []*bst{s}
}

// consume handles the next frame of connection ci (s is owned).
func (b *broker) consume(s *bst, ci int) []*bst {
	c := &s.c[ci]
	in := b.ins[c.in[0]]
	idx := c.in[0]
	c.in = cp(c.in[1:])
	f := in.f
	refuse := func() []*bst {
		m := mic{op: mErr}
		if r, ok := f.Has("receipt"); ok {
			m.s = "+" + r
		}
		c.mic = []mic{m}
		return []*bst{s}
	}
	rcpt := func(l []*bst) []*bst {
		if r, ok := f.Has("receipt"); ok {
			for _, x := range l {
				x.c[ci].mic = append(x.c[ci].mic, mic{op: mRcpt, s: r})
			}
		}
		return l
	}
	if c.phase == phNew {
		ver, ok := b.connectOK(f)
		if !ok {
			return refuse()
		}
		c.ver = ver
		c.phase = phConn
		c.mic = []mic{{op: mConn, s: ver}}
		return []*bst{s}
	}
	tx, hasTx := f.Has("transaction")
	ti := -1
	for i := range c.tx {
		if hasTx && c.tx[i].name == tx {
			ti = i
		}
	}
	switch f.Cmd {
	case "SEND", "ACK", "NACK":
		if f.Cmd == "SEND" {
			if _, ok := f.Has("destination"); !ok {
				return refuse()
			}
		} else if _, ok := ackID(c.ver, f); !ok {
			return refuse()
		}
		if !hasTx {
			return rcpt(b.effects(s, ci, in))
		}
		if ti < 0 {
			return refuse()
		}
		c.tx[ti].in = append(c.tx[ti].in, idx)
		return rcpt([]*bst{s})
	case "SUBSCRIBE":
		id, ok1 := f.Has("id")
		d, ok2 := f.Has("destination")
		ack, ok := f.Has("ack")
		if !ok {
			ack = "auto"
		}
		mode := map[string]byte{"auto": 'a', "client": 'c', "client-individual": 'i'}[ack]
		if !ok1 || !ok2 || mode == 0 {
			return refuse()
		}
		for i := range c.subs {
			if c.subs[i].alive && c.subs[i].id == id {
				return refuse()
			}
		}
		c.subs = append(c.subs, bsub{id: id, dest: b.dest(d), mode: mode, alive: true})
		c.mic = append(c.mic, mic{op: mSub, a: int16(len(c.subs) - 1)})
		return rcpt([]*bst{s})
	case "UNSUBSCRIBE":
		id, ok := f.Has("id")
		for i := range c.subs {
			if ok && c.subs[i].alive && c.subs[i].id == id {
				c.subs[i].alive = false
				c.mic = append(c.mic, mic{op: mUnsub, a: int16(i)})
				return rcpt([]*bst{s})
			}
		}
		return refuse()
	case "BEGIN":
		if !hasTx || ti >= 0 {
			return refuse()
		}
		c.tx = append(c.tx, btx{name: tx})
		return rcpt([]*bst{s})
	case "ABORT", "COMMIT":
		if ti < 0 {
			return refuse()
		}
		ins := c.tx[ti].in
		c.tx = append(cp(c.tx[:ti]), c.tx[ti+1:]...)
		cur := []*bst{s}
		if f.Cmd == "COMMIT" {
			for _, i := range ins {
				var nx []*bst
				for _, x := range cur {
					nx = append(nx, b.effects(x, ci, b.ins[i])...)
				}
				cur = nx
			}
		}
		return rcpt(cur)
	case "DISCONNECT":
		return rcpt([]*bst{s})
	}
	return refuse()
}

// connectOK is the handshake's rule.
func (b *broker) connectOK(f *F) (ver string, ok bool) {
	if f.Cmd != "CONNECT" && f.Cmd != "STOMP" {
		return "", false
	}
	if _, r := f.Has("receipt"); r {
		return "", false
	}
	if b.auth != nil && !b.auth(f.Get("login"), f.Get("passcode")) {
		return "", false
	}
	for _, v := range strings.Split(f.Get("accept-version"), ",") {
		if (v == "1.1" || v == "1.2") && v > ver {
			ver = v
		}
	}
	if hb, has := f.Has("heart-beat"); has {
		x, y, ok := strings.Cut(hb, ",")
		for _, s := range []string{x, y} {
			if len(s) == 0 || len(s) > 9 || strings.Trim(s, "0123456789") != "" {
				return "", false
			}
		}
		if !ok {
			return "", false
		}
	}
	return ver, ver != ""
}

// succ lists the states one internal step away; pend tells whether outputs
// or steps are due.
func (b *broker) succ(s *bst) (out []*bst) {
	for ci := range s.c {
		c := &s.c[ci]
		if c.phase == phEnded {
			continue
		}
		if len(c.mic) > 0 {
			m := c.mic[0]
			if m.op > mOut {
				if c.broken {
					out = append(out, b.end(s.clone(), ci)...)
				}
				continue
			}
			n := s.clone()
			nc := &n.c[ci]
			nc.mic = cp(nc.mic[1:])
			switch m.op {
			case mEnq:
				out = append(out, b.put(n, m.a, false)...)
			case mRet:
				out = append(out, b.put(n, m.a, true)...)
			case mSub:
				b.subscribe(n, ci, int(m.a))
				out = append(out, n)
			case mReady:
				if nc.subs[m.a].alive {
					b.subscribe(n, ci, int(m.a))
				}
				out = append(out, n)
			case mUnsub:
				u := &nc.subs[m.a]
				if u.at == 2 {
					u.at = 0
					out = append(out, b.put(n, u.msg, true)...)
				} else {
					u.at = 0
					out = append(out, n)
				}
			case mHeld:
				out = append(out, b.returnHeld(n, ci)...)
			case mEnded:
				nc.phase = phEnded
				for j := range nc.subs {
					nc.subs[j].tout = nil
				}
				out = append(out, n)
			}
			continue
		}
		if len(c.in) > 0 {
			out = append(out, b.consume(s.clone(), ci)...)
		} else if c.eof {
			out = append(out, b.end(s.clone(), ci)...)
		}
		if c.broken && c.owes() {
			out = append(out, b.end(s.clone(), ci)...)
		}
	}
	return
}

// owes: messages are on their way to the client.
func (c *bconn) owes() bool {
	for j := range c.subs {
		if u := &c.subs[j]; u.alive && (u.at == 2 || len(u.tout) > 0) {
			return true
		}
	}
	return false
}

// tooMany is the outcome of executions that had to be given up.
const tooMany = "cut: the specification has too many states"

// specBusy: the time is spent by the specification.
var specBusy atomic.Int32

func (b *broker) closure() {
	specBusy.Add(1)
	defer specBusy.Add(-1)
	size := 0
	seen := map[string]bool{}
	var all []*bst
	add := func(l []*bst) {
		for _, s := range l {
			if k := s.key(); !seen[k] {
				seen[k] = true
				size += len(k)
				all = append(all, s)
			}
		}
	}
	add(b.states)
	for i := 0; i < len(all); i++ {
		if len(all) > 200000 || size > 100<<20 {
			mc.Outcome(tooMany)
			mc.Stop()
			return
		}
		add(b.succ(all[i]))
	}
	b.states = all
	b.max = max(b.max, len(all))
}

// ---------------------------------------------------------------- outputs

// output is a frame that client ci receives.
func (b *broker) output(ci int, f *F) {
	mc.Trace("client %d gets %v", ci, f)
	if f == nil {
		return
	}
	b.closure()
	var next []*bst
	why := ""
	for _, s := range b.states {
		l, w := b.emit(s, ci, f)
		next = append(next, l...)
		if w != "" && why == "" {
			why = w
		}
	}
	if len(next) == 0 {
		tags, msg := b.explain(ci, f)
		if why != "" {
			tags, msg = "S09,S04", why
		}
		b.fail(tags, "client %d gets %v: %s", ci, f, msg)
	}
	b.states = next
}

func (b *broker) fail(tags, format string, a ...any) {
	if b.extra != "" {
		tags += "," + b.extra
	}
	viol(tags, format, a...)
}

// emit lists the states after s in which f has been sent to client ci; why
// tells what is wrong with a message that otherwise could be.
func (b *broker) emit(s *bst, ci int, f *F) (out []*bst, why string) {
	c := &s.c[ci]
	if c.phase == phEnded || c.broken {
		return nil, ""
	}
	if f.Cmd != "MESSAGE" {
		if len(c.mic) == 0 {
			return nil, ""
		}
		m := c.mic[0]
		r, has := f.Has("receipt-id")
		switch {
		case f.Cmd == "RECEIPT" && m.op == mRcpt && has && r == m.s:
		case f.Cmd == "CONNECTED" && m.op == mConn && f.Get("version") == m.s:
		case f.Cmd == "ERROR" && m.op == mErr && (has && m.s == "+"+r || !has && m.s == ""):
			return b.end(s.clone(), ci), ""
		default:
			return nil, ""
		}
		n := s.clone()
		n.c[ci].mic = cp(c.mic[1:])
		return []*bst{n}, ""
	}
	m, ok := b.ofBody[string(f.Body)]
	if !ok || len(c.mic) > 0 {
		return nil, ""
	}
	for j := range c.subs {
		u := &c.subs[j]
		q := b.isQueue(u.dest)
		if q && !(u.alive && u.at == 2 && int(u.msg) == m) || !q && (len(u.tout) == 0 || int(u.tout[0]) != m) {
			continue
		}
		if w := content(b.msgs[m], f, u); w != "" {
			why = w
			continue
		}
		n := s.clone()
		nc := &n.c[ci]
		nu := &nc.subs[j]
		switch {
		case !q:
			nu.tout = cp(nu.tout[1:])
		case u.mode == 'a':
			nu.at = 0
			nc.mic = []mic{{op: mReady, a: int16(j)}}
		default:
			nu.at = 0
			nc.held = append(nc.held, bheld{int16(m), int16(j), f.Get("message-id")})
		}
		out = append(out, n)
	}
	return
}

// content compares a message with the SEND it stems from.
func content(sent, got *F, u *bsub) string {
	if got.Get("subscription") != u.id {
		return fmt.Sprintf("subscription %q, not %q", got.Get("subscription"), u.id)
	}
	mid, ok := got.Has("message-id")
	if !ok || mid == "" {
		return "no message-id"
	}
	ack, has := got.Has("ack")
	if want := u.mode != 'a'; want != has || want && ack != mid {
		return fmt.Sprintf("ack header %q %v on a subscription of mode %c", ack, has, u.mode)
	}
	own := map[string]bool{"receipt": true, "transaction": true, "message-id": true, "subscription": true, "ack": true}
	if id, has := sent.Has("id"); !has || id == "" {
		own["id"] = true
	}
	if _, has := sent.Has("content-length"); !has {
		own["content-length"] = true // of which the decoder takes care
	}
	strip := func(f *F) (l [][2]string) {
		for _, e := range f.H {
			if !own[e[0]] {
				l = append(l, e)
			}
		}
		return
	}
	if a, b := fmt.Sprintf("%q", strip(sent)), fmt.Sprintf("%q", strip(got)); a != b {
		return fmt.Sprintf("header entries %s, sent were %s", b, a)
	}
	for _, k := range []string{"receipt", "transaction"} {
		if _, ok := got.Has(k); ok {
			return "a " + k + " header is delivered"
		}
	}
	if !bytes.Equal(sent.Body, got.Body) {
		return "body"
	}
	return ""
}

// explain finds out which property an output without explanation violates.
func (b *broker) explain(ci int, f *F) (tags, msg string) {
	set := map[string]bool{}
	add := func(l ...string) {
		for _, t := range l {
			set[t] = true
		}
	}
	switch f.Cmd {
	case "RECEIPT":
		add("S07")
		msg = "no receipt for that is due"
	case "CONNECTED":
		add("S01")
		msg = "no CONNECTED is due"
	case "ERROR":
		add("S11")
		msg = "the frame it answers is not to be refused, or the receipt-id is wrong"
		for _, s := range b.states {
			c := &s.c[ci]
			if c.phase == phNew {
				add("S01")
			}
			for _, m := range c.mic {
				if m.op == mErr || m.op == mRcpt {
					add("S07")
				}
				if m.op == mConn {
					add("S01")
				}
			}
			if len(c.in) > 0 {
				in := b.ins[c.in[0]].f
				if _, ok := in.Has("transaction"); ok {
					add("S06")
				}
				if _, ok := in.Has("receipt"); ok {
					add("S07")
				}
				switch in.Cmd {
				case "ACK", "NACK":
					add("S04")
				case "CONNECT", "STOMP":
					add("S01")
				}
			}
		}
	case "MESSAGE":
		m, ok := b.ofBody[string(f.Body)]
		if !ok {
			add("S09", "S02", "S05")
			return strings.Join(keys(set), ","), "no such message was sent"
		}
		d := b.dest(b.msgs[m].Get("destination"))
		if b.txMsg[m] {
			add("S06")
		}
		if got := f.Get("destination"); got != b.dests[d] {
			add("S09")
		}
		if !b.isQueue(d) {
			add("S05")
			msg = "the subscription is not to get this topic message now"
		} else {
			add("S02", "S04")
			msg = "the message is not on its way to this subscription"
			for _, s := range b.states {
				for _, x := range s.q[d] {
					if int(x) == m {
						add("S03")
						msg = "the message is in the queue, but not next or not for this subscription"
					}
				}
			}
		}
		for _, s := range b.states {
			for i := range s.c {
				for _, t := range s.c[i].tx {
					if len(t.in) > 0 {
						add("S06")
					}
				}
			}
			if s.c[ci].phase == phEnded || len(s.c[ci].mic) > 0 && s.c[ci].mic[0].op == mErr {
				add("S11")
			}
			if s.c[ci].phase == phNew {
				add("S01")
			}
		}
	default:
		add("S08", "S11")
		msg = "a server does not send that"
	}
	return strings.Join(keys(set), ","), msg
}

func keys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// settled checks, with the server idle, that nothing is left to do.
func (b *broker) settled(where string) {
	b.closure()
	var ok []*bst
	set := map[string]bool{}
	what := map[string]bool{}
	for _, s := range b.states {
		good := true
		no := func(w string, tags ...string) {
			good = false
			what[w] = true
			for _, t := range tags {
				set[t] = true
			}
		}
		for ci := range s.c {
			c := &s.c[ci]
			closed := b.cl[ci].e.Closed()
			if c.stuck {
				continue
			}
			if c.phase == phEnded {
				if !closed {
					no(fmt.Sprintf("connection %d is not closed", ci), "S11", "S01", "S08", "S14")
				}
				continue
			}
			if closed {
				no(fmt.Sprintf("connection %d has been closed", ci), "S08", "S11", "S01")
				continue
			}
			if len(c.mic) == 0 && (len(c.in) > 0 || c.eof) {
				no("input not handled", "S08") // closure contains a successor
				continue
			}
			if len(c.mic) > 0 {
				switch m := c.mic[0]; m.op {
				case mRcpt:
					no(fmt.Sprintf("client %d has not got the RECEIPT %q", ci, m.s), "S07", "S08")
				case mErr:
					no(fmt.Sprintf("client %d has not got an ERROR", ci), "S11", "S07", "S01", "S06")
				case mConn:
					no(fmt.Sprintf("client %d has not got a CONNECTED", ci), "S01", "S08")
				default:
					no("step not done", "S08")
				}
				continue
			}
			for j := range c.subs {
				u := &c.subs[j]
				if !u.alive {
					continue
				}
				m := u.msg
				if u.at == 2 {
					no(fmt.Sprintf("client %d has not got message %q", ci, b.msgs[m].Body), "S02", "S03", "S04", "S08")
				} else if len(u.tout) > 0 {
					m = u.tout[0]
					no(fmt.Sprintf("client %d has not got message %q", ci, b.msgs[m].Body), "S05", "S08")
				} else {
					continue
				}
				if b.txMsg[int(m)] {
					set["S06"] = true
				}
			}
		}
		if good {
			ok = append(ok, s)
		}
	}
	if len(ok) == 0 {
		delete(what, "input not handled")
		delete(what, "step not done")
		b.fail(strings.Join(keys(set), ","), "%s: the server is idle, but %s", where, strings.Join(keys(what), " or "))
	}
	b.states = ok
	b.dedupe()
}

func (b *broker) dedupe() {
	seen := map[string]bool{}
	out := b.states[:0:0]
	for _, s := range b.states {
		if k := s.key(); !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	b.states = out
}
