package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// word picks one of all words over alpha of length lo..hi.
func word(alpha string, lo, hi int) string {
	total, pow := 0, 1
	for l := 0; l <= hi; l++ {
		if l >= lo {
			total += pow
		}
		pow *= len(alpha)
	}
	return nthWord(alpha, lo, mc.Choose(total))
}

func wordCount(alpha string, lo, hi int) int {
	total, pow := 0, 1
	for l := 0; l <= hi; l++ {
		if l >= lo {
			total += pow
		}
		pow *= len(alpha)
	}
	return total
}

func nthWord(alpha string, lo, k int) string {
	pow := 1
	for l := 0; l < lo; l++ {
		pow *= len(alpha)
	}
	l := lo
	for k >= pow {
		k -= pow
		pow *= len(alpha)
		l++
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = alpha[k%len(alpha)]
		k /= len(alpha)
	}
	return string(b)
}

// want is a frame a call must put on the wire. Values starting with "$" are
// variables: generated identifiers, equal where the variable is.
type want struct {
	who  string
	f    *F
	must bool // the call reported success
	may  bool // the call failed after its frame may have been accepted
}

// matchWant compares a frame with what was wanted, binding variables.
func matchWant(f, w *F, bind map[string]string) string {
	if f.Cmd != w.Cmd {
		return "command " + f.Cmd
	}
	if !bytes.Equal(f.Body, w.Body) {
		return fmt.Sprintf("body %q", f.Body)
	}
	if len(f.H) != len(w.H) {
		return fmt.Sprintf("%d header entries instead of %d", len(f.H), len(w.H))
	}
	used := make([]bool, len(f.H))
	type pend struct{ k, v string }
	nb := map[string]string{}
	for _, e := range w.H {
		ok := false
		for i, g := range f.H {
			// entries of one name keep their order
			if used[i] || g[0] != e[0] {
				continue
			}
			if strings.HasPrefix(e[1], "$") {
				if b, bound := bind[e[1]]; bound && b != g[1] {
					return fmt.Sprintf("%s is %q, was %q before", e[0], g[1], b)
				}
				if g[1] == "" {
					return e[0] + " is empty"
				}
				nb[e[1]] = g[1]
			} else if g[1] != e[1] {
				return fmt.Sprintf("%s is %q instead of %q", e[0], g[1], e[1])
			}
			used[i] = true
			ok = true
			break
		}
		if !ok {
			return "no entry " + e[0]
		}
	}
	for k, v := range nb {
		for k2, v2 := range bind {
			if k2 != k && v2 == v {
				return fmt.Sprintf("identifier %q used for %s and %s", v, k2, k)
			}
		}
		bind[k] = v
	}
	return ""
}

// checkWire matches the frames on the wire with the calls of each goroutine,
// in order; exact also requires every successful call's frame to be there.
func checkWire(tags string, fs []*F, lists [][]want, exact bool, bind map[string]string) {
	pos := make([]int, len(lists))
	for _, f := range fs {
		found := false
		var why []string
		for g := range lists {
			// the next wanted frame of g; failed calls may be missing
			for i := pos[g]; i < len(lists[g]); i++ {
				w := &lists[g][i]
				if !w.must && !w.may {
					continue
				}
				r := matchWant(f, w.f, bind)
				if r == "" {
					pos[g] = i + 1
					found = true
					break
				}
				why = append(why, fmt.Sprintf("%s: %v: %s", w.who, w.f, r))
				if w.must {
					break
				}
			}
			if found {
				break
			}
		}
		if !found {
			viol(tags, "%v on the wire is not the next frame of any call (%s)", f, strings.Join(why, "; "))
		}
	}
	if !exact {
		return
	}
	for g := range lists {
		for i := pos[g]; i < len(lists[g]); i++ {
			if w := &lists[g][i]; w.must {
				viol(tags, "%s reported success, but its frame %v is not on the wire", w.who, w.f)
			}
		}
	}
}

const (
	wSend = iota
	wSendR
	wTx
	wAck
	wNack
	wSub
	wBig
	nWire
)

type wireState struct {
	p     *Peer
	c     *stomp.Conn
	sub   *stomp.Subscription
	msgs  []*stomp.Message
	lists [2][]want
	fails int
}

func wireSetup(opts ...Opt) *wireState {
	s := &wireState{p: newPeer()}
	s.c = s.p.dial(opts...)
	sub, err := s.c.Subscribe("/s", stomp.AckClientIndividual)
	if err != nil {
		viol("*", "subscribe: %v", err)
	}
	s.sub = sub
	mc.Quiet()
	for i := 0; i < 4; i++ {
		s.p.Send(fr("MESSAGE", "destination", "/s", "subscription", sub.Id(), "message-id", fmt.Sprint("m", i), "ack", fmt.Sprint("a", i)))
		m, ok := mc.Recv2(sub.C)
		if !ok || m.Err != nil {
			viol("C05", "message not delivered")
		}
		s.msgs = append(s.msgs, m)
	}
	mc.Quiet()
	s.p.In = nil
	return s
}

// run performs operation op, the i-th of goroutine g, and records the frames.
func (s *wireState) run(g, i, op int) {
	name := string(rune('A'+g)) + fmt.Sprint(i)
	add := func(f *F, err error) {
		w := want{who: name, f: f, must: err == nil}
		if err != nil {
			s.fails++
			// only a call that got its request accepted may have written
			w.may = !errors.Is(err, stomp.ErrMsgSendTimeout) && !errors.Is(err, stomp.ErrAlreadyClosed) && !errors.Is(err, stomp.ErrClosedUnexpectedly)
		}
		s.lists[g] = append(s.lists[g], w)
	}
	b := "body " + name
	cl := fmt.Sprint(len(b))
	switch op {
	case wSend:
		add(fr("SEND", "content-length", cl, "destination", "/d/"+name, "content-type", "text/plain", "x", "1", "x", "2").body(b),
			s.c.Send("/d/"+name, "text/plain", []byte(b), stomp.SendOpt.Header("x", "1"), nil, stomp.SendOpt.Header("x", "2")))
	case wSendR:
		add(fr("SEND", "destination", "/d/"+name, "receipt", "$r"+name).body(b),
			s.c.Send("/d/"+name, "", []byte(b), stomp.SendOpt.NoContentLength, stomp.SendOpt.Receipt))
	case wTx:
		tx, err := s.c.BeginWithError()
		v := tx.Id()
		add(fr("BEGIN", "transaction", v), err)
		if err != nil {
			return
		}
		err = tx.Send("/d/"+name, "", []byte(b))
		add(fr("SEND", "content-length", cl, "destination", "/d/"+name, "transaction", v).body(b), err)
		err = tx.Commit()
		add(fr("COMMIT", "transaction", v), err)
	case wAck:
		add(fr("ACK", "id", fmt.Sprint("a", g*2+i)), s.c.Ack(s.msgs[g*2+i]))
	case wNack:
		add(fr("NACK", "id", fmt.Sprint("a", g*2+i)), s.c.Nack(s.msgs[g*2+i]))
	case wSub:
		_, err := s.c.Subscribe("/d/"+name, stomp.AckClient, stomp.SubscribeOpt.Header("selector", "a:b"))
		add(fr("SUBSCRIBE", "destination", "/d/"+name, "ack", "client", "selector", "a:b", "id", "$s"+name), err)
	case wBig:
		big := strings.Repeat(name+"\x00", 2500)
		add(fr("SEND", "content-length", fmt.Sprint(len(big)), "destination", "/d/"+name).body(big), s.c.Send("/d/"+name, "", []byte(big)))
	}
}

func wireFn(ops []int, per int) func(int) {
	return func(deep int) {
		n := 1
		for i := 0; i < 2*per; i++ {
			n *= len(ops)
		}
		k := mc.Choose(n)
		var seq [2][]int
		for g := 0; g < 2; g++ {
			for i := 0; i < per; i++ {
				seq[g] = append(seq[g], ops[k%len(ops)])
				k /= len(ops)
			}
		}
		if fmt.Sprint(seq[0]) > fmt.Sprint(seq[1]) {
			return // symmetric
		}
		s := wireSetup(stomp.ConnOpt.WriteChannelCapacity(1 + deep))
		var gr group
		for g := 0; g < 2; g++ {
			g := g
			gr.Go(string(rune('A'+g)), func() {
				for i, op := range seq[g] {
					s.run(g, i, op)
				}
			})
		}
		gr.Wait()
		mc.Quiet()
		if s.fails > 0 {
			viol("C03,C04,C09", "a call failed on a healthy connection: %v", s.lists)
		}
		s.p.WholeFrames()
		checkWire("C03", s.p.Frames(), s.lists[:], true, map[string]string{})
		var sig []string
		for _, f := range s.p.Frames() {
			sig = append(sig, f.Cmd+f.Get("destination"))
		}
		mc.Outcome(strings.Join(sig, " "))
	}
}

// the transport fails at some byte of the output: what was written is a prefix
func wireFaultFn(deep int) {
	ops := []int{wSend, wSendR, wTx, wBig}
	k := mc.Choose(len(ops) * len(ops) * 12)
	o := [2]int{ops[k%len(ops)], ops[k/len(ops)%len(ops)]}
	k /= len(ops) * len(ops)
	at, short := []int{0, 1, 20, 75, 90, 4096}[k%6], k/6 == 1
	if o[0] > o[1] {
		return
	}
	s := wireSetup()
	n, broken := 0, false
	base := len(s.p.e.Written())
	s.p.e.Fault = func(m int) (int, error) {
		if broken {
			return 0, mc.ErrPipe
		}
		if n+m > at {
			broken = true
			if short {
				return at - n, nil
			}
			return at - n, mc.ErrPipe
		}
		n += m
		return m, nil
	}
	var gr group
	for g := 0; g < 2; g++ {
		g := g
		gr.Go(string(rune('A'+g)), func() { s.run(g, 0, o[g]) })
	}
	gr.Wait()
	mc.Quiet()
	if !broken {
		return // less than that was written
	}
	if got := len(s.p.e.Written()) - base; got != at {
		viol("C03,F04", "%d bytes on the wire, the transport failed at %d", got, at)
	}
	checkWire("C03", s.p.Frames(), s.lists[:], false, map[string]string{})
	if !s.p.e.Closed() {
		viol("C07", "the transport was not closed after a write error")
	}
	mc.Outcome(fmt.Sprintf("%d frames, %d failures", len(s.p.Frames()), s.fails))
}

// the transport stalls: calls time out, and what they wanted to send is not
// sent later
func wireStallFn(deep int) {
	ops := []int{wSend, wSendR}
	k := mc.Choose(len(ops) * len(ops) * 3)
	o := [2]int{ops[k%2], ops[k/2%2]}
	stall := []time.Duration{time.Second, 15 * time.Second, 25 * time.Second}[k/4]
	s := wireSetup(stomp.ConnOpt.WriteChannelCapacity(1), stomp.ConnOpt.MsgSendTimeout(10*time.Second))
	s.p.e.Do(func() { s.p.far.SetLimit(1) })
	mc.Go("peer", func() {
		mc.Daemon()
		mc.Sleep(stall)
		b := make([]byte, 65536)
		for {
			if _, err := s.p.far.Read(b); err != nil {
				return
			}
		}
	})
	var gr group
	for g := 0; g < 2; g++ {
		g := g
		gr.Go(string(rune('A'+g)), func() {
			s.run(g, 0, o[g])
			s.run(g, 1, wSend)
		})
	}
	gr.Wait()
	mc.Sleep(time.Minute)
	mc.Quiet()
	s.p.WholeFrames()
	checkWire("C03", s.p.Frames(), s.lists[:], true, map[string]string{})
	for _, l := range s.lists {
		for _, w := range l {
			if !w.must && stall < 10*time.Second {
				viol("C03,C04", "%s failed although the transport stalled for %v only", w.who, stall)
			}
		}
	}
	mc.Outcome(fmt.Sprintf("%d frames, %d failures", len(s.p.Frames()), s.fails))
}

// a Send option that fails, and options that do not apply
func wireOptFn(deep int) {
	k := mc.Choose(6)
	s := wireSetup()
	boom := errors.New("option refused")
	var err error
	switch k {
	case 0:
		err = s.c.Send("/d", "", []byte("x"), func(*frame.Frame) error { return boom })
	case 1:
		err = s.c.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt, func(*frame.Frame) error { return boom })
	case 2:
		_, err = s.c.Subscribe("/d", stomp.AckAuto, func(*frame.Frame) error { return boom })
	case 3:
		_, err = s.c.Subscribe("/d", stomp.AckAuto, stomp.SendOpt.Receipt)
		boom = stomp.ErrInvalidCommand
	case 4:
		err = s.c.Send("/d", "", []byte("x"), stomp.SubscribeOpt.Id("7"))
		boom = stomp.ErrInvalidCommand
	case 5:
		err = s.sub.Unsubscribe(stomp.SendOpt.NoContentLength)
		boom = stomp.ErrInvalidCommand
	}
	mc.Quiet()
	if err == nil || err.Error() != boom.Error() {
		viol("C03", "error %v instead of %v", err, boom)
	}
	if len(s.p.In) != 0 {
		viol("C03", "%v was written by a call that failed", s.p.In)
	}
	// the connection is unharmed
	s.run(0, 0, wSendR)
	s.run(0, 1, wSend)
	if k == 5 {
		if !s.sub.Active() {
			viol("C06", "the subscription is inactive after a refused Unsubscribe")
		}
		if err := s.sub.Unsubscribe(); err != nil {
			viol("C06", "Unsubscribe after a refused one: %v", err)
		}
		if n := len(s.p.In); n == 0 || s.p.In[n-1].Cmd != "UNSUBSCRIBE" {
			viol("C06", "no UNSUBSCRIBE was sent")
		}
		s.p.In = s.p.In[:len(s.p.In)-1]
	}
	mc.Quiet()
	checkWire("C03", s.p.Frames(), s.lists[:], true, map[string]string{})
}

func init() {
	scen(&Scenario{
		Name:  "c-wire",
		Props: []string{"C03"},
		What:  "two goroutines, two calls each of every combination of seven kinds: the wire carries an interleaving of exactly their frames",
		Fn:    wireFn([]int{wSend, wSendR, wTx, wAck, wNack, wSub, wBig}, 2),
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 64}, {Delay: true, PB: 3, Shards: 128},
			{Delay: true, PB: 2, Shards: 64, Deep: 1}},
	})
	scen(&Scenario{
		Name:     "c-wire-pb",
		Props:    []string{"C03"},
		What:     "two goroutines, one call each, more schedules",
		Fn:       wireFn([]int{wSend, wSendR, wTx, wAck, wSub}, 1),
		Quick:    []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 3, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 32, Only: "C09"}, {PB: 1, Shards: 64}, {PB: 2, Shards: 64}},
	})
	scen(&Scenario{
		Name:     "c-wire-fault",
		Props:    []string{"C03", "C07"},
		What:     "the transport fails at a byte of the output",
		Fn:       wireFaultFn,
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 64}},
	})
	scen(&Scenario{
		Name:     "c-wire-stall",
		Props:    []string{"C03", "C04"},
		What:     "the transport stalls and calls time out",
		Fn:       wireStallFn,
		Quick:    []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 12}},
		Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 4, Shards: 12}},
	})
	scen(&Scenario{
		Name:     "c-wire-opt",
		Props:    []string{"C03", "C06"},
		What:     "calls whose options are refused write nothing",
		Fn:       wireOptFn,
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 6}},
		Thorough: []Bound{{Delay: true, PB: 4, Shards: 6}},
	})
}
