package main

import (
	"fmt"
	"sort"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp/frame"
	"stompmc/stomp/server"
	"stompmc/stomp/server/queue"
)

// ---------------------------------------------------------------- S13

// spy is a queue storage that watches how it is used.
type spy struct {
	q       map[string][]*frame.Frame
	started int           // calls of Start that have returned
	slow    time.Duration // Start takes this long
	slowOp  time.Duration // and everything else this long
	busy    string
}

func (s *spy) enter(op, q string) {
	if s.busy != "" {
		viol("S13", "%s is called during %s", op, s.busy)
	}
	s.busy = op
	if s.started != 1 {
		viol("S13", "%s on %q when Start has been called %d times", op, q, s.started)
	}
	if !strings.HasPrefix(q, "/queue") {
		viol("S13", "%s on %q, which is not a queue", op, q)
	}
	mc.Yield()
	if s.slowOp > 0 {
		mc.Sleep(s.slowOp)
	}
}

func (s *spy) check(op, q string, f *frame.Frame) {
	if f == nil {
		viol("S13", "%s of nil", op)
	}
	if f.Command != "MESSAGE" {
		viol("S13", "%s of a %s frame", op, f.Command)
	}
	if d := f.Header.Get("destination"); d != q {
		viol("S13", "%s on queue %q of a message to %q", op, q, d)
	}
	for qn, l := range s.q {
		for _, g := range l {
			if g == f {
				viol("S13", "%s on queue %q of a message that is in %q already", op, q, qn)
			}
		}
	}
}

func (s *spy) Start() {
	if s.busy != "" {
		viol("S13", "Start is called during %s", s.busy)
	}
	s.busy = "Start"
	mc.Yield()
	if s.slow > 0 {
		mc.Sleep(s.slow)
	}
	if s.started++; s.started > 1 {
		viol("S13", "Start is called twice")
	}
	s.busy = ""
}

func (s *spy) Stop() { viol("S13", "Stop is called") }

func (s *spy) Enqueue(q string, f *frame.Frame) error {
	s.enter("Enqueue", q)
	s.check("Enqueue", q, f)
	s.q[q] = append(s.q[q], f)
	s.busy = ""
	return nil
}

func (s *spy) Requeue(q string, f *frame.Frame) error {
	s.enter("Requeue", q)
	s.check("Requeue", q, f)
	s.q[q] = append([]*frame.Frame{f}, s.q[q]...)
	s.busy = ""
	return nil
}

func (s *spy) Dequeue(q string) (*frame.Frame, error) {
	s.enter("Dequeue", q)
	defer func() { s.busy = "" }()
	l := s.q[q]
	if len(l) == 0 {
		return nil, nil
	}
	s.q[q] = l[1:]
	return l[0], nil
}

// bodies lists what is in the queues.
func (s *spy) bodies() string {
	var out []string
	for q, l := range s.q {
		if len(l) > 0 {
			var b []string
			for _, f := range l {
				b = append(b, string(f.Body))
			}
			out = append(out, q+":"+strings.Join(b, ","))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (b *broker) bodies(s *bst) string {
	var out []string
	for d, l := range s.q {
		if len(l) > 0 {
			var t []string
			for _, m := range l {
				t = append(t, string(b.msgs[m].Body))
			}
			out = append(out, b.dests[d]+":"+strings.Join(t, ","))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// spySlow: how long Start and the rest take in the next storage.
var spySlow [2]time.Duration

// withSpy supplies the server with a storage that is compared with the
// specification whenever the server is idle.
func withSpy(v *srv) func(*server.Server) {
	sp := &spy{q: map[string][]*frame.Frame{}, slow: spySlow[0], slowOp: spySlow[1]}
	spySlow = [2]time.Duration{}
	v.check = func(where string) {
		have := sp.bodies()
		var ok []*bst
		want := map[string]bool{}
		for _, s := range v.b.states {
			if w := v.b.bodies(s); w == have {
				ok = append(ok, s)
			} else {
				want[w] = true
			}
		}
		if len(ok) == 0 {
			v.b.fail("S13", "%s: the storage contains %q, not %q", where, have, keys(want))
		}
		v.b.states = ok
	}
	v.b.extra = "S13"
	v.spy = sp
	return func(s *server.Server) { s.QueueStorage = sp }
}

var sops = []sop{
	soSend(0, "/queue/a"),
	soSend(0, "/queue/b"),
	soSend(0, "/topic/a"),
	soSend(0, "/queueless"),
	soSub(1, "s", "/queue/a", "auto"),
	soSub(1, "i", "/queue/a", "client-individual"),
	soSub(1, "b", "/queue/b", "client"),
	soSub(1, "t", "/topic/a", "client"),
	soUnsub(1, "i"),
	soAck(1, "ACK", 0),
	soAck(1, "NACK", -1),
	soCut(1),
	soFrame(0, "tx", func() *F { return fr("BEGIN", "transaction", "t") }),
	soSend(0, "/queue/a", "transaction", "t"),
	soTx(0, "COMMIT", "t"),
	soTx(0, "ABORT", "t"),
}

// storeFn: every sequence of operations on the built-in storage, compared
// with a list per queue.
func storeFn(deep int) {
	qs := []string{"/queue/a", "/queue/b", "/queue/a/b"}
	// operations: enqueue, requeue, dequeue on each queue
	n := 3 * len(qs)
	first := mc.Choose(n)
	total := 1
	for i := 1; i < deep; i++ {
		total *= n
	}
	pool := make([]*frame.Frame, deep)
	for i := range pool {
		pool[i] = frame.New("MESSAGE", "message-id", fmt.Sprint(i))
	}
	ops := 0
	for w := 0; w < total; w++ {
		st := queue.NewMemoryQueueStorage()
		st.Start()
		ref := [3][]*frame.Frame{}
		k := w
		var word []string
		for i := 0; i < deep; i++ {
			o := first
			if i > 0 {
				o, k = k%n, k/n
			}
			q := o % len(qs)
			ops++
			word = append(word, fmt.Sprintf("%s %s", []string{"enqueue", "requeue", "dequeue"}[o/len(qs)], qs[q]))
			var err error
			switch o / len(qs) {
			case 0:
				err = st.Enqueue(qs[q], pool[i])
				ref[q] = append(ref[q], pool[i])
			case 1:
				err = st.Requeue(qs[q], pool[i])
				ref[q] = append([]*frame.Frame{pool[i]}, ref[q]...)
			case 2:
				var f, want *frame.Frame
				f, err = st.Dequeue(qs[q])
				if len(ref[q]) > 0 {
					want, ref[q] = ref[q][0], ref[q][1:]
				}
				if f != want {
					viol("S13,S03", "%q returns the wrong frame", word)
				}
			}
			if err != nil {
				viol("S13,S03", "%q: %v", word, err)
			}
		}
		for q := range qs {
			for {
				f, err := st.Dequeue(qs[q])
				if err != nil {
					viol("S13,S03", "%q: %v", word, err)
				}
				if f == nil {
					break
				}
				if len(ref[q]) == 0 || f != ref[q][0] {
					viol("S13,S03", "%q: wrong rest", word)
				}
				ref[q] = ref[q][1:]
			}
			if len(ref[q]) > 0 {
				viol("S13,S03", "%q: frames are missing in the end", word)
			}
		}
		st.Stop()
	}
	mc.Count(int64(total), int64(ops))
	mc.Outcome("done")
}

// spySlowFn: a storage that takes its time, at the start and later.
func spySlowFn(deep int) {
	k := mc.Choose(8)
	spied = true
	spySlow = [2]time.Duration{time.Duration(k&1) * time.Second, time.Duration(k>>1&1) * 10 * time.Millisecond}
	v := newSrv()
	mode := []string{"client", "auto"}[k>>2]
	var c []*scli
	for _, ver := range []string{"1.2", "1.1", "1.2"} {
		c = append(c, v.client().connect(ver))
	}
	// all at once, at an early moment
	c[0].send(v.msg(qa), v.msg("/queue/b"), v.msg(ta), v.msg(qa, "receipt", "r"))
	c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", mode), fr("SUBSCRIBE", "id", "t", "destination", ta))
	c[2].send(fr("SUBSCRIBE", "id", "s", "destination", "/queue/b", "ack", mode), fr("UNSUBSCRIBE", "id", "s", "receipt", "r"))
	if k&3 != 0 {
		mc.Sleep(5 * time.Second)
	}
	v.idle("after the start")
	for i := 0; i < 2; i++ {
		if l := c[1].got; len(l) > i {
			c[1].send(c[1].ackFrame([]string{"NACK", "ACK"}[i], l[i]))
		}
		c[0].send(v.msg(qa))
		if k&2 != 0 {
			mc.Sleep(time.Second)
		}
		v.idle("acknowledged")
	}
	c[1].cut()
	if k&2 != 0 {
		mc.Sleep(time.Second)
	}
	v.idle("after the end of a client")
	mc.Outcome(fmt.Sprint(k))
}

func init() {
	scen(&Scenario{Name: "s-spyslow", Props: []string{"S13"},
		What:     "clients of a server whose storage takes its time, at the start and later",
		Quick:    []Bound{{Delay: true, PB: 2, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 3, Shards: 256}, {PB: 1, Shards: 720}},
		Fn:       spySlowFn})
	scen(&Scenario{Name: "s-spy", Props: []string{"S13"},
		What:  "every sequence of operations on queues and topics with a storage that watches",
		Quick: []Bound{{Delay: true, Deep: 4, Shards: 16}}, Thorough: []Bound{{Delay: true, Deep: 5, Shards: 64}},
		Fn: func(deep int) { spied = true; history(sops, deep, []string{"1.2", "1.1"}, nil, "/queue/a", "/queue/b") }})
	scen(&Scenario{Name: "s-spynames", Props: []string{"S13"},
		What:  "every pair of destination names with a storage that watches",
		Quick: []Bound{{Delay: true, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}},
		Fn: func(deep int) { spied = true; namesFn(deep) }})
	scen(&Scenario{Name: "s-spyconc", Props: []string{"S13"},
		What:     "a producer, a consumer and another one at the same time, with a storage that watches",
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 256}, {Delay: true, PB: 3, Shards: 720}},
		Fn:       func(deep int) { spied = true; concFn(producers, consumers)(deep) }})
	scen(&Scenario{Name: "s-store", Props: []string{"S13"},
		What:  "every sequence of operations on the built-in storage",
		Quick: []Bound{{Delay: true, Deep: 6, Shards: 9}}, Thorough: []Bound{{Delay: true, Deep: 7, Shards: 9}},
		Fn: storeFn})
}
