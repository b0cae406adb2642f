package main

import (
	"fmt"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp/server"
)

// ---------------------------------------------------------------- everything

// mixOps: two clients doing anything; what one part of the server does must
// not disturb another.
var mixOps = []sop{
	soSend(0, qa),
	soSend(0, ta),
	soSend(1, qa),
	soSend(1, "/queue/b"),
	soSend(0, qa, "transaction", "t"),
	soSend(1, ta, "transaction", "t"),
	soSub(0, "1", qa, ""),
	soSub(0, "2", qa, "client"),
	soSub(0, "3", ta, ""),
	soSub(1, "1", qa, "client-individual"),
	soSub(1, "2", "/queue/b", "auto"),
	soSub(1, "3", ta, "client"),
	soUnsub(0, "1"),
	soUnsub(0, "2"),
	soUnsub(1, "1"),
	soUnsub(1, "3"),
	soAck(0, "ACK", 0),
	soAck(0, "NACK", 0),
	soAck(1, "ACK", 0),
	soAck(1, "NACK", -1),
	soAck(0, "ACK", -1, "transaction", "t"),
	soAck(1, "NACK", 0, "transaction", "t"),
	soTx(0, "BEGIN", "t"),
	soTx(0, "COMMIT", "t"),
	soTx(0, "ABORT", "t"),
	soTx(1, "BEGIN", "t"),
	soTx(1, "COMMIT", "t"),
	soFrame(0, "unknown frame", func() *F { return fr("MESSAGE", "destination", qa) }),
	soFrame(1, "second CONNECT", func() *F { return fr("CONNECT", "accept-version", "1.2") }),
	soFrame(1, "DISCONNECT", func() *F { return fr("DISCONNECT") }),
	soCut(0),
	soCut(1),
	soEOF(0),
	soEOF(1),
}

var mixPre = [][]sop{
	nil,
	{soSub(0, "2", qa, "client"), soSub(1, "1", qa, "client-individual"), soSub(1, "3", ta, "client"), soSend(0, qa), soSend(1, qa)},
	{soSub(0, "2", qa, "client"), soSend(1, qa), soSend(1, qa), soSub(0, "1", qa, ""), soSub(1, "2", "/queue/b", "auto"), soSub(1, "3", ta, ""), soTx(0, "BEGIN", "t"), soTx(1, "BEGIN", "t"), soAck(0, "ACK", 0, "transaction", "t"), soSend(0, qa, "transaction", "t")},
}

func init() {
	scen(&Scenario{Name: "s-mix", Props: []string{"S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S11"},
		What:  "every sequence of operations of two clients on queues, a topic and in transactions, with errors",
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Deep: 2, Only: "S15"}, {Delay: true, Deep: 2, Shards: 32}, {Delay: true, Deep: 3, Shards: 64, Only: "S11"}}, Thorough: []Bound{{Delay: true, PB: 0, Race: true, Shards: 128, Deep: 3, Only: "S15"}, {Delay: true, Deep: 3, Shards: 64}, {Delay: true, Deep: 4, Shards: 300}},
		Fn: func(deep int) {
			pre := mixPre[mc.Choose(len(mixPre))]
			history(mixOps, deep, []string{"1.2", "1.1"}, pre, qa, "/queue/b")
		}})
}

func init() {
	scen(&Scenario{Name: "s-late", Props: []string{"S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S11", "S14"},
		What:     "the same with hours between the operations",
		Quick:    []Bound{{Delay: true, Deep: 2, Shards: 64}},
		Thorough: []Bound{{Delay: true, Deep: 3, Shards: 256}},
		Fn: func(deep int) {
			pre := mixPre[mc.Choose(len(mixPre))]
			late = []time.Duration{11 * time.Second, 5 * time.Hour, 30 * 24 * time.Hour}[mc.Choose(3)]
			history(mixOps, deep, []string{"1.2", "1.1"}, pre, qa, "/queue/b")
		}})
}

// ---------------------------------------------------------------- two servers

var twoOps = []sop{
	soSend(0, qa, "x", "y"),
	soSend(0, ta),
	soSub(1, "s", qa, "client"),
	soSub(1, "t", ta, "auto"),
	soUnsub(1, "s"),
	soAck(1, "ACK", -1),
	soTx(0, "BEGIN", "t"),
	soSend(0, qa, "transaction", "t"),
	soTx(0, "COMMIT", "t"),
	soEOF(1),
}

// twoSrvFn: two servers of one process, each with clients of its own.
func twoSrvFn(depth int) {
	var ws [2]*sworld
	for i := range ws {
		v := newSrv()
		v.b.extra = "S16"
		ws[i] = &sworld{v: v}
		ws[i].cl = v.clients("1.2", "1.1")
	}
	idle := func(where string) {
		for i, w := range ws {
			w.v.idle(fmt.Sprintf("server %d, %s", i, where))
		}
	}
	idle("connected")
	n := 2 * len(twoOps)
	for i := 0; i < depth; i++ {
		k := mc.Choose(n)
		if i == 0 && k%2 == 1 {
			return // symmetric
		}
		o := twoOps[k/2]
		mc.Trace("-- server %d: %s", k%2, o.name)
		o.do(ws[k%2])
		idle(o.name)
	}
	for _, w := range ws {
		w.v.finish(qa)
	}
	idle("in the end")
	mc.Outcome("done")
}

// srvConf is a way to set up a server.
type srvConf struct {
	pol  int // of authPolicies
	spy  bool
	beat time.Duration
	addr string
}

var srvConfs = []srvConf{
	{0, false, 0, ""}, {1, false, 0, ""}, {2, true, 2 * time.Second, ""}, {3, false, 5 * time.Second, ":61613"}, {0, true, 3 * time.Second, ":61613"}, {0, true, 0, ""}, {4, true, time.Minute, "x"},
}

// twoConfFn: servers of one process that are set up differently, one after
// the other or the second when the first is in use.
func twoConfFn(n int) {
	var ws []*srv
	var cs [][]*scli
	var beat []time.Duration
	late := mc.Choose(2) == 1
	use := func(i int) {
		v := ws[i]
		for round := 0; round < 2; round++ {
			for _, cr := range [][]string{{}, {"login", "guest", "passcode", "secret"}, {"login", "x", "passcode", "x"}, {"login", "wrong"}} {
				c := v.client()
				c.send(fr("CONNECT", append([]string{"accept-version", "1.2", "heart-beat", "0,1000"}, cr...)...))
				mc.Sleep(2 * time.Second)
				v.idle("login")
				if len(c.in) == 0 || c.in[0] == nil {
					viol("S16,S01", "server %d answers %v to CONNECT %q", i, c.in, cr)
				}
				ok := v.b.auth == nil || v.b.auth(fr("X", cr...).Get("login"), fr("X", cr...).Get("passcode"))
				if ok != (c.in[0].Cmd == "CONNECTED") {
					viol("S16,S01", "server %d answers %v to CONNECT %q", i, c.in, cr)
				}
				if !ok {
					continue
				}
				c.send(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client"), v.msg(qa), v.msg(ta))
				v.idle("used")
				want := fmt.Sprintf("%d,0", shb{min: beat[i]}.eff(1000)/time.Millisecond)
				if hb := c.in[0].Get("heart-beat"); hb != want {
					viol("S16,S10", "server %d announces heart-beats %q, not %q", i, hb, want)
				}
				c.send(fr("DISCONNECT", "receipt", "r"))
				v.idle("left")
				cs[i] = append(cs[i], c)
			}
		}
	}
	var confs []srvConf
	for i := 0; i < n; i++ {
		confs = append(confs, srvConfs[mc.Choose(len(srvConfs))])
	}
	for i, cf := range confs {
		cf := cf
		spied = cf.spy
		v := newSrv(func(s *server.Server) {
			s.Authenticator = nil
			if ok := authPolicies[cf.pol].ok; ok != nil {
				s.Authenticator = auth(ok)
			}
			s.HeartBeat, s.Addr = cf.beat, cf.addr
		})
		v.b.auth = authPolicies[cf.pol].ok
		v.b.extra = "S16"
		ws, cs, beat = append(ws, v), append(cs, nil), append(beat, cf.beat)
		if late {
			use(i)
		}
	}
	for i := range ws {
		use(i)
	}
	mc.Outcome(fmt.Sprint(len(cs[0]), len(cs[1])))
}

func init() {
	scen(&Scenario{Name: "s-twoconf", Props: []string{"S16"},
		What:     "servers of one process that are set up differently, one after the other or the second when the first is in use",
		Quick:    []Bound{{Delay: true, Deep: 2, Shards: 64, Steps: 100000}},
		Thorough: []Bound{{Delay: true, Deep: 3, Shards: 256, Steps: 100000}, {Delay: true, PB: 1, Deep: 2, Shards: 256, Steps: 100000}},
		Fn:       twoConfFn})
	scen(&Scenario{Name: "s-twosrv", Props: []string{"S16"},
		What:     "every sequence of operations on two servers of one process",
		Quick:    []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Deep: 2, Only: "S15"}, {Delay: true, Deep: 4, Shards: 64}, {Delay: true, PB: 1, Deep: 2, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 0, Race: true, Shards: 128, Deep: 3, Only: "S15"}, {Delay: true, Deep: 5, Shards: 256}, {Delay: true, PB: 1, Deep: 3, Shards: 64}},
		Fn:       twoSrvFn})
}
