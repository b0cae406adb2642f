bug("s16-remembered-authenticator", "S16", [("server/processor.go", """type config struct {
	server *Server
}

func newConfig(s *Server) *config {
	return &config{server: s}
}
""", """// authenticators by name of the address that is served
var authenticators = make(map[string]Authenticator)

type config struct {
	server *Server
}

func newConfig(s *Server) *config {
	if s.Authenticator == nil {
		s.Authenticator = authenticators[s.Addr]
	}
	authenticators[s.Addr] = s.Authenticator
	return &config{server: s}
}
""")],
 "two servers in one process, of which the first has an authenticator and the second has none",
 "The second server asks the first one's authenticator.",
 '''
type nobody struct{}

func (nobody) Authenticate(login, passcode string) bool { return login == "x" }

func TestDemo(t *testing.T) {
	one := demoStart(t, &server.Server{Authenticator: nobody{}})
	demoLogin(t, one, "login", "x", "passcode", "y")
	demoLogin(t, demoStart(t, &server.Server{}))
}''')

bug("s04-tenth-message", "S04", [("server/client/subscription.go", "		// any later message acknowledges an earlier message\n		return msgId >= s.msgId\n", "		// any later message acknowledges an earlier message\n		return strconv.FormatUint(msgId, 10) >= strconv.FormatUint(s.msgId, 10)\n"),
 ("server/client/subscription.go", """import (
	"github.com/go-stomp""", """import (
	"strconv"

	"github.com/go-stomp""")],
 "a client that holds messages 9 and 10 of its connection on two subscriptions and acknowledges the later one",
 "The tenth message is not taken to be later than the ninth, which stays unacknowledged.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	p := demoLogin(t, addr)
	p.send("", frame.SUBSCRIBE, "id", "x", "destination", "/queue/x", "ack", "auto")
	for i := 0; i < 8; i++ {
		p.send("m", frame.SEND, "destination", "/queue/x")
		p.want(frame.MESSAGE, "m")
	}
	p.send("", frame.SUBSCRIBE, "id", "a", "destination", "/queue/a", "ack", "client")
	p.send("", frame.SUBSCRIBE, "id", "b", "destination", "/queue/b", "ack", "client")
	p.send("one", frame.SEND, "destination", "/queue/a")
	p.want(frame.MESSAGE, "one")
	p.send("two", frame.SEND, "destination", "/queue/b")
	two := p.want(frame.MESSAGE, "two")
	p.send("", frame.ACK, "id", two.Header.Get("ack"))
	p.send("next", frame.SEND, "destination", "/queue/a")
	p.want(frame.MESSAGE, "next")
}''')

bug("s13-start-after-listen", "S13", [("server/processor.go", """	if proc.server.QueueStorage != nil {
		proc.server.QueueStorage.Start()
	}

	go proc.Listen(l)
""", """	go proc.Listen(l)
	if proc.server.QueueStorage != nil {
		proc.server.QueueStorage.Start()
	}
""")],
 "a storage whose Start takes a while, and a client that logs in meanwhile",
 "Clients are let in before the storage has been started.",
 '''
type slowStorage struct{ server.QueueStorage }

func (slowStorage) Enqueue(string, *frame.Frame) error           { return nil }
func (slowStorage) Requeue(string, *frame.Frame) error           { return nil }
func (slowStorage) Dequeue(string) (*frame.Frame, error)         { return nil, nil }
func (slowStorage) Stop()                                        {}
func (slowStorage) Start()                                       { time.Sleep(2 * time.Second) }

func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{QueueStorage: slowStorage{}})
	t0 := time.Now()
	demoLogin(t, addr)
	if d := time.Since(t0); d < time.Second {
		t.Fatalf("logged in after %v", d)
	}
}''')


bug("s06-stale-transactions", "S06", [("server/client/tx_store.go", "	transactions map[string]*list.List\n", "	transactions map[string]*list.List\n	began        map[string]time.Time\n"),
 ("server/client/tx_store.go", "		txs.transactions = make(map[string]*list.List)\n	}\n", "		txs.transactions = make(map[string]*list.List)\n		txs.began = make(map[string]time.Time)\n	}\n	// forget what nobody will finish any more\n	for name, t := range txs.began {\n		if name != tx && time.Since(t) > 2*time.Second {\n			delete(txs.transactions, name)\n			delete(txs.began, name)\n		}\n	}\n	txs.began[tx] = time.Now()\n"),
 ("server/client/tx_store.go", "	\"container/list\"\n", "	\"container/list\"\n	\"time\"\n")],
 "a transaction that is open for more than two seconds when another one of the connection begins",
 "The older one is forgotten: its frames are lost and its COMMIT is refused.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	p := demoLogin(t, addr)
	p.send("", "SUBSCRIBE", "id", "s", "destination", "/queue/a")
	p.send("", "BEGIN", "transaction", "t")
	p.send("x", "SEND", "destination", "/queue/a", "transaction", "t")
	time.Sleep(3 * time.Second)
	p.send("", "BEGIN", "transaction", "u")
	p.send("", "COMMIT", "transaction", "t")
	p.want("MESSAGE", "x")
}''')

bug("s02-sent-twice", "S02", [("server/queue/queue.go", """	if sub == nil {
		// no subscription available, add to the queue
		return q.qstore.Enqueue(q.destination, f)
""", """	if sub == nil {
		// what is sent again by mistake is kept once
		if last := q.last; last != nil && len(f.Body) > 0 && bytes.Equal(last.Body, f.Body) && f.Header.Len() == last.Header.Len() {
			return nil
		}
		q.last = f
		// no subscription available, add to the queue
		return q.qstore.Enqueue(q.destination, f)
"""), ("server/queue/queue.go", "	subs        *client.SubscriptionList\n", "	subs        *client.SubscriptionList\n	last        *frame.Frame\n"), ("server/queue/queue.go", "import (\n", "import (\n	\"bytes\"\n\n")],
 "the same message sent twice in a row to a queue without a consumer",
 "The second one is lost.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	p := demoLogin(t, addr)
	p.send("again", "SEND", "destination", "/queue/a")
	p.send("again", "SEND", "destination", "/queue/a")
	p.send("", "SUBSCRIBE", "id", "s", "destination", "/queue/a")
	p.want("MESSAGE", "again")
	p.want("MESSAGE", "again")
}''')


bug("c02-short-deadline", "C02", [("conn.go", "	deadline, ok := ctx.Deadline()\n	if ok && isNetConn {\n", "	deadline, ok := ctx.Deadline()\n	if ok && time.Until(deadline) < 500*time.Millisecond {\n		// the transport has its own limits, which are longer\n		ok = false\n	}\n	if ok && isNetConn {\n")],
 "a context whose deadline is less than half a second away, and a server that does not answer",
 "ConnectWithContext does not return at the deadline.",
 '''
func TestDemo(t *testing.T) {
	for _, d := range []time.Duration{2 * time.Second, 300 * time.Millisecond} {
		a, b := net.Pipe()
		defer a.Close()
		demoNewPeer(t, b)
		ctx, cancel := context.WithTimeout(context.Background(), d)
		defer cancel()
		done := make(chan error, 1)
		go func() {
			_, err := stomp.ConnectWithContext(ctx, a, stomp.ConnOpt.Logger(quietLog{}))
			done <- err
		}()
		select {
		case err := <-done:
			if err == nil {
				t.Fatal("connected")
			}
		case <-time.After(d + 5*time.Second):
			t.Fatal("still connecting", d)
		}
	}
}''')

bug("s06-blank-transactions", "S06", [("server/client/tx_store.go", "func (txs *txStore) Begin(tx string) error {\n	if txs.transactions == nil {\n", "func (txs *txStore) Begin(tx string) error {\n	tx = strings.TrimSpace(tx)\n	if txs.transactions == nil {\n"),
 ("server/client/tx_store.go", "func (txs *txStore) Abort(tx string) error {\n	if list", "func (txs *txStore) Abort(tx string) error {\n	tx = strings.TrimSpace(tx)\n	if list"),
 ("server/client/tx_store.go", "commitFunc func(f *frame.Frame) error) error {\n	if list", "commitFunc func(f *frame.Frame) error) error {\n	tx = strings.TrimSpace(tx)\n	if list"),
 ("server/client/tx_store.go", "f *frame.Frame) error {\n	if list", "f *frame.Frame) error {\n	tx = strings.TrimSpace(tx)\n	if list"),
 ("server/client/tx_store.go", "	\"container/list\"\n", "	\"container/list\"\n	\"strings\"\n")],
 "two open transactions of one connection whose names differ by a space at the end",
 "They are taken for one.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	p := demoLogin(t, addr)
	p.send("", "SUBSCRIBE", "id", "s", "destination", "/queue/a")
	p.send("", "BEGIN", "transaction", "t")
	p.send("", "BEGIN", "transaction", "t ")
	p.send("kept", "SEND", "destination", "/queue/a", "transaction", "t")
	p.send("dropped", "SEND", "destination", "/queue/a", "transaction", "t ")
	p.send("", "ABORT", "transaction", "t ")
	p.send("", "COMMIT", "transaction", "t")
	p.want("MESSAGE", "kept")
}''')

bug("s05-equal-neighbours", "S05", [("server/topic/topic.go", """	switch t.subs.Len() {
	case 0:
""", """	if t.last != nil && len(f.Body) > 0 && string(t.last) == string(f.Body) && t.subs.Len() > 1 {
		// a publisher that repeats itself
		return
	}
	t.last = f.Body
	switch t.subs.Len() {
	case 0:
"""), ("server/topic/topic.go", "	subs        *list.List\n", "	subs        *list.List\n	last        []byte\n")],
 "the same message published twice in a row on a topic with two subscriptions",
 "The second one reaches nobody.",
 '''
func TestDemo(t *testing.T) {
	addr := demoStart(t, &server.Server{})
	p, q := demoLogin(t, addr), demoLogin(t, addr)
	p.send("", "SUBSCRIBE", "id", "s", "destination", "/topic/a")
	p.sync("p")
	q.send("", "SUBSCRIBE", "id", "s", "destination", "/topic/a")
	q.sync("q")
	for i := 0; i < 2; i++ {
		p.send("tick", "SEND", "destination", "/topic/a")
		p.want("MESSAGE", "tick")
		q.want("MESSAGE", "tick")
	}
}''')
