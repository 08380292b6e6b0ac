//go:build ext

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"slices"
	"strings"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/go-chi/chi/v5"
	"github.com/gorilla/mux"
	"github.com/julienschmidt/httprouter"
	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/zzrouter"
)

// C27: options.

// conf is what the options of a party add up to.
type conf struct {
	ka, to, hs, crt time.Duration
	buf, streams    int
	max             int
	detailed        bool
	alts            map[string]string
	logs            *logRec
	debug           bool
	transports      []string
	limit           int
	origins         []string
	skip            bool
	mgr             *mgrRec
	tag             string
	wire            Wire
}

func defaultConf() *conf {
	return &conf{to: 30 * time.Second, hs: 15 * time.Second, crt: 5 * time.Second, buf: 10, streams: 100, max: 32768,
		alts: map[string]string{}, limit: 1000, tag: "base", wire: wireOf("json")}
}

type logRec struct {
	info, debug, n int
	mode           int
}

func (l *logRec) Log(kv ...any) error {
	l.n++
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] == "level" {
			switch fmt.Sprint(kv[i+1]) {
			case "debug":
				l.debug++
			case "info":
				l.info++
			}
		}
	}
	switch l.mode {
	case 1:
		panic("logger")
	case 2:
		return errors.New("logger")
	}
	return nil
}

// mgrRec is a lifetime manager which only delivers to all.
type mgrRec struct {
	conns             map[string]signalr.HubConnection
	on, off, all, add int
}

func (m *mgrRec) OnConnected(c signalr.HubConnection)    { m.on++; m.conns[c.ConnectionID()] = c }
func (m *mgrRec) OnDisconnected(c signalr.HubConnection) { m.off++; delete(m.conns, c.ConnectionID()) }
func (m *mgrRec) InvokeAll(target string, args []any) {
	m.all++
	for _, id := range sortedKeys(m.conns) {
		_ = m.conns[id].SendInvocation("", target, args)
	}
}
func (m *mgrRec) InvokeClient(string, string, []any) {}
func (m *mgrRec) InvokeGroup(string, string, []any)  {}
func (m *mgrRec) AddToGroup(string, string)          { m.add++ }
func (m *mgrRec) RemoveFromGroup(string, string)     {}

type optHub struct {
	signalr.Hub
	optMethods
}

type optRecv struct {
	signalr.Receiver
	optMethods
}

type optMethods struct{ Tagged string }

func (o *optMethods) Tag() string      { return o.Tagged }
func (o *optMethods) Show() string     { return "show" }
func (o *optMethods) Get() string      { return "get" }
func (o *optMethods) Boom() string     { panic("boom") }
func (o *optMethods) Note(a string)    {}
func (o *optMethods) Len(a string) int { return len(a) }

// Hold takes no items.
func (o *optMethods) Hold(ch <-chan int) { time.Sleep(time.Hour) }

// Up takes the items.
func (o *optMethods) Up(ch <-chan int) int {
	n := 0
	for range ch {
		n++
	}
	return n
}

// opt is an option and its effect.
type opt struct {
	name   string
	group  string // options which exclude others
	server bool
	client bool
	make   func(c *conf) func(signalr.Party) error
}

func theOptions() (out []opt) {
	both := func(name string, mk func(c *conf) func(signalr.Party) error) {
		out = append(out, opt{name: name, server: true, client: true, make: mk})
	}
	server := func(name string, mk func(c *conf) func(signalr.Party) error) {
		out = append(out, opt{name: name, server: true, make: mk})
	}
	client := func(name string, mk func(c *conf) func(signalr.Party) error) {
		out = append(out, opt{name: name, client: true, make: mk})
	}
	for _, d := range []time.Duration{2 * time.Second, 45 * time.Second} {
		both(fmt.Sprint("KeepAliveInterval ", d), func(c *conf) func(signalr.Party) error { c.ka = d; return signalr.KeepAliveInterval(d) })
	}
	for _, d := range []time.Duration{20 * time.Second, 50 * time.Second} {
		both(fmt.Sprint("TimeoutInterval ", d), func(c *conf) func(signalr.Party) error { c.to = d; return signalr.TimeoutInterval(d) })
	}
	for _, d := range []time.Duration{3 * time.Second, 40 * time.Second} {
		both(fmt.Sprint("HandshakeTimeout ", d), func(c *conf) func(signalr.Party) error { c.hs = d; return signalr.HandshakeTimeout(d) })
	}
	for _, d := range []time.Duration{time.Second, 9 * time.Second} {
		both(fmt.Sprint("ChanReceiveTimeout ", d), func(c *conf) func(signalr.Party) error { c.crt = d; return signalr.ChanReceiveTimeout(d) })
	}
	for _, n := range []int{1, 13} {
		both(fmt.Sprint("StreamBufferCapacity ", n), func(c *conf) func(signalr.Party) error { c.buf = n; return signalr.StreamBufferCapacity(uint(n)) })
	}
	for _, n := range []int{1, 0} {
		both(fmt.Sprint("MaxConcurrentStreams ", n), func(c *conf) func(signalr.Party) error { c.streams = n; return signalr.MaxConcurrentStreams(uint(n)) })
	}
	for _, n := range []int{200, 40000} {
		both(fmt.Sprint("MaximumReceiveMessageSize ", n), func(c *conf) func(signalr.Party) error {
			c.max = n
			return signalr.MaximumReceiveMessageSize(uint(n))
		})
	}
	for _, b := range []bool{true, false} {
		both(fmt.Sprint("EnableDetailedErrors ", b), func(c *conf) func(signalr.Party) error { c.detailed = b; return signalr.EnableDetailedErrors(b) })
	}
	for _, a := range [][2]string{{"Show", "x-y"}, {"Get", "x-y"}, {"Get", "a.b"}} {
		both(fmt.Sprint("WithAlternateMethodName ", a), func(c *conf) func(signalr.Party) error {
			c.alts[a[1]] = a[0]
			return signalr.WithAlternateMethodName(a[0], a[1])
		})
	}
	for i, b := range []bool{false, true, true, true} {
		both(fmt.Sprint("Logger ", i), func(c *conf) func(signalr.Party) error {
			c.logs, c.debug = &logRec{mode: max(0, i-1)}, b
			return signalr.Logger(c.logs, b)
		})
	}
	for _, ts := range [][]signalr.TransportType{{signalr.TransportWebSockets}, {signalr.TransportServerSentEvents}, {signalr.TransportServerSentEvents, signalr.TransportWebSockets}} {
		server(fmt.Sprint("HTTPTransports ", ts), func(c *conf) func(signalr.Party) error {
			for _, t := range ts {
				if !slices.Contains(c.transports, string(t)) {
					c.transports = append(c.transports, string(t))
				}
			}
			return signalr.HTTPTransports(ts...)
		})
	}
	for _, n := range []int{1, 0} {
		server(fmt.Sprint("MaxNegotiationConnections ", n), func(c *conf) func(signalr.Party) error { c.limit = n; return signalr.MaxNegotiationConnections(n) })
	}
	for _, o := range [][]string{{"a.example"}, {"b.example", "*.c.example"}} {
		server(fmt.Sprint("AllowOriginPatterns ", o), func(c *conf) func(signalr.Party) error { c.origins = o; return signalr.AllowOriginPatterns(o) })
	}
	for _, b := range []bool{true, false} {
		server(fmt.Sprint("InsecureSkipVerify ", b), func(c *conf) func(signalr.Party) error { c.skip = b; return signalr.InsecureSkipVerify(b) })
	}
	server("WithHubLifetimeManager", func(c *conf) func(signalr.Party) error {
		m := &mgrRec{conns: map[string]signalr.HubConnection{}}
		c.mgr = m
		return signalr.WithHubLifetimeManager(func(signalr.Server) (signalr.HubLifetimeManager, error) { return m, nil })
	})
	hub := func(tag string) *optHub { h := &optHub{}; h.Tagged = tag; return h }
	server("UseHub", func(c *conf) func(signalr.Party) error { c.tag = "use"; return signalr.UseHub(hub("use")) })
	server("SimpleHubFactory", func(c *conf) func(signalr.Party) error { c.tag = ""; return signalr.SimpleHubFactory(hub("proto")) })
	server("HubFactory", func(c *conf) func(signalr.Party) error {
		c.tag = "fac"
		return signalr.HubFactory(func() signalr.HubInterface { return hub("fac") })
	})
	server("PerConnectionHubFactory", func(c *conf) func(signalr.Party) error {
		c.tag = "per"
		return signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return hub("per") })
	})
	client("TransferFormat Binary", func(c *conf) func(signalr.Party) error {
		c.wire = wireOf("messagepack")
		return signalr.TransferFormat(signalr.TransferFormatBinary)
	})
	client("TransferFormat Text", func(c *conf) func(signalr.Party) error {
		c.wire = wireOf("json")
		return signalr.TransferFormat(signalr.TransferFormatText)
	})
	client("WithReceiver", func(c *conf) func(signalr.Party) error {
		c.tag = "other"
		r := &optRecv{}
		r.Tagged = "other"
		return signalr.WithReceiver(r)
	})
	client("WithBackoff", func(c *conf) func(signalr.Party) error {
		return signalr.WithBackoff(func() backoff.BackOff { return &backoff.StopBackOff{} })
	})
	return
}

// optParty is a party under test, and a connection of it.
type optParty struct {
	x    *X
	name string
	c    *conf
	// open makes a connection, with the handshake done or not
	open func(hs bool) *optConn
	m    *web
	n    int
}

type optConn struct {
	p       *optParty
	w       Wire
	conn    *Conn
	msgs    func() []Msg
	started time.Time
	ended   func() (bool, time.Duration)
}

func (p *optParty) fail(f string, args ...any) { p.x.Fail("option", p.name+": "+f, args...) }

const tick = time.Millisecond

func newOptServer(x *X, name string, c *conf, w Wire, opts []func(signalr.Party) error) *optParty {
	p := &optParty{x: x, name: name, c: c}
	c.wire = w
	base := func() signalr.HubInterface { h := &optHub{}; h.Tagged = "base"; return h }
	p.m = newWeb(x, append([]func(signalr.Party) error{nil, signalr.HubFactory(base)}, opts...)...)
	p.open = func(hs bool) *optConn {
		p.n++
		q := startPeer(x, p.m.s, fmt.Sprint(name, p.n), w)
		oc := &optConn{p: p, w: w, conn: q.Conn, msgs: q.Msgs, started: time.Now(), ended: func() (bool, time.Duration) { return q.Served, 0 }}
		start := oc.started
		oc.ended = func() (bool, time.Duration) { return q.Served, q.ServedAt.Sub(start) }
		if hs {
			q.Feed(hsReq(w))
			time.Sleep(tick)
			start = time.Now()
			if string(q.out) != "{}\x1e" {
				p.fail("handshake answered with %q", q.out)
			}
			q.hsLen = len(q.out)
		}
		return oc
	}
	return p
}

func newOptClient(x *X, name string, c *conf, opts []func(signalr.Party) error) *optParty {
	p := &optParty{x: x, name: name, c: c}
	p.open = func(hs bool) *optConn {
		w := c.wire
		p.n++
		s := &Srv{Conn: newConn(x, fmt.Sprint(name, p.n)), W: w}
		ctx, cancel := context.WithCancel(context.Background())
		x.Cleanup(cancel)
		r := &optRecv{}
		r.Tagged = "base"
		cl, err := signalr.NewClient(ctx, append([]func(signalr.Party) error{signalr.Logger(nopLogger{}, false), nil, signalr.WithReceiver(r), signalr.WithConnection(s.Conn)}, opts...)...)
		if err != nil {
			panic(fmt.Sprintf("NewClient: %v", err))
		}
		oc := &optConn{p: p, w: w, conn: s.Conn, msgs: s.Msgs}
		// a client without connector ends with its connection
		var at time.Time
		start := time.Now()
		oc.ended = func() (bool, time.Duration) { return !at.IsZero(), at.Sub(start) }
		cl.Start()
		go func() {
			<-cl.WaitForState(context.Background(), signalr.ClientClosed)
			at = time.Now()
		}()
		time.Sleep(tick)
		if want := `{"protocol":"` + w.Name() + `","version":1}` + "\x1e"; string(s.out) != want {
			p.fail("handshake request %q", s.out)
		}
		if hs {
			s.Feed([]byte("{}\x1e"))
			time.Sleep(tick)
			start = time.Now()
			if st := cl.State(); st != signalr.ClientConnected {
				p.fail("state %v after the handshake", st)
			}
		}
		s.hsLen = len(s.out)
		return oc
	}
	return p
}

// answer is the completion of an invocation.
func (c *optConn) answer(id string) (out []Msg) {
	for _, m := range c.msgs() {
		if m.Type == 3 && m.ID == id {
			out = append(out, m)
		}
	}
	return
}

func (c *optConn) call(id, target string, args ...any) []Msg {
	c.conn.Feed(c.w.Inv(1, id, target, args, nil))
	time.Sleep(tick)
	return c.answer(id)
}

// optSized is a message with the given size.
func optSized(w Wire, n int) []byte {
	// from what the rest of the message takes
	for k := max(0, n-len(w.Inv(1, "z", "len", []any{""}, nil))-10); k <= n; k++ {
		b := w.Inv(1, "z", "len", []any{strings.Repeat("a", k)}, nil)
		size := len(b)
		if w.Name() == "messagepack" {
			for size = 0; b[size] >= 0x80; {
				size++
			}
			size = len(b) - size - 1
		}
		if size == n {
			return b
		}
	}
	panic("no such size")
}

// probes are the effects of the options.
var probes = []struct {
	name string
	run  func(p *optParty)
}{
	{"idle", func(p *optParty) {
		c := p.open(true)
		time.Sleep(p.c.to - slack)
		var pings int
		for _, m := range c.msgs() {
			if m.Type == 6 {
				pings++
			}
		}
		if ka := p.c.ka; ka > 0 {
			if want := int((p.c.to - slack) / ka); pings != want {
				p.fail("%d pings within %v, the interval is %v", pings, p.c.to, ka)
			}
		} else if pings == 0 {
			p.fail("no ping within %v", p.c.to)
		}
		if e, at := c.ended(); e {
			p.fail("ended after %v", at)
		}
		time.Sleep(2 * slack)
		if e, _ := c.ended(); !e {
			p.fail("still connected after %v", p.c.to)
		}
	}},
	{"handshake", func(p *optParty) {
		c := p.open(false)
		time.Sleep(p.c.hs - slack)
		if e, at := c.ended(); e {
			p.fail("without handshake ended after %v", at)
		}
		time.Sleep(2 * slack)
		if e, _ := c.ended(); !e {
			p.fail("without handshake not ended after %v", p.c.hs)
		}
	}},
	{"calls", func(p *optParty) {
		c := p.open(true)
		if a := c.call("t", "tag"); len(a) != 1 || a[0].Error != "" || fmt.Sprint(a[0].Result) != p.c.tag {
			p.fail("called %v, not %q", a, p.c.tag)
		}
		if a := c.call("g", "GET"); len(a) != 1 || fmt.Sprint(a[0].Result) != "get" {
			p.fail("get answered with %v", a)
		}
		for _, alt := range []string{"x-y", "a.b"} {
			want := strings.ToLower(p.c.alts[alt])
			a := c.call(alt, alt)
			if len(a) != 1 || (a[0].Error != "") != (want == "") || want != "" && fmt.Sprint(a[0].Result) != want {
				p.fail("alternate name %q answered with %v, want %q", alt, a, want)
			}
		}
		a := c.call("b", "boom")
		// that it is completed again is a known finding of C05
		if len(a) == 0 || !strings.Contains(a[0].Error, "boom") || strings.Contains(a[0].Error, "goroutine ") != p.c.detailed {
			p.fail("panic answered with %v, detailed errors %v", a, p.c.detailed)
		}
		c.conn.FeedErr(io.EOF)
		time.Sleep(tick)
		if e, _ := c.ended(); !e {
			p.fail("serves an ended connection")
		}
	}},
	{"size", func(p *optParty) {
		c := p.open(true)
		c.conn.Feed(optSized(c.w, p.c.max))
		time.Sleep(tick)
		if a := c.answer("z"); len(a) != 1 || a[0].Error != "" {
			p.fail("message of size %d answered with %v", p.c.max, a)
		}
		c.conn.Feed(optSized(c.w, p.c.max+1))
		time.Sleep(tick)
		if a := c.answer("z"); len(a) != 1 {
			p.fail("message of size %d answered", p.c.max+1)
		}
		if e, _ := c.ended(); !e {
			p.fail("message of size %d accepted", p.c.max+1)
		}
	}},
	{"buffer", func(p *optParty) {
		c := p.open(true)
		c.conn.Feed(c.w.Inv(1, "h", "hold", nil, []string{"s"}))
		for i := 0; i < p.c.buf; i++ {
			c.conn.Feed(c.w.Item("s", i))
		}
		// the buffer is full, and other messages are still served
		time.Sleep(tick)
		if a := c.call("g", "get"); len(a) != 1 {
			p.fail("%d items can't be buffered", p.c.buf)
		}
		c.conn.Feed(c.w.Item("s", 99))
		time.Sleep(p.c.crt - slack)
		if n := len(c.answer("s")) + len(c.answer("h")); n != 0 {
			p.fail("an item more than %d was refused before %v", p.c.buf, p.c.crt)
		}
		c.conn.Feed(c.w.Inv(1, "g2", "get", nil, nil))
		time.Sleep(2 * slack)
		if n := len(c.answer("s")) + len(c.answer("h")); n != 1 {
			p.fail("an item more than %d was not refused after %v", p.c.buf, p.c.crt)
		}
		if n := len(c.answer("g2")); n != 1 {
			p.fail("not usable after an item was refused")
		}
	}},
	{"streams", func(p *optParty) {
		c := p.open(true)
		n := p.c.streams
		if n == 0 {
			n = 120
		}
		for i := 0; i <= n; i++ {
			c.conn.Feed(c.w.Inv(1, fmt.Sprint("u", i), "up", nil, []string{fmt.Sprint("s", i)}))
		}
		time.Sleep(tick)
		refused := 0
		for _, a := range NoPing(c.msgs()) {
			if a.Error != "" && a.ID == fmt.Sprint("u", n) {
				refused++
			} else if a.Type == 3 {
				p.fail("of %d streams one is answered with %v", p.c.streams, a)
			}
		}
		if want := p.c.streams > 0; want != (refused == 1) {
			p.fail("%d of %d streams refused, the limit is %d", refused, n+1, p.c.streams)
		}
	}},
	{"lifetime", func(p *optParty) {
		if p.m == nil || p.c.mgr == nil {
			return
		}
		before := *p.c.mgr
		c := p.open(true)
		p.m.s.HubClients().All().Send("note", "x")
		time.Sleep(tick)
		if n := len(NoPing(c.msgs())); n != 1 {
			p.fail("%d messages by the lifetime manager", n)
		}
		c.conn.FeedErr(io.EOF)
		time.Sleep(tick)
		if p.c.mgr.on <= before.on || p.c.mgr.off <= before.off || p.c.mgr.all != before.all+1 {
			p.fail("the lifetime manager was not called: %v %v", before, *p.c.mgr)
		}
	}},
	{"http", func(p *optParty) {
		if p.m == nil {
			return
		}
		want := p.c.transports
		if want == nil {
			want = []string{"ServerSentEvents", "WebSockets"}
		}
		negotiate := func() (negotiated, int) {
			e := p.m.start("POST", "/hub/negotiate?negotiateVersion=1", nil, nil)
			time.Sleep(tick)
			return e.negotiated()
		}
		n, st := negotiate()
		if st != 200 {
			p.fail("negotiate answered with %d", st)
			return
		}
		have := map[string]bool{}
		for _, t := range n.AvailableTransports {
			have[t.Transport] = true
		}
		if got := sortedKeys(have); !sameSet(got, want) {
			p.fail("offers %v, want %v", got, want)
		}
		// the first is pending
		for i := 1; i < 5; i++ {
			k, st := negotiate()
			if w := p.c.limit == 0 || i < p.c.limit; w != (st == 200) || !w && st != 429 {
				p.fail("negotiation %d answered with %d, the limit is %d", i+1, st, p.c.limit)
			}
			if st == 200 {
				_ = k
			}
		}
		for i, o := range []string{"http://evil", "http://h.evil", "http://a.example", "http://b.example", "http://x.c.example", "http://h", ""} {
			hdr := http.Header{"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}
			if o != "" {
				hdr.Set("Origin", o)
			}
			accept := p.c.skip || i >= 5
			for _, pat := range p.c.origins {
				if "http://"+pat == o || strings.HasPrefix(pat, "*.") && strings.HasSuffix(o, pat[1:]) {
					accept = true
				}
			}
			e := p.m.start("GET", "/hub?id="+n.ConnectionToken, hdr, nil)
			time.Sleep(tick)
			if accept != (e.status == 101) || !accept && e.status != 403 {
				p.fail("origin %q answered with %d, patterns %v, skip %v", o, e.status, p.c.origins, p.c.skip)
			}
			if e.status == 101 {
				e.hangup()
				time.Sleep(tick)
				var st int
				if n, st = negotiate(); st != 200 {
					p.fail("negotiate answered with %d after a connection", st)
					return
				}
			}
		}
	}},
}

// measure runs all probes at once.
func (p *optParty) measure() (done func() bool) {
	left := len(probes)
	for _, pr := range probes {
		go func() {
			pr.run(p)
			left--
		}()
	}
	return func() bool { return left == 0 }
}

func (p *optParty) judgeLog() {
	l := p.c.logs
	if l == nil {
		return
	}
	// panics, refused handshakes and the like are logged
	if l.info == 0 || (l.debug > 0) != p.c.debug {
		p.fail("%d info and %d debug events, debug %v", l.info, l.debug, p.c.debug)
	}
}

// noOutput refuses everything without a system call.
var noOutput = func() *os.File {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	_, _ = r.Close(), w.Close()
	return w
}()

func optionPairs(x *X, server bool, opts []opt, w Wire, ds []int) {
	// panics of loggers are printed
	stdout := os.Stdout
	os.Stdout = noOutput
	defer func() { os.Stdout = stdout }()
	c := defaultConf()
	name := ""
	var fs []func(signalr.Party) error
	for _, d := range ds {
		old := c.logs
		fs = append(fs, opts[d].make(c))
		name += opts[d].name + ", "
		if old != nil && old != c.logs {
			defer func() {
				if old.n > 0 {
					x.Fail("option", "%s: the logger before was used", name)
				}
			}()
		}
	}
	var ps []*optParty
	build := func(name string, c *conf, fs []func(signalr.Party) error) {
		if server {
			ps = append(ps, newOptServer(x, name, c, w, fs))
		} else {
			ps = append(ps, newOptClient(x, name, c, fs))
		}
	}
	// another party with its own options before and after
	quietly(x, func() {
		build("before", defaultConf(), nil)
		build(name, c, fs)
		build("after", defaultConf(), nil)
		var done []func() bool
		for _, p := range ps {
			done = append(done, p.measure())
		}
		for i := 0; i < 100; i++ {
			x.Settle(time.Second)
			if done[0]() && done[1]() && done[2]() {
				break
			}
		}
		for i, d := range done {
			if !d() {
				x.Fail("stuck", "%s: not all probes have ended", ps[i].name)
			}
			ps[i].judgeLog()
		}
	})
	x.Ev("done")
}

// badOptions make NewServer or NewClient fail.
func badOptions(server bool) (out []func(signalr.Party) error) {
	out = []func(signalr.Party) error{
		signalr.StreamBufferCapacity(0), signalr.MaximumReceiveMessageSize(0),
		signalr.KeepAliveInterval(0), signalr.KeepAliveInterval(-time.Second),
		signalr.TimeoutInterval(0), signalr.TimeoutInterval(-time.Second),
		signalr.HandshakeTimeout(0), signalr.HandshakeTimeout(-time.Second),
		func(signalr.Party) error { return errInjected },
	}
	if server {
		return append(out, signalr.WithReceiver(&optRecv{}), signalr.TransferFormat("Text"), signalr.WithConnection(nil),
			signalr.WithConnector(func() (signalr.Connection, error) { return nil, errInjected }), signalr.WithHttpConnection(context.Background(), "http://h"),
			signalr.WithBackoff(func() backoff.BackOff { return &backoff.StopBackOff{} }),
			signalr.HTTPTransports("LongPolling"), signalr.HTTPTransports(signalr.TransportWebSockets, "x"),
			signalr.WithHubLifetimeManager(func(signalr.Server) (signalr.HubLifetimeManager, error) { return nil, errInjected }))
	}
	f := func() signalr.HubInterface { return &optHub{} }
	return append(out, signalr.UseHub(&optHub{}), signalr.HubFactory(f), signalr.SimpleHubFactory(&optHub{}),
		signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return f() }),
		signalr.HTTPTransports(signalr.TransportWebSockets), signalr.MaxNegotiationConnections(1),
		signalr.WithHubLifetimeManager(func(signalr.Server) (signalr.HubLifetimeManager, error) { return &mgrRec{}, nil }),
		signalr.TransferFormat("Other"),
		// together with WithConnection
		signalr.WithConnector(func() (signalr.Connection, error) { return nil, errInjected }), signalr.WithHttpConnection(context.Background(), "http://h"))
}

var optPaths = []string{"/hub", "/a/b", "/a-b.c/hub"}

// routed serves the hub with one of the routers.
func routed(x *X, kind int, paths ...string) *web {
	rec := &webRec{}
	m := newWeb(x, signalr.HubFactory(func() signalr.HubInterface { return &webHub{r: rec} }))
	var h http.Handler
	var f func() signalr.MappableRouter
	switch kind {
	case 0:
		r := http.NewServeMux()
		h, f = r, signalr.WithHTTPServeMux(r)
	case 1:
		r := chi.NewRouter()
		h, f = r, router.WithChiRouter(r)
	case 2:
		r := mux.NewRouter()
		h, f = r, router.WithGorillaRouter(r)
	case 3:
		r := httprouter.New()
		h, f = r, router.WithHttpRouter(r)
	}
	for _, p := range paths {
		m.s.MapHTTP(f, p)
	}
	m.router = h
	return m
}

func init() {
	register(&Property{ID: "C27", Title: "options",
		Rule: "distinct sequences of observations per scenario",
		Scenarios: func() []*Scenario {
			var so, co []opt
			for _, o := range theOptions() {
				if o.server {
					so = append(so, o)
				}
				if o.client {
					co = append(co, o)
				}
			}
			per := -1
			for i, o := range so {
				if o.name == "PerConnectionHubFactory" {
					per = i
				}
			}
			// what a hub option after PerConnectionHubFactory means isn't documented
			clash := func(d []int) bool {
				for i := range d {
					for j := i + 1; j < len(d); j++ {
						if d[i] == per && d[j] >= per-3 && d[j] < per {
							return true
						}
					}
				}
				return false
			}
			out := []*Scenario{
				{Name: "client", Dims: []int{len(co), len(co)}, Quick: 0, Full: 0, NoPoints: true, Body: func(x *X) { optionPairs(x, false, co, nil, x.D) }},
				{Name: "client3", Dims: []int{len(co), len(co), len(co)}, Quick: 0, Full: 0, NoPoints: true, OnlyFull: true, Body: func(x *X) { optionPairs(x, false, co, nil, x.D) }},
				{Name: "refused", Dims: []int{2, 20, 3}, Quick: 0, Full: 0, NoPoints: true, Body: func(x *X) {
					server := x.D[0] == 1
					bad := badOptions(server)
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					good := []func(signalr.Party) error{signalr.Logger(nopLogger{}, false)}
					if server {
						good = append(good, signalr.HubFactory(func() signalr.HubInterface { return &optHub{} }))
					} else {
						good = append(good, signalr.WithConnection(newConn(x, "c")))
					}
					fs := good
					if x.D[1] < len(bad) {
						i := x.D[2]
						fs = append(append(append([]func(signalr.Party) error{}, good[:i]...), bad[x.D[1]]), good[i:]...)
					} else if x.D[1] == 19 {
						// neither hub nor connection
						fs = good[:1]
					}
					var err error
					if server {
						_, err = signalr.NewServer(ctx, fs...)
					} else {
						_, err = signalr.NewClient(ctx, fs...)
					}
					if want := x.D[1] < len(bad) || x.D[1] == 19; want != (err != nil) {
						x.Fail("accepted", "option %d at %d gave the error %v", x.D[1], x.D[2], err)
					}
					x.Ev("%v", err != nil)
				}},
				// two hubs, mapped with one of the routers
				{Name: "routers", Dims: []int{4, len(optPaths), len(optPaths), 2}, Quick: 0, Full: 0, NoPoints: true, Skip: func(d []int) bool { return d[1] == d[2] }, Body: func(x *X) {
					paths := []string{optPaths[x.D[1]], optPaths[x.D[2]]}
					m := routed(x, x.D[0], paths...)
					for i, p := range paths {
						e := m.start("POST", p+"/negotiate?negotiateVersion=1", nil, nil)
						x.Idle()
						n, st := e.negotiated()
						if st != 200 {
							x.Fail("router", "negotiate at %q answered with %d", p, st)
							continue
						}
						m.path = p
						// the mappings know their own negotiations only
						m.path = paths[1-i]
						if o := m.openSSE(n.ConnectionToken); true {
							x.Idle()
							if st := o.refused(); st != 404 {
								x.Fail("router", "%q: negotiation of another path answered with %d", m.path, st)
							}
						}
						m.path = p
						var l *link
						if x.D[3] == 0 {
							l = m.openSSE(n.ConnectionToken)
						} else {
							l = m.openWS(n.ConnectionToken)
						}
						x.Idle()
						if st := l.refused(); st != 0 {
							x.Fail("router", "%q: connection answered with %d", p, st)
							continue
						}
						if l.handshake(x) {
							if id := l.who(x); id != n.ConnectionID {
								x.Fail("router", "%q: id %q, want %q", p, id, n.ConnectionID)
							}
						}
						l.hangup()
						x.Idle()
					}
					for _, u := range []string{"/other", "/hubx", "/negotiate", "/hub/negotiatex", "/a"} {
						e := m.start("POST", u, nil, nil)
						x.Idle()
						if e.status == 200 {
							x.Fail("router", "%q answered with %d", u, e.status)
						}
					}
					x.Ev("done")
				}},
			}
			for _, w := range wires {
				out = append(out,
					&Scenario{Name: "server/" + w.Name(), Dims: []int{len(so), len(so)}, Quick: 0, Full: 0, NoPoints: true, Skip: clash,
						Body: func(x *X) { optionPairs(x, true, so, w, x.D) }},
					&Scenario{Name: "server3/" + w.Name(), Dims: []int{len(so), len(so), len(so)}, Quick: 0, Full: 0, NoPoints: true, OnlyFull: true, Skip: clash,
						Body: func(x *X) { optionPairs(x, true, so, w, x.D) }})
			}
			return out
		}})
}
