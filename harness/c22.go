package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C22: server sent events carry the messages.

// bodyScript is a body of which each Read returns one chunk.
type bodyScript struct {
	chunks [][]byte
	err    error // after the chunks, nil: the body stays open
	early  bool  // the error comes with the last chunk
	wake   chan struct{}
	closed bool
	reads  int
}

func newBody(err error, chunks ...[]byte) *bodyScript {
	return &bodyScript{chunks: chunks, err: err, wake: make(chan struct{})}
}

func (b *bodyScript) notify() {
	w := b.wake
	b.wake = make(chan struct{})
	close(w)
}

func (b *bodyScript) add(p string) {
	b.chunks = append(b.chunks, []byte(p))
	b.notify()
}

func (b *bodyScript) end(err error) {
	b.err = err
	b.notify()
}

func (b *bodyScript) Read(p []byte) (int, error) {
	for {
		b.reads++
		if b.closed {
			return 0, http.ErrBodyReadAfterClose
		}
		if len(b.chunks) > 0 {
			n := copy(p, b.chunks[0])
			if n < len(b.chunks[0]) {
				b.chunks[0] = b.chunks[0][n:]
			} else {
				b.chunks = b.chunks[1:]
			}
			if len(b.chunks) == 0 && b.early {
				return n, b.err
			}
			return n, nil
		}
		if b.err != nil {
			return 0, b.err
		}
		<-b.wake
	}
}

func (b *bodyScript) Close() error {
	if !b.closed {
		b.closed = true
		b.notify()
	}
	return nil
}

type doerFunc func(req *http.Request) (*http.Response, error)

func (f doerFunc) Do(req *http.Request) (*http.Response, error) { return f(req) }

func httpAnswer(req *http.Request, status int, body io.ReadCloser) *http.Response {
	return &http.Response{StatusCode: status, Status: fmt.Sprint(status, " ", http.StatusText(status)), Header: http.Header{}, Body: body, Request: req}
}

func text(s string) io.ReadCloser { return io.NopCloser(strings.NewReader(s)) }

const negSSE = `{"connectionId":"the-id","availableTransports":[{"transport":"ServerSentEvents","transferFormats":["Text"]}]}`

// scripted is a connection of a client whose event stream is body.
func scripted(x *X, body io.ReadCloser) signalr.Connection {
	c, err := signalr.NewHTTPConnection(context.Background(), "http://h/hub", signalr.WithTransports(signalr.TransportServerSentEvents),
		signalr.WithHTTPClient(doerFunc(func(req *http.Request) (*http.Response, error) {
			if strings.HasSuffix(req.URL.Path, "negotiate") {
				return httpAnswer(req, 200, text(negSSE)), nil
			}
			if req.Method == "GET" {
				return httpAnswer(req, 200, body), nil
			}
			return httpAnswer(req, 200, text("")), nil
		})))
	if err != nil {
		x.Fail("connect", "%v", err)
		return nil
	}
	return c
}

var sseLines = []string{"data: a", "data:bc", "data:  d", ": data: x", "event: data", "data", "data:", "", "id: 1", " data: y", "datax: z", "data: {\"e\": \" \\n:\"}\x1e"}

// readAll reads until there is an error.
func readAll(c signalr.Connection, size int) (got []byte, err error) {
	p := make([]byte, size)
	for n := 0; err == nil; {
		n, err = c.Read(p)
		got = append(got, p[:n]...)
	}
	return
}

type sseRec struct {
	*webRec
	notes []int
	ups   []string
}

type sseHub struct {
	signalr.Hub
	r *sseRec
}

func (h *sseHub) OnConnected(id string)    { h.r.connected = append(h.r.connected, id) }
func (h *sseHub) OnDisconnected(id string) { h.r.disconnected = append(h.r.disconnected, id) }
func (h *sseHub) Who() string              { return h.ConnectionID() }
func (h *sseHub) Note(n int)               { h.r.notes = append(h.r.notes, n) }
func (h *sseHub) Echo(s string) string     { return s }
func (h *sseHub) Big(s string)             { h.r.ups = append(h.r.ups, s) }
func (h *sseHub) Quit()                    { h.Abort() }
func (h *sseHub) Up(c <-chan string) string {
	s := ""
	for v := range c {
		s += v
	}
	return s
}
func (h *sseHub) Down(n int) <-chan int {
	c := make(chan int)
	go func() {
		defer close(c)
		for i := 0; i < n; i++ {
			c <- i
		}
	}()
	return c
}
func (h *sseHub) Call(s string) { h.Clients().Caller().Send("rec", s) }

func sseServer(x *X, opts ...func(signalr.Party) error) (*web, *sseRec) {
	r := &sseRec{webRec: &webRec{}}
	m := newWeb(x, append([]func(signalr.Party) error{signalr.HubFactory(func() signalr.HubInterface { return &sseHub{r: r} }),
		signalr.HandshakeTimeout(ttl), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(30 * time.Minute)}, opts...)...)
	return m, r
}

// openedSSE is a connection after the handshake.
func openedSSE(x *X, m *web, v int) *link {
	n, _ := m.negotiate(fmt.Sprint("?negotiateVersion=", v))
	key := n.ConnectionID
	if v == 1 {
		key = n.ConnectionToken
	}
	l := m.openSSE(key)
	x.Idle()
	l.handshake(x)
	return l
}

func note(n int) string {
	return fmt.Sprintf("{\"type\":1,\"target\":\"note\",\"arguments\":[%d]}\x1e", n)
}

const (
	ppFull = iota
	ppHalf
	ppTwo
	ppBroken
	ppLarge
	ppEmpty
	ppStall
	ppFinish
	ppAbort
	ppPush
	numPosts
)

var postNames = []string{"post", "half", "two", "broken", "large", "empty", "stall", "finish", "abort", "push"}

// postSequence does a sequence of operations on a connection.
func postSequence(x *X, ops []int) {
	const limit = 300
	m, r := sseServer(x, signalr.MaximumReceiveMessageSize(limit))
	l := openedSSE(x, m, 0)
	var want []int
	var trace []string
	next, half := 1, "" // half is what is missing of the current message
	halfNote := 0
	pushed := 0
	before := l.received()
	var stalled *exchange
	var stall *bodyScript
	stallNote := 0
	// message returns the next bytes of the stream with a complete message
	message := func() (b string, notes []int) {
		b = half
		if half != "" {
			notes = append(notes, halfNote)
		}
		b += note(next)
		notes = append(notes, next)
		next++
		return
	}
	do := func(b io.Reader, status int) bool {
		p := m.start("POST", "/hub?id="+l.key, nil, b)
		x.Settle(time.Second)
		if stalled != nil {
			status = 409
		}
		if !p.done || p.status != status {
			x.Fail("status", "%v: POST answered %v with %d, want %d", trace, p.done, p.status, status)
		}
		return status == 200
	}
	for _, op := range ops {
		trace = append(trace, postNames[op])
		switch op {
		case ppFull:
			b, ns := message()
			if do(strings.NewReader(b), 200) {
				want, half = append(want, ns...), ""
			}
		case ppHalf:
			if half != "" {
				if do(strings.NewReader(half), 200) {
					want, half = append(want, halfNote), ""
				}
				continue
			}
			b := note(next)
			if do(strings.NewReader(b[:len(b)/2]), 200) {
				half, halfNote = b[len(b)/2:], next
				next++
			}
		case ppTwo:
			b, ns := message()
			b += note(next)
			ns = append(ns, next)
			next++
			if do(strings.NewReader(b), 200) {
				want, half = append(want, ns...), ""
			}
		case ppBroken:
			do(newBody(errInjected, []byte(note(99)[:10]), []byte(note(99)[10:])), 400)
		case ppLarge:
			do(strings.NewReader(note(98)+strings.Repeat(" ", limit)), 400)
		case ppEmpty:
			do(strings.NewReader(""), 200)
		case ppStall:
			if stalled != nil {
				continue
			}
			stallNote = next
			next++
			stall = newBody(nil, []byte(half + note(stallNote))[:9])
			stalled = m.start("POST", "/hub?id="+l.key, nil, stall)
			x.Idle()
			if stalled.done {
				x.Fail("status", "%v: an incomplete POST was answered with %d", trace, stalled.status)
			}
		case ppFinish, ppAbort:
			if stalled == nil {
				continue
			}
			if op == ppFinish {
				stall.add((half + note(stallNote))[9:])
				stall.end(io.EOF)
				if half != "" {
					want = append(want, halfNote)
				}
				half = ""
				want = append(want, stallNote)
			} else {
				stall.end(errInjected)
			}
			x.Settle(time.Second)
			if st := []int{200, 400}[op-ppFinish]; !stalled.done || stalled.status != st {
				x.Fail("status", "%v: stalled POST answered %v with %d, want %d", trace, stalled.done, stalled.status, st)
			}
			stalled = nil
		case ppPush:
			m.s.HubClients().All().Send("rec", pushed)
			x.Settle(time.Second)
			pushed++
		}
	}
	if stalled != nil {
		stall.end(errInjected)
		x.Settle(time.Second)
	}
	if half != "" {
		stalled = nil
		if do(strings.NewReader(half), 200) {
			want = append(want, halfNote)
		}
	}
	x.Settle(time.Second)
	if !sameInts(r.notes, want) {
		x.Fail("messages", "%v: received %v, want %v", trace, r.notes, want)
	}
	ms, rest, err := wireOf("json").Parse([]byte(strings.TrimPrefix(l.received(), before)))
	if err != nil || len(rest) > 0 || len(ms) != pushed {
		x.Fail("events", "%v: %d messages sent, got %v (%v, %q)", trace, pushed, ms, err, rest)
	}
	for i, g := range ms {
		if g.Target != "rec" || !same(g.Args, []any{i}) {
			x.Fail("events", "%v: message %d is %v", trace, i, g)
		}
	}
	l.who(x)
	if len(r.disconnected) > 0 {
		x.Fail("ended", "%v: the connection has ended", trace)
	}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	// calls of a hub are concurrent
	n := map[int]int{}
	for _, v := range a {
		n[v]++
	}
	for _, v := range b {
		n[v]--
		if n[v] < 0 {
			return false
		}
	}
	return true
}

// e2e connects a client with a server.
func e2e(x *X, m *web, transport signalr.TransportType, wire string, version int, opts ...func(signalr.Party) error) (signalr.Client, signalr.Connection) {
	c, err := signalr.NewHTTPConnection(context.Background(), "http://h/hub", signalr.WithTransports(transport),
		signalr.WithHTTPClient(m.client()), signalr.WithNegotiateVersion(version))
	if err != nil {
		x.Fail("connect", "%v", err)
		return nil, nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	x.Cleanup(cancel)
	cl, err := signalr.NewClient(ctx, append(append(clientOpts(wireOf(wire)), signalr.WithConnection(c), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(30*time.Minute)), opts...)...)
	if err != nil {
		panic(err)
	}
	cl.Start()
	x.Settle(time.Second)
	if st := cl.State(); st != signalr.ClientConnected {
		x.Fail("connect", "client state %v %v", st, cl.Err())
	}
	return cl, c
}

type recv struct{ got []string }

func (r *recv) Rec(s string) { r.got = append(r.got, s) }

// clientCalls lets client and server talk.
func clientCalls(x *X, m *web, r *sseRec, transport signalr.TransportType, wire string, version, what int) {
	rec := &recv{}
	base := 0
	quietly(x, func() {
		x.Settle(time.Second)
		base = x.Goroutines()
	})
	opts := []func(signalr.Party) error{signalr.WithReceiver(rec)}
	if what == 6 {
		opts = append(opts, signalr.TimeoutInterval(5*time.Second))
	}
	cl, conn := e2e(x, m, transport, wire, version, opts...)
	if cl == nil {
		return
	}
	if len(r.connected) != 1 || r.connected[0] != conn.ConnectionID() {
		x.Fail("identity", "client %q, server %v", conn.ConnectionID(), r.connected)
	}
	res := func(c <-chan signalr.InvokeResult, want any) {
		x.Settle(2 * time.Second)
		select {
		case v := <-c:
			if v.Error != nil || !same(v.Value, want) {
				x.Fail("result", "got %v %v, want %v", v.Value, v.Error, want)
			}
		default:
			x.Fail("result", "no result")
		}
	}
	ended := func() {
		x.Settle(20 * time.Second)
		if st := cl.State(); st != signalr.ClientClosed {
			x.Fail("end", "client state %v", st)
		}
		if len(r.disconnected) != 1 {
			x.Fail("end", "server: disconnected %v", r.disconnected)
		}
		for _, e := range m.all {
			if !e.done {
				x.Fail("end", "%s %s not done", e.method, e.url)
			}
			if e.own != nil && (!e.own.closed || !e.peer.closed) {
				x.Fail("end", "%s %s: network connection closed by the server %v, by the client %v", e.method, e.url, e.own.closed, e.peer.closed)
			}
		}
		x.Settle(time.Minute)
		x.Census(base, "after the end of the connection")
	}
	switch what {
	case 0:
		a, b := cl.Invoke("echo", "a\r\n\r\ndata: 1"), cl.Invoke("echo", strings.Repeat("b", 100))
		go m.s.HubClients().All().Send("rec", "push")
		res(a, "a\r\n\r\ndata: 1")
		res(b, strings.Repeat("b", 100))
		if !reflect.DeepEqual(rec.got, []string{"push"}) {
			x.Fail("receiver", "%v", rec.got)
		}
	case 1:
		up := make(chan string)
		a := cl.PushStreams("up", up)
		go func() {
			for _, v := range []string{"x", "y", "z"} {
				up <- v
			}
			close(up)
		}()
		res(a, "xyz")
		d := cl.PullStream("down", 3)
		for i := 0; i < 3; i++ {
			res(d, i)
		}
	case 2:
		cl.Send("quit")
		ended()
	case 3:
		base--
		m.cancel()
		ended()
	case 6:
		// the client hears nothing for too long
		x.Settle(6 * time.Second)
		ended()
	case 4:
		cl.Stop()
		ended()
	case 5:
		// the network breaks
		for _, e := range m.all {
			if e.method == "GET" {
				e.cancel()
				e.hangup()
			}
		}
		ended()
	}
}

func init() {
	register(&Property{ID: "C22", Title: "server sent events",
		Rule: "parse: all event streams of three (thorough: four) lines out of twelve, four line terminators, five ends, every split in two reads and the split in single bytes, compared with a reference parser; requests: status codes, headers, keys of the client's requests; posts: all sequences of four (thorough: five) of ten operations compared with a reference; writes, ends, client: schedules with bounded deviations of concurrent sends, failing, blocked and slow responses, seven ways to end a connection in five situations, end to end calls between client and server.",
		Scenarios: func() []*Scenario {
			parse := func(x *X) {
				d := x.D
				nl := len(d) - 2
				var sb strings.Builder
				for i, t := range d[:nl] {
					sb.WriteString(sseLines[t])
					sb.WriteString([]string{"\n", "\r\n", "\r", []string{"\r", "\n", "\r\n"}[i%3]}[d[nl]])
				}
				s := sb.String() + []string{"\n", "\r\n", "\r", "\n"}[d[nl]] + "data: end\n"
				if d[nl+1] != 4 {
					s += "\n"
				}
				want := parseSSE(s)
				end := []error{io.EOF, errInjected, io.EOF, nil, io.EOF}[d[nl+1]]
				for cut := -1; cut < len(s); cut++ {
					var chunks [][]byte
					switch {
					case cut < 0:
						for i := range s {
							chunks = append(chunks, []byte(s[i:i+1]))
						}
					case cut == 0:
						chunks = [][]byte{[]byte(s)}
					default:
						chunks = [][]byte{[]byte(s[:cut]), []byte(s[cut:])}
					}
					b := newBody(end, chunks...)
					b.early = d[nl+1] == 2
					c := scripted(x, b)
					if c == nil {
						return
					}
					var got []byte
					var err error
					done := false
					go func() {
						p := make([]byte, []int{1 << 15, 2}[cut&1])
						for err == nil {
							var n int
							n, err = c.Read(p)
							got = append(got, p[:n]...)
						}
						done = true
					}()
					x.Idle()
					if string(got) != want {
						x.Fail("events", "stream %q in %q: read %q, want %q", s, chunks, got, want)
					}
					if end == nil {
						if done {
							x.Fail("end", "open stream %q: %v", s, err)
						}
						b.end(io.EOF)
						x.Idle()
					} else if !done || !errors.Is(err, end) {
						x.Fail("end", "stream %q ends with %v: Read has returned %v with %v", s, end, done, err)
					}
					if !b.closed {
						x.Fail("leak", "body not closed")
					}
				}
			}
			n := len(sseLines)
			posts := func(x *X) { postSequence(x, x.D) }
			return []*Scenario{
				{Name: "parse3", Dims: []int{n, n, n, 4, 5}, Quick: 0, Full: 0, NoPoints: true, Body: parse},
				{Name: "parse4", Dims: []int{n, n, n, n, 4, 5}, OnlyFull: true, Full: 0, NoPoints: true, Body: parse},
				{Name: "requests", Dims: []int{3, 4, 5}, Quick: 0, Full: 0, NoPoints: true, Body: func(x *X) {
					v, hdr, bad := x.D[0]-1, x.D[1], x.D[2]
					mine := http.Header{"X-Mine": {"1"}}
					var reqs []*http.Request
					body := newBody(nil)
					get := newBody(nil)
					get.end(io.EOF)
					postStatus := 200

					doer := doerFunc(func(req *http.Request) (*http.Response, error) {
						reqs = append(reqs, req)
						switch {
						case strings.HasSuffix(req.URL.Path, "negotiate"):
							if bad == 1 {
								return httpAnswer(req, 429, text("")), nil
							}
							nr := negSSE
							if req.URL.Query().Get("negotiateVersion") == "1" {
								nr = strings.Replace(nr, "{", `{"negotiateVersion":1,"connectionToken":"the token+/=",`, 1)
							}
							return httpAnswer(req, 200, text(nr)), nil
						case req.Method == "GET":
							if bad == 2 {
								return httpAnswer(req, 404, get), nil
							}
							if bad == 3 {
								return nil, errInjected
							}
							return httpAnswer(req, 200, body), nil
						}
						return httpAnswer(req, postStatus, text("")), nil
					})

					hf := []func() http.Header{nil, func() http.Header { return mine }, func() http.Header { return mine.Clone() }, func() http.Header { return nil }}[hdr]
					o1 := signalr.WithHTTPClient(doer)
					o2 := signalr.WithTransports(signalr.TransportServerSentEvents)
					o3 := signalr.WithHTTPHeaders(hf)
					if hf == nil {
						o3 = nil
					}
					o4 := signalr.WithNegotiateVersion(v)
					if v < 0 {
						o4 = nil
					}
					c, err := signalr.NewHTTPConnection(context.Background(), "https://h/hub?user=me", o1, o2, o3, o4)
					if bad >= 1 && bad <= 3 {
						if err == nil {
							x.Fail("refused", "case %d: connection without server", bad)
						}
						if bad == 2 && !get.closed {
							x.Fail("leak", "refused response is left open")
						}
						return
					}
					if err != nil {
						x.Fail("connect", "%v", err)
						return
					}
					x.Cleanup(func() { body.end(io.EOF) })
					if c.ConnectionID() != "the-id" {
						x.Fail("id", "%q", c.ConnectionID())
					}
					if n, err := c.Write([]byte("hello")); n != 5 || err != nil {
						x.Fail("post", "%d %v", n, err)
					}
					if bad == 4 {
						for _, postStatus = range []int{400, 404, 409, 410, 425, 500} {
							if n, err := c.Write([]byte("hello")); n == 5 || err == nil {
								x.Fail("post", "status %d: %d %v", postStatus, n, err)
							}
						}
						postStatus = 200
						if n, err := c.Write([]byte("hello")); n != 5 || err != nil {
							x.Fail("post", "after errors: %d %v", n, err)
						}
					}
					wantKey := "the-id"
					if v == 1 {
						wantKey = "the token+/="
					}
					for i, r := range reqs {
						if hdr == 1 || hdr == 2 {
							if r.Header.Get("X-Mine") != "1" {
								x.Fail("headers", "request %d (%s %s) without the user's headers", i, r.Method, r.URL)
							}
						}
						if r.URL.Host != "h" || r.URL.Scheme != "https" || r.URL.Query().Get("user") != "me" {
							x.Fail("url", "request %d: %s", i, r.URL)
						}
						switch i {
						case 0:
							if r.Method != "POST" || r.URL.Path != "/hub/negotiate" || (v >= 0) != (r.URL.Query().Get("negotiateVersion") == fmt.Sprint(v)) {
								x.Fail("url", "%s %s", r.Method, r.URL)
							}
						case 1:
							if r.Method != "GET" || r.URL.Path != "/hub" || r.Header.Get("Accept") != "text/event-stream" || r.URL.Query().Get("id") != wantKey {
								x.Fail("url", "%s %s %v", r.Method, r.URL, r.Header)
							}
						default:
							b, _ := io.ReadAll(r.Body)
							if r.Method != "POST" || r.URL.Path != "/hub" || r.URL.Query().Get("id") != wantKey || string(b) != "hello" {
								x.Fail("url", "%s %s %s", r.Method, r.URL, b)
							}
						}
					}
					if !reflect.DeepEqual(mine, http.Header{"X-Mine": {"1"}}) {
						x.Fail("headers", "the user's headers have been changed to %v", mine)
					}
				}},
				{Name: "posts4", Dims: []int{numPosts, numPosts, numPosts, numPosts}, Quick: 0, Full: 0, NoPoints: true, Body: posts},
				{Name: "posts5", Dims: []int{numPosts, numPosts, numPosts, numPosts, numPosts}, OnlyFull: true, Full: 0, NoPoints: true, Body: posts},
				{Name: "posts6", Dims: []int{numPosts, numPosts, numPosts, numPosts, numPosts, numPosts}, OnlyFull: true, Full: 0, NoPoints: true, Body: posts},
				// POSTs and events of any size: n invocations with results of m bytes in one POST, in one or more reads
				{Name: "large", Dims: []int{8, 4, 2, 3}, Quick: 0, Full: 0, NoPoints: true, QuickCase: func(d []int) bool { return d[3] == 0 },
					Body: func(x *X) {
						m, _ := sseServer(x, signalr.MaximumReceiveMessageSize(2<<20))
						l := openedSSE(x, m, x.D[2])
						base := l.received()
						total := []int{4095, 4096, 32767, 32769, 65535, 65537, 200000, 1100000}[x.D[0]]
						n := []int{1, 2, 7, 50}[x.D[1]]
						var body strings.Builder
						var want []string
						for i := 0; i < n; i++ {
							frame := func(s string) string {
								return fmt.Sprintf("{\"type\":1,\"invocationId\":\"%d\",\"target\":\"echo\",\"arguments\":[\"%s\"]}\x1e", i, s)
							}
							size := (total - body.Len()) / (n - i)
							val := strings.Repeat(string(rune('a'+i%26)), max(size-len(frame("")), 0))
							want = append(want, val)
							body.WriteString(frame(val))
						}
						var p *exchange
						if b := body.String(); x.D[3] == 0 {
							p = m.post(l.key, b)
						} else {
							rd := newBody(io.EOF)
							for k := []int{0, 60000, 4096}[x.D[3]]; len(b) > 0; b = b[min(k, len(b)):] {
								rd.chunks = append(rd.chunks, []byte(b[:min(k, len(b))]))
							}
							p = m.start("POST", "/hub?id="+url.QueryEscape(l.key), nil, rd)
						}
						x.Settle(time.Second)
						if !p.done || p.status != 200 {
							x.Fail("post", "%d bytes: done %v, status %d", body.Len(), p.done, p.status)
						}
						got := l.received()
						if !strings.HasPrefix(got, base) {
							x.Fail("events", "%.200q", got)
							return
						}
						ms, rest, err := wireOf("json").Parse([]byte(got[len(base):]))
						ms = NoPing(ms)
						if err != nil || len(rest) > 0 || len(ms) != n {
							x.Fail("events", "%d bytes with %d invocations: %d answers, %d bytes rest (%v)", body.Len(), n, len(ms), len(rest), err)
							return
						}
						seen := make([]bool, n)
						for _, g := range ms {
							i, err := strconv.Atoi(g.ID)
							if err != nil || i < 0 || i >= n || seen[i] || g.Type != 3 || g.Result != any(want[i]) {
								x.Fail("events", "%d bytes with %d invocations: answer %.100v", body.Len(), n, g)
								return
							}
							seen[i] = true
						}
						x.Ev("%d %d", body.Len(), n)
					}},
				// the same for the client: events of any size with one or more data lines, read with buffers of any size; writes of any size
				{Name: "large-client", Dims: []int{8, 3, 4, 3}, Quick: 0, Full: 0, NoPoints: true, Body: func(x *X) {
					total := []int{4095, 4096, 32767, 32769, 65535, 65537, 200000, 1100000}[x.D[0]]
					lines := []int{1, 2, 50}[x.D[1]]
					want, stream := "", ""
					for i := 0; i < lines; i++ {
						l := strings.Repeat(string(rune('a'+i%26)), total/lines)
						stream += "data: " + l + []string{"\n", "\r\n"}[i%2]
						if i > 0 {
							want += "\n"
						}
						want += l
					}
					stream += "\n" + "data: end\n\n"
					want += "end"
					rd := newBody(io.EOF)
					for k := []int{len(stream), 60000, 4096, 1021}[x.D[2]]; len(stream) > 0; stream = stream[min(k, len(stream)):] {
						rd.chunks = append(rd.chunks, []byte(stream[:min(k, len(stream))]))
					}
					var posts []string
					c, err := signalr.NewHTTPConnection(context.Background(), "http://h/hub", signalr.WithTransports(signalr.TransportServerSentEvents),
						signalr.WithHTTPClient(doerFunc(func(req *http.Request) (*http.Response, error) {
							if strings.HasSuffix(req.URL.Path, "negotiate") {
								return httpAnswer(req, 200, text(negSSE)), nil
							}
							if req.Method == "GET" {
								return httpAnswer(req, 200, rd), nil
							}
							b, _ := io.ReadAll(req.Body)
							posts = append(posts, string(b))
							return httpAnswer(req, 200, text("")), nil
						})))
					if err != nil {
						x.Fail("connect", "%v", err)
						return
					}
					if n, err := c.Write([]byte(want)); n != len(want) || err != nil || len(posts) != 1 || posts[0] != want {
						x.Fail("post", "%d bytes are written: %d %v, %d POSTs", len(want), n, err, len(posts))
					}
					var got []byte
					done := false
					go func() {
						got, _ = readAll(c, []int{4096, 1 << 15, 1 << 21}[x.D[3]])
						done = true
					}()
					x.Idle()
					if !done || string(got) != want {
						x.Fail("events", "%d bytes in %d lines: %d bytes received, done %v", total, lines, len(got), done)
					}
					x.Ev("%d %d", total, lines)
				}},
				// concurrent writes; the response fails after 0 to 2 more writes, completely or partially, or never
				{Name: "writes", Dims: []int{7, 2}, Quick: 2, Full: 2, Body: func(x *X) {
					m, r := sseServer(x)
					l := openedSSE(x, m, x.D[1])
					base := l.received()
					fails := x.D[0] > 0
					if fails {
						l.e.werr = errInjected
						l.e.failAt = l.e.segs + (x.D[0]-1)%3
						l.e.partial = x.D[0] > 3
					}
					for i := 0; i < 2; i++ {
						go m.s.HubClients().All().Send("rec", fmt.Sprint("a\n\nb", i))
					}
					p := m.post(l.key, `{"type":1,"invocationId":"i","target":"echo","arguments":["\r\ndata: x"]}`+"\x1e")
					x.Settle(time.Second)
					got := l.received()
					if !strings.HasPrefix(got, base) {
						x.Fail("events", "%q", got)
						return
					}
					ms, rest, err := wireOf("json").Parse([]byte(got[len(base):]))
					if err != nil || len(rest) > 0 {
						x.Fail("events", "received %q (%v)", got[len(base):], err)
					}
					n := map[string]int{}
					for _, g := range ms {
						if g.Type == 1 && len(g.Args) == 1 {
							n[fmt.Sprint(g.Args[0])]++
						} else if g.Type == 3 {
							n[g.ID+fmt.Sprint(g.Result)]++
						} else if g.Type != 7 {
							x.Fail("events", "%v", g)
						}
					}
					for _, k := range []string{"a\n\nb0", "a\n\nb1", "i\r\ndata: x"} {
						if n[k] > 1 || n[k] == 0 && !fails {
							x.Fail("events", "message %q received %d times", k, n[k])
						}
						delete(n, k)
					}
					if len(n) > 0 {
						x.Fail("events", "%v", n)
					}
					if !p.done || p.status != 200 && !fails {
						x.Fail("post", "POST answered with %d", p.status)
					}
					if fails {
						x.Settle(time.Second)
						if !l.e.done || len(r.disconnected) != 1 {
							x.Fail("end", "the response fails: handler returned %v, disconnected %v", l.e.done, r.disconnected)
						}
					} else if len(r.disconnected) > 0 || l.e.done {
						x.Fail("end", "the connection has ended")
					}
				}},
				// 7 ways to end in 5 situations
				{Name: "ends", Dims: []int{7, 5}, Quick: 2, Full: 3, Body: func(x *X) {
					m, r := sseServer(x)
					base := 0
					quietly(x, func() {
						x.Settle(time.Second)
						base = x.Goroutines()
					})
					n, _ := m.negotiate("")
					l := m.openSSE(n.ConnectionID)
					x.Idle()
					how, sit := x.D[0], x.D[1]
					connected := how < 5
					if connected {
						l.handshake(x)
					}
					send := func() { go m.s.HubClients().All().Send("rec", "x") }
					var ps []*exchange
					var stall *bodyScript
					switch sit {
					case 1: // a POST is on its way
						stall = newBody(nil, []byte("{\"type\""))
						ps = append(ps, m.start("POST", "/hub?id="+l.key, nil, stall))
						x.Idle()
					case 2: // a write is blocked
						l.e.wblock = make(chan struct{})
						if connected {
							send()
							send()
						}
						x.Idle()
					}
					last := ""
					post := func(b string) {
						if stall != nil {
							stall.add(":6}\x1e" + b)
							stall.end(io.EOF)
							return
						}
						last = b
						ps = append(ps, m.post(l.key, b))
					}
					switch how {
					case 0:
						l.hangup()
					case 1:
						m.cancel()
					case 2:
						post(`{"type":1,"target":"quit","arguments":[]}` + "\x1e")
					case 3:
						post("{\"type\":7}\x1e")
					case 4:
						post("nonsense\x1e")
					case 5: // handshake refused
						if stall != nil {
							stall.chunks = [][]byte{[]byte("{\"protocol\":\"no\",\"version\":1}\x1e")}
							stall.end(io.EOF)
						} else {
							post("{\"protocol\":\"no\",\"version\":1}\x1e")
						}
					case 6: // no handshake
						time.Sleep(ttl)
					}
					switch sit {
					case 3: // concurrent send
						if connected {
							send()
						}
					case 4: // concurrent POST
						ps = append(ps, m.post(l.key, "{\"type\":6}\x1e"))
					}
					x.Settle(2 * time.Second)
					if sit == 2 {
						l.e.unblock()
						x.Settle(2 * time.Second)
					}
					if n := len(ps); sit == 4 && n == 2 && ps[0].done && ps[0].status == 409 {
						// the other POST was first
						post(last)
						x.Settle(2 * time.Second)
					}
					if !l.e.done {
						x.Fail("handler", "end %d, situation %d: the response has not ended", how, sit)
					}
					if stall != nil && stall.err == nil {
						stall.end(io.EOF)
						x.Settle(time.Second)
					}
					if connected && (len(r.connected) != 1 || len(r.disconnected) != 1) || !connected && len(r.connected)+len(r.disconnected) > 0 {
						x.Fail("hub", "end %d, situation %d: connected %v, disconnected %v", how, sit, r.connected, r.disconnected)
					}
					for _, p := range ps {
						if !p.done {
							x.Fail("post", "end %d, situation %d: POST not answered", how, sit)
						}
					}
					if how == 1 {
						x.Settle(time.Minute)
						x.Census(base-1, "end %d, situation %d", how, sit)
						return
					}
					p := m.post(l.key, "{\"type\":6}\x1e")
					x.Idle()
					if !p.done || p.status != 404 {
						x.Fail("post", "end %d, situation %d: POST after the end answered with %d", how, sit, p.status)
					}
					x.Settle(time.Minute)
					x.Census(base, "end %d, situation %d", how, sit)
				}},
				// client and server end to end
				{Name: "client", Dims: []int{2, 3, 7}, Quick: 1, Full: 1, SleepFor: 0, Body: func(x *X) {
					m, r := sseServer(x)
					m.chunk = []int{0, 1, 7}[x.D[1]]
					clientCalls(x, m, r, signalr.TransportServerSentEvents, "json", x.D[0], x.D[2])
				}},
			}
		}})
}
