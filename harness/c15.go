package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

// C15: the handshake.

type hsHub struct {
	signalr.Hub
	r *hsRec
}

type hsRec struct {
	calls     []string
	connected []string
	gone      []string
}

func (h *hsHub) Call(a string) string     { h.r.calls = append(h.r.calls, a); return a + a }
func (h *hsHub) OnConnected(id string)    { h.r.connected = append(h.r.connected, id) }
func (h *hsHub) OnDisconnected(id string) { h.r.gone = append(h.r.gone, id) }

func hsServer(x *X, opts ...func(signalr.Party) error) (signalr.Server, *hsRec, context.CancelFunc) {
	r := &hsRec{}
	s, cancel := newServer(x, append([]func(signalr.Party) error{
		signalr.HubFactory(func() signalr.HubInterface { return &hsHub{r: r} }),
		signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(time.Hour)}, opts...)...)
	return s, r, cancel
}

type hsCase struct {
	rec  string
	kind string // json, messagepack, unsupported, malformed
}

var hsRequests = []hsCase{
	{`{"protocol":"json","version":1}`, "json"},
	{`{"version":1,"protocol":"json"}`, "json"},
	{" {\n \"protocol\" : \"json\" ,\t\"version\" : 1 } ", "json"},
	{`{"protocol":"json","version":1,"more":{"protocol":"xml","a":[1,2,{}]}}`, "json"},
	{`{"protocol":"\u006ason","version":1}`, "json"},
	{`{"protocol":"messagepack","version":1}`, "messagepack"},
	{`{"version":1,"x":"{","protocol":"messagepack"}`, "messagepack"},
	{`{"protocol":"xml","version":1}`, "unsupported"},
	{`{"protocol":"","version":1}`, "unsupported"},
	{`{"protocol":"js\"on","version":1}`, "unsupported"},
	{`{"protocol":"a\\b","version":1}`, "unsupported"},
	{`{"protocol":"a\n\u0000\u001e\u001fb","version":1}`, "unsupported"},
	{`{"protocol":"ä€😀%s%d","version":1}`, "unsupported"},
	{`{}`, "unsupported"},
	{`{"version":1}`, "unsupported"},
	{`{"type":6}`, "unsupported"},
	{``, "malformed"},
	{`{`, "malformed"},
	{`[]`, "malformed"},
	{`5`, "malformed"},
	{`"json"`, "malformed"},
	{`["protocol","json"]`, "malformed"},
	{`{"protocol":5,"version":1}`, "malformed"},
	{`{"protocol":["json"],"version":1}`, "malformed"},
	{`{"protocol":{"json":1},"version":1}`, "malformed"},
	{`{"protocol":"json","version":1`, "malformed"},
	{`{"protocol":"json","version":1}}`, "malformed"},
	{`{"protocol":"json","version":1}{}`, "malformed"},
	{`{"protocol":"json" "version":1}`, "malformed"},
	{"\x00\xff\xfe", "malformed"},
	{"protocol=json", "malformed"},
}

var hsResponses = []hsCase{
	{`{}`, "ok"},
	{" { } ", "ok"},
	{`{"minorVersion":1,"x":["error"]}`, "ok"},
	{`{"error":"no way"}`, "no way"},
	{`{"error":"quo\"te \u00e4 %s"}`, "quo\"te ä %s"},
	{`{"x":1,"error":"e"}`, "e"},
	{``, "malformed"},
	{`{`, "malformed"},
	{`[]`, "malformed"},
	{`5`, "malformed"},
	{`{"error":`, "malformed"},
	{`{}}`, "malformed"},
	{`{"error":5}`, "malformed"},
	{"\xff\x00", "malformed"},
}

func wireOf(name string) Wire {
	for _, w := range wires {
		if w.Name() == name {
			return w
		}
	}
	return nil
}

// judgeRefused checks a connection that has not been accepted.
func judgeRefused(x *X, p *Peer, r *hsRec, kind string) {
	if !p.Served {
		x.Fail("not-ended", "Serve has not returned after a handshake that can't be accepted")
		return
	}
	if p.ServeErr == nil {
		x.Fail("no-error", "Serve returns nil after a handshake that can't be accepted")
	}
	if len(r.calls)+len(r.connected)+len(r.gone) > 0 {
		x.Fail("hub-called", "hub called without handshake: %v %v %v", r.calls, r.connected, r.gone)
	}
	out := string(p.out)
	switch kind {
	case "none":
		if out != "" {
			x.Fail("response", "%q sent without handshake request", out)
		}
		return
	case "malformed":
		if out == "" {
			return
		}
	}
	recs := strings.Split(out, "\x1e")
	resp := map[string]any{}
	if len(recs) != 2 || recs[1] != "" {
		x.Fail("response", "want one error response, got %q", out)
	} else if err := json.Unmarshal([]byte(recs[0]), &resp); err != nil {
		x.Fail("response", "response %q: %v", out, err)
	} else if e, _ := resp["error"].(string); e == "" {
		x.Fail("response", "response %q has no error", out)
	}
}

// judgeAccepted checks a connection that has to be connected. n calls have been sent.
func judgeAccepted(x *X, p *Peer, r *hsRec, n int) {
	if p.Served {
		x.Fail("refused", "a valid handshake is refused: %v", p.ServeErr)
		return
	}
	if !strings.HasPrefix(string(p.out), "{}\x1e") {
		x.Fail("response", "response %q", p.out)
		return
	}
	p.hsLen = 3
	if len(r.connected) != 1 || r.connected[0] != p.id {
		x.Fail("hub-called", "OnConnected calls %v", r.connected)
	}
	p.Feed(p.W.Inv(1, "last", "call", []any{"l"}, nil))
	x.Idle()
	var got []string
	for _, m := range p.Msgs() {
		if m.Type == 3 {
			got = append(got, fmt.Sprint(m.ID, m.Result))
		}
	}
	if len(got) != n+1 || len(r.calls) != n+1 {
		x.Fail("lost", "answers %v, calls %v, want %d", got, r.calls, n+1)
	}
}

func init() {
	register(&Property{ID: "C15", Title: "handshake",
		Rule: "server: 31 handshake requests and client: 14 responses, each split at every byte, with 0..2 messages behind; requests of up to 32768 bytes, and without end; delays around the handshake timeout, byte-wise delivery, end of stream and errors at every byte, failing and stuck writes, cancellation; again: all pairs of requests or responses one after the other, then a good one; schedules with bounded deviations, together with broadcasts, calls and a second connection",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			const maxLen = 80
			// the request in two reads
			split := func(x *X) {
				s, r, _ := hsServer(x)
				c := hsRequests[x.D[0]]
				w := wireOf(c.kind)
				if w == nil {
					w = wires[0]
				}
				p := startPeer(x, s, "p", w)
				b := []byte(c.rec + "\x1e")
				n := x.D[2]
				for i := 0; i < n; i++ {
					b = append(b, w.Inv(1, fmt.Sprint(i), "call", []any{fmt.Sprint("c", i)}, nil)...)
				}
				p.Feed(b[:x.D[1]])
				if x.D[3] == 0 {
					x.Idle()
				}
				if x.D[1] < len(c.rec) && x.D[3] == 0 && (len(p.out) > 0 || p.Served) {
					x.Fail("early", "an incomplete handshake is answered with %q %v", p.out, p.ServeErr)
				}
				p.Feed(b[x.D[1]:])
				x.Idle()
				if wireOf(c.kind) != nil {
					judgeAccepted(x, p, r, n)
				} else {
					judgeRefused(x, p, r, c.kind)
				}
				x.Ev("%q", p.out)
			}
			skipSplit := func(d []int) bool { return d[1] > len(hsRequests[d[0]].rec)+1 }
			out = append(out,
				&Scenario{Name: "server-split", Dims: []int{len(hsRequests), maxLen, 3, 1}, Quick: 0, Full: 1, Skip: skipSplit, Body: split},
				&Scenario{Name: "server-split-sched", Dims: []int{len(hsRequests), maxLen, 3, 2}, Quick: 1, Full: 2,
					QuickCase: func(d []int) bool { return d[1]%11 == 5 && d[2] != 1 }, Skip: skipSplit, Body: split},
				// a request with blanks, up to the size of one message of the default limit; or without end
				&Scenario{Name: "server-long", Dims: []int{2, 9, 5, 3}, Quick: 0, Full: 1, Body: func(x *X) {
					ht := 10 * time.Second
					s, r, _ := hsServer(x, signalr.HandshakeTimeout(ht))
					w := wires[x.D[0]]
					size := []int{100, 1023, 4096, 20000, 32000, 32767, 32768, 50000, 1 << 20}[x.D[1]]
					req := string(hsReq(w))
					b := []byte(req[:1] + strings.Repeat(" ", size-len(req)) + req[1:])
					endless := size > 1<<15
					n := x.D[3]
					if endless {
						b = b[:len(b)-1]
					} else {
						for i := 0; i < n; i++ {
							b = append(b, w.Inv(1, fmt.Sprint(i), "call", []any{fmt.Sprint("c", i)}, nil)...)
						}
					}
					p := startPeer(x, s, "p", w)
					for k := []int{len(b), 32768, 5000, 1021, size - 1}[x.D[2]]; len(b) > 0; b = b[min(k, len(b)):] {
						p.Feed(b[:min(k, len(b))])
					}
					x.Idle()
					if !endless {
						judgeAccepted(x, p, r, n)
						return
					}
					x.Settle(ht + time.Second)
					judgeRefused(x, p, r, "malformed")
					rest := 0
					for _, in := range p.in {
						rest += len(in)
					}
					if size == 1<<20 && size-rest > 1<<18 {
						x.Fail("endless", "%d bytes of a request without end have been read", size-rest)
					}
				}},
				// byte-wise with delays
				&Scenario{Name: "server-slow", Dims: []int{len(hsRequests), 4}, Quick: 0, Full: 1, Body: func(x *X) {
					ht := 10 * time.Second
					s, r, _ := hsServer(x, signalr.HandshakeTimeout(ht))
					c := hsRequests[x.D[0]]
					w := wireOf(c.kind)
					if w == nil {
						w = wires[0]
					}
					start := time.Now()
					p := startPeer(x, s, "p", w)
					b := []byte(c.rec + "\x1e")
					// total time before the last byte is received
					total := []time.Duration{ht / 2, ht - 50*ms, ht + 50*ms, 3 * ht}[x.D[1]]
					for i := range b {
						time.Sleep(time.Until(start.Add(total * time.Duration(i+1) / time.Duration(len(b)))))
						p.Feed(b[i : i+1])
					}
					x.Idle()
					if total < ht {
						if wireOf(c.kind) != nil {
							judgeAccepted(x, p, r, 0)
						} else {
							judgeRefused(x, p, r, c.kind)
						}
						return
					}
					judgeRefused(x, p, r, "none")
					if at := p.ServedAt.Sub(start); p.Served && (at < ht-slack || at > ht+slack) {
						x.Fail("timeout", "handshake ended at %v, timeout is %v", at, ht)
					}
				}},
				// faults
				&Scenario{Name: "server-fault", Dims: []int{4, maxLen, 4}, Quick: 0, Full: 2,
					Skip: func(d []int) bool { return d[1] > len(hsRequests[5*(d[0]%2)].rec) }, Body: func(x *X) {
						ht := 10 * time.Second
						s, r, cancel := hsServer(x, signalr.HandshakeTimeout(ht))
						c := hsRequests[5*(x.D[0]%2)]
						w := wireOf(c.kind)
						p := startPeer(x, s, "p", w)
						if x.D[0] < 2 {
							p.Feed([]byte(c.rec[:x.D[1]]))
						} else {
							for i := 0; i < x.D[1]; i++ {
								p.Feed([]byte(c.rec[i : i+1]))
							}
						}
						x.Idle()
						switch x.D[2] {
						case 0:
							p.FeedErr(io.EOF)
						case 1:
							p.FeedErr(errInjected)
						case 2:
							cancel()
						case 3:
							p.Conn.Close()
						}
						x.Settle(ht + time.Second)
						judgeRefused(x, p, r, "none")
						p.Feed([]byte(c.rec + "\x1e"))
						x.Settle(ht + time.Second)
						judgeRefused(x, p, r, "none")
					}},
				&Scenario{Name: "server-write", Dims: []int{len(hsRequests), 4}, Quick: 0, Full: 1, Body: func(x *X) {
					ht := 10 * time.Second
					s, r, cancel := hsServer(x, signalr.HandshakeTimeout(ht))
					c := hsRequests[x.D[0]]
					p := startPeer(x, s, "p", wires[0])
					switch x.D[1] {
					case 0:
						p.wfail, p.werr = 1, errInjected
					case 1:
						p.wfail, p.werr, p.wpartial = 1, errInjected, true
					case 2, 3:
						p.wblock = 1
					}
					p.Feed([]byte(c.rec + "\x1e"))
					x.Idle()
					if x.D[1] == 3 {
						cancel()
					}
					x.Settle(ht + time.Second)
					p.out = nil
					judgeRefused(x, p, r, "malformed")
				}},
				// two connections and a broadcast at the same time
				&Scenario{Name: "server-pair", Dims: []int{3, 3, 2}, Quick: 2, Full: 2, Body: func(x *X) {
					s, r, _ := hsServer(x)
					reqs := []hsCase{hsRequests[0], hsRequests[5], hsRequests[7]}
					var ps []*Peer
					for i := 0; i < 2; i++ {
						c := reqs[x.D[i]]
						w := wireOf(c.kind)
						if w == nil {
							w = wires[0]
						}
						p := startPeer(x, s, fmt.Sprint("p", i), w)
						p.Feed([]byte(c.rec + "\x1e"))
						if x.D[2] == 1 {
							go s.HubClients().All().Send("note", i)
						}
						ps = append(ps, p)
					}
					x.Idle()
					s.HubClients().All().Send("note", 9)
					x.Idle()
					ok := 0
					for i, p := range ps {
						if wireOf(reqs[x.D[i]].kind) == nil {
							judgeRefused(x, p, &hsRec{}, "unsupported")
							continue
						}
						ok++
						if p.Served || !strings.HasPrefix(string(p.out), "{}\x1e") {
							x.Fail("response", "%d: %v %q", i, p.Served, p.out)
							continue
						}
						p.hsLen = 3
						n := 0
						for _, m := range p.Msgs() {
							if m.Type == 1 && m.Target == "note" && len(m.Args) == 1 && same(m.Args[0], 9) {
								n++
							} else if m.Type != 1 {
								x.Fail("response", "%d: unexpected %v", i, m)
							}
						}
						if n != 1 {
							x.Fail("lost", "%d has got %d messages", i, n)
						}
					}
					if len(r.connected) != ok || len(r.calls) != 0 {
						x.Fail("hub-called", "%v", r)
					}
				}},
			)
			// one connection after the other, or while the earlier ones go on
			out = append(out, &Scenario{Name: "server-again", Dims: []int{len(hsRequests), len(hsRequests), 2, 2}, Quick: 0, Full: 1, Body: func(x *X) {
				s, r, _ := hsServer(x)
				for i, k := range []int{x.D[0], x.D[1], 5 * x.D[2]} {
					*r = hsRec{}
					c := hsRequests[k]
					w := wireOf(c.kind)
					if w == nil {
						w = wires[0]
					}
					p := startPeer(x, s, fmt.Sprint("p", i), w)
					p.Feed([]byte(c.rec + "\x1e"))
					x.Idle()
					if wireOf(c.kind) != nil {
						judgeAccepted(x, p, r, 0)
						if x.D[3] == 0 {
							p.Close()
							x.Idle()
						}
					} else {
						judgeRefused(x, p, r, c.kind)
					}
					x.Ev("%q", p.out)
				}
			}})
			for _, w := range wires {
				w := w
				// the connections of one client
				out = append(out, &Scenario{Name: "client-again/" + w.Name(), Dims: []int{len(hsResponses) + 1, len(hsResponses) + 1, 2}, Quick: 0, Full: 1, Body: func(x *X) {
					rcv := &faultRecv{}
					var conns []*Srv
					ctx, cancel := context.WithCancel(context.Background())
					x.Cleanup(cancel)
					c, err := signalr.NewClient(ctx, append(clientOpts(w), signalr.WithReceiver(rcv), signalr.KeepAliveInterval(time.Hour),
						signalr.TimeoutInterval(time.Hour), signalr.HandshakeTimeout(5*time.Second),
						signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(time.Second) }),
						signalr.WithConnector(func() (signalr.Connection, error) {
							s := &Srv{Conn: newConn(x, fmt.Sprint("c", len(conns))), W: w}
							conns = append(conns, s)
							return s.Conn, nil
						}))...)
					if err != nil {
						panic(err)
					}
					x.Cleanup(func() {
						for _, s := range conns {
							s.Conn.Close()
						}
					})
					c.Start()
					x.Idle()
					for i, k := range []int{x.D[0], x.D[1], 0} {
						if len(conns) != i+1 {
							x.Fail("client-again", "%d connections after %d handshakes", len(conns), i)
							return
						}
						s := conns[i]
						s.TakeHandshake()
						kind := "silence"
						if k < len(hsResponses) {
							kind = hsResponses[k].kind
							s.Feed([]byte(hsResponses[k].rec + "\x1e"))
							s.Feed(w.Inv(1, "", "news", []any{fmt.Sprint("n", i)}, nil))
							x.Idle()
						} else {
							x.Settle(5*time.Second + 50*ms)
						}
						if n := len(NoPing(s.Msgs())); n > 0 {
							x.Fail("client-sent", "sent %v", s.Msgs())
						}
						want := 0
						if kind == "ok" {
							want = 1
						}
						if len(rcv.calls) != want {
							x.Fail("client-called", "receiver calls after handshake response %v (%v): %v", i, kind, rcv.calls)
						}
						rcv.calls = nil
						st := c.State()
						if kind == "ok" && st != signalr.ClientConnected || kind != "ok" && st == signalr.ClientConnected {
							x.Fail("client-state", "state %v after response %d (%v): %v", st, i, kind, c.Err())
						}
						if e := c.Err(); kind != "ok" && (e == nil || kind != "malformed" && kind != "silence" && !strings.Contains(e.Error(), kind)) {
							x.Fail("client-err", "Err is %v after response %d (%v)", e, i, kind)
						}
						if kind == "ok" {
							res := collect("p", c.Invoke("ask", i))
							x.Idle()
							if inv := NoPing(s.Msgs()); len(inv) != 1 {
								x.Fail("lost", "client has sent %v", inv)
							} else {
								s.Feed(w.Completion(inv[0].ID, "r", true, ""))
								x.Idle()
								res.judge(x, outcome{kind: "value", val: "r"})
							}
							if x.D[2] == 0 {
								s.FeedErr(io.EOF)
							} else {
								s.Feed(w.Close("", true))
							}
						}
						x.Settle(1100 * ms)
					}
				}})
				judgeClient := func(x *X, s *Srv, rcv *faultRecv, c hsCase, n int, pending *col) {
					st := s.C.State()
					if c.kind != "ok" {
						if st != signalr.ClientClosed {
							x.Fail("client-state", "state %v after handshake response %q", st, c.rec)
						}
						if err := s.C.Err(); err == nil || c.kind != "malformed" && !strings.Contains(err.Error(), c.kind) {
							x.Fail("client-err", "Err is %v after handshake response %q", err, c.rec)
						}
						if len(s.out) != s.hsLen {
							x.Fail("client-sent", "sent %q", s.out[s.hsLen:])
						}
						if len(rcv.calls) > 0 {
							x.Fail("client-called", "receiver called without handshake %v", rcv.calls)
						}
						pending.judge(x, outcome{kind: "error"})
						return
					}
					if st != signalr.ClientConnected {
						x.Fail("client-state", "state %v after handshake response %q: %v", st, c.rec, s.C.Err())
						return
					}
					if len(rcv.calls) != n {
						x.Fail("lost", "receiver calls %v, want %d", rcv.calls, n)
					}
					inv := NoPing(s.Msgs())
					if len(inv) != 1 || inv[0].Target != "early" {
						x.Fail("lost", "client has sent %v", inv)
						return
					}
					s.Feed(w.Completion(inv[0].ID, "r", true, ""))
					x.Idle()
					pending.judge(x, outcome{kind: "value", val: "r"})
				}
				clientOptions := []func(signalr.Party) error{signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(time.Hour)}
				csplit := func(x *X) {
					rcv := &faultRecv{}
					s := newClient(x, w, append(clientOptions, signalr.WithReceiver(rcv))...)
					if len(s.out) > 0 {
						x.Fail("client-sent", "sent before Start: %q", s.out)
					}
					s.C.Start()
					pending := collect("p", s.C.Invoke("early", 1))
					x.Idle()
					s.TakeHandshake()
					c := hsResponses[x.D[0]]
					b := []byte(c.rec + "\x1e")
					n := x.D[2]
					for i := 0; i < n; i++ {
						b = append(b, w.Inv(1, "", "news", []any{fmt.Sprint("n", i)}, nil)...)
					}
					s.Feed(b[:x.D[1]])
					if x.D[3] == 0 {
						x.Idle()
						if len(s.out) != s.hsLen && x.D[1] <= len(c.rec) {
							x.Fail("client-sent", "sent before the handshake response: %q", s.out[s.hsLen:])
						}
					}
					s.Feed(b[x.D[1]:])
					x.Settle(10 * time.Second)
					judgeClient(x, s, rcv, c, n, pending)
				}
				skip := func(d []int) bool { return d[1] > len(hsResponses[d[0]].rec)+1 }
				out = append(out,
					&Scenario{Name: "client-split/" + w.Name(), Dims: []int{len(hsResponses), 40, 3, 1}, Quick: 0, Full: 1, Skip: skip, Body: csplit},
					&Scenario{Name: "client-split-sched/" + w.Name(), Dims: []int{len(hsResponses), 40, 3, 2}, Quick: 1, Full: 2, Skip: skip,
						QuickCase: func(d []int) bool { return d[1]%7 == 2 && d[2] != 1 && d[0]%2 == 0 }, Body: csplit},
					&Scenario{Name: "client-slow/" + w.Name(), Dims: []int{len(hsResponses), 4}, Quick: 0, Full: 1, Body: func(x *X) {
						ht := 10 * time.Second
						rcv := &faultRecv{}
						s := newClient(x, w, append(clientOptions, signalr.WithReceiver(rcv), signalr.HandshakeTimeout(ht))...)
						start := time.Now()
						s.C.Start()
						pending := collect("p", s.C.Invoke("early", 1))
						x.Idle()
						s.TakeHandshake()
						c := hsResponses[x.D[0]]
						b := []byte(c.rec + "\x1e")
						total := []time.Duration{ht / 2, ht - 50*ms, ht + 50*ms, 3 * ht}[x.D[1]]
						var endAt time.Duration
						for i := range b {
							next := start.Add(total * time.Duration(i+1) / time.Duration(len(b)))
							if endAt == 0 && next.Sub(start) > ht-20*ms {
								time.Sleep(time.Until(start.Add(ht - 10*ms)))
								if s.C.State() == signalr.ClientClosed {
									x.Fail("timeout", "client closed before the handshake timeout: %v", s.C.Err())
								}
								time.Sleep(20 * ms)
								if s.C.State() != signalr.ClientClosed {
									x.Fail("timeout", "client not closed at the handshake timeout")
								}
								endAt = time.Since(start)
							}
							time.Sleep(time.Until(next))
							s.Feed(b[i : i+1])
						}
						x.Settle(10 * time.Second)
						if total > ht {
							c.kind = "malformed"
						}
						judgeClient(x, s, rcv, c, 0, pending)
					}},
					&Scenario{Name: "client-fault/" + w.Name(), Dims: []int{3, 7}, Quick: 2, Full: 2, Body: func(x *X) {
						ht := 10 * time.Second
						rcv := &faultRecv{}
						s := newClient(x, w, append(clientOptions, signalr.WithReceiver(rcv), signalr.HandshakeTimeout(ht))...)
						switch x.D[1] {
						case 4:
							s.wfail, s.werr = 1, errInjected
						case 5:
							s.wfail, s.werr, s.wpartial = 1, errInjected, true
						case 6:
							s.wblock = 1
						}
						s.C.Start()
						pending := collect("p", s.C.Invoke("early", 1))
						s.Feed([]byte("{}"[:x.D[0]]))
						x.Idle()
						switch x.D[1] {
						case 0:
							s.FeedErr(io.EOF)
						case 1:
							s.FeedErr(errInjected)
						case 2:
							s.stop()
						case 3:
							s.Conn.Close()
						}
						x.Settle(ht + time.Second)
						s.hsLen = len(s.out)
						judgeClient(x, s, rcv, hsCase{"", "malformed"}, 0, pending)
						s.Feed([]byte("{}\x1e"))
						x.Settle(ht + time.Second)
						judgeClient(x, s, rcv, hsCase{"", "malformed"}, 0, pending)
					}},
				)
			}
			return out
		}})
}
