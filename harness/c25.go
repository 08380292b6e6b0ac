package main

import (
	"context"
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

// C25: HTTP clients connect as configured, every time.

// hubSite is a scripted server that answers the requests of one connection attempt after the other.
type hubSite struct {
	x       *X
	plan    []string // per attempt
	attempt int
	own     bool   // the user has given an http.Client
	version string // that the server answers with: "0", "1" or "" (none)
	reqs    []hubReq
	bodies  []*siteBody
	socks   []*sock
	keys    map[string]bool // negotiated and not yet used
	id      string          // of the last negotiation
	hangAt  string          // kind of request which is not answered
	cookies []string
	hung    int
}

type hubReq struct {
	attempt int
	kind    string // negotiate, ws, sse, post
	url     *url.URL
	header  http.Header
}

// siteBody is the body of a response. It fails after its data when err is set, stays open when live is set.
type siteBody struct {
	io.Reader
	err    error
	live   bool
	ctx    context.Context
	closed chan struct{}
	done   bool
}

func (b *siteBody) Read(p []byte) (int, error) {
	if b.done {
		return 0, http.ErrBodyReadAfterClose
	}
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		if b.err != nil {
			err = b.err
		} else if b.live {
			select {
			case <-b.closed:
				err = http.ErrBodyReadAfterClose
			case <-b.ctx.Done():
				err = b.ctx.Err()
			}
		}
	}
	return n, err
}

func (b *siteBody) Close() error {
	if !b.done {
		b.done = true
		close(b.closed)
	}
	return nil
}

func (s *hubSite) body(ctx context.Context, text string) *siteBody {
	b := &siteBody{Reader: strings.NewReader(text), ctx: ctx, closed: make(chan struct{})}
	s.bodies = append(s.bodies, b)
	return b
}

// attempts a server can make of a connection
var siteKinds = []string{"ok", "ws-refused", "sse-refused", "only-ws", "only-sse", "neg-500", "none"}
var siteFaults = []string{"neg-error", "neg-404", "neg-garbage", "neg-cut", "ws-error", "ws-200", "ws-badaccept", "sse-error", "sse-404", "sse-ws-refused"}

func (s *hubSite) RoundTrip(req *http.Request) (*http.Response, error) { return s.Do(req) }

// client is the client of the user.
func (s *hubSite) client() *http.Client {
	s.own = true
	return &http.Client{Transport: s}
}

// defaultTransport gets the requests of the default client, which are none but websockets when the user has given another Doer.
type defaultTransport struct{ s *hubSite }

func (t defaultTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	if t.s.own || req.Header.Get("Upgrade") != "websocket" {
		t.s.x.Fail("client", "%s %v is not sent with the configured client", req.Method, req.URL)
	}
	return t.s.Do(req)
}

// Do answers a request.
func (s *hubSite) Do(req *http.Request) (*http.Response, error) {
	kind := ""
	switch {
	case req.Method == "POST" && strings.HasSuffix(req.URL.Path, "negotiate"):
		kind = "negotiate"
	case req.Method == "POST":
		kind = "post"
	case req.Header.Get("Upgrade") == "websocket":
		kind = "ws"
	default:
		kind = "sse"
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	s.reqs = append(s.reqs, hubReq{s.attempt, kind, req.URL, req.Header.Clone()})
	if s.hangAt == kind {
		s.hung++
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	plan := "ok"
	if s.attempt < len(s.plan) {
		plan = s.plan[s.attempt]
	}
	answer := func(status int, text string) (*http.Response, error) {
		return &http.Response{StatusCode: status, Status: fmt.Sprint(status, " ", http.StatusText(status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{}, Request: req, ContentLength: -1, Body: s.body(req.Context(), text)}, nil
	}
	if plan == kind[:min(3, len(kind))]+"-error" {
		return nil, errInjected
	}
	switch kind {
	case "negotiate":
		switch plan {
		case "neg-500":
			return answer(500, "no")
		case "neg-404":
			return answer(404, `{"connectionId":"x","availableTransports":[{"transport":"WebSockets"},{"transport":"ServerSentEvents"}]}`)
		case "neg-garbage":
			return answer(200, "<html>")
		}
		s.id = fmt.Sprintf("id%d", len(s.reqs))
		key := s.id
		text := `{"connectionId":"` + s.id + `"`
		if s.version != "" {
			text += `,"negotiateVersion":` + s.version
		}
		if s.version == "1" {
			key = "token&" + s.id
			text += `,"connectionToken":"` + key + `"`
		}
		s.keys[key] = true
		var ts []string
		for _, t := range []string{"WebSockets", "ServerSentEvents"} {
			if plan != "none" && !(plan == "only-ws" && t != "WebSockets") && !(plan == "only-sse" && t != "ServerSentEvents") {
				ts = append(ts, `{"transport":"`+t+`","transferFormats":["Text","Binary"]}`)
			}
		}
		text += `,"availableTransports":[` + strings.Join(append(ts, `{"transport":"LongPolling","transferFormats":["Text"]}`), ",") + "]}"
		if plan == "neg-cut" {
			resp, _ := answer(200, text[:len(text)/2])
			resp.Body.(*siteBody).err = errInjected
			return resp, nil
		}
		resp, _ := answer(200, text)
		for _, c := range s.cookies {
			resp.Header.Add("Set-Cookie", c)
		}
		return resp, nil
	case "ws":
		switch plan {
		case "ws-refused", "sse-ws-refused":
			return answer(403, "no")
		case "ws-200":
			return answer(200, "hello")
		}
		s.use(req.URL)
		resp, _ := answer(101, "")
		_ = resp.Body.Close()
		h := sha1.Sum([]byte(req.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
		if plan == "ws-badaccept" {
			h[0]++
		}
		resp.Header.Set("Sec-WebSocket-Accept", base64.StdEncoding.EncodeToString(h[:]))
		resp.Header.Set("Upgrade", "websocket")
		resp.Header.Set("Connection", "Upgrade")
		a, b := newSocks()
		s.socks = append(s.socks, b)
		s.x.Cleanup(func() { _ = b.Close() })
		resp.Body = a
		return resp, nil
	case "sse":
		switch plan {
		case "sse-refused", "sse-ws-refused":
			return answer(403, "no")
		case "sse-404":
			return answer(404, "data: x\n\n")
		}
		s.use(req.URL)
		resp, _ := answer(200, "")
		resp.Body.(*siteBody).live = true
		return resp, nil
	}
	return answer(200, "")
}

// use checks that a key belongs to a negotiation.
func (s *hubSite) use(u *url.URL) {
	key := u.Query().Get("id")
	if !s.keys[key] || len(u.Query()["id"]) != 1 {
		s.x.Fail("key", "connects to %v, negotiated %v", u, s.keys)
	}
	delete(s.keys, key)
}

func newSite(x *X, plan ...string) *hubSite {
	s := &hubSite{x: x, plan: plan, keys: map[string]bool{}}
	// a Doer that is no http.Client connects websockets with the default client
	old := http.DefaultClient.Transport
	http.DefaultClient.Transport = defaultTransport{s}
	x.Cleanup(func() {
		for _, b := range s.bodies {
			_ = b.Close()
		}
		http.DefaultClient.Transport = old
	})
	return s
}

// expectConnect tells which transport an attempt has to end with, "" if none.
func expectConnect(transports []string, plan string, fallback bool) string {
	if len(transports) == 0 {
		transports = []string{"ws", "sse"}
	}
	has := func(t string) bool {
		for _, u := range transports {
			if u == t {
				return true
			}
		}
		return false
	}
	if strings.HasPrefix(plan, "neg-") || plan == "none" {
		return ""
	}
	ws := has("ws") && plan != "only-sse"
	sse := has("sse") && plan != "only-ws"
	wsFails := map[string]bool{"ws-refused": true, "ws-error": true, "ws-200": true, "ws-badaccept": true, "sse-ws-refused": true}[plan]
	sseFails := map[string]bool{"sse-refused": true, "sse-error": true, "sse-404": true, "sse-ws-refused": true}[plan]
	if ws && !wsFails {
		return "ws"
	}
	if sse && !sseFails && (fallback || !ws) {
		return "sse"
	}
	return ""
}

type siteConfig struct {
	transports []string
	twice      bool // another WithTransports before it
	version    int  // -1: none
}

var siteTransports = [][]string{nil, {"ws"}, {"sse"}, {"ws", "sse"}, {"sse", "ws"}}

func transportOption(ts []string) []signalr.TransportType {
	out := []signalr.TransportType{}
	for _, t := range ts {
		out = append(out, map[string]signalr.TransportType{"ws": signalr.TransportWebSockets, "sse": signalr.TransportServerSentEvents}[t])
	}
	return out
}

// judgeAttempt checks the requests of an attempt.
func (s *hubSite) judgeAttempt(n int, ts []string, version int, what string) {
	x := s.x
	for _, r := range s.reqs {
		if r.attempt != n {
			continue
		}
		if r.kind == "ws" || r.kind == "sse" {
			ok := len(ts) == 0
			for _, t := range ts {
				ok = ok || t == r.kind
			}
			if !ok {
				x.Fail("transport", "%s: uses %s, allowed are %v", what, r.kind, ts)
			}
		}
		if r.kind == "negotiate" {
			want := ""
			if version >= 0 {
				want = fmt.Sprint(version)
			}
			if got := r.url.Query().Get("negotiateVersion"); got != want {
				x.Fail("version", "%s: negotiates with version %q, want %q", what, got, want)
			}
		}
		if got := r.header.Get("X-User"); got != fmt.Sprint("attempt", n) {
			x.Fail("headers", "%s: %s request has header %q", what, r.kind, got)
		}
	}
}

// judgeBodies checks that responses are closed.
func (s *hubSite) judgeBodies(conn signalr.Connection, what string) {
	open := 0
	for _, b := range s.bodies {
		if !b.done {
			open++
			if conn == nil || !b.live {
				s.x.Fail("body", "%s: response body not closed", what)
			}
		}
	}
	if open > 1 {
		s.x.Fail("body", "%s: %d event streams are open", what, open)
	}
}

func connName(c signalr.Connection) string {
	n := fmt.Sprintf("%T", c)
	switch {
	case c == nil:
		return ""
	case strings.Contains(n, "webSocket"):
		return "ws"
	case strings.Contains(n, "SSE"):
		return "sse"
	}
	return n
}

func init() {
	attempts := func(x *X, kinds []string, plan []int, cfg siteConfig, pos, extra, api, client int) {
		var names []string
		for _, k := range plan {
			names = append(names, kinds[k])
		}
		s := newSite(x, names...)
		if cfg.version >= 0 {
			s.version = fmt.Sprint(cfg.version)
		}
		own := http.Header{"X-Own": {"1"}}
		// the options
		opts := listOf(signalr.WithHTTPHeaders(func() http.Header {
			own.Set("X-User", fmt.Sprint("attempt", s.attempt))
			return own
		}))
		if client == 0 {
			opts = append(opts, signalr.WithHTTPClient(s.client()))
		} else {
			opts = append(opts, signalr.WithHTTPClient(s))
		}
		if cfg.version >= 0 {
			opts = append(opts, signalr.WithNegotiateVersion(cfg.version))
		}
		insert := func(i int, o []signalr.TransportType) {
			i = min(i, len(opts))
			opts = append(opts[:i:i], append(listOf(signalr.WithTransports(o...)), opts[i:]...)...)
		}
		if len(cfg.transports) > 0 {
			insert(pos, transportOption(cfg.transports))
			if cfg.twice {
				insert(0, transportOption([]string{"sse"}))
			}
		}
		switch extra {
		case 1: // room for more
			opts = spare(opts)
		case 2: // without effect
			opts = append(listOf(nilOf(opts)), append(opts, nil)...)
		}
		before := len(opts)
		for n := range plan {
			s.attempt = n
			what := fmt.Sprintf("%v attempt %d with %v", names, n, cfg)
			var conn signalr.Connection
			var err error
			if api == 0 {
				conn, err = signalr.HttpConnectionFactory(context.Background(), "http://h/hub", opts...)
			} else {
				conn, err = signalr.NewHTTPConnection(context.Background(), "http://h/hub", opts...)
			}
			x.Idle()
			got := connName(conn)
			want := expectConnect(cfg.transports, names[n], api == 0)
			if got != want || (err == nil) != (want != "") {
				x.Fail("connect", "%s connects with %q (%v), want %q", what, got, err, want)
				return
			}
			if conn != nil && conn.ConnectionID() != s.id {
				x.Fail("id", "%s has id %q, want %q", what, conn.ConnectionID(), s.id)
			}
			s.judgeAttempt(n, cfg.transports, cfg.version, what)
			s.judgeBodies(conn, what)
			for i, o := range opts {
				if (o == nil) != (extra == 2 && (i == 0 || i == before-1)) {
					x.Fail("options", "%s: the options have changed", what)
				}
			}
			if own.Get("X-Own") != "1" || len(own) != 2 || len(own["X-User"]) != 1 {
				x.Fail("headers-changed", "%s: the headers of the user are now %v", what, own)
			}
			x.Ev("%s", got)
			// the connection ends
			for _, k := range s.socks {
				_ = k.Close()
			}
			for _, b := range s.bodies {
				_ = b.Close()
			}
		}
	}
	decode := func(d []int) siteConfig {
		c := siteConfig{transports: siteTransports[d[0]%len(siteTransports)], twice: d[0] >= len(siteTransports), version: d[1] - 1}
		return c
	}
	nk, nf := len(siteKinds), len(siteFaults)
	nt := 2 * len(siteTransports)
	skipT := func(d []int) bool {
		return d[0] == len(siteTransports) || len(siteTransports[d[0]%len(siteTransports)]) == 0 && d[2] > 0
	}
	register(&Property{ID: "C25", Title: "HTTP client",
		Rule: "attempts: HttpConnectionFactory and NewHTTPConnection called up to three (thorough: four) times with the same options (transports in all orders, at every position among the options, given twice, spare capacity, nil options, versions, kinds of client) x answers of the server, against a reference; " +
			"faults: every kind of failing answer, followed by a good one; urls; cookies; cancel: cancelled while each request is pending, and after the connection is established; client: a client with WithHttpConnection loses its connection again and again.",
		Scenarios: func() []*Scenario {
			return []*Scenario{
				{Name: "attempts2", Dims: []int{nt, 3, 4, 3, 2, 2, nk, nk}, Quick: 0, Full: 0, NoPoints: true, Skip: skipT,
					Body: func(x *X) {
						attempts(x, siteKinds, x.D[6:8], decode(x.D), x.D[2], x.D[3], x.D[4], x.D[5])
					}},
				{Name: "attempts3", Dims: []int{nt, 3, 4, 3, 1, 1, nk, nk, nk}, Quick: 0, Full: 0, NoPoints: true, Skip: skipT,
					Body: func(x *X) {
						attempts(x, siteKinds, x.D[6:9], decode(x.D), x.D[2], x.D[3], x.D[4], x.D[5])
					}},
				{Name: "attempts4", Dims: []int{nt, 3, 4, 3, 2, 2, nk, nk, nk, nk}, Quick: 0, Full: 0, NoPoints: true, OnlyFull: true, Skip: skipT,
					Body: func(x *X) {
						attempts(x, siteKinds, x.D[6:10], decode(x.D), x.D[2], x.D[3], x.D[4], x.D[5])
					}},
				{Name: "faults", Dims: []int{nt, 3, 1, 1, 2, 2, nf, nf + 1}, Quick: 0, Full: 1, Skip: skipT,
					Body: func(x *X) {
						attempts(x, append(append([]string{}, siteFaults...), "ok"), []int{x.D[6], x.D[7], nf}, decode(x.D), 1, 0, x.D[4], x.D[5])
					}},
				{Name: "urls", Dims: []int{len(siteURLs), 2, 2, 3, 3}, Quick: 0, Full: 0, NoPoints: true, Body: func(x *X) {
					u := siteURLs[x.D[0]]
					s := newSite(x)
					ts := [][]string{{"ws"}, {"sse"}}[x.D[1]]
					opts := listOf(signalr.WithHTTPClient(s), signalr.WithTransports(transportOption(ts)...))
					if v := x.D[3] - 1; v >= 0 {
						opts = append(opts, signalr.WithNegotiateVersion(v))
					}
					// the answer decides what the key is
					s.version = []string{"", "0", "1"}[x.D[4]]
					var conn signalr.Connection
					var err error
					if x.D[2] == 0 {
						conn, err = signalr.HttpConnectionFactory(context.Background(), u.addr, opts...)
					} else {
						conn, err = signalr.NewHTTPConnection(context.Background(), u.addr, opts...)
					}
					if err != nil || len(s.reqs) != 2 {
						x.Fail("url", "%s: %v, %d requests", u.addr, err, len(s.reqs))
						return
					}
					if s.reqs[1].kind == "sse" {
						if _, err := conn.Write([]byte("x")); err != nil || len(s.reqs) != 3 {
							x.Fail("url", "%s: write: %v", u.addr, err)
						}
					}
					for i, r := range s.reqs {
						path, scheme := u.path, u.scheme
						if i == 0 {
							path = u.neg
						}
						q := r.url.Query()
						if r.url.EscapedPath() != path || r.url.Host != "h:81" || r.url.Scheme != scheme {
							x.Fail("url", "%s: %s request goes to %v", u.addr, r.kind, r.url)
						}
						if q.Get("a") != u.a {
							x.Fail("url", "%s: %s request has query %v", u.addr, r.kind, q)
						}
					}
					x.Ev("%v %v", s.reqs[0].url, s.reqs[1].kind)
				}},
				{Name: "cookies", Dims: []int{len(siteCookies), 2, 2}, Quick: 0, Full: 0, NoPoints: true, Body: func(x *X) {
					c := siteCookies[x.D[0]]
					s := newSite(x)
					s.cookies = c.set
					var doer signalr.Doer = s
					if x.D[1] == 0 {
						doer = s.client()
					}
					opts := listOf(signalr.WithHTTPClient(doer))
					want := append([]string{}, c.want...)
					if x.D[2] == 1 {
						opts = append(opts, signalr.WithHTTPHeaders(func() http.Header { return http.Header{"Cookie": {"own=1"}} }))
						want = append([]string{"own=1"}, want...)
					}
					for i := 0; i < 2; i++ {
						n := len(s.reqs)
						if _, err := signalr.NewHTTPConnection(context.Background(), "http://h/hub", opts...); err != nil || len(s.reqs) != n+2 {
							x.Fail("connect", "%v", err)
							return
						}
						var got []string
						for _, k := range (&http.Request{Header: s.reqs[n+1].header}).Cookies() {
							got = append(got, k.Name+"="+k.Value)
						}
						if strings.Join(got, " ") != strings.Join(want, " ") {
							x.Fail("cookies", "the server sets %q, the websocket request has %q, want %q", c.set, s.reqs[n+1].header["Cookie"], want)
						}
						x.Ev("%v", got)
					}
				}},
				{Name: "cancel", Dims: []int{4, 2, 2, 2}, Quick: 1, Full: 2, Body: func(x *X) {
					s := newSite(x)
					kind := []string{"negotiate", "ws", "sse", ""}[x.D[0]]
					s.hangAt = kind
					ts := []string{"ws"}
					if kind == "sse" || kind == "" && x.D[3] == 1 {
						ts = []string{"sse"}
					}
					var doer signalr.Doer = s
					if x.D[1] == 0 {
						doer = s.client()
					}
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					opts := listOf(signalr.WithHTTPClient(doer), signalr.WithTransports(transportOption(ts)...))
					base := x.Goroutines()
					var conn signalr.Connection
					var err error
					returned := false
					handed := make(chan struct{})
					go func() {
						defer close(handed)
						if x.D[2] == 0 {
							conn, err = signalr.HttpConnectionFactory(ctx, "http://h/hub", opts...)
						} else {
							conn, err = signalr.NewHTTPConnection(ctx, "http://h/hub", opts...)
						}
						returned = true
					}()
					if kind == "" || x.D[3] == 0 {
						x.Settle(10 * time.Second)
					}
					cancel()
					x.Settle(10 * time.Second)
					if returned {
						<-handed
					}
					if kind == "" {
						// the connection is established, ctx does not matter any more
						if err != nil || conn == nil {
							x.Fail("connect", "%v", err)
							return
						}
						if conn.Context().Err() != nil {
							x.Fail("cancelled", "the context of the connection ends with the context of its creation")
						}
						if _, err := conn.Write([]byte("{}\x1e")); err != nil {
							x.Fail("cancelled", "Write of an established connection: %v", err)
						}
						for _, b := range s.bodies {
							if b.live && (b.done || b.ctx.Err() != nil) {
								x.Fail("cancelled", "the event stream ends with the context of its creation")
							}
						}
						return
					}
					if !returned {
						x.Fail("hangs", "cancelled while the %s request is pending, but does not return", kind)
						return
					}
					if err == nil && s.hung > 0 {
						x.Fail("connect", "no error")
					}
					if conn == nil {
						s.judgeBodies(nil, "cancelled")
						x.Census(base, "cancelled at %s", kind)
					}
					x.Ev("%v", err)
				}},
				{Name: "client", Dims: []int{len(siteTransports), 3, 3, 3, 3}, Quick: 0, Full: 0, Body: func(x *X) { siteClient(x) }},
			}
		}})
}

type siteURL struct{ addr, neg, path, scheme, a string }

var siteURLs = []siteURL{
	{"http://h:81/hub", "/hub/negotiate", "/hub", "http", ""},
	{"http://h:81/x/y/hub", "/x/y/hub/negotiate", "/x/y/hub", "http", ""},
	{"http://h:81/hub/", "/hub/negotiate", "/hub/", "http", ""},
	{"https://h:81/hub", "/hub/negotiate", "/hub", "https", ""},
	{"http://h:81/hub?a=1%262", "/hub/negotiate", "/hub", "http", "1&2"},
	{"http://h:81/hub?a=1&id=other", "/hub/negotiate", "/hub", "http", "1"},
	{"http://h:81/my%20hub", "/my%20hub/negotiate", "/my%20hub", "http", ""},
	{"http://h:81/a%2Fb/hub", "/a%2Fb/hub/negotiate", "/a%2Fb/hub", "http", ""},
}

type siteCookie struct{ set, want []string }

var siteCookies = []siteCookie{
	{nil, nil},
	{[]string{"a=1"}, []string{"a=1"}},
	{[]string{"a=1", "b=2"}, []string{"a=1", "b=2"}},
	{[]string{"a=1", "b=2", "c=3", "d=4"}, []string{"a=1", "b=2", "c=3", "d=4"}},
	{[]string{"a=1; Path=/; HttpOnly"}, []string{"a=1"}},
	{[]string{"a=1; Path=/; Secure; SameSite=None", "b=x y; Max-Age=100; Domain=h"}, []string{"a=1", "b=x y"}},
}

// The type of the options has no name outside of the package.
func listOf[T any](l ...T) []T { return l }

func nilOf[T any](l []T) (z T) { return }

// spare has room for more.
func spare[T any](l []T) []T { return append(make([]T, 0, len(l)+3), l...) }

// siteClient lets a client lose its connection three times.
func siteClient(x *X) {
	ts := siteTransports[x.D[0]]
	kinds := []string{"ok", "ws-refused", "only-sse"}
	var names []string
	for _, k := range x.D[1:] {
		names = append(names, kinds[k])
	}
	s := newSite(x, names...)
	opts := listOf(signalr.WithHTTPClient(s), signalr.WithHTTPHeaders(func() http.Header { return http.Header{"X-User": {fmt.Sprint("attempt", s.attempt)}} }))
	if len(ts) > 0 {
		opts = append(listOf(signalr.WithTransports(transportOption(ts)...)), opts...)
	}
	ctx, cancel := context.WithCancel(context.Background())
	x.Cleanup(cancel)
	c, err := signalr.NewClient(ctx, append(clientOpts(wires[0]), signalr.WithHttpConnection(ctx, "http://h/hub", opts...),
		signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(time.Second) }))...)
	if err != nil {
		x.Fail("client", "%v", err)
		return
	}
	c.Start()
	for n := range names {
		what := fmt.Sprintf("%v attempt %d with %v", names, n, ts)
		x.Settle(100 * time.Millisecond)
		want := expectConnect(ts, names[n], true)
		got := ""
		last := hubReq{}
		for _, r := range s.reqs {
			if r.attempt == n {
				last = r
			}
		}
		var stream *siteBody
		for _, b := range s.bodies {
			if b.live && !b.done {
				stream = b
			}
		}
		switch {
		case last.kind == "ws" && len(s.socks) > 0 && !s.socks[len(s.socks)-1].other.closed:
			got = "ws"
		case last.kind == "sse" && stream != nil, last.kind == "post":
			got = "sse"
		}
		if got != want {
			x.Fail("connect", "%s connects with %q (last request %s), want %q", what, got, last.kind, want)
			return
		}
		s.judgeAttempt(n, ts, -1, what)
		x.Ev("%s", got)
		// lose it
		s.attempt++
		for _, k := range s.socks {
			_ = k.Close()
		}
		for _, b := range s.bodies {
			_ = b.Close()
		}
		x.Settle(20 * time.Second)
	}
}
