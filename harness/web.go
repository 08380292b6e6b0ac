package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// web is an HTTP server without network: the handlers of MapHTTP are called directly.
type web struct {
	x      *X
	s      signalr.Server
	cancel context.CancelFunc
	h      map[string]http.Handler
	router http.Handler // takes the requests instead of h
	path   string       // of the hub
	all    []*exchange
	chunk  int // read size of response bodies, 0: as written
	// prepare is called for every exchange before its handler is
	prepare func(e *exchange)
}

func (m *web) HandleFunc(p string, f func(http.ResponseWriter, *http.Request)) {
	m.h[p] = http.HandlerFunc(f)
}
func (m *web) Handle(p string, h http.Handler) { m.h[p] = h }

func newWeb(x *X, opts ...func(signalr.Party) error) *web {
	m := &web{x: x, h: map[string]http.Handler{}, path: "/hub"}
	m.s, m.cancel = newServer(x, opts...)
	m.s.MapHTTP(func() signalr.MappableRouter { return m }, "/hub")
	x.Cleanup(func() {
		for _, e := range m.all {
			e.unblock()
			e.hangup()
			e.cancel()
		}
	})
	return m
}

// exchange is an HTTP request and its response.
type exchange struct {
	x       *X
	method  string
	url     string
	header  http.Header
	status  int
	body    []byte
	segs    int // writes
	done    bool
	doneAt  time.Time
	ctx     context.Context
	cancel  context.CancelFunc
	wake    chan struct{}
	werr    error         // error of the writes
	wblock  chan struct{} // writes wait for it
	failAt  int           // writes that werr starts after
	partial bool          // failing writes write a part
	peer    *sock         // the other end of a hijacked connection
	own     *sock
	noFlush bool
	chunk   int // read size of a hijacked connection
}

func (e *exchange) notify() {
	w := e.wake
	e.wake = make(chan struct{})
	silently(func() { close(w) })
}

func (e *exchange) Header() http.Header { return e.header }

func (e *exchange) WriteHeader(status int) {
	if e.done {
		e.x.Fail("late-header", "%s %s: header written after the handler has returned", e.method, e.url)
	}
	if e.status == 0 {
		e.status = status
		e.notify()
	}
}

func (e *exchange) Write(p []byte) (int, error) {
	runtime.MCPoint(siteWrite)
	if e.done {
		e.x.Fail("late-write", "%s %s: body written after the handler has returned", e.method, e.url)
		return 0, http.ErrBodyNotAllowed
	}
	if e.status == 0 {
		e.WriteHeader(200)
	}
	if e.wblock != nil {
		select {
		case <-e.wblock:
		case <-e.ctx.Done():
			return 0, e.ctx.Err()
		}
	}
	if e.werr != nil && e.segs >= e.failAt {
		if e.partial {
			e.body = append(e.body, p[:len(p)/2]...)
			e.notify()
			return len(p) / 2, e.werr
		}
		return 0, e.werr
	}
	if err := e.ctx.Err(); err != nil {
		return 0, err
	}
	e.body = append(e.body, p...)
	e.segs++
	e.notify()
	return len(p), nil
}

func (e *exchange) Flush() {}

func (e *exchange) unblock() {
	if e.wblock != nil {
		close(e.wblock)
		e.wblock = nil
	}
}

func (e *exchange) hangup() {
	if e.peer != nil {
		_ = e.peer.Close()
	}
}

func (e *exchange) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	e.own, e.peer = newSocks()
	e.own.chunk, e.peer.chunk = e.chunk, e.chunk
	e.notify()
	return e.own, bufio.NewReadWriter(bufio.NewReader(e.own), bufio.NewWriter(e.own)), nil
}

// wait waits for the header.
func (e *exchange) wait(ctx context.Context) error {
	for e.status == 0 && !e.done || e.status == 101 && e.peer == nil {
		select {
		case <-e.wake:
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	return nil
}

type noFlusher struct{ *exchange }

// start calls the handler for a request.
func (m *web) start(method, target string, hdr http.Header, body io.Reader) *exchange {
	ctx, cancel := context.WithCancel(context.Background())
	e := &exchange{x: m.x, method: method, url: target, header: http.Header{}, ctx: ctx, cancel: cancel, wake: make(chan struct{})}
	m.all = append(m.all, e)
	if m.prepare != nil {
		m.prepare(e)
	}
	u, err := url.Parse(target)
	if err != nil {
		panic(err)
	}
	if hdr == nil {
		hdr = http.Header{}
	}
	rc, ok := body.(io.ReadCloser)
	if !ok {
		if body == nil {
			rc = http.NoBody
		} else {
			rc = io.NopCloser(body)
		}
	}
	r := (&http.Request{Method: method, URL: u, Host: "h", Header: hdr, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: rc}).WithContext(ctx)
	h := m.h[u.Path]
	if m.router != nil {
		h = m.router
		r.RequestURI = u.RequestURI()
	}
	if h == nil {
		e.status, e.done = 404, true
		return e
	}
	go func() {
		var w http.ResponseWriter = e
		if e.noFlush {
			w = struct{ http.ResponseWriter }{e}
		}
		h.ServeHTTP(w, r)
		if e.status == 0 {
			e.status = 200
		}
		e.done, e.doneAt = true, time.Now()
		e.notify()
		// net/http does this
		cancel()
	}()
	return e
}

// sse starts a server sent events request.
func (m *web) sse(key string) *exchange {
	return m.start("GET", m.path+"?id="+url.QueryEscape(key), http.Header{"Accept": {"text/event-stream"}}, nil)
}

func (m *web) post(key string, body string) *exchange {
	return m.start("POST", m.path+"?id="+url.QueryEscape(key), nil, strings.NewReader(body))
}

type negotiated struct {
	ConnectionToken     string
	ConnectionID        string
	NegotiateVersion    int
	AvailableTransports []struct {
		Transport       string
		TransferFormats []string
	}
}

// negotiate is the negotiate request. It does not block.
func (m *web) negotiate(query string) (negotiated, int) { return m.negotiateWith(query, nil) }

func (m *web) negotiateWith(query string, hdr http.Header) (negotiated, int) {
	e := m.start("POST", "/hub/negotiate"+query, hdr, nil)
	m.x.Idle()
	return e.negotiated()
}

func (e *exchange) negotiated() (n negotiated, status int) {
	if !e.done {
		e.x.Fail("negotiate", "negotiate request not answered")
		return
	}
	if e.status == 200 {
		if err := json.Unmarshal(e.body, &n); err != nil {
			e.x.Fail("negotiate", "negotiate answered with %q", e.body)
		}
	}
	return n, e.status
}

// RoundTrip makes the web a transport of http.Client.
func (m *web) RoundTrip(req *http.Request) (*http.Response, error) {
	var body io.Reader
	if req.Body != nil {
		body = req.Body
	}
	e := m.start(req.Method, req.URL.RequestURI(), req.Header.Clone(), body)
	if err := e.wait(req.Context()); err != nil {
		e.cancel()
		return nil, err
	}
	resp := &http.Response{StatusCode: e.status, Status: fmt.Sprintf("%d %s", e.status, http.StatusText(e.status)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: e.header.Clone(), Request: req, ContentLength: -1}
	if e.peer != nil {
		resp.Body = e.peer
	} else {
		resp.Body = &respBody{m: m, e: e}
	}
	return resp, nil
}

// client is a http.Client of the web.
func (m *web) client() *http.Client { return &http.Client{Transport: m} }

// respBody is the body of a response as a client sees it.
type respBody struct {
	m      *web
	e      *exchange
	pos    int
	closed chan struct{}
}

func (b *respBody) Read(p []byte) (int, error) {
	for b.pos == len(b.e.body) {
		if b.e.done {
			return 0, io.EOF
		}
		if b.e.ctx.Err() != nil {
			return 0, errInjected
		}
		select {
		case <-b.e.wake:
		case <-b.e.ctx.Done():
		}
	}
	if b.m.chunk > 0 && len(p) > b.m.chunk {
		p = p[:b.m.chunk]
	}
	n := copy(p, b.e.body[b.pos:])
	b.pos += n
	return n, nil
}

func (b *respBody) Close() error {
	b.e.cancel()
	return nil
}

// sock is one end of a buffered connection.
type sock struct {
	in     []byte
	closed bool
	wake   chan struct{}
	other  *sock
	hold   bool // Write waits
	chunk  int  // read size, 0: as written
	rdead  bool // the read deadline is over
	wdead  bool
}

func newSocks() (a, b *sock) {
	a, b = &sock{wake: make(chan struct{})}, &sock{wake: make(chan struct{})}
	a.other, b.other = b, a
	return
}

func (s *sock) notify() {
	w := s.wake
	s.wake = make(chan struct{})
	silently(func() { close(w) })
}

func (s *sock) Read(p []byte) (int, error) {
	runtime.MCPoint(siteRead)
	for {
		if s.closed {
			return 0, net.ErrClosed
		}
		if s.rdead {
			return 0, os.ErrDeadlineExceeded
		}
		if len(s.in) > 0 {
			if s.chunk > 0 && len(p) > s.chunk {
				p = p[:s.chunk]
			}
			n := copy(p, s.in)
			s.in = s.in[n:]
			return n, nil
		}
		if s.other.closed {
			return 0, io.EOF
		}
		<-s.wake
	}
}

func (s *sock) Write(p []byte) (int, error) {
	runtime.MCPoint(siteWrite)
	for s.hold && !s.closed && !s.other.closed && !s.wdead {
		<-s.wake
	}
	if s.wdead {
		return 0, os.ErrDeadlineExceeded
	}
	if s.closed {
		return 0, net.ErrClosed
	}
	if s.other.closed {
		return 0, io.ErrClosedPipe
	}
	s.other.in = append(s.other.in, p...)
	s.other.notify()
	return len(p), nil
}

func (s *sock) Close() error {
	if !s.closed {
		s.closed = true
		s.notify()
		s.other.notify()
	}
	return nil
}

// expired handles deadlines which are not in the future.
func (s *sock) expired(f *bool, t time.Time) error {
	if t.IsZero() {
		*f = false
	} else if !t.After(time.Now()) {
		*f = true
		s.notify()
	} else {
		time.AfterFunc(time.Until(t), func() {
			*f = true
			s.notify()
		})
	}
	return nil
}

func (s *sock) release() {
	s.hold = false
	s.notify()
}

func (s *sock) LocalAddr() net.Addr                { return nil }
func (s *sock) RemoteAddr() net.Addr               { return nil }
func (s *sock) SetReadDeadline(t time.Time) error  { return s.expired(&s.rdead, t) }
func (s *sock) SetWriteDeadline(t time.Time) error { return s.expired(&s.wdead, t) }
func (s *sock) SetDeadline(t time.Time) error {
	_ = s.expired(&s.rdead, t)
	return s.expired(&s.wdead, t)
}
