package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

// sites of harness decisions
const (
	siteRead  = 0xf0001
	siteWrite = 0xf0002
	siteEnv   = 0xf0010
)

// Conn is one end of an in-memory transport. Reads return exactly the segments that were fed.
type Conn struct {
	x      *X
	id     string
	ctx    context.Context
	cancel context.CancelFunc

	in    [][]byte
	rerr  error
	rlast bool // the error comes together with the last bytes
	wake  chan struct{}
	reads int

	out      []byte
	writes   [][]byte
	wtimes   []time.Time
	nwrite   int
	wfail    int // fail the n-th write (1 based), and all after it
	werr     error
	wblock   int // block the n-th write (1 based), and all after it, until the connection is closed
	wpartial bool
	onWrite  func(p []byte)
	wlost    int           // the peer gets the data of the n-th write (1 based), and of all after it, but the writer an error
	wslow    time.Duration // writes return that late after the peer has got the data
	closed   bool
	shared   *sharedWriter // the transport is used like a socket: one write after the other, taken in two parts
}

type sharedWriter struct {
	mx    sync.Mutex
	pause time.Duration // between the two parts
}

func newConn(x *X, id string) *Conn {
	ctx, cancel := context.WithCancel(context.Background())
	return newConnCtx(x, id, ctx, cancel)
}

func newConnCtx(x *X, id string, ctx context.Context, cancel context.CancelFunc) *Conn {
	c := &Conn{x: x, id: id, ctx: ctx, cancel: cancel, wake: make(chan struct{})}
	x.Cleanup(c.Close)
	return c
}

func (c *Conn) Context() context.Context  { return c.ctx }
func (c *Conn) ConnectionID() string      { return c.id }
func (c *Conn) SetConnectionID(id string) { c.id = id }

func (c *Conn) notify() {
	w := c.wake
	c.wake = make(chan struct{})
	silently(func() { close(w) })
}

// Feed makes b the next segment that Read returns.
func (c *Conn) Feed(b []byte) {
	if len(b) == 0 {
		return
	}
	c.in = append(c.in, append([]byte{}, b...))
	c.notify()
}

// FeedErr lets Read fail after the segments are consumed.
func (c *Conn) FeedErr(err error) {
	c.rerr = err
	c.notify()
}

// FeedLast makes b the last segment, which Read returns together with the error.
func (c *Conn) FeedLast(b []byte, err error) {
	c.rlast = true
	c.rerr = err
	c.Feed(b)
}

// Close is the transport going down: reads and writes fail from now on.
func (c *Conn) Close() {
	if c.closed {
		return
	}
	c.closed = true
	if c.rerr == nil {
		c.rerr = io.EOF
	}
	c.cancel()
	c.notify()
}

func (c *Conn) Read(p []byte) (int, error) {
	runtime.MCPoint(siteRead)
	c.reads++
	for {
		if err := c.ctx.Err(); err != nil {
			return 0, err
		}
		if len(c.in) > 0 {
			n := copy(p, c.in[0])
			if n < len(c.in[0]) {
				c.in[0] = c.in[0][n:]
			} else {
				c.in = c.in[1:]
				if c.rlast && len(c.in) == 0 {
					return n, c.rerr
				}
			}
			return n, nil
		}
		if c.rerr != nil {
			return 0, c.rerr
		}
		w := c.wake
		select {
		case <-w:
		case <-c.ctx.Done():
		}
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	runtime.MCPoint(siteWrite)
	if err := c.ctx.Err(); err != nil {
		return 0, err
	}
	c.nwrite++
	if c.wfail > 0 && c.nwrite >= c.wfail {
		n := 0
		if c.wpartial {
			n = len(p) / 2
			c.out = append(c.out, p[:n]...)
		}
		return n, c.werr
	}
	if c.wblock > 0 && c.nwrite >= c.wblock {
		<-c.ctx.Done()
		return 0, c.ctx.Err()
	}
	var b []byte
	if c.shared != nil {
		c.shared.mx.Lock()
		defer c.shared.mx.Unlock()
		before := string(p)
		b = append(b, p[:len(p)/2]...)
		if c.shared.pause > 0 {
			time.Sleep(c.shared.pause)
		}
		runtime.MCPoint(siteWrite)
		b = append(b, p[len(p)/2:]...)
		if string(p) != before {
			c.x.Fail("write-buffer-changed", "%s: the bytes of a write change while it is running: %q to %q", c.id, before, p)
		}
		if err := c.ctx.Err(); err != nil {
			return 0, err
		}
	} else {
		b = append(b, p...)
	}
	c.out = append(c.out, b...)
	c.writes = append(c.writes, b)
	c.wtimes = append(c.wtimes, time.Now())
	if c.onWrite != nil {
		c.onWrite(b)
	}
	if c.wslow > 0 {
		time.Sleep(c.wslow)
	}
	runtime.MCPoint(siteWrite)
	if c.wlost > 0 && c.nwrite >= c.wlost {
		return 0, errInjected
	}
	return len(p), nil
}

var errInjected = errors.New("injected transport error")

// nopLogger discards.
type nopLogger struct{}

func (nopLogger) Log(...any) error { return nil }

// newServer builds a server without logging.
func newServer(x *X, opts ...func(signalr.Party) error) (signalr.Server, context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	x.Cleanup(cancel)
	s, err := signalr.NewServer(ctx, append([]func(signalr.Party) error{signalr.Logger(nopLogger{}, false)}, opts...)...)
	if err != nil {
		panic(fmt.Sprintf("NewServer: %v", err))
	}
	return s, cancel
}

// Peer is a scripted client of a server.
type Peer struct {
	linger time.Duration // until the transport is closed after Serve has returned
	*Conn
	W        Wire
	Served   bool
	ServeErr error
	ServedAt time.Time
	hsLen    int
}

// hsReq is the handshake request of a protocol.
func hsReq(w Wire) []byte { return []byte(`{"protocol":"` + w.Name() + `","version":1}` + "\x1e") }

// startPeer starts serving a connection.
func startPeer(x *X, s signalr.Server, id string, w Wire) *Peer {
	p := &Peer{Conn: newConn(x, id), W: w}
	go func() {
		err := s.Serve(p.Conn)
		p.Served, p.ServeErr, p.ServedAt = true, err, time.Now()
		// whoever called Serve closes the transport afterwards
		time.Sleep(p.linger)
		p.Conn.Close()
	}()
	return p
}

// connectPeer starts serving a connection and does the handshake.
func connectPeer(x *X, s signalr.Server, id string, w Wire) *Peer {
	p := startPeer(x, s, id, w)
	p.Feed(hsReq(w))
	x.Idle()
	if string(p.out) != "{}\x1e" {
		x.Fail("handshake", "handshake answered with %q", p.out)
	}
	p.hsLen = len(p.out)
	return p
}

// Msgs parses what the server has sent after the handshake.
func (p *Peer) Msgs() []Msg {
	if len(p.out) < p.hsLen {
		return nil
	}
	ms, rest, err := p.W.Parse(p.out[p.hsLen:])
	if err != nil {
		p.x.Fail("wire-garbage", "%s: %v", p.id, err)
	} else if len(rest) > 0 {
		p.x.Fail("wire-garbage", "%s: incomplete frame %q", p.id, rest)
	}
	return ms
}

// NoPing filters pings out.
func NoPing(ms []Msg) []Msg {
	var out []Msg
	for _, m := range ms {
		if m.Type != 6 {
			out = append(out, m)
		}
	}
	return out
}

// norm makes values of different codecs comparable.
func norm(v any) any {
	if v == nil {
		return nil
	}
	switch t := v.(type) {
	case string, bool, float64:
		return t
	case []byte:
		return append([]byte{}, t...)
	}
	rv := reflect.ValueOf(v)
	switch {
	case rv.CanInt():
		if i := rv.Int(); i > 1<<53 || i < -(1<<53) {
			return i
		}
		return float64(rv.Int())
	case rv.CanUint():
		if rv.Uint() > 1<<53 {
			return rv.Uint()
		}
		return float64(rv.Uint())
	case rv.CanFloat():
		return rv.Float()
	case rv.Kind() == reflect.Slice:
		a := []any{}
		for i := 0; i < rv.Len(); i++ {
			a = append(a, norm(rv.Index(i).Interface()))
		}
		return a
	case rv.Kind() == reflect.Map:
		m := map[string]any{}
		for _, k := range rv.MapKeys() {
			m[fmt.Sprint(k.Interface())] = norm(rv.MapIndex(k).Interface())
		}
		return m
	case rv.Kind() == reflect.Pointer && !rv.IsNil():
		return norm(rv.Elem().Interface())
	}
	return v
}

func same(a, b any) bool { return reflect.DeepEqual(norm(a), norm(b)) }

// Srv is a scripted server of a client.
type Srv struct {
	*Conn
	W     Wire
	C     signalr.Client
	hsLen int
	stop  context.CancelFunc
}

func clientOpts(w Wire) []func(signalr.Party) error {
	tf := signalr.TransferFormatText
	if w.Name() == "messagepack" {
		tf = signalr.TransferFormatBinary
	}
	return []func(signalr.Party) error{signalr.Logger(nopLogger{}, false), signalr.TransferFormat(tf)}
}

// newClient builds a client on an in-memory connection.
func newClient(x *X, w Wire, opts ...func(signalr.Party) error) *Srv {
	s := &Srv{Conn: newConn(x, "c1"), W: w}
	ctx, cancel := context.WithCancel(context.Background())
	s.stop = cancel
	x.Cleanup(cancel)
	c, err := signalr.NewClient(ctx, append(append(clientOpts(w), signalr.WithConnection(s.Conn)), opts...)...)
	if err != nil {
		panic(fmt.Sprintf("NewClient: %v", err))
	}
	s.C = c
	return s
}

// Connect starts the client and does the handshake.
func (s *Srv) Connect() {
	s.C.Start()
	s.x.Idle()
	s.TakeHandshake()
	s.Feed([]byte("{}\x1e"))
	s.x.Idle()
	if st := s.C.State(); st != signalr.ClientConnected {
		s.x.Fail("handshake", "client state %v after the handshake", st)
	}
}

// TakeHandshake checks the handshake request.
func (s *Srv) TakeHandshake() {
	want := `{"protocol":"` + s.W.Name() + `","version":1}` + "\x1e"
	if string(s.out) != want {
		s.x.Fail("handshake", "handshake request %q", s.out)
	}
	s.hsLen = len(s.out)
}

// Msgs parses what the client has sent after the handshake.
func (s *Srv) Msgs() []Msg {
	if len(s.out) < s.hsLen {
		return nil
	}
	ms, rest, err := s.W.Parse(s.out[s.hsLen:])
	if err != nil {
		s.x.Fail("wire-garbage", "client: %v", err)
	} else if len(rest) > 0 {
		s.x.Fail("wire-garbage", "client: incomplete frame %q", rest)
	}
	return ms
}

// quietly runs f without scheduling decisions.
func quietly(x *X, f func()) {
	runtime.MCPoints(false, false)
	f()
	runtime.MCPoints(!x.sc.NoPoints, true)
}

// echo answers every invocation as soon as it is written, before the write returns.
func (s *Srv) echo(reply func(m Msg) []byte) {
	s.wslow = 500 * time.Millisecond
	s.onWrite = func(b []byte) {
		ms, _, err := s.W.Parse(b)
		if err != nil {
			s.x.Fail("wire-garbage", "client: %v", err)
		}
		for _, m := range ms {
			if m.Type == 1 || m.Type == 4 {
				s.Feed(reply(m))
			}
		}
	}
}
