package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

// conn is an in-memory transport. Reads return the fed segments.
type conn struct {
	id     string
	ctx    context.Context
	cancel context.CancelFunc
	mx     sync.Mutex
	in     chan []byte
	rest   []byte
	out    strings.Builder
	// onWrite is called after every write
	onWrite func(p []byte)
	block   chan struct{} // writes block until it is closed
}

func newConn(id string) *conn {
	c := &conn{id: id, in: make(chan []byte, 100000)}
	c.ctx, c.cancel = context.WithCancel(context.Background())
	return c
}

func (c *conn) Context() context.Context { return c.ctx }
func (c *conn) ConnectionID() string     { return c.id }
func (c *conn) SetConnectionID(s string) { c.id = s }

func (c *conn) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, io.EOF
			}
			c.rest = b
		case <-c.ctx.Done():
			return 0, c.ctx.Err()
		}
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	c.mx.Lock()
	b := c.block
	c.mx.Unlock()
	if b != nil {
		select {
		case <-b:
		case <-c.ctx.Done():
			return 0, c.ctx.Err()
		}
	}
	if c.ctx.Err() != nil {
		return 0, c.ctx.Err()
	}
	c.mx.Lock()
	c.out.Write(p)
	f := c.onWrite
	c.mx.Unlock()
	if f != nil {
		f(append([]byte{}, p...))
	}
	return len(p), nil
}

func (c *conn) feed(msgs ...string) { c.in <- []byte(strings.Join(msgs, "\x1e") + "\x1e") }

// msgs returns everything written so far.
func (c *conn) msgs() (out []map[string]any) {
	c.mx.Lock()
	defer c.mx.Unlock()
	for _, f := range strings.Split(c.out.String(), "\x1e") {
		m := map[string]any{}
		if f == "" || json.Unmarshal([]byte(f), &m) != nil {
			continue
		}
		out = append(out, m)
	}
	return out
}

// find returns the messages with the type and, if id is not empty, the invocation id.
func (c *conn) find(typ int, id string) (out []map[string]any) {
	for _, m := range c.msgs() {
		if t, _ := m["type"].(float64); int(t) == typ && (id == "" || m["invocationId"] == id) {
			out = append(out, m)
		}
	}
	return out
}

// eventually waits up to 5 s for a condition.
func eventually(f func() bool) bool {
	for i := 0; i < 1000; i++ {
		if f() {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return f()
}

func fail(format string, args ...any) {
	fmt.Printf("BROKEN: "+format+"\n", args...)
	os.Exit(1)
}

type nolog struct{}

func (nolog) Log(...any) error { return nil }

func server(opts ...func(signalr.Party) error) signalr.Server {
	s, err := signalr.NewServer(context.Background(), append([]func(signalr.Party) error{signalr.Logger(nolog{}, false)}, opts...)...)
	if err != nil {
		panic(err)
	}
	return s
}

// serve connects a client to the server.
func serve(s signalr.Server, c *conn) {
	go func() {
		_ = s.Serve(c)
		c.cancel()
	}()
	c.feed(`{"protocol":"json","version":1}`)
	if !eventually(func() bool { return len(c.msgs()) > 0 }) {
		panic("no handshake")
	}
}

// client starts a client.
func client(c *conn, opts ...func(signalr.Party) error) signalr.Client {
	cl, err := signalr.NewClient(context.Background(), append([]func(signalr.Party) error{signalr.Logger(nolog{}, false), signalr.WithConnection(c)}, opts...)...)
	if err != nil {
		panic(err)
	}
	cl.Start()
	if !eventually(func() bool { return len(c.msgs()) > 0 }) {
		panic("no handshake")
	}
	c.feed(`{}`)
	if !eventually(func() bool { return cl.State() == signalr.ClientConnected }) {
		panic("not connected")
	}
	return cl
}

var (
	_ = server
	_ = client
	_ = serve
	_ = fail
)
