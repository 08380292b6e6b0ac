package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C24: websockets and network connections carry the messages.

// rawWS is a websocket client on the level of frames.
type rawWS struct {
	x     *X
	e     *exchange
	raw   []byte
	buf   []byte // of the message which is received
	op    byte
	msgs  []wsMsg
	code  int // of the close frame, 0: none
	eof   bool
	stop  bool // don't read
	reply bool // answer close frames and pings
}

type wsMsg struct {
	op   byte
	data []byte
}

const (
	wsCont, wsText, wsBinary, wsClose, wsPing, wsPong = 0, 1, 2, 8, 9, 10
)

// rawDial opens a websocket.
func (m *web) rawDial(key string) *rawWS {
	w := &rawWS{x: m.x, reply: true}
	u := "/hub"
	if key != "" {
		u += "?id=" + url.QueryEscape(key)
	}
	w.e = m.start("GET", u, http.Header{"Connection": {"keep-alive, Upgrade"}, "Upgrade": {"WebSocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}, nil)
	m.x.Idle()
	if w.e.peer == nil {
		m.x.Fail("upgrade", "refused with %d", w.e.status)
		return w
	}
	go func() {
		p := make([]byte, 1<<16)
		for !w.stop {
			n, err := w.e.peer.Read(p)
			if err != nil {
				w.eof = true
				return
			}
			w.raw = append(w.raw, p[:n]...)
			w.parse()
		}
	}()
	m.x.Idle()
	return w
}

func (w *rawWS) parse() {
	for len(w.raw) >= 2 {
		b0, b1 := w.raw[0], w.raw[1]
		n, off := int(b1&0x7f), 2
		if b1&0x80 != 0 || b0&0x70 != 0 {
			w.x.Fail("websocket", "bad frame header %x %x", b0, b1)
			w.raw = nil
			return
		}
		switch n {
		case 126:
			if len(w.raw) < 4 {
				return
			}
			n, off = int(binary.BigEndian.Uint16(w.raw[2:])), 4
		case 127:
			if len(w.raw) < 10 {
				return
			}
			n, off = int(binary.BigEndian.Uint64(w.raw[2:])), 10
		}
		if len(w.raw) < off+n {
			return
		}
		data := append([]byte{}, w.raw[off:off+n]...)
		w.raw = w.raw[off+n:]
		switch op := b0 & 15; op {
		case wsText, wsBinary, wsCont:
			if op != wsCont {
				w.op, w.buf = op, nil
			}
			w.buf = append(w.buf, data...)
			if b0&0x80 != 0 {
				w.msgs = append(w.msgs, wsMsg{w.op, w.buf})
			}
		case wsClose:
			w.code = 1005
			if len(data) >= 2 {
				w.code = int(binary.BigEndian.Uint16(data))
			}
			if w.reply {
				w.frame(true, wsClose, data)
			}
		case wsPing:
			if w.reply {
				w.frame(true, wsPong, data)
			}
		}
	}
}

// encode makes a client's frame.
func wsFrame(fin bool, op byte, data []byte) []byte {
	b := []byte{op, 0x80}
	if fin {
		b[0] |= 0x80
	}
	switch n := len(data); {
	case n < 126:
		b[1] |= byte(n)
	case n < 1<<16:
		b[1] |= 126
		b = binary.BigEndian.AppendUint16(b, uint16(n))
	default:
		b[1] |= 127
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	mask := []byte{1, 2, 3, 4}
	b = append(b, mask...)
	for i, c := range data {
		b = append(b, c^mask[i%4])
	}
	return b
}

func (w *rawWS) frame(fin bool, op byte, data []byte) { _, _ = w.e.peer.Write(wsFrame(fin, op, data)) }

// got is what the server has sent after the handshake. All websocket messages have to be complete hub messages.
func (w *rawWS) got(wire Wire) (ms []Msg) {
	want := byte(wsText)
	if wire.Name() == "messagepack" {
		want = wsBinary
	}
	for i, m := range w.msgs {
		if i == 0 {
			if string(m.data) != "{}\x1e" {
				w.x.Fail("handshake", "answered with %q", m.data)
			}
			continue
		}
		h, rest, err := wire.Parse(m.data)
		if err != nil || len(rest) > 0 || len(h) == 0 {
			w.x.Fail("incomplete", "websocket message %q is no complete hub message (%v)", m.data, err)
		}
		if m.op != want {
			w.x.Fail("type", "websocket message type %d for %s", m.op, wire.Name())
		}
		ms = append(ms, h...)
	}
	return
}

// connect does the handshake.
func (w *rawWS) connect(wire Wire) {
	w.frame(true, wsText, hsReq(wire))
	w.x.Idle()
	if len(w.msgs) != 1 || string(w.msgs[0].data) != "{}\x1e" {
		w.x.Fail("handshake", "answered with %v", w.msgs)
	}
}

var cutStream = map[string]string{}

// wsStream is the stream which is cut.
func wsStream(w Wire) string {
	if s, ok := cutStream[w.Name()]; ok {
		return s
	}
	s := string(w.Inv(1, "", "note", []any{1}, nil)) + string(w.Inv(1, "a", "echo", []any{"\x1e\n"}, nil)) + string(w.Ping()) + string(w.Inv(1, "", "note", []any{2}, nil))
	cutStream[w.Name()] = s
	return s
}

func init() {
	register(&Property{ID: "C24", Title: "websockets",
		Rule: "cuts: a stream of four messages after the handshake in both protocols, cut in three websocket messages or frames at every pair of positions, with empty messages or pings between them and with three kinds of network reads; types: text and binary websocket messages for the handshake and the messages; sizes: messages of every size around the limit and of other sizes up to 3000000 in both directions; writes, ends, client, net: schedules with bounded deviations of concurrent sends, nine ways to end a connection in five situations, end to end calls between client and server on websockets and on network connections.",
		Scenarios: func() []*Scenario {
			const maxLen = 170
			cuts := func(x *X) {
				w := wires[x.D[0]]
				s := wsStream(w)
				i, j, mode := x.D[3], x.D[4], x.D[1]
				m, r := sseServer(x)
				m.prepare = func(e *exchange) { e.chunk = []int{0, 1, 5}[x.D[2]] }
				ws := m.rawDial("")
				ws.connect(w)
				op := byte(wsText)
				if w.Name() == "messagepack" {
					op = wsBinary
				}
				parts := []string{s[:i], s[i:j], s[j:]}
				switch mode {
				case 0: // messages
					for _, p := range parts {
						ws.frame(true, op, []byte(p))
					}
				case 1: // frames of a message
					ws.frame(false, op, []byte(parts[0]))
					ws.frame(false, wsCont, []byte(parts[1]))
					ws.frame(true, wsCont, []byte(parts[2]))
				case 2: // with empty ones between
					for _, p := range parts {
						ws.frame(true, op, nil)
						ws.frame(true, op, []byte(p))
						ws.frame(false, op, nil)
						ws.frame(true, wsCont, nil)
					}
				case 3: // with pings between
					ws.frame(false, op, []byte(parts[0]))
					ws.frame(true, wsPing, []byte("hello"))
					ws.frame(true, wsCont, []byte(parts[1]))
					ws.frame(true, wsPong, nil)
					x.Idle()
					ws.frame(true, op, []byte(parts[2]))
				}
				x.Idle()
				if !sameInts(r.notes, []int{1, 2}) {
					x.Fail("messages", "%q: received %v", parts, r.notes)
				}
				if ms := ws.got(w); len(ms) != 1 || ms[0].Type != 3 || ms[0].ID != "a" || ms[0].Result != "\x1e\n" {
					x.Fail("answer", "%q: answered with %v", parts, ms)
				}
				if len(r.disconnected) > 0 || ws.code != 0 || ws.eof {
					x.Fail("ended", "%q: connection ended with %d", parts, ws.code)
				}
			}
			skip := func(d []int) bool {
				l := len(wsStream(wires[d[0]]))
				return d[3] > d[4] || d[4] > l
			}
			ended := func(x *X, ws *rawWS, r *sseRec, what string, connected bool) {
				if !ws.e.done {
					x.Fail("handler", "%s: the handler has not returned", what)
				}
				if !ws.e.own.closed {
					x.Fail("open", "%s: the network connection stays open", what)
				}
				n := 0
				if connected {
					n = 1
				}
				if len(r.connected) != n || len(r.disconnected) != n {
					x.Fail("hub", "%s: connected %v, disconnected %v", what, r.connected, r.disconnected)
				}
			}
			return []*Scenario{
				{Name: "cuts", Dims: []int{2, 4, 1, maxLen, maxLen}, Quick: 0, Full: 0, NoPoints: true, Body: cuts, Skip: skip},
				{Name: "cuts-reads", Dims: []int{2, 4, 3, maxLen, maxLen}, OnlyFull: true, Full: 0, NoPoints: true, Body: cuts, Skip: skip},
				// text and binary websocket messages are the same to the server; the handshake is JSON, but clients for MessagePack may
				// send it as a binary message, others send it as text
				{Name: "types", Dims: []int{2, 2, 2, 3}, Quick: 1, Full: 2, Body: func(x *X) {
					w := wires[x.D[0]]
					m, r := sseServer(x)
					ws := m.rawDial("")
					hop, op := []byte{wsText, wsBinary}[x.D[1]], []byte{wsText, wsBinary}[x.D[2]]
					switch x.D[3] {
					case 0:
						ws.frame(true, hop, hsReq(w))
						x.Idle()
						ws.frame(true, op, []byte(wsStream(w)))
					case 1: // without waiting for the answer
						ws.frame(true, hop, hsReq(w))
						ws.frame(true, op, []byte(wsStream(w)))
					case 2: // in pieces
						h := hsReq(w)
						ws.frame(true, hop, h[:5])
						ws.frame(true, op, h[5:])
						ws.frame(true, op, []byte(wsStream(w)))
					}
					x.Idle()
					if !sameInts(r.notes, []int{1, 2}) {
						x.Fail("messages", "handshake type %d, message type %d: received %v", hop, op, r.notes)
					}
					if ms := ws.got(w); len(ms) != 1 || ms[0].Type != 3 || ms[0].ID != "a" || ms[0].Result != "\x1e\n" {
						x.Fail("answer", "handshake type %d, message type %d: answered with %v", hop, op, ms)
					}
				}},
				// the string argument has the size that makes the message as long as the limit, and up to 3 more or less
				{Name: "sizes", Dims: []int{2, 2, 7, 7}, Quick: 0, Full: 1, NoPoints: true, Skip: func(d []int) bool { return d[3] >= 5 && d[2]%3 != 0 }, Body: func(x *X) {
					w := wires[x.D[0]]
					limit := []int{200, 4096, 32768, 65536 + 3, 100000, 1200000, 3000000}[x.D[3]]
					size := limit + x.D[2] - 3
					build := func(n int) []byte { return w.Inv(1, "", "rec", []any{strings.Repeat("x", n)}, nil) }
					// what counts is without the length prefix of MessagePack
					length := func(b []byte) int {
						if w.Name() == "messagepack" {
							_, n := binary.Uvarint(b)
							return len(b) - n
						}
						return len(b)
					}
					if x.D[1] == 1 {
						// the messages of the server may be longer
						m, _ := sseServer(x)
						ws := m.rawDial("")
						ws.connect(w)
						build = func(n int) []byte {
							m.s.HubClients().All().Send("rec", strings.Repeat("x", n))
							x.Idle()
							return ws.msgs[len(ws.msgs)-1].data
						}
					}
					n := size - 50
					if limit > 100000 {
						if n += size - length(build(n)); n > size {
							n = size - 50
						}
					}
					for length(build(n)) < size {
						if n++; n > size {
							x.Fail("pieces", "the message with a string of %d bytes is not a single websocket message", n)
							return
						}
					}
					b := build(n)
					if length(b) != size {
						return // there is no such message
					}
					if x.D[1] == 0 {
						// to the server
						m, r := sseServer(x, signalr.MaximumReceiveMessageSize(uint(limit)))
						ws := m.rawDial("")
						ws.connect(w)
						op := byte(wsText)
						if w.Name() == "messagepack" {
							op = wsBinary
						}
						b = bytes.Replace(b, []byte("rec"), []byte("big"), 1)
						ws.frame(true, op, b)
						x.Settle(20 * time.Second)
						if size <= limit {
							if len(r.ups) != 1 || r.ups[0] != strings.Repeat("x", n) || len(r.disconnected) > 0 || ws.eof {
								x.Fail("size", "a message with %d of %d bytes was not received, connection ended: %v", size, limit, ws.eof)
							}
						} else {
							if len(r.ups) > 0 {
								x.Fail("size", "a message with %d of %d bytes was received", size, limit)
							}
							ended(x, ws, r, "message too long", true)
						}
						return
					}
					// to the client
					m, r := sseServer(x)
					rec := &recv{}
					cl, _ := e2e(x, m, signalr.TransportWebSockets, w.Name(), x.D[2]%2, signalr.WithReceiver(rec), signalr.MaximumReceiveMessageSize(uint(limit)))
					if cl == nil {
						return
					}
					m.s.HubClients().All().Send("rec", strings.Repeat("x", n))
					x.Settle(20 * time.Second)
					if size <= limit {
						if len(rec.got) != 1 || rec.got[0] != strings.Repeat("x", n) || cl.State() != signalr.ClientConnected {
							x.Fail("size", "a message with %d of %d bytes was not received, client %v %v", size, limit, cl.State(), cl.Err())
						}
					} else if len(rec.got) > 0 || cl.State() != signalr.ClientClosed || cl.Err() == nil || len(r.disconnected) > 1 {
						x.Fail("size", "a message with %d of %d bytes was received %d times, client %v %v", size, limit, len(rec.got), cl.State(), cl.Err())
					}
				}},
				{Name: "writes", Dims: []int{2, 3}, Quick: 2, Full: 2, Body: func(x *X) {
					w := wires[x.D[0]]
					m, r := sseServer(x)
					m.prepare = func(e *exchange) { e.chunk = []int{0, 1, 7}[x.D[1]] }
					ws := m.rawDial("")
					ws.connect(w)
					for i := 0; i < 2; i++ {
						go m.s.HubClients().All().Send("rec", fmt.Sprint("m", i))
					}
					op := byte(wsText)
					if w.Name() == "messagepack" {
						op = wsBinary
					}
					ws.frame(true, op, w.Inv(1, "i", "echo", []any{"e"}, nil))
					ws.frame(true, wsPing, []byte("p"))
					x.Settle(time.Second)
					n := map[string]int{}
					for _, g := range ws.got(w) {
						if g.Type == 1 && len(g.Args) == 1 {
							n[fmt.Sprint(g.Args[0])]++
						} else {
							n[fmt.Sprint(g.Type, g.ID, g.Result)]++
						}
					}
					if len(n) != 3 || n["m0"] != 1 || n["m1"] != 1 || n["3i"+"e"] != 1 && n["3 i e"] != 1 && n[fmt.Sprint(3, "i", "e")] != 1 {
						x.Fail("messages", "%v", n)
					}
					if len(r.disconnected) > 0 || ws.eof {
						x.Fail("ended", "the connection has ended")
					}
				}},
				// nine ways to end in five situations
				{Name: "ends", Dims: []int{2, 9, 5}, Quick: 1, Full: 1, Body: func(x *X) {
					w := wires[x.D[0]]
					how, sit := x.D[1], x.D[2]
					op := byte(wsText)
					if w.Name() == "messagepack" {
						op = wsBinary
					}
					m, r := sseServer(x)
					base := 0
					quietly(x, func() {
						x.Settle(time.Second)
						base = x.Goroutines()
					})
					ws := m.rawDial("")
					connected := how < 6
					if connected {
						ws.connect(w)
					}
					what := fmt.Sprintf("end %d, situation %d", how, sit)
					send := func() { go m.s.HubClients().All().Send("rec", "x") }
					switch sit {
					case 1: // a message is on its way
						ws.frame(false, op, w.Ping()[:1])
					case 2: // the client does not read
						ws.e.own.hold = true
						ws.reply = false
						if connected {
							send()
							send()
						}
					case 3: // the client is gone without a trace
						ws.reply = false
					}
					if sit > 0 {
						x.Idle()
					}
					say := func(b []byte) {
						if sit == 1 {
							ws.frame(true, wsCont, append(w.Ping()[1:], b...))
						} else {
							ws.frame(true, op, b)
						}
					}
					switch how {
					case 0:
						ws.e.hangup()
					case 1:
						m.cancel()
					case 2:
						say(w.Inv(1, "", "quit", nil, nil))
					case 3:
						say(w.Close("", false))
					case 4:
						if w.Name() == "messagepack" {
							say([]byte{1, 0xc1})
						} else {
							say([]byte("nonsense\x1e"))
						}
					case 5:
						ws.frame(true, wsClose, []byte{3, 0xe8})
					case 6: // handshake refused
						say([]byte("{\"protocol\":\"no\",\"version\":1}\x1e"))
					case 7: // no handshake
						time.Sleep(ttl)
					case 8: // websocket violation
						ws.frame(true, 7, nil)
					}
					if sit == 4 && connected {
						send()
					}
					x.Settle(30 * time.Second)
					ended(x, ws, r, what, connected)
					ws.e.hangup()
					x.Settle(time.Minute)
					if how == 1 {
						base--
					}
					x.Census(base, "%s", what)
				}},
				{Name: "client", Dims: []int{2, 2, 7}, Quick: 1, Full: 1, Body: func(x *X) {
					m, r := sseServer(x)
					clientCalls(x, m, r, signalr.TransportWebSockets, wires[x.D[1]].Name(), x.D[0], x.D[2])
				}},
				// network connections
				{Name: "net", Dims: []int{2, 3, 5}, Quick: 1, Full: 1, Body: func(x *X) {
					w := wires[x.D[0]]
					r := &sseRec{webRec: &webRec{}}
					s, stop := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &sseHub{r: r} }),
						signalr.HandshakeTimeout(ttl), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(30*time.Minute))
					_ = stop
					a, b := newSocks()
					a.chunk, b.chunk = []int{0, 1, 5}[x.D[1]], []int{0, 1, 5}[x.D[1]]
					actx, acancel := context.WithCancel(context.Background())
					bctx, bcancel := context.WithCancel(context.Background())
					x.Cleanup(func() { acancel(); bcancel(); a.Close(); b.Close() })
					served := false
					var serveErr error
					go func() {
						serveErr = s.Serve(signalr.NewNetConnection(actx, a))
						served = true
						acancel()
					}()
					rec := &recv{}
					cl, err := signalr.NewClient(context.Background(), append(clientOpts(w), signalr.WithConnection(signalr.NewNetConnection(bctx, b)), signalr.WithReceiver(rec),
						signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(30*time.Minute))...)
					if err != nil {
						panic(err)
					}
					cl.Start()
					x.Cleanup(cl.Stop)
					x.Settle(time.Second)
					if cl.State() != signalr.ClientConnected {
						x.Fail("connect", "%v %v", cl.State(), cl.Err())
						return
					}
					res := cl.Invoke("echo", "hello")
					go s.HubClients().All().Send("rec", "push")
					x.Settle(time.Second)
					select {
					case v := <-res:
						if v.Error != nil || v.Value != "hello" {
							x.Fail("result", "%v", v)
						}
					default:
						x.Fail("result", "no result")
					}
					if len(rec.got) != 1 || rec.got[0] != "push" {
						x.Fail("receiver", "%v", rec.got)
					}
					if x.D[2] > 2 {
						// writes don't get through
						a.hold = x.D[2] == 3
						b.hold = x.D[2] == 4
						if a.hold {
							go s.HubClients().All().Send("rec", "push")
						} else {
							cl.Send("echo", "x")
						}
						x.Idle()
					}
					switch x.D[2] {
					case 0, 3:
						acancel()
					case 1, 4:
						bcancel()
					case 2:
						b.Close()
					}
					x.Settle(20 * time.Second)
					if !served || len(r.connected) != 1 || len(r.disconnected) != 1 {
						x.Fail("end", "Serve returned %v %v, connected %v, disconnected %v", served, serveErr, r.connected, r.disconnected)
					}
					if cl.State() != signalr.ClientClosed {
						x.Fail("end", "client state %v", cl.State())
					}
					if !a.closed || x.D[2] != 0 && x.D[2] != 3 && !b.closed {
						x.Fail("open", "network connection closed: %v %v", a.closed, b.closed)
					}
				}},
			}
		}})
}
