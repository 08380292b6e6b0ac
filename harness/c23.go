//go:build ext

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"path"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/zzext"
	"github.com/redis/go-redis/v9"
	"github.com/redis/go-redis/v9/maintnotifications"
)

// C23: the Redis lifetime manager.

// redisSim is a Redis server: sets, publish and subscribe. A command is executed when it is written.
type redisSim struct {
	x     *X
	sets  map[string]map[string]bool
	conns []*redisConn
	log   []string
	down  bool
	slow  time.Duration // time a message needs to a subscriber
}

type redisConn struct {
	s        *redisSim
	in       []byte
	out      []byte
	wake     chan struct{}
	closed   bool
	patterns []string
	channels []string
	deadline time.Time
}

func (s *redisSim) dial(context.Context, string, string) (net.Conn, error) {
	if s.down {
		return nil, fmt.Errorf("connection refused")
	}
	c := &redisConn{s: s, wake: make(chan struct{}, 1)}
	s.conns = append(s.conns, c)
	return c, nil
}

// drop ends all connections.
func (s *redisSim) drop() {
	for _, c := range s.conns {
		c.closed = true
		c.signal()
	}
	s.conns = nil
}

func (c *redisConn) signal() {
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *redisConn) Read(p []byte) (int, error) {
	for {
		if len(c.out) > 0 {
			n := copy(p, c.out)
			c.out = c.out[n:]
			return n, nil
		}
		if c.closed {
			return 0, io.EOF
		}
		if c.deadline.IsZero() {
			<-c.wake
			continue
		}
		d := time.Until(c.deadline)
		if d <= 0 {
			return 0, os.ErrDeadlineExceeded
		}
		t := time.NewTimer(d)
		select {
		case <-c.wake:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *redisConn) Write(p []byte) (int, error) {
	if c.closed {
		return 0, io.ErrClosedPipe
	}
	c.in = append(c.in, p...)
	for {
		args, rest, ok := parseCommand(c.in)
		if !ok {
			return len(p), nil
		}
		c.in = rest
		c.out = append(c.out, c.s.exec(c, args)...)
		c.signal()
	}
}

func (c *redisConn) Close() error {
	c.closed = true
	for i, o := range c.s.conns {
		if o == c {
			c.s.conns = append(c.s.conns[:i:i], c.s.conns[i+1:]...)
		}
	}
	c.signal()
	return nil
}
func (c *redisConn) LocalAddr() net.Addr                { return &net.TCPAddr{Port: 1} }
func (c *redisConn) RemoteAddr() net.Addr               { return &net.TCPAddr{Port: 2} }
func (c *redisConn) SetDeadline(t time.Time) error      { c.deadline = t; c.signal(); return nil }
func (c *redisConn) SetReadDeadline(t time.Time) error  { c.deadline = t; c.signal(); return nil }
func (c *redisConn) SetWriteDeadline(t time.Time) error { return nil }

// parseCommand reads an array of bulk strings.
func parseCommand(b []byte) (args []string, rest []byte, ok bool) {
	line := func() (string, bool) {
		i := strings.Index(string(b), "\r\n")
		if i < 0 {
			return "", false
		}
		l := string(b[:i])
		b = b[i+2:]
		return l, true
	}
	l, ok := line()
	if !ok || l[0] != '*' {
		return nil, nil, false
	}
	n, _ := strconv.Atoi(l[1:])
	for i := 0; i < n; i++ {
		l, ok := line()
		if !ok {
			return nil, nil, false
		}
		m, _ := strconv.Atoi(l[1:])
		if len(b) < m+2 {
			return nil, nil, false
		}
		args = append(args, string(b[:m]))
		b = b[m+2:]
	}
	return args, b, true
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (s *redisSim) exec(c *redisConn, args []string) string {
	if len(args) == 0 {
		return "-ERR empty\r\n"
	}
	num := func(n int) string { return fmt.Sprintf(":%d\r\n", n) }
	cmd := strings.ToUpper(args[0])
	s.log = append(s.log, strings.Join(args, " "))
	switch cmd {
	case "PING":
		if len(c.patterns)+len(c.channels) > 0 {
			data := ""
			if len(args) > 1 {
				data = args[1]
			}
			return "*2\r\n" + bulk("pong") + bulk(data)
		}
		return "+PONG\r\n"
	case "SADD", "SREM":
		n := 0
		for _, m := range args[2:] {
			if s.sets[args[1]][m] != (cmd == "SADD") {
				n++
				if cmd == "SREM" {
					delete(s.sets[args[1]], m)
				} else if s.sets[args[1]] == nil {
					s.sets[args[1]] = map[string]bool{m: true}
				} else {
					s.sets[args[1]][m] = true
				}
			}
		}
		return num(n)
	case "SISMEMBER":
		if s.sets[args[1]][args[2]] {
			return num(1)
		}
		return num(0)
	case "SMISMEMBER":
		o := fmt.Sprintf("*%d\r\n", len(args)-2)
		for _, m := range args[2:] {
			if s.sets[args[1]][m] {
				o += num(1)
			} else {
				o += num(0)
			}
		}
		return o
	case "SCARD":
		return num(len(s.sets[args[1]]))
	case "SMEMBERS":
		ks := sortedKeys(s.sets[args[1]])
		o := fmt.Sprintf("*%d\r\n", len(ks))
		for _, k := range ks {
			o += bulk(k)
		}
		return o
	case "DEL":
		n := 0
		for _, k := range args[1:] {
			if len(s.sets[k]) > 0 {
				n++
			}
			delete(s.sets, k)
		}
		return num(n)
	case "EXISTS":
		n := 0
		for _, k := range args[1:] {
			if len(s.sets[k]) > 0 {
				n++
			}
		}
		return num(n)
	case "EXPIRE":
		return num(1)
	case "SUBSCRIBE", "PSUBSCRIBE":
		o := ""
		for _, a := range args[1:] {
			l := &c.patterns
			if cmd == "SUBSCRIBE" {
				l = &c.channels
			}
			known := false
			for _, k := range *l {
				known = known || k == a
			}
			if !known {
				*l = append(*l, a)
			}
			o += "*3\r\n" + bulk(strings.ToLower(cmd)) + bulk(a) + num(len(c.patterns)+len(c.channels))
		}
		return o
	case "UNSUBSCRIBE", "PUNSUBSCRIBE":
		o := ""
		l := &c.patterns
		if cmd == "UNSUBSCRIBE" {
			l = &c.channels
		}
		names := args[1:]
		if len(names) == 0 {
			names = append([]string{}, *l...)
		}
		for _, a := range names {
			for i, k := range *l {
				if k == a {
					*l = append((*l)[:i:i], (*l)[i+1:]...)
					break
				}
			}
			o += "*3\r\n" + bulk(strings.ToLower(cmd)) + bulk(a) + num(len(c.patterns)+len(c.channels))
		}
		return o
	case "PUBLISH":
		n := 0
		for _, o := range s.conns {
			var push []string
			for _, ch := range o.channels {
				if ch == args[1] {
					push = append(push, "*3\r\n"+bulk("message")+bulk(ch)+bulk(args[2]))
				}
			}
			for _, pt := range o.patterns {
				if globMatch(pt, args[1]) {
					push = append(push, "*4\r\n"+bulk("pmessage")+bulk(pt)+bulk(args[1])+bulk(args[2]))
				}
			}
			n += len(push)
			if len(push) == 0 {
				continue
			}
			deliver := func() {
				if !o.closed {
					o.out = append(o.out, strings.Join(push, "")...)
					o.signal()
				}
			}
			if s.slow > 0 {
				time.AfterFunc(s.slow, deliver)
			} else {
				deliver()
			}
		}
		return num(n)
	}
	return "-ERR unknown command '" + args[0] + "'\r\n"
}

// globMatch is Redis' pattern matching. Unlike in path.Match, a star matches slashes.
func globMatch(pattern, s string) bool {
	sub := func(s string) string { return strings.ReplaceAll(s, "/", "\x01") }
	ok, err := path.Match(sub(pattern), sub(s))
	return ok && err == nil
}

type redisRun struct {
	x       *X
	w       Wire
	sim     *redisSim
	servers []signalr.Server
	recs    []*castRec
	peers   map[string]*Peer
	at      map[string]int // the server of a connection which is up
	groups  map[string]map[string]bool
	want    map[string]map[string]int
	stops   []context.CancelFunc
	ghosts  map[string]bool // ids added to groups while they were not connected
	n       int
}

func (r *redisRun) client() *redis.Client {
	c := redis.NewClient(&redis.Options{Addr: "127.0.0.1:6379", Dialer: r.sim.dial, Protocol: 2, DisableIdentity: true, PoolSize: 64, MaxRetries: 1,
		MaintNotificationsConfig: &maintnotifications.Config{Mode: maintnotifications.ModeDisabled}})
	r.x.Cleanup(func() { _ = c.Close() })
	return c
}

func (r *redisRun) server() {
	rec := &castRec{hubs: map[string]*castHub{}}
	s, stop := newServer(r.x, signalr.HubFactory(func() signalr.HubInterface { return &castHub{r: rec} }),
		ext.WithRedisHubLifetimeManager(r.client(), nopLogger{}))
	r.servers, r.recs, r.stops = append(r.servers, s), append(r.recs, rec), append(r.stops, stop)
	// until the server has subscribed
	r.x.Settle(time.Second)
}

func redisStart(x *X, w Wire, servers int, at ...int) *redisRun {
	r := &redisRun{x: x, w: w, sim: &redisSim{x: x, sets: map[string]map[string]bool{}}, peers: map[string]*Peer{}, at: map[string]int{},
		groups: map[string]map[string]bool{}, want: map[string]map[string]int{}, ghosts: map[string]bool{}}
	quietly(x, func() {
		for i := 0; i < servers; i++ {
			r.server()
		}
		for i, s := range at {
			r.connect(fmt.Sprint("p", i), s)
		}
	})
	return r
}

func (r *redisRun) connect(id string, server int) {
	r.peers[id] = connectPeer(r.x, r.servers[server], id, r.w)
	r.at[id] = server
	r.want[id] = map[string]int{}
}

func (r *redisRun) ups() (out []string) {
	for id := range r.at {
		out = append(out, id)
	}
	sort.Strings(out)
	return
}

// hub is the hub of some connection of the server.
func (r *redisRun) hub(server int) *castHub {
	for _, id := range r.ups() {
		if r.at[id] == server {
			return r.recs[server].hubs[id]
		}
	}
	return nil
}

func (r *redisRun) tok(what string) string { r.n++; return fmt.Sprint(what, r.n) }

func (r *redisRun) expect(tok string, ids ...string) {
	for _, id := range ids {
		if _, ok := r.at[id]; ok {
			r.want[id][tok]++
		}
	}
}

func (r *redisRun) check() {
	r.x.Idle()
	for _, id := range r.ups() {
		got := tokens(r.x, r.peers[id])
		if fmt.Sprint(got) != fmt.Sprint(r.want[id]) {
			r.x.Fail("delivery", "%s on server %d got %v, want %v (groups %v)", id, r.at[id], got, r.want[id], r.groups)
		}
		if r.peers[id].Served {
			r.x.Fail("dead", "%s ended: %v", id, r.peers[id].ServeErr)
		}
	}
}

func (r *redisRun) add(server int, g, id string) {
	if h := r.hub(server); h != nil {
		h.Add(g, id)
		if _, ok := r.at[id]; ok {
			if r.groups[g] == nil {
				r.groups[g] = map[string]bool{}
			}
			r.groups[g][id] = true
		} else {
			r.ghosts[id] = true
		}
	}
}

// again ends all connections and connects them again to the other server. They are in no groups.
func (r *redisRun) again(groups ...string) {
	ids := r.ups()
	for _, id := range castIDs {
		if _, up := r.at[id]; !up && r.peers[id] != nil {
			ids = append(ids, id)
		}
	}
	was := map[string]int{}
	for k, v := range r.at {
		was[k] = v
	}
	for _, id := range r.ups() {
		r.drop(id)
	}
	r.x.Settle(100 * ms)
	for _, id := range ids {
		if !r.ghosts[id] {
			r.connect(id, (was[id]+1)%len(r.servers))
		}
	}
	r.probe(groups...)
}

func (r *redisRun) rem(server int, g, id string) {
	if h := r.hub(server); h != nil {
		h.Rem(g, id)
		delete(r.groups[g], id)
	}
}

func (r *redisRun) drop(id string) {
	if _, ok := r.at[id]; ok {
		r.check()
		r.peers[id].Close()
		r.x.Idle()
		delete(r.at, id)
		for _, g := range r.groups {
			delete(g, id)
		}
	}
}

func (r *redisRun) members(g string) []string { return sortedKeys(r.groups[g]) }

// probe sends one message of each kind from each server, and from outside of it.
func (r *redisRun) probe(groups ...string) {
	for s := range r.servers {
		for out := 0; out < 2; out++ {
			clients := r.servers[s].HubClients()
			if out == 1 {
				h := r.hub(s)
				if h == nil {
					continue
				}
				clients = h.Clients()
			}
			t := r.tok("all")
			clients.All().Send("t", t)
			r.expect(t, r.ups()...)
			for _, g := range groups {
				t := r.tok("grp")
				clients.Group(g).Send("t", t)
				r.expect(t, r.members(g)...)
			}
			for _, id := range r.ups() {
				t := r.tok("one")
				clients.Client(id).Send("t", t)
				r.expect(t, id)
			}
			clients.Group("nogroup").Send("t", "x1")
			clients.Client("ghost").Send("t", "x2")
			clients.Client("").Send("t", "x3")
		}
	}
	for i, id := range r.ups() {
		p := r.peers[id]
		t := r.tok("me")
		p.Feed(r.w.Inv(1, "", "me", []any{t}, nil))
		r.expect(t, id)
		n := len(NoPing(p.Msgs()))
		r.x.Idle()
		n = len(NoPing(p.Msgs()))
		p.Feed(r.w.Inv(1, "v", "val", []any{i}, nil))
		r.x.Idle()
		ms := NoPing(p.Msgs())[n:]
		if len(ms) != 1 || ms[0].Type != 3 || !same(ms[0].Result, i*10) {
			r.x.Fail("alive", "%s: %v", id, ms)
		}
	}
	r.check()
}

var redisGroups = []string{"A", "a"}

var redisOps = func() (out []string) {
	for s := 0; s < 2; s++ {
		for _, g := range redisGroups {
			for _, id := range castIDs {
				out = append(out, fmt.Sprintf("add %d %s %s", s, g, id), fmt.Sprintf("rem %d %s %s", s, g, id))
			}
		}
		out = append(out, fmt.Sprintf("conn %d", s), fmt.Sprintf("send %d", s))
	}
	for _, id := range castIDs {
		out = append(out, "drop 0 "+id)
	}
	return
}()

// wait lets seconds pass. The clients send pings.
func (r *redisRun) wait(seconds int) {
	for i := 0; i < seconds; i++ {
		r.x.Settle(time.Second)
		if i%5 == 4 {
			for _, id := range r.ups() {
				r.peers[id].Feed(r.w.Ping())
			}
		}
	}
}

func (r *redisRun) do(op string) {
	f := strings.Fields(op)
	s, _ := strconv.Atoi(f[1])
	switch f[0] {
	case "add":
		r.add(s, f[2], f[3])
	case "rem":
		r.rem(s, f[2], f[3])
	case "conn":
		r.n++
		r.connect(fmt.Sprint("q", r.n), s)
		r.add(s, "A", fmt.Sprint("q", r.n))
	case "drop":
		r.drop(f[2])
	case "send":
		if h := r.hub(s); h != nil {
			t := r.tok("grp")
			h.Grp("A", t)
			r.expect(t, r.members("A")...)
		}
	}
	r.x.Idle()
}

func redisHistory(w Wire, name string, n int, thorough bool) *Scenario {
	dims := make([]int, n)
	for i := range dims {
		dims[i] = len(redisOps)
	}
	return &Scenario{Name: name + "/" + w.Name(), Dims: dims, Quick: 0, Full: 0, NoPoints: true, OnlyFull: thorough,
		Body: func(x *X) {
			r := redisStart(x, w, 2, 0, 0, 1)
			for _, o := range x.D {
				r.do(redisOps[o])
			}
			r.probe(redisGroups...)
			x.Ev("%v", r.want)
			r.again(redisGroups...)
		}}
}

// redisNames are names of groups, some of which mean something to Redis.
var redisNames = []string{"A", "", "*", "A*", "?", "[A]", "x:y", "A/b", "all", "signalr:all", "\u00fc \n\x00", "members:A", strings.Repeat("g", 3000)}

type redisStruct struct {
	F string         `json:"f"`
	N int            `json:"n,omitempty"`
	M map[string]int `json:"m"`
}

// redisValues are arguments and what a client sees. Bytes and times have a representation of their own in MessagePack.
var redisValues = []struct {
	v, want  any
	onlyJSON bool
}{
	{nil, nil, false}, {true, true, false}, {0, 0, false}, {-1, -1, false}, {1 << 31, 1 << 31, false}, {int64(1<<53 + 1), int64(1<<53 + 1), false},
	{int64(math.MaxInt64), int64(math.MaxInt64), false}, {int64(math.MinInt64), int64(math.MinInt64), false}, {uint64(math.MaxUint64), uint64(math.MaxUint64), false},
	{1.5, 1.5, false}, {-0.1, -0.1, false}, {1e300, 1e300, false}, {"", "", false}, {"s", "s", false}, {"<a&b>\x1e\u2028\"\\ü", "<a&b>\x1e\u2028\"\\ü", false},
	{[]any{}, []any{}, false}, {[]any{1, "x", nil, []any{int64(1<<53 + 1)}}, []any{1, "x", nil, []any{int64(1<<53 + 1)}}, false},
	{[]int{1, 2}, []any{1, 2}, false}, {map[string]any{"a": 1, "B": nil, "": []any{}}, map[string]any{"a": 1, "B": nil, "": []any{}}, false},
	{map[string]any{"i": int64(1<<53 + 1)}, map[string]any{"i": int64(1<<53 + 1)}, false},
	{redisStruct{F: "x"}, map[string]any{"f": "x", "m": nil}, false}, {&redisStruct{N: 1, M: map[string]int{"k": 2}}, map[string]any{"f": "", "n": 1, "m": map[string]any{"k": 2}}, false},
	{[]byte("ab"), "YWI=", true},
}

// redisFaults are messages of others on the channels.
var redisFaults = []string{"", "x", "null", "[]", "5", "{}", `{"t":5}`, `{"t":"t","a":5}`, `{"t":"t","a":["f"],"c":5}`, `{"t":"t","a":["f"],"c":"ghost"}`, `{"t":"t","a":["f"],"e":["p0","p1","p2"]}`,
	`{"t":"t","a":["f"],"g":"nogroup"}`, `{"t":"t","a":["f"],"c":"p0","e":["p0"]}`}

// exactJSON is the JSON form of v, with numbers as text.
func exactJSON(v any) (out any) {
	b, _ := json.Marshal(v)
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	_ = d.Decode(&out)
	if out == nil {
		return []any{}
	}
	return out
}

// exactArgs are the arguments of the only invocation a peer got.
func exactArgs(x *X, p *Peer) any {
	for _, rec := range bytes.Split(p.out[p.hsLen:], []byte{0x1e}) {
		var m struct {
			Type      int             `json:"type"`
			Arguments json.RawMessage `json:"arguments"`
		}
		if json.Unmarshal(rec, &m) == nil && m.Type == 1 {
			return exactJSON(m.Arguments)
		}
	}
	return nil
}

func init() {
	register(&Property{ID: "C23", Title: "Redis",
		Rule: "history: every sequence of two or three (thorough: up to three, both protocols) of 31 operations (add/remove each of three connections on two servers to two groups from either server, connect, disconnect, group send) on servers sharing a simulated Redis, compared with a reference model, " +
			"followed by one message of every kind from a hub and from outside on each server, then all connections end, connect again to the other server with the same ids, and the messages are sent again; names: all pairs of 13 group names; values: all pairs of 23 arguments; concurrent: messages while members are added, removed, disconnected or connected on the same and on the other server, all schedules with bounded deviations; " +
			"outage: connections to Redis lost at any point; stop: a server ends; foreign: messages which others publish.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			js, mp := wires[0], wires[1]
			out = append(out, redisHistory(js, "history2", 2, false), redisHistory(mp, "history2", 2, false), redisHistory(js, "history3", 3, false), redisHistory(mp, "history3", 3, true))
			for _, w := range wires {
				w := w
				out = append(out,
					&Scenario{Name: "names/" + w.Name(), Dims: []int{len(redisNames), len(redisNames), 2}, Quick: 0, Full: 0, NoPoints: true, Body: func(x *X) {
						r := redisStart(x, w, 2, 0, 0, 1)
						a, b := redisNames[x.D[0]], redisNames[x.D[1]]
						r.add(x.D[2], a, "p0")
						r.add(1, b, "p2")
						r.add(0, b, "p1")
						r.probe(a, b)
						r.rem(0, b, "p2")
						r.probe(a, b)
						r.drop("p1")
						r.probe(a, b)
						r.again(a, b)
					}},
					&Scenario{Name: "values/" + w.Name(), Dims: []int{len(redisValues), len(redisValues) + 1, 3}, Quick: 0, Full: 0, NoPoints: true, Body: func(x *X) {
						r := redisStart(x, w, 2, 0, 1)
						r.add(0, "A", "p0")
						r.add(0, "A", "p1")
						var args, want []any
						for _, d := range x.D[:2] {
							if d == len(redisValues) || redisValues[d].onlyJSON && w.Name() != "json" {
								continue
							}
							args, want = append(args, redisValues[d].v), append(want, redisValues[d].want)
						}
						c := r.hub(0).Clients()
						proxies := []signalr.ClientProxy{c.All(), c.Group("A"), c.Client("p1")}
						proxies[x.D[2]].Send("t", args...)
						x.Idle()
						for _, id := range []string{"p0", "p1"} {
							ms := NoPing(r.peers[id].Msgs())
							if x.D[2] == 2 && id == "p0" {
								if len(ms) > 0 {
									x.Fail("leak", "%v", ms)
								}
								continue
							}
							if len(ms) != 1 || ms[0].Type != 1 || ms[0].ID != "" || ms[0].Target != "t" || len(ms[0].Args) != len(want) {
								x.Fail("delivery", "%s got %v, want %v", id, ms, want)
								continue
							}
							if w.Name() == "json" {
								if got, want := exactArgs(x, r.peers[id]), exactJSON(want); !reflect.DeepEqual(got, want) {
									x.Fail("value", "%s got %v, want %v", id, got, want)
								}
								continue
							}
							for i := range want {
								if !same(ms[0].Args[i], want[i]) {
									x.Fail("value", "%s got %v, want %v", id, ms[0].Args[i], want[i])
								}
							}
						}
					}},
					// kind of message x concurrent operation x other concurrent operation
					&Scenario{Name: "concurrent/" + w.Name(), Dims: []int{4, 7, 7}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[1] <= d[2] },
						Body: func(x *X) {
							r := redisStart(x, w, 2, 0, 1, 1)
							quietly(x, func() {
								// p0 is a member of A all the time, p1 of a
								r.add(0, "A", "p0")
								r.add(0, "a", "p1")
							})
							h0, h1 := r.hub(0), r.hub(1)
							go func() {
								switch x.D[0] {
								case 0:
									h0.Clients().All().Send("t", "x")
								case 1:
									h1.Clients().Group("A").Send("t", "x")
								case 2:
									r.servers[0].HubClients().Group("a").Send("t", "x")
								case 3:
									h1.Clients().Client("p0").Send("t", "x")
								}
							}()
							did := map[int]bool{x.D[1]: true, x.D[2]: true}
							for k := range did {
								_ = k
							}
							var q *Peer
							for k := 1; k < 7; k++ {
								if !did[k] {
									continue
								}
								switch k {
								case 1:
									go h0.Add("A", "p1")
								case 2:
									go h1.Rem("a", "p1")
								case 3:
									go r.peers["p1"].Close()
								case 4:
									r.recs[1].onConnect = func(h *castHub, id string) { h.Add("A", id) }
									q = startPeer(x, r.servers[1], "q", w)
									q.Feed(hsReq(w))
								case 5:
									go h0.Clients().Group("a").Send("t", "other")
								case 6:
									go h1.Add("A", "p2")
								}
							}
							x.Idle()
							x.Settle(time.Second)
							if q != nil {
								q.hsLen = len("{}\x1e")
								r.peers["q"], r.at["q"] = q, 1
							}
							var always, could []string
							switch x.D[0] {
							case 0:
								always, could = []string{"p0", "p2"}, []string{"p0", "p1", "p2", "q"}
								if !did[3] {
									always = append(always, "p1")
								}
							case 1:
								always, could = []string{"p0"}, []string{"p0", "q"}
								if did[1] {
									could = append(could, "p1")
								}
								if did[6] {
									could = append(could, "p2")
								}
							case 2:
								could = []string{"p1"}
								if !did[2] && !did[3] {
									always = could
								}
							case 3:
								always, could = []string{"p0"}, []string{"p0"}
							}
							var evs []string
							for _, id := range r.ups() {
								got := tokens(x, r.peers[id])["x"]
								evs = append(evs, fmt.Sprint(id, got))
								if got > 1 {
									x.Fail("twice", "%s got the message %d times", id, got)
								}
								if slices.Contains(always, id) && got != 1 {
									x.Fail("missing", "%s got nothing", id)
								}
								if !slices.Contains(could, id) && got > 0 {
									x.Fail("leak", "%s got the message", id)
								}
							}
							// afterwards the membership is settled
							if did[3] {
								delete(r.at, "p1")
								delete(r.groups["a"], "p1")
							} else {
								if did[1] {
									r.groups["A"]["p1"] = true
								}
								if did[2] {
									delete(r.groups["a"], "p1")
								}
							}
							if did[4] {
								r.groups["A"]["q"] = true
							}
							if did[6] {
								r.groups["A"]["p2"] = true
							}
							for _, id := range r.ups() {
								r.want[id] = tokens(x, r.peers[id])
							}
							quietly(x, func() { r.probe(redisGroups...) })
							x.Ev("%v", evs)
						}},
					// membership of one connection changed from several goroutines
					&Scenario{Name: "membership/" + w.Name(), Dims: []int{4, 4, 4}, Quick: 1, Full: 2, Body: func(x *X) {
						r := redisStart(x, w, 2, 0, 1)
						groups := []string{"A", "b", "c"}
						h := []*castHub{r.hub(0), r.hub(1)}
						quietly(x, func() {
							for i, d := range x.D {
								if d >= 2 {
									r.add(0, groups[i], "p0")
								}
							}
						})
						for i, d := range x.D {
							g := groups[i]
							if r.groups[g] == nil {
								r.groups[g] = map[string]bool{}
							}
							go func() {
								if d < 2 {
									h[d%2].Add(g, "p0")
								} else {
									h[d%2].Rem(g, "p0")
								}
							}()
							if d < 2 {
								r.groups[g]["p0"] = true
							} else {
								delete(r.groups[g], "p0")
							}
						}
						x.Settle(time.Second)
						quietly(x, func() { r.probe(groups...); r.again(groups...) })
					}},
					// a connection ends while others put it into groups or take it out
					&Scenario{Name: "leave/" + w.Name(), Dims: []int{6, 2}, Quick: 1, Full: 2, Body: func(x *X) {
						r := redisStart(x, w, 2, 0, 0, 1)
						h0, h1, h2 := r.recs[0].hubs["p0"], r.recs[0].hubs["p1"], r.hub(1)
						quietly(x, func() {
							r.add(0, "A", "p0")
							r.add(0, "A", "p1")
							r.add(1, "A", "p2")
						})
						go func() {
							switch x.D[0] {
							case 0:
								h1.Add("b", "p0")
							case 1:
								h1.Rem("A", "p0")
							case 2:
								h2.Add("b", "p0")
							case 3:
								h2.Rem("A", "p0")
							case 4:
								h0.Add("b", "p0")
								h0.Rem("A", "p0")
							case 5:
								h1.Add("b", "p1")
							}
						}()
						if x.D[0] == 5 {
							r.groups["b"] = map[string]bool{"p1": true}
						}
						if x.D[1] == 0 {
							r.peers["p0"].Close()
						} else {
							r.peers["p0"].Feed(w.Close("", false))
						}
						x.Settle(10 * time.Second)
						if !r.peers["p0"].Served {
							x.Fail("serving", "p0 is still served")
						}
						delete(r.at, "p0")
						delete(r.groups["A"], "p0")
						quietly(x, func() { r.probe("A", "b") })
					}},
					// the connections to Redis end
					&Scenario{Name: "outage/" + w.Name(), Dims: []int{3, 3, 2}, Quick: 1, Full: 2, Body: func(x *X) {
						r := redisStart(x, w, 2, 0, 1)
						quietly(x, func() { r.add(0, "A", "p0"); r.add(1, "A", "p1") })
						if x.D[2] == 1 {
							quietly(x, func() { r.probe("A") })
						}
						go func() {
							switch x.D[0] {
							case 1:
								r.hub(0).Clients().All().Send("t", "x")
							case 2:
								r.hub(1).Clients().Group("A").Send("t", "x")
							}
						}()
						if x.D[1] > 0 {
							r.sim.down = true
							x.Cleanup(func() { r.sim.down = true })
						}
						r.sim.drop()
						r.wait([]int{0, 1, 20}[x.D[1]])
						r.sim.down = false
						r.wait(30)
						// commands find out that the pooled connections have ended
						for i := 0; i < 8; i++ {
							for _, s := range r.servers {
								s.HubClients().Group("nogroup").Send("t", "x")
							}
						}
						for _, id := range r.ups() {
							got := tokens(x, r.peers[id])
							if got["x"] > 1 && x.D[0] != 0 {
								x.Ev("twice")
							}
							r.want[id] = got
						}
						quietly(x, func() { r.probe("A") })
					}},
					// a server ends
					&Scenario{Name: "stop/" + w.Name(), Dims: []int{2, 3}, Quick: 1, Full: 2, Body: func(x *X) {
						r := redisStart(x, w, 2, 0, 1, 1)
						quietly(x, func() { r.add(0, "A", "p0"); r.add(1, "A", "p1") })
						r.sim.slow = time.Duration(x.D[0]) * time.Second
						h := r.hub(x.D[1] % 2)
						if x.D[1] < 2 {
							go h.Clients().All().Send("t", "x")
						}
						go r.stops[1]()
						x.Settle(10 * time.Second)
						r.sim.slow = 0
						for _, id := range []string{"p1", "p2"} {
							if !r.peers[id].Served {
								x.Fail("serving", "%s is still served", id)
							}
							delete(r.at, id)
							delete(r.groups["A"], id)
						}
						got := tokens(x, r.peers["p0"])
						if got["x"] > 1 || x.D[1] == 0 && got["x"] != 1 {
							x.Fail("delivery", "%v", got)
						}
						r.want["p0"] = got
						r.servers = r.servers[:1]
						quietly(x, func() { r.probe("A"); r.again("A") })
					}},
					&Scenario{Name: "foreign/" + w.Name(), Dims: []int{len(redisFaults), 3}, Quick: 0, Full: 1, Body: func(x *X) {
						r := redisStart(x, w, 2, 0, 1)
						r.add(0, "A", "p0")
						ch := []string{"signalr:all", "signalr:group:A", "signalr:group:"}[x.D[1]]
						if err := r.client().Publish(context.Background(), ch, redisFaults[x.D[0]]).Err(); err != nil {
							x.Fail("publish", "%v", err)
						}
						x.Idle()
						// one which is well-formed and addresses nobody else might reach clients
						for _, id := range r.ups() {
							n := len(NoPing(r.peers[id].Msgs()))
							r.want[id] = map[string]int{}
							if n > 0 && x.D[0] > 6 {
								x.Fail("leak", "%q on %q reached %s: %v", redisFaults[x.D[0]], ch, id, r.peers[id].Msgs())
							}
							r.peers[id].hsLen = len(r.peers[id].out)
						}
						r.probe(redisGroups...)
					}},
				)
			}
			return out
		}})
}
