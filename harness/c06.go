package main

import (
	"fmt"
	"strings"

	"github.com/philippseith/signalr"
)

// C06: what an invocation runs.

type sigRec struct {
	calls []string
}

func (r *sigRec) run(name string, args ...any) string {
	k := len(r.calls)
	r.calls = append(r.calls, "")
	var l []string
	for _, a := range args {
		switch a := a.(type) {
		case <-chan int:
			var items []int
			for v := range a {
				items = append(items, v)
			}
			l = append(l, fmt.Sprint("c", items))
		case chan string:
			var items []string
			for v := range a {
				items = append(items, v)
			}
			l = append(l, fmt.Sprint("d", items))
		default:
			l = append(l, fmt.Sprintf("%#v", a))
		}
	}
	r.calls[k] = name + "(" + strings.Join(l, ",") + ")"
	return r.calls[k]
}

type sigHub struct {
	signalr.Hub
	r *sigRec
}

func (h *sigHub) run(name string, args ...any) string { return h.r.run(name, args...) }

type sigReceiver struct{ r *sigRec }

func (h *sigReceiver) run(name string, args ...any) { h.r.run(name, args...) }

// argument values, and whether they convert: yes, no, or left open
type sigArg struct {
	v any
	// per parameter kind
	i, s   byte // 'y', 'n', '?'
	ri, rs string
}

var sigArgs = []sigArg{
	{7, 'y', 'n', "7", ""},
	{"x", 'n', 'y', "", `"x"`},
	{true, 'n', 'n', "", ""},
	{nil, '?', '?', "0", `""`},
	{1.5, '?', 'n', "1", ""}, // JSON does not convert it, MessagePack truncates it
	{[]any{1}, 'n', 'n', "", ""},
	{map[string]any{"a": 1}, 'n', 'n', "", ""},
	{"7", 'n', 'y', "", `"7"`},
	{-3, 'y', 'n', "-3", ""},
}

// sigCase tells what has to happen: want is the call that may run; must and mustNot tell whether it has to.
func sigExpect(name string, args []sigArg, streams int) (want string, may, must bool) {
	vals, chans := 0, 0
	var l []string
	may, must = true, true
	for _, k := range name {
		if k == 'c' || k == 'd' {
			if k == 'c' {
				l = append(l, fmt.Sprintf("c[%d %d]", 10*chans+1, 10*chans+2))
			} else {
				l = append(l, fmt.Sprintf("d[s%d t%d]", chans, chans))
			}
			chans++
			continue
		}
		if vals >= len(args) {
			return "", false, false
		}
		a := args[vals]
		vals++
		c, r := a.i, a.ri
		if k == 's' {
			c, r = a.s, a.rs
		}
		if c == 'n' {
			return "", false, false
		}
		if c == '?' {
			must = false
		}
		l = append(l, r)
	}
	if vals != len(args) || chans != streams {
		return "", false, false
	}
	return name + "(" + strings.Join(l, ",") + ")", may, must
}

func sigList(n int, dims []int) ([]sigArg, []any) {
	var l []sigArg
	var v []any
	for i := 0; i < n; i++ {
		a := sigArgs[dims[i]]
		l = append(l, a)
		v = append(v, a.v)
	}
	return l, v
}

// sigFeed sends what the streams of a matching invocation carry.
func sigItems(w Wire, name, prefix string) (b []byte) {
	var end []byte
	chans := 0
	for _, k := range name {
		id := fmt.Sprint(prefix, chans)
		switch k {
		case 'c':
			b = append(append(b, w.Item(id, 10*chans+1)...), w.Item(id, 10*chans+2)...)
		case 'd':
			b = append(append(b, w.Item(id, fmt.Sprint("s", chans))...), w.Item(id, fmt.Sprint("t", chans))...)
		default:
			continue
		}
		end = append(end, w.Completion(id, nil, false, "")...)
		chans++
	}
	return append(b, end...)
}

func sigStreams(prefix string, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprint(prefix, i))
	}
	return l
}

func runSig(x *X, w Wire, name string, args []sigArg, vals []any, streams, idKind int, client bool) {
	r := &sigRec{}
	var feed func([]byte)
	var msgs func() []Msg
	var ended func() bool
	if client {
		c := newClient(x, w, signalr.WithReceiver(&sigReceiver{r}))
		c.Connect()
		feed, msgs, ended = c.Feed, c.Msgs, func() bool { return c.C.State() != signalr.ClientConnected }
	} else {
		s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &sigHub{r: r} }))
		p := connectPeer(x, s, "p", w)
		feed, msgs, ended = p.Feed, p.Msgs, func() bool { return p.Served }
	}
	id := []string{"id1", ""}[idKind]
	want, may, must := sigExpect(name, args, streams)
	what := fmt.Sprintf("M%s with %v and %d streams", name, vals, streams)
	feed(w.Inv(1, id, "m"+name, vals, sigStreams("u", streams)))
	x.Idle()
	if len(r.calls) == 1 && may {
		feed(sigItems(w, name, "u"))
		x.Idle()
	}
	ran := len(r.calls) > 0
	if ran && !may {
		x.Fail("called", "%s runs %v", what, r.calls)
	}
	if !ran && must {
		x.Fail("not-called", "%s does not run: %v", what, msgs())
	}
	if ran && may && (len(r.calls) != 1 || r.calls[0] != want) {
		x.Fail("wrong-call", "%s runs %v, want %s", what, r.calls, want)
	}
	ms := NoPing(msgs())
	if id == "" {
		if len(ms) != 0 {
			x.Fail("answer", "%s without id is answered with %v", what, ms)
		}
	} else {
		if len(ms) != 1 || ms[0].Type != 3 || ms[0].ID != id {
			x.Fail("answer", "%s is answered with %v", what, ms)
		} else if ran == (ms[0].Error != "") {
			x.Fail("answer", "%s: called %v, answered with %v", what, ran, ms[0])
		} else if ran && !client && !same(ms[0].Result, want) {
			x.Fail("answer", "%s: result %v", what, ms[0])
		}
	}
	if ended() {
		x.Fail("ended", "%s ends the connection", what)
	}
	// the connection is usable
	n := len(r.calls)
	feed(w.Inv(1, "last", "MSI", []any{"q", 4}, nil))
	x.Idle()
	if len(r.calls) != n+1 || r.calls[n] != `si("q",4)` {
		x.Fail("unusable", "%s: afterwards an invocation runs %v", what, r.calls[n:])
	}
	x.Ev("%v %v", r.calls, ms)
}

// ---- names

type nameHub struct {
	signalr.Hub
	r *sigRec
}

func (h *nameHub) Simple() string     { return h.r.run("Simple") }
func (h *nameHub) SimpleInt() string  { return h.r.run("SimpleInt") }
func (h *nameHub) HTTPGet2() string   { return h.r.run("HTTPGet2") }
func (h *nameHub) A() string          { return h.r.run("A") }
func (h *nameHub) Ärger_Λ() string    { return h.r.run("Ärger_Λ") }
func (h *nameHub) With_under() string { return h.r.run("With_under") }
func (h *nameHub) hidden() string     { return h.r.run("hidden") }

type nameReceiver struct{ r *sigRec }

func (h *nameReceiver) Simple()     { h.r.run("Simple") }
func (h *nameReceiver) SimpleInt()  { h.r.run("SimpleInt") }
func (h *nameReceiver) HTTPGet2()   { h.r.run("HTTPGet2") }
func (h *nameReceiver) A()          { h.r.run("A") }
func (h *nameReceiver) Ärger_Λ()    { h.r.run("Ärger_Λ") }
func (h *nameReceiver) With_under() { h.r.run("With_under") }
func (h *nameReceiver) hidden()     { h.r.run("hidden") }

var _ = (&nameHub{}).hidden
var _ = (&nameReceiver{}).hidden

var methodNames = []string{"Simple", "SimpleInt", "HTTPGet2", "A", "Ärger_Λ", "With_under"}

var alternates = map[string]string{".": "Simple", "#@!": "simpleint", "Simple2": "A", "a b": "HTTPGet2", "": "A", "to-none": "Nothing", "to-hidden": "hidden", "back": "Simple2",
	"Shout": "Simple", "SHOUT": "SimpleInt", "shout": "A"}

type target struct {
	name, want string // want == "": unknown
}

func targets() []target {
	var out []target
	for _, n := range methodNames {
		out = append(out, target{n, n}, target{strings.ToLower(n), n}, target{strings.ToUpper(n), n}, target{lowerFirst(n), n})
		var alt strings.Builder
		for i, r := range n {
			if i%2 == 1 {
				alt.WriteString(strings.ToUpper(string(r)))
			} else {
				alt.WriteString(strings.ToLower(string(r)))
			}
		}
		out = append(out, target{alt.String(), n}, target{" " + n, ""}, target{n + " ", ""}, target{n + "\x00", ""}, target{n + "x", ""}, target{n + ".", ""}, target{"*" + n, ""}, target{n + "()", ""})
	}
	for _, n := range []string{"Simpl", "imple", "hidden", "Hidden", "HIDDEN", "x", "-", "nil", "Simple\nA", "run", "nameHub", "Simple Int", "simple_int", strings.Repeat("simple", 400)} {
		out = append(out, target{n, ""})
	}
	// every name with one rune inserted, replaced or left out, and with prefixes
	known := map[string]bool{}
	for _, n := range methodNames {
		known[strings.ToLower(n)] = true
	}
	seen := map[string]bool{}
	edit := func(n string) {
		if _, ok := alternates[n]; !ok && !known[strings.ToLower(n)] && !seen[n] {
			seen[n] = true
			out = append(out, target{n, ""})
		}
	}
	for _, n := range methodNames {
		rs := []rune(n)
		for i := 0; i <= len(rs); i++ {
			for _, c := range []string{"", ".", "-", "_", "/", "\u0301", "1", "a"} {
				if i < len(rs) {
					edit(string(rs[:i]) + c + string(rs[i+1:]))
				}
				edit(string(rs[:i]) + c + string(rs[i:]))
			}
		}
		for _, c := range []string{"hub.", "nameHub.", "main.nameHub.", "*", "&", "A.", "get", "/", "A,"} {
			edit(c + n)
		}
	}
	for a, n := range map[string]string{".": "Simple", "#@!": "SimpleInt", "Simple2": "A", "a b": "HTTPGet2", "": "A", "to-none": "", "to-hidden": "", "back": "", "Shout": "Simple", "SHOUT": "SimpleInt", "shout": "A", "sHOUT": ""} {
		out = append(out, target{a, n})
	}
	return out
}

func altOpts() (out []func(signalr.Party) error) {
	for a, n := range alternates {
		out = append(out, signalr.WithAlternateMethodName(n, a))
	}
	return
}

// runName invokes targets on a party; other is a party without alternate names in the same process.
func runName(x *X, w Wire, t target, client, alt bool) {
	r := &sigRec{}
	want := t.want
	if _, ok := alternates[t.name]; ok && !alt {
		want = ""
	}
	opts := altOpts()
	if !alt {
		// the names of others don't count
		_, _ = newServer(x, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &nameHub{r: r} }))...)
		opts = nil
	}
	var feed func([]byte)
	var msgs func() []Msg
	if client {
		c := newClient(x, w, append(opts, signalr.WithReceiver(&nameReceiver{r}))...)
		c.Connect()
		feed, msgs = c.Feed, c.Msgs
	} else {
		s, _ := newServer(x, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &nameHub{r: r} }))...)
		p := connectPeer(x, s, "p", w)
		feed, msgs = p.Feed, p.Msgs
	}
	for i := 0; i < 2; i++ {
		r.calls = nil
		n := len(NoPing(msgs()))
		feed(w.Inv(1, fmt.Sprint("i", i), t.name, nil, nil))
		x.Idle()
		ms := NoPing(msgs())[n:]
		if len(ms) != 1 || ms[0].Type != 3 || ms[0].ID != fmt.Sprint("i", i) {
			x.Fail("answer", "target %q is answered with %v", t.name, ms)
			return
		}
		if want == "" {
			if len(r.calls) > 0 {
				x.Fail("called", "target %q runs %v", t.name, r.calls)
			}
			if ms[0].Error == "" {
				x.Fail("answer", "unknown target %q is answered with %v", t.name, ms)
			}
		} else {
			if len(r.calls) != 1 || r.calls[0] != want+"()" {
				x.Fail("wrong-call", "target %q runs %v, want %s", t.name, r.calls, want)
			}
			if ms[0].Error != "" || !client && !same(ms[0].Result, want+"()") {
				x.Fail("answer", "target %q is answered with %v", t.name, ms)
			}
		}
		n = len(ms)
		feed(w.Inv(1, "", t.name, nil, nil))
		x.Idle()
		if (want == "") != (len(r.calls) == 0) || want != "" && len(r.calls) != 2 {
			x.Fail("wrong-call", "target %q without id: %v", t.name, r.calls)
		}
	}
	x.Ev("%q %v", t.name, r.calls)
}

// noReceiver: a client without receiver, or with one without methods, knows no method.
func noReceiver(x *X, w Wire, kind, idKind int) {
	var opts []func(signalr.Party) error
	switch kind {
	case 1:
		opts = append(opts, signalr.WithReceiver(struct{}{}))
	case 2:
		opts = append(opts, signalr.WithReceiver(nil))
	case 3:
		opts = append(opts, signalr.WithReceiver(7))
	}
	c := newClient(x, w, opts...)
	c.Connect()
	id := []string{"1", ""}[idKind]
	c.Feed(w.Inv(1, id, "any", []any{1}, nil))
	x.Idle()
	ms := NoPing(c.Msgs())
	if id == "" && len(ms) > 0 || id != "" && (len(ms) != 1 || ms[0].ID != id || ms[0].Error == "") {
		x.Fail("answer", "without receiver, an invocation is answered with %v", ms)
	}
	aliveClient(x, c)
	x.Ev("%v", ms)
}

// sigPairs: several invocations whose streams overlap.
func sigPairs(x *X, w Wire, n1, n2 string, merge bool) {
	r := &sigRec{}
	s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &sigHub{r: r} }))
	p := connectPeer(x, s, "p", w)
	mk := func(name, prefix, id string) []byte {
		var vals []any
		chans := 0
		for _, k := range name {
			switch k {
			case 'i':
				vals = append(vals, 7)
			case 's':
				vals = append(vals, "x")
			default:
				chans++
			}
		}
		return w.Inv(1, id, "m"+name, vals, sigStreams(prefix, chans))
	}
	want := func(name string) string {
		var l []string
		chans := 0
		for _, k := range name {
			switch k {
			case 'i':
				l = append(l, "7")
			case 's':
				l = append(l, `"x"`)
			case 'c':
				l = append(l, fmt.Sprintf("c[%d %d]", 10*chans+1, 10*chans+2))
				chans++
			case 'd':
				l = append(l, fmt.Sprintf("d[s%d t%d]", chans, chans))
				chans++
			}
		}
		return name + "(" + strings.Join(l, ",") + ")"
	}
	b := append(mk(n1, "u", "1"), mk(n2, "v", "2")...)
	if merge {
		b = append(append(b, sigItems(w, n2, "v")...), sigItems(w, n1, "u")...)
		p.Feed(b)
	} else {
		p.Feed(b)
		p.Feed(sigItems(w, n2, "v"))
		p.Feed(sigItems(w, n1, "u"))
	}
	x.Idle()
	if join(r.calls) != join([]string{want(n1), want(n2)}) {
		x.Fail("wrong-call", "M%s and M%s run %v", n1, n2, r.calls)
	}
	for _, m := range NoPing(p.Msgs()) {
		w := want(n1)
		if m.ID == "2" {
			w = want(n2)
		}
		if m.Type != 3 || m.Error != "" || !same(m.Result, w) {
			x.Fail("answer", "M%s and M%s: %v", n1, n2, m)
		}
	}
	if n := len(NoPing(p.Msgs())); n != 2 {
		x.Fail("answer", "%d answers", n)
	}
	x.Ev("%v", r.calls)
}

func init() {
	register(&Property{ID: "C06", Title: "dispatch",
		Rule: "All argument lists up to length 3 over values of 9 kinds x 0..3 stream ids against 85 methods (every list of up to three parameters of two value and two " +
			"channel types), as hub and as receiver methods, with and without invocation id; all targets from a set of spellings (every method name with one rune inserted, replaced or left out among them) and alternate names; pairs of invocations with " +
			"overlapping streams under bounded deviations. Non-trivial: the calls and answers differ.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			na := len(sigArgs)
			ts := targets()
			pairs := []string{"c", "d", "ic", "cs", "cd", "dc", "cc", "ici", "dsc", "cid"}
			for _, w := range wires {
				w := w
				for _, client := range []bool{false, true} {
					client := client
					side := "server"
					if client {
						side = "client"
					}
					// client: receivers only get invocations with streams from foreign servers
					for n := 0; n <= 3; n++ {
						n := n
						dims := []int{len(sigNames), 4, 2}
						for i := 0; i < n; i++ {
							dims = append(dims, na)
						}
						out = append(out, &Scenario{Name: fmt.Sprintf("%s-args%d/%s", side, n, w.Name()), Dims: dims, NoPoints: true,
							QuickCase: func(d []int) bool {
								// quick: the lists of three values without the most similar ones, and only some mismatches in number
								if n < 3 {
									return true
								}
								for _, a := range d[3:] {
									if a == 2 || a >= 6 {
										return false
									}
								}
								return d[2] == 0 && (d[1] == 0 || len(sigNames[d[0]]) == 3)
							},
							Body: func(x *X) {
								l, v := sigList(n, x.D[3:])
								runSig(x, w, sigNames[x.D[0]], l, v, x.D[1], x.D[2], client)
							}})
					}
					out = append(out, &Scenario{Name: side + "-names/" + w.Name(), Dims: []int{len(ts), 2}, NoPoints: true, Body: func(x *X) {
						runName(x, w, ts[x.D[0]], client, x.D[1] == 1)
					}})
				}
				out = append(out, &Scenario{Name: "types/" + w.Name(), Dims: []int{15, 15, 15}, NoPoints: true, Body: func(x *X) {
					runTypes(x, w, x.D)
				}}, &Scenario{Name: "no-receiver/" + w.Name(), Dims: []int{4, 2}, NoPoints: true, Body: func(x *X) {
					noReceiver(x, w, x.D[0], x.D[1])
				}}, &Scenario{Name: "pairs/" + w.Name(), Dims: []int{len(pairs), len(pairs), 2}, Quick: 0, Full: 1, Body: func(x *X) {
					sigPairs(x, w, pairs[x.D[0]], pairs[x.D[1]], x.D[2] == 1)
				}}, &Scenario{Name: "pairs-sched/" + w.Name(), Dims: []int{3, 2}, Quick: 1, Full: 2, Body: func(x *X) {
					sigPairs(x, w, []string{"c", "cd", "ic"}[x.D[0]], "dsc", x.D[1] == 1)
				}})
			}
			return out
		}})
}

func lowerFirst(s string) string {
	r := []rune(s)
	return strings.ToLower(string(r[:1])) + string(r[1:])
}

// ---- hubs of different types in one process

type typeHubA struct {
	signalr.Hub
	r *sigRec
}

func (h *typeHubA) Alpha(v int) string { return h.r.run("A.Alpha", v) }
func (h *typeHubA) Beta(v int) string  { return h.r.run("A.Beta", v) } // as many methods as typeHubB
func (h *typeHubA) Same(v int) string  { return h.r.run("A.Same", v) }
func (h *typeHubA) Zeta(v int) string  { return h.r.run("A.Zeta", v) }

type typeHubB struct {
	signalr.Hub
	r *sigRec
}

func (h *typeHubB) Aaa(v int) string  { return h.r.run("B.Aaa", v) }
func (h *typeHubB) Ubb(v int) string  { return h.r.run("B.Ubb", v) }
func (h *typeHubB) Same(v int) string { return h.r.run("B.Same", v) }
func (h *typeHubB) Tail(v int) string { return h.r.run("B.Tail", v) }

type typeReceiver struct{ r *sigRec }

func (h *typeReceiver) Same(v int)  { h.r.run("C.Same", v) }
func (h *typeReceiver) Zeta(v int)  { h.r.run("C.Zeta", v) }
func (h *typeReceiver) Alpha(v int) { h.r.run("C.Alpha", v) }

func runTypes(x *X, w Wire, steps []int) {
	r := &sigRec{}
	known := map[string]bool{"A.Alpha": true, "A.Same": true, "A.Zeta": true, "B.Aaa": true, "B.Ubb": true, "B.Same": true, "B.Tail": true, "C.Same": true, "C.Zeta": true, "C.Alpha": true}
	sa, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &typeHubA{r: r} }), signalr.WithAlternateMethodName("Zeta", "alt"))
	sb, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &typeHubB{r: r} }), signalr.WithAlternateMethodName("Same", "alt"))
	c := newClient(x, w, signalr.WithReceiver(&typeReceiver{r}), signalr.WithAlternateMethodName("Alpha", "alt"))
	pa, pb := connectPeer(x, sa, "a", w), connectPeer(x, sb, "b", w)
	c.Connect()
	for i, st := range steps {
		party, m := st%3, []string{"Same", "Alpha", "Zeta", "Tail", "alt"}[st/3]
		r.calls = nil
		id := fmt.Sprint(i)
		b := w.Inv(1, id, strings.ToLower(m), []any{i}, nil)
		var ms func() []Msg
		switch party {
		case 0:
			pa.Feed(b)
			ms = pa.Msgs
		case 1:
			pb.Feed(b)
			ms = pb.Msgs
		default:
			c.Feed(b)
			ms = c.Msgs
		}
		x.Idle()
		if m == "alt" {
			m = []string{"Zeta", "Same", "Alpha"}[party]
		}
		want := []string{"A.", "B.", "C."}[party] + m
		got := fmt.Sprint(r.calls)
		exp := "[]"
		if known[want] {
			exp = fmt.Sprintf("[%s(%d)]", want, i)
		}
		if got != exp {
			x.Fail("wrong-call", "after %v, %s runs %s, want %s", steps[:i], want, got, exp)
		}
		if n := findCompletions(ms(), id); n != 1 {
			x.Fail("answer", "%s answered %d times", want, n)
		}
		x.Ev("%s", got)
	}
}

func findCompletions(ms []Msg, id string) int {
	n := 0
	for _, m := range ms {
		if m.Type == 3 && m.ID == id {
			n++
		}
	}
	return n
}
