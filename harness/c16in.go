package main

import (
	"fmt"
	"io"
	"time"

	"github.com/philippseith/signalr"
)

// C16: calls from inside of the receiver's methods, which wait for their outcome.

type insideRecv struct {
	signalr.Receiver
	x     *X
	ended []string
}

var insideKinds = []string{"invoke", "send", "pull", "push", "state"}

// Ask makes the call of this kind, waits for its end, and returns what it yielded.
func (r *insideRecv) Ask(kind, target string) string {
	var got []any
	errs := 0
	add := func(v any, err error) {
		if err != nil {
			errs++
		} else if v != nil {
			got = append(got, v)
		}
	}
	switch kind {
	case "invoke":
		for v := range r.Server().Invoke(target, 1) {
			add(v.Value, v.Error)
		}
	case "send":
		for err := range r.Server().Send(target, 1) {
			add(nil, err)
		}
	case "pull":
		for v := range r.Server().PullStream(target, 1) {
			add(v.Value, v.Error)
		}
	case "push":
		up := make(chan int, 1)
		up <- 5
		close(up)
		for v := range r.Server().PushStreams(target, up) {
			add(v.Value, v.Error)
		}
	case "state":
		add(int(r.Server().State()), nil)
	}
	out := fmt.Sprintf("%s %v %d", kind, got, errs)
	r.ended = append(r.ended, out)
	return out
}

func runInside(x *X, w Wire) {
	rcv := &insideRecv{x: x}
	s := newClient(x, w, signalr.WithReceiver(rcv))
	s.Connect()
	kinds := []string{insideKinds[x.D[0]], insideKinds[x.D[1]]}
	for i, k := range kinds {
		s.Feed(w.Inv(1, fmt.Sprint("r", i), "ask", []any{k, fmt.Sprint("in", i)}, nil))
		if x.D[4] == 0 {
			x.Idle()
		}
	}
	outer := startCall(s, false, "outer")
	x.Idle()
	ids := s.ids()
	want := make([]string, 2)
	answer := func(i int) {
		id := ids[fmt.Sprint("in", i)]
		switch k := kinds[i]; k {
		case "state":
			want[i] = fmt.Sprintf("%s [%d] 0", k, signalr.ClientConnected)
			return
		case "send":
			s.Feed(w.Completion(id, nil, false, ""))
			want[i] = "send [] 0"
		case "pull":
			s.Feed(w.Item(id, "i1"))
			s.Feed(w.Item(id, "i2"))
			s.Feed(w.Completion(id, nil, false, ""))
			want[i] = "pull [i1 i2] 0"
		default:
			s.Feed(w.Completion(id, fmt.Sprint("v", i), true, ""))
			want[i] = fmt.Sprintf("%s [v%d] 0", k, i)
		}
		if x.D[4] == 0 {
			x.Idle()
		}
	}
	fail := func(i int) {
		id := ids[fmt.Sprint("in", i)]
		if kinds[i] == "state" {
			answer(i)
			return
		}
		s.Feed(w.Completion(id, nil, false, "no"))
		want[i] = kinds[i] + " [] 1"
	}
	order := []int{0, 1}
	if x.D[2] == 1 {
		order = []int{1, 0}
	}
	switch x.D[3] {
	case 0:
		answer(order[0])
		answer(order[1])
	case 1:
		fail(order[0])
		answer(order[1])
	case 2:
		// the connection ends while one method is waiting
		answer(order[0])
		s.FeedErr(io.EOF)
	case 3:
		s.FeedErr(io.EOF)
	}
	if x.D[3] < 2 {
		x.Settle(8 * time.Second)
	} else {
		x.Settle(40 * time.Second)
		// what has been answered, has been answered. Everything else ended with an error
		if len(rcv.ended) != 2 {
			x.Fail("inside-open", "%d of 2 receiver methods came back: %v", len(rcv.ended), rcv.ended)
			return
		}
		for i, k := range kinds {
			ok := false
			lost := fmt.Sprintf("%s [] 1", k)
			for _, e := range rcv.ended {
				if k == "state" {
					ok = true
				} else if want[i] != "" {
					ok = ok || e == want[i]
				} else {
					ok = ok || e == lost
				}
			}
			if !ok {
				x.Fail("inside-lost", "the calls of the receiver methods yielded %v, want %q", rcv.ended, []string{want[i], lost})
			}
		}
		outer.judge(x, outcome{kind: "error"})
		x.Ev("%v", rcv.ended)
		return
	}
	for i := range kinds {
		id := fmt.Sprint("r", i)
		n := 0
		for _, m := range s.Msgs() {
			if m.Type == 3 && m.ID == id {
				n++
				if m.Error != "" || !same(m.Result, want[i]) {
					x.Fail("inside-result", "the receiver method %d completes with %v, want %q", i, m, want[i])
				}
			}
		}
		if n != 1 {
			x.Fail("inside-completion", "%d completions of the receiver method %d (%s), sent %v", n, i, kinds[i], s.Msgs())
		}
	}
	outer.pending(x)
	s.Feed(w.Completion(ids["outer"], "ov", true, ""))
	x.Idle()
	outer.judge(x, outcome{kind: "value", val: "ov"})
	aliveClient(x, s)
	x.Ev("%v", rcv.ended)
}
