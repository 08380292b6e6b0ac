package main

import (
	"fmt"
	"time"

	"github.com/philippseith/signalr"
)

// Scenarios with many of what the others have two or three of: connections, groups, calls, streams.

const crowdMax = 40

// crowdOrders are orders in which n things are ended: as begun, reversed, the odd ones first, the middle ones first.
func crowdOrder(n, kind int) (out []int) {
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			out = append(out, i)
		}
	case 2:
		for s := 1; s >= 0; s-- {
			for i := s; i < n; i += 2 {
				out = append(out, i)
			}
		}
	case 3:
		for i := 0; i < n; i++ {
			out = append(out, (i+n/2)%n)
		}
	}
	return
}

// castCrowd: n connections in two groups, one of them in n groups more, broadcasts of every kind, then every second one leaves.
func castCrowd(w Wire) *Scenario {
	return &Scenario{Name: "crowd/" + w.Name(), Dims: []int{crowdMax, 4}, NoPoints: true, MaxSteps: 10000000, Body: func(x *X) {
		n := x.D[0] + 1
		s, r := castServer(x)
		var ids []string
		peers := map[string]*Peer{}
		want := map[string]map[string]int{}
		in := map[string]map[string]bool{}
		for i := 0; i < n; i++ {
			id := fmt.Sprint("p", i)
			ids = append(ids, id)
			peers[id] = connectPeer(x, s, id, w)
			want[id] = map[string]int{}
		}
		h := r.hubs["p0"]
		add := func(g, id string) {
			h.Add(g, id)
			if in[g] == nil {
				in[g] = map[string]bool{}
			}
			in[g][id] = true
		}
		for i, id := range ids {
			add("all", id)
			if i%2 == 0 {
				add("even", id)
			}
			add("own"+id, id)
			add("own"+id, ids[(i+1)%n])
			add(fmt.Sprint("of the last ", i), ids[n-1])
		}
		toks := 0
		round := func() {
			send := func(to func(id string) bool, c signalr.ClientProxy) {
				toks++
				t := fmt.Sprint("x", toks)
				c.Send("t", t)
				for _, id := range ids {
					if to(id) && peers[id] != nil {
						want[id][t]++
					}
				}
			}
			send(func(string) bool { return true }, s.HubClients().All())
			for _, g := range sortedKeys(in) {
				send(func(id string) bool { return in[g][id] }, s.HubClients().Group(g))
			}
			for _, c := range ids {
				send(func(id string) bool { return id == c }, s.HubClients().Client(c))
			}
			x.Idle()
			for _, id := range ids {
				if p := peers[id]; p != nil {
					if got := tokens(x, p); fmt.Sprint(got) != fmt.Sprint(want[id]) {
						x.Fail("delivery", "%s of %d got %v, want %v", id, n, got, want[id])
					}
				}
			}
		}
		round()
		for k, i := range crowdOrder(n, x.D[1]) {
			id := ids[i]
			switch {
			case k >= (n+1)/2:
			case k%3 == 0 || id == "p0":
				h.Rem("all", id)
				delete(in["all"], id)
			default:
				peers[id].Close()
				peers[id] = nil
				x.Idle()
			}
		}
		round()
		x.Ev("%d", toks)
	}}
}

// callCrowd: n calls of all kinds are open. They are answered in some order, or the connection ends.
func callCrowd(w Wire) *Scenario {
	return &Scenario{Name: "crowd/" + w.Name(), Dims: []int{crowdMax, 4, len(clientEnds) + 1, 2}, NoPoints: true, MaxSteps: 10000000, Body: func(x *X) {
		n, answered := x.D[0]+1, x.D[0]+1
		if x.D[2] > 0 {
			answered = n / 2
		}
		s := newClient(x, w)
		s.Connect()
		var cs []*col
		for i := 0; i < n; i++ {
			name := fmt.Sprint("m", i)
			switch {
			case x.D[3] == 1 && i%4 == 2:
				cs = append(cs, collect(name, s.C.PullStream(name, i)))
			case x.D[3] == 1 && i%4 == 3:
				up := make(chan int)
				x.Cleanup(func() { close(up) })
				cs = append(cs, collect(name, s.C.PushStreams(name, up)))
			default:
				cs = append(cs, startCall(s, i%2 == 1, name))
			}
		}
		x.Idle()
		ids := s.ids()
		if len(ids) != n {
			x.Fail("sent", "%d calls, messages %v", n, s.Msgs())
			return
		}
		for k, i := range crowdOrder(n, x.D[1]) {
			if k == answered {
				break
			}
			name := fmt.Sprint("m", i)
			cs[i].pending(x)
			val := fmt.Sprint("v", i)
			if x.D[3] == 1 && i%4 == 2 {
				s.Feed(append(w.Item(ids[name], val), w.Completion(ids[name], nil, false, "")...))
			} else {
				s.Feed(w.Completion(ids[name], val, true, ""))
			}
			x.Idle()
			cs[i].judge(x, outcome{kind: "value", val: val})
		}
		if x.D[2] > 0 {
			endClient(x, s, clientEnds[x.D[2]-1])
			x.Settle(40 * time.Second)
			for k, i := range crowdOrder(n, x.D[1]) {
				if k >= answered {
					cs[i].judge(x, outcome{kind: "error"})
				}
			}
		}
		x.Ev("%d", len(ids))
	}}
}

type crowdHub struct {
	signalr.Hub
	gates []chan struct{}
}

func (h *crowdHub) Wait(k int) int {
	<-h.gates[k]
	return k * 10
}

// replyCrowd: n invocations are open on a server. They end in some order.
func replyCrowd(w Wire) *Scenario {
	return &Scenario{Name: "crowd/" + w.Name(), Dims: []int{crowdMax, 4, 2}, NoPoints: true, MaxSteps: 10000000, Body: func(x *X) {
		n := x.D[0] + 1
		var gates []chan struct{}
		for i := 0; i < n; i++ {
			gates = append(gates, make(chan struct{}))
		}
		s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &crowdHub{gates: gates} }))
		p := connectPeer(x, s, "p", w)
		var all []byte
		for i := 0; i < n; i++ {
			all = append(all, w.Inv(1, fmt.Sprint(i), "wait", []any{i}, nil)...)
		}
		if x.D[2] == 0 {
			p.Feed(all)
		} else {
			for len(all) > 0 {
				k := min(len(all), 7)
				p.Feed(all[:k])
				all = all[k:]
			}
		}
		x.Idle()
		for k, i := range crowdOrder(n, x.D[1]) {
			close(gates[i])
			x.Idle()
			ms := NoPing(p.Msgs())
			if len(ms) != k+1 {
				x.Fail("completions", "%d of %d methods have ended, sent %v", k+1, n, ms)
				return
			}
			wantResult(x, p, fmt.Sprint(i), i*10)
		}
		x.Ev("%d", n)
	}}
}

// uploadCrowd: n invocations with a stream each are open, their items take turns.
func uploadCrowd(w Wire) *Scenario {
	return &Scenario{Name: "crowd/" + w.Name(), Dims: []int{crowdMax, 4, 3}, NoPoints: true, MaxSteps: 10000000, Body: func(x *X) {
		n := x.D[0] + 1
		s, h := upServer(x, signalr.MaxConcurrentStreams(uint(n)))
		p := connectPeer(x, s, "p", w)
		for i := 0; i < n; i++ {
			name := fmt.Sprint("m", i)
			h.sinks[name] = &sink{}
			p.Feed(w.Inv(1, name, "ints", []any{name}, []string{"s" + name}))
			if x.D[2] == 1 {
				p.Feed(w.Item("s"+name, -1))
			}
			x.Idle()
		}
		order := crowdOrder(n, x.D[1])
		want := make([][]any, n)
		for i := range want {
			if x.D[2] == 1 {
				want[i] = append(want[i], -1)
			}
		}
		for j := 0; j < 3; j++ {
			for _, i := range order {
				p.Feed(w.Item(fmt.Sprint("sm", i), 100*i+j))
				want[i] = append(want[i], 100*i+j)
				if x.D[2] == 2 {
					x.Idle()
				}
			}
		}
		x.Idle()
		for i := 0; i < n; i++ {
			name := fmt.Sprint("m", i)
			h.sinks[name].check(x, name, want[i], false)
		}
		for _, i := range order {
			name := fmt.Sprint("m", i)
			p.Feed(w.Completion("s"+name, nil, false, ""))
			x.Idle()
			h.sinks[name].check(x, name, want[i], true)
			wantResult(x, p, name, len(want[i]))
		}
		alivePump(x, p)
		x.Ev("%d", n)
	}}
}

// pumpCrowd: n streams to one client, some of which are canceled.
func pumpCrowd(w Wire) *Scenario {
	return &Scenario{Name: "crowd/" + w.Name(), Dims: []int{crowdMax, 4, 3}, NoPoints: true, MaxSteps: 10000000, Body: func(x *X) {
		n := x.D[0] + 1
		ps := map[int]*pump{}
		for i := 0; i < n; i++ {
			ps[i] = newPump(0)
		}
		s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &pumpHub{ps: ps} }))
		p := connectPeer(x, s, "p", w)
		for i := 0; i < n; i++ {
			p.Feed(w.Inv(4, fmt.Sprint(i), "pump", []any{i}, nil))
		}
		x.Idle()
		order := crowdOrder(n, x.D[1])
		want := make([][]any, n)
		canceled := map[int]bool{}
		check := func(done int) {
			x.Idle()
			ended := map[int]bool{}
			for k, i := range order {
				ended[i] = k < done
			}
			got := make([][]any, n)
			ends := make([]int, n)
			for _, m := range NoPing(p.Msgs()) {
				var i int
				if _, err := fmt.Sscan(m.ID, &i); err != nil || i >= n || m.Type != 2 && m.Type != 3 || m.Error != "" || ends[i] > 0 {
					x.Fail("message", "%v", m)
					return
				}
				if m.Type == 2 {
					got[i] = append(got[i], m.Item)
				} else {
					ends[i]++
				}
			}
			for i := range got {
				if fmt.Sprint(norm(got[i])) != fmt.Sprint(norm(want[i])) {
					x.Fail("items", "stream %d of %d: %v, want %v", i, n, got[i], want[i])
				}
				if !canceled[i] && (ends[i] == 1) != ended[i] {
					x.Fail("ends", "stream %d of %d: ended %v, canceled %v, completions %d", i, n, ended[i], canceled[i], ends[i])
				}
			}
		}
		feed := func(j int) {
			for _, i := range order {
				if !canceled[i] {
					ps[i].gate <- 100*i + j
					want[i] = append(want[i], 100*i+j)
				}
			}
			check(0)
		}
		feed(0)
		if x.D[2] > 0 {
			for k, i := range order {
				if k%2 == x.D[2]-1 {
					canceled[i] = true
					p.Feed(w.Cancel(fmt.Sprint(i)))
				}
			}
			check(0)
		}
		feed(1)
		feed(2)
		for k, i := range order {
			close(ps[i].gate)
			check(k + 1)
		}
		alivePump(x, p)
		x.Ev("%d", n)
	}}
}

// observerCrowd: n observers and n waiters, every second one of which is cancelled in some phase.
func observerCrowd(w Wire) *Scenario {
	return &Scenario{Name: "crowd", Dims: []int{crowdMax, 4, 4, 2}, NoPoints: true, MaxSteps: 10000000, Body: func(x *X) {
		n := x.D[0] + 1
		l := newLifeClient(x, w)
		m := newLifeModel()
		var obs []*observer
		var ws []*waiter
		for i := 0; i < n; i++ {
			obs = append(obs, observe(l.C, fmt.Sprintf("observer %d of %d", i, n), 0, i%2, true))
		}
		gone, settled := map[int]bool{}, map[int]bool{}
		judge := func(at string) {
			x.Idle()
			for _, o := range obs {
				o.judge(x, m)
			}
			for i, wt := range ws {
				if !settled[i] {
					wt.judge(x, m, !gone[i])
					settled[i] = gone[i] // nothing changes any more
				}
			}
			x.Ev("%s", at)
		}
		cancel := func(phase int) {
			if phase != x.D[2] {
				return
			}
			for k, i := range crowdOrder(n, x.D[1]) {
				if k%2 == x.D[3] {
					prompt(x, "blocks-cancel", obs[i].cancel)
					obs[i].until = len(m.trans)
					if i < len(ws) {
						ws[i].cancel()
						gone[i] = true
					}
				}
			}
			judge("cancelled")
		}
		do := func(ev int) {
			m.apply(ev)
			l.do(ev)
			judge(lifeEventNames[ev])
		}
		cancel(0)
		do(evStart)
		for i := 0; i < n; i++ {
			ws = append(ws, wait(l.C, fmt.Sprintf("waiter %d of %d", i, n), []cstate{stConnected, stClosed}[i/2%2], len(m.trans), m.state))
		}
		x.Idle()
		cancel(1)
		do(evHandshake)
		cancel(2)
		do(evEOF)
		cancel(3)
		for i, wt := range ws {
			wt.cancel()
			gone[i] = true
		}
		for _, o := range obs {
			o.cancel()
			if o.until < 0 {
				o.until = len(m.trans)
			}
		}
		judge("end")
	}}
}
