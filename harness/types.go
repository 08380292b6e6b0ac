package main

import (
	"fmt"

	"github.com/philippseith/signalr"
)

// Streams of values of all kinds, in both directions, and methods with many of them (C07, C08).

// vals are the values of the streams by kind. The first one is the zero value.
var (
	one      = 1
	vInts    = []int{0, -1, 7}
	vFloats  = []float64{0, 1.5, -2}
	vBools   = []bool{false, true, false}
	vStrs    = []string{"", "x", "é\n\""}
	vPtrs    = []*int{nil, &one, nil}
	vAnys    = []any{nil, "x", false}
	vSlices  = [][]int{nil, {}, {1, 2}}
	vMaps    = []map[string]int{nil, {}, {"a": 1}}
	vStructs = []zitem{{}, {A: 1}, {B: "x"}}
	vSPtrs   = []*zitem{nil, {A: 1}, {}}
	vChars   = []uint16{0, 65535, 1}
)

// streamKinds are the values by kind as they are on the wire.
var streamKinds = []struct {
	name string
	wire []any
}{
	{"Ints", []any{0, -1, 7}},
	{"Floats", []any{0, 1.5, -2}},
	{"Bools", []any{false, true, false}},
	{"Strs", []any{"", "x", "é\n\""}},
	{"Ptrs", []any{nil, 1, nil}},
	{"Anys", []any{nil, "x", false}},
	{"Slices", []any{nil, []any{}, []any{1, 2}}},
	{"Maps", []any{nil, map[string]any{}, map[string]any{"a": 1}}},
	{"Structs", []any{map[string]any{"a": 0, "b": ""}, map[string]any{"a": 1, "b": ""}, map[string]any{"a": 0, "b": "x"}}},
	{"SPtrs", []any{nil, map[string]any{"a": 1, "b": ""}, map[string]any{"a": 0, "b": ""}}},
	{"Chars", []any{0, 65535, 1}},
}

type kindHub struct {
	signalr.Hub
	got map[string]*sink
}

func emit[T any](vals []T, is []int) <-chan T {
	ch := make(chan T, 1)
	go func() {
		for _, i := range is {
			ch <- vals[i]
		}
		close(ch)
	}()
	return ch
}

func (h *kindHub) OutInts(is []int) <-chan int              { return emit(vInts, is) }
func (h *kindHub) OutFloats(is []int) <-chan float64        { return emit(vFloats, is) }
func (h *kindHub) OutBools(is []int) <-chan bool            { return emit(vBools, is) }
func (h *kindHub) OutStrs(is []int) <-chan string           { return emit(vStrs, is) }
func (h *kindHub) OutPtrs(is []int) <-chan *int             { return emit(vPtrs, is) }
func (h *kindHub) OutAnys(is []int) <-chan any              { return emit(vAnys, is) }
func (h *kindHub) OutSlices(is []int) <-chan []int          { return emit(vSlices, is) }
func (h *kindHub) OutMaps(is []int) <-chan map[string]int   { return emit(vMaps, is) }
func (h *kindHub) OutStructs(is []int) <-chan zitem         { return emit(vStructs, is) }
func (h *kindHub) OutSPtrs(is []int) <-chan *zitem          { return emit(vSPtrs, is) }
func (h *kindHub) OutChars(is []int) <-chan uint16          { return emit(vChars, is) }
func (h *kindHub) OneInts(i int) int                        { return vInts[i] }
func (h *kindHub) OneFloats(i int) float64                  { return vFloats[i] }
func (h *kindHub) OneBools(i int) bool                      { return vBools[i] }
func (h *kindHub) OneStrs(i int) string                     { return vStrs[i] }
func (h *kindHub) OnePtrs(i int) *int                       { return vPtrs[i] }
func (h *kindHub) OneAnys(i int) any                        { return vAnys[i] }
func (h *kindHub) OneSlices(i int) []int                    { return vSlices[i] }
func (h *kindHub) OneMaps(i int) map[string]int             { return vMaps[i] }
func (h *kindHub) OneStructs(i int) zitem                   { return vStructs[i] }
func (h *kindHub) OneSPtrs(i int) *zitem                    { return vSPtrs[i] }
func (h *kindHub) OneChars(i int) uint16                    { return vChars[i] }
func (h *kindHub) Val(a int) int                            { return a * 10 }
func take[T any](h *kindHub, name string, ch <-chan T) bool { drain(h.got[name], ch); return true }

func (h *kindHub) InInts(ch <-chan int) bool            { return take(h, "s", ch) }
func (h *kindHub) InFloats(ch <-chan float64) bool      { return take(h, "s", ch) }
func (h *kindHub) InBools(ch <-chan bool) bool          { return take(h, "s", ch) }
func (h *kindHub) InStrs(ch <-chan string) bool         { return take(h, "s", ch) }
func (h *kindHub) InPtrs(ch <-chan *int) bool           { return take(h, "s", ch) }
func (h *kindHub) InAnys(ch <-chan any) bool            { return take(h, "s", ch) }
func (h *kindHub) InSlices(ch <-chan []int) bool        { return take(h, "s", ch) }
func (h *kindHub) InMaps(ch <-chan map[string]int) bool { return take(h, "s", ch) }
func (h *kindHub) InStructs(ch <-chan zitem) bool       { return take(h, "s", ch) }
func (h *kindHub) InSPtrs(ch <-chan *zitem) bool        { return take(h, "s", ch) }
func (h *kindHub) InChars(ch <-chan uint16) bool        { return take(h, "s", ch) }

// all drains channels at the same time.
func (h *kindHub) all(args []any, chs ...<-chan int) string {
	done := make(chan struct{})
	for i, ch := range chs {
		go func() {
			drain(h.got[fmt.Sprint("s", i+1)], ch)
			done <- struct{}{}
		}()
	}
	for range chs {
		<-done
	}
	return fmt.Sprint(args...)
}

type ci = <-chan int

func (h *kindHub) F0(a, b, c ci, x int, y string) string { return h.all([]any{x, " ", y}, a, b, c) }
func (h *kindHub) F1(x int, a, b, c ci, y string) string { return h.all([]any{x, " ", y}, a, b, c) }
func (h *kindHub) F2(x int, y string, a, b, c ci) string { return h.all([]any{x, " ", y}, a, b, c) }
func (h *kindHub) F3(a ci, x int, b ci, y string, c ci) string {
	return h.all([]any{x, " ", y}, a, b, c)
}
func (h *kindHub) F4(x int, a ci, y string, b, c, d ci) string {
	return h.all([]any{x, " ", y}, a, b, c, d)
}
func (h *kindHub) F5(a, b, c, d, e ci) string { return h.all(nil, a, b, c, d, e) }
func (h *kindHub) F6(a ci, b chan int, x int, c ci, y string) string {
	return h.all([]any{x, " ", y}, a, b, c)
}

// manyShapes tells the number of channels, and whether there are arguments.
var manyShapes = []struct {
	n    int
	args bool
}{{3, true}, {3, true}, {3, true}, {3, true}, {4, true}, {5, false}, {3, true}}

func kindServer(x *X, w Wire) (*kindHub, *Peer) {
	h := &kindHub{got: map[string]*sink{}}
	s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &kindHub{got: h.got} }))
	return h, connectPeer(x, s, "p", w)
}

func outKinds(w Wire) *Scenario {
	return &Scenario{Name: "values/" + w.Name(), Dims: []int{len(streamKinds), 4, 4, 4}, Quick: 0, Full: 1,
		Skip: func(d []int) bool { return d[1] == 3 && d[2] != 3 || d[2] == 3 && d[3] != 3 },
		Body: func(x *X) {
			_, p := kindServer(x, w)
			k := streamKinds[x.D[0]]
			is, want := []any{}, []any{}
			for _, i := range x.D[1:] {
				if i < 3 {
					is, want = append(is, i), append(want, k.wire[i])
				}
			}
			p.Feed(w.Inv(4, "1", "Out"+k.name, []any{is}, nil))
			x.Idle()
			var got []any
			ms := NoPing(p.Msgs())
			for i, m := range ms {
				if m.Type == 2 && m.ID == "1" {
					got = append(got, m.Item)
				} else if m.Type != 3 || m.ID != "1" || m.Error != "" || i != len(ms)-1 {
					x.Fail("values", "%s%v yields %v", k.name, is, ms)
				}
			}
			if len(got) != len(want) || len(ms) != len(want)+1 || len(got) > 0 && !same(got, want) {
				x.Fail("values", "%s%v yields %v, want the items %v", k.name, is, ms, want)
			}
			x.Ev("%v", got)
			alivePump(x, p)
		}}
}

func inKinds(w Wire) *Scenario {
	return &Scenario{Name: "values/" + w.Name(), Dims: []int{len(streamKinds), 4, 4, 4}, Quick: 0, Full: 1,
		Skip: func(d []int) bool { return d[1] == 3 && d[2] != 3 || d[2] == 3 && d[3] != 3 },
		Body: func(x *X) {
			h, p := kindServer(x, w)
			k := streamKinds[x.D[0]]
			h.got["s"] = &sink{}
			p.Feed(w.Inv(1, "1", "In"+k.name, nil, []string{"u"}))
			var want []any
			for _, i := range x.D[1:] {
				if i < 3 {
					want = append(want, k.wire[i])
					p.Feed(w.Item("u", k.wire[i]))
				}
			}
			p.Feed(w.Completion("u", nil, false, ""))
			x.Idle()
			s := h.got["s"]
			ok := len(s.got) == len(want) && s.closed
			for i := range s.got {
				if ok && fmt.Sprintf("%#v", plain(s.got[i])) != fmt.Sprintf("%#v", plain(want[i])) {
					ok = false
				}
			}
			if !ok {
				x.Fail("values", "%s: the method got %v (closed %v), sent %v", k.name, s.got, s.closed, want)
			}
			wantResult(x, p, "1", true)
			alivePump(x, p)
		}}
}

// plain makes received values and those of streamKinds comparable.
func plain(v any) any {
	switch t := v.(type) {
	case *int:
		if t == nil {
			return nil
		}
		return norm(*t)
	case *zitem:
		if t == nil {
			return nil
		}
		return plain(*t)
	case zitem:
		return norm(map[string]any{"a": t.A, "b": t.B})
	case []int:
		if t == nil {
			return nil
		}
	case map[string]int:
		if t == nil {
			return nil
		}
		m := map[string]any{}
		for k, i := range t {
			m[k] = i
		}
		return norm(m)
	}
	return norm(v)
}

func manyStreams(w Wire) *Scenario {
	return &Scenario{Name: "many/" + w.Name(), Dims: []int{len(manyShapes), 4, 3, 2}, Quick: 0, Full: 1,
		Body: func(x *X) {
			h, p := kindServer(x, w)
			sh := manyShapes[x.D[0]]
			var ids []string
			want := map[string][]any{}
			for i := 1; i <= sh.n; i++ {
				ids = append(ids, fmt.Sprint("u", i))
				h.got[fmt.Sprint("s", i)] = &sink{}
			}
			var args []any
			result := ""
			if sh.args {
				args, result = []any{42, "arg"}, "42 arg"
			}
			var all []byte
			feed := func(b []byte) {
				if x.D[3] == 0 {
					p.Feed(b)
					x.Idle()
				} else {
					all = append(all, b...)
				}
			}
			feed(w.Inv(1, "1", fmt.Sprint("f", x.D[0]), args, ids))
			order := make([]int, sh.n)
			for i := range order {
				order[i] = i
				if x.D[2] == 1 {
					order[i] = sh.n - 1 - i
				}
				if x.D[2] == 2 {
					order[i] = (i + 2) % sh.n
				}
			}
			for n := 0; n < x.D[1]; n++ {
				for _, i := range order {
					if (n+i)%2 == 0 || n == 0 {
						feed(w.Item(ids[i], 100*i+n))
						want[fmt.Sprint("s", i+1)] = append(want[fmt.Sprint("s", i+1)], 100*i+n)
					}
				}
			}
			for _, i := range order {
				feed(w.Completion(ids[i], nil, false, ""))
			}
			p.Feed(all)
			x.Idle()
			for n, s := range h.got {
				s.check(x, n, want[n], true)
			}
			wantResult(x, p, "1", result)
			x.Ev("%v", want)
			alivePump(x, p)
		}}
}

// resultKinds: results of all kinds of values, of a method which returns the value, or a channel which yields it, for simple and stream invocations.
func resultKinds(w Wire) *Scenario {
	return &Scenario{Name: "values/" + w.Name(), Dims: []int{len(streamKinds), 4, 4}, Quick: 0, Full: 1,
		Skip: func(d []int) bool { return d[1] == 3 && d[2] > 1 },
		Body: func(x *X) {
			_, p := kindServer(x, w)
			k, i, mode := streamKinds[x.D[0]], x.D[1], x.D[2]
			var want any
			if i < 3 {
				want = k.wire[i]
			}
			switch mode {
			case 0: // the channel yields one value, or is closed
				is := []any{i}
				if i == 3 {
					is = []any{}
				}
				p.Feed(w.Inv(1, "1", "Out"+k.name, []any{is}, nil))
			case 1: // the channel yields more values. The first one is the result
				is := []any{i, 0, 1}
				if i == 3 {
					is = []any{}
				}
				p.Feed(w.Inv(1, "1", "Out"+k.name, []any{is}, nil))
			case 2:
				p.Feed(w.Inv(1, "1", "One"+k.name, []any{i}, nil))
			case 3:
				p.Feed(w.Inv(4, "1", "One"+k.name, []any{i}, nil))
			}
			x.Idle()
			ms := NoPing(p.Msgs())
			if mode == 3 {
				if len(ms) != 2 || ms[0].Type != 2 || ms[0].ID != "1" || !same(ms[0].Item, want) {
					x.Fail("values", "the stream of One%s(%d) is %v, want the item %v", k.name, i, ms, want)
					return
				}
				ms, want = ms[1:], nil
			}
			if len(ms) != 1 || ms[0].Type != 3 || ms[0].ID != "1" || (ms[0].Error != "") != (i == 3) || i < 3 && !same(ms[0].Result, want) {
				x.Fail("values", "%s %d, mode %d, is answered with %v, want %v", k.name, i, mode, ms, want)
			}
			x.Ev("%v", ms)
			alivePump(x, p)
		}}
}
