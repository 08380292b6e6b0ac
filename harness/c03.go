package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"runtime/debug"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C03: malformed input.

type hostileHub struct {
	signalr.Hub
	r *hostileRec
}

type hostileRec struct {
	calls []string
}

type hostileStruct struct {
	A int            `json:"a"`
	B map[any]any    `json:"-"`
	C []any          `json:"c"`
	D *hostileStruct `json:"d"`
}

type hostileKey struct{ X any }

func (h *hostileHub) Call(a string) string                      { h.r.calls = append(h.r.calls, a); return a + a }
func (h *hostileHub) Any(a any) any                             { return 1 }
func (h *hostileHub) Map(a map[string]any) int                  { return 1 }
func (h *hostileHub) Mapany(a map[any]any) int                  { return 1 }
func (h *hostileHub) Mapkey(a map[hostileKey]int) int           { return 1 }
func (h *hostileHub) Mapints(a map[int]string) int              { return 1 }
func (h *hostileHub) Struct(a hostileStruct) int                { return 1 }
func (h *hostileHub) Structs(a []*hostileStruct) int            { return 1 }
func (h *hostileHub) Bytes(a []byte) int                        { return 1 }
func (h *hostileHub) Bytearray(a [4]byte) int                   { return 1 }
func (h *hostileHub) Ints(a []int) int                          { return 1 }
func (h *hostileHub) Intarray(a [2]int) int                     { return 1 }
func (h *hostileHub) Ptr(a **int) int                           { return 1 }
func (h *hostileHub) Time(a time.Time) int                      { return 1 }
func (h *hostileHub) Duration(a time.Duration) int              { return 1 }
func (h *hostileHub) Err(a error) int                           { return 1 }
func (h *hostileHub) Stringer(a fmt.Stringer) int               { return 1 }
func (h *hostileHub) Func(a func()) int                         { return 1 }
func (h *hostileHub) Chan(a chan<- int) int                     { return 1 }
func (h *hostileHub) Int8(a int8) int                           { return 1 }
func (h *hostileHub) Uint(a uint64) int                         { return 1 }
func (h *hostileHub) Float(a float32) int                       { return 1 }
func (h *hostileHub) Bool(a bool) int                           { return 1 }
func (h *hostileHub) Complex(a complex128) int                  { return 1 }
func (h *hostileHub) Raw(a json.RawMessage) int                 { return 1 }
func (h *hostileHub) Variadic(a ...int) int                     { return 1 }
func (h *hostileHub) Iface(a interface{ signalr.HubInterface }) {}

func (h *hostileHub) Stream(n int) <-chan int {
	ch := make(chan int)
	ctx := h.Context()
	go func() {
		defer close(ch)
		for i := 0; i < n && i < 3; i++ {
			select {
			case ch <- i:
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch
}

func (h *hostileHub) Forever() <-chan int { return make(chan int) }

func (h *hostileHub) Up(ch <-chan int) int {
	for {
		select {
		case _, ok := <-ch:
			if !ok {
				return 1
			}
		case <-h.Context().Done():
			return 0
		}
	}
}

func (h *hostileHub) Upany(ch <-chan map[any]any) int {
	for {
		select {
		case _, ok := <-ch:
			if !ok {
				return 1
			}
		case <-h.Context().Done():
			return 0
		}
	}
}

func hostileServer(x *X, opts ...func(signalr.Party) error) (signalr.Server, *hostileRec) {
	r := &hostileRec{}
	s, _ := newServer(x, append([]func(signalr.Party) error{long, signalr.KeepAliveInterval(time.Hour),
		signalr.HubFactory(func() signalr.HubInterface { return &hostileHub{r: r} })}, opts...)...)
	return s, r
}

var jsonAlphabet = []byte("\"{}[],:\\\x1e\x00\xff\x80 \n09-.en\xc3")
var mpAlphabet = []byte{0x00, 0x01, 0x02, 0x05, 0x06, 0x07, 0x1e, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x95, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc2,
	0xc4, 0xc6, 0xc7, 0xc9, 0xca, 0xcb, 0xcc, 0xcf, 0xd0, 0xd3, 0xd4, 0xd6, 0xd8, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff}

func alphabet(w Wire) []byte {
	if w.Name() == "json" {
		return jsonAlphabet
	}
	return mpAlphabet
}

// reframe cuts the last n bytes of a message and makes it a frame again.
func truncate(w Wire, frame []byte, pos int) []byte {
	if w.Name() == "json" {
		return append(append([]byte{}, frame[:pos]...), 0x1e)
	}
	_, n := binary.Uvarint(frame)
	if pos < n {
		return frame[:pos]
	}
	return mpFrame(frame[n:pos])
}

// mutate applies operation op at position pos.
func mutate(w Wire, frame []byte, pos, op int, alpha []byte) []byte {
	switch {
	case op < len(alpha):
		b := append([]byte{}, frame...)
		b[pos] = alpha[op]
		return b
	case op == len(alpha): // delete
		return append(append([]byte{}, frame[:pos]...), frame[pos+1:]...)
	case op == len(alpha)+1: // duplicate
		return append(append(append([]byte{}, frame[:pos+1]...), frame[pos]), frame[pos+1:]...)
	default:
		return truncate(w, frame, pos)
	}
}

const mutOps = 3

// surelyInvalid tells whether the bytes contain a complete frame that is no hub message by any reading.
func surelyInvalid(w Wire, b []byte, maxSize int) bool {
	for len(b) > 0 {
		if w.Name() == "json" {
			i := bytes.IndexByte(b, 0x1e)
			if i < 0 {
				return false
			}
			rec := b[:i]
			b = b[i+1:]
			m := map[string]any{}
			dec := json.NewDecoder(bytes.NewReader(rec))
			dec.UseNumber()
			if err := dec.Decode(&m); err != nil || !json.Valid(rec) {
				return true
			}
			ok := false
			for k, v := range m {
				n, isNum := v.(json.Number)
				if f, err := n.Float64(); isNum && err == nil && strings.EqualFold(k, "type") && f >= 1 && f <= 7 {
					ok = true
				}
			}
			if !ok {
				return true
			}
			continue
		}
		l, n := binary.Uvarint(b)
		if n < 0 || n > 5 {
			return true
		}
		if n == 0 {
			return len(b) >= 5
		}
		if l > uint64(maxSize) {
			return true
		}
		if uint64(len(b)-n) < l {
			return false
		}
		body := b[n : n+int(l)]
		b = b[n+int(l):]
		if l == 0 {
			continue
		}
		if mpInvalid(body) {
			return true
		}
	}
	return false
}

// mpInvalid tells whether the elements that every message of its type needs are missing.
func mpInvalid(b []byte) bool {
	n := 0
	switch {
	case b[0]&0xf0 == 0x90:
		n = int(b[0] & 15)
		b = b[1:]
	case b[0] == 0xdc && len(b) >= 3:
		n = int(binary.BigEndian.Uint16(b[1:]))
		b = b[3:]
	case b[0] == 0xdd && len(b) >= 5:
		n = int(binary.BigEndian.Uint32(b[1:]))
		b = b[5:]
	default:
		return true
	}
	if n == 0 {
		return true
	}
	v, b, err := mpDec(b)
	f, ok := v.(float64)
	if err != nil || !ok || f < 1 || f > 7 || f != math.Trunc(f) {
		return true
	}
	need := map[int]int{1: 5, 2: 4, 3: 4, 4: 5, 5: 3, 6: 1, 7: 2}[int(f)]
	if n < need {
		return true
	}
	for i := 1; i < need; i++ {
		if v, b, err = mpDec(b); err != nil {
			return true
		}
	}
	if f == 3 {
		// the kind of a completion tells whether there is a fifth element
		kind, ok := v.(float64)
		switch {
		case !ok || kind != 1 && kind != 2 && kind != 3:
			return true
		case kind != 2:
			if n < 5 {
				return true
			}
			v, _, err = mpDec(b)
			if _, isText := v.(string); err != nil || kind == 1 && !isText && v != nil {
				return true
			}
		}
	}
	return false
}

// hostileFrames are messages of every kind to a server, see attack.
func hostileFrames(w Wire) [][]byte {
	f := [][]byte{
		w.Inv(1, "1", "call", []any{"a"}, nil),
		w.Inv(1, "2", "any", []any{map[string]any{"k": []any{1, "x", nil, true, 1.5, 100000}}}, nil),
		w.Inv(1, "3", "up", nil, []string{"k2"}),
		w.Inv(4, "4", "stream", []any{2}, nil),
		w.Item("k", 5),
		w.Completion("k", nil, false, ""),
		w.Completion("k", nil, false, "err"),
		w.Completion("k", 7, true, ""),
		w.Cancel("s"),
		w.Ping(),
		w.Close("bye", true),
		w.Inv(1, "5", "struct", []any{map[string]any{"a": 1, "c": []any{1}, "d": map[string]any{"a": -1}}}, nil),
		w.Item("m", map[string]any{"x": map[string]any{"y": 1}}),
	}
	if w.Name() == "messagepack" {
		b := mpEnc(nil, mpArr(5))
		b = mpEnc(b, 1)
		b = mpEnc(b, map[string]any{"h": "v", "n": map[string]any{"o": 1}})
		b = mpEnc(b, "6")
		b = mpEnc(b, "call")
		b = mpEnc(b, []any{"a"})
		f = append(f, mpFrame(b))
	} else {
		f = append(f, []byte(`{"headers":{"h":"v","n":{"o":1}},"type":1,"invocationId":"6","target":"call","arguments":["a"]}`+"\x1e"))
	}
	return f
}

const nHostile = 14

func rep(s string, n int) string { return strings.Repeat(s, n) }

// rawValues are encoded values, valid and not.
func rawValues(w Wire) [][]byte {
	var out [][]byte
	if w.Name() == "json" {
		for _, s := range []string{"null", "true", "0", "-1", "1e400", "1.5", "-0", "1e2", "9223372036854775808", "-9223372036854775809", "99999999999999999999999999", `""`, `"x"`,
			`"\ud800"`, `"\u0000"`, `"AAECAw=="`, `"2020-01-01T00:00:00Z"`, "[]", "[1,2,3]", `["a",null]`, "[[1],[2]]", "{}", `{"a":1}`, `{"a":"x"}`, `{"c":[{}],"d":{"d":{"d":null}}}`, `{"":{}}`,
			`{"1":"x"}`, `{"a":1,"a":2}`, rep("[", 3000) + rep("]", 3000), rep(`{"d":`, 3000) + "1" + rep("}", 3000), rep("[", 12000) + rep("]", 12000), `[` + rep("1,", 5000) + `1]`,
			// not JSON
			"", "nul", "tru", "01", "+1", ".5", "1.", "'a'", `"a`, "[1", "{", `{"a"}`, `{"a":}`, "{a:1}", "\xff", "\"\xff\"", "[1,]", "NaN", "1 2"} {
			out = append(out, []byte(s))
		}
		return out
	}
	enc := func(v any) []byte { return mpEnc(nil, v) }
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	raw := func(b ...byte) []byte { return b }
	out = append(out, enc(nil), enc(true), enc(0), enc(-1), enc(1.5), enc(int64(math.MinInt64)), enc(uint64(math.MaxUint64)), enc(math.NaN()), enc(math.Inf(1)), enc(""), enc("x"),
		enc("\xff\xfe"), enc([]byte{0, 1, 2, 3}), enc([]any{}), enc([]any{1, 2, 3}), enc([]any{"a", nil}), enc([]any{[]any{1}}), enc(map[string]any{}), enc(map[string]any{"a": 1}),
		enc(map[string]any{"a": "x"}), enc(map[string]any{"c": []any{map[string]any{}}, "d": map[string]any{"d": nil}}),
		// maps with other keys
		raw(0x81, 0x01, 0x02), raw(0x81, 0xc0, 0x02), raw(0x81, 0xc3, 0x02), raw(0x81, 0xcb, 0x7f, 0xf8, 0, 0, 0, 0, 0, 0, 0x01),
		raw(0x81, 0x91, 0x01, 0x02), raw(0x81, 0x80, 0x02), raw(0x81, 0x81, 0x01, 0x02, 0x03), raw(0x81, 0xc4, 0x01, 0x02, 0x03), raw(0x81, 0xd4, 0x01, 0x02, 0x03),
		raw(0x81, 0xa1, 'a', 0x81, 0x91, 0x01, 0x02), raw(0x81, 0xa1, 'd', 0x81, 0xa1, 'c', 0x91, 0x81, 0x90, 0x01), raw(0x91, 0x81, 0x91, 0x01, 0x02), raw(0x81, 0x81, 0x90, 0x01, 0x01),
		raw(0x81, 0xa1, 'X', 0x90), raw(0x81, 0x81, 0xa1, 'X', 0x90, 0x01),
		// extensions and times
		raw(0xd6, 0xff, 0, 0, 0, 1), raw(0xd7, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff), raw(0xc7, 0x0c, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff),
		raw(0xd4, 0xff, 0), raw(0xd4, 0x00, 0), raw(0xd8, 0x7f, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0), raw(0xc7, 0x00, 0x05), raw(0xc7, 0x01, 0xff, 0x00), raw(0xd5, 0xff, 0, 0),
		// deep and long
		cat(bytes.Repeat(raw(0x91), 12000), raw(0xc0)), cat(bytes.Repeat(raw(0x81, 0xa1, 'd'), 5000), raw(0xc0)), cat(raw(0xdc, 0x20, 0x00), bytes.Repeat(raw(1), 0x2000)),
		// lengths that are not there
		raw(0xc6, 0xff, 0xff, 0xff, 0xff), raw(0xdb, 0xff, 0xff, 0xff, 0xff), raw(0xdd, 0xff, 0xff, 0xff, 0xff), raw(0xdf, 0xff, 0xff, 0xff, 0xff), raw(0xc9, 0xff, 0xff, 0xff, 0xff, 0x01),
		raw(0xdd, 0x7f, 0xff, 0xff, 0xff), raw(0xdf, 0x7f, 0xff, 0xff, 0xff), raw(0xc6, 0x7f, 0xff, 0xff, 0xff), raw(0xa5, 'a'), raw(0x92, 0x01), raw(0x82, 0x01), raw(0xc1), raw(0xcf, 0), raw(0xd9), raw(0xdc, 0x01), raw(),
		raw(0xdd, 0x80, 0x00, 0x00, 0x00), raw(0xdc, 0xff, 0xff), raw(0xde, 0xff, 0xff))
	return out
}

// withRaw builds an invocation or item with a raw value in it.
func withRaw(w Wire, kind int, target string, raw []byte) []byte {
	mark := "\x01mark\x01"
	var b []byte
	switch kind {
	case 0:
		b = w.Inv(1, "7", target, []any{mark}, nil)
	case 1:
		b = w.Item(target, mark)
	case 2:
		b = w.Completion(target, mark, true, "")
	}
	m, _ := json.Marshal(mark)
	if w.Name() == "messagepack" {
		m = mpEnc(nil, mark)
		_, n := binary.Uvarint(b)
		return mpFrame(bytes.Replace(b[n:], m, raw, 1))
	}
	return bytes.Replace(b, m, raw, 1)
}

var hostileTargets = []string{"any", "map", "mapany", "mapkey", "mapints", "struct", "structs", "bytes", "bytearray", "ints", "intarray", "ptr", "time", "duration", "err", "stringer", "func", "chan",
	"int8", "uint", "float", "bool", "complex", "raw", "variadic", "iface", "call", "up", "stream", "forever", "nobody"}

// rawFrames are complete hostile frames.
func rawFrames(w Wire) [][]byte {
	var out [][]byte
	if w.Name() == "json" {
		for _, s := range []string{"", "{}", "[]", "null", "5", `""`, `{"type":null}`, `{"type":"1"}`, `{"type":0}`, `{"type":-1}`, `{"type":8}`, `{"type":1e99}`, `{"type":1.5}`, `{"type":[1]}`,
			`{"type":99999999999999999999}`, `{"type":1}`, `{"type":1,"target":5,"arguments":[]}`, `{"type":1,"target":null,"arguments":null}`, `{"type":1,"target":"call","arguments":{}}`,
			`{"type":1,"target":"call","arguments":"a"}`, `{"type":1,"target":"call","arguments":[],"streamIds":5}`, `{"type":1,"target":"up","arguments":[],"streamIds":[5]}`,
			`{"type":1,"target":"up","arguments":[],"streamIds":[null]}`, `{"type":1,"target":"up","arguments":[],"streamIds":["a","a"]}`, `{"type":1,"target":"up","arguments":[],"streamIds":["k"]}`,
			`{"type":1,"invocationId":5,"target":"call","arguments":["a"]}`, `{"type":1,"invocationId":{"a":1},"target":"call","arguments":["a"]}`, `{"type":2}`, `{"type":2,"item":1}`,
			`{"type":2,"invocationId":"k"}`, `{"type":2,"invocationId":5,"item":1}`, `{"type":2,"invocationId":"k","item":null}`, `{"type":2,"invocationId":"k","item":"x"}`, `{"type":3}`,
			`{"type":3,"invocationId":"k","error":5}`, `{"type":3,"invocationId":"k","result":1,"error":"e"}`, `{"type":3,"invocationId":"x"}`, `{"type":4}`, `{"type":4,"invocationId":"1"}`,
			`{"type":4,"target":"stream","arguments":[1]}`, `{"type":4,"invocationId":"s","target":"forever","arguments":[]}`, `{"type":5}`, `{"type":5,"invocationId":5}`, `{"type":5,"invocationId":"x"}`,
			`{"type":6,"x":1}`, `{"type":7}`, `{"type":7,"error":5}`, `{"type":7,"error":null,"allowReconnect":"x"}`, `{"type":1,"target":"` + rep("x", 20000) + `","arguments":[]}`,
			`{"type":1,"headers":5,"target":"call","arguments":["a"]}`, rep("{", 20000), rep(" ", 20000), `{"type":1,"target":"initialize","arguments":[1]}`, `{"type":1,"target":"context","arguments":[]}`,
			`{"type":1,"invocationId":"9","target":"clients","arguments":[]}`, `{"type":1,"invocationId":"9","target":"items","arguments":[]}`, `{"type":4,"invocationId":"9","target":"groups","arguments":[]}`,
			`{"type":1,"invocationId":"9","target":"logger","arguments":[]}`, `{"type":1,"invocationId":"9","target":"onconnected","arguments":["x"]}`, `{"type":1,"invocationId":"9","target":"initialize","arguments":[{}]}`,
			`{"type":1,"invocationId":"9","target":"initialize","arguments":[null]}`, `{"type":4,"invocationId":"9","target":"initialize","arguments":[null]}`, `{"type":1,"invocationId":"9","target":"","arguments":[]}`,
			`{"type":1,"invocationId":"9","target":"close","arguments":["x",true]}`, `{"type":1,"invocationId":"9","target":"abort","arguments":[]}`, `{"type":1,"invocationId":"9","target":"info","arguments":[]}`} {
			out = append(out, []byte(s+"\x1e"))
		}
		return out
	}
	raw := func(b ...byte) []byte { return b }
	for _, b := range [][]byte{raw(), raw(0x90), raw(0x91, 0x00), raw(0x91, 0x08), raw(0x91, 0xff), raw(0x91, 0xc0), raw(0x91, 0xa1, '1'), raw(0x91, 0xcb, 0x3f, 0xf8, 0, 0, 0, 0, 0, 0), raw(0xc0), raw(0x06), raw(0x80),
		raw(0x81, 0x01, 0x06), raw(0xa1, 'x'), raw(0x91, 0x01), raw(0x95, 0x01), raw(0x95, 0x01, 0xc0), raw(0x95, 0x01, 0x80), raw(0x95, 0x01, 0x80, 0xc0), raw(0x95, 0x01, 0x80, 0xc0, 0xa1, 'x'),
		raw(0x95, 0x01, 0x80, 0xc0, 0xa1, 'x', 0xc0), raw(0x95, 0x01, 0x80, 0xc0, 0xa1, 'x', 0xdd, 0xff, 0xff, 0xff, 0xff), raw(0x95, 0x01, 0x80, 0xc0, 0xa1, 'x', 0x91), raw(0x95, 0x01, 0x80, 0x05, 0xa1, 'x', 0x90),
		raw(0x95, 0x01, 0x80, 0xc0, 0xc0, 0x90), raw(0x95, 0x01, 0x80, 0xc0, 0x05, 0x90), raw(0x96, 0x01, 0x80, 0xc0, 0xa2, 'u', 'p', 0x90, 0xc0), raw(0x96, 0x01, 0x80, 0xc0, 0xa2, 'u', 'p', 0x90, 0x91, 0x05),
		raw(0x96, 0x01, 0x80, 0xc0, 0xa2, 'u', 'p', 0x90, 0x91, 0xc0), raw(0x96, 0x01, 0x80, 0xc0, 0xa2, 'u', 'p', 0x90, 0x92, 0xa1, 'a', 0xa1, 'a'), raw(0x96, 0x01, 0x80, 0xc0, 0xa2, 'u', 'p', 0x90, 0x91, 0xa1, 'k'),
		raw(0x96, 0x01, 0x80, 0xc0, 0xa2, 'u', 'p', 0x90, 0xdd, 0xff, 0xff, 0xff, 0xff),
		// headers with all kinds of maps
		raw(0x95, 0x01, 0x81, 0x91, 0x01, 0x02, 0xc0, 0xa1, 'x', 0x90), raw(0x95, 0x01, 0x81, 0xa1, 'a', 0x81, 0x91, 0x01, 0x02, 0xc0, 0xa1, 'x', 0x90), raw(0x95, 0x01, 0x81, 0xa1, 'a', 0x91, 0x81, 0x80, 0x01, 0xc0, 0xa1, 'x', 0x90),
		raw(0x95, 0x01, 0x81, 0x01, 0x01, 0xc0, 0xa1, 'x', 0x90), raw(0x95, 0x01, 0x81, 0xa1, 'a', 0x81, 0xc4, 0x01, 0x02, 0x03, 0xc0, 0xa1, 'x', 0x90), raw(0x95, 0x01, 0xdf, 0xff, 0xff, 0xff, 0xff, 0xc0, 0xa1, 'x', 0x90),
		raw(0x95, 0x01, 0x81, 0xa1, 'a', 0xd7, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xc0, 0xa1, 'x', 0x90), raw(0x95, 0x01, 0x81, 0xa1, 'a', 0xd4, 0x20, 0x00, 0xc0, 0xa1, 'x', 0x90),
		bytes.Join([][]byte{raw(0x95, 0x01, 0x81, 0xa1, 'a'), bytes.Repeat(raw(0x91), 20000), raw(0xc0, 0xc0, 0xa1, 'x', 0x90)}, nil),
		bytes.Join([][]byte{raw(0x95, 0x01, 0x81, 0xa1, 'a'), bytes.Repeat(raw(0x81, 0xa1, 'a'), 10000), raw(0xc0, 0xc0, 0xa1, 'x', 0x90)}, nil),
		bytes.Join([][]byte{raw(0x95, 0x01), bytes.Repeat(raw(0x81, 0x81), 10000)}, nil),
		// items, completions, cancels, close
		raw(0x94, 0x03, 0x80, 0xa1, 'k', 0x03, 0x01), raw(0x94, 0x03, 0x80, 0xa1, 'k', 0x03, 0xa1, 'e'), raw(0x94, 0x03, 0x80, 0xa1, 'k', 0x01, 0xa1, 'e'), raw(0x95, 0x03, 0x80, 0xa1, 'k', 0x02, 0x01),
		raw(0x95, 0x03, 0x80, 0xa1, 'k', 0x03), raw(0x95, 0x03, 0x80, 0xa1, 'k', 0x01, 0xc0), raw(0x95, 0x03, 0x80, 0xa1, 'k', 0x04, 0x01), raw(0x95, 0x03, 0x80, 0xa1, 'k', 0xa1, '3', 0x01),
		raw(0x94, 0x02), raw(0x94, 0x02, 0x80), raw(0x94, 0x02, 0x80, 0xa1, 'k'), raw(0x94, 0x02, 0x80, 0xc0, 0x01), raw(0x93, 0x02, 0x80, 0xa1, 'k'), raw(0x94, 0x02, 0x80, 0xa1, 'k', 0xc0), raw(0x94, 0x02, 0x80, 0xa1, 'k', 0xa1, 'x'),
		raw(0x94, 0x03, 0x80, 0xa1, 'k', 0x01), raw(0x94, 0x03, 0x80, 0xa1, 'k', 0x03), raw(0x94, 0x03, 0x80, 0xa1, 'k', 0x04), raw(0x95, 0x03, 0x80, 0xa1, 'k', 0x01, 0x05), raw(0x95, 0x03, 0x80, 0xa1, 'k', 0x00, 0x05),
		raw(0x95, 0x03, 0x80, 0xa1, 'k', 0xff, 0x05), raw(0x94, 0x03, 0x80, 0xc0, 0x02), raw(0x94, 0x03, 0x80, 0xa1, 'x', 0x02), raw(0x94, 0x03, 0x80, 0xa1, 'k', 0xcd, 0x01, 0x02), raw(0x93, 0x05, 0x80), raw(0x93, 0x05, 0x80, 0x05),
		raw(0x93, 0x05, 0x80, 0xc0), raw(0x93, 0x05, 0x80, 0xa1, 'x'), raw(0x92, 0x05, 0x80), raw(0x91, 0x07), raw(0x92, 0x07, 0x05), raw(0x93, 0x07, 0xc0, 0x05), raw(0x93, 0x07, 0xc0, 0xc0), raw(0x92, 0x07, 0x80), raw(0x93, 0x07, 0x80, 0xc0),
		raw(0x95, 0x04, 0x80, 0xc0, 0xa6, 's', 't', 'r', 'e', 'a', 'm', 0x91, 0x01), raw(0x95, 0x04, 0x80, 0xa1, 's', 0xa7, 'f', 'o', 'r', 'e', 'v', 'e', 'r', 0x90)} {
		out = append(out, mpFrame(b))
	}
	// lengths
	out = append(out, raw(0xff, 0xff, 0xff, 0xff, 0xff, 0x01), raw(0xff, 0xff, 0xff, 0xff, 0x0f), raw(0x80, 0x80, 0x80, 0x80, 0x80), raw(0x80, 0x80, 0x80, 0x80, 0x00), raw(0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff),
		raw(0x81, 0x80, 0x02), raw(0x80, 0x00), raw(0xff, 0xff, 0x01), []byte(`{"type":6}`+"\x1e"))
	return out
}

// attack sends a hostile frame to a server between two invocations.
func attack(x *X, w Wire, bad []byte, sched bool) {
	s, r := hostileServer(x)
	q := connectPeer(x, s, "q", w)
	p := connectPeer(x, s, "p", w)
	p.Feed(w.Inv(4, "s", "forever", nil, nil))
	p.Feed(w.Inv(1, "u", "up", nil, []string{"k"}))
	p.Feed(w.Inv(1, "v", "upany", nil, []string{"m"}))
	x.Idle()
	before := w.Inv(1, "b", "call", []any{"before"}, nil)
	after := w.Inv(1, "a", "call", []any{"after"}, nil)
	if sched {
		p.Feed(append(append(append([]byte{}, before...), bad...), after...))
	} else {
		p.Feed(before)
		x.Idle()
		p.Feed(bad)
		x.Idle()
		p.Feed(after)
	}
	x.Settle(15 * time.Second)
	judgeAttack(x, w, p, q, r, surelyInvalid(w, append(append([]byte{}, bad...), after...), 1<<15), bad)
}

func judgeAttack(x *X, w Wire, p, q *Peer, r *hostileRec, must bool, bad []byte) {
	n := 0
	for _, c := range r.calls {
		if c == "before" {
			n++
		}
	}
	if n != 1 {
		x.Fail("before", "the message before %q was processed %d times", cut(bad), n)
	}
	if must && !p.Served {
		x.Fail("not-ended", "%q has not ended the connection", cut(bad))
	}
	if p.Served {
		last := Msg{}
		for _, m := range p.Msgs() {
			if m.Type == 7 || last.Type != 7 {
				last = m
			}
		}
		if must && (last.Type != 7 || last.Error == "") {
			x.Fail("no-close", "%q: last message sent is %v", cut(bad), last)
		}
		if must && p.ServeErr == nil {
			x.Fail("no-error", "%q: Serve returns nil", cut(bad))
		}
	}
	if q.Served {
		x.Fail("other", "%q has ended another connection: %v", cut(bad), q.ServeErr)
		return
	}
	q.Feed(q.W.Inv(1, "z", "call", []any{"z"}, nil))
	x.Idle()
	if got := answer(x, q, "z"); got != "zz" {
		x.Fail("other", "%q: another connection gets %v", cut(bad), got)
	}
	x.Ev("served %v %v", p.Served, must)
}

// deepValue is a value nested n times.
func deepValue(w Wire, kind, n int) []byte {
	open, end := []byte{0x91}, []byte{}
	inner := []byte{0xc0}
	if w.Name() == "json" {
		inner = []byte("1")
	}
	switch [2]any{w.Name(), kind} {
	case [2]any{"messagepack", 1}:
		open = []byte{0x81, 0xa1, 'd'}
	case [2]any{"messagepack", 2}:
		open = []byte{0xdc, 0, 1}
	case [2]any{"messagepack", 3}:
		open = []byte{0x92, 0x91, 0xc0} // not only the first value is nested
	case [2]any{"json", 0}, [2]any{"json", 2}:
		open, end = []byte("["), []byte("]")
	case [2]any{"json", 1}:
		open, end = []byte(`{"d":`), []byte("}")
	case [2]any{"json", 3}:
		open, end = []byte("[[1],"), []byte("]")
	}
	return bytes.Join([][]byte{bytes.Repeat(open, n), inner, bytes.Repeat(end, n)}, nil)
}

// attackDeep sends deeply nested values to parties that accept large messages. The stack of a goroutine is limited, and
// its overflow ends the process.
func attackDeep(x *X, w Wire, client bool, kind, where, depth int) {
	v := deepValue(w, kind, depth)
	large := signalr.MaximumReceiveMessageSize(1 << 25)
	x.Cleanup(debug.FreeOSMemory)
	frame := func(ids map[string]string) []byte {
		targets, id := []string{"any", "raw", "mapany", "struct", "nobody"}, "k"
		if client {
			targets, id = []string{"any", "news", "mapany", "struct", "nobody"}, ids["b"]
		}
		switch {
		case where < 5:
			return withRaw(w, 0, targets[where], v)
		case where == 5:
			return withRaw(w, 1, id, v)
		case where == 6:
			return withRaw(w, 2, id, v)
		}
		if w.Name() == "json" {
			return bytes.Join([][]byte{[]byte(`{"type":1,"headers":`), v, []byte(`,"target":"any","arguments":[1]}` + "\x1e")}, nil)
		}
		return mpFrame(bytes.Join([][]byte{{0x95, 0x01, 0x81, 0xa1, 'a'}, v, {0xc0, 0xa3, 'a', 'n', 'y', 0x91, 0x01}}, nil))
	}
	if client {
		rcv := &hostileRecv{}
		s := newClient(x, w, signalr.WithReceiver(rcv), long, signalr.KeepAliveInterval(time.Hour), large)
		s.Connect()
		cs, up := faultCalls(s)
		x.Idle()
		s.Feed(frame(s.ids()))
		x.Settle(15 * time.Second)
		st := s.C.State()
		if st == signalr.ClientClosed {
			s.Conn.Close()
		} else {
			s.FeedErr(errInjected)
		}
		close(up)
		x.Settle(15 * time.Second)
		for i, c := range cs {
			if !c.closed {
				x.Fail("pending", "call %d has no outcome", i)
			}
		}
		x.Ev("%v", st)
		return
	}
	srv, r := hostileServer(x, large)
	q := connectPeer(x, srv, "q", w)
	p := connectPeer(x, srv, "p", w)
	p.Feed(w.Inv(1, "u", "up", nil, []string{"k"}))
	p.Feed(w.Inv(1, "b", "call", []any{"before"}, nil))
	x.Idle()
	p.Feed(frame(nil))
	x.Settle(15 * time.Second)
	judgeAttack(x, w, p, q, r, false, nil)
}

func cut(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%q…(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%q", b)
}

type hostileRecv struct {
	signalr.Receiver
	calls []string
}

func (r *hostileRecv) News(a string)            { r.calls = append(r.calls, a) }
func (r *hostileRecv) Ask(a string) string      { return a + a }
func (r *hostileRecv) Any(a any)                {}
func (r *hostileRecv) Mapany(a map[any]any) int { return 1 }
func (r *hostileRecv) Struct(a hostileStruct)   {}
func (r *hostileRecv) Up(ch <-chan int)         {}

// clientHostile are messages of every kind to a client with pending calls a (Invoke), b (Send), c (PullStream), d (PushStreams).
func clientHostile(w Wire, ids map[string]string) [][]byte {
	return [][]byte{
		w.Completion(ids["a"], "x", true, ""),
		w.Completion(ids["a"], map[string]any{"k": []any{1, nil}}, true, ""),
		w.Completion(ids["b"], nil, false, ""),
		w.Completion(ids["b"], nil, false, "err"),
		w.Item(ids["c"], 5),
		w.Item(ids["c"], map[string]any{"k": []any{1, nil}}),
		w.Completion(ids["c"], nil, false, ""),
		w.Completion(ids["c"], nil, false, "err"),
		w.Completion(ids["d"], 7, true, ""),
		w.Inv(1, "", "news", []any{"n"}, nil),
		w.Inv(1, "r", "ask", []any{"n"}, nil),
		w.Inv(1, "r", "up", nil, []string{"k"}),
		w.Inv(4, "r", "ask", []any{"n"}, nil),
		w.Ping(),
		w.Close("bye", true),
		w.Cancel("x"),
	}
}

func attackClient(x *X, w Wire, badOf func(ids map[string]string) []byte, sched bool) {
	rcv := &hostileRecv{}
	s := newClient(x, w, signalr.WithReceiver(rcv), long, signalr.KeepAliveInterval(time.Hour))
	s.Connect()
	cs, up := faultCalls(s)
	x.Idle()
	bad := badOf(s.ids())
	before := w.Inv(1, "", "news", []any{"before"}, nil)
	after := w.Inv(1, "", "news", []any{"after"}, nil)
	if sched {
		s.Feed(append(append(append([]byte{}, before...), bad...), after...))
	} else {
		s.Feed(before)
		x.Idle()
		s.Feed(bad)
		x.Idle()
		s.Feed(after)
	}
	x.Settle(15 * time.Second)
	must := surelyInvalid(w, append(append([]byte{}, bad...), after...), 1<<15)
	n := 0
	for _, c := range rcv.calls {
		if c == "before" {
			n++
		}
	}
	if n != 1 {
		x.Fail("before", "the message before %s was processed %d times", cut(bad), n)
	}
	st := s.C.State()
	if must && st != signalr.ClientClosed {
		x.Fail("not-ended", "%s has not ended the client, state %v", cut(bad), st)
	}
	if must && s.C.Err() == nil {
		x.Fail("no-error", "%s: the client has no error", cut(bad))
	}
	if st == signalr.ClientClosed {
		s.Conn.Close()
	} else {
		s.FeedErr(errInjected)
	}
	close(up)
	x.Settle(15 * time.Second)
	for i, c := range cs {
		if !c.closed {
			x.Fail("pending", "%s: call %d has no outcome", cut(bad), i)
		}
	}
	x.Ev("%v %v", st, must)
}

func init() {
	register(&Property{ID: "C03", Title: "malformed input",
		Rule: "every byte of 14 (server) and 16 (client) messages of all kinds replaced by every byte of an alphabet of significant bytes (thorough: by all 256), deleted, duplicated, and the message truncated there; about 70 hand-written frames; deeply nested values in messages of 7 to 42 MB; about 60 hostile values as argument of 31 methods with different parameter types, as item and as result; mutated handshakes; in one read with valid messages or alone; a second connection has to work on",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			all := make([]byte, 256)
			for i := range all {
				all[i] = byte(i)
			}
			const maxLen = 110
			for _, w := range wires {
				w := w
				fs := hostileFrames(w)
				alpha := alphabet(w)
				skip := func(d []int) bool { return d[1] >= len(fs[d[0]]) }
				ids := map[string]string{"a": "1", "b": "2", "c": "3", "d": "4"}
				cfs := clientHostile(w, ids)
				cskip := func(d []int) bool { return d[1] >= len(cfs[d[0]]) }
				hskip := func(d []int) bool { return d[0] >= len(hsReq(w)) }
				out = append(out,
					&Scenario{Name: "server/" + w.Name(), Dims: []int{nHostile, maxLen, len(alpha) + mutOps}, Skip: skip,
						Body: func(x *X) { attack(x, w, mutate(w, fs[x.D[0]], x.D[1], x.D[2], alpha), false) }},
					&Scenario{Name: "server-merged/" + w.Name(), Dims: []int{nHostile, maxLen, len(alpha) + mutOps}, Skip: skip,
						QuickCase: func(d []int) bool { return d[2] >= len(alpha)-2 },
						Body:      func(x *X) { attack(x, w, mutate(w, fs[x.D[0]], x.D[1], x.D[2], alpha), true) }},
					&Scenario{Name: "server-all/" + w.Name(), Dims: []int{nHostile, maxLen, 256}, Skip: skip, OnlyFull: true,
						Body: func(x *X) { attack(x, w, mutate(w, fs[x.D[0]], x.D[1], x.D[2], all), true) }},
					&Scenario{Name: "server-two/" + w.Name(), Dims: []int{nHostile, maxLen, maxLen, 8}, OnlyFull: true,
						Skip: func(d []int) bool {
							return d[1] >= len(fs[d[0]]) || d[2] >= len(fs[d[0]]) || d[2] <= d[1] || d[2] > d[1]+4
						},
						Body: func(x *X) {
							sub := alpha
							b := mutate(w, fs[x.D[0]], x.D[1], (x.D[3]*5+x.D[2])%len(sub), sub)
							attack(x, w, mutate(w, b, x.D[2], (x.D[3]*7+x.D[1])%len(sub), sub), true)
						}},
					&Scenario{Name: "raw/" + w.Name(), Dims: []int{len(rawFrames(w)), 2},
						Body: func(x *X) { attack(x, w, rawFrames(w)[x.D[0]], x.D[1] == 1) }},
					&Scenario{Name: "raw-sched/" + w.Name(), Dims: []int{len(rawFrames(w)), 1}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[0]%5 == 0 },
						Skip:      func(d []int) bool { return len(rawFrames(w)[d[0]]) > 500 },
						Body:      func(x *X) { attack(x, w, rawFrames(w)[x.D[0]], true) }},
					&Scenario{Name: "values/" + w.Name(), Dims: []int{len(rawValues(w)), len(hostileTargets)},
						Body: func(x *X) { attack(x, w, withRaw(w, 0, hostileTargets[x.D[1]], rawValues(w)[x.D[0]]), true) }},
					&Scenario{Name: "item-values/" + w.Name(), Dims: []int{len(rawValues(w)), 2, 2},
						Body: func(x *X) {
							attack(x, w, withRaw(w, 1+x.D[2], []string{"k", "m"}[x.D[1]], rawValues(w)[x.D[0]]), true)
						}},
					&Scenario{Name: "client/" + w.Name(), Dims: []int{len(cfs), maxLen, len(alpha) + mutOps}, Skip: cskip,
						Body: func(x *X) {
							attackClient(x, w, func(ids map[string]string) []byte {
								f := clientHostile(w, ids)[x.D[0]]
								return mutate(w, f, min(x.D[1], len(f)-1), x.D[2], alpha)
							}, x.D[1]%2 == 0)
						}},
					&Scenario{Name: "client-all/" + w.Name(), Dims: []int{len(cfs), maxLen, 256}, Skip: cskip, OnlyFull: true,
						Body: func(x *X) {
							attackClient(x, w, func(ids map[string]string) []byte {
								f := clientHostile(w, ids)[x.D[0]]
								return mutate(w, f, min(x.D[1], len(f)-1), x.D[2], all)
							}, true)
						}},
					&Scenario{Name: "client-raw/" + w.Name(), Dims: []int{len(rawFrames(w)), 2},
						Body: func(x *X) {
							attackClient(x, w, func(map[string]string) []byte { return rawFrames(w)[x.D[0]] }, x.D[1] == 1)
						}},
					&Scenario{Name: "client-values/" + w.Name(), Dims: []int{len(rawValues(w)), 8},
						Body: func(x *X) {
							attackClient(x, w, func(ids map[string]string) []byte {
								v := rawValues(w)[x.D[0]]
								switch x.D[1] {
								case 0, 1, 2:
									return withRaw(w, 2, ids[[]string{"a", "b", "c"}[x.D[1]]], v)
								case 3:
									return withRaw(w, 1, ids["c"], v)
								}
								return withRaw(w, 0, []string{"news", "any", "mapany", "struct"}[x.D[1]-4], v)
							}, true)
						}},
					// deeply nested values
					&Scenario{Name: "deep/" + w.Name(), Dims: []int{4, 8, 2},
						QuickCase: func(d []int) bool {
							return d[0] == 0 && d[1] != 2 && d[1] != 3 || d[0] == 1 && (d[1] == 2 || d[1] == 3)
						},
						Body: func(x *X) { attackDeep(x, w, x.D[2] == 1, x.D[0], x.D[1], 7000000) }},
					// a damaged handshake request
					&Scenario{Name: "handshake/" + w.Name(), Dims: []int{50, len(jsonAlphabet) + mutOps, 2}, Skip: hskip,
						Body: func(x *X) {
							s, r := hostileServer(x)
							q := connectPeer(x, s, "q", w)
							b := mutate(wires[0], hsReq(w), x.D[0], x.D[1], jsonAlphabet)
							p := startPeer(x, s, "p", w)
							p.Feed(b)
							if x.D[2] == 0 {
								x.Idle()
							}
							p.Feed(w.Inv(1, "a", "call", []any{"after"}, nil))
							x.Settle(20 * time.Second)
							n := len(r.calls)
							if len(p.out) == 0 && n > 0 || n > 1 {
								x.Fail("handshake", "%d calls after handshake %q", n, b)
							}
							p.hsLen = len(p.out)
							r.calls = []string{"before"}
							judgeAttack(x, w, p, q, r, false, b)
						}},
					&Scenario{Name: "client-handshake/" + w.Name(), Dims: []int{13, len(jsonAlphabet) + mutOps, 2},
						Body: func(x *X) {
							rcv := &hostileRecv{}
							s := newClient(x, w, signalr.WithReceiver(rcv), long, signalr.KeepAliveInterval(time.Hour))
							s.C.Start()
							x.Idle()
							h := []byte([]string{"{}\x1e", `{"error":"x"}` + "\x1e"}[x.D[2]])
							s.Feed(mutate(wires[0], h, min(x.D[0], len(h)-1), x.D[1], jsonAlphabet))
							s.Feed(w.Inv(1, "", "news", []any{"after"}, nil))
							x.Settle(20 * time.Second)
							if st := s.C.State(); st != signalr.ClientClosed && st != signalr.ClientConnected {
								x.Fail("handshake", "state %v", st)
							}
							x.Ev("%v", s.C.State())
						}},
				)
			}
			return out
		}})
}
