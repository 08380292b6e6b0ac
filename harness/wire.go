package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
)

// Msg is a hub message as seen on the wire.
type Msg struct {
	Type      int
	ID        string
	HasID     bool
	Target    string
	Args      []any
	Streams   []string
	Item      any
	Result    any
	HasResult bool
	Error     string
	Reconnect bool
}

func (m Msg) String() string {
	switch m.Type {
	case 1, 4:
		return fmt.Sprintf("invocation(%d id=%q %s%v streams=%v)", m.Type, m.ID, m.Target, m.Args, m.Streams)
	case 2:
		return fmt.Sprintf("item(id=%q %v)", m.ID, m.Item)
	case 3:
		e := m.Error
		if i := bytes.IndexByte([]byte(e), '\n'); i >= 0 {
			e = e[:i]
		}
		if m.HasResult {
			return fmt.Sprintf("completion(id=%q result=%v err=%q)", m.ID, m.Result, e)
		}
		return fmt.Sprintf("completion(id=%q err=%q)", m.ID, e)
	case 5:
		return fmt.Sprintf("cancel(id=%q)", m.ID)
	case 6:
		return "ping"
	case 7:
		return fmt.Sprintf("close(%q reconnect=%v)", m.Error, m.Reconnect)
	}
	return fmt.Sprintf("type(%d)", m.Type)
}

// Wire is an independent implementation of the two hub protocols.
type Wire interface {
	Name() string
	Inv(typ int, id, target string, args []any, streams []string) []byte
	Item(id string, v any) []byte
	Completion(id string, result any, hasResult bool, errText string) []byte
	Cancel(id string) []byte
	Ping() []byte
	Close(errText string, reconnect bool) []byte
	// Parse returns the complete messages and the incomplete rest
	Parse(b []byte) ([]Msg, []byte, error)
}

var wires = []Wire{jsonWire{}, mpWire{}}

type jsonWire struct{}

func (jsonWire) Name() string { return "json" }

func jframe(m map[string]any) []byte {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return append(b, 0x1e)
}

func (jsonWire) Inv(typ int, id, target string, args []any, streams []string) []byte {
	if args == nil {
		args = []any{}
	}
	m := map[string]any{"type": typ, "target": target, "arguments": args}
	if id != "" {
		m["invocationId"] = id
	}
	if streams != nil {
		m["streamIds"] = streams
	}
	return jframe(m)
}

func (jsonWire) Item(id string, v any) []byte {
	return jframe(map[string]any{"type": 2, "invocationId": id, "item": v})
}

func (jsonWire) Completion(id string, result any, hasResult bool, errText string) []byte {
	m := map[string]any{"type": 3, "invocationId": id}
	if hasResult {
		m["result"] = result
	}
	if errText != "" {
		m["error"] = errText
	}
	return jframe(m)
}

func (jsonWire) Cancel(id string) []byte {
	return jframe(map[string]any{"type": 5, "invocationId": id})
}
func (jsonWire) Ping() []byte { return jframe(map[string]any{"type": 6}) }
func (jsonWire) Close(errText string, reconnect bool) []byte {
	m := map[string]any{"type": 7}
	if errText != "" {
		m["error"] = errText
	}
	if reconnect {
		m["allowReconnect"] = true
	}
	return jframe(m)
}

func (jsonWire) Parse(b []byte) (msgs []Msg, rest []byte, err error) {
	for {
		i := bytes.IndexByte(b, 0x1e)
		if i < 0 {
			return msgs, b, nil
		}
		m := map[string]any{}
		if err := json.Unmarshal(b[:i], &m); err != nil {
			return msgs, b, fmt.Errorf("not a JSON message: %q: %v", b[:i], err)
		}
		b = b[i+1:]
		var g Msg
		t, ok := m["type"].(float64)
		if !ok {
			return msgs, b, fmt.Errorf("message without type: %v", m)
		}
		g.Type = int(t)
		if id, ok := m["invocationId"]; ok {
			if g.ID, ok = id.(string); !ok {
				return msgs, b, fmt.Errorf("invocationId is no string: %v", m)
			}
			g.HasID = true
		}
		if v, ok := m["target"].(string); ok {
			g.Target = v
		}
		if v, ok := m["arguments"].([]any); ok {
			g.Args = v
		} else if g.Type == 1 || g.Type == 4 {
			return msgs, b, fmt.Errorf("invocation without arguments: %v", m)
		}
		if v, ok := m["streamIds"].([]any); ok {
			for _, s := range v {
				str, _ := s.(string)
				g.Streams = append(g.Streams, str)
			}
		}
		g.Item = m["item"]
		g.Result, g.HasResult = m["result"]
		if v, ok := m["error"].(string); ok {
			g.Error = v
		}
		if v, ok := m["allowReconnect"].(bool); ok {
			g.Reconnect = v
		}
		msgs = append(msgs, g)
	}
}

type mpWire struct{}

func (mpWire) Name() string { return "messagepack" }

func mpFrame(body []byte) []byte {
	return append(binary.AppendUvarint(nil, uint64(len(body))), body...)
}

func (mpWire) Inv(typ int, id, target string, args []any, streams []string) []byte {
	n := 5
	if streams != nil {
		n = 6
	}
	b := mpEnc(nil, mpArr(n))
	b = mpEnc(b, typ)
	b = mpEnc(b, map[string]any{})
	if id == "" {
		b = mpEnc(b, nil)
	} else {
		b = mpEnc(b, id)
	}
	b = mpEnc(b, target)
	b = mpEnc(b, mpArr(len(args)))
	for _, a := range args {
		b = mpEnc(b, a)
	}
	if streams != nil {
		b = mpEnc(b, mpArr(len(streams)))
		for _, s := range streams {
			b = mpEnc(b, s)
		}
	}
	return mpFrame(b)
}

func (mpWire) Item(id string, v any) []byte {
	b := mpEnc(nil, mpArr(4))
	b = mpEnc(b, 2)
	b = mpEnc(b, map[string]any{})
	b = mpEnc(b, id)
	return mpFrame(mpEnc(b, v))
}

func (mpWire) Completion(id string, result any, hasResult bool, errText string) []byte {
	n, kind := 4, 2
	if errText != "" {
		n, kind = 5, 1
	} else if hasResult {
		n, kind = 5, 3
	}
	b := mpEnc(nil, mpArr(n))
	b = mpEnc(b, 3)
	b = mpEnc(b, map[string]any{})
	b = mpEnc(b, id)
	b = mpEnc(b, kind)
	switch kind {
	case 1:
		b = mpEnc(b, errText)
	case 3:
		b = mpEnc(b, result)
	}
	return mpFrame(b)
}

func (mpWire) Cancel(id string) []byte {
	b := mpEnc(nil, mpArr(3))
	b = mpEnc(b, 5)
	b = mpEnc(b, map[string]any{})
	return mpFrame(mpEnc(b, id))
}

func (mpWire) Ping() []byte { return mpFrame(mpEnc(mpEnc(nil, mpArr(1)), 6)) }

func (mpWire) Close(errText string, reconnect bool) []byte {
	b := mpEnc(nil, mpArr(3))
	b = mpEnc(b, 7)
	b = mpEnc(b, errText)
	return mpFrame(mpEnc(b, reconnect))
}

func (mpWire) Parse(b []byte) (msgs []Msg, rest []byte, err error) {
	for len(b) > 0 {
		l, n := binary.Uvarint(b)
		if n == 0 || n > 0 && uint64(len(b)-n) < l {
			return msgs, b, nil
		}
		if n < 0 || l == 0 {
			return msgs, b, fmt.Errorf("bad frame length")
		}
		m, err := mpMsg(b[n : n+int(l)])
		if err != nil {
			return msgs, b, err
		}
		b = b[n+int(l):]
		msgs = append(msgs, m)
	}
	return msgs, b, nil
}

func mpMsg(b []byte) (m Msg, err error) {
	v, rest, err := mpDec(b)
	if err != nil {
		return m, err
	}
	if len(rest) > 0 {
		return m, fmt.Errorf("%d bytes after the message", len(rest))
	}
	a, ok := v.([]any)
	if !ok || len(a) < 1 {
		return m, fmt.Errorf("message is no array: %v", v)
	}
	t, ok := a[0].(float64)
	if !ok {
		return m, fmt.Errorf("message type is no int: %v", a)
	}
	m.Type = int(t)
	need := map[int]int{1: 5, 2: 4, 3: 4, 4: 5, 5: 3, 6: 1, 7: 2}[m.Type]
	if need == 0 || len(a) < need {
		return m, fmt.Errorf("short message %v", a)
	}
	if m.Type < 6 {
		if _, ok := a[1].(map[string]any); !ok {
			return m, fmt.Errorf("headers are no map: %v", a)
		}
	}
	str := func(i int) string {
		s, ok := a[i].(string)
		if !ok && err == nil {
			err = fmt.Errorf("item %d of %v is no string", i, a)
		}
		return s
	}
	switch m.Type {
	case 1, 4:
		if a[2] != nil {
			m.ID, m.HasID = str(2), true
		}
		m.Target = str(3)
		if m.Args, ok = a[4].([]any); !ok {
			return m, fmt.Errorf("arguments are no array: %v", a)
		}
		if len(a) > 5 {
			ss, ok := a[5].([]any)
			if !ok {
				return m, fmt.Errorf("stream ids are no array: %v", a)
			}
			for _, s := range ss {
				x, _ := s.(string)
				m.Streams = append(m.Streams, x)
			}
		}
	case 2:
		m.ID, m.HasID, m.Item = str(2), true, a[3]
	case 3:
		m.ID, m.HasID = str(2), true
		k, _ := a[3].(float64)
		if k != 2 && len(a) < 5 {
			return m, fmt.Errorf("short completion %v", a)
		}
		switch k {
		case 1:
			m.Error = str(4)
		case 2:
		case 3:
			m.Result, m.HasResult = a[4], true
		default:
			return m, fmt.Errorf("bad result kind %v", a)
		}
	case 5:
		m.ID, m.HasID = str(2), true
	case 7:
		if a[1] != nil {
			m.Error = str(1)
		}
		if len(a) > 2 {
			if m.Reconnect, ok = a[2].(bool); !ok {
				return m, fmt.Errorf("allowReconnect is no bool: %v", a)
			}
		}
	}
	return m, err
}

type mpArr int

// mpEnc is a minimal MessagePack encoder.
func mpEnc(b []byte, v any) []byte {
	switch v := v.(type) {
	case nil:
		return append(b, 0xc0)
	case bool:
		if v {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case mpArr:
		if v < 16 {
			return append(b, 0x90|byte(v))
		}
		return binary.BigEndian.AppendUint16(append(b, 0xdc), uint16(v))
	case string:
		switch n := len(v); {
		case n < 32:
			b = append(b, 0xa0|byte(n))
		case n < 256:
			b = append(b, 0xd9, byte(n))
		case n < 65536:
			b = binary.BigEndian.AppendUint16(append(b, 0xda), uint16(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, 0xdb), uint32(n))
		}
		return append(b, v...)
	case []byte:
		b = binary.BigEndian.AppendUint16(append(b, 0xc5), uint16(len(v)))
		return append(b, v...)
	case float64:
		return binary.BigEndian.AppendUint64(append(b, 0xcb), math.Float64bits(v))
	case []any:
		b = mpEnc(b, mpArr(len(v)))
		for _, e := range v {
			b = mpEnc(b, e)
		}
		return b
	case map[string]any:
		b = append(b, 0x80|byte(len(v)))
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			b = mpEnc(b, k)
			b = mpEnc(b, v[k])
		}
		return b
	}
	rv := reflect.ValueOf(v)
	switch {
	case rv.CanInt():
		n := rv.Int()
		switch {
		case n >= 0 && n < 128:
			return append(b, byte(n))
		case n < 0 && n >= -32:
			return append(b, byte(n))
		default:
			return binary.BigEndian.AppendUint64(append(b, 0xd3), uint64(n))
		}
	case rv.CanUint():
		return binary.BigEndian.AppendUint64(append(b, 0xcf), rv.Uint())
	case rv.Kind() == reflect.Slice:
		b = mpEnc(b, mpArr(rv.Len()))
		for i := 0; i < rv.Len(); i++ {
			b = mpEnc(b, rv.Index(i).Interface())
		}
		return b
	}
	panic(fmt.Sprintf("mpEnc: %T", v))
}

var errShort = errors.New("msgpack: short")

// mpDec is a minimal MessagePack decoder. Numbers become float64, but integers beyond 2^53 become int64 / uint64.
func mpDec(b []byte) (v any, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, errShort
	}
	t := b[0]
	b = b[1:]
	take := func(n int) []byte {
		if len(b) < n {
			err = errShort
			return make([]byte, min(n, 16))
		}
		r := b[:n]
		b = b[n:]
		return r
	}
	num := func(n int) uint64 {
		var u uint64
		for _, x := range take(n) {
			u = u<<8 | uint64(x)
		}
		return u
	}
	in := func(i int64) any {
		if i > 1<<53 || i < -(1<<53) {
			return i
		}
		return float64(i)
	}
	arr := func(n int) any {
		a := make([]any, 0)
		for i := 0; i < n && err == nil; i++ {
			var e any
			e, b, err = mpDec(b)
			a = append(a, e)
		}
		return a
	}
	mp := func(n int) any {
		m := map[string]any{}
		for i := 0; i < n && err == nil; i++ {
			var k, e any
			if k, b, err = mpDec(b); err == nil {
				e, b, err = mpDec(b)
			}
			if _, ok := k.(string); !ok {
				k = fmt.Sprintf("%T key %d", k, i)
			}
			m[k.(string)] = e
		}
		return m
	}
	switch {
	case t < 0x80:
		v = float64(t)
	case t < 0x90:
		v = mp(int(t & 15))
	case t < 0xa0:
		v = arr(int(t & 15))
	case t < 0xc0:
		v = string(take(int(t & 31)))
	case t >= 0xe0:
		v = float64(int8(t))
	default:
		switch t {
		case 0xc0:
		case 0xc2, 0xc3:
			v = t == 0xc3
		case 0xc4:
			v = append([]byte{}, take(int(num(1)))...)
		case 0xc5:
			v = append([]byte{}, take(int(num(2)))...)
		case 0xc6:
			v = append([]byte{}, take(int(num(4)))...)
		case 0xca:
			v = float64(math.Float32frombits(uint32(num(4))))
		case 0xcb:
			v = math.Float64frombits(num(8))
		case 0xcc:
			v = float64(num(1))
		case 0xcd:
			v = float64(num(2))
		case 0xce:
			v = float64(num(4))
		case 0xcf:
			u := num(8)
			if u > 1<<53 {
				v = u
			} else {
				v = float64(u)
			}
		case 0xd0:
			v = float64(int8(num(1)))
		case 0xd1:
			v = float64(int16(num(2)))
		case 0xd2:
			v = float64(int32(num(4)))
		case 0xd3:
			v = in(int64(num(8)))
		case 0xd9:
			v = string(take(int(num(1))))
		case 0xda:
			v = string(take(int(num(2))))
		case 0xdb:
			v = string(take(int(num(4))))
		case 0xdc:
			v = arr(int(num(2)))
		case 0xdd:
			v = arr(int(num(4)))
		case 0xde:
			v = mp(int(num(2)))
		case 0xdf:
			v = mp(int(num(4)))
		case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xc7, 0xc8, 0xc9:
			n := map[byte]int{0xd4: 1, 0xd5: 2, 0xd6: 4, 0xd7: 8, 0xd8: 16}[t]
			switch t {
			case 0xc7:
				n = int(num(1))
			case 0xc8:
				n = int(num(2))
			case 0xc9:
				n = int(num(4))
			}
			v = fmt.Sprintf("ext(%x)", take(n+1))
		default:
			err = fmt.Errorf("msgpack: type %#x", t)
		}
	}
	return v, b, err
}
