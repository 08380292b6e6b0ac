package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/philippseith/signalr"
)

// C02: values survive the trip.

// ---- independent encoders with the freedom that the formats leave

const encVariants = 5

// encJSON writes a value as JSON. Variants: 0 plain, 1 every character of strings escaped, 2 white space, 3 both, 4 upper case escapes and slashes.
func encJSON(v any, variant int) string {
	ws := ""
	if variant == 2 || variant == 3 {
		ws = " \t\n"
	}
	switch v := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(v)
	case string:
		var b strings.Builder
		b.WriteByte('"')
		for _, r := range v {
			esc := variant == 1 || variant == 3 || r < 0x20 || r == '"' || r == '\\' || variant == 4 && r > 0x7e
			f := "\\u%04x"
			if variant == 4 {
				f = "\\u%04X"
				if r == '/' {
					b.WriteString(`\/`)
					continue
				}
				if i := strings.IndexRune("\"\\\b\f\n\r\t", r); i >= 0 {
					b.WriteByte('\\')
					b.WriteByte(`"\bfnrt`[i])
					continue
				}
			}
			switch {
			case !esc:
				b.WriteRune(r)
			case r > 0xffff:
				h, l := utf16.EncodeRune(r)
				fmt.Fprintf(&b, f+f, h, l)
			default:
				fmt.Fprintf(&b, f, r)
			}
		}
		b.WriteByte('"')
		return b.String()
	case []byte:
		return `"` + base64.StdEncoding.EncodeToString(v) + `"`
	case float64:
		s := strconv.FormatFloat(v, 'g', -1, 64)
		if variant == 4 {
			s = strconv.FormatFloat(v, 'E', -1, 64)
		}
		return s
	case float32:
		return strconv.FormatFloat(float64(v), 'g', -1, 32)
	case []any:
		var l []string
		for _, e := range v {
			l = append(l, encJSON(e, variant))
		}
		return "[" + ws + strings.Join(l, ws+","+ws) + ws + "]"
	case map[string]any:
		var l []string
		for _, k := range keysOf(v) {
			l = append(l, encJSON(k, variant)+ws+":"+ws+encJSON(v[k], variant))
		}
		return "{" + ws + strings.Join(l, ws+","+ws) + ws + "}"
	}
	return fmt.Sprint(v)
}

func keysOf(m map[string]any) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// encMP writes a value as MessagePack. Variants: 0 shortest, 1 longest signed, 2 longest unsigned, 3 and 4 middle lengths.
func encMP(b []byte, v any, variant int) []byte {
	length := func(n, fix int, base byte, c8, c16, c32 byte) {
		switch {
		case variant == 0 && n < fix:
			b = append(b, base|byte(n))
		case (variant == 0 || variant == 3) && n < 256 && c8 != 0:
			b = append(b, c8, byte(n))
		case (variant == 0 || variant == 3 || variant == 4) && n < 65536:
			b = binary.BigEndian.AppendUint16(append(b, c16), uint16(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, c32), uint32(n))
		}
	}
	switch v := v.(type) {
	case nil:
		return append(b, 0xc0)
	case bool:
		if v {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case string:
		length(len(v), 32, 0xa0, 0xd9, 0xda, 0xdb)
		return append(b, v...)
	case []byte:
		length(len(v), 0, 0, 0xc4, 0xc5, 0xc6)
		return append(b, v...)
	case float64:
		if variant != 0 && float64(float32(v)) == v {
			return binary.BigEndian.AppendUint32(append(b, 0xca), math.Float32bits(float32(v)))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xcb), math.Float64bits(v))
	case float32:
		return binary.BigEndian.AppendUint32(append(b, 0xca), math.Float32bits(v))
	case []any:
		length(len(v), 16, 0x90, 0, 0xdc, 0xdd)
		for _, e := range v {
			b = encMP(b, e, variant)
		}
		return b
	case map[string]any:
		length(len(v), 16, 0x80, 0, 0xde, 0xdf)
		for _, k := range keysOf(v) {
			b = encMP(b, k, variant)
			b = encMP(b, v[k], variant)
		}
		return b
	case uint64:
		if v <= math.MaxInt64 {
			return encMP(b, int64(v), variant)
		}
		return binary.BigEndian.AppendUint64(append(b, 0xcf), v)
	case int64:
		switch {
		case variant == 1:
			return binary.BigEndian.AppendUint64(append(b, 0xd3), uint64(v))
		case variant == 2 && v >= 0:
			return binary.BigEndian.AppendUint64(append(b, 0xcf), uint64(v))
		case variant == 3 && v >= 0 && v < 1<<16:
			return binary.BigEndian.AppendUint16(append(b, 0xcd), uint16(v))
		case variant == 3 && v >= 0 && v < 1<<32:
			return binary.BigEndian.AppendUint32(append(b, 0xce), uint32(v))
		case variant == 4 && v >= -1<<15 && v < 1<<15:
			return binary.BigEndian.AppendUint16(append(b, 0xd1), uint16(v))
		case variant == 4 && v >= -1<<31 && v < 1<<31:
			return binary.BigEndian.AppendUint32(append(b, 0xd2), uint32(v))
		case v >= 0 && v < 128 || v < 0 && v >= -32:
			return append(b, byte(v))
		case v >= 0 && v < 256:
			return append(b, 0xcc, byte(v))
		case v >= -128 && v < 128:
			return append(b, 0xd0, byte(v))
		case v >= -1<<15 && v < 1<<15:
			return binary.BigEndian.AppendUint16(append(b, 0xd1), uint16(v))
		case v >= 0 && v < 1<<32:
			return binary.BigEndian.AppendUint32(append(b, 0xce), uint32(v))
		case v >= -1<<31 && v < 0:
			return binary.BigEndian.AppendUint32(append(b, 0xd2), uint32(v))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xd3), uint64(v))
	}
	panic(fmt.Sprintf("encMP: %T", v))
}

// tree is the value as both formats see it.
func tree(v reflect.Value) any {
	if !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return tree(v.Elem())
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	case reflect.Float32:
		return float32(v.Float())
	case reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return v.Bytes()
		}
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, tree(v.Index(i)))
		}
		return l
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[k.String()] = tree(v.MapIndex(k))
		}
		return m
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			name, opt, _ := strings.Cut(v.Type().Field(i).Tag.Get("json"), ",")
			if opt == "omitempty" && v.Field(i).IsZero() {
				// whether it is omitted depends on the format and the type
				continue
			}
			m[name] = tree(v.Field(i))
		}
		return m
	}
	if v.CanInt() {
		return v.Int()
	}
	if v.CanUint() {
		return v.Uint()
	}
	panic("tree: " + v.Type().String())
}

// frames with a value written by the independent encoder
func valInv(w Wire, id, target string, v any, variant int) []byte {
	if w.Name() == "json" {
		return []byte(`{"type":1,"invocationId":` + encJSON(id, variant) + `,"target":` + encJSON(target, variant) + `,"arguments":[` + encJSON(v, variant) + `]}` + "\x1e")
	}
	b := encMP(append(encMP(encMP(encMP(encMP([]byte{0x95}, int64(1), 0), map[string]any{}, 0), id, variant), target, variant), 0x91), v, variant)
	return mpFrame(b)
}

func valItem(w Wire, id string, v any, variant int) []byte {
	if w.Name() == "json" {
		return []byte(`{"item":` + encJSON(v, variant) + `,"type":2,"invocationId":` + encJSON(id, variant) + "}\x1e")
	}
	return mpFrame(encMP(encMP(encMP(encMP([]byte{0x94}, int64(2), variant), map[string]any{}, variant), id, variant), v, variant))
}

func valResult(w Wire, id string, v any, variant int) []byte {
	if w.Name() == "json" {
		return []byte(`{"type":3,"invocationId":` + encJSON(id, variant) + `,"result":` + encJSON(v, variant) + "}\x1e")
	}
	return mpFrame(encMP(encMP(encMP(encMP(encMP([]byte{0x95}, int64(3), variant), map[string]any{}, variant), id, variant), int64(3), variant), v, variant))
}

// ---- oracles

// wireMatch compares a value from the wire (or from an interface) with the tree of what was sent. In lossy mode integers may have
// become float64, and byte slices strings.
func wireMatch(w Wire, want, got any, lossy bool) bool {
	if n, ok := got.(json.Number); ok {
		switch t := want.(type) {
		case float64:
			f, err := strconv.ParseFloat(string(n), 64)
			return err == nil && f == t
		case float32:
			f, err := strconv.ParseFloat(string(n), 32)
			return err == nil && float32(f) == t
		case int64:
			return string(n) == strconv.FormatInt(t, 10)
		case uint64:
			return string(n) == strconv.FormatUint(t, 10)
		}
		return false
	}
	switch t := want.(type) {
	case nil:
		if got == nil {
			return true
		}
		rv := reflect.ValueOf(got)
		return rv.Kind() == reflect.Slice && rv.Len() == 0 || rv.Kind() == reflect.Map && rv.Len() == 0
	case bool, string:
		return got == want
	case []byte:
		if w.Name() == "json" {
			s, ok := got.(string)
			b, err := base64.StdEncoding.DecodeString(s)
			return (ok && err == nil && string(b) == string(t)) || got == nil && len(t) == 0
		}
		b, ok := got.([]byte)
		return ok && string(b) == string(t) || got == nil && len(t) == 0
	case []any:
		rv := reflect.ValueOf(got)
		if got == nil || rv.Kind() != reflect.Slice {
			return got == nil && len(t) == 0
		}
		if rv.Len() != len(t) {
			return false
		}
		for i := range t {
			if !wireMatch(w, t[i], rv.Index(i).Interface(), lossy) {
				return false
			}
		}
		return true
	case map[string]any:
		rv := reflect.ValueOf(got)
		if got == nil || rv.Kind() != reflect.Map {
			return got == nil && len(t) == 0
		}
		n := 0
		for _, k := range rv.MapKeys() {
			ks, ok := k.Interface().(string)
			e, found := t[ks]
			if ks == "o" && !found {
				continue // the zero value of a field that may be omitted
			}
			n++
			if !ok || !found || !wireMatch(w, e, rv.MapIndex(k).Interface(), lossy) {
				return false
			}
		}
		return n == len(t)
	}
	rw, rv := reflect.ValueOf(want), reflect.ValueOf(got)
	if got == nil {
		return false
	}
	wf, wi, wu, kind := 0.0, int64(0), uint64(0), 0
	switch {
	case rw.CanFloat():
		wf = rw.Float()
	case rw.CanInt():
		wi, kind = rw.Int(), 1
	case rw.CanUint():
		wu, kind = rw.Uint(), 2
	}
	switch {
	case rv.CanFloat():
		switch kind {
		case 0:
			return rv.Float() == wf || rw.Kind() == reflect.Float32 && float32(rv.Float()) == float32(wf)
		case 1:
			return rv.Float() == float64(wi) && (lossy || wi < 1<<53+1 && wi > -1<<53-1)
		default:
			return rv.Float() == float64(wu) && (lossy || wu < 1<<53+1)
		}
	case rv.CanInt():
		return kind == 1 && rv.Int() == wi || kind == 2 && rv.Int() >= 0 && uint64(rv.Int()) == wu
	case rv.CanUint():
		return kind == 2 && rv.Uint() == wu || kind == 1 && wi >= 0 && rv.Uint() == uint64(wi)
	}
	return false
}

// valEqual is equality of typed values; nil and empty slices and maps are the same.
func valEqual(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() || !a.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return isNull(a) && isNull(b)
		}
		return valEqual(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !valEqual(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if e := b.MapIndex(k); !e.IsValid() || !valEqual(a.MapIndex(k), e) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !valEqual(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

// isNull tells whether both formats know no difference between the value and null.
func isNull(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		return v.IsNil() || isNull(v.Elem())
	case reflect.Slice, reflect.Map:
		return v.IsNil()
	}
	return false
}

// exact parses JSON messages keeping numbers as they are.
func exactValue(x *X, w Wire, frame []byte, typ int) (v any, ok bool) {
	if w.Name() != "json" {
		ms, rest, err := w.Parse(frame)
		if err != nil || len(rest) > 0 || len(ms) != 1 || ms[0].Type != typ {
			x.Fail("malformed", "message %.200x: %v %v", frame, ms, err)
			return nil, false
		}
		switch typ {
		case 1, 4:
			if len(ms[0].Args) != 1 {
				x.Fail("malformed", "invocation with %d arguments: %v", len(ms[0].Args), ms[0])
				return nil, false
			}
			return ms[0].Args[0], true
		case 2:
			return ms[0].Item, true
		}
		return ms[0].Result, true
	}
	i := strings.IndexByte(string(frame), 0x1e)
	if i != len(frame)-1 {
		x.Fail("malformed", "record separator at %d of %d in %.200q", i, len(frame), frame)
		return nil, false
	}
	d := json.NewDecoder(strings.NewReader(string(frame[:i])))
	d.UseNumber()
	m := map[string]any{}
	if err := d.Decode(&m); err != nil || m["type"] != json.Number(fmt.Sprint(typ)) {
		x.Fail("malformed", "message %.200q: %v, want type %d", frame, err, typ)
		return nil, false
	}
	known := map[string]bool{"type": true, "invocationId": typ != 1 || m["invocationId"] != nil, "target": typ == 1 || typ == 4, "arguments": typ == 1 || typ == 4,
		"streamIds": typ == 1 || typ == 4, "item": typ == 2, "result": typ == 3, "error": typ == 3}
	for k := range m {
		if !known[k] {
			x.Fail("malformed", "field %s in %.200q", k, frame)
		}
	}
	switch typ {
	case 1, 4:
		a, _ := m["arguments"].([]any)
		if len(a) != 1 {
			x.Fail("malformed", "invocation with %d arguments: %v", len(a), m)
			return nil, false
		}
		return a[0], true
	case 2:
		return m["item"], true
	}
	if m["error"] != nil {
		x.Fail("error", "completed with error %v", m["error"])
	}
	return m["result"], true
}

// ---- hub and receiver of a type

type valHub[T any] struct {
	signalr.Hub
	v   T
	got *[]T
}

func (h *valHub[T]) Echo(v T) T { *h.got = append(*h.got, v); return v }
func (h *valHub[T]) Get() T     { return h.v }
func (h *valHub[T]) Two() (T, T) {
	return h.v, h.v
}
func (h *valHub[T]) Put(v T) { *h.got = append(*h.got, v) }
func (h *valHub[T]) Stream() <-chan T {
	ch := make(chan T, 2)
	ch <- h.v
	ch <- h.v
	close(ch)
	return ch
}
func (h *valHub[T]) Up(ch <-chan T) {
	for v := range ch {
		*h.got = append(*h.got, v)
	}
}
func (h *valHub[T]) Call() { h.Clients().Caller().Send("recv", h.v) }

type valReceiver[T any] struct{ got *[]T }

func (r *valReceiver[T]) Recv(v T) { *r.got = append(*r.got, v) }

const (
	dirArg = iota
	dirUpload
	dirResult
	dirTwo
	dirStream
	dirCallback
	dirInvoke
	dirPush
	dirRecv
	dirClientResult
	dirClientItem
	dirEndToEnd
	nDirs
)

// decoded tells whether the direction depends on how the peer encodes.
func decoded(dir int) bool {
	return dir == dirArg || dir == dirUpload || dir == dirRecv || dir == dirClientResult || dir == dirClientItem
}

type valType struct {
	name string
	n    int
	run  func(x *X, w Wire, i, dir, variant int)
}

func short(v any) string {
	s := fmt.Sprintf("%T(%+v)", v, v)
	if len(s) > 150 {
		s = fmt.Sprintf("%s... (%d)", s[:150], len(s))
	}
	return s
}

func typed[T any](name string, vals ...T) valType {
	return valType{name, len(vals), func(x *X, w Wire, i, dir, variant int) {
		v := vals[i]
		rv := reflect.ValueOf(&v).Elem()
		tr := tree(rv)
		what := name
		var got []T
		size := uint(1 << 16)
		if strings.HasPrefix(name, "l") {
			size = 8 << 20
		}
		limit := signalr.MaximumReceiveMessageSize(size)
		next := vals[(i+1)%len(vals)]
		ntr := tree(reflect.ValueOf(&next).Elem())
		checkGot := func(want ...T) {
			if len(got) != len(want) {
				x.Fail("lost", "%s: %d values received, want %d", what, len(got), len(want))
				return
			}
			for i := range got {
				rv := reflect.ValueOf(&want[i]).Elem()
				what := fmt.Sprintf("%s %s", what, short(want[i]))
				ok := false
				if strings.HasSuffix(name, "any") {
					// what an interface receives depends on the format
					ok = wireMatch(w, tree(rv), any(got[i]), true)
				} else {
					ok = valEqual(rv, reflect.ValueOf(&got[i]).Elem())
				}
				if !ok {
					x.Fail("changed", "%s received as %s", what, short(got[i]))
				}
			}
			x.Ev("%s %d", what, i)
		}
		checkWire := func(c *Conn, from int, typs ...int) {
			if len(c.writes)-from != len(typs) {
				x.Fail("lost", "%s: %d messages on the wire, want types %v: %.200q", what, len(c.writes)-from, typs, c.out)
				return
			}
			for k, typ := range typs {
				if typ < 0 {
					continue
				}
				g, ok := exactValue(x, w, c.writes[from+k], typ)
				t := tr
				if dir == dirTwo {
					t = []any{tr, tr}
				}
				if ok && !wireMatch(w, t, g, false) {
					x.Fail("changed", "%s %s is %s on the wire", what, short(v), short(g))
				}
			}
			x.Ev("%s %d", what, i)
		}
		checkAny := func(r signalr.InvokeResult) {
			if r.Error != nil {
				x.Fail("error", "%s: %v", what, r.Error)
			} else if !wireMatch(w, tr, r.Value, true) {
				x.Fail("changed", "%s %s received as %s", what, short(v), short(r.Value))
			}
			x.Ev("%s %d", what, i)
		}
		hub := func() signalr.HubInterface { return &valHub[T]{v: v, got: &got} }
		switch dir {
		case dirArg, dirUpload, dirResult, dirTwo, dirStream, dirCallback:
			s, _ := newServer(x, signalr.HubFactory(hub), limit)
			p := connectPeer(x, s, "p", w)
			from := len(p.writes)
			switch dir {
			case dirArg:
				for _, t := range []any{tr, ntr, tr} {
					p.Feed(valInv(w, "1", "put", t, variant))
					x.Idle()
				}
				checkGot(v, next, v)
			case dirUpload:
				p.Feed(w.Inv(1, "1", "up", nil, []string{"s"}))
				for _, t := range []any{tr, ntr, tr} {
					p.Feed(valItem(w, "s", t, variant))
				}
				p.Feed(w.Completion("s", nil, false, ""))
				x.Idle()
				checkGot(v, next, v)
			case dirResult:
				p.Feed(w.Inv(1, "1", "get", nil, nil))
				x.Idle()
				checkWire(p.Conn, from, 3)
			case dirTwo:
				p.Feed(w.Inv(1, "1", "two", nil, nil))
				x.Idle()
				checkWire(p.Conn, from, 3)
			case dirStream:
				p.Feed(w.Inv(4, "1", "stream", nil, nil))
				x.Idle()
				checkWire(p.Conn, from, 2, 2, -1)
			case dirCallback:
				p.Feed(w.Inv(1, "", "call", nil, nil))
				x.Idle()
				checkWire(p.Conn, from, 1)
			}
			if p.Served {
				x.Fail("ended", "%s: connection ended: %v", what, p.ServeErr)
			}
		case dirEndToEnd:
			s, _ := newServer(x, signalr.HubFactory(hub), limit)
			c := newClient(x, w, signalr.WithReceiver(&valReceiver[T]{&got}), limit)
			p := &Peer{Conn: newConn(x, "p"), W: w}
			p.onWrite, c.onWrite = c.Feed, p.Feed
			go func() { _ = s.Serve(p.Conn) }()
			c.C.Start()
			x.Idle()
			r := <-c.C.Invoke("echo", v)
			checkAny(r)
			checkGot(v)
			if e := <-c.C.Send("put", v); e != nil {
				x.Fail("error", "%s: %v", what, e)
			}
			n := 0
			for r := range c.C.PullStream("stream") {
				checkAny(r)
				n++
			}
			if n != 2 {
				x.Fail("lost", "%s: %d stream items", what, n)
			}
			ch := make(chan T, 1)
			ch <- v
			close(ch)
			for r := range c.C.PushStreams("up", ch) {
				if r.Error != nil {
					x.Fail("error", "%s: %v", what, r.Error)
				}
			}
			x.Idle()
			checkGot(v, v, v)
			c.C.Send("call")
			x.Idle()
			checkGot(v, v, v, v)
		default:
			c := newClient(x, w, signalr.WithReceiver(&valReceiver[T]{&got}), limit)
			c.Connect()
			from := len(c.writes)
			switch dir {
			case dirInvoke:
				c.C.Invoke("m", v)
				c.C.Send("m", v)
				x.Idle()
				checkWire(c.Conn, from, 1, 1)
			case dirPush:
				ch := make(chan T, 2)
				ch <- v
				ch <- v
				close(ch)
				c.C.PushStreams("m", ch)
				x.Idle()
				checkWire(c.Conn, from, -1, 2, 2, -1)
			case dirRecv:
				for i, t := range []any{tr, ntr, tr} {
					c.Feed(valInv(w, []string{"", "7", ""}[i], "recv", t, variant))
					x.Idle()
				}
				checkGot(v, next, v)
			case dirClientResult:
				res := c.C.Invoke("m")
				x.Idle()
				c.Feed(valResult(w, NoPing(c.Msgs())[0].ID, tr, variant))
				x.Idle()
				select {
				case r := <-res:
					checkAny(r)
				default:
					x.Fail("lost", "%s: no result", what)
				}
			case dirClientItem:
				res := c.C.PullStream("m")
				x.Idle()
				id := NoPing(c.Msgs())[0].ID
				c.Feed(valItem(w, id, tr, variant))
				c.Feed(w.Completion(id, nil, false, ""))
				x.Idle()
				select {
				case r := <-res:
					checkAny(r)
				default:
					x.Fail("lost", "%s: no item", what)
				}
			}
			if st := c.C.State(); st != signalr.ClientConnected {
				x.Fail("ended", "%s: client state %v, %v", what, st, c.C.Err())
			}
		}
	}}
}

type box[T any] struct {
	F T            `json:"f"`
	L []T          `json:"theList"`
	P *T           `json:"p"`
	M map[string]T `json:"m"`
	O T            `json:"o,omitempty"`
}

type enumStr string
type enumInt int16

// family is a type and what can be built of it.
func family[T any](name string, vals ...T) []valType {
	var zero T
	many := make([]T, 0)
	for len(many) < 17 {
		many = append(many, vals[len(many)%len(vals)])
	}
	mp := map[string]T{}
	for i := 0; i < 17; i++ {
		mp[fmt.Sprintf("key%d\x1e\"é", i)] = vals[i%len(vals)]
	}
	first, last := vals[0], vals[len(vals)-1]
	ptrs := []*T{nil}
	for i := range vals {
		ptrs = append(ptrs, &vals[i])
	}
	boxes := []box[T]{{}, {F: last, L: vals, P: &vals[len(vals)-1], M: mp, O: last}, {F: zero, L: []T{}, P: &zero, M: map[string]T{"": first}}}
	return []valType{
		typed(name, vals...),
		typed("[]"+name, nil, []T{}, []T{first}, vals, many[:15], many[:16], many),
		typed("*"+name, ptrs...),
		typed("map[string]"+name, nil, map[string]T{}, map[string]T{"k": last}, mp),
		typed("box["+name+"]", boxes...),
		typed("[][]"+name, [][]T{}, [][]T{nil, {}, vals}),
		typed("[]*"+name, ptrs, nil),
		typed("[]box["+name+"]", boxes, nil),
		typed("map[string][]"+name, map[string][]T{"a": vals, "": nil}),
		typed("map[string]box["+name+"]", map[string]box[T]{"a": boxes[1]}),
		typed("box[[]"+name+"]", box[[]T]{F: vals, L: [][]T{vals, nil}}),
		typed("box[*"+name+"]", box[*T]{F: &vals[0], L: ptrs}),
		typed("box[box["+name+"]]", box[box[T]]{F: boxes[1], P: &boxes[2], L: boxes, M: map[string]box[T]{"x": boxes[0]}}),
	}
}

func valTypes() []valType {
	var l []valType
	add := func(t ...valType) { l = append(l, t...) }
	add(family("bool", false, true)...)
	add(family[int8]("int8", 0, 1, -1, 127, -128, -32, -33)...)
	add(family[int16]("int16", 0, 128, -129, 255, 256, math.MaxInt16, math.MinInt16)...)
	add(family[int32]("int32", 0, -1, 65535, 65536, math.MaxInt32, math.MinInt32, -32769)...)
	add(family[int64]("int64", 0, -1, 1<<31, -1<<31-1, 1<<32-1, 1<<32, 1<<53, 1<<53+1, -1<<53-1, math.MaxInt64, math.MinInt64)...)
	add(family("int", 0, 42, -1, math.MaxInt, math.MinInt)...)
	add(family[uint8]("uint8", 0, 127, 128, 255)...)
	add(family[uint16]("uint16", 0, 255, 256, math.MaxUint16)...)
	add(family[uint32]("uint32", 0, 65536, math.MaxUint32, 1<<31)...)
	add(family[uint64]("uint64", 0, 1<<32, 1<<53+1, math.MaxInt64, math.MaxInt64+1, math.MaxUint64)...)
	add(family[uint]("uint", 0, 7, math.MaxUint)...)
	add(family[float32]("float32", 0, 1, -1.5, 0.1, 16777217, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e21)...)
	add(family("float64", 0, 1, -1.5, 0.1, 1e20, 1e21, 1e-7, 123456789012345678, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53+2)...)
	add(family("string", "", "a", "\x1e", "\x00\x01\x1f\x7f", "\"\\/\b\f\n\r\t", "<>&\u2028\u2029", "äöü€", "\U0001F600\U0010FFFF", "\uFFFD\uFEFF", "{}\x1e{\"type\":6}\x1e",
		strings.Repeat("x", 31), strings.Repeat("x", 32), strings.Repeat("é", 128), "null", "0")...)
	add(family("[]byte", []byte{}, []byte{0}, []byte{0x1e, 0xff, 0xc0}, []byte(strings.Repeat("\xfe", 31)), []byte(strings.Repeat("b", 256)))...)
	add(family[enumStr]("enumStr", "", "red")...)
	add(family[enumInt]("enumInt", 0, -3, 300)...)
	big := func(n int) string { return strings.Repeat("y", n) }
	add(typed("long string", big(127), big(128), big(255), big(256), big(16383), big(16384), big(65535), big(65536), strings.Repeat("\x1e", 20000), big(100000)))
	add(typed("long bytes", []byte(big(255)), []byte(big(256)), []byte(big(65535)), []byte(big(65536)), []byte(big(100000))))
	ints := func(n int) []int { return make([]int, n) }
	add(typed("long []int", ints(127), ints(255), ints(256), ints(65535), ints(65536)))
	m := func(n int) map[string]int {
		m := map[string]int{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint(i)] = i
		}
		return m
	}
	add(typed("large map", m(255), m(256), m(65535), m(65536)))
	add(typed[any]("any", nil, true, "s", 1.5, "\x1e", []any{}, []any{"a", 1.5, nil, false, []any{"b"}}, map[string]any{"a": "b", "c": []any{nil, 2.5}, "": map[string]any{"x": true}}))
	add(typed[map[string]any]("map[string]any", map[string]any{}, map[string]any{"a": nil, "b": 2.5, "c": "x", "d": map[string]any{"e": []any{"f"}}}))
	return l
}

func init() {
	register(&Property{ID: "C02", Title: "values",
		Rule: "Boundary values of every supported type and of the pointers, slices, maps and structs built of it (nested up to depth 2, sizes around every length " +
			"prefix) x direction (argument, upload item, result, multiple results, stream item, callback, client argument, client upload item, receiver argument, client result, " +
			"client stream item, client to server and back) x ways to encode the same value; objects with missing and with unknown members; up to 40 arguments and 20 streams; both protocols. Each case is one value; a case is non-trivial if it is a distinct value.",
		Scenarios: func() []*Scenario {
			types := valTypes()
			most := 0
			for _, t := range types {
				most = max(most, t.n)
			}
			var out []*Scenario
			for _, w := range wires {
				w := w
				out = append(out, &Scenario{Name: "values/" + w.Name(), Dims: []int{len(types), most, nDirs, encVariants}, NoPoints: true,
					Skip: func(d []int) bool {
						return d[1] >= types[d[0]].n || d[3] > 0 && (!decoded(d[2]) || strings.Contains(types[d[0]].name, "any"))
					},
					Body: func(x *X) { types[x.D[0]].run(x, w, x.D[1], x.D[2], x.D[3]) }})
			}
			// timestamps have a form of their own in both protocols
			times := []time.Time{time.Unix(0, 0).UTC(), time.Date(2024, 2, 29, 23, 59, 59, 0, time.UTC), time.Date(2024, 1, 1, 0, 0, 0, 123456789, time.UTC), time.Date(1900, 1, 1, 0, 0, 0, 1, time.UTC)}
			for _, w := range wires {
				w := w
				out = append(out, &Scenario{Name: "times/" + w.Name(), Dims: []int{len(times)}, NoPoints: true, Body: func(x *X) { timeTrip(x, w, times[x.D[0]]) }})
			}
			// the number of arguments and streams
			for _, w := range wires {
				w := w
				out = append(out, &Scenario{Name: "arguments/" + w.Name(), Dims: []int{len(manyCounts), 4}, NoPoints: true, Body: func(x *X) { manyTrip(x, w, manyCounts[x.D[0]], x.D[1]) }},
					&Scenario{Name: "streams/" + w.Name(), Dims: []int{len(manyChans), 2}, NoPoints: true, Body: func(x *X) { streamsTrip(x, w, manyChans[x.D[0]], x.D[1]) }},
					&Scenario{Name: "mixed/" + w.Name(), Dims: []int{len(manyMixed), 2}, NoPoints: true, Body: func(x *X) { mixedTrip(x, w, manyMixed[x.D[0]], x.D[1]) }})
			}
			// objects with more or fewer members than the type has
			for _, w := range wires {
				w := w
				out = append(out, &Scenario{Name: "members/" + w.Name(), Dims: []int{len(memberCases), 3, 2}, NoPoints: true, Body: func(x *X) {
					membersTrip(x, w, memberCases[x.D[0]], x.D[1], x.D[2])
				}})
			}
			return out
		}})
}

var memberCases = []map[string]any{
	{},
	{"f": 5},
	{"theList": []any{1, 2}, "m": map[string]any{"k": 3}},
	{"f": 5, "theList": []any{1, 2}, "p": 7, "m": map[string]any{"k": 3}, "o": 4},
}

// membersTrip passes an object that has more members than the type: before, between and behind those the type has.
func membersTrip(x *X, w Wire, members map[string]any, dir, extra int) {
	obj := map[string]any{}
	want := box[int]{}
	for k, v := range members {
		obj[k] = v
		switch k {
		case "f":
			want.F = 5
		case "theList":
			want.L = []int{1, 2}
		case "p":
			seven := 7
			want.P = &seven
		case "m":
			want.M = map[string]int{"k": 3}
		case "o":
			want.O = 4
		}
	}
	if extra == 1 {
		obj["aaa"] = "text"
		obj["g"] = map[string]any{"x": []any{1, nil, "y"}, "f": 9}
		obj["zzz"] = nil
		obj["O2"] = []any{map[string]any{"f": 6}}
	}
	var got []box[int]
	if dir == 2 {
		c := newClient(x, w, signalr.WithReceiver(&valReceiver[box[int]]{&got}))
		c.Connect()
		c.Feed(w.Inv(1, "", "recv", []any{obj}, nil))
		x.Idle()
		if st := c.C.State(); st != signalr.ClientConnected {
			x.Fail("ended", "%v: client state %v, %v", obj, st, c.C.Err())
		}
	} else {
		s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &valHub[box[int]]{got: &got} }))
		p := connectPeer(x, s, "p", w)
		if dir == 0 {
			p.Feed(w.Inv(1, "1", "put", []any{obj}, nil))
		} else {
			p.Feed(w.Inv(1, "1", "up", nil, []string{"k"}))
			p.Feed(w.Item("k", obj))
		}
		x.Idle()
		if p.Served {
			x.Fail("ended", "%v: connection ended: %v", obj, p.ServeErr)
		}
	}
	if len(got) != 1 || !reflect.DeepEqual(got[0], want) {
		x.Fail("changed", "%v received as %+v, want %+v", obj, got, want)
	}
	x.Ev("%+v", got)
}

type stampHub struct {
	signalr.Hub
	got *[]time.Time
}

func (h *stampHub) Echo(v time.Time) time.Time { *h.got = append(*h.got, v); return v }
func (h *stampHub) Box(v box[time.Time]) box[time.Time] {
	*h.got = append(*h.got, v.F)
	return v
}

func timeTrip(x *X, w Wire, v time.Time) {
	var got []time.Time
	s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &stampHub{got: &got} }))
	c := newClient(x, w)
	p := &Peer{Conn: newConn(x, "p"), W: w}
	p.onWrite, c.onWrite = c.Feed, p.Feed
	go func() { _ = s.Serve(p.Conn) }()
	c.C.Start()
	x.Idle()
	for _, call := range []<-chan signalr.InvokeResult{c.C.Invoke("echo", v), c.C.Invoke("box", box[time.Time]{F: v})} {
		if r := <-call; r.Error != nil {
			x.Fail("error", "%v: %v", v, r.Error)
		}
	}
	if len(got) != 2 || !got[0].Equal(v) || !got[1].Equal(v) {
		x.Fail("changed", "%v received as %v", v, got)
	}
	x.Ev("%v", got)
}
