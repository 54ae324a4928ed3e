// Package main checks that what one side sends is what the other side gets,
// for every kind of payload and header.
package main

import (
	"context"
	"math"
	"time"

	"cloud.google.com/go/civil"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/fake"
	"verifh/v"
)

// wire carries one message from a sender to a receiver.
type wire struct {
	br   *fake.Broker
	errs int
	ack  *fake.Ack
}

func (w *wire) onError(context.Context, string, *extensions.AcknowledgeableBrokerMessage, error) {
	w.errs++
}

func newWire() *wire { return &wire{br: &fake.Broker{}} }

// deliver hands a raw message to the subscription of the address.
func (w *wire) deliver(addr string, h map[string][]byte, p []byte) {
	s := w.br.Last(addr)
	v.Assert(s != nil, "the receiving side subscribed to the address of the specification")
	m, a := fake.Message(h, p)
	w.ack = a
	s.S.TransmitReceivedMessage(m)
	v.Quiesce()
	v.Assert(w.ack.Acks+w.ack.Naks == 1, "the message gets one verdict")
}

// refused tells that the message was refused, with the error handler called.
func (w *wire) refused() bool {
	v.Assert((w.ack.Naks == 1) == (w.errs == 1), "a refused message is reported")
	return w.ack.Naks == 1
}

func trip[A, U, M any](w *wire, app A, user U, addr string,
	send func(U, context.Context, M) error,
	sub func(A, context.Context, func(context.Context, M) error) error, m M) (out M) {
	n := 0
	err := sub(app, context.Background(), func(_ context.Context, got M) error {
		n++
		out = got
		return nil
	})
	v.Assert(err == nil, "subscribed")
	v.Assert(send(user, context.Background(), m) == nil, "the message is sent")
	v.Assert(len(w.br.Published) == 1 && w.br.Published[0].Channel == addr, "one message, to the address of the specification")
	p := w.br.Published[0].Msg
	w.deliver(addr, p.Headers, p.Payload)
	v.Assert(!w.refused() && n == 1, "what is sent is accepted by the other side")
	return out
}

// again receives raw content and, when it is accepted, sends it again.
func again[A, U, M any](w *wire, app A, user U, addr string,
	send func(U, context.Context, M) error,
	sub func(A, context.Context, func(context.Context, M) error) error,
	headers map[string][]byte, payload []byte) (extensions.BrokerMessage, bool) {
	var out M
	n := 0
	err := sub(app, context.Background(), func(_ context.Context, got M) error {
		n++
		out = got
		return nil
	})
	v.Assert(err == nil, "subscribed")
	w.deliver(addr, headers, payload)
	if w.refused() {
		v.Assert(n == 0, "a message which cannot be decoded is not handled")
		return extensions.BrokerMessage{}, false
	}
	v.Assert(n == 1, "an accepted message is handled once")
	v.Assert(send(user, context.Background(), out) == nil, "the message is sent again")
	return w.br.Published[0].Msg, true
}

func alloc[T any](p **T) *T {
	*p = new(T)
	return *p
}

func f64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }
func f32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }

var moments = []time.Time{
	time.Date(2024, 2, 29, 23, 59, 59, 0, time.UTC),
	time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2023, 12, 31, 1, 2, 3, 0, time.FixedZone("", 5*3600+30*60)),
	time.Date(1899, 7, 8, 9, 10, 11, 0, time.FixedZone("", -11*3600)),
	time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
	time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC),
}

var days = []civil.Date{{Year: 2024, Month: 2, Day: 29}, {Year: 1, Month: 1, Day: 1}, {Year: 9999, Month: 12, Day: 31}, {Year: 1970, Month: 1, Day: 1}}

func moment(name string) time.Time { return moments[v.Choice(name, len(moments))] }
func day(name string) civil.Date   { return days[v.Choice(name, len(days))] }

// text is a string of arbitrary bytes, for what travels unescaped.
func text(name string) string { return v.String(name, 0, v.Bound(6, 12)) }

// word is a string safe in JSON and in logs.
func word(name string) string { return v.StringOf(name, 0, v.Bound(2, 3), "-~") }

var ints = []int64{0, 1, -1, 1 << 40, math.MinInt64, math.MaxInt64}

func integer(name string) int64 { return ints[v.Choice(name, len(ints))] }

var reals = []float64{0, 1, -0.5, 1e21, 5e-324, math.MaxFloat64, 0.1}

func real(name string) float64 { return reals[v.Choice(name, len(reals))] }

// HarnessScalars: strings, dates, integers and numbers, inline or by reference.
//
// verif: cover=done
func HarnessScalars() {
	if v.Bool("v2") {
		scalars2(v.Choice("kind", 16))
	} else {
		scalars3(v.Choice("kind", 16))
	}
	v.Cover("done")
}

// HarnessJSON: arrays and objects.
//
// verif: cover=done
func HarnessJSON() {
	if v.Bool("v2") {
		structured2(v.Choice("kind", 5))
	} else {
		structured3(v.Choice("kind", 5))
	}
	v.Cover("done")
}

// HarnessHeaders: required and optional headers of every kind.
//
// verif: cover=done
func HarnessHeaders() {
	if v.Bool("v2") {
		headers2(v.Choice("kind", 3))
	} else {
		headers3(v.Choice("kind", 3))
	}
	v.Cover("done")
}

// HarnessForeign: whatever bytes arrive, the message is either refused, or
// handled as the value these bytes stand for.
//
// verif: cover=accepted,refused
func HarnessForeign() {
	k := v.Choice("kind", 18)
	var ok bool
	if v.Bool("v2") {
		ok = foreign2(k)
	} else {
		ok = foreign3(k)
	}
	if ok {
		v.Cover("accepted")
	} else {
		v.Cover("refused")
	}
}

// fixed payload: accepted exactly when it has the right size, unchanged.
func fixed(size int, in []byte, out extensions.BrokerMessage, ok bool) bool {
	v.Assert(ok == (len(in) == size), "a payload of the wrong size is refused, and only it")
	v.Assert(!ok || v.EqBytes(in, out.Payload), "the value is the one of these bytes")
	return ok
}

func same(in []byte, out extensions.BrokerMessage, ok bool) bool {
	v.Assert(ok && v.EqBytes(in, out.Payload), "the value is the one of these bytes")
	return ok
}

// canonical text: when accepted, the same value is written the same way.
func canonical(in []byte, out extensions.BrokerMessage, ok bool, valid bool) bool {
	v.Assert(ok == valid, "exactly well formed values are accepted")
	v.Assert(!ok || v.EqBytes(in, out.Payload), "the value is the one of these bytes")
	return ok
}

var noHeaders = map[string][]byte{}

func raw(name string, max int) []byte { return v.Bytes(name, 0, max) }

var stamps = []string{"2024-02-29T23:59:59Z", "2024-02-29T23:59:59+05:30", "0001-01-01T00:00:00Z",
	"2023-02-29T00:00:00Z", "2024-02-29", "", "2024-02-29T23:59:60Z", "2024-13-01T00:00:00Z", "soon"}

const goodStamps = 3

// stamp is a date-time with two arbitrary bytes in it, or one of the list.
func stamp() (p []byte, good bool) {
	i := v.Choice("in", len(stamps)+v.Bound(1, 4))
	if i < len(stamps) {
		return []byte(stamps[i]), i < goodStamps
	}
	p = []byte("2019-02-13T14:25:36Z")
	at := [][2]int{{5, 6}, {9, 12}, {0, 18}, {14, 3}}[i-len(stamps)]
	x, y := v.Byte("x"), v.Byte("y")
	p[at[0]], p[at[1]] = x, y
	digits := v.And(x >= '0', x <= '9', y >= '0', y <= '9')
	switch i - len(stamps) {
	case 0: // month
		good = v.And(digits, x <= '1', v.Or(x == '0', y <= '2'), v.Or(x == '1', y >= '1'))
	case 3: // minutes, year
		good = v.And(digits, x <= '5')
	default:
		good = digits
	}
	return p, good
}

var dates = []string{"2024-02-29", "0001-01-01", "2023-02-29", "", "2024-2-2", "2024-02-29T23:59:59Z"}

const goodDates = 2

var docs = []string{`{"x":1}`, `{"x":1,"z":-2}`, `{"x":"1"}`, `{`, ``, `[]`, `{"x":1.5}`, `{"x":1}}`, "\xff", `"x"`}

const goodDocs = 2

var bools = []string{"true", "false", "1", "", "tru"}

const goodBools = 2

var additional = []string{
	`{"d":{},"num":{},"o":{"id":""},"s":{}}`,
	`{"d":{"id":true,"x":"2024-02-29"},"num":{"x":-4,"y":9223372036854775807},"o":{"id":"i","x":{"k":"w"},"y":{}},"s":{"id":1,"name":"n","a":"b","q\"\\":"\u0001"}}`,
	`{"d":{},"num":{},"o":{"id":""},"s":{"x":1}}`,
	`{"d":{},"num":{},"o":{"id":""},"s":{"id":"1"}}`,
	`{"d":{},"num":{"x":"1"},"o":{"id":""},"s":{}}`,
	`{"d":{},"num":{},"o":{"id":"","x":[]},"s":{}}`,
	`{"d":{"x":"2023-02-29"},"num":{},"o":{"id":""},"s":{}}`,
}

const goodAdditional = 2

// key is the name of an additional property: any ASCII character but the names
// of the properties.
func key(name string) string {
	k := v.StringOf(name, 0, v.Bound(1, 2), "\x00-\x7f")
	for _, n := range []string{"id", "Id", "iD", "ID"} {
		v.Assume(k != n)
	}
	return k
}

// put adds an item to a map.
func put[T any](m *map[string]T, k string, x T) {
	if *m == nil {
		*m = map[string]T{}
	}
	(*m)[k] = x
}

// item is a new item of a map.
func item[T any](map[string]T) (x T) { return }

// sameMap tells that two maps hold the same.
func sameMap[T comparable](a, b map[string]T) bool {
	for k, x := range b {
		if y, ok := a[k]; !ok || x != y {
			return false
		}
	}
	return len(a) == len(b)
}

func set[T ~string](p *T, s string) { *p = T(s) }

func eq[T comparable](a, b *T) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }

func main() {
	v.Main(map[string]func(){"HarnessScalars": HarnessScalars, "HarnessJSON": HarnessJSON, "HarnessHeaders": HarnessHeaders, "HarnessForeign": HarnessForeign})
}
