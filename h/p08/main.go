// Package main checks how generated controllers process received messages.
package main

import (
	"context"
	"encoding/json"
	"errors"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/fake"
	"verifh/gen/ctl2"
	"verifh/gen/ctl3"
	"verifh/rig"
	"verifh/v"
)

// order is the common view of the order messages of both versions.
type order struct {
	name string
	size *int64
	corr string
	note *string
}

func subscribeOrders(kind int, br *fake.Broker, o rig.Options, region, k string, h func(ctx context.Context, m order) error) (addr string, err error) {
	addr = "app.orders." + region + "." + k + ".end"
	if kind == 0 {
		err = rig.App3(br, o).SubscribeToGetOrdersOperation(context.Background(), ctl3.OrdersChannelParameters{Region: region, Kind: k},
			func(ctx context.Context, m ctl3.OrderMessage) error {
				return h(ctx, order{m.Payload.Name, m.Payload.Size, m.Headers.CorrelationId, m.Headers.Note})
			})
	} else {
		err = rig.App2(br, o).SubscribeGetOrders(context.Background(), ctl2.AppOrdersEndParameters{Region: region, Kind: k},
			func(ctx context.Context, m ctl2.OrderMessage) error {
				return h(ctx, order{m.Payload.Name, m.Payload.Size, m.Headers.CorrelationId, m.Headers.Note})
			})
	}
	return
}

type incoming struct {
	headers      map[string][]byte
	payload      []byte
	want         order
	valid        bool
	handlerFails bool
}

func arbitrary() incoming {
	in := incoming{headers: map[string][]byte{}, valid: true}
	switch v.Choice("form", 7) {
	case 0: // headers of every kind
		if v.Bool("corr") {
			in.want.corr = v.StringOf("id", 0, v.Bound(1, 2), "a-z {}")
			in.headers["correlation_id"] = []byte(in.want.corr)
		}
		if v.Bool("note") {
			n := v.StringOf("n", 0, v.Bound(1, 2), " -~")
			in.want.note = &n
			in.headers["note"] = []byte(n)
		}
		in.want.name = "n"
		in.payload = []byte(`{"name":"n"}`)
	case 1: // an unknown header and a symbolic name
		in.headers["zz"] = v.Bytes("z", 0, 1)
		in.want.name = v.StringOf("name", 0, 2, "a-z \x7f")
		in.payload = []byte(`{"name":"` + in.want.name + `"}`)
	case 2: // optional and unknown properties
		s := int64(v.Choice("size", 3)) - 1
		in.want.name, in.want.size = "n", &s
		in.payload, _ = json.Marshal(map[string]any{"name": "n", "size": s, "other": []int{1}})
		in.handlerFails = v.Bool("handlerFails")
	case 3:
		in.headers["correlation_id"], in.want.corr = []byte("c"), "c"
		in.want.name, in.payload = "n", []byte(`{"name":"n"}`)
		in.handlerFails = true
	case 4:
		in.payload, in.valid = []byte(`{"name":1}`), false
		in.headers["note"] = []byte("n")
	case 5:
		in.payload, in.valid = []byte(`{"name":"a"`), false
	default:
		in.payload = v.Bytes("raw", 0, 1)
		in.valid = false // no JSON object fits in one byte
	}
	return in
}

var errHandler = errors.New("handler")

// HarnessProcess: each message is decoded and handled once with its context,
// then gets the verdict that the outcome calls for; bad messages do not stop
// the reception.
//
//verif: cover=acked,naked,undecodable
func HarnessProcess() {
	kind := v.Choice("kind", 2)
	var ins []incoming
	n := v.Bound(1, 2)
	for i := 0; i < n; i++ {
		ins = append(ins, arbitrary())
	}
	// a plain message afterwards tells whether reception goes on
	ins = append(ins, incoming{headers: map[string][]byte{"correlation_id": []byte("last")}, payload: []byte(`{"name":"z"}`),
		want: order{name: "z", corr: "last"}, valid: true})
	br := &fake.Broker{}
	cur, handled, failures := 0, 0, 0
	var addr string
	var acks []*fake.Ack
	custom := v.Bool("errorHandler")
	o := rig.Options{}
	if custom {
		o.ErrH = func(ctx context.Context, topic string, m *extensions.AcknowledgeableBrokerMessage, err error) {
			failures++
			v.Assert(err != nil, "an error is reported")
			v.Assert(topic == addr, "errors are reported with their channel")
			v.Assert(v.EqBytes(m.Payload, ins[cur].payload), "errors are reported with their message")
			v.Assert(acks[cur].Acks+acks[cur].Naks == 0, "errors are reported before the verdict")
			if ins[cur].valid {
				v.Assert(errors.Is(err, errHandler), "the handler's error is reported")
			}
		}
	}
	region, k := "eu", "k"
	addr, err := subscribeOrders(kind, br, o, region, k, func(ctx context.Context, m order) error {
		in := ins[cur]
		handled++
		v.Assert(in.valid, "an undecodable message does not reach the handler")
		v.Assert(acks[cur].Acks+acks[cur].Naks == 0, "no verdict before the handler returns")
		v.Assert(m.name == in.want.name && m.corr == in.want.corr, "the handler gets the content of the message")
		v.Assert((m.size == nil) == (in.want.size == nil) && (m.size == nil || *m.size == *in.want.size), "optional properties are given when present")
		v.Assert((m.note == nil) == (in.want.note == nil) && (m.note == nil || *m.note == *in.want.note), "optional headers are given when present")
		v.Assert(ctx.Value(extensions.ContextKeyIsDirection) == "reception", "handlers know the direction")
		v.Assert(ctx.Value(extensions.ContextKeyIsChannel) == addr, "handlers know the channel")
		v.Assert(ctx.Value(extensions.ContextKeyIsProvider) == "app", "handlers know the provider")
		v.Assert(ctx.Value(extensions.ContextKeyIsVersion) == "4.5.6", "handlers know the specification version")
		v.Assert(ctx.Value(extensions.ContextKeyIsBrokerMessage) != nil, "handlers know the raw message")
		if in.want.corr != "" {
			v.Assert(ctx.Value(extensions.ContextKeyIsCorrelationID) == in.want.corr, "handlers know the correlation ID")
		} else {
			v.Assert(ctx.Value(extensions.ContextKeyIsCorrelationID) == nil, "no correlation ID is invented")
		}
		v.Assert(ctx.Err() == nil, "the context is live while the handler runs")
		if in.handlerFails {
			return errHandler
		}
		return nil
	})
	v.Assert(err == nil, "subscribed")
	v.Assert(len(br.Subs) == 1 && br.Active(addr) == 1, "subscribed once to the right channel")
	for i, in := range ins {
		cur, handled, failures = i, 0, 0
		m, ack := fake.Message(in.headers, in.payload)
		acks = append(acks, ack)
		br.Last(addr).S.TransmitReceivedMessage(m)
		v.Quiesce()
		good := in.valid && !in.handlerFails
		v.Assert(handled == 1 || (!in.valid && handled == 0), "the handler is called once per decodable message")
		if good {
			v.Assert(ack.Acks == 1 && ack.Naks == 0 && failures == 0, "a handled message is acknowledged")
			v.Cover("acked")
		} else {
			v.Assert(ack.Acks == 0 && ack.Naks == 1, "a message that could not be handled is rejected")
			v.Assert(!custom || failures == 1, "the error is reported once")
			v.Cover("naked")
			if !in.valid {
				v.Cover("undecodable")
			}
		}
	}
}

// HarnessStream: plain messages are handled one after the other, in order,
// whatever their content, until the subscription ends, and never afterwards.
//
//verif: preempt=3 t.preempt=4 cover=done,empty
func HarnessStream() {
	kind := v.Choice("kind", rig.Kinds)
	br := &fake.Broker{}
	var got []string
	running := false
	r := rig.NewReceiver(kind, br, rig.Options{}, func(ctx context.Context, p string) error {
		v.Assert(!running, "messages of a subscription are handled one at a time")
		running = true
		got = append(got, p)
		running = false
		return nil
	})
	v.Assert(r.Subscribe(context.Background()) == nil, "subscribed")
	n := 1 + v.Choice("n", 2)
	empty := v.Choice("empty", n+1)
	var acks []*fake.Ack
	sub := br.Last(r.Addr).S
	for i := 0; i < n; i++ {
		var p []byte
		if i != empty {
			p = []byte{byte('a' + i)}
		} else {
			v.Cover("empty")
		}
		m, a := fake.Message(nil, p)
		acks = append(acks, a)
		sub.TransmitReceivedMessage(m)
	}
	late := v.Bool("late")
	if late {
		v.Quiesce()
	}
	r.Unsubscribe(context.Background())
	v.Quiesce()
	v.Assert(!late || len(got) == n, "messages received before the end are handled, empty ones included")
	for i, p := range got {
		want := string(rune('a' + i))
		if i == empty {
			want = ""
		}
		v.Assert(p == want, "messages are handled in order")
		v.Assert(acks[i].Acks == 1 && acks[i].Naks == 0, "handled messages are acknowledged once")
	}
	for i := len(got); i < n; i++ {
		v.Assert(acks[i].Acks == 0, "messages that are not handled are not acknowledged")
	}
	m, a := fake.Message(nil, []byte("x"))
	sub.TransmitReceivedMessage(m)
	v.Quiesce()
	v.Assert(a.Acks == 0, "nothing is handled after the end of the subscription")
	v.Cover("done")
}

func main() {
	v.Main(map[string]func(){"HarnessProcess": HarnessProcess, "HarnessStream": HarnessStream})
}
