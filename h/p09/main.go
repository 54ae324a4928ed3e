// Package main checks what generated controllers hand to the broker.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"strconv"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/fake"
	"verifh/gen/ctl2"
	"verifh/gen/ctl3"
	"verifh/gen/par2"
	"verifh/gen/par3"
	"verifh/rig"
	"verifh/v"
)

type ctxKey struct{}

func checkContext(ctx context.Context, provider, addr string) {
	v.Assert(ctx.Value(ctxKey{}) == "caller", "the caller's context values are kept")
	v.Assert(ctx.Value(extensions.ContextKeyIsDirection) == "publication", "the direction is known")
	v.Assert(ctx.Value(extensions.ContextKeyIsChannel) == addr, "the channel is known")
	v.Assert(ctx.Value(extensions.ContextKeyIsProvider) == provider, "the provider is known")
	v.Assert(ctx.Value(extensions.ContextKeyIsVersion) == "4.5.6", "the specification version is known")
	v.Assert(ctx.Value(extensions.ContextKeyIsBrokerMessage) != nil, "the raw message is known")
}

// HarnessContent: one message with the right address, headers and payload is
// handed to the broker, with its context, and the broker's failure is returned.
//
//verif: cover=sent,generated,failed
func HarnessContent() {
	kind := v.Choice("kind", 2)
	ctx := context.WithValue(context.Background(), ctxKey{}, "caller")
	br := &fake.Broker{}
	if v.Bool("failing") {
		br.PublishErr = fake.ErrBroker
	}
	name, corr, region := "n", "c", "eu"
	var size *int64
	var note *string
	switch v.Choice("case", 4) {
	case 0:
		name = v.StringOf("name", 0, v.Bound(1, 2), " -~")
	case 1:
		corr = v.String("corr", 0, v.Bound(2, 3))
	case 2:
		x := v.String("note", 0, v.Bound(1, 2))
		note = &x
		y := int64(v.Choice("size", 3)) * 1000000007
		size = &y
	default:
		region = v.String("region", 0, v.Bound(2, 3))
	}
	var err error
	if kind == 0 {
		m := ctl3.OrderMessage{}
		m.Payload.Name, m.Payload.Size = name, size
		m.Headers.CorrelationId, m.Headers.Note = corr, note
		err = rig.User3(br, rig.Options{}).SendToGetOrdersOperation(ctx, ctl3.OrdersChannelParameters{Region: region, Kind: "k"}, m)
	} else {
		m := ctl2.OrderMessage{}
		m.Payload.Name, m.Payload.Size = name, size
		m.Headers.CorrelationId, m.Headers.Note = corr, note
		err = rig.User2(br, rig.Options{}).PublishGetOrders(ctx, ctl2.AppOrdersEndParameters{Region: region, Kind: "k"}, m)
	}
	if br.PublishErr != nil {
		v.Assert(errors.Is(err, fake.ErrBroker), "the broker's failure is returned")
		v.Cover("failed")
		return
	}
	v.Assert(err == nil && len(br.Published) == 1, "exactly one message is published")
	p := br.Published[0]
	v.Assert(p.Channel == "app.orders."+region+".k.end", "the address holds the parameters")
	checkContext(p.Ctx, "user", p.Channel)
	var got struct {
		Name string
		Size *int64
	}
	var all map[string]json.RawMessage
	v.Assert(json.Unmarshal(p.Msg.Payload, &got) == nil && json.Unmarshal(p.Msg.Payload, &all) == nil, "the payload is JSON")
	v.Assert(got.Name == name, "required properties are sent")
	v.Assert((got.Size == nil) == (size == nil) && (size == nil || *size == *got.Size), "optional properties are sent when set")
	if size == nil {
		v.Assert(len(all) == 1, "nothing else is sent")
	} else {
		v.Assert(len(all) == 2, "nothing else is sent")
	}
	id := string(p.Msg.Headers["correlation_id"])
	if corr != "" {
		v.Assert(id == corr, "the caller's correlation ID is sent")
	} else {
		v.Assert(id != "", "a correlation ID is generated")
		v.Cover("generated")
	}
	v.Assert(p.Ctx.Value(extensions.ContextKeyIsCorrelationID) == id, "the correlation ID is known")
	n, present := p.Msg.Headers["note"]
	v.Assert(present == (note != nil) && (note == nil || string(n) == *note), "optional headers are sent when set")
	v.Assert(v.IteInt(note == nil, 1, 2) == len(p.Msg.Headers), "no header is added")
	v.Cover("sent")
}

// HarnessPlain: every plain sending operation publishes the payload to its own
// channel; correlation IDs are generated only when absent, fresh each time.
//
//verif: cover=done
func HarnessPlain() {
	ctx := context.WithValue(context.Background(), ctxKey{}, "caller")
	br := &fake.Broker{}
	if v.Bool("failing") {
		br.PublishErr = fake.ErrBroker
	}
	p := v.String("payload", 0, 2)
	var id *string
	if v.Bool("withID") {
		x := v.String("id", 0, 2)
		id = &x
	}
	var err error
	var send func() error
	addr, provider, hasID := "", "user", true
	switch v.Choice("op", 8) {
	case 0:
		addr = "app.ping"
		m := ctl3.PingMessage{Payload: p}
		m.Headers.CorrelationId = id
		c := rig.User3(br, rig.Options{})
		send = func() error { return c.SendToGetPingOperation(ctx, m) }
	case 1:
		addr = "app.call"
		m := ctl3.CallMessage{Payload: p}
		m.Headers.CorrelationId = id
		c := rig.User3(br, rig.Options{})
		send = func() error { return c.SendToGetCallOperation(ctx, m) }
	case 2:
		addr = "app.ping"
		m := ctl2.PingMessage{Payload: p}
		m.Headers.CorrelationId = id
		c := rig.User2(br, rig.Options{})
		send = func() error { return c.PublishGetPing(ctx, m) }
	case 3:
		addr, provider = "app.pong", "app"
		m := ctl2.PongMessage{Payload: p}
		m.Headers.CorrelationId = id
		c := rig.App2(br, rig.Options{})
		send = func() error { return c.PublishGetPong(ctx, m) }
	case 4:
		addr, hasID = "app.ask", false
		c := rig.User3(br, rig.Options{})
		send = func() error { return c.SendToGetAskOperation(ctx, ctl3.AskMessage{Payload: p}) }
	case 5:
		addr, hasID, provider = "app.answer", false, "app"
		c := rig.App3(br, rig.Options{})
		send = func() error { return c.SendAsReplyToGetAskOperation(ctx, ctl3.AnswerMessage{Payload: p}) }
	case 6:
		addr, hasID, provider = "app.news", false, "app"
		c := rig.App3(br, rig.Options{})
		send = func() error { return c.SendAsTellNewsOperation(ctx, ctl3.NewsMessage{Payload: p}) }
	default:
		addr, hasID, provider = "app.news", false, "app"
		c := rig.App2(br, rig.Options{})
		send = func() error { return c.PublishTellNews(ctx, ctl2.NewsMessage{Payload: p}) }
	}
	for i := 0; i < 2; i++ {
		err = send()
		if br.PublishErr != nil {
			v.Assert(errors.Is(err, fake.ErrBroker), "the broker's failure is returned")
			return
		}
		v.Assert(err == nil && len(br.Published) == i+1, "exactly one message is published")
		m := br.Published[i]
		v.Assert(m.Channel == addr, "the message goes to the channel of the operation")
		v.Assert(string(m.Msg.Payload) == p, "the payload is sent unchanged")
		checkContext(m.Ctx, provider, addr)
		if !hasID {
			v.Assert(len(m.Msg.Headers) == 0 && m.Ctx.Value(extensions.ContextKeyIsCorrelationID) == nil, "no correlation ID is invented")
			continue
		}
		got, there := m.Msg.Headers["correlation_id"]
		v.Assert(there && len(m.Msg.Headers) == 1, "the correlation ID is sent")
		if id != nil && *id != "" {
			v.Assert(string(got) == *id, "the caller's correlation ID is sent")
		} else {
			v.Assert(len(got) > 8, "a correlation ID is generated")
			v.Assert(i == 0 || string(br.Published[0].Msg.Headers["correlation_id"]) != string(got), "a fresh correlation ID is generated for each message")
		}
		v.Assert(m.Ctx.Value(extensions.ContextKeyIsCorrelationID) == string(got), "the correlation ID is known")
	}
	v.Cover("done")
}

// HarnessReply: replies carry the correlation ID of the request, go to the
// address the request asks for, and are refused when these are missing.
//
//verif: cover=replied,noID,noAddress
func HarnessReply() {
	ctx := context.WithValue(context.Background(), ctxKey{}, "caller")
	br := &fake.Broker{}
	c := rig.App3(br, rig.Options{})
	text := v.String("text", 0, 1)
	var id *string
	if v.Bool("withID") {
		x := v.String("id", 0, 2)
		id = &x
	}
	var err error
	addr, dynamic, hasID, missing := "app.pong", false, true, false
	var to *string
	switch op := v.Choice("op", 6); op {
	case 0: // helper with correlation
		m := ctl3.PingMessage{Payload: "p"}
		m.Headers.CorrelationId = id
		err = c.ReplyToGetPingOperation(ctx, m, func(r *ctl3.PongMessage) { r.Payload = text })
	case 1: // by hand with correlation
		m := ctl3.PongMessage{Payload: text}
		m.Headers.CorrelationId = id
		err = c.SendAsReplyToGetPingOperation(ctx, m)
	case 2, 3: // helper, dynamic address
		addr, dynamic = v.String("addr", 0, 2), true
		if op == 2 {
			to = &addr
		}
		missing = to == nil
		m := ctl3.CallMessage{Payload: "p"}
		m.Headers.CorrelationId, m.Headers.ReplyTo = id, to
		err = c.ReplyToGetCallOperation(ctx, m, func(r *ctl3.BackMessage) { r.Payload = text })
	case 4: // by hand, dynamic address
		addr, dynamic = v.String("addr", 0, 2), true
		m := ctl3.BackMessage{Payload: text}
		m.Headers.CorrelationId = id
		err = c.SendAsReplyToGetCallOperation(ctx, addr, m)
	default:
		addr, hasID = "app.answer", false
		err = c.ReplyToGetAskOperation(ctx, ctl3.AskMessage{Payload: "q"}, func(r *ctl3.AnswerMessage) { r.Payload = text })
	}
	_ = dynamic
	switch {
	case missing:
		v.Assert(errors.Is(err, extensions.ErrChannelAddressEmpty) && len(br.Published) == 0, "a reply without address is refused")
		v.Cover("noAddress")
	case hasID && (id == nil || *id == ""):
		v.Assert(errors.Is(err, extensions.ErrNoCorrelationIDSet) && len(br.Published) == 0, "a reply without correlation ID is refused")
		v.Cover("noID")
	default:
		v.Assert(err == nil && len(br.Published) == 1, "one reply is sent")
		m := br.Published[0]
		v.Assert(m.Channel == addr, "the reply goes to the expected address")
		v.Assert(string(m.Msg.Payload) == text, "the reply has the given content")
		checkContext(m.Ctx, "app", addr)
		if hasID {
			v.Assert(string(m.Msg.Headers["correlation_id"]) == *id, "the reply has the correlation ID of the request")
			v.Assert(m.Ctx.Value(extensions.ContextKeyIsCorrelationID) == *id, "the correlation ID is known")
		}
		v.Cover("replied")
	}
}

// HarnessAddress: both sides compute the address of the specification, with
// the values of the parameters in place, whatever these values.
//
//verif: cover=done
func HarnessAddress() {
	ctx := context.Background()
	br := &fake.Broker{}
	a, b := v.String("a", 0, v.Bound(1, 2)), v.String("b", 0, v.Bound(2, 3))
	var want string
	var sub, send error
	app3, _ := par3.NewAppController(br)
	user3, _ := par3.NewUserController(br)
	app2, _ := par2.NewAppController(br)
	user2, _ := par2.NewUserController(br)
	h2 := func(context.Context, par2.TextMessage) error { return nil }
	t2 := par2.TextMessage{Payload: "t"}
	var unsub func()
	switch v.Choice("channel", 10) {
	case 0:
		want = a + ".of." + b
		q := par3.PairChannelParameters{FirstName: a, LastName: b}
		sub = app3.SubscribeToPairOperation(ctx, q, func(context.Context, par3.TextMessage) error { return nil })
		send = user3.SendToPairOperation(ctx, q, par3.TextMessage{Payload: "t"})
		unsub = func() { app3.UnsubscribeFromPairOperation(ctx, q) }
	case 1:
		want = "app.100%d." + b + ".%%." + b
		q := par3.PercentChannelParameters{Id: b}
		sub = app3.SubscribeToPercentOperation(ctx, q, func(context.Context, par3.TextMessage) error { return nil })
		send = user3.SendToPercentOperation(ctx, q, par3.TextMessage{Payload: "t"})
		unsub = func() { app3.UnsubscribeFromPercentOperation(ctx, q) }
	case 2:
		want = "s/" + a + b
		q := par3.SharedChannelParameters{Region: a, Zone: b}
		sub = app3.SubscribeToSharedOperation(ctx, q, func(context.Context, par3.TextMessage) error { return nil })
		send = user3.SendToSharedOperation(ctx, q, par3.TextMessage{Payload: "t"})
		unsub = func() { app3.UnsubscribeFromSharedOperation(ctx, q) }
	case 3:
		want = "100%d.%s"
		sub = app3.SubscribeToPlainOperation(ctx, func(context.Context, par3.TextMessage) error { return nil })
		send = user3.SendToPlainOperation(ctx, par3.TextMessage{Payload: "t"})
		unsub = func() { app3.UnsubscribeFromPlainOperation(ctx) }
	case 4:
		want = a + ".of." + b
		q := par2.OfParameters{FirstName: a, LastName: b}
		sub, send = app2.SubscribePair(ctx, q, h2), user2.PublishPair(ctx, q, t2)
		unsub = func() { app2.UnsubscribePair(ctx, q) }
	case 5:
		want = "app.100%d." + b + ".%%." + b
		q := par2.App100DParameters{Id: b}
		sub, send = app2.SubscribePercent(ctx, q, h2), user2.PublishPercent(ctx, q, t2)
		unsub = func() { app2.UnsubscribePercent(ctx, q) }
	case 6:
		want = "s/" + a + b
		q := par2.SParameters{Region: a, Zone: b}
		sub, send = app2.SubscribeShared(ctx, q, h2), user2.PublishShared(ctx, q, t2)
		unsub = func() { app2.UnsubscribeShared(ctx, q) }
	case 7:
		want = "100%d.%s"
		sub, send = app2.SubscribePlain(ctx, h2), user2.PublishPlain(ctx, t2)
		unsub = func() { app2.UnsubscribePlain(ctx) }
	case 8:
		want = "t/" + a + "/" + b
		q := par2.TParameters{Tag: par2.TagSchema(a), Free: b}
		sub, send = app2.SubscribeTagged(ctx, q, h2), user2.PublishTagged(ctx, q, t2)
		unsub = func() { app2.UnsubscribeTagged(ctx, q) }
	default:
		n := int64(v.Choice("n", 5)) * -1234567
		want = "n/" + strconv.FormatInt(n, 10)
		q := par2.NParameters{Num: n}
		sub, send = app2.SubscribeNumber(ctx, q, h2), user2.PublishNumber(ctx, q, t2)
		unsub = func() { app2.UnsubscribeNumber(ctx, q) }
	}
	v.Assert(sub == nil && send == nil, "subscribed and sent")
	v.Assert(len(br.Published) == 1 && br.Published[0].Channel == want, "messages are sent to the address of the specification")
	v.Assert(len(br.Subs) == 1 && br.Subs[0].Channel == want, "messages are received from the address of the specification")
	unsub()
	v.Assert(br.Active(want) == 0, "the subscription of these parameters is cancelled")
	v.Cover("done")
}

func main() {
	v.Main(map[string]func(){"HarnessContent": HarnessContent, "HarnessPlain": HarnessPlain, "HarnessReply": HarnessReply, "HarnessAddress": HarnessAddress})
}
