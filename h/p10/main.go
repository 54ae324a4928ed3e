// Package main checks request/reply of generated controllers.
package main

import (
	"context"
	"encoding/json"
	"errors"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/fake"
	"verifh/gen/ctl2"
	"verifh/gen/ctl3"
	"verifh/rig"
	"verifh/v"
)

const kinds = 6

// requester issues requests through one of the generated operations.
type requester struct {
	reqAddr, addr string
	hasID         bool // replies are correlated
	object        bool // the reply payload is a JSON object
	genID         bool // the operation generates missing IDs
	request       func(ctx context.Context, id, text string) (string, error)
}

func newRequester(kind int, br *fake.Broker, o rig.Options) requester {
	switch kind {
	case 0:
		c := rig.User3(br, o)
		return requester{"app.ping", "app.pong", true, false, true, func(ctx context.Context, id, text string) (string, error) {
			m := ctl3.PingMessage{Payload: text}
			if id != "" {
				m.Headers.CorrelationId = &id
			}
			r, err := c.RequestToGetPingOperation(ctx, m)
			return r.Payload, err
		}}
	case 1:
		c := rig.User3(br, o)
		return requester{"app.ask", "app.answer", false, false, false, func(ctx context.Context, id, text string) (string, error) {
			r, err := c.RequestToGetAskOperation(ctx, ctl3.AskMessage{Payload: text})
			return r.Payload, err
		}}
	case 2:
		c := rig.User3(br, o)
		return requester{"app.call", "app.back.me", true, false, true, func(ctx context.Context, id, text string) (string, error) {
			to := "app.back.me"
			m := ctl3.CallMessage{Payload: text}
			m.Headers.ReplyTo = &to
			if id != "" {
				m.Headers.CorrelationId = &id
			}
			r, err := c.RequestToGetCallOperation(ctx, m)
			return r.Payload, err
		}}
	case 3:
		c := rig.User3(br, o)
		return requester{"app.query", "app.result", true, true, true, func(ctx context.Context, id, text string) (string, error) {
			m := ctl3.QueryMessage{Payload: text}
			m.Headers.CorrelationId = id
			r, err := c.RequestToGetQueryOperation(ctx, m)
			return r.Payload.Text, err
		}}
	case 4:
		c := rig.User2(br, o)
		return requester{"app.ping", "app.pong", true, false, false, func(ctx context.Context, id, text string) (string, error) {
			m := ctl2.PingMessage{Payload: text}
			m.Headers.CorrelationId = &id
			r, err := c.WaitForGetPong(ctx, &m, func(ctx context.Context) error { return c.PublishGetPing(ctx, m) })
			return r.Payload, err
		}}
	default:
		c := rig.User2(br, o)
		return requester{"app.query", "app.result", true, true, false, func(ctx context.Context, id, text string) (string, error) {
			m := ctl2.QueryMessage{Payload: text}
			m.Headers.CorrelationId = id
			r, err := c.WaitForGetResult(ctx, &m, func(ctx context.Context) error { return c.PublishGetQuery(ctx, m) })
			return r.Payload.Text, err
		}}
	}
}

func encode(r requester, text string) []byte {
	if !r.object {
		return []byte(text)
	}
	b, _ := json.Marshal(map[string]string{"text": text})
	return b
}

// HarnessReplies: the request is sent once the reply channel is subscribed; the
// first matching reply is returned, whatever comes before; the wait ends with
// the documented error otherwise, and the subscription is cancelled.
//
//verif: preempt=2 t.preempt=3 maxpaths=3000000 cover=replied,ignored,canceled,closed,undecodable
func HarnessReplies() {
	kind := v.Choice("kind", kinds)
	br := &fake.Broker{}
	r := newRequester(kind, br, rig.Options{})
	ctx, cancel := context.WithCancel(context.Background())
	id, text := "id", "t"
	n := v.Choice("n", v.Bound(2, 3)+1)
	if n < 2 {
		if v.Bool("anyID") {
			id = v.StringOf("id", 1, v.Bound(1, 2), "a-z")
		} else if r.genID {
			id = ""
		}
		text = v.StringOf("text", 0, 1, " -~")
	}
	want, found := "", false
	var acks []*fake.Ack
	first := 0
	end := v.Choice("end", 3) // nothing, cancel, close
	br.OnPublish = func(p fake.Pub) {
		v.Assert(p.Channel == r.reqAddr && string(p.Msg.Payload) == text, "the request is sent")
		v.Assert(br.Active(r.addr) == 1, "the reply channel is subscribed before sending")
		sent := string(p.Msg.Headers["correlation_id"])
		v.Assert(id == "" || !r.hasID || sent == id, "the request has the given correlation ID")
		for i := 0; i < n; i++ {
			h := map[string][]byte{}
			payload := encode(r, string(rune('a'+i)))
			match := false
			switch v.Choice("reply", 3) {
			case 0:
				h["correlation_id"] = []byte(sent)
				match = true
			case 1:
				other := v.StringOf("other", 1, 1, "a-z")
				v.Assume(other != sent)
				h["correlation_id"] = []byte(other)
			default: // no ID, or undecodable
				if r.object {
					payload = []byte("{")
					h["correlation_id"] = []byte("zzz")
					v.Cover("undecodable")
				}
			}
			if !r.hasID {
				match = true
			}
			m, a := fake.Message(h, payload)
			acks = append(acks, a)
			br.Last(r.addr).S.TransmitReceivedMessage(m)
			if match && !found {
				want, found, first = string(rune('a'+i)), true, i
			}
		}
		switch end {
		case 1:
			go cancel()
		case 2:
			go br.Last(r.addr).S.Cancel(context.Background())
		}
	}
	if end == 0 {
		// without reply the caller's patience ends the wait
		go func() {
			v.Quiesce()
			if !found {
				cancel()
			}
		}()
	}
	got, err := r.request(ctx, id, text)
	v.Assert(len(br.Published) == 1, "the request is sent exactly once")
	switch {
	case err == nil:
		v.Assert(found && got == want, "the first matching reply is returned")
		for i, a := range acks {
			v.Assert(a.Naks == 0 && (i > first || a.Acks == 1), "received replies are acknowledged once")
			v.Assert(i <= first || a.Acks == 0, "replies that are not looked at are not acknowledged")
		}
		v.Cover("replied")
		if first > 0 {
			v.Cover("ignored")
		}
	case end == 2:
		v.Assert(errors.Is(err, extensions.ErrSubscriptionCanceled), "the end of the subscription is reported")
		// what was received before the end may still be looked at
		v.Cover("closed")
	default:
		v.Assert(!found || end == 1, "a reply that was received is returned")
		v.Assert(errors.Is(err, extensions.ErrContextCanceled), "the end of the context is reported")
		v.Cover("canceled")
	}
	v.Quiesce()
	v.Assert(len(br.Subs) == 1 && br.Active(r.addr) == 0 && br.Subs[0].Cleaned == 1, "the reply subscription is cancelled")
	cancel()
}

// HarnessFailures: a request that cannot be sent or whose reply cannot be
// subscribed fails at once, without leaving anything behind.
//
//verif: cover=subscribe,publish,address
func HarnessFailures() {
	kind := v.Choice("kind", kinds)
	br := &fake.Broker{}
	r := newRequester(kind, br, rig.Options{})
	if v.Bool("noAddress") {
		_, err := rig.User3(br, rig.Options{}).RequestToGetCallOperation(context.Background(), ctl3.CallMessage{Payload: "x"})
		v.Assert(errors.Is(err, extensions.ErrChannelAddressEmpty), "a request without reply address is refused")
		v.Assert(len(br.Published) == 0 && len(br.Subs) == 0, "nothing is done")
		v.Cover("address")
		return
	}
	if v.Bool("subscribe") {
		br.SubscribeErr = fake.ErrBroker
	} else {
		br.PublishErr = fake.ErrBroker
	}
	_, err := r.request(context.Background(), "id", "t")
	v.Assert(errors.Is(err, fake.ErrBroker), "the broker's failure is returned")
	v.Assert(len(br.Published) == 0, "nothing is sent")
	v.Quiesce()
	v.Assert(br.Active(r.addr) == 0, "no subscription is left")
	if br.SubscribeErr != nil {
		v.Cover("subscribe")
	} else {
		v.Cover("publish")
	}
}

var errRefused = errors.New("refused")

// HarnessMiddleware: middlewares run once on the reply, with its context; what
// they change is returned and what they refuse is not.
//
//verif: cover=changed,refused
func HarnessMiddleware() {
	kind := v.Choice("kind", kinds)
	br := &fake.Broker{}
	var r requester
	refuse := v.Bool("refuse")
	patch := string(rune('a' + v.Choice("patch", 3)))
	calls := 0
	mw := func(ctx context.Context, m *extensions.BrokerMessage, next extensions.NextMiddleware) error {
		if ctx.Value(extensions.ContextKeyIsDirection) != "wait-for" {
			return next(ctx)
		}
		calls++
		v.Assert(ctx.Value(extensions.ContextKeyIsChannel) == r.addr, "the channel is known")
		v.Assert(ctx.Value(extensions.ContextKeyIsProvider) == "user", "the provider is known")
		v.Assert(ctx.Value(extensions.ContextKeyIsVersion) == "4.5.6", "the specification version is known")
		v.Assert(ctx.Value(extensions.ContextKeyIsBrokerMessage) != nil, "the raw message is known")
		if r.hasID {
			v.Assert(ctx.Value(extensions.ContextKeyIsCorrelationID) == "id", "the correlation ID is known")
		}
		if refuse {
			return errRefused
		}
		m.Payload = encode(r, patch)
		return next(ctx)
	}
	r = newRequester(kind, br, rig.Options{MW: []extensions.Middleware{mw}})
	br.OnPublish = func(p fake.Pub) {
		m, _ := fake.Message(map[string][]byte{"correlation_id": []byte("id")}, encode(r, "z"))
		br.Last(r.addr).S.TransmitReceivedMessage(m)
	}
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		v.Quiesce()
		cancel()
	}()
	got, err := r.request(ctx, "id", "t")
	v.Assert(calls == 1, "middlewares run once on the reply")
	if refuse {
		v.Assert(err != nil, "a refused reply is not returned")
		v.Cover("refused")
		return
	}
	v.Assert(err == nil && got == patch, "the reply is returned as changed by the middlewares")
	v.Cover("changed")
}

// HarnessEndToEnd: concurrent requests each get the reply made for them by an
// application answering through the same broker.
//
//verif: preempt=2 t.preempt=3 cover=done steps=400000
func HarnessEndToEnd() {
	br := &fake.Broker{}
	br.OnPublish = br.Route
	app := rig.App3(br, rig.Options{})
	ctx := context.Background()
	kind := []int{0, 2, 3}[v.Choice("kind", 3)]
	var err error
	switch kind {
	case 0:
		err = app.SubscribeToGetPingOperation(ctx, func(ctx context.Context, m ctl3.PingMessage) error {
			return app.ReplyToGetPingOperation(ctx, m, func(r *ctl3.PongMessage) { r.Payload = m.Payload + "!" })
		})
	case 2:
		err = app.SubscribeToGetCallOperation(ctx, func(ctx context.Context, m ctl3.CallMessage) error {
			return app.ReplyToGetCallOperation(ctx, m, func(r *ctl3.BackMessage) { r.Payload = m.Payload + "!" })
		})
	default:
		err = app.SubscribeToGetQueryOperation(ctx, func(ctx context.Context, m ctl3.QueryMessage) error {
			return app.ReplyToGetQueryOperation(ctx, m, func(r *ctl3.ResultMessage) { r.Payload.Text = m.Payload + "!" })
		})
	}
	v.Assert(err == nil, "subscribed")
	r := newRequester(kind, br, rig.Options{})
	done := make(chan int, 2)
	id := ""
	if v.Bool("ids") {
		id = "id"
	}
	for i := 0; i < 2; i++ {
		t := string(rune('a' + i))
		n := id
		if id != "" {
			n += t
		}
		go func() {
			got, err := r.request(ctx, n, t)
			v.Assert(err == nil && got == t+"!", "each request gets its own reply")
			done <- 1
		}()
	}
	<-done
	<-done
	app.Close(ctx)
	v.Quiesce()
	for _, s := range br.Subs {
		v.Assert(!s.Active, "no subscription is left")
	}
	v.Cover("done")
}

func main() {
	v.Main(map[string]func(){"HarnessReplies": HarnessReplies, "HarnessFailures": HarnessFailures,
		"HarnessMiddleware": HarnessMiddleware, "HarnessEndToEnd": HarnessEndToEnd})
}
