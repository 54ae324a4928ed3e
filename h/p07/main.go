// Package main checks the middleware chain of the generated controllers.
package main

import (
	"context"
	"errors"
	"strconv"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/fake"
	"verifh/rig"
	"verifh/v"
)

// behaviours of a middleware
const (
	pass     = iota // returns without calling next
	call            // calls next, returns its error
	twice           // calls next twice
	swallow         // calls next, hides its error
	refuse          // fails without calling next
	late            // calls next, then fails
	modify          // modifies the message, returns
	withctx         // calls next with more context
	behCount
)

type ctxKey int

// chain holds middlewares and what was observed about them for each message.
type chain struct {
	n     int
	beh   []int
	errs  []error
	order []string
}

func newChain(max int) *chain {
	c := &chain{n: v.Choice("n", max+1)}
	for i := 0; i < c.n; i++ {
		c.beh = append(c.beh, v.Choice("beh", behCount))
		c.errs = append(c.errs, errors.New("refused "+strconv.Itoa(i)))
	}
	return c
}

func (c *chain) middlewares(dir, addr, provider string) []extensions.Middleware {
	ms := []extensions.Middleware{}
	for i := 0; i < c.n; i++ {
		i := i
		ms = append(ms, func(ctx context.Context, m *extensions.BrokerMessage, next extensions.NextMiddleware) error {
			c.order = append(c.order, strconv.Itoa(i))
			c.checkCtx(ctx, i)
			v.Assert(ctx.Value(extensions.ContextKeyIsDirection) == dir, "middlewares know the direction")
			v.Assert(ctx.Value(extensions.ContextKeyIsChannel) == addr, "middlewares know the channel")
			v.Assert(ctx.Value(extensions.ContextKeyIsProvider) == provider, "middlewares know the provider")
			v.Assert(ctx.Value(extensions.ContextKeyIsVersion) == "4.5.6", "middlewares know the specification version")
			v.Assert(string(m.Payload[1:]) == c.suffix(i), "a middleware sees the message as left by the previous ones")
			switch c.beh[i] {
			case call:
				return next(ctx)
			case twice:
				if err := next(ctx); err != nil {
					return err
				}
				return next(ctx)
			case swallow:
				_ = next(ctx)
			case refuse:
				return c.errs[i]
			case late:
				_ = next(ctx)
				return c.errs[i]
			case modify:
				m.Payload = append(m.Payload, byte('A'+i))
			case withctx:
				return next(context.WithValue(ctx, ctxKey(i), i))
			}
			return nil
		})
	}
	return ms
}

// suffix is what middlewares before i appended to the payload.
func (c *chain) suffix(i int) string {
	s := ""
	for j := 0; j < i; j++ {
		if c.beh[j] == modify {
			s += string(rune('A' + j))
		}
	}
	return s
}

func (c *chain) checkCtx(ctx context.Context, i int) {
	for j := 0; j < i; j++ {
		v.Assert((ctx.Value(ctxKey(j)) != nil) == (c.beh[j] == withctx), "context changes reach everything downstream")
	}
}

// refused is the index of the first middleware that refuses, or n.
func (c *chain) refused() int {
	for i, b := range c.beh {
		if b == refuse {
			return i
		}
	}
	return c.n
}

// result is the error of the whole chain given that of the core operation.
func (c *chain) result(core error) error {
	r := core
	for i := c.n - 1; i >= 0; i-- {
		switch c.beh[i] {
		case swallow:
			r = nil
		case refuse, late:
			r = c.errs[i]
		}
	}
	return r
}

func (c *chain) checkOrder() {
	last := c.refused()
	want := []string{}
	for i := 0; i <= last && i < c.n; i++ {
		want = append(want, strconv.Itoa(i))
	}
	if last == c.n {
		want = append(want, "core")
	}
	v.Assert(len(c.order) == len(want), "each middleware and the operation run once, or not at all after a refusal")
	for i := range want {
		v.Assert(c.order[i] == want[i], "middlewares run in registration order, before the operation")
	}
	c.order = nil
}

// HarnessSend: the chain around a publication.
//
//verif: cover=refused,sent,failed,modified
func HarnessSend() {
	kind := v.Choice("kind", rig.AllKinds)
	c := newChain(v.Bound(3, 4))
	br := &fake.Broker{}
	if v.Bool("brokerFails") {
		br.PublishErr = fake.ErrBroker
	}
	probe := rig.NewSender(kind, br, rig.Options{})
	wrapped := &ctxBroker{Broker: br, c: c}
	s := rig.NewSender(kind, wrapped, rig.Options{MW: c.middlewares("publication", probe.Addr, probe.Provider)})
	for round := 0; round < 2; round++ {
		p := v.StringOf("p", 1, 1, "a-z")
		br.Published = nil
		err := s.Send(context.Background(), p)
		c.checkOrder()
		v.Assert(errors.Is(err, c.result(br.PublishErr)) && (err == nil) == (c.result(br.PublishErr) == nil), "the sender gets the first error")
		if c.refused() < c.n {
			v.Assert(len(br.Published) == 0, "nothing is published after a refusal")
			v.Cover("refused")
			continue
		}
		if br.PublishErr != nil {
			v.Cover("failed")
			continue
		}
		v.Assert(len(br.Published) == 1, "published once")
		v.Assert(string(br.Published[0].Msg.Payload) == p+c.suffix(c.n), "the message is published as left by the middlewares")
		if c.suffix(c.n) != "" {
			v.Cover("modified")
		}
		v.Cover("sent")
	}
}

// ctxBroker notes when the publication itself takes place.
type ctxBroker struct {
	*fake.Broker
	c *chain
}

func (b *ctxBroker) Publish(ctx context.Context, ch string, m extensions.BrokerMessage) error {
	b.c.order = append(b.c.order, "core")
	b.c.checkCtx(ctx, b.c.n)
	return b.Broker.Publish(ctx, ch, m)
}

// HarnessReceive: the chain around the reception of messages.
//
//verif: cover=refused,handled,failed,modified
func HarnessReceive() {
	kind := v.Choice("kind", rig.AllKinds)
	c := newChain(v.Bound(3, 4))
	br := &fake.Broker{}
	errHandler := errors.New("handler")
	var handlerErr error
	if v.Bool("handlerFails") {
		handlerErr = errHandler
	}
	probe := rig.NewReceiver(kind, br, rig.Options{}, nil)
	var got []string
	var failures []error
	r := rig.NewReceiver(kind, br, rig.Options{
		MW: c.middlewares("reception", probe.Addr, probe.Provider),
		ErrH: func(_ context.Context, topic string, _ *extensions.AcknowledgeableBrokerMessage, err error) {
			v.Assert(topic == probe.Addr, "errors are reported with their channel")
			failures = append(failures, err)
		},
	}, func(ctx context.Context, p string) error {
		c.order = append(c.order, "core")
		c.checkCtx(ctx, c.n)
		if kind >= rig.Kinds {
			v.Assert(ctx.Value(extensions.ContextKeyIsCorrelationID) == rig.CorrelationID, "the handler knows the correlation ID")
		}
		got = append(got, p)
		return handlerErr
	})
	v.Assert(r.Subscribe(context.Background()) == nil, "subscribed")
	for round := 0; round < 2; round++ {
		got, failures = nil, nil
		p := v.StringOf("p", 1, 1, "a-z")
		var h map[string][]byte
		if kind >= rig.Kinds {
			h = map[string][]byte{"correlation_id": []byte(rig.CorrelationID)}
		}
		m, ack := fake.Message(h, []byte(p))
		br.Last(r.Addr).S.TransmitReceivedMessage(m)
		v.Quiesce()
		c.checkOrder()
		want := c.result(handlerErr)
		if want == nil {
			v.Assert(len(failures) == 0, "no error reported without error")
		} else {
			v.Assert(len(failures) == 1 && errors.Is(failures[0], want), "the first error is reported once")
		}
		v.Assert(ack.Acks+ack.Naks <= 1, "one verdict at most")
		if c.refused() < c.n {
			v.Assert(len(got) == 0 && ack.Acks == 0 && (want == nil || ack.Naks == 1), "a refused message is rejected (unless a middleware hides it) and does not reach the handler")
			v.Cover("refused")
			continue
		}
		v.Assert(len(got) == 1 && got[0] == p+c.suffix(c.n), "the handler gets the message as left by the middlewares")
		if handlerErr == nil {
			v.Assert(ack.Acks == 1 && ack.Naks == 0, "a handled message is acknowledged")
			v.Cover("handled")
		} else {
			v.Assert(ack.Acks == 0 && (want == nil || ack.Naks == 1), "a message that could not be handled is rejected, not acknowledged")
			v.Cover("failed")
		}
		if c.suffix(c.n) != "" {
			v.Cover("modified")
		}
	}
	r.Unsubscribe(context.Background())
}

// HarnessConcurrent: the chains of messages processed at the same time do not
// disturb each other.
//
//verif: preempt=3 t.preempt=4 cover=done
func HarnessConcurrent() {
	kind := v.Choice("kind", rig.AllKinds)
	br := &fake.Broker{}
	count := map[byte]int{}
	mw := func(b byte) extensions.Middleware {
		return func(ctx context.Context, m *extensions.BrokerMessage, next extensions.NextMiddleware) error {
			m.Payload = append(m.Payload, b)
			if b == '1' {
				return next(ctx)
			}
			return nil
		}
	}
	s := rig.NewSender(kind, br, rig.Options{MW: []extensions.Middleware{mw('1'), mw('2')}})
	done := make(chan error)
	for _, p := range []string{"x", "y"} {
		p := p
		go func() { done <- s.Send(context.Background(), p) }()
	}
	v.Assert(<-done == nil && <-done == nil, "both sent")
	v.Assert(len(br.Published) == 2, "both published once")
	for _, p := range br.Published {
		v.Assert(len(p.Msg.Payload) == 3 && string(p.Msg.Payload[1:]) == "12", "each message goes through every middleware once")
		count[p.Msg.Payload[0]]++
	}
	v.Assert(count['x'] == 1 && count['y'] == 1, "both published once")
	v.Cover("done")
}

func main() {
	v.Main(map[string]func(){"HarnessSend": HarnessSend, "HarnessReceive": HarnessReceive, "HarnessConcurrent": HarnessConcurrent})
}
