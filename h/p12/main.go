// Package main checks the life cycle of the subscriptions of generated controllers.
package main

import (
	"context"
	"errors"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/fake"
	"verifh/gen/ctl2"
	"verifh/gen/ctl3"
	"verifh/rig"
	"verifh/v"
)

// channel is one subscription operation of a controller (with fixed parameters).
type channel struct {
	addr    string
	param   bool
	payload string
	sub     func(tag int) error
	unsub   func()
}

// unit is a controller with everything it can subscribe to.
type unit struct {
	chans        []channel
	plain        []string // channels SubscribeAll is about
	all          func(null bool) error
	unall, close func()
	null         error
}

var (
	got   []int // tags of the handlers called
	ended bool  // whether to cancel with a context that is already done
)

type app3sub struct{}

func (app3sub) GetAskOperationReceived(context.Context, ctl3.AskMessage) error      { return hit(-1) }
func (app3sub) GetCallOperationReceived(context.Context, ctl3.CallMessage) error    { return hit(-1) }
func (app3sub) GetEventsOperationReceived(context.Context, ctl3.EventMessage) error { return hit(0) }
func (app3sub) GetOrdersOperationReceived(context.Context, ctl3.OrderMessage) error { return hit(-1) }
func (app3sub) GetPingOperationReceived(context.Context, ctl3.PingMessage) error    { return hit(1) }
func (app3sub) GetQueryOperationReceived(context.Context, ctl3.QueryMessage) error  { return hit(-1) }

type app2sub struct{}

func (app2sub) GetEvents(context.Context, ctl2.EventMessage) error { return hit(0) }
func (app2sub) GetOrders(context.Context, ctl2.OrderMessage) error { return hit(-1) }
func (app2sub) GetPing(context.Context, ctl2.PingMessage) error    { return hit(1) }
func (app2sub) GetQuery(context.Context, ctl2.QueryMessage) error  { return hit(-1) }

type user3sub struct{}

func (user3sub) TellNewsOperationReceived(context.Context, ctl3.NewsMessage) error { return hit(0) }

type user2sub struct{}

func (user2sub) TellNews(context.Context, ctl2.NewsMessage) error    { return hit(0) }
func (user2sub) GetPong(context.Context, ctl2.PongMessage) error     { return hit(1) }
func (user2sub) GetResult(context.Context, ctl2.ResultMessage) error { return hit(-1) }

func hit(tag int) error {
	got = append(got, tag)
	return nil
}

func newUnit(kind int, br *fake.Broker) unit {
	ctx := context.Background()
	end := func() context.Context {
		if !ended {
			return ctx
		}
		done, cancel := context.WithCancel(ctx)
		cancel()
		return done
	}
	switch kind {
	case 0:
		c := rig.App3(br, rig.Options{})
		a, b := ctl3.OrdersChannelParameters{Region: "r1", Kind: "k"}, ctl3.OrdersChannelParameters{Region: "r2", Kind: "k"}
		ord := func(tag int) func(context.Context, ctl3.OrderMessage) error {
			return func(context.Context, ctl3.OrderMessage) error { return hit(tag) }
		}
		return unit{[]channel{
			{"app.events", false, "x", func(tag int) error {
				return c.SubscribeToGetEventsOperation(ctx, func(context.Context, ctl3.EventMessage) error { return hit(tag) })
			}, func() { c.UnsubscribeFromGetEventsOperation(end()) }},
			{"app.ping", false, "x", func(tag int) error {
				return c.SubscribeToGetPingOperation(ctx, func(context.Context, ctl3.PingMessage) error { return hit(tag) })
			}, func() { c.UnsubscribeFromGetPingOperation(end()) }},
			{"app.orders.r1.k.end", true, `{"name":"n"}`, func(tag int) error { return c.SubscribeToGetOrdersOperation(ctx, a, ord(tag)) },
				func() { c.UnsubscribeFromGetOrdersOperation(end(), a) }},
			{"app.orders.r2.k.end", true, `{"name":"n"}`, func(tag int) error { return c.SubscribeToGetOrdersOperation(ctx, b, ord(tag)) },
				func() { c.UnsubscribeFromGetOrdersOperation(end(), b) }},
		}, []string{"app.ask", "app.call", "app.events", "app.ping", "app.query"}, func(null bool) error {
			if null {
				return c.SubscribeToAllChannels(ctx, nil)
			}
			return c.SubscribeToAllChannels(ctx, app3sub{})
		}, func() { c.UnsubscribeFromAllChannels(end()) }, func() { c.Close(end()) }, extensions.ErrNilAppSubscriber}
	case 1:
		c := rig.App2(br, rig.Options{})
		a, b := ctl2.AppOrdersEndParameters{Region: "r1", Kind: "k"}, ctl2.AppOrdersEndParameters{Region: "r2", Kind: "k"}
		ord := func(tag int) func(context.Context, ctl2.OrderMessage) error {
			return func(context.Context, ctl2.OrderMessage) error { return hit(tag) }
		}
		return unit{[]channel{
			{"app.events", false, "x", func(tag int) error {
				return c.SubscribeGetEvents(ctx, func(context.Context, ctl2.EventMessage) error { return hit(tag) })
			}, func() { c.UnsubscribeGetEvents(end()) }},
			{"app.ping", false, "x", func(tag int) error {
				return c.SubscribeGetPing(ctx, func(context.Context, ctl2.PingMessage) error { return hit(tag) })
			}, func() { c.UnsubscribeGetPing(end()) }},
			{"app.orders.r1.k.end", true, `{"name":"n"}`, func(tag int) error { return c.SubscribeGetOrders(ctx, a, ord(tag)) },
				func() { c.UnsubscribeGetOrders(end(), a) }},
			{"app.orders.r2.k.end", true, `{"name":"n"}`, func(tag int) error { return c.SubscribeGetOrders(ctx, b, ord(tag)) },
				func() { c.UnsubscribeGetOrders(end(), b) }},
		}, []string{"app.events", "app.ping", "app.query"}, func(null bool) error {
			if null {
				return c.SubscribeAll(ctx, nil)
			}
			return c.SubscribeAll(ctx, app2sub{})
		}, func() { c.UnsubscribeAll(end()) }, func() { c.Close(end()) }, extensions.ErrNilAppSubscriber}
	case 2:
		c := rig.User3(br, rig.Options{})
		return unit{[]channel{
			{"app.news", false, "x", func(tag int) error {
				return c.SubscribeToTellNewsOperation(ctx, func(context.Context, ctl3.NewsMessage) error { return hit(tag) })
			}, func() { c.UnsubscribeFromTellNewsOperation(end()) }},
		}, []string{"app.news"}, func(null bool) error {
			if null {
				return c.SubscribeToAllChannels(ctx, nil)
			}
			return c.SubscribeToAllChannels(ctx, user3sub{})
		}, func() { c.UnsubscribeFromAllChannels(end()) }, func() { c.Close(end()) }, extensions.ErrNilUserSubscriber}
	default:
		c := rig.User2(br, rig.Options{})
		return unit{[]channel{
			{"app.news", false, "x", func(tag int) error {
				return c.SubscribeTellNews(ctx, func(context.Context, ctl2.NewsMessage) error { return hit(tag) })
			}, func() { c.UnsubscribeTellNews(end()) }},
			{"app.pong", false, "x", func(tag int) error {
				return c.SubscribeGetPong(ctx, func(context.Context, ctl2.PongMessage) error { return hit(tag) })
			}, func() { c.UnsubscribeGetPong(end()) }},
		}, []string{"app.news", "app.pong", "app.result"}, func(null bool) error {
			if null {
				return c.SubscribeAll(ctx, nil)
			}
			return c.SubscribeAll(ctx, user2sub{})
		}, func() { c.UnsubscribeAll(end()) }, func() { c.Close(end()) }, extensions.ErrNilUserSubscriber}
	}
}

// HarnessHistory: after any history of subscriptions and cancellations, the
// broker-side subscriptions are exactly those the caller asked for, and each
// channel's messages reach the handler it was last subscribed with.
//
// verif: maxpaths=2000000 cover=subscribed,ended,already,failed,all,allFailed,closed,again
func HarnessHistory() {
	kind := v.Choice("kind", rig.Kinds)
	br := &fake.Broker{}
	u := newUnit(kind, br)
	tags := map[string]int{} // handler of each subscribed channel
	ever := map[string]bool{}
	steps := v.Bound(3, 4)
	for i := 0; i < steps; i++ {
		op := v.Choice("op", len(u.chans)+4)
		if op < len(u.chans) {
			c := u.chans[op]
			_, there := tags[c.addr]
			if there && v.Bool("unsubscribe") {
				ended = v.Bool("ended")
				c.unsub()
				delete(tags, c.addr)
			} else {
				if v.Bool("failing") {
					br.SubscribeErr = fake.ErrBroker
				}
				calls := br.SubCalls
				err := c.sub(10*(i+1) + op)
				switch {
				case there:
					v.Assert(errors.Is(err, extensions.ErrAlreadySubscribedChannel), "a second subscription is refused")
					v.Assert(br.SubCalls == calls, "a refused subscription does not reach the broker")
					v.Cover("already")
				case br.SubscribeErr != nil:
					v.Assert(errors.Is(err, fake.ErrBroker), "the broker's failure is returned")
					v.Cover("failed")
				default:
					v.Assert(err == nil, "subscribed")
					tags[c.addr] = 10*(i+1) + op
					if ever[c.addr] {
						v.Cover("again")
					}
					ever[c.addr] = true
					v.Cover("subscribed")
				}
				br.SubscribeErr = nil
			}
		} else {
			switch op - len(u.chans) {
			case 0: // cancelling what is not subscribed does nothing
				c := u.chans[v.Choice("idle", len(u.chans))]
				if _, there := tags[c.addr]; !there {
					c.unsub()
				}
			case 1:
				if v.Bool("null") {
					v.Assert(errors.Is(u.all(true), u.null), "a nil subscriber is refused")
					break
				}
				clash := false
				for _, p := range u.plain {
					if _, there := tags[p]; there {
						clash = true
					}
				}
				if v.Bool("failing") {
					br.SubscribeErr = fake.ErrBroker
				}
				err := u.all(false)
				v.Assert((err != nil) == (clash || br.SubscribeErr != nil), "subscribing everything fails when one subscription does")
				if err != nil {
					v.Assert(errors.Is(err, extensions.ErrAlreadySubscribedChannel) && clash || errors.Is(err, fake.ErrBroker) && br.SubscribeErr != nil, "the reason is returned")
					v.Cover("allFailed")
				} else {
					v.Cover("all")
				}
				for _, p := range u.plain {
					if _, there := tags[p]; !there && (err == nil || br.Active(p) == 1) {
						tags[p] = -1
						for j, c := range u.chans {
							if c.addr == p {
								tags[p] = j
							}
						}
					}
				}
				br.SubscribeErr = nil
			case 2:
				ended = v.Bool("ended")
				u.unall()
				tags = map[string]int{}
			default:
				ended = v.Bool("ended")
				u.close()
				tags = map[string]int{}
				v.Cover("closed")
			}
		}
		if ended { // the clean-up takes place all the same
			v.Quiesce()
			ended = false
			v.Cover("ended")
		}
		for _, s := range br.Subs {
			_, there := tags[s.Channel]
			if there {
				v.Assert(br.Active(s.Channel) == 1, "a subscribed channel has one broker subscription")
			} else {
				v.Assert(!s.Active && s.Cleaned == 1, "a cancelled channel has no broker subscription")
			}
		}
		for a := range tags {
			v.Assert(br.Active(a) == 1, "a subscribed channel has one broker subscription")
		}
	}
	for _, c := range u.chans {
		s := br.Last(c.addr)
		if s == nil {
			continue
		}
		got = nil
		m, ack := fake.Message(nil, []byte(c.payload))
		s.S.TransmitReceivedMessage(m)
		v.Quiesce()
		if tag, there := tags[c.addr]; there {
			v.Assert(len(got) == 1 && got[0] == tag, "messages reach the handler of the channel")
			v.Assert(ack.Acks == 1, "handled messages are acknowledged")
		} else {
			v.Assert(len(got) == 0 && ack.Acks == 0, "nothing is handled after the end of the subscription")
		}
	}
}

// HarnessNil: controllers need a broker.
//
// verif: cover=done
func HarnessNil() {
	_, e1 := ctl3.NewAppController(nil)
	_, e2 := ctl3.NewUserController(nil)
	_, e3 := ctl2.NewAppController(nil)
	_, e4 := ctl2.NewUserController(nil)
	for _, e := range []error{e1, e2, e3, e4} {
		v.Assert(errors.Is(e, extensions.ErrNilBrokerController), "a controller without broker is refused")
	}
	br := &fake.Broker{}
	newUnit(v.Choice("kind", rig.Kinds), br).close()
	v.Assert(len(br.Subs) == 0 && len(br.Published) == 0, "closing an idle controller does nothing")
	v.Cover("done")
}

func main() {
	v.Main(map[string]func(){"HarnessHistory": HarnessHistory, "HarnessNil": HarnessNil})
}
