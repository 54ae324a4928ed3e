// Package rig gives a uniform view of the generated controllers of both
// AsyncAPI versions and both sides.
package rig

import (
	"context"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/gen/ctl2"
	"verifh/gen/ctl3"
	"verifh/v"
)

// Options of a controller.
type Options struct {
	MW     []extensions.Middleware
	Logger extensions.Logger
	ErrH   extensions.ErrorHandler
}

func opts3(o Options) (r []ctl3.ControllerOption) {
	if o.MW != nil {
		r = append(r, ctl3.WithMiddlewares(o.MW...))
	}
	if o.Logger != nil {
		r = append(r, ctl3.WithLogger(o.Logger))
	}
	if o.ErrH != nil {
		r = append(r, ctl3.WithErrorHandler(o.ErrH))
	}
	return r
}

func opts2(o Options) (r []ctl2.ControllerOption) {
	if o.MW != nil {
		r = append(r, ctl2.WithMiddlewares(o.MW...))
	}
	if o.Logger != nil {
		r = append(r, ctl2.WithLogger(o.Logger))
	}
	if o.ErrH != nil {
		r = append(r, ctl2.WithErrorHandler(o.ErrH))
	}
	return r
}

func ok(err error) { v.Assert(err == nil, "controller created") }

// App3, User3, App2, User2 create controllers.
func App3(b extensions.BrokerController, o Options) *ctl3.AppController {
	c, err := ctl3.NewAppController(b, opts3(o)...)
	ok(err)
	return c
}

func User3(b extensions.BrokerController, o Options) *ctl3.UserController {
	c, err := ctl3.NewUserController(b, opts3(o)...)
	ok(err)
	return c
}

func App2(b extensions.BrokerController, o Options) *ctl2.AppController {
	c, err := ctl2.NewAppController(b, opts2(o)...)
	ok(err)
	return c
}

func User2(b extensions.BrokerController, o Options) *ctl2.UserController {
	c, err := ctl2.NewUserController(b, opts2(o)...)
	ok(err)
	return c
}

// Kinds is the number of controllers (v3 user/app, v2 user/app).
const Kinds = 4

// AllKinds adds the exchanges of messages with a correlation ID (v3, v2), whose
// ID is CorrelationID.
const AllKinds = 6

// CorrelationID is the correlation ID of the messages of kinds from Kinds on.
const CorrelationID = "c1"

// Sender sends plain text messages through one of the controllers.
type Sender struct {
	Addr, Provider string
	Send           func(ctx context.Context, payload string) error
}

// NewSender creates a sender.
func NewSender(kind int, b extensions.BrokerController, o Options) Sender {
	switch kind {
	case 0:
		c := User3(b, o)
		return Sender{"app.events", "user", func(ctx context.Context, p string) error {
			return c.SendToGetEventsOperation(ctx, ctl3.EventMessage{Payload: p})
		}}
	case 1:
		c := App3(b, o)
		return Sender{"app.news", "app", func(ctx context.Context, p string) error {
			return c.SendAsTellNewsOperation(ctx, ctl3.NewsMessage{Payload: p})
		}}
	case 2:
		c := User2(b, o)
		return Sender{"app.events", "user", func(ctx context.Context, p string) error {
			return c.PublishGetEvents(ctx, ctl2.EventMessage{Payload: p})
		}}
	case 4:
		c := User3(b, o)
		return Sender{"app.ping", "user", func(ctx context.Context, p string) error {
			m := ctl3.PingMessage{Payload: p}
			m.SetCorrelationID(CorrelationID)
			return c.SendToGetPingOperation(ctx, m)
		}}
	case 5:
		c := User2(b, o)
		return Sender{"app.ping", "user", func(ctx context.Context, p string) error {
			m := ctl2.PingMessage{Payload: p}
			m.SetCorrelationID(CorrelationID)
			return c.PublishGetPing(ctx, m)
		}}
	default:
		c := App2(b, o)
		return Sender{"app.news", "app", func(ctx context.Context, p string) error {
			return c.PublishTellNews(ctx, ctl2.NewsMessage{Payload: p})
		}}
	}
}

// Receiver receives plain text messages through one of the controllers.
type Receiver struct {
	Addr, Provider string
	Subscribe      func(ctx context.Context) error
	Unsubscribe    func(ctx context.Context)
	Close          func(ctx context.Context)
}

// NewReceiver creates a receiver.
func NewReceiver(kind int, b extensions.BrokerController, o Options, h func(ctx context.Context, payload string) error) Receiver {
	switch kind {
	case 0:
		c := App3(b, o)
		return Receiver{"app.events", "app", func(ctx context.Context) error {
			return c.SubscribeToGetEventsOperation(ctx, func(ctx context.Context, m ctl3.EventMessage) error { return h(ctx, m.Payload) })
		}, c.UnsubscribeFromGetEventsOperation, c.Close}
	case 1:
		c := User3(b, o)
		return Receiver{"app.news", "user", func(ctx context.Context) error {
			return c.SubscribeToTellNewsOperation(ctx, func(ctx context.Context, m ctl3.NewsMessage) error { return h(ctx, m.Payload) })
		}, c.UnsubscribeFromTellNewsOperation, c.Close}
	case 2:
		c := App2(b, o)
		return Receiver{"app.events", "app", func(ctx context.Context) error {
			return c.SubscribeGetEvents(ctx, func(ctx context.Context, m ctl2.EventMessage) error { return h(ctx, m.Payload) })
		}, c.UnsubscribeGetEvents, c.Close}
	case 4:
		c := App3(b, o)
		return Receiver{"app.ping", "app", func(ctx context.Context) error {
			return c.SubscribeToGetPingOperation(ctx, func(ctx context.Context, m ctl3.PingMessage) error { return h(ctx, m.Payload) })
		}, c.UnsubscribeFromGetPingOperation, c.Close}
	case 5:
		c := App2(b, o)
		return Receiver{"app.ping", "app", func(ctx context.Context) error {
			return c.SubscribeGetPing(ctx, func(ctx context.Context, m ctl2.PingMessage) error { return h(ctx, m.Payload) })
		}, c.UnsubscribeGetPing, c.Close}
	default:
		c := User2(b, o)
		return Receiver{"app.news", "user", func(ctx context.Context) error {
			return c.SubscribeTellNews(ctx, func(ctx context.Context, m ctl2.NewsMessage) error { return h(ctx, m.Payload) })
		}, c.UnsubscribeTellNews, c.Close}
	}
}
