// Package fake holds an in-memory broker and small helpers for harnesses.
package fake

import (
	"context"
	"errors"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/v"
)

// ErrBroker is the failure injected by the broker.
var ErrBroker = errors.New("broker failure")

// Ack records acknowledgements.
type Ack struct{ Acks, Naks int }

// AckMessage implements extensions.BrokerAcknowledgment.
func (a *Ack) AckMessage() { a.Acks++ }

// NakMessage implements extensions.BrokerAcknowledgment.
func (a *Ack) NakMessage() { a.Naks++ }

// Pub is a published message.
type Pub struct {
	Channel string
	Msg     extensions.BrokerMessage
	Ctx     context.Context
}

// Sub is one broker-side subscription.
type Sub struct {
	Channel string
	S       extensions.BrokerChannelSubscription
	Active  bool
	Cleaned int
}

// Broker is an in-memory broker controller.
type Broker struct {
	Published    []Pub
	Subs         []*Sub
	PublishErr   error
	SubscribeErr error
	SubCalls     int
	Queue        int // capacity of the message channels (default 4)
	// OnPublish is called for each accepted publication.
	OnPublish func(p Pub)
	OnClean   func(s *Sub)
}

var _ extensions.BrokerController = (*Broker)(nil)

// Publish implements extensions.BrokerController.
func (b *Broker) Publish(ctx context.Context, channel string, m extensions.BrokerMessage) error {
	if b.PublishErr != nil {
		return b.PublishErr
	}
	// what a real client does: serialise now
	c := extensions.BrokerMessage{Payload: append([]byte(nil), m.Payload...)}
	if m.Headers != nil {
		c.Headers = make(map[string][]byte, len(m.Headers))
		for k, x := range m.Headers {
			c.Headers[k] = append([]byte(nil), x...)
		}
	}
	p := Pub{channel, c, ctx}
	v.Atomic(func() { b.Published = append(b.Published, p) })
	if b.OnPublish != nil {
		b.OnPublish(p)
	}
	return nil
}

// Subscribe implements extensions.BrokerController.
func (b *Broker) Subscribe(_ context.Context, channel string) (extensions.BrokerChannelSubscription, error) {
	b.SubCalls++
	if b.SubscribeErr != nil {
		return extensions.BrokerChannelSubscription{}, b.SubscribeErr
	}
	n := b.Queue
	if n == 0 {
		n = 4
	}
	s := &Sub{Channel: channel, Active: true}
	s.S = extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, n), make(chan any, 1))
	v.Atomic(func() { b.Subs = append(b.Subs, s) })
	s.S.WaitForCancellationAsync(func() {
		v.Atomic(func() {
			s.Active = false
			s.Cleaned++
		})
		if b.OnClean != nil {
			b.OnClean(s)
		}
	})
	return s.S, nil
}

// Active counts the subscriptions still open on a channel.
func (b *Broker) Active(channel string) int {
	n := 0
	v.Atomic(func() {
		for _, s := range b.Subs {
			if s.Channel == channel && s.Active {
				n++
			}
		}
	})
	return n
}

// Route hands a published message to every live subscription of its channel.
func (b *Broker) Route(p Pub) {
	var subs []*Sub
	v.Atomic(func() {
		for _, s := range b.Subs {
			if s.Active && s.Channel == p.Channel {
				subs = append(subs, s)
			}
		}
	})
	for _, s := range subs {
		m, _ := Message(p.Msg.Headers, p.Msg.Payload)
		s.S.TransmitReceivedMessage(m)
	}
}

// Last is the latest subscription on a channel, or nil.
func (b *Broker) Last(channel string) *Sub {
	for i := len(b.Subs) - 1; i >= 0; i-- {
		if b.Subs[i].Channel == channel {
			return b.Subs[i]
		}
	}
	return nil
}

// Message builds a received message and its acknowledgement recorder.
func Message(headers map[string][]byte, payload []byte) (extensions.AcknowledgeableBrokerMessage, *Ack) {
	a := &Ack{}
	return extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{Headers: headers, Payload: payload}, a), a
}

// Entry is one log line.
type Entry struct {
	Level string
	Msg   string
	Info  []extensions.LogInfo
	Ctx   context.Context
}

// Logger records log calls.
type Logger struct{ Entries []Entry }

// Info implements extensions.Logger.
func (l *Logger) Info(ctx context.Context, msg string, info ...extensions.LogInfo) {
	l.Entries = append(l.Entries, Entry{"info", msg, info, ctx})
}

// Warning implements extensions.Logger.
func (l *Logger) Warning(ctx context.Context, msg string, info ...extensions.LogInfo) {
	l.Entries = append(l.Entries, Entry{"warning", msg, info, ctx})
}

// Error implements extensions.Logger.
func (l *Logger) Error(ctx context.Context, msg string, info ...extensions.LogInfo) {
	l.Entries = append(l.Entries, Entry{"error", msg, info, ctx})
}
