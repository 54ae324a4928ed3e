// Package main checks the acknowledgement contract of received messages.
package main

import (
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/v"
)

// ack counts what reaches the broker side.
type ack struct {
	acks, naks int
	first      string
	onAck      func()
}

func (a *ack) AckMessage() {
	a.acks++
	if a.first == "" {
		a.first = "ack"
	}
	if a.onAck != nil {
		f := a.onAck
		a.onAck = nil
		f()
	}
}

func (a *ack) NakMessage() {
	a.naks++
	if a.first == "" {
		a.first = "nak"
	}
}

// HarnessSequence applies an arbitrary sequence of Ack and Nak calls, directly
// or through a pointer held elsewhere, to one message.
//
//verif: cover=acked,naked,none
func HarnessSequence() {
	a := &ack{}
	msg := extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{
		Headers: map[string][]byte{"k": v.Bytes("hdr", 0, 2)},
		Payload: v.Bytes("payload", 0, 2),
	}, a)
	n := v.Choice("n", v.Bound(5, 8))
	other := &msg
	want := ""
	for i := 0; i < n; i++ {
		isAck := v.Bool("isAck")
		m := &msg
		if v.Bool("alias") {
			m = other
		}
		if isAck {
			m.Ack()
		} else {
			m.Nak()
		}
		if want == "" {
			want = "nak"
			if isAck {
				want = "ack"
			}
		}
		v.Assert(a.acks+a.naks == 1, "exactly one acknowledgement after the first call")
	}
	v.Assert(a.first == want, "the first call decides which acknowledgement is sent")
	v.Assert(n > 0 || a.acks+a.naks == 0, "nothing is acknowledged without a call")
	switch want {
	case "ack":
		v.Cover("acked")
	case "nak":
		v.Cover("naked")
	default:
		v.Cover("none")
	}
	v.Obs("acks", a.acks)
	v.Obs("naks", a.naks)
}

// HarnessDelivered moves the message through a subscription, as brokers do:
// the acknowledgement state belongs to the received message.
//
//verif: cover=done
func HarnessDelivered() {
	msgs := make(chan extensions.AcknowledgeableBrokerMessage, 4)
	sub := extensions.NewBrokerChannelSubscription(msgs, make(chan any, 1))
	n := 1 + v.Choice("n", 3)
	acks := make([]*ack, n)
	payloads := make([][]byte, n)
	for i := range acks {
		acks[i] = &ack{}
		payloads[i] = v.Bytes("p", 0, 2)
		sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(
			extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: payloads[i]}, acks[i]))
	}
	which := v.Choice("which", n)
	for i := 0; i < n; i++ {
		m := <-sub.MessagesChannel()
		v.Assert(v.EqBytes(m.Payload, payloads[i]), "messages arrive in order and unchanged")
		if i == which {
			if v.Bool("nak") {
				m.Nak()
			} else {
				m.Ack()
			}
			m.Ack()
			m.Nak()
		}
	}
	for i := 0; i < n; i++ {
		t := acks[i].acks + acks[i].naks
		if i == which {
			v.Assert(t == 1, "one acknowledgement for the handled message")
		} else {
			v.Assert(t == 0, "no acknowledgement for a message nobody handled")
		}
	}
	v.Cover("done")
}

// HarnessUninitialized: the zero message is told apart from every real one.
//
//verif: cover=zero,real
func HarnessUninitialized() {
	var bm extensions.BrokerMessage
	hasH, hasP := v.Bool("hasHeaders"), v.Bool("hasPayload")
	if hasH {
		bm.Headers = map[string][]byte{}
		if v.Bool("filled") {
			bm.Headers["a"] = v.Bytes("h", 0, 2)
		}
	}
	if hasP {
		bm.Payload = v.Bytes("p", 0, 2)
	}
	u := bm.IsUninitialized()
	v.Assert(u == (!hasH && !hasP), "uninitialized exactly when nothing is set")
	if u {
		v.Cover("zero")
	} else {
		v.Cover("real")
	}
	v.Obs("u", u)
}

func main() {
	v.Main(map[string]func(){
		"HarnessSequence": HarnessSequence, "HarnessDelivered": HarnessDelivered, "HarnessUninitialized": HarnessUninitialized,
	})
}
