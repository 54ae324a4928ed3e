// Package main checks the life cycle of a broker subscription under every
// schedule: delivery, cancellation, clean-up and closing.
package main

import (
	"context"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/v"
)

type noack struct{}

func (noack) AckMessage() {}
func (noack) NakMessage() {}

func newSub(buffered bool) extensions.BrokerChannelSubscription {
	n := 0
	if buffered {
		n = 1
	}
	return extensions.NewBrokerChannelSubscription(
		make(chan extensions.AcknowledgeableBrokerMessage, 2), make(chan any, n))
}

func message(b byte) extensions.AcknowledgeableBrokerMessage {
	return extensions.NewAcknowledgeableBrokerMessage(
		extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: []byte{b}}, noack{})
}

// HarnessCancel: Cancel returns after the clean-up ran once and the messages
// channel is closed, for both kinds of cancel channel and any schedule.
//
// verif: preempt=4 t.preempt=5 cover=done
func HarnessCancel() {
	sub := newSub(v.Bool("buffered"))
	cleaned := 0
	sub.WaitForCancellationAsync(func() { cleaned++ })
	sub.Cancel(context.Background())
	v.Assert(cleaned == 1, "clean-up completed when Cancel returned")
	_, open := <-sub.MessagesChannel()
	v.Assert(!open, "messages channel closed after Cancel")
	v.Quiesce()
	v.Assert(cleaned == 1, "clean-up runs once")
	v.Cover("done")
}

// HarnessCancelTwice: cancelling again, one after the other or at the same
// time, never crashes, never blocks and never cleans up twice.
//
// verif: preempt=4 t.preempt=5 cover=done
func HarnessCancelTwice() {
	sub := newSub(v.Bool("buffered"))
	cleaned := 0
	sub.WaitForCancellationAsync(func() { cleaned++ })
	if v.Bool("concurrent") {
		done := make(chan bool)
		go func() {
			sub.Cancel(context.Background())
			v.Assert(cleaned == 1, "clean-up completed when Cancel returned")
			done <- true
		}()
		sub.Cancel(context.Background())
		<-done
	} else {
		sub.Cancel(context.Background())
		sub.Cancel(context.Background())
		sub.Cancel(context.Background())
	}
	v.Assert(cleaned == 1, "clean-up runs once")
	v.Cover("done")
}

// HarnessCancelContext: when the caller gives up, Cancel still returns, and
// the clean-up still takes place afterwards.
//
// verif: preempt=4 t.preempt=5 cover=early,late
func HarnessCancelContext() {
	sub := newSub(v.Bool("buffered"))
	release := make(chan bool)
	cleaned := 0
	sub.WaitForCancellationAsync(func() { <-release; cleaned++ })
	ctx, cancel := context.WithCancel(context.Background())
	go cancel()
	sub.Cancel(ctx)
	v.Assert(ctx.Err() != nil, "Cancel returns before the clean-up only when the context is done")
	v.Assert(cleaned == 0, "clean-up was blocked")
	v.Cover("early")
	close(release)
	v.Quiesce()
	v.Assert(cleaned == 1, "the clean-up completes after an abandoned Cancel")
	_, open := <-sub.MessagesChannel()
	v.Assert(!open, "messages channel closed")
	v.Cover("late")
}

// HarnessTransmitRace: a broker that is still delivering when the user cancels
// neither crashes nor blocks for ever, and what was received is a prefix of
// what was sent.
//
// verif: preempt=3 t.preempt=4 cover=done
func HarnessTransmitRace() {
	sub := newSub(v.Bool("buffered"))
	cleaned := 0
	sub.WaitForCancellationAsync(func() { cleaned++ })
	n := 1 + v.Choice("n", 3)
	sent := make(chan bool)
	go func() {
		for i := 0; i < n; i++ {
			sub.TransmitReceivedMessage(message(byte(i)))
		}
		close(sent)
	}()
	read := v.Choice("read", 2)
	got := 0
	for i := 0; i < read; i++ {
		m := <-sub.MessagesChannel()
		v.Assert(len(m.Payload) == 1 && m.Payload[0] == byte(got), "messages are received in order")
		got++
	}
	sub.Cancel(context.Background())
	v.Assert(cleaned == 1, "clean-up completed when Cancel returned")
	for m := range sub.MessagesChannel() {
		v.Assert(len(m.Payload) == 1 && m.Payload[0] == byte(got), "messages are received in order")
		got++
	}
	<-sent
	v.Cover("done")
}

// HarnessDeliver: without cancellation every message arrives, in order, once.
//
// verif: preempt=4 t.preempt=5 cover=done
func HarnessDeliver() {
	sub := newSub(v.Bool("buffered"))
	sub.WaitForCancellationAsync(func() {})
	n := 1 + v.Choice("n", 4)
	p := make([][]byte, n)
	for i := range p {
		p[i] = v.Bytes("payload", 0, 1)
	}
	go func() {
		for i := 0; i < n; i++ {
			sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(
				extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: p[i]}, noack{}))
		}
	}()
	for i := 0; i < n; i++ {
		m, open := <-sub.MessagesChannel()
		v.Assert(open, "open")
		v.Assert(v.EqBytes(m.Payload, p[i]), "every message arrives once, in order, unchanged")
	}
	sub.Cancel(context.Background())
	_, open := <-sub.MessagesChannel()
	v.Assert(!open, "closed")
	v.Cover("done")
}

// HarnessSlow: time changes nothing: however long the clean-up, the reader or
// the broker takes, Cancel returns after the clean-up (or when the caller's
// deadline has passed), and every message is delivered. Time is virtual.
//
// verif: vtime=1 timers=1 preempt=2 t.preempt=3 cover=done,late
func HarnessSlow() {
	sub := newSub(v.Bool("buffered"))
	cleaned := 0
	sub.WaitForCancellationAsync(func() {
		time.Sleep(time.Hour)
		cleaned++
	})
	n := 3 + v.Choice("n", 2)
	go func() {
		for i := 0; i < n; i++ {
			sub.TransmitReceivedMessage(message(byte(i)))
			time.Sleep(time.Minute)
		}
	}()
	for i := 0; i < n; i++ {
		time.Sleep(3 * time.Minute)
		m, open := <-sub.MessagesChannel()
		v.Assert(open && len(m.Payload) == 1 && m.Payload[0] == byte(i), "a slow reader receives every message, in order")
	}
	if v.Bool("deadline") {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		sub.Cancel(ctx)
		v.Assert(cleaned == 0 && ctx.Err() != nil, "Cancel returns when the deadline of the caller has passed")
		for range sub.MessagesChannel() {
			v.Fail("nothing more is received")
		}
		v.Assert(cleaned == 1, "the messages channel is closed after the clean-up")
		v.Cover("late")
		return
	}
	sub.Cancel(context.Background())
	v.Assert(cleaned == 1, "clean-up completed when Cancel returned, however long it took")
	_, open := <-sub.MessagesChannel()
	v.Assert(!open, "messages channel closed after Cancel")
	v.Cover("done")
}

func main() {
	v.Main(map[string]func(){
		"HarnessSlow":   HarnessSlow,
		"HarnessCancel": HarnessCancel, "HarnessCancelTwice": HarnessCancelTwice, "HarnessCancelContext": HarnessCancelContext,
		"HarnessTransmitRace": HarnessTransmitRace, "HarnessDeliver": HarnessDeliver,
	})
}
