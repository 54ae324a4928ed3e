// Package main checks subject matching and message dispatch of the JetStream
// broker controller.
package main

import (
	"context"
	"errors"
	"strings"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"

	"verifh/v"
)

// validSubject: non-empty tokens without wildcards.
func validSubject(s string) bool {
	for _, t := range strings.Split(s, ".") {
		if t == "" || t == "*" || t == ">" {
			return false
		}
	}
	return true
}

// validPattern: non-empty tokens, "full" wildcard only at the end.
func validPattern(p string) bool {
	ts := strings.Split(p, ".")
	for i, t := range ts {
		if t == "" || (t == ">" && i != len(ts)-1) {
			return false
		}
	}
	return true
}

// matches is the reference semantics of NATS subjects, written on the strings.
func matches(p, s string) bool {
	for {
		pt, pr, pmore := strings.Cut(p, ".")
		st, sr, smore := strings.Cut(s, ".")
		if pt == ">" && !pmore {
			return true // at least one token is left in s
		}
		if pt != "*" && pt != st {
			return false
		}
		if !pmore || !smore {
			return pmore == smore
		}
		p, s = pr, sr
	}
}

// HarnessMatch compares the matcher with the reference on every valid pattern
// and subject, and checks that it terminates normally on every other one.
//
//verif: cover=match,nomatch,invalid
func HarnessMatch() {
	p := v.StringOf("pattern", 0, v.Bound(5, 7), "ab.*>")
	s := v.StringOf("subject", 0, v.Bound(5, 6), "ab.")
	got := natsjetstream.MatchSubjectSubscription(p, s)
	v.Obs("m", got)
	if p == "" || s == "" || !validPattern(p) || !validSubject(s) {
		v.Cover("invalid")
		return
	}
	v.Assert(got == matches(p, s), "subject matching follows the NATS wildcard rules")
	if got {
		v.Cover("match")
	} else {
		v.Cover("nomatch")
	}
}

// HarnessMatchBytes: literal tokens match byte for byte, whatever the bytes.
//
//verif: cover=match,nomatch
func HarnessMatchBytes() {
	a, b := v.String("a", 1, 2), v.String("b", 1, 2)
	v.Assume(v.AllIn(a, "\x01-)+-\x2d/-=?-\xff"))
	v.Assume(v.AllIn(b, "\x01-)+-\x2d/-=?-\xff"))
	got := natsjetstream.MatchSubjectSubscription("x."+a, "x."+b)
	v.Assert(got == (a == b), "literal tokens match exactly when they are equal")
	if got {
		v.Cover("match")
	} else {
		v.Cover("nomatch")
	}
	v.Assert(natsjetstream.MatchSubjectSubscription("x.*", "x."+b), "one-token wildcard")
	v.Assert(natsjetstream.MatchSubjectSubscription(">", b), "full wildcard")
}

// msg is a JetStream message that records its acknowledgements.
type msg struct {
	subject string
	data    []byte
	hdr     nats.Header
	acks    int
	naks    int
	delay   time.Duration
	err     error
}

func (m *msg) Metadata() (*jetstream.MsgMetadata, error) { return nil, errors.New("none") }
func (m *msg) Data() []byte                              { return m.data }
func (m *msg) Headers() nats.Header                      { return m.hdr }
func (m *msg) Subject() string                           { return m.subject }
func (m *msg) Reply() string                             { return "" }
func (m *msg) Ack() error                                { m.acks++; return m.err }
func (m *msg) DoubleAck(context.Context) error           { m.acks++; return m.err }
func (m *msg) Nak() error                                { m.naks++; return m.err }
func (m *msg) NakWithDelay(d time.Duration) error        { m.naks++; m.delay = d; return m.err }
func (m *msg) InProgress() error                         { return m.err }
func (m *msg) Term() error                               { return m.err }

func controller(opts ...natsjetstream.ControllerOption) *natsjetstream.Controller {
	nats.ResetFake()
	jetstream.ResetFake()
	c, err := natsjetstream.NewController("nats://x", append([]natsjetstream.ControllerOption{
		natsjetstream.WithStream("st"), natsjetstream.WithConsumer("co")}, opts...)...)
	v.Assert(err == nil, "controller is created")
	return c
}

// deliver hands a message to the running consumption, as the client does.
func deliver(m *msg) {
	n := len(jetstream.Fake.Active)
	v.Assert(n > 0 && jetstream.Fake.Active[n-1].Stopped == 0, "consumption is running")
	jetstream.Fake.Active[n-1].Handler(m)
}

func running() int {
	n := 0
	for _, a := range jetstream.Fake.Active {
		if a.Stopped == 0 {
			n++
		}
	}
	return n
}

func drain(s extensions.BrokerChannelSubscription) []extensions.AcknowledgeableBrokerMessage {
	var out []extensions.AcknowledgeableBrokerMessage
	for {
		select {
		case m, ok := <-s.MessagesChannel():
			if !ok {
				return out
			}
			out = append(out, m)
		default:
			return out
		}
	}
}

// HarnessDispatch: a message reaches one subscription whose pattern matches its
// subject; when there is none it is acknowledged so that it does not come back.
//
//verif: cover=one,none,both maporder=any
func HarnessDispatch() {
	c := controller()
	p1 := v.StringOf("p1", 1, 3, "ab.*>")
	p2 := v.StringOf("p2", 1, v.Bound(2, 3), "ab.*>")
	v.Assume(validPattern(p1) && validPattern(p2) && p1 != p2)
	s1, err := c.Subscribe(context.Background(), p1)
	v.Assert(err == nil, "subscribed")
	s2, err := c.Subscribe(context.Background(), p2)
	v.Assert(err == nil, "subscribed")
	v.Assert(running() == 1, "one consumption for all the subscriptions")
	s := v.StringOf("s", 1, 3, "ab.")
	v.Assume(validSubject(s))
	m := &msg{subject: s, data: v.Bytes("data", 0, 1)}
	deliver(m)
	v.Quiesce()
	g1, g2 := drain(s1), drain(s2)
	m1, m2 := matches(p1, s), matches(p2, s)
	v.Assert(m1 || len(g1) == 0, "no delivery without a match (first)")
	v.Assert(m2 || len(g2) == 0, "no delivery without a match (second)")
	if !m1 && !m2 {
		v.Assert(m.acks == 1 && m.naks == 0, "an unexpected message is acknowledged")
		v.Cover("none")
		return
	}
	v.Assert(len(g1)+len(g2) == 1, "a message is delivered to exactly one subscription")
	v.Assert(m.acks+m.naks == 0, "a delivered message is left to its handler to acknowledge")
	g := append(g1, g2...)[0]
	v.Assert(v.EqBytes(g.Payload, m.data), "payload unchanged")
	if m1 && m2 {
		v.Cover("both")
	} else {
		v.Cover("one")
	}
}

// HarnessLifecycle: any history of subscriptions and cancellations on two
// subjects keeps the consumption running exactly while somebody listens.
//
//verif: cover=resub,idle
func HarnessLifecycle() {
	c := controller()
	chans := []string{"a", "b.*"}
	subjects := []string{"a", "b.c"}
	var subs [2]*extensions.BrokerChannelSubscription
	ever := false
	n := v.Bound(7, 9)
	for i := 0; i < n; i++ {
		k := v.Choice("k", 2)
		if subs[k] == nil {
			s, err := c.Subscribe(context.Background(), chans[k])
			v.Assert(err == nil, "subscribed")
			subs[k] = &s
			if ever {
				v.Cover("resub")
			}
		} else {
			subs[k].Cancel(context.Background())
			_, open := <-subs[k].MessagesChannel()
			v.Assert(!open, "closed by the cancellation")
			subs[k] = nil
			ever = true
		}
		want := 1
		if subs[0] == nil && subs[1] == nil {
			want = 0
			v.Cover("idle")
		}
		v.Assert(running() == want, "messages are consumed exactly while there is a subscription")
		if want == 0 {
			continue
		}
		for j := range chans {
			m := &msg{subject: subjects[j], data: []byte{byte(i)}}
			deliver(m)
			if subs[j] == nil {
				v.Assert(m.acks == 1, "acknowledged when nobody listens any more")
				continue
			}
			r := <-subs[j].MessagesChannel()
			v.Assert(len(r.Payload) == 1 && r.Payload[0] == byte(i), "delivered")
		}
	}
}

// HarnessSameSubject: two subscriptions on the same subject are independent:
// cancelling one leaves the other one working.
//
//verif: preempt=2 t.preempt=3 cover=done
func HarnessSameSubject() {
	c := controller()
	s1, err := c.Subscribe(context.Background(), "a")
	v.Assert(err == nil, "subscribed")
	s2, err := c.Subscribe(context.Background(), "a")
	v.Assert(err == nil, "subscribed")
	first, second := s1, s2
	if v.Bool("swap") {
		first, second = s2, s1
	}
	first.Cancel(context.Background())
	v.Assert(running() == 1, "still consuming")
	deliver(&msg{subject: "a", data: []byte("x")})
	r := <-second.MessagesChannel()
	v.Assert(string(r.Payload) == "x", "the remaining subscription receives")
	second.Cancel(context.Background())
	v.Assert(running() == 0, "stopped")
	v.Cover("done")
}

// HarnessCancelInFlight: a message that arrives while its subscription is
// being cancelled neither crashes the consumption nor blocks it for ever.
//
//verif: preempt=3 t.preempt=4 cover=done
func HarnessCancelInFlight() {
	c := controller()
	s1, _ := c.Subscribe(context.Background(), "a")
	s2, _ := c.Subscribe(context.Background(), "b")
	done := make(chan bool)
	go func() {
		deliver(&msg{subject: "a", data: []byte("x")})
		deliver(&msg{subject: "b", data: []byte("y")})
		close(done)
	}()
	s1.Cancel(context.Background())
	r := <-s2.MessagesChannel()
	v.Assert(string(r.Payload) == "y", "other subjects still receive")
	<-done
	s2.Cancel(context.Background())
	v.Assert(running() == 0, "stopped")
	v.Cover("done")
}

// HarnessConsumeFailure: a subscription refused by the server leaves nothing
// behind: later subscriptions and messages are handled as if it never existed.
//
//verif: cover=consumer,consume
func HarnessConsumeFailure() {
	c := controller()
	if v.Bool("consumer") {
		jetstream.Fake.ConsumerErr = errors.New("no consumer")
		v.Cover("consumer")
	} else {
		jetstream.Fake.ConsumeErr = errors.New("cannot consume")
		v.Cover("consume")
	}
	_, err := c.Subscribe(context.Background(), "a")
	v.Assert(err != nil, "the failure is reported")
	jetstream.Fake.ConsumerErr, jetstream.Fake.ConsumeErr = nil, nil
	s, err := c.Subscribe(context.Background(), "b")
	v.Assert(err == nil, "subscribed")
	m := &msg{subject: "a"}
	deliver(m)
	v.Assert(m.acks == 1, "nobody listens to the refused subject")
	deliver(&msg{subject: "b", data: []byte("y")})
	r := <-s.MessagesChannel()
	v.Assert(string(r.Payload) == "y", "delivered")
	s.Cancel(context.Background())
	v.Assert(running() == 0, "stopped")
}

func main() {
	v.Main(map[string]func(){
		"HarnessMatch": HarnessMatch, "HarnessMatchBytes": HarnessMatchBytes, "HarnessDispatch": HarnessDispatch,
		"HarnessLifecycle": HarnessLifecycle, "HarnessSameSubject": HarnessSameSubject,
		"HarnessCancelInFlight": HarnessCancelInFlight, "HarnessConsumeFailure": HarnessConsumeFailure,
	})
}
