// Package main checks that the broker adapters carry messages faithfully.
package main

import (
	"context"
	"crypto/tls"
	"errors"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	natsbroker "github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/nats"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"
	kafkago "github.com/segmentio/kafka-go"
	"github.com/segmentio/kafka-go/sasl"

	"verifh/fake"
	"verifh/v"
)

var errNet = errors.New("network failure")

// outgoing builds an arbitrary message with up to two headers.
func outgoing() extensions.BrokerMessage {
	m := extensions.BrokerMessage{Payload: v.Bytes("payload", 0, 2)}
	n := v.Choice("headers", 3)
	if n > 0 {
		m.Headers = map[string][]byte{}
		m.Headers[v.StringOf("k1", 1, 2, "aB-")] = v.Bytes("v1", 0, 2)
	}
	if n > 1 {
		k := v.StringOf("k2", 1, 1, "aB")
		_, dup := m.Headers[k]
		v.Assume(!dup)
		m.Headers[k] = v.Bytes("v2", 0, 1)
	}
	return m
}

func checkNats(h nats.Header, m extensions.BrokerMessage) {
	v.Assert(len(h) == len(m.Headers), "no header lost or invented")
	for k, x := range m.Headers {
		got := h[k]
		v.Assert(len(got) == 1 && got[0] == string(x), "headers carried unchanged")
	}
}

// HarnessNatsPublish: publication hands the client the same channel, headers
// and payload, flushed, and reports every failure.
//
//verif: cover=ok,error
func HarnessNatsPublish() {
	nats.ResetFake()
	c, err := natsbroker.NewController("nats://x")
	v.Assert(err == nil, "connected")
	conn := nats.Fake.Conns[0]
	m := outgoing()
	channel := v.String("channel", 1, 2)
	fail := v.Choice("fail", 3)
	if fail == 1 {
		nats.Fake.PublishErr = errNet
	} else if fail == 2 {
		nats.Fake.FlushErr = errNet
	}
	err = c.Publish(context.Background(), channel, m)
	if fail != 0 {
		v.Assert(errors.Is(err, errNet), "a failed publication is reported")
		v.Cover("error")
		return
	}
	v.Assert(err == nil, "publication succeeds")
	v.Assert(len(conn.Published) == 1 && conn.Flushed == 1, "published once and flushed")
	p := conn.Published[0]
	v.Assert(p.Subject == channel, "published on the requested channel")
	v.Assert(v.EqBytes(p.Data, m.Payload), "payload carried unchanged")
	checkNats(p.Header, m)
	v.Cover("ok")
}

func incoming() (nats.Header, []byte, map[string]string) {
	h := nats.Header{}
	want := map[string]string{}
	n := v.Choice("headers", 3)
	for i := 0; i < n; i++ {
		k := v.StringOf("k", 1, 1, "abA")
		if _, dup := h[k]; dup {
			v.Assume(false)
		}
		x := v.String("x", 0, 1)
		h[k] = []string{x}
		want[k] = x
		if v.Bool("multi") {
			h[k] = append(h[k], "other")
		}
	}
	return h, v.Bytes("data", 0, 2), want
}

func checkIncoming(m extensions.BrokerMessage, data []byte, want map[string]string) {
	v.Assert(v.EqBytes(m.Payload, data), "payload carried unchanged")
	v.Assert(len(m.Headers) == len(want), "no header lost or invented")
	for k, x := range want {
		got, ok := m.Headers[k]
		v.Assert(ok && string(got) == x, "headers carried unchanged")
	}
	v.Assert(!m.IsUninitialized(), "a received message is never mistaken for a closed channel")
}

// HarnessNatsReceive: reception carries everything, in order, and unsubscribing
// releases the server side subscription.
//
//verif: cover=done,refused preempt=2 t.preempt=3
func HarnessNatsReceive() {
	nats.ResetFake()
	group := v.StringOf("group", 0, 1, "ab")
	c, err := natsbroker.NewController("nats://x", natsbroker.WithQueueGroup(group))
	v.Assert(err == nil, "connected")
	conn := nats.Fake.Conns[0]
	if v.Bool("refused") {
		nats.Fake.SubscribeErr = errNet
		_, err := c.Subscribe(context.Background(), "chan")
		v.Assert(errors.Is(err, errNet), "a refused subscription is reported")
		v.Cover("refused")
		return
	}
	s, err := c.Subscribe(context.Background(), "chan")
	v.Assert(err == nil, "subscribed")
	v.Assert(len(conn.Subs) == 1 && conn.Subs[0].Subject == "chan" && conn.Subs[0].Queue == group, "subscribed to the channel within the queue group")
	h, data, want := incoming()
	conn.Subs[0].Cb(&nats.Msg{Subject: "chan", Header: h, Data: data})
	conn.Subs[0].Cb(&nats.Msg{Subject: "chan", Header: nats.Header{}, Data: []byte("second")})
	m := <-s.MessagesChannel()
	checkIncoming(m.BrokerMessage, data, want)
	m = <-s.MessagesChannel()
	v.Assert(string(m.Payload) == "second", "in order")
	m.Ack()
	m.Nak()
	s.Cancel(context.Background())
	v.Assert(!conn.Subs[0].Active(), "released on the server")
	_, open := <-s.MessagesChannel()
	v.Assert(!open, "closed")
	c.Close()
	v.Assert(conn.Closed, "connection closed")
	v.Cover("done")
}

// jmsg is a JetStream message.
type jmsg struct {
	data  []byte
	hdr   nats.Header
	acks  int
	naks  int
	terms int
	delay time.Duration
	err   error
}

func (m *jmsg) Metadata() (*jetstream.MsgMetadata, error) { return nil, errNet }
func (m *jmsg) Data() []byte                              { return m.data }
func (m *jmsg) Headers() nats.Header                      { return m.hdr }
func (m *jmsg) Subject() string                           { return "chan" }
func (m *jmsg) Reply() string                             { return "" }
func (m *jmsg) Ack() error                                { m.acks++; return m.err }
func (m *jmsg) DoubleAck(context.Context) error           { m.acks++; return m.err }
func (m *jmsg) Nak() error                                { m.naks++; return m.err }
func (m *jmsg) NakWithDelay(d time.Duration) error        { m.naks++; m.delay = d; return m.err }
func (m *jmsg) InProgress() error                         { return m.err }
func (m *jmsg) Term() error                               { m.terms++; return m.err }

// HarnessJetstreamPublish is HarnessNatsPublish for JetStream.
//
//verif: cover=ok,error
func HarnessJetstreamPublish() {
	nats.ResetFake()
	jetstream.ResetFake()
	c, err := natsjetstream.NewController("nats://x", natsjetstream.WithStream("s"))
	v.Assert(err == nil, "connected")
	m := outgoing()
	channel := v.String("channel", 1, 2)
	fail := v.Bool("fail")
	if fail {
		jetstream.Fake.PublishErr = errNet
	}
	err = c.Publish(context.Background(), channel, m)
	if fail {
		v.Assert(errors.Is(err, errNet), "a failed publication is reported")
		v.Cover("error")
		return
	}
	v.Assert(err == nil && len(jetstream.Fake.Published) == 1, "published once")
	p := jetstream.Fake.Published[0]
	v.Assert(p.Subject == channel, "published on the requested channel")
	v.Assert(v.EqBytes(p.Data, m.Payload), "payload carried unchanged")
	checkNats(p.Header, m)
	v.Cover("ok")
}

// HarnessJetstreamReceive: content, and acknowledgements mapped one to one
// with the configured redelivery delay.
//
//verif: cover=ack,nak,none,logged
func HarnessJetstreamReceive() {
	nats.ResetFake()
	jetstream.ResetFake()
	log := &fake.Logger{}
	opts := []natsjetstream.ControllerOption{natsjetstream.WithStream("s"), natsjetstream.WithConsumer("c"), natsjetstream.WithLogger(log)}
	delay := 5 * time.Second
	if v.Bool("delay") {
		delay = time.Duration(v.Int("d", 0, 1000000))
		opts = append(opts, natsjetstream.WithNakDelay(delay))
	}
	c, err := natsjetstream.NewController("nats://x", opts...)
	v.Assert(err == nil, "connected")
	s, err := c.Subscribe(context.Background(), "chan")
	v.Assert(err == nil, "subscribed")
	v.Assert(len(jetstream.Fake.ConsumerNames) == 1 && jetstream.Fake.ConsumerNames[0] == "c" && jetstream.Fake.ConsumerStreams[0] == "s",
		"the configured consumer of the configured stream is used")
	h, data, want := incoming()
	jm := &jmsg{hdr: h, data: data}
	if v.Bool("ackfails") {
		jm.err = errNet
	}
	jetstream.Fake.Active[0].Handler(jm)
	m := <-s.MessagesChannel()
	checkIncoming(m.BrokerMessage, data, want)
	v.Assert(jm.acks+jm.naks+jm.terms == 0, "not acknowledged before it is handled")
	switch v.Choice("op", 3) {
	case 0:
		m.Ack()
		v.Assert(jm.acks == 1 && jm.naks+jm.terms == 0, "an acknowledgement acknowledges the message")
		v.Cover("ack")
	case 1:
		m.Nak()
		v.Assert(jm.naks == 1 && jm.acks+jm.terms == 0, "a negative acknowledgement asks for a redelivery")
		v.Assert(jm.delay == delay, "with the configured delay")
		v.Cover("nak")
	default:
		v.Cover("none")
		return
	}
	errs := 0
	for _, e := range log.Entries {
		if e.Level == "error" {
			errs++
		}
	}
	v.Assert((errs > 0) == (jm.err != nil), "a failed acknowledgement is logged")
	if jm.err != nil {
		v.Cover("logged")
	}
}

// HarnessJetstreamSetup: the configured stream and consumer are registered, an
// existing stream is updated, and failures are reported.
//
//verif: cover=created,updated,failed,noname
func HarnessJetstreamSetup() {
	nats.ResetFake()
	jetstream.ResetFake()
	sname, cname := v.StringOf("sname", 0, 1, "ab"), v.StringOf("cname", 0, 1, "ab")
	se := v.Choice("streamErr", 3)
	other := errors.New("other")
	switch se {
	case 1:
		jetstream.Fake.CreateStreamErr = jetstream.ErrStreamNameAlreadyInUse
	case 2:
		jetstream.Fake.CreateStreamErr = other
	}
	ue, ce := v.Bool("updateErr"), v.Bool("consumerErr")
	if ue {
		jetstream.Fake.UpdateStreamErr = other
	}
	if ce {
		jetstream.Fake.CreateConsumerErr = other
	}
	_, err := natsjetstream.NewController("nats://x",
		natsjetstream.WithStreamConfig(jetstream.StreamConfig{Name: sname, Subjects: []string{"x"}}),
		natsjetstream.WithConsumerConfig(jetstream.ConsumerConfig{Name: cname, Durable: "d"}))
	if sname == "" || cname == "" {
		v.Assert(err != nil, "a name is required")
		v.Cover("noname")
		return
	}
	bad := se == 2 || (se == 1 && ue) || ce
	v.Assert((err != nil) == bad, "set-up fails exactly when the server refuses")
	if bad {
		v.Assert(errors.Is(err, other), "the cause is reported")
		v.Cover("failed")
		return
	}
	f := &jetstream.Fake
	v.Assert(len(f.StreamCfgs) == 1 && f.StreamCfgs[0].Name == sname && len(f.StreamCfgs[0].Subjects) == 1, "the stream has the given configuration")
	v.Assert(len(f.ConsumerCfgs) == 1 && f.ConsumerCfgs[0].Name == cname && f.ConsumerCfgs[0].Durable == "d", "the consumer has the given configuration")
	v.Assert(f.Ops[len(f.Ops)-1] == "consumer "+sname+" "+cname, "the consumer is registered on the stream")
	if se == 1 {
		v.Cover("updated")
	} else {
		v.Cover("created")
	}
}

// HarnessJetstreamConnection: a connection given by the user is left open; one
// opened by the controller is closed.
//
//verif: cover=own,given
func HarnessJetstreamConnection() {
	nats.ResetFake()
	jetstream.ResetFake()
	var opts []natsjetstream.ControllerOption
	given, _ := nats.Connect("nats://given")
	seq := v.Choice("seq", 4)
	if seq&1 != 0 {
		opts = append(opts, natsjetstream.WithConnectionOpts(nats.Name("n")))
	}
	if seq&2 != 0 {
		opts = append(opts, natsjetstream.WithConnection(given))
	}
	c, err := natsjetstream.NewController("nats://x", opts...)
	v.Assert(err == nil, "connected")
	c.Close()
	v.Assert(!given.Closed, "the connection given by the user is not closed")
	for _, k := range nats.Fake.Conns {
		v.Assert(k == given || k.Closed, "the connections opened by the controller are closed")
	}
	if seq&2 != 0 {
		v.Cover("given")
	} else {
		v.Cover("own")
	}
}

// HarnessKafkaPublish: publication carries everything, creates the missing
// topic and tries again, and reports every other failure.
//
//verif: cover=ok,retried,error
func HarnessKafkaPublish() {
	kafkago.ResetFake()
	c, err := kafka.NewController([]string{"h1", "h2"}, kafka.WithConnectionTest(false))
	v.Assert(err == nil, "created")
	m := outgoing()
	channel := v.String("channel", 1, 2)
	miss := v.Choice("missing", 3)
	for i := 0; i < miss; i++ {
		kafkago.Fake.WriteErrs = append(kafkago.Fake.WriteErrs, kafkago.UnknownTopicOrPartition)
	}
	kafkago.Fake.CreateDelay = v.Choice("delay", 3)
	bad := v.Choice("bad", 4)
	switch bad {
	case 1:
		kafkago.Fake.WriteErrs = append(kafkago.Fake.WriteErrs, errNet)
	case 2:
		kafkago.Fake.DialErr = errNet
	case 3:
		kafkago.Fake.CreateErr = errNet
	}
	err = c.Publish(context.Background(), channel, m)
	if bad == 1 || (bad > 1 && miss > 0) {
		v.Assert(errors.Is(err, errNet), "a failed publication is reported")
		v.Assert(len(kafkago.Fake.Written) == 0, "nothing published")
		v.Cover("error")
		return
	}
	v.Assert(err == nil, "publication succeeds")
	v.Assert(len(kafkago.Fake.Written) == 1, "published once")
	w := kafkago.Fake.Written[0]
	v.Assert(w.Topic == channel, "published on the requested channel")
	v.Assert(w.Addr == "h1,h2", "published to the configured brokers")
	v.Assert(v.EqBytes(w.Msg.Value, m.Payload), "payload carried unchanged")
	v.Assert(len(w.Msg.Headers) == len(m.Headers), "no header lost or invented")
	for _, h := range w.Msg.Headers {
		x, ok := m.Headers[h.Key]
		v.Assert(ok && v.EqBytes(x, h.Value), "headers carried unchanged")
	}
	v.Assert(kafkago.Fake.OpenConns == 0, "no connection left open")
	if miss > 0 {
		v.Assert(len(kafkago.Fake.Created) > 0 && kafkago.Fake.Created[0] == channel, "the missing topic is created")
		v.Cover("retried")
	} else {
		v.Cover("ok")
	}
}

// HarnessKafkaReceive: reception in both commit modes.
//
//verif: cover=auto,commit,commitfails,refused preempt=2 t.preempt=3
func HarnessKafkaReceive() {
	kafkago.ResetFake()
	log := &fake.Logger{}
	group := v.StringOf("group", 1, 1, "ab")
	manual := v.Bool("manual")
	maxBytes, part := v.Int("max", 1, 1000), v.Int("part", 0, 5)
	c, err := kafka.NewController([]string{"h1"}, kafka.WithGroupID(group), kafka.WithAutoCommit(!manual),
		kafka.WithLogger(log), kafka.WithMaxBytes(maxBytes), kafka.WithPartition(part))
	v.Assert(err == nil, "created")
	if v.Bool("refused") {
		kafkago.Fake.PartErr = errNet
		_, err := c.Subscribe(context.Background(), "chan")
		v.Assert(errors.Is(err, errNet), "a refused subscription is reported")
		v.Cover("refused")
		return
	}
	s, err := c.Subscribe(context.Background(), "chan")
	v.Assert(err == nil, "subscribed")
	v.Assert(len(kafkago.Fake.Readers) == 1, "one reader")
	r := kafkago.Fake.Readers[0]
	v.Assert(r.Cfg.Topic == "chan" && r.Cfg.GroupID == group && r.Cfg.MaxBytes == maxBytes && r.Cfg.Partition == part &&
		len(r.Cfg.Brokers) == 1 && r.Cfg.Brokers[0] == "h1", "reads the channel with the configured options")
	v.Assert(len(kafkago.Fake.Topics) == 1 && kafkago.Fake.Topics[0] == "chan", "the topic exists")
	km := kafkago.Message{Topic: "chan", Offset: 7, Value: v.Bytes("data", 0, 2)}
	want := map[string]string{}
	for i, n := 0, v.Choice("headers", 3); i < n; i++ {
		k, x := v.StringOf("k", 1, 1, "ab"), v.Bytes("x", 0, 1)
		if _, dup := want[k]; dup {
			v.Assume(false)
		}
		want[k] = string(x)
		km.Headers = append(km.Headers, kafkago.Header{Key: k, Value: x})
	}
	r.Messages <- km
	r.Messages <- kafkago.Message{Topic: "chan", Offset: 8, Value: []byte("second")}
	m := <-s.MessagesChannel()
	checkIncoming(m.BrokerMessage, km.Value, want)
	m2 := <-s.MessagesChannel()
	v.Assert(string(m2.Payload) == "second", "in order")
	v.Assert(len(r.Committed) == 0, "nothing is committed before it is handled")
	if !manual {
		m.Ack()
		v.Assert(len(r.Committed) == 0 && len(r.Auto) == 2, "the reader commits by itself")
		v.Cover("auto")
	} else {
		v.Assert(len(r.Auto) == 0, "the reader does not commit by itself")
		if v.Bool("commitfails") {
			kafkago.Fake.CommitErr = errNet
		}
		if v.Bool("nak") {
			m.Nak()
		} else {
			m.Ack()
		}
		if kafkago.Fake.CommitErr != nil {
			n := 0
			for _, e := range log.Entries {
				if e.Level == "error" {
					n++
				}
			}
			v.Assert(n == 1, "a failed commit is logged")
			v.Cover("commitfails")
		} else {
			v.Assert(len(r.Committed) == 1 && r.Committed[0].Offset == 7, "handling a message commits that message")
			v.Cover("commit")
		}
	}
	s.Cancel(context.Background())
	v.Assert(r.Closed == 1, "the reader is closed")
	_, open := <-s.MessagesChannel()
	v.Assert(!open, "closed")
	v.Assert(kafkago.Fake.OpenConns == 0, "no connection left open")
}

type mech struct{ name string }

func (m mech) Name() string { return m.name }
func (m mech) Start(context.Context) (sasl.StateMachine, []byte, error) {
	return nil, nil, nil
}

// HarnessKafkaIsolation: the security options of a controller apply to all its
// connections and to no other controller's.
//
//verif: cover=done
func HarnessKafkaIsolation() {
	kafkago.ResetFake()
	cfg := &tls.Config{ServerName: "a"}
	useTLS, useSASL := v.Bool("tls"), v.Bool("sasl")
	var opts []kafka.ControllerOption
	if useTLS {
		opts = append(opts, kafka.WithTLS(cfg))
	}
	if useSASL {
		opts = append(opts, kafka.WithSasl(mech{"m"}))
	}
	mk := func(n int) *kafka.Controller {
		if n == 0 {
			c, err := kafka.NewController([]string{"secure"}, opts...)
			v.Assert(err == nil, "created")
			return c
		}
		c, err := kafka.NewController([]string{"plain"})
		v.Assert(err == nil, "created")
		return c
	}
	var secure, plain *kafka.Controller
	if v.Bool("order") {
		secure, plain = mk(0), mk(1)
	} else {
		plain, secure = mk(1), mk(0)
	}
	// subscriptions and connections
	for _, c := range []*kafka.Controller{secure, plain} {
		s, err := c.Subscribe(context.Background(), "t")
		v.Assert(err == nil, "subscribed")
		s.Cancel(context.Background())
		v.Assert(c.Publish(context.Background(), "t", extensions.BrokerMessage{Payload: []byte("x")}) == nil, "published")
	}
	for i, d := range kafkago.Fake.Dialers {
		sec := kafkago.Fake.Dials[i] == "secure"
		v.Assert((d.TLS != nil) == (sec && useTLS), "connections use exactly the TLS configuration of their controller")
		v.Assert((d.SASLMechanism != nil) == (sec && useSASL), "connections use exactly the credentials of their controller")
	}
	for _, r := range kafkago.Fake.Readers {
		sec := r.Cfg.Brokers[0] == "secure"
		v.Assert((r.Cfg.Dialer.TLS != nil) == (sec && useTLS), "readers use exactly the TLS configuration of their controller")
		v.Assert((r.Cfg.Dialer.SASLMechanism != nil) == (sec && useSASL), "readers use exactly the credentials of their controller")
	}
	for _, w := range kafkago.Fake.Written {
		sec := w.Addr == "secure"
		t := w.Transport.(*kafkago.Transport)
		v.Assert((t.TLS != nil) == (sec && useTLS), "writers use exactly the TLS configuration of their controller")
		v.Assert((t.SASL != nil) == (sec && useSASL), "writers use exactly the credentials of their controller")
	}
	v.Cover("done")
}

func main() {
	v.Main(map[string]func(){
		"HarnessNatsPublish": HarnessNatsPublish, "HarnessNatsReceive": HarnessNatsReceive,
		"HarnessJetstreamPublish": HarnessJetstreamPublish, "HarnessJetstreamReceive": HarnessJetstreamReceive,
		"HarnessJetstreamSetup": HarnessJetstreamSetup, "HarnessJetstreamConnection": HarnessJetstreamConnection,
		"HarnessKafkaPublish": HarnessKafkaPublish, "HarnessKafkaReceive": HarnessKafkaReceive, "HarnessKafkaIsolation": HarnessKafkaIsolation,
	})
}
