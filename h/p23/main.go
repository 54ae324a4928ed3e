// P23: broker adapters release what they open, whatever fails.
package main

import (
	"context"
	"errors"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	natsbroker "github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/nats"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"
	kafkago "github.com/segmentio/kafka-go"

	"verifh/v"
)

var (
	bg     = context.Background()
	errNet = errors.New("network")
	errOpt = errors.New("option")
)

// opened returns how many connections are open, apart from the given one.
func opened(given *nats.Conn) (n int) {
	for _, c := range nats.Fake.Conns {
		if c != given && !c.Closed {
			n++
		}
	}
	return n
}

// HarnessNats: a controller holds one connection from its creation to its
// closure, and none when its creation fails.
//
//verif: cover=created,failed,replaced
func HarnessNats() {
	nats.ResetFake()
	nats.Fake.ConnectFail = v.Choice("connectFail", 4)
	n := v.Choice("options", v.Bound(3, 4))
	var opts []natsbroker.ControllerOption
	bad, connects := false, 0
	connect := func() {
		if bad {
			return
		}
		connects++
		bad = connects == nats.Fake.ConnectFail
	}
	for i := 0; i < n; i++ {
		switch v.Choice("option", 5) {
		case 0:
			opts = append(opts, natsbroker.WithConnectionOpts(nats.Name("n")))
			connect()
		case 1:
			opts = append(opts, natsbroker.WithConnectionOpts(func(*nats.Options) error { return errOpt }))
			bad = true
		case 2:
			opts = append(opts, natsbroker.WithQueueGroup("g"))
		case 3:
			opts = append(opts, func(*natsbroker.Controller) error { return errOpt })
			bad = true
		case 4:
			opts = append(opts, natsbroker.WithLogger(extensions.DummyLogger{}))
		}
	}
	if connects == 0 {
		connect()
	}
	c, err := natsbroker.NewController("nats://x", opts...)
	v.Assert((err != nil) == bad, "the creation fails exactly when a step of it does")
	if err != nil {
		v.Assert(c == nil, "no controller comes with an error")
		v.Assert(opened(nil) == 0, "a creation that fails leaves no connection open")
		v.Cover("failed")
		return
	}
	v.Assert(opened(nil) == 1, "a controller holds one connection")
	if connects > 1 {
		v.Cover("replaced")
	}
	s, err := c.Subscribe(bg, "chan")
	v.Assert(err == nil && len(nats.Fake.Conns[len(nats.Fake.Conns)-1].Subs) == 1, "the connection that is open is the one used")
	sub := nats.Fake.Conns[len(nats.Fake.Conns)-1].Subs[0]
	s.Cancel(bg)
	v.Assert(sub.Drained+sub.Unsubed == 1, "a canceled subscription is released once")
	c.Close()
	v.Assert(opened(nil) == 0, "a closed controller leaves no connection open")
	v.Cover("created")
}

// HarnessJetstream is HarnessNats for JetStream, where the connection can be
// given by the user, who keeps it.
//
//verif: cover=created,failed,refused,replaced,kept
func HarnessJetstream() {
	nats.ResetFake()
	jetstream.ResetFake()
	given, _ := nats.Connect("nats://given")
	nats.Fake.Connects = 0
	nats.Fake.ConnectFail = v.Choice("connectFail", 3)
	n := v.Choice("options", v.Bound(4, 5))
	var opts []natsjetstream.ControllerOption
	bad, connects, has, mine, stream, consumer := false, 0, false, false, false, false
	connect := func() {
		if bad {
			return
		}
		connects++
		bad = connects == nats.Fake.ConnectFail
		has, mine = true, false
	}
	for i := 0; i < n; i++ {
		switch v.Choice("option", 5) {
		case 0:
			opts = append(opts, natsjetstream.WithConnectionOpts(nats.Name("n")))
			connect()
		case 1:
			opts = append(opts, natsjetstream.WithConnection(given))
			has, mine = true, true
		case 2:
			opts = append(opts, func(*natsjetstream.Controller) error { return errOpt })
			bad = true
		case 3:
			opts = append(opts, natsjetstream.WithStreamConfig(jetstream.StreamConfig{Name: "s"}))
			stream = true
		case 4:
			opts = append(opts, natsjetstream.WithConsumerConfig(jetstream.ConsumerConfig{Name: "c"}))
			consumer = true
		}
	}
	if !has {
		connect()
	}
	refused := false
	switch v.Choice("refused", 5) {
	case 1:
		jetstream.Fake.NewErr = errNet
		refused = true
	case 2:
		jetstream.Fake.CreateStreamErr = errNet
		refused = stream
	case 3:
		jetstream.Fake.CreateStreamErr, jetstream.Fake.UpdateStreamErr = jetstream.ErrStreamNameAlreadyInUse, errNet
		refused = stream
	case 4:
		jetstream.Fake.CreateConsumerErr = errNet
		refused = consumer
	}
	c, err := natsjetstream.NewController("nats://x", opts...)
	v.Assert((err != nil) == (bad || refused), "the creation fails exactly when a step of it does")
	v.Assert(!given.Closed, "a connection given by the user is left open")
	if err != nil {
		v.Assert(c == nil, "no controller comes with an error")
		v.Assert(opened(given) == 0, "a creation that fails leaves no connection open")
		if refused {
			v.Cover("refused")
		}
		v.Cover("failed")
		return
	}
	if mine {
		v.Assert(opened(given) == 0, "no connection is held besides the one given by the user")
		v.Cover("kept")
	} else {
		v.Assert(opened(given) == 1, "a controller holds one connection")
	}
	if connects > 1 {
		v.Cover("replaced")
	}
	c.Close()
	v.Assert(opened(given) == 0, "a closed controller leaves no connection open")
	v.Assert(!given.Closed, "a connection given by the user is left open")
	v.Cover("created")
}

// HarnessConsumption: the consumer of a JetStream controller consumes exactly
// while there is a subscription, whatever the history of the subscriptions.
//
//verif: cover=shared,restarted,refused steps=20000000
func HarnessConsumption() {
	nats.ResetFake()
	jetstream.ResetFake()
	c, err := natsjetstream.NewController("nats://x", natsjetstream.WithStream("s"), natsjetstream.WithConsumer("c"))
	v.Assert(err == nil, "created")
	var subs []extensions.BrokerChannelSubscription
	for i, n := 0, v.Bound(4, 5); i < n; i++ {
		k := v.Choice("step", 3+len(subs))
		started := len(jetstream.Fake.Active)
		switch {
		case k < 2: // one or the other channel
			s, err := c.Subscribe(bg, []string{"a", "b"}[k])
			v.Assert(err == nil, "subscribed")
			subs = append(subs, s)
			if len(subs) > 1 {
				v.Cover("shared")
			}
		case k == 2:
			jetstream.Fake.ConsumerErr = errNet
			consume := v.Bool("consume")
			if consume {
				jetstream.Fake.ConsumerErr, jetstream.Fake.ConsumeErr = nil, errNet
			}
			s, err := c.Subscribe(bg, "a")
			jetstream.Fake.ConsumerErr, jetstream.Fake.ConsumeErr = nil, nil
			v.Assert((err != nil) == (len(subs) == 0), "a subscription fails exactly when the consumption has to start and cannot")
			if err == nil {
				subs = append(subs, s)
			} else {
				v.Assert(errors.Is(err, errNet), "the cause is reported")
				v.Cover("refused")
			}
		default:
			subs[k-3].Cancel(bg)
			subs = append(subs[:k-3], subs[k-2:]...)
			v.Quiesce()
		}
		running := 0
		for _, a := range jetstream.Fake.Active {
			v.Assert(a.Stopped <= 1, "a consumption is stopped once")
			if a.Stopped == 0 {
				running++
			}
		}
		want := 0
		if len(subs) > 0 {
			want = 1
		}
		v.Assert(running == want, "the controller consumes exactly while there is a subscription")
		if len(jetstream.Fake.Active) > started && started > 0 {
			v.Cover("restarted")
		}
	}
}

// HarnessKafka: every connection, writer and reader opened by a Kafka
// controller is closed once, and it stops waiting for a topic when it has to.
//
//verif: cover=created,refused,published,subscribed,givenup steps=20000000
func HarnessKafka() {
	kafkago.ResetFake()
	fail := func(name string) {
		switch v.Choice(name, 5) {
		case 1:
			kafkago.Fake.DialErr = errNet
		case 2:
			kafkago.Fake.BrokersErr = errNet
		case 3:
			kafkago.Fake.CreateErr = errNet
		case 4:
			kafkago.Fake.PartErr = errNet
		}
	}
	closed := func() {
		v.Assert(kafkago.Fake.OpenConns == 0, "no connection is left open")
		v.Assert(kafkago.Fake.Closes == 0, "no connection is closed twice")
		v.Assert(kafkago.Fake.OpenWriters == 0, "no writer is left open")
	}
	fail("creation")
	test := v.Bool("test")
	c, err := kafka.NewController([]string{"h"}, kafka.WithConnectionTest(test), kafka.WithAutoCommit(v.Bool("auto")), kafka.WithGroupID("g"))
	v.Assert((err != nil) == (test && (kafkago.Fake.DialErr != nil || kafkago.Fake.BrokersErr != nil)), "the creation fails exactly when the connection test does")
	closed()
	if err != nil {
		v.Assert(c == nil && errors.Is(err, errNet), "the cause is reported")
		v.Cover("refused")
		return
	}
	v.Cover("created")
	kafkago.Fake.DialErr, kafkago.Fake.BrokersErr, kafkago.Fake.CreateErr, kafkago.Fake.PartErr = nil, nil, nil, nil

	fail("use")
	bad := kafkago.Fake.DialErr != nil || kafkago.Fake.CreateErr != nil || kafkago.Fake.PartErr != nil
	// The topic takes some time, or for ever, to be created, and the user can give up in the meantime
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	delay, over := v.Choice("delay", v.Bound(4, 6)), v.Choice("over", v.Bound(4, 6))
	kafkago.Fake.CreateDelay = delay
	if delay == 3 {
		kafkago.Fake.CreateDelay = 1000
		v.Assume(over > 0)
	}
	kafkago.Fake.OnListing = func(n int) {
		if n == over {
			cancel()
		}
		v.Assert(over == 0 || n <= over+1, "the topic is not waited for once the context is over")
		if over != 0 && n > over+1 {
			kafkago.Fake.CreateDelay = 0
		}
	}
	if v.Bool("publish") {
		miss := v.Choice("missing", 3)
		for i := 0; i < miss; i++ {
			kafkago.Fake.WriteErrs = append(kafkago.Fake.WriteErrs, kafkago.UnknownTopicOrPartition)
		}
		kafkago.Fake.WriteErrs = append(kafkago.Fake.WriteErrs, []error{nil, errNet}[v.Choice("write", 2)])
		err = c.Publish(ctx, "chan", extensions.BrokerMessage{Payload: []byte("p")})
		closed()
		v.Assert((err == nil) == (len(kafkago.Fake.Written) == 1), "a publication succeeds exactly when the message is written")
		if err == nil {
			v.Cover("published")
		}
	} else {
		s, err := c.Subscribe(ctx, "chan")
		closed()
		if err != nil {
			v.Assert(bad || ctx.Err() != nil, "a subscription fails exactly when a step of it does")
			for _, r := range kafkago.Fake.Readers {
				v.Assert(r.Closed == 1, "a subscription that fails leaves no reader open")
			}
		} else {
			v.Assert(!bad, "a subscription fails exactly when a step of it does")
			v.Assert(len(kafkago.Fake.Readers) == 1, "one reader")
			if v.Bool("broken") {
				close(kafkago.Fake.Readers[0].Messages)
				v.Quiesce()
			}
			s.Cancel(bg)
			v.Assert(kafkago.Fake.Readers[0].Closed == 1, "a canceled subscription closes its reader once")
			closed()
			v.Cover("subscribed")
		}
	}
	if over != 0 && kafkago.Fake.Listings > 0 && ctx.Err() != nil {
		v.Cover("givenup")
	}
}

func main() {
	v.Main(map[string]func(){"HarnessNats": HarnessNats, "HarnessJetstream": HarnessJetstream,
		"HarnessConsumption": HarnessConsumption, "HarnessKafka": HarnessKafka})
}
