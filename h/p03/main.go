// Package main checks the version wrapper around a broker.
package main

import (
	"context"
	"errors"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"

	"verifh/fake"
	"verifh/v"
)

func withVersion(version string) context.Context {
	return context.WithValue(context.Background(), extensions.ContextKeyIsVersion, version)
}

// HarnessPublish: every published message carries the version of its context,
// and is otherwise unchanged.
//
// verif: cover=tagged,untagged,error
func HarnessPublish() {
	key := versioning.DefaultVersionHeaderKey
	b := &fake.Broker{}
	var opts []versioning.WrapperOption
	if v.Bool("customKey") {
		key = v.StringOf("key", 1, 2, "a-c")
		opts = append(opts, versioning.WithVersionHeaderKey(key))
	}
	if v.Bool("default") {
		opts = append(opts, versioning.WithDefaultVersion("9"))
	}
	w := versioning.NewWrapper(b, opts...)
	ctx := context.Background()
	version := ""
	has := v.Bool("hasVersion")
	if has {
		version = v.String("version", 0, 2)
		ctx = withVersion(version)
	}
	msg := extensions.BrokerMessage{Payload: v.Bytes("payload", 0, 2)}
	want := map[string]string{}
	switch v.Choice("headers", 3) {
	case 0: // no header map at all
	case 1:
		msg.Headers = map[string][]byte{}
	case 2:
		k, x := v.StringOf("hk", 1, 2, "a-c"), v.Bytes("hv", 0, 1)
		msg.Headers = map[string][]byte{k: x}
		want[k] = string(x)
	}
	if has {
		want[key] = version
	}
	if v.Bool("fail") {
		b.PublishErr = fake.ErrBroker
	}
	channel := v.String("channel", 0, 2)
	err := w.Publish(ctx, channel, msg)
	if b.PublishErr != nil {
		v.Assert(errors.Is(err, fake.ErrBroker), "a broker failure is reported")
		v.Cover("error")
		return
	}
	v.Assert(err == nil, "publication succeeds")
	v.Assert(len(b.Published) == 1, "published once")
	p := b.Published[0]
	v.Assert(p.Channel == channel, "published on the requested channel")
	v.Assert(v.EqBytes(p.Msg.Payload, msg.Payload), "payload unchanged")
	v.Assert(len(p.Msg.Headers) == len(want), "no header lost or invented")
	for k, x := range want {
		got, ok := p.Msg.Headers[k]
		v.Assert(ok && string(got) == x, "headers kept and version tagged")
	}
	if has {
		v.Cover("tagged")
	} else {
		v.Cover("untagged")
	}
}

type listener struct {
	sub extensions.BrokerChannelSubscription
	ver string
}

func recvAll(sub extensions.BrokerChannelSubscription) []extensions.AcknowledgeableBrokerMessage {
	var out []extensions.AcknowledgeableBrokerMessage
	for {
		select {
		case m, ok := <-sub.MessagesChannel():
			if !ok {
				return out
			}
			out = append(out, m)
		default:
			return out
		}
	}
}

// HarnessRoute: each message reaches exactly the listener of its version, the
// default applies to untagged ones, and a message nobody listens to never
// stops the following ones.
//
// verif: cover=first,second,dropped,defaulted t.preempt=1
func HarnessRoute() {
	b := &fake.Broker{}
	var opts []versioning.WrapperOption
	def := ""
	if v.Bool("default") {
		def = v.StringOf("defver", 1, 1, "1-3")
		opts = append(opts, versioning.WithDefaultVersion(def))
	}
	key, other := versioning.DefaultVersionHeaderKey, "v"
	if v.Bool("customKey") {
		key, other = other, key
		opts = append(opts, versioning.WithVersionHeaderKey(key))
	}
	w := versioning.NewWrapper(b, opts...)
	va, vb := v.StringOf("va", 1, 1, "1-3"), v.StringOf("vb", 1, 1, "1-3")
	v.Assume(va != vb)
	sa, err := w.Subscribe(withVersion(va), "chan")
	v.Assert(err == nil, "first subscription")
	sb, err := w.Subscribe(withVersion(vb), "chan")
	v.Assert(err == nil, "second subscription on the same channel")
	v.Assert(len(b.Subs) == 1 && b.Subs[0].Channel == "chan", "one broker subscription for all versions of a channel")

	n := v.Bound(2, 3)
	var wantA, wantB [][]byte
	for i := 0; i < n; i++ {
		p := []byte{byte('0' + i), v.Byte("p")}
		h := map[string][]byte{other: {'1'}} // no version of this wrapper
		ver := ""
		if v.Bool("tagged") {
			ver = v.StringOf("mver", 0, 1, "1-4")
			h[key] = []byte(ver)
		}
		if ver == "" {
			ver = def
			if def != "" {
				v.Cover("defaulted")
			}
		}
		switch ver {
		case va:
			wantA = append(wantA, p)
			v.Cover("first")
		case vb:
			wantB = append(wantB, p)
			v.Cover("second")
		default:
			v.Cover("dropped")
		}
		m, _ := fake.Message(h, p)
		b.Subs[0].S.TransmitReceivedMessage(m)
	}
	v.Quiesce()
	gotA, gotB := recvAll(sa), recvAll(sb)
	v.Assert(len(gotA) == len(wantA) && len(gotB) == len(wantB), "every message of a registered version is delivered, and no other")
	for i := range wantA {
		v.Assert(v.EqBytes(gotA[i].Payload, wantA[i]), "delivered in order and unchanged (first)")
	}
	for i := range wantB {
		v.Assert(v.EqBytes(gotB[i].Payload, wantB[i]), "delivered in order and unchanged (second)")
	}
	// the wrapper still works: unsubscribe both
	sa.Cancel(context.Background())
	v.Assert(b.Active("chan") == 1, "the broker subscription stays while a version listens")
	sb.Cancel(context.Background())
	v.Assert(b.Active("chan") == 0, "the last unsubscription releases the broker subscription")
}

// HarnessAcks: acknowledgements go through to the broker message.
//
// verif: cover=done
func HarnessAcks() {
	b := &fake.Broker{}
	w := versioning.NewWrapper(b)
	s, err := w.Subscribe(withVersion("1"), "c")
	v.Assert(err == nil, "subscribed")
	hdr := v.Bytes("h", 0, 1)
	m, a := fake.Message(map[string][]byte{versioning.DefaultVersionHeaderKey: []byte("1"), "x": hdr}, v.Bytes("p", 0, 1))
	b.Subs[0].S.TransmitReceivedMessage(m)
	r := <-s.MessagesChannel()
	v.Assert(v.EqBytes(r.Headers["x"], hdr), "headers kept")
	if v.Bool("nak") {
		r.Nak()
		v.Assert(a.Naks == 1 && a.Acks == 0, "negative acknowledgement reaches the broker")
	} else {
		r.Ack()
		v.Assert(a.Naks == 0 && a.Acks == 1, "acknowledgement reaches the broker")
	}
	v.Cover("done")
}

// HarnessHistory: any history of subscriptions and cancellations over two
// channels and two versions behaves like the obvious set.
//
// verif: cover=dup,resub,brokererr
func HarnessHistory() {
	b := &fake.Broker{}
	w := versioning.NewWrapper(b)
	chans := []string{"a", "b"}
	vers := []string{"1", "2"}
	var subs [2][2]*extensions.BrokerChannelSubscription
	ever := [2]bool{}
	n := v.Bound(5, 7)
	for i := 0; i < n; i++ {
		op := v.Choice("op", 6)
		c, x := op/2%2, op%2
		switch {
		case op < 4 && subs[c][x] == nil: // subscribe
			s, err := w.Subscribe(withVersion(vers[x]), chans[c])
			v.Assert(err == nil, "a free version can be subscribed")
			subs[c][x] = &s
			if ever[c] {
				v.Cover("resub")
			}
			_, err = w.Subscribe(withVersion(vers[x]), chans[c])
			v.Assert(errors.Is(err, extensions.ErrAlreadySubscribedChannel), "a second subscription to the same version is refused")
			v.Cover("dup")
		case op < 4: // cancel
			subs[c][x].Cancel(context.Background())
			_, open := <-subs[c][x].MessagesChannel()
			v.Assert(!open, "the listener is closed by its cancellation")
			subs[c][x] = nil
			ever[c] = true
		default: // the broker refuses, or there is no version
			_, err := w.Subscribe(context.Background(), chans[x])
			v.Assert(errors.Is(err, versioning.ErrNoVersion), "a subscription without version is refused")
			if subs[x][0] != nil || subs[x][1] != nil {
				continue
			}
			b.SubscribeErr = fake.ErrBroker
			_, err = w.Subscribe(withVersion("1"), chans[x])
			v.Assert(errors.Is(err, fake.ErrBroker), "a broker failure is reported")
			b.SubscribeErr = nil
			v.Cover("brokererr")
		}
		for k, ch := range chans {
			want := 0
			if subs[k][0] != nil || subs[k][1] != nil {
				want = 1
			}
			v.Assert(b.Active(ch) == want, "one broker subscription per channel with listeners, none otherwise")
		}
	}
	// whoever is still subscribed still gets messages
	for k, ch := range chans {
		for x := range vers {
			if subs[k][x] == nil {
				continue
			}
			m, _ := fake.Message(map[string][]byte{versioning.DefaultVersionHeaderKey: []byte(vers[x])}, []byte("p"))
			b.Last(ch).S.TransmitReceivedMessage(m)
			r := <-subs[k][x].MessagesChannel()
			v.Assert(string(r.Payload) == "p", "delivered")
		}
	}
}

// HarnessConcurrent: subscribing a version while another one of the same
// channel is being cancelled neither blocks nor loses the new listener.
//
// verif: preempt=3 t.preempt=4 cover=done
func HarnessConcurrent() {
	b := &fake.Broker{}
	w := versioning.NewWrapper(b)
	s1, err := w.Subscribe(withVersion("1"), "c")
	v.Assert(err == nil, "subscribed")
	done := make(chan bool)
	go func() {
		s1.Cancel(context.Background())
		close(done)
	}()
	s2, err := w.Subscribe(withVersion("2"), "c")
	v.Assert(err == nil, "subscribed during a cancellation")
	<-done
	v.Assert(b.Active("c") == 1, "the broker subscription is open while a version listens")
	m, _ := fake.Message(map[string][]byte{versioning.DefaultVersionHeaderKey: []byte("2")}, []byte("p"))
	b.Last("c").S.TransmitReceivedMessage(m)
	r, open := <-s2.MessagesChannel()
	v.Assert(open && string(r.Payload) == "p", "the new listener receives")
	s2.Cancel(context.Background())
	v.Assert(b.Active("c") == 0, "the last unsubscription releases the broker subscription")
	v.Cover("done")
}

// HarnessCancelInFlight: cancelling while messages arrive neither crashes nor
// blocks, and later messages of the other version are still delivered.
//
// verif: preempt=3 t.preempt=4 cover=done
func HarnessCancelInFlight() {
	b := &fake.Broker{}
	w := versioning.NewWrapper(b)
	s1, _ := w.Subscribe(withVersion("1"), "c")
	s2, _ := w.Subscribe(withVersion("2"), "c")
	m1, _ := fake.Message(map[string][]byte{versioning.DefaultVersionHeaderKey: []byte("1")}, []byte("x"))
	m2, _ := fake.Message(map[string][]byte{versioning.DefaultVersionHeaderKey: []byte("2")}, []byte("y"))
	b.Subs[0].S.TransmitReceivedMessage(m1)
	b.Subs[0].S.TransmitReceivedMessage(m2)
	s1.Cancel(context.Background())
	r, open := <-s2.MessagesChannel()
	v.Assert(open && string(r.Payload) == "y", "the other version still receives")
	s2.Cancel(context.Background())
	v.Assert(b.Active("c") == 0, "released")
	v.Cover("done")
}

// HarnessReports: each message that nobody registered for is reported once, with
// itself and its version, whatever came before.
//
// verif: cover=unversioned,unknown,quiet
func HarnessReports() {
	b, log := &fake.Broker{}, &fake.Logger{}
	w := versioning.NewWrapper(b, versioning.WithLogger(log))
	s, err := w.Subscribe(withVersion("1"), "chan")
	v.Assert(err == nil, "subscribed")
	var payloads, versions []string
	for i, n := 0, v.Bound(3, 4); i < n; i++ {
		var h map[string][]byte
		ver := ""
		if v.Bool("tagged") {
			ver = v.StringOf("mver", 0, 1, "1-4")
			h = map[string][]byte{versioning.DefaultVersionHeaderKey: []byte(ver)}
		}
		p := string([]byte{byte('0' + i), v.Byte("p")})
		m, _ := fake.Message(h, []byte(p))
		b.Subs[0].S.TransmitReceivedMessage(m)
		if ver != "1" {
			payloads, versions = append(payloads, p), append(versions, ver)
		}
	}
	v.Quiesce()
	n := 0
	for _, e := range log.Entries {
		if e.Level != "error" {
			continue
		}
		v.Assert(n < len(payloads), "only messages that nobody registered for are reported")
		m, ok := e.Ctx.Value(extensions.ContextKeyIsBrokerMessage).(extensions.AcknowledgeableBrokerMessage)
		v.Assert(ok && string(m.Payload) == payloads[n], "the report comes with the message")
		ver, _ := e.Ctx.Value(extensions.ContextKeyIsVersion).(string)
		if versions[n] == "" {
			v.Assert(ver == "" || ver == "1", "the report of a message without version has not the version of another one")
			v.Cover("unversioned")
		} else {
			v.Assert(ver == versions[n], "the report comes with the version of the message")
			v.Cover("unknown")
		}
		n++
	}
	v.Assert(n == len(payloads), "every message that nobody registered for is reported")
	if n == 0 {
		v.Cover("quiet")
	}
	s.Cancel(context.Background())
	v.Assert(b.Active("chan") == 0, "released")
}

func main() {
	v.Main(map[string]func(){
		"HarnessPublish": HarnessPublish, "HarnessRoute": HarnessRoute, "HarnessReports": HarnessReports, "HarnessAcks": HarnessAcks,
		"HarnessHistory": HarnessHistory, "HarnessConcurrent": HarnessConcurrent, "HarnessCancelInFlight": HarnessCancelInFlight,
	})
}
