// Package jetstream is a stand-in for the NATS JetStream client.
package jetstream

import (
	"context"
	"errors"
	"time"

	"github.com/nats-io/nats.go"
)

type JetStreamError interface {
	error
	APIError() *APIError
}
type APIError struct {
	Code        int
	ErrorCode   int
	Description string
}

func (e *APIError) Error() string       { return "nats: API error: " + e.Description }
func (e *APIError) APIError() *APIError { return e }

var (
	ErrStreamNameAlreadyInUse   JetStreamError = &APIError{Code: 400, ErrorCode: 10058, Description: "stream name already in use"}
	ErrStreamNotFound           JetStreamError = &APIError{Code: 404, ErrorCode: 10059, Description: "stream not found"}
	ErrConsumerNotFound         JetStreamError = &APIError{Code: 404, ErrorCode: 10014, Description: "consumer not found"}
	ErrConsumerExists           JetStreamError = &APIError{Code: 400, ErrorCode: 10148, Description: "consumer already exists"}
	ErrConsumerNameAlreadyInUse JetStreamError = &APIError{Code: 400, ErrorCode: 10013, Description: "consumer name already in use"}
	ErrMsgAlreadyAckd                          = errors.New("nats: message was already acknowledged")
	ErrMsgNotBound                             = errors.New("nats: message is not bound to subscription/connection")
	ErrMsgNoReply                              = errors.New("nats: message does not have a reply")
	ErrInvalidSubject                          = errors.New("nats: invalid subject name")
	ErrHandlerRequired                         = errors.New("nats: handler cannot be empty")
	ErrInvalidStreamName                       = errors.New("nats: invalid stream name")
	ErrStreamNameRequired                      = errors.New("nats: stream name is required")
	ErrInvalidConsumerName                     = errors.New("nats: invalid consumer name")
	ErrNoMessages                              = errors.New("nats: no messages")
	ErrConsumerDeleted                         = errors.New("nats: consumer deleted")
)

type (
	MessageHandler func(msg Msg)
	PublishOpt     func() error
	PullConsumeOpt interface{ configureConsume() error }
	JetStreamOpt   func() error
	PubAck         struct {
		Stream    string
		Sequence  uint64
		Duplicate bool
		Domain    string
	}
	DeliverPolicy   int
	AckPolicy       int
	ReplayPolicy    int
	RetentionPolicy int
	DiscardPolicy   int
	StorageType     int
	ConsumerConfig  struct {
		Name, Durable, Description string
		DeliverPolicy              DeliverPolicy
		OptStartSeq                uint64
		AckPolicy                  AckPolicy
		AckWait                    time.Duration
		MaxDeliver                 int
		BackOff                    []time.Duration
		FilterSubject              string
		ReplayPolicy               ReplayPolicy
		MaxAckPending              int
		InactiveThreshold          time.Duration
		Replicas                   int
		MemoryStorage              bool
		FilterSubjects             []string
		Metadata                   map[string]string
	}
	StreamConfig struct {
		Name, Description string
		Subjects          []string
		Retention         RetentionPolicy
		MaxConsumers      int
		MaxMsgs, MaxBytes int64
		Discard           DiscardPolicy
		MaxAge            time.Duration
		Storage           StorageType
		Replicas          int
		NoAck             bool
		Duplicates        time.Duration
		Metadata          map[string]string
	}
	StreamInfo   struct{ Config StreamConfig }
	ConsumerInfo struct {
		Name   string
		Stream string
		Config ConsumerConfig
	}
	MsgMetadata struct {
		NumDelivered, NumPending uint64
		Stream, Consumer, Domain string
	}
	Msg interface {
		Metadata() (*MsgMetadata, error)
		Data() []byte
		Headers() nats.Header
		Subject() string
		Reply() string
		Ack() error
		DoubleAck(context.Context) error
		Nak() error
		NakWithDelay(delay time.Duration) error
		InProgress() error
		Term() error
	}
	ConsumeContext interface{ Stop() }
	Consumer       interface {
		Consume(handler MessageHandler, opts ...PullConsumeOpt) (ConsumeContext, error)
		Info(context.Context) (*ConsumerInfo, error)
		CachedInfo() *ConsumerInfo
	}
	Stream interface {
		Consumer(ctx context.Context, name string) (Consumer, error)
		CreateOrUpdateConsumer(ctx context.Context, cfg ConsumerConfig) (Consumer, error)
		CachedInfo() *StreamInfo
	}
	JetStream interface {
		CreateOrUpdateConsumer(ctx context.Context, stream string, cfg ConsumerConfig) (Consumer, error)
		CreateConsumer(ctx context.Context, stream string, cfg ConsumerConfig) (Consumer, error)
		UpdateConsumer(ctx context.Context, stream string, cfg ConsumerConfig) (Consumer, error)
		Consumer(ctx context.Context, stream string, consumer string) (Consumer, error)
		DeleteConsumer(ctx context.Context, stream string, consumer string) error
		CreateStream(ctx context.Context, cfg StreamConfig) (Stream, error)
		UpdateStream(ctx context.Context, cfg StreamConfig) (Stream, error)
		CreateOrUpdateStream(ctx context.Context, cfg StreamConfig) (Stream, error)
		Stream(ctx context.Context, stream string) (Stream, error)
		DeleteStream(ctx context.Context, stream string) error
		Publish(ctx context.Context, subject string, payload []byte, opts ...PublishOpt) (*PubAck, error)
		PublishMsg(ctx context.Context, msg *nats.Msg, opts ...PublishOpt) (*PubAck, error)
	}
)

const (
	AckExplicitPolicy AckPolicy = iota
	AckAllPolicy
	AckNonePolicy
)
const (
	DeliverAllPolicy DeliverPolicy = iota
	DeliverLastPolicy
	DeliverNewPolicy
)
const (
	LimitsPolicy RetentionPolicy = iota
	InterestPolicy
	WorkQueuePolicy
)
const (
	FileStorage StorageType = iota
	MemoryStorage
)

// Fake is the environment shared by all stand-in JetStream handles.
var Fake struct {
	CreateStreamErr   error
	UpdateStreamErr   error
	CreateConsumerErr error
	NewErr            error
	ConsumerErr       error
	ConsumeErr        error
	PublishErr        error
	Ops               []string // administrative operations, in order
	StreamCfgs        []StreamConfig
	ConsumerCfgs      []ConsumerConfig
	ConsumerStreams   []string // stream named by each consumer operation
	ConsumerNames     []string
	Published         []*nats.Msg
	Active            []*Consumption // every Consume call
}

// Consumption is one active Consume call.
type Consumption struct {
	Handler MessageHandler
	Stopped int
}

func (c *Consumption) Stop() { c.Stopped++ }

// ResetFake clears the environment.
func ResetFake() {
	Fake.CreateStreamErr, Fake.UpdateStreamErr, Fake.CreateConsumerErr = nil, nil, nil
	Fake.ConsumerErr, Fake.ConsumeErr, Fake.PublishErr, Fake.NewErr = nil, nil, nil, nil
	Fake.Ops, Fake.StreamCfgs, Fake.ConsumerCfgs, Fake.ConsumerStreams = nil, nil, nil, nil
	Fake.ConsumerNames, Fake.Published, Fake.Active = nil, nil, nil
}

type js struct{}
type cons struct{ stream, name string }
type stream struct{ cfg StreamConfig }

// New returns a JetStream handle.
func New(nc *nats.Conn, opts ...JetStreamOpt) (JetStream, error) {
	if Fake.NewErr != nil {
		return nil, Fake.NewErr
	}
	return js{}, nil
}

func (js) CreateStream(ctx context.Context, cfg StreamConfig) (Stream, error) {
	Fake.Ops = append(Fake.Ops, "create-stream "+cfg.Name)
	if Fake.CreateStreamErr != nil {
		return nil, Fake.CreateStreamErr
	}
	Fake.StreamCfgs = append(Fake.StreamCfgs, cfg)
	return stream{cfg}, nil
}
func (js) UpdateStream(ctx context.Context, cfg StreamConfig) (Stream, error) {
	Fake.Ops = append(Fake.Ops, "update-stream "+cfg.Name)
	if Fake.UpdateStreamErr != nil {
		return nil, Fake.UpdateStreamErr
	}
	Fake.StreamCfgs = append(Fake.StreamCfgs, cfg)
	return stream{cfg}, nil
}
func (j js) CreateOrUpdateStream(ctx context.Context, cfg StreamConfig) (Stream, error) {
	s, err := j.UpdateStream(ctx, cfg)
	if err == nil {
		return s, nil
	}
	return j.CreateStream(ctx, cfg)
}
func (js) Stream(ctx context.Context, name string) (Stream, error) {
	return stream{StreamConfig{Name: name}}, nil
}
func (js) DeleteStream(ctx context.Context, name string) error { return nil }
func (js) CreateOrUpdateConsumer(ctx context.Context, st string, cfg ConsumerConfig) (Consumer, error) {
	Fake.Ops = append(Fake.Ops, "consumer "+st+" "+cfg.Name)
	if Fake.CreateConsumerErr != nil {
		return nil, Fake.CreateConsumerErr
	}
	Fake.ConsumerCfgs = append(Fake.ConsumerCfgs, cfg)
	return cons{st, cfg.Name}, nil
}
func (j js) CreateConsumer(ctx context.Context, st string, cfg ConsumerConfig) (Consumer, error) {
	return j.CreateOrUpdateConsumer(ctx, st, cfg)
}
func (j js) UpdateConsumer(ctx context.Context, st string, cfg ConsumerConfig) (Consumer, error) {
	return j.CreateOrUpdateConsumer(ctx, st, cfg)
}
func (js) Consumer(ctx context.Context, st, name string) (Consumer, error) {
	if Fake.ConsumerErr != nil {
		return nil, Fake.ConsumerErr
	}
	Fake.ConsumerStreams = append(Fake.ConsumerStreams, st)
	Fake.ConsumerNames = append(Fake.ConsumerNames, name)
	return cons{st, name}, nil
}
func (js) DeleteConsumer(ctx context.Context, st, name string) error { return nil }
func (j js) Publish(ctx context.Context, subject string, payload []byte, opts ...PublishOpt) (*PubAck, error) {
	return j.PublishMsg(ctx, &nats.Msg{Subject: subject, Data: payload})
}
func (js) PublishMsg(ctx context.Context, m *nats.Msg, opts ...PublishOpt) (*PubAck, error) {
	if Fake.PublishErr != nil {
		return nil, Fake.PublishErr
	}
	h := make(nats.Header, len(m.Header))
	for k, v := range m.Header {
		h[k] = append([]string(nil), v...)
	}
	Fake.Published = append(Fake.Published, &nats.Msg{Subject: m.Subject, Reply: m.Reply, Header: h, Data: append([]byte(nil), m.Data...)})
	return &PubAck{}, nil
}

func (c cons) Consume(h MessageHandler, opts ...PullConsumeOpt) (ConsumeContext, error) {
	if h == nil {
		return nil, ErrHandlerRequired
	}
	if Fake.ConsumeErr != nil {
		return nil, Fake.ConsumeErr
	}
	cc := &Consumption{Handler: h}
	Fake.Active = append(Fake.Active, cc)
	return cc, nil
}
func (c cons) Info(context.Context) (*ConsumerInfo, error) {
	return &ConsumerInfo{Name: c.name, Stream: c.stream}, nil
}
func (c cons) CachedInfo() *ConsumerInfo { return &ConsumerInfo{Name: c.name, Stream: c.stream} }
func (s stream) Consumer(ctx context.Context, name string) (Consumer, error) {
	return js{}.Consumer(ctx, s.cfg.Name, name)
}
func (s stream) CreateOrUpdateConsumer(ctx context.Context, cfg ConsumerConfig) (Consumer, error) {
	return js{}.CreateOrUpdateConsumer(ctx, s.cfg.Name, cfg)
}
func (s stream) CachedInfo() *StreamInfo { return &StreamInfo{Config: s.cfg} }
