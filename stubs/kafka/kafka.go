// Package kafka is a stand-in for the Kafka client: same API shape, an
// in-memory environment instead of brokers. Harnesses drive it via Fake.
package kafka

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"net"
	"strconv"
	"time"

	"github.com/segmentio/kafka-go/sasl"
)

type Error int

const (
	Unknown                 Error = -1
	OffsetOutOfRange        Error = 1
	InvalidMessage          Error = 2
	UnknownTopicOrPartition Error = 3
	InvalidMessageSize      Error = 4
	LeaderNotAvailable      Error = 5
	NotLeaderForPartition   Error = 6
	RequestTimedOut         Error = 7
	BrokerNotAvailable      Error = 8
	MessageSizeTooLarge     Error = 10
	InvalidTopic            Error = 17
	TopicAlreadyExists      Error = 36
)

func (e Error) Error() string   { return "kafka error " + strconv.Itoa(int(e)) }
func (e Error) Timeout() bool   { return e == RequestTimedOut }
func (e Error) Temporary() bool { return e == LeaderNotAvailable || e == UnknownTopicOrPartition }
func (e Error) Title() string   { return e.Error() }

type WriteErrors []error

func (e WriteErrors) Error() string { return "kafka write errors" }

const (
	FirstOffset = -2
	LastOffset  = -1
)

type (
	Header struct {
		Key   string
		Value []byte
	}
	Message struct {
		Topic         string
		Partition     int
		Offset        int64
		HighWaterMark int64
		Key           []byte
		Value         []byte
		Headers       []Header
		WriterData    interface{}
		Time          time.Time
	}
	Broker struct {
		Host string
		Port int
		ID   int
		Rack string
	}
	Partition struct {
		Topic    string
		ID       int
		Leader   Broker
		Replicas []Broker
		Isr      []Broker
		Error    error
	}
	TopicConfig struct {
		Topic             string
		NumPartitions     int
		ReplicationFactor int
	}
	Balancer interface {
		Balance(msg Message, partitions ...int) (partition int)
	}
	LeastBytes   struct{}
	RoundRobin   struct{}
	Hash         struct{}
	RequiredAcks int
	Compression  int8
	Logger       interface{ Printf(string, ...interface{}) }
	RoundTripper interface{ RoundTrip() }
	Transport    struct {
		DialTimeout time.Duration
		IdleTimeout time.Duration
		ClientID    string
		TLS         *tls.Config
		SASL        sasl.Mechanism
		Context     context.Context
	}
	Dialer struct {
		ClientID        string
		Timeout         time.Duration
		Deadline        time.Time
		DualStack       bool
		KeepAlive       time.Duration
		TLS             *tls.Config
		SASLMechanism   sasl.Mechanism
		TransactionalID string
	}
	ReaderConfig struct {
		Brokers               []string
		GroupID               string
		GroupTopics           []string
		Topic                 string
		Partition             int
		Dialer                *Dialer
		QueueCapacity         int
		MinBytes              int
		MaxBytes              int
		MaxWait               time.Duration
		CommitInterval        time.Duration
		HeartbeatInterval     time.Duration
		SessionTimeout        time.Duration
		RebalanceTimeout      time.Duration
		StartOffset           int64
		ReadBackoffMin        time.Duration
		ReadBackoffMax        time.Duration
		Logger                Logger
		ErrorLogger           Logger
		MaxAttempts           int
		WatchPartitionChanges bool
	}
	Writer struct {
		Addr                   net.Addr
		Topic                  string
		Balancer               Balancer
		MaxAttempts            int
		BatchSize              int
		BatchBytes             int64
		BatchTimeout           time.Duration
		ReadTimeout            time.Duration
		WriteTimeout           time.Duration
		RequiredAcks           RequiredAcks
		Async                  bool
		Completion             func(messages []Message, err error)
		Compression            Compression
		Logger                 Logger
		ErrorLogger            Logger
		Transport              RoundTripper
		AllowAutoTopicCreation bool
		used, closed           bool
	}
	Conn struct {
		d      *Dialer
		closed bool
	}
	Reader struct {
		Cfg       ReaderConfig
		Messages  chan Message // messages the broker delivers
		closed    chan struct{}
		Closed    int
		Committed []Message // explicit commits
		Auto      []Message // commits implied by ReadMessage
	}
	WriterStats struct{}
	ReaderStats struct{}
)

const (
	RequireNone RequiredAcks = 0
	RequireOne  RequiredAcks = 1
	RequireAll  RequiredAcks = -1
)

func (*LeastBytes) Balance(msg Message, p ...int) int { return p[0] }
func (*RoundRobin) Balance(msg Message, p ...int) int { return p[0] }
func (*Hash) Balance(msg Message, p ...int) int       { return p[0] }
func (*Transport) RoundTrip()                         {}

var DefaultDialer = &Dialer{Timeout: 10 * time.Second, DualStack: true}
var DefaultTransport RoundTripper = &Transport{}

// Written is one accepted message.
type Written struct {
	Addr      string
	Topic     string
	Msg       Message
	Transport RoundTripper
}

// Fake is the environment.
var Fake struct {
	DialErr     error
	BrokersErr  error
	CreateErr   error
	PartErr     error
	CommitErr   error
	CloseErr    error
	WriteErrs   []error // results of the successive write attempts
	CreateDelay int     // partition listings before a created topic shows up
	Topics      []string
	pending     []string
	Created     []string
	Dials       []string
	Dialers     []*Dialer
	OpenConns   int
	Written     []Written
	WriteTries  int
	OpenWriters int
	Closes      int       // connections closed more than once
	OnListing   func(int) // called before each listing of the partitions
	Listings    int
	Readers     []*Reader
}

// ResetFake clears the environment.
func ResetFake() {
	Fake.DialErr, Fake.BrokersErr, Fake.CreateErr, Fake.PartErr = nil, nil, nil, nil
	Fake.CommitErr, Fake.CloseErr, Fake.WriteErrs = nil, nil, nil
	Fake.CreateDelay, Fake.OpenConns, Fake.WriteTries, Fake.OpenWriters = 0, 0, 0, 0
	Fake.Topics, Fake.pending, Fake.Created, Fake.Dials, Fake.Dialers = nil, nil, nil, nil, nil
	Fake.Written, Fake.Readers = nil, nil
	Fake.Closes, Fake.Listings, Fake.OnListing = 0, 0, nil
	DefaultDialer = &Dialer{Timeout: 10 * time.Second, DualStack: true}
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func TCP(address ...string) net.Addr {
	s := ""
	for i, a := range address {
		if i > 0 {
			s += ","
		}
		s += a
	}
	return addr(s)
}

func Dial(network, address string) (*Conn, error) { return DefaultDialer.Dial(network, address) }
func DialContext(ctx context.Context, network, address string) (*Conn, error) {
	return DefaultDialer.Dial(network, address)
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (*Conn, error) {
	return d.Dial(network, address)
}
func (d *Dialer) Dial(network, address string) (*Conn, error) {
	Fake.Dials = append(Fake.Dials, address)
	Fake.Dialers = append(Fake.Dialers, d)
	if Fake.DialErr != nil {
		return nil, Fake.DialErr
	}
	Fake.OpenConns++
	return &Conn{d: d}, nil
}
func (c *Conn) Close() error {
	if c.closed {
		Fake.Closes++
		return net.ErrClosed
	}
	c.closed = true
	Fake.OpenConns--
	return nil
}
func (c *Conn) Brokers() ([]Broker, error) {
	return []Broker{{Host: "h"}}, Fake.BrokersErr
}
func (c *Conn) Controller() (Broker, error) { return Broker{Host: "h"}, Fake.BrokersErr }
func (c *Conn) CreateTopics(topics ...TopicConfig) error {
	if Fake.CreateErr != nil {
		return Fake.CreateErr
	}
	for _, t := range topics {
		Fake.Created = append(Fake.Created, t.Topic)
		known := false
		for _, x := range Fake.Topics {
			if x == t.Topic {
				known = true
			}
		}
		for _, x := range Fake.pending {
			if x == t.Topic {
				known = true
			}
		}
		if !known {
			Fake.pending = append(Fake.pending, t.Topic)
		}
	}
	return nil
}
func (c *Conn) ReadPartitions(topics ...string) ([]Partition, error) {
	Fake.Listings++
	if Fake.OnListing != nil {
		Fake.OnListing(Fake.Listings)
	}
	if Fake.PartErr != nil {
		return nil, Fake.PartErr
	}
	if Fake.CreateDelay > 0 {
		Fake.CreateDelay--
	} else {
		Fake.Topics = append(Fake.Topics, Fake.pending...)
		Fake.pending = nil
	}
	var ps []Partition
	for _, t := range Fake.Topics {
		keep := len(topics) == 0
		for _, w := range topics {
			if w == t {
				keep = true
			}
		}
		if keep {
			ps = append(ps, Partition{Topic: t})
		}
	}
	return ps, nil
}

func (w *Writer) WriteMessages(ctx context.Context, msgs ...Message) error {
	Fake.WriteTries++
	if w.closed {
		return io.ErrClosedPipe
	}
	if !w.used {
		w.used = true
		Fake.OpenWriters++
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	if len(Fake.WriteErrs) > 0 {
		err := Fake.WriteErrs[0]
		Fake.WriteErrs = Fake.WriteErrs[1:]
		if err != nil {
			return err
		}
	}
	for _, m := range msgs {
		topic := w.Topic
		if topic == "" {
			topic = m.Topic
		}
		if topic == "" {
			return UnknownTopicOrPartition
		}
		c := m
		c.Headers = append([]Header(nil), m.Headers...)
		a := ""
		if w.Addr != nil {
			a = w.Addr.String()
		}
		Fake.Written = append(Fake.Written, Written{Addr: a, Topic: topic, Msg: c, Transport: w.Transport})
	}
	return nil
}
func (w *Writer) Close() error {
	if w.used && !w.closed {
		Fake.OpenWriters--
	}
	w.closed = true
	return nil
}
func (w *Writer) Stats() WriterStats { return WriterStats{} }

func NewReader(config ReaderConfig) *Reader {
	if len(config.Brokers) == 0 {
		panic("cannot create a new kafka reader with an empty list of broker addresses")
	}
	r := &Reader{Cfg: config, Messages: make(chan Message, 16), closed: make(chan struct{})}
	Fake.Readers = append(Fake.Readers, r)
	return r
}
func (r *Reader) Config() ReaderConfig { return r.Cfg }
func (r *Reader) Close() error {
	r.Closed++
	if r.Closed == 1 {
		close(r.closed)
	}
	return Fake.CloseErr
}
func (r *Reader) FetchMessage(ctx context.Context) (Message, error) {
	select {
	case <-r.closed:
		return Message{}, io.EOF
	default:
	}
	select {
	case m, ok := <-r.Messages:
		if !ok {
			return Message{}, errors.New("fake: read failure")
		}
		return m, nil
	case <-r.closed:
		return Message{}, io.EOF
	case <-ctx.Done():
		return Message{}, ctx.Err()
	}
}
func (r *Reader) ReadMessage(ctx context.Context) (Message, error) {
	m, err := r.FetchMessage(ctx)
	if err != nil {
		return Message{}, err
	}
	if r.Cfg.GroupID != "" {
		r.Auto = append(r.Auto, m)
	}
	return m, nil
}
func (r *Reader) CommitMessages(ctx context.Context, msgs ...Message) error {
	if r.Cfg.GroupID == "" {
		return errors.New("unavailable when GroupID is not set")
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	if Fake.CommitErr != nil {
		return Fake.CommitErr
	}
	r.Committed = append(r.Committed, msgs...)
	return nil
}
func (r *Reader) Stats() ReaderStats           { return ReaderStats{} }
func (r *Reader) SetOffset(offset int64) error { return nil }
func (r *Reader) Offset() int64                { return 0 }
func (r *Reader) Lag() int64                   { return 0 }
