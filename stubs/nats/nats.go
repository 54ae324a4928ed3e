// Package nats is a stand-in for the NATS client: same API shape, with an
// in-memory recorder instead of a connection. Harnesses drive it via Fake.
package nats

import (
	"context"
	"crypto/tls"
	"errors"
	"time"
)

var (
	ErrConnectionClosed       = errors.New("nats: connection closed")
	ErrConnectionDraining     = errors.New("nats: connection draining")
	ErrDrainTimeout           = errors.New("nats: draining connection timed out")
	ErrConnectionReconnecting = errors.New("nats: connection reconnecting")
	ErrSecureConnRequired     = errors.New("nats: secure connection required")
	ErrSecureConnWanted       = errors.New("nats: secure connection not available")
	ErrBadSubscription        = errors.New("nats: invalid subscription")
	ErrTypeSubscription       = errors.New("nats: invalid subscription type")
	ErrBadSubject             = errors.New("nats: invalid subject")
	ErrBadQueueName           = errors.New("nats: invalid queue name")
	ErrSlowConsumer           = errors.New("nats: slow consumer, messages dropped")
	ErrTimeout                = errors.New("nats: timeout")
	ErrBadTimeout             = errors.New("nats: timeout invalid")
	ErrAuthorization          = errors.New("nats: authorization violation")
	ErrAuthExpired            = errors.New("nats: authentication expired")
	ErrAuthRevoked            = errors.New("nats: authentication revoked")
	ErrAccountAuthExpired     = errors.New("nats: account authentication expired")
	ErrNoServers              = errors.New("nats: no servers available for connection")
	ErrJsonParse              = errors.New("nats: connect message, json parse error")
	ErrChanArg                = errors.New("nats: argument needs to be a channel type")
	ErrMaxPayload             = errors.New("nats: maximum payload exceeded")
	ErrMaxMessages            = errors.New("nats: maximum messages delivered")
	ErrSyncSubRequired        = errors.New("nats: illegal call on an async subscription")
	ErrMultipleTLSConfigs     = errors.New("nats: multiple tls.Configs not allowed")
	ErrNoInfoReceived         = errors.New("nats: protocol exception, INFO not received")
	ErrReconnectBufExceeded   = errors.New("nats: outbound buffer limit exceeded")
	ErrInvalidConnection      = errors.New("nats: invalid connection")
	ErrInvalidMsg             = errors.New("nats: invalid message or message nil")
	ErrInvalidArg             = errors.New("nats: invalid argument")
	ErrInvalidContext         = errors.New("nats: invalid context")
	ErrNoDeadlineContext      = errors.New("nats: context requires a deadline")
	ErrNoEchoNotSupported     = errors.New("nats: no echo option not supported by this server")
	ErrClientIDNotSupported   = errors.New("nats: client ID not supported by this server")
	ErrUserButNoSigCB         = errors.New("nats: user callback defined without a signature handler")
	ErrNkeyButNoSigCB         = errors.New("nats: nkey defined without a signature handler")
	ErrNoUserCB               = errors.New("nats: user callback not defined")
	ErrNkeyAndUser            = errors.New("nats: user callback and nkey defined")
	ErrNkeysNotSupported      = errors.New("nats: nkeys not supported by the server")
	ErrTokenAlreadySet        = errors.New("nats: token and token handler both set")
	ErrMsgNotBound            = errors.New("nats: message is not bound to subscription/connection")
	ErrMsgNoReply             = errors.New("nats: message does not have a reply")
	ErrClientIPNotSupported   = errors.New("nats: client IP not supported by this server")
	ErrDisconnected           = errors.New("nats: server is disconnected")
	ErrHeadersNotSupported    = errors.New("nats: headers not supported by this server")
	ErrBadHeaderMsg           = errors.New("nats: message could not decode headers")
	ErrNoResponders           = errors.New("nats: no responders available for request")
	ErrMaxConnectionsExceeded = errors.New("nats: server maximum connections exceeded")
	ErrConnectionNotTLS       = errors.New("nats: connection is not tls")
	ErrStaleConnection        = errors.New("nats: stale connection")
)

type (
	Header     map[string][]string
	MsgHandler func(msg *Msg)
	Option     func(*Options) error
	Status     int
	Statistics struct{ InMsgs, OutMsgs, InBytes, OutBytes, Reconnects uint64 }
	Options    struct {
		Url            string
		Servers        []string
		Name           string
		User           string
		Password       string
		Token          string
		Secure         bool
		TLSConfig      *tls.Config
		Timeout        time.Duration
		MaxReconnect   int
		ReconnectWait  time.Duration
		AllowReconnect bool
	}
	Msg struct {
		Subject string
		Reply   string
		Header  Header
		Data    []byte
		Sub     *Subscription
	}
	AckOpt interface{ ackOpt() }
)

const (
	DISCONNECTED = Status(iota)
	CONNECTED
	CLOSED
)
const DefaultURL = "nats://127.0.0.1:4222"

// Fake is the environment: every hook is optional.
var Fake struct {
	ConnectErr   error
	ConnectFail  int // the connection attempt that fails, from 1
	Connects     int
	PublishErr   error
	FlushErr     error
	SubscribeErr error
	DrainErr     error
	Conns        []*Conn
}

// ResetFake clears the environment.
func ResetFake() {
	Fake.ConnectErr, Fake.PublishErr, Fake.FlushErr, Fake.SubscribeErr, Fake.DrainErr = nil, nil, nil, nil, nil
	Fake.Conns, Fake.ConnectFail, Fake.Connects = nil, 0, 0
}

type Conn struct {
	Opts      Options
	Published []*Msg // messages accepted, in order
	Flushed   int    // how many of them have been flushed
	Subs      []*Subscription
	Closed    bool
}

type Subscription struct {
	Subject string
	Queue   string
	conn    *Conn
	Cb      MsgHandler
	Drained int
	Unsubed int
}

func Connect(url string, options ...Option) (*Conn, error) {
	o := Options{Url: url}
	for _, f := range options {
		if f != nil {
			if err := f(&o); err != nil {
				return nil, err
			}
		}
	}
	Fake.Connects++
	if Fake.ConnectErr != nil {
		return nil, Fake.ConnectErr
	}
	if Fake.Connects == Fake.ConnectFail {
		return nil, ErrNoServers
	}
	c := &Conn{Opts: o}
	Fake.Conns = append(Fake.Conns, c)
	return c, nil
}

func GetDefaultOptions() Options { return Options{} }
func (o Options) Connect() (*Conn, error) {
	c := &Conn{Opts: o}
	Fake.Conns = append(Fake.Conns, c)
	return c, nil
}
func Name(name string) Option { return func(o *Options) error { o.Name = name; return nil } }
func Secure(t ...*tls.Config) Option {
	return func(o *Options) error {
		o.Secure = true
		if len(t) >= 1 {
			if len(t) > 1 {
				return ErrMultipleTLSConfigs
			}
			o.TLSConfig = t[0]
		}
		return nil
	}
}
func UserInfo(u, p string) Option {
	return func(o *Options) error { o.User, o.Password = u, p; return nil }
}
func Token(t string) Option          { return func(o *Options) error { o.Token = t; return nil } }
func Timeout(t time.Duration) Option { return func(o *Options) error { o.Timeout = t; return nil } }
func MaxReconnects(m int) Option     { return func(o *Options) error { o.MaxReconnect = m; return nil } }
func ReconnectWait(t time.Duration) Option {
	return func(o *Options) error { o.ReconnectWait = t; return nil }
}
func NoReconnect() Option { return func(o *Options) error { o.AllowReconnect = false; return nil } }

func NewMsg(subject string) *Msg { return &Msg{Subject: subject, Header: make(Header)} }

func (h Header) Add(key, value string) { h[key] = append(h[key], value) }
func (h Header) Set(key, value string) { h[key] = []string{value} }
func (h Header) Get(key string) string {
	if h == nil {
		return ""
	}
	if v := h[key]; v != nil {
		return v[0]
	}
	return ""
}
func (h Header) Values(key string) []string { return h[key] }
func (h Header) Del(key string)             { delete(h, key) }

func (m *Msg) Ack(opts ...AckOpt) error                           { return ErrMsgNoReply }
func (m *Msg) Nak(opts ...AckOpt) error                           { return ErrMsgNoReply }
func (m *Msg) NakWithDelay(d time.Duration, opts ...AckOpt) error { return ErrMsgNoReply }
func (m *Msg) AckSync(opts ...AckOpt) error                       { return ErrMsgNoReply }
func (m *Msg) InProgress(opts ...AckOpt) error                    { return ErrMsgNoReply }
func (m *Msg) Term(opts ...AckOpt) error                          { return ErrMsgNoReply }
func (m *Msg) Respond(data []byte) error                          { return ErrMsgNoReply }
func (m *Msg) RespondMsg(msg *Msg) error                          { return ErrMsgNoReply }
func (m *Msg) Size() int                                          { return len(m.Data) }

func (nc *Conn) Publish(subj string, data []byte) error {
	return nc.PublishMsg(&Msg{Subject: subj, Data: data})
}
func (nc *Conn) PublishMsg(m *Msg) error {
	if nc == nil {
		return ErrInvalidConnection
	}
	if m == nil {
		return ErrInvalidMsg
	}
	if m.Subject == "" {
		return ErrBadSubject
	}
	if nc.Closed {
		return ErrConnectionClosed
	}
	if Fake.PublishErr != nil {
		return Fake.PublishErr
	}
	// the real client serialises the message here: keep a copy
	h := make(Header, len(m.Header))
	for k, v := range m.Header {
		h[k] = append([]string(nil), v...)
	}
	nc.Published = append(nc.Published, &Msg{Subject: m.Subject, Reply: m.Reply, Header: h, Data: append([]byte(nil), m.Data...)})
	return nil
}
func (nc *Conn) PublishRequest(subj, reply string, data []byte) error {
	return nc.PublishMsg(&Msg{Subject: subj, Reply: reply, Data: data})
}
func (nc *Conn) Flush() error { return nc.FlushTimeout(10 * time.Second) }
func (nc *Conn) FlushTimeout(t time.Duration) error {
	if nc == nil {
		return ErrInvalidConnection
	}
	if t <= 0 {
		return ErrBadTimeout
	}
	if nc.Closed {
		return ErrConnectionClosed
	}
	if Fake.FlushErr != nil {
		return Fake.FlushErr
	}
	nc.Flushed = len(nc.Published)
	return nil
}
func (nc *Conn) FlushWithContext(ctx context.Context) error {
	if ctx == nil {
		return ErrInvalidContext
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	return nc.FlushTimeout(time.Second)
}
func (nc *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error) {
	return nc.QueueSubscribe(subj, "", cb)
}
func (nc *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	if nc == nil {
		return nil, ErrInvalidConnection
	}
	if nc.Closed {
		return nil, ErrConnectionClosed
	}
	if subj == "" {
		return nil, ErrBadSubject
	}
	if cb == nil {
		return nil, ErrBadSubscription
	}
	if Fake.SubscribeErr != nil {
		return nil, Fake.SubscribeErr
	}
	s := &Subscription{Subject: subj, Queue: queue, conn: nc, Cb: cb}
	nc.Subs = append(nc.Subs, s)
	return s, nil
}
func (nc *Conn) ChanSubscribe(subj string, ch chan *Msg) (*Subscription, error) {
	return nc.QueueSubscribe(subj, "", func(m *Msg) { ch <- m })
}
func (nc *Conn) ChanQueueSubscribe(subj, group string, ch chan *Msg) (*Subscription, error) {
	return nc.QueueSubscribe(subj, group, func(m *Msg) { ch <- m })
}
func (nc *Conn) Close() {
	if nc != nil {
		nc.Closed = true
	}
}
func (nc *Conn) Drain() error {
	if nc.Closed {
		return ErrConnectionClosed
	}
	nc.Closed = true
	return nil
}
func (nc *Conn) IsClosed() bool    { return nc.Closed }
func (nc *Conn) IsConnected() bool { return !nc.Closed }
func (nc *Conn) IsDraining() bool  { return false }
func (nc *Conn) Status() Status {
	if nc.Closed {
		return CLOSED
	}
	return CONNECTED
}
func (nc *Conn) LastError() error      { return nil }
func (nc *Conn) NumSubscriptions() int { return len(nc.Subs) }
func (nc *Conn) ConnectedUrl() string  { return nc.Opts.Url }
func (nc *Conn) MaxPayload() int64     { return 1 << 20 }

func (s *Subscription) Drain() error {
	if s == nil || s.Drained > 0 || s.Unsubed > 0 {
		return ErrBadSubscription
	}
	if Fake.DrainErr != nil {
		return Fake.DrainErr
	}
	s.Drained++
	return nil
}
func (s *Subscription) Unsubscribe() error {
	if s == nil || s.Drained > 0 || s.Unsubed > 0 {
		return ErrBadSubscription
	}
	if Fake.DrainErr != nil {
		return Fake.DrainErr
	}
	s.Unsubed++
	return nil
}
func (s *Subscription) AutoUnsubscribe(max int) error   { return nil }
func (s *Subscription) IsValid() bool                   { return s.Drained == 0 && s.Unsubed == 0 }
func (s *Subscription) SetPendingLimits(a, b int) error { return nil }
func (s *Subscription) Pending() (int, int, error)      { return 0, 0, nil }

// Active tells whether the server side would still route messages to s.
func (s *Subscription) Active() bool { return s.Drained == 0 && s.Unsubed == 0 }
