// Package main checks loggers, stock middlewares, error handlers and context
// helpers.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"
	"syscall"

	"github.com/fatih/color"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/errorhandlers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/loggers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"

	"verifh/fake"
	"verifh/v"
)

var levels = []string{"info", "warning", "error"}

func logAt(l extensions.Logger, level int, ctx context.Context, msg string, info ...extensions.LogInfo) {
	switch level {
	case 0:
		l.Info(ctx, msg, info...)
	case 1:
		l.Warning(ctx, msg, info...)
	default:
		l.Error(ctx, msg, info...)
	}
}

// at follows a dotted path in a decoded JSON document.
func at(m map[string]any, path ...string) (string, bool) {
	var cur any = m
	for _, p := range path {
		o, ok := cur.(map[string]any)
		if !ok {
			return "", false
		}
		if cur, ok = o[p]; !ok {
			return "", false
		}
	}
	s, ok := cur.(string)
	return s, ok
}

// context values that may or may not be set.
var keys = []extensions.ContextKey{extensions.ContextKeyIsProvider, extensions.ContextKeyIsChannel,
	extensions.ContextKeyIsBrokerMessage, extensions.ContextKeyIsCorrelationID}
var ecsPaths = [][]string{{"asyncapi", "provider"}, {"asyncapi", "channel"}, {"event", "original"}, {"trace", "id"}}

var names4 = []string{"p", "c\"", "o\\", ""}

// HarnessECS: one line of JSON per log, with message, level and context values
// at their standard place, whatever the caller adds.
//
// verif: cover=ctx,noctx,clash
func HarnessECS() {
	level := v.Choice("level", 3)
	msg := "m\"<"
	ctx := context.Background()
	vals := make([]string, len(keys))
	set := v.Choice("ctx", len(keys)+3) // none, one of them, all, none with a symbolic message
	if set == len(keys)+2 {
		msg = v.StringOf("msg", 0, v.Bound(1, 2), "\\\x01-\x7f")
	}
	for i, k := range keys {
		if set == i+1 || set == len(keys)+1 {
			vals[i] = names4[i]
			if set == i+1 {
				vals[i] = v.StringOf("val", 0, 1, "a\"\\\\\n{")
			}
			ctx = context.WithValue(ctx, k, vals[i])
		}
	}
	dir := v.Choice("dir", 4)
	switch dir {
	case 1:
		ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
	case 2:
		ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "reception")
	case 3:
		ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, 12)
	}
	var info []extensions.LogInfo
	clash := 0
	if dir == 0 || v.Thorough() {
		clash = v.Choice("clash", 6)
	}
	switch clash {
	case 1:
		info = append(info, extensions.LogInfo{Key: "log.level", Value: "mine"})
	case 2:
		info = append(info, extensions.LogInfo{Key: "log", Value: "mine"})
	case 3:
		info = append(info, extensions.LogInfo{Key: "log.level.deeper", Value: "mine"})
	case 4:
		info = append(info, extensions.LogInfo{Key: "message", Value: "mine"}, extensions.LogInfo{Key: "trace.id", Value: "mine"})
	case 5:
		info = append(info, extensions.LogInfo{Key: "message.x", Value: "mine"}, extensions.LogInfo{Key: "@timestamp", Value: errors.New("x")})
	}
	given := append([]extensions.LogInfo{}, info...)
	out := v.Capture(func() { logAt(loggers.NewECS(), level, ctx, msg, info...) })
	for i := range given {
		v.Assert(info[i] == given[i], "the caller's information is not modified")
	}

	v.Assert(len(out) > 0 && strings.Index(out, "\n") == len(out)-1, "one line per log")
	var m map[string]any
	v.Assert(json.Unmarshal([]byte(out), &m) == nil, "the line is valid JSON")
	got, ok := at(m, "message")
	v.Assert(ok && got == msg, "message recorded")
	got, ok = at(m, "log", "level")
	v.Assert(ok && got == levels[level], "level recorded")
	got, ok = at(m, "log", "logger")
	v.Assert(ok && got != "", "logger recorded")
	got, ok = at(m, "@timestamp")
	v.Assert(ok && got != "" && got != "x", "timestamp recorded")
	for i := range keys {
		got, ok = at(m, ecsPaths[i]...)
		if set == i+1 || set == len(keys)+1 {
			v.Assert(ok && got == vals[i], "context value recorded")
			v.Cover("ctx")
		} else {
			v.Assert(!ok || (got == "mine" && clash == 4), "no value invented for an unset context key")
			v.Cover("noctx")
		}
	}
	got, ok = at(m, "event", "action")
	switch dir {
	case 1:
		v.Assert(ok && got == "published-message", "publication recorded")
	case 2:
		v.Assert(ok && got == "received-message", "reception recorded")
	default:
		v.Assert(!ok, "no direction invented")
	}
	if clash > 0 {
		v.Cover("clash")
	}
}

func related(a, b string) bool {
	x, y := strings.Split(a, "."), strings.Split(b, ".")
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := true
	for i := 0; i < n; i++ {
		r = r && x[i] == y[i]
	}
	return r
}

// HarnessECSInfo: information added by the caller is nested by dotted key; the
// last value wins when two keys clash, and nothing else is lost.
//
// verif: cover=kept,lost,nested
func HarnessECSInfo() {
	n := v.Bound(2, 3)
	var info []extensions.LogInfo
	var ks, xs []string
	for i := 0; i < n; i++ {
		ks = append(ks, v.StringOf("k", 1, 3, "ab."))
		xs = append(xs, fmt.Sprintf("x%d", i))
		info = append(info, extensions.LogInfo{Key: ks[i], Value: xs[i]})
	}
	out := v.Capture(func() { loggers.NewECS().Info(context.Background(), "m", info...) })
	var m map[string]any
	v.Assert(json.Unmarshal([]byte(out), &m) == nil, "the line is valid JSON")
	for i := 0; i < n; i++ {
		lost := false
		for j := i + 1; j < n; j++ {
			lost = lost || related(ks[i], ks[j])
		}
		p := strings.Split(ks[i], ".")
		got, ok := at(m, p...)
		if lost {
			v.Assert(!ok || got != xs[i], "a later clashing key wins")
			v.Cover("lost")
			continue
		}
		v.Assert(ok && got == xs[i], "added information recorded at its path")
		v.Cover("kept")
		if len(p) > 1 {
			v.Cover("nested")
		}
	}
}

// HarnessECSBytes: arbitrary bytes never break the JSON line.
//
// verif: cover=done
func HarnessECSBytes() {
	msg := v.String("msg", 0, v.Bound(2, 3))
	out := v.Capture(func() {
		loggers.NewECS().Error(context.Background(), "m", extensions.LogInfo{Key: "k", Value: msg})
	})
	v.Assert(strings.Index(out, "\n") == len(out)-1, "one line per log")
	v.Assert(json.Valid([]byte(out)), "the line is valid JSON")
	v.Cover("done")
}

// HarnessText: the text logger prints the message first and then every
// information and context value.
//
// verif: cover=done,nested maporder=any
func HarnessText() {
	color.NoColor = true
	level := v.Choice("level", 3)
	msg := v.StringOf("msg", 0, 2, "a-c:\n%")
	ctx := context.Background()
	set := v.Choice("ctx", 5)
	names := []string{"Channel", "CorrelationID", "Content"}
	ks := []extensions.ContextKey{extensions.ContextKeyIsChannel, extensions.ContextKeyIsCorrelationID, extensions.ContextKeyIsBrokerMessage}
	val := v.StringOf("val", 1, 1, "x-z%")
	for i, k := range ks {
		if set == i+1 || set == 4 {
			ctx = context.WithValue(ctx, k, val)
		}
	}
	var info []extensions.LogInfo
	extra := v.Choice("extra", 3)
	if extra == 1 {
		info = append(info, extensions.LogInfo{Key: "k", Value: val})
	}
	if extra == 2 {
		info = append(info, extensions.LogInfo{Key: "n.k", Value: val})
	}
	out := v.Capture(func() { logAt(loggers.NewText(), level, ctx, msg, info...) })
	v.Assert(strings.HasPrefix(out, "> "), "the log starts with its time stamp")
	i := strings.Index(out, "Z: "+msg+"\n")
	v.Assert(i > 0, "message printed first")
	rest := out[i+len("Z: "+msg+"\n"):]
	for i := range ks {
		if set == i+1 || set == 4 {
			v.Assert(strings.Contains(rest, "  "+names[i]+": "+val+"\n"), "context value printed")
		} else {
			v.Assert(!strings.Contains(rest, names[i]), "no value printed for an unset context key")
		}
	}
	switch extra {
	case 1:
		v.Assert(strings.Contains(rest, "  k: "+val+"\n"), "information printed")
	case 2:
		v.Assert(strings.Contains(rest, "  n:\n    k: "+val+"\n"), "nested information printed")
		v.Cover("nested")
	}
	v.Cover("done")
}

type named string

// HarnessContext: the context helpers call back exactly when the key holds a
// value of the requested type (and, for equality, the requested value).
//
// verif: cover=set,unset,othertype
func HarnessContext() {
	all := []extensions.ContextKey{extensions.ContextKeyIsVersion, extensions.ContextKeyIsProvider, extensions.ContextKeyIsChannel,
		extensions.ContextKeyIsDirection, extensions.ContextKeyIsBrokerMessage, extensions.ContextKeyIsCorrelationID}
	k, q := all[v.Choice("k", len(all))], all[v.Choice("q", len(all))]
	x := v.String("x", 0, 1)
	var val any
	kind := v.Choice("kind", 5)
	switch kind {
	case 1:
		val = x
	case 2:
		val = 3
	case 3:
		val = named(x)
	case 4:
		val = (*int)(nil)
	}
	ctx := context.WithValue(context.Background(), k, val)
	// a user key of another type with the same text never collides
	ctx = context.WithValue(ctx, string(q), "user")
	hit := k == q
	nstr, nany, nint, nnot, neq := 0, 0, 0, 0, 0
	extensions.IfContextSetWith(ctx, q, func(s string) {
		nstr++
		v.Assert(s == x, "the stored value is given")
	})
	extensions.IfContextSetWith(ctx, q, func(a any) { nany++; v.Assert(a == val, "the stored value is given") })
	extensions.IfContextSetWith(ctx, q, func(i int) { nint++; v.Assert(i == 3, "the stored value is given") })
	extensions.IfContextNotSetWith[string](ctx, q, func() { nnot++ })
	e := v.String("e", 0, 1)
	extensions.IfContextValueEquals(ctx, q, e, func() { neq++ })
	one := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	v.Assert(nstr == one(hit && kind == 1), "called once for a value of the requested type")
	v.Assert(nany == one(hit && kind != 0), "called once for any value")
	v.Assert(nint == one(hit && kind == 2), "called once for a value of the requested type")
	v.Assert(nnot == one(!hit || kind == 0), "called once for an unset key")
	v.Assert(neq == one(hit && kind == 1 && e == x), "called once for an equal value")
	v.Assert(q.String() == string(q), "key name")
	switch {
	case !hit:
		v.Cover("unset")
	case kind == 2:
		v.Cover("othertype")
	case kind == 1:
		v.Cover("set")
	}
}

// panics are errors with a meaning for some libraries.
var panics = []error{context.Canceled, context.DeadlineExceeded, io.EOF, syscall.EPIPE,
	extensions.ErrAsyncAPI, extensions.ErrContextCanceled, extensions.ErrSubscriptionCanceled, extensions.ErrNoCorrelationIDSet}

// HarnessRecovery: a panic downstream is contained and logged once; without
// panic the outcome downstream is returned as is.
//
// verif: cover=panic,error,ok
func HarnessRecovery() {
	l := &fake.Logger{}
	mw := middlewares.Recovery(l)
	type ck string
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ck("a"), "b"))
	defer cancel()
	m := &extensions.BrokerMessage{Payload: v.Bytes("p", 0, 1)}
	what := v.Choice("what", 10)
	var thrown error
	if what >= 8 {
		thrown = panics[v.Choice("thrown", len(panics))]
		if what == 9 {
			thrown = fmt.Errorf("wrapped: %w", thrown)
		}
	}
	number := v.Int("number", -1, 300)
	canceled := v.Bool("canceled") // by the operation, before it panics
	text := v.StringOf("text", 0, 1, "a-z%")
	called := 0
	errDown := errors.New("downstream")
	var nilmap map[string]int
	rounds := 1 + v.Choice("rounds", 2)
	for i := 0; i < rounds; i++ {
		l.Entries, called = nil, 0
		err := mw(ctx, m, func(c context.Context) error {
			called++
			v.Assert(c.Value(ck("a")) == "b", "downstream gets the context")
			if canceled {
				cancel()
			}
			switch what {
			case 1:
				return errDown
			case 2:
				panic(text)
			case 3:
				panic(errors.New(text))
			case 4:
				nilmap["a"] = 1
			case 5:
				panic(number)
			case 6:
				var none *extensions.BrokerMessage
				return errors.New(string(none.Payload))
			case 7:
				panic(m)
			case 8, 9:
				panic(thrown)
			}
			return nil
		})
		v.Assert(called == 1, "downstream called once")
		switch what {
		case 0:
			v.Assert(err == nil && len(l.Entries) == 0, "success is returned as is")
			v.Cover("ok")
		case 1:
			v.Assert(err == errDown && len(l.Entries) == 0, "downstream error is returned as is")
			v.Cover("error")
		default:
			v.Assert(len(l.Entries) == 1 && l.Entries[0].Level == "error", "a contained panic is logged once as an error")
			if what == 2 || what == 3 {
				v.Assert(strings.Contains(l.Entries[0].Msg, text), "the log says what the panic was")
			}
			v.Cover("panic")
		}
	}
}

// HarnessStock: the logging and interception middlewares observe each message
// once and let it through untouched; error handlers only report.
//
// verif: cover=reception,publication,other,intercepted preempt=2 t.preempt=3
func HarnessStock() {
	l := &fake.Logger{}
	ctx := context.Background()
	dir := []string{"", "reception", "publication", "x"}[v.Choice("dir", 4)]
	if dir != "" {
		ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, dir)
	}
	p := v.Bytes("p", 0, 1)
	m := &extensions.BrokerMessage{Headers: map[string][]byte{"a": {1}}, Payload: append([]byte{}, p...)}
	next := func(context.Context) error { v.Fail("must not call the next middleware itself"); return nil }
	v.Assert(middlewares.Logging(l)(ctx, m, next) == nil, "logging does not interrupt")
	switch dir {
	case "reception", "publication":
		v.Assert(len(l.Entries) == 1 && l.Entries[0].Level == "info", "one log per message")
		v.Assert(strings.Contains(l.Entries[0].Msg, map[string]string{"reception": "Received", "publication": "Published"}[dir]), "direction logged")
		v.Cover(dir)
	default:
		v.Assert(len(l.Entries) == 0, "nothing logged without direction")
		v.Cover("other")
	}
	ch := make(chan extensions.BrokerMessage, v.Choice("cap", 2))
	got := make(chan extensions.BrokerMessage, 1)
	go func() { got <- <-ch }()
	v.Assert(middlewares.Intercepter(ch)(ctx, m, next) == nil, "interception does not interrupt")
	c := <-got
	v.Assert(v.EqBytes(c.Payload, p) && len(c.Headers) == 1, "the intercepted message is the message")
	v.Assert(v.EqBytes(m.Payload, p) && len(m.Headers) == 1, "the message is let through untouched")
	v.Cover("intercepted")

	l.Entries = nil
	am, ack := fake.Message(nil, p)
	topic, cause := v.StringOf("topic", 1, 1, "a-c%"), v.StringOf("cause", 1, 1, "d-f%")
	errorhandlers.Logging(l)(ctx, topic, &am, errors.New(cause))
	v.Assert(len(l.Entries) == 1 && l.Entries[0].Level == "error", "one error log per error")
	v.Assert(strings.Contains(l.Entries[0].Msg, topic) && strings.Contains(l.Entries[0].Msg, cause), "topic and cause are logged")
	extensions.DefaultErrorHandler()(ctx, topic, &am, errors.New(cause))
	extensions.DefaultErrorHandler()(ctx, topic, nil, nil)
	v.Assert(ack.Acks+ack.Naks == 0, "error handlers leave the verdict to the controller")
	out := v.Capture(func() { logAt(extensions.DummyLogger{}, v.Choice("lvl", 3), ctx, "x") })
	v.Assert(out == "", "the default logger is silent")
}

// HarnessErrors: every library error can be recognised as one, and by itself.
//
// verif: cover=done
func HarnessErrors() {
	es := []error{extensions.ErrContextCanceled, extensions.ErrNilBrokerController, extensions.ErrNilAppSubscriber,
		extensions.ErrNilUserSubscriber, extensions.ErrAlreadySubscribedChannel, extensions.ErrSubscriptionCanceled,
		extensions.ErrNoCorrelationIDSet, extensions.ErrChannelAddressEmpty}
	i, j := v.Choice("i", len(es)), v.Choice("j", len(es))
	v.Assert(errors.Is(es[i], extensions.ErrAsyncAPI), "library errors are AsyncAPI errors")
	v.Assert(errors.Is(fmt.Errorf("wrapped: %w", es[i]), es[j]) == (i == j), "library errors are told apart")
	v.Cover("done")
}

func main() {
	v.Main(map[string]func(){
		"HarnessECS": HarnessECS, "HarnessECSInfo": HarnessECSInfo, "HarnessECSBytes": HarnessECSBytes, "HarnessText": HarnessText,
		"HarnessContext": HarnessContext, "HarnessRecovery": HarnessRecovery, "HarnessStock": HarnessStock, "HarnessErrors": HarnessErrors,
	})
}
