// Package main checks which operations, types and constants the generated code
// offers, and to whom.
package main

import (
	"go/ast"

	"verifh/goc"
	"verifh/spec"
	"verifh/v"
)

// op is an operation, as the application sees it.
type op struct {
	name, msg string // Go names
	params    string // type of the channel parameters, if any
	receives  bool
	reply     string // type of the reply, if any
	dynamic   bool   // whether the address of the reply is in the message
	wait      bool   // v2: the user can wait for the message
}

// side is what a controller is expected to offer.
type side struct {
	name                   string
	controller, subscriber map[string]string
}

func comma(s string) string {
	if s == "" {
		return ""
	}
	return "params " + s + ", "
}

func last(s string) string {
	if s == "" {
		return ""
	}
	return ", params " + s
}

// expect3 is the API of a side for AsyncAPI v3 operations.
func expect3(app bool, ops []op) side {
	s := side{"User", map[string]string{"Close": "func(ctx context.Context)"}, map[string]string{}}
	as := "To"
	if app {
		s.name, as = "App", "As"
	}
	for _, o := range ops {
		chanAddr := ""
		if o.dynamic {
			chanAddr = "chanAddr string, "
		}
		if o.receives == app {
			s.subscriber[o.name+"Received"] = "func(ctx context.Context, msg " + o.msg + ") error"
			s.controller["SubscribeTo"+o.name] = "func(ctx context.Context, " + comma(o.params) + "fn func(ctx context.Context, msg " + o.msg + ") error) error"
			s.controller["UnsubscribeFrom"+o.name] = "func(ctx context.Context" + last(o.params) + ")"
			s.controller["SubscribeToAllChannels"] = "func(ctx context.Context, as " + s.name + "Subscriber) error"
			s.controller["UnsubscribeFromAllChannels"] = "func(ctx context.Context)"
			if o.reply != "" {
				s.controller["ReplyTo"+o.name] = "func(ctx context.Context, recvMsg " + o.msg + ", fn func(replyMsg *" + o.reply + ")) error"
				s.controller["Send"+as+"ReplyTo"+o.name] = "func(ctx context.Context, " + chanAddr + "msg " + o.reply + ") error"
			}
			continue
		}
		s.controller["Send"+as+o.name] = "func(ctx context.Context, " + comma(o.params) + "msg " + o.msg + ") error"
		if o.reply != "" {
			s.controller["Request"+as+o.name] = "func(ctx context.Context, " + comma(o.params) + "msg " + o.msg + ") (" + o.reply + ", error)"
		}
	}
	return s
}

// expect2 is the API of a side for AsyncAPI v2 operations.
func expect2(app bool, ops []op) side {
	s := side{"User", map[string]string{"Close": "func(ctx context.Context)"}, map[string]string{}}
	if app {
		s.name = "App"
	}
	for _, o := range ops {
		if o.receives != app {
			s.controller["Publish"+o.name] = "func(ctx context.Context, " + comma(o.params) + "msg " + o.msg + ") error"
			continue
		}
		s.subscriber[o.name] = "func(ctx context.Context, msg " + o.msg + ") error"
		s.controller["Subscribe"+o.name] = "func(ctx context.Context, " + comma(o.params) + "fn func(ctx context.Context, msg " + o.msg + ") error) error"
		s.controller["Unsubscribe"+o.name] = "func(ctx context.Context" + last(o.params) + ")"
		s.controller["SubscribeAll"] = "func(ctx context.Context, as " + s.name + "Subscriber) error"
		s.controller["UnsubscribeAll"] = "func(ctx context.Context)"
		if !app && o.wait {
			s.controller["WaitFor"+o.name] = "func(ctx context.Context, " + comma(o.params) + "publishMsg MessageWithCorrelationID, pub func(ctx context.Context) error) (" + o.msg + ", error)"
		}
	}
	return s
}

// matches tells whether two sets of methods are the same.
func matches(what string, got, want map[string]string) {
	for n, t := range want {
		g, ok := got[n]
		if !ok {
			v.Obs("missing", what+"."+n)
		} else if g != t {
			v.Obs("expected", what+"."+n+": "+t)
			v.Obs("found", g)
		}
		v.Assert(ok, "every operation of the specification is there")
		v.Assert(g == t, "operations have the parameters and messages of the specification")
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			v.Obs("unexpected", what+"."+n)
			v.Fail("there are no other operations than the ones of the specification")
		}
	}
}

func check(f *ast.File, s side, generated bool) {
	if !generated {
		v.Assert(len(goc.Methods(f, s.name+"Controller"))+len(goc.Methods(f, s.name+"Subscriber")) == 0, "a part which is not asked for is not generated")
		_, ok := goc.Declared(f)[s.name+"Controller"]
		v.Assert(!ok, "a part which is not asked for is not generated")
		return
	}
	matches(s.name+"Controller", goc.Methods(f, s.name+"Controller"), s.controller)
	matches(s.name+"Subscriber", goc.Methods(f, s.name+"Subscriber"), s.subscriber)
	_, ok := goc.Declared(f)["New"+s.name+"Controller"]
	v.Assert(ok, "a controller can be created")
}

func generate(doc string, o spec.Options) *ast.File {
	s, err := spec.ParseJSON(doc)
	v.Assert(err == nil, "the document is read")
	src, err := spec.Generate(s, o)
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "the code is generated")
	f, err := goc.Parse(src)
	v.Assert(err == nil, "the code is Go")
	return f
}

func declared(f *ast.File, o spec.Options, consts map[string]string, names ...string) {
	d := goc.Declared(f)
	for n, x := range consts {
		g, ok := d[n]
		if ok != !o.NoTypes || ok && g != x {
			v.Obs("constant", n+" = "+g)
		}
		v.Assert(ok == !o.NoTypes, "constants come with the types")
		v.Assert(!ok || g == x, "constants hold what the specification says")
	}
	for _, n := range names {
		_, ok := d[n]
		if ok != !o.NoTypes {
			v.Obs("type", n)
		}
		v.Assert(ok == !o.NoTypes, "types are generated when asked for")
	}
}

const (
	corr    = `"headers":{"type":"object","required":["id"],"properties":{"id":{"type":"string"}}},"correlationId":{"location":"$message.header#/id"},`
	schemas = `"schemas":{"thing":{"type":"object","properties":{"a":{"type":"string"}}}}`
)

// parts chooses which parts are generated.
func parts() spec.Options {
	switch v.Choice("parts", v.Bound(4, 8)) {
	case 1:
		return spec.Options{NoUser: true}
	case 2:
		return spec.Options{NoApp: true}
	case 3:
		return spec.Options{NoApp: true, NoUser: true}
	case 4:
		return spec.Options{NoUser: true, NoTypes: true}
	case 5:
		return spec.Options{NoApp: true, NoTypes: true}
	case 6:
		return spec.Options{NoTypes: true}
	case 7:
		return spec.Options{NoApp: true, NoUser: true, NoTypes: true}
	}
	return spec.Options{}
}

// HarnessV3: two operations of any kind.
//
// verif: steps=400000000 cover=checked
func HarnessV3() {
	send, params := v.Bool("send"), v.Bool("params")
	reply := v.Choice("reply", 5) // 1: in place, 2: by reference, 3: its address is in the message, 4: both, also by reference
	byref := v.Choice("byref", 3) // 1: operation, 2: channel
	second := v.Choice("second", 6)
	c, pt := "", ""
	addr, addr2 := "app.one", "app.two"
	if v.Bool("corr") {
		c = corr
	}
	chp := ""
	if params {
		addr += ".{p}"
		chp = `"parameters":{"p":{}},`
		pt = "ConeChannelParameters"
	}
	act := func(s bool) string {
		if s {
			return `"send"`
		}
		return `"receive"`
	}
	rep := ``
	addrr, comps := `"address":"app.r",`, ``
	switch reply {
	case 1:
		rep = `,"reply":{"channel":{"$ref":"#/channels/cr"}}`
	case 2:
		rep = `,"reply":{"$ref":"#/components/replies/rr"}`
		comps = `,"replies":{"rr":{"channel":{"$ref":"#/channels/cr"}}}`
	case 3:
		addrr = ``
		rep = `,"reply":{"address":{"location":"$message.header#/replyTo"},"channel":{"$ref":"#/channels/cr"}}`
	case 4:
		addrr = ``
		rep = `,"reply":{"$ref":"#/components/replies/rr"}`
		comps = `,"replies":{"rr":{"address":{"$ref":"#/components/replyAddresses/ra"},"channel":{"$ref":"#/channels/cr"}}},"replyAddresses":{"ra":{"location":"$message.header#/replyTo"}}`
	}
	one := `{"action":` + act(send) + `,"channel":{"$ref":"#/channels/cone"}` + rep + `}`
	chans := ``
	c1 := `{"address":"` + addr + `",` + chp + `"messages":{"mone":{"$ref":"#/components/messages/mone"}}}`
	name := "OpOneOperation"
	switch byref {
	case 1:
		comps += `,"operations":{"opOne":` + one + `}`
		one = `{"$ref":"#/components/operations/opOne"}`
	case 2:
		comps += `,"channels":{"cone":` + c1 + `}`
		c1 = `{"$ref":"#/components/channels/cone"}`
	}
	o1 := op{name: name, msg: "MoneMessage", params: pt, receives: !send}
	if reply > 0 {
		o1.reply, o1.dynamic = "MrMessage", reply > 2
	}
	ops, all := []op{o1}, `"opOne":`+one
	if second > 0 {
		o2 := op{name: "OpTwoOperation", msg: "MtwoMessage", receives: second%2 == 1}
		ch := "ctwo"
		rep2 := ``
		switch {
		case second > 4: // on the channel of the first one
			ch, o2.msg, o2.params = "cone", "MoneMessage", pt
		case second > 2 && reply < 3:
			rep2 = `,"reply":{"channel":{"$ref":"#/channels/cr"}}`
			o2.reply = "MrMessage"
		}
		chans = `,"ctwo":{"address":"` + addr2 + `","messages":{"mtwo":{"$ref":"#/components/messages/mtwo"}}}`
		ops = append(ops, o2)
		all += `,"opTwo":{"action":` + act(!o2.receives) + `,"channel":{"$ref":"#/channels/` + ch + `"}` + rep2 + `}`
	}
	doc := `{"asyncapi":"3.0.0","info":{"title":"T","version":"7.8"},"channels":{"cone":` + c1 + `,"cr":{` + addrr + `"messages":{"mr":{"$ref":"#/components/messages/mr"}}}` + chans +
		`},"operations":{` + all + `},"components":{` + schemas + `,"messages":{"mone":{` + c + `"payload":{"type":"string"}},"mtwo":{"payload":{"type":"integer"}},"mr":{` + c + `"payload":{"$ref":"#/components/schemas/thing"}}}` + comps + `}}`
	o := spec.Options{}
	if v.Thorough() || second == 1 && byref == 0 {
		o = parts()
	}
	f := generate(doc, o)
	check(f, expect3(true, ops), !o.NoApp)
	check(f, expect3(false, ops), !o.NoUser)
	names := []string{"MoneMessage", "MtwoMessage", "MrMessage", "ThingSchema", "ChannelsPaths"}
	consts := map[string]string{"AsyncAPIVersion": `"7.8"`}
	if reply < 3 {
		consts["CrChannelPath"] = `"app.r"`
	}
	if byref != 2 {
		consts["ConeChannelPath"] = `"` + addr + `"`
	}
	declared(f, o, consts, names...)
	v.Cover("checked")
}

// HarnessV2: two channels with operations of any kind.
//
// verif: steps=400000000 cover=checked
func HarnessV2() {
	c := ""
	wait := v.Bool("corr")
	if wait {
		c = corr
	}
	params := v.Bool("params")
	kind, kind2 := v.Choice("kind", 3), v.Choice("kind2", 4)
	addr, chp, pt := "app.one", "", ""
	goName := "AppOne"
	if params {
		addr += ".{p}.x"
		chp = `"parameters":{"p":{"schema":{"type":"string"}}},`
		pt, goName = "AppOneXParameters", "AppOnePX"
	}
	id, opid := v.Choice("opid", 4), func(string) string { return "" }
	if id > 0 {
		opid = func(a string) string {
			if id == 1 && a == "Sub" || id == 2 && a == "Pub" {
				return ""
			}
			return `"operationId":"op` + a + `",`
		}
	}
	pub := `"publish":{` + opid("Pub") + `"message":{"$ref":"#/components/messages/mone"}}`
	sub := `"subscribe":{` + opid("Sub") + `"message":{"$ref":"#/components/messages/mtwo"}}`
	name := goName
	if kind != 0 && opid("Sub") != "" {
		name = "OpSub"
	}
	if kind != 1 && opid("Pub") != "" {
		name = "OpPub"
	}
	var ops []op
	var one string
	if kind != 1 {
		one = pub
		ops = append(ops, op{name: name, msg: "MoneMessage", params: pt, receives: true, wait: wait})
	}
	if kind != 0 {
		if one != "" {
			one += ","
		}
		one += sub
		ops = append(ops, op{name: name, msg: "MtwoMessage", params: pt, wait: wait})
	}
	chans := `"` + addr + `":{` + chp + one + `}`
	if kind2 > 0 {
		chans += `,"b":{`
		if kind2&1 != 0 {
			chans += `"publish":{"message":{"$ref":"#/components/messages/mr"}}`
			ops = append(ops, op{name: "B", msg: "MrMessage", receives: true})
		}
		if kind2 == 3 {
			chans += `,`
		}
		if kind2&2 != 0 {
			chans += `"subscribe":{"message":{"$ref":"#/components/messages/mr"}}`
			ops = append(ops, op{name: "B", msg: "MrMessage"})
		}
		chans += `}`
	}
	doc := `{"asyncapi":"2.6.0","info":{"title":"T","version":"7.8"},"channels":{` + chans + `},"components":{` + schemas +
		`,"messages":{"mone":{` + c + `"payload":{"type":"string"}},"mtwo":{` + c + `"payload":{"type":"integer"}},"mr":{"payload":{"$ref":"#/components/schemas/thing"}}}}}`
	o := spec.Options{}
	if v.Thorough() || kind == 2 && id == 0 {
		o = parts()
	}
	f := generate(doc, o)
	check(f, expect2(true, ops), !o.NoApp)
	check(f, expect2(false, ops), !o.NoUser)
	declared(f, o, map[string]string{"AsyncAPIVersion": `"7.8"`, goName + "Path": `"` + addr + `"`}, "MoneMessage", "MtwoMessage", "MrMessage", "ThingSchema", "ChannelsPaths")
	v.Cover("checked")
}

func main() {
	v.Main(map[string]func(){"HarnessV3": HarnessV3, "HarnessV2": HarnessV2})
}
