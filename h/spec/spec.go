// Package spec builds specifications, as JSON documents, and generates their
// code with the real parser and generator.
package spec

import (
	"os"

	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi/parser"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen/options"

	"verifh/v"
)

// Options are the generation options.
type Options struct {
	ForcePointers, IgnoreStringFormat bool
	Convert, Naming                   string
	NoApp, NoUser, NoTypes            bool
}

// AnyOption chooses at most one deviation from the default options.
func AnyOption() Options {
	switch v.Choice("option", 5) {
	case 1:
		return Options{ForcePointers: true}
	case 2:
		return Options{IgnoreStringFormat: true}
	case 3:
		return Options{Naming: "camel"}
	case 4:
		return Options{Convert: "snake"}
	}
	return Options{}
}

// Quote makes a JSON string of printable ASCII text, newlines and tabs.
func Quote(s string) string {
	out := make([]byte, 0, len(s)+2)
	out = append(out, '"')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"', '\\':
			out = append(out, '\\', s[i])
		case '\n':
			out = append(out, '\\', 'n')
		case '\t':
			out = append(out, '\\', 't')
		default:
			out = append(out, s[i])
		}
	}
	return string(append(out, '"'))
}

// Doc describes a specification with a channel, an operation and a message.
type Doc struct {
	Major                         int
	Payload, Headers              string // schemas
	Description, Address, Version string
	CorrelationID, ByRef          bool
	Location                      string // of the correlation ID
	Send, Parameters              bool
	Second                        int // 1: another operation elsewhere, 2: another one on the same channel
	Reply                         int
}

// Replies is the number of kinds of reply.
const Replies = 5

const schemas = `{
"text":{"type":"string"},
"day":{"type":"string","format":"date"},
"moment":{"type":"string","format":"date-time"},
"count":{"type":"integer","format":"int32"},
"flag":{"type":"boolean"},
"list":{"type":"array","items":{"type":"string"}},
"things":{"type":"array","items":{"$ref":"#/components/schemas/thing"}},
"thing":{"type":"object","required":["name"],"properties":{"name":{"type":"string"},"when":{"$ref":"#/components/schemas/moment"},"sub":{"type":"object","properties":{"x":{"type":"integer"}}}}},
"open":{"type":"object","properties":{"name":{"type":"string"}},"additionalProperties":{"type":"string"}},
"alias":{"$ref":"#/components/schemas/thing"},
"lists":{"type":"object","properties":{"l":{"type":"array","items":{"type":"object","properties":{"a":{"type":"integer"}}}},"r":{"type":"array","items":{"$ref":"#/components/schemas/thing"}}}},
"node":{"type":"object","properties":{"value":{"type":"string"},"next":{"$ref":"#/components/schemas/node"},"children":{"type":"array","items":{"$ref":"#/components/schemas/node"}}}},
"open2":{"type":"object","additionalProperties":{"$ref":"#/components/schemas/thing"}},
"both":{"allOf":[{"$ref":"#/components/schemas/thing"},{"type":"object","properties":{"y":{"type":"number"}}}]},
"heads":{"type":"object","required":["id"],"properties":{"id":{"type":"string"},"n":{"type":"integer"}}}
}`

func ref(n string) string { return `{"$ref":"#/components/schemas/` + n + `"}` }

// Payloads are the kinds of payloads.
var Payloads = []string{
	`{"type":"string"}`, `{"type":"string","format":"date"}`, `{"type":"string","format":"date-time"}`, `{"type":"string","format":"uuid"}`,
	`{"type":"integer"}`, `{"type":"integer","format":"int32"}`, `{"type":"number"}`, `{"type":"number","format":"float"}`, `{"type":"boolean"}`,
	`{"type":"array","items":{"type":"string"}}`, `{"type":"array","items":{"type":"object","properties":{"a":{"type":"integer"}}}}`,
	`{"type":"array","items":{"type":"array","items":{"type":"number"}}}`,
	`{"type":"object"}`, `{"type":"object","properties":{"a":{"type":"string"},"b":{"type":"object","properties":{"c":{"type":"array","items":{"type":"object","properties":{"d":{"type":"boolean"}}}}}}}}`,
	`{"type":"object","additionalProperties":{"type":"integer"}}`, `{"type":"object","properties":{"a":{"type":"string"}},"additionalProperties":{"type":"string"}}`,
	`{"type":"object","properties":{"a":{"type":"string"}},"additionalProperties":{"type":"object","properties":{"z":{"type":"string"}}}}`,
	`{"type":"object","properties":{"d":{"type":"string","format":"date"},"t":{"type":"string","format":"date-time"},"n":{"type":"integer","minimum":1,"maximum":5},"e":{"type":"string","enum":["u","v w"]},"k":{"type":"string","const":"z"}}}`,
	`{"allOf":[{"type":"object","properties":{"a":{"type":"string"}}},{"type":"object","required":["b"],"properties":{"b":{"type":"string"}}}]}`,
	`{"anyOf":[` + ref("thing") + `,{"type":"object","properties":{"b":{"type":"string"}}}]}`,
	`{"oneOf":[{"type":"object","properties":{"a":{"type":"string"}}},` + ref("both") + `]}`,
	`{"type":"object","properties":{"p":` + ref("thing") + `,"q":` + ref("day") + `,"r":` + ref("list") + `,"s":` + ref("alias") + `,"t":` + ref("moment") + `}}`,
	`{"type":"object","properties":{"u":{"type":"string","x-go-type":"uuid.UUID","x-go-type-import":{"name":"uuid","path":"github.com/google/uuid"}},"o":{"type":"string","x-omitempty":false}}}`,
	// arrays of objects in unusual places
	`{"type":"array","items":{"type":"array","items":{"type":"object","properties":{"a":{"type":"integer"}}}}}`,
	`{"type":"object","properties":{"m":{"type":"array","items":{"type":"array","items":{"type":"object","properties":{"a":{"type":"integer"}}}}}}}`,
	`{"type":"object","additionalProperties":{"type":"array","items":{"type":"object","properties":{"a":{"type":"integer"}}}}}`,
	`{"allOf":[` + ref("lists") + `,{"type":"object","properties":{"z":{"type":"string"}}}]}`,
	// merges in merges
	`{"allOf":[` + ref("both") + `,{"allOf":[{"type":"object","properties":{"z":{"type":"string"}}},` + ref("open") + `]}]}`,
	`{"type":"object","properties":{"m":{"oneOf":[` + ref("thing") + `,` + ref("lists") + `]},"n":{"anyOf":[{"type":"object","properties":{"a":{"type":"string"}}}]}}}`,
	ref("lists"), ref("node"), ref("node/properties/next"), ref("open2"),
	`{"type":"array","items":` + ref("both") + `}`, `{"type":"array","items":{"allOf":[` + ref("thing") + `]}}`,
	ref("thing/properties/name"), ref("lists/properties/l"), ref("lists/properties/r/items"),
	`{"type":"object","properties":{"p":` + ref("thing/properties/name") + `,"q":` + ref("thing/properties/when") + `,"r":` + ref("lists/properties/l/items") + `,"s":` + ref("lists/properties/r") + `,"t":{"type":"array","items":` + ref("thing/properties/name") + `}},"additionalProperties":` + ref("thing/properties/sub/properties/x") + `}`,
	ref("text"), ref("day"), ref("moment"), ref("count"), ref("flag"), ref("list"), ref("things"), ref("thing"), ref("open"), ref("alias"), ref("both"),
}

func obj(props string) string { return `{"type":"object","properties":{` + props + `}}` }

// Headers are the kinds of headers. The empty one is for no header.
var Headers = []string{
	``,
	`{"type":"object","required":["id"],"properties":{"id":{"type":"string"}}}`,
	obj(`"id":{"type":"string"}`),
	obj(`"other":{"type":"string"}`),
	`{"type":"object","required":["d","t","n","f","b"],"properties":{"d":{"type":"string","format":"date"},"t":{"type":"string","format":"date-time"},"n":{"type":"integer"},"f":{"type":"number"},"b":{"type":"boolean"}}}`,
	obj(`"d":{"type":"string","format":"date"},"t":{"type":"string","format":"date-time"},"n":{"type":"integer"},"f":{"type":"number"},"b":{"type":"boolean"}`),
	obj(`"r":` + ref("text") + `,"s":` + ref("day") + `,"u":` + ref("count") + `,"w":` + ref("moment")),
	`{"type":"object","required":["r","s"],"properties":{"r":` + ref("text") + `,"s":` + ref("day") + `}}`,
	ref("heads"),
	obj(`"r":` + ref("heads/properties/id") + `,"s":` + ref("heads/properties/n") + `,"u":` + ref("thing/properties/when")),
}

func (d Doc) payload() string {
	if d.Payload == "" {
		return `{"type":"string"}`
	}
	return d.Payload
}

func (d Doc) message() string {
	m := `{"payload":` + d.payload()
	if d.Headers != "" {
		m += `,"headers":` + d.Headers
	}
	if d.CorrelationID {
		m += `,"correlationId":{"location":` + Quote(d.location()) + `}`
	}
	if d.Description != "" {
		m += `,"description":` + Quote(d.Description)
	}
	return m + `}`
}

func (d Doc) location() string {
	if d.Location == "" {
		return "$message.header#/id"
	}
	return d.Location
}

func (d Doc) address() string {
	a := d.Address
	if a == "" {
		a = "app.c"
	}
	if d.Parameters {
		a += ".{p}.end"
	}
	return a
}

func (d Doc) version() string {
	if d.Version == "" {
		return "1.2.3"
	}
	return d.Version
}

// JSON is the document.
func (d Doc) JSON() string {
	if d.Major == 2 {
		return d.json2()
	}
	return d.json3()
}

func (d Doc) json2() string {
	msg, components := d.message(), ``
	if d.ByRef {
		components = `,"messages":{"cm":` + msg + `}`
		msg = `{"$ref":"#/components/messages/cm"}`
	}
	act := "publish"
	if d.Send {
		act = "subscribe"
	}
	ch := `{`
	if d.Description != "" {
		ch += `"description":` + Quote(d.Description) + `,`
	}
	if d.Parameters {
		ch += `"parameters":{"p":{"description":` + Quote("text"+d.Description) + `,"schema":{"type":"string"}}},`
	}
	op := func(id, m string) string { return `{"operationId":"` + id + `","message":` + m + `}` }
	ch += `"` + act + `":` + op("opOne", msg)
	if d.Second == 2 {
		other := "publish"
		if !d.Send {
			other = "subscribe"
		}
		ch += `,"` + other + `":` + op("opTwo", `{"name":"second","payload":{"type":"integer"}}`)
	}
	ch += `}`
	if d.Second == 1 {
		ch += `,"app.second":{"` + act + `":{"message":{"payload":{"type":"boolean"}}}}`
	}
	return `{"asyncapi":"2.6.0","info":{"title":"T","version":` + Quote(d.version()) + `},"channels":{` + Quote(d.address()) + `:` + ch +
		`},"components":{"schemas":` + schemas + components + `}}`
}

func (d Doc) json3() string {
	msg, components := d.message(), ``
	if d.ByRef {
		components = `,"messages":{"cm":` + msg + `}`
		msg = `{"$ref":"#/components/messages/cm"}`
	}
	act := "receive"
	if d.Send {
		act = "send"
	}
	ch := `"c":{"address":` + Quote(d.address())
	if d.Description != "" {
		ch += `,"description":` + Quote(d.Description)
	}
	if d.Parameters {
		ch += `,"parameters":{"p":{"description":` + Quote("text"+d.Description) + `}}`
	}
	ch += `,"messages":{"m":` + msg + `}}`
	reply := ``
	rmsg := `{"payload":{"type":"integer"}`
	if d.CorrelationID {
		rmsg += `,"headers":` + Headers[1] + `,"correlationId":{"location":"$message.header#/id"}`
	}
	rmsg += `}`
	switch d.Reply {
	case 1: // fixed address
		ch += `,"r":{"address":"app.r","messages":{"rm":` + rmsg + `}}`
		reply = `,"reply":{"channel":{"$ref":"#/channels/r"}}`
	case 2, 3: // address from the request
		h := `{"type":"object","properties":{"replyTo":{"type":"string"}}}`
		if d.Reply == 3 {
			h = `{"type":"object","required":["replyTo"],"properties":{"replyTo":{"type":"string"}}}`
		}
		e := d
		e.Headers = h
		ch = `"c":{"address":` + Quote(d.address()) + `,"messages":{"m":` + e.message() + `}},"r":{"address":null,"messages":{"rm":` + rmsg + `}}`
		if d.Parameters {
			ch = `"c":{"address":` + Quote(d.address()) + `,"parameters":{"p":{}},"messages":{"m":` + e.message() + `}},"r":{"address":null,"messages":{"rm":` + rmsg + `}}`
		}
		reply = `,"reply":{"channel":{"$ref":"#/channels/r"},"address":{"location":"$message.header#/replyTo"}}`
	case 4: // two operations replying on the same channel
		ch += `,"r":{"address":"app.r","messages":{"rm":` + rmsg + `}}`
		reply = `,"reply":{"channel":{"$ref":"#/channels/r"}}`
	}
	op := func(name, a, c, r string) string {
		return `"` + name + `":{"action":"` + a + `","channel":{"$ref":"#/channels/` + c + `"}` + r + `}`
	}
	ops := op("opOne", act, "c", reply)
	switch d.Second {
	case 1:
		ch += `,"s":{"address":"app.s","messages":{"sm":{"payload":{"type":"boolean"}}}}`
		r := ``
		if d.Reply == 4 && !d.CorrelationID {
			r = reply
		}
		ops += `,` + op("opTwo", act, "s", r)
	case 2:
		other := "send"
		if d.Send {
			other = "receive"
		}
		ops += `,` + op("opTwo", other, "c", ``)
	}
	return `{"asyncapi":"3.0.0","info":{"title":"T","version":` + Quote(d.version()) + `},"channels":{` + ch + `},"operations":{` + ops +
		`},"components":{"schemas":` + schemas + components + `}}`
}

// ParseJSON parses a document.
func ParseJSON(doc string) (asyncapi.Specification, error) {
	return parser.FromJSON(parser.FromJSONParams{Data: []byte(doc)})
}

// Parse parses the document.
func (d Doc) Parse() (asyncapi.Specification, error) { return ParseJSON(d.JSON()) }

// Generate generates the code of the document.
func (d Doc) Generate(o Options) (string, error) {
	s, err := d.Parse()
	if err != nil {
		return "", err
	}
	return Generate(s, o)
}

// Generate generates the code of a specification, with the code generator of
// the command, formatting aside.
func Generate(s asyncapi.Specification, o Options) (string, error) {
	cg, err := codegen.New(s)
	if err != nil {
		return "", err
	}
	return generate(cg, o)
}

func generate(cg codegen.CodeGen, o Options) (string, error) {
	if o.Convert == "" {
		o.Convert = "none"
	}
	if o.Naming == "" {
		o.Naming = "none"
	}
	out := v.Dir() + "/gen.go"
	err := cg.Generate(options.Options{
		OutputPath: out, PackageName: "gen", DisableFormatting: true,
		Generate:    options.GeneratorOptions{Application: !o.NoApp, User: !o.NoUser, Types: !o.NoTypes},
		ConvertKeys: o.Convert, NamingScheme: o.Naming, IgnoreStringFormat: o.IgnoreStringFormat, ForcePointers: o.ForcePointers,
	})
	if err != nil {
		return "", err
	}
	b, err := os.ReadFile(out)
	return string(b), err
}
