// Package main checks how references of a document are resolved.
package main

import (
	"path"
	"strings"

	asyncapiv2 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
	asyncapiv3 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"

	"verifh/spec"
	"verifh/v"
)

// resolver resolves a reference to a kind of object.
type resolver func(ref string) (any, error)

// boxed makes a resolver of a typed one.
func boxed[T any](f func(string) (*T, error)) resolver {
	return func(ref string) (any, error) {
		x, err := f(ref)
		if err != nil {
			return nil, err
		}
		return x, nil
	}
}

// find looks a component up.
func find[T any](m map[string]*T, name string) any {
	if x, ok := m[name]; ok {
		return x
	}
	return nil
}

var kinds3 = []string{"schemas", "channels", "operations", "messages", "parameters", "correlationIds", "replies",
	"replyAddresses", "operationTraits", "messageTraits", "servers", "serverVariables", "securitySchemes",
	"externalDocs", "tags", "serverBindings", "channelBindings", "operationBindings", "messageBindings"}

func resolve3(s asyncapiv3.Specification, kind int) resolver {
	return []resolver{boxed(s.ReferenceSchema), boxed(s.ReferenceChannel), boxed(s.ReferenceOperation), boxed(s.ReferenceMessage),
		boxed(s.ReferenceParameter), boxed(s.ReferenceCorrelationID), boxed(s.ReferenceOperationReply),
		boxed(s.ReferenceOperationReplyAddress), boxed(s.ReferenceOperationTrait), boxed(s.ReferenceMessageTrait),
		boxed(s.ReferenceServer), boxed(s.ReferenceServerVariable), boxed(s.ReferenceSecurity),
		boxed(s.ReferenceExternalDocumentation), boxed(s.ReferenceTag), boxed(s.ReferenceServerBindings),
		boxed(s.ReferenceChannelBindings), boxed(s.ReferenceOperationBindings), boxed(s.ReferenceMessageBindings)}[kind]
}

func component3(s asyncapiv3.Specification, kind int, name string) any {
	c := s.Components
	switch kinds3[kind] {
	case "schemas":
		return find(c.Schemas, name)
	case "channels":
		return find(c.Channels, name)
	case "operations":
		return find(c.Operations, name)
	case "messages":
		return find(c.Messages, name)
	case "parameters":
		return find(c.Parameters, name)
	case "correlationIds":
		return find(c.CorrelationIDs, name)
	case "replies":
		return find(c.Replies, name)
	case "replyAddresses":
		return find(c.ReplyAddresses, name)
	case "operationTraits":
		return find(c.OperationTraits, name)
	case "messageTraits":
		return find(c.MessageTraits, name)
	case "servers":
		return find(c.Servers, name)
	case "serverVariables":
		return find(c.ServerVariables, name)
	case "securitySchemes":
		return find(c.SecuritySchemes, name)
	case "externalDocs":
		return find(c.ExternalDocs, name)
	case "tags":
		return find(c.Tags, name)
	case "serverBindings":
		return find(c.ServerBindings, name)
	case "channelBindings":
		return find(c.ChannelBindings, name)
	case "operationBindings":
		return find(c.OperationBindings, name)
	}
	return find(c.MessageBindings, name)
}

var kinds2 = []string{"schemas", "messages", "parameters"}

func resolve2(s asyncapiv2.Specification, kind int) resolver {
	return []resolver{boxed(s.ReferenceSchema), boxed(s.ReferenceMessage), boxed(s.ReferenceParameter)}[kind]
}

func component2(s asyncapiv2.Specification, kind int, name string) any {
	switch kind {
	case 0:
		return find(s.Components.Schemas, name)
	case 1:
		return find(s.Components.Messages, name)
	}
	return find(s.Components.Parameters, name)
}

const head3, head2 = `"asyncapi":"3.0.0","info":{"title":"T","version":"1"}`, `"asyncapi":"2.6.0","info":{"title":"T","version":"1"}`

func doc3(comps string) string { return `{` + head3 + `,"components":{` + comps + `}}` }
func doc2(comps string) string {
	return `{` + head2 + `,"channels":{},"components":{` + comps + `}}`
}

func parse3(doc string) *asyncapiv3.Specification {
	s, err := spec.ParseJSON(doc)
	v.Assert(err == nil, "the document is read")
	return s.(*asyncapiv3.Specification)
}

func parse2(doc string) *asyncapiv2.Specification {
	s, err := spec.ParseJSON(doc)
	v.Assert(err == nil, "the document is read")
	return s.(*asyncapiv2.Specification)
}

// pointed is the name a JSON pointer token stands for (RFC 6901).
func pointed(token string) string {
	out := ""
	for i := 0; i < len(token); i++ {
		if token[i] == '~' && i+1 < len(token) {
			switch token[i+1] {
			case '0':
				out += "~"
				i++
				continue
			case '1':
				out += "/"
				i++
				continue
			}
		}
		out += string(token[i : i+1])
	}
	return out
}

const names = `"a":{},"b":{},"a/b":{},"a~b":{},"~1":{},"~0":{},"1":{},"/":{}`

// target checks the outcome of a reference.
func target(got any, err error, want any) {
	if want == nil {
		v.Assert(err != nil, "a reference to nothing is refused")
		v.Cover("refused")
		return
	}
	v.Assert(err == nil, "a reference to an object is accepted")
	v.Assert(got == want, "a reference leads to the object it names")
	v.Cover("found")
}

// HarnessName: a reference to a component leads to the one it names, which may
// hold the characters JSON pointers escape.
//
// verif: steps=400000000 cover=found,refused
func HarnessName() {
	token := v.StringOf("token", 0, v.Bound(4, 5), "ab/~01")
	kind := v.Choice("kind", v.Bound(2, 3))
	name := pointed(token)
	if strings.Contains(token, "/") {
		name = "none" // parts of empty objects
	}
	if v.Bool("v2") {
		s := *parse2(doc2(`"` + kinds2[kind] + `":{` + names + `}`))
		got, err := resolve2(s, kind)("#/components/" + kinds2[kind] + "/" + token)
		target(got, err, component2(s, kind, name))
		return
	}
	k := []int{0, 2, 4}[kind]
	s := *parse3(doc3(`"` + kinds3[k] + `":{` + names + `}`))
	got, err := resolve3(s, k)("#/components/" + kinds3[k] + "/" + token)
	target(got, err, component3(s, k, name))
}

// HarnessKind: a reference leads to an object of the expected kind only, of this
// document or of the dependency it names.
//
// verif: steps=400000000 cover=found,refused
func HarnessKind() {
	three := v.Bool("v3")
	kinds := kinds2
	if three {
		kinds = kinds3
	}
	placed, wanted := v.Choice("placed", len(kinds)), v.Choice("wanted", len(kinds))
	file := []string{"", "dep.json", "./dep.json", "other.json", "sub/dep.json"}[v.Choice("file", 5)]
	as := []string{"dep.json", "./dep.json"}[v.Choice("as", 2)]
	comps := ``
	for i, k := range kinds {
		if i > 0 {
			comps += `,`
		}
		comps += `"` + k + `":{"only` + k + `":{},"both":{}}`
	}
	name := "only" + kinds[placed]
	if v.Bool("both") {
		name = "both"
	}
	ref := file + "#/components/" + kinds[placed] + "/" + name
	var got, want any
	var err error
	if three {
		s, d := parse3(doc3(comps)), parse3(doc3(comps))
		v.Assert(s.AddDependency(as, d) == nil, "the dependency is accepted")
		in := s
		if file != "" {
			in = d
		}
		got, err = resolve3(*s, wanted)(ref)
		want = component3(*in, wanted, name)
		v.Assert(s.AddDependency("x", parse2(doc2(``))) != nil, "a dependency of another version is refused")
	} else {
		s, d := parse2(doc2(comps)), parse2(doc2(comps))
		v.Assert(s.AddDependency(as, d) == nil, "the dependency is accepted")
		in := s
		if file != "" {
			in = d
		}
		got, err = resolve2(*s, wanted)(ref)
		want = component2(*in, wanted, name)
		v.Assert(s.AddDependency("x", parse3(doc3(``))) != nil, "a dependency of another version is refused")
	}
	if placed != wanted || file != "" && !strings.HasSuffix(file, "dep.json") || strings.HasPrefix(file, "sub") {
		want = nil
	}
	target(got, err, want)
}

// cleaned is a path without what does not change the file it leads to.
func cleaned(file string) string {
	if file == "" {
		return ""
	}
	return path.Clean(file)
}

// HarnessFile: a reference to another document leads to the dependency given
// with the same path, and to no other one.
//
// verif: steps=400000000 cover=found,refused
func HarnessFile() {
	paths := []string{"a", "./a", "../a", "../../a", "a/a", "/a", ".a", "a.a", "./../a", "./.a"}
	i, j := v.Choice("first", len(paths)), v.Choice("second", len(paths))
	v.Assume(i < j)
	first, second := paths[i], paths[j]
	v.Assume(path.Clean(first) != path.Clean(second))
	file := v.StringOf("file", 0, v.Bound(4, 6), "./a")
	var got any
	var err error
	var want [3]any
	if v.Bool("v3") {
		var s [3]*asyncapiv3.Specification
		for i := range s {
			x := asyncapiv3.NewSchema()
			s[i], want[i] = asyncapiv3.NewSpecification(), &x
			s[i].Components.Schemas = map[string]*asyncapiv3.Schema{"s": &x}
		}
		v.Assert(s[0].AddDependency(first, s[1]) == nil && s[0].AddDependency(second, s[2]) == nil, "the dependencies are accepted")
		got, err = boxed(s[0].ReferenceSchema)(file + "#/components/schemas/s")
	} else {
		var s [3]*asyncapiv2.Specification
		for i := range s {
			x := asyncapiv2.NewSchema()
			s[i], want[i] = asyncapiv2.NewSpecification(), &x
			s[i].Components.Schemas = map[string]*asyncapiv2.Schema{"s": &x}
		}
		v.Assert(s[0].AddDependency(first, s[1]) == nil && s[0].AddDependency(second, s[2]) == nil, "the dependencies are accepted")
		got, err = boxed(s[0].ReferenceSchema)(file + "#/components/schemas/s")
	}
	same := func(as string) bool { return strings.TrimPrefix(file, "./") == strings.TrimPrefix(as, "./") }
	switch {
	case file == "":
		target(got, err, want[0])
	case file != "./" && same(first):
		target(got, err, want[1])
	case file != "./" && same(second):
		target(got, err, want[2])
	case cleaned(file) == path.Clean(first):
		v.Assert(err != nil || got == want[1], "another path of a dependency leads to no other one")
	case cleaned(file) == path.Clean(second):
		v.Assert(err != nil || got == want[2], "another path of a dependency leads to no other one")
	default:
		target(got, err, nil)
	}
}

// chain is a set of three objects, each of which may refer to another one.
type chain [3]int

// end is the object reached from one of them, or -1 when there is none.
func (c chain) end(i int) int {
	for n := 0; n < 4; n++ {
		if c[i] == 0 {
			return i
		}
		i = c[i] - 1
	}
	return -1
}

func (c chain) circular() bool {
	return c.end(0) < 0 || c.end(1) < 0 || c.end(2) < 0
}

func (c chain) json(kind, object, in string) string {
	out := `"` + kind + `":{`
	for i, to := range c {
		if i > 0 {
			out += `,`
		}
		o := object
		if to > 0 {
			o = `{"$ref":"` + in + `#/components/` + kind + `/` + string("xyz"[to-1:to]) + `"}`
		}
		out += `"` + string("xyz"[i:i+1]) + `":` + o
	}
	return out + `}`
}

func anyChain() chain {
	return chain{v.Choice("x", 4), v.Choice("y", 4), v.Choice("z", 4)}
}

// follow3 is the object an object stands for.
func follow3(o any) any {
	switch x := o.(type) {
	case *asyncapiv3.Schema:
		return x.Follow()
	case *asyncapiv3.Channel:
		return x.Follow()
	case *asyncapiv3.Operation:
		return x.Follow()
	case *asyncapiv3.Message:
		return x.Follow()
	case *asyncapiv3.CorrelationID:
		return x.Follow()
	case *asyncapiv3.OperationReply:
		return x.Follow()
	case *asyncapiv3.OperationReplyAddress:
		return x.Follow()
	case *asyncapiv3.OperationTrait:
		return x.Follow()
	case *asyncapiv3.MessageTrait:
		return x.Follow()
	}
	return nil
}

var objects3 = map[string]string{
	"schemas":        `{"type":"string"}`,
	"channels":       `{"address":"a"}`,
	"operations":     `{"action":"send","channel":{"$ref":"#/channels/c"}}`,
	"messages":       `{"payload":{"type":"string"}}`,
	"replies":        `{"channel":{"$ref":"#/channels/c"}}`,
	"replyAddresses": `{"location":"$message.header#/a"}`,
	"correlationIds": `{"location":"$message.header#/a"}`,
}

// HarnessChain: references of references lead to the object at the end, and
// circular ones are refused.
//
// verif: steps=400000000 cover=followed,circular
func HarnessChain() {
	c := anyChain()
	if v.Bool("v2") {
		kind := v.Choice("kind", 2)
		s := parse2(doc2(c.json(kinds2[kind], []string{`{"type":"string"}`, `{"payload":{"type":"string"}}`}[kind], "")))
		err := s.Process()
		if c.circular() {
			v.Assert(err != nil, "circular references are refused")
			v.Cover("circular")
			return
		}
		v.Assert(err == nil, "references are accepted")
		for i := 0; i < 3; i++ {
			from, to := component2(*s, kind, "xyz"[i:i+1]), component2(*s, kind, "xyz"[c.end(i):c.end(i)+1])
			switch x := from.(type) {
			case *asyncapiv2.Schema:
				from = x.Follow()
			case *asyncapiv2.Message:
				from = x.Follow()
			}
			v.Assert(from == to, "a chain of references leads to its end")
		}
		v.Cover("followed")
		return
	}
	kind := []int{0, 1, 2, 3, 5, 6, 7, 8, 9}[v.Choice("kind", 9)]
	object := objects3[kinds3[kind]]
	if object == "" {
		object = `{}`
	}
	s := parse3(`{` + head3 + `,"channels":{"c":{"address":"a","messages":{"m":{"payload":{"type":"string"}}}}},"components":{` + c.json(kinds3[kind], object, "") + `}}`)
	err := s.Process()
	if c.circular() {
		v.Assert(err != nil, "circular references are refused")
		v.Cover("circular")
		return
	}
	if err != nil {
		v.Obs("error", err.Error())
	}
	v.Assert(err == nil, "references are accepted")
	for i := 0; i < 3; i++ {
		v.Assert(follow3(component3(*s, kind, "xyz"[i:i+1])) == component3(*s, kind, "xyz"[c.end(i):c.end(i)+1]), "a chain of references leads to its end")
	}
	v.Cover("followed")
}

// values are what may be found in place of an object.
var values = []string{`null`, `false`, `{}`, `[]`, `1`, `"text"`, `{"$ref":null}`, `{"$ref":""}`, `{"$ref":"x"}`, `{"$ref":"#"}`, `{"$ref":"#/"}`, `{"$ref":"##"}`,
	`{"$ref":"#/components"}`, `{"$ref":"#/components/schemas"}`, `{"$ref":"#/components/schemas/none"}`, `{"$ref":"#/components/schemas/s"}`,
	`{"$ref":"#/components/schemas/s/properties/p"}`, `{"$ref":"#/components/schemas/s/properties"}`, `{"$ref":"#/components/schemas/s/items"}`,
	`{"$ref":"#/components/messages/m"}`, `{"$ref":"#/components/messages/m/payload"}`, `{"$ref":"#/components/messages/m/headers/properties/h"}`,
	`{"$ref":"#/components/messages/none/payload"}`, `{"$ref":"#/channels/c"}`, `{"$ref":"#/channels/none/messages/m"}`,
	`{"$ref":"#/channels/c/messages/none"}`, `{"$ref":"#/channels/c/messages/m"}`, `{"$ref":"#/operations/o"}`, `{"$ref":"none.json#/components/schemas/s"}`, `{"$ref":"#/components/none/x"}`,
	`{"$ref":"#/components/parameters/p"}`, `{"$ref":"#/info"}`, `{"$ref":"/components/schemas/s"}`, `{"$ref":"#/components/schemas/self"}`}

// fill builds a document with a value at one of its places.
func fill(three bool, place, value string) string {
	at := func(p, usual string) string {
		if p == place {
			return value
		}
		return usual
	}
	s := at("SCHEMA", `{"type":"object","required":["p"],"properties":{"p":`+at("PROPERTY", `{"type":"string"}`)+`,"l":{"type":"array","items":`+at("ITEMS", `{"type":"integer"}`)+`}},"additionalProperties":`+at("ADDITIONAL", `{"type":"boolean"}`)+`}`)
	schemas := `"schemas":{"s":` + s + `,"self":` + at("SELF", `{"type":"object","properties":{"again":{"$ref":"#/components/schemas/self"}}}`) + `,"merged":{"allOf":[{"$ref":"#/components/schemas/s"},` + at("ALLOF", `{"type":"object","properties":{"z":{"type":"string"}}}`) + `]}}`
	m := `{"tags":[` + at("TAG", `{"name":"t"}`) + `],"externalDocs":` + at("DOCS", `{"url":"u"}`) + `,"bindings":` + at("BINDINGS", `{}`) + `,"examples":[` + at("EXAMPLE", `{}`) + `],"traits":[` + at("MSGTRAIT", `{"headers":{"type":"object","properties":{"t":{"type":"string"}}}}`) +
		`],"headers":` + at("HEADERS", `{"type":"object","properties":{"h":{"type":"string"}}}`) + `,"correlationId":` + at("CORRELATION", `{"location":`+at("LOCATION", `"$message.header#/h"`)+`}`) + `,"payload":` + at("PAYLOAD", `{"$ref":"#/components/schemas/merged"}`) + `}`
	m = at("CMESSAGE", m)
	params := `"parameters":{"p":` + at("PARAMETER", `{"$ref":"#/components/parameters/p"}`) + `}`
	if three {
		channels := at("CHANNELS", `{"c":`+at("CHANNEL", `{"address":`+at("ADDRESS", `"a.{p}"`)+`,`+params+`,"messages":{"m":`+at("MESSAGE", `{"$ref":"#/components/messages/m"}`)+`}}`)+`,"r":{"address":null,"messages":{"r":{"payload":{"type":"string"}}}}}`)
		op := at("OPERATION", `{"action":"receive","channel":`+at("OPCHANNEL", `{"$ref":"#/channels/c"}`)+`,"messages":[`+at("OPMESSAGE", `{"$ref":"#/channels/c/messages/m"}`)+`],"traits":[`+at("OPTRAIT", `{"title":"t"}`)+
			`],"security":[`+at("SECURITY", `{"type":"userPassword"}`)+`],"reply":`+at("REPLY", `{"address":`+at("RADDRESS", `{"location":"$message.header#/h"}`)+`,"channel":`+at("RCHANNEL", `{"$ref":"#/channels/r"}`)+`}`)+`}`)
		return `{"asyncapi":"3.0.0","info":` + at("INFO", `{"title":"T","version":"1"}`) + `,"servers":{"x":` + at("SERVER", `{"host":"h","protocol":"nats"}`) + `},"channels":` + channels + `,"operations":{"o":` + op +
			`},"components":` + at("COMPONENTS", `{`+schemas+`,"messages":{"m":`+m+`},"parameters":{"p":`+at("CPARAMETER", `{}`)+`}}`) + `}`
	}
	channels := at("CHANNELS", `{"a.{p}":`+at("CHANNEL", `{`+params+`,"subscribe":`+at("OPERATION", `{"message":`+at("MESSAGE", `{"$ref":"#/components/messages/m"}`)+`}`)+`,"publish":{"message":{"$ref":"#/components/messages/m"}}}`)+`}`)
	return `{"asyncapi":"2.6.0","info":` + at("INFO", `{"title":"T","version":"1"}`) + `,"channels":` + channels + `,"components":` + at("COMPONENTS", `{`+schemas+`,"messages":{"m":`+m+`},"parameters":{"p":`+at("CPARAMETER", `{"schema":`+at("PSCHEMA", `{"type":"string"}`)+`}`)+`}}`) + `}`
}

// HarnessAnything: whatever stands in place of an object of the document, the
// document is refused or code is generated.
//
// verif: steps=400000000 cover=refused,generated
func HarnessAnything() {
	three := v.Bool("v3")
	places := []string{"CHANNEL", "MESSAGE", "PAYLOAD", "HEADERS", "PROPERTY", "ITEMS", "ALLOF", "ADDITIONAL", "CORRELATION", "LOCATION", "PARAMETER", "OPERATION", "MSGTRAIT", "SCHEMA", "SELF", "TAG", "CMESSAGE", "EXAMPLE", "DOCS", "BINDINGS", "INFO", "COMPONENTS", "CHANNELS", "CPARAMETER",
		"PSCHEMA"}
	if three {
		places = append(places, "ADDRESS", "OPCHANNEL", "REPLY", "RCHANNEL", "RADDRESS", "OPMESSAGE", "OPTRAIT", "SECURITY", "SERVER")
	}
	place := places[v.Choice("place", len(places))]
	value := values[v.Choice("value", len(values))]
	v.Obs("doc", place+" "+value)
	s, err := spec.ParseJSON(fill(three, place, value))
	if err == nil {
		_, err = spec.Generate(s, spec.Options{})
	}
	if err != nil {
		v.Cover("refused")
		return
	}
	v.Cover("generated")
}

// HarnessAnyText: whatever a reference says, it is refused or it leads somewhere.
//
// verif: steps=400000000 cover=refused,found
func HarnessAnyText() {
	three := v.Bool("v3")
	start := []string{"", "#/", "#/channels/c/", "#/operations/o/", "#/components/messages/m/", "#/components/schemas/s/", "#/components/schemas/s/properties/p/", "#/components/parameters/"}[v.Choice("start", 8)]
	ref := start + v.StringOf("ref", 0, v.Bound(2, 3), "#/~0spchi") + []string{"", "/", "/p", "/s", "properties/p", "payload", "messages/m", "items", "headers/properties/h", "0"}[v.Choice("end", 10)]
	var got any
	var err error
	if three {
		s := parse3(fill(true, "", ""))
		got, err = resolve3(*s, v.Choice("wanted", v.Bound(6, len(kinds3))))(ref)
	} else {
		s := parse2(fill(false, "", ""))
		got, err = resolve2(*s, v.Choice("wanted", len(kinds2)))(ref)
	}
	if err != nil {
		v.Assert(got == nil, "a refused reference leads nowhere")
		v.Cover("refused")
		return
	}
	v.Assert(got != nil, "an accepted reference leads somewhere")
	v.Cover("found")
}

func main() {
	v.Main(map[string]func(){"HarnessName": HarnessName, "HarnessAnyText": HarnessAnyText, "HarnessKind": HarnessKind, "HarnessFile": HarnessFile, "HarnessChain": HarnessChain, "HarnessAnything": HarnessAnything})
}
