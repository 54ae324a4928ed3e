// Package main checks that what the generator makes of a specification
// compiles.
package main

import (
	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"

	"verifh/goc"
	"verifh/spec"
	"verifh/v"
)

// compiles generates the code of a specification and compiles it.
func compiles(d spec.Doc, o spec.Options) goc.Unit {
	out, err := d.Generate(o)
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "code is generated for a valid specification")
	u := goc.Check(out)
	if len(u.Errors) > 0 {
		v.Obs("errors", u.Errors)
	}
	v.Assert(len(u.Errors) == 0, "the generated code compiles")
	v.Cover("compiled")
	return u
}

// HarnessPayload: every kind of payload, with every generation option.
//
// verif: steps=400000000 cover=compiled
func HarnessPayload() {
	d := spec.Doc{Major: 2 + v.Choice("major", 2)}
	d.Payload = spec.Payloads[v.Choice("payload", len(spec.Payloads))]
	o := spec.Options{}
	if v.Thorough() {
		o = spec.AnyOption()
	} else {
		o.ForcePointers = d.Major == 3 && v.Bool("pointers")
	}
	compiles(d, o)
}

// HarnessHeaders: every kind of header, with and without correlation ID.
//
// verif: steps=400000000 cover=compiled
func HarnessHeaders() {
	d := spec.Doc{Major: 2 + v.Choice("major", 2)}
	d.Headers = spec.Headers[v.Choice("headers", len(spec.Headers))]
	d.CorrelationID = v.Bool("correlated")
	d.ByRef = v.Bool("byref")
	o := spec.Options{}
	if v.Thorough() {
		o = spec.AnyOption()
	}
	compiles(d, o)
}

// HarnessOperations: every mix of actions, parameters and replies.
//
// verif: steps=400000000 cover=compiled
func HarnessOperations() {
	d := spec.Doc{Major: 2 + v.Choice("major", 2)}
	d.Send = v.Bool("send")
	d.Parameters = v.Bool("parameters")
	d.CorrelationID = v.Bool("correlated")
	if d.CorrelationID {
		d.Headers = spec.Headers[1]
	}
	d.Second = v.Choice("second", 3)
	if d.Major == 3 {
		d.Reply = v.Choice("reply", spec.Replies)
	}
	compiles(d, spec.Options{ForcePointers: v.Thorough() && v.Bool("pointers")})
}

// locations are the places a correlation ID can be, with the payload.
var locations = [][2]string{
	{"$message.header#/id", `{"type":"string"}`},
	{"$message.header#/a.b", `{"type":"string"}`},
	{"$message.header#/header", `{"type":"string"}`},
	{"$message.payload#/id", `{"type":"object","required":["id"],"properties":{"id":{"type":"string"}}}`},
	{"$message.payload#/id", `{"type":"object","properties":{"id":{"$ref":"#/components/schemas/text"}}}`},
	{"$message.payload#/id", `{"$ref":"#/components/schemas/heads"}`},
	{"$message.payload#/sub/id", `{"$ref":"#/components/schemas/thing"}`},
	{"$message.payload#/a/b/id", `{"type":"object","required":["a"],"properties":{"a":{"type":"object"}}}`},
	{"$message.payload#/id", `{"type":"object","properties":{"other":{"type":"string"}}}`},
	{"$message.payload#/id", `{"allOf":[{"$ref":"#/components/schemas/heads"}]}`},
}

// HarnessCorrelation: wherever the correlation ID is.
//
// verif: steps=400000000 cover=compiled
func HarnessCorrelation() {
	d := spec.Doc{Major: 2 + v.Choice("major", 2), CorrelationID: true}
	l := locations[v.Choice("location", len(locations))]
	d.Location, d.Payload = l[0], l[1]
	d.Second = v.Choice("second", 2)
	if d.Major == 3 {
		d.Reply = v.Choice("reply", 2)
	}
	compiles(d, spec.Options{ForcePointers: v.Thorough() && v.Bool("pointers")})
}

// HarnessTexts: whatever the texts of the specification are.
//
// verif: steps=400000000 cover=compiled
func HarnessTexts() {
	d := spec.Doc{Major: 2 + v.Choice("major", 2)}
	printable := " -~\n"
	switch v.Choice("where", 7) {
	case 0:
		d.Description = v.StringOf("description", 1, v.Bound(2, 3), printable)
	case 1:
		d.Address = v.StringOf("address", 1, v.Bound(2, 3), " -z|~")
	case 2:
		d.Version = v.StringOf("version", 1, v.Bound(1, 2), " -~")
	case 3:
		d.Headers = "{\"type\":\"object\",\"properties\":{" + spec.Quote(v.StringOf("header", 1, v.Bound(1, 2), " -~")+"a") + ":{\"type\":\"string\"}}}"
	case 4:
		d.Payload = "{\"type\":\"object\",\"properties\":{" + spec.Quote("a"+v.StringOf("property", 1, v.Bound(1, 2), " !#-+--[]-_a-~")) + ":{\"type\":\"string\"}}}"
	case 5:
		d.Payload = "{\"type\":\"object\",\"properties\":{\"p\":{\"type\":\"string\",\"enum\":[" + spec.Quote(v.StringOf("enum", 0, v.Bound(1, 2), " -_a-~")) + "]}}}"
	default:
		d.Payload = "{\"type\":\"object\",\"additionalProperties\":{\"type\":\"string\"},\"properties\":{" + spec.Quote(v.StringOf("property", 1, v.Bound(1, 2), " !#-+--[]-_a-~")+"a") + ":{\"type\":\"string\"}}}"
	}
	compiles(d, spec.Options{})
}

// HarnessReferences: whatever is defined in the components and referenced, once
// or several times, rather than defined where it is used.
//
// verif: steps=400000000 cover=compiled
func HarnessReferences() {
	components := map[string]string{}
	// by makes a definition a component, referenced directly or by another one
	by := func(kind, name, def string, n int) string {
		c := v.Choice(kind+name, n)
		if c == 0 {
			return def
		}
		add := func(name, def string) string {
			if components[kind] != "" {
				components[kind] += ","
			}
			components[kind] += `"` + name + `":` + def
			return `{"$ref":"#/components/` + kind + `/` + name + `"}`
		}
		r := add(name, def)
		if c == 2 {
			r = add(name+"Alias", r)
		}
		return r
	}
	v3 := v.Bool("v3")
	n := v.Bound(2, 3)
	payload := by("schemas", "thing", `{"type":"object","required":["id"],"properties":{"id":{"type":"string"},"sub":{"type":"object","properties":{"x":{"type":"integer"}}}}}`, 2)
	correlation := `{"location":"$message.payload#/id"}`
	if v.Thorough() {
		correlation = by("correlationIds", "cid", correlation, 2)
	}
	message := by("messages", "said", `{"payload":`+payload+`,"correlationId":`+correlation+`}`, 3)
	parameter := `{"description":"d"}`
	if !v3 || v.Thorough() {
		parameter = by("parameters", "par", parameter, n)
	}
	var channels, rest string
	if !v3 {
		again := []string{``, `,"other.{p}":{"parameters":{"p":` + parameter + `},"subscribe":{"message":` + message + `}}`}[v.Choice("again", 2)]
		channels = `"app.{p}":{"parameters":{"p":` + parameter + `},"publish":{"message":` + message + `}}` + again
		rest = `"asyncapi":"2.6.0"`
	} else {
		channel := by("channels", "talk", `{"address":"app.{p}","parameters":{"p":`+parameter+`},"messages":{"said":`+message+`}}`, 3)
		channels = `"c":` + channel + `,"r":{"address":"r","messages":{"answer":{"payload":{"type":"string"}}}}`
		reply := []string{``, `,"reply":` + by("replies", "rep", `{"channel":{"$ref":"#/channels/r"}}`, 2)}[v.Choice("reply", 2)]
		operation := by("operations", "op", `{"action":"receive","channel":{"$ref":"#/channels/c"}`+reply+`}`, n)
		if v.Bool("again") {
			channels += `,"d":` + channel
			rest = `,"other":{"action":"send","channel":{"$ref":"#/channels/d"}}`
		}
		rest = `"asyncapi":"3.0.0","operations":{"op":` + operation + rest + `}`
	}
	doc := `{` + rest + `,"info":{"title":"T","version":"1"},"channels":{` + channels + `},"components":{`
	sep := ""
	for _, k := range []string{"schemas", "correlationIds", "messages", "parameters", "channels", "replies", "operations"} {
		if components[k] != "" {
			doc += sep + `"` + k + `":{` + components[k] + `}`
			sep = ","
		}
	}
	s, err := spec.ParseJSON(doc + `}}`)
	v.Assert(err == nil, "the document is read")
	out, err := spec.Generate(s, spec.Options{})
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "code is generated for references")
	u := goc.Check(out)
	if len(u.Errors) > 0 {
		v.Obs("errors", u.Errors)
		v.Obs("doc", doc)
	}
	v.Assert(len(u.Errors) == 0, "the code generated for references compiles")
	v.Cover("compiled")
}

// HarnessDependencies: a document whose schemas and messages are defined in other
// files, given as dependencies, declares what the same document in one file does.
//
// verif: steps=400000000 cover=compiled
func HarnessDependencies() {
	three := v.Bool("v3")
	// defined[0] are the components of the document, the other ones those of the dependencies
	var defined [3]map[string]string
	var merged = map[string]string{}
	for i := range defined {
		defined[i] = map[string]string{}
	}
	files := []string{"", "dep.json", "./lib/dep.json"}
	// put defines a component in a file, and in the single document
	put := func(in int, kind, name, def, single string) {
		add := func(m map[string]string, def string) {
			if m[kind] != "" {
				m[kind] += ","
			}
			m[kind] += `"` + name + `":` + def
		}
		add(defined[in], def)
		add(merged, single)
	}
	ref := func(from, in int, kind, name string) string {
		file := files[in]
		if from == in {
			file = ""
		}
		return `{"$ref":"` + file + `#/components/` + kind + `/` + name + `"}`
	}
	local := func(kind, name string) string { return ref(0, 0, kind, name) }

	// the message is in the document (in place or not) or in a dependency, and
	// its payload in the document or in a dependency
	message := v.Choice("message", 4) - 1
	payload := message
	if message <= 0 {
		payload = v.Choice("payload", 3)
	}
	inner := payload
	if payload == 0 {
		inner = v.Choice("inner", 3)
	}
	thing := func(r string) string {
		return `{"type":"object","required":["id"],"properties":{"id":{"type":"string"},"sub":{"type":"object","properties":{"x":{"type":"integer"}}},"in":` + r + `}}`
	}
	others := []string{
		`{"type":"object","properties":{"z":{"type":"array","items":{"type":"object","properties":{"y":{"type":"string"}}}}}}`,
		`{"type":"string","x-go-type":"zq.Z","x-go-type-import":{"name":"zq","path":"example.com/zq-lib"}}`,
		`{"type":"string","enum":["a","b"]}`,
	}
	other := others[v.Choice("other", v.Bound(2, 3))]
	put(inner, "schemas", "other", other, other)
	put(payload, "schemas", "thing", thing(ref(payload, inner, "schemas", "other")), thing(local("schemas", "other")))
	if payload != 0 && v.Bool("alias") {
		put(0, "schemas", "alias", ref(0, payload, "schemas", "thing"), local("schemas", "thing"))
	}
	if payload != 0 && v.Bool("both") {
		// the other dependency defines it too, as shared definitions often are
		defined[3-payload]["schemas"] = `"thing":` + thing(local("schemas", "other")) + `,"other":` + other
	}
	says := func(r string) string {
		return `{"headers":{"type":"object","properties":{"h":{"type":"string"}}},"payload":` + r + `}`
	}
	in := max(message, 0)
	said, single := says(ref(in, payload, "schemas", "thing")), says(local("schemas", "thing"))
	if message >= 0 {
		put(message, "messages", "said", said, single)
		said, single = ref(0, message, "messages", "said"), local("messages", "said")
	}
	comps := func(m map[string]string) string {
		doc, sep := ``, ``
		for _, k := range []string{"schemas", "messages"} {
			if m[k] != "" {
				doc += sep + `"` + k + `":{` + m[k] + `}`
				sep = ","
			}
		}
		return `"components":{` + doc + `}`
	}
	start, channels := `{"asyncapi":"2.6.0","info":{"title":"T","version":"1"}`, func(said string) string {
		return `"channels":{"talk":{"publish":{"message":` + said + `}}}`
	}
	if three {
		start = `{"asyncapi":"3.0.0","info":{"title":"T","version":"1"}`
		channels = func(said string) string {
			return `"channels":{"talk":{"address":"talk","messages":{"m":` + said + `}}},"operations":{"op":{"action":"send","channel":{"$ref":"#/channels/talk"}}}`
		}
	}
	s, err := spec.ParseJSON(start + `,` + channels(said) + `,` + comps(defined[0]) + `}`)
	v.Assert(err == nil, "the document is read")
	for i := 1; i < 3; i++ {
		d, err := spec.ParseJSON(start + `,` + comps(defined[i]) + `}`)
		v.Assert(err == nil, "the dependency is read")
		v.Assert(s.AddDependency(files[i], d) == nil, "the dependency is accepted")
	}
	alone, err := spec.ParseJSON(start + `,` + channels(single) + `,` + comps(merged) + `}`)
	v.Assert(err == nil, "the single document is read")

	check := func(s asyncapi.Specification) map[string]string {
		out, err := spec.Generate(s, spec.Options{})
		if err != nil {
			v.Obs("refused", err.Error())
		}
		v.Assert(err == nil, "code is generated for a document and its dependencies")
		u := goc.CheckWith(out, map[string]string{"example.com/zq-lib": "package zq\n\ntype Z string\n"})
		if len(u.Errors) > 0 {
			v.Obs("errors", u.Errors)
		}
		v.Assert(len(u.Errors) == 0, "the code generated for a document and its dependencies compiles")
		return goc.Declared(u.File)
	}
	got, want := check(s), check(alone)
	for name := range want {
		_, ok := got[name]
		v.Assert(ok, name+" is declared when it comes from a dependency")
	}
	v.Assert(len(got) == len(want), "nothing else is declared")
	v.Cover("compiled")
}

func main() {
	v.Main(map[string]func(){
		"HarnessPayload": HarnessPayload, "HarnessHeaders": HarnessHeaders, "HarnessOperations": HarnessOperations, "HarnessTexts": HarnessTexts, "HarnessCorrelation": HarnessCorrelation,
		"HarnessReferences": HarnessReferences, "HarnessDependencies": HarnessDependencies,
	})
}
