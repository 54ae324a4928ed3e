// Package main checks that what is generated only depends on the specification
// and on the options.
package main

import (
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi/parser"

	"verifh/spec"
	"verifh/v"
)

// docs are specifications with several of everything.
func docs() []string {
	p := `{"type":"object","required":["b","a"],"properties":{"a":{"type":"string","enum":["x","y"]},"b":{"type":"object","properties":{"z":{"type":"integer"},"y":{"type":"string","format":"date"}}},"c":{"$ref":"#/components/schemas/lists"}}}`
	all := `{"allOf":[{"type":"object","properties":{"a":{"type":"string"},"k":{"type":"integer"}}},{"$ref":"#/components/schemas/thing"},{"type":"object","required":["b"],"properties":{"b":{"type":"string"},"a":{"type":"number"}}}]}`
	some := `{"anyOf":[{"$ref":"#/components/schemas/lists"},{"type":"object","properties":{"b":{"type":"string"},"a":{"type":"number"}}}]}`
	return []string{
		spec.Doc{Major: 2, Payload: p, Headers: spec.Headers[4], Second: 1, Parameters: true}.JSON(),
		spec.Doc{Major: 3, Payload: p, Headers: spec.Headers[4], Second: 1, Parameters: true}.JSON(),
		spec.Doc{Major: 3, Payload: all, Headers: spec.Headers[1], CorrelationID: true, ByRef: true, Second: 1, Reply: 4}.JSON(),
		spec.Doc{Major: 2, Payload: all, Headers: spec.Headers[1], CorrelationID: true, ByRef: true, Second: 2}.JSON(),
		spec.Doc{Major: 3, Payload: some, Headers: spec.Headers[6], Second: 2, Reply: 2}.JSON(),
		nested(2), nested(3),
		// several messages, parameters, components of each kind
		`{"asyncapi":"3.0.0","info":{"title":"T","version":"1"},"channels":{
"one":{"address":"a.{p}.{q}.{r}","parameters":{"p":{},"q":{"$ref":"#/components/parameters/q"},"r":{}},"messages":{"m":{"$ref":"#/components/messages/m"},"n":{"payload":{"type":"string"}}}},
"two":{"$ref":"#/components/channels/two"},
"three":{"address":"t","messages":{"m":{"$ref":"#/components/messages/n"}}}},
"operations":{"a":{"action":"send","channel":{"$ref":"#/channels/one"},"messages":[{"$ref":"#/channels/one/messages/m"}]},
"b":{"action":"receive","channel":{"$ref":"#/channels/two"}},"c":{"action":"receive","channel":{"$ref":"#/channels/one"},"messages":[{"$ref":"#/channels/one/messages/n"}]},
"e":{"action":"send","channel":{"$ref":"#/channels/one"}},
"d":{"action":"send","channel":{"$ref":"#/channels/three"},"reply":{"channel":{"$ref":"#/channels/two"}}}},
"components":{"parameters":{"q":{"description":"x"},"z":{}},"channels":{"two":{"address":"two","messages":{"k":{"$ref":"#/components/messages/m"}}},"zz":{"address":"zz"}},
"messages":{"m":{"traits":[{"headers":{"type":"object","properties":{"t1":{"type":"string"},"t2":{"type":"string"}}}}],"headers":{"type":"object","properties":{"h1":{"type":"string"},"h2":{"type":"integer"}}},"payload":{"$ref":"#/components/schemas/s"}},"n":{"payload":{"type":"integer"}}},
"schemas":{"s":{"type":"object","properties":{"a":{"$ref":"#/components/schemas/u"},"b":{"$ref":"#/components/schemas/u/properties/i"}}},"u":{"type":"object","properties":{"i":{"type":"object","properties":{"x":{"type":"string"},"y":{"type":"string"}}},"j":{"type":"boolean"}}}}}}`,
		`{"asyncapi":"2.6.0","info":{"title":"T","version":"1"},"channels":{
"a/{p}/{q}/{r}":{"parameters":{"p":{"schema":{"type":"string"}},"q":{"$ref":"#/components/parameters/q"},"r":{"schema":{"type":"string"}}},"publish":{"message":{"$ref":"#/components/messages/m"}},"subscribe":{"operationId":"sub","message":{"payload":{"type":"string"}}}},
"b":{"subscribe":{"message":{"$ref":"#/components/messages/n"}}},"c":{"publish":{"message":{"oneOf":[{"$ref":"#/components/messages/m"},{"$ref":"#/components/messages/n"}]}}}},
"components":{"parameters":{"q":{"schema":{"type":"string"}},"z":{"schema":{"type":"string"}}},
"messages":{"m":{"headers":{"type":"object","properties":{"h1":{"type":"string"},"h2":{"type":"integer"}}},"payload":{"$ref":"#/components/schemas/s"}},"n":{"payload":{"type":"integer"}}},
"schemas":{"s":{"type":"object","properties":{"a":{"$ref":"#/components/schemas/u"},"b":{"$ref":"#/components/schemas/u/properties/i"}}},"u":{"type":"object","properties":{"i":{"type":"object","properties":{"x":{"type":"string"},"y":{"type":"string"}}},"j":{"type":"boolean"}}}}}}`,
	}
}

// nested is a specification with several definitions within one another.
func nested(major int) string {
	o := func(p string) string { return `{"type":"object","properties":{` + p + `}}` }
	x := o(`"x":{"type":"string"}`)
	p := o(`"b":` + x + `,"a":` + o(`"d":`+x+`,"c":`+x) + `,"c":{"type":"array","items":` + x + `}`)
	return spec.Doc{Major: major, Payload: p, Headers: spec.Headers[4], Second: 1}.JSON()
}

func parse(doc string) asyncapi.Specification {
	s, err := parser.FromJSON(parser.FromJSONParams{Data: []byte(doc)})
	v.Assert(err == nil, "the document is read")
	return s
}

func generate(s asyncapi.Specification, o spec.Options) string {
	out, err := spec.Generate(s, o)
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "the code is generated")
	return out
}

// same compares two generated files.
func same(a, b, what string) {
	if a != b {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		v.Obs("first", around(a, i))
		v.Obs("second", around(b, i))
	}
	v.Assert(a == b, what)
}

func around(s string, i int) string {
	lo, hi := i-80, i+80
	if lo < 0 {
		lo = 0
	}
	if hi > len(s) {
		hi = len(s)
	}
	return s[lo:hi]
}

// HarnessMapOrder: the order in which maps happen to be walked does not matter.
//
// verif: steps=400000000 cover=compared
func HarnessMapOrder() {
	ds := docs()
	doc := ds[v.Choice("doc", len(ds))]
	a := generate(parse(doc), spec.Options{})
	n := 1
	if !v.Symbolic() {
		n = 100
	}
	for i := 0; i < n; i++ {
		v.MapOrder(true)
		b := generate(parse(doc), spec.Options{})
		v.MapOrder(false)
		same(a, b, "the code does not depend on the order maps are walked in")
	}
	v.Cover("compared")
}

// HarnessAgain: generating again from the same specification gives the same
// code, whatever part of it was generated before.
//
// verif: steps=400000000 cover=compared
func HarnessAgain() {
	ds := docs()
	doc := ds[v.Choice("doc", len(ds))]
	first := spec.Options{NoApp: v.Bool("noapp"), NoTypes: v.Bool("notypes")}
	s := parse(doc)
	generate(s, first)
	b := generate(s, spec.Options{})
	a := generate(parse(doc), spec.Options{})
	same(a, b, "generating twice from a specification gives the same code")
	v.Cover("compared")
}

// HarnessHistory: what was generated before does not matter.
//
// verif: steps=400000000 cover=compared
func HarnessHistory() {
	ds := docs()
	doc := ds[v.Choice("doc", len(ds))]
	o := spec.Options{}
	if v.Thorough() {
		o = spec.AnyOption()
	}
	a := generate(parse(doc), o)
	generate(parse(ds[v.Choice("other", 2)]), spec.AnyOption())
	b := generate(parse(doc), o)
	same(a, b, "what was generated before does not matter")
	v.Cover("compared")
}

// named is a specification whose names, of every shape, all hold a given text.
func named(text string, three bool) string {
	doc := `{"asyncapi":"2.6.0","info":{"title":"T","version":"1"},"channels":{
"someHTTP_?/{some_?-id}.V2":{"parameters":{"some_?-id":{"schema":{"type":"string"}}},"publish":{"operationId":"doHTTP_?-op","message":{"$ref":"#/components/messages/myMSG_?"}}},
"other_?-chan":{"subscribe":{"message":{"name":"in_?LINE","payload":{"type":"string","format":"date-time"},"headers":{"type":"object","properties":{"anID_?":{"type":"string"}}}}}}},
"components":{"messages":{"myMSG_?":{"headers":{"type":"object","properties":{"corrID_?":{"type":"string"}}},"correlationId":{"location":"$message.header#/corrID_?"},"payload":{"$ref":"#/components/schemas/aTYPE_?"}}},
"schemas":{"aTYPE_?":{"type":"object","required":["some-KEY_?"],"properties":{"some-KEY_?":{"type":"string","format":"date"},"sub_?OBJ":{"type":"object","properties":{"x_?Y":{"type":"array","items":{"type":"integer"}}}}}}}}}`
	if three {
		doc = `{"asyncapi":"3.0.0","info":{"title":"T","version":"1"},"channels":{
"someHTTP_?":{"address":"c_?.{some_?-id}","parameters":{"some_?-id":{}},"messages":{"my_?MSG":{"$ref":"#/components/messages/myMSG_?"}}},
"other_?-chan":{"address":"d_?","messages":{"in_?LINE":{"payload":{"type":"string","format":"date-time"},"headers":{"type":"object","properties":{"anID_?":{"type":"string"}}}}}}},
"operations":{"doHTTP_?-op":{"action":"receive","channel":{"$ref":"#/channels/someHTTP_?"}},"get_?-OP":{"action":"send","channel":{"$ref":"#/channels/other_?-chan"}}},
"components":{"messages":{"myMSG_?":{"headers":{"type":"object","properties":{"corrID_?":{"type":"string"}}},"correlationId":{"location":"$message.header#/corrID_?"},"payload":{"$ref":"#/components/schemas/aTYPE_?"}}},
"schemas":{"aTYPE_?":{"type":"object","required":["some-KEY_?"],"properties":{"some-KEY_?":{"type":"string","format":"date"},"sub_?OBJ":{"type":"object","properties":{"x_?Y":{"type":"array","items":{"type":"integer"}}}}}}}}}`
	}
	return strings.ReplaceAll(doc, "?", text)
}

// HarnessNames: what was generated before from the same names does not matter:
// the code is the one generated for names that were never used.
//
// verif: steps=400000000 cover=compared
func HarnessNames() {
	three := v.Bool("v3")
	before, o := spec.AnyOption(), spec.AnyOption()
	generate(parse(named("zqa", three)), before)
	a := generate(parse(named("zqa", three)), o)
	b := generate(parse(named("zqb", three)), o)
	b = strings.NewReplacer("zqb", "zqa", "Zqb", "Zqa", "ZQB", "ZQA").Replace(b)
	same(a, b, "the names used before do not matter")
	v.Cover("compared")
}

func main() {
	v.Main(map[string]func(){"HarnessNames": HarnessNames, "HarnessMapOrder": HarnessMapOrder, "HarnessAgain": HarnessAgain, "HarnessHistory": HarnessHistory})
}
