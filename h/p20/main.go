// Package main checks that custom Go types are generated as such, with their
// imports.
package main

import (
	"strings"

	"verifh/goc"
	"verifh/spec"
	"verifh/v"
)

func obj(props string) string { return `{"type":"object","properties":{` + props + `}}` }

// places is the number of places of a schema.
const places = 25

// at is a document with a schema at a place, under the key "zq", or under no
// key when the second result is false.
//
//nolint:funlen,cyclop
func at(major, place int, s string) (string, bool) {
	d := parts{major: major}
	keyed := d.put(place, s)
	return d.json(), keyed
}

// parts are the parts of a document.
type parts struct {
	major                                 int
	payload, headers, params, schemas     string
	messages, traits, traitDefs, channels string
	oneOf, address                        string
}

func add(list *string, s string) {
	if *list != "" {
		*list += ","
	}
	*list += s
}

//nolint:funlen,cyclop
func (d *parts) put(place int, s string) bool {
	prop := func(s string) string { return `"zq":` + s }
	array := func(s string) string { return `{"type":"array","items":` + s + `}` }
	open := func(s string) string { return `{"type":"object","additionalProperties":` + s + `}` }
	key := "k" + string(rune('a'+place))
	switch place {
	case 0:
		add(&d.payload, prop(s))
	case 1:
		add(&d.payload, `"`+key+`":`+obj(prop(s)))
	case 2:
		add(&d.payload, prop(array(s)))
	case 3:
		add(&d.payload, prop(array(array(s))))
	case 4:
		add(&d.payload, `"`+key+`":`+array(obj(prop(s))))
	case 5:
		add(&d.payload, `"`+key+`":`+open(s))
		return false
	case 6:
		add(&d.payload, `"`+key+`":`+open(obj(prop(s))))
	case 7:
		add(&d.payload, `"`+key+`":{"allOf":[`+obj(prop(s))+`]}`)
	case 8:
		add(&d.payload, `"`+key+`":{"oneOf":[`+obj(`"other":{"type":"string"}`)+`,`+obj(prop(s))+`]}`)
	case 9:
		add(&d.payload, `"`+key+`":{"anyOf":[`+obj(prop(s))+`]}`)
	case 10:
		add(&d.headers, prop(s))
	case 11:
		add(&d.schemas, `"`+key+`":`+s)
		return false
	case 12:
		add(&d.schemas, `"`+key+`":`+obj(prop(s)))
	case 13:
		add(&d.schemas, `"`+key+`":`+array(s))
		return false
	case 14:
		add(&d.schemas, `"`+key+`":`+open(s))
		return false
	case 15:
		add(&d.schemas, `"`+key+`":`+obj(prop(s)))
		add(&d.payload, `"`+key+`":{"$ref":"#/components/schemas/`+key+`"}`)
	case 16:
		add(&d.schemas, `"`+key+`":{"allOf":[`+obj(prop(s))+`,`+obj(`"other":{"type":"integer"}`)+`]}`)
	case 17:
		add(&d.messages, `"`+key+`":{"payload":`+obj(prop(s))+`}`)
	case 18:
		add(&d.messages, `"`+key+`":{"payload":{"type":"string"},"headers":`+obj(prop(s))+`}`)
	case 19:
		add(&d.messages, `"`+key+`":{"payload":`+s+`}`)
		return false
	case 20:
		d.address = "d"
		add(&d.channels, message(d.major, key, `{"payload":`+array(s)+`}`))
		return false
	case 21: // a message or another
		if d.major == 2 {
			add(&d.channels, message(2, key, `{"oneOf":[{"payload":`+obj(`"other":{"type":"string"}`)+`},{"payload":`+obj(prop(s))+`}]}`))
		} else {
			add(&d.channels, `"`+key+`":{"address":"`+key+`","messages":{"first":{"payload":{"type":"string"}},"last":{"payload":`+obj(prop(s))+`}}}`)
		}
	case 22: // the other operation, and the message of a trait
		if d.major == 2 {
			add(&d.channels, `"`+key+`":{"publish":{"message":{"payload":{"type":"string"}}},"subscribe":{"message":{"payload":`+obj(prop(s))+`}}}`)
		} else {
			add(&d.traits, `{"headers":`+obj(prop(s))+`}`)
		}
	case 23:
		if d.major == 2 {
			add(&d.params, `"p":{"schema":`+s+`}`)
			return false
		}
		add(&d.traitDefs, `"`+key+`":{"headers":`+obj(prop(s))+`}`)
		add(&d.traits, `{"$ref":"#/components/messageTraits/`+key+`"}`)
	default:
		if d.major == 2 {
			add(&d.params, `"p":{"$ref":"#/components/parameters/`+key+`"}`)
			add(&d.traitDefs, `"`+key+`":{"schema":`+s+`}`)
			return false
		}
		add(&d.channels, `"`+key+`":{"$ref":"#/components/channels/defined"}`)
		add(&d.traitDefs, `"channel":`+obj(prop(s)))
	}
	return true
}

// message is a channel with a message.
func message(major int, name, msg string) string {
	if major == 2 {
		return `"` + name + `":{"publish":{"message":` + msg + `}}`
	}
	return `"` + name + `":{"address":"` + name + `","messages":{"m":` + msg + `}}`
}

func (d *parts) json() string {
	msg := `{"payload":` + obj(d.payload)
	if d.headers != "" {
		msg += `,"headers":` + obj(d.headers)
	}
	if d.traits != "" {
		msg += `,"traits":[` + d.traits + `]`
	}
	msg += `}`
	components := `"schemas":{` + d.schemas + `},"messages":{` + d.messages + `}`
	var channels, doc string
	if d.major == 2 {
		name, params := "c", ""
		if d.params != "" {
			name, params = "c.{p}", `"parameters":{`+d.params+`},`
		}
		channels = `"` + name + `":{` + params + `"publish":{"message":` + msg + `}}`
		if d.traitDefs != "" {
			components += `,"parameters":{` + d.traitDefs + `}`
		}
		doc = `{"asyncapi":"2.6.0",`
	} else {
		channels = message(3, "c", msg)
		if p := strings.TrimPrefix(d.traitDefs, `"channel":`); p != d.traitDefs {
			components += `,"channels":{"defined":{"address":"defined","messages":{"m":{"payload":` + p + `}}}}`
		} else if d.traitDefs != "" {
			components += `,"messageTraits":{` + d.traitDefs + `}`
		}
		doc = `{"asyncapi":"3.0.0","operations":{"o":{"action":"receive","channel":{"$ref":"#/channels/c"}}},`
	}
	if d.channels != "" {
		channels += `,` + d.channels
	}
	return doc + `"info":{"title":"T","version":"1"},"channels":{` + channels + `},"components":{` + components + `}}`
}

// generate generates the code of a document.
func generate(doc string) (string, error) {
	s, err := spec.ParseJSON(doc)
	v.Assert(err == nil, "the document is read")
	return spec.Generate(s, spec.Options{NoApp: true, NoUser: true})
}

// lib is a package with types, which has not the name that its path suggests.
const lib = "package zqlib\ntype T string\ntype U string\n"

// HarnessPlaces: wherever a custom type is, it is generated as such and its
// package is imported.
//
// verif: steps=400000000 cover=imported,builtin
func HarnessPlaces() {
	major := 2 + v.Choice("major", 2)
	place := v.Choice("place", places)
	typ, imported, path, name := "uint8", "", "", ""
	base := "integer"
	switch v.Choice("type", 4) {
	case 1:
		path = "example.com/zq-lib"
		typ, imported, base = "zqlib.T", `,"x-go-type-import":{"path":"`+path+`"}`, "string"
	case 2:
		name = "zq" + v.StringOf("name", 1, v.Bound(1, 2), "a-z")
		path = "example.com/zq-lib"
		typ, imported, base = name+".U", `,"x-go-type-import":{"name":"`+name+`","path":"`+path+`"}`, "string"
	case 3:
		// a package that the code uses already
		path = "encoding/json"
		if v.Bool("named") {
			imported = `"name":"json",`
		}
		typ, imported, base = "json.Number", `,"x-go-type-import":{`+imported+`"path":"`+path+`"}`, "string"
	}
	doc, keyed := at(major, place, `{"type":"`+base+`","x-go-type":"`+typ+`"`+imported+`}`)
	out, err := generate(doc)
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "the code is generated")
	u := goc.CheckWith(out, map[string]string{"example.com/zq-lib": lib})
	if len(u.Errors) > 0 {
		v.Obs("errors", u.Errors)
	}
	v.Assert(len(u.Errors) == 0, "the code with a custom type compiles")
	if path == "example.com/zq-lib" {
		is := goc.Imports(u.File)[path]
		v.Assert(len(is) == 1 && is[0] == name, "the package of a custom type is imported once, under its name")
		v.Cover("imported")
	} else {
		v.Cover("builtin")
	}
	if keyed {
		fs := goc.Fields(u.File)["zq"]
		v.Assert(len(fs) > 0, "the field with a custom type is generated")
		for _, f := range fs {
			f = strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(f, "*"), "[]"), "[]")
			v.Assert(f == typ, "the field has the custom type")
		}
	} else {
		v.Assert(strings.Contains(out, typ), "the custom type is used")
	}
}

// HarnessNames: a package cannot have two names.
//
// verif: steps=400000000 cover=refused,accepted
func HarnessNames() {
	d := parts{major: 2 + v.Choice("major", 2)}
	chosen := []int{0, 5, 10, 11, 17, 20, 21}
	one := v.Choice("one", len(chosen))
	two := v.Choice("two", len(chosen))
	v.Assume(one < two)
	schema := func(who string) (string, string) {
		name := v.StringOf(who, 0, v.Bound(1, 2), "a-z")
		in := ""
		if len(name) > 0 {
			in = `"name":"` + name + `",`
		}
		return name, `{"type":"string","x-go-type":"zq.T","x-go-type-import":{` + in + `"path":"example.com/zq-lib"}}`
	}
	n1, s1 := schema("first")
	n2, s2 := schema("second")
	d.put(chosen[one], s1)
	d.put(chosen[two], s2)
	_, err := generate(d.json())
	if n1 == n2 {
		v.Assert(err == nil, "two types of a package are accepted")
		v.Cover("accepted")
	} else {
		v.Assert(err != nil, "two names for a package are refused")
		v.Cover("refused")
	}
}

// HarnessVerbatim: the type is the text of the specification.
//
// verif: steps=400000000 cover=verbatim
func HarnessVerbatim() {
	typ := v.StringOf("type", 1, v.Bound(3, 4), "a-zA-Z0-9[]*._")
	keyed := []int{0, 1, 10, 12, 15, 17}
	doc, _ := at(2+v.Choice("major", 2), keyed[v.Choice("place", len(keyed))], `{"type":"string","x-go-type":"`+typ+`"}`)
	out, err := generate(doc)
	v.Assert(err == nil, "the code is generated")
	v.Assert(strings.Contains(out, "Zq "+typ+" `json") || strings.Contains(out, "Zq *"+typ+" `json"), "the custom type is generated as it is written")
	v.Cover("verbatim")
}

func main() {
	v.Main(map[string]func(){"HarnessPlaces": HarnessPlaces, "HarnessNames": HarnessNames, "HarnessVerbatim": HarnessVerbatim})
}
