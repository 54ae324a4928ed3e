// Package main checks how specifications are read.
package main

import (
	"errors"
	"os"
	"reflect"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi/parser"
	asyncapiv2 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
	asyncapiv3 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifh/spec"
	"verifh/v"
)

// readAs is the major version of the type of a specification.
func readAs(s asyncapi.Specification) int {
	switch s := s.(type) {
	case *asyncapiv2.Specification:
		if s != nil {
			return 2
		}
	case *asyncapiv3.Specification:
		if s != nil {
			return 3
		}
	}
	return 0
}

// supported are the versions that the documentation lists, with their major.
var supported = map[string]int{"2.0.0": 2, "2.1.0": 2, "2.2.0": 2, "2.3.0": 2, "2.4.0": 2, "2.5.0": 2, "2.6.0": 2, "3.0.0": 3}

// HarnessVersion: exactly the supported versions are read, as what they are.
//
// verif: steps=400000000 cover=accepted,refused
func HarnessVersion() {
	version := v.StringOf("version", 0, v.Bound(7, 9), "0-9.v -")
	s, err := parser.FromJSON(parser.FromJSONParams{Data: []byte(`{"info":{"title":"t","version":"3.0.0"},"asyncapi":"` + version + `"}`)})
	major := 0
	for w, m := range supported {
		if version == w {
			major = m
		}
	}
	if major == 0 {
		v.Assert(err != nil && s == nil, "a version that is not supported is refused")
		v.Assert(errors.Is(err, parser.ErrInvalidVersion) && errors.Is(err, extensions.ErrAsyncAPI), "the error tells that the version is not supported")
		v.Cover("refused")
		return
	}
	v.Assert(err == nil, "a supported version is read")
	v.Assert(readAs(s) == major && s.MajorVersion() == major, "a version is read as itself")
	v.Cover("accepted")
}

// HarnessNoVersion: a document without version is refused, not guessed, and one
// read with a version is never lost.
//
// verif: steps=400000000 cover=refused,told
func HarnessNoVersion() {
	docs := []string{`null`, `{}`, `[]`, `"3.0.0"`, `3`, `true`, ``, `{`, `{"asyncapi":null}`, `{"asyncapi":3}`, `{"asyncapi":2.6}`, `{"asyncapi":["3.0.0"]}`,
		`{"asyncapi":{"version":"3.0.0"}}`, `{"AsyncAPI ":"3.0.0"}`, `{"openapi":"3.0.0"}`, `{"asyncapi":true}`, `{"asyncapi":"3.0.0"`,
		`{"channels":{},"info":{"asyncapi":"3.0.0"}}`}
	doc := docs[v.Choice("doc", len(docs))]
	yaml := v.Bool("yaml")
	read := func(major int) (asyncapi.Specification, error) {
		if yaml {
			return parser.FromYAML(parser.FromYAMLParams{Data: []byte(doc), MajorVersion: major})
		}
		return parser.FromJSON(parser.FromJSONParams{Data: []byte(doc), MajorVersion: major})
	}
	s, err := read(0)
	v.Assert(err != nil && s == nil, "a document without version is refused")
	v.Cover("refused")

	major := v.Int("major", -1, 5)
	s, err = read(major)
	if major != 2 && major != 3 {
		v.Assert(err != nil && s == nil, "a major version that does not exist is refused")
		return
	}
	if err == nil {
		v.Assert(readAs(s) == major, "a document read with a version has this version")
		v.Cover("told")
	}
}

// blocks are the same specifications in JSON and in the styles of YAML.
func blocks(text string) [][2]string {
	q := spec.Quote(text)
	single := "'" + strings.ReplaceAll(text, "'", "''") + "'"
	return [][2]string{
		{`{"asyncapi":"3.0.0","info":{"title":` + q + `,"version":"1.0"}}`, "asyncapi: 3.0.0\ninfo:\n  title: " + single + "\n  version: '1.0'\n"},
		{`{"asyncapi":"2.6.0","info":{"title":"t","version":"1.0.0"},"channels":{` + q + `:{"publish":{"operationId":"o","message":{"payload":{"type":"object","required":["a","b"],"properties":{"a":{"type":"integer","minimum":-1.5,"maximum":1000},"b":{"type":"string","enum":["x","y z"]}}}}}}}}`,
			"---\n# a comment\nasyncapi: '2.6.0'\ninfo: {title: t, version: 1.0.0}\nchannels:\n  " + single + ":\n    publish:\n      operationId: o\n      message:\n        payload:\n          type: object\n          required: [a, \"b\"]\n          properties:\n            a: {type: integer, minimum: -1.5, maximum: 1e3}\n            b:\n              type: string\n              enum:\n              - x\n              - y z\n"},
		{`{"asyncapi":"3.0.0","info":{"title":"t","version":"1","description":` + spec.Quote(text+"x\nsecond\n") + `},"channels":{"on":{"address":"a"},"1":{"address":"b"}},"components":{"schemas":{"s":{"type":"object","additionalProperties":{"type":"boolean"}},"r":{"type":"object","additionalProperties":{"type":"boolean"}}}}}`,
			"asyncapi: \"3.0.0\"\ninfo:\n  title: t\n  version: \"1\"\n  description: " + spec.Quote(text+"x\nsecond\n") + "\nchannels:\n  \"on\":\n    address: a\n  1:\n    address: b\ncomponents:\n  schemas:\n    s: &anchor\n      type: object\n      additionalProperties:\n        type: boolean\n    r: *anchor\n"},
	}
}

// HarnessBlocks: a specification in YAML is the same as in JSON.
//
// verif: steps=400000000 cover=same
func HarnessBlocks() {
	bs := blocks(v.StringOf("text", 1, v.Bound(2, 3), " -~"))
	same(bs[v.Choice("doc", len(bs))])
}

func same(b [2]string) {
	j, err := parser.FromJSON(parser.FromJSONParams{Data: []byte(b[0])})
	v.Assert(err == nil, "the JSON document is read")
	y, err := parser.FromYAML(parser.FromYAMLParams{Data: []byte(b[1])})
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "the YAML document is read")
	v.Assert(reflect.DeepEqual(j, y), "YAML and JSON give the same specification")
	v.Cover("same")
}

// HarnessJSONIsYAML: JSON documents are YAML documents.
//
// verif: steps=400000000 cover=same
func HarnessJSONIsYAML() {
	d := spec.Doc{Major: 2 + v.Choice("major", 2), Send: v.Bool("send"), Parameters: v.Bool("parameters"), Second: 1, CorrelationID: true}
	d.Payload = spec.Payloads[v.Choice("payload", len(spec.Payloads))]
	d.Headers = spec.Headers[1]
	doc := d.JSON()
	same([2]string{doc, doc})
}

// HarnessFile: the format of a file is the one of its name.
//
// verif: steps=400000000 cover=json,yaml,refused
func HarnessFile() {
	j := `{"asyncapi":"3.0.0","info":{"title":"t","version":"1"},"channels":{"c":{"address":"a"}}}`
	y := "asyncapi: 3.0.0\ninfo:\n  title: t\n  version: '1'\nchannels:\n  c:\n    address: a\n"
	names := []string{"s.json", "s.yaml", "s.yml", "s.yaml.json", "s.json.yml", ".json", "s", "s.txt", "s.JSON", "json", "yaml", "s.jsonx", "s.xyaml", "s.ym", "s.json.bak", "s.yaml/", "s.toml"}
	n := v.Choice("name", len(names))
	name := v.Dir() + "/" + strings.TrimSuffix(names[n], "/")
	content, isJSON := y, v.Bool("json")
	if isJSON {
		content = j
	}
	if err := os.WriteFile(name, []byte(content), 0o600); err != nil {
		v.Fail("cannot write")
	}
	s, err := parser.FromFile(parser.FromFileParams{Path: name, MajorVersion: v.Choice("told", 2) * 3})
	switch base := strings.TrimSuffix(names[n], "/"); {
	case strings.HasSuffix(base, ".json"):
		if !isJSON {
			v.Assert(err != nil, "YAML is not JSON")
			v.Cover("refused")
			return
		}
		v.Cover("json")
	case strings.HasSuffix(base, ".yaml") || strings.HasSuffix(base, ".yml"):
		v.Cover("yaml")
	default:
		v.Assert(err != nil && s == nil && errors.Is(err, parser.ErrInvalidFileFormat), "a file of an unknown format is refused")
		return
	}
	v.Assert(err == nil, "the file is read")
	want, err := parser.FromJSON(parser.FromJSONParams{Data: []byte(j)})
	v.Assert(err == nil && reflect.DeepEqual(s, want), "a file gives the specification that it holds")
}

// HarnessMissing: what cannot be read is an error, for the document and for
// its dependencies.
//
// verif: steps=400000000 cover=missing,read
func HarnessMissing() {
	dir := v.Dir()
	docs := []string{
		`{"asyncapi":"2.6.0","info":{"title":"t","version":"1"},"components":{"schemas":{"s":{"$ref":"dep.json#/components/schemas/x"}}}}`,
		`{"asyncapi":"3.0.0","info":{"title":"t","version":"1"},"components":{"schemas":{"s":{"$ref":"dep.json#/components/schemas/x"}}}}`,
	}
	root := v.Int("root", 0, 2)
	if root < len(docs) {
		_ = os.WriteFile(dir+"/root.json", []byte(docs[root]), 0o600)
	}
	deps := []string{`{"components":{"schemas":{"x":{"type":"string"}}}}`, `null`, `[]`, `{`, ``, `{"components":3}`}
	dep := v.Choice("dep", len(deps)+1)
	if dep < len(deps) {
		_ = os.WriteFile(dir+"/dep.json", []byte(deps[dep]), 0o600)
	}
	cg, err := codegen.FromFile(dir+"/root.json", dir+"/dep.json")
	if root == len(docs) || dep > 0 {
		v.Assert(err != nil, "a file that cannot be read is an error")
		v.Cover("missing")
		return
	}
	v.Assert(err == nil && readAs(cg.Specification) == 2+root, "the files are read")
	v.Cover("read")
}

func main() {
	v.Main(map[string]func(){"HarnessVersion": HarnessVersion, "HarnessNoVersion": HarnessNoVersion, "HarnessBlocks": HarnessBlocks,
		"HarnessJSONIsYAML": HarnessJSONIsYAML, "HarnessFile": HarnessFile, "HarnessMissing": HarnessMissing})
}
