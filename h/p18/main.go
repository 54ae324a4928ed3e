// Package main checks that compositions of schemas, messages and traits
// generate the same as the definitions they stand for.
package main

import (
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"verifh/goc"
	"verifh/spec"
	"verifh/v"
)

// shape is the structure of a generated type, with the types it is made of in
// place of their names, unless one is made of itself.
func shape(f *ast.File, name string) string { return namedShape(f, name, nil) }

func namedShape(f *ast.File, name string, in []string) string {
	for _, n := range in {
		if n == name {
			return "itself"
		}
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			if ts, ok := s.(*ast.TypeSpec); ok && ts.Name.Name == name {
				return typeShape(f, ts.Type, append(in, name))
			}
		}
	}
	return name
}

func typeShape(f *ast.File, t ast.Expr, in []string) string {
	switch t := t.(type) {
	case *ast.Ident:
		return namedShape(f, t.Name, in)
	case *ast.StarExpr:
		return "*" + typeShape(f, t.X, in)
	case *ast.ArrayType:
		return "[]" + typeShape(f, t.Elt, in)
	case *ast.MapType:
		return "map[" + typeShape(f, t.Key, in) + "]" + typeShape(f, t.Value, in)
	case *ast.StructType:
		var fs []string
		for _, x := range t.Fields.List {
			for _, n := range x.Names {
				s := n.Name + " " + typeShape(f, x.Type, in)
				if x.Tag != nil {
					s += " " + x.Tag.Value
				}
				fs = append(fs, s)
			}
		}
		sort.Strings(fs)
		return "struct{" + strings.Join(fs, "; ") + "}"
	}
	return types.ExprString(t)
}

// file is the generated code of a document, without its controllers unless
// asked for.
func file(doc string, controllers bool) *ast.File {
	s, err := spec.ParseJSON(doc)
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "the document is read")
	src, err := spec.Generate(s, spec.Options{NoApp: !controllers, NoUser: !controllers})
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "code is generated for a valid specification")
	f, err := goc.Parse(src)
	v.Assert(err == nil, "the generated code is parsed")
	return f
}

func version(major int) string {
	if major == 2 {
		return "2.6.0"
	}
	return "3.0.0"
}

// document is a document with nothing but components.
func document(major int, components string) string {
	return `{"asyncapi":"` + version(major) + `","info":{"title":"T","version":"1"},"components":{` + components + `}}`
}

// part is a schema of an object with at most one property.
type part struct{ name, required string }

var kinds = []string{
	`{"type":"string"}`,
	`{"type":"object","required":["x"],"properties":{"x":{"type":"string"},"y":{"type":"integer"}}}`,
	`{"$ref":"#/components/schemas/thing"}`,
	`{"type":"array","items":{"type":"object","properties":{"x":{"type":"string"}}}}`,
	`{"type":"array","items":{"$ref":"#/components/schemas/thing"}}`,
	`{"type":"integer","minimum":3}`,
	`{"$ref":"#/components/schemas/word"}`,
	`{"type":"string","x-go-type":"mytype"}`,
}

const things = `"thing":{"type":"object","required":["z"],"properties":{"z":{"type":"string"}}},"word":{"type":"string","minLength":2}`

// anyPart is a part whose property, and the one it requires, are any of a few
// names.
func anyPart(n string) part {
	return part{[]string{"a", "b"}[v.Choice("name"+n, 2)], []string{"", "a", "b"}[v.Choice("required"+n, 3)]}
}

// pick is any choice when it is the matter at hand, and one of them otherwise.
func pick(name string, n int, matter bool, otherwise int) int {
	if matter {
		return v.Choice(name, n)
	}
	return otherwise
}

func names(l ...string) string {
	out := ``
	for i, n := range l {
		if i > 0 {
			out += `,`
		}
		out += `"` + n + `"`
	}
	return out
}

// fields are the keywords of an object with some properties.
func fields(props, required []string, kind string) string {
	s := `"type":"object"`
	if len(required) > 0 {
		s += `,"required":[` + names(required...) + `]`
	}
	if len(props) > 0 {
		s += `,"properties":{`
		for i, n := range props {
			if i > 0 {
				s += `,`
			}
			s += `"` + n + `":` + kind
		}
		s += `}`
	}
	return s
}

func (p part) fields(kind string) string {
	var r []string
	if p.required != "" {
		r = []string{p.required}
	}
	return fields([]string{p.name}, r, kind)
}

// union adds what is not there yet.
func union(l []string, more ...string) []string {
	for _, m := range more {
		in := m == ""
		for _, x := range l {
			in = in || x == m
		}
		if !in {
			l = append(l, m)
		}
	}
	return l
}

// HarnessSchemas: a composition of schemas has the properties of all of them,
// and requires what all of its alternatives, or any of its parts, require.
//
// verif: steps=400000000 cover=all,any
func HarnessSchemas() {
	major := 2 + v.Choice("major", 2)
	how := v.Choice("how", 3)
	// the matter is either names and requirements, or types and references
	naming := v.Bool("naming")
	kind := kinds[pick("kind", len(kinds), !naming, 0)]
	own, one, two := part{"a", "b"}, part{"b", ""}, part{"b", "a"}
	if naming {
		own, one, two = anyPart("own"), anyPart("one"), anyPart("two")
		v.Assume(own.name == "a" && (v.Thorough() || two.name == "b"))
	}
	components := things
	member := func(n string, p part) string {
		s := `{` + p.fields(kind) + `}`
		switch pick("member"+n, 4, !naming && (v.Thorough() || n == "one"), 0) {
		case 1: // by reference
			components += `,"` + n + `":` + s
			return `{"$ref":"#/components/schemas/` + n + `"}`
		case 2: // by reference to a reference
			components += `,"` + n + `":` + s + `,"alias` + n + `":{"$ref":"#/components/schemas/` + n + `"}`
			return `{"$ref":"#/components/schemas/alias` + n + `"}`
		case 3: // a composition by reference
			components += `,"` + n + `":{"allOf":[` + s + `]}`
			return `{"$ref":"#/components/schemas/` + n + `"}`
		}
		return s
	}
	composed := `{` + own.fields(kind) + `,"` + []string{"allOf", "anyOf", "oneOf"}[how] + `":[` + member("one", one) + `,` + member("two", two) + `]}`
	props := union(nil, own.name, one.name, two.name)
	required := union(nil, own.required)
	if how == 0 {
		required = union(required, one.required, two.required)
		v.Cover("all")
	} else {
		if one.required == two.required {
			required = union(required, one.required)
		}
		v.Cover("any")
	}
	plain := `{` + fields(props, required, kind) + `}`
	got := shape(file(document(major, `"schemas":{`+components+`,"whole":`+composed+`}`), false), "WholeSchema")
	want := v.Memo(version(major)+plain, func() string {
		return shape(file(document(major, `"schemas":{`+things+`,"whole":`+plain+`}`), false), "WholeSchema")
	})
	v.Obs("got", got)
	v.Obs("want", want)
	v.Assert(got == want, "a composition of schemas generates what its properties generate")
}

// HarnessNames: whatever their names are, a property of a part is required if
// and only if its name is a required one.
//
// verif: steps=400000000 cover=required,optional
func HarnessNames() {
	major := 2 + v.Choice("major", 2)
	how := []string{"allOf", "anyOf", "oneOf"}[v.Choice("how", 3)]
	property := v.StringOf("property", 1, v.Bound(1, 2), "a-z")
	required := v.StringOf("required", 1, v.Bound(1, 2), "a-z")
	components := things
	member := `{"type":"object","properties":{"` + property + `":{"type":"string"}}}`
	if v.Bool("byref") {
		components += `,"part":` + member
		member = `{"$ref":"#/components/schemas/part"}`
	}
	got := shape(file(document(major, `"schemas":{`+components+`,"whole":{"type":"object","required":["`+required+`"],"`+how+`":[`+member+`]}}`), false), "WholeSchema")
	field := string([]byte{property[0] - 'a' + 'A'}) + property[1:]
	if property == required {
		v.Cover("required")
		v.Assert(got == "struct{"+field+" string `json:\""+property+"\"`}", "a property with a required name is required")
	} else {
		v.Cover("optional")
		v.Assert(got == "struct{"+field+" *string `json:\""+property+",omitempty\"`}", "a property without a required name is optional")
	}
}

var values = []string{
	`{"type":"string"}`,
	`{"type":"string","minLength":2,"maxLength":7}`,
	`{"type":"string","format":"date-time"}`,
	`{"type":"integer","format":"int32"}`,
	`{"type":"number","minimum":1.5}`,
	`{"type":"boolean"}`,
	`{"type":"array","items":{"type":"string"}}`,
	`{"type":"array","items":{"type":"object","properties":{"x":{"type":"string"}}}}`,
	`{"type":"string","enum":["u","w"]}`,
	`{"type":"string","x-go-type":"mytype"}`,
	`{"type":"object","required":["x"],"properties":{"x":{"type":"string"},"y":{"type":"integer"}}}`,
}

// HarnessValues: a composition has the type its parts have, or any type.
//
// verif: steps=400000000 cover=same,any
func HarnessValues() {
	major := 2 + v.Choice("major", 2)
	value := v.Choice("value", v.Bound(6, len(values)))
	if !v.Thorough() {
		value = []int{1, 2, 6, 7, 9, 10}[value]
	}
	plain := values[value]
	part, components := plain, things
	if v.Bool("byref") {
		components += `,"part":` + plain
		part = `{"$ref":"#/components/schemas/part"}`
	}
	var composed string
	switch v.Choice("how", 8) {
	case 0:
		composed = `{"allOf":[` + part + `]}`
	case 1:
		composed = `{"allOf":[` + part + `,{"description":"d"}]}`
	case 2:
		composed = `{"oneOf":[` + part + `]}`
	case 3:
		composed = `{"anyOf":[` + part + `,{"type":"null"}]}`
	case 4:
		composed = `{"allOf":[{"anyOf":[` + part + `]}]}`
	case 5: // alternatives of different types
		other := `{"type":"boolean"}`
		if value == 5 {
			other = `{"type":"integer"}`
		}
		composed, plain = `{"oneOf":[`+part+`,`+other+`]}`, `{}`
		v.Cover("any")
	case 6: // alternatives of the same type
		v.Assume(value < 2 || value == 8)
		composed, plain = `{"anyOf":[`+part+`,{"type":"string","maxLength":9}]}`, `{"type":"string"}`
	default: // the type is the one of the schema
		v.Assume(value < 2)
		composed = `{"type":"string","allOf":[` + part + `]}`
	}
	v.Cover("same")
	place := v.Choice("place", v.Bound(2, 6))
	if !v.Thorough() {
		place *= 5
	}
	in := func(components, s string) string {
		switch place {
		case 0:
			s = `{"type":"object","properties":{"f":` + s + `}}`
		case 1:
			s = `{"type":"object","required":["f"],"properties":{"f":` + s + `}}`
		case 2:
			s = `{"type":"array","items":` + s + `}`
		case 3:
			s = `{"type":"object","additionalProperties":` + s + `}`
		case 4:
			s = `{"type":"object","properties":{"f":{"type":"array","items":` + s + `}}}`
		}
		return shape(file(document(major, `"schemas":{`+components+`,"whole":`+s+`}`), false), "WholeSchema")
	}
	got := in(components, composed)
	want := v.Memo(version(major)+string(rune('0'+place))+plain, func() string { return in(things, plain) })
	v.Obs("got", got)
	v.Obs("want", want)
	v.Assert(got == want, "a composition of values has their type")
	if plain == `{}` && place == 0 {
		v.Assert(got == "struct{F *interface{} `json:\"f,omitempty\"`}", "alternatives of different types can have any value")
	}
}

// HarnessTraits: a message with traits is the same as one with their fields.
//
// verif: steps=400000000 cover=same
func HarnessTraits() {
	// the matter is either names and requirements, types or the correlation ID
	matter := v.Choice("matter", 3)
	kind := kinds[pick("kind", 6, matter == 1, 1)]
	components, schemas := ``, things
	schema := func(n, s string, byref bool) string {
		if byref {
			schemas += `,"` + n + `":` + s
			return `{"$ref":"#/components/schemas/` + n + `"}`
		}
		return s
	}
	field := "headers"
	if v.Bool("payload") {
		field = "payload"
	}
	var props, required []string
	own := ``
	switch k := v.Choice("own", 3); k {
	case 1, 2: // inline, and by reference
		p := part{"a", "b"}
		if matter == 0 {
			p = anyPart("own")
			v.Assume(p.name == "a" && k == 1)
		}
		props, required = union(props, p.name), union(required, p.required)
		own = `,"` + field + `":` + schema("own", `{`+p.fields(kind)+`}`, k == 2)
	}
	cid := pick("cid", 5, matter == 2, 0)
	where := "header"
	if field == "payload" {
		where = "payload"
	}
	location := `"correlationId":{"location":"$message.` + where + `#/id"}`
	if cid == 1 { // of the message
		own += `,` + location
	}
	traits := ``
	trait := func(n string) {
		p := part{"b", "a"}
		if matter == 0 {
			p = anyPart(n)
		}
		props, required = union(props, p.name), union(required, p.required)
		t := `{"` + field + `":` + schema("trait"+n, `{`+p.fields(kind)+`}`, pick("byref"+n, 2, matter > 0, 0) == 1)
		if n == "one" {
			switch cid {
			case 2: // of the trait
				t += `,` + location
			case 3: // of the trait, by reference
				t += `,"correlationId":{"$ref":"#/components/correlationIds/cid"}`
				components += `,"correlationIds":{"cid":{"location":"$message.` + where + `#/id"}}`
			case 4: // of the trait, but not the one of the message
				t += `,"correlationId":{"location":"$message.` + where + `#/other"}`
				own += `,` + location
			}
		}
		t += `}`
		switch pick("trait"+n, 3, matter == 2, 1) {
		case 1:
			components += `,"messageTraits":{"` + n + `":` + t + `}`
			t = `{"$ref":"#/components/messageTraits/` + n + `"}`
		case 2:
			components += `,"messageTraits":{"` + n + `":` + t + `,"alias":{"$ref":"#/components/messageTraits/` + n + `"}}`
			t = `{"$ref":"#/components/messageTraits/alias"}`
		}
		if traits != `` {
			traits += `,`
		}
		traits += t
	}
	trait("one")
	if pick("second", 2, matter == 0 || v.Thorough(), 0) == 1 {
		p := part{"b", ""}
		props = union(props, "b")
		traits += `,{"` + field + `":{` + p.fields(kind) + `}}`
	}
	base := ``
	if field == "headers" {
		base = `,"payload":{"type":"string"}`
	}
	got := message(`{"name":"n"`+base+own+`,"traits":[`+traits+`]}`, schemas, components)
	plain := `{"name":"n"` + base + `,"` + field + `":{` + fields(props, required, kind) + `}`
	if cid > 0 {
		plain += `,` + location
	}
	plain += `}`
	want := v.Memo(plain, func() string { return message(plain, things, ``) })
	v.Obs("got", got)
	v.Obs("want", want)
	v.Assert(got == want, "a message with traits generates what it generates with their fields")
	v.Cover("same")
}

// HarnessShared: a trait can be shared, and a message can have no payload.
//
// verif: steps=400000000 cover=compiled
func HarnessShared() {
	kind := kinds[1+v.Choice("kind", v.Bound(1, 4))]
	field := "headers"
	if v.Bool("payload") {
		field = "payload"
	}
	var own [2]string
	for i := range own {
		switch v.Choice("own"+string(rune('1'+i)), v.Bound(3-i, 3)) {
		case 1:
			own[i] = `"` + field + `":{` + part{"own", ""}.fields(kind) + `},`
		case 2:
			own[i] = `"` + field + `":{"$ref":"#/components/schemas/thing"},`
		}
	}
	s := `{` + part{"a", "a"}.fields(kind) + `}`
	schemas := things
	if v.Bool("byref") {
		schemas += `,"shared":` + s
		s = `{"$ref":"#/components/schemas/shared"}`
	}
	msg := func(own string) string { return `{` + own + `"traits":[{"$ref":"#/components/messageTraits/t"}]}` }
	components := `{"schemas":{` + schemas + `},"messages":{"m":` + msg(own[0]) + `},"messageTraits":{"t":{"` + field + `":` + s + `}},"operationTraits":{"o":{"description":"something\nelse","tags":[{"name":"tag"}]}}}`
	traits := ``
	if !v.Thorough() || v.Bool("traited") {
		traits = `,"traits":[{"$ref":"#/components/operationTraits/o"}]`
	}
	doc := `{"asyncapi":"3.0.0","info":{"title":"T","version":"1"},"channels":{` +
		`"c":{"address":"app.c","messages":{"m":{"$ref":"#/components/messages/m"}}},"d":{"address":"app.d","messages":{"n":` + msg(own[1]) + `}}},` +
		`"operations":{"oc":{"action":"receive","channel":{"$ref":"#/channels/c"}` + traits + `},"od":{"action":"send","channel":{"$ref":"#/channels/d"}}},"components":` + components + `}`
	compiles(doc)
}

func compiles(doc string) *ast.File {
	s, err := spec.ParseJSON(doc)
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "the document is read")
	src, err := spec.Generate(s, spec.Options{})
	if err != nil {
		v.Obs("refused", err.Error())
	}
	v.Assert(err == nil, "code is generated for a valid specification")
	u := goc.Check(src)
	if len(u.Errors) > 0 {
		v.Obs("errors", u.Errors)
	}
	v.Assert(len(u.Errors) == 0, "the generated code compiles")
	v.Cover("compiled")
	return u.File
}

// HarnessMessages: a message that is one of several can hold any of them.
//
// verif: steps=400000000 cover=compiled
func HarnessMessages() {
	// the matter is either names and requirements, or types and references
	naming := v.Bool("naming")
	kind := kinds[pick("kind", v.Bound(3, 5), !naming, 0)]
	messages := ``
	schemas := things
	var props, required [2][]string
	member := func(n string) string {
		m := `{`
		for i, field := range []string{"payload", "headers"} {
			if i == 1 && pick("headers"+n, 2, naming || n == "one", 0) == 0 {
				continue
			}
			p := part{[]string{"a", "b"}[pick("name"+field+n, 2, naming && n == "two", 0)], ""}
			if pick("required"+field+n, 2, naming && (v.Thorough() || i == 0), 1) == 1 {
				p.required = p.name
			}
			props[i], required[i] = append(props[i], p.name), append(required[i], p.required)
			s := `{` + p.fields(kind) + `}`
			if i == 0 && pick("byref"+n, 2, !naming && (v.Thorough() || n == "one"), 0) == 1 {
				schemas += `,"p` + n + `":` + s
				s = `{"$ref":"#/components/schemas/p` + n + `"}`
			}
			if i == 1 {
				m += `,`
			}
			m += `"` + field + `":` + s
		}
		m += `}`
		switch pick("member"+n, 3, !naming && (v.Thorough() || n == "one"), 0) {
		case 1:
			messages += `,"m` + n + `":` + m
			return `{"$ref":"#/components/messages/m` + n + `"}`
		case 2:
			messages += `,"m` + n + `":` + m + `,"alias` + n + `":{"$ref":"#/components/messages/m` + n + `"}`
			return `{"$ref":"#/components/messages/alias` + n + `"}`
		}
		return m
	}
	whole := `{"oneOf":[` + member("one")
	count := 1
	if naming || v.Bool("several") {
		whole += `,` + member("two")
		count = 2
	}
	whole += `]}`
	doc := func(whole, messages, schemas string) string {
		return `{"asyncapi":"2.6.0","info":{"title":"T","version":"1"},"channels":{"c":{"publish":{"message":{"$ref":"#/components/messages/whole"}}}},"components":{"messages":{"whole":` + whole + messages + `},"schemas":{` + schemas + `}}}`
	}
	var f *ast.File
	if naming {
		f = file(doc(whole, messages, schemas), true)
	} else {
		f = compiles(doc(whole, messages, schemas))
	}
	got := shape(f, "WholeMessage")
	plain := `{`
	for i, field := range []string{"payload", "headers"} {
		if len(props[i]) == 0 {
			continue
		}
		var r []string
		if len(required[i]) == count && required[i][0] == required[i][count-1] {
			r = union(nil, required[i][0])
		}
		if i > 0 {
			plain += `,`
		}
		plain += `"` + field + `":{` + fields(union(nil, props[i]...), r, kind) + `}`
	}
	plain += `}`
	want := v.Memo(plain, func() string { return shape(file(doc(plain, ``, things), false), "WholeMessage") })
	v.Obs("got", got)
	v.Obs("want", want)
	v.Assert(got == want, "a message that is one of several generates what their fields generate")
}

// message is the structure of the type of a message, and the texts of its methods
// about correlation.
func message(msg, schemas, components string) string {
	f := file(`{"asyncapi":"3.0.0","info":{"title":"T","version":"1"},"components":{"messages":{"m":`+msg+`},"schemas":{`+schemas+`}`+components+`}}`, false)
	return shape(f, "MMessage") + method(f, "CorrelationID") + method(f, "SetCorrelationID")
}

// method is what a method is made of.
func method(f *ast.File, name string) string {
	out := "\n" + name
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil || fd.Name.Name != name {
			continue
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				out += " " + namedShape(f, n.Name, nil)
			case *ast.BasicLit:
				out += " " + n.Value
			case *ast.BinaryExpr:
				out += " " + n.Op.String()
			case *ast.UnaryExpr:
				out += " " + n.Op.String()
			case *ast.StarExpr:
				out += " *"
			}
			return true
		})
	}
	return out
}

func main() {
	v.Main(map[string]func(){"HarnessSchemas": HarnessSchemas, "HarnessNames": HarnessNames, "HarnessValues": HarnessValues, "HarnessTraits": HarnessTraits,
		"HarnessShared": HarnessShared, "HarnessMessages": HarnessMessages})
}
