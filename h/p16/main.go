// Package main checks that generated types represent the schemas of the
// specification, and that their tags accept what the schemas do.
package main

import (
	"go/ast"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/go-playground/validator/v10"

	"verifh/goc"
	"verifh/spec"
	"verifh/v"
)

// field is a field of a generated structure.
type field struct {
	typ string
	tag reflect.StructTag
}

// fields are the fields of a generated structure, by name.
func fields(f *ast.File, name string) map[string]field {
	fs := map[string]field{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			ts, ok := s.(*ast.TypeSpec)
			if !ok || ts.Name.Name != name {
				continue
			}
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				continue
			}
			for _, x := range st.Fields.List {
				for _, n := range x.Names {
					fd := field{typ: types.ExprString(x.Type)}
					if x.Tag != nil {
						t, err := strconv.Unquote(x.Tag.Value)
						v.Assert(err == nil, "a tag is a Go string")
						fd.tag = reflect.StructTag(t)
					}
					fs[n.Name] = fd
				}
			}
		}
	}
	return fs
}

// generate generates the types of schemas.
func generate(three bool, schemas string, o spec.Options) (*ast.File, map[string]string) {
	doc := `{"asyncapi":"2.6.0","info":{"title":"T","version":"1"},"components":{"schemas":{` + schemas + `}}}`
	if three {
		doc = `{"asyncapi":"3.0.0","info":{"title":"T","version":"1"},"components":{"schemas":{` + schemas + `}}}`
	}
	s, err := spec.ParseJSON(doc)
	v.Assert(err == nil, "the document is read")
	o.NoApp, o.NoUser = true, true
	src, err := spec.Generate(s, o)
	v.Assert(err == nil, "types are generated")
	f, err := goc.Parse(src)
	v.Assert(err == nil, "the generated code is parsed")
	return f, declared(f)
}

// use is how the property is used.
type use struct{ three, required, force bool }

// anyUse is any use, in thorough mode, and a few ones otherwise.
func anyUse() use {
	if v.Thorough() {
		return use{v.Bool("v3"), v.Bool("required"), v.Bool("force")}
	}
	return []use{{false, false, false}, {true, true, false}, {true, true, true}}[v.Choice("use", 3)]
}

// only is the field generated for the only property, f, of a structure.
func only(schema string, u use) field {
	req := ``
	if u.required {
		req = `"required":["f"],`
	}
	schemas := `"thing":{"type":"object",` + req + `"properties":{"f":` + schema + `}}`
	key := schemas
	if u.three {
		key = "3" + key
	}
	if u.force {
		key = "f" + key
	}
	out := v.Memo(key, func() string {
		file, _ := generate(u.three, schemas, spec.Options{ForcePointers: u.force})
		fs := fields(file, "ThingSchema")
		f, ok := fs["F"]
		v.Assert(ok && len(fs) == 1, "the property has a field")
		return f.typ + "\n" + string(f.tag)
	})
	typ, tag, _ := strings.Cut(out, "\n")
	f := field{typ, reflect.StructTag(tag)}
	json := "f,omitempty"
	if u.required {
		json = "f"
	}
	v.Assert(f.tag.Get("json") == json, "a field is omitted when empty if, and only if, it is optional")
	return f
}

// valid tells whether a value is accepted by the tag of a field.
func valid(x any, f field) bool {
	tag, ok := f.tag.Lookup("validate")
	if !ok {
		return true
	}
	return validator.New().Var(x, tag) == nil
}

// check checks the verdict on a value, or on its absence.
func check[T any](f field, x T, required, good bool) {
	if v.Bool("absent") {
		if strings.HasPrefix(f.typ, "*") {
			v.Assert(valid((*T)(nil), f) == !required, "an absent value is accepted if it is optional")
			v.Cover("absent")
		}
		return
	}
	var ok bool
	if strings.HasPrefix(f.typ, "*") {
		ok = valid(&x, f)
	} else {
		ok = valid(x, f)
	}
	v.Assert(ok == good, "a value is accepted if it satisfies the schema")
	v.Cover("checked")
}

var limits = []string{"-3", "-0.5", "0", "0.5", "2", "7.25", "1000000", "-1234567", "3e9", "9223372036854775807"}
var limitValues = []float64{-3, -0.5, 0, 0.5, 2, 7.25, 1000000, -1234567, 3e9, 9223372036854775807}

// HarnessLimits: a number is accepted if and only if it is within the limits of
// its schema.
//
// verif: steps=400000000 cover=checked,absent
func HarnessLimits() {
	u := anyUse()
	kind := v.Choice("kind", 4)
	keys := []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"}
	schema := []string{`{"type":"integer"`, `{"type":"integer","format":"int32"`, `{"type":"number"`, `{"type":"number","format":"float"`}[kind]
	var chosen [4]int
	switch v.Choice("limited", v.Bound(2, 3)) {
	case 0:
		chosen[v.Choice("key", 4)] = 1 + v.Choice("limit", len(limits))
	case 1: // both sides
		chosen[2*v.Choice("exclusiveLow", 2)] = 1 + 2*v.Choice("low", 2)
		chosen[1+2*v.Choice("exclusiveHigh", 2)] = 5 + 2*v.Choice("high", 2)
	case 2: // both kinds of limits
		chosen[0], chosen[2] = 1+v.Choice("low", 5), 1+v.Choice("exclusiveLow", 5)
	}
	for i, c := range chosen {
		if c > 0 {
			schema += `,"` + keys[i] + `":` + limits[c-1]
		}
	}
	f := only(schema+`}`, u)
	v.Obs("tag", string(f.tag))
	within := func(ok func(key int, limit float64) bool) bool {
		all := true
		for i, c := range chosen {
			if c > 0 {
				all = v.And(all, ok(i, limitValues[c-1]))
			}
		}
		return all
	}
	integer := func(x int64) bool {
		return within(func(key int, l float64) bool {
			low, high := math.MinInt64, math.MaxInt64 // the integers around the limit
			if l < math.MaxInt64 {
				low, high = int(math.Floor(l)), int(math.Ceil(l))
			}
			switch key {
			case 0:
				return v.And(l < math.MaxInt64, x >= int64(high))
			case 1:
				return v.Or(l >= math.MaxInt64, x <= int64(low))
			case 2:
				return v.And(l < math.MaxInt64, x > int64(low))
			}
			return v.Or(l >= math.MaxInt64, x < int64(high))
		})
	}
	number := func(x float64) bool {
		return within(func(key int, l float64) bool {
			switch key {
			case 0:
				return x >= l
			case 1:
				return x <= l
			case 2:
				return x > l
			}
			return x < l
		})
	}
	switch strings.TrimPrefix(f.typ, "*") {
	case "int64":
		x := v.Int64("x")
		v.Assume(x != math.MaxInt64)
		check(f, x, u.required, integer(x))
	case "int32":
		x := v.Int32("x")
		check(f, x, u.required, integer(int64(x)))
	case "float64":
		x := v.Float64("x")
		v.Assume(x == x)
		check(f, x, u.required, number(x))
	case "float32":
		x := []float32{-1234567, -3, -2.5, -0.5, 0, 0.25, 0.5, 1, 2, 3.5, 7.25, 8, 999999, 1000000, 3e9, 1e20}[v.Choice("x", 16)]
		check(f, x, u.required, number(float64(x)))
	default:
		v.Fail("unexpected type " + f.typ)
	}
}

// HarnessLengths: a text is accepted if and only if its length is within the
// limits of its schema.
//
// verif: steps=400000000 cover=checked,absent
func HarnessLengths() {
	u := anyUse()
	lengths := []int{-1, 0, 1, 3, 1000000, 4000000000}
	low, high := lengths[v.Choice("minLength", 6)], lengths[v.Choice("maxLength", 6)]
	schema := `{"type":"string"`
	if low >= 0 {
		schema += `,"minLength":` + strconv.Itoa(low)
	}
	if high >= 0 {
		schema += `,"maxLength":` + strconv.Itoa(high)
	}
	f := only(schema+`}`, u)
	v.Obs("tag", string(f.tag))
	s := v.StringOf("s", 0, v.Bound(3, 4), "a\xc3\xa9")
	n := utf8.RuneCountInString(s)
	check(f, s, u.required, n >= low && (high < 0 || n <= high))
}

const odd = "a,|' \"\\\\`"

// HarnessTexts: a text is accepted if and only if it is one of those of the
// enumeration of its schema, or its constant.
//
// verif: steps=400000000 cover=checked,absent
func HarnessTexts() {
	u := anyUse()
	if v.Bool("const") {
		a, s := v.StringOf("a", 0, 2, odd), v.StringOf("s", 0, 2, odd)
		f := only(`{"type":"string","const":`+spec.Quote(a)+`}`, u)
		check(f, s, u.required, s == a)
		return
	}
	n := v.Bound(1, 2)
	a, b, s := v.StringOf("a", 0, n, odd), v.StringOf("b", 0, 1, odd), v.StringOf("s", 0, n, odd)
	v.Assume(a != b)
	f := only(`{"type":"string","enum":[`+spec.Quote(a)+`,`+spec.Quote(b)+`]}`, u)
	check(f, s, u.required, v.Or(s == a, s == b))
}

// HarnessUnique: a list is accepted if and only if it has no duplicate.
//
// verif: steps=400000000 cover=checked
func HarnessUnique() {
	u, unique := anyUse(), v.Bool("unique")
	schema := `{"type":"array","items":{"type":"string"}`
	if unique {
		schema += `,"uniqueItems":true`
	}
	f := only(schema+`}`, u)
	v.Assert(f.typ == "[]string", "a list is a slice")
	if v.Bool("none") {
		v.Assert(valid([]string(nil), f) == !u.required, "an absent list is accepted if it is optional")
		return
	}
	l := make([]string, v.Choice("n", 4))
	for i := range l {
		l[i] = v.StringOf("l", 1, 1, "abc")
	}
	twice := false
	for i := range l {
		for j := 0; j < i; j++ {
			twice = v.Or(twice, l[i] == l[j])
		}
	}
	v.Assert(valid(l, f) == !v.And(unique, twice), "a list is accepted if it satisfies the schema")
	v.Cover("checked")
}

// declared is the definition of the types declared by a file, by name.
func declared(f *ast.File) map[string]string {
	ts := map[string]string{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok {
			for _, s := range g.Specs {
				if t, ok := s.(*ast.TypeSpec); ok {
					ts[t.Name.Name] = types.ExprString(t.Type)
					if _, ok := t.Type.(*ast.StructType); ok {
						ts[t.Name.Name] = "struct"
					}
				}
			}
		}
	}
	return ts
}

// resolve replaces the declared types in a type.
func resolve(typ string, ts map[string]string) string {
	base := strings.TrimLeft(typ, "[]*")
	if t, ok := ts[base]; ok {
		return typ[:len(typ)-len(base)] + resolve(t, ts)
	}
	return typ
}

// kind is a schema and the type it stands for.
type kind struct{ schema, typ, noFormat string }

func components(name string) string { return `{"$ref":"#/components/schemas/` + name + `"}` }

var kinds = []kind{
	{`{"type":"string"}`, "string", ""},
	{`{"type":"string","format":"date"}`, "civil.Date", "string"},
	{`{"type":"string","format":"date-time"}`, "time.Time", "string"},
	{`{"type":"string","format":"email"}`, "string", ""},
	{`{"type":"integer"}`, "int64", ""},
	{`{"type":"integer","format":"int32"}`, "int32", ""},
	{`{"type":"integer","format":"int64"}`, "int64", ""},
	{`{"type":"number"}`, "float64", ""},
	{`{"type":"number","format":"float"}`, "float32", ""},
	{`{"type":"number","format":"double"}`, "float64", ""},
	{`{"type":"boolean"}`, "bool", ""},
	{`{"type":"object","properties":{"x":{"type":"string"}}}`, "struct", ""},
	{`{"type":"array","items":{"type":"string"}}`, "[]string", ""},
	{`{"type":"array","items":{"type":"array","items":{"type":"integer","format":"int32"}}}`, "[][]int32", ""},
	{`{"type":"array","items":{"type":"object","properties":{"x":{"type":"string"}}}}`, "[]struct", ""},
	{`{"type":"array","items":{"type":"string","format":"date"}}`, "[]civil.Date", "[]string"},
	{components("text"), "string", ""},
	{components("day"), "civil.Date", "string"},
	{components("count"), "int32", ""},
	{components("other"), "struct", ""},
	{components("list"), "[]string", ""},
	{components("alias"), "struct", ""},
	{components("other/properties/needed"), "string", ""},
	{components("other/properties/optional"), "string", ""},
	{components("other/properties/omitted"), "string", ""},
	{components("other/properties/kept"), "string", ""},
	{components("other/properties/inner"), "struct", ""},
	{components("text") + `,`, "string", ""}, // see below
	{`{"type":"integer","x-go-type":"uint8"}`, "uint8", ""},
	{`{"type":"object","x-go-type":"map[string]int"}`, "map[string]int", ""},
	{`{"type":"array","items":` + components("other") + `}`, "[]struct", ""},
	{`{"type":"array","items":` + components("text") + `}`, "[]string", ""},
	{`{"allOf":[` + components("other") + `,{"type":"object","properties":{"y":{"type":"string"}}}]}`, "struct", ""},
}

const around = `,"text":{"type":"string"},"day":{"type":"string","format":"date"},"count":{"type":"integer","format":"int32"},"list":{"type":"array","items":{"type":"string"}},"alias":{"$ref":"#/components/schemas/other"},
"other":{"type":"object","required":["needed","omitted"],"properties":{"needed":{"type":"string"},"optional":{"type":"string"},"omitted":{"type":"string","x-omitempty":true},"kept":{"type":"string","x-omitempty":false},"inner":{"type":"object","required":["z"],"properties":{"z":{"type":"string"}}}}}`

// HarnessFields: the field of a property has the type of its schema, is a
// pointer if and only if the property is optional, and has its key.
//
// verif: steps=400000000 cover=pointer,value
func HarnessFields() {
	k := kinds[v.Choice("kind", len(kinds))]
	three, required := v.Bool("v3"), v.Bool("required")
	omit := v.Choice("omitempty", 3)
	var o spec.Options
	switch v.Choice("option", 6) {
	case 1:
		o.ForcePointers = true
	case 2:
		o.IgnoreStringFormat = true
	case 3:
		o.Convert = "snake"
	case 4:
		o.Convert = "kebab"
	case 5:
		o.Convert = "camel"
	}
	schema := strings.TrimSuffix(k.schema, ",")
	if omit > 0 {
		schema = schema[:len(schema)-1] + `,"x-omitempty":` + strconv.FormatBool(omit == 2) + `}`
	}
	req := ``
	if required {
		req = `"required":["someKey"],`
	}
	schemas := `"thing":{"type":"object",` + req + `"properties":{"someKey":` + schema + `}}` + around
	v.Obs("schema", schema)
	f, ts := generate(three, schemas, o)
	fs := fields(f, "ThingSchema")
	v.Assert(len(fs) == 1, "the structure has the field of its property")
	fd, ok := fs["SomeKey"]
	v.Assert(ok, "the field has the name of its property")
	pointer := strings.HasPrefix(fd.typ, "*")
	got := resolve(strings.TrimPrefix(fd.typ, "*"), ts)
	want := k.typ
	if o.IgnoreStringFormat && k.noFormat != "" {
		want = k.noFormat
	}
	v.Obs("type", got)
	v.Assert(got == want, "the field has the type of the schema")
	if strings.HasPrefix(want, "[]") {
		v.Assert(!required || !pointer || o.ForcePointers, "a required list is no pointer")
	} else {
		v.Assert(pointer == (!required || o.ForcePointers), "the field is a pointer if and only if the property is optional")
	}
	if pointer {
		v.Cover("pointer")
	} else {
		v.Cover("value")
	}
	key := "someKey"
	switch o.Convert {
	case "snake":
		key = "some_key"
	case "kebab":
		key = "some-key"
	case "camel":
		key = "SomeKey"
	}
	if omit == 2 || omit == 0 && !required {
		key += ",omitempty"
	}
	v.Obs("tag", string(fd.tag))
	if strings.Contains(k.schema, "other/properties") && omit == 0 {
		key, _, _ = strings.Cut(key, ",") // x-omitempty may come from the other property
		got, _, _ := strings.Cut(fd.tag.Get("json"), ",")
		v.Assert(got == key, "the field has the key of its property")
		return
	}
	v.Assert(fd.tag.Get("json") == key, "the field has the key of its property")
}

func main() {
	v.Main(map[string]func(){"HarnessFields": HarnessFields, "HarnessLimits": HarnessLimits, "HarnessLengths": HarnessLengths, "HarnessTexts": HarnessTexts, "HarnessUnique": HarnessUnique})
}
