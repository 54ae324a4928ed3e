// Package main checks the Go names, keys and comments made from the names and
// texts of a specification.
package main

import (
	"strings"
	"unicode/utf8"

	templatesv2 "github.com/lerenn/asyncapi-codegen/pkg/codegen/generators/v2/templates"
	templatesv3 "github.com/lerenn/asyncapi-codegen/pkg/codegen/generators/v3/templates"
	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"

	asyncapiv2 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"

	"verifh/v"
)

func letter(b byte) bool { return v.Or(v.And(b >= 'a', b <= 'z'), v.And(b >= 'A', b <= 'Z')) }
func digit(b byte) bool  { return v.And(b >= '0', b <= '9') }

// usable tells that a string can name something exported in Go.
func usable(s string) bool {
	if s == "" {
		return false
	}
	ok := v.And(s[0] >= 'A', s[0] <= 'Z')
	for i := 1; i < len(s); i++ {
		ok = v.And(ok, v.Or(letter(s[i]), digit(s[i])))
	}
	return ok
}

func hasLetter(s string) bool {
	has := false
	for i := 0; i < len(s); i++ {
		has = v.Or(has, letter(s[i]))
	}
	return has
}

// lower lowers ASCII letters only.
func lower(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 'a' - 'A'
	}
	return b
}

// skeleton is the letters and digits, lowered, without the leading digits.
func skeleton(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if letter(s[i]) || (digit(s[i]) && len(out) > 0) {
			out = append(out, lower(s[i]))
		}
	}
	return string(out)
}

var schemes = []string{"none", "camel"}

// HarnessName: any text with a letter becomes a name Go can export, made of its
// letters and digits in order, and naming twice changes nothing.
//
//verif: cover=named,nothing
func HarnessName() {
	k := v.Choice("scheme", 2)
	v.Assert(template.SetNamifyFn(schemes[k]) == nil, "a documented scheme is accepted")
	s := v.StringOf("text", 0, v.Bound(2, 3), "\x00-\x7f")
	n := template.Namify(s)
	if !hasLetter(s) {
		v.Assert(n == "", "nothing can be named after a text without letter")
		v.Cover("nothing")
		return
	}
	v.Assert(usable(n), "the name is an exported Go name")
	v.Assert(skeleton(n) == skeleton(s), "the name is made of the letters and digits of the text, in order")
	if k == 0 {
		v.Assert(template.Namify(n) == n, "naming a name changes nothing")
	}
	v.Cover("named")
}

// HarnessExported: what is an exported Go name already is kept, so that two
// different names stay different.
//
//verif: cover=kept
func HarnessExported() {
	s := v.StringOf("text", 1, v.Bound(2, 3), "a-zA-Z0-9")
	v.Assume(usable(s))
	v.Assert(template.Namify(s) == s, "an exported Go name is kept")
	v.Assert(template.NamifyWithoutParams(s) == s, "an exported Go name is kept")
	v.Cover("kept")
}

var runes = []string{"é", "ß", "ı", "日", "\xff", "𝒳", "É"}

// HarnessUnicode: characters which are not ASCII do not spoil the rest.
//
//verif: cover=named
func HarnessUnicode() {
	v.Assert(template.SetNamifyFn(schemes[v.Choice("scheme", 2)]) == nil, "a documented scheme is accepted")
	r := runes[v.Choice("rune", len(runes))]
	head := v.StringOf("head", 0, 1, "aB1_.")
	mid := v.StringOf("mid", 0, 1, "a_")
	tail := v.StringOf("tail", 0, v.Bound(1, 2), "zY_")
	s := head + r + mid + tail
	n := template.Namify(s)
	if hasLetter(head + mid + tail) {
		v.Assert(usable(n), "the name is an exported Go name")
		if utf8.ValidString(s) && r != "ı" {
			v.Assert(skeleton(n) == skeleton(head+mid+tail), "the name is made of the letters and digits of the text, in order")
		}
		v.Cover("named")
	}
	v.Assert(skeleton(template.Namify(n)) == skeleton(n), "naming a name keeps its letters and digits")
}

// HarnessParams: the name of a channel does not depend on its parameters.
//
//verif: cover=done
func HarnessParams() {
	v.Assert(template.SetNamifyFn(schemes[v.Choice("scheme", 2)]) == nil, "a documented scheme is accepted")
	a := v.StringOf("a", 1, v.Bound(1, 2), "aZ/.")
	b := v.StringOf("b", 0, v.Bound(1, 2), "bY/.")
	p := v.StringOf("p", 0, v.Bound(1, 2), "a-zA-Z0-9_-")
	n := template.NamifyWithoutParams(a + "{" + p + "}" + b)
	v.Assert(n == template.NamifyWithoutParams(a+"{}"+b), "parameters are not part of the name")
	v.Assert(skeleton(n) == skeleton(a+b), "the rest is")
	v.Cover("done")
}

// HarnessComment: a text put after a comment mark stays a comment, whole.
//
//verif: cover=lines,line
func HarnessComment() {
	s := v.StringOf("text", 0, v.Bound(3, 4), "a\n/ ")
	c := "// " + template.MultiLineComment(s)
	lines := strings.Split(c, "\n")
	back := make([]string, len(lines))
	for i, l := range lines {
		v.Assert(strings.HasPrefix(l, "// "), "every line is a comment")
		back[i] = l[3:]
	}
	text := strings.Join(back, "\n")
	v.Assert(text == s || text+"\n" == s, "the text is kept")
	if len(lines) > 1 {
		v.Cover("lines")
	} else {
		v.Cover("line")
	}
}

// HarnessKey: property keys are kept as they are unless a conversion was asked.
//
//verif: cover=none,snake,kebab,camel,unknown
func HarnessKey() {
	s := v.StringOf("key", 0, v.Bound(2, 3), "aZ_-1")
	names := []string{"none", "snake", "kebab", "camel", "lower"}
	name := names[v.Choice("conversion", len(names))]
	err := template.SetConvertKeyFn(name)
	k := template.ConvertKey(s)
	switch name {
	case "lower":
		v.Assert(err != nil, "an unknown conversion is refused")
		v.Assert(k == s, "a refused conversion changes nothing")
		v.Cover("unknown")
	case "none":
		v.Assert(err == nil && k == s, "the key is kept")
		v.Cover("none")
	case "camel":
		v.Assert(err == nil, "a documented conversion is accepted")
		v.Assert(skeletonKey(k) == skeletonKey(s), "the letters and digits are kept")
		for i := 0; i < len(k); i++ {
			v.Assert(v.Or(letter(k[i]), digit(k[i])), "the key is in camel case")
		}
		v.Cover("camel")
	default:
		v.Assert(err == nil, "a documented conversion is accepted")
		v.Assert(skeletonKey(k) == skeletonKey(s), "the letters and digits are kept")
		sep := byte('_')
		if name == "kebab" {
			sep = '-'
		}
		for i := 0; i < len(k); i++ {
			v.Assert(v.Or(v.And(k[i] >= 'a', k[i] <= 'z'), digit(k[i]), k[i] == sep), "the key is in the asked case")
		}
		v.Cover(name)
	}
	v.Assert(template.SetNamifyFn(name) == nil == (name == "none" || name == "camel"), "naming schemes are the documented ones")
}

// skeletonKey is the letters and digits, lowered.
func skeletonKey(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if letter(s[i]) || digit(s[i]) {
			out = append(out, lower(s[i]))
		}
	}
	return string(out)
}

// HarnessLocation: the location of a correlation ID leads to the field
// generated for the header, whatever its name.
//
//verif: cover=done
func HarnessLocation() {
	h := v.StringOf("header", 1, v.Bound(2, 3), "aZ_-1")
	v.Assume(hasLetter(h))
	want := "Headers." + template.Namify(h)
	v.Assert(templatesv3.ReferenceToStructAttributePath("$message.header#/"+h) == want, "the path leads to the header's field")
	v.Assert(templatesv2.ReferenceToStructAttributePath("$message.header#/"+h) == want, "the path leads to the header's field")
	v.Assert(templatesv3.ReferenceToStructAttributePath("$message.payload#/"+h+"/b") == "Payload."+template.Namify(h)+".B", "the path leads to the property's field")
	v.Cover("done")
}

// HarnessOperationName: v2 operations are named after their identifier, else
// after their channel.
//
//verif: cover=id,channel
func HarnessOperationName() {
	name := v.StringOf("name", 1, 2, "aZ.")
	id := v.StringOf("id", 0, 2, "bY_")
	ch := asyncapiv2.Channel{Name: name}
	op := &asyncapiv2.Operation{OperationID: id}
	if v.Bool("publish") {
		ch.Publish = op
	} else {
		ch.Subscribe = op
	}
	n := templatesv2.OperationName(ch)
	if id != "" {
		v.Assert(n == template.Namify(id), "the operation is named after its identifier")
		v.Cover("id")
	} else {
		v.Assert(n == template.Namify(name), "the operation is named after its channel")
		v.Cover("channel")
	}
}

func main() { v.Main(map[string]func(){
		"HarnessName": HarnessName, "HarnessExported": HarnessExported, "HarnessUnicode": HarnessUnicode, "HarnessParams": HarnessParams, "HarnessComment": HarnessComment, "HarnessKey": HarnessKey, "HarnessLocation": HarnessLocation, "HarnessOperationName": HarnessOperationName,
	}) }
