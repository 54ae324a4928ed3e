// Package main checks the command line: its flags, and what it writes.
package main

import (
	"errors"
	"os"

	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen/options"

	"verifh/gen/cli"
	"verifh/goc"
	"verifh/v"
)

const doc = `{"asyncapi":"3.0.0","info":{"title":"T","version":"1"},"channels":{"c":{"address":"a","messages":{"m":{"payload":{"type":"object","properties":{"some key":{"type":"string","format":"date"}}}}}},"d":{"address":"d","messages":{"m":{"payload":{"type":"string"}}}}},"operations":{"o":{"action":"receive","channel":{"$ref":"#/channels/c"}},"p":{"action":"send","channel":{"$ref":"#/channels/d"}}}}`

const doc2 = `{"asyncapi":"2.6.0","info":{"title":"T","version":"1"},"channels":{"c":{"publish":{"message":{"payload":{"type":"object","properties":{"some key":{"type":"string","format":"date"}}}}}},"d":{"subscribe":{"message":{"payload":{"type":"string"}}}}}}`

// HarnessParts: exactly the parts that are asked for are generated.
//
// verif: steps=400000000 cover=refused,accepted
func HarnessParts() {
	words := []string{"application", "user", "types", "", "type", "Types", " types", "client", "none", "all"}
	n := v.Choice("n", v.Bound(4, 5))
	list := ""
	var app, user, types, wrong bool
	for i := 0; i < n; i++ {
		w := words[v.Choice("word"+string(rune('0'+i)), len(words))]
		if i > 0 {
			list += ","
		}
		list += w
		switch w {
		case "application":
			app = true
		case "user":
			user = true
		case "types":
			types = true
		case "":
			wrong = wrong || n > 1
		default:
			wrong = true
		}
	}
	o, err := cli.Flags{Generate: list}.ToCodegenOptions()
	if wrong {
		v.Assert(errors.Is(err, cli.ErrInvalidGenerate), "an unknown part is refused")
		v.Cover("refused")
		return
	}
	v.Assert(err == nil, "the parts are accepted")
	v.Assert(o.Generate.Application == app && o.Generate.User == user && o.Generate.Types == types, "the parts are the ones of the command line")
	v.Cover("accepted")
}

// HarnessWord: a part has to be written exactly.
//
// verif: steps=400000000 cover=refused,accepted
func HarnessWord() {
	w := v.StringOf("word", 1, v.Bound(11, 12), " !#-+--[]-~")
	o, err := cli.Flags{Generate: "types," + w}.ToCodegenOptions()
	switch w {
	case "application", "user", "types":
		v.Assert(err == nil && o.Generate.Types && o.Generate.Application == (w == "application") && o.Generate.User == (w == "user"), "the part is chosen")
		v.Cover("accepted")
	default:
		v.Assert(errors.Is(err, cli.ErrInvalidGenerate), "an unknown part is refused")
		v.Cover("refused")
	}
}

// HarnessFlags: each flag reaches the generator as it is.
//
// verif: steps=400000000 cover=checked
func HarnessFlags() {
	text := func(n string) string { return v.StringOf(n, 0, v.Bound(2, 4), " -~") }
	f := cli.Flags{
		InputPaths: []string{"a"}, OutputPath: text("output"), PackageName: text("package"), Generate: "types",
		DisableFormatting: v.Bool("raw"), ConvertKeys: text("keys"), NamingScheme: text("naming"),
		IgnoreStringFormat: v.Bool("strings"), ForcePointers: v.Bool("pointers"),
	}
	o, err := f.ToCodegenOptions()
	v.Assert(err == nil, "the flags are accepted")
	v.Assert(o.OutputPath == f.OutputPath && o.PackageName == f.PackageName, "the names are the ones of the command line")
	v.Assert(o.DisableFormatting == f.DisableFormatting && o.IgnoreStringFormat == f.IgnoreStringFormat && o.ForcePointers == f.ForcePointers, "the switches are the ones of the command line")
	v.Assert(o.ConvertKeys == f.ConvertKeys && o.NamingScheme == f.NamingScheme, "the schemes are the ones of the command line")
	v.Cover("checked")
}

// from reads one of the documents, or one that cannot be generated.
func from(dir string, n int) codegen.CodeGen {
	d := []string{doc, doc2,
		`{"asyncapi":"3.0.0","info":{"title":"T","version":"1"},"components":{"schemas":{"s":{"$ref":"#/components/schemas/none"}}}}`,
		`{"asyncapi":"2.6.0","info":{"title":"T","version":"1"},"channels":{"c":{"publish":{"message":{"$ref":"#/components/messages/none"}}}}}`,
		`{"asyncapi":"3.0.0","info":{"title":"T","version":"1"},"channels":{"c":{"address":"a"}},"operations":{"o":{"action":"receive","channel":{"$ref":"#/channels/c"}}}}`,
		`{"asyncapi":"3.0.0","info":{"title":"T","version":"1"},"components":{"schemas":{"a":{"type":"string","x-go-type":"x.Y","x-go-type-import":{"path":"p","name":"x"}},"b":{"type":"string","x-go-type":"z.Y","x-go-type-import":{"path":"p","name":"z"}}}}}`,
	}[n]
	if err := os.WriteFile(dir+"/spec.json", []byte(d), 0o600); err != nil {
		v.Fail("cannot write")
	}
	cg, err := codegen.FromFile(dir + "/spec.json")
	v.Assert(err == nil, "the specification is read")
	return cg
}

// HarnessOutput: the output file holds the parts that are asked for, and a
// generation that fails leaves it as it was.
//
// verif: steps=400000000 cover=failed,generated,scheme
func HarnessOutput() {
	dir := v.Dir()
	n := v.Choice("doc", 6)
	cg := from(dir, n)
	out := dir + "/out.go"
	const before = "package before\n"
	if err := os.WriteFile(out, []byte(before), 0o600); err != nil {
		v.Fail("cannot write")
	}
	o := options.Options{OutputPath: out, PackageName: "gen" + v.StringOf("package", 0, 2, "a-z"), DisableFormatting: true, ConvertKeys: "none", NamingScheme: "none"}
	schemes := map[string]bool{"snake": true, "camel": true, "kebab": true, "none": true}
	fails := n > 1
	switch v.Choice("scheme", 3) {
	case 1:
		o.ConvertKeys = v.StringOf("keys", 0, 5, "a-z")
		fails = fails || !schemes[o.ConvertKeys]
		v.Cover("scheme")
	case 2:
		o.NamingScheme = v.StringOf("naming", 0, 5, "a-z")
		fails = fails || o.NamingScheme != "camel" && o.NamingScheme != "none"
	}
	o.Generate = options.GeneratorOptions{Application: v.Bool("app"), User: v.Bool("user"), Types: v.Bool("types")}
	if n > 1 {
		// Only parts that are generated can fail
		o.Generate = options.GeneratorOptions{Application: true, User: true, Types: true}
	}
	err := cg.Generate(o)
	b, rerr := os.ReadFile(out)
	v.Assert(rerr == nil, "the output file is there")
	if fails {
		v.Assert(err != nil, "what cannot be generated is an error")
		v.Assert(string(b) == before, "a generation that fails leaves the file as it was")
		v.Cover("failed")
		return
	}
	v.Assert(err == nil, "the code is generated")
	f, err := goc.Parse(string(b))
	v.Assert(err == nil, "the file is complete")
	v.Assert(f.Name.Name == o.PackageName, "the package has the name that is asked for")
	names := goc.Declared(f)
	has := func(n string) bool { _, ok := names[n]; return ok }
	v.Assert(has("AppController") == o.Generate.Application && has("AppSubscriber") == o.Generate.Application, "the application is there when it is asked for")
	v.Assert(has("UserController") == o.Generate.User, "the user is there when it is asked for")
	v.Assert(has("AsyncAPIVersion") == o.Generate.Types && has("ChannelsPaths") == o.Generate.Types && has("Error") == o.Generate.Types, "the types are there when they are asked for")
	v.Cover("generated")
}

func main() {
	v.Main(map[string]func(){"HarnessParts": HarnessParts, "HarnessWord": HarnessWord, "HarnessFlags": HarnessFlags, "HarnessOutput": HarnessOutput})
}
