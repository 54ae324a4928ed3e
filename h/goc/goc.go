// Package goc compiles generated code, as far as types go: it parses and
// type-checks a Go file against the library's own extensions package and the
// declarations of the few other packages generated code uses.
package goc

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"verifh/gen/ext"
)

// stubs declare what generated code and the extensions package use from others.
var stubs = map[string]string{
	"errors": `package errors
func New(text string) error { return nil }
func Is(err, target error) bool { return false }
func As(err error, target any) bool { return false }
`,
	"fmt": `package fmt
func Errorf(format string, a ...any) error { return nil }
func Sprintf(format string, a ...any) string { return "" }
func Sprint(a ...any) string { return "" }
`,
	"sync": `package sync
type Mutex struct{}
func (m *Mutex) Lock() {}
func (m *Mutex) Unlock() {}
type RWMutex struct{}
func (m *RWMutex) Lock() {}
func (m *RWMutex) Unlock() {}
func (m *RWMutex) RLock() {}
func (m *RWMutex) RUnlock() {}
type Once struct{}
func (o *Once) Do(f func()) {}
type WaitGroup struct{}
func (w *WaitGroup) Add(n int) {}
func (w *WaitGroup) Done() {}
func (w *WaitGroup) Wait() {}
`,
	"time": `package time
const RFC3339 = "2006-01-02T15:04:05Z07:00"
const RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
const DateOnly = "2006-01-02"
type Duration int64
const Second Duration = 1
type Time struct { w uint64 }
func (t Time) Format(layout string) string { return "" }
func (t Time) MarshalJSON() ([]byte, error) { return nil, nil }
func (t *Time) UnmarshalJSON(data []byte) error { return nil }
func Parse(layout, value string) (Time, error) { return Time{}, nil }
func Now() Time { return Time{} }
func After(d Duration) <-chan Time { return nil }
`,
	"context": `package context
import "time"
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() <-chan struct{}
	Err() error
	Value(key any) any
}
type CancelFunc func()
func Background() Context { return nil }
func WithCancel(parent Context) (ctx Context, cancel CancelFunc) { return nil, nil }
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) { return nil, nil }
func WithValue(parent Context, key, val any) Context { return nil }
func WithoutCancel(parent Context) Context { return nil }
`,
	"encoding/json": `package json
type Number string
type RawMessage []byte
func Marshal(v any) ([]byte, error) { return nil, nil }
func Unmarshal(data []byte, v any) error { return nil }
`,
	"encoding/binary": `package binary
type bigEndian struct{}
func (bigEndian) Uint32(b []byte) uint32 { return 0 }
func (bigEndian) Uint64(b []byte) uint64 { return 0 }
func (bigEndian) PutUint32(b []byte, v uint32) {}
func (bigEndian) PutUint64(b []byte, v uint64) {}
var BigEndian bigEndian
`,
	"math": `package math
func Float32frombits(b uint32) float32 { return 0 }
func Float64frombits(b uint64) float64 { return 0 }
func Float32bits(f float32) uint32 { return 0 }
func Float64bits(f float64) uint64 { return 0 }
`,
	"strings": `package strings
func Contains(s, t string) bool { return false }
`,
	"strconv": `package strconv
func Quote(s string) string { return "" }
`,
	"github.com/google/uuid": `package uuid
type UUID [16]byte
func (u UUID) String() string { return "" }
func New() UUID { return UUID{} }
`,
	"cloud.google.com/go/civil": `package civil
type Date struct { Year int }
func (d Date) String() string { return "" }
func ParseDate(s string) (Date, error) { return Date{}, nil }
`,
}

const extPath = "github.com/lerenn/asyncapi-codegen/pkg/extensions"

// Unit is a checked file.
type Unit struct {
	File   *ast.File
	Pkg    *types.Package
	Errors []string
}

type importer struct {
	fset  *token.FileSet
	extra map[string]string
	done  map[string]*types.Package
}

var errNoPackage = errors.New("no such package")

func (im *importer) Import(path string) (*types.Package, error) {
	if p := im.done[path]; p != nil {
		return p, nil
	}
	srcs := map[string]string{}
	if path == extPath {
		es, err := ext.Files.ReadDir(".")
		if err != nil {
			return nil, err
		}
		for _, e := range es {
			b, err := ext.Files.ReadFile(e.Name())
			if err != nil {
				return nil, err
			}
			srcs[e.Name()] = string(b)
		}
	} else if s, ok := stubs[path]; ok {
		srcs["stub.go"] = s
	} else if s, ok := im.extra[path]; ok {
		srcs["stub.go"] = s
	} else {
		return nil, errNoPackage
	}
	var files []*ast.File
	for n, s := range srcs {
		f, err := parser.ParseFile(im.fset, n, s, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	conf := types.Config{Importer: im, IgnoreFuncBodies: true, Error: func(error) {}}
	p, err := conf.Check(path, im.fset, files, nil)
	if err != nil {
		return nil, err
	}
	im.done[path] = p
	return p, nil
}

// Check compiles a generated file. An import the file does not use is no
// error: the generator removes it when it formats the file.
func Check(src string) Unit { return CheckWith(src, nil) }

// CheckWith compiles a generated file with the sources of other packages.
func CheckWith(src string, extra map[string]string) Unit {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, parser.SkipObjectResolution)
	if err != nil {
		return Unit{Errors: []string{err.Error()}}
	}
	u := Unit{File: f}
	conf := types.Config{Importer: &importer{fset, extra, map[string]*types.Package{}}, Error: func(err error) {
		if m := err.Error(); !strings.HasSuffix(m, "imported and not used") {
			u.Errors = append(u.Errors, m)
		}
	}}
	u.Pkg, _ = conf.Check("gen", fset, []*ast.File{f}, nil)
	return u
}

// Parse parses a generated file.
func Parse(src string) (*ast.File, error) {
	return parser.ParseFile(token.NewFileSet(), "gen.go", src, parser.SkipObjectResolution)
}

// Fields are the types of the fields of structures, by JSON key.
func Fields(f *ast.File) map[string][]string {
	fs := map[string][]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.StructType)
		if !ok {
			return true
		}
		for _, field := range s.Fields.List {
			if field.Tag == nil {
				continue
			}
			_, key, found := strings.Cut(field.Tag.Value, `json:"`)
			if !found {
				continue
			}
			if i := strings.IndexAny(key, `",`); i >= 0 {
				key = key[:i]
			}
			fs[key] = append(fs[key], types.ExprString(field.Type))
		}
		return true
	})
	return fs
}

// Imports are the names of the imports, by path.
func Imports(f *ast.File) map[string][]string {
	is := map[string][]string{}
	for _, i := range f.Imports {
		name := ""
		if i.Name != nil {
			name = i.Name.Name
		}
		path := strings.Trim(i.Path.Value, `"`)
		is[path] = append(is[path], name)
	}
	return is
}

// Methods are the signatures of the exported methods of a type, by name. For an
// interface they are its own.
func Methods(f *ast.File, typ string) map[string]string {
	ms := map[string]string{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil || !d.Name.IsExported() {
				continue
			}
			t := d.Recv.List[0].Type
			if p, ok := t.(*ast.StarExpr); ok {
				t = p.X
			}
			if id, ok := t.(*ast.Ident); ok && id.Name == typ {
				ms[d.Name.Name] = types.ExprString(d.Type)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				ts, ok := s.(*ast.TypeSpec)
				if !ok || ts.Name.Name != typ {
					continue
				}
				it, ok := ts.Type.(*ast.InterfaceType)
				if !ok {
					continue
				}
				for _, m := range it.Methods.List {
					for _, n := range m.Names {
						ms[n.Name] = types.ExprString(m.Type)
					}
				}
			}
		}
	}
	return ms
}

// Declared are the names of the types, functions, constants and variables
// declared by a file, with the values of the ones that are literals.
func Declared(f *ast.File) map[string]string {
	ns := map[string]string{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				ns[d.Name.Name] = ""
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					ns[s.Name.Name] = ""
				case *ast.ValueSpec:
					for i, n := range s.Names {
						ns[n.Name] = ""
						if i < len(s.Values) {
							ns[n.Name] = types.ExprString(s.Values[i])
						}
					}
				}
			}
		}
	}
	return ns
}
