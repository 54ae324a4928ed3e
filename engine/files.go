package main

import (
	"go/types"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Files live in memory for the time of a path: a map from cleaned names to
// contents, and the files opened on it. Directories are not modelled: any name
// can be created, and creating a directory always succeeds.

type openFile struct {
	name   string
	pos    int
	append bool
	closed bool
}

// osGlobal gives the error variables of os, whose initialisation is not run.
func (m *Machine) osGlobal(g *ssa.Global) Ptr {
	if g.Pkg == nil || g.Pkg.Pkg.Path() != "os" || !strings.HasPrefix(g.Name(), "Err") {
		return nil
	}
	if fs := m.eng.byPath["io/fs"]; fs != nil {
		if o := fs.Var(g.Name()); o != nil {
			return m.global(o)
		}
	}
	return nil
}

func (m *Machine) pathError(op, name, what string) Value {
	fs := m.eng.byPath["io/fs"]
	if fs != nil && fs.Var(what) != nil {
		t := fs.Type("PathError").Type()
		v := zero(t)
		st := v.(Struct)
		st[0], st[1], st[2] = &Str{s: op}, &Str{s: name}, *m.global(fs.Var(what))
		return Iface{T: types.NewPointer(t), V: Ptr(&v)}
	}
	return m.callHost(&Closure{fn: m.eng.stdFunc("errors", "New")}, &Str{s: op + " " + name + ": " + what})
}

func (m *Machine) newFile(name string, app bool) Ptr {
	v := zero(m.eng.byPath["os"].Type("File").Type())
	p := Ptr(&v)
	m.opened[p] = &openFile{name: name, append: app}
	return p
}

func regFiles(reg func(string, func(m *Machine, fr *Frame, a []Value) Value), bytesOfValue func(Value) []*Term) {
	nilErr := Iface{}
	content := func(m *Machine, n string) []Value {
		s, _ := m.files[n].(*Slice)
		if s == nil {
			return nil
		}
		return s.arr
	}
	name := func(m *Machine, v Value) string { return filepath.Clean(m.strArg(v)) }
	reg("os.ReadFile", func(m *Machine, fr *Frame, a []Value) Value {
		b, ok := m.files[name(m, a[0])]
		if !ok {
			return Tuple{nilSlice, m.pathError("open", m.strArg(a[0]), "ErrNotExist")}
		}
		return Tuple{copySlice(b.(*Slice)), nilErr}
	})
	reg("os.WriteFile", func(m *Machine, fr *Frame, a []Value) Value {
		m.files[name(m, a[0])] = copySlice(a[1].(*Slice))
		return nilErr
	})
	open := func(m *Machine, n Value, flag int64) Value {
		const creat, excl, trunc, app = 0x40, 0x80, 0x200, 0x400
		c := name(m, n)
		_, ok := m.files[c]
		switch {
		case !ok && flag&creat == 0:
			return Tuple{Ptr(nil), m.pathError("open", m.strArg(n), "ErrNotExist")}
		case ok && flag&creat != 0 && flag&excl != 0:
			return Tuple{Ptr(nil), m.pathError("open", m.strArg(n), "ErrExist")}
		case !ok || flag&trunc != 0:
			m.files[c] = &Slice{}
		}
		return Tuple{m.newFile(c, flag&app != 0), nilErr}
	}
	reg("os.Open", func(m *Machine, fr *Frame, a []Value) Value { return open(m, a[0], 0) })
	reg("os.Create", func(m *Machine, fr *Frame, a []Value) Value { return open(m, a[0], 0x242) })
	reg("os.OpenFile", func(m *Machine, fr *Frame, a []Value) Value { return open(m, a[0], m.intArg(a[1])) })
	temp := func(m *Machine, dir, pattern string) string {
		if dir == "" {
			dir = "/tmp"
		}
		pre, suf := pattern, ""
		if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
			pre, suf = pattern[:i], pattern[i+1:]
		}
		m.temps++
		return filepath.Join(dir, pre+"tmp"+strconv.Itoa(m.temps)+suf)
	}
	reg("os.CreateTemp", func(m *Machine, fr *Frame, a []Value) Value {
		return open(m, &Str{s: temp(m, m.strArg(a[0]), m.strArg(a[1]))}, 0x242)
	})
	reg("os.MkdirTemp", func(m *Machine, fr *Frame, a []Value) Value {
		return Tuple{&Str{s: temp(m, m.strArg(a[0]), m.strArg(a[1]))}, nilErr}
	})
	reg("os.TempDir", func(m *Machine, fr *Frame, a []Value) Value { return &Str{s: "/tmp"} })
	done := func(m *Machine, fr *Frame, a []Value) Value { return nilErr }
	for _, n := range []string{"os.MkdirAll", "os.Mkdir", "os.Chmod", "(*os.File).Sync", "(*os.File).Chmod"} {
		reg(n, done)
	}
	reg("os.Rename", func(m *Machine, fr *Frame, a []Value) Value {
		x, y := name(m, a[0]), name(m, a[1])
		b, ok := m.files[x]
		if !ok {
			return m.pathError("rename", m.strArg(a[0]), "ErrNotExist")
		}
		delete(m.files, x)
		m.files[y] = b
		for _, f := range m.opened {
			if f.name == x {
				f.name = y
			}
		}
		return nilErr
	})
	reg("os.Remove", func(m *Machine, fr *Frame, a []Value) Value {
		x := name(m, a[0])
		if _, ok := m.files[x]; !ok {
			return m.pathError("remove", m.strArg(a[0]), "ErrNotExist")
		}
		delete(m.files, x)
		return nilErr
	})
	reg("os.RemoveAll", func(m *Machine, fr *Frame, a []Value) Value {
		x := name(m, a[0])
		for n := range m.files {
			if n == x || strings.HasPrefix(n, x+"/") {
				delete(m.files, n)
			}
		}
		return nilErr
	})
	stat := func(m *Machine, n string) Value {
		const modeDir = 1 << 31
		v := zero(m.eng.byPath["os"].Type("fileStat").Type())
		st := v.(Struct)
		b, ok := m.files[n]
		dir := n == "/" || n == "." || n == "/tmp" || n == "/scratch"
		for x := range m.files {
			dir = dir || strings.HasPrefix(x, n+"/")
		}
		switch {
		case ok:
			st[0], st[1], st[2] = &Str{s: filepath.Base(n)}, BV(64, uint64(len(b.(*Slice).arr))), BV(32, 0o644)
		case dir:
			st[0], st[2] = &Str{s: filepath.Base(n)}, BV(32, modeDir|0o755)
		default:
			return Tuple{Iface{}, m.pathError("stat", n, "ErrNotExist")}
		}
		return Tuple{Iface{T: types.NewPointer(m.eng.byPath["os"].Type("fileStat").Type()), V: Ptr(&v)}, nilErr}
	}
	reg("os.Stat", func(m *Machine, fr *Frame, a []Value) Value { return stat(m, name(m, a[0])) })
	reg("os.Lstat", func(m *Machine, fr *Frame, a []Value) Value { return stat(m, name(m, a[0])) })
	get := func(m *Machine, v Value) *openFile {
		p, _ := v.(Ptr)
		return m.opened[p]
	}
	write := func(m *Machine, fr *Frame, a []Value) Value {
		var b []Value
		switch x := a[1].(type) {
		case *Slice:
			b = x.arr
		case *Str:
			for _, t := range bytesOfValue(x) {
				b = append(b, t)
			}
		}
		n := BV(64, uint64(len(b)))
		f := get(m, a[0])
		if f == nil { // standard output and error
			if m.capture != nil {
				*m.capture = concatStr(*m.capture, strOfTerms(bytesOfValue(a[1])))
			}
			return Tuple{n, nilErr}
		}
		if f.closed {
			return Tuple{BV(64, 0), m.pathError("write", f.name, "ErrClosed")}
		}
		old := content(m, f.name)
		if f.append {
			f.pos = len(old)
		}
		r := append([]Value{}, old...)
		for len(r) < f.pos+len(b) {
			r = append(r, Value(BV(8, 0)))
		}
		copy(r[f.pos:], b)
		f.pos += len(b)
		m.files[f.name] = &Slice{arr: r}
		return Tuple{n, nilErr}
	}
	reg("(*os.File).Write", write)
	reg("(*os.File).WriteString", write)
	reg("(*os.File).Read", func(m *Machine, fr *Frame, a []Value) Value {
		f := get(m, a[0])
		if f == nil {
			m.unsupported("reading the standard input")
		}
		if f.closed {
			return Tuple{BV(64, 0), m.pathError("read", f.name, "ErrClosed")}
		}
		old, to := content(m, f.name), a[1].(*Slice).arr
		if f.pos >= len(old) && len(to) > 0 {
			return Tuple{BV(64, 0), *m.global(m.eng.byPath["io"].Var("EOF"))}
		}
		k := copy(to, old[f.pos:])
		f.pos += k
		return Tuple{BV(64, uint64(k)), nilErr}
	})
	reg("(*os.File).Stat", func(m *Machine, fr *Frame, a []Value) Value {
		f := get(m, a[0])
		if f == nil {
			m.unsupported("the state of a standard stream")
		}
		return stat(m, f.name)
	})
	reg("(*os.File).Name", func(m *Machine, fr *Frame, a []Value) Value {
		if f := get(m, a[0]); f != nil {
			return &Str{s: f.name}
		}
		return &Str{s: "/dev/stdout"}
	})
	reg("(*os.File).Close", func(m *Machine, fr *Frame, a []Value) Value {
		f := get(m, a[0])
		if f == nil {
			return nilErr
		}
		if f.closed {
			return m.pathError("close", f.name, "ErrClosed")
		}
		f.closed = true
		return nilErr
	})
	reg("(*os.File).Truncate", func(m *Machine, fr *Frame, a []Value) Value {
		if f := get(m, a[0]); f != nil {
			old, n := content(m, f.name), int(m.intArg(a[1]))
			r := append([]Value{}, old...)
			for len(r) < n {
				r = append(r, Value(BV(8, 0)))
			}
			m.files[f.name] = &Slice{arr: r[:n]}
		}
		return nilErr
	})
	// the copy of a reader into a file is made of plain writes
	reg("(*os.File).ReadFrom", func(m *Machine, fr *Frame, a []Value) Value {
		r := m.callHost(&Closure{fn: m.eng.stdFunc("io", "ReadAll")}, a[1]).(Tuple)
		if len(r[0].(*Slice).arr) > 0 {
			write(m, fr, []Value{a[0], r[0]})
		}
		return Tuple{BV(64, uint64(len(r[0].(*Slice).arr))), r[1]}
	})
}
