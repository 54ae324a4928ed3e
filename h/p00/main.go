package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	template "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
	"verifh/v"
)

func HarnessEndian() {
	x := v.Uint64("x")
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], x)
	y := binary.BigEndian.Uint64(b[:])
	v.Assert(x == y, "roundtrip")
	v.Obs("x", y)
	v.Assert(binary.LittleEndian.Uint64(b[:]) == x, "bad")
}

func HarnessStr() {
	s := v.String("s", 0, 3)
	t := strings.TrimSpace(s)
	v.Assert(len(t) <= len(s), "trim")
	v.Obs("t", t)
	v.Obs("u", strings.ToUpper(t))
}

func HarnessFmt() {
	s := v.StringOf("s", 0, 2, "a-z")
	e := fmt.Errorf("x %s %d %w", s, len(s), fmt.Errorf("inner %q", s))
	v.Obs("e", e.Error())
}

func HarnessNamify() {
	s := v.StringOf("s", 0, 3, " -~")
	r := template.Namify(s)
	v.Obs("r", r)
	v.Assert(v.AllIn(r, "a-zA-Z0-9"), "alnum")
}

type T struct {
	A string  `json:"a,omitempty"`
	B *int    `json:"b"`
	C []int   `json:"c,omitempty"`
	D map[string]string `json:"d"`
}

func HarnessJSON() {
	s := v.StringOf("s", 0, 2, " -~")
	n := 5
	t := T{A: s, B: &n, C: []int{1, 2}, D: map[string]string{"k": s}}
	b, err := json.Marshal(t)
	v.Assert(err == nil, "err")
	v.Obs("b", string(b))
	var u T
	err = json.Unmarshal(b, &u)
	v.Assert(err == nil, "err2")
	v.Assert(u.A == s && *u.B == 5 && len(u.C) == 2 && u.D["k"] == s, "rt")
}

func HarnessMatch() {
	p := v.StringOf("p", 1, 4, "a.*>")
	s := v.StringOf("s", 1, 4, "a.")
	v.Obs("m", natsjetstream.MatchSubjectSubscription(p, s))
}

func main() {
	v.Main(map[string]func(){"HarnessEndian": HarnessEndian, "HarnessStr": HarnessStr, "HarnessFmt": HarnessFmt,
		"HarnessNamify": HarnessNamify, "HarnessJSON": HarnessJSON, "HarnessMatch": HarnessMatch})
}
