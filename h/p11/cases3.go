// Cases of one AsyncAPI version; cases2.go is made from cases3.go by sed.sh.
package main

import (
	"context"
	"math"
	"time"

	"verifh/gen/enc3"
	"verifh/v"
)

func controllers3(w *wire) (*enc3.AppController, *enc3.UserController) {
	app, err := enc3.NewAppController(w.br, enc3.WithErrorHandler(w.onError))
	v.Assert(err == nil, "controller created")
	user, err := enc3.NewUserController(w.br)
	v.Assert(err == nil, "controller created")
	return app, user
}

func trip3[M any](addr string, send func(*enc3.UserController, context.Context, M) error,
	sub func(*enc3.AppController, context.Context, func(context.Context, M) error) error, m M) M {
	w := newWire()
	app, user := controllers3(w)
	return trip(w, app, user, addr, send, sub, m)
}

func scalars3(kind int) {
	switch kind {
	case 0:
		p := text("p")
		got := trip3("c.str", (*enc3.UserController).SendToStrOperation, (*enc3.AppController).SubscribeToStrOperation, enc3.StrMessage{Payload: p})
		v.Assert(got.Payload == p, "string payload")
	case 1:
		p := moment("p")
		got := trip3("c.dt", (*enc3.UserController).SendToDtOperation, (*enc3.AppController).SubscribeToDtOperation, enc3.DtMessage{Payload: p})
		v.Assert(got.Payload.Equal(p), "date-time payload")
	case 2:
		p := v.Int64("p")
		got := trip3("c.i64", (*enc3.UserController).SendToI64Operation, (*enc3.AppController).SubscribeToI64Operation, enc3.I64Message{Payload: p})
		v.Assert(got.Payload == p, "integer payload")
	case 3:
		p := v.Int32("p")
		got := trip3("c.i32", (*enc3.UserController).SendToI32Operation, (*enc3.AppController).SubscribeToI32Operation, enc3.I32Message{Payload: p})
		v.Assert(got.Payload == p, "int32 payload")
	case 4:
		p := v.Float64("p")
		got := trip3("c.f64", (*enc3.UserController).SendToF64Operation, (*enc3.AppController).SubscribeToF64Operation, enc3.F64Message{Payload: p})
		v.Assert(f64(got.Payload, p), "number payload")
	case 5:
		p := v.Float32("p")
		got := trip3("c.f32", (*enc3.UserController).SendToF32Operation, (*enc3.AppController).SubscribeToF32Operation, enc3.F32Message{Payload: p})
		v.Assert(f32(got.Payload, p), "float payload")
	case 6:
		p := v.Float64("p")
		got := trip3("c.dbl", (*enc3.UserController).SendToDblOperation, (*enc3.AppController).SubscribeToDblOperation, enc3.DblMessage{Payload: p})
		v.Assert(f64(got.Payload, p), "double payload")
	case 7:
		p := v.Int64("p")
		got := trip3("c.long", (*enc3.UserController).SendToLongOperation, (*enc3.AppController).SubscribeToLongOperation, enc3.LongMessage{Payload: p})
		v.Assert(got.Payload == p, "int64 payload")
	case 8:
		p := text("p")
		got := trip3("c.refstr", (*enc3.UserController).SendToRefstrOperation, (*enc3.AppController).SubscribeToRefstrOperation, enc3.RefstrMessage{Payload: enc3.LabelSchema(p)})
		v.Assert(string(got.Payload) == p, "string payload by reference")
	case 9:
		p := moment("p")
		got := trip3("c.refdt", (*enc3.UserController).SendToRefdtOperation, (*enc3.AppController).SubscribeToRefdtOperation, enc3.RefdtMessage{Payload: enc3.MomentSchema(p)})
		v.Assert(time.Time(got.Payload).Equal(p), "date-time payload by reference")
	case 10:
		p := v.Int32("p")
		got := trip3("c.refint", (*enc3.UserController).SendToRefintOperation, (*enc3.AppController).SubscribeToRefintOperation, enc3.RefintMessage{Payload: enc3.SmallSchema(p)})
		v.Assert(int32(got.Payload) == p, "int32 payload by reference")
	case 11:
		p := v.Float64("p")
		got := trip3("c.refnum", (*enc3.UserController).SendToRefnumOperation, (*enc3.AppController).SubscribeToRefnumOperation, enc3.RefnumMessage{Payload: enc3.RatioSchema(p)})
		v.Assert(f64(float64(got.Payload), p), "number payload by reference")
	case 12:
		p := v.Float32("p")
		got := trip3("c.reff32", (*enc3.UserController).SendToReff32Operation, (*enc3.AppController).SubscribeToReff32Operation, enc3.Reff32Message{Payload: enc3.Ratio32Schema(p)})
		v.Assert(f32(float32(got.Payload), p), "float payload by reference")
	case 13:
		p := text("p")
		m := enc3.ChainstrMessage{}
		set(&m.Payload, p)
		got := trip3("c.chainstr", (*enc3.UserController).SendToChainstrOperation, (*enc3.AppController).SubscribeToChainstrOperation, m)
		v.Assert(string(got.Payload) == p, "string payload by reference to a reference")
	case 14:
		p := day("p")
		got := trip3("c.day", (*enc3.UserController).SendToDayOperation, (*enc3.AppController).SubscribeToDayOperation, enc3.DayMessage{Payload: p})
		v.Assert(got.Payload == p, "date payload")
	default:
		p := v.Bool("p")
		got := trip3("c.flag", (*enc3.UserController).SendToFlagOperation, (*enc3.AppController).SubscribeToFlagOperation, enc3.FlagMessage{Payload: p})
		v.Assert(got.Payload == p, "boolean payload")
	}
}

func structured3(kind int) {
	switch kind {
	case 0:
		p := make([]string, v.Choice("n", 3))
		for i := range p {
			p[i] = word("p")
		}
		got := trip3("c.arr", (*enc3.UserController).SendToArrOperation, (*enc3.AppController).SubscribeToArrOperation, enc3.ArrMessage{Payload: p})
		v.Assert(len(got.Payload) == len(p), "array payload")
		for i := range p {
			v.Assert(got.Payload[i] == p[i], "array payload, item")
		}
	case 1:
		m := enc3.RefarrMessage{}
		for n := v.Choice("n", 3); len(m.Payload) < n; {
			i := enc3.PointSchema{X: integer("x")}
			if v.Bool("z") {
				z := int64(7)
				i.Z = &z
			}
			m.Payload = append(m.Payload, i)
		}
		got := trip3("c.refarr", (*enc3.UserController).SendToRefarrOperation, (*enc3.AppController).SubscribeToRefarrOperation, m)
		v.Assert(len(got.Payload) == len(m.Payload), "array payload by reference")
		for i, p := range m.Payload {
			g := got.Payload[i]
			v.Assert(g.X == p.X && (g.Z == nil) == (p.Z == nil) && (g.Z == nil || *g.Z == *p.Z), "array payload by reference, item")
		}
	case 2:
		m := enc3.ObjMessage{}
		p := &m.Payload
		p.When = moments[0]
		switch v.Choice("field", 8) {
		case 0:
			p.A = word("a")
		case 1:
			*alloc(&p.B) = int32(math.MinInt32 + v.Choice("b", 2))
		case 2:
			*alloc(&p.C) = v.Bool("c")
		case 3:
			*alloc(&p.Day) = day("day")
		case 4:
			p.List = []int64{integer("i"), 3}
		case 5:
			alloc(&p.Opt).X = integer("i")
			*alloc(&p.Opt.Z) = 5
		case 6:
			p.Sub.X = real("x")
			*alloc(&p.Sub.Z) = word("z")
		default:
			p.When = moment("when")
		}
		got := trip3("c.obj", (*enc3.UserController).SendToObjOperation, (*enc3.AppController).SubscribeToObjOperation, m).Payload
		v.Assert(got.A == p.A && got.When.Equal(p.When) && f64(got.Sub.X, p.Sub.X), "required properties")
		v.Assert((got.B == nil) == (p.B == nil) && (p.B == nil || *p.B == *got.B), "optional integer")
		v.Assert((got.C == nil) == (p.C == nil) && (p.C == nil || *p.C == *got.C), "optional boolean")
		v.Assert((got.Day == nil) == (p.Day == nil) && (p.Day == nil || *p.Day == *got.Day), "optional date")
		v.Assert((got.Sub.Z == nil) == (p.Sub.Z == nil) && (p.Sub.Z == nil || *p.Sub.Z == *got.Sub.Z), "optional nested string")
		v.Assert(len(got.List) == len(p.List) && (len(p.List) == 0 || got.List[0] == p.List[0] && got.List[1] == 3), "optional array")
		v.Assert((got.Opt == nil) == (p.Opt == nil) && (p.Opt == nil || got.Opt.X == p.Opt.X && *got.Opt.Z == 5), "optional object by reference")
	case 3:
		m := enc3.AddMessage{}
		p := &m.Payload
		k := key("k")
		switch v.Choice("additional", 4) {
		case 0:
			if v.Bool("id") {
				*alloc(&p.S.Id) = -5
			}
			put(&p.S.AdditionalProperties, k, `"s"`)
			if v.Bool("more") {
				put(&p.S.AdditionalProperties, "more", word("s"))
			}
		case 1:
			put(&p.Num.AdditionalProperties, k, integer("n"))
		case 2:
			p.O.Id = "i"
			o := item(p.O.AdditionalProperties)
			if v.Bool("hasK") {
				*alloc(&o.K) = "w"
			}
			put(&p.O.AdditionalProperties, k, o)
		default:
			if v.Bool("id") {
				*alloc(&p.D.Id) = true
			}
			put(&p.D.AdditionalProperties, k, days[0])
		}
		got := trip3("c.add", (*enc3.UserController).SendToAddOperation, (*enc3.AppController).SubscribeToAddOperation, m).Payload
		v.Assert(eq(got.S.Id, p.S.Id) && eq(got.S.Name, p.S.Name) && got.O.Id == p.O.Id && eq(got.D.Id, p.D.Id), "properties next to additional ones")
		v.Assert(sameMap(got.S.AdditionalProperties, p.S.AdditionalProperties), "additional strings")
		v.Assert(sameMap(got.Num.AdditionalProperties, p.Num.AdditionalProperties), "additional integers")
		v.Assert(sameMap(got.D.AdditionalProperties, p.D.AdditionalProperties), "additional dates")
		v.Assert(len(got.O.AdditionalProperties) == len(p.O.AdditionalProperties), "additional objects")
		for k, x := range p.O.AdditionalProperties {
			y, ok := got.O.AdditionalProperties[k]
			v.Assert(ok && eq(x.K, y.K), "additional object")
		}
	default:
		m := enc3.RefobjMessage{}
		m.Payload.X = integer("x")
		if v.Bool("hasZ") {
			*alloc(&m.Payload.Z) = integer("z")
		}
		got := trip3("c.refobj", (*enc3.UserController).SendToRefobjOperation, (*enc3.AppController).SubscribeToRefobjOperation, m).Payload
		v.Assert(got.X == m.Payload.X && (got.Z == nil) == (m.Payload.Z == nil) && (got.Z == nil || *got.Z == *m.Payload.Z), "object payload by reference")
	}
}

func headers3(kind int) {
	switch kind {
	case 0:
		m := enc3.HdrMessage{Payload: "p"}
		h := &m.Headers
		h.Rdt, h.Rstr = moments[0], "s"
		switch v.Choice("header", 10) {
		case 0:
			h.Rstr = word("s")
		case 1:
			*alloc(&h.Ostr) = word("s")
		case 2:
			h.Rdt = moment("t")
		case 3:
			*alloc(&h.Odt) = moment("t")
		case 4:
			h.Robj.K = word("k")
			*alloc(&h.Robj.Cnt) = integer("i")
		case 5:
			alloc(&h.Oobj).K = word("k")
		case 6:
			h.Rref = enc3.LabelSchema(word("s"))
		case 7:
			*alloc(&h.Oref) = enc3.LabelSchema(word("s"))
		case 8:
			h.Rrefobj.Who = word("s")
			*alloc(&h.Rrefobj.Cnt) = integer("i")
		default:
			alloc(&h.Orefobj).Who = word("s")
		}
		r := trip3("c.hdr", (*enc3.UserController).SendToHdrOperation, (*enc3.AppController).SubscribeToHdrOperation, m)
		g := r.Headers
		v.Assert(r.Payload == "p", "payload beside headers")
		v.Assert(g.Rstr == h.Rstr && g.Rdt.Equal(h.Rdt) && g.Rref == h.Rref, "required headers")
		v.Assert(g.Robj.K == h.Robj.K && eq(g.Robj.Cnt, h.Robj.Cnt), "required object header")
		v.Assert(g.Rrefobj.Who == h.Rrefobj.Who && eq(g.Rrefobj.Cnt, h.Rrefobj.Cnt), "required object header by reference")
		v.Assert(eq(g.Ostr, h.Ostr) && eq(g.Oref, h.Oref), "optional string headers")
		v.Assert((g.Odt == nil) == (h.Odt == nil) && (g.Odt == nil || g.Odt.Equal(*h.Odt)), "optional date-time header")
		v.Assert((g.Oobj == nil) == (h.Oobj == nil) && (g.Oobj == nil || g.Oobj.K == h.Oobj.K), "optional object header")
		v.Assert((g.Orefobj == nil) == (h.Orefobj == nil) && (g.Orefobj == nil || g.Orefobj.Who == h.Orefobj.Who), "optional object header by reference")
	case 1:
		m := enc3.RefhdrMessage{Payload: "p"}
		h := &m.Headers
		h.Kind = word("k")
		if v.Bool("note") {
			*alloc(&h.Note) = "n"
		}
		if v.Bool("at") {
			*alloc(&h.At) = moment("t")
		}
		g := trip3("c.refhdr", (*enc3.UserController).SendToRefhdrOperation, (*enc3.AppController).SubscribeToRefhdrOperation, m).Headers
		v.Assert(g.Kind == h.Kind && eq(g.Note, h.Note) && (g.At == nil) == (h.At == nil) && (g.At == nil || g.At.Equal(*h.At)), "headers by reference")
	default:
		m := enc3.KhdrMessage{Payload: "p"}
		h := &m.Headers
		h.Rday, h.Rlist = days[0], []string{}
		switch v.Choice("header", 8) {
		case 0:
			h.Rnum = integer("i")
		case 1:
			*alloc(&h.Onum) = real("r")
		case 2:
			h.Rflag = v.Bool("b")
		case 3:
			*alloc(&h.Oflag) = v.Bool("b")
		case 4:
			h.Rday = day("d")
		case 5:
			*alloc(&h.Oday) = day("d")
		case 6:
			h.Rlist = []string{word("s"), "x"}
		default:
			h.Olist = []int64{integer("i")}
		}
		g := trip3("c.khdr", (*enc3.UserController).SendToKhdrOperation, (*enc3.AppController).SubscribeToKhdrOperation, m).Headers
		v.Assert(g.Rnum == h.Rnum && g.Rflag == h.Rflag && g.Rday == h.Rday, "required scalar headers")
		v.Assert(len(g.Rlist) == len(h.Rlist) && (len(h.Rlist) == 0 || g.Rlist[0] == h.Rlist[0] && g.Rlist[1] == "x"), "required array header")
		v.Assert(eq(g.Oflag, h.Oflag) && eq(g.Oday, h.Oday) && (g.Onum == nil) == (h.Onum == nil) && (g.Onum == nil || f64(*g.Onum, *h.Onum)), "optional scalar headers")
		v.Assert(len(g.Olist) == len(h.Olist) && (len(h.Olist) == 0 || g.Olist[0] == h.Olist[0]), "optional array header")
	}
}

func foreign3(kind int) bool {
	w := newWire()
	app, user := controllers3(w)
	in := func(set []string) ([]byte, int) {
		i := v.Choice("in", len(set))
		return []byte(set[i]), i
	}
	switch kind {
	case 0:
		p := raw("p", v.Bound(6, 12))
		out, ok := again(w, app, user, "c.str", (*enc3.UserController).SendToStrOperation, (*enc3.AppController).SubscribeToStrOperation, noHeaders, p)
		return same(p, out, ok)
	case 1:
		p, good := stamp()
		out, ok := again(w, app, user, "c.dt", (*enc3.UserController).SendToDtOperation, (*enc3.AppController).SubscribeToDtOperation, noHeaders, p)
		return canonical(p, out, ok, good)
	case 2:
		p := raw("p", 9)
		out, ok := again(w, app, user, "c.i64", (*enc3.UserController).SendToI64Operation, (*enc3.AppController).SubscribeToI64Operation, noHeaders, p)
		return fixed(8, p, out, ok)
	case 3:
		p := raw("p", 9)
		out, ok := again(w, app, user, "c.i32", (*enc3.UserController).SendToI32Operation, (*enc3.AppController).SubscribeToI32Operation, noHeaders, p)
		return fixed(4, p, out, ok)
	case 4:
		p := raw("p", 9)
		out, ok := again(w, app, user, "c.f64", (*enc3.UserController).SendToF64Operation, (*enc3.AppController).SubscribeToF64Operation, noHeaders, p)
		return fixed(8, p, out, ok)
	case 5:
		p := raw("p", 9)
		out, ok := again(w, app, user, "c.f32", (*enc3.UserController).SendToF32Operation, (*enc3.AppController).SubscribeToF32Operation, noHeaders, p)
		return fixed(4, p, out, ok)
	case 6:
		p := raw("p", 3)
		out, ok := again(w, app, user, "c.refstr", (*enc3.UserController).SendToRefstrOperation, (*enc3.AppController).SubscribeToRefstrOperation, noHeaders, p)
		return same(p, out, ok)
	case 7:
		p, good := stamp()
		out, ok := again(w, app, user, "c.refdt", (*enc3.UserController).SendToRefdtOperation, (*enc3.AppController).SubscribeToRefdtOperation, noHeaders, p)
		return canonical(p, out, ok, good)
	case 8:
		p := raw("p", 5)
		out, ok := again(w, app, user, "c.refint", (*enc3.UserController).SendToRefintOperation, (*enc3.AppController).SubscribeToRefintOperation, noHeaders, p)
		return fixed(4, p, out, ok)
	case 9:
		p := raw("p", 9)
		out, ok := again(w, app, user, "c.refnum", (*enc3.UserController).SendToRefnumOperation, (*enc3.AppController).SubscribeToRefnumOperation, noHeaders, p)
		return fixed(8, p, out, ok)
	case 10:
		p := raw("p", 5)
		out, ok := again(w, app, user, "c.reff32", (*enc3.UserController).SendToReff32Operation, (*enc3.AppController).SubscribeToReff32Operation, noHeaders, p)
		return fixed(4, p, out, ok)
	case 11:
		p := raw("p", 3)
		out, ok := again(w, app, user, "c.chainstr", (*enc3.UserController).SendToChainstrOperation, (*enc3.AppController).SubscribeToChainstrOperation, noHeaders, p)
		return same(p, out, ok)
	case 12:
		p, i := in(dates)
		out, ok := again(w, app, user, "c.day", (*enc3.UserController).SendToDayOperation, (*enc3.AppController).SubscribeToDayOperation, noHeaders, p)
		return canonical(p, out, ok, i < goodDates)
	case 13:
		p, i := in(bools)
		out, ok := again(w, app, user, "c.flag", (*enc3.UserController).SendToFlagOperation, (*enc3.AppController).SubscribeToFlagOperation, noHeaders, p)
		return canonical(p, out, ok, i < goodBools)
	case 14:
		p, i := in(docs)
		out, ok := again(w, app, user, "c.refobj", (*enc3.UserController).SendToRefobjOperation, (*enc3.AppController).SubscribeToRefobjOperation, noHeaders, p)
		return canonical(p, out, ok, i < goodDocs)
	case 15:
		// headers: an undecodable one refuses the message, unknown ones are ignored
		h := map[string][]byte{"kind": []byte("k"), "other": []byte("x")}
		p, good := stamp()
		h["at"] = p
		out, ok := again(w, app, user, "c.refhdr", (*enc3.UserController).SendToRefhdrOperation, (*enc3.AppController).SubscribeToRefhdrOperation, h, []byte("p"))
		v.Assert(ok == good, "exactly well formed values are accepted")
		if ok {
			v.Assert(len(out.Headers) == 2 && string(out.Headers["kind"]) == "k" && string(out.Headers["at"]) == string(p), "headers are the ones received")
		}
		return ok
	case 16:
		p, i := in(additional)
		out, ok := again(w, app, user, "c.add", (*enc3.UserController).SendToAddOperation, (*enc3.AppController).SubscribeToAddOperation, noHeaders, p)
		return canonical(p, out, ok, i < goodAdditional)
	default:
		p, i := in(docs)
		h := map[string][]byte{"rstr": []byte("s"), "rdt": []byte(stamps[0]), "robj": []byte(`{"k":"a"}`), "rrefobj": []byte(`{"who":"b"}`)}
		opt := v.Bool("optional")
		if opt {
			h["oobj"] = []byte(`{"k":"c"}`)
		}
		key := "robj"
		if v.Bool("ref") {
			key = "rrefobj"
		}
		bad := i >= goodDocs
		if bad && docs[i] != `{"x":"1"}` && docs[i] != `{"x":1.5}` {
			h[key] = p
		} else {
			bad = false
		}
		out, ok := again(w, app, user, "c.hdr", (*enc3.UserController).SendToHdrOperation, (*enc3.AppController).SubscribeToHdrOperation, h, []byte("p"))
		v.Assert(ok == !bad, "exactly well formed values are accepted")
		if ok {
			v.Assert(string(out.Headers["robj"]) == `{"k":"a"}` && string(out.Headers["rrefobj"]) == `{"who":"b"}`, "headers are the ones received")
			c, has := out.Headers["oobj"]
			v.Assert(has == opt && (!has || string(c) == `{"k":"c"}`), "optional object header")
		}
		return ok
	}
}
