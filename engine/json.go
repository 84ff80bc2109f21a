package main

import (
	"bytes"
	"encoding/json"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Encoding of flat structs (strings, numbers, booleans and times) with encoding/json, which itself
// works by reflection. Values that are not concrete are written as {"#":n}, where n is an entry of a
// table that nd.JSON* looks up again.

const jsonTab = "json"

func (m *M) jsonToken(v Value) string {
	t, _ := m.side[jsonTab].([]Value)
	t = append(t[:len(t):len(t)], v)
	m.side[jsonTab] = t
	b, _ := json.Marshal(map[string]int{"#": len(t) - 1})
	return string(b)
}

// jsonValue encodes one value; ok is false for a number that has no encoding.
func (m *M) jsonValue(t types.Type, v Value) (text string, ok bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s := v.(Str)
			if s.b != nil || s.opaque {
				return m.jsonToken(v), true
			}
			b, _ := json.Marshal(s.s)
			return string(b), true
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return m.jsonToken(v), true
		case u.Info()&types.IsFloat != 0:
			x := v.(*Term)
			s := m.st
			bad := s.Or(s.FUn(OFIsNaN, x, 0), s.FUn(OFIsNaN, s.FBin(OFSub, x, x), 0))
			if m.branch(bad) {
				return "", false
			}
			return m.jsonToken(v), true
		}
	case *types.Struct:
		if t.String() == "time.Time" {
			return m.jsonToken(v), true
		}
	}
	unsupported("encoding/json of %s", t)
	return
}

func (m *M) jsonStruct(t types.Type, v Value) (text string, ok bool) {
	if p, isP := t.Underlying().(*types.Pointer); isP {
		q, _ := v.(*Value)
		if q == nil {
			return "null", true
		}
		t, v = p.Elem(), *q
	}
	st, isS := t.Underlying().(*types.Struct)
	if !isS || t.String() == "time.Time" {
		return m.jsonValue(t, v)
	}
	for _, n := range []string{"MarshalJSON", "MarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, n); o != nil {
			unsupported("encoding/json of a type with its own encoding")
		}
	}
	fs := v.(StructV)
	var b strings.Builder
	b.WriteByte('{')
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")
		if !f.Exported() || tag[0] == "-" && len(tag) == 1 {
			continue
		}
		if f.Embedded() || len(tag) > 1 {
			unsupported("encoding/json with options")
		}
		name := f.Name()
		if tag[0] != "" {
			name = tag[0]
		}
		x, ok := m.jsonValue(f.Type(), fs[i])
		if !ok {
			return "", false
		}
		if n > 0 {
			b.WriteByte(',')
		}
		n++
		k, _ := json.Marshal(name)
		b.Write(k)
		b.WriteByte(':')
		b.WriteString(x)
	}
	b.WriteByte('}')
	return b.String(), true
}

// jsonGet reads a field of an encoded struct.
func (m *M) jsonGet(text, key Str) (v Value, raw json.RawMessage, ok bool) {
	if text.b != nil || text.opaque {
		unsupported("encoded text that is not concrete")
	}
	fs := map[string]json.RawMessage{}
	d := json.NewDecoder(strings.NewReader(text.s))
	if d.Decode(&fs) != nil || d.More() {
		return nil, nil, false
	}
	raw, ok = fs[key.s]
	if !ok {
		return nil, nil, false
	}
	if bytes.HasPrefix(raw, []byte(`{"#"`)) {
		x := map[string]int{}
		if json.Unmarshal(raw, &x) == nil {
			return m.side[jsonTab].([]Value)[x["#"]], nil, true
		}
	}
	return nil, raw, true
}

func init() {
	reg("encoding/json.Marshal", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			unsupported("encoding/json of nil")
		}
		s, ok := m.jsonStruct(i.t, i.v)
		if !ok {
			t := m.w.namedType("errors", "errorString")
			var v Value = StructV{m.str("json: unsupported value")}
			return TupleV{SliceV(nil), Iface{t: types.NewPointer(t), v: &v}}
		}
		return TupleV{m.byteSlice(s), Iface{}}
	})
	reg("nd.JSONString", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v, raw, ok := m.jsonGet(a[0].(Str), a[1].(Str))
		if v == nil && ok {
			s := ""
			if ok = json.Unmarshal(raw, &s) == nil; ok {
				return TupleV{m.str(s), m.st.tt}
			}
		}
		if s, is := v.(Str); is {
			return TupleV{s, m.st.tt}
		}
		return TupleV{m.str(""), m.st.ff}
	})
	reg("nd.JSONInt", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v, _, _ := m.jsonGet(a[0].(Str), a[1].(Str))
		if t, is := v.(*Term); is && t.sort == 64 {
			return TupleV{t, m.st.tt}
		}
		return TupleV{m.i64(0), m.st.ff}
	})
	reg("nd.JSONFloat", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v, _, _ := m.jsonGet(a[0].(Str), a[1].(Str))
		if t, is := v.(*Term); is && t.sort == SortFP {
			return TupleV{t, m.st.tt}
		}
		return TupleV{m.st.F64(0), m.st.ff}
	})
	reg("nd.JSONTime", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v, _, _ := m.jsonGet(a[0].(Str), a[1].(Str))
		if t, is := v.(StructV); is {
			return TupleV{append(StructV{}, t...), m.st.tt}
		}
		return TupleV{m.zero(fn.Signature.Results().At(0).Type()), m.st.ff}
	})
}

func (m *M) byteSlice(s string) SliceV {
	r := make(SliceV, len(s))
	for i := range r {
		r[i] = m.st.Const(8, uint64(s[i]))
	}
	return r
}
