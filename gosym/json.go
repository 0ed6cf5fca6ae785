package main

// Model of encoding/json for values the engine holds. Concrete values are written and
// parsed as real JSON text; a symbolic byte string, string or integer is written as a
// reference ("\u0001ref:N") to its terms, which only this model's decoder resolves.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

type jsonErr struct{ msg string }

const jsonRef = "\x01ref:"

func (e *Eng) jsonBlob(ts []*Term) string {
	e.blobs = append(e.blobs, ts)
	return jsonRef + strconv.Itoa(len(e.blobs)-1)
}

func (e *Eng) jsonBlobOf(s string) ([]*Term, bool) {
	if !strings.HasPrefix(s, jsonRef) {
		return nil, false
	}
	n, err := strconv.Atoi(s[len(jsonRef):])
	if err != nil || n < 0 || n >= len(e.blobs) {
		return nil, false
	}
	return e.blobs[n], true
}

func jsonField(st *types.Struct, i int) (name string, omit, skip bool) {
	f := st.Field(i)
	if !f.Exported() {
		return "", false, true
	}
	name = f.Name()
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	if tag == "-" {
		return "", false, true
	}
	parts := strings.Split(tag, ",")
	if parts[0] != "" {
		name = parts[0]
	}
	for _, p := range parts[1:] {
		if p == "omitempty" {
			omit = true
		}
	}
	return
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func allConst(ts []*Term) ([]byte, bool) {
	b := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return nil, false
		}
		b[i] = byte(t.val)
	}
	return b, true
}

func jsonStr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

// jsonEnc encodes the value of type t at p.
func (st *State) jsonEnc(sb *strings.Builder, p Ptr, t types.Type) {
	e := st.eng
	if isBytes(t) {
		s := st.load(p, t).(Slice)
		if !s.nonNil && s.obj == 0 {
			sb.WriteString("null")
			return
		}
		ts := st.sliceBytes(s)
		if b, ok := allConst(ts); ok {
			sb.WriteString(jsonStr(base64.StdEncoding.EncodeToString(b)))
		} else {
			sb.WriteString(jsonStr(e.jsonBlob(ts)))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sb.WriteString("{")
		first := true
		off := int32(0)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			name, omit, skip := jsonField(u, i)
			o := off
			off += int32(e.ncells(ft))
			if skip {
				continue
			}
			if omit {
				if s, ok := st.load(Ptr{p.obj, p.off + o}, ft).(Slice); ok && s.len == 0 {
					continue
				}
			}
			if !first {
				sb.WriteString(",")
			}
			first = false
			sb.WriteString(jsonStr(name) + ":")
			st.jsonEnc(sb, Ptr{p.obj, p.off + o}, ft)
		}
		sb.WriteString("}")
	case *types.Slice:
		s := st.load(p, t).(Slice)
		if !s.nonNil && s.obj == 0 {
			sb.WriteString("null")
			return
		}
		sb.WriteString("[")
		n := int32(e.ncells(u.Elem()))
		for i := int32(0); i < s.len; i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			st.jsonEnc(sb, Ptr{s.obj, s.off + i*n}, u.Elem())
		}
		sb.WriteString("]")
	case *types.Pointer:
		q := st.load(p, t).(Ptr)
		if q.obj == 0 {
			sb.WriteString("null")
			return
		}
		st.jsonEnc(sb, q, u.Elem())
	case *types.Basic:
		switch v := st.load(p, t).(type) {
		case StrC:
			sb.WriteString(jsonStr(string(v)))
		case *SymStr:
			sb.WriteString(jsonStr(e.jsonBlob(v.b)))
		case *Term:
			if v.w == 0 {
				if !v.isConst() {
					panic(unsupported{"json of a symbolic bool"})
				}
				sb.WriteString(strconv.FormatBool(v.val == 1))
				return
			}
			if !v.isConst() {
				sb.WriteString(jsonStr(e.jsonBlob([]*Term{v})))
				return
			}
			if u.Info()&types.IsUnsigned != 0 {
				sb.WriteString(strconv.FormatUint(v.val, 10))
			} else {
				sh := 64 - uint(v.w)
				sb.WriteString(strconv.FormatInt(int64(v.val<<sh)>>sh, 10))
			}
		default:
			panic(unsupported{fmt.Sprintf("json of %T", v)})
		}
	default:
		panic(unsupported{"json of " + t.String()})
	}
}

func (st *State) jsonDec(x interface{}, p Ptr, t types.Type) {
	e := st.eng
	if x == nil {
		switch t.Underlying().(type) {
		case *types.Slice:
			st.store(p, Slice{})
		case *types.Pointer:
			st.store(p, Ptr{})
		}
		return
	}
	bad := func() { panic(jsonErr{fmt.Sprintf("json: cannot unmarshal %T into Go value of type %s", x, t)}) }
	if isBytes(t) {
		s, ok := x.(string)
		if !ok {
			bad()
		}
		if ts, ok := e.jsonBlobOf(s); ok {
			st.store(p, st.bytesToSlice(ts))
			return
		}
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			panic(jsonErr{err.Error()})
		}
		ts := make([]*Term, len(b))
		for i := range b {
			ts[i] = e.m.Const(8, uint64(b[i]))
		}
		st.store(p, st.bytesToSlice(ts))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		m, ok := x.(map[string]interface{})
		if !ok {
			bad()
		}
		off := int32(0)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			name, _, skip := jsonField(u, i)
			o := off
			off += int32(e.ncells(ft))
			if skip {
				continue
			}
			v, ok := m[name]
			if !ok {
				for k, kv := range m {
					if strings.EqualFold(k, name) {
						v, ok = kv, true
					}
				}
			}
			if ok {
				st.jsonDec(v, Ptr{p.obj, p.off + o}, ft)
			}
		}
	case *types.Slice:
		a, ok := x.([]interface{})
		if !ok {
			bad()
		}
		s := st.makeSlice(u.Elem(), len(a), len(a))
		n := int32(e.ncells(u.Elem()))
		for i, y := range a {
			st.jsonDec(y, Ptr{s.obj, s.off + int32(i)*n}, u.Elem())
		}
		st.store(p, s)
	case *types.Pointer:
		q := st.alloc(u.Elem())
		st.jsonDec(x, q, u.Elem())
		st.store(p, q)
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsString != 0:
			s, ok := x.(string)
			if !ok {
				bad()
			}
			if ts, ok := e.jsonBlobOf(s); ok {
				st.store(p, e.mkStr(ts))
				return
			}
			st.store(p, StrC(s))
		case i&types.IsBoolean != 0:
			b, ok := x.(bool)
			if !ok {
				bad()
			}
			st.store(p, e.m.Bool(b))
		case i&types.IsInteger != 0:
			if s, ok := x.(string); ok {
				if ts, ok := e.jsonBlobOf(s); ok && len(ts) == 1 && ts[0].w == intWidth(u) {
					st.store(p, ts[0])
					return
				}
			}
			n, ok := x.(json.Number)
			if !ok {
				bad()
			}
			w := intWidth(u)
			if i&types.IsUnsigned != 0 {
				v, err := strconv.ParseUint(string(n), 10, int(w))
				if err != nil {
					bad()
				}
				st.store(p, e.m.Const(w, v))
			} else {
				v, err := strconv.ParseInt(string(n), 10, int(w))
				if err != nil {
					bad()
				}
				st.store(p, e.m.Const(w, uint64(v)&maskW(w)))
			}
		default:
			panic(unsupported{"json into " + t.String()})
		}
	default:
		panic(unsupported{"json into " + t.String()})
	}
}

func (e *Eng) errVal(msg string) Iface { return Iface{e.pr.rtErrT, StrC(msg)} }

func init() {
	marshal := func(c *callCtx) ctl {
		v := c.args[0].(Iface)
		var sb strings.Builder
		if v.t == nil {
			sb.WriteString("null")
		} else {
			p := c.st.allocVal(v.t, v.v)
			c.st.jsonEnc(&sb, p, v.t)
		}
		out := sb.String()
		if c.fn.Name() == "MarshalIndent" {
			var buf bytes.Buffer
			json.Indent(&buf, []byte(out), "", "\t")
			out = buf.String()
		}
		ts := make([]*Term, len(out))
		for i := 0; i < len(out); i++ {
			ts[i] = c.e.m.Const(8, uint64(out[i]))
		}
		return c.ret(Tuple{c.st.bytesToSlice(ts), Iface{}})
	}
	intrinsics["encoding/json.Marshal"] = marshal
	intrinsics["encoding/json.MarshalIndent"] = marshal
	intrinsics["encoding/json.Unmarshal"] = func(c *callCtx) ctl {
		b, ok := allConst(c.st.sliceBytes(c.args[0].(Slice)))
		if !ok {
			panic(unsupported{"json.Unmarshal of symbolic text"})
		}
		var x interface{}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if err := d.Decode(&x); err != nil {
			return c.ret(c.e.errVal(err.Error()))
		}
		if _, err := d.Token(); err == nil {
			return c.ret(c.e.errVal("invalid character after top-level value"))
		}
		v := c.args[1].(Iface)
		pt, ok := v.t.Underlying().(*types.Pointer)
		if !ok || v.v.(Ptr).obj == 0 {
			return c.ret(c.e.errVal("json: Unmarshal(non-pointer)"))
		}
		var ret Iface
		func() {
			defer func() {
				if r := recover(); r != nil {
					je, ok := r.(jsonErr)
					if !ok {
						panic(r)
					}
					ret = c.e.errVal(je.msg)
				}
			}()
			c.st.jsonDec(x, v.v.(Ptr), pt.Elem())
		}()
		return c.ret(ret)
	}
}
