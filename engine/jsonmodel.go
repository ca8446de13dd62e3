package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// A model of encoding/json: values, documents and strings may be symbolic.
// The library itself is trusted; it is modelled because it works by
// reflection. Replays of passing paths compare the model with the library.

// ---- documents ----

type jval struct {
	kind byte // n t f 0 " [ {
	str  Value
	num  string
	arr  []*jval
	keys []Value
	raw  []Value
}

type jsonErr struct {
	eof bool
	msg string
}

type jparser struct {
	p *Path
	b []Value
	i int
}

func (j *jparser) fail(format string, a ...any) { panic(jsonErr{false, fmt.Sprintf(format, a...)}) }
func (j *jparser) eof()                         { panic(jsonErr{true, "unexpected end of JSON input"}) }

// catch runs f and returns the syntax error it stopped with.
func jcatch(f func()) (err *jsonErr) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(jsonErr); ok {
				err = &x
				return
			}
			panic(e)
		}
	}()
	f()
	return nil
}

func (j *jparser) is(v Value, c byte) bool {
	if x, ok := v.(int64); ok {
		return byte(x) == c
	}
	return j.p.branch(j.p.f.Eq(j.p.toTerm(v, 8), j.p.f.BV(uint64(c), 8)))
}

// among splits a symbolic byte into the given alternatives; 0 is none of
// them.
func (j *jparser) among(v Value, set string) byte {
	if x, ok := v.(int64); ok {
		return byte(x)
	}
	f := j.p.f
	any := f.False
	for k := 0; k < len(set); k++ {
		any = f.Or(any, f.Eq(j.p.toTerm(v, 8), f.BV(uint64(set[k]), 8)))
	}
	if !j.p.branch(any) {
		return 0
	}
	for k := 0; k < len(set); k++ {
		if j.is(v, set[k]) {
			return set[k]
		}
	}
	return 0
}

const structural = "{}[]\",:tfn-0123456789 \n\t\r"

// peek skips white space and returns the next byte; ok is false at the end.
func (j *jparser) peek() (byte, bool) {
	for j.i < len(j.b) {
		c := j.among(j.b[j.i], structural)
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return c, true
		}
		j.i++
	}
	return 0, false
}

func (j *jparser) value(depth int) *jval {
	c, ok := j.peek()
	if !ok {
		j.eof()
	}
	if depth > 10000 {
		j.fail("exceeded max depth")
	}
	start := j.i
	v := &jval{}
	switch {
	case c == '{':
		v.kind = '{'
		j.i++
		for n := 0; ; n++ {
			c, ok := j.peek()
			if !ok {
				j.eof()
			}
			if c == '}' && n == 0 {
				j.i++
				break
			}
			if n > 0 {
				if c == '}' {
					j.i++
					break
				}
				if c != ',' {
					j.fail("expected comma or }")
				}
				j.i++
				c, ok = j.peek()
				if !ok {
					j.eof()
				}
			}
			if c != '"' {
				j.fail("expected a string")
			}
			k := j.str()
			c, ok = j.peek()
			if !ok {
				j.eof()
			}
			if c != ':' {
				j.fail("expected colon")
			}
			j.i++
			v.keys = append(v.keys, k)
			v.arr = append(v.arr, j.value(depth+1))
		}
	case c == '[':
		v.kind = '['
		j.i++
		for n := 0; ; n++ {
			c, ok := j.peek()
			if !ok {
				j.eof()
			}
			if c == ']' {
				j.i++
				break
			}
			if n > 0 {
				if c != ',' {
					j.fail("expected comma or ]")
				}
				j.i++
			}
			v.arr = append(v.arr, j.value(depth+1))
		}
	case c == '"':
		v.kind = '"'
		v.str = j.str()
	case c == 't':
		v.kind = 't'
		j.lit("true")
	case c == 'f':
		v.kind = 'f'
		j.lit("false")
	case c == 'n':
		v.kind = 'n'
		j.lit("null")
	case c == '-' || c >= '0' && c <= '9':
		v.kind = '0'
		v.num = j.number()
	default:
		j.fail("invalid character looking for beginning of value")
	}
	v.raw = append([]Value{}, j.b[start:j.i]...)
	return v
}

// trailing comma in an array: value() above rejects ']' after ','
func (j *jparser) lit(s string) {
	for k := 0; k < len(s); k++ {
		if j.i >= len(j.b) {
			j.eof()
		}
		if !j.is(j.b[j.i], s[k]) {
			j.fail("invalid literal")
		}
		j.i++
	}
}

func (j *jparser) number() string {
	s := ""
	for j.i < len(j.b) {
		c := j.among(j.b[j.i], "+-.eE0123456789")
		if c == 0 || strings.IndexByte("+-.eE0123456789", c) < 0 {
			break
		}
		s += string(rune(c))
		j.i++
	}
	if !json.Valid([]byte(s)) {
		if j.i >= len(j.b) && json.Valid([]byte(s+"0")) {
			j.eof()
		}
		j.fail("invalid number")
	}
	return s
}

// str parses a string literal.
func (j *jparser) str() Value {
	j.i++
	var out []Value
	conc := []byte{'"'}
	allConc := true
	f := j.p.f
	for {
		if j.i >= len(j.b) {
			j.eof()
		}
		v := j.b[j.i]
		c, isc := v.(int64)
		if !isc {
			t := j.p.toTerm(v, 8)
			special := f.Or(f.bin(OpUlt, t, f.BV(0x20, 8)), f.Or(f.Eq(t, f.BV('"', 8)), f.Eq(t, f.BV('\\', 8))))
			if !j.p.branch(special) {
				if j.p.branch(f.Not(f.bin(OpUlt, t, f.BV(0x80, 8)))) {
					unsupported("symbolic non-ASCII byte in a JSON document")
				}
				out = append(out, v)
				allConc = false
				j.i++
				continue
			}
			switch {
			case j.is(v, '"'):
				c = '"'
			case j.is(v, '\\'):
				c = '\\'
			default:
				c = 1
			}
		}
		switch {
		case c == '"':
			j.i++
			if allConc {
				var s string
				if err := json.Unmarshal(append(conc, '"'), &s); err != nil {
					j.fail("%v", err)
				}
				return s
			}
			return j.p.bytesStr(out)
		case c < 0x20:
			j.fail("control character in string")
		case c == '\\':
			j.i++
			if j.i >= len(j.b) {
				j.eof()
			}
			e := j.among(j.b[j.i], "\"\\/bfnrtu")
			j.i++
			if e == 'u' {
				r := j.hex4()
				text := fmt.Sprintf("\\u%04x", r)
				ru := rune(r)
				if utf16.IsSurrogate(ru) {
					ru = utf8.RuneError
					if j.i+1 < len(j.b) && j.is(j.b[j.i], '\\') && j.is(j.b[j.i+1], 'u') {
						save := j.i
						j.i += 2
						r2 := j.hex4()
						if d := utf16.DecodeRune(rune(r), rune(r2)); d != utf8.RuneError {
							ru = d
							text += fmt.Sprintf("\\u%04x", r2)
						} else {
							j.i = save
						}
					}
				}
				conc = append(conc, text...)
				for _, x := range []byte(string(ru)) {
					out = append(out, int64(x))
				}
				continue
			}
			m := strings.IndexByte("\"\\/bfnrt", e)
			if m < 0 || e == 0 {
				j.fail("invalid escape")
			}
			conc = append(conc, '\\', e)
			out = append(out, int64("\"\\/\b\f\n\r\t"[m]))
		default:
			conc = append(conc, byte(c))
			out = append(out, c)
			j.i++
		}
	}
}

func (j *jparser) hex4() int {
	r := 0
	for k := 0; k < 4; k++ {
		if j.i >= len(j.b) {
			j.eof()
		}
		c := j.among(j.b[j.i], "0123456789abcdefABCDEF")
		d, err := strconv.ParseInt(string(rune(c)), 16, 32)
		if err != nil {
			j.fail("invalid \\u escape")
		}
		r = r*16 + int(d)
		j.i++
	}
	return r
}

// ---- encoding ----

func constBytes(s string) []Value {
	r := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int64(s[i])
	}
	return r
}

func goQuote(s string, html bool) string {
	var sb strings.Builder
	e := json.NewEncoder(&sb)
	e.SetEscapeHTML(html)
	e.Encode(s)
	return strings.TrimSuffix(sb.String(), "\n")
}

func (p *Path) jsonQuote(v Value, html bool) []Value {
	if s, ok := p.cstr(v); ok {
		return constBytes(goQuote(s, html))
	}
	out := []Value{int64('"')}
	f := p.f
	for _, b := range p.strBytes(v) {
		if c, ok := b.(int64); ok {
			if c >= 0x80 {
				unsupported("JSON encoding of a string with symbolic and non-ASCII parts")
			}
			q := goQuote(string(rune(c)), html)
			out = append(out, constBytes(q[1:len(q)-1])...)
			continue
		}
		t := p.toTerm(b, 8)
		special := f.bin(OpUlt, t, f.BV(0x20, 8))
		set := "\"\\"
		if html {
			set += "<>&"
		}
		for k := 0; k < len(set); k++ {
			special = f.Or(special, f.Eq(t, f.BV(uint64(set[k]), 8)))
		}
		special = f.Or(special, f.bin(OpUlt, f.BV(0x7f, 8), t))
		if !p.branch(special) {
			out = append(out, b)
			continue
		}
		c := byte(p.concIntW(b, intKind{8, false}))
		if c >= 0x80 {
			unsupported("JSON encoding of symbolic non-ASCII bytes")
		}
		q := goQuote(string(rune(c)), html)
		out = append(out, constBytes(q[1:len(q)-1])...)
	}
	return append(out, int64('"'))
}

type jsonEncErr struct{ err Value }

func jsonNamed(t types.Type, names ...string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	q := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	for _, x := range names {
		if x == q {
			return true
		}
	}
	return false
}

func isRawMessage(t types.Type) bool {
	return jsonNamed(t, "encoding/json.RawMessage", "encoding/json/jsontext.Value")
}

// methodOf finds a method usable on values of type t.
func methodOf(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return f
		}
	}
	return nil
}

func (p *Path) jsonFail(format string, a ...any) {
	panic(jsonEncErr{errIface(p, fmt.Sprintf(format, a...))})
}

// compact validates a document and strips white space.
func (p *Path) jsonCompact(b []Value, html bool) []Value {
	var v *jval
	err := jcatch(func() {
		j := &jparser{p: p, b: b}
		v = j.value(0)
		if _, more := j.peek(); more {
			j.fail("invalid character after top-level value")
		}
	})
	if err != nil {
		p.jsonFail("json: error calling MarshalJSON: %s", err.msg)
	}
	return p.jsonPrint(v, html)
}

func (p *Path) jsonPrint(v *jval, html bool) []Value {
	switch v.kind {
	case '{':
		out := []Value{int64('{')}
		for i, k := range v.keys {
			if i > 0 {
				out = append(out, int64(','))
			}
			out = append(out, p.jsonQuote(k, html)...)
			out = append(out, int64(':'))
			out = append(out, p.jsonPrint(v.arr[i], html)...)
		}
		return append(out, int64('}'))
	case '[':
		out := []Value{int64('[')}
		for i, x := range v.arr {
			if i > 0 {
				out = append(out, int64(','))
			}
			out = append(out, p.jsonPrint(x, html)...)
		}
		return append(out, int64(']'))
	case '"':
		return p.jsonQuote(v.str, html)
	}
	return v.raw
}

func (p *Path) jsonEncode(t types.Type, v Value, addr *Value, html bool, depth int) []Value {
	if depth > 60 {
		unsupported("deeply nested value in JSON encoding")
	}
	if isRawMessage(t) {
		b := v.([]Value)
		if b == nil {
			return constBytes("null")
		}
		return p.jsonCompact(b, html)
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		m := methodOf(t, "MarshalJSON")
		recvT, recv := t, v
		if m == nil && addr != nil {
			if pm := methodOf(types.NewPointer(t), "MarshalJSON"); pm != nil {
				m, recvT, recv = pm, types.NewPointer(t), addr
			}
		}
		if m != nil {
			if a, ok := recv.(*Value); ok && a == nil {
				return constBytes("null")
			}
			r := p.callFn(p.w.method(recvT, m), []Value{recv}, nil, nil).(tuple)
			if e := r[1].(iface); e.t != nil {
				panic(jsonEncErr{e})
			}
			return p.jsonCompact(r[0].([]Value), html)
		}
		if methodOf(t, "MarshalText") != nil || methodOf(t, "MarshalJSONTo") != nil {
			unsupported("text marshaler %s", t)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if p.truth(v) {
				return constBytes("true")
			}
			return constBytes("false")
		case u.Info()&types.IsString != 0:
			return p.jsonQuote(v, html)
		case u.Info()&types.IsInteger != 0:
			k, _ := kindOf(t)
			x := p.concIntW(v, k)
			if !k.signed {
				return constBytes(strconv.FormatUint(uint64(x), 10))
			}
			return constBytes(strconv.FormatInt(x, 10))
		case u.Info()&types.IsFloat != 0:
			x := v.(float64)
			if math.IsNaN(x) || math.IsInf(x, 0) {
				p.jsonFail("json: unsupported value: %v", x)
			}
			var g any = x
			if u.Kind() == types.Float32 {
				g = float32(x)
			}
			b, _ := json.Marshal(g)
			return constBytes(string(b))
		}
	case *types.Interface:
		x := v.(iface)
		if x.t == nil {
			return constBytes("null")
		}
		return p.jsonEncode(x.t, x.v, nil, html, depth+1)
	case *types.Pointer:
		a := v.(*Value)
		if a == nil {
			return constBytes("null")
		}
		return p.jsonEncode(u.Elem(), load(*a), a, html, depth+1)
	case *types.Struct:
		s := v.(structure)
		out := []Value{int64('{')}
		for _, fd := range jsonFields(u) {
			var fa *Value
			if addr != nil {
				fa = &(*addr).(structure)[fd.i]
			}
			if fd.omitempty && p.jsonEmpty(u.Field(fd.i).Type(), s[fd.i]) {
				continue
			}
			if len(out) > 1 {
				out = append(out, int64(','))
			}
			out = append(out, constBytes(goQuote(fd.name, html))...)
			out = append(out, int64(':'))
			out = append(out, p.jsonEncode(u.Field(fd.i).Type(), s[fd.i], fa, html, depth+1)...)
		}
		return append(out, int64('}'))
	case *types.Map:
		m := v.(*Map)
		if !isString(u.Key()) {
			if !isIntT(u.Key()) {
				p.jsonFail("json: unsupported type: %s", t)
			}
		}
		if m == nil {
			return constBytes("null")
		}
		type kv struct {
			k Value
			e *mapEntry
		}
		var l []kv
		for _, e := range m.live() {
			k := e.k
			if !isString(u.Key()) {
				k = strconv.FormatInt(p.concInt(k), 10)
			}
			l = append(l, kv{k, e})
		}
		for i := 1; i < len(l); i++ {
			for j := i; j > 0 && p.branch(p.strLt(l[j].k, l[j-1].k)); j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		out := []Value{int64('{')}
		for i, x := range l {
			if i > 0 {
				out = append(out, int64(','))
			}
			out = append(out, p.jsonQuote(x.k, html)...)
			out = append(out, int64(':'))
			out = append(out, p.jsonEncode(u.Elem(), x.e.v, nil, html, depth+1)...)
		}
		return append(out, int64('}'))
	case *types.Slice:
		s := v.([]Value)
		if s == nil {
			return constBytes("null")
		}
		if k, ok := kindOf(u.Elem()); ok && k.w == 8 && !k.signed {
			b := make([]byte, len(s))
			for i := range s {
				b[i] = byte(p.concIntW(s[i], k))
			}
			q, _ := json.Marshal(b)
			return constBytes(string(q))
		}
		out := []Value{int64('[')}
		for i := range s {
			if i > 0 {
				out = append(out, int64(','))
			}
			out = append(out, p.jsonEncode(u.Elem(), load(s[i]), &s[i], html, depth+1)...)
		}
		return append(out, int64(']'))
	case *types.Array:
		s := v.(array)
		out := []Value{int64('[')}
		for i := range s {
			if i > 0 {
				out = append(out, int64(','))
			}
			out = append(out, p.jsonEncode(u.Elem(), load(s[i]), nil, html, depth+1)...)
		}
		return append(out, int64(']'))
	}
	p.jsonFail("json: unsupported type: %s", t)
	return nil
}

type jsonField struct {
	i         int
	name      string
	omitempty bool
}

func jsonFields(u *types.Struct) []jsonField {
	var r []jsonField
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		if f.Embedded() && tag == "" {
			unsupported("JSON of a struct with embedded fields")
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		fd := jsonField{i: i, name: parts[0]}
		if fd.name == "" {
			fd.name = f.Name()
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				fd.omitempty = true
			case "":
			default:
				unsupported("JSON field option %s", o)
			}
		}
		r = append(r, fd)
	}
	return r
}

func (p *Path) jsonEmpty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case int64:
		return x == 0
	case float64:
		return x == 0
	case string:
		return x == ""
	case *SymStr:
		return p.branch(p.strEq(x, ""))
	case *Term:
		if x.w == 0 {
			return !p.branch(x)
		}
		return p.branch(p.f.Eq(x, p.f.BV(0, x.w)))
	case []Value:
		return len(x) == 0
	case *Map:
		return x == nil || x.n == 0
	case *Value:
		return x == nil
	case iface:
		return x.t == nil
	case array:
		return len(x) == 0
	}
	return false
}

func (p *Path) jsonMarshal(v iface, html bool) (out []Value, err iface) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(jsonEncErr); ok {
				out, err = nil, x.err.(iface)
				return
			}
			panic(e)
		}
	}()
	if v.t == nil {
		return constBytes("null"), iface{}
	}
	return p.jsonEncode(v.t, v.v, nil, html, 0), iface{}
}

// ---- decoding into Go values ----

func (p *Path) jsonAny(v *jval) iface {
	e := p.w.e
	anyT := types.Universe.Lookup("any").Type()
	switch v.kind {
	case 't':
		return iface{types.Typ[types.Bool], true}
	case 'f':
		return iface{types.Typ[types.Bool], false}
	case '"':
		return iface{types.Typ[types.String], v.str}
	case '0':
		f, err := strconv.ParseFloat(v.num, 64)
		if err != nil {
			p.jsonFail("json: cannot unmarshal number %s into Go value of type float64", v.num)
		}
		return iface{types.Typ[types.Float64], f}
	case '[':
		s := make([]Value, len(v.arr))
		for i, x := range v.arr {
			s[i] = p.jsonAny(x)
		}
		return iface{e.jsonType("[]any", types.NewSlice(anyT)), s}
	case '{':
		m := newMap(types.Typ[types.String])
		for i, k := range v.keys {
			p.mapSet(m, k, p.jsonAny(v.arr[i]))
		}
		return iface{e.jsonType("map[string]any", types.NewMap(types.Typ[types.String], anyT)), m}
	}
	return iface{}
}

// jsonType makes composite types used by the model canonical.
func (e *Engine) jsonType(name string, t types.Type) types.Type {
	if v, ok := e.jsonTypes.Load(name); ok {
		return v.(types.Type)
	}
	v, _ := e.jsonTypes.LoadOrStore(name, t)
	return v.(types.Type)
}

func (p *Path) jsonMismatch(v *jval, t types.Type) {
	p.jsonFail("json: cannot unmarshal %c into Go value of type %s", v.kind, t)
}

func (p *Path) jsonAssign(t types.Type, addr *Value, v *jval, depth int) {
	if p.frozen != nil {
		p.noteStore(addr)
	}
	if isRawMessage(t) {
		store(addr, append([]Value{}, v.raw...))
		return
	}
	if _, isP := t.Underlying().(*types.Pointer); !isP || v.kind != 'n' {
		if m := methodOf(types.NewPointer(t), "UnmarshalJSON"); m != nil {
			if _, isI := t.Underlying().(*types.Interface); !isI {
				r := p.callFn(p.w.method(types.NewPointer(t), m), []Value{addr, append([]Value{}, v.raw...)}, nil, nil)
				if e := r.(iface); e.t != nil {
					panic(jsonEncErr{e})
				}
				return
			}
		}
	}
	if methodOf(types.NewPointer(t), "UnmarshalText") != nil || methodOf(types.NewPointer(t), "UnmarshalJSONFrom") != nil {
		unsupported("text unmarshaler %s", t)
	}
	if v.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
			store(addr, zero(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if v.kind != 't' && v.kind != 'f' {
				p.jsonMismatch(v, t)
			}
			store(addr, v.kind == 't')
			return
		case u.Info()&types.IsString != 0:
			if v.kind != '"' {
				p.jsonMismatch(v, t)
			}
			store(addr, v.str)
			return
		case u.Info()&types.IsInteger != 0:
			if v.kind != '0' {
				p.jsonMismatch(v, t)
			}
			k, _ := kindOf(t)
			if k.signed {
				n, err := strconv.ParseInt(v.num, 10, int(k.w))
				if err != nil {
					p.jsonMismatch(v, t)
				}
				store(addr, n)
				return
			}
			n, err := strconv.ParseUint(v.num, 10, int(k.w))
			if err != nil {
				p.jsonMismatch(v, t)
			}
			store(addr, int64(n))
			return
		case u.Info()&types.IsFloat != 0:
			if v.kind != '0' {
				p.jsonMismatch(v, t)
			}
			x, err := strconv.ParseFloat(v.num, 64)
			if err != nil {
				p.jsonMismatch(v, t)
			}
			if u.Kind() == types.Float32 {
				x = float64(float32(x))
			}
			store(addr, x)
			return
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			p.jsonMismatch(v, t)
		}
		if x := (*addr).(iface); x.t != nil {
			if _, ok := x.t.Underlying().(*types.Pointer); ok {
				unsupported("JSON decoding into an interface that holds a pointer")
			}
		}
		store(addr, p.jsonAny(v))
		return
	case *types.Pointer:
		a, _ := (*addr).(*Value)
		if a == nil {
			a = new(Value)
			*a = zero(u.Elem())
			store(addr, a)
		}
		p.jsonAssign(u.Elem(), a, v, depth+1)
		return
	case *types.Slice:
		if k, ok := kindOf(u.Elem()); ok && k.w == 8 && !k.signed {
			unsupported("JSON decoding into bytes")
		}
		if v.kind != '[' {
			p.jsonMismatch(v, t)
		}
		s := makeSlice(u.Elem(), len(v.arr), len(v.arr))
		for i, x := range v.arr {
			p.jsonAssign(u.Elem(), &s[i], x, depth+1)
		}
		if s == nil {
			s = []Value{}
		}
		store(addr, s)
		return
	case *types.Map:
		if v.kind != '{' {
			p.jsonMismatch(v, t)
		}
		if !isString(u.Key()) {
			unsupported("JSON decoding into %s", t)
		}
		m, _ := (*addr).(*Map)
		if m == nil {
			m = newMap(u.Key())
			store(addr, m)
		}
		for i, k := range v.keys {
			c := new(Value)
			*c = zero(u.Elem())
			p.jsonAssign(u.Elem(), c, v.arr[i], depth+1)
			p.mapSet(m, k, *c)
		}
		return
	case *types.Struct:
		if v.kind != '{' {
			p.jsonMismatch(v, t)
		}
		s := (*addr).(structure)
		fields := jsonFields(u)
		for i, k := range v.keys {
			if j := p.jsonMatch(fields, k); j >= 0 {
				p.jsonAssign(u.Field(fields[j].i).Type(), &s[fields[j].i], v.arr[i], depth+1)
			}
		}
		return
	}
	p.jsonMismatch(v, t)
}

// jsonMatch finds the field for a key: exact matches first, then ignoring
// case.
func (p *Path) jsonMatch(fields []jsonField, k Value) int {
	if s, ok := p.cstr(k); ok {
		for i, f := range fields {
			if f.name == s {
				return i
			}
		}
		for i, f := range fields {
			if strings.EqualFold(f.name, s) {
				return i
			}
		}
		return -1
	}
	for i, f := range fields {
		if p.branch(p.strEq(k, f.name)) {
			return i
		}
	}
	for i, f := range fields {
		// ASCII only: one of the two cases of every letter
		b := p.slotsOf(k)
		if len(b) < len(f.name) {
			continue
		}
		c := p.f.True
		for n := range b {
			if n >= len(f.name) {
				c = p.f.And(c, p.f.Eq(b[n], p.f.BV(0, 9)))
				continue
			}
			lo, up := strings.ToLower(f.name[n : n+1])[0], strings.ToUpper(f.name[n : n+1])[0]
			c = p.f.And(c, p.f.Or(p.f.Eq(b[n], p.f.BV(uint64(lo)+1, 9)), p.f.Eq(b[n], p.f.BV(uint64(up)+1, 9))))
		}
		if p.branch(c) {
			return i
		}
	}
	return -1
}

func (p *Path) jsonStore(target iface, v *jval) (err iface) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(jsonEncErr); ok {
				err = x.err.(iface)
				return
			}
			panic(e)
		}
	}()
	if target.t == nil {
		p.jsonFail("json: Unmarshal(nil)")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		p.jsonFail("json: Unmarshal(non-pointer %s)", target.t)
	}
	a := target.v.(*Value)
	if a == nil {
		p.jsonFail("json: Unmarshal(nil %s)", target.t)
	}
	p.jsonAssign(pt.Elem(), a, v, 0)
	return iface{}
}

func (p *Path) jsonSyntaxErr(msg string) iface {
	t := p.w.e.jsonPkg.Pkg.Scope().Lookup("SyntaxError").Type()
	s := zero(t).(structure)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isString(st.Field(i).Type()) {
			s[i] = msg
		}
	}
	c := new(Value)
	*c = s
	return iface{types.NewPointer(t), c}
}

func (p *Path) ioVar(name string) iface {
	return (*p.global(p.w.e.byPath["io"].Var(name)).(*Value)).(iface)
}

// ---- the streaming decoder ----

type jframe struct {
	kind byte
	n    int // names and values seen
}

type jsonDec struct {
	r      iface
	j      jparser
	rerr   iface // error that ended the input
	loaded bool
	stack  []jframe
	err    iface // sticky
}

func (p *Path) jsonDecOf(v Value) *jsonDec {
	d := p.jsonDecs[deref(p, v)]
	if d == nil {
		unsupported("json.Decoder not made by NewDecoder")
	}
	return d
}

func (p *Path) jsonLoad(d *jsonDec) {
	if d.loaded {
		return
	}
	d.loaded = true
	d.j.p = p
	if d.r.t == nil {
		p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	fn := p.w.method(d.r.t, p.w.e.ioReaderRead)
	for i := 0; i < 200; i++ {
		buf := makeSlice(types.Typ[types.Uint8], 512, 512)
		r := p.callFn(fn, []Value{d.r.v, buf}, nil, nil).(tuple)
		n := int(p.concInt(r[0]))
		d.j.b = append(d.j.b, buf[:n]...)
		if e := r[1].(iface); e.t != nil {
			d.rerr = e
			return
		}
	}
	unsupported("reader without end")
}

// inputEnd is the error at the end of the input: the reader's own, or the
// one that says that the document is incomplete.
func (p *Path) inputEnd(d *jsonDec, incomplete bool) iface {
	if p.branch(p.equal(types.Universe.Lookup("error").Type(), d.rerr, p.ioVar("EOF"))) {
		if incomplete {
			return p.ioVar("ErrUnexpectedEOF")
		}
		return p.ioVar("EOF")
	}
	return d.rerr
}

// separator moves past the comma or colon due at this point. It reports
// false at the end of the input.
func (d *jsonDec) separator() (byte, bool) {
	c, ok := d.j.peek()
	if !ok || len(d.stack) == 0 {
		return c, ok
	}
	f := &d.stack[len(d.stack)-1]
	switch {
	case f.kind == '{' && f.n%2 == 1:
		if c != ':' {
			d.j.fail("expected colon after object name")
		}
	case f.n > 0 && c != '}' && c != ']':
		if c != ',' {
			d.j.fail("expected comma")
		}
	default:
		return c, true
	}
	save := d.j.i
	d.j.i++
	c, ok = d.j.peek()
	if !ok {
		d.j.i = save
		return 0, false
	}
	if c == '}' || c == ']' {
		d.j.fail("value expected")
	}
	return c, true
}

func (p *Path) jsonToken(d *jsonDec) (tok iface, err iface) {
	if d.err.t != nil {
		return iface{}, d.err
	}
	p.jsonLoad(d)
	je := jcatch(func() {
		c, ok := d.separator()
		if !ok {
			err = p.inputEnd(d, false)
			return
		}
		var f *jframe
		if len(d.stack) > 0 {
			f = &d.stack[len(d.stack)-1]
		}
		delim := func() iface {
			return iface{p.w.e.jsonPkg.Pkg.Scope().Lookup("Delim").Type(), int64(c)}
		}
		switch c {
		case '}', ']':
			if f == nil || (c == '}') != (f.kind == '{') {
				d.j.fail("mismatched delimiter")
			}
			d.j.i++
			d.stack = d.stack[:len(d.stack)-1]
			tok = delim()
			return
		}
		if f != nil {
			if f.kind == '{' && f.n%2 == 0 && c != '"' {
				d.j.fail("object name must be a string")
			}
			f.n++
		}
		if c == '{' || c == '[' {
			d.j.i++
			d.stack = append(d.stack, jframe{kind: c})
			tok = delim()
			return
		}
		v := d.j.value(0)
		defer func() {
			if e := recover(); e != nil {
				if x, ok := e.(jsonEncErr); ok {
					err = x.err.(iface)
					return
				}
				panic(e)
			}
		}()
		tok = p.jsonAny(v)
	})
	if je != nil {
		if je.eof {
			return iface{}, p.inputEnd(d, true)
		}
		return iface{}, p.jsonSyntaxErr(je.msg)
	}
	return tok, err
}

func (p *Path) jsonDecode(d *jsonDec, target iface) (err iface) {
	if d.err.t != nil {
		return d.err
	}
	p.jsonLoad(d)
	var v *jval
	je := jcatch(func() {
		c, ok := d.separator()
		if !ok {
			err = p.inputEnd(d, len(d.stack) > 0)
			return
		}
		if c == '}' || c == ']' {
			d.j.fail("value expected")
		}
		if len(d.stack) > 0 {
			f := &d.stack[len(d.stack)-1]
			if f.kind == '{' && f.n%2 == 0 && c != '"' {
				d.j.fail("object name must be a string")
			}
			f.n++
		}
		v = d.j.value(0)
	})
	if je != nil {
		if je.eof {
			err = p.inputEnd(d, true)
		} else {
			err = p.jsonSyntaxErr(je.msg)
		}
	}
	if err.t != nil {
		d.err = err
		return err
	}
	return p.jsonStore(target, v)
}

type jsonEnc struct {
	w    iface
	html bool
}

func init() {
	for k, f := range map[string]natFn{
		"encoding/json.Marshal": func(p *Path, a []Value) Value {
			b, err := p.jsonMarshal(a[0].(iface), true)
			return tuple{b, err}
		},
		"encoding/json.Unmarshal": func(p *Path, a []Value) Value {
			var v *jval
			b := a[0].([]Value)
			if je := jcatch(func() {
				j := &jparser{p: p, b: b}
				v = j.value(0)
				if _, more := j.peek(); more {
					j.fail("invalid character after top-level value")
				}
			}); je != nil {
				return p.jsonSyntaxErr(je.msg)
			}
			return p.jsonStore(a[1].(iface), v)
		},
		"encoding/json.Valid": func(p *Path, a []Value) Value {
			return jcatch(func() {
				j := &jparser{p: p, b: a[0].([]Value)}
				j.value(0)
				if _, more := j.peek(); more {
					j.fail("invalid character after top-level value")
				}
			}) == nil
		},
		"encoding/json.NewDecoder": func(p *Path, a []Value) Value {
			c := new(Value)
			*c = zero(p.w.e.jsonPkg.Pkg.Scope().Lookup("Decoder").Type())
			if p.jsonDecs == nil {
				p.jsonDecs = map[*Value]*jsonDec{}
			}
			p.jsonDecs[c] = &jsonDec{r: a[0].(iface)}
			return c
		},
		"(*encoding/json.Decoder).Token": func(p *Path, a []Value) Value {
			t, err := p.jsonToken(p.jsonDecOf(a[0]))
			return tuple{t, err}
		},
		"(*encoding/json.Decoder).Decode": func(p *Path, a []Value) Value {
			return p.jsonDecode(p.jsonDecOf(a[0]), a[1].(iface))
		},
		"(*encoding/json.Decoder).More": func(p *Path, a []Value) Value {
			d := p.jsonDecOf(a[0])
			p.jsonLoad(d)
			more := false
			jcatch(func() {
				i := d.j.i
				c, ok := d.j.peek()
				if ok && c == ',' && len(d.stack) > 0 {
					d.j.i++
					c, ok = d.j.peek()
				}
				d.j.i = i
				more = ok && c != '}' && c != ']'
			})
			return more
		},
		"(*encoding/json.Decoder).InputOffset": func(p *Path, a []Value) Value {
			return int64(p.jsonDecOf(a[0]).j.i)
		},
		"encoding/json.NewEncoder": func(p *Path, a []Value) Value {
			c := new(Value)
			*c = zero(p.w.e.jsonPkg.Pkg.Scope().Lookup("Encoder").Type())
			if p.jsonEncs == nil {
				p.jsonEncs = map[*Value]*jsonEnc{}
			}
			p.jsonEncs[c] = &jsonEnc{a[0].(iface), true}
			return c
		},
		"(*encoding/json.Encoder).SetEscapeHTML": func(p *Path, a []Value) Value {
			p.jsonEncs[deref(p, a[0])].html = p.truth(a[1])
			return nil
		},
		"(*encoding/json.Encoder).Encode": func(p *Path, a []Value) Value {
			e := p.jsonEncs[deref(p, a[0])]
			b, err := p.jsonMarshal(a[1].(iface), e.html)
			if err.t != nil {
				return err
			}
			return p.ioWrite(e.w, append(b, int64('\n'))).(tuple)[1]
		},
		"(encoding/json/jsontext.Value).MarshalJSON": func(p *Path, a []Value) Value {
			if a[0].([]Value) == nil {
				return tuple{constBytes("null"), iface{}}
			}
			return tuple{a[0], iface{}}
		},
		"(*encoding/json/jsontext.Value).UnmarshalJSON": func(p *Path, a []Value) Value {
			store(deref(p, a[0]), append([]Value{}, a[1].([]Value)...))
			return iface{}
		},
	} {
		libFns[k] = f
	}
	for _, k := range []string{"encoding/json.MarshalIndent", "encoding/json.Indent", "encoding/json.Compact", "encoding/json.HTMLEscape", "(*encoding/json.Decoder).UseNumber", "(*encoding/json.Decoder).DisallowUnknownFields", "(*encoding/json.Decoder).Buffered", "(*encoding/json.Encoder).SetIndent"} {
		libFns[k] = func(p *Path, a []Value) Value { unsupported("%s", k); return nil }
	}
}
