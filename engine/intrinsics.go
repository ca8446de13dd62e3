package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type natFn = func(p *Path, args []Value) Value

const symPath = "github.com/cloudprivacylabs/lpg/v2/zzsym"

func intrinsicFor(fn *ssa.Function) natFn {
	name := fn.String()
	if strings.HasPrefix(name, symPath+".") {
		if f, ok := symFns[strings.TrimPrefix(name, symPath+".")]; ok {
			return f
		}
		return nil
	}
	if f, ok := libFns[name]; ok {
		return f
	}
	return stdIntrinsic(fn, name)
}

func (p *Path) cstr(v Value) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *SymStr:
		r := p.simplStr(s)
		if c, ok := r.(string); ok {
			return c, true
		}
	}
	return "", false
}

func (p *Path) mustStr(v Value, what string) string {
	s, ok := p.cstr(v)
	if !ok {
		unsupported("symbolic string in %s", what)
	}
	return s
}

// ---- harness vocabulary ----

var symFns map[string]natFn

func init() {
	symFns = map[string]natFn{
		"Int": func(p *Path, a []Value) Value {
			lo, hi := a[1].(int64), a[2].(int64)
			n := p.uniq(a[0].(string))
			return p.intVar(n, lo, hi)
		},
		"AnyInt": func(p *Path, a []Value) Value {
			n := p.uniq(a[0].(string))
			t := p.newVar(n, 64)
			p.inputs = append(p.inputs, input{name: n, kind: "int", t: t, k: intKind{64, true}})
			return t
		},
		"Bool": func(p *Path, a []Value) Value {
			n := p.uniq(a[0].(string))
			t := p.newVar(n, 0)
			p.inputs = append(p.inputs, input{name: n, kind: "bool", t: t})
			return t
		},
		"String": func(p *Path, a []Value) Value {
			return p.strVar(p.uniq(a[0].(string)), int(a[1].(int64)), 0x20, 0x7e)
		},
		"StringIn": func(p *Path, a []Value) Value {
			return p.strVar(p.uniq(a[0].(string)), int(a[1].(int64)), byte(a[2].(int64)), byte(a[3].(int64)))
		},
		"Choose": func(p *Path, a []Value) Value {
			return int64(p.choose(a[0].(string), int(a[1].(int64))))
		},
		"Assume": func(p *Path, a []Value) Value { p.assume(p.boolTerm(a[0])); return nil },
		"Assert": func(p *Path, a []Value) Value {
			p.assert(p.boolTerm(a[0]), a[1].(string))
			return nil
		},
		"And": func(p *Path, a []Value) Value {
			r := p.f.True
			for _, x := range a[0].([]Value) {
				r = p.f.And(r, p.boolTerm(x))
			}
			return p.fromBool(r)
		},
		"Or": func(p *Path, a []Value) Value {
			r := p.f.False
			for _, x := range a[0].([]Value) {
				r = p.f.Or(r, p.boolTerm(x))
			}
			return p.fromBool(r)
		},
		"Not":     func(p *Path, a []Value) Value { return p.fromBool(p.f.Not(p.boolTerm(a[0]))) },
		"Implies": func(p *Path, a []Value) Value { return p.fromBool(p.f.Or(p.f.Not(p.boolTerm(a[0])), p.boolTerm(a[1]))) },
		"Iff":     func(p *Path, a []Value) Value { return p.fromBool(p.f.Eq(p.boolTerm(a[0]), p.boolTerm(a[1]))) },
		"Ite": func(p *Path, a []Value) Value {
			return p.fromTerm(p.f.Ite(p.boolTerm(a[0]), p.toTerm(a[1], 64), p.toTerm(a[2], 64)), intKind{64, true})
		},
		"IteB": func(p *Path, a []Value) Value {
			return p.fromBool(p.f.Ite(p.boolTerm(a[0]), p.boolTerm(a[1]), p.boolTerm(a[2])))
		},
		"B2i": func(p *Path, a []Value) Value {
			return p.fromTerm(p.f.Ite(p.boolTerm(a[0]), p.f.BV(1, 64), p.f.BV(0, 64)), intKind{64, true})
		},
		"Param": func(p *Path, a []Value) Value {
			v, ok := p.w.run.params[a[0].(string)]
			if !ok {
				panic("harness parameter " + a[0].(string) + " not set for " + p.w.run.harness)
			}
			return int64(v)
		},
		"Observe": func(p *Path, a []Value) Value {
			p.obs = append(p.obs, obsItem{name: a[0].(string), v: a[1].(iface).v})
			return nil
		},
		"Cover": func(p *Path, a []Value) Value { p.w.covers[a[0].(string)]++; return nil },
		"Freeze": func(p *Path, a []Value) Value {
			var roots []Value
			for _, x := range a[0].([]Value) {
				roots = append(roots, x)
			}
			p.freeze(roots)
			return nil
		},
		"Unfreeze": func(p *Path, a []Value) Value { p.frozen = nil; return nil },
		"Readers": func(p *Path, a []Value) Value {
			p.freeze(append(append([]Value{}, a[1].([]Value)...), p.repoGlobals()...))
			p.callClosure(a[0].(*Closure), nil, nil)
			p.frozen = nil
			p.w.asserts++ // discharged on this path: f only read
			return nil
		},
	}
}

func (p *Path) intVar(n string, lo, hi int64) Value {
	if lo == hi {
		return lo
	}
	t := p.newVar(n, 64)
	if _, ok := p.model[t.name]; !ok {
		p.model[t.name] = uint64(lo)
	}
	p.inputs = append(p.inputs, input{name: n, kind: "int", t: t, k: intKind{64, true}})
	p.addPC(p.f.Not(p.f.bin(OpSlt, t, p.f.BV(uint64(lo), 64))))
	p.addPC(p.f.Not(p.f.bin(OpSlt, p.f.BV(uint64(hi), 64), t)))
	return t
}

func (p *Path) strVar(n string, max int, lo, hi byte) Value {
	if max == 0 {
		return ""
	}
	s := &SymStr{}
	f := p.f
	z := f.BV(0, 9)
	// packed variables of up to 7 slots
	for i := 0; i < max; i += 7 {
		k := max - i
		if k > 7 {
			k = 7
		}
		v := p.newVar(fmt.Sprintf("%s$%d", n, i), uint8(9*k))
		for j := 0; j < k; j++ {
			h := uint8(9*(k-j) - 1)
			s.slots = append(s.slots, f.Extract(v, h, h-8))
		}
	}
	for i, t := range s.slots {
		in := f.And(f.Not(f.bin(OpUlt, t, f.BV(uint64(lo)+1, 9))), f.Not(f.bin(OpUlt, f.BV(uint64(hi)+1, 9), t)))
		c := f.Or(f.Eq(t, z), in)
		if i > 0 {
			c = f.And(c, f.Or(f.Not(f.Eq(s.slots[i-1], z)), f.Eq(t, z)))
		}
		p.addPC(c)
	}
	p.inputs = append(p.inputs, input{name: n, kind: "string", s: s.slots})
	return s
}

// ---- library models ----

var libFns map[string]natFn

func errIface(p *Path, msg Value) Value {
	cell := new(Value)
	*cell = structure{msg}
	return iface{p.w.e.errStrPtr, cell}
}

func init() {
	libFns = map[string]natFn{
		"errors.New": func(p *Path, a []Value) Value { return errIface(p, a[0]) },
		"fmt.Sprintf": func(p *Path, a []Value) Value {
			return p.sprintf(p.mustStr(a[0], "format"), a[1].([]Value))
		},
		"fmt.Sprint": func(p *Path, a []Value) Value {
			var r Value = ""
			for i, x := range a[0].([]Value) {
				if i > 0 {
					prev := a[0].([]Value)[i-1].(iface)
					cur := x.(iface)
					if !(prev.t != nil && isString(prev.t)) && !(cur.t != nil && isString(cur.t)) {
						r = p.concat(r, " ")
					}
				}
				r = p.concat(r, p.formatV(x.(iface), 'v', 0))
			}
			return r
		},
		"fmt.Fprintf": func(p *Path, a []Value) Value {
			s := p.sprintf(p.mustStr(a[1], "format"), a[2].([]Value))
			return p.ioWrite(a[0].(iface), p.strBytes(s))
		},
		"fmt.Fprint": func(p *Path, a []Value) Value {
			var r Value = ""
			for _, x := range a[1].([]Value) {
				r = p.concat(r, p.formatV(x.(iface), 'v', 0))
			}
			return p.ioWrite(a[0].(iface), p.strBytes(r))
		},
		"io.WriteString": func(p *Path, a []Value) Value {
			return p.ioWrite(a[0].(iface), p.strBytes(a[1]))
		},
		"fmt.Println": func(p *Path, a []Value) Value { return tuple{int64(0), iface{}} },
		"fmt.Printf":  func(p *Path, a []Value) Value { return tuple{int64(0), iface{}} },
		"fmt.Print":   func(p *Path, a []Value) Value { return tuple{int64(0), iface{}} },
		"strings.Join": func(p *Path, a []Value) Value {
			var r Value = ""
			for i, x := range a[0].([]Value) {
				if i > 0 {
					r = p.concat(r, a[1])
				}
				r = p.concat(r, x)
			}
			return r
		},
		"(*strings.Builder).WriteString": func(p *Path, a []Value) Value {
			c := p.builder(a[0])
			*c = p.concat(p.builderStr(c), a[1])
			return tuple{p.strLen(a[1]), iface{}}
		},
		"(*strings.Builder).WriteByte": func(p *Path, a []Value) Value {
			c := p.builder(a[0])
			*c = p.concat(p.builderStr(c), p.bytesStr([]Value{a[1]}))
			return iface{}
		},
		"(*strings.Builder).WriteRune": func(p *Path, a []Value) Value {
			c := p.builder(a[0])
			s := string(rune(p.concIntW(a[1], intKind{32, true})))
			*c = p.concat(p.builderStr(c), s)
			return tuple{int64(len(s)), iface{}}
		},
		"(*strings.Builder).Write": func(p *Path, a []Value) Value {
			c := p.builder(a[0])
			*c = p.concat(p.builderStr(c), p.bytesStr(a[1].([]Value)))
			return tuple{int64(len(a[1].([]Value))), iface{}}
		},
		"(*strings.Builder).String": func(p *Path, a []Value) Value { return p.builderStr(p.builder(a[0])) },
		"(*strings.Builder).Len":    func(p *Path, a []Value) Value { return p.strLen(p.builderStr(p.builder(a[0]))) },
		"(*strings.Builder).Reset":  func(p *Path, a []Value) Value { *p.builder(a[0]) = ""; return nil },
		"(*strings.Builder).Grow":   func(p *Path, a []Value) Value { return nil },
		"strings.TrimSpace": func(p *Path, a []Value) Value {
			if s, ok := p.cstr(a[0]); ok {
				return strings.TrimSpace(s)
			}
			b := p.strBytes(a[0])
			sp := func(v Value) bool {
				t := p.toTerm(v, 8)
				f := p.f
				return p.branch(f.Or(f.Eq(t, f.BV(32, 8)), f.And(f.Not(f.bin(OpUlt, t, f.BV(9, 8))), f.bin(OpUlt, t, f.BV(14, 8)))))
			}
			for len(b) > 0 && sp(b[0]) {
				b = b[1:]
			}
			for len(b) > 0 && sp(b[len(b)-1]) {
				b = b[:len(b)-1]
			}
			return p.bytesStr(b)
		},
		"strings.Compare": func(p *Path, a []Value) Value {
			if p.branch(p.strEq(a[0], a[1])) {
				return int64(0)
			}
			if p.branch(p.strLt(a[0], a[1])) {
				return int64(-1)
			}
			return int64(1)
		},
		"strings.Clone": func(p *Path, a []Value) Value { return a[0] },
		"strconv.Itoa":  func(p *Path, a []Value) Value { return strconv.Itoa(int(p.concInt(a[0]))) },
		"strconv.FormatInt": func(p *Path, a []Value) Value {
			return strconv.FormatInt(p.concInt(a[0]), int(p.concInt(a[1])))
		},
		"strconv.AppendInt": func(p *Path, a []Value) Value {
			s := strconv.FormatInt(p.concInt(a[1]), int(p.concInt(a[2])))
			return p.appendVals(a[0].([]Value), p.strBytes(s), 1)
		},
		"sort.Strings": func(p *Path, a []Value) Value {
			s := a[0].([]Value)
			for i := 1; i < len(s); i++ {
				for j := i; j > 0 && p.truth(p.fromBool(p.strLt(s[j], s[j-1]))); j-- {
					s[j], s[j-1] = s[j-1], s[j]
				}
			}
			return nil
		},
		"sort.Ints": func(p *Path, a []Value) Value {
			s := a[0].([]Value)
			for i := 1; i < len(s); i++ {
				for j := i; j > 0 && p.truth(p.fromBool(p.f.bin(OpSlt, p.toTerm(s[j], 64), p.toTerm(s[j-1], 64)))); j-- {
					s[j], s[j-1] = s[j-1], s[j]
				}
			}
			return nil
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"bytes.Equal": func(p *Path, a []Value) Value {
			x, y := a[0].([]Value), a[1].([]Value)
			if len(x) != len(y) {
				return false
			}
			r := p.f.True
			for i := range x {
				r = p.f.And(r, p.f.Eq(p.toTerm(x[i], 8), p.toTerm(y[i], 8)))
			}
			return p.fromBool(r)
		},
		"math.Float64bits":     func(p *Path, a []Value) Value { return int64(math.Float64bits(a[0].(float64))) },
		"math.Float64frombits": func(p *Path, a []Value) Value { return math.Float64frombits(uint64(p.concInt(a[0]))) },
		"math.Float32bits":     func(p *Path, a []Value) Value { return int64(math.Float32bits(float32(a[0].(float64)))) },
		"math.Float32frombits": func(p *Path, a []Value) Value {
			return float64(math.Float32frombits(uint32(p.concIntW(a[0], intKind{32, false}))))
		},
		"math/bits.Len64":           func(p *Path, a []Value) Value { return int64(bits.Len64(uint64(p.concInt(a[0])))) },
		"math/bits.Len":             func(p *Path, a []Value) Value { return int64(bits.Len64(uint64(p.concInt(a[0])))) },
		"math/bits.TrailingZeros64": func(p *Path, a []Value) Value { return int64(bits.TrailingZeros64(uint64(p.concInt(a[0])))) },
		"math/bits.OnesCount64":     func(p *Path, a []Value) Value { return int64(bits.OnesCount64(uint64(p.concInt(a[0])))) },
		"internal/bytealg.IndexByteString": func(p *Path, a []Value) Value {
			b := p.strBytes(a[0])
			return p.indexByte(b, a[1])
		},
		"internal/bytealg.IndexByte": func(p *Path, a []Value) Value { return p.indexByte(a[0].([]Value), a[1]) },
		"internal/bytealg.CountString": func(p *Path, a []Value) Value {
			n := 0
			for _, x := range p.strBytes(a[0]) {
				if p.branch(p.f.Eq(p.toTerm(x, 8), p.toTerm(a[1], 8))) {
					n++
				}
			}
			return int64(n)
		},
		"internal/bytealg.MakeNoZero": func(p *Path, a []Value) Value {
			return makeSlice(types.Typ[types.Uint8], int(p.concInt(a[0])), int(p.concInt(a[0])))
		},
		"internal/stringslite.HasPrefix": hasPrefix,
		"strings.HasPrefix":              hasPrefix,
		"strings.HasSuffix": func(p *Path, a []Value) Value {
			x, y := p.strBytes(a[0]), p.strBytes(a[1])
			if len(y) > len(x) {
				return false
			}
			r := p.f.True
			for i := range y {
				r = p.f.And(r, p.f.Eq(p.toTerm(x[len(x)-len(y)+i], 8), p.toTerm(y[i], 8)))
			}
			return p.fromBool(r)
		},
		"unicode/utf8.ValidString": func(p *Path, a []Value) Value {
			if s, ok := a[0].(string); ok {
				return utf8.ValidString(s)
			}
			return true // symbolic strings are ASCII
		},
	}
	for _, s := range []string{"strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "strings.Index", "strings.IndexByte", "strings.ReplaceAll", "strings.Repeat", "(*strings.Replacer).Replace", "strings.ToLower", "strings.ToUpper", "strings.Split"} {
		if f, ok := strNat[s]; ok {
			libFns[s] = f
		}
	}
}

func hasPrefix(p *Path, a []Value) Value {
	if x, ok := a[0].(string); ok {
		if y, ok := a[1].(string); ok {
			return strings.HasPrefix(x, y)
		}
	}
	x, y := p.strBytes(a[0]), p.strBytes(a[1])
	if len(y) > len(x) {
		return false
	}
	r := p.f.True
	for i := range y {
		r = p.f.And(r, p.f.Eq(p.toTerm(x[i], 8), p.toTerm(y[i], 8)))
	}
	return p.fromBool(r)
}

var strNat = map[string]natFn{
	"strings.Contains": func(p *Path, a []Value) Value {
		return strIndex(p, a).(int64) >= 0
	},
	"strings.Index": strIndex,
	"strings.IndexByte": func(p *Path, a []Value) Value {
		return p.indexByte(p.strBytes(a[0]), a[1])
	},
	"strings.ReplaceAll": func(p *Path, a []Value) Value {
		old := p.mustStr(a[1], "ReplaceAll")
		if s, ok := p.cstr(a[0]); ok {
			if n, ok := p.cstr(a[2]); ok {
				return strings.ReplaceAll(s, old, n)
			}
		}
		if len(old) != 1 {
			unsupported("ReplaceAll of a long pattern in a symbolic string")
		}
		nb := p.strBytes(a[2])
		var out []Value
		for _, b := range p.strBytes(a[0]) {
			if p.branch(p.f.Eq(p.toTerm(b, 8), p.f.BV(uint64(old[0]), 8))) {
				out = append(out, nb...)
			} else {
				out = append(out, b)
			}
		}
		return p.bytesStr(out)
	},
	"(*strings.Replacer).Replace": func(p *Path, a []Value) Value {
		// The pairs as given: the tables built from them are never used
		st := (*deref(p, a[0])).(structure)
		if r, ok := st[1].(iface); ok && r.t != nil {
			unsupported("Replacer used for writing")
		}
		var pairs []string
		for _, x := range st[2].([]Value) {
			pairs = append(pairs, p.mustStr(load(x), "Replacer"))
		}
		if s, ok := p.cstr(a[1]); ok {
			return strings.NewReplacer(pairs...).Replace(s)
		}
		bs := p.strBytes(a[1])
		var out []Value
	next:
		for i := 0; i < len(bs); {
			for k := 0; k+1 < len(pairs); k += 2 {
				old := pairs[k]
				if old == "" {
					unsupported("Replacer of empty strings")
				}
				if i+len(old) > len(bs) {
					continue
				}
				c := p.f.True
				for j := range len(old) {
					c = p.f.And(c, p.f.Eq(p.toTerm(bs[i+j], 8), p.f.BV(uint64(old[j]), 8)))
				}
				if p.branch(c) {
					for j := range len(pairs[k+1]) {
						out = append(out, int64(pairs[k+1][j]))
					}
					i += len(old)
					continue next
				}
			}
			out = append(out, bs[i])
			i++
		}
		return p.bytesStr(out)
	},
	"strings.ToLower": func(p *Path, a []Value) Value { return strings.ToLower(p.mustStr(a[0], "ToLower")) },
	"strings.ToUpper": func(p *Path, a []Value) Value { return strings.ToUpper(p.mustStr(a[0], "ToUpper")) },
	"strings.Repeat": func(p *Path, a []Value) Value {
		return strings.Repeat(p.mustStr(a[0], "Repeat"), int(p.concInt(a[1])))
	},
}

func strIndex(p *Path, a []Value) Value {
	if x, ok := a[0].(string); ok {
		if y, ok := a[1].(string); ok {
			return int64(strings.Index(x, y))
		}
	}
	x, y := p.strBytes(a[0]), p.strBytes(a[1])
	for i := 0; i+len(y) <= len(x); i++ {
		r := p.f.True
		for j := range y {
			r = p.f.And(r, p.f.Eq(p.toTerm(x[i+j], 8), p.toTerm(y[j], 8)))
		}
		if p.branch(r) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (p *Path) indexByte(b []Value, c Value) Value {
	for i, x := range b {
		if p.branch(p.f.Eq(p.toTerm(x, 8), p.toTerm(c, 8))) {
			return int64(i)
		}
	}
	return int64(-1)
}

func sortSlice(p *Path, a []Value) Value {
	s, ok := a[0].(iface).v.([]Value)
	if !ok {
		unsupported("sort.Slice of %T", a[0].(iface).v)
	}
	less := a[1].(*Closure)
	lt := func(i, j int) bool {
		return p.truth(p.callClosure(less, []Value{int64(i), int64(j)}, nil))
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && lt(j, j-1); j-- {
			x, y := load(s[j]), load(s[j-1])
			store(&s[j], y)
			store(&s[j-1], x)
		}
	}
	return nil
}

// A strings.Builder keeps its contents in its first field (the addr
// pointer, unused by the model).
func (p *Path) builder(v Value) *Value {
	a := deref(p, v)
	s := (*a).(structure)
	if p.frozen != nil {
		p.noteStore(a)
	}
	return &s[0]
}

func (p *Path) builderStr(c *Value) Value {
	switch x := (*c).(type) {
	case string, *SymStr:
		return x
	}
	return ""
}

func (p *Path) ioWrite(w iface, b []Value) Value {
	if w.t == nil {
		p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	m := p.w.e.ioWriterWrite
	fn := p.w.method(w.t, m)
	return p.callFn(fn, []Value{w.v, b}, nil, nil)
}

// ---- formatting ----

func (p *Path) sprintf(format string, args []Value) Value {
	var r Value = ""
	lit := ""
	flush := func() {
		if lit != "" {
			r = p.concat(r, lit)
			lit = ""
		}
	}
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			lit += "%!(NOVERB)"
			break
		}
		j := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		flags := format[j:i]
		if i < len(format) && format[i] == '[' {
			k := strings.IndexByte(format[i:], ']')
			if k < 0 {
				unsupported("format %q", format)
			}
			n, err := strconv.Atoi(format[i+1 : i+k])
			if err != nil || n < 1 || n > len(args) || i+k+1 >= len(format) {
				unsupported("format %q", format)
			}
			ai, i = n-1, i+k+1
		}
		if i >= len(format) {
			unsupported("format %q", format)
		}
		v := format[i]
		if v == '%' {
			lit += "%"
			continue
		}
		if ai >= len(args) {
			lit += "%!" + string(v) + "(MISSING)"
			continue
		}
		x := args[ai].(iface)
		ai++
		flush()
		if flags != "" {
			c, ok := p.concreteGo(x)
			if !ok {
				unsupported("format flags %q on a symbolic or composite value", flags)
			}
			r = p.concat(r, fmt.Sprintf("%"+flags+string(v), c))
			continue
		}
		r = p.concat(r, p.formatV(x, v, 0))
	}
	flush()
	return r
}

func (p *Path) concreteGo(x iface) (any, bool) {
	switch v := x.v.(type) {
	case int64, string, bool, float64:
		return v, true
	}
	return nil, false
}

func (p *Path) formatV(x iface, verb byte, depth int) Value {
	if x.t == nil {
		if verb == 'v' || verb == 'T' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if depth > 6 {
		return "..."
	}
	switch verb {
	case 'T':
		return types.TypeString(x.t, func(p *types.Package) string { return p.Name() })
	case 'p':
		return "0xc000000000"
	case 'd', 'v', 's', 'q', 't', 'x', 'c', 'f', 'g':
	default:
		unsupported("format verb %%%c", verb)
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []*types.Func{p.w.e.errorMethod, p.w.e.stringMethod} {
			sel := types.NewMethodSet(x.t).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if sig := sel.Type().(*types.Signature); sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
				continue
			}
			if a, ok := x.v.(*Value); ok && a == nil {
				return "<nil>"
			}
			fn := p.w.method(x.t, sel.Obj().(*types.Func))
			s := p.callFn(fn, []Value{x.v}, nil, nil)
			return p.quoteIf(s, verb)
		}
	}
	switch v := x.v.(type) {
	case string:
		if verb == 'd' {
			return "%!d(string=" + v + ")"
		}
		return p.quoteIf(v, verb)
	case *SymStr:
		return p.quoteIf(v, verb)
	case int64:
		if isIntT(x.t) {
			if verb == 's' {
				return fmt.Sprintf("%%!s(%s=%d)", x.t.String(), v)
			}
			if verb == 'c' {
				return string(rune(v))
			}
			if verb == 'x' {
				return fmt.Sprintf("%x", v)
			}
			k, _ := kindOf(x.t)
			if !k.signed {
				return fmt.Sprint(uint64(v))
			}
			return fmt.Sprint(v)
		}
	case *Term:
		if v.w == 0 {
			if p.branch(v) {
				return "true"
			}
			return "false"
		}
		// the digits of a symbolic number are not modelled; the text is only
		// usable as an opaque message
		return "\x00num"
	case bool:
		return fmt.Sprint(v)
	case float64:
		return fmt.Sprint(v)
	case []Value:
		st, ok := x.t.Underlying().(*types.Slice)
		if !ok {
			break
		}
		var r Value = "["
		for i, e := range v {
			if i > 0 {
				r = p.concat(r, " ")
			}
			r = p.concat(r, p.formatV(asIface(st.Elem(), e), verb, depth+1))
		}
		return p.concat(r, "]")
	case *Map:
		mt := x.t.Underlying().(*types.Map)
		var r Value = "map["
		if v != nil && v.nsym > 0 && v.n > 1 {
			unsupported("formatting a map with several symbolic keys")
		}
		type kv struct {
			k string
			e *mapEntry
		}
		var l []kv
		for _, e := range v.live() {
			ks, _ := p.cstr(p.formatV(asIface(mt.Key(), e.k), 'v', depth+1))
			l = append(l, kv{ks, e})
		}
		for i := 1; i < len(l); i++ {
			for j := i; j > 0 && l[j].k < l[j-1].k; j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		for i, e := range l {
			if i > 0 {
				r = p.concat(r, " ")
			}
			r = p.concat(r, p.formatV(asIface(mt.Key(), e.e.k), verb, depth+1))
			r = p.concat(r, ":")
			r = p.concat(r, p.formatV(asIface(mt.Elem(), e.e.v), verb, depth+1))
		}
		return p.concat(r, "]")
	case structure:
		st := x.t.Underlying().(*types.Struct)
		var r Value = "{"
		for i, e := range v {
			if i > 0 {
				r = p.concat(r, " ")
			}
			r = p.concat(r, p.formatV(asIface(st.Field(i).Type(), e), verb, depth+1))
		}
		return p.concat(r, "}")
	case *Value:
		if v == nil {
			return "<nil>"
		}
		return "0xc000000000"
	}
	unsupported("formatting %s", x.t)
	return nil
}

func asIface(t types.Type, v Value) iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(iface)
	}
	return iface{t, v}
}

func isIntT(t types.Type) bool { _, ok := kindOf(t); return ok }

func (p *Path) quoteIf(v Value, verb byte) Value {
	if verb != 'q' {
		return v
	}
	if s, ok := p.cstr(v); ok {
		return strconv.Quote(s)
	}
	out := []Value{int64('"')}
	for _, b := range p.strBytes(v) {
		out = append(out, p.quoteByte(b)...)
	}
	return p.bytesStr(append(out, int64('"')))
}
