package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Query slicing and a cache of solver verdicts. Only the conjuncts of the
// path condition that share variables (transitively) with the query matter:
// the others are satisfied by the current model whatever the answer. The
// slice is written in a canonical form that forgets variable names; equal
// forms have equal verdicts, so each is sent to the solver once.

type cacheEntry struct {
	res  SatRes
	vals []uint64 // by canonical variable number
}

type qcache struct {
	sh [64]struct {
		sync.RWMutex
		m map[[16]byte]*cacheEntry
	}
	hits atomic.Int64
}

func newQcache() *qcache {
	q := &qcache{}
	for i := range q.sh {
		q.sh[i].m = map[[16]byte]*cacheEntry{}
	}
	return q
}

// termVars returns the variables of t.
func (f *Factory) termVars(t *Term) []*Term {
	if t == nil || t.op == OpConst {
		return nil
	}
	if t.vars != nil {
		return t.vars
	}
	if t.op == OpVar {
		t.vars = []*Term{t}
		return t.vars
	}
	f.vgen++
	g := f.vgen
	var r []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || t.op == OpConst {
			return
		}
		if t.vars != nil {
			for _, v := range t.vars {
				if v.vmark != g {
					v.vmark = g
					r = append(r, v)
				}
			}
			return
		}
		if t.vmark == g {
			return
		}
		t.vmark = g
		if t.op == OpVar {
			r = append(r, t)
			return
		}
		add(t.a)
		add(t.b)
		add(t.c)
	}
	add(t)
	if r == nil {
		r = []*Term{}
	}
	t.vars = r
	return r
}

type canon struct {
	buf  []byte
	vars []*Term
	n    uint32
	gen  uint32 // variables numbered
	gen2 uint32 // terms of the current conjunct numbered
}

func (c *canon) put(t *Term) {
	if t == nil {
		c.buf = append(c.buf, 0xff)
		return
	}
	switch t.op {
	case OpConst:
		c.buf = append(c.buf, byte(t.op), t.w)
		c.buf = binary.AppendUvarint(c.buf, t.val)
		return
	case OpVar:
		c.buf = append(c.buf, byte(t.op))
		c.buf = binary.AppendUvarint(c.buf, uint64(t.cnum))
		return
	}
	if t.cgen == c.gen2 {
		c.buf = append(c.buf, 0xfe)
		c.buf = binary.AppendUvarint(c.buf, uint64(t.cnum))
		return
	}
	c.buf = append(c.buf, byte(t.op), t.w)
	if t.op == OpExtract {
		c.buf = binary.AppendUvarint(c.buf, t.val)
	}
	c.put(t.a)
	c.put(t.b)
	c.put(t.c)
	t.cgen = c.gen2
	t.cnum = c.n
	c.n++
}

// check decides satisfiability of the path condition and c. On sat, a full
// model of the path's variables is returned.
func (p *Path) check(c *Term) (SatRes, Model) {
	w := p.w
	f := p.f
	c = p.subst(c)
	if c.isConst() {
		if c.val == 0 {
			return Unsat, nil
		}
		return Sat, p.model
	}
	f.cgen++
	g := f.cgen
	// slice
	for _, v := range f.termVars(c) {
		v.smark = g
	}
	pc := w.work[:0]
	for _, x := range p.pc {
		if x = p.subst(x); !x.isConst() && x.pmark != g {
			x.pmark = g
			pc = append(pc, x)
		}
	}
	in := w.inSlice[:0]
	for range pc {
		in = append(in, false)
	}
	for changed := true; changed; {
		changed = false
		for i, x := range pc {
			if in[i] {
				continue
			}
			vs := f.termVars(x)
			hit := false
			for _, v := range vs {
				if v.smark == g {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				changed = true
				for _, v := range vs {
					v.smark = g
				}
			}
		}
	}
	slice := w.slice[:0]
	for i, x := range pc {
		if in[i] {
			slice = append(slice, x)
		}
	}
	// variables are numbered in creation order, conjuncts are sorted by
	// their encoding
	cn := canon{buf: w.cbuf[:0], gen: g}
	for _, v := range p.vars {
		if v.smark == g {
			if v.cgen != g {
				v.cgen = g
				v.cnum = cn.n
				cn.n++
				cn.vars = append(cn.vars, v)
				cn.buf = append(cn.buf, v.w)
			}
		}
	}
	cn.buf = append(cn.buf, 0xfc)
	head := len(cn.buf)
	base := cn.n
	parts := w.parts[:0]
	for _, x := range append(slice, c) {
		from := len(cn.buf)
		f.cgen2++
		cn.gen2 = f.cgen2
		cn.n = base
		cn.put(x)
		if x != c {
			parts = append(parts, [2]int{from, len(cn.buf)})
		}
	}
	buf := cn.buf
	sort.Slice(parts, func(i, j int) bool {
		return bytes.Compare(buf[parts[i][0]:parts[i][1]], buf[parts[j][0]:parts[j][1]]) < 0
	})
	hh := sha256.New()
	hh.Write(buf[:head])
	last := head
	for _, q := range parts {
		hh.Write(buf[q[0]:q[1]])
		hh.Write([]byte{0xfd})
		if q[1] > last {
			last = q[1]
		}
	}
	hh.Write([]byte{0xfb})
	hh.Write(buf[last:])
	w.work, w.inSlice, w.cbuf, w.slice, w.parts = pc, in, cn.buf, slice, parts
	var hs [32]byte
	hh.Sum(hs[:0])
	var key [16]byte
	copy(key[:], hs[:16])
	sh := &w.run.qc.sh[key[0]&63]
	sh.RLock()
	ent := sh.m[key]
	sh.RUnlock()
	if ent == nil {
		ent = w.solve(slice, c, cn.vars)
		if ent.res != Unknown {
			sh.Lock()
			sh.m[key] = ent
			sh.Unlock()
		}
	} else {
		w.cacheHits++
	}
	if ent.res != Sat {
		return ent.res, nil
	}
	m := make(Model, len(p.model)+len(cn.vars))
	for k, v := range p.model {
		m[k] = v
	}
	for i, v := range cn.vars {
		m[v.name] = ent.vals[i]
	}
	for _, v := range p.vars {
		if r := p.find(v); r != v {
			if r.op == OpConst {
				m[v.name] = r.val
			} else {
				m[v.name] = m[r.name]
			}
		}
	}
	return Sat, m
}

func (w *Worker) solve(slice []*Term, c *Term, vars []*Term) *cacheEntry {
	if w.s.dead {
		// restart once with the same factory: definitions must be re-sent
		w.closeSolver()
		s, err := NewSolver(w.e.solverBin, w.e.solverTmo)
		if err != nil {
			panic(err)
		}
		for _, t := range w.f.tab {
			t.emitted = false
		}
		w.s = s
	}
	s := w.s
	t0 := time.Now()
	s.queries++
	var sb strings.Builder
	for _, x := range slice {
		x.emit(&sb)
	}
	c.emit(&sb)
	sb.WriteString("(push 1)\n")
	for _, x := range slice {
		sb.WriteString("(assert ")
		x.ref(&sb)
		sb.WriteString(")\n")
	}
	sb.WriteString("(assert ")
	c.ref(&sb)
	sb.WriteString(")\n(check-sat)\n")
	s.send(sb.String())
	r := s.line()
	ent := &cacheEntry{res: Unknown}
	switch r {
	case "sat":
		s.sats++
		m := s.getModel(vars)
		if m == nil {
			s.unks++
		} else {
			ent.res = Sat
			ent.vals = make([]uint64, len(vars))
			for i, v := range vars {
				ent.vals[i] = m[v.name]
			}
		}
		s.send("(pop 1)\n")
	case "unsat":
		s.unsats++
		ent.res = Unsat
		s.send("(pop 1)\n")
	case "unknown", "timeout":
		s.unks++
		s.send("(pop 1)\n")
	default:
		// an error line: inconclusive, and the process is not trusted further
		s.unks++
		s.dead = true
	}
	d := time.Since(t0)
	s.dur += d
	if d > s.maxDur {
		s.maxDur = d
	}
	return ent
}

// simplify replaces the subformulas decided on this path by their truth.
func (p *Path) simplify(t *Term) *Term {
	if v, ok := p.known(t); ok {
		return p.f.Bool(v)
	}
	return p.simp(p.subst(t))
}

func (p *Path) simp(t *Term) *Term {
	if t.w != 0 || t.op == OpConst {
		return t
	}
	if v, ok := p.known(t); ok {
		return p.f.Bool(v)
	}
	switch t.op {
	case OpNot:
		return p.f.Not(p.simp(t.a))
	case OpAnd:
		a := p.simp(t.a)
		if a == p.f.False {
			return a
		}
		return p.f.And(a, p.simp(t.b))
	case OpOr:
		a := p.simp(t.a)
		if a == p.f.True {
			return a
		}
		return p.f.Or(a, p.simp(t.b))
	case OpEq:
		if t.a.w == 0 {
			return p.f.Eq(p.simp(t.a), p.simp(t.b))
		}
	case OpIte:
		c := p.simp(t.a)
		if c == p.f.True {
			return p.simp(t.b)
		}
		if c == p.f.False {
			return p.simp(t.c)
		}
		return p.f.Ite(c, p.simp(t.b), p.simp(t.c))
	}
	return t
}

// ---- equalities of the path ----

// find returns the representative of a variable under the equalities of
// the path condition.
func (p *Path) find(v *Term) *Term {
	for {
		r, ok := p.uf[v]
		if !ok {
			return v
		}
		v = r
	}
}

// learnEq records c when it equates variables (or a variable and a constant).
func (p *Path) learnEq(c *Term) {
	if c.op == OpVar && c.w == 0 {
		p.union(c, p.f.True)
		return
	}
	if c.op == OpNot && c.a.op == OpVar {
		p.union(c.a, p.f.False)
		return
	}
	if c.op != OpEq {
		return
	}
	a, b := c.a, c.b
	if a.op == OpVar {
		a = p.find(a)
	}
	if b.op == OpVar {
		b = p.find(b)
	}
	if a == b || (a.op != OpVar && b.op != OpVar) {
		return
	}
	switch {
	case a.op == OpConst:
		p.union(b, a)
	case b.op == OpConst:
		p.union(a, b)
	case a.op == OpVar && b.op == OpVar:
		if a.ord < b.ord {
			p.union(b, a)
		} else {
			p.union(a, b)
		}
	}
}

func (p *Path) union(v, r *Term) {
	if v == r || v.op != OpVar {
		return
	}
	if p.uf == nil {
		p.uf = map[*Term]*Term{}
	}
	p.uf[v] = r
	p.smemo = nil
}

// subst replaces variables by their representatives.
func (p *Path) subst(t *Term) *Term {
	if t == nil || t.op == OpConst || len(p.uf) == 0 {
		return t
	}
	if t.op == OpVar {
		return p.find(t)
	}
	hit := false
	for _, v := range p.f.termVars(t) {
		if _, ok := p.uf[v]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if r, ok := p.smemo[t]; ok {
		return r
	}
	f := p.f
	a, b, c := p.subst(t.a), p.subst(t.b), p.subst(t.c)
	var r *Term
	switch t.op {
	case OpNot:
		r = f.Not(a)
	case OpAnd:
		r = f.And(a, b)
	case OpOr:
		r = f.Or(a, b)
	case OpEq:
		r = f.Eq(a, b)
	case OpIte:
		r = f.Ite(a, b, c)
	case OpBVNot:
		r = f.BVNot(a)
	case OpExtract:
		r = f.Extract(a, uint8(t.val>>8), uint8(t.val))
	case OpConcat:
		r = f.Concat(a, b)
	case OpZext:
		r = f.Zext(a, t.w)
	case OpSext:
		r = f.Sext(a, t.w)
	default:
		r = f.bin(t.op, a, b)
	}
	if p.smemo == nil {
		p.smemo = map[*Term]*Term{}
	}
	p.smemo[t] = r
	return r
}
