package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Engine is the loaded program, shared by all runs.
type Engine struct {
	prog                                                   *ssa.Program
	sizes                                                  types.Sizes
	repoPkg                                                *ssa.Package
	symPkg                                                 *ssa.Package
	verifPkg                                               *ssa.Package
	funcs                                                  sync.Map // *ssa.Function -> *Func
	mu                                                     sync.Mutex
	allFuncs                                               []*Func
	nfuncs                                                 int
	nblocks                                                int
	tmap                                                   typeutil.Map
	ntypes                                                 int
	tcache                                                 sync.Map
	icache                                                 sync.Map
	mcache                                                 sync.Map
	rtErrType                                              types.Type
	noInit                                                 map[string]bool
	maxDepth                                               int
	maxSteps                                               int64
	workers                                                int
	solverBin                                              string
	errIface, wrapErrPtr                                   types.Type
	errStrPtr                                              types.Type
	ioWriterWrite, ioReaderRead, stringMethod, errorMethod *types.Func
	jsonPkg                                                *ssa.Package
	jsonTypes                                              sync.Map
	byPath                                                 map[string]*ssa.Package
	solverTmo                                              int
}

func (e *Engine) typeID(t types.Type) int {
	if v, ok := e.tcache.Load(t); ok {
		return v.(int)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if v := e.tmap.At(t); v != nil {
		e.tcache.Store(t, v.(int))
		return v.(int)
	}
	e.ntypes++
	e.tmap.Set(t, e.ntypes)
	e.tcache.Store(t, e.ntypes)
	return e.ntypes
}

func (e *Engine) identical(a, b types.Type) bool {
	return a == b || e.typeID(a) == e.typeID(b)
}

func (e *Engine) implements(t, i types.Type) bool {
	k := [2]int{e.typeID(t), e.typeID(i)}
	if v, ok := e.icache.Load(k); ok {
		return v.(bool)
	}
	e.mu.Lock()
	r := types.Implements(t, i.Underlying().(*types.Interface))
	e.mu.Unlock()
	e.icache.Store(k, r)
	return r
}

type mkey struct {
	t int
	m *types.Func
}

func (w *Worker) method(t types.Type, m *types.Func) *Func {
	k := mkey{w.e.typeID(t), m}
	if f, ok := w.mcache[k]; ok {
		return f
	}
	w.e.mu.Lock()
	fn := w.e.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.e.mu.Unlock()
	if fn == nil {
		unsupported("method %s of %s", m.Name(), t)
	}
	f := w.e.lazyFn(fn)
	w.mcache[k] = f
	return f
}

func (e *Engine) isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pkg := fn.Pkg
	if pkg == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg() == e.repoPkg.Pkg && fn.Synthetic == ""
		}
		return false
	}
	if pkg != e.repoPkg {
		return false
	}
	pos := e.prog.Fset.Position(fn.Pos())
	return !strings.Contains(pos.Filename, "zz_verif")
}

// ---- one run of one harness ----

type decision struct {
	v       int64
	implied bool
}

type job struct {
	prefix []decision
	model  Model
}

type Violation struct {
	Harness string
	ID      string
	Kind    string // assert, panic, limit, frozen
	Msg     string
	Inputs  map[string]any
	Param   map[string]int
}

type Run struct {
	e        *Engine
	harness  string
	prop     string
	fn       *ssa.Function
	params   map[string]int
	mapMode  string
	deadline time.Time
	maxViol  int

	mu       sync.Mutex
	hungry   atomic.Int32
	pool     []job
	active   int
	cond     *sync.Cond
	stopped  atomic.Bool
	timedOut bool

	paths, infeasible, unsupp, asserts, assertQ, steps, forks int64
	unknowns                                                  int64
	queries, sats, unsats                                     int64
	solverDur, solverMax                                      time.Duration
	unsuppMsgs                                                map[string]int
	viols                                                     []Violation
	violKeys                                                  map[string]int
	unlisted                                                  func(harness, id string) bool
	nunlisted                                                 int
	qc                                                        *qcache
	cacheHits                                                 int64
	covers                                                    map[string]int
	samples                                                   []sample
	nsample                                                   int64
	fnHit                                                     map[int]int64
	blkHit                                                    map[int]bool
	seed                                                      uint64
	maxSamples                                                int
	wall                                                      time.Duration
	maxPathDec                                                int
}

type sample struct {
	Inputs map[string]any `json:"inputs"`
	Obs    []string       `json:"obs"`
	Pc     int            `json:"pc"`
	obsSet bool
}

type Worker struct {
	e      *Engine
	run    *Run
	id     int
	f      *Factory
	s      *Solver
	stack  []job
	fnHit  map[int]int64
	blkHit []bool
	mcache map[mkey]*Func
	npaths int64

	paths, infeasible, unsupp, asserts, assertQ, steps, forks, unknowns int64
	queries, sats, unsats                                               int64
	solverDur, solverMax                                                time.Duration
	unsuppMsgs                                                          map[string]int
	covers                                                              map[string]int
	maxDec                                                              int
	cacheHits                                                           int64
	work, slice                                                         []*Term
	inSlice                                                             []bool
	cbuf                                                                []byte
	parts                                                               [][2]int
}

type Path struct {
	uf        map[*Term]*Term
	smemo     map[*Term]*Term
	w         *Worker
	f         *Factory
	prefix    []decision
	pos       int
	taken     []decision
	pc        []*Term
	pcset     map[int32]bool
	model     Model
	vars      []*Term
	inputs    []input
	names     map[string]int
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]bool
	depth     int
	steps     int64
	frozen    *frozenSet
	onces     map[*Value]bool
	jsonDecs  map[*Value]*jsonDec
	jsonEncs  map[*Value]*jsonEnc
	revBit    *Term
	ranks     map[any]int
	altBit    *Term
	mapRanges int
	obs       []obsItem
	viol      bool
}

type input struct {
	name string
	kind string // int, bool, string, choose
	t    *Term
	k    intKind
	s    []*Term
}

type obsItem struct {
	name string
	v    Value
	t    types.Type
}

type frozenSet struct {
	cells map[*Value]bool
	maps  map[*Map]bool
}

func NewRun(e *Engine, prop, harness string, fn *ssa.Function, params map[string]int) *Run {
	r := &Run{e: e, prop: prop, harness: harness, fn: fn, params: params, mapMode: "rev",
		unsuppMsgs: map[string]int{}, violKeys: map[string]int{}, covers: map[string]int{},
		fnHit: map[int]int64{}, blkHit: map[int]bool{}, maxSamples: 12, maxViol: 6, qc: newQcache()}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func (r *Run) Exec(workers int) error {
	t0 := time.Now()
	r.pool = []job{{model: Model{}}}
	ws := make([]*Worker, workers)
	var wg sync.WaitGroup
	for i := range ws {
		w := &Worker{e: r.e, run: r, id: i, fnHit: map[int]int64{}, mcache: map[mkey]*Func{}, unsuppMsgs: map[string]int{}, covers: map[string]int{}}
		ws[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop()
		}()
	}
	wg.Wait()
	for _, w := range ws {
		r.paths += w.paths
		r.infeasible += w.infeasible
		r.unsupp += w.unsupp
		r.asserts += w.asserts
		r.assertQ += w.assertQ
		r.steps += w.steps
		r.forks += w.forks
		r.unknowns += w.unknowns
		w.closeSolver()
		r.queries += w.queries
		r.cacheHits += w.cacheHits
		r.sats += w.sats
		r.unsats += w.unsats
		r.solverDur += w.solverDur
		if w.solverMax > r.solverMax {
			r.solverMax = w.solverMax
		}
		if w.maxDec > r.maxPathDec {
			r.maxPathDec = w.maxDec
		}
		for k, v := range w.unsuppMsgs {
			r.unsuppMsgs[k] += v
		}
		for k, v := range w.covers {
			r.covers[k] += v
		}
		for k, v := range w.fnHit {
			r.fnHit[k] += v
		}
		for i, b := range w.blkHit {
			if b {
				r.blkHit[i] = true
			}
		}
	}
	r.wall = time.Since(t0)
	return nil
}

func (w *Worker) closeSolver() {
	if w.s != nil {
		w.queries += w.s.queries
		w.sats += w.s.sats
		w.unsats += w.s.unsats
		w.solverDur += w.s.dur
		if w.s.maxDur > w.solverMax {
			w.solverMax = w.s.maxDur
		}
		w.s.Close()
		w.s = nil
	}
}

func (w *Worker) reset() {
	w.closeSolver()
	w.f = NewFactory()
	s, err := NewSolver(w.e.solverBin, w.e.solverTmo)
	if err != nil {
		panic(err)
	}
	w.s = s
}

// get returns the next job: local DFS stack first, then the shared pool.
func (w *Worker) get() (job, bool) {
	r := w.run
	if r.stopped.Load() {
		r.mu.Lock()
		r.cond.Broadcast()
		r.mu.Unlock()
		return job{}, false
	}
	if n := len(w.stack); n > 0 {
		if r.hungry.Load() > 0 && n > 1 {
			// give away the oldest (largest) half
			h := n / 2
			if h > 64 {
				h = 64
			}
			r.mu.Lock()
			r.pool = append(r.pool, w.stack[:h]...)
			r.cond.Broadcast()
			r.mu.Unlock()
			w.stack = append([]job(nil), w.stack[h:]...)
			n = len(w.stack)
		}
		j := w.stack[n-1]
		w.stack[n-1] = job{}
		w.stack = w.stack[:n-1]
		return j, true
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.active--
	r.hungry.Add(1)
	defer r.hungry.Add(-1)
	for {
		if r.stopped.Load() {
			r.cond.Broadcast()
			return job{}, false
		}
		if n := len(r.pool); n > 0 {
			j := r.pool[n-1]
			r.pool = r.pool[:n-1]
			r.active++
			return j, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return job{}, false
		}
		r.cond.Wait()
	}
}

func (w *Worker) loop() {
	r := w.run
	r.mu.Lock()
	r.active++
	r.mu.Unlock()
	w.reset()
	for {
		j, ok := w.get()
		if !ok {
			return
		}
		if !r.deadline.IsZero() && time.Now().After(r.deadline) {
			r.mu.Lock()
			r.timedOut = true
			r.mu.Unlock()
			r.stopped.Store(true)
			r.mu.Lock()
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		if w.f.n > 400000 || w.s.dead {
			w.reset()
		}
		w.runPath(j)
	}
}

func (w *Worker) runPath(j job) {
	p := &Path{w: w, f: w.f, prefix: j.prefix, model: j.model, pcset: map[int32]bool{},
		names: map[string]int{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}}
	if p.model == nil {
		p.model = Model{}
	}
	w.f.newGen()
	for len(w.blkHit) < w.e.blockCount() {
		w.blkHit = append(w.blkHit, make([]bool, 4096)...)
	}
	kind, msg := "done", ""
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch e := x.(type) {
			case abortPath:
				kind, msg = e.kind, e.msg
			case targetPanic:
				kind, msg = "panic", p.panicString(e.v)
			default:
				panic(x)
			}
		}()
		f := w.e.fnOf(w.run.fn)
		p.callFn(f, nil, nil, nil)
	}()
	w.steps += p.steps
	w.npaths++
	if len(p.taken) > w.maxDec {
		w.maxDec = len(p.taken)
	}
	switch kind {
	case "done":
		w.paths++
		if !p.viol {
			w.run.offerSample(p)
		}
	case "panic":
		w.paths++
		p.violation("panic", "panic", "uncaught panic: "+msg, p.model)
	case "limit":
		w.paths++
		p.violation("termination", "limit", msg, p.model)
	case "infeasible":
		w.infeasible++
	case "stop":
		w.paths++
	case "unsupported":
		w.unsupp++
		w.unsuppMsgs[msg]++
	}
}

func (e *Engine) blockCount() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.nblocks + 2048
}

func (p *Path) panicString(v Value) string {
	i, ok := v.(iface)
	if !ok || i.t == nil {
		return fmt.Sprint(v)
	}
	switch s := i.v.(type) {
	case string:
		return s
	case int64:
		return fmt.Sprint(s)
	}
	return "value of type " + i.t.String()
}

// ---- solver-facing path operations ----

func (p *Path) addPC(c *Term) {
	if c.isConst() || p.pcset[c.id] {
		return
	}
	p.pc = append(p.pc, c)
	p.note(c, true)
	p.learnEq(c)
}

// note records the truth of c (and of its conjuncts) on this path.
func (p *Path) note(c *Term, v bool) {
	for c.op == OpNot {
		c, v = c.a, !v
	}
	if v {
		p.pcset[c.id] = true
		if n := p.f.Not(c); n.op == OpNot {
			p.pcset[n.id] = false
		}
		if c.op == OpAnd {
			p.note(c.a, true)
			p.note(c.b, true)
		}
	} else {
		p.pcset[c.id] = false
		n := p.f.Not(c)
		p.pcset[n.id] = true
		if c.op == OpOr {
			p.note(c.a, false)
			p.note(c.b, false)
		}
	}
}

func (p *Path) known(c *Term) (bool, bool) {
	v, ok := p.pcset[c.id]
	return v, ok
}

func (p *Path) eval(c *Term) uint64 { return p.f.Eval(c, p.model) }

func (p *Path) setModel(m Model) {
	p.model = m
	p.f.newGen()
}

// branch decides a condition, forking when both sides are feasible.
func (p *Path) branch(c *Term) bool {
	c = p.simplify(c)
	if c.isConst() {
		return c.val != 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.taken = append(p.taken, d)
		v := d.v != 0
		lit := c
		if !v {
			lit = p.f.Not(c)
		}
		if d.implied {
			p.note(lit, true)
		} else {
			p.addPC(lit)
		}
		return v
	}
	v := p.eval(c) != 0
	lit, other := c, p.f.Not(c)
	if !v {
		lit, other = other, c
	}
	res, m := p.check(other)
	d := decision{v: b2i(v)}
	switch res {
	case Unsat:
		d.implied = true
		p.note(lit, true)
	case Sat:
		p.w.forks++
		pre := make([]decision, len(p.taken)+1)
		copy(pre, p.taken)
		pre[len(p.taken)] = decision{v: b2i(!v)}
		p.w.stack = append(p.w.stack, job{pre, m})
		p.addPC(lit)
	case Unknown:
		p.w.unknowns++
		p.addPC(lit)
	}
	p.taken = append(p.taken, d)
	return v
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// pick proposes a concrete value for t; deterministic on replay because it
// is recorded as a decision.
func (p *Path) pick(t *Term) *Term {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.taken = append(p.taken, d)
		return p.f.BV(uint64(d.v), t.w)
	}
	v := p.eval(t)
	p.taken = append(p.taken, decision{v: int64(v)})
	return p.f.BV(v, t.w)
}

func (p *Path) uniq(name string) string {
	n := p.names[name]
	p.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func smtName(name string) string { return "|" + name + "|" }

func (p *Path) newVar(name string, w uint8) *Term {
	t := p.f.Var(smtName(name), w)
	t.ord = int32(len(p.vars))
	p.vars = append(p.vars, t)
	return t
}

// choose is an n-way case split on a fresh variable.
func (p *Path) choose(name string, n int) int {
	un := p.uniq(name)
	if n <= 1 {
		return 0
	}
	t := p.newVar(un, 8)
	p.inputs = append(p.inputs, input{name: un, kind: "int", t: t, k: intKind{8, false}})
	var k int
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.taken = append(p.taken, d)
		k = int(d.v)
	} else {
		for i := n - 1; i > 0; i-- {
			pre := make([]decision, len(p.taken)+1)
			copy(pre, p.taken)
			pre[len(p.taken)] = decision{v: int64(i)}
			m := make(Model, len(p.model)+1)
			for a, b := range p.model {
				m[a] = b
			}
			m[t.name] = uint64(i)
			p.w.stack = append(p.w.stack, job{pre, m})
		}
		p.w.forks += int64(n - 1)
		p.model[t.name] = 0
		p.taken = append(p.taken, decision{v: 0})
	}
	p.addPC(p.f.Eq(t, p.f.BV(uint64(k), 8)))
	return k
}

func (p *Path) mapRevBit() *Term {
	if p.revBit == nil {
		n := p.uniq("maprev")
		p.revBit = p.newVar(n, 0)
	}
	return p.revBit
}

// mapAltBit tells whether every second iteration over a map goes the other
// way.
func (p *Path) mapAltBit() *Term {
	if p.altBit == nil {
		p.altBit = p.newVar(p.uniq("mapalt"), 0)
	}
	return p.altBit
}

func (p *Path) assume(c *Term) {
	c = p.simplify(c)
	if c.isConst() {
		if c.val == 0 {
			panic(abortPath{"infeasible", ""})
		}
		return
	}
	if v, ok := p.known(c); ok {
		if !v {
			panic(abortPath{"infeasible", ""})
		}
		return
	}
	if p.eval(c) == 0 {
		res, m := p.check(c)
		switch res {
		case Unsat:
			panic(abortPath{"infeasible", ""})
		case Unknown:
			p.w.unknowns++
			panic(abortPath{"unsupported", "solver gave up on an assumption"})
		}
		p.setModel(m)
	}
	p.addPC(c)
}

func (p *Path) assert(c *Term, id string) {
	c = p.simplify(c)
	if c.isConst() {
		if p.pos >= len(p.prefix) {
			p.w.asserts++
			if c.val == 0 {
				p.violation(id, "assert", "assertion "+id+" fails", p.model)
				panic(abortPath{"stop", ""})
			}
		}
		return
	}
	if v, ok := p.known(c); ok && v {
		if p.pos >= len(p.prefix) {
			p.w.asserts++
		}
		return
	}
	if p.pos < len(p.prefix) {
		// already decided by the path this one forked from
		d := p.prefix[p.pos]
		p.pos++
		p.taken = append(p.taken, d)
		if d.implied {
			p.note(c, true)
		} else {
			p.addPC(c)
		}
		return
	}
	p.w.asserts++
	d := decision{v: 1}
	defer func() { p.taken = append(p.taken, d) }()
	p.w.assertQ++
	if p.eval(c) == 0 {
		p.violation(id, "assert", "assertion "+id+" fails", p.model)
	} else {
		res, m := p.check(p.f.Not(c))
		switch res {
		case Unsat:
			d.implied = true
			p.note(c, true)
			return
		case Unknown:
			p.w.unknowns++
			p.addPC(c)
			return
		case Sat:
			p.violation(id, "assert", "assertion "+id+" fails", m)
			p.addPC(c)
			return
		}
	}
	res, m := p.check(c)
	if res != Sat {
		panic(abortPath{"stop", ""})
	}
	p.setModel(m)
	p.addPC(c)
}

func (p *Path) concreteInputs(m Model) map[string]any {
	old := p.model
	p.setModel(m)
	defer p.setModel(old)
	r := map[string]any{}
	for _, in := range p.inputs {
		switch in.kind {
		case "bool":
			r[in.name] = p.eval(in.t) != 0
		case "int":
			v := p.eval(in.t)
			if in.k.signed {
				r[in.name] = sx(v, in.k.w)
			} else {
				r[in.name] = int64(v)
			}
		case "string":
			var b []byte
			for _, s := range in.s {
				v := p.eval(s)
				if v == 0 {
					break
				}
				b = append(b, byte(v-1))
			}
			r[in.name] = string(b)
		}
	}
	return r
}

func (p *Path) violation(id, kind, msg string, m Model) {
	p.viol = true
	r := p.w.run
	in := p.concreteInputs(m)
	key := id + "|" + kind
	if kind != "assert" {
		key += "|" + msg
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violKeys[key]++
	if r.unlisted == nil || r.unlisted(r.harness, id) {
		r.nunlisted++
		if kind == "limit" {
			// a path that does not end takes very long
			r.nunlisted += 29
		}
		if r.nunlisted >= 300 {
			r.stopped.Store(true)
		}
	}
	if r.violKeys[key] > r.maxViol {
		return
	}
	r.viols = append(r.viols, Violation{Harness: r.harness, ID: id, Kind: kind, Msg: msg, Inputs: in, Param: r.params})
}

// offerSample keeps a reservoir of passing paths for replay against the
// compiled program.
func (r *Run) offerSample(p *Path) {
	n := atomic.AddInt64(&r.nsample, 1)
	h := splitmix(r.seed + uint64(n)*0x9e3779b97f4a7c15)
	slot := int(n - 1)
	if n > int64(r.maxSamples) {
		k := h % uint64(n)
		if k >= uint64(r.maxSamples) {
			return
		}
		slot = int(k)
	}
	s := sample{Inputs: p.concreteInputs(p.model), Pc: len(p.pc)}
	for _, o := range p.obs {
		s.Obs = append(s.Obs, o.name+"="+p.obsString(o.v))
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for len(r.samples) <= slot {
		r.samples = append(r.samples, sample{})
	}
	r.samples[slot] = s
}

func (p *Path) obsString(v Value) string {
	switch x := v.(type) {
	case int64:
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", x)
	case *Term:
		u := p.eval(x)
		if x.w == 0 {
			return fmt.Sprint(u != 0)
		}
		return fmt.Sprint(sx(u, x.w))
	case *SymStr:
		var b []byte
		for _, s := range x.slots {
			u := p.eval(s)
			if u == 0 {
				break
			}
			b = append(b, byte(u-1))
		}
		return fmt.Sprintf("%q", string(b))
	case float64:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T", v)
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// ---- frozen heap ----

func (p *Path) freeze(roots []Value) {
	fs := &frozenSet{cells: map[*Value]bool{}, maps: map[*Map]bool{}}
	seen := map[*Value]bool{}
	var visit func(v Value)
	visitCell := func(a *Value) {
		if a == nil || seen[a] {
			return
		}
		seen[a] = true
		fs.cells[a] = true
		visit(*a)
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case *Value:
			visitCell(x)
		case structure:
			for i := range x {
				visitCell(&x[i])
			}
		case array:
			for i := range x {
				visitCell(&x[i])
			}
		case []Value:
			x = x[:cap(x)]
			for i := range x {
				visitCell(&x[i])
			}
		case *Map:
			if x == nil || fs.maps[x] {
				return
			}
			fs.maps[x] = true
			for _, e := range x.live() {
				visit(e.k)
				visit(e.v)
			}
		case iface:
			visit(x.v)
		case tuple:
			for _, e := range x {
				visit(e)
			}
		case *Closure:
			if x != nil {
				for _, e := range x.env {
					visit(e)
				}
			}
		}
	}
	for _, v := range roots {
		visit(v)
	}
	p.frozen = fs
}

// repoGlobals are the package-level variables of the code under test.
func (p *Path) repoGlobals() []Value {
	var r []Value
	for _, pkg := range p.w.e.prog.AllPackages() {
		if pkg.Pkg.Path() != repoPath {
			continue
		}
		for _, n := range sortedKeys(pkg.Members) {
			if g, ok := pkg.Members[n].(*ssa.Global); ok && n != "init$guard" {
				r = append(r, p.global(g))
			}
		}
	}
	return r
}

func (p *Path) noteStore(a *Value) {
	if p.frozen.cells[a] {
		p.frozenViol()
	}
}

func (p *Path) noteMapWrite(m *Map) {
	if p.frozen != nil && p.frozen.maps[m] {
		p.frozenViol()
	}
}

func (p *Path) frozenViol() {
	p.frozen = nil
	if p.pos >= len(p.prefix) {
		p.violation("frozen", "frozen", "a read-only operation writes to the shared graph", p.model)
	}
	panic(abortPath{"stop", ""})
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
