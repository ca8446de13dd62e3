package zzverif

import (
	"context"
	"errors"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

var errCancelled = errors.New("cancelled")

// cctx is a context that is cancelled after a number of looks at it, whether
// by Err or by Done.
type cctx struct {
	left  int
	fired bool
	done  chan struct{}
}

func (c *cctx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *cctx) Value(any) any               { return nil }
func (c *cctx) Err() error {
	c.look()
	if c.fired {
		return errCancelled
	}
	return nil
}
func (c *cctx) Done() <-chan struct{} {
	c.look()
	return c.done
}

func (c *cctx) look() {
	if c.left > 0 {
		c.left--
	} else if !c.fired {
		c.fired = true
		close(c.done)
	}
}

// relation is an arbitrary relation between the nodes or edges of two graphs.
type relation struct {
	name string
	v    map[[2]int]bool
}

func newRelation(name string, a, b int) *relation {
	r := &relation{name, map[[2]int]bool{}}
	for i := 0; i < a; i++ {
		for j := 0; j < b; j++ {
			r.v[[2]int{i, j}] = zz.Bool(name)
		}
	}
	return r
}

// isomorphic is the reference: some bijection of the nodes and some
// bijection of the edges respects the relations.
func isomorphic(a, b *world, rn, re *relation) bool {
	if len(a.nodes) != len(b.nodes) || len(a.edges) != len(b.edges) {
		return false
	}
	p := make([]int, len(a.nodes))
	usedN := make([]bool, len(b.nodes))
	usedE := make([]bool, len(b.edges))
	r := false
	var edges func(i int, c bool)
	edges = func(i int, c bool) {
		if i == len(a.edges) {
			r = zz.Or(r, c)
			return
		}
		for j, e := range b.edges {
			if usedE[j] || e.f != p[a.edges[i].f] || e.t != p[a.edges[i].t] {
				continue
			}
			usedE[j] = true
			edges(i+1, zz.And(c, re.v[[2]int{i, j}]))
			usedE[j] = false
		}
	}
	var nodes func(i int, c bool)
	nodes = func(i int, c bool) {
		if i == len(a.nodes) {
			edges(0, c)
			return
		}
		for j := range b.nodes {
			if usedN[j] {
				continue
			}
			usedN[j] = true
			p[i] = j
			nodes(i+1, zz.And(c, rn.v[[2]int{i, j}]))
			usedN[j] = false
		}
	}
	nodes(0, true)
	return r
}

func shape(w *world, name string, n, m int) {
	someNodes(w, n)
	for i := 0; i < m; i++ {
		w.addEdge(zz.Choose(name+".from", n), zz.Choose(name+".to", n), "E", nil)
	}
}

func checkIso(ctx context.Context, a, b *world, rn, re *relation) (bool, error) {
	return lpg.CheckIsomorphism(ctx, a.g, b.g, func(x, y *lpg.Node) bool {
		return rn.v[[2]int{a.indexOf(x), b.indexOf(y)}]
	}, func(x, y *lpg.Edge) bool {
		return re.v[[2]int{a.edgeIndex(x), b.edgeIndex(y)}]
	})
}

// Arbitrary node and edge relations.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C22_relations() {
	a, b := newWorld(), newWorld()
	n := zz.Choose("n", zz.Param("n")+1)
	m := 0
	if n > 0 {
		m = zz.Choose("m", zz.Param("m")+1)
	}
	shape(a, "a", n, m)
	shape(b, "b", n, m)
	rn, re := newRelation("node", n, n), newRelation("edge", m, m)
	got, err := checkIso(context.Background(), a, b, rn, re)
	zz.Assert(err == nil, "error")
	zz.Assert(zz.Iff(got, isomorphic(a, b, rn, re)), "isomorphic")
}

// Larger graphs whose nodes are distinguished by arbitrary labels.
//
//sym:quick n=3 m=2
//sym:thorough n=3 m=3
func H_C22_labels() {
	a, b := newWorld(), newWorld()
	n, m := zz.Param("n"), zz.Param("m")
	shape(a, "a", n, m)
	shape(b, "b", n, m)
	la, lb := []bool{}, []bool{}
	for i := 0; i < n; i++ {
		la = append(la, i == 0 && zz.Bool("a.label"))
		lb = append(lb, zz.Bool("b.label"))
	}
	rn, re := &relation{"", map[[2]int]bool{}}, &relation{"", map[[2]int]bool{}}
	for i := range la {
		for j := range lb {
			rn.v[[2]int{i, j}] = zz.Iff(la[i], lb[j])
		}
	}
	for i := 0; i < m; i++ {
		for j := 0; j < m; j++ {
			re.v[[2]int{i, j}] = true
		}
	}
	got, err := checkIso(context.Background(), a, b, rn, re)
	zz.Assert(err == nil, "error")
	zz.Assert(zz.Iff(got, isomorphic(a, b, rn, re)), "isomorphic")
}

// Graphs of different sizes.
//
//sym:both
func H_C22_sizes() {
	a, b := newWorld(), newWorld()
	shape(a, "a", 1+zz.Choose("an", 2), zz.Choose("am", 3))
	shape(b, "b", 1+zz.Choose("bn", 2), zz.Choose("bm", 3))
	rn, re := newRelation("node", len(a.nodes), len(b.nodes)), newRelation("edge", len(a.edges), len(b.edges))
	zz.Assume(len(a.nodes) != len(b.nodes) || len(a.edges) != len(b.edges))
	got, err := checkIso(context.Background(), a, b, rn, re)
	zz.Assert(err == nil && !got, "different sizes")
}

// Cancellation at any moment gives an error or, when the cancellation was
// not noticed, the right answer.
//
//sym:quick n=2 m=1
//sym:thorough n=2 m=2
func H_C22_cancel() {
	a, b := newWorld(), newWorld()
	n := zz.Choose("n", zz.Param("n")) + 1
	m := zz.Choose("m", zz.Param("m")+1)
	shape(a, "a", n, m)
	shape(b, "b", n, m)
	rn, re := newRelation("node", n, n), newRelation("edge", m, m)
	ctx := &cctx{left: zz.Choose("cancelAfter", 6), done: make(chan struct{})}
	at := ctx.left
	got, err := checkIso(ctx, a, b, rn, re)
	if ctx.fired {
		zz.Assert(err == errCancelled, "cancellation is reported")
		zz.Cover("cancelled")
	} else {
		zz.Assert(err == nil, "error")
		zz.Assert(zz.Iff(got, isomorphic(a, b, rn, re)), "isomorphic")
	}
	if at == 0 {
		// cancelled from the start: an answer only if no search is needed
		some := true
		for i := range a.nodes {
			r := false
			for j := range b.nodes {
				r = zz.Or(r, rn.v[[2]int{i, j}])
			}
			some = zz.And(some, r)
		}
		zz.Assert(zz.Or(err != nil, zz.Not(some)), "cancelled before the search")
	}
}

// Larger graphs: a cycle, two cycles, a star, or a row, against the same with
// the nodes in another order, and possibly one edge turned or moved.
//
//sym:quick n=4
//sym:thorough n=5
func H_C22_big() {
	n := zz.Param("n")
	a, b := newWorld(), newWorld()
	someNodes(a, n)
	someNodes(b, n)
	perm := make([]int, n)
	used := make([]bool, n)
	for i := range perm {
		perm[i] = zz.Choose("perm", n)
		zz.Assume(!used[perm[i]])
		used[perm[i]] = true
	}
	kind := zz.Choose("shape", 4)
	for i := 0; i < n; i++ {
		j := (i + 1) % n
		switch kind {
		case 1:
			j = i ^ 1
			if j == n {
				j = i
			}
		case 2:
			j = 0
		case 3:
			if j == 0 {
				j = i
			}
		}
		a.addEdge(i, j, "E", nil)
	}
	changed := zz.Choose("changed", n+1)
	for i := range a.edges {
		e := a.edges[len(a.edges)-1-i]
		f, t := perm[e.f], perm[e.t]
		if i == changed {
			if zz.Bool("turned") {
				f, t = t, f
			} else {
				t = zz.Choose("moved", n)
			}
		}
		b.addEdge(f, t, "E", nil)
	}
	rn, re := &relation{"", map[[2]int]bool{}}, &relation{"", map[[2]int]bool{}}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			rn.v[[2]int{i, j}] = true
			re.v[[2]int{i, j}] = true
		}
	}
	got, err := checkIso(context.Background(), a, b, rn, re)
	zz.Assert(err == nil, "error")
	zz.Assert(got == isomorphic(a, b, rn, re), "isomorphic")
}
