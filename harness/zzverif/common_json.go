package zzverif

import (
	"encoding/json"
	"errors"
	"io"

	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

var errSink = errors.New("no space left")

// textSink collects what is written, and fails at call number failAt.
type textSink struct {
	b      []byte
	calls  int
	failAt int
	failed bool
}

func (s *textSink) Write(b []byte) (int, error) {
	s.calls++
	if s.calls == s.failAt {
		s.failed = true
		return 0, errSink
	}
	s.b = append(s.b, b...)
	return len(b), nil
}

// textSource reads a document in chunks and ends with the given error.
type textSource struct {
	b     []byte
	chunk int
	err   error
}

func (s *textSource) Read(b []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.err
	}
	n := len(s.b)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	n = copy(b, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func decodeWith(j lpg.JSON, doc string) (*lpg.Graph, error) {
	g := lpg.NewGraph()
	err := j.Decode(g, json.NewDecoder(&textSource{b: []byte(doc), err: io.EOF}))
	return g, err
}

// jEq is equality of decoded JSON values.
func jEq(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case int:
		y, ok := b.(int)
		return ok && x == y
	case []int:
		y, ok := b.([]int)
		return ok && len(x) == len(y)
	case []string:
		y, ok := b.([]string)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = zz.And(r, x[i] == y[i])
		}
		return r
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = zz.And(r, jEq(x[i], y[i]))
		}
		return r
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for k, v := range x {
			w, has := y[k]
			r = zz.And(r, has)
			if has {
				r = zz.And(r, jEq(v, w))
			}
		}
		return r
	}
	return false
}

// A graph as a document describes it.
type jNode struct {
	labels []string
	props  map[string]any // as decoded
	given  map[string]any
}

type jEdge struct {
	f, t  int
	label string
	props map[string]any
	given map[string]any
}

type jGraph struct {
	nodes []jNode
	edges []jEdge
}

func propsAre(p lpg.WithProperties, forEach func(func(string, any) bool) bool, want map[string]any) bool {
	r := true
	n := 0
	forEach(func(k string, v any) bool {
		n++
		w, ok := want[k]
		r = zz.And(r, ok)
		if ok {
			r = zz.And(r, jEq(w, v))
		}
		return true
	})
	return zz.And(r, n == len(want))
}

func labelsAre(s lpg.StringSet, want []string) bool {
	l := s.Slice()
	return zz.And(allIn(l, want), allIn(want, l))
}

// source is the description of the graph that was encoded.
func (d *jGraph) source() *jGraph {
	r := &jGraph{append([]jNode{}, d.nodes...), append([]jEdge{}, d.edges...)}
	for i, n := range r.nodes {
		if n.given != nil {
			r.nodes[i].props = n.given
		}
	}
	for i, n := range r.edges {
		if n.given != nil {
			r.edges[i].props = n.given
		}
	}
	return r
}

// is: some bijection of the nodes and edges shows that g is the described
// graph.
func (d *jGraph) is(g *lpg.Graph) bool {
	lim := len(d.nodes) + len(d.edges) + 2
	nodes, edges := itNodes(g.GetNodes(), lim), itEdges(g.GetEdges(), lim)
	if len(nodes) != len(d.nodes) || len(edges) != len(d.edges) {
		return false
	}
	// the conditions, computed once
	nodeIs := map[[2]int]bool{}
	for i, x := range d.nodes {
		for j, n := range nodes {
			nodeIs[[2]int{i, j}] = zz.And(labelsAre(n.GetLabels(), x.labels), propsAre(n, n.ForEachProperty, x.props))
		}
	}
	edgeIs := map[[2]int]bool{}
	for i, x := range d.edges {
		for j, e := range edges {
			edgeIs[[2]int{i, j}] = zz.And(e.GetLabel() == x.label, propsAre(e, e.ForEachProperty, x.props))
		}
	}
	r := false
	at := make([]int, len(nodes))
	usedN := make([]bool, len(nodes))
	usedE := make([]bool, len(edges))
	var recE func(i int, c bool)
	recE = func(i int, c bool) {
		if i == len(edges) {
			r = zz.Or(r, c)
			return
		}
		for j, e := range edges {
			if !usedE[j] && e.GetFrom() == nodes[at[d.edges[i].f]] && e.GetTo() == nodes[at[d.edges[i].t]] {
				usedE[j] = true
				recE(i+1, zz.And(c, edgeIs[[2]int{i, j}]))
				usedE[j] = false
			}
		}
	}
	var recN func(i int, c bool)
	recN = func(i int, c bool) {
		if i == len(nodes) {
			recE(0, c)
			return
		}
		for j := range nodes {
			if !usedN[j] {
				usedN[j] = true
				at[i] = j
				recN(i+1, zz.And(c, nodeIs[[2]int{i, j}]))
				usedN[j] = false
			}
		}
	}
	recN(0, true)
	return r
}
