package zzverif

import (
	"encoding/json"
	"errors"
	"math"

	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func plain(name string) string { return zz.StringIn(name, 1, 'a', 'z') }

// someJSON is a property value that JSON can represent, and what it is
// after decoding.
func someJSON(name string, kinds int) (any, any) {
	switch zz.Choose(name+".kind", kinds) {
	case 0:
		s := plain(name)
		return s, s
	case 1:
		b := zz.Bool(name)
		return b, b
	case 2:
		i := zz.Int(name, -1, 1)
		return i, float64(i)
	case 3:
		return nil, nil
	case 4:
		return 1.5, 1.5
	case 5:
		s := plain(name)
		return []string{s, "x"}, []any{s, "x"}
	case 6:
		s := plain(name)
		return map[string]any{"k": s, s: []any{}}, map[string]any{"k": s, s: []any{}}
	case 7:
		return []int{}, []any{}
	}
	return nil, nil
}

func someProps(name string, max, kinds int) (map[string]any, map[string]any) {
	n := zz.Choose(name+".n", max+1)
	in, out := map[string]any{}, map[string]any{}
	for i := 0; i < n; i++ {
		k := plain(name + ".key")
		in[k], out[k] = someJSON(name, kinds)
	}
	return in, out
}

// someDocGraph builds a graph together with its description.
func someDocGraph(n, m, labels, props, kinds int) (*lpg.Graph, *jGraph) {
	g, d := lpg.NewGraph(), &jGraph{}
	var nodes []*lpg.Node
	n = zz.Choose("nodes", n+1)
	for i := 0; i < n; i++ {
		l := []string{}
		for k := zz.Choose("labels", labels+1); k > 0; k-- {
			l = append(l, plain("label"))
		}
		in, out := someProps("node", props, kinds)
		nodes = append(nodes, g.NewNode(l, in))
		d.nodes = append(d.nodes, jNode{l, out, in})
	}
	if n == 0 {
		return g, d
	}
	last := 0
	for k := zz.Choose("edges", m+1); k > 0; k-- {
		c := last + zz.Choose("edge", n*n-last)
		last = c
		l := plain("edgelabel")
		in, out := someProps("edge", props, kinds)
		g.NewEdge(nodes[c/n], nodes[c%n], l, in)
		d.edges = append(d.edges, jEdge{c / n, c % n, l, out, in})
	}
	return g, d
}

// roundTrip encodes and decodes and compares with the description.
func roundTrip(j lpg.JSON, g *lpg.Graph, d *jGraph, id string) {
	out := &textSink{}
	zz.Assert(j.Encode(g, out) == nil, id+".Encode.err")
	zz.Assert(json.Valid(out.b), id+".valid")
	g2, err := decodeWith(j, string(out.b))
	zz.Assert(err == nil, id+".Decode.err")
	zz.Assert(d.is(g2), id+".graph")
	zz.Assert(d.source().is(g), id+".source")
}

// Structure, labels and edge labels.
//
//sym:quick n=3 m=2 l=1
//sym:quick n=1 m=1 l=2
//sym:thorough n=3 m=3 l=1
//sym:thorough n=2 m=3 l=1
func H_C18_structure() {
	g, d := someDocGraph(zz.Param("n"), zz.Param("m"), zz.Param("l"), 0, 1)
	roundTrip(lpg.JSON{MarshalEdgesSeparately: zz.Bool("separate")}, g, d, "RoundTrip")
}

// Property values of every kind, on nodes and edges.
//
//sym:quick p=2 kinds=8
//sym:thorough p=3 kinds=8
func H_C18_properties() {
	g, d := lpg.NewGraph(), &jGraph{}
	onEdge := zz.Bool("onedge")
	in, out := someProps("value", zz.Param("p"), zz.Param("kinds"))
	if onEdge {
		n := g.NewNode(nil, nil)
		g.NewEdge(n, n, "E", in)
		d.nodes = []jNode{{}}
		d.edges = []jEdge{{0, 0, "E", out, in}}
	} else {
		g.NewNode([]string{"N"}, in)
		d.nodes = []jNode{{[]string{"N"}, out, in}}
	}
	roundTrip(lpg.JSON{MarshalEdgesSeparately: zz.Bool("separate")}, g, d, "RoundTrip")
}

// Properties on several nodes and edges at once do not get mixed up.
//
//sym:quick n=2 m=1
//sym:thorough n=2 m=2
func H_C18_mixed() {
	g, d := someDocGraph(zz.Param("n"), zz.Param("m"), 1, 1, 1)
	roundTrip(lpg.JSON{MarshalEdgesSeparately: zz.Bool("separate"), Interner: lpg.MapInterner{}}, g, d, "RoundTrip")
}

// Strings of arbitrary ASCII characters in every place where a string can
// be.
//
//sym:quick l=2
//sym:thorough l=3
func H_C18_escapes() {
	s := zz.StringIn("text", zz.Param("l"), 0, 0x7f)
	g, d := lpg.NewGraph(), &jGraph{nodes: []jNode{{}}}
	var n *lpg.Node
	switch zz.Choose("where", 5) {
	case 0:
		g.NewNode([]string{s}, nil)
		d.nodes[0].labels = []string{s}
	case 1:
		g.NewNode(nil, map[string]any{s: true})
		d.nodes[0].props = map[string]any{s: true}
	case 2:
		g.NewNode(nil, map[string]any{"p": s})
		d.nodes[0].props = map[string]any{"p": s}
	case 3:
		n = g.NewNode(nil, nil)
		g.NewEdge(n, n, s, nil)
		d.edges = []jEdge{{label: s}}
	case 4:
		n = g.NewNode(nil, nil)
		g.NewEdge(n, n, "E", map[string]any{s: s})
		d.edges = []jEdge{{label: "E", props: map[string]any{s: s}}}
	}
	roundTrip(lpg.JSON{MarshalEdgesSeparately: zz.Bool("separate")}, g, d, "RoundTrip")
}

var errProp = errors.New("property refused")

// Custom property marshalers: keys are renamed, values wrapped, and one key
// is skipped on either side.
//
//sym:quick n=2 m=1 p=1
//sym:quick n=1 m=0 p=2
//sym:thorough n=2 m=1 p=2
func H_C18_marshalers() {
	skipOut, skipIn := "a", "b"
	g, d := someDocGraph(zz.Param("n"), zz.Param("m"), 0, zz.Param("p"), 1)
	j := lpg.JSON{
		MarshalEdgesSeparately: zz.Bool("separate"),
		PropertyMarshaler: func(key string, v any) (string, json.RawMessage, error) {
			if key == skipOut {
				return "", nil, nil
			}
			b, err := json.Marshal([]any{v})
			return "_" + key, b, err
		},
		PropertyUnmarshaler: func(key string, b json.RawMessage) (string, any, error) {
			if len(key) == 0 || key[0] != '_' {
				return "", nil, errProp
			}
			if key[1:] == skipIn {
				return "", nil, nil
			}
			var l []any
			if err := json.Unmarshal(b, &l); err != nil {
				return "", nil, err
			}
			return key[1:], l[0], nil
		},
	}
	keep := func(in map[string]any) map[string]any {
		out := map[string]any{}
		for k, v := range in {
			if k != skipOut && k != skipIn && k != "" {
				out[k] = v
			}
		}
		return out
	}
	for i := range d.nodes {
		d.nodes[i].props = keep(d.nodes[i].props)
	}
	for i := range d.edges {
		d.edges[i].props = keep(d.edges[i].props)
	}
	out := &textSink{}
	zz.Assert(j.Encode(g, out) == nil, "Encode.err")
	g2, err := decodeWith(j, string(out.b))
	zz.Assert(err == nil, "Decode.err")
	zz.Assert(d.is(g2), "RoundTrip.graph")
}

// Errors: a failing write, a refusing property marshaler or unmarshaler, and
// values that JSON cannot represent are reported.
//
//sym:quick n=2 m=1
//sym:thorough n=2 m=2
func H_C18_errors() {
	g, _ := someDocGraph(zz.Param("n"), zz.Param("m"), 1, 1, 1)
	out := &textSink{}
	j := lpg.JSON{MarshalEdgesSeparately: zz.Bool("separate")}
	refused := false
	bad := false
	switch zz.Choose("fault", 4) {
	case 0:
		out.failAt = zz.Choose("fail", 24)
	case 1:
		j.PropertyMarshaler = func(key string, v any) (string, json.RawMessage, error) {
			refused = true
			return "k", json.RawMessage("1"), errProp
		}
	case 2:
		bad = true
		var v any = math.Inf(1)
		if zz.Bool("func") {
			v = func() {}
		}
		n := g.NewNode(nil, nil)
		if zz.Bool("onedge") {
			g.NewEdge(n, n, "E", map[string]any{"bad": v})
		} else {
			n.SetProperty("bad", v)
		}
	case 3:
		j.PropertyUnmarshaler = func(key string, b json.RawMessage) (string, any, error) {
			refused = true
			return "k", 1, errProp
		}
		zz.Assert(j.Encode(g, out) == nil, "Encode.noerror")
		_, err := decodeWith(j, string(out.b))
		zz.Assert(zz.Iff(err != nil, refused), "Decode.error")
		return
	}
	err := j.Encode(g, out)
	zz.Assert(zz.Iff(err != nil, out.failed || refused || bad), "Encode.error")
}

// A larger graph, with texts that are not ASCII.
//
//sym:quick n=12 m=14
//sym:thorough n=24 m=30
func H_C18_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	text := []string{"é", "日本", "\u2028\u2029", "<&>", "\U0001F600", "\x7f", "\u0000", "/\\\""}[zz.Choose("text", 8)]
	for i, n := range w.nodes {
		n.n.SetProperty("id", i)
		n.n.SetProperty("text", text)
	}
	for i, e := range w.edges {
		e.e.SetProperty("id", i)
		w.setEdgeLabel(i, e.label+text)
	}
	w.nodes[1].n.SetLabels(lpg.NewStringSet(text))
	w.nodes[1].labels = []string{text}
	if zz.Bool("removed") {
		w.removeNode(w.pickNode("op.node"))
	}
	out := &textSink{}
	j := lpg.JSON{MarshalEdgesSeparately: zz.Bool("separate")}
	zz.Assert(j.Encode(w.g, out) == nil, "Encode.err")
	zz.Assert(json.Valid(out.b), "valid")
	g, err := decodeWith(j, string(out.b))
	zz.Assert(err == nil, "Decode.err")
	w.isDecoded(g, text)
}

// isDecoded checks a decoded graph whose nodes and edges have a property "id".
func (w *world) isDecoded(g *lpg.Graph, text string) {
	at := map[*lpg.Node]int{}
	seen := map[int]int{}
	num := func(x withProps, k string) int {
		v, ok := x.GetProperty(k)
		f, isF := v.(float64)
		zz.Assert(ok && isF, "number")
		return int(f)
	}
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		i := num(n, "id")
		at[n] = i
		seen[i]++
		zz.Assert(seen[i] == 1, "node once")
		m := w.nodes[i]
		zz.Assert(m.alive, "node")
		sameLabelSet(n.GetLabels(), m.labels, "labels")
		zz.Assert(num(n, "p") == m.pv["p"].i && num(n, "q") == m.pv["q"].i, "node properties")
		v, _ := n.GetProperty("text")
		zz.Assert(v == text, "text")
	}
	zz.Assert(len(at) == len(w.liveNodes()), "nodes")
	seen = map[int]int{}
	for it := g.GetEdges(); it.Next(); {
		e := it.Edge()
		i := num(e, "id")
		seen[i]++
		zz.Assert(seen[i] == 1, "edge once")
		m := w.edges[i]
		zz.Assert(m.alive && at[e.GetFrom()] == m.f && at[e.GetTo()] == m.t, "end points")
		zz.Assert(e.GetLabel() == m.label, "edge label")
		zz.Assert(num(e, "p") == m.pv["p"].i && num(e, "q") == m.pv["q"].i, "edge properties")
	}
	zz.Assert(len(seen) == len(w.liveEdges()), "edges")
}

// copier is an interner that keeps nothing.
type copier struct{}

func (copier) Intern(s string) string { return s }

// One interner used for several graphs makes no difference, and ends up with
// their keys.
//
//sym:both p=1
func H_C18_interner() {
	m := lpg.MapInterner{}
	if zz.Bool("known") {
		m["a"] = "a"
	}
	j := lpg.JSON{MarshalEdgesSeparately: zz.Bool("separate"), Interner: m}
	own := zz.Bool("own")
	if own {
		j.Interner = copier{}
	}
	keys := map[string]bool{}
	var docs []*jGraph
	var made []*lpg.Graph
	for i := 0; i < 2; i++ {
		g, d := lpg.NewGraph(), &jGraph{}
		in, out := someProps("node", zz.Param("p"), 1)
		n := g.NewNode([]string{letter(i)}, in)
		d.nodes = []jNode{{[]string{letter(i)}, out, in}}
		ein, eout := someProps("edge", 1, 1)
		g.NewEdge(n, n, "E", ein)
		d.edges = []jEdge{{0, 0, "E", eout, ein}}
		for k := range in {
			keys[k] = true
		}
		for k := range ein {
			keys[k] = true
		}
		to := &textSink{}
		zz.Assert(j.Encode(g, to) == nil, "Encode.err")
		g2, err := decodeWith(j, string(to.b))
		zz.Assert(err == nil, "Decode.err")
		docs, made = append(docs, d), append(made, g2)
	}
	for i, d := range docs {
		zz.Assert(d.is(made[i]), "graph")
	}
	for k, v := range m {
		zz.Assert(k == v, "interned")
	}
	if !own {
		for k := range keys {
			zz.Assert(m[k] == k && m.Intern(k) == k, "Intern")
		}
	}
}
