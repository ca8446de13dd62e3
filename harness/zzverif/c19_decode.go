package zzverif

import (
	"encoding/json"
	"errors"
	"io"
	"strconv"

	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// Documents are put together from fixed text and symbolic strings that need
// no escapes.

func plain(name string) string { return zz.StringIn(name, 1, 'a', 'z') }

func quoted(s string) string { return "\"" + s + "\"" }

// unknownValue is a JSON value for a key that the format does not know.
func unknownValue(name string, n int) string {
	vals := []string{
		`{"nodes":[{"n":9}]}`, `[1,[2]]`, `1`, `null`, `"}"`, `true`, `{}`, `[]`,
		`[{"a":{"nodes":[]}},{}]`, `"nodes"`, `-1.5e3`, `{"a":[]}`, `["]","}"]`, `1e999`,
	}
	return vals[zz.Choose(name, n)]
}

var indexNames = []string{"0", "1", "7"}

// docNode is a node of a document under construction.
type docNode struct {
	index int // into indexNames
	text  string
}

func join(l []string) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += ","
		}
		s += x
	}
	return s
}

// edgeText writes an edge object; from is left out inside of nodes.
func edgeText(from, to int, withFrom bool, label string, prop bool) string {
	l := []string{`"to":` + indexNames[to]}
	if label != "" || zz.Param("opt") > 0 && zz.Bool("emptylabel") {
		l = append(l, `"label": `+quoted(label))
	}
	if withFrom {
		l = append(l, `"from":`+indexNames[from])
	}
	if prop {
		l = append(l, `"properties":{"p":`+quoted(label)+`}`)
	}
	return "{" + join(l) + "}"
}

func position(d *jGraph, nodes []docNode, index int) int {
	for i, n := range nodes {
		if n.index == index {
			return i
		}
	}
	return -1
}

// Nodes and edges in any order and either layout; references to nodes that
// come later, and to nodes that do not exist.
//
//sym:quick n=2 m=2 props=0 opt=0
//sym:quick n=2 m=1 props=0 opt=1
//sym:quick n=2 m=1 props=1 opt=0
//sym:thorough n=2 m=1 props=1 opt=1
//sym:thorough n=3 m=2 props=0 opt=0
//sym:thorough n=2 m=2 props=1 opt=0
func H_C19_documents() {
	d := &jGraph{}
	var nodes []docNode
	nn := zz.Choose("nodes", zz.Param("n")+1)
	for i := 0; i < nn; i++ {
		x := docNode{index: zz.Choose("n", 3)}
		for _, y := range nodes {
			zz.Assume(y.index != x.index)
		}
		jn := jNode{}
		x.text = `"n":` + indexNames[x.index]
		if l := plain("label"); l != "" || zz.Param("opt") > 0 && zz.Bool("labeled") {
			jn.labels = []string{l}
			x.text += `,"labels":[` + quoted(l) + `]`
		}
		if zz.Param("props") > 0 && zz.Bool("node.prop") {
			s := plain("node.value")
			jn.props = map[string]any{"p": s}
			x.text += `,"properties":{"p":` + quoted(s) + `}`
		}
		nodes = append(nodes, x)
		d.nodes = append(d.nodes, jn)
	}
	dangling := false
	var separate []string
	inNode := map[int][]string{}
	me := zz.Choose("edges", zz.Param("m")+1)
	for i := 0; i < me; i++ {
		from, to := zz.Choose("from", 3), zz.Choose("to", 3)
		f, t := position(d, nodes, from), position(d, nodes, to)
		label := plain("edgelabel")
		prop := zz.Param("props") > 0 && zz.Bool("edge.prop")
		je := jEdge{f: f, t: t, label: label}
		if prop {
			je.props = map[string]any{"p": label}
		}
		if f >= 0 && zz.Bool("innode") {
			inNode[f] = append(inNode[f], edgeText(from, to, false, label, prop))
		} else {
			separate = append(separate, edgeText(from, to, true, label, prop))
		}
		if f < 0 || t < 0 {
			dangling = true
			continue
		}
		d.edges = append(d.edges, je)
	}
	var texts []string
	for i, x := range nodes {
		if len(inNode[i]) > 0 {
			x.text = `"edges":[` + join(inNode[i]) + `],` + x.text
		}
		texts = append(texts, "{"+x.text+"}")
	}
	var members []string
	if len(texts) > 1 && zz.Param("opt") > 0 && zz.Bool("split") {
		members = append(members, `"nodes":[`+texts[0]+`]`, `"nodes":[`+join(texts[1:])+`]`)
	} else if len(texts) > 0 || zz.Param("opt") > 0 && zz.Bool("emptynodes") {
		members = append(members, `"nodes":[`+join(texts)+`]`)
	}
	if len(separate) > 0 || zz.Param("opt") > 0 && zz.Bool("emptyedges") {
		e := `"edges":[` + join(separate) + `]`
		k := zz.Choose("edgesat", len(members)+1)
		members = append(members[:k:k], append([]string{e}, members[k:]...)...)
	}
	g, err := decodeWith(lpg.JSON{}, "{"+join(members)+"}")
	zz.Assert(zz.Iff(err != nil, dangling), "Decode.err")
	if err == nil {
		zz.Assert(d.is(g), "Decode.graph")
	}
}

// Unknown keys are ignored at the top level, in nodes and in edges, whatever
// their value, and white space does not matter.
//
//sym:quick k=2 v=7
//sym:thorough k=2 v=14
//sym:quick k=1 v=14
func H_C19_unknown() {
	d := &jGraph{nodes: []jNode{{labels: []string{"A"}}, {}}, edges: []jEdge{{f: 0, t: 1, label: "E"}, {f: 1, t: 1, label: "F"}}}
	key := zz.StringIn("key", 2, 'e', 'o')
	zz.Assume(key != "n")
	sp := ""
	if zz.Bool("spaces") {
		sp = " \n\t\r"
	}
	unknown := func() string { return sp + quoted(key) + sp + ":" + sp + unknownValue("value", zz.Param("v")) + sp }
	node := []string{`"n":0`, `"labels":["A"]`, `"edges":[{"to":1,"label":"E"}]`}
	edge := []string{`"from":1`, `"to":1`, `"label":"F"`}
	top := []string{}
	insert := func(l []string) []string {
		k := zz.Choose("at", len(l)+1)
		return append(l[:k:k], append([]string{unknown()}, l[k:]...)...)
	}
	for i := zz.Param("k"); i > 0; i-- {
		switch zz.Choose("where", 3) {
		case 0:
			top = append(top, "")
		case 1:
			node = insert(node)
		case 2:
			edge = insert(edge)
		}
	}
	extra := len(top)
	top = []string{`"nodes":[{` + join(node) + `}` + sp + `,{"n":1}]`, `"edges":[{` + join(edge) + `}]`}
	for ; extra > 0; extra-- {
		top = insert(top)
	}
	g, err := decodeWith(lpg.JSON{}, sp+"{"+join(top)+"}")
	zz.Assert(err == nil, "Decode.err")
	zz.Assert(d.is(g), "Decode.graph")
}

const sample = `{"x":[{"a":1},"]"],"nodes":[{"n":0,"labels":["A","b"],"properties":{"p":[1,{"q":null}]},"edges":[{"to":1,"label":"E"}]},{"n":1}],"edges":[{"from":1,"to":0,"properties":{"r":"s"}}]}`

// A truncated document is an error, however it is delivered, and so is a
// reader that fails before the end.
//
//sym:both
func H_C19_truncated() {
	cut := zz.Choose("cut", len(sample)+1)
	src := &textSource{b: []byte(sample[:cut]), err: io.EOF}
	src.chunk = []int{0, 1, 7}[zz.Choose("chunk", 3)]
	fails := zz.Bool("readerfails")
	if fails {
		src.err = errors.New("connection lost")
	}
	g := lpg.NewGraph()
	err := lpg.JSON{}.Decode(g, json.NewDecoder(src))
	if cut < len(sample) {
		zz.Assert(err != nil, "Decode.truncated")
	} else {
		zz.Assert(err == nil, "Decode.complete")
		zz.Assert(g.NumNodes() == 2 && g.NumEdges() == 2, "Decode.complete.graph")
	}
}

// Anything but an object is an error: every text of a few characters.
//
//sym:quick l=3
//sym:thorough l=4
func H_C19_garbage() {
	s := zz.StringIn("text", zz.Param("l"), 0, 0x7f)
	g, err := decodeWith(lpg.JSON{}, s)
	space := func(c byte) bool { return zz.Or(c == ' ', c == '\n', c == '\t', c == '\r') }
	// with so few characters only {} (and what follows it) is a document
	want, state := false, 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if state < 2 && space(c) {
			continue
		}
		if state == 0 && c == '{' {
			state = 1
		} else if state == 1 && c == '}' {
			state, want = 2, true
		} else {
			break
		}
	}
	zz.Assert(zz.Iff(err == nil, want), "Decode.err")
	zz.Assert(g.NumNodes() == 0 && g.NumEdges() == 0, "Decode.empty")
}

// One character of a document replaced by an arbitrary one: never a panic,
// and an error if the text is no longer JSON. (A document that now ends at the
// character is complete; what follows it is left in the stream.)
//
//sym:quick stride=3
//sym:thorough stride=1
func H_C19_corrupted() {
	doc := `{"nodes":[{"n":0,"labels":["A"],"edges":[{"to":0,"label":"E"}]}],"y":{"z":1}}`
	at := zz.Choose("at", (len(doc)+zz.Param("stride")-1)/zz.Param("stride")) * zz.Param("stride")
	c := zz.StringIn("char", 1, 0x01, 0x7f)
	zz.Assume(len(c) == 1)
	doc = doc[:at] + c + doc[at+1:]
	_, err := decodeWith(lpg.JSON{}, doc)
	valid := zz.Or(json.Valid([]byte(doc)), json.Valid([]byte(doc[:at+1])))
	zz.Assert(zz.Implies(err == nil, valid), "Decode.invalid")
}

// Values of the wrong type are errors; null stands for nothing.
//
//sym:both
func H_C19_types() {
	vals := []string{`1`, `"s"`, `true`, `{}`, `[]`, `1.5`, `[1]`, `["s"]`, `[{}]`, `{"a":1}`, `null`, `[null]`, `9999999999999999999`}
	// for each place: the values that fit
	type place struct{ before, after, fits string }
	places := []place{
		{`{"nodes":`, `}`, `[] [{}] null [null]`},
		{`{"edges":`, `,"nodes":[{"n":0}]}`, `[] [{}] null [null]`},
		{`{"nodes":[{"n":`, `}]}`, `1 null`},
		{`{"nodes":[{"n":0,"labels":`, `}]}`, `[] ["s"] null [null]`},
		{`{"nodes":[{"n":0,"properties":`, `}]}`, `{} {"a":1} null`},
		{`{"nodes":[{"n":0,"edges":`, `}]}`, `[] [{}] null [null]`},
		{`{"nodes":[{"n":0,"edges":[{"label":`, `}]}]}`, `"s" null`},
		{`{"nodes":[{"n":1},{"n":0,"edges":[{"to":`, `}]}]}`, `1 null`},
		{`{"nodes":[{"n":0,"properties":{"p":`, `}}]}`, `1 "s" true {} [] 1.5 [1] ["s"] [{}] {"a":1} null [null] 9999999999999999999`},
	}
	p := places[zz.Choose("place", len(places))]
	v := vals[zz.Choose("value", len(vals))]
	fits := false
	for i := 0; i+len(v) <= len(p.fits); i++ {
		if p.fits[i:i+len(v)] == v && (i == 0 || p.fits[i-1] == ' ') && (i+len(v) == len(p.fits) || p.fits[i+len(v)] == ' ') {
			fits = true
		}
	}
	_, err := decodeWith(lpg.JSON{}, p.before+v+p.after)
	zz.Assert(zz.Iff(err == nil, fits), "Decode.err")
}

// A larger document: indexes of several digits, in any order, sparse or
// dense, with one reference that may be wrong.
//
//sym:quick n=12
//sym:thorough n=24
func H_C19_big() {
	n := zz.Param("n")
	stride := []int{1, 7, 100}[zz.Choose("stride", 3)]
	rot := zz.Choose("rotation", n)
	num := func(i int) string { return strconv.Itoa(i * stride) }
	wrong := -1
	to := func(i int) string {
		if i == wrong {
			return num(n)
		}
		return num((i*5 + 1) % n)
	}
	if zz.Bool("dangling") {
		wrong = zz.Choose("wrong", n)
	}
	inner := zz.Choose("inner", 3)
	var nodes, edges []string
	for k := 0; k < n; k++ {
		i := (k*5 + rot) % n
		t := `{"n":` + num(i) + `,"properties":{"id":"x` + num(i) + `"}`
		if inner == 1 || inner == 2 && i%2 == 0 {
			t += `,"edges":[{"to":` + to(i) + `,"label":"L` + num(i) + `"}]`
		} else {
			edges = append(edges, `{"from":`+num(i)+`,"to":`+to(i)+`,"label":"L`+num(i)+`"}`)
		}
		nodes = append(nodes, t+"}")
	}
	doc := `"nodes":[` + join(nodes) + `]`
	e := `"edges":[` + join(edges) + `]`
	if zz.Bool("edgesfirst") {
		doc = e + "," + doc
	} else {
		doc += "," + e
	}
	g, err := decodeWith(lpg.JSON{}, "{"+doc+"}")
	zz.Assert((err != nil) == (wrong >= 0), "Decode.err")
	if err != nil {
		return
	}
	zz.Assert(g.NumNodes() == n && g.NumEdges() == n, "Decode.numbers")
	c := 0
	for it := g.GetNodes(); it.Next(); c++ {
		x, _ := it.Node().GetProperty("id")
		k := 0
		for es := it.Node().GetEdges(lpg.OutgoingEdge); es.Next(); k++ {
			y, _ := es.Edge().GetTo().GetProperty("id")
			for i := 0; i < n; i++ {
				if x == "x"+num(i) {
					zz.Assert(y == "x"+to(i) && es.Edge().GetLabel() == "L"+num(i), "Decode.edge")
				}
			}
		}
		zz.Assert(k == 1, "Decode.edges")
	}
	zz.Assert(c == n, "Decode.nodes")
}

// Decoding adds to a graph, which may have nodes and edges: the indexes of a
// document are those of its own nodes.
//
//sym:quick k=2
//sym:thorough k=3
func H_C19_again() {
	g, d := lpg.NewGraph(), &jGraph{}
	j := lpg.JSON{}
	switch zz.Choose("index", 3) {
	case 0:
		j.Interner = lpg.MapInterner{}
	case 1:
		g.AddNodePropertyIndex("p", lpg.HashIndex)
	case 2:
		g.AddEdgePropertyIndex("p", lpg.BtreeIndex)
	}
	s := plain("value")
	a := g.NewNode([]string{"old"}, map[string]any{"p": s})
	g.NewEdge(a, a, "old", map[string]any{"p": s})
	d.nodes = append(d.nodes, jNode{labels: []string{"old"}, props: map[string]any{"p": s}})
	d.edges = append(d.edges, jEdge{0, 0, "old", map[string]any{"p": s}, nil})
	for k := zz.Choose("documents", zz.Param("k")+1); k > 0; k-- {
		at := len(d.nodes)
		l, v := letter(k), plain("value")
		d.nodes = append(d.nodes, jNode{labels: []string{l}, props: map[string]any{"p": v}}, jNode{})
		inner := zz.Bool("in node")
		f, t := zz.Choose("from", 2), zz.Choose("to", 2)
		d.edges = append(d.edges, jEdge{at + f, at + t, "E", map[string]any{"q": v}, nil})
		names := []string{"0", "1"}
		n0 := `{"n":0,"labels":[` + quoted(l) + `],"properties":{"p":` + quoted(v) + `}`
		n1 := `{"n":1`
		rest := `,"label":"E","properties":{"q":` + quoted(v) + `}}`
		doc := ""
		if inner {
			e := `,"edges":[{"to":` + names[t] + rest + `]`
			if f == 0 {
				n0 += e
			} else {
				n1 += e
			}
		} else {
			doc = `,"edges":[{"from":` + names[f] + `,"to":` + names[t] + rest + `]`
		}
		doc = `{"nodes":[` + n0 + "}," + n1 + "}]" + doc + "}"
		err := j.Decode(g, json.NewDecoder(&textSource{b: []byte(doc), err: io.EOF}))
		zz.Assert(err == nil, "Decode.err")
	}
	zz.Assert(d.is(g), "Decode.graph")
	n := 0
	for it := g.FindNodes(lpg.StringSet{}, map[string]any{"p": s}); it.Next(); n++ {
	}
	want := 0
	for _, x := range d.nodes {
		if v, ok := x.props["p"].(string); ok {
			want += zz.B2i(v == s)
		}
	}
	zz.Assert(n == want, "FindNodes")
}
