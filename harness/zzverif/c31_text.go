package zzverif

import (
	"encoding/json"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// propTexts lists the text forms of a property map, one per order.
func propTexts(p, q string, c int) []string {
	switch c {
	case 0:
		return []string{"{}"}
	case 1:
		return []string{"{p:" + p + "}"}
	case 2:
		return []string{"{q:" + q + "}"}
	}
	return []string{"{p:" + p + " q:" + q + "}", "{q:" + q + " p:" + p + "}"}
}

func labelTexts(l []string) []string {
	switch {
	case len(l) == 0:
		return []string{""}
	case len(l) == 1 || l[0] == l[1]:
		return []string{":" + l[0]}
	}
	return []string{":" + l[0] + ":" + l[1], ":" + l[1] + ":" + l[0]}
}

// textProps chooses properties; a text that JSON escapes takes different
// paths for every byte, so only one of the values is of any byte.
func textProps(name string, max byte) (map[string]any, []string) {
	c := zz.Choose(name+".props", 4)
	p, q := zz.StringIn(name+".p", 2, 'a', 'z'), zz.StringIn(name+".q", 1, 0x20, max)
	var m map[string]any
	if c != 0 {
		m = map[string]any{}
	}
	if c&1 != 0 {
		m["p"] = p
	}
	if c&2 != 0 {
		m["q"] = q
	}
	return m, propTexts(p, q, c)
}

// Nodes and edges: the text names the labels and the properties.
//
//sym:both
func H_C31_node() {
	w := newWorld()
	l := symLabels("labels", 2)
	props, pt := textProps("node", 0x7f)
	n := w.addNode(l, props).n
	var want []string
	for _, a := range labelTexts(l) {
		for _, b := range pt {
			want = append(want, "("+a+" "+b+")")
		}
	}
	zz.Assert(inList(n.String(), want), "Node.String")
	checkJSONText(n, want, "Node.MarshalJSON")
}

//sym:quick l=1
//sym:thorough l=2
func H_C31_edge() {
	w := newWorld()
	someNodes(w, 1)
	l := zz.StringIn("label", zz.Param("l"), 0, 0x7f)
	props, pt := textProps("edge", ' ')
	e := w.addEdge(0, 0, l, props).e
	var want []string
	for _, b := range pt {
		want = append(want, "[:"+l+" "+b+"]")
	}
	zz.Assert(inList(e.String(), want), "Edge.String")
	checkJSONText(e, want, "Edge.MarshalJSON")
}

func checkJSONText(x json.Marshaler, want []string, id string) {
	b, err := x.MarshalJSON()
	zz.Assert(err == nil && json.Valid(b), id+" is valid JSON")
	var s string
	zz.Assert(json.Unmarshal(b, &s) == nil, id+" is a JSON string")
	zz.Assert(inList(s, want), id)
}

// Properties that are nodes or edges do not show in the text.
//
//sym:both
func H_C31_nested() {
	w := newWorld()
	someNodes(w, 2)
	w.addEdge(0, 1, "E", nil)
	v := zz.StringIn("v", 1, 'a', 'z')
	props := map[string]any{"p": v}
	switch zz.Choose("nested", 3) {
	case 0:
		props["x"] = w.nodes[0].n
	case 1:
		props["x"] = w.edges[0].e
	case 2:
		props["x"], props["y"] = w.nodes[1].n, w.edges[0].e
	}
	n := w.addNode(nil, props).n
	zz.Assert(n.String() == "( {p:"+v+"})", "Node.String with nodes and edges as values")
	e := w.addEdge(0, 1, "F", props).e
	zz.Assert(e.String() == "[:F {p:"+v+"}]", "Edge.String with nodes and edges as values")
}

// A path names the end points of its edges in order, and which steps go
// against the edge.
//
//sym:quick m=2 l=2
//sym:thorough m=3 l=3
func H_C31_path() {
	w := newWorld()
	for i := 0; i < 2; i++ {
		w.addNode([]string{symLabel("label")}, nil)
	}
	m := zz.Choose("m", zz.Param("m")) + 1
	for i := 0; i < m; i++ {
		w.addEdge(zz.Choose("from", 2), zz.Choose("to", 2), "E", nil)
	}
	at := zz.Choose("start", 2)
	p := lpg.NewPathFromElements()
	if zz.Choose("node", 2) == 1 {
		p.SetOnlyNode(w.nodes[at].n)
	}
	want := ""
	text := func(i int) string { return "(:" + w.nodes[i].labels[0] + " {})" }
	for i := zz.Choose("length", zz.Param("l")+1); i > 0; i-- {
		e := w.edges[zz.Choose("edge", len(w.edges))]
		rev := zz.Choose("reverse", 2) == 1
		f, t := e.f, e.t
		if rev {
			f, t = t, f
		}
		zz.Assume(f == at)
		at = t
		p.Append(lpg.PathElement{Edge: e.e, Reverse: rev})
		if want != "" {
			want += " "
		}
		want += text(e.f) + "->" + text(e.t)
		if rev {
			want += " Reverse"
		}
	}
	zz.Assert(p.String() == want, "Path.String")
}

// More labels and properties: every one is there, once.
//
//sym:quick n=4
//sym:thorough n=6
func H_C31_big() {
	w := newWorld()
	n := zz.Param("n")
	l := zz.Choose("labels", n+1)
	var labels []string
	for i := 0; i < l; i++ {
		labels = append(labels, "L"+letter(i))
	}
	k := zz.Choose("props", n+1)
	props := map[string]any{}
	for i := 0; i < k; i++ {
		props["p"+letter(i)] = "é" + letter(i)
	}
	x := w.addNode(labels, props).n
	s := x.String()
	size := len("( {})")
	for _, t := range labels {
		zz.Assert(strings.Count(s, ":"+t) == 1, "Node.String.label")
		size += len(t) + 1
	}
	for i := 0; i < k; i++ {
		t := "p" + letter(i) + ":é" + letter(i)
		zz.Assert(strings.Count(s, t) == 1, "Node.String.property")
		size += len(t)
	}
	if k > 1 {
		size += k - 1
	}
	zz.Assert(len(s) == size && s[0] == '(' && s[size-1] == ')', "Node.String")
	e := w.addEdge(0, 0, "日\u2028", props).e
	s = e.String()
	zz.Assert(strings.Count(s, "[:日\u2028 {") == 1, "Edge.String.label")
	for i := 0; i < k; i++ {
		zz.Assert(strings.Count(s, "p"+letter(i)+":é"+letter(i)) == 1, "Edge.String.property")
	}
	for _, m := range []json.Marshaler{x, e} {
		b, err := m.MarshalJSON()
		var t string
		zz.Assert(err == nil && json.Valid(b) && json.Unmarshal(b, &t) == nil, "MarshalJSON")
		zz.Assert(strings.Count(t, "é") == k, "MarshalJSON.text")
	}
}
