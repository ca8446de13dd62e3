package zzverif

// A small reader for the DOT language.

type dotAttr struct{ k, v string }

type dotStmt struct {
	ids   []string // one id: node, two: edge; none: attribute
	attrs []dotAttr
}

type dotReader struct {
	s  string
	i  int
	ok bool
}

func (r *dotReader) space() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] == '\n' || r.s[r.i] == '\t' || r.s[r.i] == '\r') {
		r.i++
	}
}

func (r *dotReader) is(t string) bool {
	r.space()
	if len(r.s)-r.i < len(t) || r.s[r.i:r.i+len(t)] != t {
		return false
	}
	r.i += len(t)
	return true
}

func (r *dotReader) expect(t string) {
	if !r.is(t) {
		r.ok = false
	}
}

func idByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

// id reads an identifier or a quoted string (undoing the escapes of quotes,
// backslashes and line ends).
func (r *dotReader) id() string {
	r.space()
	if r.i < len(r.s) && r.s[r.i] == '"' {
		r.i++
		var b []byte
		for {
			if r.i >= len(r.s) {
				r.ok = false
				return ""
			}
			c := r.s[r.i]
			r.i++
			if c == '"' {
				return string(b)
			}
			if c == '\\' {
				if r.i >= len(r.s) {
					r.ok = false
					return ""
				}
				c = r.s[r.i]
				r.i++
				if c == 'n' {
					c = '\n'
				}
			}
			b = append(b, c)
		}
	}
	a := r.i
	for r.i < len(r.s) && idByte(r.s[r.i]) {
		r.i++
	}
	if a == r.i {
		r.ok = false
	}
	return r.s[a:r.i]
}

func (r *dotReader) attrs() []dotAttr {
	var l []dotAttr
	for r.ok && r.is("[") {
		for r.ok && !r.is("]") {
			k := r.id()
			r.expect("=")
			l = append(l, dotAttr{k, r.id()})
			if !r.is(",") {
				r.is(";")
			}
		}
	}
	return l
}

// readDOT reads a directed graph document.
func readDOT(s string) (name string, stmts []dotStmt, ok bool) {
	r := &dotReader{s: s, ok: true}
	r.expect("digraph")
	name = r.id()
	r.expect("{")
	for r.ok && !r.is("}") {
		var st dotStmt
		id := r.id()
		if !r.ok {
			break
		}
		if r.is("=") {
			st.attrs = []dotAttr{{id, r.id()}}
		} else {
			st.ids = []string{id}
			for r.ok && r.is("->") {
				st.ids = append(st.ids, r.id())
			}
			st.attrs = r.attrs()
		}
		r.is(";")
		stmts = append(stmts, st)
	}
	r.space()
	return name, stmts, r.ok && r.i == len(s)
}
