package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Chan is a channel used by one goroutine: operations that would block leave
// the fragment.
type Chan struct {
	p      *Path
	buf    []Value
	cap    int
	closed bool
}

func (h *Chan) check(p *Path) {
	if h.p != p {
		unsupported("channel shared between paths")
	}
}

func (h *Chan) canRecv(p *Path) bool {
	if h == nil {
		return false
	}
	h.check(p)
	return len(h.buf) > 0 || h.closed
}

func (h *Chan) canSend(p *Path) bool {
	if h == nil {
		return false
	}
	h.check(p)
	return h.closed || len(h.buf) < h.cap
}

func (h *Chan) recv(et types.Type) (Value, bool) {
	if len(h.buf) > 0 {
		v := h.buf[0]
		h.buf = append([]Value(nil), h.buf[1:]...)
		return v, true
	}
	return zero(et), false
}

func (h *Chan) send(p *Path, v Value) {
	if h.closed {
		p.runtimePanic("send on closed channel")
	}
	h.buf = append(h.buf, load(v))
}

func (h *Chan) close(p *Path) {
	if h == nil {
		p.runtimePanic("close of nil channel")
	}
	h.check(p)
	if h.closed {
		p.runtimePanic("close of closed channel")
	}
	h.closed = true
}

// selectStmt takes the ready case, or the default one.
func (c *comp) selectStmt(x *ssa.Select) instr {
	dst := c.reg(x)
	type sc struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	cs := make([]sc, len(x.States))
	recvs := 0
	for i, s := range x.States {
		cs[i] = sc{ch: c.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Dir == types.SendOnly {
			cs[i].send, cs[i].v = true, c.op(s.Send)
		} else {
			recvs++
		}
	}
	blocking := x.Blocking
	return func(p *Path, fr *frame) {
		var ready []int
		for i := range cs {
			h := cs[i].ch.get(p, fr).(*Chan)
			if cs[i].send && h.canSend(p) || !cs[i].send && h.canRecv(p) {
				ready = append(ready, i)
			}
		}
		r := make(tuple, 2, 2+recvs)
		r[0], r[1] = int64(-1), false
		for i := range cs {
			if !cs[i].send {
				r = append(r, zero(cs[i].et))
			}
		}
		if len(ready) == 0 {
			if blocking {
				unsupported("blocking select")
			}
			fr.regs[dst] = r
			return
		}
		pick := ready[0]
		if len(ready) > 1 {
			unsupported("select with several ready cases")
		}
		h := cs[pick].ch.get(p, fr).(*Chan)
		r[0] = int64(pick)
		if cs[pick].send {
			h.send(p, cs[pick].v.get(p, fr))
		} else {
			v, ok := h.recv(cs[pick].et)
			r[1] = ok
			at := 2
			for i := 0; i < pick; i++ {
				if !cs[i].send {
					at++
				}
			}
			r[at] = v
		}
		fr.regs[dst] = r
	}
}
