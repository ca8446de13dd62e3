package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one live SMT process over SMT-LIB2 text (push/pop, global
// declarations).

type SatRes int

const (
	Sat SatRes = iota
	Unsat
	Unknown
)

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	queries int64
	sats    int64
	unsats  int64
	unks    int64
	dur     time.Duration
	maxDur  time.Duration
	dead    bool
	tmo     int
}

func NewSolver(bin string, timeoutMs int) (*Solver, error) {
	var cmd *exec.Cmd
	if strings.Contains(bin, "cvc5") {
		cmd = exec.Command(bin, "--incremental", "--lang=smt2", "-q", "--produce-models", fmt.Sprintf("--tlimit-per=%d", timeoutMs), "--global-declarations")
	} else {
		cmd = exec.Command(bin, "-in", "-smt2", fmt.Sprintf("-t:%d", timeoutMs), "-memory:1500")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	s := &Solver{bin: bin, cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), tmo: timeoutMs}
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return s, nil
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	if _, err := io.WriteString(s.in, x); err != nil {
		s.dead = true
	}
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return ""
	}
	return strings.TrimSpace(l)
}

func (s *Solver) getModel(vars []*Term) Model {
	m := make(Model, len(vars))
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	n := 0
	for _, v := range vars {
		if v.emitted {
			if n == 0 {
				sb.WriteString("(get-value (")
			}
			sb.WriteString(v.name)
			sb.WriteByte(' ')
			n++
		}
	}
	if n == 0 {
		return m
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	// read a balanced s-expression
	depth := 0
	var all []byte
	for {
		l, err := s.out.ReadSlice('\n')
		if err != nil && err != bufio.ErrBufferFull {
			s.dead = true
			return nil
		}
		for _, ch := range l {
			if ch == '(' {
				depth++
			} else if ch == ')' {
				depth--
			}
		}
		all = append(all, l...)
		if depth == 0 {
			break
		}
	}
	txt := string(all)
	if strings.HasPrefix(txt, "(error") {
		return nil
	}
	// tokens: ((x #x..) (y true) (z (_ bv3 4)))
	quoted := false
	toks := strings.FieldsFunc(txt, func(r rune) bool {
		if r == '|' {
			quoted = !quoted
		}
		return !quoted && strings.ContainsRune("() \t\r\n", r)
	})
	for i := 0; i+1 < len(toks); {
		name := toks[i]
		v := toks[i+1]
		i += 2
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = x
		case v == "_":
			x, _ := strconv.ParseUint(strings.TrimPrefix(toks[i], "bv"), 10, 64)
			m[name] = x
			i += 2
		default:
			return nil
		}
	}
	return m
}
