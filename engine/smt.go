package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Model maps variable names to values.
type Model map[string]uint64

// Sat is a solver verdict.
type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

// Solver drives one z3 process over SMT-LIB 2.
type Solver struct {
	c       *Ctx
	bin     string
	timeout int // ms
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	declV   int // number of vars declared

	Queries  int
	Unknowns int
	Time     time.Duration
	sinceNew int
	buf      strings.Builder
}

func NewSolver(c *Ctx, bin string, timeoutMs int) *Solver {
	return &Solver{c: c, bin: bin, timeout: timeoutMs}
}

func (s *Solver) start() error {
	s.Close()
	cvc := strings.Contains(s.bin, "cvc5")
	if cvc {
		s.cmd = exec.Command(s.bin, "--incremental", "--produce-models", "--lang", "smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout))
	} else {
		s.cmd = exec.Command(s.bin, "-in", "-smt2")
	}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	var w io.Writer = in
	if d := os.Getenv("VERIF_SMTLOG"); d != "" {
		if f, err := os.CreateTemp(d, "log*.smt2"); err == nil {
			w = io.MultiWriter(in, f)
		}
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.declV = 0
	s.sinceNew = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n")
	if !cvc {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.k)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.k)
	case OpVar:
		return "v" + strconv.Itoa(int(t.k))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if t.sent == s.gen || t.op == OpConst {
		return
	}
	t.sent = s.gen
	if t.op == OpVar {
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.k, sortOf(t.w))
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	b := &s.buf
	b.Reset()
	fmt.Fprintf(b, "(define-fun t%d () %s ", t.id, sortOf(t.w))
	switch t.op {
	case OpExtract:
		fmt.Fprintf(b, "((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, s.ref(t.args[0]))
	case OpSExt:
		fmt.Fprintf(b, "((_ sign_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	default:
		b.WriteByte('(')
		b.WriteString(opNames[t.op])
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(s.ref(a))
		}
		b.WriteByte(')')
	}
	b.WriteString(")\n")
	s.in.WriteString(b.String())
}

// Check decides the conjunction of cs. On SatYes the values of vars are
// returned.
func (s *Solver) Check(cs []*Term, vars []int32) (Sat, []uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	for attempt := 0; attempt < 2; attempt++ {
		if s.cmd == nil || s.sinceNew > 4000 {
			if err := s.start(); err != nil {
				panic(fmt.Sprintf("cannot start solver: %v", err))
			}
		}
		s.sinceNew++
		r, vals, err := s.check1(cs, vars)
		if err == nil {
			if r == Unknown {
				s.Unknowns++
			}
			return r, vals
		}
		s.Close()
	}
	s.Unknowns++
	return Unknown, nil
}

func (s *Solver) check1(cs []*Term, vars []int32) (Sat, []uint64, error) {
	for _, t := range cs {
		s.define(t)
	}
	for _, v := range vars {
		s.define(s.c.vars[v])
	}
	s.in.WriteString("(push 1)\n")
	for _, t := range cs {
		s.in.WriteString("(assert " + s.ref(t) + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return Unknown, nil, err
	}
	var res Sat
	switch line {
	case "sat":
		res = SatYes
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	var vals []uint64
	if res == SatYes && len(vars) > 0 {
		s.in.WriteString("(get-value (")
		for _, v := range vars {
			s.in.WriteString("v" + strconv.Itoa(int(v)) + " ")
		}
		s.in.WriteString("))\n")
		if err := s.in.Flush(); err != nil {
			return Unknown, nil, err
		}
		txt, err := s.readSexp()
		if err != nil {
			return Unknown, nil, err
		}
		vals, err = parseValues(txt, len(vars))
		if err != nil {
			return Unknown, nil, err
		}
	}
	s.in.WriteString("(pop 1)\n")
	return res, vals, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		switch b {
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, n int) ([]uint64, error) {
	out := make([]uint64, 0, n)
	fields := strings.FieldsFunc(txt, func(r rune) bool {
		return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' || r == '\t'
	})
	for i := 1; i < len(fields); i += 2 {
		f := fields[i]
		var v uint64
		var err error
		switch {
		case f == "true":
			v = 1
		case f == "false":
			v = 0
		case strings.HasPrefix(f, "#x"):
			v, err = strconv.ParseUint(f[2:], 16, 64)
		case strings.HasPrefix(f, "#b"):
			v, err = strconv.ParseUint(f[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q", f)
		}
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	if len(out) != n {
		return nil, fmt.Errorf("expected %d values, got %d", n, len(out))
	}
	return out, nil
}
