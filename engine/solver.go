package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Result of a satisfiability query.
type Result int

// Query results.
const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one SMT solver process.
type Solver struct {
	kind    string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	timeout time.Duration

	// per path
	defined map[*Term]string
	decls   []*Term
	declSet map[string]bool
	pending []*Term // asserted but not sent
	nsent   int
	cnt     int
	log     io.Writer

	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Time     time.Duration
	errors   []string
}

func solverArgs(kind string, timeout time.Duration) []string {
	ms := strconv.Itoa(int(timeout / time.Millisecond))
	switch kind {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--tlimit-per=" + ms, "-q", "--lang=smt2"}
	case "z3-new":
		return []string{"z3-new", "-in", "-smt2"}
	default:
		return []string{"z3", "-in", "-smt2"}
	}
}

// NewSolver starts a solver.
func NewSolver(kind string, timeout time.Duration) (*Solver, error) {
	s := &Solver{kind: kind, timeout: timeout}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	a := solverArgs(s.kind, s.timeout)
	s.cmd = exec.Command(a[0], a[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if s.kind != "cvc5" {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", int(s.timeout/time.Millisecond))
	} else {
		fmt.Fprintf(s.in, "(set-logic ALL)\n")
	}
	return nil
}

// Close ends the solver process.
func (s *Solver) Close() {
	s.inRaw.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// Begin starts a path scope.
func (s *Solver) Begin() {
	s.defined = map[*Term]string{}
	s.declSet = map[string]bool{}
	s.decls = nil
	s.pending = nil
	s.cnt = 0
	s.send("(push 1)\n")
}

// End ends a path scope.
func (s *Solver) End() { s.send("(pop 1)\n") }

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

// Assert adds a condition to the path scope (sent lazily).
func (s *Solver) Assert(t *Term) { s.pending = append(s.pending, t) }

func (s *Solver) render(t *Term) string {
	switch t.op {
	case OpConst:
		return constSMT(t)
	case OpVar:
		if !s.declSet[t.name] {
			s.declSet[t.name] = true
			s.decls = append(s.decls, t)
			s.send(fmt.Sprintf("(declare-const %s %s)\n", t.name, sortOf(t.w)))
		}
		return t.name
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	args := make([]string, t.n)
	for i := range args {
		args[i] = s.render(t.a[i])
	}
	body := smtNode(t, args)
	s.cnt++
	name := fmt.Sprintf("d!%d", s.cnt)
	s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", name, sortOf(t.w), body))
	s.defined[t] = name
	return name
}

func (s *Solver) flush() {
	for _, p := range s.pending {
		r := s.render(p)
		s.send("(assert " + r + ")\n")
	}
	s.pending = s.pending[:0]
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc /\ extra; on Sat returns a model of all declared variables.
func (s *Solver) Check(extra *Term) (Result, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.flush()
	r := s.render(extra)
	s.send("(push 1)\n(assert " + r + ")\n(check-sat)\n")
	s.in.Flush()
	s.Queries++
	ans, err := s.readLine()
	for err == nil && (ans == "" || strings.HasPrefix(ans, "(error")) {
		if ans != "" {
			s.errors = append(s.errors, ans)
			ans = "unknown"
			// an error line may be followed by the answer; drain it
			l, e2 := s.readLine()
			_ = l
			err = e2
			break
		}
		ans, err = s.readLine()
	}
	if err != nil {
		s.errors = append(s.errors, "solver died: "+err.Error())
		s.UnknownN++
		return Unknown, nil
	}
	switch ans {
	case "unsat":
		s.UnsatN++
		s.send("(pop 1)\n")
		return Unsat, nil
	case "sat":
		s.SatN++
	default:
		s.UnknownN++
		s.send("(pop 1)\n")
		return Unknown, nil
	}
	model := map[string]uint64{}
	if len(s.decls) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, d := range s.decls {
			sb.WriteString(d.name)
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		s.send(sb.String())
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			s.errors = append(s.errors, err.Error())
			s.UnknownN++
			return Unknown, nil
		}
		parseModel(txt, model)
	}
	s.send("(pop 1)\n")
	return Sat, model
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseModel(txt string, m map[string]uint64) {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); i += 2 {
		n, v := f[i], f[i+1]
		switch {
		case v == "true":
			m[n] = 1
		case v == "false":
			m[n] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			m[n] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			m[n] = x
		default:
			panic("parseModel: " + txt)
		}
	}
}
