package gosym

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Result of a solver query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// SolverStats counts what the solver did.
type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Restarts int
	AssertQueries, AssertUnsat                int
	Cached                                    int
	Time                                      time.Duration
}

// Solver talks SMT-LIB to one z3 process.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	decl    map[string]bool
	stack   []*Term // asserted path condition, one push per entry
	Stats   SolverStats
	timeout int // ms
	log     *os.File
}

func NewSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs}
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		s.log, _ = os.Create(f)
	}
	return s
}

func (s *Solver) start() {
	if s.cmd != nil {
		return
	}
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.decl = map[string]bool{}
	s.stack = nil
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :timeout " + strconv.Itoa(s.timeout) + ")")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		_ = s.inc.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
	_, _ = s.in.WriteString(l)
	_ = s.in.WriteByte('\n')
}

func (s *Solver) define(t *Term) {
	switch t.op {
	case OpConst:
		return
	case OpVar:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			s.send("(declare-const " + t.name + " " + t.sort() + ")")
		}
		return
	}
	if s.defined[t.id] {
		return
	}
	s.defined[t.id] = true
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	s.send("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + t.sort() + " " + t.body() + ")")
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if len(s.stack) > n {
		s.send("(pop " + strconv.Itoa(len(s.stack)-n) + ")")
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)")
		s.send("(assert " + pc[n].ref() + ")")
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc ∧ extra. When sat, vars' values are returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.start()
	s.Stats.Queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.send("(push 1)")
	if extra != nil {
		s.send("(assert " + extra.ref() + ")")
	}
	s.send("(check-sat)")
	_ = s.in.Flush()
	line, err := s.line()
	if err != nil {
		s.Stats.UnknownN++
		s.Stats.Restarts++
		s.Close()
		return Unknown, nil
	}
	var m Model
	var r Result
	switch line {
	case "sat":
		r = Sat
		s.Stats.SatN++
		m = Model{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.name)
				sb.WriteByte(' ')
			}
			sb.WriteString("))")
			s.send(sb.String())
			_ = s.in.Flush()
			if !s.readModel(m) {
				s.Stats.Restarts++
				s.Close()
				return Unknown, nil
			}
		}
	case "unsat":
		r = Unsat
		s.Stats.UnsatN++
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.Close()
		}
		s.Stats.UnknownN++
		if s.cmd == nil {
			return Unknown, nil
		}
		r = Unknown
	}
	s.send("(pop 1)")
	return r, m
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readModel(m Model) bool {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return false
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		fmt.Fprintln(os.Stderr, "solver:", txt)
		return false
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(f); {
		name, val := f[i], f[i+1]
		i += 2
		switch {
		case val == "true":
			m[name] = 1
		case val == "false":
			m[name] = 0
		case strings.HasPrefix(val, "#x"):
			v, _ := strconv.ParseUint(val[2:], 16, 64)
			m[name] = v
		case strings.HasPrefix(val, "#b"):
			v, _ := strconv.ParseUint(val[2:], 2, 64)
			m[name] = v
		case val == "_": // (_ bvN w)
			v, _ := strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			m[name] = v
			i += 2
		default:
			return false
		}
	}
	return true
}
