package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Lemmas                       int
	Time                         time.Duration
	MaxQuery                     time.Duration
}

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	emitted []map[int32]bool // per scope
	vars    [][]*Term        // per scope, declared variables
	Stats   SolverStats
	timeout int // ms
	dead    bool
	logf    *os.File
}

func NewSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		s.logf, _ = os.Create(fmt.Sprintf("%s.%p", p, s))
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	s.dead = false
	s.emitted = []map[int32]bool{{}}
	s.vars = [][]*Term{nil}
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout " + strconv.Itoa(s.timeout) + ")\n(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(x string) {
	s.buf.WriteString(x)
	if s.buf.Len() > 1<<18 {
		s.flush()
	}
}
func (s *Solver) flush() {
	if s.logf != nil {
		s.logf.WriteString(s.buf.String())
	}
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.dead = true
	}
	s.buf.Reset()
}

func (s *Solver) Push() {
	s.send("(push 1)\n")
	s.emitted = append(s.emitted, map[int32]bool{})
	s.vars = append(s.vars, nil)
}
func (s *Solver) Pop() {
	s.send("(pop 1)\n")
	s.emitted = s.emitted[:len(s.emitted)-1]
	s.vars = s.vars[:len(s.vars)-1]
}

// Reset drops everything (used between paths).
func (s *Solver) Reset() {
	s.Close()
	s.buf.Reset()
	s.start()
}

func (s *Solver) isEmitted(id int32) bool {
	for _, m := range s.emitted {
		if m[id] {
			return true
		}
	}
	return false
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	if t.op == OpConst {
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", t.w, t.val)
	}
	if t.op == OpVar {
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) emit(t *Term) {
	if t.op == OpConst || s.isEmitted(t.id) {
		return
	}
	top := len(s.emitted) - 1
	if t.op == OpVar {
		s.emitted[top][t.id] = true
		s.vars[top] = append(s.vars[top], t)
		s.send("(declare-const " + s.ref(t) + " " + sortStr(t.w) + ")\n")
		return
	}
	for _, a := range t.args {
		s.emit(a)
	}
	s.emitted[top][t.id] = true
	var b strings.Builder
	b.WriteString("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortStr(t.w) + " (")
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&b, "(_ extract %d %d)", t.val>>8, t.val&0xff)
	case OpSext:
		fmt.Fprintf(&b, "(_ sign_extend %d)", t.w-t.args[0].w)
	default:
		b.WriteString(opName[t.op])
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(s.ref(a))
	}
	b.WriteString("))\n")
	s.send(b.String())
}

func (s *Solver) Assert(t *Term) {
	s.emit(t)
	s.send("(assert " + s.ref(t) + ")\n")
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (s *Solver) readLine() (string, bool) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "", false
		}
		if l = strings.TrimSpace(l); l != "" {
			return l, true
		}
	}
}

func (s *Solver) Check() Res {
	if s.dead {
		s.Stats.Unknown++
		return Unknown
	}
	st := time.Now()
	s.send("(check-sat)\n")
	s.flush()
	s.Stats.Queries++
	l, ok := s.readLine()
	d := time.Since(st)
	s.Stats.Time += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	if !ok {
		s.Stats.Unknown++
		return Unknown
	}
	switch l {
	case "sat":
		s.Stats.Sat++
		return Sat
	case "unsat":
		s.Stats.Unsat++
		return Unsat
	case "unknown", "timeout":
		s.Stats.Unknown++
		return Unknown
	}
	// any error line: inconclusive; restart
	fmt.Fprintln(os.Stderr, "gosym: solver said:", l)
	s.Stats.Unknown++
	s.dead = true
	return Unknown
}

// Values reads the model for every declared variable.
func (s *Solver) Values() map[*Term]uint64 {
	m := map[*Term]uint64{}
	for _, vs := range s.vars {
		for i := 0; i < len(vs); i += 200 {
			j := min(i+200, len(vs))
			s.send("(get-value (")
			for _, v := range vs[i:j] {
				s.send(s.ref(v) + " ")
			}
			s.send("))\n")
			s.flush()
			txt, ok := s.readSexp()
			if !ok {
				return nil
			}
			// parse ((v1 #x..) (v2 true) ...)
			toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
			if len(toks) != 2*(j-i) {
				fmt.Fprintln(os.Stderr, "gosym: bad model:", txt[:min(200, len(txt))])
				s.dead = true
				return nil
			}
			for k, v := range vs[i:j] {
				x := toks[2*k+1]
				var val uint64
				switch {
				case x == "true":
					val = 1
				case x == "false":
				case strings.HasPrefix(x, "#x"):
					val, _ = strconv.ParseUint(x[2:], 16, 64)
				case strings.HasPrefix(x, "#b"):
					val, _ = strconv.ParseUint(x[2:], 2, 64)
				}
				m[v] = val
			}
		}
	}
	return m
}

func (s *Solver) readSexp() (string, bool) {
	depth := 0
	var b strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return "", false
		}
		if depth == 0 && (c == '\n' || c == ' ' || c == '\r') {
			continue
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return b.String(), true
			}
		}
	}
}
