package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"time"
)

// Solver is one incremental z3 process plus a shadow copy of its assertion stack, so
// that a query it cannot decide can be re-posed to a portfolio of fresh solvers.
type Solver struct {
	tt     *termTable
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	frames []*sframe
	tsize  map[*Term]int

	Queries  int
	Time     time.Duration
	ByBack   map[string]int
	TimeoutM int // per query timeout in ms
	Deadline time.Time
	dead     bool
}

type sframe struct {
	asserts  []*Term
	declared map[string]bool
	named    map[*Term]bool
	lines    []string // everything sent in this frame
	unfolded map[*Term]int
	asserted map[*Term]bool
}

func newFrame() *sframe {
	return &sframe{declared: map[string]bool{}, named: map[*Term]bool{}, unfolded: map[*Term]int{}, asserted: map[*Term]bool{}}
}

func NewSolver(tt *termTable, timeoutMs int) *Solver {
	s := &Solver{tt: tt, tsize: map[*Term]int{}, ByBack: map[string]int{}, TimeoutM: timeoutMs}
	s.frames = []*sframe{newFrame()}
	s.start()
	return s
}

const prelude = `(set-option :print-success false)
(set-option :produce-models true)
`
const sortDecls = `(declare-sort Bs 0)
(declare-sort Flt 0)
`

func (s *Solver) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "%s(set-option :timeout %d)\n%s", prelude, s.TimeoutM, sortDecls)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
	for i, f := range s.frames {
		if i > 0 {
			fmt.Fprintln(s.in, "(push 1)")
		}
		for _, l := range f.lines {
			fmt.Fprintln(s.in, l)
		}
	}
}

func (s *Solver) send(l string) {
	f := s.frames[len(s.frames)-1]
	f.lines = append(f.lines, l)
	fmt.Fprintln(s.in, l)
}

func (s *Solver) Push() {
	s.frames = append(s.frames, newFrame())
	fmt.Fprintln(s.in, "(push 1)")
}
func (s *Solver) Pop() {
	s.frames = s.frames[:len(s.frames)-1]
	fmt.Fprintln(s.in, "(pop 1)")
}

func (s *Solver) isDeclared(n string) bool {
	for _, f := range s.frames {
		if f.declared[n] {
			return true
		}
	}
	return false
}
func (s *Solver) isNamed(t *Term) bool {
	for _, f := range s.frames {
		if f.named[t] {
			return true
		}
	}
	return false
}

func (s *Solver) size(t *Term) int {
	if n, ok := s.tsize[t]; ok {
		return n
	}
	n := 1
	for _, a := range t.args {
		n += s.size(a)
		if n > 1000000 {
			n = 1000000
		}
	}
	s.tsize[t] = n
	return n
}

func (s *Solver) declare(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "var" || t.op == "app" {
		if !s.isDeclared(t.name) {
			d := s.tt.funs[t.name]
			var as []string
			for _, a := range d.args {
				as = append(as, string(a))
			}
			s.frames[len(s.frames)-1].declared[t.name] = true
			s.send(fmt.Sprintf("(declare-fun %s (%s) %s)", smtName(t.name), strings.Join(as, " "), d.res))
		}
	}
	for _, a := range t.args {
		s.declare(a, seen)
	}
}

func (s *Solver) render(t *Term) string {
	var sb strings.Builder
	s.rend(&sb, t, true)
	return sb.String()
}
func (s *Solver) rend(sb *strings.Builder, t *Term, top bool) {
	if len(t.args) > 0 && s.size(t) > 24 {
		// share large subterms through definitions in the current frame
		if !s.isNamed(t) {
			if top {
				goto plain
			}
			var inner strings.Builder
			s.rendPlain(&inner, t)
			s.frames[len(s.frames)-1].named[t] = true
			s.send(fmt.Sprintf("(define-fun d!%d () %s %s)", t.id, t.sort, inner.String()))
		}
		fmt.Fprintf(sb, "d!%d", t.id)
		return
	}
plain:
	s.rendPlain(sb, t)
}
func (s *Solver) rendPlain(sb *strings.Builder, t *Term) {
	switch t.op {
	case "const", "var":
		t.write(sb, 0)
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		s.rend(sb, t.args[0], false)
		sb.WriteByte(')')
	default:
		sb.WriteByte('(')
		if t.op == "app" {
			sb.WriteString(smtName(t.name))
		} else {
			sb.WriteString(t.op)
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			s.rend(sb, a, false)
		}
		sb.WriteByte(')')
	}
}

func (s *Solver) rawAssert(t *Term) {
	if t.isTrue() {
		return
	}
	for _, f := range s.frames {
		if f.asserted[t] {
			return
		}
	}
	f := s.frames[len(s.frames)-1]
	f.asserted[t] = true
	f.asserts = append(f.asserts, t)
	s.declare(t, map[*Term]bool{})
	s.send("(assert " + s.render(t) + ")")
}

// Check returns "sat", "unsat" or "unknown".
var slowLog = os.Getenv("GCV_SLOW") != ""

func (s *Solver) Check() string {
	t0 := time.Now()
	s.Queries++
	fmt.Fprintln(s.in, "(check-sat)")
	r := s.readLine()
	s.Time += time.Since(t0)
	if d := time.Since(t0); slowLog && d > time.Second {
		fmt.Fprintf(os.Stderr, "SLOW %.1fs %s\n", d.Seconds(), r)
		debug.PrintStack()
	}
	if r == "timeout" || r == "unknown" || r == "" {
		if r == "" {
			s.restart()
		}
		return "unknown"
	}
	if strings.HasPrefix(r, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", r)
		if os.Getenv("GCV_DUMP") != "" {
			os.WriteFile(os.Getenv("GCV_DUMP"), []byte(s.dump(nil)), 0o644)
		}
		s.restart()
		return "unknown"
	}
	return r
}

func (s *Solver) readLine() string {
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			return ""
		}
		return strings.TrimSpace(r.l)
	case <-time.After(time.Duration(s.TimeoutM)*time.Millisecond + 3*time.Second):
		s.cmd.Process.Kill()
		return ""
	}
}

func (s *Solver) dump(extra []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n" + sortDecls)
	for _, f := range s.frames {
		for _, l := range f.lines {
			sb.WriteString(l)
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

// Portfolio re-poses the current assertion stack to other solvers.
func (s *Solver) Portfolio(timeout time.Duration) (string, string) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	f, err := os.CreateTemp("", "gcv*.smt2")
	if err != nil {
		return "unknown", ""
	}
	defer os.Remove(f.Name())
	f.WriteString(s.dump(nil) + "(check-sat)\n")
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type res struct{ who, r string }
	cmds := map[string][]string{
		"z3-new": {"z3-new", f.Name()},
		"cvc5":   {"cvc5", "--lang=smt2", f.Name()},
		"z3":     {"z3", f.Name()},
	}
	ch := make(chan res, len(cmds))
	for w, c := range cmds {
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			o, _ := cmd.Output()
			r := strings.TrimSpace(strings.SplitN(string(o), "\n", 2)[0])
			ch <- res{w, r}
		}()
	}
	for range cmds {
		r := <-ch
		if r.r == "unsat" || r.r == "sat" {
			return r.r, r.who
		}
	}
	return "unknown", ""
}

// Eval asks for the value of terms in the current model (after a sat answer).
func (s *Solver) Eval(ts []*Term) map[*Term]string {
	res := map[*Term]string{}
	for _, t := range ts {
		seen := map[*Term]bool{}
		ok := true
		var chk func(t *Term)
		chk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if (t.op == "var" || t.op == "app") && !s.isDeclared(t.name) {
				ok = false
			}
			for _, a := range t.args {
				chk(a)
			}
		}
		chk(t)
		if !ok {
			continue
		}
		fmt.Fprintf(s.in, "(eval %s)\n", t.String())
		l := s.readLine()
		l = strings.ReplaceAll(l, "(- ", "-")
		l = strings.TrimSuffix(l, ")")
		if strings.HasPrefix(l, "(error") {
			continue
		}
		res[t] = l
	}
	return res
}
