package main

// One solver process, driven over a pipe in incremental SMT-LIB2.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int
	Time                            time.Duration
	MaxTime                         time.Duration
	OneShot                         int
	Tactic                          int
}

type Solver struct {
	bank    *Bank
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	stack   []*PC // asserted path-condition nodes (one push level each)
	Stats   SolverStats
	Timeout time.Duration
	fresh   bool // the incremental process has proved too slow
	trace   *os.File
	nproc   int
	alive   bool
	slow    int
	nq      int
}

var solverBin = "z3-new"

var paranoid = os.Getenv("GOSYM_PARANOID") != ""

func NewSolver(bank *Bank) *Solver {
	s := &Solver{bank: bank, bin: solverBin, Timeout: 60 * time.Second}
	if p := os.Getenv("GOSYM_SMT_TRACE"); p != "" {
		s.trace, _ = os.Create(p)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--produce-models"}
	} else {
		args = []string{"-in", "-smt2", "-memory:6000"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.bin, err))
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.stack = nil
	s.nproc++
	s.alive = true
	s.send("(set-option :global-declarations true)\n")
	s.send("(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.trace != nil {
		s.trace.WriteString(x)
	}
}

func ref(t *Term) string {
	switch t.Op {
	case OpConst:
		return bvlit(t.W, t.V)
	case OpVar:
		return "v" + strconv.Itoa(int(t.VarIx))
	}
	return "t" + strconv.Itoa(int(t.ID))
}

func (s *Solver) define(t *Term) {
	if t.Op == OpConst || s.defined[t.ID] {
		return
	}
	// iterative post-order: terms can be deep
	type item struct {
		t  *Term
		ix int
	}
	st := []item{{t, 0}}
	for len(st) > 0 {
		top := &st[len(st)-1]
		if s.defined[top.t.ID] {
			st = st[:len(st)-1]
			continue
		}
		if top.ix < 3 {
			a := top.t.A[top.ix]
			top.ix++
			if a != nil && a.Op != OpConst && !s.defined[a.ID] {
				st = append(st, item{a, 0})
			}
			continue
		}
		x := top.t
		if x.Op == OpVar {
			s.send(fmt.Sprintf("(declare-const %s %s)\n", ref(x), x.sortStr()))
		} else {
			s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", ref(x), x.sortStr(), x.expr(ref)))
		}
		s.defined[x.ID] = true
		st = st[:len(st)-1]
	}
}

func (s *Solver) sync(pc *PC) {
	// path from root
	var path []*PC
	for p := pc; p != nil; p = p.parent {
		if !p.implied {
			path = append(path, p)
		}
	}
	for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
		path[i], path[j] = path[j], path[i]
	}
	n := 0
	for n < len(path) && n < len(s.stack) && path[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", k))
		s.stack = s.stack[:n]
	}
	for ; n < len(path); n++ {
		s.define(path[n].cond)
		s.send("(push 1)\n(assert " + ref(path[n].cond) + ")\n")
		s.stack = append(s.stack, path[n])
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc ∧ extra.  On Sat a model over the bank's variables is
// returned when wanted.
func (s *Solver) Check(pc *PC, extra *Term, wantModel bool) (Verdict, *Model) {
	if extra != nil && extra.IsFalse() {
		return Unsat, nil
	}
	if s.fresh {
		return s.checkFresh(pc, extra)
	}
	t0 := time.Now()
	push := extra != nil && !extra.IsTrue()
	var v Verdict
	var m *Model
	for {
		s.sync(pc)
		if push {
			s.define(extra)
			s.send("(push 1)\n(assert " + ref(extra) + ")\n")
		}
		tactic := s.slow >= 4
		t1 := time.Now()
		v, m = s.ask(wantModel, tactic)
		d1 := time.Since(t1)
		if tactic {
			s.Stats.Tactic++
		}
		if !tactic && d1 > 250*time.Millisecond {
			s.slow++
		}
		if !s.alive {
			// killed or confused; once more with the other procedure
			s.alive = true
			if !tactic {
				s.slow = 4
				continue
			}
			// and from now on by fresh processes
			s.fresh = true
			return s.checkFresh(pc, extra)
		}
		if push {
			s.send("(pop 1)\n")
		}
		break
	}
	if paranoid {
		if v == Sat && m != nil && !s.holds(pc, extra, m) {
			fmt.Fprintln(os.Stderr, "BAD MODEL")
			os.Exit(9)
		}
		if v != Unknown {
			s.nq++
			if s.nq%5 == 0 {
				if v2, _, _ := s.OneShot(pc, extra, "cvc5", 20*time.Second); v2 != Unknown && v2 != v {
					fmt.Fprintln(os.Stderr, "SOLVERS DISAGREE")
					os.Exit(9)
				}
			}
		}
	}
	d := time.Since(t0)
	s.note(v, d)
	return v, m
}

func (s *Solver) checkFresh(pc *PC, extra *Term) (Verdict, *Model) {
	v, m, _ := s.OneShot(pc, extra, s.bin, min(s.Timeout, 20*time.Second))
	return v, m
}

// holds evaluates the query under a model
func (s *Solver) holds(pc *PC, extra *Term, m *Model) bool {
	s.bank.evGen++
	if extra != nil && s.bank.eval(extra, m.get) != 1 {
		return false
	}
	for p := pc; p != nil; p = p.parent {
		if s.bank.eval(p.cond, m.get) != 1 {
			return false
		}
	}
	return true
}

func (s *Solver) note(v Verdict, d time.Duration) {
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxTime {
		s.Stats.MaxTime = d
	}
	switch v {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
}

// ask runs the incremental core or, when that has proved slow, the
// bit-blasting tactic on the same assertions.  No resource limits are set (a
// cancelled z3 is not reliable afterwards): the process is killed instead.
func (s *Solver) ask(wantModel, tactic bool) (Verdict, *Model) {
	limit := min(s.Timeout, 4*time.Second)
	if tactic {
		s.send("(check-sat-using qfbv)\n")
		limit = min(s.Timeout, 10*time.Second)
	} else {
		s.send("(check-sat)\n")
	}
	if err := s.in.Flush(); err != nil {
		return s.dead("write: " + err.Error())
	}
	proc := s.cmd.Process
	wd := time.AfterFunc(limit, func() { proc.Kill() })
	line, err := s.readLine()
	wd.Stop()
	if err != nil {
		return s.dead("")
	}
	switch line {
	case "unsat":
		return Unsat, nil
	case "sat":
		if !wantModel {
			return Sat, nil
		}
		m, err := s.getModel()
		if err != nil {
			return s.dead(err.Error())
		}
		return Sat, m
	case "unknown":
		return Unknown, nil
	}
	// any error line makes the answer inconclusive
	return s.dead("solver said: " + line)
}

func (s *Solver) dead(msg string) (Verdict, *Model) {
	if msg != "" {
		fmt.Fprintln(os.Stderr, "gosym: solver:", msg)
	}
	s.alive = false
	s.restart()
	s.alive = false // nothing is asserted any more
	return Unknown, nil
}

func (s *Solver) getModel() (*Model, error) {
	var names []string
	for _, v := range s.bank.vars {
		if s.defined[v.ID] {
			names = append(names, ref(v))
		}
	}
	m := &Model{vals: make([]uint64, len(s.bank.vars))}
	if len(names) == 0 {
		return m, nil
	}
	s.send("(get-value (" + strings.Join(names, " ") + "))\n")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		return nil, fmt.Errorf("get-value: %s", txt)
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(f); i += 2 {
		ix, err := strconv.Atoi(f[i][1:])
		if err != nil {
			return nil, fmt.Errorf("get-value: %s", txt)
		}
		var v uint64
		switch {
		case f[i+1] == "true":
			v = 1
		case f[i+1] == "false":
			v = 0
		case strings.HasPrefix(f[i+1], "#x"):
			v, err = strconv.ParseUint(f[i+1][2:], 16, 64)
		case strings.HasPrefix(f[i+1], "#b"):
			v, err = strconv.ParseUint(f[i+1][2:], 2, 64)
		default:
			err = fmt.Errorf("value %s", f[i+1])
		}
		if err != nil {
			return nil, err
		}
		m.vals[ix] = v
	}
	return m, nil
}

// OneShot decides pc ∧ extra in a fresh process without incremental mode
// (lets the solver use its full bit-blasting pipeline).
func (s *Solver) OneShot(pc *PC, extra *Term, bin string, timeout time.Duration) (Verdict, *Model, error) {
	t := &Solver{bank: s.bank, bin: bin, Timeout: timeout}
	t.defined = map[int32]bool{}
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	w := &strings.Builder{}
	t.in = bufio.NewWriter(w)
	for p := pc; p != nil; p = p.parent {
		if p.implied {
			continue
		}
		t.define(p.cond)
		t.send("(assert " + ref(p.cond) + ")\n")
	}
	if extra != nil {
		t.define(extra)
		t.send("(assert " + ref(extra) + ")\n")
	}
	t.send("(check-sat)\n")
	t.in.Flush()
	sb.WriteString(w.String())
	var names []string
	for _, v := range s.bank.vars {
		if t.defined[v.ID] {
			names = append(names, ref(v))
		}
	}
	t0 := time.Now()
	run := func(script string) (string, error) {
		var c *exec.Cmd
		if strings.Contains(bin, "cvc5") {
			c = exec.Command(bin, "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
		} else {
			c = exec.Command(bin, "-in", "-smt2", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1))
		}
		c.Stdin = strings.NewReader(script)
		o, err := c.Output()
		return string(o), err
	}
	script := sb.String()
	if len(names) > 0 {
		script += "(get-value (" + strings.Join(names, " ") + "))\n"
	}
	if p := os.Getenv("GOSYM_DUMP_HARD"); p != "" {
		os.WriteFile(fmt.Sprintf("%s.%d.smt2", p, time.Now().UnixNano()), []byte(script), 0o644)
	}
	o, _ := run(script)
	d := time.Since(t0)
	s.Stats.OneShot++
	first, rest, _ := strings.Cut(o, "\n")
	first = strings.TrimSpace(first)
	v := Unknown
	var m *Model
	switch first {
	case "unsat":
		v = Unsat
	case "sat":
		v = Sat
		m = &Model{vals: make([]uint64, len(s.bank.vars))}
		f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(rest))
		for i := 0; i+1 < len(f); i += 2 {
			ix, err := strconv.Atoi(f[i][1:])
			if err != nil {
				return Unknown, nil, fmt.Errorf("model: %s", rest)
			}
			var x uint64
			switch {
			case f[i+1] == "true":
				x = 1
			case strings.HasPrefix(f[i+1], "#x"):
				x, _ = strconv.ParseUint(f[i+1][2:], 16, 64)
			case strings.HasPrefix(f[i+1], "#b"):
				x, _ = strconv.ParseUint(f[i+1][2:], 2, 64)
			}
			m.vals[ix] = x
		}
	}
	s.note(v, d)
	return v, m, nil
}
