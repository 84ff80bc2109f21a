package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver wraps one long-lived SMT solver process.
type Solver struct {
	path      string
	args      []string
	cmd       *exec.Cmd
	in        *bufio.Writer
	inRaw     io.WriteCloser
	out       *bufio.Reader
	gen       uint32
	pathTerms []*Term // asserted at path level (level 1)
	pending   []*Term
	buf       bytes.Buffer
	declared  map[string]Sort
	timeoutMs int
	nDefs     int
	restarted bool

	lia   *liaSolver
	store *Store
	base  Model // values of the current path model
	LIA   int

	// statistics
	Queries, SatN, UnsatN, UnknownN, Fallbacks, ModelHits int
	Time                                                  time.Duration
	log                                                   io.Writer
}

func NewSolver(timeoutMs int) *Solver {
	s := &Solver{path: "z3", args: []string{"-in", "-smt2"}, timeoutMs: timeoutMs}
	if p := os.Getenv("VENGINE_SOLVER"); p != "" {
		s.path = p
	}
	if p := os.Getenv("VENGINE_SMTLOG"); p != "" {
		f, _ := os.CreateTemp(p, "smt")
		s.log = f
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.path, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen = nextGenSafe()
	s.declared = map[string]Sort{}
	s.nDefs = 0
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMs))
	s.send("(set-option :memory_max_size 3000)\n(push 1)\n")
	s.pending = append(append([]*Term{}, s.pathTerms...), s.pending...)
	s.pathTerms = nil
}

func (s *Solver) Close() {
	if s.lia != nil {
		s.lia.close()
	}
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

// NewPath drops the assertions of the previous path.
func (s *Solver) NewPath() {
	if len(s.pathTerms) > 0 {
		s.send("(pop 1)\n(push 1)\n")
	}
	s.pathTerms = s.pathTerms[:0]
	s.pending = s.pending[:0]
	if s.nDefs > 300000 {
		s.Close()
		s.start()
	}
}

func (s *Solver) Assert(t *Term) { s.pending = append(s.pending, t) }

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constSMT(t)
	}
	if t.emit != s.gen {
		s.emitTerm(t)
	}
	if t.op == OVar {
		if t.sort == SortFP {
			return "t" + strconv.Itoa(int(t.id))
		}
		return quoteSym(t.name)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) emitTerm(t *Term) {
	t.emit = s.gen
	s.nDefs++
	if t.op == OVar {
		ds := t.sort
		if ds == SortFP {
			ds = 64
		}
		s.declared[t.name] = ds
		s.send("(declare-fun " + quoteSym(t.name) + " () " + sortSMT(ds) + ")\n")
		if t.sort == SortFP {
			s.send("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortSMT(SortFP) + " " + t.expr(nil) + ")\n")
		}
		return
	}
	for _, a := range t.args {
		s.ref(a)
	}
	s.send("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortSMT(t.sort) + " " + t.expr(s.ref) + ")\n")
}

func (s *Solver) flushPending() {
	for _, t := range s.pending {
		r := s.ref(t)
		s.send("(assert " + r + ")\n")
		s.pathTerms = append(s.pathTerms, t)
	}
	s.pending = s.pending[:0]
}

// Check decides path ∧ extra. vars are the variables whose values are wanted.
var slowLog = os.Getenv("VENGINE_SLOW")

func (s *Solver) Check(extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if slowLog != "" && d > 3*time.Second {
			if f, err := os.CreateTemp(slowLog, "q*.smt2"); err == nil {
				fmt.Fprintf(f, "; %v\n%s", d, s.script(extra, vars, false))
				f.Close()
			}
		}
	}()
	s.Queries++
	s.restarted = false
	hard := s.hasHard(extra)
	for _, t := range s.pathTerms {
		hard = hard || s.hasHard(t)
	}
	for _, t := range s.pending {
		hard = hard || s.hasHard(t)
	}
	if hard {
		if r, m := s.tryLIA(extra, vars); r != Unknown {
			s.LIA++
			if r == Sat {
				s.SatN++
			} else {
				s.UnsatN++
			}
			return r, m
		}
	}
	s.flushPending()
	r := s.ref(extra)
	s.send("(push 1)\n(assert " + r + ")\n(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	res := Unknown
	var m Model
	switch {
	case err != nil:
		s.restart()
	case line == "sat":
		res = Sat
		m, err = s.getModel(vars)
		if err != nil {
			res = Unknown
			s.restart()
		}
	case line == "unsat":
		res = Unsat
	case line == "unknown":
	default:
		fmt.Fprintln(os.Stderr, "solver said:", line)
		s.restart()
		res = Unknown
	}
	if !s.restarted {
		s.send("(pop 1)\n")
	}
	if res == Unknown {
		s.Fallbacks++
		res, m = s.oneShot(extra, vars)
	}
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	return res, m
}

func (s *Solver) restart() {
	s.Close()
	s.start()
	s.restarted = true
}

func (s *Solver) readLine() (string, error) {
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		line = strings.TrimSpace(line)
		if line != "" {
			return line, nil
		}
	}
}

func (s *Solver) getModel(vars []*Term) (Model, error) {
	m := Model{}
	var names []string
	for _, v := range vars {
		if _, ok := s.declared[v.name]; ok {
			names = append(names, v.name)
		}
	}
	if len(names) == 0 {
		return m, nil
	}
	s.send("(get-value (")
	for _, n := range names {
		s.send(quoteSym(n) + " ")
	}
	s.send("))\n")
	s.in.Flush()
	txt, err := s.readSexp()
	if err != nil {
		return nil, err
	}
	return parseValues(txt, m)
}

func (s *Solver) readSexp() (string, error) { return readSexp(s.out) }

func readSexp(rd *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		c, err := rd.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseValues(txt string, m Model) (Model, error) {
	// ((|name| value) ...)
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '(')
		if j < 0 {
			break
		}
		i += j + 1
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		if i < len(txt) && txt[i] == '(' {
			continue
		}
		var name string
		if txt[i] == '|' {
			k := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+k]
			i += k + 2
		} else {
			k := strings.IndexAny(txt[i:], " \n")
			name = txt[i : i+k]
			i += k
		}
		k := strings.IndexByte(txt[i:], ')')
		val := strings.TrimSpace(txt[i : i+k])
		i += k + 1
		var v uint64
		var err error
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			err = fmt.Errorf("cannot parse %q", val)
		}
		if err != nil {
			return nil, err
		}
		m[name] = v
	}
	return m, nil
}

// script renders path ∧ extra as a stand-alone SMT-LIB script.
func (s *Solver) script(extra *Term, vars []*Term, getv bool) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BVFP)\n")
	seen := map[*Term]bool{}
	decl := map[string]bool{}
	var ref func(t *Term) string
	ref = func(t *Term) string {
		if t.op == OConst {
			return constSMT(t)
		}
		if t.op == OVar {
			if !decl[t.name] {
				decl[t.name] = true
				ds := t.sort
				if ds == SortFP {
					ds = 64
				}
				sb.WriteString("(declare-fun " + quoteSym(t.name) + " () " + sortSMT(ds) + ")\n")
			}
			return t.expr(nil)
		}
		n := "t" + strconv.Itoa(int(t.id))
		if !seen[t] {
			seen[t] = true
			for _, a := range t.args {
				ref(a)
			}
			sb.WriteString("(define-fun " + n + " () " + sortSMT(t.sort) + " " + t.expr(ref) + ")\n")
		}
		return n
	}
	for _, t := range append(append([]*Term{}, s.pathTerms...), s.pending...) {
		r := ref(t)
		sb.WriteString("(assert " + r + ")\n")
	}
	if extra != nil {
		r := ref(extra)
		sb.WriteString("(assert " + r + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if getv {
		var names []string
		for _, v := range vars {
			if decl[v.name] {
				names = append(names, quoteSym(v.name))
			}
		}
		if len(names) > 0 {
			sb.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
		}
	}
	return sb.String()
}

var oneShotTimeout = 25 * time.Second

func runScript(argv []string, script string, to time.Duration) string {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	c := exec.CommandContext(ctx, argv[0], argv[1:]...)
	c.Stdin = strings.NewReader(script)
	out, _ := c.Output()
	return string(out)
}

// oneShot races fresh solver processes on the query.
func (s *Solver) oneShot(extra *Term, vars []*Term) (Result, Model) {
	script := s.script(extra, vars, true)
	type ans struct {
		r Result
		m Model
	}
	cands := [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "--produce-models", "-"}, {"z3", "-in", "-smt2", "tactic.default_tactic=smt"}}
	ch := make(chan ans, len(cands))
	for _, c := range cands {
		go func(c []string) {
			out := runScript(c, script, oneShotTimeout)
			a := ans{r: Unknown}
			if i := strings.IndexByte(out, '\n'); i > 0 && !strings.Contains(strings.SplitN(out, "\n", 2)[0], "error") {
				switch strings.TrimSpace(out[:i]) {
				case "sat":
					if m, err := parseValues(out[i:], Model{}); err == nil {
						a = ans{Sat, m}
					}
				case "unsat":
					a = ans{Unsat, nil}
				}
			}
			ch <- a
		}(c)
	}
	for range cands {
		if a := <-ch; a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
