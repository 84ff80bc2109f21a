package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// liaSolver decides queries over linear integer arithmetic: wrap-free bit-vector sums become
// integer sums, everything else becomes an unconstrained value of its known interval. "unsat" is
// therefore sound; a model is believed only after evaluating the original terms under it.
type liaSolver struct {
	cmd   *exec.Cmd
	inRaw io.WriteCloser
	in    *bufio.Writer
	out   *bufio.Reader
	gen   uint32
	npath int
	epoch uint32
	defs  map[*Term]string
	vars  map[string]*Term
	n     int
	nan   map[*Term]bool // floating-point variables this query keeps from being NaN
	st    *Store
}

// real renders a floating-point term as a real number, or "" if it has no exact counterpart. The
// order of the non-NaN floats (infinities included) embeds into the reals, so comparisons of
// such terms carry over.
func (l *liaSolver) real(t *Term) string {
	if t.op == OConst {
		f := math.Float64frombits(t.val)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return ""
		}
		r := new(big.Rat).SetFloat64(f)
		n := new(big.Int).Abs(r.Num()).String() + ".0"
		if r.Sign() < 0 {
			n = "(- " + n + ")"
		}
		if r.IsInt() {
			return n
		}
		return "(/ " + n + " " + r.Denom().String() + ".0)"
	}
	if r, ok := l.defs[t]; ok {
		return r
	}
	e := ""
	switch t.op {
	case OVar:
		if !l.nan[t] {
			return ""
		}
		n := quoteSym(t.name)
		l.vars[t.name] = t
		l.send("(declare-fun " + n + " () Real)\n")
		l.defs[t] = n
		return n
	case OSIntToFP:
		if x := l.st.exactInt(t); x != nil {
			e = "(to_real " + l.ref(x) + ")"
		}
	case OIte:
		a, b := l.real(t.args[1]), l.real(t.args[2])
		if a != "" && b != "" {
			e = "(ite " + l.ref(t.args[0]) + " " + a + " " + b + ")"
		}
	case OFNeg:
		if a := l.real(t.args[0]); a != "" {
			e = "(- " + a + ")"
		}
	case OFAbs:
		if a := l.real(t.args[0]); a != "" {
			e = "(abs " + a + ")"
			e = "(ite (< " + a + " 0.0) (- " + a + ") " + a + ")"
		}
	}
	if e == "" {
		return ""
	}
	l.n++
	n := "x" + strconv.Itoa(l.n)
	l.send("(define-fun " + n + " () Real " + e + ")\n")
	l.defs[t] = n
	return n
}

// notNaN collects the variables a conjunct keeps from being NaN.
func (l *liaSolver) notNaN(t *Term) {
	switch t.op {
	case OAnd:
		l.notNaN(t.args[0])
		l.notNaN(t.args[1])
	case OFLt, OFLe, OFEq:
		for _, a := range t.args {
			for a.op == OFNeg || a.op == OFAbs {
				a = a.args[0]
			}
			if a.op == OVar {
				l.nan[a] = true
			}
		}
	case ONot:
		if x := t.args[0]; x.op == OFIsNaN && x.args[0].op == OVar {
			l.nan[x.args[0]] = true
		}
	}
}

func (l *liaSolver) start() {
	l.cmd = exec.Command(liaCmd, "-in", "-smt2")
	in, _ := l.cmd.StdinPipe()
	out, _ := l.cmd.StdoutPipe()
	if err := l.cmd.Start(); err != nil {
		panic(err)
	}
	l.inRaw, l.in, l.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	l.defs, l.vars = map[*Term]string{}, map[string]*Term{}
	l.npath = 0
	l.send("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :rlimit 20000000)\n(push 1)\n")
}

func (l *liaSolver) close() {
	if l.cmd != nil {
		l.inRaw.Close()
		l.cmd.Process.Kill()
		l.cmd.Wait()
		l.cmd = nil
	}
}

func (l *liaSolver) send(s string) { l.in.WriteString(s) }

func intSMT(v int64) string {
	if v < 0 {
		return "(- " + strings.TrimPrefix(strconv.FormatInt(v, 10), "-") + ")"
	}
	return strconv.FormatInt(v, 10)
}

func liaUint(t *Term) bool { return t.lo >= 0 }

// ref renders a bit-vector term as the integer of its signed value, a boolean as itself.
func (l *liaSolver) ref(t *Term) string {
	if t.op == OConst {
		if t.sort == SortBool {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return intSMT(sx(t.val, t.sort))
	}
	if r, ok := l.defs[t]; ok {
		return r
	}
	e := l.expr(t)
	l.n++
	n := "x" + strconv.Itoa(l.n)
	if e == "" { // opaque
		if t.op == OVar {
			n = quoteSym(t.name)
			l.vars[t.name] = t
		}
		if t.sort == SortBool {
			l.send("(declare-fun " + n + " () Bool)\n")
		} else {
			l.send("(declare-fun " + n + " () Int)\n")
			// the bounds hold in every path: assert them at the bottom level through a definition
			l.send("(assert (<= " + intSMT(t.lo) + " " + n + " " + intSMT(t.hi) + "))\n")
		}
	} else {
		s := "Int"
		if t.sort == SortBool {
			s = "Bool"
		}
		l.send("(define-fun " + n + " () " + s + " " + e + ")\n")
	}
	l.defs[t] = n
	return n
}

func (l *liaSolver) expr(t *Term) string {
	switch t.op {
	case OFLt, OFLe, OFEq:
		x, y := l.real(t.args[0]), l.real(t.args[1])
		if x == "" || y == "" {
			return ""
		}
		return "(" + map[Op]string{OFLt: "<", OFLe: "<=", OFEq: "="}[t.op] + " " + x + " " + y + ")"
	case OFIsNaN:
		if l.real(t.args[0]) != "" {
			return "false"
		}
		return ""
	}
	for _, a := range t.args {
		if a.sort == SortFP {
			return ""
		}
	}
	if t.sort == SortFP {
		return ""
	}
	a := func(i int) string { return l.ref(t.args[i]) }
	switch t.op {
	case OAnd:
		return "(and " + a(0) + " " + a(1) + ")"
	case OOr:
		return "(or " + a(0) + " " + a(1) + ")"
	case ONot:
		return "(not " + a(0) + ")"
	case OIte:
		return "(ite " + a(0) + " " + a(1) + " " + a(2) + ")"
	case OEq:
		return "(= " + a(0) + " " + a(1) + ")"
	case OSLt:
		return "(< " + a(0) + " " + a(1) + ")"
	case OSLe:
		return "(<= " + a(0) + " " + a(1) + ")"
	case OULt, OULe:
		if liaUint(t.args[0]) && liaUint(t.args[1]) {
			if t.op == OULt {
				return "(< " + a(0) + " " + a(1) + ")"
			}
			return "(<= " + a(0) + " " + a(1) + ")"
		}
		return ""
	}
	if t.sort <= 0 {
		return ""
	}
	switch t.op {
	case OAdd:
		return wrap(t, "(+ "+a(0)+" "+a(1)+")")
	case OSub:
		return wrap(t, "(- "+a(0)+" "+a(1)+")")
	case ONeg:
		return wrap(t, "(- "+a(0)+")")
	case OMul:
		if t.args[0].isConst() || t.args[1].isConst() {
			return wrap(t, "(* "+a(0)+" "+a(1)+")")
		}
	case OSDiv, OSRem, OUDiv, OURem:
		d := t.args[1]
		if !d.isConst() || sx(d.val, d.sort) <= 0 {
			return ""
		}
		un := t.op == OUDiv || t.op == OURem
		if un && !liaUint(t.args[0]) {
			return ""
		}
		op := "div"
		if t.op == OSRem || t.op == OURem {
			op = "mod"
		}
		x := a(0)
		if t.args[0].lo >= 0 {
			return "(" + op + " " + x + " " + a(1) + ")"
		}
		return "(ite (>= " + x + " 0) (" + op + " " + x + " " + a(1) + ") (- (" + op + " (- " + x + ") " + a(1) + ")))"
	case OBAnd:
		if c := t.args[1]; c.isConst() {
			if c.val != 0 && c.val&(c.val+1) == 0 && c.val < 1<<62 {
				return "(mod " + a(0) + " " + intSMT(int64(c.val)+1) + ")"
			}
			if c.val == 1<<63 && t.sort == 64 {
				return "(ite (< " + a(0) + " 0) " + intSMT(smin(64)) + " 0)"
			}
		}
	case OSExt:
		return a(0)
	case OZExt:
		if liaUint(t.args[0]) {
			return a(0)
		}
		return "(mod " + a(0) + " " + pow2(int(t.args[0].sort)) + ")"
	case OExtract:
		if t.val == 0 {
			return wrap(t, a(0))
		}
	case OShl:
		if t.exact && t.args[1].isConst() && t.args[1].val < 62 {
			return "(* " + a(0) + " " + intSMT(int64(1)<<t.args[1].val) + ")"
		}
	case OLShr:
		if liaUint(t.args[0]) && t.args[1].isConst() && t.args[1].val < 62 {
			return "(div " + a(0) + " " + intSMT(int64(1)<<t.args[1].val) + ")"
		}
	}
	return ""
}

// check decides the conjunction; sat comes with a model of the integer variables.
func (l *liaSolver) check(path []*Term, epoch uint32, extra *Term, vars []*Term) (Result, Model) {
	if l.cmd == nil || l.npath > 20000 {
		l.close()
		l.start()
	}
	l.npath++
	l.n = 0
	// Everything is asserted afresh: declarations made inside (their interval assertions) stay at
	// this level, so keep one level per query and forget the definitions with it.
	l.send("(pop 1)\n(push 1)\n")
	l.defs, l.vars, l.nan = map[*Term]string{}, map[string]*Term{}, map[*Term]bool{}
	for _, t := range path {
		l.notNaN(t)
	}
	l.notNaN(extra)
	var as []string
	for _, t := range path {
		as = append(as, l.ref(t))
	}
	as = append(as, l.ref(extra))
	for _, x := range as {
		l.send("(assert " + x + ")\n")
	}
	l.send("(check-sat)\n")
	if l.in.Flush() != nil {
		l.close()
		return Unknown, nil
	}
	line := ""
	for {
		x, err := l.out.ReadString('\n')
		if err != nil {
			l.close()
			return Unknown, nil
		}
		x = strings.TrimSpace(x)
		if x == "sat" || x == "unsat" || x == "unknown" || x == "timeout" {
			line = x
			break
		}
		if strings.HasPrefix(x, "(error") {
			fmt.Println("lia:", x)
			l.close()
			return Unknown, nil
		}
	}
	switch line {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		return Unknown, nil
	}
	m := Model{}
	var names []string
	for _, v := range vars {
		if _, ok := l.vars[v.name]; ok {
			names = append(names, v.name)
		}
	}
	if len(names) > 0 {
		l.send("(get-value (")
		for _, n := range names {
			l.send(quoteSym(n) + " ")
		}
		l.send("))\n")
		l.in.Flush()
		txt, err := readSexp(l.out)
		if err != nil {
			l.close()
			return Unknown, nil
		}
		parseInts(txt, m, l.vars)
	}
	return Sat, m
}

func parseInts(txt string, m Model, vars map[string]*Term) {
	i := 0
	for {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			return
		}
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		name := txt[i : i+k]
		i += k + 1
		// value up to the closing parenthesis of the pair
		depth := 1
		s := i
		for i < len(txt) && depth > 0 {
			if txt[i] == '(' {
				depth++
			}
			if txt[i] == ')' {
				depth--
			}
			i++
		}
		t := vars[name]
		if t != nil && t.sort == SortFP {
			if f, ok := parseReal(txt[s : i-1]); ok {
				m[name] = math.Float64bits(f)
			}
			continue
		}
		val := strings.NewReplacer("(", "", ")", "", " ", "", "\n", "").Replace(txt[s:i])
		switch val {
		case "true":
			m[name] = 1
		case "false":
			m[name] = 0
		default:
			v, err := strconv.ParseInt(val, 10, 64)
			if err == nil && t != nil {
				m[name] = uint64(v) & mask(t.sort)
			}
		}
	}
}

// parseReal reads a rational constant as the solver prints it.
func parseReal(x string) (float64, bool) {
	neg := strings.Contains(x, "-")
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ", "-", " ", "/", " ", "?", " ").Replace(x))
	r := new(big.Rat)
	switch len(f) {
	case 1:
		if _, ok := r.SetString(f[0]); !ok {
			return 0, false
		}
	case 2:
		d := new(big.Rat)
		if _, ok := r.SetString(f[0]); !ok {
			return 0, false
		}
		if _, ok := d.SetString(f[1]); !ok || d.Sign() == 0 {
			return 0, false
		}
		r.Quo(r, d)
	default:
		return 0, false
	}
	if neg {
		r.Neg(r)
	}
	v, _ := r.Float64()
	return v, true
}

// varsOf returns the identifiers of the variables of a term, in ascending order.
func varsOf(t *Term) []int32 {
	if t.vset != nil || t.op == OConst {
		return t.vset
	}
	if t.op == OVar {
		t.vset = []int32{t.id}
		return t.vset
	}
	var r []int32
	for _, a := range t.args {
		r = mergeIDs(r, varsOf(a))
	}
	if r == nil {
		r = []int32{}
	}
	t.vset = r
	return r
}

func mergeIDs(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	var r []int32
	i, j, newA, newB := 0, 0, false, false
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
			newB = true
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
			newA = true
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	if !newA {
		return a
	}
	if !newB {
		return b
	}
	return r
}

// slice keeps the conjuncts connected to extra through shared variables. The others are
// satisfied by the path's model, which does not share variables with them.
func slice(all []*Term, extra *Term) []*Term {
	in := map[int32]bool{}
	for _, v := range varsOf(extra) {
		in[v] = true
	}
	used := make([]bool, len(all))
	for {
		grown := false
		for i, t := range all {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range varsOf(t) {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			for _, v := range varsOf(t) {
				if !in[v] {
					in[v] = true
					grown = true
				}
			}
		}
		if !grown {
			break
		}
	}
	var r []*Term
	for i, t := range all {
		if used[i] {
			r = append(r, t)
		}
	}
	return r
}

func (s *Solver) hasHard(t *Term) bool {
	if t.hard != 0 {
		return t.hard == 2
	}
	t.hard = 1
	switch t.op {
	case OFLt, OFLe, OFEq, OBAnd, OMul, OSDiv, OSRem, OUDiv, OURem:
		t.hard = 2
		return true
	}
	for _, a := range t.args {
		if s.hasHard(a) {
			t.hard = 2
			return true
		}
	}
	return false
}

// tryLIA answers with the integer solver if it can.
func (s *Solver) tryLIA(extra *Term, vars []*Term) (Result, Model) {
	if s.lia == nil {
		s.lia = &liaSolver{}
	}
	t0 := time.Now()
	all := append(append([]*Term{}, s.pathTerms...), s.pending...)
	s.lia.st = s.store
	part := all
	if s.base != nil {
		part = slice(all, extra)
	}
	r, m := s.lia.check(part, 0, extra, vars)
	_ = t0
	if r != Sat {
		return r, nil
	}
	// keep what the path model says about variables the integer solver did not see
	md := Model{}
	for k, v := range s.base {
		md[k] = v
	}
	for k, v := range m {
		md[k] = v
	}
	ev := Evaluator{m: md, gen: nextGenSafe()}
	for _, t := range append(all, extra) {
		if ev.Eval(t) != 1 {
			return Unknown, nil
		}
	}
	return Sat, m
}

var liaCmd = "z3-new"

func pow2(n int) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)).String() }

// wrap reduces an integer expression to the signed range of the term's width.
func wrap(t *Term, e string) string {
	if t.exact {
		return e
	}
	h := pow2(int(t.sort) - 1)
	return "(- (mod (+ " + e + " " + h + ") " + pow2(int(t.sort)) + ") " + h + ")"
}
