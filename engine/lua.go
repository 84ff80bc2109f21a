package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The Redis scripts of package cache are translated to Go (package hredis), so that the engine
// executes what the server would execute. The translation covers Lua 5.1 without goto,
// metatables and coroutines; a script using anything else becomes one that ends the path as
// unsupported.

type luaTok struct {
	kind string // name, num, str, op, eof
	s    string
	line int
}

func luaLex(src string) ([]luaTok, error) {
	var ts []luaTok
	line := 1
	i := 0
	kw := map[string]bool{}
	for _, k := range strings.Fields("and break do else elseif end false for function if in local nil not or repeat return then true until while goto") {
		kw[k] = true
	}
	long := func(at int) (string, int, bool) {
		j := at + 1
		eq := 0
		for j < len(src) && src[j] == '=' {
			eq++
			j++
		}
		if j >= len(src) || src[j] != '[' {
			return "", 0, false
		}
		j++
		end := "]" + strings.Repeat("=", eq) + "]"
		k := strings.Index(src[j:], end)
		if k < 0 {
			return "", 0, false
		}
		return src[j : j+k], j + k + len(end), true
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			if i+2 < len(src) && src[i+2] == '[' {
				if s, e, ok := long(i + 2); ok {
					line += strings.Count(s, "\n")
					i = e
					continue
				}
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			w := src[i:j]
			k := "name"
			if kw[w] {
				k = "op"
			}
			ts = append(ts, luaTok{k, w, line})
			i = j
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < len(src) && (src[j] == '.' || src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || (src[j] == '-' || src[j] == '+') && (src[j-1] == 'e' || src[j-1] == 'E') && !strings.HasPrefix(src[i:], "0x")) {
				j++
			}
			f, err := strconv.ParseFloat(src[i:j], 64)
			if err != nil {
				u, err2 := strconv.ParseUint(src[i:j], 0, 64)
				if err2 != nil {
					return nil, fmt.Errorf("line %d: number %s", line, src[i:j])
				}
				f = float64(u)
			}
			ts = append(ts, luaTok{"num", strconv.FormatFloat(f, 'g', -1, 64), line})
			i = j
		case c == '"' || c == '\'':
			j := i + 1
			var sb strings.Builder
			for {
				if j >= len(src) || src[j] == '\n' {
					return nil, fmt.Errorf("line %d: unfinished string", line)
				}
				if src[j] == c {
					break
				}
				if src[j] == '\\' {
					j++
					if j >= len(src) {
						return nil, fmt.Errorf("line %d: unfinished string", line)
					}
					switch e := src[j]; {
					case e == 'n':
						sb.WriteByte('\n')
					case e == 't':
						sb.WriteByte('\t')
					case e == 'r':
						sb.WriteByte('\r')
					case e == 'a':
						sb.WriteByte(7)
					case e == 'b':
						sb.WriteByte(8)
					case e == 'f':
						sb.WriteByte(12)
					case e == 'v':
						sb.WriteByte(11)
					case e >= '0' && e <= '9':
						v := 0
						for k := 0; k < 3 && j < len(src) && src[j] >= '0' && src[j] <= '9'; k++ {
							v = v*10 + int(src[j]-'0')
							j++
						}
						j--
						sb.WriteByte(byte(v))
					default:
						sb.WriteByte(e)
					}
					j++
					continue
				}
				sb.WriteByte(src[j])
				j++
			}
			ts = append(ts, luaTok{"str", sb.String(), line})
			i = j + 1
		case c == '[' && i+1 < len(src) && (src[i+1] == '[' || src[i+1] == '='):
			s, e, ok := long(i)
			if !ok {
				return nil, fmt.Errorf("line %d: bracket", line)
			}
			line += strings.Count(s, "\n")
			ts = append(ts, luaTok{"str", strings.TrimPrefix(s, "\n"), line})
			i = e
		default:
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">="} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				if !strings.ContainsRune("+-*/%^#<>=(){}[];:,.", rune(c)) {
					return nil, fmt.Errorf("line %d: character %q", line, c)
				}
				op = string(c)
			}
			ts = append(ts, luaTok{"op", op, line})
			i += len(op)
		}
	}
	return append(ts, luaTok{"eof", "", line}), nil
}

// luaGen parses and emits in one pass.
type luaGen struct {
	ts     []luaTok
	p      int
	out    strings.Builder
	n      int
	scopes []map[string]string
	vararg []bool
	// whether assigned global names exist
	globals map[string]bool
}

type luaErr struct{ s string }

func (g *luaGen) fail(f string, a ...any) {
	panic(luaErr{fmt.Sprintf("line %d: ", g.ts[g.p].line) + fmt.Sprintf(f, a...)})
}
func (g *luaGen) is(s string) bool { return g.ts[g.p].kind == "op" && g.ts[g.p].s == s }
func (g *luaGen) accept(s string) bool {
	if g.is(s) {
		g.p++
		return true
	}
	return false
}
func (g *luaGen) want(s string) {
	if !g.accept(s) {
		g.fail("%q expected near %q", s, g.ts[g.p].s)
	}
}
func (g *luaGen) name() string {
	if g.ts[g.p].kind != "name" {
		g.fail("name expected near %q", g.ts[g.p].s)
	}
	g.p++
	return g.ts[g.p-1].s
}
func (g *luaGen) fresh(n string) string {
	g.n++
	return fmt.Sprintf("%s_%d", "l_"+n, g.n)
}
func (g *luaGen) push() { g.scopes = append(g.scopes, map[string]string{}) }
func (g *luaGen) pop()  { g.scopes = g.scopes[:len(g.scopes)-1] }
func (g *luaGen) bind(n string) string {
	v := g.fresh(n)
	g.scopes[len(g.scopes)-1][n] = v
	return v
}
func (g *luaGen) lookup(n string) (string, bool) {
	for i := len(g.scopes) - 1; i >= 0; i-- {
		if v, ok := g.scopes[i][n]; ok {
			return v, true
		}
	}
	return "", false
}
func (g *luaGen) w(f string, a ...any) { fmt.Fprintf(&g.out, f+"\n", a...) }

func (g *luaGen) blockEnd() bool {
	return g.ts[g.p].kind == "eof" || g.is("end") || g.is("else") || g.is("elseif") || g.is("until")
}

func (g *luaGen) block() {
	g.push()
	g.stmts()
	g.pop()
}

func (g *luaGen) stmts() {
	for !g.blockEnd() {
		last := g.is("return") || g.is("break")
		g.stmt()
		g.accept(";")
		if last {
			if !g.blockEnd() {
				g.fail("statement after return or break")
			}
			return
		}
	}
}

func (g *luaGen) stmt() {
	switch {
	case g.accept(";"):
	case g.accept("do"):
		g.w("{")
		g.block()
		g.want("end")
		g.w("}")
	case g.accept("local"):
		if g.accept("function") {
			n := g.name()
			v := g.bind(n)
			g.w("var %s any", v)
			g.w("_ = %s", v)
			f := g.function(n)
			g.w("%s = %s", v, f)
			return
		}
		names := []string{g.name()}
		for g.accept(",") {
			names = append(names, g.name())
		}
		var es []lexp
		if g.accept("=") {
			es = g.explist()
		}
		vals := g.adjust(es, len(names))
		for i, n := range names {
			v := g.bind(n)
			g.w("var %s any = %s", v, vals[i])
			g.w("_ = %s", v)
		}
	case g.accept("if"):
		c := g.expr().one()
		g.want("then")
		g.w("if truthy(%s) {", c)
		g.block()
		depth := 1
		for {
			if g.accept("elseif") {
				g.w("} else {")
				c := g.expr().one()
				g.want("then")
				g.w("if truthy(%s) {", c)
				g.block()
				depth++
				continue
			}
			if g.accept("else") {
				g.w("} else {")
				g.block()
			}
			g.want("end")
			break
		}
		g.w("%s", strings.Repeat("}\n", depth))
	case g.accept("while"):
		g.w("for {")
		c := g.expr().one()
		g.w("if !truthy(%s) { break }", c)
		g.want("do")
		g.block()
		g.want("end")
		g.w("}")
	case g.accept("repeat"):
		g.w("for {")
		g.push()
		g.stmts()
		g.want("until")
		c := g.expr().one()
		g.w("if truthy(%s) { break }", c)
		g.pop()
		g.w("}")
	case g.accept("for"):
		n := g.name()
		if g.accept("=") {
			lo := g.expr().one()
			g.want(",")
			hi := g.expr().one()
			step := "1.0"
			if g.accept(",") {
				step = fmt.Sprintf("num(%s)", g.expr().one())
			}
			g.want("do")
			i, h, s := g.fresh("i"), g.fresh("h"), g.fresh("s")
			g.w("for %s, %s, %s := num(%s), num(%s), %s; %s > 0 && %s <= %s || %s <= 0 && %s >= %s; %s += %s {", i, h, s, lo, hi, step, s, i, h, s, i, h, i, s)
			g.push()
			v := g.bind(n)
			g.w("var %s any = %s", v, i)
			g.w("_ = %s", v)
			g.stmts()
			g.pop()
			g.want("end")
			g.w("}")
			return
		}
		names := []string{n}
		for g.accept(",") {
			names = append(names, g.name())
		}
		g.want("in")
		es := g.adjust(g.explist(), 3)
		g.want("do")
		f, s, c := g.fresh("f"), g.fresh("s"), g.fresh("c")
		g.w("{")
		g.w("var %s, %s, %s any = %s, %s, %s", f, s, c, es[0], es[1], es[2])
		g.w("for {")
		r := g.fresh("r")
		g.w("%s := call(%s, %s, %s)", r, f, s, c)
		g.push()
		for i, n := range names {
			v := g.bind(n)
			g.w("var %s any = nth(%s, %d)", v, r, i)
			g.w("_ = %s", v)
			if i == 0 {
				g.w("if %s == nil { break }", v)
				g.w("%s = %s", c, v)
			}
		}
		g.stmts()
		g.pop()
		g.want("end")
		g.w("}")
		g.w("}")
	case g.accept("function"):
		n := g.name()
		if g.is(".") || g.is(":") {
			g.fail("function %s.…", n)
		}
		f := g.function(n)
		g.store(lexp{kind: "var", s: n}, f)
	case g.accept("return"):
		if g.blockEnd() || g.is(";") {
			g.w("if true { return nil }")
			return
		}
		g.w("if true { return %s }", g.multi(g.explist()))
	case g.accept("break"):
		g.w("break")
	default:
		e := g.suffixed()
		if g.is("=") || g.is(",") {
			targets := []lexp{e}
			for g.accept(",") {
				targets = append(targets, g.suffixed())
			}
			g.want("=")
			vals := g.adjust(g.explist(), len(targets))
			if len(targets) == 1 {
				g.store(targets[0], vals[0])
				return
			}
			var ts []string
			for _, v := range vals {
				t := g.fresh("t")
				g.w("var %s any = %s", t, v)
				ts = append(ts, t)
			}
			for i, t := range targets {
				g.store(t, ts[i])
			}
			return
		}
		if e.kind != "call" {
			g.fail("statement expected near %q", g.ts[g.p].s)
		}
		g.w("_ = %s", e.s)
	}
}

func (g *luaGen) store(e lexp, v string) {
	switch e.kind {
	case "var":
		if l, ok := g.lookup(e.s); ok {
			g.w("%s = %s", l, v)
			return
		}
		// Redis does not let scripts create globals
		g.w("throw(%q)", "Script attempted to create global variable '"+e.s+"'")
	case "index":
		g.w("setIndex(%s, %s, %s)", e.a, e.b, v)
	default:
		g.fail("cannot assign")
	}
}

// lexp is an expression: value (one), call or vararg (multi), var, index.
type lexp struct {
	kind string
	s    string
	a, b string
	glob func(string) (string, bool)
}

func (e lexp) one() string {
	switch e.kind {
	case "call", "vararg":
		return "nth(" + e.s + ", 0)"
	case "var":
		v, _ := e.glob(e.s)
		return v
	case "index":
		return "index(" + e.a + ", " + e.b + ")"
	}
	return e.s
}

func (g *luaGen) explist() []lexp {
	es := []lexp{g.expr()}
	for g.accept(",") {
		es = append(es, g.expr())
	}
	return es
}

func (g *luaGen) multi(es []lexp) string {
	if len(es) == 0 {
		return "nil"
	}
	last := es[len(es)-1]
	var ss []string
	for _, e := range es[:len(es)-1] {
		ss = append(ss, e.one())
	}
	if last.kind == "call" || last.kind == "vararg" {
		if len(ss) == 0 {
			return last.s
		}
		return "append([]any{" + strings.Join(ss, ", ") + "}, " + last.s + "...)"
	}
	return "[]any{" + strings.Join(append(ss, last.one()), ", ") + "}"
}

func (g *luaGen) adjust(es []lexp, n int) []string {
	var r []string
	for i, e := range es {
		if i == len(es)-1 && n > len(es) && (e.kind == "call" || e.kind == "vararg") {
			t := g.fresh("m")
			g.w("%s := %s", t, e.s)
			for k := i; k < n; k++ {
				r = append(r, fmt.Sprintf("nth(%s, %d)", t, k-i))
			}
			return r
		}
		r = append(r, e.one())
	}
	for len(r) < n {
		r = append(r, "nil")
	}
	return r
}

var luaPrec = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3},
	"..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9}}

func (g *luaGen) expr() lexp { return g.subexpr(0) }

func val(f string, a ...any) lexp { return lexp{kind: "val", s: fmt.Sprintf(f, a...)} }

func (g *luaGen) subexpr(limit int) lexp {
	var l lexp
	switch {
	case g.accept("not"):
		l = val("any(!truthy(%s))", g.subexpr(8).one())
	case g.accept("-"):
		l = val("any(-num(%s))", g.subexpr(8).one())
	case g.accept("#"):
		l = val("length(%s)", g.subexpr(8).one())
	default:
		l = g.simple()
	}
	for g.ts[g.p].kind == "op" {
		op := g.ts[g.p].s
		pr, ok := luaPrec[op]
		if !ok || pr[0] <= limit {
			break
		}
		g.p++
		// the right side may need statements; those of "and"/"or" must not run ahead of the test
		if op == "and" || op == "or" {
			mark := g.out.Len()
			r := g.subexpr(pr[1])
			if g.out.Len() != mark {
				g.fail("nested function in a condition")
			}
			if op == "and" {
				l = val("and(%s, func() any { return %s })", l.one(), r.one())
			} else {
				l = val("or(%s, func() any { return %s })", l.one(), r.one())
			}
			continue
		}
		r := g.subexpr(pr[1])
		a, b := l.one(), r.one()
		switch op {
		case "==":
			l = val("any(equal(%s, %s))", a, b)
		case "~=":
			l = val("any(!equal(%s, %s))", a, b)
		case "<":
			l = val("any(less(%s, %s))", a, b)
		case ">":
			l = val("any(less(%s, %s))", b, a)
		case "<=":
			l = val("any(lessEq(%s, %s))", a, b)
		case ">=":
			l = val("any(lessEq(%s, %s))", b, a)
		case "..":
			l = val("concat(%s, %s)", a, b)
		case "+", "-", "*":
			l = val("any(num(%s) %s num(%s))", a, op, b)
		case "/":
			l = val("any(div(%s, %s))", a, b)
		case "%":
			l = val("any(mod(%s, %s))", a, b)
		case "^":
			l = val("any(pow(%s, %s))", a, b)
		}
	}
	return l
}

func (g *luaGen) simple() lexp {
	t := g.ts[g.p]
	switch {
	case t.kind == "num":
		g.p++
		if strings.ContainsAny(t.s, ".eIN") {
			return val("any(float64(%s))", t.s)
		}
		return val("any(float64(%s))", t.s)
	case t.kind == "str":
		g.p++
		return val("any(%q)", t.s)
	case g.accept("nil"):
		return val("any(nil)")
	case g.accept("true"):
		return val("any(true)")
	case g.accept("false"):
		return val("any(false)")
	case g.accept("..."):
		if !g.vararg[len(g.vararg)-1] {
			g.fail("... outside a vararg function")
		}
		return lexp{kind: "vararg", s: "varargs"}
	case g.is("{"):
		return g.table()
	case g.accept("function"):
		return val("%s", g.function(""))
	}
	return g.suffixed()
}

func (g *luaGen) resolve(n string) (string, bool) {
	if v, ok := g.lookup(n); ok {
		return v, true
	}
	return fmt.Sprintf("rt.global(%q)", n), false
}

func (g *luaGen) suffixed() lexp {
	var e lexp
	if g.accept("(") {
		x := g.expr()
		g.want(")")
		e = val("%s", x.one())
		e.kind = "paren"
	} else {
		n := g.name()
		e = lexp{kind: "var", s: n, glob: g.resolve}
	}
	for {
		switch {
		case g.accept("."):
			n := g.name()
			e = lexp{kind: "index", a: e.one(), b: fmt.Sprintf("any(%q)", n), glob: g.resolve}
		case g.accept("["):
			k := g.expr().one()
			g.want("]")
			e = lexp{kind: "index", a: e.one(), b: k, glob: g.resolve}
		case g.is(":"):
			g.fail("method call")
		case g.is("(") || g.is("{") || g.ts[g.p].kind == "str":
			f := e.one()
			var args []lexp
			if g.ts[g.p].kind == "str" || g.is("{") {
				args = []lexp{g.simple()}
			} else {
				g.want("(")
				if !g.is(")") {
					args = g.explist()
				}
				g.want(")")
			}
			m := g.multi(args)
			if strings.HasPrefix(m, "[]any{") && strings.HasSuffix(m, "}") {
				e = lexp{kind: "call", s: "call(" + strings.Join(append([]string{f}, func() []string {
					var r []string
					for _, a := range args {
						r = append(r, a.one())
					}
					return r
				}()...), ", ") + ")"}
			} else {
				if m == "nil" {
					e = lexp{kind: "call", s: "call(" + f + ")"}
				} else {
					e = lexp{kind: "call", s: "call(" + f + ", " + m + "...)"}
				}
			}
		default:
			return e
		}
	}
}

func (g *luaGen) table() lexp {
	g.want("{")
	var items []string
	var tail string
	for !g.is("}") {
		switch {
		case g.ts[g.p].kind == "name" && g.ts[g.p+1].kind == "op" && g.ts[g.p+1].s == "=":
			n := g.name()
			g.want("=")
			items = append(items, fmt.Sprintf("kv{any(%q), %s}", n, g.expr().one()))
		case g.accept("["):
			k := g.expr().one()
			g.want("]")
			g.want("=")
			items = append(items, fmt.Sprintf("kv{%s, %s}", k, g.expr().one()))
		default:
			e := g.expr()
			sep := g.is(",") || g.is(";")
			if (e.kind == "call" || e.kind == "vararg") && !sep {
				tail = e.s
			} else {
				items = append(items, fmt.Sprintf("kv{nil, %s}", e.one()))
			}
		}
		if !g.accept(",") && !g.accept(";") {
			break
		}
	}
	g.want("}")
	if tail == "" {
		tail = "nil"
	}
	return val("newTable([]kv{%s}, %s)", strings.Join(items, ", "), tail)
}

func (g *luaGen) function(name string) string {
	g.want("(")
	g.push()
	var params []string
	va := false
	for !g.is(")") {
		if g.accept("...") {
			va = true
			break
		}
		params = append(params, g.name())
		if !g.accept(",") {
			break
		}
	}
	g.want(")")
	g.vararg = append(g.vararg, va)
	saved := g.out
	g.out = strings.Builder{}
	for i, p := range params {
		v := g.bind(p)
		g.w("var %s any = nth(args, %d)", v, i)
		g.w("_ = %s", v)
	}
	if va {
		g.w("varargs := rest(args, %d)", len(params))
		g.w("_ = varargs")
	}
	g.stmts()
	g.want("end")
	body := g.out.String()
	g.out = saved
	g.vararg = g.vararg[:len(g.vararg)-1]
	g.pop()
	return "any(Func(func(args ...any) []any {\n" + body + "return nil\n}))"
}

// luaToGo translates one script into the body of a Go function literal.
func luaToGo(src string) (out string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(luaErr); ok {
				err = fmt.Errorf("%s", e.s)
				return
			}
			panic(r)
		}
	}()
	ts, err := luaLex(src)
	if err != nil {
		return "", err
	}
	g := &luaGen{ts: ts, vararg: []bool{true}}
	g.push()
	g.stmts()
	if g.ts[g.p].kind != "eof" {
		g.fail("unexpected %q", g.ts[g.p].s)
	}
	return g.out.String(), nil
}

// luaScripts finds the constant strings of a package that are Redis scripts.
func luaScripts(dir string) []string {
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	consts := map[string]ast.Expr{}
	var parsed []*ast.File
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			continue
		}
		parsed = append(parsed, af)
		for _, d := range af.Decls {
			if gd, ok := d.(*ast.GenDecl); ok {
				for _, s := range gd.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok && len(vs.Names) == len(vs.Values) {
						for i, n := range vs.Names {
							consts[n.Name] = vs.Values[i]
						}
					}
				}
			}
		}
	}
	var eval func(e ast.Expr, depth int) (string, bool)
	eval = func(e ast.Expr, depth int) (string, bool) {
		if depth > 20 {
			return "", false
		}
		switch e := e.(type) {
		case *ast.BasicLit:
			if e.Kind == token.STRING {
				return constant.StringVal(constant.MakeFromLiteral(e.Value, token.STRING, 0)), true
			}
		case *ast.ParenExpr:
			return eval(e.X, depth+1)
		case *ast.Ident:
			if v, ok := consts[e.Name]; ok {
				return eval(v, depth+1)
			}
		case *ast.BinaryExpr:
			if e.Op == token.ADD {
				a, ok1 := eval(e.X, depth+1)
				b, ok2 := eval(e.Y, depth+1)
				return a + b, ok1 && ok2
			}
		}
		return "", false
	}
	set := map[string]bool{}
	for _, af := range parsed {
		ast.Inspect(af, func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok {
				if s, ok := eval(e, 0); ok && (strings.Contains(s, "redis.call") || strings.Contains(s, "redis.pcall")) {
					set[s] = true
				}
			}
			return true
		})
	}
	var r []string
	for s := range set {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

// genScripts writes the translated scripts as a file of package hredis.
func genScripts(repo, work string) (string, error) {
	var sb strings.Builder
	sb.WriteString("package hredis\n\nfunc init() {\n")
	for _, s := range luaScripts(filepath.Join(repo, "internal/queue/cache")) {
		body, err := luaToGo(s)
		if err != nil {
			fmt.Fprintf(&sb, "scripts[%q] = func(rt *interp, varargs []any) []any { unsupported(%q); return nil }\n", s, "script: "+err.Error())
			continue
		}
		fmt.Fprintf(&sb, "scripts[%q] = func(rt *interp, varargs []any) []any {\n%sreturn nil\n}\n", s, body)
	}
	sb.WriteString("}\n")
	dst := filepath.Join(work, "hredis_scripts.go")
	return dst, os.WriteFile(dst, []byte(sb.String()), 0o644)
}
