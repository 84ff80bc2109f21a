package hredis

import (
	"math"
	"strconv"
	"strings"

	"github.com/takenet/deckard/internal/zzverif/nd"
)

// Values of a script: nil, bool, float64, the texts (string, IntText, NumText), *Table and Func.

// IntText is the decimal text of an integer, NumText the shortest text of a float (or, when
// Long, its 17 significant digits): kept as numbers, so that they stay symbolic.
type IntText struct{ I int64 }
type NumText struct {
	F    float64
	Long bool
}

type Func func(args ...any) []any

type Table struct {
	arr  []any
	keys []any
	vals []any
}

type kv struct{ k, v any }

type luaError struct{ msg any }

type interp struct {
	keys, argv *Table
	redis      *Table
	s          *Server
	lib        map[string]any
}

var scripts = map[string]func(rt *interp, varargs []any) []any{}

func unsupported(why string) { nd.Unsupported(why) }

func throw(msg string) { panic(luaError{msg}) }

func nth(a []any, i int) any {
	if i < len(a) {
		return a[i]
	}
	return nil
}

func rest(a []any, i int) []any {
	if i < len(a) {
		return a[i:]
	}
	return nil
}

func truthy(v any) bool {
	if v == nil {
		return false
	}
	if b, ok := v.(bool); ok {
		return b
	}
	return true
}

func and(a any, f func() any) any {
	if truthy(a) {
		return f()
	}
	return a
}

func or(a any, f func() any) any {
	if truthy(a) {
		return a
	}
	return f()
}

func isText(v any) bool {
	switch v.(type) {
	case string, IntText, NumText:
		return true
	}
	return false
}

// text is the string of a text or number value.
func text(v any) string {
	switch v := v.(type) {
	case string:
		return v
	case IntText:
		return strconv.FormatInt(v.I, 10)
	case NumText:
		if v.Long {
			return strconv.FormatFloat(v.F, 'g', 17, 64)
		}
		return strconv.FormatFloat(v.F, 'f', -1, 64)
	case float64:
		return luaNumber(v)
	}
	throw("attempt to concatenate a " + typeName(v) + " value")
	return ""
}

// luaNumber writes a number as Lua does: with 14 significant digits.
func luaNumber(f float64) string {
	if f == math.Trunc(f) && f < 1e14 && f > -1e14 {
		return strconv.FormatInt(int64(f), 10)
	}
	return strconv.FormatFloat(f, 'g', 14, 64)
}

func toString(v any) any {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		if x {
			return "true"
		}
		return "false"
	case float64:
		if x == math.Trunc(x) && x < 1e14 && x > -1e14 {
			return IntText{int64(x)}
		}
		return strconv.FormatFloat(x, 'g', 14, 64)
	case *Table:
		return "table: 0x1"
	case Func:
		return "function: 0x1"
	}
	return v
}

func parseNumber(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if s == "" || strings.ContainsAny(s, "_pP") {
		return 0, false
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return f, true
	}
	if strings.HasPrefix(s, "0x") {
		if u, err := strconv.ParseUint(s[2:], 16, 64); err == nil {
			return float64(u), true
		}
	}
	return 0, false
}

func toNumber(v any) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case IntText:
		return float64(x.I), true
	case NumText:
		return x.F, true
	case string:
		return parseNumber(x)
	}
	return 0, false
}

func num(v any) float64 {
	f, ok := toNumber(v)
	if !ok {
		throw("attempt to perform arithmetic on a " + typeName(v) + " value")
	}
	return f
}

func typeName(v any) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case *Table:
		return "table"
	case Func:
		return "function"
	}
	return "string"
}

func div(a, b any) float64 { return num(a) / num(b) }
func mod(a, b any) float64 {
	x, y := num(a), num(b)
	return x - math.Floor(x/y)*y
}
func pow(a, b any) float64 { return math.Pow(num(a), num(b)) }

// textEq compares two texts.
func textEq(a, b any) bool {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
		return textEq(b, a)
	}
	if y, ok := b.(string); ok {
		// the text of a number is in canonical form
		f, err := strconv.ParseFloat(y, 64)
		if err != nil {
			return false
		}
		switch x := a.(type) {
		case IntText:
			i, err := strconv.ParseInt(y, 10, 64)
			return err == nil && strconv.FormatInt(i, 10) == y && x.I == i
		case NumText:
			c := strconv.FormatFloat(f, 'f', -1, 64)
			if x.Long {
				c = strconv.FormatFloat(f, 'g', 17, 64)
			}
			if c != y {
				return false
			}
			if f == 0 {
				return x.F == 0 && math.Signbit(x.F) == math.Signbit(f)
			}
			return x.F == f
		}
	}
	switch x := a.(type) {
	case IntText:
		switch y := b.(type) {
		case IntText:
			return x.I == y.I
		case NumText:
			return float64(x.I) == y.F
		}
	case NumText:
		switch y := b.(type) {
		case IntText:
			return float64(y.I) == x.F
		case NumText:
			if x.Long != y.Long && x.F == y.F && x.F != math.Trunc(x.F) {
				unsupported("script compares two texts of a number")
			}
			return x.F == y.F
		}
	}
	return false
}

func equal(a, b any) bool {
	if isText(a) || isText(b) {
		return isText(a) && isText(b) && textEq(a, b)
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case *Table:
		y, ok := b.(*Table)
		return ok && x == y
	}
	unsupported("script compares functions")
	return false
}

func less(a, b any) bool {
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			return x < y
		}
	}
	if isText(a) && isText(b) {
		return text(a) < text(b)
	}
	throw("attempt to compare " + typeName(a) + " with " + typeName(b))
	return false
}

func lessEq(a, b any) bool {
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			return x <= y
		}
	}
	if isText(a) && isText(b) {
		return text(a) <= text(b)
	}
	throw("attempt to compare " + typeName(a) + " with " + typeName(b))
	return false
}

func concat(a, b any) any { return text(a) + text(b) }

func length(v any) any {
	if t, ok := v.(*Table); ok {
		return float64(len(t.arr))
	}
	if isText(v) {
		return float64(len(text(v)))
	}
	throw("attempt to get length of a " + typeName(v) + " value")
	return nil
}

func newTable(items []kv, tail []any) any {
	t := &Table{}
	for _, it := range items {
		if it.k == nil {
			t.arr = append(t.arr, it.v)
		} else {
			t.set(it.k, it.v)
		}
	}
	t.arr = append(t.arr, tail...)
	t.trim()
	return t
}

// trim keeps no nil at the end of the sequence.
func (t *Table) trim() {
	for len(t.arr) > 0 && t.arr[len(t.arr)-1] == nil {
		t.arr = t.arr[:len(t.arr)-1]
	}
}

func (t *Table) get(k any) any {
	if f, ok := k.(float64); ok {
		i := int(f)
		if float64(i) == f && i >= 1 && i <= len(t.arr) {
			return t.arr[i-1]
		}
	}
	for i := range t.keys {
		if equal(t.keys[i], k) {
			return t.vals[i]
		}
	}
	return nil
}

func (t *Table) set(k, v any) {
	if k == nil {
		throw("table index is nil")
	}
	if f, ok := k.(float64); ok {
		i := int(f)
		if float64(i) == f && i >= 1 && i <= len(t.arr) {
			t.arr[i-1] = v
			t.trim()
			return
		}
		if float64(i) == f && i == len(t.arr)+1 {
			if v == nil {
				t.drop(k)
				return
			}
			t.arr = append(t.arr, v)
			t.drop(k)
			// entries that continue the sequence
			for {
				n := t.get(float64(len(t.arr) + 1))
				if n == nil {
					return
				}
				t.drop(float64(len(t.arr) + 1))
				t.arr = append(t.arr, n)
			}
		}
	}
	for i := range t.keys {
		if equal(t.keys[i], k) {
			if v == nil {
				t.drop(k)
				return
			}
			t.vals[i] = v
			return
		}
	}
	if v != nil {
		t.keys, t.vals = append(t.keys, k), append(t.vals, v)
	}
}

func (t *Table) drop(k any) {
	for i := range t.keys {
		if equal(t.keys[i], k) {
			t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
			t.vals = append(t.vals[:i:i], t.vals[i+1:]...)
			return
		}
	}
}

func index(t, k any) any {
	if x, ok := t.(*Table); ok {
		return x.get(k)
	}
	throw("attempt to index a " + typeName(t) + " value")
	return nil
}

func setIndex(t, k, v any) {
	x, ok := t.(*Table)
	if !ok {
		throw("attempt to index a " + typeName(t) + " value")
	}
	x.set(k, v)
}

func call(f any, args ...any) []any {
	x, ok := f.(Func)
	if !ok {
		throw("attempt to call a " + typeName(f) + " value")
	}
	return x(args...)
}

func table(v any) *Table {
	t, ok := v.(*Table)
	if !ok {
		throw("bad argument (table expected, got " + typeName(v) + ")")
	}
	return t
}

// following is the pair after key k.
func (t *Table) following(k any) []any {
	i := 0
	if k != nil {
		f, isNum := k.(float64)
		if isNum && f >= 1 && int(f) <= len(t.arr) {
			i = int(f)
		} else {
			i = -1
			for j := range t.keys {
				if equal(t.keys[j], k) {
					i = len(t.arr) + j + 1
				}
			}
			if i < 0 {
				throw("invalid key to 'next'")
			}
		}
	}
	for ; i < len(t.arr); i++ {
		if t.arr[i] != nil {
			return []any{float64(i + 1), t.arr[i]}
		}
	}
	if i -= len(t.arr); i < len(t.keys) {
		return []any{t.keys[i], t.vals[i]}
	}
	return []any{nil}
}

func one(v any) []any { return []any{v} }

func names(m map[string]any) any {
	t := &Table{}
	for _, k := range sorted(m) {
		t.keys, t.vals = append(t.keys, k), append(t.vals, m[k])
	}
	return t
}

func sorted(m map[string]any) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func math1(f func(float64) float64) any {
	return Func(func(a ...any) []any { return one(f(num(nth(a, 0)))) })
}

func (rt *interp) global(n string) any {
	switch n {
	case "KEYS":
		return rt.keys
	case "ARGV":
		return rt.argv
	case "redis":
		return rt.redis
	}
	if v, ok := library[n]; ok {
		return v
	}
	switch n {
	case "cjson", "cmsgpack", "bit", "struct", "os", "debug", "coroutine", "setmetatable", "getmetatable", "rawset", "rawget", "rawequal", "loadstring", "xpcall", "collectgarbage":
		unsupported("script uses " + n)
	}
	throw("Script attempted to access nonexistent global variable '" + n + "'")
	return nil
}

var library = map[string]any{
	"ipairs": Func(func(a ...any) []any {
		t := table(nth(a, 0))
		return []any{Func(func(a ...any) []any {
			i := num(nth(a, 1)) + 1
			v := t.get(i)
			if v == nil {
				return one(nil)
			}
			return []any{i, v}
		}), t, float64(0)}
	}),
	"pairs": Func(func(a ...any) []any {
		return []any{Func(func(a ...any) []any { return table(nth(a, 0)).following(nth(a, 1)) }), table(nth(a, 0)), nil}
	}),
	"next":     Func(func(a ...any) []any { return table(nth(a, 0)).following(nth(a, 1)) }),
	"type":     Func(func(a ...any) []any { return one(typeName(nth(a, 0))) }),
	"tostring": Func(func(a ...any) []any { return one(toString(nth(a, 0))) }),
	"tonumber": Func(func(a ...any) []any {
		if len(a) > 1 && nth(a, 1) != nil && num(a[1]) != 10 {
			unsupported("tonumber with a base")
		}
		if f, ok := toNumber(nth(a, 0)); ok {
			return one(f)
		}
		return one(nil)
	}),
	"unpack": Func(luaUnpack),
	"assert": Func(func(a ...any) []any {
		if !truthy(nth(a, 0)) {
			if m := nth(a, 1); m != nil {
				panic(luaError{m})
			}
			throw("assertion failed!")
		}
		return a
	}),
	"error": Func(func(a ...any) []any { panic(luaError{nth(a, 0)}) }),
	"pcall": Func(func(a ...any) (r []any) {
		defer func() {
			if e := recover(); e != nil {
				le, ok := e.(luaError)
				if !ok {
					panic(e)
				}
				r = []any{false, le.msg}
			}
		}()
		return append([]any{true}, call(nth(a, 0), rest(a, 1)...)...)
	}),
	"select": Func(func(a ...any) []any {
		if s, ok := nth(a, 0).(string); ok && s == "#" {
			return one(float64(len(a) - 1))
		}
		return rest(a, int(num(nth(a, 0))))
	}),
	"table": names(map[string]any{
		"insert": Func(func(a ...any) []any {
			t := table(nth(a, 0))
			switch len(a) {
			case 2:
				if a[1] != nil {
					t.set(float64(len(t.arr)+1), a[1])
				}
			case 3:
				at := int(num(a[1]))
				if at < 1 || at > len(t.arr) {
					t.set(float64(at), a[2])
					return nil
				}
				var arr []any
				arr = append(arr, t.arr[:at-1]...)
				arr = append(arr, a[2])
				t.arr = append(arr, t.arr[at-1:]...)
			default:
				throw("wrong number of arguments to 'insert'")
			}
			return nil
		}),
		"remove": Func(func(a ...any) []any {
			t := table(nth(a, 0))
			at := len(t.arr)
			if len(a) > 1 {
				at = int(num(a[1]))
			}
			if at < 1 || at > len(t.arr) {
				return one(nil)
			}
			v := t.arr[at-1]
			t.arr = append(t.arr[:at-1:at-1], t.arr[at:]...)
			return one(v)
		}),
		"getn": Func(func(a ...any) []any { return one(float64(len(table(nth(a, 0)).arr))) }),
		"concat": Func(func(a ...any) []any {
			t := table(nth(a, 0))
			sep := ""
			if len(a) > 1 && a[1] != nil {
				sep = text(a[1])
			}
			var ss []string
			for _, v := range t.arr {
				ss = append(ss, text(v))
			}
			return one(strings.Join(ss, sep))
		}),
		"sort": Func(func(a ...any) []any {
			t := table(nth(a, 0))
			f := nth(a, 1)
			for i := range t.arr {
				for j := i; j > 0; j-- {
					var before bool
					if f != nil {
						before = truthy(nth(call(f, t.arr[j], t.arr[j-1]), 0))
					} else {
						before = less(t.arr[j], t.arr[j-1])
					}
					if !before {
						break
					}
					t.arr[j], t.arr[j-1] = t.arr[j-1], t.arr[j]
				}
			}
			return nil
		}),
	}),
	"math": names(map[string]any{
		"floor": math1(math.Floor),
		"ceil":  math1(math.Ceil),
		"abs":   math1(math.Abs),
		"huge":  math.Inf(1),
		"max": Func(func(a ...any) []any {
			m := num(nth(a, 0))
			for _, v := range a[1:] {
				if x := num(v); x > m {
					m = x
				}
			}
			return one(m)
		}),
		"min": Func(func(a ...any) []any {
			m := num(nth(a, 0))
			for _, v := range a[1:] {
				if x := num(v); x < m {
					m = x
				}
			}
			return one(m)
		}),
	}),
	"string": names(map[string]any{
		"len":   Func(func(a ...any) []any { return one(float64(len(text(nth(a, 0))))) }),
		"lower": Func(func(a ...any) []any { return one(strings.ToLower(text(nth(a, 0)))) }),
		"upper": Func(func(a ...any) []any { return one(strings.ToUpper(text(nth(a, 0)))) }),
		"format": Func(func(a ...any) []any {
			f, ok := nth(a, 0).(string)
			switch {
			case ok && (f == "%d" || f == "%.0f"):
				x := num(nth(a, 1))
				if x != math.Trunc(x) {
					unsupported("string.format of a fraction")
				}
				return one(IntText{int64(x)})
			case ok && f == "%.17g":
				return one(NumText{num(nth(a, 1)), true})
			case ok && f == "%s":
				return one(toString(nth(a, 1)))
			}
			unsupported("string.format")
			return nil
		}),
		"sub": Func(func(a ...any) []any {
			s := text(nth(a, 0))
			i, j := int(num(nth(a, 1))), -1
			if len(a) > 2 {
				j = int(num(a[2]))
			}
			if i < 0 {
				i = max(len(s)+i+1, 1)
			}
			if j < 0 {
				j = len(s) + j + 1
			}
			i, j = max(i, 1), min(j, len(s))
			if i > j {
				return one("")
			}
			return one(s[i-1 : j])
		}),
	}),
}

func luaUnpack(a ...any) []any {
	t := table(nth(a, 0))
	i, j := 1, len(t.arr)
	if len(a) > 1 && a[1] != nil {
		i = int(num(a[1]))
	}
	if len(a) > 2 && a[2] != nil {
		j = int(num(a[2]))
	}
	if j-i+1 >= 8000 {
		throw("too many results to unpack")
	}
	var r []any
	for ; i <= j; i++ {
		r = append(r, t.get(float64(i)))
	}
	return r
}
