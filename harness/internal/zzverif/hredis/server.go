// Package hredis is a model of the Redis server the cache talks to: the commands and the
// scripts (translated from the cache's sources) act on keys held in memory, and the scores of
// the sorted sets stay symbolic.
package hredis

import (
	"math"
	"strconv"
	"strings"

	"github.com/redis/go-redis/v9"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// Status is a simple string reply, Failure an error reply.
type Status string
type Failure string

type member struct {
	name  string
	score float64
}

// Server is one node.
type Server struct {
	Keys map[string]*entry
	// keys in order of creation
	order   []string
	scripts map[string]bool
	// Pages makes SCAN reply with arbitrary pages
	Pages bool
	page  int
}

type entry struct {
	str  any // text
	zset []member
}

func NewServer() *Server {
	return &Server{Keys: map[string]*entry{}, scripts: map[string]bool{}}
}

// Net is what the clients are connected to.
type Net struct {
	Shards []*Server
	// Fail is asked before each command
	Fail func(cmd string) error
	// rotation of the keyless commands of a cluster client
	rr int
	// Down makes connecting impossible
	Closed map[string]bool
}

func (s *Server) get(k string) *entry { return s.Keys[k] }

func (s *Server) put(k string) *entry {
	e := s.Keys[k]
	if e == nil {
		e = &entry{}
		s.Keys[k] = e
		s.order = append(s.order, k)
	}
	return e
}

func (s *Server) del(k string) bool {
	if s.Keys[k] == nil {
		return false
	}
	delete(s.Keys, k)
	for i := range s.order {
		if s.order[i] == k {
			s.order = append(s.order[:i:i], s.order[i+1:]...)
			break
		}
	}
	return true
}

// sha is put before a script to name its digest.
const sha = "sha1 of "

const wrongType = Failure("WRONGTYPE Operation against a key holding the wrong kind of value")

// before orders the members of a sorted set.
func before(a, b member) bool {
	if a.score != b.score {
		return a.score < b.score
	}
	return a.name < b.name
}

func sortMembers(ms []member) []member {
	r := append([]member(nil), ms...)
	for i := range r {
		for j := i; j > 0 && before(r[j], r[j-1]); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func (e *entry) find(name string) int {
	if e != nil {
		for i := range e.zset {
			if e.zset[i].name == name {
				return i
			}
		}
	}
	return -1
}

// number reads a float argument.
func number(v any) (float64, bool) {
	f, ok := toNumber(v)
	if ok {
		return f, f == f
	}
	if s, ok := v.(string); ok {
		switch strings.ToLower(s) {
		case "inf", "+inf", "infinity", "+infinity":
			return math.Inf(1), true
		case "-inf", "-infinity":
			return math.Inf(-1), true
		}
	}
	return 0, false
}

func integer(v any) (int64, bool) {
	switch x := v.(type) {
	case IntText:
		return x.I, true
	case NumText:
		if x.F == math.Trunc(x.F) && x.F < 1e15 && x.F > -1e15 {
			return int64(x.F), true
		}
		return 0, false
	case string:
		i, err := strconv.ParseInt(x, 10, 64)
		return i, err == nil && strconv.FormatInt(i, 10) == x
	}
	return 0, false
}

type bound struct {
	f    float64
	open bool
}

func scoreBound(v any) (bound, bool) {
	if s, ok := v.(string); ok && strings.HasPrefix(s, "(") {
		f, ok := number(s[1:])
		return bound{f, true}, ok
	}
	f, ok := number(v)
	return bound{f, false}, ok
}

func (b bound) below(x float64) bool { // as a minimum
	if b.open {
		return b.f < x
	}
	return b.f <= x
}
func (b bound) above(x float64) bool {
	if b.open {
		return x < b.f
	}
	return x <= b.f
}

const (
	errSyntax = Failure("ERR syntax error")
	errFloat  = Failure("ERR value is not a valid float")
	errRange  = Failure("ERR min or max is not a float")
	errInt    = Failure("ERR value is not an integer or out of range")
	errLimit  = Failure("ERR syntax error, LIMIT is only supported in combination with either BYSCORE or BYLEX")
)

func wrongArgs(cmd string) Failure {
	return Failure("ERR wrong number of arguments for '" + cmd + "' command")
}

// arity is the least number of arguments of each command, its name included.
var arity = map[string]int{
	"zadd": 4, "zrem": 3, "zscore": 3, "zmscore": 3, "zrange": 4, "zrevrange": 4, "zrangebyscore": 4, "zrevrangebyscore": 4,
	"zcard": 2, "zcount": 4, "zrank": 3, "zrevrank": 3, "zremrangebyrank": 4, "zremrangebyscore": 4, "zpopmin": 2, "zpopmax": 2,
	"zincrby": 4, "exists": 2, "del": 2, "unlink": 2, "get": 2, "set": 3, "setnx": 3, "getset": 3, "getdel": 2, "type": 2, "keys": 2,
	"scan": 2, "ping": 1, "flushdb": 1, "flushall": 1, "script": 2, "eval": 3, "evalsha": 3, "eval_ro": 3, "evalsha_ro": 3, "mget": 2, "rename": 3,
	"incr": 2, "decr": 2, "incrby": 3, "strlen": 2, "dbsize": 1, "hello": 1, "client": 2, "select": 2, "auth": 2, "persist": 2,
}

// keysOf lists the keys a command names.
func keysOf(args []any) []string {
	cmd := strings.ToLower(args[0].(string))
	switch cmd {
	case "eval", "evalsha", "eval_ro", "evalsha_ro":
		n, _ := integer(args[2])
		var ks []string
		for _, a := range args[3 : 3+int(n)] {
			ks = append(ks, text(a))
		}
		return ks
	case "del", "unlink", "exists", "mget", "rename":
		var ks []string
		for _, a := range args[1:] {
			ks = append(ks, text(a))
		}
		return ks
	case "scan", "ping", "flushdb", "flushall", "script", "keys", "dbsize", "hello", "client", "select", "auth":
		return nil
	}
	if len(args) < 2 {
		return nil
	}
	return []string{text(args[1])}
}

// Do executes one command.
func (s *Server) Do(args []any) any {
	name, ok := args[0].(string)
	if !ok {
		return Failure("ERR unknown command")
	}
	cmd := strings.ToLower(name)
	if n, known := arity[cmd]; !known {
		unsupported("redis command " + cmd)
	} else if len(args) < n {
		return wrongArgs(cmd)
	}
	for i, a := range args {
		if i > 0 && !isText(a) {
			unsupported("redis argument of type " + typeName(a))
		}
	}
	switch cmd {
	case "ping":
		return Status("PONG")
	case "hello", "client", "select", "auth":
		return Status("OK")
	case "flushdb", "flushall":
		s.Keys, s.order = map[string]*entry{}, nil
		return Status("OK")
	case "dbsize":
		return int64(len(s.order))
	case "script":
		switch strings.ToLower(text(args[1])) {
		case "load":
			s.scripts[text(args[2])] = true
			return sha + text(args[2])
		case "flush":
			s.scripts = map[string]bool{}
			return Status("OK")
		case "exists":
			var r []any
			for _, a := range args[2:] {
				r = append(r, nd.B2I(s.scripts[strings.TrimPrefix(text(a), sha)]))
			}
			return r
		}
		unsupported("script " + text(args[1]))
	case "eval", "eval_ro":
		s.scripts[text(args[1])] = true
		return s.script(args)
	case "evalsha", "evalsha_ro":
		src := text(args[1])
		if !strings.HasPrefix(src, sha) || !s.scripts[src[len(sha):]] {
			return Failure("NOSCRIPT No matching script. Please use EVAL.")
		}
		args[1] = src[len(sha):]
		return s.script(args)
	case "scan":
		return s.scan(args)
	case "keys":
		r := []any{}
		for _, k := range s.order {
			if glob(text(args[1]), k) {
				r = append(r, k)
			}
		}
		return r
	case "del", "unlink", "exists":
		n := int64(0)
		for _, a := range args[1:] {
			k := text(a)
			if s.Keys[k] != nil {
				n++
				if cmd != "exists" {
					s.del(k)
				}
			}
		}
		return n
	case "mget":
		var r []any
		for _, a := range args[1:] {
			if e := s.get(text(a)); e != nil && e.zset == nil {
				r = append(r, e.str)
			} else {
				r = append(r, nil)
			}
		}
		return r
	}
	key := text(args[1])
	e := s.get(key)
	switch cmd {
	case "type":
		switch {
		case e == nil:
			return Status("none")
		case e.zset != nil:
			return Status("zset")
		}
		return Status("string")
	case "persist":
		return int64(0)
	case "rename":
		if e == nil {
			return Failure("ERR no such key")
		}
		s.del(key)
		s.del(text(args[2]))
		*s.put(text(args[2])) = *e
		return Status("OK")
	case "get", "set", "setnx", "getset", "getdel", "incr", "decr", "incrby", "strlen":
		return s.strings(cmd, key, e, args)
	}
	if e != nil && e.zset == nil {
		return wrongType
	}
	return s.sorted(cmd, key, e, args)
}

func (s *Server) strings(cmd, key string, e *entry, args []any) any {
	if e != nil && e.zset != nil && cmd != "set" {
		if cmd == "setnx" {
			return int64(0)
		}
		return wrongType
	}
	var old any
	if e != nil {
		old = e.str
	}
	switch cmd {
	case "get":
		return old
	case "getdel":
		s.del(key)
		return old
	case "strlen":
		if old == nil {
			return int64(0)
		}
		return int64(len(text(old)))
	case "setnx":
		if e != nil {
			return int64(0)
		}
		s.put(key).str = args[2]
		return int64(1)
	case "getset":
		s.put(key).str = args[2]
		return old
	case "set":
		nx, xx, get := false, false, false
		for _, a := range args[3:] {
			switch strings.ToLower(text(a)) {
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "get":
				get = true
			case "keepttl":
			default:
				unsupported("set " + text(a))
			}
		}
		var r any = Status("OK")
		if nx && e != nil || xx && e == nil {
			r = nil
		} else {
			s.del(key)
			s.put(key).str = args[2]
		}
		if get {
			r = old
		}
		return r
	case "incr", "decr", "incrby":
		n := int64(0)
		if old != nil {
			v, ok := integer(old)
			if !ok {
				return errInt
			}
			n = v
		}
		d := int64(1)
		if cmd == "incrby" {
			v, ok := integer(args[2])
			if !ok {
				return errInt
			}
			d = v
		}
		if cmd == "decr" {
			d = -1
		}
		s.put(key).str = IntText{n + d}
		return n + d
	}
	return nil
}

// drop removes a member; a set without members does not exist.
func (s *Server) drop(key, name string) bool {
	e := s.get(key)
	i := e.find(name)
	if i < 0 {
		return false
	}
	e.zset = append(e.zset[:i:i], e.zset[i+1:]...)
	if len(e.zset) == 0 {
		s.del(key)
	}
	return true
}

func (s *Server) sorted(cmd, key string, e *entry, args []any) any {
	var ms []member
	if e != nil {
		ms = e.zset
	}
	switch cmd {
	case "zadd":
		return s.zadd(key, e, args)
	case "zincrby":
		d, ok := number(args[2])
		if !ok {
			return errFloat
		}
		name := text(args[3])
		if i := e.find(name); i >= 0 {
			d += e.zset[i].score
			e.zset[i].score = d
		} else {
			x := s.put(key)
			x.zset = append(x.zset, member{name, d})
		}
		return d
	case "zrem":
		n := int64(0)
		for _, a := range args[2:] {
			if s.drop(key, text(a)) {
				n++
			}
		}
		return n
	case "zscore":
		if i := e.find(text(args[2])); i >= 0 {
			return e.zset[i].score
		}
		return nil
	case "zmscore":
		var r []any
		for _, a := range args[2:] {
			if i := e.find(text(a)); i >= 0 {
				r = append(r, e.zset[i].score)
			} else {
				r = append(r, nil)
			}
		}
		return r
	case "zcard":
		return int64(len(ms))
	case "zcount":
		lo, ok1 := scoreBound(args[2])
		hi, ok2 := scoreBound(args[3])
		if !ok1 || !ok2 {
			return errRange
		}
		return int64(len(within(ms, lo, hi)))
	case "zrank", "zrevrank":
		name := text(args[2])
		r := sortMembers(ms)
		for i := range r {
			if r[i].name == name {
				if cmd == "zrevrank" {
					return int64(len(r) - 1 - i)
				}
				return int64(i)
			}
		}
		return nil
	case "zpopmin", "zpopmax":
		n := int64(1)
		if len(args) > 2 {
			v, ok := integer(args[2])
			if !ok || v < 0 {
				return Failure("ERR value is out of range, must be positive")
			}
			n = v
		}
		r := sortMembers(ms)
		if cmd == "zpopmax" {
			reverse(r)
		}
		var out []any
		for i := 0; int64(i) < n && i < len(r); i++ {
			out = append(out, r[i].name, r[i].score)
			s.drop(key, r[i].name)
		}
		return out
	case "zremrangebyscore":
		lo, ok1 := scoreBound(args[2])
		hi, ok2 := scoreBound(args[3])
		if !ok1 || !ok2 {
			return errRange
		}
		in := within(ms, lo, hi)
		for _, m := range in {
			s.drop(key, m.name)
		}
		return int64(len(in))
	case "zremrangebyrank":
		i, ok1 := integer(args[2])
		j, ok2 := integer(args[3])
		if !ok1 || !ok2 {
			return errInt
		}
		in := ranks(sortMembers(ms), i, j)
		for _, m := range in {
			s.drop(key, m.name)
		}
		return int64(len(in))
	case "zrange", "zrevrange", "zrangebyscore", "zrevrangebyscore":
		return zrange(cmd, ms, args)
	}
	unsupported("redis command " + cmd)
	return nil
}

func reverse(r []member) {
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
}

func within(ms []member, lo, hi bound) []member {
	var r []member
	for _, m := range ms {
		if nd.And(lo.below(m.score), hi.above(m.score)) {
			r = append(r, m)
		}
	}
	return r
}

func ranks(r []member, i, j int64) []member {
	n := int64(len(r))
	if i < 0 {
		i = n + i
	}
	if j < 0 {
		j = n + j
	}
	if i < 0 {
		i = 0
	}
	if j >= n {
		j = n - 1
	}
	if i > j {
		return nil
	}
	// the bounds may be symbolic
	var out []member
	for k := range r {
		if int64(k) >= i && int64(k) <= j {
			out = append(out, r[k])
		}
	}
	return out
}

func zrange(cmd string, ms []member, args []any) any {
	byScore := cmd == "zrangebyscore" || cmd == "zrevrangebyscore"
	rev := cmd == "zrevrange" || cmd == "zrevrangebyscore"
	withScores, limited := false, false
	var off, cnt int64
	for i := 4; i < len(args); i++ {
		switch o := strings.ToLower(text(args[i])); {
		case o == "withscores":
			withScores = true
		case o == "rev" && cmd == "zrange":
			rev = true
		case o == "byscore" && cmd == "zrange":
			byScore = true
		case o == "limit" && i+2 < len(args):
			v, ok1 := integer(args[i+1])
			w, ok2 := integer(args[i+2])
			if !ok1 || !ok2 {
				return errInt
			}
			off, cnt, limited = v, w, true
			i += 2
		case o == "bylex":
			unsupported("bylex")
		default:
			return errSyntax
		}
	}
	var in []member
	if byScore {
		a, b := args[2], args[3]
		if rev {
			a, b = b, a
		}
		lo, ok1 := scoreBound(a)
		hi, ok2 := scoreBound(b)
		if !ok1 || !ok2 {
			return errRange
		}
		in = sortMembers(within(ms, lo, hi))
		if rev {
			reverse(in)
		}
		if limited {
			var out []member
			for k := range in {
				if int64(k) >= off && (cnt < 0 || int64(k) < off+cnt) {
					out = append(out, in[k])
				}
			}
			if off < 0 {
				out = nil
			}
			in = out
		}
	} else {
		if limited {
			return errLimit
		}
		i, ok1 := integer(args[2])
		j, ok2 := integer(args[3])
		if !ok1 || !ok2 {
			return errInt
		}
		in = sortMembers(ms)
		if rev {
			reverse(in)
		}
		in = ranks(in, i, j)
	}
	r := []any{}
	for _, m := range in {
		r = append(r, m.name)
		if withScores {
			r = append(r, m.score)
		}
	}
	return r
}

func (s *Server) zadd(key string, e *entry, args []any) any {
	nx, xx, gt, lt, ch, incr := false, false, false, false, false, false
	i := 2
flags:
	for ; i < len(args); i++ {
		f, ok := args[i].(string)
		if !ok {
			break
		}
		switch strings.ToLower(f) {
		case "nx":
			nx = true
		case "xx":
			xx = true
		case "gt":
			gt = true
		case "lt":
			lt = true
		case "ch":
			ch = true
		case "incr":
			incr = true
		default:
			break flags
		}
	}
	rest := args[i:]
	if len(rest) == 0 || len(rest)%2 != 0 {
		return errSyntax
	}
	if nx && (xx || gt || lt) || gt && lt {
		return Failure("ERR GT, LT, and/or NX options at the same time are not compatible")
	}
	if incr {
		unsupported("zadd incr")
	}
	// nothing is added when a score is not valid
	var scores []float64
	for k := 0; k < len(rest); k += 2 {
		f, ok := number(rest[k])
		if !ok {
			return errFloat
		}
		scores = append(scores, f)
	}
	added, changed := int64(0), int64(0)
	for k := range scores {
		name := text(rest[2*k+1])
		e = s.get(key)
		at := e.find(name)
		if at < 0 {
			if xx {
				continue
			}
			x := s.put(key)
			x.zset = append(x.zset, member{name, scores[k]})
			added++
			continue
		}
		if nx || gt && !(scores[k] > e.zset[at].score) || lt && !(scores[k] < e.zset[at].score) {
			continue
		}
		if ch {
			if scores[k] != e.zset[at].score {
				changed++
			}
		}
		e.zset[at].score = scores[k]
	}
	return added + changed
}

func (s *Server) scan(args []any) any {
	cur, ok := integer(args[1])
	if !ok {
		return Failure("ERR invalid cursor")
	}
	match := "*"
	for i := 2; i+1 < len(args); i += 2 {
		switch strings.ToLower(text(args[i])) {
		case "match":
			match = text(args[i+1])
		case "count":
			if n, ok := integer(args[i+1]); !ok || n < 1 {
				return errSyntax
			}
		case "type":
			unsupported("scan type")
		default:
			return errSyntax
		}
	}
	// a page is any number of the remaining keys; every key present throughout is returned
	// at least once. Keys are kept in order of creation, cursor c > 0 says that the next one
	// is number c-1
	end := len(s.order)
	from := 0
	if cur > 0 {
		from = min(int(cur-1), end)
	}
	if s.Pages && from < end && s.page < 2 {
		s.page++
		end = min(end, from+[]int{0, 1, (end-from)/2 + 1}[nd.Choose("page."+strconv.Itoa(s.page), 3)])
	}
	page := []any{}
	for _, k := range s.order[from:end] {
		if glob(match, k) {
			page = append(page, k)
		}
	}
	next := int64(0)
	if end < len(s.order) {
		next = int64(end) + 1
	}
	return []any{IntText{next}, page}
}

// glob matches as Redis does.
func glob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
		case '[':
			if len(s) == 0 {
				return false
			}
			i := 1
			not := i < len(p) && p[i] == '^'
			if not {
				i++
			}
			hit := false
			for {
				if i >= len(p) {
					i = len(p) - 1
					break
				}
				if p[i] == '\\' && i+1 < len(p) {
					i++
					if p[i] == s[0] {
						hit = true
					}
				} else if p[i] == ']' {
					break
				} else if i+2 < len(p) && p[i+1] == '-' {
					a, b := p[i], p[i+2]
					if a > b {
						a, b = b, a
					}
					if s[0] >= a && s[0] <= b {
						hit = true
					}
					i += 2
				} else if p[i] == s[0] {
					hit = true
				}
				i++
			}
			if hit == not {
				return false
			}
			p = p[i:]
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
		default:
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
		}
		s, p = s[1:], p[1:]
		if len(s) == 0 {
			for len(p) > 0 && p[0] == '*' {
				p = p[1:]
			}
			break
		}
	}
	return len(p) == 0 && len(s) == 0
}

// script runs a script of the cache.
func (s *Server) script(args []any) (reply any) {
	f := scripts[text(args[1])]
	if f == nil {
		unsupported("unknown script")
	}
	n, ok := integer(args[2])
	if !ok {
		return errInt
	}
	if n < 0 || int(n) > len(args)-3 {
		return Failure("ERR Number of keys can't be greater than number of args")
	}
	rt := &interp{s: s, keys: &Table{}, argv: &Table{}}
	rt.keys.arr = append(rt.keys.arr, args[3:3+n]...)
	rt.argv.arr = append(rt.argv.arr, args[3+n:]...)
	rt.redis = rt.api()
	defer func() {
		if e := recover(); e != nil {
			le, ok := e.(luaError)
			if !ok {
				panic(e)
			}
			reply = Failure("ERR user_script: " + failure(le.msg))
			if t, ok := le.msg.(*Table); ok {
				if m := t.get("err"); m != nil {
					reply = Failure(text(m))
				}
			}
		}
	}()
	return toReply(nth(f(rt, nil), 0))
}

func failure(v any) string {
	if isText(v) {
		return text(v)
	}
	return typeName(v)
}

// toReply converts the result of a script.
func toReply(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return int64(1)
		}
		return nil
	case float64:
		return int64(x)
	case *Table:
		if m := x.get("err"); m != nil {
			return Failure(text(m))
		}
		if m := x.get("ok"); m != nil {
			return Status(text(m))
		}
		r := []any{}
		for _, e := range x.arr {
			if e == nil {
				break
			}
			r = append(r, toReply(e))
		}
		return r
	case Func:
		return nil
	}
	return v
}

// fromReply converts the result of a command called by a script.
func fromReply(v any) any {
	switch x := v.(type) {
	case nil:
		return false
	case int64:
		return float64(x)
	case float64:
		return NumText{x, true}
	case Status:
		return &Table{keys: []any{"ok"}, vals: []any{string(x)}}
	case Failure:
		return &Table{keys: []any{"err"}, vals: []any{string(x)}}
	case []any:
		t := &Table{}
		for _, e := range x {
			t.arr = append(t.arr, fromReply(e))
		}
		return t
	}
	return v
}

func (rt *interp) command(a []any) any {
	if len(a) == 0 {
		throw("Please specify at least one argument for this redis.call() call")
	}
	var args []any
	for _, v := range a {
		switch x := v.(type) {
		case float64:
			if x == math.Trunc(x) && x < 1e15 && x > -1e15 {
				v = IntText{int64(x)}
			} else {
				v = NumText{x, true}
			}
		case nil, bool, *Table, Func:
			throw("Lua redis lib command arguments must be strings or integers")
		}
		args = append(args, v)
	}
	if c, ok := args[0].(string); ok {
		switch strings.ToLower(c) {
		case "eval", "evalsha", "script", "eval_ro", "evalsha_ro":
			throw("This Redis command is not allowed from script")
		}
	}
	return rt.s.Do(args)
}

func (rt *interp) api() *Table {
	t := &Table{}
	set := func(n string, f Func) { t.keys, t.vals = append(t.keys, n), append(t.vals, f) }
	set("call", func(a ...any) []any {
		r := rt.command(a)
		if f, ok := r.(Failure); ok {
			panic(luaError{fromReply(f)})
		}
		return one(fromReply(r))
	})
	set("pcall", func(a ...any) (res []any) {
		defer func() {
			if e := recover(); e != nil {
				le, ok := e.(luaError)
				if !ok {
					panic(e)
				}
				res = one(&Table{keys: []any{"err"}, vals: []any{failure(le.msg)}})
			}
		}()
		return one(fromReply(rt.command(a)))
	})
	set("error_reply", func(a ...any) []any {
		return one(&Table{keys: []any{"err"}, vals: []any{nth(a, 0)}})
	})
	set("status_reply", func(a ...any) []any {
		return one(&Table{keys: []any{"ok"}, vals: []any{nth(a, 0)}})
	})
	set("log", func(a ...any) []any { return nil })
	set("replicate_commands", func(a ...any) []any { return one(true) })
	return t
}

// argument is what the client library would write for an argument.
func argument(v any) any {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case []byte:
		return string(x)
	case int:
		return IntText{int64(x)}
	case int64:
		return IntText{x}
	case int32:
		return IntText{int64(x)}
	case uint64:
		return IntText{int64(x)}
	case uint32:
		return IntText{int64(x)}
	case float64:
		return NumText{x, false}
	case float32:
		return NumText{float64(x), false}
	case bool:
		if x {
			return IntText{1}
		}
		return IntText{0}
	}
	unsupported("redis argument")
	return nil
}

// handle is installed into the client library.
func (n *Net) handle(addr string, cluster bool, cmd redis.Cmder) error {
	var args []any
	for _, a := range cmd.Args() {
		args = append(args, argument(a))
	}
	name := strings.ToLower(text(args[0]))
	if n.Closed[addr] {
		return redis.ErrClosed
	}
	if n.Fail != nil {
		if err := n.Fail(name); err != nil {
			return err
		}
	}
	var s *Server
	if cluster {
		var reply any
		s, reply = n.route(name, args)
		if s == nil {
			return deliver(cmd, reply)
		}
	} else {
		i := 0
		if strings.HasPrefix(addr, "shard-") {
			i, _ = strconv.Atoi(addr[6:])
		}
		s = n.Shards[i]
		if len(n.Shards) > 1 {
			if f := n.check(i, keysOf(args)); f != "" {
				return deliver(cmd, f)
			}
		}
	}
	return deliver(cmd, s.Do(args))
}

func (n *Net) shardOf(slot int) int { return slot * len(n.Shards) / 16384 }

// check is what a node of a cluster replies to keys it does not own.
func (n *Net) check(i int, keys []string) Failure {
	slot := -1
	for _, k := range keys {
		s := redis.VerifSlot(k)
		if slot >= 0 && s != slot {
			return "CROSSSLOT Keys in request don't hash to the same slot"
		}
		slot = s
	}
	if slot >= 0 && n.shardOf(slot) != i {
		return Failure("MOVED " + strconv.Itoa(slot) + " shard-" + strconv.Itoa(n.shardOf(slot)))
	}
	return ""
}

func (n *Net) route(name string, args []any) (*Server, any) {
	keys := keysOf(args)
	if name == "scan" {
		for i := 2; i+1 < len(args); i += 2 {
			if m := text(args[i+1]); strings.ToLower(text(args[i])) == "match" && i == 2 && redis.VerifTagged(m) {
				keys = []string{m}
			}
		}
	}
	if len(keys) == 0 {
		// some node
		n.rr++
		return n.Shards[n.rr%len(n.Shards)], nil
	}
	i := n.shardOf(redis.VerifSlot(keys[0]))
	if name != "scan" {
		if f := n.check(i, keys); f != "" {
			return nil, f
		}
	}
	return n.Shards[i], nil
}

// deliver gives the reply to the command.
func deliver(cmd redis.Cmder, v any) error {
	if f, ok := v.(Failure); ok {
		return redis.VerifError(string(f))
	}
	if v == nil {
		switch c := cmd.(type) {
		case *redis.SliceCmd:
			c.SetVal(nil)
		}
		return redis.Nil
	}
	switch c := cmd.(type) {
	case *redis.Cmd:
		c.SetVal(generic(v))
		return nil
	case *redis.IntCmd:
		if i, ok := v.(int64); ok {
			c.SetVal(i)
			return nil
		}
	case *redis.FloatCmd:
		if f, ok := v.(float64); ok {
			c.SetVal(f)
			return nil
		}
	case *redis.StatusCmd:
		if s, ok := v.(Status); ok {
			c.SetVal(string(s))
			return nil
		}
		if isText(v) {
			c.SetVal(text(v))
			return nil
		}
	case *redis.StringCmd:
		if s, ok := v.(Status); ok {
			c.SetVal(string(s))
			return nil
		}
		if isText(v) {
			c.SetVal(text(v))
			return nil
		}
	case *redis.BoolCmd:
		switch x := v.(type) {
		case int64:
			c.SetVal(x == 1)
			return nil
		case Status:
			c.SetVal(x == "OK")
			return nil
		}
	case *redis.BoolSliceCmd:
		if a, ok := v.([]any); ok {
			var r []bool
			for _, e := range a {
				r = append(r, e.(int64) == 1)
			}
			c.SetVal(r)
			return nil
		}
	case *redis.SliceCmd:
		if a, ok := v.([]any); ok {
			c.SetVal(generic(a).([]any))
			return nil
		}
	case *redis.StringSliceCmd:
		if a, ok := v.([]any); ok {
			r := make([]string, len(a))
			for i, e := range a {
				r[i] = text(e)
			}
			c.SetVal(r)
			return nil
		}
	case *redis.FloatSliceCmd:
		if a, ok := v.([]any); ok {
			r := make([]float64, len(a))
			for i, e := range a {
				if f, ok := e.(float64); ok {
					r[i] = f
				}
			}
			c.SetVal(r)
			return nil
		}
	case *redis.ZSliceCmd:
		if a, ok := v.([]any); ok {
			var r []redis.Z
			for i := 0; i+1 < len(a); i += 2 {
				r = append(r, redis.Z{Member: a[i].(string), Score: a[i+1].(float64)})
			}
			c.SetVal(r)
			return nil
		}
	case *redis.ScanCmd:
		if a, ok := v.([]any); ok {
			cur, _ := integer(a[0])
			page := a[1].([]any)
			r := make([]string, len(page))
			for i, e := range page {
				r[i] = text(e)
			}
			c.SetVal(r, uint64(cur))
			return nil
		}
	}
	unsupported("reply to redis command " + cmd.Name())
	return nil
}

// generic is a reply as the library gives it where the command says nothing about its type.
func generic(v any) any {
	switch x := v.(type) {
	case Status:
		return string(x)
	case IntText, NumText:
		return text(x)
	case []any:
		r := make([]any, len(x))
		for i, e := range x {
			if f, ok := e.(Failure); ok {
				r[i] = redis.VerifError(string(f))
			} else {
				r[i] = generic(e)
			}
		}
		return r
	}
	return v
}

// Forget loses everything.
func (s *Server) Forget() { s.Keys, s.order, s.scripts = map[string]*entry{}, nil, map[string]bool{} }
