package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// Client libraries whose network is replaced by a model of the server: a copy of the module,
// as the repository pins it, with a few statements put at the beginning of some functions.
type modCopy struct {
	module string
	dir    string // within the module cache, without the version
	name   string
	skip   []string
	inject []injection
	extra  map[string]string
}

type injection struct {
	file string
	sig  string // text of the declaration up to its brace
	code string
}

var modCopies = []modCopy{
	{
		module: "github.com/redis/go-redis/v9",
		dir:    "github.com/redis/go-redis/v9",
		name:   "goredis",
		skip:   []string{"example", "doctests", "extra", "internal/customvet", "internal/semconv", "testdata", "fuzz", "e2e", "scripts", "dockers"},
		inject: []injection{
			{"redis.go", "func NewClient(opt *Options) *Client {", "if VerifProcess != nil {\nreturn verifClient(opt)\n}"},
			{"redis.go", "func (c *Client) Process(ctx context.Context, cmd Cmder) error {", "if VerifProcess != nil {\nerr := VerifProcess(c.opt.Addr, false, cmd)\ncmd.SetErr(err)\nreturn err\n}"},
			{"redis.go", "func (c *baseClient) Close() error {", "if VerifClose != nil {\nreturn VerifClose(c.opt.Addr)\n}"},
			{"redis.go", "func (hs *hooksMixin) processPipelineHook(ctx context.Context, cmds []Cmder) error {", "if VerifProcess != nil {\nreturn verifPipeline(hs, cmds)\n}"},
			{"redis.go", "func (hs *hooksMixin) processTxPipelineHook(ctx context.Context, cmds []Cmder) error {", "if VerifProcess != nil {\nreturn verifPipeline(hs, cmds)\n}"},
			{"commands.go", "func appendArg(dst []interface{}, arg interface{}) []interface{} {", "switch arg.(type) {\ncase string, []byte, int, int64, uint64, float64, bool:\nreturn append(dst, arg)\n}"},
			{"osscluster.go", "func NewClusterClient(opt *ClusterOptions) *ClusterClient {", "if VerifProcess != nil {\nreturn verifClusterClient(opt)\n}"},
			{"osscluster.go", "func (c *ClusterClient) Process(ctx context.Context, cmd Cmder) error {", "if VerifProcess != nil {\nerr := VerifProcess(\"cluster\", true, cmd)\ncmd.SetErr(err)\nreturn err\n}"},
			{"osscluster.go", "func (c *ClusterClient) Close() error {", "if VerifClose != nil {\nreturn VerifClose(\"cluster\")\n}"},
			{"osscluster.go", "func (c *ClusterClient) ForEachMaster(\n\tctx context.Context,\n\tfn func(ctx context.Context, client *Client) error,\n) error {", "if VerifProcess != nil {\nreturn verifEach(ctx, fn)\n}"},
			{"osscluster.go", "func (c *ClusterClient) ForEachShard(\n\tctx context.Context,\n\tfn func(ctx context.Context, client *Client) error,\n) error {", "if VerifProcess != nil {\nreturn verifEach(ctx, fn)\n}"},
			{"script.go", "func NewScript(src string) *Script {", "if VerifProcess != nil {\nreturn &Script{src: src, hash: \"sha1 of \" + src}\n}"},
		},
		extra: map[string]string{"verif.go": `package redis

import (
	"context"
	"strconv"
	"strings"
	"sync"

	"github.com/redis/go-redis/v9/internal/hashtag"
	"github.com/redis/go-redis/v9/internal/proto"
)

var VerifProcess func(addr string, cluster bool, cmd Cmder) error
var VerifClose func(addr string) error
var VerifShards = 1

// VerifOptions are the options of the last client created.
var VerifOptions *Options
var VerifClusterOptions *ClusterOptions

func verifClient(opt *Options) *Client {
	VerifOptions = opt
	c := &Client{baseClient: &baseClient{opt: opt}}
	c.cmdable = c.Process
	return c
}

func verifClusterClient(opt *ClusterOptions) *ClusterClient {
	VerifClusterOptions = opt
	c := &ClusterClient{opt: opt}
	c.cmdable = c.Process
	return c
}

// verifEach calls fn for every shard at the same time.
func verifEach(ctx context.Context, fn func(ctx context.Context, client *Client) error) error {
	var wg sync.WaitGroup
	errCh := make(chan error, 1)
	for i := 0; i < VerifShards; i++ {
		c := &Client{baseClient: &baseClient{opt: &Options{Addr: "shard-" + strconv.Itoa(i)}}}
		c.cmdable = c.Process
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := fn(ctx, c); err != nil {
				select {
				case errCh <- err:
				default:
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errCh:
		return err
	default:
		return nil
	}
}

// the pipelines of a model client have no hooks: hs tells nothing about the node, a pipeline
// runs as on a single node or through the cluster's routing
func verifPipeline(hs *hooksMixin, cmds []Cmder) error {
	var first error
	for _, c := range cmds {
		if c.Name() == "multi" || c.Name() == "exec" {
			continue
		}
		err := VerifProcess("cluster", VerifShards > 1, c)
		c.SetErr(err)
		if err != nil && first == nil {
			first = err
		}
	}
	return first
}

func VerifSlot(key string) int { return hashtag.Slot(key) }

func VerifTagged(pattern string) bool { return hashtag.Present(pattern) }

func VerifError(msg string) error {
	if strings.HasPrefix(msg, "NOSCRIPT") {
		return proto.RedisError(msg)
	}
	return proto.ParseErrorReply([]byte("-" + msg))
}
`},
	},
}

// copyModules writes the copies to dir and returns the replacements.
func copyModules(gomod, work string) (map[string]string, error) {
	reps := map[string]string{}
	cache := os.Getenv("GOMODCACHE")
	if cache == "" {
		cache = "/root/go/pkg/mod"
	}
	for _, mc := range modCopies {
		m := regexp.MustCompile(`(?m)^\s*(?:require\s+)?` + regexp.QuoteMeta(mc.module) + `\s+(v\S+)`).FindStringSubmatch(gomod)
		if m == nil {
			continue
		}
		src := filepath.Join(cache, mc.dir+"@"+m[1])
		dst := filepath.Join(work, mc.name)
		reps[mc.module] = dst
		if _, err := os.Stat(dst); err == nil {
			continue
		}
		done := map[int]bool{}
		err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(src, p)
			if d.IsDir() {
				for _, s := range mc.skip {
					if rel == s {
						return filepath.SkipDir
					}
				}
				return os.MkdirAll(filepath.Join(dst, rel), 0o755)
			}
			if strings.HasSuffix(p, "_test.go") || !strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, ".s") && filepath.Base(p) != "go.mod" {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s := string(b)
			for i, in := range mc.inject {
				if in.file == rel {
					at := strings.Index(s, in.sig)
					if at < 0 {
						continue
					}
					done[i] = true
					at += len(in.sig)
					s = s[:at] + "\n" + in.code + "\n" + s[at:]
				}
			}
			return os.WriteFile(filepath.Join(dst, rel), []byte(s), 0o644)
		})
		if err != nil {
			return nil, err
		}
		for i, in := range mc.inject {
			if !done[i] {
				return nil, fmt.Errorf("%s: %q not found in %s", mc.module, in.sig, in.file)
			}
		}
		for f, txt := range mc.extra {
			if err := os.WriteFile(filepath.Join(dst, f), []byte(txt), 0o644); err != nil {
				return nil, err
			}
		}
	}
	return reps, nil
}
