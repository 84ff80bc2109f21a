// Package haudit checks the auditor over a stand-in for the server it sends to.
package haudit

import (
	"context"
	"errors"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

const (
	fine = iota
	refused
	broken
)

// sink is the server: it keeps the bulk requests it accepts.
type sink struct {
	mu     sync.Mutex
	bulks  []string
	asked  int
	pings  int
	how    func(what string) int
	closed int
	opened int
}

type body struct {
	io.Reader
	s *sink
}

func (b *body) Close() error {
	b.s.mu.Lock()
	defer b.s.mu.Unlock()
	b.s.closed++
	return nil
}

func (s *sink) RoundTrip(r *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.asked++
	what := "info"
	if r.Method == "HEAD" {
		what = "ping"
		s.pings++
	} else if strings.HasSuffix(r.URL.Path, "/_bulk") {
		what = "bulk"
	}
	text := ""
	if r.Body != nil && r.Body != http.NoBody {
		b, err := io.ReadAll(r.Body)
		nd.Assert(err == nil, "the request can be read")
		text = string(b)
		r.Body.Close()
	}
	code := 200
	if s.how != nil {
		switch s.how(what) {
		case refused:
			code = 500
		case broken:
			return nil, errors.New("broken connection")
		}
	}
	if what == "bulk" && code == 200 {
		nd.Assert(r.Method == "POST" && r.URL.Path == "/deckard/_bulk", "entries go to the audit index")
		s.bulks = append(s.bulks, text)
	}
	s.opened++
	return &http.Response{StatusCode: code, Header: http.Header{"X-Elastic-Product": {"Elasticsearch"}}, Body: &body{strings.NewReader("{}"), s}, Request: r}, nil
}

// line is one entry that arrived.
type line struct {
	text string
	bulk int
}

const action = `{ "index" : { "_index" : "deckard"} }`

// lines takes the requests apart.
func (s *sink) lines() (r []line) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, b := range s.bulks {
		nd.Assert(strings.HasSuffix(b, "\n"), "a request ends with a line break")
		var l []string
		for _, x := range strings.Split(b, "\n") {
			if x != "" { // the server ignores empty lines
				l = append(l, x)
			}
		}
		nd.Assert(len(l)%2 == 0, "every entry has its action")
		nd.Assert(len(l) > 0, "no empty request is sent")
		for j := 0; j+1 < len(l); j += 2 {
			nd.Assert(l[j] == action, "every entry is indexed")
			r = append(r, line{l[j+1], i})
		}
	}
	return
}

type world struct {
	s    *sink
	a    *audit.AuditorImpl
	wg   *sync.WaitGroup
	ctx  context.Context
	stop context.CancelFunc
	sent []audit.Entry
	from time.Time
}

const (
	size = 2
	wait = 20 * time.Millisecond
)

func connect(n int, d time.Duration) *world {
	w := &world{s: &sink{}, wg: &sync.WaitGroup{}}
	http.DefaultTransport = w.s
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set("http://localhost:9200/")
	if audit.ZZLimits == nil {
		nd.Unsupported("the limits of the sender are not known")
	}
	audit.ZZLimits(n, d)
	a, err := audit.NewAuditor(w.wg)
	nd.Assert(err == nil && a != nil, "the auditor connects to a server that answers")
	nd.Assert(w.s.pings >= 1, "the auditor looks for the server")
	w.a = a
	w.ctx, w.stop = context.WithCancel(context.Background())
	return w
}

var signals = []audit.Signal{audit.ACK, audit.NACK, audit.TIMEOUT, audit.REMOVE, audit.UNLOCK, audit.INSERT_CACHE, audit.MISSING_STORAGE}

func (w *world) next() audit.Entry {
	n := len(w.sent)
	e := audit.Entry{ID: string(rune('a' + n)), Queue: "q", Signal: signals[n%len(signals)], LockMs: int64(n), Reason: "why"}
	w.sent = append(w.sent, e)
	return e
}

// arrived checks that what was stored has been sent once and in order.
func (w *world) arrived(n int) {
	l := w.s.lines()
	nd.Assert(len(l) == len(w.sent), "every entry is sent once")
	in := map[int]int{}
	for i, e := range w.sent {
		id, ok := nd.JSONString(l[i].text, "id")
		nd.Assert(ok && id == e.ID, "entries are sent in order")
		in[l[i].bulk]++
		nd.Assert(in[l[i].bulk] <= n, "a batch has no more than the configured number of entries")
	}
}
