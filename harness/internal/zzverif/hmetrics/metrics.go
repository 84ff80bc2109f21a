// Package hmetrics reads the metrics page.
package hmetrics

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"strings"
	"time"

	prom "github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/metrics"
	"github.com/takenet/deckard/internal/project"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

type entry struct {
	key, value, label string
	plain             bool
}

func letter(c byte) bool {
	return nd.Or(nd.And(c >= 'a', c <= 'z'), nd.And(c >= 'A', c <= 'Z'), c == '_')
}

func digit(c byte) bool { return nd.And(c >= '0', c <= '9') }

// validName is what Prometheus accepts as the name of a label.
func validName(s string) bool {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = nd.And(ok, nd.Or(letter(s[i]), nd.And(i > 0, digit(s[i]))))
	}
	return ok
}

// plain says whether the name of an attribute needs nothing but its dots replaced.
func plain(key string) bool {
	ok := len(key) > 0
	for i := 0; i < len(key); i++ {
		ok = nd.And(ok, nd.Or(letter(key[i]), nd.And(i > 0, nd.Or(digit(key[i]), key[i] == '.'))))
	}
	return ok
}

// labelOf is the name of the label of a plain attribute.
func labelOf(key string) string {
	name := []byte(key)
	for i, c := range name {
		name[i] = byte(nd.IteInt(c == '.', '_', int64(c)))
	}
	return string(name)
}

func text(name string, n int) string {
	b := nd.Bytes(name, n)
	for i := 0; i < len(b); i++ {
		nd.Assume(nd.And(b[i] >= 33, b[i] < 127, b[i] != ',', b[i] != '%'))
	}
	return b
}

func key(name string, length int) string {
	switch nd.Choose(name, 6) {
	case 0:
		return "service.version"
	case 1:
		return "service.name"
	case 2:
		return "my.service.version.id"
	case 3:
		return "queue"
	case 4:
		return "service_name"
	}
	s := text(name+"-text", length)
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] != '=')
	}
	return s
}

// environment sets the variables the labels come from.
func environment(most int) (entries []entry, service string) {
	var parts []string
	for n := nd.Choose("entries", most+1); len(entries) < n; {
		e := entry{key: key("key", 3-most), value: text("value", 1+nd.Choose("length", 3-most))}
		e.plain, e.label = plain(e.key), labelOf(e.key)
		entries = append(entries, e)
		parts = append(parts, e.key+"="+e.value)
	}
	if nd.Choose("junk", 2) == 1 {
		parts = append(parts, "nothing")
	}
	if len(parts) > 0 {
		os.Setenv("OTEL_RESOURCE_ATTRIBUTES", strings.Join(parts, []string{",", ", "}[most-1]))
	}
	if nd.Choose("service", 2) == 1 {
		service = text("name", 2)
		os.Setenv("OTEL_SERVICE_NAME", service)
	}
	return entries, service
}

// series is one line of the page.
func check(m *dto.Metric, own map[string]string, entries []entry, service string) {
	l := m.Label
	get := func(name string) (value string, times int64) {
		for _, p := range l {
			if nd.StrEq(p.GetName(), name) {
				value = p.GetValue()
				times++
			}
		}
		return value, times
	}
	for i := range l {
		nd.Assert(validName(l[i].GetName()), "labels have names Prometheus accepts")
		for j := 0; j < i; j++ {
			nd.Assert(!nd.StrEq(l[i].GetName(), l[j].GetName()), "no series has a label twice")
		}
	}
	for k, v := range own {
		got, n := get(k)
		nd.Assert(n == 1 && nd.StrEq(got, v), "a series keeps its own labels")
	}
	if service != "" {
		got, n := get("service_name")
		nd.Assert(n == 1 && nd.StrEq(got, service), "series carry the name of the service")
	}
	_, n := get("service_name")
	nd.Assert(n == 1, "series carry a name of the service")
	_, n = get("service_version")
	nd.Assert(n == 1, "series carry a version")
	for i, e := range entries {
		name := e.label
		if !e.plain {
			continue
		}
		if own[name] != "" || (service != "" && nd.StrEq(name, "service_name")) {
			continue
		}
		got, n := get(name)
		nd.Assert(n == 1, "series carry every resource attribute")
		found := false
		for j, o := range entries {
			same := nd.Or(j == i, !o.plain, nd.StrEq(o.label, name))
			found = nd.Or(found, nd.And(same, nd.StrEq(got, o.value)))
		}
		nd.Assert(found, "resource attributes have the values given")
	}
	given := func(label string) bool {
		for _, e := range entries {
			if nd.StrEq(e.label, label) {
				return true
			}
		}
		return false
	}
	if service == "" && !given("service_name") {
		got, _ := get("service_name")
		nd.Assert(got == project.Name, "without a name of the service it is called as the project")
	}
	if !given("service_version") {
		got, _ := get("service_version")
		nd.Assert(got == project.Version, "without a version it is that of the project")
	}
}

func ptr[T any](v T) *T { return &v }

// Families is what the engine takes as the contents of the registry made in page.
func Families() []*dto.MetricFamily {
	label := func(v string) []*dto.LabelPair {
		return []*dto.LabelPair{{Name: ptr("queue"), Value: ptr(v)}}
	}
	counter := func(name string, v float64) *dto.MetricFamily {
		return &dto.MetricFamily{Name: &name, Help: ptr("h"), Type: dto.MetricType_COUNTER.Enum(), Metric: []*dto.Metric{{Counter: &dto.Counter{Value: &v}}}}
	}
	gauge := dto.MetricType_GAUGE.Enum()
	return []*dto.MetricFamily{
		counter("deckard_ack_total", 5),
		{Name: ptr("deckard_total_messages"), Help: ptr("h"), Type: gauge, Metric: []*dto.Metric{
			{Label: label("a"), Gauge: &dto.Gauge{Value: ptr(3.0)}},
			{Label: label("b"), Gauge: &dto.Gauge{Value: ptr(4.0)}},
		}},
		{Name: ptr("deckard_server_duration"), Help: ptr("h"), Type: dto.MetricType_HISTOGRAM.Enum(), Metric: []*dto.Metric{
			{Label: []*dto.LabelPair{{Name: ptr("op"), Value: ptr("get")}}, Histogram: &dto.Histogram{SampleCount: ptr(uint64(1)), SampleSum: ptr(2.0),
				Bucket: []*dto.Bucket{{CumulativeCount: ptr(uint64(0)), UpperBound: ptr(1.0)}}}},
		}},
		counter("rpc_server_duration_x", 0),
		counter("rpc_server_requests_total", 6),
		{Name: ptr("target_info"), Help: ptr("h"), Type: gauge, Metric: []*dto.Metric{{Gauge: &dto.Gauge{Value: ptr(0.0)}}}},
	}
}

func page(entries []entry, service string) {
	reg := prom.NewRegistry()
	w := metrics.NewWrappedRegistry(reg, metrics.VerifDefaultLabels()...)
	if !nd.Symbolic() {
		queues := prom.NewGaugeVec(prom.GaugeOpts{Name: "deckard_total_messages", Help: "h"}, []string{"queue"})
		acks := prom.NewCounter(prom.CounterOpts{Name: "deckard_ack_total", Help: "h"})
		info := prom.NewGauge(prom.GaugeOpts{Name: "target_info", Help: "h"})
		rpc := prom.NewCounter(prom.CounterOpts{Name: "rpc_server_duration_x", Help: "h"})
		w.MustRegister(queues)
		w.MustRegister(acks, info, rpc)
		queues.WithLabelValues("a").Set(3)
		queues.WithLabelValues("b").Set(4)
		acks.Add(5)
		lat := prom.NewHistogramVec(prom.HistogramOpts{Name: "deckard_server_duration", Help: "h", Buckets: []float64{1}}, []string{"op"})
		calls := prom.NewCounter(prom.CounterOpts{Name: "rpc_server_requests_total", Help: "h"})
		w.MustRegister(lat, calls)
		lat.WithLabelValues("get").Observe(2)
		calls.Add(6)
	}
	for range 2 {
		all, err := w.Gather()
		nd.Assert(err == nil, "metrics can be read")
		seen := map[string][]*dto.Metric{}
		for _, f := range all {
			seen[f.GetName()] = f.Metric
		}
		nd.Assert(len(seen["deckard_total_messages"]) == 2 && len(seen["deckard_ack_total"]) == 1 && len(seen["target_info"]) == 1, "every series is reported")
		nd.Assert(len(seen["rpc_server_duration_x"]) == 0, "durations of calls are left out")
		for i, m := range seen["deckard_total_messages"] {
			nd.Assert(m.GetGauge().GetValue() == float64(3+i), "series keep their values")
			check(m, map[string]string{"queue": string("ab"[i])}, entries, service)
		}
		m := seen["deckard_ack_total"][0]
		nd.Assert(m.GetCounter().GetValue() == 5, "series keep their values")
		check(m, nil, entries, service)
		nd.Assert(len(seen["deckard_server_duration"]) == 1 && len(seen["rpc_server_requests_total"]) == 1, "every series is reported")
		m = seen["deckard_server_duration"][0]
		nd.Assert(m.GetHistogram().GetSampleSum() == 2 && m.GetHistogram().GetSampleCount() == 1, "series keep their values")
		check(m, map[string]string{"op": "get"}, entries, service)
		check(seen["rpc_server_requests_total"][0], nil, entries, service)
	}
}

// every series carries the labels of the environment, whatever they are
func VH_P35_Labels() {
	nd.MapOrder(false)
	entries, service := environment(1)
	page(entries, service)
	nd.Cover("end")
}

// two attributes
func VH_P35_LabelsTwo() {
	nd.MapOrder(false)
	entries, service := environment(2)
	nd.Assume(len(entries) == 2)
	page(entries, service)
	nd.Cover("end")
}

func freePort() int {
	if nd.Symbolic() {
		return 8123
	}
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Page says whether a page is served. The engine answers by the handlers and addresses it has seen.
func Page(port int, path string) bool {
	for range 40 {
		if r, err := http.Get(fmt.Sprintf("http://localhost:%d%s", port, path)); err == nil {
			defer r.Body.Close()
			return r.StatusCode == http.StatusOK
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// the page is served where it is configured, when it is
func VH_P35_Page() {
	nd.MapOrder(false)
	config.Configure(true)
	port, enabled := freePort(), nd.Choose("enabled", 2) == 1
	path := []string{"/metrics", "/other/page"}[nd.Choose("path", 2)]
	config.MetricsPort.Set(port)
	if nd.Choose("default", 2) == 0 {
		config.MetricsPath.Set(path)
	} else {
		path = "/metrics"
	}
	config.MetricsEnabled.Set(enabled)
	go metrics.ListenAndServe()
	nd.Quiesce()
	nd.Assert(Page(port, path) == enabled, "the page is served at the configured port and path, unless disabled")
	nd.Assert(!Page(port, "/nothing"), "nothing else is served")
	nd.Cover("end")
}

// Take makes a port one of somebody else's.
func Take(port int) {
	if _, err := net.Listen("tcp", fmt.Sprintf(":%d", port)); err != nil {
		panic(err)
	}
}

// a page that can't be served harms nothing else: the rest goes on
func VH_P35_Taken() {
	nd.MapOrder(false)
	config.Configure(true)
	port := freePort()
	config.MetricsPort.Set(port)
	Take(port)
	nd.Go(metrics.ListenAndServe)
	nd.Quiesce()
	n := int64(nd.Choose("n", 3))
	metrics.MetricsMap.UpdateTotalElementsMap(map[string]int64{"q": n})
	nd.Assert(metrics.MetricsMap.GetTotalElementsMap()["q"] == n, "everything else goes on")
	nd.Cover("end")
}
