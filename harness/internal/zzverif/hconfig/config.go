// Package hconfig checks how configuration values are resolved.
package hconfig

import (
	"os"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

type kind int

const (
	text kind = iota
	number
	boolean
	duration
)

// setting is one documented setting.
type setting struct {
	key     config.ConfigKey
	env     string
	aliases []string
	kind    kind
	def     any
}

var settings = []setting{
	{config.DebugEnabled, "DEBUG", nil, boolean, false},
	{config.LogType, "LOG_TYPE", nil, text, "json"},
	{config.GrpcEnabled, "GRPC_ENABLED", nil, boolean, true},
	{config.GrpcPort, "GRPC_PORT", nil, number, 8081},
	{config.GrpcServerKeepaliveTime, "GRPC_SERVER_KEEPALIVE_TIME", nil, duration, time.Duration(0)},
	{config.GrpcServerKeepaliveTimeout, "GRPC_SERVER_KEEPALIVE_TIMEOUT", nil, duration, time.Duration(0)},
	{config.GrpcServerMaxConnectionIdle, "GRPC_SERVER_MAX_CONNECTION_IDLE", nil, duration, time.Duration(0)},
	{config.GrpcServerMaxConnectionAge, "GRPC_SERVER_MAX_CONNECTION_AGE", nil, duration, time.Duration(0)},
	{config.GrpcServerMaxConnectionAgeGrace, "GRPC_SERVER_MAX_CONNECTION_AGE_GRACE", nil, duration, time.Duration(0)},
	{config.GrpcServerMaxRecvMsgSize, "GRPC_SERVER_MAX_RECV_MSG_SIZE", nil, number, 4194304},
	{config.GrpcServerMaxSendMsgSize, "GRPC_SERVER_MAX_SEND_MSG_SIZE", nil, number, 4194304},
	{config.CacheType, "CACHE_TYPE", nil, text, "MEMORY"},
	{config.CacheUri, "CACHE_URI", []string{"REDIS_URI"}, text, ""},
	{config.CachePrefix, "CACHE_PREFIX", nil, text, "deckard_v1"},
	{config.CacheConnectionRetryEnabled, "CACHE_CONNECTION_RETRY_ENABLED", nil, boolean, true},
	{config.CacheConnectionRetryAttempts, "CACHE_CONNECTION_RETRY_ATTEMPTS", nil, number, 10},
	{config.CacheConnectionRetryDelay, "CACHE_CONNECTION_RETRY_DELAY", nil, duration, 5 * time.Second},
	{config.RedisClusterMode, "REDIS_CLUSTER_MODE", nil, boolean, false},
	{config.StorageType, "STORAGE_TYPE", nil, text, "MEMORY"},
	{config.StorageUri, "STORAGE_URI", []string{"MONGO_URI", "MONGODB_URI"}, text, ""},
	{config.StorageConnectionRetryEnabled, "STORAGE_CONNECTION_RETRY_ENABLED", nil, boolean, true},
	{config.StorageConnectionRetryAttempts, "STORAGE_CONNECTION_RETRY_ATTEMPTS", nil, number, 10},
	{config.StorageConnectionRetryDelay, "STORAGE_CONNECTION_RETRY_DELAY", nil, duration, 5 * time.Second},
	{config.MongoDatabase, "MONGO_DATABASE", []string{"MONGODB_DATABASE"}, text, "deckard"},
	{config.MongoCollection, "MONGO_COLLECTION", []string{"MONGODB_COLLECTION"}, text, "queue"},
	{config.MongoQueueConfigurationCollection, "MONGO_QUEUE_CONFIGURATION_COLLECTION", []string{"MONGODB_QUEUE_CONFIGURATION_COLLECTION"}, text, "queue_configuration"},
	{config.HousekeeperEnabled, "HOUSEKEEPER_ENABLED", nil, boolean, true},
	{config.HousekeeperTaskTimeoutDelay, "HOUSEKEEPER_TASK_TIMEOUT_DELAY", nil, duration, time.Second},
	{config.HousekeeperTaskUnlockDelay, "HOUSEKEEPER_TASK_UNLOCK_DELAY", nil, duration, time.Second},
	{config.HousekeeperTaskUpdateDelay, "HOUSEKEEPER_TASK_UPDATE_DELAY", nil, duration, time.Second},
	{config.HousekeeperTaskTTLDelay, "HOUSEKEEPER_TASK_TTL_DELAY", nil, duration, time.Second},
	{config.HousekeeperTaskMaxElementsDelay, "HOUSEKEEPER_TASK_MAX_ELEMENTS_DELAY", nil, duration, time.Second},
	{config.HousekeeperTaskMetricsDelay, "HOUSEKEEPER_TASK_METRICS_DELAY", nil, duration, time.Minute},
	{config.AuditEnabled, "AUDIT_ENABLED", nil, boolean, false},
	{config.ElasticAddress, "ELASTIC_ADDRESS", nil, text, "http://localhost:9200/"},
	{config.ElasticPassword, "ELASTIC_PASSWORD", nil, text, ""},
	{config.ElasticUser, "ELASTIC_USER", nil, text, ""},
	{config.MetricsEnabled, "METRICS_ENABLED", nil, boolean, true},
	{config.MetricsPort, "METRICS_PORT", nil, number, 22022},
	{config.MetricsPath, "METRICS_PATH", nil, text, "/metrics"},
	{config.MetricsHistogramBuckets, "METRICS_HISTOGRAM_BUCKETS", nil, text, "0,1,2,5,10,15,20,30,35,50,100,200,400,600,800,1000,1500,2000,5000,10000"},
	{config.MetricsOpenMetricsEnabled, "METRICS_OPENMETRICS_ENABLED", nil, boolean, true},
	{config.TlsClientAuthType, "TLS_CLIENT_AUTH_TYPE", nil, text, "NoClientCert"},
	{config.TlsServerCertFilePaths, "TLS_SERVER_CERT_FILE_PATHS", nil, text, ""},
	{config.TlsServerKeyFilePaths, "TLS_SERVER_KEY_FILE_PATHS", nil, text, ""},
	{config.TlsClientCertFilePaths, "TLS_CLIENT_CERT_FILE_PATHS", nil, text, ""},
}

// is compares what the setting reads as with a value of its kind.
func (s *setting) is(v any) bool {
	switch s.kind {
	case text:
		return nd.StrEq(s.key.Get(), v.(string))
	case number:
		return s.key.GetInt() == v.(int)
	case boolean:
		return s.key.GetBool() == v.(bool)
	}
	return s.key.GetDuration() == v.(time.Duration)
}

// same compares two values of the setting's kind.
func (s *setting) same(a, b any) bool {
	switch s.kind {
	case text:
		return nd.StrEq(a.(string), b.(string))
	case number:
		return a.(int) == b.(int)
	case boolean:
		return a.(bool) == b.(bool)
	}
	return a.(time.Duration) == b.(time.Duration)
}

var units = []struct {
	name string
	d    time.Duration
}{{"ns", 1}, {"us", time.Microsecond}, {"ms", time.Millisecond}, {"s", time.Second}, {"m", time.Minute}, {"h", time.Hour}}

// digits is an arbitrary decimal numeral without needless zeros.
func digits(name string, n int) (string, any) {
	s, v := numeral(name, n)
	return s, v
}

func numeral(name string, n int) (string, int) {
	s := nd.Bytes(name, 1+nd.Choose(name+".len", n))
	v := 0
	for i := 0; i < len(s); i++ {
		nd.Assume(nd.And(s[i] >= '0', s[i] <= '9'))
		v = v*10 + int(s[i]-'0')
	}
	nd.Assume(len(s) == 1 || s[0] != '0')
	return s, v
}

// value is what a setting may be given as, and what it means. Thin values have one symbolic
// character and no spellings.
func (s *setting) value(tag string, thin bool) (given string, v any) {
	n := 2
	if thin {
		n = 1
	} else if nd.Thorough() {
		n = 3
	}
	switch s.kind {
	case text:
		// the default itself, or anything else
		if d := s.def.(string); d != "" && nd.Choose(tag+".default", 2) == 1 {
			return d, d
		}
		t := nd.Bytes(tag, 1+nd.Choose(tag+".len", n))
		for i := 0; i < len(t); i++ {
			nd.Assume(t[i] != 0) // the system has no such variables
		}
		return t, t
	case number:
		if nd.Choose(tag+".default", 2) == 1 {
			return itoa(s.def.(int)), s.def
		}
		return digits(tag, n)
	case boolean:
		k := 2
		if !thin {
			k = 8
		}
		k = nd.Choose(tag, k)
		return []string{"true", "false", "1", "0", "TRUE", "False", "t", "f"}[k], k%2 == 0
	}
	if nd.Choose(tag+".default", 2) == 1 {
		return s.def.(time.Duration).String(), s.def
	}
	t, k := numeral(tag, (n+1)/2)
	us := units
	if thin {
		us = units[2:4]
	}
	u := us[nd.Choose(tag+".unit", len(us))]
	return t + u.name, time.Duration(k) * u.d
}

// junk is a text that is no duration.
func junk(tag string) string {
	n := 2
	if nd.Thorough() {
		n = 3
	}
	t := nd.Bytes(tag, 1+nd.Choose(tag+".len", n))
	for i := 0; i < len(t); i++ {
		nd.Assume(nd.Or(nd.And(t[i] >= 'a', t[i] <= 'z'), t[i] == ' ', t[i] == '!'))
	}
	return t
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// every setting has its documented default and is read from its documented variable
func VH_P17_Documented() {
	s := &settings[nd.Choose("setting", len(settings))]
	config.Configure(true)
	nd.Assert(s.is(s.def), "without a value the documented default is used")
	given, v := s.value("value", true)
	if s.kind == duration && nd.Choose("junk", 2) == 1 {
		given, v = "soon", s.def
	}
	os.Setenv("DECKARD_"+s.env, given)
	nd.Assert(s.is(v), "a setting is read from its documented variable")
	os.Unsetenv("DECKARD_" + s.env)
	nd.Assert(s.is(s.def), "without a value the documented default is used")
	for _, a := range s.aliases {
		os.Setenv("DECKARD_"+a, given)
		nd.Assert(s.is(v), "an alias wins over the default")
		os.Unsetenv("DECKARD_" + a)
	}
	nd.Cover("end")
}

// made are settings of every kind with two aliases.
func made(k kind) *setting {
	d := []any{"std", 7, true, 3 * time.Second}[k]
	if nd.Choose("default", 2) == 1 { // none
		d = []any{"", 0, false, time.Duration(0)}[k]
	}
	c := &config.ViperConfigKey{Key: "main.key", Aliases: []string{"alias.one", "alias_two"}, Default: d}
	if k == duration {
		c.Default = d.(time.Duration).String()
	}
	if d == "" || d == 0 || d == time.Duration(0) {
		c.Default = nil
	}
	return &setting{config.Create(c), "MAIN_KEY", []string{"ALIAS_ONE", "ALIAS_TWO"}, k, d}
}

// the main name wins over the aliases, the first alias over the second, any over the default
func VH_P17_Precedence() {
	k := kind(nd.Choose("kind", 4))
	s := made(k)
	config.Configure(true)
	var want any
	first := true
	var later []any
	taken := false // a later value is what is read
	for i, e := range append([]string{s.env}, s.aliases...) {
		if nd.Choose("given", 2) == 0 {
			continue
		}
		g, v := s.value([]string{"m", "a", "b"}[i], !first)
		os.Setenv("DECKARD_"+e, g)
		if first {
			want = v
		} else {
			later = append(later, v)
		}
		first = false
	}
	nd.Cover("end")
	if first {
		want = s.def
	}
	for _, v := range later {
		taken = nd.Or(taken, s.is(v))
	}
	nd.AssertKnown(s.is(want), "the main name wins over the aliases and an alias over the default", "explicit-default", nd.And(taken, s.same(want, s.def)))
}

// numbers and durations in other spellings than value's
func VH_P17_Spellings() {
	k := kind(number)
	if nd.Choose("duration", 2) == 1 {
		k = duration
	}
	s := made(k)
	config.Configure(true)
	t, n := numeral("digit", 1)
	var v any
	if k == number {
		if nd.Choose("form", 2) == 1 {
			t, v = "-"+t, -n
		} else {
			t, v = t+"000000", n*1000000
		}
	} else {
		d := time.Duration(n)
		switch nd.Choose("form", 4) {
		case 0:
			t, v = "-"+t+"s", -d*time.Second
		case 1:
			t, v = t+"m30s", d*time.Minute+30*time.Second
		case 2:
			t, v = t+".5s", d*time.Second+500*time.Millisecond
		case 3:
			t, v = "1h"+t+"ms", time.Hour+d*time.Millisecond
		}
	}
	if i := nd.Choose("name", 4); i == 3 {
		s.key.Set(t)
	} else {
		os.Setenv("DECKARD_"+append([]string{s.env}, s.aliases...)[i], t)
	}
	nd.Cover("end")
	nd.Assert(s.is(v), "numbers and durations are read as they are written")
}

// a duration that means nothing gives the default
func VH_P17_Junk() {
	s := made(duration)
	config.Configure(true)
	os.Setenv("DECKARD_"+append([]string{s.env}, s.aliases...)[nd.Choose("name", 3)], junk("junk"))
	nd.Cover("end")
	nd.Assert(s.is(s.def), "a duration that cannot be parsed gives the default")
}

// a value set at run time is what every later read returns, whatever the environment says
func VH_P17_Set() {
	k := kind(nd.Choose("kind", 4))
	s := made(k)
	config.Configure(true)
	if i := nd.Choose("given", 4); i < 3 {
		g, _ := s.value("env", true)
		os.Setenv("DECKARD_"+append([]string{s.env}, s.aliases...)[i], g)
	}
	g, v := s.value("set", false)
	if k != text && nd.Choose("typed", 2) == 1 {
		s.key.Set(v)
	} else {
		s.key.Set(g)
	}
	nd.Cover("end")
	nd.Assert(s.is(v), "a value set at run time is what is read")
	g2, v2 := s.value("again", true)
	s.key.Set(g2)
	nd.Assert(s.is(v2), "a value set at run time is what is read")
	config.Configure() // already configured
	nd.Assert(s.is(v2), "configuring once more changes nothing")
}

// names of variables follow the names of settings
func VH_P17_Names() {
	for i := range settings {
		s := &settings[i]
		nd.Assert(strings.ToUpper(strings.ReplaceAll(s.key.GetKey(), ".", "_")) == s.env, "settings are named after their variables")
	}
}
