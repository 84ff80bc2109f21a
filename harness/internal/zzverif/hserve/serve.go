package hserve

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/service"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/health"
	grpchealth "google.golang.org/grpc/health/grpc_health_v1"
	"google.golang.org/grpc/keepalive"
)

// dir holds the files the configuration names.
type dir struct{ path string }

var content = map[string]string{"s1.crt": s1Cert, "s2.crt": s2Cert, "s1.key": s1Key, "s2.key": s2Key, "ca1": ca1Cert, "ca2": ca2Cert,
	"both": ca1Cert + ca2Cert, "broken": "-----BEGIN"}

func newDir() *dir {
	p, err := os.MkdirTemp("", "hserve")
	nd.Assert(err == nil, "setup: directory")
	for n, c := range content {
		nd.Assert(os.WriteFile(filepath.Join(p, n), []byte(c), 0o600) == nil, "setup: file")
	}
	config.Configure(true)
	config.GrpcPort.Set(0)
	return &dir{p}
}

func (d *dir) close() { os.RemoveAll(d.path) }

// list chooses up to n of the files, as configured: the names and the comma-separated list.
func (d *dir) list(tag string, n int, of ...string) ([]string, string) {
	var l, p []string
	k := nd.Choose("how many "+tag, n+1)
	for i := 0; i < k; i++ {
		f := of[nd.Choose(tag, len(of))]
		l = append(l, f)
		p = append(p, filepath.Join(d.path, f))
	}
	return l, strings.Join(p, ",")
}

// field points to a field of the struct p points to.
func field(p any, name string) any {
	for i := 0; i < nd.Fields(p); i++ {
		if nd.FieldName(p, i) == name {
			return nd.FieldPtr(p, i)
		}
	}
	nd.Unsupported("field " + name)
	return nil
}

// options are the options the server runs with.
type options struct {
	tls        *tls.Config // nil: plain text
	keep       keepalive.ServerParameters
	recv, send int
}

func inspect(s *grpc.Server) *options {
	all := field(s, "opts")
	o := &options{
		keep: *field(all, "keepaliveParams").(*keepalive.ServerParameters),
		recv: *field(all, "maxReceiveMessageSize").(*int),
		send: *field(all, "maxSendMessageSize").(*int),
	}
	c := *field(all, "creds").(*credentials.TransportCredentials)
	if c != nil {
		nd.Assert(c.Info().SecurityProtocol == "tls", "credentials are TLS")
		o.tls = *field(c, "config").(**tls.Config)
	}
	return o
}

func start() (*grpc.Server, error) {
	s, err := service.NewDeckardInstance(nil, nil, false).ServeGRPCServer(context.Background())
	nd.Assert((s == nil) == (err != nil), "a server or an error")
	return s, err
}

// trusted says whether the pool trusts exactly the subjects of these files.
func trusted(p *x509.CertPool, cas []string) bool {
	want := x509.NewCertPool()
	for _, c := range cas {
		want.AppendCertsFromPEM([]byte(content[c]))
	}
	a, b := p.Subjects(), want.Subjects()
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if string(a[i]) != string(b[i]) {
			return false
		}
	}
	return true
}

// every combination of certificates, keys and trusted client certificates
func VH_P31_Certificates() {
	d := newDir()
	defer d.close()
	n := 1
	if nd.Thorough() {
		n = 2
	}
	d.certificates(2, n)
}

// every combination of trusted client certificates
func VH_P31_ClientCertificates() {
	d := newDir()
	defer d.close()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	d.certificates(1, n)
}

func (d *dir) certificates(servers, clients int) {
	certs, c := d.list("cert", servers, "s1.crt", "s2.crt", "missing", "broken")
	keys, k := d.list("key", servers, "s1.key", "s2.key", "missing")
	cas, a := d.list("ca", clients, "ca1", "ca2", "both", "missing", "broken")
	config.TlsServerCertFilePaths.Set(c)
	config.TlsServerKeyFilePaths.Set(k)
	config.TlsClientCertFilePaths.Set(a)
	auth := []tls.ClientAuthType{tls.NoClientCert, tls.RequireAndVerifyClientCert}[nd.Choose("auth", 2)]
	config.TlsClientAuthType.Set(auths[auth])
	s, err := start()
	nd.Cover("end")
	if len(certs) == 0 && len(keys) == 0 {
		nd.Assert(err == nil, "a server without certificate and key starts")
		nd.Assert(inspect(s).tls == nil, "a server without certificate and key speaks plain text")
		s.Stop()
		return
	}
	good := len(certs) == len(keys)
	for i := range certs {
		good = good && (certs[i] == "s1.crt" && keys[i] == "s1.key" || certs[i] == "s2.crt" && keys[i] == "s2.key")
	}
	for _, f := range cas {
		good = good && f != "missing" && f != "broken"
	}
	if !good {
		nd.Assert(err != nil, "a TLS configuration that cannot be used does not start a server")
		return
	}
	nd.Assert(err == nil, "a right TLS configuration starts a server")
	t := inspect(s).tls
	nd.Assert(t != nil, "a server with certificates speaks TLS")
	nd.Assert(len(t.Certificates) == len(certs), "the configured certificates are presented")
	for i, f := range certs {
		want, err := tls.X509KeyPair([]byte(content[f]), []byte(content[keys[i]]))
		nd.Assert(err == nil && len(want.Certificate) == 1 && len(t.Certificates[i].Certificate) == 1, "setup: certificate")
		nd.Assert(string(t.Certificates[i].Certificate[0]) == string(want.Certificate[0]), "the configured certificates are presented")
		nd.Assert(t.Certificates[i].PrivateKey != nil, "the certificates have their keys")
	}
	nd.Assert(t.ClientAuth == auth, "clients are authenticated as configured")
	nd.Assert(!t.InsecureSkipVerify && t.GetConfigForClient == nil && t.GetCertificate == nil && t.MinVersion >= tls.VersionTLS12, "nothing weakens the configuration")
	if len(cas) == 0 {
		nd.Assert(t.ClientCAs == nil, "no client certificates are trusted but those of the system")
	} else {
		nd.Assert(t.ClientCAs != nil && trusted(t.ClientCAs, cas), "exactly the configured client certificates are trusted")
	}
	s.Stop()
}

var auths = []string{"NoClientCert", "RequestClientCert", "RequireAnyClientCert", "VerifyClientCertIfGiven", "RequireAndVerifyClientCert"}

// any text as client authentication
func VH_P31_Auth() {
	d := newDir()
	defer d.close()
	config.TlsServerCertFilePaths.Set(filepath.Join(d.path, "s1.crt"))
	config.TlsServerKeyFilePaths.Set(filepath.Join(d.path, "s1.key"))
	text, given := "NoClientCert", nd.Choose("given", 2) == 1
	if given {
		lens := []int{1, 2}
		for _, a := range auths {
			lens = append(lens, len(a)-1, len(a), len(a)+1)
		}
		text = nd.Bytes("auth", lens[nd.Choose("len", len(lens))])
		config.TlsClientAuthType.Set(text)
	}
	s, err := start()
	nd.Cover("end")
	for i, a := range auths {
		if text == a {
			nd.Assert(err == nil, "a known authentication starts a server")
			nd.Assert(inspect(s).tls.ClientAuth == tls.ClientAuthType(i), "clients are authenticated as configured")
			s.Stop()
			return
		}
	}
	nd.Assert(err != nil, "an unknown authentication does not start a server")
}

// the limits of messages and connections
func VH_P31_Limits() {
	d := newDir()
	defer d.close()
	recv, send := nd.Int64("recv", 0, 1<<31-1), nd.Int64("send", 0, 1<<31-1)
	config.GrpcServerMaxRecvMsgSize.Set(int(recv))
	config.GrpcServerMaxSendMsgSize.Set(int(send))
	keys := []config.ConfigKey{config.GrpcServerKeepaliveTime, config.GrpcServerKeepaliveTimeout, config.GrpcServerMaxConnectionIdle,
		config.GrpcServerMaxConnectionAge, config.GrpcServerMaxConnectionAgeGrace}
	want := make([]time.Duration, len(keys))
	for i, k := range keys {
		if nd.Choose("set", 2) == 1 {
			want[i] = time.Duration(i+2) * time.Minute
			k.Set(want[i].String())
		}
	}
	s, err := start()
	nd.Cover("end")
	nd.Assert(err == nil, "the server starts")
	o := inspect(s)
	nd.Assert(nd.And(int64(o.recv) == recv, int64(o.send) == send), "messages are limited as configured")
	got := []time.Duration{o.keep.Time, o.keep.Timeout, o.keep.MaxConnectionIdle, o.keep.MaxConnectionAge, o.keep.MaxConnectionAgeGrace}
	for i := range want {
		nd.Assert(got[i] == want[i], "connections are limited as configured")
	}
	s.Stop()
}

// a server that was started reports that it serves
func VH_P31_Health() {
	d := newDir()
	defer d.close()
	svc := service.NewDeckardInstance(nil, nil, nd.Choose("memory", 2) == 1)
	s, err := svc.ServeGRPCServer(context.Background())
	nd.Assert(err == nil && s != nil, "the server starts")
	nd.Quiesce()
	var h *health.Server
	for i := 0; i < nd.Fields(svc); i++ {
		if p, ok := nd.FieldPtr(svc, i).(**health.Server); ok {
			h = *p
		}
	}
	if h == nil {
		nd.Unsupported("health server")
	}
	for _, n := range []string{"", deckard.Deckard_ServiceDesc.ServiceName} {
		r, err := h.Check(context.Background(), &grpchealth.HealthCheckRequest{Service: n})
		nd.Assert(err == nil && r.Status == grpchealth.HealthCheckResponse_SERVING, "the service is reported as serving")
	}
	_, err = h.Check(context.Background(), &grpchealth.HealthCheckRequest{Service: "other"})
	nd.Assert(err != nil, "other services are unknown")
	info := s.GetServiceInfo()
	for _, n := range []string{deckard.Deckard_ServiceDesc.ServiceName, grpchealth.Health_ServiceDesc.ServiceName} {
		_, ok := info[n]
		nd.Assert(ok, "the service is offered")
	}
	s.Stop()
}
