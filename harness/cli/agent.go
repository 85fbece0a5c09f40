package cli

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	agentpb "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/cert"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/go-logr/logr"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/peer"

	"verifharness/vlib"
)

var serial atomic.Int64

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte
}

func newCA(name string) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(serial.Add(1)), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return &authority{cert: c, key: key, pem: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})}
}

type leaf struct {
	ca       *authority
	cn       string
	names    []string
	serial   int64
	expired  bool
	crt, key []byte
	tlsc     tls.Certificate
}

func (a *authority) issue(cn string, expired bool, names ...string) *leaf {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	n := serial.Add(1)
	t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: cn}, DNSNames: names, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}}
	if expired {
		t.NotAfter = time.Now().Add(-time.Minute)
	}
	der, err := x509.CreateCertificate(crand.Reader, t, a.cert, &key.PublicKey, a.key)
	if err != nil {
		panic(err)
	}
	kd, _ := x509.MarshalPKCS8PrivateKey(key)
	l := &leaf{ca: a, cn: cn, names: names, serial: n, expired: expired, crt: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}),
		key: pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kd})}
	l.tlsc, err = tls.X509KeyPair(l.crt, l.key)
	if err != nil {
		panic(err)
	}
	return l
}

// content is what a certificate directory holds.
type content struct {
	cas  []*authority
	leaf *leaf
}

func (c content) trusts(a *authority) bool {
	for _, x := range c.cas {
		if x == a {
			return true
		}
	}
	return false
}

func (c content) bundle() []byte {
	var b []byte
	for _, a := range c.cas {
		b = append(b, a.pem...)
	}
	return b
}

// certDir is a volume of a Secret: files are links into a directory that is
// replaced as a whole, as the kubelet does, or plain files.
type certDir struct {
	dir   string
	links bool
	n     int
}

func (d *certDir) write(files map[string][]byte) {
	if !d.links {
		for _, f := range []string{"ca.crt", "tls.crt", "tls.key"} {
			p := filepath.Join(d.dir, f)
			b, ok := files[f]
			if !ok {
				_ = os.Remove(p)
				continue
			}
			_ = os.WriteFile(p+".new", b, 0o600)
			_ = os.Rename(p+".new", p)
		}
		return
	}
	d.n++
	v := fmt.Sprintf("..v%d", d.n)
	_ = os.Mkdir(filepath.Join(d.dir, v), 0o700)
	for f, b := range files {
		_ = os.WriteFile(filepath.Join(d.dir, v, f), b, 0o600)
		if _, err := os.Lstat(filepath.Join(d.dir, f)); err != nil {
			_ = os.Symlink(filepath.Join("..data", f), filepath.Join(d.dir, f))
		}
	}
	_ = os.Symlink(v, filepath.Join(d.dir, "..tmp"))
	_ = os.Rename(filepath.Join(d.dir, "..tmp"), filepath.Join(d.dir, "..data"))
}

func (c content) files() map[string][]byte {
	return map[string][]byte{"ca.crt": c.bundle(), "tls.crt": c.leaf.crt, "tls.key": c.leaf.key}
}

// agentSrv is a moco-agent: a gRPC server that records who calls.
type agentSrv struct {
	agentpb.UnimplementedAgentServer
	mu    sync.Mutex
	calls []agentCall
	fail  error
	srv   *grpc.Server
	leaf  *leaf
	plain bool
	// the server's own configuration, or that of a real reloader
	rel     *cert.Reloader
	dir     *certDir
	has     content // in effect
	stopRel func()
}

type agentCall struct {
	serial int64
	cn     string
	req    string
}

func (a *agentSrv) Clone(ctx context.Context, r *agentpb.CloneRequest) (*agentpb.CloneResponse, error) {
	c := agentCall{req: r.String()}
	if p, ok := peer.FromContext(ctx); ok {
		if ti, ok := p.AuthInfo.(credentials.TLSInfo); ok && len(ti.State.PeerCertificates) > 0 {
			c.serial = ti.State.PeerCertificates[0].SerialNumber.Int64()
			c.cn = ti.State.PeerCertificates[0].Subject.CommonName
		}
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	a.calls = append(a.calls, c)
	return &agentpb.CloneResponse{}, a.fail
}

func (a *agentSrv) take() []agentCall {
	a.mu.Lock()
	defer a.mu.Unlock()
	r := a.calls
	a.calls = nil
	return r
}

type agentRun struct {
	rep   *vlib.Report
	rng   *rand.Rand
	cs    string
	cl    *mocov1beta2.MySQLCluster
	ips   []string
	srvs  []*agentSrv
	cas   []*authority
	cdir  *certDir
	has   content // in effect in the client
	fac   clustering.AgentFactory
	resol *resolverStub
	bad   atomic.Bool
	acts  []string
	dir   string
	nonce int

	stranger *authority
}

type resolverStub struct {
	mu   sync.Mutex
	ips  []string
	fail bool
}

func (r *resolverStub) Resolve(ctx context.Context, c *mocov1beta2.MySQLCluster, i int) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.fail {
		return "", errors.New("pod has no address")
	}
	return r.ips[i], nil
}

func (a *agentRun) viol(rule, f string, args ...any) {
	if a.bad.Swap(true) {
		return
	}
	a.rep.Violate("P01", rule, fmt.Sprintf(f, args...), a.cs, strings.Join(a.acts, "\n"), "")
}

const relInterval = 15 * time.Millisecond

func (a *agentRun) subdir(name string) *certDir {
	d := &certDir{dir: filepath.Join(a.dir, name), links: a.rng.Intn(2) == 0}
	_ = os.MkdirAll(d.dir, 0o700)
	return d
}

// start starts the agent of instance i with the certificate l.
func (a *agentRun) start(i int, l *leaf, plain bool) {
	s := a.srvs[i]
	if s != nil {
		s.srv.Stop()
		if s.stopRel != nil {
			s.stopRel()
		}
	}
	s = &agentSrv{leaf: l, plain: plain, has: content{cas: a.cas[:1+a.rng.Intn(len(a.cas))], leaf: l}}
	if !s.has.trusts(a.has.leaf.ca) && a.rng.Intn(3) > 0 {
		s.has.cas = a.cas
	}
	var opts []grpc.ServerOption
	switch {
	case plain:
	case a.rng.Intn(2) == 0:
		a.nonce++
		s.dir = a.subdir(fmt.Sprintf("srv%d", a.nonce))
		s.dir.write(s.has.files())
		rel, err := cert.NewReloader(s.dir.dir, logr.Discard())
		if err != nil {
			a.viol("fails", "NewReloader failed on a valid directory: %v", err)
			return
		}
		s.rel = rel
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() { rel.Run(ctx, relInterval); close(done) }()
		s.stopRel = func() {
			cancel()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				a.viol("never ends", "Run of the reloader does not end when its context does")
			}
		}
		opts = append(opts, grpc.Creds(credentials.NewTLS(rel.TLSServerConfig())))
	default:
		pool := x509.NewCertPool()
		pool.AppendCertsFromPEM(s.has.bundle())
		opts = append(opts, grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{l.tlsc}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: pool})))
	}
	s.srv = grpc.NewServer(opts...)
	agentpb.RegisterAgentServer(s.srv, s)
	var ln net.Listener
	var err error
	for range 100 {
		ln, err = net.Listen("tcp", net.JoinHostPort(a.ips[i], fmt.Sprint(constants.AgentPort)))
		if err == nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	go func() { _ = s.srv.Serve(ln) }()
	a.srvs[i] = s
}

func matches(l *leaf, host string) bool {
	for _, n := range l.names {
		if n == host {
			return true
		}
		if strings.HasPrefix(n, "*.") {
			if _, rest, ok := strings.Cut(host, "."); ok && rest == n[2:] {
				return true
			}
		}
	}
	return false
}

func (a *agentRun) want(i int) (bool, string) {
	s := a.srvs[i]
	switch {
	case s.plain:
		return false, "the agent does not use TLS"
	case !a.has.trusts(s.has.leaf.ca):
		return false, "the agent's certificate is from an unknown CA"
	case s.has.leaf.expired:
		return false, "the agent's certificate has expired"
	case !matches(s.has.leaf, a.cl.PodHostname(i)):
		return false, fmt.Sprintf("the agent's certificate is for %v, not %s", s.has.leaf.names, a.cl.PodHostname(i))
	case !s.has.trusts(a.has.leaf.ca):
		return false, "the agent does not know the CA of the client"
	}
	return true, ""
}

// call calls the agent of instance i through the real factory.
func (a *agentRun) call(i int, r *agentpb.CloneRequest) error {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	conn, err := a.fac.New(ctx, a.cl, i)
	if err != nil {
		return fmt.Errorf("connect: %w", err)
	}
	defer conn.Close()
	_, err = conn.Clone(ctx, r)
	return err
}

func (a *agentRun) request() *agentpb.CloneRequest {
	a.nonce++
	return &agentpb.CloneRequest{Host: fmt.Sprintf("donor%d", a.nonce), Port: int32(a.rng.Intn(65536)), User: "cloner", Password: fmt.Sprintf("p%d", a.rng.Int()),
		InitUser: "init", InitPassword: "ip", BootTimeout: nil}
}

// judge calls instance i and judges the outcome.
func (a *agentRun) judge(i int) {
	ok, why := a.want(i)
	for _, s := range a.srvs {
		s.take()
	}
	r := a.request()
	err := a.call(i, r)
	a.rep.Count("calls", 1)
	a.rep.Sig(fmt.Sprintf("call ok=%v why=%.30s reloader=%v", ok, why, a.srvs[i].rel != nil))
	for j, s := range a.srvs {
		got := s.take()
		if j != i && len(got) > 0 {
			a.viol("wrong agent", "a call for instance %d reached instance %d", i, j)
		}
		if j != i {
			continue
		}
		switch {
		case !ok:
			if len(got) > 0 || err == nil {
				a.viol("untrusted agent", "a call to instance %d went through (%v) although %s", i, err, why)
			}
			a.rep.Count("calls_refused", 1)
		case err != nil:
			a.viol("fails", "a call to instance %d failed: %v", i, err)
		case len(got) != 1:
			a.viol("calls", "a call to instance %d was received %d times", i, len(got))
		case got[0].req != r.String():
			a.viol("request changed", "instance %d received %s instead of %s", i, got[0].req, r.String())
		case got[0].serial != a.has.leaf.serial:
			a.viol("stale certificate", "the client presented the certificate %d (%s) although %d is in effect", got[0].serial, got[0].cn, a.has.leaf.serial)
		default:
			a.rep.Count("calls_ok", 1)
		}
	}
}

// broken returns files which cannot be used as a whole, derived from c.
// The files are not read at once, so ones that could be combined with those of
// old into something usable are avoided.
func (a *agentRun) broken(old, c content) (map[string][]byte, string) {
	f := c.files()
	k := a.rng.Intn(9)
	if k == 0 || k == 6 || k == 7 {
		f = old.files()
	} else {
		f["ca.crt"] = old.bundle()
	}
	junk := []byte("-----BEGIN CERTIFICATE-----\nMIIB\n")
	switch k {
	case 0:
		delete(f, "ca.crt")
		return f, "no ca.crt"
	case 1:
		delete(f, "tls.crt")
		return f, "no tls.crt"
	case 2:
		delete(f, "tls.key")
		return f, "no tls.key"
	case 3:
		f["tls.crt"] = junk
		return f, "garbage in tls.crt"
	case 4:
		f["tls.key"] = f["tls.key"][:len(f["tls.key"])/2]
		return f, "tls.key truncated"
	case 5:
		f["tls.key"] = c.leaf.ca.issue("moco-controller", false).key
		return f, "tls.key of another certificate"
	case 6:
		f["ca.crt"] = nil
		return f, "empty ca.crt"
	case 7:
		f["ca.crt"] = junk
		return f, "garbage in ca.crt"
	default:
		return map[string][]byte{}, "no files"
	}
}

func (a *agentRun) randCAs(with *authority) []*authority {
	var r []*authority
	for _, c := range a.cas {
		if c == with || a.rng.Intn(2) == 0 {
			r = append(r, c)
		}
	}
	return r
}

// renewClient replaces the certificates of the client.
func (a *agentRun) renewClient() {
	ca := a.cas[a.rng.Intn(len(a.cas))]
	next := content{leaf: ca.issue("moco-controller", false)}
	if a.rng.Intn(3) == 0 {
		next.leaf = a.has.leaf
		a.acts = append(a.acts, "client CA bundle changed")
	} else {
		a.acts = append(a.acts, "client certificate renewed")
	}
	next.cas = a.randCAs(a.cas[a.rng.Intn(len(a.cas))])
	a.cdir.write(next.files())
	a.has = next
	if a.probe() {
		a.rep.Count("client_renewals", 1)
	}
}

// probe waits until the client uses exactly its current content, observed at a
// TLS server on loopback.
func (a *agentRun) probe() bool {
	deadline := time.Now().Add(15 * time.Second)
	for {
		time.Sleep(2 * relInterval)
		err := a.inEffect()
		if err == nil {
			return true
		}
		if time.Now().After(deadline) {
			a.viol("stale certificate", "15 s (%d intervals) after the files were replaced: %v", int(15*time.Second/relInterval), err)
			return false
		}
	}
}

// inEffect connects to servers of every CA with the client's configuration
// taken from the real reloader through the factory, and tells whether the outcome is that of a.has.
func (a *agentRun) inEffect() error {
	i := len(a.ips) - 1
	for _, ca := range a.cas {
		got := int64(0)
		var mu sync.Mutex
		l := ca.issue("agent", false, a.cl.PodHostname(i))
		cfg := &tls.Config{Certificates: []tls.Certificate{l.tlsc}, ClientAuth: tls.RequireAnyClientCert, VerifyConnection: func(cs tls.ConnectionState) error {
			mu.Lock()
			got = cs.PeerCertificates[0].SerialNumber.Int64()
			mu.Unlock()
			return nil
		}}
		s := &agentSrv{}
		srv := grpc.NewServer(grpc.Creds(credentials.NewTLS(cfg)))
		agentpb.RegisterAgentServer(srv, s)
		ln, err := net.Listen("tcp", net.JoinHostPort(a.ips[i], fmt.Sprint(constants.AgentPort)))
		if err != nil {
			return err
		}
		go func() { _ = srv.Serve(ln) }()
		err = a.call(i, &agentpb.CloneRequest{Host: "probe"})
		srv.Stop()
		mu.Lock()
		g := got
		mu.Unlock()
		if trust := a.has.trusts(ca); trust != (err == nil) {
			return fmt.Errorf("an agent with a certificate of %s: trusted %v, the call: %v", ca.cert.Subject.CommonName, trust, err)
		} else if trust && g != a.has.leaf.serial {
			return fmt.Errorf("the client presented the certificate %d instead of %d", g, a.has.leaf.serial)
		}
	}
	return nil
}

// spoil writes the unusable files f. Where they have an unusable pair, ca.crt may
// then be replaced by the bundle of other CAs, and back again before the repair:
// the pair on disk is unusable as long as ca.crt is not that of old, so that no
// order in which the files are read makes the new bundle part of a usable whole.
func (a *agentRun) spoil(d *certDir, f map[string][]byte, what string, old content) (string, func()) {
	d.write(f)
	if strings.Contains(what, "ca.crt") || len(f) == 0 || a.rng.Intn(2) == 0 {
		return what, func() { d.write(old.files()) }
	}
	var other []*authority
	for _, c := range append(append([]*authority{}, a.cas...), a.stranger) {
		if !old.trusts(c) || a.rng.Intn(3) == 0 {
			other = append(other, c)
		}
	}
	time.Sleep(20 * relInterval)
	f["ca.crt"] = content{cas: other}.bundle()
	d.write(f)
	return what + " with another ca.crt", func() {
		f["ca.crt"] = old.bundle()
		d.write(f)
		time.Sleep(20 * relInterval)
		d.write(old.files())
	}
}

// breakClient writes unusable files; what was in effect must stay so.
func (a *agentRun) breakClient() {
	next := content{cas: a.cas, leaf: a.cas[0].issue("moco-controller", false)}
	f, what := a.broken(a.has, next)
	a.acts = append(a.acts, "client files: "+what)
	what, repair := a.spoil(a.cdir, f, what, a.has)
	for range 3 {
		time.Sleep(3 * relInterval)
		if err := a.inEffect(); err != nil {
			a.viol("broken files", "%s: what was in effect is no longer: %v", what, err)
			return
		}
	}
	a.rep.Count("client_broken", 1)
	// a new process must refuse them
	if _, err := cert.NewReloader(a.cdir.dir, logr.Discard()); err == nil {
		a.viol("broken files", "NewReloader accepts a directory with %s", what)
	}
	// and they are repaired
	repair()
}

// server replaces the files of a server with a reloader, validly or not.
func (a *agentRun) renewServer() {
	var l []int
	for i, s := range a.srvs {
		if s.rel != nil {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return
	}
	i := l[a.rng.Intn(len(l))]
	s := a.srvs[i]
	ca := a.cas[a.rng.Intn(len(a.cas))]
	next := content{cas: a.randCAs(a.has.leaf.ca), leaf: ca.issue("agent", false, a.cl.PodHostname(i))}
	if a.rng.Intn(3) == 0 {
		f, what := a.broken(s.has, next)
		a.acts = append(a.acts, fmt.Sprintf("files of agent %d: %s", i, what))
		what, repair := a.spoil(s.dir, f, what, s.has)
		time.Sleep(5 * relInterval)
		a.judgeServer(i)
		a.judge(i)
		a.rep.Count("server_broken", 1)
		a.rep.Sig("server files " + what)
		repair()
		return
	}
	a.acts = append(a.acts, fmt.Sprintf("certificate of agent %d renewed", i))
	s.dir.write(next.files())
	s.has, s.leaf = next, next.leaf
	deadline := time.Now().Add(15 * time.Second)
	for {
		time.Sleep(2 * relInterval)
		err := a.tryServer(i)
		if err == nil {
			break
		}
		if time.Now().After(deadline) {
			a.viol("stale certificate", "15 s after the files were replaced: %v", err)
			return
		}
	}
	a.rep.Count("server_renewals", 1)
}

// dial makes a TLS connection to agent i with client certificate l. It returns
// the serial of the agent's certificate and whether the agent accepted.
func (a *agentRun) dial(i int, l *leaf) (int64, error) {
	got := int64(0)
	cfg := &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}, VerifyConnection: func(cs tls.ConnectionState) error {
		got = cs.PeerCertificates[0].SerialNumber.Int64()
		return nil
	}}
	if l != nil {
		// present it whatever the server asks for
		cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &l.tlsc, nil }
	}
	d := &net.Dialer{Timeout: 10 * time.Second}
	raw, err := d.Dial("tcp", net.JoinHostPort(a.ips[i], fmt.Sprint(constants.AgentPort)))
	if err != nil {
		return 0, err
	}
	defer raw.Close()
	_ = raw.SetDeadline(time.Now().Add(10 * time.Second))
	c := tls.Client(raw, cfg)
	if err := c.Handshake(); err != nil {
		return got, err
	}
	// the server's refusal arrives with the first read; otherwise its HTTP/2 settings do
	if _, err := c.Write([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00")); err != nil {
		return got, err
	}
	b := make([]byte, 9)
	if _, err := c.Read(b); err != nil {
		return got, err
	}
	if b[3] != 4 {
		return got, fmt.Errorf("not HTTP/2 settings: %x", b)
	}
	return got, nil
}

func (a *agentRun) judgeServer(i int) {
	if err := a.tryServer(i); err != nil {
		a.viol("server", "%v", err)
	}
}

// tryServer tries clients of all kinds on the real server configuration of i.
func (a *agentRun) tryServer(i int) error {
	s := a.srvs[i]
	if s.rel == nil {
		return nil
	}
	in := s.has.cas[a.rng.Intn(len(s.has.cas))]
	type try struct {
		what string
		l    *leaf
		ok   bool
	}
	tries := []try{
		{"the controller", in.issue("moco-controller", false), true},
		{"a client without a certificate", nil, false},
		{"a client of another name", in.issue([]string{"agent", "moco", "moco-controller2", "MOCO-CONTROLLER", "", "xmoco-controller"}[a.rng.Intn(6)], false, "moco-controller"), false},
		{"a client of an unknown CA", a.stranger.issue("moco-controller", false), false},
		{"a client whose certificate has expired", in.issue("moco-controller", true), false},
	}
	for _, c := range a.cas {
		if !s.has.trusts(c) {
			tries = append(tries, try{"a client of a CA that is not in the bundle", c.issue("moco-controller", false), false})
		}
	}
	for _, t := range tries {
		got, err := a.dial(i, t.l)
		a.rep.Count("server_checks", 1)
		if t.ok != (err == nil) {
			return fmt.Errorf("agent %d: %s: accepted %v (%v), should be %v", i, t.what, err == nil, err, t.ok)
		}
		if got != 0 && got != s.has.leaf.serial {
			return fmt.Errorf("agent %d presents the certificate %d instead of %d", i, got, s.has.leaf.serial)
		}
	}
	return nil
}

// storm makes calls all the time while the client's certificate is renewed.
func (a *agentRun) storm() {
	i := a.rng.Intn(len(a.srvs))
	if ok, _ := a.want(i); !ok {
		return
	}
	a.acts = append(a.acts, "renewals under load")
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for w := range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				if err := a.call(i, &agentpb.CloneRequest{Host: fmt.Sprintf("w%d-%d", w, k)}); err != nil {
					a.viol("fails", "a call to instance %d failed while the certificate was renewed: %v", i, err)
					return
				}
				a.rep.Count("storm_calls", 1)
			}
		}()
	}
	for range 3 {
		next := content{cas: a.has.cas, leaf: a.has.leaf.ca.issue("moco-controller", false)}
		a.cdir.write(next.files())
		time.Sleep(4 * relInterval)
		a.has = next
	}
	close(stop)
	wg.Wait()
	if !a.probe() {
		return
	}
	a.rep.Count("storms", 1)
}

func runAgent(seed int64, rep *vlib.Report, dir string) {
	rng := rand.New(rand.NewSource(seed))
	shard, _ := vlib.Shard()
	a := &agentRun{rep: rep, rng: rng, cs: fmt.Sprintf("seed=%d", seed), dir: dir}
	a.cl = &mocov1beta2.MySQLCluster{}
	a.cl.Namespace = []string{"foo", "bar", "ns-1"}[rng.Intn(3)]
	a.cl.Name = []string{"test", "db", "a-b-c"}[rng.Intn(3)]
	n := 1 + rng.Intn(3)
	for i := range n + 1 {
		a.ips = append(a.ips, fmt.Sprintf("127.%d.%d.%d", 10+os.Getpid()%200, shard, 10+i))
	}
	a.srvs = make([]*agentSrv, n)
	for i := range 1 + rng.Intn(3) {
		a.cas = append(a.cas, newCA(fmt.Sprintf("CA%d", i)))
	}
	a.stranger = newCA("stranger")
	a.has = content{cas: a.cas, leaf: a.cas[rng.Intn(len(a.cas))].issue("moco-controller", false)}
	a.cdir = a.subdir("client")
	a.cdir.write(a.has.files())
	rel, err := cert.NewReloader(a.cdir.dir, logr.Discard())
	if err != nil {
		a.viol("fails", "NewReloader failed on a valid directory: %v", err)
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { rel.Run(ctx, relInterval); close(done) }()
	defer func() {
		cancel()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			a.viol("never ends", "Run of the reloader does not end when its context does")
		}
		for _, s := range a.srvs {
			if s != nil {
				s.srv.Stop()
				if s.stopRel != nil {
					s.stopRel()
				}
			}
		}
	}()
	a.resol = &resolverStub{ips: a.ips}
	a.fac = clustering.NewAgentFactory(a.resol, rel)
	for i := range n {
		a.startKind(i)
	}
	for range 6 + rng.Intn(10) {
		if a.bad.Load() {
			return
		}
		i := rng.Intn(n)
		switch k := rng.Intn(12); {
		case k < 3:
			a.judge(i)
		case k < 5:
			a.judgeServer(i)
		case k < 6:
			a.renewClient()
		case k < 7:
			a.breakClient()
		case k < 9:
			a.renewServer()
		case k < 10:
			a.storm()
		case k < 11:
			a.startKind(i)
		default:
			a.resol.mu.Lock()
			a.resol.fail = true
			a.resol.mu.Unlock()
			if err := a.call(i, a.request()); err == nil {
				a.viol("no address", "a call to a Pod without an address succeeded")
			}
			a.resol.mu.Lock()
			a.resol.fail = false
			a.resol.mu.Unlock()
		}
		for j := range n {
			if !a.bad.Load() {
				a.judge(j)
			}
		}
	}
	rep.Eval("agent:" + strings.Join(a.acts, ","))
}

func (a *agentRun) startKind(i int) {
	ca := a.cas[a.rng.Intn(len(a.cas))]
	host := a.cl.PodHostname(i)
	_, rest, _ := strings.Cut(host, ".")
	var l *leaf
	what := "valid"
	switch k := a.rng.Intn(12); k {
	default:
		l = ca.issue("agent", false, host)
	case 4, 5, 6:
		what = "wildcard"
		l = ca.issue("agent", false, "*."+rest)
	case 7:
		what = "of another instance"
		l = ca.issue("agent", false, a.cl.PodHostname(i+1))
	case 8:
		what = "of another cluster"
		l = ca.issue("agent", false, "*.moco-other."+a.cl.Namespace+".svc")
	case 9:
		what = "of an unknown CA"
		l = a.stranger.issue("agent", false, host)
	case 10:
		what = "expired"
		l = ca.issue("agent", true, host)
	case 11:
		what = "common name only"
		l = ca.issue(host, false, "localhost")
	}
	plain := a.rng.Intn(15) == 0
	if plain {
		what = "plaintext"
	}
	a.acts = append(a.acts, fmt.Sprintf("agent %d: %s", i, what))
	a.start(i, l, plain)
}
