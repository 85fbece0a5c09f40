// Package e2e runs the real moco-controller processes, several at a time,
// against a real API server, with simulated StatefulSet controller, kubelets,
// mysqld and agents on loopback.
package e2e

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha1"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	agentpb "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/go-logr/logr"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	appsv1 "k8s.io/api/apps/v1"
	coordv1 "k8s.io/api/coordination/v1"
	corev1 "k8s.io/api/core/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/rest"
	"k8s.io/utils/ptr"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/envtest"
	"sigs.k8s.io/controller-runtime/pkg/log"
	"sigs.k8s.io/yaml"

	"verifharness/mysim"
	"verifharness/vlib"
)

var ctx0 = context.Background()

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// ---- certificates ----

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte
}

var serialNo = int64(1000)

func newCA() *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "ca"}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	return &authority{cert: c, key: key, pem: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})}
}

func (a *authority) issue(cn string, names ...string) (crt, key []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	serialNo++
	t := &x509.Certificate{SerialNumber: big.NewInt(serialNo), Subject: pkix.Name{CommonName: cn}, DNSNames: names, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(crand.Reader, t, a.cert, &k.PublicKey, a.key)
	must(err)
	kd, err := x509.MarshalPKCS8PrivateKey(k)
	must(err)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kd})
}

// ---- the environment ----

const sysNS = "moco-sys"

type flags struct {
	agent, backup, fluent, exporter string
	interval                        time.Duration
	history                         int
	syncAnn, syncLabel              []string
	noSec                           bool
	leaderID                        string
	shared                          bool // defaults used for the images
}

type env struct {
	mu    sync.Mutex
	rng   *rand.Rand
	rep   *vlib.Report
	cs    string
	dir   string
	te    *envtest.Environment
	cfg   *rest.Config
	c     client.Client
	ca    *authority
	f     flags
	procs []*proc
	subj  []rbacv1.Subject
	ipNet string
	nIP   int
	cls   []*cluster
	ctx   context.Context
	stop  func()
	wg    sync.WaitGroup
	t0    time.Time
	log   bytes.Buffer
	audit string
	bad   bool
	acts  []string
	sql   []sqlEvent
	hook  net.Listener
}

type sqlEvent struct {
	at   time.Time
	pid  string
	stmt string
	inst string
}

// proc is one moco-controller process.
type proc struct {
	cmd     *exec.Cmd
	user    string
	started time.Time
	done    chan struct{}
	err     error
	ended   time.Time
	probe   string
	metrics string
	webhook string
	log     string
	paused  bool // was stopped with SIGSTOP
}

func (p *proc) alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (e *env) logf(f string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	fmt.Fprintf(&e.log, "%8.3f ", time.Since(e.t0).Seconds())
	fmt.Fprintf(&e.log, f, a...)
	e.log.WriteByte('\n')
}

func (e *env) viol(rule, f string, a ...any) {
	e.mu.Lock()
	if e.bad {
		e.mu.Unlock()
		return
	}
	e.bad = true
	tr := e.log.String()
	e.mu.Unlock()
	for _, p := range e.procs {
		if b, err := os.ReadFile(p.log); err == nil {
			if len(b) > 20000 {
				b = b[len(b)-20000:]
			}
			tr += "\n---- " + p.user + "\n" + string(b)
		}
	}
	e.rep.Violate("M01", rule, fmt.Sprintf(f, a...), e.cs, tr, "")
}

func (e *env) violated() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.bad
}

const auditPolicy = `apiVersion: audit.k8s.io/v1
kind: Policy
omitStages: [RequestReceived, ResponseStarted]
rules:
- level: None
  verbs: [get, list, watch]
- level: RequestResponse
  resources:
  - group: coordination.k8s.io
    resources: [leases]
- level: Metadata
`

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

func readDocs(file string) (r []*unstructured.Unstructured) {
	b, err := os.ReadFile(file)
	must(err)
	for _, d := range strings.Split(string(b), "\n---") {
		d = strings.TrimPrefix(strings.TrimSpace(d), "---")
		if strings.TrimSpace(d) == "" {
			continue
		}
		u := &unstructured.Unstructured{}
		must(yaml.Unmarshal([]byte(d), &u.Object))
		r = append(r, u)
	}
	return r
}

func newEnv(seed int64, rep *vlib.Report, dir string) *env {
	log.SetLogger(logr.Discard())
	shard, _ := vlib.Shard()
	e := &env{rng: rand.New(rand.NewSource(seed)), rep: rep, cs: fmt.Sprintf("seed=%d", seed), dir: dir, t0: time.Now(), ca: newCA(),
		ipNet: fmt.Sprintf("127.%d.%d", 20+os.Getpid()%200, shard)}
	e.ctx, e.stop = context.WithCancel(ctx0)
	s := runtime.NewScheme()
	must(clientgoscheme.AddToScheme(s))
	must(mocov1beta2.AddToScheme(s))
	conf := filepath.Join(repoDir(), "config")
	dirs, err := filepath.Glob("/opt/k8stools/k8s/*-linux-amd64")
	must(err)
	pol := filepath.Join(dir, "policy.yaml")
	must(os.WriteFile(pol, []byte(auditPolicy), 0o600))
	e.audit = filepath.Join(dir, "audit.log")
	e.te = &envtest.Environment{
		CRDDirectoryPaths:     []string{filepath.Join(conf, "crd", "tests"), filepath.Join(conf, "crd", "tests", "third")},
		ErrorIfCRDPathMissing: true,
		BinaryAssetsDirectory: dirs[0],
		WebhookInstallOptions: envtest.WebhookInstallOptions{Paths: []string{filepath.Join(conf, "webhook")}},
	}
	e.te.ControlPlane.GetAPIServer().Configure().Set("audit-policy-file", pol).Set("audit-log-path", e.audit).Set("audit-log-mode", "blocking-strict")
	e.cfg, err = e.te.Start()
	must(err)
	e.cfg.QPS, e.cfg.Burst = 500, 1000
	e.c, err = client.New(e.cfg, client.Options{Scheme: s})
	must(err)
	for _, ns := range []string{sysNS, "n1", "n2"} {
		must(e.c.Create(ctx0, &corev1.Namespace{ObjectMeta: metav1.ObjectMeta{Name: ns}}))
	}
	for _, u := range readDocs(filepath.Join(conf, "webhook", "validate_preventdelete.yaml")) {
		u.SetName("moco-" + u.GetName())
		must(e.c.Create(ctx0, u))
	}
	for _, u := range append(readDocs(filepath.Join(conf, "rbac", "role.yaml")), readDocs(filepath.Join(conf, "rbac", "leader_election_role.yaml"))...) {
		if u.GetKind() == "Role" {
			u.SetNamespace(sysNS)
		}
		must(e.c.Create(ctx0, u))
	}
	for i := range 12 {
		e.subj = append(e.subj, rbacv1.Subject{Kind: "User", Name: fmt.Sprintf("moco-%d", i), APIGroup: "rbac.authorization.k8s.io"})
	}
	must(e.c.Create(ctx0, &rbacv1.ClusterRoleBinding{ObjectMeta: metav1.ObjectMeta{Name: "moco"}, RoleRef: rbacv1.RoleRef{APIGroup: "rbac.authorization.k8s.io", Kind: "ClusterRole", Name: "manager-role"}, Subjects: e.subj}))
	must(e.c.Create(ctx0, &rbacv1.RoleBinding{ObjectMeta: metav1.ObjectMeta{Name: "moco", Namespace: sysNS}, RoleRef: rbacv1.RoleRef{APIGroup: "rbac.authorization.k8s.io", Kind: "Role", Name: "leader-election-role"}, Subjects: e.subj}))
	// the certificate to talk to agents
	gd := filepath.Join(dir, "grpc")
	must(os.MkdirAll(gd, 0o700))
	crt, key := e.ca.issue("moco-controller")
	must(os.WriteFile(filepath.Join(gd, "ca.crt"), e.ca.pem, 0o600))
	must(os.WriteFile(filepath.Join(gd, "tls.crt"), crt, 0o600))
	must(os.WriteFile(filepath.Join(gd, "tls.key"), key, 0o600))
	e.serveWebhooks()
	return e
}

// serveWebhooks is the Service in front of the webhooks of all processes.
func (e *env) serveWebhooks() {
	wo := &e.te.WebhookInstallOptions
	ln, err := net.Listen("tcp", net.JoinHostPort(wo.LocalServingHost, strconv.Itoa(wo.LocalServingPort)))
	must(err)
	e.hook = ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go e.forward(c)
		}
	}()
}

func (e *env) forward(c net.Conn) {
	defer c.Close()
	e.mu.Lock()
	l := append([]*proc{}, e.procs...)
	rand.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	e.mu.Unlock()
	for _, p := range l {
		if !p.alive() || p.paused {
			continue
		}
		d, err := net.DialTimeout("tcp", p.webhook, time.Second)
		if err != nil {
			continue
		}
		defer d.Close()
		go func() { _, _ = io.Copy(d, c); _ = d.(*net.TCPConn).CloseWrite() }()
		_, _ = io.Copy(c, d)
		return
	}
}

func (e *env) close() {
	e.stop()
	for _, p := range e.procs {
		if p.alive() {
			_ = p.cmd.Process.Kill()
			<-p.done
		}
	}
	for _, c := range e.cls {
		c.close()
	}
	e.wg.Wait()
	_ = e.hook.Close()
	_ = e.te.Stop()
}

// args are the arguments of a process.
func (e *env) args(p *proc) []string {
	a := []string{"--metrics-addr=" + p.metrics, "--health-probe-addr=" + p.probe, "--webhook-addr=" + p.webhook, "--cert-dir=" + e.te.WebhookInstallOptions.LocalServingCertDir,
		"--grpc-cert-dir=" + filepath.Join(e.dir, "grpc"), "--check-interval=" + e.f.interval.String(), "--mysql-configmap-history-limit=" + strconv.Itoa(e.f.history),
		"--leader-election-id=" + e.f.leaderID, "--apiserver-qps-throttle=200"}
	if e.f.agent != "" {
		a = append(a, "--agent-image="+e.f.agent, "--backup-image="+e.f.backup, "--fluent-bit-image="+e.f.fluent, "--mysqld-exporter-image="+e.f.exporter)
	}
	if len(e.f.syncAnn) > 0 {
		a = append(a, "--pvc-sync-annotation-keys="+strings.Join(e.f.syncAnn, ","))
	}
	if len(e.f.syncLabel) > 0 {
		a = append(a, "--pvc-sync-label-keys="+strings.Join(e.f.syncLabel, ","))
	}
	if e.f.noSec {
		a = append(a, "--disable-default-security-context")
	}
	return a
}

// start starts one more process.
func (e *env) start() *proc {
	n := len(e.procs)
	p := &proc{user: e.subj[n].Name, done: make(chan struct{}), probe: freePort(), metrics: freePort(), webhook: freePort(), started: time.Now()}
	u, err := e.te.AddUser(envtest.User{Name: p.user}, e.cfg)
	must(err)
	kc, err := u.KubeConfig()
	must(err)
	file := filepath.Join(e.dir, p.user+".kubeconfig")
	must(os.WriteFile(file, kc, 0o600))
	p.log = filepath.Join(e.dir, p.user+".log")
	lf, err := os.Create(p.log)
	must(err)
	p.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_BINS"), "moco-controller"), e.args(p)...)
	p.cmd.Env = append(os.Environ(), "KUBECONFIG="+file, "POD_NAMESPACE="+sysNS)
	p.cmd.Stdout, p.cmd.Stderr = lf, lf
	must(p.cmd.Start())
	e.logf("start %s pid %d", p.user, p.cmd.Process.Pid)
	go func() {
		p.err = p.cmd.Wait()
		p.ended = time.Now()
		_ = lf.Close()
		e.logf("%s ended: %v", p.user, p.err)
		close(p.done)
	}()
	e.mu.Lock()
	e.procs = append(e.procs, p)
	e.mu.Unlock()
	return p
}

func (e *env) live() (r []*proc) {
	for _, p := range e.procs {
		if p.alive() {
			r = append(r, p)
		}
	}
	return r
}

// ---- audit ----

type auditEvent struct {
	User struct {
		Username string `json:"username"`
	} `json:"user"`
	Verb      string `json:"verb"`
	ObjectRef struct {
		Resource, Namespace, Name, Subresource string
	} `json:"objectRef"`
	ResponseStatus struct {
		Code int `json:"code"`
	} `json:"responseStatus"`
	RequestObject  json.RawMessage  `json:"requestObject"`
	RequestReceivd metav1.MicroTime `json:"requestReceivedTimestamp"`
	Stage          metav1.MicroTime `json:"stageTimestamp"`
}

func (e *env) readAudit() (r []auditEvent) {
	f, err := os.Open(e.audit)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 16<<20)
	for sc.Scan() {
		var a auditEvent
		if json.Unmarshal(sc.Bytes(), &a) == nil {
			r = append(r, a)
		}
	}
	return r
}

// term is the time during which a user held the lease.
type term struct {
	user     string
	from, to time.Time
}

func terms(ev []auditEvent) (r []term) {
	holder := ""
	for _, a := range ev {
		if a.ObjectRef.Resource != "leases" || a.ObjectRef.Namespace != sysNS || a.ResponseStatus.Code/100 != 2 || !strings.HasPrefix(a.User.Username, "moco-") {
			continue
		}
		l := &coordv1.Lease{}
		if json.Unmarshal(a.RequestObject, l) != nil {
			continue
		}
		if ptr.Deref(l.Spec.HolderIdentity, "") == "" {
			if len(r) > 0 {
				r[len(r)-1].to = a.Stage.Time
			}
			holder = ""
			continue
		}
		if a.User.Username != holder {
			if len(r) > 0 && r[len(r)-1].to.IsZero() {
				r[len(r)-1].to = a.Stage.Time
			}
			holder = a.User.Username
			r = append(r, term{user: holder, from: a.RequestReceivd.Time})
		}
	}
	return r
}

// leader is the process that holds the lease and is alive.
func (e *env) leader() *proc {
	t := terms(e.readAudit())
	if len(t) == 0 {
		return nil
	}
	for _, p := range e.procs {
		if p.user == t[len(t)-1].user && p.alive() {
			return p
		}
	}
	return nil
}

// ---- a cluster ----

type cluster struct {
	e    *env
	key  types.NamespacedName
	w    *mysim.World
	pods []*podSim
	mc   *mocov1beta2.MySQLCluster
	tmpl map[string]corev1.PodTemplateSpec
	cur  string
	upd  string
	pws  map[string]string
	gone bool
	srvs []*grpc.Server
}

type podSim struct {
	in       *mysim.Inst
	exists   bool
	termAt   time.Time
	again    time.Time
	bootAt   time.Time
	down     time.Time // kept down until
	ready    bool
	reported string
}

func (c *cluster) close() {
	for _, s := range c.srvs {
		s.Stop()
	}
	c.w.Close()
}

type agentServer struct {
	agentpb.UnimplementedAgentServer
	c *cluster
	i int
}

func (a *agentServer) Clone(ctx context.Context, in *agentpb.CloneRequest) (*agentpb.CloneResponse, error) {
	w := a.c.w
	w.Mu.Lock()
	defer w.Mu.Unlock()
	i := a.c.pods[a.i].in
	d := w.FindHost(in.Host)
	if !i.Up || d == nil || !d.Up || !i.Executed.Empty() {
		return nil, errors.New("cannot clone")
	}
	if pw, ok := d.Auth(in.User); !ok || pw != in.Password {
		return nil, errors.New("donor access denied")
	}
	i.CloneData(d)
	a.c.e.rep.Count("clones", 1)
	return &agentpb.CloneResponse{}, nil
}

// password reads the Secret MOCO made for the instances, as the init container does.
func (c *cluster) password(user string) (string, bool) {
	c.e.mu.Lock()
	pw, ok := c.pws[user]
	c.e.mu.Unlock()
	return pw, ok
}

func (c *cluster) loadPasswords() {
	s := &corev1.Secret{}
	if c.e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: c.mc.UserSecretName()}, s) != nil {
		return
	}
	m := map[string]string{}
	for u, k := range map[string]string{constants.AdminUser: "ADMIN_PASSWORD", constants.AgentUser: "AGENT_PASSWORD", constants.ReplicationUser: "REPLICATION_PASSWORD", constants.CloneDonorUser: "CLONE_DONOR_PASSWORD", constants.WritableUser: "WRITABLE_PASSWORD"} {
		m[u] = string(s.Data[k])
	}
	c.e.mu.Lock()
	c.pws = m
	c.e.mu.Unlock()
}

func (e *env) addCluster(ns, name string, replicas int32, spec map[string]any) *cluster {
	c := &cluster{e: e, key: types.NamespacedName{Namespace: ns, Name: name}, w: mysim.NewWorld(e.rng.Int63()), tmpl: map[string]corev1.PodTemplateSpec{}}
	c.w.Attrs = true
	c.w.Hook = func(ev mysim.Event) {
		if ev.Kind == "sql" && ev.Pid != "" && mysim.IsMutating(ev.Stmt) {
			e.mu.Lock()
			e.sql = append(e.sql, sqlEvent{ev.At, ev.Pid, ev.Stmt, ev.Inst.Name})
			e.mu.Unlock()
		}
	}
	spec["replicas"] = replicas
	u := &unstructured.Unstructured{Object: map[string]any{"apiVersion": "moco.cybozu.com/v1beta2", "kind": "MySQLCluster", "metadata": map[string]any{"namespace": ns, "name": name}, "spec": spec}}
	b, err := json.Marshal(u.Object)
	must(err)
	u = &unstructured.Unstructured{}
	must(json.Unmarshal(b, &u.Object))
	if err := e.c.Create(ctx0, u); err != nil {
		e.viol("creation fails", "a valid cluster %s is refused: %v", c.key, err)
		return c
	}
	// cert-manager
	crt, key := e.ca.issue("agent")
	_ = e.c.Create(ctx0, &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: sysNS, Name: "moco-agent-" + ns + "." + name}, Data: map[string][]byte{"tls.crt": crt, "tls.key": key, "ca.crt": e.ca.pem}})
	e.touchCert(c.key)
	c.mc = &mocov1beta2.MySQLCluster{}
	must(e.c.Get(ctx0, c.key, c.mc))
	c.w.Run()
	e.cls = append(e.cls, c)
	e.logf("cluster %s created", c.key)
	e.wg.Add(1)
	go func() {
		defer e.wg.Done()
		for e.ctx.Err() == nil {
			c.tick()
			time.Sleep(100 * time.Millisecond)
		}
	}()
	return c
}

var certGVK = schema.GroupVersionKind{Group: "cert-manager.io", Version: "v1", Kind: "Certificate"}

func (e *env) touchCert(key types.NamespacedName) {
	for range 600 {
		u := &unstructured.Unstructured{}
		u.SetGroupVersionKind(certGVK)
		if e.c.Get(ctx0, types.NamespacedName{Namespace: sysNS, Name: "moco-agent-" + key.Namespace + "." + key.Name}, u) == nil {
			u.SetAnnotations(map[string]string{"touched": fmt.Sprint(time.Now())})
			if e.c.Update(ctx0, u) == nil {
				return
			}
		}
		time.Sleep(100 * time.Millisecond)
	}
	e.viol("no certificate", "no certificate was requested for the agents of %s within 60 s", key)
}

func (c *cluster) podName(i int) string { return fmt.Sprintf("moco-%s-%d", c.key.Name, i) }

// addInst makes the machinery of one more instance.
func (c *cluster) addInst() {
	e := c.e
	i := len(c.pods)
	e.mu.Lock()
	e.nIP++
	ip := fmt.Sprintf("%s.%d", e.ipNet, 1+e.nIP)
	e.mu.Unlock()
	in := c.w.Add(c.podName(i), ip, c.mc.PodHostname(i), int(c.mc.Spec.ServerIDBase)+i, "8.4.5")
	in.Auth = c.password
	must(c.w.ServeTCP(in, constants.MySQLAdminPort))
	crt, key := e.ca.issue("agent", "*."+c.mc.HeadlessServiceName()+"."+c.key.Namespace+".svc")
	tc, err := tls.X509KeyPair(crt, key)
	must(err)
	pool := x509.NewCertPool()
	pool.AppendCertsFromPEM(e.ca.pem)
	s := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{tc}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: pool})))
	agentpb.RegisterAgentServer(s, &agentServer{c: c, i: i})
	ln, err := net.Listen("tcp", net.JoinHostPort(ip, strconv.Itoa(constants.AgentPort)))
	must(err)
	go func() { _ = s.Serve(ln) }()
	c.srvs = append(c.srvs, s)
	c.pods = append(c.pods, &podSim{in: in})
}

func hash(t corev1.PodTemplateSpec) string {
	b, _ := json.Marshal(t)
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:5])
}

// tick is the StatefulSet controller and the kubelets.
func (c *cluster) tick() {
	e := c.e
	sts := &appsv1.StatefulSet{}
	err := e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: "moco-" + c.key.Name}, sts)
	if err != nil {
		if apierrors.IsNotFound(err) && c.gone {
			for i, p := range c.pods {
				if p.exists {
					pod := &corev1.Pod{}
					if e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: c.podName(i)}, pod) == nil {
						pod.Finalizers = nil
						_ = e.c.Update(ctx0, pod)
						_ = e.c.Delete(ctx0, pod)
					}
					c.w.Mu.Lock()
					p.in.StopInst()
					c.w.Mu.Unlock()
					p.exists = false
				}
			}
		}
		return
	}
	c.loadPasswords()
	n := int(*sts.Spec.Replicas)
	for len(c.pods) < n {
		c.addInst()
	}
	h := "moco-" + hash(sts.Spec.Template)
	if _, ok := c.tmpl[h]; !ok {
		c.tmpl[h] = *sts.Spec.Template.DeepCopy()
	}
	c.upd = h
	if c.cur == "" {
		c.cur = h
	}
	part := 0
	if r := sts.Spec.UpdateStrategy.RollingUpdate; r != nil && r.Partition != nil {
		part = int(*r.Partition)
	}
	now := time.Now()
	ready, updated, total := int32(0), int32(0), int32(0)
	allReady := true
	for i := len(c.pods) - 1; i >= 0; i-- {
		p := c.pods[i]
		pod := &corev1.Pod{}
		err := e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: c.podName(i)}, pod)
		if err != nil && !apierrors.IsNotFound(err) {
			return
		}
		if err != nil {
			if p.exists {
				p.exists = false
				p.again = now.Add(500 * time.Millisecond)
				c.w.Mu.Lock()
				p.in.StopInst()
				c.w.Mu.Unlock()
			}
			if i < n {
				allReady = false
				if now.After(p.again) {
					rev := c.cur
					if i >= part {
						rev = c.upd
					}
					c.createPod(sts, i, rev)
				}
			}
			continue
		}
		p.exists = true
		rev := pod.Labels["controller-revision-hash"]
		if pod.DeletionTimestamp != nil {
			allReady = false
			if p.termAt.IsZero() {
				p.termAt = now.Add(3 * time.Second)
			}
			if now.After(p.termAt) {
				c.w.Mu.Lock()
				p.in.StopInst()
				c.w.Mu.Unlock()
				pod.Finalizers = nil
				_ = e.c.Update(ctx0, pod)
			}
			continue
		}
		p.termAt = time.Time{}
		if i >= n {
			_ = e.c.Delete(ctx0, pod)
			continue
		}
		total++
		c.w.Mu.Lock()
		if !p.in.Up && now.After(p.bootAt) && now.After(p.down) {
			p.in.StartInst()
		}
		ok := probe(p.in)
		c.w.Mu.Unlock()
		st := corev1.ConditionFalse
		if ok {
			st = corev1.ConditionTrue
			ready++
		} else {
			allReady = false
		}
		p.ready = ok
		was := corev1.ConditionUnknown
		for _, k := range pod.Status.Conditions {
			if k.Type == corev1.PodReady {
				was = k.Status
			}
		}
		if was != st || pod.Status.PodIP != p.in.IP {
			pod.Status.Phase = corev1.PodRunning
			pod.Status.PodIP = p.in.IP
			pod.Status.PodIPs = []corev1.PodIP{{IP: p.in.IP}}
			pod.Status.Conditions = vlib.PodConditions(ok, time.Now())
			_ = e.c.Status().Update(ctx0, pod)
		}
		if rev == c.upd {
			updated++
		} else if i >= part && allReady {
			// higher ones are updated and ready, this one is next
			e.logf("%s is replaced", pod.Name)
			_ = e.c.Delete(ctx0, pod)
			allReady = false
		}
	}
	if updated == int32(n) && ready == int32(n) {
		c.cur = c.upd
	}
	want := appsv1.StatefulSetStatus{ObservedGeneration: sts.Generation, Replicas: total, ReadyReplicas: ready, AvailableReplicas: ready, UpdatedReplicas: updated, CurrentReplicas: total - updated,
		CurrentRevision: c.cur, UpdateRevision: c.upd}
	if c.cur == c.upd {
		want.CurrentReplicas = updated
	}
	got := sts.Status
	got.Conditions, got.CollisionCount = nil, nil
	if fmt.Sprint(got) != fmt.Sprint(want) {
		sts.Status = want
		_ = e.c.Status().Update(ctx0, sts)
	}
}

// probe is moco-agent's readiness probe (Mu held).
func probe(in *mysim.Inst) bool {
	if !in.Up || in.Hung {
		return false
	}
	if !in.ReadOnly {
		return true
	}
	return in.Repl != nil && in.IOState() == "Yes" && in.SQLRunning
}

func (c *cluster) createPod(sts *appsv1.StatefulSet, i int, rev string) {
	t := c.tmpl[rev]
	pod := &corev1.Pod{ObjectMeta: *t.ObjectMeta.DeepCopy(), Spec: *t.Spec.DeepCopy()}
	pod.Name, pod.Namespace = c.podName(i), c.key.Namespace
	pod.Labels["controller-revision-hash"] = rev
	pod.Labels["statefulset.kubernetes.io/pod-name"] = pod.Name
	pod.Labels["apps.kubernetes.io/pod-index"] = fmt.Sprint(i)
	pod.Finalizers = []string{"verif.example.com/kubelet"}
	pod.OwnerReferences = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: sts.Name, UID: sts.UID, Controller: ptr.To(true), BlockOwnerDeletion: ptr.To(true)}}
	pod.Spec.Hostname = pod.Name
	pod.Spec.Subdomain = sts.Spec.ServiceName
	for _, v := range sts.Spec.VolumeClaimTemplates {
		name := fmt.Sprintf("%s-%s", v.Name, pod.Name)
		pod.Spec.Volumes = append(pod.Spec.Volumes, corev1.Volume{Name: v.Name, VolumeSource: corev1.VolumeSource{PersistentVolumeClaim: &corev1.PersistentVolumeClaimVolumeSource{ClaimName: name}}})
		pvc := &corev1.PersistentVolumeClaim{ObjectMeta: metav1.ObjectMeta{Namespace: pod.Namespace, Name: name, Labels: map[string]string{"made": "by-sts"}}, Spec: *v.Spec.DeepCopy()}
		for k, x := range sts.Spec.Selector.MatchLabels {
			pvc.Labels[k] = x
		}
		_ = c.e.c.Create(ctx0, pvc)
	}
	if err := c.e.c.Create(ctx0, pod); err != nil {
		c.e.logf("cannot create %s: %v", pod.Name, err)
		return
	}
	c.pods[i].exists = true
	c.pods[i].bootAt = time.Now().Add(300 * time.Millisecond)
	c.e.logf("%s created", pod.Name)
}
