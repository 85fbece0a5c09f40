package ctl

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	"github.com/go-logr/logr"
	"golang.org/x/time/rate"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/meta"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/util/intstr"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/utils/ptr"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/envtest"
	"sigs.k8s.io/controller-runtime/pkg/log"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"
	"sigs.k8s.io/controller-runtime/pkg/webhook"
	"sigs.k8s.io/yaml"

	"verifharness/vlib"
)

// evMgr records what the clustering manager is told.
type evMgr struct {
	mu   sync.Mutex
	told map[string]int
}

func (m *evMgr) rec(what string, key types.NamespacedName) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.told[what+" "+key.String()]++
}
func (m *evMgr) n(what string, key types.NamespacedName) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.told[what+" "+key.String()]
}
func (m *evMgr) Update(key types.NamespacedName, origin string)        { m.rec("update", key) }
func (m *evMgr) UpdateNoStart(key types.NamespacedName, origin string) { m.rec("nostart", key) }
func (m *evMgr) Stop(key types.NamespacedName)                         { m.rec("stop", key) }
func (m *evMgr) StopAll()                                              {}
func (m *evMgr) Pause(key types.NamespacedName)                        { m.rec("pause", key) }

type ev struct {
	g    gen
	r    *vlib.Report
	c    client.Client
	mgr  *evMgr
	env  *envtest.Environment
	stop context.CancelFunc
	done chan struct{}
	cs   string
	cls  []types.NamespacedName
	n    int
}

// wait is how long an effect may take; it usually takes a fraction of a second.
const evWait = 40 * time.Second

func (e *ev) viol(prop, rule, f string, a ...any) {
	e.r.Violate(prop, rule, fmt.Sprintf(f, a...), e.cs, "", prop+":"+rule)
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var ctx0 = context.Background()

// startEv starts an API server, and the real controllers and webhooks with the
// permissions they are shipped with.
func startEv(g gen, rep *vlib.Report) *ev {
	log.SetLogger(logr.Discard())
	e := &ev{g: g, r: rep, mgr: &evMgr{told: map[string]int{}}, done: make(chan struct{})}
	s := runtime.NewScheme()
	must(clientgoscheme.AddToScheme(s))
	must(mocov1beta2.AddToScheme(s))
	conf := filepath.Join(repoDir(), "config")
	dirs, err := filepath.Glob("/opt/k8stools/k8s/*-linux-amd64")
	must(err)
	e.env = &envtest.Environment{
		CRDDirectoryPaths:     []string{filepath.Join(conf, "crd", "tests"), filepath.Join(conf, "crd", "tests", "third")},
		ErrorIfCRDPathMissing: true,
		BinaryAssetsDirectory: dirs[0],
		WebhookInstallOptions: envtest.WebhookInstallOptions{Paths: []string{filepath.Join(conf, "webhook")}},
	}
	cfg, err := e.env.Start()
	must(err)
	e.c, err = client.New(cfg, client.Options{Scheme: s})
	must(err)
	// the policy that protects Pods
	b, err := os.ReadFile(filepath.Join(conf, "webhook", "validate_preventdelete.yaml"))
	must(err)
	for _, d := range strings.Split(string(b), "\n---") {
		if strings.TrimSpace(d) == "" {
			continue
		}
		u := &unstructured.Unstructured{}
		must(yaml.Unmarshal([]byte(d), &u.Object))
		u.SetName("moco-" + u.GetName())
		must(e.c.Create(ctx0, u))
	}
	// the permissions
	b, err = os.ReadFile(filepath.Join(conf, "rbac", "role.yaml"))
	must(err)
	for _, d := range strings.Split(string(b), "\n---") {
		if strings.TrimSpace(d) == "" {
			continue
		}
		u := &unstructured.Unstructured{}
		must(yaml.Unmarshal([]byte(strings.TrimPrefix(d, "---")), &u.Object))
		must(e.c.Create(ctx0, u))
	}
	must(e.c.Create(ctx0, &rbacv1.ClusterRoleBinding{ObjectMeta: metav1.ObjectMeta{Name: "moco"}, RoleRef: rbacv1.RoleRef{APIGroup: "rbac.authorization.k8s.io", Kind: "ClusterRole", Name: "manager-role"},
		Subjects: []rbacv1.Subject{{Kind: "User", Name: "moco", APIGroup: "rbac.authorization.k8s.io"}}}))
	user, err := e.env.AddUser(envtest.User{Name: "moco"}, cfg)
	must(err)
	wo := &e.env.WebhookInstallOptions
	mgr, err := ctrl.NewManager(user.Config(), ctrl.Options{
		Scheme: s, LeaderElection: false, Metrics: metricsserver.Options{BindAddress: "0"},
		WebhookServer: webhook.NewServer(webhook.Options{Host: wo.LocalServingHost, Port: wo.LocalServingPort, CertDir: wo.LocalServingCertDir}),
	})
	must(err)
	for _, ns := range []string{SysNS, "n1", "n2"} {
		must(e.c.Create(ctx0, &corev1.Namespace{ObjectMeta: metav1.ObjectMeta{Name: ns}}))
	}
	c, stop := context.WithCancel(ctx0)
	e.stop = stop
	must((&controllers.MySQLClusterReconciler{Client: mgr.GetClient(), Scheme: s, Recorder: mgr.GetEventRecorderFor("moco-controller"), AgentImage: "agent:1", BackupImage: "backup:1",
		FluentBitImage: "fluent:1", ExporterImage: "exporter:1", SystemNamespace: SysNS, ClusterManager: e.mgr, MaxConcurrentReconciles: 4, MySQLConfigMapHistoryLimit: 10}).SetupWithManager(c, mgr))
	must((&controllers.StatefulSetPartitionReconciler{Client: mgr.GetClient(), Recorder: mgr.GetEventRecorderFor("moco-controller"), MaxConcurrentReconciles: 4, RateLimiter: rate.NewLimiter(rate.Inf, 1)}).SetupWithManager(mgr))
	must((&controllers.PodWatcher{Client: mgr.GetClient(), ClusterManager: e.mgr, MaxConcurrentReconciles: 4}).SetupWithManager(mgr))
	must((&mocov1beta2.MySQLCluster{}).SetupWebhookWithManager(mgr))
	must((&mocov1beta2.BackupPolicy{}).SetupWebhookWithManager(mgr))
	must(mocov1beta2.SetupStatefulSetWebhookWithManager(mgr))
	go func() {
		defer close(e.done)
		if err := mgr.Start(c); err != nil {
			panic(err)
		}
	}()
	started := mgr.GetWebhookServer().StartedChecker()
	for range 600 {
		if started(nil) == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	return e
}

func (e *ev) close() {
	e.stop()
	<-e.done
	_ = e.env.Stop()
}

// eventually polls the condition.
func (e *ev) eventually(f func() bool) bool {
	t0 := time.Now()
	for time.Since(t0) < evWait {
		if f() {
			return true
		}
		time.Sleep(30 * time.Millisecond)
	}
	return false
}

func (e *ev) spec(conf, pol string, restore bool) m {
	g := e.g
	s := m{"replicas": pick(g, 1, 3), "podTemplate": m{"spec": m{"containers": l{m{"name": "mysqld", "image": "mysql:" + g.word()}}}},
		"volumeClaimTemplates": l{m{"metadata": m{"name": "mysql-data"}, "spec": m{"accessModes": l{"ReadWriteOnce"}, "resources": m{"requests": m{"storage": "1Gi"}}}}}}
	if conf != "" {
		s["mysqlConfigMapName"] = conf
	}
	if pol != "" {
		s["backupPolicyName"] = pol
	}
	if g.p(0.5) {
		s["collectors"] = l{"info_schema.tables"}
	}
	if restore {
		s["restore"] = m{"sourceName": "src", "sourceNamespace": "n1", "restorePoint": "2026-01-02T03:04:05Z", "jobConfig": e.job()}
	}
	return s
}

func (e *ev) job() m {
	return m{"serviceAccountName": "sa", "bucketConfig": m{"bucketName": "b"}, "workVolume": m{"emptyDir": m{}}}
}

// sys are the kinds of objects MOCO makes for a cluster.
func (e *ev) own(key types.NamespacedName) (r []client.Object) {
	for _, l := range []client.ObjectList{&corev1.ServiceList{}, &corev1.SecretList{}, &corev1.ConfigMapList{}, &corev1.ServiceAccountList{}, &appsv1.StatefulSetList{}, &policyv1.PodDisruptionBudgetList{},
		&batchv1.CronJobList{}, &batchv1.JobList{}, &rbacv1.RoleList{}, &rbacv1.RoleBindingList{}} {
		must(e.c.List(ctx0, l, client.InNamespace(key.Namespace)))
		items, err := metaExtract(l)
		must(err)
		for _, o := range items {
			if ref := metav1.GetControllerOf(o); ref != nil && ref.Kind == "MySQLCluster" && ref.Name == key.Name {
				r = append(r, o)
			}
		}
	}
	return r
}

func metaExtract(l client.ObjectList) (r []client.Object, err error) {
	err = meta.EachListItem(l, func(o runtime.Object) error { r = append(r, o.(client.Object)); return nil })
	return
}

// essence is what must come back after somebody changed or deleted an object.
func essence(o client.Object) string {
	switch x := o.(type) {
	case *corev1.Service:
		return fmt.Sprintf("%v %v %v", x.Spec.Selector, len(x.Spec.Ports), targets(x))
	case *corev1.Secret:
		return fmt.Sprint(x.Data)
	case *corev1.ConfigMap:
		return fmt.Sprint(x.Data)
	case *corev1.ServiceAccount:
		return "sa"
	case *appsv1.StatefulSet:
		return fmt.Sprint(*x.Spec.Replicas, x.Spec.Template.Spec.Containers[0].Image, x.Spec.Template.Spec.ServiceAccountName)
	case *policyv1.PodDisruptionBudget:
		return fmt.Sprint(x.Spec.MaxUnavailable)
	case *batchv1.CronJob:
		return fmt.Sprint(x.Spec.Schedule)
	case *batchv1.Job:
		return fmt.Sprint(x.Spec.Template.Spec.Containers[0].Args)
	case *rbacv1.Role:
		return fmt.Sprint(x.Rules)
	case *rbacv1.RoleBinding:
		return fmt.Sprint(x.Subjects)
	}
	return ""
}

func targets(x *corev1.Service) (r []string) {
	for _, p := range x.Spec.Ports {
		r = append(r, p.Name+p.TargetPort.String())
	}
	return
}

// spoilObj changes an object behind MOCO's back and says whether it could.
func (e *ev) spoilObj(o client.Object) bool {
	switch x := o.(type) {
	case *corev1.Service:
		x.Spec.Selector["app.kubernetes.io/instance"] = "other"
		if e.g.p(0.5) && len(x.Spec.Ports) > 0 {
			x.Spec.Ports[0].TargetPort = intstr.FromInt32(1111)
		}
	case *corev1.Secret:
		for k := range x.Data {
			x.Data[k] = []byte("tampered")
		}
	case *corev1.ConfigMap:
		for k := range x.Data {
			x.Data[k] = "tampered"
		}
	case *appsv1.StatefulSet:
		x.Spec.Template.Spec.Containers[0].Image = "tampered"
	case *policyv1.PodDisruptionBudget:
		x.Spec.MaxUnavailable = ptr.To(intstr.FromInt32(9))
	case *batchv1.CronJob:
		x.Spec.Schedule = "1 1 1 1 1"
	case *rbacv1.Role:
		x.Rules = nil
	case *rbacv1.RoleBinding:
		x.Subjects = nil
	default:
		return false
	}
	return e.c.Update(ctx0, o) == nil
}

func (e *ev) cluster(key types.NamespacedName) *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	must(e.c.Get(ctx0, key, c))
	return c
}

// settled: the cluster's generation is reconciled and all its objects are there.
func (e *ev) settled(key types.NamespacedName, min int) bool {
	c := e.cluster(key)
	return c.Status.ReconcileInfo.Generation == c.Generation && len(e.own(key)) >= min
}

// addCluster creates a cluster and waits for its objects.
func (e *ev) addCluster(ns, conf, pol string, restore bool) {
	if e.r.Violated() {
		return
	}
	e.n++
	key := types.NamespacedName{Namespace: ns, Name: fmt.Sprintf("c%d", e.n)}
	u := &unstructured.Unstructured{Object: mcObj(ns, key.Name, e.spec(conf, pol, restore), nil)}
	if err := e.c.Create(ctx0, u); err != nil {
		e.viol("R12", "a valid creation is refused", "%v", err)
		return
	}
	// cert-manager makes the Secret
	sec := &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: SysNS, Name: "moco-agent-" + ns + "." + key.Name}, Data: map[string][]byte{"tls.crt": []byte("1"), "tls.key": []byte("1"), "ca.crt": []byte("1")}}
	must(e.c.Create(ctx0, sec))
	e.touchCert(key)
	// 2 Secrets + gRPC Secret, 2 ConfigMaps, ServiceAccount, 3 Services, StatefulSet, and what depends
	min := 10
	if c := e.cluster(key); c.Spec.Replicas > 1 {
		min++ // PDB
	}
	if pol != "" {
		min += 3
	}
	if restore {
		min += 3
	}
	if !e.eventually(func() bool { return e.settled(key, min) }) {
		e.viol("R13", "a new cluster is not reconciled", "%s: %d of %d objects; %+v", key, len(e.own(key)), min, e.cluster(key).Status.ReconcileInfo)
		return
	}
	c := e.cluster(key)
	if c.Spec.ServerIDBase <= 0 || len(c.Finalizers) == 0 {
		e.viol("R12", "a new cluster is not defaulted", "%s: server-id base %d, finalizers %v", key, c.Spec.ServerIDBase, c.Finalizers)
	}
	if e.mgr.n("update", key) == 0 && !e.eventually(func() bool { return e.mgr.n("update", key) > 0 }) {
		e.viol("R13", "the clustering of a new cluster is not started", "%s", key)
	}
	e.r.Count("clusters_settled", 1)
	e.cls = append(e.cls, key)
}

var certGVK = schema.GroupVersionKind{Group: "cert-manager.io", Version: "v1", Kind: "Certificate"}

func (e *ev) touchCert(key types.NamespacedName) {
	for range 2000 {
		u := &unstructured.Unstructured{}
		u.SetGroupVersionKind(certGVK)
		if e.c.Get(ctx0, types.NamespacedName{Namespace: SysNS, Name: "moco-agent-" + key.Namespace + "." + key.Name}, u) == nil {
			a := u.GetAnnotations()
			if a == nil {
				a = map[string]string{}
			}
			a["touched"] = fmt.Sprint(e.g.Int63())
			u.SetAnnotations(a)
			if e.c.Update(ctx0, u) == nil {
				return
			}
		}
		time.Sleep(30 * time.Millisecond)
	}
	e.viol("R13", "there is no certificate for a new cluster", "%s", key)
}

// tamper changes many objects at once and waits for all of them to come back.
func (e *ev) tamper() {
	type item struct {
		o    client.Object
		want string
		uid  types.UID
		what string
	}
	var items []item
	single := e.g.p(0.8)
	for _, key := range e.cls {
		sts := &appsv1.StatefulSet{}
		if e.c.Get(ctx0, types.NamespacedName{Namespace: key.Namespace, Name: "moco-" + key.Name}, sts) != nil {
			continue
		}
		own := e.own(key)
		only := e.g.Intn(len(own))
		for i, o := range own {
			if single && i != only || !single && !e.g.p(0.35) {
				continue
			}
			if _, ok := o.(*corev1.ConfigMap); ok {
				used := false
				for _, v := range sts.Spec.Template.Spec.Volumes {
					used = used || v.ConfigMap != nil && v.ConfigMap.Name == o.GetName()
				}
				if !used {
					continue // one of the past
				}
			}
			x := item{o: o, want: essence(o), uid: o.GetUID(), what: fmt.Sprintf("%T", o)}
			if e.g.p(0.5) || !e.spoilObj(o.DeepCopyObject().(client.Object)) {
				if _, ok := o.(*batchv1.Job); ok {
					continue // a Job is not to be repeated
				}
				if err := e.c.Delete(ctx0, o, client.PropagationPolicy(metav1.DeletePropagationBackground)); err != nil {
					continue
				}
				x.what = "deleted " + x.what
			} else {
				x.what = "edited " + x.what
			}
			items = append(items, x)
			e.r.Sig("tamper " + x.what)
		}
	}
	for _, x := range items {
		e.r.Count("tampers", 1)
		last := ""
		if !e.eventually(func() bool {
			o := x.o.DeepCopyObject().(client.Object)
			if err := e.c.Get(ctx0, client.ObjectKeyFromObject(x.o), o); err != nil {
				last = err.Error()
				return false
			}
			last = essence(o)
			return last == x.want && o.GetDeletionTimestamp() == nil
		}) {
			e.viol("R13", "a change by others is not repaired", "%s %s: is %s, was %s", x.what, client.ObjectKeyFromObject(x.o), last, x.want)
			return
		}
	}
}

func (e *ev) myCnf(key types.NamespacedName) string {
	sts := &appsv1.StatefulSet{}
	if e.c.Get(ctx0, types.NamespacedName{Namespace: key.Namespace, Name: "moco-" + key.Name}, sts) != nil {
		return ""
	}
	for _, v := range sts.Spec.Template.Spec.Volumes {
		if v.ConfigMap != nil && v.Name == "mysql-conf" {
			cm := &corev1.ConfigMap{}
			if e.c.Get(ctx0, types.NamespacedName{Namespace: key.Namespace, Name: v.ConfigMap.Name}, cm) != nil {
				return ""
			}
			return cm.Data["my.cnf"]
		}
	}
	return ""
}

// inputs changes what clusters refer to.
func (e *ev) inputs() {
	g := e.g
	for _, ns := range []string{"n1", "n2"} {
		for _, n := range []string{"conf-a", "conf-b"} {
			if !g.p(0.5) {
				continue
			}
			v := fmt.Sprint(1000 + g.Intn(100000))
			cm := &corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: n}}
			must(client.IgnoreNotFound(e.c.Get(ctx0, client.ObjectKeyFromObject(cm), cm)))
			cm.Data = map[string]string{"max_connections": v}
			must(e.put(cm))
			for _, key := range e.cls {
				c := e.cluster(key)
				if c.Namespace != ns || c.Spec.MySQLConfigMapName == nil || *c.Spec.MySQLConfigMapName != n {
					continue
				}
				e.r.Count("conf_changes", 1)
				if !e.eventually(func() bool { return strings.Contains(e.myCnf(key), "max_connections = "+v) }) {
					e.viol("R13", "a change of the user's configuration does not reach the cluster", "%s %s: %s", key, n, v)
					return
				}
			}
		}
		if g.p(0.7) {
			pol := pick(g, "pol-a", "pol-b")
			sched := fmt.Sprintf("%d %d * * *", g.Intn(60), g.Intn(24))
			e.setPolicy(ns, pol, sched)
			for _, key := range e.cls {
				c := e.cluster(key)
				if c.Namespace != ns || c.Spec.BackupPolicyName == nil || *c.Spec.BackupPolicyName != pol {
					continue
				}
				e.r.Count("policy_changes", 1)
				if !e.eventually(func() bool {
					cj := &batchv1.CronJob{}
					return e.c.Get(ctx0, types.NamespacedName{Namespace: ns, Name: "moco-backup-" + key.Name}, cj) == nil && cj.Spec.Schedule == sched
				}) {
					e.viol("R13", "a change of the backup policy does not reach the cluster", "%s %s: %s", key, pol, sched)
					return
				}
			}
			err := e.c.Delete(ctx0, &mocov1beta2.BackupPolicy{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: pol}})
			used := false
			for _, key := range e.cls {
				c := e.cluster(key)
				used = used || c.Namespace == ns && c.Spec.BackupPolicyName != nil && *c.Spec.BackupPolicyName == pol
			}
			if used && err == nil {
				e.viol("R12", "an invalid policy_deletion is admitted", "%s/%s", ns, pol)
			}
			if err == nil {
				e.setPolicy(ns, pol, sched)
			}
			if !used && err != nil {
				e.viol("R12", "a valid policy_deletion is refused", "%s/%s: %v", ns, pol, err)
			}
		}
	}
	// the certificate is renewed
	for _, key := range e.cls {
		if !g.p(0.4) {
			continue
		}
		sec := &corev1.Secret{}
		must(e.c.Get(ctx0, types.NamespacedName{Namespace: SysNS, Name: "moco-agent-" + key.Namespace + "." + key.Name}, sec))
		v := fmt.Sprint(g.Int63())
		sec.Data["tls.crt"] = []byte(v)
		must(e.c.Update(ctx0, sec))
		if g.p(0.3) {
			u := &unstructured.Unstructured{}
			u.SetGroupVersionKind(certGVK)
			u.SetNamespace(SysNS)
			u.SetName(sec.Name)
			_ = e.c.Delete(ctx0, u)
		}
		e.touchCert(key)
		e.r.Count("cert_renewals", 1)
		if !e.eventually(func() bool {
			x := &corev1.Secret{}
			return e.c.Get(ctx0, types.NamespacedName{Namespace: key.Namespace, Name: "moco-" + key.Name + "-grpc"}, x) == nil && string(x.Data["tls.crt"]) == v
		}) {
			e.viol("R13", "a renewed certificate does not reach the cluster", "%s", key)
			return
		}
	}
	// edits of clusters
	for _, key := range e.cls {
		if !g.p(0.4) {
			continue
		}
		img := "mysql:" + fmt.Sprint(g.Intn(1000000))
		if !e.eventually(func() bool {
			c := e.cluster(key)
			c.Spec.PodTemplate.Spec.Containers[0].Image = &img
			return e.c.Update(ctx0, c) == nil
		}) {
			e.viol("R12", "a valid update is refused", "%s", key)
			return
		}
		e.r.Count("spec_changes", 1)
		if !e.eventually(func() bool {
			sts := &appsv1.StatefulSet{}
			return e.c.Get(ctx0, types.NamespacedName{Namespace: key.Namespace, Name: "moco-" + key.Name}, sts) == nil && image(sts, "mysqld") == img && e.settled(key, 0)
		}) {
			e.viol("R13", "a change of the spec does not reach the cluster", "%s", key)
			return
		}
	}
}

func image(sts *appsv1.StatefulSet, n string) string {
	for _, c := range sts.Spec.Template.Spec.Containers {
		if c.Name == n {
			return c.Image
		}
	}
	return ""
}

func (e *ev) put(o client.Object) error {
	if o.GetResourceVersion() == "" {
		return e.c.Create(ctx0, o)
	}
	return e.c.Update(ctx0, o)
}

func (e *ev) setPolicy(ns, name, sched string) {
	bp := &mocov1beta2.BackupPolicy{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}}
	must(client.IgnoreNotFound(e.c.Get(ctx0, client.ObjectKeyFromObject(bp), bp)))
	bp.Spec = conv[mocov1beta2.BackupPolicySpec](m{"schedule": sched, "jobConfig": e.job()})
	bp.Spec.ConcurrencyPolicy = batchv1.AllowConcurrent
	if err := e.put(bp); err != nil {
		e.viol("R12", "a valid policy is refused", "%v", err)
	}
}

// pods: the clustering is told about Pods that go away or are to be demoted, and
// protected Pods cannot be deleted.
func (e *ev) pods() {
	g := e.g
	for _, key := range e.cls {
		if !g.p(0.5) {
			continue
		}
		sts := &appsv1.StatefulSet{}
		if err := e.c.Get(ctx0, types.NamespacedName{Namespace: key.Namespace, Name: "moco-" + key.Name}, sts); err != nil {
			continue
		}
		e.n++
		p := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: key.Namespace, Name: fmt.Sprintf("moco-%s-%d", key.Name, e.n), Labels: sts.Spec.Template.Labels, Finalizers: []string{"verif/x"},
			OwnerReferences: []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: sts.Name, UID: sts.UID, Controller: ptr.To(true)}}},
			Spec: corev1.PodSpec{Containers: []corev1.Container{{Name: "mysqld", Image: "x"}}}}
		val := pick(g, "", "true", "true", "false")
		if val != "" {
			p.Annotations = map[string]string{"moco.cybozu.com/prevent-delete": val}
		}
		must(e.c.Create(ctx0, p))
		// the manager's cache knows the Pod and its StatefulSet
		before := e.mgr.n("nostart", key)
		upd := func(f func(*corev1.Pod)) {
			if !e.eventually(func() bool {
				if e.c.Get(ctx0, client.ObjectKeyFromObject(p), p) != nil {
					return false
				}
				f(p)
				return e.c.Update(ctx0, p) == nil
			}) {
				panic("the Pod cannot be updated")
			}
		}
		if g.p(0.5) {
			upd(func(p *corev1.Pod) {
				if p.Annotations == nil {
					p.Annotations = map[string]string{}
				}
				p.Annotations["moco.cybozu.com/demote"] = "true"
			})
			e.r.Count("demotions", 1)
			if !e.eventually(func() bool { return e.mgr.n("nostart", key) > before }) {
				e.viol("R13", "the clustering is not told about a Pod to be demoted", "%s", p.Name)
			}
			upd(func(p *corev1.Pod) { delete(p.Annotations, "moco.cybozu.com/demote") })
			time.Sleep(200 * time.Millisecond)
			before = e.mgr.n("nostart", key)
		}
		err := e.c.Delete(ctx0, p, client.GracePeriodSeconds(0))
		if val == "true" {
			e.r.Count("protected_deletions", 1)
			if err == nil {
				e.viol("R12", "a protected Pod is deleted", "%s", p.Name)
			} else if !apierrors.IsInvalid(err) && !apierrors.IsForbidden(err) {
				panic(err)
			}
			upd(func(p *corev1.Pod) { delete(p.Annotations, "moco.cybozu.com/prevent-delete") })
			err = e.c.Delete(ctx0, p, client.GracePeriodSeconds(0))
		}
		if err != nil {
			e.viol("R12", "the deletion of an unprotected Pod is refused", "%s: %v", p.Name, err)
		}
		e.r.Count("pod_deletions_told", 1)
		if !e.eventually(func() bool { return e.mgr.n("nostart", key) > before }) {
			e.viol("R13", "the clustering is not told about a Pod that is going away", "%s", p.Name)
		}
		upd(func(p *corev1.Pod) { p.Finalizers = nil })
	}
}

// schema: what the API server must refuse by itself or through the webhooks.
func (e *ev) schema() {
	bad := map[string]func(m){
		"replicas":        func(s m) { s["replicas"] = 2 },
		"maxDelaySeconds": func(s m) { s["maxDelaySeconds"] = -1 },
		"maxDelayDelete":  func(s m) { s["maxDelaySecondsForPodDeletion"] = -1 },
		"startupWait":     func(s m) { s["startupWaitSeconds"] = -1 },
		"noVolumes":       func(s m) { s["volumeClaimTemplates"] = l{} },
		"noMysqld":        func(s m) { s["podTemplate"].(m)["spec"].(m)["containers"].(l)[0].(m)["name"] = "x" },
		"overwrite":       func(s m) { s["podTemplate"].(m)["overwriteContainers"] = l{m{"name": "mysqld"}} },
		"schedule":        func(s m) { s["logRotationSchedule"] = "x" },
	}
	for _, k := range vlib.Keys(bad) {
		s := e.spec("", "", false)
		bad[k](s)
		e.r.Count("refusals", 1)
		if err := e.c.Create(ctx0, &unstructured.Unstructured{Object: mcObj("n1", "bad", clone(s), nil)}, client.DryRunAll); err == nil {
			e.viol("R12", "an invalid creation is admitted", "by the API server: %s", k)
		}
	}
	for range 40 {
		for _, o := range []m{
			mcObj("n1", "kept", conv[m](e.g.spec(nil, nil)), nil),
			{"apiVersion": "moco.cybozu.com/v1beta2", "kind": "BackupPolicy", "metadata": m{"namespace": "n1", "name": "kept"}, "spec": conv[m](e.g.policy())},
		} {
			o = clone(o)
			u := &unstructured.Unstructured{Object: clone(o)}
			if err := e.c.Create(ctx0, u, client.DryRunAll); err != nil {
				e.r.Count("dry_refused", 1)
				e.r.Sig("dry-run " + err.Error())
				continue
			}
			e.r.Count("stored_whole", 1)
			if x := lost("spec", o["spec"], u.Object["spec"]); x != "" {
				e.viol("R12", "the API server does not keep what the user wrote", "%v: %s", o["kind"], x)
			}
		}
	}
	if len(e.cls) > 0 {
		c := e.cluster(e.cls[0])
		c.Spec.ReplicationSourceSecretName = ptr.To("x")
		if e.c.Update(ctx0, c, client.DryRunAll) == nil {
			e.viol("R12", "an invalid update is admitted", "by the API server: replication source")
		}
	}
}

// lost is what of a is not in b: defaults may have been added and quantities rewritten.
func lost(at string, a, b any) string {
	switch x := a.(type) {
	case nil:
		return ""
	case m:
		y, ok := b.(m)
		if !ok && len(x) > 0 {
			return fmt.Sprintf("%s: %v became %v", at, a, b)
		}
		for _, k := range vlib.Keys(x) {
			if r := lost(at+"."+k, x[k], y[k]); r != "" {
				return r
			}
		}
		return ""
	case l:
		y, _ := b.(l)
		if len(x) != len(y) {
			return fmt.Sprintf("%s: %v became %v", at, a, b)
		}
		for k := range x {
			if r := lost(fmt.Sprintf("%s[%d]", at, k), x[k], y[k]); r != "" {
				return r
			}
		}
		return ""
	}
	s, t := fmt.Sprint(a), fmt.Sprint(b)
	if s == t || b == nil && (s == "" || s == "0" || s == "false") {
		return ""
	}
	if p, err := resource.ParseQuantity(s); err == nil && b != nil {
		if q, err := resource.ParseQuantity(t); err == nil && p.Cmp(q) == 0 {
			return ""
		}
	}
	if p, err := time.Parse(time.RFC3339, s); err == nil {
		if q, err := time.Parse(time.RFC3339, t); err == nil && p.Equal(q) {
			return ""
		}
	}
	if p, err := time.ParseDuration(s); err == nil {
		if q, err := time.ParseDuration(t); err == nil && p == q {
			return ""
		}
	}
	return fmt.Sprintf("%s: %v became %v", at, a, b)
}

// remove deletes a cluster and waits until it and what is not owned is gone.
func (e *ev) remove() {
	if len(e.cls) == 0 {
		return
	}
	i := e.g.Intn(len(e.cls))
	key := e.cls[i]
	e.cls = append(append([]types.NamespacedName{}, e.cls[:i]...), e.cls[i+1:]...)
	must(e.c.Delete(ctx0, e.cluster(key)))
	e.r.Count("cluster_deletions", 1)
	if !e.eventually(func() bool { return apierrors.IsNotFound(e.c.Get(ctx0, key, &mocov1beta2.MySQLCluster{})) }) {
		e.viol("R13", "a deleted cluster is not finalized", "%s", key)
		return
	}
	if e.mgr.n("stop", key) == 0 {
		e.viol("R13", "the clustering of a deleted cluster is not stopped", "%s", key)
	}
	u := &unstructured.Unstructured{}
	u.SetGroupVersionKind(certGVK)
	if err := e.c.Get(ctx0, types.NamespacedName{Namespace: SysNS, Name: "moco-agent-" + key.Namespace + "." + key.Name}, u); !apierrors.IsNotFound(err) {
		e.viol("R13", "the certificate of a deleted cluster is left", "%s %v", key, err)
	}
}

func runEv(g gen, rep *vlib.Report, budget time.Duration, cs string) {
	t0 := time.Now()
	e := startEv(g, rep)
	defer e.close()
	e.cs = cs
	for _, ns := range []string{"n1", "n2"} {
		for _, p := range []string{"pol-a", "pol-b"} {
			e.setPolicy(ns, p, "0 0 * * *")
		}
		for _, n := range []string{"conf-a", "conf-b"} {
			must(e.c.Create(ctx0, &corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: n}, Data: map[string]string{"max_connections": "99"}}))
		}
	}
	// the policy becomes effective asynchronously
	e.addCluster("n1", "conf-a", "pol-a", false)
	e.addCluster("n2", "conf-a", "", false)
	e.addCluster("n1", "conf-b", "pol-a", true)
	e.addCluster("n2", "", "pol-b", false)
	for k := 0; time.Since(t0) < budget && !rep.Violated(); k++ {
		rep.Begin(cs)
		switch k % 6 {
		case 0, 3:
			for range 4 {
				e.tamper()
			}
		case 1:
			e.inputs()
		case 2:
			e.pods()
		case 4:
			e.schema()
		case 5:
			e.remove()
			e.addCluster(pick(g, "n1", "n2"), pick(g, "conf-a", "conf-b", ""), pick(g, "pol-a", "pol-b", ""), g.p(0.3))
		}
		rep.Eval(fmt.Sprint(cs, k))
	}
}
