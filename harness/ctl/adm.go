package ctl

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	jsonpatch "gopkg.in/evanphx/json-patch.v4"
	admissionv1 "k8s.io/api/admission/v1"
	appsv1 "k8s.io/api/apps/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/rest"
	"k8s.io/utils/ptr"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/manager"
	"sigs.k8s.io/controller-runtime/pkg/webhook"
	"sigs.k8s.io/controller-runtime/pkg/webhook/admission"
	"sigs.k8s.io/controller-runtime/pkg/webhook/conversion"

	"verifharness/vlib"
)

// admMgr is as much of a manager as the setup of the webhooks needs.
type admMgr struct {
	manager.Manager
	reader client.Reader
	srv    *admServer
	reg    conversion.Registry
}

func (m *admMgr) GetAPIReader() client.Reader               { return m.reader }
func (m *admMgr) GetClient() client.Client                  { return m.reader.(client.Client) }
func (m *admMgr) GetScheme() *runtime.Scheme                { return theScheme }
func (m *admMgr) GetConfig() *rest.Config                   { return &rest.Config{} }
func (m *admMgr) GetWebhookServer() webhook.Server          { return m.srv }
func (m *admMgr) GetConverterRegistry() conversion.Registry { return m.reg }

type admServer struct {
	webhook.Server
	hooks map[string]*admission.Webhook
	mux   *http.ServeMux
}

func (s *admServer) Register(path string, h http.Handler) {
	if w, ok := h.(*admission.Webhook); ok {
		s.hooks[path] = w
	}
}
func (s *admServer) WebhookMux() *http.ServeMux { return s.mux }

// adm checks the admission of one generated world.
type adm struct {
	g   gen
	r   *vlib.Report
	srv *admServer
	cs  string
	scs map[string]*storagev1.StorageClass
}

func (a *adm) viol(rule, f string, x ...any) {
	a.r.Violate("R12", rule, fmt.Sprintf(f, x...), a.cs, "", "R12:"+rule)
}

func (a *adm) count(k string) { a.r.Count(k, 1) }

func rawOf(o any) runtime.RawExtension {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return runtime.RawExtension{Raw: b}
}

// send passes the object through the webhooks the way the API server does.
func (a *adm) send(kind, path string, op admissionv1.Operation, ns, name string, obj, old any) (bool, string, []byte) {
	w := a.srv.hooks[path]
	if w == nil {
		a.viol("a webhook is not registered", "%s", path)
		return true, "", nil
	}
	req := admission.Request{AdmissionRequest: admissionv1.AdmissionRequest{
		UID: types.UID(fmt.Sprint(a.g.Int63())), Operation: op, Namespace: ns, Name: name,
		Kind: metav1.GroupVersionKind{Group: "moco.cybozu.com", Version: "v1beta2", Kind: kind},
	}}
	if kind == "StatefulSet" {
		req.Kind = metav1.GroupVersionKind{Group: "apps", Version: "v1", Kind: kind}
	}
	var raw []byte
	if obj != nil {
		req.Object = rawOf(obj)
		raw = req.Object.Raw
	}
	if old != nil {
		req.OldObject = rawOf(old)
	}
	res := w.Handle(context.Background(), req)
	msg := ""
	if res.Result != nil {
		msg = res.Result.Message
	}
	if strings.Contains(msg, "panic") {
		a.viol("the webhook panics", "%s: %s\n%s", path, msg, raw)
	}
	if len(res.Patches) > 0 {
		p, err := json.Marshal(res.Patches)
		if err != nil {
			panic(err)
		}
		d, err := jsonpatch.DecodePatch(p)
		if err != nil {
			panic(err)
		}
		raw, err = d.Apply(raw)
		if err != nil {
			panic(err)
		}
	}
	return res.Allowed, msg, raw
}

var goodCron = []string{"* * * * *", "*/5 * * * *", "0 0 1 1 *", "@daily", "@hourly", "30 4 1 * *", "0 0 * * *", "@every 5m", "1-5,10 2 * * mon", "CRON_TZ=Asia/Tokyo 0 4 * * *", "5 4 * * SUN"}
var badCron = []string{"* * * *", "61 * * * *", "x", "* * * * * *", "@dayly", "*/0 * * * *", "5-1 * * * *", "* 24 * * *", "0 0 0 * *", " "}

func in(s string, l ...string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func str(x any) string { s, _ := x.(string); return s }
func lst(x any) l      { s, _ := x.(l); return s }
func sub(x any, ks ...string) m {
	r, _ := x.(m)
	for _, k := range ks {
		r, _ = r[k].(m)
	}
	return r
}
func num(x any) int64 {
	switch v := x.(type) {
	case int:
		return int64(v)
	case int64:
		return v
	case float64:
		return int64(v)
	}
	return 0
}

// wrong says why a spec must not be admitted.
func wrong(name string, s m, create bool) (r []string) {
	if create && len(name) > 40 {
		r = append(r, "name")
	}
	data := false
	for _, v := range lst(s["volumeClaimTemplates"]) {
		data = data || str(sub(v, "metadata")["name"]) == "mysql-data"
		if _, ok := sub(v, "spec", "resources", "requests")["storage"]; !ok {
			r = append(r, "storage request")
		}
	}
	if !data {
		r = append(r, "mysql-data")
	}
	if num(s["serverIDBase"]) <= 0 {
		r = append(r, "serverIDBase")
	}
	if c := str(s["logRotationSchedule"]); c != "" && !in(c, goodCron...) {
		r = append(r, "logRotationSchedule")
	}
	if num(s["logRotationSize"]) < 0 {
		r = append(r, "logRotationSize")
	}
	if n := num(s["replicas"]); n <= 0 || n%2 == 0 {
		r = append(r, "replicas")
	}
	ps := sub(s, "podTemplate", "spec")
	my := false
	for _, c := range lst(ps["containers"]) {
		n, ok := c.(m)["name"]
		if !ok {
			r = append(r, "container without name")
		}
		switch str(n) {
		case "mysqld":
			my = true
			for _, p := range lst(c.(m)["ports"]) {
				switch num(p.(m)["containerPort"]) {
				case 3306, 33060, 33062, 9081:
					r = append(r, "reserved port")
				}
				if in(str(p.(m)["name"]), "mysql", "mysqlx", "mysql-admin", "health") {
					r = append(r, "reserved port name")
				}
			}
		case "agent":
			r = append(r, "agent")
		case "slow-log":
			if s["disableSlowQueryLogContainer"] != true {
				r = append(r, "slow-log")
			}
		case "mysqld-exporter":
			if len(lst(s["collectors"])) > 0 {
				r = append(r, "mysqld-exporter")
			}
		}
	}
	if !my {
		r = append(r, "mysqld")
	}
	for _, c := range lst(ps["initContainers"]) {
		n, ok := c.(m)["name"]
		if !ok || in(str(n), "moco-init", "copy-moco-init") {
			r = append(r, "init container")
		}
	}
	for _, v := range lst(ps["volumes"]) {
		if in(str(v.(m)["name"]), "tmp", "run", "var-log", "mysql-conf", "mysql-conf-d", "my-cnf-secret", "slow-fluent-bit-config", "grpc-cert", "shared") {
			r = append(r, "volume")
		}
	}
	return r
}

// wrongUpdate says why an update must not be admitted.
func (a *adm) wrongUpdate(s, o m) (r []string) {
	if num(s["replicas"]) < num(o["replicas"]) {
		r = append(r, "fewer replicas")
	}
	if x := str(s["replicationSourceSecretName"]); x != "" && x != str(o["replicationSourceSecretName"]) {
		r = append(r, "replication source")
	}
	if !equality.Semantic.DeepEqual(conv[mocov1beta2.MySQLClusterSpec](s).Restore, conv[mocov1beta2.MySQLClusterSpec](o).Restore) {
		r = append(r, "restore")
	}
	size := func(v any) (resource.Quantity, bool) {
		x, ok := sub(v, "spec", "resources", "requests")["storage"]
		if !ok {
			return resource.Quantity{}, false
		}
		return resource.MustParse(str(x)), true
	}
	for _, v := range lst(s["volumeClaimTemplates"]) {
		for _, w := range lst(o["volumeClaimTemplates"]) {
			if str(sub(v, "metadata")["name"]) != str(sub(w, "metadata")["name"]) {
				continue
			}
			x, ok := size(v)
			y, ok2 := size(w)
			if !ok2 && ok {
				r = append(r, "?")
			}
			if !ok || !ok2 || x.Cmp(y) <= 0 {
				continue
			}
			a.count("expansions")
			n := str(sub(v, "spec")["storageClassName"])
			var sc *storagev1.StorageClass
			if n != "" {
				sc = a.scs[n]
			} else {
				for _, c := range a.scs {
					for _, k := range []string{"storageclass.kubernetes.io/is-default-class", "storageclass.beta.kubernetes.io/is-default-class"} {
						if c.Annotations[k] == "true" {
							sc = c
						}
					}
				}
			}
			if sc == nil || sc.AllowVolumeExpansion == nil || !*sc.AllowVolumeExpansion {
				r = append(r, "expansion of "+str(sub(v, "metadata")["name"]))
			}
		}
	}
	return r
}

// spoil makes a change that may make the spec unacceptable.
func (g gen) spoil(s m) string {
	ps := sub(s, "podTemplate", "spec")
	vs := lst(s["volumeClaimTemplates"])
	switch k := g.Intn(22); k {
	case 0:
		s["replicas"] = pick(g, 0, 2, 4, -1, -3, 1, 1, 3, 3, 5, 7, 9, 100, 101)
	case 1:
		s["serverIDBase"] = pick(g, -1, -100, 1, 2147483647, -2147483648)
	case 2:
		s["logRotationSchedule"] = pick(g, append(append([]string{}, goodCron...), badCron...)...)
	case 3:
		s["logRotationSize"] = pick(g, -1, -100, 0, 1)
	case 4, 5:
		n := pick(g, "agent", "slow-log", "mysqld-exporter", "moco-init", "agent2", "slow", "copy-moco-init")
		c := lst(ps["containers"])
		i := g.Intn(len(c) + 1)
		ps["containers"] = append(append(append(l{}, c[:i]...), m{"name": n, "image": "x"}), c[i:]...)
	case 6:
		c := lst(ps["containers"])
		c[g.Intn(len(c))].(m)["name"] = pick(g, "mysql", "db", "Mysqld", "mysqld2")
	case 7:
		c := lst(ps["containers"])
		delete(c[g.Intn(len(c))].(m), "name")
	case 8, 9:
		c := lst(ps["containers"])
		p := m{"containerPort": pick(g, 3306, 33060, 33062, 9081, 9080, 3307, 8080, 9104)}
		if g.p(0.6) {
			p["name"] = pick(g, "mysql", "mysqlx", "mysql-admin", "health", "healthz", "agent", "x")
		}
		x := c[g.Intn(len(c))].(m)
		ports := append(l{}, lst(x["ports"])...)
		i := g.Intn(len(ports) + 1)
		x["ports"] = append(append(append(l{}, ports[:i]...), p), ports[i:]...)
	case 10, 11:
		c := append(l{}, lst(ps["initContainers"])...)
		x := m{"name": pick(g, "moco-init", "copy-moco-init", "init", "agent", "mysqld"), "image": "y"}
		if g.p(0.2) {
			delete(x, "name")
		}
		i := g.Intn(len(c) + 1)
		ps["initContainers"] = append(append(append(l{}, c[:i]...), x), c[i:]...)
	case 12, 13:
		v := append(l{}, lst(ps["volumes"])...)
		x := m{"name": pick(g, "tmp", "run", "var-log", "mysql-conf", "mysql-conf-d", "my-cnf-secret", "slow-fluent-bit-config", "grpc-cert", "shared", "temp", "data"), "emptyDir": m{}}
		if g.p(0.1) {
			delete(x, "name")
		}
		i := g.Intn(len(v) + 1)
		ps["volumes"] = append(append(append(l{}, v[:i]...), x), v[i:]...)
	case 14:
		sub(vs[g.Intn(len(vs))], "metadata")["name"] = pick(g, "mysql_data", "data", "mysql-data2", "mysql-data")
	case 15:
		v := sub(vs[g.Intn(len(vs))], "spec")
		switch g.Intn(4) {
		case 0:
			delete(v, "resources")
		case 1:
			v["resources"] = m{}
		case 2:
			v["resources"] = m{"requests": m{}}
		case 3:
			v["resources"] = m{"requests": m{"cpu": "1"}, "limits": m{"storage": "1Gi"}}
		}
	case 16:
		if s["disableSlowQueryLogContainer"] == true {
			delete(s, "disableSlowQueryLogContainer")
		} else {
			s["disableSlowQueryLogContainer"] = true
		}
	case 17:
		if len(lst(s["collectors"])) > 0 {
			delete(s, "collectors")
		} else {
			s["collectors"] = l{"x"}
		}
	case 18:
		s["replicationSourceSecretName"] = pick(g, "src", "src2")
	case 19:
		delete(s, "replicationSourceSecretName")
	case 20:
		s["restore"] = m{"sourceName": g.word(), "sourceNamespace": "n", "restorePoint": "2026-01-02T03:04:05Z", "jobConfig": g.jobConfig()}
		if g.p(0.3) {
			delete(s, "restore")
		}
	case 21:
		v := vs[g.Intn(len(vs))]
		sub(v, "spec")["resources"] = m{"requests": m{"storage": pick(g, "1Gi", "1024Mi", "2Gi", "3Gi", "500Mi", "1073741825")}}
		if g.p(0.3) {
			sub(v, "spec")["storageClassName"] = pick(g, "fast", "slow", "other", "missing")
		}
	}
	return ""
}

func clone(x m) m { return conv[m](x) }

func runAdm(g gen, rep *vlib.Report, n int, cs string) {
	a := &adm{g: g, r: rep, cs: cs, scs: map[string]*storagev1.StorageClass{}}
	var objs []client.Object
	def := pick(g, "fast", "slow", "other", "")
	for _, k := range []string{"fast", "slow", "other"} {
		if k == "other" && g.p(0.5) {
			continue
		}
		sc := storageClass(k, pick(g, ptr.To(true), ptr.To(true), ptr.To(false), nil))
		sc.Annotations = map[string]string{"x": "y"}
		if k == def {
			sc.Annotations[pick(g, "storageclass.kubernetes.io/is-default-class", "storageclass.beta.kubernetes.io/is-default-class")] = "true"
		} else if g.p(0.3) {
			sc.Annotations["storageclass.kubernetes.io/is-default-class"] = "false"
		}
		a.scs[k] = sc
		objs = append(objs, sc)
	}
	// clusters that refer to policies
	refs := map[string]bool{}
	for i := range g.Intn(4) {
		ns, pol := pick(g, "n1", "n2"), pick(g, "p1", "p2", "p3")
		c := newCluster(ns, fmt.Sprintf("c%d", i), fmt.Sprint(i), m{"backupPolicyName": pol})
		if g.p(0.3) {
			c.Spec.BackupPolicyName = nil
		} else {
			refs[ns+"/"+pol] = true
		}
		objs = append(objs, c)
	}
	cl := fake.NewClientBuilder().WithScheme(theScheme).WithObjects(objs...).Build()
	a.srv = &admServer{hooks: map[string]*admission.Webhook{}, mux: http.NewServeMux()}
	mgr := &admMgr{reader: cl, srv: a.srv, reg: conversion.NewRegistry()}
	for _, f := range []func() error{
		func() error { return (&mocov1beta2.MySQLCluster{}).SetupWebhookWithManager(mgr) },
		func() error { return (&mocov1beta2.BackupPolicy{}).SetupWebhookWithManager(mgr) },
		func() error { return mocov1beta2.SetupStatefulSetWebhookWithManager(mgr) },
	} {
		if err := f(); err != nil {
			panic(err)
		}
	}
	for range n {
		switch g.Intn(8) {
		case 0, 1, 2:
			a.create()
		case 3, 4, 5:
			a.update()
		case 6:
			a.policy(refs)
		case 7:
			a.sts()
		}
	}
}

const (
	mutMC  = "/mutate-moco-cybozu-com-v1beta2-mysqlcluster"
	valMC  = "/validate-moco-cybozu-com-v1beta2-mysqlcluster"
	valBP  = "/validate-moco-cybozu-com-v1beta2-backuppolicy"
	mutSTS = "/mutate-apps-v1-statefulset"
)

func mcObj(ns, name string, spec m, md m) m {
	x := m{"name": name, "namespace": ns, "creationTimestamp": nil}
	for k, v := range md {
		x[k] = v
	}
	return m{"apiVersion": "moco.cybozu.com/v1beta2", "kind": "MySQLCluster", "metadata": x, "spec": spec}
}

func (a *adm) create() {
	g := a.g
	s := clone(g.spec([]string{"c"}, []string{"p"}))
	for range g.Intn(3) {
		g.spoil(s)
	}
	zero := g.p(0.3)
	if zero {
		delete(s, "serverIDBase")
	}
	name := pick(g, "a", "test", "abc", "x-y", "moco", strings.Repeat("n", 40), strings.Repeat("n", 40), strings.Repeat("n", 41), strings.Repeat("n", 52))
	md := m{}
	if g.p(0.3) {
		md["finalizers"] = l{"other/f"}
	}
	obj := mcObj("n1", name, s, md)
	ok, msg, raw := a.send("MySQLCluster", mutMC, admissionv1.Create, "n1", name, obj, nil)
	if !ok {
		a.viol("the defaulting of a new cluster fails", "%s: %s", name, msg)
		return
	}
	var out m
	if err := json.Unmarshal(raw, &out); err != nil {
		panic(err)
	}
	fin := fmt.Sprint(sub(out, "metadata")["finalizers"])
	if !strings.Contains(fin, "moco.cybozu.com/mysqlcluster") || (md["finalizers"] != nil && !strings.Contains(fin, "other/f")) {
		a.viol("a new cluster does not get the finalizer", "%s: %s", name, fin)
	}
	base := num(sub(out, "spec")["serverIDBase"])
	if zero {
		a.count("server_ids_drawn")
		if base <= 0 || base > 2147483647-1000 {
			a.viol("the server-id base is not positive", "%d", base)
		}
		a.r.Sig(fmt.Sprint("id", base))
	} else if base != num(s["serverIDBase"]) {
		a.viol("the server-id base the user gave is changed", "%v -> %d", s["serverIDBase"], base)
	}
	// nothing else is changed
	want := clone(obj)
	want["metadata"].(m)["finalizers"] = sub(out, "metadata")["finalizers"]
	want["spec"].(m)["serverIDBase"] = sub(out, "spec")["serverIDBase"]
	if x, y := conv[mocov1beta2.MySQLCluster](want), conv[mocov1beta2.MySQLCluster](out); !equality.Semantic.DeepEqual(x, y) {
		a.viol("the defaulting of a new cluster changes more", "%s", raw)
	}
	w := wrong(name, out["spec"].(m), true)
	ok, msg, _ = a.send("MySQLCluster", valMC, admissionv1.Create, "n1", name, out, nil)
	a.judge("creation", ok, msg, w, out["spec"].(m), nil)
}

func (a *adm) judge(what string, ok bool, msg string, w []string, s, o m) {
	if in("?", w...) {
		return
	}
	a.count(what)
	if len(w) > 0 {
		a.count(what + "_refused")
		a.count("why_" + strings.ReplaceAll(strings.Fields(w[0])[0], "-", "_"))
	}
	if ok && len(w) > 0 {
		a.viol("an invalid "+what+" is admitted", "%v\n%s\nold: %s", w, rawOf(s).Raw, rawOf(o).Raw)
	}
	if !ok && len(w) == 0 {
		a.viol("a valid "+what+" is refused", "%s\n%s\nold: %s", msg, rawOf(s).Raw, rawOf(o).Raw)
	}
}

func (a *adm) update() {
	g := a.g
	o := clone(g.spec([]string{"c"}, []string{"p"}))
	if g.p(0.3) {
		o["replicationSourceSecretName"] = pick(g, "src", "src2")
	}
	if g.p(0.05) {
		g.spoil(o) // what is there may be from an older version
	}
	s := clone(o)
	if g.p(0.5) && len(wrong("a", s, false)) == 0 {
		n, _ := g.edit(s, []string{"c"}, []string{"p"})
		s = clone(n)
	}
	if g.p(0.15) {
		s["replicas"] = pick(g, 1, 3, 5)
	}
	if g.p(0.2) {
		o["offline"] = g.p(0.5)
	}
	if g.p(0.3) {
		s["offline"] = g.p(0.6)
	}
	if g.p(0.2) {
		// several volumes at once, of several classes
		for len(lst(o["volumeClaimTemplates"])) < 2+g.Intn(2) && g.p(0.8) {
			n := m{"metadata": m{"name": "more-" + fmt.Sprint(len(lst(o["volumeClaimTemplates"])))}, "spec": m{"accessModes": l{"ReadWriteOnce"}, "resources": m{"requests": m{"storage": "3Gi"}}}}
			o["volumeClaimTemplates"] = append(lst(o["volumeClaimTemplates"]), clone(n))
			s["volumeClaimTemplates"] = append(lst(s["volumeClaimTemplates"]), clone(n))
		}
		for _, v := range lst(s["volumeClaimTemplates"]) {
			if sc := pick(g, "", "fast", "slow", "other"); sc != "" {
				sub(v, "spec")["storageClassName"] = sc
			}
			if rq := sub(v, "spec", "resources", "requests"); rq != nil {
				rq["storage"] = pick(g, "1Gi", "3Gi", "5Gi", "7Gi", "100Gi")
			}
		}
	}
	for range g.Intn(3) {
		if g.p(0.6) {
			g.spoil(s)
		}
	}
	for _, x := range []m{s, o} {
		seen := map[string]bool{}
		for _, v := range lst(x["volumeClaimTemplates"]) {
			n := str(sub(v, "metadata")["name"])
			if seen[n] {
				return
			}
			seen[n] = true
		}
	}
	name := pick(g, "a", strings.Repeat("n", 41))
	fin := m{"finalizers": l{"moco.cybozu.com/mysqlcluster"}}
	w := append(a.wrongUpdate(s, o), wrong(name, s, false)...)
	ok, msg, _ := a.send("MySQLCluster", valMC, admissionv1.Update, "n1", name, mcObj("n1", name, s, fin), mcObj("n1", name, o, fin))
	a.judge("update", ok, msg, w, s, o)
}

func (a *adm) policy(refs map[string]bool) {
	g := a.g
	ns, name := pick(g, "n1", "n2"), pick(g, "p1", "p2", "p3")
	p := clone(conv[m](g.policy()))
	p["schedule"] = pick(g, append(append([]string{""}, goodCron...), badCron...)...)
	obj := m{"apiVersion": "moco.cybozu.com/v1beta2", "kind": "BackupPolicy", "metadata": m{"name": name, "namespace": ns}, "spec": p}
	var w []string
	if !in(str(p["schedule"]), goodCron...) {
		w = []string{"schedule"}
	}
	switch g.Intn(3) {
	case 0:
		ok, msg, _ := a.send("BackupPolicy", valBP, admissionv1.Create, ns, name, obj, nil)
		a.judge("policy_creation", ok, msg, w, p, nil)
	case 1:
		old := clone(obj)
		old["spec"].(m)["schedule"] = pick(g, goodCron...)
		ok, msg, _ := a.send("BackupPolicy", valBP, admissionv1.Update, ns, name, obj, old)
		a.judge("policy_update", ok, msg, w, p, old["spec"].(m))
	case 2:
		w = nil
		if refs[ns+"/"+name] {
			w = []string{"referenced"}
		}
		ok, msg, _ := a.send("BackupPolicy", valBP, admissionv1.Delete, ns, name, nil, obj)
		a.judge("policy_deletion", ok, msg, w, p, m{"refs": fmt.Sprint(refs), "key": ns + "/" + name})
	}
}

func (a *adm) sts() {
	g := a.g
	owner := func(api, kind string) m {
		return m{"apiVersion": api, "kind": kind, "name": "x", "uid": "u", "controller": true}
	}
	own := owner("moco.cybozu.com/v1beta2", "MySQLCluster")
	owners := pick(g, l{own}, l{own}, l{own}, l{}, l{owner("other.io/v1", "MySQLCluster")}, l{owner("moco.cybozu.com/v1beta2", "Other")}, l{owner("apps/v1", "Deployment")}, l{owner("mysql.oracle.com/v2", "InnoDBCluster")})
	mine := len(owners) == 1 && equality.Semantic.DeepEqual(owners[0], own)
	tmpl := func(img string) m {
		return m{"metadata": m{"labels": m{"a": "b"}}, "spec": m{"containers": l{m{"name": "c", "image": img}}}}
	}
	mk := func(force bool) m {
		n := pick(g, 1, 3, 5)
		us := m{"type": "RollingUpdate"}
		if g.p(0.7) {
			us["rollingUpdate"] = m{"partition": g.Intn(n + 1)}
		}
		x := m{"apiVersion": "apps/v1", "kind": "StatefulSet", "metadata": m{"name": "moco-x", "namespace": "n1", "ownerReferences": owners, "creationTimestamp": nil},
			"spec": m{"replicas": n, "selector": m{"matchLabels": m{"a": "b"}}, "serviceName": "moco-x", "template": tmpl("i:1"), "updateStrategy": us}}
		if force {
			x["metadata"].(m)["annotations"] = m{"moco.cybozu.com/force-rolling-update": "true"}
			if mine {
				delete(us, "rollingUpdate")
			}
		} else if g.p(0.2) {
			x["metadata"].(m)["annotations"] = m{"moco.cybozu.com/force-rolling-update": "false"}
		}
		return x
	}
	var old m
	op := admissionv1.Create
	neu := clone(mk(g.p(0.2)))
	forced := sub(neu, "metadata", "annotations")["moco.cybozu.com/force-rolling-update"] == "true"
	specChanged := true
	if g.p(0.7) {
		op = admissionv1.Update
		old = clone(mk(g.p(0.2)))
		us := neu["spec"].(m)["updateStrategy"]
		neu["spec"] = clone(old["spec"].(m))
		neu["spec"].(m)["updateStrategy"] = us
		specChanged = g.p(0.5)
		if specChanged {
			switch g.Intn(3) {
			case 0:
				neu["spec"].(m)["template"] = tmpl("i:2")
			case 1:
				neu["spec"].(m)["replicas"] = num(old["spec"].(m)["replicas"]) + 2
			case 2:
				neu["spec"].(m)["template"].(m)["metadata"] = m{"labels": m{"a": "b"}, "annotations": m{"x": "y"}}
			}
		}
	}
	var o any
	if old != nil {
		o = old
	}
	ok, msg, raw := a.send("StatefulSet", mutSTS, op, "n1", "moco-x", neu, o)
	if !ok {
		a.viol("a StatefulSet is refused", "%s\n%s\nold: %s", msg, rawOf(neu).Raw, rawOf(old).Raw)
		return
	}
	var x, y appsv1.StatefulSet
	for _, p := range []struct {
		b []byte
		s *appsv1.StatefulSet
	}{{rawOf(neu).Raw, &x}, {raw, &y}} {
		if err := json.NewDecoder(bytes.NewReader(p.b)).Decode(p.s); err != nil {
			panic(err)
		}
	}
	if !mine {
		a.count("foreign_statefulsets")
		if !equality.Semantic.DeepEqual(x, y) {
			a.r.Violate("R02", "a StatefulSet of someone else is changed", fmt.Sprintf("%s\n-> %s", rawOf(neu).Raw, raw), a.cs, "", "R02:sts")
			a.viol("a StatefulSet of someone else is changed", "%s\n-> %s", rawOf(neu).Raw, raw)
		}
		return
	}
	a.count("own_statefulsets")
	z, w := x.DeepCopy(), y.DeepCopy()
	z.Spec.UpdateStrategy.RollingUpdate, w.Spec.UpdateStrategy.RollingUpdate = nil, nil
	if !equality.Semantic.DeepEqual(z, w) {
		a.viol("more than the partition of a StatefulSet is changed", "%s\n-> %s", rawOf(neu).Raw, raw)
	}
	p := -1
	if y.Spec.UpdateStrategy.RollingUpdate != nil && y.Spec.UpdateStrategy.RollingUpdate.Partition != nil {
		p = int(*y.Spec.UpdateStrategy.RollingUpdate.Partition)
	}
	switch {
	case forced:
		a.count("forced_statefulsets")
		if p > 0 {
			a.viol("a forced update is held back by the partition", "%s\n-> %s", rawOf(neu).Raw, raw)
		}
	case op == admissionv1.Update && specChanged:
		a.count("changed_statefulsets")
		if p != int(*y.Spec.Replicas) {
			a.viol("a change of a StatefulSet is not held back by the partition", "%s\n-> %s", rawOf(neu).Raw, raw)
		}
	case op == admissionv1.Update && old != nil:
		was := sub(old, "spec", "updateStrategy", "rollingUpdate")
		now := sub(neu, "spec", "updateStrategy", "rollingUpdate")
		if was != nil && now != nil && num(was["partition"]) != num(now["partition"]) {
			a.count("moved_partitions")
			if p != int(num(now["partition"])) {
				a.viol("the partition cannot be moved", "%s\n-> %s", rawOf(neu).Raw, raw)
			}
		}
	}
}
