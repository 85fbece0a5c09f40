package ctl

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/prometheus/client_golang/prometheus"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/util/intstr"
	"k8s.io/utils/ptr"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"verifharness/vlib"
)

func init() { metrics.Register(prometheus.NewRegistry()) }

// cl is what the scenario knows of a cluster.
type cl struct {
	ns, name string
	key      types.NamespacedName
	uid      string
	spec     m
	gen      int64
	ann      map[string]string
	deleting bool
	gone     bool

	// credentials first seen in the controller's Secret
	creds   map[string]string
	stopped bool // Stop seen in the running reconciliation
	running bool // the manager was told to run the cluster
	// edits of the volume size since the StatefulSet was settled
	restored bool
	lastOK   bool
	synced   bool
}

type scn struct {
	w       *World
	g       gen
	r       *vlib.Report
	cs      string
	prof    string
	cl      []*cl
	conf    map[string]map[string]string // ns/name -> my.cnf ConfigMap of the user
	pol     map[string]mocov1beta2.BackupPolicySpec
	cur     *cl
	cnt     map[string]int
	acts    []string
	foreign map[string]string
	nviol   int
	agent   string
	fluent  string
	faulted bool
	staled  bool // caches have been behind
	imaged  bool
	confs2  map[string]string
	extraCM int
	cmGone  []*Op // my.cnf deleted in this reconciliation
}

func (s *scn) viol(prop, rule, f string, a ...any) {
	s.nviol++
	if s.nviol > 30 {
		return
	}
	s.w.logf("!! %s %s: %s", prop, rule, fmt.Sprintf(f, a...))
	s.r.Violate(prop, rule, fmt.Sprintf(f, a...), s.cs, strings.Join(s.w.Log, "\n"), "")
}

func (s *scn) count(k string) { s.cnt[k]++; s.r.Count(k, 1) }

var gvkCert = schema.GroupVersionKind{Group: "cert-manager.io", Version: "v1", Kind: "Certificate"}

func certOf(c *cl) *unstructured.Unstructured {
	u := &unstructured.Unstructured{}
	u.SetGroupVersionKind(gvkCert)
	u.SetNamespace(SysNS)
	u.SetName("moco-agent-" + c.ns + "." + c.name)
	return u
}

func (s *scn) names(ns string, set map[string]bool) []string {
	var r []string
	for k := range set {
		if a, b, _ := strings.Cut(k, "/"); a == ns {
			r = append(r, b)
		}
	}
	sort.Strings(r)
	return r
}

func (s *scn) confs(ns string) []string {
	set := map[string]bool{}
	for k := range s.conf {
		set[k] = true
	}
	return s.names(ns, set)
}

func (s *scn) pols(ns string) []string {
	set := map[string]bool{}
	for k := range s.pol {
		set[k] = true
	}
	return s.names(ns, set)
}

// setup makes the users' objects and the clusters.
func (s *scn) setup(n int) {
	w, g := s.w, s.g
	w.put(storageClass("fast", ptr.To(true)))
	w.put(storageClass("slow", nil))
	w.put(storageClass("never", ptr.To(false)))
	w.put(storageClass("std", ptr.To(true)))
	for _, ns := range []string{"ns1", "ns2"} {
		for i := range 2 {
			k := fmt.Sprintf("%s/conf%d", ns, i)
			s.conf[k] = g.userConf()
			w.put(&corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: fmt.Sprintf("conf%d", i)}, Data: s.conf[k]})
			k = fmt.Sprintf("%s/pol%d", ns, i)
			s.pol[k] = g.policy()
			bp := &mocov1beta2.BackupPolicy{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: fmt.Sprintf("pol%d", i)}, Spec: s.pol[k]}
			w.put(bp)
		}
	}
	sets := [][]string{{"ns1/test", "ns1/test2", "ns2/test"}, {"ns1/a", "ns1/ab", "ns1/a-b"}, {"ns1/test", "ns1/test-1", "ns2/test-1"}, {"ns1/x", "ns2/x", "ns2/xx"}}
	set := sets[g.Intn(len(sets))]
	if n < len(set) {
		p := g.Perm(len(set))[:n]
		sort.Ints(p)
		x := []string{}
		for _, i := range p {
			x = append(x, set[i])
		}
		set = x
	}
	for i, k := range set {
		ns, name, _ := strings.Cut(k, "/")
		s.addCluster(ns, name, fmt.Sprintf("c-%d", i))
	}
	// objects of others whose names are close to those of the clusters
	for _, c := range s.cl {
		for _, nm := range []string{"moco-slow-log-agent-config-" + c.name + "z.0123abcd", "moco-" + c.name + "z.0123abcd", "moco-slow-log-agent-config-" + c.name + "-9", c.name, "mysql-" + c.name} {
			if _, ok := get(w, &corev1.ConfigMap{}, c.ns, nm); !ok {
				w.put(&corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: c.ns, Name: nm, Labels: map[string]string{"app.kubernetes.io/created-by": "moco", "app.kubernetes.io/instance": c.name + "z"}}, Data: map[string]string{"my.cnf": "x"}})
			}
		}
		for _, nm := range []string{"mysql-" + c.ns + "." + c.name + "z", "mysql-" + c.ns + "z." + c.name, "moco-agent-" + c.ns + "." + c.name + "z"} {
			if _, ok := get(w, &corev1.Secret{}, SysNS, nm); !ok {
				w.put(&corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: SysNS, Name: nm}, Data: map[string][]byte{"x": []byte("y")}})
			}
		}
		for _, nm := range []string{"mysql-data-moco-" + c.name + "-x-0", "data-moco-" + c.name + "-0", "mysql-data-moco-" + c.name + "z-0"} {
			if _, ok := get(w, &corev1.PersistentVolumeClaim{}, c.ns, nm); !ok {
				p := &corev1.PersistentVolumeClaim{ObjectMeta: metav1.ObjectMeta{Namespace: c.ns, Name: nm, Labels: map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": c.name + "z", "app.kubernetes.io/created-by": "moco"}}}
				p.Spec.Resources.Requests = corev1.ResourceList{"storage": resource.MustParse("1Gi")}
				p.Spec.StorageClassName = ptr.To("fast")
				w.put(p)
			}
		}
	}
	s.foreign = map[string]string{}
	for _, o := range s.all() {
		if s.isForeign(o) {
			s.foreign[okey(o)] = o.GetResourceVersion()
		}
	}
	w.onOp = s.onOp
}

func okey(o client.Object) string {
	return fmt.Sprintf("%s %s/%s", strings.TrimPrefix(fmt.Sprintf("%T", o), "*"), o.GetNamespace(), o.GetName())
}

func (s *scn) isForeign(o client.Object) bool {
	switch o.(type) {
	case *mocov1beta2.MySQLCluster, *mocov1beta2.BackupPolicy:
		return false
	}
	if strings.HasPrefix(o.GetName(), "conf") {
		return false
	}
	return true
}

func (s *scn) addCluster(ns, name, uid string) *cl {
	c := &cl{ns: ns, name: name, key: types.NamespacedName{Namespace: ns, Name: name}, uid: uid, gen: 1, ann: map[string]string{}}
	c.spec = conv[m](s.g.spec(s.confs(ns), s.pols(ns)))
	s.fixSpec(c)
	s.w.put(newCluster(ns, name, uid, c.spec))
	s.cl = append(s.cl, c)
	return c
}

// fixSpec reads the spec back as the API server would store it.
func (s *scn) fixSpec(c *cl) { c.spec = conv[m](conv[mocov1beta2.MySQLClusterSpec](c.spec)) }

// all lists every object of the API server.
func (s *scn) all() []client.Object { return s.w.all() }

func (w *World) all() []client.Object {
	var r []client.Object
	ctx := context.Background()
	add := func(l client.ObjectList, each func()) {
		if err := w.base.List(ctx, l); err != nil {
			panic(err)
		}
		each()
	}
	var cms corev1.ConfigMapList
	add(&cms, func() {
		for i := range cms.Items {
			r = append(r, &cms.Items[i])
		}
	})
	var secs corev1.SecretList
	add(&secs, func() {
		for i := range secs.Items {
			r = append(r, &secs.Items[i])
		}
	})
	var svcs corev1.ServiceList
	add(&svcs, func() {
		for i := range svcs.Items {
			r = append(r, &svcs.Items[i])
		}
	})
	var sas corev1.ServiceAccountList
	add(&sas, func() {
		for i := range sas.Items {
			r = append(r, &sas.Items[i])
		}
	})
	var stss appsv1.StatefulSetList
	add(&stss, func() {
		for i := range stss.Items {
			r = append(r, &stss.Items[i])
		}
	})
	var pdbs policyv1.PodDisruptionBudgetList
	add(&pdbs, func() {
		for i := range pdbs.Items {
			r = append(r, &pdbs.Items[i])
		}
	})
	var cjs batchv1.CronJobList
	add(&cjs, func() {
		for i := range cjs.Items {
			r = append(r, &cjs.Items[i])
		}
	})
	var jobs batchv1.JobList
	add(&jobs, func() {
		for i := range jobs.Items {
			r = append(r, &jobs.Items[i])
		}
	})
	var roles rbacv1.RoleList
	add(&roles, func() {
		for i := range roles.Items {
			r = append(r, &roles.Items[i])
		}
	})
	var rbs rbacv1.RoleBindingList
	add(&rbs, func() {
		for i := range rbs.Items {
			r = append(r, &rbs.Items[i])
		}
	})
	var pvcs corev1.PersistentVolumeClaimList
	add(&pvcs, func() {
		for i := range pvcs.Items {
			r = append(r, &pvcs.Items[i])
		}
	})
	var mcs mocov1beta2.MySQLClusterList
	add(&mcs, func() {
		for i := range mcs.Items {
			r = append(r, &mcs.Items[i])
		}
	})
	var bps mocov1beta2.BackupPolicyList
	add(&bps, func() {
		for i := range bps.Items {
			r = append(r, &bps.Items[i])
		}
	})
	ul := &unstructured.UnstructuredList{}
	ul.SetGroupVersionKind(schema.GroupVersionKind{Group: gvkCert.Group, Version: "v1", Kind: "CertificateList"})
	if err := w.base.List(ctx, ul); err == nil {
		for i := range ul.Items {
			r = append(r, &ul.Items[i])
		}
	}
	return r
}

func (s *scn) live() []*cl {
	var r []*cl
	for _, c := range s.cl {
		if !c.gone {
			r = append(r, c)
		}
	}
	return r
}

// updateCluster writes the cluster as a user does.
func (s *scn) updateCluster(c *cl, spec bool) {
	ok, err := mod(s.w, &mocov1beta2.MySQLCluster{}, c.ns, c.name, func(o *mocov1beta2.MySQLCluster) {
		if spec {
			c.gen++
			o.Generation = c.gen
			o.Spec = conv[mocov1beta2.MySQLClusterSpec](c.spec)
		}
		o.Annotations = map[string]string{}
		for k, v := range c.ann {
			o.Annotations[k] = v
		}
	})
	if !ok || err != nil {
		panic(fmt.Sprint("cluster ", c.key, ok, err))
	}
}

// certManager issues or renews the certificate of c.
func (s *scn) certManager(c *cl) {
	if _, ok := get(s.w, certOf(c), SysNS, certOf(c).GetName()); !ok {
		return
	}
	data := map[string][]byte{"tls.crt": []byte(s.g.word()), "tls.key": []byte(s.g.word()), "ca.crt": []byte("ca")}
	if ok, _ := mod(s.w, &corev1.Secret{}, SysNS, certOf(c).GetName(), func(o *corev1.Secret) { o.Data = data }); !ok {
		s.w.put(&corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: SysNS, Name: certOf(c).GetName()}, Data: data})
	}
}

// stsController plays the StatefulSet controller: claims and status.
func (s *scn) stsController(c *cl, settled bool) {
	sts, ok := get(s.w, &appsv1.StatefulSet{}, c.ns, "moco-"+c.name)
	if !ok || sts.DeletionTimestamp != nil {
		return
	}
	n := int(*sts.Spec.Replicas)
	for i := range n {
		for _, t := range sts.Spec.VolumeClaimTemplates {
			nm := fmt.Sprintf("%s-%s-%d", t.Name, sts.Name, i)
			if _, ok := get(s.w, &corev1.PersistentVolumeClaim{}, c.ns, nm); ok {
				continue
			}
			p := t.DeepCopy()
			p.TypeMeta = metav1.TypeMeta{}
			p.Namespace, p.Name = c.ns, nm
			p.ManagedFields, p.ResourceVersion, p.UID, p.CreationTimestamp = nil, "", "", metav1.Time{}
			if p.Labels == nil {
				p.Labels = map[string]string{}
			}
			for k, v := range sts.Spec.Selector.MatchLabels {
				p.Labels[k] = v
			}
			if s.g.p(0.5) {
				if p.Annotations == nil {
					p.Annotations = map[string]string{}
				}
				p.Annotations["pv.kubernetes.io/bind-completed"] = "yes"
			}
			if p.Spec.StorageClassName == nil {
				p.Spec.StorageClassName = ptr.To("std")
			}
			s.w.put(p)
		}
	}
	h := hashOf(sts.Spec.Template)
	modStatus(s.w, &appsv1.StatefulSet{}, c.ns, sts.Name, func(o *appsv1.StatefulSet) {
		o.Status.ObservedGeneration = o.Generation
		o.Status.Replicas, o.Status.ReadyReplicas, o.Status.AvailableReplicas = int32(n), int32(n), int32(n)
		o.Status.UpdatedReplicas, o.Status.CurrentReplicas = int32(n), int32(n)
		o.Status.UpdateRevision = h
		if settled || o.Status.CurrentRevision == "" {
			o.Status.CurrentRevision = h
		}
		if !settled {
			switch s.g.Intn(4) {
			case 0:
				o.Status.ReadyReplicas, o.Status.AvailableReplicas = max(0, int32(n)-1), max(0, int32(n)-1)
			case 1:
				o.Status.CurrentRevision = "old"
			case 2:
				o.Status.ObservedGeneration--
			case 3:
				o.Status.AvailableReplicas = max(0, int32(n)-1)
			}
		}
	})
}

func hashOf(x any) string {
	b, _ := json.Marshal(x)
	h := uint32(2166136261)
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	return fmt.Sprintf("%08x", h)
}

// reconcile runs the real reconciler on c and judges what it did.
func (s *scn) reconcile(c *cl) error {
	s.cur, s.cmGone = c, nil
	c.stopped = false
	faulty := s.w.FaultAt > 0
	pre := s.preReconcile(c)
	lagged := s.w.lag != nil
	_, err := s.w.Reconcile(c.key)
	// what a reconciliation with an outdated view does is judged operation by operation only
	hit := lagged
	if hit {
		s.count("stale_reconciles")
	}
	for _, o := range s.w.Ops {
		if o.Fault != "" {
			hit = true
			s.r.Sig("fault " + o.Fault + " at " + o.Verb + " " + o.Kind)
			s.count("faults")
		}
		if o.write() {
			s.r.Sig(o.Verb + " " + o.Kind)
		}
	}
	if hit {
		c.synced = false
	}
	_ = faulty
	s.count("reconciles")
	s.postReconcile(c, pre, err, hit)
	s.cur = nil
	if _, ok := get(s.w, &mocov1beta2.MySQLCluster{}, c.ns, c.name); !ok && !c.gone {
		c.gone = true
		s.count("clusters_gone")
	}
	return err
}

func (s *scn) randomFault(c *cl) {
	s.w.FaultAt = 1 + s.g.Intn(45)
	if c.deleting {
		s.w.FaultAt = 1 + s.g.Intn(7)
	}
	s.w.FaultOnly = pick(s.g, "", "w")
	if s.w.FaultOnly == "w" {
		s.w.FaultAt = 1 + s.g.Intn(16)
	}
	s.w.FaultKind = pick(s.g, "before", "conflict", "lost", "crash", "crash-lost")
}

var profiles = map[string][]string{
	"mix":    {"edit", "edit", "edit", "tamper", "conf", "policy", "cert", "ann", "sts", "sts", "cron", "restored", "fault", "fault", "rec", "rec", "restart", "delete"},
	"edits":  {"edit", "edit", "edit", "sts", "rec", "rec", "conf", "policy"},
	"faults": {"edit", "fault", "fault", "fault", "rec", "tamper", "conf", "policy", "sts"},
	"tamper": {"tamper", "tamper", "tamper", "edit", "rec", "fault", "cert"},
	"delete": {"delete", "edit", "fault", "rec", "recreate", "rec", "cert", "ann", "sts"},
	"stop":   {"ann", "ann", "ann", "edit", "rec", "rec", "fault", "restart", "sts", "conf", "tamper", "delete", "cmstatus"},
	"volume": {"volume", "volume", "volume", "sts", "stsbusy", "rec", "rec", "fault", "edit", "offline", "pvc"},
	"slow":   {"slow", "slow", "tmpl", "edit", "rec", "rec", "fault", "delete"},
	"backup": {"policy", "policyset", "policyset", "cron", "restored", "rec", "rec", "fault", "fault", "tamperbk", "tamperbk", "edit"},
	"conf":   {"conf", "conf", "confset", "edit", "rec", "rec", "fault", "mem"},
	"stale":  {"stale", "stale", "stale", "edit", "rec", "fault", "restart", "recreate", "sts", "volume"},
	"image":  {"image", "edit", "rec", "rec", "sts", "conf", "restart", "overwrite"},
}

func (s *scn) run() {
	w, g := s.w, s.g
	n := 1 + g.Intn(3)
	if s.prof == "slow" || s.prof == "delete" {
		n = 2 + g.Intn(2)
	}
	w.OrphanDelay = pick(g, 0, 100*time.Millisecond, 2*time.Second, 7*time.Second)
	w.limit = pick(g, 1, 2, 10)
	s.agent, s.fluent = "agent:1", "fluent:1"
	s.setup(n)
	s.configure()
	steps := 6 + g.Intn(14)
	list := profiles[s.prof]
	for _, c := range s.cl {
		if s.prof == "stale" && g.p(0.4) {
			// the very first reconciliations already, which the created objects trigger
			s.act(c, "stale")
		} else if g.p(0.2) {
			s.randomFault(c)
			s.reconcile(c)
			s.faulted = true
		} else if g.p(0.7) {
			s.reconcile(c)
		}
	}
	for range steps {
		lv := s.live()
		if len(lv) == 0 {
			break
		}
		c := lv[g.Intn(len(lv))]
		a := pick(g, list...)
		s.acts = append(s.acts, a)
		s.act(c, a)
		time.Sleep(time.Duration(g.Intn(3000)) * time.Millisecond)
	}
	s.finish()
}

func (s *scn) configure() {
	s.w.R.AgentImage, s.w.R.FluentBitImage = s.agent, s.fluent
	s.w.R.MySQLConfigMapHistoryLimit = s.w.limit
}

func (s *scn) restart() {
	s.w.restart()
	s.configure()
	for _, v := range gauges() {
		v.Reset()
	}
	for _, c := range s.cl {
		c.running = false
	}
}

func (s *scn) editSpec(c *cl, f func(n m)) {
	if c.deleting {
		return
	}
	n := conv[m](c.spec)
	f(n)
	c.spec = n
	s.fixSpec(c)
	s.updateCluster(c, true)
	b, _ := json.Marshal(c.spec)
	_ = b
}

func (s *scn) act(c *cl, a string) {
	w, g := s.w, s.g
	w.logf("- %s %s", a, c.key)
	switch a {
	case "edit":
		if c.deleting {
			return
		}
		n, what := g.edit(c.spec, s.confs(c.ns), s.pols(c.ns))
		w.logf("  %s", what)
		s.acts[len(s.acts)-1] = "edit-" + what
		c.spec = n
		s.fixSpec(c)
		s.updateCluster(c, true)
	case "slow":
		s.editSpec(c, func(n m) {
			ds := n["disableSlowQueryLogContainer"] == true
			_, col := n["collectors"]
			if ds {
				delete(n, "disableSlowQueryLogContainer")
			} else {
				n["disableSlowQueryLogContainer"] = true
			}
			n["podTemplate"] = g.podTemplate(!ds, col)
		})
	case "tmpl":
		s.editSpec(c, func(n m) { n["slowQueryLogConfigTmpl"] = "# " + g.word() + " {{ .Path }}\n" })
	case "mem":
		s.editSpec(c, func(n m) {
			for _, x := range n["podTemplate"].(m)["spec"].(m)["containers"].([]any) {
				if x.(m)["name"] == "mysqld" {
					x.(m)["resources"] = g.resources()
				}
			}
		})
	case "overwrite":
		s.editSpec(c, func(n m) {
			n["podTemplate"].(m)["overwriteContainers"] = l{m{"name": pick(g, "slow-log", "agent", "moco-init"), "resources": m{"limits": m{"cpu": pick(g, "1", "2", "3")}}}}
		})
	case "policyset":
		s.editSpec(c, func(n m) {
			if n["backupPolicyName"] != nil && g.p(0.4) {
				delete(n, "backupPolicyName")
			} else {
				n["backupPolicyName"] = pick(g, s.pols(c.ns)...)
			}
		})
	case "confset":
		s.editSpec(c, func(n m) { n["mysqlConfigMapName"] = pick(g, s.confs(c.ns)...) })
	case "offline":
		s.editSpec(c, func(n m) { n["offline"] = !(n["offline"] == true) })
	case "volume":
		if c.deleting {
			return
		}
		what := pick(g, "grow", "grow", "grow", "shrink", "pvcmeta", "pvcmeta", "addpvc")
		s.editSpec(c, func(n m) { editVolume(g, n, what) })
		s.acts[len(s.acts)-1] = "volume-" + what
	case "pvc":
		// something else (an autoresizer, a user) edits a claim
		for _, o := range s.all() {
			p, ok := o.(*corev1.PersistentVolumeClaim)
			if !ok || !strings.Contains(p.Name, "-moco-"+c.name+"-") || p.Namespace != c.ns || s.foreign[okey(o)] != "" || g.p(0.6) {
				continue
			}
			_, _ = mod(w, p, p.Namespace, p.Name, func(p *corev1.PersistentVolumeClaim) {
				switch g.Intn(3) {
				case 0:
					q := p.Spec.Resources.Requests["storage"]
					q.Add(resource.MustParse("256Mi"))
					p.Spec.Resources.Requests["storage"] = q
				case 1:
					if p.Annotations == nil {
						p.Annotations = map[string]string{}
					}
					p.Annotations["user/ann"] = g.word()
					p.Labels["userlabel"] = g.word()
				case 2:
					p.Annotations = nil
				}
			})
		}
	case "conf":
		k := c.ns + "/" + pick(g, s.confs(c.ns)...)
		if g.p(0.15) {
			_, nm, _ := strings.Cut(k, "/")
			w.del(&corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: c.ns, Name: nm}})
			return
		}
		s.conf[k] = g.userConf()
		s.putConf(k)
	case "policy":
		k := c.ns + "/" + pick(g, s.pols(c.ns)...)
		s.pol[k] = g.policy()
		s.putPol(k)
	case "cert":
		s.certManager(c)
	case "ann":
		if c.deleting {
			return
		}
		k := pick(g, constants.AnnClusteringStopped, constants.AnnClusteringStopped, constants.AnnReconciliationStopped, constants.AnnReconciliationStopped, constants.AnnForceRollingUpdate)
		if g.p(0.5) {
			c.ann[k] = pick(g, "true", "true", "true", "false", "")
		} else {
			delete(c.ann, k)
		}
		w.logf("  %v", c.ann)
		s.updateCluster(c, false)
		if g.p(0.5) {
			s.reconcile(c)
		}
	case "cmstatus":
		// the clustering loop of a running cluster writes the status
		modStatus(w, &mocov1beta2.MySQLCluster{}, c.ns, c.name, func(o *mocov1beta2.MySQLCluster) {
			for _, t := range []string{"Initialized", "Available", "Healthy", "ClusteringActive"} {
				if t == "ClusteringActive" && !c.running {
					continue
				}
				setCond(o, t, metav1.ConditionTrue)
			}
		})
	case "sts":
		s.stsController(c, g.p(0.8))
	case "stsbusy":
		s.stsController(c, false)
	case "cron":
		modStatus(w, &batchv1.CronJob{}, c.ns, "moco-backup-"+c.name, func(o *batchv1.CronJob) {
			if o.Status.Active == nil {
				o.Status.Active = []corev1.ObjectReference{{Name: "x"}}
			} else {
				o.Status.Active = nil
			}
		})
	case "restored":
		if c.spec["restore"] != nil {
			c.restored = true
			modStatus(w, &mocov1beta2.MySQLCluster{}, c.ns, c.name, func(o *mocov1beta2.MySQLCluster) {
				o.Status.RestoredTime = &metav1.Time{Time: time.Now().Truncate(time.Second)}
			})
		}
	case "fault":
		s.randomFault(c)
		s.reconcile(c)
		s.faulted = true
	case "rec":
		s.reconcile(c)
	case "stale":
		// the caches fall behind: some kinds are seen as they were before what happens now
		var kinds []string
		all := g.p(0.3)
		for _, k := range []string{"MySQLCluster", "Secret", "ConfigMap", "StatefulSet", "Service", "ServiceAccount", "PodDisruptionBudget", "CronJob", "Job", "Role", "RoleBinding", "PersistentVolumeClaim", "BackupPolicy"} {
			if all || g.p(0.4) {
				kinds = append(kinds, k)
			}
		}
		w.freeze(kinds...)
		w.logf("  caches of %v stay behind", kinds)
		s.faulted, s.staled = true, true
		for range 1 + g.Intn(2) {
			b := pick(g, "rec", "rec", "rec", "fault", "edit", "edit", "tamper", "conf", "policy", "volume", "sts", "pvc", "cron", "delete", "cert", "ann")
			s.acts = append(s.acts, b)
			s.act(c, b)
			if c.gone {
				w.lag = nil
				return
			}
		}
		for range 1 + g.Intn(2) {
			if s.reconcile(c); c.gone {
				break
			}
		}
		w.lag = nil
	case "restart":
		s.restart()
	case "image":
		if g.p(0.5) {
			s.fluent = "fluent:" + fmt.Sprint(g.Intn(5))
		} else {
			s.agent = "agent:" + fmt.Sprint(g.Intn(5))
		}
		s.imaged = true
		s.restart()
	case "delete":
		if g.p(0.5) {
			return
		}
		c.deleting = true
		if g.p(0.7) {
			// a rolling update, whose metrics another controller keeps
			for _, v := range []*prometheus.GaugeVec{metrics.CurrentReplicasVec, metrics.UpdatedReplicasVec, metrics.LastPartitionUpdatedVec} {
				v.WithLabelValues(c.name, c.ns).Set(1)
			}
		}
		w.del(&mocov1beta2.MySQLCluster{ObjectMeta: metav1.ObjectMeta{Namespace: c.ns, Name: c.name}})
		if g.p(0.4) {
			s.randomFault(c)
			s.faulted = true
		}
		s.reconcile(c)
	case "recreate":
		for _, x := range s.cl {
			if x.gone {
				s.gc(x)
				x.gone = false
				nc := s.addCluster(x.ns, x.name, x.uid+"'")
				s.cl = s.cl[:len(s.cl)-1]
				*x = *nc
				s.reconcile(x)
				return
			}
		}
	case "tamper", "tamperbk":
		s.tamper(c, a == "tamperbk")
	default:
		panic(a)
	}
}

func editVolume(g gen, n m, what string) {
	v := n["volumeClaimTemplates"].([]any)
	if len(v) > 1 && g.p(0.6) && (what == "grow" || what == "pvcmeta") {
		// all the templates at once
		for i := range v {
			editVolume1(g, n, v, v[i].(m), what)
		}
		return
	}
	editVolume1(g, n, v, v[g.Intn(len(v))].(m), what)
}

func editVolume1(g gen, n m, v []any, x m, what string) {
	switch what {
	case "grow", "shrink":
		req := x["spec"].(m)["resources"].(m)["requests"].(m)
		q := resource.MustParse(req["storage"].(string))
		if what == "grow" {
			q.Add(resource.MustParse(pick(g, "512Mi", "1Gi")))
		} else if q.Cmp(resource.MustParse("1Gi")) > 0 {
			q.Sub(resource.MustParse("512Mi"))
		}
		req["storage"] = q.String()
	case "pvcmeta":
		md := x["metadata"].(m)
		md["labels"] = m{"synclabel": g.word(), "unsynced": g.word(), "tier": g.word()}
		md["annotations"] = m{"sync.example.com/b": g.word(), "sync.example.com/a": g.word(), "other/x": g.word()}
	case "addpvc":
		if len(v) == 1 {
			n["volumeClaimTemplates"] = append(v, g.pvc("added", "1Gi", "fast"))
		}
	}
}

func setCond(o *mocov1beta2.MySQLCluster, typ string, st metav1.ConditionStatus) {
	for i := range o.Status.Conditions {
		if o.Status.Conditions[i].Type == typ {
			o.Status.Conditions[i].Status = st
			return
		}
	}
	o.Status.Conditions = append(o.Status.Conditions, metav1.Condition{Type: typ, Status: st, Reason: "x", LastTransitionTime: metav1.Now()})
}

func (s *scn) putConf(k string) {
	ns, nm, _ := strings.Cut(k, "/")
	if ok, _ := mod(s.w, &corev1.ConfigMap{}, ns, nm, func(o *corev1.ConfigMap) { o.Data = s.conf[k] }); !ok {
		s.w.put(&corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: nm}, Data: s.conf[k]})
	}
}

func (s *scn) putPol(k string) {
	ns, nm, _ := strings.Cut(k, "/")
	p := s.pol[k]
	_, _ = mod(s.w, &mocov1beta2.BackupPolicy{}, ns, nm, func(o *mocov1beta2.BackupPolicy) { o.Spec = *p.DeepCopy() })
}

// gc plays the garbage collector for a cluster that is gone.
func (s *scn) gc(c *cl) {
	for _, o := range s.all() {
		if controllerUID(o) == c.uid {
			s.w.del(o)
		}
	}
}

func controllerUID(o client.Object) string {
	for _, r := range o.GetOwnerReferences() {
		if r.Controller != nil && *r.Controller {
			return string(r.UID)
		}
	}
	return ""
}

// tamper deletes or edits an object of the cluster behind MOCO's back.
func (s *scn) tamper(c *cl, bk bool) {
	if c.ann[constants.AnnReconciliationStopped] == "true" {
		return
	}
	var mine []client.Object
	for _, o := range s.all() {
		if controllerUID(o) != c.uid {
			continue
		}
		if _, ok := o.(*corev1.PersistentVolumeClaim); ok {
			continue
		}
		if bk {
			switch o.(type) {
			case *batchv1.CronJob, *rbacv1.Role, *rbacv1.RoleBinding, *batchv1.Job:
			default:
				continue
			}
		}
		mine = append(mine, o)
	}
	if len(mine) == 0 {
		return
	}
	o := mine[s.g.Intn(len(mine))]
	s.acts[len(s.acts)-1] = fmt.Sprintf("tamper-%T", o)
	if s.g.p(0.5) {
		s.w.logf("  delete %s", okey(o))
		s.w.del(o)
		return
	}
	s.w.logf("  edit %s", okey(o))
	edit := func(f func()) {
		gvk := s.w.kindOf(o)
		before := o.DeepCopyObject().(client.Object)
		f()
		_ = s.w.store(gvk, client.ObjectKeyFromObject(o), before, "update", func() error { return s.w.base.Update(context.Background(), o, client.FieldOwner("kubectl")) })
	}
	switch x := o.(type) {
	case *corev1.Service:
		edit(func() {
			switch s.g.Intn(3) {
			case 0:
				x.Spec.Selector["moco.cybozu.com/role"] = "nobody"
			case 1:
				if len(x.Spec.Ports) > 0 {
					x.Spec.Ports[0].TargetPort = intstr.FromInt32(1111)
				}
			case 2:
				x.Spec.Selector["app.kubernetes.io/instance"] = "other"
			}
		})
	case *corev1.ConfigMap:
		edit(func() {
			for k := range x.Data {
				x.Data[k] = "tampered"
			}
		})
	case *corev1.Secret:
		edit(func() {
			for k := range x.Data {
				x.Data[k] = []byte("tampered")
				break
			}
		})
	case *appsv1.StatefulSet:
		edit(func() {
			switch s.g.Intn(3) {
			case 0:
				x.Spec.Template.Spec.Containers[0].Image = "tampered"
			case 1:
				x.Spec.Replicas = ptr.To[int32](7)
			case 2:
				x.Spec.Template.Spec.ServiceAccountName = "default"
			}
		})
	case *policyv1.PodDisruptionBudget:
		edit(func() {
			v := *x.Spec.MaxUnavailable
			v.IntVal += 5
			x.Spec.MaxUnavailable = &v
		})
	case *batchv1.CronJob:
		edit(func() { x.Spec.Schedule = "1 1 1 1 1" })
	case *rbacv1.Role:
		edit(func() { x.Rules = nil })
	case *rbacv1.RoleBinding:
		edit(func() { x.Subjects = nil })
	}
}

// finish ends the disturbances and judges convergence.
func (s *scn) finish() {
	w := s.w
	w.logf("- finish")
	w.OrphanDelay = min(w.OrphanDelay, 2*time.Second)
	time.Sleep(10 * time.Second)
	for k := range s.conf {
		s.putConf(k)
	}
	for _, c := range s.live() {
		if c.deleting {
			for i := 0; i < 3 && !c.gone; i++ {
				_ = s.reconcile(c)
			}
			if !c.gone {
				s.viol("R04", "deletion does not complete", "%s still exists after 3 undisturbed reconciliations", c.key)
			}
			continue
		}
		stopped := c.ann[constants.AnnReconciliationStopped] == "true"
		var err error
		for range 3 {
			if err = s.reconcile(c); err == nil {
				break
			}
		}
		if err != nil {
			s.viol("R01", "reconciliation keeps failing although nothing disturbs it", "%s: %v", c.key, err)
			continue
		}
		s.certManager(c)
		if stopped {
			continue
		}
		for range 2 {
			s.stsController(c, true)
			if err = s.reconcile(c); err != nil {
				s.viol("R01", "reconciliation keeps failing although nothing disturbs it", "%s: %v", c.key, err)
			}
		}
		s.stsController(c, true)
		if err = s.reconcile(c); err != nil {
			continue
		}
		if err = s.reconcile(c); err != nil {
			continue
		}
		s.count("idle_checks")
		for _, o := range w.Ops {
			if o.write() && o.changed() {
				s.viol("R01", "a settled cluster is written again", "%s: %s", c.key, o)
			}
		}
		s.volumesSettled(c)
		s.fresh(c)
	}
	for k, rv := range s.foreign {
		found := false
		for _, o := range s.all() {
			if okey(o) == k {
				found = true
				if o.GetResourceVersion() != rv {
					s.viol("R02", "an object of somebody else was changed", "%s", k)
				}
			}
		}
		if !found {
			s.viol("R02", "an object of somebody else was deleted", "%s", k)
		}
	}
}

func newScn(prof string, seed int64, r *vlib.Report) *scn {
	rng := rand.New(rand.NewSource(seed))
	s := &scn{w: NewWorld(rng), g: gen{rng}, r: r, cs: fmt.Sprintf("%s/%d", prof, seed), prof: prof, conf: map[string]map[string]string{}, pol: map[string]mocov1beta2.BackupPolicySpec{}, cnt: map[string]int{}, confs2: map[string]string{}}
	for _, v := range gauges() {
		v.Reset()
	}
	s.w.ask = s.asked
	return s
}
