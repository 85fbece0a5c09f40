package ctl

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	"k8s.io/apimachinery/pkg/api/meta"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

const (
	annClusteringStopped     = "moco.cybozu.com/clustering-stopped"
	annReconciliationStopped = "moco.cybozu.com/reconciliation-stopped"
	annForce                 = "moco.cybozu.com/force-rolling-update"
)

// ---- every request -------------------------------------------------------

func (o *Op) changed() bool {
	if isNil(o.Before) && isNil(o.After) {
		return false
	}
	if isNil(o.Before) != isNil(o.After) {
		return true
	}
	if o.Before.GetResourceVersion() == o.After.GetResourceVersion() {
		return false
	}
	// an apply that changes nothing is no change
	a, b := o.Before.DeepCopyObject().(client.Object), o.After.DeepCopyObject().(client.Object)
	for _, x := range []client.Object{a, b} {
		x.SetResourceVersion("")
		x.SetManagedFields(nil)
	}
	return !equality.Semantic.DeepEqual(a, b)
}

func (s *scn) clusterObj(c *cl) *mocov1beta2.MySQLCluster {
	o, ok := get(s.w, &mocov1beta2.MySQLCluster{}, c.ns, c.name)
	if !ok {
		return nil
	}
	return o
}

func (s *scn) onOp(o *Op) {
	c := s.cur
	if c == nil {
		return
	}
	if strings.HasPrefix(o.Verb, "mgr-") {
		if o.Key != c.key {
			s.viol("R02", "the manager is told about another cluster", "reconciling %s: %s", c.key, o)
		}
		switch o.Verb {
		case "mgr-update":
			c.running = true
			if c.deleting && s.w.lag["MySQLCluster"] == nil {
				s.viol("R04", "clustering is started for a cluster that is being deleted", "%s", c.key)
			}
		case "mgr-stop", "mgr-pause":
			c.running = false
			c.stopped = true
		}
		return
	}
	if !o.write() {
		return
	}
	s.count("writes")
	if !o.changed() {
		return
	}
	s.count("effective_writes")
	s.isolation(c, o)
	s.secretsOnly(c, o)
	if c.ann[annReconciliationStopped] == "true" && !c.deleting && s.w.lag["MySQLCluster"] == nil && o.Kind != "MySQLCluster" {
		s.viol("R11", "an object is changed although reconciliation is stopped", "%s: %s", c.key, o)
	}
	if c.deleting && s.w.lag["MySQLCluster"] == nil && o.Verb != "delete" && o.Kind != "MySQLCluster" {
		s.viol("R04", "an object of a cluster that is being deleted is written", "%s: %s", c.key, o)
	}
	switch o.Kind {
	case "MySQLCluster":
		s.ownCluster(c, o)
	case "Secret":
		s.credWrite(c, o)
	case "PersistentVolumeClaim":
		s.pvcWrite(c, o)
	case "StatefulSet":
		s.stsWrite(c, o)
	case "ConfigMap":
		if o.Verb == "delete" {
			s.cmDelete(c, o)
		}
	case "Job":
		if o.Verb != "delete" && isNil(o.Before) && s.clusterObj(c) != nil && s.clusterObj(c).Status.RestoredTime != nil {
			s.viol("R10", "a restore Job is made although the restoration is done", "%s", c.key)
		}
		if o.Verb == "delete" {
			s.viol("R10", "the restore Job is deleted", "%s", o)
		}
	}
}

// isolation: everything written belongs to the cluster that is reconciled.
func (s *scn) isolation(c *cl, o *Op) {
	k := o.Key
	if o.Kind == "MySQLCluster" {
		if k != c.key {
			s.viol("R02", "another MySQLCluster is written", "reconciling %s: %s", c.key, o)
		}
		return
	}
	s.count("isolation_checks")
	if k.Namespace == SysNS {
		if o.Kind == "Secret" && k.Name == "mysql-"+c.ns+"."+c.name || o.Kind == "Certificate" && k.Name == "moco-agent-"+c.ns+"."+c.name {
			return
		}
		s.viol("R02", "a write in the namespace of the controller that is not the cluster's", "reconciling %s: %s", c.key, o)
		return
	}
	if k.Namespace != c.ns {
		s.viol("R02", "a write in another namespace", "reconciling %s: %s", c.key, o)
		return
	}
	for _, x := range []client.Object{o.Before, o.After} {
		if isNil(x) {
			continue
		}
		if u := controllerUID(x); u != c.uid {
			if o.Kind == "PersistentVolumeClaim" && u == "" && x.GetLabels()["app.kubernetes.io/instance"] == c.name {
				continue
			}
			s.viol("R02", "an object that does not belong to the cluster is written", "reconciling %s: %s (controller %q)", c.key, o, u)
			return
		}
	}
	if o.Kind == "PersistentVolumeClaim" {
		x := o.Before
		if isNil(x) {
			x = o.After
		}
		if x.GetLabels()["app.kubernetes.io/instance"] != c.name {
			s.viol("R02", "a claim of another cluster is written", "reconciling %s: %s", c.key, o)
		}
	}
}

// ownCluster: MOCO changes the status and its finalizer, nothing else.
func (s *scn) ownCluster(c *cl, o *Op) {
	if isNil(o.Before) || isNil(o.After) {
		return
	}
	a, b := o.Before.(*mocov1beta2.MySQLCluster), o.After.(*mocov1beta2.MySQLCluster)
	if !equality.Semantic.DeepEqual(a.Spec, b.Spec) || !equality.Semantic.DeepEqual(a.Annotations, b.Annotations) || !equality.Semantic.DeepEqual(a.Labels, b.Labels) {
		s.viol("R02", "the spec, labels or annotations of the cluster are changed", "%s", o)
	}
	if c.restored && a.Status.RestoredTime != nil && b.Status.RestoredTime == nil {
		s.viol("R10", "the record that the restoration is done is lost", "%s", o)
	}
}

var pwRe = regexp.MustCompile(`^[0-9a-f]{32}$`)

var pwKeys = []string{"ADMIN_PASSWORD", "AGENT_PASSWORD", "REPLICATION_PASSWORD", "CLONE_DONOR_PASSWORD", "EXPORTER_PASSWORD", "BACKUP_PASSWORD", "READONLY_PASSWORD", "WRITABLE_PASSWORD"}

func strData(d map[string][]byte) map[string]string {
	r := map[string]string{}
	for k, v := range d {
		r[k] = string(v)
	}
	return r
}

func (s *scn) credWrite(c *cl, o *Op) {
	if o.Key.Namespace != SysNS {
		// what the users and the Pods get is right at every write, not only in the end
		if x, ok := o.After.(*corev1.Secret); ok && !isNil(o.After) && c.creds != nil {
			switch o.Key.Name {
			case "moco-" + c.name:
				s.count("user_secret_writes")
				if !reflect.DeepEqual(strData(x.Data), c.creds) {
					s.viol("R03", "the Secret of the users differs from that of the controller", "%s: %s", c.key, o)
				}
			case "moco-my-cnf-" + c.name:
				s.count("user_secret_writes")
				s.mycnfSecret(c, x, c.creds)
			}
		}
		return
	}
	if isNil(o.After) {
		if !c.deleting {
			s.viol("R03", "the credentials of a living cluster are deleted", "%s", o)
		}
		return
	}
	d := strData(o.After.(*corev1.Secret).Data)
	if c.creds != nil && !reflect.DeepEqual(c.creds, d) {
		s.viol("R03", "the credentials of a cluster changed", "%s", o)
		return
	}
	if c.creds == nil {
		s.count("credentials")
		c.creds = d
		vals := map[string]string{}
		for _, k := range pwKeys {
			v, ok := d[k]
			if !ok || len(v) < 16 {
				s.viol("R03", "a password is missing or weak", "%s: %s has %d characters", c.key, k, len(v))
				continue
			}
			if other, dup := vals[v]; dup {
				s.viol("R03", "two users share a password", "%s: %s and %s", c.key, k, other)
			}
			vals[v] = k
		}
		for _, x := range s.cl {
			if x == c {
				continue
			}
			for k, v := range x.creds {
				if other, dup := vals[v]; dup {
					s.viol("R03", "two clusters share a password", "%s %s and %s %s", c.key, other, x.key, k)
				}
			}
		}
	}
}

// secretsOnly: passwords appear in the cluster's own Secrets only.
func (s *scn) secretsOnly(c *cl, o *Op) {
	if isNil(o.After) {
		return
	}
	raw, _ := json.Marshal(o.After)
	t := string(raw)
	for _, x := range s.cl {
		for k, v := range x.creds {
			if o.Kind == "Secret" {
				continue
			}
			if strings.Contains(t, v) {
				s.viol("R03", "a password is written outside the Secrets", "%s: %s of %s", o, k, x.key)
			}
		}
	}
}

func (s *scn) pvcWrite(c *cl, o *Op) {
	if isNil(o.After) || isNil(o.Before) {
		s.viol("R08", "a claim is created or deleted", "%s", o)
		return
	}
	a, b := o.Before.(*corev1.PersistentVolumeClaim), o.After.(*corev1.PersistentVolumeClaim)
	s.count("pvc_writes")
	x, y := a.Spec.Resources.Requests["storage"], b.Spec.Resources.Requests["storage"]
	var tmpl m
	for _, v := range c.spec["volumeClaimTemplates"].([]any) {
		nm := v.(m)["metadata"].(m)["name"].(string)
		if regexp.MustCompile("^" + regexp.QuoteMeta(nm+"-moco-"+c.name) + `-\d+$`).MatchString(a.Name) {
			tmpl = v.(m)
		}
	}
	if tmpl == nil {
		s.viol("R08", "a claim that has no template is written", "%s", o)
		return
	}
	if y.Cmp(x) < 0 {
		s.viol("R08", "the request of a claim shrinks", "%s: %s -> %s", o, x.String(), y.String())
	}
	if y.Cmp(x) > 0 {
		s.count("pvc_expansions")
		want := resource.MustParse(tmpl["spec"].(m)["resources"].(m)["requests"].(m)["storage"].(string))
		if y.Cmp(want) != 0 && s.w.lag == nil {
			s.viol("R08", "a claim is resized to a size nobody asked for", "%s: %s, the template says %s", o, y.String(), want.String())
		}
		if sc := *a.Spec.StorageClassName; sc != "fast" && sc != "std" {
			s.viol("R08", "a claim is expanded although its StorageClass does not allow it", "%s: %s", o, sc)
		}
	}
	e, f := a.DeepCopy(), b.DeepCopy()
	for _, p := range []*corev1.PersistentVolumeClaim{e, f} {
		delete(p.Spec.Resources.Requests, "storage")
	}
	if !equality.Semantic.DeepEqual(e.Spec, f.Spec) {
		s.viol("R08", "other parts of a claim are changed", "%s", o)
	}
	s.syncedKeys(o, "label", a.Labels, b.Labels, tmpl, "labels", []string{"synclabel", "tier"})
	s.syncedKeys(o, "annotation", a.Annotations, b.Annotations, tmpl, "annotations", []string{"sync.example.com/a", "sync.example.com/b"})
}

func (s *scn) syncedKeys(o *Op, what string, a, b map[string]string, tmpl m, field string, keys []string) {
	want, _ := tmpl["metadata"].(m)[field].(m)
	all := map[string]bool{}
	for k := range a {
		all[k] = true
	}
	for k := range b {
		all[k] = true
	}
	for k := range all {
		va, oka := a[k]
		vb, okb := b[k]
		if va == vb && oka == okb {
			continue
		}
		s.count("pvc_synced_" + what)
		if !slices.Contains(keys, k) {
			s.viol("R08", "a "+what+" of a claim that is not listed is changed", "%s: %s", o, k)
		} else if s.w.lag == nil && (!okb || want[k] != any(vb)) {
			s.viol("R08", "a "+what+" of a claim gets a value that is not in the template", "%s: %s=%q, want %v", o, k, vb, want[k])
		}
	}
}

func vctKey(ts []corev1.PersistentVolumeClaim) string {
	var r []string
	for _, t := range ts {
		q := t.Spec.Resources.Requests["storage"]
		r = append(r, fmt.Sprintf("%s %d %v %v %v %v %v", t.Name, q.Value(), deref(t.Spec.StorageClassName), t.Spec.AccessModes, t.Labels, t.Annotations, t.OwnerReferences))
	}
	return strings.Join(r, "\n")
}

func deref(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

func (s *scn) stsWrite(c *cl, o *Op) {
	if o.Verb != "delete" {
		return
	}
	s.count("sts_deletes")
	if !o.Orphan {
		s.viol("R08", "the StatefulSet is deleted together with its Pods", "%s", o)
	}
	b := o.Before.(*appsv1.StatefulSet)
	if want := s.wantVCT(c); s.w.lag == nil && vctSpecKey(b.Spec.VolumeClaimTemplates) == want {
		s.viol("R08", "the StatefulSet is deleted although the volume claim templates are the same", "%s\n%s", o, want)
	}
}

// vctSpecKey describes templates by what the user can say in the spec.
func vctSpecKey(ts []corev1.PersistentVolumeClaim) string {
	var r []string
	for _, t := range ts {
		t.OwnerReferences = nil
		t.Status = corev1.PersistentVolumeClaimStatus{}
		if len(t.Spec.AccessModes) == 0 {
			t.Spec.AccessModes = []corev1.PersistentVolumeAccessMode{corev1.ReadWriteOnce}
		}
		r = append(r, vctKey([]corev1.PersistentVolumeClaim{t}))
	}
	return strings.Join(r, "\n")
}

func (s *scn) wantVCT(c *cl) string {
	return vctSpecKey(conv[[]corev1.PersistentVolumeClaim](c.spec["volumeClaimTemplates"]))
}

// cmDelete: old configurations go, not the current one and not more than needed.
func (s *scn) cmDelete(c *cl, o *Op) {
	if !strings.HasPrefix(o.Key.Name, "moco-"+c.name+".") {
		if strings.HasPrefix(o.Key.Name, "moco-slow-log-agent-config-"+c.name+".") {
			return
		}
		s.viol("R02", "a ConfigMap that is not generated for the cluster is deleted", "%s", o)
		return
	}
	s.count("cm_deletes")
	left := 0
	for _, x := range s.all() {
		cm, ok := x.(*corev1.ConfigMap)
		if !ok || controllerUID(cm) != c.uid || !strings.HasPrefix(cm.Name, "moco-"+c.name+".") {
			continue
		}
		left++
	}
	if o.Before != nil && o.After == nil {
		s.cmGone = append(s.cmGone, o)
	}
	if left < s.w.limit && s.w.lag == nil {
		s.viol("R05", "more old my.cnf ConfigMaps are deleted than the history limit says", "%s: %d left, limit %d", o, left, s.w.limit)
	}
	// the configuration made or confirmed in this very reconciliation is the current one
	for _, p := range s.w.Ops {
		if p.Verb == "apply" && p.Kind == "ConfigMap" && p.Key == o.Key && p != o {
			s.viol("R05", "the current my.cnf ConfigMap is deleted", "%s", o)
		}
	}
}

func ptrTime(t metav1.Time) *metav1.Time { return &t }

// ---- after a reconciliation -----------------------------------------------

type preState struct {
	cluster *mocov1beta2.MySQLCluster
	sts     *appsv1.StatefulSet
}

// fluent: an update of MOCO leaves the slow-log container alone until the spec is edited.
func (s *scn) fluentKept(c *cl, pre preState) {
	o := pre.cluster
	now, ok := get(s.w, &appsv1.StatefulSet{}, c.ns, "moco-"+c.name)
	if !ok || pre.sts == nil || o.Generation != o.Status.ReconcileInfo.Generation {
		return
	}
	img := func(x *appsv1.StatefulSet) string {
		if y := container(x.Spec.Template.Spec.Containers, "slow-log"); y != nil {
			return y.Image
		}
		return ""
	}
	was, is := img(pre.sts), img(now)
	if was == "" || o.Spec.DisableSlowQueryLogContainer {
		return
	}
	if was != s.w.R.FluentBitImage {
		s.count("outdated_fluent_images")
	}
	if was != is {
		s.viol("R06", "an update of MOCO alone changes the slow-log container", "%s: image %s -> %s at generation %d", c.key, was, is, o.Generation)
	}
}

// cmOrder: of the old my.cnf the oldest ones go.
func (s *scn) cmOrder(c *cl) {
	used := map[string]bool{}
	for _, p := range s.w.Ops {
		if p.Verb == "apply" && p.Kind == "ConfigMap" {
			used[p.Key.Name] = true
		}
	}
	for _, o := range s.cmGone {
		for _, x := range s.all() {
			cm, ok := x.(*corev1.ConfigMap)
			if !ok || controllerUID(cm) != c.uid || !strings.HasPrefix(cm.Name, "moco-"+c.name+".") || used[cm.Name] {
				continue
			}
			if cm.CreationTimestamp.Before(ptrTime(o.Before.GetCreationTimestamp())) {
				s.viol("R05", "a newer my.cnf is deleted and an older one kept", "%s: %s is kept", o, cm.Name)
			}
		}
	}
}

func (s *scn) preReconcile(c *cl) preState {
	p := preState{cluster: s.clusterObj(c)}
	if x, ok := get(s.w, &appsv1.StatefulSet{}, c.ns, "moco-"+c.name); ok {
		p.sts = x.DeepCopy()
	}
	return p
}

// gauges are the metrics the controllers keep for a cluster.
func gauges() map[string]*prometheus.GaugeVec {
	return map[string]*prometheus.GaugeVec{"clustering_stopped": metrics.ClusteringStoppedVec, "reconciliation_stopped": metrics.ReconciliationStoppedVec,
		"current_replicas": metrics.CurrentReplicasVec, "updated_replicas": metrics.UpdatedReplicasVec, "last_partition_updated": metrics.LastPartitionUpdatedVec}
}

func gauge(v *prometheus.GaugeVec, c *cl) (float64, bool) {
	ch := make(chan prometheus.Metric, 100)
	v.Collect(ch)
	close(ch)
	for x := range ch {
		var d dto.Metric
		_ = x.Write(&d)
		ls := map[string]string{}
		for _, l := range d.Label {
			ls[l.GetName()] = l.GetValue()
		}
		if ls["name"] == c.name && ls["namespace"] == c.ns {
			return d.Gauge.GetValue(), true
		}
	}
	return 0, false
}

func (s *scn) postReconcile(c *cl, pre preState, err error, hit bool) {
	if pre.cluster == nil {
		if err == nil && !hit && !c.stopped {
			s.viol("R04", "the clustering of a vanished cluster is not stopped", "%s", c.key)
		}
		return
	}
	o := s.clusterObj(c)
	if c.deleting {
		if o == nil {
			s.count("finalized")
			if !c.stopped {
				s.viol("R04", "the finalizer is removed before the clustering is stopped", "%s", c.key)
			}
			if _, ok := get(s.w, &corev1.Secret{}, SysNS, "mysql-"+c.ns+"."+c.name); ok {
				s.viol("R04", "the credentials outlive the cluster", "%s", c.key)
			}
			if _, ok := get(s.w, certOf(c), SysNS, certOf(c).GetName()); ok {
				s.viol("R04", "the certificate outlives the cluster", "%s", c.key)
			}
			for n, v := range gauges() {
				if _, ok := gauge(v, c); ok {
					s.viol("R04", "a metric outlives the cluster", "%s %s", c.key, n)
				}
			}
		} else if err == nil && !hit {
			s.viol("R04", "a reconciliation without error leaves the cluster", "%s", c.key)
		}
		return
	}
	if o == nil {
		s.viol("R04", "a cluster nobody deleted is gone", "%s", c.key)
		return
	}
	recStop := c.ann[annReconciliationStopped] == "true"
	clStop := c.ann[annClusteringStopped] == "true"
	if err != nil && o.Generation == o.Status.ReconcileInfo.Generation && pre.cluster.Generation != pre.cluster.Status.ReconcileInfo.Generation {
		cut := s.w.lag != nil
		for _, op := range s.w.Ops {
			if op.Fault != "" && op.Kind == "MySQLCluster" && op.write() {
				// the record was made, the answer lost
				cut = true
			}
		}
		if !cut {
			for _, id := range []string{"R01", "R07"} {
				s.viol(id, "a generation counts as reconciled although the reconciliation failed", "%s: generation %d: %v", c.key, o.Generation, err)
			}
		}
	}
	if err != nil || hit {
		// a failed reconciliation is reported
		if cond := meta.FindStatusCondition(o.Status.Conditions, "ReconcileSuccess"); !recStop && err != nil && !hit && (cond == nil || cond.Status != metav1.ConditionFalse) {
			s.viol("R01", "a failed reconciliation is not reported", "%s: %v, condition %+v", c.key, err, cond)
		}
		return
	}
	s.count("successful_reconciles")
	s.cmOrder(c)
	s.fluentKept(c, pre)
	// R11
	s.count("stop_checks")
	if clStop && c.running {
		s.viol("R11", "clustering goes on although it is stopped by annotation", "%s", c.key)
	}
	if !clStop && !c.running {
		s.viol("R11", "clustering is not running although nothing stops it", "%s", c.key)
	}
	s.metric(c, "clustering_stopped", metrics.ClusteringStoppedVec, clStop)
	s.metric(c, "reconciliation_stopped", metrics.ReconciliationStoppedVec, recStop)
	if x := meta.IsStatusConditionFalse(o.Status.Conditions, "ReconciliationActive"); x != recStop {
		s.viol("R11", "the condition ReconciliationActive is wrong", "%s: annotation %v, conditions %v", c.key, recStop, conds(o))
	}
	if clStop {
		if !meta.IsStatusConditionFalse(o.Status.Conditions, "ClusteringActive") {
			s.viol("R11", "the condition ClusteringActive is wrong", "%s: stopped, conditions %v", c.key, conds(o))
		}
		for _, t := range []string{"Available", "Healthy"} {
			if x := meta.FindStatusCondition(o.Status.Conditions, t); x != nil && x.Status != metav1.ConditionUnknown && !meta.IsStatusConditionFalse(pre.cluster.Status.Conditions, "ClusteringActive") {
				s.viol("R11", "the cluster is called available or healthy although clustering is stopped", "%s: %v", c.key, conds(o))
			}
		}
	}
	if recStop {
		s.count("stopped_checks")
		return
	}
	if !meta.IsStatusConditionTrue(o.Status.Conditions, "ReconcileSuccess") {
		s.viol("R01", "a successful reconciliation is reported as failed", "%s: %v", c.key, conds(o))
	}
	if o.Status.ReconcileInfo.Generation != o.Generation {
		s.viol("R01", "the reconciled generation is not recorded", "%s: %d of %d", c.key, o.Status.ReconcileInfo.Generation, o.Generation)
	}
	s.stsReady(c, o)
	s.settled(c, o)
}

func (s *scn) metric(c *cl, name string, v *prometheus.GaugeVec, want bool) {
	x, ok := gauge(v, c)
	if !ok || (x == 1) != want {
		s.viol("R11", "the metric "+name+" is wrong", "%s: stopped %v, metric %v (exists %v)", c.key, want, x, ok)
	}
}

func conds(o *mocov1beta2.MySQLCluster) string {
	var r []string
	for _, c := range o.Status.Conditions {
		r = append(r, c.Type+"="+string(c.Status))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func (s *scn) stsReady(c *cl, o *mocov1beta2.MySQLCluster) {
	sts, ok := get(s.w, &appsv1.StatefulSet{}, c.ns, "moco-"+c.name)
	want := ok && sts.Status.AvailableReplicas == *sts.Spec.Replicas && sts.Status.CurrentRevision == sts.Status.UpdateRevision && sts.Generation == sts.Status.ObservedGeneration
	if got := meta.IsStatusConditionTrue(o.Status.Conditions, "StatefulSetReady"); got != want {
		s.viol("R01", "the condition StatefulSetReady is wrong", "%s: %v, the StatefulSet says %v", c.key, got, want)
	}
}

// subset reports where act lacks something of exp ("" if nowhere).
func subset(exp, act any, path string) string {
	if empty(exp) {
		return ""
	}
	switch e := exp.(type) {
	case map[string]any:
		a, ok := act.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: want %v, got %v", path, exp, act)
		}
		for _, k := range keysOf(e) {
			if d := subset(e[k], a[k], path+"."+k); d != "" {
				return d
			}
		}
		return ""
	case []any:
		a, ok := act.([]any)
		if !ok {
			return fmt.Sprintf("%s: want %v, got %v", path, exp, act)
		}
		if named(e) && named(a) {
			for _, x := range e {
				nm := x.(map[string]any)["name"]
				found := false
				for _, y := range a {
					if y.(map[string]any)["name"] == nm {
						if found {
							return fmt.Sprintf("%s[%v] occurs twice", path, nm)
						}
						found = true
						if d := subset(x, y, fmt.Sprintf("%s[%v]", path, nm)); d != "" {
							return d
						}
					}
				}
				if !found {
					return fmt.Sprintf("%s: no %v", path, nm)
				}
			}
			return ""
		}
		if len(a) != len(e) {
			return fmt.Sprintf("%s: want %v, got %v", path, exp, act)
		}
		for i := range e {
			if d := subset(e[i], a[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	if reflect.DeepEqual(exp, act) {
		return ""
	}
	if x, ok := exp.(string); ok {
		if y, ok := act.(string); ok {
			p, e1 := resource.ParseQuantity(x)
			q, e2 := resource.ParseQuantity(y)
			if e1 == nil && e2 == nil && p.Cmp(q) == 0 {
				return ""
			}
		}
	}
	return fmt.Sprintf("%s: want %v, got %v", path, exp, act)
}

func named(l []any) bool {
	for _, x := range l {
		e, ok := x.(map[string]any)
		if !ok || e["name"] == nil {
			return false
		}
	}
	return len(l) > 0
}

func empty(x any) bool {
	switch e := x.(type) {
	case nil:
		return true
	case map[string]any:
		for _, v := range e {
			if !empty(v) {
				return false
			}
		}
		return true
	case []any:
		return len(e) == 0
	case bool:
		return !e
	case string:
		return e == ""
	}
	return false
}

func keysOf(e map[string]any) []string {
	var r []string
	for k := range e {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *scn) want(prop, what string, c *cl, exp m, act any) {
	if d := subset(conv[m](exp), conv[any](act), ""); d != "" {
		s.viol(prop, what, "%s: %s", c.key, d)
	}
}

// settled judges the objects right after a reconciliation that succeeded.
func (s *scn) settled(c *cl, o *mocov1beta2.MySQLCluster) {
	s.secretsSettled(c)
	s.confSettled(c, o)
	s.slowSettled(c)
	s.servicesSettled(c)
	s.stsSettled(c)
	s.pdbSettled(c)
	s.backupSettled(c, o)
}

func (s *scn) owned(prop string, c *cl, o client.Object) {
	if controllerUID(o) != c.uid {
		s.viol(prop, "an object is not owned by the cluster", "%s: %s", c.key, okey(o))
	}
	if l := o.GetLabels(); l["app.kubernetes.io/instance"] != c.name || l["app.kubernetes.io/created-by"] != "moco" {
		s.viol(prop, "an object does not carry the labels of the cluster", "%s: %s %v", c.key, okey(o), l)
	}
}

var mycnfUsers = map[string][2]string{
	"admin-my.cnf": {"moco-admin", "ADMIN_PASSWORD"}, "exporter-my.cnf": {"moco-exporter", "EXPORTER_PASSWORD"}, "backup-my.cnf": {"moco-backup", "BACKUP_PASSWORD"},
	"readonly-my.cnf": {"moco-readonly", "READONLY_PASSWORD"}, "writable-my.cnf": {"moco-writable", "WRITABLE_PASSWORD"},
	"moco-admin-my.cnf": {"moco-admin", "ADMIN_PASSWORD"}, "moco-exporter-my.cnf": {"moco-exporter", "EXPORTER_PASSWORD"}, "moco-backup-my.cnf": {"moco-backup", "BACKUP_PASSWORD"},
	"moco-readonly-my.cnf": {"moco-readonly", "READONLY_PASSWORD"}, "moco-writable-my.cnf": {"moco-writable", "WRITABLE_PASSWORD"},
}

// mycnfSecret judges the Secret with the my.cnf files of the users.
func (s *scn) mycnfSecret(c *cl, ms *corev1.Secret, want map[string]string) {
	n := 0
	for f, d := range ms.Data {
		up, ok := mycnfUsers[f]
		if !ok {
			continue
		}
		n++
		u, p := "", ""
		for _, line := range strings.Split(string(d), "\n") {
			k, v, _ := strings.Cut(line, "=")
			v = strings.Trim(strings.TrimSpace(v), `"`)
			switch strings.TrimSpace(k) {
			case "user":
				u = v
			case "password":
				p = v
			}
		}
		if u != up[0] || p != want[up[1]] {
			s.viol("R03", "a my.cnf file does not have the credentials of its user", "%s: %s has user %s", c.key, f, u)
		}
	}
	if n < 5 {
		s.viol("R03", "a my.cnf file is missing", "%s: %d", c.key, n)
	}
}

func (s *scn) secretsSettled(c *cl) {
	s.count("secret_checks")
	cs, ok := get(s.w, &corev1.Secret{}, SysNS, "mysql-"+c.ns+"."+c.name)
	if !ok {
		s.viol("R03", "there are no credentials after a reconciliation", "%s", c.key)
		return
	}
	want := strData(cs.Data)
	us, ok := get(s.w, &corev1.Secret{}, c.ns, "moco-"+c.name)
	if !ok {
		s.viol("R03", "there is no user Secret after a reconciliation", "%s", c.key)
		return
	}
	s.owned("R03", c, us)
	if got := strData(us.Data); !reflect.DeepEqual(got, want) {
		s.viol("R03", "the Secret of the users differs from that of the controller", "%s", c.key)
	}
	ms, ok := get(s.w, &corev1.Secret{}, c.ns, "moco-my-cnf-"+c.name)
	if !ok {
		s.viol("R03", "there is no my.cnf Secret after a reconciliation", "%s", c.key)
		return
	}
	s.owned("R03", c, ms)
	s.mycnfSecret(c, ms, want)
	if cert, ok := get(s.w, &corev1.Secret{}, SysNS, "moco-agent-"+c.ns+"."+c.name); ok {
		g, ok := get(s.w, &corev1.Secret{}, c.ns, "moco-"+c.name+"-grpc")
		if !ok || !reflect.DeepEqual(g.Data, cert.Data) {
			s.viol("R03", "the agent's certificate is not the one issued", "%s: exists %v", c.key, ok)
		} else {
			s.owned("R03", c, g)
			s.count("cert_checks")
		}
	}
	if _, ok := get(s.w, certOf(c), SysNS, certOf(c).GetName()); !ok {
		s.viol("R03", "there is no Certificate after a reconciliation", "%s", c.key)
	}
}

func (s *scn) memOf(c *cl) int64 {
	var lim, req int64
	for _, x := range c.spec["podTemplate"].(m)["spec"].(m)["containers"].([]any) {
		if x.(m)["name"] != "mysqld" {
			continue
		}
		r, _ := x.(m)["resources"].(m)
		for k, p := range map[string]*int64{"limits": &lim, "requests": &req} {
			if y, ok := r[k].(m); ok {
				if q, ok := y["memory"].(string); ok {
					v := resource.MustParse(q)
					*p = v.Value()
				}
			}
		}
	}
	if req != 0 {
		return req
	}
	return lim
}

func (s *scn) confSettled(c *cl, o *mocov1beta2.MySQLCluster) {
	sts, ok := get(s.w, &appsv1.StatefulSet{}, c.ns, "moco-"+c.name)
	if !ok {
		return
	}
	s.count("conf_checks")
	name := ""
	for _, v := range sts.Spec.Template.Spec.Volumes {
		if v.Name == "mysql-conf" && v.ConfigMap != nil {
			name = v.ConfigMap.Name
		}
	}
	cm, ok := get(s.w, &corev1.ConfigMap{}, c.ns, name)
	if !ok {
		s.viol("R05", "the Pods refer to a my.cnf that does not exist", "%s: %q", c.key, name)
		return
	}
	if controllerUID(cm) != c.uid {
		s.viol("R05", "the Pods refer to a my.cnf that is not MOCO's", "%s: %q", c.key, name)
	}
	var user map[string]string
	if n, ok := c.spec["mysqlConfigMapName"].(string); ok {
		ucm, ok := get(s.w, &corev1.ConfigMap{}, c.ns, n)
		if !ok {
			return
		}
		user = ucm.Data
	}
	if d := judgeConf(cm.Data["my.cnf"], user, s.memOf(c)); d != "" {
		s.viol("R05", "my.cnf does not have the required contents", "%s: %s", c.key, d)
	}
	// history independence of the name: the same name never means two contents
	k := c.ns + "/" + name
	if old, ok := s.confs2[k]; ok && old != cm.Data["my.cnf"] {
		s.viol("R05", "a my.cnf changes under the same name, so the Pods do not follow", "%s: %s", c.key, name)
	}
	s.confs2[k] = cm.Data["my.cnf"]
	if !s.faulted && s.w.limit > 0 {
		n := 0
		for _, x := range s.all() {
			if y, ok := x.(*corev1.ConfigMap); ok && controllerUID(y) == c.uid && strings.HasPrefix(y.Name, "moco-"+c.name+".") {
				n++
			}
		}
		if n > s.w.limit+s.extraCM {
			s.viol("R05", "more my.cnf ConfigMaps are kept than the history limit says", "%s: %d, limit %d", c.key, n, s.w.limit)
		}
	}
}

const defaultSlow = "Path           /var/log/mysql/mysql.slow"

func (s *scn) slowSettled(c *cl) {
	sts, ok := get(s.w, &appsv1.StatefulSet{}, c.ns, "moco-"+c.name)
	if !ok {
		return
	}
	if c.spec["disableSlowQueryLogContainer"] == true {
		for _, x := range s.all() {
			if cm, ok := x.(*corev1.ConfigMap); ok && controllerUID(cm) == c.uid && strings.HasPrefix(cm.Name, "moco-slow-log-agent-config-") {
				s.viol("R06", "the configuration of a disabled slow-log container is kept", "%s: %s", c.key, cm.Name)
			}
		}
		return
	}
	s.count("slow_checks")
	for _, v := range sts.Spec.Template.Spec.Volumes {
		if v.Name != "slow-fluent-bit-config" || v.ConfigMap == nil {
			continue
		}
		cm, ok := get(s.w, &corev1.ConfigMap{}, c.ns, v.ConfigMap.Name)
		if !ok {
			s.viol("R06", "the Pods refer to a slow-log configuration that does not exist", "%s: %s", c.key, v.ConfigMap.Name)
			return
		}
		if controllerUID(cm) != c.uid {
			s.viol("R06", "the Pods refer to a slow-log configuration that is not the cluster's", "%s: %s", c.key, v.ConfigMap.Name)
		}
		got := cm.Data["fluent-bit.conf"]
		if t, ok := c.spec["slowQueryLogConfigTmpl"].(string); ok {
			want := strings.ReplaceAll(strings.ReplaceAll(t, "{{ .Path }}", "/var/log/mysql/mysql.slow"), "{{.Path}}", "/var/log/mysql/mysql.slow")
			if got != want {
				s.viol("R06", "the slow-log configuration is not what the template says", "%s: %q, want %q", c.key, got, want)
			}
		} else if !strings.Contains(got, defaultSlow) {
			s.viol("R06", "the slow-log configuration does not read the slow log", "%s: %q", c.key, got)
		}
		return
	}
	s.viol("R06", "the slow-log configuration is not mounted", "%s", c.key)
}

func mocoLabels(c *cl) m {
	return m{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": c.name, "app.kubernetes.io/created-by": "moco"}
}

func (s *scn) servicesSettled(c *cl) {
	s.count("service_checks")
	for _, x := range []struct {
		suffix, role, tmpl string
	}{{"", "", ""}, {"-primary", "primary", "primaryServiceTemplate"}, {"-replica", "replica", "replicaServiceTemplate"}} {
		nm := "moco-" + c.name + x.suffix
		svc, ok := get(s.w, &corev1.Service{}, c.ns, nm)
		if !ok {
			s.viol("R09", "a Service is missing after a reconciliation", "%s: %s", c.key, nm)
			continue
		}
		s.owned("R09", c, svc)
		sel := mocoLabels(c)
		if x.role != "" {
			sel["moco.cybozu.com/role"] = x.role
		}
		ports := l{m{"name": "mysql", "port": 3306, "protocol": "TCP", "targetPort": "mysql"}, m{"name": "mysqlx", "port": 33060, "protocol": "TCP", "targetPort": "mysqlx"}}
		sp := m{}
		md := m{"labels": mocoLabels(c)}
		if x.suffix == "" {
			ports = append(ports, m{"name": "mysql-admin", "port": 33062, "protocol": "TCP", "targetPort": "mysql-admin"})
			sp = m{"clusterIP": "None", "publishNotReadyAddresses": true}
		} else if t, ok := c.spec[x.tmpl].(m); ok {
			if ts, ok := t["spec"].(m); ok {
				sp = conv[m](ts)
				delete(sp, "selector")
				delete(sp, "clusterIP")
				if ps, ok := sp["ports"].([]any); ok {
					for _, p := range ps {
						nm := p.(m)["name"]
						if nm != "mysql" && nm != "mysqlx" {
							ports = append(ports, p)
						} else if np := p.(m)["nodePort"]; np != nil {
							for i := range ports {
								if ports[i].(m)["name"] == nm {
									ports[i].(m)["nodePort"] = np
								}
							}
						}
					}
				}
			}
			if tm, ok := t["metadata"].(m); ok {
				md = conv[m](tm)
				ls, _ := md["labels"].(m)
				if ls == nil {
					ls = m{}
				}
				for k, v := range mocoLabels(c) {
					ls[k] = v
				}
				md["labels"] = ls
			}
		}
		sp["ports"] = ports
		sp["selector"] = sel
		s.want("R09", "a Service is not as specified", c, m{"metadata": md, "spec": sp}, svc)
		if x.suffix != "" && svc.Spec.ClusterIP != "" {
			s.viol("R09", "a Service is not as specified", "%s: %s has the clusterIP %s of the template", c.key, nm, svc.Spec.ClusterIP)
		}
		if len(svc.Spec.Selector) != len(sel) {
			s.viol("R09", "a Service does not select the Pods of its role", "%s: %s has the selector %v", c.key, nm, svc.Spec.Selector)
		}
		if n := len(svc.Spec.Ports); n != len(ports) {
			s.viol("R09", "a Service has ports nobody asked for", "%s: %s %v", c.key, nm, svc.Spec.Ports)
		}
		if _, ok := svc.Spec.Selector["moco.cybozu.com/role"]; ok && x.role == "" {
			s.viol("R09", "the headless Service does not select all Pods", "%s: %v", c.key, svc.Spec.Selector)
		}
	}
	sa, ok := get(s.w, &corev1.ServiceAccount{}, c.ns, "moco-"+c.name)
	if !ok {
		s.viol("R09", "the ServiceAccount is missing after a reconciliation", "%s", c.key)
	} else {
		s.owned("R09", c, sa)
	}
}

func (s *scn) pdbSettled(c *cl) {
	pdb, ok := get(s.w, &policyv1.PodDisruptionBudget{}, c.ns, "moco-"+c.name)
	n := int(c.spec["replicas"].(float64))
	off := c.spec["offline"] == true
	if off || n < 3 {
		if ok {
			s.viol("R09", "there is a PodDisruptionBudget although the cluster is offline or small", "%s", c.key)
		}
		return
	}
	s.count("pdb_checks")
	if !ok {
		s.viol("R09", "there is no PodDisruptionBudget", "%s", c.key)
		return
	}
	s.owned("R09", c, pdb)
	want := n / 2
	if c.spec["backupPolicyName"] != nil && s.cronActive(c) {
		want = 0
		s.count("pdb_backup_checks")
	}
	if pdb.Spec.MaxUnavailable == nil || pdb.Spec.MaxUnavailable.IntValue() != want || pdb.Spec.MinAvailable != nil {
		s.viol("R09", "the PodDisruptionBudget allows the wrong number of disruptions", "%s: %v, want %d", c.key, pdb.Spec.MaxUnavailable, want)
	}
	s.want("R09", "the PodDisruptionBudget selects the wrong Pods", c, m{"spec": m{"selector": m{"matchLabels": mocoLabels(c)}}}, pdb)
	if len(pdb.Spec.Selector.MatchLabels) != 3 || len(pdb.Spec.Selector.MatchExpressions) != 0 {
		s.viol("R09", "the PodDisruptionBudget selects the wrong Pods", "%s: %v", c.key, pdb.Spec.Selector)
	}
}

func (s *scn) cronActive(c *cl) bool {
	cj, ok := get(s.w, &batchv1.CronJob{}, c.ns, "moco-backup-"+c.name)
	return ok && len(cj.Status.Active) > 0
}

func splitArgs(a []string) (pos []string, flags []string) {
	for _, x := range a {
		if strings.HasPrefix(x, "--") {
			flags = append(flags, x)
		} else {
			pos = append(pos, x)
		}
	}
	sort.Strings(flags)
	return
}

func jobArgs(jc m) (flags []string, bucket string) {
	b := jc["bucketConfig"].(m)
	flags = append(flags, fmt.Sprintf("--threads=%v", jc["threads"]))
	for k, f := range map[string]string{"region": "--region=", "endpointURL": "--endpoint=", "backendType": "--backend-type=", "caCert": "--ca-cert="} {
		if v, ok := b[k].(string); ok && v != "" {
			flags = append(flags, f+v)
		}
	}
	if b["usePathStyle"] == true {
		flags = append(flags, "--use-path-style")
	}
	sort.Strings(flags)
	return flags, b["bucketName"].(string)
}

// jobPod judges the Pod template of a backup or restore Job.
func (s *scn) jobPod(c *cl, what string, jc m, pwKey string, pos []string, t corev1.PodTemplateSpec) {
	flags, _ := jobArgs(jc)
	env := l{m{"name": "MYSQL_PASSWORD", "valueFrom": m{"secretKeyRef": m{"name": "moco-" + c.name, "key": pwKey}}}}
	if e, ok := jc["env"].([]any); ok {
		env = append(env, e...)
	}
	vols := l{}
	wv := conv[m](jc["workVolume"])
	wv["name"] = "work"
	vols = append(vols, wv)
	if v, ok := jc["volumes"].([]any); ok {
		vols = append(vols, v...)
	}
	vm := l{m{"name": "work", "mountPath": "/work"}}
	if v, ok := jc["volumeMounts"].([]any); ok {
		vm = append(vm, v...)
	}
	res := m{}
	req, lim := m{}, m{}
	for k, p := range map[string]struct {
		m m
		r string
	}{"cpu": {req, "cpu"}, "memory": {req, "memory"}, "maxCpu": {lim, "cpu"}, "maxMemory": {lim, "memory"}} {
		if v, ok := jc[k]; ok {
			p.m[p.r] = v
		}
	}
	res["requests"], res["limits"] = req, lim
	exp := m{"spec": m{"restartPolicy": "Never", "serviceAccountName": jc["serviceAccountName"], "volumes": vols,
		"containers": l{m{"name": what, "image": "backup:1", "env": env, "envFrom": jc["envFrom"], "volumeMounts": vm, "resources": res}}}}
	if what == "backup" {
		exp["spec"].(m)["affinity"] = jc["affinity"]
	}
	s.want("R10", "the "+what+" Job is not as specified", c, exp, t)
	if len(t.Spec.Containers) != 1 {
		return
	}
	gp, gf := splitArgs(t.Spec.Containers[0].Args)
	if !slices.Equal(gp, pos) || !slices.Equal(gf, flags) {
		s.viol("R10", "the "+what+" Job is run with the wrong arguments", "%s: %v, want %v %v", c.key, t.Spec.Containers[0].Args, pos, flags)
	}
}

func (s *scn) rbac(c *cl, name, sa string, full bool) {
	role, ok := get(s.w, &rbacv1.Role{}, c.ns, name)
	if !ok {
		s.viol("R10", "the Role of a Job is missing", "%s: %s", c.key, name)
		return
	}
	if controllerUID(role) != c.uid {
		s.viol("R10", "an object is not owned by the cluster", "%s: %s", c.key, okey(role))
	}
	can := func(group, res, verb, obj string) bool {
		for _, r := range role.Rules {
			if slices.Contains(r.APIGroups, group) && slices.Contains(r.Resources, res) && slices.Contains(r.Verbs, verb) && (len(r.ResourceNames) == 0 || slices.Contains(r.ResourceNames, obj)) {
				return true
			}
		}
		return false
	}
	for _, v := range []string{"get", "update"} {
		for _, res := range []string{"mysqlclusters", "mysqlclusters/status"} {
			if !can("moco.cybozu.com", res, v, c.name) {
				s.viol("R10", "a Job may not do what it needs to", "%s: %s %s", c.key, v, res)
			}
			if can("moco.cybozu.com", res, v, "someone-elses") {
				s.viol("R10", "a Job may change other clusters", "%s: %s %s", c.key, v, res)
			}
		}
	}
	if !can("", "pods", "get", "x") || !can("", "events", "create", "x") {
		s.viol("R10", "a Job may not do what it needs to", "%s: pods, events", c.key)
	}
	for _, res := range []string{"secrets", "pods/exec", "configmaps"} {
		for _, v := range []string{"get", "list", "create", "update", "delete", "patch"} {
			if can("", res, v, "x") {
				s.viol("R10", "a Job may do what it need not", "%s: %s %s", c.key, v, res)
			}
		}
	}
	for _, r := range role.Rules {
		if slices.Contains(r.Verbs, "*") || slices.Contains(r.Resources, "*") || slices.Contains(r.APIGroups, "*") || slices.Contains(r.Verbs, "delete") {
			s.viol("R10", "a Job may do what it need not", "%s: %v", c.key, r)
		}
	}
	rb, ok := get(s.w, &rbacv1.RoleBinding{}, c.ns, name)
	if !ok {
		s.viol("R10", "the RoleBinding of a Job is missing", "%s: %s", c.key, name)
		return
	}
	if rb.RoleRef.Kind != "Role" || rb.RoleRef.Name != name || len(rb.Subjects) != 1 || rb.Subjects[0].Kind != "ServiceAccount" || rb.Subjects[0].Name != sa || rb.Subjects[0].Namespace != c.ns {
		s.viol("R10", "the RoleBinding of a Job is wrong", "%s: %v %v, want %s", c.key, rb.RoleRef, rb.Subjects, sa)
	}
}

func (s *scn) backupSettled(c *cl, o *mocov1beta2.MySQLCluster) {
	name := "moco-backup-" + c.name
	cj, ok := get(s.w, &batchv1.CronJob{}, c.ns, name)
	if p, has := c.spec["backupPolicyName"].(string); has {
		s.count("backup_checks")
		bp, found := get(s.w, &mocov1beta2.BackupPolicy{}, c.ns, p)
		if !found {
			return
		}
		pol := conv[m](bp.Spec)
		if !ok {
			s.viol("R10", "there is no CronJob although the cluster has a backup policy", "%s", c.key)
			return
		}
		if controllerUID(cj) != c.uid {
			s.viol("R10", "an object is not owned by the cluster", "%s: %s", c.key, okey(cj))
		}
		exp := m{"schedule": pol["schedule"], "concurrencyPolicy": pol["concurrencyPolicy"], "jobTemplate": m{"spec": m{}}}
		for _, k := range []string{"timeZone", "startingDeadlineSeconds", "successfulJobsHistoryLimit", "failedJobsHistoryLimit"} {
			if v, ok := pol[k]; ok {
				exp[k] = v
			}
		}
		for _, k := range []string{"activeDeadlineSeconds", "backoffLimit"} {
			if v, ok := pol[k]; ok {
				exp["jobTemplate"].(m)["spec"].(m)[k] = v
			}
		}
		s.want("R10", "the CronJob is not as specified", c, m{"spec": exp}, cj)
		jc := pol["jobConfig"].(m)
		_, bucket := jobArgs(jc)
		s.jobPod(c, "backup", jc, "BACKUP_PASSWORD", []string{"backup", bucket, c.ns, c.name}, cj.Spec.JobTemplate.Spec.Template)
		s.rbac(c, name, jc["serviceAccountName"].(string), true)
	} else {
		if ok {
			s.viol("R10", "there is a CronJob although the cluster has no backup policy", "%s", c.key)
		}
		if r, ok := get(s.w, &rbacv1.Role{}, c.ns, name); ok {
			s.viol("R10", "the Role of the backup Job is kept although there is no policy", "%s", okey(r))
		}
		if r, ok := get(s.w, &rbacv1.RoleBinding{}, c.ns, name); ok {
			s.viol("R10", "the RoleBinding of the backup Job is kept although there is no policy", "%s", okey(r))
		}
	}
	job, ok := get(s.w, &batchv1.Job{}, c.ns, "moco-restore-"+c.name)
	rs, has := c.spec["restore"].(m)
	if !has {
		if ok {
			s.viol("R10", "there is a restore Job although nothing is to be restored", "%s", c.key)
		}
		return
	}
	if o.Status.RestoredTime != nil {
		return
	}
	s.count("restore_checks")
	if !ok {
		s.viol("R10", "there is no restore Job", "%s", c.key)
		return
	}
	if controllerUID(job) != c.uid {
		s.viol("R10", "an object is not owned by the cluster", "%s: %s", c.key, okey(job))
	}
	t, err := time.Parse(time.RFC3339, rs["restorePoint"].(string))
	if err != nil {
		panic(err)
	}
	jc := rs["jobConfig"].(m)
	_, bucket := jobArgs(jc)
	sch, _ := rs["schema"].(string)
	usr, _ := rs["users"].(string)
	s.jobPod(c, "restore", jc, "ADMIN_PASSWORD", []string{"restore", bucket, rs["sourceNamespace"].(string), rs["sourceName"].(string), c.ns, c.name, t.UTC().Format("20060102-150405"), sch, usr}, job.Spec.Template)
	if job.Spec.BackoffLimit == nil || *job.Spec.BackoffLimit != 0 {
		s.viol("R10", "a failed restoration would be repeated on a half restored instance", "%s: backoffLimit %v", c.key, job.Spec.BackoffLimit)
	}
	s.rbac(c, "moco-restore-"+c.name, jc["serviceAccountName"].(string), false)
}
