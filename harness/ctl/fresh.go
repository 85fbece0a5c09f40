package ctl

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/utils/ptr"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// volumesSettled judges the claims of a cluster at rest.
func (s *scn) volumesSettled(c *cl) {
	sts, ok := get(s.w, &appsv1.StatefulSet{}, c.ns, "moco-"+c.name)
	if !ok {
		return
	}
	for _, v := range c.spec["volumeClaimTemplates"].([]any) {
		md := v.(m)["metadata"].(m)
		want := resource.MustParse(v.(m)["spec"].(m)["resources"].(m)["requests"].(m)["storage"].(string))
		for i := range int(*sts.Spec.Replicas) {
			p, ok := get(s.w, &corev1.PersistentVolumeClaim{}, c.ns, fmt.Sprintf("%s-moco-%s-%d", md["name"], c.name, i))
			if !ok {
				continue
			}
			s.count("claims_settled")
			sc := *p.Spec.StorageClassName
			q := p.Spec.Resources.Requests["storage"]
			if q.Cmp(want) < 0 && (sc == "fast" || sc == "std") {
				s.viol("R08", "a volume is not expanded to the size in the spec", "%s: %s has %s, the spec says %s", c.key, p.Name, q.String(), want.String())
			}
			for field, keys := range map[string][]string{"labels": {"synclabel", "tier"}, "annotations": {"sync.example.com/a", "sync.example.com/b"}} {
				tm, _ := md[field].(m)
				have := p.Labels
				if field == "annotations" {
					have = p.Annotations
				}
				for _, k := range keys {
					if x, ok := tm[k]; ok && any(have[k]) != x {
						s.viol("R08", "a listed label or annotation of a claim is not synchronised", "%s: %s %s=%q, want %v", c.key, p.Name, k, have[k], x)
					}
				}
			}
		}
	}
}

// norm is an object without what its history leaves on it.
func norm(o client.Object) string {
	x := o.DeepCopyObject().(client.Object)
	x.SetResourceVersion("")
	x.SetUID("")
	x.SetManagedFields(nil)
	x.SetCreationTimestamp(metav1.Time{})
	x.SetGeneration(0)
	x.SetSelfLink("")
	switch y := x.(type) {
	case *appsv1.StatefulSet:
		y.Status = appsv1.StatefulSetStatus{}
		y.Spec.UpdateStrategy.RollingUpdate = nil
		for i := range y.Spec.VolumeClaimTemplates {
			y.Spec.VolumeClaimTemplates[i].Status = corev1.PersistentVolumeClaimStatus{}
		}
	case *batchv1.CronJob:
		y.Status = batchv1.CronJobStatus{}
	case *corev1.Secret:
		for k := range y.Data {
			if strings.HasSuffix(k, "_PASSWORD") || strings.HasSuffix(k, "my.cnf") {
				y.Data[k] = nil
			}
		}
	}
	b, _ := json.Marshal(x)
	return string(b)
}

func (s *scn) skipFresh(c *cl, o client.Object, imagesChanged bool) bool {
	switch x := o.(type) {
	case *corev1.PersistentVolumeClaim, *mocov1beta2.MySQLCluster:
		return true
	case *corev1.ConfigMap:
		return true // judged by name below
	case *batchv1.Job:
		return true
	case *rbacv1.Role, *rbacv1.RoleBinding:
		return c.restored && x.GetName() == "moco-restore-"+c.name
	}
	return false
}

// fresh compares what a history of disturbances led to with what a controller
// makes of the same spec at once.
func (s *scn) fresh(c *cl) {
	f := &scn{w: NewWorld(rand.New(rand.NewSource(7))), g: gen{rand.New(rand.NewSource(7))}, r: s.r, cs: s.cs, cnt: map[string]int{}, confs2: map[string]string{}, agent: s.agent, fluent: s.fluent}
	f.w.onOp = nil
	f.w.limit = s.w.limit
	f.configure()
	for _, o := range s.all() {
		switch x := o.(type) {
		case *corev1.ConfigMap:
			if s.conf[x.Namespace+"/"+x.Name] != nil || strings.HasPrefix(x.Name, "conf") {
				f.w.put(&corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: x.Namespace, Name: x.Name}, Data: x.Data})
			}
		case *mocov1beta2.BackupPolicy:
			f.w.put(&mocov1beta2.BackupPolicy{ObjectMeta: metav1.ObjectMeta{Namespace: x.Namespace, Name: x.Name}, Spec: x.Spec})
		case *corev1.Secret:
			if x.Namespace == SysNS && x.Name == certOf(c).GetName() {
				f.w.put(&corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: x.Namespace, Name: x.Name}, Data: x.Data})
			}
		}
	}
	f.w.put(storageClass("fast", ptr.To(true)))
	f.w.put(storageClass("slow", nil))
	f.w.put(storageClass("std", ptr.To(true)))
	n := newCluster(c.ns, c.name, c.uid, c.spec)
	n.Generation = c.gen
	n.Annotations = map[string]string{}
	for k, v := range c.ann {
		n.Annotations[k] = v
	}
	f.w.put(n)
	if s.clusterObj(c).Status.RestoredTime != nil {
		modStatus(f.w, &mocov1beta2.MySQLCluster{}, c.ns, c.name, func(o *mocov1beta2.MySQLCluster) { o.Status.RestoredTime = &metav1.Time{Time: time.Unix(1, 0)} })
	}
	for range 2 {
		if _, err := f.w.Reconcile(c.key); err != nil {
			s.viol("R01", "a fresh controller cannot reconcile the same spec", "%s: %v", c.key, err)
			return
		}
		if s.cronActive(c) {
			modStatus(f.w, &batchv1.CronJob{}, c.ns, "moco-backup-"+c.name, func(o *batchv1.CronJob) { o.Status.Active = []corev1.ObjectReference{{Name: "x"}} })
		}
		f.stsController(c, true)
	}
	if _, err := f.w.Reconcile(c.key); err != nil {
		s.viol("R01", "a fresh controller cannot reconcile the same spec", "%s: %v", c.key, err)
		return
	}
	s.count("fresh_checks")
	get := func(x *scn) map[string]string {
		r := map[string]string{}
		for _, o := range x.all() {
			if controllerUID(o) != c.uid || s.skipFresh(c, o, false) {
				continue
			}
			r[okey(o)] = norm(o)
			if sts, ok := o.(*appsv1.StatefulSet); ok && s.imaged {
				// an update of MOCO does not touch the slow-log container until the spec is edited
				y := sts.DeepCopy()
				for i := range y.Spec.Template.Spec.Containers {
					if y.Spec.Template.Spec.Containers[i].Name == "slow-log" {
						y.Spec.Template.Spec.Containers[i].Image = ""
					}
				}
				r[okey(o)] = norm(y)
			}
		}
		return r
	}
	a, b := get(s), get(f)
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if a[k] == b[k] {
			s.count("fresh_objects")
			continue
		}
		s.viol("R01", "the outcome depends on the history", "%s: %s: %s", c.key, k, jsonDiff(a[k], b[k]))
	}
}

func jsonDiff(a, b string) string {
	if a == "" {
		return "missing, a fresh controller makes it"
	}
	if b == "" {
		return "exists, a fresh controller does not make it"
	}
	var x, y any
	_ = json.Unmarshal([]byte(a), &x)
	_ = json.Unmarshal([]byte(b), &y)
	return diffAny(x, y, "")
}

func diffAny(x, y any, path string) string {
	if mx, ok := x.(map[string]any); ok {
		if my, ok := y.(map[string]any); ok {
			ks := map[string]bool{}
			for k := range mx {
				ks[k] = true
			}
			for k := range my {
				ks[k] = true
			}
			var l []string
			for k := range ks {
				l = append(l, k)
			}
			sort.Strings(l)
			for _, k := range l {
				if d := diffAny(mx[k], my[k], path+"."+k); d != "" {
					return d
				}
			}
			return ""
		}
	}
	if lx, ok := x.([]any); ok {
		if ly, ok := y.([]any); ok && len(lx) == len(ly) {
			for i := range lx {
				if d := diffAny(lx[i], ly[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
					return d
				}
			}
			return ""
		}
	}
	p, _ := json.Marshal(x)
	q, _ := json.Marshal(y)
	if string(p) == string(q) {
		return ""
	}
	return fmt.Sprintf("%s is %.300s, fresh %.300s", path, p, q)
}
