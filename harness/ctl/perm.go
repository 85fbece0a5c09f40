package ctl

import (
	"encoding/json"
	"math/rand"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	batchv1 "k8s.io/api/batch/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/utils/ptr"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verifharness/perm"
)

// asked judges each request of the controllers by the permissions they are shipped with.
func (s *scn) asked(verb string, gvk schema.GroupVersionKind, sub string, obj client.Object) {
	if !s.r.Wants("M02") {
		return
	}
	s.count("permission_checks")
	s.r.Sig("perm " + verb + " " + perm.Resource(gvk) + "/" + sub)
	if x := perm.Missing(verb, gvk, sub); x != "" {
		s.viol("M02", "a request of the controller is not permitted", "%s", x)
	}
	if gvk.Kind == "Role" && obj != nil {
		b, _ := json.Marshal(obj)
		var r rbacv1.Role
		if err := json.Unmarshal(b, &r); err != nil {
			panic(err)
		}
		s.count("grants")
		if x := perm.Grant(r.Rules); x != "" {
			s.viol("M02", "the controller grants what it may not do itself", "%s/%s: %s", r.Namespace, r.Name, x)
		}
	}
}

// JobRules are the permissions the backup Job and the restore Job of a cluster run with.
// They are unknown (not ok) if the cluster cannot be reconciled.
func JobRules(ns, name string) (backup, restore perm.Rules, ok bool) {
	w := NewWorld(rand.New(rand.NewSource(1)))
	g := gen{rand.New(rand.NewSource(1))}
	w.put(storageClass("fast", ptr.To(true)))
	w.put(&mocov1beta2.BackupPolicy{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: "pol"}, Spec: g.policy()})
	spec := conv[m](g.spec(nil, []string{"pol"}))
	delete(spec, "mysqlConfigMapName")
	delete(spec, "replicationSourceSecretName")
	delete(spec, "offline")
	spec["replicas"] = 1
	spec["backupPolicyName"] = "pol"
	spec["restore"] = m{"sourceName": "src", "sourceNamespace": "ns", "restorePoint": "2026-01-02T03:04:05Z", "jobConfig": g.jobConfig()}
	w.put(newCluster(ns, name, "u1", spec))
	key := types.NamespacedName{Namespace: ns, Name: name}
	for range 3 {
		if _, err := w.Reconcile(key); err != nil {
			return nil, nil, false
		}
	}
	rules := func(sa string) (r perm.Rules) {
		for _, o := range w.all() {
			b, ok := o.(*rbacv1.RoleBinding)
			if !ok || b.Namespace != ns {
				continue
			}
			for _, x := range b.Subjects {
				if x.Kind != "ServiceAccount" || x.Name != sa {
					continue
				}
				if role, ok := get(w, &rbacv1.Role{}, ns, b.RoleRef.Name); ok && b.RoleRef.Kind == "Role" {
					r = append(r, role.Rules...)
				}
			}
		}
		return r
	}
	for _, o := range w.all() {
		switch j := o.(type) {
		case *batchv1.CronJob:
			backup = rules(j.Spec.JobTemplate.Spec.Template.Spec.ServiceAccountName)
		case *batchv1.Job:
			restore = rules(j.Spec.Template.Spec.ServiceAccountName)
		}
	}
	return backup, restore, true
}
