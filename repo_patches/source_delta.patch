From b7793cf13041ed2bbe0bbf73cff898225e6c22c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:52 +0000
Subject: [PATCH 01/28] fix: do not dereference missing Pods of an offline
 cluster

removeAnnPreventDelete is run for every state, and while a cluster is
offline StatusSet.Pods holds nil pointers: the controller panicked on
every check of an offline cluster.
---
 clustering/operations.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index 37d50ce..de3ca61 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -354,6 +354,10 @@ func (p *managerProcess) addRoleLabel(ctx context.Context, ss *StatusSet, alive
 func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	for _, pod := range ss.Pods {
+		if pod == nil {
+			// there are no Pods while the cluster is offline
+			continue
+		}
 		if _, exists := pod.Annotations[constants.AnnPreventDelete]; exists {
 			newPod := pod.DeepCopy()
 			delete(newPod.Annotations, constants.AnnPreventDelete)
-- 
2.43.0


From fa8d17c9d32ea8c9998fc478bcd7d0b0a497c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:42 +0000
Subject: [PATCH 02/28] fix: accept any subset of the Pods while a cluster is
 offline

While a cluster goes offline its Pods disappear one by one. The index of
a remaining Pod was compared with the number of existing Pods, so the
status could not be updated as long as, say, only Pod 2 remained.
---
 clustering/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustering/status.go b/clustering/status.go
index 7db5c26..f8005e7 100644
--- a/clustering/status.go
+++ b/clustering/status.go
@@ -180,7 +180,7 @@ func (p *managerProcess) GatherStatus(ctx context.Context) (*StatusSet, error) {
 			return nil, fmt.Errorf("bad pod name: %s", pod.Name)
 		}
 
-		if index < 0 || index >= len(pods.Items) {
+		if index < 0 || index >= len(ss.Pods) {
 			return nil, fmt.Errorf("index out of range: %d", index)
 		}
 		ss.Pods[index] = &pods.Items[i]
-- 
2.43.0


From 9c0c7dba88bda4deb29dbe51bfc276f815d6ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:29 +0000
Subject: [PATCH 03/28] fix: do not drop a demote request when allowing pod
 deletion

When moco.cybozu.com/prevent-delete was the only annotation of a Pod at
the time it was read, removing it generated the merge patch
{"metadata":{"annotations":null}}, which also removed the
moco.cybozu.com/demote annotation added since then: the requested
switchover was lost.
---
 clustering/operations.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clustering/operations.go b/clustering/operations.go
index de3ca61..8f73396 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -14,6 +14,7 @@ import (
 	"github.com/cybozu-go/moco/pkg/event"
 	"google.golang.org/protobuf/types/known/durationpb"
 	corev1 "k8s.io/api/core/v1"
+	"k8s.io/apimachinery/pkg/types"
 	"k8s.io/client-go/util/retry"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 )
@@ -359,10 +360,11 @@ func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusS
 			continue
 		}
 		if _, exists := pod.Annotations[constants.AnnPreventDelete]; exists {
-			newPod := pod.DeepCopy()
-			delete(newPod.Annotations, constants.AnnPreventDelete)
 			log.Info("replication delay resolved, allow pod deletion", "pod", pod.Name)
-			if err := p.client.Patch(ctx, newPod, client.MergeFrom(pod)); err != nil {
+			// Do not use client.MergeFrom here. If this is the only annotation, it would generate
+			// a patch to remove all the annotations, including ones added in the meantime.
+			patch := fmt.Appendf(nil, `{"metadata":{"annotations":{%q:null}}}`, constants.AnnPreventDelete)
+			if err := p.client.Patch(ctx, pod.DeepCopy(), client.RawPatch(types.MergePatchType, patch)); err != nil {
 				return fmt.Errorf("failed to remove moco.cybozu.com/prevent-delete annotation: %w", err)
 			}
 		}
-- 
2.43.0


From 85f0a55e1d22a1bad8a7ed2a74ed608fa8ce0d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:52 +0000
Subject: [PATCH 04/28] fix: label the Pods of a healthy cluster

If a replica Pod is recreated and its mysqld comes back while the
clustering process is gathering the status, the process has the old Pod
with its role label, so it does not label the new one; as the cluster is
Healthy from then on, the new Pod never becomes a backend of the Service.
---
 clustering/operations.go | 14 ++++++++++++++
 clustering/process.go    |  3 ++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/clustering/operations.go b/clustering/operations.go
index 8f73396..1fac287 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -324,6 +324,20 @@ func (p *managerProcess) removeRoleLabel(ctx context.Context, ss *StatusSet) ([]
 	return noRoles, nil
 }
 
+// hasRoleLabels returns true if every pod has the label of its role.
+func hasRoleLabels(ss *StatusSet) bool {
+	for i, pod := range ss.Pods {
+		role := constants.RoleReplica
+		if i == ss.Primary {
+			role = constants.RolePrimary
+		}
+		if pod.Labels[constants.LabelMocoRole] != role {
+			return false
+		}
+	}
+	return true
+}
+
 // addRoleLabel adds the appropriate role label to the pods specified by the `alive` slice.
 // The `alive` parameter is a slice of pod indices that are alive and eligible for role labeling.
 func (p *managerProcess) addRoleLabel(ctx context.Context, ss *StatusSet, alive []int) error {
diff --git a/clustering/process.go b/clustering/process.go
index 7d9be5e..0a863d5 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -227,7 +227,8 @@ func (p *managerProcess) do(ctx context.Context) (bool, error) {
 			// do not configure the cluster after a switchover.
 			return true, nil
 		}
-		if ss.State == StateDegraded {
+		// A Pod recreated while the status was being gathered has no role label though its mysqld is ready.
+		if ss.State == StateDegraded || !hasRoleLabels(ss) {
 			return p.configure(ctx, ss)
 		}
 		return false, nil
-- 
2.43.0


From 523094844538763f3407da7d429253e2cdf17691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:12 +0000
Subject: [PATCH 05/28] fix: do not delete the slow-log ConfigMaps of other
 clusters

The prefix used to find the ConfigMaps of a cluster had no delimiter at
its end, so the ones of cluster "foo2" were taken for old ones of "foo".
---
 controllers/mysqlcluster_controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 6cc67d2..ccf5666 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -522,7 +522,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 		configTmpl = defaultConfigTmpl
 	}
 
-	prefix := cluster.SlowQueryLogAgentConfigMapName()
+	prefix := cluster.SlowQueryLogAgentConfigMapName() + "."
 	if !cluster.Spec.DisableSlowQueryLogContainer {
 		t, err := template.New("").Parse(configTmpl)
 		if err != nil {
@@ -541,7 +541,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 		fnv32a.Write([]byte(configTmpl))
 		suffix := hex.EncodeToString(fnv32a.Sum(nil))
 
-		cmName := fmt.Sprintf("%s.%s", prefix, suffix)
+		cmName := prefix + suffix
 
 		cm := corev1ac.ConfigMap(cmName, cluster.Namespace).
 			WithLabels(labelSet(cluster, false)).
-- 
2.43.0


From f262bb16e853f50d39147664e55ed9da3f662cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:20 +0000
Subject: [PATCH 06/28] fix: reconcile the RBAC of the backup Job when the
 CronJob is unchanged

If making the Role or RoleBinding failed once, or if they were removed
or edited afterwards, they were not made as long as the CronJob did not
change, so that backup Jobs failed for lack of permission.
---
 controllers/mysqlcluster_controller.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index ccf5666..671bd81 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1324,14 +1324,12 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 
 	key := client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}
 	orig, err := apply(ctx, r.Client, key, cronJob, batchv1ac.ExtractCronJob)
-	if err != nil {
-		if errors.Is(err, ErrApplyConfigurationNotChanged) {
-			return nil
-		}
+	changed := !errors.Is(err, ErrApplyConfigurationNotChanged)
+	if err != nil && changed {
 		return fmt.Errorf("failed to reconcile %s CronJob for backup: %w", cronJobName, err)
 	}
 
-	if debugController {
+	if debugController && changed {
 		var updated batchv1.CronJob
 
 		if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}, &updated); err != nil && !apierrors.IsNotFound(err) {
@@ -1343,7 +1341,9 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 		}
 	}
 
-	log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	if changed {
+		log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	}
 
 	if err := r.reconcileV1BackupJobRole(ctx, cluster); err != nil {
 		return err
-- 
2.43.0


From 42fd83834cb8d287bc332b7c4b6499837dae0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:28 +0000
Subject: [PATCH 07/28] fix: stop clustering and set the metrics whatever the
 status says

If clustering is resumed and stopped again before the clustering process
sets the condition ClusteringActive to True, the process was not stopped
because the condition was still False. After a restart of the controller,
the metrics of stopped clusters were not set for the same reason.
---
 controllers/mysqlcluster_controller.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 671bd81..176258d 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1826,10 +1826,7 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
-	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionClusteringActive) {
-		return nil
-	}
-
+	// The status may be of a previous stop, so this must not depend on it.
 	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
 
 	for _, cond := range cluster.Status.Conditions {
@@ -1864,10 +1861,6 @@ func (r *MySQLClusterReconciler) reconciliationStopV1(ctx context.Context, clust
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
-	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionReconciliationActive) {
-		return nil
-	}
-
 	meta.SetStatusCondition(&cluster.Status.Conditions,
 		metav1.Condition{
 			Type:    mocov1beta2.ConditionReconciliationActive,
-- 
2.43.0


From 83163cc8e133cc0e891e1983a1e7a98626e6b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:29 +0000
Subject: [PATCH 08/28] fix: do not record the generation of a failed
 reconciliation

If the first reconciliation after an edit failed before the StatefulSet
was applied, the next one took the edit for already reconciled and kept
the old slow-log container. The partition controller also waits for the
reconciliation of the latest generation to be completed.
---
 controllers/mysqlcluster_controller.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 176258d..18f6406 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1752,7 +1752,10 @@ func (r *MySQLClusterReconciler) updateStatus(ctx context.Context, cluster *moco
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
-	cluster.Status.ReconcileInfo.Generation = cluster.Generation
+	// A generation counts as reconciled only when the reconciliation is completed.
+	if reconcileErr == nil {
+		cluster.Status.ReconcileInfo.Generation = cluster.Generation
+	}
 	cluster.Status.ReconcileInfo.ReconcileVersion = 1
 
 	stsReady := metav1.ConditionFalse
-- 
2.43.0


From 0bc8cb4d9e07aa34acda12009982917acf10235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:36 +0000
Subject: [PATCH 09/28] fix: remove the options to disable binary logging in
 their loose form too

"loose_skip_log_bin" has the same effect as "skip_log_bin".
---
 pkg/mycnf/generator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index 2dfe93d..919a9f7 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -165,10 +165,11 @@ func Generate(userConf map[string]string, memTotal int64) string {
 	}
 
 	delete(mysqldConf, opaqueKey)
-	delete(mysqldConf, "log_bin")
-	delete(mysqldConf, "log_error")
-	delete(mysqldConf, "skip_log_bin")
-	delete(mysqldConf, "disable_log_bin")
+	for _, k := range []string{"log_bin", "log_error", "skip_log_bin", "disable_log_bin"} {
+		for _, kk := range listConfKeyVariations(k) {
+			delete(mysqldConf, kk)
+		}
+	}
 
 	conf := make(map[string]map[string]string)
 	conf["mysqld"] = mysqldConf
-- 
2.43.0


From 415d4a6e13a3d3e4e5cde09cbeb9071b35c44b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 10/28] fix: generate the same my.cnf when an option is given
 in two forms

If the user's ConfigMap had both "max-connections" and "max_connections",
the contents of my.cnf, and so the name of its ConfigMap, depended on the
iteration order of a map, which restarted mysqld again and again.
---
 pkg/mycnf/generator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index 919a9f7..f91c20f 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -230,12 +230,19 @@ func mergeSection(conf1, conf2 map[string]string) map[string]string {
 		conf[nk] = v
 	}
 
-	for k, v := range conf2 {
+	// sort keys to generate reproducible my.cnf even if the same option is given in two forms
+	keys := make([]string, 0, len(conf2))
+	for k := range conf2 {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	for _, k := range keys {
 		nk := normalizeConfKey(k)
 		for _, kk := range listConfKeyVariations(nk) {
 			delete(conf, kk)
 		}
-		conf[nk] = v
+		conf[nk] = conf2[k]
 	}
 
 	return conf
-- 
2.43.0


From 109bc5a23b45ce98aa7fbcf59ac187bed7e8d608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:51 +0000
Subject: [PATCH 11/28] fix: do not panic when syncing annotations to a PVC
 that has none

---
 controllers/pvc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index a826ca4..23605d6 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -308,6 +308,9 @@ func (r *MySQLClusterReconciler) syncPVCLabelAndAnnotationValues(ctx context.Con
 		for _, key := range r.PVCSyncAnnotationKeys {
 			if value, ok := template.Annotations[key]; ok {
 				if pvc.Annotations[key] != value {
+					if pvc.Annotations == nil {
+						pvc.Annotations = make(map[string]string)
+					}
 					pvc.Annotations[key] = value
 					isUpdate = true
 				}
-- 
2.43.0


From 92665b3c22a0035674ebf940e3c554464e38d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:58 +0000
Subject: [PATCH 12/28] fix: skip PVCs larger than the template when resizing

If one of the PVCs had been expanded by others, an increase of the
template to a smaller size made every reconciliation fail.
---
 controllers/pvc.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index 23605d6..a21c294 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -2,7 +2,6 @@ package controllers
 
 import (
 	"context"
-	"errors"
 	"fmt"
 	"strings"
 
@@ -19,10 +18,6 @@ import (
 	crlog "sigs.k8s.io/controller-runtime/pkg/log"
 )
 
-var (
-	ErrReduceVolumeSize = errors.New("cannot reduce volume size")
-)
-
 // reconcilePVC syncs the PVC and volumeClaimTemplate labels and annotations and resizes the PVC as needed.
 // The synchronization of labels and annotations always happens, regardless of the StatefulSet's state.
 // Subsequently, the PVC is resized, if necessary.
@@ -141,8 +136,9 @@ func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1
 		case 1: // current volume size is greater than new size
 			// The size of the Persistent Volume Claims (PVC) cannot be reduced.
 			// Although MOCO permits the reduction of PVC, an automatic resize is not performed.
-			// An error arises if a PVC involving reduction is passed, as it's unexpected.
-			return resizedPVC, fmt.Errorf("failed to resize pvc %q, want size: %s, deployed size: %s: %w", pvc.Name, newSize.String(), pvc.Spec.Resources.Requests.Storage().String(), ErrReduceVolumeSize)
+			// The PVC may have been expanded by others, so this must not block the other PVCs.
+			log.Info("PVC is larger than the requested size, skipped", "pvcName", pvc.Name, "want", newSize.String(), "deployed", pvc.Spec.Resources.Requests.Storage().String())
+			continue
 		case -1: // current volume size is smaller than new size
 			pvc.Spec.Resources.Requests[corev1.ResourceStorage] = *newSize
 
-- 
2.43.0


From dd56fc451d2aba4cbd79a4379e22e8bd6e3b16d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:06 +0000
Subject: [PATCH 13/28] fix: resize PVCs even if the StatefulSet has the new
 size already

PVCs are not resized while the StatefulSet is being updated or the
cluster is offline, but the StatefulSet is recreated with the new size
then. Afterwards the PVCs were taken for resized, so they kept the old
size forever.
---
 controllers/pvc.go | 78 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index a21c294..8628ad7 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -14,6 +14,7 @@ import (
 	"k8s.io/apimachinery/pkg/api/resource"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/types"
+	"k8s.io/utils/ptr"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 	crlog "sigs.k8s.io/controller-runtime/pkg/log"
 )
@@ -50,7 +51,11 @@ func (r *MySQLClusterReconciler) reconcilePVC(ctx context.Context, cluster *moco
 		return nil
 	}
 
-	resizeTarget, ok := r.needResizePVC(cluster, &sts)
+	deployed, err := r.withDeployedVolumeSize(ctx, &sts)
+	if err != nil {
+		return err
+	}
+	resizeTarget, ok := r.needResizePVC(cluster, deployed)
 	if !ok {
 		return nil
 	}
@@ -99,18 +104,9 @@ func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1
 		}
 	}
 
-	selector, err := metav1.LabelSelectorAsSelector(sts.Spec.Selector)
+	pvcs, err := r.listPVCs(ctx, sts)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse selector: %w", err)
-	}
-
-	var pvcs corev1.PersistentVolumeClaimList
-	listOpts := []client.ListOption{
-		client.InNamespace(sts.Namespace),
-		client.MatchingLabelsSelector{Selector: selector},
-	}
-	if err := r.List(ctx, &pvcs, listOpts...); err != nil {
-		return nil, fmt.Errorf("failed to list PVCs: %w", err)
+		return nil, err
 	}
 
 	resizedPVC := make(map[string]corev1.PersistentVolumeClaim)
@@ -155,6 +151,51 @@ func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1
 	return resizedPVC, nil
 }
 
+func (r *MySQLClusterReconciler) listPVCs(ctx context.Context, sts *appsv1.StatefulSet) (*corev1.PersistentVolumeClaimList, error) {
+	selector, err := metav1.LabelSelectorAsSelector(sts.Spec.Selector)
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse selector: %w", err)
+	}
+
+	var pvcs corev1.PersistentVolumeClaimList
+	listOpts := []client.ListOption{
+		client.InNamespace(sts.Namespace),
+		client.MatchingLabelsSelector{Selector: selector},
+	}
+	if err := r.List(ctx, &pvcs, listOpts...); err != nil {
+		return nil, fmt.Errorf("failed to list PVCs: %w", err)
+	}
+	return &pvcs, nil
+}
+
+// withDeployedVolumeSize returns a copy of the StatefulSet whose volume claim templates have the size of the smallest deployed PVC.
+// The StatefulSet is recreated with the new size also when the PVCs could not be resized because it was being updated
+// or the cluster was offline. So the templates do not tell whether the PVCs have been resized.
+func (r *MySQLClusterReconciler) withDeployedVolumeSize(ctx context.Context, sts *appsv1.StatefulSet) (*appsv1.StatefulSet, error) {
+	pvcs, err := r.listPVCs(ctx, sts)
+	if err != nil {
+		return nil, err
+	}
+
+	sizes := make(map[string]resource.Quantity, len(pvcs.Items))
+	for _, pvc := range pvcs.Items {
+		sizes[pvc.Name] = *pvc.Spec.Resources.Requests.Storage()
+	}
+
+	deployed := sts.DeepCopy()
+	for i := range deployed.Spec.VolumeClaimTemplates {
+		template := &deployed.Spec.VolumeClaimTemplates[i]
+		for j := int32(0); j < ptr.Deref(sts.Spec.Replicas, 1); j++ {
+			size, ok := sizes[fmt.Sprintf("%s-%s-%d", template.Name, sts.Name, j)]
+			if !ok || size.Cmp(*template.Spec.Resources.Requests.Storage()) >= 0 {
+				continue
+			}
+			template.Spec.Resources.Requests[corev1.ResourceStorage] = size
+		}
+	}
+	return deployed, nil
+}
+
 func (*MySQLClusterReconciler) needResizePVC(cluster *mocov1beta2.MySQLCluster, sts *appsv1.StatefulSet) (map[string]corev1.PersistentVolumeClaim, bool) {
 	if len(sts.Spec.VolumeClaimTemplates) == 0 {
 		return nil, false
@@ -258,18 +299,9 @@ func (r *MySQLClusterReconciler) syncPVCLabelAndAnnotationValues(ctx context.Con
 		return nil
 	}
 
-	selector, err := metav1.LabelSelectorAsSelector(sts.Spec.Selector)
+	deployedPVCs, err := r.listPVCs(ctx, sts)
 	if err != nil {
-		return fmt.Errorf("failed to parse selector: %w", err)
-	}
-
-	var deployedPVCs corev1.PersistentVolumeClaimList
-	listOpts := []client.ListOption{
-		client.InNamespace(sts.Namespace),
-		client.MatchingLabelsSelector{Selector: selector},
-	}
-	if err := r.List(ctx, &deployedPVCs, listOpts...); err != nil {
-		return fmt.Errorf("failed to list PVCs: %w", err)
+		return err
 	}
 
 	var templatePVCSet = make(map[string]mocov1beta2.PersistentVolumeClaim, len(cluster.Spec.VolumeClaimTemplates))
-- 
2.43.0


From 8d76bf275d4f62846220e694a91142f6535b9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:37 +0000
Subject: [PATCH 14/28] fix: do not patch the partition of a StatefulSet that
 has changed

---
 controllers/partition_controller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 17566ce..9b8f05d 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -302,7 +302,9 @@ func (r *StatefulSetPartitionReconciler) patchNewPartition(ctx context.Context,
 		return nil
 	}
 
-	patch := client.MergeFrom(sts.DeepCopy())
+	// The partition must be lowered one by one.  The optimistic lock prevents
+	// a partition calculated from a stale StatefulSet from being applied.
+	patch := client.MergeFromWithOptions(sts.DeepCopy(), client.MergeFromWithOptimisticLock{})
 	sts.Spec.UpdateStrategy.RollingUpdate.Partition = &newPartition
 
 	if err := r.Patch(ctx, sts, patch); err != nil {
-- 
2.43.0


From 90364aaac714d38e5fbc94eed2329162bdfa2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:50 +0000
Subject: [PATCH 15/28] fix: sort Pods by their ordinals to roll out 10 or more
 replicas

---
 controllers/partition_controller.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 9b8f05d..f70ce76 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -178,7 +178,7 @@ func (r *StatefulSetPartitionReconciler) isRolloutReady(ctx context.Context, clu
 }
 
 // getSortedPodList returns a sorted child pod list.
-// The list is sorted by pod name with ascending order.
+// The list is sorted by the ordinal of the pods with ascending order.
 func (r *StatefulSetPartitionReconciler) getSortedPodList(ctx context.Context, sts *appsv1.StatefulSet) (*corev1.PodList, error) {
 	podList := &corev1.PodList{}
 	listOpts := []client.ListOption{
@@ -191,12 +191,14 @@ func (r *StatefulSetPartitionReconciler) getSortedPodList(ctx context.Context, s
 		return nil, err
 	}
 
-	// NOTE: This sorts lexicographically by pod name, which works correctly
-	// as long as the number of replicas is less than 10. For 10+ replicas,
-	// the sort order would be incorrect (e.g. "-10" < "-2").
-	// If 10+ replicas are needed, this should be changed to sort by numeric ordinal.
+	// The names differ only in the ordinals, which have no leading zeros.
+	// So, a shorter name has a smaller ordinal (e.g. "-2" < "-10").
 	sort.Slice(podList.Items, func(i, j int) bool {
-		return podList.Items[i].Name < podList.Items[j].Name
+		a, b := podList.Items[i].Name, podList.Items[j].Name
+		if len(a) != len(b) {
+			return len(a) < len(b)
+		}
+		return a < b
 	})
 
 	return podList, nil
-- 
2.43.0


From d188a0271d26c9eb0e57542fa867c5b93f18c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:50 +0000
Subject: [PATCH 16/28] fix: leave StatefulSets of other operators'
 MySQLClusters alone in the webhook

---
 api/v1beta2/statefulset_webhhok.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/v1beta2/statefulset_webhhok.go b/api/v1beta2/statefulset_webhhok.go
index d45e02b..50f1b82 100644
--- a/api/v1beta2/statefulset_webhhok.go
+++ b/api/v1beta2/statefulset_webhhok.go
@@ -40,7 +40,7 @@ func (*StatefulSetDefaulter) Default(ctx context.Context, sts *appsv1.StatefulSe
 		return nil
 	}
 
-	if sts.OwnerReferences[0].Kind != "MySQLCluster" && sts.OwnerReferences[0].APIVersion != GroupVersion.String() {
+	if sts.OwnerReferences[0].Kind != "MySQLCluster" || sts.OwnerReferences[0].APIVersion != GroupVersion.String() {
 		return nil
 	}
 
-- 
2.43.0


From b01a89e2f6aa94d2a886a53fd11a7449f0afd905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:54 +0000
Subject: [PATCH 17/28] fix: require storage requests of volume claim templates

---
 api/v1beta2/mysqlcluster_types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index 42f5d91..3cd8b87 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -172,9 +172,12 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 	}
 
 	for _, vc := range s.VolumeClaimTemplates {
-		if vc.Spec.Resources == nil || vc.Spec.Resources.Requests == nil || vc.Spec.Resources.Requests.Storage() == nil {
-			allErrs = append(allErrs, field.Required(pp, fmt.Sprintf("required volume claim template %s storage requests is missing", vc.Name)))
+		if vc.Spec.Resources != nil && vc.Spec.Resources.Requests != nil {
+			if _, ok := (*vc.Spec.Resources.Requests)[corev1.ResourceStorage]; ok {
+				continue
+			}
 		}
+		allErrs = append(allErrs, field.Required(pp, fmt.Sprintf("required volume claim template %s storage requests is missing", vc.Name)))
 	}
 
 	pp = p.Child("serverIDBase")
-- 
2.43.0


From 78c8e6b815027d35a7a286fdd67e1aca5ebd013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:02 +0000
Subject: [PATCH 18/28] fix: reserve the names of all volumes and init
 containers MOCO adds

---
 api/v1beta2/mysqlcluster_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index 3cd8b87..3649d55 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -258,7 +258,7 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		}
 
 		switch *container.Name {
-		case constants.InitContainerName:
+		case constants.InitContainerName, constants.CopyInitContainerName:
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), container.Name, "reserved init container name"))
 		}
 	}
@@ -272,7 +272,8 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		switch *vol.Name {
 		case constants.TmpVolumeName, constants.RunVolumeName, constants.VarLogVolumeName,
 			constants.MySQLConfVolumeName, constants.MySQLInitConfVolumeName,
-			constants.MySQLConfSecretVolumeName, constants.SlowQueryLogAgentConfigVolumeName:
+			constants.MySQLConfSecretVolumeName, constants.SlowQueryLogAgentConfigVolumeName,
+			constants.GRPCSecretVolumeName, constants.SharedVolumeName:
 
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), vol.Name, "reserved volume name"))
 		}
-- 
2.43.0


From dc89378c0a887e59d9c0101f6a105e0dc950437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:09 +0000
Subject: [PATCH 19/28] fix: do not panic when the old StatefulSet has no
 partition

---
 api/v1beta2/statefulset_webhhok.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/api/v1beta2/statefulset_webhhok.go b/api/v1beta2/statefulset_webhhok.go
index 50f1b82..2e861bd 100644
--- a/api/v1beta2/statefulset_webhhok.go
+++ b/api/v1beta2/statefulset_webhhok.go
@@ -9,6 +9,7 @@ import (
 	appsv1 "k8s.io/api/apps/v1"
 	"k8s.io/apimachinery/pkg/api/equality"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
+	"k8s.io/utils/ptr"
 	ctrl "sigs.k8s.io/controller-runtime"
 	"sigs.k8s.io/controller-runtime/pkg/webhook/admission"
 )
@@ -66,7 +67,11 @@ func (*StatefulSetDefaulter) Default(ctx context.Context, sts *appsv1.StatefulSe
 	}
 
 	partition := *sts.Spec.UpdateStrategy.RollingUpdate.Partition
-	oldPartition := *oldSts.Spec.UpdateStrategy.RollingUpdate.Partition
+	// The old one has no partition if its rolling update was forced.
+	oldPartition := int32(0)
+	if ru := oldSts.Spec.UpdateStrategy.RollingUpdate; ru != nil {
+		oldPartition = ptr.Deref(ru.Partition, 0)
+	}
 
 	newSts := sts.DeepCopy()
 	newSts.Spec.UpdateStrategy = oldSts.Spec.UpdateStrategy
-- 
2.43.0


From 3c33b6b1b692addc161472409deea586639c97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:34 +0000
Subject: [PATCH 20/28] fix: do not store the output of failed tar and zstd
 commands as a backup

---
 backup/backup.go | 55 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/backup/backup.go b/backup/backup.go
index dc764e1..918ae64 100644
--- a/backup/backup.go
+++ b/backup/backup.go
@@ -12,6 +12,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 	"syscall"
 	"time"
 
@@ -344,13 +345,20 @@ func (bm *BackupManager) backupFull(ctx context.Context, op bkop.Operator) error
 	_ = pw.Close()
 	pw = nil
 
+	wait := sync.OnceValue(func() error {
+		if err := tarCmd.Wait(); err != nil {
+			return fmt.Errorf("tar command failed: %w", err)
+		}
+		return nil
+	})
+
 	bw := &ByteCountWriter{}
 	key := calcKey(bm.cluster.Namespace, bm.cluster.Name, constants.DumpFilename, bm.startTime)
-	if err := bm.bucket.Put(ctx, key, io.TeeReader(pr, bw), usage); err != nil {
+	if err := bm.bucket.Put(ctx, key, io.TeeReader(&commandReader{pr, wait}, bw), usage); err != nil {
 		return fmt.Errorf("failed to put dump.tar: %w", err)
 	}
-	if err := tarCmd.Wait(); err != nil {
-		return fmt.Errorf("tar command failed: %w", err)
+	if err := wait(); err != nil {
+		return err
 	}
 
 	bm.dumpSize = bw.Written()
@@ -436,17 +444,28 @@ func (bm *BackupManager) backupBinlog(ctx context.Context, op bkop.Operator) err
 	}
 	_ = pw2.Close()
 	pw2 = nil
+	// without this, tar would be blocked forever if zstd exited early.
+	_ = pr.Close()
+	pr = nil
+
+	wait := sync.OnceValue(func() error {
+		tarErr := tarCmd.Wait()
+		if err := zstdCmd.Wait(); err != nil {
+			return fmt.Errorf("zstd command failed: %w", err)
+		}
+		if tarErr != nil {
+			return fmt.Errorf("tar command failed: %w", tarErr)
+		}
+		return nil
+	})
 
 	bw := &ByteCountWriter{}
 	key := calcKey(bm.cluster.Namespace, bm.cluster.Name, constants.BinlogFilename, lastBackup.Time.Time)
-	if err := bm.bucket.Put(ctx, key, io.TeeReader(pr2, bw), usage); err != nil {
+	if err := bm.bucket.Put(ctx, key, io.TeeReader(&commandReader{pr2, wait}, bw), usage); err != nil {
 		return fmt.Errorf("failed to put binlog.tar.zst: %w", err)
 	}
-	if err := tarCmd.Wait(); err != nil {
-		return fmt.Errorf("tar command failed: %w", err)
-	}
-	if err := zstdCmd.Wait(); err != nil {
-		return fmt.Errorf("zstd command failed: %w", err)
+	if err := wait(); err != nil {
+		return err
 	}
 
 	bm.binlogSize = bw.Written()
@@ -454,6 +473,24 @@ func (bm *BackupManager) backupBinlog(ctx context.Context, op bkop.Operator) err
 	return nil
 }
 
+// commandReader reads the output of commands.
+// At the end of the output, it waits for the commands and returns their failure
+// instead of io.EOF so that the output of failed commands will not be stored.
+type commandReader struct {
+	r    io.Reader
+	wait func() error
+}
+
+func (c *commandReader) Read(p []byte) (int, error) {
+	n, err := c.r.Read(p)
+	if err == io.EOF {
+		if werr := c.wait(); werr != nil {
+			return n, werr
+		}
+	}
+	return n, err
+}
+
 func podIsReady(pod *corev1.Pod) bool {
 	for _, cond := range pod.Status.Conditions {
 		if cond.Type != corev1.PodReady {
-- 
2.43.0


From 39d8b171273b897319349642e40c2bd17c99e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:40 +0000
Subject: [PATCH 21/28] fix: never restore binlogs of a backup whose dump is
 missing

---
 backup/restore.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/backup/restore.go b/backup/restore.go
index 9489f72..e7fd608 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -204,7 +204,7 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 	sort.Strings(keys)
 
 	var nearest time.Time
-	var nearestDump, nearestBinlog string
+	var nearestDump, nearestBinlog, lastBinlog string
 
 	for _, key := range keys {
 		isBinlog := strings.HasSuffix(key, constants.BinlogFilename)
@@ -223,15 +223,17 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 			break
 		}
 
+		// "binlog.tar.zst" comes before "dump.tar" of the same backup.
 		if isBinlog {
-			nearestBinlog = key
+			lastBinlog = key
 			continue
 		}
 
 		nearestDump = key
 		nearest = bkt
-		if path.Dir(nearestDump) != path.Dir(nearestBinlog) {
-			nearestBinlog = ""
+		nearestBinlog = ""
+		if path.Dir(nearestDump) == path.Dir(lastBinlog) {
+			nearestBinlog = lastBinlog
 		}
 	}
 
-- 
2.43.0


From 961ae6c30f2baf808c86d42817b3bddf9f97087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:45 +0000
Subject: [PATCH 22/28] fix: leave the instance read-only when a restoration
 fails

---
 backup/restore.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index e7fd608..56ede58 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -150,6 +150,16 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 
 	rm.log.Info("restoring from a backup", "dump", dumpKey, "binlog", binlogKey)
 
+	finished := false
+	defer func() {
+		// leave the instance read-only even if the restoration fails.
+		if !finished {
+			if err := op.FinishRestore(context.WithoutCancel(ctx)); err != nil {
+				rm.log.Error(err, "failed to make the instance read-only")
+			}
+		}
+	}()
+
 	if err := op.PrepareRestore(ctx); err != nil {
 		return fmt.Errorf("failed to prepare instance for restoration: %w", err)
 	}
@@ -170,6 +180,7 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 	if err := op.FinishRestore(ctx); err != nil {
 		return fmt.Errorf("failed to finalize the restoration: %w", err)
 	}
+	finished = true
 
 	err = retry.RetryOnConflict(retry.DefaultRetry, func() error {
 		cluster = &mocov1beta2.MySQLCluster{}
-- 
2.43.0


From e7e09e1fedb02a8e33fd31a6445f34f930d366de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:51 +0000
Subject: [PATCH 23/28] fix: moco-backup restore fails when it gives up
 retrying

---
 cmd/moco-backup/cmd/restore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/moco-backup/cmd/restore.go b/cmd/moco-backup/cmd/restore.go
index 5d305c5..1cb6a3e 100644
--- a/cmd/moco-backup/cmd/restore.go
+++ b/cmd/moco-backup/cmd/restore.go
@@ -37,7 +37,7 @@ USERS:             The target users to restore.  If USERS is empty, all users ar
 			time.Sleep(1 * time.Second)
 		}
 
-		return nil
+		return backup.ErrBadConnection
 	},
 }
 
-- 
2.43.0


From 738adec4dc80f6db7f8daafd1c7e14c362b5db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:00 +0000
Subject: [PATCH 24/28] fix: keep the certificates in effect when ca.crt has no
 certificate

---
 pkg/cert/cert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cert/cert.go b/pkg/cert/cert.go
index f5ed76d..2099365 100644
--- a/pkg/cert/cert.go
+++ b/pkg/cert/cert.go
@@ -65,7 +65,9 @@ func (r *Reloader) check() error {
 		return fmt.Errorf("failed to load ca.crt: %w", err)
 	}
 	pool := x509.NewCertPool()
-	pool.AppendCertsFromPEM(data)
+	if !pool.AppendCertsFromPEM(data) {
+		return errors.New("failed to load ca.crt: no valid certificate")
+	}
 
 	cert, err := tls.LoadX509KeyPair(filepath.Join(r.dir, "tls.crt"), filepath.Join(r.dir, "tls.key"))
 	if err != nil {
-- 
2.43.0


From 624dece97668864a3642751b8c826440eacdcf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:00 +0000
Subject: [PATCH 25/28] fix: find lower_case_table_names in the forms my.cnf
 accepts

---
 controllers/mysql_container.go |  3 ++-
 pkg/mycnf/generator.go         | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/controllers/mysql_container.go b/controllers/mysql_container.go
index 8bf48bf..27f4a04 100644
--- a/controllers/mysql_container.go
+++ b/controllers/mysql_container.go
@@ -8,6 +8,7 @@ import (
 
 	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
 	"github.com/cybozu-go/moco/pkg/constants"
+	"github.com/cybozu-go/moco/pkg/mycnf"
 	corev1 "k8s.io/api/core/v1"
 	"k8s.io/apimachinery/pkg/api/resource"
 	"k8s.io/apimachinery/pkg/util/intstr"
@@ -427,7 +428,7 @@ func (r *MySQLClusterReconciler) getEnableLowerCaseTableNamesFromConf(ctx contex
 		return "", false, fmt.Errorf("failed to get user defined mysql conf configmap: %w", err)
 	}
 
-	v, ok := cm.Data[constants.LowerCaseTableNamesConfKey]
+	v, ok := mycnf.UserValue(cm.Data, constants.LowerCaseTableNamesConfKey)
 	return v, ok, nil
 }
 
diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index f91c20f..ba3bacb 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -222,6 +222,18 @@ func Generate(userConf map[string]string, memTotal int64) string {
 	return b.String()
 }
 
+// UserValue returns the value that `userConf` gives to a mysqld option.
+// Like in Generate, the option can be given in any form such as "foo-bar" or "loose_foo_bar".
+func UserValue(userConf map[string]string, key string) (string, bool) {
+	conf := mergeSection(nil, userConf)
+	for _, k := range listConfKeyVariations(normalizeConfKey(key)) {
+		if v, ok := conf[k]; ok {
+			return v, true
+		}
+	}
+	return "", false
+}
+
 func mergeSection(conf1, conf2 map[string]string) map[string]string {
 	conf := make(map[string]string)
 
-- 
2.43.0


From 5823320b8bcc91d7f8dbee3565829dee74abdc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:36 +0000
Subject: [PATCH 26/28] fix: do not revert the slow-log container to that of an
 outdated StatefulSet

---
 controllers/mysqlcluster_controller.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 18f6406..530ab7a 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -881,6 +881,7 @@ func (r *MySQLClusterReconciler) reconcileV1StatefulSet(ctx context.Context, clu
 	containers = append(containers, mysqldContainer)
 	containers = append(containers, r.makeV1AgentContainer(cluster))
 
+	keptContainer := false
 	if !cluster.Spec.DisableSlowQueryLogContainer {
 		force := cluster.Status.ReconcileInfo.Generation != cluster.Generation
 		sts, err := appsv1ac.ExtractStatefulSet(&orig, fieldManager)
@@ -889,6 +890,7 @@ func (r *MySQLClusterReconciler) reconcileV1StatefulSet(ctx context.Context, clu
 		}
 
 		containers = append(containers, r.makeV1SlowQueryLogContainer(cluster, sts, force))
+		keptContainer = !force
 	}
 	if len(cluster.Spec.Collectors) > 0 {
 		containers = append(containers, r.makeV1ExporterContainer(cluster, cluster.Spec.Collectors))
@@ -1000,6 +1002,12 @@ func (r *MySQLClusterReconciler) reconcileV1StatefulSet(ctx context.Context, clu
 		}
 	}
 
+	// The slow-log container has been taken over from orig, which may be outdated.
+	// Do not let it overwrite a newer one.
+	if keptContainer && !needRecreate && orig.ResourceVersion != "" {
+		sts.WithResourceVersion(orig.ResourceVersion)
+	}
+
 	if err := r.Apply(ctx, sts, client.FieldOwner(fieldManager), client.ForceOwnership); err != nil {
 		if needRecreate {
 			metrics.StatefulSetRecreateErrorTotal.WithLabelValues(cluster.Name, cluster.Namespace).Inc()
-- 
2.43.0


From f0b08d534d6d80212c9d450a8604a62423c59677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:36 +0000
Subject: [PATCH 27/28] fix: ignore the selector and the clusterIP of Service
 templates

---
 controllers/mysqlcluster_controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 530ab7a..c2a82d4 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -669,6 +669,9 @@ func (r *MySQLClusterReconciler) reconcileV1Service1(ctx context.Context, cluste
 
 		if tmpl.Spec != nil {
 			s := (*corev1ac.ServiceSpecApplyConfiguration)(tmpl.Spec)
+			// these may not be customized
+			s.Selector = nil
+			s.ClusterIP = nil
 			svc.WithSpec(s)
 		}
 	} else {
-- 
2.43.0


From 6f095a906d0814ac5f3fff75684c0c1940579d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:58 +0000
Subject: [PATCH 28/28] fix: do not make a restarted primary writable without
 semi-sync

mysqld of the primary may be restarted after its semi-sync settings were
made and before the end of the same round, e.g. while a replica hangs.
The settings do not survive a restart, so the primary acknowledged writes
without any replica until the next round.
---
 clustering/operations.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index 1fac287..16b0797 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -476,6 +476,12 @@ func (p *managerProcess) configure(ctx context.Context, ss *StatusSet) (bool, er
 		op := ss.DBOps[ss.Primary]
 		if pst.GlobalVariables.ReadOnly {
 			redo = true
+			// mysqld may have been restarted and have lost the settings of semi-sync in the meantime
+			if ss.Cluster.Spec.Replicas > 1 {
+				if err := op.ConfigurePrimary(ctx, int(ss.Cluster.Spec.Replicas/2)); err != nil {
+					return false, fmt.Errorf("failed to enable semi-sync of the primary: %w", err)
+				}
+			}
 			logFromContext(ctx).Info("set read_only=0", "instance", ss.Primary)
 			if err := op.SetReadOnly(ctx, false); err != nil {
 				return false, fmt.Errorf("failed to make the primary writable: %w", err)
-- 
2.43.0

