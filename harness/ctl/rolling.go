package ctl

import (
	"context"
	"fmt"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	"golang.org/x/time/rate"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/tools/record"
	"k8s.io/utils/ptr"
	ctrl "sigs.k8s.io/controller-runtime"

	"verifharness/vlib"
)

const revLabel = "controller-revision-hash"

// roll drives rolling updates: the real reconcilers and the real webhook, with the
// StatefulSet controller, the kubelets and the clustering process played.
type roll struct {
	*scn
	c        *cl
	cur      string // current revision
	next     time.Time
	retry    bool
	last     string // state the partition controller was told about
	quiet    bool
	interval time.Duration
	patched  time.Time
	patches  int
	stale    bool // another writer comes between the reads and the write
	part     bool // the partition controller is running
	healthy  bool
	recNext  bool
	recFail  bool
	lastSpec *appsv1.StatefulSetSpec
	edits    int
	badGap   int
}

func (r *roll) sts() *appsv1.StatefulSet {
	o, ok := get(r.w, &appsv1.StatefulSet{}, r.c.ns, "moco-"+r.c.name)
	if !ok {
		return nil
	}
	return o
}

func (r *roll) pods() map[int]*corev1.Pod {
	var l corev1.PodList
	if err := r.w.base.List(context.Background(), &l); err != nil {
		panic(err)
	}
	res := map[int]*corev1.Pod{}
	for i := range l.Items {
		p := &l.Items[i]
		if p.Namespace != r.c.ns || p.Labels["app.kubernetes.io/instance"] != r.c.name {
			continue
		}
		var n int
		if _, err := fmt.Sscanf(strings.TrimPrefix(p.Name, "moco-"+r.c.name+"-"), "%d", &n); err == nil {
			res[n] = p
		}
	}
	return res
}

func podReady(p *corev1.Pod) (bool, time.Time) {
	for _, c := range p.Status.Conditions {
		if c.Type == corev1.PodReady {
			return c.Status == corev1.ConditionTrue, c.LastTransitionTime.Time
		}
	}
	return false, time.Time{}
}

func containersReady(p *corev1.Pod) bool {
	for _, l := range [][]corev1.ContainerStatus{p.Status.InitContainerStatuses, p.Status.ContainerStatuses} {
		for _, c := range l {
			if !c.Ready {
				return false
			}
		}
	}
	return true
}

func (r *roll) setReady(n int, ready, containers, inits bool) {
	modStatus(r.w, &corev1.Pod{}, r.c.ns, fmt.Sprintf("moco-%s-%d", r.c.name, n), func(p *corev1.Pod) {
		was, _ := podReady(p)
		if was != ready || len(p.Status.Conditions) == 0 {
			p.Status.Conditions = vlib.PodConditions(ready, time.Now().Truncate(time.Second))
		}
		p.Status.ContainerStatuses = []corev1.ContainerStatus{{Name: "mysqld", Ready: containers || r.g.p(0.5)}, {Name: "agent", Ready: containers}}
		p.Status.InitContainerStatuses = []corev1.ContainerStatus{{Name: "moco-init", Ready: inits}}
		p.Status.Phase = corev1.PodRunning
	})
}

func rev(sts *appsv1.StatefulSet) string { return "r" + hashOf(sts.Spec.Template) }

func partition(sts *appsv1.StatefulSet) int {
	if sts.Spec.UpdateStrategy.RollingUpdate == nil {
		return 0
	}
	return int(ptr.Deref(sts.Spec.UpdateStrategy.RollingUpdate.Partition, 0))
}

// stsTick plays the StatefulSet controller.
func (r *roll) stsTick() {
	sts := r.sts()
	if sts == nil || sts.DeletionTimestamp != nil {
		return
	}
	upd := rev(sts)
	if r.cur == "" {
		r.cur = upd
	}
	n := int(*sts.Spec.Replicas)
	part := partition(sts)
	pods := r.pods()
	for i := range n {
		if pods[i] != nil {
			continue
		}
		rv := r.cur
		if i >= part {
			rv = upd
		}
		p := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: r.c.ns, Name: fmt.Sprintf("moco-%s-%d", r.c.name, i), Labels: map[string]string{revLabel: rv}, Finalizers: []string{"kubelet"}}}
		for k, v := range sts.Spec.Selector.MatchLabels {
			p.Labels[k] = v
		}
		p.OwnerReferences = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: sts.Name, UID: sts.UID, Controller: ptr.To(true)}}
		r.w.put(p)
		r.setReady(i, false, false, false)
	}
	pods = r.pods()
	for i := n - 1; i >= part; i-- {
		p := pods[i]
		if p.DeletionTimestamp != nil {
			break
		}
		if p.Labels[revLabel] != upd {
			r.w.logf("t %s sts deletes pod %d", clock(), i)
			r.w.del(p)
			break
		}
		if ok, _ := podReady(p); !ok {
			break
		}
	}
	st := sts.Status.DeepCopy()
	st.ObservedGeneration = sts.Generation
	st.Replicas, st.ReadyReplicas, st.AvailableReplicas, st.UpdatedReplicas, st.CurrentReplicas = int32(len(pods)), 0, 0, 0, 0
	for _, p := range r.pods() {
		if ok, _ := podReady(p); ok && p.DeletionTimestamp == nil {
			st.ReadyReplicas++
			st.AvailableReplicas++
		}
		if p.Labels[revLabel] == upd {
			st.UpdatedReplicas++
		}
		if p.Labels[revLabel] == r.cur {
			st.CurrentReplicas++
		}
	}
	if int(st.UpdatedReplicas) == n && int(st.ReadyReplicas) == n {
		r.cur = upd
		st.CurrentReplicas = st.UpdatedReplicas
	}
	st.UpdateRevision, st.CurrentRevision = upd, r.cur
	if !equality.Semantic.DeepEqual(*st, sts.Status) {
		modStatus(r.w, &appsv1.StatefulSet{}, r.c.ns, sts.Name, func(o *appsv1.StatefulSet) { o.Status = *st })
	}
}

// kubelet moves the Pods on.
func (r *roll) kubelet() {
	for i, p := range r.pods() {
		ok, _ := podReady(p)
		cs := containersReady(p)
		switch {
		case p.DeletionTimestamp != nil:
			if r.g.p(0.4) {
				_, _ = mod(r.w, &corev1.Pod{}, p.Namespace, p.Name, func(x *corev1.Pod) { x.Finalizers = nil })
			}
		case !ok || !cs:
			if r.quiet && r.g.p(0.6) || r.g.p(0.4) {
				r.setReady(i, true, true, true)
			} else if !r.quiet && r.g.p(0.3) {
				r.setReady(i, ok, r.g.p(0.5), r.g.p(0.6))
			}
		case !r.quiet && r.g.p(0.04):
			r.w.logf("t %s pod %d fails", clock(), i)
			switch r.g.Intn(3) {
			case 0:
				r.setReady(i, false, false, true)
			case 1:
				r.setReady(i, true, false, true)
			case 2:
				r.w.del(p)
			}
		}
	}
}

func clock() string { return time.Now().Format("15:04:05.0") }

// clustering plays the clustering process: it reports the health.
func (r *roll) clustering() {
	all := true
	pods := r.pods()
	for i := range int(r.c.spec["replicas"].(float64)) {
		p := pods[i]
		if p == nil || p.DeletionTimestamp != nil {
			all = false
			continue
		}
		if ok, _ := podReady(p); !ok {
			all = false
		}
	}
	if !r.quiet && r.g.p(0.2) {
		all = false
	}
	st := metav1.ConditionFalse
	if all {
		st = metav1.ConditionTrue
	}
	o := r.clusterObj(r.c)
	if x := meta.FindStatusCondition(o.Status.Conditions, "Healthy"); x != nil && x.Status == st {
		return
	}
	modStatus(r.w, &mocov1beta2.MySQLCluster{}, r.c.ns, r.c.name, func(o *mocov1beta2.MySQLCluster) {
		if r.g.p(0.1) && !all {
			setCond(o, "Healthy", metav1.ConditionUnknown)
			return
		}
		setCond(o, "Healthy", st)
	})
}

// onPatch judges a write of the StatefulSet while the partition controller runs.
func (r *roll) onOp(o *Op) {
	if !r.part {
		r.scn.onOp(o)
		r.webhook(o)
		return
	}
	if !o.write() || isNil(o.Before) || isNil(o.After) || !o.changed() {
		return
	}
	if o.Kind != "StatefulSet" || o.Key.Name != "moco-"+r.c.name {
		r.viol("R07", "the partition controller writes something else", "%s", o)
		return
	}
	a, b := o.Before.(*appsv1.StatefulSet), o.After.(*appsv1.StatefulSet)
	x, y := a.Spec.DeepCopy(), b.Spec.DeepCopy()
	x.UpdateStrategy, y.UpdateStrategy = appsv1.StatefulSetUpdateStrategy{}, appsv1.StatefulSetUpdateStrategy{}
	if !equality.Semantic.DeepEqual(x, y) || !equality.Semantic.DeepEqual(a.Labels, b.Labels) || !equality.Semantic.DeepEqual(a.Annotations, b.Annotations) {
		r.viol("R07", "the partition controller changes more than the partition", "%s", o)
	}
	r.count("partition_steps")
	pa, pb := partition(a), partition(b)
	r.w.logf("t %s partition %d -> %d", clock(), pa, pb)
	if pb != pa-1 {
		r.viol("R07", "the partition moves by more than one", "%s: %d -> %d", r.c.key, pa, pb)
		return
	}
	if a.Annotations[annForce] == "true" {
		r.viol("R07", "the partition is controlled although the update is forced", "%s", r.c.key)
	}
	if r.interval > 0 && !r.patched.IsZero() && time.Since(r.patched) < r.interval-time.Millisecond {
		r.viol("R07", "the partitions move faster than the interval allows", "%s: after %s, interval %s", r.c.key, time.Since(r.patched), r.interval)
	}
	r.patched = time.Now()
	r.patches++
	if r.stale {
		return // what it read is no longer what is
	}
	cl := r.clusterObj(r.c)
	if cl.Generation != cl.Status.ReconcileInfo.Generation {
		r.viol("R07", "the update goes on although the spec is not reconciled", "%s: generation %d, reconciled %d", r.c.key, cl.Generation, cl.Status.ReconcileInfo.Generation)
	}
	if a.Generation != a.Status.ObservedGeneration {
		r.viol("R07", "the update goes on although the StatefulSet controller has not seen the last change", "%s", r.c.key)
	}
	n := int(*a.Spec.Replicas)
	upd := a.Status.UpdateRevision
	pods := r.pods()
	done := len(pods) == n
	for i := range n {
		if pods[i] == nil || pods[i].Labels[revLabel] != upd {
			done = false
		}
	}
	if done || int(a.Status.UpdatedReplicas) == n {
		r.count("steps_after_completion")
		return
	}
	t := pa - 1
	if pods[t] != nil && pods[t].Labels[revLabel] == upd && len(pods) == n {
		r.count("steps_over_updated")
		return // nothing is restarted by this step
	}
	r.count("steps_that_restart")
	if pods[t] == nil {
		r.viol("R07", "the update goes on although Pods are missing", "%s: %d", r.c.key, t)
		return
	}
	tr, _ := podReady(pods[t])
	if tr && !meta.IsStatusConditionTrue(cl.Status.Conditions, "Healthy") {
		r.viol("R07", "a working Pod is restarted although the cluster is not healthy", "%s: pod %d", r.c.key, t)
	}
	if !tr {
		r.count("steps_to_unready_pod")
	}
	for i := range n {
		if i == t {
			continue
		}
		p := pods[i]
		switch ok, since := false, (time.Time{}); {
		case p == nil:
			r.viol("R07", "a Pod is restarted although another is missing", "%s: %d, while %d is missing", r.c.key, t, i)
		case p.DeletionTimestamp != nil:
			r.viol("R07", "a Pod is restarted although another is terminating", "%s: %d, while %d is terminating", r.c.key, t, i)
		default:
			ok, since = podReady(p)
			if !ok || !containersReady(p) {
				r.viol("R07", "a Pod is restarted although another is not ready", "%s: %d, while %d is not ready (%v)", r.c.key, t, i, p.Status.ContainerStatuses)
			} else if time.Since(since) < 5*time.Second {
				r.viol("R07", "a Pod is restarted although another became ready just now", "%s: %d, while %d is ready since %s", r.c.key, t, i, time.Since(since))
			} else if i >= pa && p.Labels[revLabel] != upd {
				r.viol("R07", "the next Pod is restarted before the last one is updated", "%s: %d, while %d is not updated", r.c.key, t, i)
			}
		}
	}
}

// webhook judges the partition a StatefulSet has after MOCO's own writes.
func (r *roll) webhook(o *Op) {
	if o.Kind != "StatefulSet" || !o.write() || isNil(o.After) || o.Verb == "delete" || o.Verb == "status" {
		return
	}
	b := o.After.(*appsv1.StatefulSet)
	if b.DeletionTimestamp != nil {
		return
	}
	if !isNil(o.Before) && !o.changed() {
		return
	}
	if b.Annotations[annForce] == "true" {
		r.count("forced_writes")
		if partition(b) != 0 {
			r.viol("R07", "a forced update is held back by the partition", "%s: %d", r.c.key, partition(b))
		}
		return
	}
	if !isNil(o.Before) {
		a := o.Before.(*appsv1.StatefulSet)
		x, y := a.Spec.DeepCopy(), b.Spec.DeepCopy()
		x.UpdateStrategy, y.UpdateStrategy = appsv1.StatefulSetUpdateStrategy{}, appsv1.StatefulSetUpdateStrategy{}
		if equality.Semantic.DeepEqual(x, y) {
			return
		}
	}
	r.count("guarded_writes")
	if partition(b) != int(*b.Spec.Replicas) {
		r.viol("R07", "a change of the StatefulSet is not held back by the partition", "%s: partition %d of %d", r.c.key, partition(b), *b.Spec.Replicas)
	}
}

func (r *roll) state() string {
	var b strings.Builder
	if sts := r.sts(); sts != nil {
		b.WriteString(sts.ResourceVersion)
	}
	pods := r.pods()
	for i := range 20 {
		if pods[i] != nil {
			b.WriteString(" " + pods[i].ResourceVersion)
		}
	}
	return b.String()
}

// partitionController runs the real controller when it is due.
func (r *roll) partitionController() {
	st := r.state()
	if st == r.last && !r.retry && (r.next.IsZero() || time.Now().Before(r.next)) {
		return
	}
	r.last = st
	if sts := r.sts(); sts == nil {
		return
	}
	r.w.Ops = nil
	r.w.cnt, r.w.crashed = 0, false
	r.w.FaultAt, r.stale = 0, false
	r.w.hook = nil
	if !r.quiet {
		if r.g.p(0.05) {
			r.w.FaultAt, r.w.FaultKind, r.w.FaultOnly = 1+r.g.Intn(4), pick(r.g, "before", "conflict", "lost"), ""
		} else if r.g.p(0.15) {
			// a new spec is applied between the reads and the write
			r.w.hook = func(o *Op) {
				if o.Verb != "patch" && o.Verb != "update" && o.Verb != "apply" {
					return
				}
				r.w.hook = nil
				r.part = false
				ops := r.w.Ops
				r.w.logf("t %s a new spec comes in between", clock())
				r.stale = true
				r.edit()
				_ = r.reconcileMC()
				r.w.Ops = ops
				r.part = true
				r.count("edits_in_between")
			}
		}
	}
	r.part = true
	res, err := r.w.P.Reconcile(context.Background(), ctrl.Request{NamespacedName: types.NamespacedName{Namespace: r.c.ns, Name: "moco-" + r.c.name}})
	r.part = false
	r.w.hook = nil
	r.w.FaultAt = 0
	r.count("partition_reconciles")
	r.retry = err != nil
	r.next = time.Time{}
	if res.RequeueAfter > 0 {
		r.next = time.Now().Add(res.RequeueAfter)
	}
}

// podWatcher tells the manager of Pods that go away.
func (r *roll) podWatcher(name string) bool {
	r.w.Ops = nil
	told := false
	was := r.w.onOp
	r.w.onOp = func(o *Op) {
		if o.Verb == "mgr-updatenostart" && o.Key == r.c.key {
			told = true
		} else if strings.HasPrefix(o.Verb, "mgr") {
			r.viol("R02", "the manager is told about another cluster", "pod %s of %s: %s", name, r.c.key, o)
		}
	}
	_, err := r.w.PW.Reconcile(context.Background(), ctrl.Request{NamespacedName: types.NamespacedName{Namespace: r.c.ns, Name: name}})
	r.w.onOp = was
	if err != nil {
		r.viol("R07", "the Pod watcher fails", "%v", err)
	}
	return told
}

func (r *roll) edit() {
	r.edits++
	r.editSpec(r.c, func(n m) {
		for _, x := range n["podTemplate"].(m)["spec"].(m)["containers"].([]any) {
			if x.(m)["name"] == "mysqld" {
				x.(m)["image"] = fmt.Sprintf("mysql:%d", r.edits)
			}
		}
	})
	r.recNext = true
}

func (r *roll) reconcileMC() error {
	if r.w.FaultAt == 0 && !r.quiet && r.g.p(0.15) {
		r.randomFault(r.c)
	}
	err := r.reconcile(r.c)
	r.recNext = err != nil
	return err
}

func (s *scn) rolling(big bool) {
	g := s.g
	r := &roll{scn: s}
	s.w.OrphanDelay = 0
	s.agent, s.fluent = "agent:1", "fluent:1"
	s.setup(1)
	s.configure()
	c := s.cl[0]
	r.c = c
	delete(c.spec, "offline")
	n := pick(g, 1, 3, 3, 3, 5)
	if big {
		n = pick(g, 11, 13)
	}
	c.spec["replicas"] = n
	s.fixSpec(c)
	s.updateCluster(c, true)
	r.interval = pick(g, 0, 0, time.Second, 40*time.Second)
	s.w.P = &controllers.StatefulSetPartitionReconciler{Client: &monClient{Client: s.w.base, w: s.w}, Recorder: record.NewFakeRecorder(10000), UpdateInterval: r.interval, RateLimiter: rate.NewLimiter(rate.Every(r.interval), 1)}
	s.w.onOp = r.onOp
	r.recNext = true
	steps := 60 + g.Intn(140)
	for range steps {
		r.tick()
		switch x := g.Float64(); {
		case x < 0.03:
			s.acts = append(s.acts, "edit")
			s.w.logf("t %s edit", clock())
			r.edit()
		case x < 0.035:
			s.acts = append(s.acts, "force")
			if c.ann[annForce] == "" {
				c.ann[annForce] = "true"
			} else {
				delete(c.ann, annForce)
			}
			s.w.logf("t %s force %q", clock(), c.ann[annForce])
			s.updateCluster(c, false)
			r.recNext = true
		case x < 0.04 && !big:
			s.acts = append(s.acts, "scale")
			s.editSpec(c, func(n m) { n["replicas"] = n["replicas"].(float64) + 2 })
			r.recNext = true
		case x < 0.06:
			// the user's tools write the StatefulSet
			s.acts = append(s.acts, "touch")
			_, _ = mod(s.w, &appsv1.StatefulSet{}, c.ns, "moco-"+c.name, func(o *appsv1.StatefulSet) {
				if o.Annotations == nil {
					o.Annotations = map[string]string{}
				}
				o.Annotations["tool/x"] = g.word()
			})
		case x < 0.08:
			i := g.Intn(int(c.spec["replicas"].(float64)))
			if p := r.pods()[i]; p != nil && p.DeletionTimestamp == nil {
				told := r.podWatcher(p.Name)
				if told {
					r.viol("R07", "the clustering is disturbed by a Pod that is well", "%s", p.Name)
				}
				_, _ = mod(s.w, &corev1.Pod{}, c.ns, p.Name, func(x *corev1.Pod) {
					if x.Annotations == nil {
						x.Annotations = map[string]string{}
					}
					x.Annotations["moco.cybozu.com/demote"] = "true"
				})
				r.count("demotions")
				if !r.podWatcher(p.Name) {
					r.viol("R13", "the clustering is not told about a Pod to be demoted", "%s", p.Name)
				}
				_, _ = mod(s.w, &corev1.Pod{}, c.ns, p.Name, func(x *corev1.Pod) { delete(x.Annotations, "moco.cybozu.com/demote") })
			}
		}
	}
	// now nothing disturbs the update any more
	r.quiet = true
	s.w.logf("t %s quiet", clock())
	delete(c.ann, annForce)
	s.updateCluster(c, false)
	r.recNext = true
	limit := 150 + 90*int(c.spec["replicas"].(float64))
	if r.interval > 0 {
		limit += int(r.interval.Seconds()) * int(c.spec["replicas"].(float64))
	}
	end := time.Now().Add(time.Duration(limit) * 2 * time.Second)
	for time.Now().Before(end) && !r.complete() {
		r.tick()
	}
	if !r.complete() {
		sts := r.sts()
		r.viol("R07", "an undisturbed update does not complete", "%s: partition %d, status %+v after %ds", c.key, partition(sts), sts.Status, limit*2)
	} else {
		r.count("updates_completed")
	}
}

func (r *roll) complete() bool {
	sts := r.sts()
	if sts == nil || partition(sts) != 0 || r.recNext {
		return false
	}
	pods := r.pods()
	for i := range int(r.c.spec["replicas"].(float64)) {
		if pods[i] == nil || pods[i].Labels[revLabel] != rev(sts) {
			return false
		}
		if ok, _ := podReady(pods[i]); !ok {
			return false
		}
	}
	return r.clusterObj(r.c).Status.ReconcileInfo.Generation == r.c.gen
}

func (r *roll) tick() {
	if r.recNext && (r.quiet || r.g.p(0.5)) {
		_ = r.reconcileMC()
	}
	for range 1 + r.g.Intn(2) {
		switch r.g.Intn(4) {
		case 0:
			r.stsTick()
		case 1:
			r.kubelet()
		case 2:
			r.clustering()
		}
	}
	if r.g.p(0.8) {
		for _, p := range r.pods() {
			if p.DeletionTimestamp != nil && r.g.p(0.1) {
				r.count("pod_deletions_told")
				if !r.podWatcher(p.Name) {
					r.viol("R13", "the clustering is not told about a Pod that is going away", "%s", p.Name)
				}
			}
		}
		r.partitionController()
	}
	time.Sleep(time.Duration(200+r.g.Intn(3000)) * time.Millisecond)
}
