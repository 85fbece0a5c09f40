package e2e

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verifharness/vlib"
)

type m = map[string]any
type l = []any

// patience is how long an effect may take; it usually takes seconds. A change
// of leader takes up to 17 s more.
const patience = 90 * time.Second

func (e *env) eventually(f func() error) error { return e.within(patience, f) }

func (e *env) within(d time.Duration, f func() error) error {
	t0 := time.Now()
	for {
		err := f()
		if err == nil {
			return nil
		}
		if time.Since(t0) > d || e.violated() {
			return err
		}
		time.Sleep(150 * time.Millisecond)
	}
}

func (c *cluster) get() *mocov1beta2.MySQLCluster {
	x := &mocov1beta2.MySQLCluster{}
	if c.e.c.Get(ctx0, c.key, x) != nil {
		return nil
	}
	return x
}

// primary is the Pod the primary Service leads to.
func (c *cluster) routed(svc string) (r []int) {
	s := &corev1.Service{}
	if c.e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: svc}, s) != nil || len(s.Spec.Selector) == 0 {
		return nil
	}
	pods := &corev1.PodList{}
	if c.e.c.List(ctx0, pods, client.InNamespace(c.key.Namespace), client.MatchingLabelsSelector{Selector: labels.SelectorFromSet(s.Spec.Selector)}) != nil {
		return nil
	}
	for _, p := range pods.Items {
		i, err := strconv.Atoi(p.Name[strings.LastIndexByte(p.Name, '-')+1:])
		if err != nil || i >= len(c.pods) || p.DeletionTimestamp != nil {
			continue
		}
		for _, k := range p.Status.Conditions {
			if k.Type == corev1.PodReady && k.Status == corev1.ConditionTrue {
				r = append(r, i)
			}
		}
	}
	return r
}

// write commits through the primary Service.
func (c *cluster) write() error {
	l := c.routed(c.mc.PrimaryServiceName())
	if len(l) != 1 {
		return fmt.Errorf("the primary Service leads to %v", l)
	}
	conn, err := c.pods[l[0]].in.OpenConn("app", "10.0.0.9:1")
	if err != nil {
		return err
	}
	defer conn.CloseConn()
	ctx, cancel := context.WithTimeout(c.e.ctx, 3*time.Second)
	defer cancel()
	_, err = conn.Commit(ctx)
	if err == nil {
		c.e.rep.Count("commits", 1)
	}
	return err
}

// healthy tells whether everything is as it should be with the primary `not`
// excluded.
func (c *cluster) healthy(not int) error {
	x := c.get()
	if x == nil {
		return fmt.Errorf("no cluster")
	}
	n := int(x.Spec.Replicas)
	if len(c.pods) < n {
		return fmt.Errorf("%d instances", len(c.pods))
	}
	for _, t := range []string{mocov1beta2.ConditionInitialized, mocov1beta2.ConditionAvailable, mocov1beta2.ConditionHealthy} {
		if !meta.IsStatusConditionTrue(x.Status.Conditions, t) {
			return fmt.Errorf("condition %s: %+v", t, x.Status.Conditions)
		}
	}
	p := x.Status.CurrentPrimaryIndex
	if p == not {
		return fmt.Errorf("the primary is still %d", p)
	}
	if x.Status.SyncedReplicas != n {
		return fmt.Errorf("%d synced", x.Status.SyncedReplicas)
	}
	if r := c.routed(c.mc.PrimaryServiceName()); len(r) != 1 || r[0] != p {
		return fmt.Errorf("the primary Service leads to %v, the primary is %d", r, p)
	}
	if r := c.routed(c.mc.ReplicaServiceName()); len(r) != n-1 {
		return fmt.Errorf("the replica Service leads to %v, the primary is %d of %d", r, p, n)
	}
	if err := c.write(); err != nil {
		return fmt.Errorf("write: %w", err)
	}
	c.w.Mu.Lock()
	defer c.w.Mu.Unlock()
	pi := c.pods[p].in
	if !c.w.Acked.Subset(pi.Executed) {
		// judged apart: an acknowledged write is lost
		return fmt.Errorf("LOST: %v", c.w.Acked.Minus(pi.Executed))
	}
	for i := range n {
		in := c.pods[i].in
		switch {
		case !in.Up:
			return fmt.Errorf("%d is down", i)
		case i == p && (in.ReadOnly || in.SuperReadOnly):
			return fmt.Errorf("the primary %d is read-only", i)
		case i != p && (!in.ReadOnly || !in.SuperReadOnly):
			return fmt.Errorf("the replica %d is writable", i)
		case i != p && !in.ConnectedTo(pi):
			return fmt.Errorf("%d does not replicate from the primary %d", i, p)
		}
	}
	return nil
}

func (c *cluster) settle(what string, not int) bool {
	if c.e.violated() {
		return false
	}
	t0 := time.Now()
	if err := c.e.eventually(func() error { return c.healthy(not) }); err != nil {
		rule := "not healthy"
		if strings.HasPrefix(err.Error(), "LOST") {
			rule = "acknowledged writes are lost"
		}
		c.e.viol(rule, "%s: %s is not healthy %v later: %v", what, c.key, patience, err)
		return false
	}
	c.e.logf("%s: %s healthy after %v", what, c.key, time.Since(t0).Round(time.Millisecond))
	c.e.rep.Count("settled", 1)
	return true
}

func (c *cluster) safe() bool {
	c.w.Mu.Lock()
	defer c.w.Mu.Unlock()
	for _, p := range c.pods {
		if !p.in.Up || !p.ready {
			return false
		}
	}
	return true
}

func (e *env) spec(conf string) m {
	s := m{"podTemplate": m{"spec": m{"containers": l{m{"name": "mysqld", "image": "mysql:8.4.5"}}}}, "collectors": l{"info_schema.tables"},
		"volumeClaimTemplates": l{m{"metadata": m{"name": "mysql-data", "annotations": m{"sync": "a1", "other": "a2"}, "labels": m{"sync": "l1", "other": "l2"}},
			"spec": m{"accessModes": l{"ReadWriteOnce"}, "resources": m{"requests": m{"storage": "1Gi"}}}}}}
	if conf != "" {
		s["mysqlConfigMapName"] = conf
	}
	return s
}

// options verifies that the options of the process show in what it made.
func (c *cluster) options(conf string) {
	e := c.e
	if e.violated() {
		return
	}
	err := e.eventually(func() error {
		sts := &appsv1.StatefulSet{}
		if err := e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: "moco-" + c.key.Name}, sts); err != nil {
			return err
		}
		img := map[string]string{}
		for _, x := range append(append([]corev1.Container{}, sts.Spec.Template.Spec.InitContainers...), sts.Spec.Template.Spec.Containers...) {
			img[x.Name] = x.Image
			if u := x.SecurityContext.RunAsUser; (u == nil) != e.f.noSec {
				return fmt.Errorf("runAsUser of the container %s is %v, disable-default-security-context is %v", x.Name, u, e.f.noSec)
			}
		}
		if g := sts.Spec.Template.Spec.SecurityContext.FSGroup; (g == nil) != e.f.noSec {
			return fmt.Errorf("fsGroup is %v, disable-default-security-context is %v", g, e.f.noSec)
		}
		if e.f.agent != "" {
			for name, want := range map[string]string{"agent": e.f.agent, "slow-log": e.f.fluent, "mysqld-exporter": e.f.exporter} {
				if img[name] != want {
					return fmt.Errorf("the image of the container %s is %q, not %q", name, img[name], want)
				}
			}
			if c.mc.Spec.BackupPolicyName != nil {
				cj := &batchv1.CronJob{}
				if err := e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: c.mc.BackupCronJobName()}, cj); err != nil {
					return err
				}
				if got := cj.Spec.JobTemplate.Spec.Template.Spec.Containers[0].Image; got != e.f.backup {
					return fmt.Errorf("the image of the backup job is %q, not %q", got, e.f.backup)
				}
			}
		} else {
			for _, name := range []string{"agent", "slow-log", "mysqld-exporter"} {
				if !strings.HasPrefix(img[name], "ghcr.io/cybozu") {
					return fmt.Errorf("the default image of the container %s is %q", name, img[name])
				}
			}
		}
		pvcs := &corev1.PersistentVolumeClaimList{}
		if err := e.c.List(ctx0, pvcs, client.InNamespace(c.key.Namespace), client.MatchingLabels(sts.Spec.Selector.MatchLabels)); err != nil {
			return err
		}
		for _, p := range pvcs.Items {
			for _, k := range []string{"sync", "other"} {
				wantA, wantL := "", ""
				for _, x := range e.f.syncAnn {
					if x == k {
						wantA = map[string]string{"sync": "a1", "other": "a2"}[k]
					}
				}
				for _, x := range e.f.syncLabel {
					if x == k {
						wantL = map[string]string{"sync": "l1", "other": "l2"}[k]
					}
				}
				if p.Annotations[k] != wantA || p.Labels[k] != wantL {
					return fmt.Errorf("PVC %s: annotation %s=%q (should be %q), label %s=%q (should be %q)", p.Name, k, p.Annotations[k], wantA, k, p.Labels[k], wantL)
				}
			}
		}
		cms := &corev1.ConfigMapList{}
		if err := e.c.List(ctx0, cms, client.InNamespace(c.key.Namespace)); err != nil {
			return err
		}
		n := 0
		for _, x := range cms.Items {
			if strings.HasPrefix(x.Name, "moco-"+c.key.Name+".") {
				n++
			}
		}
		if n > e.f.history || n == 0 {
			return fmt.Errorf("%d configuration ConfigMaps are kept, the limit is %d", n, e.f.history)
		}
		return nil
	})
	if err != nil {
		e.viol("option without effect", "%s: %v", c.key, err)
		return
	}
	e.rep.Count("option_checks", 1)
}

// httpGet fetches a page of a process.
func httpGet(url string) (int, string) {
	c := &http.Client{Timeout: 5 * time.Second}
	r, err := c.Get(url)
	if err != nil {
		return 0, err.Error()
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b)
}

// endpoints verifies the probes of all processes and the metrics of the leader.
func (e *env) endpoints() {
	if e.violated() {
		return
	}
	err := e.eventually(func() error {
		ld := e.leader()
		if ld == nil {
			return fmt.Errorf("no leader")
		}
		for _, p := range e.live() {
			if p.paused {
				continue
			}
			for _, x := range []string{"healthz", "readyz"} {
				if code, b := httpGet("http://" + p.probe + "/" + x); code != 200 {
					return fmt.Errorf("%s of %s: %d %s", x, p.user, code, b)
				}
			}
		}
		code, b := httpGet("http://" + ld.metrics + "/metrics")
		if code != 200 {
			return fmt.Errorf("metrics: %d", code)
		}
		for _, c := range e.cls {
			if c.gone {
				if strings.Contains(b, fmt.Sprintf(`name="%s",namespace="%s"`, c.key.Name, c.key.Namespace)) {
					return fmt.Errorf("metrics of the deleted cluster %s remain", c.key)
				}
				continue
			}
			for _, x := range []string{"available", "healthy"} {
				if s := fmt.Sprintf("moco_cluster_%s{name=%q,namespace=%q} 1", x, c.key.Name, c.key.Namespace); !strings.Contains(b, s) {
					return fmt.Errorf("the metrics lack %s", s)
				}
			}
		}
		return nil
	})
	if err != nil {
		e.viol("endpoints", "%v", err)
		return
	}
	e.rep.Count("endpoint_checks", 1)
}

// newLeader waits until another process than old leads.
func (e *env) newLeader(old *proc) {
	err := e.eventually(func() error {
		if p := e.leader(); p == nil || p == old {
			return fmt.Errorf("no other leader")
		}
		return nil
	})
	if err != nil {
		e.viol("no takeover", "%v after %s stopped leading: %v", patience, old.user, err)
		return
	}
	e.rep.Count("takeovers", 1)
	e.logf("%s leads now", e.leader().user)
}

func (e *env) act(what string) {
	e.acts = append(e.acts, what)
	e.rep.Count("act_"+what, 1)
	e.logf("== %s", what)
}

// ensureTwo keeps two processes running.
func (e *env) ensureTwo() {
	for len(e.live()) < 2 && len(e.procs) < len(e.subj) {
		e.start()
	}
}

func (c *cluster) editMC(f func(x *mocov1beta2.MySQLCluster)) {
	err := c.e.eventually(func() error {
		x := c.get()
		if x == nil {
			return fmt.Errorf("no cluster")
		}
		f(x)
		return c.e.c.Update(ctx0, x)
	})
	if err != nil {
		c.e.viol("an update is refused", "%s: %v", c.key, err)
	}
}

// step does one random thing and waits for the outcome.
func (e *env) step(kind string) {
	c := e.cls[e.rng.Intn(len(e.cls))]
	for k := 0; c.gone && k < 20; k++ {
		c = e.cls[e.rng.Intn(len(e.cls))]
	}
	if c.gone {
		return
	}
	x := c.get()
	if x == nil {
		return
	}
	p := x.Status.CurrentPrimaryIndex
	n := int(x.Spec.Replicas)
	ld := e.leader()
	if ld == nil {
		e.viol("no takeover", "no leader")
		return
	}
	switch kind {
	case "switchover":
		if n == 1 {
			return
		}
		e.act(kind)
		pod := &corev1.Pod{}
		must(e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: c.podName(p)}, pod))
		patch := client.MergeFrom(pod.DeepCopy())
		if pod.Annotations == nil {
			pod.Annotations = map[string]string{}
		}
		pod.Annotations[constants.AnnDemote] = "true"
		must(e.c.Patch(ctx0, pod, patch))
		c.settle("after a switchover of "+c.podName(p), p)
	case "crash":
		if n == 1 || !c.safe() {
			return
		}
		e.act(kind)
		c.w.Mu.Lock()
		c.pods[p].down = time.Now().Add(12 * time.Second)
		c.pods[p].in.StopInst()
		c.w.Mu.Unlock()
		e.logf("mysqld %d of %s crashed", p, c.key)
		c.settle("after a crash of the primary", p)
	case "kill":
		e.act(kind)
		_ = ld.cmd.Process.Kill()
		ld.wait(10 * time.Second)
		e.newLeader(ld)
		e.ensureTwo()
		c.settle("after the leader was killed", -1)
	case "killcrash":
		if n == 1 || !c.safe() {
			return
		}
		e.act(kind)
		c.w.Mu.Lock()
		c.pods[p].down = time.Now().Add(25 * time.Second)
		c.pods[p].in.StopInst()
		c.w.Mu.Unlock()
		time.Sleep(time.Duration(e.rng.Intn(3000)) * time.Millisecond)
		_ = ld.cmd.Process.Kill()
		ld.wait(10 * time.Second)
		e.newLeader(ld)
		c.settle("after the leader and the primary crashed", -1)
		e.ensureTwo()
	case "term":
		e.act(kind)
		_ = ld.cmd.Process.Signal(syscall.SIGTERM)
		if !ld.wait(60 * time.Second) {
			e.viol("never ends", "%s did not end within 60 s of SIGTERM", ld.user)
			return
		}
		if ld.err != nil {
			e.viol("exit status", "%s ended with %v after SIGTERM", ld.user, ld.err)
			return
		}
		e.newLeader(ld)
		e.ensureTwo()
		c.settle("after the leader ended", -1)
	case "pause":
		e.act(kind)
		ld.paused = true
		_ = ld.cmd.Process.Signal(syscall.SIGSTOP)
		e.newLeader(ld)
		c.settle("while the old leader is suspended", -1)
		_ = ld.cmd.Process.Signal(syscall.SIGCONT)
		if !ld.wait(60 * time.Second) {
			e.viol("a deposed leader goes on", "%s was suspended, lost the lease, and still runs 60 s after it was resumed", ld.user)
			return
		}
		if ld.err == nil {
			e.viol("exit status", "%s ended with 0 after it lost the lease", ld.user)
		}
		e.ensureTwo()
		c.settle("after the old leader was resumed", -1)
	case "endstandby":
		for _, q := range e.live() {
			if q != ld {
				e.act(kind)
				_ = q.cmd.Process.Signal(syscall.SIGTERM)
				if !q.wait(60 * time.Second) {
					e.viol("never ends", "the standby %s did not end within 60 s of SIGTERM", q.user)
				}
			}
		}
		e.ensureTwo()
	case "breakrepl":
		if n == 1 {
			return
		}
		e.act(kind)
		r := (p + 1) % n
		c.w.Mu.Lock()
		in := c.pods[r].in
		in.IOEnabled, in.IOConn, in.SQLRunning = false, false, false
		c.w.Version++
		c.w.Mu.Unlock()
		e.logf("replication of %d of %s stopped by hand", r, c.key)
		c.settle("after somebody stopped the replication of a replica", -1)
	case "writable":
		if n == 1 {
			return
		}
		e.act(kind)
		r := (p + 1) % n
		c.w.Mu.Lock()
		in := c.pods[r].in
		in.ReadOnly, in.SuperReadOnly = false, false
		c.w.Version++
		c.w.Mu.Unlock()
		c.settle("after somebody made a replica writable", -1)
	case "scale":
		if n != 1 || x.Spec.Replicas == 3 {
			return
		}
		e.act(kind)
		c.editMC(func(x *mocov1beta2.MySQLCluster) { x.Spec.Replicas = 3 })
		c.mc = c.get()
		c.settle("after it was scaled up", -1)
	case "image":
		e.act(kind)
		img := fmt.Sprintf("mysql:8.4.%d", 6+e.rng.Intn(1000))
		c.editMC(func(x *mocov1beta2.MySQLCluster) {
			x.Spec.PodTemplate.Spec.Containers[0].Image = &img
		})
		// up to 30 s pass between steps
		err := e.within(5*time.Minute, func() error {
			for i := range n {
				pod := &corev1.Pod{}
				if err := e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: c.podName(i)}, pod); err != nil {
					return err
				}
				ok := false
				for _, k := range pod.Spec.Containers {
					ok = ok || k.Name == "mysqld" && k.Image == img
				}
				if !ok {
					return fmt.Errorf("Pod %d is not updated", i)
				}
			}
			return nil
		})
		if err != nil {
			e.viol("not rolled out", "%s: a new image is not rolled out: %v", c.key, err)
			return
		}
		c.settle("after a new image was rolled out", -1)
	case "config":
		e.act(kind)
		for k := range e.f.history + 1 {
			cm := &corev1.ConfigMap{}
			must(e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: "conf"}, cm))
			cm.Data["max_connections"] = fmt.Sprint(1000 + e.rng.Intn(100000))
			must(e.c.Update(ctx0, cm))
			v := cm.Data["max_connections"]
			err := e.eventually(func() error {
				sts := &appsv1.StatefulSet{}
				if err := e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: "moco-" + c.key.Name}, sts); err != nil {
					return err
				}
				for _, q := range sts.Spec.Template.Spec.Volumes {
					if q.ConfigMap != nil && strings.HasPrefix(q.ConfigMap.Name, "moco-"+c.key.Name+".") {
						g := &corev1.ConfigMap{}
						if err := e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: q.ConfigMap.Name}, g); err != nil {
							return err
						}
						if !strings.Contains(g.Data["my.cnf"], "max_connections = "+v) && !strings.Contains(g.Data["my.cnf"], "max_connections="+v) {
							return fmt.Errorf("the current my.cnf lacks max_connections=%s", v)
						}
						return nil
					}
				}
				return fmt.Errorf("no ConfigMap in the Pod template")
			})
			if err != nil {
				e.viol("configuration not rolled out", "%s: change %d: %v", c.key, k, err)
				return
			}
		}
		c.settle("after changes of my.cnf", -1)
		c.options("conf")
	case "deletepod":
		e.act(kind)
		r := e.rng.Intn(n)
		pod := &corev1.Pod{}
		must(e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: c.podName(r)}, pod))
		uid := pod.UID
		if e.c.Delete(ctx0, pod) != nil {
			return
		}
		err := e.eventually(func() error {
			if err := e.c.Get(ctx0, types.NamespacedName{Namespace: c.key.Namespace, Name: c.podName(r)}, pod); err != nil {
				return err
			}
			if pod.UID == uid {
				return fmt.Errorf("not gone")
			}
			return nil
		})
		if err == nil {
			c.settle("after a Pod was deleted", -1)
		}
	case "stopclustering":
		if n == 1 {
			return
		}
		e.act(kind)
		c.editMC(func(x *mocov1beta2.MySQLCluster) {
			if x.Annotations == nil {
				x.Annotations = map[string]string{}
			}
			x.Annotations[constants.AnnClusteringStopped] = "true"
		})
		err := e.eventually(func() error {
			if x := c.get(); x == nil || meta.IsStatusConditionTrue(x.Status.Conditions, mocov1beta2.ConditionClusteringActive) {
				return fmt.Errorf("clustering is still active")
			}
			return nil
		})
		if err != nil {
			e.viol("not stopped", "%s: %v", c.key, err)
			return
		}
		time.Sleep(2*e.f.interval + 2*time.Second)
		c.w.Mu.Lock()
		in := c.pods[(p+1)%n].in
		in.IOEnabled, in.IOConn, in.SQLRunning = false, false, false
		c.w.Mu.Unlock()
		since := time.Now()
		time.Sleep(3*e.f.interval + 2*time.Second)
		e.mu.Lock()
		for _, q := range e.sql {
			if q.at.After(since) && strings.HasPrefix(q.inst, "moco-"+c.key.Name+"-") {
				e.mu.Unlock()
				e.viol("acts though stopped", "%s: %q on %s while the clustering is stopped", c.key, q.stmt, q.inst)
				return
			}
		}
		e.mu.Unlock()
		c.editMC(func(x *mocov1beta2.MySQLCluster) { delete(x.Annotations, constants.AnnClusteringStopped) })
		c.settle("after the clustering was started again", -1)
	case "delete":
		if len(e.cls) < 2 {
			return
		}
		e.act(kind)
		x := c.get()
		c.gone = true
		must(e.c.Delete(ctx0, x))
		err := e.eventually(func() error {
			if err := e.c.Get(ctx0, c.key, x); !apierrors.IsNotFound(err) {
				return fmt.Errorf("still there: %v", err)
			}
			return nil
		})
		if err != nil {
			e.viol("not deleted", "%s: %v", c.key, err)
			return
		}
		// what the garbage collector does
		for _, o := range []client.Object{&appsv1.StatefulSet{}} {
			o.SetNamespace(c.key.Namespace)
			o.SetName("moco-" + c.key.Name)
			_ = e.c.Delete(ctx0, o, client.PropagationPolicy(metav1.DeletePropagationBackground))
		}
		time.Sleep(2 * time.Second)
		since := time.Now()
		time.Sleep(2*e.f.interval + 2*time.Second)
		c.w.Mu.Lock()
		conns := c.w.WireConns("")
		c.w.Mu.Unlock()
		e.mu.Lock()
		defer e.mu.Unlock()
		for _, q := range e.sql {
			if q.at.After(since) && strings.HasPrefix(q.inst, "moco-"+c.key.Name+"-") {
				go e.viol("acts though deleted", "%s: %q on %s after the cluster was deleted", c.key, q.stmt, q.inst)
				return
			}
		}
		_ = conns
	}
}

// exclusive verifies that only the holder of the lease acted.
func (e *env) exclusive() {
	if e.violated() {
		return
	}
	ev := e.readAudit()
	ts := terms(ev)
	byPid := map[string]*proc{}
	byUser := map[string]*proc{}
	for _, p := range e.procs {
		byPid[fmt.Sprint(p.cmd.Process.Pid)] = p
		byUser[p.user] = p
	}
	inTerm := func(user string, at time.Time, slack time.Duration) bool {
		for _, t := range ts {
			if t.user == user && !at.Before(t.from.Add(-slack)) && (t.to.IsZero() || !at.After(t.to.Add(slack))) {
				return true
			}
		}
		return false
	}
	writes := 0
	for _, a := range ev {
		p := byUser[a.User.Username]
		if p == nil || p.paused {
			continue
		}
		switch a.ObjectRef.Resource {
		case "leases", "events", "tokenreviews", "subjectaccessreviews", "selfsubjectaccessreviews":
			continue
		}
		writes++
		if !inTerm(p.user, a.RequestReceivd.Time, 0) {
			e.viol("two leaders", "%s did %s %s/%s at %v without holding the lease: %+v", p.user, a.Verb, a.ObjectRef.Resource, a.ObjectRef.Name, a.RequestReceivd, ts)
			return
		}
	}
	e.mu.Lock()
	sql := e.sql
	e.mu.Unlock()
	for _, q := range sql {
		p := byPid[q.pid]
		if p == nil || p.paused {
			continue
		}
		if !inTerm(p.user, q.at, 50*time.Millisecond) {
			e.viol("two leaders", "%s executed %q on %s at %v without holding the lease: %+v", p.user, q.stmt, q.inst, q.at, ts)
			return
		}
	}
	e.rep.Count("audited_writes", writes)
	e.rep.Count("audited_sql", len(sql))
	e.rep.Count("terms", len(ts))
	e.rep.Sig(fmt.Sprintf("terms=%d", len(ts)))
}

// misuse starts processes which cannot work.
func (e *env) misuse() {
	type try struct {
		what string
		args []string
		env  []string
	}
	ns := "POD_NAMESPACE=" + sysNS
	kc := "KUBECONFIG=" + filepath.Join(e.dir, e.procs[0].user+".kubeconfig")
	good := e.args(&proc{probe: "127.0.0.1:0", metrics: "0", webhook: freePort()})
	with := func(a ...string) []string { return append(append([]string{}, good...), a...) }
	tries := []try{
		{"no POD_NAMESPACE", good, []string{kc, "POD_NAMESPACE="}},
		{"a webhook address without a port", with("--webhook-addr=127.0.0.1"), []string{kc, ns}},
		{"a webhook port that is not a number", with("--webhook-addr=127.0.0.1:abc"), []string{kc, ns}},
		{"no gRPC certificates", with("--grpc-cert-dir=" + filepath.Join(e.dir, "nothing")), []string{kc, ns}},
		{"no webhook certificates", with("--cert-dir=" + filepath.Join(e.dir, "nothing")), []string{kc, ns}},
		{"an unknown option", with("--no-such-option"), []string{kc, ns}},
		{"a bad duration", with("--check-interval=soon"), []string{kc, ns}},
		{"no kubeconfig", good, []string{"KUBECONFIG=" + filepath.Join(e.dir, "nothing"), ns}},
	}
	t := tries[e.rng.Intn(len(tries))]
	e.act("misuse")
	e.logf("misuse: %s", t.what)
	ctx, cancel := context.WithTimeout(ctx0, 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BINS"), "moco-controller"), t.args...)
	cmd.Env = append(os.Environ(), t.env...)
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		e.viol("misuse", "with %s moco-controller still runs after 60 s: %.1500s", t.what, out)
	} else if err == nil {
		e.viol("misuse", "with %s moco-controller exits with 0: %.1500s", t.what, out)
	}
	e.rep.Sig("misuse " + t.what)
}

func (e *env) create(o m) error {
	b, err := json.Marshal(o)
	must(err)
	u := &unstructured.Unstructured{}
	must(json.Unmarshal(b, &u.Object))
	err = e.c.Create(ctx0, u)
	if apierrors.IsAlreadyExists(err) {
		return nil
	}
	return err
}

var steps = []string{"switchover", "crash", "kill", "killcrash", "term", "pause", "breakrepl", "writable", "scale", "image", "config", "deletepod", "stopclustering", "delete", "endstandby", "misuse"}

func run(seed int64, rep *vlib.Report, dir string) {
	rep.Begin("e2e")
	e := newEnv(seed, rep, dir)
	defer e.close()
	g := e.rng
	e.f = flags{interval: time.Duration(1+g.Intn(3)) * time.Second, history: 1 + g.Intn(3), noSec: g.Intn(3) == 0, leaderID: []string{"moco", "moco-x"}[g.Intn(2)]}
	if g.Intn(4) > 0 {
		e.f.agent, e.f.backup, e.f.fluent, e.f.exporter = "agent:v7", "backup:v7", "fluent:v7", "exporter:v7"
	}
	if g.Intn(3) > 0 {
		e.f.syncAnn = [][]string{{"sync"}, {"sync", "other"}, {"none"}}[g.Intn(3)]
	}
	if g.Intn(3) > 0 {
		e.f.syncLabel = [][]string{{"sync"}, {"other", "sync"}, {"none"}}[g.Intn(3)]
	}
	for _, ns := range []string{"n1", "n2"} {
		must(e.c.Create(ctx0, &corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: "conf"}, Data: map[string]string{"max_connections": "500"}}))
	}
	e.start()
	e.start()
	if err := e.eventually(func() error {
		if e.leader() == nil {
			return fmt.Errorf("no leader")
		}
		for _, p := range e.procs {
			if code, b := httpGet("http://" + p.probe + "/healthz"); code != 200 {
				return fmt.Errorf("%s: %d %s", p.user, code, b)
			}
		}
		return nil
	}); err != nil {
		e.viol("does not start", "%v", err)
		return
	}
	s1 := e.spec("conf")
	s1["backupPolicyName"] = "pol"
	u := m{"apiVersion": "moco.cybozu.com/v1beta2", "kind": "BackupPolicy", "metadata": m{"namespace": "n1", "name": "pol"},
		"spec": m{"schedule": "0 0 * * *", "jobConfig": m{"serviceAccountName": "sa", "bucketConfig": m{"bucketName": "b"}, "workVolume": m{"emptyDir": m{}}}}}
	if err := e.eventually(func() error { return e.create(u) }); err != nil {
		e.viol("creation fails", "a valid backup policy is refused: %v", err)
		return
	}
	a := e.addCluster("n1", "a", 3, s1)
	if e.violated() {
		return
	}
	var b *cluster
	if g.Intn(2) == 0 {
		b = e.addCluster("n2", "b", []int32{1, 1, 3}[g.Intn(3)], e.spec("conf"))
	}
	if e.violated() {
		return
	}
	ok := a.settle("after the creation", -1)
	a.options("conf")
	if b != nil && ok {
		b.settle("after the creation", -1)
		b.options("conf")
	}
	e.endpoints()
	n := len(steps)
	k := (int(seed)%n + n) % n
	// eight consecutive seeds do every step once
	todo := []string{steps[k], steps[(k+n/2)%n]}
	if vlib.Thorough() {
		for range 3 {
			todo = append(todo, steps[g.Intn(n)])
		}
	}
	for _, k := range todo {
		if e.violated() {
			break
		}
		if k == "misuse" {
			e.misuse()
			continue
		}
		e.step(k)
		e.endpoints()
	}
	// it ends as it should
	if !e.violated() {
		for _, c := range e.cls {
			if !c.gone {
				c.settle("at the end", -1)
			}
		}
	}
	for _, p := range e.live() {
		_ = p.cmd.Process.Signal(syscall.SIGTERM)
	}
	for _, p := range e.procs {
		if !p.wait(60 * time.Second) {
			e.viol("never ends", "%s did not end within 60 s of SIGTERM", p.user)
		}
	}
	e.exclusive()
	rep.Eval("e2e:" + strings.Join(e.acts, ","))
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Println(e.log.String())
	}
}
