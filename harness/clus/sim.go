// Package clus runs the real clustering package (ClusterManager, managerProcess,
// dbop operators, MySQL driver) against simulated mysqld instances and a
// simulated Kubernetes API, in virtual time, under faults; monitors watch every
// statement, acknowledgment and API write.
package clus

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/cybozu-go/moco/pkg/password"
	"github.com/go-logr/logr"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"google.golang.org/grpc"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/tools/record"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/apiutil"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"
	"sigs.k8s.io/controller-runtime/pkg/manager"

	"verifharness/mysim"
	"verifharness/perm"
	"verifharness/vlib"
)

const (
	ns        = "ns"
	finalizer = "verif.example.com/kubelet"
)

var scheme = func() *runtime.Scheme {
	s := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(s)
	_ = mocov1beta2.AddToScheme(s)
	return s
}()

// PodTruth is what the API server holds for a pod.
type PodTruth struct {
	Exists   bool
	UID      types.UID
	Role     string
	Demote   bool
	Prevent  bool
	Deleting bool
	Ready    bool
	// monitor bookkeeping
	RoleLostAt time.Time
	RoleLost   string
}

// Truth mirrors the API server's objects (guarded by World.Mu).
type Truth struct {
	Index        int
	Replicas     int
	Offline      bool
	Intermediate bool
	Restore      bool
	Restored     bool
	Cloned       bool
	MaxDelay     int64
	ErrantList   []int
	Pods         []PodTruth
	Gone         bool
	Status       mocov1beta2.MySQLClusterStatus
}

type kubelet struct {
	termAt     time.Time // when the mysqld of a terminating pod is stopped
	goneAt     time.Time // when the pod object goes away
	recreateAt time.Time
	bootAt     time.Time
	crashed    bool // mysqld is down although the pod exists, and is not restarted
	probeAt    time.Time
	wipe       bool // the volume is lost with the pod
	noRestart  bool
}

// Sim is one scenario run.
type Sim struct {
	W    *mysim.World
	R    *rand.Rand
	Name string
	raw  client.WithWatch
	ctl  client.WithWatch
	Mgr  clustering.ClusterManager
	opf  dbop.OperatorFactory
	pw   *password.MySQLPassword
	T    Truth
	M    *Mon
	Rep  *vlib.Report
	Case string

	kub      []*kubelet
	ext      *mysim.Inst // external replication source
	extPw    string
	Interval time.Duration
	mgrEpoch int

	stopClients context.CancelFunc
	cctx        context.Context
	cwg         sync.WaitGroup

	// API faults for the controller: called before/after a write.
	APIFault func(verb, kind string, when string) error
	// SQLFault as in the world, for the controller only.
	apiOps, sqlOps int
	// crash points
	onOp func(kind string, n int)

	Events               []string
	cloneFail            func(i int) error
	cloning              int
	FairUntil            time.Time
	podDelay             time.Duration
	quiet                bool // no client connections that hold transactions
	paused               bool
	stuck                string
	mgrSem               chan struct{}
	mode                 string // of the writers
	noFlap               bool
	wasInter, wasX       bool
	interUntil, editedAt time.Time
	backupAt             time.Time
}

// NewSim builds a cluster of n instances, with pods being created.
func NewSim(seed int64, name string, n int, rep *vlib.Report, cs string) *Sim {
	s := &Sim{R: rand.New(rand.NewSource(seed)), Name: name, Rep: rep, Case: cs, Interval: 5 * time.Second, mgrSem: make(chan struct{}, 1)}
	s.W = mysim.NewWorld(seed + 7)
	pw, err := password.NewMySQLPassword()
	if err != nil {
		panic(err)
	}
	s.pw = pw
	s.W.Tick = 40 * time.Millisecond
	s.raw = fake.NewClientBuilder().WithScheme(scheme).
		WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &corev1.Pod{}).Build()
	s.ctl = interceptor.NewClient(s.raw, s.funcs())
	s.opf = dbop.NewFactory(resolver{s})
	s.cctx, s.stopClients = context.WithCancel(context.Background())

	cl := &mocov1beta2.MySQLCluster{}
	cl.Name, cl.Namespace = name, ns
	cl.Spec.Replicas = int32(n)
	cl.Spec.ServerIDBase = 100
	cl.Spec.StartupWaitSeconds = 60
	must(s.raw.Create(context.Background(), cl))
	sec := pw.ToSecret()
	sec.Name, sec.Namespace = cl.UserSecretName(), ns
	must(s.raw.Create(context.Background(), sec))

	s.T.Replicas = n
	s.M = newMon(s)
	s.W.Hook = s.M.hook
	s.W.AfterStep = s.M.observe
	s.W.Fault = s.fault
	s.W.InstallDialer()
	s.grow(n)
	s.refreshCluster()
	return s
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (s *Sim) key() types.NamespacedName { return types.NamespacedName{Namespace: ns, Name: s.Name} }
func (s *Sim) podName(i int) string      { return fmt.Sprintf("moco-%s-%d", s.Name, i) }

func (s *Sim) hostname(i int) string {
	cl := &mocov1beta2.MySQLCluster{}
	cl.Name, cl.Namespace = s.Name, ns
	return cl.PodHostname(i)
}

// grow adds instances up to n.
func (s *Sim) grow(n int) {
	for i := len(s.kub); i < n; i++ {
		ver := "8.0.41"
		if s.R.Intn(2) == 0 {
			ver = "8.4.5"
		}
		if i > 0 {
			ver = s.W.Insts[0].Ver
		}
		in := s.W.Add(s.podName(i), fmt.Sprintf("10.0.0.%d", i+1), s.hostname(i), 100+i, ver)
		in.Auth = s.auth
		s.W.Mu.Lock()
		s.kub = append(s.kub, &kubelet{recreateAt: time.Now().Add(time.Duration(s.R.Intn(3000)) * time.Millisecond)})
		s.T.Pods = append(s.T.Pods, PodTruth{})
		s.W.Mu.Unlock()
	}
}

func (s *Sim) auth(user string) (string, bool) {
	switch user {
	case constants.AdminUser:
		return s.pw.Admin(), true
	case constants.ReplicationUser:
		return s.pw.Replicator(), true
	case constants.CloneDonorUser:
		return s.pw.Donor(), true
	case constants.BackupUser:
		return s.pw.Backup(), true
	}
	return "", false
}

type resolver struct{ s *Sim }

func (r resolver) Resolve(ctx context.Context, c *mocov1beta2.MySQLCluster, i int) (string, error) {
	r.s.W.Mu.Lock()
	defer r.s.W.Mu.Unlock()
	if i >= len(r.s.kub) || !r.s.T.Pods[i].Exists {
		return "", errors.New("no such pod")
	}
	return r.s.W.Insts[i].IP, nil
}

// ---- API ----

func (s *Sim) refreshCluster() {
	cl := &mocov1beta2.MySQLCluster{}
	if err := s.raw.Get(context.Background(), s.key(), cl); err != nil {
		s.T.Gone = true
		return
	}
	s.T.Index = cl.Status.CurrentPrimaryIndex
	s.T.Replicas = int(cl.Spec.Replicas)
	s.T.Offline = cl.Spec.Offline
	s.T.Intermediate = cl.Spec.ReplicationSourceSecretName != nil
	s.T.Restore = cl.Spec.Restore != nil
	s.T.Restored = cl.Status.RestoredTime != nil
	s.T.Cloned = cl.Status.Cloned
	s.T.MaxDelay = cl.Spec.MaxDelaySecondsForPodDeletion
	s.T.ErrantList = cl.Status.ErrantReplicaList
	s.T.Status = cl.Status
	s.M.observe()
}

func (s *Sim) refreshPod(i int) {
	if i < 0 || i >= len(s.T.Pods) {
		return
	}
	pod := &corev1.Pod{}
	t := &s.T.Pods[i]
	if err := s.raw.Get(context.Background(), client.ObjectKey{Namespace: ns, Name: s.podName(i)}, pod); err != nil {
		*t = PodTruth{}
		s.M.observe()
		return
	}
	old := *t
	if old.UID != pod.UID {
		*t = PodTruth{}
		old = PodTruth{}
	}
	t.Exists = true
	t.UID = pod.UID
	t.Role = pod.Labels[constants.LabelMocoRole]
	t.Demote = pod.Annotations[constants.AnnDemote] == "true"
	_, t.Prevent = pod.Annotations[constants.AnnPreventDelete]
	t.Deleting = pod.DeletionTimestamp != nil
	t.Ready = false
	for _, c := range pod.Status.Conditions {
		if c.Type == corev1.PodReady && c.Status == corev1.ConditionTrue {
			t.Ready = true
		}
	}
	if old.Role != t.Role && old.Role != "" {
		t.RoleLost, t.RoleLostAt = old.Role, time.Now()
	}
	s.M.observe()
}

func podIndex(name string) int {
	k := strings.LastIndexByte(name, '-')
	n, err := strconv.Atoi(name[k+1:])
	if err != nil {
		return -1
	}
	return n
}

func (s *Sim) apiDelay() {
	s.W.Mu.Lock()
	d := time.Duration(s.R.Intn(6)) * time.Millisecond
	if s.R.Intn(40) == 0 {
		d = time.Duration(s.R.Intn(400)) * time.Millisecond
	}
	s.W.Mu.Unlock()
	time.Sleep(d)
}

// apiWrite runs one write of the controller, linearized with the monitors.
func (s *Sim) apiWrite(verb string, obj client.Object, f func() error) error {
	s.asked(verb, obj)
	s.apiDelay()
	s.W.Mu.Lock()
	defer s.W.Mu.Unlock()
	s.M.touch()
	kind := fmt.Sprintf("%T", obj)
	kind = kind[strings.LastIndexByte(kind, '.')+1:]
	s.apiOps++
	if s.onOp != nil {
		s.onOp("api-pre "+verb+" "+kind, s.apiOps)
	}
	if s.APIFault != nil {
		if err := s.APIFault(verb, kind, "pre"); err != nil {
			s.W.Logf("API %s %s/%s fault(pre) %v", verb, kind, obj.GetName(), err)
			s.M.disturb()
			return err
		}
	}
	var before *PodTruth
	pi := -1
	oldT := s.T
	if _, ok := obj.(*corev1.Pod); ok {
		pi = podIndex(obj.GetName())
		if pi >= 0 && pi < len(s.T.Pods) {
			b := s.T.Pods[pi]
			before = &b
		}
	}
	ctx := s.M.preWrite(verb, kind)
	if err := f(); err != nil {
		s.W.Logf("API %s %s/%s err %v", verb, kind, obj.GetName(), err)
		return err
	}
	if before != nil {
		s.refreshPod(pi)
		s.M.podWritten(pi, *before, s.T.Pods[pi], ctx)
	} else if kind == "MySQLCluster" {
		s.M.freeze = true
		s.refreshCluster()
		s.M.clusterWritten(oldT, ctx)
		s.M.freeze = false
		s.M.observe()
	} else {
		s.W.Logf("API %s %s/%s", verb, kind, obj.GetName())
	}
	if s.APIFault != nil {
		if err := s.APIFault(verb, kind, "post"); err != nil {
			s.W.Logf("API %s %s/%s fault(post) %v", verb, kind, obj.GetName(), err)
			s.M.disturb()
			return err
		}
	}
	return nil
}

func (s *Sim) apiRead(kind string, f func() error) error {
	s.apiDelay()
	s.W.Mu.Lock()
	defer s.W.Mu.Unlock()
	s.M.touch()
	if s.APIFault != nil {
		if err := s.APIFault("get", kind, "pre"); err != nil {
			s.M.disturb()
			return err
		}
	}
	return f()
}

// asked judges a request by the permissions moco-controller is shipped with.
func (s *Sim) asked(verb string, obj runtime.Object) {
	if !s.Rep.Wants("M02") {
		return
	}
	gvk, err := apiutil.GVKForObject(obj, s.raw.Scheme())
	if err != nil {
		return
	}
	verb, sub, _ := strings.Cut(verb, "-")
	s.Rep.Count("permission_checks", 1)
	s.Rep.Sig("perm " + verb + " " + perm.Resource(gvk) + "/" + sub)
	if x := perm.Missing(verb, gvk, sub); x != "" {
		s.W.Mu.Lock()
		defer s.W.Mu.Unlock()
		s.M.violate("M02", "a request of the controller is not permitted", x)
	}
}

func (s *Sim) funcs() interceptor.Funcs {
	return interceptor.Funcs{
		Get: func(ctx context.Context, c client.WithWatch, key client.ObjectKey, obj client.Object, o ...client.GetOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			s.asked("get", obj)
			return s.apiRead(fmt.Sprintf("%T", obj), func() error { return c.Get(ctx, key, obj, o...) })
		},
		List: func(ctx context.Context, c client.WithWatch, l client.ObjectList, o ...client.ListOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			s.asked("list", l)
			return s.apiRead(fmt.Sprintf("%T", l), func() error { return c.List(ctx, l, o...) })
		},
		Create: func(ctx context.Context, c client.WithWatch, obj client.Object, o ...client.CreateOption) error {
			return s.apiWrite("create", obj, func() error { return c.Create(ctx, obj, o...) })
		},
		Delete: func(ctx context.Context, c client.WithWatch, obj client.Object, o ...client.DeleteOption) error {
			return s.apiWrite("delete", obj, func() error { return c.Delete(ctx, obj, o...) })
		},
		Update: func(ctx context.Context, c client.WithWatch, obj client.Object, o ...client.UpdateOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			return s.apiWrite("update", obj, func() error { return c.Update(ctx, obj, o...) })
		},
		Patch: func(ctx context.Context, c client.WithWatch, obj client.Object, p client.Patch, o ...client.PatchOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			return s.apiWrite("patch", obj, func() error { return c.Patch(ctx, obj, p, o...) })
		},
		SubResourceUpdate: func(ctx context.Context, c client.Client, sub string, obj client.Object, o ...client.SubResourceUpdateOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			return s.apiWrite("update-"+sub, obj, func() error { return c.SubResource(sub).Update(ctx, obj, o...) })
		},
		SubResourcePatch: func(ctx context.Context, c client.Client, sub string, obj client.Object, p client.Patch, o ...client.SubResourcePatchOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			return s.apiWrite("patch-"+sub, obj, func() error { return c.SubResource(sub).Patch(ctx, obj, p, o...) })
		},
	}
}

// Conflict is a write conflict.
func Conflict() error {
	return apierrors.NewConflict(schema.GroupResource{Group: "moco.cybozu.com", Resource: "mysqlclusters"}, "x", errors.New("injected"))
}

// Unavailable is a server error.
func Unavailable() error { return apierrors.NewInternalError(errors.New("injected")) }

// ---- environment writes ----

// EditCluster changes the MySQLCluster as a user or another controller would.
func (s *Sim) EditCluster(f func(c *mocov1beta2.MySQLCluster)) {
	s.W.Mu.Lock()
	defer s.W.Mu.Unlock()
	cl := &mocov1beta2.MySQLCluster{}
	must(s.raw.Get(context.Background(), s.key(), cl))
	st := cl.Status.DeepCopy()
	f(cl)
	newSt := cl.Status.DeepCopy()
	cl.Status = *st
	must(s.raw.Update(context.Background(), cl))
	cl.Status = *newSt
	must(s.raw.Status().Update(context.Background(), cl))
	s.refreshCluster()
	s.M.userEdit(cl)
	s.W.Logf("ENV edit cluster: replicas=%d offline=%v intermediate=%v restore=%v/%v maxDelay=%d", s.T.Replicas, s.T.Offline, s.T.Intermediate, s.T.Restore, s.T.Restored, s.T.MaxDelay)
}

// editPod changes a pod (Mu held).
func (s *Sim) editPod(i int, f func(p *corev1.Pod)) {
	pod := &corev1.Pod{}
	if err := s.raw.Get(context.Background(), client.ObjectKey{Namespace: ns, Name: s.podName(i)}, pod); err != nil {
		return
	}
	f(pod)
	st := pod.Status.DeepCopy()
	if err := s.raw.Update(context.Background(), pod); err != nil {
		if apierrors.IsNotFound(err) {
			s.refreshPod(i)
			return
		}
		panic(err)
	}
	if !s.podGone(i) {
		pod.Status = *st
		must(s.raw.Status().Update(context.Background(), pod))
	}
	s.refreshPod(i)
}

func (s *Sim) podGone(i int) bool {
	pod := &corev1.Pod{}
	return s.raw.Get(context.Background(), client.ObjectKey{Namespace: ns, Name: s.podName(i)}, pod) != nil
}

func (s *Sim) createPod(i int) {
	pod := &corev1.Pod{}
	pod.Name, pod.Namespace = s.podName(i), ns
	pod.UID = types.UID(fmt.Sprintf("u%d-%d", i, s.R.Int63()))
	pod.Labels = map[string]string{
		constants.LabelAppName:      constants.AppNameMySQL,
		constants.LabelAppInstance:  s.Name,
		constants.LabelAppCreatedBy: constants.AppCreator,
	}
	pod.Finalizers = []string{finalizer}
	pod.Status.PodIP = s.W.Insts[i].IP
	must(s.raw.Create(context.Background(), pod))
	pod.Status.PodIP = s.W.Insts[i].IP
	pod.Status.Conditions = vlib.PodConditions(false, time.Time{})
	must(s.raw.Status().Update(context.Background(), pod))
	s.refreshPod(i)
	s.W.Logf("ENV pod %d created", i)
}

// Demote sets the demote annotation on the pod (Mu not held).
func (s *Sim) Demote(i int) {
	s.W.Mu.Lock()
	s.W.Logf("ENV demote annotation on pod %d", i)
	s.editPod(i, func(p *corev1.Pod) {
		if p.Annotations == nil {
			p.Annotations = map[string]string{}
		}
		p.Annotations[constants.AnnDemote] = "true"
	})
	notify := s.R.Intn(4) > 0
	s.W.Mu.Unlock()
	if notify && !s.paused {
		s.mgr(func(m clustering.ClusterManager) { m.UpdateNoStart(s.key(), "pod") })
	}
}

// DeletePod deletes a pod; voluntary deletions honour prevent-delete.
func (s *Sim) DeletePod(i int, voluntary, wipe bool) bool {
	s.W.Mu.Lock()
	if !s.T.Pods[i].Exists || s.T.Pods[i].Deleting || voluntary && s.T.Pods[i].Prevent {
		s.W.Mu.Unlock()
		return false
	}
	s.W.Logf("ENV delete pod %d (wipe=%v)", i, wipe)
	pod := &corev1.Pod{}
	pod.Name, pod.Namespace = s.podName(i), ns
	must(s.raw.Delete(context.Background(), pod))
	k := s.kub[i]
	k.termAt = time.Now().Add(20 * time.Second)
	if !voluntary {
		k.termAt = time.Now()
	}
	k.wipe = wipe
	k.noRestart = false
	s.refreshPod(i)
	notify := s.R.Intn(4) > 0
	s.W.Mu.Unlock()
	if notify && !s.paused {
		s.mgr(func(m clustering.ClusterManager) { m.UpdateNoStart(s.key(), "pod") })
	}
	return true
}

// kubeTick runs the StatefulSet controller and the kubelets (Mu held).
func (s *Sim) kubeTick() {
	now := time.Now()
	if s.T.Gone {
		return
	}
	for i, k := range s.kub {
		in := s.W.Insts[i]
		t := s.T.Pods[i]
		want := i < s.T.Replicas && !s.T.Offline
		switch {
		case !t.Exists:
			if want && now.After(k.recreateAt) {
				s.createPod(i)
				k.bootAt = now.Add(time.Duration(500+s.R.Intn(5000)) * time.Millisecond)
				k.termAt, k.goneAt = time.Time{}, time.Time{}
				k.crashed = false
			}
			continue
		case t.Deleting:
			if !k.termAt.IsZero() && now.After(k.termAt) {
				if i == s.T.Index && !s.safePrimary() {
					k.termAt = now.Add(300 * time.Millisecond)
					continue
				}
				k.termAt = time.Time{}
				in.StopInst()
				k.goneAt = now.Add(time.Duration(200+s.R.Intn(3000)) * time.Millisecond)
			}
			if !k.goneAt.IsZero() && now.After(k.goneAt) {
				k.goneAt = time.Time{}
				if k.wipe && s.wipeSafe(i) {
					in.Wipe()
				}
				k.wipe = false
				s.editPod(i, func(p *corev1.Pod) { p.Finalizers = nil })
				s.W.Logf("ENV pod %d gone", i)
				k.recreateAt = now.Add(time.Duration(500+s.R.Intn(6000)) * time.Millisecond)
				continue
			}
		case !want:
			pod := &corev1.Pod{}
			pod.Name, pod.Namespace = s.podName(i), ns
			must(s.raw.Delete(context.Background(), pod))
			k.termAt = now.Add(time.Duration(s.R.Intn(20000)) * time.Millisecond)
			s.refreshPod(i)
			continue
		}
		if !in.Up && !k.noRestart && !t.Deleting && !k.bootAt.IsZero() && now.After(k.bootAt) {
			k.bootAt = time.Time{}
			in.StartInst()
			k.probeAt = now
		}
		if now.After(k.probeAt) {
			k.probeAt = now.Add(time.Duration(400+s.R.Intn(2000)) * time.Millisecond)
			ready := s.probe(in)
			if ready != s.T.Pods[i].Ready {
				s.editPod(i, func(p *corev1.Pod) {
					p.Status.Conditions = vlib.PodConditions(ready, time.Time{})
				})
				s.W.Logf("ENV pod %d ready=%v", i, ready)
			}
		}
	}
}

// wipeSafe: more than half of the instances hold all acknowledged transactions
// without this one (Mu held).
func (s *Sim) wipeSafe(i int) bool {
	n := 0
	for j := range s.kub {
		if j != i && s.W.Acked.Subset(s.W.Insts[j].Have()) {
			n++
		}
	}
	return n > s.T.Replicas/2
}

// probe is moco-agent's readiness probe.
func (s *Sim) probe(in *mysim.Inst) bool {
	if !in.Up || in.Hung {
		return false
	}
	if !in.ReadOnly {
		return true
	}
	if in.Repl == nil || in.IOState() != "Yes" || !in.SQLRunning {
		return false
	}
	if d, ok := in.SecondsBehind().(int64); !ok || d > 60 {
		return false
	}
	return true
}

// Crash stops a mysqld; it restarts after d (never if d < 0) (Mu held).
func (s *Sim) Crash(i int, d time.Duration) {
	s.W.Logf("ENV crash mysqld %d for %v", i, d)
	s.W.Insts[i].StopInst()
	k := s.kub[i]
	if d >= 0 {
		k.bootAt = time.Now().Add(d)
		k.noRestart = false
	} else {
		k.noRestart = true
	}
	k.probeAt = time.Now().Add(time.Duration(s.R.Intn(1500)) * time.Millisecond)
	s.M.observe()
}

// ---- agent ----

type agentFactory struct{ s *Sim }

func (f agentFactory) New(ctx context.Context, c *mocov1beta2.MySQLCluster, i int) (clustering.AgentConn, error) {
	f.s.W.Mu.Lock()
	defer f.s.W.Mu.Unlock()
	f.s.M.touch()
	f.s.M.agents++
	return &agentConn{s: f.s, i: i}, nil
}

type agentConn struct {
	s      *Sim
	i      int
	closed bool
}

func (a *agentConn) Close() error {
	a.s.W.Mu.Lock()
	defer a.s.W.Mu.Unlock()
	if !a.closed {
		a.closed = true
		a.s.M.agents--
	}
	return nil
}

func (a *agentConn) Clone(ctx context.Context, in *agent.CloneRequest, _ ...grpc.CallOption) (*agent.CloneResponse, error) {
	s := a.s
	s.W.Mu.Lock()
	i := s.W.Insts[a.i]
	s.M.cloneCalled(a.i, in)
	if !i.Up || !i.CtlReach || i.Hung {
		s.W.Mu.Unlock()
		return nil, errors.New("agent unavailable")
	}
	donor := s.W.FindHost(in.Host)
	fail := func(msg string, state string) (*agent.CloneResponse, error) {
		if state != "" {
			i.CloneState = state
		}
		s.W.Logf("CLONE of %d failed: %s", a.i, msg)
		s.M.observe()
		s.W.Mu.Unlock()
		return nil, errors.New(msg)
	}
	// moco-agent refuses to clone over data
	if !i.Executed.Empty() {
		return fail("recipient is not empty", "")
	}
	if donor == nil || !donor.Up {
		return fail("donor unreachable", "Failed")
	}
	if donor != s.ext {
		if pw, ok := donor.Auth(in.User); !ok || pw != in.Password || in.Port != 33062 {
			return fail("donor access denied", "Failed")
		}
	} else if in.Password != s.extPw || in.User != "ext-donor" || in.Port != 3306 {
		return fail("donor access denied", "Failed")
	}
	if s.cloneFail != nil {
		if err := s.cloneFail(a.i); err != nil {
			return fail(err.Error(), "Failed")
		}
	}
	i.CloneState = "In Progress"
	ep := i.Epoch
	s.cloning++
	s.M.observe()
	d := time.Duration(200+s.R.Intn(5000)) * time.Millisecond
	s.W.Mu.Unlock()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ctx.Done():
	case <-t.C:
	}
	s.W.Mu.Lock()
	s.cloning--
	if !i.Up || i.Epoch != ep || !donor.Up || ctx.Err() != nil {
		return fail("clone interrupted", "Failed")
	}
	s.W.Logf("CLONE of %d from %s done", a.i, donor.Name)
	i.CloneData(donor)
	s.M.observe()
	s.W.Mu.Unlock()
	return &agent.CloneResponse{}, nil
}

// ---- manager ----

type stubMgr struct {
	manager.Manager
	s *Sim
}

func (m stubMgr) GetClient() client.Client                        { return m.s.ctl }
func (m stubMgr) GetAPIReader() client.Reader                     { return m.s.ctl }
func (m stubMgr) GetEventRecorderFor(string) record.EventRecorder { return recorder{m.s} }

type recorder struct{ s *Sim }

func (r recorder) Event(o runtime.Object, t, reason, msg string) {
	r.s.W.Mu.Lock()
	defer r.s.W.Mu.Unlock()
	r.s.W.Logf("EVENT %s %s", reason, msg)
	r.s.M.events[reason]++
}
func (r recorder) Eventf(o runtime.Object, t, reason, f string, a ...any) {
	r.Event(o, t, reason, fmt.Sprintf(f, a...))
}
func (r recorder) AnnotatedEventf(o runtime.Object, _ map[string]string, t, reason, f string, a ...any) {
	r.Event(o, t, reason, fmt.Sprintf(f, a...))
}

// StartMgr makes a new ClusterManager (a controller start).
func (s *Sim) StartMgr() {
	s.mgrSem <- struct{}{}
	s.startLocked()
	<-s.mgrSem
}

func (s *Sim) startLocked() {
	s.W.Mu.Lock()
	s.mgrEpoch++
	s.W.Gen++
	s.W.Logf("CTL manager started")
	s.W.Mu.Unlock()
	s.Mgr = clustering.NewClusterManager(s.Interval, stubMgr{s: s}, s.opf, agentFactory{s}, logr.Discard())
	s.Mgr.Update(s.key(), "start")
}

// mgr serializes the calls of the manager: its mutex, held while it waits for
// the processes to end, would stop the virtual clock.
func (s *Sim) mgr(f func(m clustering.ClusterManager)) {
	s.mgrSem <- struct{}{}
	f(s.Mgr)
	<-s.mgrSem
}

// RestartMgr stops the manager and starts another.
func (s *Sim) RestartMgr() {
	s.mgrSem <- struct{}{}
	defer func() { <-s.mgrSem }()
	s.Mgr.StopAll()
	s.W.Mu.Lock()
	s.M.count("mgr_stops")
	s.W.Logf("CTL manager stopped")
	if n := s.W.Clients; n > 0 {
		s.M.violate("C14", "connections left after StopAll", fmt.Sprintf("%d admin connections remain open after StopAll returned", n))
	}
	if s.M.agents != 0 {
		s.M.violate("C14", "agent connections left after StopAll", fmt.Sprintf("%d agent connections remain open", s.M.agents))
	}
	s.W.Mu.Unlock()
	s.startLocked()
}

// checks is the value of moco's check counter for this cluster.
func (s *Sim) checks() int64 { return s.counter(metrics.CheckCountVec) }
func (s *Sim) errors() int64 { return s.counter(metrics.ErrorCountVec) }

func (s *Sim) counter(v *prometheus.CounterVec) int64 {
	var m dto.Metric
	c, err := v.GetMetricWithLabelValues(s.Name, ns)
	if err != nil {
		return 0
	}
	if err := c.Write(&m); err != nil {
		return 0
	}
	return int64(m.GetCounter().GetValue())
}

// Cond is the status of a condition in the API.
func (s *Sim) Cond(t string) (metav1.ConditionStatus, string) {
	c := meta.FindStatusCondition(s.T.Status.Conditions, t)
	if c == nil {
		return "", ""
	}
	return c.Status, c.Reason
}

// Run starts the environment.
func (s *Sim) Run() {
	s.W.Run()
	s.cwg.Add(1)
	go func() {
		defer s.cwg.Done()
		for sleepCtx(s.cctx, 200*time.Millisecond) {
			s.W.Mu.Lock()
			s.kubeTick()
			s.W.Mu.Unlock()
		}
	}()
}

func sleepCtx(ctx context.Context, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ctx.Done():
		return false
	case <-t.C:
		return true
	}
}

// fault is the world's fault hook for statements.
func (s *Sim) fault(i *mysim.Inst, user, stmt, when string) error {
	if user != constants.AdminUser {
		return nil
	}
	if when == "pre" {
		s.sqlOps++
	}
	if s.onOp != nil && when == "pre" {
		s.onOp("sql "+stmt, s.sqlOps)
	}
	if s.M.SQLFault == nil {
		return nil
	}
	err := s.M.SQLFault(i, stmt, when)
	if err != nil {
		s.M.disturb()
		s.M.faulted(i.Index)
		s.W.Logf("SQL fault(%s) on %d: %s: %v", when, i.Index, stmt, err)
	}
	return err
}

// ---- clients ----

// pick finds the pod a service sends connections to (Mu held).
func (s *Sim) pick(role string) *mysim.Inst {
	var l []*mysim.Inst
	for i, p := range s.T.Pods {
		if p.Exists && p.Role == role && p.Ready && !p.Deleting {
			l = append(l, s.W.Insts[i])
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[s.R.Intn(len(l))]
}

// Clients starts n writers through the primary service and some readers.
func (s *Sim) Clients(writers, readers int, long bool) {
	for k := range writers {
		s.cwg.Add(1)
		go func() {
			defer s.cwg.Done()
			s.writer(k, long)
		}()
	}
	for range readers {
		s.cwg.Add(1)
		go func() {
			defer s.cwg.Done()
			s.reader()
		}()
	}
}

func (s *Sim) rnd(n int) int {
	s.W.Mu.Lock()
	defer s.W.Mu.Unlock()
	return s.R.Intn(n)
}

func (s *Sim) writer(k int, long bool) {
	ctx := s.cctx
	gap := 700
	switch s.mode {
	case "zero":
		return
	case "burst":
		gap = 60
	case "slow":
		gap = 20000
	}
	few := 5 + s.rnd(10)
	for sleepCtx(ctx, time.Duration(100+s.rnd(900))*time.Millisecond) {
		if s.mode == "few" && few <= 0 {
			return
		}
		s.W.Mu.Lock()
		in := s.pick(constants.RolePrimary)
		user, host := "app", "10.1.1.1:4000"
		switch s.R.Intn(12) {
		case 0:
			user, host = "root", "localhost"
		case 1:
			user = "moco-app" // looks like, but is not, a system user
		}
		s.W.Mu.Unlock()
		if in == nil {
			continue
		}
		c, err := in.OpenConn(user, host)
		if err != nil {
			continue
		}
		for range 1 + s.rnd(20) {
			if long && host != "localhost" && s.rnd(25) == 0 {
				// an open transaction that holds locks for long
				s.W.Mu.Lock()
				if !c.Dead && !in.ReadOnly {
					c.InTx = true
				}
				d := time.Duration(s.R.Intn(40000)) * time.Millisecond
				s.W.Mu.Unlock()
				t0 := time.Now()
				for time.Since(t0) < d && c.Alive() && sleepCtx(ctx, 200*time.Millisecond) {
				}
				s.W.Mu.Lock()
				c.InTx = false
				s.W.Mu.Unlock()
			}
			if few--; s.mode == "few" && few <= 0 {
				break
			}
			if _, err := c.Commit(ctx); err != nil {
				var se *mysim.SQLError
				if !errors.As(err, &se) || s.rnd(2) == 0 {
					break
				}
			}
			if !sleepCtx(ctx, time.Duration(s.rnd(gap))*time.Millisecond) {
				break
			}
		}
		c.CloseConn()
	}
}

func (s *Sim) reader() {
	ctx := s.cctx
	for sleepCtx(ctx, time.Duration(200+s.rnd(1000))*time.Millisecond) {
		s.W.Mu.Lock()
		in := s.pick(constants.RoleReplica)
		s.W.Mu.Unlock()
		if in == nil {
			continue
		}
		c, err := in.OpenConn("app-ro", "10.1.1.2:4000")
		if err != nil {
			continue
		}
		t0 := time.Now()
		d := time.Duration(s.rnd(30000)) * time.Millisecond
		for time.Since(t0) < d && c.Alive() && sleepCtx(ctx, 500*time.Millisecond) {
		}
		c.CloseConn()
	}
}

// SystemConns opens connections that must never be killed.
func (s *Sim) SystemConns(i int) {
	in := s.W.Insts[i]
	for _, u := range [][2]string{
		{constants.ReplicationUser, "10.0.0.9:3000"}, {constants.AgentUser, "localhost"},
		{"system user", "connecting host"}, {"event_scheduler", "localhost"}, {"root", "localhost"},
		{constants.BackupUser, "10.2.0.1:1"}, {constants.ExporterUser, "10.2.0.2:1"},
		{constants.CloneDonorUser, "10.2.0.3:1"},
	} {
		_, _ = in.OpenConn(u[0], u[1])
	}
}

// Close ends the scenario.
func (s *Sim) Close() {
	s.stopClients()
	s.cwg.Wait()
	s.mgr(func(m clustering.ClusterManager) { m.StopAll() })
	s.W.Mu.Lock()
	if n := s.W.Clients; n > 0 {
		s.M.violate("C14", "connections left after StopAll", fmt.Sprintf("%d admin connections remain open after StopAll returned", n))
	}
	if s.M.agents != 0 {
		s.M.violate("C14", "agent connections left after StopAll", fmt.Sprintf("%d agent connections remain open", s.M.agents))
	}
	s.M.closed = true
	s.W.Mu.Unlock()
	s.W.Close()
}

// PauseMgr pauses the clustering of the cluster for d, as the clustering-stopped
// annotation does, and watches that nothing happens meanwhile.
func (s *Sim) PauseMgr(d time.Duration) { s.halt(d, true) }

// StopStart stops the clustering of the cluster for d.
func (s *Sim) StopStart(d time.Duration) { s.halt(d, false) }

func (s *Sim) halt(d time.Duration, pause bool) {
	if s.paused {
		return
	}
	s.paused = true
	if pause {
		s.mgr(func(m clustering.ClusterManager) { m.Pause(s.key()) })
	} else {
		s.mgr(func(m clustering.ClusterManager) { m.Stop(s.key()) })
	}
	s.W.Mu.Lock()
	s.W.Logf("CTL halted (pause=%v) for %v", pause, d)
	s.W.Mu.Unlock()
	// the process finishes its operation; give it time
	sleepCtx(s.cctx, 150*time.Second)
	s.W.Mu.Lock()
	a0, q0 := s.apiOps, s.sqlOps
	s.M.round = ""
	if n := s.W.Clients; n > 0 {
		s.M.violate("C14", "connections left after the process was stopped", fmt.Sprintf("%d admin connections remain", n))
	}
	if s.M.agents != 0 {
		s.M.violate("C14", "agent connections left after the process was stopped", fmt.Sprintf("%d", s.M.agents))
	}
	present := metricSeries(s.Name)
	if v, ok := present["moco_cluster_checks_total"]; ok && v == 0 && !pause {
		// made by our own look at the counter
		delete(present, "moco_cluster_checks_total")
	}
	s.W.Logf("CTL halted: metrics %v", present)
	if pause {
		for _, k := range []string{"moco_cluster_available", "moco_cluster_healthy", "moco_cluster_ready_replicas", "moco_cluster_errant_replicas"} {
			if v, ok := present[k]; !ok || v == v {
				s.M.violate("C14", "metrics of a paused cluster", fmt.Sprintf("%s present=%v value=%v, want NaN", k, ok, v))
			}
		}
		if _, ok := present["moco_cluster_checks_total"]; !ok {
			s.M.violate("C14", "metrics of a paused cluster", "counters were deleted by Pause")
		}
	} else if len(present) > 0 {
		s.M.violate("C14", "metrics of a stopped cluster remain", fmt.Sprint(present))
	}
	s.W.Mu.Unlock()
	// UpdateNoStart must not start it
	s.mgr(func(m clustering.ClusterManager) { m.UpdateNoStart(s.key(), "pod") })
	sleepCtx(s.cctx, d)
	s.W.Mu.Lock()
	if s.apiOps != a0 || s.sqlOps != q0 {
		s.M.violate("C14", "a stopped cluster is still managed", fmt.Sprintf("%d API writes and %d statements after Stop/Pause", s.apiOps-a0, s.sqlOps-q0))
	}
	s.M.count("halts")
	s.M.count("mgr_stops")
	s.mgrEpoch++
	s.W.Gen++
	s.W.Mu.Unlock()
	s.paused = false
	s.mgr(func(m clustering.ClusterManager) { m.Update(s.key(), "resume") })
}

// metricSeries lists the moco_cluster_* series of the cluster.
func metricSeries(name string) map[string]float64 {
	out := map[string]float64{}
	fams, err := registry.Gather()
	if err != nil {
		panic(err)
	}
	for _, f := range fams {
		for _, m := range f.GetMetric() {
			for _, l := range m.GetLabel() {
				if l.GetName() == "name" && l.GetValue() == name {
					v := 0.0
					if m.GetGauge() != nil {
						v = m.GetGauge().GetValue()
					} else if m.GetCounter() != nil {
						v = m.GetCounter().GetValue()
					}
					out[f.GetName()] = v
				}
			}
		}
	}
	return out
}

var registry = func() *prometheus.Registry {
	r := prometheus.NewRegistry()
	metrics.Register(r)
	return r
}()
