// Package ctl runs the real controllers (MySQLCluster, StatefulSet partition, Pod
// watcher) against an in-memory API server and watches every request they make.
//
// The API server is controller-runtime's fake client (server-side apply with
// managed fields) completed by what the guarantees depend on: UIDs, generations,
// immutable fields of StatefulSets, one controller owner, asynchronous orphan
// deletion, defaulting of the update strategy and the real StatefulSet webhook.
package ctl

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	admissionv1 "k8s.io/api/admission/v1"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/tools/record"
	"k8s.io/utils/ptr"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/webhook/admission"
)

// SysNS is the namespace of the controller.
const SysNS = "moco-system"

// Op is one request to the API server, or a call of the cluster manager.
type Op struct {
	N      int
	Verb   string // get list create update patch apply delete status, mgr-*
	Kind   string
	Key    types.NamespacedName
	Before client.Object
	After  client.Object
	Orphan bool
	Err    error
	Fault  string
}

func (o *Op) write() bool {
	switch o.Verb {
	case "create", "update", "patch", "apply", "delete", "status":
		return true
	}
	return false
}

func (o *Op) String() string {
	s := fmt.Sprintf("%3d %-6s %s %s", o.N, o.Verb, o.Kind, o.Key)
	if o.Orphan {
		s += " orphan"
	}
	if o.Fault != "" {
		s += " FAULT " + o.Fault
	}
	if o.Err != nil {
		s += " -> " + strings.ReplaceAll(o.Err.Error(), "\n", " ")
	}
	return s
}

// errCrash is what every request of a controller that "died" gets.
var errCrash = errors.New("simulated crash of the controller")

// World is the API server with the controllers.
type World struct {
	S     *runtime.Scheme
	base  client.WithWatch
	R     *controllers.MySQLClusterReconciler
	P     *controllers.StatefulSetPartitionReconciler
	PW    *controllers.PodWatcher
	Rng   *rand.Rand
	uid   int
	Ops   []*Op // of the running reconciliation
	n     int
	Log   []string
	actor string

	// FaultAt makes the k-th request of the next reconciliation fail.
	FaultAt   int
	FaultKind string // before, lost, conflict, crash, crash-lost
	FaultOnly string // only writes are counted if "w"
	cnt       int
	crashed   bool

	// OrphanDelay is how long an orphaned StatefulSet takes to go away.
	OrphanDelay time.Duration
	// lag has the caches of kinds whose watch is behind: what the controllers read of them.
	lag  map[string]client.Client
	onOp func(*Op)
	// ask is told every request before it is made
	ask   func(verb string, gvk schema.GroupVersionKind, sub string, obj client.Object)
	hook  func(*Op) // runs before a write reaches the API server
	limit int
}

var theScheme = func() *runtime.Scheme {
	s := runtime.NewScheme()
	// only what is used: the fake client builds a REST mapper of the scheme for each request
	for _, f := range []func(*runtime.Scheme) error{corev1.AddToScheme, appsv1.AddToScheme, batchv1.AddToScheme, policyv1.AddToScheme, rbacv1.AddToScheme, storagev1.AddToScheme} {
		_ = f(s)
	}
	_ = mocov1beta2.AddToScheme(s)
	return s
}()

// NewWorld makes an empty API server and the controllers on it.
func NewWorld(rng *rand.Rand) *World {
	w := &World{S: theScheme, Rng: rng}
	w.base = fake.NewClientBuilder().WithScheme(theScheme).WithReturnManagedFields().
		WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &appsv1.StatefulSet{}, &corev1.Pod{}, &batchv1.CronJob{}, &batchv1.Job{}, &corev1.PersistentVolumeClaim{}).Build()
	w.limit = 10
	w.restart()
	return w
}

// restart replaces the controllers by new ones, as a restart of moco-controller does.
func (w *World) restart() {
	w.lag = nil // a new process reads everything anew
	c := &monClient{Client: w.base, w: w}
	w.R = &controllers.MySQLClusterReconciler{Client: c, Scheme: w.S, Recorder: record.NewFakeRecorder(10000), AgentImage: "agent:1", BackupImage: "backup:1",
		FluentBitImage: "fluent:1", ExporterImage: "exporter:1", SystemNamespace: SysNS, ClusterManager: &mgrRec{w}, MySQLConfigMapHistoryLimit: w.limit,
		PVCSyncAnnotationKeys: []string{"sync.example.com/a", "sync.example.com/b"}, PVCSyncLabelKeys: []string{"synclabel", "tier"}}
	w.PW = &controllers.PodWatcher{Client: c, ClusterManager: &mgrRec{w}}
}

func (w *World) logf(f string, a ...any) {
	w.Log = append(w.Log, fmt.Sprintf(f, a...))
}

func (w *World) record(o *Op) *Op {
	w.n++
	o.N = w.n
	w.Ops = append(w.Ops, o)
	return o
}

// Reconcile runs one reconciliation of the cluster.
func (w *World) Reconcile(key types.NamespacedName) (res ctrl.Result, err error) {
	w.Ops = nil
	w.cnt = 0
	w.crashed = false
	w.logf("reconcile %s fault %d %s%s", key, w.FaultAt, w.FaultKind, w.FaultOnly)
	res, err = w.R.Reconcile(context.Background(), ctrl.Request{NamespacedName: key})
	for _, o := range w.Ops {
		if o.write() || o.Err != nil && !apierrors.IsNotFound(o.Err) || strings.HasPrefix(o.Verb, "mgr") {
			w.logf("  %s", o)
		}
	}
	w.logf("  = %v %v", res, err)
	if w.crashed {
		w.restart()
	}
	w.FaultAt, w.FaultKind, w.crashed = 0, "", false
	return res, err
}

// put creates an object as a user or another controller does.
func (w *World) put(obj client.Object) {
	gvk := w.kindOf(obj)
	key := client.ObjectKeyFromObject(obj)
	if _, ok := obj.(*appsv1.StatefulSet); !ok {
		w.uid++
		if obj.GetUID() == "" {
			obj.SetUID(types.UID(fmt.Sprintf("uid-%d", w.uid)))
		}
		obj.SetCreationTimestamp(metav1.NewTime(time.Now().Truncate(time.Second)))
		if obj.GetGeneration() == 0 {
			obj.SetGeneration(1)
		}
		if err := w.base.Create(context.Background(), obj, client.FieldOwner("kubectl")); err != nil {
			panic(fmt.Sprintf("put %s %s: %v", gvk.Kind, key, err))
		}
		return
	}
	before := w.live(gvk, key)
	if err := w.store(gvk, key, before, "create", func() error {
		return w.base.Create(context.Background(), obj, client.FieldOwner("kubectl"))
	}); err != nil {
		panic(fmt.Sprintf("put %s %s: %v", gvk.Kind, key, err))
	}
}

// mod edits an object as a user or another controller does; it reports whether the object exists.
func mod[T client.Object](w *World, proto T, ns, name string, f func(T)) (bool, error) {
	gvk := w.kindOf(proto)
	key := types.NamespacedName{Namespace: ns, Name: name}
	o := w.live(gvk, key)
	if o == nil {
		return false, nil
	}
	before := o.DeepCopyObject().(client.Object)
	f(o.(T))
	return true, w.store(gvk, key, before, "update", func() error { return w.base.Update(context.Background(), o, client.FieldOwner("kubectl")) })
}

// modStatus edits the status subresource of an object.
func modStatus[T client.Object](w *World, proto T, ns, name string, f func(T)) bool {
	o := w.live(w.kindOf(proto), types.NamespacedName{Namespace: ns, Name: name})
	if o == nil {
		return false
	}
	f(o.(T))
	if err := w.base.Status().Update(context.Background(), o, client.FieldOwner("kubelet")); err != nil {
		panic(err)
	}
	return true
}

// get returns the stored object or nil (a typed nil pointer).
func get[T client.Object](w *World, proto T, ns, name string) (t T, ok bool) {
	o := w.live(w.kindOf(proto), types.NamespacedName{Namespace: ns, Name: name})
	if o == nil {
		return t, false
	}
	return o.(T), true
}

// del deletes an object as a user does.
func (w *World) del(obj client.Object) {
	if err := w.base.Delete(context.Background(), obj); err != nil && !apierrors.IsNotFound(err) {
		panic(err)
	}
}

type mgrRec struct{ w *World }

func (m *mgrRec) call(verb string, key types.NamespacedName) {
	if m.w.crashed {
		return
	}
	o := m.w.record(&Op{Verb: "mgr-" + verb, Kind: "manager", Key: key})
	if m.w.onOp != nil {
		m.w.onOp(o)
	}
}
func (m *mgrRec) Update(key types.NamespacedName, origin string)        { m.call("update", key) }
func (m *mgrRec) UpdateNoStart(key types.NamespacedName, origin string) { m.call("updatenostart", key) }
func (m *mgrRec) Stop(key types.NamespacedName)                         { m.call("stop", key) }
func (m *mgrRec) StopAll()                                              { m.call("stopall", types.NamespacedName{}) }
func (m *mgrRec) Pause(key types.NamespacedName)                        { m.call("pause", key) }

// monClient is the client the controllers get.
type monClient struct {
	client.Client
	w *World
}

func (w *World) kindOf(obj runtime.Object) schema.GroupVersionKind {
	if u, ok := obj.(*unstructured.Unstructured); ok {
		return u.GroupVersionKind()
	}
	gvks, _, err := w.S.ObjectKinds(obj)
	if err != nil {
		panic(err)
	}
	return gvks[0]
}

// live returns the stored object or nil.
func (w *World) live(gvk schema.GroupVersionKind, key types.NamespacedName) client.Object {
	o, err := w.S.New(gvk)
	var obj client.Object
	if err != nil {
		u := &unstructured.Unstructured{}
		u.SetGroupVersionKind(gvk)
		obj = u
	} else if u, ok := o.(*unstructured.Unstructured); ok {
		u.SetGroupVersionKind(gvk)
		obj = u
	} else {
		obj = o.(client.Object)
	}
	if err := w.base.Get(context.Background(), key, obj); err != nil {
		if apierrors.IsNotFound(err) {
			return nil
		}
		panic(err)
	}
	return obj
}

func (w *World) asked(verb string, gvk schema.GroupVersionKind, sub string, obj client.Object) {
	if w.ask != nil {
		w.ask(verb, gvk, sub, obj)
	}
}

func (c *monClient) fault(o *Op) (before, after error) {
	w := c.w
	if w.crashed {
		o.Fault = "dead"
		return errCrash, nil
	}
	if w.FaultOnly == "w" && !o.write() {
		return nil, nil
	}
	w.cnt++
	if w.FaultAt == 0 || w.cnt != w.FaultAt {
		return nil, nil
	}
	o.Fault = w.FaultKind
	switch w.FaultKind {
	case "before":
		return apierrors.NewInternalError(errors.New("injected")), nil
	case "conflict":
		return apierrors.NewConflict(schema.GroupResource{Resource: o.Kind}, o.Key.Name, errors.New("injected")), nil
	case "lost":
		return nil, apierrors.NewTimeoutError("injected: reply lost", 1)
	case "crash":
		w.crashed = true
		return errCrash, nil
	case "crash-lost":
		w.crashed = true
		return nil, errCrash
	}
	return nil, nil
}

func (c *monClient) done(o *Op) {
	if c.w.onOp != nil {
		c.w.onOp(o)
	}
}

// reader is where an object is read from: the API server or a cache that is behind.
// Unstructured objects are not cached.
func (w *World) reader(obj any, kind string) client.Reader {
	switch obj.(type) {
	case *unstructured.Unstructured, *unstructured.UnstructuredList:
		return w.base
	}
	if l := w.lag[kind]; l != nil {
		return l
	}
	return w.base
}

// freeze makes the controllers see the objects of the kinds as they are now, until lag is reset.
func (w *World) freeze(kinds ...string) {
	b := fake.NewClientBuilder().WithScheme(theScheme).WithReturnManagedFields()
	want := map[string]bool{}
	for _, k := range kinds {
		want[k] = true
	}
	for _, o := range w.all() {
		if want[w.kindOf(o).Kind] {
			if o.GetDeletionTimestamp() != nil && len(o.GetFinalizers()) == 0 {
				continue
			}
			b.WithObjects(o)
		}
	}
	c := b.Build()
	w.lag = map[string]client.Client{}
	for _, k := range kinds {
		w.lag[k] = c
	}
}

func (c *monClient) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	c.w.asked("get", c.w.kindOf(obj), "", nil)
	o := c.w.record(&Op{Verb: "get", Kind: c.w.kindOf(obj).Kind, Key: key})
	b, a := c.fault(o)
	if b == nil {
		b = c.w.reader(obj, o.Kind).Get(ctx, key, obj, opts...)
	}
	if b == nil {
		b = a
	}
	o.Err = b
	c.done(o)
	return b
}

func (c *monClient) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	c.w.asked("list", c.w.kindOf(l), "", nil)
	o := c.w.record(&Op{Verb: "list", Kind: c.w.kindOf(l).Kind})
	b, a := c.fault(o)
	if b == nil {
		b = c.w.reader(l, strings.TrimSuffix(o.Kind, "List")).List(ctx, l, opts...)
	}
	if b == nil {
		b = a
	}
	o.Err = b
	c.done(o)
	return b
}

// do runs a write with faults, admission and bookkeeping.
func (c *monClient) do(verb string, gvk schema.GroupVersionKind, key types.NamespacedName, f func() error) (*Op, error) {
	w := c.w
	o := w.record(&Op{Verb: verb, Kind: gvk.Kind, Key: key})
	if w.hook != nil {
		w.hook(o)
	}
	o.Before = w.live(gvk, key)
	b, a := c.fault(o)
	if b == nil {
		b = w.store(gvk, key, o.Before, verb, f)
		if b == nil {
			b = a
		}
	}
	o.After = w.live(gvk, key)
	o.Err = b
	return o, b
}

// store runs f on the API server, then admission and completion.
func (w *World) store(gvk schema.GroupVersionKind, key types.NamespacedName, before client.Object, verb string, f func() error) error {
	if verb == "delete" {
		return f()
	}
	if err := f(); err != nil {
		return err
	}
	after := w.live(gvk, key)
	if after == nil || verb == "status" {
		return nil
	}
	undo := func(err error) error {
		ctx := context.Background()
		if before == nil {
			_ = w.base.Delete(ctx, after)
			return err
		}
		b := before.DeepCopyObject().(client.Object)
		b.SetResourceVersion(after.GetResourceVersion())
		if e := w.base.Update(ctx, b, client.FieldOwner("undo")); e != nil {
			panic(e)
		}
		return err
	}
	ctrls := 0
	for _, r := range after.GetOwnerReferences() {
		if r.Controller != nil && *r.Controller {
			ctrls++
		}
	}
	if ctrls > 1 {
		return undo(apierrors.NewInvalid(gvk.GroupKind(), key.Name, nil))
	}
	fix := false
	if before == nil {
		w.uid++
		if after.GetUID() == "" {
			after.SetUID(types.UID(fmt.Sprintf("uid-%d", w.uid)))
		}
		if ts := after.GetCreationTimestamp(); ts.IsZero() {
			after.SetCreationTimestamp(metav1.NewTime(time.Now().Truncate(time.Second)))
		}
		after.SetGeneration(1)
		fix = true
	}
	if sts, ok := after.(*appsv1.StatefulSet); ok {
		var old *appsv1.StatefulSet
		if before != nil {
			old = before.(*appsv1.StatefulSet)
		}
		if err := w.admitSTS(sts, old); err != nil {
			return undo(err)
		}
		if old != nil && !equality.Semantic.DeepEqual(old.Spec, sts.Spec) {
			sts.Generation = old.Generation + 1
		} else if old != nil {
			sts.Generation = old.Generation
		}
		fix = true
	}
	if fix {
		if err := w.base.Update(context.Background(), after, client.FieldOwner("apiserver")); err != nil {
			panic(err)
		}
	}
	return nil
}

func defaultSTS(s *appsv1.StatefulSet) {
	if s.Spec.Replicas == nil {
		s.Spec.Replicas = ptr.To[int32](1)
	}
	if s.Spec.UpdateStrategy.Type == "" {
		s.Spec.UpdateStrategy.Type = appsv1.RollingUpdateStatefulSetStrategyType
		if s.Spec.UpdateStrategy.RollingUpdate == nil {
			s.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{}
		}
	}
	// as the API server does: a strategy given without parameters stays without
	if ru := s.Spec.UpdateStrategy.RollingUpdate; ru != nil && ru.Partition == nil {
		ru.Partition = ptr.To[int32](0)
	}
}

// admitSTS does what the API server does to a StatefulSet: defaults, the real
// mutating webhook, and the immutable fields.
func (w *World) admitSTS(s, old *appsv1.StatefulSet) error {
	defaultSTS(s)
	req := admission.Request{AdmissionRequest: admissionv1.AdmissionRequest{Operation: admissionv1.Create}}
	if old != nil {
		req.Operation = admissionv1.Update
		o := old.DeepCopy()
		o.APIVersion, o.Kind = "apps/v1", "StatefulSet"
		raw, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		req.OldObject.Raw = raw
	}
	if err := (&mocov1beta2.StatefulSetDefaulter{}).Default(admission.NewContextWithRequest(context.Background(), req), s); err != nil {
		return apierrors.NewForbidden(schema.GroupResource{Resource: "statefulsets"}, s.Name, err)
	}
	defaultSTS(s)
	if old != nil {
		a, b := s.Spec.DeepCopy(), old.Spec.DeepCopy()
		for _, x := range []*appsv1.StatefulSetSpec{a, b} {
			x.Replicas, x.Template, x.UpdateStrategy = nil, corev1.PodTemplateSpec{}, appsv1.StatefulSetUpdateStrategy{}
		}
		if !equality.Semantic.DeepEqual(a, b) {
			return apierrors.NewInvalid(schema.GroupKind{Group: "apps", Kind: "StatefulSet"}, s.Name, nil)
		}
	}
	return nil
}

func (c *monClient) Create(ctx context.Context, obj client.Object, opts ...client.CreateOption) error {
	gvk := c.w.kindOf(obj)
	key := client.ObjectKeyFromObject(obj)
	c.w.asked("create", gvk, "", obj)
	o, err := c.do("create", gvk, key, func() error { return c.w.base.Create(ctx, obj, opts...) })
	if err == nil {
		_ = c.w.base.Get(ctx, key, obj)
	}
	c.done(o)
	return err
}

func (c *monClient) Update(ctx context.Context, obj client.Object, opts ...client.UpdateOption) error {
	gvk := c.w.kindOf(obj)
	key := client.ObjectKeyFromObject(obj)
	c.w.asked("update", gvk, "", obj)
	o, err := c.do("update", gvk, key, func() error { return c.w.base.Update(ctx, obj, opts...) })
	if err == nil {
		if o.After != nil {
			_ = c.w.base.Get(ctx, key, obj)
		}
	}
	c.done(o)
	return err
}

func (c *monClient) Patch(ctx context.Context, obj client.Object, p client.Patch, opts ...client.PatchOption) error {
	gvk := c.w.kindOf(obj)
	key := client.ObjectKeyFromObject(obj)
	c.w.asked("patch", gvk, "", obj)
	o, err := c.do("patch", gvk, key, func() error { return c.w.base.Patch(ctx, obj, p, opts...) })
	if err == nil {
		_ = c.w.base.Get(ctx, key, obj)
	}
	c.done(o)
	return err
}

func (c *monClient) Apply(ctx context.Context, ac runtime.ApplyConfiguration, opts ...client.ApplyOption) error {
	b, err := json.Marshal(ac)
	if err != nil {
		return err
	}
	u := &unstructured.Unstructured{}
	if err := u.UnmarshalJSON(b); err != nil {
		return err
	}
	c.w.asked("patch", u.GroupVersionKind(), "", u)
	if c.w.live(u.GroupVersionKind(), client.ObjectKeyFromObject(u)) == nil {
		c.w.asked("create", u.GroupVersionKind(), "", u)
	}
	o, err := c.do("apply", u.GroupVersionKind(), client.ObjectKeyFromObject(u), func() error { return c.w.base.Apply(ctx, ac, opts...) })
	c.done(o)
	return err
}

func (c *monClient) Delete(ctx context.Context, obj client.Object, opts ...client.DeleteOption) error {
	gvk := c.w.kindOf(obj)
	key := client.ObjectKeyFromObject(obj)
	do := &client.DeleteOptions{}
	do.ApplyOptions(opts)
	orphan := do.PropagationPolicy != nil && *do.PropagationPolicy == metav1.DeletePropagationOrphan
	c.w.asked("delete", gvk, "", obj)
	o, err := c.do("delete", gvk, key, func() error {
		if do.Preconditions != nil {
			if l := c.w.live(gvk, key); l != nil && do.Preconditions.UID != nil && l.GetUID() != *do.Preconditions.UID {
				return apierrors.NewConflict(schema.GroupResource{Resource: gvk.Kind}, key.Name, errors.New("precondition"))
			}
		}
		if gvk.Kind == "StatefulSet" && orphan && c.w.OrphanDelay > 0 {
			l := c.w.live(gvk, key)
			if l == nil {
				return apierrors.NewNotFound(schema.GroupResource{Resource: "statefulsets"}, key.Name)
			}
			if l.GetDeletionTimestamp() != nil {
				return nil
			}
			l.SetFinalizers(append(l.GetFinalizers(), "orphan"))
			if err := c.w.base.Update(ctx, l); err != nil {
				return err
			}
			if err := c.w.base.Delete(ctx, l); err != nil {
				return err
			}
			d := c.w.OrphanDelay
			go func() {
				time.Sleep(d)
				if l := c.w.live(gvk, key); l != nil && l.GetDeletionTimestamp() != nil {
					l.SetFinalizers(nil)
					_ = c.w.base.Update(context.Background(), l)
				}
			}()
			return nil
		}
		return c.w.base.Delete(ctx, obj)
	})
	o.Orphan = orphan
	c.done(o)
	return err
}

func (c *monClient) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
	c.w.asked("deletecollection", c.w.kindOf(obj), "", nil)
	o := c.w.record(&Op{Verb: "delete", Kind: c.w.kindOf(obj).Kind, Key: types.NamespacedName{Name: "*"}})
	c.done(o)
	return c.w.base.DeleteAllOf(ctx, obj, opts...)
}

type monStatus struct {
	client.SubResourceWriter
	c *monClient
}

func (c *monClient) Status() client.SubResourceWriter {
	return &monStatus{c.w.base.Status(), c}
}

func (s *monStatus) Update(ctx context.Context, obj client.Object, opts ...client.SubResourceUpdateOption) error {
	gvk := s.c.w.kindOf(obj)
	s.c.w.asked("update", gvk, "status", nil)
	o, err := s.c.do("status", gvk, client.ObjectKeyFromObject(obj), func() error { return s.SubResourceWriter.Update(ctx, obj, opts...) })
	s.c.done(o)
	return err
}

func (s *monStatus) Patch(ctx context.Context, obj client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
	gvk := s.c.w.kindOf(obj)
	s.c.w.asked("patch", gvk, "status", nil)
	o, err := s.c.do("status", gvk, client.ObjectKeyFromObject(obj), func() error { return s.SubResourceWriter.Patch(ctx, obj, p, opts...) })
	s.c.done(o)
	return err
}

func isNil(o client.Object) bool { return o == nil || reflect.ValueOf(o).IsNil() }
