package bk

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/client-go/rest"

	"verifharness/perm"
)

// API is the part of the API server the jobs use, as an http.RoundTripper and
// an http.Handler.
type API struct {
	w        *World
	rv       int
	Clusters map[string]*mocov1beta2.MySQLCluster
	Pods     []*corev1.Pod
	Events   []*corev1.Event
	// onPut is called before a status update is applied.
	onPut func(old, upd *mocov1beta2.MySQLCluster)
	// edit is called before a status update is looked at: a concurrent writer.
	edit func(c *mocov1beta2.MySQLCluster) bool
	// job is what the running job may do and asked is told what it asks for beyond that.
	job   *perm.Rules
	asked func(verb, group, res, name string, ok bool)
}

// judge tells whether the job's ServiceAccount is permitted to ask this (mu held).
func (a *API) judge(r *http.Request, p []string) {
	if a.job == nil || a.asked == nil {
		return
	}
	group := ""
	switch {
	case len(p) >= 2 && p[0] == "api":
		p = p[2:]
	case len(p) >= 3 && p[0] == "apis":
		group, p = p[1], p[3:]
	default:
		return
	}
	if len(p) >= 3 && p[0] == "namespaces" {
		p = p[2:]
	}
	if len(p) == 0 {
		return
	}
	res, name := p[0], ""
	if len(p) > 1 {
		name = p[1]
	}
	if len(p) > 2 {
		res += "/" + p[2]
	}
	verb := map[string]string{"GET": "get", "POST": "create", "PUT": "update", "PATCH": "patch", "DELETE": "delete"}[r.Method]
	if name == "" {
		switch verb {
		case "get":
			verb = "list"
			if q := r.URL.Query().Get("watch"); q == "true" || q == "1" {
				verb = "watch"
			}
		case "delete":
			verb = "deletecollection"
		}
	}
	a.asked(verb, group, res, name, a.job.Allow(verb, group, res, name))
}

func (a *API) config() *rest.Config {
	return &rest.Config{Host: "http://api.invalid", Transport: a, QPS: -1,
		ContentConfig: rest.ContentConfig{ContentType: "application/json", AcceptContentTypes: "application/json"}}
}

func (a *API) RoundTrip(r *http.Request) (*http.Response, error) {
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	if a.w != nil {
		a.w.tick()
	}
	code, obj, err := a.serve(r)
	if err != nil {
		return nil, err
	}
	b, err := json.Marshal(obj)
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: code, Status: strconv.Itoa(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: r}, nil
}

func (a *API) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	code, obj, err := a.serve(r)
	if err != nil {
		panic(http.ErrAbortHandler)
	}
	b, _ := json.Marshal(obj)
	rw.Header().Set("Content-Type", "application/json")
	rw.WriteHeader(code)
	_, _ = rw.Write(b)
}

func status(code int, reason metav1.StatusReason, msg string) (int, any, error) {
	return code, &metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Failure", Code: int32(code), Reason: reason, Message: msg}, nil
}

func (a *API) serve(r *http.Request) (int, any, error) {
	w := a.w
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	gvk := func(kind, gv string) metav1.TypeMeta { return metav1.TypeMeta{Kind: kind, APIVersion: gv} }
	verbs := metav1.Verbs{"get", "list", "create", "update", "patch", "delete", "watch"}
	switch r.URL.Path {
	case "/api":
		return 200, &metav1.APIVersions{TypeMeta: gvk("APIVersions", "v1"), Versions: []string{"v1"}}, nil
	case "/apis":
		g := metav1.GroupVersionForDiscovery{GroupVersion: "moco.cybozu.com/v1beta2", Version: "v1beta2"}
		return 200, &metav1.APIGroupList{TypeMeta: gvk("APIGroupList", "v1"), Groups: []metav1.APIGroup{{Name: "moco.cybozu.com", Versions: []metav1.GroupVersionForDiscovery{g}, PreferredVersion: g}}}, nil
	case "/api/v1":
		return 200, &metav1.APIResourceList{TypeMeta: gvk("APIResourceList", "v1"), GroupVersion: "v1", APIResources: []metav1.APIResource{
			{Name: "pods", Kind: "Pod", Namespaced: true, Verbs: verbs}, {Name: "events", Kind: "Event", Namespaced: true, Verbs: verbs}, {Name: "secrets", Kind: "Secret", Namespaced: true, Verbs: verbs}}}, nil
	case "/apis/moco.cybozu.com/v1beta2":
		return 200, &metav1.APIResourceList{TypeMeta: gvk("APIResourceList", "v1"), GroupVersion: "moco.cybozu.com/v1beta2", APIResources: []metav1.APIResource{
			{Name: "mysqlclusters", Kind: "MySQLCluster", Namespaced: true, Verbs: verbs}, {Name: "mysqlclusters/status", Kind: "MySQLCluster", Namespaced: true, Verbs: metav1.Verbs{"get", "update", "patch"}}}}, nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	a.judge(r, p)
	op := "api" + strings.ToLower(r.Method)
	mode := w.fault(op)
	lost := false
	switch mode {
	case "":
	case "500":
		return status(500, metav1.StatusReasonInternalError, "injected failure")
	case "drop":
		return 0, nil, errors.New("injected connection failure")
	case "lost":
		lost = true
	}
	code, obj, err := a.object(r, p)
	if lost {
		return 0, nil, errors.New("injected loss of the answer")
	}
	return code, obj, err
}

func (a *API) object(r *http.Request, p []string) (int, any, error) {
	w := a.w
	moco := len(p) >= 6 && p[0] == "apis" && p[1] == "moco.cybozu.com" && p[5] == "mysqlclusters"
	core := len(p) >= 5 && p[0] == "api" && p[1] == "v1"
	switch {
	case moco && len(p) == 7 && r.Method == "GET":
		c := a.Clusters[p[4]+"/"+p[6]]
		if c == nil {
			return status(404, metav1.StatusReasonNotFound, p[6]+" not found")
		}
		return 200, c.DeepCopy(), nil
	case moco && len(p) == 8 && p[7] == "status" && (r.Method == "PUT" || r.Method == "PATCH"):
		c := a.Clusters[p[4]+"/"+p[6]]
		if c == nil {
			return status(404, metav1.StatusReasonNotFound, p[6]+" not found")
		}
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return 0, nil, err
		}
		if a.edit != nil && a.edit(c) {
			a.rv++
			c.ResourceVersion = strconv.Itoa(a.rv)
		}
		u := &mocov1beta2.MySQLCluster{}
		if r.Method == "PATCH" {
			// JSON merge patch of the status
			cur, _ := json.Marshal(c)
			m, err := mergePatch(cur, b)
			if err != nil {
				return status(400, metav1.StatusReasonBadRequest, err.Error())
			}
			b = m
		}
		if err := json.Unmarshal(b, u); err != nil {
			return status(400, metav1.StatusReasonBadRequest, err.Error())
		}
		if u.ResourceVersion != "" && u.ResourceVersion != c.ResourceVersion {
			w.logf("API: conflict")
			return status(409, metav1.StatusReasonConflict, "the object has been modified")
		}
		if a.onPut != nil {
			a.onPut(c, u)
		}
		n := c.DeepCopy()
		u.Status.DeepCopyInto(&n.Status)
		a.rv++
		n.ResourceVersion = strconv.Itoa(a.rv)
		a.Clusters[p[4]+"/"+p[6]] = n
		w.logf("API: status of %s updated: backup %s restored %v", p[6], n.Status.Backup.Time.UTC().Format(time.RFC3339), n.Status.RestoredTime)
		return 200, n.DeepCopy(), nil
	case core && len(p) == 5 && p[4] == "pods" && r.Method == "GET":
		sel, err := labels.Parse(r.URL.Query().Get("labelSelector"))
		if err != nil {
			return status(400, metav1.StatusReasonBadRequest, err.Error())
		}
		l := &corev1.PodList{TypeMeta: metav1.TypeMeta{Kind: "PodList", APIVersion: "v1"}}
		for _, q := range a.Pods {
			if q.Namespace == p[3] && sel.Matches(labels.Set(q.Labels)) {
				l.Items = append(l.Items, *q.DeepCopy())
			}
		}
		return 200, l, nil
	case core && len(p) == 6 && p[4] == "pods" && r.Method == "GET":
		for _, q := range a.Pods {
			if q.Namespace == p[3] && q.Name == p[5] {
				q = q.DeepCopy()
				q.TypeMeta = metav1.TypeMeta{Kind: "Pod", APIVersion: "v1"}
				return 200, q, nil
			}
		}
		return status(404, metav1.StatusReasonNotFound, p[5]+" not found")
	case core && len(p) == 5 && p[4] == "events" && r.Method == "POST":
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return 0, nil, err
		}
		e := &corev1.Event{}
		if err := json.Unmarshal(b, e); err != nil {
			return status(400, metav1.StatusReasonBadRequest, err.Error())
		}
		a.Events = append(a.Events, e)
		w.logf("API: event %s", e.Reason)
		return 201, e, nil
	}
	w.odd = append(w.odd, "API request "+r.Method+" "+r.URL.Path)
	return status(404, metav1.StatusReasonNotFound, fmt.Sprintf("no such path %s %s", r.Method, r.URL.Path))
}

func mergePatch(cur, patch []byte) ([]byte, error) {
	var a, b any
	if err := json.Unmarshal(cur, &a); err != nil {
		return nil, err
	}
	if err := json.Unmarshal(patch, &b); err != nil {
		return nil, err
	}
	return json.Marshal(merge(a, b))
}

func merge(a, b any) any {
	bm, ok := b.(map[string]any)
	if !ok {
		return b
	}
	am, ok := a.(map[string]any)
	if !ok {
		am = map[string]any{}
	}
	for k, v := range bm {
		if v == nil {
			delete(am, k)
			continue
		}
		am[k] = merge(am[k], v)
	}
	return am
}

// ---- the bucket ----

// Mem is an object store: what Put returned success for is there, and nothing
// that it failed for (except when only the answer was lost).
type Mem struct {
	w    *World
	Objs map[string][]byte
	// onPut is called when an object has been stored.
	onPut func(key string, data []byte)
}

var errStore = errors.New("injected object storage failure")

func (m *Mem) fault(op string) string {
	m.w.tick()
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	return m.w.fault(op)
}

func (m *Mem) Put(ctx context.Context, key string, data io.Reader, size int64) error {
	mode := m.fault("put")
	if mode == "start" {
		return errStore
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	var b []byte
	m.w.mu.Lock()
	buf := make([]byte, 1+m.w.rnd("put").Intn(40000))
	m.w.mu.Unlock()
	for {
		n, err := data.Read(buf)
		b = append(b, buf[:n]...)
		if mode == "cut" && len(b) > 600 {
			return errStore
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	m.w.tick()
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	if mode == "cut" {
		return errStore
	}
	m.Objs[key] = b
	m.w.logf("bucket: stored %s (%d bytes)", key, len(b))
	if m.onPut != nil {
		m.onPut(key, b)
	}
	if mode == "lost" {
		return errStore
	}
	return nil
}

type faultyReader struct {
	io.Reader
	left int
}

func (f *faultyReader) Read(p []byte) (int, error) {
	if f.left <= 0 {
		return 0, errStore
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.Reader.Read(p)
	f.left -= n
	if err == io.EOF {
		err = errStore
	}
	return n, err
}

func (m *Mem) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	mode := m.fault("get")
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	b, ok := m.Objs[key]
	if mode == "start" {
		return nil, errStore
	}
	if !ok {
		return nil, fmt.Errorf("no such key: %s", key)
	}
	m.w.logf("bucket: get %s", key)
	if mode != "" {
		return io.NopCloser(&faultyReader{bytes.NewReader(b), m.w.rnd("get").Intn(len(b) + 1)}), nil
	}
	return io.NopCloser(bytes.NewReader(b)), nil
}

func (m *Mem) List(ctx context.Context, prefix string) ([]string, error) {
	mode := m.fault("list")
	if mode != "" {
		return nil, errStore
	}
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	var r []string
	for k := range m.Objs {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	return r, nil
}
