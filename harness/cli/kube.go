// Package cli runs the kubectl plugin as a process against a simulated API
// server, and the agent client against gRPC servers on loopback.
package cli

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	jsonpatch "gopkg.in/evanphx/json-patch.v4"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/util/httpstream"
	"k8s.io/apimachinery/pkg/util/httpstream/spdy"
)

// Kube is a small API server: objects by path, with resource versions.
type Kube struct {
	mu    sync.Mutex
	rng   *rand.Rand
	rv    int
	objs  map[string]map[string]any
	log   []string
	execs []execCall
	// before a write another writer changes the object, `races` times
	races  int
	faults map[string]string // verb -> mode, once
	fired  []string
	writes []write
	// what the command in the Pod does
	exitCode int
	out      string
}

type write struct {
	path     string
	old, new map[string]any
}

type execCall struct {
	path string
	q    url.Values
	in   string
}

func (k *Kube) put(path string, o any) {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	k.rv++
	m["metadata"].(map[string]any)["resourceVersion"] = strconv.Itoa(k.rv)
	k.objs[path] = m
}

func clone(m map[string]any) map[string]any {
	b, _ := json.Marshal(m)
	var r map[string]any
	_ = json.Unmarshal(b, &r)
	return r
}

func (k *Kube) snapshot() map[string]string {
	k.mu.Lock()
	defer k.mu.Unlock()
	r := map[string]string{}
	for p, o := range k.objs {
		c := clone(o)
		delete(c["metadata"].(map[string]any), "resourceVersion")
		b, _ := json.Marshal(c)
		r[p] = string(b)
	}
	return r
}

func status(w http.ResponseWriter, code int, reason metav1.StatusReason, msg string) {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	_ = json.NewEncoder(w).Encode(&metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Failure", Code: int32(code), Reason: reason, Message: msg})
}

func reply(w http.ResponseWriter, v any) {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(200)
	_ = json.NewEncoder(w).Encode(v)
}

func (k *Kube) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	tm := func(kind string) metav1.TypeMeta { return metav1.TypeMeta{Kind: kind, APIVersion: "v1"} }
	verbs := metav1.Verbs{"get", "list", "create", "update", "patch", "delete", "watch"}
	switch r.URL.Path {
	case "/version":
		reply(w, map[string]string{"major": "1", "minor": "35", "gitVersion": "v1.35.0"})
		return
	case "/api":
		reply(w, &metav1.APIVersions{TypeMeta: tm("APIVersions"), Versions: []string{"v1"}})
		return
	case "/apis":
		g := metav1.GroupVersionForDiscovery{GroupVersion: "moco.cybozu.com/v1beta2", Version: "v1beta2"}
		reply(w, &metav1.APIGroupList{TypeMeta: tm("APIGroupList"), Groups: []metav1.APIGroup{{Name: "moco.cybozu.com", Versions: []metav1.GroupVersionForDiscovery{g}, PreferredVersion: g}}})
		return
	case "/api/v1":
		reply(w, &metav1.APIResourceList{TypeMeta: tm("APIResourceList"), GroupVersion: "v1", APIResources: []metav1.APIResource{
			{Name: "pods", Kind: "Pod", SingularName: "pod", ShortNames: []string{"po"}, Namespaced: true, Verbs: verbs}, {Name: "secrets", Kind: "Secret", Namespaced: true, Verbs: verbs}}})
		return
	case "/apis/moco.cybozu.com/v1beta2":
		reply(w, &metav1.APIResourceList{TypeMeta: tm("APIResourceList"), GroupVersion: "moco.cybozu.com/v1beta2", APIResources: []metav1.APIResource{
			{Name: "mysqlclusters", Kind: "MySQLCluster", Namespaced: true, Verbs: verbs}, {Name: "mysqlclusters/status", Kind: "MySQLCluster", Namespaced: true, Verbs: metav1.Verbs{"get", "update", "patch"}}}})
		return
	}
	if strings.HasSuffix(r.URL.Path, "/exec") {
		k.exec(w, r)
		return
	}
	body, _ := io.ReadAll(r.Body)
	k.mu.Lock()
	defer k.mu.Unlock()
	k.log = append(k.log, r.Method+" "+r.URL.String()+" "+string(body))
	verb := strings.ToLower(r.Method)
	lost := false
	if m := k.faults[verb]; m != "" {
		delete(k.faults, verb)
		k.fired = append(k.fired, verb+":"+m)
		switch m {
		case "drop":
			panic(http.ErrAbortHandler)
		case "lost":
			lost = true
		default:
			c, _ := strconv.Atoi(m)
			status(w, c, map[int]metav1.StatusReason{403: metav1.StatusReasonForbidden, 409: metav1.StatusReasonConflict}[c], "injected failure")
			return
		}
	}
	o, ok := k.objs[r.URL.Path]
	if !ok {
		if r.Method == "GET" {
			var items []any
			for p, o := range k.objs {
				if strings.HasPrefix(p, r.URL.Path+"/") {
					items = append(items, o)
				}
			}
			if strings.HasSuffix(r.URL.Path, "/mysqlclusters") {
				reply(w, map[string]any{"kind": "MySQLClusterList", "apiVersion": "moco.cybozu.com/v1beta2", "metadata": map[string]any{}, "items": items})
				return
			}
		}
		status(w, 404, metav1.StatusReasonNotFound, "not found: "+r.URL.Path)
		return
	}
	if r.Method == "GET" {
		reply(w, o)
		return
	}
	if k.races > 0 {
		k.races--
		k.other(r.URL.Path)
		o = k.objs[r.URL.Path]
	}
	var n map[string]any
	cur := o["metadata"].(map[string]any)["resourceVersion"]
	switch r.Method {
	case "PUT":
		if err := json.Unmarshal(body, &n); err != nil {
			status(w, 400, metav1.StatusReasonBadRequest, err.Error())
			return
		}
		if rv := n["metadata"].(map[string]any)["resourceVersion"]; rv != nil && rv != "" && rv != cur {
			status(w, 409, metav1.StatusReasonConflict, "the object has been modified")
			return
		}
		if s, ok := o["status"]; ok {
			n["status"] = s
		}
	case "PATCH":
		b, _ := json.Marshal(o)
		var p []byte
		var err error
		switch ct := r.Header.Get("Content-Type"); ct {
		case "application/merge-patch+json", "application/strategic-merge-patch+json":
			p, err = jsonpatch.MergePatch(b, body)
		case "application/json-patch+json":
			var jp jsonpatch.Patch
			if jp, err = jsonpatch.DecodePatch(body); err == nil {
				p, err = jp.Apply(b)
			}
		default:
			err = errors.New("patch type " + ct)
		}
		if err != nil {
			status(w, 400, metav1.StatusReasonBadRequest, err.Error())
			return
		}
		_ = json.Unmarshal(p, &n)
		if rv := n["metadata"].(map[string]any)["resourceVersion"]; rv != cur {
			status(w, 409, metav1.StatusReasonConflict, "the object has been modified")
			return
		}
	default:
		status(w, 405, metav1.StatusReasonMethodNotAllowed, r.Method)
		return
	}
	k.rv++
	n["metadata"].(map[string]any)["resourceVersion"] = strconv.Itoa(k.rv)
	k.objs[r.URL.Path] = n
	k.writes = append(k.writes, write{r.URL.Path, o, n})
	if lost {
		panic(http.ErrAbortHandler)
	}
	reply(w, n)
}

// other is a concurrent writer: it changes annotations and the spec or the role.
func (k *Kube) other(p string) {
	o := clone(k.objs[p])
	md := o["metadata"].(map[string]any)
	ann, _ := md["annotations"].(map[string]any)
	if ann == nil {
		ann = map[string]any{}
		md["annotations"] = ann
	}
	ann["other.example.com/note"] = fmt.Sprint(k.rng.Intn(1000))
	if strings.Contains(p, "/mysqlclusters/") {
		o["spec"].(map[string]any)["maxDelaySeconds"] = 60 + k.rng.Intn(100)
	} else {
		l, _ := md["labels"].(map[string]any)
		if l != nil {
			l["other"] = fmt.Sprint(k.rng.Intn(1000))
		}
	}
	k.rv++
	md["resourceVersion"] = strconv.Itoa(k.rv)
	k.objs[p] = o
	k.log = append(k.log, "concurrent edit of "+p)
}

// exec runs a command in a Pod (the SPDY protocol of remotecommand, version 4).
func (k *Kube) exec(w http.ResponseWriter, r *http.Request) {
	if strings.EqualFold(r.Header.Get("Upgrade"), "websocket") {
		status(w, 400, metav1.StatusReasonBadRequest, "unable to upgrade: websocket is not supported")
		return
	}
	c := execCall{path: strings.TrimSuffix(r.URL.Path, "/exec"), q: r.URL.Query()}
	k.mu.Lock()
	k.log = append(k.log, r.Method+" "+r.URL.String())
	code, out := k.exitCode, k.out
	_, ok := k.objs[c.path]
	k.mu.Unlock()
	if !ok {
		status(w, 404, metav1.StatusReasonNotFound, "no such Pod")
		return
	}
	if _, err := httpstream.Handshake(r, w, []string{"v4.channel.k8s.io"}); err != nil {
		status(w, 400, metav1.StatusReasonBadRequest, err.Error())
		return
	}
	ch := make(chan httpstream.Stream, 8)
	conn := spdy.NewResponseUpgrader().UpgradeResponse(w, r, func(s httpstream.Stream, replySent <-chan struct{}) error {
		ch <- s
		return nil
	})
	if conn == nil {
		return
	}
	defer conn.Close()
	want := 1
	for _, f := range []string{"stdin", "stdout", "stderr"} {
		if c.q.Get(f) == "true" {
			want++
		}
	}
	st := map[string]httpstream.Stream{}
	for len(st) < want {
		select {
		case s := <-ch:
			st[s.Headers().Get("streamType")] = s
		case <-time.After(10 * time.Second):
			return
		}
	}
	if s := st["stdin"]; s != nil {
		b, _ := io.ReadAll(s)
		c.in = string(b)
	}
	if s := st["stdout"]; s != nil {
		_, _ = io.WriteString(s, out)
		_ = s.Close()
	}
	if s := st["stderr"]; s != nil {
		_ = s.Close()
	}
	k.mu.Lock()
	k.execs = append(k.execs, c)
	k.mu.Unlock()
	res := metav1.Status{Status: metav1.StatusSuccess}
	if code != 0 {
		res = metav1.Status{Status: metav1.StatusFailure, Reason: "NonZeroExitCode", Details: &metav1.StatusDetails{Causes: []metav1.StatusCause{{Type: "ExitCode", Message: strconv.Itoa(code)}}}, Message: "command terminated with non-zero exit code"}
	}
	b, _ := json.Marshal(res)
	_, _ = st["error"].Write(b)
	_ = st["error"].Close()
	time.Sleep(20 * time.Millisecond)
}
