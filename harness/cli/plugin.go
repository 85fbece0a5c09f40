package cli

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/password"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"verifharness/vlib"
)

type clusterInfo struct {
	ns, name string
	replicas int
	primary  int
	offline  bool
	pw       map[string]string
	noPod    map[int]bool
}

func (c *clusterInfo) path() string {
	return "/apis/moco.cybozu.com/v1beta2/namespaces/" + c.ns + "/mysqlclusters/" + c.name
}

func (c *clusterInfo) pod(i int) string {
	return fmt.Sprintf("/api/v1/namespaces/%s/pods/moco-%s-%d", c.ns, c.name, i)
}

type plug struct {
	k    *Kube
	rng  *rand.Rand
	rep  *vlib.Report
	cs   string
	cl   []*clusterInfo
	dir  string
	conf string
	def  string
	bad  bool
	acts []string
	log  []string
}

func (p *plug) viol(rule, f string, a ...any) {
	p.bad = true
	p.k.mu.Lock()
	defer p.k.mu.Unlock()
	p.rep.Violate("K01", rule, fmt.Sprintf(f, a...), p.cs, strings.Join(append(p.log, p.k.log...), "\n"), "")
}

func runPlugin(seed int64, rep *vlib.Report, dir string) {
	r := rand.New(rand.NewSource(seed))
	p := &plug{rng: r, rep: rep, cs: fmt.Sprintf("plugin/%d", seed), dir: dir,
		k: &Kube{rng: rand.New(rand.NewSource(seed + 1)), objs: map[string]map[string]any{}, faults: map[string]string{}}}
	srv := httptest.NewServer(p.k)
	defer srv.Close()
	p.def = "default"
	ctxns := ""
	if r.Intn(2) == 0 {
		p.def = "ns1"
		ctxns = ", namespace: ns1"
	}
	p.conf = filepath.Join(dir, "config")
	conf := fmt.Sprintf("apiVersion: v1\nkind: Config\nclusters: [{name: c, cluster: {server: %q}}]\nusers: [{name: u, user: {}}]\ncontexts: [{name: x, context: {cluster: c, user: u%s}}]\ncurrent-context: x\n", srv.URL, ctxns)
	if err := os.WriteFile(p.conf, []byte(conf), 0o600); err != nil {
		panic(err)
	}
	for _, ns := range []string{"default", "ns1", "ns2"} {
		for _, name := range []string{"test", "test-1", "test2", "a"} {
			if r.Intn(3) > 0 {
				p.make(ns, name)
			}
		}
	}
	if len(p.cl) == 0 {
		p.make("ns1", "test")
	}
	for range 6 + r.Intn(8) {
		if p.bad {
			break
		}
		p.step()
	}
	rep.Eval("plugin:" + strings.Join(p.acts, ","))
}

func (p *plug) make(ns, name string) {
	r := p.rng
	c := &clusterInfo{ns: ns, name: name, replicas: []int{1, 3, 3, 5, 11}[r.Intn(5)], offline: r.Intn(5) == 0, pw: map[string]string{}, noPod: map[int]bool{}}
	c.primary = r.Intn(c.replicas)
	o := &mocov1beta2.MySQLCluster{TypeMeta: metav1.TypeMeta{Kind: "MySQLCluster", APIVersion: "moco.cybozu.com/v1beta2"}, ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name, UID: "u-1"}}
	o.Spec.Replicas = int32(c.replicas)
	o.Spec.Offline = c.offline
	o.Spec.PodTemplate.Spec = mocov1beta2.PodSpecApplyConfiguration{}
	o.Status.CurrentPrimaryIndex = c.primary
	o.Finalizers = []string{"moco.cybozu.com/mysqlcluster"}
	if r.Intn(2) == 0 {
		o.Annotations = map[string]string{"user": "x"}
		for _, a := range []string{constants.AnnClusteringStopped, constants.AnnReconciliationStopped} {
			if r.Intn(2) == 0 {
				o.Annotations[a] = []string{"true", "true", "false"}[r.Intn(3)]
			}
		}
	}
	p.k.put(c.path(), o)
	pw, err := password.NewMySQLPassword()
	if err != nil {
		panic(err)
	}
	sec := pw.ToSecret()
	sec.TypeMeta = metav1.TypeMeta{Kind: "Secret", APIVersion: "v1"}
	sec.Namespace, sec.Name = ns, "moco-"+name
	p.k.put("/api/v1/namespaces/"+ns+"/secrets/moco-"+name, sec)
	// as the Secret of the documentation
	for u, k := range map[string]string{"moco-admin": "ADMIN_PASSWORD", "moco-readonly": "READONLY_PASSWORD", "moco-writable": "WRITABLE_PASSWORD"} {
		c.pw[u] = string(sec.Data[k])
	}
	for i := range c.replicas {
		if r.Intn(25) == 0 {
			c.noPod[i] = true
			continue
		}
		pod := &corev1.Pod{TypeMeta: metav1.TypeMeta{Kind: "Pod", APIVersion: "v1"}, ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: fmt.Sprintf("moco-%s-%d", name, i), Labels: map[string]string{"x": "y"}}}
		pod.Spec.Containers = []corev1.Container{{Name: "agent"}, {Name: "mysqld"}, {Name: "sidecar"}}
		pod.Status.Phase = corev1.PodRunning
		if r.Intn(3) == 0 {
			pod.Annotations = map[string]string{"keep": "me"}
			if r.Intn(4) == 0 {
				pod.Annotations[constants.AnnDemote] = []string{"true", "false"}[r.Intn(2)]
			}
		}
		p.k.put(c.pod(i), pod)
	}
	p.cl = append(p.cl, c)
}

func (p *plug) run(stdin string, args ...string) (code int, out, errOut string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BINS"), "kubectl-moco"), args...)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + p.dir, "KUBECONFIG=" + p.conf, "GOTRACEBACK=all"}
	cmd.Dir = p.dir
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	p.log = append(p.log, fmt.Sprintf("kubectl-moco %q: %v\n%s%s", args, err, o.String(), e.String()))
	if ctx.Err() != nil {
		p.viol("hangs", "kubectl-moco %q does not end", args)
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic(err)
		}
		code = ee.ExitCode()
	}
	if strings.Contains(e.String(), "goroutine ") && strings.Contains(e.String(), "panic") {
		p.viol("crash", "kubectl-moco %q crashed: %.300s", args, e.String())
	}
	return code, o.String(), e.String()
}

func annotations(o map[string]any) map[string]any {
	a, _ := o["metadata"].(map[string]any)["annotations"].(map[string]any)
	return a
}

// onlyAnn: the write changed nothing but the annotation.
func onlyAnn(w write, key string) bool {
	strip := func(o map[string]any) map[string]any {
		c := clone(o)
		m := c["metadata"].(map[string]any)
		delete(m, "resourceVersion")
		delete(m, "creationTimestamp")
		delete(m, "managedFields")
		if a, ok := m["annotations"].(map[string]any); ok {
			delete(a, key)
			if len(a) == 0 {
				delete(m, "annotations")
			}
		}
		if m["annotations"] == nil {
			delete(m, "annotations")
		}
		// fields that are written out as their zero value
		return prune(c).(map[string]any)
	}
	a, _ := json.Marshal(strip(w.old))
	b, _ := json.Marshal(strip(w.new))
	return string(a) == string(b)
}

// prune drops nulls and empty values.
func prune(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			e = prune(e)
			x[k] = e
			switch y := e.(type) {
			case nil:
				delete(x, k)
			case map[string]any:
				if len(y) == 0 {
					delete(x, k)
				}
			case []any:
				if len(y) == 0 {
					delete(x, k)
				}
			}
		}
	case []any:
		for i := range x {
			x[i] = prune(x[i])
		}
	}
	return v
}

func (p *plug) step() {
	r, k := p.rng, p.k
	c := p.cl[r.Intn(len(p.cl))]
	exists := true
	name := c.name
	if r.Intn(12) == 0 {
		name, exists = "nothere", false
	}
	ns := []string{"-n", c.ns}
	if c.ns == p.def && r.Intn(2) == 0 {
		ns = nil
	} else if r.Intn(2) == 0 {
		ns = []string{"--namespace=" + c.ns}
	}
	k.mu.Lock()
	k.races, k.fired, k.writes, k.execs, k.faults = 0, nil, nil, nil, map[string]string{}
	k.exitCode, k.out = 0, fmt.Sprintf("out%d\n", r.Intn(1000))
	if r.Intn(3) == 0 {
		k.exitCode = []int{1, 2, 7}[r.Intn(3)]
	}
	raced := false
	if r.Intn(3) == 0 {
		k.races = 1
	}
	if r.Intn(5) == 0 {
		k.faults[[]string{"get", "put", "patch"}[r.Intn(3)]] = []string{"500", "403", "drop", "lost", "409"}[r.Intn(5)]
	}
	races := k.races
	k.mu.Unlock()
	before := k.snapshot()
	user := []string{"", "moco-readonly", "moco-writable", "moco-admin"}[r.Intn(4)]
	who := user
	if who == "" {
		who = "moco-readonly"
	}
	uflag := []string{}
	if user != "" {
		uflag = [][]string{{"-u", user}, {"--mysql-user=" + user}}[r.Intn(2)]
	}
	var args []string
	kind := []string{"mysql", "credential", "switchover", "stop", "start", "complete"}[r.Intn(6)]
	what := []string{"clustering", "reconciliation"}[r.Intn(2)]
	ann := map[string]string{"clustering": constants.AnnClusteringStopped, "reconciliation": constants.AnnReconciliationStopped}[what]
	stdin := ""
	var want []string
	index, format := -1, ""
	switch kind {
	case "mysql":
		args = append(append([]string{"mysql"}, ns...), uflag...)
		if r.Intn(2) == 0 {
			index = r.Intn(c.replicas + 2)
			args = append(args, "--index", strconv.Itoa(index))
		}
		if r.Intn(2) == 0 {
			args = append(args, "-i")
			stdin = fmt.Sprintf("SELECT %d;\n", r.Intn(1000))
		}
		args = append(args, name)
		want = [][]string{nil, {"-N", "-e", "SELECT VERSION()"}, {"-e", "SELECT 'a b' -- x"}, {"-D", "db", "-u", "x", "--index=0"}}[r.Intn(4)]
		if want != nil {
			args = append(append(args, "--"), want...)
		}
		want = append([]string{"mysql", "--defaults-extra-file=/mysql-credentials/" + who + "-my.cnf"}, want...)
	case "credential":
		args = append(append([]string{"credential"}, ns...), uflag...)
		if format = []string{"", "plain", "mycnf", "yaml"}[r.Intn(4)]; format != "" {
			args = append(args, "--format", format)
		}
		if r.Intn(10) == 0 {
			who = "moco-repl"
			args = append(args, "-u", who)
		}
		args = append(args, name)
	case "switchover":
		args = append(append([]string{"switchover"}, ns...), name)
	case "stop", "start":
		args = append(append([]string{kind, what}, ns...), name)
	case "complete":
		pre := []string{"", "t", "test", "test-", "z"}[r.Intn(5)]
		args = append(append([]string{"__complete", "mysql"}, ns...), pre)
		for _, x := range p.cl {
			if x.ns == c.ns && strings.HasPrefix(x.name, pre) {
				want = append(want, x.name)
			}
		}
		sort.Strings(want)
	}
	code, out, errOut := p.run(stdin, args...)
	k.mu.Lock()
	fired, writes, execs := k.fired, k.writes, k.execs
	raced = k.races < races
	mcode, mout := k.exitCode, k.out
	k.mu.Unlock()
	if p.bad {
		return
	}
	p.acts = append(p.acts, fmt.Sprintf("%s:%v:%d:%v", kind, exists, code, fired))
	p.rep.Sig(fmt.Sprintf("%s exists=%v code=%d f=%v raced=%v off=%v n=%d", kind, exists, code, fired, raced, c.offline, c.replicas))
	p.rep.Count("runs", 1)
	p.rep.Count("run_"+kind, 1)
	faulty := len(fired) > 0 || raced
	after := k.snapshot()
	obj := func(path string) map[string]any {
		k.mu.Lock()
		defer k.mu.Unlock()
		return k.objs[path]
	}
	// nothing but the one object may be written
	target := ""
	switch kind {
	case "switchover":
		target = c.pod(c.primary)
	case "stop", "start":
		target = c.path()
	}
	for _, w := range writes {
		key := ann
		if kind == "switchover" {
			key = constants.AnnDemote
		}
		if target == "" || w.path != target || !exists {
			p.viol("wrong object", "kubectl-moco %q changed %s", args, w.path)
			return
		}
		if !onlyAnn(w, key) {
			a, _ := json.Marshal(w.old)
			b, _ := json.Marshal(w.new)
			p.viol("more changed", "kubectl-moco %q changed more than the annotation %s: %s became %s", args, key, a, b)
			return
		}
	}
	for q := range before {
		if q != target && before[q] != after[q] {
			p.viol("wrong object", "kubectl-moco %q changed %s", args, q)
		}
	}
	if kind != "mysql" && len(execs) > 0 {
		p.viol("exec", "kubectl-moco %q ran a command in %s", args, execs[0].path)
	}
	failed := func(why string) {
		if code == 0 {
			p.viol("exit code", "kubectl-moco %q exited with 0 though %s", args, why)
		}
		if len(writes) > 0 || len(execs) > 0 {
			p.viol("acted", "kubectl-moco %q acted though %s", args, why)
		}
		p.rep.Count("refusals", 1)
	}
	switch kind {
	case "complete":
		if faulty {
			break
		}
		var got []string
		for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
			if !strings.HasPrefix(l, ":") && l != "" {
				got = append(got, l)
			}
		}
		sort.Strings(got)
		if !reflect.DeepEqual(got, want) {
			p.viol("completion", "kubectl-moco %q proposed %q instead of %q", args, got, want)
		}
	case "mysql":
		i := index
		if i < 0 {
			i = c.primary
		}
		switch {
		case !exists:
			failed("there is no such cluster")
		case index >= c.replicas:
			failed("there is no such instance")
		case c.noPod[i]:
			failed("the Pod does not exist")
		case len(execs) == 0:
			if !faulty {
				p.viol("fails", "kubectl-moco %q failed (%d) without a fault: %s", args, code, errOut)
			} else if code == 0 {
				p.viol("exit code", "kubectl-moco %q exited with 0 and ran nothing", args)
			}
		default:
			e := execs[0]
			if len(execs) != 1 || e.path != c.pod(i) {
				p.viol("wrong Pod", "kubectl-moco %q ran mysql in %s instead of %s (%d times)", args, e.path, c.pod(i), len(execs))
			}
			if e.q.Get("container") != "mysqld" || !reflect.DeepEqual(e.q["command"], want) {
				p.viol("wrong command", "kubectl-moco %q ran %q in container %s instead of %q in mysqld", args, e.q["command"], e.q.Get("container"), want)
			}
			if e.in != stdin {
				p.viol("stdin", "kubectl-moco %q passed the input %q instead of %q", args, e.in, stdin)
			}
			if code != mcode || out != mout {
				p.viol("exit code", "kubectl-moco %q exited with %d and wrote %q; mysql exited with %d and wrote %q", args, code, out, mcode, mout)
			}
			p.rep.Count("execs", 1)
		}
	case "credential":
		pw := c.pw[who]
		switch {
		case !exists:
			failed("there is no such cluster")
		case format == "yaml":
			failed("the format is unknown")
			if strings.Contains(out, pw) && pw != "" {
				p.viol("output", "kubectl-moco %q wrote %q", args, out)
			}
		case pw == "":
			failed("the user is not one to be used")
			if out != "" {
				p.viol("output", "kubectl-moco %q wrote %q", args, out)
			}
		case code != 0:
			if !faulty {
				p.viol("fails", "kubectl-moco %q failed without a fault: %s", args, errOut)
			}
		default:
			exp := pw + "\n"
			if format == "mycnf" {
				exp = fmt.Sprintf("[client]\nuser=%s\npassword=\"%s\"\n", who, pw)
			}
			if out != exp {
				p.viol("output", "kubectl-moco %q wrote %q instead of %q", args, out, exp)
			}
			p.rep.Count("credentials", 1)
		}
	case "switchover":
		switch {
		case !exists:
			failed("there is no such cluster")
		case c.offline:
			failed("the cluster is offline")
		case c.replicas == 1:
			failed("the cluster has a single instance")
		case c.noPod[c.primary]:
			failed("the Pod of the primary does not exist")
		case code == 0:
			if annotations(obj(target))[constants.AnnDemote] != "true" {
				p.viol("no effect", "kubectl-moco %q exited with 0 but did not request the switchover of %s", args, target)
			}
			p.rep.Count("switchovers", 1)
		case !faulty:
			p.viol("fails", "kubectl-moco %q failed without a fault: %s", args, errOut)
		}
	default:
		switch {
		case !exists:
			failed("there is no such cluster")
		case code == 0:
			if got := annotations(obj(target))[ann] == "true"; got != (kind == "stop") {
				p.viol("no effect", "kubectl-moco %q exited with 0; stopped: %v", args, got)
			}
			p.rep.Count(kind+"s", 1)
		case !faulty:
			p.viol("fails", "kubectl-moco %q failed without a fault: %s", args, errOut)
		}
	}
	if exists && code != 0 && len(writes) > 0 && !strings.Contains(strings.Join(fired, " "), "lost") {
		p.viol("failed though done", "kubectl-moco %q exited with %d after a successful change", args, code)
	}
}
