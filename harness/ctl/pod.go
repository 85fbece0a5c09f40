package ctl

import (
	"fmt"
	"maps"
	"slices"
	"strings"

	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
)

func container(cs []corev1.Container, name string) *corev1.Container {
	for i := range cs {
		if cs[i].Name == name {
			return &cs[i]
		}
	}
	return nil
}

func hasSeq(args []string, seq ...string) bool {
	for i := 0; i+len(seq) <= len(args); i++ {
		if slices.Equal(args[i:i+len(seq)], seq) {
			return true
		}
	}
	// --a b is the same as --a=b
	return len(seq) == 2 && slices.Contains(args, seq[0]+"="+seq[1])
}

func hasFlag(args []string, f string) bool {
	for _, a := range args {
		if a == f || strings.HasPrefix(a, f+"=") {
			return true
		}
	}
	return false
}

var sysRes = map[string][3]string{ // cpu, memory of requests and limits
	"agent": {"100m", "100Mi"}, "copy-moco-init": {"100m", "512Mi"}, "moco-init": {"100m", "512Mi"}, "slow-log": {"100m", "20Mi"}, "mysqld-exporter": {"200m", "100Mi"},
}

// stsSettled judges the StatefulSet against the spec.
func (s *scn) stsSettled(c *cl) {
	sts, ok := get(s.w, &appsv1.StatefulSet{}, c.ns, "moco-"+c.name)
	if !ok {
		s.viol("R06", "there is no StatefulSet after a reconciliation", "%s", c.key)
		return
	}
	if sts.DeletionTimestamp != nil && !s.staled {
		s.viol("R06", "the StatefulSet is being deleted after a successful reconciliation", "%s", c.key)
		return
	}
	s.count("sts_checks")
	s.owned("R06", c, sts)
	n := int(c.spec["replicas"].(float64))
	if c.spec["offline"] == true {
		n = 0
		s.count("offline_checks")
	}
	if int(*sts.Spec.Replicas) != n {
		s.viol("R06", "the StatefulSet has the wrong number of replicas", "%s: %d, want %d", c.key, *sts.Spec.Replicas, n)
	}
	if (c.ann[annForce] == "true") != (sts.Annotations[annForce] == "true") {
		s.viol("R07", "the request to update at once does not reach the StatefulSet", "%s: %q, StatefulSet %q", c.key, c.ann[annForce], sts.Annotations[annForce])
	}
	if vctSpecKey(sts.Spec.VolumeClaimTemplates) != s.wantVCT(c) {
		s.viol("R08", "the volume claim templates are not those of the spec", "%s:\n%s\nwant\n%s", c.key, vctSpecKey(sts.Spec.VolumeClaimTemplates), s.wantVCT(c))
	}
	for _, t := range sts.Spec.VolumeClaimTemplates {
		if controllerUID(&t) != c.uid {
			s.viol("R08", "the claims would not be removed with the cluster", "%s: %s", c.key, t.Name)
		}
	}
	pt := c.spec["podTemplate"].(m)
	ps := conv[m](pt["spec"])
	user := ps["containers"].([]any)
	userInit, _ := ps["initContainers"].([]any)
	delete(ps, "containers")
	delete(ps, "initContainers")
	if ps["terminationGracePeriodSeconds"] == nil {
		ps["terminationGracePeriodSeconds"] = 300
	}
	ps["serviceAccountName"] = "moco-" + c.name
	sc, _ := ps["securityContext"].(m)
	if sc == nil {
		sc = m{}
		ps["securityContext"] = sc
	}
	if sc["fsGroup"] == nil {
		sc["fsGroup"] = 10000
	}
	if sc["fsGroupChangePolicy"] == nil {
		sc["fsGroupChangePolicy"] = "OnRootMismatch"
	}
	vols, _ := ps["volumes"].([]any)
	for _, v := range []string{"tmp", "run", "var-log", "mysql-conf-d", "shared"} {
		vols = append(vols, m{"name": v})
	}
	vols = append(vols, m{"name": "my-cnf-secret", "secret": m{"secretName": "moco-my-cnf-" + c.name}}, m{"name": "grpc-cert", "secret": m{"secretName": "moco-" + c.name + "-grpc"}})
	ps["volumes"] = vols
	md := m{}
	if x, ok := pt["metadata"].(m); ok {
		md = conv[m](x)
	}
	ls, _ := md["labels"].(m)
	if ls == nil {
		ls = m{}
	}
	for k, v := range mocoLabels(c) {
		ls[k] = v
	}
	md["labels"] = ls
	s.want("R06", "the StatefulSet is not as specified", c, m{"spec": m{"serviceName": "moco-" + c.name, "podManagementPolicy": "Parallel", "updateStrategy": m{"type": "RollingUpdate"},
		"selector": m{"matchLabels": mocoLabels(c)}, "template": m{"metadata": md, "spec": ps}}}, sts)
	if ua, ok := ps["affinity"].(m); ok && ua["podAntiAffinity"] == nil && sts.Spec.Template.Spec.Affinity != nil && sts.Spec.Template.Spec.Affinity.PodAntiAffinity != nil {
		s.viol("R06", "the StatefulSet is not as specified", "%s: an anti-affinity is added to the affinity of the user", c.key)
	}
	if ps["affinity"] == nil && (sts.Spec.Template.Spec.Affinity == nil || sts.Spec.Template.Spec.Affinity.PodAntiAffinity == nil) {
		s.viol("R06", "the Pods are not spread over nodes by default", "%s", c.key)
	}

	// containers
	cs := sts.Spec.Template.Spec.Containers
	want := []string{"mysqld", "agent"}
	slow := c.spec["disableSlowQueryLogContainer"] != true
	cols, _ := c.spec["collectors"].([]any)
	if slow {
		want = append(want, "slow-log")
	}
	if len(cols) > 0 {
		want = append(want, "mysqld-exporter")
	}
	for _, u := range user {
		nm := u.(m)["name"].(string)
		if slices.Contains(want, nm) {
			continue
		}
		want = append(want, nm)
	}
	var got []string
	for _, x := range cs {
		got = append(got, x.Name)
	}
	a, b := slices.Clone(want), slices.Clone(got)
	slices.Sort(a)
	slices.Sort(b)
	if !slices.Equal(a, b) {
		s.viol("R06", "the Pods do not have the right containers", "%s: %v, want %v", c.key, got, want)
	}
	for _, u := range user {
		um := conv[m](u)
		nm := um["name"].(string)
		x := container(cs, nm)
		if x == nil || nm == "slow-log" && slow || nm == "mysqld-exporter" && len(cols) > 0 {
			continue
		}
		if nm == "mysqld" {
			s.mysqld(c, um)
		}
		usc, _ := um["securityContext"].(m)
		if usc == nil {
			usc = m{}
			um["securityContext"] = usc
		}
		if usc["runAsUser"] == nil {
			usc["runAsUser"] = 10000
		}
		if usc["runAsGroup"] == nil {
			usc["runAsGroup"] = 10000
		}
		s.want("R06", "a container of the user is not as specified", c, um, x)
		if nm != "mysqld" {
			if len(x.Args) != 0 || len(x.Env) != lenOf(um["env"]) || len(x.VolumeMounts) != lenOf(um["volumeMounts"]) || len(x.Ports) != lenOf(um["ports"]) {
				s.viol("R06", "a container of the user gets things nobody asked for", "%s: %s", c.key, nm)
			}
		}
	}
	if x := container(cs, "agent"); x != nil {
		s.system(c, x, m{"image": s.agent, "envFrom": l{m{"secretRef": m{"name": "moco-" + c.name}}},
			"env":          l{m{"name": "POD_NAME", "valueFrom": m{"fieldRef": m{"fieldPath": "metadata.name"}}}, m{"name": "CLUSTER_NAME", "value": c.name}},
			"volumeMounts": l{m{"name": "run", "mountPath": "/run"}, m{"name": "var-log", "mountPath": "/var/log/mysql"}, m{"name": "grpc-cert", "mountPath": "/grpc-cert"}}})
		if d, ok := c.spec["maxDelaySeconds"]; ok {
			if !hasSeq(x.Args, "--max-delay", fmt.Sprintf("%vs", d)) {
				s.viol("R06", "the agent does not get maxDelaySeconds", "%s: %v", c.key, x.Args)
			}
		} else if hasFlag(x.Args, "--max-delay") {
			s.viol("R06", "the agent gets a maxDelaySeconds nobody asked for", "%s: %v", c.key, x.Args)
		}
		if v, _ := c.spec["logRotationSchedule"].(string); v != "" && !hasSeq(x.Args, "--log-rotation-schedule", v) || v == "" && hasFlag(x.Args, "--log-rotation-schedule") {
			s.viol("R06", "the agent gets the wrong logRotationSchedule", "%s: %v", c.key, x.Args)
		}
		if v, _ := c.spec["logRotationSize"].(float64); v != 0 && !hasSeq(x.Args, "--log-rotation-size", fmt.Sprint(v)) || v == 0 && hasFlag(x.Args, "--log-rotation-size") {
			s.viol("R06", "the agent gets the wrong logRotationSize", "%s: %v, want %v", c.key, x.Args, v)
		}
		if v := c.spec["agentUseLocalhost"] == true; v != hasSeq(x.Args, "--mysqld-localhost", "true") {
			s.viol("R06", "the agent gets the wrong agentUseLocalhost", "%s: %v", c.key, x.Args)
		}
	}
	if x := container(cs, "slow-log"); x != nil && slow {
		s.system(c, x, m{"volumeMounts": l{m{"name": "slow-fluent-bit-config", "mountPath": "/fluent-bit/etc"}, m{"name": "var-log", "mountPath": "/var/log/mysql"}}})
	}
	if x := container(cs, "mysqld-exporter"); x != nil && len(cols) > 0 {
		s.system(c, x, m{"image": "exporter:1", "volumeMounts": l{m{"name": "run", "mountPath": "/run"}, m{"name": "my-cnf-secret", "mountPath": "/mysql-credentials"}}})
		n := 0
		for _, a := range x.Args {
			if strings.HasPrefix(a, "--collect.") {
				n++
			}
		}
		for _, col := range cols {
			if !slices.Contains(x.Args, "--collect."+col.(string)) {
				n = -1
			}
		}
		if n != len(cols) {
			s.viol("R06", "the exporter collects the wrong things", "%s: %v, want %v", c.key, x.Args, cols)
		}
	}

	// init containers
	ic := sts.Spec.Template.Spec.InitContainers
	wantInit := []string{"copy-moco-init", "moco-init"}
	for _, u := range userInit {
		wantInit = append(wantInit, u.(m)["name"].(string))
	}
	got = nil
	for _, x := range ic {
		got = append(got, x.Name)
	}
	if !slices.Equal(got, wantInit) {
		s.viol("R06", "the Pods do not have the right init containers in the right order", "%s: %v, want %v", c.key, got, wantInit)
		return
	}
	for _, u := range userInit {
		s.want("R06", "an init container of the user is not as specified", c, u.(m), container(ic, u.(m)["name"].(string)))
	}
	s.system(c, &ic[0], m{"image": s.agent, "volumeMounts": l{m{"name": "shared", "mountPath": "/shared"}}})
	mi := &ic[1]
	my := container(cs, "mysqld")
	if my == nil {
		return
	}
	s.system(c, mi, m{"image": my.Image, "env": l{m{"name": "POD_NAME", "valueFrom": m{"fieldRef": m{"fieldPath": "metadata.name"}}}},
		"volumeMounts": l{m{"name": "tmp", "mountPath": "/tmp"}, m{"name": "mysql-data", "mountPath": "/var/lib/mysql"}, m{"name": "mysql-conf-d", "mountPath": "/etc/mysql-conf.d"}, m{"name": "shared", "mountPath": "/shared"}}})
	all := append(slices.Clone(mi.Command), mi.Args...)
	if !slices.Contains(all, fmt.Sprint(c.spec["serverIDBase"])) {
		s.viol("R06", "moco-init does not get the server ID base", "%s: %v", c.key, all)
	}
	if v := c.spec["initializeTimezoneData"] == true; !hasSeq(all, "--init-timezones", fmt.Sprint(v)) {
		s.viol("R06", "moco-init gets the wrong initializeTimezoneData", "%s: %v", c.key, all)
	}
	if v := c.spec["agentUseLocalhost"] == true; v != hasSeq(all, "--mysqld-localhost", "true") {
		s.viol("R06", "moco-init gets the wrong agentUseLocalhost", "%s: %v", c.key, all)
	}
	lc, has := "", false
	if n, ok := c.spec["mysqlConfigMapName"].(string); ok {
		if cm, ok := get(s.w, &corev1.ConfigMap{}, c.ns, n); ok {
			for _, k := range slices.Sorted(maps.Keys(cm.Data)) { // the last form wins in my.cnf
				if lowerCase(k) {
					lc, has = cm.Data[k], true
				}
			}
		}
	}
	if has != hasFlag(all, "--lower-case-table-names") || has && !hasSeq(all, "--lower-case-table-names", lc) {
		s.viol("R05", "the data directory is initialised with another lower_case_table_names than mysqld gets", "%s: %v, conf %q %v", c.key, all, lc, has)
	}
}

func lenOf(x any) int {
	v, _ := x.([]any)
	return len(v)
}

// mysqld adds what MOCO must give to the mysqld container.
func (s *scn) mysqld(c *cl, um m) {
	ports, _ := um["ports"].([]any)
	for _, p := range []struct {
		n string
		p int
	}{{"mysql", 3306}, {"mysqlx", 33060}, {"mysql-admin", 33062}, {"health", 9081}} {
		ports = append(ports, m{"name": p.n, "containerPort": p.p, "protocol": "TCP"})
	}
	um["ports"] = ports
	vm, _ := um["volumeMounts"].([]any)
	for n, p := range map[string]string{"tmp": "/tmp", "run": "/run", "var-log": "/var/log/mysql", "mysql-conf": "/etc/mysql", "mysql-conf-d": "/etc/mysql-conf.d", "my-cnf-secret": "/mysql-credentials", "mysql-data": "/var/lib/mysql"} {
		vm = append(vm, m{"name": n, "mountPath": p})
	}
	um["volumeMounts"] = vm
	um["args"] = l{"--defaults-file=/etc/mysql/my.cnf"}
	um["lifecycle"] = m{"preStop": m{"exec": m{"command": l{"sleep", "20"}}}}
	for k, p := range map[string]string{"startupProbe": "/healthz", "livenessProbe": "/healthz", "readinessProbe": "/readyz"} {
		pr, _ := um[k].(m)
		if pr == nil {
			pr = m{}
		}
		pr["httpGet"] = m{"path": p, "port": "health", "scheme": "HTTP"}
		um[k] = pr
		if k == "startupProbe" {
			if pr["periodSeconds"] == nil {
				pr["periodSeconds"] = 10
			}
			if pr["failureThreshold"] == nil {
				w, _ := c.spec["startupWaitSeconds"].(float64)
				pr["failureThreshold"] = max(1, int(w)/10)
			}
		}
	}
}

// system judges a container MOCO adds: its resources and security context may be overwritten.
func (s *scn) system(c *cl, x *corev1.Container, exp m) {
	r := sysRes[x.Name]
	rs := m{"cpu": r[0], "memory": r[1]}
	exp["name"] = x.Name
	exp["resources"] = m{"requests": rs, "limits": rs}
	exp["securityContext"] = m{"runAsUser": 10000, "runAsGroup": 10000}
	ow, _ := c.spec["podTemplate"].(m)["overwriteContainers"].([]any)
	for _, o := range ow {
		if o.(m)["name"] != x.Name {
			continue
		}
		s.count("overwrite_checks")
		if v := o.(m)["resources"]; v != nil {
			exp["resources"] = v
			// nothing of the default is left
			d := conv[m](x.Resources)
			if t := subset(d, conv[m](v), ""); t != "" {
				s.viol("R06", "a system container keeps resources that are overwritten", "%s %s: %s", c.key, x.Name, t)
			}
		}
		if v := o.(m)["securityContext"]; v != nil {
			exp["securityContext"] = v
		}
	}
	s.want("R06", "a system container is not as specified", c, exp, x)
}
