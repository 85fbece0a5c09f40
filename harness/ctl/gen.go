package ctl

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	batchv1 "k8s.io/api/batch/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	"k8s.io/apimachinery/pkg/types"
)

type m = map[string]any
type l = []any

type gen struct{ *rand.Rand }

func (g gen) p(f float64) bool { return g.Float64() < f }

func pick[T any](g gen, xs ...T) T { return xs[g.Intn(len(xs))] }

func (g gen) word() string {
	return pick(g, "alpha", "beta", "gamma", "delta", "omega", "kappa") + fmt.Sprint(g.Intn(4))
}

func (g gen) strmap(prefix string) m {
	r := m{}
	for range 1 + g.Intn(2) {
		r[prefix+g.word()] = g.word()
	}
	return r
}

// clash adds labels that MOCO sets itself.
func (g gen) clash(x m) m {
	for _, k := range []string{"app.kubernetes.io/name", "app.kubernetes.io/instance", "app.kubernetes.io/created-by"} {
		if g.p(0.15) {
			x[k] = g.word()
		}
	}
	return x
}

// some takes a few of the entries away.
func some(g gen, x m) m {
	for _, k := range []string{"cpu", "memory", "ephemeral-storage"} {
		if _, ok := x[k]; ok && len(x) > 1 && g.p(0.25) {
			delete(x, k)
		}
	}
	return x
}

func (g gen) resources() m {
	r := m{}
	if g.p(0.7) {
		r["requests"] = some(g, m{"cpu": pick(g, "1", "1500m", "2000m", "0.5"), "memory": pick(g, "1Gi", "1024Mi", "500M", "150Mi"), "ephemeral-storage": "1Gi"})
	}
	if g.p(0.6) {
		r["limits"] = some(g, m{"memory": pick(g, "2Gi", "4096Mi", "3G"), "cpu": "4"})
	}
	return r
}

func (g gen) probe() m {
	r := m{}
	if g.p(0.5) {
		r["periodSeconds"] = 3 + g.Intn(9)
	}
	if g.p(0.5) {
		r["failureThreshold"] = 2 + g.Intn(9)
	}
	if g.p(0.3) {
		r["timeoutSeconds"] = 2 + g.Intn(5)
	}
	return r
}

func (g gen) container(name string) m {
	c := m{"name": name, "image": "img-" + g.word() + ":" + fmt.Sprint(g.Intn(3))}
	if g.p(0.4) {
		c["resources"] = g.resources()
	}
	if g.p(0.3) {
		c["env"] = l{m{"name": "E_" + g.word(), "value": g.word()}, m{"name": "F_" + g.word(), "valueFrom": m{"fieldRef": m{"fieldPath": "metadata.namespace"}}}}
	}
	if g.p(0.3) {
		c["volumeMounts"] = l{m{"name": "uservol", "mountPath": "/u/" + g.word()}}
	}
	if g.p(0.3) {
		sc := m{}
		if g.p(0.5) {
			sc["runAsUser"] = 2000 + g.Intn(3)
		}
		if g.p(0.4) {
			sc["runAsGroup"] = 3000
		}
		if g.p(0.4) {
			sc["readOnlyRootFilesystem"] = true
		}
		c["securityContext"] = sc
	}
	return c
}

// podTemplate makes spec.podTemplate.
func (g gen) podTemplate(disableSlow bool, collectors bool) m {
	spec := m{}
	my := g.container("mysqld")
	if g.p(0.2) {
		my["livenessProbe"] = g.probe()
	}
	if g.p(0.2) {
		my["readinessProbe"] = g.probe()
	}
	if g.p(0.2) {
		my["startupProbe"] = g.probe()
	}
	if g.p(0.15) {
		my["ports"] = l{m{"name": "extra", "containerPort": 7000 + g.Intn(5), "protocol": "TCP"}}
	}
	cs := l{my}
	if g.p(0.4) {
		cs = append(cs, g.container("side-"+g.word()))
	}
	if g.p(0.2) {
		cs = append(cs, g.container("other"))
	}
	if disableSlow && g.p(0.3) {
		cs = append(cs, g.container("slow-log"))
	}
	if !collectors && g.p(0.2) {
		cs = append(cs, g.container("mysqld-exporter"))
	}
	if g.p(0.3) {
		g.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	}
	spec["containers"] = cs
	if g.p(0.3) {
		ic := l{g.container("init-" + g.word())}
		if g.p(0.3) {
			ic = append(ic, g.container("zinit"))
		}
		spec["initContainers"] = ic
	}
	if g.p(0.4) {
		spec["volumes"] = l{m{"name": "uservol", "emptyDir": m{"medium": "Memory"}}, m{"name": "cmvol", "configMap": m{"name": g.word()}}}
	}
	if g.p(0.3) {
		spec["terminationGracePeriodSeconds"] = pick(g, 0, 1, 10, 30, 31, 299, 301, 4000)
	}
	if g.p(0.3) {
		spec["nodeSelector"] = g.strmap("n/")
	}
	if g.p(0.3) {
		spec["tolerations"] = l{m{"key": g.word(), "operator": "Exists"}}
	}
	if g.p(0.3) {
		spec["affinity"] = m{"podAntiAffinity": m{"requiredDuringSchedulingIgnoredDuringExecution": l{m{"topologyKey": "zone-" + g.word(), "labelSelector": m{"matchLabels": m{"a": g.word()}}}}}}
		if g.p(0.4) {
			spec["affinity"] = m{"nodeAffinity": m{"requiredDuringSchedulingIgnoredDuringExecution": m{"nodeSelectorTerms": l{m{"matchExpressions": l{m{"key": "k" + g.word(), "operator": "Exists"}}}}}}}
		}
	}
	if g.p(0.2) {
		spec["priorityClassName"] = "pc-" + g.word()
	}
	if g.p(0.2) {
		spec["topologySpreadConstraints"] = l{m{"maxSkew": 1 + g.Intn(2), "topologyKey": "zone", "whenUnsatisfiable": "ScheduleAnyway"}}
	}
	if g.p(0.2) {
		spec["hostAliases"] = l{m{"ip": "10.0.0.1", "hostnames": l{g.word()}}}
	}
	if g.p(0.2) {
		spec["schedulerName"] = g.word()
	}
	if g.p(0.3) {
		sc := m{}
		if g.p(0.5) {
			sc["fsGroup"] = 4000 + g.Intn(3)
		}
		if g.p(0.5) {
			sc["fsGroupChangePolicy"] = "Always"
		}
		if g.p(0.3) {
			sc["runAsNonRoot"] = true
		}
		spec["securityContext"] = sc
	}
	if g.p(0.2) {
		spec["imagePullSecrets"] = l{m{"name": g.word()}}
	}
	t := m{"spec": spec}
	if g.p(0.5) {
		md := m{}
		if g.p(0.7) {
			md["annotations"] = g.strmap("pa/")
		}
		if g.p(0.7) {
			md["labels"] = g.clash(g.strmap("pl/"))
		}
		t["metadata"] = md
	}
	if g.p(0.35) {
		ow := l{}
		for _, n := range []string{"agent", "moco-init", "copy-moco-init", "slow-log", "mysqld-exporter"} {
			if g.p(0.4) {
				o := m{"name": n}
				if g.p(0.8) {
					o["resources"] = m{"requests": m{"cpu": pick(g, "50m", "70m"), "memory": "64Mi"}, "limits": m{"memory": "256Mi"}}
				}
				if g.p(0.4) {
					o["securityContext"] = m{"runAsUser": 5000 + g.Intn(3), "runAsGroup": 5001}
				}
				ow = append(ow, o)
			}
		}
		if len(ow) > 0 {
			t["overwriteContainers"] = ow
		}
	}
	return t
}

func (g gen) pvc(name, size, sc string) m {
	md := m{"name": name}
	if g.p(0.5) {
		md["labels"] = m{"synclabel": g.word(), "unsynced": g.word()}
	}
	if g.p(0.5) {
		md["annotations"] = m{"sync.example.com/a": g.word(), "other/x": g.word()}
	}
	sp := m{"resources": m{"requests": m{"storage": size}}}
	if sc != "" {
		sp["storageClassName"] = sc
	}
	if g.p(0.2) {
		sp["accessModes"] = l{"ReadWriteOnce"}
	}
	return m{"metadata": md, "spec": sp}
}

func (g gen) service() m {
	s := m{}
	if g.p(0.7) {
		md := m{}
		if g.p(0.7) {
			md["annotations"] = g.strmap("sa/")
		}
		if g.p(0.7) {
			md["labels"] = g.clash(g.strmap("sl/"))
		}
		s["metadata"] = md
	}
	if g.p(0.7) {
		sp := m{"type": pick(g, "LoadBalancer", "NodePort", "ClusterIP")}
		if g.p(0.4) {
			sp["externalTrafficPolicy"] = "Local"
		}
		if g.p(0.4) {
			ps := l{}
			if g.p(0.5) {
				ps = append(ps, m{"name": "mysql", "port": pick(g, 3306, 3306, 13306), "nodePort": 30000 + g.Intn(50)})
			}
			if g.p(0.5) {
				ps = append(ps, m{"name": "mysqlx", "port": pick(g, 33060, 33060, 3), "protocol": pick(g, "TCP", "UDP"), "targetPort": pick(g, 5, 6)})
			}
			if g.p(0.4) {
				ps = append(ps, m{"name": "userport", "port": 7777, "protocol": "TCP", "targetPort": 7777})
			}
			if len(ps) > 0 {
				sp["ports"] = ps
			}
		}
		if g.p(0.2) {
			sp["selector"] = m{"evil": "x", "moco.cybozu.com/role": "replica"}
		}
		if g.p(0.1) {
			sp["clusterIP"] = pick(g, "10.0.0.7", "None")
		}
		s["spec"] = sp
	}
	return s
}

func (g gen) jobConfig() m {
	j := m{"serviceAccountName": "sa-" + g.word(), "threads": 1 + g.Intn(8), "workVolume": m{"emptyDir": m{"sizeLimit": pick(g, "10Gi", "20Gi")}}}
	b := m{"bucketName": "bk-" + g.word()}
	if g.p(0.5) {
		b["region"] = "r-" + g.word()
	}
	if g.p(0.5) {
		b["endpointURL"] = "https://" + g.word()
	}
	if g.p(0.4) {
		b["usePathStyle"] = true
	}
	if g.p(0.6) {
		b["backendType"] = pick(g, "s3", "gcs", "azure")
	}
	if g.p(0.3) {
		b["caCert"] = "/ca/" + g.word()
	}
	j["bucketConfig"] = b
	for _, k := range []string{"cpu", "maxCpu"} {
		if g.p(0.5) {
			j[k] = pick(g, "4", "2", "500m")
		}
	}
	for _, k := range []string{"memory", "maxMemory"} {
		if g.p(0.5) {
			j[k] = pick(g, "4Gi", "8Gi", "100Mi")
		}
	}
	if g.p(0.4) {
		j["env"] = l{m{"name": "TZ", "value": g.word()}, m{"name": "K" + g.word(), "value": g.word()}}
	}
	if g.p(0.4) {
		j["envFrom"] = l{m{"secretRef": m{"name": "cred-" + g.word()}}, m{"configMapRef": m{"name": "cm-" + g.word()}}}
	}
	if g.p(0.3) {
		j["volumes"] = l{m{"name": "jv-" + g.word(), "configMap": m{"name": g.word()}}, m{"name": "jw", "emptyDir": m{"medium": "Memory"}}}
		j["volumeMounts"] = l{m{"name": "jw", "mountPath": "/jw/" + g.word()}}
	}
	if g.p(0.3) {
		j["affinity"] = m{"podAntiAffinity": m{"requiredDuringSchedulingIgnoredDuringExecution": l{m{"topologyKey": "z-" + g.word(), "labelSelector": m{"matchLabels": m{"b": "c"}}}}}}
	}
	return j
}

// env is what exists around a cluster besides the cluster.
type env struct {
	Conf   map[string]map[string]string // ConfigMaps of users
	Policy map[string]mocov1beta2.BackupPolicySpec
}

func (g gen) policy() mocov1beta2.BackupPolicySpec {
	p := m{"schedule": pick(g, "0 0 * * *", "*/5 * * * *", "@daily", "30 4 1 * *"), "jobConfig": g.jobConfig()}
	if g.p(0.4) {
		p["timeZone"] = pick(g, "Asia/Tokyo", "Etc/UTC")
	}
	for _, k := range []string{"startingDeadlineSeconds", "activeDeadlineSeconds", "backoffLimit", "successfulJobsHistoryLimit", "failedJobsHistoryLimit"} {
		if g.p(0.4) {
			p[k] = pick(g, 0, 1, g.Intn(100))
		}
	}
	p["concurrencyPolicy"] = string(pick(g, batchv1.AllowConcurrent, batchv1.ForbidConcurrent, batchv1.ReplaceConcurrent))
	return conv[mocov1beta2.BackupPolicySpec](p)
}

var confKeys = []string{"max_connections", "max-connections", "loose_max_connections", "innodb_buffer_pool_size", "innodb-buffer-pool-size", "wait_timeout", "gtid_mode", "gtid-mode",
	"super_read_only", "loose_super-read-only", "read-only", "port", "datadir", "socket", "log_bin", "log-bin", "skip_log_bin", "skip-log-bin", "disable-log-bin", "log_error", "log-error", "_include",
	"lower_case_table_names", "lower-case-table-names", "loose_lower_case_table_names", "loose_binlog_transaction_compression", "binlog_transaction_compression", "loose-binlog-transaction-compression", "admin_port", "mysqlx-port", "relay_log_recovery",
	"loose_relay_log_recovery", "skip-replica-start", "transaction_isolation", "loose_innodb_numa_interleave", "binlog-format", "enforce-gtid-consistency", "pid-file", "secure_file_priv",
	"replication_optimize_for_static_plugin_config", "loose-replication-sender-observe-commit-only", "tmpdir", "user_custom_option", "performance-schema", "slow_query_log_file"}

func (g gen) userConf() map[string]string {
	r := map[string]string{}
	for range g.Intn(6) {
		k := pick(g, confKeys...)
		v := pick(g, "1", "OFF", "12M", "/x/y", "READ-UNCOMMITTED", g.word())
		if k == "_include" {
			v = pick(g, "performance-schema-instrument='memory/%=ON'\nperformance-schema-instrument='wait/%=OFF'", "plugin-load-add=x.so")
		}
		if lowerCase(k) {
			v = pick(g, "0", "1")
		}
		r[k] = v
	}
	return r
}

// lowerCase is true for the forms of lower_case_table_names.
func lowerCase(k string) bool {
	return strings.TrimPrefix(strings.ReplaceAll(k, "-", "_"), "loose_") == "lower_case_table_names"
}

func conv[T any](x any) T {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var t T
	if err := json.Unmarshal(b, &t); err != nil {
		panic(fmt.Sprintf("%v: %s", err, b))
	}
	return t
}

// spec makes a valid spec.
func (g gen) spec(confs, policies []string) m {
	s := m{"serverIDBase": 1 + g.Intn(1000), "replicas": pick(g, 1, 3, 3, 5)}
	ds := g.p(0.3)
	col := g.p(0.3)
	if ds {
		s["disableSlowQueryLogContainer"] = true
	} else if g.p(0.3) {
		s["slowQueryLogConfigTmpl"] = pick(g, "[INPUT]\n  Path {{ .Path }}\n", "# plain\n", "[X]\n p={{.Path}} {{.Path}}\n")
	}
	if col {
		s["collectors"] = l{"engine_innodb_status", "info_schema." + g.word()}
	}
	s["podTemplate"] = g.podTemplate(ds, col)
	v := l{g.pvc("mysql-data", pick(g, "1Gi", "2Gi", "1536Mi"), pick(g, "", "fast", "slow"))}
	if g.p(0.3) {
		v = append(v, g.pvc(pick(g, "extra", "extra", "aux", "zdata"), pick(g, "1Gi", "3Gi"), pick(g, "", "fast", "slow")))
	}
	s["volumeClaimTemplates"] = v
	if g.p(0.4) {
		s["primaryServiceTemplate"] = g.service()
	}
	if g.p(0.4) {
		s["replicaServiceTemplate"] = g.service()
	}
	if len(confs) > 0 && g.p(0.5) {
		s["mysqlConfigMapName"] = pick(g, confs...)
	}
	if len(policies) > 0 && g.p(0.5) {
		s["backupPolicyName"] = pick(g, policies...)
	}
	if g.p(0.25) {
		s["restore"] = m{"sourceName": "src-" + g.word(), "sourceNamespace": "sns-" + g.word(), "restorePoint": time.Date(2026, 1+time.Month(g.Intn(12)), 1+g.Intn(28), g.Intn(24), g.Intn(60), g.Intn(60), 0, time.UTC).In(time.FixedZone("x", 3600*(g.Intn(20)-10))).Format(time.RFC3339), "jobConfig": g.jobConfig(),
			"schema": pick(g, "", "db"+g.word()), "users": pick(g, "", "u1,u2", g.word())}
	}
	if g.p(0.7) {
		s["maxDelaySeconds"] = pick(g, 0, 60, 30)
	}
	s["startupWaitSeconds"] = pick(g, 0, 5, 10, 60, 3600)
	if g.p(0.3) {
		s["logRotationSchedule"] = pick(g, "*/5 * * * *", "@hourly")
	}
	if g.p(0.3) {
		s["logRotationSize"] = g.Intn(3) * 100
	}
	if g.p(0.2) {
		s["agentUseLocalhost"] = true
	}
	if g.p(0.2) {
		s["initializeTimezoneData"] = true
	}
	if g.p(0.1) {
		s["offline"] = true
	}
	return s
}

// edit changes one or two parts of a spec the way users may (the webhook allows it).
func (g gen) edit(s m, confs, policies []string) (m, string) {
	n := conv[m](s)
	ds, _ := n["disableSlowQueryLogContainer"].(bool)
	_, col := n["collectors"]
	what := pick(g, "template", "replicas", "slow", "tmpl", "collectors", "primary", "replica", "conf", "policy", "delay", "startup", "rotation", "localhost", "tz", "offline", "grow", "shrink", "pvcmeta", "addpvc", "noop", "server")
	switch what {
	case "template":
		n["podTemplate"] = g.podTemplate(ds, col)
	case "replicas":
		r := int(n["replicas"].(float64))
		if r < 5 {
			n["replicas"] = r + 2
		}
	case "slow":
		if ds {
			delete(n, "disableSlowQueryLogContainer")
		} else {
			n["disableSlowQueryLogContainer"] = true
		}
		n["podTemplate"] = g.podTemplate(!ds, col)
	case "tmpl":
		n["slowQueryLogConfigTmpl"] = "# " + g.word() + " {{ .Path }}\n"
	case "collectors":
		if col {
			delete(n, "collectors")
		} else {
			n["collectors"] = l{g.word()}
		}
		n["podTemplate"] = g.podTemplate(ds, !col)
	case "primary", "replica":
		k := what + "ServiceTemplate"
		if g.p(0.3) {
			delete(n, k)
		} else {
			n[k] = g.service()
		}
	case "conf":
		if _, ok := n["mysqlConfigMapName"]; ok && g.p(0.4) || len(confs) == 0 {
			delete(n, "mysqlConfigMapName")
		} else {
			n["mysqlConfigMapName"] = pick(g, confs...)
		}
	case "policy":
		if _, ok := n["backupPolicyName"]; ok && g.p(0.5) || len(policies) == 0 {
			delete(n, "backupPolicyName")
		} else {
			n["backupPolicyName"] = pick(g, policies...)
		}
	case "delay":
		if g.p(0.3) {
			delete(n, "maxDelaySeconds")
		} else {
			n["maxDelaySeconds"] = g.Intn(100)
		}
	case "startup":
		n["startupWaitSeconds"] = g.Intn(1000)
	case "rotation":
		n["logRotationSize"] = g.Intn(1000)
		if g.p(0.5) {
			delete(n, "logRotationSchedule")
		} else {
			n["logRotationSchedule"] = "@daily"
		}
	case "localhost":
		n["agentUseLocalhost"] = !(n["agentUseLocalhost"] == true)
	case "tz":
		n["initializeTimezoneData"] = !(n["initializeTimezoneData"] == true)
	case "offline":
		n["offline"] = !(n["offline"] == true)
	case "server":
		n["serverIDBase"] = 1 + g.Intn(100000)
	case "grow", "shrink":
		v := n["volumeClaimTemplates"].([]any)
		x := v[g.Intn(len(v))].(m)
		req := x["spec"].(m)["resources"].(m)["requests"].(m)
		q := resource.MustParse(req["storage"].(string))
		if what == "grow" {
			q.Add(resource.MustParse(pick(g, "512Mi", "1Gi")))
		} else if q.Cmp(resource.MustParse("1Gi")) > 0 {
			q.Sub(resource.MustParse("512Mi"))
		}
		req["storage"] = q.String()
	case "pvcmeta":
		v := n["volumeClaimTemplates"].([]any)
		x := v[g.Intn(len(v))].(m)
		md := x["metadata"].(m)
		md["labels"] = m{"synclabel": g.word(), "unsynced": g.word(), "tier": g.word()}
		md["annotations"] = m{"sync.example.com/b": g.word(), "sync.example.com/a": g.word(), "other/x": g.word()}
	case "addpvc":
		v := n["volumeClaimTemplates"].([]any)
		if len(v) == 1 {
			n["volumeClaimTemplates"] = append(v, g.pvc("added", "1Gi", "fast"))
		}
	}
	return n, what
}

func newCluster(ns, name string, uid string, spec m) *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	c.Namespace, c.Name = ns, name
	c.UID = types.UID(uid)
	c.Generation = 1
	c.Finalizers = []string{constants.MySQLClusterFinalizer}
	c.Spec = conv[mocov1beta2.MySQLClusterSpec](spec)
	c.Status.Conditions = nil
	return c
}

func storageClass(name string, expand *bool) *storagev1.StorageClass {
	s := &storagev1.StorageClass{}
	s.Name = name
	s.Provisioner = "x"
	s.AllowVolumeExpansion = expand
	return s
}
