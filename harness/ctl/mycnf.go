package ctl

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/cybozu-go/moco/pkg/mycnf"
	"verifharness/vlib"
)

// What mysqld must run with whatever the user says. From docs/clustering.md,
// docs/reconcile.md and docs/security.md: GTID based row replication, read only
// at start, no automatic start of replication, and the paths and ports that the
// other containers and the controller use.
var constConf = map[string]string{
	"port": "3306", "socket": "/run/mysqld.sock", "datadir": "/var/lib/mysql/data", "secure_file_priv": "NULL", "skip_name_resolve": "ON",
	"slow_query_log_file": "/var/log/mysql/mysql.slow", "enforce_gtid_consistency": "ON", "gtid_mode": "ON", "binlog_format": "ROW",
	"log_replica_updates": "ON", "relay_log_recovery": "OFF", "mysqlx_port": "33060", "admin_port": "33062", "pid_file": "/run/mysqld.pid",
	"read_only": "ON", "super_read_only": "ON", "skip_replica_start": "ON",
	"replication_optimize_for_static_plugin_config": "ON", "replication_sender_observe_commit_only": "OFF",
}

var removedConf = []string{"log_bin", "log_error", "skip_log_bin", "disable_log_bin"}

// options that older mysqld do not have: they must stay optional
var looseOnly = []string{"replication_optimize_for_static_plugin_config", "replication_sender_observe_commit_only", "binlog_transaction_compression", "innodb_validate_tablespace_paths", "innodb_numa_interleave"}

func canon(k string) string {
	return strings.TrimPrefix(strings.ReplaceAll(strings.TrimSpace(k), "-", "_"), "loose_")
}

type confFile struct {
	sec      map[string]map[string]string // section -> canonical key -> value in effect
	lines    map[string][]string          // section -> raw keys
	includes []string
}

// parseConf reads an option file as mysqld does: the last occurrence of an
// option is in effect, - and _ are the same, loose_ is no part of the name.
func parseConf(t string) *confFile {
	f := &confFile{sec: map[string]map[string]string{}, lines: map[string][]string{}}
	cur := ""
	for _, line := range strings.Split(t, "\n") {
		line = strings.TrimSpace(line)
		switch {
		case line == "" || line[0] == '#' || line[0] == ';':
		case strings.HasPrefix(line, "!"):
			f.includes = append(f.includes, line)
		case line[0] == '[':
			cur = strings.Trim(line, "[]")
			if f.sec[cur] == nil {
				f.sec[cur] = map[string]string{}
			}
		default:
			k, v, _ := strings.Cut(line, "=")
			f.sec[cur][canon(k)] = strings.TrimSpace(v)
			f.lines[cur] = append(f.lines[cur], strings.TrimSpace(k))
		}
	}
	return f
}

// judgeConf tells what is wrong with a generated my.cnf ("" if nothing).
func judgeConf(text string, user map[string]string, mem int64) string {
	f := parseConf(text)
	my := f.sec["mysqld"]
	if my == nil {
		return "there is no [mysqld]"
	}
	for _, k := range vlib.Keys(constConf) {
		if my[k] != constConf[k] {
			return fmt.Sprintf("%s is %q, must be %q (user: %v)", k, my[k], constConf[k], user)
		}
	}
	opaque := parseConf("[mysqld]\n" + user["_include"]).sec["mysqld"]
	for _, k := range removedConf {
		_, inOpaque := opaque[k]
		if v, ok := my[k]; ok && !inOpaque {
			return fmt.Sprintf("%s=%s is there (user: %v)", k, v, user)
		}
	}
	if _, ok := my["_include"]; ok {
		return "_include is taken for an option"
	}
	// what the user says
	said := map[string][]string{}
	for k, v := range user {
		if k == "_include" {
			continue
		}
		said[canon(k)] = append(said[canon(k)], v)
	}
	for k, vs := range said {
		if _, ok := constConf[k]; ok || contains(removedConf, k) {
			continue
		}
		if got, ok := my[k]; !ok || !contains(vs, got) {
			return fmt.Sprintf("%s is %q (set: %v), the user says %v", k, got, ok, vs)
		}
	}
	for k := range opaque {
		if !strings.Contains(text, user["_include"]) {
			return "the text of _include is not there: " + k
		}
	}
	// the defaults
	for _, k := range []string{"max_connections", "character_set_server", "transaction_isolation", "default_storage_engine", "innodb_flush_method", "slow_query_log", "default_time_zone"} {
		if len(said[k]) > 0 {
			continue
		}
		if _, ok := opaque[k]; ok {
			continue
		}
		want := map[string]string{"max_connections": "100000", "character_set_server": "utf8mb4", "transaction_isolation": "READ-COMMITTED", "default_storage_engine": "InnoDB", "innodb_flush_method": "O_DIRECT", "slow_query_log": "ON", "default_time_zone": "+0:00"}[k]
		if my[k] != want {
			return fmt.Sprintf("the default of %s is %q, should be %q", k, my[k], want)
		}
	}
	if _, ok := opaque["innodb_buffer_pool_size"]; len(said["innodb_buffer_pool_size"]) == 0 && !ok {
		got, err := strconv.ParseInt(my["innodb_buffer_pool_size"], 10, 64)
		if err != nil {
			return "innodb_buffer_pool_size is " + my["innodb_buffer_pool_size"]
		}
		min := int64(128 << 20)
		switch {
		case got < min:
			return fmt.Sprintf("the buffer pool has %d bytes only", got)
		case got > min && got > mem/10*7+10:
			return fmt.Sprintf("the buffer pool of %d bytes is more than 70%% of %d", got, mem)
		case got < mem/10*7-(2<<20):
			return fmt.Sprintf("the buffer pool of %d bytes is less than 70%% of %d", got, mem)
		}
	}
	for _, k := range f.lines["mysqld"] {
		n := strings.ReplaceAll(k, "-", "_")
		if contains(looseOnly, n) && len(said[n]) == 0 {
			if _, ok := opaque[n]; !ok {
				return n + " would stop older mysqld from starting"
			}
		}
	}
	if cl := f.sec["client"]; cl["socket"] != "/run/mysqld.sock" || cl["port"] != "3306" {
		return fmt.Sprintf("[client] is %v", cl)
	}
	for _, i := range f.includes {
		if strings.HasPrefix(i, "!includedir") && strings.Contains(i, "/etc/mysql-conf.d") {
			return ""
		}
	}
	return "the snippets of moco-init (server_id and so on) are not included"
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// runConf judges n generated files.
func runConf(g gen, r *vlib.Report, n int) {
	vars := func(k string) string {
		k = strings.ReplaceAll(k, "-", "_")
		if g.p(0.3) {
			k = "loose_" + strings.TrimPrefix(k, "loose_")
		}
		if g.p(0.4) {
			k = strings.ReplaceAll(k, "_", "-")
		}
		return k
	}
	pool := append([]string{}, removedConf...)
	pool = append(pool, vlib.Keys(constConf)...)
	pool = append(pool, confKeys...)
	for _, k := range vlib.Keys(mycnf.DefaultMycnf) {
		pool = append(pool, k)
	}
	for range n {
		user := map[string]string{}
		for range g.Intn(9) {
			k := pick(g, pool...)
			if k == "_include" {
				user[k] = pick(g, "performance-schema-instrument='memory/%=ON'\nperformance-schema-instrument='wait/%=OFF'", "plugin-load-add=x.so", "loose_foo = 1\n")
				continue
			}
			user[vars(k)] = pick(g, "1", "OFF", "ON", "12M", "/x/y", g.word())
		}
		mem := pick(g, int64(0), 1, 100<<20, 182<<20, 183<<20, 1<<30, 10<<30, 500<<30, int64(g.Intn(1<<30))*7)
		cs := fmt.Sprintf("conf %v mem %d", user, mem)
		first := mycnf.Generate(user, mem)
		for range 3 {
			if again := mycnf.Generate(user, mem); again != first {
				r.Violate("R05", "the same settings give different my.cnf files", cs+"\n"+diffLines(first, again), cs, "", "")
				break
			}
		}
		if d := judgeConf(first, user, mem); d != "" {
			r.Violate("R05", "my.cnf does not have the required contents", d+" ("+cs+")", cs, first, "")
		}
		var ks []string
		for k := range user {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.Eval(strings.Join(ks, ","))
		r.Count("conf_generated", 1)
		r.Sig(fmt.Sprintf("conf keys %d mem>=%d", len(user), mem>>30))
	}
}

func diffLines(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i < len(y) && x[i] != y[i] {
			return fmt.Sprintf("%q / %q", x[i], y[i])
		}
	}
	return "length"
}
