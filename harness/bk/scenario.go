package bk

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/backup"
	"github.com/go-sql-driver/mysql"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"verifharness/mysim"
	"verifharness/vlib"
)

const timeFmt = "20060102-150405"

type scn struct {
	w         *World
	api       *API
	mem       *Mem
	rep       *vlib.Report
	rng       *rand.Rand
	cs        string
	prof      string
	ns, name  string
	acts      []string
	n         int
	harmful   bool // binary logs that are still needed were purged
	run       *bkRun
	rst       *rsRun
	covers    map[string]int64 // dump time -> the time up to which its binlog object reaches
	dumpGTID  map[string]string
	dir       string
	restores  int
	violated  bool
	lastOK    time.Time
	threads   int
	nextDir   int
	uuidsLast map[string]string
	real      *real
}

// bkRun is what one run of the backup job does.
type bkRun struct {
	start      time.Time
	pre        mocov1beta2.BackupStatus
	first      bool
	dumpKey    string
	dumpLen    int
	binlogKey  string
	binlogLen  int
	put        bool
	binlogDone int64
}

// rsRun is what one run of the restore job does.
type rsRun struct {
	want  []*Tx
	users map[string]bool
	put   bool
}

func (s *scn) viol(prop, rule, f string, a ...any) {
	if s.real != nil && prop != "M02" {
		rule = prop + " " + rule
		prop = "B05"
	}
	// what breaks another property does not end the scenario: it may break this one later on
	if s.rep.Wants(prop) {
		s.violated = true
	}
	s.rep.Violate(prop, rule, fmt.Sprintf(f, a...), s.cs, strings.Join(s.w.Log, "\n"), "")
}

func newScn(prof string, seed int64, rep *vlib.Report, root, sock string) *scn {
	r := rand.New(rand.NewSource(seed))
	w := &World{seed: seed, rng: rand.New(rand.NewSource(seed + 7)), root: root, sock: sock, seen: map[string]int{}, conns: map[net.Conn]bool{}}
	s := &scn{w: w, rep: rep, rng: r, cs: fmt.Sprintf("%s/%d", prof, seed), prof: prof, ns: "ns1", name: "test",
		covers: map[string]int64{}, dumpGTID: map[string]string{}, threads: 1 + r.Intn(4)}
	s.n = []int{1, 3, 3, 3, 5}[r.Intn(5)]
	w.Schemas = [][]string{{"db1"}, {"db1", "db2"}, {"app", "app2", "zoo"}}[r.Intn(3)]
	w.AppUser = []string{"alice", "bob", "carol"}[:1+r.Intn(3)]
	s.api = &API{w: w, Clusters: map[string]*mocov1beta2.MySQLCluster{}}
	s.mem = &Mem{w: w, Objs: map[string][]byte{}}
	s.mem.onPut = s.onStore
	s.api.onPut = s.onStatus
	return s
}

func (s *scn) setup() {
	w := s.w
	w.base = time.Now()
	ver := []string{"8.0.28", "8.4.8"}[s.rng.Intn(2)]
	c := &mocov1beta2.MySQLCluster{TypeMeta: metav1.TypeMeta{Kind: "MySQLCluster", APIVersion: "moco.cybozu.com/v1beta2"}, ObjectMeta: metav1.ObjectMeta{Namespace: s.ns, Name: s.name, UID: "u1", ResourceVersion: "1"}}
	c.Spec.Replicas = int32(s.n)
	s.api.rv = 10
	s.api.Clusters[s.ns+"/"+s.name] = c
	startLog := []string{"binlog.000001", "binlog.000001", "binlog.000009", "binlog.000098", "binlog.999997"}[s.rng.Intn(5)]
	for k := range s.n {
		i := &Inst{Idx: k, IP: fmt.Sprintf("10.0.0.%d", k+1), Host: fmt.Sprintf("moco-%s-%d.moco-%s.%s.svc", s.name, k, s.name, s.ns), UUID: newUUID(s.rng), Ver: ver,
			Up: true, Granted: true, Ready: true, Exec: mysim.Set{}, Users: mocoUsers(), user: "moco-backup", pass: "backup-pw"}
		for _, u := range w.AppUser {
			i.Users[u] = true
		}
		i.Blogs = []*Blog{{Name: startLog}}
		i.SRO, i.RO = true, true
		w.Insts = append(w.Insts, i)
	}
	w.Primary = s.rng.Intn(s.n)
	c.Status.CurrentPrimaryIndex = w.Primary
	w.Insts[w.Primary].SRO, w.Insts[w.Primary].RO = false, false
	s.syncPods()
	mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
		host, port, err := net.SplitHostPort(addr)
		if err != nil {
			return nil, err
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		i := w.find(host)
		if i == nil || !i.Up || port != "3306" {
			return nil, errors.New("dial " + addr + ": connection refused")
		}
		a, b := net.Pipe()
		w.conns[b] = true
		go func() {
			_ = mysim.ServeWire(b, i.Ver, 1, func(u string) (string, bool) { return i.pass, u == i.user }, func(u string) mysim.Handler {
				return func(stmt string) (*mysim.Result, error) { return w.sql(i, stmt) }
			})
			_ = b.Close()
		}()
		return a, nil
	})
	w.mu.Lock()
	w.commit(1 + s.rng.Intn(10))
	w.mu.Unlock()
	// objects of others
	for _, k := range []string{"moco/ns1/test2/20000101-000000/dump.tar", "moco/ns1/tes/20000101-000000/dump.tar", "moco/ns2/test/20000101-000000/dump.tar",
		"moco/ns1/test/garbage", "moco/ns1/test/20000101-000003/notes.txt", "other/ns1/test/20000101-000000/dump.tar", "moco/ns1/test/not-a-time/dump.tar",
		"moco/ns1/test/0-old/dump.tar", "moco/ns1/test/.tmp/binlog.tar.zst"} {
		if s.rng.Intn(2) == 0 {
			s.mem.Objs[k] = []byte("not mine")
		}
	}
}

func (s *scn) cluster() *mocov1beta2.MySQLCluster { return s.api.Clusters[s.ns+"/"+s.name] }

func (s *scn) syncPods() {
	s.api.Pods = nil
	for _, i := range s.w.Insts {
		p := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: s.ns, Name: fmt.Sprintf("moco-%s-%d", s.name, i.Idx), Labels: map[string]string{
			"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": s.name, "app.kubernetes.io/created-by": "moco"}}}
		p.Status.PodIP = i.IP
		p.Status.Conditions = vlib.PodConditions(i.Ready, time.Time{})
		s.api.Pods = append(s.api.Pods, p)
	}
	// another cluster's Pod
	s.api.Pods = append(s.api.Pods, &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: s.ns, Name: "moco-test2-0", Labels: map[string]string{
		"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": "test2", "app.kubernetes.io/created-by": "moco"}}})
	s.rng.Shuffle(len(s.api.Pods), func(a, b int) { s.api.Pods[a], s.api.Pods[b] = s.api.Pods[b], s.api.Pods[a] })
}

// ---- oracles on what is stored ----

func untar(b []byte) (map[string][]byte, error) {
	r := tar.NewReader(bytes.NewReader(b))
	m := map[string][]byte{}
	for {
		h, err := r.Next()
		if err == io.EOF {
			return m, nil
		}
		if err != nil {
			return nil, err
		}
		if h.Typeflag != tar.TypeReg {
			continue
		}
		d, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		m[path.Clean(h.Name)] = d
	}
}

func unzstd(b []byte) ([]byte, error) {
	cmd := exec.Command("/usr/bin/zstd", "-d", "--no-progress", "-q", "-c")
	cmd.Stdin = bytes.NewReader(b)
	return cmd.Output()
}

// readBinlogs returns the transactions of a stored binlog object, in order.
func readBinlogs(b []byte) ([]*Tx, error) {
	t, err := unzstd(b)
	if err != nil {
		return nil, fmt.Errorf("zstd: %w", err)
	}
	m, err := untar(t)
	if err != nil {
		return nil, fmt.Errorf("tar: %w", err)
	}
	type nf struct {
		n int
		k string
	}
	var fs []nf
	for k := range m {
		if path.Dir(k) != "binlog" || !strings.HasPrefix(path.Base(k), "binlog.") {
			return nil, fmt.Errorf("unexpected file %s", k)
		}
		n, err := strconv.Atoi(strings.TrimPrefix(path.Base(k), "binlog."))
		if err != nil {
			return nil, err
		}
		fs = append(fs, nf{n, k})
	}
	sort.Slice(fs, func(a, b int) bool { return fs[a].n < fs[b].n })
	var r []*Tx
	for _, f := range fs {
		ts, err := parseBlog(m[f.k])
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f.k, err)
		}
		r = append(r, ts...)
	}
	return r, nil
}

// readDump returns the transactions, the users and the GTID set of a stored dump.
func readDump(b []byte) ([]*Tx, []string, string, error) {
	m, err := untar(b)
	if err != nil {
		return nil, nil, "", err
	}
	var ts []*Tx
	var us []string
	var meta struct {
		G string `json:"gtidExecuted"`
	}
	for k, d := range m {
		switch base := path.Base(k); {
		case base == "@.json":
			err = json.Unmarshal(d, &meta)
		case base == "@.users.json":
			err = json.Unmarshal(d, &us)
		case strings.HasSuffix(base, "@data.json"):
			var l []*Tx
			err = json.Unmarshal(d, &l)
			ts = append(ts, l...)
		}
		if err != nil {
			return nil, nil, "", err
		}
	}
	sort.SliceStable(ts, func(a, b int) bool { return ts[a].ID < ts[b].ID })
	return ts, us, meta.G, nil
}

// onStore: an object was stored (mu held).
func (s *scn) onStore(key string, data []byte) {
	w, r := s.w, s.run
	if r == nil {
		s.viol("B03", "restore stores", "the restore job stored %s", key)
		return
	}
	s.rep.Count("stored", 1)
	pre := path.Join("moco", s.ns, s.name)
	dir, base := path.Split(key)
	dir = strings.TrimSuffix(dir, "/")
	t, err := time.Parse(timeFmt, path.Base(dir))
	if path.Dir(dir) != pre || err != nil {
		s.viol("B01", "key", "object stored under the key %s", key)
		return
	}
	switch base {
	case "dump.tar":
		if t.Before(r.start.Truncate(time.Second)) || t.After(w.now()) {
			s.viol("B01", "key", "dump stored under the key %s by a backup that began at %s", key, r.start.UTC())
		}
		m, err := untar(data)
		if err != nil {
			s.viol("B01", "incomplete dump", "the object stored as %s is not a complete tarball: %v", key, err)
			return
		}
		if w.snap == nil {
			s.viol("B01", "incomplete dump", "%s was stored before a dump was taken", key)
			return
		}
		want := map[string][]byte{}
		for k, v := range w.snap.Files {
			want["dump/"+k] = v
		}
		if d := diffFiles(want, m); d != "" {
			s.viol("B01", "incomplete dump", "the object stored as %s differs from the dump: %s", key, d)
			return
		}
		r.dumpKey, r.dumpLen = path.Base(dir), len(data)
		s.dumpGTID[path.Base(dir)] = w.snap.Exec
		s.rep.Count("dumps_stored", 1)
	case "binlog.tar.zst":
		if r.first || path.Base(dir) != r.pre.Time.UTC().Format(timeFmt) {
			s.viol("B02", "binlog key", "binary logs stored as %s; the last backup is %s", key, r.pre.Time.UTC().Format(timeFmt))
			return
		}
		if _, ok := s.dumpGTID[path.Base(dir)]; !ok {
			s.viol("B02", "binlogs apart from their dump", "binary logs stored as %s, where no dump has been stored", key)
			return
		}
		s.checkBinlog(key, data)
		r.binlogKey, r.binlogLen = path.Base(dir), len(data)
	default:
		s.viol("B01", "key", "object stored under the key %s", key)
	}
}

func diffFiles(want, got map[string][]byte) string {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return "no " + k
		}
		if !bytes.Equal(g, v) {
			return fmt.Sprintf("%s has %d bytes instead of %d", k, len(g), len(v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return "unexpected " + k
		}
	}
	return ""
}

// checkBinlog: the stored binary logs hold everything from the last dump to the
// new one (mu held).
func (s *scn) checkBinlog(key string, data []byte) {
	w, r := s.w, s.run
	ts, err := readBinlogs(data)
	if err != nil {
		s.viol("B02", "broken binlogs", "the object stored as %s cannot be read: %v", key, err)
		return
	}
	last, err := mysim.ParseSet(r.pre.GTIDSet)
	if err != nil {
		s.viol("B02", "bad gtid", "recorded GTID set %q", r.pre.GTIDSet)
		return
	}
	have := mysim.Set{}
	id := 0
	for _, t := range ts {
		have.Add(t.gtid())
		if t.ID <= id {
			s.viol("B02", "binlog order", "%s holds transaction %d after %d", key, t.ID, id)
			return
		}
		id = t.ID
	}
	upto := mysim.MustSet(w.snap.Exec)
	miss := upto.Minus(last).Minus(have)
	s.rep.Count("binlogs_stored", 1)
	s.rep.Count("binlog_txs", len(ts))
	if !miss.Empty() {
		if s.harmful {
			s.rep.Count("purged_gaps", 1)
			return
		}
		s.viol("B02", "binlog gap", "%s lacks %s, committed after the last backup (%s) and before this one (%s)", key, miss, r.pre.GTIDSet, w.snap.Exec)
		return
	}
	// transactions up to this moment on the source are in it
	r.binlogDone = w.now().Unix()
	for _, t := range w.Hist {
		if !have.Has(t.gtid()) && !last.Has(t.gtid()) {
			r.binlogDone = t.TS
			break
		}
	}
	s.covers[path.Base(path.Dir(key))] = r.binlogDone
}

// onStatus: a status update is about to be applied (mu held).
func (s *scn) onStatus(old, upd *mocov1beta2.MySQLCluster) {
	w := s.w
	a, b := old.Status.DeepCopy(), upd.Status.DeepCopy()
	if s.rst != nil {
		a.RestoredTime, b.RestoredTime = nil, nil
		if j, k := js(a), js(b); j != k {
			s.viol("B03", "clobbered status", "the restore job changed other status fields from %s to %s", j, k)
		}
		if upd.Status.RestoredTime != nil {
			s.rst.put = true
			s.checkRestored("when it was recorded as restored")
		}
		return
	}
	r := s.run
	a.Backup, b.Backup = mocov1beta2.BackupStatus{}, mocov1beta2.BackupStatus{}
	if j, k := js(a), js(b); j != k {
		s.viol("B01", "clobbered status", "the backup job changed other status fields from %s to %s", j, k)
	}
	sb := upd.Status.Backup
	r.put = true
	s.rep.Count("backup_records", 1)
	if r.dumpKey == "" {
		s.viol("B01", "recorded before stored", "the backup of %s was recorded but no complete dump has been stored", sb.Time.UTC())
		return
	}
	if got := sb.Time.UTC().Format(timeFmt); got != r.dumpKey {
		s.viol("B01", "wrong time", "the backup was recorded with time %s, stored under %s", got, r.dumpKey)
	}
	if sb.GTIDSet != w.snap.Exec {
		s.viol("B01", "wrong gtid", "the backup was recorded with GTID set %q, the dump has %q", sb.GTIDSet, w.snap.Exec)
	}
	if sb.SourceIndex != w.snap.Inst.Idx || sb.SourceUUID != w.snap.Inst.UUID {
		s.viol("B01", "wrong source", "the backup was recorded with source %d %s, taken from %d %s", sb.SourceIndex, sb.SourceUUID, w.snap.Inst.Idx, w.snap.Inst.UUID)
	}
	if int(sb.DumpSize) != r.dumpLen {
		s.viol("B01", "wrong size", "dumpSize is %d, the object has %d bytes", sb.DumpSize, r.dumpLen)
	}
	if len(sb.Warnings) == 0 && int(sb.BinlogSize) != r.binlogLen {
		s.viol("B01", "wrong size", "binlogSize is %d, the object has %d bytes", sb.BinlogSize, r.binlogLen)
	}
	if e, most := sb.Elapsed.Duration, w.now().Sub(sb.Time.Time)+2*time.Second; e < 0 || e > most {
		s.viol("B01", "wrong time", "the backup was recorded to have taken %s; it began %s ago", e, most)
	}
	for k, u := range sb.UUIDSet {
		n, err := strconv.Atoi(k)
		if err != nil || n < 0 || n >= s.n || w.Insts[n].UUID != u {
			s.viol("B02", "wrong uuid", "uuidSet records %s for instance %s", u, k)
		}
	}
	if len(sb.UUIDSet) > 0 && !s.sqlFault() && sb.UUIDSet[strconv.Itoa(sb.SourceIndex)] != sb.SourceUUID {
		s.viol("B02", "wrong uuid", "uuidSet %v lacks the source %d %s", sb.UUIDSet, sb.SourceIndex, sb.SourceUUID)
	}
	if !r.first && r.binlogKey == "" && len(sb.Warnings) == 0 {
		s.viol("B02", "silent gap", "no binary logs were stored for the backup of %s and no warning was recorded", r.pre.Time.UTC())
	}
	// the recorded file is where the next binlog dump begins
	exec := mysim.MustSet(w.snap.Exec)
	at := -1
	for k, l := range w.snap.Inst.Blogs {
		if l.Name == sb.BinlogFilename {
			at = k
		}
	}
	if at < 0 {
		s.viol("B02", "wrong binlog", "recorded binlog file %q does not exist on the source", sb.BinlogFilename)
		return
	}
	for _, l := range w.snap.Inst.Blogs[:at] {
		for _, t := range l.Txs {
			if !exec.Has(t.gtid()) {
				s.viol("B02", "wrong binlog", "the recorded binlog file is %s but transaction %s, not in the dump, is in %s", sb.BinlogFilename, t.gtid(), l.Name)
				return
			}
		}
	}
}

// sqlFault tells whether a statement failed in this run (mu held).
func (s *scn) sqlFault() bool {
	for _, f := range s.w.faults {
		if f.Fired && strings.HasPrefix(f.Op, "sql") {
			return true
		}
	}
	return false
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }

// ---- running the jobs ----

func (s *scn) workDir() string {
	s.nextDir++
	d := filepath.Join(s.w.root, fmt.Sprintf("work%d", s.nextDir))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func (s *scn) arm(fs []*Fault) {
	s.w.mu.Lock()
	s.w.faults = fs
	s.w.seen = map[string]int{}
	s.w.mu.Unlock()
}

var backupFaults = map[string][]string{
	"sql": {"err", "drop"}, "dump": {"start", "cut"}, "binlogdump": {"start", "cut"}, "tar-c": {"start", "cut", "late"}, "zstd-c": {"start", "cut", "late"},
	"put": {"start", "cut", "lost"}, "apiget": {"500", "drop"}, "apiput": {"500", "drop", "lost"}, "apipost": {"500", "drop"},
}

var restoreFaults = map[string][]string{
	"sql": {"err", "drop"}, "sqlset": {"err", "drop"}, "load": {"start", "cut"}, "tar-x": {"start", "late"}, "zstd-d": {"start", "cut", "late"}, "binlogread": {"start", "cut"}, "mysql": {"cut"},
	"get": {"start", "cut"}, "list": {"err"}, "apiget": {"500", "drop"}, "apiput": {"500", "drop", "lost"}, "apipost": {"500", "drop"},
}

func (s *scn) faults(m map[string][]string, p int) []*Fault {
	if s.rng.Intn(100) >= p {
		return nil
	}
	var r []*Fault
	for range 1 + s.rng.Intn(2)*s.rng.Intn(2) {
		ops := vlib.Keys(m)
		if s.real != nil {
			ops = slices.DeleteFunc(ops, func(o string) bool { return o == "put" || o == "get" || o == "list" })
		}
		op := ops[s.rng.Intn(len(ops))]
		n := 1
		switch op {
		case "sql":
			n = 1 + s.rng.Intn(3*s.n+4)
		case "apiget", "put", "tar-c", "tar-x", "get", "sqlset":
			n = 1 + s.rng.Intn(3)
		}
		r = append(r, &Fault{Op: op, N: n, Mode: m[op][s.rng.Intn(len(m[op]))]})
	}
	return r
}

// edits makes another writer change the cluster's status now and then.
func (s *scn) edits(p int) {
	n := s.rng.Intn(3)
	s.api.edit = func(c *mocov1beta2.MySQLCluster) bool {
		if n <= 0 || s.w.rnd("edit"+strconv.Itoa(n)).Intn(100) >= p {
			return false
		}
		n--
		c.Status.SyncedReplicas = s.w.rnd("edit").Intn(6)
		c.Status.ErrantReplicaList = []int{n}
		c.Status.ErrantReplicas = 1
		c.Status.ReconcileInfo.Generation++
		s.w.logf("API: concurrent edit of the status")
		return true
	}
}

func (s *scn) fired() []string {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	var r []string
	for _, f := range s.w.faults {
		if f.Fired {
			r = append(r, f.Op+":"+f.Mode)
		}
	}
	return r
}

func (s *scn) backup(ctx context.Context, p int) {
	w := s.w
	w.tick()
	s.syncPods()
	fs := s.faults(backupFaults, p)
	s.arm(fs)
	s.edits(30)
	pre := s.cluster().Status.Backup.DeepCopy()
	w.mu.Lock()
	w.snap, w.covered = nil, nil
	s.run = &bkRun{start: w.now(), pre: *pre, first: pre.Time.IsZero()}
	keys0 := len(s.mem.Objs)
	w.logf("--- backup (primary %d, last source %d %s)", w.Primary, pre.SourceIndex, pre.BinlogFilename)
	w.mu.Unlock()
	can, why := s.refusal()
	ready := make([]bool, s.n)
	reach := make([]bool, s.n)
	for k, i := range w.Insts {
		ready[k], reach[k] = i.Ready, i.Up
	}
	uuids := map[string]string{}
	for k, i := range w.Insts {
		uuids[strconv.Itoa(k)] = i.UUID
	}
	dir := s.workDir()
	var err error
	var bm *backup.BackupManager
	s.asJob("backup", s.ns, s.name)
	defer s.asJob("", "", "")
	if s.real != nil {
		err = s.exec(ctx, dir, "backup-pw", "backup", s.real.s3.name, s.ns, s.name)
	} else {
		bm, err = backup.NewBackupManager(s.api.config(), s.mem, dir, s.ns, s.name, "backup-pw", s.threads)
		if err == nil {
			err = bm.Backup(ctx)
		}
	}
	w.tick()
	if l, e := os.ReadDir(dir); e == nil {
		s.rep.Count("workdir_checks", 1)
		if len(l) > 0 {
			w.mu.Lock()
			s.viol("B01", "working files left", "the job (%v) left %s in its working directory", err, l[0].Name())
			w.mu.Unlock()
		}
	}
	_ = os.RemoveAll(dir)
	fired := s.fired()
	s.acts = append(s.acts, fmt.Sprintf("b%v", fired))
	r := s.run
	s.run = nil
	w.mu.Lock()
	defer w.mu.Unlock()
	w.logf("--- backup ends: %v (faults %v)", err, fired)
	s.rep.Count("backups", 1)
	if len(fired) > 0 {
		s.rep.Count("backups_with_faults", 1)
	}
	s.rep.Sig(fmt.Sprintf("backup n=%d first=%v err=%v f=%v warn=%d", s.n, r.first, err != nil, fired, len(s.cluster().Status.Backup.Warnings)))
	if !can {
		s.rep.Count("backups_refused", 1)
		if err == nil {
			s.viol("B01", "impossible backup", "the backup succeeded though %s", why)
		}
		if len(s.mem.Objs) != keys0 || r.put {
			s.viol("B01", "impossible backup", "objects or a record were written though %s", why)
		}
		return
	}
	if err == nil {
		s.rep.Count("backups_ok", 1)
		if !r.put {
			s.viol("B01", "not recorded", "the backup succeeded but was not recorded")
			return
		}
		s.lastOK = r.start
	} else {
		s.rep.Count("backups_failed", 1)
		if len(fired) == 0 {
			s.viol("B01", "fails", "the backup failed without a fault: %v", err)
			return
		}
	}
	if w.snap != nil && len(fired) == 0 {
		s.checkSource(r, w.snap.Inst.Idx, ready, reach, uuids, err == nil)
	}
	if err == nil && len(fired) == 0 && !r.first {
		warn := s.cluster().Status.Backup.Warnings
		if r.binlogKey == "" && !s.harmful && s.unchanged(r.pre, ready, reach, uuids) {
			s.viol("B02", "binlogs not stored", "the binary logs since %s were not stored though an instance has them: %v", r.pre.Time.UTC(), warn)
		}
	}
	if err == nil && len(fired) == 0 && (r.first || r.binlogKey != "") {
		s.rep.Count("unwarned_checks", 1)
		if warn := s.cluster().Status.Backup.Warnings; len(warn) > 0 {
			s.viol("B02", "groundless warning", "nothing went wrong in this backup but its record warns %q", warn)
		}
	}
	if err == nil {
		s.harmful = false
	}
}

func (s *scn) refusal() (bool, string) {
	c := s.cluster()
	if c.Spec.Offline {
		return false, "the cluster is offline"
	}
	n, ready := 0, 0
	for _, p := range s.api.Pods {
		if p.Labels["app.kubernetes.io/instance"] == s.name {
			n++
		}
	}
	for _, i := range s.w.Insts {
		if i.Ready {
			ready++
		}
	}
	if n != s.n {
		return false, "Pods are missing"
	}
	if ready == 0 {
		return false, "no Pod is ready"
	}
	return true, ""
}

func lastUUIDs(b mocov1beta2.BackupStatus) map[string]string {
	if len(b.UUIDSet) > 0 {
		return b.UUIDSet
	}
	return map[string]string{strconv.Itoa(b.SourceIndex): b.SourceUUID}
}

// usable are the instances that are ready and have all binary logs since the last backup.
func (s *scn) usable(b mocov1beta2.BackupStatus, ready, reach []bool, uuids map[string]string) []int {
	var r []int
	l := lastUUIDs(b)
	for k := range s.n {
		ks := strconv.Itoa(k)
		if ready[k] && reach[k] && l[ks] != "" && l[ks] == uuids[ks] {
			r = append(r, k)
		}
	}
	return r
}

func (s *scn) unchanged(b mocov1beta2.BackupStatus, ready, reach []bool, uuids map[string]string) bool {
	return len(s.usable(b, ready, reach, uuids)) > 0
}

// checkSource: the choice of the source follows the documentation.
func (s *scn) checkSource(r *bkRun, src int, ready, reach []bool, uuids map[string]string, ok bool) {
	if !ready[src] {
		s.viol("B02", "source", "the backup was taken from instance %d, which is not ready", src)
		return
	}
	prim := s.cluster().Status.CurrentPrimaryIndex
	s.rep.Count("source_checks", 1)
	if src != prim {
		s.rep.Count("source_replica", 1)
	}
	anyReplica := func(l []int) bool {
		for _, k := range l {
			if k != prim {
				return true
			}
		}
		return false
	}
	var all []int
	for k := range s.n {
		if ready[k] {
			all = append(all, k)
		}
	}
	if r.first {
		if src == prim && anyReplica(all) {
			s.viol("B02", "source", "the first backup was taken from the primary %d though replicas of %v are ready", src, all)
		}
		return
	}
	u := s.usable(r.pre, ready, reach, uuids)
	if len(u) == 0 {
		s.rep.Count("no_usable_source", 1)
		if src == prim && anyReplica(all) {
			s.viol("B02", "source", "the backup was taken from the primary %d though replicas of %v are ready", src, all)
		}
		if ok && len(s.cluster().Status.Backup.Warnings) == 0 {
			s.viol("B02", "silent gap", "every instance was re-initialised or is not ready, no warning was recorded")
		}
		return
	}
	in := false
	lastIn := false
	for _, k := range u {
		in = in || k == src
		lastIn = lastIn || (k == r.pre.SourceIndex && k != prim)
	}
	switch {
	case !in:
		s.viol("B02", "source", "the backup was taken from instance %d though only %v have the binary logs since the last backup", src, u)
	case lastIn && src != r.pre.SourceIndex:
		s.viol("B02", "source", "the backup was taken from instance %d though the last source %d is still a usable replica (%v)", src, r.pre.SourceIndex, u)
	case src == prim && anyReplica(u):
		s.viol("B02", "source", "the backup was taken from the primary %d though replicas of %v are usable", src, u)
	}
}

// ---- restore ----

func (s *scn) restore(ctx context.Context, p int) {
	w := s.w
	w.tick()
	s.restores++
	tname := "copy"
	w.mu.Lock()
	ver := w.Insts[0].Ver
	t := &Inst{Idx: 0, IP: fmt.Sprintf("10.1.0.%d", s.restores), Host: "target", UUID: newUUID(s.rng), Ver: ver, Exec: mysim.Set{}, Users: mocoUsers(), user: "moco-admin", pass: "admin-pw", SRO: true, RO: true}
	t.Blogs = []*Blog{{Name: "binlog.000001"}}
	w.Target = t
	w.mu.Unlock()
	c := &mocov1beta2.MySQLCluster{TypeMeta: metav1.TypeMeta{Kind: "MySQLCluster", APIVersion: "moco.cybozu.com/v1beta2"}, ObjectMeta: metav1.ObjectMeta{Namespace: "ns9", Name: tname, UID: "u9", ResourceVersion: "5"}}
	c.Spec.Replicas = 1
	s.api.Clusters["ns9/"+tname] = c
	s.api.edit = nil
	s.edits(30)
	// the point in time
	var ts []time.Time
	for k := range s.mem.Objs {
		if x, err := time.Parse(timeFmt, path.Base(path.Dir(k))); err == nil && strings.HasPrefix(k, "moco/ns1/test/") {
			ts = append(ts, x)
		}
	}
	sort.Slice(ts, func(a, b int) bool { return ts[a].Before(ts[b]) })
	var T time.Time
	switch k := s.rng.Intn(10); {
	case k < 2 && len(ts) > 0:
		T = ts[s.rng.Intn(len(ts))].Add(time.Duration(s.rng.Intn(3)-1) * time.Second)
	case k < 8 && len(w.Hist) > 0:
		T = time.Unix(w.Hist[s.rng.Intn(len(w.Hist))].TS+int64(s.rng.Intn(3)-1), 0).UTC()
	case k < 9 && len(ts) > 0:
		a, b := ts[0].Unix(), w.base.Unix()+10
		T = time.Unix(a+s.rng.Int63n(max(b-a, 1)), 0).UTC()
	default:
		T = w.base.UTC().Truncate(time.Second)
	}
	schema, users := "", ""
	if s.rng.Intn(3) == 0 {
		schema = w.Schemas[s.rng.Intn(len(w.Schemas))]
	}
	if s.rng.Intn(4) == 0 {
		users = w.AppUser[s.rng.Intn(len(w.AppUser))]
	}
	// what is to be restored
	var dump string
	for k := range s.mem.Objs {
		d, ok := strings.CutSuffix(strings.TrimPrefix(k, "moco/ns1/test/"), "/dump.tar")
		if !ok || !strings.HasPrefix(k, "moco/ns1/test/") {
			continue
		}
		if x, err := time.Parse(timeFmt, d); err == nil && !x.After(T) && d > dump {
			dump = d
		}
	}
	fs := s.faults(restoreFaults, p)
	s.rst = &rsRun{users: mocoUsers()}
	withBinlog := false
	covered := false
	if dump != "" {
		dt, us, g, err := readDump(s.mem.Objs["moco/ns1/test/"+dump+"/dump.tar"])
		if err != nil {
			// not one of ours
			dump = "?"
		} else {
			gs := mysim.MustSet(g)
			for _, x := range dt {
				if schema == "" || x.Schema == schema {
					s.rst.want = append(s.rst.want, x)
				}
			}
			for _, u := range us {
				if users == "" || u == users {
					s.rst.users[u] = true
				}
			}
			if b, ok := s.mem.Objs["moco/ns1/test/"+dump+"/binlog.tar.zst"]; ok && dump != T.Format(timeFmt) {
				l, err := readBinlogs(b)
				if err == nil {
					withBinlog = true
					for _, x := range l {
						if x.TS >= T.Unix() {
							break
						}
						if !gs.Has(x.gtid()) && (schema == "" || x.Schema == schema) {
							s.rst.want = append(s.rst.want, x)
						}
					}
					covered = s.covers[dump] >= T.Unix()
				}
			}
		}
	}
	if dump == "?" {
		s.rst = nil
		return
	}
	s.arm(fs)
	w.mu.Lock()
	w.logf("--- restore to %s schema %q users %q: dump %q binlog %v", T.Format(timeFmt), schema, users, dump, withBinlog)
	w.mu.Unlock()
	// the target comes up step by step
	stop := make(chan struct{})
	done := make(chan struct{})
	scale := 4000
	if s.real != nil {
		scale = 600
	}
	d := func() time.Duration { return time.Duration(s.rng.Intn(scale)) * time.Millisecond }
	d1, d2, d3, d4, d5 := d(), d(), d(), time.Duration(0), d()
	if s.rng.Intn(3) == 0 {
		d4 = d()
	}
	late := s.real != nil && s.rng.Intn(6) == 0
	if late { // later than the command retries
		d4 = 15 * time.Second
	}
	roFirst := s.rng.Intn(3) == 0
	if roFirst {
		t.SRO, t.RO = false, false
	}
	go func() {
		defer close(done)
		step := func(d time.Duration, f func()) bool {
			select {
			case <-stop:
				return false
			case <-time.After(d):
			}
			w.mu.Lock()
			f()
			w.mu.Unlock()
			return true
		}
		pod := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "ns9", Name: "moco-" + tname + "-0"}}
		_ = step(d1, func() { s.api.Pods = append(s.api.Pods, pod) }) &&
			step(d2, func() { pod.Status.PodIP = t.IP }) &&
			step(d3, func() { t.Up = true }) &&
			step(d4, func() { t.Granted = true }) &&
			step(d5, func() {
				if roFirst {
					t.SRO, t.RO = true, true
				}
			})
	}()
	var err error
	dir := s.workDir()
	for range 4 {
		err = s.runRestore(ctx, dir, tname, T, schema, users)
		if !errors.Is(err, backup.ErrBadConnection) {
			break
		}
		s.rep.Count("restore_retries", 1)
		time.Sleep(time.Second)
	}
	w.tick()
	close(stop)
	<-done
	fired := s.fired()
	_ = os.RemoveAll(dir)
	s.acts = append(s.acts, fmt.Sprintf("r%v", fired))
	w.mu.Lock()
	defer w.mu.Unlock()
	w.logf("--- restore ends: %v (faults %v)", err, fired)
	s.rep.Count("restores", 1)
	if len(fired) > 0 {
		s.rep.Count("restores_with_faults", 1)
	}
	s.rep.Sig(fmt.Sprintf("restore dump=%v binlog=%v err=%v f=%v schema=%v users=%v", dump != "", withBinlog, err != nil, fired, schema != "", users != ""))
	c = s.api.Clusters["ns9/"+tname]
	rs := s.rst
	defer func() { s.rst = nil; w.Target = nil; delete(s.api.Clusters, "ns9/"+tname); s.syncPods() }()
	if dump == "" {
		s.rep.Count("restores_without_backup", 1)
		if err == nil || rs.put {
			s.viol("B03", "restored from nothing", "the restore to %s succeeded without a backup before it", T)
		}
		if len(t.SetStmts) > 0 || len(t.Data) > 0 {
			s.viol("B03", "restored from nothing", "the target was modified without a backup to restore: %v", t.SetStmts)
		}
		return
	}
	if err == nil {
		s.rep.Count("restores_ok", 1)
		if withBinlog {
			s.rep.Count("restores_with_binlog", 1)
		}
		s.checkRestored("at the end")
		for _, f := range fired {
			if s.real == nil && (f == "zstd-d:late" || f == "tar-x:late") {
				s.viol("B03", "failure ignored", "the restore succeeded though a program unpacking the backup failed (%s)", f)
			}
		}
		if !rs.put || c.Status.RestoredTime == nil {
			s.viol("B03", "not recorded", "the restore succeeded but was not recorded")
		}
		if covered && !s.violated {
			s.rep.Count("pitr_checks", 1)
			have := map[int]bool{}
			for _, x := range t.Data {
				have[x.ID] = true
			}
			for _, x := range w.Hist {
				if x.TS < T.Unix() && (schema == "" || x.Schema == schema) && !have[x.ID] {
					s.viol("B03", "lost transaction", "transaction %d of %s, committed before %s, was not restored", x.ID, time.Unix(x.TS, 0).UTC(), T)
					break
				}
			}
		}
		return
	}
	s.rep.Count("restores_failed", 1)
	if late {
		s.rep.Count("restores_given_up", 1)
	} else if len(fired) == 0 {
		s.viol("B03", "fails", "the restore failed without a fault: %v", err)
		return
	}
	if rs.put && !strings.Contains(strings.Join(fired, " "), "lost") {
		s.viol("B03", "recorded though failed", "the restore failed (%v) and was recorded as done", err)
	}
	sqlf := false
	for _, f := range fired {
		sqlf = sqlf || strings.HasPrefix(f, "sql")
	}
	if !sqlf && t.Up && len(t.SetStmts) > 0 {
		s.rep.Count("failed_left_readonly_checks", 1)
		if !t.SRO {
			s.viol("B03", "left writable", "the restore failed (%v) and left the instance writable", err)
		}
	}
}

func (s *scn) runRestore(ctx context.Context, dir, tname string, T time.Time, schema, users string) (e error) {
	defer func() {
		if r := recover(); r != nil {
			if err, ok := r.(error); ok && errors.Is(err, backup.ErrBadConnection) {
				e = err
				return
			}
			panic(r)
		}
	}()
	s.asJob("restore", "ns9", tname)
	defer s.asJob("", "", "")
	if s.real != nil {
		return s.exec(ctx, dir, "admin-pw", "restore", s.real.s3.name, s.ns, s.name, "ns9", tname, T.UTC().Format(timeFmt), schema, users)
	}
	rm, err := backup.NewRestoreManager(s.api.config(), s.mem, dir, s.ns, s.name, "ns9", tname, "admin-pw", s.threads, T, schema, users)
	if err != nil {
		return err
	}
	return rm.Restore(ctx)
}

// checkRestored: the target holds what it must (mu held).
func (s *scn) checkRestored(when string) {
	t, r := s.w.Target, s.rst
	s.rep.Count("restored_checks", 1)
	got, want := ids(t.Data), ids(r.want)
	if !reflect.DeepEqual(got, want) {
		s.viol("B03", "wrong data", "%s, the target has transactions %v instead of %v", when, got, want)
	}
	if !reflect.DeepEqual(vlib.Keys(t.Users), vlib.Keys(r.users)) {
		s.viol("B03", "wrong users", "%s, the target has users %v instead of %v", when, vlib.Keys(t.Users), vlib.Keys(r.users))
	}
	if !t.SRO || t.LocalInfile {
		s.viol("B03", "left writable", "%s, super_read_only is %v and local_infile is %v", when, t.SRO, t.LocalInfile)
	}
}

func ids(ts []*Tx) []int {
	r := make([]int, 0, len(ts))
	for _, t := range ts {
		r = append(r, t.ID)
	}
	return r
}

// ---- the history ----

func (s *scn) runAll() {
	w := s.w
	s.setup()
	defer func() {
		w.mu.Lock()
		for c := range w.conns {
			_ = c.Close()
		}
		w.mu.Unlock()
	}()
	ctx := context.Background()
	p := 0
	if s.prof != "plain" {
		p = 50
	}
	steps := 4 + s.rng.Intn(10)
	if s.real != nil {
		steps = 3 + s.rng.Intn(4)
	}
	for range steps {
		if s.violated {
			break
		}
		if s.real != nil {
			time.Sleep(1100 * time.Millisecond)
			if s.rng.Intn(6) == 0 {
				s.misuse(ctx)
			}
		} else {
			time.Sleep(time.Duration(1+s.rng.Intn(600)) * time.Second)
		}
		w.tick()
		w.mu.Lock()
		w.busy = s.rng.Intn(3) > 0
		w.commit(s.rng.Intn(12))
		k := s.rng.Intn(17)
		prim := w.Insts[w.Primary]
		act := ""
		switch k {
		case 0: // failover or switchover
			if s.n > 1 {
				w.catchupAll()
				n := s.rng.Intn(s.n)
				w.Primary = n
				s.cluster().Status.CurrentPrimaryIndex = n
				act = "switch"
			}
		case 1: // a replica is re-initialised
			n := s.rng.Intn(s.n)
			if n != w.Primary {
				w.catchupAll()
				i := w.Insts[n]
				i.UUID = newUUID(s.rng)
				i.Data = append([]*Tx{}, prim.Data...)
				i.Exec = prim.Exec.Clone()
				i.Blogs = []*Blog{{Name: "binlog.000001"}}
				act = "reinit"
			}
		case 2, 3: // readiness
			for _, i := range w.Insts {
				i.Ready = s.rng.Intn(3) > 0
				i.Up = i.Up || i.Ready
			}
			act = "ready"
		case 4:
			for _, i := range w.Insts {
				i.Ready, i.Up = true, true
			}
		case 5:
			for _, i := range w.Insts {
				if s.rng.Intn(2) == 0 {
					for range 1 + s.rng.Intn(4) {
						i.rotate()
					}
				}
			}
			act = "rotate"
		case 6: // old binary logs expire
			last, err := mysim.ParseSet(s.cluster().Status.Backup.GTIDSet)
			if err == nil {
				for _, i := range w.Insts {
					for len(i.Blogs) > 1 && i.Blogs[0].Name != s.cluster().Status.Backup.BinlogFilename && allIn(i.Blogs[0].Txs, last) {
						i.Blogs = i.Blogs[1:]
					}
				}
			}
			act = "purge"
		case 7: // too early
			if s.rng.Intn(3) == 0 {
				i := w.Insts[s.rng.Intn(s.n)]
				for len(i.Blogs) > 1 && s.rng.Intn(4) > 0 {
					i.Blogs = i.Blogs[1:]
				}
				s.harmful = true
				act = "expire"
			}
		case 8: // objects are deleted
			ks := vlib.Keys(s.mem.Objs)
			if len(ks) > 0 {
				delete(s.mem.Objs, ks[s.rng.Intn(len(ks))])
				act = "delete"
			}
		case 9:
			if s.rng.Intn(2) == 0 {
				s.cluster().Status.Backup.UUIDSet = nil // recorded by an old version
				act = "legacy"
			}
		case 10:
			s.cluster().Spec.Offline = s.rng.Intn(3) == 0
		case 11:
			i := w.Insts[s.rng.Intn(s.n)]
			i.Up = s.rng.Intn(2) == 0 // Ready may be stale
			if !i.Up {
				i.Ready = false
			}
		case 12:
			w.catchupAll()
		case 13, 14: // somebody puts other objects next to the backups
			d := "moco/ns1/test/" + w.now().UTC().Format(timeFmt)
			k := []string{d + "-copy/dump.tar", d + "/old/dump.tar", d + "/dump.tar.bak", d + "Z/binlog.tar.zst", d[:len(d)-2] + "/dump.tar", d + "/README"}[s.rng.Intn(6)]
			s.mem.Objs[k] = []byte("not mine")
			act = "odd"
		}
		for _, i := range w.Insts {
			i.Ready = i.Ready && i.Up
		}
		if act != "" {
			s.acts = append(s.acts, act)
			w.logf("... %s", act)
		}
		w.mu.Unlock()
		if s.prof == "restore" && s.rng.Intn(3) > 0 && (len(s.dumpGTID) > 0 || s.rng.Intn(8) == 0) {
			s.restore(ctx, p)
		} else {
			s.backup(ctx, p)
		}
	}
	w.mu.Lock()
	s.cluster().Spec.Offline = false
	w.mu.Unlock()
	last := 2 + s.rng.Intn(4)
	if s.real != nil {
		last = 1 + s.rng.Intn(2)
	}
	for range last {
		if s.violated {
			break
		}
		q := 0
		if s.rng.Intn(2) == 0 {
			q = p
		}
		s.restore(ctx, q)
	}
	for _, o := range w.odd {
		s.rep.Note("not modelled: " + o)
	}
}

func allIn(ts []*Tx, g mysim.Set) bool {
	for _, t := range ts {
		if !g.Has(t.gtid()) {
			return false
		}
	}
	return true
}
