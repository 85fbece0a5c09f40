// Package bk runs the real backup and restore managers (package backup and
// pkg/bkop, pkg/bucket) against simulated mysqld instances, an in-process API
// server, stand-ins for the MySQL tools and fake object stores, and judges what
// they store, record and restore.
package bk

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/mysim"
)

// Tx is a committed transaction.
type Tx struct {
	UUID   string
	N      int64
	TS     int64
	Schema string
	ID     int
}

func (t *Tx) gtid() mysim.GTID { return mysim.GTID{UUID: t.UUID, N: t.N} }

// Blog is a binary log file.
type Blog struct {
	Name string
	Txs  []*Tx
}

// Inst is a simulated mysqld, as far as backup and restore see it.
type Inst struct {
	Idx         int
	IP, Host    string
	UUID, Ver   string
	Up          bool
	Granted     bool
	Ready       bool
	SRO, RO     bool
	LocalInfile bool
	Blogs       []*Blog
	Data        []*Tx
	Exec        mysim.Set
	Users       map[string]bool
	applied     int
	user, pass  string
	SetStmts    []string
	Loads       int
	Applies     int
}

// Fault makes the n-th occurrence of an operation fail.
type Fault struct {
	Op    string
	N     int
	Mode  string
	Fired bool
}

// World is everything around one cluster's backups.
type World struct {
	mu      sync.Mutex
	seed    int64
	rng     *rand.Rand
	base    time.Time
	owed    time.Duration
	Insts   []*Inst
	Primary int
	Hist    []*Tx
	nextID  int
	Target  *Inst
	root    string
	sock    string
	ln      net.Listener
	faults  []*Fault
	seen    map[string]int
	Log     []string
	// busy: the application keeps writing while the tools run
	busy    bool
	Schemas []string
	AppUser []string
	covered mysim.Set // what the last binlog dump covered
	snap    *snapshot // the last full dump that was taken
	dumps   int
	toolWG  sync.WaitGroup
	conns   map[net.Conn]bool
	odd     []string
	real    bool   // processes and real time
	home    string // where mysqlsh can write, if real
}

type snapshot struct {
	Inst  *Inst
	Exec  string
	Data  []*Tx
	Files map[string][]byte
}

func (w *World) logf(f string, a ...any) {
	if len(w.Log) < 4000 {
		w.Log = append(w.Log, w.now().UTC().Format("15:04:05 ")+fmt.Sprintf(f, a...))
	}
}

// now is the current time of the world (mu held).
func (w *World) now() time.Time {
	if w.real {
		return time.Now()
	}
	return w.base.Add(w.owed)
}

// tick is called inside the bubble: it lets the time the tools took pass.
func (w *World) tick() {
	w.mu.Lock()
	if w.real {
		w.owed, w.base = 0, time.Now()
		w.mu.Unlock()
		return
	}
	d := w.owed
	w.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	w.mu.Lock()
	w.owed -= d
	w.base = time.Now()
	w.mu.Unlock()
}

// fault tells whether this occurrence of op is to fail, and how (mu held).
func (w *World) fault(op string) string {
	w.seen[op]++
	for _, f := range w.faults {
		if f.Op == op && f.N == w.seen[op] && !f.Fired {
			f.Fired = true
			w.logf("FAULT %s #%d %s", op, f.N, f.Mode)
			return f.Mode
		}
	}
	return ""
}

// rnd is a source of random numbers for one occurrence of op, so that what is
// drawn does not depend on how the processes interleave.
func (w *World) rnd(op string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s %d", w.seed, op, w.seen[op])
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func newUUID(r *rand.Rand) string {
	b := make([]byte, 16)
	r.Read(b)
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}

func (i *Inst) last() *Blog { return i.Blogs[len(i.Blogs)-1] }

func nextBlog(s string) string {
	p, n, _ := strings.Cut(s, ".")
	k, _ := strconv.Atoi(n)
	return fmt.Sprintf("%s.%06d", p, k+1)
}

func (i *Inst) rotate() { i.Blogs = append(i.Blogs, &Blog{Name: nextBlog(i.last().Name)}) }

func (i *Inst) apply(t *Tx) {
	i.Exec.Add(t.gtid())
	i.Data = append(i.Data, t)
	i.last().Txs = append(i.last().Txs, t)
	i.applied++
}

// commit makes the application write n transactions (mu held).
func (w *World) commit(n int) {
	p := w.Insts[w.Primary]
	for range n {
		w.nextID++
		t := &Tx{UUID: p.UUID, N: 1, TS: w.now().Unix(), Schema: w.Schemas[w.rng.Intn(len(w.Schemas))], ID: w.nextID}
		for p.Exec.Has(t.gtid()) {
			t.N++
		}
		w.Hist = append(w.Hist, t)
		p.apply(t)
		if w.rng.Intn(40) == 0 {
			p.rotate()
		}
		if w.rng.Intn(3) == 0 {
			w.owed += time.Duration(w.rng.Intn(1500)) * time.Millisecond
		}
	}
	for _, i := range w.Insts {
		if w.rng.Intn(3) > 0 {
			w.catchup(i, w.rng.Intn(n+2))
		}
	}
}

// catchup applies up to n more transactions on a replica (mu held).
func (w *World) catchup(i *Inst, n int) {
	for ; n > 0 && i.applied < len(w.Hist); n-- {
		i.apply(w.Hist[i.applied])
		if w.rng.Intn(60) == 0 {
			i.rotate()
		}
	}
}

func (w *World) catchupAll() {
	for _, i := range w.Insts {
		w.catchup(i, len(w.Hist))
	}
}

// activity is what the application does while a tool runs (mu held).
func (w *World) activity() {
	w.owed += time.Duration(w.rng.Intn(2500)) * time.Millisecond
	if w.busy {
		w.commit(w.rng.Intn(6))
	}
	if w.rng.Intn(6) == 0 {
		w.Insts[w.rng.Intn(len(w.Insts))].rotate()
	}
}

func (w *World) find(host string) *Inst {
	for _, i := range append(append([]*Inst{}, w.Insts...), w.Target) {
		if i != nil && (i.IP == host || i.Host == host) {
			return i
		}
	}
	return nil
}

// ---- SQL ----

func (w *World) sql(i *Inst, stmt string) (*mysim.Result, error) {
	w.tick()
	w.mu.Lock()
	defer w.mu.Unlock()
	if !i.Up {
		return nil, mysim.ErrDrop
	}
	if stmt == "\x00PING" {
		return nil, nil
	}
	s := mysim.Norm(stmt)
	up := strings.ToUpper(s)
	op := "sql"
	if strings.HasPrefix(up, "SET GLOBAL") {
		op = "sqlset"
	}
	switch w.fault(op) {
	case "":
	case "drop":
		return nil, mysim.ErrDrop
	default:
		return nil, &mysim.SQLError{Code: 1105, Msg: "injected failure"}
	}
	col := func(n string) mysim.Col { return mysim.Col{Name: n} }
	status := func() *mysim.Result {
		return &mysim.Result{Cols: []mysim.Col{col("File"), {Name: "Position", Int: true}, col("Binlog_Do_DB"), col("Binlog_Ignore_DB"), col("Executed_Gtid_Set")},
			Rows: [][]any{{i.last().Name, int64(157), "", "", i.Exec.String()}}}
	}
	if !i.Granted && (strings.HasPrefix(up, "SHOW") || strings.HasPrefix(up, "SET GLOBAL")) {
		return nil, &mysim.SQLError{Code: 1227, Msg: "Access denied; you need (at least one of) the SUPER, REPLICATION CLIENT privilege(s) for this operation"}
	}
	old := strings.HasPrefix(i.Ver, "8.0")
	switch {
	case strings.Contains(up, "VERSION()"):
		return &mysim.Result{Cols: []mysim.Col{col("v")}, Rows: [][]any{{i.Ver[:3]}}}, nil
	case up == "SHOW MASTER STATUS" && old, up == "SHOW BINARY LOG STATUS" && !old:
		return status(), nil
	case up == "SHOW BINARY LOGS":
		r := &mysim.Result{Cols: []mysim.Col{col("Log_name"), {Name: "File_size", Int: true}, col("Encrypted")}}
		names := append([]*Blog{}, i.Blogs...)
		for _, b := range names {
			r.Rows = append(r.Rows, []any{b.Name, int64(157 + 100*len(b.Txs)), "No"})
		}
		return r, nil
	case strings.HasPrefix(up, "SELECT @@"):
		r := &mysim.Result{Rows: [][]any{{}}}
		for _, v := range strings.Split(s[len("SELECT "):], ",") {
			v = strings.TrimSpace(v)
			name := strings.ToLower(strings.TrimPrefix(strings.TrimPrefix(strings.ToLower(v), "@@"), "global."))
			var x any
			isInt := true
			switch name {
			case "super_read_only":
				x = b2i(i.SRO)
			case "read_only":
				x = b2i(i.RO)
			case "local_infile":
				x = b2i(i.LocalInfile)
			case "server_uuid":
				x, isInt = i.UUID, false
			case "gtid_executed":
				x, isInt = i.Exec.String(), false
			default:
				w.odd = append(w.odd, "unknown variable "+name)
				return nil, &mysim.SQLError{Code: 1193, Msg: "Unknown system variable " + name}
			}
			r.Cols = append(r.Cols, mysim.Col{Name: v, Int: isInt})
			r.Rows[0] = append(r.Rows[0], x)
		}
		return r, nil
	case strings.HasPrefix(up, "SET GLOBAL "):
		i.SetStmts = append(i.SetStmts, s)
		w.logf("%s: %s", i.IP, s)
		for _, a := range strings.Split(s[len("SET GLOBAL "):], ",") {
			n, v, _ := strings.Cut(a, "=")
			n = strings.ToLower(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(n), "GLOBAL ")))
			v = strings.ToUpper(strings.Trim(strings.TrimSpace(v), "'"))
			on := v == "1" || v == "ON" || v == "TRUE"
			switch n {
			case "local_infile":
				i.LocalInfile = on
			case "read_only":
				i.RO = on
				if !on {
					i.SRO = false
				}
			case "super_read_only":
				i.SRO = on
				if on {
					i.RO = true
				}
			default:
				w.odd = append(w.odd, "unknown SET of "+n)
			}
		}
		return &mysim.Result{}, nil
	}
	w.odd = append(w.odd, "unknown statement "+s)
	return nil, &mysim.SQLError{Code: 1064, Msg: "syntax error near " + s}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// ---- the tools ----

type call struct {
	Name string
	Args []string
	TZ   string
	Tmp  string
	Home string
}

type answer struct {
	Exit   int
	Out    []byte
	Stdin  bool
	Real   string
	Limit  int64
	Detail string
}

// serveTools accepts the calls of the tools; it runs outside the bubble.
func (w *World) serveTools() error {
	ln, err := net.Listen("unix", w.sock)
	if err != nil {
		return err
	}
	w.ln = ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			w.toolWG.Add(1)
			go func() {
				defer w.toolWG.Done()
				defer c.Close()
				w.tool(c)
			}()
		}
	}()
	return nil
}

func (w *World) tool(c net.Conn) {
	br := bufio.NewReader(c)
	line, err := br.ReadBytes('\n')
	if err != nil {
		return
	}
	var q call
	if err := json.Unmarshal(line, &q); err != nil {
		return
	}
	enc := json.NewEncoder(c)
	w.mu.Lock()
	var a answer
	switch q.Name {
	case "tar", "zstd":
		a = w.passThrough(q)
	case "mysqlsh":
		a = w.mysqlsh(q)
	case "mysqlbinlog":
		a = w.mysqlbinlog(q)
	case "mysql":
		a = answer{Stdin: true}
		t, ok := w.login(parse(q.Args, "h", "host", "port", "P", "u", "user"))
		if !ok {
			a = answer{Exit: 1, Detail: "ERROR 1045: access denied or no server"}
		} else {
			stop := -1
			if m := w.fault("mysql"); m != "" {
				stop = w.rnd("mysql").Intn(4)
			}
			w.mu.Unlock()
			_ = enc.Encode(a)
			a = w.applyStream(br, t, stop)
			w.mu.Lock()
		}
	default:
		a = answer{Exit: 98}
	}
	if a.Detail != "" {
		w.logf("%s fails: %s", q.Name, a.Detail)
	}
	w.mu.Unlock()
	_ = enc.Encode(a)
}

// opts are the parsed arguments of a tool.
type opts struct {
	o   map[string][]string
	pos []string
}

func (o opts) get(names ...string) string {
	for _, n := range names {
		if v := o.o[n]; len(v) > 0 {
			return v[len(v)-1]
		}
	}
	return ""
}

func (o opts) has(names ...string) bool {
	for _, n := range names {
		if _, ok := o.o[n]; ok {
			return true
		}
	}
	return false
}

// parse splits arguments; withArg names the options that take a separate value.
func parse(args []string, withArg ...string) opts {
	r := opts{o: map[string][]string{}}
	want := func(n string) bool {
		for _, a := range withArg {
			if a == n {
				return true
			}
		}
		return false
	}
	for k := 0; k < len(args); k++ {
		a := args[k]
		switch {
		case a == "--":
			r.pos = append(r.pos, args[k+1:]...)
			return r
		case strings.HasPrefix(a, "--"):
			n, v, ok := strings.Cut(a[2:], "=")
			if !ok && want(n) && k+1 < len(args) {
				k++
				v = args[k]
			}
			r.o[n] = append(r.o[n], v)
		case strings.HasPrefix(a, "-") && len(a) > 1:
			n, v := a[1:2], a[2:]
			if v == "" && want(n) && k+1 < len(args) {
				k++
				v = args[k]
			}
			r.o[n] = append(r.o[n], v)
		default:
			r.pos = append(r.pos, a)
		}
	}
	return r
}

// login finds the server a tool wants and checks its credentials (mu held).
func (w *World) login(o opts) (*Inst, bool) {
	i := w.find(o.get("h", "host"))
	if i == nil || !i.Up {
		return nil, false
	}
	if p := o.get("port", "P"); p != "3306" && p != "" {
		return nil, false
	}
	if o.get("u", "user") != i.user || o.get("p", "password") != i.pass {
		return nil, false
	}
	return i, true
}

func (w *World) passThrough(q call) answer {
	real := "/usr/bin/" + q.Name
	dir := "-c"
	if q.Name == "tar" {
		for _, a := range q.Args {
			if a == "-x" {
				dir = "-x"
			}
		}
	} else {
		for _, a := range q.Args {
			if a == "-d" {
				dir = "-d"
			}
		}
	}
	a := answer{Real: real, Limit: -1}
	switch w.fault(q.Name + dir) {
	case "":
	case "start":
		a = answer{Exit: 2, Detail: "injected failure at start"}
	case "cut":
		a.Limit = int64(w.rnd(q.Name + dir).Intn(20000))
		a.Exit = 2
		a.Detail = "injected failure in the middle"
	default: // "late"
		a.Exit = 2
		a.Detail = "injected failure at the end"
	}
	return a
}

func (w *World) inside(p string) bool {
	return filepath.IsAbs(p) && strings.HasPrefix(filepath.Clean(p), w.root+"/")
}

func (w *World) mysqlsh(q call) answer {
	k := -1
	for i, a := range q.Args {
		if a == "--" {
			k = i
			break
		}
	}
	if k < 0 {
		w.odd = append(w.odd, "mysqlsh "+strings.Join(q.Args, " "))
		return answer{Exit: 1, Detail: "usage"}
	}
	conn := parse(q.Args[:k], "C")
	cmd := parse(q.Args[k+1:])
	if len(conn.pos) != 1 || len(cmd.pos) != 3 || cmd.pos[0] != "util" {
		w.odd = append(w.odd, "mysqlsh "+strings.Join(q.Args, " "))
		return answer{Exit: 1, Detail: "usage"}
	}
	uri := strings.TrimPrefix(strings.TrimPrefix(conn.pos[0], "mysql://"), "mysqlx://")
	user, hp, _ := strings.Cut(uri, "@")
	host, port, err := net.SplitHostPort(hp)
	if err != nil {
		return answer{Exit: 1, Detail: "bad uri"}
	}
	conn.o["u"], conn.o["h"], conn.o["port"] = []string{user}, []string{host}, []string{port}
	i, ok := w.login(conn)
	if !ok {
		return answer{Exit: 1, Detail: "access denied or no server at " + uri}
	}
	dir := cmd.pos[2]
	if !w.inside(dir) {
		w.odd = append(w.odd, "directory "+dir)
		return answer{Exit: 1, Detail: "directory outside of the work directory: " + dir}
	}
	if w.real && q.Home != w.home {
		return answer{Exit: 1, Detail: "cannot create files in " + q.Home}
	}
	switch cmd.pos[1] {
	case "dump-instance":
		return w.dump(i, dir, cmd)
	case "load-dump":
		return w.load(i, dir, cmd)
	}
	w.odd = append(w.odd, "mysqlsh "+strings.Join(q.Args, " "))
	return answer{Exit: 1, Detail: "unknown utility"}
}

func userList(s string) []string {
	var r []string
	for _, u := range strings.Split(s, ",") {
		u, _, _ = strings.Cut(u, "@")
		u = strings.Trim(u, "'`\" ")
		if u != "" {
			r = append(r, u)
		}
	}
	sort.Strings(r)
	return r
}

// dump is `util dump-instance` (mu held).
func (w *World) dump(i *Inst, dir string, o opts) answer {
	mode := w.fault("dump")
	if mode == "start" {
		return answer{Exit: 1, Detail: "injected failure at start"}
	}
	ents, err := os.ReadDir(dir)
	if err == nil && len(ents) > 0 {
		return answer{Exit: 1, Detail: "dump directory is not empty"}
	}
	_ = os.MkdirAll(dir, 0o755)
	w.activity()
	files := map[string][]byte{}
	meta, _ := json.Marshal(map[string]any{"dumper": "mysqlsh", "version": "2.0.1", "gtidExecuted": i.Exec.String(), "gtidExecutedInconsistent": false, "origin": "dumpInstance"})
	by := map[string][]*Tx{}
	for _, t := range i.Data {
		by[t.Schema] = append(by[t.Schema], t)
	}
	for s, ts := range by {
		b, _ := json.Marshal(ts)
		files[s+"@data.json"] = b
	}
	ex := userList(o.get("excludeUsers"))
	var us []string
	for u := range i.Users {
		k := sort.SearchStrings(ex, u)
		if k < len(ex) && ex[k] == u {
			continue
		}
		us = append(us, u)
	}
	sort.Strings(us)
	b, _ := json.Marshal(us)
	files["@.users.json"] = b
	fill := make([]byte, []int{0, 100, 5000, 70000, 300000}[w.rng.Intn(5)])
	w.rng.Read(fill)
	files["blob@0.bin"] = fill
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	names = append([]string{"@.json"}, names...)
	files["@.json"] = meta
	names = append(names, "@.done.json")
	files["@.done.json"] = []byte("{}")
	data := append([]*Tx{}, i.Data...)
	exec := i.Exec.String()
	w.activity()
	cut := len(names)
	if mode != "" {
		cut = w.rng.Intn(len(names))
	}
	for _, n := range names[:cut] {
		if err := os.WriteFile(filepath.Join(dir, n), files[n], 0o644); err != nil {
			return answer{Exit: 1, Detail: err.Error()}
		}
	}
	if mode != "" {
		return answer{Exit: 1, Detail: "injected failure in the middle"}
	}
	w.dumps++
	w.snap = &snapshot{Inst: i, Exec: exec, Data: data, Files: files}
	w.logf("dump of instance %d: %s", i.Idx, exec)
	return answer{}
}

// load is `util load-dump` (mu held).
func (w *World) load(i *Inst, dir string, o opts) answer {
	mode := w.fault("load")
	if mode == "start" {
		return answer{Exit: 1, Detail: "injected failure at start"}
	}
	if !i.LocalInfile {
		return answer{Exit: 1, Detail: "local_infile is off"}
	}
	if i.RO || i.SRO {
		return answer{Exit: 1, Detail: "server is read-only"}
	}
	if _, err := os.Stat(filepath.Join(dir, "@.done.json")); err != nil {
		return answer{Exit: 1, Detail: "incomplete dump"}
	}
	var meta struct {
		G string `json:"gtidExecuted"`
	}
	b, err := os.ReadFile(filepath.Join(dir, "@.json"))
	if err == nil {
		err = json.Unmarshal(b, &meta)
	}
	if err != nil {
		return answer{Exit: 1, Detail: "bad @.json"}
	}
	gt, err := mysim.ParseSet(meta.G)
	if err != nil {
		return answer{Exit: 1, Detail: "bad gtid set"}
	}
	ents, _ := os.ReadDir(dir)
	inc := map[string]bool{}
	for _, s := range strings.Split(o.get("includeSchemas"), ",") {
		if s != "" {
			inc[s] = true
		}
	}
	var ts []*Tx
	for _, e := range ents {
		s, ok := strings.CutSuffix(e.Name(), "@data.json")
		if !ok || (len(inc) > 0 && !inc[s]) {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		var l []*Tx
		if err == nil {
			err = json.Unmarshal(b, &l)
		}
		if err != nil {
			return answer{Exit: 1, Detail: "bad data file " + e.Name()}
		}
		ts = append(ts, l...)
	}
	sort.SliceStable(ts, func(a, b int) bool { return ts[a].ID < ts[b].ID })
	if len(i.Data) > 0 {
		return answer{Exit: 1, Detail: "duplicate objects found in destination database"}
	}
	if mode != "" {
		i.Data = append(i.Data, ts[:len(ts)/2]...)
		i.Loads++
		return answer{Exit: 1, Detail: "injected failure in the middle"}
	}
	if o.get("loadUsers") == "true" {
		var us []string
		b, err := os.ReadFile(filepath.Join(dir, "@.users.json"))
		if err == nil {
			err = json.Unmarshal(b, &us)
		}
		if err != nil {
			return answer{Exit: 1, Detail: "bad users"}
		}
		want := map[string]bool{}
		for _, u := range userList(o.get("includeUsers")) {
			want[u] = true
		}
		for _, u := range us {
			if len(want) > 0 && !want[u] {
				continue
			}
			if i.Users[u] {
				return answer{Exit: 1, Detail: "duplicate account " + u}
			}
		}
		for _, u := range us {
			if len(want) > 0 && !want[u] {
				continue
			}
			i.Users[u] = true
		}
	}
	i.Loads++
	i.Data = ts
	switch o.get("updateGtidSet") {
	case "replace":
		if o.get("skipBinlog") != "true" {
			return answer{Exit: 1, Detail: "updateGtidSet requires skipBinlog"}
		}
		i.Exec = gt
	case "append":
		i.Exec = i.Exec.Union(gt)
	}
	w.owed += time.Duration(w.rng.Intn(3000)) * time.Millisecond
	w.logf("loaded %d transactions, gtid %s", len(ts), i.Exec)
	return answer{}
}

const magic = "\xfebin\n"

// mysqlbinlog is both uses of the program (mu held).
func (w *World) mysqlbinlog(q call) answer {
	o := parse(q.Args, "h", "host", "port", "P", "u", "user", "result-file", "r", "exclude-gtids", "stop-datetime", "start-datetime", "database", "d")
	if o.has("read-from-remote-master", "read-from-remote-source", "R", "read-from-remote-server") {
		return w.binlogRemote(q, o)
	}
	return w.binlogLocal(q, o)
}

func (w *World) binlogRemote(q call, o opts) answer {
	mode := w.fault("binlogdump")
	if mode == "start" {
		return answer{Exit: 1, Detail: "injected failure at start"}
	}
	i, ok := w.login(o)
	if !ok {
		return answer{Exit: 1, Detail: "access denied or no server"}
	}
	w.activity()
	ex, err := mysim.ParseSet(o.get("exclude-gtids"))
	if err != nil {
		return answer{Exit: 1, Detail: "bad exclude-gtids"}
	}
	if len(o.pos) < 1 {
		return answer{Exit: 1, Detail: "no file"}
	}
	at := -1
	for k, b := range i.Blogs {
		if b.Name == o.pos[0] {
			at = k
		}
	}
	if at < 0 {
		return answer{Exit: 1, Detail: "Could not find first log file name in binary log index file"}
	}
	end := at + len(o.pos)
	if o.has("t", "to-last-log") {
		end = len(i.Blogs)
	}
	prefix := o.get("result-file", "r")
	raw := o.has("raw")
	if !raw {
		w.odd = append(w.odd, "remote mysqlbinlog without --raw")
		return answer{Exit: 1, Detail: "only raw dumps are supported"}
	}
	if !w.inside(prefix + "x") {
		return answer{Exit: 1, Detail: "result file outside of the work directory: " + prefix}
	}
	n := 0
	cut := end
	if mode != "" {
		cut = at + w.rng.Intn(end-at)
	}
	for _, b := range i.Blogs[at:cut] {
		var sb strings.Builder
		sb.WriteString(magic)
		if w.rng.Intn(4) == 0 {
			fill := make([]byte, w.rng.Intn(120000))
			w.rng.Read(fill)
			sb.WriteString("#" + hex.EncodeToString(fill) + "\n")
		}
		for _, t := range b.Txs {
			if !ex.Has(t.gtid()) {
				j, _ := json.Marshal(t)
				sb.Write(j)
				sb.WriteByte('\n')
				n++
			}
		}
		if err := os.WriteFile(prefix+b.Name, []byte(sb.String()), 0o644); err != nil {
			return answer{Exit: 1, Detail: err.Error()}
		}
	}
	if mode != "" {
		return answer{Exit: 1, Detail: "injected failure in the middle"}
	}
	if end == len(i.Blogs) {
		w.covered = i.Exec.Clone()
	}
	w.logf("binlog dump of instance %d from %s: %d transactions in %d files", i.Idx, o.pos[0], n, end-at)
	w.activity()
	return answer{}
}

func parseBlog(b []byte) ([]*Tx, error) {
	s, ok := strings.CutPrefix(string(b), magic)
	if !ok {
		return nil, fmt.Errorf("bad magic")
	}
	var r []*Tx
	for _, l := range strings.Split(s, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		t := &Tx{}
		if err := json.Unmarshal([]byte(l), t); err != nil {
			return nil, err
		}
		r = append(r, t)
	}
	return r, nil
}

func (w *World) binlogLocal(q call, o opts) answer {
	mode := w.fault("binlogread")
	if mode == "start" {
		return answer{Exit: 1, Detail: "injected failure at start"}
	}
	loc := time.Local
	if q.TZ != "" {
		l, err := time.LoadLocation(q.TZ)
		if err != nil {
			return answer{Exit: 1, Detail: "unknown time zone " + q.TZ}
		}
		loc = l
	}
	stop := int64(1) << 60
	if s := o.get("stop-datetime"); s != "" {
		t, err := time.ParseInLocation("2006-01-02 15:04:05", s, loc)
		if err != nil {
			return answer{Exit: 1, Detail: "bad stop-datetime"}
		}
		stop = t.Unix()
	}
	if o.has("start-datetime") {
		w.odd = append(w.odd, "start-datetime")
	}
	if !w.inside(q.Tmp + "/x") {
		return answer{Exit: 1, Detail: "TMPDIR is not a directory with enough space: " + q.Tmp}
	}
	if st, err := os.Stat(q.Tmp); err != nil || !st.IsDir() {
		return answer{Exit: 1, Detail: "TMPDIR does not exist"}
	}
	db := o.get("database", "d")
	var out []byte
	n := 0
files:
	for _, f := range o.pos {
		b, err := os.ReadFile(f)
		if err != nil {
			return answer{Exit: 1, Detail: err.Error(), Out: out}
		}
		ts, err := parseBlog(b)
		if err != nil {
			return answer{Exit: 1, Detail: err.Error(), Out: out}
		}
		for _, t := range ts {
			if t.TS >= stop {
				break files
			}
			// the filter is on the default database of the transaction
			if db != "" && t.Schema != db {
				continue
			}
			j, _ := json.Marshal(t)
			out = append(append(out, j...), '\n')
			n++
			if mode != "" && w.rnd("binlogread").Intn(8) <= n {
				return answer{Exit: 1, Detail: "injected failure in the middle", Out: out}
			}
		}
	}
	if mode != "" {
		return answer{Exit: 1, Detail: "injected failure at the end", Out: out}
	}
	w.logf("mysqlbinlog of %d files: %d transactions before %d", len(o.pos), n, stop)
	return answer{Out: out}
}

// applyStream is the mysql client reading statements from its standard input.
func (w *World) applyStream(r io.Reader, t *Inst, stop int) answer {
	sc := bufio.NewScanner(r)
	n := 0
	for sc.Scan() {
		x := &Tx{}
		if err := json.Unmarshal(sc.Bytes(), x); err != nil {
			return answer{Exit: 1, Detail: "syntax error"}
		}
		w.mu.Lock()
		if stop >= 0 && n >= stop {
			w.mu.Unlock()
			return answer{Exit: 1, Detail: "injected failure in the middle"}
		}
		n++
		if !t.Exec.Has(x.gtid()) {
			if t.RO || t.SRO {
				w.mu.Unlock()
				return answer{Exit: 1, Detail: "server is read-only"}
			}
			t.Exec.Add(x.gtid())
			t.Data = append(t.Data, x)
			t.Applies++
		}
		w.mu.Unlock()
	}
	if stop >= 0 {
		return answer{Exit: 1, Detail: "injected failure at the end"}
	}
	w.mu.Lock()
	w.logf("applied %d transactions", n)
	w.mu.Unlock()
	return answer{}
}

// mocoUsers are the accounts MOCO creates on every instance (docs).
func mocoUsers() map[string]bool {
	m := map[string]bool{}
	for _, u := range strings.Fields("moco-admin moco-agent moco-repl moco-clone-donor moco-exporter moco-backup moco-readonly moco-writable") {
		m[u] = true
	}
	return m
}
