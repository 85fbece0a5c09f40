// Package mysim simulates a set of mysqld instances: the wire protocol, GTID
// replication with relay logs, semi-synchronous commits, connections, restarts,
// crashes, data loss and clones. It is the environment the real code runs in;
// the monitors look at its state and at the statements it receives.
package mysim

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/go-sql-driver/mysql"
)

// Event is one observation at the boundary of an instance.
type Event struct {
	At    time.Time
	Kind  string // sql-pre, sql, ack, kill, crash, start, wipe, clone, commit-local ...
	Inst  *Inst
	User  string
	Stmt  string
	Err   error
	GTID  GTID
	Extra string
	Pid   string // of the client, if known
	Old   bool   // the connection is one of an earlier World.Gen
}

// World is the set of instances; one lock guards everything.
type World struct {
	Mu    sync.Mutex
	Insts []*Inst
	byIP  map[string]*Inst
	Rng   *rand.Rand
	// Gen counts the clients that came one after another; guarded by Mu.
	Gen int
	// Hook is called with Mu held for each event.
	Hook func(Event)
	// AfterStep is called with Mu held after each replication step.
	AfterStep func()
	// Fault, with Mu held, may fail a statement of the controller or agent
	// before ("pre") or after ("post") it takes effect.
	Fault func(i *Inst, user, stmt, when string) error
	// Latency, with Mu held, gives the time a statement takes.
	Latency func(i *Inst, stmt string) time.Duration

	// Cut[a][b] cuts the link between instances a and b.
	Cut map[[2]int]bool

	CommitTime map[GTID]time.Time
	Acked      Set
	AckedLog   []Ack
	Unknown    map[string]int

	// Version counts changes relevant to a cluster's state.
	Version int64

	// Attrs makes the instances ask for connection attributes.
	Attrs bool
	// Clients counts the open client ends by instance address.
	Clients int

	connSeq uint64
	Ctx     context.Context
	cancel  func()
	wg      sync.WaitGroup
	Tick    time.Duration
	Log     *strings.Builder
	Start   time.Time
}

// Ack is a commit acknowledged to a client.
type Ack struct {
	G    GTID
	Inst int
	At   time.Time
}

// ReplCfg is the persistent replication configuration of an instance.
type ReplCfg struct {
	Host, User, Password string
	Port                 int
	Auto                 bool
}

type tx struct {
	g      GTID
	acks   map[int]bool
	conn   *Conn
	done   bool
	err    error
	start  time.Time
	acked  bool
	broken bool // the commit was abandoned (killed or crashed): never acknowledged
}

// Conn is a connection to an instance.
type Conn struct {
	gen    int
	ID     uint64
	User   string
	Host   string
	Inst   *Inst
	Epoch  int
	Dead   bool
	Since  time.Time
	InTx   bool // an open transaction that holds locks
	wire   net.Conn
	Opened int64 // world sequence
	pid    string
}

// Inst is one mysqld.
type Inst struct {
	W        *World
	Index    int
	Name     string
	IP       string
	Host     string
	ServerID int
	Ver      string // "8.0.41"

	Up       bool
	Hung     bool // accepts connections, never answers
	CtlReach bool // reachable from the controller
	Epoch    int  // bumps on every start

	UUID       string
	Executed   Set
	Purged     Set
	Binlog     []GTID
	nextN      int64
	Relay      []GTID
	Retrieved  Set
	Repl       *ReplCfg
	CloneState string

	ReadOnly, SuperReadOnly bool
	SemiMaster              bool
	WaitCount               int
	SemiTimeout             int64
	SemiSlave               bool
	LocalInfile             bool

	IOEnabled        bool
	IOConn           bool // connected to the source
	ioSemi           bool
	ioPos            int
	ioSrc            *Inst
	ioSrcEp          int
	IOErrno          int
	IOErr            string
	SQLRunning       bool
	ApplyPausedUntil time.Time
	IOPausedUntil    time.Time
	// DelayOverride, if >= 0, is reported as Seconds_Behind_Source.
	DelayOverride int64

	waiting []*tx
	conns   map[uint64]*Conn
	roWait  int // pending SET super_read_only: blocks new commits

	// Passwords by user.
	Auth func(user string) (string, bool)

	// Monitor bookkeeping.
	ReadOnlySince  time.Time
	RestartedAt    time.Time
	BinlogName     string
	BinlogNames    []string
	External       bool
	MaxConnSeqAtRO int64
}

// NewWorld makes an empty world.
func NewWorld(seed int64) *World {
	ctx, cancel := context.WithCancel(context.Background())
	w := &World{
		byIP:       map[string]*Inst{},
		Rng:        rand.New(rand.NewSource(seed)),
		Cut:        map[[2]int]bool{},
		CommitTime: map[GTID]time.Time{},
		Acked:      Set{},
		Unknown:    map[string]int{},
		Ctx:        ctx,
		cancel:     cancel,
		Tick:       20 * time.Millisecond,
		Log:        &strings.Builder{},
		Start:      time.Now(),
	}
	w.Latency = func(*Inst, string) time.Duration {
		return time.Duration(w.Rng.Intn(4)) * time.Millisecond
	}
	return w
}

// Logf appends to the trace; Mu must be held.
func (w *World) Logf(f string, a ...any) {
	if w.Log.Len() > 4<<20 {
		return
	}
	fmt.Fprintf(w.Log, "%9.3f ", time.Since(w.Start).Seconds())
	fmt.Fprintf(w.Log, f, a...)
	w.Log.WriteByte('\n')
}

// NewUUID makes a server uuid.
func (w *World) NewUUID() string {
	var b [16]byte
	w.Rng.Read(b[:])
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:16])
}

// Add adds an instance, initialized and stopped.
func (w *World) Add(name, ip, host string, serverID int, ver string) *Inst {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	i := &Inst{W: w, Index: len(w.Insts), Name: name, IP: ip, Host: host, ServerID: serverID, Ver: ver,
		CtlReach: true, conns: map[uint64]*Conn{}, DelayOverride: -1}
	i.initData()
	w.Insts = append(w.Insts, i)
	w.byIP[ip] = i
	return i
}

func (i *Inst) initData() {
	i.UUID = i.W.NewUUID()
	i.Executed = Set{}
	i.Purged = Set{}
	i.Binlog = nil
	i.nextN = 1
	i.Relay = nil
	i.Retrieved = Set{}
	i.Repl = nil
	i.CloneState = ""
	i.BinlogNames = []string{"binlog.000001"}
}

func (w *World) emit(e Event) {
	e.At = time.Now()
	if w.Hook != nil {
		w.Hook(e)
	}
}

func (w *World) sleep(d time.Duration) bool {
	if d <= 0 {
		return w.Ctx.Err() == nil
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return true
	case <-w.Ctx.Done():
		return false
	}
}

// StartInst boots an instance (Mu held).
func (i *Inst) StartInst() {
	if i.Up {
		return
	}
	i.Up = true
	i.Hung = false
	i.Epoch++
	i.ReadOnly, i.SuperReadOnly = true, true
	i.ReadOnlySince = time.Now()
	i.SemiMaster, i.WaitCount, i.SemiTimeout, i.SemiSlave = false, 1, 10000, false
	i.LocalInfile = false
	i.IOEnabled, i.IOConn, i.SQLRunning = false, false, false
	i.IOErrno, i.IOErr = 0, ""
	i.waiting = nil
	i.roWait = 0
	i.RestartedAt = time.Now()
	// binlog recovery: everything in the binary log is committed
	for _, g := range i.Binlog {
		if !i.Executed.Has(g) {
			i.Executed.Add(g)
			i.W.emit(Event{Kind: "commit-recovered", Inst: i, GTID: g})
		}
	}
	n := len(i.BinlogNames)
	i.BinlogNames = append(i.BinlogNames, nextBinlog(i.BinlogNames[n-1]))
	i.W.Version++
	i.W.emit(Event{Kind: "start", Inst: i})
}

func nextBinlog(s string) string {
	var n int
	_, _ = fmt.Sscanf(s, "binlog.%d", &n)
	return fmt.Sprintf("binlog.%06d", n+1)
}

// RotateBinlog starts a new binlog file (Mu held).
func (i *Inst) RotateBinlog() {
	i.BinlogNames = append(i.BinlogNames, nextBinlog(i.BinlogNames[len(i.BinlogNames)-1]))
}

// StopInst crashes or shuts down an instance (Mu held).
func (i *Inst) StopInst() {
	if !i.Up {
		return
	}
	i.Up = false
	i.W.Version++
	i.W.emit(Event{Kind: "crash", Inst: i})
	for _, t := range i.waiting {
		t.broken = true
		t.done = true
		t.err = errors.New("server has gone away")
	}
	i.waiting = nil
	for _, c := range i.conns {
		c.Dead = true
		if c.wire != nil {
			_ = c.wire.Close()
		}
	}
	i.conns = map[uint64]*Conn{}
	i.IOConn = false
}

// Wipe makes the instance a freshly initialized one (Mu held, stopped).
func (i *Inst) Wipe() {
	if i.Up {
		panic("wipe of a running instance")
	}
	i.initData()
	i.W.Version++
	i.W.emit(Event{Kind: "wipe", Inst: i})
}

// CutLink cuts or restores a link between instances (Mu held).
func (w *World) CutLink(a, b int, cut bool) {
	if cut {
		w.Cut[[2]int{a, b}] = true
		w.Cut[[2]int{b, a}] = true
	} else {
		delete(w.Cut, [2]int{a, b})
		delete(w.Cut, [2]int{b, a})
	}
	w.Version++
}

// CloneData replaces the data of i by that of donor, and restarts i (Mu held).
func (i *Inst) CloneData(donor *Inst) {
	i.StopInst()
	i.Executed = donor.Executed.Clone()
	i.Purged = donor.Executed.Clone()
	i.Binlog = nil
	i.Relay = nil
	i.Retrieved = Set{}
	i.Repl = nil
	i.CloneState = "Completed"
	i.StartInst()
}

// PurgeBinlog purges every binlog transaction already executed (Mu held).
func (i *Inst) PurgeBinlog(keep int) {
	if len(i.Binlog) <= keep {
		return
	}
	cut := len(i.Binlog) - keep
	var rest []GTID
	for k, g := range i.Binlog {
		if k < cut && i.Executed.Has(g) {
			i.Purged.Add(g)
		} else {
			rest = append(rest, g)
		}
	}
	i.Binlog = rest
	for _, x := range i.W.Insts {
		if x.ioSrc == i {
			x.ioPos = 0
			if x.IOConn && !i.Purged.Subset(x.Executed.Union(x.Retrieved)) {
				// the dump thread hits purged logs: the replica has to reconnect
				x.IOConn = false
			}
		}
	}
	if len(i.BinlogNames) > 1 {
		i.BinlogNames = i.BinlogNames[1:]
	}
	i.W.Version++
}

// Waiting is the number of sessions waiting for semi-sync acknowledgments (Mu held).
func (i *Inst) Waiting() int {
	n := 0
	for _, t := range i.waiting {
		if !t.done {
			n++
		}
	}
	return n
}

// Have is everything the instance holds: executed or in its relay log (Mu held).
func (i *Inst) Have() Set {
	s := i.Executed.Clone()
	for _, g := range i.Relay {
		s.Add(g)
	}
	return s
}

// UserConns lists the connections of i (Mu held), oldest first.
func (i *Inst) UserConns() []*Conn {
	var l []*Conn
	for _, c := range i.conns {
		l = append(l, c)
	}
	sort.Slice(l, func(a, b int) bool { return l[a].ID < l[b].ID })
	return l
}

// OpenConn opens a client connection that does not use the wire.
func (i *Inst) OpenConn(user, host string) (*Conn, error) {
	i.W.Mu.Lock()
	defer i.W.Mu.Unlock()
	if !i.Up || i.Hung {
		return nil, errors.New("connection refused")
	}
	i.W.connSeq++
	c := &Conn{ID: i.W.connSeq, User: user, Host: host, Inst: i, Epoch: i.Epoch, Since: time.Now()}
	i.conns[c.ID] = c
	return c, nil
}

// CloseConn closes a client connection.
func (c *Conn) CloseConn() {
	c.Inst.W.Mu.Lock()
	defer c.Inst.W.Mu.Unlock()
	c.drop()
}

func (c *Conn) drop() {
	if c.Dead {
		return
	}
	c.Dead = true
	c.InTx = false
	delete(c.Inst.conns, c.ID)
}

// Alive tells whether the connection still works.
func (c *Conn) Alive() bool {
	c.Inst.W.Mu.Lock()
	defer c.Inst.W.Mu.Unlock()
	return !c.Dead && c.Inst.Up
}

var errReadOnly = &SQLError{1290, "The MySQL server is running with the --super-read-only option so it cannot execute this statement"}

// Commit runs one transaction. It returns nil when the commit was acknowledged
// to the client.
func (c *Conn) Commit(ctx context.Context) (GTID, error) {
	i := c.Inst
	w := i.W
	w.Mu.Lock()
	for {
		if c.Dead || !i.Up {
			w.Mu.Unlock()
			return GTID{}, errors.New("connection lost")
		}
		if i.ReadOnly || i.SuperReadOnly {
			w.Mu.Unlock()
			return GTID{}, errReadOnly
		}
		if i.roWait == 0 {
			break
		}
		w.Mu.Unlock()
		if !w.sleep(w.Tick) || ctx.Err() != nil {
			return GTID{}, errors.New("client gave up")
		}
		w.Mu.Lock()
	}
	g := GTID{i.UUID, i.nextN}
	i.nextN++
	i.Binlog = append(i.Binlog, g)
	w.CommitTime[g] = time.Now()
	t := &tx{g: g, acks: map[int]bool{}, conn: c, start: time.Now()}
	if !i.SemiMaster {
		i.Executed.Add(g)
		w.ack(i, t)
		w.Mu.Unlock()
		return g, nil
	}
	i.waiting = append(i.waiting, t)
	for !t.done {
		w.Mu.Unlock()
		if !w.sleep(w.Tick) || ctx.Err() != nil {
			// the client went away; the session keeps waiting on the server
			w.Mu.Lock()
			t.broken = true
			w.Mu.Unlock()
			return g, errors.New("client gave up")
		}
		w.Mu.Lock()
	}
	err := t.err
	w.Mu.Unlock()
	return g, err
}

func (w *World) ack(i *Inst, t *tx) {
	t.done = true
	if t.broken {
		return
	}
	t.acked = true
	w.Acked.Add(t.g)
	w.AckedLog = append(w.AckedLog, Ack{t.g, i.Index, time.Now()})
	w.emit(Event{Kind: "ack", Inst: i, GTID: t.g})
}

// ErrantCommit executes a transaction locally, without acknowledgment (Mu held).
func (i *Inst) ErrantCommit() GTID {
	g := GTID{i.UUID, i.nextN}
	i.nextN++
	i.Binlog = append(i.Binlog, g)
	i.Executed.Add(g)
	i.W.CommitTime[g] = time.Now()
	i.W.Version++
	return g
}

// Run starts the replication pump.
func (w *World) Run() {
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		for w.sleep(w.Tick) {
			w.Mu.Lock()
			w.step()
			if w.AfterStep != nil {
				w.AfterStep()
			}
			w.Mu.Unlock()
		}
	}()
}

// Close stops everything and waits for the connections to end.
func (w *World) Close() {
	w.cancel()
	w.Mu.Lock()
	for _, i := range w.Insts {
		for _, c := range i.conns {
			if c.wire != nil {
				_ = c.wire.Close()
			}
		}
	}
	w.Mu.Unlock()
	w.wg.Wait()
}

// WireConns counts the open connections of the given user ("" = all) (Mu held).
func (w *World) WireConns(user string) int {
	n := 0
	for _, i := range w.Insts {
		for _, c := range i.conns {
			if c.wire != nil && (user == "" || c.User == user) {
				n++
			}
		}
	}
	return n
}

// FindHost finds an instance by host name or address.
func (w *World) FindHost(h string) *Inst {
	for _, i := range w.Insts {
		if i.Host == h || i.IP == h {
			return i
		}
	}
	return nil
}

func (w *World) step() {
	now := time.Now()
	for _, r := range w.Insts {
		w.stepIO(r, now)
	}
	for _, r := range w.Insts {
		if !r.Up || !r.SQLRunning || now.Before(r.ApplyPausedUntil) {
			continue
		}
		n := 8
		for len(r.Relay) > 0 && n > 0 {
			g := r.Relay[0]
			r.Relay = r.Relay[1:]
			if !r.Executed.Has(g) {
				r.Executed.Add(g)
				r.Binlog = append(r.Binlog, g)
			}
			n--
		}
	}
	for _, p := range w.Insts {
		if !p.Up || len(p.waiting) == 0 {
			continue
		}
		var rest []*tx
		for _, t := range p.waiting {
			if t.done {
				continue
			}
			for _, r := range w.Insts {
				if r != p && r.Up && r.IOConn && r.ioSrc == p && r.ioSemi && !t.acks[r.Index] && r.has(t.g) {
					t.acks[r.Index] = true
				}
			}
			switch {
			case !p.SemiMaster:
				p.Executed.Add(t.g)
				w.ack(p, t)
			case len(t.acks) >= p.WaitCount:
				p.Executed.Add(t.g)
				w.ack(p, t)
			case now.Sub(t.start) > time.Duration(p.SemiTimeout)*time.Millisecond:
				p.Executed.Add(t.g)
				w.ack(p, t)
			default:
				rest = append(rest, t)
			}
		}
		p.waiting = rest
	}
}

func (i *Inst) has(g GTID) bool {
	if i.Executed.Has(g) {
		return true
	}
	return i.Retrieved.Has(g)
}

func (w *World) stepIO(r *Inst, now time.Time) {
	if !r.Up || !r.IOEnabled || r.Repl == nil {
		if r.IOConn {
			r.IOConn = false
			w.Version++
		}
		return
	}
	src := w.FindHost(r.Repl.Host)
	ok := src != nil && src != r && src.Up && !src.Hung && !w.Cut[[2]int{src.Index, r.Index}]
	if ok {
		pw, known := src.Auth(r.Repl.User)
		if !known || pw != r.Repl.Password || r.Repl.Port != 3306 && !src.External {
			ok = false
			r.IOErrno, r.IOErr = 1045, "Access denied"
		}
	}
	if !ok {
		if r.IOConn {
			r.IOConn = false
			w.Version++
		}
		return
	}
	if !r.IOConn || r.ioSrc != src || r.ioSrcEp != src.Epoch {
		if !src.Purged.Subset(r.Executed.Union(r.Retrieved)) {
			r.IOEnabled = false
			r.IOConn = false
			r.IOErrno, r.IOErr = 1236, "the source has purged binary logs containing GTIDs that the replica requires"
			w.Version++
			w.emit(Event{Kind: "io-1236", Inst: r})
			return
		}
		r.IOConn = true
		r.IOErrno, r.IOErr = 0, ""
		r.ioSrc, r.ioSrcEp = src, src.Epoch
		r.ioPos = 0
		r.ioSemi = r.SemiSlave
		w.Version++
	}
	if now.Before(r.IOPausedUntil) {
		return
	}
	n := 8
	for r.ioPos < len(src.Binlog) && n > 0 {
		g := src.Binlog[r.ioPos]
		r.ioPos++
		if r.has(g) {
			continue
		}
		r.Relay = append(r.Relay, g)
		r.Retrieved.Add(g)
		n--
	}
}

type nopAddr string

func (a nopAddr) Network() string { return "tcp" }
func (a nopAddr) String() string  { return string(a) }

// InstallDialer routes every connection of the MySQL driver to this world.
// from is the source name; a custom one may block connections.
func (w *World) InstallDialer() {
	mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
		host, port, err := net.SplitHostPort(addr)
		if err != nil {
			return nil, err
		}
		w.Mu.Lock()
		i := w.FindHost(host)
		if i == nil {
			w.Mu.Unlock()
			return nil, fmt.Errorf("dial %s: no such host", addr)
		}
		if port != "33062" && port != "3306" {
			w.Mu.Unlock()
			return nil, fmt.Errorf("dial %s: connection refused", addr)
		}
		for !i.CtlReach {
			w.Mu.Unlock()
			t := time.NewTimer(100 * time.Millisecond)
			select {
			case <-ctx.Done():
				t.Stop()
				return nil, ctx.Err()
			case <-w.Ctx.Done():
				t.Stop()
				return nil, errors.New("world closed")
			case <-t.C:
			}
			w.Mu.Lock()
		}
		if !i.Up || w.Ctx.Err() != nil {
			w.Mu.Unlock()
			return nil, fmt.Errorf("dial %s: connection refused", addr)
		}
		a, b := net.Pipe()
		w.connSeq++
		c := &Conn{ID: w.connSeq, Inst: i, Epoch: i.Epoch, Host: "10.9.9.9:5000", wire: b, Since: time.Now(), gen: w.Gen}
		i.conns[c.ID] = c
		w.wg.Add(1)
		w.Clients++
		w.Mu.Unlock()
		go func() {
			defer w.wg.Done()
			w.serve(c)
		}()
		return &clientEnd{Conn: a, w: w}, nil
	})
}

// ServeTCP serves the instance on its address until the world ends.
func (w *World) ServeTCP(i *Inst, port int) error {
	ln, err := net.Listen("tcp", net.JoinHostPort(i.IP, fmt.Sprint(port)))
	if err != nil {
		return err
	}
	context.AfterFunc(w.Ctx, func() { _ = ln.Close() })
	go func() {
		for {
			b, err := ln.Accept()
			if err != nil {
				return
			}
			w.Mu.Lock()
			if !i.Up || w.Ctx.Err() != nil {
				w.Mu.Unlock()
				_ = b.Close()
				continue
			}
			w.connSeq++
			c := &Conn{ID: w.connSeq, Inst: i, Epoch: i.Epoch, Host: b.RemoteAddr().String(), wire: b, Since: time.Now(), gen: w.Gen}
			i.conns[c.ID] = c
			w.wg.Add(1)
			w.Mu.Unlock()
			go func() {
				defer w.wg.Done()
				w.serve(c)
			}()
		}
	}()
	return nil
}

// clientEnd is the driver's end of a connection.
type clientEnd struct {
	net.Conn
	w    *World
	once sync.Once
}

func (c *clientEnd) Close() error {
	c.once.Do(func() {
		c.w.Mu.Lock()
		c.w.Clients--
		c.w.Mu.Unlock()
	})
	return c.Conn.Close()
}

func (w *World) serve(c *Conn) {
	i := c.Inst
	defer func() {
		_ = c.wire.Close()
		w.Mu.Lock()
		c.drop()
		w.Mu.Unlock()
	}()
	if !w.waitAnswer(c) {
		return
	}
	wc := &wconn{c: c.wire, r: bufio.NewReader(c.wire)}
	if w.Attrs {
		wc.attrs = func(a map[string]string) { c.pid = a["_pid"] }
	}
	_ = serveWire(wc, i.Ver, c.ID, i.Auth, func(user string) Handler {
		w.Mu.Lock()
		c.User = user
		w.Mu.Unlock()
		return func(stmt string) (*Result, error) { return w.exec(c, stmt) }
	})
}

// waitAnswer blocks while the instance is hung or unreachable.
func (w *World) waitAnswer(c *Conn) bool {
	for {
		w.Mu.Lock()
		dead := c.Dead || !c.Inst.Up
		blocked := c.Inst.Hung || !c.Inst.CtlReach
		w.Mu.Unlock()
		if dead || w.Ctx.Err() != nil {
			return false
		}
		if !blocked {
			return true
		}
		if !w.sleep(100 * time.Millisecond) {
			return false
		}
	}
}

// ConnectedTo tells whether the IO thread of i is connected to p (Mu held).
func (i *Inst) ConnectedTo(p *Inst) bool {
	return i.Up && p.Up && i.IOConn && i.ioSrc == p && i.ioSrcEp == p.Epoch
}
