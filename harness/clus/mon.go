package clus

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"slices"
	"strings"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"verifharness/mysim"
)

// Mon holds the online monitors of one scenario. Everything is guarded by
// World.Mu.
type Mon struct {
	s      *Sim
	events map[string]int
	agents int
	closed bool
	// SQLFault injects faults in the controller's statements.
	SQLFault func(i *mysim.Inst, stmt, when string) error
	// Unsafe is set when the scenario destroyed more copies than MOCO promises
	// to survive; durability is not judged after that.
	Unsafe string

	// current round of the manager process
	round     string
	S         time.Time
	errS      int64 // failed rounds before this one
	acted     bool
	rstable   bool
	rstate    string
	rreq      bool
	rlabels   bool // every pod had the label of its role
	rdelay    bool
	rExec     mysim.Set // executed set of the primary at S
	rfault    bool      // a fault was injected in this round
	pfaults   int       // faults injected on the primary's statements in this round
	disturbed time.Time
	Rounds    int
	stableRun int

	// continuity of the ground truth
	sig       string
	sigSince  time.Time
	sigSeq    int // number of changes of the ground truth
	sigSeqS   int // sigSeq when the round began
	state     string
	observing bool

	lastNotAnswer  []time.Time
	lastAnswer     []time.Time
	lastDown       []time.Time
	lastReady      []time.Time
	lastNotErrant  []time.Time
	lastErrant     []time.Time
	lastOK         []time.Time
	lastNonEmpty   []time.Time
	lastEmpty      []time.Time
	lastNotWaiting []time.Time
	lastComputable time.Time // when errant replicas could last be computed
	lastPrimBad    time.Time
	lastPrimTruly  time.Time
	lastReq        time.Time
	lastNotDelay   time.Time
	lastPurge      time.Time
	lastSpecSafe   time.Time // last time the spec allowed a writable primary
	lastCandNever  time.Time
	indexChangedAt time.Time

	writableAt time.Time
	lastScale  time.Time
	statesSeen map[string]int
	trans      []string
	acks       int
	Switches   int
	Failovers  int
	viol       int
	// allowUserEdit marks writes by the environment
	env bool
	// freeze stops the sampling while a write is being judged
	freeze bool
}

func newMon(s *Sim) *Mon {
	return &Mon{s: s, events: map[string]int{}, statesSeen: map[string]int{}, sigSince: time.Now()}
}

func (m *Mon) violate(prop, rule, detail string) {
	if m.closed && prop != "C14" {
		return
	}
	m.viol++
	s := m.s
	s.W.Logf("VIOLATION %s %s: %s", prop, rule, detail)
	s.Rep.Violate(prop, rule, detail, s.Case, s.W.Log.String(), "")
}

func (m *Mon) count(name string) { m.s.Rep.Count(name, 1) }

func grow(l []time.Time, n int) []time.Time {
	for len(l) < n {
		l = append(l, time.Time{})
	}
	return l
}

func (m *Mon) answering(i int) bool {
	in := m.s.W.Insts[i]
	return in.Up && !in.Hung && in.CtlReach && m.s.T.Pods[i].Exists
}

func (m *Mon) primOK() bool {
	s := m.s
	p := s.T.Index
	if p >= len(s.kub) || !m.answering(p) {
		return false
	}
	return !m.lost()
}

// lost: the primary has no data although a replica has.
func (m *Mon) lost() bool {
	s := m.s
	p := s.T.Index
	if m.answering(p) && !s.W.Insts[p].Executed.Empty() {
		return false
	}
	for i := range s.T.Replicas {
		if i != p && m.status(i) && !s.W.Insts[i].Executed.Empty() {
			return true
		}
	}
	return false
}

// status: MOCO can get a usable status of the instance.
func (m *Mon) status(i int) bool {
	if i >= len(m.s.kub) || !m.answering(i) {
		return false
	}
	if i != m.s.T.Index && m.s.W.Insts[i].Waiting() > 0 {
		return false
	}
	return true
}

// errant is the documented definition: the replica has executed transactions
// the primary has not (those the primary itself originated do not count). When
// the primary is down or empty, what is recorded in the status stands.
func (m *Mon) errant(i int) bool {
	s := m.s
	p := s.T.Index
	if i == p || p >= len(s.kub) {
		return false
	}
	pi := s.W.Insts[p]
	if m.answering(p) && !pi.Executed.Empty() {
		if !m.answering(i) {
			return false
		}
		d := s.W.Insts[i].Executed.Minus(pi.Executed)
		for _, u := range d.UUIDs() {
			if u != pi.UUID {
				return true
			}
		}
		return false
	}
	return slices.Contains(s.T.ErrantList, i)
}

func (m *Mon) request() bool {
	p := m.s.T.Index
	if p >= len(m.s.T.Pods) {
		return false
	}
	t := m.s.T.Pods[p]
	return t.Exists && (t.Deleting || t.Demote)
}

func (m *Mon) delayed() bool {
	s := m.s
	if s.T.MaxDelay <= 0 {
		return false
	}
	for i := range s.T.Replicas {
		if i == s.T.Index || i >= len(s.kub) || !m.answering(i) || s.W.Insts[i].Repl == nil {
			continue
		}
		if d, ok := s.W.Insts[i].SecondsBehind().(int64); ok && d > s.T.MaxDelay {
			return true
		}
	}
	return false
}

func (m *Mon) podsMissing() bool {
	n := 0
	for i := range m.s.T.Pods {
		if m.s.T.Pods[i].Exists {
			n++
		}
	}
	return n != m.s.T.Replicas
}

// okReplica: ready, read-only, configured to the primary, no errant transactions.
func (m *Mon) okReplica(i int) bool {
	s := m.s
	in := s.W.Insts[i]
	return i != s.T.Index && m.status(i) && s.T.Pods[i].Ready && in.SuperReadOnly && in.Repl != nil &&
		in.Repl.Host == s.hostname(s.T.Index) && !m.errant(i)
}

// connected counts the replicas of the cluster connected to the primary.
func (m *Mon) connected() int {
	s := m.s
	n := 0
	for i := range s.T.Replicas {
		if i != s.T.Index && i < len(s.kub) && s.W.Insts[i].ConnectedTo(s.W.Insts[s.T.Index]) {
			n++
		}
	}
	return n
}

// decide is the documented definition of the states (docs/clustering.md).
func (m *Mon) decide() string {
	s := m.s
	t := &s.T
	p := t.Index
	if t.Offline {
		return "Offline"
	}
	if m.podsMissing() || len(s.kub) < t.Replicas {
		return "PodsMissing"
	}
	pi := s.W.Insts[p]
	ans := m.answering(p)
	if t.Intermediate && !t.Cloned {
		switch {
		case !ans:
			return "Cloning"
		case pi.CloneState != "" && pi.CloneState != "Completed":
			return "Cloning"
		case pi.CloneState == "" && pi.Executed.Empty():
			return "Cloning"
		}
	}
	if t.Restore && !t.Restored {
		return "Restoring"
	}
	role := ans && (t.Intermediate && pi.SuperReadOnly || !t.Intermediate && !pi.ReadOnly)
	ok, ready := 0, 0
	for i := range t.Replicas {
		if t.Pods[i].Ready {
			ready++
		}
		if i != p && m.okReplica(i) {
			ok++
		}
	}
	if ready == t.Replicas && ok == t.Replicas-1 && role && m.connected() == t.Replicas-1 {
		return "Healthy"
	}
	lost := m.lost()
	if t.Pods[p].Ready && !lost && role && m.connected() >= t.Replicas/2 && ok >= t.Replicas/2 && ok != t.Replicas-1 {
		return "Degraded"
	}
	if !ans || lost {
		run := 0
		for i := range t.Replicas {
			if i == p || !m.status(i) {
				continue
			}
			in := s.W.Insts[i]
			if in.Repl != nil && !m.errant(i) && !in.Executed.Empty() {
				run++
			}
		}
		if run > t.Replicas/2 {
			return "Failed"
		}
		return "Lost"
	}
	return "Incomplete"
}

// observe samples the ground truth; called after every change.
func (m *Mon) observe() {
	if m == nil {
		return
	}
	s := m.s
	if m.closed || m.freeze || s.T.Gone {
		return
	}
	now := time.Now()
	n := len(s.kub)
	m.lastNotAnswer = grow(m.lastNotAnswer, n)
	m.lastAnswer = grow(m.lastAnswer, n)
	m.lastDown = grow(m.lastDown, n)
	m.lastReady = grow(m.lastReady, n)
	m.lastNotErrant = grow(m.lastNotErrant, n)
	m.lastErrant = grow(m.lastErrant, n)
	m.lastOK = grow(m.lastOK, n)
	m.lastNonEmpty = grow(m.lastNonEmpty, n)
	m.lastEmpty = grow(m.lastEmpty, n)
	m.lastNotWaiting = grow(m.lastNotWaiting, n)
	if p := s.T.Index; p < n && m.answering(p) && !s.W.Insts[p].Executed.Empty() {
		m.lastComputable = now
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d/%d %v%v%v%v%v %v|", s.T.Index, s.T.Replicas, s.T.Offline, s.T.Intermediate, s.T.Restore, s.T.Restored, s.T.Cloned, s.T.ErrantList)
	for i := range n {
		in := s.W.Insts[i]
		a := m.answering(i)
		if a {
			m.lastAnswer[i] = now
		} else {
			m.lastNotAnswer[i] = now
			m.lastDown[i] = now
		}
		if s.T.Pods[i].Ready {
			m.lastReady[i] = now
		}
		if i == s.T.Index || in.Waiting() == 0 || !a {
			m.lastNotWaiting[i] = now
		}
		e := m.errant(i)
		if e {
			if m.lastErrant[i].IsZero() || m.lastErrant[i].Before(m.lastNotErrant[i]) {
				m.count("errant_seen")
			}
			m.lastErrant[i] = now
		} else {
			m.lastNotErrant[i] = now
		}
		if in.Executed.Empty() {
			m.lastEmpty[i] = now
		} else {
			m.lastNonEmpty[i] = now
		}
		if i != s.T.Index && a && in.Repl != nil && !e && !in.Executed.Empty() {
			m.lastOK[i] = now
		}
		h := ""
		if in.Repl != nil {
			h = in.Repl.Host
		}
		fmt.Fprintf(&b, "%v%v%v%v%v%v%v%s%v%v%s|", s.T.Pods[i].Exists, s.T.Pods[i].Ready, a, m.status(i), e, in.SuperReadOnly, in.ReadOnly, h,
			i != s.T.Index && s.T.Index < n && in.ConnectedTo(s.W.Insts[s.T.Index]), in.Executed.Empty(), in.CloneState)
	}
	req, del := m.request(), m.delayed()
	fmt.Fprintf(&b, "%v%v", req, del)
	if !m.primOK() {
		m.lastPrimBad, m.lastPrimTruly = now, now
	}
	if req {
		m.lastReq = now
	}
	if !del {
		m.lastNotDelay = now
	}
	if !s.T.Intermediate && !s.T.Offline && (!s.T.Restore || s.T.Restored) {
		m.lastSpecSafe = now
	}
	if b.String() != m.sig {
		m.sig = b.String()
		m.sigSince = now
		m.sigSeq++
		st := m.decide()
		if st != m.state {
			s.W.Logf("STATE %s -> %s", m.state, st)
			m.state = st
			m.statesSeen[st]++
			if len(m.trans) == 0 || m.trans[len(m.trans)-1] != st {
				m.trans = append(m.trans, st)
			}
		}
	}
}

// disturb notes an injected failure: the current round is not "quiet".
func (m *Mon) disturb() {
	m.sigSince = time.Now()
	m.sigSeq++
	m.disturbed = time.Now()
	m.rfault = true
}

func (m *Mon) faulted(i int) {
	if i < len(m.lastNotAnswer) {
		m.lastNotAnswer[i] = time.Now()
	}
	if i == m.s.T.Index {
		m.lastPrimBad = time.Now()
		m.pfaults++
	}
}

// stable: the ground truth has not changed since before the round began.
func (m *Mon) stable() bool { return !m.S.IsZero() && m.sigSeq == m.sigSeqS }

// touch is called on every action of the controller, to find round boundaries.
func (m *Mon) touch() {
	if m.closed {
		return
	}
	n := m.s.checks()
	if n == 0 {
		// what a stopped process had under way; the next one has not begun
		return
	}
	id := fmt.Sprintf("%d.%d", m.s.mgrEpoch, n)
	if id == m.round {
		return
	}
	if m.round != "" && strings.HasPrefix(m.round, fmt.Sprintf("%d.", m.s.mgrEpoch)) {
		m.roundEnd()
	}
	m.round = id
	m.Rounds++
	m.observe()
	m.S = time.Now()
	m.sigSeqS = m.sigSeq
	m.errS = m.s.errors()
	m.acted = false
	m.rstable = false
	m.rstate = ""
	m.pfaults = 0
	m.rfault = false
	m.rExec = mysim.Set{}
	if m.s.T.Index < len(m.s.kub) {
		m.rExec = m.s.W.Insts[m.s.T.Index].Executed.Clone()
	}
	m.count("rounds")
}

func gauge(v *prometheus.GaugeVec, s *Sim) float64 {
	var d dto.Metric
	g, err := v.GetMetricWithLabelValues(s.Name, ns)
	if err != nil {
		return -1
	}
	_ = g.Write(&d)
	return d.GetGauge().GetValue()
}

// roundEnd judges a finished round during which nothing changed.
func (m *Mon) roundEnd() {
	s := m.s
	m.observe()
	if !m.stable() || m.rfault || !m.indexChangedAt.Before(m.S) {
		m.stableRun = 0
		return
	}
	if m.state == "PodsMissing" || s.T.Gone || s.paused {
		m.stableRun = 0
		return
	}
	m.stableRun++
	m.count("stable_rounds")
	m.count("stable_rounds_" + m.state)
	s.Rep.Sig("state:" + m.sigShape())
	// C12: status and gauges
	exp := expectConds(m.state)
	for typ, want := range exp {
		got, reason := s.Cond(typ)
		if got != want {
			m.violate("C12", "condition does not reflect the state", fmt.Sprintf("state %s: condition %s=%s, documented %s", m.state, typ, got, want))
		}
		if reason != m.state {
			m.violate("C12", "condition reason does not name the state", fmt.Sprintf("state %s: condition %s has reason %s", m.state, typ, reason))
		}
	}
	if c, _ := s.Cond(mocov1beta2.ConditionClusteringActive); c != metav1.ConditionTrue {
		m.violate("C12", "clustering runs but is not reported as active", fmt.Sprintf("ClusteringActive=%q", c))
	}
	ready := 0
	for i := range s.T.Pods {
		if s.T.Pods[i].Ready {
			ready++
		}
	}
	if s.T.Status.SyncedReplicas != ready {
		m.violate("C12", "syncedReplicas", fmt.Sprintf("%d pods are ready, status says %d", ready, s.T.Status.SyncedReplicas))
	}
	var errs []int
	for i := range s.T.Replicas {
		if i < len(s.kub) && i != s.T.Index && m.errant(i) {
			errs = append(errs, i)
		}
	}
	got := slices.Clone(s.T.Status.ErrantReplicaList)
	slices.Sort(got)
	if !slices.Equal(got, errs) || s.T.Status.ErrantReplicas != len(errs) {
		m.violate("C12", "errant replica list", fmt.Sprintf("errant replicas %v, status has %v (%d)", errs, got, s.T.Status.ErrantReplicas))
		m.violate("C06", "errant replica list", fmt.Sprintf("errant replicas %v, status has %v (%d)", errs, got, s.T.Status.ErrantReplicas))
	}
	if s.T.Intermediate && m.state != "Cloning" && !s.T.Status.Cloned {
		m.violate("C12", "cloned not recorded", "state "+m.state)
	}
	bit := func(c metav1.ConditionStatus) float64 {
		if c == metav1.ConditionTrue {
			return 1
		}
		return 0
	}
	type gauged struct {
		name string
		v    *prometheus.GaugeVec
		want float64
	}
	var bg []gauged
	if b := s.T.Status.Backup; !s.backupAt.IsZero() && s.backupAt.Before(m.S) {
		m.count("backup_metrics")
		bg = []gauged{
			{"backup timestamp", metrics.BackupTimestamp, float64(b.Time.Unix())},
			{"backup elapsed", metrics.BackupElapsed, b.Elapsed.Seconds()},
			{"backup dump size", metrics.BackupDumpSize, float64(b.DumpSize)},
			{"backup binlog size", metrics.BackupBinlogSize, float64(b.BinlogSize)},
			{"backup workdir usage", metrics.BackupWorkDirUsage, float64(b.WorkDirUsage)},
			{"backup warnings", metrics.BackupWarnings, float64(len(b.Warnings))},
		}
	}
	for _, g := range append([]gauged{
		{"available", metrics.AvailableVec, bit(exp[mocov1beta2.ConditionAvailable])},
		{"healthy", metrics.HealthyVec, bit(exp[mocov1beta2.ConditionHealthy])},
		{"replicas", metrics.TotalReplicasVec, float64(s.T.Replicas)},
		{"ready_replicas", metrics.ReadyReplicasVec, float64(ready)},
		{"errant_replicas", metrics.ErrantReplicasVec, float64(len(errs))},
	}, bg...) {
		if v := gauge(g.v, s); v != g.want || math.IsNaN(v) {
			m.violate("C12", "metric "+g.name, fmt.Sprintf("state %s: metric %s=%v, want %v", m.state, g.name, v, g.want))
		}
	}
	// C13
	d := m.delayed()
	if s.T.MaxDelay > 0 && m.state != "Offline" {
		m.count(fmt.Sprintf("delay_rounds_%v", d))
		s.Rep.Sig(fmt.Sprintf("delay:%v/%s", d, m.sigShape()))
	}
	if m.state != "Offline" && s.T.Index < len(s.T.Pods) {
		if d && !s.T.Pods[s.T.Index].Prevent {
			m.violate("C13", "delayed replica but the primary pod may be deleted", fmt.Sprintf("maxDelay %d, primary %d has no prevent-delete annotation after a whole round", s.T.MaxDelay, s.T.Index))
		}
		if !d {
			for i := range s.T.Pods {
				if s.T.Pods[i].Prevent {
					m.violate("C13", "no delay but pod deletion is still prevented", fmt.Sprintf("pod %d keeps prevent-delete", i))
				}
			}
		}
	}
	// C06
	if m.state == "Degraded" && !m.request() || m.state == "Incomplete" {
		for _, i := range errs {
			m.count("errant_rounds")
			if s.T.Pods[i].Role != "" {
				m.violate("C06", "errant replica keeps a role label", fmt.Sprintf("instance %d is errant and labelled %s", i, s.T.Pods[i].Role))
			}
			// a round that failed may not have come to it
			if s.errors() == m.errS && m.stableRun > 1 && m.answering(i) && s.W.Insts[i].ConnectedTo(s.W.Insts[s.T.Index]) {
				m.violate("C06", "errant replica keeps replicating", fmt.Sprintf("instance %d is errant and still receives from %d after %d quiet rounds", i, s.T.Index, m.stableRun))
			}
		}
	}
	// C07: in a settled cluster the labels are the roles
	if m.state == "Healthy" && m.stableRun > 2 && !m.labelled() {
		m.violate("C07", "pod of a healthy cluster without the label of its role", m.labels())
	}
}

// labelled: every pod has the label of its role.
func (m *Mon) labelled() bool {
	for i := range m.s.T.Replicas {
		want := constants.RoleReplica
		if i == m.s.T.Index {
			want = constants.RolePrimary
		}
		if i >= len(m.s.T.Pods) || m.s.T.Pods[i].Role != want {
			return false
		}
	}
	return true
}

func (m *Mon) labels() string {
	var l []string
	for i := range m.s.T.Pods {
		l = append(l, m.s.T.Pods[i].Role)
	}
	return fmt.Sprintf("primary %d, labels %q", m.s.T.Index, l)
}

// liveness: a failed cluster must not stay so.
func (m *Mon) liveness() {
	m.observe()
	if m.state == "Failed" && time.Since(m.sigSince) > 150*time.Second && !m.s.paused && m.SQLFault == nil && m.s.APIFault == nil {
		for i := range m.s.kub {
			if m.s.W.Insts[i].ApplyPausedUntil.After(m.sigSince) {
				return
			}
		}
		// replicas that have each what the other lacks (a former primary that is back with
		// transactions nobody got, while the primary is down) are left to people
		var sets []mysim.Set
		for i := range m.s.kub {
			if in := m.s.W.Insts[i]; i != m.s.T.Index && m.answering(i) {
				x := in.Executed.Union(in.Retrieved)
				for _, y := range sets {
					if !x.Subset(y) && !y.Subset(x) {
						m.count("diverged_replicas")
						return
					}
				}
				sets = append(sets, x)
			}
		}
		m.count("failed_too_long")
		m.violate("C04", "no failover although the primary is gone and the replicas suffice", fmt.Sprintf("%v in state Failed; %s", time.Since(m.sigSince), m.sigShape()))
		m.violate("C11", "no failover although the primary is gone and the replicas suffice", m.sigShape())
	}
}

// sigShape is the abstract shape of the current state, for coverage.
func (m *Mon) sigShape() string {
	s := m.s
	var b strings.Builder
	b.WriteString(m.state)
	for i := range s.kub {
		c := "r"
		if i == s.T.Index {
			c = "P"
		}
		in := s.W.Insts[i]
		b.WriteString(" " + c)
		for _, f := range []struct {
			k string
			v bool
		}{{"-", !m.answering(i)}, {"n", !s.T.Pods[i].Ready}, {"e", m.errant(i)}, {"w", !in.ReadOnly}, {"0", in.Executed.Empty()}, {"c", in.Repl == nil}, {"d", s.T.Pods[i].Deleting || s.T.Pods[i].Demote}} {
			if f.v {
				b.WriteString(f.k)
			}
		}
	}
	return b.String()
}

func expectConds(state string) map[string]metav1.ConditionStatus {
	e := map[string]metav1.ConditionStatus{
		mocov1beta2.ConditionInitialized: metav1.ConditionTrue,
		mocov1beta2.ConditionAvailable:   metav1.ConditionFalse,
		mocov1beta2.ConditionHealthy:     metav1.ConditionFalse,
	}
	switch state {
	case "Cloning", "Restoring":
		e[mocov1beta2.ConditionInitialized] = metav1.ConditionFalse
	case "Healthy":
		e[mocov1beta2.ConditionAvailable] = metav1.ConditionTrue
		e[mocov1beta2.ConditionHealthy] = metav1.ConditionTrue
	case "Degraded":
		e[mocov1beta2.ConditionAvailable] = metav1.ConditionTrue
	}
	return e
}

type wctx struct{ idx int }

func (m *Mon) preWrite(verb, kind string) wctx {
	m.observe()
	return wctx{idx: m.s.T.Index}
}

var (
	reStopIO  = regexp.MustCompile(`(?i)^STOP (REPLICA|SLAVE) IO_THREAD$`)
	reStartR  = regexp.MustCompile(`(?i)^START (REPLICA|SLAVE)( IO_THREAD)?$`)
	reResetR  = regexp.MustCompile(`(?i)^RESET (REPLICA|SLAVE)( ALL)?$`)
	reSROon   = regexp.MustCompile(`(?i)^SET GLOBAL (super_)?read_only ?= ?(1|ON|'?true'?)$`)
	reROoff   = regexp.MustCompile(`(?i)^SET GLOBAL (super_)?read_only ?= ?(0|OFF|'?false'?)$`)
	reKillSQL = regexp.MustCompile(`(?i)^KILL `)
)

// act judges an intervention of the controller: what is one of sql, label,
// index, clone.
func (m *Mon) act(what string, i int, stmt string) {
	s := m.s
	if m.S.IsZero() {
		return
	}
	if !m.acted {
		m.acted = true
		m.rstable = m.stable()
		m.rstate = m.state
		m.rreq = m.request()
		m.rlabels = m.labelled()
		m.rdelay = m.delayed()
		if m.rstable {
			m.count("acts_judged_" + m.rstate)
		}
	}
	if what == "sql" && i != s.T.Index && i < len(m.lastNotWaiting) && m.lastNotWaiting[i].Before(m.S) {
		m.violate("C05", "an instance that hangs with waiting sessions was modified", fmt.Sprintf("%s on instance %d", stmt, i))
	}
	if !m.rstable {
		return
	}
	desc := fmt.Sprintf("%s on instance %d (%s) in a round that began in state %s", what, i, stmt, m.rstate)
	switch m.rstate {
	case "Offline", "Restoring", "Lost", "PodsMissing":
		m.violate("C05", "intervention in state "+m.rstate, desc)
	case "Healthy":
		if !m.rreq && !m.rlabels {
			// labelling a pod that was recreated
			if what == "index" || what == "clone" || what == "sql" && !reKillSQL.MatchString(stmt) {
				m.violate("C05", "intervention in a healthy cluster without a request", desc)
			}
		} else if !m.rreq {
			m.violate("C05", "intervention in a healthy cluster without a request", desc)
			if what == "index" {
				m.violate("C03", "primary changed without a request", desc)
			}
		} else if m.rdelay {
			m.violate("C13", "switchover while replication is delayed", desc)
		} else if what == "sql" && i != s.T.Index && m.indexChangedAt.Before(m.S) {
			m.violate("C05", "a replica was modified in a healthy cluster", desc)
		}
	case "Cloning":
		if what != "clone" {
			m.violate("C05", "intervention in state Cloning", desc)
		}
	case "Failed":
		if what == "clone" || what == "label" || what == "sql" && !reStopIO.MatchString(stmt) {
			m.violate("C05", "only a failover is applicable in state Failed", desc)
		}
	case "Degraded":
		if what == "index" && !m.rreq {
			m.violate("C03", "primary changed without a request", desc)
		}
		if what == "index" && m.rdelay {
			m.violate("C13", "switchover while replication is delayed", desc)
		}
	case "Incomplete":
		if what == "index" {
			m.violate("C04", "primary changed in state Incomplete", desc)
		}
	}
}

func isUserConn(c *mysim.Conn) bool {
	return !constants.MocoSystemUsers[c.User] && c.Host != "localhost" && c.User != "system user" && c.User != ""
}

// hook receives every event of the instances.
func (m *Mon) hook(e mysim.Event) {
	if m.closed {
		return
	}
	s := m.s
	i := e.Inst.Index
	if e.Inst == s.ext {
		return
	}
	switch e.Kind {
	case "sql-pre":
		if e.User != constants.AdminUser {
			return
		}
		if e.Old {
			// what a stopped process had under way
			s.W.Logf("SQL> %d %s (of a stopped process)", i, redact(e.Stmt))
			m.count("sql_late")
			return
		}
		m.touch()
		if mysim.IsMutating(e.Stmt) {
			s.W.Logf("SQL> %d %s", i, redact(e.Stmt))
			m.observe()
			if reResetR.MatchString(e.Stmt) && i == s.T.Index && len(e.Inst.Relay) > 0 && !s.T.Intermediate && m.Unsafe == "" {
				m.violate("C01", "transactions in the relay log of the new primary are thrown away", fmt.Sprintf("instance %d: %v", i, e.Inst.Relay))
			}
			m.act("sql", i, e.Stmt)
			m.count("sql_mutating")
		} else {
			m.count("sql_read")
		}
	case "sql":
		if e.User != constants.AdminUser || !mysim.IsMutating(e.Stmt) {
			return
		}
		if e.Err != nil {
			s.W.Logf("SQL< %d %s: %v", i, redact(e.Stmt), e.Err)
			return
		}
		m.touch()
		switch {
		case reROoff.MatchString(e.Stmt):
			m.madeWritable(i)
		case reStartR.MatchString(e.Stmt):
			m.startedReplica(i)
		}
		m.observe()
	case "ack":
		m.acks++
		m.count("acks")
		if s.T.Index != i && s.T.Index < len(s.kub) && m.Unsafe == "" {
			k := s.W.Insts[s.T.Index]
			if !k.Have().Has(e.GTID) {
				m.violate("C02", "write acknowledged by an instance that is not the primary", fmt.Sprintf("%v acknowledged by %d, the primary is %d and does not have it", e.GTID, i, s.T.Index))
			}
		}
		if e.Inst.SuperReadOnly {
			s.Rep.Note("ack on a read-only instance")
		}
		if n := s.T.Replicas; n > 1 && s.T.Index == i && m.Unsafe == "" && !e.Inst.SemiMaster && m.lastScale.Before(m.writableAt) {
			m.violate("C08", "write acknowledged without semi-synchronous replication", fmt.Sprintf("%v acknowledged by primary %d of a cluster of %d", e.GTID, i, n))
		}
	case "kill":
		m.count("kills")
		s.W.Logf("KILL on %d: %s@%s", i, e.User, e.Extra)
		if constants.MocoSystemUsers[e.User] || e.Extra == "localhost" || e.User == "system user" || systemUser(e.User) {
			m.violate("C16", "a connection MOCO must spare was killed", fmt.Sprintf("%s@%s on %d", e.User, e.Extra, i))
		}
		m.observe()
	case "crash", "start", "wipe", "commit-recovered", "io-1236":
		s.W.Logf("INST %d %s %v", i, e.Kind, e.GTID)
		m.observe()
	}
}

var systemUsers = []string{"moco-admin", "moco-agent", "moco-repl", "moco-clone-donor", "moco-exporter", "moco-backup"}

func systemUser(u string) bool { return slices.Contains(systemUsers, u) }

func redact(s string) string {
	return regexp.MustCompile(`(?i)PASSWORD = '[^']*'`).ReplaceAllString(s, "PASSWORD = '*'")
}

// madeWritable: an instance left the read-only mode by order of the controller.
func (m *Mon) madeWritable(i int) {
	s := m.s
	in := s.W.Insts[i]
	m.writableAt = time.Now()
	m.count("made_writable")
	s.Rep.Sig(fmt.Sprintf("writable n=%d primary=%d shape=%s", s.T.Replicas, i, m.sigShape()))
	if i != s.T.Index {
		m.violate("C02", "an instance other than the recorded primary was made writable", fmt.Sprintf("instance %d made writable, currentPrimaryIndex is %d", i, s.T.Index))
	}
	if m.lastSpecSafe.Before(m.S) {
		m.violate("C02", "made writable although the cluster is an intermediate, restoring or offline one", fmt.Sprintf("instance %d: intermediate=%v offline=%v restore=%v restored=%v", i, s.T.Intermediate, s.T.Offline, s.T.Restore, s.T.Restored))
	}
	for j := range s.T.Replicas {
		if j == i || j >= len(s.kub) || !m.lastNotAnswer[j].Before(m.S) || !m.lastErrant[j].Before(m.S) {
			continue
		}
		if o := s.W.Insts[j]; !o.SuperReadOnly && o.Waiting() == 0 && m.stableSince(j) {
			m.violate("C02", "two writable instances", fmt.Sprintf("instance %d made writable while reachable replica %d is not super_read_only", i, j))
		}
	}
	if m.Unsafe == "" {
		if d := s.W.Acked.Minus(in.Executed); !d.Empty() {
			m.violate("C01", "a primary that lacks acknowledged transactions was made writable", fmt.Sprintf("instance %d lacks %v", i, d))
		}
		m.count("durability_checks")
	}
	if in.RestartedAt.Before(m.S) {
		if n := s.T.Replicas; n > 1 {
			if !in.SemiMaster || in.WaitCount != n/2 {
				m.violate("C08", "primary made writable without proper semi-synchronous replication", fmt.Sprintf("instance %d of %d: enabled=%v wait_for_slave_count=%d", i, n, in.SemiMaster, in.WaitCount))
			}
			if in.SemiTimeout < 3600*1000 {
				m.violate("C08", "semi-sync timeout lets replication degrade to asynchronous", fmt.Sprintf("instance %d: timeout %d ms", i, in.SemiTimeout))
			}
		}
		if in.IOEnabled || in.SQLRunning {
			m.violate("C08", "primary made writable while still replicating", fmt.Sprintf("instance %d", i))
		}
		if len(in.Relay) > 0 && m.Unsafe == "" {
			m.violate("C01", "primary made writable with unapplied relay log", fmt.Sprintf("instance %d: %v", i, in.Relay))
		}
	}
}

// stableSince: instance j has not restarted since the round began.
func (m *Mon) stableSince(j int) bool { return m.s.W.Insts[j].RestartedAt.Before(m.S) }

// startedReplica: replication was started by the controller.
func (m *Mon) startedReplica(i int) {
	s := m.s
	in := s.W.Insts[i]
	c := in.Repl
	if c == nil {
		return
	}
	m.count("replica_started")
	s.Rep.Sig(fmt.Sprintf("replica n=%d i=%d p=%d inter=%v %s", s.T.Replicas, i, s.T.Index, s.T.Intermediate, m.sigShape()))
	if i == s.T.Index {
		if s.ext == nil || !m.lastInter().After(m.S) {
			m.violate("C08", "the primary was made a replica", fmt.Sprintf("instance %d replicates from %s", i, c.Host))
			return
		}
		if c.Host != s.ext.Host || c.Port != 3306 || c.User != "ext-donor" || c.Password != s.extPw || !c.Auto {
			m.violate("C08", "intermediate primary configured with a wrong source", fmt.Sprintf("%+v", *c))
		}
		if in.SemiSlave {
			m.violate("C08", "intermediate primary uses semi-sync", fmt.Sprintf("instance %d", i))
		}
		if !in.SuperReadOnly {
			m.violate("C02", "intermediate primary replicates while writable", fmt.Sprintf("instance %d", i))
		}
		return
	}
	if c.Host != s.hostname(s.T.Index) || c.Port != constants.MySQLPort || c.User != constants.ReplicationUser || c.Password != s.pw.Replicator() || !c.Auto {
		m.violate("C08", "replica configured with a wrong source", fmt.Sprintf("instance %d: %s:%d user %s auto=%v, primary is %s", i, c.Host, c.Port, c.User, c.Auto, s.hostname(s.T.Index)))
	}
	if in.SemiMaster {
		m.violate("C08", "replica keeps semi-sync source enabled", fmt.Sprintf("instance %d", i))
	}
	want := !s.T.Intermediate
	if in.SemiSlave != want && in.RestartedAt.Before(m.S) && m.specStable() {
		m.violate("C08", "replica semi-sync setting", fmt.Sprintf("instance %d: rpl_semi_sync_slave_enabled=%v, intermediate=%v", i, in.SemiSlave, s.T.Intermediate))
	}
	if !in.SuperReadOnly && in.RestartedAt.Before(m.S) {
		m.violate("C02", "replica started while writable", fmt.Sprintf("instance %d", i))
	}
	if m.errant(i) && m.lastNotErrant[i].Before(m.S) {
		m.violate("C06", "replication started on an errant replica", fmt.Sprintf("instance %d", i))
	}
	p := s.W.Insts[s.T.Index]
	if m.lastPurge.Before(m.S) && m.lastNotAnswer[s.T.Index].Before(m.S) && m.lastNotAnswer[i].Before(m.S) {
		m.count("purge_guard_checks")
		if d := p.Purged.Minus(in.Executed); !d.Empty() {
			m.violate("C10", "replication started although the primary has purged binlogs the replica needs", fmt.Sprintf("instance %d lacks %v", i, d))
		}
	}
}

// lastInter tells when the spec last had a replication source.
func (m *Mon) lastInter() time.Time {
	if m.s.T.Intermediate {
		return time.Now().Add(time.Second)
	}
	return m.s.interUntil.Add(time.Nanosecond)
}

// specStable: the spec was not edited in this round.
func (m *Mon) specStable() bool { return m.s.editedAt.Before(m.S) }

func (m *Mon) userEdit(*mocov1beta2.MySQLCluster) {
	if m.s.T.Intermediate {
		m.s.wasInter = true
	} else if m.s.wasInter {
		m.s.wasInter = false
		m.s.interUntil = time.Now()
	}
	m.s.editedAt = time.Now()
}

// cloneCalled: the controller asked an agent to clone.
func (m *Mon) cloneCalled(i int, r *agent.CloneRequest) {
	s := m.s
	m.touch()
	m.observe()
	in := s.W.Insts[i]
	s.W.Logf("CLONE> %d from %s:%d user %s", i, r.Host, r.Port, r.User)
	m.act("clone", i, "clone from "+r.Host)
	m.count("clone_calls")
	s.Rep.Sig(fmt.Sprintf("clone i=%d p=%d inter=%v %s", i, s.T.Index, s.T.Intermediate, m.sigShape()))
	if !in.Executed.Empty() && m.lastEmpty[i].Before(m.S) {
		m.violate("C09", "clone requested onto an instance that has data", fmt.Sprintf("instance %d has %v", i, in.Executed))
	}
	if !in.SuperReadOnly {
		m.violate("C09", "clone requested onto a writable instance", fmt.Sprintf("instance %d", i))
	}
	if i == s.T.Index {
		if !s.T.Intermediate && m.specStable() {
			m.violate("C09", "clone onto the primary of a cluster without a replication source", fmt.Sprintf("instance %d", i))
		}
		if s.ext != nil && (r.Host != s.ext.Host || r.Port != 3306 || r.User != "ext-donor" || r.Password != s.extPw || r.InitUser != "ext-init" || r.InitPassword != "initpw") {
			m.violate("C09", "initial clone with wrong source parameters", fmt.Sprintf("%s:%d user=%s init=%s", r.Host, r.Port, r.User, r.InitUser))
		}
		if s.T.Cloned {
			m.violate("C09", "initial clone repeated", "status.cloned is already true")
		}
		return
	}
	p := s.W.Insts[s.T.Index]
	if s.W.FindHost(r.Host) != p {
		m.violate("C09", "replica cloned from an instance other than the primary", fmt.Sprintf("instance %d from %s, primary %s", i, r.Host, p.IP))
	}
	if p.Executed.Empty() && m.lastNonEmpty[s.T.Index].Before(m.S) {
		m.violate("C09", "replica cloned from an empty primary", fmt.Sprintf("instance %d", i))
	}
	if r.Port != constants.MySQLAdminPort || r.User != constants.CloneDonorUser || r.Password != s.pw.Donor() || r.InitUser != constants.AdminUser || r.InitPassword != s.pw.Admin() {
		m.violate("C09", "clone with wrong credentials", fmt.Sprintf("%d user=%s init=%s", r.Port, r.User, r.InitUser))
	}
}

// podWritten: the controller changed a pod.
func (m *Mon) podWritten(i int, before, after PodTruth, _ wctx) {
	s := m.s
	s.W.Logf("API pod %d: role %q->%q prevent %v->%v demote %v->%v", i, before.Role, after.Role, before.Prevent, after.Prevent, before.Demote, after.Demote)
	if before.Demote && !after.Demote {
		m.count("demote_removed")
		if m.indexChangedAt.Before(m.S) {
			m.violate("C03", "demote annotation removed without a switchover", fmt.Sprintf("pod %d", i))
		}
	}
	if before.Prevent != after.Prevent {
		m.count("prevent_delete_changes")
	}
	if before.Role == after.Role {
		return
	}
	// what is judged is the state before the write
	m.s.T.Pods[i] = before
	m.act("label", i, fmt.Sprintf("role %q->%q", before.Role, after.Role))
	m.s.T.Pods[i] = after
	m.count("role_changes")
	s.Rep.Sig(fmt.Sprintf("role %s->%s i=%d p=%d %s", before.Role, after.Role, i, s.T.Index, m.sigShape()))
	n := 0
	for j := range s.T.Pods {
		if s.T.Pods[j].Exists && s.T.Pods[j].Role == constants.RolePrimary {
			n++
		}
	}
	if n > 1 {
		m.violate("C07", "two pods carry the primary role label", fmt.Sprintf("after labelling pod %d", i))
	}
	switch after.Role {
	case "":
		return
	case constants.RolePrimary:
		if i != s.T.Index {
			m.violate("C07", "primary label on a pod that is not the primary", fmt.Sprintf("pod %d, primary %d", i, s.T.Index))
		}
	case constants.RoleReplica:
		if i == s.T.Index {
			m.violate("C07", "replica label on the primary", fmt.Sprintf("pod %d", i))
		}
		if m.errant(i) && m.lastNotErrant[i].Before(m.S) {
			m.violate("C06", "errant replica labelled as replica", fmt.Sprintf("pod %d", i))
			m.violate("C07", "errant replica labelled as replica", fmt.Sprintf("pod %d", i))
		}
		in := s.W.Insts[i]
		if !in.SuperReadOnly && m.lastNotAnswer[i].Before(m.S) {
			m.violate("C07", "writable instance labelled as replica", fmt.Sprintf("pod %d", i))
		}
	default:
		m.violate("C07", "unknown role label", after.Role)
	}
	// connections made while the pod had another role must be gone
	lost, at := before.RoleLost, before.RoleLostAt
	if before.Role != "" {
		lost, at = before.Role, time.Now()
	}
	if lost != "" && lost != after.Role {
		m.count("role_reversals")
		for _, c := range s.W.Insts[i].UserConns() {
			if isUserConn(c) && c.Since.Before(at) {
				m.violate("C07", "connections of the old role survive a role change", fmt.Sprintf("pod %d: %s@%s opened %v before the label %s was removed", i, c.User, c.Host, at.Sub(c.Since), lost))
				break
			}
		}
	}
}

// clusterWritten: the controller changed the MySQLCluster.
func (m *Mon) clusterWritten(old Truth, w wctx) {
	s := m.s
	_, hr := s.Cond(mocov1beta2.ConditionHealthy)
	s.W.Logf("API cluster: index %d->%d state %s synced %d errants %v", old.Index, s.T.Index, hr, s.T.Status.SyncedReplicas, s.T.Status.ErrantReplicaList)
	m.count("status_writes")
	// the controller does not own the spec
	if old.Replicas != s.T.Replicas || old.Offline != s.T.Offline || old.Intermediate != s.T.Intermediate || old.Restore != s.T.Restore {
		m.violate("C05", "the clustering loop changed the spec", "")
	}
	// nor the parts of the status that others write
	if a, b := others(old.Status), others(s.T.Status); a != b {
		d := fmt.Sprintf("from %s to %s", a, b)
		m.violate("C05", "the clustering loop changed what others recorded in the status", d)
		m.violate("C12", "the clustering loop changed what others recorded in the status", d)
	}
	if old.Index == s.T.Index && !m.S.IsZero() {
		if !slices.Equal(old.ErrantList, s.T.ErrantList) && m.lastComputable.Before(m.S) {
			d := fmt.Sprintf("the primary %d did not answer in this round; the list changed from %v to %v", s.T.Index, old.ErrantList, s.T.ErrantList)
			m.violate("C06", "the recorded errant replicas changed while the primary is unavailable", d)
			m.violate("C12", "the recorded errant replicas changed while the primary is unavailable", d)
		}
		if !old.Cloned && s.T.Cloned && m.state == "Cloning" && m.stable() {
			m.violate("C09", "the initial clone is recorded as done before it is", m.sigShape())
			m.violate("C12", "the initial clone is recorded as done before it is", m.sigShape())
		}
	}
	if old.Index == s.T.Index {
		return
	}
	m.indexChange(old.Index, s.T.Index)
	m.indexChangedAt = time.Now()
}

// others is the part of the status that the jobs and the reconciler write.
func others(st mocov1beta2.MySQLClusterStatus) string {
	b, _ := json.Marshal([]any{st.Backup, st.RestoredTime, st.ReconcileInfo})
	return string(b)
}

func (m *Mon) indexChange(o, k int) {
	s := m.s
	s.W.Logf("PRIMARY %d -> %d", o, k)
	m.act("index", k, fmt.Sprintf("%d->%d", o, k))
	if k < 0 || k >= s.T.Replicas || k >= len(s.kub) {
		m.violate("C04", "primary index out of range", fmt.Sprint(k))
		return
	}
	old, nw := s.W.Insts[o], s.W.Insts[k]
	S := m.S
	healthy := m.lastPrimBad.Before(S) // the old primary was fine through the whole round
	// (the index has just changed; lastPrimBad still speaks of the old one)
	requested := !m.lastReq.Before(S)
	if healthy {
		m.Switches++
		m.count("switchovers")
	} else {
		m.Failovers++
		m.count("failovers")
	}
	s.Rep.Sig(fmt.Sprintf("index healthy=%v req=%v n=%d %d->%d %s", healthy, requested, s.T.Replicas, o, k, m.sigShape()))

	sw := m.switchRules(old, nw, requested)
	if healthy {
		for _, v := range sw {
			m.violate("C03", v[0], v[1])
		}
		if !requested {
			m.violate("C04", "failover although the primary was healthy and reachable", fmt.Sprintf("%d -> %d", o, k))
		}
	} else {
		fo := m.failRules(old, nw, S)
		if len(fo) > 0 && len(sw) > 0 {
			for _, v := range fo {
				m.violate("C04", v[0], v[1])
			}
			if requested {
				for _, v := range sw {
					m.s.Rep.Note("mixed window: " + v[0])
				}
			}
		}
		if len(sw) > 0 && m.lastPrimTruly.Before(S) && m.pfaults < 3 && !requested {
			m.violate("C04", "failover after a transient error of a running primary", fmt.Sprintf("%d -> %d, %d failed statements", o, k, m.pfaults))
		}
	}
	// in any case
	if m.Unsafe == "" {
		if d := s.W.Acked.Minus(nw.Have()); !d.Empty() {
			m.violate("C01", "the new primary lacks acknowledged transactions", fmt.Sprintf("%d -> %d: lacks %v", o, k, d))
		}
	}
	if m.lastNotErrant[k].Before(S) {
		m.violate("C06", "an errant replica became the primary", fmt.Sprintf("%d -> %d", o, k))
	}
	if m.delayedThrough() && healthy {
		m.violate("C13", "switchover while replication is delayed", fmt.Sprintf("%d -> %d", o, k))
	}
}

func (m *Mon) delayedThrough() bool { return m.s.T.MaxDelay > 0 && m.lastNotDelay.Before(m.S) }

// switchRules lists what of the switchover contract does not hold now.
func (m *Mon) switchRules(old, nw *mysim.Inst, requested bool) (v [][2]string) {
	s := m.s
	where := fmt.Sprintf("%d -> %d", old.Index, nw.Index)
	if !requested {
		v = append(v, [2]string{"primary changed without a request", where})
	}
	if !old.SuperReadOnly {
		v = append(v, [2]string{"the old primary is still writable when the new one is recorded", where})
	}
	if s.T.Intermediate || !m.specStable() {
		if d := m.rExec.Minus(nw.Executed); !d.Empty() {
			v = append(v, [2]string{"the new primary has not caught up", fmt.Sprintf("%s: lacks %v", where, d)})
		}
	} else if d := old.Executed.Minus(nw.Executed); !d.Empty() {
		v = append(v, [2]string{"the new primary has not caught up", fmt.Sprintf("%s: lacks %v", where, d)})
	}
	if old.Up {
		for _, c := range old.UserConns() {
			if isUserConn(c) && c.Since.Before(old.ReadOnlySince) {
				v = append(v, [2]string{"connections from before the switchover survive on the old primary", fmt.Sprintf("%s: %s@%s", where, c.User, c.Host)})
				break
			}
		}
	}
	if m.lastReady[nw.Index].Before(m.S) {
		v = append(v, [2]string{"switched to a pod that is not ready", where})
	}
	return v
}

// failRules lists what of the failover contract does not hold now.
func (m *Mon) failRules(old, nw *mysim.Inst, S time.Time) (v [][2]string) {
	s := m.s
	where := fmt.Sprintf("%d -> %d", old.Index, nw.Index)
	ok := 0
	for j := range s.T.Replicas {
		if j == old.Index || j >= len(s.kub) {
			continue
		}
		in := s.W.Insts[j]
		if !m.lastOK[j].Before(S) || j == nw.Index {
			ok++
		}
		answered := m.lastNotAnswer[j].Before(S)
		if answered && in.IOEnabled {
			v = append(v, [2]string{"IO thread of a reachable replica not stopped before the failover", fmt.Sprintf("%s: replica %d", where, j)})
		}
		if answered && j != nw.Index && m.lastErrant[j].Before(S) && in.Repl != nil { // a former primary that has just come back is no replica
			if d := in.Have().Minus(nw.Executed); !d.Empty() {
				v = append(v, [2]string{"the new primary is not the most advanced replica", fmt.Sprintf("%s: replica %d has %v", where, j, d)})
			}
		}
	}
	if len(nw.Relay) > 0 {
		v = append(v, [2]string{"the new primary has not executed all retrieved transactions", fmt.Sprintf("%s: %v pending", where, nw.Relay)})
	}
	if ok <= s.T.Replicas/2 {
		v = append(v, [2]string{"failover without more than half of the replicas", fmt.Sprintf("%s: %d of %d usable", where, ok, s.T.Replicas-1)})
	}
	if m.lastNotErrant[nw.Index].Before(S) {
		v = append(v, [2]string{"failover to an errant replica", where})
	}
	return v
}
