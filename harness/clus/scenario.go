package clus

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/constants"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"verifharness/mysim"
	"verifharness/vlib"
)

// safePrimary tells whether the loss of the primary is within what MOCO
// promises to survive (Mu held): semi-sync is set up and every acknowledged
// transaction is on at least half of the replicas.
func (s *Sim) safePrimary() bool {
	n := s.T.Replicas
	if s.T.Index >= len(s.kub) {
		return false
	}
	if n == 1 {
		return true
	}
	p := s.W.Insts[s.T.Index]
	if !s.T.Intermediate && (!p.SemiMaster || p.WaitCount != n/2) {
		// not yet configured: safe only if everything acknowledged is everywhere
		for i := range s.kub {
			if !s.W.Acked.Subset(s.W.Insts[i].Have()) {
				return false
			}
		}
		return true
	}
	// count holders for the union: sets only grow, so test the difference per replica
	missing := 0
	for i := range s.kub {
		if i == s.T.Index {
			continue
		}
		if !s.W.Acked.Subset(s.W.Insts[i].Have()) {
			missing++
		}
	}
	return n-1-missing >= n/2
}

// quietCluster: healthy as far as the API and the instances say (Mu held).
func (s *Sim) quietCluster() bool { return s.M.state == "Healthy" }

// WaitState waits until the ground truth is in one of the states.
func (s *Sim) WaitState(d time.Duration, states ...string) bool {
	t0 := time.Now()
	for time.Since(t0) < d {
		s.W.Mu.Lock()
		st := s.M.state
		s.W.Mu.Unlock()
		for _, x := range states {
			if st == x {
				return true
			}
		}
		time.Sleep(200 * time.Millisecond)
	}
	return false
}

func (s *Sim) nap(max int) { time.Sleep(time.Duration(s.rnd(max)) * time.Millisecond) }

// replica picks a random non-primary index (Mu held); -1 if none.
func (s *Sim) replica() int {
	n := len(s.kub)
	if n < 2 {
		return -1
	}
	for {
		i := s.R.Intn(n)
		if i != s.T.Index {
			return i
		}
	}
}

// Fault kinds.
const (
	fCrashPrimary = "crash-primary"
	fCrashReplica = "crash-replica"
	fHangPrimary  = "hang-primary"
	fUnreachPrim  = "unreach-primary"
	fUnreachRepl  = "unreach-replica"
	fPartition    = "partition"
	fDemote       = "demote"
	fDeletePrim   = "delete-primary"
	fDeleteRepl   = "delete-replica"
	fKillPod      = "kill-primary-pod"
	fDelay        = "delay"
	fLag          = "lag"
	fErrant       = "errant"
	fWipeReplica  = "wipe-replica"
	fWipePrimary  = "wipe-primary"
	fPurge        = "purge"
	fSQL          = "sql-faults"
	fAPI          = "api-faults"
	fRestartMgr   = "restart-manager"
	fScale        = "scale"
	fOffline      = "offline"
	fPromote      = "promote"
	fRestoring    = "restoring"
	fCloneFail    = "clone-fail"
	fPoke         = "poke"
	fSwitchCrash  = "demote-then-crash"
	fDoubleCrash  = "crash-two"
	fPause        = "pause"
	fStopStart    = "stop-start"
	fHangReplica  = "hang-replica"
	fTransient    = "transient-primary-error"
	fOutage       = "outage"
	fCrashForever = "crash-primary-until-failover"
	fLagAll       = "lag-all-then-demote"
	fPromoteLag   = "promote-with-lag"
	fSlowSQL      = "slow-sql"
	fUnreadyDem   = "unready-then-demote"
	fErrDown      = "errant-and-primary-down"
)

// Do applies one fault. It returns false if it did not apply.
func (s *Sim) Do(f string) bool {
	w := s.W
	lock := func() { w.Mu.Lock() }
	unlock := func() { w.Mu.Unlock() }
	lock()
	p := s.T.Index
	n := len(s.kub)
	r := s.replica()
	dur := time.Duration(200+s.R.Intn(45000)) * time.Millisecond
	if s.R.Intn(3) == 0 {
		dur = time.Duration(200+s.R.Intn(4000)) * time.Millisecond
	}
	if p >= n {
		unlock()
		return false
	}
	pi := w.Insts[p]
	safe := s.safePrimary()
	w.Logf("FAULT %s (dur %v, primary %d, replica %d, safe %v)", f, dur, p, r, safe)
	unlock()
	healed := func(undo func()) {
		s.cwg.Add(1)
		go func() {
			defer s.cwg.Done()
			sleepCtx(s.cctx, dur)
			lock()
			undo()
			s.M.observe()
			unlock()
		}()
	}
	switch f {
	case fCrashPrimary, fSwitchCrash:
		if !safe {
			return false
		}
		if f == fSwitchCrash {
			s.Demote(p)
			s.nap(1500)
		}
		lock()
		defer unlock()
		if !s.safePrimary() || s.T.Index != p || !pi.Up {
			return false
		}
		s.Crash(p, dur)
	case fDoubleCrash:
		if !safe || r < 0 {
			return false
		}
		lock()
		defer unlock()
		if !s.safePrimary() || !pi.Up {
			return false
		}
		s.Crash(p, dur)
		s.Crash(r, time.Duration(s.R.Intn(30000))*time.Millisecond)
	case fCrashReplica:
		if r < 0 {
			return false
		}
		lock()
		defer unlock()
		if !w.Insts[r].Up {
			return false
		}
		s.Crash(r, dur)
	case fHangPrimary, fUnreachPrim:
		if !safe || n == 1 {
			return false
		}
		lock()
		if !s.safePrimary() || s.T.Index != p {
			unlock()
			return false
		}
		if f == fHangPrimary {
			pi.Hung = true
		} else {
			pi.CtlReach = false
		}
		w.Logf("ENV %s %d", f, p)
		s.M.observe()
		unlock()
		healed(func() {
			w.Logf("ENV heal %s %d", f, p)
			pi.Hung = false
			pi.CtlReach = true
		})
	case fUnreachRepl, fHangReplica:
		if r < 0 {
			return false
		}
		in := w.Insts[r]
		lock()
		if f == fHangReplica {
			in.Hung = true
		} else {
			in.CtlReach = false
		}
		s.M.observe()
		unlock()
		healed(func() { in.CtlReach = true; in.Hung = false })
	case fPartition:
		if r < 0 {
			return false
		}
		lock()
		var l []int
		for i := range n {
			if i != p && s.R.Intn(2) == 0 {
				l = append(l, i)
			}
		}
		for _, i := range l {
			w.CutLink(p, i, true)
		}
		s.M.observe()
		unlock()
		healed(func() {
			for _, i := range l {
				w.CutLink(p, i, false)
			}
		})
	case fDemote:
		s.Demote(p)
	case fDeletePrim:
		return s.DeletePod(p, true, false)
	case fKillPod:
		if !safe {
			return false
		}
		return s.DeletePod(p, false, false)
	case fDeleteRepl:
		if r < 0 {
			return false
		}
		return s.DeletePod(r, true, false)
	case fDelay:
		if r < 0 {
			return false
		}
		lock()
		w.Insts[r].ApplyPausedUntil = time.Now().Add(dur)
		unlock()
	case fLag:
		if r < 0 {
			return false
		}
		lock()
		w.Insts[r].IOPausedUntil = time.Now().Add(dur)
		unlock()
	case fErrant:
		if r < 0 {
			return false
		}
		lock()
		defer unlock()
		in := w.Insts[r]
		if !in.Up || in.Executed.Empty() || !s.quietCluster() {
			return false
		}
		g := in.ErrantCommit()
		w.Logf("ENV errant transaction %v on %d", g, r)
		s.M.observe()
	case fErrDown:
		// a replica recorded as errant goes down together with the primary and
		// comes back, or becomes reachable, at some point of the failover
		if r < 0 {
			return false
		}
		lock()
		if len(s.T.ErrantList) == 0 {
			in := w.Insts[r]
			if !in.Up || in.Executed.Empty() || !s.quietCluster() {
				unlock()
				return false
			}
			g := in.ErrantCommit()
			w.Logf("ENV errant transaction %v on %d", g, r)
			s.M.observe()
		}
		unlock()
		for range 40 {
			sleepCtx(s.cctx, 500*time.Millisecond)
			lock()
			ok := len(s.T.ErrantList) > 0
			unlock()
			if ok {
				break
			}
		}
		lock()
		defer unlock()
		if len(s.T.ErrantList) == 0 || !s.safePrimary() || s.T.Index != p || !pi.Up {
			return false
		}
		e := s.T.ErrantList[s.R.Intn(len(s.T.ErrantList))]
		if e == p || e >= n || !w.Insts[e].Up {
			return false
		}
		s.Crash(p, 15*time.Second+dur)
		back := time.Duration(500+s.R.Intn(25000)) * time.Millisecond
		if s.R.Intn(2) == 0 {
			s.Crash(e, back)
		} else {
			w.Insts[e].CtlReach = false
			s.cwg.Add(1)
			go func() {
				defer s.cwg.Done()
				sleepCtx(s.cctx, back)
				lock()
				w.Insts[e].CtlReach = true
				s.M.observe()
				unlock()
			}()
		}
		s.M.observe()
		s.Rep.Count("errant_down", 1)
	case fWipeReplica:
		if r < 0 {
			return false
		}
		lock()
		ok := s.quietCluster() && s.safePrimary()
		unlock()
		if !ok {
			return false
		}
		return s.DeletePod(r, s.rnd(2) == 0, true)
	case fWipePrimary:
		if n == 1 {
			return false
		}
		lock()
		ok := s.quietCluster() && s.safePrimary() && !s.T.Intermediate
		unlock()
		if !ok {
			return false
		}
		return s.DeletePod(p, false, true)
	case fPurge:
		lock()
		defer unlock()
		keep := s.R.Intn(3)
		safeP := true
		for i := range n {
			if i != p && !pi.Executed.Subset(w.Insts[i].Executed) {
				safeP = false
			}
		}
		if !safeP {
			s.stuck = "purge"
		}
		pi.PurgeBinlog(keep)
		s.M.lastPurge = time.Now()
		w.Logf("ENV purge binlogs of %d keep %d", p, keep)
	case fSQL:
		lock()
		prob := 5 + s.R.Intn(25)
		rr := rand.New(rand.NewSource(s.R.Int63()))
		s.M.SQLFault = func(i *mysim.Inst, stmt, when string) error {
			if rr.Intn(1000) >= prob {
				return nil
			}
			if rr.Intn(2) == 0 {
				return mysim.ErrDrop
			}
			return &mysim.SQLError{Code: 1105, Msg: "injected"}
		}
		unlock()
		healed(func() { s.M.SQLFault = nil })
	case fTransient:
		lock()
		left := 1 + s.R.Intn(2)
		s.M.SQLFault = func(i *mysim.Inst, stmt, when string) error {
			if left > 0 && when == "pre" && i.Index == p && !mysim.IsMutating(stmt) && !strings.HasPrefix(stmt, "\x00") {
				left--
				return &mysim.SQLError{Code: 1105, Msg: "injected"}
			}
			return nil
		}
		unlock()
		healed(func() { s.M.SQLFault = nil })
	case fAPI:
		lock()
		prob := 30 + s.R.Intn(150)
		rr := rand.New(rand.NewSource(s.R.Int63()))
		s.APIFault = func(verb, kind, when string) error {
			if rr.Intn(1000) >= prob {
				return nil
			}
			if when == "pre" && verb != "get" && rr.Intn(2) == 0 {
				return Conflict()
			}
			return Unavailable()
		}
		unlock()
		healed(func() { s.APIFault = nil })
	case fRestartMgr:
		s.RestartMgr()
		s.paused = false
	case fScale:
		if n >= 5 || s.ext != nil {
			return false
		}
		lock()
		ok := s.M.state == "Healthy"
		unlock()
		if !ok {
			return false
		}
		s.grow(n + 2)
		lock()
		s.M.lastScale = time.Now()
		unlock()
		s.EditCluster(func(c *mocov1beta2.MySQLCluster) { c.Spec.Replicas = int32(n + 2) })
		s.mgr(func(m clustering.ClusterManager) { m.Update(s.key(), "scale") })
	case fOffline:
		lock()
		ok := s.M.state == "Healthy"
		unlock()
		if !ok {
			return false
		}
		s.EditCluster(func(c *mocov1beta2.MySQLCluster) { c.Spec.Offline = true })
		sleepCtx(s.cctx, 30*time.Second+dur)
		s.EditCluster(func(c *mocov1beta2.MySQLCluster) { c.Spec.Offline = false })
	case fCrashForever:
		if !safe || n == 1 {
			return false
		}
		lock()
		if !s.safePrimary() || s.T.Index != p || !pi.Up {
			unlock()
			return false
		}
		s.Crash(p, -1)
		unlock()
		// the documented reaction is a failover
		t0 := time.Now()
		for time.Since(t0) < 200*time.Second {
			sleepCtx(s.cctx, 500*time.Millisecond)
			lock()
			over := s.T.Index != p
			since := s.M.sigSince
			unlock()
			if over || time.Since(since) > 155*time.Second {
				break
			}
		}
		lock()
		s.M.liveness()
		s.kub[p].noRestart = false
		s.kub[p].bootAt = time.Now().Add(time.Duration(s.R.Intn(30000)) * time.Millisecond)
		unlock()
	case fLagAll:
		if r < 0 {
			return false
		}
		lock()
		for i := range n {
			if i != p {
				w.Insts[i].ApplyPausedUntil = time.Now().Add(time.Duration(1000+s.R.Intn(9000)) * time.Millisecond)
			}
		}
		unlock()
		s.nap(1500)
		s.Demote(p)
	case fUnreadyDem:
		// a replica that is not ready although it has everything
		if n < 5 {
			return false
		}
		lock()
		w.CutLink(p, r, true)
		k := r
		if s.R.Intn(2) == 0 {
			k = s.replica()
			w.CutLink(p, k, true)
		}
		s.M.observe()
		unlock()
		healed(func() { w.CutLink(p, r, false); w.CutLink(p, k, false) })
		sleepCtx(s.cctx, time.Duration(3000+s.rnd(6000))*time.Millisecond)
		s.Demote(p)
	case fPromoteLag:
		if s.ext == nil {
			return false
		}
		lock()
		pi.ApplyPausedUntil = time.Now().Add(time.Duration(1000+s.R.Intn(30000)) * time.Millisecond)
		unlock()
		s.nap(6000)
		s.EditCluster(func(c *mocov1beta2.MySQLCluster) { c.Spec.ReplicationSourceSecretName = nil })
		s.mgr(func(m clustering.ClusterManager) { m.Update(s.key(), "promote") })
	case fSlowSQL:
		lock()
		max := 20 + s.R.Intn(1500)
		w.Latency = func(*mysim.Inst, string) time.Duration { return time.Duration(w.Rng.Intn(max)) * time.Millisecond }
		unlock()
		healed(func() {
			w.Latency = func(*mysim.Inst, string) time.Duration { return time.Duration(w.Rng.Intn(4)) * time.Millisecond }
		})
	case fOutage:
		// every mysqld goes down and comes back
		lock()
		for i := range n {
			if w.Insts[i].Up {
				s.Crash(i, time.Duration(s.R.Intn(20000))*time.Millisecond)
			}
		}
		unlock()
	case fPromote:
		if s.ext == nil {
			return false
		}
		s.EditCluster(func(c *mocov1beta2.MySQLCluster) { c.Spec.ReplicationSourceSecretName = nil })
		s.mgr(func(m clustering.ClusterManager) { m.Update(s.key(), "promote") })
	case fRestoring:
		lock()
		again := s.T.Restored
		unlock()
		if again {
			return false
		}
		s.restored()
	case fCloneFail:
		lock()
		left := 1 + s.R.Intn(2)
		s.cloneFail = func(int) error {
			if left > 0 {
				left--
				return fmt.Errorf("injected clone failure")
			}
			return nil
		}
		unlock()
	case fPoke:
		s.mgr(func(m clustering.ClusterManager) { m.Update(s.key(), "poke") })
	case fPause:
		s.PauseMgr(dur)
	case fStopStart:
		s.StopStart(dur)
	default:
		panic(f)
	}
	return true
}

// triggers names, for each property, the counter that must have moved for a
// scenario to be non-trivial.
var triggers = map[string]string{
	"C01": "durability_checks", "C02": "made_writable", "C03": "switchovers", "C04": "failovers",
	"C05": "stable_rounds", "C06": "errant_seen", "C07": "role_changes", "C08": "replica_started",
	"C09": "clone_calls", "C10": "purge_guard_checks", "C11": "converged", "C12": "stable_rounds",
	"C13": "delay_rounds_true", "C14": "mgr_stops", "C15": "rounds", "C16": "kills",
}

// Profile describes a family of scenarios.
type Profile struct {
	Name   string
	Sizes  []int
	Init   func(s *Sim)
	Faults []string
	Steps  [2]int
	Long   bool // clients with long transactions
	// NoWait starts the faults while the cluster is being built.
	NoWait bool
	Gap    int // max ms between faults
	// Mode of the writers: "" = random.
	Mode string
	// Flap pauses the threads of random replicas all the time.
	Flap bool
	// Trig are faults that strike at a random operation of the controller after
	// the first fault; Enum makes the operation count up with the seed.
	Trig []string
	Enum bool
}

// NumProfiles is the number of profiles the scenarios alternate between.
var NumProfiles = 1

var profiles = map[string]*Profile{}

func add(p *Profile) { profiles[p.Name] = p }

func init() {
	three := []int{3, 3, 3, 5}
	add(&Profile{Name: "basic", Sizes: []int{1, 3, 5}, Faults: []string{fPoke, fDemote, fDelay, fLag, fRestartMgr}, Steps: [2]int{1, 3}, Gap: 10000})
	add(&Profile{Name: "switch", Sizes: three, Faults: []string{fDemote, fDeletePrim, fDemote, fDelay, fLag, fDeleteRepl, fSwitchCrash}, Steps: [2]int{2, 5}, Long: true, Gap: 25000})
	add(&Profile{Name: "failover", Sizes: three, Faults: []string{fCrashPrimary, fHangPrimary, fUnreachPrim, fLag, fDelay, fKillPod, fDoubleCrash, fPartition}, Steps: [2]int{2, 4}, Gap: 30000})
	add(&Profile{Name: "lagfail", Sizes: three, Faults: []string{fLag, fDelay, fCrashPrimary, fUnreachPrim, fHangPrimary}, Steps: [2]int{4, 8}, Gap: 3000})
	add(&Profile{Name: "errant", Sizes: []int{3, 3, 5, 5}, Faults: []string{fErrant, fErrant, fDemote, fCrashPrimary, fRestartMgr, fCrashReplica}, Steps: [2]int{2, 4}, Gap: 25000})
	add(&Profile{Name: "clone", Sizes: []int{1, 3}, Faults: []string{fScale, fWipeReplica, fCloneFail, fDemote, fPoke, fScale}, Steps: [2]int{2, 5}, Gap: 30000})
	add(&Profile{Name: "wipe", Sizes: three, Faults: []string{fWipePrimary, fWipeReplica, fCrashReplica, fErrant}, Steps: [2]int{1, 4}, Gap: 60000})
	add(&Profile{Name: "purge", Sizes: three, Faults: []string{fPurge, fPurge, fCrashReplica, fLag, fDelay, fDemote, fPartition, fWipeReplica}, Steps: [2]int{3, 6}, Gap: 15000})
	add(&Profile{Name: "inter", Sizes: []int{1, 3, 3}, Init: initInter, Faults: []string{fCrashPrimary, fCrashReplica, fDemote, fCloneFail, fSQL, fRestartMgr, fUnreachPrim, fPoke}, Steps: [2]int{1, 3}, Gap: 25000})
	add(&Profile{Name: "interboot", Sizes: []int{1, 3}, Init: initInter, NoWait: true, Faults: []string{fCloneFail, fCrashPrimary, fSQL, fRestartMgr, fAPI, fPoke}, Steps: [2]int{1, 3}, Gap: 8000})
	add(&Profile{Name: "promote", Sizes: []int{1, 3, 3}, Init: initInter, Faults: []string{fPromote, fDelay, fDemote, fCrashPrimary}, Steps: [2]int{2, 4}, Gap: 20000})
	add(&Profile{Name: "restore", Sizes: []int{1, 3}, Init: initRestore, NoWait: true, Faults: []string{fPoke, fDemote, fRestartMgr, fCrashReplica, fRestoring, fRestoring}, Steps: [2]int{2, 5}, Gap: 20000})
	add(&Profile{Name: "offline", Sizes: []int{1, 3, 3}, Faults: []string{fOffline, fOffline, fDemote, fRestartMgr}, Steps: [2]int{1, 3}, Gap: 20000})
	add(&Profile{Name: "sqlfault", Sizes: three, Faults: []string{fSQL, fDemote, fCrashPrimary, fTransient, fDelay}, Steps: [2]int{3, 6}, Gap: 12000})
	add(&Profile{Name: "apifault", Sizes: three, Faults: []string{fAPI, fDemote, fCrashPrimary, fDeletePrim, fDeleteRepl}, Steps: [2]int{3, 6}, Gap: 12000})
	add(&Profile{Name: "restart", Sizes: three, Faults: []string{fDemote, fCrashPrimary, fRestartMgr, fRestartMgr, fRestartMgr, fDeletePrim}, Steps: [2]int{4, 8}, Gap: 3000})
	add(&Profile{Name: "delay", Sizes: three, Init: initDelay, Faults: []string{fDelay, fDelay, fDemote, fDeletePrim, fDeleteRepl, fCrashReplica}, Steps: [2]int{3, 6}, Gap: 25000})
	add(&Profile{Name: "boot", Sizes: []int{1, 3, 5}, NoWait: true, Faults: []string{fCrashPrimary, fCrashReplica, fDeleteRepl, fUnreachRepl, fRestartMgr, fSQL, fAPI}, Steps: [2]int{1, 4}, Gap: 6000})
	add(&Profile{Name: "outage", Sizes: three, Faults: []string{fOutage, fOutage, fLag, fCrashReplica, fDemote, fHangReplica}, Steps: [2]int{1, 3}, Gap: 40000})
	add(&Profile{Name: "lifecycle", Sizes: []int{1, 3}, Faults: []string{fPause, fStopStart, fRestartMgr, fDemote, fPoke, fPause, fStopStart}, Steps: [2]int{3, 6}, Gap: 9000})
	add(&Profile{Name: "flapfail", Sizes: three, Faults: []string{fUnreachPrim, fHangPrimary, fCrashPrimary, fCrashForever}, Steps: [2]int{1, 3}, Gap: 40000, Mode: "burst", Flap: true})
	add(&Profile{Name: "switchlag", Sizes: three, Faults: []string{fLagAll, fLagAll, fDemote, fDeletePrim, fSlowSQL}, Steps: [2]int{1, 4}, Gap: 30000, Mode: "burst", Flap: true})
	add(&Profile{Name: "errfail", Sizes: []int{3, 5, 5}, Faults: []string{fErrant, fErrant, fCrashPrimary, fCrashForever, fUnreachPrim, fWipePrimary}, Steps: [2]int{2, 4}, Gap: 25000})
	add(&Profile{Name: "errdown", Sizes: []int{3, 5, 5}, Faults: []string{fErrDown, fErrDown, fErrDown, fErrant, fCrashPrimary}, Steps: [2]int{1, 3}, Gap: 40000})
	add(&Profile{Name: "empty", Sizes: three, Faults: []string{fCrashPrimary, fHangPrimary, fOutage, fRestartMgr, fUnreachPrim}, Steps: [2]int{1, 3}, Gap: 40000, Mode: "zero"})
	add(&Profile{Name: "idle", Sizes: []int{3, 5, 5}, Faults: []string{fUnreadyDem, fUnreadyDem, fPartition, fDemote, fCrashReplica, fDeletePrim, fUnreachRepl, fCrashPrimary, fUnreachPrim, fHangPrimary}, Steps: [2]int{3, 6}, Gap: 8000, Mode: "slow"})
	add(&Profile{Name: "quiet", Sizes: []int{3, 5, 5}, Faults: []string{fUnreadyDem, fUnreadyDem, fPartition, fDemote, fUnreachPrim, fHangPrimary, fUnreachPrim}, Steps: [2]int{2, 4}, Gap: 40000, Mode: "few"})
	add(&Profile{Name: "forever", Sizes: three, Faults: []string{fCrashForever, fLag, fDelay, fCrashReplica}, Steps: [2]int{2, 4}, Gap: 20000})
	add(&Profile{Name: "promotelag", Sizes: []int{1, 3}, Init: initInter, Faults: []string{fPromoteLag, fPromoteLag, fDelay, fRestartMgr}, Steps: [2]int{2, 3}, Gap: 20000})
	trig := []string{fCrashPrimary, fCrashReplica, fRestartMgr, fDemote, fHangPrimary, fUnreachRepl, fLag, fDelay, fSQL, fAPI, fKillPod, fDeleteRepl, fErrant, fTransient}
	add(&Profile{Name: "trigswitch", Sizes: three, Faults: []string{fDemote, fDeletePrim, fLagAll}, Steps: [2]int{1, 2}, Gap: 30000, Trig: trig, Long: true})
	add(&Profile{Name: "trigfail", Sizes: three, Faults: []string{fCrashPrimary, fUnreachPrim, fHangPrimary, fKillPod}, Steps: [2]int{1, 2}, Gap: 40000, Trig: trig})
	add(&Profile{Name: "trigboot", Sizes: []int{1, 3}, NoWait: true, Faults: []string{fPoke}, Steps: [2]int{1, 1}, Gap: 100, Trig: trig})
	add(&Profile{Name: "enumswitch", Sizes: []int{3}, Faults: []string{fDemote}, Steps: [2]int{1, 1}, Gap: 60000, Trig: []string{fCrashPrimary, fRestartMgr, fCrashReplica, fHangPrimary, "op-drop", "op-lost", "api-conflict", "api-lost"}, Enum: true})
	add(&Profile{Name: "enumfail", Sizes: []int{3}, Faults: []string{fCrashPrimary}, Steps: [2]int{1, 1}, Gap: 60000, Trig: []string{fRestartMgr, fCrashReplica, "op-drop", "op-lost", "api-conflict", "api-lost"}, Enum: true})
	add(&Profile{Name: "chaos", Sizes: []int{3, 3, 5}, Init: initMaybeDelay, Faults: []string{fCrashPrimary, fCrashReplica, fHangPrimary, fUnreachPrim, fUnreachRepl, fHangReplica, fPartition, fDemote, fDeletePrim, fDeleteRepl, fKillPod, fDelay, fLag, fErrant, fWipeReplica, fSQL, fAPI, fRestartMgr, fPurge, fTransient, fSwitchCrash, fDoubleCrash}, Steps: [2]int{4, 10}, Long: true, Gap: 15000})
}

func initDelay(s *Sim) {
	s.EditCluster(func(c *mocov1beta2.MySQLCluster) { c.Spec.MaxDelaySecondsForPodDeletion = int64(2 + s.R.Intn(10)) })
}

func initMaybeDelay(s *Sim) {
	if s.R.Intn(3) == 0 {
		initDelay(s)
	}
}

// armTrigger makes f strike at the k-th operation of the controller.
func (s *Sim) armTrigger(f string, k int) {
	s.W.Mu.Lock()
	defer s.W.Mu.Unlock()
	n := 0
	fired := false
	hit := func() bool {
		if fired || s.cctx.Err() != nil {
			return false
		}
		n++
		if n < k {
			return false
		}
		fired = true
		s.Rep.Count("triggered", 1)
		return true
	}
	switch f {
	case "op-drop", "op-lost":
		when := "pre"
		if f == "op-lost" {
			when = "post"
		}
		s.M.SQLFault = func(i *mysim.Inst, stmt, at string) error {
			if at == when && hit() {
				return mysim.ErrDrop
			}
			return nil
		}
	case "api-conflict", "api-lost":
		kk := k
		k = 1 + kk%8
		s.APIFault = func(verb, kind, at string) error {
			if verb == "get" {
				return nil
			}
			if f == "api-conflict" && at == "pre" && hit() {
				return Conflict()
			}
			if f == "api-lost" && at == "post" && hit() {
				return Unavailable()
			}
			return nil
		}
	default:
		s.onOp = func(string, int) {
			if hit() {
				s.cwg.Add(1)
				go func() {
					defer s.cwg.Done()
					s.Do(f)
				}()
			}
		}
	}
}

// background runs the connections of system users and, with flap, pauses the
// replication threads of replicas at random.
func (s *Sim) background(flap bool) {
	s.cwg.Add(1)
	go func() {
		defer s.cwg.Done()
		for sleepCtx(s.cctx, time.Duration(3000+s.rnd(30000))*time.Millisecond) {
			s.W.Mu.Lock()
			i := s.R.Intn(len(s.kub))
			s.W.Mu.Unlock()
			s.SystemConns(i)
		}
	}()
	s.cwg.Add(1)
	go func() {
		defer s.cwg.Done()
		for sleepCtx(s.cctx, time.Duration(4000+s.rnd(40000))*time.Millisecond) {
			s.recordBackup()
		}
	}()
	if !flap {
		return
	}
	s.cwg.Add(1)
	go func() {
		defer s.cwg.Done()
		for sleepCtx(s.cctx, time.Duration(20+s.rnd(1500))*time.Millisecond) {
			s.W.Mu.Lock()
			if i := s.replica(); i >= 0 && !s.noFlap {
				d := time.Now().Add(time.Duration(s.R.Intn(3000)) * time.Millisecond)
				if s.R.Intn(2) == 0 {
					s.W.Insts[i].IOPausedUntil = d
				} else {
					s.W.Insts[i].ApplyPausedUntil = d
				}
			}
			s.W.Mu.Unlock()
		}
	}()
}

// recordBackup is what a backup job, and the reconciler, write in the status.
func (s *Sim) recordBackup() {
	s.W.Mu.Lock()
	defer s.W.Mu.Unlock()
	cl := &mocov1beta2.MySQLCluster{}
	if err := s.raw.Get(context.Background(), s.key(), cl); err != nil {
		return
	}
	b := &cl.Status.Backup
	b.Time = metav1.Now()
	b.Elapsed = metav1.Duration{Duration: time.Duration(1+s.R.Intn(5000)) * time.Second}
	b.SourceIndex = s.R.Intn(len(s.kub))
	b.SourceUUID = fmt.Sprint("uuid-", s.R.Intn(1000))
	b.BinlogFilename = fmt.Sprintf("binlog.%06d", 1+s.R.Intn(99))
	b.GTIDSet = fmt.Sprint("uuid:1-", 1+s.R.Intn(1000))
	b.DumpSize = 1 + s.R.Int63n(1<<40)
	b.BinlogSize = s.R.Int63n(1 << 40)
	b.WorkDirUsage = 1 + s.R.Int63n(1<<40)
	b.Warnings = nil
	for i := range s.R.Intn(3) {
		b.Warnings = append(b.Warnings, fmt.Sprint("warning ", i))
	}
	if s.R.Intn(2) == 0 {
		cl.Status.ReconcileInfo.Generation++
	}
	must(s.raw.Status().Update(context.Background(), cl))
	s.refreshCluster()
	s.backupAt = time.Now()
	s.Rep.Count("backups_recorded", 1)
	s.W.Logf("ENV a backup is recorded")
}

// initRestore makes a cluster that is restored by a simulated restore job.
func initRestore(s *Sim) {
	s.EditCluster(func(c *mocov1beta2.MySQLCluster) {
		c.Spec.Restore = &mocov1beta2.RestoreSpec{SourceName: "src", SourceNamespace: "other"}
	})
	s.cwg.Add(1)
	go func() {
		defer s.cwg.Done()
		for sleepCtx(s.cctx, time.Duration(1000+s.rnd(4000))*time.Millisecond) {
			s.W.Mu.Lock()
			in := s.W.Insts[s.T.Index]
			if s.T.Restored {
				s.W.Mu.Unlock()
				return
			}
			if in.Up {
				if s.R.Intn(5) == 0 {
					// between the attempts
					in.ReadOnly, in.SuperReadOnly = true, true
				} else {
					in.ReadOnly, in.SuperReadOnly = false, false
					in.ErrantCommit()
				}
				s.M.observe()
			}
			s.W.Mu.Unlock()
		}
	}()
}

// restored is the end of the restore job.
func (s *Sim) restored() {
	s.W.Mu.Lock()
	in := s.W.Insts[s.T.Index]
	in.ReadOnly, in.SuperReadOnly = true, true
	s.M.observe()
	s.W.Mu.Unlock()
	s.EditCluster(func(c *mocov1beta2.MySQLCluster) {
		t := metav1.Now()
		c.Status.RestoredTime = &t
	})
	s.mgr(func(m clustering.ClusterManager) { m.Update(s.key(), "restored") })
}

func initInter(s *Sim) {
	n := len(s.kub)
	ext := s.W.Add("ext", "192.168.0.1", "ext.example.com", 999, s.W.Insts[0].Ver)
	_ = n
	s.extPw = "donorpw"
	ext.External = true
	ext.Auth = func(u string) (string, bool) { return s.extPw, u == "ext-donor" }
	s.ext = ext
	s.W.Mu.Lock()
	ext.StartInst()
	ext.ReadOnly, ext.SuperReadOnly = false, false
	for range 3 + s.R.Intn(10) {
		ext.ErrantCommit()
	}
	if s.R.Intn(2) == 0 {
		ext.PurgeBinlog(1)
	}
	s.W.Mu.Unlock()
	sec := &corev1.Secret{}
	sec.Name, sec.Namespace = "source", ns
	sec.Data = map[string][]byte{
		constants.CloneSourceHostKey: []byte(ext.Host), constants.CloneSourcePortKey: []byte("3306"),
		constants.CloneSourceUserKey: []byte("ext-donor"), constants.CloneSourcePasswordKey: []byte(s.extPw),
		constants.CloneSourceInitUserKey: []byte("ext-init"), constants.CloneSourceInitPasswordKey: []byte("initpw"),
	}
	must(s.raw.Create(context.Background(), sec))
	name := "source"
	s.EditCluster(func(c *mocov1beta2.MySQLCluster) { c.Spec.ReplicationSourceSecretName = &name })
	s.cwg.Add(1)
	go func() {
		defer s.cwg.Done()
		for sleepCtx(s.cctx, time.Duration(300+s.rnd(2000))*time.Millisecond) {
			s.W.Mu.Lock()
			if !s.T.Intermediate {
				s.W.Mu.Unlock()
				return
			}
			ext.ErrantCommit()
			s.W.Mu.Unlock()
		}
	}()
}

// RunScenario runs one scenario; it must be called inside a synctest bubble.
func RunScenario(prof string, seed int64, rep *vlib.Report, setup func(s *Sim)) *Sim {
	p := profiles[prof]
	r := rand.New(rand.NewSource(seed))
	n := p.Sizes[r.Intn(len(p.Sizes))]
	cs := fmt.Sprintf("profile=%s seed=%d n=%d", prof, seed, n)
	rep.Begin(cs)
	trig := triggers[vlib.Property()]
	before := rep.Counter(trig)
	name := fmt.Sprintf("c%d", seed%100000)
	s := NewSim(seed, name, n, rep, cs)
	s.W.Logf("SCENARIO %s", cs)
	if p.Init != nil {
		p.Init(s)
	}
	if setup != nil {
		setup(s)
	}
	s.Run()
	s.StartMgr()
	s.mode = p.Mode
	if s.mode == "" {
		s.mode = []string{"", "", "burst", "slow"}[r.Intn(4)]
	}
	s.Clients(1+r.Intn(3), r.Intn(2), p.Long)
	s.background(p.Flap)
	if !p.NoWait {
		if !s.WaitState(180*time.Second, "Healthy") {
			s.W.Mu.Lock()
			s.M.violate("C11", "a new cluster does not become Healthy", fmt.Sprintf("state %s after 180 s without faults; %s", s.M.state, s.M.sigShape()))
			s.W.Mu.Unlock()
		}
		s.nap(12000)
	}
	steps := p.Steps[0] + r.Intn(p.Steps[1]-p.Steps[0]+1)
	var done []string
	if p.Trig != nil {
		// strikes at the k-th operation (statement or API write) from now on
		f := p.Trig[r.Intn(len(p.Trig))]
		k := 1 + r.Intn(90)
		if p.Enum {
			id := int(seed%1000003) / NumProfiles
			f = p.Trig[id%len(p.Trig)]
			k = 1 + id/len(p.Trig)%80
		}
		s.armTrigger(f, k)
		done = append(done, fmt.Sprintf("%s@%d", f, k))
	}
	for range steps {
		f := p.Faults[s.rnd(len(p.Faults))]
		if s.Do(f) {
			done = append(done, f)
			rep.Count("fault_"+f, 1)
		}
		s.nap(p.Gap)
	}
	s.Finish(p)
	if trig == "" || rep.Counter(trig) > before {
		rep.Eval(prof + "/" + strings.Join(done, ",") + "/" + strings.Join(s.M.trans, ">"))
	} else {
		rep.Eval("")
	}
	if seed%17 == 1 {
		rep.Sample(cs + ": " + strings.Join(done, ",") + "; states " + strings.Join(s.M.trans, ">") + fmt.Sprintf("; %d rounds, %d acks, %d switchovers, %d failovers", s.M.Rounds, s.M.acks, s.M.Switches, s.M.Failovers))
	}
	s.Close()
	return s
}

// Heal removes every fault (Mu held).
func (s *Sim) heal() {
	s.M.SQLFault = nil
	s.APIFault = nil
	s.cloneFail = nil
	s.onOp = nil
	s.noFlap = true
	for k := range s.W.Cut {
		delete(s.W.Cut, k)
	}
	for _, in := range s.W.Insts {
		in.Hung, in.CtlReach = false, true
		in.ApplyPausedUntil, in.IOPausedUntil = time.Time{}, time.Time{}
		in.DelayOverride = -1
	}
	for i, k := range s.kub {
		k.noRestart = false
		if !s.W.Insts[i].Up && k.bootAt.IsZero() {
			k.bootAt = time.Now()
		}
	}
	s.M.observe()
}

// Finish heals everything and checks where the cluster ends up.
func (s *Sim) Finish(p *Profile) {
	s.W.Mu.Lock()
	s.W.Logf("HEAL")
	s.heal()
	restoring := s.T.Restore && !s.T.Restored
	offline := s.T.Offline
	paused := s.paused
	s.W.Mu.Unlock()
	if paused {
		s.paused = false
		s.mgr(func(m clustering.ClusterManager) { m.Update(s.key(), "resume") })
	}
	if offline {
		s.EditCluster(func(c *mocov1beta2.MySQLCluster) { c.Spec.Offline = false })
	}
	if restoring {
		s.nap(20000)
		s.restored()
	}
	deadline := time.Now().Add(600 * time.Second)
	lostSince := time.Time{}
	ok := false
	for time.Now().Before(deadline) {
		time.Sleep(500 * time.Millisecond)
		s.W.Mu.Lock()
		st := s.M.state
		s.heal()
		// the documented repair of errant replicas: delete the volume and the pod
		wipe := -1
		if st == "Degraded" || st == "Incomplete" {
			for i := range s.kub {
				if i != s.T.Index && s.M.errant(i) && !s.T.Pods[i].Deleting && time.Since(s.M.lastNotErrant[i]) > 30*time.Second &&
					s.T.Pods[i].Exists && s.M.primOK() && s.W.Acked.Subset(s.W.Insts[s.T.Index].Executed) {
					wipe = i
				}
			}
		}
		// an old primary with sessions waiting for acknowledgments is treated as
		// unavailable (docs/clustering.md); the administrator restarts it
		hang := -1
		if st != "Healthy" && s.M.primOK() {
			for i := range s.kub {
				if i != s.T.Index && s.W.Insts[i].Up && s.W.Insts[i].Waiting() > 0 && time.Since(s.M.sigSince) > 30*time.Second && !s.T.Pods[i].Deleting {
					hang = i
				}
			}
		}
		caught := st == "Healthy"
		if caught {
			for i := range s.kub {
				if !s.W.Insts[s.T.Index].Executed.Minus(s.W.Insts[i].Executed).Empty() && time.Since(s.M.sigSince) < 30*time.Second {
					caught = false
				}
			}
		}
		for i := range s.kub {
			if !s.T.Pods[i].Exists || s.T.Pods[i].Deleting {
				caught = false
			}
		}
		if caught && time.Since(s.M.sigSince) > 12*time.Second {
			ok = true
		}
		if st == "Lost" {
			if lostSince.IsZero() {
				lostSince = time.Now()
			}
		} else {
			lostSince = time.Time{}
		}
		stop := ok || s.stuck != "" && time.Since(s.M.sigSince) > 60*time.Second || !lostSince.IsZero() && time.Since(lostSince) > 60*time.Second
		s.W.Mu.Unlock()
		if stop {
			break
		}
		if wipe >= 0 {
			s.DeletePod(wipe, false, true)
		}
		if hang >= 0 {
			s.DeletePod(hang, false, false)
		}
	}
	// let the writers stop, so that the copies can be compared
	s.stopClients()
	s.cwg.Wait()
	s.W.Mu.Lock()
	s.cctx, s.stopClients = context.WithCancel(context.Background())
	s.W.Mu.Unlock()
	s.cwg.Add(1)
	go func() {
		defer s.cwg.Done()
		for sleepCtx(s.cctx, 200*time.Millisecond) {
			s.W.Mu.Lock()
			s.kubeTick()
			s.W.Mu.Unlock()
		}
	}()
	time.Sleep(8 * time.Second)
	s.W.Mu.Lock()
	defer s.W.Mu.Unlock()
	st := s.M.state
	s.Rep.Count("final_"+st, 1)
	for k := range s.W.Unknown {
		s.Rep.Note("unknown SQL: " + k)
	}
	if !ok {
		if st == "Lost" || s.stuck != "" || s.M.Unsafe != "" {
			s.Rep.Count("not_convergeable", 1)
			return
		}
		s.M.violate("C11", "the cluster does not become Healthy after the faults ended", fmt.Sprintf("state %s; %s", st, s.M.sigShape()))
		return
	}
	if st != "Healthy" {
		// something was still under way (e.g. a late clone); judged above only
		s.Rep.Count("left_healthy_at_end", 1)
		return
	}
	s.Rep.Count("converged", 1)
	if s.stuck != "" {
		return
	}
	p0 := s.W.Insts[s.T.Index]
	for i := range s.kub {
		want := constants.RoleReplica
		if i == s.T.Index {
			want = constants.RolePrimary
		}
		if s.T.Pods[i].Role != want {
			s.M.violate("C07", "role label of a settled cluster", fmt.Sprintf("pod %d has role %q, want %q", i, s.T.Pods[i].Role, want))
			s.M.violate("C11", "role label of a settled cluster", fmt.Sprintf("pod %d has role %q, want %q", i, s.T.Pods[i].Role, want))
		}
		if s.T.Pods[i].Demote && i == s.T.Index && s.T.Replicas > 1 && !s.M.delayed() {
			s.M.violate("C03", "a requested switchover does not happen", fmt.Sprintf("pod %d still carries the demote annotation and is the primary", i))
		}
		in := s.W.Insts[i]
		if i != s.T.Index {
			if d := p0.Executed.Minus(in.Executed); !d.Empty() && !s.T.Intermediate {
				s.M.violate("C11", "a replica of a settled cluster lacks transactions", fmt.Sprintf("instance %d lacks %v", i, d))
			}
			if in.SemiSlave == s.T.Intermediate {
				s.M.violate("C08", "semi-sync setting of a replica of a settled cluster", fmt.Sprintf("instance %d", i))
			}
			if !in.SuperReadOnly {
				s.M.violate("C02", "writable replica in a settled cluster", fmt.Sprintf("instance %d", i))
			}
		}
		if s.M.Unsafe == "" {
			if d := s.W.Acked.Minus(in.Executed); !d.Empty() {
				s.M.violate("C01", "an acknowledged transaction is missing at the end", fmt.Sprintf("instance %d lacks %v", i, d))
			}
		}
	}
	if n := s.T.Replicas; n > 1 && !s.T.Intermediate {
		if !p0.SemiMaster || p0.WaitCount != n/2 || p0.SemiTimeout < 3600*1000 {
			s.M.violate("C08", "semi-sync of the primary of a settled cluster", fmt.Sprintf("enabled=%v count=%d timeout=%d, n=%d", p0.SemiMaster, p0.WaitCount, p0.SemiTimeout, n))
		}
	}
	if s.T.Intermediate != p0.ReadOnly {
		s.M.violate("C02", "writability of the primary of a settled cluster", fmt.Sprintf("read_only=%v intermediate=%v", p0.ReadOnly, s.T.Intermediate))
	}
	s.Rep.Count("final_acked", int(s.W.Acked.Count()))
}
