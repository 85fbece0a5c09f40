package bk

import (
	"sync"

	"verifharness/ctl"
	"verifharness/perm"
)

type jobRules struct {
	backup, restore perm.Rules
	ok              bool
}

var rulesOf = func() func(ns, name string) jobRules {
	var mu sync.Mutex
	seen := map[string]jobRules{}
	return func(ns, name string) jobRules {
		mu.Lock()
		defer mu.Unlock()
		k := ns + "/" + name
		r, ok := seen[k]
		if !ok {
			r.backup, r.restore, r.ok = ctl.JobRules(ns, name)
			seen[k] = r
		}
		return r
	}
}()

// asJob makes the API judge requests by what the controller granted to the
// Job of the cluster ("": nothing is judged).
func (s *scn) asJob(kind, ns, name string) {
	if !s.rep.Wants("M02") {
		return
	}
	var job *perm.Rules
	if kind != "" {
		r := rulesOf(ns, name)
		if !r.ok {
			s.rep.Count("job_rules_unknown", 1)
		} else if kind == "backup" {
			job = &r.backup
		} else {
			job = &r.restore
		}
	}
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	s.api.job = job
	s.api.asked = func(verb, group, res, obj string, ok bool) {
		s.rep.Count("job_permission_checks", 1)
		s.rep.Sig("perm " + kind + " " + verb + " " + res)
		if !ok {
			s.viol("M02", "a request of the job is not permitted", "the %s Job's ServiceAccount of %s/%s may not %s %s %s", kind, ns, name, verb, res, obj)
		}
	}
}
