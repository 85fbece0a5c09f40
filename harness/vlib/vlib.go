// Package vlib is the reporting side of the runtime monitors: every harness
// collects what its monitors observed in a Report and writes it out as JSON for
// the driver (/verif/check), which merges the shards and writes the evidence.
package vlib

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Violation is one refuted property together with what is needed to replay it.
type Violation struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Detail   string `json:"detail"`
	Case     string `json:"case"`
	Trace    string `json:"trace,omitempty"`
	// Known is the identifier of the entry in known_findings.json that this
	// violation matches (set by the driver).
	Key string `json:"key,omitempty"`
}

// Report is what one harness process observed.
type Report struct {
	mu          sync.Mutex
	Property    string            `json:"property"`
	Current     string            `json:"current"`
	Evaluations int               `json:"evaluations"`
	Distinct    map[string]int    `json:"distinct"`
	Seen        map[string]int    `json:"seen"`
	Counters    map[string]int    `json:"counters"`
	Samples     []string          `json:"samples"`
	Violations  []Violation       `json:"violations"`
	Notes       map[string]int    `json:"notes"`
	Meta        map[string]string `json:"meta"`
	Done        bool              `json:"done"`
	out         string
	lastWrite   time.Time
}

// New makes the report of this process from the environment set by the driver.
func New() *Report {
	return &Report{
		Property: Property(),
		Distinct: map[string]int{},
		Seen:     map[string]int{},
		Counters: map[string]int{},
		Notes:    map[string]int{},
		Meta:     map[string]string{},
		out:      os.Getenv("VERIF_OUT"),
	}
}

// Property is the id of the property under check.
func Property() string { return os.Getenv("VERIF_PROP") }

// Seed is VERIF_SEED.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Thorough tells whether the thorough tier was asked for.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Shard returns this worker's index and the number of workers.
func Shard() (int, int) {
	s := os.Getenv("VERIF_SHARD")
	a, b, ok := strings.Cut(s, "/")
	if !ok {
		return 0, 1
	}
	i, _ := strconv.Atoi(a)
	n, _ := strconv.Atoi(b)
	if n <= 0 {
		n = 1
	}
	return i, n
}

// EnvInt reads an integer from the environment.
func EnvInt(name string, def int) int {
	n, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return n
}

// Begin notes the case that is about to run, so that a crash can be attributed.
func (r *Report) Begin(c string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Current = c
	if r.out != "" {
		_ = os.WriteFile(r.out+".cur", []byte(c), 0o644)
	}
}

// Eval counts one evaluated case. sig is its distinctness signature; an empty
// sig means the case was trivial for the property.
func (r *Report) Eval(sig string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evaluations++
	if sig != "" {
		r.Distinct[sig]++
	}
}

// EvalN counts n evaluations with no signature.
func (r *Report) EvalN(n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evaluations += n
}

// Sig notes an observation of the monitors (a state, an action in a context);
// the number of distinct ones is part of the evidence.
func (r *Report) Sig(sig string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Seen[sig]++
}

// Count bumps a named counter.
func (r *Report) Count(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Counters[name] += n
}

// Counter reads a named counter.
func (r *Report) Counter(name string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.Counters[name]
}

// Note counts an informational remark.
func (r *Report) Note(name string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Notes[name]++
}

// Sample keeps up to 6 written-out cases.
func (r *Report) Sample(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, s)
	}
}

// Violate records a violation of property prop. Only those of the property
// under check are kept; others are noted.
func (r *Report) Violate(prop, rule, detail, cs, trace, key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.Property != "" && prop != r.Property && os.Getenv("VERIF_ALLPROPS") == "" {
		r.Notes["violation of another property "+prop+"/"+rule]++
		return
	}
	n := 0
	for _, v := range r.Violations {
		if v.Property == prop && v.Rule == rule {
			n++
		}
	}
	if n >= 5 || len(r.Violations) >= 60 {
		r.Counters["violations_dropped"]++
		return
	}
	if len(trace) > 200000 {
		trace = trace[len(trace)-200000:]
	}
	r.Violations = append(r.Violations, Violation{Property: prop, Rule: rule, Detail: detail, Case: cs, Trace: trace, Key: key})
}

// Wants tells whether violations of prop are recorded.
func (r *Report) Wants(prop string) bool {
	return r.Property == "" || prop == r.Property || os.Getenv("VERIF_ALLPROPS") != ""
}

// Violated tells whether violations of the property under check were recorded.
func (r *Report) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Violations) > 0
}

// Flush writes the report.
func (r *Report) Flush(done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Done = done
	if r.out == "" {
		b, _ := json.MarshalIndent(struct {
			E int
			D int
			O int
			C map[string]int
			N map[string]int
			S []string
		}{r.Evaluations, len(r.Distinct), len(r.Seen), r.Counters, r.Notes, r.Samples}, "", " ")
		fmt.Println(string(b))
		for _, v := range r.Violations {
			fmt.Printf("VIOL %s %s [%s] %s\n", v.Property, v.Rule, v.Case, v.Detail)
			if os.Getenv("VERIF_TRACE") != "" {
				fmt.Println(v.Trace)
			}
		}
		return
	}
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(r.out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(r.out+".tmp", r.out); err != nil {
		panic(err)
	}
}

// FlushEvery writes an interim report at most every 2 seconds of real time.
func (r *Report) FlushEvery() {
	if r.out == "" {
		return
	}
	r.mu.Lock()
	due := time.Since(r.lastWrite) > 2*time.Second
	if due {
		r.lastWrite = time.Now()
	}
	r.mu.Unlock()
	if due {
		r.Flush(false)
	}
}

// Keys returns the sorted keys of m.
func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
