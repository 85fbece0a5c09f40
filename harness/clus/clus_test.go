package clus

import (
	"os"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/vlib"
)

// TestScenarios runs the scenarios of the profiles in VERIF_PROFILES, VERIF_N of
// them in each shard.
func TestScenarios(t *testing.T) {
	rep := vlib.New()
	defer rep.Flush(true)
	profs := strings.Split(os.Getenv("VERIF_PROFILES"), ",")
	NumProfiles = len(profs)
	n := vlib.EnvInt("VERIF_N", 5)
	budget := time.Duration(vlib.EnvInt("VERIF_BUDGET", 3600)) * time.Second
	shard, shards := vlib.Shard()
	t0 := time.Now()
	if one := vlib.EnvInt("VERIF_ONE", -1); one >= 0 {
		synctest.Test(t, func(t *testing.T) {
			s := RunScenario(profs[0], int64(one), rep, nil)
			if os.Getenv("VERIF_TRACE") == "all" {
				t.Log("\n" + s.W.Log.String())
			}
		})
		return
	}
	for k := range n {
		if time.Since(t0) > budget {
			rep.Note("budget used up")
			break
		}
		id := k*shards + shard
		seed := vlib.Seed()*1000003 + int64(id)
		prof := profs[id%len(profs)]
		synctest.Test(t, func(t *testing.T) {
			RunScenario(prof, seed, rep, nil)
		})
		rep.FlushEvery()
		if rep.Violated() && os.Getenv("VERIF_KEEPGOING") == "" {
			break
		}
	}
}
