package ctl

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/vlib"
)

// loop runs cases until the budget is used up.
func loop(rep *vlib.Report, f func(prof string, seed int64)) {
	profs := strings.Split(os.Getenv("VERIF_PROFILES"), ",")
	n := vlib.EnvInt("VERIF_N", 5)
	budget := time.Duration(vlib.EnvInt("VERIF_BUDGET", 3600)) * time.Second
	shard, shards := vlib.Shard()
	t0 := time.Now()
	if one := vlib.EnvInt("VERIF_ONE", -1); one >= 0 {
		f(profs[0], int64(one))
		return
	}
	for k := range n {
		if time.Since(t0) > budget {
			rep.Note("budget used up")
			break
		}
		id := k*shards + shard
		f(profs[id%len(profs)], vlib.Seed()*1000003+int64(id))
		rep.FlushEvery()
		if rep.Violated() && os.Getenv("VERIF_KEEPGOING") == "" {
			break
		}
	}
}

func TestScenarios(t *testing.T) {
	rep := vlib.New()
	defer rep.Flush(true)
	loop(rep, func(prof string, seed int64) {
		if prof == "adm" {
			cs := fmt.Sprintf("adm/%d", seed)
			rep.Begin(cs)
			runAdm(gen{rand.New(rand.NewSource(seed))}, rep, 150, cs)
			rep.Eval(cs)
			return
		}
		if prof == "mycnf" {
			runConf(gen{rand.New(rand.NewSource(seed))}, rep, 200)
			return
		}
		synctest.Test(t, func(t *testing.T) {
			s := newScn(prof, seed, rep)
			rep.Begin(s.cs)
			switch prof {
			case "rolling", "rollbig":
				s.rolling(prof == "rollbig")
			default:
				s.run()
			}
			acts := append([]string{}, s.acts...)
			rep.Eval(prof + ":" + strings.Join(acts, ","))
			if seed%97 == 0 {
				rep.Sample(s.cs + ": " + strings.Join(acts, " ") + " " + counts(s.cnt))
			}
			if os.Getenv("VERIF_TRACE") == "all" {
				t.Log("\n" + strings.Join(s.w.Log, "\n"))
			}
		})
	})
}

func counts(c map[string]int) string {
	var r []string
	for k, v := range c {
		r = append(r, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func TestEvents(t *testing.T) {
	rep := vlib.New()
	defer rep.Flush(true)
	shard, _ := vlib.Shard()
	seed := vlib.Seed()*1000 + int64(shard)
	budget := time.Duration(vlib.EnvInt("VERIF_BUDGET", 20)) * time.Second
	runEv(gen{rand.New(rand.NewSource(seed))}, rep, budget, fmt.Sprintf("events/%d", seed))
}
