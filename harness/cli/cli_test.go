package cli

import (
	"os"
	"testing"
	"time"

	"verifharness/vlib"
)

func loop(t *testing.T, f func(seed int64, rep *vlib.Report, dir string)) {
	rep := vlib.New()
	defer rep.Flush(true)
	n := vlib.EnvInt("VERIF_N", 5)
	budget := time.Duration(vlib.EnvInt("VERIF_BUDGET", 3600)) * time.Second
	shard, shards := vlib.Shard()
	t0 := time.Now()
	one := func(seed int64) {
		dir, err := os.MkdirTemp("", "vcli")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		f(seed, rep, dir)
	}
	if k := vlib.EnvInt("VERIF_ONE", -1); k >= 0 {
		one(int64(k))
		return
	}
	for k := range n {
		if time.Since(t0) > budget {
			rep.Note("budget used up")
			break
		}
		one(vlib.Seed()*1000003 + int64(k*shards+shard))
		rep.FlushEvery()
		if rep.Violated() && os.Getenv("VERIF_KEEPGOING") == "" {
			break
		}
	}
}

func TestPlugin(t *testing.T) {
	loop(t, func(seed int64, rep *vlib.Report, dir string) {
		rep.Begin("plugin")
		runPlugin(seed, rep, dir)
	})
}

func TestAgent(t *testing.T) {
	loop(t, func(seed int64, rep *vlib.Report, dir string) {
		rep.Begin("agent")
		runAgent(seed, rep, dir)
	})
}
