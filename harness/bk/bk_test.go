package bk

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/vlib"
)

func loop(rep *vlib.Report, f func(prof string, seed int64)) {
	profs := strings.Split(os.Getenv("VERIF_PROFILES"), ",")
	n := vlib.EnvInt("VERIF_N", 5)
	budget := time.Duration(vlib.EnvInt("VERIF_BUDGET", 3600)) * time.Second
	shard, shards := vlib.Shard()
	t0 := time.Now()
	if one := vlib.EnvInt("VERIF_ONE", -1); one >= 0 {
		f(profs[0], int64(one))
		return
	}
	for k := range n {
		if time.Since(t0) > budget {
			rep.Note("budget used up")
			break
		}
		id := k*shards + shard
		f(profs[id%len(profs)], vlib.Seed()*1000003+int64(id))
		rep.FlushEvery()
		if rep.Violated() && os.Getenv("VERIF_KEEPGOING") == "" {
			break
		}
	}
}

// TestJobs runs histories of backups and restores.
func TestJobs(t *testing.T) { jobs(t, false) }

// TestCLI runs them through the command, as the Jobs do.
func TestCLI(t *testing.T) { jobs(t, true) }

func jobs(t *testing.T, cli bool) {
	rep := vlib.New()
	defer rep.Flush(true)
	// the jobs log to the standard streams
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	out, errw := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	defer func() { os.Stdout, os.Stderr = out, errw }()
	base, err := os.MkdirTemp("", "vbk")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	bin := filepath.Join(base, "bin")
	if err := os.Mkdir(bin, 0o755); err != nil {
		t.Fatal(err)
	}
	tool := os.Getenv("VERIF_TOOL")
	for _, n := range []string{"mysqlsh", "mysqlbinlog", "mysql", "tar", "zstd"} {
		if err := os.Symlink(tool, filepath.Join(bin, n)); err != nil {
			t.Fatal(err)
		}
	}
	os.Setenv("PATH", bin+":/usr/bin:/bin")
	loop(rep, func(prof string, seed int64) {
		root := filepath.Join(base, "w")
		if err := os.Mkdir(root, 0o755); err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(root)
		s := newScn(prof, seed, rep, root, filepath.Join(base, "sock"))
		os.Setenv("VERIF_SOCK", s.w.sock)
		if err := s.w.serveTools(); err != nil {
			t.Fatal(err)
		}
		defer func() { s.w.ln.Close(); s.w.toolWG.Wait() }()
		rep.Begin(s.cs)
		dogTime := 100 * time.Second
		if cli {
			dogTime = 300 * time.Second
		}
		dog := time.AfterFunc(dogTime, func() {
			prop := "B01"
			if s.rst != nil {
				prop = "B03"
			}
			rep.Violate(prop, "hangs", "the job does not end", s.cs, strings.Join(s.w.Log, "\n"), "")
			rep.Flush(true)
			os.Exit(1)
		})
		defer dog.Stop()
		if cli {
			if err := s.startReal(filepath.Join(base, "sql")); err != nil {
				t.Fatal(err)
			}
			s.runAll()
			s.stopReal()
			rep.Eval(prof + ":" + strings.Join(s.acts, ","))
			if os.Getenv("VERIF_TRACE") == "all" {
				_, _ = errw.WriteString(strings.Join(s.w.Log, "\n") + "\n")
			}
			return
		}
		func() {
			// a job that fails may leave goroutines of commands behind; the process would end
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(error); !ok || !strings.Contains(e.Error(), "blocked goroutines remain") {
						panic(r)
					}
					rep.Count("left_goroutines", 1)
				}
			}()
			synctest.Test(t, func(t *testing.T) { s.runAll() })
		}()
		rep.Eval(prof + ":" + strings.Join(s.acts, ","))
		if seed%97 == 0 {
			rep.Sample(s.cs + ": " + strings.Join(s.acts, " "))
		}
		if os.Getenv("VERIF_TRACE") == "all" {
			_, _ = errw.WriteString(strings.Join(s.w.Log, "\n") + "\n")
		}
	})
}

// bubble runs f in virtual time; goroutines left behind by the libraries are not judged.
func bubble(t *testing.T, rep *vlib.Report, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); !ok || !strings.Contains(e.Error(), "blocked goroutines remain") {
				panic(r)
			}
			rep.Count("left_goroutines", 1)
		}
	}()
	synctest.Test(t, func(t *testing.T) { f() })
}

// TestBuckets runs the object storage adapters against fake services.
func TestBuckets(t *testing.T) {
	rep := vlib.New()
	defer rep.Flush(true)
	os.Setenv("AWS_EC2_METADATA_DISABLED", "true")
	os.Setenv("AWS_CONFIG_FILE", "/nonexistent")
	os.Setenv("AWS_SHARED_CREDENTIALS_FILE", "/nonexistent")
	n := 0
	shard, _ := vlib.Shard()
	loop(rep, func(prof string, seed int64) {
		rep.Begin(prof)
		n++
		bubble(t, rep, func() { runBucket(prof, seed, rep, n == 2 && shard < 3) })
	})
}
