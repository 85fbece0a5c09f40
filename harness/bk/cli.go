package bk

import (
	"bytes"
	"context"
	"encoding/pem"
	"errors"
	"fmt"
	"net"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verifharness/mysim"
)

// real lets the jobs run as processes of the moco-backup command, in real time,
// with the API server and the object storage reached over loopback.
type real struct {
	api, store *httptest.Server
	s3         *Store
	sql        net.Listener
	kind       string
	kube       string
	bin        string
	bad        string
}

// lockStep makes the store use the lock and the objects of the scenario.
func (s *scn) startReal(sock string) error {
	r := &real{bin: filepath.Join(os.Getenv("VERIF_BINS"), "mb"), kind: []string{"s3", "s3", "s3tls", "gcs", "azure"}[s.rng.Intn(5)]}
	s.real = r
	s.w.real = true
	r.api = httptest.NewServer(s.api)
	st := newStore(s.rng, "bkt-"+strconv.Itoa(s.rng.Intn(1000)))
	st.mu, st.objs = &s.w.mu, s.mem.Objs
	st.page = 1000
	st.onPublish = func(key string, b []byte) {
		s.w.logf("bucket: stored %s (%d bytes)", key, len(b))
		s.onStore(key, b)
	}
	r.s3 = st
	if r.kind == "s3tls" {
		r.store = httptest.NewTLSServer(st)
	} else {
		r.store = httptest.NewServer(st)
	}
	r.kube = filepath.Join(s.w.root, "kubeconfig")
	conf := fmt.Sprintf("apiVersion: v1\nkind: Config\nclusters: [{name: c, cluster: {server: %q}}]\nusers: [{name: u, user: {}}]\ncontexts: [{name: x, context: {cluster: c, user: u}}]\ncurrent-context: x\n", r.api.URL)
	if err := os.WriteFile(r.kube, []byte(conf), 0o600); err != nil {
		return err
	}
	if r.kind == "s3tls" {
		b := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: r.store.Certificate().Raw})
		if err := os.WriteFile(filepath.Join(s.w.root, "ca.crt"), b, 0o600); err != nil {
			return err
		}
	}
	ln, err := net.Listen("unix", sock)
	if err != nil {
		return err
	}
	r.sql = ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serveSQL(c)
		}
	}()
	return nil
}

func (s *scn) stopReal() {
	s.real.api.Close()
	s.real.store.Close()
	_ = s.real.sql.Close()
}

func (s *scn) serveSQL(c net.Conn) {
	defer c.Close()
	w := s.w
	var addr []byte
	b := make([]byte, 1)
	for {
		if _, err := c.Read(b); err != nil {
			return
		}
		if b[0] == '\n' {
			break
		}
		addr = append(addr, b[0])
	}
	host, port, err := net.SplitHostPort(string(addr))
	if err != nil {
		return
	}
	w.mu.Lock()
	i := w.find(host)
	ok := i != nil && i.Up && port == "3306"
	if ok {
		w.conns[c] = true
	}
	w.mu.Unlock()
	if !ok {
		return
	}
	if _, err := c.Write([]byte("+")); err != nil {
		return
	}
	_ = mysim.ServeWire(c, i.Ver, 1, func(u string) (string, bool) { return i.pass, u == i.user }, func(u string) mysim.Handler {
		return func(stmt string) (*mysim.Result, error) { return w.sql(i, stmt) }
	})
}

// exec runs moco-backup; the error is nil if and only if it exits with 0.
func (s *scn) exec(ctx context.Context, dir, pass string, args ...string) error {
	r := s.real
	// as in the Job that MOCO makes
	global := []string{"--threads=" + strconv.Itoa(s.threads)}
	env := []string{"PATH=" + os.Getenv("PATH"), "TZ=" + os.Getenv("TZ"), "HOME=/nonexistent", "KUBECONFIG=" + r.kube, "VERIF_SOCK=" + s.w.sock, "VERIF_SQL=" + r.sql.Addr().String(),
		"AWS_ACCESS_KEY_ID=a", "AWS_SECRET_ACCESS_KEY=b", "AWS_EC2_METADATA_DISABLED=true", "TMPDIR=" + dir, "GOTRACEBACK=all"}
	if pass != "" {
		env = append(env, "MYSQL_PASSWORD="+pass)
	}
	switch r.kind {
	case "s3", "s3tls":
		if s.rng.Intn(2) == 0 {
			global = append(global, "--backend-type=s3")
		}
		r.s3.region = []string{"us-east-1", "ap-northeast-1"}[s.rng.Intn(2)]
		global = append(global, "--region="+r.s3.region, "--endpoint="+r.store.URL, "--use-path-style")
		if r.kind == "s3tls" {
			global = append(global, "--ca-cert="+filepath.Join(s.w.root, "ca.crt"))
		}
	case "gcs":
		global = append(global, "--backend-type=gcs")
		env = append(env, "STORAGE_EMULATOR_HOST="+strings.TrimPrefix(r.store.URL, "http://"))
	case "azure":
		global = append(global, "--backend-type=azure")
		env = append(env, "AZURE_STORAGE_CONNECTION_STRING=DefaultEndpointsProtocol=http;AccountName=devstoreaccount1;AccountKey=Eby8vdM02xNOcqFlqUwJPLlmEtlCDXJ1OUzFT50uSRZ6IFsuFq2UVErCz4I6tq/K1SZFPTOtr/KBHBeksoGMGw==;BlobEndpoint="+r.store.URL+"/devstoreaccount1;")
	}
	global = append(global, "--work-dir="+dir)
	if s.rng.Intn(2) == 0 {
		args = append(append([]string{}, args...), global...)
	} else {
		args = append(append([]string{}, global...), args...)
	}
	s.w.mu.Lock()
	s.w.home = dir
	s.w.logf("moco-backup %s", strings.Join(args, " "))
	s.w.mu.Unlock()
	ctx, cancel := context.WithTimeout(ctx, 80*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, args...)
	cmd.Env = env
	cmd.Dir = s.w.root
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	for _, l := range strings.Split(strings.TrimSpace(out.String()), "\n") {
		s.w.logf("| %s", l)
	}
	if ctx.Err() != nil {
		s.viol("B05", "hangs", "moco-backup %v does not end", args)
	}
	if o := out.String(); strings.Contains(o, "panic:") && strings.Contains(o, "goroutine ") && !strings.Contains(o, "bad connection: retrying") {
		s.viol("B05", "crash", "moco-backup %v crashed: %.400s", args, o[strings.Index(o, "panic:"):])
	}
	for _, o := range r.s3.odd {
		s.rep.Note("not modelled: " + o)
	}
	r.s3.odd = nil
	if r.s3.wrongRegion != "" {
		s.viol("B05", "region", "the request was signed for %s instead of the region %s", r.s3.wrongRegion, r.s3.region)
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			return fmt.Errorf("exec: %w", err)
		}
		l := strings.Split(strings.TrimSpace(out.String()), "\n")
		return fmt.Errorf("exit %d: %s", ee.ExitCode(), l[len(l)-1])
	}
	return nil
}

// misuse: wrong calls must fail and touch nothing.
func (s *scn) misuse(ctx context.Context) {
	w := s.w
	dir := s.workDir()
	defer os.RemoveAll(dir)
	pass := "backup-pw"
	var args []string
	switch s.rng.Intn(7) {
	case 0:
		pass, args = "", []string{"backup", s.real.s3.name, s.ns, s.name}
	case 1:
		args = []string{"backup", s.real.s3.name, s.ns}
	case 2:
		args = []string{"restore", s.real.s3.name, s.ns, s.name, "ns9", "copy", "2000-01-01", "", ""}
	case 3:
		args = []string{"backup", s.real.s3.name, s.ns, "nothere"}
	case 4:
		args = []string{"restore", s.real.s3.name, s.ns, s.name, "ns9", "copy", "20000101-000000"}
	case 5:
		pass, args = "wrong", []string{"backup", s.real.s3.name, s.ns, s.name}
	case 6:
		args = []string{"backup", "nobucket", s.ns, s.name}
	}
	w.mu.Lock()
	before, keys := js(s.cluster().Status), len(s.mem.Objs)
	w.logf("--- misuse %v", args)
	s.run = &bkRun{start: w.now(), pre: *s.cluster().Status.Backup.DeepCopy(), first: true}
	s.api.edit = nil
	w.mu.Unlock()
	s.arm(nil)
	err := s.exec(ctx, dir, pass, args...)
	w.mu.Lock()
	defer w.mu.Unlock()
	s.run = nil
	s.rep.Count("cli_misuses", 1)
	if err == nil {
		s.viol("B05", "exit code", "moco-backup %v (password %q) exited with 0", args, pass)
	}
	if js(s.cluster().Status) != before || len(s.mem.Objs) != keys {
		s.viol("B05", "misuse", "moco-backup %v (password %q) changed the bucket or the status", args, pass)
	}
}
