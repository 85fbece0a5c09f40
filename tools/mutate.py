#!/usr/bin/env python3
"""mutate.py FILE [NAME...]: development tool. FILE defines MUTANTS = [(name,
[props], file, old, new), ...]; each is applied to a scratch copy of /repo and
the checks of the properties are run against the copy."""
import os, subprocess, sys, shutil, importlib.util, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
secs = os.environ.get("VERIF_SECONDS")
for mu in m.MUTANTS:
    name, props = mu[0], mu[1]
    edits = mu[2] if isinstance(mu[2], list) else [mu[2:5]]
    if want and name not in want:
        continue
    wt = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(wt, "repo")
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run("mkdir %s && git -C %s archive HEAD | tar -x -C %s" % (repo, os.environ.get("BASE", "/repo"), repo), shell=True, check=True)
        ok = True
        for f, old, new in edits:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1:
                print("%-28s BAD EDIT: %d matches in %s" % (name, s.count(old), f)); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(wt, "ev"), GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
        r = subprocess.run(["go", "build", "./..."], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode:
            print("%-28s DOES NOT BUILD %s" % (name, r.stderr[-500:])); continue
        os.makedirs(os.path.join(wt, "ev"))
        for p in props:
            r = subprocess.run([os.path.join(HERE, "check"), p, "quick"], env=env, capture_output=True, text=True)
            line = [l for l in r.stdout.splitlines() if l][:1]
            print("%-28s %s rc=%d %s" % (name, p, r.returncode, (line or [""])[0][:230]), flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
