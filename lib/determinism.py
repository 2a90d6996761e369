"""C01: the same input gives the same bytes: repeated runs in one process, fresh processes with other
environments and working directories, other locations of the same tree."""
import hashlib
import os
import shutil
import subprocess

import conform
import crates
import rust
import vp

ENVS = [dict(LANG="C", TZ="UTC", HOME="/nonexistent"), dict(LANG="tr_TR.UTF-8", TZ="Asia/Tokyo", RUST_LOG="warn", CARGO_TARGET_TMPDIR="/x"),
        dict(LC_ALL="de_DE.UTF-8", COLUMNS="20", USER="nobody", SOURCE_DATE_EPOCH="1")]


def cli_runs(a):
    """one case through fresh command line processes -> digests comparable with conform.digest"""
    src, toml, root, i, k = a
    out = []
    for e in range(k):
        d = os.path.join(root, "%s%d_%d" % ("abcdef"[e], i, e))
        os.makedirs(os.path.join(d, "w"))
        sp, cp, op, yp = (os.path.join(d, x) for x in ("lib.rs", "cbindgen.toml", "o.h", "o.sym"))
        open(sp, "w").write(src)
        open(cp, "w").write(toml)
        env = dict(ENVS[(i + e) % 3], PATH=os.environ["PATH"])
        try:
            p = subprocess.run([vp.CLI, "-q", "-c", cp, "-o", op, "--symfile", yp, sp], env=env, cwd=[d, os.path.join(d, "w"), "/"][e % 3],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        if rc == 0:
            r = dict(status="ok", out=open(op).read(), sym=open(yp).read(), err="")
        elif rc == 101:
            r = dict(status="panic", out="", sym="", err="")
        else:
            r = dict(status="err" if rc == 1 else "rc%s" % rc, out="", sym="", err="")
        out.append(conform.digest(r))
        shutil.rmtree(d, ignore_errors=True)
    return out


def check(rep, n, procs, trees, batch=1000):
    root = vp.tmpdir()
    done = 0
    while done < n and len(rep.violations) < 20:
        m = min(batch, n - done)
        cases = vp.pool().starmap(conform.make, [("C01", rep.seed, done + i, None) for i in range(m)], chunksize=16)
        k = [i for i in range(m) if (done + i) % max(1, n // procs) == 0]
        extra = dict(zip(k, vp.pool().map(cli_runs, [(rust.program(cases[i][0]), rust.toml(cases[i][1]), root, i, 2) for i in k], chunksize=4)))
        conform.run_cases(rep, "C01", cases, reps=4, more=lambda i, c: extra.get(i, []))
        done += m
    # module and dependency trees: three fresh processes, in different places
    jobs = vp.pool().starmap(crates.gen, [(rep.seed + 1000, i) for i in range(trees)], chunksize=16)
    runs = []
    for r in range(3):
        d = os.path.join(root, "tree" + "xyz"[r] * (1 + 4 * r))
        os.makedirs(d)
        runs.append(vp.pool().map(crates.run_one, [(j, d) for j in jobs], chunksize=8))
    for i, j in enumerate(jobs):
        j["obs"] = runs[0][i][0]
        j["runs"] = [hashlib.sha1((x[i][1] + str(x[i][0]["deps"])).encode()).hexdigest()[:12] for x in runs]
    bad, st = vp.judge("Crates", "SPECIFICATION CSpec\nCHECK_DEADLOCK FALSE\n", jobs)
    rep.stats(st)
    rep.traces(3 * trees)
    for b in sorted(bad, key=int):
        k = int(b)
        rep.violation("tree %s: %s" % (b, bad[b][:1500]), {"tree.txt": runs[0][k][2], "cmd.txt": runs[0][k][3], "header.txt": runs[0][k][1], "header2.txt": runs[1][k][1],
                                                           "header3.txt": runs[2][k][1], "diff.txt": bad[b]})
