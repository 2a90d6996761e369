"""Infrastructure shared by the checks: building from /repo, running the batch driver,
projecting headers, running TLC, reporting."""
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(TARGET, "debug", "harness")
CLI = os.path.join(TARGET, "debug", "cbindgen")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def sh_env():
    env = dict(os.environ)
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.inc.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE)
    for kv in p.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            k = k.decode()
            if k.startswith(("RUST", "CARGO", "PATH")):
                env[k] = v.decode()
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    return env


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")]
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs")]
    files.append(os.path.join(VERIF, "harness", "Cargo.toml"))
    for r in roots:
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
    return h.hexdigest()


def cargo(args, cwd):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=sh_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), p.stdout[-4000:]))


def build(cli=False):
    """build the batch driver (and the command line tool) from /repo's working tree"""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "vp-tree")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    hd = os.path.join(VERIF, "harness")
    if have and have != want:
        subprocess.run(["cargo", "clean", "--offline", "-p", "cbindgen"], cwd=hd, env=sh_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cargo(["build", "--offline", "--quiet"], hd)
    if cli:
        lock = os.path.join(REPO, "Cargo.lock")
        before = open(lock, "rb").read() if os.path.exists(lock) else None
        cargo(["build", "--offline", "--quiet", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--bin", "cbindgen"], REPO)
        after = open(lock, "rb").read() if os.path.exists(lock) else None
        if before != after and before is not None:
            open(lock, "wb").write(before)
    with open(stamp, "w") as f:
        f.write(want)


_tmp = []


def tmpdir():
    d = tempfile.mkdtemp(prefix="vp-")
    _tmp.append(d)
    return d


def cleanup():
    for d in _tmp:
        shutil.rmtree(d, ignore_errors=True)


def run_harness(cases, threads=CPUS, timeout=600):
    """cases: list of {id, src, runs:[{toml}], reps} -> {id: runs}"""
    d = tmpdir()
    inp, out = os.path.join(d, "in.ndjson"), os.path.join(d, "out.ndjson")
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    try:
        p = subprocess.run([HARNESS, inp, out, d, str(threads)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    res = {}
    if os.path.exists(out):
        with open(out) as f:
            for l in f:
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                res[r["id"]] = r["runs"]
    # a case the driver died on is data: the code under test aborted or hung
    lost = [c for c in cases if c["id"] not in res]
    if lost:
        if len(cases) == 1:
            res[cases[0]["id"]] = [{"reps": [{"status": "abort", "out": "", "sym": "", "err": "driver died: %s %s" % (rc, err[-300:])}] * c0(cases[0])}
                                   for _ in cases[0]["runs"]]
        elif rc == 0:
            raise ToolError("driver lost cases")
        else:
            half = max(1, len(lost) // 2)
            res.update(run_harness(lost[:half], threads, 60))
            if lost[half:]:
                res.update(run_harness(lost[half:], threads, 60))
    shutil.rmtree(d, ignore_errors=True)
    return res


def c0(c):
    return c.get("reps", 1)


KEEP = ("k", "n", "tag", "td", "gen", "attrs", "fields", "vals", "t", "v", "prim", "cond", "ext", "cls", "doc")


def _project(a):
    import hdr
    lang, r = a
    o = {"status": r["status"], "err": r["err"][:200], "decls": [], "sym": sym_list(r["sym"])}
    if r["status"] == "ok":
        try:
            o["decls"] = [{k: d[k] for k in KEEP} for d in hdr.parse(lang, r["out"]).decls]
        except (hdr.HdrError, IndexError) as e:
            o["status"] = "unparsable"
            o["err"] = str(e)[:300]
    o["err"] = ascii_(o["err"])
    return o


def ascii_(s):
    return "".join(ch if 32 <= ord(ch) < 127 else "?" for ch in s)


def sym_list(s):
    return [x.strip().rstrip(";") for x in s.splitlines() if x.strip() not in ("{", "};", "")]


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = multiprocessing.get_context("fork").Pool(CPUS)
    return _pool


def project(items):
    """[(lang, rep)] -> observations"""
    return pool().map(_project, items, chunksize=8)


def tlc(module, cfg, env=None, workers=CPUS, timeout=850, extra=(), heap="12g"):
    """run TLC; returns (stdout lines, stats)"""
    d = tmpdir()
    cf = os.path.join(d, "m.cfg")
    with open(cf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-config", cf, "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", "-cleanup"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    text = "\n".join(l for l in p.stdout.decode("utf-8", "replace").splitlines() if not l.startswith(("Parsing file", "Semantic proc", "Lint")))
    shutil.rmtree(d, ignore_errors=True)
    if workers > 1 and "TLC threw an unexpected exception" in text:
        # TLC's workers can race while they normalise a shared constant; a single one cannot
        return tlc(module, cfg, env, 1, timeout, extra, heap)
    st = {"generated": 0, "distinct": 0, "rc": p.returncode}
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", text):
        pass
    if m:
        st["generated"], st["distinct"] = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    if m:
        st["depth"] = int(m.group(1))
    return text, st


def judge(module, cfg, jobs, env=None, timeout=850, extra=(), retry=4):
    """run a trace spec over jobs (each with a unique "id"); returns {id: detail} of the
    rejected ones, plus TLC's statistics.  Every job must get exactly one verdict."""
    d = tmpdir()
    tr = os.path.join(d, "trace.ndjson")
    with open(tr, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    e = {"VP_TRACE": tr}
    e.update(env or {})
    text, st = tlc(module, cfg, e, timeout=timeout, extra=extra)
    if st["rc"] != 0 and "The error occurred when TLC was evaluating" in text and retry:
        # an observation outside the vocabulary of the specification: that job is rejected
        m = re.findall(r"\bid \|-> (\d+)", text)
        out = [j for j in jobs if m and str(j["id"]) == m[-1]]
        rest = [j for j in jobs if not (m and str(j["id"]) == m[-1])]
        if out and rest:
            bad, st = judge(module, cfg, rest, env, timeout, extra, retry - 1)
            bad[m[-1]] = "TLC cannot evaluate the observation: " + "; ".join(l for l in text.splitlines() if l.startswith(("Attempted", "The ", "Error")))[:300]
            return bad, st
    seen, bad = set(), {}
    for l in text.splitlines():
        if l.startswith('"@@'):
            i, v = l[3:].rstrip('"').split("@", 1)
            seen.add(i)
            if v != "<<>>":
                bad[i] = v.replace('\\"', '"')
    missing = [j["id"] for j in jobs if str(j["id"]) not in seen]
    shutil.rmtree(d, ignore_errors=True)
    if missing or st["rc"] != 0:
        raise ToolError("TLC gave no verdict on %d of %d jobs (rc %s)\n%s" % (len(missing), len(jobs), st["rc"], text[-3000:]))
    return bad, st


def model(module, cfg, timeout=850, extra=()):
    """model check a configuration with invariants; returns (ok, text, stats)"""
    text, st = tlc(module, cfg, timeout=timeout, extra=extra)
    if "Model checking completed. No error has been found" in text:
        return True, text, st
    if "is violated" in text or "violated by" in text:
        return False, text, st
    raise ToolError("TLC failed on %s\n%s" % (module, text[-3000:]))


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.samples = []
        self.notes = []
        self.known = []

    def stats(self, st):
        self.cov["states"] += st.get("distinct", 0)
        self.cov["transitions"] += st.get("generated", 0)

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def note(self, s):
        self.notes.append(s)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def violation(self, what, files):
        """files: {name: text} written beside the description"""
        n = len(self.violations)
        if n >= 5:
            self.violations.append((what, ""))
            return
        d = os.path.join(VERIF, "replays", "%s-%s-%d" % (self.prop, self.tier, n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "what.txt"), "w") as f:
            f.write(what + "\n")
        for k, v in files.items():
            with open(os.path.join(d, k), "w") as f:
                f.write(v)
        self.violations.append((what, d))

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": dict(self.cov), "wall_s": round(wall, 2)}
        ev["coverage"]["samples"] = self.samples or ["none"]
        if self.notes:
            ev["notes"] = self.notes
        ev["result"] = "violated" if self.violations else "held"
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, d in self.violations[:5]:
            print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
        if len(self.violations) > 5:
            print("  (%d more)" % (len(self.violations) - 5))
        print("%s %s: %s; %d states, %d traces, %.1fs" % (self.prop, self.tier, ev["result"], self.cov["states"],
              self.cov["traces_validated_against_impl"], wall))
        cleanup()
        return 1 if self.violations else 0
