"""Replay of the histories of spec/Files.tla against the real tool, in a scratch directory."""
import itertools
import os
import re
import shutil
import subprocess

import vp

SRC = {"s1": '/// one\n#[no_mangle] pub extern "C" fn first(a: *const Thing) {}\n#[repr(C)] pub struct Thing { a: u8, b: [u16; 3] }\npub const LIMIT: u32 = 7;\n',
       "s2": '#[no_mangle] pub extern "C" fn second(b: u32) -> u64 { 0 }\n#[no_mangle] pub static COUNT: u32 = 1;\npub const LIMIT: u32 = 8;\n',
       "broken": '#[no_mangle] pub extern "C" fn first( {{\n'}
CFG = {"c1": 'language = "C"\ninclude_guard = "GUARD_H"\n', "c2": 'language = "C++"\nnamespace = "ns"\nsort_by = "Name"\ntrailer = "/* end */"\n'}


def tla_value(s):
    """parse a printed TLA+ value (strings, sequences, records, booleans, integers)"""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \n\t":
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            out = []
            ws()
            while not s.startswith(">>", pos):
                out.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 2
            return out
        if s[pos] == "[":
            pos += 1
            rec = {}
            while True:
                ws()
                m = re.match(r"(\w+)\s*\|->", s[pos:])
                pos += m.end()
                rec[m.group(1)] = val()
                ws()
                if s[pos] == "]":
                    pos += 1
                    return rec
                pos += 1
        if s[pos] == "{":
            pos += 1
            out = []
            ws()
            while s[pos] != "}":
                out.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return out
        if s[pos] == '"':
            e = s.index('"', pos + 1)
            r = s[pos + 1:e]
            pos = e + 1
            return r
        m = re.match(r"-?\d+|TRUE|FALSE", s[pos:])
        pos += m.end()
        t = m.group(0)
        return {"TRUE": True, "FALSE": False}.get(t, int(t) if t not in ("TRUE", "FALSE") else None)
    return val()


def histories(rep, maxlen, simulate=None):
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nMode = \"x\"\nINVARIANTS Emit Fresh Idempotent\nPROPERTIES NoNeedlessWrite UntouchedSame VerifyExact FailSafe\nCHECK_DEADLOCK FALSE\n" % maxlen
    extra = []
    if simulate:
        extra = ["-simulate", "num=%d" % simulate, "-depth", str(maxlen + 1), "-seed", str(rep.seed)]
        cfg = cfg.replace("PROPERTIES NoNeedlessWrite UntouchedSame VerifyExact FailSafe\n", "")
    text, st = vp.tlc("Files", cfg, extra=extra, workers=1 if simulate else vp.CPUS)
    if "is violated" in text or "violated" in text:
        raise vp.ToolError("the model breaks its own property\n" + text[-2000:])
    if not simulate and "No error has been found" not in text:
        raise vp.ToolError(text[-2000:])
    out = []
    for l in text.splitlines():
        if l.startswith('"@@'):
            out.append(tla_value(l[3:-1].replace('\\"', '"')))
    if simulate:
        st["distinct"] = st["generated"] = sum(len(h) for h in out)
    rep.stats(st)
    return out


REF = {}


def reference(root):
    """the bytes of every header, from a run to standard output"""
    for s in ("s1", "s2"):
        for c in CFG:
            d = os.path.join(root, "ref-" + s + c)
            os.makedirs(d)
            open(os.path.join(d, "lib.rs"), "w").write(SRC[s])
            open(os.path.join(d, "c.toml"), "w").write(CFG[c])
            p = subprocess.run([vp.CLI, "-q", "-c", "c.toml", "lib.rs"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != 0 or not p.stdout:
                return "reference run %s/%s failed: %s" % (s, c, p.stderr[-300:])
            REF[(s, c)] = p.stdout
    if len(set(REF.values())) != 4:
        return "different inputs give the same header"
    return None


def content(tok):
    k = tok[0]
    if k == "absent":
        return None
    if k == "empty":
        return b""
    if k == "foreign":
        return b"/* something else entirely */\n"
    h = REF[(tok[1], tok[2])]
    return {"header": h, "prefix": h[:len(h) // 2], "longer": h + b"\n/* old tail */\n", "space": h.replace(b" ", b"  ", 1)}[k]


def read(p):
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()


def replay(a):
    hist, root, idx = a
    d = os.path.join(root, "h%d" % idx)
    os.makedirs(d)
    # the output lives in a directory that does not exist yet
    outp = os.path.join(d, "gen", "inc", "out.h")
    depp, symp = os.path.join(d, "dd", "out.d"), os.path.join(d, "ss", "out.sym")
    srcp, cfgp = os.path.join(d, "lib.rs"), os.path.join(d, "c.toml")
    state = dict(src="s1", cfg="c1")
    open(srcp, "w").write(SRC["s1"])
    open(cfgp, "w").write(CFG["c1"])
    bad = None
    nrun = 0
    env = dict(os.environ)
    for i, st in enumerate(hist):
        a, want = st["a"], st["o"]
        if a[0] == "src":
            open(srcp, "w").write(SRC[a[1]])
            state["src"] = a[1]
            continue
        if a[0] == "cfg":
            open(cfgp, "w").write(CFG[a[1]])
            state["cfg"] = a[1]
            continue
        if a[0] == "tamper":
            c = content(a[1:])
            if c is None:
                if os.path.exists(outp):
                    os.remove(outp)
            else:
                os.makedirs(os.path.dirname(outp), exist_ok=True)
                open(outp, "wb").write(c)
            continue
        nrun += 1
        had = os.path.exists(outp)
        if had:
            os.utime(outp, ns=(10**18, 10**18))
        e = dict(env)
        if a[0] == "nested":
            e["_CBINDGEN_IS_RUNNING"] = "1"
        if a[0] == "api" or a[-1] == "api":
            cmd = [vp.HARNESS, "api", srcp, cfgp, outp]
        else:
            cmd = [vp.CLI, "-q", "-c", cfgp]
            if a[0] != "stdout":
                cmd += ["-o", outp]
            if "verify" in a:
                cmd.append("--verify")
            if "extras" in a:
                cmd += ["--depfile", depp, "--symfile", symp]
            cmd.append(srcp)
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        got = dict(exit=p.returncode)
        now = read(outp)
        touched = now is not None and (not had or os.stat(outp).st_mtime_ns != 10**18)
        got["touched"] = touched
        got["ret"] = p.stdout.decode().strip() if a[0] == "api" or a[-1] == "api" else "none"
        if got["ret"] == "":
            got["ret"] = "none"
        got["stdout"] = "none"
        if cmd[0] == vp.CLI and p.stdout:
            got["stdout"] = "header" if state["src"] != "broken" and p.stdout == REF[(state["src"], state["cfg"])] else "other"
        diffs = ["%s: expected %r, observed %r" % (k, want[k], got[k]) for k in want if want[k] != got[k]]
        if now != content(st["out"]):
            diffs.append("output file is not %r" % (st["out"],))
        dd = read(depp)
        if st["dep"][0] == "absent":
            if dd is not None:
                diffs.append("a dependency file was written")
        elif dd is None:
            diffs.append("no dependency file")
        else:
            t = dd.decode().replace("\\\n", " ")
            tgt, _, ps = t.partition(":")
            if os.path.realpath(tgt) != os.path.realpath(outp) or {os.path.realpath(x) for x in ps.split()} != {os.path.realpath(srcp), os.path.realpath(cfgp)}:
                diffs.append("dependency file: " + t)
        ss = read(symp)
        if st["sym"][0] == "absent":
            if ss is not None:
                diffs.append("a symbol file was written")
        else:
            exp = {"s1": ["first"], "s2": ["second", "COUNT"]}[st["sym"][1]]
            if ss is None or sorted(vp.sym_list(ss.decode())) != sorted(exp):
                diffs.append("symbol file: %r" % ss)
        known = {"lib.rs", "c.toml", "gen", "dd", "ss"}
        left = set(os.listdir(d)) - known
        if left:
            diffs.append("stray files %s" % sorted(left))
        if os.path.isdir(os.path.dirname(outp)) and set(os.listdir(os.path.dirname(outp))) - {"out.h"}:
            diffs.append("stray files beside the output")
        if diffs:
            bad = "step %d %s: %s" % (i + 1, " ".join(a), "; ".join(diffs))
            break
    shutil.rmtree(d, ignore_errors=True)
    return bad, nrun


def check(rep, plans):
    root = vp.tmpdir()
    e = reference(root)
    if e:
        rep.violation(e, {})
        return
    for maxlen, sim in plans:
        hs = histories(rep, maxlen, sim)
        res = vp.pool().map(replay, [(h, root, i) for i, h in enumerate(hs)], chunksize=16)
        rep.traces(len(hs))
        rep.note("length %d%s: %d histories, %d runs of the tool" % (maxlen, " (random)" if sim else " (all)", len(hs), sum(r[1] for r in res)))
        for h, (b, n) in zip(hs, res):
            if b:
                rep.violation("history: " + b, {"history.txt": "\n".join(" ".join(x["a"]) + "   expected " + str(x) for x in h)})
        rep.sample([" ".join(x["a"]) for x in hs[len(hs) // 2]])
        if rep.violations:
            return
