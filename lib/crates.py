"""Crates of many files: generation, rendering to disk, running the command line tool on
them, and the observation spec/Crates.tla judges."""
import json
import os
import random
import shutil
import subprocess

import hdr
import rust
import vp

KEYS = ["unix", "windows", "feature = fa", "feature = fb"]


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.uid = 0
        self.names = {"fn": 0, "struct": 0, "const": 0, "static": 0, "mod": 0}

    def p(self, x):
        return self.r.random() < x

    def atom(self):
        k = self.r.choice(KEYS + ["nodef"])
        if " = " in k:
            a, b = k.split(" = ")
            return {"k": "kv", "n": a, "v": b}
        return {"k": "flag", "n": k}

    def cfg(self, x):
        if not self.p(x):
            return []
        a = self.atom()
        if self.p(0.3):
            a = {"k": "not", "a": a}
        elif self.p(0.2):
            a = {"k": self.r.choice(["any", "all"]), "as": [a, self.atom()]}
        return [a]

    def item(self, k, structs):
        self.uid += 1
        n = {"fn": "f%d", "const": "C%d", "static": "G%d", "struct": "S%d"}[k] % self.uid
        if k == "struct":
            n = self.r.choice(structs)      # names are shared on purpose
        if k in ("const", "static") and self.p(0.3):
            n = {"const": "CSHARED", "static": "GSHARED"}[k] + str(self.r.randint(0, 1))
        uses = [self.r.choice(structs)] if k == "fn" or (k == "struct" and self.p(0.5)) else []
        return dict(k=k, n=n, uid="u%d" % self.uid, uses=uses, cfg=self.cfg(0.25), skip=self.r.choice(["ignore", "cfgtest"]) if self.p(0.06) else "")

    def items(self, depth, structs, files, d, sub, inl, mr):
        """the contents of a module whose file lives in d and whose submodules live in sub"""
        out = []
        for _ in range(self.r.randint(0, 5)):
            out.append(self.item(self.r.choice(["fn", "fn", "struct", "struct", "const", "static"]), structs))
        if depth > 0:
            for _ in range(self.r.choice([0, 1, 1, 2, 2])):
                out.append(self.mod(depth - 1, structs, files, d, sub, inl, mr))
        self.r.shuffle(out)
        return out

    def mod(self, depth, structs, files, d, sub, inl, mr):
        self.names["mod"] += 1
        n = self.r.choice(["m%d", "mod_%d", "a%d"]) % self.names["mod"]
        if self.p(0.1):
            n = self.r.choice(["type", "match", "move"]) + ("" if self.p(0.7) else "_x")
            if n in getattr(self, "kwused", set()):
                n = "k%d" % self.names["mod"]
            self.kwused = getattr(self, "kwused", set()) | {n}
        m = dict(k="mod", n=n, uid="", uses=[], inl=False, items=[], path=[], cfg=self.cfg(0.3), skip=self.r.choice(["ignore", "cfgtest"]) if self.p(0.06) else "")
        x = self.r.random()
        if x < 0.3:
            m["inl"] = True
            m["items"] = self.items(depth, structs, files, d + [n], sub + [n], True, mr)
            return m
        if x < 0.55:
            base = sub if inl and not mr else d
            rel = self.r.choice([["p_%s.rs" % n], ["sub", "q_%s.rs" % n], [n, "mod.rs"], ["%s.rs" % n], ["sub", "deep", "z_%s.rs" % n]])
            if not inl and len(d) > 1 and self.p(0.3):
                rel = ["..", "up_%s.rs" % n]
            m["path"] = rel
            self.file(files, base + rel, depth, structs, True)
            # decoys where the default locations would be
            if self.p(0.4):
                self.decoy(files, sub + [n + ".rs"])
            if self.p(0.2):
                self.decoy(files, sub + [n, "mod.rs"])
            return m
        if x < 0.75:
            self.file(files, sub + [n + ".rs"], depth, structs, False)
            if self.p(0.3):
                self.decoy(files, sub + [n, "mod.rs"])
        elif x < 0.95:
            self.file(files, sub + [n, "mod.rs"], depth, structs, False)
        return m

    def decoy(self, files, p):
        p = norm(p)
        if any(f["p"] == p for f in files):
            return
        self.uid += 1
        files.append(dict(p=p, ok=True, items=[dict(k="fn", n="decoy%d" % self.uid, uid="u%d" % self.uid, uses=[], cfg=[], skip="")]))

    def file(self, files, p, depth, structs, mr):
        p2 = norm(p)
        if any(f["p"] == p2 for f in files):
            return
        f = dict(p=p2, ok=True, items=[])
        files.append(f)
        mr = mr or p2[-1] == "mod.rs"
        d = p2[:-1]
        f["items"] = self.items(depth, structs, files, d, d if mr else d + [p2[-1][:-3]], False, mr)
        if self.p(0.01):
            f["ok"] = False

    def crate(self, n, v, structs, depth):
        files = []
        root = ["src", "lib.rs"] if self.p(0.8) else self.r.choice([["lib.rs"], ["src", "api", "entry.rs"]])
        self.kwused = set()
        self.file(files, root, depth, structs, True)
        return dict(n=n, v=v, root=root, files=files, deps=[])

    def job(self, i):
        single = self.p(0.3)
        structs = ["Sa", "Sb", "Sc", "Sd"]
        nc = 1 if single else self.r.randint(1, 4)
        names = ["alpha", "beta-x", "gamma", "delta"]
        self.r.shuffle(names)
        crates = []
        for k in range(nc):
            n = names[k]
            if k > 1 and self.p(0.15):
                n = names[k - 1]
            elif k > 0 and self.p(0.12):
                n = names[0]    # a dependency called like the binding crate
            crates.append(self.crate(n, "%d.0.%d" % (self.r.randint(0, 1), k), structs, 3 if k == 0 else 1))
        for a in range(nc):
            for b in range(a + 1, nc):
                if self.p(0.6) and (crates[b]["n"] != crates[a]["n"] or a == 0) and not any(d["c"] - 1 != b and crates[d["c"] - 1]["n"] == crates[b]["n"] for d in crates[a]["deps"]):
                    crates[a]["deps"].append(dict(c=b + 1, cfg=self.cfg(0.3)))
            self.r.shuffle(crates[a]["deps"])
        if nc > 2 and self.p(0.2) and crates[0]["n"] not in [c["n"] for c in crates[1:]]:
            # a dependency cycle through dev-dependencies is possible in lock files
            crates[2]["deps"].append(dict(c=1, cfg=[]))
        if not single and self.p(0.05):
            crates[-1]["root"] = [] if nc > 1 else crates[-1]["root"]
        dn = sorted({c["n"] for c in crates})
        parse = dict(deps=self.p(0.75), hasinc=self.p(0.3), include=[x for x in dn if self.p(0.5)], exclude=[x for x in dn if self.p(0.15)],
                     extra=[x for x in dn if self.p(0.35)])
        binding = 1
        if nc > 1 and self.p(0.15) and [c["n"] for c in crates].count(crates[1]["n"]) == 1:
            binding = 2
        defines = [dict(k=k, v="D_" + k.replace(" = ", "_").upper()) for k in KEYS]
        return dict(id=i, single=single, crates=crates, parse=parse, binding=binding, bynam=binding != 1 or self.p(0.2), defines=defines, rel=self.p(0.3), find=self.p(0.3), space=self.p(0.25),
                    lock=self.r.choice(["v3", "v3", "v3", "long", "root", "root", "none"] if not self.p(.3) else ["v3"]), shuf=self.r.randint(0, 99))


def norm(p):
    out = []
    for c in p:
        if c == "..":
            out.pop()
        elif c != ".":
            out.append(c)
    return out


# ---------------------------------------------------------------- rendering
def render(items, ind=""):
    out = []
    for it in items:
        if it["k"] == "mod" and it["path"]:
            out.append(ind + '#[path = "%s"]' % "/".join(it["path"]))
        rust.common_attrs(dict(cfg=it["cfg"], skip=it["skip"]), ind, out)
        if it["k"] == "fn":
            out.append(ind + '#[no_mangle] pub extern "C" fn %s(%s: *const %s) {}' % (it["n"], it["uid"], it["uses"][0]) if it["uses"]
                       else ind + '#[no_mangle] pub extern "C" fn %s(%s: u8) {}' % (it["n"], it["uid"]))
        elif it["k"] == "struct":
            out.append(ind + "#[repr(C)] pub struct %s { pub %s: u8%s }" % (it["n"], it["uid"], "".join(", pub next: *const %s" % u for u in it["uses"])))
        elif it["k"] == "const":
            out.append(ind + "pub const %s: u32 = %s;" % (it["n"], it["uid"][1:]))
        elif it["k"] == "static":
            out.append(ind + "#[no_mangle] pub static %s: [u8; %s] = [0; %s];" % (it["n"], it["uid"][1:], it["uid"][1:]))
        elif it["inl"]:
            out.append(ind + "pub mod %s {" % rust.ident(it["n"]))
            out += render(it["items"], ind + "    ")
            out.append(ind + "}")
        else:
            out.append(ind + "pub mod %s;" % rust.ident(it["n"]))
    return out


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def lay_out(j, d):
    """write the job under directory d; returns the command line"""
    for c in j["crates"]:
        cd = os.path.join(d, c["n"] + "-" + c["v"])
        os.makedirs(cd, exist_ok=True)
        write(os.path.join(cd, "Cargo.toml"), '[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n' % (c["n"], c["v"]))
        for f in c["files"]:
            write(os.path.join(cd, *f["p"]), "\n".join(render(f["items"])) + ("\n" if f["ok"] else "\npub fn {{{\n"))
    b = j["crates"][j["binding"] - 1]
    toml = ['language = "C"', "documentation = false", "[parse]", "parse_deps = %s" % rust.tb(j["parse"]["deps"]), "exclude = " + rust.tl(j["parse"]["exclude"]),
            "extra_bindings = " + rust.tl(j["parse"]["extra"])]
    if j["parse"]["hasinc"]:
        toml.append("include = " + rust.tl(j["parse"]["include"]))
    toml += ["[defines]"] + ["%s = %s" % (rust.tq(x["k"]), rust.tq(x["v"])) for x in j["defines"]]
    write(cfg_path(j, d), "\n".join(toml) + "\n")
    cmd = [vp.CLI, "-q"] + ([] if j["find"] else ["-c", cfg_path(j, d)]) + ["-o", os.path.join(d, "out.h"), "--depfile", os.path.join(d, "out.d"), "--symfile", os.path.join(d, "out.sym")]
    if j["single"]:
        return cmd + [os.path.join(d, b["n"] + "-" + b["v"], *b["root"])]
    names = [c["n"] for c in j["crates"]]
    lock = ["version = 3"] if j["lock"] == "v3" else []
    pk = []
    for c in j["crates"]:
        cd = os.path.join(d, c["n"] + "-" + c["v"])
        lock += ["[root]" if j["lock"] == "root" and c is j["crates"][0] else "[[package]]", 'name = "%s"' % c["n"], 'version = "%s"' % c["v"]]
        ds = []
        deps = []
        for x in c["deps"]:
            t = j["crates"][x["c"] - 1]
            ds.append(t["n"] if names.count(t["n"]) == 1 and j["lock"] != "long" else t["n"] + " " + t["v"] + (" (registry+https://example.org/index)" if j["lock"] == "long" else ""))
            deps.append(dict(name=t["n"], source=None, req="*", kind=None, optional=False, uses_default_features=True, features=[],
                             target="cfg(%s)" % rust.cfgp(x["cfg"][0]) if x["cfg"] else None))
        if ds:
            lock.append("dependencies = " + rust.tl(ds))
        tg = [dict(name=c["n"], kind=["bin"], crate_types=["bin"], src_path=os.path.join(cd, "src", "main.rs"))]
        if c["root"]:
            tg.append(dict(name=c["n"], kind=[["lib"], ["staticlib", "cdylib"], ["rlib"]][len(c["files"]) % 3], crate_types=["lib"], src_path=os.path.join(cd, *c["root"])))
        pk.append(dict(name=c["n"], version=c["v"], id=c["n"], source=None, dependencies=deps, targets=tg, features={}, manifest_path=os.path.join(cd, "Cargo.toml")))
    random.Random(j["shuf"]).shuffle(pk)
    if j["lock"] != "none":
        write(os.path.join(d, "Cargo.lock"), "\n".join(lock) + "\n")
    write(os.path.join(d, "meta.json"), json.dumps(dict(packages=pk, version=1, workspace_root=d)))
    cmd += ["--metadata", os.path.join(d, "meta.json")]
    if j["bynam"]:
        cmd += ["--crate", b["n"], "--lockfile", os.path.join(d, "Cargo.lock")]
    m = j["crates"][0]
    inp = os.path.join(d, m["n"] + "-" + m["v"])
    return cmd + [os.path.relpath(inp, d) if j["rel"] else inp]


def cfg_path(j, d):
    """beside the sources, where it is searched for, or elsewhere and named on the command line"""
    if not j["find"]:
        return os.path.join(d, "conf", "c.toml")
    b = j["crates"][j["binding"] - 1]
    return os.path.join(d, b["n"] + "-" + b["v"], *(b["root"][:-1] if j["single"] else []), "cbindgen.toml")


def dep_list(text, d):
    t = text.replace("\\\n", " ").replace("\\ ", "\0")
    head, _, rest = t.partition(":")
    if head.replace("\0", " ") != os.path.realpath(os.path.join(d, "out.h")):
        return ["target: " + head]
    return [x.replace("\0", " ") for x in rest.split()]


def observe(j, d, rc, err):
    o = dict(status="ok" if rc == 0 else "err" if rc == 1 else "rc%s" % rc, err=vp.ascii_(err)[-200:], wrote=os.path.exists(os.path.join(d, "out.h")),
             fns=[], statics=[], consts=[], structs=[], deps=[])
    if rc != 0:
        return o, ""
    text = open(os.path.join(d, "out.h")).read()
    try:
        h = hdr.parse("C", text)
    except (hdr.HdrError, IndexError) as e:
        o["status"], o["err"] = "unparsable", str(e)[:200]
        return o, text
    for x in h.decls:
        e = dict(n=x["n"], uid="", cond=x["cond"])
        if x["k"] == "fn":
            a = x["t"]
            e["uid"] = uid_of(a)
            o["fns"].append(e)
        elif x["k"] == "global":
            e["uid"] = "u" + x["t"].split("[")[1].split("]")[0]
            o["statics"].append(e)
        elif x["k"] == "const":
            e["uid"] = "u" + x["v"]
            o["consts"].append(e)
        elif x["k"] == "struct":
            e["uid"] = x["fields"][0]["n"]
            o["structs"].append(e)
        else:
            e["uid"] = "?" + x["k"]
            o["structs"].append(e)
    cfgp = os.path.realpath(cfg_path(j, d))
    where = {}
    for i, c in enumerate(j["crates"], 1):
        for f in c["files"]:
            where[os.path.realpath(os.path.join(d, c["n"] + "-" + c["v"], *f["p"]))] = dict(c=i, p=f["p"])
    seen = []
    dl = dep_list(open(os.path.join(d, "out.d")).read(), d)
    for x in dl:
        if x == cfgp:
            continue
        w = where.get(x, dict(c=0, p=[x]))
        if w not in seen:
            seen.append(w)
    if cfgp not in dl:
        seen.append(dict(c=0, p=["configuration file not listed"]))
    o["deps"] = seen
    return o, text


def uid_of(t):
    import re
    m = re.search(r"\bu\d+\b", t)
    return m.group(0) if m else "?"


def run_one(a):
    j, root = a
    d = os.path.realpath(os.path.join(root, ("j %s" if j["space"] else "j%s") % j["id"]))
    os.makedirs(d)
    cmd = lay_out(j, d)
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    o, text = observe(j, d, rc, err)
    src = []
    for dp, _, fs in os.walk(d):
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                src.append("// ---- " + os.path.relpath(os.path.join(dp, f), d) + "\n" + open(os.path.join(dp, f)).read())
    shutil.rmtree(d, ignore_errors=True)
    return o, text, "\n".join(src), " ".join(cmd)


def gen(seed, i):
    return G("crates/%s/%s" % (seed, i)).job(i)


def check(rep, n, batch=1500):
    done = 0
    while done < n and len(rep.violations) < 20:
        m = min(batch, n - done)
        jobs = vp.pool().starmap(gen, [(rep.seed, done + i) for i in range(m)], chunksize=16)
        root = vp.tmpdir()
        res = vp.pool().map(run_one, [(j, root) for j in jobs], chunksize=8)
        for j, r in zip(jobs, res):
            j["obs"] = r[0]
        bad, st = vp.judge("Crates", "SPECIFICATION CSpec\nCHECK_DEADLOCK FALSE\n", jobs)
        rep.stats(st)
        rep.traces(m)
        for b in sorted(bad, key=int):
            k = int(b) - done
            rep.violation("crate walk %s: %s" % (b, bad[b][:1500]), {"tree.txt": res[k][2], "cmd.txt": res[k][3], "header.txt": res[k][1], "diff.txt": bad[b]})
        for k in (0, m // 2):
            rep.sample({"cmd": res[k][3], "tree": res[k][2][:1500], "deps": [("/".join(x["p"])) for x in jobs[k]["obs"]["deps"]]})
        done += m
