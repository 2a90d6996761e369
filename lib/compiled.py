"""What real compilers make of the header (and of the crate): does it compile, sizes, alignments, offsets, constant and
enumerator values.  Observations only; the expectations are spec/Compiled.tla."""
import copy
import os
import re
import shutil
import subprocess

import hdr
import rust
import strict
import vp

INC = "#include <stdio.h>\n#include <stddef.h>\n#include <stdint.h>\n#include <sys/types.h>\n"
MAC = ["-DVP_PACKED=__attribute__((packed))", "-DVP_ALIGNED(n)=__attribute__((aligned(n)))", "-DVP_NULLABLE=", "-DVP_NONNULL=", "-DVP_NORET=__attribute__((noreturn))",
       "-DVP_FNPRE=", "-DVP_FNPOST=", "-DVP_SWIFT(x)="] + ["-DVP_%s=" % x for x in ("MU_FN", "MU_ST", "MU_EN", "DEP_FN", "DEP_ST", "DEP_EN", "DEP_EV")] \
    + ["-DVP_%s(x)=" % x for x in ("DEPN_FN", "DEPN_ST", "DEPN_EN", "DEPN_EV")]
FLT = {"float", "double"}


def flat(fs):
    r = []
    for f in fs:
        if f["n"]:
            r.append(f["n"])
        else:
            r += flat(f["fs"])
    return r


def spell(lang, d):
    if lang == "Cxx":
        return d["n"]
    return d["td"] or {"struct": "struct ", "union": "union ", "enum": "enum "}.get(d["k"], "") + (d["tag"] or d["n"])


def leaves(lang, byname, t, path, depth=0):
    """scalar leaves of a constant of (canonical) type t"""
    t = re.sub(r"^const ", "", t)
    t = re.sub(r"^(struct|union|enum) ", "", t)
    d = byname.get(t)
    if d is None or depth > 6:
        return [(path, t)]
    if d["k"] == "typedef":
        return leaves(lang, byname, d["t"], path, depth + 1)
    if d["k"] != "struct":
        return [(path, "enum")]
    r = []
    for f in d["fields"]:
        r += leaves(lang, byname, f["t"], path + "." + f["n"], depth + 1)
    return r


def probe(lang, text, decls):
    """a program that includes the header and prints what the compiler makes of it"""
    P = []
    cxx = lang == "Cxx"
    generic = {d["n"] for d in decls if d["gen"]}
    byname = {}
    for d in decls:
        if d["k"] in ("struct", "union", "enum", "typedef") and d["n"] not in byname:
            byname[d["n"]] = d
    for d in decls:
        if d["gen"] or any(d["n"].startswith(g + "::") for g in generic):
            continue
        if d["k"] in ("struct", "union", "typedef") or (d["k"] == "enum" and (cxx or d["td"] or d["tag"])):
            if d["k"] == "typedef" and d["t"].startswith("fn("):
                continue
            s = spell(lang, d)
            if not (d["k"] == "enum" and not cxx and any(x["k"] == "typedef" and x["n"] == d["n"] for x in decls)):
                P.append('printf("T %s %%zu %%zu\\n", sizeof(%s), (size_t)%s(%s));' % (d["n"], s, "alignof" if cxx else "_Alignof", s))
            for f in flat(d["fields"]):
                P.append('printf("F %s %s %%zu\\n", offsetof(%s, %s));' % (d["n"], f, s, f))
        if d["k"] == "enum":
            for v in d["vals"]:
                q = v["n"]
                if cxx:
                    pre = d["n"].rsplit("::", 1)[0] + "::" if "::" in d["n"] else ""
                    q = (d["n"] + "::" if d["cls"] else pre) + v["n"]
                P.append('printf("V %s %s %%lld\\n", (long long)%s);' % (d["n"] or "-", v["n"], q))
        if d["k"] == "const":
            t = d["t"]
            if not t:
                m = re.match(r"\(?(struct )?(\w+)\)?\{", d["v"])
                t = m.group(2) if m else "scalar"
            if cxx and "*" in t:
                continue
            for path, lt in leaves(lang, byname, t, d["n"]):
                e = "(%s)%s" % (d["n"], path[len(d["n"]):])
                if lt in FLT or (lt == "scalar" and re.match(r"-?\d+\.\d*$", d["v"])):
                    P.append('printf("K %s flt %%lld\\n", (long long)(%s * 32));' % (path, e))
                else:
                    P.append('printf("K %s int %%lld\\n", (long long)%s);' % (path, e))
    # a compound literal names its type without the struct keyword
    tds = "" if cxx else "".join("typedef struct %s %s;\n" % (d["tag"], d["tag"]) for d in decls if d["k"] == "struct" and d["tag"] and not d["td"])
    return INC + text + "\n" + tds + "int main(void) {\n  " + "\n  ".join(P) + "\n  return 0;\n}\n"


def rust_probe(prog):
    p = copy.deepcopy(prog)
    p["mods"] = p["mods"][:1]
    p["items"] = [i for i in p["items"] if i["k"] in ("struct", "union", "enum", "typedef")]
    out = []
    for i in p["items"]:
        i["mod"] = 1
    for i in p["items"]:
        if i["gen"]:
            continue
        out.append('println!("T %s {} {}", core::mem::size_of::<%s>(), core::mem::align_of::<%s>());' % (i["n"], i["n"], i["n"]))
        if i["k"] in ("struct", "union") and i["repr"]["style"] == "C":
            for f in i["fields"]:
                if f["t"]["k"] == "path" and f["t"]["n"] == "PhantomData":
                    continue
                out.append('println!("F %s %s {}", core::mem::offset_of!(%s, %s));' % (i["n"], f["n"], i["n"], rust.ident(f["n"])))
        if i["k"] == "enum" and all(v["s"] == "unit" for v in i["vars"]):
            for v in i["vars"]:
                out.append('println!("V %s %s {}", %s::%s as i64);' % (i["n"], v["n"], i["n"], rust.ident(v["n"])))
    return rust.program(p) + "\nfn main() {\n    " + "\n    ".join(out) + "\n}\n"


def parse_out(o):
    T, V, K = {}, [], []
    for l in o.splitlines():
        a = l.split(" ")
        if a[0] == "T":
            T[a[1]] = dict(n=a[1], s=int(a[2]), a=int(a[3]), f=[])
        elif a[0] == "F":
            T[a[1]]["f"].append(dict(n=a[2], o=int(a[3])))
        elif a[0] == "V":
            V.append(dict(e="" if a[1] == "-" else a[1], n=a[2], v=a[3]))
        elif a[0] == "K":
            K.append(dict(n=a[1], k=a[2], v=a[3]))
    return list(T.values()), V, K


def run(cmd, cwd, timeout=120):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def both(d, text, decls, probing, cout, o):
    """a C header marked as usable from C++: compiles there, gives the same layout and values, declares functions extern "C"."""
    cc = ["g++", "-x", "c++", "-std=gnu++20", "-w", "-fpermissive"] + MAC
    open(os.path.join(d, "alone.h"), "w").write(text)
    rc, out = run(cc + ["-fsyntax-only", "-include", "stddef.h", "-include", "sys/types.h", "alone.h"], d)
    if rc == 0 and probing:
        t = "#define _Alignof alignof\n" + probe("C", text, decls)
        open(os.path.join(d, "q.cc"), "w").write(t)
        rc, out = run(cc + ["-O0", "-o", "q", "q.cc"], d)
        if rc == 0:
            rc, out = run(["./q"], d)
            if rc == 0 and out != cout:
                rc, out = 1, "C and C++ views differ: " + " | ".join("%s / %s" % (x, y) for x, y in zip(cout.splitlines(), out.splitlines()) if x != y)
    if rc != 0:
        o["comp"] = "c++: " + vp.ascii_(out)[:400]
        return
    # functions and statics have C linkage there as well
    fns = [x["n"] for x in decls if x["k"] == "fn"]
    if fns:
        t = text + "\n" + "".join("void *vp_use_%d() { return (void*)&%s; }\n" % (i, f) for i, f in enumerate(fns))
        open(os.path.join(d, "l.cc"), "w").write(t)
        rc, out = run(cc + ["-include", "stddef.h", "-include", "sys/types.h", "-c", "-O0", "-o", "l.o", "l.cc"], d)
        if rc != 0:
            o["comp"] = "c++ use: " + vp.ascii_(out)[:400]
            return
        rc, out = run(["nm", "-u", "l.o"], d)
        und = {l.split()[-1] for l in out.splitlines() if l.split()}
        miss = [f for f in fns if f not in und]
        if miss:
            o["comp"] = "c++: no C linkage: " + " ".join(miss)


CYTHON = "/opt/cython-3.0.2/bin/cython"


def observe(a):
    """(lang, rep, prog or None, what) -> observation; what: subset of run, rust"""
    lang, r, prog, what, compat = a
    o = vp._project((lang, r))
    o.update(comp="", layout=[], vals=[], consts=[], rust=[], rvals=[], haverust=False)
    if o["status"] != "ok":
        return o, ""
    d = vp.tmpdir()
    try:
        if lang == "Cython":
            open(os.path.join(d, "h.pyx"), "w").write(r["out"])
            rc, out = run([CYTHON, "-3", "-o", "h.c", "h.pyx"], d)
            if rc != 0:
                o["comp"] = vp.ascii_(out)[-400:]
            return o, out
        src, cc = ("p.c", ["gcc", "-std=gnu11"]) if lang == "C" else ("p.cpp", ["g++", "-std=gnu++17"])
        decls = hdr.parse(lang, r["out"]).decls
        # the header on its own
        open(os.path.join(d, "alone." + src[2:]), "w").write(r["out"])
        rc, out = run(cc + ["-fsyntax-only", "-w", "-include", "stddef.h", "-include", "sys/types.h"] + MAC + ["alone." + src[2:]], d)
        if rc != 0:
            o["comp"] = vp.ascii_(out)[-400:]
            return o, out
        if "run" in what:
            text = probe(lang, r["out"], decls)
            open(os.path.join(d, src), "w").write(text)
            rc, out = run(cc + ["-w", "-O0", "-o", "p"] + MAC + [src], d)
            if rc != 0:
                o["comp"] = "probe: " + vp.ascii_(out)[:400]
                return o, out + text
            rc, out = run(["./p"], d)
            o["layout"], o["vals"], o["consts"] = parse_out(out)
        if lang == "C" and compat:
            # the same header, read by a C++ compiler
            both(d, r["out"], decls, "run" in what, out if "run" in what else "", o)
            if o["comp"]:
                return o, o["comp"]
        if "rust" in what:
            t = rust_probe(prog)
            open(os.path.join(d, "p.rs"), "w").write(t)
            rc, out = run(["rustc", "--edition=2021", "--cap-lints=allow", "-Cdebuginfo=0", "-o", "pr", "p.rs"], d)
            if rc != 0:
                raise vp.ToolError("generated crate does not compile\n" + out[:1500] + t)
            rc, out = run(["./pr"], d)
            o["rust"], o["rvals"], _ = parse_out(out)
            o["haverust"] = True
        return o, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROFILES = {
    "C02": [(dict(), dict(prefix=.2, rename=.2, rename_fields=.2, rename_variants=.2, rename_args=.2, mangle_rm_us=.15, mangle_rule=.15, prefix_with_name=.2, add_sentinel=.1, usz=.2,
                          sort=.3, enum_class=.3, assoc_in_body=.2, allow_constexpr=.2, allow_static_const=.2, ptrattr=.2, rename_variant_name_fields=.2), ["C", "Cxx", "C", "Cython"])],
    "C05": [(dict(structs=4, unions=1.2, enums=2.5, generics=.4, layout=.5, consts=.2, assocs=.2, fns=1, statics=.3, fnptr=.15),
             dict(prefix=.2, rename_fields=.2, prefix_with_name=.2, usz=.2, mangle_rm_us=.1), ["C", "Cxx"])],
    "C09": [(dict(structs=1, unions=.3, enums=2.5, tagged=.2, consts=7, assocs=3, simple=2.5, fns=1, statics=.2, discr=.7, exprdepth=3),
             dict(prefix=.3, rename=.2, rename_fields=.3, rename_variants=.3, prefix_with_name=.2, sort=.3, enum_class=.3, assoc_in_body=.3, allow_constexpr=.3, allow_static_const=.3,
                  style=0), ["C", "Cxx"])],
}


def make(prop, seed, i):
    feats, probs, langs = PROFILES[prop][i % len(PROFILES[prop])]
    lang = langs[i % len(langs)]
    return strict.case("%s/%d/%d" % (prop, seed, i), lang, feats, probs)


CFG = "SPECIFICATION CSpec\nCONSTANT Prop = \"%s\"\nCHECK_DEADLOCK FALSE\n"


def check(rep, prop, n, every_rust, batch=600):
    done = 0
    while done < n and len(rep.violations) < 20:
        m = min(batch, n - done)
        cases = vp.pool().starmap(make, [(prop, rep.seed, done + i) for i in range(m)], chunksize=8)
        inp = [dict(id=i, src=rust.program(p), runs=[dict(toml=rust.toml(c))], reps=1) for i, (p, c) in enumerate(cases)]
        res = vp.run_harness(inp)
        first = [res[i][0]["reps"][0] for i in range(m)]
        what = lambda i: (["run"] if prop != "C02" else []) + (["rust"] if every_rust and (done + i) % every_rust == 0 else [])
        ob = vp.pool().map(observe, [(c["lang"], first[i], p, what(i), c["cpp_compat"]) for i, (p, c) in enumerate(cases)], chunksize=2)
        jobs = [dict(id=i, prog=p, cfg=c, obs=ob[i][0]) for i, (p, c) in enumerate(cases)]
        bad, st = vp.judge("Compiled", CFG % prop, jobs)
        rep.stats(st)
        rep.traces(m)
        for b in sorted(bad, key=int):
            j = int(b)
            rep.violation("case %s (%s): %s" % (b, cases[j][1]["lang"], bad[b][:1500]),
                          {"lib.rs": inp[j]["src"], "cbindgen.toml": inp[j]["runs"][0]["toml"], "header.txt": first[j]["out"] + first[j]["err"], "diff.txt": bad[b] + "\n" + ob[j][1]})
        for k in range(0, m, max(1, m // 2)):
            o = jobs[k]["obs"]
            rep.sample({"lang": cases[k][1]["lang"], "src": inp[k]["src"][:1200], "layout": o["layout"][:6], "consts": o["consts"][:6], "rust": o["rust"][:4]})
        done += m
