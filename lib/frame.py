"""Headers as sequences of framing events, and generation of framing configurations (inputs and observations for spec/Frame.tla)."""
import random
import re

import vp

ID = r"[A-Za-z_]\w*"


def events(lang, text, cpp, texts):
    """events of a header as a compiler with (cpp) or without __cplusplus sees it; texts: verbatim lines of the configuration"""
    ev = []
    conds = []      # stack of ("cpp", active) / ("guard", name)
    scopes = []
    lines = text.split("\n")
    cy = lang == "Cython"
    incy = False
    pend = None
    for ln in lines:
        l = ln.strip()
        if not l:
            continue
        if incy and not ln.startswith(" "):
            ev.append(("cyclose", ""))
            incy = False
        active = all(c[1] for c in conds)
        if l in texts:
            if active:
                ev.append(("text", l))
            continue
        m = re.match(r"#\s*(ifdef|ifndef|endif)\b\s*(\w*)", l)
        if m and not cy:
            if m.group(1) == "ifdef" and m.group(2) == "__cplusplus":
                conds.append(("cpp", cpp))
            elif m.group(1) == "ifndef" and m.group(2) == "__cplusplus":
                conds.append(("cpp", not cpp))
            elif m.group(1) == "ifndef":
                conds.append(("guard", True, m.group(2)))
                pend = m.group(2)
            elif m.group(1) == "endif" and conds:
                c = conds.pop()
                if c[0] == "guard" and all(x[1] for x in conds):
                    ev.append(("unguard", c[2]))
            else:
                ev.append(("other", l))
            continue
        if not active:
            continue
        if pend is not None:
            ok = re.match(r"#\s*define\s+(\w+)\s*$", l)
            ev.append(("guard", pend if ok and ok.group(1) == pend else "?" + l))
            pend = None
            if ok:
                continue
        if re.match(r"(/\*|''') Package version: (.*) (\*/|''')$", l):
            ev.append(("pkg", re.match(r"(/\*|''') Package version: (.*) (\*/|''')$", l).group(2)))
        elif re.match(r"#\s*pragma once$", l):
            ev.append(("once", ""))
        elif re.match(r"/\* Generated with cbindgen:\d[\w.\-]* \*/$", l):
            ev.append(("version", ""))
        elif re.match(r"#\s*include <(.*)>$", l):
            ev.append(("sys", re.match(r"#\s*include <(.*)>$", l).group(1)))
        elif re.match(r'#\s*include "(.*)"$', l):
            ev.append(("inc", re.match(r'#\s*include "(.*)"$', l).group(1)))
        elif re.match(r"namespace (\w+) \{$", l):
            n = re.match(r"namespace (\w+) \{$", l).group(1)
            scopes.append(n)
            ev.append(("ns", n))
        elif l == 'extern "C" {':
            scopes.append("extern C")
            ev.append(("extern", "C"))
        elif re.match(r"\}\s*(//.*)?$", l):
            ev.append(("end", scopes.pop() if scopes else "?"))
        elif re.match(r"using namespace (.*);$", l):
            ev.append(("using", re.match(r"using namespace (.*);$", l).group(1)))
        elif cy and re.match(r"from (\S+) cimport (.*)$", l):
            m = re.match(r"from (\S+) cimport (.*)$", l)
            ev.append(("cimport", m.group(1) + ":" + m.group(2).replace(" ", "")))
        elif cy and re.match(r"cdef extern from (.*):$", l):
            ev.append(("cyopen", re.match(r"cdef extern from (.*):$", l).group(1)))
            incy = True
        elif cy and l == "pass" and ev and ev[-1][0] == "decl" and ln.startswith("    "):
            pass
        elif cy and l == "pass":
            ev.append(("pass", ""))
        else:
            n = re.findall(r"\b(vp[kotgf]\d+)\b", l)
            if cy and not incy:
                ev.append(("other", l))
            elif n:
                ev.append(("decl", n[0]))
            elif cy and l in ("ctypedef bint bool", "ctypedef struct va_list"):
                ev.append(("cydecl", l.split()[-1]))
            else:
                ev.append(("other", l))
    if incy:
        ev.append(("cyclose", ""))
    for c in conds:
        ev.append(("unterminated", c[0]))
    for s in scopes:
        ev.append(("unclosed", s))
    return [dict(k=k, v=vp.ascii_(v)) for k, v in ev]


def case(seed):
    r = random.Random("frame/" + seed)
    p = lambda x: r.random() < x
    lang = r.choice(["C", "C", "Cxx", "Cython"])
    cm = lambda tag, i: ("# VP %s %d" if lang == "Cython" else "/* VP %s %d */") % (tag, i)
    text = lambda tag, q: [cm(tag, i) for i in range(r.randint(1, 3))] if p(q) else []
    names = ["vp_ns", "alpha", "Beta", "ffi", "inner"]
    c = dict(lang=lang, cpp_compat=p(.5), header=text("header", .4), include_guard=r.choice(["VP_GUARD_H", "guard_h", "X"]) if p(.5) else "", pragma_once=p(.4),
             include_version=p(.4), package_version=p(.3), autogen_warning=text("autogen", .4), no_includes=p(.4), sys_includes=r.sample(["math.h", "stdio.h", "sys/types.h"], r.randint(0, 2)),
             includes=r.sample(["vp a.h", "b/c.h", "d.hpp"], r.randint(0, 2)), after_includes=text("after", .4), namespace=r.choice(names) if p(.4) else "",
             namespaces=r.sample(names, r.randint(0, 3)) if p(.5) else [], using_namespaces=r.sample(names, r.randint(1, 2)) if p(.4) else [], trailer=text("trailer", .4),
             usz=p(.4), casts=p(.3), assert_name=p(.3), cimports=[], cyheader='"vp.h"' if p(.5) else "")
    mods = sorted(r.sample(["libc.stdlib", "abc", "zed.q"], r.randint(0, 3)))
    names2 = {m: r.sample(["free", "malloc", "thing", "Other"], r.randint(1, 3)) for m in mods}
    c["cimports"] = [m + ":" + ",".join(names2[m]) for m in mods]
    t = ['language = "%s"' % {"C": "C", "Cxx": "C++", "Cython": "Cython"}[lang]]
    s = lambda k, v: t.append("%s = %s" % (k, v))
    q = lambda x: '"' + x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    for k in ("cpp_compat", "pragma_once", "include_version", "package_version", "no_includes"):
        if c[k] or p(.1):
            s(k, "true" if c[k] else "false")
    if c["usz"]:
        s("usize_is_size_t", "true")
    for k in ("header", "autogen_warning", "after_includes", "trailer"):
        if c[k]:
            s(k, q("\n".join(c[k]) + ("\n" if p(.3) else "")))
    for k in ("include_guard", "namespace"):
        if c[k]:
            s(k, q(c[k]))
    for k in ("sys_includes", "includes", "namespaces", "using_namespaces"):
        if c[k]:
            s(k, "[" + ", ".join(q(x) for x in c[k]) + "]")
    if p(.3):
        s("tab_width", r.choice(["2", "4", "8"]))
    if p(.3):
        s("style", q(r.choice(["both", "tag", "type"])))
    t.append("[enum]")
    if c["casts"]:
        s(r.choice(["derive_mut_casts", "derive_const_casts"]), "true")
    if c["assert_name"]:
        s("cast_assert_name", q("VP_ASSERT"))
    t.append("[cython]")
    if c["cyheader"]:
        s("header", q(c["cyheader"]))
    if mods:
        t.append("[cython.cimports]")
        for m in r.sample(mods, len(mods)):
            s(q(m), "[" + ", ".join(q(x) for x in names2[m]) + "]")
    # declarations, one per line
    d = dict(consts=[], types=[], consts2=[], globals=[], fns=[])
    src = []
    n = lambda k: r.choice([0, 0, 1, 2])
    for i in range(n("k")):
        src.append("pub const vpk%d: i32 = %d;" % (i, i))
        d["consts"].append("vpk%d" % i)
    used = []
    for i in range(n("o")):
        src.append("pub struct vpo%d { a: String }" % i)
        used.append("vpo%d" % i)
    for i in range(n("t")):
        src.append("pub type vpt%d = %s;" % (i, r.choice(["u8", "*const i32"])))
        used.append("vpt%d" % i)
    d["types"] = list(used)
    for i in range(n("g")):
        src.append("#[no_mangle] pub static vpg%d: u8 = 1;" % i)
        d["globals"].append("vpg%d" % i)
    for i in range(n("f")):
        src.append('#[no_mangle] pub extern "C" fn vpf%d(x: u8) {}' % i)
        d["fns"].append("vpf%d" % i)
    t.append("[export]")
    if used:
        s("include", "[" + ", ".join(q(x) for x in used) + "]")
    return c, d, "\n".join(src) + "\n", "\n".join(t) + "\n"


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Balanced Guarded Linked OnlyC\n"


def check(rep, n, batch=3000):
    done = 0
    while done < n and len(rep.violations) < 20:
        m = min(batch, n - done)
        cases = [case("%d/%d" % (rep.seed, done + i)) for i in range(m)]
        inp = [dict(id=i, src=src, runs=[dict(toml=toml)], reps=1) for i, (c, d, src, toml) in enumerate(cases)]
        res = vp.run_harness(inp)
        jobs = []
        for i, (c, d, src, toml) in enumerate(cases):
            r = res[i][0]["reps"][0]
            texts = set(c["header"] + c["autogen_warning"] + c["after_includes"] + c["trailer"])
            o = dict(status=r["status"], err=vp.ascii_(r["err"][:200]), c=[], cpp=[])
            if r["status"] == "ok":
                o["c"], o["cpp"] = events(c["lang"], r["out"], False, texts), events(c["lang"], r["out"], True, texts)
            jobs.append(dict(id=i, cfg=c, decls=d, version="", obs=o))
        bad, st = vp.judge("Frame", CFG, jobs)
        rep.stats(st)
        rep.traces(m)
        for b in sorted(bad, key=int):
            j = int(b)
            rep.violation("case %s (%s): %s" % (b, cases[j][0]["lang"], bad[b][:800]),
                          {"lib.rs": cases[j][2], "cbindgen.toml": cases[j][3], "header.txt": res[j][0]["reps"][0]["out"], "diff.txt": bad[b]})
        rep.sample({"toml": cases[0][3], "events": jobs[0]["obs"]["cpp"][:30]})
        done += m
