"""Formatting options: the same crate and configuration with other braces, tabs, line endings, documentation style and argument layout.
Observations for spec/Format.tla."""
import random
import re

import conform
import gen
import hdr
import rust
import vp

EOL = {"LF": "\n", "CRLF": "\r\n", "CR": "\r", "Native": "\n"}
RICH = conform.mix(conform.RICH, docs=.4, cfg=.15, variadic=.1, fns=5, wild=.1, layout=.1, docend=False)


def case(seed, i):
    s = "C17/%d/%d" % (seed, i)
    p = gen.Gen(s, **RICH).program()
    r = random.Random("fmt/" + s)
    c = gen.config(r, p, r.choice(["C", "C", "Cxx", "Cython"]), **conform.mix(conform.RICHC, attrs=.3, docs=.1, doc_short=.2))
    q = lambda x: r.random() < x
    fmt = dict(braces=r.choice(["SameLine", "NextLine"]), line_length=r.choice([10, 30, 40, 50, 60, 80, 100, 140]) if q(.8) else 100, tab_width=r.choice([1, 2, 3, 4, 8]) if q(.7) else 2,
               eol=r.choice(["LF", "CRLF", "CR", "Native"]) if q(.7) else "LF", style=r.choice(["C", "C99", "C++", "doxy", "auto"]) if q(.7) else "auto")
    ex = []
    if fmt["braces"] != "SameLine" or q(.2):
        ex.append(["", "braces", rust.tq(fmt["braces"])])
    if fmt["line_length"] != 100 or q(.2):
        ex.append(["", "line_length", str(fmt["line_length"])])
    if fmt["tab_width"] != 2 or q(.2):
        ex.append(["", "tab_width", str(fmt["tab_width"])])
    if fmt["eol"] != "LF" or q(.2):
        ex.append(["", "line_endings", rust.tq(fmt["eol"])])
    if fmt["style"] != "auto" or q(.2):
        ex.append(["", "documentation_style", rust.tq(fmt["style"])])
    c["extra"] = ex
    c["fmt"] = fmt
    return p, c


def with_args(c, layout):
    d = dict(c, extra=c["extra"] + ([["fn", "args", rust.tq(layout)]] if layout else []))
    return rust.toml(d)


def eols(text):
    return sorted({"\r\n": "CRLF", "\n": "LF", "\r": "CR"}[x] for x in set(re.findall(r"\r\n|\n|\r", text)))


def norm(text, eol):
    e = EOL[eol]
    return text.replace(e, "\n") if e != "\n" else text


def blocks(text):
    return [b.split("\n") for b in re.split(r"\n(?:[ \t]*\n)+", text.strip("\n"))]


def indents(lang, text):
    """(brace depth, indentation) of the lines of C and C++ that start outside parentheses and comments; braces on their own line"""
    out, br = set(), set()
    depth = par = 0
    pushed = []
    last, prev = ";", ""
    for ln, orig in zip(hdr_strip(text).split("\n"), text.split("\n")):
        l = ln.strip()
        if l and not l.startswith("#") and par == 0 and last in "{};," and l not in (";", "{") and not orig.strip().startswith(("/", "*", ":")):
            d = depth - (1 if l.startswith("}") and not (pushed and not pushed[-1]) else 0)
            out.add((d, len(ln) - len(ln.lstrip(" ")), "tab" if "\t" in ln else ""))
        if l and not l.startswith("#"):
            frame = re.match(r'(namespace \w+|extern "C") \{', l)
            if l == "{" and prev.startswith("#"):
                pass    # after a conditional underlying type
            elif l == "{":
                br.add("NextLine")
            elif l.endswith("{") and not frame and "=" not in orig and not l.startswith("},"):
                br.add("SameLine")
            for k, ch in enumerate(l):
                if ch == "(":
                    par += 1
                elif ch == ")":
                    par -= 1
                elif ch == "{":
                    # the braces of an array value do not open a block
                    before = l[:k].rstrip()
                    block = not frame and not (before[-1:] in ("=", ",", "{") or before == "" and l != "{")
                    pushed.append(block)
                    depth += block
                elif ch == "}":
                    if pushed and pushed.pop():
                        depth -= 1
            last = l[-1]
        prev = l or prev
    return [dict(d=d, i=i, t=t) for d, i, t in sorted(out)], sorted(br)


def hdr_strip(text):
    """blank out comments, keeping columns and lines"""
    def f(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r"/\*.*?\*/|//[^\n]*", f, text, flags=re.S)


def words(b):
    return re.findall(r"\w+|[^\w\s]", " ".join(b))


def fn_blocks(a, h, v):
    """blocks that differ between the horizontal and the vertical run, with their text in the three runs"""
    A, H, V = blocks(a), blocks(h), blocks(v)
    if not (len(A) == len(H) == len(V)):
        return None
    out = []
    for x, y, z in zip(A, H, V):
        t = "\n".join(y)
        if "(*" in t or "{" in t or ("#" in t and "#if" not in t):
            continue
        out.append(dict(a=x, h=y, v=z, decl=[l for l in y if not re.match(r"\s*(/\*|\*|//|#)", l) and "*/" not in l], same=words(x) == words(y) == words(z)))
    return out


def observe(a):
    lang, reps, fmt = a
    au, ho, ve = reps
    o = vp._project((lang, dict(au, out=norm(au["out"], fmt["eol"])) if au["status"] == "ok" else au))
    o["eols"], o["indents"], o["br"], o["blocks"], o["aligned"] = [], [], [], [], True
    o["other"] = [ho["status"], ve["status"]]
    if au["status"] == "ok" and ho["status"] == "ok" and ve["status"] == "ok":
        o["eols"] = eols(au["out"])
        n = [norm(x["out"], fmt["eol"]) for x in (au, ho, ve)]
        if lang != "Cython":
            o["indents"], o["br"] = indents(lang, n[0])
        b = fn_blocks(*n)
        if b is None:
            o["aligned"] = False
        else:
            asc = lambda q: [vp.ascii_(l) for l in q]
            o["blocks"] = [dict(a=asc(x["a"]), h=asc(x["h"]), v=asc(x["v"]), decl=asc(x["decl"]), same=x["same"]) for x in b][:12]
        for k, r in (("h", ho), ("v", ve)):
            o[k] = vp._project((lang, dict(r, out=norm(r["out"], fmt["eol"]))))
            o["same_" + k] = o[k]["status"] == "ok" and o[k]["decls"] == o["decls"]
            del o[k]
    else:
        o["same_h"] = o["same_v"] = au["status"] == ho["status"] == ve["status"]
    return o


CFG = "SPECIFICATION FSpec\nCONSTANT Prop = \"C17\"\nCHECK_DEADLOCK FALSE\n"


def check(rep, n, batch=900):
    done = 0
    while done < n and len(rep.violations) < 20:
        m = min(batch, n - done)
        cases = vp.pool().starmap(case, [(rep.seed, done + i) for i in range(m)], chunksize=16)
        inp = [dict(id=i, src=rust.program(p), runs=[dict(toml=with_args(c, x)) for x in ("", "Horizontal", "Vertical")], reps=1) for i, (p, c) in enumerate(cases)]
        res = vp.run_harness(inp)
        obs = vp.pool().map(observe, [(c["lang"], [res[i][k]["reps"][0] for k in range(3)], c["fmt"]) for i, (p, c) in enumerate(cases)], chunksize=8)
        jobs = [dict(id=i, prog=gen.seen(p, c), cfg=c, obs=obs[i]) for i, (p, c) in enumerate(cases)]
        bad, st = vp.judge("Format", CFG, jobs)
        rep.stats(st)
        rep.traces(3 * m)
        for b in sorted(bad, key=int):
            j = int(b)
            rep.violation("case %s (%s): %s" % (b, cases[j][1]["lang"], bad[b][:1500]),
                          {"lib.rs": inp[j]["src"], "cbindgen.toml": inp[j]["runs"][0]["toml"], "header.txt": res[j][0]["reps"][0]["out"], "horizontal.txt": res[j][1]["reps"][0]["out"],
                           "vertical.txt": res[j][2]["reps"][0]["out"], "diff.txt": bad[b]})
        rep.sample({"toml": inp[0]["runs"][0]["toml"], "header": res[0][0]["reps"][0]["out"][:1500]})
        done += m
