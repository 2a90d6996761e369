"""Trace validation of whole runs of the generator against spec/Conform.tla."""
import hashlib
import json
import random

import gen
import rust
import vp

# generator features and configuration knobs (probabilities) that exercise each property
RICH = dict(dups=.25, bitflags=.3, tagged=.5, annos=.4, kw=.15, mods=1.2, assocs=.8, methods=.6, decls=.6, consts=1.5, statics=1.2, fns=3, transparents=.6, enums=1.2,
            unions=.7, typedefs=1, fnptr=.25, std=.35, variadic=.1, never=.15, phantom=.1, zst=.1, defaults=.15)
RICHC = dict(usz=.2, prefix=.25, rename=.3, renaming_overrides=.2, include=.35, mangle_rm_us=.2, mangle_rule=.2, rename_fields=.2, rename_variants=.2,
             rename_args=.2, prefix_with_name=.2, no_return=.3, ptrattr=.3, sort=.3, assoc_in_body=.2, allow_constexpr=.2, allow_static_const=.2)


def mix(base, **kw):
    d = dict(base)
    d.update(kw)
    return d


PROFILES = {
    "C01": [(mix(RICH, cfg=.2, docs=.3, layout=.2), mix(RICHC, attrs=.3), None)],
    "C03": [(mix(RICH, fns=6, statics=3, methods=2, decls=2, structs=1.5, unlinked=.3, skip=.15, bad=.1, mods=2, consts=.5, privates=.3, variadic=.2),
             mix(RICHC, item_types=.2, exclude=.25, prefix=.4, rename=.4, rename_args=.3), None),
            (dict(fns=8, statics=3, decls=2, structs=0.5, unlinked=.4, mods=1.5, cfg=.25, dupcfg=.3, dups=.7, annos=.3), dict(sort=.4), None)],
    "C04": [(mix(RICH, structs=5, fns=1.5, statics=.8, consts=1.5, opaques=1.2, typedefs=2, std=.6, missing=.15, generics=.4, skip=.1, bad=.1, privates=.2),
             mix(RICHC, include=.5, item_types=.1, exclude=.15), None),
            (dict(structs=6, unions=1, enums=2, typedefs=3, opaques=1.5, transparents=1.5, fns=1, statics=.5, consts=.5, fnptr=.4, tagged=.6),
             dict(include=.5, style=.8), None)],
    "C06": [(mix(RICH, cprim=.5, std=.7, fnptr=.5, annos=.15, kw=.05, fns=4, phantom=.3, zst=.2, self_=.3, layout=.2), mix(RICHC, usz=.5, ptrattr=.5, no_return=.5), None),
            (dict(fns=7, structs=2, statics=2, typedefs=2, cprim=.4, std=.6, fnptr=.6, variadic=.2, never=.3, wild=.2, generics=.3, consts=.2),
             dict(usz=.5, ptrattr=.5, no_return=.5, style=.8), None)],
    "C07": [(mix(RICH, generics=1., cgenerics=.6, defaults=.4, structs=4, unions=1.2, enums=1.5, typedefs=1.5, fns=4, statics=1.5, consts=.2, std=.4, phantom=.2),
             mix(RICHC, mangle_rm_us=.4, mangle_rule=.4), "CCy"),
            (dict(generics=1., cgenerics=.5, structs=4, unions=1, enums=1.5, typedefs=1.5, fns=5, fnptr=.4, opaques=1, statics=1), dict(mangle_rm_us=.3, prefix=.3, style=.7), None)],
    "C08": [(mix(RICH, cfg=.6, dupcfg=.3, dups=.7, mods=2, assocs=1.2, methods=1, decls=1), mix(RICHC, assoc_in_body=.3), None),
            (dict(bitflags=.6, cfg=.7, dupcfg=.4, dups=1.5, mods=1.5, tagged=.6, enums=2, structs=3, consts=2, assocs=1, statics=2, fns=4), dict(style=.7), None)],
    "C09": [(mix(RICH, consts=5, assocs=2, enums=2, structs=2.5, fns=1, discr=.7, exprdepth=3, transparents=1), mix(RICHC, rename_fields=.4, rename_variants=.4,
             rename_assoc=.0, sort=.4, assoc_in_body=.4, enum_class=.3), None),
            (dict(bitflags=1, consts=6, assocs=2, enums=1.5, structs=3, fns=1, discr=.8, exprdepth=3, transparents=1, mods=1), dict(allow_static_const=.3, allow_constexpr=.3, style=.5), None)],
    "C10": [(mix(RICH, kw=.35, annos=.6, consts=2, assocs=1.2, enums=2, tagged=.6), mix(RICHC, prefix=.5, rename=.5, renaming_overrides=.4, rename_fields=.5, rename_variants=.5,
             rename_args=.5, rename_variant_name_fields=.5, prefix_with_name=.4, mangle_rule=.3, mangle_rm_us=.3, rename_assoc=.3), None)],
    "C13": [(mix(RICH, bitflags=.6, skip=.35, annos=.5, mods=2.5, decls=1.5, methods=1, assocs=1.2, consts=2.5, privates=.3, unlinked=.25),
             mix(RICHC, exclude=.7, item_types=.45, include=.5), None)],
    "C16": [(mix(RICH, enums=4, tagged=.6, structs=2, fns=3, discr=.7, consts=.6, annos=.5, generics=.3), mix(RICHC, rename_variants=.4, prefix_with_name=.4, add_sentinel=.3,
             enum_class=.4, rename_variant_name_fields=.3, style=.8), None),
            (dict(enums=5, tagged=.7, structs=2, discr=.7, fns=3, consts=.3), dict(style=.8, enum_class=.3, add_sentinel=.2), None)],
    "C18": [(mix(RICH, docs=.8, cfg=.15), mix(RICHC, docs=.1, doc_short=.3), None)],
    "C19": [(mix(RICH, fns=6, statics=3, consts=4, structs=5, opaques=2, enums=2, mods=2, generics=.4), mix(RICHC, sort=.7, include=.5, prefix=.3), None)],
    "C20": [(mix(RICH, annos=.8, depr=.5, transfer=.6, layout=.4, typedefs=2, tagged=.5, enums=2, fns=4, never=.3), mix(RICHC, attrs=.8, layout=.7, no_return=.5, enum_class=.3, body=.3,
             add_sentinel=.2, rename_assoc=.3), None)],
    "C22": [(mix(RICH, decls=2.5, methods=1.2, assocs=1.2, bad=.35, missing=.25, skip=.1, wild=.2, cfg=.2, layout=.3, std=.5), mix(RICHC, layout=.3), None)],
}
LANGS = {None: ["C", "C", "Cxx", "Cython"], "CCy": ["C", "C", "C", "Cython", "Cxx"]}


def make(prop, seed, i, profiles=None):
    feats, probs, langs = (profiles or PROFILES[prop])[i % len(profiles or PROFILES[prop])]
    s = "%s/%d/%d" % (prop, seed, i)
    g = gen.Gen(s, **feats)
    p = g.program()
    rng = random.Random("cfg/" + s)
    c = gen.config(rng, p, rng.choice(LANGS[langs]), **probs)
    return p, c


CFG = "SPECIFICATION CSpec\nCONSTANT Prop = \"%s\"\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"


def digest(r):
    return hashlib.sha1(json.dumps([r["status"], r["out"], r["sym"], ""]).encode()).hexdigest()[:12]


def run_cases(rep, prop, cases, reps=1, timeout=800, tag="", more=None):
    """cases: [(prog, cfg)]; conformance of the real generator with the specification"""
    inp = [dict(id=i, src=rust.program(p), runs=[dict(toml=rust.toml(c))], reps=reps) for i, (p, c) in enumerate(cases)]
    res = vp.run_harness(inp)
    first = [res[i][0]["reps"][0] for i in range(len(cases))]
    obs = vp.project([(c["lang"], first[i]) for i, (p, c) in enumerate(cases)])
    for i, o in enumerate(obs):
        o["runs"] = [digest(r) for r in res[i][0]["reps"]] + (more(i, inp[i]) if more else [])
    jobs = [dict(id=i, prog=gen.seen(p, c), cfg=c, obs=obs[i]) for i, (p, c) in enumerate(cases)]
    bad, st = vp.judge("Conform", CFG % prop, jobs, timeout=timeout)
    rep.stats(st)
    rep.traces(len(jobs))
    for i in sorted(bad, key=int):
        j = int(i)
        rep.violation("%scase %s (%s): %s" % (tag, i, cases[j][1]["lang"], bad[i][:1500]),
                      {"lib.rs": inp[j]["src"], "cbindgen.toml": inp[j]["runs"][0]["toml"], "header.txt": first[j]["out"] + first[j]["err"], "diff.txt": bad[i]})
    for k in range(0, len(cases), max(1, len(cases) // 2)):
        rep.sample({"lang": cases[k][1]["lang"], "toml": inp[k]["runs"][0]["toml"], "src": inp[k]["src"][:1200], "decls": [d["k"] + " " + d["n"] for d in obs[k]["decls"]][:40]})
    return inp, res, obs


def check(rep, prop, n, batch=1200, reps=1, profiles=None):
    done = 0
    while done < n and len(rep.violations) < 20:
        m = min(batch, n - done)
        cases = vp.pool().starmap(make, [(prop, rep.seed, done + i, profiles) for i in range(m)], chunksize=16)
        run_cases(rep, prop, cases, reps)
        done += m
