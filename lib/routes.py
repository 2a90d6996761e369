"""Routes into a configuration: replays the histories of spec/Config.tla (file entries, builder calls, command line flags) and compares
each header with the one of the effective configuration written out in full."""
import json
import os
import random
import re
import shutil
import subprocess

import files
import rust
import vp

# shows the effect of every option
CANARY = r'''
/// A point.
///
/// Second paragraph.
#[repr(C)]
pub struct Point { pub xCoord_one: i32, /** The other. */ pub type_of: usize, pub mid_name: *mut u8 }
impl Point {
    pub const ORIGIN_X: i32 = 4;
    #[no_mangle] pub extern "C" fn point_len(&self, other_one: &Point) -> f64 { 0. }
}
#[repr(C)] #[must_use] pub struct Used { a_b: u8 }
#[repr(C)] #[deprecated] pub struct OldS { a_b: u8 }
#[repr(C)] #[deprecated(note = "because")] pub struct OldSN { a_b: u8 }
#[repr(C, packed)] pub struct Tight { a: u8, b: u32 }
#[repr(C, align(16))] pub struct Wide { a: u8 }
#[repr(C)] pub struct Orphan { o: u8 }
#[repr(C)] pub union OrphanUnion { o: u8, p: u16 }
#[repr(C)] pub union Both { o: u8, p: f32 }
pub struct Hidden { x: Vec<u8> }
#[repr(C)] pub struct Gen_pair<T> { first_of: T, second_of: T }
#[repr(C)] pub struct both_caseX { v: u8 }
impl both_caseX { pub const V_ONE: u8 = 2; }
pub type AliasOf = Point;
/// A shape
#[repr(u8)]
pub enum Shape { Circle_of { rad_ius: f32 }, FlatSquare(u32, u8), #[deprecated] Empty, #[deprecated(note = "gone")] Gone(u8) }
#[repr(C)] pub enum Tag_ged { One(Point), TwoOf { lHs_a: u8 } }
#[repr(u8)] pub enum PlainColour { RedOne, #[deprecated] green_two, #[deprecated(note = "no blue")] BLUE }
#[repr(u8)] #[must_use] pub enum UsedE { Ua, Ub }
#[repr(u8)] #[deprecated] pub enum OldE { Oa, Ob }
#[repr(u8)] #[deprecated(note = "why")] pub enum OldEN { Oc, Od }
pub const Z_LIMIT: u32 = 10;
pub const A_LIMIT: u32 = 11;
pub const P_CONST: Point = Point { xCoord_one: 1, type_of: 2, mid_name: 0 as *mut u8 };
#[no_mangle] pub static GLOBAL_TWO: u32 = 1;
#[no_mangle] pub static GLOBAL_ONE: u32 = 1;
bitflags! { #[repr(C)] pub struct Flags: u32 { const FIRST = 1; const SECOND = 1 << 1; } }
#[no_mangle] pub extern "C" fn zeta(argOne_is: *const Shape, arg_two: &Tag_ged, flags: Flags, c: PlainColour, o: OldE, u: UsedE, n: OldEN) -> Used { loop {} }
#[no_mangle] pub extern "C" fn eta(a: OldS, b: OldSN, c: Tight, d: Wide, e: *mut Hidden, f: Both, g: Option<&mut AliasOf>, h: both_caseX) {}
#[no_mangle] pub extern "C" fn plain_fn(a: Gen_pair<u8>, b: Gen_pair<*const PlainColour>) {}
#[must_use] #[no_mangle] pub extern "C" fn used() -> i32 { 0 }
#[deprecated] #[no_mangle] pub extern "C" fn old() {}
#[deprecated(note = "reason")] #[no_mangle] pub extern "C" fn old_note() {}
#[no_mangle] pub extern "C" fn never() -> ! { loop {} }
#[cfg(target_os = "linux")] #[no_mangle] pub extern "C" fn on_linux() {}
#[cfg(feature = "fa")] #[no_mangle] pub extern "C" fn with_fa() {}
#[cfg(unix)] #[no_mangle] pub extern "C" fn on_unix() {}
'''


def q(s):
    return "'%s'" % s if "'" not in s else '"%s"' % s.replace('"', '\\"')


def entry(kind, s):
    if kind in ("ostr", "enum"):
        return q(s[0])
    if kind in ("bool", "num", "raw"):
        return s[0]
    if kind in ("list", "olist"):
        return "[" + ", ".join(q(x) for x in s) + "]"
    return "{ " + ", ".join('"%s" = %s' % (k, q(v) if isinstance(v, str) else entry("list", v)) for k, v in s) + " }"


def toml(entries):
    """entries: [(dotted key, text)]; tables written as [a.b] sections"""
    secs = {}
    for k, t in entries:
        a, _, b = k.rpartition(".")
        secs.setdefault(a, []).append("%s = %s" % (b, t))
    out = secs.pop("", [])
    for a in sorted(secs):
        out += ["[%s]" % a] + secs[a]
    return "\n".join(out) + "\n"


class Table:
    def __init__(self, rows):
        self.kind = {r["k"]: r["kind"] for r in rows}
        self.defs = {r["k"]: r["def"] for r in rows}

    def canonical(self, eff):
        """the effective configuration with every option explicit"""
        e = dict(self.defs)
        e.update({d["k"]: d["v"] for d in eff})
        ent = []
        for k in sorted(e):
            kind, v = self.kind[k], e[k]
            if kind in ("ostr", "enum", "olist") and v == []:
                continue
            ent.append((k, entry(kind, v[0] if kind == "olist" else v)))
        return toml(ent)


def histories(rep, routes, bases, entries, calls, flags, loads, crate, bad, simulate=None):
    st = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    cfg = ("SPECIFICATION Spec\nCONSTANTS Routes = %s Bases = %s MaxEntries = %d MaxCalls = %d MaxFlags = %d MaxLoads = %d UseCrate = %s WithBad = %s\n"
           "INVARIANTS Emit Untouched FlagsWin\nCHECK_DEADLOCK FALSE\n") % (st(routes), st(bases), entries, calls, flags, loads, str(crate).upper(), str(bad).upper())
    extra = []
    if simulate:
        extra = ["-simulate", "num=%d" % simulate, "-depth", str(entries + calls + flags + loads + 2), "-seed", str(rep.seed + entries)]
    else:
        cfg += "PROPERTIES LoadForgets ErrSticks\n"
    text, stt = vp.tlc("Config", cfg, extra=extra, workers=1)
    if "is violated" in text or (not simulate and "No error has been found" not in text) or "Error:" in text:
        raise vp.ToolError("Config.tla\n" + text[text.find("Error:"):][:3000])
    hs, seen, table = [], set(), None
    for l in text.splitlines():
        if l.startswith('"@@') and l not in seen:
            seen.add(l)
            hs.append(files.tla_value(l[3:-1].replace('\\"', '"')))
        elif l.startswith('"@T'):
            table = Table(files.tla_value(l[3:-1].replace('\\"', '"')))
    if simulate:
        stt["distinct"] = stt["generated"] = sum(len(h["hist"]) for h in hs)
    rep.stats(stt)
    return hs, table


# ---------------------------------------------------------------- the crate the crate options are tried on
FAKE = r'''#!/bin/sh
here=$(dirname "$0")
if [ "$1" = metadata ]; then
  for a; do [ "$a" = --filter-platform ] && f=-here; done
  cat "$here/meta$f.json"; exit 0
fi
args=""; prev=""; p=""
for a; do
  case "$prev" in
    --manifest-path) [ "$a" = "$here/main/Cargo.toml" ] || args="$args|manifest=$a";;
    --features) args="$args|--features=$a";;
    -p) p="${a%%:*}"; args="$args|-p|$p";;
    *) case "$a" in --manifest-path|--features|-p) ;; --verbose|--|-Zunpretty=expanded) tail="$tail|$a";; *) args="$args|$a";; esac;;
  esac
  prev="$a"
done
t=default
case "$CARGO_TARGET_DIR" in "$TMPDIR"/cbindgen-expand*) t=fresh; mkdir -p "$CARGO_TARGET_DIR/debug";; "") ;; *) t=other;; esac
echo "/// ARGS ${args#|}"
echo "/// TAIL ${tail#|} RUNNING ${_CBINDGEN_IS_RUNNING:-no} TARGET $t"
echo "#[repr(C)] pub struct X_$p { x: u8 }"
echo "#[no_mangle] pub extern \"C\" fn expanded_$p(x: X_$p) {}"
'''


def crate_dir():
    d = os.path.realpath(vp.tmpdir())
    names = {"main": "1.2.3", "da": "0.1.0", "db": "0.2.0", "dx": "0.3.0"}
    deps = {"main": ["da", "db"], "da": ["dx"], "db": [], "dx": []}
    lock, pk = ["version = 3"], []
    for n, v in names.items():
        cd = os.path.join(d, n)
        os.makedirs(os.path.join(cd, "src"))
        open(os.path.join(cd, "Cargo.toml"), "w").write('[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n' % (n, v))
        uses = "".join(", %s: *const S_%s" % (x, x) for x in deps[n])
        open(os.path.join(cd, "src", "lib.rs"), "w").write('#[repr(C)] pub struct S_%s { s_%s: u8 }\n#[no_mangle] pub extern "C" fn plain_%s(a: S_%s%s) {}\n' % (n, n, n, n, uses))
        lock += ["[[package]]", 'name = "%s"' % n, 'version = "%s"' % v] + (["dependencies = " + rust.tl(deps[n])] if deps[n] else [])
        pk.append(dict(name=n, version=v, id=n, source=None, features={}, manifest_path=os.path.join(cd, "Cargo.toml"),
                       dependencies=[dict(name=x, source=None, req="*", kind=None, optional=False, uses_default_features=True, features=[], target=None) for x in deps[n]],
                       targets=[dict(name=n, kind=["lib"], crate_types=["lib"], src_path=os.path.join(cd, "src", "lib.rs"))]))
    open(os.path.join(d, "Cargo.lock"), "w").write("\n".join(lock) + "\n")
    for nm, ps in (("meta.json", pk), ("meta-here.json", [p for p in pk if p["name"] != "db"])):
        open(os.path.join(d, nm), "w").write(json.dumps(dict(packages=ps, version=1, workspace_root=d)))
    f = os.path.join(d, "cargo")
    open(f, "w").write(FAKE)
    os.chmod(f, 0o755)
    os.makedirs(os.path.join(d, "tmp"))
    return d


def crate_view(out):
    """what the header says about the crates read"""
    return dict(plain=sorted(re.findall(r"plain_(\w+)", out)), exp=sorted(re.findall(r"expanded_(\w+)", out)), types=sorted(set(re.findall(r"\b[SX]_(?:main|da|db|dx)\b", out))),
                args=re.findall(r"ARGS (\S+(?: \S+)*)", out), tail=re.findall(r"TAIL (.*\S)", out), version="Package version: 1.2.3" in out)


def crate_want(v):
    ex = [e["c"] for e in v["expands"]]
    bound = v["bound"]
    fns = [c for c in bound if c not in ex]
    w = dict(plain=sorted(fns), exp=sorted(c for c in bound if c in ex))
    refs = {"main": ["da", "db"], "da": ["dx"], "db": [], "dx": []}
    ty = set()
    for c in bound:
        ty |= {"X_" + c} if c in ex else {"S_" + c} | {"S_" + x for x in refs[c]}
    w["types"] = sorted(ty)
    # only the functions of bound crates show their command line
    w["args"] = ["|".join(e["args"]) for e in v["expands"] if e["c"] in bound]
    w["tail"] = ["--verbose|--|-Zunpretty=expanded RUNNING 1 TARGET %s" % ("fresh" if v["clean"] else "default")] * len(w["args"])
    w["version"] = v["version"]
    return w


# ---------------------------------------------------------------- running
def file_of(steps):
    return [(s["key"], entry(s["kind"], s["s"])) for s in steps if s["a"] == "entry"]


def as_calls(hist):
    calls, pend = [], []
    for s in hist:
        if s["a"] == "entry":
            pend.append(s)
        elif s["a"] == "load":
            calls.append(dict(m="with_config", toml=toml(file_of(pend)), s=[]))
            pend = []
        else:
            calls.append(dict(m=s["m"], s=s["s"]))
    return calls


def cli_run(a):
    h, root, i, crate, env = a
    d = os.path.join(root, "r%d" % i)
    os.makedirs(d)
    text = toml(file_of(h["hist"]))
    cmd = [vp.CLI, "-q"]
    if crate:
        w = os.path.join(d, "w")
        shutil.copytree(crate, w, ignore=shutil.ignore_patterns("tmp"))
        for f in ("meta.json", "meta-here.json"):
            p = os.path.join(w, f)
            t = open(p).read().replace(crate, w)
            open(p, "w").write(t)
        env = dict(env, CARGO=os.path.join(w, "cargo"), TMPDIR=os.path.join(w, "tmp"))
        os.makedirs(os.path.join(w, "tmp"))
        inp, cfg = os.path.join(w, "main"), os.path.join(w, "main", "cbindgen.toml")
    else:
        inp, cfg = os.path.join(d, "lib.rs"), os.path.join(d, "cbindgen.toml")
        open(inp, "w").write(CANARY)
    if h["route"] == "dashc":
        # what lies beside the input must not matter then
        open(cfg, "w").write("language = 'Cython'\nheader = '# decoy'\n")
        cfg = os.path.join(d, "some", "conf.toml")
        os.makedirs(os.path.dirname(cfg))
        cmd += [["-c", "--config"][i % 2], cfg]
    if text.strip() or i % 2 or h["route"] == "dashc":
        open(cfg, "w").write(text)
    for s in h["hist"]:
        if s["a"] == "flag":
            cmd += [s["f"]] + s["s"]
    cmd.append(inp)
    try:
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        r = dict(status="ok" if p.returncode == 0 else "err", out=p.stdout.decode("utf-8", "replace"), err=p.stderr.decode("utf-8", "replace")[-300:])
    except subprocess.TimeoutExpired:
        r = dict(status="timeout", out="", err="")
    if crate:
        r["left"] = os.listdir(os.path.join(w, "tmp"))
    shutil.rmtree(d, ignore_errors=True)
    r["cmd"] = " ".join(cmd)
    return r


def describe(h):
    out = []
    for s in h["hist"]:
        if s["a"] == "entry":
            out.append("%s = %s" % (s["key"], entry(s["kind"], s["s"])))
        elif s["a"] == "load":
            out.append("<load>")
        elif s["a"] == "call":
            out.append("%s(%s)" % (s["m"], ", ".join(s["s"])))
        else:
            out.append(" ".join([s["f"]] + s["s"]))
    return "%s: %s" % (h["route"], "; ".join(out))


def replay(rep, hs, table, crate):
    env = dict(vp.sh_env())
    for k in ("CARGO", "RUSTC", "OUT_DIR", "CARGO_TARGET_DIR", "CARGO_EXPAND_TARGET_DIR", "_CBINDGEN_IS_RUNNING"):
        env.pop(k, None)
    env["TARGET"] = "x86_64-unknown-linux-gnu"
    cd = crate_dir() if crate else None
    keep = dict(os.environ)
    if crate:
        os.environ.update(CARGO=os.path.join(cd, "cargo"), TMPDIR=os.path.join(cd, "tmp"), TARGET=env["TARGET"])
        for k in ("OUT_DIR", "CARGO_TARGET_DIR", "CARGO_EXPAND_TARGET_DIR", "_CBINDGEN_IS_RUNNING"):
            os.environ.pop(k, None)
    try:
        cases, want = [], {}
        res = [None] * len(hs)
        for i, h in enumerate(hs):
            c = table.canonical(h["eff"])
            h["ref"] = c
            want[c] = None
            run = {}
            if h["route"] == "lib":
                run = dict(calls=as_calls(h["hist"]), **({"crate": os.path.join(cd, "main")} if crate else {}))
            elif h["route"] == "genc":
                run = dict(generate_with_config=os.path.join(cd, "main"), toml=toml(file_of(h["hist"])))
            if run:
                cases.append(dict(id="h%d" % i, src=CANARY, runs=[run]))
        refs = list(want)
        for i, c in enumerate(refs):
            cases.append(dict(id="c%d" % i, src=CANARY, runs=[dict(toml=c, **({"crate": os.path.join(cd, "main")} if crate else {}))]))
        got = vp.run_harness(cases)
        for i, c in enumerate(refs):
            want[c] = got["c%d" % i][0]["reps"][0]
        for i, h in enumerate(hs):
            if "h%d" % i in got:
                res[i] = got["h%d" % i][0]["reps"][0]
        # generate() finds its configuration in the crate's directory: one at a time
        gens = [i for i, h in enumerate(hs) if h["route"] == "gen"]
        if gens:
            tree = []
            gc = []
            for i in gens:
                w = os.path.join(cd, "g%d" % i)
                shutil.copytree(os.path.join(cd, "main"), os.path.join(w))
                t = toml(file_of(hs[i]["hist"]))
                if t.strip() or i % 2:
                    open(os.path.join(w, "cbindgen.toml"), "w").write(t)
                tree.append(w)
                gc.append(dict(id=i, src="", runs=[dict(generate=w)]))
            # the metadata names the copy's files by the original's path, which has the same contents
            g = vp.run_harness(gc)
            for i in gens:
                r = g[i][0]["reps"][0]
                res[i] = dict(r, out=re.sub(r"manifest=\S*?/g%d/Cargo.toml\|" % i, "", r["out"]))
            for w in tree:
                shutil.rmtree(w, ignore_errors=True)
        left = os.listdir(os.path.join(cd, "tmp")) if crate else []
    finally:
        os.environ.clear()
        os.environ.update(keep)
    if any(x.startswith("cbindgen-expand") for x in left):
        rep.violation("macro expansion in a temporary target directory leaves it behind: %s" % left[:3], {})
    root = vp.tmpdir()
    cl = [i for i, h in enumerate(hs) if h["route"] in ("root", "dashc")]
    for i, r in zip(cl, vp.pool().map(cli_run, [(hs[i], root, i, cd, env) for i in cl], chunksize=8)):
        res[i] = r
        if r.get("left"):
            rep.violation("macro expansion leaves temporary files behind: %s (%s)" % (r["left"], r["cmd"]), {})
    effect = {}
    for h, r in zip(hs, res):
        ref = want[h["ref"]]
        what = None
        if h["err"]:
            if r["status"] == "ok" or r["out"]:
                what = "an invalid configuration is accepted"
        elif ref["status"] != "ok":
            what = "the configuration written out in full fails: %s %s" % (ref["status"], ref["err"][:200])
        elif r["status"] != "ok":
            what = "fails: %s %s" % (r["status"], r["err"][:200])
        elif r["out"] != ref["out"]:
            what = "not the header of the effective configuration"
        elif crate:
            a, b = crate_view(r["out"]), crate_want(h["crate"][0])
            if a != b:
                what = "crate view: " + "; ".join("%s is %s, specified %s" % (k, a[k], b[k]) for k in b if a[k] != b[k])
        if what:
            rep.violation("%s -- %s" % (describe(h), what), {"history.txt": describe(h), "effective.toml": h["ref"], "header.txt": r["out"], "reference.txt": ref["out"]})
        if not h["err"] and len(h["eff"]) and ref["status"] == "ok":
            for d in h["eff"]:
                if d["k"] != "language":
                    effect.setdefault((d["k"], str(d["v"])), []).append((h["ref"], ref["out"]))
    rep.traces(len(hs))
    return want, effect


def check(rep, tier):
    t = tier == "thorough"
    L = ["", "C", "Cython"]
    plans = [
        ("one entry", (["lib"], L, 1, 0, 0, 1, False, True)),
        ("one entry, command line", (["root", "dashc"], [""] if not t else L, 1, 0, 0, 1, False, True)),
        ("flags", (["root", "dashc"], L, 0, 0, 2 if not t else 3, 1, False, True)),
        ("builder calls", (["lib"], ["C"] if not t else L, 0, 2, 0, 1, False, False)),
        ("random", (["lib", "root", "dashc"], L, 12, 8, 3, 2, False, False, 500 if not t else 8000)),
        ("random, some wrong", (["lib", "root", "dashc"], L, 6, 4, 2, 2, False, True, 150 if not t else 3000)),
        ("crate: entries", (["lib", "gen", "genc", "root", "dashc"] if t else ["lib", "root"], [""], 2, 0, 0, 1, True, t)),
        ("crate: one entry", (["gen", "genc", "dashc"], [""], 1, 0, 0, 1, True, True)),
        ("crate: calls", (["lib"], [""], 0, 2, 0, 1, True, False)),
        ("crate: flags", (["root", "dashc"], [""], 1 if t else 0, 0, 3 if t else 2, 1, True, True)),
        ("crate: random", (["lib", "gen", "genc", "root", "dashc"], [""], 7, 5, 3, 2, True, False, 300 if not t else 4000)),
    ]
    for name, pl in plans:
        hs, table = histories(rep, *pl)
        if not t and len(hs) > 4000:
            # the quick check takes a sample of the longer histories
            r = random.Random("routes/%s/%d" % (name, rep.seed))
            hs = r.sample(hs, 4000)
        want, effect = replay(rep, hs, table, pl[6])
        rep.note("%s: %d histories" % (name, len(hs)))
        rep.sample(describe(hs[len(hs) // 2]))
        if name == "one entry":
            ineffective(rep, table, want, effect)
        if len(rep.violations) > 20:
            return


# values that mean the same as the default, or matter only together with another option (the longer histories see to those)
SAME = {("line_endings", "['Native']"), ("const.sort_by", "['None']"), ("fn.sort_by", "['None']"), ("enum.cast_assert_name", "['MY_ASSERT']"),
        ("enum.derive_tagged_enum_copy_assignment", "['true']"), ("export.renaming_overrides_prefixing", "['true']")}


def ineffective(rep, table, want, effect):
    """an option that is set to something else must show in some language"""
    base = {}
    for lang in ([], [dict(k="language", v=["C"])], [dict(k="language", v=["Cython"])]):
        c = table.canonical(lang)
        base[re.search(r"^language = (.*)$", c, re.M).group(1)] = want[c]["out"]
    for (k, v), outs in sorted(effect.items()):
        if (k, v) in SAME:
            continue
        if all(o == base[re.search(r"^language = (.*)$", c, re.M).group(1)] for c, o in outs):
            rep.violation("option %s = %s has no effect in any language" % (k, v), {})
