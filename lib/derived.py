"""C++ derived operations: types with derived members, histories of operations on values of those types, and what the
compiled header makes of them.  Inputs and observations only; the expectations are spec/Ops.tla."""
import hashlib
import os
import random
import re
import shutil

import compiled
import gen
import hdr
import rust
import vp
from gen import P, UNIT, NODEPR

SFLAGS = ["ctor", "eq", "neq", "lt", "lte", "gt", "gte", "ostream"]
EFLAGS = ["helper", "ccast", "mcast", "dtor", "cctor", "cassign", "priv", "eostream"]
TOML = {"ctor": ("struct", "derive_constructor"), "eq": ("struct", "derive_eq"), "neq": ("struct", "derive_neq"), "lt": ("struct", "derive_lt"),
        "lte": ("struct", "derive_lte"), "gt": ("struct", "derive_gt"), "gte": ("struct", "derive_gte"), "ostream": ("struct", "derive_ostream"),
        "helper": ("enum", "derive_helper_methods"), "ccast": ("enum", "derive_const_casts"), "mcast": ("enum", "derive_mut_casts"),
        "dtor": ("enum", "derive_tagged_enum_destructor"), "cctor": ("enum", "derive_tagged_enum_copy_constructor"),
        "cassign": ("enum", "derive_tagged_enum_copy_assignment"), "priv": ("enum", "private_default_tagged_enum_constructor"), "eostream": ("enum", "derive_ostream")}
ANNO = {"ctor": "derive-constructor", "eq": "derive-eq", "neq": "derive-neq", "lt": "derive-lt", "lte": "derive-lte", "gt": "derive-gt", "gte": "derive-gte",
        "ostream": "derive-ostream", "helper": "derive-helper-methods", "ccast": "derive-const-casts", "mcast": "derive-mut-casts",
        "dtor": "derive-tagged-enum-destructor", "cctor": "derive-tagged-enum-copy-constructor", "cassign": "derive-tagged-enum-copy-assignment",
        "priv": "private-default-tagged-enum-constructor", "eostream": "derive-ostream"}
THREE = ("dtor", "cctor", "cassign", "priv")
INTS = ["i32", "u32", "i16", "u16", "i64", "u64", "f32", "f64"]
UNPRINTED = ("fp", "dp")
ATTRS_S = ["eq", "neq", "lt", "lte", "gt", "gte"]
ATTRS_E = ["eq", "neq", "destructor", "copy-constructor", "copy-assignment"]
ATTRS_V = ["variant-constructor", "variant-const-cast", "variant-mut-cast", "variant-is"]


class D:
    """one crate; self.types are concrete C++ types with values, the generic ones instantiated"""

    def __init__(self, seed):
        r = self.r = random.Random(str(seed))
        self.g = gen.Gen(str(seed) + "/names", docs=0.1)
        self.items, self.types, self.flags, self.raw = [], [], {}, []
        p = self.p
        three = p(0.5)
        for f in SFLAGS + EFLAGS:
            self.flags[f] = p(0.6)
        self.flags["helper"] = p(0.85)
        self.flags["eostream"] = self.flags["ostream"]
        for f in THREE:
            self.flags[f] = three
        self.flags["ctor"] = p(0.5) and three
        self.three = three
        self.defs = {"fa": p(0.5)}
        for _ in range(r.randint(1, 2)):
            self.plain()
        for _ in range(r.randint(3, 5)):
            x = r.random()
            if x < 0.35:
                self.struct()
            elif x < 0.8:
                self.enum()
            else:
                self.bits()
        self.enum()
        fn = self.g.base("fn", "use_all", link="no_mangle", args=[], mod=1, cfg=[], skip="", doc=[])
        self.items.append(fn)

    def p(self, x):
        return self.r.random() < x

    # ---- which types can be members
    def fty(self, generic, arrays=True):
        """(rust type, field type)"""
        r = self.r
        x = r.random()
        if generic and x < 0.5:
            return P("T"), "cnt"
        pool = [i for i, t in enumerate(self.types) if t["member"]]
        if x < 0.4 and pool:
            i = r.choice(pool)
            t = self.types[i]
            return (P(t["rust"]), str(i + 1))
        if x < 0.5 and arrays:
            n = r.randint(1, 3)
            return gen.arr(P("i32"), n), "arr%d" % n
        if x < 0.6:
            return P("bool"), "bool"
        if x < 0.66:
            f = gen.fnty([{"n": "", "t": P("i32")}], P("i32"))
            return (P("Option", [f]) if self.p(.5) else f), "fp"
        if x < 0.72:
            return gen.ptr(P("i32"), False) if self.p(.6) else gen.ref(P("i32"), False), "dp"
        return P(r.choice(INTS)), "int"

    def fields(self, n, tup, generic, arrays):
        taken = set()
        out = []
        for i in range(n):
            t, f = self.fty(generic, arrays)
            nm = "_%d" % i if tup else self.g.local(["x", "yPos", "count", "is_ready", "len", "Flag", "w2"], taken, ["default", "int", "delete"])
            out.append(dict(n=nm, t=t, ft=f, cfg=[], annos=[], doc=[]))
        return out

    def anns(self, names, attrs, leaf=True):
        """annotation overrides"""
        a = {}
        for f in names:
            if self.p(0.12):
                a[f] = self.p(0.6)
        at = {}
        for x in attrs:
            if self.p(0.1):
                at[x] = "VPA_" + x.replace("-", "_")
        return a, at

    def render_anns(self, a, at):
        return [self.g.anno(ANNO[k], "bool", v) for k, v in a.items()] + [self.g.anno(k + "-attributes", "atom", v) for k, v in at.items()]

    def eff(self, f, a):
        return a.get(f, self.flags[f])

    def has(self, i, f):
        """whether a member type has the operation that a container would use"""
        return f in self.types[i]["ops"]

    def close(self, fs, a, names):
        """an operation is only asked for when the members' types have it"""
        for f in names:
            if self.eff(f, a) and any(x["ft"].isdigit() and not self.has(int(x["ft"]) - 1, f) for x in fs):
                a[f] = False

    def plain(self):
        n = self.g.name(["Color", "Mode", "Lvl", "Dir2"])
        it = self.g.base("enum", n, mod=1, cfg=[], skip="")
        if self.p(0.5):
            it["repr"] = dict(style="", int=self.r.choice(["u8", "i32", "u16"]), packed=False, align="")
        else:
            it["repr"] = dict(style="C", int="", packed=False, align="")
        taken = set()
        vs = []
        for _ in range(self.r.randint(1, 4)):
            v = self.g.local(["Red", "DarkBlue", "None_", "A1", "XYZ"], taken, [])
            it["vars"].append(dict(n=v, s="unit", fields=[], d=dict(h=False, v={"k": "bad"}), cfg=[], annos=[], doc=[], must_use=False, depr=NODEPR))
            vs.append(dict(n=v, s="unit", fields=[], on=True))
        a, _ = self.anns(["eostream"], [])
        it["annos"] = self.render_anns(a, {})
        ops = {"eq", "neq", "lt", "lte", "gt", "gte"}
        if self.eff("eostream", a):
            ops |= {"ostream", "eostream"}
        self.items.append(it)
        self.types.append(dict(n=n, rust=n, cpp=n, k="plain", fields=[], vars=vs, ann=a, attrs={}, inl=False, member=True, ops=ops, generic=False, cnt=False))

    def struct(self):
        n = self.g.name(["Point", "Rect", "Pair2", "Ctx"])
        generic = self.p(0.3)
        tup = self.p(0.3)
        a, at = self.anns(SFLAGS, ATTRS_S)
        ctor = self.eff("ctor", a)
        if ctor and not self.three:
            a["ctor"] = ctor = False
        fs = self.fields(self.r.choice([1, 1, 2, 3]), tup, generic, not ctor)
        self.close(fs, a, [f for f in SFLAGS if f not in ("ctor",)])
        if any(f["ft"].startswith("arr") or f["ft"] in UNPRINTED for f in fs) and self.eff("ostream", a):
            a["ostream"] = False
        it = self.g.base("struct", n, mod=1, cfg=[], skip="")
        it["repr"] = dict(style="C", int="", packed=False, align="")
        it["tuple"], it["fields"] = tup, fs
        it["annos"] = self.render_anns(a, at)
        if generic:
            it["gen"] = [dict(n="T", c=False, t=UNIT, d=dict(h=False, a=UNIT))]
        self.items.append(it)
        ops = set()
        noarr = not any(f["ft"].startswith("arr") for f in fs)
        for f in ("eq", "neq"):
            if self.eff(f, a) and noarr:
                ops.add(f)
        for f in ("lt", "lte", "gt", "gte"):
            if self.eff(f, a) and len(fs) == 1 and noarr and fs[0]["ft"] not in ("bool", "fp"):
                ops.add(f)
        if self.eff("ostream", a):
            ops.add("ostream")
        self.types.append(dict(n=n, rust=n, cpp=n + ("<Cnt>" if generic else ""), k="struct", fields=[dict(n=f["n"], t=f["ft"]) for f in fs], vars=[], ann=a,
                               attrs=at, inl=False, member=not generic, ops=ops, generic=generic, cnt=self.holds(fs)))

    def holds(self, fs):
        return any(f["ft"] == "cnt" for f in fs)

    def enum(self):
        n = self.g.name(["Shape", "Msg", "Opt", "Ev3nt"])
        generic = self.three and self.flags["helper"] and self.p(0.4)
        rep = self.r.choice([("C", ""), ("C", ""), ("", "u8"), ("", "u32"), ("C", "u8")])
        inl = rep[0] != "C"
        a, at = self.anns([f for f in EFLAGS if f not in THREE] + ["eq", "neq"], ATTRS_E)
        leaf = False
        if not self.three and self.p(0.4) and not generic:
            # an enum with operations of its own, never a member of another type and with no members of such types
            leaf = True
            for f in THREE:
                if self.p(0.5):
                    a[f] = self.p(0.7)
            if self.eff("cctor", a):
                a["priv"] = True
        if self.three and self.eff("ctor", {}) and not self.flags["priv"]:
            a["priv"] = True
        it = self.g.base("enum", n, mod=1, cfg=[], skip="")
        it["repr"] = dict(style=rep[0], int=rep[1], packed=False, align="")
        vs, tv = [], []
        taken = set()
        ctor = self.eff("ctor", {})
        arrays = not ctor
        allfs = []
        for i in range(self.r.randint(2, 4)):
            vn = self.g.local(["Circle", "Square", "Nil", "DarkOne", "X9", "Pair"], taken, [])
            s = "unit" if (i and self.p(0.3)) else self.r.choice(["tuple", "named"])
            fs = [] if s == "unit" else self.fields(self.r.choice([1, 1, 2, 3]) if not (s == "named" and self.p(0.08)) else 0, s == "tuple", generic, arrays)
            on = True
            cf = []
            if i and self.p(0.15):
                cf = [{"k": "kv", "n": "feature", "v": "fa"}]
                on = self.defs["fa"]
            vat = {}
            for x in ATTRS_V:
                if self.p(0.08):
                    vat[x] = "VPA_" + x.replace("-", "_")
            v = dict(n=vn, s=s, fields=fs, d=dict(h=False, v={"k": "bad"}), cfg=cf, annos=[], doc=[], must_use=False, depr=NODEPR, vat=vat)
            vs.append(v)
            tv.append(dict(n=vn, s=s, fields=[dict(n=f["n"], t=f["ft"]) for f in fs], on=on, attrs=vat))
            allfs += fs
        if not any(f for v in vs for f in v["fields"]):
            vs[0]["s"], vs[0]["fields"] = "tuple", [dict(n="_0", t=P("i32"), ft="int", cfg=[], annos=[], doc=[])]
            tv[0]["s"], tv[0]["fields"] = "tuple", [dict(n="_0", t="int")]
        arr = any(f["ft"].startswith("arr") or f["ft"] in UNPRINTED for f in allfs)
        if self.eff("eostream", a) and (arr or any(f["ft"].isdigit() and not self.has(int(f["ft"]) - 1, "ostream") for f in allfs)):
            a["eostream"] = False
        self.close(allfs, a, ["eq", "neq"])
        # the bodies of variants are structs of their own: they follow what the enum asks for
        va = {}
        for f in ("eq", "neq"):
            if f in a:
                va[f] = a[f]
        if "eostream" in a:
            va["ostream"] = a["eostream"]
        for f in ("lt", "lte", "gt", "gte"):
            if self.flags[f] and any(x["ft"].isdigit() and not self.has(int(x["ft"]) - 1, f) for x in allfs):
                va[f] = False
        for v in vs:
            if v["s"] != "unit":
                v["annos"] = self.render_anns(va, v["vat"])
            else:
                v["annos"] = self.render_anns({}, v["vat"])
        it["vars"] = vs
        it["annos"] = self.render_anns(a, at)
        if generic:
            it["gen"] = [dict(n="T", c=False, t=UNIT, d=dict(h=False, a=UNIT))]
        self.items.append(it)
        body_ok = all(v["s"] == "unit" or (v["fields"] and not any(f["ft"].startswith("arr") for f in v["fields"])) for v in vs)
        ops = set()
        if self.eff("eq", a) and body_ok:
            ops.add("eq")
            if self.eff("neq", a):
                ops.add("neq")
        if self.eff("eostream", a):
            ops |= {"ostream", "eostream"}
        self.types.append(dict(n=n, rust=n, cpp=n + ("<Cnt>" if generic else ""), k="enum", fields=[], vars=tv, ann=a, attrs=at, inl=inl,
                               member=not generic and not leaf, ops=ops, generic=generic, cnt=self.holds(allfs)))

    def bits(self):
        n = self.g.name(["Flags", "Perm", "Bits2"])
        w = self.r.choice(["u8", "u16"])
        fl = [("F%d" % i, 1 << i) for i in range(self.r.randint(1, 3))]
        a, at = self.anns(["eq", "neq", "ostream"], [])
        if w == "u8":
            a["ostream"] = False
        if self.eff("ctor", {}):
            a["ctor"] = False
        self.raw += ["bitflags! {"] + ["    /// " + rust.anno(x) for x in self.render_anns(a, at)] + ["    #[repr(C)]", "    pub struct %s: %s {" % (n, w)] \
            + ["        const %s = %d;" % f for f in fl] + ["    }", "}"]
        ops = {f for f in ("eq", "neq", "ostream", "lt", "lte", "gt", "gte") if self.eff(f, a)}
        self.types.append(dict(n=n, rust=n, cpp=n, k="bits", fields=[dict(n="bits", t="int")], vars=[], ann=a, attrs=at, inl=False, member=True, ops=ops,
                               generic=False, cnt=False, width=8 if w == "u8" else 16))

    # ---- the crate and its configuration
    def program(self):
        return dict(mods=[dict(n="", cfg=[], parent=0, skip="")], items=self.items, pre=self.raw)

    def config(self):
        r, p = self.r, self.p
        c = gen.config(r, dict(items=[]), "Cxx", rename_fields=.2, rename_variants=.2, rename_args=.4, prefix_with_name=.2, rename_variant_name_fields=.2,
                       allow_constexpr=.2, prefix=.1)
        for k in ("rename_fields", "rename_variants", "rename_args", "rename_variant_name_fields"):
            if c[k] in ("lowercase", "UPPERCASE") or (c[k] == "PascalCase" and k in ("rename_fields", "rename_args")):
                c[k] = "snake_case"    # two names may not fall together
        # a constructor may not be called what its member is
        if p(0.7) or c["rename_variants"] == "None":
            c["rename_variants"] = "None"
        else:
            c["rename_variants"] = r.choice(["GeckoCase", "QUALIFIED_SCREAMING_SNAKE_CASE"])
        if c["rename_variant_name_fields"] not in ("SnakeCase", "snake_case", "camelCase", "GeckoCase"):
            c["rename_variant_name_fields"] = r.choice(["camelCase", "GeckoCase"])
        c["defines"] = [{"k": "feature = fa", "v": "VPD_FA"}]
        c["include"] = [t["n"] for t in self.types]
        for f, (sec, key) in TOML.items():
            if self.flags[f]:
                c["extra"].append((sec, key, "true"))
        c["extra"].append(("enum", "cast_assert_name", '"VP_ASSERT"'))
        c["extra"].append(("macro_expansion", "bitflags", "true"))
        return c


# ---------------------------------------------------------------- the C++ side
PRE = r'''#include <sstream>
#include <cstdio>
#include <string>
#include <type_traits>
#include <concepts>
static std::string vp_asserts;
#define VP_ASSERT(x) (vp_asserts += (x) ? "1" : "0")
struct Cnt {
  int v; static int live;
  Cnt(int x) : v(x) { live++; }
  Cnt(const Cnt& o) : v(o.v) { live++; }
  Cnt& operator=(const Cnt& o) { v = o.v; return *this; }
  ~Cnt() { live--; v = -999; }
  bool operator==(const Cnt& o) const { return v == o.v; }
  bool operator!=(const Cnt& o) const { return v != o.v; }
  bool operator<(const Cnt& o) const { return v < o.v; }
  bool operator<=(const Cnt& o) const { return v <= o.v; }
  bool operator>(const Cnt& o) const { return v > o.v; }
  bool operator>=(const Cnt& o) const { return v >= o.v; }
  friend std::ostream& operator<<(std::ostream& s, const Cnt& c) { return s << c.v; }
};
int Cnt::live = 0;
static int vp_f0(int x) { return x; }
static int vp_f1(int x) { return x + 1; }
static int vp_f2(int x) { return x + 2; }
static int vp_f3(int x) { return x + 3; }
static int (*vp_f[])(int) = {vp_f0, vp_f1, vp_f2, vp_f3};
static int vp_fi(int (*f)(int)) { return f ? f(0) : -1; }
static int vp_d[4];
'''
PRE_H = PRE + "\n"
TESTS = r'''
template<class T> constexpr int has_eq() { return requires(const T& a) { a.operator==(a); }; }
template<class T> constexpr int has_neq() { return requires(const T& a) { a.operator!=(a); }; }
template<class T> constexpr int has_lt() { return requires(const T& a) { a.operator<(a); }; }
template<class T> constexpr int has_lte() { return requires(const T& a) { a.operator<=(a); }; }
template<class T> constexpr int has_gt() { return requires(const T& a) { a.operator>(a); }; }
template<class T> constexpr int has_gte() { return requires(const T& a) { a.operator>=(a); }; }
template<class T> constexpr int has_os() { return requires(const T& a, std::ostream& s) { s << a; }; }
static void out(const char* k, int i, const std::string& s) { printf("%s %d %s\n", k, i, s.c_str()); }
'''


def layout(decls, t):
    """names of members and enumerators as the header has them, by position"""
    by = {d["n"]: d for d in decls if d["k"] in ("struct", "union", "enum")}
    x = t["x"]
    if t["k"] in ("struct", "bits"):
        return dict(fields=[f["n"] for f in by[x]["fields"]], vars=[])
    if t["k"] == "plain":
        return dict(fields=[], vars=[dict(x=v["n"], m="", fields=[], body="") for v in by[x]["vals"]])
    vals = [v["n"] for v in by[x + "::Tag"]["vals"]]
    fl = by[x]["fields"]
    # members: one per variant with data, in order
    mem = []
    for f in fl:
        if f["fs"] and not t["inl"]:
            mem = [(g["n"], g["t"]) for g in f["fs"]]
    if t["inl"]:
        mem = [(f["n"], f["t"]) for f in fl if f["n"]]
    out, k = [], 0
    for i, v in enumerate(t["vars"]):
        if v["s"] == "unit":
            out.append(dict(x=vals[i], m="", fields=[], body=""))
            continue
        m, body = mem[k]
        k += 1
        b = by[x + "::" + body.replace("struct ", "")]
        fs = [f["n"] for f in b["fields"]]
        out.append(dict(x=vals[i], m=m, fields=fs[1:] if t["inl"] else fs, body=body, tag=fs[0] if t["inl"] else ""))
    return dict(fields=[], vars=out)


class Hist:
    """a history of operations on variables, rendered to C++ and to the abstract history of spec/Ops.tla"""

    def __init__(self, seed, d, types):
        self.r = random.Random(str(seed))
        self.d, self.types = d, types
        self.code, self.ops, self.vars = [], [], []   # vars: [(type index, tag)]

    def num(self):
        return self.r.randint(0, 40)

    def arg(self, ft):
        """(c++ expression, abstract argument)"""
        if ft == "int":
            v = self.num()
            return str(v), dict(k="v", v=v, f=[], r=0)
        if ft == "bool":
            v = self.r.randint(0, 1)
            return "true" if v else "false", dict(k="v", v=v, f=[], r=0)
        if ft in ("fp", "dp"):
            v = self.r.randint(0, 3)
            return ("vp_f[%d]" if ft == "fp" else "vp_d + %d") % v, dict(k="v", v=v, f=[], r=0)
        if ft == "cnt":
            v = self.num()
            return "Cnt(%d)" % v, dict(k="v", v=v, f=[], r=0)
        if ft.startswith("arr"):
            vs = [self.num() for _ in range(int(ft[3:]))]
            n = "a%d" % len(self.code)
            self.code.append("int32_t %s[] = {%s};" % (n, ", ".join(map(str, vs))))
            return n, dict(k="arr", v=0, f=vs, r=0)
        ti = int(ft) - 1
        cand = [i for i, (t, _) in enumerate(self.vars) if t == ti]
        if cand and self.r.random() < 0.6:
            i = self.r.choice(cand)
        else:
            i = self.make(ti)
            if i is None:
                return None
        return "v%d" % i, dict(k="reg", v=0, f=[], r=i + 1)

    def push(self, **kw):
        o = dict(op="", d=0, a=0, b=0, t=0, var=0, args=[], fi=0, what="")
        o.update(kw)
        self.ops.append(o)
        return len(self.ops)

    def makable(self, ti):
        t = self.types[ti]
        if t["k"] == "enum":
            fs = [f for v in t["vars"] for f in v["fields"]]
            return t["eff"]["helper"] and all(not f["t"].isdigit() or self.makable(int(f["t"]) - 1) for f in fs)
        return all(not f["t"].isdigit() or self.makable(int(f["t"]) - 1) for f in t["fields"])

    def make(self, ti):
        t = self.types[ti]
        if not self.makable(ti):
            return None
        r = self.r
        if t["k"] == "plain":
            vi = r.randrange(len(t["vars"]))
            i = len(self.vars)
            self.vars.append((ti, vi))
            self.code.append("%s v%d = %s::%s;" % (t["cx"], i, t["cx"], t["lay"]["vars"][vi]["x"]))
            self.push(op="mk", d=i + 1, t=ti + 1, var=vi + 1)
            return i
        if t["k"] in ("struct", "bits"):
            args = [self.arg(f["t"]) for f in t["fields"]]
            i = len(self.vars)
            self.vars.append((ti, 0))
            if t["eff"]["ctor"] and t["k"] == "struct":
                self.code.append("%s v%d(%s);" % (t["cx"], i, ", ".join(a for a, _ in args)))
            else:
                ex = ["{%s}" % ", ".join(map(str, b["f"])) if b["k"] == "arr" else a for a, b in args]
                self.code.append("%s v%d{%s};" % (t["cx"], i, ", ".join(ex)))
            self.push(op="mk", d=i + 1, t=ti + 1, var=1, args=[b for _, b in args])
            return i
        on = [i for i, v in enumerate(t["vars"]) if v["on"]]
        vi = r.choice(on)
        args = [self.arg(f["t"]) for f in t["vars"][vi]["fields"]]
        i = len(self.vars)
        self.vars.append((ti, vi))
        self.code.append("%s v%d = %s::%s(%s);" % (t["cx"], i, t["cx"], t["lay"]["vars"][vi]["x"], ", ".join(a for a, _ in args)))
        self.push(op="mk", d=i + 1, t=ti + 1, var=vi + 1, args=[b for _, b in args])
        return i

    # reading a value through its members
    def dump(self, ft, e):
        if ft == "int":
            return 'std::to_string((long long)%s)' % e
        if ft == "bool":
            return 'std::to_string((int)%s)' % e
        if ft == "cnt":
            return 'std::to_string(%s.v)' % e
        if ft == "fp":
            return 'std::to_string(vp_fi(%s))' % e
        if ft == "dp":
            return 'std::to_string((int)(%s - vp_d))' % e
        if ft.startswith("arr"):
            return '("[" + ' + ' + "," + '.join("std::to_string((long long)%s[%d])" % (e, i) for i in range(int(ft[3:]))) + ' + "]")'
        return "dump_%d(%s)" % (int(ft) - 1, e)

    def dumpers(self):
        out = []
        for i, t in enumerate(self.types):
            b = ["static std::string dump_%d(const %s& v) {" % (i, t["cx"])]
            cat = lambda xs: ' + "," + '.join(xs) if xs else 'std::string()'
            if t["k"] in ("struct", "bits"):
                b.append('  return "s(" + %s + ")";' % cat([self.dump(f["t"], "v." + n) for f, n in zip(t["fields"], t["lay"]["fields"])]))
            elif t["k"] == "plain":
                for k, v in enumerate(t["lay"]["vars"]):
                    b.append('  if (v == %s::%s) return "e%d";' % (t["cx"], v["x"], k + 1))
                b.append('  return "?";')
            else:
                tag = "%s::Tag::%s"
                for k, (v, l) in enumerate(zip(t["vars"], t["lay"]["vars"])):
                    if not v["on"]:
                        continue
                    x = ""
                    if t["inl"] and v["s"] != "unit":
                        x = ' + (v.%s.%s == v.tag ? "" : "!tag")' % (l["m"], l["tag"])
                    b.append('  if (v.tag == %s) return "e%d(" + %s + ")"%s;' % (tag % (t["cx"], l["x"]), k + 1,
                             cat([self.dump(f["t"], "v.%s.%s" % (l["m"], n)) for f, n in zip(v["fields"], l["fields"])]), x))
                b.append('  return "?";')
            b.append("}")
            out += b
        return out

    def step(self):
        r = self.r
        x = r.random()
        if len(self.vars) < 3 or x < 0.25:
            self.make(r.randrange(len(self.types)))
            return
        i = r.randrange(len(self.vars))
        ti, _ = self.vars[i]
        t = self.types[ti]
        same = [j for j, (u, _) in enumerate(self.vars) if u == ti]
        n = len(self.ops) + 1
        emit = lambda e: self.code.append('out("O", %d, %s);' % (n, e))
        if x < 0.33:
            j = len(self.vars)
            self.vars.append((ti, 0))
            self.code.append("%s v%d(v%d);" % (t["cx"], j, i))
            self.push(op="copy", d=j + 1, a=i + 1)
        elif x < 0.45:
            j = r.choice(same)
            self.code.append("v%d = v%d;" % (j, i))
            self.push(op="assign", d=j + 1, a=i + 1)
        elif x < 0.55:
            emit("dump_%d(v%d)" % (ti, i))
            self.push(op="dump", a=i + 1)
        elif x < 0.75 and t["k"] != "plain":
            ops = [o for o in ("eq", "neq", "lt", "lte", "gt", "gte") if o in t["ops"]]
            if not ops:
                return
            o = r.choice(ops)
            j = r.choice(same)
            s = {"eq": "==", "neq": "!=", "lt": "<", "lte": "<=", "gt": ">", "gte": ">="}[o]
            emit('std::to_string((int)v%d.operator%s(v%d))' % (i, s, j))
            self.push(op="cmp", what=o, a=i + 1, b=j + 1)
        elif x < 0.82 and "ostream" in t["ops"]:
            self.code.append("{ std::ostringstream s; s << v%d; out(\"O\", %d, s.str()); }" % (i, n))
            self.push(op="print", a=i + 1)
        elif t["k"] == "enum" and t["eff"]["helper"]:
            on = [k for k, v in enumerate(t["vars"]) if v["on"]]
            data = [k for k in on if t["vars"][k]["fields"]]
            y = r.random()
            if y < 0.35:
                emit(" + ".join('std::to_string((int)v%d.Is%s())' % (i, t["lay"]["vars"][k]["x"]) for k in on))
                self.push(op="is", a=i + 1)
            elif data and (t["eff"]["ccast"] or t["eff"]["mcast"]):
                k = r.choice(data)
                v, l = t["vars"][k], t["lay"]["vars"][k]
                inline = v["s"] == "tuple" and len(v["fields"]) == 1
                con = t["eff"]["ccast"] and (not t["eff"]["mcast"] or r.random() < 0.5)
                if not con and y > 0.7 and any(f["t"] in ("int", "bool", "cnt") for f in v["fields"]):
                    fi = r.choice([q for q, f in enumerate(v["fields"]) if f["t"] in ("int", "bool", "cnt")])
                    val = r.randint(0, 1) if v["fields"][fi]["t"] == "bool" else self.num()
                    lhs = "v%d.As%s()%s" % (i, l["x"], "" if inline else "." + l["fields"][fi])
                    self.code.append('if (v%d.tag == %s::Tag::%s) { %s = %d; } vp_asserts.clear();' % (i, t["cx"], l["x"], lhs, val))
                    self.push(op="set", a=i + 1, var=k + 1, fi=fi + 1, b=val)
                else:
                    ref = "static_cast<%s%s&>(v%d).As%s()" % ("const " if con else "", t["cx"], i, l["x"])
                    if inline:
                        body = self.dump(v["fields"][0]["t"], "x")
                    else:
                        body = ' + "," + '.join(self.dump(f["t"], "x." + q) for f, q in zip(v["fields"], l["fields"]))
                    self.code.append('{ vp_asserts.clear(); auto&& x = %s; (void)x; std::string s = vp_asserts; if (v%d.tag == %s::Tag::%s) s += ":" + %s; out("O", %d, s); }'
                                     % (ref, i, t["cx"], l["x"], body, n))
                    self.push(op="as", a=i + 1, var=k + 1)
        elif t["k"] == "bits":
            j = r.choice(same)
            o = r.choice(["or", "and", "xor", "not", "bool", "ior", "iand", "ixor"])
            s = {"or": "|", "and": "&", "xor": "^", "ior": "|=", "iand": "&=", "ixor": "^="}
            if o == "not":
                emit("dump_%d(~v%d)" % (ti, i))
            elif o == "bool":
                emit("std::to_string((int)static_cast<bool>(v%d))" % i)
            elif o[0] == "i":
                emit("dump_%d(v%d %s v%d)" % (ti, i, s[o], j))
            else:
                emit("dump_%d(v%d %s v%d)" % (ti, i, s[o], j))
            self.push(op="bits", what=o, a=i + 1, b=j + 1)
        else:
            emit("std::to_string(Cnt::live)")
            self.push(op="live")

    def program(self, steps):
        for _ in range(steps):
            self.step()
        n = len(self.ops) + 1
        self.code.append('out("O", %d, std::to_string(Cnt::live));' % n)
        self.push(op="live")


def presence(types):
    out = []
    tmpl = []
    for i, t in enumerate(types):
        c = t["cx"]
        p = lambda op, e: out.append('printf("P %d %s %%d\\n", (int)(%s));' % (i + 1, op, e))
        for o in ("eq", "neq", "lt", "lte", "gt", "gte"):
            if t["k"] != "plain":
                p(o, "has_%s<%s>()" % (o, c))
        p("ostream", "has_os<%s>()" % c)
        if t["k"] in ("struct", "bits"):
            p("ctor", "!std::is_aggregate_v<%s>" % c)
        if t["k"] == "enum":
            p("defctor", "std::is_default_constructible_v<%s>" % c)
            if not t["cnt"] and not any(f["t"].isdigit() for v in t["vars"] for f in v["fields"]):
                p("trivdtor", "std::is_trivially_destructible_v<%s>" % c)
                p("trivassign", "std::is_trivially_copy_assignable_v<%s>" % c)
                p("trivcopy", "std::is_trivially_copy_constructible_v<%s>" % c)
            for k, l in enumerate(t["lay"]["vars"]):
                x = l["x"]
                tmpl.append("template<class T> constexpr int ph_%d_%d() { return requires { requires std::is_function_v<std::remove_pointer_t<decltype(&T::%s)>>; }; }" % (i, k, x))
                tmpl.append("template<class T> constexpr int pi_%d_%d() { return requires(const T& a) { { a.Is%s() } -> std::same_as<bool>; }; }" % (i, k, x))
                tmpl.append("template<class T> constexpr int pc_%d_%d() { return requires(const T& a) { a.As%s(); }; }" % (i, k, x))
                tmpl.append("template<class T> constexpr int pm_%d_%d() { if constexpr (requires(T& a) { a.As%s(); }) { return std::is_lvalue_reference_v<decltype(std::declval<T&>().As%s())> && !std::is_const_v<std::remove_reference_t<decltype(std::declval<T&>().As%s())>>; } else return 0; }" % (i, k, x, x, x))
                for q, nm in (("h", "make"), ("i", "is"), ("c", "ccast"), ("m", "mcast")):
                    p("%s.%d" % (nm, k + 1), "p%s_%d_%d<%s>()" % (q, i, k, c))
    return tmpl, out


def scoped_attrs(text):
    """attributes with the innermost struct or union they are in"""
    r, stack = [], []
    pend = None
    for l in text.splitlines():
        m = re.match(r"\s*(?:struct|union)\s+(\w+)?", l)
        if m:
            pend = m.group(1) or ""
        a = re.match(r"\s*(VPA_\w+)\s+(.*?[\w=<>!])\(", re.sub(r" \((?=[&*])", " ", l))
        if a:
            r.append(dict(a=a.group(1), d=a.group(2).strip().split()[-1].lstrip("&*") if a.group(2).strip() else "", s=([x for x in stack if x is not None] or [""])[-1]))
        for c in l:
            if c == "{":
                stack.append(pend)
                pend = None
            elif c == "}":
                if stack:
                    stack.pop()
    return r


def make(seed, i):
    return D("C21/%d/%d" % (seed, i))


def observe(a):
    """(case, rep, nhist, steps) -> (job without id, text of the program)"""
    d, c, r, nh, steps, seed = a
    o = dict(status=r["status"], err=vp.ascii_(r["err"][:200]), comp="", pres=[], obs=[], attrs=[])
    job = dict(flags=d.flags, types=[], hists=[], obs=o)
    if r["status"] != "ok":
        return job, ""
    try:
        decls = hdr.parse("Cxx", r["out"]).decls
    except (hdr.HdrError, IndexError) as e:
        o["status"], o["err"] = "unparsable", vp.ascii_(str(e)[:200])
        return job, ""
    names = {t["n"] for t in d.types}
    order = {}
    types = []
    for t in d.types:
        t = dict(t)
        t["x"] = c["prefix"] + t["n"]
        t["cx"] = c["prefix"] + t["cpp"]
        t["eff"] = {f: t["ann"].get(f, d.flags[f]) for f in SFLAGS + EFLAGS}
        try:
            t["lay"] = layout(decls, t)
        except (KeyError, IndexError) as e:
            o["status"], o["err"] = "shape", "members of %s: %s" % (t["n"], e)
            return job, ""
        types.append(t)
    job["types"] = [dict(n=t["n"], x=t["x"], k=t["k"], inl=t["inl"], cnt=t["cnt"], width=t.get("width", 0),
                         ann=[dict(k=k, b=v) for k, v in t["ann"].items()], attrs=[dict(k=k, v=v) for k, v in t["attrs"].items()],
                         fields=[dict(n=n, t=f["t"]) for f, n in zip(t["fields"], t["lay"]["fields"])],
                         vars=[dict(x=l["x"], s=v["s"], on=v["on"], body=l["body"], tag=l.get("tag", ""), attrs=[dict(k=k, v=w) for k, w in v.get("attrs", {}).items()],
                                    fields=[dict(n=n, t=f["t"]) for f, n in zip(v["fields"], l["fields"])]) for v, l in zip(t["vars"], t["lay"]["vars"])])
                    for t in types]
    hs = []
    for h in range(nh):
        x = Hist("%s/%d" % (seed, h), d, types)
        x.program(steps)
        hs.append(x)
    tmpl, pres = presence(types)
    text = PRE_H + r["out"] + TESTS + "\n".join(tmpl) + "\n" + "\n".join(hs[0].dumpers()) + "\n"
    for h, x in enumerate(hs):
        text += "static void hist_%d() {\n" % h + "".join("  " + l + "\n" for l in x.code) + "}\n"
    text += "int main() {\n  " + "\n  ".join(pres) + "\n" + "".join('  printf("H %d\\n"); fflush(stdout); hist_%d(); printf("L %%d\\n", Cnt::live);\n' % (h, h) for h in range(nh)) + "}\n"
    job["hists"] = [x.ops for x in hs]
    o["attrs"] = scoped_attrs(r["out"])
    w = vp.tmpdir()
    try:
        open(os.path.join(w, "p.cpp"), "w").write(text)
        rc, out = compiled.run(["g++", "-std=gnu++20", "-w", "-O0"] + (["-DVPD_FA"] if d.defs["fa"] else []) + ["-DVPA_%s=" % x.replace("-", "_") for x in set(ATTRS_S + ATTRS_E + ATTRS_V)]
                               + ["-o", "p", "p.cpp"], w)
        if rc != 0:
            o["comp"] = vp.ascii_("\n".join(l for l in out.splitlines() if "error" in l) or out)[:400]
            return job, text + "\n/*\n" + out + "*/\n"
        rc, out = compiled.run(["./p"], w, 20)
        o["run"] = str(rc)
        cur = None
        for l in out.splitlines():
            q = l.split(" ", 3)
            if q[0] == "P":
                o["pres"].append(dict(t=int(q[1]), op=q[2], v=q[3] == "1"))
            elif q[0] == "H":
                cur = []
                o["obs"].append(cur)
            elif q[0] == "O":
                q = l.split(" ", 2)
                cur.append(dict(i=int(q[1]), s=vp.ascii_(q[2] if len(q) > 2 else "").replace('"', "'")))
            elif q[0] == "L":
                cur.append(dict(i=0, s=q[1]))
        return job, text
    finally:
        shutil.rmtree(w, ignore_errors=True)


CFG = "SPECIFICATION OSpec\nCHECK_DEADLOCK FALSE\n"


def prepare(seed, i):
    d = make(seed, i)
    c = d.config()
    return d, c, rust.program(d.program()), rust.toml(c)


def check(rep, n, nh, steps, batch=600):
    done = 0
    while done < n and len(rep.violations) < 20:
        m = min(batch, n - done)
        cs = vp.pool().starmap(prepare, [(rep.seed, done + i) for i in range(m)], chunksize=8)
        inp = [dict(id=i, src=c[2], runs=[dict(toml=c[3])], reps=1) for i, c in enumerate(cs)]
        res = vp.run_harness(inp)
        first = [res[i][0]["reps"][0] for i in range(m)]
        ob = vp.pool().map(observe, [(c[0], c[1], first[i], nh, steps, "h/%d/%d" % (rep.seed, done + i)) for i, c in enumerate(cs)], chunksize=1)
        jobs = [dict(j, id=i, run=j["obs"].get("run", "")) for i, (j, _) in enumerate(ob)]
        bad, st = vp.judge("Ops", CFG, jobs)
        rep.stats(st)
        rep.traces(sum(len(j["hists"]) for j in jobs))
        for b in sorted(bad, key=int):
            j = int(b)
            rep.violation("case %s: %s" % (b, bad[b][:1500]),
                          {"lib.rs": inp[j]["src"], "cbindgen.toml": inp[j]["runs"][0]["toml"], "header.txt": first[j]["out"] + first[j]["err"], "program.cpp": ob[j][1], "diff.txt": bad[b]})
        for k in range(0, m, max(1, m // 2)):
            rep.sample({"src": inp[k]["src"][:1200], "history": jobs[k]["hists"][0][:8] if jobs[k]["hists"] else [], "observed": jobs[k]["obs"]["obs"][:1], "presence": jobs[k]["obs"]["pres"][:10]})
        done += m
