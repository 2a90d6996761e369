"""Exhaustive small scopes: every input of a small bounded family, judged by spec/Conform.tla.
A family is a function (tier) -> list of (program, configuration); only the quick tier thins the
largest ones out (seeded)."""
import copy
import itertools
import random

import conform
import gen
import vp
from gen import P, UNIT, arr, fnty, ptr, ref
from rust import CFG0

LANGS3 = ["C", "Cxx", "Cython"]
RULES = gen.RULES
KEYWORDS = ["alignas", "auto", "bool", "case", "catch", "char", "class", "char8_t", "constexpr", "consteval", "decltype", "default", "delete", "double", "explicit", "export", "float",
            "friend", "goto", "inline", "int", "long", "mutable", "namespace", "new", "noexcept", "nullptr", "operator", "private", "protected", "public", "register", "short",
            "signed", "sizeof", "static_assert", "switch", "template", "this", "thread_local", "throw", "typedef", "typename", "union", "unsigned", "using", "void", "volatile",
            "wchar_t", "and", "or", "not", "xor", "asm", "alignof", "char16_t", "char32_t", "const_cast", "dynamic_cast", "reinterpret_cast", "static_cast", "typeid"]


def cfg(**kw):
    c = copy.deepcopy(CFG0)
    c.update(kw)
    return c


class B:
    """a program under construction"""

    def __init__(self):
        self.g = gen.Gen("small")
        self.items = []
        self.mods = [dict(n="", cfg=[], parent=0, skip="")]

    def add(b_, k, n, **kw):
        it = b_.g.base(k, n)
        it["mod"] = 1
        it.update(kw)
        b_.items.append(it)
        return it

    def struct(self, n, fields, style="C", **kw):
        it = self.add("struct", n, **kw)
        it["repr"]["style"] = style
        it["fields"] = fields
        return it

    def fn(self, n, args=(), ret=UNIT, **kw):
        kw.setdefault("link", "no_mangle")
        return self.add("fn", n, args=list(args), ret=ret, **kw)

    def static(self, n, t, **kw):
        kw.setdefault("link", "no_mangle")
        return self.add("static", n, t=t, **kw)

    def prog(self):
        return dict(mods=self.mods, items=self.items, pre=[], rv="")


def F(n, t, **kw):
    d = dict(n=n, t=t, cfg=[], annos=[], doc=[])
    d.update(kw)
    return d


def V(n, s="unit", fields=(), d=None, **kw):
    v = dict(n=n, d=dict(h=d is not None, v=d or {"k": "bad"}), s=s, fields=list(fields), cfg=[], annos=[], must_use=False, depr=gen.NODEPR, doc=[])
    v.update(kw)
    return v


def num(v):
    return {"k": "int", "v": str(v), "sfx": "", "big": False}


def chunks(q, n):
    return [q[i:i + n] for i in range(0, len(q), n)]


def thin(q, n, seed):
    if len(q) <= n:
        return q
    r = random.Random("thin/%s" % seed)
    return r.sample(q, n)


# ---- identifiers x rules ---------------------------------------------------------
def identifiers(n):
    out = []
    for k in range(1, n + 1):
        for t in itertools.product("aB_1", repeat=k):
            s = "".join(t)
            if s[0] != "1" and any(c in "aB1" for c in s):
                out.append(s)
    return out


def names(tier, seed):
    ids = identifiers(4 if tier == "quick" else 6)
    out = []
    for rule in ["None"] + RULES:
        for ch in chunks(ids, 80):
            out.append((one_names(ch), cfg(lang="C", rename_fields=rule, rename_args=rule, rename_variants=rule)))
        for lang in LANGS3:
            for ch in chunks(KEYWORDS, 30):
                out.append((one_names(ch), cfg(lang=lang, rename_fields=rule, rename_args=rule, rename_variants=rule, prefix_with_name=lang == "Cxx" and rule != "None")))
        for ch in chunks(ids, 80):
            b = B()
            b.struct("Gn", [F("a", P("T"))], gen=[dict(n="T", c=False, t=UNIT, d=dict(h=False, a=UNIT))])
            for i in ch:
                b.struct("t" + i, [F("x", P("u8"))])
            b.fn("use_it", [dict(n="p%d" % j, t=P("Gn", [P("t" + i)])) for j, i in enumerate(ch)])
            out.append((b.prog(), cfg(lang="C", mangle_rule=rule if rule != "None" else "None", mangle_rm_us=len(out) % 2 == 0)))
    return out


def one_names(ch):
    b = B()
    b.struct("S", [F(i, P("u8")) for i in ch])
    e = b.add("enum", "E")
    e["repr"]["int"] = "u8"
    e["vars"] = [V(i, "tuple", [F("0", P("u8"))]) if j % 5 == 1 else V(i) for j, i in enumerate(ch)]
    b.fn("f", [dict(n=i, t=P("u8")) for i in ch])
    b.fn("g", [dict(n="s", t=P("S")), dict(n="e", t=P("E"))])
    return b.prog()


# ---- types -------------------------------------------------------------------------
CTORS = [lambda t: ptr(t, False), lambda t: ptr(t, True), lambda t: ref(t, False), lambda t: ref(t, True), lambda t: P("Option", [t]), lambda t: P("Box", [t]),
         lambda t: P("NonNull", [t]), lambda t: arr(t, 3), lambda t: fnty([], t), lambda t: fnty([{"n": "", "t": t}]), lambda t: fnty([{"n": "q", "t": t}], t),
         lambda t: P("Cell", [t]), lambda t: P("ManuallyDrop", [t])]
VOIDS = [UNIT, P("c_void")]
BASES = [P("u8"), P("Foo"), P("c_void"), P("Opq"), P("En"), P("Td"), UNIT]


def has(t, p):
    return p(t) or any(has(x, p) for x in t.get("g", []) + ([t["t"]] if t["k"] in ("ptr", "ref", "arr") else []) + ([a["t"] for a in t["a"]] + [t["r"]] if t["k"] == "fn" else []))


def type_terms(d):
    cur = list(BASES)
    out = list(BASES)
    for _ in range(d):
        cur = [c(t) for c in CTORS for t in cur if not (t in VOIDS and c in CTORS[4:8] + CTORS[9:])]
        out += cur
    return out


def prelude(b):
    b.struct("Foo", [F("x", P("u8"))])
    b.struct("Opq", [], style="")
    e = b.add("enum", "En")
    e["repr"]["style"] = "C"
    e["vars"] = [V("One")]
    b.add("typedef", "Td", t=P("Foo"))


def types(tier, seed):
    ts = type_terms(3)
    if tier == "quick":
        short = type_terms(2)
        ts = short + thin(ts[len(short):], 480, seed)
    out = []
    for k, ch in enumerate(chunks(ts, 24)):
        b = B()
        prelude(b)
        b.struct("Hold", [F("f%d" % i, t) for i, t in enumerate(ch) if t["k"] != "bad"])
        for i, t in enumerate(ch):
            if t["k"] != "arr":
                b.fn("a%d" % i, [dict(n="v", t=t)])
            b.fn("r%d" % i, [], t)
            if t["k"] != "unit":
                b.static("g%d" % i, t, mutb=i % 2 == 0)
                b.add("typedef", "T%d" % i, t=t)
        inc = ["Hold"] + ["T%d" % i for i, t in enumerate(ch) if t["k"] != "unit"]
        for lang, style, attr in [("C", "both", ""), ("C", "tag", "VP_A"), ("C", "type", ""), ("Cxx", "both", "VP_A"), ("Cython", "both", ""), ("Cython", "tag", "")][k % 2 if tier != "quick" else 0::2 if tier != "quick" else 1]:
            out.append((b.prog(), cfg(lang=lang, style=style, include=inc, nullable_attr=attr and "VP_NULLABLE", nonnull_attr=attr and "VP_NONNULL")))
    return out


# ---- cfg predicates ------------------------------------------------------------------
ATOMS = [{"k": "flag", "n": "unix"}, {"k": "kv", "n": "feature", "v": "fa"}, {"k": "flag", "n": "unmapped"}]


def predicates(d):
    cur = list(ATOMS)
    for _ in range(d):
        cur = ATOMS + [{"k": "not", "a": a} for a in cur] + [{"k": k, "as": [a]} for k in ("any", "all") for a in cur] + [{"k": k, "as": [a, b]} for k in ("any", "all") for a in cur for b in cur]
    return cur


def conditions(tier, seed):
    ps = predicates(1) + thin(predicates(2), 700 if tier == "quick" else 10 ** 9, seed)
    out = []
    for k, ch in enumerate(chunks(ps, 16)):
        b = B()
        for i, c in enumerate(ch):
            w = [c] if i % 3 else [c, ATOMS[i % 2]]
            b.fn("f%d" % i, cfg=w)
            b.static("g%d" % i, P("u8"), cfg=w)
            b.add("const", "K%d" % i, t=P("u8"), e=num(i), cfg=w)
            b.struct("S%d" % i, [F("a", P("u8"), cfg=[c]), F("b", P("u8"))], cfg=w)
            b.add("typedef", "T%d" % i, t=P("u8"), cfg=w)
        e = b.add("enum", "E")
        e["repr"]["int"] = "u8"
        e["vars"] = [V("A")] + [V("B%d" % i, "tuple" if i % 2 else "unit", [F("0", P("u8"))] if i % 2 else [], cfg=[c]) for i, c in enumerate(ch)]
        inc = [x["n"] for x in b.items if x["k"] in ("struct", "typedef", "enum")]
        for lang in ([LANGS3[k % 3]] if tier == "quick" else LANGS3):
            out.append((b.prog(), cfg(lang=lang, include=inc, defines=gen.DEFINES)))
    return out


# ---- expressions ------------------------------------------------------------------------
def exprs(tier, seed):
    leaf = [num(1), num(0), {"k": "int", "v": "7", "sfx": "u32", "big": False}, {"k": "path", "to": "", "n": "KA"}, {"k": "path", "to": "Foo", "n": "AK"}, {"k": "path", "to": "u32", "n": "MAX"},
            {"k": "cast", "t": P("u32"), "a": {"k": "path", "to": "En", "n": "One"}}, {"k": "path", "to": "Nowhere", "n": "AK"}]
    ops = ["+", "-", "*", "/", "%", "|", "&", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]
    cur = list(leaf)
    allx = list(leaf)
    for d in range(1 if tier == "quick" else 2):
        src = cur if d == 0 else thin(cur, 120, seed)
        cur = [{"k": "un", "op": o, "a": a} for o in ("-", "!", "*") for a in src] + [{"k": "cast", "t": P(t), "a": a} for t in ("u32", "u8", "Td") for a in src] \
            + [{"k": "bin", "op": o, "a": a, "b": b} for o in ops for a in src for b in (src if d == 0 else leaf)]
        allx += cur
    if tier == "quick":
        d1 = thin(cur, 400, seed)
        allx += [{"k": "un", "op": o, "a": a} for o in ("-", "!") for a in d1] + [{"k": "bin", "op": ops[i % len(ops)], "a": a, "b": leaf[i % len(leaf)]} for i, a in enumerate(d1)]
    out = []
    for k, ch in enumerate(chunks(allx, 40)):
        b = B()
        prelude(b)
        b.add("const", "KA", t=P("u32"), e=num(5))
        b.add("assoc", "AK", self="Foo", t=P("u32"), e=num(6), implcfg=False)
        e = b.add("enum", "Ex")
        e["repr"]["int"] = "u32"
        for i, x in enumerate(ch):
            b.add("const", "C%d" % i, t=P("u32"), e=x)
            e["vars"].append(V("V%d" % i, d=x))
        for lang, kw in [("C", {}), ("Cxx", dict(allow_constexpr=False)), ("Cxx", dict(assoc_in_body=True, prefix="Px")), ("Cython", {}), ("Cxx", dict(allow_static_const=False, allow_constexpr=False)),
                         ("C", dict(prefix="Px", rename_assoc="lowercase"))]:
            out.append((b.prog(), cfg(lang=lang, include=["Ex", "Foo"], **kw)))
    return thin(out, 400, seed) if tier == "quick" else out


# ---- enums --------------------------------------------------------------------------------
def enums(tier, seed):
    shapes = [("unit", []), ("tuple", []), ("named", []), ("tuple", [P("u8")]), ("tuple", [P("u8"), P("Foo")]), ("named", [P("u8")]), ("named", [ptr(P("En2"), True), P("Foo")]), ("tuple", [UNIT])]
    out = []
    for n in (1, 2):
        for sh in itertools.product(shapes, repeat=n):
            for style, ip in (("C", ""), ("", "u8"), ("C", "i16"), ("", ""), ("C", "usize")):
                for lang in LANGS3:
                    out.append((sh, style, ip, lang))
    out = thin(out, 900 if tier == "quick" else 10 ** 9, seed)
    res = []
    for i, (sh, style, ip, lang) in enumerate(out):
        b = B()
        b.struct("Foo", [F("x", P("u8"))])
        e = b.add("enum", "En2")
        e["repr"].update(style=style, int=ip)
        nodata = all(s == "unit" for s, _ in sh)
        e["vars"] = [V("VarA Two".split()[j] if j < 2 else "V3", s, [F(str(q) if s == "tuple" else "f%d" % q, t) for q, t in enumerate(ts)],
                       num(4 * j + 1) if (nodata or ip) and i % 2 else None) for j, (s, ts) in enumerate(sh)]
        b.fn("f", [dict(n="e", t=P("En2"))])
        b.fn("g", [dict(n="e", t=ref(P("En2"), False))])
        res.append((b.prog(), cfg(lang=lang, style=["both", "tag", "type"][i % 3], enum_class=i % 4 != 0, prefix_with_name=i % 5 == 0, add_sentinel=i % 7 == 0,
                                  rename_variants=RULES[i % 9] if i % 6 == 0 else "None")))
    return res


# ---- which functions are exported -----------------------------------------------------------
def exports(tier, seed):
    rows = []
    for link in ("none", "no_mangle", "unsafe_no_mangle", "export_name", "unsafe_export_name", "both"):
        for abi in ("C", "", "unwind", "rust", "system", "stdcall", "call", "cmse"):
            for vis in ("pub", "", "pub(crate)"):
                for skip in ("", "ignore", "cfgtest", "test"):
                    for place in ("free", "method", "generic", "decl"):
                        rows.append((link, abi, vis, skip, place))
    rows = [r for r in rows if not (r[4] == "decl" and (r[0] != "none" or r[2] != "pub"))]
    rows = thin(rows, 1300 if tier == "quick" else 10 ** 9, seed)
    out = []
    for k, ch in enumerate(chunks(rows, 30)):
        b = B()
        b.struct("Foo", [F("x", P("u8"))])
        b.struct("Gen1", [F("x", ptr(P("T"), True))], gen=[dict(n="T", c=False, t=UNIT, d=dict(h=False, a=UNIT))])
        for i, (link, abi, vis, skip, place) in enumerate(ch):
            it = b.fn("f%d" % i, [dict(n="a", t=P("u8"))], link=link, abi=abi, vis=vis, skip=skip, decl=place == "decl")
            if "export" in link or link == "both":
                it["ename"] = "sym%d" % i
            if place in ("method", "generic"):
                it["self"] = "Foo" if place == "method" else "Gen1"
                it["implgen"] = ["T"] if place == "generic" else []
                it["recv"] = ["ref", "mut", "", "val"][i % 4]
            if skip == "ignore" and place != "free":
                it["implskip"] = i % 2 == 0
            if place == "free" and skip not in ("test",):
                s = b.static("g%d" % i, P("u8"), link=link, vis=vis, skip=skip)
                s["ename"] = "gsym%d" % i
        out.append((b.prog(), cfg(lang=LANGS3[k % 3])))
    return out


# ---- representations -------------------------------------------------------------------------
def reprs(tier, seed):
    rows = list(itertools.product(("", "C", "transparent"), ("", "u8"), (False, True), ("", "4", "16"), ("struct", "tuple", "union", "enum", "dataenum"), (("", ""), ("VP_PACKED", "VP_ALIGNED"), ("VP_PACKED", "")), LANGS3))
    rows = [r for r in rows if not (r[2] and r[3]) and not (r[1] and r[4] in ("struct", "tuple", "union")) and not (r[0] == "transparent" and (r[1] or r[2] or r[3] or r[4] not in ("struct", "tuple")))]
    out = []
    for rs in chunks(rows, 8):
        by = {}
        for r in rs:
            by.setdefault((r[5], r[6]), []).append(r)
        for (lay, lang), q in by.items():
            b = B()
            inc = []
            for i, (st, ip, pk, al, kind, _, _) in enumerate(q):
                n = "Ty%d" % i
                inc.append(n)
                it = b.add("enum" if "enum" in kind else "union" if kind == "union" else "struct", n)
                it["repr"].update(style=st, int=ip, packed=pk, align=al)
                if "enum" in kind:
                    it["vars"] = [V("A%d" % i), V("B%d" % i, "tuple", [F("0", P("u16"))]) if kind == "dataenum" else V("B%d" % i)]
                else:
                    it["tuple"] = kind == "tuple"
                    it["fields"] = [F("x", P("u8"))] + ([] if st == "transparent" else [F("y", P("u32"))])
            out.append((b.prog(), cfg(lang=lang, packed=lay[0], aligned_n=lay[1], include=inc)))
    return out


# ---- type graphs ---------------------------------------------------------------------------------
def graphs(tier, seed):
    """three types, every way of referring to each other, every way of being needed"""
    kinds = ("struct", "union", "typedef", "trans", "opaque", "tagged")
    rows = []
    for ks in itertools.product(kinds, repeat=3):
        for ed in itertools.product(("", "ptr", "val"), ("", "ptr", "val"), ("", "ptr", "val"), ("", "ptr"), ("", "ptr"), ("", "ptr")):
            rows.append((ks, ed))
    rows = thin(rows, 900 if tier == "quick" else 12000, seed)
    out = []
    for i, (ks, ed) in enumerate(rows):
        r = random.Random("graph/%s/%d" % (seed, i))
        nm = ["Aa", "Bb", "Cc"]
        r.shuffle(nm)
        # edges: (0->1) (0->2) (1->2) any; back edges pointers only
        E = {0: [(1, ed[0]), (2, ed[1])], 1: [(2, ed[2]), (0, ed[3])], 2: [(0, ed[4]), (1, ed[5])]}
        b = B()
        b.mods.append(dict(n="m1", cfg=[], parent=1, skip=""))
        order = [0, 1, 2]
        r.shuffle(order)
        for j in order:
            fs = [F("f%d" % q, ptr(P(nm[t]), r.random() < .5) if how == "ptr" else P(nm[t])) for q, (t, how) in enumerate(E[j]) if how]
            k = ks[j]
            m = r.choice([1, 2])
            if k == "typedef":
                b.add("typedef", nm[j], t=fs[0]["t"] if fs else P("u8"), mod=m)
            elif k == "trans":
                b.struct(nm[j], fs[:1] or [F("x", P("u8"))], style="transparent", mod=m)
            elif k == "opaque":
                b.struct(nm[j], fs, style="", mod=m)
            elif k == "union":
                it = b.add("union", nm[j], mod=m)
                it["repr"]["style"] = "C"
                it["fields"] = fs + [F("z", P("u8"))]
            elif k == "tagged":
                it = b.add("enum", nm[j], mod=m)
                it["repr"]["int"] = "u8"
                it["vars"] = [V("N" + nm[j])] + [V("D%s%d" % (nm[j], q), "tuple" if q else "named", [f]) for q, f in enumerate(fs)]
            else:
                b.struct(nm[j], fs + [F("z", P("u8"))], mod=m)
        c = cfg(lang=LANGS3[i % 3], style=r.choice(["both", "tag", "type"]), sort_by=r.choice(["None", "Name"]))
        for j in range(3):
            w = r.random()
            by = P(nm[j]) if r.random() < .5 and ks[j] != "opaque" else ptr(P(nm[j]), True)
            if w < .2:
                b.fn("f%d" % j, [dict(n="a", t=by)])
            elif w < .35:
                b.fn("f%d" % j, [], by)
            elif w < .5:
                b.static("s%d" % j, by)
            elif w < .6:
                c["include"].append(nm[j])
            elif w < .7:
                b.fn("f%d" % j, [dict(n="cb", t=fnty([{"n": "", "t": by}], by))])
        if r.random() < .15:
            c["exclude"].append(r.choice(nm))
        out.append((b.prog(), c))
    return out


# ---- what is taken out of a header ---------------------------------------------------------------------
def selections(tier, seed):
    ts = ["enums", "structs", "unions", "opaque", "typedefs", "constants", "globals", "functions"]
    subsets = [[t for j, t in enumerate(ts) if m >> j & 1] for m in range(1, 256)]

    def prog():
        b = B()
        prelude(b)
        u = b.add("union", "Un")
        u["repr"]["style"] = "C"
        u["fields"] = [F("x", P("Foo")), F("y", P("En"))]
        t = b.add("enum", "Tg")
        t["repr"]["int"] = "u8"
        t["vars"] = [V("Nn"), V("Dd", "tuple", [F("0", P("Un")), F("1", ptr(P("Opq"), True))])]
        b.add("const", "KC", t=P("u32"), e=num(3))
        b.add("const", "KS", t=P("Foo"), e={"k": "struct", "n": "Foo", "f": [dict(n="x", v=num(1), cfg=[])], "tuple": False})
        b.add("assoc", "AS", self="Foo", t=P("u8"), e=num(2), implcfg=False)
        b.static("GS", P("Td"))
        b.fn("use_all", [dict(n="t", t=ptr(P("Tg"), True)), dict(n="d", t=P("Td"))], ptr(P("Opq"), False))
        b.fn("other", [dict(n="e", t=P("En"))])
        return b
    out = []
    for i, s in enumerate(subsets):
        out.append((prog().prog(), cfg(lang=LANGS3[i % 3], item_types=s, include=["Td"] if i % 2 else [])))
    ns = ["Foo", "Opq", "En", "Td", "Un", "Tg", "KC", "KS", "AS", "GS", "use_all", "other"]
    ex = [[n] for n in ns] + [list(p) for p in itertools.combinations(ns, 2)]
    for i, e in enumerate(ex):
        for lang in (LANGS3 if tier != "quick" else [LANGS3[i % 3]]):
            out.append((prog().prog(), cfg(lang=lang, exclude=e, prefix="Px" if i % 4 == 0 else "", include=["Tg"] if i % 3 else [])))
    for i, n in enumerate(ns):
        for lang in LANGS3:
            b = prog()
            for it in b.items:
                if it["n"] == n:
                    it["annos"] = [b.g.anno("no-export", "bool", True)]
            out.append((b.prog(), cfg(lang=lang, include=["Tg", "Td"])))
    return out


# ---- instantiations ------------------------------------------------------------------------------------------
def instances(tier, seed):
    gp = lambda n, c=False: dict(n=n, c=c, t=P("usize") if c else UNIT, d=dict(h=False, a=UNIT))
    base = [P("u8"), P("Foo"), ptr(P("Foo"), False), ptr(P("u8"), True), ref(P("Foo"), True), arr(P("Foo"), 2), fnty([{"n": "", "t": P("Foo")}], P("u8")), P("Option", [ref(P("Foo"), False)]),
            P("Box", [P("Foo")]), ptr(ptr(P("Foo"), False), False), fnty([]), P("c_void"), P("Opq")]
    nest = base + [P("G1", [t]) for t in base] + [P("G2", [a, b]) for a in base[:5] for b in base[:5]] + [P("GN", [a, {"k": "cval", "v": "4"}]) for a in base[:4]] \
        + [ptr(P("G1", [t]), True) for t in base[:6]] + [P("GE", [t]) for t in base[:6]] + [P("GT", [t]) for t in base[:6]] + [P("GU", [t]) for t in base[:6]]
    terms = [P("G1", [t]) for t in nest] + [P("GE", [t]) for t in nest] + [P("GT", [t]) for t in nest] + [P("GU", [t]) for t in nest] + [P("GO", [t]) for t in nest] \
        + [P("G2", [a, b]) for a in thin(nest, 14, seed) for b in base]
    out = []
    for k, ch in enumerate(chunks(terms, 12)):
        b = B()
        b.struct("Foo", [F("x", P("u8"))])
        b.struct("Opq", [], style="")
        b.struct("G1", [F("a", P("T")), F("p", ptr(P("T"), False))], gen=[gp("T")])
        b.struct("G2", [F("a", P("T")), F("b", P("G1", [P("U")])), F("n", ptr(P("G2", [P("U"), P("T")]), True))], gen=[gp("T"), gp("U")])
        b.struct("GN", [F("a", {"k": "arr", "t": P("T"), "l": {"k": "cpath", "n": "N"}})], gen=[gp("T"), gp("N", True)])
        e = b.add("enum", "GE", gen=[gp("T")])
        e["repr"]["style"] = "C"
        e["vars"] = [V("Va", "tuple", [F("0", P("T"))], num(5) if k % 3 == 0 else None), V("Vb", "named", [F("x", P("T")), F("y", ptr(P("T"), True))]), V("Vc")]
        b.add("typedef", "GT", gen=[gp("T")], t=P("G1", [P("T")]))
        u = b.add("union", "GU", gen=[gp("T")])
        u["repr"]["style"] = "C"
        u["fields"] = [F("a", P("T")), F("z", P("u8"))]
        b.struct("GO", [F("a", P("T"))], style="", gen=[gp("T")])
        for i, t in enumerate(ch):
            b.fn("f%d" % i, [dict(n="v", t=t if t["n"] != "GO" else ptr(t, True))])
        for lang in (LANGS3 if tier != "quick" else [["C", "Cython", "C", "Cxx"][k % 4]]):
            out.append((b.prog(), cfg(lang=lang, style=["both", "tag", "type"][k % 3], mangle_rm_us=k % 5 == 4, prefix="Px" if k % 7 == 3 else "", mangle_rule=RULES[k % 7] if k % 6 == 5 else "None")))
    return out


FAMILIES = {"C03": [exports], "C04": [graphs, reprs], "C06": [types], "C07": [instances], "C08": [conditions], "C09": [exprs], "C10": [names], "C13": [selections], "C16": [enums], "C19": [graphs],
            "C22": [reprs]}


def check(rep, prop, tier):
    for f in FAMILIES.get(prop, []):
        cases = f(tier, rep.seed)
        rep.note("small scope %s: %d cases%s" % (f.__name__, len(cases), "" if tier != "quick" else " (large families thinned)"))
        for ch in chunks(cases, 1200):
            conform.run_cases(rep, prop, ch, tag="small scope %s " % f.__name__)
            if len(rep.violations) >= 20:
                return
