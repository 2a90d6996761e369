"""Seeded generation of abstract programs and configurations (inputs only; no expectations)."""
import copy
import json
import random
from rust import CFG0

PRIMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize", "bool", "f32", "f64", "char"]
CPRIMS = ["c_char", "c_schar", "c_uchar", "c_short", "c_ushort", "c_int", "c_uint", "c_long", "c_ulong", "c_longlong",
          "c_ulonglong", "c_float", "c_double", "size_t", "ssize_t", "ptrdiff_t", "uint8_t", "uint16_t", "uint32_t",
          "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uintptr_t", "intptr_t", "RawFd"]
INTREPR = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"]
NONZERO = ["NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64", "NonZeroUsize", "NonZeroI8", "NonZeroI16",
           "NonZeroI32", "NonZeroI64", "NonZeroIsize"]
TYPE_STEMS = ["Alpha", "FooBar", "HTTPServer", "B2Point", "Node", "Rect2D", "Ctx", "IOError", "my_type", "Vec3f",
              "Handle", "XMLDoc", "State", "Quux", "Zed", "A", "Mid_Name", "Opt", "Kind", "Widget"]
FN_STEMS = ["open", "close_it", "get_value", "setValue", "zoom", "abc", "Init", "b_free", "do_thing", "http_get", "m", "qsort_it"]
FIELD_STEMS = ["x", "y_pos", "count", "isReady", "HTTPCode", "next", "data2", "raw_ptr", "len", "Flag", "a1b2", "_pad"]
KW_FIELDS = ["default", "class", "int", "namespace", "signed", "register", "delete", "auto", "char_", "bool", "float"]
VAR_STEMS = ["Red", "DarkBlue", "HTTPOk", "None_", "some_thing", "A1", "Unit", "Last", "XYZ", "Value2"]
KW_VARS = ["default", "int", "delete", "new", "namespace", "auto", "NULL_", "signed"]
CONST_STEMS = ["LIMIT", "MAX_LEN", "FLAG_A", "kDefault", "PI2", "MASK", "ZERO", "SHIFT"]
RULES = ["GeckoCase", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE",
         "QUALIFIED_SCREAMING_SNAKE_CASE", "prefix:pre_"]
OPAQUE_STD = [("String", 0), ("Vec", 1), ("Rc", 1), ("Arc", 1), ("RefCell", 1), ("HashMap", 3), ("BTreeMap", 2),
              ("HashSet", 1), ("VecDeque", 1), ("LinkedList", 1), ("Result", 2)]

UNIT = {"k": "unit"}
NODEPR = {"h": False, "s": ""}


def P(n, g=()):
    return {"k": "path", "n": n, "g": list(g)}


def ptr(t, m):
    return {"k": "ptr", "m": m, "t": t}


def ref(t, m):
    return {"k": "ref", "m": m, "t": t}


def arr(t, n):
    return {"k": "arr", "t": t, "l": {"k": "cval", "v": str(n)}}


def fnty(a, r=UNIT, v=False):
    return {"k": "fn", "a": a, "r": r, "v": v}


FEATS = dict(bitflags=0, docend=True, dups=0,
    structs=3, unions=0.5, enums=1, opaques=0.5, typedefs=1, transparents=0.3, generics=0.5, cgenerics=0.2,
    fns=4, statics=1, consts=1, assocs=0.4, methods=0.3, decls=0.3,
    mods=0.0, cfg=0.0, annos=0.0, docs=0.0, depr=0.0, skip=0.0, bad=0.05, tagged=0.5, kw=0.1, missing=0.0, cprim=0.2,
    nofn=0.0, fnptr=0.2, std=0.3, dupcfg=0.0, layout=0.0, variadic=0.05, never=0.05, privates=0.1, unlinked=0.15,
    phantom=0.1, self_=0.1, ptrcycle=0.4, zst=0.05, defaults=0.15, exprdepth=2, strict=False, maxfields=4, transfer=0.0,
    mono_args=2, wild=0.05, discr=0.4, smallconst=False)


class Gen:
    def __init__(self, seed, **feats):
        self.r = random.Random(str(seed))
        self.consts = []
        self.f = dict(FEATS)
        self.f.update(feats)
        self.used = set()
        self.items = []
        self.mods = [dict(n="", cfg=[], parent=0, skip="")]
        self.types = []      # by rank: dict(n, gen=[(name,isconst)], kind, cat)
        self.fwd = []        # names usable behind pointers before definition
        self.cfgkeys = []

    # ---- helpers
    def p(self, x):
        return self.r.random() < x

    def n_of(self, x):
        """expected count x -> an integer"""
        k = int(x)
        fr = x - k
        lo = max(0, k - 1) if k else 0
        return self.r.randint(lo, k + 1) if k else (1 if self.p(fr) else 0)

    def name(self, stems, kw=None):
        for _ in range(50):
            s = self.r.choice(stems)
            if self.p(0.4):
                s += str(self.r.randint(0, 99))
            if s not in self.used:
                self.used.add(s)
                return s
        s = self.r.choice(stems) + "_%d" % len(self.used)
        self.used.add(s)
        return s

    def local(self, stems, taken, kws):
        for _ in range(50):
            s = self.r.choice(kws) if kws and self.p(self.f["kw"]) else self.r.choice(stems)
            if self.p(0.2):
                s += str(self.r.randint(0, 9))
            if s not in taken:
                taken.add(s)
                return s
        s = "f%d" % len(taken)
        taken.add(s)
        return s

    # ---- cfg predicates
    def cfgatom(self):
        keys = ["unix", "windows", 'feature = fa', 'feature = fb', 'target_os = linux', "unmapped", "debug_assertions"]
        k = self.r.choice(keys)
        if " = " in k:
            a, b = k.split(" = ")
            return {"k": "kv", "n": a, "v": b}
        return {"k": "flag", "n": k}

    def cfgp(self, d=2):
        x = self.r.random()
        if d == 0 or x < 0.5:
            return self.cfgatom()
        if x < 0.65:
            return {"k": "not", "a": self.cfgp(d - 1)}
        return {"k": self.r.choice(["any", "all"]), "as": [self.cfgp(d - 1) for _ in range(self.r.randint(1, 3))]}

    def cfgs(self, scale=1.0):
        if not self.p(self.f["cfg"] * scale):
            return []
        return [self.cfgp() for _ in range(1 if self.p(0.8) else 2)]

    def doc(self, scale=1.0):
        if not self.p(self.f["docs"] * scale):
            return []
        words = ["Frobs the widget.", "See also: other", "x < y && z", "100% \"quoted\"", "tail", "Returns nothing;", "* star", "a // b", "# heading"]
        if self.f["docend"]:
            words += ["src/*/a.rs", "*/", "/* in */ out"]
        d = [self.r.choice(words) for _ in range(self.r.randint(1, 3))]
        if len(d) == 3 and self.p(.3):
            d[1] = ""
        return d

    def depr(self):
        if not self.p(self.f["depr"]):
            return NODEPR
        return {"h": True, "s": "" if self.p(0.5) else self.r.choice(["use other", "old"])}

    def anno(self, k, t, v):
        a = {"k": k, "t": t, "s": "", "l": [], "b": False}
        a[{"bool": "b", "atom": "s", "list": "l"}[t]] = v
        return a

    def skip(self):
        return self.r.choice(["ignore", "cfgtest", "test"]) if self.p(self.f["skip"]) else ""

    def mod(self):
        return self.r.randint(1, len(self.mods))

    def base(self, k, n, **kw):
        it = dict(bf="", bfi=False, k=k, n=n, mod=self.mod(), gen=[], cfg=self.cfgs(), annos=[], doc=self.doc(), must_use=False, depr=NODEPR,
                  skip=self.skip(), repr=dict(style="", int="", packed=False, align="", bad=False), tuple=False, fields=[], vars=[],
                  t=UNIT, args=[], ret=UNIT, abi="C", link="none", ename="", vis="pub", decl=False, variadic=False,
                  mutb=False, e={"k": "bad"}, self="", recv="", implgen=[])
        it["self"] = ""
        it.update(kw)
        return it

    # ---- types
    def prim(self):
        if self.p(self.f["cprim"]):
            return P(self.r.choice(CPRIMS))
        return P(self.r.choice(PRIMS if not self.f["strict"] else [x for x in PRIMS]))

    def gargs(self, gen, d, params, byval):
        out = []
        n = len(gen)
        if not self.f["strict"] or True:
            while n > 0 and gen[n - 1]["d"]["h"] and self.p(0.5):
                n -= 1
        for g in gen[:n]:
            if g["c"]:
                ct = g["t"]["n"]
                cp = [q for q in params if q[1]]
                if cp and self.p(.5):
                    out.append(P(self.r.choice(cp)[0]))
                elif self.consts and self.p(.2) and not self.f["strict"]:
                    out.append(P(self.r.choice(self.consts)[0]))
                elif ct == "bool":
                    out.append({"k": "cval", "v": self.r.choice(["true", "false"])})
                elif ct == "char":
                    out.append(self.r.choice([{"k": "cval", "v": "97", "r": "'a'"}, {"k": "cval", "v": "10", "r": "'\\n'"}, {"k": "cval", "v": "8364", "r": "'\u20ac'"}]))
                elif ct == "u8" and self.p(.2) and not self.f["strict"]:
                    out.append({"k": "cval", "v": "65", "r": "b'A'"})
                else:
                    out.append({"k": "cval", "v": str(self.r.randint(1, 9))})
            else:
                out.append(self.garg(d, params, byval))
        return out

    def garg(self, d, params, byval):
        x = self.r.random()
        tp = [q for q in params if not q[1]]
        if tp and x < 0.5:
            return P(self.r.choice(tp)[0])
        if x < 0.75 or d <= 0:
            return self.prim()
        if x < 0.8 and not self.f["strict"]:
            l = {"k": "cpath", "n": self.r.choice(self.consts)[0]} if self.consts and self.p(.3) else {"k": "cval", "v": str(self.r.randint(1, 16))}
            return {"k": "arr", "t": self.ty(d - 1, params, byval=byval, arg=True), "l": l}
        return self.ty(d - 1, params, byval=byval, arg=True)

    def named(self, d, params, byval):
        """a path to a declared type"""
        pool = self.types if byval else self.types + self.fwd
        pool = [t for t in pool if byval is False or t["cat"] != "opaque"]
        if not pool:
            return self.prim()
        t = self.r.choice(pool)
        return P(t["n"], self.gargs(t["gen"], d, params, byval))

    def fnptr(self, d, params):
        taken = set()
        a = []
        for _ in range(self.r.randint(0, 3)):
            n = "" if self.p(0.4) else ("_" if self.p(0.2) and not self.f["strict"] else self.local(FIELD_STEMS, taken, None))
            a.append({"n": n, "t": self.ty(d - 1, params, byval=True, arg=True)})
        r = UNIT if self.p(0.4) else ({"k": "never"} if self.p(self.f["never"]) else self.ty(d - 1, params, byval=True, arg=True, ret=True))
        return fnty(a, r, self.p(self.f["variadic"]) and bool(a))

    def ty(self, d, params=(), byval=True, arg=False, ret=False):
        """arg: in argument/return position (no arrays by value)"""
        r = self.r
        x = r.random()
        tp = [q for q in params if not q[1]]
        if tp and x < 0.3:
            return P(r.choice(tp)[0])
        if d <= 0:
            return self.prim() if x < 0.7 or not self.types else self.named(0, params, byval)
        opts = [("prim", 4), ("named", 4), ("ptr", 3), ("ref", 1 if not self.f["strict"] else 1)]
        if not arg:
            opts.append(("arr", 1.5))
        opts += [("fnptr", 5 * self.f["fnptr"]), ("std", 6 * self.f["std"])]
        if self.f["missing"]:
            opts.append(("missing", 4 * self.f["missing"]))
        if self.f["bad"] and not self.f["strict"] and self.p(self.f["bad"]):
            opts.append(("bad", 2))
        k = r.choices([o[0] for o in opts], [o[1] for o in opts])[0]
        if k == "prim":
            return self.prim()
        if k == "named":
            return self.named(d, params, byval)
        if k == "ptr":
            if self.p(0.15):
                return ptr(P("c_void") if self.p(0.6) else UNIT, self.p(0.5))
            return ptr(self.ty(d - 1, params, byval=False), self.p(0.5))
        if k == "ref":
            return ref(self.ty(d - 1, params, byval=False), self.p(0.5))
        if k == "arr":
            cp = [q for q in params if q[1]]
            t = self.ty(d - 1, params, byval=byval, arg=False)
            if not cp and self.consts and self.p(0.2) and not self.f["strict"]:
                return {"k": "arr", "t": t, "l": {"k": "cpath", "n": r.choice(self.consts)[0]}}
            if cp and self.p(0.6):
                return {"k": "arr", "t": t, "l": {"k": "cpath", "n": r.choice(cp)[0]}}
            return arr(t, r.randint(1, 16))
        if k == "fnptr":
            f = self.fnptr(d, params)
            return P("Option", [f]) if self.p(0.5) else f
        if k == "missing":
            return ptr(P("Missing" + str(r.randint(0, 3))), self.p(0.5))
        if k == "bad":
            return {"k": "bad"}
        # standard wrappers
        w = r.choice(["optref", "optbox", "nonnull", "box", "cell", "manually", "nonzero", "optnonzero", "nz", "optnz",
                      "opaqueptr", "optnonnull", "pin", "ucell"])
        inner = lambda: self.ty(d - 1, params, byval=False)
        if w == "optref":
            return P("Option", [ref(inner(), self.p(0.5))])
        if w == "optbox":
            return P("Option", [P("Box", [inner()])]) if not self.f["strict"] else P("Option", [ref(inner(), True)])
        if w == "nonnull":
            return P("NonNull", [inner()])
        if w == "optnonnull":
            return P("Option", [P("NonNull", [inner()])])
        if w == "box":
            return P("Box", [inner()]) if not self.f["strict"] else P("NonNull", [inner()])
        if w in ("cell", "ucell"):
            return P({"cell": "Cell", "ucell": "UnsafeCell"}[w], [self.ty(d - 1, params, byval=byval, arg=arg)])
        if w == "manually":
            if self.f["strict"]:
                return self.prim()
            return P(r.choice(["ManuallyDrop", "MaybeUninit"]), [self.ty(d - 1, params, byval=byval, arg=arg)])
        if w == "pin":
            return P("Pin", [ref(inner(), True)]) if not self.f["strict"] else ref(inner(), True)
        if w == "nonzero":
            return P(r.choice(NONZERO))
        if w == "optnonzero":
            return P("Option", [P(r.choice(NONZERO))])
        if w == "nz":
            return P("NonZero", [P(r.choice(INTREPR))])
        if w == "optnz":
            return P("Option", [P("NonZero", [P(r.choice(INTREPR))])])
        n, k2 = r.choice(OPAQUE_STD)
        if self.f["strict"]:
            return ptr(P("c_void"), True)
        return ptr(P(n, [self.garg(d - 1, params, False) for _ in range(k2)]), self.p(0.5))

    # ---- literals
    def small(self, t):
        r = self.r
        if t in ("bool",):
            b = r.choice(["true", "false"])
            return {"k": "raw", "v": b, "r": b}
        if t in ("f32", "f64"):
            v = r.choice(["1.5", "0.25", "2.0", "1e3", "3.125"])
            return {"k": "raw", "v": v, "r": v + (t if self.p(0.2) else "")}
        if t == "char" and self.p(.4) and not self.f["smallconst"]:
            cp = r.choice([0, 1, 7, 8, 27, 31, 127, 128, 133, 159, 160, 169, 233, 255, 256, 960, 0xd7ff, 0xe000, 0x1f600, 0x10ffff])
            return {"k": "chr", "cp": cp, "r": "'\\u{%x}'" % cp}
        if t == "char" and self.p(.3):
            v = r.choice(["'\\''", "'\\n'", "'\\t'", "'\\r'", "'\\\\'"])
            return {"k": "raw", "v": v, "r": v}
        if t == "char":
            v = r.choice(["'a'", "'Z'", "'0'", "' '", "'~'"])
            return {"k": "raw", "v": v.replace(" ", ""), "r": v} if v != "' '" else {"k": "raw", "v": "'b'", "r": "'b'"}
        if t == "u8" and self.p(0.15):
            v = r.choice([("b'a'", "97"), ("b'\\n'", "10")])
            return {"k": "raw", "v": v[1], "r": v[0]}
        hi = {"u8": 200, "i8": 100}.get(t, 1000)
        v = r.choice([0, 1, 2, 3, 7, r.randint(0, hi)])
        big = False
        sfx = r.choice(["", "", "", t])
        if not self.f["smallconst"] and t == "u64" and self.p(0.15):
            v = r.choice([18446744073709551615, 9223372036854775808])
            big = True
        if not self.f["smallconst"] and t in ("u32", "u64", "i64") and self.p(0.1):
            v = r.choice([4294967295, 2147483648, 65536])
            big = False
            if t == "i64":
                sfx = "i64"
        return {"k": "int", "v": str(v), "sfx": sfx, "big": big}

    def unit_enums(self):
        return [q["item"] for q in self.types if q["cat"] == "enum" and all(v["s"] == "unit" for v in q["item"]["vars"]) and q["item"]["repr"]["style"] + q["item"]["repr"]["int"] != "" and not q["item"]["repr"]["align"] and q["item"]["vars"]]

    def expr(self, t, d, consts):
        """an integer-ish expression of primitive type t"""
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.35 or t in ("f32", "f64", "char"):
            return self.small(t)
        if self.p(.25):
            am = [c for c in self.aconsts if c[2] == t]
            if am:
                c = r.choice(am)
                als = [q["n"] for q in self.types if q["cat"] == "typedef" and not q["gen"] and q["item"]["t"]["k"] == "path" and q["item"]["t"]["n"] == c[0]]
                return {"k": "path", "to": r.choice(als) if als and self.p(.5) else c[0], "n": c[1]}
            ens = self.unit_enums()
            if ens and t not in ("bool",):
                en = r.choice(ens)
                return {"k": "cast", "t": P(t), "a": {"k": "path", "to": en["n"], "n": r.choice(en["vars"])["n"]}}
        same = [c for c in consts if c[1] == t]
        if same and x < 0.6:
            return {"k": "path", "to": "", "n": r.choice(same)[0]}
        if t == "bool":
            if self.p(.2):
                return {"k": "un", "op": "!", "a": self.expr("bool", d - 1, consts)}
            if x < 0.75:
                ops = ["&&", "||", "==", "!=", "&", "|", "^"]
                return {"k": "bin", "op": r.choice(ops), "a": self.expr("bool", d - 1, consts), "b": self.expr("bool", d - 1, consts)}
            return {"k": "bin", "op": r.choice(["<", "<=", ">", ">=", "==", "!="]), "a": self.expr("i32", d - 1, consts), "b": self.expr("i32", d - 1, consts)}
        if x < 0.68 and t in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64") and not self.f["smallconst"]:
            return {"k": "path", "to": t, "n": r.choice(["MAX", "MIN"])}
        if x < 0.75 and t.startswith("i"):
            a = self.expr(t, d - 1, consts)
            return {"k": "un", "op": "-" if not self.p(0.3) else "!", "a": a}
        if x < 0.8:
            return {"k": "cast", "t": P(t), "a": self.expr(r.choice(["u8", "i32", "u32"]), d - 1, consts)}
        op = r.choice(["+", "-", "*", "|", "&", "^", "<<", ">>", "+"] + ([] if self.f["smallconst"] else ["/", "%"]))
        a = self.expr(t, d - 1, consts)
        b = self.small("u8") if op not in ("<<", ">>") else {"k": "int", "v": str(r.randint(0, 5)), "sfx": "", "big": False}
        if op in ("/", "%"):
            b = {"k": "int", "v": str(r.randint(1, 9)), "sfx": "", "big": False}
        elif self.p(0.5) and op not in ("<<", ">>"):
            b = self.expr(t, d - 1, consts)
        return {"k": "bin", "op": op, "a": a, "b": b}

    # ---- items
    def fields(self, n, params, tup=False, self_name=None, byval=True):
        out = []
        taken = set()
        for _ in range(n):
            if self.p(self.f["phantom"]) and params:
                t = P("PhantomData", [P([q for q in params if not q[1]][0][0])]) if any(not q[1] for q in params) else UNIT
            elif self.p(self.f["zst"]):
                t = self.r.choice([UNIT, P("PhantomPinned"), P("PhantomData", [P("u8")])])
            elif self_name and self.p(self.f["self_"]):
                t = ptr(P("Self") if self.p(.6) else P(self_name, [P(q[0]) for q in params]), self.p(0.5))
            else:
                t = self.ty(2, params, byval=byval)
            annos = []
            if self.p(self.f["annos"] * 0.2) and t["k"] == "path" and t["n"] in ("u8", "u16", "u32", "i32") and not tup and not self.f["strict"]:
                annos = [self.anno("bitfield", "atom", str(self.r.randint(1, 8)))]
            out.append(dict(n=self.local(FIELD_STEMS, taken, KW_FIELDS), t=t, cfg=self.cfgs(0.5) if not tup else [], annos=annos, doc=self.doc(0.5) if not tup else []))
        return out

    def gen_params(self):
        gen = []
        if self.p(self.f["generics"]):
            for i in range(1 if self.p(0.7) else 2):
                gen.append(dict(n="TUV"[i], c=False, t=UNIT, d=dict(h=False, a=UNIT)))
        if self.p(self.f["cgenerics"]):
            gen.append(dict(n="N", c=True, t=P(self.r.choice(["usize", "u8", "i32"] + ([] if self.f["strict"] else ["bool", "char"]))), d=dict(h=False, a=UNIT)))
        if gen and self.p(self.f["defaults"]):
            g = gen[-1]
            g["d"] = dict(h=True, a={"k": "cval", "v": "3" if not g["c"] or g["t"]["n"] != "bool" else "true"} if g["c"] else self.prim())
        return gen

    def reg(self, it, cat):
        self.items.append(it)
        self.types.append(dict(n=it["n"], gen=it["gen"], cat=cat, item=it))

    def struct_annos(self, it):
        if self.p(self.f["annos"]):
            k = self.r.choice(["rename-all", "field-names", "no-export", "derive-eq", "rename-associated-constant"])
            if k == "rename-all":
                it["annos"].append(self.anno(k, "atom", self.r.choice(RULES)))
            elif k == "rename-associated-constant":
                it["annos"].append(self.anno(k, "atom", self.r.choice(RULES)))
            elif k == "field-names":
                it["annos"].append(self.anno(k, "list", ["fn_%d" % i for i in range(max(len(it["fields"]), self.r.randint(1, 4)))]))
            elif k == "no-export":
                it["annos"].append(self.anno(k, "bool", self.p(0.8)))
            else:
                it["annos"].append(self.anno(k, "bool", True))
        it["must_use"] = self.p(self.f["depr"])
        it["depr"] = self.depr()

    def struct(self, transparent=False):
        n = self.name(TYPE_STEMS)
        gen = self.gen_params()
        params = [(g["n"], g["c"]) for g in gen]
        it = self.base("struct", n, gen=gen)
        it["tuple"] = self.p(0.25) or (transparent and self.p(0.6))
        it["repr"]["style"] = "transparent" if transparent else "C"
        nf = 1 if transparent else self.r.randint(0 if not self.f["strict"] else 1, self.f["maxfields"])
        it["fields"] = self.fields(nf, params, it["tuple"], n if not transparent else None)
        if transparent:
            it["fields"] = [dict(f, cfg=[]) for f in it["fields"]]
        if not transparent and self.p(self.f["layout"]):
            if self.p(0.5):
                it["repr"]["packed"] = True
            else:
                it["repr"]["align"] = self.r.choice(["1", "2", "4", "8", "16", "64"])
        self.badrepr(it)
        self.struct_annos(it)
        self.reg(it, "struct")
        if self.f["dupcfg"] and self.p(self.f["dupcfg"]) and not gen:
            it["cfg"] = [{"k": "flag", "n": "unix"}]
            it2 = copy.deepcopy(it)
            it2["cfg"] = [{"k": "not", "a": {"k": "flag", "n": "unix"}}]
            it2["fields"] = self.fields(self.r.randint(1, 3), [], it["tuple"])
            it2["annos"] = [a for a in it2["annos"] if a["k"] != "field-names"]
            self.types.pop()
            self.items.append(it2)
            self.types.append(dict(n=it["n"], gen=[], cat="struct", item=it))

    def bitflags(self):
        """a bitflags! invocation: what it expands to, marked with bf (written as the macro by rust.py)"""
        r = self.r
        n = self.name(TYPE_STEMS)
        rep = r.choice(["u8", "u16", "u32", "u64", "i32", "usize"])
        gid = "bf%d" % len(self.items)
        it = self.base("struct", n)
        it["repr"]["style"] = r.choice(["C", "C", "C", "C", "transparent", "transparent", ""])
        trans = it["repr"]["style"] == "transparent"
        outl = self.p(.3)       # bitflags! { impl N: rep { .. } } for a struct of one's own
        it["tuple"] = outl
        it["fields"] = [dict(n="_0" if outl else "bits", t=P(rep), cfg=[], annos=[], doc=[])]
        self.struct_annos(it)
        it["annos"] = [a for a in it["annos"] if a["k"] not in ("rename-all", "field-names")]
        if not outl:
            it.update(bf=gid, skip="")
        else:
            it["bfi"] = True
        self.reg(it, "struct")
        done = []
        for i in range(r.randint(1, 4)):
            a = self.base("assoc", self.name(CONST_STEMS))
            a.update(bf=gid, self=n, mod=it["mod"], t=P(n), vis="pub", rep=rep, implcfg=False, implgen=[])
            v = {"k": "int", "v": str(1 << i), "sfx": "", "big": False}
            if self.p(.5):
                v = {"k": "bin", "op": "<<", "a": {"k": "int", "v": "1", "sfx": "", "big": False}, "b": {"k": "int", "v": str(i), "sfx": "", "big": False}}
            if done and self.p(.5) and it["repr"]["style"] and not (trans and outl):
                q = {"k": "path", "to": r.choice([n, "Self"]), "n": r.choice(done)}
                if trans:
                    q["bits"] = True
                else:
                    q = {"k": "field", "a": q, "n": "_0" if outl else "bits", "bits": True}
                v = {"k": "bin", "op": r.choice(["|", "^", "&"]), "a": q, "b": v}
            a["v"] = v
            v = {"k": "cast", "t": P(rep), "a": v}
            a["e"] = {"k": "struct", "n": n, "f": [dict(n="_0" if outl or trans else "bits", v=v, cfg=[])], "tuple": outl or trans}
            if not a["skip"] and not a["cfg"]:
                done.append(a["n"])
            self.items.append(a)

    def badrepr(self, it):
        """a repr with no C counterpart"""
        if self.p(self.f["bad"] * .4) and not self.f["strict"]:
            r = it["repr"]
            m = self.r.choice([["packed(2)"], ["align(3)"], ["u8", "u16"], ["simd"], ["packed", "align(4)"], ["align(8)", "align(4)"], ["align(0)"], ["C = 1"], ["align"]])
            if m == ["align"]:
                m = ["align(8)", "packed"]
            r.update(packed=False, align="", bad=True, more=m)

    def union(self):
        n = self.name(TYPE_STEMS)
        gen = self.gen_params()
        params = [(g["n"], g["c"]) for g in gen]
        it = self.base("union", n, gen=gen)
        it["repr"]["style"] = "C"
        it["fields"] = self.fields(self.r.randint(1, self.f["maxfields"]), params, False, n)
        if self.p(self.f["layout"]):
            if self.p(.5):
                it["repr"]["packed"] = True
            else:
                it["repr"]["align"] = self.r.choice(["4", "8"])
        self.badrepr(it)
        if self.p(self.f["annos"] * 0.1):
            it["annos"].append(self.anno("no-export", "bool", True))
        if self.p(self.f["annos"] * 0.6):
            it["annos"].append(self.anno("rename-all", "atom", self.r.choice(RULES)))
        if self.p(self.f["annos"] * 0.3):
            it["annos"].append(self.anno("field-names", "list", ["u_%d" % i for i in range(self.f["maxfields"])]))
        self.reg(it, "union")

    def opaque(self):
        n = self.name(TYPE_STEMS)
        gen = [g for g in self.gen_params() if not g["c"]]
        it = self.base("struct", n, gen=gen)
        it["fields"] = self.fields(self.r.randint(0, 2), [(g["n"], g["c"]) for g in gen])
        it["annos"] = [self.anno("no-export", "bool", True)] if self.p(self.f["annos"] * 0.2) else []
        self.reg(it, "opaque")

    def enum(self, tagged=None):
        n = self.name(TYPE_STEMS)
        tagged = self.p(self.f["tagged"]) if tagged is None else tagged
        gen = self.gen_params() if tagged else []
        params = [(g["n"], g["c"]) for g in gen]
        it = self.base("enum", n, gen=gen)
        st = self.r.choice(["C", "int", "Cint", "Cint"] + ([] if self.f["strict"] else ["", "align"] if self.p(0.2) else []))
        if st in ("C", "Cint"):
            it["repr"]["style"] = "C"
        if st in ("int", "Cint"):
            it["repr"]["int"] = self.r.choice(INTREPR)
        if st == "align":
            it["repr"].update(style="C", align="4")
        self.badrepr(it)
        taken = set()
        disc = -1
        nv = self.r.randint(1, 5)
        sizes = {"u8": 255, "i8": 127}
        for i in range(nv):
            v = dict(n=None, d=dict(h=False, v={"k": "bad"}), s="unit", fields=[], cfg=self.cfgs(0.6), annos=[], must_use=False,
                     depr=self.depr(), doc=self.doc(0.5))
            for _ in range(20):
                c = self.local(VAR_STEMS, taken, KW_VARS)
                if c not in self.used:
                    break
            else:
                c = "V%d_%d" % (len(self.used), i)
            v["n"] = c
            self.used.add(c)
            if tagged and (self.p(0.7) or (i == 0)):
                v["s"] = "tuple" if self.p(0.5) else "named"
                v["fields"] = self.fields(self.r.randint(1, 3), params, v["s"] == "tuple", it["n"])
                v["must_use"] = self.p(self.f["depr"] * 0.5)
                if self.p(self.f["annos"] * 0.5) and not (v["s"] == "tuple" and len(v["fields"]) == 1):
                    v["annos"] = [self.anno("rename-all", "atom", self.r.choice(RULES[:-2]))]
            if (not tagged or it["repr"]["int"] and self.p(.4)) and self.p(self.f["discr"]):
                disc = disc + self.r.randint(1, 20)
                e = {"k": "int", "v": str(disc), "sfx": "", "big": False}
                y = self.r.random()
                if y < 0.15:
                    e = {"k": "bin", "op": "+", "a": e, "b": {"k": "int", "v": "0", "sfx": "", "big": False}}
                elif y < 0.3 and disc > 3:
                    e = {"k": "bin", "op": "|", "a": e, "b": {"k": "int", "v": "1", "sfx": "", "big": False}}
                    disc |= 1
                elif y < 0.4 and not self.f["strict"]:
                    e = {"k": "path", "to": "Self", "n": self.r.choice(CONST_STEMS)}
                elif y < 0.45 and self.consts and not self.f["strict"]:
                    e = {"k": "path", "to": "", "n": self.r.choice(self.consts)[0]}
                v["d"] = dict(h=True, v=e)
            else:
                disc += 1
            it["vars"].append(v)
        if self.p(self.f["annos"]):
            k = self.r.choice(["rename-all", "prefix-with-name", "add-sentinel", "enum-trailing-values", "rename-variant-name-fields", "enum-class", "no-export"])
            if k in ("rename-all", "rename-variant-name-fields"):
                it["annos"].append(self.anno(k, "atom", self.r.choice(RULES)))
            elif k == "enum-trailing-values":
                it["annos"].append(self.anno(k, "list", ["Extra%d" % i for i in range(self.r.randint(1, 2))]))
            else:
                it["annos"].append(self.anno(k, "bool", self.p(0.7)))
        it["must_use"] = self.p(self.f["depr"])
        it["depr"] = self.depr()
        self.reg(it, "enum")

    def typedef(self):
        n = self.name(TYPE_STEMS)
        gen = self.gen_params() if self.p(0.5) else []
        params = [(g["n"], g["c"]) for g in gen]
        t = self.ty(2, params)
        it = self.base("typedef", n, gen=gen)
        it["t"] = t
        if self.p(self.f["transfer"]):
            k = self.r.choice(["rename-all", "no-export", "derive-eq"])
            it["annos"] = [self.anno(k, "atom", self.r.choice(RULES)) if k == "rename-all" else self.anno(k, "bool", True)]
            it["must_use"] = self.p(0.3)
        self.reg(it, "typedef")

    def fn(self, decl=False, method=False):
        n = self.name(FN_STEMS)
        it = self.base("fn", n)
        it["decl"] = decl
        if decl:
            it["abi"] = self.r.choice(["C", "C", "C", "", "unwind"])
            it["implcfg"] = self.p(0.4)
            if self.p(self.f["unlinked"] * .6):
                it["abi"] = self.r.choice(["system", "stdcall", "rust-intrinsic"])
            if it["skip"] == "ignore":
                it["implskip"] = self.p(.5)
        taken = set()
        for _ in range(self.r.randint(0, 4)):
            a = self.local(FIELD_STEMS, taken, KW_FIELDS)
            if self.p(self.f["wild"]):
                a = "_"
            it["args"].append(dict(n=a, t=self.ty(2, (), byval=True, arg=True)))
        x = self.r.random()
        if x < self.f["never"]:
            it["ret"] = {"k": "never"}
        elif x < 0.6:
            it["ret"] = self.ty(2, (), byval=True, arg=True, ret=True)
        if it["args"] and self.p(self.f["variadic"]):
            it["variadic"] = True
        if not decl:
            it["link"] = self.r.choice(["no_mangle", "no_mangle", "unsafe_no_mangle", "export_name", "unsafe_export_name"])
            if "export" in it["link"] and self.p(.15):
                it["link"] = "both"
            if "no_mangle" not in it["link"]:
                it["ename"] = self.name(["sym_a", "exported_fn", "Zsym", "abc_sym"])
            it["abi"] = self.r.choice(["C"] * 8 + ["unwind", "call", ""])
            if self.p(self.f["unlinked"]):
                if self.p(0.5):
                    it["link"] = "none"
                else:
                    it["abi"] = self.r.choice(["rust", "system", "stdcall", "", "cmse"])
            if self.p(self.f["privates"]):
                it["vis"] = self.r.choice(["", "pub(crate)"])
        if method:
            cand = [t for t in self.types if (not t["gen"] or self.p(.2)) and t["cat"] != "typedef"]
            if cand:
                t = self.r.choice(cand)
                it["implgen"] = [g["n"] for g in t["gen"]]
                if it["skip"] == "ignore":
                    it["implskip"] = self.p(.5)
                it["self"] = t["n"]
                it["recv"] = self.r.choice(["ref", "mut", "", "val" if t["cat"] != "opaque" else "ref"] + (["box", "pin"] if self.p(.3) and not self.f["strict"] else []))
                it["implcfg"] = self.p(0.4)
                if self.p(0.5):
                    it["n"] = t["n"] + "_" + n
        if self.p(self.f["annos"]):
            k = self.r.choice(["rename-all", "ptrs-as-arrays", "prefix", "postfix", "no-export"])
            if k == "rename-all":
                it["annos"].append(self.anno(k, "atom", self.r.choice(RULES)))
            elif k == "ptrs-as-arrays":
                ps = [a for a in it["args"] if a["t"]["k"] in ("ptr", "ref") and a["n"] != "_"]
                if ps:
                    it["annos"].append(self.anno(k, "list", ["[%s; %s]" % (a["n"], self.r.choice(["3", "LEN", ""])) for a in ps[:2]]))
            elif k in ("prefix", "postfix"):
                if not self.f.get("cython"):
                    it["annos"].append(self.anno(k, "atom", "VP_FN" + k.upper()))
            else:
                it["annos"].append(self.anno(k, "bool", True))
        it["must_use"] = self.p(self.f["depr"])
        it["depr"] = self.depr()
        self.items.append(it)

    def static(self):
        n = self.name(["GLOBAL", "Counter", "g_state", "TABLE"])
        it = self.base("static", n)
        it["t"] = self.ty(2, (), byval=True)
        it["mutb"] = self.p(0.5)
        it["link"] = self.r.choice(["no_mangle", "no_mangle", "unsafe_no_mangle", "export_name", "unsafe_export_name"])
        if "export" in it["link"]:
            if self.p(.15):
                it["link"] = "both"
            it["ename"] = self.name(["sym_g", "exported_g"])
        if self.p(self.f["unlinked"]):
            it["link"] = "none"
        if self.p(self.f["privates"]):
            it["vis"] = self.r.choice(["", "pub(crate)"])
        if self.p(self.f["annos"] * 0.3):
            it["annos"] = [self.anno("no-export", "bool", True)]
        self.items.append(it)

    def struct_lit(self, st, consts, d=2):
        fs = []
        for i, f in enumerate(st["fields"]):
            t = f["t"]
            if t["k"] == "path" and t["n"] in PRIMS:
                v = self.expr(t["n"], 1, consts)
            elif t["k"] == "path" and any(x["n"] == t["n"] and self.lit_ok(x["item"], d - 1) for x in self.types if x["cat"] == "struct"):
                s2 = [x for x in self.types if x["n"] == t["n"]][0]["item"]
                v = self.struct_lit(s2, consts, d - 1)
            else:
                return None
            fs.append(dict(n="_%d" % i if st["tuple"] else f["n"], v=v, cfg=[]))
        if self.p(0.3) and not st["tuple"]:
            self.r.shuffle(fs)
        return {"k": "struct", "n": st["n"], "f": fs, "tuple": st["tuple"]}

    def lit_ok(self, st, d):
        if d <= 0 or st["k"] != "struct" or st["gen"] or not st["fields"] or st["repr"]["style"] == "" or st["cfg"]:
            return False
        for f in st["fields"]:
            t = f["t"]
            if f["cfg"] or f["annos"]:
                return False
            if t["k"] != "path" or t["g"]:
                return False
            if t["n"] in PRIMS:
                continue
            s2 = [x for x in self.types if x["n"] == t["n"] and x["cat"] == "struct"]
            if not s2 or not self.lit_ok(s2[0]["item"], d - 1):
                return False
        return True

    def to_self(self, e, n):
        if isinstance(e, dict):
            if e.get("k") == "path" and e.get("to") == n:
                e["to"] = "Self"
            for v in e.values():
                self.to_self(v, n)
        elif isinstance(e, list):
            for v in e:
                self.to_self(v, n)

    def const(self, assoc=False):
        r = self.r
        t = r.choice(["u8", "i32", "u32", "u64", "i64", "bool", "f32", "char", "i32", "u16", "i8"])
        if self.f["smallconst"]:
            t = r.choice(["u8", "i32", "u32", "bool", "i32", "u16", "i16"])
        e = self.expr(t, self.f["exprdepth"], self.consts)
        ct = P(t)
        x = r.random()
        sts = [q["item"] for q in self.types if q["cat"] == "struct" and self.lit_ok(q["item"], 3)]
        ens = self.unit_enums()
        if x < 0.25 and sts:
            st = r.choice(sts)
            l = self.struct_lit(st, self.consts)
            if l:
                e, ct, t = l, P(st["n"]), None
        elif x < 0.4 and ens:
            en = r.choice(ens)
            e, ct, t = {"k": "path", "to": en["n"], "n": r.choice(en["vars"])["n"]}, P(en["n"]), None
        elif x < 0.48 and not self.f["smallconst"]:
            e, ct, t = {"k": "cast", "t": ptr(P("u8"), self.p(0.5)), "a": {"k": "int", "v": "16", "sfx": "", "big": False}}, None, None
            ct = e["t"]
        elif x < 0.53 and not self.f["strict"]:
            e, t = {"k": "bad"}, None
        elif x < 0.58 and not self.f["smallconst"] and not self.f["strict"]:
            k = r.randint(1, 3)
            y = r.random()
            ls = [self.struct_lit(r.choice(sts), self.consts) for _ in range(1)] if sts else [None]
            if y < .35 and ls[0]:
                e, ct, t = {"k": "arr", "as": ls * k}, arr(P(ls[0]["n"]), k), None
            elif y < .55:
                pt = ptr(P("u8"), self.p(.5))
                e, ct, t = {"k": "arr", "as": [{"k": "cast", "t": pt, "a": self.small("u8")} for _ in range(k)]}, arr(pt, k), None
            elif y < .7:
                e, ct, t = {"k": "arr", "as": [{"k": "arr", "as": [self.expr("u16", 1, self.consts)]} for _ in range(k)]}, arr(arr(P("u16"), 1), k), None
            else:
                e, ct, t = {"k": "arr", "as": [self.expr("u8", 1, self.consts) for _ in range(k)]}, arr(P("u8"), k), None
        n = self.name(CONST_STEMS)
        it = self.base("assoc" if assoc else "const", n)
        it["t"], it["e"] = ct, e
        if assoc:
            cand = [q for q in self.types if (not q["gen"]) or (self.p(0.2) and q["cat"] == "struct")]
            if not cand:
                return
            it["self"] = r.choice(cand)["n"]
            it["mod"] = [q["item"]["mod"] for q in cand if q["n"] == it["self"]][0]
            it["implcfg"] = self.p(0.4)
            it["implgen"] = [g["n"] for g in [q for q in cand if q["n"] == it["self"]][0]["gen"]]
            if it["skip"] == "ignore":
                it["implskip"] = self.p(.5)
            if e["k"] == "struct" and e["n"] == it["self"] and self.p(0.4):
                e["n"] = "Self"
                it["t"] = P("Self")
            if self.p(.5):
                self.to_self(e, it["self"])
        if self.p(self.f["privates"]):
            it["vis"] = self.r.choice(["", "pub(crate)", "pub(super)"])
        elif t and not it["cfg"] and not it["skip"]:
            if assoc:
                if not it["implgen"]:
                    self.aconsts.append((it["self"], n, t))
            else:
                self.consts.append((n, t))
        self.items.append(it)

    def program(self):
        f = self.f
        self.consts = []
        self.aconsts = []
        for _ in range(self.n_of(f["mods"])):
            self.mods.append(dict(n="m%d" % len(self.mods), cfg=self.cfgs(), parent=self.r.randint(1, len(self.mods)),
                                  skip=self.r.choice(["ignore", "cfgtest"]) if self.p(f["skip"]) else ""))
        kinds = []
        for k, m in (("structs", "struct"), ("unions", "union"), ("enums", "enum"), ("opaques", "opaque"), ("typedefs", "typedef"),
                     ("transparents", "transparent"), ("bitflags", "bitflags")):
            kinds += [m] * self.n_of(f[k])
        self.r.shuffle(kinds)
        nconst = self.n_of(f["consts"])
        for i, k in enumerate(kinds):
            if k == "transparent":
                self.struct(transparent=True)
            else:
                getattr(self, k)()
            if nconst and self.p(0.3):
                nconst -= 1
                self.const()
        rest = [False] * nconst + [True] * self.n_of(f["assocs"])
        self.r.shuffle(rest)
        for a in rest:
            self.const(assoc=a)
        for _ in range(self.n_of(f["statics"])):
            self.static()
        for _ in range(self.n_of(f["methods"])):
            self.fn(method=True)
        for _ in range(self.n_of(f["decls"])):
            self.fn(decl=True)
        for _ in range(self.n_of(f["fns"])):
            self.fn()
        for _ in range(self.n_of(f["dups"])):
            self.dup()
        # preorder of modules is by construction of indices (parents first); item order is free
        if self.p(0.5) and not f["strict"]:
            body = self.items
            self.r.shuffle(body)
        # what one macro invocation declares stays together, the struct before its constants
        for gid in sorted({i["bf"] for i in self.items if i["bf"]}):
            g = sorted((i for i in self.items if i.get("bf") == gid), key=lambda i: i["k"] != "struct")
            own = [k for k, i in enumerate(self.items) if i["k"] == "struct" and i["n"] == g[-1]["self"]]
            at = max([next(k for k, i in enumerate(self.items) if i.get("bf") == gid)] + own)
            tail = [i for i in self.items[at + 1:] if i.get("bf") != gid]
            head = [i for i in self.items[:at + 1] if i.get("bf") != gid]
            self.items = head + g + tail
        self.modorder()
        return dict(mods=self.mods, items=self.items, pre=[], rv="" if f["strict"] or self.p(.4) else str(self.r.random()))

    def dup(self):
        """the same name twice: behind complementary cfgs, or clashing"""
        cand = [i for i in self.items if i["k"] in ("struct", "union", "enum", "typedef", "const", "static", "fn") and not i["bf"] and not i["bfi"] and not i["gen"] and not i.get("decl") and not i.get("self") and not i.get("dup")]
        if not cand:
            return
        it = self.r.choice(cand)
        it2 = copy.deepcopy(it)
        it["dup"] = it2["dup"] = True
        c = self.cfgp(1) if self.p(.5) else {"k": "flag", "n": "unix"}
        a, b = [c], [{"k": "not", "a": c}]
        x = self.r.random()
        it["cfg"], it2["cfg"] = (a, b) if x < .6 else (a, []) if x < .75 else ([], b) if x < .9 else ([], [])
        it2["doc"] = self.doc()
        if it["k"] in ("const",) and it["e"]["k"] == "int":
            v = int(it["e"]["v"]) // 2 + 1
            it2["e"] = dict(it["e"], v=str(v), big=v >= 1 << 63)
        elif it["k"] == "static":
            it2["t"] = self.ty(1, [], byval=True)
        elif it["k"] == "fn":
            it2["ret"] = P("u32")
        if x >= .6 or self.p(.3):
            it2["mod"] = self.mod()
        self.items.insert(self.r.randint(0, len(self.items)), it2)

    def modorder(self):
        """renumber modules in preorder"""
        order = []

        def walk(m):
            order.append(m)
            for i, x in enumerate(self.mods, 1):
                if x["parent"] == m:
                    walk(i)
        walk(1)
        new = {old: i + 1 for i, old in enumerate(order)}
        self.mods = [dict(self.mods[o - 1], parent=new.get(self.mods[o - 1]["parent"], 0)) for o in order]
        for it in self.items:
            it["mod"] = new[it["mod"]]


DEFINES = [{"k": "unix", "v": "VPD_UNIX"}, {"k": "windows", "v": "VPD_WIN"}, {"k": "feature = fa", "v": "VPD_FA"},
           {"k": "feature = fb", "v": "VPD_FB"}, {"k": "target_os = linux", "v": "VPD_LINUX"}]


def config(rng, prog, lang=None, **probs):
    """a configuration; probs: probability of each knob being turned"""
    c = copy.deepcopy(CFG0)
    p = lambda k, d=0.0: rng.random() < probs.get(k, d)
    c["lang"] = lang or rng.choice(["C", "C", "Cxx", "Cython"])
    c["style"] = rng.choice(["both", "tag", "type"]) if p("style", 0.6) else "both"
    c["defines"] = [d for d in DEFINES if rng.random() < 0.85] if p("defines", 1.0) else []
    names = list(dict.fromkeys(i["n"] for i in prog["items"] if i["k"] in ("struct", "union", "enum", "typedef")))
    allnames = list(dict.fromkeys(i["n"] for i in prog["items"]))
    if p("usz"):
        c["usz"] = True
    if p("prefix"):
        c["prefix"] = rng.choice(["CB", "ns_", "P_"])
    if p("rename") and allnames:
        for n in rng.sample(allnames, min(len(allnames), rng.randint(1, 3))):
            c["rename"].append({"k": n, "v": "Re" + n})
    if p("renaming_overrides"):
        c["renaming_overrides"] = True
    if p("item_types"):
        ts = ["enums", "structs", "unions", "opaque", "typedefs", "constants", "globals", "functions"]
        c["item_types"] = rng.sample(ts, rng.randint(2, 7))
    if p("exclude") and allnames:
        c["exclude"] = rng.sample(allnames, min(len(allnames), rng.randint(1, 3)))
    if p("include", 0.3) and names:
        c["include"] = rng.sample(names, min(len(names), rng.randint(1, 3)))
    if p("mangle_rm_us"):
        c["mangle_rm_us"] = True
    if p("mangle_rule"):
        c["mangle_rule"] = rng.choice(RULES[:-2])
    if p("ptrattr"):
        c["nullable_attr"] = rng.choice(["", "VP_NULLABLE"])
        c["nonnull_attr"] = rng.choice(["", "VP_NONNULL"])
    if p("no_return"):
        c["no_return"] = "VP_NORET"
    for k in ("rename_fields", "rename_variants", "rename_args", "rename_variant_name_fields", "rename_assoc"):
        if p(k):
            c[k] = rng.choice(RULES)
    for k in ("prefix_with_name", "add_sentinel", "assoc_in_body", "doc_short"):
        if p(k):
            c[k] = True
    for k in ("enum_class", "allow_static_const", "allow_constexpr", "docs"):
        if p(k):
            c[k] = False
    if p("layout"):
        c["packed"] = "VP_PACKED"
    if p("layout"):
        c["aligned_n"] = "VP_ALIGNED"
    for k in ("sort_by", "fn_sort_by", "const_sort_by"):
        if p("sort"):
            c[k] = rng.choice(["Name", "None"])
    if p("attrs"):
        for k, v in (("mu_fn", "VP_MU_FN"), ("mu_st", "VP_MU_ST"), ("mu_en", "VP_MU_EN"), ("dep_fn", "VP_DEP_FN"), ("depn_fn", "VP_DEPN_FN"),
                     ("dep_st", "VP_DEP_ST"), ("depn_st", "VP_DEPN_ST"), ("dep_en", "VP_DEP_EN"), ("depn_en", "VP_DEPN_EN"),
                     ("dep_ev", "VP_DEP_EV"), ("depn_ev", "VP_DEPN_EV")):
            if rng.random() < 0.7:
                c[k] = v
    if p("body") and names:
        for w in ("pre_body", "body"):
            flat = [n for n in names if c["lang"] != "Cython" or not any(i["cfg"] for i in prog["items"] if i["n"] == n)]
            for n in rng.sample(flat, min(len(flat), rng.randint(0, 2))):
                c[w].append({"k": n, "v": "vp_%s_%d" % (w, len(c[w]))})
    if p("attrs") and c["lang"] != "Cython":
        c["fn_prefix"] = rng.choice(["", "VP_FNPRE"])
        c["fn_postfix"] = rng.choice(["", "VP_FNPOST"])
        c["swift"] = rng.choice(["", "VP_SWIFT"])
    bf = [i for i in prog["items"] if i["bf"]]
    if bf:
        if rng.random() < .9:
            c["extra"].append(("macro_expansion", "bitflags", "true"))
        if any('"field"' in json.dumps(i.get("e")) for i in bf):
            c["rename_fields"] = "None"
    return c


def seen(prog, c):
    """the program as the generator sees it: macros are not looked into unless asked"""
    if any(i["bf"] for i in prog["items"]) and ("macro_expansion", "bitflags", "true") not in c["extra"]:
        return dict(prog, items=[dict(i, bfi=False) for i in prog["items"] if not i["bf"]])
    return prog
