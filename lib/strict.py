"""Generation of crates that rustc accepts and whose headers have to compile: every type used by value is complete,
names stay distinct under every renaming, constants do not overflow.  Inputs only, no expectations."""
import random

import gen
from gen import P, UNIT, arr, fnty, ptr, ref

PRIMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize", "bool", "f32", "f64", "char"]
CPRIMS = ["c_char", "c_schar", "c_uchar", "c_short", "c_ushort", "c_int", "c_uint", "c_long", "c_ulong", "c_longlong", "c_ulonglong", "c_float", "c_double"]
PRE = ["use core::ffi::*;", "use core::ptr::NonNull;", "use core::num::*;", "use core::cell::*;", "use core::mem::*;", "use core::marker::PhantomData;"]
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63}


def lit_int(v, sfx=""):
    return {"k": "int", "v": str(v), "sfx": sfx, "big": False}


def mentions(x):
    """every path name in an item or type"""
    if isinstance(x, list):
        return set().union(*[mentions(y) for y in x]) if x else set()
    if isinstance(x, dict):
        s = {x["n"]} if x.get("k") == "path" and "g" in x else {x["to"]} if x.get("k") == "path" and x.get("to") else set()
        return s.union(*[mentions(v) for v in x.values()])
    return set()


def typed(e):
    """whether an expression names an enumerator or associated constant"""
    return any(n not in BITS for n in mentions({"e": e}) if n)


class Strict(gen.Gen):
    def __init__(self, seed, lang, style, **feats):
        f = dict(structs=3, unions=.8, enums=2, typedefs=1, transparents=.6, opaques=.7, generics=.35, consts=1.5, assocs=.7, statics=1, fns=3, methods=.5,
                 decls=.3, layout=.3, tagged=.5, fnptr=.25, kw=.1, mods=.5, docs=.15)
        f.update(feats)
        super().__init__(seed, **f)
        self.f["cfg"] = 0
        self.lang, self.style = lang, style
        self.ctr = 0
        self.consts = []
        self.aconsts = []   # (type, name, primitive type, value)
        self.own, self.bann = "", set()
        self.ban = set() # types that reach the struct being made (no cycles through values)
        self.pend = []   # structs that will be defined later, usable behind pointers

    def uniq(self, stems):
        self.ctr += 1
        return self.r.choice(stems) + "x%d" % self.ctr

    def base(self, k, n, **kw):
        it = super().base(k, n, **kw)
        it["skip"] = ""
        return it

    # ---- types.  want: dict(copy, noalign, params)
    def prim_(self):
        return P(self.r.choice(CPRIMS if self.p(.25) else PRIMS))

    def garg_(self, params, copy):
        x = self.r.random()
        tp = [q for q in params if not q[1]]
        if tp and x < .5:
            return P(self.r.choice(tp)[0])
        if x < .75:
            return self.prim_()
        return self.ptr_(1, params) if x < .9 else self.named_(params, True, copy=copy, nogen=True)

    def args_(self, t, params, copy):
        if t["item"]["repr"]["packed"]:
            return [{"k": "cval", "v": str(self.r.randint(1, 6))} if g["c"] else self.prim_() if self.p(.7) else self.ptr_(1, []) for g in t["gen"]]
        return [{"k": "cval", "v": str(self.r.randint(1, 6))} if g["c"] else self.garg_(params, copy) for g in t["gen"]]

    def named_(self, params, byval, copy=True, noalign=False, noarr=False, nogen=False):
        c = [t for t in self.types if t["n"] not in self.ban and (not byval or t["cat"] != "opaque") and (t["copy"] or not copy) and not (noalign and t["aligned"])
             and not (noarr and t["arr"]) and not (nogen and t["gen"])]
        if not c:
            return self.prim_()
        t = self.r.choice(c)
        return P(t["n"], self.args_(t, params, copy))

    def ptr_(self, d, params):
        x = self.r.random()
        m = self.p(.5)
        if x < .1:
            return ptr(P("c_void"), m)
        if x < .25:
            return ptr(self.ptr_(d - 1, params), m) if d > 0 else ptr(self.prim_(), m)
        if x < .4 and self.pend and self.style != "type":
            return ptr(P(self.r.choice(self.pend)), m)
        if x < .8:
            return ptr(self.named_(params, False, copy=False), m)
        if x < .88 and d > 0:
            return ptr(arr(self.ty_(0, params), self.r.randint(1, 5)), m)
        return ptr(self.prim_(), m)

    def fn_(self, d, params):
        a = [{"n": "" if self.p(.4) else "p%d" % i, "t": self.ty_(d - 1, params, arg=True)} for i in range(self.r.randint(0, 3))]
        return fnty(a, UNIT if self.p(.4) else self.ty_(d - 1, params, arg=True))

    def ty_(self, d, params=(), copy=True, noalign=False, arg=False, cell=False):
        r = self.r
        tp = [q for q in params if not q[1]]
        if tp and self.p(.3):
            return P(r.choice(tp)[0])
        k = r.choices(["prim", "named", "ptr", "arr", "fn", "std"], [4, 4, 2.5, 0 if arg else 1.5, 5 * self.f["fnptr"], 1.5])[0] if d > 0 else r.choice(["prim", "prim", "named"])
        if k == "prim":
            return self.prim_()
        if k == "named":
            return self.named_(params, True, copy=copy, noalign=noalign, noarr=arg)
        if k == "ptr":
            return self.ptr_(d - 1, params)
        if k == "arr":
            t = self.ty_(d - 1, params, copy, noalign)
            cp = [q for q in params if q[1]]
            if cp and self.p(.7):
                return {"k": "arr", "t": t, "l": {"k": "cpath", "n": r.choice(cp)[0]}}
            return arr(t, r.randint(1, 7))
        if k == "fn":
            f = self.fn_(d, params)
            return P("Option", [f]) if self.p(.6) else f
        w = r.choice(["nonnull", "optnonnull", "nz", "optnz", "nzg", "optnzg", "optref", "ref"] + (["cell", "ucell"] if not copy else [])
                     + (["mu", "md"] if self.lang != "Cxx" else []))
        inner = lambda: self.named_(params, False, copy=False) if self.p(.6) else self.prim_()
        if w == "nonnull":
            return P("NonNull", [inner()])
        if w == "optnonnull":
            return P("Option", [P("NonNull", [inner()])])
        if w == "nz":
            return P(r.choice(gen.NONZERO))
        if w == "optnz":
            return P("Option", [P(r.choice(gen.NONZERO))])
        if w == "nzg":
            return P("NonZero", [P(r.choice(gen.INTREPR))])
        if w == "optnzg":
            return P("Option", [P("NonZero", [P(r.choice(gen.INTREPR))])])
        if w in ("optref", "ref"):
            if params:
                return ptr(inner(), False)
            t = ref(inner(), False)
            return P("Option", [t]) if w == "optref" else t
        if w in ("cell", "ucell"):
            return P("Cell" if w == "cell" else "UnsafeCell", [self.prim_() if noalign or arg else self.ty_(d - 1, params, copy, noalign, arg)])
        return P("MaybeUninit" if w == "mu" else "ManuallyDrop", [self.ty_(d - 1, params, True, noalign, arg)])

    def mkfields(self, n, params, tup, copy, noalign, **kw):
        taken = set()
        out = []
        for i in range(n):
            nm = str(i) if tup else self.local(gen.FIELD_STEMS[:10], taken, gen.KW_FIELDS)
            if not tup:
                nm += "_%d" % i
            out.append(dict(n=nm, t=self.ty_(2, params, copy, noalign, **kw), cfg=[], annos=[], doc=self.doc(.5)))
        return out

    def used_params(self, gens, fields):
        def has(t, n):
            if t["k"] == "path":
                return t["n"] == n or any(has(a, n) for a in t["g"])
            if t["k"] in ("ptr", "ref"):
                return has(t["t"], n)
            if t["k"] == "arr":
                return has(t["t"], n) or t["l"].get("n") == n
            if t["k"] == "fn":
                return has(t["r"], n) or any(has(a["t"], n) for a in t["a"])
            return t.get("k") == "cpath" and t.get("n") == n
        return [g for g in gens if any(has(f["t"], g["n"]) for f in fields)]

    def gparams(self):
        if not self.p(self.f["generics"]):
            return []
        out = []
        for i in range(self.r.randint(1, 2)):
            c = self.p(.3)
            out.append(dict(n="TUN"[i] if not c else "NM"[i], c=c, t=P("usize") if c else UNIT, d={"h": False, "a": UNIT}, copy=not c))
        return out

    def reaching(self, n):
        m = {t["n"]: mentions(t["item"]) for t in self.types}
        for i in self.items:
            if i["k"] == "assoc":
                m[i["self"]] = m[i["self"]] | mentions(i["t"]) | mentions(i["e"])
        r = {n}
        while True:
            q = {k for k in m if m[k] & r} - r
            if not q:
                return r - {n}
            r |= q

    def add(self, it, cat, copy=True, aligned=False, isarr=False):
        self.items.append(it)
        self.types.append(dict(n=it["n"], gen=it["gen"], cat=cat, copy=copy, aligned=aligned, arr=isarr, item=it))
        if it["n"] in self.pend:
            self.pend.remove(it["n"])

    def any_aligned(self, fs):
        """whether some field may contain an over-aligned type by value"""
        al = {t["n"] for t in self.types if t["aligned"]}

        def has(t):
            if t["k"] == "path":
                return t["n"] in al or (t["n"] not in ("NonNull",) and any(has(a) for a in t["g"] if a["k"] not in ("cval", "cpath")))
            return has(t["t"]) if t["k"] == "arr" else False
        return any(has(f["t"]) for f in fs)

    def struct_(self, n=None):
        n = n or self.uniq(gen.TYPE_STEMS)
        gens = self.gparams()
        params = [(g["n"], g["c"]) for g in gens]
        it = self.base("struct", n)
        it["repr"]["style"] = "C"
        packed = self.p(self.f["layout"] * .5)
        it["tuple"] = self.p(.25)
        copy = self.p(.8)
        fs = self.mkfields(self.r.randint(1, self.f["maxfields"]), params, it["tuple"], copy, packed)
        if self.lang != "Cxx" and self.style != "type":
            for t in self.types:
                if t["n"] in self.ban and not t["gen"] and self.p(.3) and t["item"]["repr"]["style"] == "C" and t["item"]["k"] in ("struct", "union") and n in mentions(t["item"]) \
                        and not (mentions(t["item"]) & self.ban):
                    fs[-1]["t"] = ptr(P(t["n"]), self.p(.5))
        if self.style != "type" and not gens and self.p(.2):
            fs[0]["t"] = ptr(P(n), self.p(.5))
        gens = self.used_params(gens, fs)
        it.update(gen=gens, fields=fs)
        self.selfref_(it, fs, it["tuple"])
        al = self.any_aligned(fs)
        if packed and not al:
            it["repr"]["packed"] = True
        elif self.p(self.f["layout"] * .5):
            it["repr"]["align"] = self.r.choice(["1", "2", "4", "8", "16", "64"])
            al = True
        it["derive"] = copy
        self.add(it, "struct", copy, al or bool(it["repr"]["align"]))

    def selfref_(self, it, fs, tup):
        """one more field that points to the item itself, named or as Self"""
        if self.style == "type" or not self.p(.2):
            return
        t = P("Self") if self.p(.6) else P(it["n"], [P(g["n"]) for g in it["gen"]])
        y = self.r.random()
        t = ptr(t, self.p(.5)) if y < .6 else P("Option", [P("NonNull", [t])]) if y < .8 else arr(ptr(t, self.p(.5)), 2)
        i = len(fs)
        fs.append(dict(n=str(i) if tup else "link_%d" % i, t=t, cfg=[], annos=[], doc=[]))

    def transparent_(self):
        n = self.uniq(gen.TYPE_STEMS)
        it = self.base("struct", n)
        it["repr"]["style"] = "transparent"
        it["tuple"] = self.p(.5)
        it["fields"] = self.mkfields(1, (), it["tuple"], True, False)
        if self.p(.3):
            it["fields"].append(dict(n="1" if it["tuple"] else "ph", t=P("PhantomData", [self.prim_()]), cfg=[], annos=[], doc=[]))
        it["derive"] = True
        self.add(it, "struct", True, self.any_aligned(it["fields"]), self.is_arr(it["fields"][0]["t"]))

    def is_arr(self, t):
        while t["k"] == "path" and t["n"] in ("Cell", "UnsafeCell", "MaybeUninit", "ManuallyDrop"):
            t = t["g"][0]
        return t["k"] == "arr" or (t["k"] == "path" and any(x["n"] == t["n"] and x["arr"] for x in self.types))

    def union_(self):
        n = self.uniq(gen.TYPE_STEMS)
        gens = self.gparams()
        it = self.base("union", n)
        it["repr"]["style"] = "C"
        packed = self.p(self.f["layout"] * .4)
        fs = self.mkfields(self.r.randint(1, 4), [(g["n"], g["c"]) for g in gens], False, True, packed)
        it.update(gen=self.used_params(gens, fs), fields=fs)
        self.selfref_(it, fs, False)
        if packed and not self.any_aligned(fs):
            it["repr"]["packed"] = True
        elif self.p(self.f["layout"] * .4):
            it["repr"]["align"] = self.r.choice(["4", "16"])
        it["derive"] = True
        self.add(it, "union", True, bool(it["repr"]["align"]) or self.any_aligned(fs))

    def opaque_(self):
        n = self.uniq(gen.TYPE_STEMS)
        it = self.base("struct", n)
        it["fields"] = [dict(n="a", t=P("u8"), cfg=[], annos=[], doc=[])]
        it["unsized"] = True
        self.add(it, "opaque", False)

    def enum_(self):
        n = self.uniq(gen.TYPE_STEMS)
        tagged = self.p(self.f["tagged"])
        gens = self.gparams() if tagged else []
        params = [(g["n"], g["c"]) for g in gens]
        it = self.base("enum", n)
        st = self.r.choice(["C", "int", "int", "Cint"] if tagged else ["C", "int"])   # rustc rejects both on a fieldless enum
        if st != "int":
            it["repr"]["style"] = "C"
        if st != "C":
            it["repr"]["int"] = self.r.choice(gen.INTREPR)
        disc = -1
        allf = []
        for i in range(self.r.randint(1, 5)):
            v = dict(n=self.uniq(gen.VAR_STEMS[:8]) if not self.p(self.f["kw"]) else self.uniq(["default", "int", "class"]), d=dict(h=False, v={"k": "bad"}), s="unit", fields=[], cfg=[],
                     annos=[], must_use=False, depr=gen.NODEPR, doc=self.doc(.5))
            if tagged and (self.p(.7) or i == 0):
                v["s"] = "tuple" if self.p(.5) else "named"
                v["fields"] = self.mkfields(self.r.randint(1, 3), params, v["s"] == "tuple", True, False)
                allf += v["fields"]
            if not tagged and self.p(self.f["discr"]):
                disc += self.r.randint(1, 15)
                e = lit_int(disc)
                y = self.r.random()
                if y < .15:
                    e = {"k": "bin", "op": "+", "a": lit_int(disc - disc // 2), "b": lit_int(disc // 2)}
                elif y < .3:
                    e = {"k": "bin", "op": "|", "a": lit_int(disc & 0x55), "b": lit_int(disc & ~0x55)}
                elif y < .4 and disc > 0:
                    e = {"k": "bin", "op": "-", "a": lit_int(disc + 3), "b": lit_int(3)}
                v["d"] = dict(h=True, v=e)
            elif not tagged:
                disc += 1
            it["vars"].append(v)
        it["gen"] = self.used_params(gens, allf)
        for v in it["vars"]:
            if v["s"] != "unit":
                self.selfref_(it, v["fields"], v["s"] == "tuple")
        it["derive"] = True
        self.add(it, "enum", True, self.any_aligned(allf))

    def typedef_(self):
        n = self.uniq(gen.TYPE_STEMS)
        gens = self.gparams()
        f = self.mkfields(1, [(g["n"], g["c"]) for g in gens], True, False, False)
        t = f[0]["t"]
        it = self.base("typedef", n, gen=self.used_params(gens, f))
        it["t"] = t
        self.add(it, "typedef", self.copy_ty(t), self.any_aligned(f), self.is_arr(t))

    def copy_ty(self, t):
        if t["k"] == "path":
            if t["n"] in ("Cell", "UnsafeCell"):
                return False
            if t["n"] == "NonNull":
                return True
            x = [q for q in self.types if q["n"] == t["n"]]
            return (not x or x[0]["copy"]) and all(self.copy_ty(a) for a in t["g"] if a["k"] not in ("cval", "cpath"))
        return self.copy_ty(t["t"]) if t["k"] == "arr" else True

    # ---- constants: (expression, value); values stay within the type and within 31 bits
    def expr_(self, t, d):
        r = self.r
        lim = min(BITS[t], 30)
        if d == 0 or self.p(.3):
            cs = [c for c in self.consts if c[1] == t and c[2] >= 0]
            if cs and self.p(.4):
                c = r.choice(cs)
                return {"k": "path", "to": "", "n": c[0]}, c[2]
            am = [c for c in self.aconsts if c[2] == t and c[3] < 2 ** lim and (c[0] == self.own or c[0] not in self.bann)]
            if am and self.p(.4):
                c = r.choice(am)
                return {"k": "path", "to": "Self" if c[0] == self.own and self.p(.5) else c[0], "n": c[1]}, c[3]
            v = r.choice([0, 1, 2, 5, r.randint(0, 2 ** lim - 1), r.randint(0, 120)])
            sfx = t if self.p(.3) else ""
            if sfx in ("usize", "isize", "u8", "i8", "i16", "u16", "i32", "u32", "i64", "u64"):
                return lit_int(v, sfx), v
            return lit_int(v), v
        for _ in range(8):
            op = r.choice(["+", "-", "*", "|", "&", "^", "<<", ">>"])
            a, x = self.expr_(t, d - 1)
            if op in ("<<", ">>"):
                y = r.randint(0, 6)
                b = lit_int(y)
            else:
                b, y = self.expr_(t, d - 1)
            v = {"+": x + y, "-": x - y, "*": x * y, "|": x | y, "&": x & y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op]
            if 0 <= v < 2 ** lim:
                return {"k": "bin", "op": op, "a": a, "b": b}, v
        return lit_int(3), 3

    def bool_(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .25:
            return self.scalar_("bool")
        if x < .5:
            return {"k": "un", "op": "!", "a": self.bool_(d - 1)}
        if x < .75:
            return {"k": "bin", "op": r.choice(["&&", "||", "&", "|", "^"]), "a": self.bool_(d - 1), "b": self.bool_(d - 1)}
        if x < .85:
            return {"k": "bin", "op": r.choice(["==", "!="]), "a": self.scalar_("bool"), "b": self.scalar_("bool")}
        return {"k": "bin", "op": r.choice(["==", "!=", "<", "<=", ">", ">="]), "a": self.expr_("i32", 1)[0], "b": self.expr_("i32", 1)[0]}

    def scalar_(self, t):
        """expression and value of a primitive type"""
        if t == "bool":
            b = self.p(.5)
            return {"k": "raw", "v": "true" if b else "false", "r": "true" if b else "false", "num": 1 if b else 0}
        if t in ("f32", "f64"):
            v = self.r.choice(["1.5", "0.25", "2.0", "3.125"])
            return {"k": "raw", "v": v, "r": v, "flt": {"1.5": 48, "0.25": 8, "2.0": 64, "3.125": 100}[v]}
        if t == "char" and self.p(.5):
            cp = self.r.choice([0, 7, 27, 127, 128, 133, 159, 160, 233, 255, 960, 0xd7ff, 0xe000, 0x1f600, 0x10ffff])
            return {"k": "chr", "cp": cp, "r": "'\\u{%x}'" % cp}
        if t == "char":
            v = self.r.choice("aZ09~")
            return {"k": "raw", "v": "U'%s'" % v, "r": "'%s'" % v, "num": ord(v)}
        e, v = self.expr_(t, self.f["exprdepth"])
        if t[0] == "i" and self.p(.3) and e["k"] != "path" and v > 0:
            return {"k": "un", "op": "-", "a": e}
        return e

    def lit_struct(self, it):
        fs = []
        for i, f in enumerate(it["fields"]):
            t = f["t"]
            if t["k"] == "path" and not t["g"] and t["n"] in PRIMS:
                v = self.scalar_(t["n"])
            elif t["k"] == "path" and not t["g"]:
                s = [x["item"] for x in self.types if x["n"] == t["n"] and x["cat"] == "struct"]
                v = self.lit_struct(s[0]) if s and s[0]["k"] == "struct" and s[0]["repr"]["style"] == "C" and not s[0]["gen"] else None
            else:
                v = None
            if v is None:
                return None
            fs.append(dict(n="_%d" % i if it["tuple"] else f["n"], v=v, cfg=[]))
        if not it["tuple"] and self.p(.4):
            self.r.shuffle(fs)
        return {"k": "struct", "n": it["n"], "f": fs, "tuple": it["tuple"]}

    def simple_struct(self):
        """a struct that constants can be made of"""
        n = self.uniq(gen.TYPE_STEMS)
        it = self.base("struct", n)
        it["repr"]["style"] = "C"
        it["tuple"] = self.p(.3)
        taken = set()
        prev = [x["item"]["n"] for x in self.types if x.get("simple")]
        for i in range(self.r.randint(1, 4)):
            t = P(self.r.choice(prev)) if prev and self.p(.25) else P(self.r.choice(PRIMS))
            it["fields"].append(dict(n=str(i) if it["tuple"] else self.local(gen.FIELD_STEMS[:10], taken, gen.KW_FIELDS) + "_%d" % i, t=t, cfg=[], annos=[], doc=[]))
        it["derive"] = True
        self.add(it, "struct")
        self.types[-1]["simple"] = True

    def const_(self, assoc=False):
        r = self.r
        self.own, self.bann = "", set()
        if assoc:
            c = [q for q in self.types if not q["gen"] and q["cat"] in ("struct", "enum", "union") and q["item"]["repr"]["style"] != ""]
            if not c:
                return
            q = r.choice(c)
            self.own, self.bann = q["n"], self.reaching(q["n"])
        x = r.random()
        sts = [q["item"] for q in self.types if q.get("simple")]
        ens = [q["item"] for q in self.types if q["cat"] == "enum" and all(v["s"] == "unit" for v in q["item"]["vars"])]
        val = None
        if x < .3 and sts:
            st = r.choice(sts)
            e, ct = self.lit_struct(st), P(st["n"])
        elif x < .4 and ens:
            en = r.choice(ens)
            e, ct = {"k": "path", "to": en["n"], "n": r.choice(en["vars"])["n"]}, P(en["n"])
        elif x < .47:
            t = r.choice(["u8", "i8", "u16", "i16", "i32", "u32"])
            e, ct = {"k": "path", "to": t, "n": r.choice(["MAX", "MIN"])}, P(t)
        elif x < .53:
            a, v = self.expr_("u16", 1)
            if ens and self.p(.5):
                en = r.choice(ens)
                a = {"k": "path", "to": en["n"], "n": r.choice(en["vars"])["n"]}
            e, ct = {"k": "cast", "t": P("u8"), "a": a}, P("u8")
        else:
            t = r.choice(["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize", "bool", "f32", "f64", "char"])
            if t in BITS:
                e, val = self.expr_(t, self.f["exprdepth"])
                if t[0] == "i" and val > 0 and self.p(.25) and e["k"] != "path":
                    e, val = {"k": "un", "op": "-", "a": e}, None
                    for _ in range(r.choice([0, 0, 1, 2])):
                        e = {"k": "un", "op": "-", "a": e}
            elif t == "bool":
                e = self.bool_(2)
            else:
                e = self.scalar_(t)
            ct = P(t)
        n = self.uniq(gen.CONST_STEMS)
        it = self.base("assoc" if assoc else "const", n)
        it["t"], it["e"] = ct, e
        if assoc:
            if ct["n"] != q["n"] and ct["n"] in self.reaching(q["n"]):
                return
            it["self"], it["mod"] = q["n"], q["item"]["mod"]
            if e["k"] == "struct" and e["n"] == it["self"] and self.p(.5):
                e["n"] = "Self"
                it["t"] = P("Self")
            if val is not None and val >= 0 and (q["cat"] == "struct" or not typed(e)):
                self.aconsts.append((q["n"], n, ct["n"], val))
        elif val is not None and val >= 0 and not typed(e):
            self.consts.append((n, ct["n"], val))
        self.items.append(it)

    def fn_item(self, decl=False, method=False):
        n = self.uniq(gen.FN_STEMS)
        it = self.base("fn", n)
        it["decl"] = decl
        for i in range(self.r.randint(0, 4)):
            a = self.r.choice(gen.FIELD_STEMS[:10]) if not self.p(self.f["kw"]) else self.r.choice(gen.KW_FIELDS)
            it["args"].append(dict(n=a + "_%d" % i, t=self.ty_(2, (), False, False, arg=True)))
        if self.p(.6):
            it["ret"] = self.ty_(2, (), False, False, arg=True)
        if it["args"] and self.p(.05):
            it["variadic"] = True
        if not decl:
            it["link"] = self.r.choice(["no_mangle", "unsafe_no_mangle", "export_name"])
            if it["link"] == "export_name":
                it["ename"] = self.uniq(["sym_a", "exported_fn"])
        if method:
            c = [t for t in self.types if not t["gen"] and t["cat"] in ("struct", "enum", "union", "opaque") and not t["arr"]]
            if c:
                t = self.r.choice(c)
                it["self"] = t["n"]
                it["recv"] = self.r.choice(["ref", "mut", "", "val" if t["cat"] != "opaque" else "ref"])
                it["mod"] = t["item"]["mod"]
        self.items.append(it)

    def static_item(self):
        it = self.base("static", self.uniq(["GLOBAL", "Counter", "g_state"]))
        it["t"] = self.ty_(2, (), True, False)
        it["mutb"] = self.p(.5)
        it["link"] = "no_mangle"
        self.items.append(it)

    def program(self):
        f = self.f
        for _ in range(self.n_of(f["mods"])):
            self.mods.append(dict(n="m%d" % len(self.mods), cfg=[], parent=self.r.randint(1, len(self.mods)), skip=""))
        kinds = []
        for k, m in (("structs", "struct_"), ("unions", "union_"), ("enums", "enum_"), ("opaques", "opaque_"), ("typedefs", "typedef_"), ("transparents", "transparent_"),
                     ("simple", "simple_struct")):
            kinds += [m] * self.n_of(f.get(k, 1))
        self.r.shuffle(kinds)
        names = {}
        for i, k in enumerate(kinds):
            if k == "struct_" and self.p(.4):
                names[i] = self.uniq(gen.TYPE_STEMS)
                self.pend.append(names[i])
        for i, k in enumerate(kinds):
            if i in names:
                g, self.f["generics"] = self.f["generics"], 0
                self.ban = self.reaching(names[i])
                self.struct_(names[i])
                self.ban = set()
                self.f["generics"] = g
            else:
                getattr(self, k)()
            if self.p(.3):
                self.const_()
        for _ in range(self.n_of(f["consts"])):
            self.const_()
        for _ in range(self.n_of(f["assocs"])):
            self.const_(True)
        for _ in range(self.n_of(f["statics"])):
            self.static_item()
        for _ in range(self.n_of(f["methods"])):
            self.fn_item(method=True)
        for _ in range(self.n_of(f["decls"])):
            self.fn_item(decl=True)
        for _ in range(self.n_of(f["fns"])):
            self.fn_item()
        self.modorder()
        # each module needs the imports and its siblings' items in scope
        return dict(mods=self.mods, items=self.items, pre=list(PRE))


def case(seed, lang, feats, probs):
    rng = random.Random("strictcfg/" + str(seed))
    style = rng.choice(["both", "tag", "type"]) if rng.random() < .6 else "both"
    p = Strict("strict/" + str(seed), lang, style, **feats).program()
    c = gen.config(rng, p, lang, **dict(probs, defines=0, include=0, style=0))
    c["style"] = style if lang != "Cxx" or True else "both"
    if any(i["k"] == "enum" and any(v["s"] != "unit" for v in i["vars"]) for i in p["items"]) and lang == "Cxx":
        c["enum_class"] = True   # unscoped enumerators of a tag share the scope of the union's members
    if c["add_sentinel"] and not c["prefix_with_name"] and (lang != "Cxx" or not c["enum_class"]):
        c["add_sentinel"] = False
    if lang == "Cxx":
        refs = any("'k': 'path', 'to': ''" in repr(i["e"]) for i in p["items"] if i["k"] in ("const", "assoc"))
        if refs:
            c["sort_by"] = "None"   # constants that mention others stay in source order
            c["const_sort_by"] = "None" if c["const_sort_by"] else ""
            for i in p["items"]:
                if i["k"] == "const":
                    i["mod"] = 1
    # everything is a root
    c["include"] = [i["n"] for i in p["items"] if i["k"] in ("struct", "union", "enum", "typedef") and (rng.random() < .7)]
    c["packed"], c["aligned_n"] = "VP_PACKED", "VP_ALIGNED"
    c["cpp_compat"] = lang == "C" and rng.random() < .35
    return p, c
