"""Rendering of abstract programs and configurations to Rust source and cbindgen.toml text.

The abstract vocabulary is the one of spec/Load.tla (programs) and of the cfg records used
throughout the specification.  Nothing here knows what cbindgen should do with them.
"""

import random

# Source forms that must not matter: with R set (program key "rv"), equivalent spellings of types, attributes,
# documentation, literals and receivers are chosen at random, and items cbindgen has no business with are mixed in.
R = None
LIFE = set()


def alt(p):
    return R is not None and R.random() < p


RUST_KW = {"as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
           "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct",
           "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract",
           "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try"}


def ident(n):
    return "r#" + n if n in RUST_KW else n


# ---------------------------------------------------------------- types
def const_arg(l, pos="len"):
    if l["k"] != "cval":
        return ("crate::" if pos == "len" and alt(.1) else "") + l["n"] + (" as usize" if pos == "len" and alt(.2) else "")
    v = l["v"]
    if l.get("r"):
        return l["r"]
    if not v.isdigit() or not alt(.4):
        return v
    n = int(v)
    f = ["0x%x" % n, "0b" + bin(n)[2:], "0o%o" % n, v + "usize", v + "_"]
    if pos == "len":
        f += [v + " as usize"] + (["b'%c' as usize" % n] if 48 <= n <= 57 else [])
    return R.choice(f)


MODS = {"Option": ["std::option", "core::option"], "NonNull": ["std::ptr", "::core::ptr"], "Box": ["std::boxed", "alloc::boxed"],
        "Cell": ["std::cell"], "UnsafeCell": ["core::cell"], "ManuallyDrop": ["std::mem"], "MaybeUninit": ["core::mem"], "Pin": ["std::pin"],
        "PhantomData": ["std::marker", "core::marker"], "PhantomPinned": ["std::marker"], "NonZero": ["core::num"], "Vec": ["std::vec"],
        "String": ["std::string"], "Rc": ["std::rc"], "Arc": ["std::sync"], "c_void": ["std::ffi", "libc", "core::ffi", "std::os::raw"]}


def path_name(n, g):
    """a spelling of the path to n; g: rendered arguments"""
    ls = []
    if n in LIFE and alt(.6):
        ls = [R.choice(["'static", "'_", "'a"])]
    if alt(.2) and n not in ("Self",):
        pre = MODS.get(n) or ((["std::os::raw", "core::ffi", "libc"] if n.startswith("c_") else None)) or \
            (["core::num"] if n.startswith("NonZero") else None) or ([] if n.islower() or len(n) == 1 else ["crate", "self", "crate::deep::er"])
        if pre:
            n = R.choice(pre) + "::" + n
    a = ls + g
    if a:
        n += ("::" if alt(.05) else "") + "<" + ", ".join(a) + ("," if alt(.1) else "") + ">"
    return n


def ty(t):
    k = t["k"]
    if k == "path":
        n = t["n"]
        return path_name(n, [const_arg(a, "arg") if a["k"] in ("cval", "cpath") else ty(a) for a in t["g"]])
    if k == "ref":
        return "&" + (R.choice(["'static ", "", "'a ", "'_ "]) if R else "'static ") + ("mut " if t["m"] else "") + ty(t["t"])
    if k == "ptr":
        return ("*mut " if t["m"] else "*const ") + ty(t["t"])
    if k == "arr":
        return "[%s; %s]" % (ty(t["t"]), const_arg(t["l"]))
    if k == "fn":
        a = [(ident(x["n"]) + ": " if x["n"] else "") + ty(x["t"]) for x in t["a"]]
        if t["v"]:
            a.append("...")
        r = "" if t["r"]["k"] == "unit" else " -> " + ty(t["r"])
        return ("for<'x> " if alt(.1) else "") + ("unsafe " if alt(.2) else "") + ("extern " if alt(.1) else "" if alt(.1) else 'extern "C" ') + "fn(%s)%s" % (", ".join(a), r)
    if k == "unit":
        return "()"
    if k == "never":
        return "!"
    if k == "bad":
        return R.choice(["(u8, u16)", "[u8]", "dyn Tr<u8>", "impl Fn(u8) -> u8", "[(); 3]", "[u8; 1 + 2]", "Arr<{ 1 + 1 }>", "(Box<u8>,)"]) if R else "(u8, u16)"
    raise ValueError(k)


# ---------------------------------------------------------------- expressions
def lit(e):
    k = e["k"]
    if k == "int":
        v = e["v"]
        if alt(.3) and not e["sfx"].startswith("f"):
            n = int(v)
            v = R.choice(["0x%x_" % n, "0x%X" % n, "0b" + bin(n)[2:], "0o%o" % n, "{:_}".format(n), "0_" + v])
            return v + (e["sfx"] if not v.endswith("_") or e["sfx"] else "")
        return v + e["sfx"]
    if k in ("raw", "chr"):
        return e["r"]
    if e.get("bits"):
        q = e["a"] if k == "field" else e
        return q["to"] + "::" + q["n"] + (".bits" if k == "field" and e["n"] == "bits" and alt(.3) else ".bits()")
    if k == "path":
        return (e["to"] + "::" if e["to"] else "") + e["n"]
    if k == "un":
        return e["op"] + "(" + lit(e["a"]) + ")"
    if k == "bin":
        if alt(.1):
            return "((" + lit(e["a"]) + ") " + e["op"] + " (" + lit(e["b"]) + "))"
        return "(" + lit(e["a"]) + " " + e["op"] + " " + lit(e["b"]) + ")"
    if k == "field":
        n = e["n"]
        return "(" + lit(e["a"]) + ")." + (n[1:] if n.startswith("_") and n[1:].isdigit() else n)
    if k == "struct":
        if e.get("tuple"):
            return e["n"] + "(" + ", ".join(lit(f["v"]) for f in e["f"]) + ")"
        return e["n"] + " { " + ", ".join("".join("#[cfg(%s)] " % cfgp(c) for c in f["cfg"]) + ident(f["n"]) + ": " + lit(f["v"]) for f in e["f"]) + " }"
    if k == "cast":
        return "((" + lit(e["a"]) + ") as " + ty(e["t"]) + ")"
    if k == "arr":
        return "[" + ", ".join(lit(a) for a in e["as"]) + "]"
    if k == "bad":
        return "some_call::<u8>(1, 2).await"
    raise ValueError(k)


# ---------------------------------------------------------------- attributes
def cfgp(c):
    k = c["k"]
    if k == "flag":
        return c["n"]
    if k == "kv":
        return '%s = "%s"' % (c["n"], c["v"])
    if k == "not":
        return "not(%s)" % cfgp(c["a"])
    return "%s(%s)" % (k, ", ".join(cfgp(a) for a in c["as"]))


def anno(a):
    if a["t"] == "bool":
        return "cbindgen:%s" % a["k"] if a["b"] and a.get("short", False) else "cbindgen:%s=%s" % (a["k"], "true" if a["b"] else "false")
    if a["t"] == "list":
        return "cbindgen:%s=[%s]" % (a["k"], ", ".join(a["l"]))
    return "cbindgen:%s=%s" % (a["k"], a["s"])


def common_attrs(x, ind, out, repr_=None):
    ds = x.get("doc", [])
    if ds and alt(.25) and "" not in (ds[0], ds[-1]) and not any('*/' in d for d in ds):
        # one attribute holding several lines: common indentation goes, a leading blank is put back
        if alt(.5) or len(ds) == 1:
            pad = ind + "  " * R.randint(0, 2)
            out.append(ind + "/**")
            out += [pad + d if d else "" for d in ds]
            out.append(ind + "*/")
        else:
            out.append(ind + '#[doc = "%s"]' % "\\n".join("  " + d.replace("\\", "\\\\").replace('"', '\\"') if d else "" for d in ds))
        ds = []
    for d in ds:
        if alt(.04):
            out.append(ind + R.choice(["#[allow(dead_code)]", "#[inline]", "#[doc(hidden)]", "#[doc(alias = \"x\")]"]))
        if alt(.2):
            out.append(ind + '#[doc = "%s"]' % ((" " if d else "") + d.replace("\\", "\\\\").replace('"', '\\"')))
        else:
            out.append(ind + ("/// " + d if d else "///"))
    for a in x.get("annos", []):
        out.append(ind + "/// " + anno(a))
    for c in x.get("cfg", []) if not x.get("implcfg") else []:
        out.append(ind + "#[cfg(%s)]" % cfgp(c))
    if x.get("must_use"):
        out.append(ind + ("#[must_use]" if not alt(.3) else '#[must_use = "why"]'))
    d = x.get("depr")
    if d and d["h"]:
        if d["s"]:
            out.append(ind + (R or random).choice(['#[deprecated(note = "%s")]', '#[deprecated = "%s"]', '#[deprecated(since = "1.2", note = "%s")]',
                                                   '#[deprecated(note = "%s", since = "3")]'] if R else ['#[deprecated(note = "%s")]']) % d["s"])
        else:
            out.append(ind + "#[deprecated]")
    elif alt(.05):
        out.append(ind + R.choice(["#[allow(dead_code)]", "#[inline]", '#[rustfmt::skip]', '#[cfg_attr(unix, allow(unused))]', "#[allow(non_snake_case, unused)]"]))
    s = x.get("skip", "") if not x.get("implskip") else ""
    if s == "ignore":
        out.append(ind + ("/// cbindgen:ignore" if not alt(.4) else R.choice(["///cbindgen:ignore", "///   cbindgen:ignore  ", '#[doc = " cbindgen:ignore"]', "/** cbindgen:ignore */"])))
    elif s == "test":
        out.append(ind + "#[test]")
    elif s == "cfgtest":
        out.append(ind + "#[cfg(test)]")
    if x.get("derive"):
        out.append(ind + "#[derive(Clone, Copy)]")
    if repr_:
        parts = []
        if repr_["style"]:
            parts.append(repr_["style"])
        if repr_["int"]:
            parts.append(repr_["int"])
        if repr_["packed"]:
            parts.append("packed")
        if repr_["align"]:
            parts.append("align(%s)" % repr_["align"])
        parts += repr_.get("more", [])
        if alt(.3) and not repr_.get("more"):
            R.shuffle(parts)
        if parts and alt(.3):
            for q in parts:
                out.append(ind + "#[repr(%s)]" % q)
        elif parts:
            out.append(ind + "#[repr(%s)]" % ", ".join(parts))


def generics(gs, name=""):
    if not gs and name not in LIFE:
        return ""
    r = ["'a" + (": 'static" if alt(.2) else "")] if name in LIFE else []
    for g in gs:
        if g["c"]:
            s = "const %s: %s" % (g["n"], ty(g["t"]))
            if g["d"]["h"]:
                s += " = " + const_arg(g["d"]["a"], "arg")
        else:
            s = g["n"] + (": Copy" if g.get("copy") else R.choice([": Copy + 'static", ": ?Sized", ": Tr<u8>"]) if alt(.2) else "")
            if g["d"]["h"]:
                s += " = " + ty(g["d"]["a"])
        r.append(s)
    return "<" + ", ".join(r) + ">"


def fields(fs, ind, out):
    for f in fs:
        common_attrs(f, ind, out)
        out.append(ind + "pub %s: %s," % (ident(f["n"]), ty(f["t"])))


def tuple_fields(fs, vis):
    r = []
    for f in fs:
        o = []
        common_attrs(f, "", o)
        r.append("\n".join(o + [vis + ty(f["t"])]) if o else vis + ty(f["t"]))
    return ", ".join(r)


LINK = {"both": '#[no_mangle]\n#[export_name = "%s"]', "no_mangle": "#[no_mangle]", "unsafe_no_mangle": "#[unsafe(no_mangle)]",
        "export_name": '#[export_name = "%s"]', "unsafe_export_name": '#[unsafe(export_name = "%s")]'}


LINKNOISE = ["#[unsafe(naked)]", '#[unsafe(link_section = ".vp")]', '#[link_section = ".vp"]', "#[inline(never)]", "#[unsafe(naked)]", "#[cfg_attr(unix, inline)]", "#[used]",
             "#[cold]", "#[unsafe(ffi_const, ffi_pure)]", "#[doc(hidden)]", "#[track_caller]"]


def link_attr(it, ind, out):
    if it["link"] in LINK:
        s = LINK[it["link"]]
        if alt(.12):
            out.append(ind + R.choice(LINKNOISE))
        out.extend(ind + (q % it["ename"] if "%s" in q else q) for q in s.split("\n"))
        if alt(.08):
            out.append(ind + R.choice(LINKNOISE))


def fn_sig(it):
    a = []
    if it["recv"]:
        own = R.choice(["Self", it["self"]]) if R else "Self"
        a.append((R or random).choice({"ref": ["&self", "&'a self", "self: &Self", "self: &" + own], "mut": ["&mut self", "self: &mut Self", "self: &'a mut " + own],
                                       "val": ["self", "mut self", "self: Self", "mut self: " + own], "box": ["self: Box<%s>" % own],
                                       "pin": ["self: Pin<&mut %s>" % own]}[it["recv"]][:None if R or it["recv"] in ("box", "pin") else 1]))
    a += [("mut " if alt(.1) and x["n"] != "_" else "") + ident(x["n"]) + ": " + ty(x["t"]) for x in it["args"]]
    if it["variadic"]:
        a.append("...")
    r = "" if it["ret"]["k"] == "unit" else " -> " + ty(it["ret"])
    return "fn %s(%s)%s" % (ident(it["n"]), ", ".join(a), r)


def item(it, ind):
    out = []
    k = it["k"]
    vis = "pub " if it["vis"] == "pub" else it["vis"] + " " if it["vis"] else ""
    if k == "struct":
        common_attrs(it, ind, out, it["repr"])
        h = ind + vis + "struct " + ident(it["n"]) + generics(it["gen"], it["n"])
        if it["tuple"]:
            out.append(h + "(" + tuple_fields(it["fields"], "pub ") + ");")
        elif not it["fields"] and it.get("unitstruct"):
            out.append(h + ";")
        else:
            out.append(h + " {")
            fields(it["fields"], ind + "    ", out)
            out.append(ind + "}")
    elif k == "union":
        common_attrs(it, ind, out, it["repr"])
        out.append(ind + vis + "union " + ident(it["n"]) + generics(it["gen"], it["n"]) + " {")
        fields(it["fields"], ind + "    ", out)
        out.append(ind + "}")
    elif k == "enum":
        common_attrs(it, ind, out, it["repr"])
        out.append(ind + vis + "enum " + ident(it["n"]) + generics(it["gen"], it["n"]) + " {")
        for v in it["vars"]:
            common_attrs(v, ind + "    ", out)
            s = ident(v["n"])
            if v["s"] == "tuple":
                s += "(" + tuple_fields(v["fields"], "") + ")"
            elif v["s"] == "named":
                o = []
                for f in v["fields"]:
                    common_attrs(f, ind + "        ", o)
                    o.append(ind + "        %s: %s," % (ident(f["n"]), ty(f["t"])))
                s += " {\n" + "\n".join(o) + "\n" + ind + "    }"
            if v["d"]["h"]:
                s += " = " + lit(v["d"]["v"])
            out.append(ind + "    " + s + ",")
        out.append(ind + "}")
    elif k == "typedef":
        common_attrs(it, ind, out)
        out.append(ind + vis + "type " + ident(it["n"]) + generics(it["gen"], it["n"]) + " = " + ty(it["t"]) + ";")
    elif k == "static":
        common_attrs(it, ind, out)
        link_attr(it, ind, out)
        out.append(ind + vis + "static " + ("mut " if it["mutb"] else "") + ident(it["n"]) + ": " + ty(it["t"]) + " = unsafe { core::mem::zeroed() };")
    elif k == "const":
        common_attrs(it, ind, out)
        out.append(ind + vis + "const " + ident(it["n"]) + ": " + ty(it["t"]) + " = " + lit(it["e"]) + ";")
    elif k == "assoc":
        for c in it["cfg"] if it.get("implcfg") else []:
            out.append(ind + "#[cfg(%s)]" % cfgp(c))
        hd = "impl " + ident(it["self"])
        if it.get("implgen"):
            hd = "impl<%s> %s<%s>" % (", ".join(("const N: usize" if q == "N" else q) for q in it["implgen"]), ident(it["self"]), ", ".join(it["implgen"]))
        elif it["self"] in LIFE and alt(.5):
            hd = "impl<'a> " + ident(it["self"]) + "<'a>"
        if it.get("implskip"):
            out.append(ind + "/// cbindgen:ignore")
        out.append(ind + hd + " {")
        common_attrs(it, ind + "    ", out)
        out.append(ind + "    " + vis + "const " + ident(it["n"]) + ": " + ty(it["t"]) + " = " + lit(it["e"]) + ";")
        out.append(ind + "}")
    elif k == "fn":
        if it["decl"]:
            if it.get("implskip"):
                out.append(ind + "/// cbindgen:ignore")
            for c in it["cfg"] if it.get("implcfg") else []:
                out.append(ind + "#[cfg(%s)]" % cfgp(c))
            out.append(ind + ("unsafe " if alt(.3) else "") + {"C": 'extern "C" {', "": "extern {", "unwind": 'extern "C-unwind" {'}.get(it["abi"], 'extern "%s" {' % it["abi"]))
            if alt(.2):
                out.append(ind + "    " + R.choice(["pub static vp_foreign: u8;", "pub type VpForeign;", "static mut vp_fm: *const u8;"]))
            common_attrs(it, ind + "    ", out)
            out.append(ind + "    " + vis + fn_sig(it) + ";")
            out.append(ind + "}")
        else:
            i2 = ind
            if it["self"]:
                for c in it["cfg"] if it.get("implcfg") else []:
                    out.append(ind + "#[cfg(%s)]" % cfgp(c))
                if it.get("implskip"):
                    out.append(ind + "/// cbindgen:ignore")
                hd = "impl " + ("Tr for " if alt(.1) else "") + ident(it["self"])
                if it.get("implgen"):
                    hd = "impl<%s> %s<%s>" % (", ".join(("const N: usize" if q == "N" else q) for q in it["implgen"]), ident(it["self"]), ", ".join(it["implgen"]))
                out.append(ind + hd + " {")
                if alt(.2):
                    out.append(ind + "    " + R.choice(["pub fn plain(&self) {}", "type X = u8;", "fn vp_helper() -> u8 { 0 }"]))
                i2 = ind + "    "
            common_attrs(it, i2, out)
            link_attr(it, i2, out)
            abi = {"C": 'extern "C" ', "unwind": 'extern "C-unwind" ', "call": 'extern "cmse-nonsecure-call" ', "": "extern ", "cmse": 'extern "cmse-nonsecure-entry" '}.get(it["abi"])
            if abi is None:
                abi = "" if it["abi"] == "rust" else 'extern "%s" ' % it["abi"]
            body = " { loop {} }"
            out.append(i2 + vis + ("unsafe " if it["variadic"] or alt(.2) else "") + abi + fn_sig(it) + body)
            if it["self"]:
                out.append(ind + "}")
    else:
        raise ValueError(k)
    return out


NOISE = ["use std::fmt;", "pub trait Tr<T> { const A: u8 = 1; fn f(); }", "macro_rules! vp_m { ($x:expr) => { $x }; }", "fn vp_private(a: u8) -> u8 { a }",
         "pub fn vp_rust_only<T: Into<u8>>(t: T) -> impl Copy { 0u8 }", "extern crate core;", "thread_local! { static VP_TLS: u8 = 0; }", "pub use self::nothing::*;",
         "impl<T> Tr<T> for u8 { fn f() {} }", "static VP_LOCAL: u8 = 3;", "const VP_PRIV: u8 = 3;", "pub(crate) const VP_CRATE: u8 = 3;", "#[test]\nfn vp_test() {}",
         "#[cfg(test)]\nmod tests { #[no_mangle] pub extern \"C\" fn vp_in_tests() {} }", "pub struct VpUnused(u8);", "#[repr(C)]\npub struct VpUnused2 { a: u8 }",
         "impl<T> dyn Tr<T> { pub const VP_D: u8 = 1; }", "#[repr(u8)] enum VpUnused3 { A }", "pub type VpUnused4 = u8;", "impl Tr<u8> for (u8, u8) { const B: u8 = 3; }"]


def program(p):
    global R, LIFE
    out = list(p.get("pre", []))
    R = random.Random("rv" + p["rv"]) if p.get("rv") else None
    LIFE = set()
    if R:
        names = sorted({i["n"] for i in p["items"] if i["k"] in ("struct", "union", "enum", "typedef")})
        LIFE = {n for n in names if R.random() < .15}
    try:
        return program_(p, out)
    finally:
        R, LIFE = None, set()


def bitflags(g, ind, out):
    d = ind + "    "
    o, c = R.choice([(" {", "}"), ("! {", "}"), ("!(", ");")]) if R else ("! {", "}")
    out.append(ind + ("bitflags::" if alt(.3) else "") + "bitflags" + (o if o[0] == "!" else "!" + o))
    if g[0]["k"] == "struct":
        st, g = g[0], g[1:]
        common_attrs(st, d, out, st["repr"])
        vis = "pub " if st["vis"] == "pub" else st["vis"] + " " if st["vis"] else ""
        out.append(d + vis + "struct " + ident(st["n"]) + ": " + g[0]["rep"] + " {")
    else:
        out.append(d + "impl " + ident(g[0]["self"]) + ": " + g[0]["rep"] + " {")
    for a in g:
        common_attrs(a, d + "    ", out)
        out.append(d + "    const " + ident(a["n"]) + " = " + lit(a["v"]) + ";")
    if alt(.15):
        out.append(d + "    const _ = !0;")
    out.append(d + "}")
    out.append(ind + c)


def program_(p, out):

    def mod(m, ind):
        subs = [i for i, x in enumerate(p["mods"], 1) if x["parent"] == m]
        last = None
        for it in p["items"]:
            if it["mod"] == m:
                if alt(.1):
                    out.append(ind + R.choice(NOISE).replace("\n", "\n" + ind))
                    last = None
                if it.get("bf"):
                    g = [i for i in p["items"] if i.get("bf") == it["bf"]]
                    if g[0] is it:
                        bitflags(g, ind, out)
                    last = None
                    continue
                ls = item(it, ind)
                # neighbours with the same extern or impl header may share one block
                head = None
                if it["k"] == "assoc" or it["k"] == "fn" and (it["decl"] or it["self"]):
                    h = next(i for i, l in enumerate(ls) if l.startswith((ind + "impl", ind + "extern", ind + "unsafe extern")))
                    head = ls[:h + 1]
                    if head == last and alt(.75):
                        out.pop()
                        ls = ls[h + 1:]
                last = head
                out.extend(ls)
        for s in subs:
            md = p["mods"][s - 1]
            common_attrs({"cfg": md["cfg"], "skip": md["skip"]}, ind, out)
            out.append(ind + "pub mod " + md["n"] + " {")
            mod(s, ind + "    ")
            out.append(ind + "}")
    mod(1, "")
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- configuration
CFG0 = dict(
    lang="C", style="both", usz=False, prefix="", rename=[], renaming_overrides=False, item_types=[], exclude=[],
    include=[], mangle_rm_us=False, mangle_rule="None", nullable_attr="", nonnull_attr="", no_return="",
    rename_fields="None", rename_variants="None", rename_variant_name_fields="SnakeCase", rename_args="None",
    prefix_with_name=False, add_sentinel=False, packed="", aligned_n="", sort_by="None", fn_sort_by="",
    const_sort_by="", defines=[], mu_fn="", mu_st="", mu_en="", dep_fn="", depn_fn="", dep_st="", depn_st="",
    dep_en="", depn_en="", dep_ev="", depn_ev="", fn_prefix="", fn_postfix="", swift="", enum_class=True,
    assoc_in_body=False, allow_static_const=True, allow_constexpr=True, rename_assoc="None", docs=True,
    doc_short=False, cpp_compat=False, ns=[], pre_body=[], body=[], extra=[])


def tq(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def tl(q):
    return "[" + ", ".join(tq(s) for s in q) + "]"


def tb(b):
    return "true" if b else "false"


def toml(c):
    """cbindgen.toml text for an abstract configuration; defaults are left out"""
    top, sec = [], {}

    def put(section, key, val):
        if section == "":
            top.append("%s = %s" % (key, val))
        else:
            sec.setdefault(section, []).append("%s = %s" % (key, val))
    put("", "language", tq({"C": "C", "Cxx": "C++", "Cython": "Cython"}[c["lang"]]))

    def s(field, section, key):
        if c[field] != CFG0[field]:
            put(section, key, tq(c[field]))

    def b(field, section, key):
        if c[field] != CFG0[field]:
            put(section, key, tb(c[field]))

    def l(field, section, key):
        if c[field]:
            put(section, key, tl(c[field]))
    s("style", "", "style")
    b("usz", "", "usize_is_size_t")
    b("cpp_compat", "", "cpp_compat")
    s("no_return", "", "no_return") if False else None
    b("docs", "", "documentation")
    if c["doc_short"]:
        put("", "documentation_length", tq("short"))
    s("sort_by", "", "sort_by")
    l("ns", "", "namespaces")
    s("prefix", "export", "prefix")
    b("renaming_overrides", "export", "renaming_overrides_prefixing")
    l("item_types", "export", "item_types")
    l("exclude", "export", "exclude")
    l("include", "export", "include")
    for r in c["rename"]:
        put("export.rename", tq(r["k"]), tq(r["v"]))
    b("mangle_rm_us", "export.mangle", "remove_underscores")
    s("mangle_rule", "export.mangle", "rename_types")
    s("nullable_attr", "ptr", "nullable_attribute")
    s("nonnull_attr", "ptr", "non_null_attribute")
    s("no_return", "fn", "no_return")
    s("rename_fields", "struct", "rename_fields")
    b("assoc_in_body", "struct", "associated_constants_in_body")
    s("rename_assoc", "struct", "rename_associated_constant")
    s("mu_st", "struct", "must_use")
    s("dep_st", "struct", "deprecated")
    if c["depn_st"]:
        put("struct", "deprecated_with_note", tq(c["depn_st"] + "({})"))
    s("rename_variants", "enum", "rename_variants")
    s("rename_variant_name_fields", "enum", "rename_variant_name_fields")
    b("prefix_with_name", "enum", "prefix_with_name")
    b("add_sentinel", "enum", "add_sentinel")
    b("enum_class", "enum", "enum_class")
    s("mu_en", "enum", "must_use")
    s("dep_en", "enum", "deprecated")
    if c["depn_en"]:
        put("enum", "deprecated_with_note", tq(c["depn_en"] + "({})"))
    s("dep_ev", "enum", "deprecated_variant")
    if c["depn_ev"]:
        put("enum", "deprecated_variant_with_note", tq(c["depn_ev"] + "({})"))
    s("rename_args", "fn", "rename_args")
    s("mu_fn", "fn", "must_use")
    s("dep_fn", "fn", "deprecated")
    if c["depn_fn"]:
        put("fn", "deprecated_with_note", tq(c["depn_fn"] + "({})"))
    s("fn_prefix", "fn", "prefix")
    s("fn_postfix", "fn", "postfix")
    s("swift", "fn", "swift_name_macro")
    s("fn_sort_by", "fn", "sort_by")
    s("const_sort_by", "const", "sort_by")
    b("allow_static_const", "const", "allow_static_const")
    b("allow_constexpr", "const", "allow_constexpr")
    s("packed", "layout", "packed")
    s("aligned_n", "layout", "aligned_n")
    for w in ("pre_body", "body"):
        for q in c[w]:
            t = ("    int %s" if c["lang"] == "Cython" else "int %s;") % q["v"]
            put("export." + w, tq(q["k"]), tq(t) if len(q["k"]) % 2 else '"""\n' + t + '\n"""')
    for d in c["defines"]:
        put("defines", tq(d["k"]), tq(d["v"]))
    for sect, key, val in c["extra"]:
        put(sect, key, val)
    out = list(top)
    for k in sec:
        out.append("[%s]" % k)
        out += sec[k]
    return "\n".join(out) + "\n"
