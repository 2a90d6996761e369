"""One function per property; each takes (report, tier)."""
import conform
import small
import vp


def sized(tier, q, t):
    return q if tier == "quick" else t


def plain(prop, q=1800, t=16000):
    def f(rep, tier):
        vp.build()
        conform.check(rep, prop, sized(tier, q, t))
        small.check(rep, prop, tier)
    return f


CHECKS = {p: plain(p) for p in ("C03", "C04", "C06", "C07", "C08", "C09", "C10", "C13", "C16", "C18", "C19", "C20", "C22")}


def c12(rep, tier):
    import crates
    vp.build(cli=True)
    crates.check(rep, sized(tier, 1500, 20000))


CHECKS["C12"] = c12


def c11(rep, tier):
    import files
    vp.build(cli=True)
    files.check(rep, [(1, None), (2, None), (3, None), (12, 40)] if tier == "quick" else [(1, None), (2, None), (3, None), (4, None), (14, 4000)])


CHECKS["C11"] = c11


def c01(rep, tier):
    import determinism
    vp.build(cli=True)
    determinism.check(rep, *((900, 300, 300) if tier == "quick" else (12000, 3000, 4000)))


CHECKS["C01"] = c01


def compiled_check(prop, q, t, rust_every, extra=None):
    def f(rep, tier):
        import compiled
        vp.build()
        if extra:
            conform.check(rep, prop, sized(tier, *extra))
            small.check(rep, prop, tier)
        compiled.check(rep, prop, sized(tier, q, t), rust_every)
    return f


CHECKS["C02"] = compiled_check("C02", 700, 8000, 0)
CHECKS["C05"] = compiled_check("C05", 600, 8000, 30)
CHECKS["C09"] = compiled_check("C09", 250, 3000, 0, (1300, 12000))


def c15(rep, tier):
    import frame
    vp.build()
    frame.check(rep, sized(tier, 6000, 60000))


def c17(rep, tier):
    import fmt
    vp.build()
    fmt.check(rep, sized(tier, 1200, 15000))


CHECKS["C15"] = c15
CHECKS["C17"] = c17


def c23(rep, tier):
    import routes
    vp.build(cli=True)
    routes.check(rep, tier)


CHECKS["C23"] = c23


def c21(rep, tier):
    import derived
    vp.build()
    q = tier == "quick"
    derived.check(rep, 300 if q else 4000, 3 if q else 6, 30 if q else 60)


CHECKS["C21"] = c21
