"""The properties, and the symbolic jobs that decide them."""
from vlib import Job

COMMON_ASSUMPTIONS = [
    "clang 18 lowers /repo's C to LLVM IR faithfully (the shipped library is built by gcc -O2); the engine's IR semantics are spot-checked by running sampled paths natively with gcc and AddressSanitizer",
    "z3 4.8.12 is sound",
    "the executor's simplifier is sound (engine/selftest.cpp checks it against z3 and against evaluation on random terms)",
]


class Prop:
    def __init__(self, jobs, explanation, bounds, assumptions=(), covers=()):
        self._j, self.explanation, self._b, self.assumptions, self._c = jobs, explanation, bounds, list(assumptions), covers

    def jobs(self, tier, work):
        return self._j(tier, work)

    def bounds(self, tier):
        return self._b(tier) if callable(self._b) else self._b

    def covers(self, tier):
        return self._c(tier) if callable(self._c) else list(self._c)


PROPS = {}
METHOD = ("The functions listed are lowered to LLVM IR from /repo's working tree and executed symbolically by engine/ (inputs as bit-vector variables, every branch and "
          "every load/store bounds check decided by z3 or by the interval/rewrite layer in front of it); each assertion of the harness is discharged on every path. ")


def J(name, harness, _o=None, **params):
    o = dict(_o or {})
    if harness == "det.c" or (harness == "real.c" and not params.get("ACC")):
        o.pop("defs", None)   # the kernels do not run: no need to replace them
    return Job(name, harness, params, **o)


STUBC = {"optional": True}
NARROW = {"narrow": True}


def classic(tier):
    """framing/containment/session jobs with the component coder stood in for"""
    q = [
        J("classic two tiles", "classic.c", dict(STUBC, time=300, weight=9), NT=2, NR=1, NQ=2),
        J("classic default quantiser, no rectangle", "classic.c", STUBC, NT=1, NR=0, NQ=0),
        J("classic no tile", "classic.c", STUBC, NT=0, NR=2, NQ=1),
        J("classic BGRA", "classic.c", STUBC, NT=1, NR=1, NQ=1, FMT=0),
        J("classic RGB24", "classic.c", STUBC, NT=1, NR=1, NQ=1, FMT=3),
        J("classic two calls", "classic.c", STUBC, CALLS=2, NT=1, NR=1, NQ=1, SZ=700),
        J("classic many rectangles and quantisers", "classic.c", STUBC, NT=1, NR=300, NQ=255, SZ=0),
        J("classic 9000 rectangles", "classic.c", STUBC, NT=0, NR=9000, NQ=1, SZ=0),
        J("classic forty tiles", "classic.c", STUBC, NT=40, NR=1, NQ=9, SZ=700),
        J("classic many tiles", "classic.c", STUBC, NT=600, NR=300, NQ=255, SZ=0, SYMCAP=0, MAXCAP=200000),
        J("classic large message", "classic.c", STUBC, NT=200, NR=1, NQ=1, SZ=8000, SYMCAP=0, MAXCAP=5000000),
        J("classic any of 255 quantisers", "classic.c", STUBC, NT=2, NR=0, NQ=255, QSYM=1, SZ=0, SYMCAP=0, MAXCAP=100000, RLGR1=0),
        J("classic any of 255 quantisers, BGR", "classic.c", STUBC, FMT=2, GEO=2, NT=1, NR=0, NQ=255, QSYM=1, SZ=0, SYMCAP=0, MAXCAP=100000, RLGR1=1),
        J("classic numbers of tiles, rectangles and quantisers changing", "classic.c", dict(STUBC, weight=3), CALLS=3, NT=2, NR=1, NQ=1, QVAR=1, NVAR=1, RVAR=1, SZ=3, SYMCAP=0, MAXCAP=100000, SYMFRAME=0, RLGR1=0),
    ]
    if tier == "thorough":
        q += [J("classic three tiles", "classic.c", dict(STUBC, time=3000, weight=10), NT=3, NR=2, NQ=3),
              J("classic three calls", "classic.c", dict(STUBC, time=3000), CALLS=3, NT=1, NR=1, NQ=1, SZ=700, SYMFRAME=0)]
    return q


def classic_alpha(tier):
    return [J("classic alpha", "classic.c", STUBC, NT=1, NR=1, NQ=1, ALPHA=1, AIMG=0),
            J("classic alpha noise", "classic.c", STUBC, NT=1, NR=1, NQ=1, ALPHA=1, AIMG=1),
            J("classic alpha BGRA", "classic.c", STUBC, NT=1, NR=1, NQ=1, ALPHA=1, AIMG=1, FMT=0),
            J("classic alpha and not, planar", "classic.c", STUBC, CALLS=3, NT=1, NR=1, NQ=1, ALPHA=2, SYMCAP=0, MAXCAP=90000, SZ=700, GEO=2),
            J("classic alpha and not, RGBA", "classic.c", STUBC, CALLS=3, NT=2, NR=1, NQ=1, ALPHA=2, SYMCAP=0, MAXCAP=90000, SZ=700, FMT=1, GEO=2),
            J("classic alpha, any of 255 quantisers", "classic.c", STUBC, FMT=0, GEO=2, NT=1, NR=0, NQ=255, QSYM=1, SZ=0, SYMCAP=0, MAXCAP=100000, RLGR1=0, ALPHA=1),
            J("classic alpha, planar, any of 255 quantisers", "classic.c", STUBC, GEO=2, NT=1, NR=0, NQ=255, QSYM=1, SZ=0, SYMCAP=0, MAXCAP=100000, RLGR1=0, ALPHA=1)]


def pro_framing(tier):
    S = {"defs": ("-DSTUB=1",), "optional": True}
    q = [
        J("progressive capacity", "pro.c", dict(S, weight=5), NT=2, NR=1, NQ=2, SYMCAP=1, DEC=0, NK=1, K0=0),
        J("progressive capacity, no quantiser", "pro.c", S, NT=1, NR=0, NQ=0, SYMCAP=1, DEC=0, K0=2),
        J("progressive invalid tiles", "pro.c", S, INV=2, NT=2, NQ=2, DEC=0),
        J("progressive many", "pro.c", S, NT=3, NR=300, NQ=255, DEC=0, K0=2),
        J("progressive many, capacity", "pro.c", S, NT=1, NR=300, NQ=255, SYMCAP=1, DEC=0, K0=0), J("progressive no tile", "pro.c", S, NT=0, NR=1, NQ=1, SYMCAP=1, DEC=0),
        J("progressive 600 tiles", "pro.c", dict(S, weight=5), NT=600, NR=1, NQ=1, DEC=0, K0=0, MAXCAP=90000),
        J("progressive large message", "pro.c", dict(S, weight=4), NT=6, POSM=2, NR=1, NQ=1, DEC=0, K0=5, MAXCAP=400000),
        J("progressive long codes, capacity", "pro.c", dict(S, weight=3), NT=2, NR=1, NQ=1, SYMCAP=1, DEC=0, K0=8, MAXCAP=4000, TWIN=1, KEY=0),
        J("progressive large tile before a small one, capacity", "pro.c", dict(S, weight=2), NT=2, NR=0, NQ=0, SYMCAP=1, DEC=0, NK=2, CYC=1, K0=8, K1=0, MAXCAP=3000, TWIN=1, KEY=0),
        J("progressive tiles of three sizes, capacity", "pro.c", dict(S, weight=2), NT=3, NR=1, NQ=1, SYMCAP=1, DEC=0, NK=3, CYC=1, K0=2, K1=8, K2=0, MAXCAP=3000, TWIN=1, KEY=0),
        J("progressive long components", "pro.c", S, NT=2, NR=1, NQ=1, DEC=0, K0=5),
        J("progressive components of a kilobyte", "pro.c", S, NT=2, NR=1, NQ=1, DEC=0, K0=4),
        J("progressive any of 255 quantisers", "pro.c", dict(S, weight=3), NT=1, NR=0, NQ=255, QSYM=1, DEC=0, K0=0),
        J("progressive every tile that fits", "pro.c", dict(S, weight=3), NT=3, NR=1, NQ=1, SYMCAP=1, DEC=0, K0=0, TWIN=1, KEY=0),
        J("progressive every tile that fits, difference tiles", "pro.c", dict(S, weight=3), CALLS=2, NT=2, NR=1, NQ=0, SYMCAP=2, DEC=0, NK=2, CYC=2, K0=4, K1=6, TWIN=1, KEY=0, CAPHI=400),
        J("progressive real, capacity", "pro.c", {"weight": 5}, NT=1, NR=1, NQ=1, SYMCAP=1, K0=6, MAXCAP=3000, TWIN=1),
        J("progressive real, two tiles", "pro.c", {"weight": 5}, NT=2, NR=2, NQ=3, NK=2, K0=6, K1=1),
    ]
    if tier == "thorough":
        q += [J("progressive capacity, three tiles", "pro.c", dict(S, time=3000), NT=3, NR=2, NQ=2, SYMCAP=1, DEC=0, K0=2)]
    return q


K = {"defs": ("-DKSTUB=1",)}
ASM = {"extra_c": ("ASM",)}


def real(tier):
    """whole messages decoded, nothing replaced"""
    q = [
        J("messages BGRA partial tiles", "real.c", K, FMT=0, W=100, H=70, NT=4, ORDER=2, PAD=4),
        J("messages RGBA reverse order", "real.c", K, FMT=1, W=130, H=65, NT=6, ORDER=1, NK=2, K0=5),
        J("messages BGR partial tiles", "real.c", K, FMT=2, W=100, H=70, NT=4, ORDER=2, PAD=5, NQ=2),
        J("messages RGB one pixel", "real.c", K, FMT=3, W=1, H=1, NT=1, NK=3, NQ=0),
        J("messages planar", "real.c", dict(K, weight=3), FMT=4, W=128, H=128, NT=4, NQ=4, NK=3, K0=5),
        J("messages planar noise", "real.c", K, FMT=4, W=64, H=192, NT=3, K0=2, NQ=1, NK=2),
    ]
    if tier == "thorough":
        q += [J("messages fmt %d size %dx%d" % (f, w, h), "real.c", dict(K, time=1500), FMT=f, W=w, H=h, NT=((w + 63) // 64) * ((h + 63) // 64), ORDER=2, NK=4, K0=k0, NQ=3, PAD=7)
              for f in range(5) for (w, h) in ((64, 64), (65, 63), (2, 130)) for k0 in (0, 4)]
    return q


def real_capacity(tier):
    return [J("messages, symbolic capacity, planar", "real.c", dict(K, weight=3), FMT=4, W=128, H=64, NT=2, SYMCAP=1, MAXCAP=90000, K0=1),
            J("messages, symbolic capacity, BGR", "real.c", K, FMT=2, W=20, H=30, NT=1, SYMCAP=1, MAXCAP=90000, NQ=2),
            J("messages, symbolic capacity, alpha", "real.c", dict(K, weight=2), FMT=0, W=64, H=64, NT=1, SYMCAP=1, MAXCAP=90000, ALPHA=1, K0=2),
            J("messages, symbolic capacity, SSE2 coder", "real.c", dict(K, weight=2, optional=True), FMT=4, W=128, H=64, NT=2, SYMCAP=1, MAXCAP=90000, ACC=1, K0=2),
            J("messages, symbolic capacity, SSE4.1 coder", "real.c", dict(K, weight=2, optional=True), FMT=1, W=70, H=64, NT=2, SYMCAP=1, MAXCAP=90000, ACC=2, K0=2, ALPHA=1)]


def real_alpha(tier):
    return [J("messages BGRA alpha", "real.c", K, FMT=0, W=100, H=70, NT=4, ALPHA=1, K0=1, NK=3),
            J("messages RGBA alpha", "real.c", K, FMT=1, W=67, H=64, NT=2, ALPHA=1, K0=5),
            J("messages planar alpha", "real.c", K, FMT=4, W=128, H=64, NT=2, ALPHA=1, K0=1, NK=3)]


def real_asm(tier):
    return [J("messages with the SSE2 code", "real.c", dict(ASM, weight=4), FMT=4, W=64, H=64, NT=1, NQ=3, K0=1, NK=2, ACC=1),
            J("messages with the SSE4.1 code", "real.c", dict(ASM, weight=4), FMT=4, W=64, H=64, NT=1, NQ=3, K0=1, NK=2, ACC=2),
            J("messages BGR with the SSE4.1 code", "real.c", dict(ASM, weight=4), FMT=2, W=70, H=64, NT=2, ACC=2)]


def plane(tier):
    """all pixels of the tile symbolic"""
    O = {"narrow": True, "optional": True, "fallback": [J("planes of format %d, one pixel" % f, "plane.c", {"narrow": True, "optional": True}, FMT=f, ONE=12 + 777 * f, CX=60, CY=61, TX=1) for f in range(4)]}
    q = []
    for f in range(4):
        q.append(J("planes of format %d" % f, "plane.c", O, FMT=f, CX=64, CY=64, TX=1, TY=1, PAD=3 * f))
        for lo in (1, 17, 33, 49):
            q.append(J("planes of format %d, width %d..%d" % (f, lo, lo + 15), "plane.c", dict(O, weight=6), FMT=f, CX=0, CY=2 if f & 1 else 1, PAD=4, LO=lo, HI=lo + 15))
            q.append(J("planes of format %d, height %d..%d" % (f, lo, lo + 15), "plane.c", dict(O, weight=6), FMT=f, CX=3 if f & 1 else 2, CY=0, TX=1, PAD=1, LO=lo, HI=lo + 15))
    q.append(J("planes of planar input", "plane.c", O, FMT=4, TX=1, TY=1))
    q.append(J("planes of planar input, far tile", "plane.c", O, FMT=4, TX=68, TY=1, GEO=70))
    for f in range(4):
        q.append(J("planes of format %d, tile far right" % f, "plane.c", dict(O, weight=4), FMT=f, CX=64, CY=5, TX=130, TY=f & 1, PAD=4))
        q.append(J("planes of format %d, tile far down" % f, "plane.c", dict(O, weight=4), FMT=f, CX=3, CY=64, TX=f >> 1, TY=130))
    if tier == "thorough":
        for f in range(4):
            for lo in range(1, 65, 8):
                for cy in (3, 33, 63, 64):
                    q.append(J("planes of format %d, width %d..%d, height %d" % (f, lo, lo + 7, cy), "plane.c", dict(O, time=2500), FMT=f, CX=0, CY=cy, TX=1, TY=2, LO=lo, HI=lo + 7))
                for cx in (1, 31, 63, 64):
                    q.append(J("planes of format %d, height %d..%d, width %d" % (f, lo, lo + 7, cx), "plane.c", dict(O, time=2500), FMT=f, CX=cx, CY=0, TX=2, LO=lo, HI=lo + 7))
    return q


def plane_alpha(tier):
    O = {"narrow": True, "optional": True}
    return [J("alpha plane of format %d" % f, "plane.c", O, FMT=f, ALPHA=1, CX=64, CY=64, TX=1, PAD=8) for f in (0, 1)] + [
        J("alpha plane of format %d, %s %d..%d" % (f, "width" if wd else "height", lo, lo + 15), "plane.c", dict(O, weight=5), FMT=f, ALPHA=1, CX=0 if wd else 2, CY=1 if wd else 0, LO=lo, HI=lo + 15) for f in (0, 1) for wd in (0, 1) for lo in (1, 17, 33, 49)] + [
        J("colours of format %d with an alpha plane" % f, "plane.c", O, FMT=f, ALPHA=1, CX=64, CY=64, TX=1, PAD=5) for f in (2, 3)] + [
        J("colours of format %d with an alpha plane, %s %d..%d" % (f, "width" if wd else "height", lo, lo + 15), "plane.c", dict(O, weight=5), FMT=f, ALPHA=1, CX=0 if wd else 2, CY=2 if wd else 0, LO=lo, HI=lo + 15) for f in (2, 3) for wd in (0, 1) for lo in (1, 49)] + [
        J("alpha plane of format %d, tile far right" % f, "plane.c", dict(O, weight=4), FMT=f, ALPHA=1, CX=64, CY=5, TX=130, TY=f & 1, PAD=4) for f in (0, 1)] + [
        J("alpha plane of format %d, tile far down" % f, "plane.c", dict(O, weight=4), FMT=f, ALPHA=1, CX=3, CY=64, TX=f & 1, TY=130) for f in (0, 1)] + [
        J("alpha plane of planar input, far tile", "plane.c", O, FMT=4, ALPHA=1, TX=68, TY=1, GEO=70),
        J("alpha plane of planar input", "plane.c", O, FMT=4, ALPHA=1, TX=1, TY=1)]


def plane_history(tier):
    O = {"narrow": True, "optional": True}
    return [J("planes after an earlier larger tile, format %d%s" % (f, ", alpha" if a else ""), "plane.c", O, FMT=f, CALLS=2, CX=64, CY=64, CX2=3, CY2=7, TX=0, TX2=1, ALPHA=a) for f, a in ((0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (1, 1), (2, 1), (3, 1))]


def c01(tier, work):
    return classic(tier) + classic_alpha(tier) + pro_framing(tier) + real_capacity(tier)


def c02(tier, work):
    q = plane(tier) + plane_alpha(tier) + real(tier) + real_alpha(tier) + real_asm(tier)[2:] + [
        J("progressive real, two tiles", "pro.c", {"weight": 3}, NT=2, NR=2, NQ=3, NK=2, K0=6, K1=1), J("progressive real, invalid tiles", "pro.c", {"weight": 3}, INV=2, NT=2, NQ=2, K0=6)]
    return q + [J("coefficients of the last pair, rlgr3", "rlgr.c", {"fork_shift": True}, MODE=3, IMPL=i, POS=4095, W=1, R=9, J=4) for i in (0, 1)]


def c03(tier, work):
    return classic(tier) + classic_alpha(tier) + real(tier)[:3]


def c04(tier, work):
    return pro_framing(tier)


def c05(tier, work):
    S = {"defs": ("-DSTUB=1",), "optional": True}
    n = 3 if tier == "quick" else 4
    return [J("classic calls of symbolic capacity", "classic.c", dict(STUBC, weight=5, time=2000), CALLS=n, NT=1, NR=1, NQ=1, SZ=3, SYMFRAME=0),
            J("classic arbitrary frame number", "classic.c", STUBC, CALLS=2, NT=1, NR=1, NQ=1, SZ=3),
            J("progressive keys and failures", "pro.c", dict(S, weight=5), CALLS=n, KEY=2, NT=1, DEC=0, K0=2, FAILCAP=15, SMALL=60),
            J("progressive arbitrary frame number", "pro.c", dict(S, defs=("-DSTUB=1", "-DFRAME=1")), CALLS=3, KEY=2, NT=1, DEC=0, K0=2, FAILCAP=15, SMALL=60),
            J("progressive symbolic capacity then success", "pro.c", S, CALLS=2, KEY=0, NT=1, DEC=0, K0=0, SYMCAP=1),
            J("progressive invalid then valid", "pro.c", S, CALLS=2, KEY=0, NT=1, DEC=0, K0=0, INV=2),
            J("progressive real keys", "pro.c", {"weight": 6}, CALLS=n, KEY=2, NT=1, NK=1, K0=6, FAILCAP=15, SMALL=60),
            J("progressive long session", "pro.c", {"weight": 7}, CALLS=12, NT=1, NK=4, K0=1, K1=6, K2=5, K3=7, CYC=1, KEY=3),
            J("classic real long session", "real.c", dict(K, weight=4), FMT=4, CALLS=20, NT=1, K0=4),
            J("classic real, two encoders", "real.c", dict(K, weight=4), FMT=4, CALLS=n, ENCS=2, NT=1, K0=4),
            J("classic real calls of symbolic capacity", "real.c", dict(K, weight=4), FMT=4, CALLS=2, NT=1, K0=0, SYMCAP=1, MAXCAP=80000)]


def rlgr_jobs(mode):
    def f(tier, work):
        r = []
        F = {"fork_shift": True}
        for impl in (0, 1):
            n = "rlgr%d %s: " % (mode, "fast" if impl else "portable")

            def add(what, o=None, **p):
                r.append(J(n + what, "rlgr.c", dict(F, **(o or {})), MODE=mode, IMPL=impl, **p))
            add("first coefficients", POS=0, W=3, R=2)
            add("small values at every bit phase", {"weight": 3}, POS=100, W=2, R=8, LEADS=9)
            add("after 0..12 values of 40", POS=300, W=2, R=6, JS=12, VA=40)
            add("one value up to 3000", {"weight": 9}, POS=2000, W=1, R=3000)
            add("large values, large parameter", POS=300, W=2, R=1500, J=10, VA=2500)
            for lo, hi in ((-32768, -32750), (32750, 32767), (-9000, -8980), (16380, 16390)):
                add("values of %d..%d" % (lo, hi), POS=2000, W=1, LO=lo, HI=hi)
                add("values of %d..%d, large parameter" % (lo, hi), POS=2001, W=1, LO=lo, HI=hi, J=9, VA=2000)
            add("runs of 0..130", POS=3500, W=1, R=3, J=2, Z=0, ZS=130)
            add("runs of 3000..3130", POS=3500, W=1, R=2, J=2, Z=3000, ZS=130)
            add("last three coefficients", POS=4093, W=3, R=3)
            add("last coefficient up to 600", {"weight": 3}, POS=4095, W=1, R=600, J=3)
            add("middle", {"weight": 2}, POS=40, W=2, R=30, J=3, VA=3)
            add("dense surroundings", {"weight": 2}, NOISE=60, POS=4000, W=1, R=1)
            add("dense surroundings near the end", {"weight": 8}, NOISE=24, POS=4092, W=2, R=6 if tier == "quick" else 12, DIFF=1)
            if impl:
                add("difference over 81", POS=4014, W=3, R=6, DIFF=81)
                add("difference over 80", POS=4015, W=2, R=4, DIFF=80)
                add("difference over 64", {"weight": 2}, POS=4031, W=2, R=40)
                for lo, hi in ((-8200, -8190), (8180, 8190), (-16390, -16380), (16370, 16383)):
                    add("differences of values of %d..%d" % (lo, hi), POS=4051, W=1, LO=lo, HI=hi, J=3, VA=abs(lo), SUF=-lo)
                add("difference over 0 and 1", POS=4094, W=2, R=6, DIFF=0)
            if tier == "thorough":
                L = {"time": 3000}
                add("one value up to 16000", dict(L, weight=20), POS=2000, W=1, R=16000)
                add("eight ternary values", dict(L, weight=20), POS=0, W=8, R=1)
                for p in range(0, 4096, 512):
                    add("four values at %d" % p, L, POS=p, W=4, R=3)
                    add("two values at %d in dense surroundings" % p, L, NOISE=24, POS=min(4080, p + 13), W=1, R=1, SEED=p)
                for va in (1, 5, 20, 100, 500, 1500):
                    add("after values of %d" % va, L, POS=600, W=2, R=12, JS=24, VA=va, ZS=5)
                add("runs of 0..1100", dict(L, weight=9), POS=3500, W=1, R=1, J=2, Z=0, ZS=1100)
        return r
    return f


def c08(tier, work):
    r = []
    F = {"fork_shift": True}
    for mode in (1, 3):
        for impl in (0, 1):
            n = "rlgr%d %s: " % (mode, "fast" if impl else "portable")
            for k, mc in ((0, 40), (1, 140), (2, 200), (3, 200), (4, 120), (6, 600)):
                r.append(J(n + "capacity, contents %d" % k, "rlgrcap.c", F, MODE=mode, IMPL=impl, KIND=k, MAXCAP=mc))
            r.append(J(n + "capacity, dense", "rlgrcap.c", F, MODE=mode, IMPL=impl, KIND=5, MAXCAP=6000, MINCAP=0 if tier == "thorough" else 2000))
            r.append(J(n + "capacity and symbolic values", "rlgrcap.c", dict(F, weight=4), MODE=mode, IMPL=impl, KIND=0, W=2, POS=3000, R=20 if tier == "quick" else 60))
            r.append(J(n + "capacity and last value", "rlgrcap.c", dict(F, weight=2), MODE=mode, IMPL=impl, KIND=1, W=1, POS=4095, R=60, MAXCAP=160))
    return r


def c09(tier, work):
    r = []
    for v, nm in ((0, "sse2"), (1, "sse4.1")):
        o = {"extra_c": ("ASM",), "narrow": True}
        fb = [J("%s, blocks of pixels" % nm, "accel.c", o, V=v, ROT=3, WIN=3), J("%s, blocks of pixels, other quantisers" % nm, "accel.c", o, V=v, ROT=7, WIN=4)]
        for rot in range(10):
            r.append(J("%s, quantiser rotation %d" % (nm, rot), "accel.c", dict(o, fallback=fb), V=v, ROT=rot, OFF=(rot * 5 + v) % 16))
    return r + real_asm(tier)


def c10(tier, work):
    return [J("classic transform, all pixels", "dwt.c", dict(NARROW, fallback=[J("classic transform, blocks of %d pixels" % (k * k), "dwt.c", NARROW, WIN=k) for k in (3, 5)]))] + real(tier)[-2:]


def c11(tier, work):
    fb = [J("fused transform and quantisation, blocks of pixels", "rem.c", NARROW, WHAT=0, WIN=3), J("separate transform, blocks of pixels", "rem.c", NARROW, WHAT=1, WIN=3)]
    return [J("fused transform and quantisation", "rem.c", dict(NARROW, fallback=fb[:1]), WHAT=0), J("separate transform", "rem.c", dict(NARROW, fallback=fb[1:]), WHAT=1), J("corner", "rem.c", NARROW, WHAT=0, CORNER=128, FIXQ=0x66),
            J("separate quantisation", "remq.c", {"optional": True}), J("progressive tiles", "pro.c", None, NT=2, NQ=3, NK=2, K0=1, K1=5)]


def c12(tier, work):
    return [J("quantisation, every band", "quant.c")] + real(tier)[-2:] + [J("messages with every quantiser", "real.c", K, FMT=4, W=128, H=64, NT=2, NQ=4, K0=5)]


def c13(tier, work):
    return [j for j in plane(tier) + plane_alpha(tier) if "," not in j.name] + real(tier)[:4] + real_alpha(tier)[:2]


def c14(tier, work):
    S = {"defs": ("-DSTUB=1",), "optional": True}
    return plane(tier) + plane_alpha(tier) + real(tier) + [
        J("progressive tiles at the last positions", "pro.c", dict(S, weight=5), CALLS=1, NT=1, POSM=1, SLOTS=6, KEY=0, K0=2, GEO=64),
        J("progressive real, four positions", "pro.c", dict(weight=5), CALLS=1, NT=3, KEY=0, K0=1, NQ=1)]


def c15(tier, work):
    q = []
    for k in range(9):
        q.append(J("alpha background %d" % k, "alpha.c", None, KIND=k, ROW=1, COL=5 + k, WIN=3))
    q += [J("alpha first row", "alpha.c", None, KIND=0, ROW=0, COL=0, WIN=4), J("alpha first row, ramp", "alpha.c", None, KIND=2, ROW=0, COL=30, WIN=3),
          J("alpha last row", "alpha.c", None, KIND=1, ROW=63, COL=60, WIN=4), J("alpha every column", "alpha.c", {"weight": 6}, KIND=0, ROW=20, COL=-1, WIN=2), J("alpha every column, first row", "alpha.c", {"weight": 4}, KIND=1, ROW=0, COL=-1, WIN=2),
          J("alpha every column, bars", "alpha.c", {"weight": 6}, KIND=4, ROW=3, COL=-1, WIN=2)]
    for rv in (0, 2, 6, 255):
        q.append(J("alpha segments of every length, run value %d" % rv, "alpha.c", None, SHAPE=1, RUNV=rv))
        q.append(J("alpha segments of every length up to a final run, run value %d" % rv, "alpha.c", None, SHAPE=2 + (rv & 1), RUNV=rv))
    if tier == "thorough":
        for k in range(9):
            for row in (0, 1, 31, 63):
                q.append(J("alpha background %d row %d, every column" % (k, row), "alpha.c", {"time": 2000}, KIND=k, ROW=row, COL=-1, WIN=3))
    return q + [j for j in real_alpha(tier)]


def c16(tier, work):
    S = {"defs": ("-DSTUB=1",), "optional": True}
    q = [
        J("progressive pictures and keys", "pro.c", {"weight": 8}, CALLS=3, KEY=2, NK=3),
        J("progressive symbolic coefficients", "pro.c", dict(S, fork_shift=True, weight=4), CALLS=2, KEY=2, NSYM=2, P0=4014, P1=4096),
        J("progressive symbolic coefficients, difference region", "pro.c", dict(S, fork_shift=True, weight=4), CALLS=2, KEY=0, NSYM=2, P0=4095, P1=4015, R=2, K0=2),
        J("progressive symbolic coefficients, three calls", "pro.c", dict(S, fork_shift=True, weight=4), CALLS=3, KEY=0, NSYM=1, P0=4096 + 40, R=1, K0=2),
        J("progressive tiles at the last positions", "pro.c", dict(S, weight=5), CALLS=2, NT=1, POSM=1, SLOTS=6, KEY=2, K0=2),
        J("progressive fixed heap contents", "pro.c", {"weight": 3}, CALLS=2, NT=2, KEY=0, NK=2, K0=1, K1=6, HEAPFILL=1),
        J("progressive after an encoder that is gone", "pro.c", {"weight": 3}, CALLS=2, NT=2, KEY=0, NK=2, K0=1, K1=6, HEAPFILL=2, REUSE=1),
        J("progressive failed difference tile between", "pro.c", dict(S, weight=4), CALLS=3, NT=1, NR=0, NQ=0, NK=3, CYC=2, K0=4, K1=6, K2=7, SYMCAP=2, CAPHI=120, KEY=0),
        J("progressive failed second difference tile between", "pro.c", dict(S, weight=4), CALLS=3, NT=2, NR=0, NQ=0, NK=3, CYC=2, K0=4, K1=6, K2=7, SYMCAP=2, CAPHI=250, KEY=0),
        J("progressive very short components", "pro.c", dict(S, weight=2), CALLS=4, NT=1, NR=0, NQ=0, NK=4, K0=9, K1=10, K2=2, K3=8, KEY=0),
        J("progressive failed call between", "pro.c", {"weight": 4}, CALLS=3, NK=2, K0=1, K1=5, FAILCAP=2, SMALL=300, KEY=0),
        J("progressive tiles in any order", "pro.c", {"weight": 5}, CALLS=2, NT=2, POSM=1, SLOTS=3, KEY=0, NK=1, K0=6),
        J("progressive quantiser changes", "pro.c", {"weight": 5}, CALLS=2, NT=1, NQ=3, KEY=0, NK=2, K0=1, K1=6),
        J("progressive allocation failure", "pro.c", dict(S, weight=9), CALLS=2, NK=2, K0=2, K1=1, NT=2, ALLOCFAIL=1),
        J("progressive symbolic capacity", "pro.c", dict(S, weight=4), CALLS=2, NT=2, K0=2, SYMCAP=2, KEY=0),
        J("progressive long session", "pro.c", {"weight": 7}, CALLS=12, NT=1, NK=4, K0=1, K1=6, K2=5, K3=7, CYC=1, KEY=3),
        J("progressive long session, three tiles", "pro.c", dict(S, weight=7), CALLS=12, NT=3, NK=4, CYC=1, KEY=3, K0=2, K1=1, K2=4, K3=3),
    ]
    if tier == "thorough":
        L = {"time": 3000, "weight": 20}
        q += [J("progressive pictures and keys, four calls", "pro.c", L, CALLS=4, KEY=2, NK=3),
              J("progressive allocation failure, three tiles", "pro.c", dict(S, **L), CALLS=2, NK=2, K0=2, K1=1, NT=3, ALLOCFAIL=1),
              J("progressive two tiles, four calls", "pro.c", L, CALLS=4, NT=2, NK=2, K0=0, K1=6, KEY=0),
              J("progressive four symbolic coefficients", "pro.c", dict(S, fork_shift=True, **L), CALLS=2, KEY=0, NSYM=4, P0=4014, P1=4096, P2=10, P3=8192 + 2000, R=1)]
    return q


def c17(tier, work):
    return classic(tier) + pro_framing(tier) + real_capacity(tier)


def c18(tier, work):
    S = {"defs": ("-DSTUB=1",), "optional": True}
    return [j for j in pro_framing(tier) if "capacity" in j.name] + [J("progressive symbolic capacity then success", "pro.c", S, CALLS=2, KEY=0, NT=1, DEC=0, K0=0, SYMCAP=1), J("progressive invalid tiles", "pro.c", S, INV=2, NT=2, NQ=2, DEC=0)] + [J("create_ex", "life.c", None, WHAT=0), J("create, two encoders", "life.c", None, WHAT=1), J("use under allocation failure", "life.c", {"weight": 2}, WHAT=2, CALLS=3 if tier == "quick" else 5),
            J("progressive sessions", "pro.c", {"weight": 3}, CALLS=2, KEY=2, NK=2, NT=2), J("progressive tiles at the last positions", "pro.c", dict(S, weight=5), CALLS=2, NT=1, POSM=1, SLOTS=6, KEY=2, K0=2),
            J("progressive allocation failure", "pro.c", dict(S, weight=9), CALLS=2, NK=2, K0=2, K1=1, NT=2, ALLOCFAIL=1)]


def c19(tier, work):
    return [J("every processor and flag", "real.c", dict(K, weight=5, time=1500), FMT=4, ACC=3, K0=4, ECXMASK=0x80001 if tier == "quick" else -1),
            J("every processor and flag, BGR", "real.c", dict(K, weight=5), FMT=2, ACC=3, K0=1, W=9, H=9, ECXMASK=0x80000)] + real_asm(tier)


def c20(tier, work):
    return plane_history(tier) + [
        J("two encoders interleaved", "real.c", dict(K, weight=4), FMT=0, CALLS=3, ENCS=2, W=70, H=20, NT=1, K0=1),
        J("two encoders interleaved, planar alpha", "real.c", dict(K, weight=4), FMT=4, CALLS=3, ENCS=2, W=64, H=64, NT=1, K0=0, ALPHA=1),
        J("alpha, quantisers and number of tiles changing", "real.c", dict(K, weight=5), FMT=0, CALLS=2, W=70, H=64, NT=2, NQ=2, NK=1, K0=1, ALPHA=2, QVAR=1, NVAR=1),
        J("alpha and quantisers changing, planar", "real.c", dict(K, weight=5), FMT=4, CALLS=3, W=64, H=64, NT=1, NQ=1, NK=1, K0=1, ALPHA=2, QVAR=1),
        J("quantisers that differ in one byte", "real.c", dict(K, weight=4), FMT=4, CALLS=1, W=64, H=64, NT=1, NQ=6, QSET=1, K0=7),
        J("quantisers that differ in one byte, BGR", "real.c", dict(K, weight=4), FMT=2, CALLS=2, W=9, H=9, NT=1, NQ=3, QSET=1, K0=1),
        J("noise in sequence", "real.c", dict(K, weight=3), FMT=4, CALLS=2, W=64, H=64, NT=1, NQ=1, NK=2, K0=2),
        J("failed call before", "real.c", dict(K, weight=3), FMT=4, CALLS=2, W=64, H=64, NT=1, NQ=1, NK=1, K0=0, SYMCAP=1, MAXCAP=60000),
        J("long sequence", "real.c", dict(K, weight=4), FMT=0, CALLS=20, W=20, H=70, NT=2, K0=0, ORDER=1),
        J("pictures in sequence", "real.c", dict(K, weight=4), FMT=2, CALLS=2, W=100, H=70, NT=2, ORDER=2, NK=2, K0=1),
        J("alpha pictures in sequence", "real.c", dict(K, weight=4), FMT=1, CALLS=3, W=30, H=30, NT=1, NK=3, ALPHA=1, K0=0),
        J("quantisers in sequence", "real.c", dict(K, weight=4), FMT=4, CALLS=2, W=64, H=64, NT=1, NQ=3, NK=2, K0=5)]


def det(tier):
    q = [J("same bytes, planar", "det.c", dict(K, weight=3), FMT=4, NK=3, K0=0),
         J("same bytes, BGRA alpha", "det.c", dict(K, weight=3), FMT=0, ALPHA=1, W=40, H=64, NK=2, K0=1, CALLS=2),
         J("same bytes, alpha noise", "det.c", dict(K, weight=2), FMT=4, ALPHA=1, NK=1, K0=2, CALLS=1),
         J("same bytes, RGB partial tiles", "det.c", dict(K, weight=2), FMT=3, W=70, H=66, NT=4, NK=1, K0=5, CALLS=2),
         J("same bytes, symbolic capacity", "det.c", dict(K, weight=3), FMT=4, W=128, NT=2, NQ=2, SYMCAP=1, NK=1, K0=2),
         J("same bytes, progressive", "det.c", dict(K, weight=3), FMT=4, PRO=1, CALLS=3, NK=2, K0=0, KEY=1),
         J("same bytes, progressive symbolic capacity", "det.c", dict(K, weight=3), FMT=4, PRO=1, W=128, NT=2, NQ=2, SYMCAP=1, NK=1, K0=0, KEY=1, CALLS=2),
         J("same bytes, alpha, quantisers and number of tiles changing", "det.c", dict(K, weight=3), FMT=1, W=70, NT=2, NQ=2, NK=1, K0=1, CALLS=2, ALPHA=2, QVAR=1, NVAR=1),
         J("same bytes, progressive, fixed heap contents", "det.c", dict(K, weight=3), FMT=4, PRO=1, CALLS=2, NK=2, K0=0, NT=1, HEAPFILL=1),
         J("same bytes, progressive, after an encoder that is gone", "det.c", dict(K, weight=3), FMT=4, PRO=1, CALLS=2, NK=2, K0=1, NT=1, HEAPFILL=2, REUSE=1),
         J("same bytes, planes, after an encoder that is gone", "det.c", K, FMT=4, ALPHA=1, NK=2, K0=1, CALLS=2, HEAPFILL=2, REUSE=1),
         J("same bytes, BGRA alpha, fixed heap contents", "det.c", K, FMT=0, ALPHA=1, W=40, H=64, NK=2, K0=1, CALLS=2, HEAPFILL=1),
         J("same bytes, SSE2", "det.c", dict(ASM, weight=2), FMT=4, NK=1, K0=1, ACC=1), J("same bytes, SSE4.1", "det.c", dict(ASM, weight=2), FMT=4, NK=1, K0=1, ACC=2)]
    if tier == "thorough":
        q += [J("same bytes, format %d" % f, "det.c", dict(K, time=1500), FMT=f, W=130, H=64, NT=3, NQ=3, NK=4, K0=k, CALLS=3) for f in range(5) for k in (0, 4)]
        q += [J("same bytes, progressive, five calls", "det.c", dict(K, time=2500), FMT=4, PRO=1, CALLS=5, NK=2, K0=0, KEY=1)]
    return q


def c21(tier, work):
    return det(tier)


def c23(tier, work):
    q = [j for j in det(tier)]
    for j in q:
        j.name = j.name.replace("same bytes", "shared data"); j.params["GLOBALS"] = 1
    return q


def c22(tier, work):
    return real(tier) + real_asm(tier) + [
        J("quantisers of alpha pictures, format %d" % f, "real.c", K, FMT=f, W=64 if f == 4 else 70, H=64, NT=1 if f == 4 else 2, ALPHA=1, NQ=3, K0=1) for f in (0, 1, 4)] + [
        J("quantisers that differ in one byte", "real.c", dict(K, weight=4), FMT=4, CALLS=1, W=64, H=64, NT=1, NQ=6, QSET=1, K0=7),
        J("quantisers that differ in one byte, BGR", "real.c", dict(K, weight=2), FMT=2, CALLS=1, W=9, H=9, NT=1, NQ=6, QSET=1, K0=2),
        J("quantisers that differ in one byte, RGBA with alpha", "real.c", dict(K, weight=2), FMT=1, CALLS=1, W=9, H=9, NT=1, NQ=6, QSET=1, K0=2, ALPHA=1),
        J("quantisers that differ in one byte, planar with alpha", "real.c", dict(K, weight=2), FMT=4, CALLS=1, W=64, H=64, NT=1, NQ=6, QSET=1, K0=6, ALPHA=1),
        J("quantisers of progressive tiles", "pro.c", {"weight": 3}, NT=2, NQ=3, NK=1, K0=1)]


# what each property's verdict ranges over, and what lies outside it; (bounds, outside, assumptions, points that must be reached)
STANDIN = "the component coder is replaced by a stand-in that may deliver 1, 700 or 11000 bytes or find too little space (the largest component the coders can produce is below 11000 bytes, see DESIGN.md)"
PICS = "pictures are chosen symbolically from a fixed set (flat, ramp, noise, checker, one changed pixel, blocks, stripe)"
ABOUT = {
    "C01": ("classic: all capacities 0..200000, 0..2 and 40 tiles (600 at one capacity, 200 of 8000-byte components), 0..2 rectangles with all field values, 0..2 quantiser sets with all byte values; alpha: all capacities, 1 tile, two alpha planes; progressive: all capacities 0..60000, 1..3 tiles of equal and different sizes, invalid tiles; real component coders: all capacities 0..90000",
            "more than two tiles at a symbolic capacity; buffers over 200000 bytes", [STANDIN, PICS], ("call fails", "all tiles coded", "some tiles left out")),
    "C02": ("all pixel values of a tile in four RGB formats, every tile width 1..64, planar tiles; whole messages over partial tiles of every format; progressive tiles with any invalid quantiser index or position",
            "a width and a height below 64 both symbolic at once (thorough: widths by 8 times four heights)", [PICS], ("all tiles coded", "original tile")),
    "C03": ("all values of rectangle fields (16 bits), quantiser bytes, tile positions, quantiser indices, picture sizes 1..65535, frame numbers; 0..2 tiles with symbolic fields, 40 and 600 tiles, messages over a megabyte, any index of 255 quantiser sets, numbers of tiles, rectangles and sets changing over 3 calls; both entropy coders; alpha",
            "three or more tiles with symbolic fields (thorough: three)", [STANDIN, PICS], ("all tiles coded",)),
    "C04": ("all values of rectangle fields, quantiser bytes and indices, all invalid positions and indices over 32 bits; up to 3 tiles at every capacity, 600 tiles, 300 rectangles, any index of 255 quantiser sets, long and short components", "more than three tiles at a symbolic capacity", [PICS], ("original tile", "call fails")),
    "C05": ("all capacities in up to 3 calls (thorough 4), any starting frame number below 2^31, every key/failure pattern over 3 calls, two encoders interleaved", "longer call sequences other than by the arbitrary starting frame number", [STANDIN], ("header sent", "header not repeated", "call fails")),
    "C06": ("4096 coefficients of which a window of 1..3 is symbolic in the stated ranges (up to +-3000, and windows at the extremes of 16 bits; thorough +-16000), after symbolic run lengths 0..130 and 3000..3130, after 0..12 large values, at every bit phase and parameter value, at the first and last positions, in 60 dense surroundings",
            "many large symbolic values at once", [], tuple("bit phase %d" % i for i in range(8)) + ("kr=0", "kr=5", "k=0")),
    "C07": ("as C06, for RLGR3 with its pairs", "many large symbolic values at once", [], tuple("bit phase %d" % i for i in range(8)) + ("kr=0", "k=0")),
    "C08": ("all capacities from 0 to past the length of the stream, for seven contents and for windows of one or two symbolic values; both coders of both modes", "contents outside these families", [], ("enough space", "too little space")),
    "C09": ("all 4096 pixels symbolic; each of the ten values 6..15 for each of the ten bands; sixteen alignments of the tile", "combinations of quantiser values other than the ten rotations (each band depends on its own value only: C12)", ["the assembly is lifted to C from the assembled object by tools/asmlift.py; the lift is validated by running the real object in the native replays"], ("accelerated transform compared",)),
    "C10": ("all 4096 pixels symbolic", "nothing", [], ("transform compared",)),
    "C11": ("all 4096 pixels and all ten quantiser values 6..15 symbolic; the four bottom-right pixels within 15..240 (beyond that: known finding rem-corner-overflow)", "the four bottom-right pixels beyond 15..240", [], ("transform compared",)),
    "C12": ("all 4096 coefficients in -24576..24575 and all ten quantiser values 6..15 symbolic", "coefficients no transform produces", [], ("quantisation compared",)),
    "C13": ("all pixels of a 64 by 64 tile symbolic, four formats", "nothing for full tiles; partial tiles are C14", [], ("all tiles coded",)),
    "C14": ("all pixels symbolic; every width 1..64 with one or two rows, every height 1..64 with two or three columns, with padding and tile offsets; tiles 130 columns right or 130 rows down; alpha (also with three-byte formats); planar, also far tiles; progressive tiles at the corners of the 64 by 64 grid; whole messages over partial tiles", "width and height both symbolic at once", [PICS], ("all tiles coded",)),
    "C15": ("windows of 2..4 symbolic bytes on nine backgrounds, at every column; rows made of literal and run segments of every length pair (2145 shapes), four run values", "many symbolic bytes at once", [PICS], ("run-length coded plane", "raw plane")),
    "C16": ("every sequence of 3 calls (thorough 4) over 3 pictures and key requests; up to 2 symbolic coefficients per tile and call; all capacities in the second call; every allocation failing or not over 2 calls; tiles at the corner positions of the grid and in any order; quantiser changes; failed difference tiles; memory of an encoder that is gone; long sessions of 12 calls", "longer sessions with symbolic choices in every call", [PICS], ("difference tile", "original tile", "header sent")),
    "C17": ("as C01, and (progressive) a tile is left out only where the message up to it does not fit, against an encoder with enough space", "as C01", [STANDIN, PICS], ("some tiles left out", "original tile")),
    "C18": ("width and height -100000..100000, all 2^32 formats, flags 0..1023, every allocation failing or not; 3 calls (thorough 5)", "longer sessions", [], ("created", "out of memory", "format refused", "encoded")),
    "C19": ("the SSE4.1 and SSE2 bits and bit 0 of CPUID leaf 1 with all others 0 or all others 1 (thorough: all 96 bits), both entropy coders, acceleration disabled or not", "features the library does not ask for, on x86 (32 bit)", ["the kernels are stand-ins that record that they ran and deliver the reference coefficients; that they do so is C09"], ("all tiles coded",)),
    "C20": ("two calls, first on a full tile with all pixels symbolic and then on a partial one; 3 calls on two encoders in every interleaving; every pair of pictures and quantisers; quantiser sets that differ in one byte; alpha, quantisers and tile count changing between calls; a failed call before (all capacities); 20 calls in sequence", "longer sequences with symbolic choices", [PICS], ("all tiles coded",)),
    "C21": ("all previous contents of the output buffers, the heap and the stack (symbolic; also fixed contents and the contents of the last freed block of that size); all capacities in the first call; up to 3 calls (thorough 5)", "longer sequences", [PICS], ("messages compared",)),
    "C22": ("five formats, both entropy coders, tile orders, 1..6 tiles, quantiser indices 0..5, sets that differ in one byte, partial tiles", "symbolic pixels (the parts are decided for all pixels by C06, C07, C10, C12, C13 and C14; this property decides how they are put together)", [PICS], ("all tiles coded",)),
    "C23": ("every path of the C21 jobs", "data reached through the caller's pointers", [PICS], ("calls compared",)),
}
for _p, _j in (("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05), ("C06", rlgr_jobs(1)), ("C07", rlgr_jobs(3)), ("C08", c08), ("C09", c09), ("C10", c10), ("C11", c11), ("C12", c12), ("C13", c13),
               ("C14", c14), ("C15", c15), ("C16", c16), ("C17", c17), ("C18", c18), ("C19", c19), ("C20", c20), ("C21", c21), ("C22", c22), ("C23", c23)):
    _b = ABOUT[_p]
    PROPS[_p] = Prop(_j, METHOD, {"within": _b[0], "outside": _b[1]}, _b[2], _b[3])
