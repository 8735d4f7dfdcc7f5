import itertools
import math
from fractions import Fraction

from vf import Q

PROPS = {}


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f
    return d


def get(pid, tier):
    return PROPS[pid](tier == "thorough")


@prop("C01")
def c01(deep):
    names = ["", "flip_x", "flip_y", "transpose", "transverse", "rot90", "rot180", "rot270"]
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (1, 7), (7, 1),
              (5, 5), (8, 5), (13, 11), (260, 1), (1, 260)]
    if deep:
        shapes += [(17, 16), (16, 17), (31, 9), (9, 31), (130, 4), (4, 130), (24, 24)]
    qs = [Q("%s_%dx%d" % (names[c], w, h), "geom.c", dict(CASE=c, W=w, H=h), cost=w * h)
          for c in range(1, 8) for w, h in shapes]
    return dict(queries=qs, bounds="shapes %s, all pixel bytes and the observed position symbolic" % shapes,
                assumptions=[])


def grid(*specs):
    return list(specs)


@prop("C06")
def c06(deep):
    sh = [(1, 1), (2, 2), (3, 5), (7, 9)] + ([(16, 16), (300, 1)] if deep else [(67, 1)])
    return dict(queries=[Q("gray_%dx%d" % s, "pix.c", dict(CASE=1, W=s[0], H=s[1]), cost=s[0] * s[1], sat="z3") for s in sh])


@prop("C08")
def c08(deep):
    sh = [(5, 4)]
    return dict(queries=[Q("thr_%dx%d" % s, "pix.c", dict(CASE=2, W=s[0], H=s[1]), unwind=40, cost=s[0] * s[1]) for s in sh])


@prop("C13")
def c13(deep):
    sh = [(1, 1), (2, 3), (4, 4), (9, 7)]
    return dict(queries=[Q("bin_%dx%d" % s, "pix.c", dict(CASE=4, W=s[0], H=s[1]), unwind=80, cost=s[0] * s[1]) for s in sh])


@prop("C14")
def c14(deep):
    return dict(queries=[Q("hex_%d" % n, "hex.c", dict(LEN=n), unwind=14) for n in (0, 1, 5, 6, 7, 8, 9, 12)])


@prop("C15")
def c15(deep):
    sh = [(1, 1), (2, 3), (4, 4), (9, 7)]
    return dict(queries=[Q("multi_%dx%d" % s, "pix.c", dict(CASE=3, W=s[0], H=s[1]), cost=s[0] * s[1]) for s in sh])


@prop("C02")
def c02(deep):
    qs = [Q("any_%dx%dx%d" % s, "crop.c", dict(CASE=1, W=s[0], H=s[1], C=s[2]), unwind=s[1] + 2, cost=5)
          for s in [(1, 1, 4), (2, 2, 4), (3, 2, 1), (3, 3, 4), (2, 4, 3), (5,4,4)]]
    qs += [Q("sz_%dx%dx%d_%dx%d" % s, "crop.c", dict(CASE=2, W=s[0], H=s[1], C=s[2], NW=s[3], NH=s[4]), unwind=400)
           for s in [(9, 7, 4, 3, 2), (9, 7, 4, 9, 7), (9, 7, 4, 4, 7), (9, 7, 3, 9, 1)]]
    return dict(queries=qs)


@prop("C03")
def c03(deep):
    l = [(1, 1, 4, 1), (2, 3, 4, 1), (3, 2, 3, 2), (2, 2, 4, 3), (1, 4, 3, 1), (2, 2, 1, 1), (3, 1, 1, 2), (5, 4, 4, 2)]
    return dict(queries=[Q("border_%dx%dx%d_b%d" % s, "border.c", dict(W=s[0], H=s[1], C=s[2], BW=s[3]), unwind=80) for s in l])


def trimopts(w, h, c):
    return dict(unwind=40, max_unwind=64, sat="kissat", opts=["--slice-formula"], lunw=max((w + h) // 2 + 1, h + 1, c + 1) if w * h > 1 else 6,
                hints={r"left < right": w + 1, r"top < bottom": h, r"y = top": h + 1, r"x = left": w + 1, r"< channels": c + 1, r"< new_height": h + 1})


def trimq(case, w, h, c, maxv=None, pct=None, **kw):
    d = dict(CASE=case, W=w, H=h, C=c, ROUNDS=(w + h) // 2 + 1)
    if maxv:
        d["MAXV"] = maxv
    if pct is not None:
        d["PCT4"] = pct
    return Q("trim%d_%dx%dx%d%s%s" % (case, w, h, c, "_v%d" % maxv if maxv else "", "" if pct is None else "_p%d" % pct), "trim.c", d, cost=w * h * c, **dict(trimopts(w, h, c), **kw))


@prop("C04")
def c04(deep):
    qs = [trimq(1, *s) for s in [(1, 1, 4), (2, 1, 4), (1, 3, 4), (2, 2, 1), (2, 2, 4), (3, 2, 1), (2, 2, 3), (3, 3, 1, 1), (4, 3, 1, 1), (3, 4, 1, 1)] + ([(2, 3, 3), (3, 3, 1, 3), (4, 4, 1, 1), (3, 3, 1), (2, 3, 4, 3)] if deep else [])]
    qs.append(Q("reject", "trim.c", dict(CASE=3, W=2, H=2, C=4), unwind=2, minunw=True, max_unwind=20))
    return dict(queries=qs)


@prop("C05")
def c05(deep):
    qs = [trimq(2, *s) for s in [(1, 1, 4), (2, 1, 4), (1, 2, 3), (2, 2, 1)]]
    for s, ps in [((3, 3, 1), (0, 20, 400, 80) if deep else (400,)), ((3, 2, 1), (1, 399, -3)), ((2, 3, 1), (2, 198)), ((2, 2, 3), (40, 403))]:
        for p in ps:
            qs.append(trimq(2, *s, pct=p))
    qs.append(Q("reject", "trim.c", dict(CASE=3, W=2, H=2, C=4), unwind=2, minunw=True, max_unwind=20))
    return dict(queries=qs)


def drawq(disk, w, h, c, r, **kw):
    d = dict(CASE=1, DISK=disk, W=w, H=h, C=c, R=r, XLO=-4 * (r + 2), XHI=4 * (w + r + 2), YLO=-4 * (r + 2), YHI=4 * (h + r + 2))
    if c == 1:
        d["GREY"] = 200
    d.update(kw.pop("d", {}))
    return Q("%s_%dx%dx%d_r%d%s" % ("disk" if disk else "circle", w, h, c, r, kw.pop("tag", "")), "draw.c", d,
             unwind=max(20, 2 * r + 6), cost=w * h * c * (r + 1) * (1 + disk), opts=["--slice-formula"], **kw)


def centres(w, h, r):
    """centre positions in quarters: inside, on every edge, beyond every side"""
    l = [(2 * w, 2 * h, 0), (0, 0, 1), (4 * w - 4, 4 * h - 1, 3), (-4 * r, 2 * h + 1, 0), (2 * w, -4 * r - 3, 2),
         (4 * (w - 1 + r), 4, 0), (5, 4 * (h - 1 + r) + 2, 3), (-3, 3, 0), (4 * w + 4, 4 * h + 4, 2), (4, 4, 1)]
    return l


@prop("C16")
def c16(deep):
    qs = []
    for disk, shapes in ((0, [(5, 5, 4, 0), (5, 4, 4, 1), (6, 7, 3, 2), (9, 8, 1, 3), (9, 9, 1, 4), (12, 11, 1, 5)] + ([(20, 18, 1, 8)] if deep else [])),
                         (1, [(5, 5, 4, 0), (5, 4, 4, 1), (6, 5, 3, 2), (7, 8, 1, 3), (11, 12, 3, 4)])):
        if deep:
            shapes = shapes + [(25, 25, 3, 11), (33, 31, 1, 15)]
        for s in shapes:
            for k, (cx, cy, r4) in enumerate(centres(s[0], s[1], s[3])):
                if not deep and k in (1, 6, 9) and s[3] not in (1, 2):
                    continue
                qs.append(drawq(disk, *s, d=dict(CX4=cx, CY4=cy, R4=r4), tag="_c%d" % k))
    if deep:
        qs += [drawq(0, 3, 3, 1, 0), drawq(1, 3, 3, 1, 0)]
    for disk in (0, 1):
        qs.append(Q("undrawable_%d" % disk, "draw.c", dict(CASE=3, DISK=disk, W=3, H=3, C=4), unwind=10))
    return dict(queries=qs)


HUGE = [(1, 4, "grayscale"), (2, 4, "grayscale_stretch"), (3, 4, "blur0"), (4, 4, "blur2"), (5, 4, "bw_smart"),
        (6, 4, "flip_x"), (7, 4, "flip_y"), (8, 4, "transpose"), (9, 4, "transverse"), (10, 4, "rot90"),
        (11, 4, "rot180"), (12, 4, "rot270"), (13, 4, "single_to_multi"), (14, 1, "rgba_to_gray"),
        (15, 1, "to_binary"), (16, 1, "dilation"), (17, 1, "erosion"), (18, 1, "sobel1"), (19, 1, "sobel4"),
        (20, 4, "watershed"), (22, 1, "crop1"),
        (22, 3, "crop3"), (22, 4, "crop4"), (24, 4, "apply_matrix"), (25, 8, "foerstner"), (26, 1, "corner_peaks")]


@prop("C30")
def c30(deep):
    qs = [Q("alloc_" + n, "huge.c", dict(CASE=c, BPP=b), variant="alloc", unwind=12,
            sat=("z3", "cvc5") if n in ("dilation", "erosion", "to_binary", "apply_matrix", "foerstner", "corner_peaks") else ("cvc5", "z3")) for c, b, n in HUGE]
    for c in (1, 3, 4):
        for bw, h in ((1, 65535), (7, 7), (0x3fffffff, 3), (0x7fffffff, 1), (0xffffffff, 1)):
            qs.append(Q("alloc_border%d_b%x" % (c, bw), "huge.c", dict(CASE=21, BPP=c, BWC="%du" % bw, HC="%du" % h), variant="alloc",
                        unwind=12, sat=("z3", "cvc5"), timeout=120))
    for h in [1, 7]:
        qs.append(Q("alloc_resize_%s" % h, "huge.c", dict(CASE=23, BPP=4, FX="1.0", FY="1.0", HC="%du" % h), variant="alloc",
                    unwind=4, sat=("z3", "cvc5"), timeout=120))
    return dict(queries=qs)


def resizeq(w, h, fx, fy, ew, eh, deep=False, **kw):
    d = dict(CASE=1, W=w, H=h, FX=fx, FY=fy, EW=ew, EH=eh, SHRINK=int(eval(fx) < 1 or eval(fy) < 1))
    d.update(kw.pop("d", {}))
    if "BILEVEL" in d and (deep or ((w, h) not in ((7, 5), (6, 6), (9, 1), (2, 3)) and ew * eh < 18)):
        d["EXACT"] = 1
    return Q("rs_%dx%d_to_%dx%d%s" % (w, h, ew, eh, kw.pop("tag", "")), "resize.c", d, unwind=max(40, w * h * 4 + 2), cost=ew * eh, **kw)


@prop("C12")
def c12(deep):
    one = lambda **k: dict(ONECH=1, **k)
    bi = lambda a, b, c=0: dict(ONECH=c, BILEVEL=1, LV0=a, LV1=b)
    qs = [resizeq(3 if deep else 2, 2, "1.0", "1.0", 3 if deep else 2, 2, d=dict(IDENT=1)),
          resizeq(1, 1, "1.0", "1.0", 1, 1, d=dict(IDENT=1)),
          resizeq(4, 4, "0.5", "0.5", 2, 2, d=one()),
          resizeq(3, 3, "(2.0/3)", "(2.0/3)", 2, 2, d=one()),
          resizeq(5, 1, "(3.0/5)", "1.0", 3, 1, d=one() if deep else bi(9, 250)),
          resizeq(1, 5, "1.0", "0.5", 1, 2, d=one()),
          resizeq(2, 1, "2.0", "1.0", 4, 1, d=one())]
    bl = [(3, 2, "1.0", "2.0", 3, 4), (3, 1, "1.0", "3.0", 3, 3), (1, 3, "2.0", "1.0", 2, 3), (2, 2, "2.0", "2.0", 4, 4), (2, 2, "1.5", "1.5", 3, 3), (3, 3, "2.0", "1.0", 6, 3), (3, 3, "1.0", "3.0", 3, 9),
          (4, 3, "0.5", "2.0", 2, 6), (3, 4, "2.0", "0.5", 6, 2), (5, 4, "0.4", "0.75", 2, 3), (7, 5, "0.3", "0.3", 2, 1),
          (2, 3, "3.7", "1.9", 7, 5), (6, 6, "(1.0/6)", "(1.0/6)", 1, 1), (3, 2, "(11.0/3)", "(7.0/2)", 11, 7), (9, 1, "(7.0/9)", "1.0", 7, 1)]
    for s in bl:
        if s != (3, 2, "(11.0/3)", "(7.0/2)", 11, 7) or deep:
            if deep or s[:2] not in ((5, 4),):
                qs.append(resizeq(*s, deep=deep, tag="_b", d=bi(0, 255)))
            if deep or s[:2] not in ((5, 4), (7, 5), (2, 3), (6, 6)):
                qs.append(resizeq(*s, deep=deep, tag="_c", d=bi(201, 37, 2)))
    qs.append(Q("reject", "resize.c", dict(CASE=2, FAILALLOC=1), unwind=4, variant="alloc"))
    for w in (1, 2, 3, 7, 10, 11, 49, 100, 151, 640, 1021) if deep else (1, 3, 10, 11, 151, 1021):
        for ax in (0, 1):
            qs.append(Q("dims_%d_%d" % (w, ax), "resize_dims.c", dict(AXIS=ax, WC=w, NMAX=1 << 14 if deep else 4096),
                        variant="alloc", unwind=4, cost=0))
    return dict(queries=qs)


@prop("C19")
def c19(deep):
    sh = [(1, 1, 0), (3, 3, 0), (1, 1, 2), (3, 2, 1), (4, 4, 1), (5, 3, 2), (3, 5, 1), (1, 6, 2), (6, 1, 3), (5, 5, 2), (8, 7, 1), (7, 7, 2), (3, 3, 3)]
    if deep:
        sh += [(7, 6, 2), (7, 7, 3), (9, 9, 1), (12, 5, 2), (16, 16, 1), (9, 9, 4)]
    n = ["", "dilate", "erode", "close", "open"]
    qs = [Q("%s_%dx%d_r%d" % ((n[c],) + s), "morph.c", dict(CASE=c, W=s[0], H=s[1], R=s[2]), unwind=2 * s[2] + 4 + s[0] * s[1],
            cost=s[0] * s[1] * (s[2] + 1)) for c in (1, 2, 3, 4) for s in sh]
    qs.append(Q("reject", "morph.c", dict(CASE=5, W=2, H=2, R=1), unwind=8, variant="alloc"))
    return dict(queries=qs)


@prop("C22")
def c22(deep):
    qs = []
    for w, h, sig, half in [(1, 1, "1.0", 1), (2, 2, "1.0", 1), (1, 4, "2.0", 3), (5, 1, "0.5", 1), (3, 3, "1.0", 1), (4, 3, "0.0", 1),
                            (5, 4, "2.0", 3), (7, 7, "2.0", 3), (6, 5, "1.7", 2), (3, 9, "1.0", 1), (2, 3, "100.0", 150), (4, 4, "-5.0", 1)]:
        qs.append(Q("safe_%dx%d_s%s" % (w, h, sig), "foerstner.c", dict(CASE=1, W=w, H=h, SIG=sig, HALF=half), unwind=w * h * 2 + 8))
    for w, h in [(1, 1), (3, 3)] + ([(4, 3)] if deep else []):
        qs.append(Q("const_%dx%d" % (w, h), "foerstner.c", dict(CASE=3, W=w, H=h), unwind=w * h * 2 + 8))
    qs.append(Q("value_3x3_v255", "foerstner.c", dict(CASE=2, W=3, H=3, LV=255), unwind=26, cost=9))
    for q in qs:
        q.opts = ["--slice-formula"]
    qs.append(Q("reject", "foerstner.c", dict(CASE=4, W=4, H=4), unwind=8, variant="alloc", sat=("z3", "cvc5")))
    return dict(queries=qs)


@prop("C26")
def c26(deep):
    qs = [Q("four_g%d" % g, "sortc.c", dict(CASE=1, NC=4, G=g), variant="fp", unwind=8, cost=g, timeout=600, opts=["--slice-formula"]) for g in ((1, 2, 3) if deep else (1,))]
    qs += [Q("three_g%d" % g, "sortc.c", dict(CASE=2, NC=3, G=g), variant="fp", unwind=8, cost=g, timeout=600, opts=["--slice-formula"]) for g in ((1, 2, 3) if deep else (1, 2))]
    bases = ["0,0,3,0,3,3,0,3", "1,0,3,1,2,3,0,2", "0,2,2,0,3,1,1,3", "0,0,3,1,2,2,0,1"]
    orders = ["".join(p) for p in itertools.permutations("0123")]
    for k, b in enumerate(bases):
        for n, o in enumerate(orders if deep else [["0123", "3210"], ["2031"], ["1302"], ["3120"]][k]):
            qs.append(Q("near_%d_%s" % (k, o), "sortc.c", dict(CASE=1, NC=4, G=4, BASE="{%s}" % b, ORD="{%s}" % ",".join(o), FREE=255),
                        variant="fp", unwind=8, timeout=600, opts=["--slice-formula"], cost=1 + n))
    qs += [Q("few_%d" % n, "sortc.c", dict(CASE=3, NC=n, G=3), variant="fp", unwind=8) for n in (0, 1, 2)]
    return dict(queries=qs)


@prop("C20")
def c20(deep):
    qs = []

    def ws(w, h, nm, lv, bnd, mk=None, line=False, mp=None, frac=False):
        d = dict(CASE=1, W=w, H=h, NM=nm, LEVELS=lv, BND=bnd)
        if mk is not None:
            d["MK"] = "{%s}" % ",".join(map(str, mk))
        if mp is not None:
            d["MAP"] = "{%s}" % ",".join(map(str, mp))
        if line:
            d["LINE"] = 1
        if frac:
            d["FRAC"] = 1
        n = w * h
        hints = {"current_level": 257 if mp else lv + 1, "while *.changed": n - nm + 2, "is_queue_empty": max(n, nm) + 1}
        return Q("ws_%dx%d_m%d_l%d_b%d%s%s" % (w, h, nm, lv, bnd, "" if mk is None else "_" + "_".join(map(str, mk)), "" if mp is None else "_map" + "_".join(map(str, mp))), "watershed.c", d,
                 unwind=300, lunw=max(n, nm, 5, w, h) + 1, hints=hints, partial=not mp, cost=n * nm * lv, timeout=400, opts=["--slice-formula"])
    for b in (0, 1):
        qs += [ws(1, 1, 1, 2, b, [0]), ws(2, 2, 1, 3, b, [1]), ws(2, 2, 2, 3, b, [0, 3]), ws(3, 2, 2, 2, b, [0, 5]),
               ws(2, 1, 2, 2, b, [1, 0])]
    qs += [ws(4, 1, 2, 3, 0, [0, 3], True), ws(5, 1, 2, 3, 0, [1, 4], True), ws(1, 5, 2, 3, 0, [4, 0], True)]
    qs += [ws(2, 2, 2, 1, 0, mp=[255] * 4), ws(2, 2, 1, 1, 1, mp=[255, 254, 255, 253], frac=True), ws(3, 2, 2, 1, 1, mp=[255, 254, 255, 254, 254, 255]),
           ws(1, 4, 1, 1, 0, mp=[254, 255, 255, 253])]
    if deep:
        qs += [ws(3, 3, 2, 2, 0, [0, 7]), ws(3, 2, 2, 3, 0, [0, 5]), ws(3, 2, 2, 3, 1, [0, 5]), ws(3, 2, 2, 2, 0), ws(3, 2, 2, 2, 1), ws(3, 3, 3, 1, 0, mp=[255] * 9)]
    qs.append(Q("markers", "watershed.c", dict(CASE=2, W=3, H=4), unwind=8, variant="alloc"))
    return dict(queries=qs)


@prop("C21")
def c21(deep):
    def pk(w, h, dist, acc, rou, maxv=None):
        d = dict(CASE=1, W=w, H=h, DIST=dist, ACC=acc, ROU=rou)
        if maxv:
            d["MAXV"] = maxv
        return Q("peaks_%dx%d_d%d_a%d_r%d" % (w, h, dist, acc, rou), "peaks.c", d, unwind=max(70, w * h * 2 + 4), lunw=max(w, h, 3, (w - 2) * (h - 2)) + 1, variant="pool", cost=w * h, timeout=170, opts=["--slice-formula"])
    qs = [pk(1, 1, 1, 10, 10), pk(2, 5, 1, 10, 10), pk(1, 4, 0, 0, 0), pk(3, 3, 1, 20, 128), pk(4, 3, 2, 20, 128), pk(3, 4, 0, 100, 5, 120),
          pk(5, 3, 3, 1, 1, 3), pk(3, 5, 2, 1, 1, 3), pk(4, 4, 2, 1, 1, 3)]
    if deep:
        qs += [pk(5, 4, 2, 1, 1, 3), pk(5, 5, 3, 1, 1, 2), pk(6, 3, 3, 1, 1, 255)]
    qs.append(Q("reject", "peaks.c", dict(CASE=2), unwind=8, variant="alloc"))
    return dict(queries=qs)


@prop("C25")
def c25(deep):
    qs = []
    for s in [(1, 1, 1, 1), (3, 2, 1, 1), (2, 3, 1, 2)] + ([(3, 2, 2, 1), (2, 2, 2, 2)] if deep else []):
        qs.append(Q("any_%dx%d_to_%dx%d" % s, "warp.c", dict(zip(("CASE", "W", "H", "OW", "OH"), (1,) + s)), unwind=60, cost=s[2] * s[3] * 5, opts=["--slice-formula"]))
    sl = ["--slice-formula"]
    for s in [(1, 1, 1, 1), (2, 2, 1, 1)] + ([(2, 2, 2, 2)] if deep else []):
        qs.append(Q("shift_%dx%d_to_%dx%d" % s, "warp.c", dict(CASE=2, W=s[0], H=s[1], OW=s[2], OH=s[3], TMAX=6, ONECH=1), unwind=60, cost=s[2] * s[3], opts=sl))
    for s in [(3, 2, 3, 2, 0, 0), (2, 3, 3, 3, -1, 0), (3, 3, 2, 2, 1, 1), (4, 2, 3, 3, 2, -1)]:
        for ch in (0, 1, 2, 3) if deep else (s[4] + s[5] + 1,):
            qs.append(Q("move_%dx%d_to_%dx%d_by_%d_%d_c%d" % (s + (ch,)), "warp.c", dict(CASE=2, W=s[0], H=s[1], OW=s[2], OH=s[3], TX=s[4], TY=s[5], TMAX=6, ONECH=ch), unwind=60, cost=s[2] * s[3], opts=sl))
    for k, (s, q, sc) in enumerate([((3, 3, 3, 3), (2, 0, 0, 0, 2, 0), 1), ((3, 2, 4, 3), (4, 1, -1, -1, 4, 2), 2),
                                    ((4, 3, 3, 3), (0, 4, 1, 4, 0, 1), -1), ((4, 4, 3, 3), (7, 0, -3, 0, 5, 3), 1), ((3, 3, 4, 4), (3, -1, 3, 1, 3, -1), 4), ((2, 5, 3, 3), (3, 0, 0, 0, 9, 1), 1)]):
        for ch in (k % 4,) if not deep else (0, 1, 2, 3):
            d = dict(CASE=3, W=s[0], H=s[1], OW=s[2], OH=s[3], QM="{%s}" % ",".join(map(str, q)), SC=sc, ONECH=ch)
            qs.append(Q("blend_%d_c%d_b" % (k, ch), "warp.c", dict(d, LV0=0, LV1=255), unwind=80, cost=10, opts=sl))
            qs.append(Q("blend_%d_c%d_l" % (k, ch), "warp.c", dict(d, LV0=201, LV1=37), unwind=80, cost=10, opts=sl))
    if deep:
        qs.append(Q("blend_all", "warp.c", dict(CASE=3, W=2, H=2, OW=1, OH=1, QM="{4,0,1,0,4,3}", SC=1, ONECH=2), unwind=80, cost=10, opts=sl))
    for w, h in [(1, 1), (3, 2), (2, 4), (4, 3)]:
        qs.append(Q("half_turn_%dx%d" % (w, h), "warp.c", dict(CASE=5, W=w, H=h, OW=w, OH=h, ONECH=w % 4), unwind=80, opts=sl))
    qs.append(Q("reject", "warp.c", dict(CASE=4, W=1, H=1), unwind=8, variant="alloc", sat=("z3", "cvc5")))
    return dict(queries=qs)


def sobelq(w, h, c, s, k, order=False, grey=False, free=None, **kw):
    d = dict(CASE=1, W=w, H=h, C=c, S=s, K=k, SQTAB="{%s}" % ",".join(float.hex(math.sqrt(n * s * s)) for n in range(32 * k * k + 1)))
    if order:
        d["ORDER"] = 1
    if grey:
        d["GREY"] = 1
    if free:
        d["FREE"], d["PAT"] = free
    return Q("sobel_%dx%dx%d_s%d_k%d%s" % (w, h, c, s, k, "_o" if order else ""), "sobel.c", d, unwind=80, cost=w * h * k, opts=["--slice-formula"], **kw)


@prop("C18")
def c18(deep):
    qs = [sobelq(1, 1, 1, 1, 4), sobelq(2, 1, 1, 255, 1), sobelq(1, 3, 1, 255, 1), sobelq(2, 1, 3, 1, 2), sobelq(1, 2, 4, 1, 2)]
    f = lambda w, h, c, s, k, free, pat, **kw: sobelq(w, h, c, s, k, free=(free, pat), **kw)
    qs += [f(2, 2, 1, 255, 1, 3, 8)]
    if deep:
        qs += [f(2, 2, 3, 255, 1, 12, 1, grey=True), f(2, 2, 1, 127, 2, 1, 2, order=True)]
    qs.append(Q("reject", "sobel.c", dict(CASE=2, W=1, H=1, C=1), variant="alloc", unwind=8))
    return dict(queries=qs)


@prop("C24")
def c24(deep):
    qs = []

    def f(name, case, **kw):
        o = {k: kw.pop(k) for k in list(kw) if k in ("unwind", "lunw", "hints", "cost")}
        o.setdefault("unwind", 70)
        d = dict(CASE=case)
        d.update(kw)
        qs.append(Q("fail_" + name, "faults.c", d, variant="fault", opts=["--slice-formula"], **o))
    for i, n in enumerate(["flip_x", "flip_y", "transpose", "transverse", "rot90", "rot180", "rot270"]):
        f(n, i + 1)
    f("crop", 8)
    f("trim", 9, W=3, H=3, FRAME=1)
    f("trim_threshold", 10, W=3, H=3, FRAME=1)
    f("border", 11)
    f("grayscale", 12)
    f("stretch", 13, unwind=260)
    f("blur0", 14, RAD=0)
    f("blur1", 14, RAD=1)
    f("blur2_3x2", 14, RAD="2.5", W=3)
    # one query per first failing request (a partition of all schedules), so
    # that the requests before it have constant results
    def first(name, case, total, **kw):
        for k in range(total + 1):
            f("%s_at%d" % (name, k), case, FIRST=k, NTOTAL=total, **kw)
    for b in (0, 1):
        first("otsu%d" % b, 15, 2, DBL=b, unwind=260)
        first("bw_smart%d" % b, 16, 8, DBL=b, unwind=260)
        first("watershed%d" % b, 28, 6, DBL=b, W=3, H=3, unwind=260)
    f("resize_up", 17, FX="2.0", FY="2.0")
    f("resize_down", 17, FX="0.5", FY="0.5")
    f("to_gray", 18)
    f("to_multi", 19)
    f("to_binary", 20)
    f("dilate", 21)
    f("erode", 22)
    f("close", 23)
    f("open", 24)
    for c in (1, 3, 4):
        f("sobel%d" % c, 25, CH=c)
    first("foerstner", 26, 13, W=3, H=3)
    f("peaks", 27, NRES=2)
    f("warp", 29)
    f("transform", 34)
    f("sort_corners", 35)
    f("histogram_all", 30, ALLFAIL=1, MUSTFAIL=1)
    return dict(queries=qs)


def exifq(name, ln, fixed, ne, ms, limit=None, **kw):
    d = dict(LEN=ln, FIX=len(fixed), FIXED=",".join("0x%02X" % b for b in fixed) or "0", NE=ne, MS=ms)
    lun = max(ms, ne) + 2
    if limit:
        d["LIMIT"] = limit
        lun = limit // 2 + 2
    return Q("exif_" + name, "exif.c", d, variant="file", unwind=max(ln, ne, ms, 6) + 3, lunw=lun, opts=["--slice-formula", "--object-bits", "12"], cost=ln * ms, **kw)


@prop("C28")
def c28(deep):
    soi, app1, ex = [0xFF, 0xD8], [0xFF, 0xE1], [0x45, 0x78, 0x69, 0x66, 0, 0]
    ii, mm = [0x49, 0x49, 42, 0, 8, 0, 0, 0], [0x4D, 0x4D, 0, 42, 0, 0, 0, 8]
    big = [0xFF, 0xFF]
    qs = [exifq("any%d" % n, n, [], 2, 4) for n in (0, 1, 2, 9, 12)]
    qs += [exifq("ends%d" % n, n, soi, 1, 4, limit=16) for n in (3, 4, 5, 6)]
    qs += [exifq("any30", 30, [], 1, 3), exifq("jpeg36", 36, soi, 1, 2),
           exifq("app1_%d" % 48, 48, soi + app1, 2, 1),
           exifq("ii", 12 + 8 + 2 + 36, soi + app1 + big + ex + ii, 3, 1), exifq("mm", 12 + 8 + 2 + 36, soi + app1 + big + ex + mm, 3, 1)]
    return dict(queries=qs)


KINDS = ["SIMPLE", "BLUR", "RESIZE", "CORNERS", "DRAWCORNERS", "DRAW", "SOBEL", "MORPH", "WATERSHED", "CROP", "XTO", "SIZED", "ROTATE", "TRIM", "BORDER", "UNKNOWN"]


@prop("C29")
def c29(deep):
    qs = []

    def f(name, op, kind, **kw):
        d = {k + "_KIND": i + 1 for i, k in enumerate(KINDS)}
        d["KIND"] = d[kind + "_KIND"]
        if op:
            d["OP"] = '"%s"' % op
        for k, v in kw.items():
            d[k] = '"%s"' % v if k in ("STR", "COLOUR") else v
        qs.append(Q("op_" + name, "cliops.c", d, variant="cli", unwind=40, opts=["--slice-formula"]))
    for op, fn, flag in (("grayscale", "GRAY", None), ("threshold", "OTSU", 0), ("bw_smart", "SMART", 0), ("bw_smooth", "SMART", 1), ("flip_x", "FLIPX", None), ("flip_y", "FLIPY", None)):
        f(op, op, "SIMPLE", FN=fn, **({} if flag is None else {"FLAG": flag}))
    f("blur", "blur", "BLUR")
    f("resize_num", "resize", "RESIZE")
    for n, s, xn, xd, yn, yd in (("pct", "25%", 25, 100, 25, 100), ("pct2", "50%x80%", 50, 100, 80, 100), ("abs", "200x300", 200, "w0", 300, "h0"), ("abs_sp", "7 x 9", 7, "w0", 9, "h0")):
        f("resize_" + n, "resize", "RESIZE", STR=s, XN=xn, XD=xd, YN=yn, YD=yd, **(dict(FW=3, FH=2) if "abs" in n else {}))
    f("resize_bad", "resize", "RESIZE", STR="abc", BADSTR=1)
    f("detect_corners", "detect_corners", "CORNERS", FW=3, FH=2)
    f("draw_corners", "draw_corners", "DRAWCORNERS", FW=3, FH=2)
    f("circle", "circle", "DRAW", FN="CIRCLE", STR="00ff7f 4.00 2.50", COLOUR="00ff7f", FW=2, FH=3)
    f("disk", "disk", "DRAW", FN="DISK", STR="f80 4.00 2.50", COLOUR="f80", FW=2, FH=3)
    f("sobel", "sobel", "SOBEL")
    for op in ("erode", "dilate", "close", "open"):
        f(op, op, "MORPH", FN=op.upper())
    f("watershed1", "watershed", "WATERSHED", STR="3x5", NMARK=1, MARKS="3,5")
    f("watershed3", "watershed", "WATERSHED", STR="4x2 16x7 3x25", NMARK=3, MARKS="4,2,16,7,3,25")
    f("watershed_gap", "watershed", "WATERSHED", STR="  8x2 oops  4x9", NMARK=2, MARKS="8,2,4,9")
    f("watershed0", "watershed", "WATERSHED", STR="12 34", NMARK=0, MARKS="0")
    f("crop", "crop", "CROP")
    f("extract_document", "extract_document", "SIZED", FN="XAUTO")
    f("extract_document_to", "extract_document_to", "XTO")
    f("rotate_range", "rotate", "ROTATE", FW=3, FH=2, ANGLES=1)
    f("rotate", "rotate", "ROTATE", FW=3, FH=2, ANGLES=2)
    f("rotate_turns", "rotate", "ROTATE", FW=3, FH=2, ANGLES=8)
    f("trim", "trim", "TRIM", PERCENT=0)
    f("trim_pct", "trim", "TRIM", STR="12%", PERCENT="12.0")
    f("histogram", "histogram", "SIZED", FN="HIST", CHANNELS=1)
    f("border", "border", "BORDER", STR="ff0080")
    for k in (0, 3, 4, 6, 9):
        f("unknown%d" % k, None, "UNKNOWN", ANYOP=k) if k else f("unknown0", "", "UNKNOWN", OP='""')
    g = lambda name, **kw: qs.append(Q("cli_" + name, "climain.c", {k: '"%s"' % v if k in ("INPUT", "PIPE", "OUTPUT") else v for k, v in kw.items()},
                                       variant="cli", unwind=40, opts=["--slice-formula"]))
    g("pipeline", CASE=1)
    for e in ("jpg", "jpeg", "JPG", "JPEG"):
        g("exif_" + e, CASE=2, INPUT="a.b/x." + e, PIPE="flip_x", OUTPUT="o.png", JPG=1, FN="FLIPX", FORMAT=1)
    g("png", CASE=2, INPUT="x.png", PIPE="grayscale", OUTPUT="o.jpg", JPG=0, FN="GRAY", FORMAT=2)
    g("jpeg_out", CASE=2, INPUT="x.png", PIPE="bw_smart", OUTPUT="o.jpeg", JPG=0, FN="SMART", FORMAT=2)
    g("other_out", CASE=2, INPUT="x", PIPE="blur 2", OUTPUT="o", JPG=0, FN="BLUR", FORMAT=1)
    g("too_few", CASE=3, ARGC=2, PIPE="grayscale")
    g("no_output", CASE=3, ARGC=3, PIPE="grayscale")
    g("unknown", CASE=3, ARGC=4, PIPE="grayscal")
    g("empty", CASE=3, ARGC=4, PIPE=" , ")
    g("bad", CASE=3, ARGC=4, PIPE="crop 3y4")
    return dict(queries=qs)


@prop("C27")
def c27(deep):
    qs = []

    def f(name, case, *args, **kw):
        d = dict(CASE=case, **kw)
        for i, a in enumerate(args):
            d["A%d" % i] = '"%s"' % a
        if "NAME" in d:
            d["NAME"] = '"%s"' % d["NAME"]
        n = sum(len(a) + 1 for a in args)
        qs.append(Q(name, "cliparse.c", d, variant="cli", unwind=n + 3 if case < 4 else max(35, kw["TEXTLEN"] + 3), lunw=max(n, kw.get("TEXTLEN", 0)) + 2, opts=["--slice-formula"],
                    hints={"strtok": {1: (sum(map(len, args)) + len(args) - 1) // 2 + 2, 2: 2, 4: kw.get("MAXOPS", 1) + 1}.get(case, 2)},
                    calls={"add_operation": "rec_add"} if case < 3 else None))
    f("generic4", 1, "????")
    f("generic_2_1", 1, "??", "?")
    f("generic_args", 1, "a", "q", "?")
    f("generic_seps", 1, "?a?,?q?")
    if deep:
        f("generic_paren", 1, "(a?5?)")
        f("generic_paren2", 1, "(a?5?6?)?")
        f("generic_args2", 1, "a?7", "q?", "?")
        f("generic_tail2", 1, "aq 7,", "?,(q??)")
        f("generic_params2", 1, "a 7?8?6?")
    f("generic_params", 1, "a 7?8?")
    f("generic_tail", 1, "a,", "(q?)")
    for op, kind in (("circle", 2), ("disk", 2)):
        if deep or op == "circle":
            f(op + "1", 2, op + " f? 7 5x8", NAME=op, OPKIND=kind)
        if deep:
            f(op + "2", 2, op + " f 7??5x8", NAME=op, OPKIND=kind)
        if deep or op == "disk":
            f(op + "3", 2, op + " f 7 5?8?", NAME=op, OPKIND=kind)
    f("border1", 2, "border ???", NAME="border", OPKIND=1)
    f("border2", 2, "border f??7?", NAME="border", OPKIND=1)
    f("resize", 2, "resize ????", NAME="resize", OPKIND=3)
    f("resize2", 2, "resize", "5?x?7", NAME="resize", OPKIND=3)
    f("trim", 2, "trim ???", NAME="trim", OPKIND=4)
    f("watershed", 2, "watershed ????", NAME="watershed", OPKIND=5)
    f("crop0", 2, "crop ##x##", NAME="crop", OPKIND=6)
    f("crop1", 2, "crop #x#+##", NAME="crop", OPKIND=6)
    f("crop2", 2, "crop", "#x#+#-#", NAME="crop", OPKIND=6)
    f("xto", 2, "extract_document_to #x##", NAME="extract_document_to", OPKIND=7)
    f("xto2", 2, "extract_document_to ??" + ("??" if deep else ""), NAME="extract_document_to", OPKIND=7)
    f("xauto", 2, "extract_document ??", NAME="extract_document", OPKIND=8)
    f("geo4", 3, "????")
    f("geo_w", 3, "###x#")
    f("geo_h", 3, "#x??")
    f("geo_big", 3, "42949672##x#")
    f("geo_big2", 3, "#x42949672##")
    f("geo_huge", 3, "9999999999##x#")
    f("geo_x", 3, "#x#???")
    f("geo_xbig", 3, "#x#-21474836##")
    f("geo_y", 3, "#x#+#???")
    f("geo_ybig", 3, "#x#+#+21474836##")
    f("geo_end", 3, "#x#+#-#??")
    f("add_many", 4, OPS=18 if deep else 10, NAMELEN=2, TEXTLEN=1)
    f("add_name", 4, OPS=2, NAMELEN=34, TEXTLEN=1)
    f("add_text", 4, OPS=2, NAMELEN=2, TEXTLEN=130)
    for op in ("circle", "disk"):
        f(op + "_long", 2, op + " f 7 #x#", NAME=op, OPKIND=2, BIG=1)
    return dict(queries=qs)


def sharpest(pts, move, x0, x1, y0, y1):
    """roots of all squared distances and sets of the four sharpest turns for
    fcv_detect_corners with peak number move anywhere in the rectangle"""
    n = len(pts) // 2
    roots, rows = set(), []
    for y in range(y0, y1 + 1):
        row = []
        for x in range(x0, x1 + 1):
            p = [(x, y) if i == move else (pts[2 * i], pts[2 * i + 1]) for i in range(n)]
            turn = []
            for i in range(n):
                a, b = ([p[j % n][k] - p[i][k] for k in (0, 1)] for j in (i - 1, i + 1))
                la, lb = (v[0] ** 2 + v[1] ** 2 for v in (a, b))
                roots |= {la, lb}
                turn.append(Fraction((a[0] * b[1] - a[1] * b[0]) ** 2, la * lb) if la and lb else Fraction(0))
            order = sorted(range(n), key=lambda i: -turn[i])
            row.append(sum(1 << i for i in order[:4]) if turn[order[3]] - turn[order[4]] > Fraction(1, 10 ** 9) else 0)
        rows.append("{%s}" % ",".join(map(str, row)))
    return dict(NP=n, PTS=",".join(map(str, pts)), MOVE=move, X0=x0, X1=x1, Y0=y0, Y1=y1, FOUR=",".join(rows),
                ROOTS="".join("case %d:return %s;" % (v, math.sqrt(v).hex()) for v in sorted(roots)))


@prop("C32")
def c32(deep):
    qs = []
    calls = {"count_colors": "rec_count"}
    for ptr, ow, oh in ((0, 2, 4), (1, 4, 2)):
        qs.append(Q("few_%d_%dx%d" % (ptr, ow, oh), "detect.c", dict(CASE=1, WMAX=15 if deep else 7, PTR=ptr, OW=ow, OH=oh), variant="cli", unwind=40, lunw=14,
                    opts=["--slice-formula"], hints={r"for.*peaks->count": 1}, calls=calls))
    penta = [20, 20, 90, 22, 120, 60, 88, 100, 22, 99]
    hexa = [40, 10, 200, 12, 240, 100, 205, 180, 44, 190, 6, 96]
    for name, pts, move, x, y, dx, dy in (("p0", penta, 0, 16, 16, 0, 3), ("p1", penta, 1, 80, 16, 3, 0), ("p2", penta, 2, 84, 58, 0, 3), ("p4", penta, 4, 20, 40, 0, 3),
                                          ("h2", hexa, 2, 200, 80, 3, 0), ("h5", hexa, 5, 30, 90, 0, 3)):
        d = sharpest(pts, move, x, x + dx, y, y + dy)
        qs.append(Q("many_" + name, "detect.c", dict(d, CASE=2), variant="cli", unwind=70, lunw=12, opts=["--slice-formula"],
                    hints={r"for.*peaks->count": d["NP"] + 1}, calls=calls))
    return dict(queries=qs)


@prop("C31")
def c31(deep):
    qs = [Q("sized", "extract.c", dict(AUTO=0), variant="cli", unwind=9)]
    for name, pts, move, x, y in (("tl", "5,7,110,3,107,151,2,140", 0, -20, -20), ("tr", "0,0,0,0,95,180,-4,99", 1, 84, -10), ("br", "5,7,110,3,0,0,2,140", 2, 100, 110),
                                  ("bl", "5,7,610,30,590,351,0,0", 3, -9, 330), ("small", "40,40,60,44,58,90,0,0", 3, 30, 80)):
        for k in range(4 if deep else 1):
            qs.append(Q("auto_%s%d" % (name, k), "extract.c", dict(AUTO=1, PTS=pts, MOVE=move, X0=x + 32 * k, X1=x + 32 * k + 31, Y0=y - 16 * k, Y1=y - 16 * k + 31),
                        variant="cli", unwind=9))
    return dict(queries=qs)


def blurq(name, w, h, r, ch=0, band=None, **kw):
    return Q(name, "blur.c", dict(CASE=1, W=w, H=h, R=r, CH=ch, **({} if band is None else dict(BAND=band))), unwind=max(48, 2 * int(float(r)) + 4), **kw)


@prop("C11")
def c11(deep):
    qs = [Q("bad_radius", "blur.c", dict(CASE=2, W=2, H=1), unwind=9), Q("zero", "blur.c", dict(CASE=3, W=3, H=2, R="0.0"), unwind=26),
          Q("tiny", "blur.c", dict(CASE=3, W=3, H=2, R="1e-30"), unwind=26)]
    for w, h, r, ch, band in ((2, 1, "1.0", 0, 3), (3, 1, "1.0", 2, 7), (3, 1, "1.0", 1, 0), (1, 3, "1.0", 0, 5), (1, 3, "1.0", 2, 1), (1, 3, "1.0", 1, 7)):
        qs.append(blurq("range_%dx%d_%s_%d_band%d" % (w, h, r, ch, band), w, h, r, ch, band))
    for w, h, r, ch in ((2, 2, "0.5", 1), (3, 3, "0.3", 0)) + (
            ((2, 1, "1.0", 0), (3, 1, "1.0", 2), (1, 3, "1.0", 0), (2, 2, "1.4", 2), (4, 1, "1.0", 1), (1, 4, "1.0", 0), (3, 1, "2.0", 0), (2, 2, "1.0", 0)) if deep else ()):
        qs.append(blurq("range_%dx%d_%s_%d" % (w, h, r, ch), w, h, r, ch))
    return dict(queries=qs)


@prop("C17")
def c17(deep):
    sub = {"histogram.c": [(r"\b256\b", "8"), (r"\b200\b", "5")]}
    qs = []
    for ch in (1, 3, 4, 2):
        for n in ((1, 2, 3, 4) if deep else (1, 2, 3) if ch < 3 else (1, 2)):
            qs.append(Q("count_%dch_%dpx" % (ch, n), "hist.c", dict(CASE=1, CH=ch, W=n, H=1), variant="cli", unwind=45, scaled=sub))
    qs += [Q("tall_1ch", "hist.c", dict(CASE=1, CH=1, W=2, H=2), variant="cli", unwind=45, scaled=sub),
           Q("reject", "hist.c", dict(CASE=2, CH=1, W=1, H=1), variant="cli", unwind=45, scaled=sub)]
    return dict(queries=qs)


@prop("C23")
def c23(deep):
    qs = []
    rect, quad = "0,0,99,0,99,79,0,79", "5,7,91,12,83,70,8,66"

    def f(name, src, dst, which, base, n=4):
        qs.append(Q(name, "persp.c", dict(CASE=1, SRC=src, DST=dst, WHICH=which, BASE=base, N=n), unwind=12))
    for w, b, n in ((0, 4, 3), (3, 10, 2), (4, 80, 2), (7, 62, 3)):
        f("maps_%d" % w, rect, quad, w, b, n)
    f("maps_turned", rect, "90,3,93,84,2,80,6,1", 0, 88, 2)
    if deep:
        for i, (src, dst) in enumerate(((rect, quad), (quad, rect), ("0,0,1,0,1,1,0,1", "0,0,3,0,3,2,0,2"), ("10,20,200,20,200,90,10,90", "300,4,500,20,510,240,310,230"))):
            d = list(map(int, dst.split(",")))
            for w in range(8):
                f("maps%d_%d" % (i, w), src, dst, w, d[w] - 1, 4)
    for w in range(16) if deep else (5, 8, 15):
        qs.append(Q("special_%d" % w, "persp.c", dict(CASE=2, SRC=rect, DST=quad, WHICH=w), unwind=12))
    for i, src in enumerate(("0,0,50,0,99,0,0,79", "4,4,4,4,90,80,3,70", "7,7,7,7,7,7,7,7")):
        qs.append(Q("degenerate_%d" % i, "persp.c", dict(CASE=3, SRC=src, DST=quad, WHICH=2, BASE=80, N=4), unwind=12))
    return dict(queries=qs)


@prop("C07")
def c07(deep):
    qs = [Q("reject", "stretch.c", dict(CASE=3, N=1, ROWS=1), variant="cli", unwind=260)]
    for n, rows in ((1, 1),) + (((2, 1),) if deep else ()):
        qs.append(Q("all_%dpx" % n, "stretch.c", dict(CASE=1, N=n, ROWS=rows, GREY=1), variant="cli", unwind=260, sat="kissat"))
    for name, n, rows, band in (("near", 3, 3, "96"), ("ends", 3, 1, "0,240,112"), ("dark", 4, 2, "0"), ("bright", 2, 1, "240,208")):
        qs.append(Q("band_" + name, "stretch.c", dict(CASE=1, N=n, ROWS=rows, GREY=1, BAND=band), variant="cli", unwind=260))
    for k, band in enumerate(("16,128", "160,160")):
        qs.append(Q("colour_%d" % k, "stretch.c", dict(CASE=1, N=2, ROWS=1, BAND=band), variant="cli", unwind=260))
    for name, n, base, sym in (("two", 64, "40,200", 2), ("ends", 128, "0,255,0,255,255", 2)) + ((("flat", 64, "97", 1), ("ramp", 64, "3,60,61,120,200,250", 3),) if deep else ()):
        qs.append(Q("big_" + name, "stretch.c", dict(CASE=2, N=n, ROWS=8, BASE=base, SYM=sym, GREY=1), variant="cli", unwind=max(260, n * 4 + 2)))
    return dict(queries=qs)


@prop("C09")
def c09(deep):
    def win(lo, n=8):
        # the brightness values of the picture: the other bins are empty and do not count
        return {"conversion.c": [(r"(\b\w+) = 0; *\1 < (2[45]\d)\b", r"\1 = %d; \1 < (\2 < %d ? \2 : %d)" % (lo, lo + n, lo + n))]}
    qs = [Q("double_%d" % g, "otsu.c", dict(CASE=2, GAP=g), variant="cli", unwind=9) for g in ((1, 16, 31, 32, 255) if not deep else range(1, 256, 2))]
    qs += [Q("reject", "otsu.c", dict(CASE=3), variant="cli", unwind=260)]
    for two in (0, 1):
        for name, rows, n, band in (("1", 1, 8, "40"), ("2", 1, 8, "96,99"), ("3", 3, 4, "0,1,2"), ("far", 1, 48, "104,144"), ("top", 2, 8, "255,250"), ("top3", 3, 4, "254,253,252")) + (
                (("3w", 1, 8, "80,80,80"), ("4", 2, 4, "8,9,10,11"), ("5", 5, 4, "252,252,252,252,252"), ("2w", 1, 16, "16,16")) if deep else ()):
            lv = list(map(int, band.split(",")))
            wd = min(n, 16) if name != "far" else 8
            qs.append(Q("band_%s_%d" % (name, two), "otsu.c", dict(CASE=1, N=len(lv), ROWS=rows, BAND=band, WIDTH=wd, TWOFOLD=two), variant="cli", unwind=260,
                        scaled=win(min(lv) // wd * wd, n)))
    return dict(queries=qs)


@prop("C10")
def c10(deep):
    # the definitions of the stages get other names, so that those of the harness are called
    ren = {"conversion.c": [(r"(?m)^(uint8_t \*)(fcv_grayscale|fcv_apply_gaussian_blur|fcv_otsu_threshold_rgba)\(", r"\1real_\2("),
                            (r"(?m)^(uint8_t \*)\s*\n(fcv_grayscale|fcv_apply_gaussian_blur|fcv_otsu_threshold_rgba)\(", r"\1real_\2(")]}
    qs = [Q("reject", "smart.c", dict(CASE=2, N=1, ROWS=1), variant="cli", unwind=9, patched=ren)]
    for n, rows in ((1, 1), (2, 1), (3, 3), (4, 2), (6, 3)) + (((12, 3), (16, 4)) if deep else ()):
        qs.append(Q("stages_%dpx" % n, "smart.c", dict(CASE=1, N=n, ROWS=rows), variant="cli", unwind=n * 4 + 2, patched=ren))
    return dict(queries=qs)
