"""C06 grids: each kind of grid description yields the grid it states"""
import random
from rules.jsonlib import *
from rules.C05 import inl5, always

EXPL = ("readGrids is evaluated under the facts of each kind of grid description. The arguments of the grid that is built (box, number of cells, step, positions) and of the "
        "boundary enlargement are provenance terms over the text of the entry; fields that are copied are compared exactly, computed ones (fitted steps, paddings, corners) are "
        "decided by constant propagation through the extracted term on constants of each class (fits exactly, rounds up, rounds down, larger than the box, inverted box).")
FLOOR = 30
GRID = "SEMBA::Geometry::Grid<3>"


def inl6(f):
    if "/geometry/Box" in f["file"]:
        return None
    if "/geometry/Grid" in f["file"]:
        return False
    return inl5(f)


def isgridcopy(s, a):
    return len(a) == 1 and clsof(s.ctx.P, a[0]) == GRID


def built(s):
    """constructions of a grid out of something other than a grid: (arguments, condition)"""
    out = []
    for ef, pc, loops, stack in s.flat():
        if ef[0] == "new" and ef[2] == GRID and ef[3] and not isgridcopy(s, ef[3]):
            out.append((list(ef[3]), pc))
    return out


def num3(ctx, rule, inst, ev, comps, cases, w):
    """cases: (env, [3 expected])"""
    if len(comps) != 3:
        return ctx.ob(rule, inst, None, "no three components", w)
    for i in range(3):
        ok, d = cagree(ev, comps[i], [(e, x[i]) for e, x in cases])
        if ok is None and vague(comps[i]) is False:
            d = d or canon(ev, comps[i])[:200]
        ctx.ob(rule, "%s[%d]" % (inst, i), ok, d or canon(ev, comps[i])[:200], w)


def toks(key, vals, raw=""):
    return {"+".join(sorted(["grids", key])) + "%s#%d" % (raw, i): v for i, v in enumerate(vals)}


BOXES = [(5., 7., 9., 1., 2., 3.), (1., 2., 3., 5., 7., 9.), (4., -2., 9., 4., 6., -3.)]


def corners(b):
    return [min(b[i], b[i + 3]) for i in range(3)], [max(b[i], b[i + 3]) for i in range(3)]


def boxcheck(ctx, s, rule, inst, t, w):
    v = Val(ctx, s.ev, s.st or State(), t)
    if clsof(ctx.P, t) is None or "Box" not in clsof(ctx.P, t):
        return ctx.ob(rule, inst, None, canon(s.ev, t)[:200], w)
    for g, k in (("getMin", 0), ("getMax", 1)):
        num3(ctx, rule, inst + "." + g, s.ev, [x.t for x in v.get(g).vec()], [(toks("layerBox", b), corners(b)[k]) for b in BOXES], w)


def one_grid(ctx, s, lab, w, n=1):
    b = built(s)
    if s.ret is None:
        ctx.ob("grid built", lab, False, "every path throws", w)
        return None
    if len(b) != n:
        ctx.ob("grid built", lab, None, "%d grids built" % len(b), w)
        return None
    return b


def check(ctx):
    fn = reader_fn(ctx, "readGrids")
    w = ctx.loc(fn)
    sc = lambda vals, has: Scen(ctx, fn, vals, has, inl6, OPQ)
    R = "uniform grid"
    GC = {"gridType": "gridCondition"}
    nopad = {"lowerPaddingMeshSize": False}
    # number of cells
    s = sc(dict(GC, type="Number_of_cells"), nopad)
    b = one_grid(ctx, s, "by number of cells", w)
    if b:
        a = b[0][0]
        boxcheck(ctx, s, R, "by number of cells: box", a[0], w)
        check_vec(ctx, R, "by number of cells: cells", Val(ctx, s.ev, s.st, a[1]), vecwant("grids+numberOfCells"), w)
    # step
    s = sc(dict(GC, type="Size_by_number", fitSizeToBox=False), nopad)
    b = one_grid(ctx, s, "by cell size", w)
    if b:
        a = b[0][0]
        boxcheck(ctx, s, R, "by cell size: box", a[0], w)
        check_vec(ctx, R, "by cell size: step", Val(ctx, s.ev, s.st, a[1]), vecwant("grids+stepSize"), w)
    s = sc(dict(GC, type="Size_by_number", fitSizeToBox=True), nopad)
    b = one_grid(ctx, s, "fitted to box", w)
    if b:
        a = b[0][0]
        boxcheck(ctx, s, R, "fitted to box: box", a[0], w)
        comps = [x.t for x in Val(ctx, s.ev, s.st, a[1]).vec()]
        cases = []
        for bx in BOXES:
            lo, hi = corners(bx)
            for st in ((1., 1., 1.), (.75, .8, .9), (3., 3.5, 5.), (100., 50., 60.), (7., 9.5, 11.)):
                ln = [hi[i] - lo[i] for i in range(3)]
                cases.append((dict(toks("layerBox", bx), **toks("stepSize", st)), [ln[i] / max(1, math.floor(ln[i] / st[i] + .5)) for i in range(3)]))
        num3(ctx, R, "fitted to box: step", s.ev, comps, cases, w)
    # padding
    R = "boundary padding"
    for ptype, mult in (("by_number_of_cells", True), ("by_length", False)):
        s = sc(dict(GC, type="Number_of_cells", boundaryPaddingType=ptype), {"lowerPaddingMeshSize": True})
        en = [(ef[4], pc) for ef, pc, loops, stack in s.flat() if ef[0] == "call" and ef[1] == GRID + "::enlarge"]
        if len(en) != 1:
            ctx.ob("padding applied", ptype, False if s.ret is not None and not en and not any("Grid" in ef[1] and ef[1].split("::")[-1].startswith("enlarge") for ef, _, _, _ in s.flat() if ef[0] == "call") else None, "%d enlargements" % len(en), w)
            continue
        (pad, siz), pc = en[0]
        ok = always(s, pc, ())
        ctx.ob("padding applied", ptype, True if ok else None, "applied only when %s" % text(pc, 200), w)
        P_, Z = Val(ctx, s.ev, s.st, pad).pair(), Val(ctx, s.ev, s.st, siz).pair()
        L, U, ML, MU = (2., 3., 5.), (7., 11., 13.), (17., 19., 23.), (29., 31., 37.)
        env = dict(toks("lowerPadding", L), **toks("upperPadding", U))
        env.update(toks("lowerPaddingMeshSize", ML))
        env.update(toks("upperPaddingMeshSize", MU))
        for lab, v, want in (("lower padding", P_[0], [x * (y if mult else 1) for x, y in zip(L, ML)]), ("upper padding", P_[1], [x * (y if mult else 1) for x, y in zip(U, MU)]),
                             ("lower cell size", Z[0], ML), ("upper cell size", Z[1], MU)):
            num3(ctx, R, "%s, %s" % (lab, ptype), s.ev, [x.t for x in v.vec()], [(env, want)], w)
    for has, lab in ((True, "with padding"), (False, "without padding")):
        s = sc(dict(GC, type="Number_of_cells", boundaryPaddingType="x"), {"lowerPaddingMeshSize": has})
        n = sum(1 for ef, pc, loops, stack in s.flat() if ef[0] == "call" and ef[1] == GRID + "::enlarge")
        if not has:
            ctx.ob("padding applied", lab, True if not n else None, "%d enlargements" % n, w)
        # degenerate grids
        th = [canon(s.ev, t[0]) for t in s.r.throws]
        ok = True if any("hasZeroSize(" in c and "not(hasZeroSize(" not in c for c in th) else False if not any("Grid" in c or "unk" in c for c in th) else None
        ctx.ob("grid without extension refused", lab, ok, "refusals: %s" % str(th)[:200], w)
    # explicit positions
    R = "explicit positions"
    nm = ["xCoordinates", "yCoordinates", "zCoordinates"]
    fr = "J[front(J.grids)]"

    def emp(v):
        def ex(c):
            if c.k == "eq" and isc(c.a[1]) and c.a[1].a[0] == 0 and sizeof(c.a[0]) is not None and any(n in canon(None, c.a[0]) for n in nm):
                return v
            if c.k == "call" and c.a[0].split("::")[-1] == "empty":
                return v
            return None
        return ex
    s = Scen(ctx, fn, {"gridType": "nativeGiD"}, {}, inl6, OPQ, extra=emp(False))
    b = one_grid(ctx, s, "nativeGiD positions", w)
    if b:
        positions(ctx, R, "nativeGiD", s, b[0][0], [fr + "." + n for n in nm], w)
    s = Scen(ctx, fn, {"gridType": "nativeGiD"}, {}, inl6, OPQ, extra=emp(True))
    b = one_grid(ctx, s, "nativeGiD box", w)
    if b:
        a = b[0][0]
        v = Val(ctx, s.ev, s.st, a[0])
        cs = [((1., 2., 3.), (5., 7., 11.)), ((1., 2., 3.), (-5., 7., 0.))]
        if "Box" in (clsof(ctx.P, a[0]) or ""):
            for g, f_ in (("getMin", min), ("getMax", max)):
                num3(ctx, "uniform grid", "nativeGiD box." + g, s.ev, [x.t for x in v.get(g).vec()],
                     [(dict(toks("corner", c), **toks("boxSize", z)), [f_(c[i], c[i] + z[i]) for i in range(3)]) for c, z in cs], w)
        else:
            ctx.ob("uniform grid", "nativeGiD box", None, canon(s.ev, a[0])[:200], w)
        check_vec(ctx, "uniform grid", "nativeGiD box: cells", Val(ctx, s.ev, s.st, a[1]), vecwant("grids+nGridPoints"), w)
    # file
    def empf(which):
        def ex(c):
            if c.k == "eq" and isc(c.a[1]) and c.a[1].a[0] == 0 and sizeof(c.a[0]) is not None:
                ks = jkeys(c.a[0])
                for k in ("xs", "ys", "zs"):
                    if k in ks:
                        return k == which
            if c.k == "exc":
                return False
            return None
        return ex
    s = Scen(ctx, fn, {"gridType": "positionsFromFile"}, {}, inl6, OPQ, extra=empf(None))
    b = one_grid(ctx, s, "positionsFromFile", w)
    if b:
        il = b[0][0][0]
        ok = None
        if il.k == "il" and len(il.a) == 3:
            got = [sorted(jkeys(x) - {"grids"}) for x in il.a]
            ok = got == [["xs"], ["ys"], ["zs"]] or (None if any(not g for g in got) else False)
            ctx.ob(R, "positionsFromFile", ok, "positions are %s" % got, w)
        else:
            ctx.ob(R, "positionsFromFile", None, "", w)
    for k in ("xs", "ys", "zs"):
        s = Scen(ctx, fn, {"gridType": "positionsFromFile"}, {}, inl6, OPQ, extra=empf(k))
        refused(ctx, s, "file without " + k, w, "grid file with an empty direction refused")
    refused(ctx, sc({"gridType": "zzz"}, {}), "unknown gridType", w)
    refused(ctx, sc({}, {"grids": False}), "file without grids", w, "missing section refused")


def positions(ctx, R, lab, s, a, want, w):
    il = a[0]
    if il.k != "il":
        v = Val(ctx, s.ev, s.st, il)
        got = [v.at(i).c for i in range(3)]
        vg = any(vague(v.at(i).t) for i in range(3))
    else:
        got = [canon(s.ev, x) for x in il.a]
        vg = vague(il)
    ctx.ob(R, lab, True if got == want else None if vg else False, "positions are %s" % got, w)
