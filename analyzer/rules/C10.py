"""C10 grids and boxes: what their operations compute"""
import random
from lib import *

EXPL = ("Every operation of the grid and box templates is evaluated, callees inlined, on objects whose position lists have a given number of unknown entries; the result is a term over these unknowns. "
        "It is compared with the specification of the operation in every order type of its operands (below, equal, between, above) by constant propagation through the term.")
FLOOR = 200
G = "SEMBA::Geometry::Grid<3>"


def inl10(f):
    return None if any(x in f["file"] for x in ("/geometry/Box", "/geometry/Grid", "/src/core/math/", "/src/core/class/")) else False


# ---------------------------------------------------------------------- boxes
def axis_classes(rng, integer, n):
    """corner pairs of two boxes and a point along one axis, in all order types"""
    pool = [0, 1, 2, 3, 4, 5] if integer else [-1.5, 0.5, 1.0, 2.25, 3.0, 4.5]
    a, b = sorted(rng.choice(pool) for _ in range(2))
    c, d = sorted(rng.choice(pool) for _ in range(2))
    return a, b, c, d, rng.choice(pool)


def boxenvs(integer, seed, n=160):
    rng = random.Random(seed)
    out = []
    for k in range(n):
        env = {}
        same = rng.random() < .15
        kind = rng.randrange(6)
        for i in range(3):
            a, b, c, d, p = axis_classes(rng, integer, i)
            if same:
                c, d = a, b
            if kind == 0:      # second inside the first
                a, b = min(a, c) - (rng.random() < .8), max(b, d) + (rng.random() < .8)
            if kind == 1:
                c, d = min(a, c) - (rng.random() < .8), max(b, d) + (rng.random() < .8)
            if kind == 2:
                p = rng.choice([a, b, (a + b) // 2 if integer else (a + b) / 2])
            if k % 16 == 15:   # a box that contains nothing yet
                a, b = math.inf, -math.inf
            env.update({"G.min_.val[%d]" % i: a, "G.max_.val[%d]" % i: b, "R.min_.val[%d]" % i: c, "R.max_.val[%d]" % i: d, "P.val[%d]" % i: p})
        out.append(env)
    return out


class BoxOps:
    def __init__(self, ctx, T_):
        self.ctx, self.T = ctx, T_
        self.cls = "SEMBA::Geometry::Box<%s, 3>" % T_
        self.integer = T_ == "int"
        self.empty = [e for e in boxenvs(self.integer, 5) if e["G.min_.val[0]"] > e["G.max_.val[0]"]]
        self.envs = [e for e in boxenvs(self.integer, 5) if e["G.min_.val[0]"] <= e["G.max_.val[0]"]]

    def g(self, env, who, k):
        return [env["%s.%s_.val[%d]" % (who, k, i)] for i in range(3)]

    def find(self, name, *ptypes):
        fs = [f for f in self.ctx.P.byname.get(self.cls + "::" + name, []) if not f.get("dep") and f.get("b") is not None and len(f["p"]) == len(ptypes) and
              all(x in p["t"] for x, p in zip(ptypes, f["p"]))]
        if not fs:
            raise AnalysisError("anchor vanished: %s::%s(%s)" % (self.cls, name, ", ".join(ptypes)))
        return fs[0]

    def run(self, f, args):
        # the other box is another object
        return Shaped(self.ctx, f, inl10, args, assume=[(eq(sym("R"), sym("G")), False), (eq(sym("G"), sym("R")), False)])

    def ob(self, rule, inst, s, tr, want, envs=None):
        shaped_ob(self.ctx, rule, "Box<%s>.%s" % (self.T, inst), s, tr, envs or self.envs, want, self.ctx.loc(s.f))

    def check(self):
        g = self.g
        ndiff = lambda e: sum(1 for a, b in zip(g(e, "G", "min"), g(e, "G", "max")) if a != b)
        R, Pt = sym("R"), sym("P")
        Q = "box queries"
        for name, want in (
                ("getMin", lambda e: g(e, "G", "min")), ("getMax", lambda e: g(e, "G", "max")),
                ("getLength", lambda e: [b - a for a, b in zip(g(e, "G", "min"), g(e, "G", "max"))]),
                ("isPoint", lambda e: ndiff(e) == 0), ("isLine", lambda e: ndiff(e) == 1), ("isSurface", lambda e: ndiff(e) == 2), ("isVolume", lambda e: ndiff(e) == 3),
                ("getDirection", lambda e: REFUSED if ndiff(e) != 1 else [i for i in range(3) if g(e, "G", "min")[i] != g(e, "G", "max")[i]][0]),
                ("getNormal", lambda e: REFUSED if ndiff(e) != 2 else [i for i in range(3) if g(e, "G", "min")[i] == g(e, "G", "max")[i]][0]),
                ("getPos", lambda e: self.corners(e))):
            s = self.run(self.find(name), [])
            self.ob(Q, name, s, s.ret(), want)
        two = lambda e: [g(e, w, k) for w in "GR" for k in ("min", "max")]
        Z = lambda e: list(zip(*two(e)))
        for name, want in (
                ("operator>", lambda e: all(b > d and a < c for a, b, c, d in Z(e))),
                ("operator<", lambda e: all(d > b and c < a for a, b, c, d in Z(e))),
                ("operator<=", lambda e: all(b <= d and a >= c for a, b, c, d in Z(e))),
                ("operator==", lambda e: all(b == d and a == c for a, b, c, d in Z(e))),
                ("isIntersected", lambda e: all(b >= c and d >= a for a, b, c, d in Z(e))),
                ("intersect", lambda e: [[max(a, c) for a, b, c, d in Z(e)], [min(b, d) for a, b, c, d in Z(e)]])):
            s = self.run(self.find(name, "Box"), [R])
            self.ob("box comparisons", name, s, s.ret(), want)
        s = self.run(self.find("isInnerPoint", "Cartesian"), [Pt])
        self.ob("box comparisons", "isInnerPoint", s, s.ret(), lambda e: all(g(e, "G", "min")[i] <= e["P.val[%d]" % i] <= g(e, "G", "max")[i] for i in range(3)))
        hull = lambda e: [[min(a, c) for a, b, c, d in Z(e)], [max(b, d) for a, b, c, d in Z(e)]]
        hullp = lambda e: [[min(g(e, "G", "min")[i], e["P.val[%d]" % i]) for i in range(3)], [max(g(e, "G", "max")[i], e["P.val[%d]" % i]) for i in range(3)]]
        for name, arg, t, want in (("operator+=", R, "Box", hull), ("operator<<", R, "Box", hull), ("operator<<", Pt, "Cartesian", hullp), ("operator=", R, "Box", lambda e: [g(e, "R", "min"), g(e, "R", "max")])):
            s = self.run(self.find(name, t), [arg])
            self.ob("box updates", "%s(%s)" % (name, t), s, [s.member(self.cls, "min_"), s.member(self.cls, "max_")], want, self.envs + ([] if self.integer else self.empty))
        # construction from two corners in any order
        envs = []
        rng = random.Random(7)
        for _ in range(40):
            envs.append({"%s.val[%d]" % (w, i): rng.choice([1, 2, 3, 5]) if self.integer else rng.choice([-1., .5, 2., 7.5]) for w in "AB" for i in range(3)})
        want = lambda e: [[f(e["A.val[%d]" % i], e["B.val[%d]" % i]) for i in range(3)] for f in (min, max)]
        A, B = sym("A"), sym("B")
        for nm, f, args in (("(two corners)", self.find("(ctor)", "Cartesian", "Cartesian"), [A, B]), ("(pair)", self.find("(ctor)", "pair"), [mk("pair", A, B)]), ("set", self.find("set", "pair"), [mk("pair", A, B)])):
            s = self.run(f, args)
            for x in (A, B):
                s.ev.dyncls.setdefault(x, "SEMBA::Math::Vector::Cartesian<%s, 3>" % self.T)
            self.ob("box construction", nm, s, [s.member(self.cls, "min_"), s.member(self.cls, "max_")], want, envs)
        # scaling: of real boxes only
        s = self.run(self.find("scale", "double"), [sym("f")])
        envs = [dict(e, f=x) for e, x in zip(self.envs, [2., .5, -1., 3.] * 10)]
        self.ob("box updates", "scale", s, [s.member(self.cls, "min_"), s.member(self.cls, "max_")],
                lambda e: [[x * (1 if self.integer else e["f"]) for x in g(e, "G", k)] for k in ("min", "max")], envs)
        # faces
        for b in (0, 1):
            s = self.run(self.find("getBound", "CartesianBound"), [C(b)])
            self.ob("box faces", "getBound(%s)" % "LU"[b], s, s.ret(), lambda e: g(e, "G", ("min", "max")[b]))
            for d in range(3):
                lab = "%s%s" % ("xyz"[d], "LU"[b])

                def bnd(e, d=d, b=b):
                    lo, hi = g(e, "G", "min"), g(e, "G", "max")
                    out = []
                    for u, v in ((0, 0), (0, 1), (1, 1), (1, 0)):
                        p = [None] * 3
                        p[d] = (lo, hi)[b][d]
                        p[(d + 1) % 3] = (lo, hi)[u][(d + 1) % 3]
                        p[(d + 2) % 3] = (lo, hi)[v][(d + 2) % 3]
                        out.append(p)
                    return out
                s = self.run(self.find("getPosOfBound", "CartesianAxis", "CartesianBound"), [C(d), C(b)])
                self.ob("box faces", "getPosOfBound(%s)" % lab, s, s.ret(), bnd)
                s = self.run(self.find("getBoundAsBox", "CartesianAxis", "CartesianBound"), [C(d), C(b)])
                vol = [e for e in self.envs if ndiff(e) == 3]
                self.ob("box faces", "getBoundAsBox(%s)" % lab, s, s.ret(), lambda e: [[min(p[i] for p in bnd(e)) for i in range(3)], [max(p[i] for p in bnd(e)) for i in range(3)]], vol)

    def corners(self, e):
        lo, hi = self.g(e, "G", "min"), self.g(e, "G", "max")
        df = [i for i in range(3) if lo[i] != hi[i]]
        m = (lo, hi)
        pt = lambda *k: [m[k[i]][i] for i in range(3)]
        if not df:
            return [lo]
        if len(df) == 1:
            return [lo, hi]
        if len(df) == 2:
            n = [i for i in range(3) if i not in df][0]
            return {0: [pt(0, 0, 0), pt(0, 1, 0), pt(0, 1, 1), pt(0, 0, 1)], 1: [pt(0, 0, 0), pt(0, 0, 1), pt(1, 0, 1), pt(1, 0, 0)], 2: [pt(0, 0, 0), pt(1, 0, 0), pt(1, 1, 0), pt(0, 1, 0)]}[n]
        return [pt(0, 0, 0), pt(1, 0, 0), pt(1, 1, 0), pt(0, 1, 0), pt(0, 0, 1), pt(1, 0, 1), pt(1, 1, 1), pt(0, 1, 1)]


# ---------------------------------------------------------------------- grids
def GP(d):
    return lambda o: mk("el", fld(o, G + "::pos_"), C(d))


PTOL = .01


class GridOps:
    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = random.Random(3)

    def find(self, name, *ptypes):
        fs = [f for f in self.ctx.P.byname.get(G + "::" + name, []) if not f.get("dep") and f.get("b") is not None and len(f["p"]) == len(ptypes) and all(x in p["t"] for x, p in zip(ptypes, f["p"]))]
        if not fs:
            raise AnalysisError("anchor vanished: Grid::%s(%s)" % (name, ", ".join(ptypes)))
        return fs[0]

    def run(self, f, args, sizes=(3, 2, 4), assume=(), consts=None):
        put = [] if f.get("ctor") else [(GP(d), mk("il", *[C(x) for x in consts[d]]) if consts else IL("p%d_" % d, sizes[d])) for d in range(3)]
        return Shaped(self.ctx, f, inl10, args, put=put, assume=assume)

    def pos(self, sizes, uniform=None):
        """increasing positions along the axes"""
        out = []
        for n in sizes:
            x = self.rng.choice([-2.5, -1., .75, 3.])
            l = [x]
            for _ in range(n - 1):
                x += uniform or self.rng.choice([.5, 1., 1.5, 2.75])
                l.append(x)
            out.append(l)
        return out

    def envs(self, sizes, n=20, extra=None, uniform=None):
        out = []
        for k in range(n):
            p = self.pos(sizes, uniform)
            e = {"p%d_%d" % (d, i): p[d][i] for d in range(3) for i in range(sizes[d])}
            if extra:
                e.update(extra(k, p))
            out.append(e)
        return out

    def P(self, e, sizes=(3, 2, 4)):
        return [[e["p%d_%d" % (d, i)] for i in range(sizes[d])] for d in range(3)]

    def ob(self, rule, inst, s, tr, want, envs, **k):
        shaped_ob(self.ctx, rule, "Grid." + inst, s, tr, envs, want, self.ctx.loc(s.f), **k)

    def fin(self, s):
        return [s.member(G, "pos_", d) for d in range(3)]

    def check(self):
        self.queries()
        self.location()
        self.updates()
        self.construction()
        self.enlarge()
        self.pieces()

    def queries(self):
        Q = "grid queries"
        S = (3, 2, 4)
        P = self.P
        E = self.envs(S)
        step = lambda l: [b - a for a, b in zip(l, l[1:])]
        prod = lambda p: [[a, b, c] for a in p[0] for b in p[1] for c in p[2]]
        for name, want in (("getNumCells", lambda e: [2, 1, 3]), ("getOrigin", lambda e: [l[0] for l in P(e)]), ("getPos", lambda e: prod(P(e))),
                           ("getFullDomainBoundingBox", lambda e: [[l[0] for l in P(e)], [l[-1] for l in P(e)]]),
                           ("getMinimumSpaceStep", lambda e: min(x for l in P(e) for x in step(l)))):
            s = self.run(self.find(name), [], S)
            self.ob(Q, name, s, s.ret(), want, E)
        for k in range(3):
            z = [3, 2, 4]
            z[k] = 0
            s = self.run(self.find("getOrigin"), [], z)
            self.ob(Q, "getOrigin without %s positions" % "xyz"[k], s, s.ret(), lambda e: REFUSED, self.envs(z, 2))
        for z in ((1, 1, 1), (1, 2, 1), (0, 1, 0), (2, 1, 1), (1, 1, 3), (2, 2, 2)):
            s = self.run(self.find("hasZeroSize"), [], z)
            self.ob(Q, "hasZeroSize %s" % (z,), s, s.ret(), lambda e: all(n <= 1 for n in z), self.envs(z, 2))
        for d in range(3):
            a = "xyz"[d]
            for name, args, types, want in (("getStep", [C(d)], ("long",), lambda e: step(P(e)[d])), ("getPos", [C(d)], ("long",), lambda e: P(e)[d])):
                s = self.run(self.find(name, *types), args, S)
                self.ob(Q, "%s(%s)" % (name, a), s, s.ret(), want, E)
            for n in range(S[d]):
                s = self.run(self.find("getPos", "long", "int"), [C(d), C(n)], S)
                self.ob(Q, "getPos(%s,%d)" % (a, n), s, s.ret(), lambda e: P(e)[d][n], E)
                if n < S[d] - 1:
                    s = self.run(self.find("getStep", "long", "int"), [C(d), C(n)], S)
                    self.ob(Q, "getStep(%s,%d)" % (a, n), s, s.ret(), lambda e: step(P(e)[d])[n], E)
            s = self.run(self.find("isInto", "long", "double"), [C(d), sym("v")], S)
            self.ob(Q, "isInto(%s)" % a, s, s.ret(), lambda e: P(e)[d][0] <= e["v"] <= P(e)[d][-1],
                    self.envs(S, 30, lambda k, p: {"v": self.rng.choice([p[d][0], p[d][-1], p[d][0] - .1, p[d][-1] + .1, (p[d][0] + p[d][-1]) / 2, p[d][1]])}))
        near = lambda k, p: {"X.val[%d]" % i: self.rng.choice([l[0], l[-1], (l[0] + l[1]) / 2, l[1], (l[0] + l[-1]) / 2] + ([l[0] - .3, l[-1] + .3] if k % 2 else [])) for i, l in enumerate(p)}
        s = self.run(self.find("isInto", "Cartesian"), [sym("X")], S)
        self.ob(Q, "isInto(point)", s, s.ret(), lambda e: all(l[0] <= e["X.val[%d]" % i] <= l[-1] for i, l in enumerate(P(e))), self.envs(S, 60, near))
        idx = lambda k, p: {"X.val[%d]" % i: self.rng.randrange(len(l)) for i, l in enumerate(p)}
        s = self.run(self.find("getPos", "Cartesian<int"), [sym("X")], S)
        self.ob(Q, "getPos(ijk)", s, s.ret(), lambda e: [l[e["X.val[%d]" % i]] for i, l in enumerate(P(e))], self.envs(S, 20, idx))

        def box(k, p):
            e = {}
            for i, l in enumerate(p):
                a, b = sorted(self.rng.randrange(len(l)) for _ in range(2))
                e.update({"B.min_.val[%d]" % i: a, "B.max_.val[%d]" % i: b})
            return e
        s = self.run(self.find("getBoundingBox", "Box<int"), [sym("B")], S)
        self.ob(Q, "getBoundingBox", s, s.ret(), lambda e: [[l[e["B.%s_.val[%d]" % (m, i)]] for i, l in enumerate(P(e))] for m in ("min", "max")], self.envs(S, 20, box))
        # regularity: one step differs from the others
        S3 = (4, 4, 4)

        def irregular(k, p):
            if k % 7 == 0:
                return {}
            d, n = k % 3, (k // 3) % 3
            l = list(p[d])
            for i in range(n + 1, 4):
                l[i] += .4 if k % 2 else -.3
            return {"p%d_%d" % (d, i): l[i] for i in range(4)}
        EI = self.envs(S3, 63, irregular, uniform=1.)
        EA = []
        for k in range(30):         # uniform in each axis, one axis different
            p = self.pos(S3, 1.)
            if k % 2:
                d = k // 2 % 3
                p[d] = [p[d][0] + 1.7 * i for i in range(4)]
            EA.append({"p%d_%d" % (d, i): p[d][i] for d in range(3) for i in range(4)})
        ap = lambda x, y: abs(x - y) < .05
        reg = lambda l: all(ap(x, step(l)[0]) for x in step(l))
        P3 = lambda e: P(e, S3)
        s = self.run(self.find("isRegular"), [], S3)
        self.ob(Q, "isRegular", s, s.ret(), lambda e: all(reg(l) for l in P3(e)), EI + EA)
        for d in range(3):
            s = self.run(self.find("isRegular", "long"), [C(d)], S3)
            self.ob(Q, "isRegular(%s)" % "xyz"[d], s, s.ret(), lambda e: reg(P3(e)[d]), EI + EA)
        s = self.run(self.find("isCartesian"), [], S3)
        self.ob(Q, "isCartesian", s, s.ret(), lambda e: all(ap(x, step(P3(e)[0])[0]) for l in P3(e) for x in step(l)), EI + EA)

    def cellpair(self, l, x, approx):
        st = [b - a for a, b in zip(l, l[1:])]
        if x < l[0] - PTOL * st[0]:
            return 0, (x - l[0]) / st[0], True
        for i, p in enumerate(l):
            if abs(x - p) <= .5 * PTOL * st[max(i - 1, 0)]:
                return i, 0., False
            if x < p:
                f = (x - l[i - 1]) / st[i - 1]
                return (i, f - 1., False) if approx and f > .5 else (i - 1, f, False)
        return len(l) - 1, (x - l[-1]) / st[-1], True

    def places(self, l):
        """a coordinate of each class: below, at a line, near a line, inside a cell, above"""
        i = self.rng.randrange(len(l) - 1)
        return self.rng.choice([l[0] - .7, l[i], l[i + 1], l[i] + .3 * (l[i + 1] - l[i]), l[i] + .8 * (l[i + 1] - l[i]), l[-1] + .9, l[0], l[-1], l[i] + .0001 * (l[i + 1] - l[i])])

    def location(self):
        L = "location of points"
        S = (3, 2, 4)
        err = fld(sym("Q"), "Q::err")
        isnull = [(eq(err, NULL), False)]
        for approx in (True, False):
            for d in range(3):
                lab = "(%s,%s)" % ("xyz"[d], "nearest" if approx else "lower")
                E = self.envs(S, 60, lambda k, p: {"v": self.places(p[d]) or .011})
                # a zero coordinate has no relative tolerance
                E = [e for e in E if abs(e["v"]) > 1e-9 and all(abs(x) > 1e-9 for x in e.values())]
                s = self.run(self.find("getCellPair", "long", "double", "bool", "double", "bool"), [C(d), sym("v"), C(approx), C(PTOL), err], S, isnull)
                cp = lambda e: self.cellpair(self.P(e)[d], e["v"], approx)
                self.ob(L, "getCellPair" + lab, s, s.ret(), lambda e: list(cp(e)[:2]), E)
                self.ob(L, "getCellPair error flag" + lab, s, s.loc(err), lambda e: cp(e)[2], E)
                s = self.run(self.find("getCell", "long", "double", "bool", "double", "bool"), [C(d), sym("v"), C(approx), C(PTOL), NULL], S)
                self.ob(L, "getCell" + lab, s, s.ret(), lambda e: cp(e)[0], E)
            E = self.envs(S, 60, lambda k, p: {"X.val[%d]" % i: self.places(l) for i, l in enumerate(p)})
            E = [e for e in E if all(abs(x) > 1e-9 for x in e.values())]
            c3 = lambda e, k: [self.cellpair(l, e["X.val[%d]" % i], approx)[k] for i, l in enumerate(self.P(e))]
            lab = "(point,%s)" % ("nearest" if approx else "lower")
            s = self.run(self.find("getCellPair", "Cartesian", "bool", "double", "bool"), [sym("X"), C(approx), C(PTOL), err], S, isnull)
            self.ob(L, "getCellPair" + lab, s, s.ret(), lambda e: [c3(e, 0), c3(e, 1)], E)
            self.ob(L, "getCellPair error flag" + lab, s, s.loc(err), lambda e: any(c3(e, 2)), E)
            s = self.run(self.find("getCell", "Cartesian<double", "bool", "double", "bool"), [sym("X"), C(approx), C(PTOL), NULL], S)
            self.ob(L, "getCell" + lab, s, s.ret(), lambda e: c3(e, 0), E)
        inside = lambda k, p: {"X.val[%d]" % i: (lambda j: l[j] + self.rng.choice([0., .3, .8]) * (l[j + 1] - l[j]))(self.rng.randrange(len(l) - 1)) for i, l in enumerate(p)}
        E = [e for e in self.envs(S, 40, inside) if all(abs(x) > 1e-9 for x in e.values())]
        lo = lambda e: [self.cellpair(l, e["X.val[%d]" % i], False)[0] for i, l in enumerate(self.P(e))]
        s = self.run(self.find("getBoxIContaining", "Cartesian"), [sym("X")], S)
        self.ob(L, "getBoxIContaining", s, s.ret(), lambda e: [lo(e), [i + 1 for i in lo(e)]], E)
        s = self.run(self.find("getBoxRContaining", "Cartesian"), [sym("X")], S)
        self.ob(L, "getBoxRContaining", s, s.ret(), lambda e: [[l[i] for l, i in zip(self.P(e), lo(e))], [l[i + 1] for l, i in zip(self.P(e), lo(e))]], E)
        s = self.run(self.find("isCell", "Cartesian", "double"), [sym("X"), C(PTOL)], S)
        self.ob(L, "isCell", s, s.ret(), lambda e: all(self.cellpair(l, e["X.val[%d]" % i], True)[1] == 0 for i, l in enumerate(self.P(e))), E)
        # positions in a range, the limits included
        for d in range(3):
            def rg(k, p):
                a, b = sorted([self.places(p[d]), self.places(p[d])])
                return {"a": a, "b": b}
            E = [e for e in self.envs(S, 40, rg) if all(abs(x) > 1e-9 for x in e.values())]

            def want(e):
                l = self.P(e)[d]
                st = [y - x for x, y in zip(l, l[1:])]
                return [x for i, x in enumerate(l) if e["a"] <= x <= e["b"] or any(abs(x - e[k]) < .5 * PTOL * st[min(i, len(st) - 1)] for k in "ab")]
            s = self.run(self.find("getPosInRange", "long", "double", "double"), [C(d), sym("a"), sym("b")], S)
            self.ob(L, "getPosInRange(%s)" % "xyz"[d], s, s.ret(), want, E)

    def updates(self):
        U = "grid updates"
        S = (3, 2, 4)
        E = [dict(e, f=x) for e, x in zip(self.envs(S), [2., .1, 1e-3, 7.] * 5)]
        s = self.run(self.find("applyScalingFactor", "double"), [sym("f")], S)
        self.ob(U, "applyScalingFactor", s, self.fin(s), lambda e: [[x * e["f"] for x in l] for l in self.P(e)], E)
        for d in range(3):
            for b in (0, 1):
                for n in (1, 3):
                    s = self.run(self.find("setAdditionalSteps", "CartesianAxis", "CartesianBound", "vector"), [C(d), C(b), IL("s", n)], S)
                    E = self.envs(S, 10, lambda k, p: {"s%d" % i: self.rng.choice([.5, 1.25, 2.]) for i in range(n)})

                    def want(e):
                        p = [list(l) for l in self.P(e)]
                        for i in range(n):
                            if b:
                                p[d].append(p[d][-1] + e["s%d" % i])
                            else:
                                p[d].insert(0, p[d][0] - e["s%d" % i])
                        return p
                    self.ob(U, "setAdditionalSteps(%s%s,%d)" % ("xyz"[d], "LU"[b], n), s, self.fin(s), want, E)
        for z in ((3, 1, 2), (2, 4, 1), (1, 2, 3), (3, 3, 0), (0, 1, 1), (2, 0, 2)):
            s = self.run(self.find("setPos", "vector"), [mk("il", *[IL("q%d_" % d, z[d]) for d in range(3)])], S)
            E = [{"q%d_%d" % (d, i): 1. + 3 * d + .7 * i for d in range(3) for i in range(z[d])}]
            q = lambda e: [[e["q%d_%d" % (d, i)] for i in range(z[d])] for d in range(3)]
            self.ob(U, "setPos %s" % (z,), s, self.fin(s), lambda e: REFUSED if 0 in z else [l if len(l) > 1 else l * 2 for l in q(e)], E)

    def construction(self):
        K = "grid construction"
        s = self.run(self.find("(ctor)", "std::vector"), [mk("il", *[IL("q%d_" % d, n) for d, n in enumerate((3, 2, 4))])])
        self.ob(K, "from positions", s, self.fin(s), lambda e: [[e["q%d_%d" % (d, i)] for i in range(n)] for d, n in enumerate((3, 2, 4))],
                [{"q%d_%d" % (d, i): 1. + 3 * d + .7 * i for d in range(3) for i in range((3, 2, 4)[d])}])
        for lab, f, cases in (("number of cells", self.find("(ctor)", "Box", "Cartesian<int"), [(1, 2, 3), (4, 1, 2)]),
                              ("cell size", self.find("(ctor)", "Box", "Cartesian<double"), [(1., 2., 4.), (.8, 3., 3.), (0., 1., 2.), (2., .75, 0.), (9., 1., 1.)])):
            for lo, hi in (((0., 1., 2.), (3., 5., 8.)), ((-1.5, .5, -4.), (1.5, 4.5, -1.))):
                for n in cases:
                    # constants are propagated through the sizes of the loops
                    P3 = self.ctx
                    vec = lambda t, v: (t, v)
                    B, D = sym("B"), sym("D")
                    bt = "SEMBA::Geometry::Box<double, 3>::"
                    vt = "SEMBA::Math::Vector::Cartesian<%s, 3>::val"
                    put = [(mk("el", fld(fld(B, bt + m), vt % "double"), C(i)), C(v[i])) for m, v in (("min_", lo), ("max_", hi)) for i in range(3)]
                    put += [(mk("el", fld(D, vt % ("int" if lab[0] == "n" else "double")), C(i)), C(n[i])) for i in range(3)]
                    s = Shaped(self.ctx, f, inl10, [B, D], put=put)

                    def want(e):
                        out = []
                        for a, b, x in zip(lo, hi, n):
                            if lab[0] == "n":
                                c, h = x, (b - a) / x
                            elif x == 0:
                                c, h = 1, 0.
                            else:
                                c, h = math.ceil((b - a) / x - 1e-9), x
                            out.append([a + h * i for i in range(c + 1)])
                        return out
                    self.ob(K, "by %s %s of %s-%s" % (lab, n, lo, hi), s, self.fin(s), want, [{}])

    def enlarge(self):
        K = "grid enlargement"
        f = self.find("enlarge", "pair", "pair")
        # which padding and size go to which bound
        s = Shaped(self.ctx, f, lambda g: False if g["n"].endswith("enlargeBound") else inl10(g), [mk("pair", sym("PL"), sym("PU")), mk("pair", sym("SL"), sym("SU"))])
        calls = []
        for ef, pc, loops, stk in flat(s.r.trace):
            if ef[0] == "call" and ef[1].endswith("::enlargeBound"):
                calls.append(tuple(canon(s.ev, x) for x in ef[4]) + (pc is TRUE or isc(pc) and pc.a[0], bool(loops)))
        want = sorted((str(d), str(b), "%s.val[%d]" % (("PL", "PU")[b], d), "%s.val[%d]" % (("SL", "SU")[b], d)) for d in range(3) for b in (0, 1))
        got = sorted(c[:4] for c in calls)
        ok = True if got == want and all(c[4] and not c[5] for c in calls) else None if any(c[5] or not c[4] for c in calls) or not calls or any("unk" in x for c in got for x in c) else False
        self.ctx.ob(K, "each bound gets its own padding and size", ok, "calls: %s" % str(got)[:300], self.ctx.loc(f))
        # one bound: no padding, too large cells, cells of the size of the bound
        fb = self.find("enlargeBound", "CartesianAxis", "CartesianBound", "double", "double")
        lines = ([0., 1., 3., 6.], [-1., 1.], [2., 2.5, 4.5])
        for d in range(3):
            for b in (0, 1):
                l = lines[d]
                h = l[1] - l[0] if b == 0 else l[-1] - l[-2]
                for pad, siz, lab in ((0., 0., "no padding"), (1., 2., "cell larger than padding"), (2 * h, h, "two cells"), (3 * h, 0., "three cells, size not given"), (2.5 * h, h, "two cells and a half"),
                                      (2 * h, .5 * h, "finer than the bound"), (h, h, "one cell")):
                    if abs(siz) > abs(pad) and lab != "cell larger than padding":
                        continue
                    s = self.run(fb, [C(d), C(b), C(pad), C(siz)], consts=lines)
                    n = 0 if pad == 0 or abs(siz) > abs(pad) else math.ceil(pad / h - 1e-9)

                    def want2(e):
                        p = [list(x) for x in lines]
                        for i in range(n):
                            if b:
                                p[d].append(p[d][-1] + h)
                            else:
                                p[d].insert(0, p[d][0] - h)
                        return p
                    self.ob(K, "%s%s: %s" % ("xyz"[d], "LU"[b], lab), s, self.fin(s), want2, [{}])
                for pad, siz in ((4 * h, 3 * h), (10 * h, 3 * h), (30 * h, 2.5 * h)):
                    s = self.run(fb, [C(d), C(b), C(pad), C(siz)], consts=lines)
                    self.graded(K, "%s%s: coarser cells, %g of %g" % ("xyz"[d], "LU"[b], pad / h, siz / h), s, lines, d, b, h, pad, siz)

    def graded(self, K, inst, s, lines, d, b, h, pad, siz):
        """the cell sizes grow steadily from the one of the bound to the given one, over about the padding"""
        w = self.ctx.loc(s.f)
        try:
            p = [s.number(t, {}) for t in self.fin(s)]
        except (NoVal, TypeError) as e:
            return self.ctx.ob(K, "Grid." + inst, None, "does not follow: %s" % e, w)
        ok = all(closetree(p[i], list(lines[i])) for i in range(3) if i != d)
        l = p[d] if b else [-x for x in reversed(p[d])]
        o = list(lines[d]) if b else [-x for x in reversed(lines[d])]
        ok = ok and closetree(l[:len(o)], o)
        st = [y - x for x, y in zip(l, l[1:])][len(o) - 1:]
        ok = ok and len(st) > 0 and close(st[-1], siz) and abs(sum(st) - pad) < h
        if ok:
            r = [y / x for x, y in zip([h] + st, st)]
            ok = min(r) > 1 and max(r[:-1] or [r[-1]]) - min(r[:-1] or [r[-1]]) < 1e-6
        self.ctx.ob(K, "Grid." + inst, ok, "positions become %s" % str(p[d])[:200], w)


    LINES = ([.5, 2., 3.], [1., 2.5], [-1., -.5, 2., 4.])

    def boxput(self, who, lo, hi, T_="double"):
        bt, vt = "SEMBA::Geometry::Box<%s, 3>::" % T_, "SEMBA::Math::Vector::Cartesian<%s, 3>::val" % T_
        return [(mk("el", fld(fld(sym(who), bt + m), vt), C(i)), C(v[i])) for m, v in (("min_", lo), ("max_", hi)) for i in range(3)]

    def gridput(self, who, lines):
        return [(mk("el", fld(sym(who), G + "::pos_"), C(d)), mk("il", *[C(x) for x in lines[d]])) for d in range(3)]

    def vecput(self, who, v, T_="double"):
        return [(mk("el", fld(sym(who), "SEMBA::Math::Vector::Cartesian<%s, 3>::val" % T_), C(i)), C(x)) for i, x in enumerate(v)]

    def pieces(self):
        """cells around a point, the cells inside a box, a box cut along the lines of a grid"""
        ctx, L = self.ctx, self.LINES
        i_, r_ = fld(sym("Q"), "Q::i"), fld(sym("Q"), "Q::r")
        for d in range(3):
            l = L[d]
            for x in [y for a, b in zip(l, l[1:]) for y in (a, a + .25 * (b - a), a + .9 * (b - a))] + [l[0] - .5, l[-1], l[-1] + .25]:
                s = self.run(self.find("getNaturalCell", "", "", "", ""), [C(d), C(x), i_, r_], consts=L)
                inn = l[0] <= x < l[-1]
                n = 0 if x < l[0] else len(l) - 1 if not inn else max(i for i, y in enumerate(l) if y <= x)
                self.ob("location of points", "getNaturalCell(%s,%g)" % ("xyz"[d], x), s, [s.ret() if s.ret() is not None else None, s.loc(i_)] + ([s.loc(r_)] if inn else []),
                        lambda e: [inn, n] + ([(x - l[n]) / (l[n + 1] - l[n])] if inn else []), [{}])
        f = self.find("getCVecI3Fractional", "Cart", "bool")
        X = sym("X")
        for x in ((2.2, 1., -.7), (.5, 2.5, 4.), (3., 1.75, 2.), (.75, 1.25, 3.), (.25, 2., 0.), (1., 3., 0.), (1., 2., -1.5), (4., 2., 0.)):
            s = Shaped(ctx, f, inl10, [X, r_], put=self.vecput("X", x) + [(GP(d), mk("il", *[C(y) for y in L[d]])) for d in range(3)])
            inn = all(l[0] <= y <= l[-1] for l, y in zip(L, x))
            ijk = [max([i for i, z in enumerate(l) if z <= y] or [0]) for l, y in zip(L, x)]
            v = s.r.ret
            tr = [s.loc(r_)]
            if inn and v is not None:
                tr += [[s.loc(mk("el", fld(v, "SEMBA::Math::Vector::Cartesian<int, 3>::val"), C(i))) for i in range(3)], s.tree(s.ev.val(s.r.st, fld(v, "SEMBA::Math::CVecI3Fractional::len_")))]
            self.ob("location of points", "getCVecI3Fractional%s" % (x,), s, tr, lambda e: [inn] + ([ijk, [(y - l[i]) / (l[i + 1] - l[i]) if i < len(l) - 1 else 0. for l, y, i in zip(L, x, ijk)]] if inn else []), [{}])
        f = self.find("getCenterOfCellsInside", "Box")
        for lo, hi in (((.5, 1., -1.), (3., 2.5, 4.)), ((2., 1., -.5), (3., 2.5, 2.)), ((.2, .8, -.6), (2.4, 2.7, 4.5)), ((.6, 1., -1.), (1.9, 2.5, 2.))):
            s = Shaped(ctx, f, inl10, [sym("B")], put=self.boxput("B", lo, hi) + [(GP(d), mk("il", *[C(x) for x in L[d]])) for d in range(3)])
            ls = [[x for x in l if a <= x <= b] for l, a, b in zip(L, lo, hi)]
            c = [[(x + y) / 2 for x, y in zip(l, l[1:])] for l in ls]
            self.ob("pieces", "getCenterOfCellsInside(%s,%s)" % (lo, hi), s, s.ret(), lambda e: [[x, y, z] for x in c[0] for y in c[1] for z in c[2]], [{}])
        for T_ in ("double", "int"):
            b = BoxOps(ctx, T_)
            prod = lambda c: [[list(p) for p in zip(x, y, z)] for x in c[0] for y in c[1] for z in c[2]]
            cut = lambda l: [[x, y] for x, y in zip(l, l[1:])] or [[l[0], l[0]]]
            f = b.find("chop", "Grid")
            lines = L if T_ == "double" else ([0., 2., 3.], [1., 4.], [-2., 0., 1., 5.])
            for lo, hi in ((((.5, 1., -1.), (3., 2.5, 2.)), ((.75, 1., -.75), (2.5, 2.25, 4.)), ((.5, 1.5, -.5), (2., 2.5, 3.))) if T_ == "double" else
                           (((0, 1, -2), (3, 4, 5)), ((1, 1, -1), (3, 4, 4)), ((0, 2, 0), (2, 4, 0)))):
                s = Shaped(ctx, f, inl10, [sym("R")], put=self.boxput("G", lo, hi, T_) + self.gridput("R", lines), assume=[])
                c = [cut(sorted(set([x for x in l if a <= x <= e] + [a, e]))) for l, a, e in zip(lines, lo, hi)]
                self.ob("pieces", "Box<%s>(%s,%s).chop(grid)" % (T_, lo, hi), s, s.ret(), lambda e: prod(c), [{}])
            f = b.find("chop", "Cart")
            for lo, hi, st in ((((.5, 1., -1.), (3., 2.5, 1.5), (1., 1., 1.)), ((0., 0., 0.), (2., 1., 1.5), (.5, 2., 0.)), ((-1.25, 2., 3.), (1.25, 2., 4.), (.5, 1., .25))) if T_ == "double" else
                               (((0, 1, -2), (3, 2, 0), (1, 1, 1)), ((0, 0, 0), (5, 2, 4), (2, 3, 0)), ((1, 2, -3), (4, 2, 0), (2, 1, 2)))):
                s = Shaped(ctx, f, inl10, [sym("St")], put=self.boxput("G", lo, hi, T_) + self.vecput("St", st, T_))
                c = []
                for a, e, h in zip(lo, hi, st):
                    h = e - a if h <= 0 or e - a < h else h
                    k = [] if h == 0 else [h * i for i in range(math.floor(a / h), math.floor(e / h) + 1) if a <= h * i <= e]
                    c.append(cut(sorted(set(k + [a, e]))))
                self.ob("pieces", "Box<%s>(%s,%s).chop(%s)" % (T_, lo, hi, st), s, s.ret(), lambda e: prod(c), [{}])


def check(ctx):
    for t in ("double", "int"):
        BoxOps(ctx, t).check()
    GridOps(ctx).check()
