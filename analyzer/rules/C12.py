"""C12 functions of one and several variables, point generators and averages: what they compute"""
import itertools
import random
from lib import *
from rules.C11 import Ops, inl11

EXPL = ("Every function class (Gaussian, band limited, interpolated, polynomial) is evaluated, callees inlined, on objects whose parameters are unknown and whose tables have a given number of rows; "
        "the terms obtained for its value and for the objects its operations leave are compared with the definition by constant propagation in every class of arguments (at, between, before and after the points; zero, repeated and absent monomials).")
FLOOR = 60
F = "SEMBA::Math::Function::"
rng = random.Random(12)


def same(o, name, s, tr, want, envs, **k):
    o.ob(name, s, tr, want, envs, **k)


# ---------------------------------------------------------------------- closed forms
def gaussian(ctx):
    o = Ops(ctx, F + "Gaussian", "Gaussian", "signals")
    m = lambda n: fld(sym("G"), o.cls + "::" + n)
    envs = [{"G.spread_": rng.choice([.5, 1., 2.5]), "G.delay_": rng.choice([0., 1., 3.5]), "G.freq_": rng.choice([0., .25, 2.]), "t": rng.choice([0., .5, 1., 4.25, -1.])} for _ in range(25)]
    s = o.run(o.find("operator()", "double"), [sym("t")])
    o.ob("value", s, s.ret(), lambda e: math.exp(-((e["t"] - e["G.delay_"]) / (e["G.spread_"] * math.sqrt(2))) ** 2) * math.cos(2 * math.pi * e["G.freq_"] * e["t"]), envs)
    for nm, fd in (("getSpread", "spread_"), ("getDelay", "delay_"), ("getFreq", "freq_")):
        s = o.run(o.find(nm), [])
        o.ob(nm, s, s.ret(), lambda e: e["G." + fd], envs[:4])
    s = o.run(o.find("(ctor)", "double", "double", "double"), [sym("a"), sym("b"), sym("c")])
    obj = lambda s, who: [s.loc(fld(who, o.cls + "::" + n)) for n in ("spread_", "delay_", "freq_")]
    o.ob("(spread,delay,frequency)", s, obj(s, s.o), lambda e: [e["a"], e["b"], e["c"]], [{"a": 1., "b": 2., "c": 3.}])
    s = o.run(o.find("(ctor)", "Gaussian"), [sym("A")])
    o.ob("copy", s, obj(s, s.o), lambda e: [e["A.spread_"], e["A.delay_"], e["A.freq_"]], [{"A.spread_": 1., "A.delay_": 2., "A.freq_": 3.}])
    s = o.run(o.find("buildFromMaximumFrequency", "double"), [sym("f")])
    # the spectrum has fallen to a few percent at the maximum frequency, and the pulse starts from rest
    o.ob("buildFromMaximumFrequency", s, obj(s, s.r.ret) if s.r.ret is not None else None, lambda e: REFUSED if e["f"] <= 0 else [.2 / e["f"], 6 * .2 / e["f"], 0.], [{"f": x} for x in (-2., -.5, 0., .5, 1., 1e9)])
    two = [dict([("%s.%s" % (w, n), rng.choice([1., 2.])) for w in "GA" for n in ("spread_", "delay_", "freq_")]) for _ in range(20)]
    equality(o, lambda e: all(e["G." + n] == e["A." + n] for n in ("spread_", "delay_", "freq_")), two)


def equality(o, want, envs, put=(), nm=""):
    """operator== on two functions of the same class, and of different ones"""
    f = o.find("operator==", "Base")
    no = [(eq(sym("G"), sym("A")), False), (eq(sym("A"), sym("G")), False)]
    no = no + [(eq(sym("A"), NULL), False)]
    s = o.run(f, [sym("A")], exact={sym("G"): o.cls, sym("A"): o.cls}, put=put, assume=no)
    o.ob("==%s" % nm, s, s.ret(), want, envs)
    for other in (F + "Gaussian", F + "BandLimited", F + "Polynomial<double>", F + "LinearInterpolation<double, double>"):
        if other != o.cls:
            s = o.run(f, [sym("A")], exact={sym("G"): o.cls, sym("A"): other}, put=put, assume=no)
            o.ob("== a %s%s" % (short(other).split("::")[-1], nm), s, s.ret(), lambda e: False, envs[:2])


def band(ctx):
    o = Ops(ctx, F + "BandLimited", "BandLimited", "signals")
    f = o.find("(ctor)", "double", "double")
    s = o.run(f, [sym("lo"), sym("hi")])
    vals = (-1., 0., .5, 1., 2.)
    o.ob("(minimum,maximum)", s, [s.loc(fld(s.o, o.cls + "::" + n)) for n in ("minimumFrequency_", "maximumFrequency_")],
         lambda e: [e["lo"], e["hi"]] if 0 < e["lo"] < e["hi"] else REFUSED, [{"lo": a, "hi": b} for a in vals for b in vals])

    def val(e):
        lo, hi, td = e["G.minimumFrequency_"], e["G.maximumFrequency_"], e["t"] - 20. / e["G.minimumFrequency_"]
        b, c, w = (hi - lo) / 2, (hi + lo) / 2, 10. / hi
        x = 2 * math.pi * b * td
        return (math.sin(x) / x if x else 1.) * math.exp(-td ** 2 / w ** 2 / 2) * math.cos(2 * math.pi * c * td)
    s = o.run(o.find("operator()", "double"), [sym("t")])
    envs = [{"G.minimumFrequency_": lo, "G.maximumFrequency_": hi, "t": 20. / lo + d} for lo, hi in ((.5, 1.), (1., 3.), (2., 2.5)) for d in (-1.25, -.1, 0., .03, .5, 2.)]
    o.ob("value", s, s.ret(), val, envs, tol=1e-9)
    two = [{"G.minimumFrequency_": a, "G.maximumFrequency_": b, "A.minimumFrequency_": c, "A.maximumFrequency_": d} for a in (1., 2.) for b in (3., 4.) for c in (1., 2.) for d in (3., 4.)]
    equality(o, lambda e: all(e["G." + n] == e["A." + n] for n in ("minimumFrequency_", "maximumFrequency_")), two)


# ---------------------------------------------------------------------- interpolation
def interpolation(ctx):
    o = Ops(ctx, F + "LinearInterpolation<double, double>", "LinearInterpolation", "interpolation")
    tab = fld(sym("G"), o.cls + "::value_")
    f = o.find("operator()", "double")
    for xs in ([], [1.], [-2., 3.], [0., 1., 4.], [-3., -1., .5, 2., 10.]):
        put = [(tab, mk("map", *[y for i, x in enumerate(xs) for y in (C(x), sym("y%d" % i))]) if xs else mk("il"))]
        pos = sorted(set([-20., 20., 0.] + xs + [(a + b * 3) / 4 for a, b in zip(xs, xs[1:])] + [(a * 7 + b) / 8 for a, b in zip(xs, xs[1:])]))
        envs = [{"y%d" % i: rng.choice([-2., 0., 1., 5.5]) for i in range(len(xs))} for _ in range(6)]
        for p in pos:
            def want(e):
                if not xs:
                    return REFUSED
                if p <= xs[0]:
                    return e["y0"]
                if p >= xs[-1]:
                    return e["y%d" % (len(xs) - 1)]
                i = max(j for j, x in enumerate(xs) if x <= p)
                return e["y%d" % i] + (p - xs[i]) / (xs[i + 1] - xs[i]) * (e["y%d" % (i + 1)] - e["y%d" % i])
            s = o.run(f, [C(p)], put=put)
            o.ob("value at %g of %s" % (p, xs), s, s.ret(), want, envs)
    for xs in ([1.], [3., 1.], [1., 2., 3.], [2., -1., 7., 0.]):
        ctor = o.find("(ctor)", "vector")
        s = o.run(ctor, [mk("il", *[mk("pair", C(x), sym("y%d" % i)) for i, x in enumerate(xs)])])
        t = s.ev.val(s.r.st, fld(s.o, o.cls + "::value_")) if s.r.st is not None else None
        got = [[C(t.a[i].a[0]), s.tree(t.a[i + 1])] for i in range(0, len(t.a), 2)] if t is not None and t.k == "map" else None
        o.ob("table of %s" % xs, s, got, lambda e: sorted([x, e["y%d" % i]] for i, x in enumerate(xs)), [{"y%d" % i: 10. + i for i in range(len(xs))}])
    ot = fld(sym("A"), o.cls + "::value_")
    for xs, zs in (([0., 2.], [0., 2.]), ([1.], [1.]), ([0., 2.], [0., 3.]), ([0., 2.], [0., 2., 4.]), ([], []), ([], [1.])):
        M = lambda l, w: mk("map", *[y for i, x in enumerate(l) for y in (C(x), sym("%s%d" % (w, i)))]) if l else mk("il")
        envs = [dict([("y%d" % i, rng.choice([1., 2.])) for i in range(3)] + [("z%d" % i, rng.choice([1., 2.])) for i in range(3)]) for _ in range(12)]
        equality(o, lambda e: xs == zs and all(e["y%d" % i] == e["z%d" % i] for i in range(len(xs))), envs, put=[(tab, M(xs, "y")), (ot, M(zs, "z"))], nm=" %s and %s" % (xs, zs))
    fromfile(ctx, o)


def fromfile(ctx, o):
    """points read from a file: stored only when both numbers were read, abscissa first"""
    f = o.find("(ctor)", "basic_string")
    s = Scen(ctx, f, {}, {}, inl11, ())
    P = ctx.P
    seen, last, tested, pts = [], None, None, 0
    for ef, pc, loops, st in s.flat():
        nm = ef[1] if ef[0] in ("call", "pure") and isinstance(ef[1], str) else ""
        l = short(nm).split("::")[-1]
        if l == "operator>>":
            last, tested = ef, None
        elif l in ("operator bool", "fail", "good", "operator!") and last is not None:
            tested = ef
        elif l == "eof" and last is not None and tested is None:
            seen.append("eof")
        elif ef[0] == "call" and "std::map" in nm and l in ("insert", "emplace", "operator[]", "insert_or_assign", "emplace_hint"):
            pts += 1
            if last is not None:
                ctx.ob("interpolation", "points of a file are stored once both numbers have been read", True if tested is not None else (None if "eof" in seen else False),
                       "the state of the stream is %s between reading and storing" % ("tested" if tested is not None else "not tested"), ctx.loc(f))
            for a in ef[4] if isinstance(ef[4], list) else []:
                v = s.ev.val(st, a) if a.__class__ is T else a
                if v.__class__ is T and v.k == "pair" and all(x.k == "tok" for x in v.a):
                    src = [x.a[0] for x in v.a]
                    ns = [x.a[1] for x in v.a]
                    ctx.ob("interpolation", "abscissa and value of a point of a file", ns[1] == ns[0] + 1 and src[0] is src[1], "the point is (number %s, number %s)" % tuple(n + 1 for n in ns), ctx.loc(f))
    if not pts:
        ctx.ob("interpolation", "points of a file are stored once both numbers have been read", None, "how points are stored was not found", ctx.loc(f))
    thr = [t for t in s.r.throws] if hasattr(s, "r") and hasattr(s.r, "throws") else []


# ---------------------------------------------------------------------- polynomials
class PolyOps(Ops):
    def __init__(self, ctx):
        Ops.__init__(self, ctx, F + "Polynomial<double>", "Polynomial", "polynomials")

    def put(self, who, nv, mons, w):
        """polynomial object: mons is a list of (coefficient term, powers)"""
        o = sym(who)
        m = lambda n: fld(o, self.cls + "::" + n)
        return [(m("nv_"), C(nv)), (m("nm_"), C(len(mons))), (m("mv_"), mk("il", *[v for v, p in mons])), (m("mp_"), mk("il", *[mk("il", *[C(x) for x in p]) for v, p in mons]))]

    def parts(self, s, o):
        return [s.loc(fld(o, self.cls + "::" + n)) for n in ("nv_", "nm_", "mv_", "mp_")]

    def poly(self, inst, s, o, want, envs, nv):
        """the object stands for the polynomial want(env): {powers: coefficient}"""
        try:
            tr = self.parts(s, o) if s.r.st is not None and o is not None else None
        except Exception:
            tr = None
        ok, det, n = True, "", 0
        for e in envs:
            try:
                exp = want(e)
                ref = s.refused(e)
                if ref:
                    ok, det = False, "refuses"
                    break
                gv, gm, mv, mp = s.number(tr, e)
            except (NoVal, TypeError) as x:
                ok, det = None, "does not follow: %s" % x
                continue
            except ValueError:
                ok, det = None, "does not follow"
                continue
            n += 1
            got = {}
            if not (gv == nv and gm == len(mv) == len(mp) and all(len(p) == nv for p in mp)):
                ok, det = False, "%s variables, %s monomials, %d coefficients, %d sets of powers (%s)" % (gv, gm, len(mv), len(mp), str(mp)[:100])
                break
            for v, p in zip(mv, mp):
                got[tuple(p)] = got.get(tuple(p), 0) + v
            keys = set(got) | set(exp)
            if any(abs(got.get(k, 0) - exp.get(k, 0)) > 1e-9 * (1 + abs(exp.get(k, 0))) for k in keys):
                ok, det = False, "it is %s, expected %s" % ({k: v for k, v in got.items() if v}, {k: v for k, v in exp.items() if v})
                break
        self.ctx.ob(self.rule, "%s.%s" % (self.label, inst), ok, det or "%d classes" % n, self.ctx.loc(s.f))

    def envs(self, n, w="abG", zeros=True):
        return [{"%s%d" % (x, i): rng.choice([-2., 1., .5, 3.] + ([0.] if zeros and k % 2 else [])) for x in w for i in range(n)} for k in range(8)]

    def check(self):
        ctx, cls = self.ctx, self.cls
        shapes = {1: [[], [(0,)], [(2,), (0,), (1,)], [(3,), (3,)], [(5,), (1,), (0,), (2,)]], 2: [[(0, 0)], [(1, 2), (0, 3), (2, 0)]], 3: [[(1, 0, 2), (0, 0, 0), (3, 1, 1)]], 4: [[(1, 0, 2, 0), (0, 0, 0, 3), (1, 1, 1, 1)]]}
        C2 = lambda mons, w: [(sym("%s%d" % (w, i)), p) for i, p in enumerate(mons)]

        def d(e, mons, w):
            r = {}
            for i, p in enumerate(mons):
                r[tuple(p)] = r.get(tuple(p), 0) + e["%s%d" % (w, i)]
            return r

        def at(po, x):
            return sum(v * math.prod(a ** b for a, b in zip(x, p)) for p, v in po.items())
        for nv, ms in shapes.items():
            for mons in ms:
                nm = "%d variables %s" % (nv, mons)
                put = self.put("G", nv, C2(mons, "a"), "a")
                V = VTd % nv
                xs = [[rng.choice([-1., 0., .5, 2.]) for _ in range(nv)] for _ in range(6)]
                envs = [dict(e, **{"X.val[%d]" % i: x[i] for i in range(nv)}) for e, x in zip(self.envs(len(mons)), xs)]
                s = self.run(self.find("eval", "Cartesian<double, %d>" % nv), [sym("X")], put=put)
                self.ob("value of " + nm, s, s.ret(), lambda e: at(d(e, mons, "a"), [e["X.val[%d]" % i] for i in range(nv)]), envs)
                if nv == 1:
                    s = self.run(self.find("operator()", "double"), [sym("x")], put=put)
                    self.ob("value at a number of " + nm, s, s.ret(), lambda e: at(d(e, mons, "a"), [e["X.val[0]"]]), [dict(e, x=e["X.val[0]"]) for e in envs])
                for k in range(nv):
                    # constant coefficients: the monomials that vanish are removed
                    s = self.run(self.find("derive", "unsigned"), [C(k)], put=self.put("G", nv, [(C(2. + i), p) for i, p in enumerate(mons)], "a"))

                    def want(e):
                        r = {}
                        for i, p in enumerate(mons):
                            if p[k]:
                                q = tuple(x - (j == k) for j, x in enumerate(p))
                                r[q] = r.get(q, 0) + (2. + i) * p[k]
                        return r
                    self.poly("derivative %d of %s" % (k, nm), s, s.o, want, [{}], nv)
                s = self.run(self.find("maxPower"), [], put=put)
                self.ob("maxPower of " + nm, s, s.ret(), lambda e: max([0] + [x for p in mons for x in p]), [{}])
                s = self.run(self.find("operator/=", "double"), [sym("q")], put=put)
                self.poly("/= " + nm, s, s.o, lambda e: {k: v / e["q"] for k, v in d(e, mons, "a").items()}, [dict(e, q=x) for e in self.envs(len(mons)) for x in (.5, -2.)], nv)
                for f in [f for f in ctx.P.byname.get(cls + "::(ctor)", []) + ctx.P.byname.get(cls + "::operator=", []) if len(f["p"]) == 1 and "Polynomial" in f["p"][0]["t"] and f.get("b") is not None and not f.get("dep")]:
                    s = self.run(f, [sym("B")], put=self.put("G", 1, [], "a") + self.put("B", nv, C2(mons, "b"), "b"), assume=[(eq(sym("G"), sym("B")), False), (eq(sym("B"), sym("G")), False)])
                    self.poly("%s %s" % (f["n"].split("::")[-1], nm), s, s.o, lambda e: d(e, mons, "b"), self.envs(len(mons)), nv)
                for i, p in enumerate(mons):
                    s = self.run(self.find("monomialValue", "unsigned"), [C(i)], put=put)
                    self.ob("monomialValue %d of %s" % (i, nm), s, s.ret(), lambda e: e["a%d" % i], self.envs(len(mons))[:2])
                    for v in range(nv):
                        s = self.run(self.find("monomialPower", "unsigned", "unsigned"), [C(i), C(v)], put=put)
                        self.ob("monomialPower %d %d of %s" % (i, v, nm), s, s.ret(), lambda e: p[v], [{}])
                fs = [f for f in ctx.P.byname.get(cls + "::addMonomial", []) if len(f["p"]) == 2 and f.get("b") is not None and not f.get("dep")]
                for f in fs:
                    vec = "vector" in f["p"][1]["t"]
                    if not vec and nv != 1:
                        continue
                    q = tuple(range(3, 3 + nv))
                    s = self.run(f, [sym("c"), mk("il", *[C(x) for x in q]) if vec else C(q[0])], put=put)

                    def want(e):
                        r = d(e, mons, "a")
                        r[q] = r.get(q, 0) + e["c"]
                        return r
                    self.poly("addMonomial(%s) to %s" % ("vector" if vec else "number", nm), s, s.o, want, [dict(e, c=1.75) for e in self.envs(len(mons))], nv)
        # zeros are removed wherever they are
        for n in range(6):
            for zs in itertools.product((0., 1.), repeat=n):
                if n == 5 and sum(zs) not in (1, 2, 3):
                    continue
                mons = [(C(0. if z else 2. + i), (i,)) for i, z in enumerate(zs)]
                s = self.run(self.find("removeZeros"), [], put=self.put("G", 1, mons, "a"))
                self.ob("removeZeros %s" % "".join("0" if z else "x" for z in zs), s, self.parts(s, s.o)[1:] if s.r.st is not None else None,
                        lambda e: [sum(1 for z in zs if not z), [2. + i for i, z in enumerate(zs) if not z], [[i] for i, z in enumerate(zs) if not z]], [{}])
        # comparison
        for m1, m2 in (([(0,)], [(0,)]), ([(1,), (2,)], [(1,), (2,)]), ([(1,), (2,)], [(1,), (3,)]), ([(1,)], [(1,), (2,)]), ([(1, 2)], [(1, 2)]), ([(1, 2)], [(2, 1)]), ([], [])):
            envs = [dict([("a%d" % i, rng.choice([1., 2.])) for i in range(2)] + [("b%d" % i, rng.choice([1., 2.])) for i in range(2)]) for _ in range(10)]
            equality(self, lambda e: m1 == m2 and all(e["a%d" % i] == e["b%d" % i] for i in range(len(m1))), envs,
                     put=self.put("G", len((m1 or [(0,)])[0]), C2(m1, "a"), "a") + self.put("A", len((m2 or [(0,)])[0]), C2(m2, "b"), "b"), nm=" %s and %s" % (m1, m2))
        # products
        B = sym("B")
        neq = [(eq(B, sym("G")), False), (eq(sym("G"), B), False)]
        # (constant coefficients, so that the monomials that are absent from the product are known)
        cases = [([(0,)], [(0,)]), ([(1,), (0,)], [(2,), (0,)]), ([(3,)], [(1,), (0,), (2,)]), ([(1,), (1,)], [(0,)]), ([(0,)], [(2,), (1,), (2,)]), ([(2,), (0,)], [(2,), (0,), (1,)]), ([(0,), (1,)], [(0,), (1,)])]
        for a, b in cases:
            ca, cb = [rng.choice([-1., 2., .5, 3.]) for _ in a], [rng.choice([-2., 1., .25, 4.]) for _ in b]
            if len(a) == 2 and a == b:
                ca, cb = [1., 1.], [1., -1.]
            put = self.put("G", 1, [(C(x), p) for x, p in zip(ca, a)], "a") + self.put("B", 1, [(C(x), p) for x, p in zip(cb, b)], "b")

            def want(e):
                r = {}
                for x, p in zip(ca, a):
                    for y, q in zip(cb, b):
                        k = tuple(i + j for i, j in zip(p, q))
                        r[k] = r.get(k, 0) + x * y
                return r
            s = self.run(self.find("operator*", "Polynomial"), [B], put=put, assume=neq)
            self.poly("* %s %s" % (a, b), s, s.r.ret, want, [{}], 1)
            s = self.run(self.find("operator*=", "Polynomial"), [B], put=put, assume=neq)
            self.poly("*= %s %s" % (a, b), s, s.o, want, [{}], 1)
        for nva, a, nvb, b in ((1, [(0,)], 1, [(1,)]), (1, [(2,), (1,)], 1, [(0,), (3,)]), (2, [(1, 2), (0, 1)], 1, [(3,), (0,)]), (1, [(1,)], 3, [(1, 2, 3), (0, 0, 1)]), (2, [], 1, [(1,)])):
            put = self.put("G", nva, C2(a, "a"), "a") + self.put("B", nvb, C2(b, "b"), "b")

            def want(e):
                r = {}
                for i, p in enumerate(a):
                    for j, q in enumerate(b):
                        r[p + q] = r.get(p + q, 0) + e["a%d" % i] * e["b%d" % j]
                return r
            ev = self.envs(max(len(a), len(b), 1))
            s = self.run(self.find("operator^", "Polynomial"), [B], put=put, assume=neq)
            self.poly("external product %s %s" % (a, b), s, s.r.ret, want, ev, nva + nvb)
            s = self.run(self.find("operator^=", "Polynomial"), [B], put=put, assume=neq)
            self.poly("external product= %s %s" % (a, b), s, s.o, want, ev, nva + nvb)
        # matrices
        D = "SEMBA::Math::Matrix::Dynamic<double>"
        for mons in ([(0,)], [(2,), (0,)], [(1,), (3,), (1,)]):
            s = self.run(self.find("polynomialToMatrix"), [], put=self.put("G", 1, C2(mons, "a"), "a"))
            got = None
            if s.r.st is not None and s.r.ret is not None:
                r, c = s.loc(fld(s.r.ret, D + "::_nRows")), s.loc(fld(s.r.ret, D + "::_nCols"))
                v = s.ev.val(s.r.st, fld(s.r.ret, D + "::_val"))
                if isc(r) and isc(c):
                    got = [c] + [s.loc(mk("el", v, C(i))) for i in range(r.a[0])]
            self.ob("polynomialToMatrix %s" % mons, s, got, lambda e: [1] + [d(e, mons, "a").get((i,), 0) for i in range(max(p[0] for p in mons) + 1)], self.envs(len(mons)))
        for r, c in ((1, 1), (3, 1), (2, 2), (1, 3)):
            vals = [float((i * 2) % 3) for i in range(r * c)]
            put = self.put("G", 1 if c == 1 else 2, [], "a") + [(fld(B, D + "::_nRows"), C(r)), (fld(B, D + "::_nCols"), C(c))] + [(mk("el", fld(B, D + "::_val"), C(i)), C(v)) for i, v in enumerate(vals)]
            s = self.run(self.find("matrixToPolynomial", "Dynamic"), [B], put=put, assume=neq)
            self.poly("matrixToPolynomial %dx%d" % (r, c), s, s.r.ret, lambda e: {((i // c,) if c == 1 else (i // c, i % c)): v for i, v in enumerate(vals)}, [{}], 1 if c == 1 else 2)
        for f, w in ((self.find("(ctor)"), 0), (self.find("(ctor)", "unsigned"), 3)):
            s = self.run(f, [C(3)][:len(f["p"])])
            self.ob("(%s)" % ("" if not w else "3"), s, self.parts(s, s.o) if s.r.st is not None else None, lambda e: [w, 0, [], []], [{}])


VTd = "SEMBA::Math::Vector::Cartesian<double, %d>"


# ---------------------------------------------------------------------- points and averages
def generators(ctx):
    o = Ops(ctx, "SEMBA::Math::Util", "Util", "points and averages")
    U = "SEMBA::Math::Util::"

    def fn(name, *types):
        fs = [f for k, l in ctx.P.byname.items() if k == U + name or k.startswith(U + name + "<") for f in l if f.get("b") is not None and not f.get("dep") and len(f["p"]) == len(types) and all(t in p["t"] for t, p in zip(types, f["p"]))]
        if not fs:
            raise AnalysisError("anchor vanished: " + U + name)
        return fs
    envs = [{"a": a, "b": b} for a, b in ((0., 1.), (-2., 3.), (5., 1.), (2., 2.))]
    for f in fn("linspace", "pair", "unsigned"):
        for n in range(6):
            s = o.run(f, [mk("pair", sym("a"), sym("b")), C(n)])
            if "double" not in f["p"][0]["t"]:
                continue
            o.ob("linspace of %d" % n, s, s.ret(), lambda e: [e["b"]] if n == 1 else [e["a"] + (e["b"] - e["a"]) * i / (n - 1) for i in range(n)], envs)
    for f in fn("logspace", "pair", ""):
        for n in range(6):
            s = o.run(f, [mk("pair", sym("a"), sym("b")), C(n)])
            o.ob("logspace of %d (%s)" % (n, f["p"][1]["t"]), s, s.ret(), lambda e: [10 ** e["b"]] if n == 1 else [10 ** (e["a"] + (e["b"] - e["a"]) * i / (n - 1)) for i in range(n)], envs)
    for n in range(1, 6):
        ev = [{"v%d" % i: rng.choice([-2., 0., 1., 3.5, 7.]) for i in range(n)} for _ in range(6)]
        v = lambda e: [e["v%d" % i] for i in range(n)]
        for name, want in (("sum", lambda e: sum(v(e))), ("mean", lambda e: sum(v(e)) / n), ("meanDifference", lambda e: (v(e)[-1] - v(e)[0]) / (n - 1) if n > 1 else 0.)):
            for f in fn(name, "vector"):
                if "double" in f["p"][0]["t"]:
                    s = o.run(f, [IL("v", n)])
                    o.ob("%s of %d" % (name, n), s, s.ret(), want, ev)


def check(ctx):
    gaussian(ctx)
    band(ctx)
    interpolation(ctx)
    PolyOps(ctx).check()
    generators(ctx)
