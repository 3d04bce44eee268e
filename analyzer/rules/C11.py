"""C11 vectors, matrices and axes: what their operations compute"""
import random
from lib import *

EXPL = ("Every operation of the vector, matrix and axis classes is evaluated, callees inlined, on objects of unknown contents; the resulting terms are compared with the mathematical definition of the operation "
        "by constant propagation, in generic position and in the degenerate classes (equal components, zeros, aligned vectors).")
FLOOR = 150
VT = "SEMBA::Math::Vector::Cartesian<%s, %d>"
TOL = 1e-10
EPS = 2.220446049250313e-16 * 1e2


def inl11(f):
    return None if "/src/core/math/" in f["file"] or "/src/core/class/" in f["file"] else False


def equal(a, b, rel=0.):
    rel = rel or abs(a + b)
    if abs(a) <= EPS and abs(b) <= EPS:
        return True
    if abs(a) <= EPS or abs(b) <= EPS:
        return False
    return abs(a - b) <= TOL * rel


def lower(a, b, rel=0.):
    return not equal(a, b, rel) and a < b


def norm(v):
    return math.sqrt(sum(x * x for x in v))


class Ops:
    def __init__(self, ctx, cls, label, rule):
        self.ctx, self.cls, self.label, self.rule = ctx, cls, label, rule
        self.rng = random.Random(11)

    def find(self, name, *ptypes):
        q = name if "::" in name else self.cls + "::" + name
        fs = [f for f in self.ctx.P.byname.get(q, []) if not f.get("dep") and f.get("b") is not None and len(f["p"]) == len(ptypes) and all(x in p["t"] for x, p in zip(ptypes, f["p"]))]
        if not fs:
            raise AnalysisError("anchor vanished: %s(%s)" % (q, ", ".join(ptypes)))
        return fs[0]

    def run(self, f, args, **k):
        k.setdefault("assume", [(eq(sym(x), sym("G")), False) for x in "AB"] + [(eq(sym("G"), sym(x)), False) for x in "AB"])
        return Shaped(self.ctx, f, inl11, args, **k)

    def ob(self, inst, s, tr, want, envs, **k):
        shaped_ob(self.ctx, self.rule, "%s.%s" % (self.label, inst), s, tr, envs, want, self.ctx.loc(s.f), **k)


class VecOps(Ops):
    def __init__(self, ctx, T_, D):
        Ops.__init__(self, ctx, VT % (T_, D), "Cartesian<%s,%d>" % (T_, D), "vector operations")
        self.T, self.D, self.int = T_, D, T_ == "int"
        pool = [-3, -1, 0, 1, 2, 5] if self.int else [-2.5, -1., 0., .5, 1., 3.25]
        rng = self.rng
        self.envs = []
        for k in range(60):
            e = {"%s.val[%d]" % (w, i): rng.choice(pool) for w in "GAB" for i in range(D)}
            e.update({"s": rng.choice([x for x in pool if x]), "x": rng.choice(pool), "y": rng.choice(pool), "z": rng.choice(pool)})
            if k % 4 == 1:                # equal vectors
                e.update({"A.val[%d]" % i: e["G.val[%d]" % i] for i in range(D)})
            if k % 4 == 2:                # along an axis
                a = rng.randrange(D)
                e.update({"G.val[%d]" % i: 0 for i in range(D) if i != a})
            if k % 8 == 3:                # nearly equal
                a = rng.randrange(D)
                e.update({"A.val[%d]" % i: e["G.val[%d]" % i] + (0 if self.int else 1e-13 * (i == a)) for i in range(D)})
            self.envs.append(e)
        self.nz = [e for e in self.envs if any(e["G.val[%d]" % i] for i in range(D))]

    def v(self, e, w):
        return [e["%s.val[%d]" % (w, i)] for i in range(self.D)]

    def vec(self, s, o):
        return [s.loc(mk("el", fld(o, self.cls + "::val"), C(i))) for i in range(self.D)]

    def check(self):
        D, v = self.D, self.v
        G, A, B = (lambda e: v(e, "G")), (lambda e: v(e, "A")), (lambda e: v(e, "B"))
        S = lambda e: e["s"]
        quo = (lambda a, b: int(a / b)) if self.int else (lambda a, b: a / b)
        bi = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": quo}
        one = self.T
        for o in "+-*":
            s = self.run(self.find("operator" + o, "Cartesian"), [sym("A")])
            self.ob("%s vector" % o, s, s.ret(), lambda e: [bi[o](a, b) for a, b in zip(G(e), A(e))], self.envs)
            s = self.run(self.find("operator%s=" % o, "Cartesian"), [sym("A")])
            self.ob("%s= vector" % o, s, self.vec(s, s.o), lambda e: [bi[o](a, b) for a, b in zip(G(e), A(e))], self.envs)
        for o in "+-*/":
            s = self.run(self.find("operator" + o, "const " + one), [sym("s")])
            self.ob("%s number" % o, s, s.ret(), lambda e: [bi[o](a, S(e)) for a in G(e)], self.envs)
            s = self.run(self.find("operator%s=" % o, "const " + one), [sym("s")])
            self.ob("%s= number" % o, s, self.vec(s, s.o), lambda e: [bi[o](a, S(e)) for a in G(e)], self.envs)
        for nm, args, types, want in (("()", [], (), lambda e: [0] * D), ("(number)", [sym("s")], ("const " + one,), lambda e: [S(e)] * D),
                                      ("(begin,end)", [sym("A"), sym("B")], ("Cartesian", "Cartesian"), lambda e: [b - a for a, b in zip(A(e), B(e))])):
            s = self.run(self.find("(ctor)", *types), args)
            self.ob(nm, s, self.vec(s, s.o), want, self.envs)
        if D == 3:
            s = self.run(self.find("(ctor)", one, one, one), [sym(x) for x in "xyz"])
            self.ob("(x,y,z)", s, self.vec(s, s.o), lambda e: [e["x"], e["y"], e["z"]], self.envs)
            s = self.run(self.find("operator^", "Cartesian"), [sym("A")])
            self.ob("cross product", s, s.ret(), lambda e: [G(e)[(i + 1) % 3] * A(e)[(i + 2) % 3] - G(e)[(i + 2) % 3] * A(e)[(i + 1) % 3] for i in range(3)], self.envs)
        s = self.run(self.find("operator=", "const " + one), [sym("s")])
        self.ob("= number", s, self.vec(s, s.o), lambda e: [S(e)] * D, self.envs)
        s = self.run(self.find("dot", "Cartesian"), [sym("A")])
        self.ob("dot", s, s.ret(), lambda e: sum(a * b for a, b in zip(G(e), A(e))), self.envs)
        for nm, want in (("norm", lambda e: norm(G(e))), ("getMax", lambda e: max(G(e)))):
            s = self.run(self.find(nm), [])
            self.ob(nm, s, s.ret(), want, self.envs)
        for nm, want, envs in (("abs", lambda e: [abs(x) for x in G(e)], self.envs), ("normalize", lambda e: [x / norm(G(e)) for x in G(e)], self.nz)):
            if nm == "normalize" and self.int:
                continue
            s = self.run(self.find(nm), [])
            self.ob(nm, s, self.vec(s, s.o), want, envs)
        s = self.run(self.find("operator==", "Cartesian"), [sym("A")])
        same = lambda e: equal(norm([a - b for a, b in zip(G(e), A(e))]), 0., norm([a + b for a, b in zip(G(e), A(e))]))
        self.ob("==", s, s.ret(), same, self.envs)
        s = self.run(self.find("operator!=", "Cartesian"), [sym("A")])
        self.ob("!=", s, s.ret(), lambda e: not same(e), self.envs)
        s = self.run(self.find("setWithMinimalComponents", "Cartesian"), [sym("A")])
        self.ob("setWithMinimalComponents", s, self.vec(s, s.o), lambda e: [min(a, b) for a, b in zip(G(e), A(e))], self.envs)
        for n in range(D + 2):
            s = self.run(self.find("cyclicPermutation", "unsigned"), [C(n)])
            self.ob("cyclicPermutation(%d)" % n, s, self.vec(s, s.o), lambda e: [G(e)[(i - n) % D] for i in range(D)], self.envs)
        for n in range(2 ** D + 1):
            s = self.run(self.find("setAsBinary", "unsigned"), [C(n)])
            self.ob("setAsBinary(%d)" % n, s, self.vec(s, s.o), lambda e: REFUSED if n >= 2 ** D else [(n >> (D - 1 - i)) & 1 for i in range(D)], [{}])
        for nm in ("operator()", "operator[]"):
            for i in range(D + 1):
                fs = [f for f in self.ctx.P.byname.get(self.cls + "::" + nm, []) if f.get("b") is not None and len(f["p"]) == 1 and not f.get("dep")]
                if not fs:
                    raise AnalysisError("anchor vanished: " + nm)
                for f in fs:
                    s = self.run(f, [C(i)])
                    self.ob("%s%d%s" % (nm, i, " const" if f.get("const") else ""), s, s.ret(), lambda e: REFUSED if i >= D else G(e)[i], self.envs[:8])
        if D == 3:
            inplane = lambda w, p: equal(abs(w[(2, 0, 1)[p]]), 0.)
            for p in range(3):
                s = self.run(self.find("isContainedInPlane", "CartesianPlane"), [C(p)])
                self.ob("isContainedInPlane(%s)" % ("xy", "yz", "zx")[p], s, s.ret(), lambda e: inplane(G(e), p), self.envs)
            s = self.run(self.find("isContainedInPlane"), [])
            self.ob("isContainedInPlane", s, s.ret(), lambda e: any(inplane(G(e), p) for p in range(3)), self.envs)
            s = self.run(self.find("isCoplanar", "Cartesian"), [sym("A")])
            self.ob("isCoplanar", s, s.ret(), lambda e: any(inplane([a - b for a, b in zip(G(e), A(e))], p) for p in range(3)), self.envs)
        axis = lambda e: ([i for i in range(D) if equal(abs(G(e)[i]), norm(G(e)), 1e-2)] + [REFUSED])[0]
        s = self.run(self.find("getCartesianAxis"), [])
        self.ob("getCartesianAxis", s, s.ret(), axis, self.nz)
        if D == 3:
            for nm, want in (("operator<", lambda a, b: a < b), ("operator<=", lambda a, b: a <= b), ("operator>", lambda a, b: a > b), ("operator>=", lambda a, b: a >= b)):
                fs = [f for f in self.ctx.P.byname.get("SEMBA::Math::Vector::" + nm, []) + [g for k, l in self.ctx.P.byname.items() if k.startswith("SEMBA::Math::Vector::%s<" % nm) for g in l]
                      if f.get("b") is not None and not f.get("dep") and self.cls in f["p"][0]["t"]]
                if not fs:
                    raise AnalysisError("anchor vanished: %s of %s" % (nm, self.cls))
                s = self.run(fs[0], [sym("G"), sym("A")])

                def cmp(e):
                    for a, b in zip(G(e), A(e)):
                        if lower(a, b):
                            return want(0, 1)
                        if lower(b, a):
                            return want(1, 0)
                    return want(0, 0)
                self.ob("lexicographic " + nm[8:], s, s.ret(), cmp, self.envs)


def conversions(ctx):
    r, i = VT % ("double", 3), VT % ("int", 3)
    for cls, src, cut in ((r, i, lambda x: x), (i, r, int)):
        o = Ops(ctx, cls, short(cls), "vector operations")
        envs = [{"A.val[0]": a, "A.val[1]": b, "A.val[2]": c} for a, b, c in (((1, -2, 3), (0, 5, -7)) if src is i else ((1.5, -2.25, 3.), (0., 5.75, -7.5)))]
        want = lambda e: [cut(e["A.val[%d]" % k]) for k in range(3)]
        for nm in ("(ctor)", "operator="):
            fs = [f for k in (nm, nm + "<int>", nm + "<double>") for f in ctx.P.byname.get(cls + "::" + k, []) if f.get("b") is not None and not f.get("dep") and len(f["p"]) == 1 and src in f["p"][0]["t"]]
            if not fs:
                raise AnalysisError("anchor vanished: conversion of vectors")
            s = o.run(fs[0], [sym("A")])
            o.ob("%s from %s" % (nm, short(src)), s, [s.loc(mk("el", fld(s.o, cls + "::val"), C(k))) for k in range(3)], want, envs)


def reals(ctx):
    o = Ops(ctx, "SEMBA::Math::Util", "Util", "comparisons of reals")
    U = "SEMBA::Math::Util::"
    nums = [0., 1e-15, -1e-15, 1., 1. + 1e-12, 1. + 1.5e-10, 1. + 1e-8, -1., -1. - 1e-12, 2.5, 1e6, 1e6 + 1e-6, 1e6 + 1., -3.]
    envs = [{"a": a, "b": b, "r": r} for a in nums for b in nums for r in (0., 1., 1e3)]
    for nm, want in (("equal", equal), ("notEqual", lambda a, b, r: not equal(a, b, r)), ("lower", lower), ("lowerEqual", lambda a, b, r: not lower(b, a, r)),
                     ("greater", lambda a, b, r: lower(b, a, r)), ("greaterEqual", lambda a, b, r: not lower(a, b, r))):
        s = o.run(o.find(U + nm, "double", "double", "double", "double"), [sym("a"), sym("b"), sym("r"), C(TOL)])
        o.ob(nm, s, s.ret(), lambda e: want(e["a"], e["b"], e["r"]), envs)
    vals = [0., .2, .5, .8, 1., 1.005, 1.5, 2.4999, -.2, -.5, -.7, -1., -2.75, 3.]
    for nm, args, types, want in (("sign", [sym("a")], ("double",), lambda a: -1. if a < 0 else 1.), ("round", [sym("a")], ("double",), lambda a: float(math.floor(a + .5))),
                                  ("ceil", [sym("a"), C(0.)], ("double", "double"), lambda a: float(math.ceil(a))), ("ceil", [sym("a"), C(.01)], ("double", "double"), lambda a: float(math.ceil(a - .01)))):
        s = o.run(o.find(U + nm, *types), args)
        o.ob("%s%s" % (nm, "" if len(args) < 2 else " within %s" % args[1].a[0]), s, s.ret(), lambda e: want(e["a"]), [{"a": x} for x in vals])


# ---------------------------------------------------------------------- matrices
class MatOps(Ops):
    def __init__(self, ctx, n):
        Ops.__init__(self, ctx, "SEMBA::Math::Matrix::Static<double, %d, %d>" % (n, n), "Static<%d,%d>" % (n, n), "matrix operations")
        self.n = n
        rng = self.rng
        self.envs = [dict([("%s%d" % (w, i), rng.choice([-2., -.5, 0., 1., 1.5, 3.])) for w in "ab" for i in range(n * n)] + [("s", rng.choice([-2., .5, 3.])), ] + [("V.val[%d]" % i, rng.choice([-1., 0., 2.])) for i in range(n)])
                     for _ in range(20)]

    def m(self, e, w="a"):
        return [[e["%s%d" % (w, i * self.n + j)] for j in range(self.n)] for i in range(self.n)]

    def store(self, who, w):
        return [(mk("el", fld(sym(who), self.cls + "::_val"), C(i)), sym("%s%d" % (w, i))) for i in range(self.n ** 2)]

    def mrun(self, f, args):
        put = self.store("G", "a") + self.store("A", "b")
        return self.run(f, args, put=put)

    def mat(self, s, o):
        return [[s.loc(mk("el", fld(o, self.cls + "::_val"), C(i * self.n + j))) for j in range(self.n)] for i in range(self.n)]

    def check(self):
        n, m = self.n, self.m
        A, B = (lambda e: m(e)), (lambda e: m(e, "b"))
        cw = lambda f, *ms: [[f(*x) for x in zip(*r)] for r in zip(*ms)]
        for nm, arg, t, want in (("+=", sym("A"), "Static", lambda e: cw(lambda x, y: x + y, A(e), B(e))), ("-=", sym("A"), "Static", lambda e: cw(lambda x, y: x - y, A(e), B(e))),
                                 ("*=", sym("s"), "double", lambda e: cw(lambda x: x * e["s"], A(e))), ("/=", sym("s"), "double", lambda e: cw(lambda x: x / e["s"], A(e))),
                                 ("+=", sym("s"), "double", lambda e: cw(lambda x: x + e["s"], A(e))), ("=", sym("A"), "Static", B)):
            s = self.mrun(self.find("operator" + nm, t), [arg])
            self.ob("%s %s" % (nm, t), s, self.mat(s, s.o), want, self.envs)
        for nm, arg, t, want in (("+", sym("A"), "Static", lambda e: cw(lambda x, y: x + y, A(e), B(e))), ("*", sym("s"), "double", lambda e: cw(lambda x: x * e["s"], A(e)))):
            s = self.mrun(self.find("operator" + nm, t), [arg])
            self.ob("%s %s" % (nm, t), s, self.mat(s, s.r.ret), want, self.envs)
        s = self.mrun(self.find("transpose"), [])
        self.ob("transpose", s, self.mat(s, s.r.ret), lambda e: [list(r) for r in zip(*A(e))], self.envs)
        if n == 3:
            s = self.mrun(self.find("operator*", "Cartesian"), [sym("V")])
            self.ob("* vector", s, s.ret(), lambda e: [sum(A(e)[i][j] * e["V.val[%d]" % j] for j in range(n)) for i in range(n)], self.envs)
            s = self.mrun(self.find("setInDiagonal", "Cartesian"), [sym("V")])
            self.ob("setInDiagonal", s, self.mat(s, s.o), lambda e: [[e["V.val[%d]" % i] if i == j else A(e)[i][j] for j in range(n)] for i in range(n)], self.envs)
            fs = [f for k, l in self.ctx.P.byname.items() if k.startswith("SEMBA::Math::Matrix::operator*") for f in l if f.get("b") is not None and not f.get("dep") and len(f["p"]) == 2 and
                  all(self.cls in p["t"] for p in f["p"])]
            if not fs:
                raise AnalysisError("anchor vanished: product of matrices")
            s = self.mrun(fs[0], [sym("G"), sym("A")])
            self.ob("* matrix", s, self.mat(s, s.r.ret), lambda e: [[sum(A(e)[i][k] * B(e)[k][j] for k in range(n)) for j in range(n)] for i in range(n)], self.envs)
        s = self.mrun(self.find("(ctor)"), [])
        self.ob("()", s, self.mat(s, s.o), lambda e: [[0] * n] * n, [{}])
        for i in range(n):
            for j in range(n):
                for f in [f for k in ("operator()", "val") for f in self.ctx.P.byname.get(self.cls + "::" + k, []) if f.get("b") is not None and len(f["p"]) == 2 and not f.get("dep")]:
                    s = self.mrun(f, [C(i), C(j)])
                    self.ob("%s(%d,%d)" % (f["n"].split("::")[-1], i, j), s, s.ret(), lambda e: A(e)[i][j], self.envs[:5])
        base = "SEMBA::Math::Matrix::Matrix<double>::"

        def det(M):
            return M[0][0] if len(M) == 1 else sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))
        dyn = dict(dyn=self.cls)
        put = self.store("G", "a")
        for nm, want, out in (("getDeterminant%dx%d" % (n, n), lambda e: det(A(e)), "ret"), ("eye", lambda e: [[float(i == j) for j in range(n)] for i in range(n)], "obj"),
                              ("zeros", lambda e: [[0] * n] * n, "obj"), ("cpLowerTri2UpperTri", lambda e: [[A(e)[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)], "obj"),
                              ("maxVal", lambda e: max(max(r) for r in A(e)), "ret"), ("isSymmetric", lambda e: all(A(e)[i][j] == A(e)[j][i] for i in range(n) for j in range(n)), "ret"),
                              ("isSquare", lambda e: True, "ret"), ("size", lambda e: n * n, "ret")):
            s = self.run(self.find(base + nm), [], put=put, **dyn)
            envs = self.envs + ([dict(e, **{"a%d" % (j * n + i): e["a%d" % (i * n + j)] for i in range(n) for j in range(i)}) for e in self.envs[:6]] if nm == "isSymmetric" else [])
            self.ob(nm, s, s.ret() if out == "ret" else self.mat(s, s.o), want, envs)
        for k in range(n):
            s = self.run(self.find(base + "cpRowToVector", "unsigned"), [C(k)], put=put, **dyn)
            self.ob("cpRowToVector(%d)" % k, s, s.ret(), lambda e: A(e)[k], self.envs)
            s = self.run(self.find(base + "maxValInCol", "unsigned"), [C(k)], put=put, **dyn)
            self.ob("maxValInCol(%d)" % k, s, s.ret(), lambda e: max(r[k] for r in A(e)), self.envs)
            vec = IL("w", n)
            ev = [dict(e, **{"w%d" % i: 7. + i for i in range(n)}) for e in self.envs[:5]]
            s = self.run(self.find(base + "cpToCol", "unsigned", "vector"), [C(k), vec], put=put, **dyn)
            self.ob("cpToCol(%d)" % k, s, self.mat(s, s.o), lambda e: [[7. + i if j == k else A(e)[i][j] for j in range(n)] for i in range(n)], ev)
            s = self.run(self.find(base + "cpToRow", "unsigned", "vector"), [C(k), vec], put=put, **dyn)
            self.ob("cpToRow(%d)" % k, s, self.mat(s, s.o), lambda e: [[7. + j if i == k else A(e)[i][j] for j in range(n)] for i in range(n)], ev)
        self.inverse()

    def inverse(self):
        """inversion, of constant matrices that need every kind of pivoting"""
        n = self.n
        rng = random.Random(5)
        mats = []
        import itertools
        for perm in list(itertools.permutations(range(n)))[:: 1 if n == 3 else 5]:
            mats.append([[(2. + i if perm[i] == j else 0.) + (rng.choice([0., .25, -.5]) if rng.random() < .6 else 0.) for j in range(n)] for i in range(n)])
        # the only candidate pivots negative, or below a greater one of the other sign
        mats += [[[-(2. + i) if perm[i] == j else 0. for j in range(n)] for i in range(n)] for perm in list(itertools.permutations(range(n)))[1:: 2 if n == 3 else 7]]
        mats.append([[float(min(i, j) + 1) * (-1) ** (i * j) for j in range(n)] for i in range(n)])
        f = self.find("invert")
        for k, M in enumerate(mats):
            inv = inverse(M)
            if inv is None:
                continue
            put = [(mk("el", fld(sym("G"), self.cls + "::_val"), C(i * n + j)), C(M[i][j])) for i in range(n) for j in range(n)]
            s = self.run(f, [], put=put)
            self.ob("invert %d" % k, s, self.mat(s, s.o), lambda e: inv, [{}], tol=1e-9)


class DynOps(Ops):
    def __init__(self, ctx):
        Ops.__init__(self, ctx, "SEMBA::Math::Matrix::Dynamic<double>", "Dynamic", "matrix operations")
        self.envs = [dict([("%s%d" % (w, i), self.rng.choice([-2., -.5, 0., 1., 1.5, 3.])) for w in "abw" for i in range(9)] + [("s", self.rng.choice([-2., .5, 3.]))]) for _ in range(15)]

    def shape(self, who, r, c, vals):
        o = sym(who)
        return [(fld(o, self.cls + "::_nRows"), C(r)), (fld(o, self.cls + "::_nCols"), C(c))] + [(mk("el", fld(o, self.cls + "::_val"), C(i)), vals[i]) for i in range(r * c)]

    def mat(self, s, o):
        """dimensions and contents of the matrix object o"""
        r, c = s.loc(fld(o, self.cls + "::_nRows")), s.loc(fld(o, self.cls + "::_nCols"))
        if not (isc(r) and isc(c)):
            return None
        v = s.ev.val(s.r.st, fld(o, self.cls + "::_val"))
        return [[self.made(s, s.loc(mk("el", v, C(i * int(c.a[0]) + j)))) for j in range(int(c.a[0]))] for i in range(int(r.a[0]))]

    def made(self, s, x):
        """an element of an array allocated here that nothing has ever written holds no value"""
        if x.k == "el" and x.a[0].k == "obj" and isc(x.a[1]) and s.ev.objs.get(x.a[0], {}).get("cls", "").endswith("[]") and not s.ev.objs[x.a[0]].get("init"):
            def calls(tr):
                for ef in tr:
                    if ef.__class__ is not tuple or not ef:
                        continue
                    if ef[0] == "call":
                        yield ef
                    for y in ef:
                        if y.__class__ is list:
                            yield from calls(y)
            if not any(any(z is x.a[0] for z in subterms(y)) for ef in calls(s.r.st.trace) for y in list(ef[3:5]) + [v for k in ef[3:5] if k.__class__ is list for v in k] if y.__class__ is T):
                return C("nothing (never written)")
        return x

    def go(self, name, types, args, a, b=None, const=None):
        put = self.shape("G", a[0], a[1], [sym("a%d" % i) if const is None else C(const[i // a[1]][i % a[1]]) for i in range(a[0] * a[1])])
        if b:
            put += self.shape("B", b[0], b[1], [sym("b%d" % i) for i in range(b[0] * b[1])])
        f = self.find(name, *types)
        return self.run(f, args, put=put, dyn=self.cls, rec=8 if const else 0, assume=[(eq(sym("B"), sym("G")), False), (eq(sym("G"), sym("B")), False)])

    def expect(self, inst, s, which, want, envs=None):
        got = self.mat(s, s.o if which == "obj" else s.r.ret) if s.r.st is not None and (which == "obj" or s.r.ret is not None) else None
        self.ob(inst, s, got if got is not None else None, want, envs or self.envs)

    def check(self):
        M = lambda e, w, sh: [[e["%s%d" % (w, i * sh[1] + j)] for j in range(sh[1])] for i in range(sh[0])]
        B = sym("B")
        mul = lambda x, y: [[sum(x[i][k] * y[k][j] for k in range(len(y))) for j in range(len(y[0]))] for i in range(len(x))]
        for a in ((2, 3), (3, 2), (1, 3), (2, 2)):
            A = lambda e: M(e, "a", a)
            n = "%dx%d" % a
            other = (a[1], a[0])
            for nm, types, args, b, which, want in (
                    ("(ctor)", ("Dynamic",), [B], other, "obj", lambda e: M(e, "b", other)), ("operator=", ("Dynamic",), [B], other, "obj", lambda e: M(e, "b", other)),
                    ("copy", ("Dynamic",), [B], other, "obj", lambda e: M(e, "b", other)), ("operator*", ("Dynamic",), [B], other, "ret", lambda e: mul(A(e), M(e, "b", other))),
                    ("operator+", ("Dynamic",), [B], a, "ret", lambda e: [[x + y for x, y in zip(*r)] for r in zip(A(e), M(e, "b", a))]),
                    ("operator+=", ("Dynamic",), [B], a, "obj", lambda e: [[x + y for x, y in zip(*r)] for r in zip(A(e), M(e, "b", a))]),
                    ("operator*", ("const double",), [sym("s")], None, "ret", lambda e: [[x * e["s"] for x in r] for r in A(e)]),
                    ("operator*=", ("const double",), [sym("s")], None, "obj", lambda e: [[x * e["s"] for x in r] for r in A(e)]),
                    ("operator+=", ("const double",), [sym("s")], None, "obj", lambda e: [[x + e["s"] for x in r] for r in A(e)]),
                    ("transpose", (), [], None, "obj", lambda e: [list(r) for r in zip(*A(e))]),
                    ("operator=", ("vector",), [IL("w", 3)], None, "obj", lambda e: [[e["w%d" % i]] for i in range(3)]),
                    ("copy", ("vector",), [mk("il", IL("w", 3), IL("w", 3))], None, "obj", lambda e: [[e["w%d" % i] for i in range(3)]] * 2),
                    ("kron", ("Dynamic",), [B], other, "ret", lambda e: [[A(e)[i // other[0]][k // other[1]] * M(e, "b", other)[i % other[0]][k % other[1]] for k in range(a[1] * other[1])] for i in range(a[0] * other[0])])):
                s = self.go(nm, types, args, a, b)
                self.expect("%s %s %s" % (nm, " ".join(types), n), s, which, want)
            for first in range(a[1]):
                for last in range(first, a[1]):
                    s = self.go("eliminateColumns", ("unsigned", "unsigned"), [C(first), C(last)], a)
                    self.expect("eliminateColumns(%d,%d) %s" % (first, last, n), s, "ret", lambda e: [r[:first] + r[last + 1:] for r in A(e)])
            for r0 in range(a[0]):
                for c0 in range(a[1]):
                    s = self.go("copy", ("unsigned",) * 4, [C(r0), C(a[0]), C(c0), C(a[1])], a)
                    self.expect("copy(%d..,%d..) %s" % (r0, c0, n), s, "ret", lambda e: [r[c0:] for r in A(e)[r0:]])
                    for nm in ("operator()", "val"):
                        for k, f in enumerate([f for f in self.ctx.P.byname.get(self.cls + "::" + nm, []) if len(f["p"]) == 2 and not f.get("dep")]):
                            s = self.run(f, [C(r0), C(c0)], put=self.shape("G", a[0], a[1], [sym("a%d" % i) for i in range(6)]), dyn=self.cls)
                            self.ob("%s#%d(%d,%d) %s" % (nm, k, r0, c0, n), s, s.ret(), lambda e: A(e)[r0][c0], self.envs[:4])
            s = self.go("operator==", ("Dynamic",), [B], a, a)
            ev = self.envs[:5] + [dict(e, **{"b%d" % i: e["a%d" % i] for i in range(9)}) for e in self.envs[:5]] + [dict(e, **{"b%d" % i: e["a%d" % i] + (i == k) for i in range(9)}) for k in range(6) for e in self.envs[:1]]
            self.ob("== %s" % n, s, s.ret(), lambda e: M(e, "b", a) == A(e), ev)
            base = "SEMBA::Math::Matrix::Matrix<double>::"
            for nm, want in (("maxVal", lambda e: max(max(r) for r in A(e))), ("isSquare", lambda e: a[0] == a[1]), ("size", lambda e: a[0] * a[1])):
                s = self.go(base + nm, (), [], a)
                self.ob("%s %s" % (nm, n), s, s.ret(), want, self.envs)
        for n, m in ((2, 3), (3, 2), (1, 2), (1, 1)):
            s = self.go("convolute", ("Dynamic",), [B], (n, 1), (m, 1))
            self.expect("convolute %d %d" % (n, m), s, "ret", lambda e: [[sum(e["a%d" % i] * e["b%d" % (k - i)] for i in range(n) if 0 <= k - i < m)] for k in range(n + m - 1)])
        self.sorting()

    def sorting(self):
        """constant matrices: ascending, descending, equal and mixed rows"""
        base = "SEMBA::Math::Matrix::Matrix<double>::"
        rng = random.Random(3)
        cases = [[[1., 2.], [3., 4.]], [[3., 4.], [1., 2.]], [[1., 1.], [1., 1.]], [[2., 5.], [2., 1.], [1., 9.]], [[5., 0.]], [[1., 2.], [1., 2.], [0., 7.], [0., 7.]]]
        cases += [[[float(rng.randint(0, 2)) for _ in range(2)] for _ in range(rng.randint(2, 5))] for _ in range(8)]
        for k, m in enumerate(cases):
            a = (len(m), 2)
            s = self.go(base + "sortRows", (), [], a, const=m)
            self.expect("sortRows %d" % k, s, "obj", lambda e: sorted(m), [{}])
            for i, j in ((0, 1), (0, 0), (1, 1)):
                s = self.go(base + "sortRows", ("unsigned", "unsigned"), [C(i), C(j)], a, const=m)
                got = self.mat(s, s.o) if s.r.st is not None else None
                key = lambda r: r[i:j + 1]
                # rows that are equal in the columns compared may come in any order
                self.ob("sortRows(%d,%d) %d" % (i, j, k), s, [r[i:j + 1] for r in got] if got else None, lambda e: [key(r) for r in sorted(m, key=key)], [{}])
            s = self.go("sortAndRemoveRepeatedRows", (), [], a, const=m)
            self.expect("sortAndRemoveRepeatedRows %d" % k, s, "obj", lambda e: [list(r) for r in sorted(set(map(tuple, m)))], [{}])
            srt = sorted(m)
            s = self.go("removeRepeatedSortedRows", (), [], a, const=srt)
            self.expect("removeRepeatedSortedRows %d" % k, s, "obj", lambda e: [list(r) for r in sorted(set(map(tuple, m)))], [{}])
        # wider rows move as a whole, whatever columns are compared
        for k in range(6):
            m = [[float(rng.randint(0, 2)), float(rng.randint(0, 2)), float(rng.randint(0, 2)), float(10 * i)] for i in range(rng.randint(2, 4))]
            for i, j in ((0, 3), (1, 3), (0, 1)):
                s = self.go(base + "sortRows", ("unsigned", "unsigned"), [C(i), C(j)], (len(m), 4), const=m)
                got = self.mat(s, s.o) if s.r.st is not None else None
                key = lambda r: r[i:j + 1]
                self.ob("sortRows(%d,%d) wide %d" % (i, j, k), s, [r[i:j + 1] for r in got] if got else None, lambda e: [key(r) for r in sorted(m, key=key)], [{}])
                if got and all(isc(x) for r in got for x in r):
                    self.ob("sortRows(%d,%d) rows kept %d" % (i, j, k), s, [[C(x) for x in r] for r in sorted([x.a[0] for x in r] for r in got)], lambda e: sorted(m), [{}])
        for k in range(10):
            c = 2 + k % 3
            row = lambda: [float(rng.randint(0, 3)) for _ in range(c)]
            x, y = [row() for _ in range(rng.randint(1, 3))], [row() for _ in range(rng.randint(1, 3))]
            if k == 0:
                x, y = [[1., 2.], [7., 8.]], [[4., 5.]]
            if k == 1:
                x, y = [[4., 5., 6.]], [[1., 2., 3.], [7., 8., 9.]]
            for i, j in ((0, c - 1), (0, 0), (c - 1, c - 1)):
                key = lambda r: r[i:j + 1]
                x, y = sorted(x, key=key), sorted(y, key=key)
                o = sym("B")
                put = self.shape("G", len(x), c, [C(v) for r in x for v in r]) + self.shape("B", len(y), c, [C(v) for r in y for v in r])
                s = self.run(self.find("mergeSortedRows", "Dynamic", "unsigned", "unsigned"), [o, C(i), C(j)], put=put, dyn=self.cls, assume=[(eq(o, sym("G")), False), (eq(sym("G"), o), False)])
                # among rows equal in the columns compared, those of the argument come first
                self.expect("mergeSortedRows(%d,%d) %d" % (i, j, k), s, "obj", lambda e: sorted(y + x, key=key), [{}])
        for k, m in enumerate(pivoting(3, rng) + pivoting(2, rng) + [[[4.]]]):
            inv = inverse(m)
            if inv is not None:
                s = self.go("invert", (), [], (len(m), len(m)), const=m)
                got = self.mat(s, s.r.ret) if s.r.st is not None and s.r.ret is not None else None
                self.ob("invert %d" % k, s, got, lambda e: inv, [{}], tol=1e-9)


def pivoting(n, rng):
    """matrices that need every order of pivots, with pivots of either sign"""
    import itertools
    res = []
    for k, perm in enumerate(itertools.permutations(range(n))):
        for sgn in (1., -1.):
            res.append([[sgn * (2. + i) if perm[i] == j else (rng.choice([0., .25, -.5]) if (j + k) % 2 else 0.) for j in range(n)] for i in range(n)])
    return res


def inverse(M):
    n = len(M)
    A = [list(map(float, r)) + [float(i == j) for j in range(n)] for i, r in enumerate(M)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(A[i][k]))
        if abs(A[p][k]) < 1e-9:
            return None
        A[k], A[p] = A[p], A[k]
        A[k] = [x / A[k][k] for x in A[k]]
        for i in range(n):
            if i != k:
                A[i] = [x - A[i][k] * y for x, y in zip(A[i], A[k])]
    return [r[n:] for r in A]


def axes(ctx):
    o = Ops(ctx, "SEMBA::Math::Axis::Local", "Local", "local axes")
    v = VT % ("double", 3) + "::val"
    put = [(mk("el", fld(fld(sym("G"), o.cls + "::" + m), v), C(i)), sym("%s%d" % (m[0], i))) for m in ("eulerAngles_", "origin_") for i in range(3)]
    M = "SEMBA::Math::Matrix::Static<double, 3, 3>"
    rng = random.Random(2)
    envs = []
    for k in range(30):
        e = {"e%d" % i: rng.choice([0., .3, 1., -.7, math.pi / 2, 2.5, math.pi]) for i in range(3)}
        e.update({"o%d" % i: rng.choice([0., 1.5, -2.]) for i in range(3)})
        e.update({"V.val[%d]" % i: rng.choice([0., 1., -2., 3.5]) for i in range(3)})
        e.update({"m%d" % i: rng.choice([0., 1., -2., .5]) for i in range(9)})
        envs.append(e)
    Rz = lambda a: [[math.cos(a), math.sin(a), 0.], [-math.sin(a), math.cos(a), 0.], [0., 0., 1.]]
    Rx = lambda a: [[1., 0., 0.], [0., math.cos(a), math.sin(a)], [0., -math.sin(a), math.cos(a)]]
    mul = lambda A, B: [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    R = lambda e: mul(Rz(e["e2"]), mul(Rx(e["e1"]), Rz(e["e0"])))
    mat = lambda s: [[s.loc(mk("el", fld(s.r.ret, M + "::_val"), C(3 * i + j))) for j in range(3)] for i in range(3)]
    s = o.run(o.find("getTransformationMatrix"), [], put=put)
    o.ob("getTransformationMatrix", s, mat(s), R, envs)
    s = o.run(o.find("convertToGlobal", "Cartesian"), [sym("V")], put=put)
    o.ob("convertToGlobal(vector)", s, s.ret(), lambda e: [sum(R(e)[i][j] * e["V.val[%d]" % j] for j in range(3)) + e["o%d" % i] for i in range(3)], envs)
    s = o.run(o.find("convertToGlobal", "Static"), [sym("L")], put=put + [(mk("el", fld(sym("L"), M + "::_val"), C(i)), sym("m%d" % i)) for i in range(9)])
    o.ob("convertToGlobal(matrix)", s, mat(s), lambda e: mul(R(e), mul([[e["m%d" % (3 * i + j)] for j in range(3)] for i in range(3)], [list(r) for r in zip(*R(e))])), envs)
    s = o.run(o.find("(ctor)", "Cartesian", "Cartesian"), [sym("A"), sym("B")])
    for k, m in enumerate(("eulerAngles_", "origin_")):
        o.ob("constructor keeps " + m, s, [s.loc(mk("el", fld(fld(s.o, o.cls + "::" + m), v), C(i))) for i in range(3)], lambda e: [e["%s.val[%d]" % ("AB"[k], i)] for i in range(3)],
             [{"%s.val[%d]" % (w, i): 1. + i + 10 * (w == "B") for w in "AB" for i in range(3)}])
    for nm, m in (("getEulerAngles", "e"), ("getOrigin", "o")):
        s = o.run(o.find(nm), [], put=put)
        o.ob(nm, s, s.ret(), lambda e: [e["%s%d" % (m, i)] for i in range(3)], envs[:3])
    # spherical coordinates
    o = Ops(ctx, "SEMBA::Math::Vector::Spherical", "Spherical", "spherical coordinates")
    F = lambda ob, n: fld(ob, o.cls + "::" + n)
    put = [(F(sym("G"), n), sym(n)) for n in ("radius", "theta", "phi")]
    envs = [{"radius": r, "theta": t, "phi": p, "ar": a, "at": b, "ap": c} for r, t, p, a, b, c in
            [(rng.choice([1., 2.5]), rng.choice([0., .4, 1.3, math.pi / 2, 2.7]), rng.choice([0., .8, 2., -2.2]), rng.choice([0., 1., -2.]), rng.choice([0., 1.5]), rng.choice([0., .5, -1.])) for _ in range(40)]]
    st, ct, sp, cp = (lambda e: math.sin(e["theta"])), (lambda e: math.cos(e["theta"])), (lambda e: math.sin(e["phi"])), (lambda e: math.cos(e["phi"]))
    s = o.run(o.find("convertToCartesian"), [], put=put)
    o.ob("convertToCartesian", s, s.ret(), lambda e: [e["radius"] * st(e) * cp(e), e["radius"] * st(e) * sp(e), e["radius"] * ct(e)], envs)
    s = o.run(o.find("convertSphericalVectorField", "double", "double", "double"), [sym("ar"), sym("at"), sym("ap")], put=put)
    o.ob("convertSphericalVectorField", s, s.ret(), lambda e: [cp(e) * (st(e) * e["ar"] + ct(e) * e["at"]) - sp(e) * e["ap"], sp(e) * (st(e) * e["ar"] + ct(e) * e["at"]) + cp(e) * e["ap"], ct(e) * e["ar"] - st(e) * e["at"]], envs)
    s = o.run(o.find("norm"), [], put=put)
    o.ob("norm", s, s.ret(), lambda e: e["radius"], envs[:3])
    s = o.run(o.find("(ctor)", "double", "double"), [sym("t"), sym("p")])
    o.ob("(theta,phi)", s, [s.loc(F(s.o, n)) for n in ("radius", "theta", "phi")], lambda e: [1., e["t"], e["p"]], [{"t": .3, "p": 1.2}])
    s = o.run(o.find("operator=", "Cartesian"), [sym("V")])
    ev = [{"V.val[0]": a, "V.val[1]": b, "V.val[2]": c} for a, b, c in ((1., 0., 0.), (0., 2., 0.), (0., 0., -3.), (1., -2., .5), (-1.5, -.5, 2.), (-1., 1., 1.))]
    nv = lambda e: [e["V.val[%d]" % i] for i in range(3)]
    o.ob("= vector", s, [s.loc(F(s.o, n)) for n in ("radius", "theta", "phi")], lambda e: [norm(nv(e)), math.acos(nv(e)[2] / norm(nv(e))), math.atan2(nv(e)[1], nv(e)[0])], ev)


def fractional(ctx):
    o = Ops(ctx, "SEMBA::Math::CVecI3Fractional", "CVecI3Fractional", "fractional coordinates")
    iv, rv = VT % ("int", 3) + "::val", VT % ("double", 3) + "::val"
    pos = lambda ob: [mk("el", fld(ob, iv), C(i)) for i in range(3)]
    ln = lambda ob: [mk("el", fld(fld(ob, o.cls + "::len_"), rv), C(i)) for i in range(3)]
    put = [(l, sym("%s%s%d" % (w, k, i))) for w in "GA" for k, ls in (("p", pos(sym(w))), ("l", ln(sym(w)))) for i, l in enumerate(ls)]
    rng = random.Random(4)
    envs = []
    for k in range(80):
        e = {"%sp%d" % (w, i): rng.choice([-2, 0, 1, 5]) for w in "GA" for i in range(3)}
        e.update({"%sl%d" % (w, i): rng.choice([0., 0., .2, .5, .75, 1.] if w == "G" else [0., 0., .3, .5, .9]) for w in "GA" for i in range(3)})
        if k % 5 == 0:
            e.update({"A%s%d" % (m, i): e["G%s%d" % (m, i)] for m in "pl" for i in range(3)})
        envs.append(e)
    L, Pp = (lambda e, w="G": [e["%sl%d" % (w, i)] for i in range(3)]), (lambda e, w="G": [e["%sp%d" % (w, i)] for i in range(3)])
    go = lambda nm, types, args: o.run(o.find(nm, *types), args, put=put)
    rng_ = lambda l: sum(1 for x in l if x > TOL)

    def base(l):
        n = rng_(l)
        if n == 1:
            return [i for i in range(3) if l[i] > TOL][0] + 1
        if n == 2:
            return [i for i in range(3) if l[i] < TOL][0] + 1
        return 0
    for nm, want in (("getRangeBase", lambda e: rng_(L(e))), ("getDirBase", lambda e: base(L(e))), ("getScalePos", lambda e: [a + b for a, b in zip(Pp(e), L(e))]),
                     ("getRelativePosNearestNode", lambda e: [float(x > .5) for x in L(e)])):
        s = go(nm, (), [])
        o.ob(nm, s, s.ret(), want, envs)
    s = go("getScalePos", ("Cartesian",), [sym("A")])
    o.ob("getScalePos(origin)", s, s.ret(), lambda e: [a - c + b for a, b, c in zip(Pp(e), L(e), Pp(e, "A"))], envs)
    s = go("meanRelativePoint", ("Fractional",), [sym("A")])
    o.ob("meanRelativePoint", s, s.ret(), lambda e: [(a + b) / 2 for a, b in zip(L(e), L(e, "A"))], envs)
    s = go("operator==", ("Fractional",), [sym("A")])
    o.ob("==", s, s.ret(), lambda e: Pp(e) == Pp(e, "A") and L(e) == L(e, "A"), envs)
    s = go("operator=", ("Fractional",), [sym("A")])
    o.ob("=", s, [[s.loc(x) for x in pos(s.o)], [s.loc(x) for x in ln(s.o)]], lambda e: [Pp(e, "A"), L(e, "A")], envs)
    s = go("reduceCoords", (), [])

    def red(p, l):
        p, l = list(p), list(l)
        for i in range(3):
            if l[i] >= 1 - TOL:
                l[i], p[i] = 0., p[i] + 1
            elif l[i] < TOL:
                l[i] = 0.
        return [p, l]
    o.ob("reduceCoords", s, [[s.loc(x) for x in pos(s.o)], [s.loc(x) for x in ln(s.o)]], lambda e: red(Pp(e), L(e)), envs)

    def topo(p, l):
        near = [float(x > .5) for x in l]
        d = [(abs(near[i] - l[i]), i) for i in range(3) if l[i] != 0]
        if not d:
            return [list(p), list(l)]
        i = min(d)[1]
        l = list(l)
        l[i] = near[i]
        return red(p, l)
    s = go("reduceTopology", (), [])
    cases = sorted(set(tuple(L(e)) for e in envs))

    def topon(p, l, n):
        k = 0
        while rng_(l) > n and k < 3:
            p, l = topo(p, l)
            k += 1
        return [p, l]
    for l in cases[:: max(1, len(cases) // 24)]:
        cput = [(x, C(v)) for x, v in zip(pos(sym("G")) + ln(sym("G")), (1, -2, 4) + l)]
        s = o.run(o.find("reduceTopology"), [], put=cput)
        o.ob("reduceTopology%s" % (l,), s, [[s.loc(x) for x in pos(s.o)], [s.loc(x) for x in ln(s.o)]], lambda e: topo([1, -2, 4], l), [{}])
        for n in (0, 1, 2):
            s = o.run(o.find("reduceTopology", "unsigned"), [C(n)], put=cput)
            o.ob("reduceTopology%s to %d" % (l, n), s, [[s.loc(x) for x in pos(s.o)], [s.loc(x) for x in ln(s.o)]], lambda e: topon([1, -2, 4], list(l), n), [{}])
    s = go("join", ("Fractional",), [sym("A")])
    j = lambda e: [(0. if x == 0 or y == 0 else y, 0. if x == 0 else y) for x, y in zip(L(e), L(e, "A"))]
    o.ob("join", s, [[s.loc(x) for x in ln(s.o)], [s.loc(x) for x in ln(sym("A"))]], lambda e: [[x[0] if a else 0. for x, a in zip(j(e), L(e))], [x[1] for x in j(e)]], envs)
    m_ = fld(sym("Q"), "Q::m")
    for force in (True, False):
        s = o.run(o.find("move", "Fractional", "bool", "bool"), [sym("A"), C(force), m_], put=put)
        can = lambda e: not any(x and not y for x, y in zip(L(e), L(e, "A")))
        o.ob("move(%s)" % ("forced" if force else "not forced"), s, [s.loc(m_), [s.loc(x) for x in ln(sym("A"))]], lambda e: [can(e), [x if y else 0. for x, y in zip(L(e), L(e, "A"))] if can(e) or force else L(e, "A")], envs)
    s = o.run(o.find("(ctor)", "Cartesian", "Cartesian"), [sym("P"), sym("V")])
    o.ob("(pos,len)", s, [[s.loc(x) for x in pos(s.o)], [s.loc(x) for x in ln(s.o)]], lambda e: [[e["P.val[%d]" % i] for i in range(3)], [e["V.val[%d]" % i] for i in range(3)]],
         [dict([("P.val[%d]" % i, i + 2) for i in range(3)] + [("V.val[%d]" % i, .25 * i) for i in range(3)])])


def check(ctx):
    for t, d in (("double", 3), ("int", 3), ("double", 2)):
        VecOps(ctx, t, d).check()
    conversions(ctx)
    reals(ctx)
    for n in (3, 4):
        MatOps(ctx, n).check()
    DynOps(ctx).check()
    axes(ctx)
    fractional(ctx)
