"""C13 elements: their nodes, sides, sizes and predicates"""
import itertools
import random
from lib import *
from rules.C11 import Ops, norm

EXPL = ("Every query of every element class is evaluated, callees and virtual calls inlined and the reference simplices computed by constant propagation through their constructors, on elements whose nodes are unknown; "
        "the nodes of each side, the sizes, bounds, areas, volumes, normals and predicates obtained are compared with their geometric definition in classes of positions (generic, aligned, coincident, crossing the axes).")
FLOOR = 400
E = "SEMBA::Geometry::Element::"
CO = "SEMBA::Geometry::Coordinate::Coordinate<%s, 3>"
PLANES = {"xy": 0, "yz": 1, "zx": 2}
rng = random.Random(13)


def inl13(f):
    return True


def inlsx(f):
    """the tables of the reference simplices do not depend on their polynomials"""
    return not ("Polynomial" in f["n"] or f["n"].split("::")[-1] in ("lagrangePolynomials", "integrate", "derive"))


_geo = {}


def simplex(ctx, cls):
    """(class, store entries of a constructed reference simplex, as places relative to it)"""
    if cls not in _geo:
        o = Ops(ctx, "SEMBA::Math::Simplex::" + cls, cls, "x")
        s = Shaped(ctx, o.find("(ctor)"), inlsx, [], rec=30, budget=6000000)
        if s.r.st is None:
            raise AnalysisError("the constructor of %s does not evaluate" % cls)
        _geo[cls] = (o.cls, s.o, [(k, v) for k, v in s.r.st.store.items() if s.ev._root(k) is s.o and v.k == "c"])
    return _geo[cls]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def unit(a):
    n = norm(a)
    return [x / n for x in a]


class El(Ops):
    """an element class on n unknown coordinates"""

    def __init__(self, ctx, cls, label, T_, n, geo=(), vec=False):
        Ops.__init__(self, ctx, E + cls, label, "elements")
        self.T, self.n, self.vec = T_, n, vec
        self.co = CO % T_
        self.geo = geo
        self.cs = [sym("c%d" % i) for i in range(n)]

    def meth(self, name, *ptypes):
        for c in [self.cls] + self.ctx.P.bases(self.cls):
            fs = [f for f in self.ctx.P.byname.get(c + "::" + name, []) if not f.get("dep") and f.get("b") is not None and len(f["p"]) == len(ptypes) and all(x in p["t"] for x, p in zip(ptypes, f["p"]))]
            if fs:
                return fs[0]
        raise AnalysisError("anchor vanished: %s::%s(%s)" % (self.cls, name, ", ".join(ptypes)))

    def puts(self, who, names):
        v = fld(sym(who), self.cls + "::v_")
        P = [(v, mk("il", *names))] if self.vec else [(el(v, C(i)), c) for i, c in enumerate(names)]
        return P

    def consts(self):
        P, X = [], {}
        for fldname, cls in self.geo:
            c, o, ents = simplex(self.ctx, cls)
            g = sym("GEO_" + re.sub(r"\W", "_", cls))
            X[g] = c
            P.append((mk("glob", self.cls + "::" + fldname), g))
            P += [(subst(k, {o: g}), v) for k, v in ents]
        return P, X

    def call(self, name, args=(), ptypes=None, put=(), exact=(), f=None, names=None, **k):
        f = f or self.meth(name, *(ptypes if ptypes is not None else [""] * len(args)))
        P, X = self.consts()
        X.update({c: self.co for c in self.cs})
        X[sym("G")] = self.cls
        X.update(dict(exact))
        k.setdefault("assume", k.pop("more", []) + [(eq(a, b), False) for a, b in itertools.permutations(self.cs, 2)])
        return Shaped(self.ctx, f, inl13, list(args), put=P + self.puts("G", names or self.cs) + list(put), rec=30, budget=6000000, exact=X, **k)

    def ids(self):
        return {"c%d" % i: "c%d" % i for i in range(self.n)}

    def env(self, pos, **k):
        e = self.ids()
        for i, p in enumerate(pos):
            for d in range(3):
                e["c%d.val[%d]" % (i, d)] = p[d]
        e.update(k)
        return e

    def is_(self, inst, s, want, envs=None, tr=None):
        tr = s.ret() if tr is None else tr
        self.ob(inst, s, tr, want if callable(want) else (lambda e: want), envs or [self.ids()])

    def value(self, s, tr=None):
        """the constants a call returns, or None when it does not follow"""
        try:
            if s.refused(self.ids()):
                return None
            return s.number(s.ret() if tr is None else tr, self.ids())
        except NoVal:
            return None


def tables(o, nf, nv, nsv, nsc):
    """sizes, nodes, sides"""
    C_ = lambda *i: ["c%d" % x for x in i]
    for nm, w in (("numberOfFaces", nf), ("numberOfVertices", nv), ("numberOfCoordinates", o.n)):
        o.is_(nm, o.call(nm), w)
    for nm, w in (("numberOfSideVertices", nsv), ("numberOfSideCoordinates", nsc)):
        for f in range(nf):
            o.is_("%s(%d)" % (nm, f), o.call(nm, [C(f)]), w)
    for i in range(o.n):
        o.is_("getV(%d)" % i, o.call("getV", [C(i)]), "c%d" % i)
    o.is_("getCoordinates", o.call("getCoordinates"), C_(*range(o.n)))
    vert = [o.value(o.call("getVertex", [C(i)])) for i in range(nv)]
    o.is_("getVertices", o.call("getVertices"), vert)
    sides = [[o.value(o.call("getSideV", [C(f), C(i)])) for i in range(nsc)] for f in range(nf)]
    sverts = [[o.value(o.call("getSideVertex", [C(f), C(i)])) for i in range(nsv)] for f in range(nf)]
    for f in range(nf):
        o.is_("getSideCoordinates(%d)" % f, o.call("getSideCoordinates", [C(f)]), sides[f])
        o.is_("getSideVertices(%d)" % f, o.call("getSideVertices", [C(f)]), sverts[f])
    return vert, sides, sverts


# ---------------------------------------------------------------- positions
def generic(n, k=6):
    r = random.Random(n)
    return [[[round(r.uniform(-3, 3), 3) for _ in range(3)] for _ in range(n)] for _ in range(k)]


def integer(pts):
    return [[[int(round(x)) for x in p] for p in ps] for ps in pts]


def special(n):
    """aligned, planar, crossing and partly coincident positions"""
    r = random.Random(100 + n)
    out = []
    for d in range(3):
        ps = generic(n, 1)[0]
        for p in ps:
            p[d] = .5
        out.append(ps)                       # in a plane
        ps = [list(p) for p in ps]
        ps[-1][d] = 1.5
        out.append(ps)                       # only the last node out of it
        ps = [[.5, -1., 2.] for _ in range(n)]
        for p in ps:
            p[d] = r.choice([-2., -1., 0., 1., 4.])
        out.append(ps)                       # along an axis
    for k in range(4):                       # ties in the first components
        out.append([[r.choice([0., 1.]), r.choice([-1., 0., 1.]), r.choice([-2., 0., 3.])] for _ in range(n)])
    return out


def lexi(ps, ids, best):
    p = best(ps)
    return [i for q, i in zip(ps, ids) if q == p]


class Els:
    """what holds for the elements of every class"""

    def __init__(self, o, nf, nv, nsv, nsc):
        self.o, self.int = o, o.T == "int"
        self.vert, self.sides, self.sverts = tables(o, nf, nv, nsv, nsc)
        self.nf, self.nv = nf, nv
        pts = generic(o.n) + special(o.n)
        self.pts = integer(pts) if self.int else pts
        self.envs = [o.env(p) for p in self.pts]
        i = lambda c: int(c[1:])
        self.known = all(x is not None for x in self.vert) and all(x is not None for s in self.sides + self.sverts for x in s)
        o.ctx.ob("elements", "%s: its nodes follow" % o.label, True if self.known else None, "vertices %s sides %s" % (self.vert, self.sides), o.ctx.loc(o.meth("getV", "")))
        if self.known:
            self.vert = [i(c) for c in self.vert]
            self.sides = [[i(c) for c in s] for s in self.sides]
            self.sverts = [[i(c) for c in s] for s in self.sverts]
            fact(o, "vertices are %d different nodes" % nv, len(set(self.vert)) == nv, self.vert, "getVertex", "")
            fact(o, "the nodes of a side differ", all(len(set(s)) == len(s) for s in self.sides), self.sides, "getSideV", "", "")
            fact(o, "the vertices of a side are vertices and nodes of it", all(set(v) <= set(s) and set(v) <= set(self.vert) for v, s in zip(self.sverts, self.sides)), [self.sverts, self.sides], "getSideVertex", "", "")

    def P(self, e, i):
        return [e["c%d.val[%d]" % (i, d)] for d in range(3)]

    def common(self, extremes=True):
        o, P = self.o, self.P
        all_ = range(o.n)
        box = lambda e, idx: [[f(P(e, i)[d] for i in idx) for d in range(3)] for f in (min, max)]
        o.ob("getBound", s := o.call("getBound"), s.ret(), lambda e: box(e, all_), self.envs)
        if extremes and self.known:
            for nm, f in (("getMinV", min), ("getMaxV", max)):
                s = o.call(nm)
                vs = [["c%d" % i for i in lexi([self.P(e, j) for j in self.vert], self.vert, f)] for e in self.envs]
                anyof(o, nm, s, self.envs, vs)
        # identifiers of what it belongs to
        for nm, m in (("getLayerId", "lay_"), ("getMatId", "mat_")):
            s = o.call(nm)
            who(o, nm, s, m)
        for i in range(o.n):
            new = sym("X")
            s = o.call("setV", [C(i), new], ["", ""])
            got = [s.loc(k) for k in self.places()]
            o.is_("setV(%d)" % i, s, ["X" if j == i else "c%d" % j for j in range(o.n)], [dict(o.ids(), X="X")], got)
        q = [sym("X")]
        f = o.meth("isCoordinate", "")
        for same in list(range(o.n))[:2] + [None]:
            s = o.call("isCoordinate", q, f=f, exact={q[0]: o.co})
            envs = []
            for p in self.pts[:2]:
                e = o.env(p)
                for j in range(o.n):
                    e["c%d.id_.id_" % j] = j + 5
                e["X.id_.id_"] = 77
                for d in range(3):
                    e["X.val[%d]" % d] = -50 - d
                if same is not None:
                    e["X.id_.id_"] = same + 5
                    for d in range(3):
                        e["X.val[%d]" % d] = p[same][d]
                envs.append(e)
                if same is not None:
                    envs.append(dict(e, **{"X.id_.id_": 78}))
                    envs.append(dict(e, **{"X.val[1]": -99}))
            o.ob("isCoordinate(%s)" % same, s, s.ret(), lambda e: any(all(e["c%d%s" % (j, k)] == e["X" + k] for k in [".id_.id_"] + [".val[%d]" % d for d in range(3)]) for j in range(o.n)), envs)

    def same(self):
        """comparison with an element of the same class, of another class"""
        o, n = self.o, self.o.n
        h, hs = sym("H"), [sym("d%d" % i) for i in range(n)]
        f = o.meth("operator==", "Base")

        def ask(cls, v):
            X = {c: o.co for c in hs}
            X[h] = cls
            return o.call("operator==", [h], f=f, put=[(el(v, C(i)), c) for i, c in enumerate(hs)], exact=X)
        s = ask(o.cls, fld(h, o.cls + "::v_"))
        envs = []
        for p in self.pts[:2]:
            e = {"G.id_.id_": 3, "H.id_.id_": 3}
            for w in "GH":
                for m, k in (("lay_", 5), ("mat_", 6)):
                    e["%s.%s" % (w, m)] = "it"
                    e["%s.%s.id_.id_" % (w, m)] = k
                    e["id(%s.%s.id_.id_).id_" % (w, m)] = k
            e["id(0).id_"] = 0
            for j in range(n):
                for c in "cd":
                    e["%s%d.id_.id_" % (c, j)] = j + 5
                    for d in range(3):
                        e["%s%d.val[%d]" % (c, j, d)] = p[j][d]
            envs.append(e)
            ks = ["H.id_.id_", "H.lay_.id_.id_", "H.mat_.id_.id_"] + ["d%d.id_.id_" % j for j in range(n)] + ["d%d.val[%d]" % (j, (j + k) % 3) for j in range(n) for k in (0, 1)]
            envs += [dict(e, **{k: e[k] + 1000, "id(%s).id_" % k: e[k] + 1000}) for k in ks]
            envs += [dict(e, **{"%s.%s" % (w, m): None}) for m in ("lay_", "mat_") for w in "GH"]
            envs += [dict(e, **{"G." + m: None, "H." + m: None}) for m in ("lay_", "mat_")]

        def want(e):
            lay = lambda w, m: e["%s.%s.id_.id_" % (w, m)] if e["%s.%s" % (w, m)] else 0
            return e["G.id_.id_"] == e["H.id_.id_"] and all(lay("G", m) == lay("H", m) for m in ("lay_", "mat_")) and all(
                e["c%d%s" % (j, k)] == e["d%d%s" % (j, k)] for j in range(n) for k in [".id_.id_"] + [".val[%d]" % d for d in range(3)])
        o.ob("operator==", s, s.ret(), want, envs)
        other = E + ("Line2<double>" if n != 2 else "Node<double>")
        s = ask(other, fld(h, other + "::v_"))
        o.ob("operator== with another class", s, s.ret(), lambda e: False, envs[:1])

    def places(self):
        v = fld(sym("G"), self.o.cls + "::v_")
        return [el(v, C(i)) for i in range(self.o.n)]


def fact(o, inst, ok, det, *anchor):
    o.ctx.ob("elements", "%s: %s" % (o.label, inst), bool(ok), str(det), o.ctx.loc(o.meth(*anchor)))


def anyof(o, inst, s, envs, allowed):
    """the value is one of the given ones in each class of positions"""
    ok, det = True, "%d classes" % len(envs)
    for e, w in zip(envs, allowed):
        try:
            if s.refused(e):
                ok, det = False, "refuses"
                break
            got = s.number(s.ret(), e)
        except NoVal as x:
            ok, det = None, "does not follow: %s" % x
            break
        if got not in w:
            ok, det = False, "with %s it is %s, expected %s" % (envtext(e), got, w)
            break
    o.ctx.ob("elements", "%s.%s" % (o.label, inst), ok, det, o.ctx.loc(s.f))


def pick(s, t, env):
    """the branch of a value taken in a class"""
    while t.__class__ is T and t.k == "ite" or t.__class__ is tuple:
        a = t.a if t.__class__ is T else t[1:]
        t = a[1] if ceval(s.ev, a[0], env) else a[2]
    return t


def idtext(s, t):
    return re.sub(r"^id\((.*)\)$", r"\1", canon(s.ev, t))


def who(o, inst, s, m):
    """the identifier of the layer or material, 0 when there is none"""
    for null in (True, False):
        try:
            got = idtext(s, pick(s, s.ret(), {"G." + m: None if null else "it"}))
            want = "0" if null else "G.%s.id_.id_" % m
            ok, det = got == want, "is %s %s" % (got, "without one" if null else "with one")
            if not ok and not re.match(r"(\d+|G\.\w+\.id_\.id_|c\d+\.id_\.id_)$", got):
                ok = None
        except NoVal as x:
            ok, det = None, "does not follow: %s" % x
        o.ctx.ob("elements", "%s.%s %s" % (o.label, inst, "none" if null else "some"), ok, det, o.ctx.loc(s.f))


KINDS = (("Node", 1, (), (1, 1, 1, 1)), ("Line2", 2, (), (2, 2, 1, 1)), ("Quadrilateral4", 4, (), (4, 4, 2, 2)), ("Hexahedron8", 8, (), (6, 8, 4, 4)))
REAL = (("Triangle3", 3, (("geo", "Triangle<1>"),), (3, 3, 2, 2)), ("Triangle6", 6, (("geo", "Triangle<2>"),), (3, 3, 2, 3)), ("Tetrahedron4", 4, (("tet", "Tetrahedron<1>"),), (4, 4, 3, 3)))


def build(ctx):
    out = {}
    for n, k, geo, t in KINDS:
        for T_ in ("double", "int"):
            o = El(ctx, "%s<%s>" % (n, T_), "%s<%s>" % (n, T_), T_, k, geo)
            out[o.label] = Els(o, *t)
    for n, k, geo, t in REAL:
        out[n] = Els(El(ctx, n, n, "double", k, geo), *t)
    return out


def surface(x):
    """sides run around the vertices; normals, areas and planes"""
    o, P = x.o, x.P
    if x.known:
        n = x.nv
        fact(o, "side f joins vertices f and f+1", all(x.sverts[f] == [x.vert[f], x.vert[(f + 1) % n]] for f in range(n)), x.sverts, "getSideVertex", "", "")
        fact(o, "a side starts and ends at its vertices", all([s[0], s[-1]] == v for s, v in zip(x.sides, x.sverts)), x.sides, "getSideV", "", "")
        mids = [c for s in x.sides for c in s[1:-1]]
        fact(o, "every other node is the middle of one side", sorted(mids + x.vert) == list(range(o.n)), x.sides, "getSideV", "", "")
        tri = lambda e: [P(e, x.vert[i]) for i in range(3)]
        nrm = lambda e: cross(sub(tri(e)[1], tri(e)[0]), sub(tri(e)[2], tri(e)[0]))
        flat = [e for e in x.envs if norm(nrm(e)) > 1e-6]
        if not x.int:
            o.ob("getNormal", s := o.call("getNormal"), s.ret(), lambda e: unit(nrm(e)), flat)
        if o.label == "Triangle3":
            o.ob("getArea", s := o.call("getArea"), s.ret(), lambda e: norm(nrm(e)) / 2, x.envs)
        if n == 4:
            rect = rectangles(x)
            s = o.call("isRectangular")
            o.ob("isRectangular", s, s.ret(), lambda e: all(abs(dot(sub(P(e, x.sverts[(f + 1) % 4][1]), P(e, x.sverts[f][1])), sub(P(e, x.sverts[f][1]), P(e, x.sverts[f][0])))) < 1e-9 for f in range(4)), x.envs[:8] + rect)
        else:
            o.is_("isRectangular", o.call("isRectangular"), False)
    inplane = lambda e, d: all(abs(P(e, i)[d] - P(e, 0)[d]) < 1e-9 for i in range(o.n))
    f = o.meth("isContainedInPlane", "Plane")
    for nm, d in PLANES_ENUM(o.ctx):
        s = o.call("isContainedInPlane", [C(nm)], f=f)
        o.ob("isContainedInPlane(%s)" % "yz zx xy".split()[d], s, s.ret(), lambda e: inplane(e, d), x.envs)
    s = o.call("isContainedInPlane")
    o.ob("isContainedInPlane", s, s.ret(), lambda e: any(inplane(e, d) for d in range(3)), x.envs)


def PLANES_ENUM(ctx):
    """(value of the enumerator, index of the component that is constant in that plane)"""
    en = ctx.P.enums.get("SEMBA::Math::Constants::CartesianPlane")
    if not en:
        raise AnalysisError("anchor vanished: CartesianPlane")
    v = dict(en["vals"])
    return [(v["yz"], 0), (v["zx"], 1), (v["xy"], 2)]


def rectangles(x):
    """rectangles in any position, and quadrilaterals that are nearly so"""
    r, out = random.Random(5), []
    c = 1 if x.int else 1.
    for k in range(8):
        a, b = r.choice([1, 2, 3]) * c, r.choice([1, 2, 5]) * c
        u, v = r.choice([([1, 0, 0], [0, 1, 0]), ([0, 1, 0], [0, 0, -1]), ([0, 0, 1], [1, 0, 0]), ([1, 1, 0], [1, -1, 0]), ([0, 3, 4], [0, -4, 3]), ([1, 2, 2], [2, 1, -2])])
        p = [r.randrange(-3, 3) * c for _ in range(3)]
        ps = [p, [p[i] + a * u[i] for i in range(3)], [p[i] + a * u[i] + b * v[i] for i in range(3)], [p[i] + b * v[i] for i in range(3)]]
        qs = {i: q for i, q in zip(x.vert, ps)}
        out.append(x.o.env([qs[i] for i in range(4)]))
        j, d = r.randrange(4), r.randrange(3)       # one corner moved
        for s in (c, -c):
            qs2 = dict(qs)
            qs2[j] = [qs[j][i] + s * (i == d) for i in range(3)]
            out.append(x.o.env([qs2[i] for i in range(4)]))
    # parallelograms leaning to either side
    for u, v in (([2, 0, 0], [1, 2, 0]), ([2, 0, 0], [-1, 2, 0]), ([0, 2, 1], [0, 0, 3])):
        ps = [[0 * c] * 3, [y * c for y in u], [(y + z) * c for y, z in zip(u, v)], [z * c for z in v]]
        qs = {i: q for i, q in zip(x.vert, ps)}
        out.append(x.o.env([qs[i] for i in range(4)]))
    return out


def copyof(o, inst, s, cls, nodes, id_="G.id_.id_", lay="G.lay_", mat="G.mat_"):
    """the function returns a new element of that class on these nodes"""
    r = s.ret()
    ok, det = None, "does not follow"
    if r.__class__ is T and r.k == "obj":
        got = []
        for i in range(len(nodes)):
            t = s.loc(el(fld(r, E + cls + "::v_"), C(i)))
            got.append(canon(s.ev, t) if t.__class__ is T else "?")
        meta = [canon(s.ev, s.loc(m)) for m in members(o.ctx, r)]
        want = ["c%d" % i for i in nodes]
        ok = r.a[1] == E + cls and got == want and meta == [id_, lay, mat]
        det = "%s on %s, identifier %s, layer %s, material %s" % (r.a[1].split("::")[-1], got, *meta)
        if not ok and (any(not re.match(r"c\d+$", g) for g in got) or any(not re.match(r"(0|None|G\.[\w.]+)$", m) for m in meta)):
            ok = None
    o.ctx.ob("elements", "%s.%s" % (o.label, inst), ok, det, o.ctx.loc(s.f))


def members(ctx, r):
    i = fld(r, "SEMBA::Class::Identifiable<SEMBA::Class::Identification<SEMBA::Geometry::Element::Base>>::id_")
    return [fld(i, "SEMBA::Class::Identification<SEMBA::Geometry::Element::Base>::id_")] + [fld(r, E + "Base::" + m) for m in ("lay_", "mat_")]


def triangles(ctx, x):
    o = x.o
    if not x.known:
        return
    copyof(o, "linearize", o.call("linearize"), "Triangle3", x.vert)
    if o.label == "Triangle6":
        r, envs = random.Random(6), []
        for k in range(8):
            ps = [None] * 6
            for v in x.vert:
                ps[v] = [r.choice([-2., 0., 1., 3.]) + k / 8 for _ in range(3)]
            for s in x.sides:
                ps[s[1]] = [(a + b) / 2 for a, b in zip(ps[s[0]], ps[s[2]])]
            envs.append(o.env(ps))
            j = x.sides[k % 3][1]
            ps[j] = [c + (.25 if d == k // 3 else 0) for d, c in enumerate(ps[j])]
            envs.append(o.env(ps))
        P = x.P
        curved = lambda e: any(norm(sub([(a + b) / 2 for a, b in zip(P(e, s[0]), P(e, s[2]))], P(e, s[1]))) > 1e-6 for s in x.sides)
        o.ob("isCurved", s := o.call("isCurved"), s.ret(), curved, envs)
    else:
        o.is_("isCurved", o.call("isCurved"), False)


def closed(x):
    """the sides of a volume close it, all oriented alike"""
    if not x.known:
        return
    o, n = x.o, {}
    for s in x.sverts:
        for i in range(len(s)):
            n[s[i], s[(i + 1) % len(s)]] = n.get((s[i], s[(i + 1) % len(s)]), 0) + 1
    fact(o, "every edge joins two sides that run along it in opposite directions", all(k == 1 and n.get((b, a)) == 1 for (a, b), k in n.items()), x.sverts, "getSideVertex", "", "")
    fact(o, "three sides meet at every vertex", all(sum(v in s for s in x.sverts) == 3 for v in x.vert), x.sverts, "getSideVertex", "", "")
    fact(o, "its vertices are the nodes", sorted(x.vert) == list(range(o.n)), x.vert, "getVertex", "")


def affine(x, base):
    """images of a reference volume under maps that keep its sides flat"""
    r, out = random.Random(8), []
    for k in range(10):
        c = 1 if x.int else 1.
        A = [[c * (i == j) for j in range(3)] for i in range(3)]
        if k % 3 == 1:
            A = [[c * r.choice([1, 2, 3]) * (i == j) for j in range(3)] for i in range(3)]
        if k % 3 == 2:
            A = [[c * r.choice([-1, 0, 1, 2]) + 3 * (i == j) for j in range(3)] for i in range(3)]
        if k > 6:
            A[0], A[1] = A[1], A[0]
        p = [c * r.randrange(-2, 3) for _ in range(3)]
        out.append(x.o.env([[p[i] + dot(A[i], q) for i in range(3)] for q in base]))
    return out


def volume(x):
    o, P = x.o, x.P
    closed(x)
    if not x.known:
        return
    unitc = [[0, 0, 0], [0, 0, 1], [0, 1, 1], [0, 1, 0], [1, 0, 0], [1, 0, 1], [1, 1, 1], [1, 1, 0]] if o.n == 8 else [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]
    flat = affine(x, unitc)
    cp = lambda e, f: cross(sub(P(e, x.sverts[f][1]), P(e, x.sverts[f][0])), sub(P(e, x.sverts[f][2]), P(e, x.sverts[f][0])))
    for f in range(x.nf):
        s = o.call("getBoundOfFace", [C(f)])
        o.ob("getBoundOfFace(%d)" % f, s, s.ret(), lambda e: [[g(P(e, i)[d] for i in x.sides[f]) for d in range(3)] for g in (min, max)], x.envs)
        if not x.int:
            s = o.call("getSideNormal", [C(f)])
            o.ob("getSideNormal(%d)" % f, s, s.ret(), lambda e: unit(cp(e, f)), [e for e in flat + x.envs[:6] if norm(cp(e, f)) > 1e-6])
        s = o.call("getAreaOfFace", [C(f)])
        o.ob("getAreaOfFace(%d)" % f, s, s.ret(), lambda e: norm(cp(e, f)) * (.5 if len(x.sverts[f]) == 3 else 1), flat)
        for pl, d in PLANES_ENUM(o.ctx):
            s = o.call("isFaceContainedInPlane", [C(f), C(pl)])
            o.ob("isFaceContainedInPlane(%d,%s)" % (f, "yz zx xy".split()[d]), s, s.ret(), lambda e: all(abs(P(e, i)[d] - P(e, x.sides[f][0])[d]) < 1e-9 for i in x.sides[f]), x.envs + flat)
    sf = E + ("Triangle3" if o.n == 4 else "Quadrilateral4<%s>" % o.T)
    S, v = sym("S"), fld(sym("S"), sf + "::v_")
    r = random.Random(3)
    f = o.meth("getFaceNumber", "Surface")
    cases = [list(s) for s in x.sverts]
    for c in cases:
        r.shuffle(c)
    stranger = list(cases[0])
    stranger[0] = next(i for i in x.vert if i not in stranger)
    for k, c in enumerate(cases + ([stranger] if o.n == 8 else [stranger[:2] + ["X"]])):
        names = [sym("X") if i == "X" else o.cs[i] for i in c]
        X = {n: o.co for n in names}
        X[S] = sf
        s = o.call("getFaceNumber", [S], f=f, put=[(el(v, C(i)), n) for i, n in enumerate(names)], exact=X, more=[(eq(sym("X"), c), False) for c in o.cs])
        if k < x.nf:
            o.is_("getFaceNumber(%d)" % k, s, k)
        else:
            try:
                ok = bool(s.refused(o.ids()))
            except NoVal as e:
                ok = None
            o.ctx.ob("elements", "%s.getFaceNumber(another surface) refused" % o.label, ok, "", o.ctx.loc(f))
    det = lambda e: dot(sub(P(e, x.vert[1]), P(e, x.vert[0])), cross(sub(P(e, x.vert[2]), P(e, x.vert[0])), sub(P(e, x.vert[3]), P(e, x.vert[0]))))
    cen = lambda e, idx: [sum(P(e, i)[d] for i in idx) / len(idx) for d in range(3)]
    if o.n == 4:
        # a side looks outwards when the volume is positive
        out = lambda e: dot(cp(e, 0), sub(cen(e, x.sverts[0]), cen(e, range(4)))) > 0
        o.ob("getVolume", s := o.call("getVolume"), s.ret(), lambda e: abs(det(e)) / 6 * (1 if out(e) else -1), [e for e in flat + x.envs if abs(det(e)) > 1e-6])
        q = sym("q")
        s = o.call("isInnerPoint", [q], ["Cartesian"])
        envs, r = [], random.Random(9)
        for e in flat + x.envs[:6]:
            if abs(det(e)) < 1e-3:
                continue
            for k in range(10):
                w = [r.uniform(.02, 1) for _ in range(4)]
                if k >= 2:                                   # outside across one or two sides, and near
                    w[k % 4] *= -r.choice([.1, .5, 1.5])
                    if k >= 8:
                        w[(k + 1) % 4] *= -.4
                t = sum(w)
                if abs(t) < .1:
                    continue
                w = [a / t for a in w]
                if min(abs(a) for a in w) < 1e-3:
                    continue
                p = [sum(w[i] * P(e, i)[d] for i in range(4)) for d in range(3)]
                envs.append(dict(e, **{"q.val[%d]" % d: p[d] for d in range(3)}, **{"_in": min(w) > 0}))
        o.ob("isInnerPoint", s, s.ret(), lambda e: e["_in"], envs)
        for f in range(4):
            copyof(o, "getTri3Face(%d)" % f, o.call("getTri3Face", [C(f)]), "Triangle3", x.sverts[f], "0")
    else:
        boxes = [e for e in affine(x, unitc)]
        reg = lambda e: all(sum(abs(a) > 1e-6 for a in sub(P(e, s[(i + 1) % 4]), P(e, s[i]))) == 1 for s in x.sides for i in range(4))
        o.ob("isRegular", s := o.call("isRegular"), s.ret(), reg, boxes + x.envs[:4])
        # a hexahedron on the corners of a box looks outwards
        if not x.int:
            for f in range(6):
                s = o.call("getSideNormal", [C(f)])
                e = o.env([[float(a) for a in p] for p in unitc])
                o.ob("getSideNormal(%d) of a box looks outwards" % f, s, s.ret(), lambda e: unit(sub(cen(e, x.sverts[f]), cen(e, range(8)))), [e])


def setters(ctx, cls):
    """constructors of an element class, by the types of their parameters"""
    return [f for f in ctx.P.byname.get(E + cls + "::(ctor)", []) if not f.get("dep") and f.get("b") is not None and f["p"]]


def meta(o, inst, s, args):
    """identifier, layer and material are those given, or none"""
    m = members(o.ctx, s.o)
    want = ["id.id_" if "id" in args else None, "lay" if "lay" in args else "None", "mat" if "mat" in args else "None"]
    got = [canon(s.ev, s.loc(x)) for x in m]
    got[0] = got[0].replace("id.id_.id_", "id.id_")
    bad = [(g, w) for g, w in zip(got, want) if w is not None and g != w]
    ok = not bad
    if bad and any(not re.match(r"(\d+|None|id\.id_|lay|mat|A\.[\w.]+)$", g) for g, _ in bad):
        ok = None
    o.ctx.ob("elements", "%s: %s keeps identifier, layer and material" % (o.label, inst), ok, ", ".join(got), o.ctx.loc(s.f))


def inlctor(f):
    """coordinates are looked up in, and added to, the group by its own functions"""
    return not ("::Coordinate::Group" in f["n"] and f["n"].split("::")[-1] in ("getPos", "addPos"))


def constructors(ctx, els):
    for cls, x in els.items():
        o = x.o
        for f in setters(ctx, cls):
            pt = [p["t"].replace("const ", "") for p in f["p"]]
            names = ["id" if "Class::Identification<SEMBA::Geometry::Element" in t else "lay" if "Layer::Layer" in t else "mat" if "PhysicalModel" in t else "cG" if "Group<" in t else "box" if "Box<" in t else "A" if "Element::" + cls in t else "v" for t in pt]
            args = [sym(n) for n in names]
            P, X = o.consts()
            X = dict(X)
            if "box" in names:
                boxed(o, x, f, args, names)
                continue
            if "A" in names:
                s = Shaped(ctx, f, inl13, args, put=P + o.puts("A", o.cs), exact=dict(X, **{}), rec=30, budget=6000000)
                o.is_("copy", s, ["c%d" % i for i in range(o.n)], None, [s.loc(el(fld(s.o, o.cls + "::v_"), C(i))) for i in range(o.n)])
                m = members(ctx, s.o)
                got = [canon(s.ev, s.loc(t)) for t in m]
                want = [canon(s.ev, t) for t in members(ctx, sym("A"))]
                ctx.ob("elements", "%s: a copy keeps identifier, layer and material" % o.label, True if got == want else False if all(re.match(r"(0|None|A\.[\w.]+)$", g) for g in got) else None, ", ".join(got), ctx.loc(f))
                continue
            j = names.index("v")
            put = list(P)
            if "array" in pt[j]:
                args[j] = mk("il", *o.cs)
            else:
                put += [(el(args[j], C(i)), c) for i, c in enumerate(o.cs)]
            X.update({c: o.co for c in o.cs})
            s = Shaped(ctx, f, inl13, args, put=put, exact=X, rec=30, budget=6000000, assume=[(eq(a, b), False) for a, b in itertools.permutations(o.cs, 2)])
            what = "from %s%s" % ("an array" if "array" in pt[j] else "nodes", "" if "id" in names else " only")
            if cls != "Tetrahedron4":
                o.is_(what, s, ["c%d" % i for i in range(o.n)], None, [s.loc(el(fld(s.o, o.cls + "::v_"), C(i))) for i in range(o.n)])
            else:
                # only tetrahedra whose nodes share a coordinate have no volume by the constructor's own rule
                P_ = x.P
                shared = lambda e: any(len({P_(e, i)[d] for i in range(4)}) == 1 for d in range(3))
                r, envs = random.Random(3), list(x.envs)
                for k in range(24):
                    ps = [[r.choice([0., 1., 2.]) for _ in range(3)] for _ in range(4)]
                    d, keep = k % 3, k % 4
                    for i in range(4):
                        if i != keep or k < 6:
                            ps[i][d] = 1.
                    envs.append(o.env(ps))
                o.ob(what, s, [s.loc(el(fld(s.o, o.cls + "::v_"), C(i))) for i in range(4)], lambda e: REFUSED if shared(e) else ["c%d" % i for i in range(4)], envs)
            meta(o, what, s, names)


class Finder:
    """positions looked up in a group of coordinates become names"""

    def __init__(self, s, env, known):
        self.s, self.e, self.known = s, env, known

    def __call__(self, t):
        if t.k == "call" and t.a[0].split("::")[-1] in ("getPos", "addPos") and len(t.a) >= 3:
            if t.a[0].split("::")[-1] == "getPos" and not self.known:
                return "NULL"
            a = t.a[2]
            if a.k == "el":
                b = a.a[0]
                while b.k == "ite":
                    b = b.a[1] if ceval(self.s.ev, b.a[0], self) else b.a[2]
                i = ceval(self.s.ev, a.a[1], self)
                if b.k == "il" and i < len(b.a):
                    a = b.a[i]
                else:
                    a = el(b, C(i))
            return "%s%s" % ("found " if self.known else "added ", self.pos(self.s.number(self.s.tree(a), self)))
        if t.k == "eq" and any(x.k == "call" and x.a[0].split("::")[-1] == "getPos" for x in t.a) and NULL in t.a:
            return not self.known
        if t.k in ("fld", "el", "sym"):
            return self.e.get(canon(self.s.ev, t))
        return None

    @staticmethod
    def pos(p):
        return "(%g,%g,%g)" % tuple(p)


def boxed(o, x, f, args, names):
    """an element on the corners of a box: its nodes are the corners, next ones along its sides differing in one coordinate; boxes of another dimension are refused"""
    ctx = o.ctx
    P, X = o.consts()
    s = Shaped(ctx, f, inlctor, args, put=P, exact=X, rec=30, budget=6000000)
    dim = {1: 0, 2: 1, 4: 2, 8: 3}[o.n]
    ok, det, n = True, "", 0
    c = 1 if x.int else 1.
    try:
        for k in range(8):
            lo = [-2 * c, 3 * c, 1 * c]
            hi = [lo[d] + ((d + 2) * c if k >> d & 1 else 0) for d in range(3)]
            env = {"box.%s_.val[%d]" % (m, d): v[d] for m, v in (("min", lo), ("max", hi)) for d in range(3)}
            for known in (True, False):
                q = Finder(s, env, known)
                ref = s.refused(q)
                if ref != (bin(k).count("1") != dim):
                    ok, det = False, "a box of dimension %d is%s refused" % (bin(k).count("1"), "" if ref else " not")
                    raise StopIteration
                n += 1
                if ref:
                    continue
                got = [s.number(s.loc(el(fld(s.o, o.cls + "::v_"), C(i))), q) for i in range(o.n)]
                w = "found " if known else "added "
                corners = {w + q.pos(p): p for p in itertools.product(*[{lo[d], hi[d]} for d in range(3)])}
                if sorted(got) != sorted(corners):
                    ok, det = False, "its nodes are %s" % got
                    raise StopIteration
                ps = [corners[g] for g in got]
                edges = [(a, b) for sd in x.sverts for a, b in zip(sd, sd[1:] + (sd[:1] if o.n == 8 else []))] if x.known and o.n > 1 else []
                if o.n > 2 and any(sum(u != v for u, v in zip(ps[a], ps[b])) != 1 for a, b in edges):
                    ok, det = False, "its sides are not those of the box: %s" % got
                    raise StopIteration
    except StopIteration:
        pass
    except NoVal as e:
        ok, det = None, "does not follow: %s" % e
    ctx.ob("elements", "%s from a box%s" % (o.label, "" if "id" in names else " only"), ok, det or "%d classes" % n, ctx.loc(f))
    meta(o, "from a box%s" % ("" if "id" in names else " only"), s, names)


# ---------------------------------------------------------------- structured and unstructured forms
def inlconv(f):
    l = f["n"].split("::")[-1]
    return not ("Group" in f["n"] and l in ("getPos", "addPos", "existId", "getId", "get") or "Grid" in f["n"] and l in ("getCell", "isCell") or l == "isStructured")


class Conv:
    """constants of a conversion: node i has identifier 10+i; the group knows those in `known`; its coordinate lies at the place of the node unless `moved`"""

    def __init__(self, s, x, known, moved, structured=True):
        self.s, self.x, self.known, self.moved, self.str = s, x, known, moved, structured

    def at(self, i, d):
        return 2 + 3 * i + d

    def id(self, t):
        v = ceval(self.s.ev, t, self) if t.k != "obj" else self.s.number(self.s.loc(fld(t, self.x.idf)), self)
        return v[0] if v.__class__ is tuple else v

    def __call__(self, t):
        ev = self.s.ev
        if t.k == "eq" and len(t.a) == 2 and NULL in t.a:
            o = [a for a in t.a if a is not NULL]
            if o and (o[0].k == "sym" or o[0].k == "call" or o[0].k == "obj"):
                return False
        if t.k == "call":
            n = t.a[0].split("::")[-1]
            if n == "existId":
                return self.id(t.a[2]) in self.known
            if n == "isStructured":
                return self.str
            if n == "getId" and len(t.a) == 3:
                return "g%d" % self.id(t.a[2])
        if t.k == "el" and t.a[0].k == "fld" and t.a[0].a[1].endswith("::val"):
            b, d = t.a[0].a[0], ceval(ev, t.a[1], self)
            if b.k == "call" and b.a[0].endswith("::getId"):
                i = self.id(b.a[2]) - 10
                return self.at(i, d) + (1 if (i, d) == self.moved else 0)
            if b.k == "call" and b.a[0].endswith("::getCell"):
                c = canon(ev, b.a[2])
                if re.match(r"c\d+$", c):
                    return self.at(int(c[1:]), d)
            if b.k == "sym" and re.match(r"c\d+$", b.a[0]):
                return self.at(int(b.a[0][1:]), d) * (1 if self.x.int else 1.5)
        if t.k == "el" and t.a[0].k == "el" and canon(ev, t.a[0].a[0]).endswith("grid.pos_"):
            return ceval(ev, t.a[1], self)           # grid lines at the integers
        c = canon(ev, t) if t.k in ("fld", "sym") else ""
        m = re.match(r"c(\d+)\.id_(\.id_)*$", c)
        if m:
            return 10 + int(m.group(1))
        return None


IDF = "SEMBA::Class::Identification<SEMBA::Geometry::Coordinate::Base>::id_"


def conversions(ctx, els):
    for cls, x in els.items():
        o = x.o
        x.idf = IDF
        base = cls.split("<")[0]
        if base not in [k[0] for k in KINDS]:
            continue
        name, args, to = ("toUnstructured", ["cG", "grid"], "double") if x.int else ("toStructured", ["cG", "grid", "tol"], "int")
        f = o.meth(name, *[""] * len(args))
        X = {c: o.co for c in o.cs}
        X[sym("G")] = o.cls
        s = Shaped(ctx, f, inlconv, [sym(a) for a in args], put=o.puts("G", o.cs), exact=X, rec=30, budget=6000000)
        target = E + "%s<%s>" % (base, to)
        cases = [(set(range(10, 10 + o.n)), None, True)]
        cases += [(set(range(10, 10 + o.n)) - {10 + j}, None, True) for j in {0, o.n - 1}]
        cases += [(set(range(10, 10 + o.n)), (j, d), True) for j in {0, o.n - 1} for d in range(3)]
        if not x.int:
            cases.append((set(range(10, 10 + o.n)), None, False))
        ok, det, n = True, "", 0
        try:
            for known, moved, st in cases:
                q = Conv(s, x, known, moved, st)
                bad = st and (len(known) < o.n or moved is not None)
                ref = s.refused(q)
                what = "a missing coordinate" if len(known) < o.n else "a coordinate elsewhere" if moved else "an element off the grid" if not st else "coordinates in place"
                if ref != bad:
                    ok, det = False, "%s is%s refused" % (what, "" if ref else " not")
                    break
                n += 1
                if ref:
                    continue
                r = pick(s, s.ret(), q)
                r = NULL if isc(r) and not r.a[0] else r
                if not st or r is NULL:
                    if (r is NULL) != (not st):
                        ok, det = False if r is NULL or r.k == "obj" else None, "%s gives %s" % (what, r)
                        break
                    continue
                if r.k != "obj":
                    ok, det = None, "the result does not follow"
                    break
                got = [s.number(s.loc(el(fld(r, target + "::v_"), C(i))), q) for i in range(o.n)] if r.a[1] == target else []
                ms = [canon(s.ev, pick(s, s.loc(m), q)) for m in members(ctx, r)]
                if r.a[1] != target or got != ["g%d" % (10 + i) for i in range(o.n)] or ms != ["G.id_.id_", "G.lay_", "G.mat_"]:
                    ok, det = False, "the result is a %s on %s with %s" % (r.a[1].split("::")[-1], got, ms)
                    break
        except NoVal as e:
            ok, det = None, "does not follow: %s" % e
        ctx.ob("elements", "%s.%s" % (o.label, name), ok, det or "%d classes" % n, ctx.loc(f))


def check(ctx):
    els = build(ctx)
    for k, x in els.items():
        x.common(extremes=x.nv <= 3)
        x.same()
        if k[0] in "TQ" and k != "Tetrahedron4":
            surface(x)
        if k[:3] == "Tri":
            triangles(ctx, x)
        if k in ("Tetrahedron4",) or k.startswith("Hexa"):
            volume(x)
    constructors(ctx, els)
    conversions(ctx, els)
