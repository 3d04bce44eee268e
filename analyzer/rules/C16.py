"""C16 groups of elements and coordinates, and the meshes they make"""
import itertools
import random
from lib import *
from rules.C13 import CO
from rules.C15 import Src, group, QU

EXPL = ("Queries and updates of groups of elements and of coordinates, and construction, conversion and scaling of meshes, are evaluated, callees inlined, on groups of up to three elements with unknown identifiers, materials, layers and positions; "
        "the selections, boxes and pointers obtained are compared with their definition by constant propagation in every class of parameters.")
FLOOR = 300
GEO = "SEMBA::Geometry::"
ER, EI, EB = GEO + "Element::Element<double>", GEO + "Element::Element<int>", GEO + "Element::Base"
LAY, MOD = GEO + "Layer::Layer", "SEMBA::PhysicalModel::PhysicalModel"
ANYM = "SEMBA::Class::Identifiable<SEMBA::Class::Identification<%s>>" % MOD
rng = random.Random(16)


def idof(who, cls):
    I = "SEMBA::Class::Identification<%s>" % cls
    return fld(fld(who, "SEMBA::Class::Identifiable<%s>::id_" % I), I + "::id_")


def elm(base, const=False):
    return "SEMBA::Group::Group<%s%s>::element_" % ("const " if const else "", base)


class Grp(Src):
    def __init__(self, ctx, cls, base, label):
        Src.__init__(self, ctx, "x", label)
        self.cls, self.rule, self.base = cls, "groups and meshes", base

    def content(self, s, x, bases=None):
        """the elements of a group, by name"""
        if s.r.st is None or x is None:
            return None
        c = s.ev.dyncls.get(x) or clsof(self.ctx.P, x) or ""
        if x.k == "ite":
            return ("ite", x.a[0], self.content(s, x.a[1]), self.content(s, x.a[2]))
        m = re.search(r"<(.*)>$", c)
        b = re.match(r"(const )?SEMBA::[\w:]+(<[^<>]*>)?", m.group(1)).group(0) if m else ""
        t = s.loc(fld(x, "SEMBA::Group::Group<%s>::element_" % b))
        return t if t.__class__ is list else None


def kind(n, mat, lay, ids=None):
    """the model and the layer of an element, given by identifiers (None: it has none)"""
    put, X, A = [], {}, []
    for m, cl, i in (("mat_", MOD, mat), ("lay_", LAY, lay)):
        w = sym(n + m)
        put.append((fld(sym(n), EB + "::" + m), w if i is not None else C(None)))
        if i is not None:
            X[w] = cl
            A.append((eq(w, C(None)), False))
            put.append((idof(w, cl), C(i)))
    return put, X, A


def group_of(els, who="G", base=ER, kinds=()):
    put, X, A = group(who, base, els, "")
    for k in kinds:
        a, b, c = kind(*k)
        put, A = put + a, A + c
        X.update(b)
    return put, X, A


QD, QI = QU % "double", QU % "int"
HX = GEO + "Element::Hexahedron8<double>"
CB = GEO + "Coordinate::Base"
IDN = "SEMBA::Class::Identification<%s>::id_"


def names(t):
    """the names of the elements of a list of pointers; None when one does not follow"""
    if t.__class__ is not list:
        return None
    r = []
    for x in t:
        if x.__class__ is not T or x.k != "sym":
            return None
        r.append(x.a[0])
    return r


def pos(n, p):
    """the constants of the positions of the coordinates of an element"""
    return {"%sc%d.val[%d]" % (n, i, k): float(v) for i, q in enumerate(p) for k, v in enumerate(q)}


def sheet(x, y, z, w=1, h=2):
    """the corners of a rectangle parallel to z = 0"""
    return [(x, y, z), (x + w, y, z), (x + w, y + h, z), (x, y + h, z)]


class EGrp(Grp):
    def plain(self, inst, s, got, want):
        """a value that must be found whatever the unknowns"""
        if s.limit:
            self.ctx.ob(self.rule, "%s.%s" % (self.label, inst), None, "the paths are too many", self.ctx.loc(s.f))
            return
        thr = [t for t in s.r.throws if t[0] is TRUE]
        bad = s.r.st is None or bool(thr)
        if want == REFUSED:
            self.ctx.ob(self.rule, "%s.%s" % (self.label, inst), True if bad else False if not s.r.throws else None, "is not refused", self.ctx.loc(s.f))
            return
        if bad:
            self.ctx.ob(self.rule, "%s.%s" % (self.label, inst), False, "is refused, should be %s" % (want,), self.ctx.loc(s.f))
            return
        if s.r.throws and not all(t[0] is FALSE for t in s.r.throws):
            got = None
        self.ctx.ob(self.rule, "%s.%s" % (self.label, inst), None if got is None else got == want, "is %s, should be %s" % (got, want), self.ctx.loc(s.f))

    def every(self, name, *ptypes):
        q = self.cls + "::" + name
        fs = [f for f in self.ctx.P.byname.get(q, []) if not f.get("dep") and f.get("b") is not None and len(f["p"]) == len(ptypes) and all(x in p["t"] for x, p in zip(ptypes, f["p"]))]
        if not fs:
            raise AnalysisError("anchor vanished: %s(%s)" % (q, ", ".join(ptypes)))
        return fs

    def selections(self, els):
        ns = [e[0] for e in els]
        P3 = [((1, 7), (2, 7), (1, 8)), ((1, 8), (1, 7), (1, 7)), ((2, None), (None, 7), (3, 7)), ((None, None), (1, 7), (3, 8)), ((3, 8), (3, 8), (3, 8))]
        for nm, ids, hit in (("getMatId", [(1, MOD)], lambda m, l: m == 1), ("getLayerId", [(7, LAY)], lambda m, l: l == 7), ("getMatLayerId", [(1, MOD), (7, LAY)], lambda m, l: (m, l) == (1, 7))):
            fs = [f for f in self.every(nm, *["Identification"] * len(ids)) if "vector" not in f["p"][0]["t"]]
            for f in fs:
                for pat in P3:
                    put, X, A = group_of(els, base=self.base, kinds=[(n, m, l) for n, (m, l) in zip(ns, pat)])
                    X[sym("G")] = self.cls
                    s = self.run(f, [sym("i%d" % i) for i in range(len(ids))], put + [(fld(sym("i%d" % i), IDN % c), C(v)) for i, (v, c) in enumerate(ids)], X, A)
                    self.plain("%s%s of %s" % (nm, " const" if f.get("const") else "", pat), s, names(self.content(s, s.r.ret)), [n for n, (m, l) in zip(ns, pat) if hit(m, l)])
        for nm, c, w in (("getMatId", MOD, (1, 3)), ("getLayerId", LAY, (7, 9))):
            for f in self.every(nm, "vector"):
                for pat in P3[:3]:
                    put, X, A = group_of(els, base=self.base, kinds=[(n, m, l) for n, (m, l) in zip(ns, pat)])
                    X[sym("G")] = self.cls
                    s = self.run(f, [mk("il", sym("i0"), sym("i1"))], put + [(fld(sym("i%d" % i), IDN % c), C(v)) for i, v in enumerate(w)], {**X, sym("i0"): (IDN % c)[:-5], sym("i1"): (IDN % c)[:-5]}, A)
                    self.plain("%s of several ids of %s" % (nm, pat), s, names(self.content(s, s.r.ret)), [n for n, (m, l) in zip(ns, pat) if (m if c == MOD else l) in w])
        for f in self.every("removeMatId", "Identification"):
            if "vector" in f["p"][0]["t"]:
                continue
            for pat in P3[:3]:
                put, X, A = group_of(els, base=self.base, kinds=[(n, m, l) for n, (m, l) in zip(ns, pat)])
                X[sym("G")] = self.cls
                s = self.run(f, [sym("i0")], put + [(fld(sym("i0"), IDN % MOD), C(1))], X, A)
                self.plain("removeMatId of %s" % (pat,), s, names(s.loc(fld(s.o, elm(self.base)))), [n for n, (m, l) in zip(ns, pat) if m != 1])

    def coords(self):
        for pat in (((1, 2, 3, 4), (5, 6, 7, 8)), ((1, 2, 3, 4), (3, 4, 5, 6)), ((5, 4, 3, 2), (6, 7, 8, 3)), ((3, 3, 1, 2), (4, 5, 6, 7)), ((4, 5, 6, 7), (1, 2, 8, 9))):
            els = [(n, QD, "double", 4) for n in "AB"]
            put, X, A = group_of(els)
            X[sym("G")] = self.cls
            for n, ids in zip("AB", pat):
                put += [(idof(sym("%sc%d" % (n, i)), CB), C(v)) for i, v in enumerate(ids)]
            s = self.run(self.find("getCoordId", "Identification"), [sym("i0")], put + [(fld(sym("i0"), IDN % CB), C(3))], X, A)
            self.plain("getCoordId of %s" % (pat,), s, names(self.content(s, s.r.ret)), [n for n, ids in zip("AB", pat) if 3 in ids])

    def places(self):
        els = [(n, QD, "double", 4) for n in "ABC"]
        put, X, A = group_of(els)
        X[sym("G")] = self.cls
        R = [dict(A=sheet(0, 0, 0), B=sheet(2, -1, 3), C=sheet(-4, 1, 1)), dict(A=sheet(5, 5, 5), B=sheet(1, 1, 1), C=sheet(1, 1, 9)), dict(A=sheet(0, 0, 0, -3), B=sheet(-7, 2, 0, 2, -8), C=sheet(1, 1, 9, 4, 4)),
             dict(A=sheet(1, 2, 3), B=sheet(-1, -2, -3), C=sheet(4, 0, -6))]
        envs = []
        for r in R:
            e = {"R": r}
            for n in "ABC":
                e.update(pos(n, r[n]))
            envs.append(e)

        def box(ns):
            def w(e):
                ps = [p for n in ns for p in e["R"][n]]
                return [[float(min(p[i] for p in ps)) for i in range(3)], [float(max(p[i] for p in ps)) for i in range(3)]]
            return w
        s = self.run(self.find("getBound"), [], put, X, A)
        self.ob("getBound", s, s.ret(), box("ABC"), envs)
        put0, X0, A0 = group_of([])
        X0[sym("G")] = self.cls
        s = self.run(self.find("getBound"), [], put0, X0, A0)
        self.ob("getBound of none", s, s.ret(), lambda e: [[-math.inf] * 3, [math.inf] * 3], envs[:1])
        s = self.run(self.find("getClosestVertex", "Cartesian"), [sym("Z")], put, X, A)
        E = []
        for e in envs:
            for z in ((0, 0, 0), (1, 1.2, 9.5), (-5, 3, 0), (6, 6, 6), (2.2, .8, 3.1), (50, 40, -30), (4.4, .3, -5)):
                d = {(n, i): math.dist(q, z) for n in "ABC" for i, q in enumerate(e["R"][n])}
                k = sorted(d, key=d.get)
                if d[k[1]] - d[k[0]] > 1e-6:
                    E.append({**e, "w": "%sc%d" % k[0], **{"Z.val[%d]" % i: float(v) for i, v in enumerate(z)}, **{"%sc%d" % q: "%sc%d" % q for q in d}})
        self.ob("getClosestVertex", s, s.ret(), lambda e: e["w"], E)
        s = self.run(self.find("getClosestVertex", "Cartesian"), [sym("Z")], put0, X0, A0)
        self.plain("getClosestVertex of none", s, str(s.r.ret) if s.r.ret is not None else None, str(C(None)))
        # the elements within a box
        for b0, b1 in (((-1, -1, -1), (1, 2, 1)), ((0, -1, 0), (3, 2, 3)), ((-9, -9, -9), (9, 9, 9)), ((1.5, -2, 2), (4, 4, 4)), ((.5, 0, 0), (9, 9, 9))):
            p2 = list(put) + [(el(fld(fld(sym("Y"), GEO + "Box<double, 3>::%s_" % m), "SEMBA::Math::Vector::Cartesian<double, 3>::val"), C(i)), C(float(v))) for m, q in (("min", b0), ("max", b1)) for i, v in enumerate(q)]
            for n in "ABC":
                for c, q in enumerate(R[0][n]):
                    p2 += [(el(fld(sym("%sc%d" % (n, c)), "SEMBA::Math::Vector::Cartesian<double, 3>::val"), C(i)), C(float(v))) for i, v in enumerate(q)]
            s = self.run(self.find("getInsideBound", "Box"), [sym("Y")], p2, X, A)
            self.plain("getInsideBound of %s %s" % (b0, b1), s, names(self.content(s, s.r.ret)), [n for n in "ABC" if all(l <= v <= h for p in R[0][n] for l, v, h in zip(b0, p, b1))])

    def links(self):
        els = [(n, QD, "double", 4) for n in "ABC"]
        put, X, A = group_of(els, kinds=[("A", 1, 7), ("B", None, 8), ("C", 2, None)])
        X[sym("G")] = self.cls
        at = lambda s, m: [str(s.ev.load(s.r.st, fld(sym(n), EB + "::" + m))) for n in "ABC"] if s.r.st else None
        for nm, m in (("setModel", "mat_"), ("setLayer", "lay_")):
            s = self.run(self.find(nm, "const"), [sym("M")], put, X, A)
            self.plain(nm, s, at(s, m), ["M"] * 3)
            for i, n in ((2, "A"), (5, "B"), (8, "C"), (4, None)):
                s = self.run(self.find(nm, "Identification", "const"), [sym("i0"), sym("M")], put + [(fld(sym("i0"), IDN % EB), C(i))], X, A)
                w = ["Amat_", "None", "Cmat_"] if m == "mat_" else ["Alay_", "Blay_", "None"]
                self.plain("%s of identifier %d" % (nm, i), s, at(s, m), ["M" if k == n else v for k, v in zip("ABC", w)] if n else REFUSED)


    def relink(self):
        """elements given the coordinates, the layers and the models of other groups, by identifier"""
        ids = {"A": (4, 9, 1, 6), "B": (9, 4, 7, 1)}
        els = [(n, QD, "double", 4) for n in "AB"]
        put, X, A = group_of(els)
        X[sym("G")] = self.cls
        for n in "AB":
            put += [(idof(sym("%sc%d" % (n, i)), CB), C(v)) for i, v in enumerate(ids[n])]
        RP = [g for k, fs in self.ctx.P.byname.items() if k.split("::reassignPointers")[0] == self.cls and k.split("::")[-1].startswith("reassignPointers") or k.startswith(self.cls + "::reassignPointers") for g in fs if g.get("b") and len(g["p"]) == 1]
        f = [g for g in RP if "Coordinate::Group" in g["p"][0]["t"]]
        if not f:
            raise AnalysisError("anchor vanished: reassignPointers(coordinates)")
        for new in ((9, 1, 4, 7, 6), (9, 1, 4, 7)):
            p2, X2, A2 = shelf("N", CO % "double", CB, new, GEO + "Coordinate::Group<%s>" % (CO % "double"))
            s = self.run(f[0], [sym("N")], put + p2, {**X, **X2}, A + A2)
            got = [str(s.ev.load(s.r.st, el(fld(sym(n), QD + "::v_"), C(i)))) for n in "AB" for i in range(4)] if s.r.st else None
            self.plain("coordinates of identifiers %s" % (new,), s, got, ["N%d" % v for n in "AB" for v in ids[n]] if len(new) == 5 else REFUSED)
        els = [(n, QD, "double", 4) for n in "ABC"]
        for m, cl, gr, k in (("lay_", LAY, GEO + "Layer::Group<>", 1), ("mat_", MOD, "SEMBA::Group::Identifiable<%s, SEMBA::Class::Identification<%s>>" % (ANYM, MOD), 0)):
            kinds = [("A", 3, 8), ("B", None, None), ("C", 5, 6)]
            put, X, A = group_of(els, kinds=kinds)
            X[sym("G")] = self.cls
            f = [g for g in RP if "Coordinate::Group" not in g["p"][0]["t"] and ("Layer::Group" in g["p"][0]["t"]) == bool(k)]
            if not f:
                raise AnalysisError("anchor vanished: reassignPointers(%s)" % m)
            for new in ((5, 6, 3, 8), (8, 3)):
                p2, X2, A2 = shelf("N", cl, cl, new, gr, None if k else ANYM)
                s = self.run(f[0], [sym("N")], put + p2, {**X, **X2}, A + A2)
                got = [str(s.ev.load(s.r.st, fld(sym(n), EB + "::" + m))) for n in "ABC"] if s.r.st else None
                self.plain("%s of identifiers %s" % (m, new), s, got, ["N%d" % x[1 + k] if x[1 + k] else "None" for x in kinds] if len(new) == 4 else REFUSED)


def shelf(who, cls, idc, ids, gcls, of=None):
    """a group of objects <who><id> of the identifiers given"""
    own = gcls if gcls.startswith("SEMBA::Group::Identifiable<") else "SEMBA::Group::Identifiable<%s, SEMBA::Class::Identification<%s>>" % (cls, idc)
    put = [(fld(sym(who), elm(of or cls)), mk("il", *[sym("%s%d" % (who, i)) for i in ids]))]
    put.append((fld(sym(who), own + "::mapId_"), mk("map", *[x for i, p in sorted((i, p) for p, i in enumerate(ids)) for x in (C(i), C(p))])))
    put.append((fld(fld(sym(who), own + "::lastId_"), IDN % idc), C(max(ids))))
    put += [(idof(sym("%s%d" % (who, i)), idc), C(i)) for i in ids]
    X = {sym("%s%d" % (who, i)): cls for i in ids}
    X[sym(who)] = gcls
    return put, X, [(eq(sym("%s%d" % (who, i)), C(None)), False) for i in ids]


def mixed(ctx):
    o = EGrp(ctx, GEO + "Element::Group<>", EB, "AnyElements")
    put, X, A = group_of([("A", QD, "double", 4), ("B", QI, "int", 4), ("D", HX, "double", 8)], base=EB)
    X[sym("G")] = o.cls
    cube = lambda x, w: sheet(*x, w, w) + sheet(x[0], x[1], x[2] + w, w, w)
    envs = []
    for a, b, d in ((sheet(0.5, 0, 0), sheet(3, 4, 5), cube((1, 1, 1), 2)), (sheet(7, 8, 9.5), sheet(0, -1, -2), cube((1, 1, 1), 3)), (sheet(1, 1, 1), sheet(2, 2, 2), cube((-5, -6, -7.5), 20))):
        e = {"R": a + b + d}
        for n, p in (("A", a), ("B", b), ("D", d)):
            e.update(pos(n, p))
        e.update({k: int(v) for k, v in e.items() if k[0] == "B"})
        envs.append(e)
    s = o.run(o.find("getBound"), [], put, X, A)
    o.ob("getBound", s, s.ret(), lambda e: [[float(f(p[i] for p in e["R"])) for i in range(3)] for f in (min, max)], envs)
    q = EGrp(ctx, GEO + "Element::Group<%s>" % ER, ER, "Elements")
    face = lambda v, f: mk("pair", sym(v), C(f))
    put, X, A = group_of([])
    X[sym("G")] = q.cls
    X[sym("D")] = HX
    for i in range(8):
        X[sym("Dc%d" % i)] = CO % "double"
        put.append((el(fld(sym("D"), HX + "::v_"), C(i)), sym("Dc%d" % i)))
    b = next((g for g in q.every("getBound", "vector")), None)
    fc = [[0, 1, 2, 3], [0, 3, 7, 4], [0, 1, 5, 4], [1, 5, 6, 2], [2, 3, 7, 6], [4, 5, 6, 7]]
    for fs in ((0, 5), (1,), (2, 3, 4), (3, 0), ()):
        s = q.run(b, [mk("il", *[face("D", f) for f in fs])], put, X, A)
        envs = [{"R": c, **pos("D", c)} for c in (cube((1, 2, 3), 2), cube((-1, .5, 0), .25))]
        o.ob("getBound of faces %s" % (fs,), s, s.ret(), lambda e: [[-math.inf] * 3, [math.inf] * 3] if not fs else [[float(g(e["R"][c][i] for f in fs for c in fc[f])) for i in range(3)] for g in (min, max)], envs)


class CGrp(EGrp):
    """groups of coordinates, along histories of calls"""

    def __init__(self, ctx, T_):
        EGrp.__init__(self, ctx, GEO + "Coordinate::Group<%s>" % (CO % T_), CO % T_, "Coordinates<%s>" % T_)
        self.T, self.num = T_, float if T_ == "double" else int
        self.V = "SEMBA::Math::Vector::Cartesian<%s, 3>" % T_

    def point(self, n, p):
        return [(el(fld(sym(n), self.V + "::val"), C(i)), C(self.num(v))) for i, v in enumerate(p)]

    def vec(self, n):
        return "Cartesian<%s" % self.T

    def overload(self, nm, pred):
        fs = [f for f in self.ctx.P.byname.get(self.cls + "::" + nm, []) if f.get("b") is not None and not f.get("dep") and pred(f["p"])]
        if not fs:
            raise AnalysisError("anchor vanished: %s::%s" % (self.cls, nm))
        return fs[0]

    def start(self, ps):
        """a group made of positions"""
        put, X = [], {}
        for i, p in enumerate(ps):
            put += self.point("p%d" % i, p)
            X[sym("p%d" % i)] = self.V
        f = self.overload("(ctor)", lambda q: len(q) == 1 and "std::vector<" in q[0]["t"] and "Cartesian<%s" % self.T in q[0]["t"])
        return self.run(f, [mk("il", *[sym("p%d" % i) for i in range(len(ps))])], put, X)

    def items(self, s):
        """identifier and position of every coordinate, in order"""
        t = s.loc(fld(s.o, elm(self.base))) if s.r.st else None
        return [self.item(s, x) for x in t] if t.__class__ is list else None

    def item(self, s, x):
        if x is None or x.__class__ is not T or s.r.st is None:
            return None
        if x is C(None):
            return "none"
        x = s.ev.val(s.r.st, x)
        if x.k not in ("obj", "sym"):
            return "none" if x is C(None) else None
        r = [s.ev.load(s.r.st, idof(x, CB))] + [s.ev.val(s.r.st, el(fld(x, self.V + "::val"), C(i))) for i in range(3)]
        return tuple(y.a[0] for y in r) if all(num(y) for y in r) else None

    def look(self, s, p, inst):
        """the coordinate found at a position, of those the group has there"""
        s.r.throws[:] = []
        q = s.then(self.overload("getPos", lambda q: len(q) == 1 and "Cartesian<%s" % self.T in q[0]["t"]), [sym("Z")], self.point("Z", p), {sym("Z"): self.V})
        at = [x for x in self.items(s) or [] if x and close(x[1:], p)]
        got = self.item(q, q.r.ret)
        ok = None if got is None or self.items(s) is None else got in at if at else got == "none"
        self.ctx.ob(self.rule, "%s.%s: getPos%s" % (self.label, inst, tuple(p)), ok, "finds %s, should find %s" % (got, at or "none"), self.ctx.loc(q.f))

    def same(self, s, inst, want):
        got = self.items(s)
        got = None if got is None or None in got else got
        self.plain(inst, s, got, want)

    def histories(self):
        n = self.num
        P0 = [(1, 2, 3), (4, -5, 6), (1, 2, -3)]
        P1 = P0 + [(1, 2, 3)]
        tup = lambda ps, ids=None: [(i, *[n(v) for v in p]) for i, p in zip(ids or range(1, 9), ps)]
        R = self.T == "double"
        absent = [(1, 2, 4), (0, 0, 0), (4, -5, -6)] + ([(1, 2, 3.25)] if R else [])
        sets = {"positions": P0, "repeated positions": P1, "one position": P0[:1], "no positions": []}
        for nm, ps in sets.items():
            s = self.start(ps)
            self.same(s, "made of %s" % nm, tup(ps))
            for p in ps[:3] + absent:
                self.look(s, p, "made of %s" % nm)
            one = lambda q: len(q) == 2 and "std::vector" not in q[0]["t"] and "Cartesian<%s" % self.T in q[0]["t"]
            for p in absent[:1] + ps[1:2] + ps[:1]:
                for over in (False, True):
                    q = s.then(self.overload("addPos", one), [sym("Z"), C(over)], self.point("Z", p), {sym("Z"): self.V})
                    add = over or p not in ps
                    h = "addPos%s%s to %s" % (p, " overlapping" if over else "", nm)
                    self.same(q, h, tup(ps + [p] if add else ps))
                    got = self.item(q, q.r.ret)
                    at = tup(ps + [p])[-1:] if add else [x for x in tup(ps) if x[1:] == p]
                    self.ctx.ob(self.rule, "%s.%s returns" % (self.label, h), None if got is None else got in at, "is %s, should be %s" % (got, at), self.ctx.loc(q.f))
                    for z in [p] + absent[1:2]:
                        self.look(q, z, h)
            many = lambda q: len(q) == 2 and "std::vector" in q[0]["t"] and "Cartesian<%s" % self.T in q[0]["t"]
            new = absent[:1] + ps[:1] + absent[1:2]
            put, X = [], {}
            for i, p in enumerate(new):
                put += self.point("n%d" % i, p)
                X[sym("n%d" % i)] = self.V
            q = s.then(self.overload("addPos", many), [mk("il", *[sym("n%d" % i) for i in range(len(new))]), C(False)], put, X)
            self.same(q, "addPos of several to %s" % nm, tup(ps + absent[:2]))
            for z in new:
                self.look(q, z, "addPos of several to %s" % nm)
            if ps:
                rm = self.overload("remove", lambda q: len(q) == 1 and "vector" not in q[0]["t"])
                for k in range(min(2, len(ps))):
                    q = s.then(rm, [C(k)])
                    self.same(q, "remove(%d) from %s" % (k, nm), [x for i, x in enumerate(tup(ps)) if i != k])
                    for z in ps[:3]:
                        self.look(q, z, "remove(%d) from %s" % (k, nm))
                q = s.then(self.overload("remove", lambda q: len(q) == 1 and "vector" in q[0]["t"]), [mk("il", C(len(ps) - 1), C(0))])
                self.same(q, "remove of several from %s" % nm, tup(ps)[1:-1])
                for z in ps[:3]:
                    self.look(q, z, "remove of several from %s" % nm)
            q = s.then(self.overload("clear", lambda q: not q))
            self.same(q, "clear of %s" % nm, [])
            for z in ps[:1]:
                self.look(q, z, "clear of %s" % nm)
            if R:
                for f in (2., .5, -1., -3.):
                    q = s.then(self.overload("applyScalingFactor", lambda q: len(q) == 1), [C(f)])
                    h = "applyScalingFactor(%g) to %s" % (f, nm)
                    self.same(q, h, [(x[0], *[v * f for v in x[1:]]) for x in tup(ps)])
                    for z in ps[:3]:
                        self.look(q, [v * f for v in z], h)
                        self.look(q, z, h)
            elif ps:
                for z in ps[:3] + absent[:1]:
                    q = s.then(self.overload("getAllInPos", lambda q: len(q) == 1), [sym("Z")], self.point("Z", z), {sym("Z"): self.V})
                    t = q.loc(fld(q.r.ret, "SEMBA::Group::Group<const %s>::element_" % self.base)) if q.r.ret is not None else None
                    got = [self.item(q, x) for x in t] if t.__class__ is list else None
                    got = None if got is None or None in got else sorted(got)
                    self.plain("getAllInPos%s of %s" % (z, nm), q, got, [x for x in tup(ps) if x[1:] == tuple(z)])


class Mesh(EGrp):
    """meshes made of given groups, along histories of calls"""
    LN, ND = GEO + "Element::Line2<%s>", GEO + "Element::Node<%s>"
    # corners on the lines of the grid, and cells they stand at
    LINES = ([0., 1., 2.5], [-1., 0., 1., 2.], [0., .5, 1.])
    CELL = {4: (0, 0, 0), 1: (1, 0, 0), 9: (1, 2, 0), 3: (0, 2, 0), 6: (2, 3, 2)}
    ELS = (("A", 0, 11, (4, 1, 9, 3), 8, 21), ("B", 1, 5, (3, 6), 7, None), ("D", 2, 8, (9,), None, 22), ("F", 1, 13, (3, 9), 8, 21))

    def __init__(self, ctx, name, T_):
        EGrp.__init__(self, ctx, GEO + "Mesh::" + name, None, "Mesh::" + name)
        self.T = T_
        self.V = "SEMBA::Math::Vector::Cartesian<%s, 3>" % T_

    def at(self, k, T_=None):
        c = self.CELL[k]
        return c if (T_ or self.T) == "int" else tuple(self.LINES[d][c[d]] for d in range(3))

    def kinds(self, T_):
        return [QU % T_, self.LN % T_, self.ND % T_]

    def member(self, m):
        for c in [self.cls] + list(self.ctx.P.bases(self.cls)):
            if c + "::" + m in self.flds():
                return c + "::" + m
        raise AnalysisError("anchor vanished: %s::%s" % (self.cls, m))

    def given(self):
        """groups of coordinates, elements and layers, a grid and ends of the domain"""
        C_, E_ = CO % self.T, GEO + "Element::Element<%s>" % self.T
        p1, X1, A1 = shelf("V", C_, CB, tuple(self.CELL), GEO + "Coordinate::Group<const %s>" % C_, of="const " + C_)
        p2, X2, A2 = group("E", E_, [(n, self.kinds(self.T)[k], self.T, len(v)) for n, k, i, v, l, m in self.ELS])
        X2[sym("E")] = GEO + "Element::Group<const %s>" % E_
        p3, X3, A3 = shelf("L", LAY, LAY, (7, 8), GEO + "Layer::Group<const %s>" % LAY, of="const " + LAY)
        p4, X4, A4 = shelf("M", MOD, MOD, (21, 22), "")
        p4 = [(k, v) for k, v in p4 if not re.match(r"M\.", str(k))]
        X4.pop(sym("M"))
        for k in self.CELL:
            p1 += [(el(fld(sym("V%d" % k), self.V + "::val"), C(i)), C(v)) for i, v in enumerate(self.at(k))]
        for n, k, i, v, l, m in self.ELS:
            p2 += [(el(fld(sym(n), self.kinds(self.T)[k] + "::v_"), C(j)), sym("V%d" % q)) for j, q in enumerate(v)]
            p2 += [(idof(sym(n), EB), C(i)), (fld(sym(n), EB + "::lay_"), sym("L%d" % l) if l else C(None)), (fld(sym(n), EB + "::mat_"), sym("M%d" % m) if m else C(None))]
        return p1 + p2 + p3 + p4 + self.grid("S") + self.grid("S2", 3.), {**X1, **X2, **X3, **X4, sym("S"): GEO + "Grid<3>", sym("S2"): GEO + "Grid<3>"}, A1 + A2 + A3 + A4

    def grid(self, who, f=1.):
        return [(mk("el", fld(sym(who), GEO + "Grid<3>::pos_"), C(d)), mk("il", *[C(x * f) for x in self.LINES[d]])) for d in range(3)]

    def parts(self, s, o=None, T_=None):
        """coordinates (identifier, position), elements (kind, identifier, coordinates, layer and model) and layers of a mesh; coordinates and layers that are not the mesh's own are marked"""
        T_ = T_ or self.T
        o = s.o if o is None else o
        if s.r.st is None or o is None:
            return None
        ev, st = s.ev, s.r.st
        cl = GEO + "Mesh::" + ("Structured" if T_ == "int" else "Unstructured") + "::"
        C_, E_ = CO % T_, GEO + "Element::Element<%s>" % T_
        L = [s.loc(fld(fld(o, cl + m), "SEMBA::Group::Group<%s>::element_" % t)) for m, t in (("coords_", C_), ("elems_", E_), ("layers_", LAY))]
        if any(x.__class__ is not list for x in L):
            return None
        num_ = lambda x: x.a[0] if num(x) or x is C(None) else None
        cs, es, ls = L
        V = "SEMBA::Math::Vector::Cartesian<%s, 3>" % T_
        ids = lambda x, c: num_(ev.load(st, idof(x, c)))
        rc = [(ids(x, CB),) + tuple(num_(ev.val(st, el(fld(x, V + "::val"), C(i)))) for i in range(3)) for x in cs]
        re_ = []
        for x in es:
            c = ev.objs[x]["cls"] if x in ev.objs else ev.dyncls.get(x, "")
            k = next((j for j, n in enumerate(self.kinds(T_)) if n == c), None)
            if k is None:
                return None
            n = (4, 2, 1, 8, 3, 4)[k]
            vs = [ev.load(st, el(fld(x, c + "::v_"), C(i))) for i in range(n)]
            lay, mat = (ev.load(st, fld(x, EB + "::" + m)) for m in ("lay_", "mat_"))
            tag = lambda v, own, cc: "none" if v is C(None) else (ids(v, cc) if v in own else "foreign %s" % ids(v, cc)) if v.k in ("obj", "sym") else None
            re_.append((k, ids(x, EB), tuple(tag(v, cs, CB) for v in vs), tag(lay, ls, LAY), str(mat)))
        new = [x for x in cs + es + ls if x.k != "obj"]
        r = (sorted(rc), sorted(re_), sorted(ids(x, LAY) for x in ls)) if not any(None in x for x in rc) and not any(None in x or None in x[2] for x in re_) else None
        return ("shared",) + r if r and new else r

    def mesh(self, T_=None, f=1.):
        T_ = T_ or self.T
        return (sorted((k,) + tuple(v * f for v in self.at(k, T_)) for k in self.CELL), sorted((k, i, v, l or "none", "M%d" % m if m else "None") for n, k, i, v, l, m in self.ELS), [7, 8])

    def new(self, s, f, args):
        """a constructor evaluated on what another evaluation left"""
        o = mk("obj", 900, self.cls)
        s.ev.objs[o] = dict(cls=self.cls, args=[], line=0, usr=None, heap=False, fn=None)
        return s.then(f, args, this=o)

    def lines(self, s, loc):
        if s.r.st is None:
            return None
        t = [s.loc(mk("el", fld(loc, GEO + "Grid<3>::pos_"), C(d))) for d in range(3)]
        return [[x.a[0] for x in l] for l in t] if all(l.__class__ is list and all(num(x) for x in l) for l in t) else None

    def made(self):
        """the mesh its constructor makes of the groups"""
        put, X, A = self.given()
        n = {"Structured": 5, "Unstructured": 3, "Geometric": 4}[self.cls.split("::")[-1]]
        fs = [f for f in self.ctx.P.byname[self.cls + "::(ctor)"] if len(f["p"]) == n]
        if not fs:
            raise AnalysisError("anchor vanished: %s::(ctor)" % self.cls)
        args = [sym("S")] * (n > 3) + [sym("V"), sym("E"), sym("L")] + [sym("bounds")] * (n > 4)
        X[sym("bounds")] = GEO + "BoundTerminations3" if n > 4 else LAY
        return self.run(fs[0], args, put, X, A)

    def check(self):
        name = self.cls.split("::")[-1]
        R = self.T == "double"
        s = self.made()
        self.plain("made of groups", s, self.parts(s), self.mesh())
        G_ = self.cls + "::grid_"
        if name != "Unstructured":
            self.plain("made of groups: grid", s, self.lines(s, fld(s.o, G_)), [list(x) for x in self.LINES])
        cp = next((f for f in self.ctx.P.byname[self.cls + "::(ctor)"] if len(f["p"]) == 1 and f["p"][0]["t"].startswith("const " + self.cls)), None)
        eq_ = self.find("operator=", "const " + self.cls)
        if cp is None:
            raise AnalysisError("anchor vanished: copy of %s" % self.cls)
        c = self.new(s, cp, [s.o])
        self.plain("copied", c, self.parts(c), self.mesh())
        self.plain("copied: the original", c, self.parts(c, s.o), self.mesh())
        c = s.then(eq_, [s.o])
        self.plain("assigned to itself", c, self.parts(c), self.mesh())
        e = self.new(s, next(f for f in self.ctx.P.byname[self.cls + "::(ctor)"] if len(f["p"]) == (name != "Unstructured") and cp is not f), [sym("S2")] * (name != "Unstructured"))
        c = e.then(eq_, [s.o])
        self.plain("assigned", c, self.parts(c), self.mesh())
        if name != "Unstructured":
            self.plain("made empty: grid", e, self.lines(e, fld(e.o, G_)), [[x * 3. for x in l] for l in self.LINES])
            self.plain("assigned: grid", c, self.lines(c, fld(c.o, G_)), [list(x) for x in self.LINES])
        # links renewed
        q = s.then(next(f for f in self.ctx.P.byname[self.cls.replace("Geometric", "Unstructured") + "::reassignPointers"]), [sym("N")], *self.models())
        w = self.mesh()
        self.plain("reassignPointers", q, self.parts(q), (w[0], [x[:4] + (x[4].replace("M", "N"),) for x in w[1]], w[2]))
        # scaled
        for f in (2., .001, -1.):
            if f < 0 and name != "Unstructured":
                continue
            q = s.then(self.find("applyScalingFactor", "double"), [C(f)])
            self.plain("scaled by %g" % f, q, self.parts(q), self.mesh(f=f if R else 1))
            if name != "Unstructured":
                self.plain("scaled by %g: grid" % f, q, self.lines(q, fld(q.o, G_)), [[x * f for x in l] for l in self.LINES])
        # bounds
        q = s.then(next(f for f in self.ctx.P.byname[self.cls.replace("Geometric", "Unstructured") + "::getBoundingBox"]))
        t = q.ret()
        got = [[ceval(q.ev, x, {}) for x in p] for p in t] if t.__class__ is list else None
        pts = [self.at(k, "double") for k in self.CELL] if R else list(itertools.product(*[(l[0], l[-1]) for l in self.LINES]))
        self.plain("getBoundingBox", q, got, [[float(f(p[i] for p in pts)) for i in range(3)] for f in (min, max)])
        # elements of another mesh, found here by identifier
        ra = next(f for f in self.ctx.P.byname[self.cls.replace("Geometric", "Unstructured") + "::reassign"])
        gb = GEO + "Element::Group<const %s>" % EB
        own = s.loc(fld(fld(s.o, self.cls.replace("Geometric", "Unstructured") + "::elems_"), "SEMBA::Group::Group<%s>::element_" % (GEO + "Element::Element<%s>" % self.T)))
        for ids in ((8, 11), (5,), (), (8, 3)):
            p, X, A = shelf("W", GEO + "Element::Node<int>", EB, ids or (1,), gb, of="const " + EB)
            if not ids:
                p = [(k, mk("il")) if str(k).endswith("element_") else (k, v) for k, v in p]
            q = s.then(ra, [sym("W")], p, X)
            t = q.loc(fld(sym("W"), "SEMBA::Group::Group<const %s>::element_" % EB))
            got = None
            if t.__class__ is list and own.__class__ is list:
                got = [q.ev.load(q.r.st, idof(x, EB)) for x in t]
                got = [(x.a[0] if num(x) else None, y in own) for x, y in zip(got, t)]
            self.plain("reassign of elements %s" % (ids,), q, got, [(i, True) for i in ids] if 3 not in ids else REFUSED)
        # converted
        if name == "Structured":
            q = s.then(self.find("getMeshUnstructured"))
        else:
            q = s.then(self.find("getMeshStructured", *(["Grid", "double"] if name == "Unstructured" else ["double"])), [sym("S")] * (name == "Unstructured") + [C(1e-2)])
        T2 = "int" if R else "double"
        w = self.mesh(T2)
        # a line that crosses cells is not an element of a structured mesh
        self.plain("converted", q, self.parts(q, q.r.ret, T2), (w[0], [x for x in w[1] if not R or x[1] != 5], w[2]))
        self.plain("converted: the original", q, self.parts(q), self.mesh())
        if R:
            self.plain("converted: grid", q, self.lines(q, fld(q.r.ret, GEO + "Mesh::Structured::grid_")) if q.r.ret is not None else None, [list(x) for x in self.LINES])

    def models(self):
        p, X, A = shelf("N", MOD, MOD, (22, 21), "SEMBA::Group::Identifiable<%s, SEMBA::Class::Identification<%s>>" % (ANYM, MOD), of=ANYM)
        return p, X


def close(a, b):
    return all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def check(ctx):
    o = EGrp(ctx, GEO + "Element::Group<%s>" % ER, ER, "Elements")
    els = [(n, QD, "double", 4) for n in "ABC"]
    o.selections(els)
    o.coords()
    o.places()
    o.links()
    o.relink()
    mixed(ctx)
    for T_ in ("double", "int"):
        CGrp(ctx, T_).histories()
    for n, T_ in (("Structured", "int"), ("Unstructured", "double"), ("Geometric", "double")):
        Mesh(ctx, n, T_).check()
