"""C15 sources and ports: the fields they stand for"""
import itertools
import random
from lib import *
from rules.C11 import Ops
from rules.C13 import CO
from rules.C14 import Mat, inl14

EXPL = ("Constructors and queries of every source and port are evaluated, callees inlined, on unknown parameters; refusals and values are compared with the definition of the excitation by constant propagation in every class of parameters "
        "(null, aligned, perpendicular and generic vectors, both excitations, modes with and without null indices, points on both sides of the axis).")
FLOOR = 45
S = "SEMBA::Source::"
rng = random.Random(15)
ADM = 2.65441873e-3
dot = lambda a, b: sum(x * y for x, y in zip(a, b))
cross = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
norm = lambda a: math.sqrt(dot(a, a))


SB = "SEMBA::Geometry::Element::SurfaceBase"
GE = "SEMBA::Geometry::Element::Group<const %s>"
QU = "SEMBA::Geometry::Element::Quadrilateral4<%s>"
ID = "SEMBA::Class::Identification<SEMBA::Geometry::Element::Base>"


def group(who, base, elems, q="const "):
    """store entries, exact classes and assumptions of a group of elements: (name, class, coordinate type, number of coordinates) each"""
    put = [(fld(sym(who), "SEMBA::Group::Group<%s%s>::element_" % (q, base)), mk("il", *[sym(n) for n, c, t, k in elems]))]
    X, A = {sym(who): (GE % base).replace("const ", q)}, []
    for j, (n, c, t, k) in enumerate(elems):
        X[sym(n)] = c
        A.append((eq(sym(n), C(None)), False))
        put.append((fld(fld(sym(n), "SEMBA::Class::Identifiable<%s>::id_" % ID), ID + "::id_"), C(3 * j + 2)))
        for i in range(k):
            v = sym("%sc%d" % (n, i))
            X[v] = CO % t
            put.append((el(fld(sym(n), c + "::v_"), C(i)), v))
    own = "SEMBA::Group::Identifiable<%s%s, %s>::" % (q, base, ID)
    put.append((fld(sym(who), own + "mapId_"), mk("map", *[y for j in range(len(elems)) for y in (C(3 * j + 2), C(j))]) if elems else mk("il")))
    put.append((fld(fld(sym(who), own + "lastId_"), ID + "::id_"), C(max([0] + [3 * j + 2 for j in range(len(elems))]))))
    return put, X, A


def quads(who, base, names, T_="double"):
    return group(who, base, [(n, QU % T_, T_, 4) for n in names])


class Src(Mat):
    def __init__(self, ctx, cls, label):
        Ops.__init__(self, ctx, S + cls, label, "sources")

    def run(self, f, args=(), put=(), exact=(), assume=(), **k):
        X = {sym("G"): self.cls}
        X.update(dict(exact))
        return Shaped(self.ctx, f, inl14, list(args), put=put, exact=X, assume=assume, rec=30, budget=6000000, **k)

    def mem(self, s, m, cls=None):
        return s.loc(fld(s.o, (S + cls if cls else self.cls) + "::" + m))

    def ob(self, inst, s, tr, want, envs, **k):
        k.setdefault("floor", 1e-9)
        Ops.ob(self, inst, s, tr, want, envs, **k)


def vec(n, d=3):
    """the constants of a vector of unknown contents"""
    return ["%s.val[%d]" % (n, i) for i in range(d)]


def venv(**k):
    e = {}
    for n, v in k.items():
        n = n.replace("__", ".")
        if v.__class__ in (list, tuple):
            e.update(zip(vec(n), map(float, v)))
        else:
            e[n] = v
    return e


DIRS = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, 1, 0), (0, -1, 0), (-1, 0, 0), (.6, .8, 0), (1, -2, 2), (-1, -1, -1), (-3, .5, 0), (0, 2, -1), (0, -2, 1)]


def get(e, n):
    return [e[x] for x in vec(n)]


def planewave(ctx):
    o = Src(ctx, "PlaneWave", "PlaneWave")
    mem = o.mem
    nogroup, X0, A0 = quads("E", "SEMBA::Geometry::Element::VolumeBase", [])
    nogroup = [(fld(sym("E"), "SEMBA::Group::Group<SEMBA::Geometry::Element::VolumeBase>::element_"), mk("il"))]
    # given by vectors
    s = o.run(o.find("(ctor)", "Magnitude", "Group", "Cartesian", "Cartesian"), [sym(x) for x in "MEDP"], nogroup)
    envs = []
    for d in DIRS[:9] + [(0, 0, 0)]:
        for p in DIRS[:9] + [(0, 0, 0)]:
            envs.append(venv(D=d, P=p))
            if any(d) and any(p):
                c = cross(d, p)
                if any(c):
                    envs.append(venv(D=d, P=c))

    def bad(e):
        d, p = get(e, "D"), get(e, "P")
        return not any(d) or not any(p) or abs(dot(d, p)) > 1e-6
    for what, sel in (("refuses a null vector or one not perpendicular", lambda e: True),):
        o.ob("(direction,polarization)", s, [mem(s, "direction_"), mem(s, "polarization_"), mem(s, "randomic_")], lambda e: REFUSED if bad(e) else [get(e, "D"), get(e, "P"), False], envs)
    # given by angles
    s = o.run(o.find("(ctor)", "Magnitude", "Group", "pair", "pair"), [sym(x) for x in "MEDP"], nogroup)
    envs = []
    for th, ph in itertools.product((0., .5, math.pi / 2, 2., math.pi), (0., 1., math.pi / 2, 4., -.7)):
        c = lambda t, f: [math.sin(t) * math.cos(f), math.sin(t) * math.sin(f), math.cos(t)]
        for al, be in ((th + math.pi / 2, ph), (math.pi / 2, ph + math.pi / 2), (th - math.pi / 2, ph), (1., 1.3), (th, ph)):
            envs.append({"D.first": th, "D.second": ph, "P.first": al, "P.second": be})

    def want(e):
        d, p = c(e["D.first"], e["D.second"]), c(e["P.first"], e["P.second"])
        return REFUSED if abs(dot(d, p)) > 1e-6 else [d, p]
    o.ob("(angles)", s, [mem(s, "direction_"), mem(s, "polarization_")], want, envs)
    # random
    s = o.run(o.find("(ctor)", "Magnitude", "Group", "int", "double"), [sym(x) for x in "MENV"], nogroup)
    o.ob("(random)", s, [mem(s, "randomic_"), mem(s, "numberOfRandomPlanewaves_"), mem(s, "relativeVariationOfRandomDelay_")], lambda e: [True, e["N"], e["V"]], [{"N": 7, "V": .25}])
    # queries
    G = {m: v for m, v in (("G.randomic_", True), ("G.numberOfRandomPlanewaves_", 9), ("G.relativeVariationOfRandomDelay_", .5))}
    for nm, m in (("isRandomic", "G.randomic_"), ("getNumberOfRandomPlanewaves", "G.numberOfRandomPlanewaves_"), ("getRelativeVariationOfRandomDelay", "G.relativeVariationOfRandomDelay_")):
        o.q("", nm, lambda e: e[m], [G])
    envs = [venv(G__direction_=d, G__polarization_=p, m=a, t=2.) for d, p, a in zip(DIRS, DIRS[3:] + DIRS[:3], itertools.cycle((1., -2.5, 0.)))]
    o.q("", "getDirection", lambda e: get(e, "G.direction_"), envs)
    o.q("", "getPolarization", lambda e: get(e, "G.polarization_"), envs)

    def polar(v):
        return math.acos(v[2] / norm(v)), math.atan2(v[1], v[0]) % (2 * math.pi)
    for nm, w, i in (("getTheta", "G.direction_", 0), ("getPhi", "G.direction_", 1), ("getAlpha", "G.polarization_", 0), ("getBeta", "G.polarization_", 1)):
        s = o.run(o.find(nm))
        tr = s.ret()
        if i:  # the angle, whatever the turn
            tr = [mk("call", "std::cos", tr), mk("call", "std::sin", tr)] if tr is not None and tr.__class__ is T else tr
            o.ob(nm, s, tr, lambda e: [math.cos(polar(get(e, w))[1]), math.sin(polar(get(e, w))[1])], envs)
        else:
            o.ob(nm, s, tr, lambda e: polar(get(e, w))[0], envs)
    gauss = [(o.m("magnitude_"), sym("M")), (fld(sym("M"), S + "Magnitude::Magnitude::mathFunction_"), sym("F"))]
    GX = {sym("M"): S + "Magnitude::Magnitude", sym("F"): "SEMBA::Math::Function::Gaussian"}
    gauss[0] = (fld(sym("G"), S + "Base::magnitude_"), sym("M"))
    for e in envs:
        e.update({"F.spread_": .5, "F.delay_": e["m"] + 1.5, "F.freq_": 0.})
    g = lambda e: math.exp(-(e["t"] - e["F.delay_"]) ** 2 / (2 * e["F.spread_"] ** 2)) * math.cos(0.)
    E_ = lambda e: [x * g(e) for x in get(e, "G.polarization_")]
    s = o.run(o.find("getElectricField", ""), [sym("t")], gauss, GX)
    o.ob("getElectricField", s, s.ret(), E_, envs, floor=1e-6)
    s = o.run(o.find("getElectromagneticField", ""), [sym("t")], gauss, GX)
    o.ob("getElectromagneticField", s, s.ret(), lambda e: [E_(e), [ADM * x for x in cross(get(e, "G.direction_"), E_(e))]], envs, floor=1e-9)


def ports(ctx):
    rect = lambda x0, x1, y0, y1, z: [(x0, y0, z), (x1, y0, z), (x1, y1, z), (x0, y1, z)]

    def cvals(n, vs):
        e = {}
        for i, v in enumerate(vs):
            e.update({"%sc%d.val[%d]" % (n, i, d): x for d, x in enumerate(v)})
        return e

    def pair(t):
        """members of a pair that is held as a whole"""
        return [fld(t, "std::pair<unsigned long, unsigned long>::" + m) for m in ("first", "second")] if t.__class__ is T else t
    # rectangular waveguide
    o = Src(ctx, "Port::WaveguideRectangular", "WaveguideRectangular")
    w = S + "Port::Waveguide"
    # (by value, so that the members of the mode pair are scalars)
    mode = lambda m, n: {"P.first": m, "P.second": n, "G.mode_.first": m, "G.mode_.second": n}
    ctor = o.find("(ctor)", "Magnitude", "Group", "ExcitationMode", "pair")
    for names in ([], ["Q"], ["Q", "R"]):
        put, X, A = quads("E", SB, names)
        s = o.run(ctor, [sym(x) for x in ("M", "E", "T", "P")], put, X, A)
        envs = []
        for m, n in ((1, 0), (0, 1), (2, 3), (0, 0)):
            for bent in range(5):
                e = dict(mode(m, n), T=1)
                for j, nm in enumerate(names):
                    vs = rect(-1. + 2 * j, 1. + 2 * j, -.5 + j, 1., 2.)
                    if bent == 1:      # not flat
                        vs[2] = (vs[2][0], vs[2][1], 3.)
                    elif bent == 2:    # in another plane
                        vs = [(2., v[0], v[1]) for v in vs]
                    elif bent == 4:    # no surface at all
                        vs = [(v[0], 1., 2.) for v in vs]
                    elif bent == 3:
                        vs = [(v[1], 2., v[0]) for v in vs]
                    e.update(cvals(nm, vs))
                e["bent"] = bent
                envs.append(e)

        def want(e):
            if not names or e["bent"] or (e["P.first"], e["P.second"]) == (0, 0):
                return REFUSED
            vs = [[e["%sc%d.val[%d]" % (n, i, d)] for d in range(3)] for n in names for i in range(4)]
            return [[min(v[d] for v in vs) for d in range(3)], [max(v[d] for v in vs) for d in range(3)]]
        o.ob("(%d elements) extension" % len(names), s, o.mem(s, "box_"), want, envs)
        if names:
            o.ob("(%d elements) excitation and mode" % len(names), s, [o.mem(s, "excitationMode_", "Port::Waveguide"), pair(o.mem(s, "mode_", "Port::Waveguide"))],
                 lambda e: REFUSED if want(e) == REFUSED else [e["T"], [e["P.first"], e["P.second"]]], envs)
    box = lambda: {"G.box_.%s_.val[%d]" % (k, d): v for k, vs in (("min", (-1., .5, 2.)), ("max", (1., 3.5, 2.))) for d, v in enumerate(vs)}
    o.q("", "getWidth", lambda e: 2., [box()])
    o.q("", "getHeight", lambda e: 3., [box()])
    o.q("", "getOrigin", lambda e: [-1., .5, 2.], [box()])
    TE, TM = (enumval(ctx.P, S + "Port::Waveguide::ExcitationMode", x) for x in ("TE", "TM"))
    s = o.run(o.find("getWeight", ""), [sym("p")])
    envs = []
    for m, n in ((1, 0), (0, 1), (1, 1), (2, 1), (1, 3), (4, 2), (4, 5)):
        for x, y in itertools.product((-1., -.7, 0., .9, 1.), (.5, 1.1, 2., 3.5)):
            for T_ in (TE, TM):
                envs.append(dict(box(), **dict(mode(m, n), **{"G.excitationMode_": T_, "p.val[0]": x, "p.val[1]": y, "p.val[2]": 2.})))

    def weight(e):
        kx, ky = math.pi * e["G.mode_.first"] / 2., math.pi * e["G.mode_.second"] / 3.
        x, y = e["p.val[0]"] + 1., e["p.val[1]"] - .5
        a, b = math.cos(kx * x) * math.sin(ky * y), math.sin(kx * x) * math.cos(ky * y)
        f = max(kx, ky)
        return [-ky * a / f, kx * b / f, 0.] if e["G.excitationMode_"] == TE else [-kx * a / f, -ky * b / f, 0.]
    for T_, nm in ((TE, "TE"), (TM, "TM")):
        for m, n in ((1, 0), (0, 1), (1, 1), (2, 1), (1, 3), (4, 2), (4, 5)):
            sel = [e for e in envs if e["G.excitationMode_"] == T_ and (e["G.mode_.first"], e["G.mode_.second"]) == (m, n)]
            o.ob("getWeight %s%d%d" % (nm, m, n), s, s.ret(), weight, sel, floor=1e-6)
    wg = Src(ctx, "Port::Waveguide", "Waveguide")
    wg.q("", "getExcitationMode", lambda e: e["G.excitationMode_"], [{"G.excitationMode_": t} for t in (TE, TM)])
    s = wg.run(wg.find("getMode"))
    wg.ob("getMode", s, pair(s.ret()), lambda e: [e["G.mode_.first"], e["G.mode_.second"]], [mode(3, 5)])
    # given other elements
    put, X, A = quads("E", "SEMBA::Geometry::Element::Base", ["Q", "R"])
    put2, X2, A2 = quads("G", SB, ["old"])
    put, X, A = put + put2, {**X2, **X}, A + A2
    del X[sym("G")]
    old = cvals("old", rect(-10., -8., 3., 9., 2.))
    some = [dict(cvals("Q", rect(-1., 1., -.5, 1., 2.)), **cvals("R", rect(1., 3., .5, 2.5, 2.)), **old)]
    s = o.run(o.find("set", ""), [sym("E")], put, X, A)
    o.ob("set: extension", s, s.loc(o.m("box_")), lambda e: [[-1., -.5, 2.], [3., 2.5, 2.]], some)
    elements(o, "set", s, lambda e: ["Q", "R"], some)
    # coaxial
    set_ = (put, X, A)
    o = Src(ctx, "Port::TEMCoaxial", "TEMCoaxial")
    s = o.run(o.find("(ctor)", "Magnitude", "Group", "ExcitationMode", "Cartesian", "double", "double"), [sym(x) for x in ("M", "E", "T", "O", "a", "b")], *quads("E", SB, []))
    e = dict(venv(O=(1., 2., 3.)), T=1, a=.5, b=2.)
    o.ob("(origin,radii)", s, [o.mem(s, "origin_"), o.mem(s, "innerRadius_"), o.mem(s, "outerRadius_"), o.mem(s, "excitationMode_", "Port::TEM")], lambda e: [[1., 2., 3.], .5, 2., e["T"]], [e, dict(e, T=0)])
    VO, CU = (enumval(ctx.P, S + "Port::TEM::ExcitationMode", x) for x in ("voltage", "current"))
    o.q("", "getOrigin", lambda e: get(e, "G.origin_"), [venv(G__origin_=(1., -2., 4.))])
    s = o.run(o.find("getWeight", ""), [sym("p")])
    envs = []
    for og in ((0., 0., 0.), (1., -2., 4.)):
        for x, y in ((1., 0.), (0., 1.), (-1., 0.), (0., -2.), (.6, .8), (-1.5, 2.), (-.3, -.4), (3., -1.)):
            for T_ in (VO, CU):
                envs.append(dict(venv(G__origin_=og, p=(og[0] + x, og[1] + y, og[2])), **{"G.innerRadius_": .5, "G.outerRadius_": 4., "G.excitationMode_": T_}))

    def coax(e):
        x, y = [a - b for a, b in zip(get(e, "p"), get(e, "G.origin_"))][:2]
        r = math.hypot(x, y)
        if e["G.excitationMode_"] == VO:
            k = 1 / (r * math.log(8.))
            return [x / r * k, y / r * k, 0.]
        return [-y / r / (2 * math.pi * r), x / r / (2 * math.pi * r), 0.]
    for T_, nm in ((VO, "voltage"), (CU, "current")):
        o.ob("getWeight " + nm, s, s.ret(), coax, [e for e in envs if e["G.excitationMode_"] == T_], floor=1e-6)

    s = o.run(o.find("set", ""), [sym("E")], *set_)
    some = []
    for x0, x1, y0, y1 in ((-1., 1., -.5, 1.), (0., 4., 1., 5.)):
        for flat in (True, False):
            q = rect(x0, x1, y0, y1, 2.)
            if not flat:
                q[3] = (q[3][0], q[3][1], 2.5)
            some.append(dict(cvals("Q", q), **cvals("R", rect(0., 1., 1., 1.5, 2.)), **{"G.innerRadius_": .25, "G.outerRadius_": 1., "G.origin_.val[0]": .5, "G.origin_.val[1]": -3., "G.origin_.val[2]": 1., "flat": flat, "B": (x0, x1, y0, y1)}, **old))

    def moved(e):
        if not e["flat"]:
            return REFUSED
        x0, x1, y0, y1 = e["B"]
        x0, x1, y0, y1 = min(x0, 0.), max(x1, 1.), min(y0, 1.), max(y1, 1.5)
        k = (x1 - x0 + y1 - y0) / 4
        return [[(x0 + x1) / 2, (y0 + y1) / 2, 2.], .25 * k, k]
    o.ob("set: origin and radii", s, [s.loc(o.m(m)) for m in ("origin_", "innerRadius_", "outerRadius_")], moved, some)
    elements(o, "set", s, lambda e: ["Q", "R"] if e["flat"] else REFUSED, some)
    # normal of a port
    o = Src(ctx, "Port::Port", "Port")
    for T_ in ("double", "int"):
        put, X, A = quads("G", SB, ["Q"], T_)
        del X[sym("G")]
        s = o.run(o.find("getNormal"), (), put, dict(X, **{}), A)
        c = float if T_ == "double" else int
        envs = [cvals("Q", [[c(x) for x in p] for p in vs]) for vs in (rect(0, 2, 0, 3, 1), rect(0, 2, 0, 3, 1)[::-1], [(1, x, y) for x, y, z in rect(0, 2, 0, 3, 1)], [(y, 1, x) for x, y, z in rect(0, 2, 0, 3, 1)])]

        def normal(e):
            P = [[e["Qc%d.val[%d]" % (i, d)] for d in range(3)] for i in range(4)]
            v = cross([b - a for a, b in zip(P[0], P[1])], [b - a for a, b in zip(P[0], P[2])])
            return [x / norm(v) for x in v]
        o.ob("getNormal of %s elements" % T_, s, s.ret(), normal, envs)
    s = o.run(o.find("getNormal"), (), [(fld(sym("G"), "SEMBA::Group::Group<const %s>::element_" % SB), mk("il"))])
    o.ob("getNormal without elements", s, s.ret(), lambda e: [0., 0., 0.], [{}])


def elements(o, inst, s, want, envs, base=SB, who="G"):
    o.ob(inst + ": elements", s, s.loc(fld(sym(who), "SEMBA::Group::Group<const %s>::element_" % base)), want, [dict(e, Q="Q", R="R", L="L", old="old") for e in envs])


def lines(ctx):
    for cls, lab, texts in (("OnLine", "OnLine", (("getTypeStr", "type_", "OnLine::Type", {"electric": "Electric Field", "magnetic": "Magnetic Field"}), ("getHardnessStr", "hardness_", "OnLine::Hardness", {"soft": "Soft", "hard": "Hard"}))),
                            ("Generator", "Generator", (("getTypeStr", "type_", "Generator::Type", {"voltage": "Voltage", "current": "Current"}),)),
                            ("Port::TEM", "TEM", (("toStr", None, "Port::TEM::ExcitationMode", {"voltage": "voltage", "current": "current"}),))):
        o = Src(ctx, cls, lab)
        for nm, m, en, tx in texts:
            s = o.run(o.find(nm, *([] if m else [""])), [] if m else [sym("x")])
            key = "G." + m if m else "x"
            byval = {enumval(ctx.P, S + en, n): t for n, t in tx.items()}
            o.ob(nm, s, s.ret(), lambda e: byval[e[key]], [{key: v} for v in byval])
    o = Src(ctx, "OnLine", "OnLine")
    LB = "SEMBA::Geometry::Element::LineBase"
    s = o.run(o.find("(ctor)", "", "", "", ""), [sym(x) for x in ("M", "E", "T", "H")], [(fld(sym("E"), "SEMBA::Group::Group<%s>::element_" % LB), mk("il")), (fld(sym("E"), "SEMBA::Group::Group<const %s>::element_" % LB), mk("il"))])
    e = {"M": "M", "T": 1, "H": 0}
    for e in (e, dict(e, T=0, H=1)):
        o.ob("(magnitude,elements,type,hardness) %d%d" % (e["T"], e["H"]), s, [o.mem(s, "type_"), o.mem(s, "hardness_"), o.mem(s, "magnitude_", "Base")], lambda e: [e["T"], e["H"], "M"], [e])
    for nm, m in (("getType", "type_"), ("getHardness", "hardness_")):
        o.q("", nm, lambda e: e["G." + m], [{"G.type_": 0, "G.hardness_": 1}, {"G.type_": 1, "G.hardness_": 0}])
    o = Src(ctx, "Generator", "Generator")
    NB = "SEMBA::Geometry::Element::NodeBase"
    s = o.run(o.find("(ctor)", "", "", "", ""), [sym(x) for x in ("M", "E", "T", "H")], [(fld(sym("E"), "SEMBA::Group::Group<const %s>::element_" % NB), mk("il"))])
    for e in ({"M": "M", "T": 1, "H": 0}, {"M": "M", "T": 0, "H": 1}):
        o.ob("(magnitude,elements,type,hardness) %d%d" % (e["T"], e["H"]), s, [o.mem(s, "type_"), o.mem(s, "hardness_"), o.mem(s, "magnitude_", "Base")], lambda e: [e["T"], e["H"], "M"], [e])
    o.q("", "getType", lambda e: e["G.type_"], [{"G.type_": 0}, {"G.type_": 1}])
    o = Src(ctx, "Dipole", "Dipole")
    s = o.run(o.find("(ctor)", "", "", "", "", ""), [sym(x) for x in ("M", "E", "l", "D", "P")], [(fld(sym("E"), "SEMBA::Group::Group<%s>::element_" % "SEMBA::Geometry::Element::VolumeBase"), mk("il"))])
    o.ob("(length,orientation,position)", s, [o.mem(s, m) for m in ("length_", "orientation_", "position_")], lambda e: [e["l"], get(e, "D"), get(e, "P")], [dict(venv(D=(1, 2, 3), P=(4, 5, 6)), l=.5)])


def check(ctx):
    planewave(ctx)
    ports(ctx)
    lines(ctx)
