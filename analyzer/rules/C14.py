"""C14 materials: the quantities they derive from their parameters"""
import itertools
import random
from lib import *
from rules.C11 import Ops, inl11

EXPL = ("Every query of every material class is evaluated, callees inlined, on materials of unknown parameters (dispersive ones with up to three poles, layered ones with up to three layers); the terms obtained are compared with the definition "
        "by constant propagation in every class of parameters: null, negative, unit and generic values, rotated axes.")
FLOOR = 150
PM = "SEMBA::PhysicalModel::"
MU0, EPS0 = 1.25663706E-6, 8.85418782E-12
rng = random.Random(14)


def inl14(f):
    return True


class Mat(Ops):
    def __init__(self, ctx, cls, label):
        Ops.__init__(self, ctx, PM + cls, label, "materials")

    def run(self, f, args=(), put=(), exact=(), **k):
        X = {sym("G"): self.cls}
        X.update(dict(exact))
        return Shaped(self.ctx, f, inl14, list(args), put=put, exact=X, **k)

    def ob(self, inst, s, tr, want, envs, **k):
        k.setdefault("floor", 1e-25)
        Ops.ob(self, inst, s, tr, want, envs, **k)

    def q(self, inst, name, want, envs, ptypes=(), args=(), put=(), tr=None, **k):
        s = self.run(self.find(name, *ptypes), args, put, **k)
        self.ob(inst or name, s, s.ret() if tr is None else tr(s), want, envs)

    def m(self, n, w="G"):
        return fld(sym(w), self.cls + "::" + n)


def classic(ctx):
    o = Mat(ctx, "Volume::Classic", "Classic")
    ns = ("rEps_", "rMu_", "electricConductivity_", "magneticConudctivity_")
    vals = (-1., 0., .5, 1., 2.25)
    envs = [dict(zip(["G." + n for n in ns], v)) for v in itertools.product(vals, repeat=4)]
    z = lambda e: math.inf if e["G.rEps_"] <= 0 else math.sqrt(e["G.rMu_"] * MU0 / (e["G.rEps_"] * EPS0)) if e["G.rMu_"] >= 0 else math.nan
    some = [e for e in envs if e["G.rMu_"] >= 0 and e["G.electricConductivity_"] == 0 and e["G.magneticConudctivity_"] == 1]
    o.q("", "getImpedance", z, some)
    o.q("", "getAdmitance", lambda e: math.inf if e["G.rMu_"] <= 0 else 1 / z(e), some)
    for nm, w in (("getRelativePermittivity", lambda e: e["G.rEps_"]), ("getRelativePermeability", lambda e: e["G.rMu_"]), ("getPermittivity", lambda e: e["G.rEps_"] * EPS0), ("getPermeability", lambda e: e["G.rMu_"] * MU0),
                  ("getElectricConductivity", lambda e: e["G.electricConductivity_"]), ("getMagneticConductivity", lambda e: e["G.magneticConudctivity_"])):
        o.q("", nm, w, rng.sample(envs, 20))
    o.q("", "isVacuum", lambda e: [e["G." + n] for n in ns] == [1., 1., 0., 0.], envs)


def dispersive(ctx):
    o = Mat(ctx, "Volume::Dispersive", "Dispersive")
    cx = lambda n: sym(n)
    pole = lambda i: sym("P%d" % i)
    pr = "std::pair<std::complex<double>, std::complex<double>>::"

    def poles(s, w):
        if s.r.st is None:
            return None
        t = s.ev.val(s.r.st, fld(w, o.cls + "::poleResidue_"))

        def go(t):
            if t.k == "ite":
                return ("ite", t.a[0], go(t.a[1]), go(t.a[2]))
            if t.k == "m" and str(t.a[0]).split("::")[-1] in ("push_back", "emplace_back"):
                b = go(t.a[1])
                return b + [one(t.a[2])] if b.__class__ is list else t
            return [one(x) for x in t.a] if t.k == "il" else t
        one = lambda x: [s.tree(y) for y in x.a] if x.k == "pair" else [s.loc(fld(x, pr + "first")), s.loc(fld(x, pr + "second"))]
        return go(t)
    for n in range(4):
        put = [(o.m("poleResidue_"), mk("il", *[pole(i) for i in range(n)]))]
        envs = []
        for zs in itertools.product((0j, -2. + 1j, 3j) if n < 3 else (0j, -2. + 1j), repeat=n):
            e = {}
            for i, z in enumerate(zs):
                e["P%d.first" % i] = z
                e["P%d.second" % i] = complex(3. + i, .5)
                for k in ("first", "second"):
                    e["G.poleResidue_[%d].%s" % (i, k)] = e["P%d.%s" % (i, k)]
            for em in (True, False):
                envs.append(dict(e, **{"G.file_": "" if em else "x.txt"}))
        lab = " of %d poles" % n
        zero = lambda e, i: e["P%d.first" % i] == 0
        o.q("getPoleNumber" + lab, "getPoleNumber", lambda e: n, envs, put=put)
        for i in range(n):
            o.q("getPole(%d)%s" % (i, lab), "getPole", lambda e: e["P%d.first" % i], envs, ("",), [C(i)], put=put)
            o.q("getResidue(%d)%s" % (i, lab), "getResidue", lambda e: e["P%d.second" % i], envs, ("",), [C(i)], put=put)
        o.q("isDispersive" + lab, "isDispersive", lambda e: n > 0, envs, put=put)
        sc = lambda e: e["G.file_"] == "" and (n == 0 or n == 1 and zero(e, 0))
        o.q("isSimplyConductive" + lab, "isSimplyConductive", sc, envs, put=put)
        o.q("isClassic" + lab, "isClassic", sc, envs, put=put)
        o.q("getElectricConductivity" + lab, "getElectricConductivity", lambda e: next((e["P%d.second" % i].real * 2 * EPS0 for i in range(n) if zero(e, i)), 0.), envs, put=put)
        s = o.run(o.find("addPole", "", ""), [sym("P"), sym("R")], put=put)
        ee = [dict(e, P=1 + 2j, R=3 - 1j) for e in envs[:2]]
        o.ob("addPole" + lab, s, poles(s, sym("G")), lambda e: [[e["P%d.first" % i], e["P%d.second" % i]] for i in range(n)] + [[e["P"], e["R"]]], ee)
        ctor = o.find("(ctor)", "Id", "string", "double", "double", "double", "double", "vector")
        s = o.run(ctor, [sym(x) for x in ("id", "name", "eps", "mu", "se", "sm")] + [mk("il", *[pole(i) for i in range(n)])])
        ce = [dict(e, eps=2., mu=3., se=a, sm=b) for e in envs[:2] for a in (0., 5.) for b in (0., 1.)]
        P = poles(s, s.o)

        def want(e):
            if e["sm"]:
                return REFUSED
            own = [[e["P%d.first" % i], e["P%d.second" % i]] for i in range(n)]
            return sorted(own + ([[0j, e["se"] / 2 / EPS0]] if e["se"] else []), key=str)
        for e in ce:
            o.ob("(parameters,%d poles) with conductivities %g and %g" % (n, e["se"], e["sm"]), s, P, want, [e])
        o.ob("(parameters,%d poles) constants" % n, s, [s.loc(fld(s.o, o.cls + "::" + m)) for m in ("rEpsInfty_", "rMuInfty_")], lambda e: REFUSED if e["sm"] else [e["eps"], e["mu"]], ce)


# ---------------------------------------------------------------- materials with axes
VR = "SEMBA::Math::Vector::Cartesian<double, 3>::val"
M33 = "SEMBA::Math::Matrix::Static<double, 3, 3>"
AX = "SEMBA::Math::Axis::Local::"
Rz = lambda a: [[math.cos(a), math.sin(a), 0.], [-math.sin(a), math.cos(a), 0.], [0., 0., 1.]]
Rx = lambda a: [[1., 0., 0.], [0., math.cos(a), math.sin(a)], [0., -math.sin(a), math.cos(a)]]
mul = lambda A, B: [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
R = lambda e: mul(Rz(e["e2"]), mul(Rx(e["e1"]), Rz(e["e0"])))
rot = lambda e, L: mul(R(e), mul(L, [list(r) for r in zip(*R(e))]))
diag = lambda v: [[v[i] if i == j else 0. for j in range(3)] for i in range(3)]


def axes(member):
    return [(el(fld(fld(member, AX + m), VR), C(i)), sym("%s%d" % (m[0], i))) for m in ("eulerAngles_", "origin_") for i in range(3)]


def angles(n, **k):
    out = []
    for _ in range(n):
        e = {"e%d" % i: rng.choice([0., .3, 1., -.7, math.pi / 2, 2.5]) for i in range(3)}
        e.update({"o%d" % i: rng.choice([0., 1.5, -2.]) for i in range(3)})
        e.update({a: rng.choice(b) for a, b in k.items()})
        out.append(e)
    return out


def matrix(s):
    return [[s.loc(el(fld(s.r.ret, M33 + "::_val"), C(3 * i + j))) for j in range(3)] for i in range(3)] if s.r.st is not None and s.r.ret is not None else None


def tensors(ctx):
    A = PM + "Volume::Anisotropic::localAxe_"
    put = axes(fld(sym("G"), A))
    Z = [[0.] * 3] * 3
    o = Mat(ctx, "Volume::AnisotropicCrystal", "AnisotropicCrystal")
    pa = "G.principalAxesRelativePermittivity_.val[%d]"
    envs = angles(20, **{pa % i: [1., 2., 3.5] for i in range(3)}, **{"G.relativePermeability_": [1., 4.]})
    for nm, w in (("getRelPermittivityMatR", lambda e: rot(e, diag([e[pa % i] for i in range(3)]))), ("getRelPermeabilityMatR", lambda e: rot(e, diag([e["G.relativePermeability_"]] * 3))),
                  ("getElectricConductivityMat", lambda e: Z), ("getMagneticConductivityMat", lambda e: Z)):
        s = o.run(o.find(nm), put=put)
        o.ob(nm, s, matrix(s), w, envs, floor=1.)
    o.q("", "getPrincipalAxesRelativePermittivity", lambda e: [e[pa % i] for i in range(3)], envs[:4])
    o.q("", "getRelativePermeability", lambda e: e["G.relativePermeability_"], envs[:4])
    o = Mat(ctx, "Volume::AnisotropicFerrite", "AnisotropicFerrite")
    k, mu, ep = "G.kappa_", "G.relativePermeability_", "G.relativePermittivity_"
    envs = angles(20, **{k: [.5, 2.], mu: [1., 3.], ep: [1., 5.]})
    for nm, w in (("getRelPermittivityMatR", lambda e: diag([e[ep]] * 3)), ("getRelPermeabilityMatR", lambda e: rot(e, diag([e[mu], e[mu], 1.]))),
                  ("getRelPermeabilityMatI", lambda e: rot(e, [[0., e[k], 0.], [-e[k], 0., 0.], [0., 0., 0.]])), ("getElectricConductivityMat", lambda e: Z), ("getMagneticConductivityMat", lambda e: Z)):
        s = o.run(o.find(nm), put=put)
        o.ob(nm, s, matrix(s), w, envs, floor=1.)
    o = Mat(ctx, "Volume::PML", "PML")
    s = o.run(o.find("getGlobalZAxis"), put=axes(o.m("orientation_")))
    o.ob("getGlobalZAxis", s, s.ret(), lambda e: [R(e)[i][2] for i in range(3)], angles(20), floor=1.)


def layers(ctx):
    o = Mat(ctx, "Surface::Multilayer", "Multilayer")
    L = o.cls + "::Layer"
    f = lambda n: PM + "Surface::Multilayer::Layer::" + n
    ns = ("thickness_", "relPermittivity_", "relPermeability_", "elecCond_")
    for n in (1, 2, 3):
        put = [(o.m("layers_"), mk("il", *[sym("L%d" % i) for i in range(n)]))]
        e = {"%s.%s" % (w % i, m): 1.5 + i + 10 * j for i in range(n) for j, m in enumerate(ns) for w in ("L%d", "G.layers_[%d]")}
        X = {sym("L%d" % i): L for i in range(n)}
        o.q("getNumberOfLayers of %d" % n, "getNumberOfLayers", lambda e: n, [e], put=put, exact=X)
        for i in range(n):
            g = lambda e, m: e["L%d.%s" % (i, m)]
            for nm, w in (("getThickness", lambda e: g(e, "thickness_")), ("getPermittivity", lambda e: g(e, "relPermittivity_") * EPS0), ("getPermeability", lambda e: g(e, "relPermeability_") * MU0),
                          ("getElecCond", lambda e: g(e, "elecCond_")), ("getMagnCond", lambda e: 0.)):
                o.q("%s(%d) of %d" % (nm, i, n), nm, w, [e], ("",), [C(i)], put=put, exact=X)
    for n in range(4):
        op = mk("il", *[sym("F%d" % i) for i in range(n)])
        o.q("hasFittingOptions with %d" % n, "hasFittingOptions", lambda e: n == 1, [{}], put=[(o.m("options_"), op)])
        s = o.run(o.find("getFittingOptions"), put=[(o.m("options_"), op)])
        try:
            ok = bool(s.refused({})) == (n != 1)
        except NoVal:
            ok = None
        ctx.ob("materials", "getFittingOptions with %d is refused unless there is one" % n, ok, "", ctx.loc(s.f))
        s = o.run(o.find("(ctor)", "Id", "string", "vector", "vector"), [sym("id"), sym("name"), mk("il"), op])
        try:
            ok = bool(s.refused({})) == (n > 1)
        except NoVal:
            ok = None
        ctx.ob("materials", "several fitting options are refused (%d)" % n, ok, "", ctx.loc(s.f))
    lay = Mat(ctx, "Surface::Multilayer::Layer", "Layer")
    s = lay.run(lay.find("(ctor)", "double", "double", "double", "double"), [sym(x) for x in ("t", "e", "m", "c")])
    lay.ob("(thickness,permittivity,permeability,conductivity)", s, [s.loc(fld(s.o, lay.cls + "::" + m)) for m in ns], lambda e: REFUSED if e["e"] == 0 or e["m"] == 0 else [e[x] for x in "temc"],
           [dict(zip("temc", v)) for v in itertools.product((.5, 0.), (0., 1., 2.), (0., 1., 3.), (0., 4.))])
    for nm, w in (("getThickness", lambda e: e["G.thickness_"]), ("getRelPermittivity", lambda e: e["G.relPermittivity_"]), ("getPermittivity", lambda e: e["G.relPermittivity_"] * EPS0),
                  ("getRelPermeability", lambda e: e["G.relPermeability_"]), ("getPermeability", lambda e: e["G.relPermeability_"] * MU0), ("getElecCond", lambda e: e["G.elecCond_"])):
        lay.q("", nm, w, [{"G." + m: 2. + j for j, m in enumerate(ns)}])


# ---------------------------------------------------------------- wires and multiports
def built(o, inst, types, args, want, envs):
    """members left by a constructor"""
    s = o.run(o.find("(ctor)", *types), [sym(a) for a in args])
    for m, w in want.items():
        cls = o.cls if "::" not in m else PM + m.rsplit("::", 1)[0]
        o.ob("%s %s" % (inst, m.split("::")[-1]), s, s.loc(fld(s.o, cls + "::" + m.split("::")[-1])), w, envs)


def wires(ctx):
    o = Mat(ctx, "Wire::Wire", "Wire")
    names = ("a", "r", "l", "c", "pr", "pl", "pc")
    e = {n: 1. + i for i, n in enumerate(names)}
    e["file"] = "w.dat"
    at = lambda n: (lambda e: e[n])
    k = lambda v: (lambda e: v)
    M = ("radius_", "seriesResistance_", "seriesInductance_", "seriesCapacitance_", "parallelResistance_", "parallelInductance_", "parallelCapacitance_")
    built(o, "(radius,resistance,inductance)", ("Id", "string", "double", "double", "double"), ("id", "name", "a", "r", "l"),
          dict(zip(M, [at("a"), at("r"), at("l")] + [k(0.)] * 4), isSeriesParallel_=k(False), isDispersive_=k(False)), [e])
    built(o, "(series and parallel)", ("Id", "string") + ("double",) * 7, ("id", "name") + names, dict(zip(M, [at(n) for n in names]), isSeriesParallel_=k(True), isDispersive_=k(False)), [e])
    built(o, "(radius,file)", ("Id", "string", "double", "string"), ("id", "name", "a", "file"), dict(zip(M, [at("a")] + [k(0.)] * 6), isSeriesParallel_=k(False), isDispersive_=k(True)), [e])
    q = dict(zip(["G." + m for m in M], (1., 2., 3., 4., 5., 6., 7.)), **{"G.isSeriesParallel_": True, "G.isDispersive_": False})
    q2 = dict(q, **{"G.isSeriesParallel_": False, "G.isDispersive_": True})
    for nm, m in zip(("getRadius", "getSeriesResistance", "getSeriesInductance", "getSeriesCapacitance", "getParallelResistance", "getParallelInductance", "getParallelCapacitance", "isSeriesParallel", "isDispersive"), M + ("isSeriesParallel_", "isDispersive_")):
        o.q("", nm, lambda e: e["G." + m], [q, q2])
    o = Mat(ctx, "Wire::Extremes", "Extremes")
    ex = lambda i: el(fld(sym("G"), o.cls + "::extreme_"), C(i))
    X = {sym(x): PM + "Multiport::RLC" for x in "LRN"}
    put = [(ex(0), sym("L")), (ex(1), sym("R"))]
    ids = {x: x for x in "LRN"}
    for i in range(2):
        o.q("getExtreme(%d)" % i, "getExtreme", lambda e: "LR"[i], [ids], ("",), [C(i)], put=put, exact=X)
    def copyof(inst, s, t, src):
        """a copy of src, or nothing when there is none"""
        for null in (True, False):
            try:
                l = t
                while l.k == "ite":
                    l = l.a[1] if ceval(s.ev, l.a[0], {x: None if null and x == src else x for x in "LRN"}) else l.a[2]
                c = canon(s.ev, l)
                want = "None" if null else "RLC(%s)" % src
                ok = True if c == want else False if re.match(r"(None|[LRN]|RLC\([LRN]\))$", c) else None
                det = "is %s, expected %s" % (c, want)
            except NoVal as e:
                ok, det = None, "does not follow: %s" % e
            ctx.ob("materials", "Extremes.%s %s" % (inst, "without one" if null else "with one"), ok, det, ctx.loc(s.f))
    for i in range(2):
        s = o.run(o.find("setExtreme", "", ""), [C(i), sym("N")], put=put, exact=X)
        copyof("setExtreme(%d)" % i, s, s.loc(ex(i)), "N")
        o.ob("setExtreme(%d) keeps the other" % i, s, s.loc(ex(1 - i)), lambda e: "LR"[1 - i], [ids])
    s = o.run(o.find("(ctor)", "string", "Wire", "Multiport", "Multiport"), [sym("name"), sym("W"), sym("L"), sym("R")], exact=X)
    for i in range(2):
        copyof("(wire,left,right) extreme %d" % i, s, s.loc(el(fld(s.o, o.cls + "::extreme_"), C(i))), "LR"[i])
    s = o.run(o.find("swapExtremes"), put=put, exact=X)
    o.ob("swapExtremes", s, [s.loc(ex(i)) for i in range(2)], lambda e: ["R", "L"], [ids])
    o = Mat(ctx, "Multiport::RLC", "RLC")
    e = {"R": 1., "L": 2., "C": 3., "ty": 11}
    built(o, "(type,resistance,inductance,capacitance)", ("Id", "string", "Type", "double", "double", "double"), ("id", "name", "ty", "R", "L", "C"), {"R_": at("R"), "L_": at("L"), "C_": at("C"), "Multiport::Multiport::type_": at("ty")}, [e])
    for x in "RLC":
        o.q("", "get" + x, lambda e: e["G.%s_" % x], [{"G.%s_" % y: ord(y) for y in "RLC"}])
    o = Mat(ctx, "Multiport::Predefined", "Predefined")
    built(o, "(type)", ("Id", "string", "Type"), ("id", "name", "ty"), {"Multiport::Multiport::type_": at("ty")}, [e])
    o = Mat(ctx, "Multiport::Dispersive", "Multiport::Dispersive")
    built(o, "(file)", ("Id", "string", "string"), ("id", "name", "file"), {"Multiport::Multiport::type_": k(100)}, [e])


def check(ctx):
    wires(ctx)
    classic(ctx)
    dispersive(ctx)
    tensors(ctx)
    layers(ctx)
