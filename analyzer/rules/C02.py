"""C02 materials: every field of a material entry reaches the getter that reports it."""
from rules.jsonlib import *

EXPL = ("The material reader is evaluated once per material kind (facts: the kind keywords) by the value-flow analysis; the created "
        "object is then queried through its public getters in the resulting abstract state and each getter value, a provenance term over "
        "the fields of the JSON entry, is compared with the field (times the unit factor) that documents it. Covers reader, constructors and getters together.")
FLOOR = 60
A = Poly.atom
EPS0, MU0 = 8.85418782e-12, 1.25663706e-06
ID = ("getId", "id_")
FN = "readPhysicalModel"

LA = {"getLocalAxe.getEulerAngles": vecwant("localAxes"), "getLocalAxe.getOrigin": vecwant("localAxes", "@last")}
WIRE0 = {"getRadius": A("J.radius"), "getFilename": "''", "isDispersive": False}
SPECS = [
    ("PEC", {"materialType": "PEC"}, "PhysicalModel::Predefined::PEC", {}),
    ("PMC", {"materialType": "PMC"}, "PhysicalModel::Predefined::PMC", {}),
    ("SMA", {"materialType": "SMA"}, "PhysicalModel::Predefined::SMA", {}),
    ("PML", {"materialType": "PML"}, "PhysicalModel::Volume::PML",
     {"getOrientation.getEulerAngles": vecwant("localAxes"), "getOrientation.getOrigin": vecwant("localAxes", "@last")}),
    ("Classic", {"materialType": "Classic"}, "PhysicalModel::Volume::Classic", {
        "getRelativePermittivity": A("J.permittivity"), "getRelativePermeability": A("J.permeability"),
        "getPermittivity": A("J.permittivity") * EPS0, "getPermeability": A("J.permeability") * MU0,
        "getElectricConductivity": A("J.electricConductivity"), "getMagneticConductivity": A("J.magneticConductivity")}),
    ("Dispersive", {"materialType": "Dispersive"}, "PhysicalModel::Volume::Dispersive", {"getFile": "~J.filename"}),
    ("Wire/Standard", {"materialType": "Wire", "wireType": "Standard"}, "PhysicalModel::Wire::Wire", dict(WIRE0, **{
        "getSeriesResistance": A("J.resistance"), "getSeriesInductance": A("J.inductance"), "getSeriesCapacitance": 0,
        "getParallelResistance": 0, "getParallelInductance": 0, "getParallelCapacitance": 0, "isSeriesParallel": False})),
    ("Wire/SeriesParallel", {"materialType": "Wire", "wireType": "SeriesParallel"}, "PhysicalModel::Wire::Wire", dict(WIRE0, **{
        "getSeriesResistance": A("J.resistance"), "getSeriesInductance": A("J.inductance"), "getSeriesCapacitance": A("J.capacitance"),
        "getParallelResistance": A("J.parallelResistance"), "getParallelInductance": A("J.parallelInductance"),
        "getParallelCapacitance": A("J.parallelCapacitance"), "isSeriesParallel": True})),
    ("Wire/Dispersive", {"materialType": "Wire", "wireType": "Dispersive"}, "PhysicalModel::Wire::Wire", {
        "getRadius": A("J.radius"), "getFilename": "J.filename", "isDispersive": True, "isSeriesParallel": False,
        "getSeriesResistance": 0, "getSeriesInductance": 0, "getSeriesCapacitance": 0,
        "getParallelResistance": 0, "getParallelInductance": 0, "getParallelCapacitance": 0}),
    ("Anisotropic/Crystal", {"materialType": "Anisotropic", "anisotropicModel": "Crystal"}, "PhysicalModel::Volume::AnisotropicCrystal", dict(LA, **{
        "getRelativePermeability": A("J.crystalRelativePermeability"),
        "getPrincipalAxesRelativePermittivity": vecwant("relativePermittiviy")})),
    ("Anisotropic/Ferrite", {"materialType": "Anisotropic", "anisotropicModel": "Ferrite"}, "PhysicalModel::Volume::AnisotropicFerrite", LA),
    ("SIBC/File", {"materialType": "SIBC", "surfaceType": "File"}, "PhysicalModel::Surface::SIBCFile", {"getFile": "~J.filename"}),
    ("SIBC/Layers/fit", {"materialType": "SIBC", "surfaceType": "Layers", "useSembaVectorFitting": True}, "PhysicalModel::Surface::Multilayer", {
        "hasFittingOptions": True, "getFittingOptions.getNumberOfPoles": "trunc(J.numberOfPoles)",
        "getFittingOptions.getMinMaxFreq": ("J.freqMin", "J.freqMax")}),
    ("SIBC/Layers/nofit", {"materialType": "SIBC", "surfaceType": "Layers", "useSembaVectorFitting": False}, "PhysicalModel::Surface::Multilayer",
     {"hasFittingOptions": False}),
    ("Thin_gap", {"materialType": "Thin_gap"}, "PhysicalModel::Gap::Gap", {"getWidth": A("J.width")}),
    ("Connector/short", {"materialType": "Connector", "connectorType": "Conn_short"}, "PhysicalModel::Multiport::Predefined", {"getType": 1}),
    ("Connector/open", {"materialType": "Connector", "connectorType": "Conn_open"}, "PhysicalModel::Multiport::Predefined", {"getType": 2}),
    ("Connector/dispersive", {"materialType": "Connector", "connectorType": "Conn_dispersive"}, "PhysicalModel::Multiport::Dispersive",
     {"getFilename": "J.filename", "getType": 100}),
] + [
    ("Connector/" + k, {"materialType": "Connector", "connectorType": "Conn_" + k}, "PhysicalModel::Multiport::RLC",
     {"getR": A("J.resistance"), "getL": A("J.inductance"), "getC": A("J.capacitance"), "getType": n})
    for k, n in (("matched", 3), ("sRLC", 11), ("pRLC", 18), ("sLpRC", 16))
]


def ask(v, path):
    for g in path.split("."):
        v = v.get(g)
    return v


def check(ctx):
    fn = reader_fn(ctx, FN)
    where = ctx.loc(fn)
    for label, vals, cls, getters in SPECS:
        for named in (True, False):
            s = scenario(ctx, fn, vals, {"materialId": named, "name": named})
            lab = label + ("" if named else " (no id, no name)")
            if not named and label.startswith("SIBC/Layers"):
                continue
            o = only_obj(ctx, s, lab, where, cls)
            if o is None:
                continue
            check_val(ctx, "material id", lab, o.get("getId").m("id_"), "trunc(J.materialId)" if named else 0, where)
            check_val(ctx, "material name", lab, o.get("getName"), "J.name" if named else "''", where)
            if not named:
                continue
            for g, want in getters.items():
                v = ask(o, g)
                inst = lab + "." + g
                if isinstance(want, tuple):
                    p = v.pair()
                    if v.t.k == "call" and v.t.a[0].endswith("make_pair"):
                        p = [v.w(x) for x in v.t.a[1:]]
                    for x, w, n in zip(p, want, ("first", "second")):
                        check_val(ctx, "field reaches its getter", inst + "." + n, x, w, where)
                elif isinstance(want, str) and want.startswith("~"):
                    file_is(ctx, inst, v, want[1:], where)
                else:
                    check_val(ctx, "field reaches its getter", inst, v, want, where)
            if label.startswith("Anisotropic"):
                aniso(ctx, o, label, where)
            if label == "SIBC/Layers/fit":
                layers(ctx, s, o, where)
    for k, lab in (("wireType", "Wire"), ("anisotropicModel", "Anisotropic"), ("surfaceType", "SIBC")):
        s = scenario(ctx, fn, {"materialType": lab, k: "\0"})
        refused(ctx, s, "%s with an unknown %s" % (lab, k), where)
    consistent(ctx)


def file_is(ctx, inst, v, key, where):
    """a file object whose text is the given field"""
    t = v.ev.strval(v.st, v.t)
    check_val(ctx, "field reaches its getter", inst, v.w(t), key, where)


def diag(v):
    """entries of a 3x3 matrix object"""
    fnm = None
    for n in ("val", "_val"):
        fnm = v.fldname(n)
        if fnm:
            break
    if not fnm:
        return None
    return {(i, j): v.ev.load(v.st, el(fld(v.t, fnm), C(i * 3 + j))) for i in range(3) for j in range(3)}


def aniso(ctx, o, label, where):
    """the local tensor handed to the rotation into global axes"""
    A_ = A
    z = Poly.const(0)
    if label.endswith("Crystal"):
        eps = [A_("relativePermittiviy#%d" % i) for i in range(3)]
        mu = [A_("J.crystalRelativePermeability")] * 3
        want = {"getRelPermittivityMatR": {(i, i): eps[i] for i in range(3)}, "getRelPermeabilityMatR": {(i, i): mu[i] for i in range(3)}}
    else:
        e = A_("J.ferriteRelativePermittivity")
        m = A_("J.ferriteRelativePermeability")
        k = A_("J.kappa")
        want = {"getRelPermittivityMatR": {(i, i): e for i in range(3)},
                "getRelPermeabilityMatR": {(0, 0): m, (1, 1): m, (2, 2): Poly.const(1)},
                "getRelPermeabilityMatI": {(0, 1): k, (1, 0): -k}}
    ev0 = o.ev
    old = ev0.inline
    ev0.inline = lambda f: None if "/math/matrix/" in f["file"] else old(f)
    ev0.opaque.add("SEMBA::Math::Axis::Local::convertToGlobal")
    try:
        for g, w in want.items():
            v = o.get(g)
            t = v.t
            m = t
            glob = False
            if t.k == "call" and t.a[0].endswith("convertToGlobal"):
                m = t.a[2]
                glob = True
            d = diag(v.w(m)) if m.k == "obj" else None
            if d is None:
                ctx.ob("tensor in the local axes", label + "." + g, None, v.c[:200], where)
                continue
            for (i, j), x in sorted(d.items()):
                check_val(ctx, "tensor in the local axes", "%s.%s(%d,%d)" % (label, g, i, j), v.w(x), w.get((i, j), z), where)
            if not glob and g != "getRelPermittivityMatR":
                ctx.ob("tensor rotated to the global axes", label + "." + g, False, "the local tensor is returned without rotation", where)
            elif glob:
                # rotated with the axes of this material
                ax = v.w(t.a[1])
                check_vec(ctx, "tensor rotated to the global axes", label + "." + g, ax.m("eulerAngles_"), vecwant("localAxes"), where)
    finally:
        ev0.inline = old
        ev0.opaque.discard("SEMBA::Math::Axis::Local::convertToGlobal")


def layers(ctx, s, o, where):
    v = rebuild(ctx, s, [ob for ob, i in s.ev.objs.items() if short(i["cls"]).endswith("Multilayer::Layer") and i.get("args") and len(i["args"]) == 4])
    if v is None:
        ctx.ob("layer fields", "SIBC/Layers", None, "layer object not resolved", where)
        return
    for g, w in (("getThickness", A("J.layers[*].thickness")), ("getRelPermittivity", A("J.layers[*].permittivity")),
                 ("getRelPermeability", A("J.layers[*].permeability")), ("getElecCond", A("J.layers[*].elecCond")),
                 ("getPermittivity", A("J.layers[*].permittivity") * EPS0), ("getPermeability", A("J.layers[*].permeability") * MU0)):
        check_val(ctx, "layer fields", "SIBC/Layers.layer." + g, v.get(g), w, where)


def rebuild(ctx, s, cands):
    """an object built inside a loop, re-evaluated from its constructor arguments"""
    if len({tuple(s.ev.objs[o]["args"]) for o in cands}) != 1:
        return None
    i = s.ev.objs[cands[0]]
    f = ctx.P.fns.get(i.get("usr")) or next((f for f in ctx.fns(i["cls"] + "::(ctor)") if len(f["p"]) == len(i["args"])), None)
    if f is None:
        return None
    ev = s.ev
    st = State()
    r = ev.run(f, cands[0], i["args"], st)
    return Val(ctx, ev, r.st, cands[0])


def consistent(ctx):
    """Multilayer: per-layer getters agree with the layer they index"""
    M = "SEMBA::PhysicalModel::Surface::Multilayer::"
    i = sym("i")
    for g, l in (("getThickness", "getThickness"), ("getPermittivity", "getPermittivity"), ("getPermeability", "getPermeability"), ("getElecCond", "getElecCond")):
        f = ctx.fn(M + g, 1)
        ev = ctx.ev(inl, OPQ)
        r = ev.run(f, None, [i])
        gl = ctx.fn(M + "getLayer", 1)
        r2 = ev.run(gl, None, [i])
        f2 = ctx.fn(M + "Layer::" + l, 0)
        r3 = ev.run(f2, r2.ret, [], r2.st.fork())
        try:
            want = poly(ev, r3.ret)
            ok, c = agree(ev, r.ret, want)
        except Exception as ex:
            ok, c = None, repr(ex)
        ctx.ob("layer accessor agrees with the layer", "Multilayer." + g, ok, "%s(i) is %s, the layer reports %s" % (g, c, canon(ev, r3.ret)), ctx.loc(f))
