"""C04 output requests and their domain."""
from rules.jsonlib import *

EXPL = ("The output request reader is evaluated once per (output type, location kind) pair and per presence pattern of the domain fields; the created "
        "request is queried through its public getters and every value, a provenance term over the fields of the JSON entry, is compared with the documented field. "
        "The element source (points, lines, surfaces, box) is decided from the mesh reader reached on the feasible paths.")
FLOOR = 150
A = Poly.atom
B = "SEMBA::OutputRequest::Base::Type"
TYPES = [("electricField", "electric"), ("magneticField", "magnetic"), ("electricFieldNormals", "electricFieldNormals"),
         ("magneticFieldNormals", "magneticFieldNormals"), ("current", "current"), ("surfaceCurrentDensity", "surfaceCurrentDensity")]
BULK = [("bulkCurrentElectric", "bulkCurrentElectric"), ("bulkCurrentMagnetic", "bulkCurrentMagnetic")]
SRC = {"OutRq_on_point": ("readCoordIdAsNodes", "J.elemIds"), "OutRq_on_line": ("readElemIdsAsGroupOf:Line", "J.elemIds"),
       "OutRq_on_surface": ("readElemIdsAsGroupOf:Surface", "J.elemIds"), "OutRq_on_layer": ("boxToElemGroup", "J.box"), "Far_field": ("boxToElemGroup", "J.box")}


def inl4(f):
    n = short(f["n"]).split("::")[-1]
    if n in ("boxToElemGroup", "readCoordIdAsNodes") or "readElemIdsAs" in f["n"]:
        return False
    return inl(f)


def ev_enum(ctx, name):
    for n, v in ctx.P.enums.get(B, {"vals": ()})["vals"]:
        if n == name:
            return v
    raise AnalysisError("anchor vanished: OutputRequest::Base::Type::" + name)


def sources(s):
    """mesh readers reached, with the json field they read"""
    out = set()
    for ef, pc, loops, st in s.flat():
        if ef[0] == "call" and ef[1].startswith("SEMBA::Parser::JSON::"):
            n = short(ef[1]).split("::")[-1]
            if n in ("boxToElemGroup", "readCoordIdAsNodes") or "readElemIdsAs" in ef[1]:
                if "readElemIdsAs" in ef[1]:
                    n = "readElemIdsAsGroupOf:" + ("Line" if "LineBase" in ef[1] else "Surface" if "SurfaceBase" in ef[1] else "Volume" if "VolumeBase" in ef[1] else "any")
                out.add((n, canon(s.ev, ef[4][1])))
    return out


def check(ctx):
    fn = reader_fn(ctx, "readOutputRequest")
    w = ctx.loc(fn)
    for kw, en in TYPES + BULK:
        for g, (rd, key) in SRC.items():
            bulk = (kw, en) in BULK
            if bulk and g == "Far_field":
                continue
            lab = "%s/%s" % (kw, g)
            s = Scen(ctx, fn, {"type": kw, "gidOutputType": g}, {}, inl4, OPQ)
            cls = "OutputRequest::BulkCurrent" if bulk else "OutputRequest::FarField" if g == "Far_field" else "OutputRequest::OutputRequest<SEMBA::Geometry::Element::Base>"
            o = obj(ctx, s, lab, w, cls)
            if o is None:
                continue
            check_val(ctx, "field reaches its getter", lab + ".getName", o.get("getName"), "J.name", w)
            check_val(ctx, "requested kind kept", lab + ".getType", o.get("getType"), ev_enum(ctx, "electricFarField" if g == "Far_field" else en), w)
            got = sources(s)
            want = (rd if not (bulk and rd.startswith("readElemIds")) else "readElemIdsAsGroupOf:any", key)
            ctx.ob("elements of the request", lab, got == {want} if got else None, "taken from %s, expected %s" % (sorted(got), want), w)
            if bulk:
                check_val(ctx, "field reaches its getter", lab + ".getSkip", o.get("getSkip"), "trunc(J.skip)", w)
                for a, i in (("x", 0), ("y", 1), ("z", 2)):
                    s2 = Scen(ctx, fn, {"type": kw, "gidOutputType": g, "direction": a}, {}, inl4, OPQ)
                    o2 = obj(ctx, s2, lab + "/" + a, w, cls)
                    if o2 is not None:
                        check_val(ctx, "field reaches its getter", lab + ".getDir/" + a, o2.get("getDir"), i, w)
            if g == "Far_field":
                d2r = 2 * math.pi / 360
                for gt, k in (("getInitialTheta", "initialTheta"), ("getFinalTheta", "finalTheta"), ("getStepTheta", "stepTheta"),
                              ("getInitialPhi", "initialPhi"), ("getFinalPhi", "finalPhi"), ("getStepPhi", "stepPhi")):
                    check_val(ctx, "field reaches its getter", "%s.%s" % (lab, gt), o.get(gt), A("J." + k) * d2r, w)
    refused(ctx, Scen(ctx, fn, {"type": "electricField", "gidOutputType": "\0"}, {}, inl4, OPQ), "output request with an unknown gidOutputType", w)
    refused(ctx, Scen(ctx, fn, {"type": "\0", "gidOutputType": "OutRq_on_point"}, {}, inl4, OPQ), "output request with an unknown type", w)
    domain(ctx, fn, w)
    domtype(ctx)


def obj(ctx, s, lab, w, cls):
    os_ = [o for c, o in s.objs()] if s.ret is not None else []
    if len(os_) == 1 and os_[0].t.k == "obj":
        got = short(os_[0].t.a[1])
        got = os_[0].t.a[1].replace("SEMBA::", "", 1)
        ctx.ob("class created", lab, got == cls, "creates %s, expected %s" % (got, cls), w)
        return os_[0] if got == cls else None
    ctx.ob("class created", lab, False if s.ret is None else None, "every path throws" if s.ret is None else "not resolved", w)
    return None


DOM = [("initialTime", "getInitialTime", "t"), ("finalTime", "getFinalTime", "t"), ("samplingPeriod", "getSamplingPeriod", "t"),
       ("initialFrequency", "getInitialFrequency", "f"), ("finalFrequency", "getFinalFrequency", "f"), ("frequencyStep", "getFrequencyStep", "f")]


def domain(ctx, fn, w):
    for g, ty in (("OutRq_on_point", "electricField"), ("Far_field", "electricField"), ("OutRq_on_point", "bulkCurrentElectric")):
        for t in (False, True):
            for f in (False, True):
                for tr in (False, True):
                    s = Scen(ctx, fn, {"type": ty, "gidOutputType": g}, {"domain.initialTime": t, "domain.initialFrequency": f, "domain.transferFunctionFile": tr}, inl4, OPQ)
                    os_ = [o for c, o in s.objs()] if s.ret is not None else []
                    lab = "%s/%s time=%d freq=%d transfer=%d" % (ty, g, t, f, tr)
                    if len(os_) != 1 or os_[0].t.k != "obj":
                        ctx.ob("output domain", lab, None if s.ret is not None else False, "request not created", w)
                        continue
                    d = os_[0].get("domain")
                    R = "output domain"
                    check_val(ctx, R, lab + ".isTimeDomain", d.get("isTimeDomain"), t, w)
                    check_val(ctx, R, lab + ".isFrequencyDomain", d.get("isFrequencyDomain"), f, w)
                    check_val(ctx, R, lab + ".isUsingTransferFunction", d.get("isUsingTransferFunction"), f and tr, w)
                    check_val(ctx, R, lab + ".getTransferFunctionFile", d.get("getTransferFunctionFile"), "J.domain.transferFunctionFile" if f and tr else "''", w)
                    check_val(ctx, R, lab + ".isLogFrequencySweep", d.get("isLogFrequencySweep"), "J.domain.logFrequencySweep" if f else False, w)
                    for k, gt, kind in DOM:
                        check_val(ctx, R, lab + "." + gt, d.get(gt), A("J.domain." + k) if (t if kind == "t" else f) else 0, w)
                    if f or not tr:
                        n = {(0, 0, 0): "NONE", (1, 0, 0): "TIME", (0, 1, 0): "FREQ", (1, 1, 0): "TIFR", (0, 1, 1): "FRTR", (1, 1, 1): "ALL"}[(t, f, tr)]
                        dt = ctx.P.enums["SEMBA::OutputRequest::Domain::Type"]["vals"]
                        check_val(ctx, R, lab + ".getDomainType", d.get("getDomainType"), dict(dt)[n], w)


def domtype(ctx):
    """a domain kept, copied and assigned: see C08; kind table for every flag combination"""
    D = "SEMBA::OutputRequest::Domain"
    ctor = ctx.fn(D + "::(ctor)", 11)
    vals = dict(ctx.P.enums[D + "::Type"]["vals"])
    tab = {(0, 0, 0): "NONE", (1, 0, 0): "TIME", (0, 1, 0): "FREQ", (0, 0, 1): "TRAN", (1, 1, 0): "TIFR", (1, 0, 1): "TITR", (0, 1, 1): "FRTR", (1, 1, 1): "ALL"}
    for (t, f, u), n in tab.items():
        ev = ctx.ev(inl4, OPQ)
        st = State()
        a = [C(bool(t)), sym("a"), sym("b"), sym("c"), C(bool(f)), sym("d"), sym("e"), sym("f"), sym("g"), C(bool(u)), sym("h")]
        o = ev.newobj(D, a, 0, ctor["u"])
        r = ev.run(ctor, o, a, st)
        v = Val(ctx, ev, r.st or st, o)
        check_val(ctx, "domain kind", "time=%d freq=%d transfer=%d" % (t, f, u), v.get("getDomainType"), vals[n], ctx.loc(ctor))
