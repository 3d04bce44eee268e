"""C03 sources: every field of a source entry reaches the getter that reports it."""
from rules.jsonlib import *

EXPL = ("Each source reader is evaluated once per variant (facts: the variant keywords) by the value-flow analysis; the created object is queried "
        "through its public getters in the resulting abstract state and each getter value, a provenance term over the fields of the JSON entry, "
        "is compared with the field that documents it. Refusals are decided by propagating the offending constants through the gates of the reader.")
FLOOR = 60
A = Poly.atom
K = "(2*3.141592653589793/360)"
MAG = {"File": "Numerical", "Gaussian": "Magnitude", "Band_limited": "Magnitude"}


def inl3(f):
    if "/math/util/Real" in f["file"]:
        return None
    return inl(f)


def box_ok(c):
    """the layer box is well formed"""
    return None


def cprop(ev, t, env):
    """constant propagation: leaves whose canonical text is in env replaced by constants"""
    m = {}
    for x in subterms(t):
        if x.k in ("tok", "jget", "trunc", "sym"):
            c = canon(ev, x)
            if c in env:
                m[x] = C(env[c])
    return subst(t, m)


def reach(s, env):
    """can this scenario return normally with these input constants: False when the gates exclude it.
    (verdict, conditions left)"""
    if s.ret is None:
        return False, []
    pc = s.r.pc
    left = cprop(s.ev, pc, env)
    if isc(left) and not left.a[0]:
        return False, []
    for t in s.r.throws:
        c = cprop(s.ev, t[0], env)
        if isc(c) and c.a[0]:
            return False, []
    return True, left


def throws_with(s, env, relevant):
    """does some throw condition become certainly true, ignoring conjuncts not about `relevant` inputs"""
    for t in s.r.throws:
        cj = t[0].a if t[0].k == "and" else (t[0],)
        mine = []
        for x in cj:
            ks = {canon(s.ev, y).split("#")[0] for y in subterms(x) if y.k == "tok"} | jkeys(x)
            if ks & relevant:
                mine.append(cprop(s.ev, x, env))
        if mine and all(isc(x) and x.a[0] for x in mine):
            return True
    return False


def some_throw(s, env, relevant):
    """could some throw about `relevant` inputs be taken"""
    for t in s.r.throws:
        cj = t[0].a if t[0].k == "and" else (t[0],)
        mine = []
        for x in cj:
            ks = {canon(s.ev, y).split("#")[0] for y in subterms(x) if y.k == "tok"} | jkeys(x)
            if ks & relevant:
                mine.append(cprop(s.ev, x, env))
        if mine and not any(isc(x) and not x.a[0] for x in mine):
            return True
    return False


def sc(ctx, fn, vals, **k):
    return Scen(ctx, fn, vals, k.pop("has", {}), inl3, OPQ, **k)


def vec(name, v):
    return {"%s#%d" % (name, i): x for i, x in enumerate(v)}


def check(ctx):
    src(ctx)
    planewave(ctx)
    ports(ctx)
    magnitude(ctx)
    dispatch(ctx)


def one(ctx, name, vals, label, cls):
    fn = reader_fn(ctx, name)
    s = sc(ctx, fn, dict(vals, **{"magnitude.type": "File"}))
    o = only_obj(ctx, s, label, ctx.loc(fn), cls)
    if o is not None:
        m = o.get("getMagnitude")
        mo = m.t
        if mo.k == "obj":
            ok = leaf(mo.a[1]).endswith("Numerical")
            ctx.ob("magnitude of the entry attached", label, ok, "getMagnitude() is a %s" % leaf(mo.a[1]), ctx.loc(fn))
            if ok:
                t = m.ev.strval(m.st, mo)
                check_val(ctx, "magnitude of the entry attached", label + ".filename", m.w(t), "J.magnitude.filename", ctx.loc(fn))
        else:
            ctx.ob("magnitude of the entry attached", label, None if vague(mo) else False, m.c[:200], ctx.loc(fn))
    return fn, s, o


def src(ctx):
    for kw, n in (("voltage", 1), ("current", 2)):
        fn, s, o = one(ctx, "readGenerator", {"type": kw}, "generator/" + kw, "Source::Generator")
        if o is not None:
            check_val(ctx, "field reaches its getter", "generator/%s.getType" % kw, o.get("getType"), enum(ctx, "SEMBA::Source::Generator::Type", kw, n), ctx.loc(fn))
    for kw, n, e in (("electricField", 1, "electric"), ("magneticField", 2, "magnetic")):
        for h in ("soft", "hard"):
            lab = "sourceOnLine/%s/%s" % (kw, h)
            fn, s, o = one(ctx, "readSourceOnLine", {"type": kw, "hardness": h}, lab, "Source::OnLine")
            if o is not None:
                check_val(ctx, "field reaches its getter", lab + ".getType", o.get("getType"), enum(ctx, "SEMBA::Source::OnLine::Type", e, n), ctx.loc(fn))
                check_val(ctx, "field reaches its getter", lab + ".getHardness", o.get("getHardness"),
                          enum(ctx, "SEMBA::Source::OnLine::Hardness", h, 1 if h == "hard" else 2), ctx.loc(fn))


def enum(ctx, e, name, dflt):
    x = ctx.P.enums.get(e)
    if x:
        for n, v in x["vals"]:
            if n == name:
                return v
    return dflt


def planewave(ctx):
    fn, s, o = one(ctx, "readPlanewave", {"definitionMode": "by_vectors"}, "planewave/by_vectors", "Source::PlaneWave")
    w = ctx.loc(fn)
    if o is not None:
        check_val(ctx, "field reaches its getter", "planewave/by_vectors.getDirection", o.get("getDirection"), vecwant("directionVector"), w)
        check_val(ctx, "field reaches its getter", "planewave/by_vectors.getPolarization", o.get("getPolarization"), vecwant("polarizationVector"), w)
        notrandom(ctx, o, "planewave/by_vectors", w)
    rel = {"directionVector", "polarizationVector"}
    e = lambda d, p: dict(vec("directionVector", d), **vec("polarizationVector", p))
    for d, p in (((1, 2, 3), (0, 0, 0)), ((0, 0, 0), (1, 2, 3)), ((1, 0, 0), (1, 1, 0)), ((0, 1, 0), (0, -1, 1)), ((0, 0, 1), (1, 0, 2)), ((0, 0, 0), (0, 0, 0))):
        r = throws_with(s, e(d, p), rel)
        ctx.ob("inconsistent plane wave refused", "direction %s polarization %s" % (d, p), True if r else (None if some_throw(s, e(d, p), rel) else False),
               "no refusal is reached for these vectors", w)
    for d, p in (((1, 0, 0), (0, 1, 0)), ((0, 0, -2), (3, 1, 0)), ((1, 1, 0), (1, -1, 5))):
        r = throws_with(s, e(d, p), rel)
        ctx.ob("consistent plane wave accepted", "direction %s polarization %s" % (d, p), not r, "refused although perpendicular and non-zero", w)
    # the layer must define a volume: the refusal guards the normal exit
    fn, s, o = one(ctx, "readPlanewave", {"definitionMode": "by_angles"}, "planewave/by_angles", "Source::PlaneWave")
    if o is not None:
        d2r = 2 * math.pi / 360
        sn = lambda k: A("sin[%s]" % (A("J." + k) * d2r).key())
        cs = lambda k: A("cos[%s]" % (A("J." + k) * d2r).key())
        for g, t, p in (("getDirection", "directionTheta", "directionPhi"), ("getPolarization", "polarizationAlpha", "polarizationBeta")):
            for i, wv in enumerate((sn(t) * cs(p), sn(t) * sn(p), cs(t))):
                check_val(ctx, "field reaches its getter", "planewave/by_angles.%s(%d)" % (g, i), o.get(g).vec()[i], wv, w)
        notrandom(ctx, o, "planewave/by_angles", w)
    fn, s, o = one(ctx, "readPlanewave", {"definitionMode": "randomized_multisource"}, "planewave/randomized_multisource", "Source::PlaneWave")
    if o is not None:
        check_val(ctx, "field reaches its getter", "planewave/random.isRandomic", o.get("isRandomic"), True, w)
        check_val(ctx, "field reaches its getter", "planewave/random.getNumberOfRandomPlanewaves", o.get("getNumberOfRandomPlanewaves"), "trunc(J.numberOfRandomPlanewaves)", w)
        check_val(ctx, "field reaches its getter", "planewave/random.getRelativeVariationOfRandomDelay", o.get("getRelativeVariationOfRandomDelay"),
                  A("J.relativeVariationOfRandomDelay"), w)
    refused(ctx, sc(ctx, fn, {"definitionMode": "\0", "magnitude.type": "File"}), "planewave with an unknown definitionMode", w)
    # empty layer
    ev = s.ev

    def novol(c):
        if c.k == "eq" and c.a[0].k == "call" and c.a[0].a[0].split("::")[-1] in ("sizeOf", "size") and c.a[1] is C(0):
            return True
        return None
    n = 0
    for mode in ("by_vectors", "by_angles", "randomized_multisource"):
        s = sc(ctx, fn, {"definitionMode": mode, "magnitude.type": "File"}, extra=novol)
        n += 1
        zero = [c for c in s.F if novol(c)]
        if not zero:
            ctx.ob("plane wave layer must define a volume", mode, None, "no test of the number of volumes found", w)
        else:
            refused(ctx, s, mode, w, "plane wave layer must define a volume")


def notrandom(ctx, o, lab, w):
    check_val(ctx, "field reaches its getter", lab + ".isRandomic", o.get("isRandomic"), False, w)
    check_val(ctx, "field reaches its getter", lab + ".getNumberOfRandomPlanewaves", o.get("getNumberOfRandomPlanewaves"), 0, w)
    check_val(ctx, "field reaches its getter", lab + ".getRelativeVariationOfRandomDelay", o.get("getRelativeVariationOfRandomDelay"), 0, w)


def ports(ctx):
    for kw, n in (("TE", 0), ("TM", 1)):
        lab = "waveguidePort/" + kw
        fn, s, o = one(ctx, "readPortWaveguide", {"shape": "Rectangular", "excitationMode": kw}, lab, "Source::Port::WaveguideRectangular")
        w = ctx.loc(fn)
        if o is not None:
            check_val(ctx, "field reaches its getter", lab + ".getExcitationMode", o.get("getExcitationMode"),
                      enum(ctx, "SEMBA::Source::Port::Waveguide::ExcitationMode", kw, n), w)
            for v, k, nm in zip(o.get("getMode").pair(), ("firstMode", "secondMode"), ("first", "second")):
                check_val(ctx, "field reaches its getter", lab + ".getMode." + nm, v, "trunc(J.%s)" % k, w)
        rel = {"firstMode", "secondMode"}
        for m, want in (((0, 0), True), ((0, 1), False), ((1, 0), False), ((2, 3), False)):
            env = {"trunc(J.firstMode)": m[0], "trunc(J.secondMode)": m[1], "J.firstMode": m[0], "J.secondMode": m[1]}
            r = throws_with(s, env, rel)
            if want:
                ctx.ob("mode numbers", "%s modes %s refused" % (kw, m), True if r else (None if some_throw(s, env, rel) else False), "modes (0, 0) are accepted", w)
            else:
                ctx.ob("mode numbers", "%s modes %s accepted" % (kw, m), not r, "valid mode numbers are refused", w)
    refused(ctx, sc(ctx, fn, {"shape": "\0"}), "waveguide port with an unknown shape", w)
    for kw, n in (("Voltage", 0), ("Current", 1)):
        lab = "temPort/" + kw
        fn, s, o = one(ctx, "readPortTEM", {"excitationMode": kw}, lab, "Source::Port::TEMCoaxial")
        w = ctx.loc(fn)
        if o is not None:
            check_val(ctx, "field reaches its getter", lab + ".getExcitationMode", o.get("getExcitationMode"),
                      enum(ctx, "SEMBA::Source::Port::TEM::ExcitationMode", kw.lower(), n), w)
            check_val(ctx, "field reaches its getter", lab + ".getOrigin", o.get("getOrigin"), vecwant("origin"), w)
            for f, k in (("innerRadius_", "innerRadius"), ("outerRadius_", "outerRadius")):
                if o.fldname(f):
                    check_val(ctx, "field reaches its getter", lab + "." + k, o.m(f), A("J." + k), w)


def magnitude(ctx):
    fn = reader_fn(ctx, "readMagnitude")
    w = ctx.loc(fn)
    t = sym("t")
    s = sc(ctx, fn, {"type": "File"})
    o = only_obj(ctx, s, "magnitude/File", w, "Source::Magnitude::Numerical")
    if o is not None:
        check_val(ctx, "field reaches its getter", "magnitude/File.filename", o.w(o.ev.strval(o.st, o.t)), "J.filename", w)
    s = sc(ctx, fn, {"type": "Gaussian"})
    o = only_obj(ctx, s, "magnitude/Gaussian", w, "Source::Magnitude::Magnitude")
    if o is not None:
        f = fnobj(o)
        if f is None or not leaf(f.t.a[1]).endswith("Gaussian"):
            ctx.ob("function of the magnitude", "Gaussian", None if f is None else False, f.c if f else "", w)
        else:
            ctx.ob("function of the magnitude", "Gaussian", True, "", w)
            fm = A("J.frequencyMaximum")
            check_val(ctx, "field reaches its getter", "magnitude/Gaussian.getSpread", f.get("getSpread"), 0.2 / fm, w)
            check_val(ctx, "field reaches its getter", "magnitude/Gaussian.getDelay", f.get("getDelay"), 6 * (0.2 / fm), w)
            check_val(ctx, "field reaches its getter", "magnitude/Gaussian.getFreq", f.get("getFreq"), 0, w)
        for x, want in ((-1.0, True), (0.0, True), (1e9, False)):
            freq(ctx, s, {"J.frequencyMaximum": x}, {"frequencyMaximum"}, want, "Gaussian frequencyMaximum=%g" % x, w)
    s = sc(ctx, fn, {"type": "Band_limited"})
    o = only_obj(ctx, s, "magnitude/Band_limited", w, "Source::Magnitude::Magnitude")
    if o is not None:
        f = fnobj(o)
        if f is None or not leaf(f.t.a[1]).endswith("BandLimited"):
            ctx.ob("function of the magnitude", "Band_limited", None if f is None else False, f.c if f else "", w)
        else:
            ctx.ob("function of the magnitude", "Band_limited", True, "", w)
            for m, k in (("minimumFrequency_", "frequencyMinimum"), ("maximumFrequency_", "frequencyMaximum")):
                if f.fldname(m):
                    check_val(ctx, "field reaches its getter", "magnitude/Band_limited." + k, f.m(m), A("J." + k), w)
        for a, b, want in ((0.0, 1e9, True), (-1.0, 1e9, True), (1e9, 1e8, True), (1e9, 1e9, True), (1e8, 0.0, True), (1e8, 1e9, False)):
            freq(ctx, s, {"J.frequencyMinimum": a, "J.frequencyMaximum": b}, {"frequencyMinimum", "frequencyMaximum"}, want,
                 "Band_limited band [%g, %g]" % (a, b), w)
    refused(ctx, sc(ctx, fn, {"type": "\0"}), "magnitude with an unknown type", w)


def freq(ctx, s, env, rel, want, lab, w):
    r = throws_with(s, env, rel)
    if want:
        ctx.ob("invalid frequency refused", lab, True if r else (None if some_throw(s, env, rel) else False), "no refusal is reached", w)
    else:
        ctx.ob("valid frequency accepted", lab, not r, "refused", w)


def fnobj(o):
    for n in ("mathFunction_",):
        if o.fldname(n):
            v = o.m(n)
            return v if v.t.k == "obj" else None
    return None


def dispatch(ctx):
    """sourceType selects the kind of source added to the result"""
    fn = reader_fn(ctx, "readSources")
    w = ctx.loc(fn)
    want = {"planewave": "readPlanewave", "generator": "readGenerator", "sourceOnLine": "readSourceOnLine", "waveguidePort": "readPortWaveguide",
            "temPort": "readPortTEM", "\0": None}
    readers = set(x for x in want.values() if x)
    for kw, rd in want.items():
        s = Scen(ctx, fn, {"sourceType": kw}, {}, inl3, OPQ | {J + r for r in readers})
        called = set()
        for ef, pc, loops, stack in s.flat():
            if ef[0] == "call" and ef[1].startswith(J) and short(ef[1]).split("::")[-1] in readers:
                called.add(short(ef[1]).split("::")[-1])
        lab = repr(kw) if kw != "\0" else "any other text"
        if rd is None:
            thrown = any(ef[0] == "throw" for ef, pc, loops, stack in s.flat())
            ctx.ob("sourceType dispatch", lab, thrown and not called, "handled by %s, thrown=%s" % (sorted(called), thrown), w)
        else:
            ctx.ob("sourceType dispatch", lab, called == {rd}, "handled by %s" % sorted(called), w)
