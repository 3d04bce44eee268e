"""C07 whole problem file: the parts that the section readers return are assembled, every entry is read, options are kept"""
from rules.jsonlib import *
from rules.C05 import adds, always, whole, bsn, inl5

EXPL = ("read() is evaluated with the section readers opaque: each field of the returned Data must be exactly what its reader returned, and the readers must receive this file, its materials and its mesh. "
        "The list loops of materials, sources and output requests are recognised as whole-container loops whose additions are unconditional. The settings tree is decided for each kind of json value. "
        "Refusal of other versions is decided by substituting the version test.")
FLOOR = 25
SECT = ("readSolver", "readPhysicalModels", "readGeometricMesh", "readSources", "readOutputRequests", "readConnectorOnPoint")


def inl7(f):
    if f["file"].endswith("core/Data.cpp"):
        return None if f.get("ctor") and not f["p"] else False
    if f["file"].endswith("core/parser/Parser.cpp"):
        return None
    if "/argument/" in f["file"] or "/solver/" in f["file"]:
        return False
    if "ProgressBar" in f["file"]:
        return False
    return inl5(f)


def noexc(c):
    if c.k == "exc":
        return False
    if c.k == "eq" and NULL in c.a and any(x.k == "call" and bsn(x.a[0]) in SECT for x in c.a):
        return False
    return None


def unwrap(s, t):
    """the Data object built by read, behind the copies made to return it"""
    for _ in range(4):
        o = s.ev.objs.get(t) if t.k == "obj" else None
        a = (o or {}).get("args")
        if o and a and len(a) == 1 and clsof(s.ctx.P, a[0]) == "SEMBA::Data":
            t = a[0]
        else:
            return t
    return t


def check(ctx):
    assembled(ctx)
    lists(ctx)
    settings(ctx)


def assembled(ctx):
    fn = reader_fn(ctx, "read")
    w = ctx.loc(fn)
    ver = ctx.P.macros.get("OPENSEMBA_VERSION") if hasattr(ctx.P, "macros") else None

    def vers(v):
        def ex(c):
            x = noexc(c)
            if x is not None:
                return x
            if c.k == "eq" and any("_version" in jkeys(y) for y in c.a):
                return v
            return None
        return ex
    s = Scen(ctx, fn, {}, {}, inl7, OPQ | {J + n for n in SECT}, extra=vers(True))
    R = "part of the file kept in its place"
    if s.ret is None:
        ctx.ob(R, "read", False, "every path throws", w)
        return
    d = unwrap(s, s.ret)
    v = Val(ctx, s.ev, s.st, d)
    j = "stream!raw#0"
    pm = "readPhysicalModels(%s)" % j
    mesh = "readGeometricMesh(%s, %s)" % (pm, j)
    want = {"solver": "readSolver(%s)" % j, "physicalModels": pm, "mesh": mesh, "sources": "readSources(%s, %s)" % (mesh, j), "outputRequests": "readOutputRequests(%s, %s)" % (mesh, j)}
    for m, x in want.items():
        t = v.m(m)
        c = t.c.replace("deref(", "(")
        ctx.ob(R, m, True if c == x else None if vague(t.t) or not any(n + "(" in c for n in SECT) and "None" != c else False, "is %s, expected %s" % (c[:300], x), w)
    # connectors are added to the same materials and mesh, before the sources use the mesh
    cc = [(ef, pc) for ef, pc, loops, stack in s.flat() if ef[0] == "call" and bsn(ef[1]) == "readConnectorOnPoint"]
    if cc:
        a = [canon(s.ev, x) for x in cc[0][0][4]]
        ctx.ob("connectors added to the materials and mesh of the file", "read", True if a == [pm, mesh, j] else None if "unk" in str(a) else False, "arguments %s" % str(a)[:300], w)
        ok = always(s, cc[0][1], ())
        ctx.ob("connectors read", "read", True if ok else None, "only when %s" % text(cc[0][1], 200), w)
    else:
        ctx.ob("connectors read", "read", False, "connectorOnPoint is not read", w)
    # scaling
    sc = [(ef, pc) for ef, pc, loops, stack in s.flat() if ef[0] == "call" and bsn(ef[1]) == "applyScalingFactor"]
    if len(sc) == 1:
        ef, pc = sc[0]
        a = canon(s.ev, ef[4][0])
        ctx.ob("geometry scaled by the factor of the file", "factor", True if "'geometryScalingFactor'" in a and want["solver"] in a and a.startswith("getReal(") else None if "unk" in a else False, "factor is %s" % a[:200], w)
        t = canon(s.ev, ef[3]) if ef[3] is not None else ""
        ctx.ob("geometry scaled by the factor of the file", "mesh", True if t == mesh else None, "scales %s" % t[:200], w)
        solvernull = mk("none")
        c = s.under(pc)
        ok = always(s, pc, ())
        ctx.ob("geometry scaled by the factor of the file", "whenever present", True if ok else None if vague(c) else None, "only when %s" % text(c, 300), w)
    else:
        ctx.ob("geometry scaled by the factor of the file", "factor", False if not sc else None, "%d scalings" % len(sc), w)
    s = Scen(ctx, fn, {}, {}, inl7, OPQ | {J + n for n in SECT}, extra=vers(False))
    refused(ctx, s, "file of another version", w, "other versions refused")

    # without mesh
    def nomesh(c):
        if c.k == "eq" and NULL in c.a and any(x.k == "call" and bsn(x.a[0]) == "readGeometricMesh" for x in c.a):
            return True
        return vers(True)(c)
    s = Scen(ctx, fn, {}, {}, inl7, OPQ | {J + n for n in SECT}, extra=nomesh)
    if s.ret is None:
        ctx.ob("file without mesh readable", "read", False, "every path throws: %s" % sorted({t[1] for t in s.r.throws}), w)
    else:
        v = Val(ctx, s.ev, s.st, unwrap(s, s.ret))
        for m in ("solver", "physicalModels"):
            t = v.m(m)
            c = t.c
            ctx.ob("file without mesh readable", m, True if c == want[m] else None if vague(t.t) else False, "is %s" % c[:200], w)


LISTS = [("readPhysicalModels", "materials", {"readPhysicalModel"}), ("readOutputRequests", "outputRequests", {"readOutputRequest"}),
         ("readSources", "sources", {"readPlanewave", "readGenerator", "readSourceOnLine", "readPortWaveguide", "readPortTEM"})]
KIND = {"planewave": "readPlanewave", "generator": "readGenerator", "sourceOnLine": "readSourceOnLine", "waveguidePort": "readPortWaveguide", "temPort": "readPortTEM"}


def lists(ctx):
    for name, key, readers in LISTS:
        fn = reader_fn(ctx, name)
        w = ctx.loc(fn)
        R = "every entry of the list is kept"
        if name != "readSources":
            s = Scen(ctx, fn, {}, {key: True}, inl7, OPQ | {J + n for n in readers})
            got = [(canon(s.ev, ef[4][-1]), pc, loops, ef) for ef, pc, loops, stack in adds(s) if not any(x[0].startswith("SEMBA::Group") for x in stack)]
            one_list(ctx, R, name, s, got, w, key, readers)
            continue
        for kind, rd in KIND.items():
            def ex(c):
                if c.k == "eq" and any("sourceType" in jkeys(x) for x in c.a):
                    for x in c.a:
                        if isc(x) and isinstance(x.a[0], str):
                            return x.a[0] == kind
                return None
            s = Scen(ctx, fn, {}, {}, inl7, OPQ | {J + n for n in readers}, extra=ex)
            got = [(canon(s.ev, ef[4][-1]), pc, loops, ef) for ef, pc, loops, stack in adds(s) if not any(x[0].startswith("SEMBA::Group") for x in stack)]
            one_list(ctx, R, "%s, %s" % (name, kind), s, got, w, key, {rd})
        s = Scen(ctx, fn, {}, {}, inl7, OPQ | {J + n for n in readers}, extra=lambda c: False if c.k == "eq" and any("sourceType" in jkeys(x) for x in c.a) else None)
        th = [t for t in s.r.throws if any("sourceType" in jkeys(x) for x in [t[0]]) or any(x.k == "inloop" for x in subterms(t[0]))]
        ctx.ob("unknown kind of entry refused", name, True if s.r.throws else False, "", w)


def one_list(ctx, R, lab, s, got, w, key, readers):
    if len(got) != 1:
        ctx.ob(R, lab, None, "%d additions" % len(got), w)
        return
    c, pc, loops, ef = got[0]
    nm = bsn(c.split("(")[0])
    ctx.ob("entry read by its reader", lab, True if nm in readers else None if "unk" in c else False, "adds %s" % c[:200], w)
    ctx.ob("entry read from its own text", lab, True if ("J.%s[*]" % key) in c else None if "unk" in c or "phi" in c else False, "adds %s" % c[:200], w)
    whole(ctx, R, lab, s, pc, loops, w, "J." + key)


def settings(ctx):
    fn = reader_fn(ctx, "readSolver")
    w = ctx.loc(fn)
    s = Scen(ctx, fn, {}, {"solverOptions": True}, lambda f: None if "/solver/" in f["file"] else inl7(f), OPQ | {J + "readSolverSettings"})
    R = "solver options kept"
    os_ = s.objs()
    if len(os_) == 1 and os_[0][1].t.k == "obj":
        v = os_[0][1]
        check_val(ctx, R, "solver name", v.get("getName"), "J.solverOptions.solver", w)
        t = v.get("getSettings")
        c = t.c
        ok = c in ("readSolverSettings(J.solverOptions)", "Object(readSolverSettings(J.solverOptions))")
        if not ok:
            sett = v.m("solverSett_").c
            ok = "readSolverSettings(J.solverOptions)" in sett or "readSolverSettings(J.solverOptions)" in str([canon(s.ev, x) for e, _, _, _ in s.flat() if e[0] == "call" and bsn(e[1]) == "operator=" for x in e[4]])
        ctx.ob(R, "solver settings", True if ok else None if vague(t.t) else None, "are %s" % c[:200], w)
    else:
        ctx.ob(R, "solver name", None, "%d objects" % len(os_), w)
    fn = reader_fn(ctx, "readSolverSettings")
    w = ctx.loc(fn)
    CODE = {"null": 0, "object": 1, "array": 2, "string": 3, "boolean": 4, "integer": 5, "unsigned": 6, "float": 7}
    PRED = {"is_object": {"object"}, "is_string": {"string"}, "is_boolean": {"boolean"}, "is_number": {"integer", "unsigned", "float"}, "is_array": {"array"}, "is_null": {"null"},
            "is_structured": {"object", "array"}, "is_primitive": {"null", "string", "boolean", "integer", "unsigned", "float"}}
    for kind in ("object", "string", "boolean", "integer", "unsigned", "float", "array", "null"):
        def ex(c, kind=kind):
            if c.k == "call" and bsn(c.a[0]) in PRED:
                return kind in PRED[bsn(c.a[0])]
            if c.k == "eq" and any(x.k == "call" and bsn(x.a[0]) == "type" for x in c.a):
                for x in c.a:
                    if isc(x):
                        return x.a[0] == CODE[kind]
            return None
        s = Scen(ctx, fn, {}, {}, inl7, OPQ, extra=ex)
        adm = [(ef, pc, loops) for ef, pc, loops, stack in s.flat() if ef[0] == "call" and bsn(ef[1]) == "addMember"]
        ss = [(ef, pc, loops) for ef, pc, loops, stack in s.flat() if ef[0] == "call" and bsn(ef[1]) == "setString"]
        if len(adm) != 1:
            ctx.ob(R, "member, " + kind, None if adm else False, "%d members added" % len(adm), w)
            continue
        ef, pc, loops = adm[0]
        k = canon(s.ev, ef[4][0])
        ctx.ob(R, "key, " + kind, True if k.startswith("key(") else None if "unk" in k else False, "key is %s" % k, w)
        whole(ctx, "every option is kept", kind, s, pc, loops, w, "j")
        m = ef[4][1]
        if kind == "object":
            c = canon(s.ev, m)
            ctx.ob(R, "value, object", True if "readSolverSettings(j[*])" in c else None if "unk" in c else False, "value is %s" % c[:200], w)
            continue
        if len(ss) != 1:
            ctx.ob(R, "value, " + kind, None, "%d texts" % len(ss), w)
            continue
        t = subst(ss[0][0][4][0], {x: C(b) for x, b in s.F.items()})
        if kind == "boolean":
            ctx.ob(R, "value, boolean", *(boolean(s, t) + (w,)))
            continue
        wr = written(t)
        if wr is None:
            ctx.ob(R, "value, " + kind, None, canon(s.ev, t)[:200], w)
            continue
        if True:
            c = [canon(s.ev, x) for x in wr]
            ctx.ob(R, "value, " + kind, True if c == ["j[*]"] else None if any(vague(x) and "j[*]" not in canon(s.ev, x) for x in wr) else False, "writes %s" % c, w)


def boolean(s, t):
    """true is written as 1 and false as 0"""
    val = {}
    for b in (True, False):
        def env(y, b=b):
            return b if canon(s.ev, y) in ("j[*]",) else None
        def pick(x):
            if x.k == "ite":
                return pick(x.a[1] if ceval(s.ev, x.a[0], env) else x.a[2])
            return x if not x.a or not any(isinstance(y, T) for y in x.a) else mk(x.k, *[pick(y) if isinstance(y, T) else y for y in x.a])
        try:
            wr = written(pick(t))
            if wr is None:
                return None, "writes %s" % canon(s.ev, t)[:200]
            txt = ""
            for x in wr:
                v = ceval(s.ev, x, env)
                txt += v if isinstance(v, str) else chr(int(v)) if x.k == "chr" else "%d" % int(v)
            val[b] = txt
        except (NoVal, ValueError, TypeError):
            return None, "writes %s" % canon(s.ev, t)[:200]
    return val == {True: "1", False: "0"}, "writes %s" % val


def written(t):
    """the pieces a text is made of: values streamed in, or the string itself"""
    if t.k == "call" and t.a[0].split("::")[-1] == "str" and len(t.a) == 2:
        t = t.a[1]
    out = []
    while True:
        if t.k == "ite":
            a, b = written(t.a[1]), written(t.a[2])
            if a is None or b is None or len(a) != len(b):
                return None
            return [ite(t.a[0], x, y) for x, y in zip(a, b)] + out
        if t.k == "m" and t.a[0].split("::")[-1].startswith("operator<<") and len(t.a) >= 3:
            out.insert(0, t.a[2])
            t = t.a[1]
        elif t.k == "obj" or t.k == "call" and "basic_stringstream" in t.a[0] or t.k == "call" and "ctor" in str(t.a[0]):
            return out
        elif t.k in ("jget", "deref", "jat"):
            return [t]
        else:
            return None if not out else None
