"""C05 mesh entries of a problem file: coordinates, layers, elements, boxes and element references."""
from rules.jsonlib import *

EXPL = ("Each reader of the mesh section is evaluated on a symbolic entry; the object handed to the group (class, identifier, coordinates, layer, material) is a "
        "provenance term over the tokens of that entry and is compared with the documented column. The loop around it is recognised and must visit every entry, "
        "and the condition under which the entry is added must be true. Sections that are demanded are decided from the gates (absence leads to a throw).")
FLOOR = 60
A = Poly.atom
GE = "SEMBA::Geometry::Element::"


def inl5(f):
    if "/geometry/element/" in f["file"]:
        return None
    if any(x in f["file"] for x in ("/class/", "/geometry/layer/Layer", "/geometry/coordinate/Coordinate.")):
        return None
    return inl(f)


def bsn(n):
    return short(n).split("::")[-1]


ADD = ("add", "addId", "addPos", "push_back")


def adds(s, names=ADD, own=True):
    """(arguments, condition, loops, effect) of the calls that put something in a group"""
    for ef, pc, loops, stack in s.flat():
        if ef[0] == "call" and bsn(ef[1]) in names and (ef[1].startswith("SEMBA::Group::") or ef[1].startswith("SEMBA::Geometry::")):
            yield ef, pc, loops, stack


def always(s, pc, loops):
    """the condition of an effect holds whenever no refusal is taken: True/False/None"""
    m = {}
    for ef, c, l, st in s.flat():
        if ef[0] == "throw":
            m[c] = FALSE
    for t in s.r.throws:
        m[t[0]] = FALSE
    for lid in loops:
        c = s.ev.loops[lid]["cond"]
        m[c] = TRUE
        m[mk("inloop", lid)] = TRUE
    c = subst(s.under(pc), m)
    cj = c.a if c.k == "and" else (c,)
    rest = []
    for x in cj:
        if isc(x) and x.a[0]:
            continue
        if any(y is z for y in [x] for z in m):
            continue
        # negation of a refusal condition
        y = lnot(x)
        if any(y is z or (z.k == "and" and y in z.a) for z in m):
            continue
        rest.append(x)
    if not rest:
        return True
    return None if any(vague(x) for x in rest) else False


def whole(ctx, rule, inst, s, pc, loops, where, want=None):
    """every entry of the list is processed"""
    if not loops:
        return ctx.ob(rule, inst, None, "not inside a recognised loop", where)
    v, cont = wholeloop(s.ev, loops[-1])
    a = always(s, pc, loops)
    if v is False:
        return ctx.ob(rule, inst, False, "the loop over %s skips entries" % cont, where)
    if a is False:
        return ctx.ob(rule, inst, False, "an entry is skipped under the condition %s" % text(pc, 200), where)
    if want is not None and v and cont != want:
        return ctx.ob(rule, inst, None, "loops over %s" % cont, where)
    return ctx.ob(rule, inst, True if v and a else None, "", where)


def check(ctx):
    elements(ctx)
    element_kinds(ctx)
    layers(ctx)
    coordinates(ctx)
    boxes(ctx)
    references(ctx)
    connectors(ctx)
    geometric(ctx)


def one_added(ctx, rule, lab, s, w, cls=None):
    """the entry object put in the result, once per iteration"""
    got = []
    for ef, pc, loops, stack in adds(s):
        if stack and any(st[0].startswith("SEMBA::Group") for st in stack):
            continue
        o = ef[4][-1] if ef[4] else None
        if o is None or not loops:
            continue
        got.append((o, pc, loops, ef))
    objs = [g for g in got if g[0].k == "obj" and (cls is None or bsn(g[0].a[1]).split("<")[0] in cls)]
    if len(objs) == 1:
        return objs[0]
    ctx.ob(rule, lab, None if got or s.ret is None else None, "%d objects added per entry" % len(objs), w)
    return None


def ref(s, t):
    return canon(s.ev, t)


def elements(ctx):
    R = "element columns"
    n = 0
    for f in ctx.P.fns.values():
        if not f["n"].startswith("SEMBA::Parser::JSON::readElemStrAs<") or f.get("dep") or not f.get("b"):
            continue
        T_ = f["n"].split("<", 1)[1][:-1]
        lab = bsn(T_).split("<")[0]
        w = ctx.loc(f)
        s = Scen(ctx, f, {}, {}, inl5, OPQ)
        o = one_added(ctx, R, lab, s, w)
        if o is None:
            continue
        n += 1
        obj, pc, loops, ef = o
        got = obj.a[1]
        ctx.ob("element kind", lab, got == T_, "creates %s" % got, w)
        p = [x["n"] for x in f["p"]]
        mG, lG, cG, e = p
        v = Val(ctx, s.ev, endstate(s, loops), obj)
        check_val(ctx, R, lab + ".id", v.get("getId"), "id(%s!raw#0)" % e, w)
        for g, grp, i in (("getModel", mG, 1), ("getLayer", lG, 2)):
            t = v.get(g)
            tok = mk2(s, e, i)
            zero = [leaf_ for leaf_ in leafs_under(t.t, s, "%s!raw#%d" % (e, i), 0)]
            oth = [leaf_ for leaf_ in leafs_under(t.t, s, "%s!raw#%d" % (e, i), 7)]
            want = "getId(%s, id(%s!raw#%d))" % (grp, e, i)
            z = {canon(s.ev, x) for x in zero}
            q = {canon(s.ev, x).replace("id(7)", "id(%s!raw#%d)" % (e, i)) for x in oth}
            vg = any(vague(x) for x in zero + oth)
            ctx.ob(R, "%s.%s zero" % (lab, g), True if z == {"None"} else None if vg else False, "identifier 0 gives %s, expected none" % sorted(z), w)
            ctx.ob(R, "%s.%s" % (lab, g), True if q == {want} else None if vg else False, "is %s, expected %s" % (sorted(q), want), w)
        nc = ncoords(ctx, T_)
        vals = coords_of(ctx, v, T_, nc)
        want = ["getId(%s, id(%s!raw#%d))" % (cG, e, 3 + i) for i in range(nc or 0)]
        got = [canon(s.ev, x) for x in vals]
        js = [agree(s.ev, x, y)[0] for x, y in zip(vals, want)]
        ctx.ob(R, lab + ".coordinates", True if js and all(js) else False if False in js else None,
               "coordinates are %s, expected %s" % (got, want), w)
        whole(ctx, "every entry of the list is kept", lab, s, pc, loops, w, e)
    if n < 4:
        raise AnalysisError("anchor vanished: element readers (%d found)" % n)


def mk2(s, e, i):
    return None


def leafs_under(t, s, name, val):
    """leaves of t when the token called name has a value"""
    m = {}
    for x in subterms(t):
        if x.k == "tok" and canon(s.ev, x) == name:
            m[x] = C(val)
    r = subst(t, {k: v for k, v in m.items()})
    return [l for _, l in leaves(r)]


def endstate(s, loops=()):
    """state at the end of the (outermost) loop body, the objects of the iteration included"""
    if loops and s.ev.loops[loops[0]].get("endst") is not None:
        return s.ev.loops[loops[0]]["endst"]
    return s.st or State()


def ncoords(ctx, cls):
    for c in [cls] + list(ctx.P.bases(cls)):
        v = ctx.P.globals.get(c + "::sizeOfCoordinates") if hasattr(ctx.P, "globals") else None
        if v is not None:
            return v
    n = {"Hexahedron8": 8, "Tetrahedron4": 4, "Tetrahedron10": 10, "Quadrilateral4": 4, "Triangle3": 3, "Triangle6": 6, "Line2": 2, "Node": 1}
    return n.get(bsn(cls).split("<")[0])


def coords_of(ctx, v, cls, n):
    return [v.get("getV", C(i)).t for i in range(n or 0)]


KINDS = {"hexahedra": "Hexahedron8<double>", "tetrahedra": "Tetrahedron4", "quadrilateral": "Quadrilateral4<double>", "triangle": "Triangle3", "line": "Line2<double>"}


def element_kinds(ctx):
    R = "element list read as its kind"
    fn = reader_fn(ctx, "readElements")
    w = ctx.loc(fn)
    s = Scen(ctx, fn, {}, {}, lambda f: False if "readElemStrAs" in f["n"] else inl5(f), OPQ)
    p = [x["n"] for x in fn["p"]]
    calls = []
    for ef, pc, loops, stack in s.flat():
        if ef[0] == "call" and "readElemStrAs<" in ef[1]:
            calls.append((ef[1].split("<", 1)[1][:-1].replace(GE, ""), [canon(s.ev, x) for x in ef[4]], ef[5] if len(ef) > 5 else None, pc, ef))
    for key, kind in KINDS.items():
        mine = [c for c in calls if c[1] and c[1][-1] == "J.elements." + key]
        if not mine:
            ctx.ob(R, key, False if calls else None, "the list %s is not read" % key, w)
            continue
        kinds = {c[0] for c in mine}
        ctx.ob(R, key, kinds == {kind} and len(mine) == 1, "read as %s" % sorted(kinds), w)
        ctx.ob("element list resolved in the right groups", key, mine[0][1][:3] == p[:3], "arguments %s" % mine[0][1][:3], w)
        ok = always(s, mine[0][3], ())
        ctx.ob("every element list is read", key, ok, "read only when %s" % text(mine[0][3], 100), w)
    nadd = sum(1 for ef, pc, loops, stack in adds(s, ("add",)) if not stack and ef[4] and any(x.k in ("call", "obj") for x in ef[4]))
    ctx.ob("every element list is kept", "readElements", True if nadd >= len(KINDS) else None, "%d lists added to the result" % nadd, w)
    refused(ctx, Scen(ctx, fn, {}, {"elements": False}, inl5, OPQ), "file without elements", w, "missing section refused")


def layers(ctx):
    fn = reader_fn(ctx, "readLayers")
    w = ctx.loc(fn)
    s = Scen(ctx, fn, {}, {}, inl5, OPQ)
    o = one_added(ctx, "layer fields", "layer", s, w)
    if o:
        v = Val(ctx, s.ev, endstate(s, o[2]), o[0])
        check_val(ctx, "layer fields", "layer.getId", v.get("getId"), "id(trunc(J.layers[*].id))", w)
        check_val(ctx, "layer fields", "layer.getName", v.get("getName"), "J.layers[*].name", w)
        whole(ctx, "every entry of the list is kept", "layers", s, o[1], o[2], w, "J.layers")
    refused(ctx, Scen(ctx, fn, {}, {"layers": False}, inl5, OPQ), "file without layers", w, "missing section refused")


def coordinates(ctx):
    fn = reader_fn(ctx, "readCoordinates")
    w = ctx.loc(fn)
    s = Scen(ctx, fn, {}, {}, inl5, OPQ)
    o = one_added(ctx, "coordinate columns", "coordinate", s, w)
    if o:
        v = Val(ctx, s.ev, endstate(s, o[2]), o[0])
        check_val(ctx, "coordinate columns", "coordinate.getId", v.get("getId"), "id(coordinates!raw#0)", w)
        pos = v.get("pos")
        check_vec(ctx, "coordinate columns", "coordinate.pos", pos, ["coordinates!raw#%d" % i for i in (1, 2, 3)], w)
        whole(ctx, "every entry of the list is kept", "coordinates", s, o[1], o[2], w, "J.coordinates")
    refused(ctx, Scen(ctx, fn, {}, {"coordinates": False}, inl5, OPQ), "file without coordinates", w, "missing section refused")


SHAPES = [("isVolume", "Hexahedron8<double>"), ("isSurface", "Quadrilateral4<double>"), ("isLine", "Line2<double>"), ("isPoint", "Node<double>")]


def boxes(ctx):
    """a layer box becomes the element of its dimension, with the two corners given"""
    fn = reader_fn(ctx, "boxToElemGroup")
    w = ctx.loc(fn)
    names = [a for a, _ in SHAPES]
    for q, cls in SHAPES + [(None, None)]:
        def extra(c):
            if c.k == "call" and bsn(c.a[0]) in names:
                return bsn(c.a[0]) == q
            return None
        s = Scen(ctx, fn, {}, {}, inl5, OPQ, extra=extra)
        lab = q or "none of the shapes"
        if q is None:
            refused(ctx, s, "box of no shape", w)
            continue
        made = [(ef, pc) for ef, pc, loops, stack in s.flat() if ef[0] == "new" and ef[2].startswith(GE) and bsn(ef[2]).split("<")[0] in [c.split("<")[0] for _, c in SHAPES]]
        if len(made) != 1:
            ctx.ob("box read as its element", lab, None if s.ret is not None else False, "%d elements" % len(made), w)
            continue
        ef, pc = made[0]
        ctx.ob("box read as its element", lab, ef[2] == GE + cls, "creates %s, expected %s" % (ef[2], GE + cls), w)
        added = [e for e, p_, l, st in adds(s, ("addId", "add")) if any(a is ef[1] for a in e[4])]
        ctx.ob("box element kept in the mesh", lab, True if added else None, "", w)
        cs = [a for a in ef[3]]
        g = canon(s.ev, cs[0])
        ctx.ob("box element on the mesh coordinates", lab, True if g == "coords(mesh)" else None, g, w)
    # corners: the two corners of the text (the box constructor orders them per axis, so their order is irrelevant)
    fb = reader_fn(ctx, "strToBox")
    s = Scen(ctx, fb, {}, {}, inl5, OPQ)
    if s.ret is not None:
        a = fb["p"][0]["n"]
        vs = [v.vec() for v in s.val.pair()]
        got = sorted([x.c.replace("!raw", "") for x in v] for v in vs)
        want = sorted(["%s#%d" % (a, o + i) for i in range(3)] for o in (0, 3))
        ctx.ob("box corners", "the six numbers", True if got == want else None if any(vague(x.t) for v in vs for x in v) else False,
               "corners are %s, expected %s" % (got, want), ctx.loc(fb))


def references(ctx):
    """elements and coordinates referred to by identifier"""
    n = 0
    for f in ctx.P.fns.values():
        if not f["n"].startswith("SEMBA::Parser::JSON::readElemIdsAsGroupOf<") or f.get("dep") or not f.get("b"):
            continue
        lab = "elemIds as " + f["n"].split("<", 1)[1][:-1].replace(GE, "")
        w = ctx.loc(f)
        s = Scen(ctx, f, {}, {}, inl5, OPQ)
        p = [x["n"] for x in f["p"]]
        got = []
        for ef, pc, loops, stack in adds(s, ("add",)):
            if loops and not any(st[0].startswith("SEMBA::Group") for st in stack):
                got.append((canon(s.ev, ef[4][-1]), pc, loops))
        n += 1
        if len(got) != 1:
            ctx.ob("referred elements", lab, None, "%d additions" % len(got), w)
            continue
        want = "getId(elems(%s), id(trunc(%s[*])))" % tuple(p)
        ctx.ob("referred elements", lab, True if got[0][0] == want else None if "unk" in got[0][0] else False, "adds %s, expected %s" % (got[0][0], want), w)
        whole(ctx, "every entry of the list is kept", lab, s, got[0][1], got[0][2], w, p[1])
    if not n:
        raise AnalysisError("anchor vanished: readElemIdsAsGroupOf")
    fn = reader_fn(ctx, "readCoordIdAsNodes")
    w = ctx.loc(fn)
    s = Scen(ctx, fn, {}, {}, inl5, OPQ)
    p = [x["n"] for x in fn["p"]]
    nodes = [(ef, pc, loops) for ef, pc, loops, stack in s.flat() if ef[0] == "new" and bsn(ef[2]) == "Node"]
    lab = "coordIds as nodes"
    if len(nodes) == 1:
        ef, pc, loops = nodes[0]
        v = Val(ctx, s.ev, endstate(s, loops), ef[1])
        got = v.get("getV", C(0))
        c = got.c
        c = c[:-3] if c.endswith("[0]") else c
        want = "getId(coords(%s), id(trunc(%s[*])))" % tuple(p)
        ctx.ob("referred coordinates", lab, True if c == want else None if vague(got.t) else False, "is %s, expected %s" % (c, want), w)
        added = [(e, pc_, l) for e, pc_, l, st in adds(s, ("addId",)) if any(a is ef[1] for a in e[4])]
        if added:
            whole(ctx, "every entry of the list is kept", lab, s, added[0][1], added[0][2], w, p[1])
            ctx.ob("node kept in the mesh", lab, canon(s.ev, added[0][0][3]) == "elems(%s)" % p[0] or None, "", w)
        else:
            ctx.ob("node kept in the mesh", lab, None, "", w)
    else:
        ctx.ob("referred coordinates", lab, None, "%d nodes created" % len(nodes), w)


def connectors(ctx):
    fn = reader_fn(ctx, "readConnectorOnPoint")
    w = ctx.loc(fn)
    s = Scen(ctx, fn, {}, {}, inl5, OPQ | {J + "readPhysicalModel"})
    lab = "connectorOnPoint"
    nodes = [(ef, pc, loops) for ef, pc, loops, stack in s.flat() if ef[0] == "new" and bsn(ef[2]) == "Node"]
    p = [x["n"] for x in fn["p"]]
    if len(nodes) != 1:
        ctx.ob("connector fields", lab, None, "%d nodes created" % len(nodes), w)
        return
    ef, pc, loops = nodes[0]
    v = Val(ctx, s.ev, endstate(s, loops), ef[1])
    check_val(ctx, "connector fields", lab + ".coordinate", v.get("getV", C(0)), "getId(coords(%s), id(trunc(J.connectorOnPoint[*].coordIds)))" % p[1], w)
    check_val(ctx, "connector fields", lab + ".layer", v.get("getLayer"), "None", w)
    m = v.get("getModel").c
    rd = "readPhysicalModel(J.connectorOnPoint[*])"
    ok = m in ("getId(%s, getId(%s))" % (p[0], rd), rd, "getId(%s, id(%s.id_.id_))" % (p[0], rd), "getId(%s, id(getId(%s)))" % (p[0], rd))
    ctx.ob("connector fields", lab + ".model", True if ok else None if "unk" in m else False, "material is %s" % m, w)
    ad = [(bsn(e[1]), canon(s.ev, e[3]), canon(s.ev, e[4][-1]), pc_, l) for e, pc_, l, st in adds(s, ("addId", "add")) if not st or "Group" not in st[-1][0]]
    mats = [a for a in ad if a[2] == rd and a[1] == p[0]]
    els = [a for a in ad if a[1] == "elems(%s)" % p[1]]
    ctx.ob("connector material kept", lab, True if mats else None, str([x[:3] for x in ad])[:300], w)
    ctx.ob("connector node kept", lab, True if els else None, "", w)
    if els:
        whole(ctx, "every entry of the list is kept", lab, s, els[0][3], els[0][4], w, "J.connectorOnPoint")


def geometric(ctx):
    """the mesh is made of what the four readers returned"""
    fn = reader_fn(ctx, "readGeometricMesh")
    w = ctx.loc(fn)
    names = ("readGrids", "readLayers", "readCoordinates", "readElements")
    s = Scen(ctx, fn, {}, {}, lambda f: False if "/geometry/" in f["file"] else inl5(f), OPQ | {J + n for n in names})
    made = [ef for ef, pc, loops, stack in s.flat() if ef[0] == "new" and ef[2] == "SEMBA::Geometry::Mesh::Geometric"]
    if len(made) != 1:
        ctx.ob("mesh parts", "readGeometricMesh", None, "%d meshes" % len(made), w)
        return
    p = [x["n"] for x in fn["p"]]
    got = [canon(s.ev, x) for x in made[0][3]]
    names2 = ("readGrids", "readCoordinates", "readElements", "readLayers")
    for i, n in enumerate(names2):
        g = got[i] if i < len(got) else "missing"
        ctx.ob("mesh parts", n, True if n + "(" in g and not any(m + "(" in g.split(n + "(")[0] for m in names2) else None if "unk" in g else False, "argument %d of the mesh is %s" % (i, g[:200]), w)
    for ef, pc, loops, stack in s.flat():
        if ef[0] == "call" and bsn(ef[1]) == "readElements" and not stack:
            a = [canon(s.ev, x) for x in ef[4]]
            for i, n in ((0, p[0]), (1, "readLayers("), (2, "readCoordinates("), (3, p[1])):
                ctx.ob("elements resolved in the groups of the file", "argument %d" % i, True if n in a[i] else False, "is %s" % a[i][:200], w)
