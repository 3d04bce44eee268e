"""C17 exporters write the geometry and the problem they are given"""
import itertools
from lib import *
from rules.C16 import Mesh, EGrp, shelf, idof, elm, GEO, LAY, MOD, IDN, EB, CB, QU

EXPL = ("The exporters are evaluated, callees inlined, on problems made of a mesh with elements of every kind they can write, materials, layers, sources, output requests and boundaries; the text given to each file and the calls given to the post-process library "
        "are followed by value-flow and constant propagation, read back as the formats define, and compared cell by cell with the problem.")
FLOOR = 90
DATA = "SEMBA::Data"
PM = "SEMBA::PhysicalModel::Group<>"
OWN = "SEMBA::Group::Identifiable<%s, SEMBA::Class::Identification<%s>>" % (MOD, MOD)
# VTK cell types, by number of the kind of element
VTK = {1: "node", 3: "line", 5: "triangle", 9: "quadrilateral", 10: "tetrahedron", 12: "hexahedron"}
# GiD element types and the nodes each takes
GID = {1: ("node", 1), 2: ("line", 2), 3: ("triangle", 3), 4: ("quadrilateral", 4), 5: ("tetrahedron", 4), 6: ("hexahedron", 8)}


class Bad(Exception):
    """what was written is not of the format"""


class Open(Exception):
    """what was written does not follow"""


class Problem(Mesh):
    CELL = {4: (0, 0, 0), 1: (1, 0, 0), 9: (1, 2, 0), 3: (0, 2, 0), 6: (2, 3, 2), 12: (0, 0, 1), 13: (1, 0, 1), 14: (1, 2, 1), 15: (0, 2, 1)}
    KINDS = ["quadrilateral", "line", "node", "hexahedron", "triangle", "tetrahedron"]

    def __init__(self, ctx, name, T_, which):
        Mesh.__init__(self, ctx, name, T_)
        self.rule, self.which = "exporters", which
        self.label = "%s of %s" % (which, name)
        self.pre = "str_" if name == "Structured" else ""
        # name, kind, identifier, coordinates, layer, model
        self.ELS = [("A", 0, 11, (4, 1, 9, 3), 8, 21), ("B", 1, 5, (3, 9) if self.pre else (3, 6), 7, None), ("D", 2, 8, (9,), 7, 22), ("F", 1, 13, (3, 9), 8, 21), ("H", 3, 17, (4, 1, 9, 3, 12, 13, 14, 15), 7, 21), ("K", 2, 23, (6,), 8, 22)]
        if not self.pre:
            self.ELS += [("T", 4, 19, (4, 1, 14), 7, 22), ("U", 5, 20, (4, 1, 9, 13), 8, 20)]
        self.ELS = tuple(self.ELS)

    def kinds(self, T_):
        return Mesh.kinds(self, T_) + [GEO + "Element::Hexahedron8<%s>" % T_, GEO + "Element::Triangle3", GEO + "Element::Tetrahedron4"]

    def given(self):
        put, X, A = Mesh.given(self)
        for i in range(3):
            for j in range(2):
                put.append((el(el(fld(sym("bounds"), GEO + "BoundTerminations<3>::bounds_"), C(i)), C(j)), self.bound(i, j)))
        X.update({sym("W%d" % i): MOD for i in range(3)})
        A = list(A) + [(eq(sym("W%d" % i), C(None)), False) for i in range(3)]
        return put, X, A

    BOUNDS = {}

    def bound(self, i, j):
        k = self.BOUNDS.get((i, j))
        return C(None) if k is None else sym("W%d" % k)

    def data(self, s, srcs, reqs, mats=(21, 20, 22), solver=None):
        D = sym("D")
        put = [(fld(D, DATA + "::mesh"), s.o), (fld(D, DATA + "::physicalModels"), sym("M")), (fld(D, DATA + "::solver"), C(None) if solver is None else solver)]
        X = {D: DATA}
        p, x, A = shelf("M", MOD, MOD, mats or (21,), PM)
        for k, v in p:
            t = str(k)
            if t.endswith("mapId_"):
                k = fld(sym("M"), OWN + "::mapId_")
                v = v if mats else mk("map")
            elif "lastId_" in t:
                k = fld(fld(sym("M"), OWN + "::lastId_"), IDN % MOD)
            elif t.endswith("element_") and not mats:
                v = mk("il")
            put.append((k, v))
        X.update(x)
        A = list(A) + [(eq(sym("M"), C(None)), False), (eq(s.o, C(None)), False)]
        if solver is not None:
            A.append((eq(solver, C(None)), False))
            X[solver] = "SEMBA::Solver::Info"
        put += [(idof(sym("M%d" % i), MOD), C(i)) for i in (20, 21, 22)]
        X.update({sym("M%d" % i): MOD for i in (20, 21, 22)})
        A += [(eq(sym("M%d" % i), C(None)), False) for i in (20, 21, 22)]
        put += [(fld(sym("M%d" % i), MOD + "::name_"), C("mat%d" % i)) for i in mats] + [(fld(sym("W%d" % i), MOD + "::name_"), C(n)) for i, n in enumerate(("PEC", "PML", "SMA"))]
        for who, cls, items in (("sources", "SEMBA::Source", srcs), ("outputRequests", "SEMBA::OutputRequest", reqs)):
            loc = fld(D, DATA + "::" + who)
            if items is None:
                put.append((loc, C(None)))
                continue
            g = sym("G" + who)
            put.append((loc, g))
            X[g] = cls + "::Group<>"
            A.append((eq(g, C(None)), False))
            ns = [sym("%s%d" % (who, i)) for i in range(len(items))]
            put.append((fld(g, elm(cls + "::Base")), mk("il", *ns)))
            for n, (c, name, ids) in zip(ns, items):
                X[n] = cls + "::" + c
                A.append((eq(n, C(None)), False))
                base = re.search(r"Element::(\w+)", " ".join(self.ctx.P.bases(cls + "::" + c)) if "<" not in c else c).group(1)
                if "<" not in c:
                    base = next(re.search(r"Source<SEMBA::Geometry::Element::(\w+)>", b).group(1) for b in self.ctx.P.bases(cls + "::" + c) if "Source<" in b)
                B = GEO + "Element::" + base
                es = [sym("%s_%d" % (n.a[0], i)) for i in ids]
                put.append((fld(n, elm(B, True)), mk("il", *es)))
                for e, i in zip(es, ids):
                    X[e] = GEO + "Element::Node<int>"
                    A.append((eq(e, C(None)), False))
                    put.append((idof(e, EB), C(i)))
                if name is not None:
                    put.append((fld(n, cls + "::Base::name_"), C(name)))
        L = fld(s.o, self.cls.replace("Geometric", "Unstructured") + "::layers_")
        for x in s.loc(fld(L, "SEMBA::Group::Group<%s>::element_" % LAY)):
            put.append((fld(x, LAY + "::name_"), C("lay%s" % s.ev.load(s.r.st, idof(x, LAY)))))
        A += [(sym("W%d" % i), True) for i in range(3)] + [(eq(sym("W%d" % i), C(None)), False) for i in range(3)]
        if self.pre:
            A.append((eq(fld(s.o, self.cls + "::grid_"), C(None)), False))
        return put, X, A

    FACTOR = 2.

    def setting(self, fn, o, args):
        """the settings of the solver hold a scaling factor"""
        n = fn["pq"].split("<")[0].split("::")[-1] if "operator()" not in fn["pq"] else "operator()"
        if "Argument::Object" not in fn["pq"] or o is None:
            return None
        if args == [C("geometryScalingFactor")]:
            return {"operator()": sym("ZF"), "existsName": TRUE}.get(n)
        if o is sym("ZF"):
            return {"getReal": C(self.FACTOR), "get": C(self.FACTOR), "isNull": FALSE, "isNumber": TRUE, "isReal": TRUE}.get(n)
        return None

    def run_(self, s, more, state=(0, 0, 0), n=901, path="d/out"):
        """the exporter, on a problem"""
        cls = "SEMBA::Exporter::%s::Exporter" % self.which
        fs = [f for f in self.ctx.P.byname.get(cls + "::(ctor)", []) if f.get("b") is not None and len(f["p"]) >= 2]
        if not fs:
            raise AnalysisError("anchor vanished: %s::(ctor)" % cls)
        f = fs[0]
        put, X, A = more
        put = list(put)
        if state is not None:
            put += [(mk("glob", cls + "::" + k), C(v)) for k, v in zip(("numberOfOutputGiD_", "coordCounter_", "elemCounter_"), state)]
        o = mk("obj", n, cls)
        s.ev.objs[o] = dict(cls=cls, args=[], line=0, usr=None, heap=False, fn=None)
        s.ev.sink = "GiD_"
        s.ev.known = self.setting
        return s.then(f, [sym("D"), C(path)] + [C(0)] * (len(f["p"]) - 2), put, X, this=o, assume=A)

    # ------------------------------------------------------------ reading back
    def text(self, q, path):
        t = q.r.st.store.get(mk("file", C(path)))
        if t is None:
            raise Bad("the file %s is not written" % path)
        if t.k != "text":
            raise Open("content of %s" % path)
        r = []
        for x in t.a:
            if x.k == "fn" and "endl" in str(x.a[0]):
                r.append("\n")
            elif x.k == "fn" and "flush" in str(x.a[0]):
                pass
            elif isc(x) and x.a[0].__class__ in (str, int, float):
                r.append(str(x.a[0]))
            else:
                raise Open("piece %s of %s" % (str(x)[:80], path))
        return "".join(r)

    @staticmethod
    def xml(t):
        import xml.etree.ElementTree as ET
        try:
            return ET.fromstring(t)
        except ET.ParseError as e:
            raise Bad("not well-formed: %s" % e)

    def vtk(self, q, path):
        root = self.xml(self.text(q, path + ".pvd"))
        if root.tag != "VTKFile" or root.get("type") != "Collection":
            raise Bad("not a collection")
        r, parts = {}, []
        base = path.split("/")[-1] + ".vtk/"
        for d in root.iter("DataSet"):
            fn = d.get("file") or ""
            if not fn.startswith(base) or "/" in fn[len(base):]:
                raise Bad("a data set is in %s" % fn)
            parts.append(d.get("part"))
            r.setdefault(d.get("group"), []).extend(self.vtu(self.text(q, path[:-len(path.split("/")[-1])] + fn)))
        if len(set(parts)) != len(parts):
            raise Bad("parts %s" % parts)
        return r

    def vtu(self, t):
        root = self.xml(t)
        if root.tag != "VTKFile" or root.get("type") != "UnstructuredGrid":
            raise Bad("not an unstructured grid")
        g = root.find("UnstructuredGrid")
        if g is None or g.find("Points/DataArray") is None:
            raise Bad("no points")
        at = {a.get("Name"): a for a in g.findall("Cells/DataArray")}
        if set(at) != {"connectivity", "offsets", "types"}:
            raise Bad("arrays %s" % sorted(map(str, at)))
        try:
            xs = [float(x) for x in g.find("Points/DataArray").text.split()]
            cn, of, ty = ([int(x) for x in (at[k].text or "").split()] for k in ("connectivity", "offsets", "types"))
        except ValueError as e:
            raise Bad(str(e))
        ps = [tuple(xs[i:i + 3]) for i in range(0, len(xs), 3)]
        if len(xs) % 3 or g.get("NumberOfPoints") != str(len(ps)) or g.get("NumberOfCells") != str(len(of)) or len(ty) != len(of):
            raise Bad("%s points and %s cells, of %d and %d" % (g.get("NumberOfPoints"), g.get("NumberOfCells"), len(ps), len(of)))
        if [0] + of != sorted([0] + of) or (of[-1] if of else 0) != len(cn) or any(not 0 <= i < len(ps) for i in cn):
            raise Bad("connectivity %s with offsets %s of %d points" % (cn, of, len(ps)))
        return [(VTK.get(k, "type %d" % k), tuple(ps[i] for i in cn[a:b])) for k, a, b in zip(ty, [0] + of, of)]

    def gid(self, q, path, start=0):
        t = q.r.st.store.get(mk("file", C("calls")))
        if t is None or t.k != "text":
            raise Open("the calls")
        r, at, coords, eids, mesh, opened = {}, "", {}, set(), None, None
        for x in list(t.a)[start:]:
            n, a = x.a[0], x.a[1:]
            if n in ("GiD_PostInit", "GiD_FlushPostFile", "GiD_fFlushPostFile"):
                continue
            if n in ("GiD_fOpenPostMeshFile", "GiD_OpenPostMeshFile"):
                if not isc(a[0]):
                    raise Open("the name of the file")
                if a[0].a[0] != path + ".post.msh":
                    raise Bad("opens %s" % a[0].a[0])
                opened = True
                continue
            if not opened:
                raise Bad("%s before the file is opened" % n)
            if not n.startswith("GiD_f") or a[0].k != "call" or "OpenPostMeshFile" not in a[0].a[0]:
                raise Open("%s on %s" % (n, str(a[:1])[:60]))
            v = []
            for y in a[1:]:
                if isc(y):
                    v.append(y.a[0])
                elif y.k == "il" and all(isc(z) for z in y.a):
                    v.append([z.a[0] for z in y.a])
                else:
                    raise Open("%s given %s" % (n, str(y)[:80]))
            to = {"GiD_fBeginMesh": ("", "m"), "GiD_fBeginMeshColor": ("", "m"), "GiD_fBeginCoordinates": ("m", "c"), "GiD_fWriteCoordinates": ("c", "c"), "GiD_fEndCoordinates": ("c", "d"), "GiD_fBeginElements": ("d", "e"),
                  "GiD_fWriteElement": ("e", "e"), "GiD_fEndElements": ("e", "f"), "GiD_fEndMesh": ("f", "")}.get(n)
            if to is None:
                raise Open(n)
            if to[0] != at:
                raise Bad("%s is out of place" % n)
            at = to[1]
            if n.startswith("GiD_fBeginMesh"):
                if v[1] != 3 or v[2] not in GID or GID[v[2]][1] != v[3]:
                    raise Bad("mesh of dimension %s, type %s and %s nodes" % tuple(v[1:4]))
                mesh = (v[0], v[2])
            elif n == "GiD_fWriteCoordinates":
                if v[0] in coords:
                    raise Bad("coordinates %s twice" % v[0])
                coords[v[0]] = tuple(v[1:])
            elif n == "GiD_fWriteElement":
                k, nn = GID[mesh[1]]
                if v[0] in eids or len(v[1]) < nn or any(i not in coords for i in v[1][:nn]):
                    raise Bad("element %s of coordinates %s" % (v[0], v[1]))
                eids.add(v[0])
                r.setdefault(mesh[0], []).append((k, tuple(coords[i] for i in v[1][:nn])))
        if at:
            raise Bad("a mesh is not ended")
        return r

    # ------------------------------------------------------------ expected
    def want(self, srcs, reqs, mats=(21, 20, 22), f=1.):
        r = {}
        pos = {k: tuple(float(v) * f for v in self.at(k, "double")) for k in self.CELL}
        cell = {i: (self.KINDS[k], tuple(pos[c] for c in v)) for n, k, i, v, l, m in self.ELS}
        for n, k, i, v, l, m in self.ELS:
            if not mats and l:
                r.setdefault("%slay%d" % (self.pre, l), []).append(cell[i])
            elif m in mats and l:
                r.setdefault("%smat%d@lay%d" % (self.pre, m, l), []).append(cell[i])
        for kind, items in (("EMSource_", srcs), ("OutRq_", reqs)):
            for c, name, ids in items or ():
                nm = name or {"Generator": "Generator", "PlaneWave": "PlaneWave", "Dipole": "Dipole"}[c]
                r.setdefault(self.pre + kind + nm, []).extend(cell[i] for i in ids)
        if self.pre:
            L = [[x * f for x in l] for l in self.LINES]
            for i, j in itertools.product(range(3), range(2)):
                k = self.BOUNDS.get((i, j))
                if k is not None:
                    ps = [p for p in itertools.product(*[(l[0], l[-1]) for l in L]) if p[i] == L[i][-j]]
                    r.setdefault(("PEC", "PML", "SMA")[k] + "@Boundary", []).append(("quadrilateral", frozenset(ps)))
            g = r.setdefault("Grid", [])
            for d in range(3):
                for i in (1, 2):
                    # the lines of the grid seen on the faces of the domain
                    a, b = (d + i) % 3, (d - i) % 3
                    for x in L[a]:
                        p, q_ = [0.] * 3, [0.] * 3
                        p[a] = q_[a] = x
                        p[d] = q_[d] = L[d][0]
                        p[b], q_[b] = L[b][0], L[b][-1]
                        g.append(("line", frozenset((tuple(p), tuple(q_)))))
        return r

    @staticmethod
    def canon(r, own):
        """cells by name, comparable: those of boundaries and of the grid are sets of positions"""
        o = {}
        for n, cs in r.items():
            if n == "Undefined@Boundary":
                continue
            n2 = n.replace("/", "_") if n.__class__ is str else n
            for k, ps in cs:
                ps = [tuple(round(v, 9) + 0. for v in p) for p in ps]
                if n.__class__ is str and (n.endswith("@Boundary") or n == "Grid"):
                    if not own and k == "quadrilateral" and any(sum(x != y for x, y in zip(a, b)) != 1 for a, b in zip(ps, ps[1:] + ps[:1])):
                        k = "crossed quadrilateral"
                    ps = sorted(set(ps))
                o.setdefault(n2, []).append((k, tuple(ps)))
        return {n: sorted(v) for n, v in o.items() if v}

    def report(self, inst, q, srcs, reqs, mats=(21, 20, 22), f=1., path="d/out", start=0):
        ok, msg, d, w = None, "", None, {}
        try:
            w = self.canon(self.want(srcs, reqs, mats, f), True)
            if q.limit:
                msg = "the paths are too many"
            elif q.r.st is None:
                ok, msg = (False, "is refused") if any(t[0] is TRUE for t in q.r.throws) else (None, "does not follow")
            elif any(t[0] is TRUE for t in q.r.throws):
                ok, msg = False, "is refused"
            else:
                got = self.canon(self.vtk(q, path) if self.which == "VTK" else self.gid(q, path, start), False)
                d = [n for n in set(got) | set(w) if got.get(n) != w.get(n)]
        except Bad as e:
            ok, msg = False, str(e)
        except Open as e:
            msg = "does not follow: %s" % e
        for n in sorted(w, key=str):
            self.ctx.ob(self.rule, "%s.%s: %s" % (self.label, inst, n), ok if d is None else n not in d, msg if d is None else "is %s, should be %s" % (str(got.get(n, "not written"))[:400], str(w[n])[:400]), self.ctx.loc(q.f))
        e = None if d is None else [n for n in d if n not in w]
        self.ctx.ob(self.rule, "%s.%s: nothing else" % (self.label, inst), ok if d is None else not e, msg if d is None else ", ".join("%s is %s" % (n, str(got[n])[:200]) for n in sorted(e, key=str)), self.ctx.loc(q.f))
        return q


SRC1 = [("Generator", None, (8,)), ("PlaneWave", None, (17,)), ("Generator", None, (23,))]
ANY = "OutputRequest<SEMBA::Geometry::Element::Base>"
REQ1 = [(ANY, "Point", (23, 8)), (ANY, "a/b", (5, 13, 11)), (ANY, "Point", (13,)), ("OutputRequest<SEMBA::Geometry::Element::VolumeBase>", "Volume", (17,))]


def cases():
    for which in ("VTK", "GiD"):
        for name, T_ in (("Unstructured", "double"), ("Structured", "int")):
            for k in range(2 if T_ == "int" else 1):
                for nm in ("all", "few", "no models")[:3 if not k else 1]:
                    if nm != "no models" or which == "VTK":
                        yield which, name, T_, k, nm
    for name, T_ in (("Unstructured", "double"), ("Structured", "int")):
        yield "GiD", name, T_, 0, "scaled"


def one(ctx, which, name, T_, k, nm):
    m = Problem(ctx, name, T_, which)
    if T_ == "int":
        m.BOUNDS = {(0, 0): 0, (0, 1): 1, (2, 1): 2} if k else {(i, j): 0 for i in range(3) for j in range(2)}
    srcs, reqs, mats = {"all": (SRC1, REQ1, (21, 20, 22)), "few": (None, None, (22,)), "no models": ([], REQ1[:1], ()), "scaled": (None, REQ1[:1], (22,))}[nm]
    s = m.made()
    sc = nm == "scaled"
    # a second export follows the numbers of the first
    q = m.run_(s, m.data(s, srcs, reqs, mats, sym("Z") if sc else None), (1, 17, 23) if sc else (0, 0, 0))
    m.report(nm + (" with other bounds" if k else ""), q, srcs, reqs, mats, 1. / m.FACTOR if sc else 1.)
    if sc and q.r.st is not None:
        m.plain("%s: the mesh of the problem" % which, q, m.parts(q, s.o), m.mesh())
        if m.pre:
            m.plain("%s: the grid of the problem" % which, q, m.lines(q, fld(s.o, m.cls + "::grid_")), [list(x) for x in m.LINES])


def check(ctx):
    parallel(ctx, one, list(cases()))
