"""C18 options of the solver and of the mesher"""
import itertools
import math
from lib import *

EXPL = ("The constructors, set, every setter and every query of the options are evaluated, callees inlined, on settings in which each key is absent, or present with an unknown value or each of its labels; "
        "what the queries report is compared with the value of the key of that name, or with its default.")
FLOOR = 1500
OBJ = "SEMBA::Argument::Object"
B, R, I, S = "getBool", "getReal", "getInt", "getString"
KIND = {"bool": B, "double": R, "int": I}


class Opts:
    def __init__(self, ctx, cls, label):
        self.ctx, self.cls, self.label = ctx, cls, label
        self.ctor = ctx.fn(cls + "::(ctor)", 0)

    def find(self, name, n=None, pt=None):
        c = [f for f in self.ctx.fns(self.cls + "::" + name) if f.get("b") is not None and (n is None or len(f["p"]) == n) and (pt is None or pt in f["p"][0]["t"])]
        if not c:
            raise AnalysisError("anchor vanished: %s::%s" % (self.cls, name))
        return c[0]

    def made(self):
        s = Shaped(self.ctx, self.ctor, None, [])
        s.ev.known = self.given
        s.ev.sink = True
        return s

    vals = {}

    def given(self, fn, o, args):
        """the settings: keys that are there, and their values"""
        if not fn["n"].startswith(OBJ + "::") or o is None:
            return None
        n = re.sub(r"<.*", "", fn["n"][len(OBJ) + 2:])
        if o is sym("O") and len(args) == 1 and isc(args[0]) and args[0].a[0].__class__ is str:
            if n == "existsName":
                return C(args[0].a[0] in self.vals)
            if n == "operator()" and args[0].a[0] in self.vals:
                return sym("O@" + args[0].a[0])
            return None
        if o.k == "sym" and str(o.a[0]).startswith("O@"):
            v = self.vals[o.a[0][2:]]
            t = (fn.get("ret") or fn.get("rt") or "").replace("const", "").strip(" &")
            g = n if n != "get" else KIND.get(t, S if "string" in t else None)
            if n == "isNull":
                return FALSE
            if g in (B, R, I, S):
                return v[1] if v[0] == g else sym("%s of %s" % (g, o.a[0]))
        return None

    def set(self, s, vals):
        self.vals = vals
        return s.then(self.find("set", 1), [sym("O")])

    def get(self, s, name, *args):
        if s.r.st is None:
            return None
        q = s.then(self.find(name, len(args)), list(args))
        if q.r.st is None or q.limit or any(t[0] is not FALSE for t in q.r.throws):
            return None
        return q.ev.val(q.r.st, q.r.ret) if q.r.ret is not None else None

    def judge(self, inst, s, got, want, f):
        ok = None
        msg = ""
        if s.limit:
            msg = "the paths are too many"
        elif s.r.st is None or any(t[0] is TRUE for t in s.r.throws):
            ok, msg = False, "is refused"
        elif any(t[0] is not FALSE for t in s.r.throws):
            msg = "may be refused"
        elif got is not None:
            if got is want:
                ok = True
            elif isc(got) and isc(want):
                a, b = got.a[0], want.a[0]
                ok = a == b or a.__class__ in (int, float, bool) and b.__class__ in (int, float, bool) and abs(a - b) <= 1e-9 * max(1, abs(b))
            elif want.k == "sym" and (isc(got) or got.k == "sym"):
                ok = False
            elif got.k == "fld" and got.a[0].k == "obj" and got is not want:
                ok = False      # a member of the options nobody has set
            elif want.k == "sym" and not vague(got):
                # the value must be the one given, whatever it is
                try:
                    ok = all(close(ceval(s.ev, got, {want.a[0]: v}), v) for v in (-3.5, 0., .4, 1., 2.75, 1e9))
                    ok = None if ok else False
                except NoVal:
                    ok = None
            msg = "is %s, should be %s" % (str(got)[:200], str(want)[:100])
        self.ctx.ob("options", "%s.%s" % (self.label, inst), ok, msg, self.ctx.loc(f))

    def refused(self, inst, s, f):
        ok = True if s.r.st is None or any(t[0] is TRUE for t in s.r.throws) else False if not s.r.throws and not s.limit else None
        self.ctx.ob("options", "%s.%s" % (self.label, inst), ok, "is not refused", self.ctx.loc(f))


def table(o, T_, tag, vals, want):
    """all queries, on given settings"""
    f = o.find("set", 1)
    s = o.set(o.made(), vals)
    for g, w in want.items():
        o.judge("%s, %s" % (tag, g), s, o.get(s, g), w, f)
    return s


def keys(o, rows, defaults):
    """each key alone, then all"""
    f = o.find("set", 1)
    s = o.made()
    for g, w in defaults.items():
        o.judge("made, %s" % g, s, o.get(s, g), w, o.ctor)
    allv, allw = {}, dict(defaults)
    for key, kind, g, setter in rows:
        vs = [C(True), C(False)] if kind == B else [sym("V" + key)]
        for v in vs:
            d = dict(defaults)
            d[g] = v
            table(o, None, "%s%s alone" % (key, " " + str(v) if kind == B else ""), {key: (kind, v)}, d)
            if setter:
                fs = o.find(setter, 1)
                q = o.made().then(fs, [v])
                for g2, w in d.items():
                    o.judge("%s %s, %s" % (setter, v, g2), q, o.get(q, g2), w, fs)
        nv = C(not defaults[g].a[0]) if kind == B else vs[0]
        allv[key], allw[g] = (kind, nv), nv
    s = table(o, None, "all keys", allv, allw)
    # settings given later change only what they mention
    for key, kind, g, _ in rows:
        v = C(not allw[g].a[0]) if kind == B else sym("again")
        q = o.set(s, {key: (kind, v)})
        for g2, w in dict(allw, **{g: v}).items():
            o.judge("%s again, %s" % (key, g2), q, o.get(q, g2), w, f)
        if kind == B:
            q = o.set(q, {key: (kind, allw[g])})
            o.judge("%s back, %s" % (key, g), q, o.get(q, g), allw[g], f)
    q = o.set(s, {})
    for g2, w in allw.items():
        o.judge("none again, %s" % g2, q, o.get(q, g2), w, f)


def solver(ctx):
    o = Opts(ctx, "SEMBA::Solver::Options", "solver")
    rows = [("runSimulation", B, "isRunSimulation", "setRunSimulation"), ("timeStep", R, "getTimeStep", "setTimeStep"), ("cfl", R, "getCFL", "setCFL"), ("defaultSamplingPeriod", R, "getSamplingPeriod", "setSamplingPeriod"),
            ("forceRestarting", B, "isForceRestarting", "setForceRestarting"), ("resumeSimulation", B, "isResumeSimulation", "setResumeSimulation"), ("flush", R, "getFlush", "setFlush"),
            ("additionalArguments", S, "getAdditionalArguments", "setAdditionalArguments")]
    D = {"isRunSimulation": C(True), "getTimeStep": C(0.), "getCFL": C(.8), "getSamplingPeriod": C(0.), "isForceRestarting": C(False), "isResumeSimulation": C(False), "getFlush": C(0.), "getAdditionalArguments": C("")}
    keys(o, rows, D)
    f = o.find("set", 1)
    T_ = sym("T")
    s = o.set(o.made(), {"finalTime": (R, T_)})
    o.judge("final time", s, o.get(s, "getFinalTime"), T_, f)
    for t, dt, n in itertools.product((None, 0., 1.6, 4.), (None, 0., .25, 3.), (None, 0, 7)):
        v = {}
        if t is not None:
            v["finalTime"] = (R, C(t))
        if dt is not None:
            v["timeStep"] = (R, C(dt))
        if n is not None:
            v["numberOfTimeSteps"] = (I, C(n))
        s = o.set(o.made(), v)
        tag = "final time %s, step %s, %s steps" % (t, dt, n)
        ft = (n * (dt or 0.)) if n is not None else t or 0.
        ns = n if n is not None else math.ceil((t or 0.) / dt) if dt else 0
        o.judge(tag + ", getFinalTime", s, o.get(s, "getFinalTime"), C(float(ft)), f)
        o.judge(tag + ", getNumberOfTimeSteps", s, o.get(s, "getNumberOfTimeSteps"), C(ns), f)
        if t is not None and n is not None:
            q = s.then(o.find("setFinalTime", 1), [C(t)])
            o.judge(tag + ", final time set again", q, o.get(q, "getFinalTime"), C(t), o.find("setFinalTime", 1))
    # the ending given last is the one that counts
    s = o.set(o.set(o.made(), {"numberOfTimeSteps": (I, C(7)), "timeStep": (R, C(.5))}), {"finalTime": (R, C(9.))})
    o.judge("steps, then final time, getFinalTime", s, o.get(s, "getFinalTime"), C(9.), f)
    o.judge("steps, then final time, getNumberOfTimeSteps", s, o.get(s, "getNumberOfTimeSteps"), C(18), f)
    s = o.set(o.set(o.made(), {"finalTime": (R, C(9.))}), {"numberOfTimeSteps": (I, C(7)), "timeStep": (R, C(.5))})
    o.judge("final time, then steps, getFinalTime", s, o.get(s, "getFinalTime"), C(3.5), f)
    o.judge("final time, then steps, getNumberOfTimeSteps", s, o.get(s, "getNumberOfTimeSteps"), C(7), f)
    fa = o.find("toStr", 0)
    for run, res, frc in itertools.product((True, False), repeat=3):
        s = o.set(o.made(), {"runSimulation": (B, C(run)), "resumeSimulation": (B, C(res)), "forceRestarting": (B, C(frc)), "finalTime": (R, C(6.5)), "timeStep": (R, C(.25)), "cfl": (R, C(.75)), "defaultSamplingPeriod": (R, C(1.5)), "flush": (R, C(4.5)),
                                  "additionalArguments": (S, C("-q"))})
        t = o.get(s, "toStr")
        if t is None or not isc(t) or t.a[0].__class__ is not str:
            o.judge("text of %s" % ((run, res, frc),), s, None, TRUE, fa)
            continue
        lines = [[x.strip() for x in l.split(":", 1)] for l in t.a[0].split("\n") if ":" in l]
        for w, v in (("run", run), ("resume", res), ("restart", frc), ("ending|final", 6.5), ("step", .25), ("cfl", .75), ("sampling", 1.5), ("flush", 4.5), ("argument", "-q")):
            c = [l[1] for l in lines if re.search(w, l[0].lower())]
            g = C(c[0]) if len(c) == 1 else None
            o.judge("text of %s, %s" % ((run, res, frc), w), s, g, C(v if v.__class__ is str else "%g" % v), fa)
    fa = o.find("toArgsStr", 0)
    for cfl, res, frc, fl, (t, dt) in itertools.product((None, .5), (None, True), (None, True), (None, 2.5), ((0., 0.), (9., 0.), (1.7, .25))):
        v = {"finalTime": (R, C(t)), "timeStep": (R, C(dt))}
        w = ""
        if cfl:
            v["cfl"] = (R, C(cfl))
            w += " -cfl 0.5"
        if res:
            v["resumeSimulation"] = (B, C(True))
            w += " -r %d" % math.floor(t / dt if dt else t)
        if frc:
            v["forceRestarting"] = (B, C(True))
            w += " -s"
        if fl:
            v["flush"] = (R, C(fl))
            w += " -flush 2.5"
        s = o.set(o.made(), v)
        o.judge("arguments of %s" % {k: x[1].a[0] for k, x in v.items()}, s, o.get(s, "toArgsStr"), C(w), fa)


def mesher(ctx):
    P = ctx.P
    o = Opts(ctx, "SEMBA::Mesher::Options", "mesher")
    en = lambda e, n: C(enumval(P, "SEMBA::Mesher::Options::" + e, n))
    rows = [("contourRefinement", B, "isContourRefinement", "setContourRefinement"), ("snap", B, "isSnap", "setSnap"), ("unwantedConnectionsInfo", B, "isUnwantedConnectionsInfo", "setUnwantedConnectionsInfo"),
            ("structuredCellsInfo", B, "isStructuredCellsInfo", "setStructuredCellsInfo"), ("vtkExport", B, "isVtkExport", "setVtkExport"), ("postmshExport", B, "isPostmshExport", "setPostmshExport"),
            ("postsmbExport", B, "isPostsmbExport", "setPostsmbExport"), ("slantedWires", B, "isSlanted", "setSlanted"), ("slantedThreshold", R, "getSlantedThreshold", "setSlantedThreshold"),
            ("forbiddenLength", R, "getForbiddenLength", "setForbiddenLength"), ("geometryScalingFactor", R, "getScalingFactor", "setScalingFactor")]
    D = {"isContourRefinement": C(False), "isSnap": C(False), "isUnwantedConnectionsInfo": C(False), "isStructuredCellsInfo": C(False), "isVtkExport": C(False), "isPostmshExport": C(True), "isPostsmbExport": C(False),
         "isSlanted": C(False), "getSlantedThreshold": C(1.), "getForbiddenLength": C(1.), "getScalingFactor": C(1.), "getMesher": en("Mesher", "DMesher"), "getMode": en("Mode", "structured"), "isStructured": C(True),
         "isRelaxed": C(False), "getSubgridPoints": C(0), "isGridStepSet": C(False), "getOutputName": C("")}
    keys(o, rows, D)
    f = o.find("set", 1)
    for n in (0, 3, 12):
        d = dict(D, getSubgridPoints=C(n))
        table(o, None, "subgridPoints %d" % n, {"subgridPoints": (I, C(n))}, d)
    for m in ("AMesher", "DMesher", "HMesher"):
        table(o, None, "mesher %s" % m, {"mesher": (S, C(m))}, dict(D, getMesher=en("Mesher", m)))
    for m in ("structured", "relaxed", "slanted", "conformal"):
        w = dict(D, getMode=en("Mode", m), isStructured=C(m == "structured"), isRelaxed=C(m in ("slanted", "relaxed")))
        table(o, None, "mode %s" % m, {"mode": (S, C(m.capitalize()))}, w)
    for k in ("mesher", "mode", "lowerXBound", "upperZBound"):
        for l in ("", "x", "structured", "amesher", "pec", "PEC ", "AMesher Structured"):
            o.refused("%s '%s'" % (k, l), o.set(o.made(), {k: (S, C(l))}), f)
    for nm, w in (((0., 0., 0.), False), ((0., 2., 0.), True), ((1., 1., 1.), True)):
        fs = o.find("setGridStep", 1)
        c = "SEMBA::Math::Vector::Cartesian<double, 3>"
        s = o.made()
        s = s.then(fs, [sym("step")], [(el(fld(sym("step"), c + "::val"), C(i)), C(x)) for i, x in enumerate(nm)], {sym("step"): c})
        o.judge("grid step %s" % (nm,), s, o.get(s, "isGridStepSet"), C(w), fs)
    labels = {"PEC": "PEC", "PMC": "PMC", "PML": "PML", "Periodic": "Periodic", "MUR1": "Mur1", "MUR2": "Mur2"}
    BD = "SEMBA::PhysicalModel::Bound::"
    ends = [(d, p) for d in range(3) for p in range(2)]
    key = lambda d, p: ("lower", "upper")[p] + "XYZ"[d] + "Bound"

    def bounds(tag, s, want, f):
        for d, p in ends:
            t = o.get(s, "getBoundTermination", C(d), C(p))
            if t is not None:
                # the array of owners is made of owners of nothing
                t = subst(t, {x: C(None) for x in subterms(t) if x.k == "el" and x.a[0].k == "el" and x.a[0].a[0].k == "call" and "array(ctor)" in x.a[0].a[0].a[0]})
                t = t.a[1] if t.k == "dyn" and t.a[1] is C(None) else t
            t = t if t is None or t is C(None) else mk("c", clsof(P, t) or "?") if t.k in ("obj", "sym") else None
            o.judge("%s, end %d of axis %d" % (tag, p, d), s, t, want.get((d, p), C(None)), f)
    s = o.made()
    bounds("made", s, {}, o.ctor)
    for i, (l, c) in enumerate(labels.items()):
        d, p = ends[i]
        s = o.set(o.made(), {key(d, p): (S, C(l))})
        bounds("%s %s" % (key(d, p), l), s, {(d, p): C(BD + c)}, f)
        ts = o.find("toStr", 1, "Bound")
        q = Shaped(ctx, ts, None, [mk("obj", 77, BD + c)])
        q.ev.objs[mk("obj", 77, BD + c)] = dict(cls=BD + c, args=[], line=0, usr=None, heap=False, fn=None)
        q = q.then(ts, [mk("obj", 77, BD + c)])
        o.judge("name of %s" % c, q, q.ev.val(q.r.st, q.r.ret) if q.r.st is not None else None, C(l), ts)
    six = list(labels.items())
    s = o.set(o.made(), {key(d, p): (S, C(six[i][0])) for i, (d, p) in enumerate(ends)})
    bounds("all ends", s, {e: C(BD + six[i][1]) for i, e in enumerate(ends)}, f)
    s = o.set(s, {key(1, 0): (S, C("PEC"))})
    bounds("one end again", s, dict({e: C(BD + six[i][1]) for i, e in enumerate(ends)}, **{}) | {(1, 0): C(BD + "PEC")}, f)


def check(ctx):
    solver(ctx)
    mesher(ctx)
