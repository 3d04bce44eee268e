"""C20 constructors leave nothing undefined"""
from lib import *

EXPL = ("Every constructor, but for the copying ones, of every class there can be objects of is evaluated on unknown arguments, constructors of bases and helpers inlined; "
        "each number, flag, enumeration and pointer of the object (inherited, and in arrays, too) has then been given a value on every path.")
FLOOR = 870
SC = re.compile(r"^(const )?(bool|char|int|unsigned int|unsigned long|long|double|float|unsigned char|short)$")


def array(t):
    m = re.match(r"^(.*?) ?\[(\d+)\]$", t) or re.match(r"^std::array<(.*), (\d+)>$", t)
    return (m.group(1), int(m.group(2))) if m else (None, 0)


def scalar(P, f, t=None):
    t = t or f["t"]
    if f.get("static") or t.endswith("&"):
        return False
    e, n = array(t)
    if e:
        return scalar(P, f, e)
    return bool(SC.match(t)) or t.endswith("*") or bool(f.get("pod") and t not in P.recs and not t.startswith("std::") and "[" not in t and "(" not in t)


def chain(P, c, seen):
    if c in seen or c not in P.recs:
        return
    seen.add(c)
    yield c
    for b in P.recs[c].get("bases", ()):
        yield from chain(P, b["n"], seen)


def last(m):
    return m["n"].split("::")[-1]


def abstract(P, c):
    """a pure function stays without a body: there are no objects of the class itself"""
    ks = list(chain(P, c, set()))
    up = {k: set(chain(P, k, set())) for k in ks}
    for k in ks:
        for m in P.recs[k].get("methods", ()):
            if m.get("pure") and last(m) not in ("(dtor)", "(ctor)"):
                if not any(j != k and k in up[j] and any(last(x) == last(m) and not x.get("pure") for x in P.recs[j].get("methods", ())) for j in ks):
                    return True
    return False


def foreign(P, c):
    """classes on top of texts, which are one value to the evaluation"""
    return any(b["n"] not in P.recs and "basic_string" in b["n"] for k in chain(P, c, set()) for b in P.recs[k].get("bases", ()))


def cells(o, k, g):
    l = fld(o, k + "::" + g["n"])
    e, n = array(g["t"])
    return [mk("el", l, C(i)) for i in range(n)] if e else [l]


def verdict(v, l):
    if v is l:
        return False
    if not any(x is l for x in subterms(v)):
        return True
    # one condition decides whether a value is given
    if v.k == "ite" and v.a[0].k != "c" and not vague(v.a[0]) and not any(x is l for x in subterms(v.a[0])):
        a, b = v.a[1], v.a[2]
        if (a is l) != (b is l) and (b if a is l else a).k != "ite" and not any(x is l for x in subterms(b if a is l else a)):
            return False
    return None


def check(ctx):
    P = ctx.P
    for c in sorted(P.recs):
        if not c.startswith("SEMBA::") or c.startswith("SEMBA::Exporter::GiD") or abstract(P, c) or foreign(P, c):
            continue
        fs = [(k, f) for k in chain(P, c, set()) for f in P.recs[k].get("fields", ()) if scalar(P, f)]
        if not fs:
            continue
        for f in ctx.fns(c + "::(ctor)"):
            if f.get("b") is None and not f.get("init"):
                continue
            if len(f["p"]) == 1 and f["p"][0]["t"].replace("const ", "").rstrip(" &") == c:
                continue
            if re.match(r"SEMBA::Math::Vector::Cartesian<\w+, [12]>$", c) and len(f["p"]) == 3:
                continue        # refused at compile or run time: three components are for D == 3
            s = Shaped(ctx, f, None, [sym("p%d" % i) for i in range(len(f["p"]))], budget=60000)
            if s.limit or s.r.st is None:
                continue
            tag = "%s(%s)" % (c[7:], ", ".join(p["t"].replace("SEMBA::", "") for p in f["p"]))
            for k, g in fs:
                cs = cells(s.o, k, g)
                for i, l in enumerate(cs):
                    ok = verdict(s.ev.load(s.r.st, l), l)
                    n = g["n"] + ("[%d]" % i if len(cs) > 1 else "")
                    ctx.ob("defined", "%s: %s" % (tag, n), ok, "is left undefined" if ok is False else "", ctx.loc(f))
