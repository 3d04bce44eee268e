"""C08 copies: copy construction, assignment and clone() keep every member"""
from lib import *
import re
from rules.C05 import bsn

EXPL = ("For every concrete class with a copy constructor or copy assignment the operation is evaluated on a symbolic original, base classes and virtual bases included, "
        "and every data member of the complete object must equal the same member of the original (a deep copy or clone of what a pointer designates counts as equal, a container must be filled from the original). "
        "clone() of every concrete cloneable class must be defined by that very class and create an object of that class from the original.")
FLOOR = 150


def inl8(f):
    if "/src/" not in f["file"]:
        return False
    n = f["n"].split("::")[-1]
    if f["n"] == "SEMBA::FileSystem::Project::operator=":
        return False                # its string base is the object itself
    if f.get("ctor") or n == "operator=":
        return None
    if n in ("copy_", "move_", "clear_"):
        return None
    return None if len(str(f.get("b"))) < 4000 else False


def hier(P, cls):
    return [cls] + list(dict.fromkeys(P.bases(cls)))


def fields(P, cls):
    for c in hier(P, cls):
        for f in P.recs.get(c, {"fields": ()})["fields"]:
            if not f.get("static"):
                yield c, f


def rec_of(P, t):
    t = t.replace("const ", "").strip()
    return t if t in P.recs and not isstd(t) else None


ARR = re.compile(r"^(.*)\[(\d+)\]$")
SARR = re.compile(r"^std::array<(.*), (\d+)>$")


def same(ctx, ev, st, a, b, ty, root, d=0):
    """does location a hold a copy of what location b holds: (True/False/None, text)"""
    P = ctx.P
    x, y = ev.load(st, a), ev.load(st, b)
    if x is y or x is b:
        return True, ""
    if canon(ev, x) == canon(ev, y):
        return True, ""
    r = rec_of(P, ty)
    if d > 6:
        return None, "too deep"
    if r and "SEMBA::Group::" in r or r and any("SEMBA::Group::" in c for c in P.bases(r)):
        return filled(ev, st, a, b, root)
    if r:
        res = True
        if x.k == "obj" and y is not None:
            c = copied_from(ev, x, b, root)
            if c:
                return True, ""
        for c, f in fields(P, r):
            ok, m = same(ctx, ev, st, fld(x if x.k == "obj" else a, c + "::" + f["n"]), fld(b, c + "::" + f["n"]), f["t"], root, d + 1)
            if ok is False:
                return False, f["n"] + " " + m
            if ok is None:
                res = None
        return res, ""
    m = ARR.match(ty) or SARR.match(ty)
    if m:
        res = True
        for i in range(min(int(m.group(2)), 100)):
            ok, t = same(ctx, ev, st, el(a, C(i)), el(b, C(i)), m.group(1), root, d + 1)
            if ok is False:
                return False, "[%d] %s" % (i, t)
            if ok is None:
                res = None
        return res, ""
    if ty.rstrip().endswith("*"):
        ok = True
        for c, l in leaves(x):
            if l is NULL:
                # null only where the original is null
                e = eq(b, NULL)
                if isc(subst(c, {e: FALSE})) and not subst(c, {e: FALSE}).a[0]:
                    continue
                t = text(c, 100)
                if "rhs" in t:
                    ok = None if ok else ok
                    continue
                return False, "is null when the original is not"
            if l is b or l is y:
                continue
            if copied_from(ev, l, b, root):
                continue
            if any(z is b for z in subterms(l)):
                continue
            if l.k in ("obj",) and ev.objs.get(l, {}).get("heap"):
                ok = None if ok else ok
                continue
            if vague(l):
                ok = None if ok else ok
                continue
            return False, "is %s" % canon(ev, l)[:120]
        return ok, ""
    if ty.startswith("std::"):
        return mentions(ev, x, root, b)
    if any(z.k == "uninit" for z in subterms(x)):
        return False, "is left undetermined"
    if x.k in ("fld", "el") and not any(z is root for z in subterms(x)):
        return False, "keeps its own value"
    if vague(x):
        return None, canon(ev, x)[:120]
    ls = [l for c, l in leaves(x)]
    if all(l is y or l is b for l in ls):
        return True, ""
    return False, "is %s" % canon(ev, x)[:150]


def filled(ev, st, a, b, root):
    """a group member: its elements are those of the same group of the original, or clones of them"""
    got = None
    for ef, pc, loops, stk in flat(ev.cur.trace):
        if ef[0] == "set" and ef[1].k == "fld" and str(ef[1].a[1]).split("::")[-1] == "element_" and any(z is a for z in subterms(ef[1])):
            if loops:
                return None, "filled in a loop"
            got = ef[2]
        elif ef[0] == "call" and ef[3] is a and ef[1].split("::")[-1] not in ("postprocess_", "clear", "size", "get", "reserve") and "reassignPointers" not in ef[1]:
            got = mk("opaque", ef[1], *[x for x in ef[4] if isinstance(x, T)]) if not any(z is b for x in ef[4] if isinstance(x, T) for z in subterms(x)) else b
    if got is None:
        return (False, "keeps its own value") if a.k == "fld" and not any(z.k == "obj" for z in subterms(a)) and not any(
            ef[0] == "call" and ef[3] is a.a[0] for ef, *_ in flat(ev.cur.trace)) else (None, "is never filled")
    if any(z is b for z in subterms(got)):
        return True, ""
    if got.k == "opaque" or vague(got):
        return None, canon(ev, got)[:100]
    return False, "is filled with %s" % canon(ev, got)[:100]


def copied_from(ev, o, b, root):
    if o.k == "call" and any(z is b for z in o.a):
        return True
    rec = ev.objs.get(o)
    if rec and rec.get("args"):
        return any(any(z is b for z in subterms(x)) for x in rec["args"])
    return False


def mentions(ev, x, root, b):
    """a container: filled from the original"""
    ls = leaves(x)
    if len(ls) > 1:
        res, txt = True, ""
        for c, l in ls:
            ok, t = mentions(ev, l, root, b)
            if ok is False and any(z is b for z in subterms(c)):
                ok = None
            if ok is False:
                return False, t + " under some condition"
            if ok is None:
                res, txt = None, t
        return res, txt
    if x.k == "uninit":
        return False, "is default initialised"
    if any(z is b or z is root for z in subterms(x)):
        return True if any(z is b for z in subterms(x)) else None, ""
    if copied_from(ev, x, b, root):
        return True, ""
    if x.k in ("il", "call", "c", "obj", "map") and not vague(x):
        return False, "is %s" % canon(ev, x)[:100]
    return None, canon(ev, x)[:100]


def selfcheck(ev, c, lhs, rhs):
    return c.k == "eq" and len(c.a) == 2 and any(any(z is lhs for z in subterms(x)) and subst(x, {lhs: rhs}) is y for x, y in (c.a, c.a[::-1]))


def internal(c):
    return c.startswith("SEMBA::Group::")


def check(ctx):
    P = ctx.P
    copies(ctx)
    clones(ctx)


def scope(ctx):
    P = ctx.P
    for f in sorted(P.fns.values(), key=lambda f: (f["n"], f["u"])):
        if f.get("dep") or f.get("b") is None or not f.get("cls") or "/src/" not in f["file"] or "::Error" in f["n"]:
            continue
        if len(f["p"]) < 1:
            continue
        t = f["p"][0]["t"]
        if t.replace("const ", "").rstrip(" &") != f["cls"]:
            continue
        if any("i" not in p and "dflt" not in p and not p.get("def") for p in f["p"][1:]):
            continue
        kind = "copy" if f.get("ctor") else "assign" if f["n"].endswith("::operator=") else None
        if kind is None or len(f["p"]) > 1:
            continue
        if t.rstrip().endswith("&&"):
            kind = "move " + kind
        rec = P.recs.get(f["cls"])
        if not rec or rec.get("abs") and kind.endswith("copy"):
            continue
        if f["cls"].startswith("SEMBA::Group::"):
            continue
        yield f, kind


def copies(ctx):
    P = ctx.P
    n = 0
    for f, kind in scope(ctx):
        cls = f["cls"]
        fs = list(fields(P, cls))
        if not fs:
            continue
        rhs = sym("rhs")
        w = ctx.loc(f)
        lab = cls.replace("SEMBA::", "")
        facts = {}
        try:
            if kind.endswith("copy"):
                ev = ctx.ev(inl8)
                o = mk("obj", 0, cls)
                ev.objs[o] = dict(cls=cls, args=[], line=0, usr=None, heap=False, fn=None)
                r = ev.run(f, o, [rhs], State())
            else:
                o = sym("lhs")
                for _ in range(4):
                    ev = ctx.ev(inl8)
                    st = State()
                    for c, v in facts.items():
                        ev.assume(st, c, v)
                    r = ev.run(f, o, [rhs], st)
                    new = {c: False for c in conds_of(r) if c not in facts and selfcheck(ev, c, o, rhs)}
                    if not new:
                        break
                    facts.update(new)
        except Limit:
            ctx.ob("every member kept by the " + kind, lab, None, "too large", w)
            continue
        if r.st is None:
            ctx.ob("every member kept by the " + kind, lab, None, "no normal end", w)
            continue
        n += 1
        ev.cur = r
        for c, fd in fs:
            if internal(c):
                ok, m = None, ""
                x = ev.load(r.st, fld(o, c + "::" + fd["n"]))
                if fd["n"] == "element_":
                    ok, m = mentions(ev, x, rhs, fld(rhs, c + "::" + fd["n"]))
                    if ok is None and any(z is rhs for z in subterms(x)):
                        ok = True
                    if ok is False and any(t[0] == "loop" for t in r.trace):
                        ok = None
                    ctx.ob("every member kept by the " + kind, "%s: elements" % lab, ok, m, w)
                continue
            ok, m = same(ctx, ev, r.st, fld(o, c + "::" + fd["n"]), fld(rhs, c + "::" + fd["n"]), fd["t"], rhs)
            if facts and ok is False:
                pass
            ctx.ob("every member kept by the " + kind, "%s: %s%s" % (lab, "" if c == cls else c.replace("SEMBA::", "") + "::", fd["n"]), ok,
                   "%s of the copy %s" % (fd["n"], m), w)
        anchored(ctx, ev, r, o, fs, kind, lab, w)
    ctx.counts["copy operations"] = n
    if n < 60:
        raise AnalysisError("only %d copy operations found" % n)


def anchored(ctx, ev, r, o, fs, kind, lab, w):
    """a mesh's own elements point to its own coordinates and layers: the last thing done to each"""
    own = {fd["n"]: fld(o, c + "::" + fd["n"]) for c, fd in fs if fd["n"] in ("coords_", "elems_", "layers_")}
    if len(own) < 3 or kind.startswith("move"):
        return
    for k in ("coords_", "layers_"):
        last, filledat, els = None, -1, False
        for i, (ef, pc, loops, stk) in enumerate(flat(r.trace)):
            if ef[0] == "set" and ef[1].k == "fld" and str(ef[1].a[1]).endswith("::element_") and any(z is own[k] or z is own["elems_"] for z in subterms(ef[1])):
                filledat = i
            if ef[0] in ("call", "inl") and "::reassignPointers" in ef[1] and (ef[3] if ef[0] == "call" else ef[5 - 1]) is own["elems_"]:
                args = ef[4] if ef[0] == "call" else ef[3]
                if len(args) == 1 and any(z is own[k] for z in subterms(args[0])):
                    last = i
        ctx.ob("elements of the copy anchored to the copy", "%s: %s, %s" % (lab, kind, k), last is not None and last > filledat,
               "elements are %s their own %s" % ("never reassigned to" if last is None else "reassigned too early to", k), w)


def clones(ctx):
    P = ctx.P
    n = 0
    for root in ("SEMBA::Class::Cloneable", "SEMBA::Math::Function::Base"):
        for cls in sorted(P.derived(root)):
            r = P.recs.get(cls)
            if not r or r.get("abs") or r.get("dep") or "/src/" not in r["file"]:
                continue
            if re.search(r"<[A-Z]\w*(, [A-Z]\w*)*>$", cls) or internal(cls):
                continue
            own = [f for f in P.byname.get(cls + "::clone", []) if not f.get("dep") and not f["p"]]
            lab = cls.replace("SEMBA::", "")
            w = "%s:%s" % (P.rel(r), r["line"])
            decl = [m for m in r["methods"] if m["n"].split("::")[-1] == "clone"]
            if not decl:
                # final overrider lives in a base class: the clone is sliced
                ctx.ob("clone is of the class of the original", lab, False, "the class does not define clone(): its clones are made by a base class", w)
                continue
            if not own or own[0].get("b") is None:
                ctx.ob("clone is of the class of the original", lab, None, "not instantiated", w)
                continue
            n += 1
            f = own[0]
            ev = ctx.ev(lambda g: False)
            this = sym("original")
            res = ev.run(f, this, [], State())
            ls = [l for c, l in leaves(res.ret)] if res.ret is not None else []
            if len(ls) != 1 or ls[0].k != "obj":
                ctx.ob("clone is of the class of the original", lab, None, "returns %s" % [canon(ev, x)[:80] for x in ls], ctx.loc(f))
                continue
            ctx.ob("clone is of the class of the original", lab, ls[0].a[1].replace("const ", "") == cls, "creates %s" % ls[0].a[1], ctx.loc(f))
            a = ev.objs[ls[0]].get("args") or []
            c = [canon(ev, x) for x in a]
            if a and a[0] is this:
                ctx.ob("clone copies the original", lab, True, "", ctx.loc(f))
            else:
                ok = True if any(any(z is this for z in subterms(x)) or "original" in y for x, y in zip(a, c)) else None if any(vague(x) for x in a) else False
                ctx.ob("clone copies the original", lab, ok, "constructed from %s" % str(c)[:200], ctx.loc(f))
    if n < 40:
        raise AnalysisError("only %d clone functions found" % n)
    # groups clone every element
    for f in P.fns.values():
        if f["n"].endswith("::cloneElems") and not f.get("dep") and f.get("b") is not None:
            ev = ctx.ev(lambda g: False)
            this = sym("group")
            r = ev.run(f, this, [], State())
            lab = f["cls"].replace("SEMBA::", "")
            got = []
            for ef, pc, loops, stack in flat(r.trace):
                if ef[0] == "call" and bsn(ef[1]) in ("add", "addId", "push_back") and loops:
                    got.append((ef[4][0], pc, loops))
            if len(got) != 1:
                ctx.ob("every element of a group cloned", lab, None, "%d additions" % len(got), ctx.loc(f))
                continue
            t, pc, loops = got[0]
            v, cont = wholeloop(ev, loops[-1])
            c = canon(ev, t)
            isclone = any(x.k == "call" and x.a[0].split("::")[-1] == "clone" for x in subterms(t))
            ctx.ob("every element of a group cloned", lab, False if v is False else True if v and isclone else None, "adds %s" % c[:150], ctx.loc(f))
