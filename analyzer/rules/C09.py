"""C09 groups: contents and identifier index after every operation"""
from lib import *
import re

EXPL = ("Every operation of the group templates is evaluated with helper functions and virtual calls inlined. Loops are brought to the form 'for every element of a container from a start position: "
        "these effects under these conditions'; the resulting contents of the group, the identifier index, the last identifier and the refusals are compared with the specification of the operation, "
        "each condition being evaluated for every combination of (identifier zero or not, known or not, above or below the last one).")
FLOOR = 60


def inl9(f):
    return None if "/src/core/group/" in f["file"] or "/src/core/class/" in f["file"] else False


ELT = "@e.id_.id_"


class Op:
    """one evaluated operation of a group"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.w = ctx.loc(f)
        P = ctx.P
        self.cls = f["cls"]
        self.ev = ev = ctx.ev(inl9)
        self.gcls = [c for c in [self.cls] + P.bases(self.cls) if c.startswith("SEMBA::Group::Group<")][0]
        if f.get("ctor"):
            self.o = mk("obj", 0, self.cls)
            ev.objs[self.o] = dict(cls=self.cls, args=[], line=0, usr=None, heap=False, fn=None)
        else:
            self.o = sym("G")
            ev.dyncls[self.o] = self.cls
        self.args = [sym(p["n"] or "a%d" % i) for i, p in enumerate(f["p"])]
        for a, p in zip(self.args, f["p"]):
            # an argument that is a group is a plain group of its static type
            t = re.sub(r"^const ", "", p["t"]).rstrip(" &")
            if t in P.recs and "SEMBA::Group::" in t:
                ev.dyncls[a] = t
        st = State()
        self.other = {}
        self.r = ev.run(f, self.o, self.args, st)
        # an operation on another object than itself
        self.selfs = {c for c in conds_of(self.r) if c.k == "eq" and self.o in c.a and not any(isc(x) for x in c.a)}
        self.facts = {c: FALSE for c in self.selfs}

    def sub(self, t):
        return subst(t, self.facts)

    def fin(self, name):
        """final value of a member"""
        cls = self.gcls if name == "element_" else [c for c in [self.cls] + self.ctx.P.bases(self.cls) if c.startswith("SEMBA::Group::Identifiable<")][0]
        return self.sub(self.ev.load(self.r.st, fld(self.o, cls + "::" + name))) if self.r.st is not None else None

    def flat(self):
        for ef, pc, loops, stk in flat(self.r.trace):
            c = self.sub(pc)
            if not (isc(c) and not c.a[0]):
                yield ef, c, loops

    def within(self, lid):
        """effects of the body of a loop with their condition inside it, @e/@i written"""
        sp = span(self.ev, lid)
        for ef, c, loops in self.flat():
            if loops == (lid,) and sp is not None:
                yield ef, atcur(self.ev, sp, c), sp

    def idxloops(self):
        """loops that write the identifier index"""
        out = []
        for ef, c, loops in self.flat():
            if ef[0] in ("set", "call") and len(loops) == 1 and self.mapwrite(ef) and loops[0] not in out:
                out.append(loops[0])
        return out

    def mapwrite(self, ef):
        """(key, value) written to the index by an effect"""
        if ef[0] == "set" and ef[1].k == "el" and self.ismap(ef[1].a[0]):
            return ef[1].a[1], ef[2]
        if ef[0] == "set" and ef[1].k == "fld" and self.ismap(ef[1]) and ef[2].k == "m" and str(ef[2].a[0]).split("::")[-1] in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            a = ef[2].a[2:]
            if len(a) == 1 and a[0].k == "pair":
                return a[0].a[0], a[0].a[1]
            if len(a) == 2:
                return a[0], a[1]
            return mk("unk"), mk("unk")
        return None

    def ismap(self, t):
        return any(x.k == "fld" and str(x.a[1]).endswith("::mapId_") for x in subterms(t))


def ceq(ev, a, b):
    return canon(ev, a) == b


def ids(ev, t, sp=None):
    """numeric value of an identifier object, as text"""
    if t.k == "obj" and t in ev.idval and sp is not None:
        t = atcur(ev, sp, ev.idval[t])
        return ids(ev, t, sp) if t.k == "obj" else canon(ev, t)
    c = canon(ev, t)
    m = re.match(r"^id\((.*)\)$", c)
    return m.group(1) if m else c


def scen(op, idv, present, last, sp=None):
    """environment for conditions about the current element's identifier"""
    ev = op.ev

    def env(t):
        if t.k in ("call", "count") and (t.k == "count" or t.a[0].split("::")[-1] in ("count", "contains", "existId")) and any(op.ismap(x) or x.k == "sym" for x in t.a if isinstance(x, T)):
            return present if ids(ev, t.a[-1], sp) in (ELT, "@e", "id") else None
        if t.k == "eq" and any(x.k == "mend" for x in t.a) and any(x.k == "call" and x.a[0].split("::")[-1] == "find" for x in t.a):
            return not present
        if t.k in ("fld", "obj", "phi", "loopval", "sym"):
            c = ids(ev, t, sp)
            if c in (ELT,):
                return idv
            if t.k in ("phi", "fld") and any(x.k == "fld" and str(x.a[1]).endswith("::lastId_") for x in subterms(t)) and not any(x is CUR for x in subterms(t)):
                return last
        return None
    return env


def truth9(op, c, env):
    try:
        return bool(ceval(op.ev, c, env))
    except NoVal:
        return None


def index_loop(op, lid, start, cont, lab):
    """the loop registers every element of cont from start on"""
    ctx, ev, w = op.ctx, op.ev, op.w
    sp = span(ev, lid)
    rule = "identifier index covers every element"
    if sp is None:
        ctx.ob(rule, lab, None, "loop not recognised", w)
        return
    st, ct = canon(ev, op.sub(sp["start"])), canon(ev, op.sub(sp["cont"])) if sp["cont"] is not None else "?"
    okc = ct == cont
    oks = st == start
    full = sp.get("step", 1) == 1 and sp.get("off", 0) == 0 and not sp["brk"]
    ctx.ob(rule, lab + ": positions", True if okc and oks and full else None if not okc or sp["brk"] or vague(sp["start"]) and not oks else False,
           "indexes from %s to the size of %s%s, expected from %s" % (st[:80], ct[:120], "" if full else " with step or bound changed", start), w)
    body = list(op.within(lid))
    writes = [(op.mapwrite(ef), c) for ef, c, _ in body if op.mapwrite(ef)]
    throws = [(op.sub(atcur(ev, sp, t[0])), t[1]) for t in op.r.throws]
    inl = mk("inloop", lid)
    throws = [(subst(c, {x: TRUE for x in subterms(c) if x.k == "inloop"}), n) for c, n in throws]
    dloop = ev.loops[lid]["cond"]
    throws = [(subst(c, {atcur(ev, sp, op.sub(dloop)): TRUE}), n) for c, n in throws]
    lastset = [(ef[2], c) for ef, c, _ in body if ef[0] == "set" and ef[1].k == "fld" and any(x.k == "fld" and str(x.a[1]).endswith("::lastId_") for x in subterms(ef[1])) and not any(x is CUR for x in subterms(ef[1]))]
    for k, v in [x for x, c in writes]:
        key, val = ids(ev, atcur(ev, sp, k), sp), canon(ev, atcur(ev, sp, v))
        ctx.ob(rule, lab + ": entry", True if (key, val) == (ELT, "@i") else None if vague(k) or vague(v) or sp["kind"] != "idx" else False, "index[%s] = %s" % (key[:80], val[:80]), w)
    for idv in (0, 5):
        for present in (0, 1):
            for last in (3, 9):
                if idv == 0 and present:
                    continue            # a zero identifier is never indexed
                env = scen(op, idv, present, last, sp)
                name = "%s: id %s, %s%s" % (lab, "zero" if idv == 0 else "non zero", "already used" if present else "new", ", above the last one" if idv > last else "")
                want = "Zero" if idv == 0 else "Duplicated" if present else None
                oks = {}
                for e in freeenvs(ev, [c for c, n in throws] + [c for _, c in writes] + [c for _, c in lastset] + [v for v, _ in lastset], env):
                    for rule2, ok, msg in elem_case(op, sp, e, idv, last, want, throws, writes, lastset, body):
                        if rule2 not in oks or ok is False or ok is None and oks[rule2][0]:
                            oks[rule2] = (ok, msg)
                for rule2, (ok, msg) in oks.items():
                    ctx.ob(rule2, name, ok, msg, w)


def elem_case(op, sp, env, idv, last, want, throws, writes, lastset, body):
    """verdicts on what happens to one element"""
    ev = op.ev
    got, unk = set(), False
    for c, n in throws:
        v = truth9(op, c, env)
        if v is None:
            unk = True
        elif v:
            got.add(n.split("::Id::")[-1].split("<")[0])
    yield ("refused identifiers", True if not unk and got == ({want} if want else set()) else False if (want and not got and not unk) or (not want and got) or (got and want not in got) else None,
           "throws %s, expected %s" % (sorted(got), want))
    if want:
        return
    ws = [truth9(op, c, env) for _, c in writes]
    yield "identifier index covers every element", True if True in ws else None if None in ws or not writes else False, "no entry is written for it"
    rule = "last identifier is the greatest one"
    if not lastset:
        yield rule, None if any("max" in str(canon(ev, x)) for ef, c, _ in body for x in ef[1:] if isinstance(x, T)) else False if idv > last else True, "is never updated"
        return
    ls = [(v, truth9(op, c, env)) for v, c in lastset]
    if any(b is None for _, b in ls):
        yield rule, None, ""
        return
    now = last
    try:
        for v, b in ls:
            if b:
                now = ceval(ev, atcur(ev, sp, v), env)
        yield rule, now == max(idv, last), "becomes %s when the element's is %s and the last one %s" % (now, idv, last)
    except NoVal:
        yield rule, None, ""


def elems(op, t):
    """comparable text of the contents of a group"""
    return canon(op.ev, t)


def appends(op, lab, what):
    """the operation appends the elements of its argument, in order, after the present ones and indexes them"""
    ctx, ev, w = op.ctx, op.ev, op.w
    x = op.fin("element_")
    base = fld(op.o, op.gcls + "::element_")
    ad = appended(x, base) if x is not None else None
    if ad is None and x is not None and x.k == "loopval":
        ff = fillform(ev, x)
        if ff and ff["adds"] is not None and ff["init"] is base and ff["span"]["whole"]:
            ad = [(c, "all" if v is CUR else k, op.ev.load(op.r.st, ff["span"]["cont"]) if v is CUR else v) for c, k, v in ff["adds"]]
    rhs = {"rhs": "rhs.element_", "elem": "elem"}[what]
    if ad is None:
        ok = False if x is not None and not vague(x) and base not in set(subterms(x)) else None
        ctx.ob("elements appended in order", lab, ok, "contents become %s" % canon(ev, x)[:200] if x is not None else "", w)
    else:
        txt = [(canon(ev, op.sub(c)), k, canon(ev, v)) for c, k, v in ad]
        if what == "rhs":
            ok = len(txt) == 1 and txt[0][0] == "True" and txt[0][1] == "all" and txt[0][2] == rhs
        else:
            ok = len(txt) == 1 and txt[0][1] == "one" and txt[0][2] == rhs and txt[0][0] in ("not(eq(elem, None))", "True")
        ctx.ob("elements appended in order", lab, True if ok else None if any(vague(v) or vague(c) for c, k, v in ad) else False, "appends %s" % str(txt)[:300], w)
    return x


def funs(ctx, cls, name, n=None, pred=None):
    return [f for f in ctx.P.byname.get(cls + "::" + name, []) if not f.get("dep") and f.get("b") is not None and (n is None or len(f["p"]) == n) and (pred is None or pred(f))]


def tmpl(ctx, prefix, name):
    """instantiated member functions (template arguments dropped) of classes whose name starts with prefix"""
    rx = re.compile(re.escape(prefix) + r".*>::" + re.escape(name) + r"(<.*>)?$")
    return sorted((f for f in ctx.P.fns.values() if not f.get("dep") and f.get("b") is not None and f["n"].startswith(prefix) and rx.match(f["n"])
                   and not re.match(r".*>::[A-Za-z_~]+::", f["n"][len(prefix):])), key=lambda f: (f["n"], f["u"]))


def check(ctx):
    P = ctx.P
    # one instantiation with mutable and one with constant elements of every template member
    def pick(fs, n=2):
        by = {}
        for f in fs:
            by.setdefault((f["line"], "<const " in f["cls"].split("Group::", 2)[-1]), []).append(f)
        out = []
        for k in sorted(by):
            out += by[k][:1]
        return out

    def every(prefix, name, need=1, nparams=None, pred=None):
        fs = [f for f in tmpl(ctx, prefix, name) if (nparams is None or len(f["p"]) == nparams) and (pred is None or pred(f))]
        if len(fs) < need:
            raise AnalysisError("anchor vanished: %s...::%s" % (prefix, name))
        for f in pick(fs):
            yield Op(ctx, f), "%s (%s)" % (name + "(" + ", ".join(("group&&" if p["t"].endswith("&&") else "group" if "Group::" in p["t"] else "list" if "vector" in p["t"] else "element" if "*" in p["t"] else "value") for p in f["p"]) + ")",
                                           "constant elements" if "<const " in f["cls"].split("Group::", 2)[-1] else "elements")
    I, G = "SEMBA::Group::Identifiable<", "SEMBA::Group::Group<"
    isgrp = lambda f: len(f["p"]) == 1 and "Group::Group<" in f["p"][0]["t"]
    # the index itself
    for op, lab in every(I, "postprocess_"):
        ls = op.idxloops()
        if len(ls) != 1:
            ctx.ob("identifier index covers every element", lab, None if ls else False, "%d loops write the index" % len(ls), op.w)
            continue
        index_loop(op, ls[0], op.f["p"][0]["n"], "G.element_", lab)
    # lookups
    for op, lab in every(I, "getId", nparams=1, pred=lambda f: "vector" not in f["p"][0]["t"]):
        for present in (0, 1):
            env = scen(op, 5, present, 3)
            th = [(truth9(op, op.sub(t[0]), env), t[1]) for t in op.r.throws]
            got = sorted(n.split("::Id::")[-1].split("<")[0] for v, n in th if v)
            ok = None if any(v is None for v, n in th) else got == ([] if present else ["NotExists"])
            ctx.ob("lookup by identifier", lab + (": known" if present else ": unknown"), ok, "throws %s" % got, op.w)
        if op.r.ret is not None:
            c = canon(op.ev, op.sub(op.r.ret))
            ctx.ob("lookup by identifier", lab + ": element", True if c == "G.element_[G.mapId_[id]]" else None if vague(op.r.ret) or "find" in c else False, "returns %s" % c[:200], op.w)
    for op, lab in every(I, "existId"):
        for present in (0, 1):
            v = truth9(op, op.sub(op.r.ret), scen(op, 5, present, 3))
            ctx.ob("lookup by identifier", "existId: " + ("known" if present else "unknown"), None if v is None else v == bool(present), "returns %s" % v, op.w)
    for op, lab in every(I, "getElemsId_"):
        ff = fillform(op.ev, op.r.ret)
        if not ff or ff["adds"] is None:
            ctx.ob("selection by identifiers", lab, None, canon(op.ev, op.r.ret)[:200], op.w)
            continue
        sp = ff["span"]
        ok = canon(op.ev, sp["cont"]) == "ids" and sp["whole"] if sp["cont"] is not None else None
        ctx.ob("selection by identifiers", lab + ": every identifier", ok, "runs over %s" % canon(op.ev, sp["cont"])[:80], op.w)
        for present in (0, 1):
            vs = [(truth9(op, c, scen(op, 5, present, 3)), canon(op.ev, v)) for c, k, v in ff["adds"]]
            got = [v for b, v in vs if b]
            ctx.ob("selection by identifiers", lab + (": known" if present else ": unknown"), None if any(b is None for b, _ in vs) else got == (["G.mapId_[@e]"] if present else []), "adds %s" % got, op.w)
    for op, lab in every(I, "getIds"):
        filt(op, lab, "identifiers of a group", "G.element_", None, "id(@e.id_.id_)")
    # additions
    for op, lab in every(I, "add", pred=isgrp):
        x = appends(op, lab, "rhs")
        reindexed(op, lab, x, "size(G.element_)", False)
    for op, lab in every(G, "add", pred=lambda f: isgrp(f) and f["p"][0]["t"].replace("&", "").strip() == f["cls"]):
        appends(op, lab, "rhs")
    for op, lab in every(I, "addId", pred=isgrp):
        x = appends(op, lab, "rhs")
        newids(op, lab)
        reindexed(op, lab, x, "size(G.element_)", False)
    for op, lab in every(I, "addId", pred=lambda f: "*" in f["p"][0]["t"] and "vector" not in f["p"][0]["t"]):
        x = appends(op, lab, "elem")
        newids(op, lab)
    # removals
    for pre in (I, G):
        for op, lab in every(pre, "remove", nparams=1):
            removal(op, lab, pre == I)
    # assignments, clearing, construction
    for op, lab in every(I, "operator=", pred=isgrp):
        x = op.fin("element_")
        c = canon(op.ev, x)
        ctx.ob("assignment replaces the contents", lab, True if c == "rhs.element_" else None if vague(x) else False, "contents become %s" % c[:200], op.w)
        reindexed(op, lab, x, "0", True)
    for op, lab in every(G, "operator=", pred=isgrp):
        x = op.fin("element_")
        c = canon(op.ev, x)
        ctx.ob("assignment replaces the contents", "plain " + lab, True if c == "rhs.element_" else None if vague(x) else False, "contents become %s" % c[:200], op.w)
    for op, lab in every(I, "clear"):
        for m, want in (("element_", "il()"), ("mapId_", "il()")):
            x = op.fin(m)
            c = canon(op.ev, x)
            ctx.ob("clear empties the group", lab + ": " + m, True if c == want else False if not vague(x) else None, "%s becomes %s" % (m, c[:100]), op.w)
        c = ids(op.ev, op.fin("lastId_"))
        v = op.sub(op.ev.load(op.r.st, fld(fld(op.o, op.cls + "::lastId_"), [k for k in P.recs if k.startswith("SEMBA::Class::Identification<")][0] + "::id_")))
        idf = [ef for ef, c2, l in op.flat() if ef[0] == "set" and any(z.k == "fld" and str(z.a[1]).endswith("::lastId_") for z in subterms(ef[1]))]
        ctx.ob("clear empties the group", lab + ": last identifier", True if idf and idf[-1][2] is C(0) else False if not idf else None, "the last identifier is not reset", op.w)
    for f in tmpl(ctx, I, "(ctor)"):
        pass
    constructors(ctx, every)
    # selections of a plain group
    selections(ctx, every, G)


def filt(op, lab, rule, cont, pred, val):
    """the returned list is: for every element of cont satisfying pred (canonical text or function of op, condition), val"""
    ctx, ev = op.ctx, op.ev
    ff = fillform(ev, op.r.ret) if op.r.ret is not None else None
    if not ff or ff["adds"] is None or ff["span"] is None or ff["span"]["cont"] is None:
        ctx.ob(rule, lab, None, canon(ev, op.r.ret)[:200] if op.r.ret is not None else "", op.w)
        return
    sp = ff["span"]
    ctx.ob(rule, lab + ": every element visited", True if canon(ev, sp["cont"]) == cont and sp["whole"] else False if canon(ev, sp["cont"]) == cont and not sp["brk"] else None, "visits %s from %s" % (canon(ev, sp["cont"])[:80], canon(ev, sp["start"])), op.w)
    got = []
    for c, k, v in ff["adds"]:
        # remaining el(cont, phi) of values taken through objects
        got.append((canon(ev, c), k, canon(ev, v).replace(cont + "[phi]", "@e")))
    if pred is None:
        ok = len(got) == 1 and got[0][0] == "True" and got[0][2] == val
    else:
        ok = len(got) == 1 and got[0][0] in pred and got[0][2] == val
    ctx.ob(rule, lab + ": selected", True if ok else None if any(vague(v) or vague(c) for c, k, v in ff["adds"]) else False, "yields %s" % str(got)[:300], op.w)


def keeps(m):
    """the index is made only of former entries"""
    return all(x.k in ("fld", "sym", "obj", "il", "this", "el", "size", "c", "phi", "var", "loopval", "dyn", "ite", "eq", "not", "and", "or", "lt", "le", "op") or x.k == "m" and str(x.a[0]).split("::")[-1] in ("erase", "clear") or
               x.k == "call" and x.a[0].split("::")[-1] in ("getId", "size", "get") for x in subterms(m))


def reindexed(op, lab, x, start, whole):
    """the index is completed for the elements from start on, having been emptied before when whole"""
    ctx, ev = op.ctx, op.ev
    rule = "index follows the contents"
    ls = op.idxloops()
    if len(ls) != 1:
        # the index may also be taken over from an object that already has it
        m = op.fin("mapId_")
        ok = None
        if not ls and m is not None and not any(op.mapwrite(ef) for ef, c, l in op.flat()) and keeps(m):
            ok = False
        ctx.ob(rule, lab, ok, "%d loops write the index" % len(ls), op.w)
        return
    sp = span(ev, ls[0])
    if sp is None or sp["cont"] is None or x is None:
        ctx.ob(rule, lab, None, "loop not recognised", op.w)
        return
    st = canon(ev, op.sub(sp["start"]))
    okc = op.sub(sp["cont"]) is x or canon(ev, op.sub(sp["cont"])) == canon(ev, x)
    full = sp.get("step", 1) == 1 and sp.get("off", 0) == 0 and not sp["brk"]
    ok = True if okc and st == start and full else None if not okc or sp["brk"] else False
    ctx.ob(rule, lab, ok, "indexes the positions from %s, expected from %s" % (st[:150], start), op.w)
    # cleared before / not cleared before
    clr = False
    clen = False
    for ef, c, loops in op.flat():
        if loops and loops[0] == ls[0]:
            break
        if ef[0] == "set" and ef[1].k == "fld" and ef[1].a[0] is op.o and str(ef[1].a[1]).endswith("::mapId_"):
            clr = ef[2].k == "il" and not ef[2].a
    ctx.ob(rule, lab + ": former entries", clr == whole, "the former index is %s" % ("emptied" if clr else "kept"), op.w)


def newids(op, lab):
    """every added element gets the next identifier"""
    ctx, ev = op.ctx, op.ev
    rule = "added elements get fresh identifiers"
    found = []
    for ef, c, loops in op.flat():
        if ef[0] == "set" and len(loops) == 1 and ef[1].k == "fld" and str(ef[1].a[1]).endswith("::id_"):
            base = ef[1]
            flds = [str(z.a[1]).split("::")[-1] for z in subterms(base) if z.k == "fld"]
            if "lastId_" in flds or base.a[0].k == "obj":
                continue
            found.append((ef, c, loops[0]))
    if not found:
        ctx.ob(rule, lab, None if op.r.st is None else False, "no identifier is given", op.w)
        return
    for ef, c, lid in found[:1]:
        sp = span(ev, lid)
        if sp is None or sp["cont"] is None:
            ctx.ob(rule, lab, None, "loop not recognised", op.w)
            continue
        ctx.ob(rule, lab + ": every element", True if sp["whole"] and c is TRUE else None if sp["brk"] or any(x.k in UNDEC - {"phi"} for x in subterms(c)) else False, "elements from %s under %s" % (canon(ev, sp["start"]), canon(ev, c)[:100]), op.w)
        v = ef[2]
        # value given: one above the counter before this element, and the counter becomes that value
        d = ev.loops[lid]
        cnt = [(k, ph) for k, ph in d["phis"].items() if k.k == "fld" and any(z.k == "fld" and str(z.a[1]).endswith("::lastId_") for z in subterms(k))]
        if len(cnt) != 1:
            ctx.ob(rule, lab + ": value", False if not cnt and not any(z.k == "phi" for z in subterms(v)) else None, "gives %s" % canon(ev, v)[:100], op.w)
            continue
        k, ph = cnt[0]
        n1, n2 = _bump(v, ph), _bump(d["step"][k], ph)
        ctx.ob(rule, lab + ": value", None if n1 is None or n2 is None else n1 >= 1 and n2 == n1, "gives last + %s and keeps last + %s" % (n1, n2), op.w)


def _bump(step, ph):
    if step is ph:
        return 0
    if step.k == "op" and step.a[0] == "+" and len(step.a) == 3 and num(step.a[2]):
        r = _bump(step.a[1], ph)
        return None if r is None else r + step.a[2].a[0]
    return None


def removal(op, lab, indexed):
    ctx, ev = op.ctx, op.ev
    rule = "removal keeps exactly the other elements"
    x = op.fin("element_")
    ff = fillform(ev, x) if x is not None else None
    if ff is None or ff["adds"] is None or ff["span"]["cont"] is None:
        ok = False if x is not None and canon(ev, x) == "G.element_" else None
        ctx.ob(rule, lab, ok, "contents become %s" % (canon(ev, x)[:200] if x is not None else "?"), op.w)
        return
    sp = ff["span"]
    ctx.ob(rule, lab + ": every element considered", True if canon(ev, sp["cont"]) == "G.element_" and sp["whole"] else False if canon(ev, sp["cont"]) == "G.element_" and not sp["brk"] else None, "considers %s from %s" % (canon(ev, sp["cont"])[:60], canon(ev, sp["start"])), op.w)
    for named in (0, 1):
        def env(t):
            if t.k in ("call", "count") and (t.k == "count" or t.a[0].split("::")[-1] == "count") and any(z is IDX for z in subterms(t.a[-1])):
                return named if t.a[-1] is IDX and any(z.k == "sym" and z.a[0] in ("pos", "pos_") for z in subterms(t)) else None
            if t.k == "eq" and IDX in t.a and any(z.k == "sym" and z.a[0] == "pos" for z in t.a):
                return bool(named)
            if t.k == "eq" and CUR in [z.a[1] if z.k == "dyn" else z for z in t.a if isinstance(z, T)] and NULL in t.a:
                return False
            if t.k == "eq" and any(z.k == "mend" for z in t.a) and any(z.k == "call" and z.a[0].split("::")[-1] == "find" for z in t.a):
                return not named
            return None
        vs = [(truth9(op, c, env), canon(ev, v)) for c, k, v in ff["adds"]]
        got = [v for b, v in vs if b]
        ctx.ob(rule, lab + (": named position" if named else ": other position"), None if any(b is None for b, _ in vs) else got == ([] if named else ["@e"]), "keeps %s" % got, op.w)
    if indexed:
        reindexed(op, lab, x, "0", True)


def constructors(ctx, every):
    I, G = "SEMBA::Group::Identifiable<", "SEMBA::Group::Group<"
    n = 0
    for pre in (G, I):
        for op, lab in every(pre, "(ctor)"):
            f = op.f
            if op.r.st is None or len(f["p"]) > 1:
                continue
            lab = ("identified " if pre == I else "") + lab
            x = op.fin("element_")
            c = canon(op.ev, x)
            rule = "construction takes every element of its kind"
            if not f["p"]:
                ctx.ob(rule, lab, True if c == "il()" else None if vague(x) else False, "starts with %s" % c[:100], op.w)
                continue
            n += 1
            p, a = f["p"][0]["t"], f["p"][0]["n"] or "a0"
            src = a + ".element_" if "Group::" in p else a
            ff = fillform(op.ev, x)
            if ff and ff["adds"] is not None and ff["span"]["cont"] is not None:
                sp = ff["span"]
                okw = canon(op.ev, sp["cont"]) == src and sp["whole"]
                got = [(canon(op.ev, cc), k, canon(op.ev, v)) for cc, k, v in ff["adds"]]
                okg = len(got) == 1 and got[0][0] in ("True", "not(eq(@e, None))") and got[0][2] == "@e"
                ctx.ob(rule, lab, True if okw and okg else None if sp["brk"] or any(vague(v) or vague(cc) for cc, k, v in ff["adds"]) else False, "takes %s of %s from %s" % (str(got)[:150], canon(op.ev, sp["cont"])[:60], canon(op.ev, sp["start"])), op.w)
            else:
                ok = c in (src, "ite(eq(%s, None), il(), il(%s))" % (a, a), "il(%s)" % a)
                ctx.ob(rule, lab, True if ok else None if vague(x) else False, "takes %s" % c[:200], op.w)
            if pre == I and "Identifiable<" not in p:
                reindexed_ctor(op, lab, x)
    if n < 8:
        raise AnalysisError("only %d group constructors found" % n)


def reindexed_ctor(op, lab, x):
    ctx, ev = op.ctx, op.ev
    ls = op.idxloops()
    rule = "index follows the contents"
    if len(ls) != 1:
        ctx.ob(rule, lab, False if not ls else None, "%d loops write the index" % len(ls), op.w)
        return
    sp = span(ev, ls[0])
    if sp is None or sp["cont"] is None:
        ctx.ob(rule, lab, None, "loop not recognised", op.w)
        return
    okc = op.sub(sp["cont"]) is x or canon(ev, op.sub(sp["cont"])) == canon(ev, x)
    ctx.ob(rule, lab, True if okc and sp["whole"] else None if not okc or sp["brk"] else False, "indexes from %s" % canon(ev, sp["start"]), op.w)


def selections(ctx, every, G):
    for op, lab in every(G, "getElemsOf_"):
        filt(op, lab, "selection by class", "G.element_", isof(op), "@i")
    for op, lab in every(G, "getElemsOfOnly_"):
        filt(op, lab, "selection by class", "G.element_", isonly(op), "@i")
    for op, lab in every(G, "sizeOf"):
        ev = op.ev
        t = op.r.ret
        if t is None or t.k != "loopval":
            ctx.ob("selection by class", lab, None, "", op.w)
            continue
        sp = span(ev, t.a[0])
        step = t.a[3]
        ph = [x for x in subterms(step) if x.k == "phi" and x.a[1] is t.a[1]]
        if sp is None or len(ph) != 1 or sp["cont"] is None:
            ctx.ob("selection by class", lab, None, "", op.w)
            continue
        ctx.ob("selection by class", lab + ": every element visited", True if sp["whole"] and t.a[2] is C(0) else None if sp["brk"] else False, "from %s, starting with %s" % (canon(ev, sp["start"]), canon(ev, t.a[2])), op.w)
        want = isof(op)
        res = True
        for c, l in leaves(step):
            n = _bump(l, ph[0])
            cc = canon(ev, atcur(ev, sp, c))
            if n is None:
                res = None
            elif cc in want:
                res = res if n == 1 else False
            elif cc.replace("not(", "", 1)[:-1] in want or "not(" + cc + ")" in want:
                res = res if n == 0 else False
            else:
                res = None
        ctx.ob("selection by class", lab + ": counted", res, canon(ev, step)[:200], op.w)
    for op, lab in every(G, "emptyOf"):
        v = canon(op.ev, op.r.ret)
        t = op.r.ret
        ok = True if t.k == "eq" and C(0) in t.a and any(z.k == "loopval" for z in t.a) else None
        if t.k == "not":
            ok = False
        ctx.ob("selection by class", lab, ok, "returns %s" % v[:150], op.w)
    # elements at given positions
    for op, lab in every(G, "get", nparams=1, pred=lambda f: "vector" in f["p"][0]["t"]):
        ev = op.ev
        objs = [l for c, l in leaves(op.r.ret)] if op.r.ret is not None else []
        if len(objs) != 1 or objs[0].k != "obj":
            ctx.ob("selection by positions", lab, None, "", op.w)
            continue
        gc = objs[0].a[1] if objs[0].a[1].startswith(G) else op.gcls
        x = ev.load(op.r.st, fld(objs[0], gc.replace("const SEMBA::Group", "SEMBA::Group") + "::element_"))
        # the group may be rewrapped element by element
        for _ in range(3):
            ff = fillform(ev, x)
            if ff and ff["adds"] is not None and ff["span"]["cont"] is not None and ff["span"]["cont"].k == "loopval" and ff["span"]["whole"] and [v for _, _, v in ff["adds"]] == [CUR]:
                x = ff["span"]["cont"]
            else:
                break
        if not ff or ff["adds"] is None or ff["span"]["cont"] is None:
            ctx.ob("selection by positions", lab, None, canon(ev, x)[:200], op.w)
            continue
        sp = ff["span"]
        ct = canon(ev, sp["cont"])
        p = op.f["p"][0]["n"]
        okc = ct in (p, "set(ctor)(it(%s), mend(%s))" % (p, p), "set(ctor)(it(%s, 0), mend(%s))" % (p, p))
        got = [(canon(ev, c), canon(ev, v)) for c, k, v in ff["adds"]]
        okg = len(got) == 1 and got[0][1] == "G.element_[@e]" and got[0][0] in ("True", "not(eq(G.element_[@e], None))")
        ctx.ob("selection by positions", lab, True if okc and okg and sp["whole"] else None if not okc or sp["brk"] or any(vague(v) for c, k, v in ff["adds"]) else False, "takes %s of %s" % (str(got)[:200], ct[:80]), op.w)
    for op, lab in every(G, "get", nparams=1, pred=lambda f: "vector" not in f["p"][0]["t"]):
        c = canon(op.ev, op.r.ret)
        ctx.ob("access by position", lab, True if c == "G.element_[%s]" % op.f["p"][0]["n"] else None if vague(op.r.ret) else False, "returns %s" % c[:150], op.w)


def targ(op):
    m = re.match(r".*::\w+<(.*)>$", op.f["n"])
    return m.group(1) if m else "?"


def isof(op):
    return ("not(eq(@e, None))",)


def isonly(op):
    t = targ(op)
    return ("eq(typeid(%s), typeid(@e))" % t, "eq(typeid(@e), typeid(%s))" % t)
