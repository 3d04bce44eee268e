"""Shared machinery of the rules: obligations, canonical forms, algebraic comparison, tables."""
from types import SimpleNamespace as NS
import copy, math, os, re, sys
from terms import *
from evalr import Ev, State, Limit, short, flat, isstd, Thrown
import prog as progmod
from prog import AnalysisError


class Ctx:
    """collects the obligations of one property"""

    def __init__(self, P, pid):
        self.P, self.pid = P, pid
        self.obs = []
        self.counts = {}
        self.notes = []
        self.visited = set()
        self.tier = 'quick'

    def ob(self, rule, inst, ok, detail="", where=""):
        """ok: True / False / None (undecided: quiet, reported in the evidence)"""
        self.obs.append(dict(rule=rule, inst=inst, ok=ok, detail=detail, where=where))
        return ok

    def ev(self, inline=None, opaque=(), budget=400000):
        e = Ev(self.P, inline, opaque, budget)
        e.visited = self.visited
        return e

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fn(self, name, nparams=None, const=None, need=True, pred=None):
        """the definition of a function by printed name"""
        c = [f for f in self.P.byname.get(name, []) if not f.get("dep")]
        if nparams is not None:
            c = [f for f in c if len(f["p"]) == nparams]
        if const is not None:
            c = [f for f in c if bool(f.get("const")) == const]
        if pred:
            c = [f for f in c if pred(f)]
        if not c:
            if need:
                raise AnalysisError("anchor vanished: function %s" % name)
            return None
        return c[0]

    def fns(self, name):
        return [f for f in self.P.byname.get(name, []) if not f.get("dep")]

    def loc(self, f, line=None):
        return "%s:%s" % (self.P.rel(f), line or f["line"])


_par = None


def _task(a):
    ctx, fn = _par
    ctx.obs, ctx.counts, ctx.visited, ctx.notes = [], {}, set(), []
    try:
        fn(ctx, *a)
    except AnalysisError as e:
        return str(e)
    return ctx.obs, ctx.counts, ctx.visited, ctx.notes


def parallel(ctx, fn, cases):
    """fn(ctx, *case) for every case, in processes of their own; the obligations are gathered in order"""
    global _par
    import multiprocessing
    _par = (ctx, fn)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1, len(cases)), maxtasksperchild=1) as p:
        for r in p.imap(_task, cases, 1):
            if r.__class__ is str:
                raise AnalysisError(r)
            ctx.obs += r[0]
            for k, v in r[1].items():
                ctx.count(k, v)
            ctx.visited |= r[2]
            ctx.notes += r[3]


def walk(o):
    if isinstance(o, dict):
        yield o
        for v in o.values():
            if v.__class__ in (dict, list):
                yield from walk(v)
    elif isinstance(o, list):
        for v in o:
            yield from walk(v)


# ---------------------------------------------------------------------- canonical text of a term
def canon(ev, t, d=0):
    if t.__class__ is not T:
        return str(t)
    if d > 25:
        return "..."
    k, a = t.k, t.a
    s = lambda x: canon(ev, x, d + 1)
    if k == "c":
        return repr(a[0])
    if k == "sym":
        return a[0]
    if k == "jget":
        r = s(a[1])
        ty = a[0].split("::")[-1].strip()
        if ty in ("int", "long", "unsigned long", "unsigned int", "size_t", "long long", "short", "unsigned short"):
            return r if r.startswith("trunc(") else "trunc(" + r + ")"
        return "f32(" + r + ")" if ty == "float" else r
    if k == "tok":
        ks = sorted(jkeys(a[0])) or sorted(x.a[0] for x in subterms(a[0]) if x.k == "sym")
        src = strip(a[0])
        last = any(x.k == "call" and x.a[0].split("::")[-1] in ("find_last_of", "rfind") and C("{") in x.a for x in subterms(a[0]))
        return "+".join(ks) + ("!raw" if src.k in ("jget", "jat", "sym") else "") + ("@last" if last else "") + "#" + str(a[1])
    if k == "jat":
        b = s(a[0])
        key = a[1].a[0] if isc(a[1]) else "<" + s(a[1]) + ">"
        return (b + "." if b.startswith("J") else "J[%s]." % b if a[0].k != "sym" else "J.") + str(key)
    if k == "fld":
        return s(a[0]) + "." + a[1].split("::")[-1]
    if k == "el":
        if a[1].k in ("phi", "ix") and any(x.k == "jat" for x in subterms(a[0])):
            return s(a[0]) + "[*]"
        return s(a[0]) + "[" + s(a[1]) + "]"
    if k == "obj":
        if ev and t in ev.idval and "Identification<" in a[1]:
            r = s(ev.idval[t])
            return r if r.startswith("id(") else "id(" + r + ")"
        o = ev.objs.get(t) if ev else None
        if o and o.get("args") is not None and o["args"]:
            return short(o["cls"]).split("::")[-1] + "(" + ", ".join(s(x) for x in o["args"]) + ")"
        return short(a[1]).split("::")[-1] + "()"
    if k == "call":
        return a[0].split("::")[-1] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if k == "dyn":
        return s(a[1])
    if k == "trunc":
        r = s(a[1])
        return r if r.startswith("trunc(") else "trunc(" + r + ")"
    if k == "op":
        return "(" + s(a[1]) + a[0] + s(a[2]) + ")" if len(a) > 2 else a[0] + s(a[1])
    if k == "str+":
        return "cat(" + ", ".join(s(x) for x in a) + ")"
    if k in ("phi",):
        return "phi"
    if k == "ix":
        return "ix"
    if k == "it":
        return "it(" + s(a[0]) + ")"
    if k == "deref" and a[0].k == "phi":
        its = [x for x in subterms(a[0]) if x.k == "it"]
        if len(its) == 1:
            return s(its[0].a[0]) + "[*]"
    if k == "deref":
        return "deref(" + s(a[0]) + ")"
    return k + "(" + ", ".join(s(x) for x in a) + ")"


def atoms(t, pred):
    return [x for x in subterms(t) if pred(x)]


def jkeys(t):
    """json keys a value depends on"""
    return {x.a[1].a[0] for x in subterms(t) if x.k == "jat" and isc(x.a[1])}


# ---------------------------------------------------------------------- polynomials
class Poly:
    """rational-exponent-free Laurent polynomials over atom strings"""
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if abs(v) > 1e-300}

    @staticmethod
    def const(c):
        return Poly({(): float(c)})

    @staticmethod
    def atom(s):
        return Poly({((s, 1),): 1.0})

    def __add__(self, o):
        o = topoly(o)
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0.0) + v
            if abs(m[k]) <= 1e-12 * max(abs(v), 1e-300):
                del m[k]
        return Poly(m)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __rsub__(self, o):
        return topoly(o) - self

    __radd__ = __add__

    def __mul__(self, o):
        o = topoly(o)
        m = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                d = dict(k1)
                for s, e in k2:
                    d[s] = d.get(s, 0) + e
                k = tuple(sorted((s, e) for s, e in d.items() if e))
                m[k] = m.get(k, 0.0) + v1 * v2
        return Poly({k: v for k, v in m.items() if v != 0})

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = topoly(o)
        if len(o.m) == 1:
            (k, v), = o.m.items()
            return self * Poly({tuple((s, -e) for s, e in k): 1.0 / v})
        return self * Poly({(("inv[" + o.key() + "]", 1),): 1.0})

    def __rtruediv__(self, o):
        return topoly(o) / self

    def key(self):
        return " + ".join("%.10g*%s" % (v, "*".join("%s^%d" % se for se in k)) for k, v in sorted(self.m.items()))

    def same(self, o, tol=1e-9):
        ks = set(self.m) | set(o.m)
        for k in ks:
            a, b = self.m.get(k, 0.0), o.m.get(k, 0.0)
            if abs(a - b) > tol * max(abs(a), abs(b), 1e-300):
                return False
        return True

    def isconst(self):
        return not self.m or list(self.m) == [()]

    def cval(self):
        return self.m.get((), 0.0)

    def __repr__(self):
        return self.key() or "0"


def topoly(x):
    return x if isinstance(x, Poly) else Poly.const(x)


SQ = {"sqrt", "std::sqrt"}


def poly(ev, t, atomf=None):
    """polynomial form of a gate-free numeric term; atomf maps other terms to atom names (None: canonical text)"""
    if num(t):
        return Poly.const(t.a[0])
    if isc(t) and isinstance(t.a[0], bool):
        return Poly.const(int(t.a[0]))
    if t.k == "op" and len(t.a) == 3:
        op = t.a[0]
        if op in "+-*/":
            a, b = poly(ev, t.a[1], atomf), poly(ev, t.a[2], atomf)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if not b.m:
                return Poly.atom("div0")
            return a / b
    if t.k == "call" and t.a[0].split("::")[-1] == "pow" and len(t.a) == 3 and num(t.a[2]) and float(t.a[2].a[0]).is_integer() and 0 < t.a[2].a[0] < 6:
        a = poly(ev, t.a[1], atomf)
        r = Poly.const(1)
        for _ in range(int(t.a[2].a[0])):
            r = r * a
        return r
    if t.k == "call" and t.a[0].split("::")[-1] in ("sqrt", "abs", "fabs", "sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "round", "floor", "ceil", "atan2", "log10") and len(t.a) >= 2:
        n = t.a[0].split("::")[-1]
        n = "abs" if n == "fabs" else n
        args = [poly(ev, x, atomf) for x in t.a[1:]]
        if all(p.isconst() for p in args):
            try:
                return Poly.const(getattr(math, n if n != "abs" else "fabs")(*[p.cval() for p in args]) if n != "round" else round(args[0].cval()))
            except Exception:
                pass
        if n == "abs":
            # |x| == |-x|
            k1, k2 = args[0].key(), (-args[0]).key()
            return Poly.atom("abs[" + min(k1, k2) + "]")
        return Poly.atom(n + "[" + ", ".join(p.key() for p in args) + "]")
    s = atomf(t) if atomf else None
    return Poly.atom(s if s is not None else canon(ev, t))


class PAtoms(dict):
    def __missing__(self, k):
        return Poly.atom(k)


def same_num(ev, t, want, atomf=None):
    """True/False/None: every gated leaf of t equals the polynomial want"""
    w = topoly(want)
    res = True
    for c, l in leaves(t):
        p = poly(ev, l, atomf)
        if p.same(w):
            continue
        if any(x.k in ("unk", "uninit", "loopval", "phi", "maybe", "m", "out") for x in subterms(l)) and not any(x.k == "uninit" for x in subterms(l)):
            res = None if res else res
            continue
        return False
    return res


def enumname(P, enum, v):
    e = P.enums.get(enum)
    if e:
        for n, x in e["vals"]:
            if x == v:
                return n
    return str(v)


def enumval(P, enum, name):
    """value of an enumerator"""
    e = P.enums.get(enum)
    v = [x for n, x in (e["vals"] if e else ()) if n == name]
    if not v:
        raise AnalysisError("anchor vanished: %s::%s" % (enum, name))
    return v[0]


# ---------------------------------------------------------------------- decision tables over one string / enum input
def table(ev, r, scrut):
    """decision table of a function result over equality tests of one scrutinee
    scrut(term) -> True when term is (a normal form of) the scrutinee.
    returns (dict const -> [leaf terms or 'throw'], default list, unknown conditions)"""
    consts = set()
    unknown = []

    def scan(c):
        for x in subterms(c):
            if x.k == "eq" and isc(x.a[1]) and scrut(x.a[0]):
                consts.add(x.a[1])
    for th in r.throws:
        scan(th[0])
    if r.ret is not None:
        scan(r.ret)
    scan(r.pc)
    eqs = [x for x in _alleqs(r) if scrut(x.a[0])]
    out = {}
    for k in list(consts) + [None]:
        m = {}
        for x in eqs:
            m[x] = C(k is not None and x.a[1].a[0] == k.a[0])
        res = []
        for th in r.throws:
            c = subst(th[0], m)
            if not (isc(c) and not c.a[0]):
                res.append((c, "throw:" + th[1]))
        if r.ret is not None:
            pcn = subst(r.pc, m)
            if not (isc(pcn) and not pcn.a[0]):
                rt = subst(r.ret, m)
                # under an unconditional throw nothing is returned
                if not any(isc(c) and c.a[0] for c, w in res):
                    for c, l in leaves(rt):
                        res.append((c, l))
        elif r.pc is not FALSE and r.st is not None:
            pcn = subst(r.pc, m)
            if not (isc(pcn) and not pcn.a[0]) and not any(isc(c) and c.a[0] for c, w in res):
                res.append((pcn, "normal"))
        out[k.a[0] if k is not None else None] = res
    return out


def _alleqs(r):
    seen = set()
    out = []
    src = [th[0] for th in r.throws] + [r.pc] + ([r.ret] if r.ret is not None else [])
    for c in src:
        for x in subterms(c, seen):
            if x.k == "eq" and isc(x.a[1]):
                out.append(x)
    return out


# ---------------------------------------------------------------------- scenarios over json input
def conds_of(r):
    """all branch conditions and throw conditions met in an evaluation"""
    out = []
    seen = set()

    def add(c):
        for x in subterms(c, seen):
            if x.k in ("eq", "lt", "le", "call", "jget", "or", "and", "not", "exc"):
                out.append(x)

    def tr(t):
        for ef in t:
            k = ef[0]
            if k == "if":
                add(ef[1])
                tr(ef[2])
                tr(ef[3])
            elif k == "loop":
                tr(ef[2])
            elif k == "inl":
                tr(ef[3])
            elif k == "try":
                tr(ef[1])
                for h in ef[2]:
                    tr(h[1])
            else:
                for x in ef[1:]:
                    if x.__class__ is T:
                        add(x)
                    elif x.__class__ in (list, tuple):
                        for y in x:
                            if y.__class__ is T:
                                add(y)
    tr(r.trace)
    for th in r.throws:
        add(th[0])
    if r.ret is not None:
        add(r.ret)
    return out


def jpath(t):
    """dotted path of a json location term (base dropped), or None"""
    if t.k == "jget":
        return jpath(t.a[1])
    if t.k == "jat" and isc(t.a[1]):
        b = jpath(t.a[0])
        return (b + "." if b else "") + str(t.a[1].a[0])
    if t.k in ("sym", "el", "deref", "jit"):
        return ""
    return ""


def strip(t):
    """a value with string normalisers (trim...) removed"""
    while True:
        if t.k == "out":
            t = t.a[1]
        elif t.k == "call" and t.a[0].split("::")[-1] in ("trim", "ltrim", "rtrim"):
            t = [x for x in t.a if x.__class__ is T][-1]
        elif t.k == "jget" and t.a[1].k == "jget":
            t = t.a[1]
        else:
            return t


def facts_for(conds, vals, has, extra=None):
    """{condition: bool} implied by the values of json keys (vals: path->value) and their presence (has: path->bool)"""
    F = {}
    for c in conds:
        if extra is not None:
            v = extra(c)
            if v is not None:
                F[c] = v
                continue
        if c.k == "eq" and isc(c.a[1]):
            s = strip(c.a[0])
            k = c.a[1].a[0]
            if s.k == "jget" and s.a[1].k in ("jat",) and jpath(s) in vals:
                F[c] = vals[jpath(s)] == k
            elif s.k == "call" and s.a[0].endswith("::find") and len(s.a) == 3 and isc(s.a[2]) and k == 0:
                b = strip(s.a[1])
                if b.k == "jget" and jpath(b) in vals and isinstance(vals[jpath(b)], str):
                    F[c] = vals[jpath(b)].startswith(s.a[2].a[0])
        elif c.k == "eq":
            for a, b in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if a.k == "call" and a.a[0].endswith("find") and len(a.a) == 3 and isc(a.a[2]) and b.k == "mend":
                    p = jpath(mk("jat", a.a[1], a.a[2]))
                    if p in has:
                        F[c] = not has[p]
        elif c.k == "jget" and jpath(c) in vals and isinstance(vals[jpath(c)], bool):
            F[c] = vals[jpath(c)]
    return F


class Scen:
    """evaluation of a function under facts about the input; several passes until no new condition is implied"""

    def __init__(self, ctx, fn, vals=None, has=None, inline=None, opaque=(), args=None, this=None, extra=None, passes=6, facts=None):
        self.ctx = ctx
        vals, has = vals or {}, has or {}
        F = dict(facts or {})
        for i in range(passes):
            ev = ctx.ev(inline, opaque)
            st = State()
            for c, v in F.items():
                ev.assume(st, c, v)
            r = ev.run(fn, this, args, st)
            G = facts_for(conds_of(r), vals, has, extra)
            new = {c: v for c, v in G.items() if c not in F}
            if not new:
                break
            F.update(new)
        self.ev, self.r, self.F = ev, r, F
        self.ret, self.st = r.ret, r.st

    @property
    def val(self):
        return Val(self.ctx, self.ev, self.st, self.ret)

    def under(self, c):
        """a condition simplified by the facts of the scenario"""
        return subst(c, {k: C(v) for k, v in self.F.items()})

    def flat(self):
        """effects of the evaluation that are not excluded by the facts: (effect, condition, loops, call stack)"""
        for ef, pc, loops, stack in flat(self.r.trace):
            c = self.under(pc)
            if not (isc(c) and not c.a[0]):
                yield ef, c, loops, stack

    def objs(self):
        """created objects the function may return"""
        return [(c, Val(self.ctx, self.ev, self.st, o)) for c, o in leaves(self.ret)] if self.ret is not None else []


def canonj(ev, t):
    """canonical text with json leaves as J.path"""
    return canon(ev, t)


UNDEC = {"unk", "phi", "loopval", "maybe", "m", "out", "inloop", "exc", "none", "lambda", "strm"}


def vague(t):
    """does the value contain parts the analysis does not resolve"""
    return any(x.k in UNDEC for x in subterms(t))


def inputs_of(t):
    """maximal input values a term is made of: tokens, fields of the file, parameters"""
    out = set()

    def go(x):
        if x.k in ("tok", "jget", "jat", "sym", "param"):
            out.add(x)
            return
        for y in x.a:
            if isinstance(y, T):
                go(y)
    go(t)
    return out


def outer(t):
    """subterms outside of input values"""
    yield t
    if t.k not in ("tok", "jget", "jat", "sym", "param"):
        for y in t.a:
            if isinstance(y, T):
                yield from outer(y)


def batoms(c, out):
    if c.k in ("and", "or", "not"):
        for x in c.a:
            batoms(x, out)
    elif not isc(c):
        out.append(c)
    return out


def satisfiable(c):
    """some assignment of the elementary conditions makes c true (elementary conditions taken as independent, except equalities of one value with several constants)"""
    if isc(c):
        return bool(c.a[0])
    at = list(dict.fromkeys(batoms(c, [])))
    if len(at) > 10 or any(x.k in UNDEC for y in at for x in outer(y)):
        return None
    for m in range(1 << len(at)):
        env = {x: C(bool(m >> i & 1)) for i, x in enumerate(at)}
        consts = {}
        bad = False
        for x, v in env.items():
            if x.k == "eq" and v.a[0] and any(isc(y) for y in x.a):
                y = [z for z in x.a if not isc(z)]
                if y:
                    consts[y[0]] = consts.get(y[0], 0) + 1
                    bad = bad or consts[y[0]] > 1
        if bad:
            continue
        r = subst(c, env)
        if isc(r) and r.a[0]:
            return True
    return False


def byleaf(ev, t, judge):
    """verdict on a gated value: wrong when a wrong alternative is selected by a satisfiable condition unrelated to the alternatives themselves"""
    ls = leaves(t)
    js = [(c, l, judge(l)) for c, l in ls]
    if all(j is True for _, _, j in js):
        return True
    allin = set()
    for _, l, _ in js:
        allin |= inputs_of(l)
    for c, l, j in js:
        if j is False and not any(x.k in UNDEC for x in outer(l)) and satisfiable(c) and not any(x in allin for x in inputs_of(c)):
            return False
    return None


def agree(ev, t, want):
    """(verdict, text): does the gated value t equal want: a Poly (numeric), or canonical text"""
    if t is None:
        return None, "no value"
    if isinstance(want, Poly):
        v = same_num(ev, t, want)
        if v is False and vague(t) and not any(x.k == "uninit" for x in subterms(t)):
            v = byleaf(ev, t, lambda l: same_num(ev, l, want)) if t.k == "ite" else None
        return v, canon(ev, t)[:300]
    c = canon(ev, t)
    if c == want:
        return True, c
    if any(x.k == "uninit" for x in subterms(t)):
        return False, c[:300]
    if want.__class__ is str and not vague(t):
        ls = {canon(ev, l) for _, l in leaves(t)}
        if ls == {want}:
            return True, c[:300]
        return False, c[:300]
    if want.__class__ is str and t.k == "ite":
        return byleaf(ev, t, lambda l: canon(ev, l) == want), c[:300]
    return None, c[:300]


def clsof(P, t):
    """record name of an object / location term"""
    if t.k == "obj":
        return t.a[1]
    if t.k in ("fld",):
        c, n = t.a[1].rsplit("::", 1)
        r = P.recs.get(c)
        for f in (r or {}).get("fields", ()):
            if f["n"] == n:
                return f["t"].replace("const ", "").strip(" &*")
    if t.k == "ite":
        return clsof(P, t.a[1]) or clsof(P, t.a[2])
    return None


class Val:
    """a value together with the state it lives in"""

    def __init__(self, ctx, ev, st, t):
        self.ctx, self.ev, self.st, self.t = ctx, ev, st, t

    @property
    def c(self):
        return canon(self.ev, self.t)

    def w(self, t):
        return Val(self.ctx, self.ev, self.st, t)

    def fldname(self, name, t=None):
        P = self.ctx.P
        cls = clsof(P, t if t is not None else self.t)
        for c in ([cls] + P.bases(cls)) if cls else []:
            for f in P.recs.get(c, {"fields": ()})["fields"]:
                if f["n"] == name:
                    return c + "::" + name
        return None

    def m(self, name):
        """value of a data member"""
        fn = self.fldname(name)
        if fn is None:
            return self.w(mk("unk"))
        return self.w(self.ev.load(self.st, fld(self.t, fn)))

    def at(self, i):
        return self.w(self.ev.load(self.st, el(self.t, C(i))))

    def vec(self, n=3):
        """components of a Cartesian"""
        fn = self.fldname("val")
        if fn is None:
            return [self.w(mk("unk"))] * n
        return [self.w(self.ev.load(self.st, el(fld(self.t, fn), C(i)))) for i in range(n)]

    def pair(self):
        if self.t.k == "pair":
            return [self.w(x) for x in self.t.a]
        if self.t.k == "ite":
            a, b = self.w(self.t.a[1]).pair(), self.w(self.t.a[2]).pair()
            return [self.w(ite(self.t.a[0], x.t, y.t)) for x, y in zip(a, b)]
        if self.t.k == "il" and len(self.t.a) == 2:
            return [self.w(x) for x in self.t.a]
        return [self.w(self.ev.load(self.st, fld(self.t, n))) for n in ("first", "second")]

    def get(self, name, *args):
        """value of a public getter"""
        P = self.ctx.P
        cls = clsof(P, self.t)
        f = None
        for c in ([cls] + P.bases(cls)) if cls else []:
            fs = [f for f in P.byname.get(c + "::" + name, []) if len(f["p"]) == len(args) and not f.get("dep")]
            if fs:
                f = ([g for g in fs if g.get("const")] or fs)[0]
                break
        if f is None:
            raise AnalysisError("anchor vanished: %s::%s" % (cls, name))
        st = self.st.fork()
        r = self.ev.run(f, self.t, list(args), st)
        if r.ret is None:
            return Val(self.ctx, self.ev, st, mk("unk"))
        st2 = r.st or st
        v = Val(self.ctx, self.ev, st2, self.ev.val(st2, r.ret))
        v.fn = f
        return v


# ---------------------------------------------------------------------- loops
def _bump(step, ph):
    """number of steps from ph to step, or None"""
    n = 0
    while step is not ph:
        if step.k == "next" and len(step.a) == 1:
            step = step.a[0]
            n += 1
        elif step.k == "op" and step.a[0] == "+" and len(step.a) == 3 and num(step.a[2]) and step.a[1] is ph:
            return n + step.a[2].a[0]
        elif step.k == "op" and step.a[0] == "+" and len(step.a) == 3 and num(step.a[1]) and step.a[2] is ph:
            return n + step.a[1].a[0]
        else:
            return None
        if n > 4:
            return None
    return n


def sizeof(t):
    """container whose size t is, or None"""
    if t.k in ("size", "len") and len(t.a) == 1:
        return t.a[0]
    if t.k == "call" and t.a[0].split("::")[-1] == "size" and len(t.a) == 2:
        return t.a[1]
    return None


def wholeloop(ev, lid):
    """does the loop visit every element of one container exactly once: (verdict, container canonical text or '')
    False only when it is a recognised counting or iterator loop whose start, end or step skips elements"""
    d = ev.loops.get(lid)
    if d is None:
        return None, ""
    if d.get("brk"):
        return None, ""
    if d.get("rng") is not None:
        return True, canon(ev, d["rng"])
    c = d["cond"]
    for k, ph in d["phis"].items():
        step = d["step"].get(k)
        init = d["init"].get(k)
        if step is None or init is None or not any(x is ph for x in subterms(c)):
            continue
        n = _bump(step, ph)
        if n is None:
            continue
        neg = c.k == "not"
        e = c.a[0] if neg else c
        if init.k == "it" or e.k == "eq" and any(x.k == "mend" for x in e.a):
            off = init.a[1] if init.k == "it" and len(init.a) > 1 else None
            base = init.a[0] if init.k == "it" else None
            extra = 0
            while base is None and init.k == "next":
                init = init.a[0]
                extra += 1
                if init.k == "it":
                    base, off = init.a[0], init.a[1]
            if base is None:
                return None, ""
            if e.k == "eq" and neg and any(x.k == "mend" and x.a[0] is base for x in e.a) and any(x is ph for x in e.a):
                start = off if off.__class__ is int else (off.a[0] if off is not None and isc(off) else None)
                if start is None:
                    return None, canon(ev, base)
                return n == 1 and start + extra == 0, canon(ev, base)
            return None, canon(ev, base)
        if isc(init):
            bound = None
            if e.k == "lt" and not neg and e.a[0] is ph:
                bound, strict = e.a[1], True
            elif e.k == "eq" and neg and ph in e.a:
                bound, strict = (e.a[1] if e.a[0] is ph else e.a[0]), True
            elif e.k == "le" and neg and e.a[1] is ph:      # !(bound <= i)
                bound, strict = e.a[0], True
            elif e.k == "le" and not neg and e.a[0] is ph:
                bound, strict = e.a[1], False
            if bound is None:
                return None, ""
            b = sizeof(bound)
            if b is not None:
                return (n == 1 and init.a[0] == 0 and strict), canon(ev, b)
            if bound.k == "op" and len(bound.a) == 3 and sizeof(bound.a[1]) is not None and num(bound.a[2]):
                off = bound.a[2].a[0] * (1 if bound.a[0] == "+" else -1)
                return (n == 1 and init.a[0] == 0 and off + (0 if strict else 1) == 0), canon(ev, sizeof(bound.a[1]))
            return None, ""
    return None, ""


# ---------------------------------------------------------------------- constant propagation through a term
class NoVal(Exception):
    pass


def _cround(x):
    return math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)


def _nanf(f):
    """C semantics outside the domain of a function"""
    def g(x):
        try:
            return f(x)
        except ValueError:
            return -math.inf if f in (math.log, math.log10) and x == 0 else math.nan
    return g


CFUN = {"min": min, "fmin": min, "max": max, "fmax": max, "round": _cround, "lround": _cround, "floor": math.floor, "ceil": math.ceil, "abs": abs, "fabs": abs, "sqrt": _nanf(math.sqrt), "conj": lambda x: complex(x).conjugate(), "norm": lambda x: abs(x) ** 2, "real": lambda x: complex(x).real, "imag": lambda x: complex(x).imag, "hypot": math.hypot, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "log10": _nanf(math.log10), "signbit": lambda x: math.copysign(1, x) < 0, "isnan": lambda x: x != x,
        "sin": math.sin, "cos": math.cos, "tan": math.tan, "acos": _nanf(math.acos), "asin": _nanf(math.asin), "atan": math.atan, "atan2": math.atan2, "exp": math.exp, "log": _nanf(math.log),
        "pow": math.pow, "rint": _cround, "nearbyint": _cround, "trunc": math.trunc}


def ceval(ev, t, env, memo=None):
    """value of a term when some of its parts are constants (env: canonical text or term -> constant, or a function); NoVal when it does not follow"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = _ceval(ev, t, env, memo)
    memo[t] = r
    return r


def _ceval(ev, t, env, memo):
    k, a = t.k, t.a
    g = lambda x: ceval(ev, x, env, memo)
    if callable(env):
        v = env(t)
        if v is not None:
            return v
    elif t in env:
        return env[t]
    if k == "c":
        return a[0]
    if k in ("fld", "el") and not callable(env):
        # a place inside an object chosen by a condition
        b, chain = t, []
        while b.k in ("fld", "el"):
            chain.append(b)
            b = b.a[0]
        if b.k == "ite":
            b = b.a[1] if g(b.a[0]) else b.a[2]
            for c in reversed(chain):
                b = mk(c.k, b, *c.a[1:])
            return g(b)
    if k in ("tok", "jget", "sym", "fld", "el", "deref", "call", "dyn", "size", "jat", "jlen", "count") and not callable(env):
        c = canon(ev, t)
        if c in env:
            return env[c]
    if k == "el" and not callable(env) and not isc(a[1]):
        b = a[0]
        while b.k in ("fld", "el"):
            b = b.a[0]
        if b.k == "sym":
            i = g(a[1])
            if i.__class__ is int:
                return g(mk("el", a[0], C(i)))
    if k == "trunc":
        return math.trunc(g(a[1] if len(a) > 1 and a[1].__class__ is T else a[-1]))
    if k == "op":
        if len(a) == 2:
            v = g(a[1])
            return -v if a[0] == "-" else v if a[0] == "+" else (not v) if a[0] == "!" else _nov()
        if a[0] in ("&&", "||"):
            x = g(a[1])
            return (bool(x) and bool(g(a[2]))) if a[0] == "&&" else (bool(x) or bool(g(a[2])))
        x, y = g(a[1]), g(a[2])
        try:
            if a[0] == "+": return x + y
            if a[0] == "-": return x - y
            if a[0] == "*": return x * y
            if a[0] == "//":
                q = abs(int(x)) // abs(int(y))
                return q if (x >= 0) == (y >= 0) else -q
            if a[0] == "/":
                if x.__class__ is int and y.__class__ is int and len(a) > 3:
                    return int(x / y)
                if y == 0:
                    return math.nan if x == 0 or x != x else math.copysign(math.inf, x)
                return x / y
            if a[0] == "%": return int(math.fmod(x, y))
            if a[0] == "&": return x & y
            if a[0] == "|": return x | y
            if a[0] == "<<": return x << y
            if a[0] == ">>": return x >> y
        except (TypeError, OverflowError, ValueError, ZeroDivisionError):
            pass
        raise NoVal(a[0])
    if k == "eq":
        return g(a[0]) == g(a[1])
    if k == "lt":
        return g(a[0]) < g(a[1])
    if k == "le":
        return g(a[0]) <= g(a[1])
    if k == "not":
        return not g(a[0])
    if k in ("and", "or"):
        unknown = None
        for x in a:
            try:
                if bool(g(x)) == (k == "or"):
                    return k == "or"
            except NoVal as e:
                unknown = e
        if unknown:
            raise unknown
        return k == "and"
    if k == "ite":
        return g(a[1]) if g(a[0]) else g(a[2])
    if k in ("map", "il"):
        return tuple(g(x) for x in a)
    if k == "el" and a[0].k == "il":
        i = g(a[1])
        if i.__class__ is int and 0 <= i < len(a[0].a):
            return g(a[0].a[i])
        raise NoVal("index")
    if k == "call" and len(a) == 1 and a[0].split("::")[-1] == "infinity":
        return math.inf
    if k == "call" and a[0] == "std::complex(ctor)":
        try:
            return complex(*[g(x) for x in a[1:] if x.__class__ is T])
        except TypeError:
            raise NoVal("complex")
    if k == "call" and a[0].startswith("std::complex") and a[0].split("::")[-1] in ("real", "imag") and len(a) == 2:
        v = g(a[1])
        return v.real if a[0].endswith("real") else v.imag
    if k == "call":
        n = a[0].split("::")[-1].split("<")[0]
        if n in CFUN and not a[0].startswith("SEMBA"):
            try:
                return CFUN[n](*[g(x) for x in a[1:] if x.__class__ is T])
            except (TypeError, ValueError, OverflowError):
                raise NoVal(n)
    raise NoVal(k)


def _nov():
    raise NoVal("op")


def close(x, y, tol=1e-9, floor=1.0):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if x != x or y != y:
        return x != x and y != y
    if x.__class__ is complex or y.__class__ is complex:
        return abs(x - y) <= tol * max(floor, abs(x), abs(y))
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * max(floor, abs(x), abs(y))


def cagree(ev, t, cases):
    """compare a term with expected constants for several input classes; cases: (env, expected). verdict True/False/None and text"""
    res = True
    for env, want in cases:
        try:
            got = ceval(ev, t, env)
        except NoVal as e:
            res = None
            continue
        if not close(got, want):
            return False, "on constants %s it is %s, expected %s" % (str(sorted(env.values(), key=str))[:80] if not callable(env) else "of a case", got, want)
    return res, ""


# ---------------------------------------------------------------------- loops as filters over a container
def span(ev, lid):
    """what a loop runs over: dict(kind, phi, start, cont, whole, strict) or None. cont is the container term, start the first position"""
    d = ev.loops.get(lid)
    if d is None:
        return None
    if d.get("rng") is not None:
        return dict(kind="rng", phi=None, start=C(0), cont=d["rng"], whole=not d.get("brk"), brk=bool(d.get("brk")))
    c = d["cond"]
    neg = c.k == "not"
    e = c.a[0] if neg else c
    for k, ph in d["phis"].items():
        step, init = d["step"].get(k), d["init"].get(k)
        if step is None or init is None or not any(x is ph for x in subterms(c)):
            continue
        n = _bump(step, ph)
        if n is None:
            return None
        its = init
        extra = 0
        while its.k == "next":
            its = its.a[0]
            extra += 1
        if its.k == "it" or e.k == "eq" and any(x.k == "mend" for x in e.a):
            if its.k != "it":
                return None
            base, off = its.a[0], its.a[1] if len(its.a) > 1 else 0
            off = off if off.__class__ is int else off.a[0] if off is not None and isc(off) else None
            if off is None or not (e.k == "eq" and neg and any(x.k == "mend" and x.a[0] is base for x in e.a) and ph in e.a):
                return None
            return dict(kind="it", phi=ph, start=C(off + extra), cont=base, whole=n == 1 and off + extra == 0 and not d.get("brk"), brk=bool(d.get("brk")), step=n)
        bound, add = None, 0
        if e.k == "lt" and not neg and e.a[0] is ph:
            bound = e.a[1]
        elif e.k == "eq" and neg and ph in e.a:
            bound = e.a[1] if e.a[0] is ph else e.a[0]
        elif e.k == "le" and neg and e.a[1] is ph:
            bound = e.a[0]
        elif e.k == "le" and not neg and e.a[0] is ph:
            bound, add = e.a[1], 1
        if bound is None:
            return None
        if bound.k == "op" and len(bound.a) == 3 and bound.a[0] in "+-" and num(bound.a[2]) and sizeof(bound.a[1]) is not None:
            add += bound.a[2].a[0] * (1 if bound.a[0] == "+" else -1)
            bound = bound.a[1]
        b = sizeof(bound)
        return dict(kind="idx", phi=ph, start=init, cont=b, bound=bound, off=add, step=n, brk=bool(d.get("brk")),
                    whole=b is not None and n == 1 and add == 0 and isc(init) and init.a[0] == 0 and not d.get("brk"))
    return None


CUR, IDX = mk("sym", "@e"), mk("sym", "@i")


def atcur(ev, sp, t):
    """the term with the loop's current element written @e and its position @i"""
    m = {}
    for x in subterms(t):
        if x.k == "el" and sp["cont"] is not None and x.a[0] is sp["cont"] and (x.a[1] is sp["phi"] or sp["kind"] == "rng" and x.a[1].k in ("ix", "phi")):
            m[x] = CUR
        elif x.k == "deref" and sp["kind"] == "it" and x.a[0] is sp["phi"]:
            m[x] = CUR
    t = subst(t, m) if m else t
    return subst(t, {sp["phi"]: IDX}) if sp["phi"] is not None and sp["kind"] == "idx" else t


def appended(t, base, cond=TRUE):
    """decomposition of a container value into base followed by additions: [(condition, 'one'|'all', value)], or None"""
    if t is base:
        return []
    if t.k == "m":
        n = str(t.a[0]).split("::")[-1]
        if n in ("push_back", "emplace_back") and len(t.a) == 3:
            r = appended(t.a[1], base, cond)
            return None if r is None else r + [(cond, "one", t.a[2])]
        if n == "insert" and len(t.a) == 5 and t.a[2].k == "mend" and t.a[2].a[0] is t.a[1] and t.a[3].k == "it" and t.a[4].k == "mend" and t.a[4].a[0] is t.a[3].a[0]:
            r = appended(t.a[1], base, cond)
            off = t.a[3].a[1] if len(t.a[3].a) > 1 else 0
            off = off if off.__class__ is int else off.a[0] if isc(off) else None
            if r is None or off != 0:
                return None
            return r + contents(t.a[3].a[0], cond)
        return None
    if t.k == "ite":
        a, b = appended(t.a[1], base, land(cond, t.a[0])), appended(t.a[2], base, land(cond, lnot(t.a[0])))
        return None if a is None or b is None else a + b
    if t.k == "il" and base.k == "il" and list(t.a[:len(base.a)]) == list(base.a):
        return [(cond, "one", x) for x in t.a[len(base.a):]]
    return None


def contents(t, cond=TRUE):
    if t.k == "il":
        return [(cond, "one", x) for x in t.a]
    if t.k == "ite":
        return contents(t.a[1], land(cond, t.a[0])) + contents(t.a[2], land(cond, lnot(t.a[0])))
    return [(cond, "all", t)]


def fillform(ev, t):
    """a container built by one loop: dict(init, lid, span, adds=[(cond, kind, value)]) with the loop's element as @e and position as @i; None if it is not of that form"""
    if t.k != "loopval":
        return None
    lid, init, step = t.a[0], t.a[2], t.a[3]
    phs = [x for x in subterms(step) if x.k == "phi" and x.a[0] == lid and x.a[1] is t.a[1]]
    base = phs[0] if phs else None
    if len(phs) != 1:
        return None
    sp = span(ev, lid)
    ad = appended(step, base)
    if sp is None or ad is None:
        return dict(init=init, lid=lid, span=sp, adds=None)
    return dict(init=init, lid=lid, span=sp, adds=[(atcur(ev, sp, c), k, atcur(ev, sp, v)) for c, k, v in ad])


def freeenvs(ev, terms, env, maxn=3):
    """environments extending env (a function term -> constant or None) with both outcomes of the position tests the terms contain"""
    at = []
    for t in terms:
        for x in subterms(t):
            if x.k == "eq" and x not in at and env(x) is None and IDX in x.a and not any(y.k in UNDEC or y is CUR for y in subterms(x)):
                at.append(x)
    if not at or len(at) > maxn:
        return [env]
    out = []
    for m in range(1 << len(at)):
        d = {x: bool(m >> i & 1) for i, x in enumerate(at)}
        out.append(lambda t, d=d: d[t] if t in d else env(t))
    return out


# ---------------------------------------------------------------------- operations on containers of a given shape
def IL(name, n):
    """a container of n unknown elements"""
    return mk("il", *[sym("%s%d" % (name, i)) for i in range(n)])


class Shaped:
    """a function evaluated on an object whose containers have a given number of (unknown) elements; values are read back as nested lists of terms"""

    def __init__(self, ctx, f, inline, args=(), put=(), assume=(), dyn=None, this="G", budget=400000, rec=0, exact=()):
        self.ctx, self.f = ctx, f
        self.ev = ev = ctx.ev(inline)
        ev.budget = max(getattr(ev, "budget", 0) or 0, budget)
        ev.rec = rec
        st = State()
        self.o = None
        if f.get("ctor"):
            self.o = mk("obj", 0, f["cls"])
            ev.objs[self.o] = dict(cls=f["cls"], args=[], line=0, usr=None, heap=False, fn=None)
        elif f.get("cls") and not f.get("static"):
            self.o = sym(this)
            ev.dyncls[self.o] = dyn or f["cls"]
        for a, p in zip(args, f["p"]):
            t = re.sub(r"^const ", "", p["t"]).rstrip(" &*").replace("const", "").strip()
            if a.k == "sym" and t in ctx.P.recs:
                ev.dyncls.setdefault(a, t)
        for o, c in dict(exact).items():
            ev.exact[o] = ev.dyncls[o] = c
        ev.inputs = {a for a in args if a.k == "sym"} | {self.o}
        for loc, v in put:
            st.store[loc(self.o) if callable(loc) else loc] = v
        for c, v in assume:
            ev.assume(st, c, v)
        try:
            self.r = ev.run(f, self.o, list(args), st)
            self.limit = False
        except Limit:
            self.r = NS(st=None, ret=None, throws=[])
            self.limit = True

    def then(self, f, args=(), put=(), exact=(), this=None, assume=()):
        """another function evaluated on what this one left (the state a history of calls reaches)"""
        n = copy.copy(self)
        n.f = f
        if self.r.st is None:
            return n
        st = self.r.st.fork()
        for o, c in dict(exact).items():
            self.ev.exact[o] = self.ev.dyncls[o] = c
        n.o = self.o if this is None else this
        for loc, v in put:
            st.store[loc(n.o) if callable(loc) else loc] = v
        for c, v in assume:
            self.ev.assume(st, c, v)
        try:
            n.r = self.ev.run(f, n.o, list(args), st)
        except Limit:
            n.r = NS(st=None, ret=None, throws=[])
            n.limit = True
        return n

    def ret(self):
        if self.r.st is None or self.r.ret is None:
            return None
        return self.tree(self.ev.val(self.r.st, self.r.ret))

    def member(self, cls, name, idx=None, obj=None):
        if self.r.st is None:
            return None
        loc = fld(obj if obj is not None else self.o, cls + "::" + name)
        if idx is not None:
            loc = mk("el", loc, C(idx))
        return self.tree(self.ev.val(self.r.st, loc))

    def loc(self, l):
        return self.tree(self.ev.val(self.r.st, l)) if self.r.st is not None else None

    def tree(self, t, d=0):
        ev, st = self.ev, self.r.st
        if d > 8:
            return t
        if t.k == "ite":
            a, b = self.tree(t.a[1], d + 1), self.tree(t.a[2], d + 1)
            if a.__class__ is T and b.__class__ is T:
                return t
            return ("ite", t.a[0], a, b)
        if t.k == "il":
            return [self.tree(ev.val(st, x), d + 1) for x in t.a]
        if t.k == "pair":
            return [self.tree(ev.val(st, x), d + 1) for x in t.a]
        c = clsof(self.ctx.P, t) or ev.dyncls.get(t) or ""
        if c and t.k in ("obj", "sym", "fld", "el", "var"):
            if "Vector::Cartesian<" in c or c.split("::")[-1] == "CVecI3Fractional" and False:
                m = re.search(r"Cartesian<[^,]*, ?(\d+)", c)
                v = Val(self.ctx, ev, st, t)
                n = int(m.group(1)) if m else 3
                fn = v.fldname("val")
                if fn:
                    return [self.tree(ev.val(st, el(fld(t, fn), C(i))), d + 1) for i in range(n)]
            if "Geometry::Box<" in c:
                v = Val(self.ctx, ev, st, t)
                return [self.tree(ev.val(st, v.m(k).t if v.m(k).t.k != "unk" else v.m(k).t), d + 1) for k in ("min_", "max_")]
            if short(c) == "std::pair":
                return [self.tree(ev.val(st, fld(t, c + "::" + n)), d + 1) for n in ("first", "second")]
        return t

    def refused(self, env):
        """does the function refuse (throw or abort) on these constants? NoVal when it does not follow"""
        if self.limit:
            raise NoVal("the paths are too many")
        un = None
        for t in self.r.throws:
            try:
                if ceval(self.ev, t[0], env):
                    return True
            except NoVal as e:
                un = e
        if un:
            raise un
        return False

    def number(self, tr, env):
        if tr is None:
            raise NoVal("no value")
        if tr.__class__ is tuple:
            return self.number(tr[2] if ceval(self.ev, tr[1], env) else tr[3], env)
        if tr.__class__ is list:
            return [self.number(x, env) for x in tr]
        if tr.k == "ite":
            return self.number(self.tree(tr.a[1] if ceval(self.ev, tr.a[0], env) else tr.a[2]), env)
        if tr.k == "m" and str(tr.a[0]).split("::")[-1] in ("push_back", "emplace_back"):
            return self.number(self.tree(tr.a[1]), env) + [self.number(self.tree(tr.a[2]), env)]
        return ceval(self.ev, tr, env)


def closetree(a, b, tol=1e-9, floor=1.0):
    if a.__class__ in (list, tuple) or b.__class__ in (list, tuple):
        return a.__class__ in (list, tuple) and b.__class__ in (list, tuple) and len(a) == len(b) and all(closetree(x, y, tol, floor) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return close(a, b, tol, floor)


REFUSED = "refused"


def shaped_ob(ctx, rule, inst, s, tr, envs, want, w, tol=1e-9, shape=None, floor=1.0):
    """obligation: in each class of constants the value is want(env) (REFUSED: the function refuses)"""
    ok, det, n = True, "", 0
    for env in envs:
        exp = want(env)
        try:
            ref = s.refused(env)
            if ref or exp == REFUSED:
                if bool(ref) != (exp == REFUSED):
                    ok, det = False, "%s on %s" % ("refuses" if ref else "does not refuse", envtext(env))
                    break
                n += 1
                continue
            got = s.number(tr, env)
        except NoVal as e:
            ok, det = None, "does not follow: %s" % e
            continue
        n += 1
        if not closetree(got, exp, tol, floor):
            ok, det = False, "with %s it is %s, expected %s" % (envtext(env), str(got)[:300], str(exp)[:300])
            break
    ctx.ob(rule, inst, ok, det or "%d classes" % n, w)
    return ok


def envtext(env):
    return ", ".join("%s=%s" % kv for kv in sorted(env.items(), key=str))[:300] if isinstance(env, dict) else "a case"
