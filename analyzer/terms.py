"""Hash-consed value-flow terms with light normalisation."""

class T:
    __slots__ = ("k", "a", "id", "sub")

    def __repr__(self):
        return text(self)


_tab = {}
_n = [0]


def mk(k, *a):
    key = (k,) + tuple([("T", x.id) if x.__class__ is T else (x.__class__.__name__, x) for x in a])
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t.sub = False
        if k == "fld" or k == "el":
            a[0].sub = True         # some place inside this one has been named
        _tab[key] = t
    return t


def C(v):
    return mk("c", v)


TRUE, FALSE, NULL = C(True), C(False), C(None)
UNK = mk("unk")


def isc(t):
    return t.k == "c"


def sym(n):
    return mk("sym", n)


UNIQ = {c + "::" for c in ("std::map", "std::set", "std::unordered_map", "std::unordered_set")}


def iscount(t):
    """t is the number (0 or 1) of entries of a map or set under a key"""
    return t.k == "call" and t.a[0].endswith("::count") and t.a[0][:-5] in UNIQ and len(t.a) == 3


def fld(b, n):
    while b.k == "dyn":
        b = b.a[1]
    if b.k == "deref" and b.a[0].k == "call" and n.endswith("second") and b.a[0].a[0].endswith("map::find") and len(b.a[0].a) == 3:
        return el(b.a[0].a[1], b.a[0].a[2])
    return mk("fld", b, n)


def el(b, i):
    while b.k == "dyn":
        b = b.a[1]
    if b.k == "il" and isc(i) and isinstance(i.a[0], int) and 0 <= i.a[0] < len(b.a):
        return b.a[i.a[0]]
    return mk("el", b, i)


def lnot(t):
    if isc(t):
        return C(not t.a[0])
    if t.k == "not":
        return t.a[0]
    if t.k == "lt":
        return le(t.a[1], t.a[0])
    if t.k == "le":
        return lt(t.a[1], t.a[0])
    return mk("not", t)


def truth(t):
    """term used as a condition"""
    if isc(t):
        return C(bool(t.a[0]))
    if t.k in ("obj", "str+", "this", "lambda", "adr"):
        return TRUE
    if t.k == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if iscount(t):
        return lnot(eq(t, C(0)))
    return t


def _flat(k, a):
    out = []
    for x in a:
        if x.k == k:
            out.extend(x.a)
        else:
            out.append(x)
    return out


def land(*a):
    out = []
    for x in _flat("and", a):
        if isc(x):
            if not x.a[0]:
                return FALSE
            continue
        if x not in out:
            if lnot(x) in out:
                return FALSE
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def lor(*a):
    out = []
    for x in _flat("or", a):
        if isc(x):
            if x.a[0]:
                return TRUE
            continue
        if x not in out:
            if lnot(x) in out:
                return TRUE
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def num(t):
    return isc(t) and isinstance(t.a[0], (int, float))


def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        if a.a[0] is None or b.a[0] is None:
            return C((a.a[0] or None) is (b.a[0] or None))
        return C(a.a[0] == b.a[0])
    for x, y in ((a, b), (b, a)):
        if y is NULL and x.k in ("obj", "this", "str+"):
            return FALSE
    if a.k == "obj" and b.k == "obj" or {a.k, b.k} == {"obj", "sym"}:
        return FALSE
    if a.k == "mend" and b.k == "mend" and all(x.a[0].k in ("il", "map") and not x.a[0].a for x in (a, b)):
        return TRUE
    if isc(a) or (b.k == "mend"):
        a, b = b, a
        if isc(a):
            a, b = b, a
    if a.k == "mend" and b.k == "mit":
        a, b = b, a
    if a.k == "it" and b.k == "it" and a.a[0] is b.a[0] and isc(a.a[1]) and isc(b.a[1]):
        return C(a.a[1].a[0] == b.a[1].a[0])
    for x, y in ((a, b), (b, a)):
        if x.k == "it" and y.k == "mend" and x.a[0] is y.a[0] and x.a[0].k == "il" and isc(x.a[1]):
            return TRUE if x.a[1].a[0] == len(x.a[0].a) else FALSE
        if x.k == "it" and y.k == "mend" and x.a[0] is y.a[0] and x.a[0].k == "map" and isc(x.a[1]):
            return C(x.a[1].a[0] == len(x.a[0].a) // 2)
    if a.k == "mit" and b.k == "mend" and a.a[0] is b.a[0]:
        return lnot(lor(*[eq(a.a[1], k) for k in a.a[0].a[0::2]]))
    for x, y in ((a, b), (b, a)):
        if x.k == "mend" and y.k == "call" and y.a[0].endswith("::find") and y.a[0][:-4] in UNIQ and len(y.a) == 3 and y.a[1] is x.a[0]:
            return eq(mk("call", y.a[0][:-4] + "count", y.a[1], y.a[2]), C(0))
        if iscount(x) and num(y) and y.a[0] != 0:
            return lnot(eq(x, C(0))) if y.a[0] == 1 else FALSE
    if a.k == "strcmp" and isc(b) and b.a[0] == 0:
        return FALSE
    if isc(b) and a.k == "ite":
        r = ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        return r
    if isc(b) and b.a[0] is True:
        return a
    if isc(b) and b.a[0] is False:
        return lnot(a)
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def inf(t):
    """1 or -1: the term is an infinity; 0: it is not known to be one"""
    if t.k == "call" and len(t.a) == 1 and t.a[0].split("::")[-1] == "infinity":
        return 1
    if t.k == "op" and len(t.a) == 3 and t.a[0] == "*" and t.a[1] is C(-1) and inf(t.a[2]) == 1:
        return -1
    return 0


def lt(a, b):
    if (num(a) or num(b)) and (a.k != "c" or b.k != "c"):
        ia, ib = inf(a), inf(b)
        if ia and num(b):
            return C(ia < 0)
        if ib and num(a):
            return C(ib > 0)
    if iscount(b) and num(a) and a.a[0] == 0:
        return lnot(eq(b, C(0)))
    if iscount(a) and num(b) and b.a[0] == 1:
        return eq(a, C(0))
    if num(a) and num(b):
        return C(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    return mk("lt", a, b)


def le(a, b):
    if num(a) and inf(b) or inf(a) and num(b):
        return lt(a, b)
    if iscount(b) and num(a) and a.a[0] == 1:
        return lnot(eq(b, C(0)))
    if iscount(a) and num(b) and b.a[0] == 0:
        return eq(a, C(0))
    if num(a) and num(b):
        return C(a.a[0] <= b.a[0])
    if a is b:
        return TRUE
    return mk("le", a, b)


def ite(c, a, b):
    if isc(c):
        return a if c.a[0] else b
    if a is b:
        return a
    if c.k == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if isc(b) and b is FALSE and a.k in BOOLK:
        return land(c, a)
    if a is TRUE and b.k in BOOLK:
        return lor(c, b)
    if a.k == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.k == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


BOOLK = ("eq", "lt", "le", "and", "or", "not")

_ARI = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}


def arith(op, a, b, isint=False):
    if op == "//":
        op, isint = "/", True
    if num(a) and num(b):
        x, y = a.a[0], b.a[0]
        try:
            if op in _ARI:
                return C(_ARI[op](x, y))
            if op == "/":
                if isint:
                    if y:
                        q = abs(int(x)) // abs(int(y))
                        return C(q if (x >= 0) == (y >= 0) else -q)
                elif y:
                    return C(float(x) / y)
            if op == "%" and y:
                return C(int(x) % int(y)) if x >= 0 and y > 0 else mk("op", op, a, b)
            if op == "<<":
                return C(int(x) << int(y))
            if op == ">>":
                return C(int(x) >> int(y))
            if op == "&":
                return C(int(x) & int(y))
            if op == "|":
                return C(int(x) | int(y))
            if op == "^":
                return C(int(x) ^ int(y))
        except Exception:
            pass
    if op == "+" and isc(b) and b.a[0] == 0 and not isinstance(b.a[0], str):
        return a
    if op == "+" and isc(a) and a.a[0] == 0 and not isinstance(a.a[0], str):
        return b
    if op == "-" and num(b) and b.a[0] == 0:
        return a
    if op == "*" and num(b) and b.a[0] == 1:
        return a
    if op == "*" and num(a) and a.a[0] == 1:
        return b
    if op == "/" and num(b) and b.a[0] == 1:
        return a
    if op == "/" and isint:
        op = "//"
    return mk("op", op, a, b)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if y.__class__ is T:
                st.append(y)


def subst(t, m, memo=None):
    """replace subterms and re-normalise"""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    r = memo.get(t.id)
    if r is not None:
        return r
    if not any(x.__class__ is T for x in t.a):
        r = t
    else:
        a = [subst(x, m, memo) if x.__class__ is T else x for x in t.a]
        r = t if all(p is q for p, q in zip(a, t.a)) else build(t.k, a)
    memo[t.id] = r
    return r


def build(k, a):
    if k == "ite":
        return ite(*a)
    if k == "eq":
        return eq(*a)
    if k == "not":
        return lnot(a[0])
    if k == "and":
        return land(*a)
    if k == "or":
        return lor(*a)
    if k == "lt":
        return lt(*a)
    if k == "le":
        return le(*a)
    if k == "op":
        return arith(*a)
    if k == "fld":
        return fld(*a)
    if k == "el":
        return el(*a)
    if k == "call" and len(a) in (2, 3) and all(num(x) for x in a[1:]):
        f = _MF.get(a[0].split("::")[-1])
        if f:
            try:
                return C(float(f(*[x.a[0] for x in a[1:]])))
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                pass
    return mk(k, *a)


import math as _m
_MF = dict(sqrt=_m.sqrt, abs=abs, fabs=abs, sin=_m.sin, cos=_m.cos, tan=_m.tan, acos=_m.acos, asin=_m.asin, atan=_m.atan, atan2=_m.atan2,
           exp=_m.exp, log=_m.log, pow=pow, floor=_m.floor, ceil=_m.ceil)


def leaves(t, cond=TRUE):
    """[(condition, non-ite leaf)] of a gated value"""
    if t.k == "ite":
        return leaves(t.a[1], land(cond, t.a[0])) + leaves(t.a[2], land(cond, lnot(t.a[0])))
    return [(cond, t)]


def text(t, n=600):
    """bounded rendering"""
    _budget[0] = 60
    s = show(t)
    return s if len(s) <= n else s[:n] + "..."


_budget = [60]


def show(t, d=0):
    if t.__class__ is not T:
        return repr(t)
    if d > 12 or _budget[0] <= 0:
        return "..."
    _budget[0] -= 1
    k, a = t.k, t.a
    s = lambda x: show(x, d + 1)
    if k == "c":
        return repr(a[0])
    if k == "sym":
        return a[0]
    if k == "fld":
        return s(a[0]) + "." + a[1].split("::")[-1]
    if k == "el":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if k == "op":
        return "(" + s(a[1]) + " " + a[0] + " " + s(a[2]) + ")" if len(a) > 2 else a[0] + s(a[1])
    if k == "ite":
        return "(" + s(a[0]) + " ? " + s(a[1]) + " : " + s(a[2]) + ")"
    if k == "not":
        return "!" + s(a[0])
    if k in ("eq", "lt", "le"):
        return "(" + s(a[0]) + {"eq": "==", "lt": "<", "le": "<="}[k] + s(a[1]) + ")"
    if k in ("and", "or"):
        return "(" + (" && " if k == "and" else " || ").join(s(x) for x in a) + ")"
    if k == "obj":
        return "new#%s:%s" % (a[0], a[1].split("::")[-1])
    if k == "call":
        return a[0].split("::")[-1] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if k == "enum":
        return a[0].split("::")[-1]
    return k + "(" + ", ".join(s(x) for x in a) + ")"
