"""Gated value-flow analysis over the resolved program: a flow-sensitive, context-sensitive abstract
interpretation whose values are hash-consed provenance terms.  Branches are joined with gates (ite), loops of
constant trip count are unrolled, other loops are summarised with phi symbols; nothing of /repo is executed and
no solver is involved.

Ev(prog).run(fn, this, args) -> Res(ret, store, trace, throws)
trace: nested list of effects
  ("call", name, usr, objterm, [args], line, fnname)   opaque call
  ("new", obj, cls, [args], line)                      construction of a /repo class by new/temporary/local
  ("set", loc, val, line)                              store to a non-local location
  ("del", val, line) ("throw", type, line) ("ret", val, line) ("brk",) ("cont",)
  ("if", cond, traceA, traceB) ("loop", id, trace) ("inl", fnname, usr, trace, args, obj)
  ("try", trace, [(type, trace)])
"""
import math
import re
import time
from terms import *

DEADLINE = time.monotonic() + 600      # what is not followed by then stays undecided


class Limit(Exception):
    pass


def short(n):
    """drop template arguments"""
    out, d = [], 0
    i = 0
    while i < len(n):
        ch = n[i]
        if n.startswith("operator", i) and (i == 0 or n[i - 1] == ":"):
            m = re.match(r"operator(<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|<|>)", n[i:])
            if m and d == 0:
                out.append(m.group(0))
                i += len(m.group(0))
                continue
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out).strip()


def isstd(cls):
    return cls.startswith(("std::", "nlohmann::", "__gnu_cxx::", "const std::"))


class State:
    __slots__ = ("store", "copies", "facts", "eqs", "trace", "env")

    def __init__(self):
        self.store = {}
        self.copies = {}
        self.facts = {}
        self.eqs = {}
        self.trace = []
        self.env = {}

    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.copies = dict(self.copies)
        s.facts = dict(self.facts)
        s.eqs = dict(self.eqs)
        s.trace = []
        s.env = dict(self.env)
        return s


class Comp:
    """completions of a statement: kind -> list of (pc, state, value)"""
    __slots__ = ("n", "ret", "brk", "cont", "thr")

    def __init__(self):
        self.n = None      # (pc, state)
        self.ret = []      # (pc, state, value)
        self.brk = []
        self.cont = []
        self.thr = []      # (pc, type, line, state)


class Thrown(Exception):
    """unconditional throw while evaluating an expression"""

    def __init__(self, ty, st, line):
        self.ty, self.st, self.line = ty, st, line


class Res:
    __slots__ = ("ret", "st", "trace", "throws", "rets", "pc", "this", "args")


VAL_IDENT = ("get", "operator->", "operator*")
PURE = {"at", "find", "begin", "end", "cbegin", "cend", "size", "empty", "front", "back", "count", "get", "operator[]", "operator*",
        "operator->", "c_str", "data", "length", "substr", "compare", "key", "value", "value", "operator==", "operator!=", "operator<", "rbegin", "rend",
        "is_null", "is_array", "is_object", "is_string", "is_number", "what", "first", "second", "equal_range", "lower_bound", "upper_bound",
        "good", "eof", "fail", "is_open", "rdbuf", "str", "contains", "use_count", "expired", "lock", "operator bool", "operator()", "name"}


FOLD = {"ceil": lambda x: float(math.ceil(x)), "floor": lambda x: float(math.floor(x)), "abs": abs, "fabs": abs, "sqrt": math.sqrt, "pow": math.pow, "log": math.log, "exp": math.exp,
        "round": lambda x: float(math.floor(abs(x) + .5)) * (1 if x >= 0 else -1), "min": min, "max": max, "fmin": min, "fmax": max}


UNSIGNED = {"unsigned int": 1 << 32, "unsigned long": 1 << 64, "unsigned long long": 1 << 64}
INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "long long", "unsigned long long", "char", "unsigned char", "signed char", "bool"}


def kconst(t):
    """a constant that orders as the key of a map does"""
    return num(t) or isc(t) and isinstance(t.a[0], str)


def mapped(cls):
    """the type of the values of a map"""
    d, j = 0, None
    m = re.match(r"[\w:]+<", cls)
    if not m:
        return ""
    for i in range(m.end(), len(cls)):
        c = cls[i]
        d += (c in "<(") - (c in ">)")
        if c == "," and d == 0 or d < 0:
            if j is not None:
                return cls[j:i].strip()
            j = i + 1
            if d < 0:
                return ""
    return ""


class Ev:
    MAXDEPTH = 24
    sink = None
    UNROLL = 130

    def __init__(self, prog, inline=None, opaque=(), budget=400000):
        self.P = prog
        self.inline = inline          # predicate(fn) -> bool or None
        self.opaque = set(opaque)     # qualified names never inlined
        self.known = None             # values given to calls: (function, object, arguments) -> value or None
        self.nobj = 0
        self.nframe = 0
        self.nloop = 0
        self.objs = {}                # obj term -> dict(cls, args, line, fn, usr)
        self.loops = {}               # loop id -> dict(line, fn, cond, vars)
        self.stack = []
        self.rec = 0           # recursive calls of a function that are followed
        self.steps = 0
        self.budget = budget
        self.unknown = []
        self.lambdas = {}
        self.visited = set()
        self.symbases = set()
        self.idval = {}
        self.exact = {}          # objects of exactly known class (casts and typeid are decided)
        self.dyncls = {}         # known dynamic class of symbolic objects               # identifier object -> last value given to it

    # ------------------------------------------------------------------ public
    def run(self, fn, this=None, args=None, st=None, dyn=None):
        st = st or State()
        if fn.get("cls") and not fn.get("smeth") and this is None:
            this = mk("this")
        if args is None:
            args = []
            for p in fn["p"]:
                args.append(sym(p["n"] or "arg%d" % len(args)))
        tr = st.trace
        thr = []
        self._thr = [thr]
        r = Res()
        r.this, r.args = this, args
        try:
            v, st2, pc = self.body(fn, this, args, st, complete=True)
        except Thrown as e:
            v, st2, pc = None, e.st, FALSE
            thr.append((TRUE, e.ty, e.line, e.st))
        r.ret, r.st, r.trace, r.throws, r.pc = v, st2, (st2.trace if st2 else tr), thr, pc
        return r

    # ------------------------------------------------------------------ store
    def key(self, loc):
        while loc.k == "dyn":
            loc = loc.a[1]
        return loc

    def load(self, st, loc):
        loc = self.key(loc)
        v = st.store.get(loc)
        if v is not None:
            return self.simp(st, v)
        if loc.k == "ite":
            return ite(loc.a[0], self.load(st, loc.a[1]), self.load(st, loc.a[2]))
        if loc.k == "el" and not isc(loc.a[1]) and loc.a[0].k in ("fld", "var") and loc.a[0] not in self.symbases and loc.a[1].k == "ite":
            # an element at a chosen index may be one that was stored
            ups = [(k.a[1], x) for k, x in st.store.items() if k.k == "el" and k.a[0] is loc.a[0]]
            if ups:
                r = self.load1(st, loc)
                for i, x in ups:
                    r = ite(eq(loc.a[1], i), x, r)
                return self.simp(st, r)
        if loc.k == "el" and loc.a[0] in self.symbases and isc(loc.a[1]):
            # elements stored at an index that is not a constant may be this one
            ups = [(k.a[1], x) for k, x in st.store.items() if k.k == "el" and k.a[0] is loc.a[0] and not isc(k.a[1])]
            if ups:
                r = self.load1(st, loc)
                for i, x in ups:
                    r = ite(eq(i, loc.a[1]), x, r)
                return r
        return self.load1(st, loc)

    def load1(self, st, loc):
        if loc.k in ("fld", "el"):
            b = loc.a[0]
            if num(b) and loc.k == "fld" and "Identification<" in loc.a[1]:
                # the number of an identifier, itself the key of a map
                return b
            if b.k in ("fld", "el"):
                r = self.chosen(st, loc)
                if r is not None:
                    return r
            if loc.k == "el":
                bv = st.store.get(b)
                if bv is None and b.k == "el":
                    bv = self.load(st, b)
                    if bv is b or bv.k not in ("il", "vecw", "adr", "map"):
                        bv = None
                if (bv or b).k == "adr" and (bv or b).a[0].k == "el":
                    # element of the array a pointer points into
                    a, i = (bv or b).a[0].a
                    return self.load(st, el(a, arith("+", i, loc.a[1], True)))
                if bv is not None and bv.k in ("il", "vecw", "map"):
                    r = self.elem(st, bv, loc.a[1])
                    if r is not None:
                        return r
                elif bv is not None and bv is not b and bv.k not in ("fld", "el", "sym", "obj", "this"):
                    return el(bv, loc.a[1])
            r = self.fromcopy(st, b, loc)
            if r is not None:
                return r
        return loc

    def chosen(self, st, loc):
        """part of an element of a container whose content depends on conditions: the part of the element in each case"""
        path, x = [loc], loc.a[0]
        while x.k in ("fld", "el"):
            bv = st.store.get(x.a[0]) if x.k == "el" and isc(x.a[1]) else None
            if bv is not None and bv.k == "ite":
                break
            if x in st.store or x in st.copies:
                return None
            if bv is not None and bv.k == "il" and isc(x.a[1]) and x.a[1].a[0].__class__ is int and 0 <= x.a[1].a[0] < len(bv.a) and bv.a[x.a[1].a[0]].k == "obj":
                break
            path.append(x)
            x = x.a[0]
        else:
            return None
        ls = leaves(bv)
        if len(ls) > 12 or any(l.k != "il" for _, l in ls):
            return None

        def go(v):
            if v.k == "ite":
                return ite(v.a[0], go(v.a[1]), go(v.a[2]))
            e = self.elem(st, v, x.a[1])
            if e is None:
                return UNK
            for p in reversed(path):
                e = mk("el", e, p.a[1]) if p.k == "el" else fld(e, p.a[1])
                e = st.store.get(e, e)
            return self.load(st, e)
        return go(bv)

    def strval(self, st, t, d=0):
        """string content of an object of a class derived from std::string"""
        if t.k not in ("obj", "fld", "el") or d > 12:
            return t
        if t in st.store:
            return self.strval(st, st.store[t], d + 1) if st.store[t] is not t else t
        x, path = t, []
        while True:
            cp = st.copies.get(x)
            if cp is not None:
                break
            if x.k not in ("fld", "el"):
                return t
            path.append(x)
            x = x.a[0]
        if cp[0] != "cp":
            return t
        y = cp[1]
        for p in reversed(path):
            y = mk("el", y, p.a[1]) if p.k == "el" else fld(y, p.a[1])
        s2 = State()
        s2.store, s2.copies = cp[2], cp[3]
        return self.strval(s2, y, d + 1)

    def elem(self, st, bv, i):
        if bv.k == "il":
            if isc(i) and isinstance(i.a[0], int) and 0 <= i.a[0] < len(bv.a):
                return bv.a[i.a[0]]
            return el(bv, i) if not isc(i) else None
        if bv.k == "map" and isc(i):
            for j in range(0, len(bv.a), 2):
                if bv.a[j] is i:
                    return bv.a[j + 1]
        return None

    def fromcopy(self, st, b, loc):
        path = [loc]
        x = b
        while True:
            cp = st.copies.get(x)
            if cp is not None:
                return self._cpload(cp, path, st)
            if x.k in ("fld", "el"):
                path.append(x)
                x = x.a[0]
                continue
            return None

    def _cpload(self, cp, path, st):
        if cp[0] == "ite":
            a = self._cpload(cp[2], path, st) if cp[2] else path[0]
            b = self._cpload(cp[3], path, st) if cp[3] else path[0]
            return ite(cp[1], a, b)
        _, src, store, copies = cp
        t = src
        for p in reversed(path):
            t = mk(p.k, t, p.a[1]) if p.k == "el" else fld(t, p.a[1])
            if p is not path[0]:
                v = store.get(t)
                if v is not None:
                    t = v
        s2 = State()
        s2.store, s2.copies = store, copies
        return self.load(s2, t)

    def put(self, st, loc, v, line=0, rec=True):
        loc = self.key(loc)
        if loc.k == "ite":
            for c, l in leaves(loc):
                self.put(st, l, ite(c, v, self.load(st, l)), line, rec)
            return
        if loc.k == "el" and not isc(loc.a[1]):
            self.symbases.add(loc.a[0])
            for k in [k for k in st.store if k.k == "el" and k.a[0] is loc.a[0] and isc(k.a[1])]:
                st.store[k] = ite(eq(loc.a[1], k.a[1]), v, st.store[k])
        st.store[loc] = v
        if loc.k == "fld" and loc.a[0].k == "obj" and "Identification<" in loc.a[1]:
            self.idval[loc.a[0]] = v
        if loc.sub:
            for k in [k for k in st.store if k is not loc and self.under(k, loc)]:
                del st.store[k]
        if rec and loc.k != "var":
            st.trace.append(("set", loc, v, line))

    def under(self, k, base):
        while k.k in ("fld", "el"):
            k = k.a[0]
            if k is base:
                return True
        return False

    def copyobj(self, st, dst, src, line=0, rec=True):
        dst = self.key(dst)
        src = self.key(src)
        if dst.sub:
            for k in [k for k in st.store if self.under(k, dst)]:
                del st.store[k]
        for k in [k for k in st.copies if k is dst or self.under(k, dst)]:
            del st.copies[k]
        v = st.store.get(src)
        if v is not None:
            st.store[dst] = v
        elif src.k == "ite":
            cp = None
            for c, l in leaves(src):
                one = ("cp", l, dict(st.store), dict(st.copies))
                cp = one if cp is None else ("ite", c, one, cp)
            st.copies[dst] = cp
        else:
            st.copies[dst] = ("cp", src, dict(st.store), dict(st.copies))
        if rec and dst.k != "var":
            st.trace.append(("set", dst, mk("copy", src), line))

    def clonevals(self, st, v, cls, line, d=0):
        """the elements of a copied container of objects are objects of their own"""
        m = re.match(r"(?:const )?std::(?:vector|list|deque)<(.*?)>$", cls)
        if m is None or m.group(1) not in self.P.recs or v.k != "il" or d > 6 or not all(x.k == "obj" for x in v.a):
            return v
        ns = []
        for x in v.a:
            n = self.newobj(m.group(1), [], line, None)
            self.copyobj(st, n, x, line, False)
            for f in self.P.recs[m.group(1)].get("fields", ()):
                t = f.get("t", "")
                if t.startswith(("std::vector<", "std::list<", "std::map<")):
                    l = m.group(1) + "::" + f["n"]
                    y = self.val(st, fld(x, l))
                    if y.k in ("il", "map"):
                        st.store[fld(n, l)] = self.clonevals(st, y, t, line, d + 1)
            ns.append(n)
        return mk("il", *ns)

    def val(self, st, t):
        """value of an argument (locations of value-typed things are loaded)"""
        if t.k in ("var", "fld", "el"):
            v = self.load(st, t)
            if v.k == "il":
                # array whose elements were assigned one by one
                ov = {}
                for k, x in st.store.items():
                    if k.k == "el" and k.a[0] is self.key(t) and isc(k.a[1]) and isinstance(k.a[1].a[0], int):
                        ov[k.a[1].a[0]] = x
                if ov:
                    n = max(len(v.a), max(ov) + 1)
                    if n <= 64:
                        return self.nested(st, self.key(t), mk("il", *[ov[i] if i in ov else v.a[i] if i < len(v.a) else UNK for i in range(n)]))
                return self.nested(st, self.key(t), v)
            if v.k == "map" and len(v.a):
                # values of a map that were assigned through references to them
                k = self.key(t)
                ups = {x.a[1]: y for x, y in st.store.items() if x.k == "el" and x.a[0] is k}
                if ups and all(i in v.a[0::2] for i in ups):
                    return mk("map", *[y for j in range(0, len(v.a), 2) for y in (v.a[j], ups.get(v.a[j], v.a[j + 1]))])
            return v
        if t.k == "glob" and isc(st.store.get(t, UNK)):
            return st.store[t]
        return t

    # ------------------------------------------------------------------ facts
    def assume(self, st, c, val=True):
        if isc(c):
            return
        if c.k == "not":
            return self.assume(st, c.a[0], not val)
        if c.k == "and" and val or c.k == "or" and not val:
            for x in c.a:
                self.assume(st, x, val)
            st.facts[c] = val
            return
        if c.k == "ite":
            # (g ? X : false) true means g and X
            if val and c.a[2] is FALSE:
                self.assume(st, c.a[0], True)
                self.assume(st, c.a[1], True)
            elif val and c.a[1] is FALSE:
                self.assume(st, c.a[0], False)
                self.assume(st, c.a[2], True)
        st.facts[c] = val
        if c.k in ("lt", "le"):
            st.facts[mk("le" if c.k == "lt" else "lt", c.a[1], c.a[0])] = not val
        if c.k == "eq" and val and isc(c.a[1]):
            st.eqs[c.a[0]] = c.a[1]

    def decide(self, st, c, memo=None):
        """True/False/None"""
        if isc(c):
            return bool(c.a[0])
        v = st.facts.get(c)
        if v is not None:
            return v
        if c.k == "eq":
            k = st.eqs.get(c.a[0])
            if k is not None and isc(c.a[1]):
                return k.a[0] == c.a[1].a[0]
            return None
        if c.k == "not":
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        if c.k in ("and", "or"):
            rs = [self.decide(st, x) for x in c.a]
            if c.k == "and":
                if False in rs:
                    return False
                return True if all(r is True for r in rs) else None
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        return None

    def simp(self, st, t, memo=None):
        if not st.facts:
            return t
        if t.k == "ite" or t.k in BOOLK:
            return self._simp(st, t, {})
        return t

    def _simp(self, st, t, memo):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.k == "ite":
            d = self.decide(st, t.a[0])
            if d is None:
                c = self._simp(st, t.a[0], memo)
                r = ite(c, self._simp(st, t.a[1], memo), self._simp(st, t.a[2], memo))
            else:
                r = self._simp(st, t.a[1] if d else t.a[2], memo)
        elif t.k in BOOLK:
            d = self.decide(st, t)
            if d is not None:
                r = C(d)
            elif t.k in ("and", "or", "not"):
                r = build(t.k, [self._simp(st, x, memo) for x in t.a])
            else:
                r = t
        else:
            r = t
        memo[t.id] = r
        return r

    # ------------------------------------------------------------------ merging
    def merge(self, c, a, b, trace=None):
        """state equal to a under c, else b (traces are not merged here)"""
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        s.env = a.env if len(a.env) >= len(b.env) else b.env
        if a.env != b.env:
            s.env = dict(b.env)
            s.env.update(a.env)
        sa, sb = a.store, b.store
        st = dict(sb)
        for k, v in sa.items():
            w = sb.get(k)
            if w is v:
                continue
            if w is None:
                if k.k == "var" or (k.k == "obj"):
                    st[k] = v
                    continue
                w = self._load0(b, k)
            st[k] = ite(c, v, w)
        for k, w in sb.items():
            if k not in sa:
                if k.k == "var" or k.k == "obj":
                    continue
                st[k] = ite(c, self._load0(a, k), w)
        s.store = st
        cp = dict(b.copies)
        for k, v in a.copies.items():
            w = b.copies.get(k)
            if w is v:
                continue
            if w is None and k.k == "obj":
                cp[k] = v
            else:
                cp[k] = ("ite", c, v, w)
        for k, w in b.copies.items():
            if k not in a.copies and k.k != "obj":
                cp[k] = ("ite", c, None, w)
        s.copies = cp
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        s.eqs = {k: v for k, v in a.eqs.items() if b.eqs.get(k) is v}
        return s

    def _load0(self, st, k):
        f, e = st.facts, st.eqs
        st.facts, st.eqs = {}, {}
        try:
            return self.load(st, k)
        finally:
            st.facts, st.eqs = f, e

    def mergelist(self, items):
        """items: [(pc, state, value)] mutually exclusive -> (pc, state, value)"""
        pc, st, v = items[-1]
        for p, s, w in reversed(items[:-1]):
            st = self.merge(p, s, st)
            if v is None or w is None:
                v = v if w is None else w
            else:
                v = ite(p, w, v)
            pc = lor(p, pc)
        return pc, st, v

    # ------------------------------------------------------------------ functions
    def body(self, fn, this, args, st, complete=True, objcls=None):
        """-> (value, state after, pc of normal return). May raise Thrown."""
        self.steps += 1
        if len(self.stack) > self.MAXDEPTH:
            raise Limit("depth")
        self.nframe += 1
        fr = self.nframe
        self.stack.append((fn, fr, this))
        self.visited.add(fn["u"])
        outer_env = st.env
        outer_facts = st.facts, st.eqs
        st.env = {}
        self._bind(fn, fr, args, st)
        if fn.get("ctor"):
            self._inits(fn, this, st, complete)
        pcs0 = TRUE
        try:
            c = self.stmt(fn["b"], st, TRUE)
        finally:
            self.stack.pop()
        outs = list(c.ret)
        if c.n is not None:
            outs.append((c.n[0], c.n[1], None))
        for t in c.thr:
            self._thr[-1].append(t)
        if not outs:
            t = c.thr[-1] if c.thr else (TRUE, "?", fn["line"], st)
            e = Thrown(t[1], st, t[2])
            e.multi = True
            raise e
        pc, s2, v = self.mergelist(outs)
        s2 = s2 if s2 is not st else st
        s2.trace = st.trace
        s2.env = outer_env
        return v, s2, pc

    def _bind(self, fn, fr, args, st):
        for i, p in enumerate(fn["p"]):
            if i < len(args):
                a = args[i]
            elif "d" in p:
                a = self.expr(p["d"], st)
            else:
                a = UNK
            if p.get("ref") or not self._scalar(p["t"]):
                st.env[p["id"], fr] = a
            else:
                loc = mk("var", fr, p["id"])
                st.env[p["id"], fr] = loc
                st.store[loc] = self.val(st, a) if p.get("ref") else a

    def _scalar(self, t):
        """types kept by value in the store"""
        t = t.strip()
        if t.endswith(("*", "&", "* const")):
            return True
        if isstd(t):
            return True
        b = t[6:] if t.startswith("const ") else t
        r = self.P.recs.get(b)
        if r is not None:
            return False
        return True

    def _inits(self, fn, this, st, complete):
        for i in fn.get("init", ()):
            if i.get("b") is not None:
                if i.get("v") and not complete:
                    continue
                e = i["e"]
                if "enable_shared_from_this" in str(i["b"]) or (e or {}).get("k") == "ctor" and "enable_shared_from_this" in e.get("c", ""):
                    continue
                self.construct_into(e, this, st, False, i["l"])
            elif i.get("f"):
                loc = fld(this, i["c"] + "::" + i["f"])
                e = i["e"]
                if i.get("ref"):
                    self.put(st, loc, self.expr(e, st), i["l"])
                    continue
                self.init_loc(loc, e, st, i["l"], True)
                if (i.get("t") or "").endswith("]") and st.store.get(self.key(loc)) is mk("il"):
                    st.store[self.key(loc)] = self.arrinit(i["t"], mk("il"))
            elif i.get("deleg"):
                self.construct_into(i["e"], this, st, complete, i["l"])

    def init_loc(self, loc, e, st, line, rec):
        """initialise a location from an initialiser expression"""
        if e is None:
            return
        if e["k"] == "ctor" and not isstd(e["c"]):
            self.construct_into(e, loc, st, True, line, rec)
            return
        if e["k"] == "il" and e.get("t") and not isstd(e["t"]) and self.P.recs.get(e["t"].replace("const ", "")):
            r = self.P.recs[e["t"].replace("const ", "")]
            for f, x in zip(r["fields"], e["a"]):
                self.init_loc(fld(loc, r["n"] + "::" + f["n"]), x, st, line, rec)
            return
        if e["k"] == "arrcopy":
            self.copyobj(st, loc, self.expr(e["e"], st), line, rec)
            return
        v = self.expr(e, st)
        if not self._scalar(e.get("t") or "int") and v.k in ("obj", "sym", "fld", "el", "this", "call", "ite"):
            self.copyobj(st, loc, v, line, rec)
        else:
            self.put(st, loc, v, line, rec)

    # ------------------------------------------------------------------ construction
    def newobj(self, cls, args, line, usr, heap=False):
        self.nobj += 1
        o = mk("obj", self.nobj, cls)
        fnr = self.stack[-1][0] if self.stack else None
        self.objs[o] = dict(cls=cls, args=args, line=line, usr=usr, heap=heap, fn=fnr)
        return o

    def construct_into(self, e, obj, st, complete, line, rec=True):
        """run constructor expression e on existing object identity obj"""
        if e is None:
            return
        if e["k"] != "ctor":
            if e["k"] == "il":
                r = self.P.recs.get((e.get("t") or "").replace("const ", ""))
                if r:
                    for f, x in zip(r["fields"], e["a"]):
                        self.init_loc(fld(obj, r["n"] + "::" + f["n"]), x, st, line, rec)
                return
            v = self.expr(e, st)
            self.copyobj(st, obj, v, line, rec)
            return
        args = [self.expr(a, st) for a in e["a"]]
        if e.get("copy") and len(args) == 1 and self.fn_of(e["fn"]) is None:
            self.copyobj(st, obj, args[0], line, rec)
            return
        fn = self.fn_of(e["fn"])
        if fn is None:
            if isstd(e["c"]):
                st.copies.pop(obj, None)
                self.put(st, obj, self.strval(st, self.e_ctor(e, st)) if short(e["c"]) == "std::basic_string" else
                         mk("call", short(e["fn"]["n"]), *[self.val(st, a) for a in args]), line, rec)
            return
        self.call_body(fn, obj, args, st, line, complete=complete)

    def fn_of(self, ref):
        f = self.P.fns.get(ref["u"])
        if f is not None and f.get("dep"):
            return None
        return f

    def call_body(self, fn, this, args, st, line, complete=True):
        """inline fn in place; st is updated in place (contents replaced)"""
        sub = State()
        sub.store, sub.copies, sub.facts, sub.eqs, sub.env = st.store, st.copies, st.facts, st.eqs, st.env
        sub.trace = []
        self._thr.append([])
        try:
            v, s2, pc = self.body(fn, this, args, sub, complete)
        except Thrown as ex:
            thr = self._thr.pop()
            st.trace.append(("inl", fn["n"], fn["u"], sub.trace, args, this, line))
            self._thr[-1].extend(thr)
            ex.st = st
            raise
        thr = self._thr.pop()
        st.trace.append(("inl", fn["n"], fn["u"], s2.trace, args, this, line))
        st.store, st.copies, st.facts, st.eqs = s2.store, s2.copies, s2.facts, s2.eqs
        if thr:
            self._thr[-1].extend(thr)
            # what follows happens only when the callee returned normally
            if not isc(pc):
                self.assume(st, pc)
                self._npc = land(getattr(self, "_npc", TRUE), pc)
        return v

    # ------------------------------------------------------------------ statements
    def stmt(self, s, st, pc):
        """returns Comp; st is consumed"""
        c = Comp()
        if s is None:
            c.n = (pc, st)
            return c
        self.steps += 1
        if self.steps > self.budget:
            raise Limit("budget")
        k = s["k"]
        if k == "seq":
            return self.seq(s["b"], st, pc)
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.unknown.append((k, s.get("s"), s.get("l")))
            c.n = (pc, st)
            return c
        old = getattr(self, "_npc", TRUE)
        self._npc = TRUE
        self._thr.append([])
        try:
            r = m(s, st, pc)
        except Thrown as e:
            r = Comp()
            if not getattr(e, "multi", False):
                r.thr.append((pc, e.ty, e.line, st))
        finally:
            thr = self._thr.pop()
        for t in thr:
            r.thr.append((land(pc, t[0]), t[1], t[2], t[3]))
        self._npc = old
        return r

    def seq(self, lst, st, pc):
        c = Comp()
        cur = (pc, st)
        for s in lst:
            x = self.stmt(s, cur[1], cur[0])
            c.ret += x.ret
            c.brk += x.brk
            c.cont += x.cont
            c.thr += x.thr
            cur = x.n
            if cur is None:
                break
        c.n = cur
        return c

    def nrm(self, st, pc):
        c = Comp()
        n = getattr(self, "_npc", TRUE)
        c.n = (land(pc, n), st)
        return c

    def s_expr(self, s, st, pc):
        self.expr(s["e"], st)
        return self.nrm(st, pc)

    def s_decl(self, s, st, pc):
        self.declvar(s, st)
        return self.nrm(st, pc)

    def declvar(self, s, st):
        fr = self.stack[-1][1]
        if s.get("g"):
            loc = mk("glob", s["g"])
            st.env[s["id"], fr] = loc
            if "i" in s and loc not in st.store:
                g = self.globinit(s["i"], st)
                if g is not None:
                    st.store[loc] = g
            return
        if s.get("ref"):
            st.env[s["id"], fr] = self.expr(s["i"], st) if "i" in s else UNK
            return
        e = s.get("i")
        if e is not None and e["k"] == "ctor" and not isstd(e["c"]):
            if e.get("elide") and e.get("copy") and len(e["a"]) == 1:
                st.env[s["id"], fr] = self.expr(e["a"][0], st)
                return
            # local object
            o = self.make(e, st, s["l"], heap=False)
            st.env[s["id"], fr] = o
            return
        if e is not None and not self._scalar(s["t"]):
            if e["k"] == "il":
                o = self.newobj(s["t"].replace("const ", ""), [], s["l"], None)
                st.env[s["id"], fr] = o
                self.construct_into(e, o, st, True, s["l"])
            else:
                st.env[s["id"], fr] = self.expr(e, st)
            return
        loc = mk("var", fr, s["id"])
        st.env[s["id"], fr] = loc
        if loc.sub:
            for k in [k for k in st.store if self.under(k, loc)]:
                del st.store[k]
        if e is None:
            st.store[loc] = mk("uninit", s["n"]) if not s["t"].endswith("]") else loc
            if st.store[loc] is loc:
                del st.store[loc]
        else:
            st.store[loc] = self.arrinit(s["t"], self.expr(e, st))

    @staticmethod
    def arrinit(t, v):
        """default constructed containers in an array"""
        m = re.match(r"(?:const )?std::.*\[(\d+)\]$", t or "")
        if m and v.k == "il" and not v.a and int(m.group(1)) <= 16:
            return mk("il", *[mk("il")] * int(m.group(1)))
        return v

    def globinit(self, e, st):
        return self.expr(e, st)

    def branch(self, cond, st, pc, fa, fb, line=None):
        """generic two-way branch; fa/fb: state,pc -> Comp"""
        cond = self.simp(st, truth(cond))
        d = self.decide(st, cond)
        if d is not None:
            cond = C(d)
        if isc(cond):
            return (fa if cond.a[0] else fb)(st, pc)
        a, b = st.fork(), st.fork()
        self.assume(a, cond, True)
        self.assume(b, cond, False)
        ca = fa(a, land(pc, cond))
        cb = fb(b, land(pc, lnot(cond)))
        ta, tb = self._tr(a, ca), self._tr(b, cb)
        st.trace.append(("if", cond, ta, tb))
        c = Comp()
        c.ret = ca.ret + cb.ret
        c.brk = ca.brk + cb.brk
        c.cont = ca.cont + cb.cont
        c.thr = ca.thr + cb.thr
        if ca.n and cb.n:
            m = self.merge(cond, ca.n[1], cb.n[1])
            # facts established by a branch that can leave early
            pa, pb = ca.n[0], cb.n[0]
            npc = lor(pa, pb)
            if pa is land(pc, cond) and pb is land(pc, lnot(cond)):
                npc = pc
            c.n = (npc, m)
        elif ca.n or cb.n:
            c.n = ca.n or cb.n
            m = c.n[1]
            m2 = m.fork()
            c.n = (c.n[0], m2)
        if c.n:
            c.n[1].trace = st.trace
        return c

    def _tr(self, st, c):
        return st.trace

    def s_if(self, s, st, pc):
        if s.get("init"):
            self.stmt(s["init"], st, pc)
        if s.get("cv"):
            self.declvar(s["cv"], st)
        cond = self.expr(s["c"], st)
        pc = land(pc, self._npc)
        self._npc = TRUE
        return self.branch(cond, st, pc, lambda x, p: self.stmt(s["a"], x, p), lambda x, p: self.stmt(s["b"], x, p))

    def s_switch(self, s, st, pc):
        v = self.expr(s["c"], st)
        pc = land(pc, self._npc)
        self._npc = TRUE
        # flatten body into labelled groups
        items = s["b"]["b"] if s["b"]["k"] == "seq" else [s["b"]]
        groups = []   # [labels, stmts]
        def add(x):
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x.get("cv") if x["k"] == "case" else "default")
                x = x["s"]
            if labels:
                if groups and not groups[-1][1]:
                    groups[-1][0] += labels
                else:
                    groups.append([labels, []])
                if x is not None and not (x["k"] == "seq" and not x["b"]):
                    groups[-1][1].append(x)
            elif groups:
                groups[-1][1].append(x)
        for x in items:
            add(x)
        allcases = [l for g in groups for l in g[0] if l != "default"]
        out = Comp()
        has_def = any("default" in g[0] for g in groups)

        def runfrom(i, x, p):
            ss = []
            for g in groups[i:]:
                ss += g[1]
            c = self.seq(ss, x, p)
            # breaks leave the switch
            outs = [(b[0], b[1], None) for b in c.brk]
            if c.n:
                outs.append((c.n[0], c.n[1], None))
            c.brk = []
            if outs:
                q, z, _ = self.mergelist(outs)
                z.trace = x.trace
                c.n = (q, z)
            else:
                c.n = None
            return c

        def chain(i, x, p):
            if i == len(groups):
                if has_def:
                    j = [n for n, g in enumerate(groups) if "default" in g[0]][0]
                    return runfrom(j, x, p)
                c = Comp()
                c.n = (p, x)
                return c
            labels = [l for l in groups[i][0] if l != "default"]
            if "default" in groups[i][0]:
                # default: all not listed elsewhere
                if not labels:
                    return chain(i + 1, x, p)
                return chain(i + 1, x, p)
            cond = lor(*[eq(v, C(l)) for l in labels])
            return self.branch(cond, x, p, lambda y, q: runfrom(i, y, q), lambda y, q: chain(i + 1, y, q))
        return chain(0, st, pc)

    def s_ret(self, s, st, pc):
        v = None
        if s.get("e"):
            v = self.expr(s["e"], st)
            v = self.simp(st, v)
            fn = self.stack[-1][0]
            if not fn["ret"].endswith("&") and not fn["ret"].endswith("*") and v.k in ("var",):
                v = self.load(st, v)
        st.trace.append(("ret", v, s["l"]))
        c = Comp()
        c.ret.append((land(pc, self._npc), st, v))
        return c

    def s_break(self, s, st, pc):
        st.trace.append(("brk",))
        c = Comp()
        c.brk.append((pc, st))
        return c

    def s_continue(self, s, st, pc):
        st.trace.append(("cont",))
        c = Comp()
        c.cont.append((pc, st))
        return c

    def s_case(self, s, st, pc):
        return self.stmt(s["s"], st, pc)

    s_default = s_case

    def s_unk(self, s, st, pc):
        self.unknown.append(("stmt", s.get("s"), s.get("l")))
        return self.nrm(st, pc)

    def s_try(self, s, st, pc):
        pre = st.fork()
        body_tr = []
        b = st.fork()
        self._thr.append([])
        c = self.stmt(s["b"], b, pc)
        inner = self._thr.pop()
        thr = c.thr + inner
        c.thr = []
        rest = list(thr)
        handlers = []
        outs = []
        if c.n:
            outs.append((c.n[0], c.n[1], None))
        for h in s["h"]:
            caught, nrest = [], []
            for t in rest:
                (caught if self.catches(h.get("t"), t[1]) else nrest).append(t)
            rest = nrest
            hs = pre.fork()
            # effects of the protected block may or may not have happened: locations it writes are havocked
            for k, v in b.store.items():
                if pre.store.get(k) is not v:
                    hs.store[k] = mk("maybe", v)
            if c.n:
                for k, v in c.n[1].store.items():
                    if pre.store.get(k) is not v:
                        hs.store[k] = mk("maybe", v)
            exc = mk("exc", s["l"], h.get("t") or "...")
            if "id" in h:
                hs.env[h["id"], self.stack[-1][1]] = exc
            hpc = land(pc, exc)
            hc = self.stmt(h["b"], hs, hpc)
            # rethrow inside the handler
            for t in hc.thr:
                c.thr.append(t if t[1] != "rethrow" else (t[0], h.get("t") or "...", t[2], t[3]))
            handlers.append((h.get("t"), hs.trace, [t[1] for t in caught]))
            c.ret += hc.ret
            c.brk += hc.brk
            c.cont += hc.cont
            if hc.n:
                outs.append((hc.n[0], hc.n[1], None))
        c.thr += rest
        st.trace.append(("try", b.trace, handlers, s["l"]))
        if outs:
            # the handler outcomes come first so that their gates select
            q, z, _ = self.mergelist(outs[1:] + outs[:1] if c.n else outs)
            z.trace = st.trace
            c.n = (pc, z)
        else:
            c.n = None
        return c

    STDEXC = {"std::logic_error": ["std::exception"], "std::runtime_error": ["std::exception"], "std::out_of_range": ["std::logic_error", "std::exception"],
              "std::invalid_argument": ["std::logic_error", "std::exception"], "std::ios_base::failure": ["std::runtime_error", "std::exception"],
              "std::domain_error": ["std::logic_error", "std::exception"], "std::length_error": ["std::logic_error", "std::exception"],
              "std::bad_alloc": ["std::exception"], "std::bad_cast": ["std::exception"]}

    def catches(self, ht, ty):
        if ht is None:
            return True
        if ty is None:
            return False
        ht = ht.replace("const ", "")
        ty = ty.replace("const ", "")
        if ht == ty:
            return True
        bs = list(self.P.bases(ty))
        for b in list(bs) + [ty]:
            bs += self.STDEXC.get(b, [])
        return ht in bs

    # ---- loops
    def s_for(self, s, st, pc):
        if s.get("init"):
            c0 = self.stmt(s["init"], st, pc)
            st = c0.n[1]
        return self.loop(s, st, pc, s.get("c"), s.get("inc"), s["b"])

    def s_while(self, s, st, pc):
        return self.loop(s, st, pc, s.get("c"), None, s["b"], cv=s.get("cv"))

    def s_do(self, s, st, pc):
        return self.loop(s, st, pc, s.get("c"), None, s["b"], post=True)

    def loop(self, s, st, pc, cond, inc, body, post=False, cv=None):
        out = Comp()
        cur, cpc = st, pc
        n = 0
        pend = []     # (pc, state) leaving by break
        # constant trip counts are unrolled
        while n < self.UNROLL:
            if cv:
                self.declvar(cv, cur)
            if not (post and n == 0):
                if cond is None:
                    d = None
                else:
                    mark = len(cur.trace)
                    probe = cur.fork()
                    cval = self.simp(probe, truth(self.expr(cond, probe)))
                    d = self.decide(probe, cval)
            else:
                d = True
            if d is None:
                if n == 0 or (post and n == 1):
                    break
                # started unrolling but the condition became unknown
                break
            if cond is not None and not (post and n == 0):
                self.expr(cond, cur)
            if d is False:
                pend.append((cpc, cur))
                cur = None
                break
            tr = cur.trace
            c = self.stmt(body, cur, cpc)
            out.ret += c.ret
            out.thr += c.thr
            pend += c.brk
            nxt = [(a, b, None) for a, b in c.cont]
            if c.n:
                nxt.append((c.n[0], c.n[1], None))
            if not nxt:
                cur = None
                break
            cpc, cur, _ = self.mergelist(nxt)
            cur.trace = tr
            if inc is not None:
                self.expr(inc, cur)
            n += 1
        if cur is not None:
            c = self.loopsum(s, cur, cpc, cond, inc, body, cv)
            out.ret += c.ret
            out.thr += c.thr
            if c.n:
                pend.append(c.n)
        if pend:
            q, z, _ = self.mergelist([(a, b, None) for a, b in pend])
            z.trace = st.trace
            if len(pend) == 1 or all(not isc(p[0]) for p in pend):
                pass
            out.n = (q if len(pend) == 1 else pc if not out.ret and not out.thr else q, z)
        return out

    def loopsum(self, s, st, pc, cond, inc, body, cv=None, rng=None, rbase=None):
        """summarise a loop of unknown trip count"""
        self.nloop += 1
        lid = self.nloop
        fnn = self.stack[-1][0]
        # 1. discover the locations the body writes
        probe = st.fork()
        mod = set()
        nfr, nob, nlp, objs, loops, unk = self.nframe, self.nobj, self.nloop, dict(self.objs), dict(self.loops), list(self.unknown)
        entry = dict(st.store)
        phis = {}
        for rnd in range(3):
            self.nframe, self.nobj, self.nloop = nfr, nob, nlp
            p2 = st.fork()
            p2.facts, p2.eqs = {}, {}
            for k in mod:
                p2.store[k] = mk("phi", lid, k, entry.get(k, k))
            base = dict(p2.store)
            self._thr.append([])
            try:
                ends = self._iter(p2, TRUE, cond, inc, body, cv, rng, lid)
            finally:
                self._thr.pop()
            new = set()
            for e in ends:
                for k, v in e.store.items():
                    if base.get(k) is not v and not (k.k == "var" and k.a[0] > nfr) and k not in mod:
                        if self._preexist(k, nob, nfr, entry, p2):
                            new.add(k)
            if not new:
                break
            mod |= new
        self.nframe, self.nobj, self.nloop = nfr, nob, nlp
        self.objs, self.loops, self.unknown = objs, loops, unk
        # 2. the summarised iteration
        it = st.fork()
        # facts about modified locations are dropped, the others stay valid
        modset = mod
        it.facts = {k: v for k, v in st.facts.items() if not self._mentions(k, modset)}
        it.eqs = {k: v for k, v in st.eqs.items() if not self._mentions(k, modset)}
        for k in mod:
            ph = mk("phi", lid, k, entry.get(k, k))
            it.store[k] = ph
            phis[k] = ph
        facts0, eqs0 = dict(it.facts), dict(it.eqs)
        if cv:
            self.declvar(cv, it)
        cval = TRUE
        if rng is not None:
            rng(it, lid)
        elif cond is not None:
            cval = truth(self.expr(cond, it))
        tr_cond = it.trace
        it.trace = []
        bodyst = it.fork()
        self.assume(bodyst, cval, True)
        inl = mk("inloop", lid)
        c = self.stmt(body, bodyst, land(inl, cval))
        nxt = [(a, b, None) for a, b in c.cont]
        if c.n:
            nxt.append((c.n[0], c.n[1], None))
        stepst = None
        if nxt:
            _, stepst, _ = self.mergelist(nxt)
            stepst.trace = bodyst.trace
            if inc is not None:
                self.expr(inc, stepst)
        steps = {}
        for k in mod:
            if stepst is not None:
                steps[k] = self._load0(stepst, k)
        self.loops[lid] = dict(endst=stepst, line=s.get("l"), fn=fnn, cond=cval, phis=phis, init={k: entry.get(k, k) for k in mod}, step=steps, exits=bool(c.ret or c.brk or c.thr), brk=bool(c.brk or c.ret), rng=rbase if rng is not None else None)
        st.trace.append(("loop", lid, tr_cond + bodyst.trace, s.get("l")))
        out = Comp()
        for r in c.ret:
            out.ret.append((land(pc, r[0]), r[1], r[2]))
        for t in c.thr:
            out.thr.append((land(pc, t[0]), t[1], t[2], t[3]))
        # 3. the state after the loop
        after = st.fork()
        after.facts, after.eqs = facts0, eqs0
        for k in mod:
            after.store[k] = mk("loopval", lid, k, entry.get(k, k), steps.get(k, entry.get(k, k)))
        for k in (stepst.store if stepst is not None else {}):
            if k not in after.store and k.k == "obj":
                after.store[k] = stepst.store[k]
        if stepst is not None:
            for k, v in stepst.copies.items():
                after.copies.setdefault(k, v)
        after.trace = st.trace
        if cond is not None and not c.brk and rng is None:
            pass
        infinite = cond is not None and isc(cval) and cval.a[0] is True and not c.brk
        if (cond is None and rng is None or infinite) and not c.brk:
            out.n = None
        else:
            # values assigned on the path that leaves by break
            for p, b in c.brk:
                g = mk("brk", lid, p)
                for k, v in b.store.items():
                    if k.k == "var" and k.a[0] > nfr:
                        continue
                    if after.store.get(k) is not v and self._preexist(k, nob, nfr, entry, st):
                        if k in phis and v is phis[k]:
                            continue
                        after.store[k] = ite(g, v, after.store.get(k, entry.get(k, k)))
            out.n = (pc, after)
        return out

    def _iter(self, p2, pc, cond, inc, body, cv, rng, lid):
        if cv:
            self.declvar(cv, p2)
        if rng is not None:
            rng(p2, lid)
        elif cond is not None:
            v = self.expr(cond, p2)
            self.assume(p2, truth(v), True)
        b = p2.fork()
        c = self.stmt(body, b, TRUE)
        ends = []
        for a, x in c.cont + ([c.n] if c.n else []):
            y = x.fork()
            if inc is not None:
                self.expr(inc, y)
            ends.append(y)
        for a, x in c.brk:
            ends.append(x)
        return ends

    def _preexist(self, k, nob, nfr, entry, st):
        r = k
        while r.k in ("fld", "el"):
            r = r.a[0]
        if r.k == "obj":
            return r.a[0] <= nob
        if r.k == "var":
            return r.a[0] < nfr or r in entry or k in entry
        return True

    def _mentions(self, t, mod):
        for x in subterms(t):
            if x in mod:
                return True
        return False

    def s_range(self, s, st, pc):
        r = self.expr(s["r"], st)
        rv = self.val(st, r)
        fr = self.stack[-1][1]
        v = s["v"]

        def bindv(x, e):
            if v.get("ref") or not self._scalar(v["t"]):
                x.env[v["id"], fr] = e
            else:
                loc = mk("var", fr, v["id"])
                x.env[v["id"], fr] = loc
                x.store[loc] = self.val(x, e)
        if rv.k in ("il", "map"):
            out = Comp()
            cur, cpc = st, pc
            pend = []
            elems = rv.a if rv.k == "il" else [mk("pair", rv.a[i], rv.a[i + 1]) for i in range(0, len(rv.a), 2)]
            if len(elems) <= self.UNROLL:
                for e in elems:
                    bindv(cur, e)
                    tr = cur.trace
                    c = self.stmt(s["b"], cur, cpc)
                    out.ret += c.ret
                    out.thr += c.thr
                    pend += c.brk
                    nxt = [(a, b, None) for a, b in c.cont]
                    if c.n:
                        nxt.append((c.n[0], c.n[1], None))
                    if not nxt:
                        cur = None
                        break
                    cpc, cur, _ = self.mergelist(nxt)
                    cur.trace = tr
                if cur is not None:
                    pend.append((cpc, cur))
                if pend:
                    q, z, _ = self.mergelist([(a, b, None) for a, b in pend])
                    z.trace = st.trace
                    out.n = (q, z)
                return out
        base = rv if rv.k not in ("var",) else r

        def rng(x, lid):
            bindv(x, el(base, mk("ix", lid)))
        return self.loopsum(s, st, pc, None, None, s["b"], rng=rng, rbase=base)

    # ------------------------------------------------------------------ expressions
    def expr(self, e, st):
        if e is None:
            return UNK
        self.steps += 1
        if self.steps > self.budget or self.steps & 255 == 1 and time.monotonic() > DEADLINE:
            raise Limit("budget")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.unknown.append((e["k"], e.get("s"), e.get("l")))
            for x in e.get("a") or ():
                if isinstance(x, dict):
                    self.expr(x, st)
            return mk("unk", e["k"] + ":" + str(e.get("s")))
        return m(e, st)

    def e_int(self, e, st):
        return C(e["v"])

    e_flt = e_str = e_bool = e_int

    def e_enum(self, e, st):
        return C(e["v"])

    def e_null(self, e, st):
        return NULL

    def e_this(self, e, st):
        return self.stack[-1][2] or mk("this")

    def e_fn(self, e, st):
        return mk("fn", e["fn"]["u"])

    def e_zero(self, e, st):
        t = e.get("t", "")
        if t.endswith("*"):
            return NULL
        return C(0)

    def e_typeid(self, e, st):
        if not e.get("t"):
            v = self.expr(e["e"], st)
            x = self.exact.get(self.val(st, v)) or self.exact.get(v)
            return C("typeid " + x) if x else mk("typeid", v)
        return mk("typeid", e["t"])

    def dyncast(self, t, v):
        """a cast to a derived class is decided on objects whose class is known"""
        x = self.exact.get(v)
        made = None
        if not x and v.k == "obj" and v in self.objs:
            x = made = self.objs[v]["cls"]
        if x:
            t0 = t
            t = re.sub(r"^const ", "", t).rstrip(" *&")
            m = re.match(r"std::shared_ptr<(?:const )?(.*)>$", t)
            t = m.group(1) if m else t
            if t in self.P.recs:
                if x == t or t in self.P.bases(x):
                    return v
                if not made or x in self.P.recs and (x.split("<")[0] != t.split("<")[0] or "<>" not in x + t and x.count(",") == t.count(",")):
                    return NULL
            t = t0
        return mk("dyn", t, v)

    def e_decl(self, e, st):
        return mk("glob", e["n"])

    def e_var(self, e, st):
        if "id" in e and not e.get("g"):
            for fn, fr, _ in reversed(self.stack):
                v = st.env.get((e["id"], fr))
                if v is not None:
                    return v
            for k, v in st.env.items():
                if k[0] == e["id"]:
                    return v
            return sym("?" + e["n"])
        if e.get("g", "").startswith("static:"):
            return mk("glob", e["g"])
        if "cv" in e:
            return C(e["cv"])
        if "cvf" in e:
            return C(e["cvf"])
        loc = mk("glob", e["g"])
        g = self.P.vars.get(e["g"])
        if g and g["const"] and not g.get("dep") and loc not in st.store:
            i = g["i"]
            if i is not None:
                t = g["t"]
                try:
                    st.store[loc] = self.expr(i, st)
                except Thrown:
                    pass
        return loc

    def e_ld(self, e, st):
        return self.load(st, self.expr(e["e"], st))

    def e_fld(self, e, st):
        b = self.expr(e["o"], st)
        b = self.objid(st, b)
        # pairs
        if e["f"] in ("first", "second") and "pair" in e["c"]:
            i = 0 if e["f"] == "first" else 1
            if b.k == "pair":
                return b.a[i]
            if b.k == "mit":
                m, key = b.a
                if i == 0:
                    return key
                r = UNK
                ks = m.a
                r = mk("call", "map.none", m, key)
                for j in range(len(ks) - 2, -1, -2):
                    r = ite(eq(key, ks[j]), ks[j + 1], r)
                return r
            if b.k == "il" and len(b.a) == 2:
                return b.a[i]
            if b.k == "ite":
                return ite(b.a[0], self._pairf(b.a[1], i, e), self._pairf(b.a[2], i, e))
        if b.k == "il":
            r = self.P.recs.get(e["c"])
            if r:
                for j, f in enumerate(r["fields"]):
                    if f["n"] == e["f"] and j < len(b.a):
                        return b.a[j]
        loc = fld(b, e["c"] + "::" + e["f"])
        if e.get("ref"):
            return self.load(st, loc)
        return loc

    def _pairf(self, b, i, e):
        if b.k == "ite":
            return ite(b.a[0], self._pairf(b.a[1], i, e), self._pairf(b.a[2], i, e))
        if b.k in ("pair", "il") and len(b.a) == 2:
            return b.a[i]
        return fld(b, e["c"] + "::" + e["f"])

    def objid(self, st, b):
        """identity of the object a pointer value / location denotes"""
        if b.k == "var":
            return self.load(st, b)
        if b.k in ("fld", "el", "glob"):
            v = st.store.get(self.key(b))
            if v is not None and v.k in ("obj", "sym", "fld", "el", "ite", "call", "this", "dyn", "il", "pair", "mit", "phi", "loopval"):
                return self.simp(st, v)
            if v is None and b.k == "el":
                bv = st.store.get(b.a[0])
                if bv is not None and bv.k == "il":
                    r = self.elem(st, bv, b.a[1])
                    if r is not None and r.k in ("obj", "il"):
                        return r
        return b

    def e_idx(self, e, st):
        b = self.expr(e["a"], st)
        i = self.expr(e["i"], st)
        bb = self.objid(st, b) if b.k == "var" else b
        if bb.k in ("uninit",):
            bb = b
        if bb.k == "il":
            if b.k in ("var", "fld", "glob"):
                return mk("el", self.key(b), i)
            r = self.elem(st, bb, i)
            if r is not None and not isinstance(st.store.get(mk("el", b, i)), T):
                return r
        return mk("el", b if bb.k == "il" else bb, i)

    def e_il(self, e, st):
        t = e.get("t", "")
        if "std::array<" in t and len(e["a"]) == 1 and e["a"][0]["k"] == "il" and e["a"][0].get("t", "").endswith("]"):
            e = e["a"][0]             # the array an std::array holds
        return mk("il", *[self.val(st, self.expr(x, st)) for x in e["a"]])

    def e_arrcopy(self, e, st):
        return self.expr(e["e"], st)

    def e_cast(self, e, st):
        v = self.expr(e["e"], st)
        ck = e["ck"]
        if ck == "bool":
            return truth(v)
        if ck == "dyn":
            return self.dyncast(e["t"], self.val(st, v))
        if ck in ("f2i", "narrow"):
            if isc(v) and isinstance(v.a[0], (int, float)):
                return C(int(v.a[0]))
            return mk("trunc", e["t"], v)
        ft, t = e.get("ft", ""), e.get("t", "")
        if ft in ("double", "float") and t in ("int", "unsigned int", "long", "unsigned long", "short"):
            if isc(v):
                return C(int(v.a[0]))
            return mk("trunc", t, v)
        if t in ("double", "float") and isc(v) and isinstance(v.a[0], int):
            return C(float(v.a[0]))
        if t == "void":
            return v
        return v

    SCALARS = {"bool", "int", "unsigned int", "long", "unsigned long", "double", "float", "char", "long int", "size_t", "std::size_t", "Math::Real", "Math::Int", "SEMBA::Math::Real", "SEMBA::Math::Int"}

    def e_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            loc = self.expr(e["e"], st)
            old = self.load(st, loc)
            new = self.binop(op[0], old, C(1), e.get("t", "") if isc(old) or e.get("t", "").endswith("*") else "", st)
            self.put(st, loc, new, e["l"])
            return old if e.get("post") else loc
        if op == "*":
            v = self.expr(e["e"], st)
            v = self.objid(st, v) if v.k == "var" else v
            if v.k == "adr":
                return v.a[0]
            if e.get("t", "").replace("const ", "").strip() in self.SCALARS and (v.k == "fld" and el(v, C(0)) in st.store or v.k == "obj" and str(v.a[1]).endswith("[]")):
                return el(v, C(0))
            return v
        if op == "&":
            v = self.expr(e["e"], st)
            if v.k in ("var", "fld", "el", "glob") and (e.get("t") or "").replace("const ", "").rstrip("* ") in self.SCALARS:
                return mk("adr", v)
            if v.k == "el" and (e.get("t") or "").count("*") > 1:
                return mk("adr", v)           # into an array of pointers
            return v
        v = self.expr(e["e"], st)
        if op == "!":
            return lnot(truth(v))
        if op == "-":
            if num(v):
                return C(-v.a[0])
            return mk("op", "*", C(-1), v)
        if op == "+":
            return v
        if op == "~" and isc(v):
            return C(~v.a[0])
        return mk("op", op, v)

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            a = truth(self.expr(e["a"], st))
            d = self.decide(st, self.simp(st, a))
            if op == "&&" and d is False:
                return FALSE
            if op == "||" and d is True:
                return TRUE
            s2 = st.fork()
            if d is None:
                self.assume(s2, a, op == "&&")
            b = truth(self.expr(e["b"], s2))
            b = self.simp(s2, b)
            if s2.trace:
                if op == "&&":
                    st.trace.append(("if", a, s2.trace, []))
                else:
                    st.trace.append(("if", a, [], s2.trace))
            if s2.store != st.store:
                m = self.merge(a if op == "&&" else lnot(a), s2, st)
                st.store, st.copies = m.store, m.copies
            return land(a, b) if op == "&&" else lor(a, b)
        if op == ",":
            self.expr(e["a"], st)
            return self.expr(e["b"], st)
        a = self.expr(e["a"], st)
        b = self.expr(e["b"], st)
        if op in ("==", "!=") and self._isaddr(e["a"]) and self._isaddr(e["b"]):
            x, y = self.key(a), self.key(b)
            if x is not y and x.k in ("obj", "fld", "var", "el") and y.k in ("obj", "fld", "var", "el") and (self._root(x).k in ("obj", "var") or self._root(y).k in ("obj", "var")):
                if not (x.k == "el" or y.k == "el") or self._root(x) is not self._root(y) or self._fixed(x) and self._fixed(y):
                    return C(op == "!=")
        return self.binop(op, a, b, e.get("t", ""), st)

    @staticmethod
    def _isaddr(e):
        while e.get("k") in ("cast", "ld") and "e" in e:
            e = e["e"]
        return e.get("k") == "this" or e.get("k") == "un" and e.get("op") == "&"

    @staticmethod
    def _fixed(t):
        """is the place inside its root known exactly?"""
        while t.k in ("fld", "el"):
            if t.k == "el" and not isc(t.a[1]):
                return False
            t = t.a[0]
        return True

    @staticmethod
    def _root(t):
        while t.k in ("fld", "el"):
            t = t.a[0]
        return t

    @staticmethod
    def pointee(a):
        """array and index a pointer stands for"""
        return (a.a[0].a[0], a.a[0].a[1]) if a.k == "adr" and a.a[0].k == "el" else (a, C(0)) if a.k != "adr" else None

    def isplace(self, t):
        """the address of a part held by value (never null)"""
        t = self.key(t)
        if t.k != "fld" or "::" not in t.a[1]:
            return False
        r = self.P.recs.get(t.a[1].rsplit("::", 1)[0])
        return r is not None and any(f["n"] == t.a[1].rsplit("::", 1)[1] and not f["ptr"] and not f["pod"] and f["t"] in self.P.recs for f in r["fields"])

    def binop(self, op, a, b, t="", st=None):
        if op in ("==", "!=") and (a is NULL and self.isplace(b) or b is NULL and self.isplace(a)):
            return C(op == "!=")
        if op in ("+", "-") and t.rstrip().endswith("*") and not isc(a):
            # arithmetic on a pointer into an array
            p = self.pointee(a)
            if p is not None:
                return mk("adr", el(p[0], arith(op, p[1], b, True)))
        if op in ("==", "!=", "<", ">", "<=", ">=", "-") and (a.k == "adr" or b.k == "adr") and not isc(a) and not isc(b):
            p, q = self.pointee(a), self.pointee(b)
            if p and q and p[0] is q[0] and (a.k == "adr" or b.k == "adr"):
                return self.binop(op, p[1], q[1], "long" if op == "-" else "", st)
        if op in ("==", "!=") and (a.k == "adr" and isc(b) or b.k == "adr" and isc(a)):
            return C(op == "!=")
        if op == "==":
            return self._s(st, self.peq(a, b))
        if op == "!=":
            return self._s(st, lnot(self.peq(a, b)))
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return le(a, b)
        if op == ">=":
            return le(b, a)
        if op == "+" and isc(a) and isc(b) and isinstance(a.a[0], str) and isinstance(b.a[0], str):
            return C(a.a[0] + b.a[0])
        t = t.replace("const ", "").strip()
        if t in UNSIGNED and isc(a) and isc(b) and op in "+-*":
            r = arith(op, a, b, isint=True)
            return C(r.a[0] % UNSIGNED[t]) if isc(r) and isinstance(r.a[0], int) else r
        return arith(op, a, b, isint=t in INTS or (not t and isc(a) and isc(b) and isinstance(a.a[0], int) and isinstance(b.a[0], int)))

    def _s(self, st, t):
        return self.simp(st, t) if st is not None else t

    def e_cond(self, e, st):
        c = self.simp(st, truth(self.expr(e["c"], st)))
        d = self.decide(st, c)
        if d is not None:
            return self.expr(e["a"] if d else e["b"], st)
        a, b = st.fork(), st.fork()
        self.assume(a, c, True)
        self.assume(b, c, False)
        try:
            va = self.expr(e["a"], a)
        except Thrown as ex:
            self._thr[-1].append((c, ex.ty, ex.line, a))
            va = None
        try:
            vb = self.expr(e["b"], b)
        except Thrown as ex:
            self._thr[-1].append((lnot(c), ex.ty, ex.line, b))
            vb = None
        if a.trace or b.trace:
            st.trace.append(("if", c, a.trace, b.trace))
        if va is None and vb is None:
            x = Thrown("?", st, e["l"])
            x.multi = True
            raise x
        if va is None or vb is None:
            z = b if va is None else a
            st.store, st.copies, st.facts, st.eqs = z.store, z.copies, z.facts, z.eqs
            self._npc = land(getattr(self, "_npc", TRUE), lnot(c) if va is None else c)
            return vb if va is None else va
        m = self.merge(c, a, b)
        st.store, st.copies, st.facts, st.eqs = m.store, m.copies, m.facts, m.eqs
        return ite(c, va, vb)

    def e_asg(self, e, st):
        op = e["op"]
        le = e["a"]
        if le and le.get("k") == "fld" and le.get("f") in ("first", "second") and "pair" in le.get("c", ""):
            base = self.expr(le["o"], st)
            cur = self.val(st, base)
            if cur.k == "phi" and base.k in ("var", "fld"):
                cur = mk("pair", mk("pairf", 0, cur), mk("pairf", 1, cur))
            if cur.k == "pair" and base.k in ("var", "fld", "el"):
                v = self.expr(e["b"], st)
                i = 0 if le["f"] == "first" else 1
                if op != "=":
                    v = self.binop(op[:-1], cur.a[i], v, e.get("t", ""), st)
                cs = list(self.val(st, base).a)
                cs[i] = self.val(st, v)
                self.put(st, base, mk("pair", *cs), e["l"])
                return base
        loc = self.expr(e["a"], st)
        v = self.expr(e["b"], st)
        if op != "=":
            v = self.binop(op[:-1], self.load(st, loc), v, e.get("t", ""), st)
        self.put(st, loc, v, e["l"])
        return loc

    def e_throw(self, e, st):
        if e.get("e") is None:
            st.trace.append(("throw", "rethrow", e["l"]))
            raise Thrown("rethrow", st, e["l"])
        if e["e"]["k"] in ("ctor",) and isstd(e["e"].get("c", "")) is False:
            try:
                self.expr(e["e"], st.fork())
            except Thrown:
                pass
        t = (e.get("t") or "?").replace("const ", "")
        st.trace.append(("throw", t, e["l"]))
        raise Thrown(t, st, e["l"])

    def e_new(self, e, st):
        if e.get("arr"):
            n = self.expr(e["n"], st) if e.get("n") else UNK
            self.nobj += 1
            o = mk("obj", self.nobj, e["t"] + "[]")
            self.objs[o] = dict(cls=e["t"] + "[]", args=[n], line=e["l"], usr=None, heap=True, fn=self.stack[-1][0], init=e.get("i"))
            st.trace.append(("newarr", o, n, e["l"]))
            return o
        i = e.get("i")
        if i is not None and i["k"] == "ctor" and not isstd(i["c"]):
            return self.make(i, st, e["l"], heap=True)
        o = self.newobj(e["t"], [], e["l"], None, True)
        if i is not None:
            v = self.expr(i, st)
            self.put(st, o, v, e["l"], False)
        st.trace.append(("new", o, e["t"], [], e["l"], True, None))
        return o

    def e_del(self, e, st):
        v = self.expr(e["e"], st)
        st.trace.append(("del", v, e["l"], e.get("arr")))
        return UNK

    def e_lambda(self, e, st):
        t = mk("lambda", len(self.lambdas))
        self.lambdas[t] = (e, self.stack[-1])
        return t

    def make(self, e, st, line, heap=False):
        """construct a /repo object; returns its identity"""
        cls = e["c"]
        fn = self.fn_of(e["fn"])
        if e.get("copy") and len(e["a"]) == 1 and (fn is None or e.get("dflt")):
            src = self.expr(e["a"][0], st)
            o = self.newobj(cls, [src], line, e["fn"]["u"], heap)
            self.copyobj(st, o, src, line, False)
            st.trace.append(("new", o, cls, [src], line, heap, e["fn"]["u"]))
            return o
        args = [self.expr(a, st) for a in e["a"]]
        o = self.newobj(cls, args, line, e["fn"]["u"], heap)
        avals = [self.val(st, a) for a in args]
        self.objs[o]["args"] = avals
        st.trace.append(("new", o, cls, avals, line, heap, e["fn"]["u"]))
        if fn is not None and self.may_inline(fn):
            self.call_body(fn, o, args, st, line, complete=True)
        return o

    def may_inline(self, fn):
        if fn["n"] in self.opaque or short(fn["n"]) in self.opaque or fn["pq"] in self.opaque:
            return False
        if sum(f is fn for f, _, _ in self.stack[-40:]) > self.rec:
            return False
        if len(self.stack) >= self.MAXDEPTH:
            return False
        if self.inline is not None:
            r = self.inline(fn)
            if r is not None:
                return r
        return True

    def e_ctor(self, e, st):
        if isstd(e["c"]):
            args = [a for a in e["a"] if not (a or {}).get("def")]
            vals = [self.val(st, self.expr(a, st)) for a in args]
            cls = short(e["c"])
            if e.get("copy") and vals:
                return self.strval(st, vals[0]) if cls == "std::basic_string" else vals[0]
            if cls in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr"):
                if not vals:
                    return NULL
                return vals[0]
            if cls == "std::basic_string":
                if not vals:
                    return C("")
                if len(vals) == 1:
                    return vals[0]
            if cls in ("std::initializer_list",) and len(vals) == 1:
                return vals[0]
            if cls == "std::pair" and len(vals) == 2:
                return mk("pair", *vals)
            if cls == "std::pair" and not vals:
                m = re.match(r"std::pair<([\w ]+), ?([\w ]+)>$", e["c"])
                if m:
                    return mk("pair", *[C(0) if self._scalar(x.strip()) else UNK for x in m.groups()])
                return mk("pair", UNK, UNK)
            if cls in ("std::map", "std::unordered_map", "std::multimap") and vals and vals[0].k == "il" and len(vals) == 1:
                kv = []
                ok = True
                for x in vals[0].a:
                    if x.k in ("pair", "il") and len(x.a) == 2:
                        kv += list(x.a)
                    else:
                        ok = False
                if ok:
                    return mk("map", *kv)
            if cls in ("std::vector", "std::list", "std::set", "std::deque") and len(vals) == 2:
                sl = self.irange(*vals)
                if sl is not None and cls != "std::set":
                    return mk("il", *sl)
                if sl is not None and self.keyed(st, sl):
                    return self.setof(st, sl)
            if cls == "std::set" and len(vals) == 1 and vals[0].k == "il" and self.keyed(st, vals[0].a):
                return self.setof(st, vals[0].a)
            if cls in ("std::vector", "std::list", "std::array", "std::set", "std::deque") and len(vals) == 1 and vals[0].k == "il":
                return vals[0]
            if cls in ("std::vector", "std::list", "std::set", "std::deque", "std::multiset") and not vals:
                return mk("il")
            if cls == "std::vector" and vals and isc(vals[0]) and isinstance(vals[0].a[0], int) and not isinstance(vals[0].a[0], bool) and 0 <= vals[0].a[0] <= 64 and len(vals) <= 2:
                return mk("il", *[vals[1] if len(vals) > 1 else self.blank(e["c"], st, e.get("l", 0)) for _ in range(vals[0].a[0])])
            if (cls.endswith("iterator") or cls.endswith("iter_impl")) and len(vals) == 1:
                return vals[0]
            if cls == "std::function" and len(vals) == 1:
                return vals[0]
            if self.sink and cls.endswith("ofstream") and vals:
                st.store[mk("file", vals[0])] = mk("text")
            return mk("call", cls + "(ctor)", *vals)
        if e.get("elide") and e.get("copy") and len(e["a"]) == 1:
            return self.expr(e["a"][0], st)
        return self.make(e, st, e["l"])

    # ---- calls
    def e_call(self, e, st):
        fnr = e.get("fn")
        if fnr is None:
            o = self.expr(e["c"], st) if "c" in e else UNK
            args = [self.expr(a, st) for a in e["a"]]
            o = self.val(st, o)
            if o.k == "lambda":
                return self.call_lambda(o, args, st)
            if o.k == "fn" and o.a[0] in self.P.fns and self.may_inline(self.P.fns[o.a[0]]):
                return self.after(self.call_body(self.P.fns[o.a[0]], None, args, st, e["l"]), st)
            t = mk("call", "indirect", o, *[self.val(st, a) for a in args])
            st.trace.append(("call", "indirect", None, o, args, e["l"], ""))
            return t
        name = fnr["n"]
        sn = short(name)
        last = sn.split("::")[-1]
        obj = None
        if e.get("o") is not None:
            obj = self.expr(e["o"], st)
        args = []
        for a in e["a"]:
            if (a or {}).get("def") and fnr["u"] not in self.P.fns:
                continue
            args.append(self.expr(a, st))
        fn = self.fn_of(fnr)
        cls = fnr.get("cls", "")
        if cls == "std::_Bit_reference" and obj is not None:      # element of a vector of bool
            if last == "operator=" and len(args) == 1:
                self.put(st, obj, self.val(st, args[0]), e["l"])
                return obj
            if last == "operator bool":
                return self.val(st, obj)
        if fn is None and (isstd(cls) or not cls or not self.P.recs.get(cls)):
            r = self.builtin(e, sn, last, cls, obj, args, st)
            if r is not None:
                return r
        if fn is None and last in ("operator=",) and cls and len(args) == 1:
            self.copyobj(st, self.objid(st, obj), self.objid(st, args[0]), e["l"])
            return obj
        # virtual dispatch
        target = fn
        oid = self.objid(st, obj) if obj is not None else None
        if fnr.get("virt") and not e.get("nonvirt"):
            target = self.devirt(fnr, oid)
        if self.known is not None and target is not None:
            r = self.known(target, oid, [self.val(st, a) for a in args])
            if r is not None:
                return r
        if target is not None and self.may_inline(target):
            if oid is not None and oid.k == "ite" and any(l.k == "obj" for _, l in leaves(oid)) and len(leaves(oid)) <= 12 and fnr.get("virt"):
                pass
            try:
                v = self.call_body(target, oid if oid is not None else None, args, st, e["l"])
            except Limit as ex:
                if str(ex) != "depth":
                    raise
                v = None
            return self.after(v, st)
        avals = [self.val(st, a) for a in args]
        oval = self.val(st, obj) if obj is not None else None
        st.trace.append(("call", name, fnr["u"], oval, avals, e["l"], self.stack[-1][0]["n"]))
        if target is not None and oval is not None and any(f is target for f, _, _ in self.stack[-40:]) and not target.get("const"):
            self.forget(st, oval)
        t = mk("call", sn, *([oval] if oval is not None else []), *avals)
        # repo functions without analysed body: non-const refs are havocked
        self.havoc(fnr, args, t, st, e)
        return t

    def forget(self, st, o):
        """a recursive call that is not followed may change the object"""
        for k in list(st.store):
            b = k
            while b.k in ("fld", "el"):
                b = b.a[0]
            if b is o and k is not o:
                st.store[k] = UNK
            elif b.k == "obj" and any(x is b for x in st.store.values()):
                st.store[k] = UNK

    def setlv(self, ast, loc, v, st, line):
        """assign through an lvalue expression; members of a known pair have no location of their own"""
        if ast and ast.get("k") == "fld" and ast.get("f") in ("first", "second") and "pair" in ast.get("c", ""):
            base = self.expr(ast["o"], st)
            cur = self.val(st, base)
            if cur.k == "phi" and base.k in ("var", "fld"):
                cur = mk("pair", mk("pairf", 0, cur), mk("pairf", 1, cur))
            if cur.k == "pair" and base.k in ("var", "fld", "el"):
                cs = list(cur.a)
                cs[0 if ast["f"] == "first" else 1] = v
                self.put(st, base, mk("pair", *cs), line)
                return
        if loc.k not in ("c", "op"):
            self.put(st, loc, v, line)

    LIMITS = {"int": (2**31 - 1, -2**31), "unsigned int": (2**32 - 1, 0), "long": (2**63 - 1, -2**63), "unsigned long": (2**64 - 1, 0), "long long": (2**63 - 1, -2**63), "unsigned long long": (2**64 - 1, 0)}
    ALGS = {"reverse", "sort", "stable_sort", "fill", "fill_n", "iota", "rotate", "unique", "remove", "remove_if", "copy", "copy_n", "copy_if", "copy_backward", "transform", "generate",
            "replace", "replace_if", "nth_element", "partial_sort", "random_shuffle", "shuffle", "partition", "stable_partition"}

    def iterloc(self, x, st, d=0):
        """container location an iterator expression points into"""
        if not isinstance(x, dict) or d > 6:
            return None
        if x.get("k") == "call" and x.get("o") is not None and x["fn"]["n"].split("::")[-1] in ("begin", "end", "rbegin", "rend"):
            return self.expr(x["o"], st)
        for y in ([x["o"]] if x.get("o") is not None else []) + list(x.get("a") or []):
            r = self.iterloc(y, st, d + 1)
            if r is not None:
                return r
        return None

    def havoc(self, fnr, args, t, st, e=None):
        for i, (a, p, x) in enumerate(zip(args, fnr.get("pt", ""), (e or {}).get("a", ()))):
            if p == "r" and a.k not in ("var", "fld", "el", "glob") and isinstance(x, dict) and x.get("k") == "fld":
                self.setlv(x, a, mk("out", i, t), st, e["l"])
        for i, (a, p) in enumerate(zip(args, fnr.get("pt", ""))):
            if p == "r" and a.k in ("var", "fld", "el", "glob"):
                st.store[self.key(a)] = mk("out", i, t)
            elif a.k == "adr":
                st.store[self.key(a.a[0])] = mk("out", i, t)

    def after(self, v, st):
        return UNK if v is None else v

    def devirt(self, fnr, oid):
        if oid is not None and oid.k == "obj":
            cls = oid.a[1]
            m = self.resolve(cls, fnr)
            if m:
                return m
        if oid is not None and oid in self.dyncls:
            m = self.resolve(self.dyncls[oid], fnr)
            if m:
                return m
        if oid is not None and oid.k == "this" and getattr(self, "thiscls", None):
            m = self.resolve(self.thiscls, fnr)
            if m:
                return m
        u = fnr["u"]
        if not self.P.overriders.get(u):
            return self.fn_of(fnr)
        if oid is not None and oid.k == "fld":
            # a member held by value has exactly its declared class
            c, n = oid.a[1].rsplit("::", 1) if "::" in oid.a[1] else ("", "")
            for x in self.P.recs.get(c, {"fields": ()})["fields"]:
                if x["n"] == n and not x.get("ptr") and not x["t"].rstrip().endswith(("&", "*")):
                    m = self.resolve(re.sub(r"^(const|mutable) ", "", x["t"]), fnr)
                    if m:
                        return m
        return None

    def resolve(self, cls, fnr):
        """final overrider of fnr in class cls"""
        target = fnr["u"]
        cand = []
        for c in [cls] + self.P.bases(cls):
            r = self.P.recs.get(c)
            for m in r["methods"] if r else ():
                if m["u"] == target or target in self.allov(m):
                    cand.append((c, m))
        for c, m in cand:
            # with virtual bases the overrider may sit beside the class that names the function
            if not any(c in self.P.bases(d) for d, _ in cand if d != c):
                return self.P.fns.get(m["u"])
        return None

    def allov(self, m, seen=None):
        seen = set() if seen is None else seen
        for o in m.get("ov", ()):
            if o not in seen:
                seen.add(o)
                mm = self.methods().get(o)
                if mm:
                    self.allov(mm, seen)
        return seen

    def methods(self):
        if not hasattr(self.P, "_meth"):
            self.P._meth = {m["u"]: m for r in self.P.recs.values() for m in r["methods"]}
        return self.P._meth

    def call_lambda(self, o, args, st):
        e, (fn, fr, this) = self.lambdas[o]
        self.nframe += 1
        nf = self.nframe
        fake = dict(fn)
        fake = {"n": fn["n"] + "::lambda", "u": fn["u"] + "#lambda%d" % o.a[0], "p": e["p"], "b": e["b"], "line": e["l"], "pq": "lambda", "ret": "", "file": fn["file"]}
        env = st.env
        # captured variables keep their frame ids
        sub = State()
        sub.store, sub.copies, sub.facts, sub.eqs = st.store, st.copies, st.facts, st.eqs
        sub.trace = []
        self.stack.append((fake, nf, this))
        sub.env = dict(env)
        self._bind(fake, nf, args, sub)
        self._thr.append([])
        try:
            c = self.stmt(e["b"], sub, TRUE)
        finally:
            self.stack.pop()
            thr = self._thr.pop()
        self._thr[-1].extend(thr)
        for t in c.thr:
            self._thr[-1].append(t)
        st.trace.append(("inl", fake["n"], fake["u"], sub.trace, args, this, e["l"]))
        outs = list(c.ret) + ([(c.n[0], c.n[1], None)] if c.n else [])
        if not outs:
            x = Thrown("?", st, e["l"])
            x.multi = True
            raise x
        pc, s2, v = self.mergelist(outs)
        st.store, st.copies, st.facts, st.eqs = s2.store, s2.copies, s2.facts, s2.eqs
        return UNK if v is None else v

    @staticmethod
    def constmap(o):
        """keys and values of a map whose keys are constants, in order"""
        if o.k == "il":
            return [] if not o.a else None
        ks = o.a[0::2]
        if not all(num(k) for k in ks) and not all(isc(k) and isinstance(k.a[0], str) for k in ks):
            return None
        kv = [(k.a[0], v) for k, v in zip(ks, o.a[1::2])]
        return kv if all(a[0] < b[0] for a, b in zip(kv, kv[1:])) else None

    @staticmethod
    def irange(a, b):
        """elements between two iterators of a container of known elements"""
        if a.k not in ("it", "mend") or b.k not in ("it", "mend") or a.a[0] is not b.a[0] or a.a[0].k != "il":
            return None
        n = len(a.a[0].a)
        i, j = [n if x.k == "mend" else x.a[1].a[0] if isc(x.a[1]) else None for x in (a, b)]
        return a.a[0].a[i:j] if i is not None and j is not None and i <= j else None

    def ordered(self, cls, o, k, st, line):
        """where a key stands among the known elements of a set ordered by a comparator of the program: first and one past the last of its equivalents"""
        if cls.endswith("iterator") or k.k in ("it", "mend", "unk"):
            return None
        d, cut = 0, None
        for n, ch in enumerate(cls):
            d += ch in "<(" or -(ch in ">)")
            if ch == "," and d == 1:
                cut = n
        c = cls[cut + 1:-1].strip() if cut else ""
        if c not in self.P.recs:
            return None
        elt = re.sub(r"^.*?<(const )?|\s*\*\s*$", "", cls[:cut])
        fs = [f for q, g in self.P.byname.items() if q.startswith(c + "::operator()") for f in g if f.get("b") is not None and not f.get("dep") and len(f["p"]) == 2 and elt in f["p"][0]["t"]]
        if len(fs) != 1:
            return None

        def less(a, b):
            r = self.simp(st, self.val(st, self.call_body(fs[0], mk("obj", -1, c), [a, b], st, line)))
            return r.a[0] if isc(r) and isinstance(r.a[0], bool) else None
        i = 0
        while i < len(o.a):
            b = less(o.a[i], k)
            if b is None:
                return None
            if not b:
                break
            i += 1
        j = i
        while j < len(o.a):
            b = less(k, o.a[j])
            if b is None:
                return None
            if b:
                break
            j += 1
        return i, j

    def keyof(self, st, x):
        """the constant a key stands for (a number, or the number of an identifier)"""
        return x if kconst(x) else self.mkey(st, x)

    def keyed(self, st, xs):
        return len(xs) < 2 or all(self.keyof(st, x) is not None for x in xs)

    def setof(self, st, xs):
        """a set of known elements, in order"""
        if len(xs) < 2:
            return mk("il", *xs)
        d = {}
        for x in xs:
            d.setdefault(self.keyof(st, x).a[0], x)
        return mk("il", *[d[k] for k in sorted(d)])

    def mkey(self, st, t):
        """the number of an identifier object used as a key, when it is a constant"""
        if t.k not in ("obj", "fld", "el", "sym", "var"):
            return None
        v = self.idval.get(t)
        if v is None:
            c = self.objs[t]["cls"] if t in self.objs else self.dyncls.get(t) or ""
            if not c.startswith("SEMBA::Class::Identification<"):
                return None
            v = self.load(st, fld(t, c + "::id_"))
        return v if num(v) else None

    @staticmethod
    def mstep(o, n):
        """iterator of a map of known keys, n steps ahead"""
        m, size = o.a[0], len(o.a[0].a) // 2
        if o.k == "rit":
            return mk("rit", m, C(o.a[1].a[0] - n))
        i = (size if o.k == "mend" else o.a[1].a[0]) + n
        return mk("it", m, C(i)) if i < size else mk("mend", m)

    def peq(self, a, b):
        """an object made during the evaluation is not one that was handed in"""
        inp = getattr(self, "inputs", None)
        if inp and (a.k == "obj" and a.a[0] != 0 and b in inp or b.k == "obj" and b.a[0] != 0 and a in inp):
            return FALSE
        return eq(a, b)

    # ---- library models
    def builtin(self, e, sn, last, cls, obj, args, st):
        scls = short(cls)
        V = lambda t: self.val(st, t)
        fnr = e["fn"]
        if sn in ("std::move", "std::forward", "std::addressof", "std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast", "std::as_const"):
            return args[0] if sn not in ("std::dynamic_pointer_cast",) else self.dyncast(e["t"], V(args[0]))
        if sn in ("std::copy", "std::copy_n", "std::fill", "std::fill_n") and obj is None and len(args) == 3:
            a0, a1, a2 = [V(a) for a in args]
            n = sn.endswith("_n")
            src, end, dst = (self.pointee(a0), (self.pointee(a1) if not n else None), self.pointee(a2))
            cnt = a1 if n else arith("-", end[1], src[1], True) if src and end and end[0] is src[0] and a1.k == "adr" else None
            if src and cnt is not None and isc(cnt) and isinstance(cnt.a[0], int) and 0 <= cnt.a[0] <= self.UNROLL and isc(src[1]) and src[0].k in ("fld", "obj", "sym", "el"):
                if "fill" in sn:
                    for k in range(cnt.a[0]):
                        self.put(st, el(src[0], C(src[1].a[0] + k)), a2, e["l"])
                    return UNK
                if dst and isc(dst[1]) and dst[0].k in ("fld", "obj", "sym", "el"):
                    vs = [self.load(st, el(src[0], C(src[1].a[0] + k))) for k in range(cnt.a[0])]
                    for k, v in enumerate(vs):
                        self.put(st, el(dst[0], C(dst[1].a[0] + k)), v, e["l"])
                    return UNK
        if last in ("__builtin_memcpy", "memcpy") and len(args) == 3 and args[0].k in ("fld", "el", "var", "obj"):
            self.copyobj(st, args[0], args[1], e["l"])
            return args[0]
        if sn in ("__assert_fail", "__assert", "exit", "abort", "std::terminate"):
            st.trace.append(("throw", "!" + last, e["l"]))
            raise Thrown("!" + last, st, e["l"])
        if last == "shared_from_this":
            return self.objid(st, obj)
        if scls in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::__weak_ptr"):
            if last in ("get", "operator->", "operator*", "lock"):
                return self.objid(st, V(obj))
            if last == "operator=":
                self.put(st, obj, V(args[0]), e["l"])
                return obj
            if last == "reset":
                self.put(st, obj, V(args[0]) if args else NULL, e["l"])
                return UNK
            if last == "operator bool":
                return truth(V(obj))
        if sn in ("std::make_shared", "std::make_unique"):
            m = re.search(r"shared_ptr<(.*)>$|unique_ptr<(.*)>$", e["t"])
            c = (m.group(1) or m.group(2)) if m else "?"
            o = self.newobj(c, [V(a) for a in args], e["l"], None, True)
            st.trace.append(("new", o, c, [V(a) for a in args], e["l"], True, None))
            cand = [f for f in self.P.byname.get(c + "::(ctor)", []) if len(f["p"]) >= len(args) and not f.get("dep") and all("d" in p for p in f["p"][len(args):])]
            if len(cand) == 1 and self.may_inline(cand[0]):
                self.call_body(cand[0], o, args, st, e["l"])
            return o
        if last == "operator()" and obj is not None:
            o = V(obj)
            if o.k == "lambda":
                return self.call_lambda(o, args, st)
            if o.k == "fn" and o.a[0] in self.P.fns:
                return self.after(self.call_body(self.P.fns[o.a[0]], None, args, st, e["l"]), st)
        if sn.split("<")[0] in ("std::real", "std::imag") and len(args) == 1 and fnr.get("pt") == "." and obj is None:
            return V(args[0]) if not sn.startswith("std::imag") else C(0.)
        if last in FOLD and (sn == last or sn == "std::" + last) and obj is None:
            av = [V(a) for a in args]
            if av and all(num(a) for a in av):
                try:
                    return C(FOLD[last](*[float(a.a[0]) for a in av]) if last not in ("abs", "min", "max") else FOLD[last](*[a.a[0] for a in av]))
                except (ValueError, OverflowError, TypeError):
                    pass
        if last == "epsilon" and scls == "std::numeric_limits" and "double" in cls:
            return C(2.220446049250313e-16)
        if last in ("max", "min", "lowest") and scls == "std::numeric_limits" and not args:
            m = re.search(r"<(.*)>$", cls)
            lim = self.LIMITS.get(m.group(1).strip() if m else "")
            if lim:
                return C(lim[last != "max"])
        if sn in ("std::prev", "std::next") and args and obj is None:
            a, n = V(args[0]), V(args[1]) if len(args) > 1 else C(1)
            if a.k in ("it", "mend", "rit") and a.a[0].k == "map" and (a.k == "mend" or isc(a.a[1])) and isc(n):
                return self.mstep(a, n.a[0] if sn == "std::next" else -n.a[0])
        if sn == "std::make_pair" and len(args) == 2:
            return mk("pair", V(args[0]), V(args[1]))
        if sn.startswith("std::") and last in self.ALGS and args and not scls:
            j = 2 if last in ("copy", "copy_n", "transform", "copy_if", "copy_backward") else 0
            loc = self.iterloc(e["a"][j], st) if j < len(args) else None
            if loc is not None and loc.k in ("var", "fld", "el", "glob"):
                av = [V(a) for a in args]
                v = self.whole(st, loc, V(loc))
                full = len(av) > 1 and av[0].k == "it" and isc(av[0].a[1]) and av[0].a[1].a[0] == 0 and av[1].k == "mend"
                if last == "reverse" and v.k == "il" and full:
                    nv = mk("il", *reversed(v.a))
                elif last == "fill" and v.k == "il" and full:
                    nv = mk("il", *[av[2]] * len(v.a))
                elif last == "replace" and full and isc(v) and isinstance(v.a[0], str) and all(isc(x) and isinstance(x.a[0], int) for x in av[2:4]):
                    nv = C(v.a[0].replace(chr(av[2].a[0]), chr(av[3].a[0])))
                else:
                    nv = mk("m", sn, v, *av)
                self.put(st, loc, nv, e["l"])
                return mk("call", sn, *av)
        if sn == "std::swap" and len(args) == 2:
            a, b = V(args[0]), V(args[1])
            self.setlv(e["a"][0], args[0], b, st, e["l"])
            self.setlv(e["a"][1], args[1], a, st, e["l"])
            return UNK
        if self.sink and last in ("operator<<", "put", "write", "open") and (obj is not None or args):
            # text written to a file that was opened for writing
            so, xs = (obj, args) if obj is not None else (args[0], args[1:])
            if last == "open" and scls.endswith("ofstream") and args:
                st.store[mk("file", V(args[0]))] = mk("text")
                self.put(st, so, mk("call", scls + "(ctor)", V(args[0])), e["l"])
                return UNK
            w = V(so)
            if w.k == "call" and w.a[0].endswith("ofstream(ctor)") and len(w.a) > 1 and xs:
                k = mk("file", w.a[1])
                x = V(xs[0])
                if obj is None or last == "put":
                    x = self.chr_(x)
                t = st.store.get(k, mk("text"))
                st.store[k] = mk("text", *(t.a + (x,))) if t.k == "text" else mk("m", "operator<<", t, x)
                return so
            if xs and last in ("operator<<", "put") and (w.k == "call" and w.a[0].endswith("stringstream(ctor)") and len(w.a) == 1 or w.k == "sstr") and so.k in ("var", "fld", "el"):
                # text gathered in a string stream
                x = V(xs[0])
                x = self.chr_(x) if obj is None or last == "put" else x
                x = C("\n") if x.k == "fn" and "endl" in str(x.a[0]) else C("") if x.k == "fn" and "flush" in str(x.a[0]) else x
                self.put(st, so, mk("sstr", *(w.a if w.k == "sstr" else ()), x), e["l"])
                return so
        if self.sink and last == "str" and obj is not None and not args and V(obj).k == "call" and V(obj).a[0].endswith("stringstream(ctor)") and len(V(obj).a) == 1:
            return C("")
        if self.sink and last == "str" and obj is not None and not args and V(obj).k == "sstr":
            r = C("")
            for x in V(obj).a:
                r = self.scat(r, C("%g" % x.a[0] if x.a[0].__class__ is float else str(int(x.a[0]))) if num(x) else x)
            return r
        if self.sink and obj is None and last in ("basename", "__xpg_basename", "dirname") and len(args) == 1:
            v = V(args[0])
            v = st.store.get(mk("chars", v), v)
            if isc(v) and isinstance(v.a[0], str) and v.a[0].strip("/"):
                x = v.a[0].rstrip("/")
                return C(x.split("/")[-1] if "base" in last else x.rsplit("/", 1)[0] or "/" if "/" in x else ".")
        if self.sink and obj is None and last in ("strcpy", "strncpy") and len(args) >= 2:
            st.store[mk("chars", V(args[0]))] = V(args[1])
            return args[0]
        if self.sink and self.sink is not True and obj is None and re.match(self.sink, last):
            # a call of a library that writes: what it is given now
            k, xs = mk("file", C("calls")), []
            for a in args:
                v = V(a)
                v = st.store.get(mk("chars", v), v)
                if v.k == "adr" and v.a[0].k == "el" and v.a[0].a[1] is C(0):
                    v = self.whole(st, v.a[0].a[0], V(v.a[0].a[0]))
                xs.append(v)
            t = st.store.get(k, mk("text"))
            st.store[k] = mk("text", *(t.a + (mk("rec", last, *xs),))) if t.k == "text" else UNK
            return mk("call", sn, *[V(a) for a in args])
        if last == "str" and obj is not None and len(args) == 1 and scls.endswith("stringstream"):
            v = V(args[0])
            self.put(st, obj, mk("call", "std::basic_stringstream(ctor)", *([] if v is C("") else [v])), e["l"])
            return UNK
        # stream extraction: the n-th token of the source text
        if last == "operator>>" and (scls.endswith(("istream", "stringstream", "fstream", "iostream")) and obj is not None and len(args) == 1
                                     or obj is None and len(args) == 2 and args[1].k in ("var", "fld", "el", "glob") and not num(self.val(st, args[0]))):
            so, tg = (obj, args[0]) if obj is not None else args
            if not (tg.k == "fn" or tg.k == "call"):
                loc = self.key(so) if so.k in ("var", "fld", "el", "glob") else mk("strmof", so)
                s0 = st.store.get(loc)
                if s0 is None:
                    s0 = V(so)
                src, n = (s0.a if s0.k == "strm" else (s0.a[1] if s0.k == "call" and s0.a[0].endswith("stringstream(ctor)") and len(s0.a) > 1 else s0, 0))
                t = mk("tok", src, n)
                st.trace.append(("call", fnr["n"], fnr["u"], s0, [tg], e["l"], self.stack[-1][0]["n"]))
                st.store[loc] = mk("strm", src, n + 1)
                self.setlv((e.get("a") or [None])[-1], tg, t, st, e["l"])
                return so
        if last == "operator=" and scls == "std::pair" and obj is not None and len(args) == 1:
            self.put(st, obj, V(args[0]), e["l"])
            return obj
        # comparisons
        if last in ("operator==", "operator!=") and (len(args) == 2 or obj is not None and len(args) == 1):
            a, b = (V(args[0]), V(args[1])) if len(args) == 2 else (V(obj), V(args[0]))
            r = eq(a, b)
            return self.simp(st, r if last == "operator==" else lnot(r))
        if last in ("operator<", "operator>", "operator<=", "operator>=") and "iterator" not in cls and (len(args) == 2 or obj is not None and len(args) == 1):
            a, b = (V(args[0]), V(args[1])) if len(args) == 2 else (V(obj), V(args[0]))
            return self.binop(last[8:], a, b, "", st)
        if scls == "std::basic_string":
            def V(t, V0=V):
                """string value; classes derived from std::string keep theirs on the object itself"""
                return self.strval(st, V0(t))
            o = V(obj) if obj is not None else None
            if last == "compare" and len(args) == 1:
                return ite(eq(o, V(args[0])), C(0), mk("strcmp", o, V(args[0])))
            if last in ("c_str", "data"):
                return o
            if last == "operator=" or last == "assign" and len(args) == 1:
                self.put(st, obj, V(args[0]), e["l"])
                return obj
            if last in ("operator+=", "append", "push_back") and len(args) == 1:
                x = V(args[0])
                self.put(st, obj, self.scat(o, x if last == "append" else self.chr_(x)), e["l"])
                return obj
            if last in ("operator[]", "at") and len(args) == 1 and isc(o) and isinstance(o.a[0], str) and num(V(args[0])) and 0 <= V(args[0]).a[0] < len(o.a[0]):
                if not e.get("lv") or str(e.get("t", "")).startswith("const"):
                    return C(ord(o.a[0][V(args[0]).a[0]]))
            if last in ("back", "front") and not args and isc(o) and isinstance(o.a[0], str) and o.a[0] and (not e.get("lv") or str(e.get("t", "")).startswith("const")):
                return C(ord(o.a[0][-1 if last == "back" else 0]))
            if last == "empty":
                return eq(o, C(""))
            if last in ("size", "length") and isc(o):
                return C(len(o.a[0])) if isinstance(o.a[0], str) else mk("call", sn, o)
            if last in ("length",):
                return mk("call", "std::basic_string::size", o)
            if isc(o) and isinstance(o.a[0], str) and all(isc(V(a)) for a in args):
                pass
        if sn == "std::to_string" and len(args) == 1 and isc(V(args[0])) and V(args[0]).a[0].__class__ is int:
            return C(str(V(args[0]).a[0]))
        if sn == "std::operator+" and len(args) == 2:
            return self.scat(self.chr_(V(args[0])), self.chr_(V(args[1])))
        if scls in ("std::map", "std::unordered_map"):
            o = V(obj)
            if args and last in ("count", "at", "operator[]", "find", "erase", "lower_bound", "upper_bound"):
                kid = self.mkey(st, V(args[0]))
                if kid is not None:
                    args = [kid] + list(args[1:])
            if args and last in ("insert", "emplace", "insert_or_assign"):
                k0 = V(args[0])
                if len(args) == 1 and k0.k == "pair":
                    kid = self.mkey(st, k0.a[0])
                    args = [mk("pair", kid, k0.a[1])] if kid is not None else args
                elif len(args) == 2:
                    kid = self.mkey(st, k0)
                    args = [kid, args[1]] if kid is not None else args
            if o.k == "map" and obj.k in ("var", "fld", "el") and st.store.get(self.key(obj)) is o:
                ups = {x.a[1]: y for x, y in st.store.items() if x.k == "el" and x.a[0] is self.key(obj)}
                if ups and all(k in o.a[0::2] for k in ups):
                    o = mk("map", *[y for j in range(0, len(o.a), 2) for y in (o.a[j], ups.get(o.a[j], o.a[j + 1]))])
                elif ups:
                    o = mk("vecw", o, *[mk("pair", k, y) for k, y in ups.items()])
            if o.k == "call" and len(o.a) == 1 and o.a[0].endswith("map(ctor)"):
                k0 = V(args[0]) if args else None
                if k0 is not None and (kconst(k0) or k0.k == "pair" and kconst(k0.a[0])):
                    o = mk("il")
            cm = self.constmap(o) if o.k in ("map", "il") else None
            if cm is not None and o.k == "il":
                # an empty map is kept as such, for keys that are constants
                k0 = V(args[0]) if args else None
                if k0 is not None and (kconst(k0) or k0.k == "pair" and kconst(k0.a[0])):
                    o = mk("map")
            if cm is not None and o.k == "map":
                ks = [k for k, v in cm]
                at = lambda i: mk("it", o, C(i)) if i < len(ks) else mk("mend", o)
                key = V(args[0]) if args else None
                if last in ("begin", "cbegin"):
                    return at(0)
                if last in ("rbegin", "crbegin"):
                    return mk("rit", o, C(len(ks) - 1))
                if last == "empty":
                    return C(not ks)
                if last == "size":
                    return C(len(ks))
                if last in ("find", "lower_bound", "upper_bound", "equal_range") and len(args) == 1 and kconst(key):
                    lo, hi = sum(k < key.a[0] for k in ks), sum(k <= key.a[0] for k in ks)
                    return {"find": at(lo) if hi > lo else mk("mend", o), "lower_bound": at(lo), "upper_bound": at(hi), "equal_range": mk("pair", at(lo), at(hi))}[last]
                if last == "operator[]" and len(args) == 1 and kconst(key) and obj.k in ("var", "fld", "el") and e.get("lv"):
                    vt = mapped(cls)
                    if key.a[0] not in ks and (vt in INTS or vt in ("float", "double", "bool") or vt.endswith("*") or vt.startswith(("std::vector<", "std::shared_ptr<")) or not re.search(r"map<.*, (\w+::)*\w+ ?(\*|<)", cls)):
                        new = sorted([(k, v) for k, v in cm] + [(key.a[0], NULL if vt.endswith("*") or vt.startswith("std::shared_ptr<") else mk("il") if vt.startswith("std::vector<") else C(0))], key=lambda x: x[0])
                        self.put(st, obj, mk("map", *[y for k, v in new for y in (C(k), v)]), e["l"], rec=False)
                        return mk("el", self.key(obj), key)
                    if key.a[0] in ks:
                        return mk("el", self.key(obj), key)
                if last == "erase" and len(args) == 1 and kconst(key) and obj.k in ("var", "fld", "el"):
                    n = sum(k == key.a[0] for k in ks)
                    self.put(st, obj, mk("map", *[y for k, v in cm if k != key.a[0] for y in (C(k), v)]), e["l"])
                    return C(n)
                if last in ("insert", "emplace", "insert_or_assign"):
                    kv = list(key.a) if len(args) == 1 and key.k == "pair" else [key, V(args[1])] if len(args) == 2 else None
                    if len(args) == 1 and kv is None:
                        kv = [self.load(st, fld(key, n)) for n in ("first", "second")] if key.k in ("var", "fld", "el", "obj", "sym") else None
                    if kv and kconst(kv[0]) and obj.k in ("var", "fld", "el"):
                        new = [x for x in cm if x[0] != kv[0].a[0] or last != "insert_or_assign"]
                        if kv[0].a[0] not in [k for k, v in new]:
                            new.append((kv[0].a[0], kv[1]))
                        new.sort(key=lambda x: x[0])
                        self.put(st, obj, mk("map", *[y for k, v in new for y in (C(k), v)]), e["l"])
                        return mk("pair", UNK, C(kv[0].a[0] not in ks))
            if o.k == "map":
                if last == "find":
                    return mk("mit", o, V(args[0]))
                if last in ("end", "cend"):
                    return mk("mend", o)
                if last == "count":
                    k = V(args[0])
                    return ite(lor(*[eq(k, x) for x in o.a[0::2]]), C(1), C(0))
                if last in ("at", "operator[]"):
                    k = V(args[0])
                    ks = o.a
                    anyk = lor(*[eq(k, x) for x in ks[0::2]])
                    d = self.decide(st, self.simp(st, anyk))
                    if last == "at" and d is not True:
                        self._thr[-1].append((lnot(anyk), "std::out_of_range", e["l"], st))
                        st.trace.append(("if", anyk, [], [("throw", "std::out_of_range", e["l"])]))
                        if d is False:
                            x = Thrown("std::out_of_range", st, e["l"])
                            x.multi = True
                            raise x
                        self.assume(st, anyk)
                        self._npc = land(getattr(self, "_npc", TRUE), anyk)
                    r = mk("none")
                    for j in range(len(ks) - 2, -1, -2):
                        r = ks[j + 1] if r.k == "none" and last == "at" else ite(eq(k, ks[j]), ks[j + 1], C(0) if r.k == "none" else r)
                    return r
        if "iterator" in scls or scls.startswith("nlohmann::detail::iter"):
            o = V(obj) if obj is not None else None
            if last in ("operator->", "operator*"):
                if o.k in ("mit",):
                    return o
                if o.k in ("it", "rit") and o.a[0].k == "map" and isc(o.a[1]) and 0 <= 2 * o.a[1].a[0] < len(o.a[0].a):
                    return mk("pair", *o.a[0].a[2 * o.a[1].a[0]:2 * o.a[1].a[0] + 2])
                if o.k == "it":
                    return el(o.a[0], o.a[1])
                return mk("deref", o)
            if last in ("operator++", "operator--") and o.k in ("it", "mend", "rit") and o.a[0].k == "map" and (o.k == "mend" or isc(o.a[1])):
                self.put(st, obj, self.mstep(o, 1 if last == "operator++" else -1), e["l"])
                return o if len(args) else obj
            if last in ("operator++", "operator--"):
                if o.k == "it" and o.a[0].k == "il" and isc(o.a[1]) and last == "operator++" and o.a[1].a[0] + 1 == len(o.a[0].a):
                    self.put(st, obj, mk("mend", o.a[0]), e["l"])
                    return o if len(args) else obj
                nv = mk("it", o.a[0], arith("+" if last == "operator++" else "-", o.a[1], C(1))) if o.k == "it" else mk("next" if last == "operator++" else "prev", o)
                self.put(st, obj, nv, e["l"])
                return o
            if last in ("operator+", "operator-") and len(args) == 1 and o.k == "it":
                a = V(args[0])
                if a.k != "it":
                    return mk("it", o.a[0], arith(last[8:], o.a[1], a))
            if last == "operator=":
                self.put(st, obj, V(args[0]), e["l"])
                return obj
        if last in ("begin", "cbegin") and obj is not None and not args:
            return mk("it", V(obj), C(0))
        if last in ("end", "cend") and obj is not None and not args and V(obj).k != "map":
            return mk("mend", V(obj))
        if last == "back" and obj is not None and not args and scls.startswith(("std::vector", "std::deque", "std::list")) and e.get("lv") and V(obj).k == "il" and V(obj).a and obj.k in ("var", "fld"):
            return mk("el", self.key(obj), C(len(V(obj).a) - 1))
        if scls.startswith(("std::vector", "std::list", "std::set", "std::multiset", "std::map", "std::deque", "std::array", "std::multimap", "std::unordered_map", "std::queue", "std::stack")):
            o = V(obj)
            if last in ("operator[]", "at") and len(args) == 1:
                i = V(args[0])
                if o.k == "il":
                    if obj.k == "il" and isc(i) and isinstance(i.a[0], int) and 0 <= i.a[0] < len(o.a):
                        return o.a[i.a[0]]
                    if isc(i) and isinstance(i.a[0], int) and 0 <= i.a[0] < len(o.a):
                        ov = st.store.get(mk("el", self.key(obj), i))
                        if ov is None and (not e.get("lv") or o.a[i.a[0]].k in ("sym", "obj") and re.match(r"const [^*]*$", str(e.get("t", "")))):
                            return o.a[i.a[0]]
                        return mk("el", self.key(obj), i)
                    return mk("el", self.key(obj), i) if obj.k in ("var", "fld") else mk("el", o, i)
                if obj.k in ("var", "fld", "el", "glob") and o is not obj and o.k not in ("fld", "el", "sym", "ite"):
                    return mk("el", self.key(obj), i)
                return mk("el", o, i)
            if last == "operator=" and len(args) == 1:
                v = V(args[0])
                self.put(st, obj, v if "m" in fnr.get("pt", "") else self.clonevals(st, v, cls, e["l"]), e["l"])
                return obj
            if o.k == "il" and obj.k in ("var", "fld", "el", "glob"):
                o = self.whole(st, obj, o)
            if scls in ("std::set", "std::multiset") and o.k == "il" and args and last in ("insert", "find", "lower_bound", "upper_bound", "count", "erase", "equal_range") and len(args) == 1:
                k1 = V(args[0])
                at = self.ordered(cls, o, k1, st, e["l"])
                if at is not None and (last not in ("insert", "erase") or obj.k in ("var", "fld", "el")):
                    i, j = at
                    itr = lambda n: mk("it", o, C(n)) if n < len(o.a) else mk("mend", o)
                    if last == "insert":
                        if i == j or scls == "std::multiset":
                            self.put(st, obj, mk("il", *(o.a[:j] + (k1,) + o.a[j:])), e["l"])
                        return UNK if scls == "std::multiset" else mk("pair", UNK, C(i == j))
                    if last == "erase":
                        self.put(st, obj, mk("il", *(o.a[:i] + o.a[j:])), e["l"])
                        return C(j - i)
                    return {"find": itr(i) if j > i else mk("mend", o), "lower_bound": itr(i), "upper_bound": itr(j), "count": C(j - i), "equal_range": mk("pair", itr(i), itr(j))}[last]
            if scls == "std::set" and o.k == "il" and all(self.keyof(st, x) is not None for x in o.a):
                k1 = V(args[0]) if len(args) == 1 else None
                k0 = self.keyof(st, k1) if k1 is not None else None
                if k0 is not None:
                    ks = [self.keyof(st, x).a[0] for x in o.a]
                    if last == "count":
                        return C(int(k0.a[0] in ks))
                    if last in ("insert", "emplace", "erase") and obj.k in ("var", "fld", "el"):
                        self.put(st, obj, self.setof(st, [x for x, k in zip(o.a, ks) if k != k0.a[0]] if last == "erase" else list(o.a) + [k1]), e["l"])
                        return C(int(k0.a[0] in ks)) if last == "erase" else mk("pair", UNK, C(k0.a[0] not in ks))
                    if last == "find":
                        return mk("it", o, C(ks.index(k0.a[0]))) if k0.a[0] in ks else mk("mend", o)
            if last == "insert" and o.k == "il" and len(args) in (2, 3):
                av = [V(a) for a in args]
                p = len(o.a) if av[0].k == "mend" else av[0].a[1].a[0] if av[0].k == "it" and isc(av[0].a[1]) else None
                new = None
                if len(args) == 2:
                    new = (av[1],)
                elif av[1].k == "it" and av[1].a[0].k == "il" and isc(av[1].a[1]):
                    b0, b1 = av[1].a[1].a[0], None
                    if av[2].k == "mend":
                        b1 = len(av[1].a[0].a)
                    elif av[2].k == "it" and isc(av[2].a[1]):
                        b1 = av[2].a[1].a[0]
                    if b1 is not None and av[2].a[0] is av[1].a[0]:
                        new = tuple(av[1].a[0].a[b0:b1])
                elif isc(av[1]) and av[1].a[0].__class__ is int:
                    new = (av[2],) * av[1].a[0]
                if p.__class__ is int and 0 <= p <= len(o.a) and new is not None and len(o.a) + len(new) < 80:
                    self.put(st, obj, mk("il", *(tuple(o.a[:p]) + new + tuple(o.a[p:]))), e["l"])
                    return UNK
            if last == "erase" and o.k == "il" and obj.k in ("var", "fld", "el", "glob") and scls in ("std::vector", "std::deque", "std::list") and args:
                at = [len(o.a) if x.k == "mend" else x.a[1].a[0] if x.k == "it" and isc(x.a[1]) else None for x in (V(a) for a in args)]
                if None not in at:
                    i, j = at[0], (at[1] if len(at) > 1 else at[0] + 1)
                    o2 = self.whole(st, obj, o)
                    if o2.k == "il" and 0 <= i <= j <= len(o2.a):
                        nv = mk("il", *(o2.a[:i] + o2.a[j:]))
                        self.put(st, obj, nv, e["l"])
                        return mk("it", nv, C(i)) if i < len(nv.a) else mk("mend", nv)
            if last == "pop_back" and o.k == "il" and o.a:
                self.put(st, obj, mk("il", *o.a[:-1]), e["l"])
                return UNK
            if last in ("push_back", "emplace_back") and o.k == "il" and len(args) == 1 and len(o.a) < 80:
                o2, v = self.whole(st, obj, o), V(args[0])
                if v.k in ("fld", "el") and (m := re.match(r"std::\w+<(.*?)>$", cls)) and m.group(1) in self.P.recs:
                    # the element is a copy of what the location holds now
                    n = self.newobj(m.group(1), [], e["l"], None)
                    self.copyobj(st, n, v, e["l"], False)
                    v = n
                self.put(st, obj, mk("il", *(o2.a + (v,))) if o2.k == "il" else mk("m", "push_back", o2, v), e["l"])
                return UNK
            if last == "emplace_back" and o.k == "il" and not args and len(o.a) < 80 and (m := re.match(r"std::\w+<(.*?)>$", cls)) and m.group(1) in self.P.recs:
                c = [f for f in self.P.byname.get(m.group(1) + "::(ctor)", []) if not f["p"] and not f.get("dep") and f.get("b") is not None]
                if len(c) == 1:
                    o2, n = self.whole(st, obj, o), self.newobj(m.group(1), [], e["l"], None)
                    self.call_body(c[0], n, [], st, e["l"])
                    self.put(st, obj, mk("il", *(o2.a + (n,))), e["l"])
                    return UNK
            if last == "size" and o.k == "il":
                return C(len(o.a))
            if last == "empty":
                if o.k == "il":
                    return C(len(o.a) == 0)
                return eq(mk("call", "size", o), C(0))
            if last == "size":
                return mk("call", "size", o)
            if last == "clear":
                self.put(st, obj, mk("il"), e["l"])
                return UNK
            if last == "back" and o.k == "il" and o.a:
                return o.a[-1]
            if last == "front":
                return o.a[0] if o.k == "il" and o.a else el(o, C(0))
            if last == "data" and scls in ("std::vector", "std::array"):
                return self.whole(st, obj, o)
            if last == "resize" and isc(V(args[0])) and o.k == "il" and len(args) <= 2 and isinstance(V(args[0]).a[0], int) and V(args[0]).a[0] <= 64:
                n = V(args[0]).a[0]
                self.put(st, obj, mk("il", *(list(o.a[:n]) + [V(args[1]) if len(args) > 1 else self.blank(cls, st, e["l"]) for _ in range(n - len(o.a))])), e["l"])
                return UNK
            if last in ("reserve", "shrink_to_fit"):
                return UNK
        # json
        if scls.startswith("nlohmann::basic_json"):
            o = V(obj) if obj is not None else None
            if last in ("at", "operator[]") and len(args) == 1:
                r = mk("jat", o, V(args[0]))
                if last == "at":
                    st.trace.append(("jreq", o, V(args[0]), e["l"]))
                return r
            if last == "get":
                m = re.search(r"get<([^,]*)", fnr["n"])
                return mk("jget", e["t"], o)
            if last.startswith("operator ") and obj is not None:
                return mk("jget", e["t"], o)
            if last == "value" and len(args) == 2:
                k = V(args[0])
                has = lnot(eq(mk("call", "nlohmann::basic_json::find", o, k), mk("mend", o)))
                return ite(has, mk("jget", e["t"], mk("jat", o, k)), V(args[1]))
            if last == "count" and len(args) == 1:
                has = lnot(eq(mk("call", "nlohmann::basic_json::find", o, V(args[0])), mk("mend", o)))
                return ite(has, C(1), C(0))
            if last == "contains" and len(args) == 1:
                return lnot(eq(mk("call", "nlohmann::basic_json::find", o, V(args[0])), mk("mend", o)))
            if last == "operator=":
                self.put(st, obj, V(args[0]), e["l"])
                return obj
        avals = [V(a) for a in args]
        oval = V(obj) if obj is not None else None
        pure = last in PURE and "operator>>" not in last or not fnr.get("cls") and all(p in ".cqm" for p in fnr.get("pt", "")) and last not in ("system", "exit")
        t = mk("call", sn, *([oval] if oval is not None else []), *avals)
        if not (pure or fnr.get("const")):
            st.trace.append(("call", fnr["n"], fnr["u"], oval if obj is not None else None, avals, e["l"], self.stack[-1][0]["n"]))
            if obj is not None and obj.k in ("var", "fld", "el", "glob"):
                o2 = self.whole(st, obj, oval)
                self.put(st, obj, mk("m", sn, o2, *avals), e["l"])
                if e.get("lv"):
                    return obj
            elif obj is not None and e.get("lv") and last in ("operator<<", "operator>>", "operator="):
                self.havoc(fnr, args, t, st, e)
                return obj
            if last in ("operator<<", "operator>>") and args and fnr.get("cls") is None:
                if last == "operator<<" and len(args) > 1 and args[0].k in ("var", "fld", "el"):
                    self.put(st, args[0], mk("m", "operator<<", V(args[0]), V(args[1])), e["l"])
                if len(args) > 1 and fnr.get("pt", "..")[1:2] == "r":
                    st.store[self.key(args[1])] = mk("out", 1, t)
                return args[0]
            self.havoc(fnr, args, t, st, e)
        else:
            st.trace.append(("pure", fnr["n"], fnr["u"], oval, avals, e["l"], self.stack[-1][0]["n"]))
        return t

    def whole(self, st, loc, v):
        """value of a container location with element stores folded in"""
        k = self.key(loc)
        ups = [(x.a[1], y) for x, y in st.store.items() if x.k == "el" and x.a[0] is k]
        if not ups:
            return self.nested(st, k, v)
        if v.k == "il" and all(isc(i) for i, _ in ups):
            a = list(v.a)
            for i, y in ups:
                if 0 <= i.a[0] < len(a):
                    a[i.a[0]] = y
            return self.nested(st, k, mk("il", *a))
        return mk("vecw", v, *[mk("pair", i, y) for i, y in ups])

    def nested(self, st, k, v):
        """elements of elements that were assigned one by one"""
        if v.k == "il" and any(x.k == "il" for x in v.a):
            deep = {x.a[0].a[1].a[0] for x in st.store if x.k == "el" and x.a[0].k == "el" and x.a[0].a[0] is k and isc(x.a[0].a[1])}
            if deep:
                return mk("il", *[self.whole(st, el(k, C(i)), x) if i in deep and x.k == "il" else x for i, x in enumerate(v.a)])
        return v

    def blank(self, cls, st, line):
        """value-initialised element of a container class"""
        m = re.match(r"std::\w+<(.*)>$", cls)
        t = m.group(1) if m else ""
        if t and t in self.P.recs:
            o = self.newobj(t, [], line, None)
            self.objs[o]["args"] = []
            c = [f for f in self.P.byname.get(t + "::(ctor)", []) if not f.get("dep") and not f["p"]]
            if len(c) == 1 and self.may_inline(c[0]):
                self.call_body(c[0], o, [], st, line)
            return o
        return C(0)

    def chr_(self, x):
        """a character as text"""
        if num(x) and x.a[0].__class__ is int and 0 <= x.a[0] < 256:
            return C(chr(x.a[0]))
        if x.k == "ite":
            return ite(x.a[0], self.chr_(x.a[1]), self.chr_(x.a[2]))
        return x

    def scat(self, a, b):
        if isc(a) and isc(b) and isinstance(a.a[0], str) and isinstance(b.a[0], str):
            return C(a.a[0] + b.a[0])
        if isc(a) and a.a[0] == "":
            return b if b.k == "str+" or isc(b) else mk("str+", b)
        xs = list(a.a) if a.k == "str+" else [a]
        ys = list(b.a) if b.k == "str+" else [b]
        if xs and ys and isc(xs[-1]) and isc(ys[0]) and isinstance(xs[-1].a[0], str) and isinstance(ys[0].a[0], str):
            xs[-1] = C(xs[-1].a[0] + ys[0].a[0])
            ys = ys[1:]
        return mk("str+", *(xs + ys))


# ---------------------------------------------------------------------- trace helpers
def flat(tr, pc=TRUE, loops=(), into=None, stack=()):
    """yield (effect, pc, loops, stack of inlined function names); a branch that does not complete normally
    adds its negation to what follows"""
    out = [] if into is None else into
    alive = _flat_tr(tr, pc, loops, out, stack)
    return out


def _flat_tr(tr, pc, loops, out, stack):
    """returns the pc under which the trace completes normally (FALSE if never)"""
    for ef in tr:
        k = ef[0]
        if k == "if":
            pa = _flat_tr(ef[2], land(pc, ef[1]), loops, out, stack)
            pb = _flat_tr(ef[3], land(pc, lnot(ef[1])), loops, out, stack)
            if pa is FALSE and pb is FALSE:
                return FALSE
            if pa is FALSE:
                pc = pb
            elif pb is FALSE:
                pc = pa
        elif k == "loop":
            _flat_tr(ef[2], pc, loops + (ef[1],), out, stack)
        elif k == "inl":
            out.append((ef, pc, loops, stack))
            p2 = _flat_inl(ef[3], pc, loops, out, stack + ((ef[1], ef[6]),))
            if p2 is FALSE:
                return FALSE
        elif k == "try":
            _flat_tr(ef[1], pc, loops, out, stack)
            for t, tr2, _ in ef[2]:
                _flat_tr(tr2, land(pc, mk("exc", ef[3], t or "...")), loops, out, stack)
        elif k in ("ret", "throw", "brk", "cont"):
            out.append((ef, pc, loops, stack))
            return FALSE
        else:
            out.append((ef, pc, loops, stack))
    return pc


def _flat_inl(tr, pc, loops, out, stack):
    p = _flat_tr(tr, pc, loops, out, stack)
    # an inlined body that returns on some path continues in the caller unless every path throws
    if p is FALSE and not _returns(tr):
        return FALSE
    return pc


def _returns(tr):
    for ef in tr:
        k = ef[0]
        if k == "ret":
            return True
        if k == "throw":
            return False
        if k == "if" and (_returns(ef[2]) or _returns(ef[3])):
            return True
        if k == "loop" and _returns(ef[2]):
            return True
        if k == "try" and (_returns(ef[1]) or any(_returns(t) for _, t, _ in ef[2])):
            return True
    return False
