"""C19 settings keep what they are given"""
import itertools
from lib import *

EXPL = ("Histories of settings (objects, lists, texts, flags and numbers added, replaced, erased, copied, moved and merged) are evaluated from the constructor on, callees inlined, names and texts being known; "
        "what every query then reports is compared with the tree of values the history gives.")
FLOOR = 1100
O = "SEMBA::Argument::Object"


def parsed(fn, o, args):
    """the standard library reads the texts of numbers right"""
    m = re.match(r"SEMBA::Argument::StringParser::parse<(bool|int|double)>$", fn["n"])
    if m and len(args) == 1 and args[0].k == "il" and len(args[0].a) == 1 and isc(args[0].a[0]) and args[0].a[0].a[0].__class__ is str:
        try:
            return C({"bool": lambda x: bool(int(x)), "int": int, "double": float}[m.group(1)](args[0].a[0].a[0]))
        except ValueError:
            return None
    return None


class Tree:
    """settings evaluated along a history"""

    def __init__(self, ctx, s=None, o=None):
        self.ctx = ctx
        if s is None:
            s = Shaped(ctx, self.fn("(ctor)", 0), None, [], rec=12, budget=2000000)
            s.ev.sink = True
            s.ev.known = parsed
            o = s.o
        self.s, self.o = s, o

    def fn(self, name, n=None, t=None, const=None, ret=None):
        for f in self.ctx.fns(O + "::" + name):
            if f.get("b") is not None and (n is None or len(f["p"]) == n) and (t is None or t(f["p"][0]["t"])) and (const is None or bool(f.get("const")) == const) and (ret is None or (f.get("ret") or f.get("rt") or "").strip() == ret):
                return f
        raise AnalysisError("anchor vanished: %s::%s" % (O, name))

    def call(self, f, args, this=None):
        if self.s is None or self.s.r.st is None:
            return None
        q = self.s.then(f, args, this=this or self.o)
        return q

    def do(self, f, args, this=None):
        """a call that changes the settings; False if it cannot be followed"""
        q = self.call(f, args, this)
        if q is None or q.r.st is None or q.limit or any(t[0] is not FALSE for t in q.r.throws):
            self.s = None
            return None
        q.o = self.o
        self.s = q
        return q.r.ret

    def ask(self, f, args, this=None):
        """(value) of a query, or "refused", or None"""
        q = self.call(f, args, this)
        if q is None or q.limit:
            return None
        if q.r.st is None or any(t[0] is TRUE for t in q.r.throws):
            return "refused"
        if any(t[0] is not FALSE for t in q.r.throws):
            return None
        return q

    def const(self, f, args, this=None):
        q = self.ask(f, args, this)
        if q is None or q == "refused":
            return q
        v = q.ev.val(q.r.st, q.r.ret) if q.r.ret is not None else None
        return v.a[0] if v is not None and isc(v) else None

    def at(self, path, make=False):
        """the place of a member"""
        o = self.o
        for k in path:
            if k.__class__ is str:
                if make:
                    o = self.do(self.fn("operator()", 1, lambda t: "string" in t, const=False), [C(k)], o)
                else:
                    q = self.ask(self.fn("operator()", 1, lambda t: "string" in t, const=True), [C(k)], o)
                    o = q.r.ret if q not in (None, "refused") else q
            else:
                q = self.ask(self.fn("operator()", 1, lambda t: "long" in t, const=True), [C(k)], o)
                o = q.r.ret if q not in (None, "refused") else q
            if o is None or o == "refused":
                return o
        return o


UN = ("undecided",)


def read(t, o, names, model, where, out, d=0):
    """compare what is at o with the model, through the queries"""
    kind = {"NoneType": "isNull", "str": "isString", "dict": "isObject", "list": "isArray"}
    for q in kind.values():
        if q == "isString" and model.__class__ is not str and False:
            continue
        out(where, q, t.const(t.fn(q, 0), [], o), kind[model.__class__.__name__] == q)
    if model.__class__ is str:
        out(where, "getString", t.const(t.fn("getString", 0), [], o), model)
        out(where, "size", t.const(t.fn("size", 0), [], o), 0)
        return
    out(where, "size", t.const(t.fn("size", 0), [], o), len(model) if model is not None else 0)
    if model.__class__ is dict:
        for i, (k, v) in enumerate(model.items()):
            out(where, "getName(%d)" % i, t.const(t.fn("getName", 1), [C(i)], o), k)
            for kk in (k, i):
                p = t2 = None
                q = t.ask(t.fn("operator()", 1, (lambda t: "string" in t) if kk is k else (lambda t: "long" in t), const=True), [C(kk)], o)
                if q in (None, "refused"):
                    out(where, "%s (%s)" % (kk, "by name" if kk is k else "by position"), q, "there")
                else:
                    read(t, q.r.ret, names, v, "%s/%s" % (where, kk), out, d + 1)
    if model.__class__ is list:
        for i, v in enumerate(model):
            q = t.ask(t.fn("operator()", 1, lambda t: "long" in t, const=True), [C(i)], o)
            if q in (None, "refused"):
                out(where, "value %d" % i, q, "there")
            else:
                read(t, q.r.ret, names, v, "%s/%d" % (where, i), out, d + 1)
    for k in names:
        w = model.__class__ is dict and model.get(k) is not None
        out(where, "existsName %s" % k, t.const(t.fn("existsName", 1), [C(k)], o), w)
        if d == 0 and not (model.__class__ is dict and k in model):
            q = t.ask(t.fn("operator()", 1, lambda t: "string" in t, const=True), [C(k)], o)
            out(where, "no %s" % k, "refused" if q == "refused" else None if q is None or t.const(t.fn("isNull", 0), [], q.r.ret) is None else "there", "refused")


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a.__class__ is dict and b.__class__ is dict:
        r = {k: merge(v, b[k]) if b.get(k) is not None else v for k, v in a.items()}
        for k, v in b.items():
            if r.get(k) is None:
                r[k] = v
        return r
    if a.__class__ is dict:
        return a
    return b


def build(ctx, model, base=None):
    """settings with the values of the model, made by the functions themselves"""
    t = base or Tree(ctx)
    put(t, t.o, model)
    return t


def another(t, model):
    """further settings, in the same state as t"""
    q = t.s.then(t.fn("(ctor)", 0), [], this=mk("obj", "more%d" % len(t.s.ev.objs), O))
    o = q.o
    t.s.ev.objs[o] = dict(cls=O, args=[], line=0, usr=None, heap=False, fn=None)
    t.s.ev.exact[o] = t.s.ev.dyncls[o] = O
    q.o = t.o
    t.s = q
    put(t, o, model)
    return o


def put(t, o, model):
    if t.s is None:
        return
    if model.__class__ is str:
        t.do(t.fn("setString", 1), [C(model)], o)
    elif model.__class__ is dict:
        t.do(t.fn("setObject", 0), [], o)
        for k, v in model.items():
            p = t.do(t.fn("operator()", 1, lambda x: "string" in x, const=False), [C(k)], o)
            if t.s is not None and p is not None:
                put(t, p, v)
    elif model.__class__ is list:
        t.do(t.fn("setArray", 0), [], o)
        for v in model:
            if v.__class__ is str and t.s is not None:
                x = another(t, v)
                if t.s is not None:
                    t.do(t.fn("addValue", 1, lambda x: "&&" not in x), [x], o)


def judge(ctx, tag, t, model, names=("a", "b", "c", "zz"), f=None, o=None):
    w = ctx.loc(f) if f else ""
    st = {"bad": [], "und": []}

    def out(where, q, got, want):
        if got is None:
            st["und"].append("%s %s" % (where, q))
        elif (got != want) if not (got.__class__ is bool or want.__class__ is bool) else bool(got) != bool(want) or got.__class__ is str:
            st["bad"].append("%s %s is %r, should be %r" % (where or "the settings", q, got, want))
    if t.s is None or t.s.r.st is None:
        ctx.ob("settings", tag, None, "cannot be followed", w)
        return
    read(t, o or t.o, names, model, "", out)
    ctx.ob("settings", tag, False if st["bad"] else None if st["und"] else True, "; ".join((st["bad"] or st["und"])[:3]), w)


NEST = {"a": "1", "b": {"x": "2", "y": "3"}, "c": "4"}
MODELS = [None, "text", {}, {"a": "1"}, {"b": "1", "a": "2"}, {"a": "1", "b": "2", "c": "3"}, NEST, [], ["p"], ["p", "q", "r"], {"a": ["p", "q"], "b": "t"}, {"a": None, "b": "2"}]


def sample(model):
    return {k: sample(v) for k, v in model.items()} if model.__class__ is dict else list(model) if model.__class__ is list else model


def check(ctx):
    T0 = Tree(ctx)
    isstr, isnum = (lambda x: "string" in x), (lambda x: "long" in x)
    par = T0.fn("operator()", 1, isstr, const=False)
    for i, m in enumerate(MODELS):
        judge(ctx, "made as %s" % (m,), build(ctx, m), m, f=par)
    # a value given again, or of another kind, replaces the former one
    for a, b in itertools.product(MODELS, MODELS):
        t = build(ctx, a)
        if b is None or a.__class__ is not b.__class__ or a.__class__ is str:
            if b is None and t.s is not None:
                t.do(t.fn("setNull", 0), [], t.o)
            put(t, t.o, b) if t.s is not None else None
            judge(ctx, "%s made %s" % (a, b), t, b, f=t.fn("setType", 1))
    # a member set again
    for m in MODELS:
        if m.__class__ is dict:
            for k in ("a", "b", "c"):
                for v in ("new", {"z": "9"}, None):
                    t = build(ctx, m)
                    p = t.do(par, [C(k)], t.o)
                    if v is None and t.s is not None:
                        t.do(t.fn("setNull", 0), [], p)
                    elif t.s is not None:
                        put(t, p, v) if v.__class__ is str else (t.do(t.fn("setNull", 0), [], p), put(t, p, v))
                    judge(ctx, "%s of %s set to %s" % (k, m, v), t, dict(sample(m), **{k: v}), f=par)
                    for am in ("copied", "moved"):
                        if v is None:
                            continue
                        t = build(ctx, m)
                        x = another(t, v) if t.s is not None else None
                        fa = t.fn("addMember", 2)
                        fa = [f for f in ctx.fns(O + "::addMember") if f.get("b") is not None and ("&&" in f["p"][1]["t"]) == (am == "moved")]
                        if not fa:
                            raise AnalysisError("anchor vanished: addMember")
                        if x is not None and t.s is not None:
                            t.do(fa[0], [C(k), x], t.o)
                        judge(ctx, "%s added to %s as %s, %s" % (v, m, k, am), t, dict(sample(m), **{k: v}), f=fa[0])
                        if am == "copied" and x is not None:
                            judge(ctx, "%s added to %s as %s, the one added" % (v, m, k), t, v, f=fa[0], o=x)
    # members and values are erased
    er, ev = T0.fn("eraseMember", 1), T0.fn("eraseValue", 1)
    for m in MODELS:
        if m.__class__ is dict:
            for ks in [(k,) for k in ("a", "b", "c", "zz")] + [("a", "b"), ("b", "a"), ("a", "c")]:
                t = build(ctx, m)
                w = dict(sample(m))
                for k in ks:
                    if t.s is not None:
                        t.do(er, [C(k)], t.o)
                    if w.get(k) is not None:
                        w.pop(k)
                judge(ctx, "%s without %s" % (m, ks), t, w, f=er)
                # and added again
                if t.s is not None and ks[0] != "zz":
                    p = t.do(par, [C(ks[0])], t.o)
                    if p is not None:
                        t.do(t.fn("setString", 1), [C("again")], p)
                        judge(ctx, "%s without %s, %s again" % (m, ks, ks[0]), t, dict(w, **{ks[0]: "again"}), f=er)
            for i, k in enumerate(m):
                if m[k] is None:
                    continue
                t = build(ctx, m)
                q = t.ask(t.fn("getName", 1), [C(i)], t.o)
                if q in (None, "refused"):
                    continue
                t.do(er, [q.r.ret], t.o)
                w = dict(sample(m))
                w.pop(k)
                judge(ctx, "%s without the one named getName(%d)" % (m, i), t, w, f=er)
        if m.__class__ is list:
            for i in range(len(m)):
                t = build(ctx, m)
                t.do(ev, [C(i)], t.o)
                judge(ctx, "%s without value %d" % (m, i), t, m[:i] + m[i + 1:], f=ev)
    # flags and numbers
    num = [("3", 3, 3.), ("-4", -4, -4.), ("0", 0, 0.), ("2.75", None, 2.75), ("2147483647", 2147483647, 2147483647.), ("-2147483647", -2147483647, -2147483647.), ("4000000000", "refused", 4e9), ("-4000000000", "refused", -4e9), ("1e300", "refused", 1e300)]
    for txt, i, r in num:
        t = build(ctx, txt)
        for q, w in (("getInt", i), ("getReal", r)):
            f = t.fn(q, 0)
            g = t.const(f, []) if t.s is not None else None
            if w is not None:
                ctx.ob("settings", "%s of %s" % (q, txt), None if g is None else (g == "refused") == (w == "refused") and (w == "refused" or abs(g - w) <= 1e-9 * abs(w)), "is %s" % (g,), ctx.loc(f))
    for m in MODELS:
        if m is None or m.__class__ is not str:
            for q in ("getBool", "getInt", "getReal"):
                t = build(ctx, m)
                f = t.fn(q, 0)
                g = t.const(f, []) if t.s is not None else None
                ctx.ob("settings", "%s of %s" % (q, m), None if g is None else g == "refused", "is %s" % (g,), ctx.loc(f))
    for fs, fq, v, txt in (("setBool", "getBool", True, "1"), ("setBool", "getBool", False, "0"), ("setInt", "getInt", -4, "-4"), ("setInt", "getInt", 70000, "70000"), ("setReal", "getReal", 2.5, "2.5"), ("setReal", "getReal", -0.125, "-0.125")):
        for m in (None, "text", NEST, ["p"]):
            t = build(ctx, m)
            f = t.fn(fs, 1)
            t.do(f, [C(v)], t.o) if t.s is not None else None
            judge(ctx, "%s %s after %s" % (fs, v, m), t, txt, f=f)
            g = t.const(t.fn(fq, 0), []) if t.s is not None else None
            ctx.ob("settings", "%s after %s %s after %s" % (fq, fs, v, m), None if g is None else g != "refused" and float(g) == float(v), "is %s" % (g,), ctx.loc(f))
    for n, v in (("setTrue", True), ("setFalse", False)):
        t = build(ctx, "text")
        f = t.fn(n, 0)
        t.do(f, [], t.o) if t.s is not None else None
        g = t.const(t.fn("getBool", 0), []) if t.s is not None else None
        ctx.ob("settings", n, None if g is None else g != "refused" and bool(g) == v, "is %s" % (g,), ctx.loc(f))
    # copies, moves and merges
    cc, mv = T0.fn("(ctor)", 1, lambda x: "&&" not in x), T0.fn("(ctor)", 1, lambda x: "&&" in x)
    asg, masg = [f for f in ctx.fns(O + "::operator=") if f.get("b") is not None and f["p"][0]["t"] == "const " + O + " &"], [f for f in ctx.fns(O + "::operator=") if f.get("b") is not None and f["p"][0]["t"] == O + " &&"]
    if not asg or not masg:
        raise AnalysisError("anchor vanished: operator= of the settings")
    for m in MODELS:
        for nm, f in (("copy", cc), ("moved", mv)):
            t = build(ctx, m)
            if t.s is None:
                continue
            n = mk("obj", "copy", O)
            t.s.ev.objs[n] = dict(cls=O, args=[], line=0, usr=None, heap=False, fn=None)
            t.s.ev.exact[n] = t.s.ev.dyncls[n] = O
            t.do(f, [t.o], n)
            judge(ctx, "%s of %s" % (nm, m), t, m, f=f, o=n)
            if nm == "copy":
                judge(ctx, "original of the copy of %s" % (m,), t, m, f=f)
        # the copy and the original live on their own
        if m.__class__ is dict:
            for k in m:
                for who in ("copy", "original"):
                    t = build(ctx, m)
                    x = another(t, {}) if t.s is not None else None
                    if x is None or t.s is None:
                        continue
                    t.do(asg[0], [t.o], x)
                    o1, o2 = (x, t.o) if who == "copy" else (t.o, x)
                    p = t.do(par, [C(k)], o1) if t.s is not None else None
                    w = "changed"
                    if p is not None and m[k].__class__ is dict:
                        p = t.do(par, [C("y")], p)
                        w = dict(m[k], y="changed")
                    if p is not None and t.s is not None:
                        t.do(t.fn("setString", 1), [C("changed")], p)
                    judge(ctx, "%s of the %s of %s changed, that one" % (k, who, m), t, dict(sample(m), **{k: w}), f=asg[0], o=o1)
                    judge(ctx, "%s of the %s of %s changed, the other one" % (k, who, m), t, m, f=asg[0], o=o2)
        for m2 in MODELS:
            for nm, f in (("assigned", asg[0]), ("move assigned", masg[0])):
                t = build(ctx, m2)
                x = another(t, m) if t.s is not None else None
                if x is not None and t.s is not None:
                    t.do(f, [x], t.o)
                judge(ctx, "%s %s to %s" % (m, nm, m2), t, m, f=f)
                if nm == "assigned":
                    judge(ctx, "%s %s to %s, the one assigned" % (m, nm, m2), t, m, f=f, o=x)
    pl = T0.fn("operator+", 1)
    for a, b in itertools.product(MODELS + [{"b": {"y": "30", "z": "5"}, "d": "7"}, {"a": {"x": "1"}}], repeat=2):
        t = build(ctx, a)
        x = another(t, b) if t.s is not None else None
        if x is None or t.s is None:
            ctx.ob("settings", "%s + %s" % (a, b), None, "cannot be followed", ctx.loc(pl))
            continue
        r = t.do(pl, [x], t.o)
        if t.s is None:
            ctx.ob("settings", "%s + %s" % (a, b), None, "cannot be followed", ctx.loc(pl))
            continue
        judge(ctx, "%s + %s" % (a, b), t, merge(a, b), ("a", "b", "c", "d", "zz"), f=pl, o=r)
        judge(ctx, "%s + %s, the former" % (a, b), t, a, f=pl)
