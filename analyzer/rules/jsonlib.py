"""shared by the rules over the JSON reader"""
from lib import *

J = "SEMBA::Parser::JSON::Parser::"
OPQ = {"SEMBA::Parser::Parser::trim", "SEMBA::Parser::Parser::ltrim", "SEMBA::Parser::Parser::rtrim"}
DIRS = ("/parser/", "/physicalModel/", "/class/", "/math/vector/Cart", "/axis/", "/source/", "/outputRequest/", "/math/function/Gaussian",
        "/math/function/BandLimited", "/math/function/Function")


def inl(f):
    if "/filesystem/" in f["file"]:
        return None if f.get("ctor") or f.get("casg") else False
    return None if any(d in f["file"] for d in DIRS) else False


def leaf(cls):
    return short(cls).replace("SEMBA::", "")


def vecwant(key, suffix=""):
    return ["%s%s#%d" % (key, suffix, i) for i in range(3)]


def check_vec(ctx, rule, inst, v, want, where):
    got = [x.c for x in v.vec()]
    if got == want:
        return ctx.ob(rule, inst, True, "", where)
    js = [agree(x.ev, x.t, y)[0] for x, y in zip(v.vec(), want)] if all(isinstance(y, str) for y in want) else [None]
    if False not in js and any(vague(x.t) for x in v.vec()):
        return ctx.ob(rule, inst, None, str(got), where)
    return ctx.ob(rule, inst, False, "components are %s, expected %s" % (got, want), where)


def check_val(ctx, rule, inst, v, want, where):
    """want: Poly, canonical text, python constant, or a list (vector components)"""
    if isinstance(want, list):
        return check_vec(ctx, rule, inst, v, want, where)
    if isinstance(want, (bool, int, float)) and not isinstance(want, str):
        if isc(v.t) and v.t.a[0] == want:
            return ctx.ob(rule, inst, True, "", where)
        if isc(v.t) or not vague(v.t):
            return ctx.ob(rule, inst, False, "value is %s, expected %r" % (v.c[:300], want), where)
        return ctx.ob(rule, inst, None, v.c[:300], where)
    ok, c = agree(v.ev, v.t, want)
    return ctx.ob(rule, inst, ok, "value is %s, expected %s" % (c, want), where)


def reader_fn(ctx, name, pred=None):
    f = ctx.fn(J + name, pred=pred)
    return f


def scenario(ctx, fn, vals, has=None, args=None, extra=None, inline=inl, opaque=OPQ, facts=None):
    return Scen(ctx, fn, vals, has or {}, inline, opaque, args=args, extra=extra, facts=facts)


def only_obj(ctx, s, inst, where, cls, rule="class created"):
    """the one object the reader returns; obligation on its class"""
    os_ = s.objs()
    os_ = [o for c, o in os_]
    if s.ret is None:
        ctx.ob(rule, inst, False, "every path throws: %s" % sorted({t[1] for t in s.r.throws}), where)
        return None
    if len(os_) == 1 and os_[0].t.k == "obj":
        got = leaf(os_[0].t.a[1])
        if got != cls:
            ctx.ob(rule, inst, False, "creates %s, expected %s" % (got, cls), where)
            return None
        ctx.ob(rule, inst, True, "", where)
        return os_[0]
    got = sorted({leaf(o.t.a[1]) if o.t.k == "obj" else text(o.t, 80) for o in os_})
    if all(o.t.k == "obj" or o.t is NULL for o in os_) and not [g for g in got if g == cls]:
        ctx.ob(rule, inst, False, "creates %s, expected %s" % (got, cls), where)
        return None
    ctx.ob(rule, inst, None, "creates %s" % got, where)
    return None


def refused(ctx, s, inst, where, rule="unrecognised variant refused"):
    """no path of this scenario returns normally"""
    if s.ret is None or s.r.pc is FALSE:
        return ctx.ob(rule, inst, True, "", where)
    ok = any(isc(t[0]) and t[0].a[0] for t in s.r.throws)
    if ok:
        return ctx.ob(rule, inst, True, "", where)
    c = canon(s.ev, s.ret)
    return ctx.ob(rule, inst, None if vague(s.r.pc) else False, "a value is returned: %s" % c[:200], where)


def required(ctx, s, keys, inst, where, rule="required field"):
    """each key is demanded with an accessor that refuses absence (at), on every path of the scenario"""
    dem = set()
    soft = set()
    for ef, pc, loops, stack in flat(s.r.trace):
        if ef[0] == "jreq" and isc(ef[2]):
            dem.add(ef[2].a[0])
    for k in keys:
        ctx.ob(rule, "%s.%s" % (inst, k), True if k in dem else None, "", where)
