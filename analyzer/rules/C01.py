"""C01 keyword tables of the problem-file reader: every documented keyword yields exactly its meaning, anything else is refused."""
from lib import *

EXPL = ("Every keyword-decoding function of the JSON reader is evaluated by a gated value-flow analysis into its complete decision "
        "table over the input string (all string constants it is compared with, plus the 'none of them' row); each row is compared "
        "with the table of the file format. A row is broken when the keyword yields another enumerator/class, is refused, or when the "
        "'none of them' row can complete without throwing.")
FLOOR = 50
J = "SEMBA::Parser::JSON::Parser::"
OR = "SEMBA::OutputRequest::Base::"
MT = "SEMBA::PhysicalModel::PhysicalModel::Type"
MP = "SEMBA::PhysicalModel::Multiport::Multiport::Type"

# function -> (enum type, {keyword: enumerator}, tolerant: surrounding blanks are ignored)
TABLES = {
    "strToOutputType": ("SEMBA::OutputRequest::Base::Type", {
        "electricField": "electric", "magneticField": "magnetic", "electricFieldNormals": "electricFieldNormals",
        "magneticFieldNormals": "magneticFieldNormals", "current": "current", "bulkCurrentElectric": "bulkCurrentElectric",
        "bulkCurrentMagnetic": "bulkCurrentMagnetic", "surfaceCurrentDensity": "surfaceCurrentDensity", "farField": "electric"}, True),
    "strToGeneratorType": ("SEMBA::Source::Generator::Type", {"voltage": "voltage", "current": "current"}, True),
    "strToGeneratorHardness": ("SEMBA::Source::Generator::Hardness", {"soft": "soft", "hard": "hard"}, True),
    "strToMaterialType": (MT, {
        "PEC": "PEC", "PMC": "PMC", "PML": "PML", "SMA": "SMA", "Classic": "classic", "Dispersive": "elecDispersive",
        "Anisotropic": "anisotropic", "SIBC": "isotropicsibc", "Wire": "wire", "Connector": "multiport", "Thin_gap": "gap"}, True),
    "strToMultiportType": (MP, {
        "Conn_short": "shortCircuit", "Conn_open": "openCircuit", "Conn_matched": "matched", "Conn_sRLC": "sRLC", "Conn_pRLC": "pRLC",
        "Conn_sLpRC": "sLpRC", "Conn_dispersive": "dispersive"}, True),
    "strToNodalType": ("SEMBA::Source::OnLine::Type", {"electricField": "electric", "magneticField": "magnetic"}, True),
    "strToNodalHardness": ("SEMBA::Source::OnLine::Hardness", {"soft": "soft", "hard": "hard"}, True),
    "strToTEMMode": ("SEMBA::Source::Port::TEM::ExcitationMode", {"Voltage": "voltage", "Current": "current"}, False),
    "strToWaveguideMode": ("SEMBA::Source::Port::Waveguide::ExcitationMode", {"TE": "TE", "TM": "TM"}, False),
    "strToCartesianAxis": ("SEMBA::Math::Constants::CartesianAxis", {"x": "x", "y": "y", "z": "z"}, False),
    "strToBoundType": ("class SEMBA::PhysicalModel::Bound::", {
        "PEC": "PEC", "PMC": "PMC", "PML": "PML", "Periodic": "Periodic", "MUR1": "Mur1", "MUR2": "Mur2"}, False),
}


def keyword_table(ctx, fn, spec, label, where_file=None):
    enum, want, tol = spec
    ev = ctx.ev(lambda f: None if "/parser/" in f["file"] else ("/physicalModel/" in f["file"] or "/class/" in f["file"]),
                opaque={"SEMBA::Parser::Parser::trim", "SEMBA::Parser::Parser::ltrim", "SEMBA::Parser::Parser::rtrim"})
    p = sym("str")
    r = ev.run(fn, args=[p] * 1)
    where = ctx.loc(fn)

    def normal(t):
        """the input string, possibly with blanks stripped; nothing else may touch it"""
        while t.k in ("call", "out", "m"):
            xs = [x for x in t.a if x.__class__ is T]
            if t.k == "call" and t.a[0].split("::")[-1] in ("trim", "ltrim", "rtrim") and len(xs) <= 2:
                t = xs[-1]
                continue
            if t.k == "out":
                t = t.a[1]
                continue
            return False
        return t is p

    def trimmed(t):
        return t is not p and normal(t)

    # a prefix test  s.find(K) == 0
    tb = {}
    eqs = [x for x in alleqs(r)]
    pref = {}
    scr = set()
    other = []
    for x in eqs:
        s0 = x.a[0]
        if isinstance(x.a[1].a[0], str) and normal(s0):
            scr.add(s0)
        elif s0.k == "call" and s0.a[0].endswith("::find") and len(s0.a) == 3 and normal(s0.a[1]) and isc(s0.a[2]) and x.a[1].a[0] == 0:
            pref[x] = s0.a[2].a[0]
            scr.add(s0.a[1])
        else:
            other.append(x)
    keys = {x.a[1].a[0] for x in eqs if isinstance(x.a[1].a[0], str) and normal(x.a[0])} | set(pref.values())

    def row(k):
        m = {}
        for x in eqs:
            if x in pref:
                m[x] = C(k is not None and k.startswith(pref[x]))
            elif isinstance(x.a[1].a[0], str) and normal(x.a[0]):
                m[x] = C(k is not None and x.a[1].a[0] == k)
        out = []
        thrown = False
        for th in r.throws:
            c = subst(th[0], m)
            if isc(c) and c.a[0]:
                thrown = True
            if not (isc(c) and not c.a[0]):
                out.append((c, "throw"))
        if r.ret is not None and not thrown:
            c = subst(r.pc, m)
            if not (isc(c) and not c.a[0]):
                for c2, l in leaves(subst(r.ret, m)):
                    out.append((land(c, c2), l))
        return out

    def name(l):
        if l == "throw":
            return "refused"
        if enum.startswith("class "):
            if l.k == "obj":
                return short(l.a[1]).split("::")[-1]
            return None
        if isc(l):
            return enumname(ctx.P, enum, l.a[0])
        return None
    for k in sorted(set(want) | keys):
        rw = row(k)
        got = sorted({str(name(l)) for c, l in rw})
        w = want.get(k, "refused")
        inst = "%s(%r) = %s" % (label, k, w)
        if got == [w]:
            ctx.ob("keyword row", inst, True, "", where)
        elif "None" in got or not got or (other and w in got):
            ctx.ob("keyword row", inst, None, "values %s" % got, where)
        else:
            ctx.ob("keyword row", inst, False, "the keyword %r yields %s, the file format says %s" % (k, "/".join(got), w), where)
    rw = row(None)
    got = sorted({str(name(l)) for c, l in rw})
    bad = [g for g in got if g != "refused"]
    inst = "%s(any other text) refused" % label
    if got == ["refused"]:
        ctx.ob("unknown keyword refused", inst, True, "", where)
    elif not got or "None" in got or other:
        ctx.ob("unknown keyword refused", inst, None, "values %s" % got, where)
    else:
        ctx.ob("unknown keyword refused", inst, False, "an unrecognised keyword yields %s" % "/".join(got), where)
    if tol:
        t = [x for x in scr]
        ctx.ob("blanks around the keyword are ignored", label, True if t and all(trimmed(x) for x in t) else (False if t and any(x is p for x in t) else None),
               "the keyword is compared without removing the surrounding blanks", where)


def alleqs(r):
    from lib import _alleqs
    return _alleqs(r)


def check(ctx):
    for fn, spec in TABLES.items():
        f = ctx.fn(J + fn, nparams=1)
        keyword_table(ctx, f, spec, fn)
