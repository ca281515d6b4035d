import copy
import operator

from spv import gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 2500, "thorough": 120000}
RULE = "pairs of version strings (numeric tuples near each other, leading zeros, 2 and 3 parts), malformed strings, and documents labelled with them; non-trivial = the order is decided by a later component against an earlier-looking one, or the string is malformed but contains digits and dots"
OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def number(g):
    return g.weighted([(6, g.int(0, 10)), (2, g.pick([3, 4, 7, 8, 9])), (1, g.pick([59, 93, 99, 100, 999, 1000, 1001, 2000, 1000000, 12345678901]))])


def show(g, t):
    parts = [("0" * g.weighted([(8, 0), (1, 1), (1, 2)])) + str(x) for x in t]
    if t[2] == 0 and g.bool():
        parts = parts[:2]
    return ".".join(parts)


PIECES = ["3", "8", "59", "0", ".", ".", ".", "-1", "a", " ", "_", "x", "", "+", "-", "beta", "\n", "３", "٣", "²", "v", "e", ",", "0x3", "1_0"]


def generate(g, tier):
    kind = g.weighted([(6, "pair"), (3, "malformed"), (1, "doc")])
    if kind == "malformed":
        if g.bool(0.5):
            s = "".join(g.pick(PIECES) for _ in range(g.int(0, 7)))
        else:
            s = show(g, [number(g), number(g), number(g)])
            i = g.int(0, len(s))
            s = s[:i] + g.pick(PIECES + [".1", "\t", "\u00a0", "\0"]) + s[i + (g.int(0, 1)):]
        return {"kind": kind, "s": s}
    a = [number(g), number(g), number(g)]
    b = [number(g), number(g), number(g)] if g.bool(0.4) else [x if g.bool(0.6) else max(0, x + g.int(-1, 1)) for x in a]
    if g.bool(0.15):
        # the same number when the parts are packed into one with some radix
        radix = g.pick([10, 100, 1000, 10000, 256, 65536, 1 << 20, 1000000])
        i = g.int(1, 2)
        b = list(a)
        b[i - 1] += 1
        a[i] += radix
        if i == 1 and g.bool(0.3):
            a[0], b[0] = b[0], a[0]
    if kind == "doc":
        v = show(g, [g.pick([3, 3, 4, 5, 10]), g.pick([8, 9, 10, 0, 1, 80]), number(g)])
        return {"kind": kind, "version": v, "doc": gen.gen_doc(g, gen.Cfg(slots=(0, 3), skins=(0, 1), anims=(0, 2), bones=(0, 2)))}
    return {"kind": kind, "a": show(g, a), "b": show(g, b)}


def reference(s):
    """(major, minor, patch) or None when malformed."""
    parts = s.split(".")
    if len(parts) not in (2, 3) or not all(p and all(c in "0123456789" for c in p) for p in parts):
        return None
    return tuple([int(p) for p in parts] + [0])[:3]


def check(case, ctx):
    V = lib.SpineVersion
    if case["kind"] == "malformed":
        s = case["s"]
        t = reference(s)
        ctx.label("well-formed" if t else "malformed")
        if t is None:
            e = lib.refused("the version string %r" % s, V, s)
            require(isinstance(e, ValueError), "version string %r raised %s instead of a value error", s, type(e).__name__)
            e = lib.refused("the version string %r (validate)" % s, V.validate, s)
            ctx.nt(any(c.isdigit() for c in s) and "." in s)
            bad = {"skeleton": {"spine": s}, "bones": [{"name": "root"}], "slots": [], "skins": []}
            e = lib.refused("a document of version %r" % s, lib.SpineAnimationEditor, bad)
            require(isinstance(e, ValueError), "document of version %r raised %s instead of a value error", s, type(e).__name__)
            return
        case = {"kind": "pair", "a": s, "b": s}
    if case["kind"] == "doc":
        t = reference(case["version"])
        doc = copy.deepcopy(case["doc"])
        doc["skeleton"]["spine"] = case["version"]
        if t < (3, 8, 0):
            return
        out = lib.export(lib.editor(doc))
        require_same(doc["skeleton"], out.pop("skeleton"), "skeleton header")
        doc["skeleton"]["spine"] = "3.8"
        ref = lib.export(lib.editor(doc))
        ref.pop("skeleton")
        require_same(ref, out, "a document of version %s is not treated like one of version 3.8" % case["version"])
        ctx.label("document")
        return
    a, b = case["a"], case["b"]
    ta, tb = reference(a), reference(b)
    va, vb = lib.guard("SpineVersion(%r)" % a, V, a), lib.guard("SpineVersion(%r)" % b, V, b)
    for v, t, s in ((va, ta, a), (vb, tb, b)):
        require((v.major, v.minor, v.patch) == t, "version %r parsed as %r", s, (v.major, v.minor, v.patch))
        require(str(v) == s, "str(SpineVersion(%r)) is %r", s, str(v))
        require(lib.guard("split_version", V.split_version, s) == t, "split_version(%r)", s)
    for name, op in OPS.items():
        want = op(ta, tb)
        for rhs, how in ((vb, "version"), (b, "string")):
            got = lib.guard("SpineVersion(%r) %s %s %r" % (a, name, how, b), op, va, rhs)
            require(got is want, "SpineVersion(%r) %s %s %r is %r, expected %r", a, name, how, b, got, want)
        got = lib.guard("string %r %s SpineVersion(%r)" % (a, name, b), op, a, vb)
        require(got is want, "string %r %s SpineVersion(%r) is %r, expected %r", a, name, b, got, want)
    ctx.nt(ta != tb and not (all(x <= y for x, y in zip(ta, tb)) or all(x >= y for x, y in zip(ta, tb))))
    ctx.label("equal" if ta == tb else "different")
