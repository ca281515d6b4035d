import copy

from spv import gen, lib, model, schema as S
from spv.core import require, require_same
from spv.props.c04 import at, sites

EXAMPLES = {"quick": 500, "thorough": 15000}
RULE = "documents x target versions; non-trivial = a version before 3.8 and keyframes with omitted values"
OLD = ["3.7", "3.7.93", "3.7.99", "3.6.53", "2.1.27", "0.9", "3.0", "3.7.1000", "1.10"]
NEW = ["3.8", "3.8.0", "3.8.59", "3.8.99", "3.9", "3.10", "4.0", "10.0.1", "3.11.2"]
# attributes that only the 3.8 format allows to be omitted, besides "time"
ONLY38 = {
    "key bones.rotate": ("angle",), "key bones.translate": ("x", "y"), "key bones.scale": ("x", "y"), "key bones.shear": ("x", "y"),
    "key ik": ("stretch", "compress"), "key deform": ("offset",),
}
CURVED = ("bones", "slots", "ik")


def spec_of(label):
    kind = label[4:]
    if "." in kind:
        grp, t = kind.split(".", 1)
        return S.TIMELINES[grp].get(t, {})
    return {"ik": S.K_IK, "transform": S.K_TRANSFORM, "deform": S.K_DEFORM, "drawOrder": S.K_DRAW, "events": S.EVENTKEY}[kind]


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(slots=(0, 4), bones=(0, 4), skins=(0, 2), anims=(1, 2), other=0.9, consts=0.7, rich=g.pick([0.05, 0.3]), big=0))
    return {"doc": doc, "versions": g.list(1, 3, lambda _: g.pick(OLD if g.bool(0.75) else NEW)), "clean": g.pick(OLD if g.bool(0.75) else NEW)}


def typed(doc):
    return lib.guard("loading the document", lib.JsonSpineAnimationData, doc).data


def check(case, ctx):
    doc = case["doc"]
    data = typed(doc)
    v38 = lib.SpineVersion("3.8")
    base = lib.guard("to_json(3.8)", data.to_json, v38)
    # the reference for the values is the caller's own document
    require_same(model.norm(dict(doc, skeleton=0)), model.norm(dict(base, skeleton=0)), "export for 3.8 (left: document)")
    for v in case["versions"]:
        ver = lib.SpineVersion(v)
        out = copy.deepcopy(lib.guard("to_json(%s)" % v, data.to_json, ver))
        again = lib.guard("to_json(3.8)", data.to_json, v38)
        require_same(base, again, "exporting for %s changed the document" % v)
        if v in NEW:
            ctx.label("newer version")
            require_same(base, out, "export for %s differs from the export for 3.8" % v)
            continue
        ctx.label("older version")
        explicit(doc, out, v, ctx)
        a, b = model.norm(dict(doc, skeleton=0)), model.norm(dict(out, skeleton=0))
        for sec in ("bones", "slots", "skins", "ik", "transform", "path", "events"):
            require_same(a[sec], b[sec], "%s in the export for %s" % (sec, v))
        back = lib.guard("loading the export for %s" % v, lib.SpineAnimationData, dict(out, skeleton=doc["skeleton"]))
        lib.guard("set_default_values(%s)" % v, back.set_default_values, ver)
        require_same(base, lib.guard("to_json(3.8)", back.to_json, v38), "values after exporting for %s and reading back with its defaults" % v)
        require_same(out, lib.guard("to_json(%s)" % v, back.to_json, ver), "exporting for %s, reading back and exporting again" % v)
    data = typed(doc)
    v = case["clean"]
    lib.guard("clean_unsupported_attributes(%s)" % v, data.clean_unsupported_attributes, lib.SpineVersion(v))
    got = lib.guard("to_json(3.8)", data.to_json, v38)
    want = copy.deepcopy(base)
    if v in OLD:
        for label, path in sites(dict(want, skins=want["skins"])):
            if label.startswith("key ") and label[4:].split(".")[0] in CURVED:
                k = at(want, path)
                for c in ("c2", "c3", "c4"):
                    if c in k:
                        del k[c]
                        ctx.label("curve attribute dropped")
    require_same(want, got, "removing the attributes %s does not support" % v)


def explicit(doc, out, v, ctx):
    for label, path in sites(doc):
        if not label.startswith("key "):
            continue
        src = at(doc, path)
        try:
            got = at(out, path)
        except (KeyError, IndexError):
            require(False, "%s at %s is missing from the export for %s", label, path, v)
        for attr, (kind, default) in spec_of(label).items():
            want = src.get(attr)
            if want is None and default is not S.NODEF:
                want = default
            value = got.get(attr)
            if attr == "time" or attr in ONLY38.get(label, ()):
                require(value is not None, "%s at %s: %s=%r is not written in the export for %s", label, path, attr, want, v)
                if src.get(attr) is None or src.get(attr) == default:
                    ctx.nt()
            else:
                require(value != [] or src.get(attr) is not None, "%s at %s: %s=%r appeared in the export for %s", label, path, attr, value, v)
                if value is None and default is not S.NODEF:
                    value = default
            if want is None or want == [] or want == "":
                require(value in (None, [], ""), "%s at %s: %s=%r appeared in the export for %s", label, path, attr, value, v)
            else:
                require(value == want and isinstance(value, bool) == isinstance(want, bool), "%s at %s: %s is %r in the export for %s, expected %r", label, path, attr, value, v, want)
