import copy

from spv import gen, lib
from spv.core import require, require_same
from spv.props.c04 import at, sites

EXAMPLES = {"quick": 350, "thorough": 15000}
RULE = ("documents in which values the format assumes are spelled out in generated places, then edited; non-trivial = at least three "
        "values were spelled out")
# The values that exports leave out, by kind of object. Written down from the format; attributes whose assumed value the
# library keeps when a document spells it out (constraint modes, mixes of transform constraints, ...) are not promised.
PLACED = {"x": 0, "y": 0, "rotation": 0}
CURVE = {"time": 0, "c2": 0, "c3": 1, "c4": 1}
LEFT_OUT = {
    "bones": {"length": 0, "x": 0, "y": 0, "rotation": 0, "scaleX": 1, "scaleY": 1, "shearX": 0, "shearY": 0, "transform": "normal"},
    "attachment None": dict(PLACED, scaleX=1, scaleY=1), "attachment region": dict(PLACED, scaleX=1, scaleY=1),
    "attachment point": PLACED, "attachment linkedmesh": {"deform": True}, "attachment path": {"closed": False, "constantSpeed": True},
    "ik": {"order": 0, "bendPositive": True, "softness": 0, "compress": False, "stretch": False, "uniform": False},
    "transform": {"order": 0, "rotation": 0, "x": 0, "y": 0, "scaleX": 0, "scaleY": 0, "shearY": 0},
    "path": {"skin": False, "rotation": 0, "position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1},
    "event": {"int": 0, "float": 0, "string": ""},
    "key bones.rotate": dict(CURVE, angle=0), "key bones.translate": dict(CURVE, x=0, y=0), "key bones.shear": dict(CURVE, x=0, y=0),
    "key bones.scale": dict(CURVE, x=1, y=1), "key slots.attachment": {"time": 0}, "key slots.color": CURVE, "key slots.twoColor": CURVE,
    "key ik": dict(CURVE, bendPositive=True, compress=False, stretch=False), "key transform": CURVE,
    "key path.position": dict(CURVE, position=0), "key path.spacing": dict(CURVE, spacing=0),
    "key path.mix": dict(CURVE, rotateMix=1, translateMix=1), "key deform": dict(CURVE, offset=0),
    "key events": {"time": 0, "volume": 1, "balance": 0}, "key drawOrder": {"time": 0},
}
VERS = ["3.8.59", "3.8", "3.8.99", "3.9.0", "4.0.1", "10.2"]


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(rich=g.pick([0.0, 0.08, 0.3]), bones=(0, 3), slots=(0, 4), skins=(0, 2), anims=(1, 2), other=0.9, consts=0.7, versions=VERS))
    p = g.pick([1.0, 0.5, 0.1, 0.0])
    which = []
    for label, path in sites(doc):
        for k, v in LEFT_OUT.get(label, {}).items():
            if at(doc, path).get(k) is None and (p == 1.0 or g.bool(p)):
                which.append([path, k, g.bool(0.3) if isinstance(v, int) and not isinstance(v, bool) else False])
    return {"doc": doc, "spelled": which, "ops": gen.gen_ops(g, doc, lo=0, hi=3) if g.bool(0.6) else []}


def run(doc, ops):
    ed = lib.editor(copy.deepcopy(doc))
    out = [lib.export(ed)]
    for op in ops:
        ed, _ = lib.apply_op(ed, op)
        out.append(lib.export(ed))
    return out, copy.deepcopy(lib.images(ed))


def check(case, ctx):
    doc = case["doc"]
    full = copy.deepcopy(doc)
    label_of = {repr(p): l for l, p in sites(doc)}
    for path, k, as_float in case["spelled"]:
        label = label_of[repr(path)]
        v = LEFT_OUT[label][k]
        at(full, path)[k] = float(v) if as_float else v
        ctx.label("%s: %s" % (label, k))
    a, ai = run(doc, case["ops"])
    b, bi = run(full, case["ops"])
    for i, (x, y) in enumerate(zip(a, b)):
        require_same(x, y, "export %s of the document and of the one that spells assumed values out" % (
            "without edits" if i == 0 else "after %s" % case["ops"][i - 1][0]))
    require_same(ai, bi, "image references of the two documents")
    # nothing is written that an object of the document does not have (null names and empty lists of offsets say nothing)
    for label, path in sites(doc):
        src, got = at(doc, path), at(a[0], path)
        for k, v in got.items():
            require(k in src or v is None or v == [] and label == "key drawOrder", "%s at %s: %s=%r is written but the document has no %s there", label, path, k, v, k)
    for lst in a:
        for label, path in sites(lst):
            for k, v in LEFT_OUT.get(label, {}).items():
                o = at(lst, path)
                require(not (k in o and o[k] == v and isinstance(o[k], bool) == isinstance(v, bool)),
                        "%s at %s: %s=%r is written although the format assumes it", label, path, k, o.get(k))
    ctx.nt(len(case["spelled"]) >= 3)
    for op in case["ops"]:
        ctx.label("op " + op[0])
