import json

from spv import gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 900, "thorough": 30000}
RULE = "documents x 0-3 edits; non-trivial = at least one edit changed the exported document"


def generate(g, tier):
    cfg = gen.Cfg(versions=["3.8.59", "3.8", "4.0.1"])
    if g.bool(0.25):
        cfg = gen.Cfg(rich=0.4, pool=gen.NUMS, slots=(0, 3), other=0.8, consts=0.6, empties=0.2)
    doc = gen.gen_doc(g, cfg)
    return {"doc": doc, "ops": gen.gen_ops(g, doc, kinds=("erase_anims", "erase_skins", "clean", "scale"), lo=0, hi=3, keep_anim=g.bool(0.8))}


def reload_check(ed, what):
    d1 = lib.export(ed)
    text = json.dumps(d1)
    require_same(d1, json.loads(text), "export %s is not plain JSON" % what)
    ed2 = lib.guard("loading the export %s again" % what, lib.SpineAnimationEditor, json.loads(text))
    d2 = lib.export(ed2)
    require_same(d1, d2, "export %s changes when loaded and exported again" % what)
    a, b = set(lib.images(ed)), set(lib.images(ed2))
    require(a == b, "image references differ after reloading the export %s: lost %s, new %s", what, sorted(a - b), sorted(b - a))
    return d1


def check(case, ctx):
    ed = lib.editor(case["doc"])
    last = reload_check(ed, "of the loaded document")
    for op in case["ops"]:
        ed, _ = lib.apply_op(ed, op)
        d = reload_check(ed, "after %s" % op[0])
        if d != last:
            ctx.nt()
            ctx.label("changed by " + op[0])
        if not d.get("slots"):
            ctx.label("no slots left")
        if not d.get("animations"):
            ctx.label("no animations left")
        last = d
