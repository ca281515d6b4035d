from spv import gen, lib, model
from spv.core import require, Violation, short

EXAMPLES = {"quick": 700, "thorough": 25000}
RULE = ("documents x 1-3 edits, rendered before and after at every key time, between and outside them, for every remaining animation and skin; "
        "non-trivial = the edit removed a slot or attachment and something is drawn")
ASSUMPTIONS = ["deform keys a linked mesh inherits from a parent mesh in another skin are not part of the rendering model",
               "the attachment name None is reserved (not generated)"]


def generate(g, tier):
    doc = gen.gen_doc(g, gen.focused(g, bones=(0, 2), slots=(1, 6), skins=(0, 2), other=0.05, consts=0.15, empties=0.15))
    return {"doc": doc, "ops": gen.gen_ops(g, doc, kinds=("erase_anims", "clean", "erase_skins"), lo=1, hi=3)}


def check(case, ctx):
    ed = lib.editor(case["doc"])
    before = case["doc"]
    for op in case["ops"]:
        base, _ = model.after_op(before, op)
        ed, _r = lib.apply_op(ed, op)
        after = lib.export(ed)
        removed = len(model.skin_atts(after)) < len(model.skin_atts(base)) or len(after.get("slots", [])) < len(base["slots"])
        for skin in model.skin_names(after):
            for an in model.anim_names(after):
                if an not in base["animations"]:
                    raise Violation("animation %r appeared" % an)
                f1 = model.frames(base, skin, an)
                f2 = model.render_at(after, skin, an, [t for t, _ in f1])
                for (t, a), (_, b) in zip(f1, f2):
                    if a != b:
                        raise Violation("%s changed what animation %r shows with skin %r at t=%s: before %s, after %s" % (op[0], an, skin, t, diff(a, b), diff(b, a)))
                if removed and any(x for _, x in f1):
                    ctx.nt()
                    ctx.label("removed by " + op[0])
        before = after
        if "slots" not in before:
            before["slots"] = []


def diff(a, b):
    if not isinstance(a, list) or not isinstance(b, list):
        return a
    only = [x for x in a if x not in b]
    return short(only or [x["slot"] for x in a], 400)
